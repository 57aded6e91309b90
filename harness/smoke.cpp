#include "vf.h"
#include <itlib/static_vector.hpp>
typedef vf::Tracked<1> E;
VF_ENTRY h_smoke() {
    itlib::static_vector<E, 5> v;
    size_t n = vf::pick("n", 4);
    vf::Seq<uint32_t, 16> m;
    for (size_t i = 0; i < n; ++i) { uint32_t x = vf::u32("x"); v.push_back(x); m.push(x); }
    size_t p = vf::pick("p", n + 1);
    uint32_t x = vf::u32("y");
    v.insert(v.begin() + p, x); m.insert(p, x);
    vf_check(v.size() == m.n, "size");
    for (size_t i = 0; i < m.n; ++i) vf_check(v[i].v == m.a[i], "elem");
    if (v[0].v == 17) vf_reach("17");
    vf_reach("end");
    vf_observe(v.size());
    vf_observe(v[0].v);
}
VF_ENTRY h_bad() {
    uint32_t x = vf::u32("x"), y = vf::u32("y");
    vf_assume(x < 100 && y < 100);
    int* p = new int[10];
    p[x % 11] = y;
    vf_check(x + y != 150, "sum");
    delete[] p;
}
#include <cstring>
struct SA{virtual ~SA(){} int a=1;}; struct SB{virtual ~SB(){} int b=2;}; struct SC:SA,SB{int c=3;}; struct SD:SA{}; struct SE:virtual SA{}; 
VF_ENTRY h_lib(){
  SA* p = new SC; SB* q = dynamic_cast<SB*>(p); vf_check(q && q->b==2,"1"); vf_check(dynamic_cast<SC*>(q)->c==3,"2"); vf_check(!dynamic_cast<SD*>(p),"3"); delete p;
  SA* e = new SE; vf_check(dynamic_cast<SE*>(e),"4"); delete e;
  char b[8]; strncpy(b,"abc",8); vf_check(strlen(b)==3 && b[7]==0,"5"); strcat(b,"de"); vf_check( !strcmp(b,"abcde"),"6"); vf_check(strchr(b,'d')==b+3 && strrchr(b,'z')==nullptr,"7");
}
