static void declGlobals(State& s) {
    for (auto& F : *g_mod) kfun(&F);
    for (auto& G : g_mod->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
        uint64_t a = allocObj(s, sz, G.getAlign() ? G.getAlign()->value() : 16, KGlobal, ANone);
        g_gaddr[&G] = a; g_gname[a] = G.getName().str(); g_gvByAddr[a] = &G;
    }
    for (const char* n : {"_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt12out_of_range", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call", "_ZTISt8bad_cast", "_ZTISt16invalid_argument", "_ZTISt12system_error", "_ZTISt12bad_weak_ptr", "_ZTISt13runtime_error", "_ZTISt14overflow_error", "_ZTISt11range_error", "_ZTISt12domain_error", "_ZTISt13bad_exception", "_ZTISt10bad_typeid"})
        if (!g_mod->getNamedGlobal(n)) { uint64_t a = allocObj(s, 64, 16, KGlobal, ANone); g_extG[n] = a; g_gname[a] = n; }
    for (auto& G : g_mod->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        uint64_t a = g_gaddr[&G];
        if (G.hasInitializer()) initBytes(s, a, G.getInitializer());
        else {
            { Obj& o = wobj(s, a); std::fill(o.fl.begin(), o.fl.end(), 1); } // external: zero
            if (G.getName().starts_with("_ZTI")) { // type info of the runtime library: only its name is used
                std::string nm = G.getName().str().substr(4); uint64_t na = allocObj(s, nm.size() + 1, 1, KGlobal, ANone);
                for (size_t i = 0; i <= nm.size(); ++i) storeConc(s, na + i, cv(i < nm.size() ? (uint8_t)nm[i] : 0), 1, 8, 1);
                wobj(s, na).ro = true; storeConc(s, a + 8, cv(na), 8, 64, 8);
            }
        }
        if (G.isConstant()) wobj(s, a).ro = true;
    }
}
static bool runOne(State& s) {
    try {
        while (!s.ended) {
            step(s);
            if (s.steps > opt.maxSteps) violEnd(s, "nontermination", "no end within " + std::to_string(opt.maxSteps) + " instructions");
            if (!(st.steps & 0xffff) && now() > opt.timeLimit) { if (st.incomplete.empty()) st.incomplete = "time limit"; return false; }
        }
    } catch (PathEnd&) {}
    return true;
}
static size_t rssMB() { std::ifstream f("/proc/self/statm"); size_t a, b = 0; f >> a >> b; return b * 4096 / 1000000; }
static void writeLines(const std::string& path) { // header lines whose code was executed (1) or only compiled (0)
    std::map<std::pair<std::string, unsigned>, int> m;
    for (auto& p : g_fn) for (auto& kb : p.second->bb) for (auto& ki : kb.in) if (ki.I) for (const DILocation* l = ki.I->getDebugLoc().get(); l; l = l->getInlinedAt())
        if (l->getFilename().contains("/itlib/") && l->getLine()) { int& c = m[{l->getFilename().str(), l->getLine()}]; if (kb.covered) c = 1; }
    std::ofstream o(path); for (auto& x : m) o << x.first.first << ":" << x.first.second << " " << x.second << "\n";
}
static void writeJson(const std::string& path, const std::string& entry) {
    std::ofstream o(path);
    o << "{\n \"entry\":\"" << jesc(entry) << "\",\n \"complete\":" << (st.incomplete.empty() ? "true" : "false") << ",\n \"incomplete_reason\":\"" << jesc(st.incomplete) << "\",\n";
    o << " \"states\":" << st.states << ",\"forks\":" << st.forks << ",\"paths\":" << st.paths << ",\"assume_ended\":" << st.assumeEnds << ",\"instructions\":" << st.steps << ",\"checks\":" << st.checks << ",\"check_queries\":" << st.checkQueries
      << ",\"infeasible_sides\":" << st.infeasible << ",\"context_switches\":" << st.switches << ",\"visible_ops\":" << st.visible << ",\"choices\":" << st.choices << ",\"uninit_bytes\":" << st.uninit << ",\"violating_states\":" << st.violations << ",\n";
    o << " \"solver\":{\"queries\":" << g_sst.queries << ",\"sat\":" << g_sst.sat << ",\"unsat\":" << g_sst.unsat << ",\"unknown\":" << g_sst.unknown << ",\"cache_hits\":" << g_sst.cacheHits << ",\"model_hits\":" << g_sst.modelHits << ",\"rewrites_confirmed\":" << g_sst.rwConfirmed << ",\"rewrites_deciding\":" << g_sst.rwDecided << ",\"rewrites_unconfirmed\":" << g_sst.rwSkipped << ",\"rewrite_secs\":" << g_sst.rwSecs << ",\"secs\":" << g_sst.secs << ",\"max_secs\":" << g_sst.maxsecs << "},\n";
    o << " \"wall_s\":" << now() << ",\"rss_mb\":" << rssMB() << ",\"symbolic_vars\":" << g_vars.size() << ",\n";
    o << " \"reach\":{"; bool first = true; for (auto& r : g_reach) { o << (first ? "" : ",") << "\"" << jesc(r.first) << "\":" << r.second; first = false; } o << "},\n";
    o << " \"functions\":["; first = true;
    std::vector<KFunction*> fs; for (auto& p : g_fn) if (p.second->inItlib && p.second->calls) fs.push_back(p.second);
    std::sort(fs.begin(), fs.end(), [](KFunction* a, KFunction* b) { return a->pretty < b->pretty; });
    for (auto* k : fs) {
        unsigned cov = 0, tot = 0; for (auto& b : k->bb) { // blocks that only propagate exceptions are not counted
            bool eh = false; for (auto& i : b.in) if (i.op == Instruction::LandingPad || i.op == Instruction::Resume || i.op == Instruction::Unreachable) eh = true; if (eh) continue; ++tot; if (b.covered) ++cov; }
        o << (first ? "" : ",") << "\n  {\"name\":\"" << jesc(k->pretty) << "\",\"calls\":" << k->calls << ",\"blocks\":" << tot << ",\"covered\":" << cov << "}"; first = false;
    }
    o << "],\n \"violations\":["; first = true;
    auto ins = [&](const std::vector<std::pair<std::string, std::string>>& v) { std::string r = "["; bool f = true; for (auto& p : v) { r += (f ? "" : ","); r += "[\"" + jesc(p.first) + "\",\"" + p.second + "\"]"; f = false; } return r + "]"; };
    auto obs = [&](const std::vector<std::string>& v) { std::string r = "["; bool f = true; for (auto& p : v) { r += (f ? "" : ","); r += "\"" + p + "\""; f = false; } return r + "]"; };
    for (auto& v : g_viols) { o << (first ? "" : ",") << "\n  {\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"uninit\":" << (v.uninit ? "true" : "false") << ",\"stack\":\"" << jesc(v.stack) << "\",\"inputs\":" << ins(v.inputs) << "}"; first = false; }
    o << "],\n \"samples\":["; first = true;
    for (auto& v : g_samples) { o << (first ? "" : ",") << "\n  {\"inputs\":" << ins(v.inputs) << ",\"obs\":" << obs(v.obs) << "}"; first = false; }
    o << "]\n}\n";
}
int main(int argc, char** argv) {
    now();
    std::vector<std::string> bcs; std::string entry = "vf_main", out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") opt.timeLimit = atof(nx().c_str());
        else if (a == "--preempt") opt.preempt = atoi(nx().c_str()); else if (a == "--max-steps") opt.maxSteps = strtoull(nx().c_str(), 0, 0);
        else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str()); else if (a == "--shard") { std::string x = nx(); opt.shard = atoi(x.c_str()); opt.nshards = atoi(x.substr(x.find('/') + 1).c_str()); }
        else if (a == "--samples") opt.samples = atoi(nx().c_str()); else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 0); else if (a == "-v") opt.verbose = true; else if (a == "--grace") opt.graceAfterViol = atof(nx().c_str()); else if (a == "--no-shift") opt.shiftCheck = false;
        else bcs.push_back(a);
    }
    SMDiagnostic err;
    for (auto& b : bcs) {
        auto m = parseIRFile(b, err, g_lc);
        if (!m) { err.print("vfse", errs()); return 3; }
        if (!g_mod) g_mod = std::move(m);
        else if (Linker::linkModules(*g_mod, std::move(m))) { fprintf(stderr, "link failed\n"); return 3; }
    }
    if (!g_mod) { fprintf(stderr, "usage: vfse x.bc --entry f --out f.json\n"); return 3; }
    { // light clean-up only: coroutine lowering, always-inline functions, promotion of locals to registers
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, "coro-early,cgscc(coro-split),coro-cleanup,always-inline,function(sroa,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>)")) { errs() << toString(std::move(e)) << "\n"; return 3; }
        mpm.run(*g_mod, mam);
    }
    DL = &g_mod->getDataLayout();
    initBuiltins();
    auto s0 = std::make_unique<State>();
    s0->model = std::make_shared<Model>();
    s0->th.emplace_back();
    declGlobals(*s0);
    // global constructors, in order
    if (auto* gc = g_mod->getNamedGlobal("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : arr->operands()) {
            auto* F = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts()); if (!F) continue;
            pushFrame(*s0, kfun(F), {}, RetThreadEnd, 0);
            bool lc = s0->leakCheck; s0->leakCheck = false;
            unsigned keep = opt.samples; opt.samples = 0;
            // run to completion
            try { while (!s0->ended) step(*s0); } catch (PathEnd&) { if (!s0->ended) { fprintf(stderr, "global constructor failed: %s\n", st.incomplete.c_str()); writeJson(out, entry); return 3; } }
            s0->ended = false; s0->leakCheck = lc; opt.samples = keep;
            st.paths = 0; g_sampleSeen = 0; g_reach.clear();
        }
    Function* ef = g_mod->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    for (auto& c : s0->mem) if (c) for (auto& o : c->o) if (o) o->old = true;
    s0->reached.clear(); s0->steps = 0; s0->obs.clear(); s0->inputs.clear();
    pushFrame(*s0, kfun(ef), {}, RetThreadEnd, 0);
    g_work.push_back(std::move(s0));
    while (!g_work.empty()) {
        auto s = std::move(g_work.back()); g_work.pop_back();
        if (!runOne(*s)) break;
        if (now() > opt.timeLimit) { if (!g_work.empty() && st.incomplete.empty()) st.incomplete = "time limit"; break; }
        if (g_viols.size() >= opt.maxViol) { if (st.incomplete.empty()) st.incomplete = "stopped after violations"; break; }
        if (g_firstViol >= 0 && now() > g_firstViol + opt.graceAfterViol) { if (st.incomplete.empty()) st.incomplete = "stopped after violation"; break; }
        if (!(st.paths & 0xff) && rssMB() > opt.memMB) { if (st.incomplete.empty()) st.incomplete = "memory limit"; break; }
    }
    if (!out.empty()) writeJson(out, entry);
    if (auto* d = getenv("VF_LINES")) writeLines(std::string(d) + "/" + std::to_string(getpid()) + "." + entry);
    if (opt.verbose || out.empty()) fprintf(stderr, "%s: %s paths=%llu states=%llu instr=%llu queries=%llu rewrites=%llu/%llu/%llu %.2fs solver=%.2fs wall=%.2fs viol=%zu\n", entry.c_str(), st.incomplete.empty() ? "complete" : st.incomplete.c_str(), (unsigned long long)st.paths, (unsigned long long)st.states, (unsigned long long)st.steps, (unsigned long long)g_sst.queries, (unsigned long long)g_sst.rwConfirmed, (unsigned long long)g_sst.rwDecided, (unsigned long long)g_sst.rwSkipped, g_sst.rwSecs, g_sst.secs, now(), g_viols.size());
    fflush(stderr); _exit(g_viols.empty() ? 0 : 1);
}
