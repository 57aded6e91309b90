unit("C30", "casts", "utility.cpp", "casts", "19 pairs of types (of up to 300 bytes), every bit pattern", std="c++11")
unit("C30", "owners", "utility.cpp", "owners", "22 members of 9 classes (with offsets up to 110,000, bases, virtual functions, private and packed members), each of several objects", std="c++11")
unit("C30", "moves", "utility.cpp", "moves", "lvalues, references and rvalue references of every value", std="c++11")
unit("C30", "noop", "utility.cpp", "noop", "all pairs of 21 arithmetic and enumeration types and 4 pairs with pointers, every value")
unit("C30", "traits", "utility.cpp", "traits", "20 types")
A["C30"] = ["bit_cast between trivially copyable types (Dst default constructible)", "is_noop_convertible between arithmetic, enumeration and object pointer types"]
