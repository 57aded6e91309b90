unit("C31", "custom", "throw_ex.cpp", "custom", "0..2 operands of 10 kinds, arbitrary characters, a user defined exception", thorough=dict(params=dict(max=3)))
unit("C31", "custom_11", "throw_ex.cpp", "custom", "the same in C++11", std="c++11")
unit("C31", "runtime_error", "throw_ex.cpp", "runtime_error", "0..2 operands of 10 kinds, arbitrary characters, std::runtime_error (its type only)", thorough=dict(params=dict(max=3)))
unit("C31", "poly", "throw_ex.cpp", "poly", "0..2 operands, an exception derived from std::exception", thorough=dict(params=dict(max=3)))
unit("C31", "long", "throw_ex.cpp", "longText", "texts of 11 lengths from 1 to 200003 characters", std="c++17")
unit("C31", "nested", "throw_ex.cpp", "nested", "an expression which catches another throw_ex while it is evaluated")
A["C31"] = ["no operand throws and no exception is in flight (otherwise the program is terminated, as documented in the code)", "ios_base, locale and facet constructors (in libstdc++'s shared library) are replaced by stand-ins for the C locale; the stream functions are libstdc++'s template code", "texts with zeros are compared for exceptions which keep a std::string"]
