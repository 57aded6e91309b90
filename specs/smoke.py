unit("SMOKE", "smoke", "smoke.cpp", "h_smoke", "x")
unit("SMOKE", "bad", "smoke.cpp", "h_bad", "x")
unit("SMOKE", "lib", "smoke.cpp", "h_lib", "x")
