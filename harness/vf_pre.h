// force included for the symbolic build: instantiate the standard templates in the unit instead of relying on the library binary
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
