#include "core_ses.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
SesBase* CAT(makeSes, CORE_A)() { return new SesImpl<CORE_A>(); }
