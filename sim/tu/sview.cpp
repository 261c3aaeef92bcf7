// Unoptimised, so that work on elements that are not there (however trivial) really is done.
#pragma clang optimize off
#include "../drivers/sview.hpp"
SV_SCENARIO(sview_flat, P1)
SV_SCENARIO(sview_nest, P2)
SV_SCENARIO(sview_dyn, P3)
SV_SCENARIO(sview_big, P4)
