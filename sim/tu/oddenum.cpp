#include "../drivers/enums.hpp"
EM_SCENARIO(emap_odd, EGap, Odd, false)
EA_SCENARIO(earr_odd, EGap, Odd)
EM_SCENARIO(emap_oddp, EGap, OddPod, false)
EA_SCENARIO(earr_oddp, EGap, OddPod)
EM_SCENARIO(emap_oddany, EGap, OddAny, false)
EA_SCENARIO(earr_oddany, EGap, OddAny)
