#include "../drivers/enums.hpp"
EM_SCENARIO(emap_gap_tr, EGap, Tr, false)
EM_SCENARIO(emap_gap_pod, EGap, Pod, false)
EM_SCENARIO(emap_two_mo, ETwo, Mo, false)
EM_SCENARIO(emap_big_pod, EBig, Pod, true)
EM_SCENARIO(emap_rich_nd, ERich, Nd, false)
ES_SCENARIO(eset_gap, EGap)
ES_SCENARIO(eset_two, ETwo)
ES_SCENARIO(eset_big, EBig)
ES_SCENARIO(eset_rich, ERich)
EA_SCENARIO(earr_gap_tr, EGap, Tr)
EA_SCENARIO(earr_big_pod, EBig, Pod)
EA_SCENARIO(earr_rich_nd, ERich, Nd)
EM_SCENARIO(emap_wide_pod, EWide, Pod, false)
ES_SCENARIO(eset_wide, EWide)
EA_SCENARIO(earr_wide_tr, EWide, Tr)
EM_SCENARIO(emap_gap_ta, EGap, Ta, false)
EM_SCENARIO(emap_gap_pa, EGap, Pa, false)
EA_SCENARIO(earr_gap_ta, EGap, Ta)
EA_SCENARIO(earr_gap_pa, EGap, Pa)
