#include "../drivers/maps.hpp"
MAP_SCENARIO(omap_ctg_9, OM, Tr, Tr, 9, CfgCont)
MAP_SCENARIO(omap_ctgpod_12, OM, Pod, Pod, 12, CfgContD)
MAP_SCENARIO(omap_big_40, OM, Tr, Pod, 40, CfgPool)
MAP_SCENARIO(omap_ta_7, OM, Ta, Pod, 7, CfgCont)
MAP_SCENARIO(omap_pa_6, OM, Pa, Pa, 6, CfgPool)
