#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(omap_def_6, OM, Int, Int, 6, CfgDef)
MAP_SCENARIO(omap_pod_8, OM, Pod, Pod, 8, CfgPool)
MAP_SCENARIO(omap_tr_7, OM, Tr, Tr, 7, CfgPoolT)
MAP_SCENARIO(omap_mo_5, OM, Tr, Mo, 5, CfgPool)
MAP_SCENARIO(omap_int_0, OM, Int, Int, 0, CfgPool)
MAP_SCENARIO(omap_int_2, OM, Int, Pod, 2, CfgCont)
