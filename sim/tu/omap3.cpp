#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(omap_lay_6, OM, Lay3, Lay7, 6, CfgPool)
MAP_SCENARIO(omap_lay_10, OM, Lay7, Lay12, 10, CfgPoolT)
MAP_SCENARIO(omap_lay_5, OM, Lay24, Lay3, 5, CfgCont)
MAP_SCENARIO(omap_abort_6, OM, Tr, Tr, 6, CfgContA)
MAP_SCENARIO(omap_aint_3, OM, Int, Int, 3, CfgAbort)
