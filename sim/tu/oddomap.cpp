#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(omap_odd_7, OM, Odd, Odd, 7, CfgPool)
MAP_SCENARIO(oset_odd_7, OS, Odd, Int, 7, CfgContD)
MAP_SCENARIO(omap_oddp_7, OM, OddPod, OddPod, 7, CfgCont)
MAP_SCENARIO(omap_oddany_4, OM, Int, OddAny, 4, CfgPool)
