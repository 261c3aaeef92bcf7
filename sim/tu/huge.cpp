#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(omap_huge_300, OM, Pod, Pod, 300, CfgPool)
MAP_SCENARIO(oset_huge_260, OS, Pod, Int, 260, CfgContD)
MAP_SCENARIO(omap_huge_256, OM, Int, Int, 256, CfgCont)
