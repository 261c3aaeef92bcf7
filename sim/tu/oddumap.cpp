#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(umap_odd_7, UM, Odd, Odd, 7, CfgPool)
MAP_SCENARIO(uset_odd_7, US, Odd, Int, 7, CfgTight)
MAP_SCENARIO(umap_oddp_7, UM, OddPod, OddPod, 7, CfgPool)
MAP_SCENARIO(umap_oddany_4, UM, Int, OddAny, 4, CfgPool)
