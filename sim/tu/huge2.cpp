#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(umap_huge_280, UM, Pod, Pod, 280, CfgPool)
MAP_SCENARIO(uset_huge_270, US, Int, Int, 270, CfgTight)
MAP_SCENARIO(umap_huge_256, UM, Int, Int, 256, CfgTight)
