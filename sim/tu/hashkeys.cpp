#include "../drivers/maps.hpp"
#include <string_view>
namespace sim { using Int = int; using SView = std::string_view; using F64 = double; using F32 = float; }
MAP_SCENARIO(umap_view_12, UM, SView, Int, 12, CfgAbort)
MAP_SCENARIO(uset_view_9, US, SView, Int, 9, CfgDef)
MAP_SCENARIO(umap_spot_7, UM, SpotPtr, Pod, 7, CfgDef)
MAP_SCENARIO(uset_ekey_6, US, EKey, Int, 6, CfgDef)
MAP_SCENARIO(umap_f64_8, UM, F64, Int, 8, CfgDef)
MAP_SCENARIO(uset_f32_6, US, F32, Int, 6, CfgDef)
MAP_SCENARIO(uset_ukey_5, US, UKey, Int, 5, CfgDef)
