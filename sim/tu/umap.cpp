#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(umap_def_6, UM, Int, Int, 6, CfgDef)
MAP_SCENARIO(umap_pod_8, UM, Pod, Pod, 8, CfgPool)
MAP_SCENARIO(umap_tr_7, UM, Tr, Tr, 7, CfgTight)
MAP_SCENARIO(umap_mo_5, UM, Tr, Mo, 5, CfgOne)
MAP_SCENARIO(umap_big_40, UM, Tr, Pod, 40, CfgPool)
MAP_SCENARIO(umap_lay_6, UM, Lay3, Lay24, 6, CfgPool)
MAP_SCENARIO(umap_lay_9, UM, Lay12, Lay7, 9, CfgTight)
MAP_SCENARIO(umap_abort_6, UM, Int, Tr, 6, CfgAbort)
MAP_SCENARIO(umap_lay_7, UM, Lay16, Lay3, 7, CfgPool)
MAP_SCENARIO(umap_lay_8, UM, Lay12, Lay16, 8, CfgPool)
MAP_SCENARIO(umap_pod_1, UM, Pod, Pod, 1, CfgTight)
MAP_SCENARIO(umap_int_0, UM, Int, Int, 0, CfgPool)
MAP_SCENARIO(umap_ta_7, UM, Int, Ta, 7, CfgPool)
MAP_SCENARIO(umap_pa_6, UM, Pa, Pa, 6, CfgPool)
