#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(oset_def_6, OS, Int, Int, 6, CfgDef)
MAP_SCENARIO(oset_pod_9, OS, Pod, Int, 9, CfgPoolT)
MAP_SCENARIO(oset_tr_7, OS, Tr, Int, 7, CfgPool)
MAP_SCENARIO(oset_ctg_12, OS, Tr, Int, 12, CfgContD)
MAP_SCENARIO(oset_big_40, OS, Tr, Int, 40, CfgPool)
MAP_SCENARIO(oset_lay_7, OS, Lay7, Int, 7, CfgPool)
MAP_SCENARIO(oset_lay_8, OS, Lay24, Int, 8, CfgContD)
MAP_SCENARIO(oset_abort_5, OS, Int, Int, 5, CfgAbort)
MAP_SCENARIO(oset_int_0, OS, Int, Int, 0, CfgPool)
MAP_SCENARIO(oset_pod_1, OS, Pod, Int, 1, CfgCont)
MAP_SCENARIO(oset_ta_8, OS, Ta, Int, 8, CfgPool)
