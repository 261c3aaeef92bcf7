#include "../drivers/maps.hpp"
namespace sim { using Int = int; }
MAP_SCENARIO(uset_def_6, US, Int, Int, 6, CfgDef)
MAP_SCENARIO(uset_pod_9, US, Pod, Int, 9, CfgTight)
MAP_SCENARIO(uset_tr_7, US, Tr, Int, 7, CfgPool)
MAP_SCENARIO(uset_big_40, US, Tr, Int, 40, CfgOne)
MAP_SCENARIO(uset_lay_7, US, Lay7, Int, 7, CfgOne)
MAP_SCENARIO(uset_lay_5, US, Lay3, Int, 5, CfgPool)
MAP_SCENARIO(uset_abort_5, US, Int, Int, 5, CfgAbort)
MAP_SCENARIO(uset_lay16_5, US, Lay16, Int, 5, CfgPool)
MAP_SCENARIO(uset_int_0, US, Int, Int, 0, CfgPool)
MAP_SCENARIO(uset_ta_8, US, Ta, Int, 8, CfgPool)
