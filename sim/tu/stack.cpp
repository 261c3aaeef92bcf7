#include "../drivers/adapt.hpp"
namespace sim { using sint = int; }
AD_SCENARIO(stack_int_8, STACK, sint, 8, false)
AD_SCENARIO(stack_pod_5, STACK, Pod, 5, false)
AD_SCENARIO(stack_tr_1, STACK, Tr, 1, false)
AD_SCENARIO(stack_tr_7, STACK, Tr, 7, false)
AD_SCENARIO(stack_mo_6, STACK, Mo, 6, false)
AD_SCENARIO(stack_def_4, STACK, Tr, 4, true)
AD_SCENARIO(stack_int_0, STACK, sint, 0, false)
AD_SCENARIO(stack_ta_6, STACK, Ta, 6, false)
AD_SCENARIO(stack_pa_5, STACK, Pa, 5, false)
