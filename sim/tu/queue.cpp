#include "../drivers/adapt.hpp"
namespace sim { using sint = int; }
AD_SCENARIO(queue_int_8, QUEUE, sint, 8, false)
AD_SCENARIO(queue_pod_5, QUEUE, Pod, 5, false)
AD_SCENARIO(queue_tr_1, QUEUE, Tr, 1, false)
AD_SCENARIO(queue_tr_7, QUEUE, Tr, 7, false)
AD_SCENARIO(queue_mo_6, QUEUE, Mo, 6, false)
AD_SCENARIO(queue_def_4, QUEUE, Tr, 4, true)
AD_SCENARIO(queue_int_0, QUEUE, sint, 0, false)
AD_SCENARIO(queue_ta_6, QUEUE, Ta, 6, false)
AD_SCENARIO(queue_pa_5, QUEUE, Pa, 5, false)
