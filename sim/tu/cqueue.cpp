#include "../drivers/adapt.hpp"
namespace sim { using sint = int; }
AD_SCENARIO(cqueue_int_8, CQUEUE, sint, 8, false)
AD_SCENARIO(cqueue_pod_5, CQUEUE, Pod, 5, false)
AD_SCENARIO(cqueue_tr_1, CQUEUE, Tr, 1, false)
AD_SCENARIO(cqueue_tr_7, CQUEUE, Tr, 7, false)
AD_SCENARIO(cqueue_mo_6, CQUEUE, Mo, 6, false)
AD_SCENARIO(cqueue_def_4, CQUEUE, Tr, 4, true)
AD_SCENARIO(cqueue_ta_6, CQUEUE, Ta, 6, false)
AD_SCENARIO(cqueue_pa_5, CQUEUE, Pa, 5, false)
