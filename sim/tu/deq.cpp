#include "../drivers/seq.hpp"
namespace sim { using sint = int; }
SEQ_SCENARIO(deq_int_8, DEQ, sint, 8)
SEQ_SCENARIO(deq_pod_5, DEQ, Pod, 5)
SEQ_SCENARIO(deq_tr_1, DEQ, Tr, 1)
SEQ_SCENARIO(deq_tr_7, DEQ, Tr, 7)
SEQ_SCENARIO(deq_mo_6, DEQ, Mo, 6)
SEQ_SCENARIO(deq_al_4, DEQ, Al, 4)
SEQ_SCENARIO(deq_nd_9, DEQ, Nd, 9)
SEQ_SCENARIO(deq_tr_64, DEQ, Tr, 64)
SEQ_SCENARIO_P(deq_def_6, DEQ, Tr, 6, true)
SEQ_SCENARIO_P(deq_defint_3, DEQ, sint, 3, true)
SEQ_SCENARIO(deq_int_0, DEQ, sint, 0)
SEQ_SCENARIO(deq_lay7_7, DEQ, Lay7, 7)
SEQ_SCENARIO(deq_lay10_5, DEQ, Lay10, 5)
SEQ_SCENARIO(deq_huge_300, DEQ, Pod, 300)
SEQ_SCENARIO(deq_huge_256, DEQ, sint, 256)
SEQ_SCENARIO(deq_lay16_3, DEQ, Lay16, 3)
SEQ_SCENARIO(deq_ta_6, DEQ, Ta, 6)
SEQ_SCENARIO(deq_pa_5, DEQ, Pa, 5)
