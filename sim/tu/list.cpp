#include "../drivers/seq.hpp"
namespace sim { using sint = int; }
SEQ_SCENARIO(list_int_8, LIST, sint, 8)
SEQ_SCENARIO(list_pod_5, LIST, Pod, 5)
SEQ_SCENARIO(list_tr_1, LIST, Tr, 1)
SEQ_SCENARIO(list_tr_7, LIST, Tr, 7)
SEQ_SCENARIO(list_mo_6, LIST, Mo, 6)
SEQ_SCENARIO(list_al_4, LIST, Al, 4)
SEQ_SCENARIO(list_nd_9, LIST, Nd, 9)
SEQ_SCENARIO(list_tr_64, LIST, Tr, 64)
SEQ_SCENARIO_P(list_def_6, LIST, Tr, 6, true)
SEQ_SCENARIO_P(list_defint_3, LIST, sint, 3, true)
SEQ_SCENARIO(list_int_0, LIST, sint, 0)
SEQ_SCENARIO(list_lay7_7, LIST, Lay7, 7)
SEQ_SCENARIO(list_lay24_6, LIST, Lay24, 6)
SEQ_SCENARIO(list_huge_280, LIST, Pod, 280)
SEQ_SCENARIO(list_huge_256, LIST, sint, 256)
SEQ_SCENARIO(list_lay16_5, LIST, Lay16, 5)
SEQ_SCENARIO(list_ta_6, LIST, Ta, 6)
SEQ_SCENARIO(list_pa_5, LIST, Pa, 5)
