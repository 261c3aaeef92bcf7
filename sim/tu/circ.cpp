#include "../drivers/seq.hpp"
namespace sim { using sint = int; }
SEQ_SCENARIO(circ_int_8, CIRC, sint, 8)
SEQ_SCENARIO(circ_pod_5, CIRC, Pod, 5)
SEQ_SCENARIO(circ_tr_1, CIRC, Tr, 1)
SEQ_SCENARIO(circ_tr_7, CIRC, Tr, 7)
SEQ_SCENARIO(circ_mo_6, CIRC, Mo, 6)
SEQ_SCENARIO(circ_al_4, CIRC, Al, 4)
SEQ_SCENARIO(circ_nd_9, CIRC, Nd, 9)
SEQ_SCENARIO(circ_tr_64, CIRC, Tr, 64)
SEQ_SCENARIO_P(circ_def_6, CIRC, Tr, 6, true)
SEQ_SCENARIO_P(circ_defint_3, CIRC, sint, 3, true)
SEQ_SCENARIO(circ_huge_270, CIRC, Pod, 270)
SEQ_SCENARIO(circ_huge_256, CIRC, sint, 256)
SEQ_SCENARIO(circ_ta_6, CIRC, Ta, 6)
SEQ_SCENARIO(circ_pa_5, CIRC, Pa, 5)
