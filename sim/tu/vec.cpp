#include "../drivers/seq.hpp"
namespace sim { using sint = int; }
SEQ_SCENARIO(vec_int_8, VEC, sint, 8)
SEQ_SCENARIO(vec_pod_5, VEC, Pod, 5)
SEQ_SCENARIO(vec_tr_1, VEC, Tr, 1)
SEQ_SCENARIO(vec_tr_7, VEC, Tr, 7)
SEQ_SCENARIO(vec_mo_6, VEC, Mo, 6)
SEQ_SCENARIO(vec_al_4, VEC, Al, 4)
SEQ_SCENARIO(vec_nd_9, VEC, Nd, 9)
SEQ_SCENARIO(vec_tr_64, VEC, Tr, 64)
SEQ_SCENARIO_P(vec_def_6, VEC, Tr, 6, true)
SEQ_SCENARIO_P(vec_defint_3, VEC, sint, 3, true)
SEQ_SCENARIO(vec_int_0, VEC, sint, 0)
SEQ_SCENARIO(vec_lay7_7, VEC, Lay7, 7)
SEQ_SCENARIO(vec_huge_300, VEC, Pod, 300)
SEQ_SCENARIO(vec_huge_256, VEC, sint, 256)
SEQ_SCENARIO(vec_ta_6, VEC, Ta, 6)
SEQ_SCENARIO(vec_pa_5, VEC, Pa, 5)
