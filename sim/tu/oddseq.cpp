#include "../drivers/seq.hpp"
SEQ_SCENARIO(vec_odd_6, VEC, Odd, 6)
SEQ_SCENARIO(deq_odd_6, DEQ, Odd, 6)
SEQ_SCENARIO(circ_odd_6, CIRC, Odd, 6)
SEQ_SCENARIO(list_odd_6, LIST, Odd, 6)
SEQ_SCENARIO(vec_oddp_6, VEC, OddPod, 6)
SEQ_SCENARIO(deq_oddp_6, DEQ, OddPod, 6)
SEQ_SCENARIO(circ_oddp_6, CIRC, OddPod, 6)
SEQ_SCENARIO(list_oddp_6, LIST, OddPod, 6)
SEQ_SCENARIO(vec_oddany_4, VEC, OddAny, 4)
SEQ_SCENARIO(deq_oddany_4, DEQ, OddAny, 4)
SEQ_SCENARIO(circ_oddany_4, CIRC, OddAny, 4)
SEQ_SCENARIO(list_oddany_4, LIST, OddAny, 4)
