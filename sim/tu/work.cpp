#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(work_vec, VEC, WI, 8192, fc::FixedVector<WI, 8192>)
WORK_SCENARIO(work_veco, VEC, WO, 8192, fc::FixedVector<WO, 8192>)
WORK_SCENARIO(work_deq, DEQ, WI, 8192, fc::FixedDeque<WI, 8192>)
WORK_SCENARIO(work_deqo, DEQ, WO, 8192, fc::FixedDeque<WO, 8192>)
WORK_SCENARIO(work_circ, CIRC, WI, 8192, fc::FixedCircularDeque<WI, 8192>)
WORK_SCENARIO(work_list, LIST, WI, 8192, fc::FixedList<WI, 8192>)
WORK_SCENARIO(work_listo, LIST, WO, 8192, fc::FixedList<WO, 8192>)
WORK_SCENARIO(work_str, STR, char, 8192, fc::FixedString<8192>)
WORK_SCENARIO(work_stack, STACK, WJ, 8192, fc::FixedStack<WJ, 8192>)
WORK_SCENARIO(work_queue, QUEUE, WJ, 8192, fc::FixedQueue<WJ, 8192>)
WORK_SCENARIO(work_cqueue, CQUEUE, WJ, 8192, fc::FixedCircularQueue<WJ, 8192>)
WORK_SCENARIO(work_omap, OMAP, WI, 6000, fc::FixedMap<WI, int, 6000>)
WORK_SCENARIO(work_omapo, OMAP, WO, 6000, fc::FixedMap<WO, int, 6000, std::less<WO>, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedContiguousStorage>)
WORK_SCENARIO(work_oset, OSET, WI, 6000, fc::FixedSet<WI, 6000>)
WORK_SCENARIO(work_umap, UMAP, WI, 6000, fc::FixedUnorderedMap<WI, int, 6000, WHash>)
WORK_SCENARIO(work_uset, USET, WO, 6000, fc::FixedUnorderedSet<WO, 6000, WHash>)
