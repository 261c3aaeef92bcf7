#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_omap, OMAP, WI, 70000, fc::FixedMap<WI, int, 70000>)
WORK_SCENARIO(giant_oset, OSET, WO, 66000, fc::FixedSet<WO, 66000, std::less<WO>, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::EMBEDDED_COLOR, fc::FixedIndexBasedPoolStorage>)
WORK_SCENARIO(giant_omapc, OMAP, WI, 65536, fc::FixedMap<WI, int, 65536, std::less<WI>, fc::fixed_red_black_tree_detail::RedBlackTreeNodeColorCompactness::DEDICATED_COLOR, fc::FixedIndexBasedContiguousStorage>)
