#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_umap, UMAP, WI, 70000, fc::FixedUnorderedMap<WI, int, 70000, WHash>)
WORK_SCENARIO(giant_uset, USET, WO, 65536, fc::FixedUnorderedSet<WO, 65536, WHash>)
