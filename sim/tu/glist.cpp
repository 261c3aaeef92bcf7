#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_list, LIST, WI, 70000, fc::FixedList<WI, 70000>)
WORK_SCENARIO(giant_listo, LIST, WO, 65536, fc::FixedList<WO, 65536>)
