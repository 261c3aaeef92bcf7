#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_circ, CIRC, WI, 70000, fc::FixedCircularDeque<WI, 70000>)
WORK_SCENARIO(giant_cqueue, CQUEUE, WJ, 66000, fc::FixedCircularQueue<WJ, 66000>)
