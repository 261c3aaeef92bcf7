#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_deq, DEQ, WI, 70000, fc::FixedDeque<WI, 70000>)
WORK_SCENARIO(giant_deqo, DEQ, WO, 65536, fc::FixedDeque<WO, 65536>)
WORK_SCENARIO(giant_queue, QUEUE, WJ, 66000, fc::FixedQueue<WJ, 66000>)
