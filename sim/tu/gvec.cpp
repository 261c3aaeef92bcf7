#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_vec, VEC, WI, 70000, fc::FixedVector<WI, 70000>)
WORK_SCENARIO(giant_stack, STACK, WO, 66000, fc::FixedStack<WO, 66000>)
