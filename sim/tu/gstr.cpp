#include "../drivers/work.hpp"
namespace sim { using WI = WNum<1>; using WJ = WNum<2>; using WO = WObj<1>; }
WORK_SCENARIO(giant_str, STR, char, 70000, fc::FixedString<70000>)
WORK_SCENARIO(giant_str16, STR, char, 65536, fc::FixedString<65536>)
