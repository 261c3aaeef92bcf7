#include "../drivers/str.hpp"
STR_SCENARIO(str_1, 1, false)
STR_SCENARIO(str_7, 7, false)
STR_SCENARIO(str_16, 16, false)
STR_SCENARIO(str_40, 40, false)
STR_SCENARIO(str_def_9, 9, true)
STR_SCENARIO(str_300, 300, false)
STR_SCENARIO(str_255, 255, false)
STR_SCENARIO(str_256, 256, false)
STR_SCENARIO(str_0, 0, false)
