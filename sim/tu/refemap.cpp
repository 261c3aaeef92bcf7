#include "../drivers/refmap.hpp"
RM_SCENARIO(remap, ENUM, const ::sim::Tr, 9)
RM_SCENARIO(remapi, ENUM, const int, 9)
