#include "../drivers/refmap.hpp"
RM_SCENARIO(rumap, HASH, const ::sim::Tr, 6)
RM_SCENARIO(rumapi, HASH, const int, 5)
RM_SCENARIO(rumapp, HASH, const ::sim::Pod, 11)
