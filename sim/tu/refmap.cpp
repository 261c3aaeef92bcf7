#include "../drivers/refmap.hpp"
RM_SCENARIO(rmap_pool, POOL, const ::sim::Tr, 6)
RM_SCENARIO(rmap_cont, CONT, const ::sim::Pod, 5)
RM_SCENARIO(rmap_int, POOL, const int, 9)
