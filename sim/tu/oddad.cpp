#include "../drivers/adapt.hpp"
AD_SCENARIO(stack_odd_5, STACK, Odd, 5, false)
AD_SCENARIO(queue_odd_5, QUEUE, Odd, 5, false)
AD_SCENARIO(cqueue_odd_5, CQUEUE, Odd, 5, false)
AD_SCENARIO(stack_oddany_5, STACK, OddAny, 5, false)
AD_SCENARIO(queue_oddany_5, QUEUE, OddAny, 5, false)
