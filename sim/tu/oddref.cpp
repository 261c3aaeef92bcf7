#include "../drivers/optref.hpp"
OR_SCENARIO(oref_odd, ::sim::Odd, false)
OR_SCENARIO(oref_oddp, ::sim::OddPod, false)
