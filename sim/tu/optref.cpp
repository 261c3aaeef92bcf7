#include "../drivers/optref.hpp"
OR_SCENARIO(oref_tr, ::sim::Tr, false)
OR_SCENARIO(oref_ctr, const ::sim::Tr, false)
OR_SCENARIO(oref_pod, ::sim::Pod, false)
OR_SCENARIO(oref_int, int, false)
OR_SCENARIO(oref_cint, const int, false)
OR_SCENARIO(oref_mo, ::sim::Mo, false)
OR_SCENARIO(oref_def, ::sim::Tr, true)
OR_SCENARIO(oref_flo, ::sim::Flo, false)
