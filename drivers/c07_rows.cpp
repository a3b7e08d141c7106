// outer loops of kfr::process: all always-inline functions are kept out of line (the unit is compiled with __always_inline__
// defined as noinline) so that the row evaluation tprocess_body is a call, replaced by the contract proved in c07_process.cpp
#define C07_ROWS
#include "c07_process.cpp"
#define KEEP(NAME, W, AX, OD, ID) extern "C" { void* keep_##NAME = (void*)&tprocess_body<gout<OD>&, gin<ID>&, AX, W, 1, float, OD, ID>; }
ENTRY(q2, 4, infinite_size, 2, 2)
KEEP(q2, 4, 1, 2, 2)
ENTRY(q2a0, 4, 0, 2, 2)
KEEP(q2a0, 4, 0, 2, 2)
ENTRY(q21, 4, infinite_size, 2, 1)
KEEP(q21, 4, 1, 2, 1)
ENTRY(q20, 4, infinite_size, 2, 0)
KEEP(q20, 4, 1, 2, 0)
ENTRY(q3, 4, infinite_size, 3, 3)
KEEP(q3, 4, 2, 3, 3)
ENTRY(q3a1, 4, 1, 3, 3)
KEEP(q3a1, 4, 1, 3, 3)
ENTRY(q3a0, 4, 0, 3, 3)
KEEP(q3a0, 4, 0, 3, 3)
ENTRY(q32, 4, infinite_size, 3, 2)
KEEP(q32, 4, 2, 3, 2)
ENTRY(q4, 2, infinite_size, 4, 4)
KEEP(q4, 2, 3, 4, 4)
ENTRY(q4a2, 2, 2, 4, 4)
KEEP(q4a2, 2, 2, 4, 4)
ENTRY(q4a0, 2, 0, 4, 4)
KEEP(q4a0, 2, 0, 4, 4)
ENTRY(q43, 2, infinite_size, 4, 3)
KEEP(q43, 2, 3, 4, 3)
#ifdef KVC_NATIVE
ENTRY(q5, 4, 4, 5, 5)
#endif
