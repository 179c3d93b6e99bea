// Force-included: turns the library's own ASSERT/DBGCHK statements into run-time monitors.
#ifndef VP_DEBUG_H
#define VP_DEBUG_H
#include <cstdio>
#include <cstdlib>
#define VP_INVARIANT(c) ((c) ? (void)0 : (fprintf(stderr, "INVARIANT %s:%d %s\n", __FILE__, __LINE__, #c), abort()))
#define ASSERT(c) VP_INVARIANT(c)
#include <reflex/debug.h>
#undef DBGCHK
#define DBGCHK(c) VP_INVARIANT(c)
#endif
