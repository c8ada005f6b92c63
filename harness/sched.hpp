// Scheduler of the concurrent harness: N threads of the real program, one running at a time, switching only where the
// program synchronises; the choice of the next one is handed to the solver. A vector-clock detector watches every access
// of the repository's code in between (plain accesses that race would make these switching points incomplete).
#pragma once
#include <cstddef>
namespace sched {
typedef int (*Choose)(int n);                       // one of n alternatives, explored exhaustively
typedef void (*Fail)(const char *label, const char *detail);
struct Stats { int points, choices, preemptions; };
Stats runAll(int n, void (*body)(int), Choose c, Fail f, int preemptions, bool afterRelease);
}
extern "C" void vt_quiet(int d);                    // +1 .. -1 around the harness's own bookkeeping
