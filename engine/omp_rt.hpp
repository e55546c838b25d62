// A replacement of the OpenMP runtime (GOMP ABI of gcc) for the contracts on
// parallel regions.  The code of /repo is compiled with -fopenmp as usual, so
// data sharing is what the compiler makes of the pragmas; only the scheduler is
// replaced.  Threads and tasks are fibers of one process, switched at the
// synchronisation points; `policy` selects the schedule.
// With VC_TRACK the translation unit is compiled with -fsanitize=thread and the
// callbacks of the instrumentation are the ones below: every access to memory
// inside a parallel region is recorded with the fiber which makes it, the locks
// it holds and a vector clock, so that the frame of every iteration is known:
// two fibers which are not ordered by fork, join or barrier must not touch the
// same byte unless both only read, or both hold a common lock.
#pragma once
#include <string>
namespace rt {
// single: who executes the k-th single construct: 0 the first thread, 1 k mod threads, 2 the last thread, 3 scrambled
// tasks: 0 at once, 1 deferred in order, 2 deferred in reverse order, 3 deferred, scrambled; order: threads run 0 forwards, 1 backwards
struct Policy { int threads = 1; int single = 0; int tasks = 0; int order = 0; };
Policy &policy();
struct Report { long races, accesses, fibers; std::string text; };
Report report();  // since the last call
struct Ignore { Ignore(); ~Ignore(); };  // accesses of the harness itself
}
