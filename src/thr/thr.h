// Runs functions as real threads, one at a time, and lets the exploration
// decide at every synchronisation operation which of them goes on.  Memory
// accesses and synchronisation reach us through the compiler's thread
// sanitizer instrumentation (with this runtime in place of the sanitizer's),
// so unordered conflicting accesses and uses of freed memory are found on
// every explored schedule.
#ifndef VERIF_THR
#define VERIF_THR
#include <explore.h>
namespace thr {
struct Result {
    bool        bad = false;
    std::string key, msg;
    bool        stuck = false;  // internal error
    uint64_t    ops = 0, switches = 0, accesses = 0;
};
// preempt: whether to offer preemptions (costing SCHED deviations)
Result run(vx::Chooser &c, const std::vector<std::function<void()>> &bodies, uint64_t salt, bool preempt = true);
// The index of the calling explored thread, or -1.
int self();
// Excludes what the caller does from monitoring and preemption.
struct Quiet {
    Quiet();
    ~Quiet();
};
}
#endif
