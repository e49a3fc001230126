#pragma once
// Controlled scheduler: runs the real multi-threaded code with every thread as a fibre of one OS
// thread.  The sources are compiled with the compiler's thread instrumentation and linked with
// this runtime instead of the sanitizer's, so every synchronisation operation is a scheduling
// point whose outcome is a vp choice, and every memory access is checked for happens-before
// races and use after free.
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "vp.hpp"

namespace sched {

struct config {
    bool delay_bounded = false;   // when the running thread blocks: false = every enabled thread is a free choice, true = the next one is free and the others cost 1
    bool spurious = false;        // spurious condition variable wake-ups (cost 1 each)
    bool races = true;            // happens-before race detection
    std::uint64_t max_steps = 60000;
    unsigned nprocs = 2;          // what hardware_concurrency() reports
};

/// Called when no thread can run (all blocked): return true when that is a legitimate final state
/// (the run then ends and every thread is abandoned), false to report a deadlock.
using deadlock_fn = std::function<bool()>;

/// Execute body as thread 0 under the controlled scheduler.
/// Returns false when the run ended in a state accepted by `blocked`.
bool run(vp::ctx& c, const config& cfg, const std::function<void()>& body, const deadlock_fn& blocked = {});
/// Switches the access checks off for harness bookkeeping inside a run.
struct quiet { quiet(); ~quiet(); };

bool active();
int self();
void point(const char* what = "point");
/// Nondeterministic choice inside a run.
int choose(int n);

/// An event of the global history; never a scheduling point.
struct event { int thread; int kind; std::int64_t a, b; };
void note(int kind, std::int64_t a = 0, std::int64_t b = 0);
const std::vector<event>& notes();
/// Number of scheduling steps so far in this run.
std::uint64_t steps();
std::string schedule();
} // namespace sched
