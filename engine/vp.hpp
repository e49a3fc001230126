#pragma once
// Exhaustive choice-tree explorer shared by every harness.
//
// A harness is a body that asks ctx.choose(n) for every nondeterministic decision
// (an operation, an argument, a file size, a fault, a scheduling decision ...).  The
// engine enumerates every complete choice sequence (optionally bounded by the summed
// cost of deviations from choice 0, e.g. preemptions), runs the body on the real code
// for each of them, in forked workers, and turns a failed check, a crash, a sanitizer
// report or a hang into a replayable violation.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <sstream>

namespace vp {

struct options {
    int bound = -1;             // max summed cost of deviations (-1: unbounded)
    double time_limit = 600;    // seconds; hitting it makes the part non-exhaustive
    std::uint64_t max_runs = 0; // 0: no cap
    int jobs = 0;
    double hang_cpu = 25;       // CPU seconds without progress before a run is suspected to hang
};

class ctx {
public:
    /// Pick one of n alternatives; every alternative is explored.
    int choose(int n);
    /// Pick one of n alternatives; any alternative other than 0 costs `cost` deviations.
    int choose_cost(int n, int cost);
    bool flag() { return choose(2) != 0; }
    template <class C> auto& pick(C& c) { return c[static_cast<std::size_t>(choose(static_cast<int>(c.size())))]; }
    template <class C> const auto& pick(const C& c) { return c[static_cast<std::size_t>(choose(static_cast<int>(c.size())))]; }

    /// Human readable description of the case being executed (kept for crash reports and samples).
    void describe(const std::string& s);
    void append(const std::string& s);
    /// Name of the finding a crash in the following code belongs to.
    void risk(const char* key);
    [[noreturn]] void fail(const std::string& key, const std::string& msg);
    void expect(bool ok, const char* key, const std::string& msg) { if (!ok) fail(key, msg); }
    template <class F> void expectf(bool ok, const char* key, F&& f) { if (!ok) fail(key, f()); }
    /// Mark the case as non-trivial.
    void nontrivial();
    /// Steps (operations / scheduling steps) executed against the implementation.
    void transition(std::uint64_t n = 1);
    /// Register a reached state; returns true when it is new.
    bool state(std::uint64_t h);
    bool state(const std::string& s);
    /// Register an observed outcome (counted separately from states).
    void outcome(std::uint64_t h);
    void outcome(const std::string& s);
    /// Free-form counters for the evidence.
    void count(const char* name, std::uint64_t n = 1);
    /// Keep the watchdog quiet in long runs.
    void tick();
    bool replaying() const;
    bool thorough() const;
    const std::vector<int>& choices() const;
};

std::uint64_t hash(std::string_view s, std::uint64_t seed = 0x9ae16a3b2f90404fULL);

/// Start: parses --prop --tier --out --known --replays --replay --part
void init(int argc, char** argv);
bool thorough();
std::string scratch();      // private scratch directory of this run, removed at the end
std::string worker_dir();   // private scratch directory of the current worker

/// Explore one part of the property.  `rule` says how cases are made.
/// Put in front of the names of the parts that follow, of which only those to keep are run.
void name_prefix(const std::string& p, std::function<bool(const std::string&)> keep = {});
void part(const std::string& name, const std::string& rule, options o, const std::function<void(ctx&)>& body);
void assume(const std::string& s);
int finish();

std::string quote(std::string_view s);   // printable rendering of arbitrary bytes

template <class... A> std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
} // namespace vp
