// concurrent_queue under every bounded schedule of small concurrent programs: linearizability
// against a sequential bounded FIFO, and no thread left waiting for something that is available.
#include "vp.hpp"
#include "sched.hpp"
#include "dottorrent/concurrent_queue.hpp"
#include <thread>
#include <optional>
#include <deque>
#include <algorithm>
#include <memory>
#include <stdexcept>
using vp::ctx;
namespace dt = dottorrent;

struct item {
    int v = 0;
    item() = default;
    explicit item(int x) : v(x) {}
    item(const item&) = default;
    item& operator=(const item&) = default;
    item(item&& o) noexcept : v(o.v) { o.v = -1; }
    item& operator=(item&& o) noexcept { v = o.v; o.v = -1; return *this; }
};
enum op_kind { PUSH_COPY, PUSH_MOVE, TRY_PUSH, POP, TRY_POP, SIZE, CAP1, CAP2, CAP3, CAP0, NOPS };
static const char* op_name[] = {"push(const&)", "push(&&)", "try_push", "pop", "try_pop", "size", "set_capacity(1)", "set_capacity(2)", "set_capacity(3)", "set_capacity(0)"};
struct op { int kind; int val; };              // val: the value pushed
// results: for pops the value, for try ops ok*1000+value, for size the size
static constexpr std::size_t CAPV[] = {1, 2, 3, 0};

struct rec { int thread, kind, val; long inv = -1, res = -1; std::int64_t r1 = 0, r2 = 0; };

static bool lin(std::vector<rec>& h, std::vector<char>& done, std::deque<int> q, std::size_t cap, bool final_blocked, std::string* why)
{
    // all completed operations linearized?
    bool all = true;
    for (std::size_t i = 0; i < h.size(); ++i) if (h[i].res >= 0 && !done[i]) all = false;
    if (all) {
        if (!final_blocked) return true;
        // every pending operation must be disabled in the final state
        for (std::size_t i = 0; i < h.size(); ++i) if (h[i].res < 0) {
            if ((h[i].kind == PUSH_COPY || h[i].kind == PUSH_MOVE) && q.size() < cap) return false;
            if (h[i].kind == POP && !q.empty()) return false;
            if (h[i].kind != PUSH_COPY && h[i].kind != PUSH_MOVE && h[i].kind != POP) return false;
        }
        return true;
    }
    long min_res = LONG_MAX;
    for (std::size_t i = 0; i < h.size(); ++i) if (!done[i] && h[i].res >= 0) min_res = std::min(min_res, h[i].res);
    for (std::size_t i = 0; i < h.size(); ++i) {
        auto& o = h[i];
        if (done[i] || o.res < 0 || o.inv > min_res) continue;
        auto q2 = q; auto c2 = cap; bool ok = false;
        switch (o.kind) {
        case PUSH_COPY: case PUSH_MOVE: if (q2.size() < cap) { q2.push_back(o.val); ok = true; } break;
        case TRY_PUSH: if (o.r1) { if (q2.size() < cap) { q2.push_back(o.val); ok = true; } } else ok = q2.size() >= cap; break;
        case POP: if (!q2.empty() && q2.front() == o.r1) { q2.pop_front(); ok = true; } break;
        case TRY_POP: if (o.r1) { if (!q2.empty() && q2.front() == o.r2) { q2.pop_front(); ok = true; } } else ok = q2.empty(); break;
        case SIZE: ok = std::int64_t(q2.size()) == o.r1; break;
        default: c2 = CAPV[o.kind - CAP1]; ok = true;
        }
        if (!ok) continue;
        done[i] = 1;
        if (lin(h, done, q2, c2, final_blocked, why)) return true;
        done[i] = 0;
    }
    return false;
}

static std::vector<rec> history(const std::vector<std::vector<op>>& prog)
{
    std::vector<rec> h; std::vector<long> open(prog.size() + 1, -1);
    long t = 0;
    for (auto& e : sched::notes()) {
        std::size_t th = std::size_t(e.thread);
        if (e.kind == 1) { open[th] = long(h.size()); auto& o = prog[th][std::size_t(e.a)]; h.push_back({e.thread, o.kind, o.val, t}); }
        else { auto& r = h[std::size_t(open[th])]; r.res = t; r.r1 = e.a; r.r2 = e.b; }
        ++t;
    }
    return h;
}
static std::string show(const std::vector<rec>& h)
{
    std::string s;
    for (auto& r : h) {
        s += vp::cat("[", r.inv, "..", r.res < 0 ? "blocked" : std::to_string(r.res), "] T", r.thread, " ", op_name[r.kind]);
        if (r.kind <= TRY_PUSH) s += vp::cat(" ", r.val);
        if (r.res >= 0) s += vp::cat(" -> ", r.r1, r.kind == TRY_POP ? vp::cat("/", r.r2) : std::string());
        s += "; ";
    }
    return s;
}

static void exec(dt::concurrent_queue<item>& q, const std::vector<op>& ops)
{
    for (std::size_t i = 0; i < ops.size(); ++i) {
        auto [k, v] = ops[i];
        sched::note(1, std::int64_t(i));
        switch (k) {
        case PUSH_COPY: { const item it(v); q.push(it); sched::note(2, it.v == v ? 0 : 77); break; }
        case PUSH_MOVE: { item it(v); q.push(std::move(it)); sched::note(2); break; }
        case TRY_PUSH: { item it(v); bool ok = q.try_push(std::move(it)); sched::note(2, ok, it.v); break; }
        case POP: { item it; q.pop(it); sched::note(2, it.v); break; }
        case TRY_POP: { item it(-7); bool ok = q.try_pop(it); sched::note(2, ok, it.v); break; }
        case SIZE: { auto n = q.size(); sched::note(2, std::int64_t(n)); break; }
        default: q.set_capacity(CAPV[k - CAP1]); sched::note(2);
        }
    }
}

static void run_program(ctx& c, const std::vector<std::vector<op>>& prog, std::size_t cap, int prefill, bool progress, sched::config cfg)
{
    std::string d = vp::cat("capacity ", cap, ", holding ", prefill, " items; ");
    for (std::size_t t = 1; t < prog.size(); ++t) { d += vp::cat("T", t, ": "); for (auto& o : prog[t]) { d += op_name[o.kind]; if (o.kind <= TRY_PUSH) d += vp::cat(" ", o.val); d += ", "; } }
    c.describe(d);
    std::deque<int> init; for (int i = 0; i < prefill; ++i) init.push_back(100 + i);
    auto judge = [&](bool blocked) {
        auto h = history(prog);
        for (auto& r : h) {
            if (r.res >= 0 && r.kind == PUSH_COPY) c.expectf(r.r1 == 0, "copy", [&] { return "push(const T&) changed its argument; history: " + show(h); });
            if (r.res >= 0 && r.kind == TRY_PUSH && !r.r1) c.expectf(r.r2 == r.val, "refused-item", [&] { return "a refused try_push took the item away; history: " + show(h); });
            if (r.res >= 0 && r.kind == TRY_POP && !r.r1) c.expectf(r.r2 == -7, "refused-pop", [&] { return "a failed try_pop changed its argument; history: " + show(h); });
        }
        std::vector<char> dn(h.size(), 0);
        std::string why;
        c.expectf(lin(h, dn, init, cap, false, &why), "linearizability", [&] { return "no order of the operations explains the results of a bounded FIFO queue; history: " + show(h) + " | schedule: " + sched::schedule(); });
        if (blocked && progress) {
            std::fill(dn.begin(), dn.end(), 0);
            c.expectf(lin(h, dn, init, cap, true, &why), "lost-wakeup", [&] { return "a thread waits although its operation is possible; history: " + show(h) + " | schedule: " + sched::schedule(); });
        }
        std::uint64_t oc = vp::hash(d); for (auto& r : h) oc = (oc ^ std::uint64_t(r.thread * 1000003 + r.kind * 7919 + (r.res < 0 ? -9 : r.r1) * 31 + r.r2)) * 0x9E3779B97F4A7C15ULL;
        c.outcome(oc);
    };
    std::vector<int> left;
    bool finished = sched::run(c, cfg, [&] {
        dt::concurrent_queue<item> q(cap);
        for (int i = 0; i < prefill; ++i) q.push(item(100 + i));
        std::vector<std::thread> th;
        th.reserve(prog.size());
        for (std::size_t t = 1; t < prog.size(); ++t) th.emplace_back([&, t] { exec(q, prog[t]); });
        for (auto& t : th) t.join();
        item it; while (q.try_pop(it)) left.push_back(it.v);
    }, [] { return true; });
    judge(!finished);
    if (finished) {
        // what is left must be explained too
        auto h = history(prog);
        std::vector<int> all;
        for (int i = 0; i < prefill; ++i) all.push_back(100 + i);
        for (auto& r : h) if (r.kind <= PUSH_MOVE || (r.kind == TRY_PUSH && r.r1)) all.push_back(r.val);
        std::vector<int> seen = left;
        for (auto& r : h) { if (r.kind == POP) seen.push_back(int(r.r1)); if (r.kind == TRY_POP && r.r1) seen.push_back(int(r.r2)); }
        std::sort(all.begin(), all.end()); std::sort(seen.begin(), seen.end());
        c.expectf(all == seen, "exactly-once", [&] { return "items pushed and items taken out differ; history: " + show(h); });
    }
    c.nontrivial();
}

static std::vector<std::vector<op>> choose_prog(ctx& c, std::initializer_list<int> lens, const std::vector<int>& alpha)
{
    // threads with equally long programs are interchangeable: only sorted combinations are run
    std::vector<std::vector<op>> p(1); int v = 1; int K = int(alpha.size());
    int prev_len = -1, prev_code = 0;
    for (int n : lens) {
        int total = 1; for (int i = 0; i < n; ++i) total *= K;
        int lo = n == prev_len ? prev_code : 0;
        int code = lo + c.choose(total - lo);
        prev_len = n; prev_code = code;
        std::vector<op> t;
        for (int i = 0, x = code; i < n; ++i, x /= K) t.push_back({alpha[std::size_t(x % K)], v++});
        p.push_back(t);
    }
    return p;
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::string prop;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    bool progress = prop == "queue-progress";
    bool th = vp::thorough();
    vp::assume("threads interleave at synchronisation operations (sequential consistency, data races reported separately by happens-before analysis); at most the stated number of preemptions per execution");
    std::vector<int> full{PUSH_COPY, PUSH_MOVE, TRY_PUSH, POP, TRY_POP, SIZE, CAP1, CAP2, CAP3, CAP0};
    if (!progress) {
        vp::part("long", "queues of capacity 1..70 and around powers of two up to 65536: filled, refused, rotated and emptied in every mix of operations", {}, [](ctx& c) {
            static const std::vector<std::size_t> caps = [] { std::vector<std::size_t> v; for (std::size_t i = 1; i <= 70; ++i) v.push_back(i); for (int e = 7; e <= 16; ++e) for (int k = -1; k <= 1; ++k) v.push_back((std::size_t(1) << e) + std::size_t(k)); return v; }();
            std::size_t cap = c.pick(caps); int how = c.choose(3), out = c.choose(2);
            c.describe(vp::cat("capacity ", cap, ", filled with ", op_name[how], ", emptied with ", out ? "try_pop" : "pop"));
            dt::concurrent_queue<item> q(cap);
            int next = 0, expect = 0; std::size_t n = 0;
            auto put = [&] { item it(next++); if (how == 0) { const item& r = it; q.push(r); } else if (how == 1) q.push(std::move(it)); else { bool ok = q.try_push(std::move(it)); c.expectf(ok, "refused", [&] { return vp::cat("try_push is refused with ", n, " of ", cap, " items"); }); } ++n; };
            auto take = [&] { item it(-9); if (out) { bool ok = q.try_pop(it); c.expectf(ok, "refused", [&] { return vp::cat("try_pop fails with ", n, " items"); }); } else q.pop(it); --n; c.expectf(it.v == expect, "order", [&] { return vp::cat("item ", it.v, " comes out, expected ", expect); }); ++expect; };
            auto full = [&] { item it(-5); c.expectf(!q.try_push(std::move(it)) && it.v == -5, "bound", [&] { return vp::cat("an item is accepted by a queue of capacity ", cap, " holding ", n); }); };
            auto size = [&] { c.expectf(q.size() == n, "size", [&] { return vp::cat("size() is ", q.size(), " with ", n, " items"); }); };
            while (n < cap) { put(); if (n % 64 < 2) size(); }
            full(); size();
            for (std::size_t i = 0; i < 2 * std::min<std::size_t>(cap, 3000) + 3; ++i) { take(); put(); c.transition(2); }
            full(); size();
            q.set_capacity(cap + 2); put(); put(); full(); q.set_capacity(cap); full(); take(); full(); take(); full(); take(); put(); full();
            while (n) take();
            item it(-7); c.expect(!q.try_pop(it) && it.v == -7, "empty", "something comes out of an empty queue"); size();
            c.nontrivial();
        });
        vp::part("ownership", "every history of N operations on queues of uniquely owned and of shared objects: each object is owned by exactly one of caller and queue", {}, [th](ctx& c) {
            std::size_t cap = 1 + std::size_t(c.choose(2)); int depth = th ? 8 : 6; std::string d = vp::cat("capacity ", cap, ": ");
            {
                dt::concurrent_queue<std::unique_ptr<int>> q(cap); dt::concurrent_queue<std::shared_ptr<int>> r(cap);
                std::deque<int> m; std::vector<std::weak_ptr<int>> all; std::deque<std::size_t> idx;
                for (int s = 0; s < depth; ++s) {
                    int o = c.choose(4);
                    if (o == 0 && m.size() < cap) { d += "push; "; auto x = std::make_unique<int>(s); q.push(std::move(x)); c.expect(!x, "moved", "push leaves a moved item with its caller"); auto y = std::make_shared<int>(s); all.push_back(y); idx.push_back(all.size() - 1); r.push(std::move(y)); c.expect(!y, "moved", "push leaves a moved item with its caller"); m.push_back(s); }
                    else if (o == 1) { d += "try_push; "; auto x = std::make_unique<int>(s); bool ok = q.try_push(std::move(x)); c.expect(ok == (m.size() < cap), "try", "try_push result after " + d); c.expect(ok == !x, "moved", "the item is neither or both in the queue and with its caller after " + d);
                        auto y = std::make_shared<int>(s); auto w = std::weak_ptr<int>(y); bool ok2 = r.try_push(std::move(y)); c.expect(ok2 == ok && ok == !y, "moved", "the item is neither or both in the queue and with its caller after " + d); if (ok) { all.push_back(w); idx.push_back(all.size() - 1); m.push_back(s); } }
                    else if (o >= 2 && (o == 3 || !m.empty())) {
                        d += o == 2 ? "pop; " : "try_pop; ";
                        std::unique_ptr<int> x = std::make_unique<int>(-1); std::shared_ptr<int> y = std::make_shared<int>(-1); std::weak_ptr<int> old = y;
                        bool a = true, b = true; if (o == 2) { q.pop(x); r.pop(y); } else { a = q.try_pop(x); b = r.try_pop(y); }
                        c.expect(a == b && a == !m.empty(), "try", "try_pop result after " + d);
                        if (a) { c.expect(x && *x == m.front() && y && *y == m.front(), "order", "wrong item after " + d); c.expect(y.use_count() == 1, "kept", "the queue keeps a reference to an item that was taken out, after " + d); c.expect(old.expired(), "leak", "the destination's former value leaks after " + d); m.pop_front(); idx.pop_front(); }
                        else c.expect(x && *x == -1 && y && *y == -1, "refused-pop", "a failed try_pop changed its argument after " + d);
                    } else break;
                    c.transition();
                    std::size_t alive = 0; for (auto& w : all) alive += !w.expired();
                    c.expect(alive == m.size(), "kept", vp::cat(alive, " items alive, expected ", m.size(), " after ", d));
                }
                c.state(d);
                { dt::concurrent_queue<std::shared_ptr<int>> gone(2); auto y = std::make_shared<int>(1); const auto& cy = y; gone.push(cy); c.expect(y.use_count() == 2, "copy", "push(const T&) does not store a copy"); }
            }
            c.describe(d); c.nontrivial();
        });
        vp::part("throwing-copies", "every history of N operations on a queue whose items can fail to be copied", {}, [th](ctx& c) {
            static thread_local bool bomb; bomb = false;
            struct thrower { int v = 0; thrower() = default; explicit thrower(int x) : v(x) {} thrower(const thrower& o) : v(o.v) { if (bomb) throw std::runtime_error("copy"); } thrower(thrower&&) = default; thrower& operator=(thrower&&) = default; thrower& operator=(const thrower&) = default; };
            std::size_t cap = 1 + std::size_t(c.choose(2)); std::string d = vp::cat("capacity ", cap, ": ");
            dt::concurrent_queue<thrower> q(cap); std::deque<int> m;
            for (int s = 0; s < (th ? 8 : 6); ++s) {
                int o = c.choose(3); thrower t(s);
                if (o == 0 && m.size() < cap) { d += "push; "; q.push(t); m.push_back(s); }
                else if (o == 1 && m.size() < cap) { d += "push that throws; "; bool threw = false; bomb = true; try { q.push(t); } catch (const std::runtime_error&) { threw = true; } bomb = false; c.expect(threw, "swallowed", "the exception of a failed copy is lost after " + d); }
                else { d += "try_pop; "; thrower x(-1); bool ok = q.try_pop(x); c.expect(ok == !m.empty() && x.v == (ok ? m.front() : -1), "order", "wrong item after " + d); if (ok) m.pop_front(); }
                c.expect(q.size() == m.size(), "size", "size after " + d); c.transition();
            }
            c.describe(d); c.state(d); c.nontrivial();
        });
        vp::part("sequential", "every sequence of N operations by one thread, from every capacity 0..3 and filling", {}, [&](ctx& c) {
            std::size_t cap = std::size_t(c.choose(4)); int pf = c.choose(int(cap) + 1);
            run_program(c, choose_prog(c, {th ? 5 : 4}, full), cap, pf, true, {});
        });
        vp::part("two-threads", "every pair of threads with two operations each, over the whole interface; all schedules up to the preemption bound", {.bound = th ? 3 : 2}, [&](ctx& c) {
            std::size_t cap = 1 + std::size_t(c.choose(2)); int pf = c.choose(int(cap) + 1);
            run_program(c, choose_prog(c, {2, 2}, full), cap, pf, false, {});
        });
        vp::part("three-threads", "three threads with 2+1+1 operations from the reduced interface; all schedules up to the preemption bound", {.bound = th ? 3 : 2}, [&](ctx& c) {
            std::size_t cap = 1 + std::size_t(c.choose(2)); int pf = c.choose(int(cap) + 1);
            run_program(c, choose_prog(c, {2, 1, 1}, {PUSH_COPY, PUSH_MOVE, TRY_PUSH, POP, TRY_POP}), cap, pf, false, {});
        });
        if (th) vp::part("three-threads-deep", "three threads with two operations each from {push, try_push, pop, try_pop}", {.bound = 2, .time_limit = 1200}, [&](ctx& c) {
            std::size_t cap = 1 + std::size_t(c.choose(2));
            run_program(c, choose_prog(c, {2, 2, 2}, {PUSH_MOVE, TRY_PUSH, POP, TRY_POP}), cap, 0, false, {});
        });
    } else {
        vp::part("two-threads", "every pair of threads with two operations each, over the whole interface; all schedules up to the preemption bound, with spurious wake-ups", {.bound = 2}, [&](ctx& c) {
            std::size_t cap = 1 + std::size_t(c.choose(2)); int pf = c.choose(int(cap) + 1);
            run_program(c, choose_prog(c, {2, 2}, {PUSH_COPY, PUSH_MOVE, TRY_PUSH, POP, TRY_POP, CAP1, CAP2, CAP3, CAP0}), cap, pf, true, {.spurious = true});
        });
        vp::part("three-threads", "three threads with 2+1+1 operations; all schedules up to the preemption bound", {.bound = th ? 2 : 1}, [&](ctx& c) {
            std::size_t cap = 1 + std::size_t(c.choose(2)); int pf = c.choose(2) ? int(cap) : 0;
            run_program(c, choose_prog(c, {2, 1, 1}, {PUSH_COPY, PUSH_MOVE, TRY_PUSH, POP, TRY_POP, CAP3}), cap, pf, true, {});
        });
        vp::part("three-waiters", "four threads: waiting pushers or poppers, and one thread that releases them", {.bound = 1}, [&](ctx& c) {
            bool poppers = c.flag();
            std::vector<std::vector<op>> p(1); int v = 1;
            int w = 2 + c.choose(2);
            for (int i = 0; i < w; ++i) p.push_back({{poppers ? POP : (i & 1 ? PUSH_COPY : PUSH_MOVE), v++}});
            std::vector<op> rel; const std::vector<int> ra = poppers ? std::vector<int>{PUSH_COPY, PUSH_MOVE, TRY_PUSH} : std::vector<int>{POP, TRY_POP, CAP3};
            for (int i = 0; i < 2; ++i) rel.push_back({ra[std::size_t(c.choose(3))], v++});
            p.push_back(rel);
            run_program(c, p, 1, poppers ? 0 : 1, true, {});
        });
    }
    return vp::finish();
}
