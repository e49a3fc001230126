// object_pool and concurrent_queue_processor under every bounded schedule.
#include "vp.hpp"
#include "sched.hpp"
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/object_pool.hpp"
#include "dottorrent/concurrent_queue_processor.hpp"
#include <thread>
#include <optional>
#include <deque>
#include <algorithm>
using vp::ctx;
namespace dt = dottorrent;
#define UNINSTR __attribute__((no_sanitize("thread"), noinline))

// ---------------------------------------------------------------- object pool
struct counters { int live, made, recycled, max_live; };
static counters K;
UNINSTR static void k_reset() { K = {}; }
UNINSTR static void k_made() { ++K.made; if (++K.live > K.max_live) K.max_live = K.live; }
UNINSTR static void k_gone() { --K.live; }
UNINSTR static void k_rec() { ++K.recycled; }
UNINSTR static counters k_get() { return K; }

struct obj { int value = 7; bool in_use = false; long stamp = 0; obj() { k_made(); } ~obj() { value = -1; k_gone(); } obj(const obj&) = delete; };
struct obj_policy {
    static std::shared_ptr<obj> construct() { return std::make_shared<obj>(); }
    static void recycle(std::shared_ptr<obj>& o) { k_rec(); o->in_use = false; }
};
using pool_t = dt::pool::object_pool<obj, obj_policy>;

static void pool_sequential()
{
    vp::part("sequential", "every sequence of get, copy, release, clear and pool moves/destruction on pools of capacity 1..3 with 0..capacity preallocated objects", {}, [](ctx& c) {
        int cap = 1 + c.choose(3); int pre = c.choose(cap + 2) - 1;   // -1: the one-argument constructor
        std::string d = vp::cat("pool capacity ", cap, pre < 0 ? std::string() : vp::cat(" preallocated ", pre), ": ");
        k_reset();
        std::string trace;
        sched::run(c, {}, [&] {
            std::optional<pool_t> p;
            if (pre < 0) p.emplace(cap); else p.emplace(cap, pre);
            std::vector<std::vector<std::shared_ptr<obj>>> held;   // groups of handles to one object
            std::vector<std::weak_ptr<obj>> observers;               // outlive every handle
            int idle = std::max(0, pre), made = std::max(0, pre), recycled = 0, leaked_live = 0;
            auto check = [&](const char* when) {
                sched::quiet q;
                auto k = k_get();
                if (p) c.expectf(p->size() == idle, "size", [&] { return vp::cat(when, ": size() is ", p->size(), ", expected ", idle, " after ", d); });
                c.expectf(k.made == made, "construct-count", [&] { return vp::cat(when, ": ", k.made, " objects constructed, expected ", made, " after ", d); });
                c.expectf(k.live == int(held.size()) + (p ? idle : 0), "live", [&] { return vp::cat(when, ": ", k.live, " live objects, expected ", held.size() + std::size_t(p ? idle : 0), " after ", d); });
                c.expectf(k.recycled == recycled, "recycle-count", [&] { return vp::cat(when, ": recycle ran ", k.recycled, " times, expected ", recycled, " after ", d); });
                c.expectf(k.live <= cap, "bound", [&] { return vp::cat("more objects than the capacity after ", d); });
                for (auto& g : held) for (auto& h : g) c.expectf(h && h->value == 7 && h->in_use, "valid", [&] { return vp::cat("a handed-out object is not intact after ", d); });
                for (std::size_t i = 0; i < held.size(); ++i) for (std::size_t j = 0; j < i; ++j) c.expectf(held[i][0].get() != held[j][0].get(), "exclusive", [&] { return vp::cat("one object handed out twice after ", d); });
            };
            (void)leaked_live;
            check("initially");
            int depth = c.thorough() ? 7 : 6;
            for (int i = 0; i < depth; ++i) {
                int o = sched::choose(7);
                if (o == 0) {
                    if (!p) break;
                    if (int(held.size()) == cap) {
                        // everything is out: another taker has to wait until a handle is released, and then gets that object
                        d += "get by another thread while everything is out; release oldest; ";
                        bool got = false; obj* freed = held[0][0].get();
                        std::thread t([&] { auto h = p->get(); got = true; if (!h || h.get() != freed || h->in_use) c.fail("not-recycled", "the waiting taker did not get the released object, recycled, after " + d); });
                        std::this_thread::sleep_for(std::chrono::milliseconds(1));
                        c.expectf(!got && k_get().live == cap, "bound", [&] { return "an object was handed out beyond the capacity after " + d; });
                        held.erase(held.begin());
                        t.join();
                        ++idle; recycled += 2;
                        c.transition(); check("then");
                        break;
                    }
                    d += "get; ";
                    auto h = p->get();
                    if (idle > 0) --idle; else ++made;
                    c.expectf(h != nullptr, "null", [&] { return "get() returned nothing after " + d; });
                    c.expectf(!h->in_use, "not-recycled", [&] { return "get() returned an object that was not recycled after " + d; });
                    h->in_use = true;
                    observers.push_back(h);
                    held.push_back({std::move(h)});
                } else if (o == 1 || o == 2) {
                    if (held.empty() || (o == 2 && held.size() < 2)) break;
                    d += o == 1 ? "release oldest; " : "release newest; ";
                    auto it = o == 1 ? held.begin() : held.end() - 1;
                    bool last = it->size() == 1;
                    it->pop_back();
                    if (last) { held.erase(it); if (p) { ++idle; ++recycled; } }
                } else if (o == 3) {
                    if (held.empty() || held[0].size() > 1) break;
                    d += "copy oldest; "; held[0].push_back(held[0][0]);
                } else if (o == 4) {
                    if (!p) break;
                    d += "move pool; ";
                    if (c.choices().size() % 2) { pool_t q(std::move(*p)); p.reset(); p.emplace(std::move(q)); }
                    else { pool_t q(1); q = std::move(*p); p.emplace(std::move(q)); }
                } else if (o == 5) {
                    if (!p) break;
                    d += "clear; "; p->clear(); idle = 0;
                } else {
                    if (!p) break;
                    d += "destroy pool; "; p.reset(); idle = 0;
                }
                c.transition(); check("then");
            }
            p.reset(); idle = 0;
            check("after destroying the pool");
            held.clear();
            auto k = k_get();
            c.expectf(k.live == 0, "leak", [&] { return vp::cat(k.live, " objects outlive the pool and all handles after ", d); });
        });
        c.describe(d); c.nontrivial(); c.state(d);
    });
}

struct self_obj : std::enable_shared_from_this<self_obj> { self_obj() { k_made(); } ~self_obj() { k_gone(); } std::vector<int> data; };
static void pool_large()
{
    vp::part("large", "pools of capacity 1..40 and around powers of two up to 1025, every preallocation in {none, 0, 1, half, all}: taken completely, released in three orders, taken again", {}, [](ctx& c) {
        static const std::vector<int> caps = [] { std::vector<int> v; for (int i = 1; i <= 40; ++i) v.push_back(i); for (int e = 6; e <= 10; ++e) for (int k = -1; k <= 1; ++k) v.push_back((1 << e) + k); return v; }();
        int cap = c.pick(caps), pk = c.choose(5), order = c.choose(3);
        int pre = pk == 0 ? -1 : pk == 1 ? 0 : pk == 2 ? 1 : pk == 3 ? cap / 2 : cap;
        c.describe(vp::cat("pool capacity ", cap, pre < 0 ? std::string() : vp::cat(" preallocated ", pre), ", released in order ", order));
        k_reset();
        sched::run(c, {}, [&] {
            std::optional<pool_t> p; if (pre < 0) p.emplace(cap); else p.emplace(cap, pre);
            for (int round = 0; round < 3; ++round) {
                std::vector<std::shared_ptr<obj>> h; std::vector<obj*> seen;
                for (int i = 0; i < cap; ++i) { auto x = p->get(); c.expect(x && x->value == 7 && !x->in_use, "not-recycled", "get() returned an object that was not recycled"); x->in_use = true; seen.push_back(x.get()); h.push_back(std::move(x)); c.transition(); }
                std::sort(seen.begin(), seen.end()); c.expect(std::unique(seen.begin(), seen.end()) == seen.end(), "exclusive", "one object handed out twice");
                auto k = k_get(); c.expectf(k.live == cap && k.made == cap, "bound", [&] { return vp::cat(k.live, " objects alive, ", k.made, " constructed for capacity ", cap); });
                c.expect(p->size() == 0, "size", "size() of an exhausted pool");
                for (int i = 0; i < cap; ++i) { std::size_t at = order == 0 ? 0 : order == 1 ? h.size() - 1 : h.size() / 2; h.erase(h.begin() + std::ptrdiff_t(at)); if (i % 16 == 0) c.expect(p->size() == i + 1, "size", vp::cat("size() is ", p->size(), " after ", i + 1, " releases")); }
                k = k_get(); c.expect(k.recycled == cap * (round + 1), "recycle-count", vp::cat("recycle ran ", k.recycled, " times"));
            }
        });
        c.expect(k_get().live == 0, "leak", "objects outlive the pool");
        c.nontrivial();
    });
    vp::part("default-policy", "pools with the default policy of objects that know their own handle; every sequence of get, release and pool destruction with observers left behind", {}, [](ctx& c) {
        int cap = 1 + c.choose(2); std::string d = vp::cat("pool capacity ", cap, ": ");
        k_reset();
        std::vector<std::weak_ptr<self_obj>> observers;
        sched::run(c, {}, [&] {
            std::optional<dt::pool::object_pool<self_obj>> p; p.emplace(cap);
            std::vector<std::shared_ptr<self_obj>> held;
            for (int s = 0; s < 6; ++s) {
                int o = sched::choose(4);
                if (o == 0) { if (!p || int(held.size()) == cap) break; d += "get; "; held.push_back(p->get()); observers.push_back(held.back()); observers.push_back(held.back()->weak_from_this()); }
                else if (o == 1) { if (held.empty()) break; d += "release; "; held.erase(held.begin()); }
                else if (o == 2) { if (held.empty()) break; d += "keep itself; "; auto q = held[0]->weak_from_this().lock(); c.expect(q.get() == held[0].get(), "self", "the object does not know itself"); }
                else { if (!p) break; d += "destroy pool; "; p.reset(); }
                c.transition();
                auto k = k_get(); c.expectf(k.live >= int(held.size()) && k.live <= cap && (p || k.live == int(held.size())), "live", [&] { return vp::cat(k.live, " live objects after ", d); });
            }
        });
        c.expectf(k_get().live == 0, "leak", [&] { return vp::cat(k_get().live, " objects outlive the pool and all handles after ", d); });
        c.describe(d); c.state(d); c.nontrivial();
    });
}

static void pool_concurrent()
{
    bool th = vp::thorough();
    for (int variant = 0; variant < 2; ++variant)
    vp::part(variant ? "shared-handles" : "handed-over", variant ? "one thread takes objects and gives each to two consumers, which release them; all schedules up to the preemption bound"
                 : "one thread takes objects and hands them to consumers, which release them, also after the pool is gone; all schedules up to the preemption bound",
             {.bound = th ? 3 : 2, .time_limit = 900}, [variant](ctx& c) {
        int cap = 1 + c.choose(2), pre = c.choose(2), n = 2 + (variant ? 0 : c.choose(2)), workers = variant ? 2 : 1 + c.choose(2);
        bool drop_pool_early = c.flag();
        c.describe(vp::cat("capacity ", cap, " preallocated ", pre, ", ", n, " objects taken, ", workers, " consumers, pool ", drop_pool_early ? "destroyed before" : "kept until", " the consumers finish"));
        k_reset();
        sched::run(c, {}, [&] {
            using q_t = dt::concurrent_queue<std::shared_ptr<obj>>;
            std::vector<std::unique_ptr<q_t>> qs;
            for (int i = 0; i < workers; ++i) qs.push_back(std::make_unique<q_t>(16));
            std::vector<std::thread> ts;
            for (int w = 0; w < workers; ++w) ts.emplace_back([&, w] {
                for (;;) {
                    std::shared_ptr<obj> h; qs[std::size_t(w)]->pop(h);
                    if (!h) return;
                    if (h->value != 7 || !h->in_use) c.fail("exclusive", "an object is recycled or destroyed while a consumer holds it");
                    if (variant == 0) h->stamp += 1;
                    h.reset();
                }
            });
            {
                std::optional<pool_t> p; if (pre) p.emplace(cap, 1); else p.emplace(cap);
                for (int i = 0; i < n; ++i) {
                    auto h = p->get();
                    if (h->in_use) c.fail("exclusive", "an object is handed out while somebody holds it");
                    if (h->value != 7) c.fail("valid", "get() returned a destroyed object");
                    h->in_use = true;
                    if (variant) { for (auto& q : qs) q->push(h); } else qs[std::size_t(i % workers)]->push(std::move(h));
                }
                if (drop_pool_early) p.reset();
                for (auto& q : qs) q->push(nullptr);
                for (auto& t : ts) t.join();
            }
        });
        auto k = k_get();
        c.expect(k.live == 0, "leak", vp::cat(k.live, " objects leaked"));
        c.expect(k.max_live <= cap, "bound", vp::cat(k.max_live, " objects alive at once"));
        c.nontrivial(); c.outcome(vp::cat(k.made, ",", k.recycled));
    });
}

// ---------------------------------------------------------------- queue processor
static void processor()
{
    bool th = vp::thorough();
    static const char* modes[] = {"request_stop, wait", "request_cancellation, wait", "destructor only", "request_cancellation, destructor", "request_stop, destructor"};
    for (int nt = 1; nt <= (th ? 3 : 2); ++nt)
    vp::part(vp::cat("processor-", nt), "every capacity, number of items and way of ending, all schedules up to the preemption bound", {.bound = nt == 1 ? 3 : (th ? 3 : 2), .time_limit = 900}, [nt, th](ctx& c) {
        int cap = 1 + c.choose(3), items = c.choose(nt == 1 ? 4 : th ? 4 : 3), mode = c.choose(5);
        bool prefill = c.flag();    // items are queued before the workers start
        c.describe(vp::cat(nt, " worker(s), queue capacity ", cap, ", ", items, " items", prefill ? " queued before start, " : ", ", modes[mode]));
        if (prefill && items > cap) return;
        bool done_after = true, cancelled = false, started = false, running_after = false;
        sched::run(c, {}, [&] {
            {
                dt::concurrent_queue_processor<int> p(static_cast<std::size_t>(cap));
                p.set_max_concurrency(static_cast<std::size_t>(nt));
                p.set_work_function([](int&& v) { sched::note(1, v); });
                auto q = p.get_queue();
                if (prefill) for (int i = 0; i < items; ++i) q->push(i);
                p.start();
                started = p.started();
                if (!prefill) for (int i = 0; i < items; ++i) q->push(i);
                if (mode == 0 || mode == 4) p.request_stop();
                if (mode == 1 || mode == 3) { p.request_cancellation(); cancelled = p.cancelled(); }
                if (mode <= 1) { p.wait(); done_after = p.done(); }
            }
        });
        std::vector<int> n(std::size_t(items), 0);
        for (auto& e : sched::notes()) { c.expect(e.a >= 0 && e.a < items, "unknown-item", "an item that was never queued is processed"); ++n[std::size_t(e.a)]; }
        bool cancel = mode == 1 || mode == 3;
        std::string got; for (int x : n) got += std::to_string(x);
        for (int x : n) {
            c.expectf(x <= 1, "twice", [&] { return "an item is processed more than once; counts " + got + " | schedule: " + sched::schedule(); });
            if (!cancel) c.expectf(x == 1, "lost", [&] { return "an item is not processed; counts " + got + " | schedule: " + sched::schedule(); });
        }
        c.expect(started && done_after, "status", "started()/done() do not report the state");
        if (cancel) c.expect(cancelled, "status", "cancelled() does not report the cancellation");
        c.outcome(got + modes[mode]); c.nontrivial();
    });
    for (int nt = 1; nt <= 2; ++nt)
    vp::part(vp::cat("early-wait-", nt), "another thread already waits for the workers while items are queued and the stop or cancellation is requested; all schedules up to the preemption bound", {.bound = (th ? 3 : 2) - (nt == 2), .time_limit = 600}, [nt](ctx& c) {
        int cap = 1 + c.choose(2), items = c.choose(3); bool cancel = c.flag();
        c.describe(vp::cat(nt, " worker(s), queue capacity ", cap, ", a thread waits while ", items, " items are queued, then ", cancel ? "request_cancellation" : "request_stop"));
        bool done_after = true;
        sched::run(c, {}, [&] {
            dt::concurrent_queue_processor<int> p(static_cast<std::size_t>(cap));
            p.set_max_concurrency(static_cast<std::size_t>(nt));
            p.set_work_function([](int&& v) { sched::note(1, v); });
            auto q = p.get_queue();
            p.start();
            std::thread w([&] { p.wait(); });
            for (int i = 0; i < items; ++i) q->push(i);
            if (cancel) p.request_cancellation(); else p.request_stop();
            w.join();
            done_after = p.done();
        });
        std::vector<int> n(std::size_t(items), 0);
        for (auto& e : sched::notes()) { c.expect(e.a >= 0 && e.a < items, "unknown-item", "an item that was never queued is processed"); ++n[std::size_t(e.a)]; }
        std::string got; for (int x : n) got += std::to_string(x);
        for (int x : n) {
            c.expectf(x <= 1, "twice", [&] { return "an item is processed more than once; counts " + got + " | schedule: " + sched::schedule(); });
            if (!cancel) c.expectf(x == 1, "lost", [&] { return "an item is not processed; counts " + got + " | schedule: " + sched::schedule(); });
        }
        c.expect(done_after, "status", "done() is false after wait()");
        c.outcome(got); c.nontrivial();
    });
    for (int nt = 1; nt <= 2; ++nt)
    vp::part(vp::cat("status-", nt), "workers held inside their work while the state is queried and more work is queued, then stopped or cancelled; all schedules up to the preemption bound", {.bound = 2, .time_limit = 600}, [nt](ctx& c) {
        int items = nt + c.choose(3); bool cancel = c.flag();
        c.describe(vp::cat(nt, " worker(s), all busy, ", items - nt, " more items queued, then ", cancel ? "request_cancellation" : "request_stop"));
        int left = 0;
        sched::run(c, {}, [&] {
            dt::concurrent_queue<int> entered(8), gate(8);
            dt::concurrent_queue_processor<int> p(8);
            c.expect(!p.started() && !p.running() && !p.done() && !p.cancelled(), "status", "a new processor reports that it is started, running, done or cancelled");
            p.set_max_concurrency(static_cast<std::size_t>(nt));
            p.set_work_function([&](int&& v) { entered.push(v); int x; gate.pop(x); sched::note(1, v); });
            auto q = p.get_queue();
            p.start();
            c.expect(p.started() && p.running() && !p.done() && !p.cancelled(), "status", "started workers are not reported as running");
            for (int i = 0; i < items; ++i) q->push(i);
            for (int i = 0; i < nt; ++i) { int x; entered.pop(x); }
            c.expect(p.running() && !p.done(), "status", "busy workers are not reported as running");
            if (cancel) p.request_cancellation(); else p.request_stop();
            c.expect(p.cancelled() == cancel && p.started(), "status", "cancelled()/started() after the request");
            if (cancel) c.expect(!p.running(), "status", "running() after a cancellation");
            else c.expect(!p.done(), "status", "done() is true while items are being processed");
            for (int i = 0; i < items; ++i) gate.push(i);
            p.wait();
            c.expect(p.done(), "status", "done() is false after wait()");
            std::optional<int> it; while (q->try_pop(it)) left += it.has_value();
        });
        std::vector<int> n(std::size_t(items), 0); int total = 0;
        for (auto& e : sched::notes()) { c.expect(e.a >= 0 && e.a < items, "unknown-item", "an item that was never queued is processed"); ++n[std::size_t(e.a)]; ++total; }
        for (int x : n) c.expectf(x <= 1, "twice", [&] { return "an item is processed more than once | schedule: " + sched::schedule(); });
        if (cancel) c.expectf(total == nt, "not-discarded", [&] { return vp::cat(total, " items are processed although all but ", nt, " were still pending when the work was cancelled | schedule: ", sched::schedule()); });
        else c.expectf(total == items, "lost", [&] { return vp::cat(total, " of ", items, " items are processed | schedule: ", sched::schedule()); });
        c.expectf(left == 0, "left-over", [&] { return vp::cat(left, " items are still queued after wait() | schedule: ", sched::schedule()); });
        c.outcome(vp::cat(total, cancel)); c.nontrivial();
    });
    vp::part("default-concurrency", "the default number of workers on machines with 1..4 processors, with and without the argument", {.bound = 1, .time_limit = 300}, [](ctx& c) {
        unsigned procs = 1 + unsigned(c.choose(4)); bool zero = c.flag(); int items = c.choose(3);
        c.describe(vp::cat("set_max_concurrency(", zero ? "0" : "", ") on ", procs, " processors, ", items, " items"));
        sched::config cfg; cfg.nprocs = procs;
        sched::run(c, cfg, [&] {
            dt::concurrent_queue_processor<int> p(4);
            if (zero) p.set_max_concurrency(0); else p.set_max_concurrency();
            p.set_work_function([](int&& v) { sched::note(1, v); });
            p.start();
            for (int i = 0; i < items; ++i) p.get_queue()->push(i);
            p.request_stop(); p.wait();
        });
        c.expectf(int(sched::notes().size()) == items, "lost", [&] { return vp::cat(sched::notes().size(), " of ", items, " items are processed"); });
        c.nontrivial();
    });
    vp::part("bulk", "queues of capacity 1..9, 1..4 workers and up to 300 items; one schedule each", {.bound = 0}, [](ctx& c) {
        std::size_t cap = 1 + std::size_t(c.choose(9)), nt = 1 + std::size_t(c.choose(4)); static const int N[] = {17, 100, 300}; int items = N[c.choose(3)];
        c.describe(vp::cat(nt, " worker(s), queue capacity ", cap, ", ", items, " items"));
        sched::config cfg; cfg.delay_bounded = true;
        sched::run(c, cfg, [&] {
            dt::concurrent_queue_processor<int> p(cap); p.set_max_concurrency(nt); p.set_work_function([](int&& v) { sched::note(1, v); });
            p.start(); for (int i = 0; i < items; ++i) p.get_queue()->push(i);
            p.request_stop(); p.wait();
        });
        std::vector<int> n(std::size_t(items), 0); for (auto& e : sched::notes()) ++n[std::size_t(e.a)];
        for (int x : n) c.expectf(x == 1, "lost", [&] { return vp::cat("an item is processed ", x, " times"); });
        c.nontrivial();
    });
    vp::part("not-started", "a processor that is never started", {}, [](ctx& c) {
        int how = c.choose(3);
        c.describe(vp::cat("never started, then ", how == 0 ? "destroyed" : how == 1 ? "waited for" : "cancelled and destroyed"));
        sched::run(c, {}, [&] {
            dt::concurrent_queue_processor<int> p(2); p.set_max_concurrency(1); p.set_work_function([](int&&) {});
            if (how == 1) p.wait();
            if (how == 2) p.request_cancellation();
            c.expect(!p.started() && !p.running(), "status", "reports started");
        });
        c.nontrivial();
    });
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::string prop;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    vp::assume("threads interleave at synchronisation operations (sequential consistency; data races are reported by happens-before analysis); at most the stated number of preemptions per execution");
    if (prop == "object-pool") { pool_sequential(); pool_large(); pool_concurrent(); vp::assume("get() is called by one thread at a time, as its documentation requires"); }
    else if (prop == "queue-processor") processor();
    else { std::puts("unknown property"); return 2; }
    return vp::finish();
}
