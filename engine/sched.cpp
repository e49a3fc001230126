#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/single_threaded.h>
#include <unistd.h>
#include <unordered_map>
#include <map>

extern "C" void __libc_free(void*);
extern "C" void* __libc_malloc(std::size_t);
extern "C" void* __libc_memalign(std::size_t, std::size_t);
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

// void vp_switch(void** save_sp, void* load_sp)
asm(R"(
.text
.globl vp_switch
.type vp_switch,@function
vp_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vp_switch,.-vp_switch
)");
extern "C" void vp_switch(void** save_sp, void* load_sp);

namespace sched {
namespace {
constexpr int max_threads = 24;
constexpr std::size_t stack_size = 512 * 1024;

struct vclock {
    std::uint32_t c[max_threads];
    void clear() { std::memset(c, 0, sizeof c); }
    void join(const vclock& o) { for (int i = 0; i < max_threads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum class st : std::uint8_t { unused, ready, mutex, rdlock, wrlock, cond, futex, join, guard, sleep, done };

struct tls_dtor { void (*f)(void*); void* p; };

struct thread {
    st state = st::unused;
    void* sp = nullptr;
    char* stack = nullptr;
    void* obj = nullptr;          // what it is blocked on
    void* obj2 = nullptr;         // the mutex of a condition wait
    bool timed = false;
    bool timed_out = false;
    std::uint64_t deadline = 0;   // virtual ns
    std::uint64_t order = 0;      // arrival order of waiters
    vclock vc;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    bool detached = false, joined = false;
    unsigned char ehg[16] = {};
    int err = 0;
    std::vector<unsigned char> tls;
    std::vector<tls_dtor> dtors;
    std::uint32_t ops = 0;
    int streak = 0, forced = 0;   // consecutive steps without giving way; times it was made to
};

struct mutex_s { int owner = -1; int depth = 0; vclock vc; };
struct rw_s { int writer = -1; int readers = 0; std::uint32_t rmask = 0; vclock wvc, rvc; };

bool on = false;            // a controlled run is active
int inside = 0;             // in the runtime itself
vp::ctx* C = nullptr;
config cfg;
thread T[max_threads];
int nthreads = 0;
int cur = 0;
std::uint64_t nsteps = 0, arrival = 0, fair_rng = 0;
constexpr std::uint64_t fair_after = 5000;
std::uint64_t vtime = 0;
char* stacks[max_threads] = {};
std::vector<event> hist;

std::unordered_map<void*, mutex_s>* mutexes;
std::unordered_map<void*, rw_s>* rws;
struct avc { vclock vc; };
std::unordered_map<std::uintptr_t, avc>* atoms;
std::unordered_map<void*, int>* names;
vclock fence_vc;

const deadlock_fn* on_block = nullptr;
void* jb[5];
[[noreturn]] void abandon();

struct tr { std::uint8_t t; const char* op; void* obj; };
std::vector<tr>* trace_;

std::uintptr_t exe_lo = 0, exe_hi = 0;
std::size_t tls_size = 0, tls_image_size = 0;
const void* tls_image = nullptr;
char* tls_base = nullptr;

struct G { G() { on = false; } } g_;

int phdr_cb(dl_phdr_info* i, std::size_t, void*)
{
    // the first object is the executable
    exe_lo = ~std::uintptr_t{0};
    for (int k = 0; k < i->dlpi_phnum; ++k) {
        auto& p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD) {
            std::uintptr_t lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
            exe_lo = std::min(exe_lo, lo); exe_hi = std::max(exe_hi, hi);
        }
        if (p.p_type == PT_TLS) {
            tls_image_size = p.p_filesz; tls_image = reinterpret_cast<const void*>(i->dlpi_addr + p.p_vaddr);
            std::size_t al = p.p_align ? p.p_align : 1;
            tls_size = (p.p_memsz + al - 1) & ~(al - 1);
        }
    }
    return 1;
}
void setup_once()
{
    static bool done = false;
    if (done) return;
    done = true;
    dl_iterate_phdr(phdr_cb, nullptr);
    char* fs; asm("mov %%fs:0, %0" : "=r"(fs));
    tls_base = fs - tls_size;
    mutexes = new std::unordered_map<void*, mutex_s>;
    rws = new std::unordered_map<void*, rw_s>;
    atoms = new std::unordered_map<std::uintptr_t, avc>;
    names = new std::unordered_map<void*, int>;
    trace_ = new std::vector<tr>;
}
bool from_exe(void* ra) { auto a = reinterpret_cast<std::uintptr_t>(ra); return a >= exe_lo && a < exe_hi; }

struct guard_in { guard_in() { ++inside; } ~guard_in() { --inside; } };
inline bool live() { return on && inside == 0; }

int name_of(void* p) { auto [it, n] = names->try_emplace(p, int(names->size())); return it->second; }

void log(const char* op, void* obj) { trace_->push_back({std::uint8_t(cur), op, obj}); }

std::string sched_text(std::size_t last = 90)
{
    std::string s;
    std::size_t b = trace_->size() > last ? trace_->size() - last : 0;
    if (b) s += "... ";
    for (std::size_t i = b; i < trace_->size(); ++i) {
        auto& e = (*trace_)[i];
        s += "T" + std::to_string(e.t) + ":" + e.op;
        if (e.obj) s += "#" + std::to_string(name_of(e.obj));
        s += ' ';
    }
    return s;
}
const char* st_name(st s)
{
    switch (s) {
    case st::unused: return "unused"; case st::ready: return "ready"; case st::mutex: return "waits for mutex"; case st::rdlock: return "waits for shared lock";
    case st::wrlock: return "waits for exclusive lock"; case st::cond: return "waits for condition"; case st::futex: return "waits for futex";
    case st::join: return "waits for thread"; case st::guard: return "waits for static initialisation"; case st::sleep: return "sleeps"; case st::done: return "finished";
    }
    return "?";
}
std::string threads_text()
{
    std::string s;
    for (int i = 0; i < nthreads; ++i) {
        s += "T" + std::to_string(i) + " " + st_name(T[i].state);
        if (T[i].state == st::join) s += " T" + std::to_string(int(reinterpret_cast<std::uintptr_t>(T[i].obj)));
        else if (T[i].obj && T[i].state != st::ready && T[i].state != st::done) s += " #" + std::to_string(name_of(T[i].obj));
        s += "; ";
    }
    return s;
}
[[noreturn]] void bad(const char* key, const std::string& msg)
{
    ++inside;
    C->fail(key, msg + " | threads: " + threads_text() + "| schedule: " + sched_text());
}

bool enabled(int i)
{
    auto& t = T[i];
    switch (t.state) {
    case st::ready: return true;
    case st::mutex: { auto it = mutexes->find(t.obj); return it == mutexes->end() || it->second.owner < 0; }
    case st::wrlock: { auto it = rws->find(t.obj); return it == rws->end() || (it->second.writer < 0 && it->second.readers == 0); }
    case st::rdlock: { auto it = rws->find(t.obj); return it == rws->end() || it->second.writer < 0; }
    case st::join: return T[reinterpret_cast<std::uintptr_t>(t.obj)].state == st::done;
    default: return false;
    }
}

void save_ctx(thread& t)
{
    t.err = errno;
    std::memcpy(t.ehg, __cxxabiv1::__cxa_get_globals(), 16);
    if (tls_size) { t.tls.resize(tls_size); std::memcpy(t.tls.data(), tls_base, tls_size); }
}
void load_ctx(thread& t)
{
    std::memcpy(__cxxabiv1::__cxa_get_globals(), t.ehg, 16);
    if (tls_size) std::memcpy(tls_base, t.tls.data(), tls_size);
    errno = t.err;
}
void switch_to(int n)
{
    if (n == cur) return;
    int o = cur;
    save_ctx(T[o]);
    int ins = inside;
    cur = n;
    load_ctx(T[n]);
    vp_switch(&T[o].sp, T[n].sp);
    inside = ins;
}

void note_state()
{
    std::uint64_t h = 0x51ed270b;
    for (int i = 0; i < nthreads; ++i) {
        h = (h ^ (std::uint64_t(T[i].ops) << 8 | std::uint64_t(T[i].state))) * 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
    }
    h = (h ^ std::uint64_t(cur)) * 0x9E3779B97F4A7C15ULL;
    C->state(h ^ (h >> 31));
}

/// Pick and switch to the next thread.  `self_ok`: the current thread may simply continue.
/// `yielding`: the current thread prefers the others.
void reschedule(bool yielding = false)
{
    if (++nsteps > cfg.max_steps) bad("livelock", "no termination within " + std::to_string(cfg.max_steps) + " scheduling steps");
    T[cur].ops++;
    C->transition();
    note_state();
    // alternatives in order: current (unless it yields), then the others round robin;
    int alt[2 * max_threads]; int n = 0;
    bool self = enabled(cur);
    if (self && !yielding) alt[n++] = cur;
    for (int k = 1; k < nthreads; ++k) { int i = (cur + k) % nthreads; if (enabled(i)) alt[n++] = i; }
    if (self && yielding) alt[n++] = cur;
    int nen = n;
    // costly alternatives: early timeouts, sleepers waking early, spurious wake-ups
    int sleepers = 0, first_sleeper = -1;
    for (int k = 1; k <= nthreads; ++k) {
        int i = (cur + k) % nthreads;
        if (T[i].state == st::sleep || ((T[i].state == st::cond || T[i].state == st::futex || T[i].state == st::mutex) && T[i].timed && !enabled(i))) {
            ++sleepers;
            if (first_sleeper < 0 || T[i].deadline < T[first_sleeper].deadline) first_sleeper = i;
        }
    }
    int pick;
    if (nen == 0) {
        if (first_sleeper < 0) {
            bool all = true;
            for (int i = 0; i < nthreads; ++i) all &= T[i].state == st::done;
            if (all) bad("engine:sched", "no thread left to run");
            if (on_block && *on_block && (*on_block)()) abandon();
            bad("deadlock", "deadlock: no thread can run");
        }
        pick = first_sleeper;
    } else if (nsteps > fair_after) {
        // so long a run polls or starves somebody: finish it under a (reproducible) random schedule,
        // which ends with probability one unless the code cannot end at all
        if (first_sleeper >= 0) alt[n++] = first_sleeper;
        fair_rng = fair_rng * 6364136223846793005ULL + 1442695040888963407ULL;
        pick = alt[(fair_rng >> 33) % std::uint64_t(n)];
    } else if (self && ++T[cur].streak > std::max(20, 240 >> std::min(T[cur].forced, 4)) && (nen > 1 || first_sleeper >= 0)) {
        // fairness: a thread that polls in a loop lets the others run
        T[cur].streak = 0; T[cur].forced++;
        pick = nen == 1 ? first_sleeper : alt[0] == cur ? alt[1] : alt[0];
    } else {
        for (int k = 1; k <= nthreads; ++k) {
            int i = (cur + k) % nthreads;
            if (T[i].state == st::sleep || ((T[i].state == st::cond || T[i].state == st::futex) && T[i].timed)) alt[n++] = i;
            else if (cfg.spurious && T[i].state == st::cond && i != cur) alt[n++] = i;
        }
        // exactly one vp choice per step with more than one alternative
        bool preempting = (self && !yielding);
        int c = 0;
        if (n > 1) {
            bool all_cost = preempting || cfg.delay_bounded || yielding;
            if (all_cost) c = C->choose_cost(n, 1);
            else if (n == nen) c = C->choose(n);
            else {
                // free choice among the enabled ones, deviations for the rest
                if (C->choose_cost(2, 1) == 0) c = nen > 1 ? C->choose(nen) : 0;
                else c = nen + (n - nen > 1 ? C->choose(n - nen) : 0);
            }
        }
        pick = alt[c];
    }
    if (pick != cur) T[cur].streak = 0;
    auto& t = T[pick];
    if (!enabled(pick)) {
        // a sleeper or a (timed or spurious) waiter wakes
        if (t.timed || t.state == st::sleep) { t.timed_out = true; vtime = std::max(vtime, t.deadline); }
        t.timed = false;
        if (t.state == st::cond) { t.state = st::mutex; t.obj = t.obj2; }
        else t.state = st::ready;
        if (t.state == st::mutex && !enabled(pick)) { reschedule(false); return; }
    }
    switch_to(pick);
}

void sync_point(const char* op, void* obj)
{
    log(op, obj);
    reschedule();
}

// ------------------------------------------------------------------ happens-before
struct entry { std::uint32_t clk; std::uint8_t tid, mask, wr, used; };
struct cell { std::uint64_t key; std::uint32_t run; std::uint32_t freed; entry e[6]; void* pc; };
constexpr std::size_t ncells = std::size_t{1} << 18;
cell* cells = nullptr;
std::uint32_t run_id = 0;
std::uint64_t cells_used = 0;

cell* find_cell(std::uint64_t g, bool make)
{
    std::size_t i = (g * 0x9E3779B97F4A7C15ULL) >> 46;
    for (std::size_t k = 0; k < 64; ++k) {
        auto& c = cells[(i + k) & (ncells - 1)];
        if (c.run != run_id) {
            if (!make) return nullptr;
            std::memset(&c, 0, sizeof c);
            c.run = run_id; c.key = g; ++cells_used;
            return &c;
        }
        if (c.key == g) return &c;
    }
    return nullptr;   // table crowded: this granule is not tracked
}

std::string sym(void* pc)
{
    Dl_info d{};
    if (dladdr(pc, &d) && d.dli_sname) return d.dli_sname;
    char b[32]; snprintf(b, sizeof b, "exe+0x%lx", long(reinterpret_cast<std::uintptr_t>(pc) - exe_lo));
    return b;
}

void access1(std::uint64_t g, std::uint8_t mask, bool wr, void* pc)
{
    cell* c = find_cell(g, true);
    if (!c) return;
    if (c->freed) bad("use-after-free", std::string(wr ? "write to" : "read from") + " freed memory in " + sym(pc));
    auto& me = T[cur].vc;
    entry* slot = nullptr;
    for (auto& e : c->e) {
        if (!e.used) { if (!slot) slot = &e; continue; }
        if (e.tid == cur) {
            if ((e.mask & ~mask) == 0 && (wr || !e.wr)) { e.used = 0; if (!slot) slot = &e; }
            else if ((mask & ~e.mask) == 0 && e.wr == wr && e.clk == me.c[cur]) { return; }
            continue;
        }
        if ((e.mask & mask) && (wr || e.wr) && e.clk > me.c[e.tid])
            bad("race", std::string("data race: T") + std::to_string(cur) + (wr ? " writes" : " reads") + " in " + sym(pc) + " what T" + std::to_string(e.tid) + (e.wr ? " wrote" : " read") +
                        " without synchronisation (last access of this word recorded in " + sym(c->pc) + ")");
        if (e.clk <= me.c[e.tid] && (e.mask & ~mask) == 0 && wr) { e.used = 0; if (!slot) slot = &e; }
    }
    if (!slot) { slot = &c->e[nsteps % 6]; }
    *slot = entry{me.c[cur], std::uint8_t(cur), mask, std::uint8_t(wr), 1};
    c->pc = pc;
}
inline void access(std::uintptr_t a, std::size_t n, bool wr, void* pc)
{
    if (!on || inside || !cfg.races || nthreads < 2) {
        if (!on || inside || !cfg.races) return;
        // single threaded so far: nothing can race, but freed memory must still be noticed
        cell* c = find_cell(a >> 3, false);
        if (c && c->freed) { guard_in g; bad("use-after-free", std::string(wr ? "write to" : "read from") + " freed memory in " + sym(pc)); }
        return;
    }
    if (a - reinterpret_cast<std::uintptr_t>(tls_base) < tls_size) return;
    ++inside;
    while (n) {
        std::size_t off = a & 7, k = std::min<std::size_t>(8 - off, n);
        access1(a >> 3, std::uint8_t(((1u << k) - 1) << off), wr, pc);
        a += k; n -= k;
    }
    --inside;
}
void release_into(vclock& v) { v.join(T[cur].vc); T[cur].vc.c[cur]++; }
void release_set(vclock& v) { v = T[cur].vc; T[cur].vc.c[cur]++; }
void acquire_from(const vclock& v) { T[cur].vc.join(v); }

// ------------------------------------------------------------------ memory
struct qent { void* p; };
std::vector<void*>* quarantine = nullptr;
std::size_t quarantine_bytes = 0;

void mark_freed(void* p, std::size_t n)
{
    if (n > (1u << 16)) n = 1u << 16;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    for (std::uintptr_t g = a >> 3; g < (a + n) >> 3; ++g) { cell* c = find_cell(g, true); if (c) { c->freed = 1; } }
}
extern "C" std::size_t malloc_usable_size(void*);
void my_free(void* p)
{
    if (!p) return;
    if (on && inside == 0) {
        ++inside;
        std::size_t n = malloc_usable_size(p);
        if (cfg.races) {
            auto* c = find_cell(reinterpret_cast<std::uintptr_t>(p) >> 3, false);
            if (c && c->freed) bad("use-after-free", "memory is freed twice");
            mark_freed(p, n);
        }
        if (n <= (1u << 20)) std::memset(p, 0xdd, n);
        quarantine->push_back(p);
        --inside;
        return;
    }
    if (on && quarantine) { /* runtime allocations */ }
    __libc_free(p);
}

void fibre_entry() noexcept;
void thread_exit_here()
{
    // run thread_local destructors
    while (!T[cur].dtors.empty()) { auto d = T[cur].dtors.back(); T[cur].dtors.pop_back(); d.f(d.p); }
    ++inside;
    log("exit", nullptr);
    T[cur].state = st::done;
    reschedule();
    bad("engine:sched", "a finished thread was resumed");
}
void fibre_entry() noexcept
{
    inside = 0;
    T[cur].ret = T[cur].fn(T[cur].arg);
    thread_exit_here();
}

int new_thread(void* (*fn)(void*), void* arg)
{
    if (nthreads >= max_threads) bad("engine:threads", "too many threads");
    int id = nthreads++;
    auto& t = T[id];
    t = thread{};
    if (!stacks[id]) {
        char* s = static_cast<char*>(mmap(nullptr, stack_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (s == MAP_FAILED) bad("engine:mmap", "no memory for a stack");
        mprotect(s, 4096, PROT_NONE);
        stacks[id] = s + 4096;
    }
    t.stack = stacks[id];
    t.fn = fn; t.arg = arg;
    t.vc = T[cur].vc; t.vc.c[id] = 1; T[cur].vc.c[cur]++;
    t.state = st::ready;
    t.tls.assign(tls_size, 0);
    if (tls_image_size) std::memcpy(t.tls.data(), tls_image, tls_image_size);
    auto** sp = reinterpret_cast<void**>(t.stack + stack_size - 64);
    *--sp = nullptr;                                     // return address of fibre_entry, keeps alignment
    *--sp = reinterpret_cast<void*>(&fibre_entry);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    t.sp = sp;
    return id;
}

// ------------------------------------------------------------------ blocking operations
void lock_mutex(void* m, bool point, bool recursive = false)
{
    if (point) sync_point("lock", m);
    for (;;) {
        auto& s = (*mutexes)[m];
        if (s.owner < 0) { s.owner = cur; s.depth = 1; T[cur].state = st::ready; acquire_from(s.vc); return; }
        if (s.owner == cur && recursive) { s.depth++; return; }
        T[cur].state = st::mutex; T[cur].obj = m; T[cur].timed = false;
        reschedule();
        T[cur].state = st::ready;
    }
}
void unlock_mutex(void* m)
{
    auto it = mutexes->find(m);
    if (it == mutexes->end() || it->second.owner != cur) { log("unlock", m); bad("unlock", "a mutex is unlocked by a thread that does not own it"); }
    if (--it->second.depth > 0) return;
    it->second.owner = -1;
    release_set(it->second.vc);
    log("unlock", m);
}
int cond_wait(void* cv, void* m, bool timed, std::uint64_t deadline)
{
    sync_point("wait", cv);
    unlock_mutex(m);
    auto& t = T[cur];
    t.state = st::cond; t.obj = cv; t.obj2 = m; t.timed = timed; t.timed_out = false; t.deadline = deadline; t.order = ++arrival;
    reschedule();
    T[cur].state = st::ready;
    T[cur].timed = false;
    bool to = T[cur].timed_out;
    lock_mutex(m, false);
    log("woken", cv);
    return to ? ETIMEDOUT : 0;
}
void cond_notify(void* cv, bool all)
{
    sync_point(all ? "notify_all" : "notify_one", cv);
    std::vector<int> w;
    for (int i = 0; i < nthreads; ++i) if (T[i].state == st::cond && T[i].obj == cv) w.push_back(i);
    std::sort(w.begin(), w.end(), [](int a, int b) { return T[a].order < T[b].order; });
    if (w.empty()) return;
    if (!all) { int k = w.size() > 1 ? C->choose(int(w.size())) : 0; w = {w[std::size_t(k)]}; }
    for (int i : w) { T[i].state = st::mutex; T[i].obj = T[i].obj2; T[i].timed = false; T[i].timed_out = false; }
}
std::uint64_t to_ns(const timespec* ts) { return std::uint64_t(ts->tv_sec) * 1000000000ULL + std::uint64_t(ts->tv_nsec); }
void do_sleep(std::uint64_t ns)
{
    log("sleep", nullptr);
    auto& t = T[cur];
    t.state = st::sleep; t.deadline = vtime + ns; t.timed = true;
    reschedule();
    T[cur].state = st::ready;
    T[cur].timed = false;
}
template <class F> F real(const char* n) { static std::map<std::string, void*>* m = new std::map<std::string, void*>; auto& p = (*m)[n]; if (!p) p = dlsym(RTLD_NEXT, n); return reinterpret_cast<F>(p); }
} // namespace

namespace {
void finish_run()
{
    on = false;
    inside = 0;
    for (void* p : *quarantine) __libc_free(p);
    quarantine->clear();
    C = nullptr;
}
void abandon()
{
    if (cur != 0) { load_ctx(T[0]); cur = 0; }
    __builtin_longjmp(jb, 1);
}
} // namespace

bool active() { return on; }
int self() { return cur; }
int choose(int n) { guard_in g; return C->choose(n); }
void point(const char* w) { if (live()) { guard_in g; sync_point(w, nullptr); } }
void note(int k, std::int64_t a, std::int64_t b) { guard_in g; hist.push_back({cur, k, a, b}); }
const std::vector<event>& notes() { return hist; }
std::uint64_t steps() { return nsteps; }
std::string schedule() { guard_in g; return sched_text(400); }

static bool __attribute__((noinline)) run_body(const std::function<void()>& body)
{
    if (__builtin_setjmp(jb)) { finish_run(); return false; }
    on = true;
    body();
    ++inside;
    // the main thread is finished; whatever still runs has leaked
    for (int i = 1; i < nthreads; ++i) if (T[i].state != st::done) bad("thread-leak", "a thread is still alive after its owner is gone");
    finish_run();
    return true;
}

quiet::quiet() { ++inside; }
quiet::~quiet() { --inside; }

bool run(vp::ctx& c, const config& cf, const std::function<void()>& body, const deadlock_fn& blocked)
{
    setup_once();
    if (!cells) cells = static_cast<cell*>(mmap(nullptr, ncells * sizeof(cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (!quarantine) quarantine = new std::vector<void*>;
    C = &c; cfg = cf; on_block = &blocked;
    ++run_id;
    mutexes->clear(); rws->clear(); atoms->clear(); names->clear(); trace_->clear(); hist.clear();
    nthreads = 1; cur = 0; nsteps = arrival = fair_rng = 0; vtime = 1000000000000000000ULL;
    T[0] = thread{};
    T[0].state = st::ready; T[0].vc.clear(); T[0].vc.c[0] = 1;
    save_ctx(T[0]);
    fence_vc.clear();
    __libc_single_threaded = 0;
    inside = 0;
    bool r = run_body(body);
    on_block = nullptr;
    return r;
}
} // namespace sched

using namespace sched;

// ====================================================================== interposed functions
extern "C" {
#define RA __builtin_return_address(0)
static bool use_exe(void* ra) { return on && inside == 0 && from_exe(ra); }

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock")(m);
    guard_in g; lock_mutex(m, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m);
    guard_in g; sync_point("trylock", m);
    auto& s = (*mutexes)[m];
    if (s.owner >= 0) return EBUSY;
    s.owner = cur; s.depth = 1; acquire_from(s.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m);
    guard_in g; unlock_mutex(m); return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (on) { guard_in g; mutexes->erase(m); } return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { std::memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (on && inside == 0) { guard_in g; for (int i = 0; i < nthreads; ++i) if (T[i].state == st::cond && T[i].obj == c) bad("cond-destroy", "a condition variable is destroyed while a thread waits for it"); }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on || inside) return real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait")(c, m);
    guard_in g; cond_wait(c, m, false, 0); return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!on || inside) return real<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait")(c, m, ts);
    guard_in g; return cond_wait(c, m, true, to_ns(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (!on || inside) return real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait")(c, m, k, ts);
    guard_in g; return cond_wait(c, m, true, to_ns(ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on || inside) return real<int (*)(pthread_cond_t*)>("pthread_cond_signal")(c);
    guard_in g; cond_notify(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on || inside) return real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast")(c);
    guard_in g; cond_notify(c, true); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock")(m);
    guard_in g; sync_point("rdlock", m);
    for (;;) {
        auto& s = (*rws)[m];
        if (s.writer == cur) return EDEADLK;
        if (s.writer < 0) { s.readers++; s.rmask |= 1u << cur; acquire_from(s.wvc); return 0; }
        T[cur].state = st::rdlock; T[cur].obj = m; reschedule(); T[cur].state = st::ready;
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock")(m);
    guard_in g; sync_point("wrlock", m);
    for (;;) {
        auto& s = (*rws)[m];
        if (s.writer == cur) return EDEADLK;
        if (s.writer < 0 && s.readers == 0) { s.writer = cur; acquire_from(s.wvc); acquire_from(s.rvc); return 0; }
        T[cur].state = st::wrlock; T[cur].obj = m; reschedule(); T[cur].state = st::ready;
    }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock")(m);
    guard_in g; sync_point("tryrdlock", m); auto& s = (*rws)[m];
    if (s.writer >= 0) return EBUSY; s.readers++; acquire_from(s.wvc); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock")(m);
    guard_in g; sync_point("trywrlock", m); auto& s = (*rws)[m];
    if (s.writer >= 0 || s.readers) return EBUSY; s.writer = cur; acquire_from(s.wvc); acquire_from(s.rvc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!use_exe(RA)) return real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock")(m);
    guard_in g; auto& s = (*rws)[m];
    if (s.writer == cur) { s.writer = -1; release_set(s.wvc); s.rvc.clear(); }
    else if (s.readers > 0) { s.readers--; release_into(s.rvc); }
    else bad("unlock", "an unlocked shared mutex is unlocked");
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!on || inside) return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(t, a, fn, arg);
    guard_in g;
    int id = new_thread(fn, arg);
    *t = pthread_t(id + 1);
    log("create", nullptr);
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    if (!on || inside) return real<int (*)(pthread_t, void**)>("pthread_join")(t, r);
    guard_in g;
    int id = int(t) - 1;
    if (id < 0 || id >= nthreads) return ESRCH;
    if (id == cur) return EDEADLK;
    if (T[id].joined) bad("join", "a thread is joined twice");
    log("join", nullptr);
    if (T[id].state != st::done) { T[cur].state = st::join; T[cur].obj = reinterpret_cast<void*>(std::uintptr_t(id)); reschedule(); T[cur].state = st::ready; }
    T[id].joined = true;
    acquire_from(T[id].vc);
    if (r) *r = T[id].ret;
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (!on || inside) return real<int (*)(pthread_t)>("pthread_detach")(t);
    T[int(t) - 1].detached = true; return 0;
}
pthread_t pthread_self()
{
    if (!on) { static auto f = reinterpret_cast<pthread_t (*)()>(dlsym(RTLD_NEXT, "pthread_self")); return f(); }
    return pthread_t(cur + 1);
}
int sched_yield()
{
    if (!live()) return int(::syscall(SYS_sched_yield));
    guard_in g; log("yield", nullptr); reschedule(true); return 0;
}
int nanosleep(const timespec* a, timespec* b)
{
    if (!live()) return real<int (*)(const timespec*, timespec*)>("nanosleep")(a, b);
    guard_in g; do_sleep(to_ns(a)); return 0;
}
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b)
{
    if (!live()) return real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep")(k, fl, a, b);
    guard_in g; auto n = to_ns(a); do_sleep(fl & TIMER_ABSTIME ? (n > vtime ? n - vtime : 0) : n); return 0;
}
int usleep(useconds_t u)
{
    if (!live()) return real<int (*)(useconds_t)>("usleep")(u);
    guard_in g; do_sleep(std::uint64_t(u) * 1000); return 0;
}
int clock_gettime(clockid_t k, timespec* ts)
{
    if (!live()) return int(::syscall(SYS_clock_gettime, k, ts));
    vtime += 1000;
    ts->tv_sec = time_t(vtime / 1000000000ULL); ts->tv_nsec = long(vtime % 1000000000ULL);
    return 0;
}
int get_nprocs() { if (on) return int(cfg.nprocs); long n = 1; cpu_set_t s; if (!sched_getaffinity(0, sizeof s, &s)) n = CPU_COUNT(&s); return int(n); }

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    long r;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = int(-r); return -1; }
    return r;
}
long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n);
    long a[6]; for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (live() && n == SYS_futex) {
        guard_in g;
        int op = int(a[1]) & FUTEX_CMD_MASK;
        auto* w = reinterpret_cast<int*>(a[0]);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point("futex_wait", w);
            if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != int(a[2])) { errno = EAGAIN; return -1; }
            auto& t = T[cur];
            t.state = st::futex; t.obj = w; t.order = ++arrival; t.timed_out = false; t.timed = a[3] != 0;
            if (t.timed) { auto ns = to_ns(reinterpret_cast<timespec*>(a[3])); t.deadline = op == FUTEX_WAIT ? vtime + ns : ns; }
            reschedule();
            T[cur].state = st::ready; T[cur].timed = false;
            if (T[cur].timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_point("futex_wake", w);
            std::vector<int> ws;
            for (int i = 0; i < nthreads; ++i) if (T[i].state == st::futex && T[i].obj == w) ws.push_back(i);
            std::sort(ws.begin(), ws.end(), [](int x, int y) { return T[x].order < T[y].order; });
            long cnt = 0;
            while (!ws.empty() && cnt < a[2]) {
                int k = (a[2] < long(ws.size()) && ws.size() > 1) ? C->choose(int(ws.size())) : 0;
                T[ws[std::size_t(k)]].state = st::ready; ws.erase(ws.begin() + k); ++cnt;
            }
            return cnt;
        }
    }
    return raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// thread_local destructors belong to the fibre
int __cxa_thread_atexit(void (*f)(void*), void* p, void* dso)
{
    if (on && cur != 0) { guard_in g; T[cur].dtors.push_back({f, p}); return 0; }
    return real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit")(f, p, dso);
}

// function-local statics
int __cxa_guard_acquire(long long* gp)
{
    auto* b = reinterpret_cast<unsigned char*>(gp);
    if (b[0]) { if (on) { guard_in g; auto it = atoms->find(reinterpret_cast<std::uintptr_t>(gp)); if (it != atoms->end()) acquire_from(it->second.vc); } return 0; }
    if (!on) { b[1] = 1; return 1; }
    guard_in g;
    while (b[1]) { T[cur].state = st::guard; T[cur].obj = gp; reschedule(); T[cur].state = st::ready; if (b[0]) { auto it = atoms->find(reinterpret_cast<std::uintptr_t>(gp)); if (it != atoms->end()) acquire_from(it->second.vc); return 0; } }
    b[1] = 1;
    return 1;
}
static void guard_wake(void* gp) { for (int i = 0; i < nthreads; ++i) if (T[i].state == st::guard && T[i].obj == gp) T[i].state = st::ready; }
void __cxa_guard_release(long long* gp)
{
    auto* b = reinterpret_cast<unsigned char*>(gp);
    b[1] = 0; b[0] = 1;
    if (on) { guard_in g; release_into((*atoms)[reinterpret_cast<std::uintptr_t>(gp)].vc); guard_wake(gp); }
}
void __cxa_guard_abort(long long* gp)
{
    reinterpret_cast<unsigned char*>(gp)[1] = 0;
    if (on) { guard_in g; guard_wake(gp); }
}

int pthread_once(pthread_once_t* o, void (*f)())
{
    if (!use_exe(RA)) return real<int (*)(pthread_once_t*, void (*)())>("pthread_once")(o, f);
    guard_in g;
    auto a = reinterpret_cast<std::uintptr_t>(o);
    sync_point("once", o);
    while (*o == 1) { T[cur].state = st::guard; T[cur].obj = o; reschedule(); T[cur].state = st::ready; }
    if (*o == 2) { auto it = atoms->find(a); if (it != atoms->end()) acquire_from(it->second.vc); return 0; }
    *o = 1;
    int ins = inside;
    inside = 0;
    try { f(); } catch (...) { inside = ins; *o = 0; guard_wake(o); throw; }
    inside = ins;
    *o = 2;
    release_into((*atoms)[a].vc);
    guard_wake(o);
    return 0;
}

void free(void* p) { my_free(p); }

// ---------------------------------------------------------------- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* p) { access(std::uintptr_t(p), n, false, RA); } \
    void __tsan_write##n(void* p) { access(std::uintptr_t(p), n, true, RA); } \
    void __tsan_unaligned_read##n(void* p) { access(std::uintptr_t(p), n, false, RA); } \
    void __tsan_unaligned_write##n(void* p) { access(std::uintptr_t(p), n, true, RA); } \
    void __tsan_volatile_read##n(void* p) { access(std::uintptr_t(p), n, false, RA); } \
    void __tsan_volatile_write##n(void* p) { access(std::uintptr_t(p), n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, std::size_t n) { access(std::uintptr_t(p), n, false, RA); }
void __tsan_write_range(void* p, std::size_t n) { access(std::uintptr_t(p), n, true, RA); }
void* vp_memcpy(void* d, const void* s, std::size_t n) { access(std::uintptr_t(s), n, false, RA); access(std::uintptr_t(d), n, true, RA); return std::memcpy(d, s, n); }
void* vp_memmove(void* d, const void* s, std::size_t n) { access(std::uintptr_t(s), n, false, RA); access(std::uintptr_t(d), n, true, RA); return std::memmove(d, s, n); }
void* vp_memset(void* d, int v, std::size_t n) { access(std::uintptr_t(d), n, true, RA); return std::memset(d, v, n); }
int vp_memcmp(const void* a, const void* b, std::size_t n) { access(std::uintptr_t(a), n, false, RA); access(std::uintptr_t(b), n, false, RA); return std::memcmp(a, b, n); }
void __tsan_vptr_update(void** p, void*) { access(std::uintptr_t(p), 8, true, RA); }
void __tsan_vptr_read(void** p) { access(std::uintptr_t(p), 8, false, RA); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void freed_check(const volatile void* p, void* pc)
{
    if (!cfg.races) return;
    cell* c = find_cell(std::uintptr_t(p) >> 3, false);
    if (c && c->freed) bad("use-after-free", "atomic operation on freed memory in " + sym(pc));
}
static void hb_load(const volatile void* p, int mo) { if (!acq(mo)) return; auto it = atoms->find(std::uintptr_t(p)); if (it != atoms->end()) acquire_from(it->second.vc); }
static void hb_store(const volatile void* p, int mo)
{
    if (rel(mo)) release_set((*atoms)[std::uintptr_t(p)].vc);
    else { auto it = atoms->find(std::uintptr_t(p)); if (it != atoms->end()) it->second.vc.clear(); }
}
static void hb_rmw(const volatile void* p, int mo)
{
    if (!acq(mo) && !rel(mo)) return;
    auto& v = (*atoms)[std::uintptr_t(p)].vc;
    if (acq(mo)) acquire_from(v);
    if (rel(mo)) release_into(v);
}
#define LIVE_PRE(name) bool lv = live(); if (lv) { ++inside; freed_check(p, RA); sync_point(name, const_cast<void*>(static_cast<const volatile void*>(p))); freed_check(p, RA); }
#define LIVE_PRE_CTR(bits, name) bool lv = live(); if (lv) { ++inside; freed_check(p, RA); if (bits == 64) sync_point(name, const_cast<void*>(static_cast<const volatile void*>(p))); }
#define LIVE_POST if (lv) --inside;
#define ATOM(bits, T_) \
    T_ __tsan_atomic##bits##_load(const volatile T_* p, int mo) { LIVE_PRE("load") T_ r = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (lv) hb_load(p, mo); LIVE_POST return r; } \
    void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int mo) { LIVE_PRE("store") __atomic_store_n(p, v, __ATOMIC_SEQ_CST); if (lv) hb_store(p, mo); LIVE_POST } \
    T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int mo) { LIVE_PRE("exchange") T_ r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    T_ __tsan_atomic##bits##_fetch_add(volatile T_* p, T_ v, int mo) { LIVE_PRE_CTR(bits, "fetch_add") T_ r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    T_ __tsan_atomic##bits##_fetch_sub(volatile T_* p, T_ v, int mo) { LIVE_PRE_CTR(bits, "fetch_sub") T_ r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    T_ __tsan_atomic##bits##_fetch_and(volatile T_* p, T_ v, int mo) { LIVE_PRE("fetch_and") T_ r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    T_ __tsan_atomic##bits##_fetch_or(volatile T_* p, T_ v, int mo) { LIVE_PRE("fetch_or") T_ r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    T_ __tsan_atomic##bits##_fetch_xor(volatile T_* p, T_ v, int mo) { LIVE_PRE("fetch_xor") T_ r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    T_ __tsan_atomic##bits##_fetch_nand(volatile T_* p, T_ v, int mo) { LIVE_PRE("fetch_nand") T_ r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); if (lv) hb_rmw(p, mo); LIVE_POST return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* p, T_* e, T_ v, int mo, int fmo) { LIVE_PRE("cas") bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (lv) { if (ok) hb_rmw(p, mo); else hb_load(p, fmo); } LIVE_POST return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* p, T_* e, T_ v, int mo, int fmo) { LIVE_PRE("cas") bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (lv) { if (ok) hb_rmw(p, mo); else hb_load(p, fmo); } LIVE_POST return ok; } \
    T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_* p, T_ e, T_ v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOM(8, std::uint8_t) ATOM(16, std::uint16_t) ATOM(32, std::uint32_t) ATOM(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { if (live()) { guard_in g; acquire_from(fence_vc); release_into(fence_vc); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

void operator delete(void* p) noexcept { my_free(p); }
void operator delete[](void* p) noexcept { my_free(p); }
void operator delete(void* p, std::size_t) noexcept { my_free(p); }
void operator delete[](void* p, std::size_t) noexcept { my_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { my_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { my_free(p); }
