#include "vp.hpp"
#include <atomic>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <cerrno>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {
namespace {

constexpr std::size_t max_choices = 60000;
constexpr std::size_t max_counters = 24;
constexpr std::size_t table_size = std::size_t{1} << 23;   // entries per table
constexpr std::size_t max_tasks = 1 << 15;

struct choice { std::uint16_t c, n; std::uint8_t cost; };

struct worker_shared {
    std::atomic<std::uint64_t> tick;
    std::atomic<std::uint64_t> runs, trans, nontriv;
    std::atomic<std::uint32_t> n;
    choice ch[max_choices];
    char desc[16384];
    char risk[256];
    char key[256];
    char msg[8192];
    std::uint32_t failed;
    std::uint32_t stop_reason;   // 1 tasks exhausted, 2 time, 3 cap
    std::int64_t task;           // current task
    std::uint32_t in_run;
};
struct counter { char name[64]; std::atomic<std::uint64_t> v; };
struct part_shared {
    std::atomic<std::uint64_t> states, outcomes, distinct, table_full;
    std::atomic<std::uint32_t> next_task;
    std::atomic<std::uint32_t> stop;
    std::uint32_t n_tasks;
    std::uint32_t task_off[max_tasks + 1];
    counter counters[max_counters];
    std::atomic<std::uint32_t> lock;
    std::atomic<std::uint32_t> n_samples;
    char samples[8][2048];
    std::atomic<std::uint64_t> st[table_size];
    std::atomic<std::uint64_t> oc[table_size / 8];
};

template <class T> T* shmap(std::size_t n = sizeof(T))
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<T*>(p);
}

struct globals {
    std::string prop, tier = "quick", out, known_file, replay_dir, replay_file, only_part;
    std::string scratch_dir;
    std::set<std::string> known;
    bool is_thorough = false;
    int jobs = 8;
    std::string tool_cmd;
} G;

struct violation { std::string part, key, msg, desc; std::vector<int> choices; bool known; };
struct part_result {
    std::string name, rule;
    int bound;
    bool exhaustive;
    std::uint64_t runs, trans, nontriv, states, outcomes, distinct;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::string> samples;
    std::uint64_t unreproduced = 0;
    double wall;
};
std::vector<violation> viols;
std::vector<part_result> parts;
std::vector<std::string> assumptions;
double t0;
constexpr double quick_budget = 360;   // seconds
bool any_replayed = false;

// ---- per-process (worker) state
worker_shared* W = nullptr;
part_shared* P = nullptr;
std::vector<choice> prefix;        // forced choices
int bound_ = -1;
int spent_ = 0;
bool replay_ = false;
int widx_ = 0;
std::vector<int> cur_choices;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool table_insert(std::atomic<std::uint64_t>* t, std::size_t size, std::uint64_t h, std::atomic<std::uint64_t>& cnt)
{
    if (h == 0) h = 1;
    if (cnt.load(std::memory_order_relaxed) > size - size / 8) { P->table_full++; return false; }
    std::size_t i = h & (size - 1);
    for (;;) {
        std::uint64_t v = t[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            if (t[i].compare_exchange_strong(v, h)) { cnt++; return true; }
            if (v == h) return false;
        }
        i = (i + 1) & (size - 1);
    }
}

std::string json(std::string_view s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

void die_fail(const char* key, const char* msg)
{
    snprintf(W->key, sizeof W->key, "%s", key);
    snprintf(W->msg, sizeof W->msg, "%s", msg);
    W->failed = 1;
    fflush(stdout);
    _exit(77);
}

[[noreturn]] void on_terminate()
{
    std::string what = "std::terminate";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const std::exception& x) { what += std::string(" (uncaught exception: ") + x.what() + ")"; }
        catch (...) { what += " (uncaught exception)"; }
    }
    if (W && !W->failed) die_fail("terminate", what.c_str());
    _exit(77);
}

void rm_rf(const std::string& p)
{
    if (p.rfind("/tmp/vp-", 0) != 0 && p.rfind("/dev/shm/vp-", 0) != 0) return;
    struct stat st;
    if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        if (DIR* d = opendir(p.c_str())) {
            while (dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n != "." && n != "..") rm_rf(p + "/" + n);
            }
            closedir(d);
        }
        rmdir(p.c_str());
    } else unlink(p.c_str());
}

void run_once(const std::function<void(ctx&)>& body)
{
    spent_ = 0;
    cur_choices.clear();
    W->n = 0;
    W->desc[0] = W->risk[0] = 0;
    W->failed = 0;
    W->in_run = 1;
    W->tick++;
    ctx c;
    body(c);
    if (W->n < prefix.size()) die_fail("engine:divergence", "a replayed prefix was not consumed: uncontrolled nondeterminism");
    W->in_run = 0;
    W->runs++;
}

/// Advance W->ch (current complete vector, length n) to the next prefix with index >= base; false when done.
bool next_prefix(std::size_t base)
{
    std::size_t n = W->n;
    while (n > base) {
        auto& x = W->ch[n - 1];
        if (x.c + 1 < x.n) {
            prefix.assign(W->ch, W->ch + n);
            prefix.back().c++;
            return true;
        }
        --n;
    }
    return false;
}

std::string read_tail(const std::string& f, std::size_t n)
{
    std::ifstream i(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(i)), {});
    // keep the interesting head of sanitizer output
    auto p = s.find("ERROR:");
    if (p != std::string::npos) return s.substr(p, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}

double cpu_of(pid_t p)
{
    char b[64]; snprintf(b, sizeof b, "/proc/%d/stat", int(p));
    std::ifstream i(b);
    std::string s; std::getline(i, s);
    auto q = s.rfind(')');
    if (q == std::string::npos) return 0;
    std::istringstream is(s.substr(q + 2));
    std::string x; unsigned long long u = 0, k = 0;
    for (int f = 3; f <= 15 && is >> x; ++f) { if (f == 14) u = std::stoull(x); if (f == 15) k = std::stoull(x); }
    return double(u + k) / double(sysconf(_SC_CLK_TCK));
}

/// True when every thread of the process sleeps: nothing in it can run until somebody else acts.
bool asleep(pid_t p)
{
    char b[64]; snprintf(b, sizeof b, "/proc/%d/task", int(p));
    DIR* d = opendir(b);
    if (!d) return false;
    bool all = true;
    while (auto* e = readdir(d)) {
        if (e->d_name[0] == '.') continue;
        std::ifstream i(std::string(b) + "/" + e->d_name + "/stat");
        std::string s; std::getline(i, s);
        auto q = s.rfind(')');
        if (q == std::string::npos || q + 2 >= s.size() || s[q + 2] != 'S') { all = false; break; }
    }
    closedir(d);
    return all;
}

/// Watches one child for the three ways of not returning: it burns CPU without progress, every
/// thread of it is blocked, or (a backstop) a very long time passes.
struct watch {
    std::uint64_t tick = 0; double cpu = 0, wall = 0, sleep_since = 0, sleep_cpu = 0, next = 0;
    void reset(pid_t p, std::uint64_t t) { tick = t; cpu = p > 0 ? cpu_of(p) : 0; wall = now(); sleep_since = 0; next = wall + 0.2; }
    bool hung(pid_t p, std::uint64_t t, double limit)
    {
        if (t != tick) { reset(p, t); return false; }
        double w = now();
        if (w < next) return false;
        next = w + 0.2;
        double c = cpu_of(p);
        if (c - cpu > limit || w - wall > 8 * limit) return true;
        if (!asleep(p)) { sleep_since = 0; return false; }
        if (sleep_since == 0 || c - sleep_cpu > 0.05) { sleep_since = w; sleep_cpu = c; return false; }
        return w - sleep_since > blocked_wall;
    }
    static constexpr double blocked_wall = 12;   // seconds
};

enum class end_kind { ok, failed, crashed, hung };
struct end_info { end_kind k; std::string key, msg, desc; std::vector<choice> ch; };

extern "C" [[gnu::weak]] void __asan_init();

void child_setup(int idx, const std::string& errf)
{
    widx_ = idx;
    int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) { dup2(nul, 1); close(nul); }
    std::set_terminate(on_terminate);
    mkdir(worker_dir().c_str(), 0700);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl = {rlim_t(7) << 29, rlim_t(7) << 29};   // 3.5 GiB: a runaway allocation ends this run, not the sandbox
    if (!__asan_init) setrlimit(RLIMIT_DATA, &rl);   // the sanitizer's shadow memory would count
}

end_info collect(worker_shared* w, int status, bool hung, const std::string& errf)
{
    end_info e;
    e.desc = w->desc;
    e.ch.assign(w->ch, w->ch + std::min<std::size_t>(w->n, max_choices));
    if (hung) { e.k = end_kind::hung; e.key = std::string("hang") + (w->risk[0] ? std::string(":") + w->risk : ""); e.msg = "no progress: the call does not return"; return e; }
    if (w->failed) { e.k = end_kind::failed; e.key = w->key; if (w->risk[0] && e.key == "terminate") e.key = std::string("crash:") + w->risk; e.msg = w->msg; auto t = read_tail(errf, 600); if (!t.empty()) e.msg += " | stderr: " + t; return e; }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { e.k = end_kind::ok; return e; }
    e.k = end_kind::crashed;
    e.key = std::string("crash") + (w->risk[0] ? std::string(":") + w->risk : "");
    e.msg = WIFSIGNALED(status) ? cat("killed by signal ", WTERMSIG(status)) : cat("exited with status ", WEXITSTATUS(status));
    e.msg += " | stderr: " + read_tail(errf, 1500);
    return e;
}

/// Re-run exactly one choice vector in a fresh child.
end_info run_alone(const std::vector<choice>& ch, const std::function<void(ctx&)>& body, int bound, double cpu_limit, bool show)
{
    static int seq = 0;
    auto* w = shmap<worker_shared>();
    std::string errf = G.scratch_dir + "/err.alone." + std::to_string(seq++);
    pid_t pid = fork();
    if (pid == 0) {
        W = w; bound_ = bound; replay_ = true;
        int out = dup(1);
        child_setup(900, errf);
        if (show) dup2(out, 1);
        prefix = ch;
        run_once(body);
        _exit(0);
    }
    int st = 0; bool hung = false;
    watch wd; wd.reset(0, 0);
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (wd.hung(pid, 0, cpu_limit)) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
        usleep(2000);
    }
    auto e = collect(w, st, hung, errf);
    munmap(w, sizeof *w);
    rm_rf(G.scratch_dir + "/w900");
    unlink(errf.c_str());
    return e;
}

void record(part_result& pr, const end_info& e0, const std::function<void(ctx&)>& body, const options& o)
{
    end_info e = e0;
    bool ok = false;
    for (int i = 0; i < 3 && !ok; ++i) {
        auto r = run_alone(e.ch, body, o.bound, e.k == end_kind::hung ? 2 * o.hang_cpu : std::max(60.0, 2 * o.hang_cpu), false);
        if (r.k != end_kind::ok) { ok = true; e.key = r.key; e.msg = r.msg; if (!r.desc.empty()) e.desc = r.desc; }
    }
    if (!ok) { pr.unreproduced++; std::cout << "WARNING: a failure did not reproduce in isolation: " << e.key << " " << e.msg.substr(0, 300) << " case: " << e.desc << "\n"; return; }
    violation v;
    v.part = pr.name; v.key = e.key; v.msg = e.msg; v.desc = e.desc;
    for (auto& c : e.ch) v.choices.push_back(c.c);
    v.known = G.known.count(v.key) || G.known.count(pr.name + "/" + v.key);
    viols.push_back(std::move(v));
}
} // namespace

std::uint64_t hash(std::string_view s, std::uint64_t h)
{
    for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ULL; h ^= h >> 29; }
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
    return h;
}

std::string quote(std::string_view s)
{
    if (s.size() > 400) return quote(s.substr(0, 200)) + "... (" + std::to_string(s.size()) + " bytes)";
    std::string o = "'";
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f || c == '\'' || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    return o + "'";
}

int ctx::choose(int n) { return choose_cost(n, 0); }

int ctx::choose_cost(int n, int cost)
{
    std::size_t i = W->n;
    if (n < 1) die_fail("engine:choose", "choose(0)");
    if (i >= max_choices) die_fail("engine:depth", "too many choices in one run");
    int allowed = (bound_ >= 0 && cost > 0 && spent_ + cost > bound_) ? 1 : n;
    int c = 0;
    if (i < prefix.size()) {
        c = prefix[i].c;
        if (c >= n) die_fail("engine:divergence", "replay diverged: choice out of range");
        if (!replay_ && prefix[i].n && prefix[i].n != allowed) die_fail("engine:divergence", "replay diverged: different number of alternatives");
    }
    if (c != 0) spent_ += cost;
    W->ch[i] = choice{static_cast<std::uint16_t>(c), static_cast<std::uint16_t>(allowed), static_cast<std::uint8_t>(cost)};
    W->n = static_cast<std::uint32_t>(i + 1);
    W->tick.store(W->tick.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
    cur_choices.push_back(c);
    return c;
}
void ctx::describe(const std::string& s) { snprintf(W->desc, sizeof W->desc, "%s", s.c_str()); }
void ctx::append(const std::string& s)
{
    auto n = strlen(W->desc);
    if (n + 1 < sizeof W->desc) snprintf(W->desc + n, sizeof W->desc - n, "%s", s.c_str());
}
void ctx::risk(const char* key) { snprintf(W->risk, sizeof W->risk, "%s", key ? key : ""); }
void ctx::fail(const std::string& key, const std::string& msg) { die_fail(key.c_str(), msg.c_str()); __builtin_unreachable(); }
void ctx::nontrivial()
{
    W->nontriv++;
    if (P) {
        std::uint64_t h = 0x1234567;
        for (int c : cur_choices) h = (h ^ std::uint64_t(c + 1)) * 0x9E3779B97F4A7C15ULL, h ^= h >> 31;
        P->distinct++;
        auto k = P->n_samples.load(std::memory_order_relaxed);
        if (k < 8 && W->desc[0]) {
            k = P->n_samples++;
            if (k < 8) snprintf(P->samples[k], sizeof P->samples[k], "%s", W->desc);
        }
    }
}
void ctx::transition(std::uint64_t n) { W->trans += n; }
bool ctx::state(std::uint64_t h) { return P ? table_insert(P->st, table_size, h, P->states) : true; }
bool ctx::state(const std::string& s) { return state(hash(s)); }
void ctx::outcome(std::uint64_t h) { if (P) table_insert(P->oc, table_size / 8, h, P->outcomes); }
void ctx::outcome(const std::string& s) { outcome(hash(s)); }
void ctx::count(const char* name, std::uint64_t n)
{
    if (!P) return;
    for (auto& c : P->counters) {
        if (c.name[0] == 0) {
            while (P->lock.exchange(1)) {}
            if (c.name[0] == 0) snprintf(c.name, sizeof c.name, "%s", name);
            P->lock = 0;
        }
        if (strcmp(c.name, name) == 0) { c.v += n; return; }
    }
}
void ctx::tick() { W->tick++; }
bool ctx::replaying() const { return replay_; }
bool ctx::thorough() const { return G.is_thorough; }
const std::vector<int>& ctx::choices() const { return cur_choices; }

bool thorough() { return G.is_thorough; }
std::string scratch() { return G.scratch_dir; }
std::string worker_dir() { return G.scratch_dir + "/w" + std::to_string(widx_); }
void assume(const std::string& s) { assumptions.push_back(s); }

void init(int argc, char** argv)
{
    t0 = now();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--prop") G.prop = v;
        else if (a == "--tier") G.tier = v;
        else if (a == "--out") G.out = v;
        else if (a == "--known") G.known_file = v;
        else if (a == "--replays") G.replay_dir = v;
        else if (a == "--replay") G.replay_file = v;
        else if (a == "--part") G.only_part = v;
    }
    G.is_thorough = G.tier == "thorough";
    if (const char* j = getenv("VP_JOBS")) G.jobs = std::max(1, atoi(j));
    else { long n = sysconf(_SC_NPROCESSORS_ONLN); G.jobs = int(std::max(1L, std::min(8L, n))); }
    std::ifstream k(G.known_file);
    std::string l;
    while (std::getline(k, l)) if (!l.empty()) G.known.insert(l);
    char d[] = "/dev/shm/vp-XXXXXX", d2[] = "/tmp/vp-XXXXXX";
    if (const char* p = mkdtemp(d)) G.scratch_dir = p;
    else if (const char* q = mkdtemp(d2)) G.scratch_dir = q;
    else { perror("mkdtemp"); exit(2); }
}

static std::string name_prefix_;
static std::function<bool(const std::string&)> name_filter_;
void name_prefix(const std::string& p, std::function<bool(const std::string&)> keep) { name_prefix_ = p; name_filter_ = std::move(keep); }
void part(const std::string& own_name, const std::string& rule, options o, const std::function<void(ctx&)>& body)
{
    const std::string name = name_prefix_ + own_name;
    if (name_filter_ && !name_filter_(own_name)) return;
    if (!G.only_part.empty() && G.only_part != name) return;
    if (!G.replay_file.empty()) {
        // format: line 1 part, line 2 bound, line 3 choices
        std::ifstream f(G.replay_file);
        std::string l; std::string pn; std::vector<choice> ch;
        while (std::getline(f, l)) {
            if (l.rfind("part=", 0) == 0) pn = l.substr(5);
            if (l.rfind("choices=", 0) == 0) { std::istringstream is(l.substr(8)); int x; while (is >> x) ch.push_back({std::uint16_t(x), 0, 0}); }
        }
        if (pn != name) return;
        any_replayed = true;
        auto e = run_alone(ch, body, -1, 120, true);
        std::cout << "replay of " << G.replay_file << ": " << (e.k == end_kind::ok ? "no violation" : "VIOLATION " + e.key + ": " + e.msg) << "\n  case: " << e.desc << std::endl;
        if (e.k != end_kind::ok) viols.push_back({name, e.key, e.msg, e.desc, {}, false});
        return;
    }
    double start = now();
    if (!G.is_thorough && start - t0 > 200 && std::any_of(viols.begin(), viols.end(), [](auto& v) { return !v.known; })) {
        std::cout << "part " << name << ": left out, a violation is already established\n";
        return;
    }
    part_result pr;
    pr.name = name; pr.rule = rule; pr.bound = o.bound; pr.exhaustive = true;
    int jobs = o.jobs ? o.jobs : G.jobs;
    auto* P_ = shmap<part_shared>();
    P = P_;
    bound_ = o.bound;
    std::vector<worker_shared*> ws;
    for (int i = 0; i <= jobs; ++i) ws.push_back(shmap<worker_shared>());

    // ---- phase 1: expand prefixes breadth first, in a forked seeder
    struct task { std::vector<choice> p; };
    std::deque<task> queue{task{}};
    std::vector<task> tasks;
    std::size_t target = std::size_t(jobs) * 96;
    auto new_unknown = [&] { std::size_t n = 0; for (auto& v : viols) n += !v.known; return n; };
    std::size_t viol_limit = new_unknown() + 3;
    bool stop_early = false;
    // The seeder is a child that expands and streams the resulting queue back through a pipe.
    // To stay crash tolerant, it runs one expansion at a time, reporting each finished vector.
    {
        bool finished = false;
        while (!finished && !queue.empty() && queue.size() < target && !stop_early) {
            int fd[2];
            if (pipe(fd)) { perror("pipe"); exit(2); }
            std::string errf = G.scratch_dir + "/err.seed";
            std::deque<task> q = queue;
            auto* w = ws[jobs];
            w->failed = 0; w->in_run = 0;
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]);
                W = w;
                child_setup(jobs, errf);
                auto wr = [&](const void* p, std::size_t n) { const char* c = static_cast<const char*>(p); while (n) { auto k = write(fd[1], c, n); if (k <= 0) _exit(3); c += k; n -= std::size_t(k); } };
                double s = now();
                while (!q.empty() && q.size() < target && now() - s < 20) {
                    prefix = q.front().p;
                    std::size_t base = prefix.size();
                    run_once(body);
                    q.pop_front();
                    std::uint32_t n = W->n;
                    std::uint32_t b = std::uint32_t(base);
                    wr(&n, 4); wr(&b, 4); wr(W->ch, n * sizeof(choice));
                    for (std::size_t i = base; i < n; ++i)
                        for (int c = 1; c < W->ch[i].n; ++c) {
                            task t; t.p.assign(W->ch, W->ch + i + 1); t.p.back().c = std::uint16_t(c);
                            q.push_back(std::move(t));
                        }
                    if (o.max_runs && W->runs >= o.max_runs) break;
                }
                close(fd[1]);
                _exit(0);
            }
            close(fd[1]);
            // parent: mirror the expansion
            auto rd = [&](void* p, std::size_t n) { char* c = static_cast<char*>(p); while (n) { auto k = read(fd[0], c, n); if (k <= 0) return false; c += k; n -= std::size_t(k); } return true; };
            bool hung = false;
            watch wd; wd.reset(pid, w->tick);
            fcntl(fd[0], F_SETFL, O_NONBLOCK);
            std::string buf; bool eof = false;
            auto drain = [&] {
                char tmp[65536];
                for (;;) { auto k = read(fd[0], tmp, sizeof tmp); if (k > 0) buf.append(tmp, std::size_t(k)); else { if (k == 0) eof = true; break; } }
                std::size_t off = 0;
                while (buf.size() - off >= 8) {
                    std::uint32_t n, b; memcpy(&n, buf.data() + off, 4); memcpy(&b, buf.data() + off + 4, 4);
                    if (buf.size() - off < 8 + n * sizeof(choice)) break;
                    std::vector<choice> ch(n); memcpy(ch.data(), buf.data() + off + 8, n * sizeof(choice));
                    off += 8 + n * sizeof(choice);
                    queue.pop_front();
                    for (std::size_t i = b; i < n; ++i)
                        for (int c = 1; c < ch[i].n; ++c) { task t; t.p.assign(ch.begin(), ch.begin() + long(i) + 1); t.p.back().c = std::uint16_t(c); queue.push_back(std::move(t)); }
                }
                buf.erase(0, off);
            };
            (void)rd;
            int st = 0;
            for (;;) {
                drain();
                pid_t r = waitpid(pid, &st, WNOHANG);
                if (r == pid) { drain(); break; }
                if (wd.hung(pid, w->tick.load(), o.hang_cpu)) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); drain(); break; }
                usleep(1000);
            }
            close(fd[0]);
            auto e = collect(w, st, hung, errf);
            if (e.k == end_kind::ok) {
                finished = true;
            } else {
                // the front task's run failed: record, then expand what it had chosen
                record(pr, e, body, o);
                if (!queue.empty()) {
                    std::size_t b = queue.front().p.size();
                    queue.pop_front();
                    for (std::size_t i = b; i < e.ch.size(); ++i)
                        for (int c = 1; c < e.ch[i].n; ++c) { task t; t.p.assign(e.ch.begin(), e.ch.begin() + long(i) + 1); t.p.back().c = std::uint16_t(c); queue.push_back(std::move(t)); }
                }
                if (new_unknown() >= viol_limit || (e.k == end_kind::hung && new_unknown() > viol_limit - 3)) stop_early = true;
            }
        }
    }
    std::vector<std::vector<choice>> T;
    for (auto& t : queue) T.push_back(std::move(t.p));
    // ---- phase 2: workers take subtrees
    bool capped = false;
    // the whole quick check answers well within its time, whatever the code has become
    double limit = G.is_thorough ? o.time_limit : std::min(o.time_limit, std::max(10.0, 0.5 * (quick_budget - (start - t0))));
    if (!stop_early && !T.empty() && !(o.max_runs && ws[jobs]->runs >= o.max_runs)) {
        P->next_task = 0;
        struct wk { pid_t pid = -1; bool resume = false; std::int64_t task = -1; std::vector<choice> at; watch wd; std::string errf; };
        std::vector<wk> k(static_cast<std::size_t>(jobs));
        auto spawn = [&](int i) {
            auto& x = k[std::size_t(i)];
            auto* w = ws[std::size_t(i)];
            w->failed = 0; w->in_run = 0;
            x.errf = G.scratch_dir + "/err." + std::to_string(i);
            x.pid = fork();
            if (x.pid == 0) {
                W = w;
                child_setup(i, x.errf);
                auto subtree = [&](std::size_t base) {
                    for (;;) {
                        run_once(body);
                        if (P->stop) { W->stop_reason = 2; _exit(0); }
                        if (!next_prefix(base)) return;
                    }
                };
                if (x.resume) {
                    W->task = x.task;
                    // continue after the vector that failed
                    W->n = std::uint32_t(x.at.size());
                    std::copy(x.at.begin(), x.at.end(), W->ch);
                    std::size_t base = T[std::size_t(x.task)].size();
                    if (next_prefix(base)) subtree(base);
                }
                for (;;) {
                    auto t = P->next_task++;
                    if (t >= T.size()) break;
                    W->task = t;
                    prefix = T[t];
                    subtree(T[t].size());
                }
                W->stop_reason = 1;
                _exit(0);
            }
            x.wd.reset(0, w->tick);
        };
        int alive = 0;
        for (int i = 0; i < jobs; ++i) { spawn(i); ++alive; }
        while (alive > 0) {
            if (now() - start > limit && !P->stop) { P->stop = 1; capped = true; }
            if (o.max_runs && !P->stop) { std::uint64_t r = 0; for (auto* w : ws) r += w->runs; if (r >= o.max_runs) { P->stop = 1; capped = true; } }
            bool moved = false;
            for (int i = 0; i < jobs; ++i) {
                auto& x = k[std::size_t(i)];
                auto* w = ws[std::size_t(i)];
                if (x.pid < 0) continue;
                int st = 0; bool hung = false;
                pid_t r = waitpid(x.pid, &st, WNOHANG);
                if (r == 0) {
                    if (x.wd.hung(x.pid, w->tick.load(), o.hang_cpu)) { hung = true; kill(x.pid, SIGKILL); waitpid(x.pid, &st, 0); }
                    else continue;
                }
                moved = true;
                auto e = collect(w, st, hung, x.errf);
                x.pid = -1; --alive;
                if (e.k == end_kind::ok) continue;
                record(pr, e, body, o);
                if (new_unknown() >= viol_limit || (e.k == end_kind::hung && new_unknown() > viol_limit - 3)) {
                    P->stop = 1; stop_early = true;
                    for (auto& y : k) if (y.pid > 0) { kill(y.pid, SIGKILL); waitpid(y.pid, &st, 0); y.pid = -1; --alive; }
                }
                if (!P->stop) { x.resume = true; x.task = w->task; x.at = e.ch; spawn(i); ++alive; }
            }
            if (!moved) usleep(2000);
        }
    } else if (o.max_runs && ws[jobs]->runs >= o.max_runs && !T.empty()) capped = true;
    pr.exhaustive = !capped && !stop_early && P->table_full == 0 && pr.unreproduced == 0;
    pr.runs = pr.trans = pr.nontriv = 0;
    for (auto* w : ws) { pr.runs += w->runs; pr.trans += w->trans; pr.nontriv += w->nontriv; munmap(w, sizeof *w); }
    pr.states = P->states; pr.outcomes = P->outcomes; pr.distinct = P->distinct;
    for (auto& c : P->counters) if (c.name[0]) pr.counters[c.name] = c.v;
    for (std::uint32_t i = 0; i < std::min<std::uint32_t>(8, P->n_samples); ++i) if (P->samples[i][0]) pr.samples.push_back(P->samples[i]);
    munmap(P_, sizeof *P_);
    P = nullptr;
    pr.wall = now() - start;
    std::cout << "part " << name << ": runs=" << pr.runs << " nontrivial=" << pr.nontriv << " states=" << pr.states << " transitions=" << pr.trans
              << " outcomes=" << pr.outcomes << " bound=" << pr.bound << " exhaustive=" << pr.exhaustive << " wall=" << pr.wall << "s\n" << std::flush;
    parts.push_back(std::move(pr));
}

int finish()
{
    if (!G.replay_file.empty()) {
        rm_rf(G.scratch_dir);
        if (!any_replayed) { std::cout << "replay file names no part of this harness\n"; return 2; }
        return viols.empty() ? 0 : 1;
    }
    std::ofstream o(G.out);
    o << "{\n \"parts\": [";
    bool first = true;
    for (auto& p : parts) {
        o << (first ? "\n" : ",\n") << "  {\"name\": " << json(p.name) << ", \"rule\": " << json(p.rule) << ", \"deviation_bound\": " << p.bound
          << ", \"exhaustive\": " << (p.exhaustive ? "true" : "false") << ", \"runs\": " << p.runs << ", \"nontrivial\": " << p.nontriv
          << ", \"states\": " << p.states << ", \"transitions\": " << p.trans << ", \"outcomes\": " << p.outcomes
          << ", \"unreproduced\": " << p.unreproduced << ", \"wall_s\": " << p.wall << ", \"counters\": {";
        bool f2 = true;
        for (auto& [k, v] : p.counters) { o << (f2 ? "" : ", ") << json(k) << ": " << v; f2 = false; }
        o << "}, \"samples\": [";
        f2 = true;
        for (auto& s : p.samples) { o << (f2 ? "" : ", ") << json(s); f2 = false; }
        o << "]}";
        first = false;
    }
    o << "\n ],\n \"assumptions\": [";
    first = true;
    for (auto& a : assumptions) { o << (first ? "" : ", ") << json(a); first = false; }
    o << "],\n \"violations\": [";
    first = true;
    int i = 0;
    for (auto& v : viols) {
        std::string rf = G.replay_dir + "/" + G.prop + "-" + std::to_string(i++) + ".replay";
        std::ofstream r(rf);
        r << "property=" << G.prop << "\npart=" << v.part << "\nkey=" << v.key << "\ncase=" << v.desc << "\nchoices=";
        for (int c : v.choices) r << c << ' ';
        r << "\nmessage=" << v.msg << "\n";
        o << (first ? "\n" : ",\n") << "  {\"part\": " << json(v.part) << ", \"key\": " << json(v.key) << ", \"msg\": " << json(v.msg) << ", \"case\": " << json(v.desc)
          << ", \"known\": " << (v.known ? "true" : "false") << ", \"replay\": " << json(rf) << "}";
        first = false;
    }
    o << "\n ],\n \"wall_s\": " << (now() - t0) << "\n}\n";
    o.close();
    rm_rf(G.scratch_dir);
    for (auto& v : viols) if (!v.known) return 1;
    return 0;
}
} // namespace vp

extern "C" void vp_contract_violation(const char* kind, const char* expr, const char* file, int line)
{
    if (vp::W && !vp::W->failed) {
        char b[1024];
        const char* f = strstr(file, "dottorrent");
        snprintf(b, sizeof b, "contract %s(%s) violated at %s:%d: the process terminates", kind, expr, f ? f : file, line);
        vp::die_fail("terminate", b);
    }
}
