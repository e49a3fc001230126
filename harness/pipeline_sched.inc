// ---------------------------------------------------------------- C05..C08: the pipeline under schedules
static sched::config explored() { sched::config k; k.delay_bounded = true; k.max_steps = 400000; return k; }
struct scenario { const char* name; std::vector<size_t> sizes; dt::protocol pr; int threads; int checks; size_t P, io; };
static std::vector<item> files_of(const scenario& s) { std::vector<item> v; for (size_t i = 0; i < s.sizes.size(); ++i) v.push_back(regular(int(i), s.sizes[i])); return v; }
static dt::storage_hasher_options hopt(const scenario& s)
{
    dt::storage_hasher_options o{.protocol_version = s.pr, .min_io_block_size = s.io, .max_memory = 1, .threads = size_t(s.threads)};
    for (int i = 0; i < s.checks; ++i) o.checksums.insert(functions()[size_t(1 + i)].first);
    return o;
}
static std::vector<int> fns_of(const scenario& s) { std::vector<int> r; for (int i = 0; i < s.checks; ++i) r.push_back(1 + i); return r; }
static const std::vector<scenario>& scenarios()
{
    using dt::protocol;
    static const std::vector<scenario> S = {
        {"v1, 2 threads, more chunks than the queue holds", {5 * B + 1, 2 * B}, protocol::v1, 2, 0, B, B},
        {"v1 with 2 checksums", {2 * B + 1, 0, B}, protocol::v1, 1, 2, B, B},
        {"v2, 2 threads", {5 * B + 1, 2 * B}, protocol::v2, 2, 0, B, B},
        {"v2 with a checksum", {2 * B + 1, 0, B}, protocol::v2, 2, 1, B, B},
        {"hybrid, 2 threads", {3 * B + 1, B + 5}, protocol::hybrid, 2, 0, 2 * B, 2 * B},
        {"hybrid with a checksum", {B + 1, 0, B + 5}, protocol::hybrid, 1, 1, B, B},
        {"hybrid, 2 threads, two files to pad", {B + 1, 5, B + 9}, protocol::hybrid, 2, 0, B, B},
        {"v1, 3 threads", {6 * B}, protocol::v1, 3, 0, B, 2 * B},
    };
    return S;
}
static string show(const scenario& s) { return s.name; }

static void hasher_schedules(const std::function<bool(const scenario&)>& chosen = [](const scenario&) { return true; })
{
    int nb = vp::thorough() ? 2 : 1;
    for (size_t k = 0; k < scenarios().size(); ++k) {
        auto& s = scenarios()[k]; if (!chosen(s)) continue;
        vp::part(cat("hash-", k), cat(s.name, ": every schedule up to the deviation bound"), {.bound = nb, .time_limit = vp::thorough() ? 1800. : 240.}, [&s](ctx& c) {
            auto v = files_of(s); auto st = make(v, s.P);
            c.describe(cat("hashing files ", show(v), ": ", s.name));
            sched::run(c, explored(), [&] { dt::storage_hasher h(st, hopt(s)); h.start(); h.wait(); });
            judge(c, st, v, s.P, s.pr);
            auto w = s.pr == dt::protocol::hybrid ? aligned(v, s.P) : v;
            judge_checksums(c, st, w, fns_of(s));
            c.nontrivial(); c.outcome(s.name);
        });
    }
}
static void verifier_schedules(const std::function<bool(dt::protocol)>& chosen = [](dt::protocol) { return true; })
{
    int nb = vp::thorough() ? 2 : 1;
    struct vs { const char* name; std::vector<size_t> sizes; std::vector<int> damage; dt::protocol pr; int threads; };
    using dt::protocol;
    static const std::vector<vs> S = {
        {"v1, intact and altered files", {4 * B + 1, 2 * B}, {0, 3}, protocol::v1, 2},
        {"v1, a missing file between", {B + 5, 7 * B, B}, {0, 1, 0}, protocol::v1, 2},
        {"v2, intact and altered files", {4 * B + 1, 2 * B}, {4, 0}, protocol::v2, 2},
        {"v2, a missing and a truncated file", {B + 5, 3 * B, 2 * B}, {0, 1, 5}, protocol::v2, 2},
        {"hybrid", {B + 5, 3 * B}, {0, 2}, protocol::hybrid, 2},
    };
    for (size_t k = 0; k < S.size(); ++k) {
        auto& s = S[k]; if (!chosen(s.pr)) continue;
        vp::part(cat("verify-", k), cat(s.name, ": every schedule up to the deviation bound"), {.bound = nb, .time_limit = vp::thorough() ? 1800. : 240.}, [&s](ctx& c) {
            std::vector<item> v; for (size_t i = 0; i < s.sizes.size(); ++i) { v.push_back(regular(int(i), s.sizes[i])); alter(c, v.back(), B, s.damage[i]); }
            auto w = s.pr == protocol::hybrid ? aligned(v, B) : v;
            auto st = make(w, B); fill(st, w, B, s.pr);
            c.describe(cat("verifying files ", show(w), " as ", pname(s.pr)));
            verdict r;
            sched::run(c, explored(), [&] {
                dt::storage_verifier h(st, {.protocol_version = s.pr, .min_io_block_size = B, .max_memory = 1, .threads = size_t(s.threads)}); h.start();
                try { h.wait(); } catch (const std::exception&) { r.threw = true; }
                r.map = h.result();
                for (size_t i = 0; i < st.file_count(); ++i) { r.pct.push_back(h.percentage(i)); r.pct_e.push_back(h.percentage(st.at(i))); }
            });
            judge_map(c, r, w, B, s.pr == protocol::v1); judge_pct(c, r, w, B, s.pr == protocol::v1);
            c.nontrivial(); c.outcome(s.name);
        });
    }
}

// ---------------------------------------------------------------- lifecycle
/// A hasher or verifier behind one interface.
struct task {
    std::unique_ptr<dt::storage_hasher> h; std::unique_ptr<dt::storage_verifier> v;
    template <class F> auto use(F&& f) const { return h ? f(*h) : f(*v); }
    void start() { h ? h->start() : v->start(); }
    void cancel() { h ? h->cancel() : v->cancel(); }
    void wait() { h ? h->wait() : v->wait(); }
    bool started() const { return use([](auto& x) { return x.started(); }); }
    bool running() const { return use([](auto& x) { return x.running(); }); }
    bool cancelled() const { return use([](auto& x) { return x.cancelled(); }); }
    bool done() const { return use([](auto& x) { return x.done(); }); }
    size_t read() const { return use([](auto& x) { return x.bytes_read(); }); }
    size_t hashed() const { return use([](auto& x) { return x.bytes_hashed(); }); }
    size_t bdone() const { return use([](auto& x) { return x.bytes_done(); }); }
    dt::file_progress_data progress() const { return use([](auto& x) { return x.current_file_progress(); }); }
    void destroy() { h.reset(); v.reset(); }
};
static task make_task(dt::file_storage& st, const scenario& s, bool verify)
{
    task t;
    if (verify) t.v = std::make_unique<dt::storage_verifier>(st, dt::storage_verifier_options{.protocol_version = s.pr, .min_io_block_size = s.io, .max_memory = 1, .threads = size_t(s.threads)});
    else t.h = std::make_unique<dt::storage_hasher>(st, hopt(s));
    return t;
}
/// After a cancelled run every digest that was stored is the right one.
static void judge_partial(ctx& c, const dt::file_storage& st, const std::vector<item>& w, const scenario& s)
{
    if (s.pr != dt::protocol::v2) {
        auto want = v1_pieces(v1_stream(w, false), s.P);
        for (size_t i = 0; i < st.pieces().size(); ++i) { auto g = bytes(st.pieces()[i]); c.expectf(g == string(20, '\0') || g == want.at(i), "partial-piece", [&] { return cat("piece ", i, " has a wrong hash after the cancellation"); }); }
    }
    if (s.pr != dt::protocol::v1) for (size_t i = 0; i < w.size(); ++i) if (!w[i].pad && w[i].size && st.at(i).has_v2_data()) {
        auto& t = want_tree(w[i], s.P);
        c.expectf(bytes(st.at(i).pieces_root()) == t.root && st.at(i).piece_layer().size() == t.layer.size(), "partial-root", [&] { return cat("file ", i, " has a wrong pieces root after the cancellation"); });
    }
    for (size_t i = 0; i < w.size(); ++i) for (int f : fns_of(s)) if (!w[i].pad) if (auto* k = st.at(i).get_checksum(functions()[size_t(f)].first)) {
        auto val = k->value();
        c.expectf(string(reinterpret_cast<const char*>(val.data()), val.size()) == evp(functions()[size_t(f)].second, w[i].want()), "partial-checksum", [&] { return cat("file ", i, " has a wrong checksum after the cancellation"); });
    }
}
static void lifecycle()
{
    bool th = vp::thorough();
    using dt::protocol;
    vp::part("histories", cat("every sequence of up to ", th ? 5 : 4, " calls of start, cancel, wait and the status and progress queries on a hasher and on a verifier, then destruction; one schedule"), {.bound = 0, .time_limit = 900}, [=](ctx& c) {
        bool verify = c.flag(); auto pr = c.choose(3); size_t layout_no = size_t(c.choose(2));
        scenario s{"", layout_no ? std::vector<size_t>{2 * B + 1, 0, B} : std::vector<size_t>{0}, pr == 0 ? protocol::v1 : pr == 1 ? protocol::v2 : protocol::hybrid, 1, verify ? 0 : 1, B, B};
        auto v = files_of(s); auto w = s.pr == protocol::hybrid ? aligned(v, B) : v;
        auto st = verify ? make(w, B) : make(v, B); if (verify) fill(st, w, B, s.pr);
        string d = cat(verify ? "verifier" : "hasher", " of ", show(v), " as ", pname(s.pr), ":"); 
        std::vector<int> ops; int n = c.choose(th ? 6 : 5); for (int i = 0; i < n; ++i) { ops.push_back(c.choose(4)); static const char* N[] = {" start", " cancel", " wait", " query"}; d += N[ops.back()]; }
        c.describe(d);
        string bad;
        sched::run(c, fixed(), [&] {
            auto t = make_task(st, s, verify);
            bool started = false, cancelled = false, done = false, running = false; size_t read = 0, bdone = 0, hashed = 0;
            auto say = [&](string m) { if (bad.empty()) bad = std::move(m); };
            auto flags = [&](const char* when) {
                if (t.started() != started) say(cat("started() is ", t.started(), " ", when));
                if (t.running() != running) say(cat("running() is ", t.running(), " ", when));
                if (t.cancelled() != cancelled) say(cat("cancelled() is ", t.cancelled(), " ", when));
                if (t.done() != done) say(cat("done() is ", t.done(), " ", when));
            };
            flags("initially");
            for (int o : ops) {
                bool threw = false, want = false; const char* N = "";
                try {
                    if (o == 0) { N = "after start"; want = started || done; t.start(); }
                    else if (o == 1) { N = "after cancel"; want = done; t.cancel(); }
                    else if (o == 2) { N = "after wait"; want = !running; t.wait(); }
                    else {
                        N = "after the queries";
                        if (t.read() < read || t.bdone() < bdone || t.hashed() < hashed) say("a progress counter goes back");
                        read = t.read(); bdone = t.bdone(); hashed = t.hashed();
                        if (!started && (read || bdone || hashed)) say("progress is reported before the start");
                        auto p = t.progress(); if (p.file_index >= st.file_count()) say("current_file_progress() reports no file of the storage");
                        if (t.v && !running) { auto& r = t.v->result(); if (!started) for (auto x : r) if (x) say("a piece is complete before the start"); for (size_t i = 0; i < st.file_count(); ++i) { double q = t.v->percentage(i); if (!(q >= 0 && q <= 100)) say("a percentage out of range"); } }
                    }
                } catch (const std::exception&) { threw = true; }
                if (threw != want) say(cat(threw ? "an exception is thrown " : "no exception is thrown ", N, d));
                if (!threw) {
                    if (o == 0) { started = running = true; }
                    if (o == 1) { cancelled = done = true; running = false; }
                    if (o == 2) { done = true; running = false; }
                }
                flags(N);
            }
            if (running) t.wait();      // destroying a running task is not allowed
            t.destroy();
        });
        c.expect(bad.empty(), "history", bad);
        if (!verify) judge_partial(c, st, s.pr == protocol::hybrid ? aligned(v, B) : v, s);
        c.nontrivial(); c.state(d);
    });
    for (int verify = 0; verify < 2; ++verify)
    for (size_t k = 0; k < scenarios().size(); ++k) {
        auto& s = scenarios()[k];
        if (verify && s.checks) continue;
        vp::part(cat(verify ? "cancel-verify-" : "cancel-hash-", k), cat(s.name, verify ? ", verified" : ", hashed", ": cancelled when any number of blocks was read; every schedule up to the deviation bound"), {.bound = th ? 2 : 1, .time_limit = th ? 1800. : 240.}, [&s, verify](ctx& c) {
            auto v = files_of(s); auto w = s.pr == dt::protocol::hybrid ? aligned(v, s.P) : v;
            auto st = make(verify ? w : v, s.P); if (verify) fill(st, w, s.P, s.pr);
            size_t total = 0; for (auto& i : v) total += i.size;
            size_t at = s.io * size_t(c.choose(int((total + s.io - 1) / s.io + 1))); at = std::min(at, total);
            c.describe(cat(verify ? "verifying " : "hashing ", show(v), ": ", s.name, ", cancelled after ", at, " bytes were read"));
            bool ok = false;
            sched::run(c, explored(), [&] {
                auto t = make_task(st, s, verify);
                t.start();
                while (t.read() < at) std::this_thread::sleep_for(std::chrono::milliseconds(1));
                t.cancel();
                ok = t.cancelled() && t.done() && !t.running();
                t.destroy();
            });
            c.expect(ok, "status", "a cancelled task does not report so");
            if (!verify) judge_partial(c, st, w, s);
            c.nontrivial(); c.outcome(cat(at));
        });
    }
    vp::part("cancel-missing", "verification of a storage with a missing file of more pieces than the queues hold, cancelled at once or after the first blocks; every schedule up to the deviation bound", {.bound = th ? 2 : 1, .time_limit = 600}, [=](ctx& c) {
        auto pr = c.flag() ? protocol::v2 : protocol::v1;
        std::vector<item> v{regular(0, B + 5), regular(1, 12 * B)}; alter(c, v[1], B, 1);
        auto st = make(v, B); fill(st, v, B, pr);
        size_t at = c.flag() ? B : 0; int thr = 1 + c.choose(2);
        c.describe(cat("verifying ", show(v), " as ", pname(pr), ", cancelled after ", at, " bytes were read, ", thr, " thread(s)"));
        sched::run(c, explored(), [&] {
            dt::storage_verifier t(st, {.protocol_version = pr, .min_io_block_size = B, .max_memory = 1, .threads = size_t(thr)});
            t.start(); while (t.bytes_read() < at) std::this_thread::sleep_for(std::chrono::milliseconds(1)); t.cancel();
        });
        c.nontrivial(); c.outcome(cat(at));
    });
    vp::part("read-error", "a file that cannot be read, hashed or verified, waited for or cancelled; every schedule up to the deviation bound", {.bound = th ? 2 : 1, .time_limit = 600}, [=](ctx& c) {
        int prn = c.choose(3); auto pr = prn == 0 ? protocol::v1 : prn == 1 ? protocol::v2 : protocol::hybrid;
        bool verify = c.flag(), cancel = c.flag();
        scenario s{"", {5 * B + 1, 2 * B}, pr, 2, verify ? 0 : 1, B, B};
        auto v = files_of(s); v[1].name = "dirE"; fs::create_directories(data_dir() + "/dirE");
        auto w = pr == protocol::hybrid ? aligned(v, B) : v;
        auto st = make(verify ? w : v, B); if (verify) fill(st, w, B, pr);
        c.describe(cat(verify ? "verifying " : "hashing ", show(v), " as ", pname(pr), ", the last file is a directory, ", cancel ? "cancelled" : "waited for"));
        bool threw = false, done = false;
        sched::run(c, explored(), [&] {
            auto t = make_task(st, s, verify);
            t.start();
            try { if (cancel) t.cancel(); else t.wait(); } catch (const std::exception&) { threw = true; }
            done = t.done();
            t.destroy();
        });
        if (!cancel && !verify) c.expect(threw, "unnoticed", "wait() reports success");
        if (cancel) c.expect(!threw, "cancel-throws", "cancel() fails because a file cannot be read");
        c.expect(done, "status", "done() is false afterwards");
        c.nontrivial(); c.outcome(cat(threw));
    });
}

// ---------------------------------------------------------------- progress
static void progress()
{
    bool th = vp::thorough();
    for (int verify = 0; verify < 2; ++verify)
    for (size_t k = 0; k < scenarios().size(); ++k) {
        auto& s = scenarios()[k];
        if (verify && s.checks) continue;
        vp::part(cat(verify ? "verify-" : "hash-", k), cat(s.name, verify ? ", verified" : ", hashed", ": the controlling thread polls all counters until everything is done; every schedule up to the deviation bound"), {.bound = th ? 2 : 1, .time_limit = th ? 1800. : 240.}, [&s, verify](ctx& c) {
            auto v = files_of(s); auto w = s.pr == dt::protocol::hybrid ? aligned(v, s.P) : v;
            auto st = make(verify ? w : v, s.P); if (verify) fill(st, w, s.P, s.pr);
            size_t all = 0, regular = 0; for (auto& i : w) { all += i.size; if (!i.pad) regular += i.size; }
            size_t total = s.pr == dt::protocol::v1 ? all : regular;
            size_t hashed_total = s.pr == dt::protocol::hybrid && !verify ? (regular + all) / 2 : total;
            c.describe(cat(verify ? "verifying " : "hashing ", show(v), ": ", s.name));
            string bad; size_t polls = 0, last = 0;
            auto say = [&](string m) { if (bad.empty()) bad = std::move(m); };
            sched::run(c, explored(), [&] {
                auto t = make_task(st, s, verify);
                t.start();
                size_t r = 0, h = 0, d = 0, f = 0;
                for (;; ++polls) {
                    size_t r2 = t.read(), h2 = t.hashed(), d2 = t.bdone(); auto p = t.progress();
                    if (r2 < r || h2 < h || d2 < d || p.file_index < f) say("a progress counter goes back");
                    if (r2 > all) say(cat("bytes_read() is ", r2, " of ", all));
                    if (h2 > hashed_total) say(cat("bytes_hashed() is ", h2, " of ", hashed_total));
                    if (d2 > total) say(cat("bytes_done() is ", d2, " of ", total));
                    if (p.file_index >= st.file_count()) say("current_file_progress() reports no file of the storage");
                    else if (p.bytes_hashed > st.at(p.file_index).file_size()) say(cat("current_file_progress() reports ", p.bytes_hashed, " bytes of file ", p.file_index));
                    else {
                        size_t before = 0; for (size_t i = 0; i < p.file_index; ++i) if (s.pr == dt::protocol::v1 || !st.at(i).is_padding_file()) before += st.at(i).file_size();
                        if (before + p.bytes_hashed < d2 || before + p.bytes_hashed > total) say(cat("current_file_progress() is at byte ", before + p.bytes_hashed, ", bytes_done() was ", d2));
                    }
                    r = r2; h = h2; d = d2; f = p.file_index; last = d;
                    if (d >= total) break;
                    if (polls > 400) { say(cat("bytes_done() stays at ", d, " of ", total)); break; }
                    std::this_thread::sleep_for(std::chrono::milliseconds(5));
                }
                t.wait();
                if (t.bdone() != total) say(cat("bytes_done() is ", t.bdone(), " at the end, expected ", total));
                if (t.hashed() != hashed_total) say(cat("bytes_hashed() is ", t.hashed(), " at the end, expected ", hashed_total));
                if (t.read() < regular || t.read() > all) say(cat("bytes_read() is ", t.read(), " at the end"));
                t.destroy();
            });
            (void)last;
            c.expect(bad.empty(), "progress", bad);
            c.nontrivial(); c.outcome(cat(polls));
        });
    }
    vp::part("missing", "storages with missing, truncated or too long files: bytes_done() reaches the total while the verifier runs; every layout of 2 files, one schedule", {.bound = 0, .time_limit = 600}, [=](ctx& c) {
        int prn = c.choose(3); auto pr = prn == 0 ? dt::protocol::v1 : prn == 1 ? dt::protocol::v2 : dt::protocol::hybrid;
        auto v = damaged(c, B, 2, pr == dt::protocol::v1);
        auto w = pr == dt::protocol::hybrid ? aligned(v, B) : v;
        auto st = make(w, B); fill(st, w, B, pr);
        size_t all = 0, regular = 0; for (auto& i : w) { all += i.size; if (!i.pad) regular += i.size; }
        size_t total = pr == dt::protocol::v1 ? all : regular;
        c.describe(cat("verifying ", show(w), " as ", pname(pr)));
        size_t d = 0; int polls = 0; bool over = false;
        sched::run(c, fixed(), [&] {
            dt::storage_verifier t(st, {.protocol_version = pr, .min_io_block_size = B, .max_memory = 1, .threads = 1});
            t.start();
            while ((d = t.bytes_done()) < total && ++polls < 400) std::this_thread::sleep_for(std::chrono::milliseconds(5));
            auto p = t.current_file_progress(); over = p.file_index >= st.file_count() || p.bytes_hashed > st.at(p.file_index).file_size();
            t.wait(); d = t.bytes_done();
        });
        c.expectf(d == total, "progress", [&] { return cat("bytes_done() is ", d, " of ", total); });
        c.expect(polls < 400, "progress", "bytes_done() does not reach the total before wait()");
        c.expect(!over, "progress", "current_file_progress() is past the end of the file");
        c.nontrivial(); c.state(show(w));
    });
}
static bool pipeline_schedules(const string& prop)
{
    if (prop == "hasher-schedules") hasher_schedules();
    else if (prop == "verifier-schedules") verifier_schedules();
    else if (prop == "pipeline-lifecycle") lifecycle();
    else if (prop == "pipeline-progress") progress();
    else return false;
    vp::assume("threads interleave at synchronisation operations (sequential consistency; data races are reported by happens-before analysis); at most the stated number of deviations from the default schedule per execution");
    return true;
}

// ---------------------------------------------------------------- C16: trees shared by threads
static void merkle_schedules()
{
    using tree = dt::merkle_tree<dt::hash_function::sha256>;
    auto val = [](int i) { string x(32, char('a' + i)); return tree::value_type(std::string_view(x)); };
    vp::part("threads", "two or three threads that set leaves, assign trees to each other and ask for counts: all schedules up to the preemption bound", {.bound = vp::thorough() ? 4 : 2, .time_limit = 600}, [val](ctx& c) {
        int k = c.choose(5), n = 2 + c.choose(3);
        static const char* names[] = {"leaves set by two threads while a third asks for counts", "a = b and b = a", "a = b while a leaf of b is set", "a = b while a is asked for its size and root", "a = move(b) while both are asked for their size"};
        c.describe(cat(names[k], ", ", n, " leaves"));
        auto make = [&](int base) { tree t{std::size_t(n)}; for (int i = 0; i < n; ++i) t.set_leaf(std::size_t(i), val(base + i)); t.update(); return t; };
        tree a = make(0), b = make(10); const tree a0 = a, b0 = b;
        auto same = [](const tree& x, const tree& y) { return x.data() == y.data(); };
        sched::config cfg; cfg.max_steps = 100000;
        sched::run(c, cfg, [&] {
            std::vector<std::thread> ts; std::size_t size = a0.node_count();
            auto ask = [&](const tree& t, const char* w) { auto m = t.node_count(); if (m != size) c.fail("threads", cat(w, " reports ", m, " nodes")); };
            if (k == 0) {
                for (int w = 0; w < 2; ++w) ts.emplace_back([&, w] { for (int i = w; i < n; i += 2) a.set_leaf(std::size_t(i), val(10 + i)); });
                ts.emplace_back([&] { ask(a, "a"); if (a.leaf_count() != (size + 1) / 2 || !a.has_root()) c.fail("threads", "counts of a tree whose leaves are being set"); });
            } else if (k == 1) { ts.emplace_back([&] { a = b; }); ts.emplace_back([&] { b = a; }); }
            else if (k == 2) { ts.emplace_back([&] { a = b; }); ts.emplace_back([&] { b.set_leaf(1, val(20)); }); }
            else if (k == 3) { ts.emplace_back([&] { a = b; }); ts.emplace_back([&] { ask(a, "a"); if (!a.has_root()) c.fail("threads", "a has no root"); ask(b, "b"); }); }
            else { ts.emplace_back([&] { a = std::move(b); }); ts.emplace_back([&] { ask(a, "a"); b.node_count(); }); }
            for (auto& t : ts) t.join();
        });
        if (k == 0) { a.update(); c.expect(same(a, b0), "threads", "the leaves set by two threads do not give the tree with those leaves"); }
        if (k == 1) c.expect(same(a, b) && (same(a, a0) || same(a, b0)), "threads", "neither value survives two crossing assignments");
        if (k == 2) { bool before = same(a, b0); auto u = b0; u.set_leaf(1, val(20)); c.expect(same(b, u) && (before || same(a, u)), "threads", "the copy is neither the tree before nor after the change"); }
        if (k == 3 || k == 4) c.expect(same(a, b0), "threads", "the assigned tree differs");
        c.nontrivial(); c.outcome(cat(k, same(a, b0), same(b, a0)));
    });
}
