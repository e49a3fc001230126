// ---------------------------------------------------------------- C43: the multi-buffer hashers
#include "dottorrent/hasher/factory.hpp"
static void multi_buffer_digests()
{
    bool th = vp::thorough();
    struct fn { dt::hash_function f; const char* name; size_t size; };
    static const std::vector<fn> F = {{hash_function::md5, "MD5", 16}, {hash_function::sha1, "SHA1", 20}, {hash_function::sha256, "SHA256", 32}, {hash_function::sha512, "SHA512", 64}};
    auto span = [](string_view s) { return std::span(reinterpret_cast<const std::byte*>(s.data()), s.size()); };
    vp::part("digests", cat("every function, every history of ", th ? 5 : 4, " messages on up to 3 jobs of one hasher, given whole or in two or three parts of boundary lengths, asked for in any order, with resizing and resetting in between; 1, 3 and 16 lanes"), {.bound = 0, .time_limit = 900}, [=](ctx& c) {
        auto& f = c.pick(F); lanes(c);
        int rounds = 2; string d = cat(f.name, ", ", isal_standin::lanes, " lanes:");
        auto h = dt::make_multi_buffer_hasher(f.f);
        c.expect(bool(h), "factory", "no multi-buffer hasher");
        static const std::vector<std::vector<size_t>> M = {{0}, {1}, {64}, {200}, {0, 0}, {1, 63}, {64, 65}, {127, 1, 200}, {64, 0, 0}};
        static const std::vector<std::vector<size_t>> few = {{0}, {200}, {1, 63}, {127, 1, 200}};
        std::vector<std::pair<string, string>> out;          // digest and message
        for (int r = 0; r < rounds; ++r) {
            int n = 1 + c.choose(r ? 2 : 3); bool indexed = c.flag();
            if (r) { int how = c.choose(3); if (how == 1) { h->reset(); d += " reset"; c.expect(h->job_count() == 0, "job-count", "jobs are left after reset()"); } else if (how == 2) { h->resize(0); d += " resize 0"; } }
            size_t first = 0;
            if (indexed) { h->resize(size_t(n)); d += cat(" resize ", n); c.expectf(h->job_count() == size_t(n), "job-count", [&] { return cat("job_count() is ", h->job_count(), " after resize(", n, ")"); }); } else first = h->job_count();
            auto msg = std::vector<string>(size_t(n)); std::vector<const std::vector<size_t>*> parts; std::vector<size_t> id;
            for (int j = 0; j < n; ++j) { parts.push_back(&c.pick(j == 0 && r == 0 ? M : few)); for (size_t z : *parts.back()) msg[size_t(j)] += content(j).substr(msg[size_t(j)].size() + 1000 * size_t(r), z); d += cat(" [", msg[size_t(j)].size(), " in ", parts.back()->size(), "]"); }
            c.describe(d);
            auto at = std::vector<size_t>(size_t(n));
            auto take = [&](int j, size_t k) { auto z = (*parts[size_t(j)])[k]; auto s = string_view(msg[size_t(j)]).substr(at[size_t(j)], z); at[size_t(j)] += z; return s; };
            // round robin over the jobs, so that parts of different messages alternate
            for (size_t k = 0; k < 3; ++k) for (int j = 0; j < n; ++j) {
                if (k >= parts[size_t(j)]->size()) continue;
                bool last = k + 1 == parts[size_t(j)]->size(); auto s = take(j, k); bool text = j == 1;
                if (k == 0 && last) { if (indexed) { text ? h->submit(size_t(j), s) : h->submit(size_t(j), span(s)); id.push_back(size_t(j)); } else id.push_back(text ? h->submit(s) : h->submit(span(s))); }
                else if (k == 0) { if (indexed) { h->submit_first(size_t(j), span(s)); id.push_back(size_t(j)); } else id.push_back(text ? h->submit_first(s) : h->submit_first(span(s))); }
                else if (last) text ? h->submit_last(id[size_t(j)], s) : h->submit_last(id[size_t(j)], span(s));
                else text ? h->submit_update(id[size_t(j)], s) : h->submit_update(id[size_t(j)], span(s));
            }
            if (!indexed) for (int j = 0; j < n; ++j) c.expectf(id[size_t(j)] == first + size_t(j), "job-id", [&] { return cat("job ", j, " has the number ", id[size_t(j)]); });
            bool back = n > 1 && c.flag();
            for (int q = 0; q < n; ++q) {
                int j = back ? n - 1 - q : q;
                string buf(f.size + 8, '\x5c');
                h->finalize_to(id[size_t(j)], std::span(reinterpret_cast<std::byte*>(buf.data()), f.size));
                c.expectf(buf.substr(f.size) == string(8, '\x5c'), "overrun", [&] { return string("bytes after the digest were written"); });
                auto want = evp(f.name, msg[size_t(j)]);
                c.expectf(buf.substr(0, f.size) == want, "digest", [&] { return cat("digest of job ", j, " is ", hex(buf.substr(0, f.size)), ", expected ", hex(want)); });
            }
        }
        c.nontrivial(); c.state(d);
    });
    vp::part("unsupported", "every hash function: a multi-buffer hasher or an exception", {.bound = 0, .time_limit = 60}, [=](ctx& c) {
        int v = c.choose(40); auto f = dt::hash_function(v); bool known = false; for (auto& x : F) known |= x.f == f;
        c.describe(cat("hash function ", v));
        bool threw = false; try { dt::make_multi_buffer_hasher(f); } catch (const std::invalid_argument&) { threw = true; }
        c.expect(threw != known, "unsupported", threw ? "a supported function is refused" : "an unsupported function is accepted");
        c.expect((dt::isal_multi_buffer_hasher::supported_algorithms().count(f) != 0) == known, "supported", "the list of supported functions differs");
        c.nontrivial(); c.state(v);
    });
    vp::part("merkle", cat("every leaf count up to ", th ? 130 : 40, ", built by the tree's own update and by one with a given hasher that is reused"), {.bound = 0, .time_limit = 300}, [=](ctx& c) {
        size_t n = 1 + size_t(c.choose(th ? 130 : 40)); lanes(c); bool given = c.flag();
        c.describe(cat("a tree of ", n, " leaves, ", isal_standin::lanes, " lanes"));
        std::vector<string> l; for (size_t i = 0; i < n; ++i) l.push_back(sha256(cat(i)));
        auto h = dt::make_multi_buffer_hasher(hash_function::sha256);
        for (int round = 0; round < 2; ++round) {
            dt::merkle_tree<hash_function::sha256> t{n};
            for (size_t i = 0; i < n; ++i) t.set_leaf(i, h2(l[i]));
            if (given) t.update(*h); else t.update();
            size_t m = 1; while (m < n) m *= 2;
            auto x = l; x.resize(m, string(32, '\0')); size_t layer = t.tree_height();
            for (;; --layer) {
                for (size_t i = 0; i < x.size(); ++i) c.expectf(bytes(t.get_node(layer, i)) == x[i], "node", [&] { return cat("node ", i, " of layer ", layer, " is wrong"); });
                if (x.size() == 1) break;
                std::vector<string> u; for (size_t i = 0; i < x.size(); i += 2) u.push_back(sha256(x[i] + x[i + 1])); x = u;
            }
        }
        c.nontrivial(); c.state(n);
    });
}
static void multi_buffer()
{
    vp::assume("ISA-L crypto is not installed: a stand-in with its interface, job states and error rules is used, whose digests come from OpenSSL and which works on jobs as late as the original may");
    using dt::protocol;
    multi_buffer_digests();
    // the larger spaces are left to the thorough tier; C05 to C15 explore them with the ordinary hashers
    auto keep = [](std::vector<string> no) { return [no](const string& n) { if (!vp::thorough()) for (auto& x : no) if (n.find(x) != string::npos) return false; return true; }; };
    for (auto pr : {protocol::v1, protocol::v2, protocol::hybrid}) { vp::name_prefix(cat("hash-", pname(pr), "-")); hashes(pr); }
    vp::name_prefix("", keep({"-padding", "-again"})); checksums();
    vp::name_prefix("verify-", keep({"-32k", "-three"}));
    for (auto pr : {protocol::v1, protocol::v2, protocol::hybrid}) verifies(pr, judge_result);
    isal_standin::lanes = 3; isal_standin::order = 1;
    vp::name_prefix("schedules-", keep({"hash-1", "hash-3", "hash-5"})); hasher_schedules(); verifier_schedules();
    vp::name_prefix("progress-", keep({"hash-1", "hash-3", "verify-"})); progress();
    vp::name_prefix("lifecycle-", keep({"histories", "hash-1", "hash-3", "hash-5", "cancel-verify", "hash-6", "hash-7"})); lifecycle();
    vp::name_prefix("");
}
