// The hashers on each cryptographic library: OpenSSL (its calls intercepted at link time), wolfSSL and WinCNG (stand-ins),
// with a failure injected at every call of the library.
#include "vp.hpp"
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/hasher/factory.hpp"
#include <openssl/evp.h>
#include <openssl/provider.h>
#include <openssl/err.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <set>
#include "../shim/fault.hpp"
using vp::ctx;
using vp::cat;
namespace dt = dottorrent;
using hf = dt::hash_function;

#if defined(DOTTORRENT_USE_OPENSSL)
using hasher = dt::openssl_hasher;
static const char* LIBRARY = "openssl";
#elif defined(DOTTORRENT_USE_WOLFSSL)
using hasher = dt::wolfssl_hasher;
#ifdef VP_WOLFSSL_MD4
static const char* LIBRARY = "wolfssl-md4";
#else
static const char* LIBRARY = "wolfssl";
#endif
#else
using hasher = dt::wincng_hasher;
static const char* LIBRARY = "wincng";
#endif

struct info { hf f; const char* name; std::size_t size, block; };
static const std::vector<info> INFO = {
    {hf::md4, "md4", 16, 64}, {hf::md5, "md5", 16, 64}, {hf::sha1, "sha1", 20, 64}, {hf::sha256, "sha256", 32, 64}, {hf::sha384, "sha384", 48, 128}, {hf::sha512, "sha512", 64, 128},
#if defined(DOTTORRENT_USE_OPENSSL)
    {hf::blake2b_512, "blake2b512", 64, 128}, {hf::blake2s_256, "blake2s256", 32, 64}, {hf::sha224, "sha224", 28, 64}, {hf::sha3_224, "sha3-224", 28, 144}, {hf::sha3_256, "sha3-256", 32, 136},
    {hf::sha3_384, "sha3-384", 48, 104}, {hf::sha3_512, "sha3-512", 64, 72}, {hf::shake128, "shake128", 16, 168}, {hf::shake256, "shake256", 32, 136}, {hf::ripemd160, "ripemd160", 20, 64}, {hf::whirlpool, "whirlpool", 64, 64},
#endif
};
static const hf ALL[] = {hf::none, hf::md2, hf::md4, hf::md5, hf::blake2b_512, hf::blake2s_256, hf::sha1, hf::sha224, hf::sha256, hf::sha384, hf::sha512, hf::sha3_224, hf::sha3_256, hf::sha3_384, hf::sha3_512, hf::shake128, hf::shake256, hf::ripemd160, hf::whirlpool};
static bool available(hf f)
{
#if defined(DOTTORRENT_USE_OPENSSL)
    for (auto& i : INFO) if (i.f == f) return true;
    return false;
#elif defined(DOTTORRENT_USE_WOLFSSL)
#ifdef VP_WOLFSSL_MD4
    if (f == hf::md4) return true;
#endif
    return f == hf::md5 || f == hf::sha1 || f == hf::sha256 || f == hf::sha512;
#else
    return f == hf::md4 || f == hf::md5 || f == hf::sha1 || f == hf::sha256 || f == hf::sha384 || f == hf::sha512;
#endif
}

// ---------------------------------------------------------------- failures and resources of the library
static ctx* armed = nullptr;      // inject failures (at most one per execution)
static bool fired = false;
static std::string fired_at;
static bool counting = false;
static std::map<std::string, int> live;
namespace vp_fault {
bool fail(const char* call)
{
    if (!armed || fired) return false;
    armed->transition();
    if (!armed->flag()) return false;
    fired = true; fired_at = call; return true;
}
void opened(const char* w) { if (counting) ++live[w]; }
void closed(const char* w) { if (counting) --live[w]; }
}
#if defined(DOTTORRENT_USE_OPENSSL)
#define WRAP(ret, bad, f, params, args) extern "C" ret __real_##f params; extern "C" ret __wrap_##f params { if (vp_fault::fail(#f)) return bad; return __real_##f args; }
WRAP(int, 0, EVP_DigestInit, (EVP_MD_CTX* c, const EVP_MD* m), (c, m))
WRAP(int, 0, EVP_DigestInit_ex, (EVP_MD_CTX* c, const EVP_MD* m, ENGINE* e), (c, m, e))
WRAP(int, 0, EVP_DigestInit_ex2, (EVP_MD_CTX* c, const EVP_MD* m, const OSSL_PARAM* p), (c, m, p))
WRAP(int, 0, EVP_DigestUpdate, (EVP_MD_CTX* c, const void* d, size_t n), (c, d, n))
WRAP(int, 0, EVP_DigestFinal, (EVP_MD_CTX* c, unsigned char* o, unsigned* n), (c, o, n))
WRAP(int, 0, EVP_DigestFinal_ex, (EVP_MD_CTX* c, unsigned char* o, unsigned* n), (c, o, n))
WRAP(int, 0, EVP_DigestFinalXOF, (EVP_MD_CTX* c, unsigned char* o, size_t n), (c, o, n))
WRAP(int, 0, EVP_MD_CTX_copy, (EVP_MD_CTX* c, const EVP_MD_CTX* o), (c, o))
WRAP(int, 0, EVP_MD_CTX_copy_ex, (EVP_MD_CTX* c, const EVP_MD_CTX* o), (c, o))
extern "C" EVP_MD_CTX* __real_EVP_MD_CTX_new(void); extern "C" EVP_MD_CTX* __wrap_EVP_MD_CTX_new(void) { if (vp_fault::fail("EVP_MD_CTX_new")) return nullptr; auto p = __real_EVP_MD_CTX_new(); if (p) vp_fault::opened("context"); return p; }
extern "C" void __real_EVP_MD_CTX_free(EVP_MD_CTX*); extern "C" void __wrap_EVP_MD_CTX_free(EVP_MD_CTX* c) { if (c) vp_fault::closed("context"); __real_EVP_MD_CTX_free(c); }
#endif

// every execution starts and ends through this, so that a failed one leaves nothing behind
struct session {
    explicit session(ctx* c) { armed = c; fired = false; fired_at.clear(); live.clear(); counting = true; }
    ~session() { armed = nullptr; counting = false; }
};
static void released(ctx& c, const std::string& d)
{
    armed = nullptr; counting = false;
    for (auto& [w, n] : live) {
        c.expect(n <= 0, "leak", cat(d, ": ", n, " ", w, "(s) of the library are never released"));
        c.expect(n >= 0, "double-release", cat(d, ": a ", w, " of the library is released twice"));
    }
}

static std::string message(std::size_t n, unsigned seed = 0) { std::string r(n, 0); unsigned x = 12345 + seed * 7919; for (auto& c : r) { x = x * 1103515245 + 12345; c = char(x >> 16); } return r; }
static std::span<const std::byte> bytes(const std::string& s) { return std::as_bytes(std::span(s.data(), s.size())); }
static std::string hex(std::span<const std::byte> s) { std::string r; char t[3]; for (auto b : s) { std::snprintf(t, 3, "%02x", unsigned(b)); r += t; } return r; }
// the reference: OpenSSL's one-shot digest
static const std::string& ref(const char* name, const std::string& m)
{
    static std::map<std::pair<std::string, std::string>, std::string> memo;
    auto& r = memo[{name, m}];
    if (r.empty()) {
        auto a = armed; bool k = counting; armed = nullptr; counting = false;
        unsigned char out[EVP_MAX_MD_SIZE]; unsigned n = 0;
        r = EVP_Digest(m.data(), m.size(), out, &n, EVP_get_digestbyname(name), nullptr) == 1 ? hex(std::as_bytes(std::span(out, n))) : "?";
        armed = a; counting = k;
    }
    return r;
}
static std::string final_hex(ctx& c, dt::single_buffer_hasher& h, std::size_t size)
{
    std::vector<std::byte> buf(size + 32, std::byte(0xA5));
    h.finalize_to(std::span<std::byte>(buf.data() + 16, size));
    for (std::size_t i = 0; i < 16; ++i) c.expect(buf[i] == std::byte(0xA5) && buf[size + 16 + i] == std::byte(0xA5), "overrun", "finalize_to writes outside the buffer it was given");
    return hex(std::span<const std::byte>(buf.data() + 16, size));
}
static void upd(dt::single_buffer_hasher& h, std::string_view v) { h.update(v); }
static std::vector<info> usable;

// one history of updates and finalizations on hasher h; digests delivered are compared with the reference
static void history(ctx& c, dt::single_buffer_hasher& h, const info& i, std::string& m, std::string& d, int depth, unsigned seed, bool must = true)
{
    static const int chunk[] = {0, 1, 64, 129};
    for (int s = 0; s < depth; ++s) {
        int o = c.choose(5);
        if (o < 4) { d += cat("+", chunk[o], " "); auto x = message(std::size_t(chunk[o]), seed + unsigned(s)); if (s % 2) h.update(std::string_view(x)); else h.update(bytes(x)); m += x; }
        else { d += "! "; auto g = final_hex(c, h, i.size); c.expectf(g == ref(i.name, m), "wrong-digest", [&] { return cat(d, fired ? cat("(", fired_at, " failed) ") : "", ": digest ", g, " expected ", ref(i.name, m)); }); m.clear(); c.outcome(g); }
        c.transition();
    }
}

template <class H> static bool derive(int how, std::unique_ptr<H>& a, std::unique_ptr<H>& b, std::string& d)
{
    if (how == 0) { if constexpr (std::is_copy_constructible_v<H>) { d += "copied: "; b = std::make_unique<H>(*a); return true; } }
    else if (how == 1) { if constexpr (std::is_copy_assignable_v<H>) { d += "copy-assigned: "; b = std::make_unique<H>(hf::sha256); upd(*b, "gone"); *b = *a; return true; } }
    else if (how == 2) { if constexpr (std::is_move_constructible_v<H>) { d += "moved: "; b = std::make_unique<H>(std::move(*a)); a.reset(); return true; } }
    else { if constexpr (std::is_move_assignable_v<H>) { d += "move-assigned: "; b = std::make_unique<H>(hf::sha256); upd(*b, "gone"); *b = std::move(*a); a.reset(); return true; } }
    return false;
}

static void backends()
{
    bool th = vp::thorough();
    auto part = [](const char* n) { return cat(LIBRARY, "-", n); };
    vp::part(part("supported"), "every hash function: supported as the library provides it, refused otherwise, also by the factory", {}, [](ctx& c) {
        hf f = ALL[c.choose(int(std::size(ALL)))]; int how = c.choose(2);
        session s(nullptr);
        bool can = available(f), threw = false;
        const info* i = nullptr; for (auto& x : INFO) if (x.f == f) i = &x;
        bool works = false; for (auto& u : usable) works |= u.f == f;
        std::string d = cat("hash function #", int(f), " ", i ? i->name : "", how ? " by the factory" : "");
        c.describe(d);
        c.expect((dt::hasher_supported_algorithms().count(f) == 1) == can, "supported", cat(d, can ? ": missing from" : ": wrongly in", " the supported functions"));
        try {
            std::unique_ptr<dt::single_buffer_hasher> h;
            if (how) h = dt::make_hasher(f); else h = std::make_unique<hasher>(f);
            if (can && works) {
                h->update(std::string_view("abc"));
                c.expectf(final_hex(c, *h, i->size) == ref(i->name, "abc"), "wrong-digest", [&] { return cat(d, ": wrong digest of \"abc\""); });
            }
        } catch (const std::exception&) { threw = true; }
        if (works || !can) c.expect(threw == !can, "supported", cat(d, threw ? ": a supported function is refused" : ": an unsupported function is accepted"));
        released(c, d);
        c.nontrivial();
    });
    vp::part(part("splits"), "every supported function, all splits of messages of boundary lengths into up to three updates, fresh and used hashers", {}, [](ctx& c) {
        auto& i = c.pick(usable); int b = int(i.block);
        std::vector<int> lens = {0, 1, b - 9, b - 8, b - 1, b, b + 1, 2 * b, 5 * b + 3, 66001}; int n = c.pick(lens);
        std::set<int> cs = {0, 1, b - 1, b, b + 1, n / 2, n - 1, n}; std::vector<int> cuts; for (int x : cs) if (x >= 0 && x <= n) cuts.push_back(x);
        int a = c.choose(int(cuts.size())), e = a + c.choose(int(cuts.size()) - a); bool used = c.flag();
        session s(nullptr);
        std::string m = message(std::size_t(n)), d = cat(i.name, ", ", n, " bytes split at ", cuts[std::size_t(a)], ",", cuts[std::size_t(e)], used ? ", used before" : "");
        c.describe(d);
        {
            auto h = dt::make_hasher(i.f);
            if (used) { h->update(bytes(message(7))); final_hex(c, *h, i.size); }
            int pos = 0; for (int x : {cuts[std::size_t(a)], cuts[std::size_t(e)], n}) { h->update(bytes(m).subspan(std::size_t(pos), std::size_t(x - pos))); pos = x; c.transition(); }
            auto g = final_hex(c, *h, i.size);
            c.expectf(g == ref(i.name, m), "wrong-digest", [&] { return cat(d, ": digest ", g, " expected ", ref(i.name, m)); });
        }
        released(c, d);
        c.nontrivial();
    });
    vp::part(part("histories"), "every history of updates and finalizations up to the stated depth, every supported function", {}, [th](ctx& c) {
        auto& i = c.pick(usable); session s(nullptr);
        std::string m, d = cat(i.name, ": ");
        {
            hasher h(i.f);
            history(c, h, i, m, d, th ? 6 : 4, 1);
            auto g = final_hex(c, h, i.size); c.expectf(g == ref(i.name, m), "wrong-digest", [&] { return cat(d, ": digest ", g, " expected ", ref(i.name, m)); });
        }
        c.describe(d); released(c, d); c.nontrivial(); c.state(d);
    });
    vp::part(part("failures"), "every history of updates and finalizations up to the stated depth, one call of the library failing, every such call", {}, [th](ctx& c) {
        static const std::vector<info> few = [] { std::vector<info> r; for (auto& u : usable) if (u.f == hf::sha1 || u.f == hf::sha256 || u.f == hf::sha512 || u.f == hf::md5 || u.f == hf::shake128) r.push_back(u); return r; }();
        auto& i = c.pick(th ? usable : few); session s(&c);
        std::string m, d = cat(i.name, ": "); bool threw = false;
        try {
            auto h = dt::make_hasher(i.f);
            history(c, *h, i, m, d, th ? 5 : 3, 1);
            d += "! "; auto g = final_hex(c, *h, i.size); c.expectf(g == ref(i.name, m), "failure-hidden", [&] { return cat(d, ": ", fired_at, " failed, and a wrong digest is delivered"); });
        } catch (const std::exception&) { threw = true; }
        c.describe(cat(d, fired ? cat("(", fired_at, " failed)") : ""));
        c.expect(!threw || fired, "throws", cat(d, ": an exception although nothing failed"));
        released(c, cat(d, fired ? cat("(", fired_at, " failed)") : ""));
        // a failure does not outlast its hasher
        { hasher h(i.f); upd(h, "abc"); auto g = final_hex(c, h, i.size); c.expectf(g == ref(i.name, "abc"), "wrong-digest", [&] { return cat(d, ": a new hasher is wrong after a failure of another"); }); }
        if (fired) c.nontrivial();
        c.state(cat(d, fired_at, threw)); c.outcome(fired_at);
    });
    vp::part(part("copies"), "copies, moves and assignments of hashers in use, where they exist, are independent", {}, [](ctx& c) {
        auto& i = c.pick(usable); int how = c.choose(4); session s(nullptr);
        std::string m = "x", m2, d = cat(i.name, ": "); bool did = false;
        {
            auto a = std::make_unique<hasher>(i.f); upd(*a, "x");
            std::unique_ptr<hasher> b;
            did = derive<hasher>(how, a, b, d);
            c.describe(d);
            if (did) {
                m2 = m; history(c, *b, i, m2, d, 2, 3);
                if (a && c.flag()) { d += "(source first) "; auto g = final_hex(c, *a, i.size); c.expectf(g == ref(i.name, m), "wrong-digest", [&] { return cat(d, ": the source has the digest ", g, " expected ", ref(i.name, m)); }); m.clear(); a.reset(); }
                auto g = final_hex(c, *b, i.size); c.expectf(g == ref(i.name, m2), "wrong-digest", [&] { return cat(d, ": digest ", g, " expected ", ref(i.name, m2)); });
                if (a) { g = final_hex(c, *a, i.size); c.expectf(g == ref(i.name, m), "wrong-digest", [&] { return cat(d, ": the source has the digest ", g, " expected ", ref(i.name, m)); }); }
                c.nontrivial();
            }
            else { c.nontrivial(); d += "refused at compile time"; }
        }
        c.describe(d); released(c, d); c.state(d);
    });
    vp::part(part("large"), "single updates around 2 MiB and of more than 4 GiB", {.hang_cpu = 200}, [](ctx& c) {
        int kind = c.choose(int(usable.size()) + 1); session s(nullptr);
        if (kind == int(usable.size())) {
            const std::size_t unit = std::size_t(16) << 20, n = (std::size_t(4) << 30) + unit, len = (std::size_t(4) << 30) + 77;
            c.describe("sha1 of one update of 4 GiB and 77 bytes");
            int fd = memfd_create("vp", 0);
            if (fd < 0 || ftruncate(fd, off_t(unit)) != 0) { c.count("no-memfd"); return; }
            auto m = message(unit);
            if (pwrite(fd, m.data(), unit, 0) != ssize_t(unit)) { close(fd); return; }
            char* p = static_cast<char*>(mmap(nullptr, n, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0));
            if (p == MAP_FAILED) { close(fd); return; }
            bool ok = true;
            for (std::size_t o = 0; o < n; o += unit) ok &= mmap(p + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED;
            close(fd);
            if (ok) {
                hasher h(hf::sha1); h.update(std::as_bytes(std::span(p, len)));
                auto g = final_hex(c, h, 20);
                counting = false;
                EVP_MD_CTX* x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_sha1(), nullptr);
                for (std::size_t o = 0; o < len; o += unit) EVP_DigestUpdate(x, p, std::min(unit, len - o));
                unsigned char out[20]; unsigned on = 20; EVP_DigestFinal_ex(x, out, &on); EVP_MD_CTX_free(x);
                munmap(p, n);
                c.expect(g == hex(std::as_bytes(std::span(out, 20))), "wrong-digest", "the digest of one update of more than 4 GiB is wrong");
            }
            else munmap(p, n);
            c.nontrivial(); c.transition(); return;
        }
        auto& i = usable[std::size_t(kind)]; std::size_t n = (std::size_t(1) << 21) + std::size_t(c.choose(3)) - 1;
        std::string d = cat(i.name, " of one update of ", n, " bytes"); c.describe(d);
        auto m = message(n); hasher h(i.f); h.update(bytes(m));
        auto g = final_hex(c, h, i.size); c.expectf(g == ref(i.name, m), "wrong-digest", [&] { return cat(d, ": ", g, " expected ", ref(i.name, m)); });
        c.nontrivial(); c.transition();
    });
}

#if defined(DOTTORRENT_USE_ISAL)
// ---------------------------------------------------------------- C43: jobs of multi-buffer hashers that are given up
#include "isal_standin.hpp"
static std::set<void*> blocks;
extern "C" void* __real_aligned_alloc(size_t, size_t); extern "C" void* __wrap_aligned_alloc(size_t a, size_t n) { auto p = __real_aligned_alloc(a, n); if (counting && p) blocks.insert(p); return p; }
extern "C" void __real_free(void*); extern "C" void __wrap_free(void* p) { if (counting) blocks.erase(p); __real_free(p); }
static void given_up()
{
    bool th = vp::thorough();
    vp::part("given-up", cat("every history of ", th ? 7 : 5, " calls on up to 3 jobs of a multi-buffer hasher, jobs given up half way, submitted again, dropped by resizing or resetting while the library works on them; 1, 3 and 16 lanes; every block of memory given back"), {.time_limit = 900}, [th](ctx& c) {
        static const info F[] = {{hf::md5, "md5", 16, 64}, {hf::sha1, "sha1", 20, 64}, {hf::sha256, "sha256", 32, 64}, {hf::sha512, "sha512", 64, 128}};
        auto& f = F[th ? c.choose(4) : 1 + 2 * c.choose(2)];
        static const int L[] = {16, 3, 1}; isal_standin::lanes = L[c.choose(3)]; isal_standin::order = c.choose(2);
        session s(nullptr); blocks.clear();
        std::string d = cat(f.name, ", ", isal_standin::lanes, " lanes: ");
        std::vector<std::string> data; data.reserve(64);
        enum st { none, open, ready };
        std::vector<std::pair<st, std::string>> job;
        auto piece = [&](std::size_t n) -> std::span<const std::byte> { data.push_back(message(n, unsigned(data.size()))); return bytes(data.back()); };
        auto finish = [&](auto& h, std::size_t j) {
            std::vector<std::byte> out(f.size);
            h.finalize_to(j, out);
            c.expectf(hex(out) == ref(f.name, job[j].second), "digest", [&] { return cat(d, ": digest of job ", j, " is ", hex(out), ", expected ", ref(f.name, job[j].second)); });
        };
        {
            auto h = dt::make_multi_buffer_hasher(f.f);
            h->resize(2); job.resize(2);
            for (int k = 0; k < (th ? 7 : 5); ++k) {
                int o = c.choose(8);
                c.transition();
                if (o < 4) {
                    // the next step of job 0 or 1, or starting it over
                    std::size_t j = std::size_t(o % 2); if (j >= job.size()) continue;
                    bool over = o >= 2;
                    if (job[j].first == open && !over) { auto x = piece(100); h->submit_last(j, x); job[j].second += data.back(); job[j].first = ready; d += cat("last ", j, ", "); }
                    else if (job[j].first == ready && !over) { finish(*h, j); d += cat("finalize ", j, ", "); }
                    else if (over) { auto x = piece(130); h->submit_first(j, x); job[j] = {open, data.back()}; d += cat("first ", j, ", "); }
                    else { auto x = piece(200); h->submit(j, x); job[j] = {ready, data.back()}; d += cat("whole ", j, ", "); }
                }
                else if (o == 4) { auto x = piece(70); auto j = h->submit(x); c.expect(j == job.size(), "job-id", cat(d, ": a new job has the number ", j)); job.push_back({ready, data.back()}); d += "new, "; }
                else if (o == 5) { h->resize(1); job.resize(1); d += "resize 1, "; }
                else if (o == 6) { h->resize(3); job.resize(3); d += "resize 3, "; }
                else { h->reset(); job.clear(); d += "reset, "; }
                c.expect(h->job_count() == job.size(), "job-count", cat(d, ": ", h->job_count(), " jobs"));
            }
            c.describe(d);
            if (c.flag()) for (std::size_t j = 0; j < job.size(); ++j) if (job[j].first == ready) finish(*h, j);
        }
        counting = false; isal_standin::lanes = 4; isal_standin::order = 0;
        c.expect(blocks.empty(), "leak", cat(d, ": ", blocks.size(), " block(s) of memory are never given back"));
        c.nontrivial(); c.state(d);
    });
}
#endif

int main(int argc, char** argv)
{
    OSSL_PROVIDER_load(nullptr, "legacy"); OSSL_PROVIDER_load(nullptr, "default");
    vp::init(argc, argv);
    for (auto& i : INFO) if (available(i.f) && ref(i.name, "abc") != "?") usable.push_back(i);
#if defined(DOTTORRENT_USE_ISAL)
    given_up(); return vp::finish();
#endif
    backends();
    vp::assume("OpenSSL's one-shot EVP_Digest is the reference; wolfSSL and WinCNG are stand-ins written from their published interface, failures of OpenSSL are injected at its calls for digests");
    return vp::finish();
}
