// Digests: streaming hashers, hash values, checksums, hash function names.
#include "vp.hpp"
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/hasher/factory.hpp"
#include "dottorrent/hasher/backend_info.hpp"
#include "dottorrent/checksum.hpp"
#include "dottorrent/hash_function_traits.hpp"
#include <openssl/evp.h>
#include <openssl/provider.h>
#include <array>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <unistd.h>
using vp::ctx;
using vp::cat;
namespace dt = dottorrent;
using hf = dt::hash_function;

struct info { hf f; const char* name; const char* evp; std::size_t size, block; const char* kat0; const char* kat1; };
// The reference: names, standard digest sizes, block sizes and the published digests of "" and "abc".
static const std::vector<info> INFO = {
    {hf::md4, "md4", "md4", 16, 64, "31d6cfe0d16ae931b73c59d7e0c089c0", "a448017aaf21d8525fc10ae87aa6729d"},
    {hf::md5, "md5", "md5", 16, 64, "d41d8cd98f00b204e9800998ecf8427e", "900150983cd24fb0d6963f7d28e17f72"},
    {hf::blake2b_512, "blake2b_512", "blake2b512", 64, 128, "786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce", "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"},
    {hf::blake2s_256, "blake2s_256", "blake2s256", 32, 64, "69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9", "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"},
    {hf::sha1, "sha1", "sha1", 20, 64, "da39a3ee5e6b4b0d3255bfef95601890afd80709", "a9993e364706816aba3e25717850c26c9cd0d89d"},
    {hf::sha224, "sha224", "sha224", 28, 64, "d14a028c2a3a2bc9476102bb288234c415a2b01f828ea62ac5b3e42f", "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7"},
    {hf::sha256, "sha256", "sha256", 32, 64, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
    {hf::sha384, "sha384", "sha384", 48, 128, "38b060a751ac96384cd9327eb1b1e36a21fdb71114be07434c0cc7bf63f6e1da274edebfe76f65fbd51ad2f14898b95b", "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7"},
    {hf::sha512, "sha512", "sha512", 64, 128, "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e", "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"},
    {hf::sha3_224, "sha3_224", "sha3-224", 28, 144, "6b4e03423667dbb73b6e15454f0eb1abd4597f9a1b078e3f5b5a6bc7", "e642824c3f8cf24ad09234ee7d3c766fc9a3a5168d0c94ad73b46fdf"},
    {hf::sha3_256, "sha3_256", "sha3-256", 32, 136, "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a", "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532"},
    {hf::sha3_384, "sha3_384", "sha3-384", 48, 104, "0c63a75b845e4f7d01107d852e4c2485c51a50aaaa94fc61995e71bbee983a2ac3713831264adb47fb6bd1e058d5f004", "ec01498288516fc926459f58e2c6ad8df9b473cb0fc08c2596da7cf0e49be4b298d88cea927ac7f539f1edf228376d25"},
    {hf::sha3_512, "sha3_512", "sha3-512", 64, 72, "a69f73cca23a9ac5c8b567dc185a756e97c982164fe25859e0d1dcc1475c80a615b2123af1f5f94c11e3e9402c3ac558f500199d95b6d3e301758586281dcd26", "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0"},
    {hf::shake128, "shake128", "shake128", 16, 168, "7f9c2ba4e88f827d616045507605853e", "5881092dd818bf5cf8a3ddb793fbcba7"},
    {hf::shake256, "shake256", "shake256", 32, 136, "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f", "483366601360a8771c6863080cc4114d8db44530f8f1e1ee4f94ea37e78b5739"},
    {hf::ripemd160, "ripemd160", "ripemd160", 20, 64, "9c1185a5c5e9fc54612808977ee8f548b2258d31", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
    {hf::whirlpool, "whirlpool", "whirlpool", 64, 64, "19fa61d75522a4669b44e39c1d2e1726c530232130d407f89afee0964997f7a73e83be698b288febcf88e3e03c4f0757ea8964e59b63d93708b138cc42a66eb3", "4e2448a4c6f486bb16b6562c73b4020bf3043e3a731bce721ae1b303d97e6d4c7181eebdb6c57e277d0e34957114cbd6c797fc9d95d8b582d225292076d4eef5"},
};
static const hf ALL[] = {hf::none, hf::md2, hf::md4, hf::md5, hf::blake2b_512, hf::blake2s_256, hf::sha1, hf::sha224, hf::sha256, hf::sha384, hf::sha512, hf::sha3_224, hf::sha3_256, hf::sha3_384, hf::sha3_512, hf::shake128, hf::shake256, hf::ripemd160, hf::whirlpool};
static const info* find(hf f) { for (auto& i : INFO) if (i.f == f) return &i; return nullptr; }

static std::string hex(std::span<const std::byte> s) { std::string r; char t[3]; for (auto b : s) { std::snprintf(t, 3, "%02x", unsigned(b)); r += t; } return r; }
static std::string hex(const std::string& s) { return hex(std::as_bytes(std::span(s.data(), s.size()))); }
static std::string message(std::size_t n, unsigned seed = 0) { std::string r(n, 0); unsigned x = 12345 + seed * 7919; for (auto& c : r) { x = x * 1103515245 + 12345; c = char(x >> 16); } return r; }
static std::span<const std::byte> bytes(const std::string& s) { return std::as_bytes(std::span(s.data(), s.size())); }
// one-shot reference digest, by name
static std::string ref(const char* evp, const std::string& m)
{
    const EVP_MD* md = EVP_get_digestbyname(evp);
    if (!md) return "?";
    unsigned char out[EVP_MAX_MD_SIZE]; unsigned n = 0;
    if (EVP_Digest(m.data(), m.size(), out, &n, md, nullptr) != 1) return "?";
    return hex(std::as_bytes(std::span(out, n)));
}
static std::map<std::pair<std::string, std::string>, std::string> memo;
static const std::string& ref_memo(const char* evp, const std::string& m)
{
    auto& r = memo[{evp, m}]; if (r.empty()) r = ref(evp, m);
    if (memo.size() > 200000) { auto k = r; memo.clear(); return memo[{evp, m}] = k; }
    return r;
}

static std::vector<info> usable;   // functions this OpenSSL can compute

// finalize into a guarded buffer and return the digest in hexadecimal
template <class H> static std::string final_hex(ctx& c, H& h, std::size_t size)
{
    std::vector<std::byte> buf(size + 32, std::byte(0xA5));
    h.finalize_to(std::span<std::byte>(buf.data() + 16, size));
    for (std::size_t i = 0; i < 16; ++i) c.expect(buf[i] == std::byte(0xA5) && buf[size + 16 + i] == std::byte(0xA5), "overrun", "finalize_to writes outside the buffer it was given");
    return hex(std::span<const std::byte>(buf.data() + 16, size));
}

static void digests()
{
    bool th = vp::thorough();
    vp::part("known-answers", "every hash function, empty and \"abc\" message, through every update overload, the factory and the one-shot template", {}, [](ctx& c) {
        hf f = ALL[c.choose(int(std::size(ALL)))];
        int which = c.choose(2), how = c.choose(4);
        const info* i = find(f);
        std::string m = which ? "abc" : "";
        c.describe(cat("hash function ", i ? i->name : "unsupported", " of ", vp::quote(m), " via ", how));
        bool can = false; for (auto& u : usable) can |= u.f == f;
        bool threw = false;
        std::string got;
        try {
            if (how == 0) { dt::openssl_hasher h(f); h.update(bytes(m)); if (i) got = final_hex(c, h, i->size); }
            else if (how == 1) { dt::openssl_hasher h(f); dt::single_buffer_hasher& b = h; b.update(std::string_view(m)); if (i) got = final_hex(c, b, i->size); }
            else if (how == 2) { auto h = dt::make_hasher(f); c.expect(h != nullptr, "factory", "make_hasher returned nothing"); if (which) { h->update(std::string_view("a")); h->update(std::string_view()); h->update(std::string_view("bc")); } if (i) got = final_hex(c, *h, i->size); }
            else { dt::openssl_hasher h(f); h.update(bytes("garbage")); std::byte tmp[128]; h.finalize_to(std::span<std::byte>(tmp, i ? i->size : 64)); h.update(bytes(m)); if (i) got = final_hex(c, h, i->size); }
        } catch (const std::exception&) { threw = true; }
        c.transition(); c.nontrivial();
        if (!can) { c.expect(threw, "unsupported", "an unsupported hash function is accepted without an error"); return; }
        c.expect(!threw, "throws", cat("a hasher for ", i->name, " cannot be used"));
        c.expect(got == (which ? i->kat1 : i->kat0), "wrong-digest", cat(i->name, " of ", vp::quote(m), " is ", got, ", expected ", which ? i->kat1 : i->kat0));
    });
    vp::part("one-shot", "make_hash for every supported function and boundary length, digest type sizes", {}, [](ctx& c) {
        static const int lens[] = {0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 145, 1000, 4096, 65535, 65536, 65537, 1048581};
        int n = lens[c.choose(int(std::size(lens)))];
        std::string m = message(std::size_t(n));
        c.describe(cat("make_hash of ", n, " bytes"));
        auto one = [&]<hf F>() {
            const info* i = find(F);
            c.expect(dt::hash_function_traits<F>::digest_size_bytes == i->size && dt::hash_function_traits<F>::digest_size_bits == 8 * i->size, "digest-size",
                     cat("digest_size of ", i->name, " is ", dt::hash_function_traits<F>::digest_size_bytes, " bytes, expected ", i->size));
            bool can = false; for (auto& u : usable) can |= u.f == F;
            if (!can) return;
            auto h = dt::make_hash<F>(bytes(m));
            c.transition();
            c.expectf(hex(std::span<const std::byte>(h)) == ref_memo(i->evp, m), "wrong-digest", [&] { return cat("make_hash<", i->name, "> of ", n, " bytes"); });
        };
        one.template operator()<hf::md4>(); one.template operator()<hf::md5>(); one.template operator()<hf::blake2b_512>(); one.template operator()<hf::blake2s_256>();
        one.template operator()<hf::sha1>(); one.template operator()<hf::sha224>(); one.template operator()<hf::sha256>(); one.template operator()<hf::sha384>(); one.template operator()<hf::sha512>();
        one.template operator()<hf::sha3_224>(); one.template operator()<hf::sha3_256>(); one.template operator()<hf::sha3_384>(); one.template operator()<hf::sha3_512>();
        one.template operator()<hf::shake128>(); one.template operator()<hf::shake256>(); one.template operator()<hf::ripemd160>(); one.template operator()<hf::whirlpool>();
        auto& s = dt::hasher_supported_algorithms();
        c.expect(&s == &dt::openssl_hasher::supported_algorithms() || s == dt::openssl_hasher::supported_algorithms(), "supported", "supported set");
        c.expect(s.size() == INFO.size(), "supported", "size of the supported set");
        for (auto& i : INFO) c.expect(s.count(i.f) == 1, "supported", cat(i.name, " is missing from the supported set"));
        c.expect(dt::single_buffer_hasher::supported_algorithms().empty(), "supported", "the interface claims algorithms");
        c.nontrivial();
    });
    vp::part("splits", "every supported function, every boundary length, all splits of the message into up to three (thorough: four) updates at boundary positions, hasher used twice", {}, [th](ctx& c) {
        auto& i = c.pick(usable);
        int b = int(i.block);
        std::vector<int> lens = {1, 2, b - 9, b - 8, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 5 * b + 3, 66001};
        int n = c.pick(lens);
        std::set<int> cs = {0, 1, b - 1, b, b + 1, n / 2, n - 1, n};
        std::vector<int> cuts; for (int x : cs) if (x >= 0 && x <= n) cuts.push_back(x);
        int a = c.choose(int(cuts.size())), d = a + c.choose(int(cuts.size()) - a), e = th ? d + c.choose(int(cuts.size()) - d) : d;
        bool second = c.flag();
        std::string m = message(std::size_t(n));
        c.describe(cat(i.name, ", ", n, " bytes split at ", cuts[std::size_t(a)], ",", cuts[std::size_t(d)], ",", cuts[std::size_t(e)], second ? ", hasher reused" : ""));
        dt::openssl_hasher h(i.f); dt::single_buffer_hasher& p = h;
        if (second) { p.update(bytes(message(7))); final_hex(c, p, i.size); }
        int pos = 0, k = 0;
        for (int x : {cuts[std::size_t(a)], cuts[std::size_t(d)], cuts[std::size_t(e)], n}) {
            std::string seg = m.substr(std::size_t(pos), std::size_t(x - pos)); pos = x;
            if (k++ % 2) p.update(std::string_view(seg)); else p.update(bytes(seg));
            c.transition();
        }
        std::string got = final_hex(c, p, i.size);
        c.expectf(got == ref_memo(i.evp, m), "split-digest", [&] { return cat("digest ", got, " expected ", ref_memo(i.evp, m)); });
        c.nontrivial(); c.outcome(got);
    });
    vp::part("histories", "every history of updates and finalizations on two live hashers, up to the stated depth", {}, [th](ctx& c) {
        auto& A = c.pick(usable);
        int bk = c.choose(2);
        const info& B = bk ? *find(hf::sha1) : A;
        static const int chunk[] = {0, 1, 64, 129};
        dt::openssl_hasher ha(A.f), hb(B.f);
        std::string ma, mb, d = cat(A.name, "/", B.name, ": ");
        int depth = th ? 5 : 4;
        for (int s = 0; s < depth; ++s) {
            int o = c.choose(10);
            bool first = o < 5; o %= 5;
            auto& h = first ? ha : hb; auto& m = first ? ma : mb; auto& I = first ? A : B;
            if (o < 4) { d += cat(first ? "A+" : "B+", chunk[o], " "); auto x = message(std::size_t(chunk[o]), unsigned(s + 1)); h.update(bytes(x)); m += x; }
            else { d += first ? "A! " : "B! "; auto g = final_hex(c, h, I.size); c.expectf(g == ref_memo(I.evp, m), "history-digest", [&] { return cat(d, ": digest ", g, " expected ", ref_memo(I.evp, m)); }); m.clear(); c.outcome(g); }
            c.transition();
        }
        c.describe(d);
        auto g = final_hex(c, ha, A.size); c.expectf(g == ref_memo(A.evp, ma), "history-digest", [&] { return cat(d, ": digest of A ", g, " expected ", ref_memo(A.evp, ma)); });
        g = final_hex(c, hb, B.size); c.expectf(g == ref_memo(B.evp, mb), "history-digest", [&] { return cat(d, ": digest of B ", g, " expected ", ref_memo(B.evp, mb)); });
        c.nontrivial(); c.state(d);
    });
    vp::part("reuse", "every supported function: one hasher used for 1100 messages of increasing length, all messages checked", {}, [](ctx& c) {
        auto& i = c.pick(usable); bool skip_empty = c.flag();
        c.describe(cat(i.name, ", one hasher, 1100 messages", skip_empty ? ", two updates each" : ""));
        auto h = dt::make_hasher(i.f);
        for (std::size_t k = 0; k < 1100; ++k) {
            auto m = message(k % 300, unsigned(k));
            if (skip_empty) { h->update(bytes(m.substr(0, m.size() / 2))); h->update(std::string_view(m).substr(m.size() / 2)); } else h->update(bytes(m));
            auto g = final_hex(c, *h, i.size);
            c.expectf(g == ref(i.evp, m), "reuse-digest", [&] { return cat("message ", k, " of the hasher: ", g, " expected ", ref(i.evp, m)); });
            c.transition();
        }
        c.nontrivial();
    });
    vp::part("many-updates", "every supported function: messages given in 3000 updates of 1, 7 or 64 bytes", {}, [](ctx& c) {
        auto& i = c.pick(usable); static const std::size_t step[] = {1, 7, 64}; std::size_t st = step[c.choose(3)];
        c.describe(cat(i.name, ", 3000 updates of ", st, " bytes"));
        dt::openssl_hasher h(i.f); auto m = message(3000 * st);
        for (std::size_t k = 0; k < 3000; ++k) { h.update(bytes(m).subspan(k * st, st)); c.transition(); }
        auto g = final_hex(c, h, i.size);
        c.expectf(g == ref(i.evp, m), "split-digest", [&] { return cat(g, " expected ", ref(i.evp, m)); });
        c.nontrivial();
    });
    vp::part("large", "single updates of every size around the powers of two up to 32 MiB (all functions up to 2 MiB), and one of more than 4 GiB (sha1)", {.hang_cpu = 120}, [](ctx& c) {
        int kind = c.choose(int(usable.size()) + 1);
        if (kind == int(usable.size())) {
            // 4 GiB of address space over one 16 MiB memory file
            const std::size_t unit = std::size_t(16) << 20, n = (std::size_t(4) << 30) + unit;
            c.describe("sha1 of one update of 4 GiB and 77 bytes");
            int fd = memfd_create("vp", 0);
            if (fd < 0 || ftruncate(fd, off_t(unit)) != 0) { c.count("no-memfd"); return; }
            auto m = message(unit);
            if (pwrite(fd, m.data(), unit, 0) != ssize_t(unit)) { close(fd); return; }
            char* p = static_cast<char*>(mmap(nullptr, n, PROT_READ, MAP_SHARED | MAP_NORESERVE, fd, 0));
            if (p == MAP_FAILED) { close(fd); return; }
            bool ok = true;
            for (std::size_t o = 0; o < n; o += unit) ok &= mmap(p + o, unit, PROT_READ, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) != MAP_FAILED;
            close(fd);
            if (ok) {
                std::size_t len = (std::size_t(4) << 30) + 77;
                dt::openssl_hasher h(hf::sha1);
                h.update(std::as_bytes(std::span(p, len)));
                auto g = final_hex(c, h, 20);
                EVP_MD_CTX* x = EVP_MD_CTX_new(); EVP_DigestInit_ex(x, EVP_sha1(), nullptr);
                for (std::size_t o = 0; o < len; o += unit) EVP_DigestUpdate(x, p, std::min(unit, len - o));
                unsigned char out[20]; unsigned on = 20; EVP_DigestFinal_ex(x, out, &on); EVP_MD_CTX_free(x);
                c.expect(g == hex(std::as_bytes(std::span(out, 20))), "large-digest", "the digest of one update of more than 4 GiB is wrong");
            }
            munmap(p, n); c.nontrivial(); c.transition(); return;
        }
        auto& i = usable[std::size_t(kind)];
        bool fast = i.f == hf::sha1 || i.f == hf::sha256 || i.f == hf::md5;
        int e = 12 + c.choose(fast ? 14 : 10); std::size_t n = (std::size_t(1) << e) + std::size_t(c.choose(3)) - 1;
        c.describe(cat(i.name, " of one update of ", n, " bytes"));
        static const std::string big = message((std::size_t(1) << 25) + 1);
        std::string m = big.substr(0, n);
        dt::openssl_hasher h(i.f); h.update(bytes(m));
        auto g = final_hex(c, h, i.size);
        c.expectf(g == ref(i.evp, m), "large-digest", [&] { return cat(g, " expected ", ref(i.evp, m)); });
        c.nontrivial(); c.transition();
    });
    using mda = openssl::message_digest_algorithm;
    struct am { mda a; const char* name; };
    static const am AM[] = {{mda::md2, "md2"}, {mda::md4, "md4"}, {mda::md5, "md5"}, {mda::md5_sha1, "md5-sha1"}, {mda::blake2b512, "blake2b512"}, {mda::blake2s256, "blake2s256"}, {mda::sha1, "sha1"}, {mda::sha224, "sha224"}, {mda::sha256, "sha256"}, {mda::sha384, "sha384"}, {mda::sha512, "sha512"}, {mda::sha512_224, "sha512-224"}, {mda::sha512_256, "sha512-256"}, {mda::sha3_224, "sha3-224"}, {mda::sha3_256, "sha3-256"}, {mda::sha3_384, "sha3-384"}, {mda::sha3_512, "sha3-512"}, {mda::shake128, "shake128"}, {mda::shake256, "shake256"}, {mda::mdc2, "mdc2"}, {mda::ripemd160, "ripemd160"}, {mda::whirlpool, "whirlpool"}, {mda::sm3, "sm3"}};
    vp::part("backend", "every backend algorithm, every history of update, reset and finalize+reset up to depth 4", {}, [](ctx& c) {
        auto& a = AM[c.choose(int(std::size(AM)))];
        bool can = ref(a.name, "x") != "?";
        std::string d = cat("message_digest ", a.name, ": ");
        if (!can) {
            bool threw = false; std::string cn, what;
            try { openssl::message_digest m(a.a); } catch (const std::system_error& e) { threw = true; cn = e.code().category().name(); what = e.what(); }
            c.describe(d + "unsupported");
            c.expect(threw, "unsupported", cat("message_digest(", a.name, ") does not report that the algorithm is unavailable"));
            c.expect(cn == "openssl-crypto" && !what.empty(), "unsupported", "the error is not an openssl error");
            c.nontrivial(); return;
        }
        openssl::message_digest m(a.a);
        const EVP_MD* md = EVP_get_digestbyname(a.name);
        c.expect(openssl::detail::get_evp_message_digest(a.a) != nullptr, "backend", "no EVP_MD");
        std::size_t size = std::size_t(EVP_MD_get_size(md));
        std::string acc;
        for (int s = 0; s < 4; ++s) {
            int o = c.choose(4);
            if (o == 0) { auto x = message(std::size_t(64 + s)); m.update(bytes(x)); acc += x; d += "update "; }
            else if (o == 1) { m.update({}); d += "update-empty "; }
            else if (o == 2) { m.reset(); acc.clear(); d += "reset "; }
            else { auto g = final_hex(c, m, size); d += "finalize reset "; c.expectf(g == ref_memo(a.name, acc), "backend-digest", [&] { return cat(d, ": ", g, " expected ", ref_memo(a.name, acc)); }); m.reset(); acc.clear(); }
            c.transition();
        }
        auto g = final_hex(c, m, size);
        c.describe(d);
        c.expectf(g == ref_memo(a.name, acc), "backend-digest", [&] { return cat(d, ": ", g, " expected ", ref_memo(a.name, acc)); });
        c.nontrivial(); c.state(d);
    });
    vp::part("backend-info", "the reported backends and error category", {}, [](ctx& c) {
        c.choose(1);
        auto v = dt::cryptographic_backends();
        c.describe("cryptographic_backends, openssl error category");
        c.expect(v.size() == 1 && v.count("openssl") && v["openssl"] == OPENSSL_VERSION_TEXT, "backends", "the list of backends is wrong");
        auto e = openssl::make_error_code(openssl::evp_errc::unsupported_algorithm);
        c.expect(e.value() == EVP_R_UNSUPPORTED_ALGORITHM && &e.category() == &openssl::openssl_crypto_category() && !e.message().empty() && std::string(e.category().name()) == "openssl-crypto", "error-code", "error code mapping");
        c.nontrivial();
    });
}

// ---------------------------------------------------------------- names
static void names()
{
    vp::part("round-trip", "every enumerator", {}, [](ctx& c) {
        hf f = ALL[c.choose(int(std::size(ALL)))];
        const info* i = find(f);
        c.describe(cat("hash function #", int(f), " ", i ? i->name : "(no name)"));
        bool listed = std::find(dt::supported_hash_functions.begin(), dt::supported_hash_functions.end(), f) != dt::supported_hash_functions.end();
        c.expect(listed == (i != nullptr), "list", "the list of supported functions is wrong");
        c.nontrivial();
        if (!i) {
            bool threw = false; try { (void)dt::to_string(f); } catch (const std::invalid_argument&) { threw = true; }
            c.expect(threw, "invalid", "to_string accepts a function without a name"); return;
        }
        c.expectf(dt::to_string(f) == i->name, "name", [&] { return cat("name of ", i->name, " is ", dt::to_string(f)); });
        c.expect(dt::make_hash_function(i->name) == std::optional(f), "parse", cat("the name ", i->name, " is not recognised"));
        c.expect(dt::is_hash_function_name(i->name), "parse", cat("is_hash_function_name(", i->name, ")"));
        c.expect(dt::supported_hash_functions.size() == INFO.size(), "list", "duplicate or missing entries");
    });
    vp::part("near-names", "every name with every single-character deletion, replacement, insertion, case change and concatenation; all strings up to length 3", {}, [](ctx& c) {
        static const std::string alpha = std::string("abdehiklmoprswMS_0123456789- \0", 31) + "\xff";
        std::string s;
        int kind = c.choose(6);
        if (kind == 5) { int n = c.choose(4); for (int k = 0; k < n; ++k) s += alpha[std::size_t(c.choose(int(alpha.size())))]; }
        else {
            std::string n = INFO[std::size_t(c.choose(int(INFO.size())))].name;
            if (kind == 0) { n.erase(std::size_t(c.choose(int(n.size()))), 1); }
            else if (kind == 1) { n[std::size_t(c.choose(int(n.size())))] = alpha[std::size_t(c.choose(int(alpha.size())))]; }
            else if (kind == 2) { n.insert(std::size_t(c.choose(int(n.size()) + 1)), 1, alpha[std::size_t(c.choose(int(alpha.size())))]); }
            else if (kind == 3) { auto& ch = n[std::size_t(c.choose(int(n.size())))]; ch = char(std::toupper(ch)); }
            else { n += INFO[std::size_t(c.choose(int(INFO.size())))].name; }
            s = n;
        }
        c.describe(vp::quote(s));
        const info* e = nullptr; for (auto& i : INFO) if (s == i.name) e = &i;
        auto r = dt::make_hash_function(s);
        c.expectf(r.has_value() == (e != nullptr), "parse", [&] { return cat("make_hash_function(", vp::quote(s), ") ", r ? "accepts it" : "rejects it"); });
        if (e) c.expectf(*r == e->f, "parse", [&] { return cat(vp::quote(s), " gives the wrong function"); });
        c.expectf(dt::is_hash_function_name(s) == (e != nullptr), "is-name", [&] { return cat("is_hash_function_name(", vp::quote(s), ") is wrong"); });
        c.nontrivial(); c.state(s);
    });
}

// ---------------------------------------------------------------- hash values
static const unsigned char BV[] = {0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff};
template <class H> static void hash_value(ctx& c, const std::string& a, const std::string& b)
{
    constexpr std::size_t N = H::size_bytes;
    c.expect(H::size_bits == 8 * N && H::size_hex == 2 * N && H::size() == N, "sizes", "size constants");
    H x{std::string_view(a)}, y{std::string_view(b)};
    auto same = [&](const H& h, const std::string& v, const char* how) {
        c.expectf(hex(std::span<const std::byte>(h)) == hex(v), "content", [&] { return cat("hash built from ", how, " holds ", hex(std::span<const std::byte>(h)), ", expected ", hex(v)); });
        c.expectf(std::string(std::string_view(h)) == v, "view", [&] { return cat("string_view of a hash built from ", how); });
        c.expectf(h.hex_string() == hex(v), "hex", [&] { return cat("hex_string is ", h.hex_string(), ", expected ", hex(v)); });
        c.expect(std::equal(h.begin(), h.end(), bytes(v).begin(), bytes(v).end()) && h.data() == &*h.begin(), "iterators", "begin/end/data");
        auto hm = h;
        c.expect(std::equal(hm.begin(), hm.end(), bytes(v).begin(), bytes(v).end()) && hm.data() == &*hm.begin(), "iterators", "begin/end/data of a modifiable hash");
    };
    same(x, a, "text");
    same(H{std::span<const std::byte>(bytes(a))}, a, "bytes");
    same(H{std::span<const char>(a.data(), a.size())}, a, "characters");
    std::array<std::byte, N> arr; std::copy(bytes(a).begin(), bytes(a).end(), arr.begin());
    same(H{arr}, a, "array");
    same(dt::make_hash_from_hex<H>(hex(a)), a, "hexadecimal text");
    std::string up = hex(a); for (auto& ch : up) ch = char(std::toupper(ch));
    same(dt::make_hash_from_hex<H>(up), a, "upper-case hexadecimal text");
    H z = x; same(z, a, "copy"); z = y; same(z, b, "assignment");
    H zero{}; same(zero, std::string(N, 0), "default construction");
    { H w = x; w.data()[N - 1] = std::byte(0x5a); std::string e = a; e[N - 1] = 0x5a; same(w, e, "writing through data()"); }
    int cmp = std::memcmp(a.data(), b.data(), N); cmp = (cmp > 0) - (cmp < 0);
    c.expectf((x == y) == (cmp == 0) && (x != y) == (cmp != 0), "equality", [&] { return cat(hex(a), " == ", hex(b), " gives ", x == y); });
    c.expectf((x < y) == (cmp < 0) && (x > y) == (cmp > 0) && (x <= y) == (cmp <= 0) && (x >= y) == (cmp >= 0), "order", [&] { return cat("order of ", hex(a), " and ", hex(b)); });
    if (cmp == 0) c.expect(std::hash<H>{}(x) == std::hash<H>{}(y), "std-hash", "equal hashes have different std::hash");
    c.expect(std::hash<H>{}(x) == std::hash<H>{}(H{arr}), "std-hash", "std::hash is not a function of the value");
}
template <class H> static void bad_sizes(ctx& c, std::size_t n)
{
    std::string s = message(n);
    auto throws = [&](auto fn) { try { fn(); return false; } catch (const std::invalid_argument&) { return true; } };
    bool ok = n == H::size_bytes;
    c.expect(throws([&] { H h{std::string_view(s)}; }) == !ok, "size-check", cat("text of ", n, " bytes for a ", H::size_bytes, " byte hash"));
    c.expect(throws([&] { H h{bytes(s)}; }) == !ok, "size-check", cat("span of ", n, " bytes for a ", H::size_bytes, " byte hash"));
    for (int extra = 0; extra < 2; ++extra) {
        std::string hx = hex(s) + (extra ? "a" : "");
        c.expect(throws([&] { dt::make_hash_from_hex<H>(hx); }) == !(ok && !extra), "size-check", cat("hexadecimal text of ", hx.size(), " characters for a ", H::size_bytes, " byte hash"));
    }
    if (ok) {
        for (std::size_t k = 0; k < 2 * n; ++k) for (char bad : {'g', '/', ':', 'G', '@', '`', ' ', '\0', '\xff', '-'}) {
            std::string hx = hex(s); hx[k] = bad;
            c.expect(throws([&] { dt::make_hash_from_hex<H>(hx); }), "hex-check", cat("hexadecimal text with ", vp::quote(std::string(1, bad)), " at ", k));
        }
    }
}
static void hash_values()
{
    vp::part("two-byte-values", "all pairs of two-byte values over boundary bytes", {}, [](ctx& c) {
        std::string a, b; for (int i = 0; i < 2; ++i) { a += char(BV[c.choose(6)]); } for (int i = 0; i < 2; ++i) b += char(BV[c.choose(6)]);
        c.describe(cat(hex(a), " ", hex(b)));
        hash_value<dt::basic_hash<2>>(c, a, b);
        c.nontrivial(); c.state(a); c.transition();
    });
    vp::part("typed-values", "sha1, sha256, md5, sha3_384 and sha512 values differing at any one position by any boundary bytes", {}, [](ctx& c) {
        int t = c.choose(5); static const std::size_t sz[] = {20, 32, 16, 48, 64};
        std::string a = message(sz[t]), b = a;
        std::size_t p = std::size_t(c.choose(int(sz[t])));
        a[p] = char(BV[c.choose(6)]); b[p] = char(BV[c.choose(6)]);
        if (p + 1 < sz[t] && c.flag()) { a[sz[t] - 1] = 0x10; b[sz[t] - 1] = 0x20; }
        c.describe(cat(hex(a), " ", hex(b)));
        switch (t) {
            case 0: hash_value<dt::sha1_hash>(c, a, b); break; case 1: hash_value<dt::sha256_hash>(c, a, b); break;
            case 2: hash_value<dt::md5_hash>(c, a, b); break; case 3: hash_value<dt::sha3_384_hash>(c, a, b); break; case 4: hash_value<dt::sha512_hash>(c, a, b); break;
        }
        c.nontrivial(); c.state(a); c.transition();
    });
    vp::part("sizes", "every input length 0..70 for every digest type, every invalid digit at every position", {}, [](ctx& c) {
        std::size_t n = std::size_t(c.choose(71));
        c.describe(cat("inputs of ", n, " bytes"));
        std::apply([&](auto... h) { (bad_sizes<decltype(h)>(c, n), ...); }, dt::hash_types{});
        bad_sizes<dt::basic_hash<1>>(c, n);
        c.nontrivial(); c.state(n); c.transition();
    });
    vp::part("types", "every digest type names its algorithm and has its size", {}, [](ctx& c) {
        c.choose(1); c.describe("digest types");
        std::size_t k = 0;
        std::apply([&](auto... h) { (([&] { c.expect(decltype(h)::algorithm == INFO[k].f && decltype(h)::size_bytes == INFO[k].size, "types", cat("digest type of ", INFO[k].name, " has ", decltype(h)::size_bytes, " bytes")); ++k; }()), ...); }, dt::hash_types{});
        c.expect(k == INFO.size(), "types", "number of digest types"); c.nontrivial();
    });
}

// ---------------------------------------------------------------- checksums
static std::string val(const dt::checksum& s) { return hex(s.value()); }
static void checksums()
{
    vp::part("factory", "every name and function, every value length 0..66, text, bytes and hexadecimal", {}, [](ctx& c) {
        int k = c.choose(int(INFO.size()) + 5); std::size_t n = std::size_t(c.choose(67));
        static const char* other[] = {"", "md2", "none", "SHA1", "sha-1"};
        const info* i = k < int(INFO.size()) ? &INFO[std::size_t(k)] : nullptr;
        std::string key = i ? i->name : other[std::size_t(k) - INFO.size()], v = message(n);
        c.describe(cat("checksum ", vp::quote(key), " with ", n, " bytes"));
        bool fits = !i || n == i->size;
        auto check = [&](const char* how, auto make, bool expect_ok) {
            std::unique_ptr<dt::checksum> s; bool threw = false;
            try { s = make(); } catch (const std::invalid_argument&) { threw = true; }
            c.expectf(threw == !expect_ok, "size-check", [&] { return cat(how, threw ? ": a valid value is rejected" : ": a value of the wrong size is accepted"); });
            if (!s) return;
            c.expectf(s->name() == key, "name", [&] { return cat(how, ": name is ", s->name()); });
            c.expectf(s->algorithm() == (i ? i->f : hf::none), "algorithm", [&] { return cat(how, ": wrong algorithm"); });
            c.expectf(val(*s) == hex(v) && s->size() == n && s->hex_string() == hex(v), "value", [&] { return cat(how, ": value ", val(*s), ", size ", s->size(), ", expected ", hex(v)); });
            c.transition();
        };
        check("name and bytes", [&] { return dt::make_checksum(key, bytes(v)); }, fits);
        check("name and text", [&] { return dt::make_checksum(key, std::string_view(v)); }, fits);
        check("name and hexadecimal", [&] { return dt::make_checksum_from_hex(key, hex(v)); }, fits);
        if (i) {
            check("function and bytes", [&] { return dt::make_checksum(i->f, bytes(v)); }, fits);
            check("function and text", [&] { return dt::make_checksum(i->f, std::string_view(v)); }, fits);
            check("function and hexadecimal", [&] { return dt::make_checksum_from_hex(i->f, hex(v)); }, fits);
            auto e = dt::make_checksum(key), e2 = dt::make_checksum(i->f);
            c.expect(e->name() == key && e2->name() == key && e->size() == i->size && e2->size() == i->size, "empty", "an unset checksum has the wrong name or size");
            if (fits) { auto sp = e->value(); for (std::size_t q = 0; q < n; ++q) sp[q] = std::byte(v[q]); c.expect(val(*e) == hex(v), "write", "value() is not writable storage"); }
        } else {
            check("generic and bytes", [&] { return std::make_unique<dt::generic_checksum>(key, bytes(v)); }, true);
            check("generic and characters", [&] { return std::make_unique<dt::generic_checksum>(key, std::span<const char>(v.data(), v.size())); }, true);
            auto e = dt::make_checksum(key); c.expect(e->name() == key && e->size() == 0, "empty", "an unset generic checksum has a value");
        }
        auto bad = [&](std::string h) { try { if (i) dt::make_checksum_from_hex(i->f, h); else dt::make_checksum_from_hex(key, h); return false; } catch (const std::exception&) { return true; } };
        c.expect(bad(hex(v) + "a"), "hex-check", "odd hexadecimal text is accepted");
        if (n) { for (std::size_t p : {std::size_t(0), 2 * n - 1}) { auto h = hex(v); h[p] = 'x'; c.expect(bad(h), "hex-check", "a non-hexadecimal digit is accepted"); } }
        c.nontrivial(); c.state(cat(key, n));
    });
    vp::part("unknown-functions", "functions without a checksum type", {}, [](ctx& c) {
        hf f = c.flag() ? hf::none : hf::md2; int how = c.choose(3);
        c.describe(cat("make_checksum(hash_function ", int(f), ")"));
        bool threw = false;
        try { if (how == 0) dt::make_checksum(f); else if (how == 1) dt::make_checksum(f, std::string_view("")); else dt::make_checksum_from_hex(f, ""); } catch (const std::invalid_argument&) { threw = true; }
        c.expect(threw, "unknown", "an unsupported function gets a checksum"); c.nontrivial();
    });
    vp::part("comparison", "all pairs of checksums over names and boundary values", {}, [](ctx& c) {
        std::unique_ptr<dt::checksum> s[2]; std::string nm[2], v[2];
        for (int k = 0; k < 2; ++k) {
            int t = c.choose(4); static const char* names[] = {"md5", "sha1", "custom", "other"}; nm[k] = names[t];
            std::size_t len = t == 0 ? 16 : t == 1 ? 20 : std::size_t(c.choose(4));
            v[k] = std::string(len, 3);
            if (len) { int where = c.choose(3); std::size_t p = where == 0 ? 0 : where == 1 ? len / 2 : len - 1; v[k][p] = char(BV[c.choose(6)]); }
            s[k] = dt::make_checksum(nm[k], std::string_view(v[k]));
        }
        c.describe(cat(nm[0], ":", hex(v[0]), " ", nm[1], ":", hex(v[1])));
        bool eq = nm[0] == nm[1] && v[0] == v[1];
        c.expect((*s[0] == *s[1]) == eq && (*s[0] != *s[1]) == !eq, "equality", "wrong equality of checksums");
        auto o = *s[0] <=> *s[1];
        if (nm[0] != nm[1]) c.expect(o == std::partial_ordering::unordered, "order", "checksums of different kinds are ordered");
        else { int m = v[0].compare(v[1]); c.expect(m < 0 ? o < 0 : m > 0 ? o > 0 : o == 0, "order", "checksum order is not the order of the values"); }
        c.nontrivial(); c.transition();
    });
}

int main(int argc, char** argv)
{
    OSSL_PROVIDER_load(nullptr, "legacy"); OSSL_PROVIDER_load(nullptr, "default");
    vp::init(argc, argv);
    for (auto& i : INFO) { std::string g = ref(i.evp, "abc"); if (g == i.kat1) usable.push_back(i); }
    std::string prop;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    if (prop == "digest-streaming") { digests(); vp::assume("OpenSSL's one-shot EVP_Digest, selected by name and cross-checked against published digests, is the reference"); }
    else if (prop == "hash-names") names();
    else if (prop == "hash-values") hash_values();
    else if (prop == "checksums") checksums();
    else { std::puts("unknown property"); return 2; }
    return vp::finish();
}
