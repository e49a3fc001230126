// Small value types: flag sets, DHT nodes, sizes, errors, aligned buffers.
#include "vp.hpp"
#include <cerrno>
#include <gsl-lite/gsl-lite.hpp>
#include "dottorrent/general.hpp"
#include "dottorrent/dht_node.hpp"
#include "dottorrent/error.hpp"
#include "dottorrent/literals.hpp"
#include "dottorrent/utils.hpp"
#include "dottorrent/data_chunk.hpp"
#include "dottorrent/file_progress_data.hpp"
#include <malloc.h>
#include <limits>
#include <set>
using vp::ctx;
using vp::cat;
namespace dt = dottorrent;

// ---------------------------------------------------------------- flags
enum class u8flags : std::uint8_t {};
enum class i8flags : std::int8_t {};
enum class u64flags : std::uint64_t {};
enum class i32flags : int {};
enum class u16flags : std::uint16_t {};
enum class plain_enum { a, b };
DOTTORRENT_ENABLE_BITMASK_OPERATORS(u8flags)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(i8flags)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(u64flags)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(i32flags)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(u16flags)
template <class E> concept has_or = requires(E a, E b) { a | b; };
template <class E> concept has_not = requires(E a) { ~a; };
template <class E> concept has_and_assign = requires(E a, E b) { a &= b; };

template <class E> static void bit_ops(ctx& c, std::uint64_t ra, std::uint64_t rb)
{
    using namespace dt;
    using T = std::underlying_type_t<E>;
    T a = T(ra), b = T(rb); E x = E(a), y = E(b);
    auto say = [&](const char* op) { return cat(op, " of ", ra, " and ", rb); };
    c.expectf(T(x | y) == T(a | b), "or", [&] { return say("|"); });
    c.expectf(T(x & y) == T(a & b), "and", [&] { return say("&"); });
    c.expectf(T(x ^ y) == T(a ^ b), "xor", [&] { return say("^"); });
    c.expectf(T(~x) == T(~a), "not", [&] { return say("~"); });
    E z = x; E& r1 = (z |= y); c.expectf(&r1 == &z && T(z) == T(a | b) && T(y) == b, "or-assign", [&] { return say("|="); });
    z = x; E& r2 = (z &= y); c.expectf(&r2 == &z && T(z) == T(a & b) && T(y) == b, "and-assign", [&] { return say("&="); });
    z = x; E& r3 = (z ^= y); c.expectf(&r3 == &z && T(z) == T(a ^ b) && T(y) == b, "xor-assign", [&] { return say("^="); });
    z = x; z |= z; c.expect(T(z) == a, "self", "x |= x"); z &= z; c.expect(T(z) == a, "self", "x &= x"); z ^= z; c.expect(T(z) == 0, "self", "x ^= x");
    static_assert(std::is_same_v<decltype(x | y), E> && std::is_same_v<decltype(x & y), E> && std::is_same_v<decltype(x ^ y), E> && std::is_same_v<decltype(~x), E>);
    c.transition(8);
}
static void flags()
{
    vp::part("eight-bit", "all pairs of 8-bit flag sets, signed and unsigned", {}, [](ctx& c) {
        int a = c.choose(256);
        c.describe(cat("8-bit flag sets with left operand ", a));
        for (int b = 0; b < 256; ++b) { bit_ops<u8flags>(c, std::uint64_t(a), std::uint64_t(b)); bit_ops<i8flags>(c, std::uint64_t(a), std::uint64_t(b)); }
        c.nontrivial(); c.state(std::uint64_t(a));
    });
    vp::part("wide", "all pairs of single-bit, all-but-one-bit and extreme values of 16, 32 and 64 bit flag sets", {}, [](ctx& c) {
        auto v = [&] { int k = c.choose(132); return k < 64 ? std::uint64_t(1) << k : k < 128 ? ~(std::uint64_t(1) << (k - 64)) : k == 128 ? 0 : k == 129 ? ~std::uint64_t(0) : k == 130 ? 0x5555555555555555u : 0xAAAAAAAAAAAAAAAAu; };
        auto a = v(), b = v();
        c.describe(cat("flag sets ", a, " ", b));
        bit_ops<u64flags>(c, a, b); bit_ops<i32flags>(c, a, b); bit_ops<u16flags>(c, a, b);
        c.nontrivial(); c.state(a * 31 + b);
    });
    vp::part("library-flags", "all pairs of protocol, attribute and option sets; operators exist only for flag enumerations", {}, [](ctx& c) {
        std::uint64_t a = std::uint64_t(c.choose(16)), b = std::uint64_t(c.choose(16));
        c.describe(cat("flag values ", a, " ", b));
        bit_ops<dt::protocol>(c, a & 3, b & 3); bit_ops<dt::file_attributes>(c, a, b); bit_ops<dt::file_options>(c, a & 3, b & 3);
        c.expect(!dt::is_bitmask_enum<plain_enum> && !dt::is_bitmask_enum<dt::file_mode> && dt::is_bitmask_enum<dt::protocol>, "concept", "is_bitmask_enum");
        c.expect(!has_or<plain_enum> && !has_not<plain_enum> && !has_and_assign<plain_enum> && !has_or<dt::file_mode>, "concept", "an ordinary enumeration has flag operators");
        c.expect((dt::protocol::v1 | dt::protocol::v2) == dt::protocol::hybrid && (dt::protocol::hybrid & dt::protocol::v1) == dt::protocol::v1 && (dt::protocol::hybrid ^ dt::protocol::v1) == dt::protocol::v2, "protocol", "hybrid is v1 and v2");
        c.nontrivial();
    });
    vp::part("attribute-text", "all texts of up to 5 letters over the attribute letters and strangers; all attribute sets", {}, [](ctx& c) {
        static const std::string alpha = std::string("xlhpa XL\0", 9) + "\xff";
        int n = c.choose(6); std::string s; unsigned want = 0; bool bad = false;
        for (int i = 0; i < n; ++i) {
            char ch = alpha[std::size_t(c.choose(i < 3 ? int(alpha.size()) : 5))]; s += ch;
            switch (ch) { case 'l': want |= 1; break; case 'x': want |= 2; break; case 'h': want |= 4; break; case 'p': want |= 8; break; default: bad = true; }
        }
        c.describe(cat("attributes ", vp::quote(s)));
        bool threw = false; dt::file_attributes got{};
        try { got = dt::make_file_attributes(s); } catch (const std::invalid_argument&) { threw = true; }
        c.expectf(threw == bad, "accept", [&] { return cat(vp::quote(s), threw ? " is rejected" : " is accepted"); });
        if (!threw) {
            c.expectf(unsigned(got) == want, "parse", [&] { return cat(vp::quote(s), " gives ", int(got)); });
            std::string t = dt::to_string(got);
            std::string letters; if (want & 2) letters += 'x'; if (want & 1) letters += 'l'; if (want & 4) letters += 'h'; if (want & 8) letters += 'p';
            auto u = t, w = letters; std::sort(u.begin(), u.end()); std::sort(w.begin(), w.end());
            c.expectf(u == w, "print", [&] { return cat("attribute set ", want, " prints as ", vp::quote(t)); });
            c.expect(dt::make_file_attributes(t) == got, "round-trip", "attribute text does not round-trip");
        }
        c.nontrivial(); c.state(s); c.transition();
    });
}

// ---------------------------------------------------------------- dht nodes
static void dht()
{
    static const std::vector<std::string> urls = {"", "a", "b", "aa", "ab", "a.b", "router.example.org", "127.0.0.1", "[::1]", "A", std::string("a\0", 2), "\xc3\xa9", "{}", "a:1"};
    static const std::vector<std::uint16_t> ports = {0, 1, 2, 255, 256, 6881, 32767, 32768, 65534, 65535};
    vp::part("nodes", "all pairs of nodes over the address and port sets", {}, [](ctx& c) {
        auto& u1 = c.pick(urls); auto p1 = c.pick(ports); auto& u2 = c.pick(urls); auto p2 = c.pick(ports);
        c.describe(cat(vp::quote(u1), ":", p1, " and ", vp::quote(u2), ":", p2));
        dt::dht_node a(u1, p1), b(u2, p2);
        c.expect(a.url == u1 && a.port == p1, "content", "a node does not hold its address and port");
        c.expect((a == b) == (u1 == u2 && p1 == p2) && (a != b) == !(u1 == u2 && p1 == p2), "equality", "wrong equality");
        auto want = std::tie(u1, p1) <=> std::tie(u2, p2); auto got = a <=> b;
        c.expectf((got < 0) == (want < 0) && (got > 0) == (want > 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0), "order", [&] { return "nodes are not ordered by address, then port"; });
        c.expectf(static_cast<std::string>(a) == u1 + ":" + std::to_string(p1), "text", [&] { return cat("text is ", vp::quote(static_cast<std::string>(a))); });
        const dt::dht_node k = a;
        c.expect(k.url == u1 && k.port == p1 && k == a, "copy", "copy differs");
        c.expect(&get<0>(k) == &k.url && &get<1>(k) == &k.port && &get<0>(a) == &a.url && &get<1>(a) == &a.port, "get", "get<> does not give the members");
        auto& [ru, rp] = k; c.expect(ru == u1 && rp == p1, "binding", "structured binding");
        auto [vu, vq] = a; c.expect(vu == u1 && vq == p1, "binding", "structured binding by value");
        get<0>(a) = u2; get<1>(a) = p2; c.expect(a == b, "get", "get<> on a mutable node");
        dt::dht_node m(std::move(a)); c.expect(m == b, "move", "moved-to node differs");
        dt::dht_node w("x", 9); w = k; c.expect(w == k && k.url == u1, "assign", "assignment"); w = std::move(m); c.expect(w == b, "assign", "move assignment");
        w = w; c.expect(w == b, "assign", "self assignment");
        static_assert(std::tuple_size_v<dt::dht_node> == 2);
        dt::dht_node z{}; c.expect(z.url.empty() && z.port == 0, "default", "a default node is not empty");
        c.nontrivial(); c.state(cat(u1, p1)); c.transition(10);
    });
    vp::part("all-ports", "every port number", {}, [](ctx& c) {
        int hi = c.choose(256); c.describe(cat("ports ", hi * 256, "..", hi * 256 + 255));
        for (int lo = 0; lo < 256; ++lo) {
            auto p = std::uint16_t(hi * 256 + lo); dt::dht_node n("host", p);
            c.expect(n.port == p && static_cast<std::string>(n) == "host:" + std::to_string(p) && n == dt::dht_node("host", p), "port", cat("port ", p));
            if (p) c.expect(dt::dht_node("host", std::uint16_t(p - 1)) < n && n != dt::dht_node("host", std::uint16_t(p - 1)), "port-order", cat("port ", p)); c.transition();
        }
        c.nontrivial(); c.state(std::uint64_t(hi));
    });
}

// ---------------------------------------------------------------- sizes
static void sizes()
{
    using u64 = unsigned long long;
    using namespace dt::literals;
    vp::part("literals", "values 0..4096 and every value around a power of two whose product fits", {}, [](ctx& c) {
        u64 v = 0;
        if (c.flag()) { int k = c.choose(64), d = c.choose(3) - 1; v = (u64(1) << k) + u64(d); } else v = u64(c.choose(4097));
        c.describe(cat("size literal of ", v));
        auto chk = [&](const char* n, std::size_t got, u64 mul) {
            u64 want; if (__builtin_mul_overflow(v, mul, &want)) return;
            c.expectf(got == want, "literal", [&] { return cat(v, n, " is ", got, ", expected ", want); }); c.transition();
        };
        chk("_KiB", operator""_KiB(v), 1024ull); chk("_KB", operator""_KB(v), 1000ull); chk("_MiB", operator""_MiB(v), 1048576ull); chk("_MB", operator""_MB(v), 1000000ull);
        chk("_GiB", operator""_GiB(v), 1073741824ull); chk("_GB", operator""_GB(v), 1000000000ull); chk("_TiB", operator""_TiB(v), 1099511627776ull); chk("_TB", operator""_TB(v), 1000000000000ull);
        c.expectf(operator""_bits(v) == v / 8, "literal", [&] { return cat(v, "_bits is ", operator""_bits(v)); });
        static_assert(16_KiB == 16384 && dt::v2_block_size == 16384 && 160_bits == 20);
        c.nontrivial(); c.state(v);
    });
    vp::part("division", "all pairs 0..300 x 1..300 and all pairs around powers of two", {}, [](ctx& c) {
        auto one = [&](u64 x, u64 y) { u64 want = u64((unsigned __int128)(x) / y + ((unsigned __int128)(x) % y != 0)); u64 got = dt::detail::div_ceil(x, y);
            c.expectf(got == want, "div-ceil", [&] { return cat("div_ceil(", x, ", ", y, ") is ", got, ", expected ", want); }); c.transition(); };
        if (c.flag()) { u64 x = u64(c.choose(301)); c.describe(cat("div_ceil of ", x)); for (u64 y = 1; y <= 300; ++y) one(x, y); }
        else { int k = c.choose(64), d = c.choose(3) - 1; u64 x = (u64(1) << k) + u64(d); c.describe(cat("div_ceil of ", x)); for (int j = 0; j < 64; ++j) for (int e = -1; e <= 1; ++e) { u64 y = (u64(1) << j) + u64(e); if (y) one(x, y); } }
        c.nontrivial();
    });
    vp::part("logarithms", "values 0..5000 and around every power of two", {}, [](ctx& c) {
        u64 x = c.flag() ? (u64(1) << c.choose(63)) + u64(c.choose(3) - 1) : u64(c.choose(5001));
        c.describe(cat("logarithm of ", x));
        u64 fl = 0; for (u64 t = x; t > 1; t >>= 1) ++fl;
        c.expectf(dt::detail::log2_floor(x) == fl, "log2-floor", [&] { return cat("log2_floor(", x, ") is ", dt::detail::log2_floor(x)); });
        if (x) { u64 ce = fl + ((x & (x - 1)) ? 1 : 0); c.expectf(dt::detail::log2_ceil(x) == ce, "log2-ceil", [&] { return cat("log2_ceil(", x, ") is ", dt::detail::log2_ceil(x)); }); }
        c.nontrivial(); c.state(x); c.transition(2);
    });
}

// ---------------------------------------------------------------- errors
static void errors()
{
    static const std::vector<std::string> txt = {"", "a", "info", "piece length", "{}", "{0}", "{:d}", "%s", "\"quoted\"", "line\nbreak", "\xc3\xa9", std::string(300, 'x'), "}", "{"};
    vp::part("messages", "all pairs of keys and messages over the text set", {}, [](ctx& c) {
        auto& k = c.pick(txt); auto& m = c.pick(txt);
        c.describe(cat("key ", vp::quote(k), ", message ", vp::quote(m)));
        try { throw dt::parse_error(k, m); }
        catch (const std::runtime_error& e) {
            c.expectf(std::string(e.what()) == "parse error for field \"" + k + "\": " + m, "text", [&] { return cat("message is ", vp::quote(e.what())); });
            c.expect(dynamic_cast<const dt::parse_error*>(&e) != nullptr, "type", "not a parse_error");
        }
        dt::parse_error one(m); c.expect(std::string(one.what()) == m, "text", "single message"); dt::parse_error cp = one; c.expect(std::string(cp.what()) == m, "text", "copied error");
        try { throw dt::bad_torrent_file(m); } catch (const std::runtime_error& e) { c.expect(std::string(e.what()) == m && dynamic_cast<const dt::bad_torrent_file*>(&e), "text", "bad_torrent_file"); }
        bool right = false; try { throw dt::bad_torrent_file(m); } catch (const dt::parse_error&) { } catch (const dt::bad_torrent_file&) { right = true; }
        c.expect(right, "type", "the two error types are confused");
        c.nontrivial(); c.state(k + "|" + m); c.transition(3);
    });
}

// ---------------------------------------------------------------- aligned buffers
// live heap blocks: the allocation functions are replaced by counting ones
static volatile long live_blocks = 0;   // volatile: the compiler knows that free() does not change it
extern "C" {
void* __libc_malloc(std::size_t); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t); void* __libc_memalign(std::size_t, std::size_t); void __libc_free(void*);
static void* counted(void* p) { if (p) live_blocks = live_blocks + 1; return p; }
void* malloc(std::size_t n) { return counted(__libc_malloc(n)); }
void* calloc(std::size_t a, std::size_t b) { return counted(__libc_calloc(a, b)); }
void* realloc(void* p, std::size_t n) { void* r = __libc_realloc(p, n); if (!p) counted(r); else if (!r && n == 0) live_blocks = live_blocks - 1; return r; }
void* aligned_alloc(std::size_t a, std::size_t n) { return counted(__libc_memalign(a, n)); }
void* memalign(std::size_t a, std::size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void** p, std::size_t a, std::size_t n) { void* r = __libc_memalign(a, n); if (!r) return ENOMEM; *p = counted(r); return 0; }
void free(void* p) { if (p) live_blocks = live_blocks - 1; __libc_free(p); }
}
struct odd3 { char c[3]; };
struct big96 { char c[96]; };
struct alignas(64) al64 { char c[64]; };
static int live_objs = 0;
struct tracked { int v; tracked(int v = 0) : v(v) { ++live_objs; } tracked(const tracked& o) : v(o.v) { ++live_objs; } tracked(tracked&& o) noexcept : v(o.v) { o.v = -1; ++live_objs; } tracked& operator=(const tracked&) = default; ~tracked() { --live_objs; } bool operator==(const tracked&) const = default; };

template <class T, std::size_t A> static void alloc_case(ctx& c, std::size_t n1, std::size_t n2)
{
    using al = dt::aligned_allocator<T, A>;
    al a; al b(a);
    c.expect(a == b && !(a != b), "equal", "two stateless allocators differ");
    typename al::template rebind<char>::other r(a); (void)r;
    static_assert(std::is_same_v<typename al::template rebind<char>::other, dt::aligned_allocator<char, A>>);
    T* p = a.allocate(n1); T* q = b.allocate(n2, static_cast<void*>(nullptr));
    for (auto [x, n] : {std::pair{p, n1}, std::pair{q, n2}}) {
        if (n == 0) continue;
        c.expectf(x != nullptr, "null", [&] { return cat("allocate(", n, ") gives nothing"); });
        c.expectf(reinterpret_cast<std::uintptr_t>(x) % A == 0, "alignment", [&] { return cat("allocate(", n, ") of ", sizeof(T), "-byte objects is not aligned to ", A); });
        c.expectf(malloc_usable_size(x) >= n * sizeof(T), "too-small", [&] { return cat("allocate(", n, ") of ", sizeof(T), "-byte objects has ", malloc_usable_size(x), " bytes"); });
    }
    if (n1) std::memset(static_cast<void*>(p), 0x11, n1 * sizeof(T));
    if (n2) std::memset(static_cast<void*>(q), 0x22, n2 * sizeof(T));
    if (n1) { std::string want(n1 * sizeof(T), 0x11); c.expect(std::memcmp(p, want.data(), want.size()) == 0, "overlap", "two allocations overlap"); }
    long before = live_blocks;
    b.deallocate(p, n1); long mid = live_blocks; a.deallocate(q, n2); long after = live_blocks;
    c.expectf(before - mid == (p ? 1 : 0) && mid - after == (q ? 1 : 0), "leak", [&] { return cat("deallocate() of ", n1, " and ", n2, " objects of ", sizeof(T), " bytes frees ", before - mid, " and ", mid - after, " blocks"); });
    c.transition(6);
    if (n1 || n2) return;
    std::size_t mx = a.max_size();
    c.expectf(mx >= 1 && mx <= std::numeric_limits<std::size_t>::max() / sizeof(T), "max-size", [&] { return cat("max_size() is ", mx, " for ", sizeof(T), "-byte objects"); });
    for (std::size_t n : {mx + 1, std::numeric_limits<std::size_t>::max()}) if (n > mx) {
        bool ok = false; T* z = nullptr; try { z = a.allocate(n); } catch (const std::bad_alloc&) { ok = true; } catch (const std::length_error&) { ok = true; }
        if (z) a.deallocate(z, n);
        c.expectf(ok, "overflow", [&] { return cat("allocate(", n, ") of ", sizeof(T), "-byte objects does not fail"); });
    }
    for (std::size_t n : {mx, mx / 2 + 1, (std::size_t(1) << 50) / sizeof(T)}) {
        bool ok = false; T* z = nullptr; try { z = a.allocate(n); } catch (const std::bad_alloc&) { ok = true; } catch (const std::length_error&) { ok = true; }
        if (z) a.deallocate(z, n);
        c.expectf(ok, "out-of-memory", [&] { return cat("allocate(", n, ") of ", sizeof(T), "-byte objects does not fail"); });
    }
    T t{}; const T& ct = t; c.expect(a.address(t) == &t && a.address(ct) == &t, "address", "address()");
}
static void buffers()
{
    bool th = vp::thorough();
    vp::part("allocate", "object sizes 1, 3, 4, 8, 64 and 96, alignments 16 to 4096, all sizes 0..70 and around powers of two, two live allocations", {}, [](ctx& c) {
        int t = c.choose(9);
        std::size_t n1; if (!c.flag()) n1 = std::size_t(c.choose(71)); else { n1 = (std::size_t(1) << (6 + c.choose(10))) + std::size_t(c.choose(3)) - 1; }
        static const std::size_t s2[] = {0, 1, 4096, 16385}; std::size_t n2 = s2[c.choose(4)];
        c.describe(cat("allocate ", n1, " and ", n2, " objects of kind ", t));
        switch (t) {
            case 0: alloc_case<std::byte, 64>(c, n1, n2); break; case 1: alloc_case<odd3, 64>(c, n1, n2); break; case 2: alloc_case<int, 16>(c, n1, n2); break;
            case 3: alloc_case<double, 32>(c, n1, n2); break; case 4: alloc_case<al64, 64>(c, n1, n2); break; case 5: alloc_case<big96, 128>(c, n1, n2); break;
            case 6: alloc_case<std::byte, 4096>(c, n1, n2); break; case 7: alloc_case<std::byte, 512>(c, n1, n2); break; case 8: alloc_case<char, 16>(c, n1, n2); break;
        }
        c.nontrivial(); c.state(cat(t, ",", n1, ",", n2));
    });
    vp::part("chunk-buffers", "every history of vector operations on two chunk buffers, against plain vectors", {}, [th](ctx& c) {
        using vec = dt::data_chunk::data_type;
        std::vector<std::byte> m[2]; std::string d; long off = 0;
        {
        vec v[2];
        auto check = [&] {
            for (int k = 0; k < 2; ++k) {
                c.expectf(v[k].size() == m[k].size() && std::equal(v[k].begin(), v[k].end(), m[k].begin()), "content", [&] { return cat("buffer ", k, " differs after ", d); });
                if (!v[k].empty()) c.expectf(reinterpret_cast<std::uintptr_t>(v[k].data()) % 64 == 0, "alignment", [&] { return cat("buffer ", k, " is not aligned to 64 bytes after ", d); });
            }
            if (!v[0].empty() && !v[1].empty()) c.expectf(v[0].data() != v[1].data(), "shared", [&] { return "two buffers share storage after " + d; });
        };
        int depth = th ? 6 : 5;
        for (int s = 0; s < depth; ++s) {
            int o = c.choose(9), k = o < 6 ? c.choose(2) : 0;
            auto b = std::byte(s + 1);
            switch (o) {
                case 0: d += cat("push ", k, "; "); v[k].push_back(b); m[k].push_back(b); break;
                case 1: d += cat("resize ", k, " 100; "); v[k].resize(100, b); m[k].resize(100, b); break;
                case 2: d += cat("resize ", k, " 1025; "); v[k].resize(1025, b); m[k].resize(1025, b); break;
                case 3: d += cat("clear ", k, "; "); v[k].clear(); m[k].clear(); break;
                case 4: d += cat("shrink ", k, "; "); v[k].shrink_to_fit(); m[k].shrink_to_fit(); break;
                case 5: d += cat("copy to ", k, "; "); { vec t(v[1 - k]); v[k].swap(t); } m[k] = m[1 - k]; break;
                case 6: d += "swap; "; v[0].swap(v[1]); m[0].swap(m[1]); break;
                case 7: d += "move 0 to 1; "; { vec t(std::move(v[0])); v[0].clear(); v[1].swap(t); } m[1] = std::move(m[0]); m[0].clear(); break;
                case 8: d += "insert 0; "; v[0].insert(v[0].begin() + std::ptrdiff_t(v[0].size() / 2), 65, b); m[0].insert(m[0].begin() + std::ptrdiff_t(m[0].size() / 2), 65, b); break;
            }
            c.transition(); check();
        }
        for (auto& x : v) { bool any = x.capacity() != 0; long b0 = live_blocks; { vec t; t.swap(x); } off += b0 - live_blocks - any; }
        }
        c.expectf(off == 0, "leak", [&] { return "a buffer is not freed after " + d; });
        c.describe(d); c.nontrivial(); c.state(d);
    });
    vp::part("elements", "constructed and destroyed elements are balanced in aligned vectors of objects", {}, [](ctx& c) {
        live_objs = 0; std::string d;
        {
            std::vector<tracked, dt::aligned_allocator<tracked, 64>> v; std::vector<int> m;
            for (int s = 0; s < 6; ++s) {
                int o = c.choose(4);
                if (o == 0) { v.push_back(tracked(s)); m.push_back(s); d += "push;"; } else if (o == 1) { v.resize(m.size() + 3); m.resize(m.size() + 3); d += "grow;"; }
                else if (o == 2) { if (m.empty()) break; v.erase(v.begin()); m.erase(m.begin()); d += "erase;"; } else { v.shrink_to_fit(); d += "shrink;"; }
                c.transition();
                c.expect(v.size() == m.size() && live_objs == int(m.size()), "balance", cat(live_objs, " live elements, expected ", m.size(), " after ", d));
                for (std::size_t i = 0; i < m.size(); ++i) c.expect(v[i].v == m[i], "content", "wrong element after " + d);
            }
        }
        c.expect(live_objs == 0, "balance", "elements leak after " + d);
        dt::aligned_allocator<tracked, 64> a; tracked* p = a.allocate(1); a.construct(p, tracked(5)); c.expect(p->v == 5 && live_objs == 1, "construct", "construct()"); a.destroy(p); c.expect(live_objs == 0, "construct", "destroy()"); a.deallocate(p, 1);
        c.describe(d); c.nontrivial(); c.state(d);
    });
    vp::part("chunks", "a default chunk is empty, copies share their data", {}, [](ctx& c) {
        unsigned pi = unsigned(c.choose(3)), fi = unsigned(c.choose(3)); c.describe("data_chunk");
        dt::data_chunk z{}; c.expect(z.piece_index == 0 && z.file_index == 0 && z.data == nullptr, "default", "a default chunk is not empty");
        dt::data_chunk a{pi, fi, std::make_shared<dt::data_chunk::data_type>(3)}; auto b = a; c.expect(b.piece_index == pi && b.file_index == fi && b.data == a.data && a.data.use_count() == 2, "copy", "a copied chunk differs");
        auto m = std::move(b); c.expect(m.piece_index == pi && m.file_index == fi && m.data == a.data && !b.data, "move", "a moved chunk differs");
        dt::file_progress_data f{pi, fi}; c.expect(f.file_index == pi && f.bytes_hashed == fi, "progress", "file_progress_data"); c.nontrivial();
    });
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::string prop;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    if (prop == "flags") flags();
    else if (prop == "dht-node") dht();
    else if (prop == "size-arithmetic") sizes();
    else if (prop == "errors") errors();
    else if (prop == "aligned-buffers") buffers();
    else { std::puts("unknown property"); return 2; }
    return vp::finish();
}
