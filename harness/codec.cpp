// hex-codec, percent-codec: exhaustive enumeration of short strings over the full byte
// alphabet and of longer ones over a boundary alphabet, against table-free references.
#include "vp.hpp"
#include "dottorrent/hex.hpp"
#include "dottorrent/percent_encoding.hpp"
#include <cstring>
#include <deque>
#include <list>
#include <sstream>
#include <string>
#include <system_error>
#include <vector>

namespace dt = dottorrent;
using vp::ctx;
using vp::quote;

// ------------------------------------------------------------ reference
static int ref_digit(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static std::string ref_hex(const std::string& b)
{
    std::string r;
    for (unsigned char c : b) { char t[3]; std::snprintf(t, 3, "%02x", c); r += t; }
    return r;
}
static bool ref_unhex(const std::string& s, std::string& out)
{
    out.clear();
    if (s.size() % 2) return false;
    for (std::size_t i = 0; i < s.size(); i += 2) {
        int a = ref_digit((unsigned char)s[i]), b = ref_digit((unsigned char)s[i + 1]);
        if (a < 0 || b < 0) return false;
        out += char(a * 16 + b);
    }
    return true;
}
static bool ref_unreserved(unsigned char c)
{
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '.' || c == '_' || c == '~';
}
static std::string ref_pct(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (ref_unreserved(c)) r += char(c);
        else { char t[4]; std::snprintf(t, 4, "%%%02X", c); r += t; }
    }
    return r;
}
// 0 ok, 1 non-hex, 2 incomplete; `out` receives what precedes the first malformed escape
static int ref_unpct(const std::string& s, std::string& out)
{
    out.clear();
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] != '%') { out += s[i++]; continue; }
        if (i + 1 >= s.size()) return 2;
        if (ref_digit((unsigned char)s[i + 1]) < 0) return 1;
        if (i + 2 >= s.size()) return 2;
        if (ref_digit((unsigned char)s[i + 2]) < 0) return 1;
        out += char(ref_digit((unsigned char)s[i + 1]) * 16 + ref_digit((unsigned char)s[i + 2]));
        i += 3;
    }
    return 0;
}

static std::span<const std::byte> bytes(const std::string& s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }
// exactly sized heap copy, so that ASan sees any over-read
struct exact {
    explicit exact(const std::string& s) : n(s.size()), p(new char[s.size()]) { if (n) std::memcpy(p, s.data(), n); }
    ~exact() { delete[] p; }
    std::string_view sv() const { return {p, n}; }
    std::size_t n; char* p;
};

template <std::size_t N> static void fixed_n(ctx& c, const std::string& s, bool ok, const std::string& val)
{
    exact e(s);
    auto r = dt::from_hexadecimal_string<N>(e.sv());
    bool want = ok && s.size() == 2 * N;
    c.expect(r.has_value() == want, "fixed-accept", vp::cat("from_hexadecimal_string<", N, ">(", quote(s), ") ", r ? "accepted" : "rejected"));
    if (r && N) c.expect(std::memcmp(r->data(), val.data(), N) == 0, "fixed-value", "wrong bytes decoded from " + quote(s));
}

static void check_unhex(ctx& c, const std::string& s)
{
    c.describe("from_hexadecimal_string(" + quote(s) + ")");
    std::string want;
    bool ok = ref_unhex(s, want);
    if (!s.empty()) c.nontrivial();
    c.outcome(ok ? "ok" + std::to_string(want.size()) : "bad");
    fixed_n<0>(c, s, ok, want); fixed_n<1>(c, s, ok, want); fixed_n<2>(c, s, ok, want); fixed_n<3>(c, s, ok, want);
    exact e(s);
    // growing container
    std::vector<std::byte> v; bool threw = false;
    try { dt::from_hexadecimal_string(std::back_inserter(v), e.sv()); } catch (const std::exception&) { threw = true; }
    c.expect(threw == !ok, "iter-accept", quote(s) + (threw ? " rejected" : " accepted") + " by the output-iterator decoder");
    if (!threw) c.expect(v.size() == want.size() && (v.empty() || std::memcmp(v.data(), want.data(), v.size()) == 0), "iter-value", "wrong bytes decoded from " + quote(s));
    else {
        // what was emitted before the error must be a prefix of correctly decoded pairs
        for (std::size_t i = 0; i < v.size(); ++i) {
            std::string one; bool k = ref_unhex(s.substr(2 * i, 2), one);
            c.expect(k && one[0] == char(v[i]), "iter-prefix", "garbage byte emitted before rejecting " + quote(s));
        }
    }
    if (ok) {
        std::deque<std::byte> d(want.size());
        dt::from_hexadecimal_string(d.begin(), e.sv());
        for (std::size_t i = 0; i < want.size(); ++i) c.expect(char(d[i]) == want[i], "iter-advance", "output iterator not advanced for " + quote(s));
        // decoding then encoding gives the lower case form
        auto back = dt::to_hexadecimal_string(bytes(want));
        std::string low = s; for (auto& x : low) x = char(std::tolower((unsigned char)x));
        c.expect(back == low, "reencode", quote(s) + " re-encodes as " + quote(back));
    }
    // pairwise primitive: never touches `out` on failure, exact on success
    if (s.size() == 2) {
        std::byte b{0x5a};
        bool r = dt::detail::hex_to_byte(s[0], s[1], b);
        c.expect(r == ok, "pair-accept", "hex_to_byte(" + quote(s) + ")");
        c.expect(ok ? char(b) == want[0] : b == std::byte{0x5a}, "pair-value", "hex_to_byte(" + quote(s) + ") wrote a wrong value");
        std::byte b2{0x5a};
        c.expect(dt::detail::hex_to_byte(std::string_view(s), b2) == ok && b2 == b, "pair-sv", "string_view overload differs for " + quote(s));
    }
    c.transition(7);
    c.state(s);
}

static void check_tohex(ctx& c, const std::string& b)
{
    c.describe("to_hexadecimal_string(" + quote(b) + ")");
    if (!b.empty()) c.nontrivial();
    exact e(b);
    std::span<const std::byte> sp{reinterpret_cast<const std::byte*>(e.p), e.n};
    auto want = ref_hex(b);
    auto got = dt::to_hexadecimal_string(sp);
    c.expect(got == want, "encode", quote(b) + " encodes as " + quote(got));
    c.outcome(got.substr(0, 2));
    std::string s2; auto it = dt::to_hexadecimal_string(std::back_inserter(s2), sp); (void)it;
    c.expect(s2 == want, "encode-iter", quote(b) + " encodes as " + quote(s2) + " through an output iterator");
    std::vector<char> buf(2 * b.size() + 1, '#');
    char* p = dt::to_hexadecimal_string(buf.data(), sp);
    c.expect(std::string(buf.data(), 2 * b.size()) == want && buf.back() == '#' && p == buf.data() + 2 * b.size(), "encode-ptr", "pointer output wrong for " + quote(b));
    std::vector<std::byte> back; dt::from_hexadecimal_string(std::back_inserter(back), got);
    c.expect(back.size() == b.size() && (b.empty() || std::memcmp(back.data(), b.data(), b.size()) == 0), "roundtrip", "decode(encode(" + quote(b) + ")) differs");
    std::string up = want; for (auto& x : up) x = char(std::toupper((unsigned char)x));
    back.clear(); dt::from_hexadecimal_string(std::back_inserter(back), up);
    c.expect(back.size() == b.size() && (b.empty() || std::memcmp(back.data(), b.data(), b.size()) == 0), "roundtrip-upper", "upper case digits of " + quote(b) + " decode differently");
    if (b.size() == 1) {
        char o[2], u[2];
        dt::detail::byte_to_hex(sp[0], o); dt::detail::byte_to_hex_uppercase(sp[0], u);
        c.expect(std::string(o, 2) == want && std::string(u, 2) == up, "byte", "byte_to_hex wrong for " + quote(b));
    }
    c.transition(6);
    c.state(b);
}

static std::size_t some_length(ctx& c)
{
    int k = c.choose(701 + 3 * 7);
    if (k <= 700) return std::size_t(k);
    k -= 701;
    return (std::size_t(1) << (10 + k / 3)) + std::size_t(k % 3) - 1;
}
static std::string pattern(std::size_t n, int kind)
{
    std::string s(n, 0); unsigned x = 99;
    for (std::size_t i = 0; i < n; ++i) { x = x * 1103515245 + 12345; s[i] = kind == 0 ? char(x >> 16) : kind == 1 ? char(i * 37) : kind == 2 ? char(0xff) : char('a' + i % 26); }
    return s;
}
static void hex_codec()
{
    vp::part("encode-bytes", "every byte string of length 0..2 over all 256 byte values", {}, [](ctx& c) {
        int n = c.choose(3); std::string s;
        for (int i = 0; i < n; ++i) s += char(c.choose(256));
        check_tohex(c, s);
    });
    static const std::string alpha_q("\x00\x01\x0f\x10\x7f\x80\x9a\xf0\xff", 9);
    vp::part("encode-longer", "every byte string of length 3..N over a boundary alphabet", {}, [](ctx& c) {
        int n = 3 + c.choose(c.thorough() ? 4 : 2); std::string s;
        for (int i = 0; i < n; ++i) s += c.pick(alpha_q);
        check_tohex(c, s);
    });
    vp::part("decode-pairs", "every character string of length 0..2 over all 256 characters", {}, [](ctx& c) {
        int n = c.choose(3); std::string s;
        for (int i = 0; i < n; ++i) s += char(c.choose(256));
        check_unhex(c, s);
    });
    static const std::string al("\x00/09:@AFG`afg-+ x\x80\xe1\xff", 20);
    vp::part("decode-boundary", "every string of length 3..N over the characters around the digit ranges", {}, [](ctx& c) {
        int n = 3 + c.choose(c.thorough() ? 3 : 2); std::string s;
        for (int i = 0; i < n; ++i) s += c.pick(al);
        check_unhex(c, s);
    });
    static const std::string al6("0fFg-", 5);
    vp::part("decode-long", "every string of length 6..N over {0,f,F,g,-}", {}, [](ctx& c) {
        int n = 6 + c.choose(c.thorough() ? 3 : 1); std::string s;
        for (int i = 0; i < n; ++i) s += c.pick(al6);
        check_unhex(c, s);
    });
    vp::part("encode-lengths", "byte strings of every length 0..700 and around every power of two up to 64 KiB, four contents", {}, [](ctx& c) { check_tohex(c, pattern(some_length(c), c.choose(4))); });
    vp::part("decode-lengths", "texts of every length 0..700 and around every power of two up to 64 KiB, valid in lower, upper and mixed case", {}, [](ctx& c) {
        std::size_t n = some_length(c); int k = c.choose(3);
        auto s = ref_hex(pattern((n + 1) / 2, 0)).substr(0, n);
        for (std::size_t i = 0; i < n; ++i) if (k == 1 || (k == 2 && i % 3 == 0)) s[i] = char(std::toupper((unsigned char)s[i]));
        check_unhex(c, s);
    });
    vp::part("decode-position", "texts of 2..140 digits with one wrong character at every position; digests of 20, 32 and 64 bytes of every length 0..140", {}, [](ctx& c) {
        std::size_t n = std::size_t(c.choose(141));
        static const std::string wrong("g/:@G`x \0\x80\xff", 11);
        std::size_t at = std::size_t(c.choose(int(n) + 1));
        auto s = ref_hex(pattern((n + 1) / 2, 1)).substr(0, n);
        if (at < n) s[at] = c.pick(wrong);
        check_unhex(c, s);
        std::string v; bool ok = ref_unhex(s, v);
        fixed_n<20>(c, s, ok, v); fixed_n<32>(c, s, ok, v); fixed_n<64>(c, s, ok, v); fixed_n<70>(c, s, ok, v);
    });
}

// ------------------------------------------------------------ percent
static void check_pct_encode(ctx& c, const std::string& s)
{
    c.describe("percent_encode(" + quote(s) + ")");
    exact e(s);
    auto want = ref_pct(s);
    if (want != s) c.nontrivial();
    auto got = dt::detail::percent_encode(e.sv());
    c.expect(got == want, "encode", quote(s) + " encodes as " + quote(got));
    std::string s2; dt::detail::percent_encode(e.sv().begin(), e.sv().end(), std::back_inserter(s2));
    c.expect(s2 == want, "encode-iter", "iterator form differs for " + quote(s));
    std::vector<char> buf(want.size() + 1, '#');
    dt::detail::percent_encode(e.sv().begin(), e.sv().end(), buf.data());
    c.expect(std::string(buf.data(), want.size()) == want && buf.back() == '#', "encode-ptr", "pointer output wrong for " + quote(s));
    bool clean = true; for (unsigned char x : got) clean &= ref_unreserved(x) || x == '%';
    c.expect(clean, "alphabet", "encoded text of " + quote(s) + " contains a reserved character");
    exact g(got);
    auto back = dt::detail::percent_decode(g.sv());
    c.expect(back == s, "roundtrip", "decode(encode(" + quote(s) + ")) = " + quote(back));
    std::string b2; auto st = dt::detail::percent_decode(g.sv().begin(), g.sv().end(), std::back_inserter(b2));
    c.expect(st == dt::detail::percent_decode_status::success && b2 == s, "roundtrip-status", "decoding the encoding of " + quote(s) + " reports an error");
    c.transition(5); c.state(s); c.outcome(got);
}
static void check_pct_decode(ctx& c, const std::string& s)
{
    c.describe("percent_decode(" + quote(s) + ")");
    std::string want; int st = ref_unpct(s, want);
    if (s.find('%') != std::string::npos) c.nontrivial();
    exact e(s);
    std::string got;
    auto r = dt::detail::percent_decode(e.sv().begin(), e.sv().end(), std::back_inserter(got));
    c.expect((r == dt::detail::percent_decode_status::success) == (st == 0), "decode-accept", quote(s) + vp::cat(" reported status ", int(r)));
    c.expect(int(r) == st, "decode-status", quote(s) + vp::cat(" reported status ", int(r), ", expected ", st));
    if (st == 0) c.expect(got == want, "decode-value", quote(s) + " decodes as " + quote(got));
    else c.expect(want.compare(0, got.size(), got) == 0, "decode-garbage", quote(s) + " emits " + quote(got) + " before the malformed escape");
    auto g2 = dt::detail::percent_decode(e.sv());
    if (st == 0) c.expect(g2 == want, "decode-string", quote(s) + " decodes as " + quote(g2));
    else c.expect(want.compare(0, g2.size(), g2) == 0, "decode-garbage", quote(s) + " decodes as " + quote(g2));
    // lower- and upper-case escapes are equivalent
    std::string lo = s; for (auto& x : lo) x = char(std::tolower((unsigned char)x));
    // forward (non random access) iterators
    std::list<char> l(s.begin(), s.end()); std::string g3;
    auto r3 = dt::detail::percent_decode(l.begin(), l.end(), std::back_inserter(g3));
    c.expect(r3 == r && g3 == got, "decode-iter", "result depends on the iterator category for " + quote(s));
    if (st == 0) { // pointer output
        std::vector<char> buf(want.size() + 1, '#');
        dt::detail::percent_decode(e.sv().begin(), e.sv().end(), buf.data());
        c.expect(std::string(buf.data(), want.size()) == want && buf.back() == '#', "decode-ptr", "pointer output wrong for " + quote(s));
    }
    c.transition(4); c.state(s); c.outcome(vp::cat(st, want));
}
static void percent_codec()
{
    vp::part("classify", "every character", {}, [](ctx& c) {
        char x = char(c.choose(256)); unsigned char u = (unsigned char)x;
        c.describe("character " + quote(std::string(1, x)));
        c.nontrivial();
        bool num = u >= '0' && u <= '9', al = (u >= 'a' && u <= 'z') || (u >= 'A' && u <= 'Z');
        c.expect(dt::detail::is_numeric(x) == num, "is_numeric", "wrong class");
        c.expect(dt::detail::is_alpha(x) == al, "is_alpha", "wrong class");
        c.expect(dt::detail::is_alphanumerical(x) == (num || al), "is_alphanumerical", "wrong class");
        c.expect(dt::detail::is_unreserved(x) == ref_unreserved(u), "is_unreserved", "wrong class");
        c.expect(dt::detail::is_reserved_character(x) == (u != 0 && std::strchr("!#$&'()*+,/:;=?@[]", u) != nullptr), "is_reserved", "wrong class");
        char o[3] = {'#', '#', '#'}; auto n = dt::detail::percent_encode_char(x, o);
        c.expect(std::string(o, n) == ref_pct(std::string(1, x)), "encode_char", "wrong encoding");
        c.transition(6); c.state(u + 1);
    });
    vp::part("encode-bytes", "every byte string of length 0..2 over all 256 byte values", {}, [](ctx& c) {
        int n = c.choose(3); std::string s; for (int i = 0; i < n; ++i) s += char(c.choose(256));
        check_pct_encode(c, s);
    });
    static const std::string ae("\x00%/09:@AZ[`az{-._~+ &=\x7f\x80\xff", 26);
    vp::part("encode-longer", "every string of length 3..N over a boundary alphabet", {}, [](ctx& c) {
        int n = 3 + c.choose(c.thorough() ? 2 : 1); std::string s; for (int i = 0; i < n; ++i) s += c.pick(ae);
        check_pct_encode(c, s);
    });
    vp::part("decode-escape", "'%' followed by every pair of characters, alone, prefixed and suffixed", {}, [](ctx& c) {
        std::string s; int form = c.choose(4);
        if (form & 1) s += "a";
        s += '%'; s += char(c.choose(256)); s += char(c.choose(256));
        if (form & 2) s += "b";
        check_pct_decode(c, s);
    });
    static const std::string ad("%0aFg+~\xff", 8);
    vp::part("decode-boundary", "every string of length 0..N over {%,0,a,F,g,+,~,0xff}", {}, [](ctx& c) {
        int n = c.choose(c.thorough() ? 9 : 7); std::string s; for (int i = 0; i < n; ++i) s += c.pick(ad);
        check_pct_decode(c, s);
    });
    vp::part("encode-lengths", "texts of every length 0..700 and around every power of two up to 64 KiB, four contents", {}, [](ctx& c) { check_pct_encode(c, pattern(some_length(c), c.choose(4))); });
    vp::part("decode-lengths", "encoded texts of every length 0..700 and around every power of two up to 64 KiB, cut off at every such length", {}, [](ctx& c) {
        std::size_t n = some_length(c); int k = c.choose(3);
        auto s = ref_pct(pattern(n, k == 0 ? 0 : k == 1 ? 2 : 3)).substr(0, n);
        check_pct_decode(c, s);
    });
    vp::part("decode-position", "long texts with one well-formed or malformed escape at every position", {}, [](ctx& c) {
        std::size_t n = std::size_t(c.choose(140)), at = std::size_t(c.choose(int(n) + 1));
        static const std::vector<std::string> esc{"%41", "%4", "%", "%g0", "%0g", "%%41", "%2F", "%c3%a9"};
        std::string s = pattern(n, 3); s.insert(at, c.pick(esc));
        check_pct_decode(c, s);
    });
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::string prop;
    for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") prop = argv[i + 1];
    if (prop == "hex-codec") hex_codec();
    else if (prop == "percent-codec") percent_codec();
    else { std::puts("unknown property"); return 2; }
    return vp::finish();
}
