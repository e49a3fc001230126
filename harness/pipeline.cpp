// The hashing and verification pipeline: reader -> queues -> hashers -> writer/verifier, run with the
// real threads under the controlled scheduler on real files in a scratch directory.  The expected
// digests come from OpenSSL's one-shot functions over the file contents and an independent Merkle model.
#include "vp.hpp"
#include "sched.hpp"
#include "dottorrent/storage_hasher.hpp"
#include "dottorrent/storage_verifier.hpp"
#include "dottorrent/merkle_tree.hpp"
#include "dottorrent/metafile.hpp"
#include "dottorrent/magnet_uri.hpp"
#include <openssl/evp.h>
#include <fstream>
#include <memory>
#include <optional>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using vp::ctx;
using vp::cat;
namespace dt = dottorrent;
namespace fs = std::filesystem;
using std::string;
using std::string_view;
using std::size_t;
constexpr size_t K = 1024, B = 16 * K;
#define UNINSTR __attribute__((no_sanitize("thread"), noinline))

static string evp(const char* name, string_view s)
{
    unsigned char md[EVP_MAX_MD_SIZE]; unsigned n = 0;
    EVP_Digest(s.data(), s.size(), md, &n, EVP_get_digestbyname(name), nullptr);
    return string(reinterpret_cast<char*>(md), n);
}
static string sha1(string_view s) { return evp("SHA1", s); }
static string sha256(string_view s) { return evp("SHA256", s); }
static string hex(string_view s) { string r; for (unsigned char ch : s) { r += "0123456789abcdef"[ch >> 4]; r += "0123456789abcdef"[ch & 15]; } return r; }
template <class H> static string bytes(const H& h) { return string(string_view(h)); }

// ---------------------------------------------------------------- file contents
constexpr size_t MAXF = 26 * B;
/// The content of the file in a slot: no zero bytes, every 16 KiB block of every slot different.
static const string& content(int slot)
{
    static std::map<int, string> m;
    auto& s = m[slot];
    if (s.empty()) { s.resize(MAXF); for (size_t i = 0; i < MAXF; ++i) s[i] = char(1 + (size_t(slot) * 37 + i * 7 + i / 251 * 13 + i / B * 29) % 251); }
    return s;
}
/// A file of the given bytes in the worker's directory, written once per worker.
static void put(const string& dir, const string& name, string_view data)
{
    string p = dir + "/" + name;
    struct stat st;
    if (::stat(p.c_str(), &st) == 0) return;
    std::ofstream o(p, std::ios::binary); o.write(data.data(), std::streamsize(data.size())); o.close();
}
static string data_dir() { static string d; static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); d = vp::worker_dir() + "/data"; fs::create_directories(d); } return d; }

// ---------------------------------------------------------------- reference model
struct item {
    int slot = 0; size_t size = 0; bool pad = false;
    string name;                    // path of the entry
    string disk; bool missing = false;   // what is on disk (only when not pad)
    string want() const { return pad ? string(size, '\0') : content(slot).substr(0, size); }
    /// the bytes a verifier sees: absent bytes read as zero
    string seen() const { if (pad) return string(size, '\0'); string s = missing ? string() : disk.substr(0, size); s.resize(size, '\0'); return s; }
    size_t present() const { return pad ? size : missing ? 0 : std::min(size, disk.size()); }
};
static string v1_stream(const std::vector<item>& v, bool seen) { string s; for (auto& i : v) s += seen ? i.seen() : i.want(); return s; }
static std::vector<string> v1_pieces(string_view s, size_t P) { std::vector<string> r; for (size_t o = 0; o < s.size(); o += P) r.push_back(sha1(s.substr(o, P))); return r; }
struct merkle { string root; std::vector<string> layer; };
static merkle v2_tree(string_view s, size_t P)
{
    std::vector<string> l; for (size_t o = 0; o < s.size(); o += B) l.push_back(sha256(s.substr(o, B)));
    size_t n = 1; while (n < l.size()) n *= 2;
    l.resize(n, string(32, '\0'));
    merkle m;
    size_t span = B, pieces = (s.size() + P - 1) / P;
    for (;;) {
        if (span == P && s.size() > P) m.layer.assign(l.begin(), l.begin() + long(pieces));
        if (l.size() == 1) break;
        std::vector<string> u; for (size_t i = 0; i < l.size(); i += 2) u.push_back(sha256(l[i] + l[i + 1]));
        l = u; span *= 2;
    }
    m.root = l[0];
    return m;
}
static const merkle& want_tree(const item& i, size_t P) { static std::map<std::tuple<int, size_t, size_t>, merkle> m; auto& t = m[{i.slot, i.size, P}]; if (t.root.empty()) t = v2_tree(i.want(), P); return t; }
static dt::sha1_hash h1(const string& s) { return dt::sha1_hash(s); }
static dt::sha256_hash h2(const string& s) { return dt::sha256_hash(s); }

static string show(const std::vector<item>& v)
{
    string r = "[";
    for (auto& i : v) {
        if (r.size() > 1) r += ", ";
        r += cat(i.pad ? "padding " : "", i.size, " bytes");
        if (!i.pad && i.missing) r += " (missing on disk)";
        else if (!i.pad && i.disk.size() != i.size) r += cat(" (", i.disk.size(), " on disk)");
        else if (!i.pad && i.disk != i.want()) r += " (altered on disk)";
    }
    return r + "]";
}
static const char* pname(dt::protocol p) { return p == dt::protocol::v1 ? "v1" : p == dt::protocol::v2 ? "v2" : "hybrid"; }
static item regular(int slot, size_t size)
{
    item i; i.slot = slot; i.size = size; i.name = cat("f", slot, "_", size); i.disk = i.want();
    put(data_dir(), i.name, i.disk);
    return i;
}
static item padding(size_t size) { item i; i.pad = true; i.size = size; i.name = cat(".pad/", size); return i; }
static dt::file_storage make(const std::vector<item>& v, size_t P)
{
    dt::file_storage st;
    st.set_root_directory(data_dir());
    for (auto& i : v) { if (i.pad) st.add_file(dt::make_padding_file_entry(i.size)); else st.add_file(dt::file_entry(fs::path(i.name), i.size)); }
    st.set_piece_size(P);
    return st;
}
/// What the hasher should have made of the storage.
static std::vector<item> aligned(const std::vector<item>& v, size_t P)
{
    std::vector<item> r; size_t off = 0;
    for (auto& i : v) { if (!i.pad && off % P) { r.push_back(padding(P - off % P)); off += r.back().size; } r.push_back(i); off += i.size; }
    // padding is only needed when some later file has to start at a piece boundary
    return r;
}
static void judge_v1(ctx& c, const dt::file_storage& st, const std::vector<item>& v, size_t P)
{
    auto want = v1_pieces(v1_stream(v, false), P);
    c.expectf(st.pieces().size() == want.size(), "piece-count", [&] { return cat(st.pieces().size(), " piece hashes, expected ", want.size()); });
    for (size_t i = 0; i < want.size(); ++i) c.expectf(bytes(st.pieces()[i]) == want[i], "piece-hash", [&] { return cat("hash of piece ", i, " is ", hex(bytes(st.pieces()[i])), ", the SHA-1 of its bytes is ", hex(want[i])); });
}
static void judge_v2(ctx& c, const dt::file_storage& st, const std::vector<item>& v, size_t P)
{
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].pad || v[i].size == 0) continue;
        auto& e = st.at(i); auto& t = want_tree(v[i], P);
        c.expectf(e.has_v2_data(), "no-root", [&] { return cat("file ", i, " has no pieces root"); });
        c.expectf(bytes(e.pieces_root()) == t.root, "root", [&] { return cat("pieces root of file ", i, " is ", hex(bytes(e.pieces_root())), ", expected ", hex(t.root)); });
        c.expectf(e.piece_layer().size() == t.layer.size(), "layer-size", [&] { return cat("file ", i, " has ", e.piece_layer().size(), " piece layer hashes, expected ", t.layer.size()); });
        for (size_t k = 0; k < t.layer.size(); ++k) c.expectf(bytes(e.piece_layer()[k]) == t.layer[k], "layer", [&] { return cat("piece layer hash ", k, " of file ", i, " is wrong"); });
    }
}
static void judge_entries(ctx& c, const dt::file_storage& st, const std::vector<item>& v)
{
    c.expectf(st.file_count() == v.size(), "files", [&] { return cat("the storage has ", st.file_count(), " entries, expected ", v.size()); });
    for (size_t i = 0; i < v.size(); ++i) {
        auto& e = st.at(i);
        c.expectf(e.is_padding_file() == v[i].pad && e.file_size() == v[i].size && (v[i].pad || e.path() == fs::path(v[i].name)), "files", [&] { return cat("entry ", i, " is ", e.path().string(), " of ", e.file_size(), " bytes"); });
    }
}
static void judge(ctx& c, const dt::file_storage& st, const std::vector<item>& v, size_t P, dt::protocol pr)
{
    auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
    judge_entries(c, st, w);
    if (pr != dt::protocol::v2) judge_v1(c, st, w, P);
    else c.expect(st.pieces().empty(), "v1-data", "hashing for v2 leaves v1 piece hashes");
    if (pr != dt::protocol::v1) judge_v2(c, st, w, P);
}
using dt::hash_function;
static const std::vector<std::pair<hash_function, const char*>>& functions()
{
    static const std::vector<std::pair<hash_function, const char*>> f = {{hash_function::md5, "MD5"}, {hash_function::sha1, "SHA1"}, {hash_function::sha256, "SHA256"}, {hash_function::sha512, "SHA512"}};
    return f;
}
static void judge_checksums(ctx& c, const dt::file_storage& st, const std::vector<item>& v, const std::vector<int>& fns)
{
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].pad) continue;
        c.expectf(st.at(i).checksums().size() == fns.size(), "checksum-count", [&] { return cat("file ", i, " has ", st.at(i).checksums().size(), " checksums, expected ", fns.size()); });
        for (int f : fns) {
            auto* k = st.at(i).get_checksum(functions()[size_t(f)].first);
            c.expectf(k != nullptr, "no-checksum", [&] { return cat("file ", i, " has no ", functions()[size_t(f)].second, " checksum"); });
            auto want = evp(functions()[size_t(f)].second, v[i].want());
            auto val = k->value();
            c.expectf(string(reinterpret_cast<const char*>(val.data()), val.size()) == want, "checksum", [&] { return cat(functions()[size_t(f)].second, " of file ", i, " is ", k->hex_string(), ", expected ", hex(want)); });
        }
    }
}
#ifdef DOTTORRENT_USE_ISAL
#include "isal_standin.hpp"
constexpr bool mb = true;
/// The number of lanes and the order in which jobs end are open: any of these.
static void lanes(ctx& c) { static const int L[] = {1, 3, 16}; int k = vp::thorough() ? c.choose(6) : 1 + c.choose(2); isal_standin::lanes = L[k % 3]; isal_standin::order = k < 3 ? k : 2 - k % 3; }
#else
constexpr bool mb = false;
static void lanes(ctx&) {}
#endif
/// One fixed schedule unless a part explores schedules.
static sched::config fixed() { sched::config k; k.delay_bounded = true; k.max_steps = 2000000; return k; }

static const std::vector<size_t>& sizes(size_t P, bool more)
{
    static const std::vector<size_t> a16 = {0, 1, B - 1, B, B + 1, 2 * B, 3 * B + 5}, b16 = {0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5, 4 * B, 7 * B + 1};
    static const std::vector<size_t> a32 = {0, 1, B, B + 1, 2 * B, 2 * B + 1, 4 * B, 6 * B + 7}, b32 = {0, 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 4 * B, 4 * B + 1, 5 * B, 6 * B + 7, 8 * B};
    static const std::vector<size_t> a64 = {0, 1, B + 1, 3 * B, 4 * B, 4 * B + 1, 5 * B + 1, 8 * B, 13 * B + 9};
    if (P == 64 * K) return a64;
    return P == B ? (more ? b16 : a16) : (more ? b32 : a32);
}
static std::vector<item> layout(ctx& c, size_t P, int maxfiles, bool pads)
{
    int n = 1 + c.choose(maxfiles);
    std::vector<item> v;
    auto& S = sizes(P, c.thorough());
    const size_t padsizes[] = {1, P - 1, P, 2 * P + 3};
    for (int i = 0; i < n; ++i) {
        int k = c.choose(int(S.size()) + (pads && i > 0 ? 4 : 0));
        if (k < int(S.size())) v.push_back(regular(i, S[size_t(k)]));
        else v.push_back(padding(padsizes[k - int(S.size())]));
    }
    return v;
}

// ---------------------------------------------------------------- C09..C12: what is hashed
static void run_hasher(ctx& c, dt::file_storage& st, const dt::storage_hasher_options& o)
{
    lanes(c);
    sched::run(c, fixed(), [&] { dt::storage_hasher h(st, o); h.start(); h.wait(); });
}
static void hashes(dt::protocol pr)
{
    bool th = vp::thorough();
    std::vector<size_t> Ps = {B, 32 * K}; if (th) Ps.push_back(64 * K);
    for (size_t P : Ps)
    vp::part(cat("layouts-", P / K, "k"), cat("every storage of up to ", th ? 4 : 3, " files with sizes around the 16 KiB block and piece boundaries, read in blocks of 1 or 2 pieces, hashed as ", pname(pr), "; one schedule"), {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        auto v = layout(c, P, th ? (P == B ? 4 : 3) : 3, false);
        size_t io = P * size_t(1 + c.choose(2)); int threads = 1 + c.choose(th ? 2 : 1);
        auto st = make(v, P);
        c.describe(cat("files ", show(v), ", piece size ", P, ", i/o blocks of ", io, ", ", threads, " hashing thread(s)"));
        run_hasher(c, st, {.protocol_version = pr, .min_io_block_size = io, .threads = size_t(threads)});
        judge(c, st, v, P, pr);
        c.nontrivial(); c.state(show(v));
    });
    vp::part("padding", pr == dt::protocol::hybrid ? "every storage of up to 3 entries where any but the first may be a padding file that does not reach past the end of the piece its file ends in; one schedule" : "every storage of up to 3 entries where any but the first may be a padding file of 1 byte to more than 2 pieces; one schedule", {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        size_t P = c.thorough() && c.flag() ? 32 * K : B;
        auto v = layout(c, P, 3, true);
        bool any = false; for (auto& i : v) any |= i.pad; if (!any) return;
        if (pr == dt::protocol::hybrid) {
            // the paddings of the layout are 1, P - 1, P and more; the larger ones stand for "up to the end of the piece", "one less" and "half way"
            size_t off = 0;
            for (auto& i : v) {
                if (i.pad) {
                    size_t room = off % P ? P - off % P : 0;
                    size_t z = i.size == 1 ? 1 : i.size == P - 1 ? room : i.size == P ? (room ? room - 1 : 0) : room / 2;
                    if (z == 0 || z > room) return;
                    i = padding(z);
                }
                else if (off % P) off += P - off % P;
                off += i.size;
            }
        }
        size_t io = P * size_t(1 + c.choose(2));
        auto st = make(v, P);
        c.describe(cat("files ", show(v), ", piece size ", P, ", i/o blocks of ", io));
        run_hasher(c, st, {.protocol_version = pr, .min_io_block_size = io, .threads = 1});
        judge(c, st, v, P, pr);
        c.nontrivial(); c.state(show(v));
    });
    vp::part("options", "every combination of i/o block size (also smaller than, equal to and no multiple of the piece size), memory limit and number of threads for a fixed set of layouts; one schedule", {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        size_t P = c.flag() ? 64 * K : B;
        static const std::vector<std::vector<size_t>> L = {{5 * B + 3}, {B + 1, 0, 4 * B}, {4 * B, 4 * B}, {1, 9 * B, 1}};
        auto& l = c.pick(L); std::vector<item> v; for (size_t i = 0; i < l.size(); ++i) v.push_back(regular(int(i), l[i]));
        static const std::vector<size_t> ios = {0, 1, B, 20000, 3 * B, 64 * K, 100 * K};
        size_t io = ios[size_t(c.choose(int(ios.size())))];
        int m = c.choose(3); int t = 1 + c.choose(3);
        dt::storage_hasher_options o{.protocol_version = pr, .threads = size_t(t)};
        if (io) o.min_io_block_size = io;
        if (m) o.max_memory = m == 1 ? size_t(1) : 16 * P;
        auto st = make(v, P);
        c.describe(cat("files ", show(v), ", piece size ", P, ", min_io_block_size ", io ? std::to_string(io) : string("unset"), ", max_memory ", o.max_memory ? std::to_string(*o.max_memory) : string("unset"), ", ", t, " threads"));
        run_hasher(c, st, o);
        judge(c, st, v, P, pr);
        c.nontrivial(); c.state(c.choices().size());
    });
    vp::part("rehash", "hashing a storage again, for the same or another protocol version, replaces the result; one schedule", {.bound = 0, .time_limit = 900}, [=](ctx& c) {
        static const std::vector<std::vector<size_t>> L = {{B + 1}, {B + 1, B}, {3 * B, 1, 2 * B}};
        auto& l = c.pick(L); std::vector<item> v; for (size_t i = 0; i < l.size(); ++i) v.push_back(regular(int(i), l[i]));
        size_t P = B;
        auto st = make(v, P);
        c.describe(cat("files ", show(v), " hashed twice as ", pname(pr)));
        run_hasher(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
        run_hasher(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
        judge(c, st, v, P, pr);
        c.nontrivial(); c.state(c.choices().size());
    });
    // unreadable data must not go unnoticed
    vp::part("unreadable", "a file that is missing, shorter than its entry, or not a file, among up to 3 files: hashing reports an error and never a result; one schedule", {.bound = 0, .time_limit = 900}, [=](ctx& c) {
        int n = 1 + c.choose(3), bad = c.choose(n), how = c.choose(4);
        size_t P = B;
        std::vector<item> v; for (int i = 0; i < n; ++i) { static const size_t S[] = {B + 1, 3 * B, 7 * B + 5}; v.push_back(regular(i, S[size_t(c.choose(3))])); }
        static const char* hows[] = {"missing", "one byte shorter than its entry", "empty", "a directory"};
        auto& b = v[size_t(bad)];
        b.name = cat("bad", how, "_", bad, "_", b.size);
        if (how == 1) put(data_dir(), b.name, b.disk.substr(0, b.size - 1));
        if (how == 2) put(data_dir(), b.name, "");
        if (how == 3) fs::create_directories(data_dir() + "/" + b.name);
        c.describe(cat("files ", show(v), ", file ", bad, " is ", hows[how], ", hashed as ", pname(pr)));
        auto st = make(v, P);
        bool threw = false, done = false;
        sched::run(c, fixed(), [&] {
            dt::storage_hasher h(st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
            h.start();
            try { h.wait(); } catch (const std::exception&) { threw = true; }
            done = h.done();
        });
        c.expect(threw, "unnoticed", "wait() reports success though the data could not be read");
        c.expect(done, "status", "done() is false after wait() failed");
        c.nontrivial(); c.state(c.choices().size());
    });
}
static void checksums()
{
    bool th = vp::thorough();
    for (auto pr : {dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid})
    vp::part(cat("checksums-", pname(pr)), "every storage of up to 3 files, with every choice of checksum functions on small sets of layouts; one schedule", {.bound = 0, .time_limit = 1200}, [=](ctx& c) {
        size_t P = B;
        bool all = c.flag();
        std::vector<item> v; std::vector<int> fns;
        if (all) { static const std::vector<std::vector<size_t>> L = {{B}, {0}, {B + 1, 0, 5}, {0, 3 * B, 0}}; auto& l = c.pick(L); for (size_t i = 0; i < l.size(); ++i) v.push_back(regular(int(i), l[i])); for (int i = 0; i < 4; ++i) if (c.flag()) fns.push_back(i); }
        else { v = layout(c, P, 3, false); fns = {th ? c.choose(4) : 2}; }
        size_t io = P * size_t(1 + c.choose(2));
        auto st = make(v, P);
        dt::storage_hasher_options o{.protocol_version = pr, .min_io_block_size = io, .threads = 1};
        for (int f : fns) o.checksums.insert(functions()[size_t(f)].first);
        c.describe(cat("files ", show(v), ", ", fns.size(), " checksum function(s), i/o blocks of ", io));
        run_hasher(c, st, o);
        auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
        judge_checksums(c, st, w, fns);
        judge(c, st, v, P, pr);
        c.nontrivial(); c.state(c.choices().size());
    });
    vp::part("checksums-padding", "v1 storages with padding files; one schedule", {.bound = 0, .time_limit = 1200}, [=](ctx& c) {
        size_t P = B;
        auto v = layout(c, P, 3, true);
        bool any = false; for (auto& i : v) any |= i.pad; if (!any) return;
        auto st = make(v, P);
        c.describe(cat("files ", show(v), ", SHA-256 checksums"));
        run_hasher(c, st, {.protocol_version = dt::protocol::v1, .checksums = {hash_function::sha256}, .min_io_block_size = P, .threads = 1});
        judge_checksums(c, st, v, {2});
        judge_v1(c, st, v, P);
        c.nontrivial(); c.state(c.choices().size());
    });
    vp::part("checksums-again", "a storage hashed again, with the same or other checksum functions, after its files were rewritten with other bytes of the same number; one schedule", {.bound = 0, .time_limit = 1200}, [=](ctx& c) {
        size_t P = B;
        auto pr = c.flag() ? dt::protocol::v1 : c.flag() ? dt::protocol::v2 : dt::protocol::hybrid;
        static const std::vector<std::vector<size_t>> L = {{B + 1}, {5, B}, {3 * B, 1, 2 * B}, {B, 0}};
        auto& l = c.pick(L); int first = c.choose(4), changed = c.choose(int(l.size()) + 1);
        std::vector<item> v; for (size_t i = 0; i < l.size(); ++i) v.push_back(regular(int(i), l[i]));
        for (size_t i = 0; i < v.size(); ++i) { v[i].name = cat("again", getpid(), "_", i); fs::remove(data_dir() + "/" + v[i].name); put(data_dir(), v[i].name, v[i].disk); }
        auto st = make(v, P);
        c.describe(cat("files ", show(v), " hashed as ", pname(pr), " with ", functions()[size_t(first)].second, ", then again with SHA256 ", changed < int(l.size()) ? cat("after file ", changed, " was rewritten") : string("unchanged")));
        run_hasher(c, st, {.protocol_version = pr, .checksums = {functions()[size_t(first)].first}, .min_io_block_size = P, .threads = 1});
        std::vector<item> w = v;
        if (changed < int(l.size())) { auto& i = w[size_t(changed)]; i.slot += 5; i.disk = i.want(); fs::remove(data_dir() + "/" + i.name); put(data_dir(), i.name, i.disk); }
        run_hasher(c, st, {.protocol_version = pr, .checksums = {hash_function::sha256}, .min_io_block_size = P, .threads = 1});
        judge(c, st, w, P, pr);
        auto a = pr == dt::protocol::hybrid ? aligned(w, P) : w;
        for (size_t i = 0; i < a.size(); ++i) {
            if (a[i].pad) continue;
            auto* k = st.at(i).get_checksum(hash_function::sha256);
            c.expectf(k != nullptr, "no-checksum", [&] { return cat("file ", i, " has no SHA256 checksum"); });
            auto val = k->value();
            c.expectf(string(reinterpret_cast<const char*>(val.data()), val.size()) == sha256(a[i].want()), "stale-checksum", [&] { return cat("SHA256 of file ", i, " is not that of its bytes when it was hashed last"); });
        }
        c.nontrivial(); c.state(c.choices().size());
    });
}

// ---------------------------------------------------------------- C13..C15: what is verified
static void alter(ctx& c, item& i, size_t P, int how)
{
    static const char* tag[] = {"", "m", "f", "l", "b", "t", "p", "g", "x"};
    (void)c;
    if (how == 0 || i.pad) return;
    string base = i.want();
    switch (how) {
    case 1: i.missing = true; break;
    case 2: if (!base.empty()) base[0] = char(base[0] ^ 1); break;
    case 3: if (!base.empty()) base.back() = char(base.back() ^ 1); break;
    case 4: if (base.size() > P) base[P] = char(base[P] ^ 1); else base += "x"; break;
    case 5: if (!base.empty()) base.pop_back(); break;
    case 6: if (base.size() > P) base.resize(P); else base.clear(); break;
    case 7: base += content(9).substr(0, 3); break;
    case 8: base += content(9).substr(0, P); break;
    }
    i.disk = base;
    i.name += cat("_", tag[how], P);
    if (!i.missing) put(data_dir(), i.name, base);
}
/// Stores the expected digests of the undamaged files, as a parsed metafile would.
static void fill(dt::file_storage& st, const std::vector<item>& v, size_t P, dt::protocol pr)
{
    if (pr != dt::protocol::v2) { st.allocate_pieces(); auto p = v1_pieces(v1_stream(v, false), P); for (size_t i = 0; i < p.size(); ++i) st.set_piece_hash(i, h1(p[i])); }
    if (pr != dt::protocol::v1) for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].pad || v[i].size == 0) continue;
        auto& t = want_tree(v[i], P);
        st.at(i).set_pieces_root(h2(t.root));
        std::vector<dt::sha256_hash> l; for (auto& x : t.layer) l.push_back(h2(x));
        st.at(i).set_piece_layer(l);
    }
}
/// Expected result: which pieces are complete; for v2 per file.
static std::vector<std::vector<int>> want_map(const std::vector<item>& v, size_t P, bool v1)
{
    std::vector<std::vector<int>> r;
    if (v1) {
        string a = v1_stream(v, false), b = v1_stream(v, true);
        std::vector<char> present; for (auto& i : v) { present.insert(present.end(), i.present(), 1); present.insert(present.end(), i.size - i.present(), 0); }
        std::vector<int> m;
        for (size_t o = 0; o < a.size(); o += P) m.push_back(a.compare(o, P, b, o, P) == 0);
        r.push_back(m);
    } else for (auto& i : v) {
        std::vector<int> m;
        if (!i.pad) { string a = i.want(), b = i.seen(); for (size_t o = 0; o < a.size(); o += P) m.push_back(a.compare(o, P, b, o, P) == 0); }
        r.push_back(m);
    }
    return r;
}
struct verdict { std::vector<std::uint8_t> map; std::vector<double> pct, pct_e; bool threw = false; };
static verdict run_verifier(ctx& c, dt::file_storage& st, const dt::storage_verifier_options& o)
{
    verdict r;
    lanes(c);
    sched::run(c, fixed(), [&] {
        dt::storage_verifier h(st, o); h.start();
        try { h.wait(); } catch (const std::exception&) { r.threw = true; }
        r.map = h.result();
        for (size_t i = 0; i < st.file_count(); ++i) { r.pct.push_back(h.percentage(i)); r.pct_e.push_back(h.percentage(st.at(i))); }
    });
    return r;
}
static string mapstr(const std::vector<int>& v) { string s; for (int x : v) s += char('0' + x); return s; }
static void judge_map(ctx& c, const verdict& r, const std::vector<item>& v, size_t P, bool v1)
{
    auto w = want_map(v, P, v1);
    std::vector<int> flat; for (auto& m : w) flat.insert(flat.end(), m.begin(), m.end());
    std::vector<int> got(r.map.begin(), r.map.end());
    c.expect(!r.threw, "error", "wait() reports an error");
    c.expectf(got == flat, "map", [&] { return cat("result() is ", mapstr(got), ", expected ", mapstr(flat)); });
}
static void judge_pct(ctx& c, const verdict& r, const std::vector<item>& v, size_t P, bool v1)
{
    auto w = want_map(v, P, v1);
    size_t off = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        double want = 100;
        if (v1) {
            if (v[i].size) { size_t a = off / P, b = (off + v[i].size - 1) / P + 1, n = 0; for (size_t k = a; k < b; ++k) n += size_t(w[0][k]); want = double(n) / double(b - a) * 100; }
        } else if (!w[i].empty()) { size_t n = 0; for (int x : w[i]) n += size_t(x); want = double(n) / double(w[i].size()) * 100; }
        off += v[i].size;
        bool skip = v[i].pad;      // no disk presence: its own percentage is not stated
        if (!skip) c.expectf(std::abs(r.pct[i] - want) < 1e-9, "percentage", [&] { return cat("percentage of file ", i, " is ", r.pct[i], ", expected ", want); });
        if (!skip) c.expectf(std::abs(r.pct_e[i] - want) < 1e-9, "percentage", [&] { return cat("percentage of the entry of file ", i, " is ", r.pct_e[i], ", expected ", want); });
        c.expectf(r.pct[i] >= 0 && r.pct[i] <= 100, "range", [&] { return cat("percentage of file ", i, " is ", r.pct[i]); });
    }
}
enum judge_what { judge_result, judge_percentage };
static std::vector<item> damaged(ctx& c, size_t P, int maxfiles, bool pads)
{
    int n = 1 + c.choose(maxfiles);
    std::vector<item> v;
    static const std::vector<size_t> q16 = {0, 1, B, B + 1, 3 * B + 5}, q32 = {0, 1, 2 * B, 2 * B + 1, 6 * B + 7};
    auto& S = P == B ? q16 : q32;
    static const std::vector<int> few = {0, 1, 3, 5}, many = {0, 1, 2, 3, 4, 5, 6, 7, 8};
    auto& H = n == 3 && !c.thorough() ? few : many;
    for (int i = 0; i < n; ++i) {
        int k = c.choose(int(S.size()) + (pads && i > 0 ? 3 : 0));
        if (k < int(S.size())) { v.push_back(regular(i, S[size_t(k)])); alter(c, v.back(), P, c.pick(H)); }
        else { const size_t ps[] = {1, P, 2 * P + 3}; v.push_back(padding(ps[k - int(S.size())])); }
    }
    return v;
}
static void verifies(dt::protocol pr, judge_what what)
{
    bool th = vp::thorough();
    std::vector<size_t> Ps = {B, 32 * K};
    for (size_t P : Ps)
    vp::part(cat(pname(pr), "-", P / K, "k"), cat("every storage of up to ", th ? 3 : 2, " files, each intact, missing, altered in one byte, truncated or too long on disk, checked as ", pname(pr), "; one schedule"), {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        auto v = damaged(c, P, th ? 3 : 2, false);
        size_t io = P * size_t(1 + c.choose(2));
        auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
        auto st = make(w, P); fill(st, w, P, pr);
        c.describe(cat("files ", show(w), ", piece size ", P, ", i/o blocks of ", io, ", verified as ", pname(pr)));
        auto r = run_verifier(c, st, {.protocol_version = c.thorough() && c.flag() ? dt::protocol::none : pr, .min_io_block_size = io, .threads = 1});
        if (what == judge_result) judge_map(c, r, w, P, pr == dt::protocol::v1); else judge_pct(c, r, w, P, pr == dt::protocol::v1);
        c.nontrivial(); c.state(show(w));
    });
    vp::part(cat(pname(pr), "-three"), "storages of exactly 3 files with a smaller set of sizes and damages; one schedule", {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        size_t P = B;
        static const std::vector<size_t> S = {0, 5, B, 2 * B + 1};
        std::vector<item> v;
        for (int i = 0; i < 3; ++i) { v.push_back(regular(i, c.pick(S))); static const std::vector<int> H = {0, 1, 3, 6}; alter(c, v.back(), P, c.pick(H)); }
        auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
        auto st = make(w, P); fill(st, w, P, pr);
        size_t io = P * size_t(1 + c.choose(2));
        c.describe(cat("files ", show(w), ", piece size ", P, ", i/o blocks of ", io, ", verified as ", pname(pr)));
        auto r = run_verifier(c, st, {.protocol_version = pr, .min_io_block_size = io, .threads = 1});
        if (what == judge_result) judge_map(c, r, w, P, pr == dt::protocol::v1); else judge_pct(c, r, w, P, pr == dt::protocol::v1);
        c.nontrivial(); c.state(show(w));
    });
    if (pr == dt::protocol::v1)
    vp::part("v1-padding", "storages with padding files of any size, files intact or damaged; one schedule", {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        size_t P = B;
        auto v = damaged(c, P, th ? 3 : 2, true);
        bool any = false; for (auto& i : v) any |= i.pad; if (!any) return;
        size_t io = P * size_t(1 + c.choose(2));
        auto st = make(v, P); fill(st, v, P, pr);
        c.describe(cat("files ", show(v), ", piece size ", P, ", i/o blocks of ", io));
        auto r = run_verifier(c, st, {.protocol_version = pr, .min_io_block_size = io, .threads = 1});
        if (what == judge_result) judge_map(c, r, v, P, true); else judge_pct(c, r, v, P, true);
        c.nontrivial(); c.state(show(v));
    });
    if (what == judge_percentage)
    vp::part(cat(pname(pr), "-hashed"), "files hashed by the library are complete when verified, every layout of up to 3 files; an entry of another storage is refused; one schedule", {.bound = 0, .time_limit = 900}, [=](ctx& c) {
        size_t P = th && c.flag() ? 32 * K : B;
        auto v = layout(c, P, th ? 3 : 2, false);
        auto st = make(v, P);
        c.describe(cat("files ", show(v), " hashed and then verified as ", pname(pr)));
        run_hasher(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
        auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
        std::vector<double> q; bool refused = false;
        sched::run(c, fixed(), [&] {
            dt::storage_verifier h(st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
            h.start(); h.wait();
            for (size_t i = 0; i < st.file_count(); ++i) q.push_back(h.percentage(i));
            try { h.percentage(dt::file_entry(fs::path("not there"), v[0].size)); } catch (const std::invalid_argument&) { refused = true; }
        });
        for (size_t i = 0; i < w.size(); ++i) if (!w[i].pad) c.expectf(q[i] == 100, "complete", [&] { return cat("percentage of file ", i, " is ", q[i]); });
        c.expect(refused, "refused", "the percentage of an entry that is not in the storage is given");
        c.nontrivial(); c.state(show(w));
    });
    if (what == judge_result) {
        vp::part(cat(pname(pr), "-hash-then-verify"), "files hashed by the library verify completely, for every layout of up to 3 files; one schedule", {.bound = 0, .time_limit = 900}, [=](ctx& c) {
            size_t P = B;
            auto v = layout(c, P, th ? 3 : 2, false);
            auto st = make(v, P);
            c.describe(cat("files ", show(v), " hashed and then verified as ", pname(pr)));
            run_hasher(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
            auto r = run_verifier(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
            auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
            judge_map(c, r, w, P, pr == dt::protocol::v1); judge_pct(c, r, w, P, pr == dt::protocol::v1);
            c.nontrivial(); c.state(show(w));
        });
        vp::part(cat(pname(pr), "-not-a-file"), "a directory in the place of a file: an error or incomplete pieces, never the end of the process; one schedule", {.bound = 0, .time_limit = 900}, [=](ctx& c) {
            size_t P = B; int n = 1 + c.choose(2), bad = c.choose(n);
            std::vector<item> v; for (int i = 0; i < n; ++i) { static const size_t S[] = {B, 2 * B + 5}; v.push_back(regular(i, S[size_t(c.choose(2))])); }
            auto w = pr == dt::protocol::hybrid ? aligned(v, P) : v;
            for (auto& i : w) if (!i.pad && i.slot == bad) { i.name = cat("dir", i.size); fs::create_directories(data_dir() + "/" + i.name); }
            auto st = make(w, P); fill(st, w, P, pr);
            c.describe(cat("files ", show(w), ", file ", bad, " is a directory"));
            auto r = run_verifier(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
            bool all = true; for (auto b : r.map) all &= b == 1;
            c.expect(r.threw || !all, "unnoticed", "every piece is reported complete");
            c.nontrivial(); c.state(c.choices().size());
        });
        vp::part(cat(pname(pr), "-no-root"), "a root directory that does not exist; one schedule", {.bound = 0, .time_limit = 900}, [=](ctx& c) {
            size_t P = B; std::vector<item> v{regular(0, B + 5)};
            auto st = make(v, P); fill(st, v, P, pr);
            string root = data_dir() + "/nowhere"; fs::create_directories(root); st.set_root_directory(root); fs::remove(root);
            c.describe("the root directory does not exist");
            auto r = run_verifier(c, st, {.protocol_version = pr, .min_io_block_size = P, .threads = 1});
            bool all = true; for (auto b : r.map) all &= b == 1;
            c.expect(r.threw || !all, "unnoticed", "every piece is reported complete");
            c.nontrivial(); c.state(c.choices().size());
        });
    }
}

// ---------------------------------------------------------------- C42: from files to a torrent and back
struct source { const char* name; size_t size; bool exec; const char* link; };
static void end_to_end()
{
    bool th = vp::thorough();
    static const std::vector<source> world = {
        {"m", 5, false, nullptr}, {"d/b", B + 1, false, nullptr}, {"d/e/c", 0, false, nullptr}, {"z", 2 * B, true, nullptr}, {"d/l", 0, false, "d/b"}, {"a b", 3 * B + 7, false, nullptr}, {"..q", B - 1, false, nullptr},
    };
    for (auto pr : {dt::protocol::v1, dt::protocol::v2, dt::protocol::hybrid})
    vp::part(pname(pr), cat("every ordered choice of up to ", th ? 4 : 3, " of 7 files (nested, empty, executable, a symlink, odd names), added, hashed, saved, loaded and verified as ", pname(pr), ", first intact and then with each file altered, truncated or removed"), {.bound = 0, .time_limit = 1500}, [=](ctx& c) {
        size_t P = c.flag() ? 32 * K : B; int n = 1 + c.choose(th ? 4 : 3); std::vector<int> pick; std::vector<char> used(world.size(), 0);
        for (int i = 0; i < n; ++i) { int k = c.choose(int(world.size()) - i); for (size_t w = 0; w < world.size(); ++w) if (!used[w] && k-- == 0) { used[w] = 1; pick.push_back(int(w)); break; } }
        int o = c.choose(2); bool sums = c.flag(), single = n == 1 && c.flag() && !(o && world[size_t(pick[0])].link);
        string d; for (int k : pick) d += string(world[size_t(k)].name) + " ";
        c.describe(cat("files ", d, o ? "with attributes and symlinks" : "", sums ? ", checksums" : "", single ? ", single file mode" : "", ", piece size ", P));
        size_t total = 0; for (int k : pick) total += world[size_t(k)].link ? (o ? 0 : B + 1) : world[size_t(k)].size;
        if (total == 0) return;          // nothing to share
        string base = vp::worker_dir() + "/e2e", root = base + "/my torrent"; fs::remove_all(base); fs::create_directories(root + "/d/e");
        auto text = [&](int k) { auto& w = world[size_t(k)]; return w.link ? content(1).substr(0, B + 1) : content(k).substr(0, w.size); };
        auto write = [&](const string& name, const string& data) { std::ofstream f(root + "/" + name, std::ios::binary); f.write(data.data(), std::streamsize(data.size())); };
        auto restore = [&](int k) { auto& w = world[size_t(k)]; if (w.link) { if (!fs::exists(root + "/d/b")) write("d/b", text(1)); if (!fs::is_symlink(root + "/" + w.name)) fs::create_symlink("b", root + "/" + w.name); } else write(w.name, text(k)); if (w.exec) fs::permissions(root + "/" + w.name, fs::perms(0755)); };
        for (int k : pick) restore(k);
        dt::metafile m; m.set_name("my torrent"); m.add_tracker("http://t/1"); m.set_created_by("v"); 
        auto& st = m.storage(); st.set_root_directory(single ? (fs::path(root) / world[size_t(pick[0])].name).parent_path() : fs::path(root));
        std::vector<fs::path> ps; for (int k : pick) ps.push_back(root + "/" + world[size_t(k)].name);
        st.add_files(ps.begin(), ps.end(), o ? dt::file_options::copy_symlinks : dt::file_options::none);
        if (n == 1) st.set_file_mode(single ? dt::file_mode::single : dt::file_mode::multi);
        st.set_piece_size(P);
        dt::storage_hasher_options ho{.protocol_version = pr, .min_io_block_size = P, .threads = 1}; if (sums) ho.checksums.insert(hash_function::md5);
        run_hasher(c, st, ho);
        c.expectf((st.protocol() & pr) == pr, "protocol", [&] { return cat("a storage hashed as ", pname(pr), " reports protocol ", int(st.protocol())); });
        string file = base + "/t.torrent"; std::optional<dt::metafile> loaded; string err;
        dt::save_metafile(file, m, pr);
        try { loaded.emplace(dt::load_metafile(file)); } catch (const std::exception& x) { err = x.what(); }
        c.expectf(bool(loaded), "load", [&] { return "the saved torrent cannot be loaded: " + err; });
        auto& l = loaded->storage();
        // what the torrent should hold
        std::vector<item> v; std::map<string, int> by; for (int k : pick) by[world[size_t(k)].name] = k;
        size_t regular_files = 0, pads = 0;
        for (auto& e : l) {
            item i;
            if (e.is_padding_file()) { i.pad = true; i.size = e.file_size(); ++pads; v.push_back(i); continue; }
            auto it = by.find(single ? string(world[size_t(pick[0])].name) : e.path().string());
            c.expectf(it != by.end(), "files", [&] { return "unknown file " + e.path().string(); });
            auto& w = world[size_t(it->second)]; bool link = o && w.link;
            i.slot = it->second; i.disk = link ? string() : text(it->second); i.size = i.disk.size(); i.name = w.name; ++regular_files;
            c.expectf(e.file_size() == i.size, "files", [&] { return cat(i.name, " has ", e.file_size(), " bytes"); });
            c.expectf(e.is_symlink() == link && (!link || e.symlink_path()->string() == w.link), "symlink", [&] { return i.name + ": the symlink is lost"; });
            c.expectf(e.is_executable() == bool(o && w.exec), "attributes", [&] { return i.name + ": the executable flag differs"; });
            if (pr == dt::protocol::v1 || !link) { auto* k = e.get_checksum(hash_function::md5); if (pr != dt::protocol::hybrid || single || k) c.expectf((k != nullptr) == sums, "checksum", [&] { return i.name + ": md5 checksum"; }); if (k) { auto want = evp("MD5", i.disk); c.expect(string(reinterpret_cast<const char*>(k->value().data()), k->value().size()) == want, "checksum", "the md5 checksum differs"); } }
            v.push_back(i);
        }
        c.expectf(regular_files == pick.size() && (pads == 0 || pr == dt::protocol::hybrid), "files", [&] { return cat(regular_files, " files and ", pads, " padding files are loaded"); });
        c.expect(l.piece_size() == P && l.protocol() == st.protocol() && loaded->name() == (single && pr != dt::protocol::v2 ? fs::path(world[size_t(pick[0])].name).filename().string() : m.name()), "fields", "piece size, protocol or name differ");
        dt::sha1_hash h1{}; dt::sha256_hash h2{}; if (pr != dt::protocol::v2) h1 = dt::info_hash_v1(m); if (pr != dt::protocol::v1) h2 = dt::info_hash_v2(m);
        c.expect((pr == dt::protocol::v2 || h1 == dt::info_hash_v1(*loaded)) && (pr == dt::protocol::v1 || h2 == dt::info_hash_v2(*loaded)), "info-hash", "the info hash of the loaded torrent differs");
        if (pr == st.protocol()) { auto mag = dt::encode_magnet_uri(dt::make_magnet_uri(*loaded, pr)); auto has = [&](const string& h) { return mag.find(h) != string::npos; };
            c.expect((pr == dt::protocol::v2 || has("urn:btih:" + h1.hex_string())) && (pr == dt::protocol::v1 || has("urn:btmh:1220" + h2.hex_string())), "magnet", "the magnet link lacks the info hash"); }
        // verify
        l.set_root_directory(single ? (fs::path(root) / world[size_t(pick[0])].name).parent_path() : fs::path(root));
        auto verify = [&](const char* what) {
            std::vector<item> w = v;
            auto r = run_verifier(c, l, {.protocol_version = dt::protocol::none, .min_io_block_size = P, .threads = 1});
            bool v1 = l.protocol() == dt::protocol::v1;
            // the reference contents are those of the chosen files, not of slots
            string a, b; std::vector<int> want; std::vector<std::vector<int>> per;
            for (auto& i : w) { string x = i.pad ? string(i.size, '\0') : (o && world[size_t(i.slot)].link) ? string() : text(i.slot), y = i.pad ? x : i.missing ? string() : i.disk; y.resize(x.size(), '\0');
                if (v1) { a += x; b += y; } else { per.emplace_back(); if (!i.pad) for (size_t q = 0; q < x.size(); q += P) { per.back().push_back(x.compare(q, P, y, q, P) == 0); want.push_back(per.back().back()); } } }
            if (v1) for (size_t q = 0; q < a.size(); q += P) want.push_back(a.compare(q, P, b, q, P) == 0);
            std::vector<int> got(r.map.begin(), r.map.end());
            c.expectf(!r.threw && got == want, "verify", [&] { return cat(what, ": result() is ", r.threw ? string("an error") : mapstr(got), ", expected ", mapstr(want)); });
            size_t off = 0;
            for (size_t k = 0; k < w.size(); ++k) {
                double p = 100; size_t z = w[k].size;
                if (v1) { if (z) { size_t f = off / P, e = (off + z - 1) / P + 1, g = 0; for (size_t q = f; q < e; ++q) g += size_t(want[q]); p = 100.0 * double(g) / double(e - f); } off += z; }
                else if (!per[k].empty()) { size_t g = 0; for (int q : per[k]) g += size_t(q); p = 100.0 * double(g) / double(per[k].size()); }
                if (!w[k].pad) c.expectf(std::abs(r.pct[k] - p) < 1e-9, "percentage", [&] { return cat(what, ": ", w[k].name, " is at ", r.pct[k], " percent, expected ", p); });
            }
            c.transition();
        };
        verify("intact");
        for (size_t k = 0; k < v.size(); ++k) {
            if (v[k].pad || v[k].size == 0 || (world[size_t(v[k].slot)].link)) continue;
            if (used[4] && !o && string(v[k].name) == "d/b") continue;   // also seen through the link
            auto keep = v[k]; string p = root + "/" + v[k].name;
            for (int how = 0; how < (th ? 4 : 3); ++how) {
                if (how == 0) { v[k].disk.back() = char(v[k].disk.back() ^ 1); write(v[k].name, v[k].disk); }
                else if (how == 1) { v[k].missing = true; fs::remove(p); }
                else if (how == 2) { v[k].disk.resize(v[k].disk.size() / 2); write(v[k].name, v[k].disk); }
                else { v[k].disk[0] = char(v[k].disk[0] ^ 1); write(v[k].name, v[k].disk); }
                verify(how == 0 ? "last byte altered" : how == 1 ? "file removed" : how == 2 ? "file truncated" : "first byte altered");
                v[k] = keep; restore(keep.slot);
            }
        }
        verify("restored");
        c.nontrivial(); c.state(d + pname(pr)); c.outcome(l.file_count());
    });
}

#include "pipeline_sched.inc"
#ifdef DOTTORRENT_USE_ISAL
#include "pipeline_mb.inc"
#endif

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    string prop;
    for (int i = 1; i + 1 < argc; ++i) if (string(argv[i]) == "--prop") prop = argv[i + 1];
    vp::assume("SHA-1, SHA-256, MD5 and SHA-512 of OpenSSL's one-shot functions are the reference digests");
    using dt::protocol;
    // the results also have to be right under other schedules than the first
    auto scheduled = [](protocol pr) { hasher_schedules([pr](const scenario& s) { return s.pr == pr && s.checks == 0; }); };
    if (prop == "v1-hashing") { hashes(protocol::v1); scheduled(protocol::v1); }
    else if (prop == "v2-hashing") { hashes(protocol::v2); scheduled(protocol::v2); }
    else if (prop == "hybrid-hashing") { hashes(protocol::hybrid); scheduled(protocol::hybrid); }
    else if (prop == "file-checksums") { checksums(); hasher_schedules([](const scenario& s) { return s.checks != 0; }); }
    else if (prop == "v1-verification") { verifies(protocol::v1, judge_result); verifier_schedules([](protocol p) { return p == protocol::v1; }); }
    else if (prop == "v2-verification") { verifies(protocol::v2, judge_result); verifies(protocol::hybrid, judge_result); verifier_schedules([](protocol p) { return p != protocol::v1; }); }
    else if (prop == "verified-percentage") { verifies(protocol::v1, judge_percentage); verifies(protocol::v2, judge_percentage); verifies(protocol::hybrid, judge_percentage); }
    else if (prop == "end-to-end") end_to_end();
    else if (prop == "merkle-tree") merkle_schedules();
#ifdef DOTTORRENT_USE_ISAL
    else if (prop == "multi-buffer") multi_buffer();
#endif
    else if (!pipeline_schedules(prop)) { std::puts("unknown property"); return 2; }
    return vp::finish();
}
