// Metafiles: writing, reading, info hashes, editing, malformed input, magnet uris.
// The expected bytes come from an independent bencode model (struct B) built from the field values.
#include "vp.hpp"
#include "dottorrent/metafile.hpp"
#include "dottorrent/metafile_parsing.hpp"
#include "dottorrent/metafile_serialization.hpp"
#include "dottorrent/magnet_uri.hpp"
#include <openssl/sha.h>
#include <openssl/md5.h>
#include <fstream>
#include <sstream>
#include <optional>
#include <limits>
#include <memory>
using vp::ctx;
using vp::cat;
namespace dt = dottorrent;
namespace fs = std::filesystem;
using std::string;
using strs = std::vector<string>;

static string sha1(std::string_view s) { string r(20, 0); SHA1(reinterpret_cast<const unsigned char*>(s.data()), s.size(), reinterpret_cast<unsigned char*>(r.data())); return r; }
static string sha256(std::string_view s) { string r(32, 0); SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), reinterpret_cast<unsigned char*>(r.data())); return r; }
static string hex(std::string_view s) { string r; for (unsigned char ch : s) { r += "0123456789abcdef"[ch >> 4]; r += "0123456789abcdef"[ch & 15]; } return r; }
template <class H> static string bytes(const H& h) { return string(std::string_view(h)); }

// ---------------------------------------------------------------- reference bencode
struct B {
    char t = 'i';   // i s l d
    std::int64_t i = 0;
    string s;
    std::vector<B> l;
    std::map<string, B> d;
    B() = default;
    B(int v) : i(v) {}
    B(std::int64_t v) : i(v) {}
    B(std::size_t v) : i(std::int64_t(v)) {}
    B(const char* v) : t('s'), s(v) {}
    B(string v) : t('s'), s(std::move(v)) {}
    static B list() { B b; b.t = 'l'; return b; }
    static B dict() { B b; b.t = 'd'; return b; }
    static B list(const strs& v) { B b = list(); for (auto& x : v) b.l.push_back(B(x)); return b; }
    B& operator[](const string& k) { return d[k]; }
    bool operator==(const B& o) const { return t == o.t && i == o.i && s == o.s && l == o.l && d == o.d; }
};
static void enc(const B& b, string& o)
{
    switch (b.t) {
    case 'i': o += 'i'; o += std::to_string(b.i); o += 'e'; break;
    case 's': o += std::to_string(b.s.size()); o += ':'; o += b.s; break;
    case 'l': o += 'l'; for (auto& x : b.l) enc(x, o); o += 'e'; break;
    default: o += 'd'; for (auto& [k, v] : b.d) { o += std::to_string(k.size()); o += ':'; o += k; enc(v, o); } o += 'e';
    }
}
static string enc(const B& b) { string o; enc(b, o); return o; }
struct bad {};
/// Strict decoder: canonical integers, sorted unique keys.
static B dec(std::string_view s, std::size_t& p)
{
    auto at = [&](std::size_t q) -> char { if (q >= s.size()) throw bad(); return s[q]; };
    auto num = [&](char end) { bool neg = false; if (at(p) == '-') { neg = true; ++p; } std::size_t st = p; std::uint64_t v = 0; while (at(p) >= '0' && at(p) <= '9') { v = v * 10 + std::uint64_t(at(p) - '0'); ++p; } if (p == st || at(p) != end) throw bad(); if (s[st] == '0' && (p - st > 1 || neg)) throw bad(); ++p; return std::int64_t(neg ? 0 - v : v); };
    char c = at(p);
    if (c == 'i') { ++p; return B(num('e')); }
    if (c == 'l') { B b = B::list(); ++p; while (at(p) != 'e') b.l.push_back(dec(s, p)); ++p; return b; }
    if (c == 'd') { B b = B::dict(); ++p; string last; bool first = true; while (at(p) != 'e') { B k = dec(s, p); if (k.t != 's' || (!first && !(last < k.s))) throw bad(); last = k.s; first = false; b.d.emplace(k.s, dec(s, p)); } ++p; return b; }
    if (c < '0' || c > '9') throw bad();
    auto n = std::size_t(num(':')); if (p + n > s.size()) throw bad(); B b(string(s.substr(p, n))); p += n; return b;
}
static std::optional<B> decode(std::string_view s) { try { std::size_t p = 0; B b = dec(s, p); if (p != s.size()) return std::nullopt; return b; } catch (bad&) { return std::nullopt; } }
/// The bytes of the info dict inside a metafile.
static string info_slice(std::string_view s)
{
    std::size_t p = 1;
    while (p < s.size() && s[p] != 'e') { B k = dec(s, p); std::size_t a = p; dec(s, p); if (k.s == "info") return string(s.substr(a, p - a)); }
    throw bad();
}
/// Lists whose order is not specified are compared as sets.
static B normal(B b)
{
    for (auto k : {"similar", "collections"}) if (auto it = b.d.find(k); it != b.d.end()) std::sort(it->second.l.begin(), it->second.l.end(), [](const B& x, const B& y) { return x.s < y.s; });
    return b;
}

// ---------------------------------------------------------------- abstract metafiles
constexpr std::size_t K = 16384;
struct F {
    strs path; std::size_t size = 0;
    std::optional<string> attr;
    strs link;
    std::map<string, string> sums;
    int id = 0;      // content identity: same id, same root
    bool pad() const { return attr && attr->find('p') != string::npos; }
    bool sym() const { return attr && attr->find('l') != string::npos; }
    string root() const { return sha256("root" + std::to_string(id) + "/" + std::to_string(size)); }
    strs layer(std::size_t piece) const { strs r; if (size > piece) for (std::size_t k = 0; k < (size + piece - 1) / piece; ++k) r.push_back(sha256("layer" + std::to_string(id) + "/" + std::to_string(size) + "/" + std::to_string(k))); return r; }
};
struct M {
    int proto = 1;       // what the storage holds: 1 v1, 2 v2, 3 hybrid
    bool single = false;
    std::size_t piece = K;
    std::vector<F> files;
    string name, root;   // root: name of an existing root directory, "" for none
    bool priv = false, cross = false;
    string source, comment, by;
    std::int64_t date = 0;
    std::vector<strs> trackers;
    strs http, web; std::vector<std::pair<string, int>> nodes;
    strs similar; bool similar_hybrid = false;
    strs collections;
    std::map<string, B> other;

    std::size_t total() const { std::size_t t = 0; for (auto& f : files) t += f.size; return t; }
    std::size_t pieces() const { return (total() + piece - 1) / piece; }
    string piece_hash(std::size_t k) const { return sha1("piece" + std::to_string(k)); }
    std::vector<strs> tiers() const { auto t = trackers; for (auto& x : t) std::sort(x.begin(), x.end()); return t; }
    string out_name(int as) const
    {
        if (single && (as & 1)) return files[0].path.back();
        return name.empty() ? root : name;
    }
};
static fs::path join(const strs& p) { fs::path r; for (auto& x : p) r /= x; return r; }
static dt::sha1_hash h1(const string& s) { return dt::sha1_hash(std::string_view(s)); }
static dt::sha256_hash h2(const string& s) { return dt::sha256_hash(std::string_view(s)); }
static bencode::bvalue to_bvalue(const B& b) { return bencode::decode_value(std::string_view(enc(b))); }

static void fields(B& d, const F& f, bool sums = true)
{
    if (f.attr) { string a; for (char ch : string("xlhp")) if (f.attr->find(ch) != string::npos) a += ch; d["attr"] = B(a); }
    if (f.sym()) d["symlink path"] = B::list(f.link);
    if (sums) for (auto& [k, v] : f.sums) d[k] = B(v);
}
/// The metafile the fields describe, according to BEP-3, -5, -12, -17, -19, -27, -38, -47 and -52.
static B expected(const M& m, int as)
{
    B info = B::dict(), top = B::dict();
    if (as & 1) {
        if (m.single) { info["length"] = B(m.files[0].size); fields(info, m.files[0]); }
        else {
            B l = B::list();
            for (auto& f : m.files) { B d = B::dict(); d["length"] = B(f.size); d["path"] = B::list(f.path); fields(d, f); l.l.push_back(d); }
            info["files"] = l;
        }
        string s; for (std::size_t k = 0; k < m.pieces(); ++k) s += m.piece_hash(k);
        info["pieces"] = B(s);
    }
    if (as & 2) {
        B tree = B::dict(), layers = B::dict();
        for (auto& f : m.files) {
            if (f.pad()) continue;
            B* n = &tree;
            for (auto& p : f.path) { if (!n->d.count(p)) n->d.emplace(p, B::dict()); n = &n->d.at(p); }
            B d = B::dict(); d["length"] = B(f.size); if (f.size) d["pieces root"] = B(f.root());
            fields(d, f, as == 2);
            n->d[""] = d;
            if (f.size > m.piece) { string s; for (auto& x : f.layer(m.piece)) s += x; layers[f.root()] = B(s); }
        }
        info["file tree"] = tree; info["meta version"] = B(2); top["piece layers"] = layers;
    }
    info["name"] = B(m.out_name(as));
    info["piece length"] = B(m.piece);
    if (m.priv) info["private"] = B(1);
    if (!m.source.empty()) info["source"] = B(m.source);
    for (auto& [k, v] : m.other) info[k] = v;
    if (!m.trackers.empty()) {
        auto t = m.tiers(); B l = B::list(); for (auto& x : t) l.l.push_back(B::list(x));
        top["announce"] = B(t[0][0]); top["announce-list"] = l;
    }
    if (!m.comment.empty()) top["comment"] = B(m.comment);
    if (!m.by.empty()) top["created by"] = B(m.by);
    if (m.date) top["creation date"] = B(m.date);
    if (!m.collections.empty()) top["collections"] = B::list(m.collections);
    if (!m.http.empty()) top["httpseeds"] = B::list(m.http);
    if (!m.web.empty()) top["url-list"] = B::list(m.web);
    if (!m.similar.empty()) top["similar"] = B::list(m.similar);
    if (!m.nodes.empty()) { B l = B::list(); for (auto& [h, p] : m.nodes) { B n = B::list(); n.l = {B(h), B(p)}; l.l.push_back(n); } top["nodes"] = l; }
    top["info"] = info;
    return top;
}
static dt::metafile build(const M& m)
{
    dt::metafile r;
    auto& st = r.storage();
    if (!m.root.empty()) { fs::path p = fs::path(vp::worker_dir()) / m.root; fs::create_directories(p); st.set_root_directory(m.root.size() % 2 ? p : p / ""); }
    for (auto& f : m.files) {
        std::optional<dt::file_attributes> a;
        if (f.attr) a = dt::make_file_attributes(*f.attr);
        std::optional<fs::path> ln; if (f.sym()) ln = join(f.link);
        dt::file_entry e(join(f.path), f.size, a, ln);
        for (auto& [k, v] : f.sums) e.add_checksum(dt::make_checksum(k, std::string_view(v)));
        st.add_file(std::move(e));
    }
    st.set_file_mode(m.single ? dt::file_mode::single : dt::file_mode::multi);
    st.set_piece_size(m.piece);
    if (m.proto & 1) { st.allocate_pieces(); for (std::size_t k = 0; k < m.pieces(); ++k) st.set_piece_hash(k, h1(m.piece_hash(k))); }
    if (m.proto & 2) for (std::size_t k = 0; k < m.files.size(); ++k) { auto& f = m.files[k]; if (!f.pad() && f.size) { st[k].set_pieces_root(h2(f.root())); std::vector<dt::sha256_hash> l; for (auto& x : f.layer(m.piece)) l.push_back(h2(x)); st[k].set_piece_layer(l); } }
    r.set_name(m.name); r.set_private(m.priv); r.set_source(m.source); r.set_comment(m.comment); r.set_created_by(m.by);
    r.set_creation_date(std::time_t(m.date));
    for (std::size_t t = 0; t < m.trackers.size(); ++t) for (auto& u : m.trackers[t]) r.add_tracker(u, t);
    for (auto& u : m.http) r.add_http_seed(u);
    for (auto& u : m.web) r.add_web_seed(u);
    for (auto& [h, p] : m.nodes) r.add_dht_node(h, std::uint16_t(p));
    if (m.similar_hybrid) r.add_similar_torrent(dt::info_hash(h1(m.similar[0]), h2(m.similar[1])));
    else for (auto& s : m.similar) r.add_similar_torrent(s.size() == 20 ? dt::info_hash(h1(s)) : dt::info_hash(h2(s)));
    for (auto& u : m.collections) r.add_collection(u);
    for (auto& [k, v] : m.other) r.other_info_fields().insert_or_assign(k, to_bvalue(v));
    r.enable_cross_seeding(m.cross);
    return r;
}
/// Does the metafile `r`, read back, hold what m was written with as protocol `as`?
static void same(ctx& c, const M& m, const dt::metafile& r, int as, const char* how)
{
    auto no = [&](const char* key, const string& msg) { c.fail(key, cat("read by ", how, ": ", msg)); };
    auto& st = r.storage();
    std::vector<F> fs_;
    for (auto& f : m.files) if (!(as == 2 && f.pad())) fs_.push_back(f);
    if (as == 2) std::stable_sort(fs_.begin(), fs_.end(), [](const F& a, const F& b) { return a.path < b.path; });
    if (st.file_count() != fs_.size()) no("files", cat(st.file_count(), " files instead of ", fs_.size()));
    if (as & 1 && !fs_.empty() && (st.file_mode() == dt::file_mode::single) != m.single) no("mode", "another file mode");
    if (st.piece_size() != m.piece) no("piece-size", cat("piece size ", st.piece_size()));
    std::size_t total = 0, regular = 0;
    std::vector<const dt::file_entry*> es; for (auto& e : st) es.push_back(&e);
    if (as == 2) std::stable_sort(es.begin(), es.end(), [](auto* a, auto* b) { strs x, y; for (auto& p : a->path()) x.push_back(p.string()); for (auto& p : b->path()) y.push_back(p.string()); return x < y; });
    for (std::size_t k = 0; k < fs_.size(); ++k) {
        auto& f = fs_[k]; auto& e = *es[k];
        total += f.size; if (!f.pad()) regular += f.size;
        strs path = (m.single && as == 1) ? strs{f.path.back()} : f.path;
        if (e.path() != join(path)) no("path", cat("path ", e.path().string(), " instead of ", join(path).string()));
        if (e.file_size() != f.size) no("size", cat("file ", k, " has ", e.file_size(), " bytes instead of ", f.size));
        bool attr = e.attributes().has_value();
        if (attr != f.attr.has_value() || (attr && *e.attributes() != dt::make_file_attributes(*f.attr))) no("attributes", cat("attributes of file ", k));
        if (e.is_symlink() != f.sym() || (f.sym() && e.symlink_path() != join(f.link))) no("symlink", cat("symlink target of file ", k));
        auto& cs = e.checksums();
        if (cs.size() != f.sums.size()) no("checksums", cat(cs.size(), " checksums instead of ", f.sums.size()));
        for (auto& [n, v] : f.sums) { auto* x = e.get_checksum(n); if (!x || x->name() != n || string(reinterpret_cast<const char*>(x->value().data()), x->value().size()) != v) no("checksums", cat("checksum ", n, " of file ", k)); }
        if (as & 2 && f.size && !f.pad()) {
            if (!e.has_v2_data() || bytes(e.pieces_root()) != f.root()) no("pieces-root", cat("pieces root of file ", k));
            auto l = f.layer(m.piece); auto got = e.piece_layer();
            if (got.size() != l.size()) no("piece-layer", cat("file ", k, " has ", got.size(), " layer hashes instead of ", l.size()));
            for (std::size_t q = 0; q < l.size(); ++q) if (bytes(got[q]) != l[q]) no("piece-layer", cat("layer hash ", q, " of file ", k));
        } else if (e.has_v2_data()) no("pieces-root", cat("file ", k, " has v2 data"));
    }
    if (st.total_file_size() != total || st.total_regular_file_size() != regular || r.total_file_size() != total) no("total", "total size");
    if (as & 1) { auto p = st.pieces(); if (p.size() != m.pieces()) no("pieces", cat(p.size(), " piece hashes instead of ", m.pieces())); for (std::size_t k = 0; k < p.size(); ++k) if (bytes(p[k]) != m.piece_hash(k)) no("pieces", cat("hash of piece ", k)); }
    else if (!st.pieces().empty()) no("pieces", "v1 pieces in a v2 metafile");
    if (r.name() != m.out_name(as)) no("name", cat("name ", vp::quote(r.name()), " instead of ", vp::quote(m.out_name(as))));
    if (r.is_private() != m.priv) no("private", "private flag");
    if (r.source() != m.source) no("source", "source");
    if (r.comment() != m.comment) no("comment", "comment");
    if (r.created_by() != m.by) no("created-by", "created by");
    if (r.creation_date().count() != m.date) no("creation-date", cat("creation date ", r.creation_date().count(), " instead of ", m.date));
    std::vector<strs> t;
    for (auto& a : r.trackers()) { if (a.tier != t.size() && a.tier + 1 != t.size()) no("trackers", "tiers with gaps"); if (a.tier == t.size()) t.emplace_back(); t.back().push_back(a.url); }
    if (t != m.tiers()) no("trackers", "announce list");
    if (r.http_seeds() != m.http) no("http-seeds", "http seeds");
    if (r.web_seeds() != m.web) no("web-seeds", "web seeds");
    std::vector<std::pair<string, int>> nd; for (auto& n : r.dht_nodes()) nd.emplace_back(n.url, n.port);
    if (nd != m.nodes) no("nodes", "dht nodes");
    std::multiset<string> si; for (auto& x : r.similar_torrents()) { if (x.version() == dt::protocol::v1) si.insert(bytes(x.v1())); else si.insert(bytes(x.v2())); }
    if (si != std::multiset<string>(m.similar.begin(), m.similar.end())) no("similar", "similar torrents");
    std::set<string> co(r.collections().begin(), r.collections().end());
    if (co != std::set<string>(m.collections.begin(), m.collections.end())) no("collections", "collections");
    std::map<string, string> ot, want; for (auto& [k, v] : r.other_info_fields()) ot[k] = bencode::encode(v); for (auto& [k, v] : m.other) want[k] = enc(v);
    if (m.cross) { if (!ot.count("cross_seed_entry")) no("cross-seed", "no cross seed entry"); ot.erase("cross_seed_entry"); }
    if (ot != want) no("other-fields", "unknown fields of the info dict");
}
/// Choose a metafile: a layout and protocol freely, every other feature as a deviation from its default.
static const std::vector<std::pair<const char*, std::vector<F>>>& layouts()
{
    static const std::vector<std::pair<const char*, std::vector<F>>> v = {
        {"a:20000 single", {{{"a"}, 20000}}},
        {"a:1 single", {{{"a"}, 1}}},
        {"a:32768 single", {{{"a"}, 2 * K}}},
        {"d/a:5", {{{"d", "a"}, 5}}},
        {"a:40000 b/c:5", {{{"a"}, 40000, {}, {}, {}, 1}, {{"b", "c"}, 5, {}, {}, {}, 2}}},
        {"b:16384 a:0 d/x:16385", {{{"b"}, K, {}, {}, {}, 1}, {{"a"}, 0, {}, {}, {}, 2}, {{"d", "x"}, K + 1, {}, {}, {}, 3}}},
        {"twins", {{{"p", "q", "r", "s"}, 3 * K, {}, {}, {}, 1}, {{"p", "q", "t"}, 3 * K, {}, {}, {}, 1}, {{"p", "\xc3\xa9 %20"}, 7, {}, {}, {}, 2}}},
        {"padded", {{{"a"}, 20000, {}, {}, {}, 1}, {{".pad", "12768"}, 12768, "p"}, {{"b"}, 9, {}, {}, {}, 2}}},
        {"link", {{{"a"}, 10, "x", {}, {}, 1}, {{"b"}, 0, "l", {"a"}}, {{"c"}, 3, "hx", {}, {}, 2}}},
        {"dir and prefix", {{{"a"}, 1, {}, {}, {}, 1}, {{"a b", "c"}, 2, {}, {}, {}, 2}, {{"a-", "c"}, 3, {}, {}, {}, 3}, {{"a.", "c", "d"}, 4, {}, {}, {}, 4}}},
    };
    return v;
}
static M choose_metafile(ctx& c, bool cheap)
{
    M m; string d;
    m.proto = 1 + c.choose(3);
    auto& lay = layouts(); int li = c.choose(int(lay.size())); m.files = lay[std::size_t(li)].second; m.single = li < 3; d = cat("storage v", m.proto, ", ", lay[std::size_t(li)].first);
    auto dev = [&](int n, const char* what) { int v = c.choose_cost(n, 1); if (v) d += cat(", ", what, ' ', v); return v; };
    static const std::vector<string> texts = {"", "x", "\xe2\x82\xac uro", string("nul\0l", 5), "i1e", string(300, 'y')};
    if (li == 3 && dev(2, "mode single")) { m.single = true; m.files[0].path = {"a"}; }
    switch (dev(4, "name")) { case 0: m.name = "nm"; break; case 1: m.name = "other name"; break; case 2: m.root = "odd"; break; default: m.root = "even"; }
    m.piece = std::vector<std::size_t>{K, 2 * K, 64 * K}[std::size_t(dev(3, "piece"))];
    m.priv = dev(2, "private");
    m.source = texts[std::size_t(dev(4, "source"))];
    m.comment = texts[std::size_t(dev(6, "comment"))];
    m.by = texts[std::size_t(dev(3, "created-by"))];
    m.date = std::vector<std::int64_t>{0, 1, 1600000000, std::int64_t(1) << 40, std::numeric_limits<std::int64_t>::max(), -1}[std::size_t(dev(6, "date"))];
    m.trackers = std::vector<std::vector<strs>>{{}, {{"http://a"}}, {{"b"}, {"a"}}, {{"c", "a", "b"}, {"d"}}, {{"a"}, {"b"}, {"c", "b2"}}, {{"a:1", "a:0"}}}[std::size_t(dev(6, "trackers"))];
    m.http = std::vector<strs>{{}, {"http://h/"}, {"z", "a", ""}}[std::size_t(dev(3, "http"))];
    m.web = std::vector<strs>{{}, {"http://w/"}, {"z", "a", "http://w/"}}[std::size_t(dev(3, "web"))];
    m.nodes = std::vector<std::vector<std::pair<string, int>>>{{}, {{"h", 0}}, {{"h", 65535}, {"::1", 6881}, {"h", 1}}}[std::size_t(dev(3, "nodes"))];
    { int s = dev(5, "similar"); if (s) { string a = sha1("s1"), b = sha256("s2"); m.similar = s == 1 ? strs{a} : s == 2 ? strs{b} : strs{a, b}; m.similar_hybrid = s == 4; } }
    m.collections = std::vector<strs>{{}, {"c"}, {"c", "", "d"}}[std::size_t(dev(3, "collections"))];
    switch (dev(6, "other")) { case 0: break; case 1: m.other["aaa"] = B(-7); break; case 2: m.other["zzz"] = B("text"); break; case 3: m.other["entropy"] = B::list({"q", ""}); m.other["x"] = B(std::numeric_limits<std::int64_t>::min()); break; case 4: { B x = B::dict(); x["k"] = B::dict(); x[""] = B::list(); m.other["profile"] = x; break; } default: m.other["piece"] = B(1); m.other["pieces "] = B("near"); m.other["Name"] = B(""); }
    { int a = dev(5, "attr"); if (a) { auto& f = m.files[0]; f.attr = std::vector<string>{"", "", "x", "h", "xh"}[std::size_t(a)]; } }
    { int s = dev(4, "sums"); auto& f = m.files.back(); if (s >= 1) f.sums["md5"] = string(15, 'm') + '\0'; if (s >= 2) { f.sums["sha1"] = sha1("c"); f.sums["sha3_512"] = string(64, '\xff'); } if (s == 3) m.files[0].sums["sha256"] = sha256("f0"); }
    if (dev(2, "symlink single") && m.single) { auto& f = m.files[0]; f.size = 0; f.attr = "l"; f.link = {"..", "t", "u"}; }
    if (dev(2, "empty first")) m.files[0].size = m.files[0].sym() ? 0 : 0;
    m.cross = dev(2, "cross");
    (void)cheap;
    c.describe(d);
    return m;
}
static B strip_cross(B b, bool cross) { if (cross) b.d["info"].d.erase("cross_seed_entry"); return b; }
static int protos(ctx& c, const M& m) { return m.proto == 3 ? 1 + c.choose(3) : m.proto; }
static dt::protocol P(int p) { return static_cast<dt::protocol>(p); }

// ---------------------------------------------------------------- C37: exact encoding
static void encoding()
{
    vp::assume("a metafile has at least one file; single file torrents have a path of one component; the order of 'similar' and 'collections', kept in unordered sets, is not specified");
    vp::part("bytes", "every layout x stored versions x written version x up to 2 (thorough: 3) deviations among 20 features; the written bytes are compared with an independent encoding, the JSON with that of the decoded bytes", {vp::thorough() ? 3 : 2, 800}, [](ctx& c) {
        M m = choose_metafile(c, false); int as = protos(c, m); c.append(cat(" written as v", as));
        auto r = build(m);
        string w = dt::write_metafile(r, P(as)); c.transition();
        auto got = decode(w);
        c.expect(got.has_value(), "canonical", "the written metafile is not canonical bencode");
        B want = expected(m, as);
        if (m.cross) { auto it = got->d["info"].d.find("cross_seed_entry"); c.expect(it != got->d["info"].d.end() && it->second.t == 's' && it->second.s.size() == 32 && it->second.s.find_first_not_of("0123456789abcdef") == string::npos, "cross-seed", "cross seed entry"); }
        B g = strip_cross(*got, m.cross);
        if (!(normal(g) == normal(want))) {
            string key = "encoding", what = "top level";
            for (auto& [k, v] : want.d) if (k != "info" && (!g.d.count(k) || !(normal(g).d.at(k) == normal(want).d.at(k)))) what = k;
            for (auto& [k, v] : g.d) if (!want.d.count(k)) what = "extra " + k;
            if (g.d.count("info")) { for (auto& [k, v] : want.d.at("info").d) if (!g.d.at("info").d.count(k) || !(g.d.at("info").d.at(k) == v)) what = "info/" + k; for (auto& [k, v] : g.d.at("info").d) if (!want.d.at("info").d.count(k)) what = "extra info/" + k; }
            c.fail("encoding:" + what, cat("field ", what, " is written as ", vp::quote(enc(g)).substr(0, 1500), " instead of ", vp::quote(enc(want)).substr(0, 1500)));
        }
        // the same bytes through every interface
        std::ostringstream os; dt::write_metafile_to(os, r, P(as)); c.expect(os.str() == w, "stream", "writing to a stream gives other bytes");
        string it; dt::write_metafile_to(std::back_inserter(it), r, P(as)); c.expect(it == w, "iterator", "writing to an output iterator gives other bytes");
        // JSON
        std::ostringstream js, ref; dt::serialize_json_to(js, r, P(as)); { bencode::events::encode_json_to j(ref); bencode::connect(j, bencode::decode_value(std::string_view(w))); }
        c.expect(js.str() == ref.str() && !js.str().empty(), "json", "the JSON does not describe the written metafile");
        c.expect(dt::serialize_json(r, P(as)) == ref.str(), "json", "serialize_json");
        c.transition(4); c.nontrivial(); c.state(w);
    });
    vp::part("versions", "writing with a version the interface does not know", {}, [](ctx& c) {
        M m; m.files = layouts()[0].second; m.single = true; auto r = build(m); int v = c.choose(3), how = c.choose(4); auto p = v == 0 ? dt::protocol::none : P(v == 1 ? 4 : 7);
        c.describe(cat("version ", int(p), " interface ", how)); bool threw = false;
        try { if (how == 0) dt::write_metafile(r, p); else if (how == 1) { std::ostringstream os; dt::write_metafile_to(os, r, p); } else if (how == 2) { string s; dt::write_metafile_to(std::back_inserter(s), r, p); } else dt::serialize_json(r, p); } catch (const std::invalid_argument&) { threw = true; }
        c.expect(threw, "version", "an unknown version is written"); c.nontrivial(); c.transition(); c.state(cat(v, how));
    });
}
// ---------------------------------------------------------------- C23: round trip
static void round_trip()
{
    vp::assume("a metafile has at least one file; single file torrents have a path of one component; the file system stores what was written and closed successfully");
    vp::part("round-trip", "every layout x stored versions x written version x up to 2 (thorough: 3) deviations among 20 features; written, read by every interface, compared field by field, written again", {vp::thorough() ? 3 : 2, 800}, [](ctx& c) {
        M m = choose_metafile(c, false); int as = protos(c, m); c.append(cat(" written as v", as));
        auto r = build(m);
        string w = dt::write_metafile(r, P(as));
        bool empty = true; for (auto& f : m.files) if (f.size) empty = false;
        // a v1 or hybrid storage of empty files has no pieces: read back as what the keys say
        if (as == 3 && empty) return;
        auto by_view = dt::read_metafile(std::string_view(w)); same(c, m, by_view, as, "view");
        std::istringstream is(w); auto by_stream = dt::read_metafile(is); same(c, m, by_stream, as, "stream");
        auto by_span = dt::read_metafile(std::span<const std::byte>(reinterpret_cast<const std::byte*>(w.data()), w.size())); same(c, m, by_span, as, "span");
        c.transition(4);
        string w2 = dt::write_metafile(by_view, P(as));
        auto a = decode(w), b = decode(w2);
        c.expectf(a && b && normal(*a) == normal(*b), "rewrite", [&] { return cat("written again it is ", vp::quote(w2).substr(0, 1500), " instead of ", vp::quote(w).substr(0, 1500)); });
        c.expect(by_view == by_stream && by_view == by_span, "equal", "metafiles read from the same bytes differ");
        c.nontrivial(); c.state(w);
    });
    vp::part("files", "save and load through files, for every layout and version; every failing destination must be reported", {}, [](ctx& c) {
        M m; m.proto = 1 + c.choose(3); int li = c.choose(int(layouts().size())); m.files = layouts()[std::size_t(li)].second; m.single = li < 3; m.name = "n"; m.comment = "c"; int as = protos(c, m);
        int dst = c.choose(5); c.describe(cat("storage v", m.proto, " layout ", li, " as v", as, " destination ", dst));
        auto r = build(m);
        fs::path dir = fs::path(vp::worker_dir()) / "meta"; fs::remove_all(dir); fs::create_directories(dir);
        fs::path p = dst == 0 ? dir / "x.torrent" : dst == 1 ? dir / "missing" / "x.torrent" : dst == 2 ? fs::path("/dev/full") : dst == 3 ? dir : dir / "old";
        if (dst == 4) { std::ofstream o(p, std::ios::binary); o << string(100000, 'z'); }
        bool threw = false;
        try { dt::save_metafile(p, r, P(as)); } catch (const std::exception&) { threw = true; }
        bool good = dst == 0 || dst == 4;
        c.expectf(threw != good, "save-error", [&] { return threw ? string("saving failed") : cat("saving to ", p.string(), " failed silently"); });
        if (good) { auto b = dt::load_metafile(p); same(c, m, b, as, "load_metafile"); std::ifstream f(p, std::ios::binary); string all{std::istreambuf_iterator<char>(f), {}}; c.expect(all == dt::write_metafile(r, P(as)), "save", "the file holds other bytes"); }
        else { bool lt = false; try { dt::load_metafile(dir / "nothing"); } catch (const std::exception&) { lt = true; } c.expect(lt, "load-error", "loading a missing file succeeds"); }
        c.nontrivial(); c.transition(2); c.state(cat(li, m.proto, as, dst));
    });
}
// ---------------------------------------------------------------- C24: info hash
static void info_hash_prop()
{
    vp::assume("not covered: storages of empty files only (no version), foreign metafiles with unknown keys inside file entries, with explicit private=0 or non-canonical bencode");
    auto expect_hash = [](ctx& c, const dt::metafile& r, int proto, const string& info, const char* when) {
        string a = sha1(info), b = sha256(info);
        if (proto & 1) c.expectf(bytes(dt::info_hash_v1(r)) == a, "v1", [&] { return cat(when, ": the v1 info hash is not the hash of the info dict"); });
        if (proto & 2) { c.expectf(bytes(dt::info_hash_v2(r)) == b, "v2", [&] { return cat(when, ": the v2 info hash is not the hash of the info dict"); }); c.expect(bytes(dt::truncate_v2_hash(dt::info_hash_v2(r))) == b.substr(0, 20), "truncated", "truncated hash"); }
        auto mg = dt::make_magnet_uri(r, dt::protocol::hybrid); strs t; if (proto & 1) t.push_back("urn:btih:" + hex(a)); if (proto & 2) t.push_back("urn:btmh:1220" + hex(b));
        c.expectf(mg.topics() == t, "magnet", [&] { return cat(when, ": the magnet topics are not the info hashes"); });
        c.transition(3);
    };
    vp::part("own", "every layout x version x up to 2 (thorough: 3) deviations among 20 features: hash of the written info dict, before and after reading it back", {vp::thorough() ? 3 : 2, 800}, [expect_hash](ctx& c) {
        M m = choose_metafile(c, false); bool empty = true; for (auto& f : m.files) if (f.size) empty = false; if (empty) return;
        auto r = build(m); string w = dt::write_metafile(r, P(m.proto)); string info = info_slice(w);
        c.expect(r.storage().protocol() == P(m.proto), "protocol", "storage protocol");
        expect_hash(c, r, m.proto, info, "before writing");
        auto b = dt::read_metafile(std::string_view(w));
        expect_hash(c, b, m.proto, info, "read back");
        // fields outside the info dict do not matter
        b.set_comment("other comment"); b.set_created_by("me"); b.set_creation_date(std::time_t(12345)); b.add_web_seed("http://w2/"); b.add_http_seed("http://h2/"); b.add_dht_node("n", 9); b.add_similar_torrent(dt::info_hash(h1(sha1("o")))); b.add_collection("coll"); b.add_tracker("zz://new"); 
        expect_hash(c, b, m.proto, info, "after changing fields outside the info dict");
        c.nontrivial(); c.state(info);
    });
    vp::part("foreign", "metafiles made by others: every layout and version with every combination of up to 2 unknown or rarely used keys inside and outside the info dict", {}, [expect_hash](ctx& c) {
        M m; m.proto = 1 + c.choose(3); int li = c.choose(int(layouts().size())); m.files = layouts()[std::size_t(li)].second; m.single = li < 3; m.name = "n";
        B b = expected(m, m.proto); string d = cat("layout ", li, " v", m.proto);
        struct extra { const char* k; B v; };
        static const std::vector<extra> ex = [] { B dd = B::dict(); dd["z"] = B(0); dd["a"] = B::list({"", "x"}); B nl = B::list(); nl.l = {B(1), B::list(), B::dict()};
            return std::vector<extra>{{"", B(1)}, {"a", B(0)}, {"zzz", B("")}, {"entropy", B(string("\0\xff", 2))}, {"x_cross_seed", B("abc")}, {"cross_seed_entry", B("00")}, {"collections", B::list({"c1", "c0"})}, {"similar", B::list({string(20, 'h'), string(32, 'g')})}, {"profiles", dd}, {"nest", nl}, {"publisher", B("p")}, {"source", B("SRC")}, {"private", B(1)}, {"min", B(std::numeric_limits<std::int64_t>::min())}, {"file-duration", B::list()}, {"ssl-cert", B(string(1000, 'c'))}}; }();
        int n1 = c.choose(int(ex.size()) + 1), n2 = n1 ? c.choose(n1) : 0, out = c.choose(3);
        if (n1) { b["info"][ex[std::size_t(n1 - 1)].k] = ex[std::size_t(n1 - 1)].v; d += cat(" + ", ex[std::size_t(n1 - 1)].k); }
        if (n2) { b["info"][ex[std::size_t(n2 - 1)].k] = ex[std::size_t(n2 - 1)].v; d += cat(" + ", ex[std::size_t(n2 - 1)].k); }
        if (out == 1) b["azureus_properties"] = B::dict(); if (out == 2) { b["encoding"] = B("UTF-8"); b["publisher-url"] = B("u"); }
        c.describe(d);
        string w = enc(b); auto r = dt::read_metafile(std::string_view(w));
        expect_hash(c, r, m.proto, enc(b["info"]), "read");
        string w2 = dt::write_metafile(r, P(m.proto)); c.expect(info_slice(w2) == enc(b["info"]), "info-bytes", "written again, the info dict has other bytes");
        c.nontrivial(); c.state(w);
    });
    vp::part("cross-seed", "cross seeding: pairs of announce lists: equal lists give equal info hashes, lists of different urls different ones", {}, [](ctx& c) {
        // every list of one to three of four urls, in every order and every division into tiers
        static const std::vector<std::vector<strs>> ts = [] {
            std::vector<std::vector<strs>> r; strs cur; static const strs U = {"a", "b", "ab", "udp://tracker:80/announce"};
            std::function<void()> go = [&] {
                if (!cur.empty()) for (int cuts = 0; cuts < (1 << (cur.size() - 1)); ++cuts) { std::vector<strs> l{{cur[0]}}; for (std::size_t i = 1; i < cur.size(); ++i) { if (cuts >> (i - 1) & 1) l.emplace_back(); l.back().push_back(cur[i]); } r.push_back(l); }
                if (cur.size() < 3) for (auto& u : U) if (std::find(cur.begin(), cur.end(), u) == cur.end()) { cur.push_back(u); go(); cur.pop_back(); }
            };
            go(); return r;
        }();
        int x = c.choose(int(ts.size())), y = c.choose(int(ts.size())), v = 1 + c.choose(3); M m; m.proto = v; m.files = layouts()[4].second; m.name = "n"; m.cross = true;
        c.describe(cat("lists ", x, " and ", y, " v", v));
        m.trackers = ts[std::size_t(x)]; auto a = build(m); m.trackers = ts[std::size_t(y)]; auto b = build(m);
        bool same = v & 1 ? dt::info_hash_v1(a) == dt::info_hash_v1(b) : dt::info_hash_v2(a) == dt::info_hash_v2(b);
        std::set<string> ux, uy; for (auto& t : ts[std::size_t(x)]) ux.insert(t.begin(), t.end()); for (auto& t : ts[std::size_t(y)]) uy.insert(t.begin(), t.end());
        if (x == y) c.expect(same, "cross-seed", "equal announce lists give different info hashes");
        if (ux != uy) c.expect(!same, "cross-seed", "announce lists of different urls give the same info hash");
        c.nontrivial(); c.transition(2); c.state(cat(x, y, v));
    });
}
// ---------------------------------------------------------------- C25: malformed metafiles
static const std::vector<B>& base_docs()
{
    static std::vector<B> v;
    if (v.empty()) {
        auto mk = [](int proto, int li, bool rich) { M m; m.proto = proto; m.files = layouts()[std::size_t(li)].second; m.single = li < 3; m.name = "nm"; if (rich) { m.trackers = {{"u1", "u2"}, {"u3"}}; m.http = {"h"}; m.web = {"w"}; m.nodes = {{"host", 80}}; m.similar = {sha1("x"), sha256("y")}; m.collections = {"c"}; m.comment = "co"; m.by = "by"; m.date = 5; m.priv = true; m.source = "s"; m.files[0].sums["md5"] = string(16, 'm'); m.files[0].attr = "x"; } return expected(m, proto); };
        v = {mk(1, 0, true), mk(1, 4, false), mk(1, 8, false), mk(2, 5, true), mk(2, 8, false), mk(3, 7, false), mk(3, 0, false)};
        v[3].d["info"].d["similar"] = B::list({string(20, 'h')}); v[3].d["info"].d["collections"] = B::list({"k"});
    }
    return v;
}
static void collect(B& b, std::vector<B*>& out) { out.push_back(&b); for (auto& x : b.l) collect(x, out); for (auto& [k, v] : b.d) collect(v, out); }
static const std::vector<B>& replacements()
{
    static const std::vector<B> r = [] {
        std::vector<B> v = {B(0), B(1), B(-1), B(2), B(65536), B(std::int64_t(1) << 40), B(std::numeric_limits<std::int64_t>::max()), B(std::numeric_limits<std::int64_t>::min()), B(""), B("x"), B(".."), B("/etc/x"), B("a/b"), B("l"), B("lp"), B(string(1, '\0')), B(string(19, 'q')), B(string(20, 'q')), B(string(32, 'q')), B(string(40, 'q')), B(string(64, 'q')), B::list(), B::dict()};
        B a = B::list(); a.l = {B(1)}; v.push_back(a); a.l = {B("..")}; v.push_back(a); a.l = {B("a"), B("..")}; v.push_back(a); a.l = {B("/abs")}; v.push_back(a); a.l = {B("")}; v.push_back(a); a.l = {B("h"), B(-1)}; v.push_back(a); a.l = {B("h"), B(65536)}; v.push_back(a); a.l = {B("h"), B(1), B(2)}; v.push_back(a);
        a.l = {B::list(), B::list({"u"})}; v.push_back(a); a.l = {B::list({"u", "u"}), B::list({"u"})}; v.push_back(a); a.l = {B::dict()}; v.push_back(a);
        B d = B::dict(); d[""] = B::dict(); v.push_back(d); d = B::dict(); d["x"] = B(1); v.push_back(d); d = B::dict(); d[".."] = B::dict(); B leaf = B::dict(); leaf["length"] = B(0); d[".."][""] = leaf; v.push_back(d); d = B::dict(); d[""] = leaf; v.push_back(d); d = B::dict(); d["a/b"][""] = B(); d["a/b"] = B::dict(); d["a/b"][""] = leaf; v.push_back(d);
        return v; }();
    return r;
}
static bool escapes(const fs::path& p) { if (p.is_absolute() || p.empty()) return true; for (auto& x : p) if (x == ".." || x == "." || x.empty() || x.string().find('\0') != string::npos) return true; return false; }
/// Read `w` through every interface: a metafile whose invariants hold, or an exception.
static void judge(ctx& c, const string& w)
{
    auto read = [&](int how) -> std::unique_ptr<dt::metafile> {
        // an exact-size heap buffer, so that reads past the end are seen
        std::unique_ptr<char[]> buf(new char[w.size()]); std::memcpy(buf.get(), w.data(), w.size());
        try {
            if (how == 0) return std::make_unique<dt::metafile>(dt::read_metafile(std::string_view(buf.get(), w.size())));
            if (how == 1) { std::istringstream is(w); return std::make_unique<dt::metafile>(dt::read_metafile(is)); }
            return std::make_unique<dt::metafile>(dt::read_metafile(std::span<const std::byte>(reinterpret_cast<const std::byte*>(buf.get()), w.size())));
        } catch (const std::bad_alloc&) { c.fail("allocation", "reading asks for far more memory than the metafile has bytes"); }
        catch (const std::length_error&) { c.fail("allocation", "reading asks for far more memory than the metafile has bytes"); }
        catch (const std::exception& e) { return nullptr; }
    };
    auto a = read(0), b = read(1), d = read(2); c.transition(3);
    c.expect(!a == !b && !a == !d, "interfaces", "the interfaces disagree on whether the metafile is acceptable");
    if (!a) { c.count("rejected"); return; }
    c.count("accepted");
    c.expect(*a == *b && *a == *d, "interfaces", "the interfaces read different metafiles");
    auto& st = a->storage();
    c.expect(st.piece_size() >= K && std::has_single_bit(st.piece_size()), "piece-size", "invalid piece size accepted");
    for (auto& e : st) c.expectf(!escapes(e.path()), "path", [&] { return cat("file path ", vp::quote(e.path().string()), " leads outside the torrent's directory or is malformed"); });
    if (!st.pieces().empty()) c.expect(st.pieces().size() == st.piece_count(), "pieces", "number of piece hashes");
    auto tiers = std::size_t(0); for (auto& t : a->trackers()) { c.expect(t.tier == tiers || t.tier + 1 == tiers, "tiers", "tiers with gaps"); if (t.tier == tiers) ++tiers; }
    auto p = st.protocol();
    c.expect(p != dt::protocol::none || st.total_file_size() == 0, "no-hashes", "files with data but without any hashes are accepted");
    if (p == dt::protocol::none) { c.count("accepted without data"); return; }
    // what was accepted can be written, and what was written is read as the same
    string w1; try { w1 = dt::write_metafile(*a, p); } catch (const std::exception& e) { c.fail("unwritable", cat("accepted, but it cannot be written: ", e.what())); }
    std::unique_ptr<dt::metafile> again; try { again = std::make_unique<dt::metafile>(dt::read_metafile(std::string_view(w1))); } catch (const std::exception& e) { c.fail("reread", cat("accepted, written again as ", vp::quote(w1).substr(0, 800), ", and then rejected: ", e.what())); }
    c.expect(again->storage().protocol() == p || st.total_file_size() == 0, "reread", "written again it has another version");
    if (again->storage().protocol() == p) c.expect(info_slice(dt::write_metafile(*again, p)) == info_slice(w1), "reread", "the info dict changes each time it is written");
    c.transition(3);
}
static void malformed()
{
    vp::assume("metafiles are decoded by the bencode library; here its interface is provided by an independent implementation");
    vp::part("nodes", "7 metafiles covering every key: every node replaced by each of 40 values, every key removed, renamed or moved, every list element duplicated, every node nested one level deeper", {}, [](ctx& c) {
        int di = c.choose(int(base_docs().size())); B doc = base_docs()[std::size_t(di)]; std::vector<B*> ns; collect(doc, ns);
        int n = c.choose(int(ns.size())), kind = c.choose(4); B& x = *ns[std::size_t(n)];
        c.describe(cat("metafile ", di, " node ", n, " mutation ", kind));
        if (kind == 0) { int k = c.choose(int(replacements().size())); c.append(cat(' ', k)); x = B(replacements()[std::size_t(k)]); }
        else if (kind == 1) { if (x.t != 'd' || x.d.empty()) return; int k = c.choose(int(x.d.size())), how = c.choose(3); auto it = x.d.begin(); std::advance(it, k); c.append(cat(" key ", it->first, " how ", how)); B v = it->second; string key = it->first; x.d.erase(it); if (how == 1) x.d[key + "x"] = v; if (how == 2) x.d[".."] = v; }
        else if (kind == 2) { if (x.t != 'l' || x.l.empty()) return; int k = c.choose(int(x.l.size())), how = c.choose(2); B v = x.l[std::size_t(k)]; if (how) x.l.push_back(v); else x.l.erase(x.l.begin() + k); }
        else { int how = c.choose(3); B v = x; if (how == 0) { x = B::list(); x.l.push_back(v); } else { x = B::dict(); x[how == 1 ? "" : "k"] = v; } }
        string w = enc(doc); judge(c, w);
        c.nontrivial(); c.state(w);
    });
    vp::part("bytes", "truncation at every byte, removal of every byte, every byte replaced by each of 12 values, of 4 (thorough: 7) metafiles; trailing bytes", {}, [](ctx& c) {
        static const std::vector<int> quick = {0, 2, 4, 6}, all = {0, 1, 2, 3, 4, 5, 6};
        int di = c.pick(vp::thorough() ? all : quick); string w = enc(base_docs()[std::size_t(di)]); int at = c.choose(int(w.size())), kind = c.choose(15); c.describe(cat("metafile ", di, " byte ", at, " kind ", kind));
        static const string subst = string("\0", 1) + "019-ilde:x\xff";
        if (kind == 0) w.resize(std::size_t(at)); else if (kind == 1) w.erase(std::size_t(at), 1); else if (kind == 2) w.insert(std::size_t(at), "e"); else { if (w[std::size_t(at)] == subst[std::size_t(kind - 3)]) return; w[std::size_t(at)] = subst[std::size_t(kind - 3)]; }
        judge(c, w); c.nontrivial(); c.state(w);
    });
    vp::part("pairs", "two metafiles: every pair of nodes replaced by values out of 14 (thorough: 40)", {-1, 700}, [](ctx& c) {
        static const std::vector<int> docs = {2, 6}; static const std::vector<int> few = {0, 2, 6, 8, 9, 10, 13, 17, 18, 21, 22, 25, 32, 37};
        int di = c.pick(docs); B doc = base_docs()[std::size_t(di)]; std::vector<B*> ns; collect(doc, ns);
        int i = c.choose(int(ns.size())), j = i + 1 + c.choose(int(ns.size()) - i);
        int a = vp::thorough() ? c.choose(int(replacements().size())) : c.pick(few), b = vp::thorough() ? c.choose(int(replacements().size())) : c.pick(few);
        if (j >= int(ns.size())) return;
        c.describe(cat("metafile ", di, " node ", i, " := ", a, ", node ", j, " := ", b));
        // replace the later node first: it may lie below the earlier one
        *ns[std::size_t(j)] = B(replacements()[std::size_t(b)]);
        B* x = ns[std::size_t(i)]; if (x->t == 'l' || x->t == 'd') { return; }
        *x = B(replacements()[std::size_t(a)]);
        string w = enc(doc); judge(c, w); c.nontrivial(); c.state(w);
    });
    vp::part("fragments", "every string of up to 5 (thorough: 6) tokens of bencode", {}, [](ctx& c) {
        static const strs tok = {"d", "l", "i", "e", "4:info", "0:", "1", ":", "-"}; string w; int n = c.choose(vp::thorough() ? 7 : 6); for (int k = 0; k < n; ++k) w += c.pick(tok);
        c.describe(vp::quote(w)); judge(c, w); c.nontrivial(); c.state(w);
    });
    vp::part("depth", "nesting of lists, dicts and file trees to every depth up to 64, and 500", {}, [](ctx& c) {
        int depth = c.choose(66), kind = c.choose(3); if (depth == 65) depth = 500; B doc = base_docs()[3]; c.describe(cat("depth ", depth, " kind ", kind));
        B x = kind == 0 ? B::list() : B::dict(); if (kind == 2) { B leaf = B::dict(); leaf["length"] = B(0); x[""] = leaf; }
        for (int k = 0; k < depth; ++k) { if (kind == 0) { B y = B::list(); y.l.push_back(std::move(x)); x = std::move(y); } else { B y = B::dict(); y["d"] = std::move(x); x = std::move(y); } }
        if (kind == 2) { B t = B::dict(); t["top"] = std::move(x); doc["info"]["file tree"] = std::move(t); } else doc["info"]["x"] = std::move(x);
        string w = enc(doc); judge(c, w); c.nontrivial(); c.state(w);
    });
}
// ---------------------------------------------------------------- C26: editing
static void editing()
{
    vp::part("lists", "every sequence of up to 4 (thorough: 5) edits of trackers, seeds, nodes, similar torrents and collections, with a reference model", {}, [](ctx& c) {
        dt::metafile m; std::vector<std::pair<std::size_t, string>> tr; strs http, web; std::vector<std::pair<string, int>> nodes; std::set<string> sim, col; string log;
        int family = c.choose(5), depth = vp::thorough() ? 5 : 4; static const strs us = {"b", "a", "c"};
        auto tiers = [&] { return tr.empty() ? std::size_t(0) : tr.back().first + 1; };
        auto close = [&] { std::sort(tr.begin(), tr.end()); std::size_t next = 0, cur = std::size_t(-1); for (auto& [t, u] : tr) { if (t != cur) { cur = t; ++next; } t = next - 1; } };
        auto find = [&](const string& u) { return std::find_if(tr.begin(), tr.end(), [&](auto& x) { return x.second == u; }); };
        for (int s = 0; s < depth; ++s) {
            if (family == 0) {
                int op = c.choose(7); if (op == 0) break;
                auto& u = c.pick(us);
                if (op == 1) { log += "+" + u + " "; if (find(u) == tr.end()) tr.emplace_back(tiers(), u); else { std::size_t t = tiers(); find(u)->first = t; } close(); c.describe(log); m.add_tracker(u); }
                else if (op <= 3) { std::size_t t = std::size_t(c.choose(int(tiers()) + 1)); log += cat('+', u, '@', t, ' '); c.describe(log); if (op == 2) m.add_tracker(u, t); else m.add_tracker(dt::announce_url(u, t)); if (find(u) == tr.end()) tr.emplace_back(t, u); else find(u)->first = t; close(); }
                else if (op == 4) { log += "-" + u + " "; c.describe(log); m.remove_tracker(u); if (find(u) != tr.end()) tr.erase(find(u)); close(); }
                else if (op == 5) { std::size_t t = std::size_t(c.choose(2)); log += cat('-', u, '@', t, ' '); c.describe(log); if (s % 2) m.remove_tracker(u, t); else m.remove_tracker(dt::announce_url(u, t)); auto it = find(u); if (it != tr.end() && it->first == t) tr.erase(it); close(); }
                else { log += "clear "; c.describe(log); m.clear_trackers(); tr.clear(); }
            } else if (family <= 2) {
                auto& l = family == 1 ? http : web; int op = c.choose(4); if (op == 0) break; auto& u = c.pick(us); log += cat(op, u, ' '); c.describe(log);
                auto it = std::find(l.begin(), l.end(), u);
                if (op == 1) { family == 1 ? m.add_http_seed(u) : m.add_web_seed(u); if (it == l.end()) l.push_back(u); }
                else if (op == 2) { family == 1 ? m.remove_http_seed(u) : m.remove_web_seed(u); if (it != l.end()) l.erase(it); }
                else { family == 1 ? m.clear_http_seeds() : m.clear_web_seeds(); l.clear(); }
            } else if (family == 3) {
                int op = c.choose(6); if (op == 0) break; auto& h = us[std::size_t(c.choose(2))]; int p = c.flag() ? 65535 : 0; log += cat(op, h, p, ' '); c.describe(log); auto v = std::make_pair(h, p); auto it = std::find(nodes.begin(), nodes.end(), v);
                if (op <= 3) { if (op == 1) m.add_dht_node(h, std::uint16_t(p)); else if (op == 2) { const dt::dht_node n(h, std::uint16_t(p)); m.add_dht_node(n); } else m.add_dht_node(dt::dht_node(h, std::uint16_t(p))); if (it == nodes.end()) nodes.push_back(v); }
                else if (op == 4) { m.remove_dht_node(h, std::uint16_t(p)); if (it != nodes.end()) nodes.erase(it); }
                else { m.clear_dht_nodes(); nodes.clear(); }
            } else {
                int op = c.choose(7); if (op == 0) break; int k = c.choose(3); log += cat(op, k, ' '); c.describe(log);
                auto mk = [&] { return k == 0 ? dt::info_hash(h1(sha1("a"))) : k == 1 ? dt::info_hash(h2(sha256("a"))) : dt::info_hash(h1(sha1("a")), h2(sha256("a"))); };
                if (op == 1) { m.add_similar_torrent(mk()); sim.insert(std::to_string(k)); } else if (op == 2) { m.remove_similar_torrent(mk()); sim.erase(std::to_string(k)); } else if (op == 3) { m.clear_similar_torrents(); sim.clear(); }
                else if (op == 4) { m.add_collection(us[std::size_t(k)]); col.insert(us[std::size_t(k)]); } else if (op == 5) { m.remove_collection(us[std::size_t(k)]); col.erase(us[std::size_t(k)]); } else { m.clear_collections(); col.clear(); }
            }
            std::vector<std::pair<std::size_t, string>> gt; for (auto& a : m.trackers()) gt.emplace_back(a.tier, a.url);
            c.expectf(gt == tr, "trackers", [&] { string x; for (auto& [t, u] : gt) x += cat(u, '@', t, ' '); return "trackers are " + x; });
            c.expect(m.http_seeds() == http, "http-seeds", "http seeds"); c.expect(m.web_seeds() == web, "web-seeds", "web seeds");
            std::vector<std::pair<string, int>> gn; for (auto& n : m.dht_nodes()) gn.emplace_back(n.url, n.port); c.expect(gn == nodes, "nodes", "dht nodes");
            std::set<string> gs; for (auto& x : m.similar_torrents()) gs.insert(x.version() == dt::protocol::v1 ? "0" : x.version() == dt::protocol::v2 ? "1" : "2"); c.expect(gs == sim && m.similar_torrents().size() == sim.size(), "similar", "similar torrents");
            std::set<string> gc(m.collections().begin(), m.collections().end()); c.expect(gc == col, "collections", "collections");
            c.transition(); c.state(cat(family, log));
        }
        // an equal metafile has the same content, however it was edited
        dt::metafile o; for (auto& [t, u] : tr) o.add_tracker(u, t); for (auto& u : http) o.add_http_seed(u); for (auto& u : web) o.add_web_seed(u); for (auto& [h, p] : nodes) o.add_dht_node(h, std::uint16_t(p));
        for (auto& k : sim) o.add_similar_torrent(k == "0" ? dt::info_hash(h1(sha1("a"))) : k == "1" ? dt::info_hash(h2(sha256("a"))) : dt::info_hash(h1(sha1("a")), h2(sha256("a")))); for (auto& u : col) o.add_collection(u);
        c.expect(m == o && o == m, "equality", "metafiles with the same content differ");
        auto cp = m; c.expect(cp == m, "equality", "a copy differs");
        o.set_comment("differs"); c.expect(!(m == o), "equality", "metafiles with different comments are equal");
        c.nontrivial();
    });
    vp::part("scalars", "every sequence of up to 3 settings of the scalar fields: each keeps the last value and touches no other", {}, [](ctx& c) {
        dt::metafile m; string f[4]; bool p = false, x = false; std::int64_t d = 0; static const strs v = {"", "one", string("t\0o", 3)}; string log;
        auto check = [&] { c.expect(m.name() == f[0] && m.comment() == f[1] && m.created_by() == f[2] && m.source() == f[3], "text", "text fields"); c.expect(m.is_private() == p && m.is_cross_seeding_enabled() == x, "flags", "flags"); c.expectf(m.creation_date().count() == d, "date", [&] { return cat("creation date ", m.creation_date().count(), " instead of ", d); }); };
        check();
        for (int s = 0; s < 3; ++s) {
            int op = c.choose(8); if (op == 0) break; log += cat(op, ' '); 
            if (op <= 4) { auto& t = c.pick(v); log += t; c.describe(log); f[op - 1] = t; if (op == 1) m.set_name(t); else if (op == 2) m.set_comment(t); else if (op == 3) m.set_created_by(t); else m.set_source(t); }
            else if (op == 5) { p = c.flag(); m.set_private(p); } else if (op == 6) { x = c.flag(); m.enable_cross_seeding(x); }
            else { static const std::vector<std::int64_t> ds = {0, 1, -1, 1600000000, std::int64_t(1) << 33, std::int64_t(1) << 40, std::numeric_limits<std::int64_t>::max()}; d = c.pick(ds); log += cat(d, ' '); c.describe(log); if (d < (std::int64_t(1) << 33) && c.flag()) m.set_creation_date(std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::seconds(d)))); else m.set_creation_date(std::time_t(d)); }
            check(); c.transition(); c.state(log);
        }
        c.nontrivial();
    });
}
// ---------------------------------------------------------------- C29: magnet uris
static string pct(std::string_view s) { string r; for (unsigned char ch : s) { if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '-' || ch == '_' || ch == '.' || ch == '~') r += char(ch); else { r += '%'; r += "0123456789ABCDEF"[ch >> 4]; r += "0123456789ABCDEF"[ch & 15]; } } return r; }
struct G { strs xt; string dn; std::size_t xl = 0; strs tr, ws, as; string xs; std::set<string> kt; string mt; strs pe; };
static dt::magnet_uri make(const G& g)
{
    dt::magnet_uri m; for (auto& x : g.xt) m.add_topic(x); m.set_display_name(std::string_view(g.dn)); if (g.xl) m.set_size(g.xl); for (auto& x : g.tr) m.add_tracker(std::string_view(x)); for (auto& x : g.ws) m.add_web_seed(std::string_view(x)); for (auto& x : g.as) m.add_acceptable_source(std::string_view(x));
    m.set_exact_source(g.xs); for (auto& x : g.kt) m.add_keyword(std::string_view(x)); m.set_manifest(std::string_view(g.mt)); for (auto& x : g.pe) m.add_peer_adress(x); return m;
}
static void same(ctx& c, const G& g, const dt::magnet_uri& m, const char* when)
{
    auto no = [&](const char* k) { c.fail(k, cat(when, ": ", k, " differs")); };
    if (m.topics() != g.xt) no("topics"); if (m.display_name() != g.dn) no("display-name"); if (m.size() != g.xl) no("size"); if (m.trackers() != g.tr) no("trackers"); if (m.web_seeds() != g.ws) no("web-seeds"); if (m.acceptable_sources() != g.as) no("sources"); if (m.exact_source() != g.xs) no("exact-source");
    if (std::set<string>(m.keywords().begin(), m.keywords().end()) != g.kt) no("keywords"); if (m.manifest() != g.mt) no("manifest"); if (m.peer_adresses() != g.pe) no("peers");
}
static void magnets()
{
    vp::assume("topics are urns of unreserved characters and colons; keywords are not empty");
    vp::part("round-trip", "every combination of up to 3 (thorough: 4) parameters with several values each: exact text, every output iterator, and reading it back", {vp::thorough() ? 4 : 3, 600}, [](ctx& c) {
        G g; string d; auto dev = [&](int n, const char* w) { int v = c.choose_cost(n, 1); if (v) d += cat(w, v, ' '); return std::size_t(v); };
        string every; for (int k = 0; k < 256; ++k) every += char(k);
        g.xt = std::vector<strs>{{}, {"urn:btih:" + string(40, 'a')}, {"urn:btih:" + string(40, '1'), "urn:btmh:1220" + string(64, 'f')}}[dev(3, "xt")];
        static const strs text = {"", "n", "a&b=c", "100%", "%41", "a+b c", "\xe2\x82\xac", "?#"}; g.dn = dev(2, "dn*") ? every : text[dev(8, "dn")];
        g.xl = std::vector<std::size_t>{0, 1, 1000, std::numeric_limits<std::size_t>::max()}[dev(4, "xl")];
        static const std::vector<strs> lists = {{}, {"http://t/?a=1&b=%20"}, {"b", "a", "b"}, {"", "x"}}; g.tr = lists[dev(4, "tr")]; g.ws = lists[dev(4, "ws")]; g.as = lists[dev(4, "as")];
        g.xs = text[dev(8, "xs")]; g.mt = text[dev(8, "mt")];
        g.kt = std::vector<std::set<string>>{{}, {"k"}, {"k", "l m"}, {"a+b", "c&d", "%2B"}}[dev(4, "kt")];
        g.pe = std::vector<strs>{{}, {"[::1]:80"}, {"h:1", "h:2"}}[dev(3, "pe")];
        c.describe(d);
        auto m = make(g); same(c, g, m, "built"); 
        string u = dt::encode_magnet_uri(m); c.transition();
        // text
        strs parts; auto add = [&](const string& k, const string& v) { parts.push_back(k + "=" + v); };
        for (auto& x : g.xt) add("xt", x); if (!g.dn.empty()) add("dn", pct(g.dn)); if (g.xl) add("xl", std::to_string(g.xl)); for (auto& x : g.tr) add("tr", pct(x)); for (auto& x : g.ws) add("ws", pct(x)); for (auto& x : g.as) add("as", pct(x)); if (!g.xs.empty()) add("xs", pct(g.xs)); if (!g.mt.empty()) add("mt", pct(g.mt)); for (auto& x : g.pe) add("x.pe", pct(x));
        c.expect(u.starts_with("magnet:?"), "scheme", "scheme"); strs got; { string q = u.substr(8); std::size_t p = 0; while (p <= q.size() && !q.empty()) { auto e = q.find('&', p); if (e == string::npos) e = q.size(); got.push_back(q.substr(p, e - p)); p = e + 1; } }
        strs rest; string kt; for (auto& x : got) if (x.starts_with("kt=")) kt = x.substr(3); else rest.push_back(x);
        auto sorted = [](strs v) { std::sort(v.begin(), v.end()); return v; };
        c.expectf(sorted(rest) == sorted(parts), "text", [&] { return cat("encoded as ", u); });
        if (!g.kt.empty()) { std::set<string> ks; std::size_t p = 0; while (p <= kt.size()) { auto e = kt.find('+', p); if (e == string::npos) e = kt.size(); ks.insert(kt.substr(p, e - p)); p = e + 1; } std::set<string> want; for (auto& k : g.kt) want.insert(pct(k)); c.expectf(ks == want, "keywords", [&] { return cat("keywords encoded as ", kt); }); }
        // every output iterator
        std::ostringstream os; dt::encode_magnet_uri(m, std::ostreambuf_iterator<char>(os)); c.expect(os.str() == u, "iterator", "other text through a stream iterator");
        std::vector<char> buf(u.size() + 1, '!'); dt::encode_magnet_uri(m, buf.data()); c.expect(string(buf.data(), u.size()) == u && buf.back() == '!', "iterator", "other text through a pointer");
        // and back
        same(c, g, dt::make_magnet_uri(std::string_view(u)), "read back"); c.transition(3); c.nontrivial(); c.state(u);
    });
    vp::part("metafile", "the magnet uri of every layout, stored and requested version, name, trackers, web seeds and nodes", {}, [](ctx& c) {
        M m; m.proto = 1 + c.choose(3); int li = c.choose(int(layouts().size())); m.files = layouts()[std::size_t(li)].second; m.single = li < 3; m.name = std::vector<string>{"", "n m"}[std::size_t(c.choose(2))]; if (c.flag()) { m.trackers = {{"t2", "t1"}, {"t3"}}; m.web = {"w2", "w1"}; m.nodes = {{"h", 1}, {"g", 65535}}; } int as = 1 + c.choose(3);
        c.describe(cat("layout ", li, " storage v", m.proto, " asked for v", as)); auto r = build(m); auto u = dt::make_magnet_uri(r, P(as));
        G g; int eff = m.proto == 3 ? as : m.proto; string info = info_slice(dt::write_metafile(r, P(m.proto)));
        if (eff & 1) g.xt.push_back("urn:btih:" + hex(sha1(info))); if (eff & 2) g.xt.push_back("urn:btmh:1220" + hex(sha256(info)));
        g.dn = m.name; for (auto& t : m.tiers()) for (auto& x : t) g.tr.push_back(x); g.ws = m.web; for (auto& [h, p] : m.nodes) g.pe.push_back(cat(h, ':', p));
        same(c, g, u, "made from a metafile"); same(c, g, dt::make_magnet_uri(std::string_view(dt::encode_magnet_uri(u))), "read back"); c.nontrivial(); c.transition(3); c.state(dt::encode_magnet_uri(u));
    });
    vp::part("malformed", "every string of up to 6 tokens after the scheme, every truncation of the scheme: parsed or rejected with an exception, and what is parsed is stable", {}, [](ctx& c) {
        static const strs tok = {"xt", "=", "&", "%", "4", "xl=", "kt=", "+", "dn=", ":"}; string s; int kind = c.choose(2);
        if (kind == 0) { string full = "magnet:?xt=urn:btih:aa&xl=12"; int n = c.choose(int(full.size()) + 1); s = full.substr(0, std::size_t(n)); if (c.flag()) s = "M" + s; }
        else { s = "magnet:?"; int n = c.choose(vp::thorough() ? 7 : 6); for (int k = 0; k < n; ++k) s += c.pick(tok); }
        c.describe(s); std::unique_ptr<char[]> b(new char[s.size()]); std::memcpy(b.get(), s.data(), s.size());
        bool ok = true; dt::magnet_uri m; try { m = dt::make_magnet_uri(std::string_view(b.get(), s.size())); } catch (const std::exception&) { ok = false; }
        if (!s.starts_with("magnet:?")) c.expect(!ok, "scheme", "accepted without the scheme");
        c.count(ok ? "accepted" : "rejected");
        if (ok) {
            bool safe = true; for (auto& t : m.topics()) for (unsigned char ch : t) if (!(std::isalnum(ch) || ch == ':')) safe = false; for (auto& k : m.keywords()) if (k.empty()) safe = false;
            if (safe) { string u = dt::encode_magnet_uri(m); auto m2 = dt::make_magnet_uri(std::string_view(u)); G g; g.xt = m.topics(); g.dn = m.display_name(); g.xl = m.size(); g.tr = m.trackers(); g.ws = m.web_seeds(); g.as = m.acceptable_sources(); g.xs = m.exact_source(); g.kt = std::set<string>(m.keywords().begin(), m.keywords().end()); g.mt = m.manifest(); g.pe = m.peer_adresses(); same(c, g, m2, "written and read again"); }
        }
        c.nontrivial(); c.transition(); c.state(s);
    });
    vp::part("sizes", "the xl parameter: every string of up to 5 of the characters 0, 1, 9, -, +, x, space, %30 and every number around the limits of 32 and 64 bits", {}, [](ctx& c) {
        static const strs ch = {"0", "1", "9", "-", "+", "x", " ", "%30", "."}; string v;
        if (c.flag()) { int n = c.choose(vp::thorough() ? 7 : 6); for (int k = 0; k < n; ++k) v += c.pick(ch); }
        else { static const strs big = {"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551620", "99999999999999999999", "184467440737095516150", "340282366920938463463374607431768211456"}; v = c.pick(big); if (c.flag()) v = "000" + v; if (c.flag()) v += c.flag() ? "x" : " "; }
        int place = c.choose(3); string s = "magnet:?" + (place == 0 ? "xl=" + v + "&xt=urn:btih:aa" : place == 1 ? "xt=urn:btih:aa&xl=" + v : "xt=urn:btih:aa&xl=" + v + "&dn=n"); c.describe(s);
        bool number = !v.empty(); unsigned __int128 want = 0; for (char d : v) { if (d < '0' || d > '9') number = false; else if (want < (unsigned __int128)1 << 100) want = want * 10 + unsigned(d - '0'); } if (want >> 64) number = false;
        bool ok = true; dt::magnet_uri m; try { m = dt::make_magnet_uri(std::string_view(s)); } catch (const std::exception&) { ok = false; }
        c.expectf(ok == number, "number", [&] { return cat("the size '", v, "' is ", ok ? "accepted" : "refused"); });
        if (ok) { c.expectf(m.size() == std::size_t(want), "number", [&] { return cat("the size '", v, "' is read as ", m.size()); }); c.expect(m.topics() == strs{"urn:btih:aa"} && m.display_name() == (place == 2 ? "n" : ""), "fields", "the other fields are lost"); }
        c.count(ok ? "accepted" : "rejected"); c.nontrivial(); c.transition(); c.state(s);
    });
}
int main(int argc, char** argv)
{
    vp::init(argc, argv);
    string p; for (int i = 1; i + 1 < argc; ++i) if (string(argv[i]) == "--prop") p = argv[i + 1];
    if (p == "round-trip") round_trip();
    else if (p == "info-hash-stable") info_hash_prop();
    else if (p == "malformed-metafile") malformed();
    else if (p == "metafile-editing") editing();
    else if (p == "magnet") magnets();
    else if (p == "metafile-encoding") encoding();
    else { std::puts("unknown property"); return 2; }
    return vp::finish();
}
