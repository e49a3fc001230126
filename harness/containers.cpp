// In-memory structures: merkle trees, file entries, file storage, piece geometry, announce lists, info hashes.
#include "vp.hpp"
#include "dottorrent/merkle_tree.hpp"
#include "dottorrent/file_storage.hpp"
#include "dottorrent/announce_url_list.hpp"
#include "dottorrent/info_hash.hpp"
#include <openssl/sha.h>
#include <unordered_set>
#include <fstream>
#include <optional>
#include <sys/stat.h>
#include <unistd.h>
using vp::ctx;
using vp::cat;
namespace dt = dottorrent;
namespace fs = std::filesystem;

static std::string sha1(std::string_view s) { std::string r(20, 0); SHA1(reinterpret_cast<const unsigned char*>(s.data()), s.size(), reinterpret_cast<unsigned char*>(r.data())); return r; }
static std::string sha256(std::string_view s) { std::string r(32, 0); SHA256(reinterpret_cast<const unsigned char*>(s.data()), s.size(), reinterpret_cast<unsigned char*>(r.data())); return r; }
static std::string id256(int k) { return k < 0 ? std::string(32, 0) : sha256("leaf" + std::to_string(k)); }
template <class H> static std::string bytes(const H& h) { return std::string(std::string_view(h)); }

// ---------------------------------------------------------------- merkle trees
template <dt::hash_function FN> struct ref_tree {
    static constexpr std::size_t W = FN == dt::hash_function::sha1 ? 20 : 32;
    static std::string H(const std::string& s) { return FN == dt::hash_function::sha1 ? sha1(s) : sha256(s); }
    static std::string val(int k) { return k < 0 ? std::string(W, 0) : H("leaf" + std::to_string(k)); }
    std::vector<std::vector<std::string>> layer;
    void leaves(std::size_t n, const std::string& v)
    {
        std::size_t w = 1; while (w < n) w *= 2;
        layer.clear();
        for (std::size_t k = w;; k /= 2) { layer.insert(layer.begin(), std::vector<std::string>(k, v)); if (k == 1) break; }
    }
    void update() { for (std::size_t l = layer.size() - 1; l > 0; --l) for (std::size_t i = 0; i < layer[l].size(); i += 2) layer[l - 1][i / 2] = H(layer[l][i] + layer[l][i + 1]); }
};
template <dt::hash_function FN> static void compare(ctx& c, dt::merkle_tree<FN>& t, ref_tree<FN>& r, const char* when)
{
    std::size_t h = r.layer.size() - 1, w = r.layer.back().size();
    c.expectf(t.tree_height() == h && t.leaf_count() == w && t.node_count() == 2 * w - 1, "shape", [&] { return cat(when, ": height ", t.tree_height(), ", leaves ", t.leaf_count(), ", nodes ", t.node_count(), " instead of ", h, ", ", w, ", ", 2 * w - 1); });
    std::size_t flat = 0;
    for (std::size_t l = 0; l <= h; ++l) {
        auto span = t.get_layer(l);
        c.expectf(span.size() == r.layer[l].size(), "layer", [&] { return cat(when, ": layer ", l, " has ", span.size(), " nodes"); });
        for (std::size_t i = 0; i < r.layer[l].size(); ++i, ++flat) {
            c.expectf(bytes(t.get_node(l, i)) == r.layer[l][i], "node", [&] { return cat(when, ": node ", i, " of layer ", l, " of a tree with ", w, " leaves is wrong"); });
            c.expectf(bytes(span[i]) == r.layer[l][i], "layer", [&] { return cat(when, ": get_layer(", l, ")[", i, "] is wrong"); });
            c.expect(bytes(t.data()[flat]) == r.layer[l][i], "data", "data() is not in layer order");
        }
    }
    for (std::size_t i = 0; i < w; ++i) c.expect(bytes(t.get_leaf(i)) == r.layer[h][i], "leaf", "get_leaf");
    c.expectf(bytes(t.root()) == r.layer[0][0], "root", [&] { return cat(when, ": wrong root for ", w, " leaves"); });
    c.expect(t.has_root() == (r.layer[0][0] != std::string(ref_tree<FN>::W, 0)), "has-root", "has_root disagrees with the root");
    c.transition(flat);
}
template <dt::hash_function FN> static void ranges(ctx& c, dt::merkle_tree<FN>& t, ref_tree<FN>& r)
{
    std::size_t h = r.layer.size() - 1;
    for (std::size_t l = 0; l <= h; ++l) {
        std::size_t n = r.layer[l].size();
        for (std::size_t a = 0; a < n; ++a)
            for (std::size_t b = a; b <= n; ++b) {
                auto s = t.get_node_range(l, a, b);
                c.expectf(s.size() == b - a, "range", [&] { return cat("range ", a, "-", b, " of layer ", l, " has ", s.size(), " nodes"); });
                for (std::size_t i = a; i < b; ++i) c.expect(bytes(s[i - a]) == r.layer[l][i], "range", "get_node_range gives other nodes");
                c.transition();
            }
    }
    // layers of the subtree below each node (flat index)
    std::size_t flat = 0;
    for (std::size_t l = 0; l <= h; ++l)
        for (std::size_t i = 0; i < r.layer[l].size(); ++i, ++flat)
            for (std::size_t d = 0; l + d <= h; ++d) {
                auto s = t.get_layer(d, flat);
                c.expectf(s.size() == (std::size_t(1) << d), "subtree", [&] { return cat("layer ", d, " of the subtree at node ", flat, " has ", s.size(), " nodes"); });
                for (std::size_t k = 0; k < s.size(); ++k) c.expectf(bytes(s[k]) == r.layer[l + d][(i << d) + k], "subtree", [&] { return cat("layer ", d, " of the subtree at node ", flat, " is wrong"); });
                c.transition();
            }
}
template <dt::hash_function FN> static typename dt::merkle_tree<FN>::value_type mk(const std::string& s) { return typename dt::merkle_tree<FN>::value_type(std::string_view(s)); }

template <dt::hash_function FN> static void merkle_sizes(ctx& c, int n, int init, int pattern, int order)
{
    using R = ref_tree<FN>;
    dt::merkle_tree<FN> t{}; R r;
    auto v = R::val(init);
    switch (order) {
    case 0: { dt::merkle_tree<FN> x(std::size_t(n), mk<FN>(v)); r.leaves(std::size_t(n), v); t = x; break; }
    case 1: t.set_leaf_nodes(std::size_t(n), mk<FN>(v)); r.leaves(std::size_t(n), v); break;
    default: { dt::merkle_tree<FN> x{std::size_t(n)}; v = R::val(-1); r.leaves(std::size_t(n), v); t = std::move(x); break; }
    }
    compare(c, t, r, "new tree");
    std::size_t w = r.layer.back().size(), h = r.layer.size() - 1;
    for (std::size_t k = 0; k < w; ++k) {
        std::size_t i = order == 1 ? w - 1 - k : k;
        int id = pattern == 0 ? int(i) : pattern == 1 ? 7 : pattern == 2 ? int(i & (i ^ 1)) : -1;
        if (pattern == 3 && i >= std::size_t(n)) continue;
        t.set_leaf(i, mk<FN>(R::val(id))); r.layer[h][i] = R::val(id);
    }
    compare(c, t, r, "leaves set, not updated");
    if (order == 2) { auto hs = dt::make_hasher(FN); t.update(*hs); } else t.update();
    r.update();
    compare(c, t, r, "updated");
    if (n <= 9) ranges(c, t, r);
    c.nontrivial(); c.state(cat(n, ' ', init, ' ', pattern, ' ', order)); c.outcome(r.layer[0][0]);
}

static void merkle()
{
    vp::part("sizes", "every number of leaves up to 70 (quick) or 300 (thorough) plus powers of two and neighbours up to 1025 (4097); initial values, leaf patterns (distinct, equal, pairwise equal, zero), three construction and filling orders, SHA-256 and SHA-1; every node compared", {}, [](ctx& c) {
        static std::vector<int> sizes;
        if (sizes.empty()) { int m = vp::thorough() ? 300 : 70; for (int i = 1; i <= m; ++i) sizes.push_back(i); for (int p = 128; p <= (vp::thorough() ? 4096 : 1024); p *= 2) for (int d = -1; d <= 1; ++d) if (p + d > m) sizes.push_back(p + d); }
        int n = c.pick(sizes), init = c.choose(2) - 1, pat = c.choose(4), order = c.choose(3), fn = c.choose(2);
        c.describe(cat(n, " leaves, initial value ", init, ", leaf pattern ", pat, ", order ", order, fn ? ", sha1" : ", sha256"));
        if (fn) merkle_sizes<dt::hash_function::sha1>(c, n, init, pat, order); else merkle_sizes<dt::hash_function::sha256>(c, n, init, pat, order);
    });
    vp::part("histories", "every sequence of 5 (thorough 6) operations on a small tree: resize, set a leaf, update, copy and write to the copy, assign, move", {}, [](ctx& c) {
        constexpr auto FN = dt::hash_function::sha256; using R = ref_tree<FN>;
        dt::merkle_tree<FN> t(3); R r; r.leaves(3, R::val(-1));
        std::string log; int depth = vp::thorough() ? 6 : 5;
        for (int s = 0; s < depth; ++s) {
            int op = c.choose(11); log += char('a' + op);
            std::size_t w = r.layer.back().size(), h = r.layer.size() - 1;
            auto set = [&](std::size_t i, int id) { t.set_leaf(i, mk<FN>(R::val(id))); r.layer[h][i] = R::val(id); };
            c.describe(cat("history ", log));
            switch (op) {
            case 0: return;
            case 1: set(0, s); break;
            case 2: set(w - 1, s); break;
            case 3: set(w / 2, -1); break;
            case 4: t.update(); r.update(); break;
            case 5: t.set_leaf_nodes(1); r.leaves(1, R::val(-1)); break;
            case 6: t.set_leaf_nodes(5, mk<FN>(R::val(40))); r.leaves(5, R::val(40)); break;
            case 7: { dt::merkle_tree<FN> u(t); u.set_leaf(0, mk<FN>(R::val(99))); u.update(); break; }
            case 8: { dt::merkle_tree<FN> u(2, mk<FN>(R::val(5))); u = t; t.set_leaf_nodes(7); t = std::move(u); break; }
            case 9: { dt::merkle_tree<FN> u(std::move(t)); t = u; u.set_leaf_nodes(2); break; }
            case 10: { auto& same = t; t = same; set(0, 50 + s); break; }
            }
            c.tick();
            compare(c, t, r, log.c_str());
        }
        c.nontrivial(); std::string st; for (auto& l : r.layer) for (auto& x : l) st += x; c.state(st);
    });
}

// ---------------------------------------------------------------- entries and storages as values
struct ent { std::string path; std::size_t size = 0; int attr = -1; std::string target; int root = -1; int nlayer = -1; int sums = 0; int mtime = -1; int sum_val = 0; };
static std::unique_ptr<dt::checksum> sum(const char* name, int v, std::size_t n) { std::vector<std::byte> b(n, std::byte(v)); return dt::make_checksum(std::string_view(name), std::span<const std::byte>(b)); }
static dt::file_entry make(const ent& e)
{
    std::optional<dt::file_attributes> a; if (e.attr >= 0) a = dt::file_attributes(e.attr);
    std::optional<fs::path> t; if (!e.target.empty()) t = e.target;
    dt::file_entry f(e.path, e.size, a, t);
    if (e.root >= 0) f.set_pieces_root(dt::sha256_hash(std::string_view(id256(e.root))));
    if (e.nlayer >= 0) { std::vector<dt::sha256_hash> l; for (int i = 0; i < e.nlayer; ++i) l.emplace_back(std::string_view(id256(i))); f.set_piece_layer(l); }
    if (e.sums & 1) f.add_checksum(sum("md5", e.sum_val + 1, 16));
    if (e.sums & 2) f.add_checksum(sum("sha256", e.sum_val + 2, 32));
    if (e.sums & 4) f.add_checksum(sum("custom", e.sum_val + 3, 5));
    if (e.mtime >= 0) f.set_last_modified_time(fs::file_time_type(std::chrono::seconds(e.mtime)));
    return f;
}
static std::string show(const dt::file_entry& f)
{
    std::ostringstream o;
    o << f.path().string() << '|' << f.file_size() << '|' << (f.attributes() ? int(*f.attributes()) : -1) << '|' << (f.symlink_path() ? f.symlink_path()->string() : std::string("-")) << '|' << f.has_v2_data();
    if (f.has_v2_data()) { o << vp::hash(bytes(f.pieces_root())); for (auto& l : f.piece_layer()) o << ',' << vp::hash(bytes(l)); }
    o << '|' << (f.last_modified_time() ? f.last_modified_time()->time_since_epoch().count() : -1);
    for (auto& [k, v] : f.checksums()) { o << '|' << k << '=' << v->name() << ':'; for (auto b : v->value()) o << int(b) << '.'; if (f.get_checksum(k) != v.get()) o << "LOOKUP"; }
    o << '|' << f.is_symlink() << f.is_executable() << f.is_hidden() << f.is_padding_file();
    return o.str();
}
static std::string want(const ent& e)
{
    std::ostringstream o;
    bool v2 = e.root >= 0 || e.nlayer >= 0;
    o << e.path << '|' << e.size << '|' << e.attr << '|' << (e.target.empty() ? "-" : e.target) << '|' << v2;
    if (v2) { o << vp::hash(e.root >= 0 ? id256(e.root) : std::string(32, 0)); for (int i = 0; i < std::max(0, e.nlayer); ++i) o << ',' << vp::hash(id256(i)); }
    o << '|' << (e.mtime >= 0 ? fs::file_time_type(std::chrono::seconds(e.mtime)).time_since_epoch().count() : -1);
    auto put = [&](const char* n, int v, int len) { o << '|' << n << '=' << n << ':'; for (int i = 0; i < len; ++i) o << v << '.'; };
    if (e.sums & 4) put("custom", e.sum_val + 3, 5);
    if (e.sums & 1) put("md5", e.sum_val + 1, 16);
    if (e.sums & 2) put("sha256", e.sum_val + 2, 32);
    int a = std::max(0, e.attr);
    o << '|' << bool(a & 1) << bool(a & 2) << bool(a & 4) << bool(a & 8);
    return o.str();
}
static std::vector<ent> entry_space()
{
    std::vector<ent> v;
    for (int attr = -1; attr < 16; ++attr)
        for (int root = -1; root <= 1; ++root)
            for (int layer = -1; layer <= 2; ++layer)
                for (int sums : {0, 1, 2, 5, 7})
                    for (int mt : {-1, 0, 12345}) {
                        ent e; e.path = "d/f" + std::to_string(attr); e.attr = attr; bool link = attr >= 0 && (attr & 1); e.size = link ? 0 : std::size_t(layer + 5) * 1000; if (link) e.target = "d/t"; e.root = root; e.nlayer = layer; e.sums = sums; e.mtime = mt;
                        v.push_back(e);
                    }
    return v;
}
template <class T> static T pass(T t) { return t; }

static void values()
{
    static const auto space = entry_space();
    vp::part("entries", "every file entry of a space of attributes, v2 data, checksums, times and link targets: getters, copy, move, copy and move assignment over each of 5 other entries, independence of copies, checksum replacement and removal", {}, [](ctx& c) {
        const ent& e = c.pick(space);
        static const std::vector<ent> others = {{"x", 3}, {"y", 0, 1, "z"}, {"d/f0", 77, 2, "", 1, 2, 7, 9, 50}, {"w", 5, 8, "", 0, 0, 3, 1, 90}, {"", 0}};
        const ent& o = c.pick(others);
        c.describe(cat("entry ", want(e), " over ", want(o)));
        dt::file_entry f = make(e);
        const std::string w = want(e), wo = want(o);
        auto same = [&](const dt::file_entry& x, const std::string& y, const char* what) { auto s = show(x); c.expectf(s == y, what, [&] { return cat(what, ": ", s, " instead of ", y); }); c.transition(); };
        same(f, w, "content");
        dt::file_entry cp(f); same(cp, w, "copy"); same(f, w, "copied-from");
        dt::file_entry mv(std::move(cp)); same(mv, w, "move");
        dt::file_entry a = make(o); same(a, wo, "content"); a = f; same(a, w, "copy-assign"); same(f, w, "copy-assigned-from");
        dt::file_entry b = make(o); b = std::move(a); same(b, w, "move-assign");
        a = make(o); same(a, wo, "reuse");
        auto& self = b; b = self; same(b, w, "self-assign"); b = pass(b); same(b, w, "self-assign");
        std::swap(a, b); same(a, w, "swap"); same(b, wo, "swap");
        c.expect((a == b) == (e.path == o.path) && ((a <=> b) < 0) == (fs::path(e.path) < fs::path(o.path)), "order", "comparison by path");
        // a copy is independent of its original
        dt::file_entry k(a); k.add_checksum(sum("sha1", 4, 20)); k.set_pieces_root(dt::sha256_hash(std::string_view(id256(9)))); std::vector<dt::sha256_hash> l(3, dt::sha256_hash(std::string_view(id256(8)))); k.set_piece_layer(l); k.set_last_modified_time(fs::file_time_type(std::chrono::seconds(777)));
        same(a, w, "independent");
        c.expect(k.get_checksum("sha1") && k.get_checksum(dt::hash_function::sha1) == k.get_checksum("sha1") && !a.get_checksum("sha1") && !a.get_checksum(dt::hash_function::sha1), "checksum-lookup", "added checksum");
        k.remove_checksum("sha1"); c.expect(!k.get_checksum("sha1"), "checksum-remove", "checksum not removed");
        k.remove_checksum("absent");
        if (e.sums & 1) { k.remove_checksum("md5"); c.expect(!k.get_checksum("md5") && a.get_checksum("md5"), "checksum-remove", "removal from a copy"); }
        same(a, w, "independent");
        if (!f.has_v2_data()) {
            bool t1 = false, t2 = false; try { f.pieces_root(); } catch (const std::invalid_argument&) { t1 = true; } try { f.piece_layer(); } catch (const std::invalid_argument&) { t2 = true; }
            c.expect(t1 && t2, "v2-missing", "missing v2 data is not reported");
        }
        c.nontrivial(); c.state(w + "/" + wo);
    });
    vp::part("storages", "every storage of up to 3 entries with hashes, mode, root directory and index state, copied, moved and assigned over others; copies are independent", {}, [](ctx& c) {
        static const std::vector<ent> es = {{"a", 20000, -1, "", 0, 2, 1, 3}, {"d/b", 0, 1, "d/c"}, {"p", 384, 8}, {"a", 5, 2, "", -1, -1, 6}};
        auto build = [&](dt::file_storage& s, std::vector<ent>& m, int n, int& mode, int& np, bool& rooted) {
            for (int i = 0; i < n; ++i) { auto& e = c.pick(es); s.add_file(make(e)); m.push_back(e); }
            mode = c.choose(3); s.set_file_mode(dt::file_mode(mode));
            np = 0; int ps = c.choose(3); if (ps) { s.set_piece_size(16384u << (ps - 1)); if (ps == 2) { s.allocate_pieces(); np = int(s.piece_count()); for (int i = 0; i < np; ++i) s.set_piece_hash(std::size_t(i), dt::sha1_hash(std::string_view(sha1(std::to_string(i))))); } }
            rooted = c.flag(); if (rooted) s.set_root_directory(vp::scratch());
            if (c.flag()) s.index();
        };
        auto dump = [](const dt::file_storage& s) {
            std::string o = cat(s.size(), ' ', s.file_count(), ' ', s.regular_file_count(), ' ', s.total_file_size(), ' ', s.total_regular_file_size(), ' ', s.piece_size(), ' ', s.piece_count(), ' ', int(s.file_mode()), ' ', int(s.protocol()), ' ', s.root_directory().string(), ' ', s.has_root_directory(), ' ');
            for (auto& f : s) o += show(f) + "\n";
            for (auto& p : s.pieces()) o += bytes(p);
            for (auto* f : s.directory_contents("d")) o += "<" + f->path().string();
            for (auto* f : s.directory_contents("a")) o += "<" + f->path().string();
            return o;
        };
        dt::file_storage s, t; std::vector<ent> ms, mt; int m1, m2, n1, n2; bool r1, r2;
        int n = c.choose(vp::thorough() ? 4 : 3);
        build(s, ms, n, m1, n1, r1);
        int over = c.choose(3);
        if (over == 1) { t.add_file(make(es[2])); t.set_piece_size(16384); t.allocate_pieces(); t.index(); t.set_file_mode(dt::file_mode::single); }
        if (over == 2) { t.add_file(make(es[0])); t.add_file(make(es[1])); t.index(); }
        (void)m2; (void)n2; (void)r2;
        c.describe(cat("storage with ", n, " entries, mode ", m1, ", ", n1, " pieces, rooted ", r1, ", assigned over kind ", over));
        auto w = dump(s);
        dt::file_storage cp(s); auto d1 = dump(cp); c.expectf(d1 == w, "copy", [&] { return cat("copy ", vp::quote(d1), " of ", vp::quote(w)); });
        t = s; auto d2 = dump(t); c.expectf(d2 == w, "copy-assign", [&] { return cat("assigned ", vp::quote(d2), " from ", vp::quote(w)); });
        c.expect(t == s && cp == s, "equal", "a copy differs");
        dt::file_storage mv(std::move(cp)); c.expect(dump(mv) == w, "move", "moved-to storage differs");
        dt::file_storage ma; ma.add_file(make(es[3])); ma.index(); ma = std::move(mv); c.expect(dump(ma) == w, "move-assign", "move-assigned storage differs");
        // independence
        t.add_file(make(es[1])); if (n) { t[0].set_pieces_root(dt::sha256_hash(std::string_view(id256(77)))); t[0].add_checksum(sum("sha512", 1, 64)); }
        t.set_piece_size(65536); c.expect(dump(s) == w && dump(ma) == w, "independent", "changing a copy changes the original");
        s.clear(); c.expect(s.size() == 0 && s.file_count() == 0 && s.total_file_size() == 0 && s.total_regular_file_size() == 0 && s.pieces().empty() && s.begin() == s.end() && s.file_mode() == dt::file_mode::empty && s.piece_count() == 0 && s.directory_contents("").empty(), "clear", "clear leaves something behind");
        c.expect(dump(ma) == w, "independent", "clearing the original changes the copy");
        c.nontrivial(); c.transition(8); c.state(w);
    });
}

// ---------------------------------------------------------------- storage bookkeeping
static void bookkeeping()
{
    vp::part("sequences", "every sequence of 4 (thorough 5) operations add (plain, empty, padding, link, larger file, second file of the same path), remove (present, absent), clear, set piece size, allocate and set hashes, set mode, look up a directory", {}, [](ctx& c) {
        static const std::vector<ent> es = {{"dir/a", 16384}, {"dir/b", 1}, {"dir2/c", 40000, 2}, {".pad/384", 384, 8}, {"dir/l", 0, 1, "dir/a"}, {"e", 0}, {"dir/a", 7}};
        dt::file_storage s; std::vector<ent> m; std::size_t ps = 0; int mode = 0; std::vector<std::string> pieces;
        std::string log; int depth = vp::thorough() ? 5 : 4;
        auto total = [&](bool pad) { std::size_t t = 0; for (auto& e : m) if (pad || !(e.attr >= 0 && (e.attr & 8))) t += e.size; return t; };
        auto check = [&] {
            std::size_t T = total(true), R = total(false), n = m.size(), reg = 0; for (auto& e : m) reg += !(e.attr >= 0 && (e.attr & 8));
            c.expectf(s.total_file_size() == T && s.total_regular_file_size() == R, "size", [&] { return cat("total ", s.total_file_size(), "/", s.total_regular_file_size(), " instead of ", T, "/", R); });
            c.expectf(s.file_count() == n && s.size() == n && s.regular_file_count() == reg && std::size_t(s.end() - s.begin()) == n && std::size_t(s.rend() - s.rbegin()) == n && std::size_t(s.cend() - s.cbegin()) == n && std::size_t(s.crend() - s.crbegin()) == n, "count", [&] { return cat("counts ", s.file_count(), "/", s.regular_file_count()); });
            for (std::size_t i = 0; i < n; ++i) {
                const auto& k = s; auto a = show(k[i]), b = want(m[i]);
                c.expectf(a == b, "entry", [&] { return cat("entry ", i, " is ", a, " instead of ", b); });
                c.expect(&k[i] == &k.at(i) && &s[i] == &s.at(i) && &*(k.begin() + long(i)) == &k[i], "access", "accessors disagree");
            }
            bool threw = false; try { s.at(n); } catch (const std::out_of_range&) { threw = true; } c.expect(threw, "access", "at() beyond the end");
            if (n) { const auto& k = s; c.expect(&s.front() == &s[0] && &k.front() == &k[0] && &s.back() == &s[n - 1] && &k.back() == &k[n - 1] && &*s.rbegin() == &s[n - 1], "access", "front/back"); }
            c.expectf(s.piece_size() == ps && s.piece_count() == (ps ? (T + ps - 1) / ps : 0), "pieces", [&] { return cat("piece count ", s.piece_count(), " for ", T, " bytes of piece size ", ps); });
            c.expectf(int(s.file_mode()) == (n == 0 ? 0 : n == 1 ? mode : 2), "mode", [&] { return cat("file mode ", int(s.file_mode()), " with ", n, " files and mode ", mode); });
            c.expectf(s.pieces().size() == pieces.size(), "hashes", [&] { return cat(s.pieces().size(), " piece hashes instead of ", pieces.size()); });
            for (std::size_t i = 0; i < pieces.size(); ++i) c.expectf(bytes(s.pieces()[i]) == pieces[i], "hashes", [&] { return cat("piece hash ", i); });
            bool v1 = !pieces.empty(), v2 = true; for (auto& e : m) if (e.size && !(e.attr >= 0 && (e.attr & 8)) && e.root < 0 && e.nlayer < 0) v2 = false;
            int proto = v1 && v2 ? 3 : v1 ? 1 : v2 ? 2 : T == 0 ? 1 : 0;
            c.expectf(int(s.protocol()) == proto, "protocol", [&] { return cat("protocol ", int(s.protocol()), " instead of ", proto); });
            std::string all; for (auto& p : pieces) all += p;
            c.expect(dt::make_v1_pieces_string(s) == all, "pieces-string", "pieces string");
        };
        auto lookup = [&](const char* d) {
            auto got = s.directory_contents(d); std::multiset<std::string> g, w; std::string dir = d;
            for (auto* p : got) { bool in = false; for (auto& e : s) in |= &e == p; c.expect(in, "directory", "an entry that is not in the storage"); g.insert(show(*p)); }
            for (auto& e : m) if (dir.empty() || e.path.rfind(dir + "/", 0) == 0 ) w.insert(want(e));
            c.expectf(g == w, "directory", [&] { return cat("directory ", vp::quote(dir), " lists ", g.size(), " entries instead of ", w.size()); });
            c.expectf(std::is_sorted(got.begin(), got.end(), [](auto* a, auto* b) { return a->path() < b->path(); }), "directory", [] { return "listing is not sorted"; });
        };
        for (int step = 0; step < depth; ++step) {
            int op = c.choose(19); log += cat(op, ' ');
            c.describe(cat("operations ", log));
            if (op == 0) break;
            if (op <= 7) { auto& e = es[std::size_t(op - 1)]; if (op % 2) s.add_file(make(e)); else { auto f = make(e); s.add_file(f); } m.push_back(e); }
            else if (op <= 10) { const char* p = op == 8 ? "dir/a" : op == 9 ? ".pad/384" : "no"; s.remove_file(dt::file_entry(p, 1)); for (auto it = m.begin(); it != m.end(); ++it) if (it->path == p) { m.erase(it); break; } }
            else if (op == 11) { if (!m.empty()) { s.remove_file(s.back()); auto p = m.back().path; for (auto it = m.begin(); it != m.end(); ++it) if (it->path == p) { m.erase(it); break; } } }
            else if (op == 12) { s.clear(); m.clear(); pieces.clear(); }
            else if (op == 13) { s.set_piece_size(16384); ps = 16384; pieces.clear(); for (auto& e : m) e.root = e.nlayer = -1; }
            else if (op == 14) { s.set_piece_size(1 << 20); ps = 1 << 20; pieces.clear(); for (auto& e : m) e.root = e.nlayer = -1; }
            else if (op == 15) { s.allocate_pieces(); pieces.assign(s.piece_count(), std::string(20, 0)); for (std::size_t i = 0; i < pieces.size(); ++i) { auto h = sha1(cat(step, ' ', i)); s.set_piece_hash(i, dt::sha1_hash(std::string_view(h))); pieces[i] = h; } for (std::size_t i = 0; i < pieces.size(); ++i) c.expect(bytes(s.get_piece_hash(i)) == pieces[i], "hashes", "get_piece_hash"); }
            else if (op == 16) { mode = 1; s.set_file_mode(dt::file_mode::single); }
            else if (op == 17) { lookup("dir"); lookup("dir2"); lookup(".pad"); lookup("di"); lookup(""); lookup("zz"); }
            else { if (!m.empty()) { s[0].set_pieces_root(dt::sha256_hash(std::string_view(id256(1)))); m[0].root = 1; s.set_last_modified_time(0, fs::file_time_type(std::chrono::seconds(3))); m[0].mtime = 3; } }
            check(); c.transition(); c.tick();
        }
        lookup("dir"); lookup("");
        c.nontrivial(); std::string st; for (auto& e : m) st += want(e) + "\n"; c.state(cat(st, ps, mode, pieces.size()));
    });
    vp::part("directories", "every storage of up to 4 entries over nested, shared-prefix and padding paths: directory counts and listings against a reference", {}, [](ctx& c) {
        static const std::vector<ent> es = {{"a", 1}, {"d/a", 1}, {"d/e/a", 1}, {"dd/a", 1}, {"d/.pad/1", 1, 8}, {".pad/5", 5, 8}, {"d/e/f/g", 1}, {"e/d/x", 1}};
        dt::file_storage s; std::vector<ent> m; int n = c.choose(vp::thorough() ? 6 : 5);
        for (int i = 0; i < n; ++i) { auto& e = c.pick(es); s.add_file(make(e)); m.push_back(e); }
        std::string d; for (auto& e : m) d += e.path + " ";
        c.describe(cat("files ", d));
        auto under = [](const std::string& p, const std::string& dir) { return dir.empty() || p.rfind(dir + "/", 0) == 0; };
        for (std::string root : {"", "d", "d/e", "dd", ".pad", "e", "zz"}) {
            std::map<std::string, bool> dirs; // directory -> only padding
            for (auto& e : m) { if (!under(e.path, root)) continue; for (std::size_t i = 0; (i = e.path.find('/', i)) != std::string::npos; ++i) { auto [it, nw] = dirs.emplace(e.path.substr(0, i), true); (void)nw; } }
            for (auto& [k, v] : dirs) for (auto& e : m) if (under(e.path, k) && e.attr != 8) v = false;
            std::size_t all = dirs.size(), np = 0; for (auto& [k, v] : dirs) np += !v;
            auto g1 = dt::directory_count(s, root, true), g2 = dt::directory_count(s, root, false);
            if (root.empty()) c.expectf(g1 == all && g2 == np, "directory-count", [&] { return cat("below ", vp::quote(root), ": ", g1, " directories, ", g2, " without padding, instead of ", all, ", ", np); });
            if (!root.empty()) { bool any = false, onlypad = true; for (auto& e : m) if (under(e.path, root)) { any = true; onlypad &= e.attr == 8; } if (any) c.expectf(dt::is_padding_directory(s, root) == onlypad, "padding-directory", [&] { return cat(root, " is", onlypad ? "" : " not", " a padding directory"); }); }
            std::multiset<std::string> w, g; for (auto& e : m) if (under(e.path, root)) w.insert(e.path); for (auto* f : s.directory_contents(root)) g.insert(f->path().string());
            c.expectf(g == w, "directory", [&] { return cat("listing of ", vp::quote(root)); });
            c.transition(3);
        }
        c.nontrivial(); c.state(d);
    });
}

// ---------------------------------------------------------------- piece geometry
static void geometry()
{
    vp::part("mapping", "every storage of up to 4 files with sizes around the piece boundary, padding, links and empty files, two piece sizes: piece count, piece range of every file, size scans, alignment", {}, [](ctx& c) {
        std::size_t P = c.flag() ? 32768 : 16384; int n = c.choose(vp::thorough() ? 6 : 5);
        dt::file_storage s; std::vector<ent> m; std::string d;
        for (int i = 0; i < n; ++i) {
            int k = c.choose(9); std::size_t z = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? P - 1 : k == 3 ? P : k == 4 ? P + 1 : k == 5 ? 2 * P : k == 6 ? 2 * P + 5 : k == 7 ? P - 1 : 3;
            ent e{cat("f", i), z, k >= 7 ? 8 : -1}; if (i == 0 && k == 8) { e.attr = 1; e.size = 0; e.target = "t"; }
            s.add_file(make(e)); m.push_back(e); d += cat(e.attr, ':', e.size, ' ');
        }
        s.set_piece_size(P); s.allocate_pieces();
        c.describe(cat("piece size ", P, ", files ", d));
        for (std::size_t i = 0; i < s.piece_count(); ++i) s.set_piece_hash(i, dt::sha1_hash(std::string_view(sha1(std::to_string(i)))));
        std::size_t off = 0; bool aligned = true;
        auto ex = dt::exclusive_file_size_scan(s), i1 = dt::inclusive_file_size_scan_v1(s), i2 = dt::inclusive_file_size_scan_v2(s);
        c.expect(ex.size() == m.size() && i1.size() == m.size() && i2.size() == m.size(), "scan", "length of a size scan");
        std::size_t reg = 0;
        for (std::size_t i = 0; i < m.size(); ++i) {
            c.expectf(ex[i] == off, "scan", [&] { return cat("offset of file ", i, " is ", ex[i]); });
            auto [a, b] = s.get_pieces_offsets(i);
            std::size_t z = m[i].size, wa = off / P, wb = z ? (off + z - 1) / P + 1 : wa;
            c.expectf(a == wa && b == wb, "file-pieces", [&] { return cat("file ", i, " covers pieces ", a, "-", b, " instead of ", wa, "-", wb); });
            auto sp = s.get_pieces_span(i); c.expect(sp.size() == wb - wa && (sp.empty() || sp.data() == s.pieces().data() + wa), "file-pieces", "piece span of a file");
            bool pad = m[i].attr == 8; if (!pad) { aligned &= off % P == 0; reg += z; }
            off += z;
            c.expectf(i1[i] == off && i2[i] == reg, "scan", [&] { return cat("cumulative size after file ", i, " is ", i1[i], "/", i2[i]); });
            c.transition(4);
        }
        c.expect(s.piece_count() == (off + P - 1) / P && s.pieces().size() == s.piece_count(), "count", "piece count");
        c.expectf(dt::is_piece_aligned(s) == aligned, "aligned", [&] { return cat("is_piece_aligned says ", !aligned); });
        c.nontrivial(); c.state(d + std::to_string(P));
    });
    vp::part("large", "file sizes next to powers of two up to 2^62: counts, offsets and scans do not overflow or round", {}, [](ctx& c) {
        int e1 = c.choose(63), d1 = c.choose(3) - 1, e2 = c.choose(63), k = c.choose(11); std::size_t a = (std::size_t(1) << e1) + std::size_t(d1), b = std::size_t(1) << e2, P = std::size_t(16384) << k;
        c.describe(cat("files of ", a, " and ", b, " bytes, piece size ", P));
        dt::file_storage s; s.add_file(dt::file_entry("a", a)); s.add_file(dt::file_entry("b", b)); s.set_piece_size(P);
        auto up = [&](unsigned __int128 x) { return std::size_t((x + P - 1) / P); };
        c.expectf(s.total_file_size() == a + b && s.total_regular_file_size() == a + b && s.piece_count() == up((unsigned __int128)a + b), "count", [&] { return cat("piece count ", s.piece_count()); });
        auto [x, y] = s.get_pieces_offsets(1); c.expectf(x == a / P && y == up((unsigned __int128)a + b), "file-pieces", [&] { return cat("pieces ", x, "-", y); });
        c.expect(dt::exclusive_file_size_scan(s)[1] == a && dt::inclusive_file_size_scan_v1(s)[1] == a + b && dt::inclusive_file_size_scan_v2(s)[0] == a, "scan", "size scan");
        c.expect(dt::is_piece_aligned(s) == (a % P == 0), "aligned", "alignment");
        c.nontrivial(); c.state(cat(a, ' ', b, ' ', P)); c.transition(5);
    });
    vp::part("absolute-paths", "every storage of up to 3 entries: absolute paths are the root joined with the entry path, in order; a missing location is reported", {}, [](ctx& c) {
        static const std::vector<std::string> ps = {"a", "d/b", "d/../a", ".pad/3", "x y"};
        dt::file_storage s; int n = c.choose(4); std::vector<std::string> w; std::string root = fs::canonical(vp::worker_dir()).string();
        int kind = c.choose(3);
        std::string dir = root + "/st"; fs::create_directories(dir + "/d");
        s.set_root_directory(kind == 1 ? root + "/./st" : kind == 2 ? root + "/st/d/.." : dir);
        for (int i = 0; i < n; ++i) { auto& p = c.pick(ps); s.add_file(dt::file_entry(p, 1)); w.push_back((fs::path(dir) / p).lexically_normal().string()); }
        c.describe(cat("root kind ", kind, ", ", n, " files"));
        auto got = dt::absolute_file_paths(s); c.expect(got.size() == w.size(), "paths", "number of paths");
        for (int i = 0; i < n; ++i) c.expectf(got[std::size_t(i)].string() == w[std::size_t(i)], "paths", [&] { return cat(got[std::size_t(i)].string(), " instead of ", w[std::size_t(i)]); });
        fs::remove_all(dir); bool threw = false; try { dt::absolute_file_paths(s); } catch (const std::invalid_argument&) { threw = true; } c.expect(threw, "missing-root", "a vanished root directory is not reported");
        c.nontrivial(); c.transition(); c.state(cat(kind, n));
    });
}

static void piece_size()
{
    vp::part("sizes", "every total size 2^e+d for e up to 62 and d from -3 to 3, alone or split over two files, with padding files, and every size up to 64 KiB in steps of 97: the chosen piece size", {}, [](ctx& c) {
        int kind = c.choose(2); std::size_t t;
        if (kind == 0) { int e = c.choose(63), d = c.choose(7) - 3; t = (std::size_t(1) << e) + std::size_t(d); if (d < 0 && (std::size_t(1) << e) < std::size_t(-d)) t = 0; } else t = std::size_t(c.choose(677)) * 97;
        int split = c.choose(3);
        c.describe(cat("total size ", t, split == 1 ? " in two files" : split == 2 ? " with a padding file" : ""));
        dt::file_storage s;
        if (split == 1) { s.add_file(dt::file_entry("a", t / 3)); s.add_file(dt::file_entry("b", t - t / 3)); }
        else if (split == 2) { s.add_file(dt::file_entry("a", t / 2)); s.add_file(dt::make_padding_file_entry(t - t / 2)); }
        else s.add_file(dt::file_entry("a", t));
        if (t == 0 && split == 0 && c.flag()) { dt::file_storage e; auto p = dt::choose_piece_size(e); c.expect(p == 32768 && e.piece_size() == p, "empty", "piece size of an empty storage"); }
        auto p = dt::choose_piece_size(s);
        std::size_t w = 32768; while (w < (std::size_t(1) << 24) && t >> 1 >= (w << 9)) w <<= 1;
        c.expectf(std::has_single_bit(p) && p >= 16384 && p <= (std::size_t(1) << 24), "range", [&] { return cat("piece size ", p); });
        c.expectf(p == w, "choice", [&] { return cat("piece size ", p, " for ", t, " bytes instead of ", w); });
        c.expect(s.piece_size() == p && s.piece_count() == t / p + (t % p != 0), "set", "the storage does not use the returned piece size");
        c.nontrivial(); c.transition(); c.state(std::uint64_t(t)); c.outcome(std::uint64_t(p));
    });
}

static void alignment()
{
    vp::part("align", "every storage of up to 4 (thorough 5) entries with sizes around the piece boundary, empty files, links and existing padding files: content and order kept, aligned afterwards, minimal padding, idempotent, stale hashes dropped", {}, [](ctx& c) {
        std::size_t P = c.flag() ? 65536 : 16384; int n = c.choose(vp::thorough() ? 6 : 5);
        dt::file_storage s; std::vector<ent> m; std::string d;
        for (int i = 0; i < n; ++i) {
            int k = c.choose(8); static const int pads[] = {-1, -1, -1, -1, -1, 1, 8, 8};
            std::size_t z = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? P - 1 : k == 3 ? P : k == 4 ? 2 * P + 5 : k == 5 ? 0 : k == 6 ? P - 1 : 3;
            ent e{pads[k] == 8 ? cat(".pad/", z) : cat("f", i), z, pads[k]}; if (k == 5) e.target = "t"; if (k == 4) { e.sums = 3; e.mtime = 4; e.attr = 2; }
            s.add_file(make(e)); m.push_back(e); d += cat(e.attr, ':', e.size, ' ');
        }
        s.set_piece_size(P); bool hashed = c.flag(); if (hashed) s.allocate_pieces();
        c.describe(cat("piece size ", P, ", entries ", d));
        bool was = dt::is_piece_aligned(s);
        dt::optimize_alignment(s);
        c.expect(dt::is_piece_aligned(s), "aligned", "not aligned afterwards");
        c.expect(s.piece_size() == P, "piece-size", "piece size changed");
        std::vector<std::string> before, after; for (auto& e : m) if (e.attr != 8) before.push_back(want(e));
        std::size_t total = 0, reg = 0; bool small = true; const dt::file_entry* prev = nullptr; bool last_pad = false;
        for (auto& f : s) { total += f.file_size(); if (f.is_padding_file()) { small &= f.file_size() < P && f.file_size() > 0; c.expectf(f.path().string() == cat(".pad/", f.file_size()), "pad-name", [&] { return f.path().string(); }); } else { after.push_back(show(f)); reg += f.file_size(); } prev = &f; last_pad = f.is_padding_file(); }
        (void)prev;
        c.expectf(before == after, "content", [&] { return "the regular entries changed, or their order"; });
        c.expect(small, "minimal", "padding file of a piece or more, or empty");
        c.expect(s.total_file_size() == total && s.total_regular_file_size() == reg, "totals", "sizes");
        c.expect(!last_pad || (n && m.back().attr == 8), "trailing", "padding after the last file");
        if (was) { c.expectf(s.size() == m.size(), "untouched", [&] { return "an aligned storage was changed"; }); }
        else { c.expect(s.pieces().empty(), "stale", "piece hashes of the old layout are kept"); }
        std::string once; for (auto& f : s) once += show(f) + "\n";
        dt::optimize_alignment(s); std::string twice; for (auto& f : s) twice += show(f) + "\n";
        c.expect(once == twice, "idempotent", "aligning twice differs from aligning once");
        c.nontrivial(); c.transition(2); c.state(d + std::to_string(P));
    });
}

// ---------------------------------------------------------------- entries made from files on disk
struct disk_item { std::string at; char kind; std::size_t size = 0; bool exec = false; std::string target; };   // kind: f file, d directory, p pipe, - nothing, l link to a file, D link to a directory, o link to a file outside the root
static const std::vector<disk_item>& disk_items()
{
    static const std::vector<disk_item> v = {
        {"root/f", 'f', 5}, {"root/empty", 'f', 0}, {"root/x1", 'f', 6, true}, {"root/x2", 'f', 7, true}, {"root/x3", 'f', 8, true}, {"root/..x", 'f', 9}, {"root/...", 'f', 10}, {"root/.h", 'f', 11},
        {"root/a b", 'f', 12}, {"root/d/g", 'f', 70000}, {"root/d/e/h", 'f', 13}, {"root/..d/i", 'f', 14}, {"root/d2/g", 'f', 70000}, {"root/root", 'f', 21},
        {"root/l_f", 'l', 5, false, "f"}, {"root/d/l_g", 'l', 70000, false, "d/g"}, {"root/d/l_up", 'l', 5, false, "f"}, {"root/l_abs", 'l', 70000, false, "d/g"}, {"root/l_x", 'l', 6, true, "x1"},
        {"root/l_l", 'l', 5, false, "l_f"}, {"root/d/e/l_far", 'l', 14, false, "..d/i"}, {"root/l_dir", 'D', 0, false, "d"}, {"root/d/l_slash", 'D', 0, false, "d/e"},
        {"root/l_out", 'o', 15}, {"root/d/l_absout", 'o', 15}, {"root/l_dang", '-'}, {"root/nope", '-'}, {"root/d/nope/x", '-'}, {"root/d", 'd'}, {"root/fifo", 'p'},
        {"out", 'O', 15}, {"rootx/f", 'O', 16}, {"roo", 'O', 17},
    };
    return v;
}
static std::string disk_world()
{
    static std::string w; static pid_t owner = 0;
    if (owner == getpid()) return w;
    owner = getpid(); w = fs::canonical(vp::worker_dir()).string() + "/disk"; fs::remove_all(w); fs::create_directories(w + "/root/d/e"); fs::create_directories(w + "/root/..d"); fs::create_directories(w + "/rootx");
    fs::create_symlink("d", w + "/root/d2");
    for (auto& i : disk_items()) if ((i.kind == 'f' || i.kind == 'O') && !i.at.starts_with("root/d2/")) { std::ofstream(w + "/" + i.at) << std::string(i.size, 'x'); fs::permissions(w + "/" + i.at, fs::perms(0644)); }
    fs::permissions(w + "/root/x1", fs::perms(0744)); fs::permissions(w + "/root/x2", fs::perms(0654)); fs::permissions(w + "/root/x3", fs::perms(0645));
    const char* links[][2] = {{"l_f", "f"}, {"d/l_g", "g"}, {"d/l_up", "../f"}, {"l_x", "x1"}, {"l_l", "l_f"}, {"d/e/l_far", "../../..d/i"}, {"l_dir", "d"}, {"d/l_slash", "e/"}, {"l_out", "../out"}, {"l_dang", "nothing"}};
    for (auto& l : links) fs::create_symlink(l[1], w + "/root/" + l[0]);
    fs::create_symlink(w + "/root/d/g", w + "/root/l_abs"); fs::create_symlink(w + "/out", w + "/root/d/l_absout");
    mkfifo((w + "/root/fifo").c_str(), 0600);
    return w;
}
static const char* option_name(int o) { return o == 0 ? "no options" : o == 1 ? "add_attributes" : "copy_symlinks"; }
static dt::file_options option(int o) { return o == 0 ? dt::file_options::none : o == 1 ? dt::file_options::add_attributes : dt::file_options::copy_symlinks; }
static bool addable(const disk_item& i, int o) { return i.kind == 'f' || i.kind == 'l' || (i.kind == 'D' && o == 2) || (i.kind == 'o' && o != 2); }
static void judge_entry(ctx& c, const dt::file_entry& e, const disk_item& i, int o)
{
    bool link = o == 2 && (i.kind == 'l' || i.kind == 'D');
    std::string path = i.at.substr(5);
    c.expectf(e.path().string() == path, "path", [&] { return cat("the path is ", vp::quote(e.path().string()), " instead of ", vp::quote(path)); });
    c.expectf(e.file_size() == (link ? 0 : i.size), "size", [&] { return cat("the size is ", e.file_size()); });
    c.expectf(e.attributes().has_value() == (o != 0), "attributes", [&] { return "attributes are present exactly when asked for"; });
    c.expectf(e.is_symlink() == link, "symlink", [&] { return e.is_symlink() ? "added as a symlink" : "not added as a symlink"; });
    if (!link) c.expectf(e.is_executable() == (o != 0 && i.exec), "executable", [&] { return "the executable flag differs from the file's"; });
    c.expect(!e.is_hidden() && !e.is_padding_file(), "attributes", "unexpected attributes");
    c.expectf(e.symlink_path().has_value() == link, "target", [&] { return "a target is stored exactly for symlinks"; });
    if (link) c.expectf(e.symlink_path()->string() == i.target, "target", [&] { return cat("the target is ", vp::quote(e.symlink_path()->string()), " instead of ", vp::quote(i.target)); });
    c.expect(!e.has_v2_data() && e.checksums().empty(), "fresh", "a new entry has hashes");
}
static void disk_entries()
{
    vp::part("one", "every kind of file, directory, pipe and link inside and outside the root, written in 8 ways, with every option and each of 5 ways of adding it", {}, [](ctx& c) {
        auto& items = disk_items(); auto& i = c.pick(items); int how = c.choose(8), o = c.choose(3), via = c.choose(5);
        auto W = disk_world(); bool in = i.at.starts_with("root/"); std::string p, cwd = W;
        switch (how) {
        case 0: p = W + "/" + i.at; break;
        case 1: p = W + "/./" + i.at; break;
        case 2: p = W + "/root/d/../../" + i.at; break;
        case 3: p = W + "//" + (in ? "root//" + i.at.substr(5) : i.at); break;
        case 4: p = i.at; break;
        case 5: cwd = W + "/root"; p = in ? i.at.substr(5) : "../" + i.at; break;
        case 6: cwd = W + "/root/d"; p = in ? "./../" + i.at.substr(5) : "../../" + i.at; break;
        default: p = W + "/root/d/e/../../../root/../" + i.at; break;
        }
        fs::current_path(cwd);
        c.describe(cat(i.at, " written as ", p.starts_with(W) ? "(scratch)" + p.substr(W.size()) : p, how >= 4 && how <= 6 ? " from (scratch)" + cwd.substr(W.size()) : std::string(), ", ", option_name(o), ", way ", via));
        bool ok = addable(i, o), done = false; std::string err;
        dt::file_storage s; s.set_root_directory(W + (via == 3 ? "/root/" : "/root"));
        s.add_file(dt::file_entry("first", 3));
        std::optional<dt::file_entry> e;
        try {
            if (via == 0) e.emplace(dt::make_file_entry(p, W + "/root", option(o)));
            else if (via == 1) { if (o == 1) e.emplace(dt::make_file_entry(p, W + "/root")); else e.emplace(dt::make_file_entry(p, W + "/root/", option(o))); }
            else if (via == 2 || via == 3) { if (o == 0) s.add_file(fs::path(p)); else s.add_file(fs::path(p), option(o)); }
            else { std::vector<fs::path> v{p}; if (o == 0) s.add_files(v.begin(), v.end()); else s.add_files(v.begin(), v.end(), option(o)); }
            done = true;
        } catch (const std::exception& x) { err = x.what(); }
        fs::current_path(W);
        c.expectf(done == ok, ok ? "refused" : "accepted", [&] { return ok ? "refused: " + err : std::string("accepted"); });
        if (via >= 2) {
            c.expectf(s.file_count() == (ok ? 2u : 1u), "count", [&] { return cat(s.file_count(), " files in the storage"); });
            c.expect(s.total_file_size() == 3 + (ok ? s[1].file_size() : 0), "total", "the total size differs");
            if (ok) judge_entry(c, s[1], i, o);
        } else if (ok) judge_entry(c, *e, i, o);
        c.nontrivial(); c.transition(); c.state(cat(i.at, how, o, via));
    });
    vp::part("without-root", "files added to a storage that has no root directory are refused", {}, [](ctx& c) {
        auto& items = disk_items(); auto& i = c.pick(items); int o = c.choose(3); auto W = disk_world(); fs::current_path(W);
        c.describe(i.at); dt::file_storage s; bool threw = false;
        try { s.add_file(fs::path(c.flag() ? W + "/" + i.at : i.at), option(o)); } catch (const std::exception&) { threw = true; }
        c.expect(threw && s.file_count() == 0, "accepted", "a file is added although there is no root directory");
        c.nontrivial(); c.transition();
    });
    vp::part("ranges", "every sequence of up to 3 addable files as a range of paths, entries or directory entries, with every option: all are added in order", {}, [](ctx& c) {
        static const std::vector<std::size_t> pickable = {0, 1, 2, 9, 10, 14, 15, 5};
        auto& items = disk_items(); auto W = disk_world(); int n = c.choose(4), o = c.choose(3), kind = c.choose(3); std::vector<disk_item> m; std::string d;
        for (int k = 0; k < n; ++k) { m.push_back(items[c.pick(pickable)]); d += m.back().at + " "; }
        c.describe(cat(d, "as ", kind == 0 ? "paths" : kind == 1 ? "entries" : "directory entries", ", ", option_name(o)));
        dt::file_storage s; s.set_root_directory(W + "/root");
        if (kind == 0) { std::vector<fs::path> v; for (auto& i : m) v.push_back(W + "/" + i.at); s.add_files(v.begin(), v.end(), option(o)); }
        else if (kind == 1) { std::vector<dt::file_entry> v; for (auto& i : m) v.push_back(dt::make_file_entry(W + "/" + i.at, W + "/root", option(o))); s.add_files(v.begin(), v.end()); }
        else { std::vector<fs::directory_entry> v; for (auto& i : m) v.emplace_back(W + "/" + i.at); s.add_files(v.begin(), v.end(), option(o)); }
        c.expect(s.file_count() == m.size(), "count", "number of files");
        std::size_t t = 0; for (std::size_t k = 0; k < m.size(); ++k) { judge_entry(c, s[k], m[k], o); t += s[k].file_size(); }
        c.expect(s.total_file_size() == t, "total", "the total size differs");
        c.nontrivial(); c.transition(); c.state(d + std::to_string(o * 3 + kind));
    });
    vp::part("directory", "the entries of a real directory, iterated directly or recursively, are all added", {}, [](ctx& c) {
        auto W = disk_world(); bool rec = c.flag(); std::string w = W + "/tree"; fs::create_directories(w + "/s/t");
        int n = c.choose(4); for (int k = 0; k < n; ++k) std::ofstream(w + (k % 2 && rec ? "/s/t/" : "/") + std::to_string(k)) << std::string(std::size_t(k) * 100, 'y');
        dt::file_storage s; s.set_root_directory(w); std::size_t want = 0;
        if (rec) { std::vector<fs::directory_entry> v; for (auto& e : fs::recursive_directory_iterator(w)) if (e.is_regular_file()) v.push_back(e); s.add_files(v.begin(), v.end()); }
        else { fs::remove_all(w + "/s"); s.add_files(fs::directory_iterator(w), fs::directory_iterator()); }
        for (int k = 0; k < n; ++k) { want += std::size_t(k) * 100; std::string q = (k % 2 && rec ? "s/t/" : "") + std::to_string(k); bool found = false; for (auto& e : s) found |= e.path() == q && e.file_size() == std::size_t(k) * 100; c.expectf(found, "missing", [&] { return q + " was not added"; }); }
        c.expect(s.file_count() == std::size_t(n) && s.total_file_size() == want, "count", "number and size of the files");
        auto abs = dt::absolute_file_paths(s); for (auto& a : abs) c.expect(fs::exists(a), "paths", "an added file cannot be found again");
        fs::remove_all(w); c.describe(cat(n, " files", rec ? " recursively" : "")); c.nontrivial(); c.transition();
    });
}

// ---------------------------------------------------------------- announce lists
static void announces()
{
    using model = std::vector<std::pair<std::size_t, std::string>>;
    auto check = [](ctx& c, dt::announce_url_list& l, const model& m) {
        const auto& k = l; std::string have; for (auto& a : k) have += cat(a.tier, ':', a.url, ' ');
        std::string w; for (auto& [t, u] : m) w += cat(t, ':', u, ' ');
        c.expectf(have == w, "content", [&] { return cat("list is ", have, "instead of ", w); });
        std::size_t tiers = m.empty() ? 0 : m.back().first + 1;
        c.expect(k.size() == m.size() && k.empty() == m.empty() && k.tier_count() == tiers && std::size_t(k.end() - k.begin()) == m.size(), "size", "size, empty or tier count");
        for (std::size_t t = 0; t <= tiers; ++t) {
            std::size_t first = 0, n = 0; for (auto& x : m) { first += x.first < t; n += x.first == t; }
            c.expectf(k.tier_size(t) == n && k.get_tier(t).first - k.begin() == long(first) && k.get_tier(t).second - k.begin() == long(first + n) && k.get_tier_begin(t) == k.get_tier(t).first && k.get_tier_end(t) == k.get_tier(t).second && l.get_tier_begin(t) - l.begin() == long(first) && l.get_tier_end(t) - l.begin() == long(first + n) && l.get_tier(t).first == l.get_tier_begin(t), "tier", [&] { return cat("range of tier ", t); });
        }
        for (std::string u : {"a", "b", "c", "", "bb"}) {
            bool any = false; long pos = long(m.size()); for (std::size_t i = 0; i < m.size(); ++i) if (m[i].second == u) { if (!any) pos = long(i); any = true; }
            c.expectf(k.contains(u) == any, "contains", [&] { return cat("contains(", u, ") is ", !any); });
            c.expect(k.find(u) - k.begin() == pos && l.find(u) - l.begin() == pos, "find", "find by url");
            for (std::size_t t = 0; t <= tiers; ++t) {
                bool x = false; long p = long(m.size()); for (std::size_t i = 0; i < m.size(); ++i) if (m[i].second == u && m[i].first == t) { if (!x) p = long(i); x = true; }
                dt::announce_url a(u, t);
                c.expectf(k.contains(a) == x && k.find(a) - k.begin() == p && l.find(a) - l.begin() == p, "find", [&] { return cat("lookup of ", u, " in tier ", t); });
            }
        }
        if (!m.empty()) { c.expect(k.front().url == m[0].second && k.back().url == m.back().second && &k[0] == k.data() && &k.at(0) == &k[0] && &l.back() == &l[m.size() - 1], "access", "element access"); }
        bool threw = false; try { k.at(m.size()); } catch (const std::out_of_range&) { threw = true; } c.expect(threw, "access", "at() beyond the end");
        c.transition();
    };
    auto add = [](model& m, std::size_t t, const std::string& u) { auto p = std::make_pair(t, u); auto it = std::upper_bound(m.begin(), m.end(), p); return m.insert(it, p) - m.begin(); };
    auto drop = [](model& m, std::size_t i) { auto t = m[i].first; m.erase(m.begin() + long(i)); bool left = false; for (auto& x : m) left |= x.first == t; if (!left) for (auto& x : m) if (x.first > t) --x.first; };
    vp::part("sequences", "every sequence of 4 (thorough 5) operations insert (copy, move, emplace), erase (by position, by value, at end), clear, over 3 urls and all permitted tiers, with every query after each", {}, [check, add, drop](ctx& c) {
        dt::announce_url_list l; model m; std::string log; int depth = vp::thorough() ? 5 : 4;
        static const std::vector<std::string> us = {"a", "b", "c"};
        for (int s = 0; s < depth; ++s) {
            std::size_t tiers = m.empty() ? 0 : m.back().first + 1;
            int op = c.choose(5);
            if (op == 0) break;
            if (op == 1 || op == 2) {
                std::size_t t = std::size_t(c.choose(int(tiers) + 1)); auto& u = c.pick(us);
                int how = s == 0 ? c.choose(3) : s % 3; log += cat("insert", how, ' ', u, '@', t, "; "); c.describe(log);
                if (op == 2) { if (s == 0) return; how = (how + 1) % 3; }
                dt::announce_url a(u, t); auto it = how == 0 ? l.insert(a) : how == 1 ? l.insert(std::move(a)) : l.emplace(u, t); long got = it - l.begin();
                auto p = add(m, t, u); (void)p;
                c.expectf(got >= 0 && got < long(m.size()) && m[std::size_t(got)] == std::make_pair(t, u), "iterator", [&] { return cat("insertion of ", u, "@", t, " returns position ", got); });
            } else if (op == 3) {
                if (m.empty()) { c.expect(l.erase(l.end()) == l.end(), "erase", "erase at the end"); return; }
                std::size_t i = std::size_t(c.choose(int(m.size()) + 1)); log += cat("erase #", i, "; "); c.describe(log);
                auto it = l.erase(l.begin() + long(i)); c.expectf(it - l.begin() == long(i), "erase", [&] { return "erase returns another position"; });
                if (i < m.size()) drop(m, i);
            } else if (s == 0) return;
            else {
                if (c.flag()) { l.clear(); m.clear(); log += "clear; "; c.describe(log); }
                else { auto& u = c.pick(us); std::size_t t = std::size_t(c.choose(2)); log += cat("erase ", u, '@', t, "; "); c.describe(log); l.erase(dt::announce_url(u, t)); for (std::size_t i = 0; i < m.size(); ++i) if (m[i].first == t && m[i].second == u) { drop(m, i); break; } }
            }
            check(c, l, m); c.tick();
        }
        dt::announce_url_list k(l); c.expect(k == l && (k <=> l) == 0, "copy", "a copy differs"); k.emplace("zz", 0); c.expect(!(k == l) && (k <=> l) != 0, "copy", "a changed copy is equal"); check(c, l, m);
        auto nested = dt::as_nested_vector(l); model back; for (std::size_t t = 0; t < nested.size(); ++t) for (auto& u : nested[t]) back.emplace_back(t, u); c.expect(back == m, "nested", "as_nested_vector");
        c.expect(std::hash<dt::announce_url_list>{}(l) == std::hash<dt::announce_url_list>{}(dt::announce_url_list(l)), "hash", "hash");
        c.nontrivial(); c.state(log);
    });
    vp::part("literal", "every literal list of up to 3 tiers of up to 3 urls", {}, [check](ctx& c) {
        static const std::vector<std::string> us = {"a", "b", "c"}; std::vector<std::vector<std::string>> v; int n = c.choose(4); model m; std::string d;
        for (int i = 0; i < n; ++i) { v.emplace_back(); int k = 1 + c.choose(i < 2 ? 3 : 2); for (int j = 0; j < k; ++j) { v.back().push_back(c.pick(us)); d += v.back().back(); } d += "|"; for (auto& u : v.back()) m.emplace_back(std::size_t(i), u); }
        std::sort(m.begin(), m.end());
        c.describe(cat("tiers ", d));
        using IL = std::initializer_list<std::string>;
        auto one = [](const std::vector<std::string>& x, auto f) { if (x.size() == 1) f(IL{x[0]}); else if (x.size() == 2) f(IL{x[0], x[1]}); else f(IL{x[0], x[1], x[2]}); };
        auto run = [&](dt::announce_url_list l) { check(c, l, m); l.emplace("b", 0); model q = m; auto p = std::make_pair(std::size_t(0), std::string("b")); q.insert(std::upper_bound(q.begin(), q.end(), p), p); check(c, l, q); };
        if (n == 0) run(dt::announce_url_list(std::initializer_list<IL>{}));
        else one(v[0], [&](IL a) { if (n == 1) run(dt::announce_url_list({a})); else one(v[1], [&](IL b) { if (n == 2) run(dt::announce_url_list({a, b})); else one(v[2], [&](IL e) { run(dt::announce_url_list({a, b, e})); }); }); });
        c.nontrivial(); c.state(d);
    });
}

// ---------------------------------------------------------------- info hashes
static void info_hashes()
{
    vp::part("pairs", "all pairs of v1, v2 and hybrid info hashes over a set of values differing in single bytes: equality, order, hash, accessors, all constructors", {}, [](ctx& c) {
        struct ih { int kind; std::string a, b; };
        static std::vector<ih> all;
        if (all.empty()) {
            std::vector<std::string> s1 = {std::string(20, 0), std::string(20, '\xff'), std::string(19, 0) + "\1", "\x80" + std::string(19, 0), sha1("x")};
            std::vector<std::string> s2 = {std::string(32, 0), std::string(32, '\xff'), std::string(31, 0) + "\1", "\x80" + std::string(31, 0), sha256("x"), sha256("x").substr(0, 20) + std::string(12, 'q')};
            for (auto& x : s1) all.push_back({1, x, ""}); for (auto& y : s2) all.push_back({2, "", y}); for (auto& x : s1) for (auto& y : s2) all.push_back({3, x, y});
        }
        const ih &x = c.pick(all), &y = c.pick(all);
        auto hex = [](const std::string& s) { std::string r; for (unsigned char ch : s) { r += "0123456789abcdef"[ch >> 4]; r += "0123456789abcdef"[ch & 15]; } return r; };
        c.describe(cat(x.kind, ' ', hex(x.a), ' ', hex(x.b), " and ", y.kind, ' ', hex(y.a), ' ', hex(y.b)));
        auto h1 = [](const std::string& s) { return dt::sha1_hash(std::string_view(s)); }; auto h2 = [](const std::string& s) { return dt::sha256_hash(std::string_view(s)); };
        auto mk = [&](const ih& v) { return v.kind == 1 ? dt::info_hash(h1(v.a)) : v.kind == 2 ? dt::info_hash(h2(v.b)) : dt::info_hash(h1(v.a), h2(v.b)); };
        auto a = mk(x), b = mk(y);
        bool eq = x.kind == y.kind && x.a == y.a && x.b == y.b;
        c.expectf((a == b) == eq && (a != b) == !eq, "equality", [&] { return cat("equal is ", a == b); });
        auto o = a <=> b, p = b <=> a;
        c.expectf((o == 0) == eq, "order", [&] { return "the order does not distinguish different info hashes, or equal ones"; });
        c.expect((o < 0) == (p > 0) && (o > 0) == (p < 0), "order", "the order is not antisymmetric");
        auto key = [](const ih& v) { return std::make_tuple(v.kind, v.a, v.b); }; (void)key;
        if (x.kind == y.kind && x.kind == 1) c.expect((o < 0) == (x.a < y.a), "order", "v1 order");
        if (x.kind == y.kind && x.kind == 2) c.expect((o < 0) == (x.b < y.b), "order", "v2 order");
        std::hash<dt::info_hash> H; if (eq) c.expect(H(a) == H(b), "hash", "equal info hashes hash differently");
        std::set<dt::info_hash> st{a, b}; std::unordered_set<dt::info_hash> us{a, b};
        c.expectf(st.size() == (eq ? 1u : 2u) && us.size() == (eq ? 1u : 2u) && st.count(b) && us.count(a), "set", [&] { return "sets of info hashes lose or duplicate elements"; });
        c.expect(int(a.version()) == x.kind, "version", "version");
        if (x.kind & 1) {
            c.expect(bytes(a.v1()) == x.a && a.get_binary(dt::protocol::v1) == x.a && a.get_hex(dt::protocol::v1) == hex(x.a), "v1", "v1 hash");
        }
        if (x.kind & 2) {
            c.expect(bytes(a.v2()) == x.b && a.get_binary(dt::protocol::v2) == x.b && a.get_hex(dt::protocol::v2) == hex(x.b) && bytes(a.truncated_v2()) == x.b.substr(0, 20), "v2", "v2 hash");
        }
        for (auto v : {dt::protocol::v1, dt::protocol::v2}) if (!(x.kind & int(v))) { bool t = false; try { (void)a.get_hex(v); } catch (const std::exception&) { t = true; } c.expect(t, "absent", "an absent version is not reported"); }
        if (x.kind == 1) c.expect(dt::info_hash(dt::protocol::v1, x.a) == a && dt::info_hash::from_hex(dt::protocol::v1, hex(x.a)) == a, "construct", "v1 construction");
        if (x.kind == 2) c.expect(dt::info_hash(dt::protocol::v2, x.b) == a && dt::info_hash::from_hex(dt::protocol::v2, hex(x.b)) == a, "construct", "v2 construction");
        if (x.kind == 3) c.expect(dt::info_hash(std::string_view(x.a), std::string_view(x.b)) == a && dt::info_hash::from_hex(hex(x.a), hex(x.b)) == a, "construct", "hybrid construction");
        dt::info_hash cp(a); dt::info_hash as(b); as = a; c.expect(cp == a && as == a, "copy", "copy");
        c.nontrivial(); c.transition(12); c.state(cat(x.kind, x.a, x.b, '/', y.kind, y.a, y.b));
    });
    vp::part("triples", "transitivity of the order over all triples of a smaller set", {}, [](ctx& c) {
        static const std::string z1(20, 0), o1(20, 1), z2(32, 0), o2(32, 1);
        auto mk = [&](int k) { auto a = dt::sha1_hash(std::string_view(k & 1 ? o1 : z1)); auto b = dt::sha256_hash(std::string_view(k & 2 ? o2 : z2)); return k < 4 ? dt::info_hash(a, b) : k < 6 ? dt::info_hash(a) : dt::info_hash(dt::sha256_hash(std::string_view(k & 1 ? o2 : z2))); };
        auto i = c.choose(8), j = c.choose(8), k = c.choose(8); auto a = mk(i), b = mk(j), d = mk(k);
        c.describe(cat(i, j, k));
        if (a <= b && b <= d) c.expect(a <= d, "transitive", "the order is not transitive");
        if (a < b && b < d) c.expect(a < d && !(d < a), "transitive", "the order is not transitive");
        c.nontrivial(); c.transition(3); c.state(cat(i, j, k));
    });
    vp::part("malformed", "all lengths 0..70 of binary and hexadecimal input, and every single bad digit position", {}, [](ctx& c) {
        int n = c.choose(71), kind = c.choose(8); std::string s(std::size_t(n), 'a');
        c.describe(cat("length ", n, " kind ", kind));
        bool want = kind == 0 ? n == 20 : kind == 1 ? n == 32 : kind == 2 ? n == 40 : kind == 3 ? n == 64 : kind == 4 ? n == 20 : kind == 5 ? n == 32 : false, got = true;
        try {
            switch (kind) { case 0: dt::info_hash(dt::protocol::v1, s); break; case 1: dt::info_hash(dt::protocol::v2, s); break; case 2: dt::info_hash::from_hex(dt::protocol::v1, s); break; case 3: dt::info_hash::from_hex(dt::protocol::v2, s); break;
            case 4: dt::info_hash(std::string_view(s), std::string_view(std::string(32, 'b'))); break;
            case 6: dt::info_hash::from_hex(dt::protocol::none, s); break; case 7: dt::info_hash(dt::protocol::none, s); break; default: { std::string t(20, 'b'); dt::info_hash(std::string_view(t), std::string_view(s)); } }
        } catch (const std::invalid_argument&) { got = false; }
        c.expectf(got == want, "length", [&] { return cat("length ", n, got ? " accepted" : " rejected"); });
        if (kind == 2 || kind == 3) { std::string h(kind == 2 ? 40 : 64, '0'); if (n < int(h.size())) { h[std::size_t(n)] = 'g'; bool t = false; try { dt::info_hash::from_hex(kind == 2 ? dt::protocol::v1 : dt::protocol::v2, h); } catch (const std::invalid_argument&) { t = true; } c.expect(t, "digit", "a bad digit is accepted"); } }
        c.nontrivial(); c.transition(); c.state(cat(n, ' ', kind));
    });
}

int main(int argc, char** argv)
{
    vp::init(argc, argv);
    std::string p; for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--prop") p = argv[i + 1];
    if (p == "merkle-tree") merkle();
    else if (p == "storage-bookkeeping") bookkeeping();
    else if (p == "piece-geometry") geometry();
    else if (p == "piece-size-choice") piece_size();
    else if (p == "alignment") alignment();
    else if (p == "value-semantics") values();
    else if (p == "announce-list") announces();
    else if (p == "info-hash") info_hashes();
    else if (p == "disk-entries") disk_entries();
    else { std::puts("unknown property"); return 2; }
    return vp::finish();
}
