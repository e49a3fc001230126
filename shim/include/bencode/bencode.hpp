#pragma once
// Stand-in for fbdtemme/bencode (not installed in this sandbox; see /verif/DESIGN.md).
// Implements the part of its interface that dottorrent uses: bvalue, bview,
// get_*/holds_*/get_as, decode_value, decode_view, encode, encode_to, connect,
// events::encode_json_to and the bencode_connect customisation point.
#include <algorithm>
#include <array>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <istream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <deque>
#include <optional>

namespace bencode {

enum class btype : std::uint8_t { uninitialized = 0, integer = 1, string = 2, list = 4, dict = 8 };
enum class bencode_type : std::uint8_t { uninitialized = 0, integer = 1, string = 2, list = 4, dict = 8 };

constexpr std::string_view to_string(btype t) noexcept
{
    switch (t) {
    case btype::integer: return "integer";
    case btype::string: return "string";
    case btype::list: return "list";
    case btype::dict: return "dict";
    default: return "uninitialized";
    }
}

struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
struct bad_access : exception { using exception::exception; };
struct bad_conversion : exception { using exception::exception; };
struct bad_cast : exception { using exception::exception; };
struct out_of_range : exception { using exception::exception; };
struct decoding_error : exception { using exception::exception; };
struct parsing_error : exception { using exception::exception; };
struct syntax_error : exception { using exception::exception; };
struct encoding_error : exception { using exception::exception; };

template <class T> struct customization_point_type { using type = T; };
template <class T> struct customization_for { using type = T; };

template <class T> struct serializes_to { static constexpr btype value = btype::uninitialized; };

#define BENCODE_SERIALIZES_TO_INTEGER(...) template <> struct bencode::serializes_to<__VA_ARGS__> { static constexpr ::bencode::btype value = ::bencode::btype::integer; };
#define BENCODE_SERIALIZES_TO_STRING(...)  template <> struct bencode::serializes_to<__VA_ARGS__> { static constexpr ::bencode::btype value = ::bencode::btype::string; };
#define BENCODE_SERIALIZES_TO_LIST(...)    template <> struct bencode::serializes_to<__VA_ARGS__> { static constexpr ::bencode::btype value = ::bencode::btype::list; };
#define BENCODE_SERIALIZES_TO_DICT(...)    template <> struct bencode::serializes_to<__VA_ARGS__> { static constexpr ::bencode::btype value = ::bencode::btype::dict; };

template <class T> concept event_consumer = requires(T& t, std::int64_t i, std::string_view s) {
    t.integer(i); t.string(s); t.list_begin(); t.list_item(); t.list_end();
    t.dict_begin(); t.dict_key(); t.dict_value(); t.dict_end();
};
template <class T> concept event_producer = true;

class bvalue;
class bview;
namespace detail {
template <class T, class X> concept same_cvref = std::same_as<std::remove_cvref_t<T>, X>;
template <class T> concept string_like = std::convertible_to<const T&, std::string_view> && !std::is_same_v<std::remove_cvref_t<T>, std::nullptr_t>;
template <class T> concept byte_range = std::ranges::contiguous_range<const T> &&
    std::is_same_v<std::remove_cv_t<std::ranges::range_value_t<const T>>, std::byte>;
template <class T> concept has_map = requires { typename T::mapped_type; typename T::key_type; };
struct dummy_consumer {
    void integer(std::int64_t); void string(std::string_view); void list_begin(); void list_begin(std::size_t);
    void list_item(); void list_end(); void dict_begin(); void dict_begin(std::size_t); void dict_key(); void dict_value(); void dict_end();
    void uninitialized();
};
}
} // namespace bencode

namespace bencode {
// forward: user customisations are found by ADL at instantiation.
namespace adl_guard { void bencode_connect() = delete; }

template <class EC, class T> void connect(EC& c, const T& v);

template <class T> concept bvalue_or_bview = detail::same_cvref<T, bvalue> || detail::same_cvref<T, bview>;

class bvalue {
public:
    using integer_type = std::int64_t;
    using string_type = std::string;
    using list_type = std::vector<bvalue>;
    using dict_type = std::map<std::string, bvalue, std::less<>>;

    bvalue() = default;
    explicit(false) bvalue(btype t)
    {
        switch (t) {
        case btype::integer: v_ = integer_type{}; break;
        case btype::string: v_ = string_type{}; break;
        case btype::list: v_ = std::make_unique<list_type>(); break;
        case btype::dict: v_ = std::make_unique<dict_type>(); break;
        default: break;
        }
    }
    bvalue(const bvalue& o) { copy(o); }
    bvalue(bvalue&&) noexcept = default;
    bvalue& operator=(const bvalue& o) { if (this != &o) { bvalue t(o); v_ = std::move(t.v_); } return *this; }
    bvalue& operator=(bvalue&&) noexcept = default;
    bvalue(list_type l) : v_(std::make_unique<list_type>(std::move(l))) {}
    bvalue(dict_type d) : v_(std::make_unique<dict_type>(std::move(d))) {}
    explicit(false) bvalue(const bview& b);

    template <class T>
        requires (!detail::same_cvref<T, bvalue> && !detail::same_cvref<T, bview> && !detail::same_cvref<T, btype>
                  && !detail::same_cvref<T, list_type> && !detail::same_cvref<T, dict_type>)
    bvalue(T&& t);

    template <class T>
        requires (!detail::same_cvref<T, bvalue>)
    bvalue& operator=(T&& t) { bvalue n(std::forward<T>(t)); v_ = std::move(n.v_); return *this; }

    btype type() const noexcept
    {
        switch (v_.index()) {
        case 1: return btype::integer; case 2: return btype::string;
        case 3: return btype::list; case 4: return btype::dict; default: return btype::uninitialized;
        }
    }
    bvalue& operator[](std::string_view k)
    {
        if (v_.index() == 0) v_ = std::make_unique<dict_type>();
        auto& d = dict();
        auto it = d.find(k);
        if (it == d.end()) it = d.emplace(std::string(k), bvalue{}).first;
        return it->second;
    }
    bvalue& operator[](std::size_t i) { return list().at(i); }
    const bvalue& operator[](std::size_t i) const { return list().at(i); }
    bvalue& at(std::string_view k) { auto it = dict().find(k); if (it == dict().end()) throw out_of_range("key not found"); return it->second; }
    const bvalue& at(std::string_view k) const { auto it = dict().find(k); if (it == dict().end()) throw out_of_range("key not found"); return it->second; }
    template <std::integral I> bvalue& at(I i) { return list().at(static_cast<std::size_t>(i)); }
    template <std::integral I> const bvalue& at(I i) const { return list().at(static_cast<std::size_t>(i)); }
    void push_back(bvalue b) { if (v_.index() == 0) v_ = std::make_unique<list_type>(); list().push_back(std::move(b)); }

    integer_type& integer() { if (auto* p = std::get_if<1>(&v_)) return *p; throw bad_access("bvalue type is not integer"); }
    const integer_type& integer() const { return const_cast<bvalue*>(this)->integer(); }
    string_type& string() { if (auto* p = std::get_if<2>(&v_)) return *p; throw bad_access("bvalue type is not string"); }
    const string_type& string() const { return const_cast<bvalue*>(this)->string(); }
    list_type& list() { if (auto* p = std::get_if<3>(&v_)) return **p; throw bad_access("bvalue type is not list"); }
    const list_type& list() const { return const_cast<bvalue*>(this)->list(); }
    dict_type& dict() { if (auto* p = std::get_if<4>(&v_)) return **p; throw bad_access("bvalue type is not dict"); }
    const dict_type& dict() const { return const_cast<bvalue*>(this)->dict(); }

    friend bool operator==(const bvalue& a, const bvalue& b)
    {
        if (a.v_.index() != b.v_.index()) return false;
        switch (a.v_.index()) {
        case 1: return a.integer() == b.integer();
        case 2: return a.string() == b.string();
        case 3: return a.list() == b.list();
        case 4: return a.dict() == b.dict();
        default: return true;
        }
    }
    friend std::strong_ordering operator<=>(const bvalue& a, const bvalue& b);

private:
    void copy(const bvalue& o)
    {
        switch (o.v_.index()) {
        case 1: v_ = o.integer(); break;
        case 2: v_ = o.string(); break;
        case 3: v_ = std::make_unique<list_type>(o.list()); break;
        case 4: v_ = std::make_unique<dict_type>(o.dict()); break;
        default: v_ = std::monostate{}; break;
        }
    }
    std::variant<std::monostate, integer_type, string_type, std::unique_ptr<list_type>, std::unique_ptr<dict_type>> v_;
};

/// A read-only view into a parsed buffer; the node tree is owned by the descriptor_table.
struct view_node;
class bview {
public:
    using integer_type = std::int64_t;
    using string_type = std::string_view;
    using list_type = std::vector<bview>;
    using dict_type = std::map<std::string_view, bview, std::less<>>;
    bview() = default;
    explicit bview(const view_node* n) : n_(n) {}
    inline btype type() const noexcept;
    inline integer_type integer() const;
    inline string_type string() const;
    inline const list_type& list() const;
    inline const dict_type& dict() const;
    inline const bview& at(std::string_view k) const;
    inline const bview& operator[](std::size_t i) const;
    inline bool operator==(const bview& o) const;
private:
    const view_node* n_ = nullptr;
};
struct view_node {
    btype t = btype::uninitialized;
    std::int64_t i = 0;
    std::string_view s;
    bview::list_type l;
    bview::dict_type d;
};
inline btype bview::type() const noexcept { return n_ ? n_->t : btype::uninitialized; }
inline bview::integer_type bview::integer() const { if (type() != btype::integer) throw bad_access("bview type is not integer"); return n_->i; }
inline bview::string_type bview::string() const { if (type() != btype::string) throw bad_access("bview type is not string"); return n_->s; }
inline const bview::list_type& bview::list() const { if (type() != btype::list) throw bad_access("bview type is not list"); return n_->l; }
inline const bview::dict_type& bview::dict() const { if (type() != btype::dict) throw bad_access("bview type is not dict"); return n_->d; }
inline const bview& bview::at(std::string_view k) const { auto it = dict().find(k); if (it == dict().end()) throw out_of_range("key not found"); return it->second; }
inline const bview& bview::operator[](std::size_t i) const { return list().at(i); }
inline bool bview::operator==(const bview& o) const
{
    if (type() != o.type()) return false;
    switch (type()) {
    case btype::integer: return integer() == o.integer();
    case btype::string: return string() == o.string();
    case btype::list: return list() == o.list();
    case btype::dict: return dict() == o.dict();
    default: return true;
    }
}
using integer_bview = bview; using string_bview = bview; using list_bview = bview; using dict_bview = bview;

inline bvalue::bvalue(const bview& b)
{
    switch (b.type()) {
    case btype::integer: v_ = b.integer(); break;
    case btype::string: v_ = std::string(b.string()); break;
    case btype::list: { auto p = std::make_unique<list_type>(); for (auto& x : b.list()) p->emplace_back(bvalue(x)); v_ = std::move(p); break; }
    case btype::dict: { auto p = std::make_unique<dict_type>(); for (auto& [k, x] : b.dict()) p->emplace(std::string(k), bvalue(x)); v_ = std::move(p); break; }
    default: break;
    }
}

class descriptor_table {
public:
    descriptor_table() = default;
    bview get_root() const { return root_; }
    std::shared_ptr<std::deque<view_node>> nodes_ = std::make_shared<std::deque<view_node>>();
    bview root_;
};

inline std::int64_t& get_integer(bvalue& b) { return b.integer(); }
inline const std::int64_t& get_integer(const bvalue& b) { return b.integer(); }
inline std::int64_t get_integer(const bview& b) { return b.integer(); }
inline std::string& get_string(bvalue& b) { return b.string(); }
inline const std::string& get_string(const bvalue& b) { return b.string(); }
inline std::string_view get_string(const bview& b) { return b.string(); }
inline bvalue::list_type& get_list(bvalue& b) { return b.list(); }
inline const bvalue::list_type& get_list(const bvalue& b) { return b.list(); }
inline const bview::list_type& get_list(const bview& b) { return b.list(); }
inline bvalue::dict_type& get_dict(bvalue& b) { return b.dict(); }
inline const bvalue::dict_type& get_dict(const bvalue& b) { return b.dict(); }
inline const bview::dict_type& get_dict(const bview& b) { return b.dict(); }
template <bvalue_or_bview T> bool holds_integer(const T& b) noexcept { return b.type() == btype::integer; }
template <bvalue_or_bview T> bool holds_string(const T& b) noexcept { return b.type() == btype::string; }
template <bvalue_or_bview T> bool holds_list(const T& b) noexcept { return b.type() == btype::list; }
template <bvalue_or_bview T> bool holds_dict(const T& b) noexcept { return b.type() == btype::dict; }
template <bvalue_or_bview T> bool is_integer(const T& b) noexcept { return holds_integer(b); }
template <bvalue_or_bview T> bool is_string(const T& b) noexcept { return holds_string(b); }
template <bvalue_or_bview T> bool is_list(const T& b) noexcept { return holds_list(b); }
template <bvalue_or_bview T> bool is_dict(const T& b) noexcept { return holds_dict(b); }

namespace detail {
template <class U, class T> U get_as_impl(const T& b)
{
    if constexpr (std::is_same_v<U, bool>) return get_integer(b) != 0;
    else if constexpr (std::is_integral_v<U>) return static_cast<U>(get_integer(b));
    else if constexpr (std::is_same_v<U, std::string> || std::is_same_v<U, std::string_view>) return U(get_string(b));
    else { // containers
        U out;
        for (const auto& e : get_list(b)) out.insert(out.end(), get_as_impl<typename U::value_type>(e));
        return out;
    }
}
}
template <class U, bvalue_or_bview T> U get_as(const T& b) { return detail::get_as_impl<U>(b); }

// ---------------------------------------------------------------- producers
namespace detail {
template <class EC, class T> void default_connect(EC& c, const T& v)
{
    if constexpr (std::is_same_v<T, bvalue> || std::is_same_v<T, bview>) {
        switch (v.type()) {
        case btype::integer: c.integer(v.integer()); break;
        case btype::string: c.string(v.string()); break;
        case btype::list: c.list_begin(); for (const auto& x : v.list()) { connect(c, x); c.list_item(); } c.list_end(); break;
        case btype::dict: c.dict_begin(); for (const auto& [k, x] : v.dict()) { c.string(k); c.dict_key(); connect(c, x); c.dict_value(); } c.dict_end(); break;
        default: throw encoding_error("uninitialized bvalue");
        }
    }
    else if constexpr (std::is_integral_v<T>) c.integer(static_cast<std::int64_t>(v));
    else if constexpr (std::is_same_v<T, std::filesystem::path>) { c.list_begin(); for (auto& x : v) { c.string(x.generic_string()); c.list_item(); } c.list_end(); }
    else if constexpr (string_like<T>) c.string(std::string_view(v));
    else if constexpr (byte_range<T>) c.string(std::string_view(reinterpret_cast<const char*>(std::ranges::data(v)), std::ranges::size(v)));
    else if constexpr (has_map<T>) {
        std::map<std::string_view, const typename T::mapped_type*> m;
        for (const auto& [k, x] : v) m.emplace(std::string_view(k), &x);
        c.dict_begin(); for (auto& [k, x] : m) { c.string(k); c.dict_key(); connect(c, *x); c.dict_value(); } c.dict_end();
    }
    else if constexpr (std::ranges::range<const T>) { c.list_begin(); for (const auto& x : v) { connect(c, x); c.list_item(); } c.list_end(); }
    else static_assert(sizeof(T) == 0, "type is not serializable to bencode");
}
}
template <class EC, class T> void connect(EC& c, const T& v)
{
    if constexpr (requires { bencode_connect(customization_point_type<T>{}, c, v); })
        bencode_connect(customization_point_type<T>{}, c, v);
    else if constexpr (requires { bencode_connect(customization_for<T>{}, c, v); })
        bencode_connect(customization_for<T>{}, c, v);
    else detail::default_connect(c, v);
}
template <class EC> void connect(EC& c, const char* v) { c.string(std::string_view(v)); }

namespace events {
class to_bvalue {
public:
    void integer(std::int64_t i) { put(bvalue_int(i)); }
    template <class S> void string(const S& s) { bvalue b(btype::string); b.string() = std::string(std::string_view(s)); put(std::move(b)); }
    void list_begin() { put(bvalue(btype::list)); begin(); }
    void list_begin(std::size_t) { list_begin(); }
    void list_item() { auto v = take(); stack_.back().list().push_back(std::move(v)); }
    void list_end() { end(); }
    void dict_begin() { put(bvalue(btype::dict)); begin(); }
    void dict_begin(std::size_t) { dict_begin(); }
    void dict_key() { auto v = take(); keys_.push_back(v.string()); }
    void dict_value() { auto v = take(); stack_.back().dict().insert_or_assign(keys_.back(), std::move(v)); keys_.pop_back(); }
    void dict_end() { end(); }
    void uninitialized() {}
    bvalue value() { if (!pending_) throw encoding_error("no value produced"); return std::move(*pending_); }
private:
    static bvalue bvalue_int(std::int64_t i) { bvalue b(btype::integer); b.integer() = i; return b; }
    void put(bvalue b) { if (pending_) throw encoding_error("value not consumed"); pending_ = std::move(b); }
    bvalue take() { if (!pending_) throw encoding_error("no value"); bvalue v = std::move(*pending_); pending_.reset(); return v; }
    void begin() { stack_.push_back(take()); }
    void end() { if (pending_) throw encoding_error("dangling value"); bvalue v = std::move(stack_.back()); stack_.pop_back(); put(std::move(v)); }
    std::vector<bvalue> stack_;
    std::vector<std::string> keys_;
    std::optional<bvalue> pending_;
};

template <class Out> class encode_to {
public:
    explicit encode_to(Out o) : o_(std::move(o)) {}
    void integer(std::int64_t i) { raw("i" + std::to_string(i) + "e"); }
    template <class S> void string(const S& s) { std::string_view v(s); raw(std::to_string(v.size()) + ":"); raw(v); }
    void list_begin() { raw("l"); }
    void list_begin(std::size_t) { raw("l"); }
    void list_item() {}
    void list_end() { raw("e"); }
    void dict_begin() { raw("d"); }
    void dict_begin(std::size_t) { raw("d"); }
    void dict_key() {}
    void dict_value() {}
    void dict_end() { raw("e"); }
    void uninitialized() {}
private:
    void raw(std::string_view s) { for (char c : s) *o_++ = c; }
    Out o_;
};

class encode_json_to {
public:
    explicit encode_json_to(std::ostream& os) : os_(os) {}
    void integer(std::int64_t i) { pre(); os_ << i; }
    template <class S> void string(const S& s)
    {
        pre();
        os_ << '"';
        for (unsigned char c : std::string_view(s)) {
            switch (c) {
            case '"': os_ << "\\\""; break;
            case '\\': os_ << "\\\\"; break;
            default:
                if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); os_ << b; }
                else os_ << char(c);
            }
        }
        os_ << '"';
    }
    void list_begin() { pre(); os_ << '['; st_.push_back(false); }
    void list_begin(std::size_t) { list_begin(); }
    void list_item() { comma_ = true; }
    void list_end() { comma_ = false; os_ << ']'; }
    void dict_begin() { pre(); os_ << '{'; }
    void dict_begin(std::size_t) { dict_begin(); }
    void dict_key() { os_ << ':'; comma_ = false; }
    void dict_value() { comma_ = true; }
    void dict_end() { comma_ = false; os_ << '}'; }
    void uninitialized() {}
private:
    void pre() { if (comma_) os_ << ','; comma_ = false; }
    std::ostream& os_;
    std::vector<bool> st_;
    bool comma_ = false;
};
}

template <class T>
    requires (!detail::same_cvref<T, bvalue> && !detail::same_cvref<T, bview> && !detail::same_cvref<T, btype>
              && !detail::same_cvref<T, bvalue::list_type> && !detail::same_cvref<T, bvalue::dict_type>)
bvalue::bvalue(T&& t)
{
    events::to_bvalue c;
    if constexpr (detail::string_like<std::remove_cvref_t<T>> && !std::is_same_v<std::remove_cvref_t<T>, std::filesystem::path>
                  && !requires { bencode_connect(customization_point_type<std::remove_cvref_t<T>>{}, c, t); })
        c.string(std::string_view(t));
    else connect(c, static_cast<const std::remove_cvref_t<T>&>(t));
    *this = c.value();
}

template <class Out, class T> void encode_to(Out out, const T& v) { events::encode_to<Out> c(std::move(out)); connect(c, v); }
template <class T> std::string encode(const T& v) { std::string s; encode_to(std::back_inserter(s), v); return s; }
inline std::ostream& operator<<(std::ostream& os, const bvalue& v) { encode_to(std::ostreambuf_iterator<char>(os), v); return os; }

// ---------------------------------------------------------------- decoding
namespace detail {
class decoder {
public:
    decoder(std::string_view s, std::deque<view_node>& n) : s_(s), n_(n) {}
    bview parse_all()
    {
        auto r = value(0);
        if (p_ != s_.size()) throw parsing_error("trailing data after bencoded value");
        return r;
    }
private:
    [[noreturn]] void err(const char* m) { throw parsing_error(m); }
    char cur() { if (p_ >= s_.size()) err("unexpected end of input"); return s_[p_]; }
    std::int64_t number(char term)
    {
        bool neg = false;
        if (cur() == '-') { neg = true; ++p_; }
        std::size_t b = p_;
        unsigned __int128 v = 0;
        while (cur() >= '0' && cur() <= '9') {
            v = v * 10 + unsigned(cur() - '0');
            if (v > (unsigned __int128)INT64_MAX + 1) err("integer overflow");
            ++p_;
        }
        if (p_ == b) err("expected digits");
        if (s_[b] == '0' && p_ - b > 1) err("leading zero");
        if (neg && v == 0) err("negative zero");
        if (cur() != term) err("bad number terminator");
        ++p_;
        if (!neg && v > (unsigned __int128)INT64_MAX) err("integer overflow");
        return neg ? static_cast<std::int64_t>(-(__int128)v) : static_cast<std::int64_t>(v);
    }
    std::string_view str()
    {
        if (cur() < '0' || cur() > '9') err("expected string");
        auto n = number(':');
        if (std::uint64_t(n) > s_.size() - p_) err("string exceeds input");
        auto r = s_.substr(p_, std::size_t(n));
        p_ += std::size_t(n);
        return r;
    }
    bview value(int depth)
    {
        if (depth > 1000) err("nesting too deep");
        n_.emplace_back();
        view_node& x = n_.back();
        switch (cur()) {
        case 'i': ++p_; x.t = btype::integer; x.i = number('e'); break;
        case 'l': ++p_; x.t = btype::list; while (cur() != 'e') { x.l.push_back(value(depth + 1)); } ++p_; break;
        case 'd':
            ++p_; x.t = btype::dict;
            while (cur() != 'e') { auto k = str(); auto v = value(depth + 1); if (!x.d.emplace(k, v).second) err("duplicate key"); }
            ++p_; break;
        default: x.t = btype::string; x.s = str(); break;
        }
        return bview(&x);
    }
    std::string_view s_;
    std::deque<view_node>& n_;
    std::size_t p_ = 0;
};
}
inline descriptor_table decode_view(std::string_view s)
{
    descriptor_table t;
    t.root_ = detail::decoder(s, *t.nodes_).parse_all();
    return t;
}
inline descriptor_table decode_view(const char* b, std::size_t n) { return decode_view(std::string_view(b, n)); }
template <class It> requires (!std::is_pointer_v<It>) descriptor_table decode_view(It b, It e) { return decode_view(std::string_view(&*b, std::size_t(e - b))); }
inline bvalue decode_value(std::string_view s) { return bvalue(decode_view(s).get_root()); }
inline bvalue decode_value(std::istream& is)
{
    std::string b{std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()};
    return decode_value(std::string_view(b));
}

inline std::strong_ordering operator<=>(const bvalue& a, const bvalue& b) { return encode(a) <=> encode(b); }
} // namespace bencode
