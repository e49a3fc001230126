#pragma once
// Stand-in for gsl-lite (not installed in this sandbox; see /verif/DESIGN.md).
// Same default semantics as gsl-lite v0.4x: a violated contract terminates.
// The check's runtime may observe the violation first through vp_contract_violation.
#include <exception>
#include <cstddef>
#include <cstdio>
#include <memory>
#include <span>
#include <string>
#include <type_traits>
#include <utility>
#include <iterator>
#include <algorithm>
#include <array>
#include <vector>
#include <functional>
#include <limits>

extern "C" __attribute__((weak)) void vp_contract_violation(const char* kind, const char* expr, const char* file, int line);

namespace gsl_shim {
[[noreturn]] inline void fail(const char* kind, const char* expr, const char* file, int line) noexcept
{
    if (vp_contract_violation) vp_contract_violation(kind, expr, file, line);
    std::fprintf(stderr, "CONTRACT %s(%s) violated at %s:%d\n", kind, expr, file, line);
    std::fflush(stderr);
    std::terminate();
}
}
#define GSL_SHIM_CHECK(kind, ...) ((__VA_ARGS__) ? static_cast<void>(0) : ::gsl_shim::fail(kind, #__VA_ARGS__, __FILE__, __LINE__))
#define Expects(...)            GSL_SHIM_CHECK("Expects", __VA_ARGS__)
#define Ensures(...)            GSL_SHIM_CHECK("Ensures", __VA_ARGS__)
#define gsl_Expects(...)        GSL_SHIM_CHECK("Expects", __VA_ARGS__)
#define gsl_Ensures(...)        GSL_SHIM_CHECK("Ensures", __VA_ARGS__)
#define gsl_Assert(...)         GSL_SHIM_CHECK("Assert", __VA_ARGS__)
#define gsl_Assume(...)         GSL_SHIM_CHECK("Assume", __VA_ARGS__)
#define gsl_ExpectsDebug(...)   GSL_SHIM_CHECK("Expects", __VA_ARGS__)
#define gsl_EnsuresDebug(...)   GSL_SHIM_CHECK("Ensures", __VA_ARGS__)
#define gsl_ExpectsAudit(...)   GSL_SHIM_CHECK("Expects", __VA_ARGS__)
#define gsl_EnsuresAudit(...)   GSL_SHIM_CHECK("Ensures", __VA_ARGS__)
#define gsl_FailFast()          ::gsl_shim::fail("FailFast", "", __FILE__, __LINE__)

namespace gsl {
using index = std::ptrdiff_t;
using std::byte;
template <class T, std::size_t E = std::dynamic_extent> using span = std::span<T, E>;
template <class T> using owner = T;
struct fail_fast : std::logic_error { using std::logic_error::logic_error; };
struct narrowing_error : std::exception { const char* what() const noexcept override { return "narrowing_error"; } };
template <class T, class U> constexpr T narrow_cast(U&& u) noexcept { return static_cast<T>(std::forward<U>(u)); }
template <class T, class U> constexpr T narrow(U u)
{
    T t = static_cast<T>(u);
    if (static_cast<U>(t) != u) throw narrowing_error{};
    if ((t < T{}) != (u < U{})) throw narrowing_error{};
    return t;
}
template <class C> constexpr auto& at(C& c, index i) { Expects(i >= 0 && static_cast<std::size_t>(i) < std::size(c)); return c[i]; }
template <class F> class final_action {
public:
    explicit final_action(F f) : f_(std::move(f)) {}
    final_action(final_action&& o) noexcept : f_(std::move(o.f_)), on_(std::exchange(o.on_, false)) {}
    ~final_action() { if (on_) f_(); }
private:
    F f_; bool on_ = true;
};
template <class F> final_action<std::decay_t<F>> finally(F&& f) { return final_action<std::decay_t<F>>(std::forward<F>(f)); }
template <class T> class not_null {
public:
    template <class U> requires std::is_convertible_v<U, T>
    not_null(U&& u) : p_(std::forward<U>(u)) { Expects(p_ != nullptr); }
    not_null(std::nullptr_t) = delete;
    decltype(auto) get() const { return (p_); }
    operator const T&() const { return p_; }
    decltype(auto) operator->() const { return (p_); }
    decltype(auto) operator*() const { return *p_; }
private:
    T p_;
};
}
namespace gsl_lite = gsl;
