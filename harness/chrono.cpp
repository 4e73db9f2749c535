// Fractional durations, time points and wrapped clocks of REP and policy POL.
#include "exec.hpp"
#include <chrono>

using namespace ex;
namespace ic = ieme::chrono;
using F = ieme::fraction<rep_t, pol::POL>;

namespace {

template <int I> struct period;
#define P(i, n, d) template <> struct period<i> { using type = std::ratio<n, d>; };
P(0, 1, 1) P(1, 1, 1000) P(2, 60, 1) P(3, 7, 5) P(4, 1, 3) P(5, 1, 1000000)
P(6, 3600, 1) P(7, 1, 1000000000) P(8, 1001, 30000) P(9, 86400, 1)
#undef P
#ifdef DEEP
constexpr int N = 10;
#else
constexpr int N = 6;
#endif
template <int I> using per = typename period<I>::type;
template <int I> using dur = ic::duration<rep_t, per<I>, pol::POL>;
template <int I> using std_dur = std::chrono::duration<rep_t, per<I>>;

// A clock set by hand.
template <int I, bool Steady> struct hand {
  using rep = rep_t;
  using period = per<I>;
  using duration = std_dur<I>;
  using time_point = std::chrono::time_point<hand>;
  static constexpr bool is_steady = Steady;
  inline static rep_t at = 0;
  static time_point now() noexcept { return time_point(duration(at)); }
};
template <int I> using clk = hand<I, true>;
template <int I> using tp = ic::time_point<clk<I>, rep_t, per<I>, pol::POL>;

template <typename D> constexpr void put(auto& o, D const& d)
{
  static_assert(std::is_same_v<typename D::rep, F>);
  o.frac(d.count());
}
template <typename D> constexpr void put_period(auto& o)
{
  o.num(D::period::num);
  o.num(D::period::den);
}
constexpr F frac(auto const& a, std::size_t i) { return F(a.template get<rep_t>(i), a.template get<rep_t>(i + 1)); }

// The policy of to_fractional cannot be given (both overloads are tried with
// the arguments given), so it is the default one.
template <int I, int J> constexpr void from(auto const& a, auto& o)
{
  std_dur<I> const d(a.template get<rep_t>(0));
  auto const f = ic::to_fractional(d);
  static_assert(std::is_same_v<std::remove_const_t<decltype(f)>, ic::duration<rep_t, per<I>>>);
  o.frac(f.count());
  std::chrono::time_point<clk<I>, std_dur<I>> const t(d);
  auto const g = ic::to_fractional(t);
  static_assert(std::is_same_v<std::remove_const_t<decltype(g)>,
                               ic::time_point<clk<I>, rep_t, per<I>>>);
  o.frac(g.time_since_epoch().count());
}
// without going through to_fractional, and then to another period
template <int I, int J> constexpr void into(auto const& a, auto& o)
{
  std_dur<I> const d(a.template get<rep_t>(0));
  dur<J> const x = d;
  put(o, x);
  std::chrono::time_point<clk<I>, std_dur<I>> const t(d);
  std::chrono::time_point<clk<I>, dur<J>> const y = t;
  put(o, y.time_since_epoch());
  o.b(std::is_convertible_v<std_dur<I>, dur<J>>);
}
template <int I, int J> constexpr void cast(auto const& a, auto& o)
{
  dur<I> const x(frac(a, 0));
  dur<J> const y = x;
  put(o, y);
  put(o, std::chrono::duration_cast<dur<J>>(x));
  std::chrono::time_point<clk<I>, dur<I>> const t(x);
  std::chrono::time_point<clk<I>, dur<J>> const u = t;
  put(o, u.time_since_epoch());
  o.b(std::is_convertible_v<dur<I>, dur<J>> && std::is_convertible_v<dur<J>, dur<I>>);
}

#define BIN(name, sym)                                                         \
  template <int I, int J> constexpr void name(auto const& a, auto& o)          \
  {                                                                            \
    dur<I> const x(frac(a, 0));                                                \
    dur<J> const y(frac(a, 2));                                                \
    auto const z = x sym y;                                                    \
    put(o, z);                                                                 \
    put_period<decltype(z)>(o);                                                \
  }
BIN(plus, +) BIN(minus, -) BIN(modulus, %)
#undef BIN
template <int I, int J> constexpr void divides(auto const& a, auto& o)
{
  dur<I> const x(frac(a, 0));
  dur<J> const y(frac(a, 2));
  F const z = x / y;
  o.frac(z);
  o.num(1);
  o.num(1);
}
// time points: difference; and moved by a duration in each way
template <int I, int J> constexpr void between(auto const& a, auto& o)
{
  std::chrono::time_point<clk<0>, dur<I>> const x(dur<I>(frac(a, 0)));
  std::chrono::time_point<clk<0>, dur<J>> const y(dur<J>(frac(a, 2)));
  auto const z = x - y;
  put(o, z);
  put_period<decltype(z)>(o);
}
template <int I, int J> constexpr void moved(auto const& a, auto& o)
{
  std::chrono::time_point<clk<0>, dur<I>> const x(dur<I>(frac(a, 0)));
  dur<J> const y(frac(a, 2));
  put(o, (x + y).time_since_epoch());
  put(o, (y + x).time_since_epoch());
  put_period<typename decltype(x + y)::duration>(o);
}
template <int I, int J> constexpr void back(auto const& a, auto& o)
{
  std::chrono::time_point<clk<0>, dur<I>> const x(dur<I>(frac(a, 0)));
  dur<J> const y(frac(a, 2));
  put(o, (x - y).time_since_epoch());
  put_period<typename decltype(x - y)::duration>(o);
}
// a fractional and a standard duration
template <int I, int J> constexpr void mixplus(auto const& a, auto& o)
{
  auto const z = dur<I>(frac(a, 0)) + std_dur<J>(a.template get<rep_t>(2));
  put(o, z);
  put_period<decltype(z)>(o);
}
template <int I, int J> constexpr void mixminus(auto const& a, auto& o)
{
  auto const z = dur<I>(frac(a, 0)) - std_dur<J>(a.template get<rep_t>(2));
  put(o, z);
  put_period<decltype(z)>(o);
}
#define CMP(name, sym)                                                         \
  template <int I, int J> constexpr void name(auto const& a, auto& o)          \
  {                                                                            \
    dur<I> const x(frac(a, 0));                                                \
    dur<J> const y(frac(a, 2));                                                \
    o.b(x sym y);                                                              \
    using tx = std::chrono::time_point<clk<0>, dur<I>>;                        \
    using ty = std::chrono::time_point<clk<0>, dur<J>>;                        \
    o.b(tx(x) sym ty(y));                                                      \
  }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
#undef CMP

#define SCALE(name, expr)                                                      \
  template <int I> constexpr void name(auto const& a, auto& o)                 \
  {                                                                            \
    dur<I> const x(frac(a, 0));                                                \
    rep_t const i = a.template get<rep_t>(2);                                  \
    auto const y = expr;                                                       \
    static_assert(std::is_same_v<typename std::remove_cvref_t<decltype(y)>::period, per<I>>); \
    put(o, y);                                                                 \
    auto z = x;                                                                \
    z
SCALE(times, x * i) *= i; put(o, z); }
SCALE(into_times, i * x) *= F(i); put(o, z); }
SCALE(over, x / i) /= i; put(o, z); }
SCALE(rest, x % i) = y; put(o, z); }
SCALE(neg, -x) = -z; put(o, z); }
#undef SCALE
template <int I> constexpr void compound(auto const& a, auto& o)
{
  dur<I> const x(frac(a, 0)), y(frac(a, 2));
  auto z = x;
  z += y;
  put(o, z);
  auto w = x;
  w -= y;
  put(o, w);
  std::chrono::time_point<clk<0>, dur<I>> t(x), u(x);
  t += y;
  u -= y;
  put(o, t.time_since_epoch());
  put(o, u.time_since_epoch());
}

// A history: the clock is set to each tick in turn and read through the
// wrapper of period J, then directly.
template <int I, int J> constexpr void clock(auto const& a, auto& o)
{
  using H = hand<I, true>;
  using W = ic::clock_wrapper<H, per<J>, pol::POL>;
  using V = ic::clock_wrapper<hand<I, false>, per<J>, pol::POL>;
  static_assert(std::is_same_v<typename W::time_point::clock, H>);
  static_assert(std::is_same_v<typename W::rep, F>);
  static_assert(std::is_same_v<typename W::duration, dur<J>>);
  static_assert(std::is_same_v<decltype(W::now()), typename W::time_point>);
  for (std::size_t i = 0; i < a.size(); ++i)
  {
    H::at = a.template get<rep_t>(i);
    auto const t = W::now();
    put(o, t.time_since_epoch());
  }
  o.b(W::is_steady);
  o.b(V::is_steady);
  put_period<W>(o);
  put_period<typename W::time_point>(o);
}
// without a period, the clock's own
template <int I> constexpr void own(auto const& a, auto& o)
{
  using H = hand<I, false>;
  using W = ic::clock_wrapper<H, typename H::period, pol::POL>;
  using D = ic::clock_wrapper<H>;
  H::at = a.template get<rep_t>(0);
  put(o, W::now().time_since_epoch());
  o.n(D::now().time_since_epoch().count().numerator());
  o.n(D::now().time_since_epoch().count().denominator());
  put_period<D>(o);
}

template <int I, int J> void pair(std::string const& t)
{
  auto const k = t + "|" + std::to_string(I) + "|" + std::to_string(J);
#define R(f) reg(#f + k, f<I, J>);
  if constexpr (I == J) { R(from) }
  R(into) R(cast) R(plus) R(minus) R(modulus) R(divides) R(between) R(moved) R(back)
  R(mixplus) R(mixminus) R(eq) R(ne) R(lt) R(le) R(gt) R(ge) R(clock)
#undef R
}
template <int I, int... J> void row(std::string const& t, std::integer_sequence<int, J...>)
{
  (pair<I, J>(t), ...);
  auto const k = t + "|" + std::to_string(I);
#define R(f) reg(#f + k, f<I>);
  R(times) R(into_times) R(over) R(rest) R(neg) R(compound) R(own)
#undef R
}
template <int... I> void rows(std::string const& t, std::integer_sequence<int, I...> s)
{
  (row<I>(t, s), ...);
}

// Clocks that run: the wrapper between two readings of the clock itself.
template <typename C> constexpr void real(auto const&, auto& o)
{
  using W = ic::clock_wrapper<C>;
  auto const t = C::now().time_since_epoch().count();
  auto const w = W::now().time_since_epoch().count();
  auto const u = C::now().time_since_epoch().count();
  o.n(t);
  o.frac(w);
  o.n(u);
  o.b(W::is_steady == C::is_steady);
}
template <typename D, typename S> constexpr void alias(auto const&, auto& o)
{
  put_period<D>(o);
  o.word(rep_name<typename D::rep::rep_type>());
  o.word(rep_name<typename S::rep>());
  o.word(pol_name<typename D::rep::ops_type>());
}

#ifndef CONST_TABLES
void all()
{
  rows(std::string("|") + rep_name<rep_t>() + "|" + pol_name<pol::POL>(),
       std::make_integer_sequence<int, N> {});
  if (rep_name<rep_t>() != std::string_view("long")) return;
  reg("real|steady", real<std::chrono::steady_clock>);
  reg("real|system", real<std::chrono::system_clock>);
  reg("real|high", real<std::chrono::high_resolution_clock>);
#define A(x) reg("alias|" #x, alias<ic::x, std::chrono::x>);
  A(nanoseconds) A(microseconds) A(milliseconds) A(seconds) A(minutes) A(hours)
#undef A
}
Registrar const r(all);
#endif

} // namespace
