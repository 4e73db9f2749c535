// Functions of one fraction: forms, queries, rounding, redenomination, powers,
// hashes, conversion to and from floating-point.
#include "exec.hpp"

#include <cstring>
#include <limits>
#include <ieme/hash.hpp>

using namespace ex;
using ieme::fraction;
using ieme::raw_fraction;
using ieme::reduce_mode;
using ieme::round_mode;

namespace {

// A finite floating-point value as an integer mantissa and an exponent of two.
template <typename T> constexpr void put_float(auto& o, T v)
{
  constexpr T top = std::numeric_limits<T>::max();
  if (v != v) { o.word("nan"); o.num(0); o.num(0); return; }
  if (v > top || v < -top) { o.word("inf"); o.num(0); o.num(0); return; }
  o.word("finite");
  bool const neg = v < 0;
  T m = neg ? -v : v;
  int e = 0;
  constexpr T one = T(1ull << (std::numeric_limits<T>::digits - 1)); // m ends in [one, 2 * one)
  if (m != 0)
  {
    while (m / 2 >= one) { m /= 2; ++e; }
    while (m < one) { m *= 2; --e; }
  }
  o.mag(neg, static_cast<unsigned long long>(m));
  o.num(e);
}

template <typename R> struct One {
  static constexpr R make(auto const& a, std::size_t i) { return R(a.template get<rep_t>(i), a.template get<rep_t>(i + 1)); }
};
template <typename R> constexpr void put(auto& o, R const& x)
{
  if constexpr (requires { x.numerator(); }) o.frac(x);
  else { o.n(x.numerator); o.n(x.denominator); }
}

template <typename R> constexpr void forms(auto const& a, auto& o)
{
  auto const x = One<R>::make(a, 0);
  R const r = reduce(x);
  R const i = reduce(x, reduce_mode::ignore_signs);
  R const s = normalize_signs(x);
  R const c = reciprocal(x);
  put(o, r); put(o, i); put(o, s); put(o, c);
  R const r1 = reduce(x, reduce_mode::normalize_signs);
  R const r2 = reduce_normalize_signs(x);
  R const i2 = reduce_ignore_signs(x);
  put(o, r1); put(o, r2); put(o, i2);
  R const rr = reduce(r);
  R const ii = reduce_ignore_signs(i);
  R const ss = normalize_signs(s);
  R const cc = reciprocal(c);
  put(o, rr); put(o, ii); put(o, ss); put(o, cc);
  put(o, x); // the argument afterwards
}

template <typename R> constexpr void queries(auto const& a, auto& o)
{
  auto const x = One<R>::make(a, 0);
  o.b(is_defined(x)); o.b(is_undefined(x)); o.b(is_positive(x)); o.b(is_negative(x));
  o.b(is_zero(x)); o.b(is_non_negative(x)); o.b(is_non_positive(x)); o.b(is_integer(x));
  o.b(is_unit_fraction(x)); o.b(is_proper(x)); o.b(is_improper(x));
  o.b(is_reduced(x)); o.b(is_reduced_ignore_signs(x));
  R const r = reduce(x);
  put(o, r);
  o.b(are_identical(x, r)); o.b(are_different(x, r));
}

template <typename L, typename R> constexpr void ident(auto const& a, auto& o)
{
  auto const x = One<L>::make(a, 0);
  auto const y = One<R>::make(a, 2);
  o.b(are_identical(x, y)); o.b(are_different(x, y));
}

template <typename P> struct Fns {
  using F = fraction<rep_t, P>;
  static constexpr F make(auto const& a, std::size_t i = 0) { return One<F>::make(a, i); }

  static constexpr void absolute(auto const& a, auto& o) { o.frac(F(abs(make(a)))); }

  static constexpr void rounding(auto const& a, auto& o)
  {
    F const x = make(a);
    rep_t const t = trunc(x), c = ceil(x), f = floor(x), r = round(x);
    o.n(t); o.n(c); o.n(f); o.n(r);
    rep_t const wt = to_whole(x, round_mode::trunc), wc = to_whole(x, round_mode::ceil),
                wf = to_whole(x, round_mode::floor), wr = to_whole(x, round_mode::round),
                w = to_whole(x);
    o.n(wt); o.n(wc); o.n(wf); o.n(wr); o.n(w);
  }

  static constexpr void redenom(auto const& a, auto& o)
  {
    F const x = make(a);
    rep_t const d = a.template get<rep_t>(2);
    o.frac(F(trunc_redenominate(x, d)));
    o.frac(F(ceil_redenominate(x, d)));
    o.frac(F(floor_redenominate(x, d)));
    o.frac(F(round_redenominate(x, d)));
    o.frac(F(redenominate(x, d, round_mode::trunc)));
    o.frac(F(redenominate(x, d, round_mode::ceil)));
    o.frac(F(redenominate(x, d, round_mode::floor)));
    o.frac(F(redenominate(x, d, round_mode::round)));
    o.frac(F(redenominate(x, d)));
  }

  static constexpr void power(auto const& a, auto& o)
  {
    rep_t const b = a.template get<rep_t>(0);
    int const e = a.template get<int>(1);
    F const x = ieme::pow<rep_t, P>(b, e);
    o.frac(x);
  }
  static constexpr void power2(auto const& a, auto& o)
  {
    int const e = a.template get<int>(0);
    F const x = ieme::pow2<rep_t, P>(e);
    F const y = ieme::pow<rep_t, P>(rep_t(2), e);
    o.frac(x); o.frac(y);
  }

  // hash by the library, by std::hash, once more, under another policy
  static constexpr void hashes(auto const& a, auto& o)
  {
    for (std::size_t i : {0u, 2u})
    {
      F const x = make(a, i);
      o.s += (o.s.empty() ? "\"" : ",\"") + std::to_string(ieme::hash(x)) + "\"";
      o.s += ",\"" + std::to_string(std::hash<F>()(x)) + "\"";
      F const y = x;
      o.s += ",\"" + std::to_string(ieme::hash(y)) + "\"";
      fraction<rep_t, pol::safe> const z(x); // the same under another policy
      o.s += ",\"" + std::to_string(ieme::hash(z)) + "\"";
    }
  }
  static constexpr void spread(auto const& a, auto& o)
  {
    for (std::size_t i = 0; i + 1 < a.size(); i += 2)
      o.s += (o.s.empty() ? "\"" : ",\"") + std::to_string(ieme::hash(make(a, i))) + "\"";
  }

  static constexpr void to_fl(auto const& a, auto& o)
  {
    for (std::size_t i : {0u, 2u})
    {
      F const x = make(a, i);
      put_float(o, ieme::to_float(x));
      put_float(o, ieme::to_double(x));
      put_float(o, ieme::to_long_double(x));
    }
  }

  static constexpr void from_float(auto const& a, auto& o)
  {
    std::uint32_t const bits = static_cast<std::uint32_t>(a.template get<unsigned long>(0));
    float f;
    std::memcpy(&f, &bits, sizeof f);
    F const x = ieme::to_fraction<rep_t, P>(f);
    o.frac(x);
  }
  static constexpr void from_double(auto const& a, auto& o)
  {
    std::uint64_t const bits = a.template get<unsigned long>(0);
    double f;
    std::memcpy(&f, &bits, sizeof f);
    F const x = ieme::to_fraction<rep_t, P>(f);
    o.frac(x);
  }

  static void reg_all()
  {
    std::string const t = std::string("|") + rep_name<rep_t>() + "|" + pol_name<P>();
    reg("forms" + t, forms<F>);
    reg("queries" + t, queries<F>);
    reg("ident" + t, ident<F, F>);
    reg("ident2" + t, ident<F, fraction<rep_t, pol::fast>>);
    reg("abs" + t, absolute);
    reg("round" + t, rounding);
    reg("redenom" + t, redenom);
    reg("pow" + t, power);
    reg("pow2" + t, power2);
    reg("hash" + t, hashes);
    reg("spread" + t, spread);
    reg("tofloat" + t, to_fl);
    reg("fromfloat" + t, from_float);
    reg("fromdouble" + t, from_double);
  }
};

#ifndef CONST_TABLES
void all()
{
#define X(t, n) Fns<pol::t>::reg_all();
  EX_ALL_POLICIES(X)
#undef X
  std::string const t = std::string("|") + rep_name<rep_t>() + "|raw";
  using R = raw_fraction<rep_t>;
  reg("forms" + t, forms<R>);
  reg("queries" + t, queries<R>);
  reg("ident" + t, ident<R, R>);
}
Registrar const r(all);
#endif

} // namespace
