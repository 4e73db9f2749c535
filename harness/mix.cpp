// Operators and conversions between representations: fraction<REP, pol::POL>
// with operands of every representation.
#include "exec.hpp"

#include <ratio>

using namespace ex;
using ieme::fraction;
using ieme::raw_fraction;

namespace {

using P = pol::POL;

template <typename T> constexpr char const* name()
{
  if constexpr (std::is_same_v<T, short>) return "short";
  else if constexpr (std::is_same_v<T, unsigned short>) return "ushort";
  else if constexpr (std::is_same_v<T, signed char>) return "schar";
  else return rep_name<T>();
}

template <typename T> struct RepOf { static constexpr char const* get() { return "none"; } };
template <typename R, typename Q> struct RepOf<fraction<R, Q>> {
  static constexpr char const* get() { return std::is_same_v<Q, P> ? name<R>() : "policy"; }
};

// Results: representation, components, the same operation of both operands
// converted to the common type, operands afterwards.
#define ARITH(fn, sym)                                                         \
  template <typename R> static constexpr void fn##_FF(auto const& a, auto& o)  \
  {                                                                            \
    using C = std::common_type_t<rep_t, R>;                                    \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1));  \
    fraction<R, P> r(a.template get<R>(2), a.template get<R>(3));              \
    auto const x = l sym r;                                                    \
    o.word(RepOf<std::remove_const_t<decltype(x)>>::get());                    \
    o.frac(x);                                                                 \
    o.frac(fraction<C, P>(fraction<C, P>(l) sym fraction<C, P>(r)));           \
    o.frac(l); o.frac(r);                                                      \
  }                                                                            \
  template <typename R> static constexpr void fn##_FR(auto const& a, auto& o)  \
  {                                                                            \
    using C = std::common_type_t<rep_t, R>;                                    \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1));  \
    R r = a.template get<R>(2);                                                \
    auto const x = l sym r;                                                    \
    o.word(RepOf<std::remove_const_t<decltype(x)>>::get());                    \
    o.frac(x);                                                                 \
    o.frac(fraction<C, P>(fraction<C, P>(l) sym static_cast<C>(r)));           \
    o.frac(l); o.n(r); o.num(1);                                               \
  }                                                                            \
  template <typename L> static constexpr void fn##_RF(auto const& a, auto& o)  \
  {                                                                            \
    using C = std::common_type_t<rep_t, L>;                                    \
    L l = a.template get<L>(0);                                                \
    fraction<rep_t, P> r(a.template get<rep_t>(2), a.template get<rep_t>(3));  \
    auto const x = l sym r;                                                    \
    o.word(RepOf<std::remove_const_t<decltype(x)>>::get());                    \
    o.frac(x);                                                                 \
    o.frac(fraction<C, P>(static_cast<C>(l) sym fraction<C, P>(r)));           \
    o.n(l); o.num(1); o.frac(r);                                               \
  }

#define CMP(fn, sym)                                                           \
  template <typename R> static constexpr void fn##_FF(auto const& a, auto& o)  \
  {                                                                            \
    using C = std::common_type_t<rep_t, R>;                                    \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1));  \
    fraction<R, P> r(a.template get<R>(2), a.template get<R>(3));              \
    auto const x = l sym r;                                                    \
    o.b(x); o.b(fraction<C, P>(l) sym fraction<C, P>(r));                      \
    o.frac(l); o.frac(r);                                                      \
  }                                                                            \
  template <typename R> static constexpr void fn##_FR(auto const& a, auto& o)  \
  {                                                                            \
    using C = std::common_type_t<rep_t, R>;                                    \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1));  \
    R r = a.template get<R>(2);                                                \
    auto const x = l sym r;                                                    \
    o.b(x); o.b(fraction<C, P>(l) sym static_cast<C>(r));                      \
    o.frac(l); o.n(r); o.num(1);                                               \
  }                                                                            \
  template <typename L> static constexpr void fn##_RF(auto const& a, auto& o)  \
  {                                                                            \
    using C = std::common_type_t<rep_t, L>;                                    \
    L l = a.template get<L>(0);                                                \
    fraction<rep_t, P> r(a.template get<rep_t>(2), a.template get<rep_t>(3));  \
    auto const x = l sym r;                                                    \
    o.b(x); o.b(static_cast<C>(l) sym fraction<C, P>(r));                      \
    o.n(l); o.num(1); o.frac(r);                                               \
  }

// Compound assignment.  Results: target, whether the returned reference is the
// target, the same operation and assignment written out, right operand after.
#define COMPOUND(fn, sym)                                                      \
  template <typename R> static constexpr void fn##_FF(auto const& a, auto& o)  \
  {                                                                            \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1)), m = l; \
    fraction<R, P> r(a.template get<R>(2), a.template get<R>(3));              \
    auto* const p = &(l sym##= r);                                             \
    o.frac(l); o.b(static_cast<void const*>(p) == &l);                         \
    m = m sym static_cast<fraction<rep_t, P>>(r);                              \
    o.frac(m); o.frac(r);                                                      \
  }                                                                            \
  template <typename R> static constexpr void fn##_FR(auto const& a, auto& o)  \
  {                                                                            \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1)), m = l; \
    R r = a.template get<R>(2);                                                \
    auto* const p = &(l sym##= r);                                             \
    o.frac(l); o.b(static_cast<void const*>(p) == &l);                         \
    m = m sym static_cast<rep_t>(r);                                           \
    o.frac(m); o.n(r); o.num(1);                                               \
  }                                                                            \
  static constexpr void fn##_self(auto const& a, auto& o)                      \
  {                                                                            \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1)), m = l, n = l; \
    auto* const p = &(l sym##= l);                                             \
    o.frac(l); o.b(static_cast<void const*>(p) == &l);                         \
    m = m sym n;                                                               \
    o.frac(m); o.frac(n);                                                      \
  }                                                                            \
  static constexpr void fn##_num(auto const& a, auto& o)                       \
  {                                                                            \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1)), m = l; \
    rep_t const i = l.num();                                                   \
    auto* const p = &(l sym##= l.num());                                       \
    o.frac(l); o.b(static_cast<void const*>(p) == &l);                         \
    m = m sym i;                                                               \
    o.frac(m); o.n(i); o.num(1);                                               \
  }                                                                            \
  static constexpr void fn##_den(auto const& a, auto& o)                       \
  {                                                                            \
    fraction<rep_t, P> l(a.template get<rep_t>(0), a.template get<rep_t>(1)), m = l; \
    rep_t const i = l.den();                                                   \
    auto* const p = &(l sym##= l.den());                                       \
    o.frac(l); o.b(static_cast<void const*>(p) == &l);                         \
    m = m sym i;                                                               \
    o.frac(m); o.n(i); o.num(1);                                               \
  }

#ifdef MIX_OPS
#define MIX_ARITH
#define MIX_CMP
#endif
#ifdef MIX_ARITH
ARITH(plus, +) ARITH(minus, -) ARITH(times, *) ARITH(divides, /) ARITH(modulus, %)
#endif
#ifdef MIX_CMP
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)
#endif
#ifdef MIX_COMPOUND
COMPOUND(plus, +) COMPOUND(minus, -) COMPOUND(times, *) COMPOUND(divides, /) COMPOUND(modulus, %)
// the target's numerator taken by reference as the left integer operand, too
#endif

#ifdef MIX_CONV
// Conversions of the fraction <<n, d>> to representation R.
// The result of each way of converting, then traits.
template <typename R> constexpr void conv(auto const& a, auto& o)
{
  using F = fraction<rep_t, P>;
  using G = fraction<R, P>;
  F const x(a.template get<rep_t>(0), a.template get<rep_t>(1));
  G const direct(x);
  G const copy = x;
  G const cast = static_cast<G>(x);
  raw_fraction<R> const raw = x.raw();
  G const from_raw = raw_fraction<R>(x.raw());
  G assigned;
  assigned = x;
  using Q = std::conditional_t<std::is_same_v<P, pol::fast>, pol::safe_reduced_io, pol::fast>;
  fraction<R, Q> const other(x);
  G const back(other);
  o.frac(direct); o.frac(copy); o.frac(cast);
  o.n(raw.numerator); o.n(raw.denominator);
  o.frac(from_raw); o.frac(assigned); o.frac(other); o.frac(back);
  o.n(other.num()); o.n(other.den());
  o.n(other.raw().numerator); o.n(other.raw().denominator);
  o.b(std::is_convertible_v<F, G>);
  o.b(std::is_constructible_v<G, F>);
  o.b(!std::is_convertible_v<F, fraction<R, Q>>);
  o.b(std::is_constructible_v<fraction<R, Q>, F>);
  o.b(std::is_convertible_v<rep_t, F>);
  o.b(std::is_convertible_v<raw_fraction<rep_t>, F>);
  o.b(!std::is_assignable_v<G&, fraction<R, Q>>);
  o.b(std::is_assignable_v<G&, F>);
}

constexpr void basics(auto const& a, auto& o)
{
  using F = fraction<rep_t, P>;
  F const def;
  F const braces {};
  rep_t const i = a.template get<rep_t>(0);
  F const from = i;
  F const one(i);
  F assigned(a.template get<rep_t>(0), a.template get<rep_t>(1));
  assigned = i;
  F pair(a.template get<rep_t>(0), a.template get<rep_t>(1));
  F set;
  set.numerator() = i;
  set.denominator() = a.template get<rep_t>(1);
  F const copied = pair;
  F const raw = raw_fraction<rep_t>(i, a.template get<rep_t>(1));
  o.frac(def); o.frac(braces); o.frac(from); o.frac(one); o.frac(assigned);
  o.frac(pair); o.frac(set); o.frac(copied); o.frac(raw);
}

template <std::intmax_t N, std::intmax_t D> constexpr void ratio(auto const& a, auto& o)
{
  using Q = std::ratio<N, D>;
  fraction<rep_t, P> const x = Q();
  fraction<rep_t, P> const y {Q()};
  fraction<rep_t, P> const z = typename Q::type();
  o.frac(x); o.frac(y); o.frac(z);
  o.b(std::is_convertible_v<Q, fraction<rep_t, P>>);
}
#endif

template <typename R> void with()
{
  std::string const t = std::string("|") + name<rep_t>() + "|" + name<R>() + "|" + pol_name<P>();
#define RG(fn) { reg(#fn "|FR" + t, fn##_FR<R>); reg(#fn "|RF" + t, fn##_RF<R>); \
                 if constexpr (sizeof(R) >= 4) reg(#fn "|FF" + t, fn##_FF<R>); }
#ifdef MIX_ARITH
  RG(plus) RG(minus) RG(times) RG(divides) RG(modulus)
#endif
#ifdef MIX_CMP
  RG(eq) RG(ne) RG(lt) RG(le) RG(gt) RG(ge)
#endif
#undef RG
#ifdef MIX_COMPOUND
#define RG(fn) { reg(#fn "a|FR" + t, fn##_FR<R>);                              \
                 if constexpr (sizeof(R) >= 4) reg(#fn "a|FF" + t, fn##_FF<R>); }
  RG(plus) RG(minus) RG(times) RG(divides) RG(modulus)
#undef RG
#endif
#ifdef MIX_CONV
  if constexpr (sizeof(R) >= 4) reg("conv" + t, conv<R>);
#endif
}

#ifndef CONST_TABLES
void all()
{
  with<int>(); with<unsigned>(); with<long>();
  with<unsigned long>(); with<long long>(); with<unsigned long long>();
#if defined MIX_ARITH || defined MIX_CMP || defined MIX_COMPOUND
  with<short>(); with<unsigned short>(); with<signed char>();
#endif
  std::string const t = std::string("|") + name<rep_t>() + "|" + pol_name<P>();
#ifdef MIX_COMPOUND
#define RG(fn) reg(#fn "a|self" + t, fn##_self); reg(#fn "a|num" + t, fn##_num); reg(#fn "a|den" + t, fn##_den);
  RG(plus) RG(minus) RG(times) RG(divides) RG(modulus)
#undef RG
#endif
#ifdef MIX_CONV
  reg("basics" + t, basics);
#define RT(k, n, d) reg("ratio|" #k + t, ratio<n, d>);
  RT(0, 1, 2) RT(1, 4, 6) RT(2, 0, 5) RT(3, 1000, 1) RT(4, 1, 1000000000)
  RT(5, 2147483647, 2147483646) RT(6, 18, 12)
  if constexpr (std::is_signed_v<rep_t>) { RT(7, -3, 9) RT(8, 5, -15) RT(9, -7, -21) }
  if constexpr (sizeof(rep_t) == 8) { RT(10, 9223372036854775807, 2) RT(11, 1, 9223372036854775806) }
#undef RT
#endif
}
Registrar const r(all);
#endif

} // namespace
