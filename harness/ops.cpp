// Operators of fraction<rep_t, P> for every policy P.
#include "exec.hpp"

using namespace ex;
using ieme::fraction;

namespace {

template <typename P> struct Ops {
  using F = fraction<rep_t, P>;

#define ARITH(name, sym)                                                       \
  static constexpr void name##_FF(auto const& a, auto& o)                      \
  {                                                                            \
    F const l(a.template get<rep_t>(0), a.template get<rep_t>(1)), r(a.template get<rep_t>(2), a.template get<rep_t>(3)); \
    F const x = l sym r;                                                       \
    o.frac(x);                                                                 \
  }                                                                            \
  static constexpr void name##_FR(auto const& a, auto& o)                      \
  {                                                                            \
    F const l(a.template get<rep_t>(0), a.template get<rep_t>(1));             \
    rep_t const r = a.template get<rep_t>(2);                                  \
    F const x = l sym r;                                                       \
    o.frac(x);                                                                 \
  }                                                                            \
  static constexpr void name##_RF(auto const& a, auto& o)                      \
  {                                                                            \
    rep_t const l = a.template get<rep_t>(0);                                  \
    F const r(a.template get<rep_t>(2), a.template get<rep_t>(3));             \
    F const x = l sym r;                                                       \
    o.frac(x);                                                                 \
  }
#define CMP(name, sym)                                                         \
  static constexpr void name##_FF(auto const& a, auto& o)                      \
  {                                                                            \
    F const l(a.template get<rep_t>(0), a.template get<rep_t>(1)), r(a.template get<rep_t>(2), a.template get<rep_t>(3)); \
    bool const x = l sym r;                                                    \
    o.b(x);                                                                    \
  }                                                                            \
  static constexpr void name##_FR(auto const& a, auto& o)                      \
  {                                                                            \
    F const l(a.template get<rep_t>(0), a.template get<rep_t>(1));             \
    rep_t const r = a.template get<rep_t>(2);                                  \
    bool const x = l sym r;                                                    \
    o.b(x);                                                                    \
  }                                                                            \
  static constexpr void name##_RF(auto const& a, auto& o)                      \
  {                                                                            \
    rep_t const l = a.template get<rep_t>(0);                                  \
    F const r(a.template get<rep_t>(2), a.template get<rep_t>(3));             \
    bool const x = l sym r;                                                    \
    o.b(x);                                                                    \
  }
  ARITH(plus, +) ARITH(minus, -) ARITH(times, *) ARITH(divides, /) ARITH(modulus, %)
  CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(le, <=) CMP(gt, >) CMP(ge, >=)

  static constexpr void neg(auto const& a, auto& o)
  {
    F const y(a.template get<rep_t>(0), a.template get<rep_t>(1));
    F const x = -y;
    o.frac(x);
  }
  static constexpr void pos(auto const& a, auto& o)
  {
    F const y(a.template get<rep_t>(0), a.template get<rep_t>(1));
    F const x = +y;
    o.frac(x);
  }

  static void reg_all()
  {
    std::string const t = std::string("|") + rep_name<rep_t>() + "|" + pol_name<P>();
#define R(name) reg(#name "|FF" + t, name##_FF); reg(#name "|FR" + t, name##_FR); reg(#name "|RF" + t, name##_RF);
    R(plus) R(minus) R(times) R(divides) R(modulus)
    R(eq) R(ne) R(lt) R(le) R(gt) R(ge)
#undef R
    reg("neg" + t, neg);
    reg("pos" + t, pos);
  }
};

#ifndef CONST_TABLES
void all()
{
#define X(t, n) Ops<pol::t>::reg_all();
  EX_ALL_POLICIES(X)
#undef X
}
Registrar const r(all);
#endif

} // namespace
