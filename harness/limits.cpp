// Limits of fraction<rep_t, P> and mixed_number<rep_t, rep_t, P>.
#include "exec.hpp"
#include <limits>

using namespace ex;
using ieme::fraction;
using ieme::mixed_number;

namespace {

template <typename T> void put(Out& o, T const& x)
{
  if constexpr (requires { x.whole(); }) { o.n(x.whole()); o.frac(x.fractional()); }
  else o.frac(x);
}
template <typename T> void values_of(Out& o)
{
  using L = ieme::limits<T>;
  using N = std::numeric_limits<T>;
  for (T const& x : {L::max(), L::min(), L::smallest(), L::undefined(), N::min(), N::lowest(),
                     N::max(), N::epsilon(), N::quiet_NaN(), N::round_error(), N::infinity(),
                     N::signaling_NaN(), N::denorm_min()})
    put(o, x);
}
template <typename P> void values(Args const&, Out& o)
{
  values_of<fraction<rep_t, P>>(o);
  values_of<mixed_number<rep_t, rep_t, P>>(o);
}

template <typename T> void traits_of(Out& o)
{
  using N = std::numeric_limits<T>;
  for (bool b : {N::is_specialized, N::is_signed, N::is_integer, N::is_exact, N::has_infinity,
                 N::has_quiet_NaN, N::has_signaling_NaN, N::is_iec559, N::is_bounded,
                 N::is_modulo, N::traps, N::has_denorm_loss, N::tinyness_before})
    o.b(b);
  for (int i : {N::digits, N::digits10, N::max_digits10, N::radix, N::min_exponent,
                N::min_exponent10, N::max_exponent, N::max_exponent10})
    o.num(i);
}
template <typename P> void traits(Args const&, Out& o)
{
  traits_of<fraction<rep_t, P>>(o);
  traits_of<mixed_number<rep_t, rep_t, P>>(o);
}

// op: 0 <=, 1 >, 2 >=, 3 <
template <typename P, int Op> void within(Args const& a, Out& o)
{
  using F = fraction<rep_t, P>;
  using L = ieme::limits<F>;
  F const x(a.get<rep_t>(0), a.get<rep_t>(1));
  int const which = a.get<int>(2);
  F const y = which == 1 ? L::max() : which == 2 ? L::min() : L::smallest();
  if constexpr (Op == 0) o.b(x <= y);
  else if constexpr (Op == 1) o.b(x > y);
  else if constexpr (Op == 2) o.b(x >= y);
  else o.b(x < y);
}

void all()
{
  std::string const t = std::string("|") + rep_name<rep_t>() + "|";
#define X(p, n) reg("values" + t + n, values<pol::p>); reg("traits" + t + n, traits<pol::p>); \
  reg("within|le" + t + n, within<pol::p, 0>); reg("within|gt" + t + n, within<pol::p, 1>); \
  reg("within|ge" + t + n, within<pol::p, 2>); reg("within|lt" + t + n, within<pol::p, 3>);
  EX_ALL_POLICIES(X)
#undef X
}
Registrar const r(all);

} // namespace
