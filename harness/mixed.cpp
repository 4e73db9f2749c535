// Mixed numbers with the whole part's representation REP, any representation
// of the fractional part.
#include "exec.hpp"

#include <ieme/hash.hpp>

using namespace ex;
using ieme::fraction;
using ieme::mixed_number;

namespace {

using P = pol::POL;
using Q = std::conditional_t<std::is_same_v<P, pol::fast>, pol::safe_reduced_io, pol::fast>;

template <typename T> struct Reps;
template <typename W, typename F, typename O> struct Reps<mixed_number<W, F, O>> {
  static constexpr void put(auto& o)
  {
    o.word(std::is_same_v<O, P> ? rep_name<W>() : "policy");
    o.word(rep_name<F>());
  }
};
template <typename F, typename O> struct Reps<fraction<F, O>> {
  static constexpr void put(auto& o) { o.word(std::is_same_v<O, P> ? rep_name<F>() : "policy"); }
};
template <typename M> constexpr void put(auto& o, M const& m) { o.n(m.whole()); o.frac(m.fractional()); }
template <typename M> constexpr void put_typed(auto& o, M const& m) { Reps<M>::put(o); put(o, m); }

template <typename W, typename F> constexpr mixed_number<W, F, P> make(auto const& a, std::size_t i)
{
  return mixed_number<W, F, P>(a.template get<W>(i), fraction<F, P>(a.template get<F>(i + 1), a.template get<F>(i + 2)));
}

// w n d -> the mixed number, rebuilt from itself, back to a fraction twice
template <typename F> constexpr void build(auto const& a, auto& o)
{
  using M = mixed_number<rep_t, F, P>;
  auto const m = make<rep_t, F>(a, 0);
  put(o, m);
  fraction<F, P> const f(a.template get<F>(1), a.template get<F>(2));
  M const again {m.whole(), m.fractional()};
  put(o, again);
  auto const x = m.as_fraction();
  Reps<std::remove_const_t<decltype(x)>>::put(o);
  o.frac(x);
  fraction<std::common_type_t<rep_t, F>, P> const y = m;
  o.frac(y);
}
template <typename F> constexpr void whole(auto const& a, auto& o)
{
  mixed_number<rep_t, F, P> const m(a.template get<rep_t>(0)), n = a.template get<rep_t>(0), z;
  put(o, m); put(o, n); put(o, z);
}
template <typename F> constexpr void sign(auto const& a, auto& o)
{
  auto const m = make<rep_t, F>(a, 0);
  put(o, m);
  put_typed(o, -m);
  put_typed(o, +m);
  put(o, m);
}
// n d of representation G -> a mixed number by the same and by another policy
template <typename F, typename G> constexpr void from(auto const& a, auto& o)
{
  using M = mixed_number<rep_t, F, P>;
  fraction<G, P> const v(a.template get<G>(0), a.template get<G>(1));
  M const m = v;
  M const e {v};
  put(o, m); put(o, e);
  fraction<G, Q> const q(v);
  M const c(q);
  put(o, c);
  o.b(std::is_convertible_v<fraction<G, P>, M>);
  o.b(!std::is_convertible_v<fraction<G, Q>, M>);
}
template <typename F, typename W2, typename F2> constexpr void add(auto const& a, auto& o)
{
  auto const l = make<rep_t, F>(a, 0);
  auto const r = make<W2, F2>(a, 3);
  put(o, l); put(o, r);
  put_typed(o, l + r);
  put(o, r + l);
}
template <typename F, typename G> constexpr void addfrac(auto const& a, auto& o)
{
  auto const l = make<rep_t, F>(a, 0);
  fraction<G, P> const r(a.template get<G>(3), a.template get<G>(4));
  put(o, l);
  put_typed(o, l + r);
  put_typed(o, r + l);
}
template <typename F, typename I> constexpr void addint(auto const& a, auto& o)
{
  auto const l = make<rep_t, F>(a, 0);
  I const r = a.template get<I>(3);
  put(o, l);
  put_typed(o, l + r);
  put_typed(o, r + l);
}
// Sum of many, in place
template <typename F> constexpr void sum(auto const& a, auto& o)
{
  mixed_number<rep_t, F, P> m;
  for (std::size_t i = 0; i + 2 < a.size(); i += 3)
  {
    m = m + make<rep_t, F>(a, i);
    put(o, m);
  }
}

template <typename F> constexpr void hashes(auto const& a, auto& o)
{
  using M = mixed_number<rep_t, F, P>;
  for (std::size_t i : {0u, 3u})
  {
    M const m = make<rep_t, F>(a, i);
    put(o, m);
    auto const h = [&](std::size_t x) { o.word(std::to_string(x)); };
    h(ieme::hash(m)); h(std::hash<M>()(m)); h(ieme::hash(M(m)));
  }
}

template <typename F, typename G> void two()
{
  std::string const t = std::string("|") + rep_name<rep_t>() + "|" + rep_name<F>() + "|"
                        + rep_name<G>() + "|" + pol_name<P>();
  reg("from" + t, from<F, G>);
  reg("addfrac" + t, addfrac<F, G>);
  reg("addint" + t, addint<F, G>);
  reg("add" + t, add<F, G, F>);        // whole parts of different representation
  reg("add2" + t, add<F, rep_t, G>);   // fractional parts
  reg("add3" + t, add<F, G, G>);       // both
}
template <typename F> void one()
{
  std::string const t = std::string("|") + rep_name<rep_t>() + "|" + rep_name<F>() + "|" + pol_name<P>();
  reg("build" + t, build<F>);
  reg("whole" + t, whole<F>);
  reg("sign" + t, sign<F>);
  reg("sum" + t, sum<F>);
  reg("mhash" + t, hashes<F>);
#ifndef MIXED_ONE
  two<F, int>(); two<F, unsigned>(); two<F, long>(); two<F, unsigned long>();
  two<F, long long>(); two<F, unsigned long long>();
#else
  two<F, F>();
#endif
}

#ifndef CONST_TABLES
void all()
{
#ifndef MIXED_ONE
  one<int>(); one<unsigned>(); one<long>(); one<unsigned long>();
  one<long long>(); one<unsigned long long>();
#else
  one<rep_t>();
#endif
}
Registrar const r(all);
#endif

} // namespace
