// Fraction literals: -DREP: called at run time; -DGENERATED=file: spelled in
// the generated tables of that file.
#include "exec.hpp"
#include <vector>

using namespace ex;
using namespace ieme::literals;
using ieme::fraction;

namespace {

template <typename F> void typed(Out& o, F const& x)
{
  o.frac(x);
  o.word(rep_name<typename F::rep_type>());
  o.word(pol_name<typename F::ops_type>());
}

// Calls f with the literal v under the unary operators of a shape.
template <typename F> void shaped(int shape, unsigned long long v, F f)
{
  auto const x = ieme::operator""_fr(v);
  switch (shape)
  {
  case 1: f(x); break;
  case 2: f(+x); break;
  case 3: f(-x); break;
  case 4: f(-+x); break;
  case 5: f(+-x); break;
  case 6: f(- -x); break;
  case 7: f(- - -x); break;
  case 8: f(+ +x); break;
  default: throw std::out_of_range("shape");
  }
}

#ifdef REP
void lit(Args const& a, Out& o)
{
  shaped(a.get<int>(0), a.get<unsigned long long>(1), [&](auto const& x) {
    using L = std::remove_cvref_t<decltype(x)>;
    o.n(x.value());
    o.b(L::is_signed && std::is_signed_v<decltype(x.value())>);
    o.word(pol_name<typename L::ops_type>());
  });
}
void over(Args const& a, Out& o)
{
  rep_t const n = a.get<rep_t>(0);
  shaped(a.get<int>(1), a.get<unsigned long long>(2), [&](auto const& x) { typed(o, n / x); });
}
void quot(Args const& a, Out& o)
{
  fraction<rep_t> const f(a.get<rep_t>(0), a.get<rep_t>(1));
  shaped(a.get<int>(2), a.get<unsigned long long>(3), [&](auto const& x) { typed(o, f / x); });
}
void dec(Args const& a, Out& o)
{
  auto const t = a.text(0);
  typed(o, ieme::operator""_dec(t.c_str()));
}
void all()
{
  std::string const t = std::string("|") + rep_name<rep_t>();
  if (t == "|int") { reg("lit", lit); reg("dec", dec); }
  reg("over" + t, over);
  reg("quot" + t, quot);
}
#endif

#ifdef GENERATED
// Whether the compiler can evaluate E::make(), and what it is then.
template <typename E> concept constant = requires {
  typename std::integral_constant<bool, (static_cast<void>(E::template make<0>()), true)>;
};
struct Entry { Fn constant, run; };
template <typename E> void of_constant(Args const&, Out& o)
{
  if constexpr (constant<E>)
  {
    constexpr auto x = E::template make<0>();
    o.b(true);
    o.frac(x);
  }
  else { o.b(false); o.num(0); o.num(0); }
}
template <typename E> void of_run(Args const&, Out& o) { typed(o, E::template make<0>()); }
template <typename E> constexpr Entry entry() { return {of_constant<E>, of_run<E>}; }

#include GENERATED

template <Entry const* table> void both(Args const& a, Out& o)
{
  auto const i = a.get<unsigned>(0);
  table[i].constant(a, o);
  table[i].run(a, o);
}
template <Entry const* table> void only(Args const& a, Out& o)
{
  Out t;
  table[a.get<unsigned>(0)].constant(a, t);
  o.b(t.s.compare(0, 4, "true") == 0);
}

void all()
{
  reg("spelled", both<decs>);
  reg("const", only<decs>);
#define X(rep) reg("written|" #rep, both<written_##rep>); reg("writtenquot|" #rep, both<quot_##rep>);
  X(int) X(unsigned) X(long) X(ulong) X(llong) X(ullong)
#undef X
}
#endif
Registrar const r(all);

} // namespace
