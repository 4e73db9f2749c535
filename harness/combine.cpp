// What the compiler accepts: the generated expressions of -DGENERATED, and
// conversions between policies (-DCONVERT).
#include "exec.hpp"
#include <utility>

using namespace ex;
using ieme::fraction;
using ieme::mixed_number;

namespace {

// Types that depend on D, so that expressions are checked when instantiated.
template <typename D, typename T> struct depend { using type = T; };
template <typename D, typename P, typename R>
using fr = typename depend<D, fraction<R, P>>::type;
template <typename D, typename P, typename R> fr<D, P, R> const& F();
template <typename D, typename P, typename R> fr<D, P, R>& L();
template <typename D, typename R> typename depend<D, R>::type const& I();
using short_ = short;
using ulong_ = unsigned long;
using llong_ = long long;
using ullong_ = unsigned long long;

template <typename T> constexpr char const* int_name()
{
  if constexpr (std::is_same_v<T, short>) return "short";
  else return rep_name<T>();
}
template <typename T> struct type_of {
  static void put(Out& o)
  {
    if constexpr (std::is_same_v<T, bool>) { o.word("bool"); o.word("."); o.word("."); }
    else { o.word("int"); o.word("."); o.word(int_name<T>()); }
  }
};
template <typename R, typename P> struct type_of<fraction<R, P>> {
  static void put(Out& o) { o.word("frac"); o.word(pol_name<P>()); o.word(rep_name<R>()); }
};

#define EXPR(n, ...)                                                           \
  template <typename D> void e##n(Out& o)                                      \
  {                                                                            \
    if constexpr (requires { __VA_ARGS__; })                                   \
    {                                                                          \
      o.b(true);                                                               \
      type_of<std::remove_cvref_t<decltype(__VA_ARGS__)>>::put(o);             \
    }                                                                          \
    else o.b(false);                                                           \
  }

#ifdef GENERATED
#include GENERATED
void expr(Args const& a, Out& o) { exprs[a.get<unsigned>(0)](o); }
void all() { reg("expr|" PART, expr); }
#endif

#ifdef CONVERT
// The policies and representations of a row come as words for the judge, and
// as an index into the table of all pairs for the executor.
template <typename P, typename R, typename Q, typename S> void conv(Out& o)
{
  using A = fraction<R, P>;
  using B = fraction<S, Q>;
  o.b(std::is_constructible_v<B, A const&> && requires(A const& x) { static_cast<B>(x); });
  o.b(std::is_convertible_v<A const&, B>);
}
template <typename A, typename B> concept adds = requires(A const& a, B const& b) { a + b; };
template <typename P, typename Q> void mixed(Out& o)
{
  o.b(adds<mixed_number<int, int, P>, mixed_number<int, int, Q>>);
  o.b(adds<mixed_number<int, int, P>, fraction<int, Q>>);
  o.b(adds<fraction<int, P>, mixed_number<int, int, Q>>);
}
std::vector<void (*)(Out&)> convs, mixeds;
template <typename P, typename R> void conv_from()
{
#define X(t, n) convs.push_back(conv<P, R, pol::t, int>); convs.push_back(conv<P, R, pol::t, unsigned long>);
  EX_ALL_POLICIES(X)
#undef X
}
template <typename P> void mixed_from()
{
#define X(t, n) mixeds.push_back(mixed<P, pol::t>);
  EX_ALL_POLICIES(X)
#undef X
}
void convert(Args const& a, Out& o) { convs.at(a.get<unsigned>(0))(o); }
void mix(Args const& a, Out& o) { mixeds.at(a.get<unsigned>(0))(o); }
void all()
{
#define X(t, n) conv_from<pol::t, int>(); conv_from<pol::t, unsigned long>();
  EX_ALL_POLICIES(X)
#undef X
#define X(t, n) mixed_from<pol::t>();
  EX_ALL_POLICIES(X)
#undef X
  reg("convert", convert);
  reg("mixed", mix);
}
#endif
#ifndef SETTLE
Registrar const r(all);
#endif

} // namespace
