// The policy each part of the library uses when none is named.
#include "exec.hpp"
#include <chrono>

using namespace ex;
using namespace ieme::literals;
namespace ic = ieme::chrono;

namespace {

template <typename T> using ops_of = typename std::remove_cvref_t<T>::ops_type;

struct fake {
  using rep = long;
  using period = std::ratio<1>;
  using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<fake>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(3)); }
};

void defaults(Args const&, Out& o)
{
#define P(...) o.word(pol_name<__VA_ARGS__>());
  P(ieme::ops::defaults)
  P(ops_of<ieme::fraction<int>>)
  P(ops_of<ieme::fraction<unsigned long>>)
  P(ops_of<decltype(ieme::fraction(1, 2))>)
  P(ops_of<decltype(1 / 2_fr)>)
  P(ops_of<decltype(1ul / -2_fr)>)
  P(ops_of<decltype(2_fr)>)
  P(ops_of<decltype(-2_fr)>)
  P(ops_of<decltype(1.5_dec)>)
  P(ops_of<ieme::mixed_number<int>>)
  P(ops_of<ieme::mixed_number<int, long>>)
  P(ops_of<ieme::mixed_number<int>::fractional_type>)
  P(ops_of<decltype(ieme::mixed_number<int>().as_fraction())>)
  P(ops_of<decltype(ieme::floating_point_string_to_fraction<int>("1.5"))>)
  P(ops_of<decltype(ieme::to_fraction<int>(1.5f))>)
  P(ops_of<decltype(ieme::to_fraction<long>(1.5))>)
  P(ops_of<decltype(ieme::pow<int>(2, 3))>)
  P(ops_of<decltype(ieme::pow2<int>(3))>)
  P(ops_of<ic::duration<int, std::milli>::rep>)
  P(ops_of<ic::nanoseconds::rep>)
  P(ops_of<ic::hours::rep>)
  P(ops_of<decltype(ic::to_fractional(std::chrono::seconds(1)))::rep>)
  P(ops_of<decltype(ic::to_fractional(fake::now()))::rep>)
  P(ops_of<ic::time_point<fake, int, std::milli>::rep>)
  P(ops_of<ic::clock_wrapper<fake>>)
  P(ops_of<decltype(ic::clock_wrapper<fake>::now())::rep>)
#undef P
}

using F = ieme::fraction<int>;
#define OP(name, sym)                                                          \
  void name(Args const& a, Out& o)                                             \
  {                                                                            \
    o.frac(F(a.get<int>(0), a.get<int>(1)) sym F(a.get<int>(2), a.get<int>(3))); \
  }
OP(plus, +) OP(minus, -) OP(times, *) OP(divides, /) OP(modulus, %)

void all()
{
  reg("defaults", defaults);
  reg("plus", plus);
  reg("minus", minus);
  reg("times", times);
  reg("divides", divides);
  reg("modulus", modulus);
}
Registrar const r(all);

} // namespace
