// Programs over four fraction variables, one instruction per row.
#include "exec.hpp"

#include <sstream>

using namespace ex;
using ieme::fraction;
using ieme::round_mode;

namespace {

#ifdef THREADS
constexpr std::size_t own_variables = 2, initialized = 2;
#else
constexpr std::size_t initialized = 4;
#endif

template <typename P> struct Machine {
  using F = fraction<rep_t, P>;
#ifdef THREADS
  // each thread has variables of its own; all read the others
  static F& reg(std::size_t i)
  {
    static F shared[4];
    static thread_local F own[4];
    return i <= own_variables ? own[i - 1] : shared[i - 1];
  }
#else
  static F& reg(std::size_t i)
  {
    static F r[4];
    return r[i - 1];
  }
#endif
  template <typename A, typename B> static bool compare(std::string_view c, A const& a, B const& b)
  {
    if (c == "eq") return a == b;
    if (c == "ne") return a != b;
    if (c == "lt") return a < b;
    if (c == "le") return a <= b;
    if (c == "gt") return a > b;
    return a >= b;
  }
  template <typename A, typename B> static F arith(std::string_view o, A const& a, B const& b)
  {
    if (o == "plus") return a + b;
    if (o == "minus") return a - b;
    if (o == "times") return a * b;
    if (o == "divides") return a / b;
    return a % b;
  }
  template <typename B> static void assign(std::string_view o, F& a, B const& b)
  {
    if (o == "plus") a += b;
    else if (o == "minus") a -= b;
    else if (o == "times") a *= b;
    else if (o == "divides") a /= b;
    else a %= b;
  }
  static F unary(std::string_view f, F const& x)
  {
    if (f == "neg") return -x;
    if (f == "pos") return +x;
    if (f == "abs") return abs(x);
    if (f == "recip") return reciprocal(x);
    if (f == "reduce") return reduce(x);
    if (f == "ignore") return reduce(x, ieme::reduce_mode::ignore_signs);
    if (f == "norm") return normalize_signs(x);
    return x;
  }
  static round_mode mode(std::string_view m)
  {
    return m == "trunc" ? round_mode::trunc : m == "ceil" ? round_mode::ceil
         : m == "floor" ? round_mode::floor : round_mode::round;
  }
  static void step(Args const& a, Out& o)
  {
    auto const code = a.v[0], sub = a.v[1];
    auto const num = [&](std::size_t i) { return a.get<rep_t>(i); };
    auto const at = [&](std::size_t i) -> F& { return reg(a.get<unsigned>(i)); };
    bool flag = false;
    if (code == "init")
      for (std::size_t i = 1; i <= initialized; ++i) reg(i) = F(num(2 * i - 1), num(2 * i));
    else if (code == "share")
      for (std::size_t i = initialized + 1; i <= 4; ++i) reg(i) = F(num(2 * i - 1), num(2 * i));
    else if (code == "set") at(2) = F(num(3), num(4));
    else if (code == "op") at(2) = arith(sub, at(3), at(4));
    else if (code == "opa") assign(sub, at(2), at(3));
    else if (code == "opi") at(2) = arith(sub, at(3), num(4));
    else if (code == "iop") at(2) = arith(sub, num(3), at(4));
    else if (code == "opai") assign(sub, at(2), num(3));
    else if (code == "un") at(2) = unary(sub, at(3));
    else if (code == "whole")
    {
      F const x = at(3);
      if (is_defined(x))
        at(2) = F(to_whole(x, mode(sub)));
      else at(2) = x;
    }
    else if (code == "sel")
    {
      flag = compare(sub, at(3), at(4));
      if (flag) at(2) = at(5);
    }
    else if (code == "seli")
    {
      flag = compare(sub, at(3), num(4));
      if (flag) at(2) = at(5);
    }
    else if (code == "isel")
    {
      flag = compare(sub, num(3), at(4));
      if (flag) at(2) = at(5);
    }
    else if (code == "opac")
      assign(sub, at(2), a.get<int>(4) == 1 ? at(3).numerator() : at(3).denominator());
    else if (code == "pow") at(2) = ieme::pow<rep_t, P>(num(3), a.get<int>(4));
    else if (code == "redenom") at(2) = redenominate(at(3), num(4), mode(sub));
    else if (code == "text")
    {
      std::stringstream s;
      s << at(3);
      s >> at(2);
    }
    else if (code == "via")
      at(2) = F(fraction<rep_t, std::conditional_t<std::is_same_v<P, pol::fast>, pol::safe, pol::fast>>(
        ieme::raw_fraction<rep_t>(at(3).raw())));
    else if (code == "mixed")
    {
      using M = ieme::mixed_number<rep_t, rep_t, P>;
      at(2) = (M(at(3)) + M(at(4))).as_fraction();
    }
    else if (code == "float") at(2) = ieme::to_fraction<rep_t, P>(to_double(at(3)));
    else if (code == "parse")
      at(2) = ieme::floating_point_string_to_fraction<rep_t, P>(
        std::to_string(a.get<unsigned>(3)) + '.' + std::to_string(a.get<unsigned>(4)));
    else if (code == "hash")
      flag = std::hash<F>()(at(2)) == std::hash<F>()(at(3));
    o.b(flag);
    for (std::size_t i = 1; i <= 4; ++i) o.frac(reg(i));
  }
  static void reg_all()
  {
    ex::reg(std::string("machine|") + rep_name<rep_t>() + "|" + pol_name<P>(), step);
  }
};

void all()
{
#define X(t, n) Machine<pol::t>::reg_all();
  EX_ALL_POLICIES(X)
#undef X
}
Registrar const r(all);

} // namespace
