// The executors evaluated by the compiler.  A table lists calls of one
// executor with constant arguments; a call is recorded with what the compiler
// found (nothing, if it is no constant expression) and what the program found
// when it made the call with arguments read at run time.
#ifndef VERIF_CONSTANT_HPP
#define VERIF_CONSTANT_HPP

#include "exec.hpp"

namespace ex {

struct Val {
  char kind;
  unsigned long long u;
  char const* w;
};
struct COut {
  Val v[40] {};
  int size = 0;
  constexpr void put(char k, unsigned long long u, char const* w = nullptr) { v[size++] = {k, u, w}; }
  constexpr void num(long long x) { put('n', static_cast<unsigned long long>(x)); }
  constexpr void unum(unsigned long long x) { put('u', x); }
  constexpr void mag(bool neg, unsigned long long x) { put(neg ? '-' : 'u', x); }
  constexpr void b(bool x) { put('b', x); }
  constexpr void word(char const* w) { put('w', 0, w); }
  template <typename T> constexpr void n(T x)
  {
    if constexpr (std::is_same_v<T, bool>) b(x);
    else if constexpr (std::is_signed_v<T>) num(x);
    else unum(x);
  }
  template <typename F> constexpr void frac(F const& f) { n(f.numerator()); n(f.denominator()); }

  void write(Out& o) const
  {
    for (int i = 0; i < size; ++i)
      switch (v[i].kind)
      {
      case 'n': o.num(static_cast<long long>(v[i].u)); break;
      case 'u': o.unum(v[i].u); break;
      case '-': o.mag(true, v[i].u); break;
      case 'b': o.b(v[i].u != 0); break;
      case 'w': o.word(v[i].w); break;
      }
  }
};

template <std::size_t N> struct Txt {
  char c[N];
  constexpr Txt(char const (&t)[N]) { for (std::size_t i = 0; i < N; ++i) c[i] = t[i]; }
};
struct CArgs {
  unsigned long long v[20] {};
  std::string_view t {};
  std::size_t count = 0;
  template <typename... T> constexpr CArgs(T const&... x) { (add(x), ...); }
  template <typename T> constexpr void add(T x) { v[count++] = static_cast<unsigned long long>(x); }
  template <std::size_t N> constexpr void add(Txt<N> const& x) { t = std::string_view(x.c, N - 1); ++count; }
  template <typename T> constexpr T get(std::size_t i) const { return static_cast<T>(v[i]); }
  constexpr std::string_view text(std::size_t) const { return t; }
  constexpr std::size_t size() const { return count; }
};

using CFn = void (*)(CArgs const&, COut&);

template <CFn F, auto... A> struct Row {
  template <int> static constexpr COut make()
  {
    COut o;
    F(CArgs(A...), o);
    return o;
  }
};
template <typename E> concept constant = requires {
  typename std::integral_constant<bool, (static_cast<void>(E::template make<0>()), true)>;
};
template <typename E> inline constexpr COut found = E::template make<0>();

// The outcome of a row, null if it is no constant expression.
template <CFn F, auto... A> constexpr COut const* row()
{
  using E = Row<F, A...>;
  if constexpr (constant<E>) return &found<E>;
  else return nullptr;
}

template <COut const* const* table, Fn run> void both(Args const& a, Out& o)
{
  o.open();
  if (auto const* const x = table[a.get<unsigned>(0)]) x->write(o);
  o.close();
  Args t;
  t.v.assign(a.v.begin() + 1, a.v.end());
  run(t, o);
}

} // namespace ex

#endif
