// Text output, text input and floating-point strings of fraction<rep_t, P>.
#include "exec.hpp"

#include <cstring>
#include <iomanip>
#include <memory>
#include <sstream>

using namespace ex;
using ieme::fraction;
using ieme::raw_fraction;

namespace {

// A source of characters that hands out n of them at a time, so that a read
// meets the end of the buffer anywhere.
class Source : public std::streambuf {
public:
  Source(std::string t, std::size_t n) : text(std::move(t)), step(n) {}
  std::size_t position() const { return at - static_cast<std::size_t>(egptr() - gptr()); }

protected:
  int_type underflow() override
  {
    if (at >= text.size()) return traits_type::eof();
    auto const k = std::min(step, text.size() - at);
    setg(text.data() + at, text.data() + at, text.data() + at + k);
    at += k;
    return traits_type::to_int_type(*gptr());
  }

private:
  std::string text;
  std::size_t step, at = 0;
};

template <typename F> void put(Out& o, F const& f)
{
  if constexpr (requires { f.numerator(); }) o.frac(f);
  else { o.n(f.numerator); o.n(f.denominator); }
}

template <typename F> void write(Args const& a, Out& o)
{
  F const x(a.get<rep_t>(0), a.get<rep_t>(1));
  std::ostringstream s;
  auto* const p = &(s << x);
  o.codes(s.str());
  o.b(static_cast<void const*>(p) == static_cast<std::ostream*>(&s) && s.good());
  std::ostringstream t;
  t << '<' << x << '|' << x << '>';
  o.codes(t.str());
}

// n d -> read back by >>, failed afterwards; with state of the stream left behind
template <typename F> void back(Args const& a, Out& o)
{
  F const x(a.get<rep_t>(0), a.get<rep_t>(1));
  std::stringstream s;
  s << x;
  F y(rep_t(3), rep_t(5));
  auto* const p = &(s >> y);
  put(o, y);
  o.b(s.fail());
  o.b(static_cast<void const*>(p) == static_cast<std::istream*>(&s));
}

// chunk, text, n fractions are read: failed, components, position of each
template <typename F> void read_all(std::istream& s, Source& src, int n, Out& o)
{
  for (int i = 0; i < n; ++i)
  {
    F y(rep_t(3), rep_t(5));
    s >> y;
    o.b(s.fail());
    put(o, y);
    o.num(static_cast<long long>(src.position()));
  }
}
template <typename F, int N> void read(Args const& a, Out& o)
{
  Source src(a.text(1), a.get<unsigned long>(0));
  std::istream s(&src);
  read_all<F>(s, src, N, o);
}
// chunk, separator, fractions -> the text they make, then as above
template <typename F> void seq(Args const& a, Out& o)
{
  std::ostringstream out;
  auto const sep = a.text(1);
  int n = 0;
  for (std::size_t i = 2; i + 1 < a.size(); i += 2, ++n)
  {
    if (n) out << sep;
    out << F(a.get<rep_t>(i), a.get<rep_t>(i + 1));
  }
  o.codes(out.str());
  Source src(out.str(), a.get<unsigned long>(0));
  std::istream s(&src);
  read_all<F>(s, src, n + 1, o);
}

template <typename P> void parse(Args const& a, Out& o)
{
  auto const t = a.text(0);
  // a copy of its own, ended by nothing
  std::unique_ptr<char[]> const p(new char[t.size() + 1]);
  std::memcpy(p.get(), t.data(), t.size());
  p[t.size()] = '7';
  auto const x = ieme::floating_point_string_to_fraction<rep_t, P>(
    std::string_view(p.get(), t.size()));
  static_assert(std::is_same_v<std::remove_const_t<decltype(x)>, fraction<rep_t, P>>);
  o.frac(x);
}

// One stream written and read in turns, into the same variables.
template <typename F> struct Turns {
  static inline std::unique_ptr<std::stringstream> s;
  static inline F y;
  static inline raw_fraction<rep_t> z;
  static inline std::size_t length;

  static void step(Args const& a, Out& o)
  {
    auto const op = a.v.at(0);
    rep_t n {}, d {};
    auto got = [&](auto const& v) {
      if constexpr (requires { v.numerator(); }) { n = v.numerator(); d = v.denominator(); }
      else { n = v.numerator; d = v.denominator; }
    };
    if (op == "reset") { s = std::make_unique<std::stringstream>(); length = 0; }
    else if (op == "clear") s->clear();
    else if (op == "write") *s << F(a.get<rep_t>(1), a.get<rep_t>(2));
    else if (op == "writeraw") *s << raw_fraction<rep_t>(a.get<rep_t>(1), a.get<rep_t>(2));
    else if (op == "int") *s << a.get<rep_t>(1);
    else if (op == "text") *s << a.text(1);
    else if (op == "read") { *s >> y; got(y); }
    else if (op == "readraw") { *s >> z; got(z); }
    else { *s >> n; }
    o.b(s->fail());
    o.n(n);
    o.n(d);
    o.num(s->rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in));
    auto const t = s->str();
    o.codes(t.substr(std::min(length, t.size())));
    length = t.size();
  }
};

template <typename F> void streams(std::string const& t)
{
  reg("write" + t, write<F>);
  reg("back" + t, back<F>);
  reg("read" + t, read<F, 3>);
  reg("seq" + t, seq<F>);
  reg("turns" + t, Turns<F>::step);
}

void all()
{
  std::string const t = std::string("|") + rep_name<rep_t>() + "|";
  auto reg_parse = [&]<typename P>(std::string const& k) { reg("parse" + k, parse<P>); };
#define X(p, n) reg_parse.template operator()<pol::p>(t + n);
  EX_ALL_POLICIES(X)
#undef X
#define X(p, n) streams<fraction<rep_t, pol::p>>(t + n);
  EX_MAIN_POLICIES(X)
#undef X
  streams<raw_fraction<rep_t>>(t + "raw");
}
Registrar const r(all);

} // namespace
