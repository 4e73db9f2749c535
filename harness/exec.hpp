// Common part of the executors: they read rows of arguments, call the library
// through its public interface, and write each call as a trace event for the
// specification to judge.  An executor knows nothing about expected results.
#ifndef VERIF_EXEC_HPP
#define VERIF_EXEC_HPP

#include <ieme/ieme.hpp>

#include <cstdint>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace ex {

// Numbers beyond 32 bits are written as strings: TLC reads JSON integers as
// 32-bit words.
struct Out {
  std::string s;
  void sep() { if (!s.empty() && s.back() != '[') s += ','; }
  void num(long long v)
  {
    sep();
    if (v >= INT32_MIN && v <= INT32_MAX) s += std::to_string(v);
    else { s += '"'; s += std::to_string(v); s += '"'; }
  }
  void unum(unsigned long long v)
  {
    if (v <= INT32_MAX) { num(static_cast<long long>(v)); return; }
    sep(); s += '"'; s += std::to_string(v); s += '"';
  }
  template <typename T> void n(T v)
  {
    if constexpr (std::is_same_v<T, bool>) b(v);
    else if constexpr (std::is_signed_v<T>) num(v);
    else unum(v);
  }
  void mag(bool neg, unsigned long long v)
  {
    if (!neg) { unum(v); return; }
    if (v <= INT32_MAX) { num(-static_cast<long long>(v)); return; }
    sep(); s += "\"-"; s += std::to_string(v); s += '"';
  }
  void b(bool v) { sep(); s += v ? "true" : "false"; }
  void word(std::string_view w) { sep(); s += '"'; s += w; s += '"'; }
  void open() { sep(); s += '['; }
  void close() { s += ']'; }
  void codes(std::string_view t)
  {
    open();
    for (unsigned char c : t) num(c);
    close();
  }
  template <typename F> void frac(F const& f) { n(f.numerator()); n(f.denominator()); }
};

struct Args {
  std::vector<std::string_view> v;
  template <typename T> T get(std::size_t i) const
  {
    if constexpr (std::is_signed_v<T>)
      return static_cast<T>(std::strtoll(std::string(v.at(i)).c_str(), nullptr, 10));
    else
      return static_cast<T>(std::strtoull(std::string(v.at(i)).c_str(), nullptr, 10));
  }
  // text arguments come as hexadecimal bytes after an x, "x-" for the empty text
  std::string text(std::size_t i) const
  {
    std::string r;
    auto t = v.at(i);
    if (!t.empty() && t[0] == 'x') t.remove_prefix(1);
    if (t == "-") return r;
    for (std::size_t k = 0; k + 1 < t.size(); k += 2)
      r += static_cast<char>(std::stoi(std::string(t.substr(k, 2)), nullptr, 16));
    return r;
  }
  std::size_t size() const { return v.size(); }
};

using Fn = void (*)(Args const&, Out&);
std::map<std::string, Fn>& registry();

inline void reg(std::string const& key, Fn f) { registry()[key] = f; }

template <typename T> constexpr char const* rep_name()
{
  if constexpr (std::is_same_v<T, int>) return "int";
  else if constexpr (std::is_same_v<T, unsigned>) return "unsigned";
  else if constexpr (std::is_same_v<T, long>) return "long";
  else if constexpr (std::is_same_v<T, unsigned long>) return "ulong";
  else if constexpr (std::is_same_v<T, long long>) return "llong";
  else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
  else return "other";
}

using ieme::reduce_mode;
namespace pol {
using namespace ieme::ops;
using safe_in = reduced_input<safe, reduce_mode::normalize_signs>;
using fast_in = reduced_input<fast, reduce_mode::normalize_signs>;
using safe_on = reduced_output<safe, reduce_mode::ignore_signs>;
using fast_on = reduced_output<fast, reduce_mode::ignore_signs>;
using safe_oi = reduced_output<reduced_input<safe>>;
}

#define EX_ALL_POLICIES(X)                                                     \
  X(safe, "safe") X(safe_reduced_i, "safe_i") X(safe_reduced_o, "safe_o")      \
  X(safe_reduced_io, "safe_io") X(fast, "fast") X(fast_reduced_i, "fast_i")    \
  X(fast_reduced_o, "fast_o") X(fast_reduced_io, "fast_io")                    \
  X(safe_in, "safe_in") X(fast_in, "fast_in") X(safe_on, "safe_on")            \
  X(fast_on, "fast_on") X(safe_oi, "safe_oi")

#define EX_MAIN_POLICIES(X)                                                    \
  X(safe_reduced_io, "safe_io") X(fast, "fast") X(safe, "safe")

template <typename P> constexpr char const* pol_name()
{
#define X(t, n) if constexpr (std::is_same_v<P, pol::t>) return n; else
  EX_ALL_POLICIES(X) return "other";
#undef X
}

// Called by main.cpp; each source file defines its own.
struct Registrar { explicit Registrar(void (*f)()) { f(); } };

} // namespace ex

#ifdef REP
using rep_t = REP;
#endif

#endif
