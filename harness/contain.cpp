// Histories of unordered containers keyed by fractions.
#include "exec.hpp"

#include <ieme/hash.hpp>

#include <unordered_map>
#include <unordered_set>

using namespace ex;
using ieme::fraction;

namespace {

template <typename P> struct Box {
  using F = fraction<rep_t, P>;
  static inline std::unordered_map<F, int> map;
  static inline std::unordered_set<F> set;

  // a set keeps only keys: its histories do not use put and get
  template <bool Map> static void step(Args const& a, Out& o)
  {
    auto& m = [] () -> auto& { if constexpr (Map) return map; else return set; }();
    auto const op = a.v.at(0);
    F const x(a.get<rep_t>(1), a.get<rep_t>(2));
    int const v = a.get<int>(3);
    if (op == "hash") o.word(std::to_string(v % 2 ? ieme::hash(x) : std::hash<F>()(x)));
    else if (op == "reset") { m.clear(); o.num(0); }
    else if (op == "insert")
    {
      if constexpr (Map) o.num(m.insert({x, v}).second); else o.num(m.insert(x).second);
    }
    else if (op == "erase") o.num(static_cast<long long>(m.erase(x)));
    else if (op == "find") o.num(static_cast<long long>(m.count(x)));
    else if constexpr (Map)
    {
      if (op == "put") { m[x] = v; o.num(m.at(x)); }
      else { auto const it = m.find(x); o.num(it == m.end() ? -1 : it->second); }
    }
    o.num(static_cast<long long>(m.size()));
  }
  static void reg_all()
  {
    std::string const t = std::string("|") + rep_name<rep_t>() + "|" + pol_name<P>();
    reg("map" + t, step<true>);
    reg("set" + t, step<false>);
  }
};

void all()
{
#define X(t, n) Box<pol::t>::reg_all();
  EX_ALL_POLICIES(X)
#undef X
}
Registrar const r(all);

} // namespace
