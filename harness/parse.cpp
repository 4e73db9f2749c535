// Floating-point strings, for evaluation by the compiler too.
#include "exec.hpp"
using namespace ex;
namespace {
template <typename P> constexpr void parse(auto const& a, auto& o)
{
  auto const t = a.text(0);
  o.frac(ieme::floating_point_string_to_fraction<rep_t, P>(std::string_view(t)));
}
} // namespace
