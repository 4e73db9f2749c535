From c3f547276c93078ac96d9106e371e641f7e50271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 01/15] fix: make every header self-contained

---
 include/ieme/floating_point.hpp    | 1 +
 include/ieme/parse_utilities.hpp   | 2 ++
 include/ieme/raw_fraction_math.hpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index d481bc3..ed7a2bd 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -9,6 +9,7 @@
 
 #include <bit>
 #include <cstdint>
+#include <cstring>
 #include <limits>
 #include <string>
 #include <string_view>
diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index 1ae63f8..ca29da4 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -1,6 +1,8 @@
 #ifndef IEME_PARSE_UTILITIES_HPP
 #define IEME_PARSE_UTILITIES_HPP
 
+#include <ieme/numbers.hpp>
+
 #include <optional>
 #include <string_view>
 #include <utility>
diff --git a/include/ieme/raw_fraction_math.hpp b/include/ieme/raw_fraction_math.hpp
index 4c6fd85..fd224ce 100644
--- a/include/ieme/raw_fraction_math.hpp
+++ b/include/ieme/raw_fraction_math.hpp
@@ -3,6 +3,7 @@
 
 #include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
+#include <ieme/raw_fraction_queries.hpp>
 #include <ieme/reduce_mode.hpp>
 
 #include <numeric>
-- 
2.43.0


From 55f4dda7e148be5675d571ff53194114f732fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 02/15] fix: order fractions with negative denominators
 correctly

---
 include/ieme/ops.hpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index 6feaece..a2ac232 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -1,6 +1,7 @@
 #ifndef IEME_OPS_HPP
 #define IEME_OPS_HPP
 
+#include <ieme/numbers.hpp>
 #include <ieme/raw_fraction.hpp>
 #include <ieme/raw_fraction_math.hpp>
 #include <ieme/raw_fraction_queries.hpp>
@@ -733,6 +734,9 @@ template <typename Rep>
 constexpr bool safe::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return left.numerator > right * left.denominator;
+
   return left.numerator < right * left.denominator && is_defined(left);
 }
 
@@ -740,6 +744,9 @@ template <typename Rep>
 constexpr bool safe::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return left * right.denominator > right.numerator;
+
   return left * right.denominator < right.numerator && is_defined(right);
 }
 
@@ -760,6 +767,9 @@ template <typename Rep>
 constexpr bool safe::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return left.numerator >= right * left.denominator;
+
   return left.numerator <= right * left.denominator && is_defined(left);
 }
 
@@ -767,6 +777,9 @@ template <typename Rep>
 constexpr bool safe::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return left * right.denominator >= right.numerator;
+
   return left * right.denominator <= right.numerator && is_defined(right);
 }
 
@@ -984,6 +997,11 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if ((left.denominator < _0<Rep>) != (right.denominator < _0<Rep>))
+    return left.numerator * right.denominator
+             > right.numerator * left.denominator
+           && is_defined(left) && is_defined(right);
+
   return left.numerator * right.denominator < right.numerator * left.denominator
          && is_defined(left) && is_defined(right);
 }
@@ -992,6 +1010,9 @@ template <typename Rep>
 constexpr bool fast::less(raw_fraction<Rep> const& left,
                           Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return left.numerator > right * left.denominator;
+
   return left.numerator < right * left.denominator && is_defined(left);
 }
 
@@ -999,6 +1020,9 @@ template <typename Rep>
 constexpr bool fast::less(Rep const& left,
                           raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return left * right.denominator > right.numerator;
+
   return left * right.denominator < right.numerator && is_defined(right);
 }
 
@@ -1006,6 +1030,11 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if ((left.denominator < _0<Rep>) != (right.denominator < _0<Rep>))
+    return left.numerator * right.denominator
+             >= right.numerator * left.denominator
+           && is_defined(left) && is_defined(right);
+
   return left.numerator * right.denominator
            <= right.numerator * left.denominator
          && is_defined(left) && is_defined(right);
@@ -1015,6 +1044,9 @@ template <typename Rep>
 constexpr bool fast::less_equal(raw_fraction<Rep> const& left,
                                 Rep const& right) noexcept
 {
+  if (left.denominator < _0<Rep>)
+    return left.numerator >= right * left.denominator;
+
   return left.numerator <= right * left.denominator && is_defined(left);
 }
 
@@ -1022,6 +1054,9 @@ template <typename Rep>
 constexpr bool fast::less_equal(Rep const& left,
                                 raw_fraction<Rep> const& right) noexcept
 {
+  if (right.denominator < _0<Rep>)
+    return left * right.denominator >= right.numerator;
+
   return left * right.denominator <= right.numerator && is_defined(right);
 }
 
-- 
2.43.0


From f8e44952ee3f95da5d041bb8524c2bd3af90da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 03/15] fix: propagate undefined operands instead of trapping
 or defining them

---
 include/ieme/ops.hpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/ieme/ops.hpp b/include/ieme/ops.hpp
index a2ac232..e1d6b2f 100644
--- a/include/ieme/ops.hpp
+++ b/include/ieme/ops.hpp
@@ -551,6 +551,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::plus(raw_fraction<Rep> const& left,
                                        raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -576,6 +579,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::minus(raw_fraction<Rep> const& left,
                                         raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {lcm / left.denominator * left.numerator
@@ -625,6 +631,9 @@ constexpr raw_fraction<Rep>
 safe::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -640,6 +649,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -648,6 +660,10 @@ constexpr raw_fraction<Rep>
 safe::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right)
+      || right.numerator == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   auto const lcm = std::lcm(left.denominator, right.denominator);
 
   return {(lcm / left.denominator * left.numerator)
@@ -659,6 +675,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> safe::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (left.denominator * right), left.denominator};
 }
 
@@ -666,6 +685,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 safe::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || right.numerator == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {(right.denominator * left) % right.numerator, right.denominator};
 }
 
@@ -907,6 +929,9 @@ constexpr raw_fraction<Rep>
 fast::divides(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator * right.denominator,
           left.denominator * right.numerator};
 }
@@ -922,6 +947,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::divides(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right))
+    return {_0<Rep>, _0<Rep>};
+
   return {left * right.denominator, right.numerator};
 }
 
@@ -930,6 +958,10 @@ constexpr raw_fraction<Rep>
 fast::modulus(raw_fraction<Rep> const& left,
               raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(left) || is_undefined(right)
+      || right.numerator == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {(left.numerator * right.denominator)
             % (right.numerator * left.denominator),
           left.denominator * right.denominator};
@@ -939,6 +971,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep> fast::modulus(raw_fraction<Rep> const& left,
                                           Rep const& right) noexcept
 {
+  if (is_undefined(left) || right == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {left.numerator % (right * left.denominator), left.denominator};
 }
 
@@ -946,6 +981,9 @@ template <typename Rep>
 constexpr raw_fraction<Rep>
 fast::modulus(Rep const& left, raw_fraction<Rep> const& right) noexcept
 {
+  if (is_undefined(right) || right.numerator == _0<Rep>)
+    return {_0<Rep>, _0<Rep>};
+
   return {(left * right.denominator) % right.numerator, right.denominator};
 }
 
-- 
2.43.0


From 2fd09ec62e387584265e836a7a6c5f3829717305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 04/15] fix: a fraction with a negative denominator is not
 reduced

---
 include/ieme/raw_fraction_queries.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ieme/raw_fraction_queries.hpp b/include/ieme/raw_fraction_queries.hpp
index 4e84b7e..65dab3a 100644
--- a/include/ieme/raw_fraction_queries.hpp
+++ b/include/ieme/raw_fraction_queries.hpp
@@ -132,8 +132,7 @@ constexpr bool is_reduced_ignore_signs(raw_fraction<Rep> const& value) noexcept
 template <typename Rep>
 constexpr bool is_reduced(raw_fraction<Rep> const& value) noexcept
 {
-  auto const signs_are_normalized
-    = value.numerator > _0<Rep> || value.denominator > _0<Rep>;
+  auto const signs_are_normalized = value.denominator > _0<Rep>;
 
   return signs_are_normalized && is_reduced_ignore_signs(value);
 }
-- 
2.43.0


From 48dbb71dcd3f3a3a9c96390240e774d624802a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 05/15] fix: ceil and floor of negative proper fractions

---
 include/ieme/fraction_math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0e58a5d..0b790d3 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -162,8 +162,8 @@ constexpr Rep ceil(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated < _0<Rep>) ? truncated
-                                                    : truncated + _1<Rep>;
+  return (is_integer(value) || is_negative(value)) ? truncated
+                                                   : truncated + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
@@ -171,8 +171,8 @@ constexpr Rep floor(fraction<Rep, Ops> const& value) noexcept
 {
   auto const truncated = trunc(value);
 
-  return (is_integer(value) || truncated >= _0<Rep>) ? truncated
-                                                     : truncated - _1<Rep>;
+  return (is_integer(value) || is_positive(value)) ? truncated
+                                                   : truncated - _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From d05bcabc961bee78372d335b9bd29aed073f650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 06/15] fix: round fractions whose doubled remainder overflows

---
 include/ieme/fraction_math.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 0b790d3..320257d 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -180,9 +180,18 @@ constexpr Rep round(fraction<Rep, Ops> const& value) noexcept
 {
   auto const floored = floor(value);
 
-  return (value - floored < fraction<Rep, Ops>(_1<Rep>, _2<Rep>))
-           ? floored
-           : floored + _1<Rep>;
+  // Twice the remainder may not be representable, so it's compared with what it
+  // lacks to the denominator instead
+  auto const denominator = math_utilities::abs(value.denominator());
+  auto const remainder
+    = math_utilities::abs(value.numerator() % value.denominator());
+  auto const complement = denominator - remainder;
+
+  auto const rounds_down
+    = is_negative(value) ? (is_integer(value) || complement < remainder)
+                         : (remainder < complement);
+
+  return rounds_down ? floored : floored + _1<Rep>;
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From c0e45e6e8a0a997427a34d0db12a19a5302fc262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 07/15] fix: hash equal fractions equally

---
 include/ieme/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/hash.hpp b/include/ieme/hash.hpp
index b033e8b..e936674 100644
--- a/include/ieme/hash.hpp
+++ b/include/ieme/hash.hpp
@@ -67,7 +67,7 @@ std::size_t hash(raw_fraction<Rep> const& value) noexcept
 template <typename Rep, typename Ops>
 std::size_t hash(fraction<Rep, Ops> const& value) noexcept
 {
-  return hash(value.raw());
+  return hash(reduce(value.raw()));
 }
 
 template <typename WRep, typename FRep, typename Ops>
-- 
2.43.0


From 8f9a04e5d36df7bee6cdc1b70f7b386ece23daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 08/15] fix: accept floating point strings without a radix
 separator

---
 include/ieme/parse_utilities.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index ca29da4..abc2d52 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -66,7 +66,11 @@ scan_floating_point_string(std::string_view const string) noexcept
 
   auto const radix_separator_pos = remaining_string.find('.');
 
-  results.whole = remaining_string.substr(0, radix_separator_pos);
+  results.whole = remaining_string.substr(
+    0,
+    (radix_separator_pos != std::string_view::npos)
+      ? radix_separator_pos
+      : remaining_string.find_first_of((results.base == 10) ? "eE" : "pP"));
 
   auto const no_whole = results.whole.empty();
 
@@ -85,6 +89,8 @@ scan_floating_point_string(std::string_view const string) noexcept
 
   if (!no_radix_separator)
     remaining_string.remove_prefix(radix_separator_pos + 1);
+  else
+    remaining_string.remove_prefix(results.whole.size());
 
   auto const exponent_separator_pos = [&]() {
     auto const [lower, upper] = (results.base == 10) ? std::make_pair('e', 'E')
-- 
2.43.0


From e0ce340fee0136b1400e49712d3a89c6e2f11ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 09/15] fix: convert digit sequences without overflowing past
 the last digit

---
 include/ieme/parse_utilities.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ieme/parse_utilities.hpp b/include/ieme/parse_utilities.hpp
index abc2d52..947420f 100644
--- a/include/ieme/parse_utilities.hpp
+++ b/include/ieme/parse_utilities.hpp
@@ -193,9 +193,8 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
                                     Int const base) noexcept
 {
   auto result = _0<Int>;
-  auto base_power = _1<Int>;
 
-  for (auto it = sequence.rbegin(); it != sequence.rend(); ++it)
+  for (auto it = sequence.begin(); it != sequence.end(); ++it)
   {
     if (*it == '\'')
       continue;
@@ -210,8 +209,7 @@ constexpr Int digit_sequence_to_int(std::string_view const sequence,
       return static_cast<Int>(*it - '0');
     }();
 
-    result += digit_as_int * base_power;
-    base_power *= base;
+    result = result * base + digit_as_int;
   }
 
   return result;
-- 
2.43.0


From 1062ed15a8537e550890487a3c47030e9ffe5b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 10/15] fix: mixed numbers with an undefined fractional part

---
 include/ieme/mixed_number.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieme/mixed_number.hpp b/include/ieme/mixed_number.hpp
index 9562c6e..d52a6ff 100644
--- a/include/ieme/mixed_number.hpp
+++ b/include/ieme/mixed_number.hpp
@@ -106,7 +106,7 @@ template <typename WRep, typename FRep, typename Ops>
 template <typename OtherFRep>
 constexpr mixed_number<WRep, FRep, Ops>::mixed_number(
   fraction<OtherFRep, ops_type> const& value) noexcept :
-  whole_ {whole_type(trunc(value))},
+  whole_ {is_defined(value) ? whole_type(trunc(value)) : _0<whole_type>},
   fractional_ {fractional_type(value - static_cast<OtherFRep>(whole_))}
 {
 }
@@ -152,7 +152,7 @@ constexpr auto mixed_number<WRep, FRep, Ops>::fractional() const noexcept
 template <typename WRep, typename FRep, typename Ops>
 constexpr void mixed_number<WRep, FRep, Ops>::fix() noexcept
 {
-  if (is_improper(fractional_))
+  if (is_defined(fractional_) && is_improper(fractional_))
   {
     auto const truncated_fractional = trunc(fractional_);
 
-- 
2.43.0


From 404eea0fabcddf45bd75d0fd491aaa4b0af3039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 11/15] fix: convert zero, infinity and large floating point
 values

---
 include/ieme/floating_point.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index ed7a2bd..084fed3 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -185,29 +185,32 @@ fraction<Rep, Ops> floating_point_to_fraction(Float const value) noexcept
       extract_bit_field(offsets.mantissa_bits, num_mantissa_bits));
   }();
 
-  if (auto const is_NaN = exponent_part == make_repeating_1s(NumExponentBits)
-                          && mantissa_part != _0<UintRep>;
-      is_NaN)
+  if (auto const is_NaN_or_infinity
+      = exponent_part == make_repeating_1s(NumExponentBits);
+      is_NaN_or_infinity)
     return limits<fraction<Rep, Ops>>::undefined();
 
+  if (auto const is_zero
+      = exponent_part == _0<UintRep> && mantissa_part == _0<UintRep>;
+      is_zero)
+    return _0<Rep>;
+
   auto const sign = (sign_part == _0<UintRep>) ? _1<Rep> : -_1<Rep>;
 
   static constexpr auto exponent_bias
     = math_utilities::pow2(number<NumExponentBits, int> - 1) - 1;
 
-  auto const exponent = static_cast<int>(exponent_part) - exponent_bias;
-
-  static constexpr auto mantissa_fraction_denominator
-    = math_utilities::pow2(number<NumMantissaBits, Rep>);
-
-  auto const mantissa_fraction_numerator = static_cast<Rep>(mantissa_part);
-
-  auto const mantissa_fraction = fraction<Rep, Ops>(
-    mantissa_fraction_numerator, mantissa_fraction_denominator);
+  // The mantissa is scaled to an odd integer so that no intermediate result is
+  // less representable than the value itself
+  auto mantissa = mantissa_part | (_1<UintRep> << NumMantissaBits);
+  auto exponent
+    = static_cast<int>(exponent_part) - exponent_bias - NumMantissaBits;
 
-  auto const mantissa = _1<Rep> + mantissa_fraction;
+  for (; mantissa % _2<UintRep> == _0<UintRep>; mantissa /= _2<UintRep>)
+    ++exponent;
 
-  return sign * mantissa * pow2<Rep, Ops>(exponent);
+  return sign * fraction<Rep, Ops>(static_cast<Rep>(mantissa))
+         * pow2<Rep, Ops>(exponent);
 }
 
 template <typename Float, typename Rep, typename Ops>
-- 
2.43.0


From 9e4c4c687c4a9840ee63146181603f317783ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 12/15] fix: make the limits of mixed numbers instantiable

---
 include/ieme/limits.hpp | 71 +++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index 4e0389a..d421fb5 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -30,13 +30,13 @@ public:
 };
 
 template <typename Rep, typename Ops>
-class limits<mixed_number<Rep, Ops>> {
+class limits<mixed_number<Rep, Rep, Ops>> {
 
 public:
   using rep_type = Rep;
   using ops_type = Ops;
-  using mixed_number_type = mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = mixed_number<Rep, Rep, Ops>;
+  using fraction_type = typename mixed_number_type::fractional_type;
 
   static constexpr mixed_number_type min() noexcept;
   static constexpr mixed_number_type max() noexcept;
@@ -94,11 +94,11 @@ public:
 };
 
 template <typename Rep, typename Ops>
-class numeric_limits<ieme::mixed_number<Rep, Ops>> {
+class numeric_limits<ieme::mixed_number<Rep, Rep, Ops>> {
 
 public:
-  using mixed_number_type = ieme::mixed_number<Rep, Ops>;
-  using fraction_type = typename mixed_number_type::fraction_type;
+  using mixed_number_type = ieme::mixed_number<Rep, Rep, Ops>;
+  using fraction_type = typename mixed_number_type::fractional_type;
   using fraction_limits_type = numeric_limits<fraction_type>;
 
   static constexpr bool is_specialized = fraction_limits_type::is_specialized;
@@ -106,8 +106,9 @@ public:
   static constexpr bool is_integer = fraction_limits_type::is_integer;
   static constexpr bool is_exact = fraction_limits_type::is_exact;
   static constexpr bool has_infinity = fraction_limits_type::has_infinity;
-  static constexpr bool has_quiet_ = fraction_limits_type::has_quiet_;
-  static constexpr bool has_signaling_ = fraction_limits_type::has_signaling_;
+  static constexpr bool has_quiet_NaN = fraction_limits_type::has_quiet_NaN;
+  static constexpr bool has_signaling_NaN
+    = fraction_limits_type::has_signaling_NaN;
   static constexpr float_denorm_style has_denorm
     = fraction_limits_type::has_denorm;
   static constexpr bool has_denorm_loss = fraction_limits_type::has_denorm_loss;
@@ -173,28 +174,28 @@ constexpr auto limits<fraction<Rep, Ops>>::undefined() noexcept -> fraction_type
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::max() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::max() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::max();
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::min() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::min() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::min();
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::smallest() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::smallest() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::smallest();
 }
 
 template <typename Rep, typename Ops>
-constexpr auto limits<mixed_number<Rep, Ops>>::undefined() noexcept
+constexpr auto limits<mixed_number<Rep, Rep, Ops>>::undefined() noexcept
   -> mixed_number_type
 {
   return limits<fraction_type>::undefined();
@@ -271,64 +272,64 @@ numeric_limits<ieme::fraction<Rep, Ops>>::denorm_min() noexcept
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::min() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::min() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::min();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::lowest() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::lowest() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::min();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::min();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::max() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::max() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::max();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::max();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::epsilon() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::epsilon() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::smallest();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::smallest();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::round_error() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::round_error() noexcept
 {
   return fraction_limits_type::round_error();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::infinity() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::infinity() noexcept
 {
   return fraction_limits_type::infinity();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::quiet_NaN() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::quiet_NaN() noexcept
 {
-  return ieme::limits<ieme::mixed_number<Rep, Ops>>::undefined();
+  return ieme::limits<ieme::mixed_number<Rep, Rep, Ops>>::undefined();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::signaling_NaN() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::signaling_NaN() noexcept
 {
   return fraction_limits_type::signaling_NaN();
 }
 
 template <typename Rep, typename Ops>
-constexpr ieme::mixed_number<Rep, Ops>
-numeric_limits<ieme::mixed_number<Rep, Ops>>::denorm_min() noexcept
+constexpr ieme::mixed_number<Rep, Rep, Ops>
+numeric_limits<ieme::mixed_number<Rep, Rep, Ops>>::denorm_min() noexcept
 {
   return fraction_limits_type::denorm_min();
 }
-- 
2.43.0


From eacd7fadb99a74a750a444ab0aa821678f7961dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:19 +0000
Subject: [PATCH 13/15] fix: redenominate undefined fractions without trapping

---
 include/ieme/fraction_math.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ieme/fraction_math.hpp b/include/ieme/fraction_math.hpp
index 320257d..2924f44 100644
--- a/include/ieme/fraction_math.hpp
+++ b/include/ieme/fraction_math.hpp
@@ -218,6 +218,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> trunc_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {trunc(value * denominator), denominator};
 }
 
@@ -225,6 +228,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> ceil_redenominate(fraction<Rep, Ops> const& value,
                                                Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {(denominator >= _0<Rep>) ? ceil(value * denominator)
                                    : -ceil(value * -denominator),
           denominator};
@@ -234,6 +240,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> floor_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {(denominator >= _0<Rep>) ? floor(value * denominator)
                                    : -floor(value * -denominator),
           denominator};
@@ -243,6 +252,9 @@ template <typename Rep, typename Ops>
 constexpr fraction<Rep, Ops> round_redenominate(fraction<Rep, Ops> const& value,
                                                 Rep const& denominator) noexcept
 {
+  if (is_undefined(value))
+    return {_0<Rep>, _0<Rep>};
+
   return {round(value * denominator), denominator};
 }
 
-- 
2.43.0


From 43a6835039d0180c203b01d689d2ea1d656bfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 14/15] fix: do not reduce the least integer in the limits of
 mixed numbers

---
 include/ieme/limits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieme/limits.hpp b/include/ieme/limits.hpp
index d421fb5..b7d7766 100644
--- a/include/ieme/limits.hpp
+++ b/include/ieme/limits.hpp
@@ -184,7 +184,7 @@ template <typename Rep, typename Ops>
 constexpr auto limits<mixed_number<Rep, Rep, Ops>>::min() noexcept
   -> mixed_number_type
 {
-  return limits<fraction_type>::min();
+  return std::numeric_limits<Rep>::min();
 }
 
 template <typename Rep, typename Ops>
-- 
2.43.0


From 4660708bb2522707816f8ef2e90e73125e511d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 15/15] fix: converting an undefined fraction to floating point
 in a constant expression

---
 include/ieme/floating_point.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ieme/floating_point.hpp b/include/ieme/floating_point.hpp
index 084fed3..4b0236d 100644
--- a/include/ieme/floating_point.hpp
+++ b/include/ieme/floating_point.hpp
@@ -217,6 +217,10 @@ template <typename Float, typename Rep, typename Ops>
 constexpr Float
 fraction_to_floating_point(fraction<Rep, Ops> const& value) noexcept
 {
+  // Dividing by zero is not a constant expression
+  if (is_undefined(value))
+    return std::numeric_limits<Float>::quiet_NaN();
+
   auto const reduced = reduce(value);
 
   return static_cast<Float>(reduced.num()) / static_cast<Float>(reduced.den());
-- 
2.43.0

