From f6b8020f1c4a57adf8423d788838a9f123221a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 01/34] fix: give the decimal size table an entry for 128-bit
 values

str("d") of a 128-bit value read decimal_size_table[128], one past the
end of the table, and padded the text to whatever length it found there.
---
 src/util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..9c81e9f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -245,15 +245,15 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     }
 }
 
-constexpr std::array<uint64_t, 128> compute_decimal_size() {
+constexpr std::array<uint64_t, 129> compute_decimal_size() {
     // we precompute 128 entries of decimal sizes. if larger than that we need to
     // recompute each time. no caching allowed for the sakes of concurrency since
     // we need to protect the cache with a mutex if that is the case
-    std::array<uint64_t, 128> result{};
+    std::array<uint64_t, 129> result{};
     // zero is ill-defined
     result[0] = 1;
 
-    for (auto i = 1u; i < 128; i++) {
+    for (auto i = 1u; i < result.size(); i++) {
         __uint128_t value = 0;
         value = ~value;
         // shift based on the size
-- 
2.43.0


From 706bbada30b4cb6ef7f66bb3d7e79acb21a1a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 02/34] fix: do not read past a wide value when formatting it
 as octal

An octal digit that crosses a 64-bit boundary read value[value_idx + 1]
even when the value ends there, and masked the next word instead of
shifting it into place.
---
 src/util.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 9c81e9f..f0324e6 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -608,7 +608,9 @@ std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* valu
                 uint64_t v;
                 if ((64 - start_idx) < 3) {
                     v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    if (value_idx + 1 < num_array) {
+                        v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
+                    }
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                 }
@@ -675,9 +677,11 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 uint64_t xz;
                 if ((64 - start_idx) < 3) {
                     v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    if (value_idx + 1 < num_array) {
+                        v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
+                        xz |= (xz_mask[value_idx + 1] << (64 - start_idx)) & 0x7;
+                    }
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-- 
2.43.0


From d1ca77ace7ae4256b08796f698bbf9c565c4f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 03/34] fix: formatting must not lose text on allocation
 failure or follow the global locale

std::stringstream turns a bad_alloc into badbit, so str() returned
truncated text without an error; and digits inserted into it are grouped
by whatever global locale the host program installed.
---
 src/util.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index f0324e6..b404119 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -2,10 +2,20 @@
 
 #include <bitset>
 #include <cmath>
+#include <locale>
 #include <optional>
 
 namespace logic::util {
 
+// stream that only produces text: it reports allocation failures instead of silently dropping
+// characters, and does not depend on the global locale
+struct text_stream : public std::stringstream {
+    text_stream() {
+        imbue(std::locale::classic());
+        exceptions(std::ios::badbit);
+    }
+};
+
 constexpr std::pair<char, uint64_t> get_input_base(std::string_view value) {
     char base = 'b';
     uint64_t pos = 0;
@@ -361,7 +371,7 @@ std::string pad_result(bool is_negative, char base, uint64_t actual_size, bool p
 }
 
 std::string format_value_2power(char base, uint64_t value) {
-    std::ostringstream ss;
+    text_stream ss;
     switch (base) {
         case 'o':
         case 'O': {
@@ -387,7 +397,7 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool
     parse_fmt(fmt, size, base, actual_size, padding);
 
     // now print out the format
-    std::stringstream ss;
+    text_stream ss;
     switch (base) {
         case 'b':
         case 'B': {
@@ -437,7 +447,7 @@ uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max()
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
     const auto mask = get_mask(stride);
-    std::stringstream ss;
+    text_stream ss;
     for (auto i = 0u; i < size; i += stride) {
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
@@ -502,7 +512,7 @@ std::string fmt_decimal(uint64_t size, uint64_t value, uint64_t xz_mask) {
             return "Z";
         }
     } else {
-        std::stringstream ss;
+        text_stream ss;
         if (value == 0) {
             ss << 0;
         } else {
@@ -517,7 +527,7 @@ std::string fmt_decimal(uint64_t size, uint64_t value, uint64_t xz_mask) {
 }
 
 std::string fmt_char(uint64_t size, uint64_t value) {
-    std::stringstream ss;
+    text_stream ss;
     auto num_chunk = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 8));
     for (auto i = 0u; i < num_chunk; i++) {
         auto c = static_cast<char>(static_cast<uint8_t>(value >> (8 * i) & 0xFF));
@@ -533,7 +543,7 @@ std::string to_string_(std::string_view fmt, uint64_t size, uint64_t value, uint
     bool padding;
     parse_fmt(fmt, size, base, actual_size, padding);
 
-    std::stringstream ss;
+    text_stream ss;
 
     // need to obey the rule of LRM 21.2.1.4
     switch (base) {
@@ -595,7 +605,7 @@ std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* valu
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
 
-    std::stringstream ss;
+    text_stream ss;
     if (base != 'd' && base != 'D') {
         // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
         if (base == 'o' || base == 'O') {
@@ -663,7 +673,7 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
 
-    std::stringstream ss;
+    text_stream ss;
     if (base != 'd' && base != 'D') {
         // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
         if (base == 'o' || base == 'O') {
-- 
2.43.0


From eca58badfef3986e22af08793b7d0c6b7d542409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 04/34] fix: native 2-state division by zero and min / -1 must
 not kill the process

The native path used the hardware division directly (SIGFPE); big_num
already defines x / 0 as 0 because a simulation must not throw.
---
 include/logic/bit.hh | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..dfa7b0c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -795,6 +795,14 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
+        if constexpr (native_num) {
+            // same convention as big_num: dividing by zero gives 0
+            if (!op.any_set()) [[unlikely]] return result;
+            if constexpr (util::signed_result(signed_, op_signed) && size > 1) {
+                // min % -1 overflows
+                if (op.value == -1) [[unlikely]] return result;
+            }
+        }
         result.value = value % op.value;
         return result;
     }
@@ -819,6 +827,17 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
+        if constexpr (native_num) {
+            // same convention as big_num: dividing by zero gives 0
+            if (!op.any_set()) [[unlikely]] return result;
+            if constexpr (util::signed_result(signed_, op_signed) && size > 1) {
+                // min / -1 overflows
+                if (op.value == -1) [[unlikely]] {
+                    result.value = 0 - static_cast<uint64_t>(value);
+                    return result;
+                }
+            }
+        }
         result.value = value / op.value;
         return result;
     }
-- 
2.43.0


From e7b1cd9c9dfcebfcc0d1fa4898701fdd4e779443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 05/34] fix: wide multiplication wrote past its temporary

The word index was compared with the size in bits.
---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..1779af3 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -650,12 +650,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From 1e2e3f0386ecbb9f2f203ee10a2c100e4cd77b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:20 +0000
Subject: [PATCH 06/34] fix: reduce the words of a wide value in 64 bits

std::reduce with an int initial value drops the upper half of every
word: a divisor such as 2^100 looked as if it fitted in one (zero) word
and the division raised SIGFPE, and any_set()/all_set() were wrong.
---
 include/logic/big_num.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 1779af3..1a94c1d 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -466,7 +466,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -474,7 +474,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -771,7 +771,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -787,7 +788,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -806,13 +808,13 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
+            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                                                    [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From 52f6dd57510b7ff1d8ce767081cc77cf0aa54e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 07/34] fix: parse x and z digits above bit 31 of binary
 literals

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index b404119..e9ce053 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -143,7 +143,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
                 if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                    result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
             }
-- 
2.43.0


From 12f35f7f7f172946207754296c33e573ed0afcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 08/34] fix: parse lower case hexadecimal digits

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index e9ce053..b3698b3 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -107,7 +107,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
-- 
2.43.0


From fef233e510035e9984161222d64618bb774d5446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 09/34] fix: format wide two-state values in digit order and
 completely

---
 src/util.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index b3698b3..bba3e03 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -628,11 +628,10 @@ std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* valu
                 ss << s;
             }
         } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
+            // chunks are written least significant digit first, pad_result reverses everything
+            for (auto i = 0u; i < num_array; i++) {
+                auto const chunk_size = std::min<uint64_t>(64, size - i * 64ull);
+                ss << to_string_(fmt, chunk_size, value[i], 0, false, false);
             }
         }
     } else {
-- 
2.43.0


From 1927e7cba7bfa31638bfdba4b7373139f1a9ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 10/34] fix: format the top word of wide values whose size is a
 multiple of 64

---
 src/util.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index bba3e03..3d03bb8 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -699,12 +699,9 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 ss << s;
             }
         } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
-            }
-            if (size % 64) {
-                ss << to_string_(fmt, size % 64, value[num_array - 1], xz_mask[num_array - 1],
-                                 false, false);
+            for (auto i = 0u; i < num_array; i++) {
+                auto const chunk_size = std::min<uint64_t>(64, size - i * 64ull);
+                ss << to_string_(fmt, chunk_size, value[i], xz_mask[i], false, false);
             }
         }
 
-- 
2.43.0


From 208cb6fb91ea8c2a28b0aa2fa9ebeb3b6c3a5021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 11/34] fix: hexadecimal and octal digits of native two-state
 values were reversed

---
 src/util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 3d03bb8..1a5b868 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -414,7 +414,10 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool
         case 'h':
         case 'X':
         case 'H': {
-            ss << format_value_2power(base, value);
+            auto s = format_value_2power(base, value);
+            // need to reverse it
+            std::reverse(s.begin(), s.end());
+            ss << s;
             break;
         }
         case 's':
-- 
2.43.0


From 9cd83d3334b03f5a162a381bc6620c1dea39093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 12/34] fix: pad wide octal text once, print native two-state
 strings as characters

---
 src/util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 1a5b868..4376a5d 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -423,7 +423,7 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool
         case 's':
         case 'S':
             for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
+                auto c = static_cast<char>(static_cast<uint8_t>(value >> (i * 8) & 0xFF));
                 ss << c;
             }
             break;
@@ -627,7 +627,7 @@ std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* valu
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                 }
-                auto s = to_string(fmt, 3, v, false);
+                auto s = to_string_(fmt, 3, v, 0, false, false);
                 ss << s;
             }
         } else {
-- 
2.43.0


From a685d3b68c96a668ede7d82773113b3740595cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 13/34] fix: single bit access honours the declared range and
 ignores out of range indices

---
 include/logic/bit.hh | 58 +++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index dfa7b0c..9e0d6f4 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -67,11 +67,11 @@ public:
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        auto i = bit_pos(idx);
         if constexpr (native_num) {
+            // out of range index has no effect
+            if (i >= size) [[unlikely]]
+                return;
             if (v) {
                 value |= 1ull << i;
             } else {
@@ -84,8 +84,7 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
+        constexpr auto i = bit_pos(idx);
         if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
@@ -98,19 +97,7 @@ public:
     }
 
     void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
+        set(idx, static_cast<bool>(v.value));
     }
 
     template <int idx>
@@ -120,8 +107,7 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
+        constexpr auto i = bit_pos(idx);
         if constexpr (native_num) {
             if constexpr (v) {
                 value |= 1ull << i;
@@ -1071,6 +1057,11 @@ public:
     }
 
 private:
+    // position of a declared index, counted from the least significant bit
+    static constexpr uint64_t bit_pos(int idx) {
+        return static_cast<uint64_t>(static_cast<int64_t>(big_endian ? idx - lsb : lsb - idx));
+    }
+
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
@@ -1110,31 +1101,22 @@ private:
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        auto const i = bit_pos(idx);
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
+            // out of range index reads 0
+            return bit<0>(i < size && ((value >> i) & 1));
         } else {
-            return bit<0>(value[idx]);
+            return bit<0>(value[i]);
         }
     }
 
     template <int idx>
     [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
+        constexpr auto i = bit_pos(idx);
+        if constexpr (native_num) {
+            return bit<0>((value >> i) & 1);
         } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
+            return bit<0>(value.template get<i>());
         }
     }
 
-- 
2.43.0


From f1d262ad9eff4cd75a9e32dc7dded0ccfe9b13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:19 +0000
Subject: [PATCH 14/34] fix: part select updates take the bits of their source
 in order

---
 include/logic/bit.hh   | 12 ++++++------
 include/logic/logic.hh | 16 +++++++---------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 9e0d6f4..acb438e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -944,9 +944,9 @@ public:
             // we need to revert the index accessing scheme here, if the endian doesn't match
             int idx;
             if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lo, op_hi) + (i - start);
             }
             auto b = op.operator[](idx);
             set(i, b);
@@ -1182,13 +1182,13 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
+            int idx;
             if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
+                idx = util::max(op_lsb, op_msb) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lsb, op_msb) + (i - start);
             }
-            auto b = op.operator[](idx - start);
+            auto b = op.operator[](idx);
             set(i, b);
         }
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..7c8a5f3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1109,7 +1109,7 @@ private:
     }
 
     template <bool l_signed>
-    void set_(uint64_t idx, const logic<0, 0, l_signed> &l) {
+    void set_(int idx, const logic<0, 0, l_signed> &l) {
         value.set(idx, l.value.value);
         xz_mask.set(idx, l.xz_mask.value);
     }
@@ -1139,13 +1139,12 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
+            int idx;
             if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lo, op_hi) + (i - start);
             }
-            idx = idx - start;
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
@@ -1164,13 +1163,12 @@ protected:
         for (auto i = start; i < end; i++) {
             // notice that if it is out of range, 0 will be returned
             // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
+            int idx;
             if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
+                idx = util::max(op_lo, op_hi) - (i - start);
             } else {
-                idx = i;
+                idx = util::min(op_lo, op_hi) + (i - start);
             }
-            idx = idx - start;
             logic<0, 0> b;
             if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
                 // out of bound access, set to 0
-- 
2.43.0


From b1d3a8bb4c1dc4bed28195e9db1ebd27a7d7cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 15/34] fix: slices of signed, narrow and offset ranges read
 exactly the selected bits

---
 include/logic/bit.hh | 53 ++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index acb438e..521b4ed 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -147,7 +147,7 @@ public:
     requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
+        auto res = value.template slice<bit_pos(a), bit_pos(b)>();
         // need to shrink it down
         result.value = res.values[0];
         return result;
@@ -160,7 +160,7 @@ public:
     requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        result.value = value.template slice<a, b>();
+        result.value = value.template slice<bit_pos(a), bit_pos(b)>();
         return result;
     }
 
@@ -1125,47 +1125,26 @@ protected:
     requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
-        constexpr auto base = util::min(msb, lsb);
-        constexpr auto max = util::max(a, b) - base;
-        constexpr auto min = util::min(a, b) - base;
-        constexpr auto t_size = sizeof(T) * 8;
+        constexpr auto min = static_cast<int64_t>(util::min(bit_pos(a), bit_pos(b)));
         constexpr auto target_size = util::abs_diff(a, b) + 1;
         bit<target_size - 1, false> result;
-        if constexpr (target_size == 1 && size == 1) {
-            result.value = value != 0;
-        } else {
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
-            } else {
-                shmnt = 1;
-            }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
-        }
+        result.value = extract<target_size>(min);
         return result;
     }
 
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
+        // part of the slice may be out of range, which reads 0
+        auto const min = util::min(static_cast<int64_t>(bit_pos(a)), static_cast<int64_t>(bit_pos(b)));
         if constexpr (native_num) {
-            // assume the import has type-checked properly, e.g. by a compiler
-            auto base = util::min(msb, lsb);
-            auto max = util::max(a, b) - base;
-            auto min = util::min(a, b) - base;
-            auto t_size = sizeof(T) * 8;
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
-
-            return result;
+            result.value = extract<target_size>(min);
         } else {
+            big_num<target_size, false> v;
+            for (auto i = 0; i < static_cast<int64_t>(target_size); i++) {
+                if (min + i >= 0) v.set(i, value[static_cast<uint64_t>(min + i)]);
+            }
             // may need to shrink
-            auto v = value.template slice<target_size>(a, b);
             if constexpr (util::native_num(target_size)) {
                 result.value = static_cast<decltype(result.value)>(v.values[0]);
             } else {
@@ -1193,6 +1172,16 @@ protected:
         }
     }
 
+    // bits [min, min + target_size), positions that do not exist are 0
+    template <uint64_t target_size>
+    [[nodiscard]] constexpr uint64_t extract(int64_t min) const
+        requires(native_num &&util::native_num(target_size)) {
+        auto constexpr max = std::numeric_limits<uint64_t>::max();
+        auto const v = static_cast<uint64_t>(value) & (max >> (64 - size));
+        if (min >= 64 || min <= -64) return 0;
+        return (min >= 0 ? v >> min : v << -min) & (max >> (64 - target_size));
+    }
+
     // compute the mask in unsigned fashion
     static constexpr auto bit_mask() requires(native_num) {
         using TU = typename util::get_holder_type<size, false>::type;
-- 
2.43.0


From 1eb436b07dc84fd451ffe73e3aa0c0117e25b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 16/34] fix: assignment to a narrower value drops the excess
 bits

---
 include/logic/bit.hh | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 521b4ed..a674471 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1035,7 +1035,14 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        using op_type = bit<new_msb, new_lsb, new_signed>;
+        if constexpr (size == 1 && op_type::size > 1 && op_type::native_num) {
+            // conversion to bool is not a truncation
+            value = b.value & 1;
+        } else {
+            value = b.value;
+            if constexpr (size < op_type::size) truncate();
+        }
         return *this;
     }
 
@@ -1047,7 +1054,7 @@ public:
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        *this = b;
     }
 
     static constexpr bit<0> one_() {
@@ -1057,6 +1064,16 @@ public:
     }
 
 private:
+    // drop the bits of the holder that are not part of the value
+    void truncate() {
+        if constexpr (native_num && size > 1 && size < sizeof(T) * 8) {
+            auto constexpr amount = sizeof(T) * 8 - size;
+            using TU = typename util::get_holder_type<size, false>::type;
+            // keep the sign if it is signed
+            value = static_cast<T>(static_cast<T>(static_cast<TU>(value) << amount) >> amount);
+        }
+    }
+
     // position of a declared index, counted from the least significant bit
     static constexpr uint64_t bit_pos(int idx) {
         return static_cast<uint64_t>(static_cast<int64_t>(big_endian ? idx - lsb : lsb - idx));
-- 
2.43.0


From 87d4a6c1ea8901c80c0f3feeae9356940f9096b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 17/34] fix: array elements are addressed by their declared
 index and stay within their own bits

---
 include/logic/array.hh | 56 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..210cf43 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,19 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    // position of the indexed element in the array, -1 if the index is unknown or out of range
+    template <int op_msb, int op_lsb, bool op_signed>
+    static int64_t element_index(const logic<op_msb, op_lsb, op_signed> &op) {
+        if (op.xz_mask.any_set()) return -1;
+        // out of range unless it is a number between the two bounds
+        if constexpr (!util::native_num(logic<op_msb, op_lsb>::size)) {
+            if (!op.value.value.fit_in_64()) return -1;
+        }
+        auto const raw = op.value.to_uint64();
+        auto const idx = raw - static_cast<uint64_t>(static_cast<int64_t>(util::min(msb, lsb)));
+        return idx < util::total_size(msb, lsb) ? static_cast<int64_t>(idx) : -1;
+    }
+
 public:
     // compute the base size
     static constexpr auto base_size = T::size;
@@ -78,41 +91,27 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
-        // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const idx = element_index(op);
+        // if the index is unknown or out of range, we return X
+        if (idx < 0) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
-            return VT::template slice<base_size>(start_addr, end_addr);
+            int start_addr = static_cast<int>(idx * base_size);
+            int end_addr = static_cast<int>((idx + 1) * base_size);
+            return VT::template slice<base_size>(start_addr, end_addr - 1);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const idx = element_index(op);
+        if (idx < 0) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
-            VT::template update_(start_addr, end_addr, value);
+            int start_addr = static_cast<int>(idx * base_size);
+            int end_addr = static_cast<int>((idx + 1) * base_size);
+            VT::template update_(start_addr, end_addr - 1, value);
         }
     }
 
@@ -141,11 +140,12 @@ public:
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
         // need to compute the base
         auto constexpr i = idx - util::min(msb, lsb);
-        // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (i >= 0 && i < static_cast<int64_t>(size)) {
+            // use the underlying logic implementation
+            value[i] = v;
+        }
     }
 
 private:
-- 
2.43.0


From 8df93d4a87af7c29758e2a9099d6a38ff99ca359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 18/34] fix: extend wide signed values by their sign

---
 include/logic/big_num.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 1a94c1d..0a85f81 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -114,8 +114,10 @@ public:
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
-                for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                if (negative()) {
+                    for (uint64_t i = size; i < op_size; i++) {
+                        result.set(i, true);
+                    }
                 }
             }
             return result;
-- 
2.43.0


From 281c959b0b23ca85159c47f6ba96ffbed2674dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:55 +0000
Subject: [PATCH 19/34] fix: reading one bit returns x and z of any index

---
 include/logic/logic.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 7c8a5f3..773df96 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -73,9 +73,9 @@ public:
     requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.set_x<0>();
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.set_z<0>();
         } else {
             r.value = value.template get<idx>();
         }
-- 
2.43.0


From 41b4d25bffa3832fee2f6ad44394eaf992c4a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 20/34] fix: unsigned wide two-state values can be formatted

---
 include/logic/bit.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index a674471..318a5db 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -125,8 +125,10 @@ public:
     [[nodiscard]] bool negative() const {
         if constexpr (native_num) {
             return value < 0;
-        } else {
+        } else if constexpr (signed_) {
             return value.negative();
+        } else {
+            return false;
         }
     }
 
-- 
2.43.0


From bed3cdcf2b390922b00193ee1314ba04c46f7a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 21/34] fix: constant slices of 65 bits of a wide two-state
 value

---
 include/logic/bit.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 318a5db..fda788c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -146,7 +146,7 @@ public:
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && util::native_num(util::total_size(a, b)) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         auto res = value.template slice<bit_pos(a), bit_pos(b)>();
@@ -159,7 +159,7 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && !util::native_num(util::total_size(a, b)) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         result.value = value.template slice<bit_pos(a), bit_pos(b)>();
-- 
2.43.0


From c10d6f5e3e14a52042fdf0015d455242e4b1c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:37 +0000
Subject: [PATCH 22/34] fix: unsigned array indices do not address elements
 below zero

---
 include/logic/array.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 210cf43..4cf5b8b 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -51,6 +51,10 @@ private:
             if (!op.value.value.fit_in_64()) return -1;
         }
         auto const raw = op.value.to_uint64();
+        if constexpr (!op_signed) {
+            // too large to be any index, not a negative one
+            if (raw >> 63) return -1;
+        }
         auto const idx = raw - static_cast<uint64_t>(static_cast<int64_t>(util::min(msb, lsb)));
         return idx < util::total_size(msb, lsb) ? static_cast<int64_t>(idx) : -1;
     }
-- 
2.43.0


From f9107eedd019202f392c48af6b2d7c35a7768d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 23/34] fix: part select updates of a value from itself read
 every bit first

---
 include/logic/bit.hh   | 10 ++++++++++
 include/logic/logic.hh | 10 ++++++++++
 include/logic/util.hh  |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index fda788c..bb5b133 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -939,6 +939,11 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
+        if (util::same_object(this, &op)) {
+            // every bit is read before any bit changes
+            auto const copy = op;
+            return this->template update<hi, lo>(copy);
+        }
         auto constexpr start = util::min(hi, lo);
         auto constexpr end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
@@ -1175,6 +1180,11 @@ protected:
 
     template <int op_msb, int op_lsb, bool op_signed>
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
+        if (util::same_object(this, &op)) {
+            // every bit is read before any bit changes
+            auto const copy = op;
+            return this->template update_(hi, lo, copy);
+        }
         auto start = util::min(hi, lo);
         auto end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 773df96..60b5778 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1134,6 +1134,11 @@ protected:
     void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
                                                                     util::match_endian(hi, lo, msb,
                                                                                        lsb)) {
+        if (util::same_object(this, &op)) {
+            // every bit is read before any bit changes
+            auto const copy = op;
+            return this->template update_<hi, lo>(copy);
+        }
         auto constexpr start = util::min(hi, lo);
         auto constexpr end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
@@ -1158,6 +1163,11 @@ protected:
 
     template <int op_hi, int op_lo, bool op_signed>
     void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
+        if (util::same_object(this, &op)) {
+            // every bit is read before any bit changes
+            auto const copy = op;
+            return this->template update_(hi, lo, copy);
+        }
         auto start = util::min(hi, lo);
         auto end = util::max(hi, lo) + 1;
         for (auto i = start; i < end; i++) {
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..efd9987 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -39,6 +39,8 @@ void copy(T &dst, const K &src, uint64_t start, uint64_t end) {
     }
 }
 
+inline bool same_object(const void *a, const void *b) { return a == b; }
+
 static constexpr bool gte(uint64_t a, uint64_t min) { return a >= min; }
 
 template <typename T>
-- 
2.43.0


From 719af4789b49244efaaefd8550c806fee9f850f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 24/34] fix: print every character of native two-state values

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 4376a5d..1db85d9 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -423,7 +423,7 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool
         case 's':
         case 'S':
             for (auto i = 0u; i < size; i += 8) {
-                auto c = static_cast<char>(static_cast<uint8_t>(value >> (i * 8) & 0xFF));
+                auto c = static_cast<char>(static_cast<uint8_t>(value >> i));
                 ss << c;
             }
             break;
-- 
2.43.0


From 37ea4a2e35b4e049778c0b96fde30bbbe19ccd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:25 +0000
Subject: [PATCH 25/34] fix: comparing a value of up to 64 bits with a wider
 one fell off the end of the operator

---
 include/logic/bit.hh | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index bb5b133..2decf61 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -622,6 +622,8 @@ public:
             }
         } else if constexpr (!native_num) {
             return value > v.value;
+        } else {
+            return as_big_num() > v.value;
         }
     }
 
@@ -641,6 +643,8 @@ public:
             }
         } else if constexpr (!native_num) {
             return value < v.value;
+        } else {
+            return as_big_num() < v.value;
         }
     }
 
@@ -660,6 +664,8 @@ public:
             }
         } else if constexpr (!native_num) {
             return value >= v.value;
+        } else {
+            return as_big_num() >= v.value;
         }
     }
 
@@ -679,6 +685,8 @@ public:
             }
         } else if constexpr (!native_num) {
             return value <= v.value;
+        } else {
+            return as_big_num() <= v.value;
         }
     }
 
@@ -1178,6 +1186,14 @@ protected:
         return result;
     }
 
+    // the same bits held by a big number
+    [[nodiscard]] big_num<size, signed_> as_big_num() const requires(native_num) {
+        big_num<size, signed_> result;
+        result.values[0] =
+            static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
+        return result;
+    }
+
     template <int op_msb, int op_lsb, bool op_signed>
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
         if (util::same_object(this, &op)) {
-- 
2.43.0


From 2085d1f6e129cf8c1e545c0facb8a266eec25df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:39 +0000
Subject: [PATCH 26/34] fix: comparing the most negative wide signed value with
 itself recursed forever

---
 include/logic/big_num.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 0a85f81..6bca304 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -499,10 +499,10 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
+            // numbers of the same sign and size are ordered like their bits
+            else if constexpr (size != op_size) {
+                auto constexpr target_size = util::max(size, op_size);
+                return this->template extend<target_size>() > op.template extend<target_size>();
             }
         }
         // from top to bottom comparison
-- 
2.43.0


From 40bf7ca4935daf93c9d6189def67e72697e4c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:54 +0000
Subject: [PATCH 27/34] fix: comparing wide signed values for equality did not
 compile

---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 6bca304..0641607 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -452,8 +452,8 @@ public:
                 }
                 return true;
             } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
+                auto op_t = op.template extend<size>();
+                for (auto i = 0u; i < s; i++) {
                     if (values[i] != op_t.values[i]) return false;
                 }
                 return true;
-- 
2.43.0


From da55cfa6483fb32bad275ddfe00131d0ba49ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:53 +0000
Subject: [PATCH 28/34] fix: words of a big number not reached by its text were
 left uninitialised

---
 include/logic/big_num.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 0641607..596f95b 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -901,7 +901,10 @@ public:
     [[nodiscard]] uint64_t to_uint64() const { return values[0]; }
 
     // constructors
-    constexpr explicit big_num(std::string_view v) { util::parse_raw_str(v, size, values.data()); }
+    constexpr explicit big_num(std::string_view v) : values{} {
+        // words the text does not reach are 0
+        util::parse_raw_str(v, size, values.data());
+    }
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-- 
2.43.0


From ee6f290575663c31a0738d9f426310e2f700aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:19 +0000
Subject: [PATCH 29/34] fix: the default element of an unpacked array was
 constructed on first use

A process forked while another thread constructed it waited forever, as did a
handler that interrupted its construction. All default values are compile-time
constants now.
---
 include/logic/big_num.hh | 2 +-
 include/logic/bit.hh     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 596f95b..cccafd3 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -778,7 +778,7 @@ public:
         return r != 0;
     }
 
-    [[maybe_unused]] void mask() {
+    [[maybe_unused]] constexpr void mask() {
         for (auto i = 0u; i < (s - 1); i++) {
             values[i] = std::numeric_limits<big_num_holder_type>::max();
         }
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 2decf61..bd1426d 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -887,7 +887,7 @@ public:
 
     [[nodiscard]] bool any_set() const requires(!native_num) { return value.any_set(); }
 
-    void mask() {
+    constexpr void mask() {
         if constexpr (native_num) {
             if constexpr (size == 1) {
                 value = true;
@@ -1039,7 +1039,7 @@ public:
         *this = logic.value;
     }
 
-    bit() {
+    constexpr bit() {
         if constexpr (native_num) {
             // init to 0
             value = 0;
-- 
2.43.0


From f0261b8d039c0b5d8efebc262bb6882a32efe607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 30/34] fix: complements, sums and products of wide values kept
 bits beyond their width

---
 include/logic/big_num.hh | 11 +++++++----
 include/logic/bit.hh     |  2 ++
 include/logic/logic.hh   |  3 +++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index cccafd3..4aa7143 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -149,7 +149,7 @@ public:
         return std::accumulate(values.begin(), values.end(), std::popcount);
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         // mask off bit that's excessive bit
         auto constexpr amount = s * 64 - size;
         auto constexpr mask = std::numeric_limits<uint64_t>::max() >> amount;
@@ -172,9 +172,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
@@ -583,6 +581,8 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        // the carry may go past the top bit
+        result.mask_off();
         return result;
     }
 
@@ -634,6 +634,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -904,6 +905,8 @@ public:
     constexpr explicit big_num(std::string_view v) : values{} {
         // words the text does not reach are 0
         util::parse_raw_str(v, size, values.data());
+        // bits of the text that do not fit are dropped
+        mask_off();
     }
 
     template <typename T>
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index bd1426d..d2917d0 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1022,6 +1022,8 @@ public:
             value = static_cast<T>(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
+            // bits of the text that do not fit are dropped
+            value.mask_off();
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 60b5778..bd9d89e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1018,6 +1018,9 @@ public:
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
+            // bits of the text that do not fit are dropped
+            value.mask_off();
+            xz_mask.mask_off();
         }
     }
 
-- 
2.43.0


From 2e1cb99364a6d327b0f2356f9bcea6be4a574a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:24 +0000
Subject: [PATCH 31/34] fix: native values kept bits beyond their width that
 later operations saw

---
 include/logic/bit.hh   | 58 +++++++++++++++++++++++++-----------------
 include/logic/logic.hh |  4 ++-
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index d2917d0..63e1d50 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -77,6 +77,7 @@ public:
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.set(i, v);
         }
@@ -91,6 +92,7 @@ public:
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i>(v);
         }
@@ -114,6 +116,7 @@ public:
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i, v>();
         }
@@ -311,13 +314,14 @@ public:
         }
     }
 
-    void mask_off() {
+    // drop the bits of the holder that are not part of the value. they are 0, or copies of the sign
+    // bit if it is a signed native number
+    constexpr void mask_off() {
         if constexpr (native_num) {
-            if constexpr (size > 1) {
+            if constexpr (size > 1 && size < sizeof(T) * 8) {
                 auto constexpr amount = sizeof(T) * 8 - size;
-                auto constexpr mask_max = bit_mask();
-                auto mask = mask_max >> amount;
-                value &= mask;
+                using TU = typename util::get_holder_type<size, false>::type;
+                value = static_cast<T>(static_cast<T>(static_cast<TU>(value) << amount) >> amount);
             }
         } else {
             value.mask_off();
@@ -341,6 +345,7 @@ public:
             result.value = !value;
         } else {
             result.value = ~value;
+            result.mask_off();
         }
         return result;
     }
@@ -356,6 +361,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -389,6 +395,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -422,6 +429,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -488,6 +496,7 @@ public:
             auto res_num = big_num >> amount;
             res.value = static_cast<T>(res_num.values[0]);
         }
+        res.mask_off();
 
         return res;
     }
@@ -521,6 +530,7 @@ public:
         const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
+        mask_off();
         return *this;
     }
 
@@ -543,6 +553,7 @@ public:
             auto res_num = big_num << amount;
             res.value = static_cast<T>(res_num.values[0]);
         }
+        res.mask_off();
 
         return res;
     }
@@ -552,6 +563,7 @@ public:
         const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
+        mask_off();
         return *this;
     }
 
@@ -573,6 +585,7 @@ public:
             auto res_num = big_num.ashr(amount);
             res.value = static_cast<T>(res_num.values[0]);
         }
+        res.mask_off();
 
         return res;
     }
@@ -720,6 +733,7 @@ public:
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value + op.value;
+        result.mask_off();
         return result;
     }
 
@@ -744,6 +758,7 @@ public:
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value - op.value;
+        result.mask_off();
         return result;
     }
 
@@ -768,6 +783,7 @@ public:
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value * op.value;
+        result.mask_off();
         return result;
     }
 
@@ -800,6 +816,7 @@ public:
             }
         }
         result.value = value % op.value;
+        result.mask_off();
         return result;
     }
 
@@ -830,11 +847,13 @@ public:
                 // min / -1 overflows
                 if (op.value == -1) [[unlikely]] {
                     result.value = 0 - static_cast<uint64_t>(value);
+                    result.mask_off();
                     return result;
                 }
             }
         }
         result.value = value / op.value;
+        result.mask_off();
         return result;
     }
 
@@ -855,6 +874,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
+                res.mask_off();
             }
         } else {
             res.value = value.to_signed();
@@ -869,6 +889,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
+                res.mask_off();
             }
         } else {
             // big number is always unsigned
@@ -1020,6 +1041,8 @@ public:
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
             value = static_cast<T>(util::parse_raw_str(v));
+            // bits of the text that do not fit are dropped
+            mask_off();
         } else {
             util::parse_raw_str(v, size, value.values.data());
             // bits of the text that do not fit are dropped
@@ -1027,14 +1050,16 @@ public:
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) { mask_off(); }
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
     explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+        : value(big_num.values[0]) {
+        mask_off();
+    }
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1058,7 +1083,7 @@ public:
             value = b.value & 1;
         } else {
             value = b.value;
-            if constexpr (size < op_type::size) truncate();
+            mask_off();
         }
         return *this;
     }
@@ -1066,6 +1091,7 @@ public:
     template <typename T>
     bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
         value = v;
+        mask_off();
         return *this;
     }
 
@@ -1081,16 +1107,6 @@ public:
     }
 
 private:
-    // drop the bits of the holder that are not part of the value
-    void truncate() {
-        if constexpr (native_num && size > 1 && size < sizeof(T) * 8) {
-            auto constexpr amount = sizeof(T) * 8 - size;
-            using TU = typename util::get_holder_type<size, false>::type;
-            // keep the sign if it is signed
-            value = static_cast<T>(static_cast<T>(static_cast<TU>(value) << amount) >> amount);
-        }
-    }
-
     // position of a declared index, counted from the least significant bit
     static constexpr uint64_t bit_pos(int idx) {
         return static_cast<uint64_t>(static_cast<int64_t>(big_endian ? idx - lsb : lsb - idx));
@@ -1228,12 +1244,6 @@ protected:
         if (min >= 64 || min <= -64) return 0;
         return (min >= 0 ? v >> min : v << -min) & (max >> (64 - target_size));
     }
-
-    // compute the mask in unsigned fashion
-    static constexpr auto bit_mask() requires(native_num) {
-        using TU = typename util::get_holder_type<size, false>::type;
-        return std::numeric_limits<TU>::max();
-    }
 };
 
 template <int a, int b, typename T>
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index bd9d89e..aed7cba 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1013,8 +1013,10 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
+            value = bit<msb, lsb, signed_>(v);
             xz_mask.value = util::parse_xz_raw_str(v);
+            // bits of the text that do not fit are dropped
+            xz_mask.mask_off();
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
-- 
2.43.0


From 46c7bba6025e0109d158a8ea521f0390272c5853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:34 +0000
Subject: [PATCH 32/34] fix: text, concatenations, comparisons and reductions
 of signed values used their sign extension

---
 include/logic/bit.hh   | 44 +++++++++++++++++++++++++++---------------
 include/logic/logic.hh |  2 +-
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 63e1d50..2205fdb 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -31,7 +31,7 @@ public:
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
                 return util::to_string(fmt, size, negate().value, true);
             } else {
-                return util::to_string(fmt, size, value, false);
+                return util::to_string(fmt, size, bits(), false);
             }
         } else {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
@@ -265,7 +265,7 @@ public:
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
         if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+            return bit<final_size - 1>(bits() << arg0_size | arg0.bits());
         } else {
             auto res = bit<final_size - 1>();
             if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
@@ -454,8 +454,7 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
     [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
@@ -599,7 +598,12 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
+            // only if both operands are signed we do signed comparison
+            if constexpr (signed_ && op_signed) {
+                return value == v.value;
+            } else {
+                return bits() == v.bits();
+            }
         } else {
             return value == v.value;
         }
@@ -608,7 +612,12 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
+            // only if both operands are signed we do signed comparison
+            if constexpr (signed_ && op_signed) {
+                return value != v.value;
+            } else {
+                return bits() != v.bits();
+            }
         } else {
             return value != v.value;
         }
@@ -631,7 +640,7 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value > v.value;
             } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
+                return bits() > v.bits();
             }
         } else if constexpr (!native_num) {
             return value > v.value;
@@ -652,7 +661,7 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value < v.value;
             } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
+                return bits() < v.bits();
             }
         } else if constexpr (!native_num) {
             return value < v.value;
@@ -673,7 +682,7 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value >= v.value;
             } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
+                return bits() >= v.bits();
             }
         } else if constexpr (!native_num) {
             return value >= v.value;
@@ -694,7 +703,7 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value <= v.value;
             } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
+                return bits() <= v.bits();
             }
         } else if constexpr (!native_num) {
             return value <= v.value;
@@ -925,7 +934,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(bits());
                 return 64 - r - 1;
             }
         } else {
@@ -955,8 +964,7 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            return bits() == std::numeric_limits<uint64_t>::max() >> (64 - size);
         } else {
             return value.all_set();
         }
@@ -999,6 +1007,11 @@ public:
     /*
      * value conversions
      */
+    // the bits of the value, regardless of the sign
+    [[nodiscard]] constexpr uint64_t bits() const requires(native_num) {
+        return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
+    }
+
     [[nodiscard]] uint64_t to_uint64() const {
         if constexpr (native_num) {
             return value;
@@ -1207,8 +1220,7 @@ protected:
     // the same bits held by a big number
     [[nodiscard]] big_num<size, signed_> as_big_num() const requires(native_num) {
         big_num<size, signed_> result;
-        result.values[0] =
-            static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
+        result.values[0] = bits();
         return result;
     }
 
@@ -1240,7 +1252,7 @@ protected:
     [[nodiscard]] constexpr uint64_t extract(int64_t min) const
         requires(native_num &&util::native_num(target_size)) {
         auto constexpr max = std::numeric_limits<uint64_t>::max();
-        auto const v = static_cast<uint64_t>(value) & (max >> (64 - size));
+        auto const v = bits();
         if (min >= 64 || min <= -64) return 0;
         return (min >= 0 ? v >> min : v << -min) & (max >> (64 - target_size));
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index aed7cba..3271ab4 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -39,7 +39,7 @@ public:
             }
         }
         if constexpr (util::native_num(size)) {
-            uint64_t v = value.value;
+            uint64_t v = value.bits();
             uint64_t xz = xz_mask.value;
             return util::to_string(fmt, size, v, xz, false);
         } else {
-- 
2.43.0


From 951ddd0bd76cf22098c4ca4a80a73c1f079c8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:42 +0000
Subject: [PATCH 33/34] fix: shifting native values by their width or more was
 undefined

---
 include/logic/bit.hh | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 2205fdb..0fe9b1a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -483,8 +483,9 @@ public:
         // couple cases
         // 1. both of them are native number
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
+            // use the bits to leave out any bit due to signed extension
+            auto const n = amount.bits();
+            if (n < size) [[likely]] res.value = bits() >> n;
         } else if constexpr ((!native_num)) {
             res.value = value >> amount.value;
         } else {
@@ -541,7 +542,8 @@ public:
         // clang doesn't allow accessing native_num as amount.native_num
         // see https://stackoverflow.com/a/44996066
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
+            auto const n = amount.bits();
+            if (n < size) [[likely]] res.value = bits() << n;
         } else if constexpr ((!native_num)) {
             res.value = value << amount.value;
         } else {
@@ -573,7 +575,8 @@ public:
         // 1. both of them are native number
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
             // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
+            auto const n = amount.bits();
+            res.value = n < size ? value >> n : (negative() ? -1 : 0);
         } else if constexpr ((!native_num)) {
             res.value = value.ashr(amount.value);
         } else {
@@ -1157,12 +1160,6 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
-        auto mask = std::numeric_limits<uint64_t>::max();
-        mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
-    }
-
     [[nodiscard]] inline bit<0> get_(int idx) const {
         auto const i = bit_pos(idx);
         if constexpr (native_num) {
-- 
2.43.0


From 4174e9d1d76bd09623bb872a58f24c348b4048a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:50 +0000
Subject: [PATCH 34/34] fix: extending a signed value with an unknown sign did
 not extend the mask

---
 include/logic/logic.hh | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 3271ab4..4747a66 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -229,7 +229,14 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        if constexpr (signed_) {
+            // an unknown sign is replicated as well
+            bit<msb, lsb, true> mask;
+            mask = xz_mask;
+            result.xz_mask = mask.template extend<target_size>();
+        } else {
+            result.xz_mask = xz_mask.template extend<target_size>();
+        }
         return result;
     }
 
@@ -1043,7 +1050,9 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        bit<new_msb, new_lsb, new_signed> mask;
+        mask = b.xz_mask;
+        xz_mask = mask;
         return *this;
     }
 
@@ -1057,7 +1066,9 @@ public:
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
         value = b.value;
-        xz_mask = b.xz_mask;
+        bit<new_msb, new_lsb, true> mask;
+        mask = b.xz_mask;
+        xz_mask = mask;
     }
 
     // useful constants
-- 
2.43.0

