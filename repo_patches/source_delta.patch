From fc58369712f59b9fa436377cfb9db18ba0396220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 01/21] fix: carry the upper half of a 64-bit addend in Aeu +=
 Unsigned

---
 include/AesiMultiprecision/Aeu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..60d7b98 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,10 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            uint64_t carryOut = static_cast<uint64_t>(addendum);
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const uint64_t currentSum = static_cast<uint64_t>(addition.blocks[i]) + carryOut % blockBase;
+                carryOut = carryOut / blockBase + currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
-- 
2.43.0


From 47659fdab173eccda6538be918bf902384dba396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 02/21] fix: use the two-block path for every unsigned factor
 wider than a block

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 60d7b98..b2af812 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -437,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) > sizeof(block)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From ee0f488514df7c757d2e732d620544a105174c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 03/21] fix: reject the first byte index past the end in
 getByte and setByte

---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index b2af812..cc2193d 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From f0b22553211660292de297dbd17690612bcdba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 04/21] fix: pass only unsigned char values to isalnum when
 parsing

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index cc2193d..3934258 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -188,7 +188,7 @@ public:
         std::size_t position = 0;
 
         if constexpr (std::is_same_v<Char, char>) {
-            for(; position < size && !std::isalnum(data[position]); ++position) ;
+            for(; position < size && !std::isalnum(static_cast<unsigned char>(data[position])); ++position) ;
         } else {
             for(; position < size && !std::iswalnum(static_cast<wint_t>(data[position])); ++position) ;
         }
-- 
2.43.0


From dc31f768a60a776a8e3a250bc846eba469c94781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 05/21] fix: keep Aeu::getString inside the caller's buffer
 when the numeral does not fit

---
 include/AesiMultiprecision/Aeu.h | 37 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 3934258..b43a9ca 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1319,26 +1319,26 @@ public:
             for (; iter > 0 && blocks[iter] == 0; --iter)
                 ;
 
-            if constexpr (std::is_same_v<Char, char>) {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
+            const auto put = [&] (const auto* format) {
+                if (position >= bufferSize) return;
+                Char digits[blockBitLength / 4 + 1];
+                if constexpr (std::is_same_v<Char, char>) {
+                    snprintf(digits, blockBitLength / 4 + 1, format, blocks[iter]);
                 } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
+                    swprintf(digits, blockBitLength / 4 + 1, format, blocks[iter]);
                 }
+                for (const Char* digit = digits; *digit != Char {} && position < bufferSize; ++digit)
+                    buffer[position++] = *digit;
+            };
+
+            if constexpr (std::is_same_v<Char, char>) {
+                put(hexUppercase ? "%X" : "%x");
+                for (; iter-- > 0;)
+                    put(hexUppercase ? "%08X" : "%08x");
             } else {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
-                }
+                put(hexUppercase ? L"%X" : L"%x");
+                for (; iter-- > 0;)
+                    put(hexUppercase ? L"%08X" : L"%08x");
             }
         } else {
             const auto startPosition = position;
@@ -1360,7 +1360,8 @@ public:
                 buffer[startPosition + digitsTotal - 1 - i] = t;
             }
         }
-        buffer[position++] = Char {};
+        if (position < bufferSize)
+            buffer[position++] = Char {};
         return position;
     }
 
-- 
2.43.0


From ed611ffc07d6d0a35858a808aa17793c45880644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 06/21] fix: write nothing into an empty buffer in
 Aesi::getString

---
 include/AesiMultiprecision/Aesi.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..f179af6 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1061,8 +1061,10 @@ public:
     gpu constexpr auto getString(Char* buffer, std::size_t bufferSize, bool showBase = false) const noexcept -> std::size_t {
         using enum Sign;
 
+        if(bufferSize == 0) return 0;
+
         if(sign != Zero) {
-            if(sign == Negative && bufferSize > 0) {
+            if(sign == Negative) {
                 *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
                 --bufferSize;
             }
-- 
2.43.0


From 8468203c4a58ff1b1fc915bd25076465da7a1cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 07/21] fix: count the minus written by Aesi::getString

---
 include/AesiMultiprecision/Aesi.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index f179af6..3bce8c2 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1067,6 +1067,7 @@ public:
             if(sign == Negative) {
                 *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
                 --bufferSize;
+                return 1 + base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
             }
             return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
         }
-- 
2.43.0


From 5bd528a5142c79be0f298317436e7d6c74f323d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 08/21] fix: take the magnitude of the most negative built-in
 value without signed overflow

---
 include/AesiMultiprecision/Aesi.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 3bce8c2..bdeb965 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -100,7 +100,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(0ULL - static_cast<unsigned long long>(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
@@ -428,11 +428,12 @@ public:
             if(factor == 0) {
                 multiplication.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
+                    magnitude = 0ULL - magnitude;
                 }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitude;
             }
             return multiplication;
         }
@@ -494,11 +495,12 @@ public:
             if(divisor == 0) {
                 division.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
+                    magnitude = 0ULL - magnitude;
                 }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitude;
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
@@ -564,11 +566,12 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
+                auto magnitude = static_cast<unsigned long long>(modulo);
                 if(modulo < 0) {
                     modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
+                    magnitude = 0ULL - magnitude;
                 }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                modulation.base %= magnitude;
             }
             return modulation;
         }
@@ -659,7 +662,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(uint64_t { 0 } - static_cast<uint64_t>(integral))) {
                         using enum Comparison;
                         case greater:
                             return less;
-- 
2.43.0


From 7e307f13ecc3a6c754071f1208052dcd647208fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 09/21] fix: negate in unsigned arithmetic in
 Aesi::integralCast

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index bdeb965..109e86a 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1014,7 +1014,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(uint64_t { 0 } - base.template integralCast<uint64_t>());
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From 0a2710bc1cf06947365a49ba3e4a2a883b246857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 10/21] fix: compare signed numbers of different precision in
 the wider one

---
 include/AesiMultiprecision/Aesi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 109e86a..4e4479b 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -620,11 +620,7 @@ public:
          */
         template <std::size_t otherBitness>
         gpu constexpr friend auto operator==(const Aesi& our, const Aesi<otherBitness>& other) noexcept -> bool {
-            if constexpr (bitness == otherBitness) {
-                return our.compareTo(other) == Comparison::equal;
-            } else {
-                return our.precisionCast<otherBitness>() == other;
-            }
+            return our.compareTo(other) == Comparison::equal;
         }
 
 #ifdef AESI_GMP_INTEGRATION
@@ -686,7 +682,11 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness > bitness) {
+                return precisionCast<otherBitness>().compareTo(value);
+            } else {
+                return compareTo(value.template precisionCast<bitness>());
+            }
         }
 
         /**
-- 
2.43.0


From dde636fbf52e7a15c46a1f145d324ff608069880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 11/21] fix: keep the sign of the dividend in Aesi %= with a
 negative modulo

---
 include/AesiMultiprecision/Aesi.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 4e4479b..a4ecc96 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -567,10 +567,8 @@ public:
                 modulation.sign = Zero;
             } else {
                 auto magnitude = static_cast<unsigned long long>(modulo);
-                if(modulo < 0) {
-                    modulation.inverse();
+                if(modulo < 0)
                     magnitude = 0ULL - magnitude;
-                }
                 modulation.base %= magnitude;
             }
             return modulation;
@@ -588,8 +586,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From 907385bd79e482fb2e50e81da522307cb9923576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 12/21] fix: give Aesi constructed from a zero Aeu the zero
 sign

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index a4ecc96..02978f0 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -148,7 +148,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
-- 
2.43.0


From 973a4f1c49eea289eb2a781f3c2a90bca6c659b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 13/21] fix: clear the magnitude and the sign together whenever
 an Aesi becomes zero

---
 include/AesiMultiprecision/Aesi.h | 39 ++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 02978f0..470d715 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -163,7 +163,9 @@ public:
             sign = Zero;
         } else {
             base = number;
-            if(number < 0)
+            if(base.isZero())
+                sign = Zero;
+            else if(number < 0)
                 sign = Negative;
             else sign = Positive;
         }
@@ -212,7 +214,7 @@ public:
             if(sign == Negative) {
                 --base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Positive; }
             return *this;
         }
@@ -230,7 +232,7 @@ public:
         gpu constexpr auto operator--() noexcept -> Aesi& {
             using enum Sign;
             if(sign == Negative) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
                 --base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Negative; }
@@ -273,6 +275,7 @@ public:
                 return addition = addendum;
             else if(lSign == rSign) {
                 lBase += rBase;
+                if(lBase.isZero()) lSign = Zero;
                 return addition;
             }
 
@@ -289,7 +292,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
+                        lBase = 0u; lSign = Zero;
                         return addition;
                     }
                 }
@@ -306,7 +309,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
+                        lBase = 0u; lSign = Zero;
                         return addition;
                     }
                 }
@@ -359,12 +362,13 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
+                            lBase = 0u; lSign = Zero;
                             return subtraction;
                         }
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             } else {
@@ -381,12 +385,13 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
+                            lBase = 0u; lSign = Zero;
                             return subtraction;
                         }
                     }
                 } else {
                     lBase += rBase;
+                    if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             }
@@ -426,7 +431,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, Integral factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor == 0) {
-                multiplication.sign = Zero;
+                multiplication = Aesi { 0 };
             } else {
                 auto magnitude = static_cast<unsigned long long>(factor);
                 if(factor < 0) {
@@ -434,6 +439,7 @@ public:
                     magnitude = 0ULL - magnitude;
                 }
                 multiplication.base *= magnitude;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -447,11 +453,12 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, const Aesi& factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor.isZero()) {
-                multiplication.sign = Zero;
+                multiplication = Aesi { 0 };
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
                 multiplication.base *= factor.base;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -493,7 +500,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, Integral divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor == 0) {
-                division.sign = Zero;
+                division = Aesi { 0 };
             } else {
                 auto magnitude = static_cast<unsigned long long>(divisor);
                 if(divisor < 0) {
@@ -516,7 +523,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, const Aesi& divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor.isZero()) {
-                division.sign = Zero;
+                division = Aesi { 0 };
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -564,12 +571,13 @@ public:
         gpu constexpr friend auto operator%=(Aesi& modulation, Integral modulo) noexcept -> Aesi& {
             using enum Sign;
             if(modulo == 0) {
-                modulation.sign = Zero;
+                modulation = Aesi { 0 };
             } else {
                 auto magnitude = static_cast<unsigned long long>(modulo);
                 if(modulo < 0)
                     magnitude = 0ULL - magnitude;
                 modulation.base %= magnitude;
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
@@ -941,8 +949,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi { 0 };
+            remainder = Aesi { 0 };
             return;
         }
 
@@ -1030,6 +1038,9 @@ public:
             for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
                 result.setBlock(blockIdx, getBlock(blockIdx));
 
+            if(result.filledBlocksNumber() == 0)
+                return Aesi<newBitness> { 0 };
+
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From f4d2f6259adb6b0fc99a0b9006f998cb29e20b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 14/21] fix: reduce powm by the modulo for base zero, base one
 and power zero

---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index b43a9ca..cf8b44f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1200,12 +1200,7 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
+        Aeu output = Aeu { 1u } % modulo;
         auto [_, b] = divide(base, modulo);
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
@@ -1223,7 +1218,7 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
+        Aeu output = Aeu { 1u } % mod;
         auto [_, b] = divide(base, mod);
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
-- 
2.43.0


From a99b3edbdc8faca5c0c03526f18fdf6e5040a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 15/21] fix: restore the flags and the fill of the stream in
 operator<<

---
 include/AesiMultiprecision/Aeu.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index cf8b44f..a5bc660 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1373,7 +1373,7 @@ public:
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
     friend constexpr auto operator<<(std::basic_ostream<Char>& os, const Aeu& number) -> std::basic_ostream<Char>& {
-        auto flags = os.flags();
+        const auto flags = os.flags(); const auto fill = os.fill();
 
         const auto base = [] (long baseField, std::basic_ostream<Char>& ss, bool showbase) {
             auto tBase = (baseField == std::ios::hex ? 16u : (baseField == std::ios::oct ? 8u : 10u));
@@ -1388,8 +1388,10 @@ public:
             return tBase;
         } (flags & std::ios::basefield, os, flags & std::ios::showbase);
 
-        if(number.isZero())
-            return os << '0';
+        if(number.isZero()) {
+            os << '0'; os.flags(flags);
+            return os;
+        }
 
         if(base == 16) {
             std::size_t iter = number.blocks.size() - 1;
@@ -1418,6 +1420,7 @@ public:
                 os << buffer[filled - 1];
         }
 
+        os.flags(flags); os.fill(fill);
         return os;
     }
 
-- 
2.43.0


From b0f69d0acbd7f8d1e7cbb5c9fdb6bba2ff87addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 16/21] fix: make the pre-C++20 comparison operators compile
 and take the signed type

---
 include/AesiMultiprecision/Aesi.h | 12 ++++++------
 include/AesiMultiprecision/Aeu.h  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 470d715..ae57333 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -736,19 +736,19 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA cause it does not support <=> operator.
          */
-        gpu constexpr auto operator!=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator==(value);
+        gpu constexpr auto operator!=(const Aesi& value) const noexcept -> bool {
+            return !(*this == value);
         }
-        gpu constexpr auto operator<(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::less;
         }
-        gpu constexpr auto operator<=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<=(const Aesi& value) const noexcept -> bool {
             return !this->operator>(value);
         }
-        gpu constexpr auto operator>(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::greater;
         }
-        gpu constexpr auto operator>=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>=(const Aesi& value) const noexcept -> bool {
             return !this->operator<(value);
         }
 #else
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index a5bc660..096567b 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -836,7 +836,7 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA because it does not support <=> on preCpp20
          */
-        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !this->operator==(value); }
+        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !(*this == value); }
         gpu constexpr auto operator<(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::less; }
         gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return !this->operator>(value); }
         gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }
-- 
2.43.0


From 84d059f090d7e58e33df1aabed25ea4971781c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 17/21] fix: compare the blocks only the longer number has
 before the common ones

---
 include/AesiMultiprecision/Aeu.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 096567b..fa3bc7c 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,11 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
 
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
@@ -826,6 +821,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 75da44a81af425edaded0b2e616dc2317ba6a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 18/21] fix: stream insertion of a 64-bit number in octal
 dropped its most significant digit

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index fa3bc7c..dd3c296 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1407,7 +1407,7 @@ public:
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-            constexpr auto bufferSize = static_cast<std::size_t>(static_cast<double>(bitness) / 2.95);
+            constexpr auto bufferSize = static_cast<std::size_t>(static_cast<double>(bitness) / 2.95) + 1;
             Char buffer [bufferSize] {}; std::size_t filled = 0;
 
             Aeu copy = number;
-- 
2.43.0


From a4d9e072a93d89abbf2199f60c20b0210199359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:41 +0000
Subject: [PATCH 19/21] fix: do not write past the number when constructing
 from a longer mpz in unsafe mode

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index dd3c296..36cbb32 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -262,7 +262,7 @@ public:
         std::vector<block> buffer (tBlocksNumber, 0u);
         mpz_export(buffer.data(), &tBlocksNumber, -1, sizeof(block), -1, 0, value.get_mpz_t());
 
-        for (std::size_t i = 0; i < tBlocksNumber; ++i)
+        for (std::size_t i = 0; i < tBlocksNumber && i < blocksNumber; ++i)
             setBlock(i, buffer[i]);
     }
 #endif
-- 
2.43.0


From 8f772b3b0f44951ea0e883b43e3dcd04aa4d30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:41 +0000
Subject: [PATCH 20/21] fix: GMP equality holds only for equal values, not
 modulo 2^N

---
 include/AesiMultiprecision/Aesi.h | 5 +++--
 include/AesiMultiprecision/Aeu.h  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index ae57333..02ef1e6 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -635,8 +635,9 @@ public:
          * @return bool
          */
         template <typename T, typename U>
-        constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aesi(mpz_class(other));
+        friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
+            const mpz_class value(other);
+            return mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aesi(value);
         }
 #endif
     /* --------------------------------------------------------------------------- */
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 36cbb32..cf1d31d 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -751,8 +751,9 @@ public:
          * @return Boolean
          */
         template <typename T, typename U>
-        constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aeu(mpz_class(other));
+        friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
+            const mpz_class value(other);
+            return value >= 0 && mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aeu(value);
         }
 #endif
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From b34cf9a0e206e364c09c5275bf18ba169223dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:41 +0000
Subject: [PATCH 21/21] fix: tryAtomicExchange writes its argument and
 exchanges the sign

---
 include/AesiMultiprecision/Aesi.h | 6 ++++--
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 02ef1e6..3dd51fb 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1159,9 +1159,11 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aesi& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aesi& value) noexcept -> void {
         base.tryAtomicExchange(value.base);
-        sign = value.sign; /* TODO: Make enum substitution using existing CUDA atomics */
+        const Sign exchanged = value.sign;
+        value.sign = sign;
+        sign = exchanged; /* TODO: Make enum substitution using existing CUDA atomics */
     }
 #endif
 };
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index cf1d31d..809ccd3 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1519,7 +1519,7 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aeu& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aeu& value) noexcept -> void {
         for(std::size_t i = 0; i < blocksNumber; ++i)
             atomicExch(&value.blocks[i], atomicExch(&blocks[i], value.blocks[i]));
     }
-- 
2.43.0

