From 102c0e8917bbc8facd24745c1a1db8a831beebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 01/74] fix: WidthMask(64) is a full mask, not an empty one

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..04ccaed 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From 91b8849a2d1b9e08bcb22c66f8f8965bf8c41f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 02/74] fix: popcnt32 no longer loses carries between nibble
 sums

---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 04ccaed..8b0060e 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Fu;
+    return 0x01010101u*x >> 24;
 #endif
 }
 
-- 
2.43.0


From bac641cb36cd3406168df54fee0f4809c22a0fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 03/74] fix: portable clz of a 32-bit word counts from bit 31

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 8b0060e..6316292 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From fc62e1a81a85d926fb0b042ec91a1c91e857e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 04/74] fix: sel compiles where BMI2 is available

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 6316292..7ef27d7 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(uint64_t(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From 52d3aec35b0cce0da44a4571d9426ece4ca3aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 05/74] fix: clz256 counts from the most significant word

---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..4d4ce17 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3 - i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From f3e347b1bc830e82bb320b126c049007a6534504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 06/74] fix: xor_map_intrinsics compiles where AVX-512 is
 available

---
 include/sim_ds/bit_util256.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 4d4ce17..071f971 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -146,7 +146,7 @@ __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x0F0F0F0F0F0F0F0F)), 4),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xF0F0F0F0F0F0F0F0)), 4));
     }
-#if defined(__AVX512VL__) && defined(__AVX512F__)
+#if defined(__AVX512VL__) && defined(__AVX512BW__) && defined(__AVX512VBMI__)
     if (mask & 8)
         x = _mm256_permutexvar_epi8(_mm256_set_epi8(30, 31, 28, 29, 26, 27, 24, 25, 22, 23, 20, 21, 18, 19, 16, 17, 14, 15, 12, 13, 10, 11, 8, 9, 6, 7, 4, 5, 2, 3, 0, 1), x);
     if (mask & 16)
@@ -154,9 +154,9 @@ __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
     if (mask & 32)
         x = _mm256_permutexvar_epi32(_mm256_set_epi32(6, 7, 4, 5, 2, 3, 0, 1), x);
     if (mask & 64)
-        x = _mm256_permutexvar_epi64(_mm256_set_epi64(2, 3, 0, 1), x);
+        x = _mm256_permutexvar_epi64(_mm256_set_epi64x(2, 3, 0, 1), x);
     if (mask & 128)
-        x = _mm256_permutexvar_epi128(_mm256_set_epi128(0, 1), x);
+        x = _mm256_permute2x128_si256(x, x, 0x01);
 #else
     if (mask & 8)
         x = _mm256_or_si256(_mm256_srli_epi16(x, 8), _mm256_slli_epi16(x, 8));
-- 
2.43.0


From 08dd6f346f3b531b9f2d5bc33dfea0a4f3f30892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 07/74] fix: sizing a value that fills the word no longer
 shifts by 64

---
 include/sim_ds/calc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..135236f 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -14,8 +14,8 @@ namespace sim_ds::calc {
 
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
-    size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    size_t size = 1;
+    while (size * unit < 64 && static_cast<bool>(value >> (size * unit))) size++;
     return size;
 }
 
-- 
2.43.0


From c1474810908667bd73d9ef0a70257c050a7f3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 08/74] fix: the layer optimiser no longer reads and writes one
 entry past its tables

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 135236f..172c66b 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From 3073ca69fa45ffaf71959e5fca068cd31f99fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 09/74] fix: bit iterators compile when post-incremented,
 converted to const or taken from a reference

---
 include/sim_ds/BitReference.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 82f78bb..0947988 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -76,7 +76,7 @@ public:
     }
     
     BitIterator<_Bv, true> operator&() const {
-        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(__ctz(mask_)));
+        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(bit_util::ctz(mask_)));
     }
     
 private:
@@ -129,7 +129,7 @@ public:
     
     BitIterator operator++(int) {
         BitIterator itr = *this;
-        ++this;
+        ++*this;
         return itr;
     }
     
@@ -145,7 +145,7 @@ public:
     
     BitIterator operator--(int) {
         BitIterator itr = *this;
-        --this;
+        --*this;
         return itr;
     }
     
@@ -200,6 +200,10 @@ private:
     
     friend typename _Bv::_self;
     
+    friend class BitReference<_Bv>;
+    friend class BitConstReference<_Bv>;
+    template <class _B, bool _C, typename _B::_word_type> friend class BitIterator;
+    
 };
 
 
-- 
2.43.0


From 00bbedd19812ab44d7e24ef9e0c240971c36f48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 10/74] fix: iterators over packed integers step by element

---
 include/sim_ds/BitsReference.hpp | 64 +++++++++++++++++---------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/include/sim_ds/BitsReference.hpp b/include/sim_ds/BitsReference.hpp
index 0ce649c..7061136 100644
--- a/include/sim_ds/BitsReference.hpp
+++ b/include/sim_ds/BitsReference.hpp
@@ -31,6 +31,7 @@ class BitsReference {
     
     friend typename Sequence::Self;
     friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, false>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -84,6 +85,7 @@ class BitsConstReference {
     const word_type mask_;
     
     friend typename Sequence::Self;
+    friend class BitsIterator<Sequence, true>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -118,6 +120,8 @@ public:
     using value_type = typename Sequence::value_type;
     using difference_type = typename Sequence::difference_type;
     using reference = std::conditional_t<IsConst, BitsConstReference<Sequence>, BitsReference<Sequence>>;
+    using pointer = BitsIterator;
+    using iterator_category = std::random_access_iterator_tag;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -128,24 +132,26 @@ private:
     word_pointer seg_;
     size_t start_;
     
-    const size_t bits_per_entity_;
+    size_t bits_per_entity_;
     
 public:
     BitsIterator() : seg_(nullptr), start_(0), bits_per_entity_(64) {}
     
-    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.offset_), bits_per_entity_(x.bits_per_entity_) {}
+    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.start_), bits_per_entity_(x.bits_per_entity_) {}
     
-    value_type operator*() const {
+    BitsIterator& operator=(const BitsIterator<Sequence, false>& x) {
+        seg_ = x.seg_;
+        start_ = x.start_;
+        bits_per_entity_ = x.bits_per_entity_;
+        return *this;
+    }
+    
+    reference operator*() const {
         return reference(seg_, start_, bits_per_entity_, bit_util::WidthMask(bits_per_entity_));
     }
     
     BitsIterator& operator++() {
-        if (start_ == kBitsPerWord - 1) {
-            ++seg_;
-            start_ = 0;
-        } else {
-            ++start_;
-        }
+        return *this += 1;
     }
     
     BitsIterator operator++(int) {
@@ -155,12 +161,7 @@ public:
     }
     
     BitsIterator& operator--() {
-        if (start_ == 0) {
-            --seg_;
-            start_ = kBitsPerWord - 1;
-        } else {
-            --start_;
-        }
+        return *this -= 1;
     }
     
     BitsIterator operator--(int) {
@@ -170,13 +171,11 @@ public:
     }
     
     BitsIterator& operator+=(difference_type difference) {
-        if (difference >= 0) {
-            seg_ += (start_ + difference) / kBitsPerWord;
-        } else {
-            seg_ += static_cast<difference_type>(-difference - kBitsPerWord + start_ + 1) / static_cast<difference_type>(kBitsPerWord);
-        }
-        difference &= kBitsPerWord - 1;
-        start_ = static_cast<size_t>((difference + start_) % kBitsPerWord);
+        constexpr auto word_bits = static_cast<difference_type>(kBitsPerWord);
+        auto bit = static_cast<difference_type>(start_) + difference * static_cast<difference_type>(bits_per_entity_);
+        auto words = (bit >= 0 ? bit : bit - (word_bits - 1)) / word_bits;
+        seg_ += words;
+        start_ = static_cast<size_t>(bit - words * word_bits);
         return *this;
     }
     
@@ -184,29 +183,33 @@ public:
         return *this += -difference;
     }
     
-    BitsIterator& operator+(difference_type difference) {
+    BitsIterator operator+(difference_type difference) const {
         BitsIterator itr = *this;
         itr += difference;
         return itr;
     }
     
-    BitsIterator& operator-(difference_type difference) {
+    BitsIterator operator-(difference_type difference) const {
         BitsIterator itr = *this;
         itr -= difference;
         return itr;
     }
     
-    friend BitsIterator& operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
+    friend BitsIterator operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
     
-    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {return static_cast<difference_type>(x.seg_ - y.seg_) * kBitsPerWord + static_cast<difference_type>(x.offset_ - y.offset_);}
+    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {
+        auto bits = static_cast<difference_type>(x.seg_ - y.seg_) * static_cast<difference_type>(kBitsPerWord)
+                  + static_cast<difference_type>(x.start_) - static_cast<difference_type>(y.start_);
+        return bits == 0 ? 0 : bits / static_cast<difference_type>(x.bits_per_entity_);
+    }
     
-    value_type operator[](difference_type pos) const {return *(*this + pos);}
+    reference operator[](difference_type pos) const {return *(*this + pos);}
     
-    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.offset_ == y.offset_;}
+    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.start_ == y.start_;}
     
     friend bool operator!=(const BitsIterator& x, const BitsIterator& y) {return !(x == y);}
     
-    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.offset_ < y.offset_);}
+    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.start_ < y.start_);}
     
     friend bool operator>(const BitsIterator& x, const BitsIterator& y) {return y < x;}
     
@@ -218,6 +221,9 @@ private:
     BitsIterator(word_pointer seg, size_t start, size_t bits_per_entity) : seg_(seg), start_(start), bits_per_entity_(bits_per_entity) {}
     
     friend typename Sequence::Self;
+    friend class BitsReference<Sequence>;
+    friend class BitsConstReference<Sequence>;
+    template <class S, bool C> friend class BitsIterator;
     
 };
 
-- 
2.43.0


From 8380a66c61c0ee491d54c67a07190145a9d2c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 11/74] fix: a DacVector of nothing is a valid empty sequence

---
 include/sim_ds/DacVector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..db0dfd0 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -127,7 +127,7 @@ private:
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() : num_layers_(1), layers_unit_bits_(1, 8), layers_(1, layer_type(8)), paths_() {}
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -246,11 +246,14 @@ public:
 };
 
 template <typename T, typename S>
-DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bit_list) {
+DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bit_list) : DacVector() {
     // Empty vector input return with no works.
     if (vector.empty())
         return;
     
+    layers_unit_bits_.clear();
+    layers_.clear();
+    
     if (unit_bit_list.empty()) {
         calc::split_positions_optimized_for_dac(vector, &layers_unit_bits_);
     } else {
-- 
2.43.0


From 0c1aadd0c7b68322b683415f924ddb8a3e495d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 12/74] fix: explicit DacVector layers may cover more bits than
 the values need

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index db0dfd0..520f470 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -271,7 +271,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     { // Memory reservation
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
-        for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
+        for (size_t i = 0, t = 0; i < num_layers && t < cf.size(); t += layers_unit_bits_[i], i++) {
             layers_[i].reserve(cf[t]);
             if (i < num_layers - 1)
                 paths_src_[i].reserve(cf[t]);
-- 
2.43.0


From 7e823eb6317a170e57708a90319537c80a0c1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 13/74] fix: DacVector status of a single layer does not read a
 path that is not there

---
 include/sim_ds/DacVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 520f470..2d9cf56 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -230,7 +230,7 @@ public:
         os << "size:   " << size_bytes << endl;
         os << "sizeBits/element:   " << (float(size_bytes * 8) / size()) << endl;
         auto bitsSize = 0;
-        for (size_t i = 0; i == 0 || i + 1 < num_layers(); i++)
+        for (size_t i = 0; i + 1 < num_layers(); i++)
             bitsSize += paths_[i].size_in_bytes();
         os << "size bits:   " << bitsSize << endl;
         auto flowSize = 0;
-- 
2.43.0


From c52998b59a55f93e9f02cae90d0f950f9c55e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 14/74] fix: select of ones past the last select tip does not
 read beyond the tips

---
 include/sim_ds/SuccinctBitVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..f692e9c 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -152,7 +152,8 @@ SuccinctBitVector<true>::select(size_t index) const {
     if (select_tips_.size() != 0) {
         auto select_tip_index = i / 512;
         left = select_tips_[select_tip_index];
-        right = select_tips_[select_tip_index + 1] + 1;
+        if (select_tip_index + 1 < select_tips_.size())
+            right = select_tips_[select_tip_index + 1] + 1;
     }
     while (left + 1 < right) {
         const auto center = (left + right) / 2;
-- 
2.43.0


From 20045e2f6e0a177191be564968b138f4b079d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 15/74] fix: rank at the end of a whole number of words does
 not read past the bits

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index f692e9c..a1d880f 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index%64 == 0 ? 0 : bit_util::cnt(bits_.data()[index/64], index%64)));
 }
 
 
-- 
2.43.0


From 491c7a4e3d5c8260fdc7db8d4dc17164c1355550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 16/74] fix: a default-constructed rank index is the index of
 an empty sequence

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index a1d880f..8e1aa2c 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -25,7 +25,7 @@ private:
     std::vector<uint32_t> select_tips_;
     
 public:
-    SuccinctBitVector() = default;
+    SuccinctBitVector() : SuccinctBitVector(BitVector()) {}
     
     explicit SuccinctBitVector(BitVector&& bits);
     
-- 
2.43.0


From 1cf6b5b3ca2e9b7c3daeeb86dd0c95ce0994390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 17/74] fix: set_at widens the value before taking its bytes

---
 include/sim_ds/MultipleVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..2a85cd4 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -112,7 +112,7 @@ private:
         auto relative_pointer = pointer_ + element_table_[id].pos;
         auto width = element_table_[id].size;
         for (size_t i = 0; i < width; i++)
-            *(relative_pointer + i) = static_cast<storage_type>(value >> (i * kBitsPerWord));
+            *(relative_pointer + i) = static_cast<storage_type>(static_cast<id_type>(value) >> (i * kBitsPerWord));
         
         return value;
     }
-- 
2.43.0


From 062f2a841a1530cafb9a1e781dae6a9f53b762c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 18/74] fix: assigning a list to a block returns the block

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 2a85cd4..919bc3c 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From 8712d841843b8ea8bb6c7f7bb9c9f2e9114ffacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 19/74] fix: setting element sizes replaces the previous layout

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 919bc3c..74ed94b 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -239,6 +239,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From 395963aa884dd3479ed56280429c9e324cdf71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 20/74] fix: a wavelet tree of nothing is empty

---
 include/sim_ds/WaveletTree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..5978301 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -29,6 +29,8 @@ private:
 public:
     template <typename T>
     WaveletTree(const std::vector<T>& vec) {
+        if (vec.empty()) return;
+        
         size_t max_char = *std::max_element(vec.begin(), vec.end());
         leafs_ = max_char + 1;
         
@@ -107,7 +109,7 @@ public:
     }
     
     size_t size() const {
-        return bv_list_[0].size();
+        return bv_list_.empty() ? 0 : bv_list_[0].size();
     }
     
     size_t node_diff(size_t node, size_t diff_height) {
-- 
2.43.0


From 0a646136b1ef2279c9f60e0b74d39c1c6872d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 21/74] fix: rank of a symbol is defined for any symbol and
 position

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 5978301..cacb9fc 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -83,11 +83,11 @@ public:
     }
     
     size_t rank(uint8_t c, size_t index) const {
+        if (c >= leafs_) return 0; // not in the alphabet
         size_t idx = index;
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
             auto bit = (c >> (height_ - 1 - depth)) & 1;
-            assert(bit == cbv[idx]);
             idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);
             id = (id << 1) | bit;
         }
-- 
2.43.0


From f3425dcc8dc3dbcd1a8f2d592c543f1095ae11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 22/74] fix: reading a wavelet tree takes as many nodes as were
 written

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index cacb9fc..6f47dfe 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -130,6 +130,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((1U << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From bed6ca23222fb48993c94740a813e7c2a0468040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 23/74] fix: CHT::erase compares the quotient that set stores

---
 include/sim_ds/CHT.hpp | 544 ++++++++++++++++++++---------------------
 1 file changed, 272 insertions(+), 272 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..8ec33ee 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -1,272 +1,272 @@
-#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
-#define SIDS_INCLUDE_SIM_DS_CHT_H_
-
-#include "BijectiveHash.hpp"
-#include "FitVector.hpp"
-#include "bit_util.hpp"
-
-#include <bitset>
-
-namespace sim_ds {
-
-template <
-    unsigned ValueBits,
-    unsigned MaxLoadFactorPercent = 50,
-    typename BijectiveHash = SplitMixHash>
-class CHT {
-    static_assert(MaxLoadFactorPercent < 100);
-public:
-    static constexpr size_t kDefaultBucketSize = 8;
-    static constexpr unsigned kFlagBits = 4;
-    static constexpr uint64_t kOccupiedMask = 1u << 0;
-    static constexpr uint64_t kContinuationMask = 1u << 1;
-    static constexpr uint64_t kShiftedMask = 1u << 2;
-    static constexpr uint64_t kDeletedMask = 1u << 3;
-
-private:
-    unsigned key_bits_;
-    size_t bucket_size_;
-    unsigned bucket_bits_;
-    uint64_t bucket_mask_;
-    size_t max_size_;
-    size_t min_size_;
-    BijectiveHash hasher_;
-    FitVector arr_;
-    FitVector values_;
-    uint64_t quo_mask_;
-    size_t size_ = 0;
-    size_t used_ = 0;
-
-    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
-    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
-    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
-    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
-    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
-
-    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
-
-public:
-    CHT() = default;
-    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
-        key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
-        bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
-        values_(ValueBits, bucket_size_),
-        hasher_(key_bits_) {
-        assert(bit_util::popcnt(bucket_size) == 1);
-        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
-        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
-        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
-    }
-
-    void set_value_width(unsigned width) {
-        if (ValueBits != 0 or size() != 0)
-            throw std::bad_function_call();
-        values_ = FitVector(width, bucket());
-    }
-
-    size_t ToClusterHead(size_t i) const {
-        if (!IsShifted(i))
-            return i;
-        size_t t = 0;
-        do {
-            i = pred(i);
-            if (IsOccupied(i))
-                ++t;
-        } while (IsShifted(i));
-        while (t) {
-            i = succ(i);
-            if (!IsContinuation(i))
-                --t;
-        }
-        return i;
-    }
-
-    std::pair<bool, uint64_t> get(uint64_t key) const {
-        assert(64-bit_util::clz(key) <= key_bits_);
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t i = initial_h & bucket_mask_;
-        if (!IsOccupied(i))
-            return {false, 0};
-        i = ToClusterHead(i);
-        do {
-            if (Quotient(i) == quo) {
-                return {true, values_[i]};
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-        return {false, 0};
-    }
-
-    bool IsFilled() const {
-        return used_ == max_size_;
-    }
-
-    void set(size_t key, uint64_t value) {
-        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
-        assert(64-bit_util::clz(value) <= values_.unit_width());
-
-        if (IsFilled()) {
-            reserve(size()*2);
-        }
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t initial_i = initial_h & bucket_mask_;
-        auto i = ToClusterHead(initial_i);
-        if (IsOccupied(initial_i)) {
-            do {
-                if (Quotient(i) == quo) {
-                    if (IsDeleted(i)) {
-                        arr_[i] = arr_[i] & ~kDeletedMask;
-                        size_++;
-                    }
-                    values_[i] = value;
-                    return;
-                }
-                i = succ(i);
-            } while (IsContinuation(i));
-        }
-        if (!IsNull(i)) {
-            auto j = i;
-            do {
-                j = succ(j);
-            } while (!IsNull(j));
-            do {
-                auto pj = pred(j);
-                arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
-                    kShiftedMask
-                );
-                values_[j] = values_[pj];
-                j = pj;
-            } while (i != j);
-            assert(j == i);
-        }
-        if (!IsOccupied(initial_i)) { // New cluster
-            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                (i != initial_i ? kShiftedMask : 0)
-            );
-        } else { // Already exists cluster
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                kContinuationMask |
-                kShiftedMask
-            );
-        }
-        ++size_;
-        ++used_;
-        values_[i] = value;
-    }
-
-    void erase(uint64_t key) {
-        if (size() == min_size_) {
-            reserve(size()*2);
-        }
-
-        auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
-        auto initial_i = initial_h & bucket_mask_;
-        if (!IsOccupied(initial_i))
-            return;
-        auto i = ToClusterHead(initial_i);
-        do {
-            if (Quotient(i) == quo) {
-                if (!IsDeleted(i)) {
-                    arr_[i] = arr_[i] | kDeletedMask;
-                    size_--;
-                }
-                return;
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-    }
-
-    size_t succ(size_t i) const {
-        i++;
-        [[unlikely]] if (i == bucket())
-            i = 0;
-        return i;
-    }
-
-    size_t pred(size_t i) const {
-        [[unlikely]] if (i == 0)
-            return bucket()-1;
-        else
-            return i-1;
-    }
-
-    void print_for_debug() const {
-        int cnt=0;
-        for (int i = 0; i < bucket(); i++) {
-            std::cout << i << "] "
-                      << bool(arr_[i]&kOccupiedMask)
-                      << bool(arr_[i]&kContinuationMask)
-                      << bool(arr_[i]&kShiftedMask)
-                      << std::endl;
-            if (IsShifted(i))
-                ++cnt;
-        }
-        std::cout<<"cnt shifted: "<<cnt<<std::endl;
-    }
-
-    void reserve(size_t _size) {
-        if (_size <= size())
-            return;
-        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
-        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
-        _resize(1ull << new_bucket_bits);
-    }
-    
-    size_t size() const {return size_;}
-    size_t bucket() const {return bucket_size_;}
-
-private:
-    void _resize(size_t new_bucket_size) {
-        CHT next(key_bits_, new_bucket_size);
-        if (ValueBits == 0)
-            next.set_value_width(values_.unit_width());
-        size_t i = 0;
-        size_t cnt = 0;
-        while (cnt < used_) {
-            while (!(IsOccupied(i) and !IsShifted(i))) {
-                i = succ(i);
-            }
-            std::queue<uint64_t> qs;
-            uint64_t f;
-            do {
-                if (IsOccupied(i)) {
-                    qs.push(i);
-                }
-                if (!IsContinuation(i)) {
-                    assert(!qs.empty());
-                    f = qs.front();
-                    qs.pop();
-                }
-                if (!IsDeleted(i)) {
-                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
-                    x = hasher_.ihash(x);
-                    next.set(x, values_[i]);
-                }
-                cnt++;
-                i = succ(i);
-            } while (IsShifted(i));
-        }
-        *this = next;
-    }
-
-};
-
-}
-
-#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
+#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
+#define SIDS_INCLUDE_SIM_DS_CHT_H_
+
+#include "BijectiveHash.hpp"
+#include "FitVector.hpp"
+#include "bit_util.hpp"
+
+#include <bitset>
+
+namespace sim_ds {
+
+template <
+    unsigned ValueBits,
+    unsigned MaxLoadFactorPercent = 50,
+    typename BijectiveHash = SplitMixHash>
+class CHT {
+    static_assert(MaxLoadFactorPercent < 100);
+public:
+    static constexpr size_t kDefaultBucketSize = 8;
+    static constexpr unsigned kFlagBits = 4;
+    static constexpr uint64_t kOccupiedMask = 1u << 0;
+    static constexpr uint64_t kContinuationMask = 1u << 1;
+    static constexpr uint64_t kShiftedMask = 1u << 2;
+    static constexpr uint64_t kDeletedMask = 1u << 3;
+
+private:
+    unsigned key_bits_;
+    size_t bucket_size_;
+    unsigned bucket_bits_;
+    uint64_t bucket_mask_;
+    size_t max_size_;
+    size_t min_size_;
+    BijectiveHash hasher_;
+    FitVector arr_;
+    FitVector values_;
+    uint64_t quo_mask_;
+    size_t size_ = 0;
+    size_t used_ = 0;
+
+    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
+    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
+    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
+    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
+    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
+
+    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
+
+public:
+    CHT() = default;
+    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
+        key_bits_(key_bits),
+        bucket_size_(bucket_size),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        bucket_mask_((1ull<<bucket_bits_)-1),
+        max_size_(bucket_size*MaxLoadFactorPercent/100),
+        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        values_(ValueBits, bucket_size_),
+        hasher_(key_bits_) {
+        assert(bit_util::popcnt(bucket_size) == 1);
+        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
+        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
+        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
+    }
+
+    void set_value_width(unsigned width) {
+        if (ValueBits != 0 or size() != 0)
+            throw std::bad_function_call();
+        values_ = FitVector(width, bucket());
+    }
+
+    size_t ToClusterHead(size_t i) const {
+        if (!IsShifted(i))
+            return i;
+        size_t t = 0;
+        do {
+            i = pred(i);
+            if (IsOccupied(i))
+                ++t;
+        } while (IsShifted(i));
+        while (t) {
+            i = succ(i);
+            if (!IsContinuation(i))
+                --t;
+        }
+        return i;
+    }
+
+    std::pair<bool, uint64_t> get(uint64_t key) const {
+        assert(64-bit_util::clz(key) <= key_bits_);
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t i = initial_h & bucket_mask_;
+        if (!IsOccupied(i))
+            return {false, 0};
+        i = ToClusterHead(i);
+        do {
+            if (Quotient(i) == quo) {
+                return {true, values_[i]};
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+        return {false, 0};
+    }
+
+    bool IsFilled() const {
+        return used_ == max_size_;
+    }
+
+    void set(size_t key, uint64_t value) {
+        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
+        assert(64-bit_util::clz(value) <= values_.unit_width());
+
+        if (IsFilled()) {
+            reserve(size()*2);
+        }
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t initial_i = initial_h & bucket_mask_;
+        auto i = ToClusterHead(initial_i);
+        if (IsOccupied(initial_i)) {
+            do {
+                if (Quotient(i) == quo) {
+                    if (IsDeleted(i)) {
+                        arr_[i] = arr_[i] & ~kDeletedMask;
+                        size_++;
+                    }
+                    values_[i] = value;
+                    return;
+                }
+                i = succ(i);
+            } while (IsContinuation(i));
+        }
+        if (!IsNull(i)) {
+            auto j = i;
+            do {
+                j = succ(j);
+            } while (!IsNull(j));
+            do {
+                auto pj = pred(j);
+                arr_[j] = (
+                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    kShiftedMask
+                );
+                values_[j] = values_[pj];
+                j = pj;
+            } while (i != j);
+            assert(j == i);
+        }
+        if (!IsOccupied(initial_i)) { // New cluster
+            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                (i != initial_i ? kShiftedMask : 0)
+            );
+        } else { // Already exists cluster
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                kContinuationMask |
+                kShiftedMask
+            );
+        }
+        ++size_;
+        ++used_;
+        values_[i] = value;
+    }
+
+    void erase(uint64_t key) {
+        if (size() == min_size_) {
+            reserve(size()*2);
+        }
+
+        auto initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        auto initial_i = initial_h & bucket_mask_;
+        if (!IsOccupied(initial_i))
+            return;
+        auto i = ToClusterHead(initial_i);
+        do {
+            if (Quotient(i) == quo) {
+                if (!IsDeleted(i)) {
+                    arr_[i] = arr_[i] | kDeletedMask;
+                    size_--;
+                }
+                return;
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+    }
+
+    size_t succ(size_t i) const {
+        i++;
+        [[unlikely]] if (i == bucket())
+            i = 0;
+        return i;
+    }
+
+    size_t pred(size_t i) const {
+        [[unlikely]] if (i == 0)
+            return bucket()-1;
+        else
+            return i-1;
+    }
+
+    void print_for_debug() const {
+        int cnt=0;
+        for (int i = 0; i < bucket(); i++) {
+            std::cout << i << "] "
+                      << bool(arr_[i]&kOccupiedMask)
+                      << bool(arr_[i]&kContinuationMask)
+                      << bool(arr_[i]&kShiftedMask)
+                      << std::endl;
+            if (IsShifted(i))
+                ++cnt;
+        }
+        std::cout<<"cnt shifted: "<<cnt<<std::endl;
+    }
+
+    void reserve(size_t _size) {
+        if (_size <= size())
+            return;
+        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
+        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
+        _resize(1ull << new_bucket_bits);
+    }
+    
+    size_t size() const {return size_;}
+    size_t bucket() const {return bucket_size_;}
+
+private:
+    void _resize(size_t new_bucket_size) {
+        CHT next(key_bits_, new_bucket_size);
+        if (ValueBits == 0)
+            next.set_value_width(values_.unit_width());
+        size_t i = 0;
+        size_t cnt = 0;
+        while (cnt < used_) {
+            while (!(IsOccupied(i) and !IsShifted(i))) {
+                i = succ(i);
+            }
+            std::queue<uint64_t> qs;
+            uint64_t f;
+            do {
+                if (IsOccupied(i)) {
+                    qs.push(i);
+                }
+                if (!IsContinuation(i)) {
+                    assert(!qs.empty());
+                    f = qs.front();
+                    qs.pop();
+                }
+                if (!IsDeleted(i)) {
+                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
+                    x = hasher_.ihash(x);
+                    next.set(x, values_[i]);
+                }
+                cnt++;
+                i = succ(i);
+            } while (IsShifted(i));
+        }
+        *this = next;
+    }
+
+};
+
+}
+
+#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
-- 
2.43.0


From e7409d609b23590200ae8794614f961e0009b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 24/74] fix: CHT::get does not find erased keys

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 8ec33ee..a1b6056 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -95,7 +95,7 @@ public:
             return {false, 0};
         i = ToClusterHead(i);
         do {
-            if (Quotient(i) == quo) {
+            if (Quotient(i) == quo and !IsDeleted(i)) {
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From 5aeccadb7d14cdcef0ac7c946d6156764e9cc86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 25/74] fix: CHT moves the deleted mark along with the entry it
 belongs to

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index a1b6056..23618aa 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -140,8 +140,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 51cb76a40460b43d4c8346a875533ed17ecc317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 26/74] fix: CHT grows when full of erased entries or without
 room for one

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 23618aa..4d5f295 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -112,7 +112,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max<size_t>(size()*2, 1));
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From 84ba0e4dfcc06c9b8cbee3b645ca1a2dfa41ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 27/74] fix: the bijective hash has multipliers for its default
 width of 64

---
 include/sim_ds/BijectiveHash.hpp | 313 ++++++++++++++++---------------
 1 file changed, 157 insertions(+), 156 deletions(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a203b30 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -1,157 +1,158 @@
-#ifndef _SIM_DS_BIJECTIVE_HASH_
-#define _SIM_DS_BIJECTIVE_HASH_
-
-#include <cstdint>
-
-namespace sim_ds {
-
-class Xorshift {
-private:
-    unsigned shifts_;
-
-public:
-    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x ^ (x >> (shifts_+K)));
-        return x;
-    }
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        return hash<K>(x);
-    }
-
-};
-
-constexpr uint64_t PRIME_TABLE[][2][3] = {
-    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
-    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
-    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
-    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
-    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
-    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
-    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
-    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
-    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
-    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
-    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
-    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
-    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
-    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
-    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
-    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
-    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
-    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
-    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
-    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
-    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
-    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
-    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
-    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
-    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
-    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
-    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
-    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
-    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
-    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
-    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
-    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
-    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
-    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
-    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
-    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
-    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
-    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
-    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
-    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
-    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
-    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
-    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
-    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
-    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
-    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
-    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
-    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
-    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
-    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
-    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
-    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
-    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
-    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
-    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
-    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
-    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
-    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
-    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
-    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
-    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
-    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
-    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
-};
-
-class MultiplyHash {
-private:
-    unsigned width_;
-    uint64_t mask_;
-public:
-    explicit MultiplyHash(unsigned width=64) :
-        width_(width),
-        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
-        return x;
-    }
-};
-
-class SplitMixHash {
-private:
-    Xorshift xorshift_;
-    MultiplyHash multiply_hash_;
-
-public:
-    explicit SplitMixHash(unsigned width=64) :
-        xorshift_(width), multiply_hash_(width) {}
-
-    uint64_t hash(uint64_t x) const {
-        x = hash_<0>(x);
-        x = hash_<1>(x);
-        x = hash_<2>(x);
-        return x;
-    }
-
-    uint64_t ihash(uint64_t x) const {
-        x = ihash_<2>(x);
-        x = ihash_<1>(x);
-        x = ihash_<0>(x);
-        return x;
-    }
-
-private:
-    template<unsigned K>
-    uint64_t hash_(uint64_t x) const {
-        x = xorshift_.hash<K>(x);
-        x = multiply_hash_.hash<K>(x);
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash_(uint64_t x) const {
-        x = multiply_hash_.ihash<K>(x);
-        x = xorshift_.ihash<K>(x);
-        return x;
-    }
-};
-
-}
-
+#ifndef _SIM_DS_BIJECTIVE_HASH_
+#define _SIM_DS_BIJECTIVE_HASH_
+
+#include <cstdint>
+
+namespace sim_ds {
+
+class Xorshift {
+private:
+    unsigned shifts_;
+
+public:
+    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x ^ (x >> (shifts_+K)));
+        return x;
+    }
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        return hash<K>(x);
+    }
+
+};
+
+constexpr uint64_t PRIME_TABLE[][2][3] = {
+    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
+    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
+    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
+    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
+    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
+    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
+    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
+    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
+    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
+    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
+    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
+    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
+    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
+    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
+    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
+    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
+    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
+    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
+    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
+    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
+    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
+    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
+    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
+    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
+    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
+    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
+    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
+    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
+    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
+    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
+    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
+    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
+    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
+    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
+    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
+    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
+    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
+    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
+    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
+    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
+    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
+    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
+    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
+    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
+    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
+    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
+    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
+    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
+    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
+    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
+    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
+    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
+    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
+    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
+    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
+    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
+    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
+    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
+    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
+    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
+    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
+    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
+    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
+};
+
+class MultiplyHash {
+private:
+    unsigned width_;
+    uint64_t mask_;
+public:
+    explicit MultiplyHash(unsigned width=64) :
+        width_(width),
+        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
+        return x;
+    }
+};
+
+class SplitMixHash {
+private:
+    Xorshift xorshift_;
+    MultiplyHash multiply_hash_;
+
+public:
+    explicit SplitMixHash(unsigned width=64) :
+        xorshift_(width), multiply_hash_(width) {}
+
+    uint64_t hash(uint64_t x) const {
+        x = hash_<0>(x);
+        x = hash_<1>(x);
+        x = hash_<2>(x);
+        return x;
+    }
+
+    uint64_t ihash(uint64_t x) const {
+        x = ihash_<2>(x);
+        x = ihash_<1>(x);
+        x = ihash_<0>(x);
+        return x;
+    }
+
+private:
+    template<unsigned K>
+    uint64_t hash_(uint64_t x) const {
+        x = xorshift_.hash<K>(x);
+        x = multiply_hash_.hash<K>(x);
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash_(uint64_t x) const {
+        x = multiply_hash_.ihash<K>(x);
+        x = xorshift_.ihash<K>(x);
+        return x;
+    }
+};
+
+}
+
 #endif
\ No newline at end of file
-- 
2.43.0


From 8540745df59b6c536b757b6a6ec0133bf675a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 28/74] fix: CDRWArray::set drops the old value from the table
 that holds it

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From b2d74f526b56c7eccd5d410f60f00edfd1bf928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 29/74] fix: CDRWVector::push_back makes room in an empty
 vector

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..ae02127 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max<size_t>(size()*2, 1));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From 84447096d5be50086f0443e7c9f01f4648b9592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 30/74] fix: CDRWVector does not assert a power-of-two capacity
 it never needed

---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index ae02127..88fd1b8 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -121,7 +121,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From 88a3db354ec0a3c2cd90a1b6d7d0f1e8aae4227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 31/74] fix: Heap::push keeps the heap order

---
 include/sim_ds/Heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..e316e08 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,9 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root() and Compare(base_[id - 1], base_[parent(id) - 1]); id = parent(id))
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
     }
     
     void pop() {
-- 
2.43.0


From 297ccbc239dde78eec7ad24a3fcbb8850c69e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 32/74] fix: HeapSort of an empty range does not look before
 its end

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..dffb8d5 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (size() > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From 587cfa313d3b0b55476ca382f5fe7c6d394c5d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 33/74] fix: in-place initializable arrays of 64-bit unsigned
 values compile

---
 include/sim_ds/InitializableArray.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..861d215 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -71,6 +71,7 @@ class _InitializableArray;
 
 template <typename T, size_t Size>
 using InitializableArray = _InitializableArray<T, Size,
+    std::numeric_limits<T>::digits >= 64 ||
     (1ull<<(std::numeric_limits<T>::digits)) >= (Size+(Size%2))>;
 
 
-- 
2.43.0


From de9807ea76f910401a65fb80ad6699976b6eb182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 34/74] fix: in-place initializable arrays follow links stored
 in floating elements

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 861d215..801f67f 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -98,7 +98,7 @@ public:
             return k != kNoneBlock ? init_v_ : a_[i];
         } else { // Written Chained Area
             if (k != kNoneBlock) {
-                return i%2==0 ? a_[a_[i]+1] : a_[i];
+                return i%2==0 ? a_[_to(i)+1] : a_[i];
             } else {
                 return init_v_;
             }
-- 
2.43.0


From 56b7703a806eb20ad2ba6abe5719f74c40d306bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 35/74] fix: the factor oracle does not read a letter past its
 text

---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..cb39070 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -238,6 +238,8 @@ public:
     
     explicit FactorOracleBaseCTAFO(std::string_view text) : FactorOracleBaseCTAFO(text.begin(), text.end()) {}
     
+    size_t size() const {return check_.size();}
+    
     uint8_t check(size_t index) const {return index == 0 ? '\0' : check_[index - 1];}
     
     id_type base(size_t index) const {return base_[index];}
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From a6fa07e1c5853debdb57661ff106be3ce092983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 36/74] fix: the factor oracle of an empty text can be built

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index cb39070..e898e05 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From 2072dc54d639b4ccfe9c84c37d21196f7910b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 37/74] fix: the factor oracle keeps transitions on zero bytes
 when it moves a state

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index e898e05..9299f9c 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -167,7 +167,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From 6e6a6d0564c7dbdf56f3fa99bc092e7fac132a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 38/74] fix: building a factor oracle expands a table that is
 exactly full

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 9299f9c..21e8bca 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (empty_trans_front_ == 0) // No empty element is left
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From 74072896736dfd497dfebf3e3df1f7299465603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 39/74] fix: KMP does not read the pattern past its end after a
 match

---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..f850d08 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From 42d66c0adcf5da096a0952e87dcee916ad824d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 40/74] fix: BM shifts by any byte value

---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index f850d08..78ae132 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -115,9 +115,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -141,7 +141,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip(text[i]);
         
     }
     return matchies;
-- 
2.43.0


From 6e4f82ca43e34a879a1a695629024db37cbd9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 41/74] fix: Sunday searches match and shift by any byte value

---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 78ae132..135139e 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -245,7 +245,7 @@ TurboBom::find_all(std::string_view text) const {
 
 class Sunday : protected _PatternMatchingBase {
 protected:
-    using Pat = std::pair<difference_type, uint8_t>;
+    using Pat = std::pair<difference_type, char>;
     std::vector<Pat> pattern_;
     
 public:
@@ -284,9 +284,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
-- 
2.43.0


From 1f672e88225d3e43f6c790939df7b2119b068346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 42/74] fix: Sunday searches find nothing in a text shorter
 than the pattern

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 135139e..d05bc9c 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -301,7 +301,7 @@ SundayQS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == text[i + pat->first]) {
@@ -373,7 +373,7 @@ SundayMS::find_all(std::string_view text) const {
     
     std::vector<size_t> matchies;
     size_t i = 0;
-    while (i <= text.size() - kKeySize) {
+    while (i + kKeySize <= text.size()) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
         while (pos < kKeySize and pat->second == text[i + pat->first]) {
-- 
2.43.0


From d8a1cdca5c68f92ed78aab6b22321f265752eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 43/74] fix: Turbo-BOM does not skip a match that ends within
 its KMP window

---
 include/sim_ds/string_util/PatternMatching.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index d05bc9c..4db5ead 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -232,9 +232,11 @@ TurboBom::find_all(std::string_view text) const {
         } else {
             const auto prefix_size = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
-            critpos = kmp_begin + kKmpWindowSize;
-            back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
+            // Not beyond the window: a match may end there.
+            const auto kmp_size = std::min(kKmpWindowSize, back + 1 - kmp_begin);
+            const auto next = kmp_search(text.substr(kmp_begin, kmp_size), prefix_size);
+            critpos = kmp_begin + kmp_size;
+            back = kmp_begin + kmp_size - next + kWindowSize - 1;
         }
     }
     return matchies;
-- 
2.43.0


From 742ee668ed19f01f64ca1aa7cd3818f97c770090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 44/74] fix: build a Samc of no keys

---
 include/sim_ds/string_util/Samc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..f6ff552 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -37,6 +37,8 @@ public:
     void for_each_edge(Action action) const {
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
+      if (begin_ == end_)
+        return;
       auto it = begin_;
       if (begin_->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
-- 
2.43.0


From 1eb3abd4337ffdd24fb003d407232438e905d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 45/74] fix: a query with a NUL byte is no key of Samc and
 SamcDict

---
 include/sim_ds/string_util/Samc.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index f6ff552..49b3b89 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -323,6 +323,9 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    // Terminals are labelled with kLeafChar, which no key contains.
+    if (c == kLeafChar)
+      return false;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
@@ -445,6 +448,9 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    // Terminals are labelled with kLeafChar, which no key contains.
+    if (c == _base::kLeafChar)
+      return kSearchError;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
-- 
2.43.0


From 7a565c92f626e0a293c0cfb996062c6f23ea8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 46/74] fix: Trie nodes without an item are not terminals, for
 any SizeType

---
 include/sim_ds/string_util/graph_util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..15b90a7 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -182,6 +182,8 @@ private:
         node = target;
         
         auto& terminal = container_[node];
+        if (not terminal.terminal())
+            return -1;
         return terminal.item_index();
     }
     
-- 
2.43.0


From 8cd4203a40bd3bc14014c9008cb1f62333636de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 47/74] fix: suffix array of texts with NUL or non-ASCII bytes

---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..92c25c5 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -130,7 +130,7 @@ void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
-    vector<size_t> sArr = Sais_(strVec, 0xff);
+    vector<size_t> sArr = Sais_(strVec, 0x100);
     // Erase first element. suffix[0]: '\0'
     sArr.erase(sArr.begin());
     s_arr_ = FitVector(sArr);
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the sentinel
     saisS.push_back(0);
 }
 
-- 
2.43.0


From d6d6751806ae1ac5b81056f86df71d27ea2dd6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 48/74] fix: suffix array of the empty text

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 92c25c5..43ec8e8 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -33,6 +33,8 @@ public:
     SuffixArray() = default;
     
     SuffixArray(const string &str) {
+        if (str.empty())
+            return;
         BuildSA_(str);
         BuildLCP_();
     }
-- 
2.43.0


From 3fe7894865ad05bcef6d16e95abeef5022c353af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 49/74] fix: recursive keeps its function

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..fad8e3b 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -125,7 +125,7 @@ inline size_t size_vec(const std::vector<T, A>& vec) {
 
 template <class Function>
 auto recursive(Function rec) {
-    return [&rec](auto&&... args) {
+    return [rec](auto&&... args) {
         rec(rec, std::forward<decltype(args)>(args)...);
     };
 }
-- 
2.43.0


From fd20889e7180b5f5143c0bf59f895715af621c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 50/74] fix: suffix array when all LMS substrings are unique

---
 include/sim_ds/string_util/SuffixArray.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 43ec8e8..5ae4eb4 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -214,16 +214,18 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    vector<size_t> subSais;
     if (countShared == 0) {
-        return sArr;
+        // Every LMS substring is unique, so that their order is the one of the LMS suffixes.
+        subSais.resize(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
-        const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-        const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
-        return rSais;
+        subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
     }
+    return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
 }
 
 inline typename SuffixArray::InducedRV SuffixArray::InducedSort_(size_t maxValue, const vector<size_t> &str, const vector<bool> &slTypes, const vector<size_t> &lmsIds) const {
-- 
2.43.0


From d3b187e8c27dc39222573cf655a05e6e5fea50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 51/74] fix: write an empty vector

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index fad8e3b..dafa91b 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -109,7 +109,7 @@ inline void write_val(const T& val, std::ostream& os) {
 template<typename T, class A>
 inline void write_vec(const std::vector<T, A> &vec, std::ostream &os) {
     write_val(vec.size(), os);
-    os.write(reinterpret_cast<const char*>(&vec[0]), sizeof(T) * vec.size());
+    os.write(reinterpret_cast<const char*>(vec.data()), sizeof(T) * vec.size());
 }
 
 inline void write_string(const std::string &str, std::ostream &os) {
-- 
2.43.0


From 5f5207d68ff84ddd739c382e43d6904b807a6ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 52/74] fix: keep the CRLF line endings of CHT.hpp and
 BijectiveHash.hpp

---
 include/sim_ds/BijectiveHash.hpp | 314 +++++++++---------
 include/sim_ds/CHT.hpp           | 544 +++++++++++++++----------------
 2 files changed, 429 insertions(+), 429 deletions(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index a203b30..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -1,158 +1,158 @@
-#ifndef _SIM_DS_BIJECTIVE_HASH_
-#define _SIM_DS_BIJECTIVE_HASH_
-
-#include <cstdint>
-
-namespace sim_ds {
-
-class Xorshift {
-private:
-    unsigned shifts_;
-
-public:
-    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x ^ (x >> (shifts_+K)));
-        return x;
-    }
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        return hash<K>(x);
-    }
-
-};
-
-constexpr uint64_t PRIME_TABLE[][2][3] = {
-    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
-    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
-    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
-    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
-    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
-    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
-    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
-    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
-    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
-    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
-    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
-    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
-    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
-    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
-    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
-    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
-    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
-    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
-    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
-    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
-    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
-    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
-    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
-    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
-    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
-    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
-    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
-    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
-    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
-    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
-    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
-    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
-    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
-    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
-    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
-    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
-    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
-    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
-    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
-    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
-    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
-    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
-    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
-    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
-    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
-    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
-    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
-    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
-    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
-    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
-    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
-    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
-    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
-    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
-    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
-    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
-    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
-    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
-    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
-    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
-    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
-    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
-    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
-    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
-};
-
-class MultiplyHash {
-private:
-    unsigned width_;
-    uint64_t mask_;
-public:
-    explicit MultiplyHash(unsigned width=64) :
-        width_(width),
-        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
-
-    template<unsigned K>
-    uint64_t hash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash(uint64_t x) const {
-        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
-        return x;
-    }
-};
-
-class SplitMixHash {
-private:
-    Xorshift xorshift_;
-    MultiplyHash multiply_hash_;
-
-public:
-    explicit SplitMixHash(unsigned width=64) :
-        xorshift_(width), multiply_hash_(width) {}
-
-    uint64_t hash(uint64_t x) const {
-        x = hash_<0>(x);
-        x = hash_<1>(x);
-        x = hash_<2>(x);
-        return x;
-    }
-
-    uint64_t ihash(uint64_t x) const {
-        x = ihash_<2>(x);
-        x = ihash_<1>(x);
-        x = ihash_<0>(x);
-        return x;
-    }
-
-private:
-    template<unsigned K>
-    uint64_t hash_(uint64_t x) const {
-        x = xorshift_.hash<K>(x);
-        x = multiply_hash_.hash<K>(x);
-        return x;
-    }
-
-    template<unsigned K>
-    uint64_t ihash_(uint64_t x) const {
-        x = multiply_hash_.ihash<K>(x);
-        x = xorshift_.ihash<K>(x);
-        return x;
-    }
-};
-
-}
-
+#ifndef _SIM_DS_BIJECTIVE_HASH_
+#define _SIM_DS_BIJECTIVE_HASH_
+
+#include <cstdint>
+
+namespace sim_ds {
+
+class Xorshift {
+private:
+    unsigned shifts_;
+
+public:
+    explicit Xorshift(unsigned width=64) : shifts_((width+1)/2) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x ^ (x >> (shifts_+K)));
+        return x;
+    }
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        return hash<K>(x);
+    }
+
+};
+
+constexpr uint64_t PRIME_TABLE[][2][3] = {
+    {{0ULL, 0ULL, 0ULL}, {0ULL, 0ULL, 0ULL}},  // 0
+    {{1ULL, 1ULL, 1ULL}, {1ULL, 1ULL, 1ULL}},  // 1
+    {{3ULL, 1ULL, 3ULL}, {3ULL, 1ULL, 3ULL}},  // 2
+    {{7ULL, 5ULL, 3ULL}, {7ULL, 5ULL, 3ULL}},  // 3
+    {{13ULL, 11ULL, 7ULL}, {5ULL, 3ULL, 7ULL}},  // 4
+    {{31ULL, 29ULL, 23ULL}, {31ULL, 21ULL, 7ULL}},  // 5
+    {{61ULL, 59ULL, 53ULL}, {21ULL, 51ULL, 29ULL}},  // 6
+    {{127ULL, 113ULL, 109ULL}, {127ULL, 17ULL, 101ULL}},  // 7
+    {{251ULL, 241ULL, 239ULL}, {51ULL, 17ULL, 15ULL}},  // 8
+    {{509ULL, 503ULL, 499ULL}, {341ULL, 455ULL, 315ULL}},  // 9
+    {{1021ULL, 1019ULL, 1013ULL}, {341ULL, 819ULL, 93ULL}},  // 10
+    {{2039ULL, 2029ULL, 2027ULL}, {455ULL, 1509ULL, 195ULL}},  // 11
+    {{4093ULL, 4091ULL, 4079ULL}, {1365ULL, 819ULL, 3855ULL}},  // 12
+    {{8191ULL, 8179ULL, 8171ULL}, {8191ULL, 4411ULL, 4291ULL}},  // 13
+    {{16381ULL, 16369ULL, 16363ULL}, {5461ULL, 4369ULL, 12483ULL}},  // 14
+    {{32749ULL, 32719ULL, 32717ULL}, {13797ULL, 10031ULL, 1285ULL}},  // 15
+    {{65521ULL, 65519ULL, 65497ULL}, {4369ULL, 3855ULL, 36969ULL}},  // 16
+    {{131071ULL, 131063ULL, 131059ULL}, {131071ULL, 29127ULL, 110907ULL}},  // 17
+    {{262139ULL, 262133ULL, 262127ULL}, {209715ULL, 95325ULL, 200463ULL}},  // 18
+    {{524287ULL, 524269ULL, 524261ULL}, {524287ULL, 275941ULL, 271853ULL}},  // 19
+    {{1048573ULL, 1048571ULL, 1048559ULL}, {349525ULL, 209715ULL, 986895ULL}},  // 20
+    {{2097143ULL, 2097133ULL, 2097131ULL}, {1864135ULL, 1324517ULL, 798915ULL}},  // 21
+    {{4194301ULL, 4194287ULL, 4194277ULL}, {1398101ULL, 986895ULL, 3417581ULL}},  // 22
+    {{8388593ULL, 8388587ULL, 8388581ULL}, {1118481ULL, 798915ULL, 3417581ULL}},  // 23
+    {{16777213ULL, 16777199ULL, 16777183ULL}, {5592405ULL, 986895ULL, 15760415ULL}},  // 24
+    {{33554393ULL, 33554383ULL, 33554371ULL}, {17207401ULL, 31500079ULL, 15952107ULL}},  // 25
+    {{67108859ULL, 67108837ULL, 67108819ULL}, {53687091ULL, 62137837ULL, 50704475ULL}},  // 26
+    {{134217689ULL, 134217649ULL, 134217617ULL}, {17207401ULL, 113830225ULL, 82223473ULL}},  // 27
+    {{268435399ULL, 268435367ULL, 268435361ULL}, {131863031ULL, 96516119ULL, 186492001ULL}},  // 28
+    {{536870909ULL, 536870879ULL, 536870869ULL}, {357913941ULL, 32537631ULL, 274678141ULL}},  // 29
+    {{1073741789ULL, 1073741783ULL, 1073741741ULL}, {889671797ULL, 1047552999ULL, 349289509ULL}},  // 30
+    {{2147483647ULL, 2147483629ULL, 2147483587ULL}, {2147483647ULL, 1469330917ULL, 1056139499ULL}},  // 31
+    {{4294967291ULL, 4294967279ULL, 4294967231ULL}, {858993459ULL, 252645135ULL, 1057222719ULL}},  // 32
+    {{8589934583ULL, 8589934567ULL, 8589934543ULL}, {7635497415ULL, 1030792151ULL, 3856705327ULL}},  // 33
+    {{17179869143ULL, 17179869107ULL, 17179869071ULL}, {9637487591ULL, 11825104763ULL, 12618841967ULL}},  // 34
+    {{34359738337ULL, 34359738319ULL, 34359738307ULL}, {1108378657ULL, 21036574511ULL, 22530975979ULL}},  // 35
+    {{68719476731ULL, 68719476719ULL, 68719476713ULL}, {13743895347ULL, 64677154575ULL, 8963410009ULL}},  // 36
+    {{137438953447ULL, 137438953441ULL, 137438953427ULL}, {43980465111ULL, 35468117025ULL, 70246576219ULL}},  // 37
+    {{274877906899ULL, 274877906857ULL, 274877906837ULL}, {207685529691ULL, 41073710233ULL, 208085144509ULL}},  // 38
+    {{549755813881ULL, 549755813869ULL, 549755813821ULL}, {78536544841ULL, 347214198245ULL, 369238979477ULL}},  // 39
+    {{1099511627689ULL, 1099511627609ULL, 1099511627581ULL}, {315951617177ULL, 928330176745ULL, 343949791253ULL}},  // 40
+    {{2199023255531ULL, 2199023255521ULL, 2199023255497ULL}, {209430786243ULL, 1134979744801ULL, 1119502748281ULL}},  // 41
+    {{4398046511093ULL, 4398046511087ULL, 4398046511071ULL}, {1199467230301ULL, 3363212037903ULL, 3331853417503ULL}},  // 42
+    {{8796093022151ULL, 8796093022141ULL, 8796093022091ULL}, {8178823336439ULL, 918994793365ULL, 2405769031715ULL}},  // 43
+    {{17592186044399ULL, 17592186044299ULL, 17592186044297ULL}, {16557351571215ULL, 2405769031715ULL, 2365335938745ULL}},  // 44
+    {{35184372088777ULL, 35184372088763ULL, 35184372088751ULL}, {27507781814905ULL, 17847145262451ULL, 11293749065551ULL}},  // 45
+    {{70368744177643ULL, 70368744177607ULL, 70368744177601ULL}, {13403570319555ULL, 34567102403063ULL, 4467856773185ULL}},  // 46
+    {{140737488355213ULL, 140737488355201ULL, 140737488355181ULL}, {88113905752901ULL, 4432676798593ULL, 22020151239269ULL}},  // 47
+    {{281474976710597ULL, 281474976710591ULL, 281474976710567ULL}, {100186008659725ULL, 4330384257087ULL, 123342967322647ULL}},  // 48
+    {{562949953421231ULL, 562949953421201ULL, 562949953421189ULL}, {222399981598543ULL, 25358106009969ULL, 366146311168333ULL}},  // 49
+    {{1125899906842597ULL, 1125899906842589ULL, 1125899906842573ULL}, {667199944795629ULL, 289517118902389ULL, 286994093901061ULL}},  // 50
+    {{2251799813685119ULL, 2251799813685109ULL, 2251799813685083ULL}, {558586000294015ULL, 161999986596061ULL, 232003617167571ULL}},  // 51
+    {{4503599627370449ULL, 4503599627370353ULL, 4503599627370323ULL}, {3449565672028465ULL, 3558788516733329ULL, 3514369651416283ULL}},  // 52
+    {{9007199254740881ULL, 9007199254740847ULL, 9007199254740761ULL}, {2840107873116529ULL, 496948924399503ULL, 4991002184445225ULL}},  // 53
+    {{18014398509481951ULL, 18014398509481931ULL, 18014398509481853ULL}, {16922616781634591ULL, 13595772459986403ULL, 6600695637062101ULL}},  // 54
+    {{36028797018963913ULL, 36028797018963901ULL, 36028797018963869ULL}, {20962209174669945ULL, 20434243085382549ULL, 11645671763705525ULL}},  // 55
+    {{72057594037927931ULL, 72057594037927909ULL, 72057594037927889ULL}, {14411518807585587ULL, 18681598454277613ULL, 21463964181510449ULL}},  // 56
+    {{144115188075855859ULL, 144115188075855823ULL, 144115188075855811ULL}, {88686269585142075ULL, 44116894308935471ULL, 18900352534538475ULL}},  // 57
+    {{288230376151711687ULL, 288230376151711681ULL, 288230376151711607ULL}, {126416831645487607ULL, 18300341342965825ULL, 136751638320155207ULL}},  // 58
+    {{576460752303423263ULL, 576460752303423061ULL, 576460752303422971ULL}, {5124095576030431ULL, 2700050362076925ULL, 198471980483577139ULL}},  // 59
+    {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
+    {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
+    {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
+};
+
+class MultiplyHash {
+private:
+    unsigned width_;
+    uint64_t mask_;
+public:
+    explicit MultiplyHash(unsigned width=64) :
+        width_(width),
+        mask_(width < 64 ? (1ull<<width)-1 : ~0ll) {}
+
+    template<unsigned K>
+    uint64_t hash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][0][K]) & mask_;
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash(uint64_t x) const {
+        x = (x * PRIME_TABLE[width_][1][K]) & mask_;
+        return x;
+    }
+};
+
+class SplitMixHash {
+private:
+    Xorshift xorshift_;
+    MultiplyHash multiply_hash_;
+
+public:
+    explicit SplitMixHash(unsigned width=64) :
+        xorshift_(width), multiply_hash_(width) {}
+
+    uint64_t hash(uint64_t x) const {
+        x = hash_<0>(x);
+        x = hash_<1>(x);
+        x = hash_<2>(x);
+        return x;
+    }
+
+    uint64_t ihash(uint64_t x) const {
+        x = ihash_<2>(x);
+        x = ihash_<1>(x);
+        x = ihash_<0>(x);
+        return x;
+    }
+
+private:
+    template<unsigned K>
+    uint64_t hash_(uint64_t x) const {
+        x = xorshift_.hash<K>(x);
+        x = multiply_hash_.hash<K>(x);
+        return x;
+    }
+
+    template<unsigned K>
+    uint64_t ihash_(uint64_t x) const {
+        x = multiply_hash_.ihash<K>(x);
+        x = xorshift_.ihash<K>(x);
+        return x;
+    }
+};
+
+}
+
 #endif
\ No newline at end of file
diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 4d5f295..27dc4e2 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -1,272 +1,272 @@
-#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
-#define SIDS_INCLUDE_SIM_DS_CHT_H_
-
-#include "BijectiveHash.hpp"
-#include "FitVector.hpp"
-#include "bit_util.hpp"
-
-#include <bitset>
-
-namespace sim_ds {
-
-template <
-    unsigned ValueBits,
-    unsigned MaxLoadFactorPercent = 50,
-    typename BijectiveHash = SplitMixHash>
-class CHT {
-    static_assert(MaxLoadFactorPercent < 100);
-public:
-    static constexpr size_t kDefaultBucketSize = 8;
-    static constexpr unsigned kFlagBits = 4;
-    static constexpr uint64_t kOccupiedMask = 1u << 0;
-    static constexpr uint64_t kContinuationMask = 1u << 1;
-    static constexpr uint64_t kShiftedMask = 1u << 2;
-    static constexpr uint64_t kDeletedMask = 1u << 3;
-
-private:
-    unsigned key_bits_;
-    size_t bucket_size_;
-    unsigned bucket_bits_;
-    uint64_t bucket_mask_;
-    size_t max_size_;
-    size_t min_size_;
-    BijectiveHash hasher_;
-    FitVector arr_;
-    FitVector values_;
-    uint64_t quo_mask_;
-    size_t size_ = 0;
-    size_t used_ = 0;
-
-    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
-    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
-    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
-    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
-    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
-
-    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
-
-public:
-    CHT() = default;
-    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
-        key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
-        bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
-        values_(ValueBits, bucket_size_),
-        hasher_(key_bits_) {
-        assert(bit_util::popcnt(bucket_size) == 1);
-        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
-        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
-        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
-    }
-
-    void set_value_width(unsigned width) {
-        if (ValueBits != 0 or size() != 0)
-            throw std::bad_function_call();
-        values_ = FitVector(width, bucket());
-    }
-
-    size_t ToClusterHead(size_t i) const {
-        if (!IsShifted(i))
-            return i;
-        size_t t = 0;
-        do {
-            i = pred(i);
-            if (IsOccupied(i))
-                ++t;
-        } while (IsShifted(i));
-        while (t) {
-            i = succ(i);
-            if (!IsContinuation(i))
-                --t;
-        }
-        return i;
-    }
-
-    std::pair<bool, uint64_t> get(uint64_t key) const {
-        assert(64-bit_util::clz(key) <= key_bits_);
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t i = initial_h & bucket_mask_;
-        if (!IsOccupied(i))
-            return {false, 0};
-        i = ToClusterHead(i);
-        do {
-            if (Quotient(i) == quo and !IsDeleted(i)) {
-                return {true, values_[i]};
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-        return {false, 0};
-    }
-
-    bool IsFilled() const {
-        return used_ == max_size_;
-    }
-
-    void set(size_t key, uint64_t value) {
-        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
-        assert(64-bit_util::clz(value) <= values_.unit_width());
-
-        if (IsFilled()) {
-            reserve(std::max<size_t>(size()*2, 1));
-        }
-
-        uint64_t initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        size_t initial_i = initial_h & bucket_mask_;
-        auto i = ToClusterHead(initial_i);
-        if (IsOccupied(initial_i)) {
-            do {
-                if (Quotient(i) == quo) {
-                    if (IsDeleted(i)) {
-                        arr_[i] = arr_[i] & ~kDeletedMask;
-                        size_++;
-                    }
-                    values_[i] = value;
-                    return;
-                }
-                i = succ(i);
-            } while (IsContinuation(i));
-        }
-        if (!IsNull(i)) {
-            auto j = i;
-            do {
-                j = succ(j);
-            } while (!IsNull(j));
-            do {
-                auto pj = pred(j);
-                arr_[j] = (
-                    (arr_[j] & kOccupiedMask) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
-                    kShiftedMask
-                );
-                values_[j] = values_[pj];
-                j = pj;
-            } while (i != j);
-            assert(j == i);
-        }
-        if (!IsOccupied(initial_i)) { // New cluster
-            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                (i != initial_i ? kShiftedMask : 0)
-            );
-        } else { // Already exists cluster
-            arr_[i] = (
-                (arr_[i] & kOccupiedMask) |
-                (quo << kFlagBits) |
-                kContinuationMask |
-                kShiftedMask
-            );
-        }
-        ++size_;
-        ++used_;
-        values_[i] = value;
-    }
-
-    void erase(uint64_t key) {
-        if (size() == min_size_) {
-            reserve(size()*2);
-        }
-
-        auto initial_h = hasher_.hash(key);
-        auto quo = initial_h >> bucket_bits_;
-        auto initial_i = initial_h & bucket_mask_;
-        if (!IsOccupied(initial_i))
-            return;
-        auto i = ToClusterHead(initial_i);
-        do {
-            if (Quotient(i) == quo) {
-                if (!IsDeleted(i)) {
-                    arr_[i] = arr_[i] | kDeletedMask;
-                    size_--;
-                }
-                return;
-            }
-            i = succ(i);
-        } while (IsContinuation(i));
-    }
-
-    size_t succ(size_t i) const {
-        i++;
-        [[unlikely]] if (i == bucket())
-            i = 0;
-        return i;
-    }
-
-    size_t pred(size_t i) const {
-        [[unlikely]] if (i == 0)
-            return bucket()-1;
-        else
-            return i-1;
-    }
-
-    void print_for_debug() const {
-        int cnt=0;
-        for (int i = 0; i < bucket(); i++) {
-            std::cout << i << "] "
-                      << bool(arr_[i]&kOccupiedMask)
-                      << bool(arr_[i]&kContinuationMask)
-                      << bool(arr_[i]&kShiftedMask)
-                      << std::endl;
-            if (IsShifted(i))
-                ++cnt;
-        }
-        std::cout<<"cnt shifted: "<<cnt<<std::endl;
-    }
-
-    void reserve(size_t _size) {
-        if (_size <= size())
-            return;
-        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
-        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
-        _resize(1ull << new_bucket_bits);
-    }
-    
-    size_t size() const {return size_;}
-    size_t bucket() const {return bucket_size_;}
-
-private:
-    void _resize(size_t new_bucket_size) {
-        CHT next(key_bits_, new_bucket_size);
-        if (ValueBits == 0)
-            next.set_value_width(values_.unit_width());
-        size_t i = 0;
-        size_t cnt = 0;
-        while (cnt < used_) {
-            while (!(IsOccupied(i) and !IsShifted(i))) {
-                i = succ(i);
-            }
-            std::queue<uint64_t> qs;
-            uint64_t f;
-            do {
-                if (IsOccupied(i)) {
-                    qs.push(i);
-                }
-                if (!IsContinuation(i)) {
-                    assert(!qs.empty());
-                    f = qs.front();
-                    qs.pop();
-                }
-                if (!IsDeleted(i)) {
-                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
-                    x = hasher_.ihash(x);
-                    next.set(x, values_[i]);
-                }
-                cnt++;
-                i = succ(i);
-            } while (IsShifted(i));
-        }
-        *this = next;
-    }
-
-};
-
-}
-
-#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
+#ifndef SIDS_INCLUDE_SIM_DS_CHT_H_
+#define SIDS_INCLUDE_SIM_DS_CHT_H_
+
+#include "BijectiveHash.hpp"
+#include "FitVector.hpp"
+#include "bit_util.hpp"
+
+#include <bitset>
+
+namespace sim_ds {
+
+template <
+    unsigned ValueBits,
+    unsigned MaxLoadFactorPercent = 50,
+    typename BijectiveHash = SplitMixHash>
+class CHT {
+    static_assert(MaxLoadFactorPercent < 100);
+public:
+    static constexpr size_t kDefaultBucketSize = 8;
+    static constexpr unsigned kFlagBits = 4;
+    static constexpr uint64_t kOccupiedMask = 1u << 0;
+    static constexpr uint64_t kContinuationMask = 1u << 1;
+    static constexpr uint64_t kShiftedMask = 1u << 2;
+    static constexpr uint64_t kDeletedMask = 1u << 3;
+
+private:
+    unsigned key_bits_;
+    size_t bucket_size_;
+    unsigned bucket_bits_;
+    uint64_t bucket_mask_;
+    size_t max_size_;
+    size_t min_size_;
+    BijectiveHash hasher_;
+    FitVector arr_;
+    FitVector values_;
+    uint64_t quo_mask_;
+    size_t size_ = 0;
+    size_t used_ = 0;
+
+    bool IsOccupied(size_t i) const { return arr_[i] & kOccupiedMask; }
+    bool IsContinuation(size_t i) const { return arr_[i] & kContinuationMask; }
+    bool IsShifted(size_t i) const { return arr_[i] & kShiftedMask; }
+    bool IsDeleted(size_t i) const { return arr_[i] & kDeletedMask; }
+    bool IsNull(size_t i) const { return (arr_[i] % (1ull<<kFlagBits)) == 0; }
+
+    uint64_t Quotient(size_t i) const { return (arr_[i] & quo_mask_) >> kFlagBits; }
+
+public:
+    CHT() = default;
+    explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
+        key_bits_(key_bits),
+        bucket_size_(bucket_size),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        bucket_mask_((1ull<<bucket_bits_)-1),
+        max_size_(bucket_size*MaxLoadFactorPercent/100),
+        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        values_(ValueBits, bucket_size_),
+        hasher_(key_bits_) {
+        assert(bit_util::popcnt(bucket_size) == 1);
+        unsigned quo_bits = std::max(0, (int)key_bits - (int)bucket_bits_);
+        arr_ = FitVector(quo_bits + kFlagBits, bucket_size_);
+        quo_mask_ = ((1ull << quo_bits)-1) << kFlagBits;
+    }
+
+    void set_value_width(unsigned width) {
+        if (ValueBits != 0 or size() != 0)
+            throw std::bad_function_call();
+        values_ = FitVector(width, bucket());
+    }
+
+    size_t ToClusterHead(size_t i) const {
+        if (!IsShifted(i))
+            return i;
+        size_t t = 0;
+        do {
+            i = pred(i);
+            if (IsOccupied(i))
+                ++t;
+        } while (IsShifted(i));
+        while (t) {
+            i = succ(i);
+            if (!IsContinuation(i))
+                --t;
+        }
+        return i;
+    }
+
+    std::pair<bool, uint64_t> get(uint64_t key) const {
+        assert(64-bit_util::clz(key) <= key_bits_);
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t i = initial_h & bucket_mask_;
+        if (!IsOccupied(i))
+            return {false, 0};
+        i = ToClusterHead(i);
+        do {
+            if (Quotient(i) == quo and !IsDeleted(i)) {
+                return {true, values_[i]};
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+        return {false, 0};
+    }
+
+    bool IsFilled() const {
+        return used_ == max_size_;
+    }
+
+    void set(size_t key, uint64_t value) {
+        assert(64-bit_util::clz((uint64_t)key) <= key_bits_);
+        assert(64-bit_util::clz(value) <= values_.unit_width());
+
+        if (IsFilled()) {
+            reserve(std::max<size_t>(size()*2, 1));
+        }
+
+        uint64_t initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        size_t initial_i = initial_h & bucket_mask_;
+        auto i = ToClusterHead(initial_i);
+        if (IsOccupied(initial_i)) {
+            do {
+                if (Quotient(i) == quo) {
+                    if (IsDeleted(i)) {
+                        arr_[i] = arr_[i] & ~kDeletedMask;
+                        size_++;
+                    }
+                    values_[i] = value;
+                    return;
+                }
+                i = succ(i);
+            } while (IsContinuation(i));
+        }
+        if (!IsNull(i)) {
+            auto j = i;
+            do {
+                j = succ(j);
+            } while (!IsNull(j));
+            do {
+                auto pj = pred(j);
+                arr_[j] = (
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
+                    kShiftedMask
+                );
+                values_[j] = values_[pj];
+                j = pj;
+            } while (i != j);
+            assert(j == i);
+        }
+        if (!IsOccupied(initial_i)) { // New cluster
+            arr_[initial_i] = arr_[initial_i] | kOccupiedMask;
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                (i != initial_i ? kShiftedMask : 0)
+            );
+        } else { // Already exists cluster
+            arr_[i] = (
+                (arr_[i] & kOccupiedMask) |
+                (quo << kFlagBits) |
+                kContinuationMask |
+                kShiftedMask
+            );
+        }
+        ++size_;
+        ++used_;
+        values_[i] = value;
+    }
+
+    void erase(uint64_t key) {
+        if (size() == min_size_) {
+            reserve(size()*2);
+        }
+
+        auto initial_h = hasher_.hash(key);
+        auto quo = initial_h >> bucket_bits_;
+        auto initial_i = initial_h & bucket_mask_;
+        if (!IsOccupied(initial_i))
+            return;
+        auto i = ToClusterHead(initial_i);
+        do {
+            if (Quotient(i) == quo) {
+                if (!IsDeleted(i)) {
+                    arr_[i] = arr_[i] | kDeletedMask;
+                    size_--;
+                }
+                return;
+            }
+            i = succ(i);
+        } while (IsContinuation(i));
+    }
+
+    size_t succ(size_t i) const {
+        i++;
+        [[unlikely]] if (i == bucket())
+            i = 0;
+        return i;
+    }
+
+    size_t pred(size_t i) const {
+        [[unlikely]] if (i == 0)
+            return bucket()-1;
+        else
+            return i-1;
+    }
+
+    void print_for_debug() const {
+        int cnt=0;
+        for (int i = 0; i < bucket(); i++) {
+            std::cout << i << "] "
+                      << bool(arr_[i]&kOccupiedMask)
+                      << bool(arr_[i]&kContinuationMask)
+                      << bool(arr_[i]&kShiftedMask)
+                      << std::endl;
+            if (IsShifted(i))
+                ++cnt;
+        }
+        std::cout<<"cnt shifted: "<<cnt<<std::endl;
+    }
+
+    void reserve(size_t _size) {
+        if (_size <= size())
+            return;
+        auto need_size = _size * (100-1)/MaxLoadFactorPercent+1;
+        auto new_bucket_bits = 64-bit_util::clz((uint64_t)need_size-1);
+        _resize(1ull << new_bucket_bits);
+    }
+    
+    size_t size() const {return size_;}
+    size_t bucket() const {return bucket_size_;}
+
+private:
+    void _resize(size_t new_bucket_size) {
+        CHT next(key_bits_, new_bucket_size);
+        if (ValueBits == 0)
+            next.set_value_width(values_.unit_width());
+        size_t i = 0;
+        size_t cnt = 0;
+        while (cnt < used_) {
+            while (!(IsOccupied(i) and !IsShifted(i))) {
+                i = succ(i);
+            }
+            std::queue<uint64_t> qs;
+            uint64_t f;
+            do {
+                if (IsOccupied(i)) {
+                    qs.push(i);
+                }
+                if (!IsContinuation(i)) {
+                    assert(!qs.empty());
+                    f = qs.front();
+                    qs.pop();
+                }
+                if (!IsDeleted(i)) {
+                    uint64_t x = (Quotient(i) << bucket_bits_) | f;
+                    x = hasher_.ihash(x);
+                    next.set(x, values_[i]);
+                }
+                cnt++;
+                i = succ(i);
+            } while (IsShifted(i));
+        }
+        *this = next;
+    }
+
+};
+
+}
+
+#endif //SIDS_INCLUDE_SIM_DS_CHT_H_
-- 
2.43.0


From 0eb21ac2dece77a17b505d147c2ce5d1d2d510bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:47 +0000
Subject: [PATCH 53/74] fix: include the standard headers that calc, log,
 InitializableArray and CHT use

---
 include/sim_ds/CHT.hpp                | 3 +++
 include/sim_ds/InitializableArray.hpp | 7 +++++++
 include/sim_ds/calc.hpp               | 7 +++++++
 include/sim_ds/log.hpp                | 1 +
 4 files changed, 18 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 27dc4e2..2ab1274 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -6,6 +6,9 @@
 #include "bit_util.hpp"
 
 #include <bitset>
+#include <functional>
+#include <iostream>
+#include <queue>
 
 namespace sim_ds {
 
diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 801f67f..fecf492 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -4,8 +4,15 @@
 #include <array>
 #include <vector>
 #include <bitset>
+#include <cassert>
+#include <cstddef>
+#include <cstring>
+#include <iostream>
+#include <iterator>
+#include <limits>
 #include <numeric>
 #include <type_traits>
+#include <utility>
 
 namespace sim_ds {
 
diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 172c66b..b0fd0ac 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -8,6 +8,13 @@
 #ifndef calc_hpp
 #define calc_hpp
 
+#include <algorithm>
+#include <cstddef>
+#include <cstdint>
+#include <iostream>
+#include <iterator>
+#include <limits>
+#include <utility>
 #include <vector>
 
 namespace sim_ds::calc {
diff --git a/include/sim_ds/log.hpp b/include/sim_ds/log.hpp
index 60c380c..473d3e0 100644
--- a/include/sim_ds/log.hpp
+++ b/include/sim_ds/log.hpp
@@ -10,6 +10,7 @@
 
 #include <cstdio>
 #include <iomanip>
+#include <iostream>
 
 namespace sim_ds {
     
-- 
2.43.0


From 26c410109ce163b7f112684ccddb517981b09085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 54/74] fix: one definition of each function in programs of
 several translation units

---
 include/sim_ds/DacVector.hpp                  |  2 +-
 include/sim_ds/SuccinctBitVector.hpp          |  4 +--
 include/sim_ds/bit_util256.hpp                |  4 +--
 .../sim_ds/string_util/PatternMatching.hpp    | 34 +++++++++----------
 include/sim_ds/string_util/SuffixArray.hpp    |  6 ++--
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 2d9cf56..8f028c7 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -298,7 +298,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         paths_.emplace_back(std::move(path));
 }
 
-DacVector::value_type DacVector::operator[](size_t index) const {
+inline DacVector::value_type DacVector::operator[](size_t index) const {
     value_type value = layers_[0][index];
     for (size_t depth = 1, shift_bits = layers_unit_bits_[depth - 1], i = index;
          depth < num_layers();
diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 8e1aa2c..55d413c 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -138,13 +138,13 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
 
 
 template <>
-size_t
+inline size_t
 SuccinctBitVector<false>::select([[maybe_unused]] size_t index) const {
     throw "select(size_t) is not supported. You must use SuccinctBitVector<true>.";
 }
 
 template <>
-size_t
+inline size_t
 SuccinctBitVector<true>::select(size_t index) const {
     size_t left = 0, right = num_blocks();
     size_t i = index;
diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index 071f971..a551aca 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -83,7 +83,7 @@ inline int clz256(const uint64_t* x_addr) {
 
 // MARK: - xor_map
 
-void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
+inline void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
     for (int i = 0; i < 4; i++)
         *(dst_addr+i) = *(x_addr+i);
     if (mask & 1) {
@@ -133,7 +133,7 @@ void xor_map(const uint64_t* x_addr, uint8_t mask, uint64_t* dst_addr) {
 }
 
 #if defined(__AVX2__)
-__m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
+inline __m256i xor_map_intrinsics(__m256i x, uint8_t mask) {
     if (mask & 1) {
         x = _mm256_or_si256(_mm256_slli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0x5555555555555555)), 1),
                             _mm256_srli_epi64(_mm256_and_si256(x, _mm256_set1_epi64x(0xAAAAAAAAAAAAAAAA)), 1));
diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 4db5ead..5220d33 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -22,7 +22,7 @@ public:
     virtual ~_PatternMatchingInterface();
     virtual std::vector<size_t> find_all(std::string_view text) const = 0;
 };
-_PatternMatchingInterface::~_PatternMatchingInterface() {}
+inline _PatternMatchingInterface::~_PatternMatchingInterface() {}
 
 class _PatternMatchingBase : protected _PatternMatchingInterface {
 public:
@@ -34,7 +34,7 @@ public:
     ~_PatternMatchingBase();
     size_t key_size() const {return key_.size();}
 };
-_PatternMatchingBase::~_PatternMatchingBase() {}
+inline _PatternMatchingBase::~_PatternMatchingBase() {}
 
 
 // MARK: Simple
@@ -47,7 +47,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Simple::find_all(std::string_view text) const {
     std::vector<size_t> matchies;
     if (text.size() < key_.size())
@@ -91,7 +91,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Kmp::find_all(std::string_view text) const {
     std::vector<size_t> matchies;
     difference_type pos = 0;
@@ -127,7 +127,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Bm::find_all(std::string_view text) const {
     const size_t kWindowSize = key_.size();
     
@@ -161,7 +161,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 Bom::find_all(std::string_view text) const {
     const long long kWindowSize = key_.size();
     
@@ -210,7 +210,7 @@ private:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 TurboBom::find_all(std::string_view text) const {
     const long long kWindowSize = key_.size();
     const long long kKmpWindowSize = kAlpha * kWindowSize;
@@ -275,7 +275,7 @@ public:
     const Pat* ordered_pattern(size_t num) const {return &pattern_[num];}
     
 };
-Sunday::~Sunday() {}
+inline Sunday::~Sunday() {}
 
 
 class SundayQS : public Sunday {
@@ -297,7 +297,7 @@ public:
  
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
@@ -369,7 +369,7 @@ public:
     
 };
 
-std::vector<size_t>
+inline std::vector<size_t>
 SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
@@ -393,31 +393,31 @@ SundayMS::find_all(std::string_view text) const {
 
 // MARK: - Pattern matching functions
 
-std::vector<size_t> PatternMatchSimple(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSimple(std::string_view text, std::string_view key) {
     return Simple(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchKMP(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchKMP(std::string_view text, std::string_view key) {
     return Kmp(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchBM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchBM(std::string_view text, std::string_view key) {
     return Bm(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchBOM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchBOM(std::string_view text, std::string_view key) {
     return Bom(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchTurboBOM(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchTurboBOM(std::string_view text, std::string_view key) {
     return TurboBom(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchSundayQS(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSundayQS(std::string_view text, std::string_view key) {
     return SundayQS(key).find_all(text);
 }
 
-std::vector<size_t> PatternMatchSundayMS(std::string_view text, std::string_view key) {
+inline std::vector<size_t> PatternMatchSundayMS(std::string_view text, std::string_view key) {
     return SundayMS(key).find_all(text);
 }
 
diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 5ae4eb4..9b13886 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -128,7 +128,7 @@ private:
     
 };
 
-void SuffixArray::BuildSA_(const string &str) {
+inline void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
@@ -139,7 +139,7 @@ void SuffixArray::BuildSA_(const string &str) {
 }
 
 
-void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
+inline void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
         saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the sentinel
@@ -147,7 +147,7 @@ void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
 }
 
 
-void SuffixArray::MakeBuckets_(vector<Bucket> &buckets, const vector<size_t> &str, size_t maxValue) const {
+inline void SuffixArray::MakeBuckets_(vector<Bucket> &buckets, const vector<size_t> &str, size_t maxValue) const {
     buckets.resize(maxValue + 1);
     for (auto s : str) {
         buckets[s].count++;
-- 
2.43.0


From 64e491061fa660fd7ec269e68cd1fc42fc52a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 55/74] fix: BitVector of an int length

---
 include/sim_ds/BitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/BitVector.hpp b/include/sim_ds/BitVector.hpp
index 1891ce1..5822418 100644
--- a/include/sim_ds/BitVector.hpp
+++ b/include/sim_ds/BitVector.hpp
@@ -164,7 +164,7 @@ public:
         std::transform(bits.begin(), bits.end(), _base::_make_iter(0), [](bool b) {return b;});
     }
 
-    template <typename BitArray>
+    template <typename BitArray, typename = decltype(std::declval<const BitArray&>().size())>
     BitVector(const BitArray& bits) : _base(bits.size()) {
         std::transform(bits.begin(), bits.end(), _base::_make_iter(0), [](auto b) {return bool(b);});
     }
-- 
2.43.0


From 47d81b9cb76eae51ace94d05bff027da659f57fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 56/74] fix: folklore array of a length and a value of the same
 type

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index fecf492..eee994b 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -28,7 +28,7 @@ private:
 public:
     explicit InitializableArrayFolklore(size_t size = 0, T val = T()) : init_v_(val), fv_(size), t_() {};
     
-    template <typename It>
+    template <typename It, typename = typename std::iterator_traits<It>::value_type>
     explicit InitializableArrayFolklore(It begin, It end) : InitializableArrayFolklore(end - begin) {
         static_assert(std::is_convertible_v<typename std::iterator_traits<It>::value_type, T>);
         for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From 1e79ed9ec7034e2bfa2c852c196395f620274481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 57/74] fix: iterators and element assignment of
 InitializableArray

---
 include/sim_ds/InitializableArray.hpp | 54 ++++++++++++++++++---------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index eee994b..7cfd401 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -265,6 +265,8 @@ public:
             arr_.set(i_, val);
             return *this;
         }
+        reference(const reference &) = default;
+        reference& operator=(const reference &rhs) { return *this = T(rhs); }
     };
     
     const_reference operator[](size_t i) const { return const_reference(*this, i); }
@@ -273,37 +275,53 @@ public:
     
 private:
     template <bool IsConst>
-    class _iterator : public std::iterator<std::random_access_iterator_tag, T> {
-        using _base = std::iterator<std::random_access_iterator_tag, T>;
+    class _iterator {
     public:
-        using ptrdiff_t = typename _base::ptrdiff_t;
-        using reference_type = std::conditional_t<IsConst, const_reference, reference>;
+        using iterator_category = std::random_access_iterator_tag;
+        using value_type = T;
+        using difference_type = ptrdiff_t;
+        using pointer = void;
+        using reference = std::conditional_t<IsConst, const_reference, typename _InitializableArray::reference>;
     private:
-        const _InitializableArray &arr_;
-        size_t i_;
+        using _array_type = std::conditional_t<IsConst, const _InitializableArray, _InitializableArray>;
+        _array_type *arr_ = nullptr;
+        size_t i_ = 0;
         friend class _InitializableArray;
-        _iterator(const _InitializableArray &arr, size_t i) : arr_(arr), i_(i) {}
+        friend class _iterator<!IsConst>;
+        _iterator(_array_type &arr, size_t i) : arr_(&arr), i_(i) {}
     public:
-        reference_type operator*() const { return reference_type(arr_, i_); }
+        _iterator() = default;
+        template <bool C, typename = std::enable_if_t<IsConst and not C>>
+        _iterator(const _iterator<C> &it) : arr_(it.arr_), i_(it.i_) {}
+        reference operator*() const { return (*arr_)[i_]; }
+        reference operator[](ptrdiff_t x) const { return (*arr_)[i_ + x]; }
         _iterator& operator++() { ++i_; return *this; }
         _iterator operator++(int) { auto c = *this; ++(*this); return c; }
         _iterator& operator--() { --i_; return *this; }
         _iterator operator--(int) { auto c = *this; --(*this); return c; }
-        _iterator operator+(ptrdiff_t x) const { return _iterator(arr_, i_ + x); }
-        _iterator& operator+=(ptrdiff_t x) { return *this = *this + x; }
-        _iterator operator-(ptrdiff_t x) const { return *this + -x; }
-        _iterator& operator-=(ptrdiff_t x) { return *this = *this - x; }
+        _iterator& operator+=(ptrdiff_t x) { i_ += x; return *this; }
+        _iterator& operator-=(ptrdiff_t x) { i_ -= x; return *this; }
+        _iterator operator+(ptrdiff_t x) const { auto c = *this; return c += x; }
+        friend _iterator operator+(ptrdiff_t x, const _iterator &it) { return it + x; }
+        _iterator operator-(ptrdiff_t x) const { auto c = *this; return c -= x; }
+        ptrdiff_t operator-(const _iterator &r) const { return (ptrdiff_t)i_ - (ptrdiff_t)r.i_; }
+        bool operator==(const _iterator &r) const { return i_ == r.i_; }
+        bool operator!=(const _iterator &r) const { return i_ != r.i_; }
+        bool operator<(const _iterator &r) const { return i_ < r.i_; }
+        bool operator>(const _iterator &r) const { return i_ > r.i_; }
+        bool operator<=(const _iterator &r) const { return i_ <= r.i_; }
+        bool operator>=(const _iterator &r) const { return i_ >= r.i_; }
     };
 public:
     using const_iterator = _iterator<true>;
     using iterator = _iterator<false>;
     
-    const_iterator begin() const { return _iterator(*this, 0); }
-    const_iterator end() const { return _iterator(*this, Size); }
-    iterator begin() { return _iterator(*this, 0); }
-    iterator end() { return _iterator(*this, Size); }
-    const_iterator cbegin() const { return _iterator(*this, 0); }
-    const_iterator cend() const { return _iterator(*this, Size); }
+    const_iterator begin() const { return const_iterator(*this, 0); }
+    const_iterator end() const { return const_iterator(*this, Size); }
+    iterator begin() { return iterator(*this, 0); }
+    iterator end() { return iterator(*this, Size); }
+    const_iterator cbegin() const { return const_iterator(*this, 0); }
+    const_iterator cend() const { return const_iterator(*this, Size); }
     
 };
 
-- 
2.43.0


From 57692f43f7b66dfd2647777c5b920aee192d037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 58/74] fix: MultipleVector without fields is empty

---
 include/sim_ds/MultipleVector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 74ed94b..82a2dec 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -248,6 +248,8 @@ public:
     }
     
     size_t block_size() const {
+        if (element_table_.empty())
+            return 0;
         auto& elem_back = element_table_.back();
         return elem_back.pos + elem_back.size;
     }
@@ -257,7 +259,8 @@ public:
     }
     
     size_t size() const {
-        return bytes_.size() / block_size();
+        auto block = block_size();
+        return block == 0 ? 0 : bytes_.size() / block;
     }
     
     reference block(size_t index) {
-- 
2.43.0


From dd5044bfb7792c1d8063f248dcc9ea733e0eadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 59/74] fix: a default constructed Samc or SamcDict holds no
 key

---
 include/sim_ds/string_util/Samc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 49b3b89..e85f565 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -319,6 +319,8 @@ private:
 template <typename CodeType, bool LegacyBuild>
 bool
 Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
+  if (_base::code_table_.empty()) // Nothing was built or read.
+    return false;
   size_t node = 0;
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
@@ -444,6 +446,8 @@ private:
 template <typename CodeType>
 size_t
 SamcDict<CodeType>::lookup(std::string_view key) const {
+  if (_base::code_table_.empty()) // Nothing was built or read.
+    return kSearchError;
   size_t node = 0;
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
-- 
2.43.0


From 82187d3b6dde9043327ef93c7ade9058640133e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 60/74] fix: cumulative bit-length counts of lists over 2^31
 elements overflowed

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index b0fd0ac..2312f6a 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -71,7 +71,7 @@ inline void cummulative_frequency_list(const Container& list, std::vector<T>* re
     std::vector<size_t> cf;
     std::vector<size_t> map;
     bit_length_frequencies(list, &map);
-    auto count = 0;
+    size_t count = 0;
     cf.assign(map.size(), 0);
     for (auto i = map.size(); i > 0; i--) {
         count += map[i - 1];
-- 
2.43.0


From f709b5940937dc6765b4cde024af7bd45c0a3fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:05 +0000
Subject: [PATCH 61/74] fix: wavelet trees over 2^31 symbols counted them with
 an int

---
 include/sim_ds/WaveletTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 6f47dfe..e38c28f 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -39,7 +39,7 @@ public:
         bv_list_src_.resize((1U << height) - 1);
         height_ = height;
         
-        for (auto i = 0; i < vec.size(); i++) {
+        for (size_t i = 0; i < vec.size(); i++) {
             auto id = 1;
             auto value = vec[i];
             for (size_t depth = 0; depth < height_; depth++) {
-- 
2.43.0


From e7c9dbbd8250245ddafddb8518072df519a9b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 62/74] fix: a hash table that shrinks gives its memory back

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 2ab1274..72da68f 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -265,7 +265,7 @@ private:
                 i = succ(i);
             } while (IsShifted(i));
         }
-        *this = next;
+        *this = std::move(next);
     }
 
 };
-- 
2.43.0


From bba666fa0f95e81aef468c56254911c915a1cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 63/74] fix: a rewritable vector that shrinks gives its memory
 back

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 88fd1b8..45f5242 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -124,7 +124,7 @@ private:
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-        arr_ = next;
+        arr_ = std::move(next);
         cap_ = new_cap;
     }
 
-- 
2.43.0


From f98daaa4e537ce85b00ffdd09329ee81a2651f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 64/74] fix: in-place initialisable arrays of elements wider
 than a link

---
 include/sim_ds/InitializableArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 7cfd401..832f809 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -88,6 +88,8 @@ class _InitializableArray<T, Size, true> {
 public:
     static constexpr size_t kActualSize = Size + (Size % 2);
     static constexpr size_t kNoneBlock = kActualSize/2;
+    // An element may be wider than a link.
+    static constexpr size_t kLinkBytes = sizeof(T) < sizeof(size_t) ? sizeof(T) : sizeof(size_t);
     
     using value_type = T;
 private:
@@ -182,12 +184,12 @@ public:
 private:
     size_t _to(size_t i) const {
         size_t res = 0;
-        memcpy(&res, &a_[i], sizeof(T));
+        memcpy(&res, &a_[i], kLinkBytes);
         return res;
     }
     
     void _set_to(size_t i, size_t b) {
-        memcpy(&a_[i], &b, sizeof(T));
+        memcpy(&a_[i], &b, kLinkBytes);
     }
     
     size_t _chained_to(size_t b) const {
-- 
2.43.0


From 034658c57ba648c181375de134d9cf36eb44a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 65/74] fix: a depth first walk of a trie of very long keys
 overflowed the call stack

---
 include/sim_ds/string_util/graph_util.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index 15b90a7..3a9075a 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -132,11 +132,19 @@ public:
     
     template <class NODE_ACTION>
     void dfs(size_t node, size_t depth, NODE_ACTION node_action) const {
-        auto& n = container_[node];
-        node_action(n, depth);
-        n.for_each_edge([&](auto c, auto target) {
-            dfs(target, depth+1, node_action);
-        });
+        // Keys can be longer than the call stack is deep.
+        std::vector<std::pair<size_t, size_t>> nodes = {{node, depth}};
+        while (not nodes.empty()) {
+            auto [index, d] = nodes.back();
+            nodes.pop_back();
+            auto& n = container_[index];
+            node_action(n, d);
+            const auto first = nodes.size();
+            n.for_each_edge([&nodes, next = d+1](auto, auto target) {
+                nodes.emplace_back(target, next);
+            });
+            std::reverse(nodes.begin()+first, nodes.end());
+        }
     }
     
     template <class NODE_ACTION>
-- 
2.43.0


From 9f88262babebc46fd48fc19d841e494a1b2d5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:37 +0000
Subject: [PATCH 66/74] fix: a hash table at its lower limit was rebuilt to the
 same size by every erase

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 72da68f..dc0d9b9 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -56,7 +56,7 @@ public:
         bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
         bucket_mask_((1ull<<bucket_bits_)-1),
         max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        min_size_(bucket_size*MaxLoadFactorPercent/404),
         values_(ValueBits, bucket_size_),
         hasher_(key_bits_) {
         assert(bit_util::popcnt(bucket_size) == 1);
-- 
2.43.0


From 151d3468fda76c9db1225a9f9986e62bbfbd74c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 67/74] fix: recursive dropped the result of the function

---
 include/sim_ds/basic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index dafa91b..56f9814 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -125,8 +125,8 @@ inline size_t size_vec(const std::vector<T, A>& vec) {
 
 template <class Function>
 auto recursive(Function rec) {
-    return [rec](auto&&... args) {
-        rec(rec, std::forward<decltype(args)>(args)...);
+    return [rec](auto&&... args) -> decltype(auto) {
+        return rec(rec, std::forward<decltype(args)>(args)...);
     };
 }
 
-- 
2.43.0


From 11cb18b1db0a089500284b6b6f39c6dcc26cd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:05 +0000
Subject: [PATCH 68/74] fix: swap_pi8 and swap_pi16 leave the floating-point
 registers as they were

---
 include/sim_ds/bit_util.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 7ef27d7..0412d82 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -553,21 +553,11 @@ inline uint64_t swap_pi4(uint64_t x) {
 }
 
 inline uint64_t swap_pi8(uint64_t x) {
-#ifdef __MMX__
-    auto xx = (__m64) x;
-    return (uint64_t) _mm_or_si64(_mm_slli_pi16(xx, 8), _mm_srli_pi16(xx, 8));
-#else
     return ((x & 0xFF00FF00FF00FF00) >> 8) | ((x & 0x00FF00FF00FF00FF) << 8);
-#endif
 }
 
 inline uint64_t swap_pi16(uint64_t x) {
-#ifdef __MMX__
-    auto xx = (__m64) x;
-    return (uint64_t) _mm_or_si64(_mm_slli_pi32(xx, 16), _mm_srli_pi32(xx, 16));
-#else
     return ((x & 0xFFFF0000FFFF0000) >> 16) | ((x & 0x0000FFFF0000FFFF) << 16);
-#endif
 }
 
 inline uint64_t swap_pi32(uint64_t x) {
-- 
2.43.0


From 3099e90aea34430409ab3d617ec4cfbf8e3f0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:14 +0000
Subject: [PATCH 69/74] fix: SizeFitsAsList stops at a width of 64 bits or more

---
 include/sim_ds/calc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 2312f6a..5140498 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -44,7 +44,10 @@ inline constexpr size_t SizeFitsInBits(unsigned long long value) {
 template <typename Container>
 inline size_t SizeFitsAsList(unsigned long long value, const Container sizes) {
     size_t size = 0;
-    while (static_cast<bool>(value >>= sizes[size++])) continue;
+    do {
+        value = sizes[size] < 64 ? value >> sizes[size] : 0;
+        size++;
+    } while (static_cast<bool>(value));
     return size;
 }
 
-- 
2.43.0


From 29f7fecdf2260f1b23fb6e13a1e24d8446a145c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:19 +0000
Subject: [PATCH 70/74] fix: DacVector with a layer of 64 bits and others
 behind it

---
 include/sim_ds/DacVector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 8f028c7..1da447e 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -278,10 +278,14 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         }
     }
     
+    // A layer can be as wide as a value.
+    auto upper = [](value_type x, size_t width) -> value_type {
+        return width < layer_type::kBitsPerWord ? x >> width : 0;
+    };
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = upper(x, layers_unit_bits_[0]);
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -289,7 +293,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = upper(x, unit_bits);
         }
     }
     
-- 
2.43.0


From 0bb5ce710f979073ea192e60c67e01cef236ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:24 +0000
Subject: [PATCH 71/74] fix: WaveletTree of signed bytes over 127

---
 include/sim_ds/WaveletTree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index e38c28f..e093d20 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -31,7 +31,12 @@ public:
     WaveletTree(const std::vector<T>& vec) {
         if (vec.empty()) return;
         
-        size_t max_char = *std::max_element(vec.begin(), vec.end());
+        // A byte is a symbol of 0..255 whether or not its type is signed.
+        auto symbol = [](T v) -> size_t {
+            return sizeof(T) == 1 ? static_cast<uint8_t>(v) : v;
+        };
+        size_t max_char = 0;
+        for (auto v : vec) max_char = std::max(max_char, symbol(v));
         leafs_ = max_char + 1;
         
         auto height = calc::SizeFitsInBits(max_char);
@@ -41,7 +46,7 @@ public:
         
         for (size_t i = 0; i < vec.size(); i++) {
             auto id = 1;
-            auto value = vec[i];
+            auto value = symbol(vec[i]);
             for (size_t depth = 0; depth < height_; depth++) {
                 auto bit = (value >> (height_ - 1 - depth)) & 1U;
                 bv_list_src_[id - 1].push_back(bit);
-- 
2.43.0


From 610e1753700aaf4cbfa09fdd3cc8b793d4d2f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:29 +0000
Subject: [PATCH 72/74] fix: MultiBitVector stores no uninitialised bytes

---
 include/sim_ds/MultiBitVector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/MultiBitVector.hpp b/include/sim_ds/MultiBitVector.hpp
index b3779d3..1dfd992 100644
--- a/include/sim_ds/MultiBitVector.hpp
+++ b/include/sim_ds/MultiBitVector.hpp
@@ -32,7 +32,8 @@ private:
     std::vector<id_type> bits_;
     struct RankTip {
         id_type L1;
-        uint8_t L2[kBlocksInTipSize];
+        // Fills whole words, so that no padding is left to be stored.
+        uint8_t L2[(kBlocksInTipSize + 7) / 8 * 8];
     };
     std::vector<RankTip> rank_tips_[kMaxNumTypes];
     
-- 
2.43.0


From 1c3b3c55aaf40b01068bde4057aef3b823b8b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:36 +0000
Subject: [PATCH 73/74] fix: sim_ds.hpp included a header that does not exist

---
 include/sim_ds.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds.hpp b/include/sim_ds.hpp
index 20867e9..32a1cc4 100644
--- a/include/sim_ds.hpp
+++ b/include/sim_ds.hpp
@@ -20,7 +20,6 @@
 #include "sim_ds/string_util/PatternMatching.hpp"
 #include "sim_ds/string_util/graph_util.hpp"
 #include "sim_ds/string_util/Samc.hpp"
-#include "sim_ds/EmptyLinkedVector.hpp"
 #include "sim_ds/InitializableArray.hpp"
 #include "sim_ds/bit_util.hpp"
 #include "sim_ds/bit_util256.hpp"
-- 
2.43.0


From 3e24930a399704cce099385288c662e24f0d03de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:55 +0000
Subject: [PATCH 74/74] fix: iterators of directly addressable codes could not
 be assigned, nor given to standard algorithms

---
 include/sim_ds/DacVector.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 1da447e..d40ec5b 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -16,6 +16,7 @@
 #include "calc.hpp"
 #include <stdexcept>
 #include <cstdlib>
+#include <iterator>
 
 namespace sim_ds {
     
@@ -25,14 +26,20 @@ class IndexConstIterator {
 public:
     using value_type = typename Sequence::value_type;
     using differencce_type = typename Sequence::difference_type;
+    using difference_type = differencce_type;
+    using reference = value_type;
+    using pointer = void;
+    using iterator_category = std::random_access_iterator_tag;
     
 private:
-    const Sequence& source_;
-    size_t pos_;
+    const Sequence* source_ = nullptr;
+    size_t pos_ = 0;
     
 public:
+    IndexConstIterator() = default;
+    
     value_type operator*() const {
-        return source_[pos_];
+        return (*source_)[pos_];
     }
     
     IndexConstIterator& operator++() {
@@ -97,7 +104,7 @@ public:
     friend bool operator>=(const IndexConstIterator& x, const IndexConstIterator& y) {return !(x < y);}
     
 private:
-    IndexConstIterator(const Sequence& source, size_t pos) : source_(source), pos_(pos) {}
+    IndexConstIterator(const Sequence& source, size_t pos) : source_(&source), pos_(pos) {}
     
     friend typename Sequence::Self;
     
-- 
2.43.0

