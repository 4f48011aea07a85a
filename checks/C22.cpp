// variants: rel asan dbg popcnt avx2 avx512 clang
// rule: words drawn with structured bit patterns (all bit lengths, single bits, runs, dense, sparse,
//   repeated bytes) and every legal length/offset/index; results compared with a bit-by-bit
//   definition; table-sized domains are enumerated; non-trivial = the word is neither 0 nor all ones
#include "common.hpp"
#include "sim_ds/bit_util.hpp"
#include "sim_ds/bit_util256.hpp"
using namespace sim_ds;
namespace bu = sim_ds::bit_util;

static int pop(u64 x) { int n = 0; for (int i = 0; i < 64; i++) n += x >> i & 1; return n; }
static int low0(u64 x, int w) { for (int i = 0; i < w; i++) if (x >> i & 1) return i; return w; }
static int high0(u64 x, int w) { for (int i = w - 1; i >= 0; i--) if (x >> i & 1) return w - 1 - i; return w; }
static u64 mask(size_t w) { u64 m = 0; for (size_t i = 0; i < w; i++) m |= u64(1) << i; return m; }
static std::string hex(u64 x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }

#define EQ(expr, want) do { u64 got_ = (u64)(expr), want_ = (u64)(want); REQUIRE(got_ == want_, #expr, " = ", got_, " expected ", want_, " for x=", hex(x)); } while (0)

static void check_word(u64 x) {
  EQ(bu::popcnt64(x), pop(x));
  EQ(bu::popcnt32((uint32_t)x), pop((uint32_t)x));
  EQ(bu::popcnt16((uint16_t)x), pop((uint16_t)x));
  EQ(bu::popcnt8((uint8_t)x), pop((uint8_t)x));
  EQ(bu::popcnt<uint64_t>(x), pop(x));
  EQ(bu::popcnt<uint32_t>((uint32_t)x), pop((uint32_t)x));
  EQ(bu::popcnt<uint16_t>((uint16_t)x), pop((uint16_t)x));
  EQ(bu::popcnt<uint8_t>((uint8_t)x), pop((uint8_t)x));
  EQ(bu::ctz((uint64_t)x), low0(x, 64));
  EQ(bu::ctz((uint32_t)x), low0((uint32_t)x, 32));
  EQ(bu::clz((uint64_t)x), high0(x, 64));
  EQ(bu::clz((uint32_t)x), high0((uint32_t)x, 32));
  int c11 = 0, c10 = 0;
  for (int i = 0; i < 64; i += 2) { c11 += (x >> i & 3) == 3; c10 += (x >> i & 3) == 2; }
  EQ(bu::popcnt11(x), c11);
  EQ(bu::popcnt10(x), c10);
  int g[8] = {};
  for (int i = 0; i + 3 <= 63; i += 3) g[x >> i & 7]++;
  EQ(bu::popcnt111(x), g[7]);
  EQ(bu::popcnt110(x), g[6]);
  EQ(bu::popcnt101(x), g[5]);
  EQ(bu::popcnt100(x), g[4]);
  auto perm = [&](int k) { u64 r = 0; for (int i = 0; i < 64; i++) r |= (x >> (i ^ k) & 1) << i; return r; };
  EQ(bu::swap_pi1(x), perm(1));
  EQ(bu::swap_pi2(x), perm(2));
  EQ(bu::swap_pi4(x), perm(4));
  EQ(bu::swap_pi8(x), perm(8));
  EQ(bu::swap_pi16(x), perm(16));
  EQ(bu::swap_pi32(x), perm(32));
}

LAW(word_counts_zeros_swaps, 300000, 6000000) {
  u64 x = c.bits(64);
  NOTE(c, "x=", hex(x));
  c.nontrivial(x && ~x);
  check_word(x);
}

// arithmetic around the primitives goes on as without them (registers they share with it are left as found)
static long double sum_of_squares(unsigned k) {
  volatile long double s = 0;
  for (unsigned i = 1; i <= k; i++) s = s + (long double)i * i / 2;
  return s;
}
LAW(arithmetic_goes_on, 20000, 300000) {
  u64 x = c.bits(64);
  unsigned k = (unsigned)c.range(1, 60), which = (unsigned)c.below(9);
  NOTE(c, "x=", hex(x), ", primitive ", which, ", ", k, " terms");
  c.nontrivial();
  volatile u64 out = 0;
  alignas(32) uint64_t w[4] = {x, ~x, x + 1, x * 3}, d[4];
  switch (which) {
    case 0: out = bu::swap_pi1(x) ^ bu::swap_pi2(x) ^ bu::swap_pi4(x); break;
    case 1: out = bu::swap_pi8(x); break;
    case 2: out = bu::swap_pi16(x); break;
    case 3: out = bu::swap_pi32(x); break;
    case 4: out = bu::popcnt64(x) + bu::popcnt11(x) + bu::popcnt10(x) + bu::popcnt111(x) + bu::popcnt110(x) + bu::popcnt101(x) + bu::popcnt100(x); break;
    case 5: out = bu::ctz((uint64_t)x) + bu::clz((uint64_t)x) + bu::ctz((uint32_t)x) + bu::clz((uint32_t)x); break;
    case 6: out = bu::bextr(x, k & 31, k) + bu::cnt<uint64_t>(x, k); break;
    case 7: if (x) out = bu::sel(x, 1); break;
    default: bu::xor_map(w, (uint8_t)x, d); bu::copy256_epi64(d, w); bu::set256_epi1(x & 1, d); out = bu::popcnt256(w) + bu::ctz256(d) + bu::clz256(d) + bu::is_zero256(d);
  }
  long double s = sum_of_squares(k);
  u64 want = u64(k) * (k + 1) * (2 * k + 1) / 6;
  REQUIRE(s * 2 == (long double)want, "the sum of ", k, " halved squares in long double is ", (double)s, " instead of ", want / 2.0, " after primitive ", which, " on ", hex(x));
}

LAW(masked_count_and_extract, 200000, 4000000) {
  u64 x = c.bits(64);
  size_t len = c.edgy(0, 64), start = c.edgy(0, 63);
  NOTE(c, "x=", hex(x), " start=", start, " len=", len);
  c.nontrivial(x && ~x);
  c.label_if(len == 64, "full length");
  EQ(bu::WidthMask(len), mask(len));
  EQ(bu::OffsetMask(start), u64(1) << start);
  EQ(bu::cnt<uint64_t>(x, len), pop(x & mask(len)));
  EQ(bu::bextr(x, start, len), (x >> start) & mask(len));
}

LAW(select_in_word, 300000, 5000000) {
  u64 x = c.bits(64);
  NOTE(c, "x=", hex(x));
  c.nontrivial(x && ~x);
  size_t i = 0;
  for (int p = 0; p < 64; p++)
    if (x >> p & 1) { ++i; EQ(bu::sel(x, i), p + 1); }
}

// all 16-bit words, at every byte position of the 64-bit word, alone and complemented
LAW_ENUM(all_16_bit_words, 65536) {
  u64 k = c.enum_index(65536);
  c.nontrivial(k && k != 65535);
  NOTE(c, "16-bit word ", hex(k));
  for (int s = 0; s <= 48; s += 16) {
    u64 x = k << s;
    check_word(x);
    x = ~x;
    check_word(x);
    size_t i = 0;
    for (int p = 0; p < 64; p++) if (x >> p & 1) { ++i; EQ(bu::sel(x, i), p + 1); }
    x = ~x; i = 0;
    for (int p = 0; p < 64; p++) if (x >> p & 1) { ++i; EQ(bu::sel(x, i), p + 1); }
  }
}

template <size_t... I>
static void check_const_masks(std::index_sequence<I...>) {
  u64 x = 0;
  auto one = [&](size_t i, u64 wm, u64 om) { x = i; EQ(wm, mask(i)); EQ(om, u64(1) << i); };
  (one(I, bu::width_mask<I>, bu::offset_mask<I>), ...);
}
LAW_ENUM(all_masks, 65) {
  u64 k = c.enum_index(65), x = k;
  c.nontrivial(k > 0);
  NOTE(c, "width ", k);
  volatile size_t w = k;  // a width known only at run time
  EQ(bu::WidthMask(w), mask(k));
  if (k < 64) EQ(bu::OffsetMask(w), u64(1) << k);
  check_const_masks(std::make_index_sequence<64>{});
  EQ(bu::width_mask<64>, kMax64);
}

struct alignas(32) W256 { uint64_t w[4]; };
LAW(words_of_256_bits, 150000, 3000000) {
  W256 a, d;
  for (auto& w : a.w) w = c.chance(1, 3) ? 0 : c.bits(64);
  for (auto& w : d.w) w = 0x1234567890abcdefull;
  u64 x = a.w[0];
  NOTE(c, hex(a.w[0]), " ", hex(a.w[1]), " ", hex(a.w[2]), " ", hex(a.w[3]));
  std::bitset<256> b;
  for (int i = 0; i < 256; i++) b[i] = a.w[i / 64] >> (i % 64) & 1;
  c.nontrivial(b.any() && !b.all());
  int cz = 256, lz = 256;
  for (int i = 255; i >= 0; i--) if (b[i]) cz = i;
  for (int i = 0; i < 256; i++) if (b[i]) lz = 255 - i;
  EQ(bu::is_zero256(a.w), b.none());
  EQ(bu::popcnt256(a.w), b.count());
  EQ(bu::ctz256(a.w), cz);
  EQ(bu::clz256(a.w), lz);
  bu::copy256_epi64(a.w, d.w);
  for (int i = 0; i < 4; i++) EQ(d.w[i], a.w[i]);
  unsigned m = (unsigned)c.below(256);
  bu::xor_map(a.w, (uint8_t)m, d.w);
  for (int i = 0; i < 256; i++) REQUIRE((d.w[i / 64] >> (i % 64) & 1) == b[i ^ m], "xor_map mask ", m, " bit ", i);
  bool bit = c.coin();
  bu::set256_epi1(bit, d.w);
  for (int i = 0; i < 4; i++) EQ(d.w[i], bit ? kMax64 : 0);
#ifdef __AVX2__
  auto v = _mm256_load_si256((const __m256i*)a.w);
  EQ(bu::is_zero256_intrinsics(v), b.none());
  _mm256_store_si256((__m256i*)d.w, bu::xor_map_intrinsics(v, (uint8_t)m));
  for (int i = 0; i < 256; i++) REQUIRE((d.w[i / 64] >> (i % 64) & 1) == b[i ^ m], "xor_map_intrinsics mask ", m, " bit ", i);
#endif
}
