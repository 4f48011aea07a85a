// variants: rel asan dbg avx2
// rule: as for rank, plus sequences built to put 512-one thresholds at chosen places; select(k) is
//   compared with the list of set positions for every k; non-trivial = at least 64 ones
#include "common.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
using namespace sim_ds;

static void check_select(const SuccinctBitVector<true>& s, const std::vector<bool>& b, size_t step = 1) {
  size_t k = 0;
  size_t ones = std::count(b.begin(), b.end(), true);
  for (size_t i = 0; i < b.size(); i++) {
    if (!b[i]) continue;
    if (k % step == 0 || k + 3 > ones) {
      size_t g = s.select(k);
      REQUIRE(g == i, "select(", k, ")=", g, " expected ", i, " of ", ones, " ones in ", bits_text(b));
    }
    k++;
  }
}
static void classify(Case& c, const std::vector<bool>& b) {
  size_t ones = std::count(b.begin(), b.end(), true);
  c.nontrivial(ones >= 64);
  c.label_if(ones == 0, "no ones");
  c.label_if(ones % 512 == 0 && ones, "ones multiple of 512");
  c.label_if(ones > 512, "over 512 ones");
  c.label_if(b.size() % 64 == 0 && !b.empty(), "multiple of 64");
  c.label_if(b.size() > 65536, "over 64Ki bits");
}

LAW(select_finds_kth_one, 24000, 300000) {
  auto b = gen_bits(c, 200, 3000, 40000);
  NOTE(c, bits_text(b));
  classify(c, b);
  SuccinctBitVector<true> s{BitVector(b)};
  check_select(s, b);
}

// blocks with chosen numbers of ones, so that multiples of 512 ones fall
// inside, at the start and at the end of blocks, with empty blocks between
LAW(select_around_block_counts, 12000, 150000) {
  std::vector<bool> b;
  size_t nb = c.range(1, 12);
  for (size_t j = 0; j < nb; j++) {
    size_t len = j + 1 == nb ? c.edgy(1, 512) : 512;
    size_t ones = c.edgy(0, len);
    size_t base = b.size();
    b.resize(base + len, false);
    switch (c.below(3)) {
      case 0: for (size_t i = 0; i < ones; i++) b[base + i] = true; break;
      case 1: for (size_t i = 0; i < ones; i++) b[base + len - 1 - i] = true; break;
      default: for (size_t i = 0; i < ones; i++) b[base + i * len / ones] = true;
    }
  }
  NOTE(c, nb, " blocks, ", bits_text(b));
  classify(c, b);
  SuccinctBitVector<true> s{BitVector(b)};
  check_select(s, b);
}

LAW(select_and_rank_are_inverse, 8000, 100000) {
  auto b = gen_bits(c, 300, 4000, 30000);
  NOTE(c, bits_text(b));
  classify(c, b);
  SuccinctBitVector<true> s{BitVector(b)};
  size_t ones = s.rank(b.size());
  for (size_t k = 0; k < ones; k++) {
    size_t p = s.select(k);
    REQUIRE(p < b.size() && b[p], "select(", k, ")=", p, " is not a set position");
    REQUIRE(s.rank(p) == k && s.rank(p + 1) == k + 1, "rank(select(", k, "))=", s.rank(p));
  }
}

LAW(select_over_large_sequences, 96, 1500) {
  auto b = gen_bits(c, 60000, 300000, 4000000);
  NOTE(c, bits_text(b));
  classify(c, b);
  SuccinctBitVector<true> s{BitVector(b)};
  check_select(s, b, b.size() > 500000 ? 7 : 1);
}

LAW_ENUM(every_length_and_pattern, 1400 * 4) {
  u64 k = c.enum_index(1400 * 4);
  size_t n = k / 4 + 1;
  std::vector<bool> b(n);
  for (size_t i = 0; i < n; i++)
    switch (k % 4) {
      case 0: b[i] = true; break;
      case 1: b[i] = i != n / 2; break;
      case 2: b[i] = (i / 7) & 1; break;
      default: b[i] = i >= n - std::min<size_t>(n, 600); 
    }
  NOTE(c, bits_text(b));
  classify(c, b);
  check_select(SuccinctBitVector<true>{BitVector(b)}, b);
}

LAW_HUGE(select_beyond_32_bits, 8, 24) {
  const size_t n = (size_t(1) << 32) + c.edgy(1, 3000);
  BitVector bv(n, true);
  size_t hole = c.below(n);
  bv[hole] = false;
  SuccinctBitVector<true> s(std::move(bv));
  c.nontrivial();
  NOTE(c, n, " ones with a zero at ", hole);
  for (size_t k = 0; k < 3000; k++) {
    size_t i = k < 1000 ? n - 2 - k : c.below(n - 1);
    size_t e = i < hole ? i : i + 1;
    REQUIRE(s.select(i) == e, "select(", i, ")=", s.select(i), " expected ", e);
  }
}
LAW(without_select_support, 400, 4000) {
  auto b = gen_bits(c, 20, 600, 5000);
  NOTE(c, bits_text(b));
  c.nontrivial(!b.empty());
  SuccinctBitVector<false> s{BitVector(b)};
  bool refused = false;
  try { (void)s.select(c.below(b.size() + 1)); } catch (...) { refused = true; }
  REQUIRE(refused, "a vector without select support answers select");
}
