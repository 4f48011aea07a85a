// variants: rel asan dbg avx2
// rule: bit sequences of 0..2^32+ bits (densities, runs, per-word and per-512-block shapes, few
//   ones / zeros) are indexed in several ways and every rank is compared with a running count;
//   a case is non-trivial when the sequence has both bit values or crosses a 512-bit block
#include "common.hpp"
#include <array>
#include <deque>
#include <list>
#include "sim_ds/SuccinctBitVector.hpp"
using namespace sim_ds;

static BitVector to_bv(const std::vector<bool>& b) { return BitVector(b); }

template <class S>
static void check_rank_all(const S& s, const std::vector<bool>& b, const char* what) {
  REQUIRE(s.size() == b.size(), what, ": size ", s.size(), " expected ", b.size());
  size_t r = 0;
  if (!b.empty()) {
    auto* w = s.data();
    for (size_t i = 0; i < b.size(); i++) REQUIRE((w[i / 64] >> (i % 64) & 1) == b[i], what, ": word ", i / 64, " differs at bit ", i, " of ", bits_text(b));
  }
  for (size_t i = 0; i <= b.size(); i++) {
    size_t g = s.rank_1(i);
    REQUIRE(g == r, what, ": rank_1(", i, ")=", g, " expected ", r, " of ", bits_text(b));
    if (i == b.size()) break;
    REQUIRE(s[i] == b[i], what, ": bit ", i, " reads ", s[i]);
    r += b[i];
  }
  REQUIRE(s.rank(b.size()) == r && s.rank_0(b.size()) == b.size() - r, what, ": total rank");
  for (size_t i = 0; i < b.size(); i += 1 + b.size() / 50) {
    REQUIRE(s.rank(i) == s.rank_1(i), "rank differs from rank_1 at ", i);
    REQUIRE(s.rank_0(i) + s.rank_1(i) == i, "rank_0+rank_1 at ", i);
  }
}
static void classify(Case& c, const std::vector<bool>& b) {
  size_t ones = std::count(b.begin(), b.end(), true);
  c.nontrivial((ones && ones < b.size()) || b.size() > 512);
  c.label_if(b.empty(), "empty");
  c.label_if(b.size() % 64 == 0 && !b.empty(), "multiple of 64");
  c.label_if(b.size() % 512 == 0 && !b.empty(), "multiple of 512");
  c.label_if(b.size() > 512, "several blocks");
  c.label_if(b.size() > 65536, "over 64Ki bits");
  c.label_if(ones == b.size() && ones, "all ones");
}

LAW(rank_counts_ones, 24000, 300000) {
  auto b = gen_bits(c, 200, 3000, 40000);
  NOTE(c, bits_text(b));
  classify(c, b);
  bool sel = c.coin();
  auto go = [&](auto tag) {
    using S = SuccinctBitVector<decltype(tag)::value>;
    switch (c.weighted({3, 2, 1, 1, 1, 1})) {
      case 0: { BitVector bv = to_bv(b); S s(std::move(bv)); check_rank_all(s, b, "moved-in"); break; }
      case 1: {
        BitVector bv = to_bv(b);
        S s(bv);
        for (size_t i = 0; i < bv.size(); i++) bv[i] = !bv[i];  // the index keeps its own copy
        check_rank_all(s, b, "copied-in");
        break;
      }
      case 2: {  // bits left over above the end by shrinking must not count
        size_t extra = c.edgy(1, 1200);
        BitVector bv(b.size() + extra, true);
        for (size_t i = 0; i < b.size(); i++) bv[i] = b[i];
        bv.resize(b.size());
        S s(std::move(bv));
        check_rank_all(s, b, "after shrinking");
        break;
      }
      case 3: { S s(to_bv(b)); S t(s); S u; u = t; check_rank_all(u, b, "copied index"); check_rank_all(s, b, "copy source"); break; }
      case 4: { S s(to_bv(b)); S t(std::move(s)); S u; u = std::move(t); check_rank_all(u, b, "moved index"); break; }
      default: {  // a bit vector grown bit by bit
        BitVector bv;
        for (bool x : b) bv.push_back(x);
        S s(bv);
        check_rank_all(s, b, "pushed");
      }
    }
  };
  if (sel) go(std::true_type{}); else go(std::false_type{});
}

LAW(rank_over_large_sequences, 96, 1500) {
  auto b = gen_bits(c, 60000, 300000, 4000000);
  NOTE(c, bits_text(b));
  classify(c, b);
  SuccinctBitVector<true> s(to_bv(b));
  check_rank_all(s, b, "large");
}

// rank at every position for every length 0..1100 and a few fill patterns
LAW_ENUM(every_length_and_pattern, 1101 * 6) {
  u64 k = c.enum_index(1101 * 6);
  size_t n = k / 6;
  std::vector<bool> b(n);
  for (size_t i = 0; i < n; i++)
    switch (k % 6) {
      case 0: b[i] = true; break;
      case 1: b[i] = false; break;
      case 2: b[i] = i & 1; break;
      case 3: b[i] = i / 64 & 1; break;
      case 4: b[i] = i == n - 1; break;
      default: b[i] = (i * 2654435761u >> 7) % 3 == 0;
    }
  NOTE(c, bits_text(b));
  classify(c, b);
  check_rank_all(SuccinctBitVector<false>(to_bv(b)), b, "pattern");
}

// counts beyond 32 bits: a sequence of more than 2^32 ones, sampled
LAW_HUGE(rank_beyond_32_bits, 8, 24) {
  const size_t n = (size_t(1) << 32) + c.edgy(1, 3000);
  BitVector bv(n, true);
  size_t hole = c.below(n);
  bv[hole] = false;
  SuccinctBitVector<false> s(std::move(bv));
  c.nontrivial();
  NOTE(c, n, " ones with a zero at ", hole);
  auto expect = [&](size_t i) { return i - (i > hole); };
  for (size_t k = 0; k < 3000; k++) {
    size_t i = k < 1000 ? n - k : k < 1200 ? std::min(n, hole + k - 1000) : c.below(n);
    REQUIRE(s.rank(i) == expect(i), "rank(", i, ")=", s.rank(i), " expected ", expect(i));
    REQUIRE(s.rank_1(i) == expect(i) && s.rank_0(i) == i - expect(i), "rank_1(", i, ")=", s.rank_1(i), " rank_0=", s.rank_0(i), " with one zero at ", hole);
    if (i < n) REQUIRE(s[i] == (i != hole), "bit ", i, " with one zero at ", hole);
    REQUIRE(s[hole] == false && s.size() == n, "the zero at ", hole);
  }
}
// as many zeros, with few ones between them
LAW_HUGE(zeros_beyond_32_bits, 2, 8) {
  const size_t n = (size_t(1) << 32) + c.edgy(1, 3000);
  std::vector<size_t> ones;
  for (size_t k = 0; k < 500; k++) ones.push_back(k % 3 == 0 ? c.below(3000) : k % 3 == 1 ? n - 1 - c.below(3000) : c.below(n));
  std::sort(ones.begin(), ones.end());
  ones.erase(std::unique(ones.begin(), ones.end()), ones.end());
  BitVector bv(n);
  for (size_t i : ones) bv[i] = true;
  SuccinctBitVector<true> s(std::move(bv));
  c.nontrivial();
  NOTE(c, n, " bits, ", ones.size(), " ones");
  for (size_t k = 0; k < ones.size(); k++) {
    size_t i = ones[k];
    REQUIRE(s[i] && s.rank(i) == k && s.rank(i + 1) == k + 1 && s.rank_0(i) == i - k, "around one ", k, " at ", i);
    if (k + 1 < ones.size() && ones[k + 1] > i + 1) REQUIRE(!s[i + 1] && s.rank_0(ones[k + 1]) == ones[k + 1] - k - 1, "behind one ", k, " at ", i);
    REQUIRE(s.select(k) == i, "select(", k, ")=", s.select(k), " expected ", i);
  }
  REQUIRE(s.rank_0(n) == n - ones.size() && s.rank_1(n) == ones.size(), "totals");
}

// the same bits through every way to supply them
template <class S, size_t... I> static S listed(const std::vector<bool>& b, std::index_sequence<I...>) { return S{bool(b[I])...}; }
template <class S, size_t N> static void from_list(std::vector<bool>& b, const char* what) { b.resize(N); S s = listed<S>(b, std::make_index_sequence<N>()); check_rank_all(s, b, what); }
template <class T, class X> static X with_values(Case& c, const std::vector<bool>& b) {
  X x;
  for (bool v : b) x.push_back(v ? T(T(1) << c.below(sizeof(T) * 8 - 1)) : T(0));
  return x;
}
template <class S> static void supplied(Case& c, std::vector<bool>& b) {
  switch (c.below(12)) {
    case 0: from_list<S, 1>(b, "list"); break;
    case 1: from_list<S, 2>(b, "list"); break;
    case 2: from_list<S, 64>(b, "list"); break;
    case 3: from_list<S, 65>(b, "list"); break;
    case 4: from_list<S, 200>(b, "list"); break;
    case 5: if (c.coin()) from_list<S, 512>(b, "list"); else from_list<S, 577>(b, "list"); break;
    case 6: { S s(b); check_rank_all(s, b, "vector<bool>"); S t; t = S(std::deque<bool>(b.begin(), b.end())); check_rank_all(t, b, "deque<bool>"); break; }
    case 7: { S s(with_values<int, std::vector<int>>(c, b)); check_rank_all(s, b, "vector<int>"); break; }
    case 8: { S s(with_values<uint8_t, std::deque<uint8_t>>(c, b)); check_rank_all(s, b, "deque<uint8_t>"); break; }
    case 9: { S s(with_values<u64, std::list<u64>>(c, b)); check_rank_all(s, b, "list<uint64_t>"); break; }
    case 10: { b.resize(150); std::array<bool, 150> a; std::copy(b.begin(), b.end(), a.begin()); S s(a); check_rank_all(s, b, "array<bool>"); break; }
    default: { S s((BitVector(b))); BitVector again(b.size()); for (size_t i = 0; i < b.size(); i++) again[i] = s[i]; S t = again; check_rank_all(t, b, "read back bit by bit"); }
  }
}
LAW(however_the_bits_are_supplied, 3000, 40000) {
  auto b = gen_bits(c, 100, 700, 3000);
  if (c.coin()) supplied<SuccinctBitVector<true>>(c, b); else supplied<SuccinctBitVector<false>>(c, b);
  NOTE(c, bits_text(b));
  classify(c, b);
}

LAW_FULL(default_constructed_is_empty, 1, 1, 1, false) {
  SuccinctBitVector<true> s;
  SuccinctBitVector<false> t;
  REQUIRE(s.size() == 0 && s.rank(0) == 0 && s.rank_0(0) == 0, "empty index");
  REQUIRE(t.size() == 0 && t.rank(0) == 0, "empty index");
  SuccinctBitVector<true> u{true, false, true};
  REQUIRE(u.size() == 3 && u.rank(3) == 2 && u.rank(1) == 1 && u[2] && !u[1], "initializer list");
  c.nontrivial();
  NOTE(c, "default constructed; {1,0,1}");
}
