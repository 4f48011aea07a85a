// variants: rel asan dbg
// scale: 12 15
// rule: every width 0..64; all keys of widths up to 16 exhaustively, random and boundary keys above; non-trivial =
//   a width of at least 2 and a key other than 0
#include "common.hpp"
#include "sim_ds/BijectiveHash.hpp"
using namespace sim_ds;

static u64 mask(unsigned w) { return w >= 64 ? kMax64 : (u64(1) << w) - 1; }

template <class H>
static void inverse(const H& h, unsigned w, u64 x) {
  u64 y = h.hash(x);
  REQUIRE(y <= mask(w), "width ", w, ": hash(", x, ")=", y, " leaves the width");
  REQUIRE(h.ihash(y) == x, "width ", w, ": ihash(hash(", x, "))=", h.ihash(y));
  u64 z = h.ihash(x);
  REQUIRE(z <= mask(w) && h.hash(z) == x, "width ", w, ": hash(ihash(", x, "))=", h.hash(z), " via ", z);
}
template <unsigned K>
static void stages(unsigned w, u64 x) {
  Xorshift s(w);
  MultiplyHash m(w);
  u64 a = s.hash<K>(x), b = m.hash<K>(x);
  REQUIRE(a <= mask(w) && s.ihash<K>(a) == x, "width ", w, ": xorshift stage ", K, " of ", x);
  REQUIRE(b <= mask(w) && m.ihash<K>(b) == x, "width ", w, ": multiply stage ", K, " of ", x);
}

LAW_ENUM(small_widths_are_permutations, 17) {
  unsigned w = (unsigned)c.enum_index(17);
  SplitMixHash h(w);
  std::vector<bool> seen(size_t(1) << w);
  for (u64 x = 0; x <= mask(w); x++) {
    inverse(h, w, x);
    u64 y = h.hash(x);
    REQUIRE(!seen[y], "width ", w, ": two keys hash to ", y);
    seen[y] = true;
  }
  NOTE(c, "width ", w, ", all keys");
  c.nontrivial(w >= 2);
}
LAW_ENUM(every_width_inverts, 65 * 400) {
  u64 k = c.enum_index(65 * 400);
  unsigned w = (unsigned)(k % 65);
  u64 x = c.coin() ? c.bits(w) : c.edgy(0, mask(w));
  NOTE(c, "width ", w, " key ", x);
  c.nontrivial(w >= 2 && x);
  inverse(SplitMixHash(w), w, x);
  if (w) { stages<0>(w, x); stages<1>(w, x); stages<2>(w, x); }
  if (w == 64) inverse(SplitMixHash(), 64, x);
}
LAW(random_keys_invert, 200000, 4000000) {
  unsigned w = (unsigned)c.range(1, 64);
  u64 x = c.bits(w);
  NOTE(c, "width ", w, " key ", x);
  c.nontrivial(w >= 2 && x);
  inverse(SplitMixHash(w), w, x);
  stages<0>(w, x); stages<1>(w, x); stages<2>(w, x);
}
// the same key and width always hash alike, and two different keys never do
LAW(different_keys_hash_differently, 2000, 40000) {
  unsigned w = (unsigned)c.range(10, 64);
  auto r = c.bulk();
  SplitMixHash h(w), g(w);
  std::unordered_map<u64, u64> back;
  size_t n = c.range(2, 300);
  u64 base = r.bits(w), step = r.below(2) ? 1 : u64(1) << r.below(w);
  for (size_t i = 0; i < n; i++) {
    u64 x = (base + i * step) & mask(w), y = h.hash(x);
    REQUIRE(g.hash(x) == y, "hash of ", x, " varies");
    auto it = back.emplace(y, x);
    REQUIRE(it.first->second == x, "width ", w, ": ", x, " and ", it.first->second, " both hash to ", y);
  }
  NOTE(c, "width ", w, " keys ", base, "+k*", step, " x", n);
  c.nontrivial();
}
