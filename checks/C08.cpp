// variants: rel asan dbg avx2
// rule: symbol sequences (alphabets 1..256, uniform, runs, periodic, skewed; 0..10^6 symbols) indexed; every
//   access, every rank of an element and rank(symbol, position) for every symbol are compared with counts;
//   non-trivial = at least two distinct symbols and two equal elements
#include "common.hpp"
#include "sim_ds/WaveletTree.hpp"
using namespace sim_ds;

template <class T>
static void verify(const WaveletTree& w, const std::vector<T>& v, Case& c) {
  REQUIRE(w.size() == v.size(), "size ", w.size(), " expected ", v.size());
  std::vector<size_t> cnt(256);
  size_t step = v.size() <= 64 ? 1 : 1 + v.size() / 40;
  std::string what = show(v);
  for (size_t i = 0; i <= v.size(); i++) {
    if (i % step == 0 || i == v.size() || i == v.size() - 1)
      for (unsigned s = 0; s < 256; s++)
        REQUIRE(w.rank(uint8_t(s), i) == cnt[s], "rank(", s, ", ", i, ")=", w.rank(uint8_t(s), i), " expected ", cnt[s], " in ", what);
    if (i == v.size()) break;
    unsigned x = sizeof(T) == 1 ? (uint8_t)v[i] : (unsigned)v[i];
    REQUIRE(w[i] == x, "element ", i, " reads ", int(w[i]), " expected ", x, " in ", what);
    REQUIRE(w.rank(i) == cnt[x], "rank(", i, ")=", w.rank(i), " expected ", cnt[x], " in ", what);
    auto [y, k] = w.AccessAndRank(i);
    REQUIRE(y == x && k == cnt[x], "AccessAndRank(", i, ")=(", int(y), ",", k, ") expected (", x, ",", cnt[x], ") in ", what);
    cnt[x]++;
  }
  c.label_if(v.empty(), "empty");
  size_t distinct = 0, twice = 0;
  for (auto k : cnt) distinct += k > 0, twice += k > 1;
  c.nontrivial(distinct > 1 && twice);
  c.label_if(distinct > 128, "over 128 distinct symbols");
  c.label_if(distinct == 1, "one symbol");
  c.label_if(v.size() > 4096, "over 4096 symbols");
}
template <class T>
static std::vector<T> symbols(Case& c, size_t n, unsigned cap) {
  unsigned top = (unsigned)(c.coin() ? c.edgy(0, cap) : c.range(0, 8));
  std::vector<T> v(n);
  if (n <= 16 && c.coin()) { for (auto& x : v) x = (T)c.range(0, top); return v; }
  size_t mode = c.weighted({3, 2, 2, 2, 1});
  auto r = c.bulk();
  u64 lim = u64(2) << r.below(8), per = r.range(1, 400), keep = r.range(1, 4);
  switch (mode) {
    case 0: for (auto& x : v) x = (T)r.range(0, top); break;
    case 1: for (size_t i = 0; i < n;) { T x = (T)r.range(0, top); for (u64 l = r.range(1, lim); l-- && i < n;) v[i++] = x; } break;
    case 2: for (auto& x : v) { unsigned k = 0; while (k < top && r.below(keep + 1)) k++; x = (T)k; } break;
    case 3: for (size_t i = 0; i < n; i++) v[i] = (T)(i % per % (top + 1)); break;
    default: std::fill(v.begin(), v.end(), (T)top);
  }
  return v;
}

LAW(access_and_rank, 8000, 120000) {
  size_t n = c.size(30, 600, 8000);
  auto go = [&](auto tag, unsigned cap) {
    auto v = symbols<decltype(tag)>(c, n, cap);
    NOTE(c, show(v));
    WaveletTree w(v);
    switch (c.below(4)) {
      case 0: { WaveletTree x(w); verify(x, v, c); break; }
      case 1: { WaveletTree x(std::vector<int>{3, 1, 2}); x = w; verify(x, v, c); break; }
      case 2: { WaveletTree x(std::move(w)); verify(x, v, c); return; }
      default:;
    }
    verify(w, v, c);
  };
  switch (c.below(5)) {
    case 0: go(uint8_t(), 255); break;
    case 1: go(int(), 255); break;
    case 2: go(size_t(), 255); break;
    case 3: go((signed char)0, 255); break;
    default: go(char(), 255);
  }
}
LAW(long_sequences, 48, 600) {
  auto v = symbols<uint8_t>(c, c.size(30000, 100000, 1000000), 255);
  NOTE(c, show(v));
  WaveletTree w(v);
  verify(w, v, c);
}
// every alphabet size, each symbol at least twice
LAW_ENUM(every_alphabet, 256 * 3) {
  u64 k = c.enum_index(256 * 3);
  unsigned top = (unsigned)(k / 3);
  std::vector<int> v;
  if (k % 3 == 0) for (int rep = 0; rep < 3; rep++) for (unsigned s = 0; s <= top; s++) v.push_back((int)s);
  if (k % 3 == 1) for (unsigned s = 0; s <= top; s++) { v.push_back((int)s); v.push_back((int)(top - s)); }
  if (k % 3 == 2) v = {(int)top, (int)top, (int)top};
  NOTE(c, show(v));
  WaveletTree w(v);
  verify(w, v, c);
}

// more than 2^32 symbols
LAW_HUGE(beyond_32_bits, 1, 4) {
  const size_t two32 = size_t(1) << (c.thorough() ? 32 : 31), n = two32 + c.edgy(100, 5000);  // building takes its time
  std::vector<bool> v(n);
  std::set<size_t> ones;
  for (size_t k = 0; k < 300; k++) {
    size_t low = c.below(3000), i = k % 4 == 0 ? low : k % 4 == 1 ? n - 1 - low : k % 4 == 2 ? n - 1 - c.below(90) : c.below(n);
    v[i] = true;
    ones.insert(i);
  }
  c.nontrivial();
  NOTE(c, n, " symbols, ", ones.size(), " of them 1");
  WaveletTree t(v);
  REQUIRE(t.size() == n, "size ", t.size(), " expected ", n);
  size_t r = 0;
  for (size_t i : ones) {
    for (size_t j : {i, i ^ 1, i ^ two32, i + 64}) if (j < n) REQUIRE(t[j] == v[j], "symbol ", j, " of ", n);
    REQUIRE(t.rank(i) == r, "rank(", i, ")=", t.rank(i), " expected ", r);
    REQUIRE(t.rank(1, i) == r && t.rank(0, i) == i - r, "rank(1,", i, ")=", t.rank(1, i), " rank(0,", i, ")=", t.rank(0, i), " expected ", r, " and ", i - r);
    r++;
  }
  REQUIRE(t.rank(1, n) == r && t.rank(0, n) == n - r, "total ranks");
}
