// variants: rel asan dbg popcnt
// rule: sequences of 1-, 2- and 3-bit symbols (0..millions; runs, sparse, uniform) written in any order and
//   indexed; every element is read back and every rank of a non-zero element compared with a running
//   count; non-trivial = some non-zero symbol occurs twice and the sequence spans several words
#include "common.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace sim_ds;

static std::vector<uint8_t> symbols(Case& c, unsigned unit, size_t small, size_t mid, size_t big) {
  size_t n = c.size(small, mid, big);
  std::vector<uint8_t> v(n);
  unsigned k = 1u << unit;
  if (n <= 24 && c.coin()) { for (auto& x : v) x = (uint8_t)c.below(k); return v; }
  size_t mode = c.weighted({3, 3, 2, 2});
  auto r = c.bulk();
  uint8_t only = (uint8_t)r.below(k);
  u64 lim = u64(2) << r.below(10), rare = u64(1) << r.below(10);
  switch (mode) {
    case 0: for (auto& x : v) x = (uint8_t)r.below(k); break;
    case 1: for (size_t i = 0; i < n;) { uint8_t x = (uint8_t)r.below(k); for (u64 l = r.range(1, lim); l-- && i < n;) v[i++] = x; } break;
    case 2: for (auto& x : v) x = r.below(rare) ? only : (uint8_t)r.below(k); break;
    default: std::fill(v.begin(), v.end(), only);
  }
  return v;
}
static std::string show_syms(const std::vector<uint8_t>& v) {
  std::string s = cat(v.size(), " symbols ");
  for (size_t i = 0; i < v.size() && i < 96; i++) s += (char)('0' + v[i]);
  return s;
}

template <class M>
static void verify(const M& m, const std::vector<uint8_t>& v, bool ranks, const char* what) {
  size_t cnt[8] = {};
  for (size_t i = 0; i < v.size(); i++) {
    REQUIRE(m[i] == v[i], what, ": element ", i, " of ", v.size(), " reads ", int(m[i]), " expected ", int(v[i]));
    if (ranks && v[i]) {
      auto g = m.rank(i);
      REQUIRE(g == cnt[v[i]], what, ": rank(", i, ")=", g, " but ", cnt[v[i]], " earlier elements are ", int(v[i]), "; ", show_syms(v));
    }
    cnt[v[i]]++;
  }
}
template <class F> static void by_unit(unsigned unit, F f) {
  switch (unit) {
    case 1: f(MultiBitVector<1>()); break;
    case 2: f(MultiBitVector<2>()); break;
    default: f(MultiBitVector<3>());
  }
}
static void classify(Case& c, unsigned unit, const std::vector<uint8_t>& v) {
  size_t cnt[8] = {};
  for (auto x : v) cnt[x]++;
  bool twice = false;
  for (int k = 1; k < 8; k++) twice |= cnt[k] > 1;
  c.nontrivial(twice && v.size() > 64 / unit);
  c.label(unit == 1 ? "1-bit symbols" : unit == 2 ? "2-bit symbols" : "3-bit symbols");
  c.label_if(v.size() > 256, "several blocks");
  c.label_if(v.empty(), "empty");
  c.label_if(v.size() > 65536, "over 64Ki symbols");
}

LAW(reads_back_and_ranks, 24000, 300000) {
  unsigned unit = (unsigned)c.range(1, 3);
  auto v = symbols(c, unit, 60, 1500, 20000);
  NOTE(c, "unit ", unit, " ", show_syms(v));
  classify(c, unit, v);
  by_unit(unit, [&](auto m) {
    std::vector<size_t> order(v.size());
    std::iota(order.begin(), order.end(), 0);
    size_t how = c.below(4);
    if (how == 1) std::reverse(order.begin(), order.end());
    if (how == 2) { auto r = c.bulk(); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); }
    if (how == 3 && !v.empty()) m.resize(v.size() - 1);
    bool twice = c.chance(1, 3);
    if (twice) { auto r = c.bulk(); for (size_t i : order) m.set(i, (uint8_t)r.below(1u << unit)); }
    for (size_t i : order) m.set(i, v[i]);
    verify(m, v, false, "before build");
    m.build();
    verify(m, v, true, "built");
    auto n = m;
    verify(n, v, true, "copy");
    auto o = std::move(n);
    verify(o, v, true, "move");
  });
}

// histories of set / grow / shrink / build; ranks are asked when built since the last change
LAW(histories_of_writes_and_builds, 12000, 150000) {
  unsigned unit = (unsigned)c.range(1, 3);
  by_unit(unit, [&](auto m) {
    std::vector<uint8_t> v;
    bool built = false;
    std::string h;
    size_t steps = c.range(1, 30), hi = c.coin() ? 100 : 2000, rebuilt = 0;
    for (size_t s = 0; s < steps; s++) {
      switch (c.weighted({5, 3, 2, 3})) {
        case 0: {
          size_t i = c.edgy(0, hi);
          uint8_t x = (uint8_t)c.below(1u << unit);
          m.set(i, x);
          if (i >= v.size()) v.resize(i + 1, 0);
          v[i] = x; built = false;
          h += cat("set ", i, "=", int(x), "; ");
          break;
        }
        case 1: {  // a run of one symbol
          size_t i = c.edgy(0, hi), l = c.range(1, 200);
          uint8_t x = (uint8_t)c.below(1u << unit);
          for (size_t k = i; k < i + l; k++) m.set(k, x);
          if (i + l > v.size()) v.resize(i + l, 0);
          for (size_t k = i; k < i + l; k++) v[k] = x;
          built = false;
          h += cat("run ", i, "+", l, "=", int(x), "; ");
          break;
        }
        case 2: {  // only the elements up to the last index are kept
          if (v.empty()) break;
          size_t i = c.edgy(0, v.size() - 1);
          m.resize(i);
          v.resize(i + 1);
          size_t per = unit == 1 ? 64 : unit == 2 ? 32 : 21;
          // what is left over in the last word is unspecified: define it
          for (size_t k = i + 1; k % per; k++) m.set(k, 0);
          built = false;
          h += cat("resize ", i, "; ");
          break;
        }
        default:
          m.build();
          built = true;
          rebuilt++;
          h += "build; ";
      }
      verify(m, v, built, "history");
    }
    m.build();
    verify(m, v, true, "final build");
    NOTE(c, "unit ", unit, " ", h);
    classify(c, unit, v);
    c.label_if(rebuilt > 1, "rebuilt");
  });
}

LAW(long_sequences, 96, 1200) {
  unsigned unit = (unsigned)c.range(1, 3);
  auto v = symbols(c, unit, 100000, 400000, 2000000);
  NOTE(c, "unit ", unit, " ", show_syms(v));
  classify(c, unit, v);
  by_unit(unit, [&](auto m) {
    if (!v.empty()) m.resize(v.size() - 1);
    for (size_t i = 0; i < v.size(); i++) m.set(i, v[i]);
    m.build();
    verify(m, v, true, "long");
  });
}

// every length 1..800 with one symbol everywhere (the counters at their fullest)
LAW_ENUM(every_length_of_one_symbol, 800 * 11) {
  u64 k = c.enum_index(800 * 11);
  size_t n = 1 + k / 11, t = k % 11;
  unsigned unit = t < 1 ? 1 : t < 4 ? 2 : 3;
  uint8_t x = (uint8_t)(t < 1 ? 1 : t < 4 ? t : t - 3);
  std::vector<uint8_t> v(n, x);
  NOTE(c, "unit ", unit, " ", show_syms(v));
  classify(c, unit, v);
  by_unit(unit, [&](auto m) {
    for (size_t i = 0; i < n; i++) m.set(i, x);
    m.build();
    verify(m, v, true, "one symbol");
  });
}

// more than 2^32 symbols (of one bit) or bits
LAW_HUGE(beyond_32_bits, 2, 8) {
  const size_t two32 = size_t(1) << 32;
  auto go = [&](auto tag) {
    constexpr unsigned unit = decltype(tag)::value;
    const size_t n = two32 / unit + c.edgy(64, 3000);
    c.nontrivial();
    NOTE(c, n, " symbols of ", unit, " bits");
    MultiBitVector<unit> v;
    v.resize(n - 1);
    std::map<size_t, uint8_t> m;
    for (size_t k = 0; k < 400; k++) {
      size_t low = c.below(2000), i = k % 4 == 0 ? low : k % 4 == 1 ? n - 1 - low : k % 4 == 2 ? n - 1 - c.below(100) : c.below(n);
      uint8_t x = (uint8_t)c.range(1, (1u << unit) - 1);
      v.set(i, x);
      m[i] = x;
    }
    v.build();
    size_t count[4] = {};
    for (auto& e : m) {
      REQUIRE(v[e.first] == e.second, "symbol ", e.first, " of ", n);
      REQUIRE(v.rank(e.first) == count[e.second], "rank(", e.first, ")=", v.rank(e.first), " expected ", count[e.second]);
      count[e.second]++;
      for (size_t j : {e.first ^ 1, e.first ^ (two32 / unit), e.first % two32}) if (j < n) REQUIRE(v[j] == (m.count(j) ? m[j] : 0), "symbol ", j, " of ", n);
    }
  };
  if (c.coin()) go(std::integral_constant<unsigned, 1>()); else go(std::integral_constant<unsigned, 2>());
}
