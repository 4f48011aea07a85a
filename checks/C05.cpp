// variants: rel asan dbg avx2
// rule: value lists (all bit lengths, skewed profiles, constant, periodic) encoded with optimised and
//   explicit layer widths and decoded by index, front/back, at and iterators; non-trivial = the encoding
//   has at least two layers and some value reaches beyond the first
#include "common.hpp"
#include "sim_ds/DacVector.hpp"
using namespace sim_ds;

static size_t bitlen(u64 v) { size_t n = 1; while (n < 64 && (v >> n)) n++; return n; }

template <class T>
static void same(const DacVector& d, const std::vector<T>& m, const char* what) {
  REQUIRE(d.size() == m.size() && d.empty() == m.empty(), what, ": size ", d.size(), " expected ", m.size());
  for (size_t i = 0; i < m.size(); i++) { u64 g = d[i]; REQUIRE(g == u64(m[i]), what, ": element ", i, " of ", m.size(), " decodes to ", g, " expected ", u64(m[i])); }
  for (size_t n : {m.size(), m.size() + 1, ~size_t(0)}) {
    bool t = false;
    try { (void)d.at(n); } catch (std::out_of_range&) { t = true; }
    REQUIRE(t, what, ": at(", n, ") is not refused");
  }
  if (m.empty()) { REQUIRE(!(d.begin() != d.end()), what, ": iterating nothing"); return; }
  REQUIRE(d.front() == u64(m.front()) && d.back() == u64(m.back()) && d.at(m.size() / 2) == u64(m[m.size() / 2]), what, ": front/back/at");
}
static void iterate(const DacVector& d, const std::vector<u64>& m, Case& c) {
  size_t k = 0;
  for (auto x : d) REQUIRE(x == m[k++], "range for at ", k - 1);
  REQUIRE(k == m.size() && d.end() - d.begin() == (long long)m.size(), "range for visits ", k);
  if (m.empty()) return;
  k = 0;
  for (auto i = d.begin(); i != d.end(); k++) { auto j = i++; REQUIRE(i - j == 1 && *j == m[k], "post-increment at ", k); }
  for (auto i = d.end(); i != d.begin(); k--) { auto j = i--; REQUIRE(j - i == 1 && *i == m[k - 1], "backwards at ", k - 1); }
  auto it = d.begin();
  long long p = 0, n = (long long)m.size();
  for (int s = 0; s < 6; s++) {
    long long q = (long long)c.edgy(0, m.size() - 1);
    if (c.coin()) it += q - p; else it -= p - q;
    p = q;
    REQUIRE(*it == m[p] && it - d.begin() == p && it == d.begin() + p && *(d.end() - (n - p)) == m[p] && d.begin()[p] == m[p] && *(p + d.begin()) == m[p], "iterator at ", p);
    REQUIRE((it < d.end()) && (it >= d.begin()) && (it > d.begin()) == (p > 0) && (it <= d.begin()) == (p == 0), "comparisons at ", p);
  }
  // what the standard library makes of the iterators
  size_t a = c.edgy(0, m.size()), b = c.edgy(a, m.size());
  u64 x = c.coin() ? m[c.below(m.size())] : c.bits(64);
  DacVector::const_iterator from, to;
  from = d.begin() + (long long)a;
  to = from + (long long)(b - a);
  REQUIRE(std::vector<u64>(from, to) == std::vector<u64>(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b), "copy of ", a, "..", b);
  REQUIRE(std::find(from, to, x) - d.begin() == std::find(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b, x) - m.begin() && std::count(from, to, x) == std::count(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b, x), "find, count ", x, " in ", a, "..", b);
  REQUIRE(std::max_element(from, to) - d.begin() == std::max_element(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b) - m.begin() && std::distance(from, to) == (long long)(b - a), "greatest of ", a, "..", b);
  REQUIRE(std::equal(std::make_reverse_iterator(to), std::make_reverse_iterator(from), std::make_reverse_iterator(m.begin() + (ptrdiff_t)b)), a, "..", b, " backwards");
  if (std::is_sorted(m.begin(), m.end())) REQUIRE(std::lower_bound(from, to, x) - from == std::lower_bound(m.begin() + (ptrdiff_t)a, m.begin() + (ptrdiff_t)b, x) - (m.begin() + (ptrdiff_t)a), "binary search");
}

static std::vector<u64> values(Case& c, size_t small, size_t mid, size_t big) {
  unsigned w = (unsigned)(c.coin() ? c.edgy(1, 64) : c.range(1, 20));
  if (c.chance(1, 3)) {  // skewed towards short values, as DACs are meant for
    size_t n = c.size(small, mid, big);
    std::vector<u64> v(n);
    auto r = c.bulk();
    u64 keep = r.range(1, 6);
    for (auto& x : v) { unsigned k = 1; while (k < w && r.below(keep + 1)) k += (unsigned)r.range(1, 3); x = r.bits(std::min(k, w)); }
    return v;
  }
  return gen_values<u64>(c, c.size(small, mid, big), w);
}

LAW(optimised_layers_are_lossless, 16000, 200000) {
  auto v = values(c, 20, 500, 20000);
  NOTE(c, show(v));
  DacVector d(v);
  c.nontrivial(d.num_layers() > 1);
  c.label_if(v.empty(), "empty");
  c.label_if(d.num_layers() > 1, "several layers");
  c.label_if(d.num_layers() > 3, "over 3 layers");
  c.label_if(!v.empty() && *std::max_element(v.begin(), v.end()) >> 63, "64-bit values");
  REQUIRE(v.empty() || (d.num_layers() >= 1 && d.num_layers() <= 8), "number of layers ", d.num_layers());
  same(d, v, "optimised");
  iterate(d, v, c);
  switch (c.below(3)) {
    case 0: { DacVector e(d); DacVector f; f = e; same(f, v, "copy"); same(d, v, "copy source"); break; }
    case 1: { DacVector e(std::move(d)); DacVector f; f = std::move(e); same(f, v, "move"); break; }
    default: { std::ostringstream o; d.ShowStatus(o); REQUIRE(!o.str().empty(), "status"); }
  }
}

LAW(explicit_layers_are_lossless, 16000, 200000) {
  auto v = values(c, 20, 500, 8000);
  u64 mx = v.empty() ? 0 : *std::max_element(v.begin(), v.end());
  size_t need = bitlen(mx), sum = 0, target = c.coin() ? need : c.range(need, 64);
  std::vector<size_t> units;
  while (sum < target) {
    size_t left = target - sum;
    size_t u = c.chance(1, 6) ? left : c.edgy(1, std::min<size_t>(left, c.coin() ? 8 : 64));
    units.push_back(u);
    sum += u;
  }
  // layers behind those that are needed, or as wide as a value can be
  if (c.chance(1, 4))
    for (size_t k = c.range(1, 3); k--;) {
      size_t u = c.coin() ? 64 : c.edgy(1, 64), at = c.below(units.size() + 1);
      units.insert(units.begin() + (ptrdiff_t)at, u);
      sum += u;
    }
  NOTE(c, show(v), " layers ", show(units));
  DacVector d(v, units);
  c.nontrivial(units.size() > 1 && bitlen(mx) > units[0]);
  c.label_if(sum > need, "wider than needed");
  c.label_if(units.size() > 8, "over 8 layers");
  c.label_if(units.size() == 1 && units[0] == 64, "one 64-bit layer");
  c.label_if(sum > 64, "over 64 bits of layers");
  if (!v.empty()) REQUIRE(d.num_layers() == units.size(), "number of layers ", d.num_layers(), " expected ", units.size());
  same(d, v, "explicit");
  for (size_t i = 0; i < v.size(); i++) {
    // the depth of an element is the number of further layers its value reaches
    size_t dep = 0, cover = units[0];
    while (dep + 1 < units.size() && cover < 64 && (v[i] >> cover)) cover += units[++dep];
    REQUIRE(d.depth(i) == dep, "depth(", i, ")=", d.depth(i), " expected ", dep, " for value ", v[i], " in layers ", show(units));
  }
  iterate(d, v, c);
}

LAW(element_types_do_not_matter, 6000, 80000) {
  auto go = [&](auto tag) {
    using T = decltype(tag);
    auto v = gen_values<T>(c, c.size(20, 300, 3000), (unsigned)c.edgy(1, std::numeric_limits<T>::digits));
    NOTE(c, show(v));
    DacVector d(v);
    c.nontrivial(v.size() > 1);
    same(d, v, "typed");
    DacVector e(v, std::vector<int>{3, 5, 7, 17, 32});
    same(e, v, "typed, explicit int layers");
  };
  switch (c.below(4)) {
    case 0: go(int()); break;
    case 1: go(uint8_t()); break;
    case 2: go(uint32_t()); break;
    default: go(uint64_t());
  }
}

LAW(large_lists_are_lossless, 48, 600) {
  auto v = values(c, 100000, 300000, 1000000);
  NOTE(c, show(v));
  DacVector d(v);
  c.nontrivial(d.num_layers() > 1);
  same(d, v, "large");
  for (size_t k = 0; k < 2000 && !v.empty(); k++) {
    size_t i = k < 500 ? v.size() - 1 - k % v.size() : c.below(v.size()), j = c.below(v.size());
    REQUIRE(d.begin()[(long long)i] == v[i] && *(d.begin() + (long long)i) == v[i] && (d.begin() + (long long)j)[(long long)i - (long long)j] == v[i], "element ", i, " through an iterator");
    REQUIRE((d.begin() + (long long)i) - (d.begin() + (long long)j) == (long long)i - (long long)j, "distance of ", i, " and ", j);
  }
}

LAW_FULL(nothing_is_a_sequence_too, 1, 1, 1, false) {
  DacVector a;
  DacVector b(std::vector<int>{});
  DacVector e(std::vector<u64>{}, std::vector<size_t>{4, 4});
  for (const DacVector* d : {&a, &b, &e}) REQUIRE(d->size() == 0 && d->empty() && !(d->begin() != d->end()), "empty");
  DacVector n = std::vector<int>{1, 2, 3, 4};
  same(n, std::vector<int>{1, 2, 3, 4}, "implicit conversion");
  c.nontrivial();
  NOTE(c, "empty lists; {1,2,3,4}");
}

// lists of more than 2^31 (thorough: 2^32) elements, one and two layers
LAW_HUGE(beyond_32_bits, 1, 3) {
  pbt::MoreMemory more(9000);
  const size_t n = (size_t(1) << (c.thorough() ? 32 : 31)) + c.edgy(100, 5000);
  bool two = c.enum_index(2) == 0;
  NOTE(c, n, " elements, ", two ? "layers of 1 and 7 bits" : "of one bit");
  c.nontrivial(two);
  auto go = [&](auto v, auto build) {
    std::map<size_t, u64> m;
    for (size_t k = 0; k < 200; k++) {
      size_t low = c.below(3000), i = k % 3 == 0 ? low : k % 3 == 1 ? n - 1 - low : c.below(n);
      u64 x = two ? c.edgy(1, 255) : 1;
      v[i] = (uint8_t)x;
      m[i] = x;
    }
    DacVector d = build(v);
    REQUIRE(d.size() == n && d.end() - d.begin() == (long long)n, "size ", d.size(), " expected ", n);
    for (auto& e : m)
      for (size_t j : {e.first, e.first ^ 1, n - 1 - e.first, e.first + 64}) {
        if (j >= n) continue;
        u64 want = m.count(j) ? m[j] : 0;
        REQUIRE(d[j] == want && d.at(j) == want && *(d.begin() + (long long)j) == want, "element ", j, " of ", n, " reads ", d[j], " expected ", want);
        if (two) REQUIRE(d.depth(j) == (want > 1), "depth of element ", j);
        auto it = d.end();
        it -= (long long)(n - j);
        REQUIRE(d.begin()[(long long)j] == want && *it == want && it[0] == want && *(d.end() - (long long)(n - j)) == want, "element ", j, " of ", n, " through an iterator");
        REQUIRE(it - d.begin() == (long long)j && d.end() - it == (long long)(n - j) && d.begin() + (long long)j == it && it < d.end(), "distance to element ", j, " of ", n);
      }
  };
  if (two) go(std::vector<uint8_t>(n), [](const auto& v) { return DacVector(v, std::vector<size_t>{1, 7}); });
  else go(std::vector<bool>(n), [](const auto& v) { return DacVector(v); });
}
