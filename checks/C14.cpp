// variants: rel asan dbg
// scale: 12 15
// rule: ranges of integers, strings and keyed records in vectors, deques and plain arrays (0..10^5 elements; random,
//   sorted, reversed, many ties, organ pipes), default and custom orderings; the result must be the sorted
//   permutation of the range and nothing outside it may change; non-trivial = at least 3 elements, not yet sorted
#include "common.hpp"
#include <deque>
#include "sim_ds/sort.hpp"
using namespace sim_ds;

static std::vector<int64_t> values(Case& c, size_t small, size_t mid, size_t big) {
  size_t n = c.size(small, mid, big);
  std::vector<int64_t> v(n);
  if (n <= 12 && c.coin()) { for (auto& x : v) x = (int64_t)c.below(10) - 3; return v; }
  size_t shape = c.below(6);
  auto r = c.bulk();
  unsigned w = (unsigned)(r.below(2) ? r.range(1, 6) : r.range(1, 64));
  for (auto& x : v) x = (int64_t)r.bits(w) - (w < 60 ? (int64_t)(u64(1) << w >> 1) : 0);
  switch (shape) {
    case 0: std::sort(v.begin(), v.end()); break;
    case 1: std::sort(v.rbegin(), v.rend()); break;
    case 2: std::sort(v.begin(), v.begin() + n / 2); std::sort(v.rbegin(), v.rend() - n / 2); break;
    case 3: std::sort(v.begin(), v.end()); for (u64 k = r.below(6); n && k--;) std::swap(v[r.below(n)], v[r.below(n)]); break;
    default:;
  }
  return v;
}
static std::string shown(const std::vector<int64_t>& v) { std::string s = cat(v.size(), " values "); for (size_t i = 0; i < v.size() && i < 60; i++) s += cat(v[i], " "); return s; }

LAW(sorts_any_range, 16000, 200000) {
  auto v = values(c, 12, 150, 3000);
  NOTE(c, shown(v));
  c.nontrivial(v.size() >= 3 && !std::is_sorted(v.begin(), v.end()));
  c.label_if(v.empty(), "empty");
  c.label_if(v.size() == 1, "one element");
  auto s = v;
  std::sort(s.begin(), s.end());
  switch (c.below(8)) {
    case 0: { auto w = v; HeapSort(w.begin(), w.end()); REQUIRE(w == s, "sorted ", shown(v), " into ", shown(w)); break; }
    case 1: { auto w = v; HeapSort(w.begin(), w.end(), std::greater<int64_t>()); std::reverse(s.begin(), s.end()); REQUIRE(w == s, "sorted down ", shown(v), " into ", shown(w)); break; }
    case 2: { std::deque<int64_t> w(v.begin(), v.end()); HeapSort(w.begin(), w.end()); REQUIRE(std::vector<int64_t>(w.begin(), w.end()) == s, "deque of ", shown(v)); break; }
    case 3: { auto w = v; HeapSort(w.data(), w.data() + w.size()); REQUIRE(w == s, "array of ", shown(v)); break; }
    case 4: {  // only the given part of the range is touched
      size_t a = c.below(v.size() + 1), b = c.range(a, v.size());
      auto w = v, e = v;
      std::sort(e.begin() + a, e.begin() + b);
      HeapSort(w.begin() + a, w.begin() + b);
      REQUIRE(w == e, "part [", a, ",", b, ") of ", shown(v), " became ", shown(w));
      break;
    }
    case 5: {  // records ordered by a key that may tie keep their identity
      struct Rec { int64_t key; size_t id; };
      std::vector<Rec> w;
      int64_t m = 1 + (int64_t)c.below(20);
      for (size_t i = 0; i < v.size(); i++) w.push_back({v[i] % m, i});
      HeapSort(w.begin(), w.end(), [](const Rec& l, const Rec& r) { return l.key < r.key; });
      std::vector<bool> seen(v.size());
      for (size_t i = 0; i < w.size(); i++) {
        REQUIRE(i == 0 || w[i - 1].key <= w[i].key, "records out of order at ", i);
        REQUIRE(w[i].id < v.size() && !seen[w[i].id] && w[i].key == v[w[i].id] % m, "record ", w[i].id, " lost or altered");
        seen[w[i].id] = true;
      }
      break;
    }
    case 6: {
      std::vector<std::string> w, e;
      for (auto x : v) w.push_back(cat("key-of-some-length-", x));
      e = w;
      std::sort(e.begin(), e.end());
      HeapSort(w.begin(), w.end());
      REQUIRE(w == e, "strings of ", shown(v));
      break;
    }
    default: { std::vector<uint8_t> w(v.begin(), v.end()), e = w; std::sort(e.begin(), e.end()); HeapSort(w.begin(), w.end()); REQUIRE(w == e, "bytes of ", shown(v)); }
  }
}
LAW(sorts_long_ranges, 64, 1000) {
  auto v = values(c, 10000, 40000, 200000), s = v, w = v;
  NOTE(c, shown(v));
  c.nontrivial(!std::is_sorted(v.begin(), v.end()));
  std::sort(s.begin(), s.end());
  HeapSort(w.begin(), w.end());
  REQUIRE(w == s, "long range");
}
// every sequence of up to 6 values out of {0..3}
LAW_ENUM(every_small_range, 5461) {
  u64 k = c.enum_index(5461);
  size_t n = 0;
  u64 block = 1;
  while (k >= block) { k -= block; block *= 4; n++; }
  std::vector<int> v;
  for (size_t i = 0; i < n; i++) { v.push_back(k & 3); k >>= 2; }
  auto s = v, w = v;
  NOTE(c, show(v));
  c.nontrivial(n >= 3);
  std::sort(s.begin(), s.end());
  HeapSort(w.begin(), w.end());
  REQUIRE(w == s, "sorted ", show(v), " into ", show(w));
}
LAW_FULL(nothing_to_sort, 1, 1, 1, false) {
  std::vector<int> none;
  HeapSort(none.begin(), none.end());
  std::deque<int> nodeque;
  HeapSort(nodeque.begin(), nodeque.end());
  int* null = nullptr;
  HeapSort(null, null);
  std::vector<int> some = {3, 1, 2};
  HeapSort(some.begin() + 1, some.begin() + 1);
  REQUIRE((some == std::vector<int>{3, 1, 2}), "an empty part was sorted");
  c.nontrivial();
  NOTE(c, "empty vector, deque, null range, empty part of a vector");
}
// more elements than 16, 20, 24 bits count
LAW_HUGE(sorts_very_long_ranges, 12, 60) {
  unsigned e = 17 + (unsigned)c.below(c.thorough() ? 9 : 6);
  size_t n = (size_t(1) << e) + c.below(size_t(1) << e);
  auto r = c.bulk();
  unsigned w = (unsigned)r.range(1, 33);
  std::vector<uint32_t> v(n);
  for (auto& x : v) x = (uint32_t)r.bits(w > 32 ? 32 : w);
  size_t shape = c.below(3), a = c.coin() ? c.below(50) : 0, b = n - (c.coin() ? c.below(50) : 0);
  if (shape == 0) std::sort(v.begin(), v.end());
  if (shape == 1) std::sort(v.rbegin(), v.rend());
  NOTE(c, n, " elements, shape ", shape);
  c.nontrivial();
  auto s = v;
  std::sort(s.begin() + a, s.begin() + b);
  HeapSort(v.begin() + a, v.begin() + b);
  REQUIRE(v == s, "part [", a, ",", b, ") of a range of ", n, " elements, shape ", shape);
}
