// variants: rel
// scale: 1 3
// rule: for generated contents the processor time per operation is measured on a small and on a 2^6..2^12 times larger
//   instance of every structure; the larger one may not cost more than 20 times the smaller one plus 0.5 us per
//   operation (a linear or quadratic path costs hundreds to thousands of times more), best of up to six
//   measurements; non-trivial = every measured pair
#include "keys.hpp"
#include <ctime>
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/Heap.hpp"
#include "sim_ds/sort.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
using namespace sim_ds;
namespace pm = sim_ds::pattern_matching;

// What the process has allocated so far (a deterministic measure of the work of rebuilding; only library code runs between two readings).
static thread_local size_t g_allocated;
void* operator new(size_t n) { g_allocated += n; if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, std::align_val_t a) { g_allocated += n; if (void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) noexcept { g_allocated += n; *p = aligned_alloc(a, (n + a - 1) / a * a); return *p ? 0 : ENOMEM; }

static double now() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return double(t.tv_sec) * 1e9 + double(t.tv_nsec); }
static volatile u64 g_sink;
// time per operation of f, which performs `ops` of them
template <class F> static double once(size_t ops, F& f) { double t = now(); g_sink = g_sink + f(); return (now() - t) / double(ops); }
template <class F, class G>
static void compare(Case& c, const std::string& what, size_t small_ops, F small, size_t big_ops, G big, double slack = 500) {
  c.nontrivial();
  c.label(what.c_str());
  double s = 1e300, b = 1e300;
  for (int k = 0; k < 6; k++) {
    s = std::min(s, once(small_ops, small));
    b = std::min(b, once(big_ops, big));
    if (b <= 20 * s + slack) return;
  }
  REQUIRE(false, what, ": ", b, " ns per operation on the large instance, ", s, " ns on the small one");
}
static std::vector<size_t> places(Case::Bulk& r, size_t n, size_t k = 4000) { std::vector<size_t> v(k); for (auto& x : v) x = r.below(n); return v; }
static std::vector<bool> bits_of(Case::Bulk& r, size_t n, u64 p, bool clustered) {
  std::vector<bool> b(n);
  if (clustered) { for (size_t i = 0; i < n; i++) b[i] = (i / 2048) % 17 < p; }
  else for (size_t i = 0; i < n; i++) b[i] = r.below(16) < p;
  if (n) b[0] = true;
  return b;
}

LAW(rank_and_select, 16, 60) {
  auto r = c.bulk();
  u64 p = r.range(1, 15);
  bool cl = c.coin();
  size_t n[2] = {4096, size_t(1) << c.range(19, 22)};
  NOTE(c, n[1], " bits, density ", p, "/16 ", cl ? "clustered" : "");
  std::vector<SuccinctBitVector<true>> s;
  std::vector<size_t> at[2], nth[2];
  for (int k = 0; k < 2; k++) {
    auto b = bits_of(r, n[k], p, cl);
    s.emplace_back(BitVector(b));
    at[k] = places(r, n[k]);
    nth[k] = places(r, std::count(b.begin(), b.end(), true));
  }
  auto rank = [&](int k) { return [&, k] { u64 x = 0; for (size_t i : at[k]) x += s[k].rank(i); return x; }; };
  auto sel = [&](int k) { return [&, k] { u64 x = 0; for (size_t i : nth[k]) x += s[k].select(i); return x; }; };
  compare(c, "rank", 4000, rank(0), 4000, rank(1));
  compare(c, "select", 4000, sel(0), 4000, sel(1));
}
// a few ones in a very long sequence: select searches blocks by halving
LAW(select_of_rare_ones, 8, 30) {
  auto r = c.bulk();
  size_t n = size_t(1) << 24, ones = r.range(1, 400);
  BitVector a(size_t(4096)), b(n);
  a[77] = true;
  for (size_t k = 0; k < ones; k++) b[r.below(n)] = true;
  b[n - 1] = true;
  NOTE(c, ones, " ones in ", n, " bits");
  SuccinctBitVector<true> s(a), t(b);
  size_t m = t.rank(n);
  auto q = places(r, m);
  compare(c, "select of rare ones", 4000, [&] { u64 x = 0; for (size_t i : q) x += s.select(i & 0); return x; }, 4000, [&] { u64 x = 0; for (size_t i : q) x += t.select(i); return x; });
}
LAW(sequences, 16, 60) {
  auto r = c.bulk();
  size_t n[2] = {2000, size_t(1) << c.range(18, 20)};
  unsigned w = (unsigned)c.range(1, 8);
  NOTE(c, n[1], " elements of up to ", w, " bits");
  std::vector<u64> v[2];
  std::vector<size_t> at[2];
  for (int k = 0; k < 2; k++) { v[k].resize(n[k]); for (auto& x : v[k]) x = r.bits(1 + r.below(w)); v[k][0] = (u64(1) << w) - 1; at[k] = places(r, n[k]); }
  switch (c.below(5)) {
    case 0: {
      std::vector<uint8_t> y[2] = {{v[0].begin(), v[0].end()}, {v[1].begin(), v[1].end()}};
      WaveletTree t[2] = {WaveletTree(y[0]), WaveletTree(y[1])};
      auto get = [&](int k) { return [&, k] { u64 x = 0; for (size_t i : at[k]) x += t[k][i] + t[k].rank(i) + t[k].rank(y[k][i], i); return x; }; };
      compare(c, "wavelet tree queries", 4000, get(0), 4000, get(1), 3000);
      auto make = [&](int k) { return [&, k] { return WaveletTree(y[k]).size(); }; };
      compare(c, "building a wavelet tree", n[0], make(0), n[1], make(1));
      break;
    }
    case 1: {
      DacVector t[2] = {DacVector(v[0]), DacVector(v[1])};
      auto get = [&](int k) { return [&, k] { u64 x = 0; for (size_t i : at[k]) x += t[k][i]; return x; }; };
      compare(c, "DAC elements", 4000, get(0), 4000, get(1), 2000);
      auto make = [&](int k) { return [&, k] { return DacVector(v[k]).size(); }; };
      compare(c, "building a DAC", n[0], make(0), n[1], make(1));
      break;
    }
    case 2: {
      MultiBitVector<2> t[2];
      for (int k = 0; k < 2; k++) { for (size_t i = 0; i < n[k]; i++) t[k].set(i, v[k][i] & 3); t[k].build(); }
      auto get = [&](int k) { return [&, k] { u64 x = 0; for (size_t i : at[k]) x += t[k][i] ? t[k].rank(i) : 0; return x; }; };
      compare(c, "symbol ranks", 4000, get(0), 4000, get(1));
      auto make = [&](int k) { return [&, k] { MultiBitVector<2> m; for (size_t i = 0; i < n[k]; i++) m.set(i, v[k][i] & 3); m.build(); return m.size_in_bytes(); }; };
      compare(c, "appending and indexing symbols", n[0], make(0), n[1], make(1));
      break;
    }
    case 3: {
      auto make = [&](int k) { return [&, k] { FitVector f{size_t(w)}; for (u64 x : v[k]) f.push_back(x); return f.size(); }; };
      compare(c, "appending values", n[0], make(0), n[1], make(1));
      FitVector t[2] = {FitVector(v[0]), FitVector(v[1])};
      auto get = [&](int k) { return [&, k] { u64 x = 0; for (size_t i : at[k]) { x += t[k][i]; t[k][i] = x & 1; } return x; }; };
      compare(c, "reading and writing values", 4000, get(0), 4000, get(1));
      break;
    }
    default: {
      auto make = [&](int k) { return [&, k] { BitVector f; for (u64 x : v[k]) f.push_back(x & 1); return f.size(); }; };
      compare(c, "appending bits", n[0], make(0), n[1], make(1));
      auto index = [&](int k) { return [&, k] { SuccinctBitVector<true> s(BitVector(n[k], true)); return s.size(); }; };
      compare(c, "indexing bits", n[0], index(0), n[1], index(1));
    }
  }
}
template <class A> static void init_cost(Case& c, A& small, A& big, size_t ns, size_t nb, const char* what) {
  auto r = c.bulk();
  auto p = places(r, ns), q = places(r, nb);
  auto go = [](A& a, std::vector<size_t>& at) { return [&] { u64 x = 0; for (size_t i : at) { a.set(i, i); a.init(i & 7); x += a.get(i); a.set(i, 3); } return x; }; };
  compare(c, what, 4000, go(small, p), 4000, go(big, q));
}
LAW(reinitialising_arrays, 16, 60) {
  if (c.coin()) {
    size_t n = size_t(1) << c.range(16, 22);
    NOTE(c, n, " elements");
    InitializableArrayFolklore<u64> a(64), b(n);
    init_cost(c, a, b, 64, n, "init of an array");
  } else {
    constexpr size_t N = size_t(1) << 18;
    NOTE(c, N, " elements in place");
    using S = InitializableArray<uint64_t, 64>;
    using B = InitializableArray<uint64_t, N>;
    auto a = std::make_unique<S>(1);
    auto b = std::make_unique<B>(1);
    auto r = c.bulk();
    auto p = places(r, 64), q = places(r, N);
    compare(c, "init of an array in place", 4000, [&] { u64 x = 0; for (size_t i : p) { a->set(i, i); a->init(i & 7); x += a->get(i); a->set(i, 3); } return x; },
            4000, [&] { u64 x = 0; for (size_t i : q) { b->set(i, i); b->init(i & 7); x += b->get(i); b->set(i, 3); } return x; });
  }
}
LAW(hash_tables, 16, 60) {
  auto r = c.bulk();
  size_t n[2] = {500, size_t(1) << c.range(16, 18)};
  unsigned bits = (unsigned)c.range(24, 60);
  NOTE(c, n[1], " keys of ", bits, " bits");
  std::vector<u64> keys[2];
  for (int k = 0; k < 2; k++) { keys[k].resize(n[k]); for (auto& x : keys[k]) x = r.bits(bits); }
  auto fill = [&](int k) { return [&, k] { CHT<20> h(bits); for (u64 x : keys[k]) h.set(x, x & 0xfffff); return h.size(); }; };
  compare(c, "filling a hash table", n[0], fill(0), n[1], fill(1), 2000);
  CHT<20> h[2] = {CHT<20>(bits), CHT<20>(bits)};
  for (int k = 0; k < 2; k++) for (u64 x : keys[k]) h[k].set(x, 7);
  auto get = [&](int k) { return [&, k] { u64 s = 0; for (u64 x : keys[k]) s += h[k].get(x).second + h[k].get(x ^ 1).first; return s; }; };
  compare(c, "hash table lookups", n[0], get(0), n[1], get(1), 2000);
}
// erasing and inserting around any size does not keep rebuilding the table
LAW(hash_tables_under_churn, 24, 200) {
  auto r = c.bulk();
  size_t n = c.range(1, c.coin() ? 40 : 3000), erased = c.below(n);
  unsigned bits = (unsigned)c.range(13, 50);
  NOTE(c, n, " keys of ", bits, " bits, ", erased, " of them erased, then churn");
  std::vector<u64> keys;
  std::set<u64> used;
  while (keys.size() < n + 400) { u64 x = r.bits(bits); if (used.insert(x).second) keys.push_back(x); }
  CHT<20> h(bits);
  for (size_t i = 0; i < n; i++) h.set(keys[i], i & 0xfffff);
  for (size_t i = 0; i < erased; i++) h.erase(keys[n - 1 - i]);
  auto fill = [&] { CHT<20> t(bits); for (size_t i = 0; i < n + 400; i++) t.set(keys[i], i & 0xfffff); return (u64)t.size(); };
  auto same = [&] { for (size_t k = 0; k < 400; k++) { h.set(keys[0], 7); h.erase(keys[0]); } return (u64)h.size(); };
  compare(c, "churn of one key", n + 400, fill, 800, same, 2000);
  auto other = [&] { for (size_t k = 0; k < 400; k++) { h.set(keys[n + k], 7); h.erase(keys[n + k]); } return (u64)h.size(); };
  compare(c, "churn of many keys", n + 400, fill, 800, other, 2000);
  auto up = [&] { for (size_t k = 0; k < 400; k++) { h.erase(keys[n + k]); h.set(keys[n + k], 7); } for (size_t k = 0; k < 400; k++) h.erase(keys[n + k]); return (u64)h.size(); };
  compare(c, "growing and shrinking by 400 keys", n + 400, fill, 1200, up, 2000);
}
LAW(compressed_arrays, 8, 30) {
  auto r = c.bulk();
  size_t n[2] = {500, size_t(1) << c.range(14, 16)};
  NOTE(c, n[1], " elements");
  std::vector<u64> v[2];
  std::vector<CDRWArray> a;
  for (int k = 0; k < 2; k++) { v[k].resize(n[k]); for (auto& x : v[k]) x = r.bits(1 + r.below(20)); a.emplace_back(v[k].begin(), v[k].end()); }
  auto get = [&](int k) { return [&, k] { u64 s = 0; for (size_t i = 0; i < n[k]; i++) s += a[k].get(i); return s; }; };
  compare(c, "compressed array elements", n[0], get(0), n[1], get(1), 4000);
  // growing, one or a few elements at a time, against filling one that is large enough
  size_t step = c.range(1, 3), m = c.range(3000, 6000);
  auto fill = [&] { CDRWVector x(m); for (size_t i = 0; i < m; i++) x.set(i, v[1][i]); return (u64)x.size(); };
  auto push = [&] { CDRWVector x; for (size_t i = 0; i < m; i++) x.push_back(v[1][i]); return (u64)x.size(); };
  compare(c, "appending to a compressed vector", m, fill, m, push, 2000);
  auto grow = [&] { CDRWVector x; for (size_t i = 0; i < m; i++) { if (i >= x.size()) x.resize(x.size() + step); x.set(i, v[1][i]); } return (u64)x.size(); };
  compare(c, "growing a compressed vector", m, fill, m, grow, 2000);
  auto drain = [&] { CDRWVector x(m); for (size_t i = 0; i < m; i++) x.set(i, v[1][i]); while (!x.empty()) x.pop_back(); return (u64)x.capacity(); };
  compare(c, "draining a compressed vector", m, fill, m, drain, 2000);
  auto sort = [&] { CDRWVector x; for (size_t i = 0; i < m; i++) { x.reserve(i + 1); x.push_back(v[1][i]); } return (u64)x.size(); };
  compare(c, "reserving one more in a compressed vector", m, fill, m, sort, 2000);
  // to and fro where the capacity has just changed, growing and shrinking
  auto shuttle = [&](size_t top) {
    CDRWVector x;
    u64 changes = 0;
    auto swing = [&] { for (size_t i = 0; i < top / 8; i++) { x.pop_back(); x.pop_back(); x.push_back(5); x.push_back(9); changes += 4; } };
    auto step = [&](bool up) { size_t cap = x.capacity(); if (up) x.push_back(x.size()); else x.pop_back(); if (x.capacity() != cap && x.size() > top / 5) swing(); };
    while (x.size() < top) step(true);
    while (x.size() > top / 5) step(false);
    return changes;
  };
  u64 swings = shuttle(m);
  compare(c, "a compressed vector that goes to and fro", m, fill, m + swings, [&] { return shuttle(m); }, 2000);
}
// questions about a whole sequence, its ends, and jumps of iterators take no time that depends on it
template <class V> static u64 whole(const V& v, size_t rounds) {
  u64 x = 0;
  for (size_t k = 0; k < rounds; k++) {
    x += v.size() + (v.size() == 0);
    if constexpr (!std::is_same_v<V, WaveletTree> && !std::is_same_v<V, SuccinctBitVector<true>>) {
      auto b = v.begin(), e = v.end(), m = b + (ptrdiff_t)(v.size() / 2 + k % 7);
      x += u64(e - b) + u64(m - b) + u64(*m) + u64(v.front()) + u64(v.back()) + v.empty() + u64(v.at(v.size() - 1 - k % 3)) + u64(m < e) + u64(b[(ptrdiff_t)(v.size() - 1)]);
      m += (ptrdiff_t)(v.size() / 4);
      m -= (ptrdiff_t)(v.size() / 3);
      x += u64(*(e - (ptrdiff_t)(1 + k % 5))) + u64(m - b);
    }
  }
  return x;
}
template <class V> static void whole_cost(Case& c, const char* what, const V& small, const V& big) {
  compare(c, what, 2000, [&] { return whole(small, 2000); }, 2000, [&] { return whole(big, 2000); }, 4000);
}
LAW(ends_sizes_and_jumps, 12, 60) {
  auto r = c.bulk();
  size_t n[2] = {500, size_t(1) << c.range(18, 20)};
  unsigned w = (unsigned)c.range(1, 8);
  NOTE(c, n[1], " elements of up to ", w, " bits");
  std::vector<u64> v[2];
  for (int k = 0; k < 2; k++) { v[k].resize(n[k]); for (auto& x : v[k]) x = r.bits(1 + r.below(w)); v[k][0] = (u64(1) << w) - 1; }
  switch (c.below(6)) {
    case 0: { BitVector a(n[0], true), b(n[1], true); whole_cost(c, "size, ends and jumps in a bit vector", a, b); break; }
    case 1: { FitVector a(v[0]), b(v[1]); whole_cost(c, "size, ends and jumps in a packed vector", a, b); break; }
    case 2: { DacVector a(v[0]), b(v[1]); whole_cost(c, "size, ends and jumps in a DAC", a, b); break; }
    case 3: { WaveletTree a(v[0]), b(v[1]); whole_cost(c, "size of a wavelet tree", a, b); break; }
    case 4: { SuccinctBitVector<true> a{BitVector(n[0], true)}, b{BitVector(n[1], true)}; whole_cost(c, "size of a succinct bit vector", a, b); break; }
    default: {
      CHT<16> a(40), b(40);
      MultipleVector x, y;
      CDRWVector s, t;
      for (auto* m : {&x, &y}) m->set_element_sizes(std::vector<size_t>{3, 2});
      for (size_t i = 0; i < 200; i++) { a.set(i * 77, i); x.push_back({i, 1}); s.push_back(i); }
      for (size_t i = 0; i < 60000; i++) { b.set(i * 77, i); y.push_back({i, 1}); t.push_back(i); }
      auto ask = [](const auto& h, const auto& m, const auto& d) { return [&] { u64 q = 0; for (int k = 0; k < 2000; k++) q += h.size() + h.bucket() + m.size() + m.block_size() + m.element_size(1) + d.size() + d.capacity() + d.empty(); return q; }; };
      compare(c, "sizes of a hash table, a record vector and a compressed vector", 2000, ask(a, x, s), 2000, ask(b, y, t), 1000);
    }
  }
}
LAW(record_vectors, 8, 30) {
  size_t n[2] = {500, size_t(1) << c.range(16, 18)};
  size_t a = c.range(0, 8), b = c.range(1, 8);
  NOTE(c, n[1], " records of ", a, " and ", b, " bytes");
  auto make = [&](int k) { return [&, k] { MultipleVector v; v.set_element_sizes(std::vector<size_t>{a, b}); for (size_t i = 0; i < n[k]; i++) v.push_back({i & (a ? 0x7f : 0), i & 0x7f}); return (u64)v.size(); }; };
  compare(c, "appending records", n[0], make(0), n[1], make(1));
  MultipleVector v[2];
  for (int k = 0; k < 2; k++) { v[k].set_element_sizes(std::vector<size_t>{a, b}); v[k].resize(n[k], {0, 5}); }
  auto get = [&](int k) { return [&, k] { u64 s = 0; for (size_t i = 0; i < n[k]; i++) s += (u64)v[k].nested_element<1>(i * 7919 % n[k]); return s; }; };
  compare(c, "reading records", n[0], get(0), n[1], get(1));
}
LAW(heaps_and_sorting, 16, 60) {
  auto r = c.bulk();
  size_t n[2] = {1000, size_t(1) << c.range(16, 18)}, shape = c.below(5);
  NOTE(c, n[1], " elements, shape ", shape);
  std::vector<u64> v[2];
  for (int k = 0; k < 2; k++) {
    v[k].resize(n[k]);
    for (size_t i = 0; i < n[k]; i++) v[k][i] = shape == 0 ? r.next() : shape == 1 ? i : shape == 2 ? n[k] - i : shape == 3 ? 7 : i % 3;
  }
  auto sort = [&](int k) { return [&, k] { auto w = v[k]; HeapSort(w.begin(), w.end()); return w[0]; }; };
  compare(c, "sorting", n[0], sort(0), n[1], sort(1));
  auto heap = [&](int k) { return [&, k] { Heap<true> h; for (u64 x : v[k]) h.push(x); u64 s = 0; while (h.size()) { s += h.front(); h.pop(); } return s; }; };
  compare(c, "pushing and popping", n[0], heap(0), n[1], heap(1));
  auto made = [&](int k) { return [&, k] { return (u64)Heap<true>(v[k]).front(); }; };
  compare(c, "making a heap", n[0], made(0), n[1], made(1));
}
static std::string worst_text(Case& c, size_t n) {
  std::string s;
  switch (c.below(3)) {
    case 0: s.assign(n, 'a'); break;
    case 1: { std::string x = "a", y = "ab"; while (y.size() < n) { std::string z = y + x; x = y; y = z; } s = y.substr(0, n); break; }
    default: { std::string u; for (size_t p = c.range(1, 9); p--;) u += (char)('a' + c.below(2)); while (s.size() < n) s += u; s.resize(n); }
  }
  return s;
}
LAW(kmp_is_linear, 16, 60) {
  std::string t = worst_text(c, 1 << 17);
  size_t m = size_t(1) << c.range(12, 15);
  std::string q = t.substr(0, m), p = t.substr(0, 16);
  if (c.coin()) { q[m - 1] ^= 1; p[15] ^= 1; }
  NOTE(c, "pattern of ", m, " in a repetitive text of ", t.size());
  auto find = [&](const std::string& s) { return [&] { return (u64)pm::PatternMatchKMP(t, s).size(); }; };
  compare(c, "KMP", t.size(), find(p), t.size(), find(q), 300);
}
LAW(suffix_arrays_are_near_linear, 8, 30) {
  std::string t = worst_text(c, 1 << 17), s = t.substr(0, 2048);
  NOTE(c, "repetitive text of ", t.size());
  std::ostringstream sink;
  auto* old = std::cout.rdbuf(sink.rdbuf());
  struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{old};
  auto make = [&](const std::string& x) { return [&] { SuffixArray a(x); return (u64)a.char_at(0); }; };
  compare(c, "building a suffix array", s.size(), make(s), t.size(), make(t), 1000);
}
LAW(dictionaries, 8, 30) {
  auto r = c.bulk();
  std::vector<std::string> v[2];
  for (int k = 0; k < 2; k++) {
    std::set<std::string> m;
    for (size_t i = 0; i < (k ? 20000u : 50u); i++) { std::string s(8, 0); for (auto& x : s) x = (char)('a' + r.below(26)); m.insert(s); }
    v[k].assign(m.begin(), m.end());
  }
  NOTE(c, v[1].size(), " keys");
  SamcDict<uint32_t> d[2] = {SamcDict<uint32_t>(v[0].begin(), v[0].end()), SamcDict<uint32_t>(v[1].begin(), v[1].end())};
  auto ask = [&](int k) { return [&, k] { u64 s = 0; for (size_t n = 0; n < 4000; n++) s += d[k].lookup(v[k][n * 7919 % v[k].size()]); return s; }; };
  auto get = [&](int k) { return [&, k] { u64 s = 0; for (size_t n = 0; n < 4000; n++) s += d[k].access(n * 7919 % v[k].size()).size(); return s; }; };
  compare(c, "dictionary lookups", 4000, ask(0), 4000, ask(1), 2000);
  compare(c, "dictionary accesses", 4000, get(0), 4000, get(1), 2000);
  auto trie = [&](int k) { return [&, k] { graph_util::Trie<int> t; for (auto& s : v[k]) t.insert(s, 1); u64 x = 0; for (auto& s : v[k]) x += *t.traverse(s); return x; }; };
  compare(c, "trie", v[0].size(), trie(0), v[1].size(), trie(1), 8000);
}
// Growing and shrinking to and fro at any size: what is allocated on the way, over many operations, is a few times the
// structure and a constant per operation, so that there is no size at which it is built anew again and again.
template <class X, class Up, class Down, class Idle>
static void swing(Case& c, const char* what, X x, size_t top, size_t per_op, Up up, Down down, Idle idle) {
  c.label(what);
  const size_t rounds = 60;
  size_t size = 0;
  auto at = [&](const char* way) {
    size_t a = g_allocated;
    { X y(x); g_sink = g_sink + (size_t)(y.size() & 1); }
    size_t own = g_allocated - a;
    size_t wide = c.one_of(std::vector<size_t>{1, 1, 2, 3, 5});
    if (wide > size) wide = size;
    a = g_allocated;
    size_t ops = 0;
    for (size_t k = 0; k < rounds; k++) {
      idle(x);
      for (size_t i = 0; i < wide; i++) down(x, --size);
      for (size_t i = 0; i < wide; i++) up(x, size++);
      ops += 1 + 2 * wide;
    }
    size_t spent = g_allocated - a, limit = 16 * own + per_op * ops + 4096;
    REQUIRE(spent <= limit, what, ": ", ops, " operations to and fro at size ", size, " (", way, ") allocated ", spent, " bytes; the structure takes ", own);
  };
  size_t stride = c.coin() ? 1 : c.range(1, 9);
  while (size < top) { up(x, size++); if (size % stride == 0) at("growing"); }
  while (size > 0) { down(x, --size); if (size % stride == 0) at("shrinking"); }
}
LAW(nothing_is_rebuilt_over_and_over, 48, 400) {
  auto r = c.bulk();
  unsigned bits = (unsigned)c.range(14, 50), w = (unsigned)c.range(1, 64);
  size_t top = c.range(300, 700);
  std::vector<u64> keys;
  std::set<u64> used;
  while (keys.size() < top + 1) { u64 x = r.bits(bits); if (used.insert(x).second) keys.push_back(x); }
  u64 none = keys[top];
  c.nontrivial();
  auto nothing = [](auto&) {};
  size_t kind = c.below(8);
  NOTE(c, "kind ", kind, ", up to ", top, " elements, keys of ", bits, " bits, width ", w);
  switch (kind) {
    case 0: case 1: {
      auto go = [&](auto h) {
        swing(c, "hash table", std::move(h), top, 8000, [&](auto& x, size_t i) { x.set(keys[i], i & 0xff); }, [&](auto& x, size_t i) { x.erase(keys[i]); }, [&](auto& x) { x.erase(none); });
      };
      if (kind) go(CHT<16>(bits)); else if (c.coin()) go(CHT<8, 80>(bits)); else go(CHT<12, 25>(bits));
      break;
    }
    case 2: swing(c, "compressed vector", CDRWVector(), top, 16000, [&](auto& x, size_t i) { x.push_back(keys[i]); }, [](auto& x, size_t) { x.pop_back(); }, nothing); break;
    case 3: swing(c, "bit vector", BitVector(), 8 * top, 32, [](auto& x, size_t i) { if (i % 8 == 3) x.resize(x.size() + 97, i & 1); else x.resize(x.size() + 97); }, [](auto& x, size_t) { x.resize(x.size() - 97); }, nothing); break;
    case 4: swing(c, "packed vector", FitVector(size_t(w)), 8 * top, 32, [](auto& x, size_t i) { x.push_back(i & 1); }, [](auto& x, size_t) { x.resize(x.size() - 1); }, nothing); break;
    case 5: { MultipleVector m; m.set_element_sizes(std::vector<size_t>{3, 8}); swing(c, "record vector", m, top, 32, [](auto& x, size_t i) { if (i & 1) x.push_back({i, i}); else x.resize(x.size() + 1, {i, i}); }, [](auto& x, size_t) { x.resize(x.size() - 1); }, nothing); break; }
    case 6: swing(c, "heap", Heap<true>(), top, 32, [&](auto& x, size_t i) { x.push(keys[i]); }, [](auto& x, size_t) { x.pop(); }, nothing); break;
    default: swing(c, "fixed-size compressed array", CDRWArray(top), top, 8000, [&](auto& x, size_t i) { x.set(i, keys[i] % 8 + 8); }, [](auto& x, size_t i) { x.set(i, 0); }, nothing);
  }
}
