// variants: rel asan O3 dbg clang
// rule: histories of set / get / init / fill / copies over in-place arrays of 1..257 elements of integer and floating
//   types and the general arrays of any size and type, against a plain array; values are biased to even
//   small numbers, which look like the structure's own links; non-trivial = init in the middle of writes
#include <sys/mman.h>
#include "common.hpp"
#include "sim_ds/InitializableArray.hpp"
using namespace sim_ds;

template <class T> static T val(Case& c, size_t n) {
  if constexpr (std::is_same_v<T, std::string>) return cat("value ", c.below(50));
  else if constexpr (std::is_floating_point_v<T>) {
    // bit patterns that spell small even integers, and ordinary numbers
    if (c.coin()) return (T)((double)c.below(200) - 50) / 4;
    T x = 0; u64 p = c.below(n + 4); memcpy(&x, &p, std::min(sizeof(T), sizeof(p))); return x;
  } else return (T)(c.chance(3, 4) ? c.below(n + 4) : c.bits(std::numeric_limits<T>::digits));
}
template <class T> static bool eq(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>) return memcmp(&a, &b, std::min<size_t>(sizeof(T), 10)) == 0; else return a == b;
}
template <class A, class T>
static void agree(const A& a, const std::vector<T>& m, const std::string& h) {
  REQUIRE(a.size() == m.size(), "size ", a.size(), " expected ", m.size());
  for (size_t i = 0; i < m.size(); i++) { T g = a.get(i); REQUIRE(eq<T>(g, m[i]), "element ", i, " of ", m.size(), " reads ", g, " expected ", m[i], "; ", h); }
}
template <class A, class T>
static void history(Case& c, A& a, std::vector<T> m, std::string h, size_t steps) {
  agree(a, m, h);
  size_t mid_init = 0, writes = 0;
  const size_t n = m.size();
  for (size_t s = 0; s < steps; s++) {
    switch (c.weighted({14, 1, 1, 1})) {
      case 0: {
        if (!n) break;
        size_t i = c.below(n);
        T v = val<T>(c, n);
        a.set(i, v);
        m[i] = v;
        writes++;
        if (h.size() < 2000) h += cat(i, "=", v, "; ");
        break;
      }
      case 1: { T v = val<T>(c, n); if (c.coin()) a.init(v); else a.fill(v); m.assign(n, v); mid_init += writes > 0; h += cat("init ", v, "; "); break; }
      case 2: if (c.coin()) { if (c.coin()) a.init(); else a.fill(); m.assign(n, T()); mid_init += writes > 0; h += "init; "; } break;
      default: {
        A b(a);
        agree(b, m, h + "(copy)");
        if (n) b.set(c.below(n), val<T>(c, n));
        b.init();
        if (c.coin()) { A d(a); a = d; h += "copy; "; }
      }
    }
    if (n < 80 || s % 8 == 0) agree(a, m, h);
  }
  agree(a, m, h);
  NOTE(c, n, " elements: ", h);
  c.nontrivial(mid_init > 0);
  c.label_if(n % 2, "odd size");
  c.label_if(mid_init > 3, "over 3 inits");
}
static void __attribute__((noinline)) smear(void* p, size_t n, Case::Bulk r) {
  // memory that held anything before, links of an earlier array among it
  unsigned char* b = (unsigned char*)p;
  switch (r.below(3)) {
    case 0: for (size_t i = 0; i < n; i++) b[i] = (unsigned char)r.next(); break;
    case 1: memset(b, (int)r.below(256), n); break;
    default: memset(b, 0, n); { size_t w = size_t(1) << r.below(4); for (size_t i = 0; i + w <= n; i += w) b[i] = (unsigned char)(r.below(64) * 2); }
  }
  asm volatile("" ::"r"(p) : "memory");
}
// the elements through iterators and element assignment, where the array has them
template <class A, class T> static void walk(Case& c, A& a, std::vector<T>& m) {
  const A& ca = a;
  const size_t N = m.size();
  auto same = [&](const char* how) {
    size_t k = 0;
    for (T x : ca) { REQUIRE(k < N && eq<T>(x, m[k]), how, ": element ", k, " of ", N, " by const iteration"); k++; }
    REQUIRE(k == N, how, ": const iteration gives ", k, " of ", N);
    k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k) REQUIRE(k < N && eq<T>(T(*it), m[k]), how, ": element ", k, " of ", N, " by iteration");
    REQUIRE(k == N, how, ": iteration gives ", k, " of ", N);
  };
  same("as it is");
  size_t i = c.below(N), j = c.below(N);
  a[i] = a[j]; m[i] = m[j];
  same("a[i] = a[j]");
  auto it = a.begin() + i;
  REQUIRE(size_t(it - a.begin()) == i && a.end() - it == ptrdiff_t(N - i) && (it < a.end()) && !(it == a.end()) && it >= a.begin(), "iterator arithmetic at ", i);
  {
    auto x = a.begin() + i, y = a.begin() + j;
    auto cx = ca.begin() + i, cy = ca.begin() + j;
    REQUIRE((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j) && x - y == ptrdiff_t(i) - ptrdiff_t(j), "iterators to ", i, " and ", j, " compare wrongly");
    REQUIRE((cx < cy) == (i < j) && (cx > cy) == (i > j) && (cx <= cy) == (i <= j) && (cx >= cy) == (i >= j) && (cx == cy) == (i == j) && (cx != cy) == (i != j) && cx - cy == ptrdiff_t(i) - ptrdiff_t(j), "const iterators to ", i, " and ", j, " compare wrongly");
    auto p = x++;
    REQUIRE(p == a.begin() + i && x == a.begin() + (i + 1), "it++ at ", i);
    p = x--;
    REQUIRE(p == a.begin() + (i + 1) && x == a.begin() + i, "it-- at ", i + 1);
    REQUIRE(++x == a.begin() + (i + 1) && --x == a.begin() + i && (ptrdiff_t)i + a.begin() == x && (x -= (ptrdiff_t)i) == a.begin(), "steps at ", i);
    typename A::iterator none;
    none = y;
    REQUIRE(none == y, "assigning to a default iterator");
  }
  REQUIRE(eq<T>(T(it[(ptrdiff_t)j - (ptrdiff_t)i]), m[j]), "it[n] from ", i, " to ", j);
  T v = val<T>(c, N);
  *it = v; m[i] = v;
  it += (ptrdiff_t)j - (ptrdiff_t)i; *it = *(a.begin() + i); m[j] = m[i];
  same("writes through iterators");
  typename A::const_iterator ci = it;
  REQUIRE(eq<T>(T(*ci), m[j]) && ci == ca.begin() + j && ci == ca.cend() - (ptrdiff_t)(N - j), "conversion to const_iterator");
  size_t lo = c.below(N + 1), hi = lo + c.below(N + 1 - lo);
  auto up = [](T x) { if constexpr (std::is_same_v<T, bool>) return !x; else if constexpr (std::is_integral_v<T>) return T(std::make_unsigned_t<T>(x) + 1u); else return T(x + 1); };
  switch (c.below(4)) {
    case 0: { T w = val<T>(c, N); std::fill(a.begin() + lo, a.begin() + hi, w); std::fill(m.begin() + lo, m.begin() + hi, w); break; }
    case 1: { std::vector<T> tmp(ca.begin() + lo, ca.begin() + hi); std::copy(tmp.rbegin(), tmp.rend(), a.begin() + lo); std::reverse(m.begin() + lo, m.begin() + hi); break; }
    case 2: std::transform(ca.cbegin() + lo, ca.cbegin() + hi, a.begin() + lo, up); std::transform(m.begin() + lo, m.begin() + hi, m.begin() + lo, up); break;
    default: { size_t k = N; for (auto r = a.end(); r != a.begin();) { --r; --k; REQUIRE(eq<T>(T(*r), m[k]), "backwards at ", k); } }
  }
  same("an algorithm over the iterators");
}
template <class T, size_t N> static void inplace(Case& c) {
  using A = InitializableArray<T, N>;
  auto* mem = static_cast<unsigned char*>(::operator new(sizeof(A), std::align_val_t(64)));
  struct Free { void* p; ~Free() { ::operator delete(p, std::align_val_t(64)); } } guard{mem};
  smear(mem, sizeof(A), c.bulk());
  T init = c.coin() ? T() : val<T>(c, N);
  A* a = new (mem) A(init);
  history<A, T>(c, *a, std::vector<T>(N, init), cat("initial ", init, "; "), c.size(12, 60, 300));
  // the bracket forms read and write the same elements
  size_t i = c.below(N);
  T v = val<T>(c, N);
  (*a)[i] = v;
  const A& ca = *a;
  REQUIRE(eq<T>(T((*a)[i]), v) && eq<T>(T(ca[i]), v) && eq<T>(a->get(i), v), "bracket access to ", i);
  std::vector<T> m(N);
  for (size_t k = 0; k < N; k++) m[k] = a->get(k);
  walk(c, *a, m);
}
LAW(in_place_arrays, 24000, 300000) {
  switch (c.below(27)) {
    case 22: inplace<uint8_t, 255>(c); break;
    case 23: inplace<int8_t, 127>(c); break;
    case 24: inplace<int16_t, 300>(c); break;
    case 25: inplace<bool, 2>(c); break;
    case 26: inplace<char16_t, 33>(c); break;
    case 20: inplace<long double, 9>(c); break; // wider than a link
    case 21: inplace<long double, 34>(c); break;
    case 0: inplace<uint8_t, 256>(c); break;
    case 1: inplace<int, 1>(c); break;
    case 2: inplace<int, 2>(c); break;
    case 3: inplace<int, 3>(c); break;
    case 4: inplace<int, 7>(c); break;
    case 5: inplace<int, 10>(c); break;
    case 6: inplace<int, 31>(c); break;
    case 7: inplace<int, 64>(c); break;
    case 8: inplace<int, 257>(c); break;
    case 9: inplace<int8_t, 128>(c); break;
    case 10: inplace<uint16_t, 50>(c); break;
    case 11: inplace<int64_t, 20>(c); break;
    case 12: inplace<uint64_t, 12>(c); break;
    case 13: inplace<double, 16>(c); break;
    case 14: inplace<float, 25>(c); break;
    case 15: inplace<uint32_t, 6>(c); break;
    case 16: inplace<uint8_t, 4>(c); break;
    case 17: inplace<uint8_t, 9>(c); break;
    case 18: inplace<int, 16>(c); break;
    default: inplace<unsigned, 100>(c);
  }
}
template <class T> static void general(Case& c) {
  size_t n = c.size(6, 60, 1000);
  T init = c.coin() ? T() : val<T>(c, n);
  std::vector<T> m(n, init);
  InitializableArrayFolklore<T> a(n, init);
  std::string h = cat("initial ", init, "; ");
  if (c.chance(1, 4)) {
    for (auto& x : m) x = val<T>(c, n);
    a = InitializableArrayFolklore<T>(m.begin(), m.end());
    h = "from a range; ";
  }
  history<InitializableArrayFolklore<T>, T>(c, a, m, h, c.size(12, 60, 300));
}
LAW(general_arrays_of_ints, 600, 6000) {
  // the length and the initial value may be of one type
  int n = (int)c.size(6, 60, 1000), v = (int)c.below(100);
  InitializableArrayFolklore<int> a(n, v);
  history<InitializableArrayFolklore<int>, int>(c, a, std::vector<int>(n, v), cat("ints, initial ", v, "; "), c.size(12, 60, 300));
}
LAW(general_arrays, 12000, 150000) {
  switch (c.below(5)) {
    case 0: general<int>(c); break;
    case 1: general<uint64_t>(c); break;
    case 2: general<std::string>(c); break;
    case 3: general<double>(c); break;
    default: general<uint8_t>(c);
  }
}
template <class T, size_t N> static void big(Case& c) {
  auto a = std::make_unique<InitializableArray<T, N>>();
  InitializableArrayFolklore<T> f(N);
  std::vector<T> m(N);
  auto r = c.bulk();
  size_t inits = 0;
  for (size_t s = 0; s < 3 * N; s++) {
    if (r.below(N) == 0) { T v = (T)r.below(N); a->init(v); f.init(v); m.assign(N, v); inits++; }
    size_t i = r.below(N);
    T v = (T)(r.below(4) ? r.below(N + 2) : r.next());
    a->set(i, v); f.set(i, v); m[i] = v;
    size_t j = r.below(N);
    REQUIRE(a->get(j) == m[j] && f.get(j) == m[j], "element ", j, " reads ", a->get(j), " / ", f.get(j), " expected ", m[j], " after ", s, " writes");
  }
  agree(*a, m, "big");
  agree(f, m, "big");
  NOTE(c, N, " elements, ", inits, " inits");
  c.nontrivial(inits > 0);
}
LAW(big_arrays, 128, 1600) { switch (c.below(3)) { case 0: big<int, 20001>(c); break; case 1: big<int16_t, 32768>(c); break; default: big<uint16_t, 65536>(c); } }

// more elements than 32 bits count, most of them never touched (address space, not memory)
LAW_HUGE(beyond_32_bits, 2, 6) {
  pbt::MoreMemory more(60000, false);
  constexpr size_t two32 = size_t(1) << 32, n = two32 + 4097;
  using A = InitializableArray<uint64_t, n>;
  void* mem = mmap(nullptr, sizeof(A), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) throw pbt::Discard();
  struct Free { void* p; ~Free() { munmap(p, sizeof(A)); } } guard{mem};
  auto r = c.bulk();
  u64 init = r.below(5000);
  // links of an earlier array, among the first blocks and from there to the last
  u64* raw = (u64*)mem;
  for (size_t k = 0; k < 4000; k++) { raw[k] = r.below(2) ? r.below(3000) * 2 : n - 1 - r.below(3000); raw[n - k] = r.below(3000) * 2; }
  A& a = *new (mem) A(init);
  std::map<size_t, u64> m;
  size_t inits = 0;
  for (size_t k = 0; k < 6000; k++) {
    size_t low = r.below(3000), i = k % 4 == 0 ? low : k % 4 == 1 ? n - 1 - low : k % 4 == 2 ? two32 - 50 + low % 100 : r.below(n);
    u64 x = r.below(3) ? r.below(4000) * 2 : r.below(2) ? two32 + r.below(4000) : r.next();
    a.set(i, x);
    m[i] = x;
    size_t j = r.below(3) ? low : i ^ two32;
    if (j < n) { auto it = m.find(j); REQUIRE(a.get(j) == (it == m.end() ? init : it->second), "element ", j, " of ", n, " reads ", a.get(j), " expected ", it == m.end() ? init : it->second, " after ", k, " writes"); }
    if (r.below(2500) == 0) { init = r.next(); a.init(init); m.clear(); inits++; }
  }
  NOTE(c, n, " elements, ", inits, " inits");
  c.nontrivial();
  REQUIRE(a.size() == n && size_t(a.end() - a.begin()) == n, "size ", a.size());
  for (auto& e : m)
    for (size_t j : {e.first, e.first ^ two32, e.first ^ 1, n - 1 - e.first}) {
      if (j >= n) continue;
      auto it = m.find(j);
      u64 want = it == m.end() ? init : it->second;
      REQUIRE(a.get(j) == want && u64(a.begin()[(ptrdiff_t)j]) == want, "element ", j, " of ", n, " reads ", a.get(j), " expected ", want);
    }
}
