// variants: rel asan dbg
// scale: 12 15
// rule: random histories of construct / resize / assign / push / element writes / copy / move /
//   iteration on packed integer vectors of every width 1..64, compared with std::vector after
//   every step; non-trivial = some element crosses a word boundary (width not dividing 64) or
//   width 64, with at least 2 elements
#include "common.hpp"
#include "sim_ds/FitVector.hpp"
using namespace sim_ds;
using Model = std::vector<u64>;

static u64 mask(size_t w) { return w >= 64 ? kMax64 : (u64(1) << w) - 1; }
static void same(const FitVector& v, const Model& m, size_t w, const char* after) {
  REQUIRE(v.size() == m.size() && v.empty() == m.empty(), "after ", after, ": size ", v.size(), " expected ", m.size());
  REQUIRE(v.unit_width() == w, "after ", after, ": width ", v.unit_width(), " expected ", w);
  for (size_t i = 0; i < m.size(); i++) REQUIRE(v[i] == m[i], "after ", after, ": element ", i, " of ", m.size(), " (width ", w, ") reads ", size_t(v[i]), " expected ", m[i]);
}

static void history(Case& c, size_t small, size_t mid, size_t big, size_t max_ops) {
  size_t w = c.edgy(1, 64);
  FitVector v(w);
  Model m;
  auto val = [&] { return c.bits((unsigned)w); };
  auto sz = [&] { return c.size(small, mid, big); };
  size_t ops = c.range(1, max_ops), peak = 0;
  NOTE(c, "width ", w, ":");
  for (size_t k = 0; k < ops; k++) {
    const char* what = "";
    switch (c.below(15)) {
      case 0: { size_t n = sz(); v = FitVector(w, n); m.assign(n, 0); what = "construct(n)"; NOTE(c, "new(", n, ")"); break; }
      case 1: { size_t n = sz(); u64 x = val(); v = FitVector(w, n, x); m.assign(n, x); what = "construct(n,value)"; NOTE(c, "new(", n, ",", x, ")"); break; }
      case 2: { size_t n = sz(); u64 x = val(); v.assign(n, x); m.assign(n, x); what = "assign"; NOTE(c, "assign(", n, ",", x, ")"); break; }
      case 3: case 4: { size_t n = c.coin() ? sz() : m.size() + c.below(70); u64 x = val(); v.resize(n, x); m.resize(n, x); what = "resize(n,value)"; NOTE(c, "resize(", n, ",", x, ")"); break; }
      case 5: {  // plain resize: what was there stays
        size_t n = c.coin() ? sz() : m.size() - c.below(std::min<size_t>(m.size(), 70) + 1);
        size_t keep = std::min(n, m.size());
        v.resize(n); m.resize(n, 0);
        for (size_t i = keep; i < n; i++) v[i] = 0;
        what = "resize(n)"; NOTE(c, "resize(", n, ")"); break;
      }
      case 6: case 7: { auto r = c.bulk(); size_t n = c.below(90); for (size_t i = 0; i < n; i++) { u64 x = r.bits((unsigned)w); v.push_back(x); m.push_back(x); } what = "push_back"; NOTE(c, "push*", n); break; }
      case 8: case 9: {
        for (size_t n = c.below(20); n-- && !m.empty();) {
          size_t i = c.edgy(0, m.size() - 1); u64 x = val();
          switch (c.below(5)) {
            case 0: v[i] = x; break;
            case 1: v.at(i) = x; break;
            case 2: *(v.begin() + i) = x; break;
            case 3: { size_t j = c.below(m.size()); x = m[j]; v[i] = v[j]; break; }
            default: { x = mask(w); v[i] = x; }
          }
          m[i] = x;
        }
        if (!m.empty() && c.coin()) { u64 x = val(), y = val(); v.front() = x; m.front() = x; v.back() = y; m.back() = y; }
        what = "element writes"; NOTE(c, "writes"); break;
      }
      case 10: { v.reserve(sz()); what = "reserve"; NOTE(c, "reserve"); break; }
      case 11: {
        FitVector u(v);
        same(u, m, w, "copy construction");
        if (!m.empty()) { u[0] = mask(w) ^ u64(u[0]); u.resize(m.size() / 2); }
        FitVector x(17, 3, 5); x = v;
        same(x, m, w, "copy assignment");
        x.push_back(0);
        what = "copying from it"; NOTE(c, "copy"); break;
      }
      case 12: { FitVector u(std::move(v)); same(u, m, w, "move construction"); v = FitVector(3); v = std::move(u); what = "moving back"; NOTE(c, "move"); break; }
      case 13: {
        const FitVector& cv = v;
        for (auto n : {m.size(), m.size() + 1, m.size() + 64, ~size_t(0)}) {
          bool t = false, u = false;
          try { (void)v.at(n); } catch (std::out_of_range&) { t = true; }
          try { (void)cv.at(n); } catch (std::out_of_range&) { u = true; }
          REQUIRE(t && u, "at(", n, ") of ", m.size(), " elements is not refused");
        }
        if (!m.empty()) REQUIRE(v.front() == m.front() && cv.back() == m.back() && cv.front() == m.front() && v.back() == m.back() && cv.at(m.size() - 1) == m.back(), "front/back/at");
        what = "at()"; break;
      }
      default: {  // rewrite everything in a scattered order
        auto r = c.bulk();
        for (size_t i = 0; i < m.size(); i++) { size_t j = (i * 7919) % m.size(); u64 x = r.bits((unsigned)w); v[j] = x; m[j] = x; }
        what = "rewriting"; NOTE(c, "rewrite");
      }
    }
    peak = std::max(peak, m.size());
    same(v, m, w, what);
  }
  c.nontrivial(peak >= 2 && (64 % w != 0 || w == 64));
  c.label_if(w == 64, "width 64");
  c.label_if(64 % w != 0, "elements cross words");
  c.label_if(peak > 4096, "over 4096 elements");
}

LAW(behaves_as_an_integer_vector, 16000, 250000) { history(c, 20, 300, 3000, 25); }
LAW(behaves_as_a_large_integer_vector, 64, 1000) { history(c, 20000, 100000, 600000, 3); }

LAW(built_from_values_at_the_least_width, 16000, 200000) {
  unsigned w = (unsigned)c.edgy(1, 64);
  auto go = [&](auto tag) {
    using T = decltype(tag);
    unsigned ww = std::min<unsigned>(w, std::numeric_limits<T>::digits);
    auto src = gen_values<T>(c, c.size(20, 400, 4000), ww);
    NOTE(c, "values ", show(src));
    Model m(src.begin(), src.end());
    FitVector v(src);
    if (src.empty()) { REQUIRE(v.size() == 0 && v.empty(), "empty source"); return; }
    u64 mx = *std::max_element(m.begin(), m.end());
    size_t need = 1;
    while (need < 64 && mx >> need) need++;
    c.nontrivial(src.size() > 1 && need > 1);
    c.label_if(need == 64, "width 64");
    same(v, m, need, "construction from values");
  };
  switch (c.below(5)) {
    case 0: go(u64()); break;
    case 1: go(int()); break;
    case 2: go(uint8_t()); break;
    case 3: go(uint32_t()); break;
    default: go((long long)0);
  }
}

// every width, elements set one at a time between neighbours of all ones / all zeros
LAW_ENUM(writes_leave_neighbours_alone, 64 * 2) {
  u64 k = c.enum_index(64 * 2);
  size_t w = k / 2 + 1; u64 bg = k & 1 ? mask(w) : 0;
  NOTE(c, "width ", w, " background ", bg);
  c.nontrivial();
  const size_t n = 200;
  FitVector v(w, n, bg);
  for (size_t i = 0; i < n; i++)
    for (u64 x : {u64(0), mask(w), mask(w) / 3, u64(1) << (w - 1), u64(1)}) {
      v[i] = x;
      REQUIRE(v[i] == x, "width ", w, " element ", i, " reads ", size_t(v[i]), " after writing ", x);
      for (size_t j = i < 66 ? 0 : i - 66; j < std::min(n, i + 67); j++) if (j != i) REQUIRE(v[j] == bg, "width ", w, ": writing ", i, " changed ", j);
      v[i] = bg;
    }
}

LAW(iterators_step_by_element, 8000, 100000) {
  size_t w = c.edgy(1, 64);
  auto m = gen_values<u64>(c, c.size(20, 200, 2000), (unsigned)w);
  FitVector v(w, m.size());
  for (size_t i = 0; i < m.size(); i++) v[i] = m[i];
  const FitVector& cv = v;
  NOTE(c, "width ", w, " ", show(m));
  c.nontrivial(m.size() > 1 && 64 % w);
  auto n = (long long)m.size();
  REQUIRE(v.end() - v.begin() == n && cv.end() - cv.begin() == n, "end-begin");
  REQUIRE(std::equal(m.begin(), m.end(), v.begin()) && std::equal(m.begin(), m.end(), cv.begin()), "iteration");
  size_t k = 0;
  for (auto x : cv) REQUIRE(u64(x) == m[k++], "range for at ", k - 1);
  REQUIRE(k == m.size(), "range for visits ", k);
  k = 0;
  for (auto i = v.begin(); i != v.end(); k++) { auto j = i++; REQUIRE(i - j == 1 && u64(*j) == m[k], "post-increment at ", k); }
  k = 0;
  for (auto i = cv.begin(); i != cv.end(); k++) { auto j = i++; REQUIRE(i - j == 1 && u64(*j) == m[k], "post-increment of a constant iterator at ", k); }
  for (auto i = v.end(); i != v.begin(); k--) { auto j = i--; REQUIRE(j - i == 1 && u64(*i) == m[k - 1], "backwards at ", k - 1); }
  auto it = v.begin();
  FitVector::const_iterator ci = cv.begin();
  long long p = 0;
  for (int s = 0; s < 10; s++) {
    long long q = (long long)c.edgy(0, m.size()), d = q - p;
    switch (c.below(4)) {
      case 0: it += d; ci += d; break;
      case 1: it -= -d; ci -= -d; break;
      case 2: it = it + d; ci = ci + d; break;
      default: it = it - (-d); ci = ci - (-d);
    }
    p = q;
    REQUIRE(it - v.begin() == p && ci - cv.begin() == p, "moved by ", d, " to ", p, " but at ", it - v.begin());
    REQUIRE(it == v.begin() + p && (it != v.end()) == (p != n) && (it < v.end()) == (p < n) && (it > v.begin()) == (p > 0) && it >= v.begin() && it <= v.end(), "comparisons");
    if (p < n) {
      REQUIRE(u64(*it) == m[p] && u64(*ci) == m[p] && u64(cv.begin()[p]) == m[p], "read through iterator at ", p);
      REQUIRE(&v[p] == it && &cv[p] == ci, "address of element ", p);
      FitVector::const_iterator conv = it, set;
      set = it;
      FitVector::const_reference cr = v[p];
      REQUIRE(conv == ci && set == ci && u64(*conv) == m[p] && u64(*set) == m[p] && u64(cr) == m[p], "conversion to const at ", p);
      REQUIRE(set - cv.begin() == p && u64(set[0]) == m[p] && u64(it[0]) == m[p] && u64(v.begin()[p]) == m[p] && u64(*(p + cv.begin())) == m[p], "subscript at ", p);
      // wherever an iterator comes from, it walks on over the whole vector
      long long r = (long long)c.edgy(0, m.size() - 1), e = r - p;
      REQUIRE(u64((&v[p])[e]) == m[r] && u64(*(&cv[p] + e)) == m[r] && u64((&cr)[e]) == m[r] && u64(conv[e]) == m[r] && u64(*(set += e)) == m[r] && u64(it[e]) == m[r], "from element ", p, " to element ", r);
      REQUIRE(&v[p] + e == v.begin() + r && (&cv[p] + e) - cv.begin() == r && set - cv.begin() == r, "position from element ", p, " to element ", r);
      u64 x = c.bits((unsigned)w);
      if (c.coin()) *it = x; else *&v[p] = x;  // the address of an element is an iterator
      m[p] = x;
    }
  }
  same(v, m, w, "writes through iterators");
}

// each operation on its own, with lengths around those where a narrower counter would turn over
static const size_t kTurns[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072};
LAW_ENUM(every_operation_where_counters_turn, 11 * 14) {
  u64 k = c.enum_index(11 * 14);
  size_t n = kTurns[k % 11], op = k / 11, w = c.edgy(1, 64);
  auto r = c.bulk();
  auto val = [&] { return r.bits((unsigned)w); };
  u64 x = val(), y = val();
  FitVector v(w);
  Model m(n);
  NOTE(c, "operation ", op, " at ", n, " elements of width ", w, ", values ", x, ",", y);
  c.nontrivial(w > 1);
  auto scatter = [&] { for (size_t t = 0; t < 40; t++) { size_t i = t == 0 ? 0 : t == 1 ? m.size() - 1 : r.below(m.size()); u64 z = val(); v[i] = z; m[i] = z; } };
  switch (op) {
    case 0: v = FitVector(w, n); break;
    case 1: v = FitVector(w, n, x); m.assign(n, x); break;
    case 2: for (auto& z : m) z = val(); m[r.below(n)] = mask(w); v = FitVector(m); break;
    case 3: { size_t a = r.below(n); v = FitVector(w, a, y); v.resize(n, x); m.assign(a, y); m.resize(n, x); break; }
    case 4: { size_t a = r.below(n); v = FitVector(w, a, y); v.resize(n); for (size_t i = a; i < n; i++) v[i] = x; m.assign(a, y); m.resize(n, x); break; }
    case 5: v = FitVector(w, n + 1 + r.below(n), x); v.resize(n); m.assign(n, x); break;
    case 6: v = FitVector(w, n + 1 + r.below(n), x); v.resize(n, y); m.assign(n, x); break;
    case 7: v = FitVector(w, r.below(2 * n), y); v.assign(n, x); m.assign(n, x); break;
    case 8: v.reserve(n); for (size_t i = 0; i < n; i++) { u64 z = val(); v.push_back(z); m[i] = z; } break;
    case 9: { v = FitVector(w, n, x); m.assign(n, x); scatter(); FitVector u(v); v = FitVector(3); v = std::move(u); break; }
    case 10: { v = FitVector(w, n, x); m.assign(n, x); for (size_t t = 0; t < 60; t++) { size_t i = t % 3 ? r.below(n) : n - 1; u64 z = val(); if (t & 1) v.begin()[(ptrdiff_t)i] = z; else *(v.end() - (ptrdiff_t)(n - i)) = z; m[i] = z; } break; }
    case 11: { v = FitVector(w, n, x); m.assign(n, x); size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) if (i % 97 == 0 || i + 1 == n) { *it = y; m[i] = y; } break; }
    case 12: { v = FitVector(w, n, x); m.assign(n, x); scatter(); std::stringstream s; v.Write(s); v = FitVector(s); break; }
    default: { v = FitVector(w, n, x); m.assign(n, x); for (size_t t = 0; t < 40; t++) { size_t i = r.below(n), j = n - 1 - r.below(std::min<size_t>(n, 70)); v.at(i) = v[j]; m[i] = m[j]; v[j] = y; m[j] = y; } }
  }
  same(v, m, w, "the operation");
  const FitVector& cv = v;
  REQUIRE(v.end() - v.begin() == (ptrdiff_t)n && cv.end() - cv.begin() == (ptrdiff_t)n, "end - begin is ", v.end() - v.begin(), " expected ", n);
  for (size_t t = 0; t < 40; t++) { size_t i = t ? r.below(n) : n - 1; REQUIRE(u64(cv.begin()[(ptrdiff_t)i]) == m[i] && u64(v.begin()[(ptrdiff_t)i]) == m[i] && u64(*(cv.begin() + (ptrdiff_t)i)) == m[i] && (cv.begin() + (ptrdiff_t)i) - cv.begin() == (ptrdiff_t)i, "element ", i, " through iterators"); }
  REQUIRE(v.front() == m.front() && v.back() == m.back() && v.at(n - 1) == m[n - 1], "front/back/at");
  scatter();
  v.push_back(x); m.push_back(x);
  v.resize(m.size() + 70, y); m.resize(m.size() + 70, y);
  same(v, m, w, "growth");
}

// more than 2^32 bits in all, or more than 2^32 elements
LAW_HUGE(beyond_32_bits, 8, 24) {
  const size_t two32 = size_t(1) << 32;
  // bits beyond 2^32, or elements
  size_t kind = c.enum_index(8) % 4, way = c.below(5), w = kind == 0 ? 1 : kind == 1 ? c.range(2, 3) : c.edgy(4, 64), n = two32 / (w < 4 ? 1 : w) + c.edgy(100, 3000);
  c.nontrivial();
  NOTE(c, n, " elements of width ", w);
  if (w <= 16 && way > 1) way %= 2;  // element by element would take too long
  u64 base = way > 1 ? c.bits((unsigned)w) : 0;
  FitVector v = way == 1 ? FitVector(w, n) : way == 2 ? FitVector(w, n, base) : FitVector(w);
  if (way == 0) { v.reserve(n); v.resize(n); }
  if (way == 3) v.assign(n, base);
  if (way == 4) v.resize(n, base);
  REQUIRE(v.size() == n && v.end() - v.begin() == (ptrdiff_t)n, "size ", v.size(), " end-begin ", v.end() - v.begin());
  const FitVector& cv = v;
  std::map<size_t, u64> m;
  for (size_t k = 0; k < 300; k++) {
    size_t low = c.below(2000), i = k % 4 == 0 ? low : k % 4 == 1 ? n - 1 - low : k % 4 == 2 ? std::min(n - 1, (n > two32 ? two32 : two32 / w) - low + 64) : c.below(n);
    u64 x = c.bits((unsigned)w);
    switch (c.below(4)) {
      case 0: v[i] = x; break;
      case 1: v.at(i) = x; break;
      case 2: *(v.begin() + (ptrdiff_t)i) = x; break;
      default: *(v.end() - (ptrdiff_t)(n - i)) = x;
    }
    m[i] = x;
  }
  u64 last = c.bits((unsigned)w);
  v.push_back(last);
  m[n] = last;
  REQUIRE(v.size() == n + 1, "size after push_back");
  auto want = [&](size_t i) { auto f = m.find(i); return f == m.end() ? base : f->second; };
  for (auto& e : m)
    for (size_t j : {e.first, e.first ^ 1, e.first ^ (two32 / w), e.first ^ two32, n - e.first}) {
      if (j > n) continue;
      REQUIRE(u64(cv[j]) == want(j), "element ", j, " of ", n, " reads ", u64(cv[j]), " expected ", want(j));
      REQUIRE(u64(*(cv.begin() + (ptrdiff_t)j)) == want(j), "element ", j, " through an iterator");
    }
  bool refused = false;
  try { (void)cv.at(n + 1); } catch (std::out_of_range&) { refused = true; }
  REQUIRE(refused, "at(", n + 1, ") is not refused");
}
