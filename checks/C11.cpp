// variants: rel asan dbg
// rule: histories of writes (values of every bit length, overwrites by longer and shorter values), appends,
//   pops, resizes, reserves and copies against std::vector; non-trivial = an element is overwritten by a
//   value of another bit length and (vector) the capacity changes
#include "common.hpp"
#include <functional>
#include "sim_ds/CDRWArray.hpp"
using namespace sim_ds;

static u64 value(Case& c) {
  switch (c.weighted({3, 3, 2, 1})) {
    case 0: return c.bits((unsigned)c.range(0, 64));
    case 1: { unsigned w = (unsigned)c.range(1, 64); return (u64(1) << (w - 1)) | c.bits(w - 1); }  // exactly w bits
    case 2: return c.bits((unsigned)c.range(0, 4));
    default: return c.edgy(0, kMax64);
  }
}
static unsigned blen(u64 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }

template <class A>
static void agree(const A& a, const std::vector<u64>& m, const std::string& h) {
  REQUIRE(a.size() == m.size(), "size ", a.size(), " expected ", m.size(), "; ", h);
  for (size_t i = 0; i < m.size(); i++) REQUIRE(a.get(i) == m[i], "element ", i, " reads ", a.get(i), " expected ", m[i], "; ", h);
}

LAW(array_of_any_width_values, 8000, 100000) {
  size_t n = c.size(4, 40, 300);
  std::vector<u64> m(n, 0);
  std::string h = cat("size ", n, "; ");
  CDRWArray a(n);
  if (c.chance(1, 3)) {
    for (auto& x : m) x = value(c);
    a = CDRWArray(m.begin(), m.end());
    h += cat("from ", show(m), "; ");
  }
  agree(a, m, h);
  size_t rewrites = 0;
  if (n) {
    size_t steps = c.size(20, 120, 400);
    for (size_t s = 0; s < steps; s++) {
      size_t i = c.coin() ? c.below(n) : c.below(std::min<size_t>(n, 3));
      u64 v = value(c);
      rewrites += m[i] && blen(m[i]) != blen(v);
      a.set(i, v);
      m[i] = v;
      if (h.size() < 2000) h += cat(i, "=", v, "; ");
      if (n <= 40 || s % 16 == 0) agree(a, m, h); else REQUIRE(a.get(i) == v, "just written ", i, "; ", h);
    }
  }
  agree(a, m, h);
  CDRWArray b(a);
  if (n) b.set(0, ~m[0]);
  agree(a, m, h);
  NOTE(c, h);
  c.nontrivial(rewrites > 0);
  c.label_if(n == 0, "empty");
  c.label_if(n == 1, "one element");
  c.label_if(rewrites > 10, "over 10 changes of width");
}

LAW(vector_histories, 6000, 80000) {
  CDRWVector v;
  std::vector<u64> m;
  std::string h;
  if (c.coin()) { size_t n = c.size(4, 40, 200); v = CDRWVector(n); m.assign(n, 0); h = cat("size ", n, "; "); }
  size_t steps = c.size(20, 80, 250), rewrites = 0, caps = 0, cap = v.capacity(), pops = 0;
  auto note = [&](const std::string& s) { if (h.size() < 2000) h += s; };
  agree(v, m, h);
  for (size_t s = 0; s < steps; s++) {
    switch (c.weighted({6, 4, 6, 1, 1, 1, 1, 1})) {
      case 0: { u64 x = value(c); v.push_back(x); m.push_back(x); note(cat("push ", x, "; ")); break; }
      case 1: { size_t k = c.chance(1, 6) ? c.range(1, 30) : 1; while (k--) { v.pop_back(); if (!m.empty()) m.pop_back(); pops++; note("pop; "); } break; }
      case 2: {
        if (m.empty()) break;
        size_t i = c.below(m.size());
        u64 x = value(c);
        rewrites += m[i] && blen(m[i]) != blen(x);
        v.set(i, x); m[i] = x;
        note(cat(i, "=", x, "; "));
        break;
      }
      case 3: {  // what growing exposes is written before it is read
        size_t n = c.coin() ? c.edgy(0, 300) : c.below(m.size() + 1), old = m.size();
        v.resize(n);
        m.resize(n, 0);
        note(cat("resize ", n, "; "));
        for (size_t i = old; i < n; i++) { u64 x = c.bits(6); v.set(i, x); m[i] = x; }
        break;
      }
      case 4: { size_t n = c.edgy(0, 300); v.reserve(n); REQUIRE(v.capacity() >= n, "capacity ", v.capacity(), " after reserve ", n); note(cat("reserve ", n, "; ")); break; }
      case 5: v.shrink_to_fit(); REQUIRE(v.capacity() == v.size(), "capacity after shrink_to_fit"); note("shrink; "); break;
      case 6: { CDRWVector w(v); v = w; w.push_back(1); note("copy; "); break; }
      default: if (c.chance(1, 3)) { v.clear(); m.clear(); note("clear; "); }
    }
    REQUIRE(v.capacity() >= v.size() && v.empty() == m.empty(), "capacity ", v.capacity(), " for size ", v.size(), "; ", h);
    caps += v.capacity() != cap;
    cap = v.capacity();
    agree(v, m, h);
  }
  NOTE(c, h);
  c.nontrivial(caps && rewrites);
  c.label_if(caps > 3, "capacity changed over 3 times");
  c.label_if(pops > 10, "over 10 pops");
}

LAW(large_vectors, 16, 200) {
  auto r = c.bulk();
  size_t n = c.size(3000, 10000, 40000);
  CDRWVector v;
  std::vector<u64> m;
  for (size_t i = 0; i < n; i++) { u64 x = r.next() >> r.below(64); v.push_back(x); m.push_back(x); }
  for (size_t i = 0; i < n; i++) { size_t k = r.below(n); u64 x = r.next() >> r.below(64); v.set(k, x); m[k] = x; }
  agree(v, m, cat(n, " elements"));
  for (size_t i = 0; i < n / 2 + n / 4; i++) { v.pop_back(); m.pop_back(); }
  agree(v, m, cat("three quarters of ", n, " elements popped"));
  NOTE(c, n, " elements");
  c.nontrivial();
}

// each operation on its own, with sizes around those where a narrower counter would turn over
LAW_ENUM(every_operation_where_counters_turn, 8 * 8) {
  static const size_t turns[] = {127, 128, 255, 256, 257, 32768, 65536, 66000};
  u64 k = c.enum_index(8 * 8);
  size_t n = turns[k % 8], op = k / 8;
  auto r = c.bulk();
  auto val = [&] { return r.below(3) ? r.next() >> r.below(64) : r.below(3); };
  std::vector<u64> m(n);
  for (auto& x : m) x = val();
  NOTE(c, "operation ", op, " at ", n, " elements");
  c.nontrivial();
  std::string h = cat("operation ", op);
  if (op < 3) {
    CDRWArray a(n);
    if (op == 1) a = CDRWArray(m.begin(), m.end());
    else for (size_t i = 0; i < n; i++) { size_t j = op == 0 ? i : (i * 7919) % n; a.set(j, m[j]); }
    agree(a, m, h);
    for (size_t i = 0; i < 200; i++) { size_t j = i == 0 ? n - 1 : r.below(n); m[j] = val(); a.set(j, m[j]); }
    CDRWArray b(a);
    a = CDRWArray(5);
    agree(b, m, h);
    return;
  }
  CDRWVector v;
  switch (op) {
    case 3: v.reserve(n); REQUIRE(v.capacity() >= n && v.size() == 0, "reserve"); for (u64 x : m) v.push_back(x); break;
    case 4: for (u64 x : m) v.push_back(x); break;
    case 5: { size_t a = r.below(n); v = CDRWVector(a); for (size_t i = 0; i < a; i++) v.set(i, m[i]); v.resize(n); for (size_t i = a; i < n; i++) v.set(i, m[i]); break; }
    case 6: { for (u64 x : m) v.push_back(x); for (size_t i = 0; i < n / 2; i++) v.push_back(val()); for (size_t i = 0; i < n / 2; i++) v.pop_back(); break; }
    default: { for (u64 x : m) v.push_back(x); size_t x = 1 + r.below(n); for (size_t i = 0; i < x; i++) v.push_back(val()); v.resize(n); v.shrink_to_fit(); REQUIRE(v.capacity() == n, "capacity after shrink_to_fit"); }
  }
  agree(v, m, h);
  for (size_t i = 0; i < 200; i++) { size_t j = i == 0 ? n - 1 : r.below(n); m[j] = val(); v.set(j, m[j]); }
  v.push_back(7); m.push_back(7);
  agree(v, m, h);
}

// indices beyond 32 bits
LAW_HUGE(beyond_32_bits, 1, 4) {
  pbt::MoreMemory more(8000);
  const size_t two32 = size_t(1) << 32, n = two32 + c.edgy(100, 5000);
  auto r = c.bulk();
  CDRWArray a(n);
  REQUIRE(a.size() == n, "size ", a.size(), " expected ", n);
  std::map<size_t, u64> m;
  for (size_t k = 0; k < 6000; k++) {
    size_t low = r.below(3000), i = k % 4 == 0 ? low : k % 4 == 1 ? n - 1 - low : k % 4 == 2 ? std::min(n - 1, two32 + low % 50) : r.below(n);
    u64 x = r.next() >> r.below(64);
    if (r.below(8) == 0) x = 0;
    a.set(i, x);
    m[i] = x;
  }
  NOTE(c, n, " elements, ", m.size(), " written");
  c.nontrivial();
  for (auto& e : m)
    for (size_t j : {e.first, e.first ^ two32, e.first ^ 1, e.first ^ (two32 >> 1), n - 1 - e.first}) {
      if (j >= n) continue;
      auto it = m.find(j);
      u64 want = it == m.end() ? 0 : it->second;
      REQUIRE(a.get(j) == want, "element ", j, " of ", n, " reads ", a.get(j), " expected ", want);
    }
}
