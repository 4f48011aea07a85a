// variants: rel asan dbg
// rule: random histories of construct / resize / assign / fill / push / write / copy / move /
//   iterator operations on bit sequences of up to a few million bits, compared bit for bit with
//   std::vector<bool> after every step; non-trivial = at least 3 mutations and over 64 bits at
//   some point
#include "common.hpp"
#include "sim_ds/BitVector.hpp"
using namespace sim_ds;

static void same(const BitVector& v, const std::vector<bool>& m, const char* after) {
  REQUIRE(v.size() == m.size(), "after ", after, ": size ", v.size(), " expected ", m.size());
  REQUIRE(v.empty() == m.empty(), "after ", after, ": empty()");
  for (size_t i = 0; i < m.size(); i++) REQUIRE(bool(v[i]) == m[i], "after ", after, ": bit ", i, " of ", m.size(), " reads ", bool(v[i]));
  REQUIRE(uintptr_t(v.data()) % 32 == 0, "data() is not 32-byte aligned");
  for (size_t i = 0; i < m.size(); i++) REQUIRE((v.data()[i / 64] >> (i % 64) & 1) == m[i], "after ", after, ": word view of bit ", i);
}

static void history(Case& c, size_t small, size_t mid, size_t big, size_t max_ops) {
  BitVector v;
  std::vector<bool> m;
  size_t ops = c.range(1, max_ops), muts = 0, peak = 0;
  auto sz = [&] { return c.size(small, mid, big); };
  for (size_t k = 0; k < ops; k++) {
    const char* what = "";
    switch (c.below(20)) {
      case 0: { size_t n = sz(); v = BitVector(n); m.assign(n, false); what = "construct(n)"; NOTE(c, "new(", n, ")"); break; }
      case 1: { size_t n = sz(); bool b = c.coin(); v = BitVector(n, b); m.assign(n, b); what = "construct(n,bit)"; NOTE(c, "new(", n, ",", b, ")"); break; }
      case 2: { m = gen_bits(c, small, mid, mid); v = BitVector(m); what = "construct(bits)"; NOTE(c, "new(", bits_text(m), ")"); break; }
      case 3: {
        std::vector<int> src(c.below(200));
        for (auto& x : src) x = (int)c.below(3);
        v = BitVector(src);
        m.clear();
        for (int x : src) m.push_back(x != 0);
        what = "construct(ints)"; NOTE(c, "new(ints ", src.size(), ")"); break;
      }
      case 4: case 5: { size_t n = c.coin() ? sz() : m.size() + c.below(130); v.resize(n); m.resize(n, false); what = "resize(n)"; NOTE(c, "resize(", n, ")"); break; }
      case 6: case 7: { size_t n = c.coin() ? sz() : m.size() + c.below(130); bool b = c.coin(); v.resize(n, b); m.resize(n, b); what = "resize(n,bit)"; NOTE(c, "resize(", n, ",", b, ")"); break; }
      case 8: { size_t n = m.size() - c.below(std::min<size_t>(m.size(), 200) + 1); v.resize(n); m.resize(n); what = "shrink"; NOTE(c, "shrink(", n, ")"); break; }
      case 9: { size_t n = sz(); bool b = c.coin(); v.assign(n, b); m.assign(n, b); what = "assign"; NOTE(c, "assign(", n, ",", b, ")"); break; }
      case 10: case 11: {
        size_t a = c.edgy(0, m.size()), b = c.chance(1, 8) ? c.edgy(0, m.size()) : c.edgy(a, m.size());
        bool x = c.coin();
        v.fill(v.begin() + a, v.begin() + b, x);  // an empty or reversed range changes nothing
        for (size_t i = a; i < b; i++) m[i] = x;
        what = "fill"; NOTE(c, "fill(", a, ",", b, ",", x, ")"); break;
      }
      case 12: case 13: {
        size_t n = c.below(140);
        bool alt = c.coin(), x = c.coin();
        for (size_t i = 0; i < n; i++) { bool b = alt ? (i & 1) != x : x; v.push_back(b); m.push_back(b); }
        what = "push_back"; NOTE(c, "push*", n, alt ? "alt" : "", x); break;
      }
      case 14: {
        for (size_t n = c.below(20); n-- && !m.empty();) {
          size_t i = c.edgy(0, m.size() - 1); bool b = c.coin();
          switch (c.below(6)) {
            case 0: v[i] = b; break;
            case 1: v.at(i) = b; break;
            case 2: *(v.begin() + i) = b; break;
            case 3: v.begin()[i] = b; break;
            case 4: { auto p = &v[i]; *p = b; break; }  // the address of a bit is an iterator
            default: { size_t j = c.below(m.size()); b = m[j]; v[i] = v[j]; }
          }
          m[i] = b;
        }
        if (!m.empty() && c.coin()) { v.front() = true; m.front() = true; v.back() = false; m.back() = false; }
        what = "element writes"; NOTE(c, "writes"); break;
      }
      case 15: {
        size_t n = sz();
        if (c.coin()) v.reserve(n); else v.shrink_to_fit();
        what = "reserve/shrink_to_fit"; NOTE(c, "reserve(", n, ")"); break;
      }
      case 16: {
        BitVector w(v);
        same(w, m, "copy construction");
        if (!m.empty()) { w[0] = !w[0]; w.resize(m.size() / 2); }
        BitVector x; x = v;
        same(x, m, "copy assignment");
        x.push_back(true);
        what = "copying from it"; NOTE(c, "copy"); break;
      }
      case 17: { BitVector w(std::move(v)); same(w, m, "move construction"); v = std::move(w); what = "moving back"; NOTE(c, "move"); break; }
      case 18: {
        const BitVector& cv = v;
        for (auto n : {m.size(), m.size() + 1, m.size() + 64, ~size_t(0)}) {
          bool t = false, u = false;
          try { (void)v.at(n); } catch (std::out_of_range&) { t = true; }
          try { (void)cv.at(n); } catch (std::out_of_range&) { u = true; }
          REQUIRE(t && u, "at(", n, ") of ", m.size(), " bits is not refused");
        }
        for (size_t k = 0; k < 5 && !m.empty(); k++) { size_t i = c.edgy(0, m.size() - 1); REQUIRE(bool(cv.at(i)) == m[i] && bool(v.at(i)) == m[i], "at(", i, ") of ", m.size(), " bits"); }
        if (!m.empty()) REQUIRE(bool(v.front()) == m.front() && bool(cv.back()) == m.back() && bool(cv.front()) == m.front() && bool(v.back()) == m.back(), "front/back");
        what = "at()"; break;
      }
      default: {  // self assignment leaves things alone
        BitVector& r = v; v = r; what = "self assignment"; NOTE(c, "self="); break;
      }
    }
    muts++;
    peak = std::max(peak, m.size());
    same(v, m, what);
  }
  c.nontrivial(muts >= 3 && peak > 64);
  c.label_if(peak > 512, "over 512 bits");
  c.label_if(peak > 65536, "over 64Ki bits");
}

LAW(behaves_as_a_bit_sequence, 16000, 250000) { history(c, 70, 700, 5000, 30); }
LAW(behaves_as_a_large_bit_sequence, 64, 1000) { history(c, 20000, 300000, 3000000, 4); }

// every (size, from, to, bit) fill of short sequences over both backgrounds
LAW_ENUM(every_fill_of_short_sequences, 4 * 260) {
  u64 k = c.enum_index(4 * 260);
  size_t n = k / 4 + 1; bool bg = k & 1, x = k & 2;
  NOTE(c, n, " bits of ", bg, ", fills with ", x);
  c.nontrivial();
  for (size_t a = 0; a <= n; a += (a % 64 > 2 && a % 64 < 61 ? 7 : 1))
    for (size_t b = a; b <= n; b += (b % 64 > 2 && b % 64 < 61 ? 5 : 1)) {
      BitVector v(n, bg);
      v.fill(v.begin() + a, v.begin() + b, x);
      for (size_t i = 0; i < n; i++) REQUIRE(bool(v[i]) == (i >= a && i < b ? x : bg), "fill(", a, ",", b, ",", x, ") of ", n, " bits of ", bg, ": bit ", i);
    }
}

// growth from every length to every near length after shrinking a sequence of ones
LAW_ENUM(shrink_then_grow, 300 * 4) {
  u64 k = c.enum_index(300 * 4);
  size_t a = k / 4; bool first = k & 1, second = k & 2;
  NOTE(c, "shrink to ", a, " grow with ", second);
  c.nontrivial();
  for (size_t up : {0, 1, 2, 63, 64, 65, 128, 129, 257}) {
    BitVector v(a + 200, first);
    v.resize(a);
    v.resize(a + up, second);
    REQUIRE(v.size() == a + up, "size");
    for (size_t i = 0; i < a + up; i++) REQUIRE(bool(v[i]) == (i < a ? first : second), "from ", a + 200, " of ", first, " to ", a, " to ", a + up, " of ", second, ": bit ", i);
  }
}

LAW(iterators_walk_the_sequence, 8000, 120000) {
  auto m = gen_bits(c, 150, 900, 5000);
  BitVector v(m);
  const BitVector& cv = v;
  NOTE(c, bits_text(m));
  c.nontrivial(m.size() > 64);
  auto n = (ptrdiff_t)m.size();
  REQUIRE(v.end() - v.begin() == n && cv.end() - cv.begin() == n, "end-begin");
  REQUIRE(std::equal(v.begin(), v.end(), m.begin()) && std::equal(cv.begin(), cv.end(), m.begin()), "iteration");
  REQUIRE(std::count(v.begin(), v.end(), true) == std::count(m.begin(), m.end(), true), "count");
  size_t k = 0;
  for (auto b : cv) REQUIRE(bool(b) == m[k++], "range for at ", k - 1);
  k = 0;
  for (auto i = v.begin(); i != v.end(); i++, k++) REQUIRE(bool(*i) == m[k], "post-increment at ", k);
  for (auto i = cv.end(); i != cv.begin(); k--) { auto j = i--; REQUIRE(j - i == 1 && bool(*i) == m[k - 1], "post-decrement at ", k - 1); }
  auto it = v.begin();
  BitVector::const_iterator ci = cv.begin();
  ptrdiff_t p = 0;
  for (int s = 0; s < 12; s++) {
    ptrdiff_t q = (ptrdiff_t)c.edgy(0, m.size()), d = q - p;
    switch (c.below(5)) {
      case 0: it += d; ci += d; break;
      case 1: it -= -d; ci -= -d; break;
      case 2: it = it + d; ci = ci + d; break;
      case 3: it = it - (-d); ci = ci - (-d); break;
      default: for (; p < q; p++) { ++it; ++ci; } for (; p > q; p--) { --it; --ci; }
    }
    p = q;
    REQUIRE(it - v.begin() == p && ci - cv.begin() == p, "moved by ", d, " to ", p, " but at ", it - v.begin());
    REQUIRE(it == v.begin() + p && !(it != v.begin() + p) && (it < v.end()) == (p < n) && (it >= v.end()) == (p >= n) && (it > v.begin()) == (p > 0) && (it <= v.begin()) == (p == 0), "comparisons at ", p);
    if (p < n) {
      REQUIRE(bool(*it) == m[p] && bool(*ci) == m[p], "read through iterator at ", p);
      REQUIRE(&v[p] == it && &cv[p] == ci, "address of bit ", p);
      BitVector::const_iterator conv = it;
      BitVector::const_reference cr = v[p];
      REQUIRE(conv == ci && bool(*conv) == m[p] && bool(cr) == m[p], "conversion to const at ", p);
      REQUIRE(bool(it[0]) == m[p] && bool(v.begin()[p]) == m[p] && bool(*(p + cv.begin())) == m[p], "subscript at ", p);
      // wherever an iterator comes from, it walks on over the whole sequence
      ptrdiff_t r = (ptrdiff_t)c.edgy(0, m.size() - 1), e = r - p;
      BitVector::const_iterator set;
      set = it;
      REQUIRE(bool((&v[p])[e]) == m[r] && bool(*(&cv[p] + e)) == m[r] && bool((&cr)[e]) == m[r] && bool(conv[e]) == m[r] && bool(*(set += e)) == m[r] && bool(it[e]) == m[r], "from bit ", p, " to bit ", r);
      REQUIRE(&v[p] + e == v.begin() + r && (&cv[p] + e) - cv.begin() == r && set - cv.begin() == r, "position from bit ", p, " to bit ", r);
      bool b = c.coin();
      *it = b; m[p] = b;
      REQUIRE(bool(v[p]) == b, "write through iterator at ", p);
    }
  }
  REQUIRE(BitVector::iterator() == BitVector::iterator() && BitVector::const_iterator() == BitVector::const_iterator(), "iterators of nothing differ");
  size_t a = c.edgy(0, m.size()), b = c.edgy(a, m.size());
  bool x = c.coin();
  std::fill(v.begin() + a, v.begin() + b, x);
  std::fill(m.begin() + a, m.begin() + b, x);
  same(v, m, "std::fill");
}

LAW_FULL(initializer_lists, 1, 1, 1, false) {
  BitVector a{true, false, true, true};
  REQUIRE(a.size() == 4 && a[0] && !a[1] && a[2] && a[3], "list of 4");
  BitVector b{true};
  REQUIRE(b.size() == 1 && b[0], "list of 1");
  BitVector d({false, true});
  REQUIRE(d.size() == 2 && !d[0] && d[1], "list of 2");
  c.nontrivial();
  NOTE(c, "{1,0,1,1} {1} {0,1}");
}
LAW(lengths_of_any_integer_type, 400, 4000) {
  size_t n = c.size(60, 600, 3000);
  bool bit = c.coin();
  NOTE(c, n, " bits of ", bit);
  c.nontrivial(n > 1);
  std::vector<bool> zeros(n, false), same_bits(n, bit);
  auto all = [&](auto len) {
    BitVector a(len), b(len, bit), d(len, int(bit));
    same(a, zeros, "length alone");
    same(b, same_bits, "length and bit");
    same(d, same_bits, "length and int");
    BitVector e;
    e.resize(len); same(e, zeros, "resize"); e.assign(len, bit); same(e, same_bits, "assign");
  };
  switch (c.below(5)) {
    case 0: all(int(n)); break;
    case 1: all(unsigned(n)); break;
    case 2: all((long long)n); break;
    case 3: all(uint16_t(n)); break;
    default: all(size_t(n));
  }
}

// each operation on its own, with lengths around those where a narrower counter would turn over
static const size_t kTurns[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 196613};
LAW_ENUM(every_operation_where_counters_turn, 12 * 14) {
  u64 k = c.enum_index(12 * 14);
  size_t n = kTurns[k % 12], op = k / 12;
  bool x = c.coin();
  auto r = c.bulk();
  BitVector v;
  std::vector<bool> m(n);
  NOTE(c, "operation ", op, " at ", n, " bits, bit ", x);
  c.nontrivial();
  auto scatter = [&](size_t lim) { for (size_t t = 0; t < 40 && lim; t++) { size_t i = t == 0 ? 0 : t == 1 ? lim - 1 : r.below(lim); v[i] = !v[i]; m[i] = !m[i]; } };
  switch (op) {
    case 0: v = BitVector(n); break;
    case 1: v = BitVector(n, x); m.assign(n, x); break;
    case 2: for (size_t i = 0; i < n; i++) m[i] = r.below(2); v = BitVector(m); break;
    case 3: { std::vector<uint8_t> src(n); for (size_t i = 0; i < n; i++) m[i] = src[i] = (uint8_t)r.below(2); v = BitVector(src); break; }
    case 4: { size_t a = r.below(n); v = BitVector(a, !x); v.resize(n, x); m.assign(a, !x); m.resize(n, x); break; }
    case 5: { size_t a = r.below(n); v = BitVector(a, true); v.resize(n); m.assign(a, true); m.resize(n, false); break; }
    case 6: v = BitVector(n + 1 + r.below(n), x); v.resize(n); m.assign(n, x); break;
    case 7: v = BitVector(r.below(2 * n), !x); v.assign(n, x); m.assign(n, x); break;
    case 8: v.reserve(n); REQUIRE(v.size() == 0, "reserve"); for (size_t i = 0; i < n; i++) { bool b = r.below(2); v.push_back(b); m[i] = b; } break;
    case 9: v = BitVector(n, !x); v.fill(v.begin(), v.end(), x); m.assign(n, x); break;
    case 10: { v = BitVector(n + 300, !x); m.assign(n + 300, !x); size_t a = n - r.below(100); v.fill(v.begin() + (ptrdiff_t)a, v.begin() + (ptrdiff_t)(n + 3), x); for (size_t i = a; i < n + 3; i++) m[i] = x; break; }
    case 11: { v = BitVector(n, x); m.assign(n, x); scatter(n); BitVector u(v); v = BitVector(3); v = std::move(u); break; }
    case 12: { v = BitVector(n, x); m.assign(n, x); for (size_t t = 0; t < 60; t++) { size_t i = r.below(n), j = n - 1 - r.below(std::min<size_t>(n, 70)); if (t & 1) { v.begin()[(ptrdiff_t)i] = x ^ bool(t & 2); m[i] = x ^ bool(t & 2); } else { auto it = v.end() - (ptrdiff_t)(n - j); *it = !x; m[j] = !x; REQUIRE(it - v.begin() == (ptrdiff_t)j && v.begin() + (ptrdiff_t)j == it, "iterator at ", j); } } break; }
    default: { v = BitVector(n, x); m.assign(n, x); scatter(n); std::stringstream s; v.Write(s); v = BitVector(70, true); v.Read(s); }
  }
  same(v, m, "the operation");
  if (!m.empty()) REQUIRE(bool(v.front()) == m.front() && bool(v.back()) == m.back() && bool(v.at(n - 1)) == m[n - 1], "front/back/at");
  scatter(m.size());
  same(v, m, "writes");
  v.push_back(x); m.push_back(x);
  v.resize(m.size() + 70, !x); m.resize(m.size() + 70, !x);
  same(v, m, "growth");
}

// more than 2^32 bits: no position, length or distance is cut to 32 bits
LAW_HUGE(beyond_32_bits, 5, 20) {
  const size_t two32 = size_t(1) << 32, n = two32 + c.edgy(65, 5000), way = c.enum_index(5);
  bool bg = c.coin() && way != 4;
  c.nontrivial();
  NOTE(c, n, " bits of ", bg, " by ", way == 0 ? "constructor" : way == 1 ? "assign" : way == 2 ? "resize" : way == 3 ? "reserve and resize" : "sized constructor");
  BitVector v = way == 0 ? BitVector(n, bg) : way == 4 ? BitVector(n) : BitVector();
  if (way == 1) v.assign(n, bg);
  if (way == 3) { v.reserve(n); REQUIRE(v.empty(), "reserving alone gives ", v.size(), " bits"); }
  if (way == 2 || way == 3) v.resize(n, bg);
  const BitVector& cv = v;
  REQUIRE(v.size() == n && v.end() - v.begin() == (ptrdiff_t)n, "size ", v.size(), " end-begin ", v.end() - v.begin());
  std::map<size_t, bool> m;  // what differs from the background
  auto want = [&](size_t i) { auto f = m.find(i); return f == m.end() ? bg : f->second; };
  std::vector<size_t> at;
  for (size_t k = 0; k < 200; k++) {
    size_t low = c.below(4000);
    size_t i = k % 4 == 0 ? low : k % 4 == 1 ? two32 - 1 - low : k % 4 == 2 ? std::min(n - 1, two32 + low) : c.below(n);
    bool b = c.coin();
    switch (c.below(5)) {
      case 0: v[i] = b; break;
      case 1: v.at(i) = b; break;
      case 2: *(v.begin() + (ptrdiff_t)i) = b; break;
      case 3: *(v.end() - (ptrdiff_t)(n - i)) = b; break;
      default: v.begin()[(ptrdiff_t)i] = b;
    }
    m[i] = b;
    at.push_back(i);
  }
  auto look = [&](const char* after) {
    REQUIRE(v.size() == n, "size after ", after);
    for (size_t i : at)
      for (size_t j : {i, i ^ 1, i ^ two32, i % two32, n - 1 - i % n}) {
        if (j >= n) continue;
        REQUIRE(bool(cv[j]) == want(j), "bit ", j, " of ", n, " after ", after);
        REQUIRE(bool(*(cv.begin() + (ptrdiff_t)j)) == want(j), "bit ", j, " through an iterator after ", after);
      }
    bool refused = false;
    try { (void)cv.at(n); } catch (std::out_of_range&) { refused = true; }
    REQUIRE(refused, "at(", n, ") is not refused");
  };
  look("writes");
  // a fill that begins before and ends behind the 2^32nd bit
  size_t a = two32 - c.edgy(0, 300), b = two32 + c.edgy(0, 64);
  bool x = c.coin();
  v.fill(v.begin() + (ptrdiff_t)a, v.begin() + (ptrdiff_t)b, x);
  for (size_t i = a; i < b; i++) m[i] = x, at.push_back(i);
  look("fill");
  // growth and shrinkage over it
  size_t down = c.coin() ? two32 - c.edgy(1, 200) : two32 + c.edgy(0, 60);
  v.resize(down);
  REQUIRE(v.size() == down && v.end() - v.begin() == (ptrdiff_t)down, "size after a resize to ", down);
  v.resize(n, !bg);
  for (size_t i = down; i < n; i++) m[i] = !bg;
  for (size_t i = down; i < n; i++) REQUIRE(bool(cv[i]) == !bg, "bit ", i, " of ", n, " added by resize from ", down);
  look("resize");
  size_t copies = c.below(2);
  if (copies) { BitVector w(v); v = std::move(w); look("copying"); }
  v.push_back(!bg); v.push_back(bg);
  REQUIRE(v.size() == n + 2 && bool(v[n]) == !bg && bool(v.back()) == bg, "what is appended behind ", n, " bits");
}
