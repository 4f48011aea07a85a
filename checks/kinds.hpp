// Every class of the library seen through one interface: make an object with generated contents, look at all
// that can be asked of it through const access, change it.
#pragma once
#include "common.hpp"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/Heap.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/bit_util256.hpp"
#include "sim_ds/calc.hpp"
#include "sim_ds/sort.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/graph_util.hpp"
namespace kinds {
using namespace sim_ds;
using Rnd = Case::Bulk;
using Obs = std::vector<u64>;
// What the helpers here do by themselves (streams) is spared from injected faults.
inline thread_local int g_calm = 0;
struct Calm { Calm() { g_calm++; } ~Calm() { g_calm--; } };
inline void bytes(Obs& o, const std::string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
  o.push_back(s.size());
  o.push_back(h);
}
template <class T> void stored(Obs& o, const T& t) { Calm calm; std::ostringstream s; t.Write(s); bytes(o, s.str()); }
// where the alphabets of texts begin
inline thread_local unsigned g_base = 'a';
inline std::string text(Rnd& r, size_t n, unsigned alpha) { std::string s(n, 'a'); for (auto& ch : s) ch = char(g_base + r.below(alpha)); return s; }
inline std::string some_text(Rnd& r, u64 below, u64 alpha) { size_t n = r.below(below); unsigned a = 1 + (unsigned)r.below(alpha); return text(r, n, a); }
struct Two { u64 a, b; };  // compilers evaluate arguments in orders of their own, braces in the written one
inline std::vector<std::string> keys(Rnd& r, size_t n) {
  std::set<std::string> k;
  for (size_t i = 0; i < n; i++) k.insert(some_text(r, 7, 4));
  return {k.begin(), k.end()};
}
// an immutable object is changed by replacing it, or by reading another one into it
template <class K> inline void replace(typename K::T& t, Rnd& r) {
  auto u = K::make(r, r.below(60));
  if (r.below(2)) { t = std::move(u); return; }
  std::stringstream s;
  { Calm calm; u.Write(s); }
  t.Read(s);
}

struct OfBitVector {
  using T = BitVector;
  static constexpr const char* name = "BitVector";
  static T make(Rnd& r, size_t n) { T t(n * 3); for (size_t i = 0; i < t.size(); i++) t[i] = r.below(2); return t; }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size()); o.push_back(t.empty());
    for (size_t i = 0; i < t.size(); i++) o.push_back(t[i]);
    u64 ones = 0;
    for (bool b : t) ones += b;
    o.push_back(ones);
    if (t.size()) { o.push_back(t.front()); o.push_back(t.back()); o.push_back(t.at(t.size() / 2)); }
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) {
    switch (r.below(9)) {
      case 0: t.push_back(r.below(2)); break;
      case 5: replace<OfBitVector>(t, r); break;
      case 6: t.reserve(r.below(3000)); break;
      case 7: t.shrink_to_fit(); break;
      case 8: { std::vector<bool> v(r.below(300)); for (size_t i = 0; i < v.size(); i++) v[i] = r.below(2); if (r.below(2)) t = v; else t = BitVector(std::vector<int>(v.begin(), v.end())); break; }
      case 1: { Two p{r.below(200), r.below(2)}; t.resize(p.a, p.b); break; }
      case 2: { Two p{r.below(200), r.below(2)}; t.assign(p.a, p.b); break; }
      case 3: if (t.size()) t[r.below(t.size())] = r.below(2); break;
      default: if (t.size()) { size_t a = r.below(t.size()); Two p{r.below(t.size() - a + 1), r.below(2)}; t.fill(t.begin() + a, t.begin() + a + p.a, p.b); }
    }
  }
};
template <bool S> struct OfSuccinct {
  using T = SuccinctBitVector<S>;
  static constexpr const char* name = S ? "SuccinctBitVector<true>" : "SuccinctBitVector<false>";
  static T make(Rnd& r, size_t n) { BitVector b(n * (1 + r.below(40))); for (size_t i = 0; i < b.size(); i++) b[i] = r.below(3) == 0; return T(std::move(b)); }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size());
    u64 ones = 0;
    for (size_t i = 0; i < t.size(); i++) { bool b = t[i]; o.push_back(t.rank_1(i) * 2 + b); if (i % 7 == 0) o.push_back(t.rank_0(i)); if constexpr (S) if (b) o.push_back(t.select(ones)); ones += b; }
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) { replace<OfSuccinct>(t, r); }
};
struct OfFitVector {
  using T = FitVector;
  static constexpr const char* name = "FitVector";
  static T make(Rnd& r, size_t n) { size_t w = 1 + r.below(64); T t(w, n); for (size_t i = 0; i < n; i++) t[i] = r.bits(64) & (w == 64 ? ~u64(0) : (u64(1) << w) - 1); return t; }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size()); o.push_back(t.unit_width());
    for (size_t i = 0; i < t.size(); i++) o.push_back(t[i]);
    for (u64 x : t) o.push_back(x);
    if (t.size()) { o.push_back(t.front()); o.push_back(t.back()); o.push_back(t.at(t.size() / 2)); }
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) {
    u64 m = t.unit_width() == 64 ? ~u64(0) : (u64(1) << t.unit_width()) - 1, x = r.next() & m;
    switch (r.below(8)) {
      case 0: t.push_back(x); break;
      case 4: t = make(r, r.below(60)); break;
      case 5: t.reserve(r.below(300)); break;
      case 6: { auto u = make(r, r.below(60)); std::stringstream s; { Calm calm; u.Write(s); } t = FitVector(s); break; }
      case 7: { std::vector<u64> v(1 + r.below(40)); unsigned w = (unsigned)r.below(65); for (auto& e : v) e = r.bits(w); t = FitVector(v); break; }
      case 1: t.resize(r.below(100), x); break;
      case 2: t.assign(r.below(100), x); break;
      default: if (t.size()) t[r.below(t.size())] = x;
    }
  }
};
struct OfDacVector {
  using T = DacVector;
  static constexpr const char* name = "DacVector";
  static T make(Rnd& r, size_t n) { std::vector<u64> v(n); unsigned top = 1 + (unsigned)r.below(64); for (auto& x : v) x = r.bits((unsigned)r.below(top + 1)); if (r.below(3) == 0) return T(v, std::vector<size_t>{1 + r.below(20), 1 + r.below(20), 24, 20}); return T(v); }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size()); o.push_back(t.num_layers());
    for (size_t i = 0; i < t.size(); i++) o.push_back(t[i]);
    for (auto x : t) o.push_back(x);
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) { replace<OfDacVector>(t, r); }
};
template <unsigned W> struct OfMultiBit {
  using T = MultiBitVector<W>;
  static constexpr const char* name = W == 1 ? "MultiBitVector<1>" : W == 2 ? "MultiBitVector<2>" : "MultiBitVector<3>";
  static constexpr size_t kLen = 150;  // it does not know its length: all have one
  static T make(Rnd& r, size_t) { T t; t.resize(kLen); for (size_t i = 0; i < kLen; i++) t.set(i, (u8)r.below(1u << W)); t.build(); return t; }
  static void look(const T& t, Obs& o) {
    if (t.size_in_bytes() > 100) for (size_t i = 0; i < kLen; i++) { u64 s = t[i]; o.push_back(s); if (s) o.push_back(t.rank(i)); }
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) { if (t.size_in_bytes() <= 100) { t = make(r, 0); return; } for (int k = 0; k < 9; k++) { size_t i = r.below(kLen); t.set(i, (u8)r.below(1u << W)); } t.build(); }
};
struct OfMultiple {
  using T = MultipleVector;
  static constexpr const char* name = "MultipleVector";
  static T make(Rnd& r, size_t n) { T t; t.set_element_sizes(std::vector<size_t>{1 + r.below(8), 1 + r.below(8), 1 + r.below(8)}); for (size_t i = 0; i < n; i++) { t.emplace_back(); write(t, i, r); } return t; }
  static void write(T& t, size_t i, Rnd& r) {
    auto put = [&](auto id) { size_t w = t.element_size(decltype(id)::value) * 8; t.template set_nested_element<decltype(id)::value>(i, r.next() & (w >= 64 ? ~u64(0) : (u64(1) << w) - 1)); };
    put(std::integral_constant<int, 0>()); put(std::integral_constant<int, 1>()); put(std::integral_constant<int, 2>());
  }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size()); o.push_back(t.block_size());
    for (size_t i = 0; i < t.size(); i++) { auto b = t.block(i); o.push_back(t.nested_element<0>(i)); o.push_back(b.template get<1>()); o.push_back(t.nested_element<2>(i)); }
    o.push_back(t.size_in_bytes());
    Calm calm; std::ostringstream s; t.StoreTo(s); bytes(o, s.str());
  }
  static void change(T& t, Rnd& r) {
    if (t.block_size() == 0) { t = make(r, r.below(20)); return; }
    switch (r.below(7)) {
      case 3: t.push_back({r.below(256), r.below(256), r.below(256)}); break;
      case 4: { size_t n = t.size() + r.below(20); t.resize(n, {r.below(256), r.below(256), r.below(256)}); break; }
      case 5: t.reserve(t.size() + r.below(100)); break;
      case 6: { auto u = make(r, r.below(30)); std::stringstream s; { Calm calm; u.StoreTo(s); } t.LoadFrom(s); break; }
      case 0: t.emplace_back(); write(t, t.size() - 1, r); break;
      case 1: t.resize(r.below(t.size() + 1)); break;
      default: if (t.size()) write(t, r.below(t.size()), r);
    }
  }
};
struct OfWavelet {
  using T = WaveletTree;
  static constexpr const char* name = "WaveletTree";
  static T make(Rnd& r, size_t n) { std::vector<u8> v(n); unsigned a = 1 + (unsigned)r.below(255); for (auto& x : v) x = (u8)r.below(a); return T(v); }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size());
    for (size_t i = 0; i < t.size(); i++) { o.push_back(t[i]); o.push_back(t.rank(i)); if (i % 5 == 0) o.push_back(t.rank(t[i], i)); }
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) { replace<OfWavelet>(t, r); }
};
struct OfCht {
  using T = CHT<16, 80>;
  static constexpr const char* name = "CHT";
  static T make(Rnd& r, size_t n) { T t(14); for (size_t i = 0; i < n; i++) { Two p{r.below(200) * 37, r.below(65536)}; t.set(p.a, p.b); } return t; }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size()); o.push_back(t.bucket()); o.push_back(t.IsFilled());
    for (u64 k = 0; k < 200; k++) { auto p = t.get(k * 37); o.push_back(p.first ? p.second : ~u64(0)); }
  }
  static void change(T& t, Rnd& r) {
    switch (r.below(4)) {
      case 0: t.erase(r.below(200) * 37); break;
      case 1: t.reserve(r.below(100)); break;
      default: for (int k = 0; k < 5; k++) { Two p{r.below(200) * 37, r.below(65536)}; t.set(p.a, p.b); }
    }
  }
};
template <class A> struct OfCompressed {
  using T = A;
  static constexpr bool kVec = std::is_same_v<A, CDRWVector>;
  static constexpr const char* name = kVec ? "CDRWVector" : "CDRWArray";
  static T make(Rnd& r, size_t n) { T t(n); for (size_t i = 0; i < n; i++) t.set(i, r.bits((unsigned)r.below(65))); return t; }
  static void look(const T& t, Obs& o) { o.push_back(t.size()); if constexpr (kVec) o.push_back(t.capacity()); for (size_t i = 0; i < t.size(); i++) o.push_back(t.get(i)); }
  static void change(T& t, Rnd& r) {
    if constexpr (kVec)
      switch (r.below(8)) {
        case 0: case 1: case 2: t.push_back(r.bits((unsigned)r.below(65))); return;
        case 3: { size_t k = r.below(4) ? 1 : t.size() / 2 + 1; while (k--) t.pop_back(); return; }
        case 4: if (r.below(2)) t.reserve(t.size() + r.below(60)); else t.shrink_to_fit(); return;
        default: break;
      }
    else if (r.below(16) == 0) { std::vector<u64> v(r.below(40)); for (auto& x : v) x = r.bits((unsigned)r.below(65)); t = T(v.begin(), v.end()); return; }
    if (t.size()) { size_t i = r.below(t.size()); t.set(i, r.bits((unsigned)r.below(65))); }
  }
};
template <bool Asc> struct OfHeap {
  using T = Heap<Asc>;
  static constexpr const char* name = Asc ? "Heap<true>" : "Heap<false>";
  static T make(Rnd& r, size_t n) { std::vector<u64> v(n); for (auto& x : v) x = r.below(50); return T(v.begin(), v.end()); }
  static void look(const T& t, Obs& o) { o.push_back(t.size()); for (size_t i = 1; i <= t.size(); i++) o.push_back(t.value(i)); if (t.size()) o.push_back(t.front()); }
  static void change(T& t, Rnd& r) { if (r.below(12) == 0) { std::vector<u64> v(r.below(30)); for (auto& x : v) x = r.below(50); t = T(v); } else if (t.size() && r.below(2)) t.pop(); else t.push(r.below(50)); }
};
template <class E, size_t N> struct OfInPlace {
  using T = InitializableArray<E, N>;
  static constexpr const char* name = "InitializableArray";
  static T make(Rnd& r, size_t n) { T t((E)r.below(N)); for (size_t i = 0; i < n && i < N; i++) { Two p{r.below(N), r.below(N)}; t.set(p.a, (E)p.b); } return t; }
  static void look(const T& t, Obs& o) { o.push_back(t.size()); for (size_t i = 0; i < N; i++) { o.push_back((u64)t.get(i)); o.push_back((u64)E(t[i])); } for (E e : t) o.push_back((u64)e); }
  static void change(T& t, Rnd& r) { if (r.below(8) == 0) t.init((E)r.below(N)); else for (int k = 0; k < 4; k++) { Two p{r.below(N), r.below(N)}; t.set(p.a, (E)p.b); } }
};
struct OfFolklore {
  using T = InitializableArrayFolklore<u64>;
  static constexpr const char* name = "InitializableArrayFolklore";
  static T make(Rnd& r, size_t n) { T t(n, r.below(9)); for (size_t i = 0; i < n; i++) if (r.below(2)) t.set(i, r.next()); return t; }
  static void look(const T& t, Obs& o) { o.push_back(t.size()); for (size_t i = 0; i < t.size(); i++) o.push_back(t.get(i)); }
  static void change(T& t, Rnd& r) { if (r.below(8) == 0) t.init(r.below(9)); else if (r.below(12) == 0) { Two p{r.below(40), r.next()}; std::vector<u64> v(p.a, p.b); t = T(v.begin(), v.end()); } else if (t.size()) { Two p{r.below(t.size()), r.next()}; t.set(p.a, p.b); } }
};
struct OfOracle {
  using T = FactorOracle;
  static constexpr const char* name = "FactorOracle";
  static T make(Rnd& r, size_t n) { return T(text(r, n, 1 + (unsigned)r.below(5))); }
  static void look(const T& t, Obs& o) {
    Rnd r(99);
    for (int k = 0; k < 120; k++) o.push_back(t.accept(text(r, r.below(6), 1 + k % 5)));
    for (size_t s = 0; s < 3; s++) for (int ch = (int)g_base; ch < (int)g_base + 5; ch++) { size_t st = 0; o.push_back(t.image(st, (u8)ch)); o.push_back(st); }
  }
  static void change(T& t, Rnd& r) { t = make(r, r.below(60)); }
};
template <class S, bool Legacy = false> struct OfSamc {
  using T = S;
  static constexpr bool kDict = std::is_same_v<S, SamcDict<uint32_t>>;
  static constexpr const char* name = kDict ? "SamcDict" : Legacy ? "Samc (legacy)" : "Samc";
  static T make(Rnd& r, size_t n) { auto k = keys(r, n); return T(k.begin(), k.end()); }
  static void look(const T& t, Obs& o) {
    Rnd r(98);
    for (int k = 0; k < 120; k++) {
      auto q = text(r, r.below(7), 1 + k % 4);
      if constexpr (kDict) { u64 id = t.lookup(q); o.push_back(id); if (id != T::kSearchError) bytes(o, t.access(id)); } else o.push_back(t.accept(q));
    }
    o.push_back(t.size_in_bytes());
    stored(o, t);
  }
  static void change(T& t, Rnd& r) { replace<OfSamc>(t, r); }
};
struct OfSuffixArray {
  using T = SuffixArray;
  static constexpr const char* name = "SuffixArray";
  static T make(Rnd& r, size_t n) { return T(text(r, n, 1 + (unsigned)r.below(4))); }
  static void look(const T& t, Obs& o) {
    stored(o, t);
    {
      Calm calm;
      std::ostringstream a, b;
      t.WriteSA(a); t.WriteLCP(b);
      bytes(o, a.str()); bytes(o, b.str());
    }
    if (o[0] > 60) { o.push_back(t.char_at(0)); bytes(o, std::string(t.suffix(0))); bytes(o, std::string(t.suffix(0, 1))); }
  }
  static void change(T& t, Rnd& r) { replace<OfSuffixArray>(t, r); }
};
struct OfTrie {
  using T = graph_util::Trie<u64>;
  static constexpr const char* name = "Trie";
  static T make(Rnd& r, size_t n) { T t; for (auto& k : keys(r, n)) t.insert(k, r.below(1000)); return t; }
  static void look(const T& t, Obs& o) {
    o.push_back(t.size());
    t.dfs([&](auto& n, size_t d) { o.push_back(d * 2 + n.terminal()); n.for_each_edge([&](auto ch, auto to) { o.push_back(ch * 1000 + to); }); });
    t.bfs([&](auto& n, size_t d) { o.push_back(d * 2 + n.terminal()); });
    T u(t);  // lookup is not offered on constant tries
    Rnd r(97);
    for (int k = 0; k < 60; k++) { auto p = u.traverse(text(r, r.below(7), 1 + k % 4)); o.push_back(p ? *p : ~u64(0)); }
  }
  static void change(T& t, Rnd& r) { auto k = some_text(r, 7, 4); t.insert(k, r.below(1000)); }
};
constexpr unsigned kBases[] = {'a', 126, 250};
inline std::vector<std::string> patterns(unsigned base) {
  unsigned old = std::exchange(g_base, base);
  std::vector<std::string> v;
  Rnd r(5);
  for (int i = 0; i < 64; i++) { Two p{1 + r.below(i < 40 ? 6 : 40), 1 + r.below(3)}; v.push_back(text(r, p.a, (unsigned)p.b)); }
  g_base = old;
  return v;
}
inline const std::string& pattern(u64 k) {  // matchers refer to their pattern: these stay
  static const std::vector<std::string> p[] = {patterns(kBases[0]), patterns(kBases[1]), patterns(kBases[2])};
  return p[g_base == kBases[1] ? 1 : g_base == kBases[2] ? 2 : 0][k % 64];
}
template <class M> struct OfMatcher {
  using T = M;
  static constexpr const char* name = "pattern matcher";
  static T make(Rnd& r, size_t) { return T(pattern(r.next())); }
  static void look(const T& t, Obs& o) {
    Rnd r(96);
    for (int k = 0; k < 6; k++) { auto m = t.find_all(text(r, 80, 1 + k % 3)); o.push_back(m.size()); for (auto p : m) o.push_back(p); }
    for (int k = 40; k < 44; k++) for (auto p : t.find_all(pattern(k) + pattern(k) + pattern(k + 1))) o.push_back(p);
  }
  static void change(T& t, Rnd& r) { t = make(r, 0); }
};
// functions without an object: the arguments are the object
struct OfFunctions {
  using T = std::vector<u64>;
  static constexpr const char* name = "free functions";
  static T make(Rnd& r, size_t n) { T t(n + 1); unsigned w = 1 + (unsigned)r.below(64); for (auto& x : t) x = r.bits(w); return t; }
  static void look(const T& t, Obs& o) {
    if (t.empty()) return;
    T a = t, b;
    HeapSort(a.begin(), a.end());
    for (auto x : a) o.push_back(x);
    calc::split_positions_optimized_for_dac(t, &b);
    for (auto x : b) o.push_back(x);
    calc::bit_length_frequencies(t, &b);
    for (auto x : b) o.push_back(x);
    SplitMixHash h(33);
    for (auto x : t) {
      u64 y = x & ((u64(1) << 33) - 1);
      o.push_back(h.hash(y)); o.push_back(h.ihash(y));
      o.push_back(bit_util::popcnt(x)); o.push_back(bit_util::ctz(x | 1)); o.push_back(bit_util::clz(x | 1));
      if (x) o.push_back(bit_util::sel(x, 1 + x % bit_util::popcnt(x)));
      o.push_back(bit_util::swap_pi8(x)); o.push_back(bit_util::swap_pi16(x)); o.push_back(bit_util::bextr(x, 3, 17)); o.push_back(bit_util::cnt(x, 1 + (x >> 7) % 63));
      o.push_back(bit_util::ctz((u32)x | 1u) * 64 + bit_util::clz((u32)x | 1u));
      o.push_back(calc::SizeFitsInBits(x)); o.push_back(calc::SizeFitsInBytes(x)); o.push_back(calc::SizeFitsInUnits(x, 1 + x % 9));
      o.push_back(calc::size_fits<3>(x)); o.push_back(calc::SizeFitsAsList(x, std::vector<size_t>{1 + x % 7, 8, 60})); o.push_back(calc::additional_bit_size_of_rank(double(x >> 24)));
      o.push_back(bit_util::popcnt8((u8)x)); o.push_back(bit_util::popcnt16((uint16_t)x)); o.push_back(bit_util::popcnt32((u32)x)); o.push_back(bit_util::popcnt64(x));
      o.push_back(bit_util::popcnt11(x)); o.push_back(bit_util::popcnt10(x)); o.push_back(bit_util::popcnt111(x)); o.push_back(bit_util::popcnt110(x)); o.push_back(bit_util::popcnt101(x)); o.push_back(bit_util::popcnt100(x));
      o.push_back(bit_util::swap_pi1(x)); o.push_back(bit_util::swap_pi2(x)); o.push_back(bit_util::swap_pi4(x)); o.push_back(bit_util::swap_pi32(x));
      for (size_t k = 1, n = bit_util::popcnt(x); k <= n; k += 1 + k / 4) o.push_back(bit_util::sel(x, k));
      o.push_back(bit_util::WidthMask(1 + x % 64)); o.push_back(bit_util::OffsetMask(x % 64)); o.push_back(bit_util::bextr(x, x % 64, (x >> 6) % (65 - x % 64)));
    }
    for (size_t i = 0; i + 4 <= t.size(); i += 3) {
      alignas(32) u64 x[4] = {t[i], t[i + 1] & t[i], t[i + 2], t[i + 3]}, y[4], z[4];
      bit_util::xor_map(x, (u8)(t[i] ^ i), y);
      bit_util::copy256_epi64(y, z);
      for (u64 w : z) o.push_back(w);
      o.push_back(bit_util::popcnt256(x)); o.push_back(bit_util::ctz256(x)); o.push_back(bit_util::clz256(x)); o.push_back(bit_util::is_zero256(x));
#ifdef __AVX2__
      _mm256_store_si256((__m256i*)z, bit_util::xor_map_intrinsics(_mm256_load_si256((const __m256i*)x), (u8)(t[i + 1] + i)));
      o.push_back(bit_util::is_zero256_intrinsics(_mm256_load_si256((const __m256i*)x)));
#else
      bit_util::xor_map(x, (u8)(t[i + 1] + i), z);
      o.push_back(bit_util::is_zero256(x));
#endif
      for (u64 w : z) o.push_back(w);
      bit_util::set256_epi1(i & 1, y);
      o.push_back(y[0] + y[1] + y[2] + y[3]);
    }
    std::stringstream s;
    { Calm calm; write_vec(t, s); write_string("abc", s); write_val(t[0], s); bytes(o, s.str()); }
    read_vec(s, b);
    o.push_back(b == t); o.push_back(read_string(s) == "abc"); o.push_back(read_val<u64>(s));
    recursive([&o](auto self, u64 n) -> void { o.push_back(n); if (n > 1) { self(self, n - 1); self(self, n - 2); } })(u64(5));
  }
  static void change(T& t, Rnd& r) { if (t.size()) t[r.below(t.size())] = r.next(); }
};
constexpr size_t kKinds = 32, kPrinting = 20;  // making a suffix array prints
// calls f(kind)
template <class F> void with_kind(size_t k, F&& f) {
  switch (k) {
    case 0: f(OfBitVector()); break;
    case 1: f(OfSuccinct<true>()); break;
    case 2: f(OfSuccinct<false>()); break;
    case 3: f(OfFitVector()); break;
    case 4: f(OfDacVector()); break;
    case 5: f(OfMultiBit<2>()); break;
    case 6: f(OfMultiBit<3>()); break;
    case 7: f(OfMultiple()); break;
    case 8: f(OfWavelet()); break;
    case 9: f(OfCht()); break;
    case 10: f(OfCompressed<CDRWArray>()); break;
    case 11: f(OfCompressed<CDRWVector>()); break;
    case 12: f(OfHeap<true>()); break;
    case 13: f(OfHeap<false>()); break;
    case 14: f(OfInPlace<int, 37>()); break;
    case 15: f(OfInPlace<uint8_t, 12>()); break;
    case 16: f(OfFolklore()); break;
    case 17: f(OfOracle()); break;
    case 18: f(OfSamc<Samc<uint32_t>>()); break;
    case 19: f(OfSamc<SamcDict<uint32_t>>()); break;
    case 20: f(OfSuffixArray()); break;
    case 21: f(OfTrie()); break;
    case 22: f(OfMatcher<pattern_matching::Kmp>()); break;
    case 23: f(OfMatcher<pattern_matching::Bm>()); break;
    case 24: f(OfMatcher<pattern_matching::TurboBom>()); break;
    case 25: f(OfMatcher<pattern_matching::SundayQS>()); break;
    case 26: f(OfMatcher<pattern_matching::SundayMS>()); break;
    case 27: f(OfMatcher<pattern_matching::Simple>()); break;
    case 28: f(OfMatcher<pattern_matching::Bom>()); break;
    case 29: f(OfSamc<Samc<uint32_t, true>, true>()); break;
    case 30: f(OfMultiBit<1>()); break;
    default: f(OfFunctions());
  }
}
template <class K> Obs seen(const typename K::T& t) { Obs o; K::look(t, o); return o; }
inline std::string differs(const Obs& a, const Obs& b) {
  if (a.size() != b.size()) return cat("it shows ", a.size(), " values instead of ", b.size());
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return cat("observed value ", i, " is ", a[i], " instead of ", b[i]);
  return "";
}
}  // namespace kinds
