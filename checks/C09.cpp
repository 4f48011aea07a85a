// variants: rel asan dbg
// rule: one to six objects of the ten storable types, with generated contents, are written one behind the other to
//   one stream, read back in order (by constructor, into a fresh or into an already filled object) and compared
//   with the source data; the stream must be consumed exactly, a second write must give the same bytes, and the
//   reported size must be the written one; non-trivial = at least two non-empty objects
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <new>
#include <stdlib.h>
// memory as it is got is full of something
static unsigned char g_leftover = 0xA5;
static void* leftover(size_t n, size_t align) {
  void* p = align <= alignof(std::max_align_t) ? std::malloc(n ? n : 1) : std::aligned_alloc(align, (n + align - 1) / align * align + (n ? 0 : align));
  if (!p) throw std::bad_alloc();
  if (n <= size_t(1) << 24) std::memset(p, g_leftover, n);
  return p;
}
void* operator new(size_t n) { return leftover(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return leftover(n, (size_t)a); }
void* operator new[](size_t n) { return leftover(n, 0); }
void* operator new[](size_t n, std::align_val_t a) { return leftover(n, (size_t)a); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }
static inline int leftover_posix_memalign(void** p, size_t a, size_t n) { *p = leftover(n, a); return 0; }
#include <boost/config.hpp>
#include <boost/assert.hpp>
// aligned vectors get their memory through boost
#define posix_memalign leftover_posix_memalign
#include <boost/align/aligned_alloc.hpp>
#undef posix_memalign
#include <boost/align/aligned_allocator.hpp>
#include "keys.hpp"
#include "kinds.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/string_util/Samc.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
using namespace sim_ds;

struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

// An unbounded stream in memory, written once and read once
struct Buffer : std::streambuf {
  std::deque<std::vector<char>> parts;
  size_t total = 0, pos = 0;  // read position in the first part
  std::streamsize xsputn(const char* p, std::streamsize k) override {
    if (k <= 0) return 0;
    parts.emplace_back(p, p + k);
    total += size_t(k);
    return k;
  }
  int_type overflow(int_type ch) override { char x = char(ch); xsputn(&x, 1); return ch; }
  std::streamsize xsgetn(char* p, std::streamsize k) override {
    std::streamsize got = 0;
    while (got < k && !parts.empty()) {
      size_t part = std::min(size_t(k - got), parts.front().size() - pos);
      memcpy(p + got, parts.front().data() + pos, part);
      got += std::streamsize(part);
      pos += part;
      if (pos == parts.front().size()) { parts.pop_front(); pos = 0; }
    }
    return got;
  }
  int_type uflow() override { char x; return xsgetn(&x, 1) == 1 ? int_type((unsigned char)x) : traits_type::eof(); }
  int_type underflow() override { return parts.empty() ? traits_type::eof() : int_type((unsigned char)parts.front()[pos]); }
  size_t written() const { return total; }
  size_t rest() const { size_t n = 0; for (auto& p : parts) n += p.size(); return n - pos; }
};

// One stored object: its contents, how to make it, write it, read it and compare it.
struct Stored {
  virtual ~Stored() {}
  virtual std::string text() const = 0;
  virtual bool blank() const = 0;
  virtual void write(std::ostream& o, Case& c) = 0;
  virtual void read(std::istream& i, Case& c) = 0;   // reads, and verifies against the source data
  virtual void rewrite(std::ostream& o) = 0;         // writes the object that was read
  virtual long long reported() const { return -1; }  // size_in_bytes, when it is exact
};
template <class T> struct Base : Stored {
  std::unique_ptr<T> orig, back;
  void write(std::ostream& o, Case& c) override { orig = make(false, c); store(*orig, o); }
  void rewrite(std::ostream& o) override { store(*back, o); }
  // 0: by constructor (or fresh), 1: into a default object, 2: over an object with other contents
  void read(std::istream& i, Case& c) override {
    bool over = c.coin();
    back = over ? make(true, c) : fresh();
    c.label_if(over, "read over other contents");
    load(*back, i);
    REQUIRE(i.good(), "reading ", text(), " ran off the stream");
    check(*orig, "the written object");
    check(*back, over ? "read over another object" : "read");
    use(*back, c);
  }
  static std::unique_ptr<T> fresh() {
    if constexpr (std::is_default_constructible_v<T>) return std::make_unique<T>();
    else return std::make_unique<T>(std::vector<uint8_t>());
  }
  virtual std::unique_ptr<T> make(bool other, Case& c) = 0;
  virtual void store(const T& x, std::ostream& o) const { if constexpr (!std::is_same_v<T, MultipleVector>) x.Write(o); }
  virtual void load(T& x, std::istream& i) const { if constexpr (!std::is_same_v<T, MultipleVector> && !std::is_same_v<T, FitVector>) x.Read(i); }
  virtual void check(T& x, const char* what) = 0;
  virtual void use(T&, Case&) {}
};

struct SBits : Base<BitVector> {
  std::vector<bool> b;
  SBits(Case& c) : b(gen_bits(c, 30, 600, 8000)) {}
  std::string text() const override { return "BitVector " + bits_text(b); }
  bool blank() const override { return b.empty(); }
  long long reported() const override { return orig->size_in_bytes(); }
  std::unique_ptr<BitVector> make(bool other, Case& c) override {
    if (other) return std::make_unique<BitVector>(gen_bits(c, 30, 600, 8000));
    if (c.coin()) return std::make_unique<BitVector>(b);
    auto x = std::make_unique<BitVector>(b.size() + c.below(300), true);  // shrunk from a longer one
    for (size_t i = 0; i < b.size(); i++) (*x)[i] = b[i];
    x->resize(b.size());
    return x;
  }
  void check(BitVector& x, const char* w) override {
    REQUIRE(x.size() == b.size(), w, ": size ", x.size(), " for ", text());
    for (size_t i = 0; i < b.size(); i++) REQUIRE(x[i] == b[i], w, ": bit ", i, " of ", text());
  }
  void use(BitVector& x, Case& c) override {  // it can be written to like any other
    BitVector y(x);
    auto m = b;
    for (size_t k = c.below(80); k--;) { bool v = c.coin(); y.push_back(v); m.push_back(v); }
    for (size_t i = 0; i < m.size(); i++) REQUIRE(y[i] == m[i], "appended to after reading: bit ", i, " of ", text());
  }
};
template <bool Sel> struct SSucc : Base<SuccinctBitVector<Sel>> {
  using S = SuccinctBitVector<Sel>;
  std::vector<bool> b;
  SSucc(Case& c) : b(gen_bits(c, 60, 1500, 12000)) {}
  std::string text() const override { return cat("SuccinctBitVector<", Sel, "> ", bits_text(b)); }
  bool blank() const override { return b.empty(); }
  long long reported() const override { return this->orig->size_in_bytes(); }
  std::unique_ptr<S> make(bool other, Case& c) override { return std::make_unique<S>(BitVector(other ? gen_bits(c, 60, 1500, 12000) : b)); }
  void load(S& x, std::istream& i) const override { if (x.size() % 2) x = S(i); else x.Read(i); }
  void check(S& x, const char* w) override {
    REQUIRE(x.size() == b.size(), w, ": size ", x.size(), " for ", text());
    size_t r = 0;
    for (size_t i = 0; i < b.size(); i++) {
      REQUIRE(x[i] == b[i] && x.rank_1(i) == r && x.rank_0(i) == i - r, w, ": bit ", x[i], " and rank ", x.rank_1(i), " at ", i, " of ", text());
      if (b[i]) { if constexpr (Sel) REQUIRE(x.select(r) == i, w, ": select(", r, ") of ", text()); r++; }
    }
    REQUIRE(x.rank(b.size()) == r, w, ": rank at the end of ", text());
  }
};
struct SFit : Base<FitVector> {
  unsigned w;
  std::vector<u64> v;
  SFit(Case& c) { w = (unsigned)c.edgy(1, 64); v = gen_values<u64>(c, c.size(20, 300, 3000), w); }
  std::string text() const override { return cat("FitVector of width ", w, " ", show(v)); }
  bool blank() const override { return v.empty(); }
  long long reported() const override { return orig->size_in_bytes(); }
  std::unique_ptr<FitVector> make(bool other, Case& c) override {
    if (other) return std::make_unique<FitVector>(size_t(1 + c.below(64)), size_t(c.below(50)));
    auto x = std::make_unique<FitVector>(size_t(w));
    for (auto e : v) x->push_back(e);
    return x;
  }
  void load(FitVector& x, std::istream& i) const override { x = FitVector(i); }
  void check(FitVector& x, const char* s) override {
    REQUIRE(x.size() == v.size() && x.unit_width() == w, s, ": size ", x.size(), " and width ", x.unit_width(), " for ", text());
    for (size_t i = 0; i < v.size(); i++) REQUIRE(x[i] == v[i], s, ": element ", i, " is ", u64(x[i]), " in ", text());
  }
  void use(FitVector& x, Case& c) override {
    FitVector y(x);
    auto m = v;
    for (size_t k = c.below(10); k--;) { u64 e = c.bits(w); y.push_back(e); m.push_back(e); }
    if (!m.empty()) { size_t i = c.below(m.size()); u64 e = c.bits(w); y[i] = e; m[i] = e; }
    for (size_t i = 0; i < m.size(); i++) REQUIRE(y[i] == m[i], "changed after reading: element ", i, " is ", u64(y[i]), " expected ", m[i], " in ", text());
  }
};
struct SDac : Base<DacVector> {
  std::vector<u64> v;
  SDac(Case& c) { v = gen_values<u64>(c, c.size(20, 300, 3000), (unsigned)c.edgy(1, 64)); }
  std::string text() const override { return "DacVector " + show(v); }
  bool blank() const override { return v.empty(); }
  std::unique_ptr<DacVector> make(bool other, Case& c) override {
    if (other) return std::make_unique<DacVector>(gen_values<u64>(c, c.below(60), (unsigned)c.range(1, 40)));
    return std::make_unique<DacVector>(v);
  }
  void load(DacVector& x, std::istream& i) const override { if (x.size() % 2) x = DacVector(i); else x.Read(i); }
  void check(DacVector& x, const char* w) override {
    REQUIRE(x.size() == v.size(), w, ": size ", x.size(), " for ", text());
    for (size_t i = 0; i < v.size(); i++) REQUIRE(x[i] == v[i], w, ": element ", i, " is ", u64(x[i]), " in ", text());
  }
};
template <unsigned U> struct SMulti : Base<MultiBitVector<U>> {
  using M = MultiBitVector<U>;
  std::vector<uint8_t> v;
  static std::vector<uint8_t> gen(Case& c) { auto w = gen_values<u64>(c, c.size(30, 400, 5000), U); return {w.begin(), w.end()}; }
  SMulti(Case& c) : v(gen(c)) {}
  std::string text() const override { return cat("MultiBitVector<", U, "> ", show(v)); }
  bool blank() const override { return v.empty(); }
  long long reported() const override { return this->orig->size_in_bytes(); }
  std::unique_ptr<M> make(bool other, Case& c) override {
    auto x = std::make_unique<M>();
    auto w = other ? gen(c) : v;
    for (size_t i = 0; i < w.size(); i++) x->set(i, w[i]);
    x->build();
    return x;
  }
  void check(M& x, const char* w) override {
    size_t cnt[8] = {};
    for (size_t i = 0; i < v.size(); i++) {
      REQUIRE(x[i] == v[i], w, ": element ", i, " is ", int(x[i]), " in ", text());
      if (v[i]) REQUIRE(x.rank(i) == cnt[v[i]], w, ": rank(", i, ")=", x.rank(i), " expected ", cnt[v[i]], " in ", text());
      cnt[v[i]]++;
    }
  }
};
struct SRecords : Base<MultipleVector> {
  std::vector<size_t> sz;
  std::vector<std::vector<u64>> t;
  SRecords(Case& c) {
    sz.resize(c.range(1, 5));
    for (auto& s : sz) s = c.edgy(1, 8);
    t.resize(c.size(6, 40, 300));
    auto r = c.bulk();
    for (auto& rec : t) for (auto s : sz) rec.push_back(r.below(4) ? r.bits(8 * s) : 0);
  }
  std::string text() const override { return cat("MultipleVector of sizes ", show(sz), ", ", t.size(), " records"); }
  bool blank() const override { return t.empty(); }
  std::unique_ptr<MultipleVector> make(bool other, Case& c) override {
    auto x = std::make_unique<MultipleVector>();
    if (other) { std::vector<size_t> s(c.range(1, 4)); for (auto& e : s) e = c.edgy(1, 8); x->set_element_sizes(s); x->resize(c.below(9)); return x; }
    x->set_element_sizes(sz);
    x->resize(t.size());
    for (size_t i = 0; i < t.size(); i++) { auto b = x->block(i); for (size_t k = 0; k < sz.size(); k++) b.set_at(k, t[i][k]); }
    return x;
  }
  void store(const MultipleVector& x, std::ostream& o) const override { x.StoreTo(o); }
  void load(MultipleVector& x, std::istream& i) const override { x.LoadFrom(i); }
  void check(MultipleVector& x, const char* w) override {
    REQUIRE(x.size() == t.size(), w, ": size ", x.size(), " for ", text());
    for (size_t k = 0; k < sz.size(); k++) REQUIRE(x.element_size(k) == sz[k], w, ": size of field ", k, " of ", text());
    for (size_t i = 0; i < t.size(); i++) { auto b = x.block(i); for (size_t k = 0; k < sz.size(); k++) REQUIRE(b.get_at(k) == t[i][k], w, ": field ", k, " of record ", i, " is ", b.get_at(k), " in ", text()); }
  }
  void use(MultipleVector& x, Case&) override {
    MultipleVector y(x);
    y.resize(t.size() + 1);
    auto b = y.block(t.size());
    for (size_t k = 0; k < sz.size(); k++) b.set_at(k, 1 + k);
    for (size_t k = 0; k < sz.size(); k++) REQUIRE(y.block(t.size()).get_at(k) == 1 + k, "a record made after reading; ", text());
  }
};
struct SWave : Base<WaveletTree> {
  std::vector<uint8_t> v;
  static std::vector<uint8_t> gen(Case& c) { auto w = gen_values<u64>(c, c.size(20, 200, 2000), (unsigned)c.edgy(1, 8)); return {w.begin(), w.end()}; }
  SWave(Case& c) : v(gen(c)) {}
  std::string text() const override { return "WaveletTree " + show(v); }
  bool blank() const override { return v.empty(); }
  long long reported() const override { return orig->size_in_bytes(); }
  std::unique_ptr<WaveletTree> make(bool other, Case& c) override { return std::make_unique<WaveletTree>(other ? gen(c) : v); }
  void check(WaveletTree& x, const char* w) override {
    REQUIRE(x.size() == v.size(), w, ": size ", x.size(), " for ", text());
    size_t cnt[256] = {};
    for (size_t i = 0; i < v.size(); i++) {
      REQUIRE(x[i] == v[i] && x.rank(i) == cnt[v[i]] && x.rank(v[i], i) == cnt[v[i]], w, ": element ", i, " is ", int(x[i]), " with rank ", x.rank(i), " in ", text());
      cnt[v[i]]++;
    }
    for (unsigned s = 0; s < 256; s++) REQUIRE(x.rank(uint8_t(s), v.size()) == cnt[s], w, ": count of ", s, " in ", text());
  }
};
template <class S> struct SKeys : Base<S> {
  std::vector<std::string> v;
  std::vector<std::string> qs;
  static std::vector<std::string> gen(Case& c) { auto k = gen_keys(c, 6, 30, 120); k.erase(std::unique(k.begin(), k.end()), k.end()); return k; }
  SKeys(Case& c) : v(gen(c)) { for (int i = 0; i < 12; i++) qs.push_back(near_key(c, v)); }
  std::string text() const override { return "dictionary of " + show_keys(v); }
  bool blank() const override { return v.empty(); }
  long long reported() const override { return this->orig->size_in_bytes(); }
  std::unique_ptr<S> make(bool other, Case& c) override { auto k = other ? gen(c) : v; return std::make_unique<S>(k.begin(), k.end()); }
  void check(S& x, const char* w) override {
    std::set<std::string> m(v.begin(), v.end());
    if constexpr (std::is_same_v<S, Samc<uint32_t>>) {
      for (auto& k : m) REQUIRE(x.accept(k), w, ": ", show_str(k), " is not accepted by ", text());
      for (auto& q : qs) REQUIRE(x.accept(q) == (m.count(q) > 0), w, ": ", show_str(q), " is answered wrongly by ", text());
    } else {
      std::set<size_t> ids;
      for (auto& k : m) {
        size_t id = x.lookup(k);
        REQUIRE(id < m.size() && ids.insert(id).second && x.access(id) == k, w, ": ", show_str(k), " has number ", id, " in ", text());
        REQUIRE(id == this->orig->lookup(k), w, ": ", show_str(k), " changed its number in ", text());
      }
      for (auto& q : qs) if (!m.count(q)) REQUIRE(x.lookup(q) == S::kSearchError, w, ": ", show_str(q), " is found in ", text());
    }
  }
};
struct SSuffix : Base<SuffixArray> {
  std::string s;
  SSuffix(Case& c) { auto a = gen_alphabet(c, 0, 255); s = gen_text(c, 12, 60, 400, a); }
  std::string text() const override { return "SuffixArray of " + show_str(s); }
  bool blank() const override { return s.empty(); }
  std::unique_ptr<SuffixArray> make(bool other, Case& c) override { Quiet q; return std::make_unique<SuffixArray>(other ? std::string(c.below(40), 'x') : s); }
  void check(SuffixArray& x, const char* w) override {
    std::stringstream o;
    x.Write(o);
    std::string t = read_string(o);
    FitVector sa(o), lcp(o);
    REQUIRE(t == s && sa.size() == s.size() && lcp.size() == s.size(), w, ": text ", show_str(t), " for ", text());
    for (size_t i = 0; i < s.size(); i++) REQUIRE(x.char_at(i) == (uint8_t)s[i] && x.suffix(i) == s.substr(i), w, ": text at ", i, " of ", text());
    for (size_t i = 0; i + 1 < s.size(); i++) {
      size_t a = sa[i], b = sa[i + 1], l = lcp[i];
      REQUIRE(a < s.size() && b < s.size() && s.compare(a, std::string::npos, s, b) < 0, w, ": suffixes ", i, " and ", i + 1, " of ", text());
      REQUIRE(s.compare(a, l, s, b, l) == 0 && (std::max(a, b) + l == s.size() || s[a + l] != s[b + l]), w, ": LCP ", i, " of ", text());
    }
  }
};

static std::unique_ptr<Stored> any(Case& c) {
  switch (c.below(14)) {
    case 0: return std::make_unique<SBits>(c);
    case 1: return std::make_unique<SSucc<true>>(c);
    case 2: return std::make_unique<SSucc<false>>(c);
    case 3: return std::make_unique<SFit>(c);
    case 4: return std::make_unique<SDac>(c);
    case 5: return std::make_unique<SMulti<1>>(c);
    case 6: return std::make_unique<SMulti<2>>(c);
    case 7: return std::make_unique<SMulti<3>>(c);
    case 8: return std::make_unique<SRecords>(c);
    case 9: case 10: return std::make_unique<SWave>(c);
    case 11: return std::make_unique<SKeys<Samc<uint32_t>>>(c);
    case 12: return std::make_unique<SKeys<SamcDict<uint32_t>>>(c);
    default: return std::make_unique<SSuffix>(c);
  }
}

LAW(stored_objects_come_back, 12000, 150000) {
  size_t n = c.range(1, 6), filled = 0;
  std::vector<std::unique_ptr<Stored>> all;
  std::vector<size_t> at = {0};
  std::stringstream f;
  std::string head = c.coin() ? "header" : "";
  f << head;
  std::string what;
  for (size_t i = 0; i < n; i++) {
    all.push_back(any(c));
    filled += !all[i]->blank();
    what += all[i]->text() + "; ";
    all[i]->write(f, c);
    at.push_back(f.str().size() - head.size());
  }
  f << "the end";
  NOTE(c, what);
  c.nontrivial(filled > 1);
  f.ignore(head.size());
  for (size_t i = 0; i < n; i++) {
    all[i]->read(f, c);
    REQUIRE((size_t)f.tellg() == head.size() + at[i + 1], "reading ", all[i]->text(), " consumed ", (long long)f.tellg() - (long long)head.size() - (long long)at[i], " of its ", at[i + 1] - at[i], " bytes");
    if (all[i]->reported() >= 0) REQUIRE((size_t)all[i]->reported() == at[i + 1] - at[i], "size_in_bytes is ", all[i]->reported(), " but ", at[i + 1] - at[i], " bytes are written; ", all[i]->text());
    std::ostringstream o;
    all[i]->rewrite(o);
    REQUIRE(o.str() == f.str().substr(head.size() + at[i], at[i + 1] - at[i]), "writing the object read gives other bytes; ", all[i]->text());
  }
  std::string end;
  std::getline(f, end);
  REQUIRE(end == "the end", "the stream is not where it should be: ", show_str(end));
}
// what is written is a function of the contents: nothing in it is left over from memory used before
LAW(leftovers_in_memory_are_not_stored, 12000, 120000) {
  kinds::Silent quiet;
  u64 seed = c.bits(32), changer = c.bits(32), changes = c.below(6);
  size_t n = c.size(4, 30, 200);
  kinds::with_kind(c.below(kinds::kKinds), [&](auto k) {
    using K = decltype(k);
    auto make = [&](int fill) {
      g_leftover = (unsigned char)fill;
      kinds::Rnd r(seed), q(changer);
      auto t = K::make(r, n);
      for (u64 i = 0; i < changes; i++) K::change(t, q);
      auto o = kinds::seen<K>(t);
      auto u = kinds::seen<K>(typename K::T(t));
      o.insert(o.end(), u.begin(), u.end());
      return o;
    };
    auto a = make(0xA5), b = make(0x3C);
    g_leftover = 0xA5;
    auto d = kinds::differs(b, a);
    REQUIRE(d.empty(), "two ", K::name, "s made alike differ: ", d);
    NOTE(c, K::name, " size ", n, ", ", changes, " changes");
    c.nontrivial(a.size() > 8);
    c.label(K::name);
  });
}
// objects of more than 2^32 bits, elements and (a few) bytes
static void come_back_huge(Case& c, size_t kind) {
  const size_t two32 = size_t(1) << 32;
  size_t w = kind == 2 ? 1 : kind == 3 ? 64 : 0, n = (kind == 3 ? two32 / 8 : two32) + c.edgy(1, 3000);
  NOTE(c, kind == 0 ? "BitVector" : kind == 1 ? "SuccinctBitVector" : "FitVector", " of ", n, " elements");
  c.nontrivial();
  std::vector<size_t> at;
  std::vector<u64> x;
  for (size_t k = 0; k < 600; k++) at.push_back(k % 3 == 0 ? c.below(3000) : k % 3 == 1 ? n - 1 - c.below(3000) : c.below(n));
  std::sort(at.begin(), at.end());
  at.erase(std::unique(at.begin(), at.end()), at.end());
  for (size_t k = 0; k < at.size(); k++) x.push_back(kind == 3 ? c.bits(64) | 1 : 1);
  Buffer f;
  std::ostream o(&f);
  u64 mark = c.bits(64);
  auto ends = [&](std::istream& i) { REQUIRE(i.good() && read_val<u64>(i) == mark && i.good() && f.rest() == 0, "the ", n, " elements are not read to their end"); };
  size_t reported = 0;
  auto wrote = [&] {
    REQUIRE(o.good() && f.written() >= n / 8 * (kind == 3 ? 64 : 1), "only ", f.written(), " bytes of ", n, " elements are written");
    REQUIRE(kind > 1 || reported == f.written(), "reported ", reported, " bytes but wrote ", f.written());
    REQUIRE(reported >= n / 8 * (kind == 3 ? 64 : 1), "reported only ", reported, " bytes for ", n, " elements");
    write_val(mark, o);
  };
  if (kind == 0 || kind == 1) {
    BitVector v(n);
    for (size_t i : at) v[i] = true;
    if (kind == 0) {
      v.Write(o); reported = v.size_in_bytes(); wrote();
      v = BitVector();
      std::istream i(&f);
      v.Read(i); ends(i);
      REQUIRE(v.size() == n, "size ", v.size());
      for (size_t k = 0; k < at.size(); k++) { REQUIRE(v[at[k]], "the one at ", at[k], " is lost"); if (at[k] + 1 < n && (k + 1 == at.size() || at[k + 1] != at[k] + 1)) REQUIRE(!v[at[k] + 1], "an extra one at ", at[k] + 1); }
    } else {
      SuccinctBitVector<true> s(std::move(v));
      s.Write(o); reported = s.size_in_bytes(); wrote();
      s = SuccinctBitVector<true>();
      std::istream i(&f);
      s.Read(i); ends(i);
      REQUIRE(s.size() == n && s.rank(n) == at.size(), "size ", s.size(), " rank ", s.rank(n));
      for (size_t k = 0; k < at.size(); k++) REQUIRE(s[at[k]] && s.select(k) == at[k] && s.rank(at[k]) == k, "the one at ", at[k]);
    }
  } else {
    {
      FitVector v(w, n);
      for (size_t k = 0; k < at.size(); k++) v[at[k]] = x[k];
      v.Write(o); reported = v.size_in_bytes(); wrote();
    }
    std::istream i(&f);
    FitVector v(i);
    ends(i);
    REQUIRE(v.size() == n && v.unit_width() == w, "size ", v.size());
    for (size_t k = 0; k < at.size(); k++) { REQUIRE(v[at[k]] == x[k], "element ", at[k]); if (at[k] + 1 < n && (k + 1 == at.size() || at[k + 1] != at[k] + 1)) REQUIRE(v[at[k] + 1] == 0, "element ", at[k] + 1); }
  }
}
LAW_HUGE(objects_beyond_32_bits_come_back, 4, 12) {
  size_t kind = c.enum_index(4);
  if (kind == 3) { pbt::MoreMemory more(16000); come_back_huge(c, kind); } else come_back_huge(c, kind);
}
// large single objects
LAW(large_objects_come_back, 32, 400) {
  std::stringstream f;
  auto r = c.bulk();
  size_t n = c.range(100000, 400000);
  NOTE(c, n, " elements");
  std::vector<u64> v(n);
  unsigned w = (unsigned)r.range(1, 40);
  for (auto& x : v) x = r.bits(1 + r.below(w));
  std::vector<uint8_t> y(v.begin(), v.end());
  std::vector<bool> b(n);
  for (size_t i = 0; i < n; i++) b[i] = v[i] & 1;
  DacVector(v).Write(f); WaveletTree(y).Write(f); FitVector(v).Write(f); SuccinctBitVector<true>(BitVector(b)).Write(f);
  DacVector d(f);
  WaveletTree t{std::vector<uint8_t>()}; t.Read(f);
  FitVector g(f);
  SuccinctBitVector<true> s(f);
  c.nontrivial();
  size_t cnt[256] = {}, ones = 0;
  REQUIRE(d.size() == n && t.size() == n && g.size() == n && s.size() == n, "sizes");
  for (size_t i = 0; i < n; i++) {
    REQUIRE(d[i] == v[i] && g[i] == v[i] && t[i] == y[i] && t.rank(i) == cnt[y[i]] && s[i] == b[i] && s.rank(i) == ones, "element ", i);
    cnt[y[i]]++;
    if (b[i]) { REQUIRE(s.select(ones) == i, "select(", ones, ")"); ones++; }
  }
}
