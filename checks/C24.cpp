// variants: rel asan dbg
// scale: 12 15
// rule: generated contents (0..10^6 elements, growth and shrink histories) of every packed type; the bytes written
//   and the bytes reported must stay within the size the encoding promises, and so must the memory in use (by the
//   allocator's own account) of large instances, also after shrinking; non-trivial = over 1000 elements, or a
//   history that both grows and shrinks
#include "common.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/InitializableArray.hpp"
#include <malloc.h>
using namespace sim_ds;

static size_t bitlen(u64 v) { size_t n = 1; while (n < 64 && (v >> n)) n++; return n; }
template <class T> static size_t written(const T& x) { std::ostringstream o; x.Write(o); return o.str().size(); }
static size_t words(u64 bits) { return size_t(8) * ((bits + 63) / 64); }
template <class T> static void within(const T& x, double limit, size_t report_slack, const std::string& what) {
  size_t w = written(x), r = x.size_in_bytes();
  REQUIRE(double(w) <= limit, what, " is written in ", w, " bytes, at most ", limit, " expected");
  REQUIRE(double(r) <= limit + report_slack && r + report_slack >= w, what, " reports ", r, " bytes, writes ", w, ", limit ", limit);
}
// bits, one count word per 512-bit block and one of nine-bit counts, and one block number per 512 ones
static double indexed(size_t n, bool select) { return double(words(n)) + 16.0 * double(n / 512 + 1) + (select ? 4.0 * double(n / 512 + 3) : 0) + 64; }

LAW(bits_take_one_bit, 6000, 80000) {
  auto b = gen_bits(c, 100, 3000, 100000);
  NOTE(c, bits_text(b));
  BitVector v(b);
  within(v, double(words(b.size()) + 24), 0, "BitVector of " + bits_text(b));
  within(SuccinctBitVector<false>(v), indexed(b.size(), false), 0, "rank index of " + bits_text(b));
  within(SuccinctBitVector<true>(v), indexed(b.size(), true), 0, "select index of " + bits_text(b));
  c.nontrivial(b.size() > 1000);
}
LAW(shrunk_bits_give_space_back, 6000, 80000) {
  BitVector v;
  size_t n = 0, steps = c.range(1, 20), up = 0, down = 0;
  std::string h;
  for (size_t s = 0; s < steps; s++) {
    size_t m = c.coin() ? c.edgy(0, 20000) : c.edgy(0, 200);
    m > n ? up++ : down++;
    switch (c.below(4)) {
      case 0: v.resize(m); n = m; h += cat("resize ", m, "; "); break;
      case 1: v.resize(m, true); n = m; h += cat("resize ", m, " with ones; "); break;
      case 2: v.reserve(m); h += cat("reserve ", m, "; "); break;
      default: for (size_t k = 0; k < m % 200; k++) v.push_back(k & 1); n += m % 200; h += cat("append ", m % 200, "; ");
    }
    REQUIRE(v.size() == n, "size");
    within(v, double(words(n) + 24), 0, h);
  }
  NOTE(c, h);
  c.nontrivial(up && down);
}
LAW(values_take_their_width, 6000, 80000) {
  unsigned w = (unsigned)c.edgy(1, 64);
  auto v = gen_values<u64>(c, c.size(30, 2000, 50000), w);
  NOTE(c, "width ", w, " ", show(v));
  c.nontrivial(v.size() > 1000);
  u64 mx = v.empty() ? 0 : *std::max_element(v.begin(), v.end());
  FitVector f{size_t(w)}, g(v), h(size_t(w), v.size());
  for (auto x : v) f.push_back(x);
  within(f, double(words(v.size() * w) + 32), 0, cat("FitVector of width ", w, " ", show(v)));
  within(h, double(words(v.size() * w) + 32), 0, cat("FitVector of width ", w, " ", show(v)));
  if (!v.empty()) {
    REQUIRE(g.unit_width() == bitlen(mx), "width ", g.unit_width(), " for values up to ", mx);
    within(g, double(words(v.size() * bitlen(mx)) + 32), 0, "FitVector " + show(v));
  }
  size_t k = c.below(v.size() + 1);
  f.resize(k);
  within(f, double(words(k * w) + 32), 0, cat("FitVector of width ", w, " cut to ", k));
}
LAW(dacs_are_no_larger_than_fixed_width, 6000, 60000) {
  unsigned w = (unsigned)c.edgy(1, 64);
  std::vector<u64> v;
  if (c.coin()) v = gen_values<u64>(c, c.size(30, 2000, 50000), w);
  else {  // short values dominate
    v.resize(c.size(200, 3000, 50000));
    auto r = c.bulk();
    u64 keep = r.range(1, 30);
    for (auto& x : v) { unsigned k = 1; while (k < w && r.below(keep + 1) == 0) k += (unsigned)r.range(1, 8); x = r.bits(std::min(k, w)); }
  }
  NOTE(c, show(v));
  c.nontrivial(v.size() > 1000);
  DacVector d(v);
  size_t mx = 0, layers = std::max<size_t>(1, d.num_layers());
  for (auto x : v) mx = std::max(mx, bitlen(x));
  c.label_if(layers > 1, "several layers");
  // every layer has its header and the slack of its last word and block
  if (layers < 8) within(d, double(v.size()) * double(mx) / 8 + 160.0 * double(layers) + 16, 8, "DacVector " + show(v));
}
LAW(symbols_take_their_bits, 6000, 60000) {
  auto go = [&](auto tag) {
    constexpr unsigned U = decltype(tag)::value;
    auto v = gen_values<u64>(c, c.size(50, 1500, 30000), U);
    NOTE(c, "unit ", U, " ", show(v));
    c.nontrivial(v.size() > 1000);
    MultiBitVector<U> m;
    for (size_t i = 0; i < v.size(); i++) m.set(i, (uint8_t)v[i]);
    m.build();
    size_t per = 64 / U, ws = (v.size() + per - 1) / per, tips = (ws + 4 * U - 1) / (4 * U);
    within(m, double(8 * ws) + double(tips) * ((1u << U) - 1) * (U == 3 ? 24 : 16) + 8 * 9, 0, cat("MultiBitVector<", U, "> ", show(v)));
  };
  switch (c.below(3)) {
    case 0: go(std::integral_constant<unsigned, 1>()); break;
    case 1: go(std::integral_constant<unsigned, 2>()); break;
    default: go(std::integral_constant<unsigned, 3>());
  }
}
LAW(wavelet_trees_take_the_width_of_their_symbols, 3000, 40000) {
  unsigned w = (unsigned)c.range(1, 8);
  auto u = gen_values<u64>(c, c.size(50, 1500, 30000), w);
  std::vector<uint8_t> v(u.begin(), u.end());
  NOTE(c, show(v));
  c.nontrivial(v.size() > 1000);
  size_t h = v.empty() ? 0 : bitlen(*std::max_element(v.begin(), v.end())), nodes = (size_t(1) << h) - 1;
  double limit = 24 + double(v.size()) * double(h) / 8 * 1.25 + double(nodes) * 80;
  within(WaveletTree(v), limit, 0, "WaveletTree " + show(v));
}
LAW(records_take_their_bytes, 3000, 40000) {
  std::vector<size_t> sz(c.range(1, 6));
  for (auto& s : sz) s = c.edgy(1, 8);
  size_t n = c.size(20, 300, 5000), bs = std::accumulate(sz.begin(), sz.end(), size_t(0));
  NOTE(c, n, " records of ", show(sz));
  c.nontrivial(n * bs > 1000);
  MultipleVector m;
  m.set_element_sizes(sz);
  m.resize(n);
  std::ostringstream o;
  m.StoreTo(o);
  // eight bytes so that the last field can be read as a word
  REQUIRE(o.str().size() <= n * bs + 8 * sz.size() + 32, n, " records of ", show(sz), " bytes are written in ", o.str().size());
  REQUIRE(m.size_in_bytes() <= n * bs + 16 * sz.size() + 32, "reported ", m.size_in_bytes());
}
LAW(large_bits, 24, 300) {
  auto r = c.bulk();
  size_t n = c.range(200000, 3000000);
  NOTE(c, n, " bits");
  c.nontrivial();
  BitVector b(n);
  u64 p = r.below(17);
  for (size_t i = 0; i < n; i++) b[i] = r.below(16) < p;
  within(SuccinctBitVector<true>(b), indexed(n, true), 0, "select index");
  within(SuccinctBitVector<false>(b), indexed(n, false), 0, "rank index");
}

// a stream that only counts
struct Counter : std::streambuf {
  size_t n = 0;
  std::streamsize xsputn(const char*, std::streamsize k) override { if (k > 0) n += size_t(k); return k; }
  int_type overflow(int_type) override { n++; return 0; }
};
template <class T> static void within_huge(const T& x, double limit, const std::string& what) {
  Counter f;
  std::ostream o(&f);
  x.Write(o);
  REQUIRE(double(f.n) <= limit && double(f.n) >= limit / 1.4, what, " is written in ", f.n, " bytes, ", limit, " expected");
  REQUIRE(x.size_in_bytes() >= f.n && double(x.size_in_bytes()) <= limit, what, " reports ", x.size_in_bytes(), " bytes, writes ", f.n);
}
// sizes that no 32-bit count holds
LAW_HUGE(sizes_beyond_32_bits, 4, 12) {
  const size_t two32 = size_t(1) << 32;
  size_t kind = c.enum_index(4), n = two32 / (kind == 3 ? 8 : 1) + c.edgy(1, 5000);
  pbt::MoreMemory more(9000, kind == 3);
  c.nontrivial();
  NOTE(c, kind == 3 ? "64-bit values: " : kind == 2 ? "one-bit values: " : "bits: ", n);
  if (kind == 0) within_huge(BitVector(n), double(words(n) + 24), cat(n, " bits"));
  if (kind == 1) within_huge(SuccinctBitVector<true>(BitVector(n, c.coin())), indexed(n, true), cat(n, " indexed bits"));
  if (kind == 2 || kind == 3) {
    FitVector v(kind == 2 ? 1 : 64, n);
    Counter f;
    std::ostream o(&f);
    v.Write(o);
    double limit = double(words(n * (kind == 2 ? 1 : 64)) + 32);
    REQUIRE(double(f.n) <= limit && double(f.n) >= limit - 64, n, " values are written in ", f.n, " bytes, ", limit, " expected");
    REQUIRE(double(v.size_in_bytes()) <= limit && double(v.size_in_bytes()) >= limit - 64, n, " values report ", v.size_in_bytes(), " bytes, ", limit, " expected");
  }
}

// memory in use according to the allocator (its account is only off by small blocks kept for reuse)
[[maybe_unused]] static double in_use() { auto m = mallinfo2(); return double(m.uordblks + m.hblkhd); }
static const double kSmall = 256 * 1024;
template <class F> static auto weigh(double* bytes, F make) {
  double b = in_use();
  auto p = make();
  *bytes = in_use() - b;
  return p;
}
// nothing is kept besides what is reported (storage that grows may be twice as large as needed)
LAW_FULL(memory_is_what_is_reported, 10, 100, 0, false) {
  auto r = c.bulk();
  size_t n = c.range(300000, 1500000), kind = c.below(8);
  unsigned w = (unsigned)c.range(1, 60);
  u64 p = r.below(65);
  NOTE(c, "kind ", kind, ", ", n, " elements");
  c.nontrivial();
  auto check = [&](auto make, const char* what) {
    double used;
    auto x = weigh(&used, make);
    double reported = (double)x->size_in_bytes();
    REQUIRE(used <= 2.2 * reported + kSmall, what, " of ", n, " elements reports ", reported, " bytes and holds ", used);
  };
  std::vector<bool> b;
  std::vector<u64> v;
  std::vector<uint8_t> t;
  if (kind < 3) { b.resize(n); for (size_t i = 0; i < n; i++) b[i] = r.below(64) < p; }
  else if (kind < 5) { v.resize(n); for (auto& x : v) x = r.bits(w); }
  else { t.resize(n); u64 k = kind == 5 ? r.range(2, 256) : 4; for (auto& x : t) x = (uint8_t)r.below(k); }
  switch (kind) {
    case 0: check([&] { return std::make_unique<BitVector>(b); }, "BitVector"); break;
    case 1: check([&] { return std::make_unique<SuccinctBitVector<false>>(BitVector(b)); }, "rank index"); break;
    case 2: check([&] { return std::make_unique<SuccinctBitVector<true>>(BitVector(b)); }, "select index"); break;
    case 3: check([&] { return std::make_unique<FitVector>(v); }, "FitVector"); break;
    case 4: check([&] { return std::make_unique<DacVector>(v); }, "DacVector"); break;
    case 5: check([&] { return std::make_unique<WaveletTree>(t); }, "WaveletTree"); break;
    case 6: check([&] { auto m = std::make_unique<MultiBitVector<2>>(); for (size_t i = 0; i < n; i++) m->set(i, t[i]); m->build(); return m; }, "MultiBitVector<2>"); break;
    default: check([&] { auto m = std::make_unique<MultipleVector>(std::initializer_list<size_t>{1, 3}); for (size_t i = 0; i < n; i++) m->push_back({t[i], 7}); return m; }, "MultipleVector");
  }
}
// hash tables store quotients, and after erasing shrink with their contents
LAW_FULL(hash_tables_follow_their_contents, 10, 100, 0, false) {
  auto r = c.bulk();
  unsigned bits = (unsigned)c.range(24, 60);
  size_t peak = c.range(50000, 250000), rest = c.edgy(0, 5000), rounds = c.range(1, 2), later = c.edgy(0, 3000);
  NOTE(c, rounds, " times ", peak, " keys of ", bits, " bits, all but ", rest, " erased, then ", later, " more keys");
  c.nontrivial();
  std::vector<u64> keys(peak);
  u64 step = (r.next() & ((u64(1) << bits) - 1)) | 1;
  for (size_t i = 0; i < peak; i++) keys[i] = (u64(i) * step) & ((u64(1) << bits) - 1);  // all different: the step is odd
  auto fits = [&](const CHT<16>& h, double used, const char* when) {
    double b = (double)h.bucket(), bb = std::log2(b);
    REQUIRE(b <= 9.0 * (double)h.size() + 64, h.bucket(), " buckets for ", h.size(), " keys ", when);
    REQUIRE(used <= b * (std::max(0.0, bits - bb) + 4 + 4 + 16) / 8 + kSmall, "a table of ", h.size(), " keys of ", bits, " bits in ", h.bucket(), " buckets holds ", used, " bytes ", when);
  };
  double b0 = in_use();
  CHT<16> h(bits);
  for (size_t k = 0; k < rounds; k++) {
    for (size_t i = 0; i < peak; i++) h.set(keys[i], i & 0xffff);
    REQUIRE(h.size() == peak, "size");
    fits(h, in_use() - b0, "after filling");
    for (size_t i = rest; i < peak; i++) h.erase(keys[i]);
    REQUIRE(h.size() == rest, "size");
    fits(h, in_use() - b0, "after erasing");
  }
  for (size_t i = rest; i < std::min(peak, rest + later); i++) h.set(keys[i], 1);
  fits(h, in_use() - b0, "at the end");
}
// compact arrays take what their present values need, however often they were rewritten
LAW_FULL(rewritten_arrays_follow_their_contents, 10, 100, 0, false) {
  auto r = c.bulk();
  size_t n = c.range(30000, 60000), passes = c.range(4, 20);
  unsigned last = (unsigned)c.edgy(0, 64);
  bool vec = c.coin();
  size_t rest = vec ? c.edgy(0, 2000) : n;
  NOTE(c, vec ? "vector" : "array", " of ", n, " rewritten ", passes, " times, at last with ", last, "-bit values, ", rest, " left");
  c.nontrivial();
  auto pass = [&](auto& a, unsigned w, size_t m) { for (size_t i = 0; i < m; i++) a.set(i, w ? (u64(1) << (w - 1)) | r.bits(w - 1) : 0); };
  std::vector<unsigned> ws(passes);
  for (auto& w : ws) w = (unsigned)r.range(0, 64);
  double used, fresh;
  if (vec) {
    auto a = weigh(&used, [&] {
      auto x = std::make_unique<CDRWVector>(n);
      for (auto w : ws) pass(*x, w, n);
      pass(*x, last, n);
      if (r.below(2)) { while (x->size() > rest) x->pop_back(); } else x->resize(rest);
      if (r.below(2) || rest == 0 || x->capacity() > 4 * x->size()) x->shrink_to_fit();
      return x;
    });
    REQUIRE(a->size() == rest, "size");
    auto b = weigh(&fresh, [&] { auto x = std::make_unique<CDRWVector>(rest); pass(*x, last, rest); return x; });
  } else {
    auto a = weigh(&used, [&] { auto x = std::make_unique<CDRWArray>(n); for (auto w : ws) pass(*x, w, n); pass(*x, last, n); return x; });
    auto b = weigh(&fresh, [&] { auto x = std::make_unique<CDRWArray>(n); pass(*x, last, n); return x; });
  }
  REQUIRE(used <= 8 * fresh + kSmall, "holds ", used, " bytes, one filled with the same contents only holds ", fresh);
}
LAW_FULL(shrink_to_fit_gives_memory_back, 10, 100, 0, false) {
  size_t n = c.range(8000000, 40000000), m = c.edgy(0, 500000);
  NOTE(c, n, " bits cut to ", m);
  c.nontrivial();
  double used;
  auto v = weigh(&used, [&] { auto x = std::make_unique<BitVector>(n, true); x->resize(m); x->shrink_to_fit(); return x; });
  REQUIRE(v->size() == m && used <= double(words(m)) + kSmall, m, " bits hold ", used, " bytes after shrink_to_fit");
}
// an in-place initializable array has room for its elements, the default and one position
template <class T, size_t N> static void in_place() {
  REQUIRE(sizeof(InitializableArray<T, N>) <= (N + 2) * sizeof(T) + 4 * sizeof(size_t), "an in-place array of ", N, " elements of ", sizeof(T), " bytes takes ", sizeof(InitializableArray<T, N>));
}
LAW_FULL(in_place_arrays_are_in_place, 1, 1, 1, true) {
  c.nontrivial();
  NOTE(c, "arrays of 1 to 65536 elements");
  in_place<uint8_t, 1>(); in_place<uint8_t, 200>(); in_place<uint16_t, 4001>(); in_place<uint32_t, 65536>(); in_place<u64, 3>(); in_place<u64, 64>(); in_place<u64, 10000>(); in_place<int64_t, 1000>();
}
