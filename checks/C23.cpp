// variants: rel asan dbg
// rule: values of every bit length with every unit width, value lists for the frequency tables and
//   the layer optimiser (checked against a definition and, for short widths, against every
//   possible split); non-trivial = the value needs more than one unit / the list spans several lengths
#include "common.hpp"
#include "sim_ds/calc.hpp"
using namespace sim_ds;

static size_t bitlen(u64 v) { size_t n = 1; while (n < 64 && (v >> n)) n++; return n; }

template <size_t... I>
static void check_const(u64 v, std::index_sequence<I...>) {
  auto one = [&](size_t unit, size_t got) {
    size_t want = (bitlen(v) + unit - 1) / unit;
    REQUIRE(got == want, "size_fits<", unit, ">(", v, ")=", got, " expected ", want);
  };
  ((one(I + 1, calc::size_fits<I + 1>(v))), ...);
}

LAW(units_needed_for_a_value, 200000, 3000000) {
  u64 v = c.bits(64);
  size_t unit = c.edgy(1, 64);
  NOTE(c, "value ", v, " unit ", unit);
  c.nontrivial(bitlen(v) > unit);
  c.label_if(bitlen(v) == 64, "64-bit value");
  size_t got = calc::SizeFitsInUnits(v, unit), want = (bitlen(v) + unit - 1) / unit;
  REQUIRE(got == want, "SizeFitsInUnits(", v, ",", unit, ")=", got, " expected ", want);
  REQUIRE(calc::SizeFitsInBits(v) == bitlen(v), "SizeFitsInBits(", v, ")=", calc::SizeFitsInBits(v));
  REQUIRE(calc::SizeFitsInBytes(v) == (bitlen(v) + 7) / 8, "SizeFitsInBytes(", v, ")=", calc::SizeFitsInBytes(v));
  check_const(v, std::make_index_sequence<64>{});
}

LAW_ENUM(every_bit_length, 64 * 3) {
  u64 k = c.enum_index(64 * 3);
  u64 top = u64(1) << (k / 3);
  u64 v = k % 3 == 0 ? top : k % 3 == 1 ? (top - 1) | top : top | (top >> 1);
  NOTE(c, "value ", v);
  c.nontrivial(k > 3);
  for (size_t unit = 1; unit <= 64; unit++) {
    size_t got = calc::SizeFitsInUnits(v, unit), want = (bitlen(v) + unit - 1) / unit;
    REQUIRE(got == want, "SizeFitsInUnits(", v, ",", unit, ")=", got, " expected ", want);
  }
  REQUIRE(calc::SizeFitsInBits(v) == k / 3 + 1, "bits of ", v);
}

LAW(units_needed_from_a_list, 60000, 600000) {
  std::vector<size_t> sizes;
  size_t sum = 0;
  while (sum < 64) { size_t w = c.edgy(1, c.chance(1, 3) ? 80 : 64); sizes.push_back(w); sum += w; }
  u64 v = c.bits(64);
  size_t want = 0, cover = 0;
  do { cover += sizes[want++]; } while (cover < bitlen(v));
  NOTE(c, "value ", v, " units ", show(sizes));
  c.nontrivial(want > 1);
  size_t got = calc::SizeFitsAsList(v, sizes);
  REQUIRE(got == want, "SizeFitsAsList(", v, ",", show(sizes), ")=", got, " expected ", want);
}

LAW(bit_length_tables, 20000, 200000) {
  auto v = gen_values<u64>(c, c.size(20, 300, 5000), (unsigned)c.edgy(1, 64));
  NOTE(c, show(v));
  std::vector<size_t> f, cf;
  f.assign(c.below(5), 9);  // result vectors that are not empty to begin with
  cf.assign(c.below(70), 7);
  calc::bit_length_frequencies(v, &f);
  if (c.chance(1, 8)) { kinds::Silent quiet; calc::cummulative_frequency_list(v, &cf, true); }  // also shown
  else calc::cummulative_frequency_list(v, &cf);
  std::vector<size_t> wf(64, 0);
  size_t mx = 0;
  for (u64 x : v) { wf[bitlen(x) - 1]++; mx = std::max(mx, bitlen(x)); }
  wf.resize(mx);
  c.nontrivial(mx > 1 && v.size() > 1);
  REQUIRE(f == wf, "bit_length_frequencies ", show(f), " expected ", show(wf));
  std::vector<size_t> wc(wf);
  for (size_t i = mx; i-- > 1;) wc[i - 1] += wc[i];
  REQUIRE(cf == wc, "cumulative frequencies ", show(cf), " expected ", show(wc));
}

static double cost(const std::vector<size_t>& cf, const std::vector<size_t>& split) {
  double s = 0; size_t t = 0;
  for (size_t k = 0; k < split.size(); k++) {
    s += double(cf[t]) * split[k];
    if (k + 1 < split.size()) { double n = cf[t]; s += (((n - 1) / 64 + 1) + ((n / 512 + 1) * 2)) * 64; }
    t += split[k];
  }
  return s;
}

LAW(layer_split_covers_and_is_cheapest, 6000, 60000) {
  unsigned width = (unsigned)(c.chance(1, 2) ? c.range(1, 11) : c.edgy(1, 64));
  std::vector<u64> v;
  if (c.chance(2, 3)) {  // a steep profile of bit lengths, so that several layers pay off
    u64 left = c.coin() ? c.range(1000, 60000) : c.edgy(1, 60000);
    bool gentle = c.coin();
    std::vector<u64> count(width);
    for (unsigned t = 0; t < width && left; t++) {
      count[t] = t + 1 == width ? left : gentle ? left / 3 + c.below(left / 8 + 1) : c.below(left + 1);
      left -= count[t];
      if (!left && t + 1 < width) { left = 1; count[t]--; }
    }
    for (unsigned t = 0; t < width; t++)
      for (u64 k = 0; k < count[t]; k++) v.push_back((u64(1) << t) | (t ? k & ((u64(1) << t) - 1) : k & 1));
    if (v.empty()) v.push_back(0);
  } else {
    v = gen_values<u64>(c, 1 + c.size(20, 400, 20000), width);
  }
  size_t max_levels = c.chance(1, 2) ? 8 : c.range(1, 12);
  std::vector<size_t> wf(64, 0);
  size_t mx = 0;
  for (u64 x : v) { wf[bitlen(x) - 1]++; mx = std::max(mx, bitlen(x)); }
  wf.resize(mx);
  for (size_t i = mx; i-- > 1;) wf[i - 1] += wf[i];
  NOTE(c, show(v), " max layers ", max_levels);
  std::vector<size_t> split(c.below(9), 5);  // what was in the result before is forgotten
  calc::split_positions_optimized_for_dac(v, &split, max_levels);
  std::vector<size_t> free_split;
  calc::split_positions_optimized_for_dac(v, &free_split, 64);
  c.label_if(free_split.size() > max_levels, "limit merges layers");
  c.label_if(!free_split.empty() && free_split.size() > 1 && free_split.back() == 1, "last layer one bit");
  if (free_split.size() <= max_levels) REQUIRE(split == free_split, "limit ", max_levels, " changes ", show(free_split), " into ", show(split));
  size_t sum = 0;
  for (size_t s : split) { REQUIRE(s >= 1, "empty layer in ", show(split)); sum += s; }
  c.nontrivial(split.size() > 1);
  c.label_if(split.size() > 1, "several layers");
  c.label_if(split.size() == max_levels, "at the layer limit");
  REQUIRE(sum == mx, "layers ", show(split), " cover ", sum, " bits, ", mx, " needed");
  REQUIRE(split.size() <= max_levels, "layers ", show(split), " but at most ", max_levels, " allowed");
  // the cheapest of all splits, by dynamic programming over the bit lengths
  std::vector<double> best(mx + 1, 0);
  std::vector<size_t> step(mx + 1, 0);
  auto rank_bits = [](double n) { return (((n - 1) / 64 + 1) + ((n / 512 + 1) * 2)) * 64; };
  for (size_t t = mx; t-- > 0;) {
    best[t] = double(wf[t]) * (mx - t); step[t] = mx - t;
    for (size_t i = t + 1; i < mx; i++) {
      double k = best[i] + double(wf[t]) * (i - t) + rank_bits(double(wf[t]));
      if (k < best[t]) { best[t] = k; step[t] = i - t; }
    }
  }
  std::vector<size_t> cheapest;
  for (size_t t = 0; t < mx; t += step[t]) cheapest.push_back(step[t]);
  double mine = cost(wf, free_split);
  sum = 0;
  for (size_t s : free_split) { REQUIRE(s >= 1, "empty layer in ", show(free_split)); sum += s; }
  REQUIRE(sum == mx, "layers ", show(free_split), " cover ", sum, " bits, ", mx, " needed");
  REQUIRE(mine <= best[0] + double(mx) + 1, "split ", show(free_split), " costs ", mine, " bits, ", show(cheapest), " costs ", best[0]);
}

LAW_FULL(no_values_no_layers, 1, 1, 1, false) {
  std::vector<u64> v;
  std::vector<size_t> r{1, 2};
  calc::bit_length_frequencies(v, &r);
  REQUIRE(r.empty(), "frequencies of nothing");
  calc::cummulative_frequency_list(v, &r);
  REQUIRE(r.empty(), "frequencies of nothing");
  calc::split_positions_optimized_for_dac(v, &r);
  c.nontrivial();
  NOTE(c, "empty list");
}

// lists of more than 2^32 values: generated on reading, nothing is stored
struct LongList {
  size_t n, head; u64 first, rest;
  struct It {
    const LongList* l; size_t i;
    using iterator_category = std::random_access_iterator_tag; using value_type = u64; using difference_type = ptrdiff_t; using pointer = const u64*; using reference = u64;
    u64 operator*() const { return (*l)[i]; }
    It& operator++() { ++i; return *this; }
    It operator++(int) { It t = *this; ++i; return t; }
    It& operator+=(ptrdiff_t d) { i += d; return *this; }
    It operator+(ptrdiff_t d) const { return {l, i + d}; }
    ptrdiff_t operator-(const It& o) const { return ptrdiff_t(i) - ptrdiff_t(o.i); }
    u64 operator[](ptrdiff_t d) const { return (*l)[i + d]; }
    bool operator==(const It& o) const { return i == o.i; }
    bool operator!=(const It& o) const { return i != o.i; }
    bool operator<(const It& o) const { return i < o.i; }
  };
  using value_type = u64; using const_iterator = It; using iterator = It; using size_type = size_t;
  u64 operator[](size_t i) const { return i < head ? first : rest; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  It begin() const { return {this, 0}; }
  It end() const { return {this, n}; }
  It cbegin() const { return begin(); }
  It cend() const { return end(); }
  u64 at(size_t i) const { return (*this)[i]; }
  u64 front() const { return (*this)[0]; }
  u64 back() const { return (*this)[n - 1]; }
};
LAW_HUGE(tables_of_more_values_than_32_bits_count, 2, 8) {
  unsigned lo = (unsigned)c.range(1, 3), hi = lo + (unsigned)c.range(1, 30);
  bool cumulated = c.enum_index(2);
  LongList l{(size_t(1) << (cumulated ? 32 : 31)) + c.edgy(1, 100000), c.edgy(1, 100000), u64(1) << (hi - 1), u64(1) << (lo - 1)};
  NOTE(c, l.head, " values of ", hi, " bits, then ", l.n - l.head, " of ", lo);
  c.nontrivial();
  std::vector<size_t> f, cf, wf(hi), wc(hi);
  if (cumulated) calc::cummulative_frequency_list(l, &cf); else calc::bit_length_frequencies(l, &f);
  wf[hi - 1] = l.head; wf[lo - 1] = l.n - l.head;
  for (unsigned i = 0; i < hi; i++) wc[i] = i < lo ? l.n : l.head;
  if (cumulated) REQUIRE(cf == wc, "cumulative frequencies ", show(cf), " expected ", show(wc));
  else REQUIRE(f == wf, "bit_length_frequencies ", show(f), " expected ", show(wf));
}
