// variants: rel asan dbg
// rule: texts (0..10^5 bytes; random, periodic with faults, Fibonacci, repetitive, runs) over alphabets of 1..256
//   byte values, patterns of 1..300 (some of 2^15..2^16+3000) bytes cut from the text, altered, or unrelated; all seven algorithms must list
//   exactly the positions found by comparing everywhere; non-trivial = the pattern occurs, or a proper prefix
//   of at least half of it does
#include "common.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
using namespace sim_ds;
namespace pm = sim_ds::pattern_matching;

static std::vector<size_t> naive(const std::string& t, const std::string& p) {
  std::vector<size_t> r;
  for (size_t i = t.find(p); i != std::string::npos; i = t.find(p, i + 1)) r.push_back(i);
  return r;
}
// exact-size storage: reading one byte too far is an access outside it
struct Buf {
  std::unique_ptr<char[]> d;
  size_t n;
  explicit Buf(const std::string& s) : d(new char[s.size()]), n(s.size()) { memcpy(d.get(), s.data(), n); }
  std::string_view v() const { return {d.get(), n}; }
};
static const char* const kNames[] = {"Simple", "KMP", "BM", "BOM", "Turbo-BOM", "Sunday-QS", "Sunday-MS"};
using Fn = std::vector<size_t> (*)(std::string_view, std::string_view);
static const Fn kFns[] = {pm::PatternMatchSimple, pm::PatternMatchKMP, pm::PatternMatchBM, pm::PatternMatchBOM, pm::PatternMatchTurboBOM, pm::PatternMatchSundayQS, pm::PatternMatchSundayMS};

static std::string diff(const std::vector<size_t>& g, const std::vector<size_t>& e) {
  size_t i = 0;
  while (i < g.size() && i < e.size() && g[i] == e[i]) i++;
  return cat(g.size(), " positions instead of ", e.size(), ", from number ", i, ": ", i < g.size() ? cat(g[i]) : "none", " instead of ", i < e.size() ? cat(e[i]) : "none");
}
static void all_agree(const std::string& t, const std::string& p) {
  auto e = naive(t, p);
  Buf bt(t), bp(p);
  for (int k = 0; k < 7; k++) {
    auto g = kFns[k](bt.v(), bp.v());
    REQUIRE(g == e, kNames[k], " lists ", diff(g, e), "; pattern ", show_str(p), " text ", show_str(t));
  }
}
static void classify(Case& c, const std::string& t, const std::string& p) {
  bool occurs = t.find(p) != std::string::npos;
  c.nontrivial(occurs || (p.size() > 1 && t.find(p.substr(0, (p.size() + 1) / 2)) != std::string::npos));
  c.label_if(occurs, "occurs");
  c.label_if(p.size() > t.size(), "pattern longer than text");
  c.label_if(t.empty(), "empty text");
  bool hi = false;
  for (char ch : p) hi |= (unsigned char)ch >= 0x80;
  c.label_if(hi, "bytes over 0x7f in the pattern");
  c.label_if(p.size() > 100, "pattern over 100 bytes");
}
static std::string pattern(Case& c, const std::string& t, const std::string& alpha) {
  std::string p;
  switch (c.weighted({5, 3, 2, 1})) {
    case 0: case 1: {
      if (t.empty()) break;
      size_t l = std::min<size_t>(t.size(), c.coin() ? c.range(1, 8) : c.edgy(1, 300)), at = c.range(0, t.size() - l);
      if (c.chance(1, 5)) at = t.size() - l;
      p = t.substr(at, l);
      break;
    }
    case 2: p = gen_text(c, 8, 40, 300, alpha); break;
    default: p = t + alpha.substr(0, 1); if (p.size() > 400) p = p.substr(p.size() - 400);
  }
  if (!p.empty() && c.chance(1, 4)) p[c.below(p.size())] = alpha[c.below(alpha.size())];
  if (!p.empty() && c.chance(1, 8)) p += p.substr(0, 1 + c.below(p.size()));
  if (p.empty()) p = alpha.substr(0, 1);
  return p;
}

LAW(all_algorithms_find_all_occurrences, 30000, 400000) {
  std::string alpha = gen_alphabet(c, 0, 255);
  std::string t = gen_text(c, 20, 200, 3000, alpha);
  std::string p = pattern(c, t, alpha);
  NOTE(c, "pattern ", show_str(p), " text ", show_str(t));
  classify(c, t, p);
  all_agree(t, p);
}
// short periodic patterns in periodic texts: where shifts by borders and periods go wrong
LAW(periodic_patterns_in_periodic_texts, 30000, 400000) {
  std::string alpha = c.chance(1, 4) ? std::string("\xff\x00\x80", 3) : std::string("ab");
  size_t u = c.range(1, 5), reps = c.range(1, 6);
  std::string unit, p, t;
  for (size_t i = 0; i < u; i++) unit += alpha[c.below(alpha.size())];
  for (size_t i = 0; i < reps; i++) p += unit;
  p += unit.substr(0, c.below(u + 1));
  size_t parts = c.range(1, 8);
  for (size_t i = 0; i < parts; i++) {
    switch (c.weighted({3, 2, 2, 1})) {
      case 0: t += p; break;
      case 1: t += p.substr(c.below(p.size())); break;
      case 2: t += p.substr(0, c.below(p.size() + 1)); break;
      default: t += alpha[c.below(alpha.size())];
    }
  }
  NOTE(c, "pattern ", show_str(p), " text ", show_str(t));
  classify(c, t, p);
  all_agree(t, p);
}
// one searcher used on several texts gives the same answers as a fresh one
LAW(searchers_are_reusable, 4000, 60000) {
  std::string alpha = gen_alphabet(c, 0, 255);
  std::string t0 = gen_text(c, 20, 200, 1000, alpha), p = pattern(c, t0, alpha);
  std::vector<std::string> ts = {t0, p, "", p + p, gen_text(c, 20, 100, 500, alpha), t0 + p};
  NOTE(c, "pattern ", show_str(p), " first text ", show_str(t0));
  classify(c, t0, p);
  Buf bp(p);
  pm::Simple a(bp.v()); pm::Kmp b(bp.v()); pm::Bm d(bp.v()); pm::Bom e(bp.v()); pm::TurboBom f(bp.v()); pm::SundayQS g(bp.v()); pm::SundayMS h(bp.v());
  for (auto& t : ts) {
    Buf bt(t);
    auto x = naive(t, p);
    const std::vector<size_t> r[] = {a.find_all(bt.v()), b.find_all(bt.v()), d.find_all(bt.v()), e.find_all(bt.v()), f.find_all(bt.v()), g.find_all(bt.v()), h.find_all(bt.v())};
    for (int k = 0; k < 7; k++) REQUIRE(r[k] == x, kNames[k], " (reused) lists ", diff(r[k], x), "; pattern ", show_str(p), " text ", show_str(t));
  }
}
LAW(long_texts, 64, 1000) {
  std::string alpha = gen_alphabet(c, 0, 255);
  std::string t = gen_text(c, 10000, 30000, 100000, alpha), p = pattern(c, t, alpha);
  NOTE(c, "pattern ", show_str(p), " text ", show_str(t));
  classify(c, t, p);
  all_agree(t, p);
}
// patterns longer than a 15 or 16 bit counter reaches, in texts of copies and of copies with one byte changed
LAW_FULL(very_long_patterns, 35, 140, 1.0 / 7, false) {
  auto r = c.bulk();
  size_t which = c.below(31) / 5, m = (c.coin() ? 32768 : 65536) + (c.coin() ? c.range(0, 4) - 2 : c.range(0, 3000));
  if (which == 6) m = (c.thorough() && c.coin() ? 65536 : 32768) + c.range(0, 3000) % 1500;  // its tables take time
  unsigned sigma = (unsigned)c.one_of(std::vector<int>{3, 26, 256});
  std::string p(m, 0), t;
  for (auto& x : p) x = (char)r.below(sigma);
  // a byte that occurs once, as far from the end as a counter reaches
  const size_t far = (c.coin() ? 32768 : 65536) + c.range(0, 2) - 1;
  const bool once = sigma < 256 && far < m && c.coin();
  if (once) p[m - 1 - far] = (char)sigma;
  size_t parts = c.range(1, 3);
  for (size_t k = 0; k < parts; k++) {
    std::string q = p;
    switch (c.below(7)) {
      case 0: q[c.below(4)]++; break;
      case 4: q[m - 1] = (char)sigma; break;
      case 5: t += std::string(m - (k == 0 ? c.range(0, 1) : c.below(m)), (char)(sigma + c.below(2))); break;
      case 1: q[m - 1 - c.below(4)]++; break;
      case 2: q[c.edgy(0, m - 1)]++; break;
      case 3: q.resize(c.edgy(1, m - 1)); break;
      default:;
    }
    t += q;
    if (c.coin()) for (size_t x = c.below(300); x--;) t += (char)r.below(sigma);
  }
  NOTE(c, kNames[which], ": pattern of ", m, ", text of ", t.size(), " bytes over ", sigma);
  classify(c, t, p);
  auto e = naive(t, p);
  Buf bt(t), bp(p);
  auto g = kFns[which](bt.v(), bp.v());
  REQUIRE(g == e, kNames[which], " lists ", diff(g, e));
}
// every pattern of 1..5 letters in every text of up to 9 letters over {a,b}
LAW_ENUM(every_small_pattern_and_text, 62) {
  u64 k = c.enum_index(62);
  size_t m = 1;
  while (k >= (u64(1) << m)) { k -= u64(1) << m; m++; }
  std::string p;
  for (size_t i = 0; i < m; i++) p += k >> i & 1 ? 'b' : 'a';
  NOTE(c, "pattern ", p, " in all texts of up to 9 letters");
  c.nontrivial();
  for (size_t n = 0; n <= 9; n++)
    for (u64 x = 0; x < (u64(1) << n); x++) {
      std::string t;
      for (size_t i = 0; i < n; i++) t += x >> i & 1 ? 'b' : 'a';
      all_agree(t, p);
    }
}

// texts of more than 2^32 bytes (zero pages, so nothing is stored but the pages written to)
LAW_HUGE(texts_beyond_32_bits, 7, 14) {
  // (address space, not memory)
  pbt::MoreMemory more(8000, false);
  static const size_t two32 = size_t(1) << 32;
  const size_t n = two32 + c.edgy(5000, 100000);
  char* t = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (t == MAP_FAILED) throw pbt::Discard();
  size_t which = c.enum_index(7), m = c.range(24, 60);
  std::string p;
  for (size_t i = 0; i < m; i++) p += char(1 + c.below(3));
  std::set<size_t> at;
  for (size_t k = 0; k < 12; k++) {
    size_t low = c.below(3000), i = k % 3 == 0 ? low : k % 3 == 1 ? n - m - low : two32 - m / 2 + low % m;
    memcpy(t + i, p.data(), m);
  }
  for (size_t lo : {size_t(0), two32 - 200, n - m - 3100})
    for (size_t i = lo; i + m <= n && i < lo + 3200; i++) if (!memcmp(t + i, p.data(), m)) at.insert(i);
  c.nontrivial();
  NOTE(c, n, " bytes, ", kNames[which], ", pattern ", show_str(p));
  std::string_view sv(t, n);
  auto g = kFns[which](sv, p);
  munmap(t, n);
  std::vector<size_t> e(at.begin(), at.end());
  REQUIRE(g == e, kNames[which], " lists ", diff(g, e), "; pattern ", show_str(p), " in a text of ", n, " bytes");
}
