// variants: rel asan dbg
// rule: texts of 0..20000 bytes (random, periodic, Fibonacci, repetitive, runs, every text of up to 8 letters over
//   {a,b} and 6 over {0x00,a,0xff}) over all byte values; the written suffix array must list the suffixes in byte
//   order and the written LCP array their adjacent common prefixes; non-trivial = some adjacent suffixes share a prefix
#include "common.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
using namespace sim_ds;

// the constructor reports its statistics on std::cout
struct Quiet {
  std::ostringstream sink;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
static std::vector<size_t> stored(std::istream& is) {
  FitVector f(is);
  std::vector<size_t> v(f.size());
  for (size_t i = 0; i < v.size(); i++) v[i] = f[i];
  return v;
}
// suffixes in order: prefix doubling with std::sort
static std::vector<size_t> reference(const std::string& s) {
  size_t n = s.size();
  std::vector<size_t> sa(n), rk(n), tmp(n);
  for (size_t i = 0; i < n; i++) sa[i] = i, rk[i] = (unsigned char)s[i];
  for (size_t k = 1;; k *= 2) {
    auto key = [&](size_t i) { return std::make_pair(rk[i], i + k < n ? (long long)rk[i + k] : -1ll); };
    std::sort(sa.begin(), sa.end(), [&](size_t a, size_t b) { return key(a) < key(b); });
    if (!n) break;
    tmp[sa[0]] = 0;
    for (size_t i = 1; i < n; i++) tmp[sa[i]] = tmp[sa[i - 1]] + (key(sa[i - 1]) < key(sa[i]));
    rk = tmp;
    if (rk[sa[n - 1]] == n - 1) break;
  }
  return sa;
}
static void verify(const SuffixArray& a, const std::string& s, Case& c) {
  std::stringstream o;
  a.Write(o);
  std::string text = read_string(o);
  REQUIRE(text == s, "the stored text is ", show_str(text), " instead of ", show_str(s));
  auto sa = stored(o), lcp = stored(o), ref = reference(s);
  REQUIRE(sa.size() == s.size() && lcp.size() == s.size(), "sizes ", sa.size(), " and ", lcp.size(), " for a text of ", s.size());
  size_t longest = 0;
  // common prefix with the suffix behind it in the order; from one position of the text to the next it loses at most one letter
  std::vector<size_t> place(s.size()), common(s.size(), 0);
  for (size_t i = 0; i < s.size(); i++) place[ref[i]] = i;
  for (size_t x = 0, l = 0; x < s.size(); x++, l -= l > 0) {
    if (place[x] + 1 == s.size()) { l = 0; continue; }
    size_t y = ref[place[x] + 1];
    while (std::max(x, y) + l < s.size() && s[x + l] == s[y + l]) l++;
    common[place[x]] = l;
  }
  for (size_t i = 0; i < s.size(); i++) {
    REQUIRE(sa[i] == ref[i], "suffix number ", i, " is ", sa[i], " instead of ", ref[i], "; text ", show_str(s));
    const size_t l = common[i];
    REQUIRE(lcp[i] == l, "LCP of suffixes number ", i, " and ", i + 1, " is ", lcp[i], " instead of ", l, "; text ", show_str(s));
    longest = std::max(longest, l);
  }
  std::stringstream p, q;
  a.WriteSA(p);
  a.WriteLCP(q);
  REQUIRE(stored(p) == sa && stored(q) == lcp, "WriteSA/WriteLCP write something else than Write");
  for (size_t k = 0; k < 4 && !s.empty(); k++) {
    size_t i = c.below(s.size()), n = c.below(s.size() + 2);
    REQUIRE(a.char_at(i) == (uint8_t)s[i] && a.suffix(i) == s.substr(i) && a.suffix(i, n) == s.substr(i, n), "text access at ", i);
  }
  c.nontrivial(longest > 0);
  c.label_if(s.empty(), "empty text");
  c.label_if(longest > 100, "common prefixes over 100");
  c.label_if(s.find('\0') != std::string::npos, "NUL bytes");
  c.label_if(s.size() > 256, "over 256 bytes");
}
LAW(suffixes_in_order, 12000, 150000) {
  std::string alpha = gen_alphabet(c, 0, 255), s = gen_text(c, 20, 300, 3000, alpha);
  NOTE(c, "text ", show_str(s));
  Quiet q;
  SuffixArray a(s);
  if (c.chance(1, 4)) { SuffixArray b(a); a = SuffixArray("something else"); verify(b, s, c); }
  else verify(a, s, c);
}
LAW(long_texts, 48, 600) {
  std::string alpha = gen_alphabet(c, 0, 255), s = gen_text(c, 4000, 8000, 20000, alpha);
  NOTE(c, "text ", show_str(s));
  Quiet q;
  verify(SuffixArray(s), s, c);
}
// Texts over blocks "a x y" with x, y > a: a block is one substring of the induced sorting, its number the rank of
// (x, y).  All numbers occur once, then a few do in turn that agree in their low or in their high bits.
// A block is a marker and rising letters, or any two: no letter inside is smaller than both its neighbours.
static void many_names(Case& c, size_t digits, size_t side, size_t step) {
  Quiet q;
  size_t lo = c.below(250 - side);
  std::vector<std::string> word;
  for (size_t i = 0; i < side; i++)
    for (size_t j = digits == 2 ? 0 : i; j < side; j++)
      if (digits == 2) word.push_back({char(lo + 1 + i), char(lo + 1 + j)});
      else for (size_t k = j; k < side; k++) word.push_back({char(lo + 1 + i), char(lo + 1 + j), char(lo + 1 + k)});
  const size_t names = word.size();
  auto block = [&](std::string& s, size_t name) { s += (char)lo; s += word[name]; };
  auto b = c.bulk();
  std::vector<size_t> order(names);
  for (size_t i = 0; i < names; i++) order[i] = i;
  switch (c.below(3)) { case 0: break; case 1: std::reverse(order.begin(), order.end()); break; default: for (size_t i = names; i > 1; i--) std::swap(order[i - 1], order[b.below(i)]); }
  std::vector<size_t> few;
  for (size_t base = b.below(step < names ? std::min(step, names - step) : names), k = 0; base + k * step < names && k < 4; k++) few.push_back(base + k * step);
  for (size_t k = c.below(4); k--;) few.push_back(b.below(names));
  std::string s;
  size_t tail = c.size(5, 100, 1500);
  const bool first = c.coin(), periodic = c.coin();
  auto turn = [&] {
    size_t period = b.range(1, 12);
    std::vector<size_t> h;
    for (size_t i = 0; i < tail; i++) {
      size_t x = periodic && i >= period && !b.chance(1, 25) ? h[i - period] : few[b.below(few.size())];
      h.push_back(x);
      block(s, x);
    }
  };
  if (first) turn();
  for (size_t x : order) block(s, x);
  if (!first || c.coin()) turn();
  NOTE(c, names, " names, step ", step, ", text of ", s.size());
  c.label_if(step >= 255, "names 255 or more apart");
  verify(SuffixArray(s), s, c);
}
LAW(texts_with_many_names, 200, 2500) {
  size_t side = c.range(17, 40);
  many_names(c, 2, side, c.one_of(std::vector<size_t>{256, 256, 255, 257, 1, 16, 128, 512}));
}
LAW_FULL(texts_with_very_many_names, 6, 40, 0, false) {
  size_t side = c.range(74, 90);  // 74 * 75 * 76 / 6 > 2^16
  many_names(c, 3, side, c.one_of(std::vector<size_t>{65536, 65536, 65535, 256, 1}));
}
// Blocks of a long way up and down again, of which several agree until far behind their first letter: each is one
// substring of the induced sorting, and which of two comes first shows only at its end or after it.
static void long_blocks(Case& c, size_t reach, size_t most) {
  Quiet q;
  auto r = c.bulk();
  std::vector<std::string> kinds;
  const size_t k = c.range(1, 3);
  for (size_t t = 0; t < k; t++) {
    size_t up = reach + r.below(5) - 2, steps = r.below(4);
    std::string b = "a";
    for (size_t i = 0, x = 0; i <= steps; i++) b += std::string(i == steps ? up - std::min(up, x) + 1 : (x = up * (i + 1) / (steps + 1)) - (b.size() - 1), char('b' + i));
    if (r.below(2)) b += std::string(r.below(2) ? reach + r.below(3) - 1 : r.below(6), char('a' + steps + 1));
    kinds.push_back(b);
    // its neighbours in the order
    for (size_t v = r.below(3) + 1; v--;) {
      std::string o = b;
      switch (r.below(4)) {
        case 0: o.insert(1, 1, o[1]); break;
        case 1: o += char(b.back() + (b.back() > 'b' ? -(int)r.below(2) : 0)); break;
        case 2: o.back()++; break;
        default: o.push_back(char('z' - r.below(3)));
      }
      kinds.push_back(o);
    }
  }
  std::string s;
  for (size_t n = c.range(2, 12); n-- && s.size() < most;) s += kinds[r.below(kinds.size())];
  if (r.below(2)) s += "a";
  NOTE(c, "blocks of about ", reach, " letters, text of ", s.size());
  verify(SuffixArray(s), s, c);
}
LAW(texts_of_long_blocks, 300, 4000) {
  long_blocks(c, size_t(1) << c.range(3, 13), 40000);
}
LAW_FULL(texts_of_very_long_blocks, 6, 40, 0, false) {
  long_blocks(c, size_t(1) << c.range(14, 17), 300000);
}
LAW_ENUM(every_small_text, 511 + 1093) {
  u64 k = c.enum_index(511 + 1093);
  const bool two = k < 511;
  if (!two) k -= 511;
  const u64 base = two ? 2 : 3;
  size_t n = 0;
  for (u64 block = 1; k >= block; block *= base) { k -= block; n++; }
  std::string s;
  for (size_t i = 0; i < n; i++) { s += two ? "ab"[k % 2] : "\0a\xff"[k % 3]; k /= base; }
  NOTE(c, "text ", show_str(s));
  Quiet q;
  verify(SuffixArray(s), s, c);
}
