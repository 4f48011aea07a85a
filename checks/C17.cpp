// variants: rel asan dbg
// scale: 4 6
// rule: texts of 0..3000 (and some of 30000 and over 65536) bytes over alphabets of 1..256 byte values; queries are all / sampled factors, factors with
//   a changed, added or dropped byte, and random strings; the answer must be that of a factor oracle built by the
//   textbook on-line construction; non-trivial = the text repeats a letter and a non-factor was asked
#include "common.hpp"
#include <deque>
#include "sim_ds/string_util/FactorOracle.hpp"
using namespace sim_ds;

struct Ref {  // Allauzen, Crochemore, Raffinot: the on-line construction, with maps
  std::vector<std::map<unsigned char, size_t>> to;
  explicit Ref(const std::string& p) : to(p.size() + 1) {
    std::vector<long long> sup(p.size() + 1);
    sup[0] = -1;
    for (size_t i = 1; i <= p.size(); i++) {
      unsigned char ch = p[i - 1];
      to[i - 1][ch] = i;
      long long k = sup[i - 1];
      while (k > -1 && !to[k].count(ch)) { to[k][ch] = i; k = sup[k]; }
      sup[i] = k == -1 ? 0 : (long long)to[k][ch];
    }
  }
  // how many letters are read before the oracle gets stuck
  size_t reads(const std::string& s, std::vector<size_t>* states = nullptr) const {
    size_t st = 0, i = 0;
    for (; i < s.size(); i++) { auto it = to[st].find((unsigned char)s[i]); if (it == to[st].end()) break; st = it->second; if (states) states->push_back(st); }
    return i;
  }
};
static void ask(const FactorOracle& f, const Ref& r, const std::string& p, const std::string& q) {
  size_t n = r.reads(q);
  bool e = n == q.size(), g = f.accept(q);
  REQUIRE(g == e, show_str(q), g ? " is accepted" : " is rejected", " by the oracle of ", show_str(p));
  if (p.find(q) != std::string::npos) REQUIRE(g, "the factor ", show_str(q), " is rejected by the oracle of ", show_str(p));
  if (q.size() > p.size()) REQUIRE(!g, "accepted ", show_str(q), ", longer than ", show_str(p));
  if (q.size() == p.size() && q != p) REQUIRE(!g, "accepted ", show_str(q), ", as long as ", show_str(p));
  FactorOracleExproler x(q);
  REQUIRE(f.accept(x) == e && x.pos() == n && x.size() == q.size(), "explorer stops at ", x.pos(), " of ", show_str(q), " expected ", n, "; text ", show_str(p));
  // an explorer that was stopped goes on from where it stands: the text is cut into what the oracle can read
  REQUIRE(x.text() == q, "explorer of ", show_str(q), " has the text ", show_str(std::string(x.text())));
  for (size_t at = n, k = 0; at < q.size() && k < 4; k++) {
    size_t m = r.reads(q.substr(at));
    REQUIRE(x.c() == (uint8_t)q[at], "explorer of ", show_str(q), " stands at another letter than ", at);
    bool to_the_end = f.accept(x);
    REQUIRE(x.pos() == at + m && to_the_end == (at + m == q.size()), "explorer of ", show_str(q), " stopped at ", at, " goes on to ", x.pos(), " expected ", at + m, "; text ", show_str(p));
    if (!m) break;
    at += m;
  }
  // letter by letter; a refused letter leaves the state where it was
  size_t st = 0;
  for (size_t i = 0; i < q.size(); i++) {
    size_t b = st;
    bool ok = f.image(st, (uint8_t)q[i]);
    REQUIRE(ok == (i < n) && (ok ? st > b && st <= p.size() : st == b), "letter ", i, " of ", show_str(q), " from state ", b, " to ", st, "; text ", show_str(p));
    if (!ok) break;
  }
}
static void every_letter(const FactorOracle& f, const Ref& r, const std::string& p, size_t step) {
  for (size_t s = 0; s <= p.size(); s += step)
    for (unsigned ch = 0; ch < 256; ch++) {
      size_t t = s;
      bool g = f.image(t, (uint8_t)ch);
      auto it = r.to[s].find((unsigned char)ch);
      REQUIRE(g == (it != r.to[s].end()) && t == (g ? it->second : s), "state ", s, " letter ", ch, " leads to ", g ? cat(t) : cat("nothing"), " expected ", it == r.to[s].end() ? cat("nothing") : cat(it->second), "; text ", show_str(p));
    }
}
static std::string query(Case& c, const std::string& p, const std::string& alpha) {
  std::string q;
  if (!p.empty() && c.chance(5, 6)) { size_t a = c.below(p.size()), l = c.range(1, p.size() - a); if (c.coin()) l = std::min<size_t>(l, 1 + c.below(12)); q = p.substr(a, l); }
  else q = gen_text(c, 4, 12, 40, alpha);
  switch (c.below(6)) {
    case 0: if (!q.empty()) q[c.below(q.size())] = alpha[c.below(alpha.size())]; break;
    case 1: q += alpha[c.below(alpha.size())]; break;
    case 2: if (q.size() > 1) q.erase(c.below(q.size()), 1 + c.below(4)); break;
    case 3: q = p + q.substr(0, c.below(3)); break;
    case 4: q += (char)c.below(256); break;
    default:;
  }
  return q;
}
static void classify(Case& c, const std::string& p) {
  std::set<char> s(p.begin(), p.end());
  c.nontrivial(s.size() < p.size());
  c.label_if(p.empty(), "empty text");
  c.label_if(p.find('\0') != std::string::npos, "NUL bytes");
  c.label_if(s.size() > 100, "over 100 distinct bytes");
  c.label_if(p.size() > 255, "over 255 bytes");
}

LAW(accepts_what_a_factor_oracle_accepts, 12000, 150000) {
  std::string alpha = gen_alphabet(c, 0, 255), p = gen_text(c, 12, 150, 1500, alpha);
  NOTE(c, "text ", show_str(p));
  classify(c, p);
  Ref r(p);
  std::string src = p;
  auto make = [&]() -> FactorOracle {
    switch (c.below(5)) {
      case 0: std::reverse(src.begin(), src.end()); return FactorOracle(src.rbegin(), src.rend());
      case 1: return FactorOracle(src.data(), src.data() + src.size());
      case 2: { std::deque<char> d(src.begin(), src.end()); return FactorOracle(d.begin(), d.end()); }
      default: return FactorOracle(src);
    }
  };
  FactorOracle f = make();
  src.assign(src.size(), 'x');  // the oracle keeps what it needs
  ask(f, r, p, "");
  ask(f, r, p, p);
  if (p.size() <= 24)
    for (size_t a = 0; a < p.size(); a++) for (size_t l = 1; a + l <= p.size(); l++) ask(f, r, p, p.substr(a, l));
  for (size_t k = 0; k < 20; k++) ask(f, r, p, query(c, p, alpha));
  every_letter(f, r, p, 1 + p.size() / 40);
}
// rich alphabets around the sizes where the transition table fills up
LAW(wide_alphabets, 1500, 20000) {
  auto b = c.bulk();
  size_t n = c.coin() ? c.range(250, 260) : c.range(1, 1100);
  std::string p(n, 0);
  switch (c.below(3)) {
    case 0: for (auto& ch : p) ch = (char)b.next(); break;
    case 1: { std::string perm; for (int i = 0; i < 256; i++) perm += (char)i; for (size_t i = 255; i; i--) std::swap(perm[i], perm[b.below(i + 1)]); for (size_t i = 0; i < n; i++) p[i] = perm[i % 256]; break; }
    default: for (size_t i = 0; i < n; i++) p[i] = (char)(i / 256 * 7 + i);
  }
  NOTE(c, "text ", show_str(p));
  classify(c, p);
  Ref r(p);
  FactorOracle f(p);
  std::string all;
  for (int i = 0; i < 256; i++) all += (char)i;
  ask(f, r, p, p);
  for (size_t k = 0; k < 20; k++) ask(f, r, p, query(c, p, all));
  every_letter(f, r, p, 1 + p.size() / 40);
}
// texts whose transitions just fill the tables: uniform over few letters, lengths up to some hundreds
LAW(nearly_full_tables, 12000, 200000) {
  auto b = c.bulk();
  size_t a = c.range(2, 40), n = c.range(0, 2) * 256 + c.range(190, 256);
  std::string p(n, 0), alpha;
  u64 lo = b.below(256);
  for (auto& ch : p) ch = (char)(lo + b.below(a));
  for (size_t i = 0; i < a; i++) alpha += (char)(lo + i);
  NOTE(c, "text ", show_str(p));
  classify(c, p);
  Ref r(p);
  FactorOracle f(p);
  ask(f, r, p, p);
  for (size_t k = 0; k < 6; k++) ask(f, r, p, query(c, p, alpha));
  every_letter(f, r, p, 1 + n / 16);
}
// every text of up to 8 letters over {a,b} against every string of up to 8
LAW_ENUM(every_small_text, 511) {
  u64 k = c.enum_index(511);
  size_t n = 0;
  while (k >= (u64(1) << n)) { k -= u64(1) << n; n++; }
  std::string p;
  for (size_t i = 0; i < n; i++) p += k >> i & 1 ? 'b' : 'a';
  NOTE(c, "text ", show_str(p), " against all strings of up to 8 letters");
  c.nontrivial(n > 2);
  Ref r(p);
  FactorOracle f(p);
  for (size_t m = 0; m <= 8; m++)
    for (u64 x = 0; x < (u64(1) << m); x++) { std::string q; for (size_t i = 0; i < m; i++) q += x >> i & 1 ? 'b' : 'a'; ask(f, r, p, q); }
  every_letter(f, r, p, 1);
}
LAW(long_texts, 24, 400) {
  std::string alpha = gen_alphabet(c, 0, 255), p = gen_text(c, 5000, 10000, 30000, alpha);
  NOTE(c, "text ", show_str(p));
  classify(c, p);
  Ref r(p);
  FactorOracle f(p);
  ask(f, r, p, p);
  for (size_t k = 0; k < 30; k++) ask(f, r, p, query(c, p, alpha));
  every_letter(f, r, p, 1 + p.size() / 100);
}
// state numbers beyond 16 bits: transitions to them, and from them, are told by letters seen nowhere before
LAW(very_long_texts, 4, 40) {
  auto b = c.bulk();
  size_t n = 65500 + b.below(6000);
  std::string alpha = gen_alphabet(c, 0, 255), p(n, 0);
  size_t a = 1 + b.below(alpha.size());
  if (b.below(3) == 0) { size_t per = 1 + b.below(300); for (size_t i = 0; i < n; i++) p[i] = i < per ? alpha[b.below(a)] : b.below(2000) ? p[i - per] : alpha[b.below(alpha.size())]; }
  else for (auto& ch : p) ch = alpha[b.below(a)];
  for (size_t k = b.below(6); k--;) p[n - 1 - b.below(n > 65530 ? n - 65520 : 9)] = (char)b.below(256);
  NOTE(c, "text of ", n, " bytes ", show_str(p));
  classify(c, p);
  c.label_if(n > 65536, "over 65536 bytes");
  Ref r(p);
  FactorOracle f(p);
  ask(f, r, p, p);
  for (size_t k = 0; k < 20; k++) ask(f, r, p, query(c, p, alpha));
  every_letter(f, r, p, 1 + p.size() / 100);
}
