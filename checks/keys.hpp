#pragma once
#include "common.hpp"
// sorted key sets over the bytes 0x01..0xfe, and queries near them
inline std::vector<std::string> gen_keys(Case& c, size_t small, size_t mid, size_t big, bool shortk = false) {
  size_t n = c.size(small, mid, big);
  std::string alpha = gen_alphabet(c, 1, 254);
  std::vector<std::string> v;
  if (n <= 12 && c.coin()) {
    for (size_t i = 0; i < n; i++) { std::string s(c.below(6), 0); for (auto& ch : s) ch = alpha[c.below(alpha.size())]; v.push_back(s); }
  } else {
    auto r = c.bulk();
    size_t mode = c.below(4), len = shortk ? 6 : 1 + r.below(40);
    for (size_t i = 0; i < n; i++) {
      std::string s;
      size_t l = r.below(len + 1);
      if (mode == 1 && !v.empty()) { const std::string& o = v[r.below(v.size())]; s = o.substr(0, r.below(o.size() + 1)); l = r.below(5); }     // shared prefixes
      if (mode == 2 && !v.empty()) { const std::string& o = v[r.below(v.size())]; s = o; l = 1; if (s.size() > 60) s = s.substr(0, 20); }        // chains
      if (mode == 3) l = len;                                                                                                             // one length
      for (size_t k = 0; k < l; k++) s += alpha[r.below(alpha.size())];
      v.push_back(s);
    }
    if (r.below(40) == 0) v.push_back(std::string(200 + r.below(400), alpha[0]));
  }
  std::sort(v.begin(), v.end());
  return v;
}
inline std::string near_key(Case& c, const std::vector<std::string>& v) {
  std::string q;
  if (!v.empty() && c.chance(7, 8)) q = v[c.below(v.size())];
  else { q.resize(c.below(8)); for (auto& ch : q) ch = (char)c.below(256); }
  switch (c.below(9)) {
    case 0: break;
    case 1: if (!q.empty()) q.pop_back(); break;
    case 2: q += (char)c.edgy(0, 255); break;
    case 3: if (!q.empty()) q[c.below(q.size())] = (char)c.edgy(0, 255); break;
    case 4: q += std::string(1 + c.below(4), '\0'); break;
    case 5: if (!v.empty()) { const std::string& o = v[c.below(v.size())]; q = q.substr(0, c.below(q.size() + 1)) + o.substr(c.below(o.size() + 1)); } break;
    case 6: if (!q.empty()) q = q.substr(0, c.below(q.size())); break;
    case 7: if (!q.empty()) { size_t i = c.below(q.size()); q[i] = (char)(q[i] + 1); } break;
    default: if (!v.empty()) { q += '\0'; q += v[c.below(v.size())]; }
  }
  return q;
}
// a few keys of which at least one is longer than 8 or 16 bits can count, and others that leave it at a depth that matters
inline std::vector<std::string> gen_long_keys(Case& c) {
  auto r = c.bulk();
  std::string alpha = gen_alphabet(c, 1, 254);
  size_t edge = c.chance(2, 3) ? 256 : 65536, len = edge - 3 + r.below(6) + (r.below(2) ? r.below(edge) : 0), kinds = 1 + r.below(std::min<size_t>(alpha.size(), 8));
  std::string k(len, 0);
  for (auto& ch : k) ch = alpha[r.below(kinds)];
  std::vector<std::string> v = {k};
  for (size_t i = r.below(8); i--;) {
    std::string o = v[r.below(v.size())];
    size_t at = r.below(2) ? r.below(o.size() + 1) : std::min<size_t>(o.size(), edge - 2 + r.below(4));
    switch (r.below(4)) {
      case 0: o.resize(at); break;
      case 1: if (at < o.size()) o[at] = alpha[r.below(alpha.size())]; break;
      case 2: o = o.substr(at) ; break;
      default: o.insert(at, 1, alpha[r.below(alpha.size())]);
    }
    v.push_back(o);
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
// neighbours of a long key: a letter dropped, changed or added where a narrow counter would wrap, or a whole turn missing
inline std::string near_long_key(Case& c, const std::vector<std::string>& v) {
  std::string q = v[c.below(v.size())];
  size_t edge = c.coin() ? 256 : 65536, at = c.coin() ? c.below(q.size() + 1) : std::min(q.size(), edge - 2 + c.below(4));
  switch (c.below(6)) {
    case 0: q.resize(at); break;
    case 1: if (at < q.size()) q[at] = (char)c.edgy(0, 255); break;
    case 2: if (q.size() >= edge) q.erase(std::min(at, q.size() - edge), edge); break;
    case 3: q.insert(at, 1, (char)c.edgy(0, 255)); break;
    case 4: if (q.size() >= edge) q.resize(q.size() - edge); break;
    default: q = q.substr(0, at) + v[c.below(v.size())].substr(0, 3);
  }
  return q;
}
inline std::string show_keys(const std::vector<std::string>& v) {
  std::string s = cat(v.size(), " keys");
  for (size_t i = 0; i < v.size() && i < 12; i++) s += " " + show_str(v[i]) + (v[i].size() > 64 ? cat("(", v[i].size(), " bytes)") : "");
  return s;
}
inline size_t total_length(const std::vector<std::string>& v) { size_t n = 0; for (auto& s : v) n += s.size() + 1; return n; }
// More keys, and so more nodes, than 16 bits count (up to some 10^6): nearly complete sets of short keys, or random ones.
inline std::vector<std::string> gen_many_keys(Case& c) {
  static const std::pair<unsigned, unsigned> kFull[] = {{254, 2}, {250, 2}, {70, 3}, {90, 3}, {27, 4}, {30, 4}, {14, 5}, {7, 7}, {4, 9}, {2, 18}, {2, 19}};
  auto r = c.bulk();
  std::vector<std::string> v;
  std::string alpha = gen_alphabet(c, 1, 254), rest;
  { std::vector<bool> in(256); for (char ch : alpha) in[(uint8_t)ch] = true; for (int b = 1; b < 255; b++) if (!in[b]) rest += (char)b; }
  alpha += rest;
  if (c.coin()) {
    auto [a, l] = kFull[c.below(sizeof kFull / sizeof *kFull)];
    size_t total = 1, drop = r.below(3) ? r.range(2, 1000) : 0;
    for (unsigned i = 0; i < l; i++) total *= a;
    for (size_t k = 0; k < total; k++) {
      if (drop && r.below(drop) == 0) continue;
      std::string s(l, 0);
      size_t x = k;
      for (auto& ch : s) { ch = alpha[x % a]; x /= a; }
      v.push_back(s);
    }
  } else {
    size_t n = 66000 + c.below(40000), a = r.range(3, 200), len = a > 40 ? 3 + r.below(3) : 10;
    for (size_t i = 0; i < n; i++) { std::string s(1 + r.below(len), 0); for (auto& ch : s) ch = alpha[r.below(a)]; v.push_back(s); }
  }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
