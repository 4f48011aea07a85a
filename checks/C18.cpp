// variants: rel asan dbg
// scale: 12 15
// rule: sorted key sets (0..5000 keys over bytes 0x01..0xfe; shared prefixes, chains, one length, duplicates, long
//   keys, keys of over 255 and over 65535 bytes) in both build modes and several code widths, from vectors, sets,
//   arrays and lists; queries are every key, its prefixes, extensions and
//   mutations, splices of keys and arbitrary bytes including 0x00 and 0xff; non-trivial = at least three keys and
//   a query that is not a key
#include "keys.hpp"
#include <deque>
#include <list>
#include "sim_ds/string_util/Samc.hpp"
using namespace sim_ds;

template <class S>
static void verify(const S& s, const std::vector<std::string>& v, Case& c, size_t queries) {
  std::set<std::string> m(v.begin(), v.end());
  auto ask = [&](const std::string& q) { bool g = s.accept(q), e = m.count(q); REQUIRE(g == e, show_str(q), g ? " is accepted" : " is not accepted", "; ", show_keys(v)); return e; };
  for (auto& k : m) ask(k);
  size_t prefixes = m.size() <= 40 ? m.size() : 0, misses = 0;
  if (prefixes) for (auto& k : m) for (size_t l = 0; l < k.size() && l < 50; l++) ask(k.substr(0, l));
  for (size_t i = 0; i < queries; i++) misses += !ask(near_key(c, v));
  c.nontrivial(m.size() >= 3 && misses);
  c.label_if(m.empty(), "no keys");
  c.label_if(m.count(""), "the empty key");
  c.label_if(m.size() < v.size(), "duplicates");
  c.label_if(m.size() > 300, "over 300 keys");
}
template <class S> static void from_anywhere(Case& c, const std::vector<std::string>& v, size_t q) {
  switch (c.below(5)) {
    case 0: { S s(v.begin(), v.end()); S t(s); verify(t, v, c, q); break; }
    case 1: { S s(v.data(), v.data() + v.size()); verify(s, v, c, q); break; }
    case 2: { std::list<std::string> d(v.begin(), v.end()); S s(d.cbegin(), d.cend()); d.clear(); verify(s, v, c, q); break; }
    case 3: { std::multiset<std::string> d(v.begin(), v.end()); S s(d.begin(), d.end()); verify(s, v, c, q); break; }
    default: { std::deque<std::string> d(v.begin(), v.end()); S s(d.begin(), d.end()); d.clear(); S t; t = std::move(s); verify(t, v, c, q); }
  }
}

LAW(accepts_exactly_its_keys, 12000, 150000) {
  auto v = gen_keys(c, 8, 80, 600);
  NOTE(c, show_keys(v));
  if (!c.chance(1, 4)) v.erase(std::unique(v.begin(), v.end()), v.end());
  if (total_length(v) < 200 && c.coin()) return from_anywhere<Samc<uint16_t>>(c, v, 40);
  switch (c.below(3)) {
    case 0: from_anywhere<Samc<uint32_t>>(c, v, 40); break;
    case 1: from_anywhere<Samc<size_t>>(c, v, 40); break;
    default: if (total_length(v) > 3000) from_anywhere<Samc<uint32_t>>(c, v, 40); else from_anywhere<Samc<uint32_t, true>>(c, v, 40);
  }
}
LAW(large_key_sets, 32, 500) {
  auto v = gen_keys(c, 1000, 2000, 5000);
  NOTE(c, show_keys(v));
  Samc<uint32_t> s(v.begin(), v.end());
  verify(s, v, c, 300);
}
template <class S> static void long_keys(Case& c, const std::vector<std::string>& v) {
  S s(v.begin(), v.end());
  std::set<std::string> m(v.begin(), v.end());
  size_t misses = 0;
  for (auto& k : m) REQUIRE(s.accept(k), show_str(k), "(", k.size(), " bytes) is not accepted; ", show_keys(v));
  for (size_t i = 0; i < 24; i++) {
    std::string q = near_long_key(c, v);
    bool e = m.count(q);
    misses += !e;
    REQUIRE(s.accept(q) == e, show_str(q), "(", q.size(), " bytes) is ", e ? "not " : "", "accepted; ", show_keys(v));
  }
  c.nontrivial(v.size() >= 2 && misses);
}
LAW(very_long_keys, 12, 150) {
  auto v = gen_long_keys(c);
  NOTE(c, show_keys(v));
  size_t top = 0;
  for (auto& k : v) top = std::max(top, k.size());
  c.label_if(top > 255, "a key of over 255 bytes");
  c.label_if(top > 65535, "a key of over 65535 bytes");
  if (top < 3000 && c.coin()) return long_keys<Samc<uint16_t>>(c, v);
  if (top < 1000 && c.coin()) return long_keys<Samc<uint32_t, true>>(c, v);
  if (c.coin()) long_keys<Samc<uint32_t>>(c, v); else long_keys<Samc<size_t>>(c, v);
}
// every set of strings of up to 2 letters over {a,b}, asked about all strings of up to 3
LAW_ENUM(every_small_set, 128) {
  u64 k = c.enum_index(128);
  static const char* const kAll[] = {"", "a", "aa", "ab", "b", "ba", "bb"};
  std::vector<std::string> v;
  for (int i = 0; i < 7; i++) if (k >> i & 1) v.push_back(kAll[i]);
  NOTE(c, show_keys(v));
  c.nontrivial(v.size() >= 3);
  Samc<uint32_t> s(v.begin(), v.end());
  Samc<uint32_t, true> l(v.begin(), v.end());
  std::set<std::string> m(v.begin(), v.end());
  const std::string abc("ab\0\xff", 4);
  for (size_t n = 0; n <= 4; n++)
    for (u64 x = 0; x < (u64(1) << 2 * n); x++) {
      std::string q;
      for (size_t i = 0; i < n; i++) q += abc[x >> 2 * i & 3];
      REQUIRE(s.accept(q) == (m.count(q) > 0) && l.accept(q) == (m.count(q) > 0), show_str(q), " is answered wrongly; ", show_keys(v));
    }
}
template <class S> static void empty_object(Case& c) {
  S s, t(s);
  std::stringstream o;
  s.Write(o);
  S r;
  r.Read(o);
  auto v = gen_keys(c, 4, 8, 16);
  v.push_back("");
  for (auto& q : v) { REQUIRE(!s.accept(q) && !t.accept(q) && !r.accept(q), "a default constructed dictionary accepts ", show_str(q)); }
  NOTE(c, show_keys(v));
  c.nontrivial(v.size() > 2);
}
LAW(no_dictionary_holds_no_key, 200, 2000) {
  switch (c.below(3)) { case 0: empty_object<Samc<uint32_t>>(c); break; case 1: empty_object<Samc<uint16_t, true>>(c); break; default: empty_object<Samc<size_t>>(c); }
}
template <class S> static void many(Case& c, const std::vector<std::string>& v) {
  S s(v.begin(), v.end());
  for (auto& k : v) REQUIRE(s.accept(k), show_str(k), " is not accepted; ", show_keys(v));
  size_t misses = 0;
  auto ask = [&](const std::string& q) {
    bool e = std::binary_search(v.begin(), v.end(), q);
    misses += !e;
    REQUIRE(s.accept(q) == e, show_str(q), " is ", e ? "not " : "", "accepted; ", show_keys(v));
  };
  for (size_t i = 0; i < 500; i++) ask(near_key(c, v));
  auto r = c.bulk();
  for (size_t i = 0; i < 200000; i++) {
    std::string q = v[r.below(v.size())];
    if (r.below(2)) q.resize(r.below(q.size() + 1));
    if (r.below(2)) { const std::string& o = v[r.below(v.size())]; q += o.substr(r.below(o.size())); }
    if (!q.empty() && r.below(2)) q[r.below(q.size())] = (char)r.below(256);
    ask(q);
  }
  c.nontrivial(misses);
}
LAW_HUGE(more_keys_than_16_bits_count, 12, 100) {
  auto v = gen_many_keys(c);
  NOTE(c, show_keys(v));
  c.label_if(v.size() > 65536, "over 65536 keys");
  if (c.coin()) many<Samc<uint32_t>>(c, v); else many<Samc<size_t>>(c, v);
}
