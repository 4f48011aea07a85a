// variants: rel asan dbg
// scale: 12 15
// rule: sorted key sets as for C18 (very long keys included); lookup of every key must give distinct numbers 0..n-1, access must give the key
//   back, and lookup of near misses (0x00 and 0xff bytes included) the error value; non-trivial = at least three
//   keys and a query that is not a key
#include "keys.hpp"
#include <deque>
#include <list>
#include "sim_ds/string_util/Samc.hpp"
using namespace sim_ds;

template <class S>
static void verify(const S& s, const std::vector<std::string>& v, Case& c, size_t queries) {
  std::set<std::string> m(v.begin(), v.end());
  std::vector<bool> seen(m.size());
  for (auto& k : m) {
    size_t id = s.lookup(k);
    REQUIRE(id != S::kSearchError, "key ", show_str(k), " is not found; ", show_keys(v));
    REQUIRE(id < m.size() && !seen[id], "key ", show_str(k), " has number ", id, id < m.size() ? ", taken already; " : ", out of range; ", show_keys(v));
    seen[id] = true;
    std::string a = s.access(id);
    REQUIRE(a == k, "access(", id, ")=", show_str(a), " but the number was looked up from ", show_str(k), "; ", show_keys(v));
  }
  size_t misses = 0;
  auto miss = [&](const std::string& q) {
    if (m.count(q)) return;
    misses++;
    REQUIRE(s.lookup(q) == S::kSearchError, show_str(q), " is not a key but has number ", s.lookup(q), "; ", show_keys(v));
  };
  if (m.size() <= 40) for (auto& k : m) for (size_t l = 0; l < k.size() && l < 50; l++) miss(k.substr(0, l));
  for (size_t i = 0; i < queries; i++) miss(near_key(c, v));
  c.nontrivial(m.size() >= 3 && misses);
  c.label_if(m.empty(), "no keys");
  c.label_if(m.count(""), "the empty key");
  c.label_if(m.size() < v.size(), "duplicates");
  c.label_if(m.size() > 300, "over 300 keys");
}
template <class S> static void from_anywhere(Case& c, const std::vector<std::string>& v, size_t q) {
  switch (c.below(5)) {
    case 0: { S s(v.begin(), v.end()); S t(s); verify(t, v, c, q); break; }
    case 1: { S s(v.data(), v.data() + v.size()); verify(s, v, c, q); break; }
    case 2: { std::list<std::string> d(v.begin(), v.end()); S s(d.cbegin(), d.cend()); d.clear(); verify(s, v, c, q); break; }
    case 3: { std::multiset<std::string> d(v.begin(), v.end()); S s(d.begin(), d.end()); verify(s, v, c, q); break; }
    default: { std::deque<std::string> d(v.begin(), v.end()); S s(d.begin(), d.end()); d.clear(); S t; t = std::move(s); verify(t, v, c, q); }
  }
}
LAW(numbers_and_keys_correspond, 12000, 150000) {
  auto v = gen_keys(c, 8, 80, 800);
  NOTE(c, show_keys(v));
  if (!c.chance(1, 4)) v.erase(std::unique(v.begin(), v.end()), v.end());
  if (total_length(v) < 200 && c.coin()) return from_anywhere<SamcDict<uint16_t>>(c, v, 30);
  if (c.coin()) from_anywhere<SamcDict<uint32_t>>(c, v, 30); else from_anywhere<SamcDict<size_t>>(c, v, 30);
}
LAW(large_dictionaries, 32, 500) {
  auto v = gen_keys(c, 1500, 3000, 8000);
  NOTE(c, show_keys(v));
  SamcDict<uint32_t> s(v.begin(), v.end());
  verify(s, v, c, 300);
}
LAW(very_long_keys, 12, 150) {
  auto v = gen_long_keys(c);
  NOTE(c, show_keys(v));
  size_t top = 0;
  for (auto& k : v) top = std::max(top, k.size());
  c.label_if(top > 255, "a key of over 255 bytes");
  c.label_if(top > 65535, "a key of over 65535 bytes");
  SamcDict<uint32_t> s(v.begin(), v.end());
  std::set<std::string> m(v.begin(), v.end());
  std::vector<bool> seen(m.size());
  for (auto& k : m) {
    size_t id = s.lookup(k);
    REQUIRE(id < m.size() && !seen[id], "key ", show_str(k), "(", k.size(), " bytes) has number ", id, "; ", show_keys(v));
    seen[id] = true;
    std::string a = s.access(id);
    REQUIRE(a == k, "access(", id, ") has ", a.size(), " bytes but the number was looked up from a key of ", k.size(), "; ", show_keys(v));
  }
  size_t misses = 0;
  for (size_t i = 0; i < 24; i++) {
    std::string q = near_long_key(c, v);
    if (m.count(q)) continue;
    misses++;
    REQUIRE(s.lookup(q) == s.kSearchError, show_str(q), "(", q.size(), " bytes) is not a key but has number ", s.lookup(q), "; ", show_keys(v));
  }
  c.nontrivial(v.size() >= 2 && misses);
}
LAW_ENUM(every_small_set, 128) {
  u64 k = c.enum_index(128);
  static const char* const kAll[] = {"", "a", "aa", "ab", "b", "ba", "bb"};
  std::vector<std::string> v;
  for (int i = 0; i < 7; i++) if (k >> i & 1) v.push_back(kAll[i]);
  NOTE(c, show_keys(v));
  SamcDict<uint32_t> s(v.begin(), v.end());
  verify(s, v, c, 60);
}
LAW(no_dictionary_holds_no_key, 200, 2000) {
  SamcDict<uint32_t> s, t(s), r;
  std::stringstream o;
  s.Write(o);
  r.Read(o);
  auto v = gen_keys(c, 4, 8, 16);
  v.push_back("");
  for (auto& q : v) { REQUIRE(s.lookup(q) == s.kSearchError && t.lookup(q) == s.kSearchError && r.lookup(q) == s.kSearchError, "a default constructed dictionary has ", show_str(q)); }
  NOTE(c, show_keys(v));
  c.nontrivial(v.size() > 2);
}
LAW_HUGE(more_keys_than_16_bits_count, 12, 100) {
  auto v = gen_many_keys(c);
  NOTE(c, show_keys(v));
  c.label_if(v.size() > 65536, "over 65536 keys");
  SamcDict<uint32_t> s(v.begin(), v.end());
  std::vector<bool> seen(v.size());
  for (auto& k : v) {
    size_t id = s.lookup(k);
    REQUIRE(id < v.size() && !seen[id], "key ", show_str(k), " has number ", id, "; ", show_keys(v));
    seen[id] = true;
    REQUIRE(s.access(id) == k, "access(", id, ")=", show_str(s.access(id)), " but the number was looked up from ", show_str(k), "; ", show_keys(v));
  }
  size_t misses = 0;
  for (size_t i = 0; i < 2000; i++) {
    std::string q = near_key(c, v);
    if (std::binary_search(v.begin(), v.end(), q)) continue;
    misses++;
    REQUIRE(s.lookup(q) == s.kSearchError, show_str(q), " is not a key but has number ", s.lookup(q), "; ", show_keys(v));
  }
  c.nontrivial(misses);
}
