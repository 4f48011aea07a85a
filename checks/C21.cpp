// variants: rel asan dbg
// rule: insertions, re-insertions and lookups of arbitrary byte strings (NUL included, shared prefixes, empty key)
//   for signed and unsigned node index types, and of keys over 255 and over 65535 bytes long, against std::map; then both walks against the trie of the
//   inserted keys; non-trivial = a key that is a prefix of another, and a re-insertion
#include "common.hpp"
#include "sim_ds/string_util/graph_util.hpp"
using namespace sim_ds;

static std::string key(Case& c, const std::vector<std::string>& had, const std::string& alpha) {
  std::string q;
  if (!had.empty() && c.chance(2, 3)) q = had[c.below(had.size())];
  else { q.resize(c.size(3, 8, 30)); for (auto& ch : q) ch = alpha[c.below(alpha.size())]; }
  switch (c.below(6)) {
    case 0: if (!q.empty()) q.resize(c.below(q.size())); break;
    case 1: q += alpha[c.below(alpha.size())]; break;
    case 2: if (!q.empty()) q[c.below(q.size())] = (char)c.below(256); break;
    case 3: q += std::string(1 + c.below(3), '\0'); break;
    default:;
  }
  if (q.size() > 60) q.resize(60);
  return q;
}
template <class Item> static Item item(u64 x) { if constexpr (std::is_same_v<Item, std::string>) return cat("item ", x); else return (Item)x; }

template <class Item, class Size> static void history(Case& c) {
  using Tr = graph_util::Trie<Item, Size>;
  Tr t;
  std::map<std::string, Item> m;
  std::vector<std::string> had;
  std::string alpha = gen_alphabet(c, 0, 255), h;
  size_t steps = c.size(10, 50, 250), again = 0;
  auto ask = [&](const std::string& q) {
    Item* p = t.traverse(q);
    auto it = m.find(q);
    if (it == m.end()) REQUIRE(p == nullptr, show_str(q), " is found but was never inserted; ", h);
    else REQUIRE(p && *p == it->second, show_str(q), p ? " has another item" : " is not found", "; ", h);
  };
  for (size_t s = 0; s < steps; s++) {
    std::string q = key(c, had, alpha);
    if (c.coin()) {
      Item x = item<Item>(c.below(1000));
      again += m.count(q);
      Item* p = t.insert(q, x);
      REQUIRE(p && *p == x, "insert returns another item");
      m[q] = x;
      had.push_back(q);
      if (h.size() < 1500) h += cat("insert ", show_str(q), "; ");
      if (c.chance(1, 8)) { *t.traverse(q) = item<Item>(1001); m[q] = item<Item>(1001); }  // items can be changed in place
    }
    ask(q);
    if (!had.empty()) ask(key(c, had, alpha));
  }
  for (auto& k : m) ask(k.first);
  NOTE(c, h);
  bool prefix = false;
  for (auto it = m.begin(); it != m.end() && std::next(it) != m.end(); ++it) prefix |= std::next(it)->first.compare(0, it->first.size(), it->first) == 0;
  c.nontrivial(prefix && again);
  c.label_if(m.count(""), "the empty key");
  c.label_if(again > 3, "over 3 re-insertions");

  // the walks: nodes are the prefixes of key+NUL
  std::set<std::string> nodes = {""};
  for (auto& k : m) { std::string s = k.first + '\0'; for (size_t l = 1; l <= s.size(); l++) nodes.insert(s.substr(0, l)); }
  REQUIRE(t.size() == nodes.size(), "the trie has ", t.size(), " nodes, its keys ", nodes.size(), " prefixes; ", h);
  std::vector<std::string> pre(nodes.begin(), nodes.end()), level = pre;
  std::stable_sort(level.begin(), level.end(), [](const std::string& a, const std::string& b) { return a.size() < b.size(); });
  std::set<size_t> items;
  auto check = [&](const std::vector<std::string>& order, size_t i, const auto& n, size_t depth, const char* walk) {
    REQUIRE(i < order.size(), walk, " visits more than the ", order.size(), " nodes; ", h);
    const std::string& at = order[i];
    REQUIRE(depth == at.size(), walk, " visit ", i, " is at depth ", depth, " instead of ", at.size(), " (", show_str(at), "); ", h);
    bool term = !at.empty() && at.back() == '\0' && m.count(at.substr(0, at.size() - 1));
    REQUIRE(n.terminal() == term, walk, " visit ", i, " (", show_str(at), ") ", term ? "is not" : "is", " terminal; ", h);
    if (term) items.insert((size_t)n.item_index());
    std::string es, ee;
    n.for_each_edge([&](uint8_t ch, auto target) { es += (char)ch; REQUIRE(n.target(ch) == target, "edge target"); });
    for (auto it = nodes.upper_bound(at); it != nodes.end() && it->compare(0, at.size(), at) == 0; ++it) if (it->size() == at.size() + 1) ee += it->back();
    REQUIRE(es == ee, walk, " visit ", i, " (", show_str(at), ") has edges ", show_str(es), " instead of ", show_str(ee), "; ", h);
  };
  size_t i = 0;
  t.dfs([&](const auto& n, size_t d) { check(pre, i++, n, d, "dfs"); });
  REQUIRE(i == pre.size(), "dfs visits ", i, " of ", pre.size(), " nodes");
  REQUIRE(items.size() == m.size() && (m.empty() || *items.rbegin() == m.size() - 1), "items are not numbered 0..", m.size());
  i = 0;
  t.bfs([&](const auto& n, size_t d) { check(level, i++, n, d, "bfs"); });
  REQUIRE(i == level.size(), "bfs visits ", i, " of ", level.size(), " nodes");
  // by hand from the root: every key's path, and the walk of the part below one of its nodes
  REQUIRE(&t.root() == &t.node(0), "root() is not node 0");
  for (auto& k : m) {
    std::string s = k.first + '\0';
    size_t at = 0, part = c.below(s.size() + 1), sub = 0;
    for (size_t l = 0; l < s.size(); l++) {
      if (l == part) sub = at;
      at = (size_t)t.node(at).target((uint8_t)s[l]);
      REQUIRE(at > 0 && at < t.size(), "the path of ", show_str(k.first), " leaves the trie at byte ", l, "; ", h);
    }
    if (part == s.size()) sub = at;
    REQUIRE(t.node(at).terminal(), "the path of ", show_str(k.first), " does not end at a terminal node; ", h);
    if (!c.chance(1, 8)) continue;
    std::vector<std::string> below;
    for (auto it = nodes.lower_bound(s.substr(0, part)); it != nodes.end() && it->compare(0, part, s, 0, part) == 0; ++it) below.push_back(*it);
    size_t j = 0, base = c.coin() ? part : c.below(100);
    t.dfs(sub, base, [&](const auto& n, size_t d) { check(below, j++, n, d + part - base, "dfs from a node"); });
    REQUIRE(j == below.size(), "dfs from the node ", show_str(s.substr(0, part)), " visits ", j, " of ", below.size(), " nodes; ", h);
  }
  Tr u(t);
  u.insert("another key", item<Item>(7));
  for (auto& k : m) ask(k.first);
}
LAW(a_map_from_strings_to_items, 12000, 150000) {
  switch (c.below(5)) {
    case 0: history<int, size_t>(c); break;
    case 1: history<int, int>(c); break;
    case 2: history<std::string, uint32_t>(c); break;
    case 3: history<uint8_t, uint16_t>(c); break;
    default: history<double, long long>(c);
  }
}
LAW(many_keys, 32, 400) {
  auto r = c.bulk();
  graph_util::Trie<u64, size_t> t;
  std::map<std::string, u64> m;
  size_t n = c.size(3000, 8000, 20000);
  u64 a = r.range(1, 200);
  for (size_t i = 0; i < n; i++) {
    std::string s(r.below(10), 0);
    for (auto& ch : s) ch = (char)(r.below(a) * 37);
    if (r.below(3)) { u64 x = r.next(); t.insert(s, x); m[s] = x; }
    else { u64* p = t.traverse(s); auto it = m.find(s); REQUIRE((p != nullptr) == (it != m.end()) && (!p || *p == it->second), "key ", show_str(s)); }
  }
  NOTE(c, n, " steps, ", m.size(), " keys");
  c.nontrivial();
  size_t terms = 0;
  t.dfs([&](const auto& x, size_t) { terms += x.terminal(); });
  REQUIRE(terms == m.size(), terms, " terminal nodes for ", m.size(), " keys");
  for (auto& k : m) { u64* p = t.traverse(k.first); REQUIRE(p && *p == k.second, "key ", show_str(k.first)); }
}

// keys longer than 8 and 16 bits can count: depths and node numbers beyond those
LAW(very_long_keys, 40, 400) {
  auto r = c.bulk();
  graph_util::Trie<u64, size_t> t;
  std::map<std::string, u64> m;
  std::string alpha = gen_alphabet(c, 0, 255);
  size_t edge = c.chance(3, 4) ? 256 : 65536, kinds = 1 + r.below(std::min<size_t>(alpha.size(), 6));
  std::string k(edge - 3 + r.below(6) + (r.below(2) ? r.below(edge / 4) : 0), 0);
  for (auto& ch : k) ch = alpha[r.below(kinds)];
  std::vector<std::string> had = {k};
  auto ask = [&](const std::string& q) {
    u64* p = t.traverse(q);
    auto it = m.find(q);
    REQUIRE((p != nullptr) == (it != m.end()) && (!p || *p == it->second), "a key of ", q.size(), " bytes, ", show_str(q), ", ", p ? "is found with a wrong item or unexpectedly" : "is not found");
  };
  auto derive = [&] {
    std::string q = had[r.below(had.size())];
    size_t at = r.below(2) ? r.below(q.size() + 1) : std::min(q.size(), edge - 2 + r.below(4));
    switch (r.below(5)) {
      case 0: q.resize(at); break;
      case 1: if (at < q.size()) q[at] = (char)r.below(256); break;
      case 2: if (q.size() >= edge) q.erase(std::min(at, q.size() - edge), edge); break;
      case 3: q.insert(at, 1, alpha[r.below(alpha.size())]); break;
      default: q = q.substr(at);
    }
    return q;
  };
  for (size_t i = 0; i < 10; i++) {
    std::string q = i ? derive() : k;
    if (!i || r.below(3)) { u64 x = r.next(); u64* p = t.insert(q, x); REQUIRE(p && *p == x, "insert returns another item"); m[q] = x; had.push_back(q); }
    ask(q);
    ask(derive());
  }
  for (auto& x : m) ask(x.first);
  NOTE(c, m.size(), " keys, the first of ", k.size(), " bytes over ", kinds, " letters");
  c.nontrivial(m.size() > 1);
  c.label_if(edge == 256, "over 255 bytes");
  c.label_if(edge == 65536, "over 65535 bytes");
  size_t terms = 0, n = 0, deep = 0, deepest = 0;
  for (auto& x : m) deepest = std::max(deepest, x.first.size() + 1);
  t.dfs([&](const auto& x, size_t d) { n++; terms += x.terminal(); deep = std::max(deep, d); });
  REQUIRE(n == t.size() && terms == m.size() && deep == deepest, "dfs visits ", n, " of ", t.size(), " nodes, ", terms, " terminal ones for ", m.size(), " keys, down to depth ", deep, " of ", deepest);
  n = terms = deep = 0;
  t.bfs([&](const auto& x, size_t d) { n++; terms += x.terminal(); deep = std::max(deep, d); });
  REQUIRE(n == t.size() && terms == m.size() && deep == deepest, "bfs visits ", n, " of ", t.size(), " nodes, ", terms, " terminal ones for ", m.size(), " keys, down to depth ", deep, " of ", deepest);
}

// more keys and nodes than 16 (thorough: 24) bits count, walks included
LAW_HUGE(more_keys_than_16_bits_count, 8, 24) {
  pbt::MoreMemory more(6000);
  auto r = c.bulk();
  unsigned e = 16 + (unsigned)c.below(c.thorough() ? 6 : 4), l = 1 + (e + 7) / 8;
  size_t n = (size_t(1) << e) + r.below(5000);
  auto key = [&](u64 k) { k = (k * 0x9e3779b97f4a7c15ull) >> 7; std::string s(l + k % 3, 0); for (auto& ch : s) { ch = (char)(k & 31); k >>= 5; } return s; };
  graph_util::Trie<u64, uint32_t> t;
  std::map<std::string, u64> m;
  for (size_t i = 0; i < n; i++) { auto k = key(i); m[k] = i; t.insert(k, i); }
  NOTE(c, n, " insertions of ", m.size(), " keys");
  c.nontrivial();
  for (auto& k : m) { u64* p = t.traverse(k.first); REQUIRE(p && *p == k.second, "key ", show_str(k.first), " of ", m.size()); }
  for (size_t i = 0; i < 20000; i++) { auto k = key(n + i); u64* p = t.traverse(k); auto it = m.find(k); REQUIRE((p != nullptr) == (it != m.end()) && (!p || *p == it->second), "key ", show_str(k), " of ", m.size()); }
  size_t visited[2] = {}, terms[2] = {}, depth[2] = {}, last = 0;
  t.dfs([&](const auto& x, size_t d) { visited[0]++; terms[0] += x.terminal(); depth[0] += d; });
  t.bfs([&](const auto& x, size_t d) { visited[1]++; terms[1] += x.terminal(); depth[1] += d; REQUIRE(d >= last, "bfs goes back to depth ", d); last = d; });
  for (int k = 0; k < 2; k++) REQUIRE(visited[k] == t.size() && terms[k] == m.size() && depth[k] == depth[0], k ? "bfs" : "dfs", " visits ", visited[k], " of ", t.size(), " nodes, ", terms[k], " of ", m.size(), " terminals");
}
