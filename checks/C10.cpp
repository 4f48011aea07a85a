// variants: rel asan dbg
// rule: histories of set / overwrite / erase / reserve / lookup / copy over small and large key universes, table
//   sizes 1..4096, load factors 1..99 %, scrambling and clustering hash functions, against std::map;
//   non-trivial = the history grows the table, erases a present key and sets one again afterwards
#include "common.hpp"
#include <functional>
#include "sim_ds/CHT.hpp"
using namespace sim_ds;

// keys stay where they are: consecutive keys build long clusters that wrap around the end
struct StayHash {
  explicit StayHash(unsigned = 64) {}
  uint64_t hash(uint64_t x) const { return x; }
  uint64_t ihash(uint64_t x) const { return x; }
};
// the low bits are turned over, so that clusters start at the last bucket and wrap around
struct FlipHash {
  uint64_t m;
  explicit FlipHash(unsigned w = 64) : m(w >= 64 ? ~0ull : (1ull << w) - 1) {}
  uint64_t hash(uint64_t x) const { return ~x & m; }
  uint64_t ihash(uint64_t x) const { return ~x & m; }
};

using Model = std::map<u64, u64>;
struct Keys { unsigned bits; std::vector<u64> some; };
static u64 key_of(Case& c, const Keys& k) { return k.some[c.below(k.some.size())]; }

template <class H>
static void agree(const H& h, const Model& m, const Keys& k, const std::string& hist, u64 only = kMax64) {
  REQUIRE(h.size() == m.size(), "size ", h.size(), " expected ", m.size(), "; ", hist);
  auto one = [&](u64 key) {
    auto [s, v] = h.get(key);
    auto it = m.find(key);
    if (it == m.end()) REQUIRE(!s, "key ", key, " is found with value ", v, " but is not in the map; ", hist);
    else REQUIRE(s && v == it->second, "key ", key, s ? cat(" maps to ", v) : cat(" is missing"), ", expected ", it->second, "; ", hist);
  };
  if (only != kMax64) one(only);
  else for (u64 key : k.some) one(key);
}

template <class H>
static void history(Case& c, H h, unsigned vbits, const Keys& k, size_t steps, size_t every) {
  Model m;
  std::string hist;
  auto note = [&](const std::string& s) { if (hist.size() < 2500) hist += s; };
  size_t b0 = h.bucket(), grown = 0, shrunk = 0, erased = 0, revived = 0, emptied = 0;
  std::set<u64> gone;
  // phases with their own mix of operations, so that tables fill up, drain and churn
  size_t left = 0, mix = 0;
  for (size_t s = 0; s < steps; s++) {
    if (!left) { left = c.range(1, 1 + steps / 3); mix = c.below(4); }
    left--;
    static const unsigned W[4][2] = {{9, 1}, {3, 6}, {1, 1}, {1, 9}};
    u64 key = key_of(c, k);
    bool drain = mix == 3;
    switch (c.weighted({W[mix][0], W[mix][1], c.chance(1, 8) ? 1u : 0u})) {
      case 0: {
        u64 v = c.coin() ? c.bits(vbits) : c.edgy(0, vbits >= 64 ? kMax64 : (u64(1) << vbits) - 1);
        if (gone.count(key)) revived++;
        h.set(key, v);
        m[key] = v;
        note(cat("set ", key, "=", v, "; "));
        break;
      }
      case 1: {
        if (drain && !m.empty() && c.coin()) { auto it = m.lower_bound(key); if (it == m.end()) it = m.begin(); key = it->first; }
        if (m.erase(key)) { erased++; gone.insert(key); if (m.empty()) emptied++; }
        h.erase(key);
        note(cat("erase ", key, "; "));
        break;
      }
      default:
        switch (c.below(3)) {
          case 0: { size_t n = c.edgy(0, 200); h.reserve(n); note(cat("reserve ", n, "; ")); break; }
          case 1: { H g(h); h = g; note("copy; "); break; }
          default: { H g(h); g.set(key, 0); g.erase(key_of(c, k)); note("copy aside; "); }
        }
    }
    if (h.bucket() > b0) grown++;
    if (h.bucket() < b0) shrunk++;
    b0 = h.bucket();
    if (s % every == 0) agree(h, m, k, hist); else agree(h, m, k, hist, key);
  }
  agree(h, m, k, hist);
  NOTE(c, "key bits ", k.bits, " value bits ", vbits, " keys ", show(k.some), " ", hist);
  c.nontrivial(grown && erased && revived);
  c.label_if(grown > 2, "grew more than twice");
  c.label_if(shrunk, "shrank");
  c.label_if(emptied, "drained empty");
  c.label_if(revived, "set again after erase");
  c.label_if(m.size() > 200, "over 200 live keys");
}

static Keys keys(Case& c, size_t cap) {
  Keys k;
  size_t n = c.size(8, 60, cap);
  if (!n) n = 1;
  if (c.coin()) {  // every key of a small universe
    k.bits = 1;
    while ((u64(1) << k.bits) < n) k.bits++;
    if (c.coin()) k.bits = std::min<unsigned>(60, k.bits + (unsigned)c.below(10));
    for (u64 i = 0; i < std::min<u64>(n, u64(1) << k.bits); i++) k.some.push_back(i);
  } else {
    k.bits = (unsigned)c.edgy(1, 60);
    u64 top = (u64(1) << k.bits) - 1;
    auto r = c.bulk();
    std::set<u64> s;
    u64 base = r.bits(k.bits);
    size_t mode = r.below(3);
    for (size_t i = 0; i < n; i++) s.insert(mode == 0 ? r.bits(k.bits) : mode == 1 ? (base + i) & top : (base + (i << (k.bits / 2))) & top);
    k.some.assign(s.begin(), s.end());
  }
  return k;
}

template <class F> static void with_table(Case& c, const Keys& k, F f) {
  size_t b = size_t(1) << (c.coin() ? 3 : c.range(0, 6));
  switch (c.below(9)) {
    case 0: f(CHT<20>(k.bits, b), 20); break;
    case 1: f(CHT<64>(k.bits, b), 64); break;
    case 2: f(CHT<1>(k.bits, b), 1); break;
    case 3: { unsigned w = (unsigned)c.edgy(1, 64); CHT<0> h(k.bits, b); h.set_value_width(w); f(std::move(h), w); break; }
    case 4: f(CHT<13, 90>(k.bits, b), 13); break;
    case 5: f(CHT<33, 99>(k.bits, b), 33); break;
    case 6: f(CHT<7, 10>(k.bits, b), 7); break;
    case 7: f(CHT<40, 75, StayHash>(k.bits, b), 40); break;
    default: f(CHT<9, 90, FlipHash>(k.bits, b), 9);
  }
}

LAW(behaves_as_a_map, 12000, 150000) {
  Keys k = keys(c, 250);
  with_table(c, k, [&](auto h, unsigned w) { history(c, std::move(h), w, k, c.size(30, 150, 500), k.some.size() > 64 ? 16 : 1); });
}

// an empty table, every load factor: fill one key at a time, then drain it
template <unsigned P> static void fill_and_drain(Case& c) {
  Keys k = keys(c, 120);
  CHT<16, P> h(k.bits, size_t(1) << c.range(0, 5));
  Model m;
  std::string hist = cat("load factor ", P, " keys ", show(k.some));
  NOTE(c, hist);
  c.nontrivial(k.some.size() > 8);
  for (int round = 0; round < 2; round++) {
    for (u64 key : k.some) { u64 v = c.bits(16); h.set(key, v); m[key] = v; agree(h, m, k, hist, key); }
    agree(h, m, k, hist);
    for (u64 key : k.some) { h.erase(key); m.erase(key); agree(h, m, k, hist, key); }
    agree(h, m, k, hist);
  }
}
LAW(fills_and_drains_at_any_load_factor, 6000, 60000) {
  switch (c.below(9)) {
    case 0: fill_and_drain<2>(c); break;
    case 1: fill_and_drain<5>(c); break;
    case 2: fill_and_drain<12>(c); break;
    case 3: fill_and_drain<25>(c); break;
    case 4: fill_and_drain<50>(c); break;
    case 5: fill_and_drain<66>(c); break;
    case 6: fill_and_drain<80>(c); break;
    case 7: fill_and_drain<95>(c); break;
    default: fill_and_drain<99>(c);
  }
}

LAW(large_maps, 64, 800) {
  unsigned bits = (unsigned)c.range(14, 60);
  auto r = c.bulk();
  CHT<30> h(bits);
  std::unordered_map<u64, u64> m;
  size_t n = c.size(20000, 60000, 200000), erased = 0;
  std::vector<u64> pool(std::min<size_t>(n / 2 + 1, (size_t(1) << bits)));
  for (auto& x : pool) x = r.bits(bits);
  for (size_t i = 0; i < n; i++) {
    u64 key = pool[r.below(pool.size())], v = r.bits(30);
    if (r.below(3)) { h.set(key, v); m[key] = v; } else { erased += m.erase(key); h.erase(key); }
    u64 q = pool[r.below(pool.size())];
    auto [s, g] = h.get(q);
    auto it = m.find(q);
    REQUIRE(s == (it != m.end()) && (!s || g == it->second), "key ", q, " after ", i, " steps");
  }
  REQUIRE(h.size() == m.size(), "size ", h.size(), " expected ", m.size());
  for (u64 q : pool) { auto [s, g] = h.get(q); auto it = m.find(q); REQUIRE(s == (it != m.end()) && (!s || g == it->second), "key ", q, " at the end"); }
  NOTE(c, n, " steps over ", pool.size(), " keys of ", bits, " bits");
  c.nontrivial(erased > 0);
}
LAW_FULL(value_width_rules, 1, 1, 1, false) {
  auto refused = [](auto f) { try { f(); } catch (std::bad_function_call&) { return true; } return false; };
  CHT<5> a(8);
  REQUIRE(refused([&] { a.set_value_width(9); }), "a fixed value width can be changed");
  CHT<0> b(8);
  b.set_value_width(9);
  b.set(3, 511);
  REQUIRE(b.get(3) == std::make_pair(true, uint64_t(511)), "value");
  REQUIRE(refused([&] { b.set_value_width(10); }), "the value width changes under a stored value");
  REQUIRE(b.get(3) == std::make_pair(true, uint64_t(511)), "value after refusal");
  c.nontrivial();
  NOTE(c, "fixed / free / used tables");
}
// tables of millions of places
LAW_HUGE(millions_of_keys, 6, 30) {
  pbt::MoreMemory more(6000);
  auto r = c.bulk();
  unsigned e = 17 + (unsigned)c.below(c.thorough() ? 7 : 5), bits = (unsigned)c.range(e + 2, 60);
  size_t n = (size_t(1) << e) + r.below(size_t(1) << e);
  const u64 mask = (u64(1) << bits) - 1, mul = r.next() | 1;
  bool dense = c.coin();
  auto key = [&](u64 i) { return dense ? i : i * mul & mask; };            // odd factors permute the keys
  auto val = [&](u64 i, u64 turn) { return (i * 31 + turn * 7) & 0x3ffffff; };
  std::vector<uint8_t> turn(n);                                            // 0: not there
  CHT<26> h(bits, size_t(1) << (c.coin() ? 3 : c.range(0, 24)));
  size_t alive = 0;
  for (size_t i = 0; i < n; i++) { h.set(key(i), val(i, 1)); turn[i] = 1; alive++; }
  NOTE(c, n, " keys of ", bits, " bits", dense ? ", in a row" : "");
  c.nontrivial();
  auto ask = [&](size_t i, const char* when) {
    auto [s, g] = h.get(key(i));
    REQUIRE(s == (turn[i] != 0) && (!s || g == val(i, turn[i])), "key ", key(i), " (", i, " of ", n, ") ", when, ": ", s ? "found" : "not found", " with ", g);
  };
  for (size_t i = 0; i < n; i++) ask(i, "after insertion");
  for (size_t k = 0; k < n; k++) {
    size_t i = r.below(n);
    if (r.below(2)) { h.erase(key(i)); alive -= turn[i] != 0; turn[i] = 0; }
    else { alive += turn[i] == 0; turn[i] = (uint8_t)(2 + k % 250); h.set(key(i), val(i, turn[i])); }
    ask(i, "after its change");
    ask(r.below(n), "after another change");
  }
  REQUIRE(h.size() == alive, "size ", h.size(), " expected ", alive);
  for (size_t i = 0; i < n; i++) ask(i, "at the end");
  for (size_t i = 0; i < 1000; i++) REQUIRE(!h.get(key(n + i)).first, "key ", key(n + i), " was never there");
}
