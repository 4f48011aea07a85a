// variants: rel asan dbg
// scale: 12 15
// rule: heaps (both directions) made from nothing, vectors and ranges, then histories of push / pop / raising and
//   lowering elements in place, against a multiset; after every step the front is the extreme, the shape is a
//   heap and the contents are the multiset; non-trivial = at least one push onto, and one pop from, a heap of >= 3
#include "common.hpp"
#include "sim_ds/Heap.hpp"
using namespace sim_ds;

static std::vector<u64> values(Case& c, size_t small, size_t mid, size_t big) { return gen_values<u64>(c, c.size(small, mid, big), (unsigned)(c.coin() ? c.range(1, 5) : c.edgy(1, 64))); }

template <bool Asc>
static void agree(const Heap<Asc>& h, const std::multiset<u64>& m, const std::string& hist, bool full) {
  REQUIRE(h.size() == m.size(), "size ", h.size(), " expected ", m.size(), "; ", hist);
  if (m.empty()) return;
  u64 e = Asc ? *m.begin() : *m.rbegin();
  REQUIRE(h.front() == e, "front ", h.front(), " but the extreme of the ", m.size(), " elements is ", e, "; ", hist);
  REQUIRE(h.value(h.root()) == e, "root value");
  if (!full) return;
  std::multiset<u64> got;
  for (size_t i = 1; i <= h.size(); i++) {
    got.insert(h.value(i));
    if (i > 1) {
      u64 p = h.value(h.parent(i)), x = h.value(i);
      REQUIRE(Asc ? p <= x : p >= x, "node ", i, " (", x, ") outranks its parent (", p, "); ", hist);
    }
    if (!h.is_leaf(i)) REQUIRE(h.left(i) <= h.size() && h.parent(h.left(i)) == i && h.parent(h.right(i)) == i, "shape at ", i);
  }
  REQUIRE(got == m, "the heap no longer holds the elements put in; ", hist);
}

template <bool Asc> static void history(Case& c) {
  auto v = values(c, 8, 100, 600);
  std::multiset<u64> m(v.begin(), v.end());
  std::string hist = cat(Asc ? "min " : "max ", show(v), "; ");
  Heap<Asc> h;
  switch (c.below(4)) {
    case 0: h = Heap<Asc>(v); break;
    case 1: h = Heap<Asc>(v.begin(), v.end()); break;
    case 2: h = Heap<Asc>(v.data(), v.data() + v.size()); break;
    default: for (u64 x : v) h.push(x);
  }
  agree(h, m, hist, true);
  size_t steps = c.size(20, 80, 300), big_push = 0, big_pop = 0, raise = c.below(3);
  unsigned w = (unsigned)(c.coin() ? c.range(1, 5) : c.edgy(1, 64));
  for (size_t s = 0; s < steps; s++) {
    switch (c.weighted({raise == 0 ? 6u : 3u, raise == 1 ? 6u : 3u, 1})) {
      case 0: { u64 x = c.bits(w); big_push += m.size() >= 3; h.push(x); m.insert(x); if (hist.size() < 1500) hist += cat("push ", x, "; "); break; }
      case 1:
        if (m.empty()) break;
        big_pop += m.size() >= 3;
        h.pop();
        m.erase(Asc ? m.begin() : std::prev(m.end()));
        if (hist.size() < 1500) hist += "pop; ";
        break;
      default: {  // push an element down: worsen it in place, then restore the heap from there
        if (m.empty()) break;
        size_t i = 1 + c.below(m.size());
        u64 x = h.value(i), y = Asc ? c.edgy(x, kMax64) : c.edgy(0, x);
        h.value_reference(i) = y;
        h.Heapify(i);
        m.erase(m.find(x));
        m.insert(y);
        if (hist.size() < 1500) hist += cat("worsen ", i, " to ", y, "; ");
      }
    }
    agree(h, m, hist, m.size() < 50 || s % 16 == 0);
  }
  NOTE(c, hist);
  c.nontrivial(big_push && big_pop);
  c.label_if(v.empty(), "from nothing");
  c.label_if(m.size() > 100, "over 100 elements left");
  Heap<Asc> g(h);
  std::multiset<u64> n = m;
  while (!n.empty()) { agree(g, n, hist, false); g.pop(); n.erase(Asc ? n.begin() : std::prev(n.end())); }
  REQUIRE(g.size() == 0, "drained heap has size ", g.size());
  agree(h, m, hist, true);
}
LAW(priority_queue_histories, 16000, 200000) { if (c.coin()) history<true>(c); else history<false>(c); }

template <bool Asc> static void drain(Case& c) {
  auto v = values(c, 2000, 20000, 100000);
  Heap<Asc> h;
  bool build = c.coin();
  if (build) h = Heap<Asc>(v); else for (u64 x : v) h.push(x);
  auto s = v;
  std::sort(s.begin(), s.end());
  if (!Asc) std::reverse(s.begin(), s.end());
  NOTE(c, build ? "built " : "pushed ", show(v));
  c.nontrivial(v.size() > 3);
  for (u64 x : s) { REQUIRE(h.size() > 0 && h.front() == x, "pop order: ", h.front(), " instead of ", x); h.pop(); }
  REQUIRE(h.size() == 0, "left over");
}
LAW(drains_in_order, 100, 1500) { if (c.coin()) drain<true>(c); else drain<false>(c); }

// every arrangement of up to 7 elements with and without ties, built and pushed
LAW_ENUM(every_small_arrangement, 4 * 5040) {
  u64 k = c.enum_index(4 * 5040), way = k / 5040, p = k % 5040;
  std::vector<u64> e = {0, 1, 2, 3, 4, 5, 6}, v;
  for (int i = 7; i > 0; i--) { v.push_back(e[p % i]); e.erase(e.begin() + p % i); p /= i; }
  if (way & 1) for (auto& x : v) x /= 2;
  NOTE(c, show(v));
  c.nontrivial();
  auto go = [&](auto tag) {
    constexpr bool Asc = decltype(tag)::value;
    Heap<Asc> h;
    if (way & 2) for (u64 x : v) h.push(x); else h = Heap<Asc>(v);
    std::multiset<u64> m(v.begin(), v.end());
    while (!m.empty()) { agree(h, m, show(v), true); h.pop(); m.erase(Asc ? m.begin() : std::prev(m.end())); }
  };
  go(std::true_type());
  go(std::false_type());
}

// more elements than 16, 20, 24 bits count
template <bool Asc> static void many(Case& c) {
  unsigned e = 17 + (unsigned)c.below(c.thorough() ? 9 : 6);
  size_t n = (size_t(1) << e) + c.below(size_t(1) << e);
  auto r = c.bulk();
  unsigned w = c.coin() ? 64 : (unsigned)r.range(1, 40);
  std::vector<u64> v(n);
  switch (c.below(3)) {
    case 0: for (auto& x : v) x = r.bits(w); break;
    case 1: for (size_t i = 0; i < n; i++) v[i] = Asc ? n - i : i; break;  // every element has to rise
    default: for (auto& x : v) x = 1000; for (int k = 0; k < 300; k++) v[n - 1 - r.below(n / 2)] = r.below(2000);
  }
  bool build = c.weighted({2, 1}) == 0;
  NOTE(c, build ? "built " : "pushed ", n, " elements, ", Asc ? "min" : "max");
  c.nontrivial();
  Heap<Asc> h;
  if (!build) for (u64 x : v) h.push(x);
  else if (c.coin()) h = Heap<Asc>(v);
  else h = Heap<Asc>(v.begin(), v.end());
  std::sort(v.begin(), v.end());
  if (!Asc) std::reverse(v.begin(), v.end());
  REQUIRE(h.size() == n, "size ", h.size());
  for (size_t i = 2; i <= n; i++) REQUIRE(Asc ? h.value(i / 2) <= h.value(i) : h.value(i / 2) >= h.value(i), "node ", i, " of ", n, " outranks its parent");
  size_t pops = std::min<size_t>(n, 1500000);
  for (size_t i = 0; i < pops; i++) { REQUIRE(h.front() == v[i], "pop ", i, " of ", n, ": ", h.front(), " instead of ", v[i]); h.pop(); }
  std::vector<u64> rest;
  for (size_t i = 1; i <= h.size(); i++) rest.push_back(h.value(i));
  std::sort(rest.begin(), rest.end());
  if (!Asc) std::reverse(rest.begin(), rest.end());
  REQUIRE(std::equal(rest.begin(), rest.end(), v.begin() + pops, v.end()), "the rest differs after ", pops, " pops of ", n);
}
LAW_HUGE(many_elements, 12, 60) { if (c.coin()) many<true>(c); else many<false>(c); }
