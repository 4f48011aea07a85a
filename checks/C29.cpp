// variants: rel asan dbg clang
// scale: 30 40
// rule: pools of up to eight objects of one class (31 classes), made, copied, moved, assigned (to themselves too), swapped,
//   changed, destroyed, kept in growing and shuffled vectors; after every step every object must show what it did
//   before; non-trivial = an object outlives a changed or destroyed copy of it, or a move
#include "kinds.hpp"
using namespace kinds;

template <class K> static void pool(Case& c) {
  using T = typename K::T;
  Silent quiet;
  struct Slot { std::unique_ptr<T> t; Obs o; };
  std::vector<Slot> s;
  std::string h = K::name;
  h += ":";
  size_t meaty = 0, copies = 0;
  auto all = [&](const char* after) {
    for (size_t i = 0; i < s.size(); i++) { auto d = differs(seen<K>(*s[i].t), s[i].o); REQUIRE(d.empty(), "object ", i, " after ", after, ": ", d, "; ", h); }
  };
  auto fresh = [&] {
    Rnd r(c.bits(32));
    size_t n = c.size(3, 20, 60);
    Slot x;
    x.t = std::make_unique<T>(K::make(r, n));
    x.o = seen<K>(*x.t);
    return x;
  };
  auto any = [&] { return (size_t)c.below(s.size()); };
  s.push_back(fresh());
  size_t steps = c.size(6, 14, 30);
  for (size_t k = 0; k < steps; k++) {
    const char* what = "";
    switch (s.empty() ? 0 : c.weighted({3, 4, 3, 2, 3, 2, 5, 3, 2, 2})) {
      case 0: what = "make"; if (s.size() < 8) s.push_back(fresh()); break;
      case 1: {
        what = "copy";
        if (s.size() >= 8) break;
        size_t i = any();
        h += cat(" copy ", i);
        s.push_back({std::make_unique<T>(static_cast<const T&>(*s[i].t)), s[i].o});
        copies++;
        break;
      }
      case 2: {
        what = "copy assignment";
        size_t i = any(), j = any();
        h += cat(" ", i, "=", j);
        const T& from = *s[j].t;
        *s[i].t = from;
        s[i].o = s[j].o;
        copies++;
        break;
      }
      case 3: {
        what = "move construction";
        size_t i = any();
        h += cat(" move ", i);
        auto m = std::make_unique<T>(std::move(*s[i].t));
        if (c.coin()) s[i].t = std::move(m);  // the source is destroyed
        else {                                // the source is given a new content, the target kept
          auto f = fresh();
          *s[i].t = *f.t;
          if (s.size() < 8) s.push_back({std::move(m), std::move(s[i].o)});
          s[i].o = std::move(f.o);
        }
        meaty++;
        break;
      }
      case 4: {
        what = "move assignment";
        size_t i = any(), j = any();
        if (i == j) break;
        h += cat(" ", i, "=move ", j);
        *s[i].t = std::move(*s[j].t);
        s[i].o = std::move(s[j].o);
        s.erase(s.begin() + j);
        meaty++;
        break;
      }
      case 5: {
        what = "swap";
        size_t i = any(), j = any();
        h += cat(" swap ", i, " ", j);
        using std::swap;
        swap(*s[i].t, *s[j].t);
        std::swap(s[i].o, s[j].o);
        meaty += i != j;
        break;
      }
      case 6: {
        what = "change";
        size_t i = any();
        u64 seed = c.bits(32);
        h += cat(" change ", i);
        T twin(*s[i].t);
        Rnd a(seed), b(seed);
        K::change(*s[i].t, a);
        s[i].o = seen<K>(*s[i].t);
        K::change(twin, b);
        auto d = differs(seen<K>(twin), s[i].o);
        REQUIRE(d.empty(), "a copy changed in the same way as object ", i, ": ", d, "; ", h);
        meaty += copies > 0;
        break;
      }
      case 7: { what = "destroy"; size_t i = any(); h += cat(" drop ", i); s.erase(s.begin() + i); meaty += copies > 0; break; }
      case 8: {
        what = "a vector of them";
        std::vector<T> v;
        std::vector<const Obs*> o;
        for (size_t q = 0, n = c.range(1, 9); q < n; q++) {
          size_t i = any();
          if (c.chance(2, 3)) { v.push_back(*s[i].t); o.push_back(&s[i].o); }
          else { size_t at = c.below(v.size() + 1); v.insert(v.begin() + at, *s[i].t); o.insert(o.begin() + at, &s[i].o); }
        }
        if (c.coin()) { size_t at = c.below(v.size()); v.erase(v.begin() + at); o.erase(o.begin() + at); }
        if (!v.empty() && c.coin()) { size_t at = c.below(v.size()); std::rotate(v.begin(), v.begin() + at, v.end()); std::rotate(o.begin(), o.begin() + at, o.end()); }
        std::vector<T> w(v);
        v.insert(v.end(), w.begin(), w.end());
        auto oo = o;
        o.insert(o.end(), oo.begin(), oo.end());
        h += cat(" vector of ", v.size());
        for (size_t i = 0; i < v.size(); i++) { auto d = differs(seen<K>(v[i]), *o[i]); REQUIRE(d.empty(), "element ", i, " of a vector of them: ", d, "; ", h); }
        if (c.coin() && !v.empty()) { *s[0].t = v.back(); s[0].o = Obs(*o.back()); }
        meaty++;
        break;
      }
      default: {
        what = "passing by value";
        size_t i = any();
        h += cat(" pass ", i);
        auto through = [&](T t) { u64 seed = c.bits(32); Rnd r(seed); T u = t; K::change(t, r); auto d = differs(seen<K>(u), s[i].o); REQUIRE(d.empty(), "a copy of a passed object: ", d, "; ", h); return u; };
        T t = through(*s[i].t);
        auto d = differs(seen<K>(t), s[i].o);
        REQUIRE(d.empty(), "a returned object: ", d, "; ", h);
        if (c.coin()) *s[i].t = through(std::move(t));
        meaty++;
      }
    }
    all(what);
  }
  NOTE(c, h);
  c.nontrivial(meaty > 0);
  c.label(K::name);
}
LAW(pools_of_objects, 30000, 300000) { with_kind(c.below(kKinds), [&](auto k) { pool<decltype(k)>(c); }); }

// an object made without arguments is a legal one: it can be looked at, copied, and assigned to
template <class K> static void plain(Case& c) {
  using T = typename K::T;
  Silent quiet;
  if constexpr (std::is_default_constructible_v<T> && !std::is_same_v<K, OfCht>) {
    T a, b;
    Obs o = seen<K>(a);
    auto d = differs(seen<K>(b), o);
    REQUIRE(d.empty(), K::name, ": two default constructed objects differ: ", d);
    Rnd r(c.bits(32));
    T full = K::make(r, c.size(3, 20, 60));
    Obs of = seen<K>(full);
    T copy(a);
    switch (c.below(4)) { case 0: a = full; break; case 1: a = T(full); break; case 2: { T t(full); std::swap(a, t); d = differs(seen<K>(t), o); REQUIRE(d.empty(), K::name, ": a default constructed object swapped: ", d); break; } default: { T t; t = b; a = std::move(t); a = full; } }
    d = differs(seen<K>(a), of);
    REQUIRE(d.empty(), K::name, ": assigned to a default constructed object: ", d);
    full = b;
    d = differs(seen<K>(full), o);
    REQUIRE(d.empty(), K::name, ": a default constructed object assigned: ", d);
    d = differs(seen<K>(copy), o);
    REQUIRE(d.empty(), K::name, ": the copy of a default constructed object: ", d);
    u64 seed = c.bits(32);
    Rnd r1(seed), r2(seed);
    K::change(copy, r1); K::change(full, r2);
    d = differs(seen<K>(copy), seen<K>(full));
    REQUIRE(d.empty(), K::name, ": default constructed objects changed alike: ", d);
    NOTE(c, K::name, " ", of.size(), " values");
    c.nontrivial(of.size() > 3);
    c.label(K::name);
  }
}
LAW(objects_made_without_arguments, 6000, 60000) { with_kind(c.below(kKinds), [&](auto k) { plain<decltype(k)>(c); }); }
