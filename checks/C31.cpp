// variants: rel
// parts: plain none dbg O3 small uchar new popcnt avx2 avx512 clang clang-dbg clang-avx2
// scale: 20 40
// rule: an object of any of 31 classes (or the free functions), made, changed and asked in the same way by programs built
//   in 13 ways (g++ and clang++, -O0 to -O3, assertions on and off, C++17 to C++23, portable to AVX-512, plain char
//   signed and unsigned, fresh variables filled or not); what was stored by one is read by another, asked, and
//   changed on; all must show the same; non-trivial = two builds or more that differ and an object with contents
#include "kinds.hpp"
#include <map>
using namespace kinds;

// What is shared by the parts and the program: only bytes cross the border.
struct Job { u64 kind, seed, n, changes, changer, base; };
struct Sink { void* to; void (*seen)(void* to, const u64* p, u64 n); void (*stored)(void* to, const char* p, u64 n); };
// make the object of a job and show it
using MakeFn = int (*)(const Job*, const Sink*);
// read an object of the job's kind from bytes, show it, change it, show it again
using ReadFn = int (*)(const Job*, const char*, u64, const Sink*);

#ifdef PBT_PART
template <class K, class = void> struct Storing : std::false_type {};
template <class K> struct Storing<K, std::void_t<decltype(std::declval<const typename K::T&>().Write(std::declval<std::ostream&>()))>> : std::true_type {};
template <class K> static constexpr bool kStores = Storing<K>::value || std::is_same_v<K, OfMultiple>;
template <class K> static std::string store(const typename K::T& t) {
  std::ostringstream s;
  if constexpr (std::is_same_v<K, OfMultiple>) t.StoreTo(s); else t.Write(s);
  return s.str();
}
template <class K> static typename K::T load(std::istream& s) {
  if constexpr (std::is_same_v<K, OfFitVector>) return FitVector(s);
  else if constexpr (std::is_same_v<K, OfMultiple>) { MultipleVector t; t.LoadFrom(s); return t; }
  else { Rnd r(7); auto t = K::make(r, 3); t.Read(s); return t; }
}
template <class K> static void show(const typename K::T& t, const Sink& to) { Obs o = seen<K>(t); to.seen(to.to, o.data(), o.size()); }
template <class F> static int guarded(const Job& j, const Sink& to, F&& f) {
  Silent quiet;
  g_base = (unsigned)j.base;
  try { with_kind(j.kind, f); return 0; }
  catch (const std::exception& e) { std::string s = e.what(); to.stored(to.to, s.data(), s.size()); return 1; }
}
extern "C" __attribute__((visibility("default"))) int part_make(const Job* j, const Sink* to) {
  return guarded(*j, *to, [&](auto k) {
    using K = decltype(k);
    Rnd r(j->seed), q(j->changer);
    auto t = K::make(r, j->n);
    for (u64 i = 0; i < j->changes; i++) { K::change(t, q); if (i == j->changes / 2) show<K>(t, *to); }
    show<K>(t, *to);
    typename K::T copy(t), moved(std::move(t));
    show<K>(copy, *to);
    show<K>(moved, *to);
    if constexpr (kStores<K>) { auto s = store<K>(copy); to->stored(to->to, s.data(), s.size()); }
  });
}
extern "C" __attribute__((visibility("default"))) int part_read(const Job* j, const char* p, u64 n, const Sink* to) {
  return guarded(*j, *to, [&](auto k) {
    using K = decltype(k);
    if constexpr (kStores<K>) {
      std::istringstream s(std::string(p, n));
      auto t = load<K>(s);
      u64 left = n - (s.tellg() < 0 ? 0 : (u64)s.tellg());
      to->seen(to->to, &left, 1);
      show<K>(t, *to);
      Rnd q(j->changer + 1);
      for (u64 i = 0; i < j->changes; i++) K::change(t, q);
      show<K>(t, *to);
      auto b = store<K>(t);
      to->stored(to->to, b.data(), b.size());
    }
  });
}
#else
#include <dlfcn.h>
#include <cstdlib>
struct Part { std::string name; MakeFn make; ReadFn read; };
static const std::vector<Part>& parts() {
  static const std::vector<Part> all = [] {
    std::vector<Part> v;
    const char* e = getenv("PBT_PARTS");
    std::istringstream s(e ? e : "");
    for (std::string l; std::getline(s, l);) {
      auto at = l.find('=');
      if (at == std::string::npos) continue;
      void* h = dlopen(l.c_str() + at + 1, RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
      v.push_back({l.substr(0, at), (MakeFn)dlsym(h, "part_make"), (ReadFn)dlsym(h, "part_read")});
    }
    if (v.empty()) { fprintf(stderr, "PBT_PARTS is not set: run this by run.py\n"); _exit(3); }
    return v;
  }();
  return all;
}
static const bool loaded = !parts().empty();

struct Shown {
  Obs o;
  std::string bytes;
  int rc = 0;
  Sink sink() {
    return {this, [](void* to, const u64* p, u64 n) { auto& o = ((Shown*)to)->o; o.insert(o.end(), p, p + n); },
            [](void* to, const char* p, u64 n) { ((Shown*)to)->bytes.assign(p, n); }};
  }
};
static Shown made(const Part& p, const Job& j) { Shown s; Sink k = s.sink(); s.rc = p.make(&j, &k); return s; }
static Shown read(const Part& p, const Job& j, const std::string& b) { Shown s; Sink k = s.sink(); s.rc = p.read(&j, b.data(), b.size(), &k); return s; }
static std::string differs(const Shown& a, const Shown& b) {
  if (a.rc || b.rc) return a.rc == b.rc ? "" : cat("one of them threw ", a.rc ? a.bytes : b.bytes);
  auto d = kinds::differs(a.o, b.o);
  if (!d.empty()) return d;
  if (a.bytes == b.bytes) return "";
  for (size_t i = 0; i < a.bytes.size() && i < b.bytes.size(); i++) if (a.bytes[i] != b.bytes[i]) return cat("stored byte ", i, " of ", a.bytes.size(), " is ", (int)(u8)a.bytes[i], " instead of ", (int)(u8)b.bytes[i]);
  return cat("it stores ", a.bytes.size(), " bytes instead of ", b.bytes.size());
}
static void built_in_many_ways(Case& c) {
  const auto& ps = parts();
  Job j;
  j.kind = c.below(kKinds);
  j.seed = c.bits(32);
  j.n = c.size(4, 60, 400);
  j.changes = c.below(12);
  j.changer = c.bits(32);
  j.base = kBases[c.below(3)];
  const char* name = "";
  with_kind(j.kind, [&](auto k) { name = decltype(k)::name; });
  size_t a = c.below(ps.size());
  NOTE(c, name, " size ", j.n, ", ", j.changes, " changes, alphabet from ", j.base, ", written by ", ps[a].name);
  Shown first = made(ps[a], j);
  REQUIRE(!first.rc, name, " built as ", ps[a].name, " threw ", first.bytes);
  // two more of the builds, and now and then all of them
  std::vector<size_t> who;
  if (c.chance(1, 8)) for (size_t i = 0; i < ps.size(); i++) who.push_back(i);
  else { who.push_back(c.below(ps.size())); who.push_back(c.below(ps.size())); }
  for (size_t i : who) {
    auto d = differs(made(ps[i], j), first);
    REQUIRE(d.empty(), name, " built as ", ps[i].name, " and as ", ps[a].name, ": ", d);
  }
  if (!first.bytes.empty()) {
    Shown own = read(ps[a], j, first.bytes);
    REQUIRE(!own.rc, name, " built as ", ps[a].name, " threw ", own.bytes, " reading what it wrote");
    for (size_t i : who) {
      auto d = differs(read(ps[i], j, first.bytes), own);
      REQUIRE(d.empty(), name, " written by a program built as ", ps[a].name, " and read by one built as ", ps[i].name, ": ", d);
    }
    c.label("read by another build");
  }
  c.label(name);
  c.nontrivial(first.o.size() > 4 && (who[0] != a || who.back() != a));
}
LAW(built_in_many_ways, 12000, 120000) { built_in_many_ways(c); }
#endif
