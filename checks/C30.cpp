// variants: rel asan dbg
// scale: 20 30
// rule: one operation (make, copy, assign, change, look) on an object of one of 31 classes or the free functions, run again and
//   again with its 1st, 2nd, 3rd... allocation failing, alone or with all after it (all of them up to 24, else 24 spread over it); non-trivial = at
//   least one of the failures was reported by an exception
#include <cerrno>
#include <stdlib.h>
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
// ---------------------------------------------------------------- allocation with faults
static thread_local long g_live, g_until = -1;  // blocks in use; allocations until one fails
static thread_local unsigned long g_asked;      // allocations asked for while faults are possible
static thread_local bool g_for_good;            // once one has failed, so do the others
static bool refused();
static void* obtain(size_t n, size_t align) {
  if (refused()) return nullptr;
  void* p = nullptr;
  if (align <= alignof(std::max_align_t)) p = std::malloc(n ? n : 1);
  else p = std::aligned_alloc(align, (n + align - 1) / align * align + (n ? 0 : align));
  if (p) g_live++;
  return p;
}
static void release(void* p) noexcept { if (p) { g_live--; std::free(p); } }
void* operator new(size_t n) { if (void* p = obtain(n, 0)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, std::align_val_t a) { if (void* p = obtain(n, (size_t)a)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (void* p = obtain(n, 0)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n, std::align_val_t a) { if (void* p = obtain(n, (size_t)a)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return obtain(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return obtain(n, 0); }
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
static inline int faulty_posix_memalign(void** p, size_t a, size_t n) { *p = obtain(n, a); return *p ? 0 : ENOMEM; }
static inline void faulty_free(void* p) { release(p); }
#include <boost/config.hpp>
#include <boost/assert.hpp>
// aligned vectors get their memory through boost
#define posix_memalign faulty_posix_memalign
#define free faulty_free
#include <boost/align/aligned_alloc.hpp>
#undef posix_memalign
#undef free
#include <boost/align/aligned_allocator.hpp>
#include "kinds.hpp"
using namespace kinds;
static bool refused() {
  if (g_until < 0 || g_calm) return false;
  g_asked++;
  if (g_until == 0) return g_for_good;
  return --g_until == 0;
}
// 0 while armed and spent; -1 = off; a huge number = count only
struct Faults {
  Faults(long at, bool for_good = false) { g_asked = 0; g_until = at; g_for_good = for_good; }
  ~Faults() { g_until = -1; }
};

template <class K> struct Scene {
  using T = typename K::T;
  std::unique_ptr<T> a, b, fresh, made;
  Obs oa, ob, of, after;  // after: what the object worked on, or the looker, shows
};
template <class K> static void one(Case& c) {
  using T = typename K::T;
  Silent quiet;
  u64 seed = c.bits(32);
  size_t na = c.size(2, 12, 50), nb = c.size(2, 12, 50), op = c.below(6), warm = c.below(3);
  bool for_good = c.chance(1, 3);
  static const char* const kOps[] = {"make", "copy", "copy assignment", "change", "look", "move assignment of a copy"};
  std::string h = cat(K::name, ": ", kOps[op], ", sizes ", na, " and ", nb, for_good ? ", no memory from then on" : "");
  NOTE(c, h);
  c.label(kOps[op]);
  auto stage = [&](Scene<K>& s) {
    Rnd r(seed);
    s.a = std::make_unique<T>(K::make(r, na));
    for (size_t i = 0; i < warm; i++) K::change(*s.a, r);
    s.b = std::make_unique<T>(K::make(r, nb));
    s.fresh = std::make_unique<T>(K::make(r, nb / 2 + 1));
    s.oa = seen<K>(*s.a); s.ob = seen<K>(*s.b); s.of = seen<K>(*s.fresh);
  };
  auto act = [&](Scene<K>& s) {
    Rnd r(seed + 1);
    switch (op) {
      case 0: s.made = std::make_unique<T>(K::make(r, na)); break;
      case 1: s.made = std::make_unique<T>(static_cast<const T&>(*s.a)); break;
      case 2: *s.a = static_cast<const T&>(*s.b); break;
      case 3: K::change(*s.a, r); break;
      case 4: s.after = seen<K>(*s.a); break;
      default: { T t(static_cast<const T&>(*s.b)); *s.a = std::move(t); }
    }
  };
  auto result = [&](Scene<K>& s) { if (op != 4) s.after = seen<K>(op < 2 ? *s.made : *s.a); };
  // as it goes with memory enough, and how often it asks for some
  unsigned long asked;
  Obs expected;
  {
    Scene<K> s;
    stage(s);
    { Faults f(1l << 60); act(s); asked = g_asked; }
    result(s);
    expected = s.after;
  }
  size_t reported = 0;
  auto run = [&](long at) {
    Scene<K> s;
    stage(s);
    bool thrown = false;
    std::string other;
    {
      Faults f(at, for_good);
      try { act(s); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::exception& e) { g_until = -1; other = cat("std::exception ", e.what()); } catch (...) { g_until = -1; other = "something"; }
    }
    REQUIRE(other.empty(), h, ": allocation ", at, " failed, and ", other, " was thrown");
    if (!thrown) {  // done without it
      result(s);
      auto d = differs(s.after, expected);
      REQUIRE(d.empty(), h, ": allocation ", at, " of ", asked, " failed, no exception was thrown, and ", d);
    } else {
      reported++;
    }
    auto d = differs(seen<K>(*s.b), s.ob);
    REQUIRE(d.empty(), h, ": allocation ", at, " failed, and another object: ", d);
    d = differs(seen<K>(*s.fresh), s.of);
    REQUIRE(d.empty(), h, ": allocation ", at, " failed, and a third object: ", d);
    if (op < 2 || op == 4) { d = differs(seen<K>(*s.a), s.oa); REQUIRE(d.empty(), h, ": allocation ", at, " failed, and the object only read: ", d); }
    if (thrown) {
      if (op < 2 || op == 4) {  // once more, with memory
        act(s);
        result(s);
        d = differs(s.after, expected);
        REQUIRE(d.empty(), h, " once more after allocation ", at, " failed: ", d);
      }
      // the object can be given a new value, and goes on with it like any other
      if (seed & 1) *s.a = static_cast<const T&>(*s.fresh); else { T t(static_cast<const T&>(*s.fresh)); *s.a = std::move(t); }
      d = differs(seen<K>(*s.a), s.of);
      REQUIRE(d.empty(), h, ": assigned to after allocation ", at, " failed: ", d);
      Rnd r1(seed + 2), r2(seed + 2);
      for (int i = 0; i < 3; i++) { K::change(*s.a, r1); K::change(*s.fresh, r2); }
      d = differs(seen<K>(*s.a), seen<K>(*s.fresh));
      REQUIRE(d.empty(), h, ": assigned to and changed after allocation ", at, " failed: ", d);
    }
  };
  constexpr unsigned long kTry = 24;
  for (unsigned long k = 0; k < std::min(asked, kTry); k++) {
    long at = asked <= kTry ? (long)k + 1 : (long)(1 + k * (asked - 1) / (kTry - 1));
    long before = g_live;
    run(at);
    if (g_live != before) {  // more each time?
      size_t grown = 0;
      for (int i = 0; i < 5; i++) { before = g_live; run(at); grown += g_live > before; }
      REQUIRE(grown < 5, h, ": blocks of memory stay in use each time allocation ", at, " of ", asked, " fails");
    }
  }
  c.label_if(for_good, "every later allocation fails too");
  c.label_if(asked > kTry, "more than 24 allocations");
  c.label_if(asked == 0, "no allocation");
  c.nontrivial(reported > 0);
}
LAW(memory_runs_out, 1200, 16000) { with_kind(c.below(kKinds), [&](auto k) { one<decltype(k)>(c); }); }
