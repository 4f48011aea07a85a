// variants: tsan rel asan
// scale: 20 40
// flags: -pthread -DPBT_RACY
// rule: an object of any of 31 classes (or the free functions) with generated contents, asked everything by two to four
//   threads at once through const access while others copy it; threads that make, change, copy and ask objects of
//   their own at once; every thread must see what one thread alone sees on an equal object, without a data race
//   (thread sanitizer); non-trivial = at least two threads on an object with contents
#include <atomic>
#include <thread>
#include "kinds.hpp"
using namespace kinds;

// runs f(0) .. f(n-1) at once
template <class F> static void together(size_t n, F&& f) {
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  std::vector<std::exception_ptr> err(n);
  auto body = [&](size_t i) {
    ready.fetch_add(1, std::memory_order_relaxed);
    for (int spin = 0; ready.load(std::memory_order_relaxed) < n; spin++) if (spin > 200) std::this_thread::yield();
    try { f(i); } catch (...) { err[i] = std::current_exception(); }
  };
  try {
    for (size_t i = 0; i < n; i++) ts.emplace_back(body, i);
  } catch (const std::system_error&) {  // no more threads to be had
    ready += n;
    for (auto& t : ts) t.join();
    throw pbt::Discard();
  }
  for (auto& t : ts) t.join();
  for (auto& e : err) if (e) std::rethrow_exception(e);
}

template <class K> static void readers(Case& c) {
  using T = typename K::T;
  Silent quiet;
  u64 seed = c.bits(32);
  size_t n = c.size(4, 30, 150), threads = c.range(2, 4), rounds = c.range(1, 3);
  u64 changes = c.below(4), changer = c.bits(32), copiers = c.below(8);
  auto make = [&] {
    Rnd r(seed), q(changer);
    auto t = std::make_unique<T>(K::make(r, n));
    for (u64 k = 0; k < changes; k++) K::change(*t, q);
    return t;
  };
  NOTE(c, K::name, " size ", n, ", ", changes, " changes, ", threads, " threads x ", rounds);
  auto shared = make();
  std::vector<Obs> o(threads * rounds);
  together(threads, [&](size_t i) {
    const T& t = *shared;
    for (size_t k = 0; k < rounds; k++)
      if (i && (copiers >> (i - 1) & 1)) { T copy(t); o[i * rounds + k] = seen<K>(copy); }
      else o[i * rounds + k] = seen<K>(t);
  });
  auto alone = make();
  Obs want = seen<K>(*alone);
  for (size_t i = 0; i < o.size(); i++) { auto d = differs(o[i], want); REQUIRE(d.empty(), K::name, ", thread ", i / rounds, " of ", threads, " readers: ", d); }
  auto d = differs(seen<K>(*shared), want);
  REQUIRE(d.empty(), K::name, " after ", threads, " readers: ", d);
  c.nontrivial(want.size() > 4);
  c.label(K::name);
}
LAW(readers_of_one_object, 3000, 30000) { with_kind(c.below(kKinds), [&](auto k) { readers<decltype(k)>(c); }); }

struct Job { size_t kind; u64 seed; size_t n, steps; };
template <class K> static void work(const Job& j, Obs& o) {
  using T = typename K::T;
  Rnd r(j.seed);
  T t = K::make(r, j.n);
  K::look(t, o);
  for (size_t k = 0; k < j.steps; k++) {
    T before(t);
    K::change(t, r);
    if (r.below(2)) K::look(before, o);
    K::look(t, o);
  }
}
LAW(objects_of_their_own, 3000, 30000) {
  Silent quiet;
  size_t threads = c.range(2, 4), same = c.coin();
  std::vector<std::vector<Job>> jobs(threads);
  size_t one = c.below(kKinds);
  for (auto& v : jobs)
    for (size_t k = 0, m = c.range(1, 4); k < m; k++) {
      Job j{same ? one : c.below(kKinds), c.bits(32), c.size(3, 20, 60), c.below(4)};
      if (j.kind == kPrinting) j.kind = 0;  // would print from several threads
      v.push_back(j);
    }
  NOTE(c, threads, " threads, ", same ? cat("all on class ", one) : std::string("on mixed classes"));
  std::vector<Obs> o(threads);
  together(threads, [&](size_t i) { for (auto& j : jobs[i]) with_kind(j.kind, [&](auto k) { work<decltype(k)>(j, o[i]); }); });
  for (size_t i = 0; i < threads; i++) {
    Obs want;
    for (auto& j : jobs[i]) with_kind(j.kind, [&](auto k) { work<decltype(k)>(j, want); });
    auto d = differs(o[i], want);
    REQUIRE(d.empty(), "thread ", i, " of ", threads, " with its own objects: ", d);
  }
  c.nontrivial();
  c.label(same ? "one class" : "mixed classes");
}

// asking changes nothing: any number of questions, in any turn with another object, and the object is as new
template <class K> static void asking(Case& c) {
  using T = typename K::T;
  Silent quiet;
  u64 seed = c.bits(32), other = c.bits(32);
  size_t n = c.size(3, 20, 60), m = c.size(3, 20, 60);
  auto make = [&](u64 s, size_t k) { Rnd r(s); return std::make_unique<T>(K::make(r, k)); };
  NOTE(c, K::name, " size ", n, " and ", m);
  auto a = make(seed, n), b = make(other, m);
  Obs oa = seen<K>(*a), ob = seen<K>(*b);
  for (size_t k = c.range(1, 6); k--;) {
    bool first = c.coin();
    auto d = first ? differs(seen<K>(*a), oa) : differs(seen<K>(*b), ob);
    REQUIRE(d.empty(), K::name, " asked again: ", d);
  }
  auto d = differs(seen<K>(*make(seed, n)), oa);
  REQUIRE(d.empty(), K::name, " made again: ", d);
  T copy(*a);
  u64 s = c.bits(32);
  Rnd p(s), q(s);
  auto fresh = make(seed, n);  // never asked
  K::change(copy, p);
  K::change(*fresh, q);
  d = differs(seen<K>(copy), seen<K>(*fresh));
  REQUIRE(d.empty(), K::name, " changed after questions, against one never asked: ", d);
  c.nontrivial(oa.size() > 4);
  c.label(K::name);
}
LAW(asking_changes_nothing, 30000, 100000) { with_kind(c.below(kKinds), [&](auto k) { asking<decltype(k)>(c); }); }
