// A small property-based testing engine: recorded choice sequences, shrinking
// by editing the sequence, crash/hang isolation by process, bounded enumeration,
// and (with -DPBT_FUZZ) the same laws as a libFuzzer target.
//
// A law is a function of a Case.  Every random decision goes through the Case,
// which records it; a case is therefore fully described by (law, choices), and
// a failing one is minimised by deleting / zeroing / lowering choices.
#pragma once
#include <bits/stdc++.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#ifndef PBT_PROPERTY
#define PBT_PROPERTY "C00"
#endif
#ifndef PBT_VARIANT
#define PBT_VARIANT "rel"
#endif

namespace pbt {

using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;

constexpr u64 kMax64 = ~u64(0);
constexpr size_t kChoiceCap = size_t(1) << 22;

struct Rng {
  u64 s[4];
  static u64 splitmix(u64& x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(u64 seed = 0) { for (auto& v : s) v = splitmix(seed); }
  static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 next() {
    const u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  u64 below(u64 n) { return n == 0 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); }
  u64 upto(u64 max) { return max == kMax64 ? next() : below(max + 1); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
};

struct Fail { std::string msg; };
struct Discard {};

inline u64 mix(u64 a, u64 b) { u64 x = a ^ (b * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull); return Rng::splitmix(x); }

struct Shared {
  volatile u64 law, index, nrec, verdict;
  char msg[4096];
  char notes[4096];
  u64 rec[kChoiceCap];
};

class Case {
 public:
  enum Mode { kRandom, kReplay, kBytes };
  // --- choices ---------------------------------------------------------
  template <class Gen>
  u64 draw(u64 max, Gen gen) {
    u64 v;
    if (mode_ == kRandom) {
      v = gen(rng_);
      if (v > max) v = max;
    } else {
      if (mode_ == kReplay) {
        v = pos_ < nin_ ? in_[pos_] : 0;
        pos_++;
      } else {
        v = take_bytes(max < 256 ? 1 : max < 65536 ? 2 : max <= 0xffffffffull ? 4 : 8);
      }
      if (v > max) v = max == kMax64 ? v : v % (max + 1);
    }
    u64 k = sh_->nrec;
    if (k >= kChoiceCap) throw Discard{};
    sh_->rec[k] = v;
    sh_->nrec = k + 1;
    hash_ = mix(hash_, v + 1);
    return v;
  }
  // uniform in [0,n)
  u64 below(u64 n) { if (n <= 1) return 0; return draw(n - 1, [&](Rng& r) { return r.below(n); }); }
  // uniform in [lo,hi]
  u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo, [&](Rng& r) { return r.upto(hi - lo); }); }
  bool chance(u64 num, u64 den) { return draw(1, [&](Rng& r) { return (u64)r.chance(num, den); }); }
  bool coin() { return chance(1, 2); }
  template <class T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class V>
  const typename V::value_type& one_of(const V& v) { return v[below(v.size())]; }
  // weighted alternative: index into weights
  size_t weighted(std::initializer_list<u64> w) {
    u64 tot = 0;
    for (u64 x : w) tot += x;
    return draw(w.size() - 1, [&](Rng& r) {
      u64 t = r.below(tot), i = 0;
      for (u64 x : w) { if (t < x) return i; t -= x; i++; }
      return (u64)0;
    });
  }
  // any index in [0,max], biased to the ends, to 0/1 around multiples of
  // powers of two, and to small numbers
  u64 edgy(u64 lo, u64 hi) {
    const u64 m = hi - lo;
    return lo + draw(m, [&](Rng& r) -> u64 {
      if (m == 0) return 0;
      u64 v;
      switch (r.below(8)) {
        case 0: v = r.below(4); break;
        case 1: v = m - std::min(m, r.below(4)); break;
        case 2: case 3: {  // near a multiple of 64/128/256/512/1024/4096/65536
          static const u64 g[] = {8, 16, 32, 64, 64, 128, 256, 256, 512, 512, 1024, 4096, 65536};
          u64 q = g[r.below(13)];
          u64 t = r.upto(m) / q * q;
          if (r.chance(1, 3)) t = q * r.below(5);
          t -= lo;  // make lo+v the multiple
          v = t + r.below(5) - 2;
          break;
        }
        case 4: {  // log uniform
          unsigned b = 64 - __builtin_clzll(m);
          v = r.next() >> (63 - r.below(b));
          break;
        }
        default: v = r.upto(m);
      }
      return v > m ? r.upto(m) : v;
    });
  }
  // a size: mostly small, sometimes up to mid, rarely up to big (edges favoured)
  size_t size(size_t small, size_t mid, size_t big) {
    return draw(big, [&](Rng& r) -> u64 {
      u64 t = r.below(100), hi = t < 55 ? small : t < 92 ? mid : big;
      if (hi == 0) return 0;
      switch (r.below(6)) {
        case 0: {
          static const u64 g[] = {8, 16, 32, 64, 64, 128, 256, 256, 512, 512, 1024, 4096, 65536};
          u64 q = g[r.below(13)];
          if (q > hi) q = 64;
          u64 v = r.upto(hi) / q * q + r.below(5) - 2;
          return v > hi ? r.upto(hi) : v;
        }
        case 1: {
          unsigned b = 64 - __builtin_clzll(hi);
          u64 v = r.next() >> (63 - r.below(b));
          return v > hi ? hi : v;
        }
        default: return r.upto(hi);
      }
    });
  }
  // a value of at most `bits` bits with structured bit patterns
  u64 bits(unsigned bits) {
    if (bits == 0) return 0;
    const u64 m = bits >= 64 ? kMax64 : (u64(1) << bits) - 1;
    return draw(m, [&](Rng& r) { return structured(r, m, bits); });
  }
  static u64 structured(Rng& r, u64 m, unsigned bits) {
    switch (r.below(10)) {
      case 0: return r.below(4) & m;
      case 1: return m - (r.below(4) & m);
      case 2: return u64(1) << r.below(bits);
      case 3: return m & ~(u64(1) << r.below(bits));
      case 4: { u64 k = r.below(bits); return ((u64(1) << k) - 1); }
      case 5: return m & (r.next() | r.next() | r.next());
      case 6: return m & (r.next() & r.next() & r.next());
      case 7: return m & (r.next() >> r.below(64));
      case 8: { u64 b = r.below(256) * 0x0101010101010101ull; return m & b; }
      default: return m & r.next();
    }
  }
  // a sub-generator for bulk data, itself a single choice; seed 0 gives a
  // degenerate (all-zero) stream so that shrinking has a simplest value
  struct Bulk {
    u64 seed; Rng r;
    explicit Bulk(u64 s) : seed(s), r(s * 0x9e3779b97f4a7c15ull + 12345) {}
    u64 next() { return seed ? r.next() : 0; }
    u64 below(u64 n) { return seed ? r.below(n) : 0; }
    u64 range(u64 lo, u64 hi) { return lo + (seed ? r.upto(hi - lo) : 0); }
    bool chance(u64 a, u64 b) { return seed ? r.chance(a, b) : false; }
    u64 bits(unsigned b) { return seed && b ? structured(r, b >= 64 ? kMax64 : (u64(1) << b) - 1, b) : 0; }
  };
  Bulk bulk() {
    u64 s = draw(0xffffffffull, [](Rng& r) { return r.next() >> 32; });
    return Bulk(s);
  }
  // index of an enumerated case
  u64 enum_index(u64 total) {
    return draw(total - 1, [&](Rng& r) { return enum_ ? index_ % total : r.below(total); });
  }
  // --- bookkeeping -----------------------------------------------------
  void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
  void label(const char* l) { if (nlab_ < 16) labs_[nlab_++] = l; }
  void label_if(bool b, const char* l) { if (b) label(l); }
  bool verbose() const { return verbose_; }
  void note(const std::string& s) { if (verbose_ && notes_.size() < 4000) { notes_ += s; snprintf(sh_->notes, sizeof sh_->notes, "%s", notes_.c_str()); } }
  u64 index() const { return index_; }
  bool thorough() const { return thorough_; }

  // internals
  Mode mode_ = kRandom;
  const u64* in_ = nullptr; size_t nin_ = 0, pos_ = 0;
  const u8* bytes_ = nullptr; size_t nbytes_ = 0;
  Rng rng_{0};
  Shared* sh_ = nullptr;
  u64 index_ = 0, hash_ = 0;
  bool enum_ = false, verbose_ = false, nontrivial_ = false, thorough_ = false;
  const char* labs_[16]; size_t nlab_ = 0;
  std::string notes_;
 private:
  u64 take_bytes(int k) {
    u64 v = 0;
    for (int i = 0; i < k && pos_ < nbytes_; i++) v |= u64(bytes_[pos_++]) << (8 * i);
    return v;
  }
};

template <class... A>
std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
template <class C>
std::string show(const C& c, size_t lim = 40) {
  std::ostringstream o; o << "["; size_t k = 0;
  for (auto const& x : c) { if (k) o << ","; if (k++ >= lim) { o << "...(" << c.size() << ")"; break; } o << +x; }
  o << "]"; return o.str();
}
inline std::string show_str(std::string_view s, size_t lim = 120) {
  std::ostringstream o; o << '"'; size_t k = 0;
  for (unsigned char ch : s) {
    if (k++ >= lim) { o << "...(" << s.size() << ")"; break; }
    if (ch >= 32 && ch < 127 && ch != '"' && ch != '\\') o << ch;
    else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o << b; }
  }
  o << '"'; return o.str();
}

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(cond, ...) do { if (!(cond)) throw ::pbt::Fail{::pbt::cat("line " PBT_STR(__LINE__) ": " #cond "; ", __VA_ARGS__)}; } while (0)
#define NOTE(c, ...) do { if ((c).verbose()) (c).note(::pbt::cat(__VA_ARGS__, " ")); } while (0)

struct Law {
  const char* name; void (*fn)(Case&);
  u64 quick, thorough;  // numbers of cases
  double asan;          // fraction of them run in the sanitizer variant
  bool enumerated;      // case index is the enumeration index
  bool huge = false;    // a few large cases: not scaled, not fuzzed, in the rel variant only
};
inline std::vector<Law>& laws() { static std::vector<Law> v; return v; }
struct Reg { Reg(Law l) { laws().push_back(l); } };
#define LAW_FULL(NAME, QUICK, THOROUGH, ASAN, ENUM)                                         \
  static void law_##NAME(::pbt::Case&);                                                     \
  static ::pbt::Reg reg_##NAME({#NAME, law_##NAME, (QUICK), (THOROUGH), (ASAN), (ENUM)});   \
  static void law_##NAME([[maybe_unused]] ::pbt::Case& c)
#define LAW_HUGE(NAME, QUICK, THOROUGH)                                                     \
  static void law_##NAME(::pbt::Case&);                                                     \
  static ::pbt::Reg reg_##NAME({#NAME, law_##NAME, (QUICK), (THOROUGH), 0, false, true});   \
  static void law_##NAME([[maybe_unused]] ::pbt::Case& c)
#define LAW(NAME, QUICK, THOROUGH) LAW_FULL(NAME, QUICK, THOROUGH, 0.15, false)
#define LAW_ENUM(NAME, TOTAL) LAW_FULL(NAME, TOTAL, TOTAL, 0.2, true)

// one case of this program at a time
struct Alone {
  int fd;
  Alone() : fd(open("/proc/self/exe", O_RDONLY)) { if (fd >= 0) flock(fd, LOCK_EX); }
  ~Alone() { if (fd >= 0) close(fd); }
};
// more memory for one case, where memory is limited at all
struct MoreMemory {
  std::unique_ptr<Alone> alone;
  struct rlimit old;
  explicit MoreMemory(u64 mb, bool exclusive = true) {
    if (exclusive) alone.reset(new Alone);
    getrlimit(RLIMIT_AS, &old);
    struct rlimit r = old;
    if (r.rlim_cur != RLIM_INFINITY) r.rlim_cur = std::max<rlim_t>(r.rlim_cur, mb << 20);
    setrlimit(RLIMIT_AS, &r);
  }
  ~MoreMemory() { setrlimit(RLIMIT_AS, &old); }
};

// ---------------------------------------------------------------------------
enum Verdict { kOk = 0, kFail = 10, kHang = 11, kDiscard = 12, kCrash = 13 };

inline Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shared*)p;
}
inline void on_prof(int) { _exit(kHang); }
inline void arm(double cpu_s) {
  struct itimerval t {};
  t.it_value.tv_sec = (long)cpu_s;
  t.it_value.tv_usec = (long)((cpu_s - (long)cpu_s) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline Verdict run_case(const Law& law, Case& c, Shared* sh) {
  sh->nrec = 0;
  sh->msg[0] = 0;
  try {
    law.fn(c);
    return kOk;
  } catch (Fail& f) {
    snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
    return kFail;
  } catch (Discard&) {
    return kDiscard;
  } catch (std::exception& e) {
    snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
    return kFail;
  }
}

#ifndef PBT_FUZZ
struct LawStats {
  u64 evals = 0, nontriv = 0, discards = 0;
  std::map<std::string, u64> labels;
  std::vector<std::string> samples;
  std::vector<u64> hashes;
};

struct Opt {
  u64 seed = 1; bool thorough = false, sanitized = false; double scale = 1; int workers = 8;
  std::string stats, hashes_in, hashes_out, replay_dir = ".", replay, only;
  double case_cpu = 20; double shrink_s = 40; u64 mem_mb = 3000;
};

inline void limit_mem(const Opt& o) {
  if (o.sanitized) return;
  struct rlimit r { o.mem_mb << 20, u64(64000) << 20 };  // a huge case may raise it
  setrlimit(RLIMIT_AS, &r);
}

inline u64 cases_of(const Law& l, const Opt& o) {
  double n = o.thorough ? (double)l.thorough : (double)l.quick;
  if (o.sanitized) n = n * l.asan;
  if (l.huge) return strcmp(PBT_VARIANT, "rel") ? 0 : (u64)n;
  if (!l.enumerated) n *= o.scale;
  return n < 1 && (o.thorough ? l.thorough : l.quick) > 0 && l.asan > 0 ? 1 : (u64)n;
}
inline u64 index_of(const Law& l, const Opt& o, u64 k) {
  if (l.enumerated && o.sanitized && l.asan > 0) return (u64)((double)k / l.asan);
  return k;
}
inline u64 law_key(const Law& l) { u64 h = 1469598103934665603ull; for (const char* p = l.name; *p; p++) h = (h ^ (u8)*p) * 1099511628211ull; return h; }

inline void setup_case(Case& c, const Law& l, const Opt& o, u64 idx, Shared* sh) {
  c.sh_ = sh; c.index_ = idx; c.enum_ = l.enumerated || l.huge; c.thorough_ = o.thorough;
  u64 s = mix(mix(mix(o.seed, law_key(l)), idx), o.sanitized ? 77 : 5);
  for (const char* p = PBT_VARIANT; *p; p++) s = mix(s, (u8)*p);
  c.rng_ = Rng(s);
  c.hash_ = law_key(l);
}

[[noreturn]] inline void worker(const Opt& o, int w, Shared* sh, const std::string& out) {
  signal(SIGPROF, on_prof);
  limit_mem(o);
  std::ofstream f(out, std::ios::binary);
  for (size_t li = 0; li < laws().size(); li++) {
    const Law& l = laws()[li];
    if (!o.only.empty() && o.only != l.name) continue;
    LawStats st;
    std::unordered_set<u64> seen;
    u64 n = cases_of(l, o);
    for (u64 k = w; k < n; k += o.workers) {
      u64 idx = index_of(l, o, k);
      sh->law = li; sh->index = idx;
      Case c;
      setup_case(c, l, o, idx, sh);
      c.verbose_ = st.samples.size() < 2 && w < 2;
      arm(o.case_cpu * (l.huge ? 8 : 1));
      Verdict v = run_case(l, c, sh);
      if (v == kFail) _exit(kFail);
      if (v == kDiscard) { st.discards++; continue; }
      st.evals++;
      for (size_t i = 0; i < c.nlab_; i++) st.labels[c.labs_[i]]++;
      if (c.nontrivial_) {
        st.nontriv++;
        seen.insert(c.hash_);
        if (c.verbose_ && !c.notes_.empty()) st.samples.push_back(c.notes_.substr(0, 700));
      }
    }
    arm(0);
    auto put = [&](u64 x) { f.write((char*)&x, 8); };
    auto puts = [&](const std::string& s) { put(s.size()); f.write(s.data(), s.size()); };
    put(li); put(st.evals); put(st.nontriv); put(st.discards);
    put(st.labels.size());
    for (auto& [a, b] : st.labels) { puts(a); put(b); }
    put(st.samples.size());
    for (auto& s : st.samples) puts(s);
    put(seen.size());
    for (u64 h : seen) put(h);
  }
  f.flush();
  if (!f) _exit(3);
  _exit(0);
}

inline std::string errfile(const Opt& o) { return cat(o.stats.empty() ? "/tmp/pbt" : o.stats, ".", getppid(), ".stderr"); }
// the head of what a failing child wrote to stderr (a sanitizer report, mostly)
inline std::string err_head(const Opt& o) {
  std::string path = cat(o.stats.empty() ? "/tmp/pbt" : o.stats, ".", getpid(), ".stderr"), line, out;
  std::ifstream f(path);
  for (int k = 0; k < 9 && std::getline(f, line); k++) out += "  | " + line.substr(0, 200) + "\n";
  unlink(path.c_str());
  return out;
}
struct Outcome { Verdict v; int raw; std::string msg, notes; std::vector<u64> choices; };

// run one choice sequence in a child process
inline Outcome run_child(const Opt& o, Shared* sh, size_t li, u64 idx, const std::vector<u64>& ch, double cpu, bool quiet, std::string* notes = nullptr) {
  sh->nrec = 0; sh->msg[0] = 0;
  fflush(nullptr);
  sh->notes[0] = 0;
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    if (quiet) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); }
    else { int n = open(errfile(o).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (n >= 0) dup2(n, 2); }
    signal(SIGPROF, on_prof);
    limit_mem(o);
    Case c;
    setup_case(c, laws()[li], o, idx, sh);
    c.mode_ = Case::kReplay; c.in_ = ch.data(); c.nin_ = ch.size();
    c.verbose_ = notes != nullptr;
    arm(cpu * (laws()[li].huge ? 8 : 1));
    Verdict v = run_case(laws()[li], c, sh);
    _exit(v);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (notes) *notes = sh->notes;
  Outcome out;
  out.raw = st;
  if (WIFSIGNALED(st)) { out.v = kCrash; out.msg = cat("killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")"); }
  else switch (WEXITSTATUS(st)) {
    case 0: out.v = kOk; break;
    case kFail: out.v = kFail; out.msg = sh->msg; break;
    case kHang: out.v = kHang; out.msg = cat("did not finish within ", cpu, " s of CPU time"); break;
    case kDiscard: out.v = kDiscard; break;
    default: out.v = kCrash; out.msg = cat("memory error reported by the sanitizer or abnormal exit, status ", WEXITSTATUS(st));
  }
  u64 n = sh->nrec;
  out.choices.assign(sh->rec, sh->rec + n);
  return out;
}

// run a worker's history again; does it stop in the same law?  (corrupted memory may be noticed
// a few cases earlier or later)
inline bool rerun_worker(const Opt& o, int w, Shared* sh, const std::string& base, size_t li) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); worker(o, w, sh, cat(base, ".w", w)); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return !(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) && sh->law == li;
}

inline bool smaller(const std::vector<u64>& a, const std::vector<u64>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

inline std::vector<u64> shrink(const Opt& o, Shared* sh, size_t li, u64 idx, std::vector<u64> best, Verdict want, u64& tries) {
  using clk = std::chrono::steady_clock;
  auto t0 = clk::now();
  double cpu = want == kHang ? 3 : 10;
  auto out_of_time = [&] { return std::chrono::duration<double>(clk::now() - t0).count() > o.shrink_s || tries > 20000; };
  auto attempt = [&](const std::vector<u64>& cand) {
    if (out_of_time()) return false;
    tries++;
    auto r = run_child(o, sh, li, idx, cand, cpu, true);
    if (r.v != want) return false;
    // hanging children stop mid-way: keep the candidate itself then
    const std::vector<u64>& got = r.choices.size() <= cand.size() && !r.choices.empty() ? r.choices : cand;
    if (smaller(got, best)) { best = got; return true; }
    if (smaller(cand, best)) { best = cand; return true; }
    return false;
  };
  bool progress = true;
  while (progress && !out_of_time()) {
    progress = false;
    for (size_t keep = 0; keep < best.size() && !out_of_time(); keep = keep ? keep * 2 : 1) {
      std::vector<u64> c(best.begin(), best.begin() + keep);
      if (attempt(c)) { progress = true; break; }
    }
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && !out_of_time(); len /= 2) {
      for (size_t i = best.size(); i-- > 0 && !out_of_time();) {
        if (i + len > best.size()) continue;
        if (len > 8 && i % (len / 2) != 0) continue;
        std::vector<u64> c(best);
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) progress = true;
        else {
          bool nz = false;
          for (size_t k = i; k < i + len; k++) nz |= best[k] != 0;
          if (nz) {
            c = best;
            for (size_t k = i; k < i + len; k++) c[k] = 0;
            if (attempt(c)) progress = true;
          }
        }
      }
      if (len == 1) break;
    }
    // lower a length and drop some later choices with it
    for (size_t i = 0; i < best.size() && best.size() < 400 && !out_of_time(); i++) {
      if (best[i] == 0) continue;
      for (size_t m = 1; m <= 4 && i < best.size(); m++)
        for (size_t j = i + 1; j + m <= best.size() && !out_of_time(); j++) {
          std::vector<u64> c(best);
          c[i]--;
          c.erase(c.begin() + j, c.begin() + j + m);
          if (attempt(c)) { progress = true; j = i; if (best.size() <= i || best[i] == 0) break; }
        }
    }
    for (size_t i = 0; i < best.size() && !out_of_time(); i++) {
      u64 lo = 0;
      while (i < best.size() && best[i] > lo && !out_of_time()) {
        u64 cur = best[i];
        std::vector<u64> c(best);
        c[i] = lo + (cur - lo) / 2;
        if (attempt(c)) { progress = true; continue; }
        if (c[i] == lo) { if (cur - 1 > lo) { c = best; c[i] = cur - 1; if (attempt(c)) { progress = true; continue; } } break; }
        // try clearing the top bit / dropping by one, then raise the floor
        lo = c[i];
      }
    }
  }
  return best;
}

inline std::string choices_text(const std::vector<u64>& c) { std::ostringstream o; for (size_t i = 0; i < c.size(); i++) o << (i ? " " : "") << c[i]; return o.str(); }

inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

inline int do_replay(Opt& o) {
  std::ifstream f(o.replay);
  std::string line, law; std::vector<u64> ch; u64 idx = 0; int w = -1;
  while (std::getline(f, line)) {
    if (line.rfind("law=", 0) == 0) law = line.substr(4);
    if (line.rfind("worker=", 0) == 0) w = atoi(line.c_str() + 7);
    if (line.rfind("workers=", 0) == 0) o.workers = atoi(line.c_str() + 8);
    if (line.rfind("scale=", 0) == 0) o.scale = atof(line.c_str() + 6);
    if (line.rfind("seed=", 0) == 0) o.seed = strtoull(line.c_str() + 5, 0, 10);
    if (line.rfind("tier=", 0) == 0) o.thorough = line == "tier=thorough";
    if (line.rfind("index=", 0) == 0) idx = strtoull(line.c_str() + 6, 0, 10);
    if (line.rfind("choices=", 0) == 0) { std::istringstream s(line.substr(8)); u64 x; while (s >> x) ch.push_back(x); }
  }
  for (size_t li = 0; li < laws().size(); li++)
    if (law == laws()[li].name) {
      if (w >= 0) {
        std::string base = cat("/tmp/pbt.", getpid());
        bool bad = rerun_worker(o, w, new_shared(), base, li);
        unlink(cat(base, ".w", w).c_str());
        printf("law %s, history of worker %d up to case %lu: %s\n", law.c_str(), w, (unsigned long)idx, bad ? "FAILED" : "held");
        if (bad) printf("VIOLATION property=%s replay=%s\n", PBT_PROPERTY, o.replay.c_str());
        return bad;
      }
      std::string notes;
      auto r = run_child(o, new_shared(), li, idx, ch, 60, false, &notes);
#ifdef PBT_RACY
      for (int k = 0; k < 200 && (r.v == kOk || r.v == kDiscard); k++) { notes.clear(); r = run_child(o, new_shared(), li, idx, ch, 60, false, &notes); }
#endif
      printf("law %s: %s %s\ninput: %s\n%s", law.c_str(), r.v == kOk ? "held" : r.v == kDiscard ? "discarded" : "FAILED", r.msg.c_str(), notes.c_str(), err_head(o).c_str());
      if (r.v != kOk && r.v != kDiscard) { printf("VIOLATION property=%s replay=%s\n", PBT_PROPERTY, o.replay.c_str()); return 1; }
      return 0;
    }
  printf("no such law: %s\n", law.c_str());
  return 3;
}

inline int main_(int argc, char** argv) {
  Opt o;
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  o.sanitized = true;
#endif
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") o.thorough = val() == "thorough";
    else if (a == "--scale") o.scale = atof(val().c_str());
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--stats") o.stats = val();
    else if (a == "--hashes-in") o.hashes_in = val();
    else if (a == "--hashes-out") o.hashes_out = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--replay") o.replay = val();
    else if (a == "--law") o.only = val();
    else if (a == "--case-cpu") o.case_cpu = atof(val().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (!o.replay.empty()) return do_replay(o);
  auto t0 = std::chrono::steady_clock::now();
  std::string base = o.stats.empty() ? cat("/tmp/pbt.", getpid()) : o.stats;
  std::vector<Shared*> sh(o.workers);
  std::map<pid_t, int> kids;
  fflush(nullptr);
  for (int w = 0; w < o.workers; w++) {
    sh[w] = new_shared();
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 3; }
    if (p == 0) {
      if (o.sanitized) { int fd = open(cat(base, ".err", w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) dup2(fd, 2); }
      worker(o, w, sh[w], cat(base, ".w", w));
    }
    kids[p] = w;
  }
  auto cleanup = [&] { for (int w = 0; w < o.workers; w++) { unlink(cat(base, ".w", w).c_str()); unlink(cat(base, ".err", w).c_str()); } };
  while (!kids.empty()) {
    int st = 0;
    pid_t p = wait(&st);
    if (p < 0) { if (errno == EINTR) continue; break; }
    auto it = kids.find(p);
    if (it == kids.end()) continue;
    int w = it->second;
    kids.erase(it);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "worker could not write its statistics\n"); for (auto& k : kids) kill(k.first, SIGKILL); cleanup(); return 3; }
    // a failure: stop the others, reproduce, shrink
    for (auto& k : kids) kill(k.first, SIGKILL);
    while (wait(nullptr) > 0 || errno == EINTR) {}
    kids.clear();
    size_t li = sh[w]->law; u64 idx = sh[w]->index;
    std::vector<u64> ch(sh[w]->rec, sh[w]->rec + sh[w]->nrec);
    bool hang = WIFEXITED(st) && WEXITSTATUS(st) == kHang;
    Shared* s2 = new_shared();
    std::string first = WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : WEXITSTATUS(st) == kFail ? std::string(sh[w]->msg) : cat("exit status ", WEXITSTATUS(st));
    Outcome r; int bad = 0; Verdict want = kOk;
    for (int k = 0; k < (hang ? 1 : 3); k++) {
      r = run_child(o, s2, li, idx, ch, hang ? 40 : 60, true);  // a slow case gets twice the time again
      if (r.v != kOk && r.v != kDiscard) { bad++; want = r.v; }
    }
    if (hang) bad *= 3;
#ifdef PBT_RACY  // the schedule is not among the choices: more attempts, and one more failure is proof
    for (int k = 0; k < 60 && bad > 0 && bad < 3; k++) { r = run_child(o, s2, li, idx, ch, 60, true); if (r.v != kOk && r.v != kDiscard) { bad++; want = r.v; } }
    for (int k = 0; k < 200 && bad == 0; k++) { r = run_child(o, s2, li, idx, ch, 60, true); if (r.v != kOk && r.v != kDiscard) { bad++; want = r.v; } }
    if (bad) bad = 3;
#endif
    printf("law %s case %lu failed: %s (reproduced %d/3)\n", laws()[li].name, (unsigned long)idx, first.c_str(), bad);
    if (bad < 3) {
      // Not a function of the recorded choices alone (state left behind by earlier cases of the
      // same process).  Replay the worker's whole history twice; report only what comes back.
      int again = 0;
      for (int k = 0; k < 2; k++) again += rerun_worker(o, w, s2, base, li);
      if (again < 2) {
        fprintf(stderr, "not reproducible (%s)\n", first.c_str());
        cleanup();
        return 4;
      }
      std::string path = cat(o.replay_dir, "/", PBT_PROPERTY, "-", laws()[li].name, "-", PBT_VARIANT, "-s", o.seed, "-", idx, ".replay");
      std::ofstream f(path);
      f << "property=" << PBT_PROPERTY << "\nvariant=" << PBT_VARIANT << "\nlaw=" << laws()[li].name << "\nindex=" << idx << "\nseed=" << o.seed << "\ntier=" << (o.thorough ? "thorough" : "quick")
        << "\nworker=" << w << "\nworkers=" << o.workers << "\nscale=" << o.scale << "\nmessage=" << first << "\nchoices=" << choices_text(ch) << "\n";
      printf("VIOLATION property=%s replay=%s\n", PBT_PROPERTY, path.c_str());
      cleanup();
      return 1;
    }
    u64 tries = 0;
    std::vector<u64> best = getenv("PBT_NO_SHRINK") ? ch : shrink(o, s2, li, idx, ch, want, tries);
    int still = 0; std::string notes; Outcome fin;
    for (int k = 0; k < 3; k++) { notes.clear(); fin = run_child(o, s2, li, idx, best, hang ? 10 : 60, k < 2, &notes); still += fin.v != kOk && fin.v != kDiscard; }
    if (still < 3) { best = ch; fin = run_child(o, s2, li, idx, best, hang ? 40 : 60, false, &notes); }
    std::string path = cat(o.replay_dir, "/", PBT_PROPERTY, "-", laws()[li].name, "-", PBT_VARIANT, "-s", o.seed, "-", idx, ".replay");
    {
      std::ofstream f(path);
      f << "property=" << PBT_PROPERTY << "\nvariant=" << PBT_VARIANT << "\nlaw=" << laws()[li].name << "\nindex=" << idx << "\nseed=" << o.seed
        << "\ntier=" << (o.thorough ? "thorough" : "quick") << "\nmessage=" << fin.msg << "\ninput=" << notes << "\nshrunk_from=" << ch.size() << " choices in " << tries << " runs"
        << "\nchoices=" << choices_text(best) << "\n";
    }
    printf("minimal (%zu -> %zu choices, %lu runs): %s\ninput: %s\n%s", ch.size(), best.size(), (unsigned long)tries, fin.msg.c_str(), notes.c_str(), err_head(o).c_str());
    printf("VIOLATION property=%s replay=%s\n", PBT_PROPERTY, path.c_str());
    if (!o.stats.empty()) { std::ofstream f(o.stats); f << "{\"variant\":" << json_str(PBT_VARIANT) << ",\"evaluations\":" << tries << ",\"violations\":1,\"failing_law\":" << json_str(laws()[li].name) << "}\n"; }
    cleanup();
    return 1;
  }
  // merge
  std::vector<LawStats> tot(laws().size());
  std::vector<u64> all;
  for (int w = 0; w < o.workers; w++) {
    std::ifstream f(cat(base, ".w", w), std::ios::binary);
    auto get = [&] { u64 x = 0; f.read((char*)&x, 8); return x; };
    auto gets = [&] { std::string s(get(), 0); f.read(&s[0], s.size()); return s; };
    while (f.peek() != EOF) {
      auto& t = tot[get()];
      t.evals += get(); t.nontriv += get(); t.discards += get();
      for (u64 n = get(); n--;) { auto s = gets(); t.labels[s] += get(); }
      for (u64 n = get(); n--;) t.samples.push_back(gets());
      for (u64 n = get(); n--;) t.hashes.push_back(get());
    }
  }
  cleanup();
  if (!o.hashes_in.empty()) { std::ifstream f(o.hashes_in, std::ios::binary); u64 x; while (f.read((char*)&x, 8)) all.push_back(x); }
  u64 ev = 0, nt = 0, di = 0;
  for (auto& t : tot) { ev += t.evals; nt += t.nontriv; di += t.discards; all.insert(all.end(), t.hashes.begin(), t.hashes.end()); }
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  if (!o.hashes_out.empty()) { std::ofstream f(o.hashes_out, std::ios::binary); f.write((char*)all.data(), all.size() * 8); }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (!o.stats.empty()) {
    std::ofstream f(o.stats);
    f << "{\"variant\":" << json_str(PBT_VARIANT) << ",\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"discarded\":" << di
      << ",\"distinct_nontrivial_so_far\":" << all.size() << ",\"violations\":0,\"wall_s\":" << wall << ",\"laws\":[";
    bool first = true;
    for (size_t i = 0; i < tot.size(); i++) {
      auto& t = tot[i];
      std::sort(t.hashes.begin(), t.hashes.end());
      u64 d = std::unique(t.hashes.begin(), t.hashes.end()) - t.hashes.begin();
      f << (first ? "" : ",") << "{\"law\":" << json_str(laws()[i].name) << ",\"evaluations\":" << t.evals << ",\"nontrivial\":" << t.nontriv << ",\"distinct_nontrivial\":" << d
        << ",\"discarded\":" << t.discards << ",\"enumerated\":" << (laws()[i].enumerated ? "true" : "false") << ",\"labels\":{";
      bool f2 = true;
      for (auto& [a, b] : t.labels) { f << (f2 ? "" : ",") << json_str(a) << ":" << b; f2 = false; }
      f << "},\"samples\":[";
      for (size_t k = 0; k < t.samples.size() && k < 3; k++) f << (k ? "," : "") << json_str(t.samples[k]);
      f << "]}";
      first = false;
    }
    f << "]}\n";
  }
  for (size_t i = 0; i < tot.size(); i++) if (tot[i].evals) printf("  %-34s %9lu cases %9lu nontrivial %6lu discarded\n", laws()[i].name, (unsigned long)tot[i].evals, (unsigned long)tot[i].nontriv, (unsigned long)tot[i].discards);
  printf("%s[%s]: %lu cases, %lu non-trivial, %.1f s\n", PBT_PROPERTY, PBT_VARIANT, (unsigned long)ev, (unsigned long)nt, wall);
  return 0;
}
#endif  // !PBT_FUZZ
}  // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static Shared* sh = new_shared();
  std::vector<size_t> rnd;
  static std::vector<size_t> usable = [] { std::vector<size_t> v; for (size_t i = 0; i < laws().size(); i++) if (!laws()[i].enumerated && !laws()[i].huge) v.push_back(i); if (v.empty()) for (size_t i = 0; i < laws().size(); i++) v.push_back(i); return v; }();
  if (size < 1) return 0;
  const Law& l = laws()[usable[data[0] % usable.size()]];
  Case c;
  c.sh_ = sh; c.mode_ = Case::kBytes; c.bytes_ = data + 1; c.nbytes_ = size - 1;
  c.verbose_ = getenv("PBT_VERBOSE") != nullptr;
  Verdict v = run_case(l, c, sh);
  if (v == kFail) { fprintf(stderr, "PBT law %s failed: %s\n%s\n", l.name, sh->msg, c.notes_.c_str()); abort(); }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
