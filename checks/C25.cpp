// variants: rel asan dbg
// scale: 12 15
// rule: sequences of values, vectors (plain and aligned, elements of 1..16 bytes) and byte strings written to one
//   stream and read back; recursive functions over generated arguments and trees; binary display of generated
//   integers; non-trivial = several items of different kinds / recursion deeper than one / a value with both bits
#include "common.hpp"
#include "sim_ds/log.hpp"
using namespace sim_ds;

struct Pair { uint32_t a; uint64_t b; bool operator==(const Pair& o) const { return a == o.a && b == o.b; } };
struct Item { virtual ~Item() {} virtual void write(std::ostream&) = 0; virtual void read(std::istream&) = 0; virtual size_t bytes() = 0; };
template <class T> static T any(Case& c) {
  if constexpr (std::is_same_v<T, Pair>) { Pair p; std::memset(&p, 0, sizeof p); p.a = (uint32_t)c.bits(32); p.b = c.bits(64); return p; }
  else return (T)c.bits(8 * sizeof(T));
}
template <class T> struct One : Item {
  T v;
  One(Case& c) : v(any<T>(c)) {}
  void write(std::ostream& o) override { write_val(v, o); }
  void read(std::istream& i) override { T x = read_val<T>(i); REQUIRE(x == v, "a value of ", sizeof(T), " bytes comes back changed"); }
  size_t bytes() override { return sizeof(T); }
};
template <class V> struct Many : Item {
  V v;
  size_t old;
  Many(Case& c) : old(c.below(20)) {
    v.resize(c.size(5, 60, 2000));
    auto r = c.bulk();
    for (auto& x : v) { if constexpr (std::is_same_v<typename V::value_type, Pair>) { x.a = (uint32_t)r.next(); x.b = r.next(); } else x = (typename V::value_type)r.next(); }
  }
  void write(std::ostream& o) override { write_vec(v, o); }
  void read(std::istream& i) override {
    V x(old);  // whatever it held is replaced
    read_vec(i, x);
    REQUIRE(x == v, "a vector of ", v.size(), " elements of ", sizeof(x[0]), " bytes comes back with ", x.size(), " elements", x.size() == v.size() ? " changed" : "");
  }
  size_t bytes() override { REQUIRE(size_vec(v) == 8 + v.size() * sizeof(v[0]), "size_vec of ", v.size(), " elements is ", size_vec(v)); return size_vec(v); }
};
struct Text : Item {
  std::string s;
  Text(Case& c) { s = gen_text(c, 10, 60, 2000, gen_alphabet(c, 0, 255)); }
  void write(std::ostream& o) override { write_string(s, o); }
  void read(std::istream& i) override { std::string t = read_string(i); REQUIRE(t == s, "the string ", show_str(s), " comes back as ", show_str(t)); }
  size_t bytes() override { return 8 + s.size(); }
};
static std::unique_ptr<Item> item(Case& c) {
  switch (c.below(12)) {
    case 0: return std::make_unique<One<uint8_t>>(c);
    case 1: return std::make_unique<One<uint16_t>>(c);
    case 2: return std::make_unique<One<uint32_t>>(c);
    case 3: return std::make_unique<One<size_t>>(c);
    case 4: return std::make_unique<One<Pair>>(c);
    case 5: return std::make_unique<Many<std::vector<uint8_t>>>(c);
    case 6: return std::make_unique<Many<std::vector<uint16_t>>>(c);
    case 7: return std::make_unique<Many<std::vector<uint64_t>>>(c);
    case 8: return std::make_unique<Many<aligned_vector<uint64_t>>>(c);
    case 9: return std::make_unique<Many<std::vector<Pair>>>(c);
    case 10: return std::make_unique<Many<aligned_vector<uint32_t, 64>>>(c);
    default: return std::make_unique<Text>(c);
  }
}
LAW(items_come_back_from_the_stream, 40000, 500000) {
  std::stringstream f;
  std::vector<std::unique_ptr<Item>> v;
  size_t n = c.range(1, 12), at = 0;
  for (size_t i = 0; i < n; i++) {
    v.push_back(item(c));
    v[i]->write(f);
    at += v[i]->bytes();
    REQUIRE((size_t)f.tellp() == at, "item ", i, " took ", (size_t)f.tellp(), " bytes, ", at, " expected");
  }
  NOTE(c, n, " items, ", at, " bytes");
  c.nontrivial(n > 2);
  for (auto& x : v) x->read(f);
  REQUIRE((size_t)f.tellg() == at, "reading consumed another number of bytes");
}

// a function made by `recursive` may call itself, and keeps working after the expression that made it
template <class F> static auto kept(F f) { return recursive(f); }
LAW(recursive_functions, 20000, 200000) {
  size_t n = c.below(200);
  NOTE(c, "depth ", n);
  c.nontrivial(n > 1);
  std::vector<size_t> seen;
  auto down = kept([&](auto self, size_t k) -> void { seen.push_back(k); if (k) self(self, k - 1); });
  std::vector<size_t> noise(c.below(300), 77);
  down(n);
  REQUIRE(seen.size() == n + 1, "a recursion of depth ", n, " made ", seen.size(), " calls");
  for (size_t i = 0; i <= n; i++) REQUIRE(seen[i] == n - i, "call ", i, " saw ", seen[i]);
  // two branches, several arguments, state owned by the function itself
  size_t leaves = 0, sum = 0, d = c.below(9), step = c.below(100);
  auto tree = recursive([&leaves, &sum, step](auto self, size_t depth, size_t x) -> void {
    if (!depth) { leaves++; sum += x; return; }
    self(self, depth - 1, x);
    self(self, depth - 1, x + step);
  });
  tree(d, size_t(1));
  REQUIRE(leaves == (size_t(1) << d) && sum == leaves + step * d * leaves / 2, "depth ", d, ": ", leaves, " leaves summing to ", sum);
  // results, arguments by reference and arguments that can only be moved
  auto twice = kept([](auto self, u64 k) -> u64 { return k ? 2 * self(self, k - 1) + k % 3 : 1; });
  u64 want = 1, t = c.below(50);
  for (u64 k = 1; k <= t; k++) want = 2 * want + k % 3;
  REQUIRE(twice(t) == want && twice(t) == want, "the result at depth ", t, " is ", twice(t), " instead of ", want);
  auto pick = recursive([](auto self, std::vector<size_t>& v, size_t i) -> size_t& { return i + 1 < v.size() && v[i] < 50 ? self(self, v, i + 1) : v[i]; });
  std::vector<size_t> v(1 + c.below(9));
  for (auto& x : v) x = c.below(60);
  size_t at = 0;
  while (at + 1 < v.size() && v[at] < 50) at++;
  auto& got = pick(v, size_t(0));
  REQUIRE(&got == &v[at], "a function that returns a reference to element ", at);
  auto count = recursive([](auto self, std::unique_ptr<size_t> p, size_t& calls) -> void { calls++; if ((*p)--) self(self, std::move(p), calls); });
  size_t calls = 0;
  count(std::make_unique<size_t>(n), calls);
  REQUIRE(calls == n + 1, "a function of a moved argument was called ", calls, " times instead of ", n + 1);
}

template <class T> static void shown(Case& c, T v) {
  std::ostringstream o;
  auto* old = std::cout.rdbuf(o.rdbuf());
  ShowAsBinary(v);
  std::cout.rdbuf(old);
  std::string e;
  for (size_t i = sizeof(T) * 8; i-- > 0;) { e += char('0' + (u64(v) >> i & 1)); if (i % 8 == 0) e += ' '; }
  e += '\n';
  NOTE(c, u64(v));
  c.nontrivial(v != 0 && T(~v) != 0);
  REQUIRE(o.str() == e, "the bits of ", u64(v), " are shown as ", show_str(o.str()), " instead of ", show_str(e));
}
LAW(binary_display, 20000, 200000) {
  u64 v = c.bits(64);
  switch (c.below(4)) {
    case 0: shown<uint8_t>(c, (uint8_t)v); break;
    case 1: shown<uint16_t>(c, (uint16_t)v); break;
    case 2: shown<uint32_t>(c, (uint32_t)v); break;
    default: shown<uint64_t>(c, v);
  }
}
LAW(aligned_vectors_are_aligned, 4000, 40000) {
  size_t n = c.range(1, 3000);
  NOTE(c, n, " elements");
  c.nontrivial(n > 8);
  aligned_vector<uint8_t> a(n);
  aligned_vector<uint64_t, 64> b(n);
  REQUIRE((size_t)a.data() % 32 == 0 && (size_t)b.data() % 64 == 0, "addresses ", (size_t)a.data(), " and ", (size_t)b.data());
  for (size_t k = 0; k < 300; k++) { a.push_back(1); b.push_back(k); }
  REQUIRE((size_t)a.data() % 32 == 0 && (size_t)b.data() % 64 == 0, "addresses after growth ", (size_t)a.data(), " and ", (size_t)b.data());
}
LAW(stopwatch_measures_forward, 8, 8) {
  NOTE(c, "a busy loop");
  c.nontrivial();
  auto spin = [] { auto t = std::chrono::steady_clock::now(); while (std::chrono::steady_clock::now() - t < std::chrono::milliseconds(2)) {} };
  std::string seen;
  for (int k = 0; k < 4; k++) {  // the system clock may be set back once
    Stopwatch w;
    spin();
    double a = w.get_milli_sec(), us = w.get_micro_sec(), s = w.get_sec();
    double ms = millisec_time_in_process(spin), mu = microsec_time_in_process(spin);
    if (a >= 1.9 && us >= a * 1000 && s * 1e6 >= us && us < 1e10 && ms >= 1.9 && mu >= 1900) return;
    seen = cat(a, " ms, ", us, " us, ", s, " s; ", ms, " ms, ", mu, " us");
  }
  REQUIRE(false, "two milliseconds of work are measured as ", seen);
}

// a stream of more bytes than 32 bits count; only blocks with contents are kept
struct SparseBuf : std::streambuf {
  size_t cap, in = 0, out = 0;
  char* mem;
  explicit SparseBuf(size_t n) : cap(n), mem((char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)) { if (mem == (char*)MAP_FAILED) throw pbt::Discard(); }
  ~SparseBuf() override { munmap(mem, cap); }
  std::streamsize xsputn(const char* s, std::streamsize k) override {
    static const char zero[4096] = {};
    size_t n = std::min<size_t>((size_t)k, cap - out);
    for (size_t i = 0; i < n; i += 4096) { size_t l = std::min<size_t>(4096, n - i); if (memcmp(s + i, zero, l)) memcpy(mem + out + i, s + i, l); }
    out += n;
    return (std::streamsize)n;
  }
  std::streamsize xsgetn(char* s, std::streamsize k) override {
    size_t n = std::min<size_t>((size_t)k, out - in);
    memcpy(s, mem + in, n);
    in += n;
    return (std::streamsize)n;
  }
  int_type overflow(int_type ch) override { char x = (char)ch; return xsputn(&x, 1) == 1 ? ch : traits_type::eof(); }
  int_type underflow() override { return in < out ? traits_type::to_int_type(mem[in]) : traits_type::eof(); }
  int_type uflow() override { return in < out ? traits_type::to_int_type(mem[in++]) : traits_type::eof(); }
};
LAW_HUGE(vectors_and_strings_beyond_32_bits, 3, 6) {
  pbt::MoreMemory more(12000);
  const size_t two32 = size_t(1) << 32;
  size_t kind = c.enum_index(3);
  auto go = [&](auto make, size_t unit, auto put, auto get, auto bytes) {
    size_t n = two32 / unit + c.edgy(1, 5000);
    c.nontrivial();
    NOTE(c, n, " elements of ", unit, " bytes");
    std::map<size_t, unsigned char> m;
    SparseBuf buf(n * unit + 4096);
    std::iostream f(&buf);
    {
      auto v = make(n);
      for (size_t k = 0; k < 60; k++) {
        size_t low = c.below(3000) % n, i = k % 3 == 0 ? low : k % 3 == 1 ? n - 1 - low : c.below(n);
        unsigned char x = (unsigned char)c.range(1, 255);
        v[i] = x;
        m[i] = x;
      }
      put(v, f);
      REQUIRE(buf.out == bytes(v), "wrote ", buf.out, " bytes, expected ", bytes(v));
    }
    write_val(uint32_t(4711), f);
    auto w = get(f);
    REQUIRE(w.size() == n, "read ", w.size(), " elements, expected ", n);
    for (auto& e : m)
      for (size_t j : {e.first, e.first ^ 1, n - 1 - e.first}) { auto x = m.find(j); if (j < n) REQUIRE((unsigned char)w[j] == (x == m.end() ? 0 : x->second), "element ", j, " of ", n); }
    REQUIRE(read_val<uint32_t>(f) == 4711, "the item that follows");
  };
  auto io = [&](auto tag) {
    using V = decltype(tag);
    go([](size_t n) { return V(n); }, sizeof(typename V::value_type), [](const V& v, std::ostream& o) { write_vec(v, o); }, [](std::istream& i) { V w; read_vec(i, w); return w; },
       [](const V& v) { REQUIRE(size_vec(v) == sizeof(typename V::value_type) * v.size() + 8, "size_vec"); return size_vec(v); });
  };
  if (kind == 0) io(std::vector<uint8_t>());
  else if (kind == 1) io(std::vector<u64>());
  else go([](size_t n) { return std::string(n, '\0'); }, 1, [](const std::string& s, std::ostream& o) { write_string(s, o); }, [](std::istream& i) { return read_string(i); }, [](const std::string& s) { return s.size() + 8; });
}
