#pragma once
#include "pbt.hpp"
#include "sim_ds/basic.hpp"

// ---------------------------------------------------------------- bit data
// Bit sequences with the shapes that index structures are sensitive to:
// runs, single ones, dense and empty words / 512-bit blocks, periodic data.
inline std::vector<bool> gen_bits(Case& c, size_t small, size_t mid, size_t big) {
  size_t n = c.size(small, mid, big);
  std::vector<bool> b(n, false);
  if (n <= 24 && c.coin()) {
    for (size_t i = 0; i < n; i++) b[i] = c.coin();
    return b;
  }
  size_t mode = c.weighted({3, 4, 2, 3, 2, 2, 2});
  auto r = c.bulk();
  switch (mode) {
    case 0: {  // density
      u64 p = r.range(0, 16);
      for (size_t i = 0; i < n; i++) b[i] = r.below(16) < p;
      break;
    }
    case 1: {  // runs of geometric-ish length up to several blocks
      bool v = r.below(2);
      u64 lim = u64(2) << r.below(11);
      for (size_t i = 0; i < n; v = !v)
        for (u64 l = r.range(1, lim); l-- && i < n;) b[i++] = v;
      break;
    }
    case 2: std::fill(b.begin(), b.end(), true); break;
    case 3: {  // each 64-bit word has its own character
      for (size_t w = 0; w < n; w += 64) {
        u64 v = r.bits(64);
        for (size_t i = w; i < n && i < w + 64; i++) b[i] = v >> (i - w) & 1;
      }
      break;
    }
    case 4: {  // each 512-bit block is empty, full, random or single
      for (size_t w = 0; w < n; w += 512) {
        u64 k = r.below(4), s = r.below(512);
        for (size_t i = w; i < n && i < w + 512; i++) b[i] = k == 0 ? false : k == 1 ? true : k == 2 ? r.below(2) : (i - w == s);
      }
      break;
    }
    case 5: {  // few ones
      if (n) for (u64 k = r.range(1, 8); k--;) { size_t p = r.below(3) ? r.below(n) : (r.below(n) / 64 * 64 + 63 * r.below(2)); if (p < n) b[p] = true; }
      break;
    }
    default: {  // few zeros
      std::fill(b.begin(), b.end(), true);
      if (n) for (u64 k = r.range(1, 8); k--;) { size_t p = r.below(3) ? r.below(n) : (r.below(n) / 64 * 64 + 63 * r.below(2)); if (p < n) b[p] = false; }
    }
  }
  return b;
}

inline std::string bits_text(const std::vector<bool>& b, size_t lim = 96) {
  std::string s = cat(b.size(), " bits ");
  for (size_t i = 0; i < b.size() && i < lim; i++) s += b[i] ? '1' : '0';
  if (b.size() > lim) s += "...";
  return s;
}

// ---------------------------------------------------------------- values
// A vector of values of at most `width` bits; small ones choice by choice so
// that they shrink, long ones from a bulk stream with one of several shapes.
template <class T = size_t>
std::vector<T> gen_values(Case& c, size_t n, unsigned width) {
  std::vector<T> v(n);
  if (n <= 12 && c.coin()) {
    for (auto& x : v) x = (T)c.bits(width);
    return v;
  }
  size_t mode = c.weighted({3, 3, 2, 2, 1});
  auto r = c.bulk();
  const u64 m = width >= 64 ? kMax64 : (u64(1) << width) - 1;
  u64 k = width ? r.range(1, width) : 0, period = r.range(1, 300);
  for (size_t i = 0; i < n; i++) {
    u64 x;
    switch (mode) {
      case 0: x = r.bits(width); break;
      case 1: x = r.next() >> r.below(64); break;                  // every bit length equally likely
      case 2: x = r.below(40) == 0 ? r.bits(width) : r.bits(k); break;  // mostly narrow, some wide
      case 3: x = m; break;
      default: x = i % period; break;
    }
    v[i] = (T)(x & m);
  }
  return v;
}

// ---------------------------------------------------------------- strings
// Byte strings over an alphabet; periodic / Fibonacci / nearly-equal text is
// what shift tables, failure links and suffix structures are sensitive to.
struct Alphabet { std::string bytes; };
inline std::string gen_text(Case& c, size_t small, size_t mid, size_t big, const std::string& alpha) {
  size_t n = c.size(small, mid, big);
  std::string s(n, 0);
  if (n <= 16 && c.coin()) {
    for (auto& ch : s) ch = alpha[c.below(alpha.size())];
    return s;
  }
  size_t mode = c.weighted({4, 3, 2, 2, 2});
  auto r = c.bulk();
  u64 a = alpha.size();
  switch (mode) {
    case 0: for (auto& ch : s) ch = alpha[r.below(a)]; break;
    case 1: {  // periodic with rare faults
      u64 p = r.range(1, 12);
      std::string unit(p, 0);
      for (auto& ch : unit) ch = alpha[r.below(a)];
      for (size_t i = 0; i < n; i++) s[i] = r.below(60) == 1 ? alpha[r.below(a)] : unit[i % p];
      break;
    }
    case 2: {  // Fibonacci word
      std::string x(1, alpha[0]), y(1, alpha[0]);
      y += alpha[a > 1 ? 1 : 0];
      while (y.size() < n) { std::string z = y + x; x = y; y = z; }
      s = y.substr(0, n);
      break;
    }
    case 3: {  // repeated blocks
      std::string acc;
      while (acc.size() < n) {
        if (!acc.empty() && r.below(3)) { size_t p = r.below(acc.size()), l = r.range(1, 20); acc += acc.substr(p, l); }
        else acc += alpha[r.below(a)];
      }
      s = acc.substr(0, n);
      break;
    }
    default: {  // runs
      for (size_t i = 0; i < n;) { char ch = alpha[r.below(a)]; for (u64 l = r.range(1, 9); l-- && i < n;) s[i++] = ch; }
    }
  }
  return s;
}
// an alphabet drawn from bytes [lo,hi]
inline std::string gen_alphabet(Case& c, unsigned lo, unsigned hi) {
  unsigned span = hi - lo + 1;
  switch (c.weighted({4, 3, 2, 2, 2})) {
    case 0: { std::string s; for (unsigned k = 0, n = (unsigned)c.range(1, 4); k < n; k++) s += (char)std::max(lo, std::min(hi, 'a' + k)); return s; }
    case 1: { std::string s; for (unsigned k = 0; k < 26; k++) { unsigned ch = 'a' + k; if (ch >= lo && ch <= hi) s += (char)ch; } return s; }
    case 2: { std::string s; for (unsigned k = 0; k < span; k++) s += (char)(lo + k); return s; }
    case 3: {  // both ends of the byte range
      std::string s; s += (char)lo; s += (char)hi; if (lo < 0x80 && hi > 0x80) { s += (char)0x7f; s += (char)0x80; } return s;
    }
    default: { std::string s; for (unsigned k = 0, n = (unsigned)c.range(1, 12); k < n; k++) s += (char)c.range(lo, hi); return s; }
  }
}
namespace kinds {
// a std::cout that forgets; without a buffer of its own
struct Silent : std::streambuf {
  std::streambuf* old;
  int overflow(int ch) override { return ch == EOF ? 0 : ch; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
  Silent() : old(std::cout.rdbuf(this)) {}
  ~Silent() { std::cout.rdbuf(old); }
};
}  // namespace kinds
