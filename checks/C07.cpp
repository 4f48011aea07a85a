// variants: rel asan dbg
// rule: histories of appends, resizes, whole-record and single-field writes over record layouts of 1..6 fields
//   of 0..8 bytes, replayed on a table of integers; non-trivial = at least two fields and two records and a
//   field written after its record was made
#include "common.hpp"
#include "sim_ds/MultipleVector.hpp"
using namespace sim_ds;

static u64 maskb(size_t bytes) { return bytes >= 8 ? kMax64 : (u64(1) << bytes * 8) - 1; }

// calls f(std::integral_constant<int, id>)
template <class F> static void with_id(size_t id, F f) {
  switch (id) {
    case 0: f(std::integral_constant<int, 0>()); break;
    case 1: f(std::integral_constant<int, 1>()); break;
    case 2: f(std::integral_constant<int, 2>()); break;
    case 3: f(std::integral_constant<int, 3>()); break;
    case 4: f(std::integral_constant<int, 4>()); break;
    default: f(std::integral_constant<int, 5>()); break;
  }
}
template <class F> static void with_list(const std::vector<u64>& v, F f) {
  using L = std::initializer_list<size_t>;
  switch (v.size()) {
    case 0: f(L{}); break;
    case 1: f(L{v[0]}); break;
    case 2: f(L{v[0], v[1]}); break;
    case 3: f(L{v[0], v[1], v[2]}); break;
    case 4: f(L{v[0], v[1], v[2], v[3]}); break;
    case 5: f(L{v[0], v[1], v[2], v[3], v[4]}); break;
    default: f(L{v[0], v[1], v[2], v[3], v[4], v[5]});
  }
}

using Table = std::vector<std::vector<u64>>;
static void same_record(MultipleVector& mv, size_t i, const std::vector<u64>& rec, const std::vector<size_t>& sz, const std::string& h) {
  const MultipleVector& cv = mv;
  for (size_t id = 0; id < rec.size(); id++)
    with_id(id, [&](auto k) {
      constexpr int Id = decltype(k)::value;
      u64 e = rec[id];
      REQUIRE(cv.nested_element<Id>(i) == e, "field ", id, " of record ", i, " reads ", cv.nested_element<Id>(i), " expected ", e, "; sizes ", show(sz), "; ", h);
      auto b = mv.block(i);
      auto cb = cv.block(i);
      REQUIRE(b.template get<Id>() == e && b.get_at(id) == e && cb.template get<Id>() == e, "field ", id, " of record ", i, " through its block reads ",
              b.template get<Id>(), "/", b.get_at(id), "/", cb.template get<Id>(), " expected ", e, "; sizes ", show(sz), "; ", h);
      REQUIRE((b.template restricted_get<Id, uint8_t>() == uint8_t(e) && cb.template restricted_get<Id, uint8_t>() == uint8_t(e)), "restricted to 8 bits, field ", id);
      REQUIRE((b.template restricted_get<Id, uint16_t>() == uint16_t(e) && cb.template restricted_get<Id, uint16_t>() == uint16_t(e)), "restricted to 16 bits, field ", id);
      REQUIRE((b.template restricted_get<Id, uint32_t>() == uint32_t(e) && cb.template restricted_get<Id, uint32_t>() == uint32_t(e)), "restricted to 32 bits, field ", id);
      REQUIRE((b.template restricted_get<Id, u64>() == e && cb.template restricted_get<Id, u64>() == e), "restricted to 64 bits, field ", id);
    });
}
static void same(MultipleVector& mv, const Table& t, const std::vector<size_t>& sz, const std::string& h) {
  REQUIRE(mv.size() == t.size(), "size ", mv.size(), " expected ", t.size(), "; ", h);
  for (size_t i = 0; i < t.size(); i++) same_record(mv, i, t[i], sz, h);
}

LAW(records_keep_their_fields, 24000, 300000) {
  size_t f = c.range(1, 6);
  std::vector<size_t> sz(f);
  for (auto& s : sz) s = c.chance(1, 12) ? 0 : c.edgy(1, 8);
  if (std::accumulate(sz.begin(), sz.end(), size_t(0)) == 0) sz[0] = 1;
  MultipleVector mv;
  if (c.coin()) mv.set_element_sizes(sz);
  else with_list(std::vector<u64>(sz.begin(), sz.end()), [&](auto l) { mv = MultipleVector(l); });
  size_t bs = std::accumulate(sz.begin(), sz.end(), size_t(0));
  REQUIRE(mv.block_size() == bs && mv.size() == 0, "block size ", mv.block_size(), " expected ", bs);
  for (size_t i = 0; i < f; i++) REQUIRE(mv.element_size(i) == sz[i], "element size ", i);
  Table t;
  std::string h;
  size_t steps = c.range(1, 40), rewrites = 0;
  auto value = [&](size_t id) { return c.coin() ? c.bits(64) & maskb(sz[id]) : c.edgy(0, maskb(sz[id])); };
  auto values = [&]() { std::vector<u64> v; size_t n = c.chance(1, 4) ? c.range(0, f) : f; for (size_t i = 0; i < n; i++) v.push_back(value(i)); return v; };
  for (size_t s = 0; s < steps; s++) {
    switch (c.weighted({5, 2, 2, 2, 8, 2, 1})) {
      case 0: {
        auto v = values();
        with_list(v, [&](auto l) { mv.push_back(l); });
        h += cat("push ", show(v), "; ");
        v.resize(f, 0);
        t.push_back(v);
        break;
      }
      case 1: mv.emplace_back(); t.emplace_back(f, 0); h += "emplace; "; break;
      case 2: { size_t n = c.edgy(0, c.coin() ? 40 : t.size()); mv.resize(n); t.resize(n, std::vector<u64>(f, 0)); h += cat("resize ", n, "; "); break; }
      case 3: {
        size_t n = c.edgy(0, 40);
        auto v = values();
        with_list(v, [&](auto l) { mv.resize(n, l); });
        h += cat("resize ", n, " with ", show(v), "; ");
        v.resize(f, 0);
        t.resize(n, v);
        break;
      }
      case 4: {
        if (t.empty()) break;
        size_t i = c.edgy(0, t.size() - 1), id = c.below(f);
        u64 x = value(id);
        rewrites++;
        with_id(id, [&](auto k) {
          constexpr int Id = decltype(k)::value;
          auto b = mv.block(i);
          switch (c.below(8)) {
            case 0: if (sz[id]) { auto r = mv.set_nested_element<Id>(i, x); REQUIRE(r == x, "set returns ", r); break; }
            // fallthrough: a field without room takes no direct write
            case 1: { auto r = b.template set<Id>(x); REQUIRE(r == x, "set returns ", r); break; }
            case 2: { auto r = b.set_at(id, x); REQUIRE(r == x, "set_at returns ", r); break; }
            case 3: { x &= 0x7fffffff; b.set_at(id, int(x)); break; }            // a plain int literal
            case 4: { x &= 0xff; b.set_at(id, uint8_t(x)); break; }
            case 5: {  // the low bytes only
              uint16_t y = uint16_t(x);
              auto r = b.template restricted_set<Id, uint16_t>(y);
              REQUIRE(r == y, "restricted_set returns ", r);
              u64 m = maskb(std::min<size_t>(2, sz[id]));
              x = (t[i][id] & ~m) | (y & m);
              break;
            }
            case 6: {
              uint32_t y = uint32_t(x);
              b.template restricted_set<Id, uint32_t>(y);
              u64 m = maskb(std::min<size_t>(4, sz[id]));
              x = (t[i][id] & ~m) | (y & m);
              break;
            }
            default: {
              uint8_t y = uint8_t(x);
              b.template restricted_set<Id, uint8_t>(y);
              u64 m = maskb(std::min<size_t>(1, sz[id]));
              x = (t[i][id] & ~m) | (y & m);
            }
          }
        });
        t[i][id] = x;
        h += cat("set ", i, ".", id, "=", x, "; ");
        break;
      }
      case 5: {
        if (t.empty()) break;
        size_t i = c.edgy(0, t.size() - 1);
        auto v = values();
        with_list(v, [&](auto l) { mv.block(i) = l; });
        for (size_t k = 0; k < v.size(); k++) t[i][k] = v[k];
        h += cat("block ", i, "=", show(v), "; ");
        break;
      }
      default: { size_t n = c.below(60); mv.reserve(n); h += cat("reserve ", n, "; "); }
    }
    same(mv, t, sz, h);
  }
  NOTE(c, "field sizes ", show(sz), " ", h);
  c.nontrivial(f > 1 && t.size() > 1 && rewrites);
  c.label_if(std::count(sz.begin(), sz.end(), 8) > 0, "8-byte field");
  c.label_if(std::count(sz.begin(), sz.end(), 0) > 0, "0-byte field");
  MultipleVector cp = mv;
  same(cp, t, sz, h);
  if (!t.empty()) { mv.block(0).set<0>(0); same(cp, t, sz, h); }
  MultipleVector mo = std::move(cp);
  same(mo, t, sz, h);
}

LAW(many_records, 400, 6000) {
  size_t f = c.range(1, 6);
  std::vector<size_t> sz(f);
  for (auto& s : sz) s = c.edgy(1, 8);
  MultipleVector mv;
  mv.set_element_sizes(sz);
  size_t n = c.size(500, 5000, 40000);
  auto r = c.bulk();
  Table t(n, std::vector<u64>(f));
  mv.resize(n);
  for (size_t k = 0; k < n * f; k++) {
    size_t i = r.below(n), id = r.below(f);
    u64 x = r.bits(64) & maskb(sz[id]);
    with_id(id, [&](auto q) { mv.set_nested_element<decltype(q)::value>(i, x); });
    t[i][id] = x;
  }
  NOTE(c, n, " records, field sizes ", show(sz));
  c.nontrivial(n > 1 && f > 1);
  same(mv, t, sz, "");
}
// records of hundreds of fields, wider than any small integer type, whatever integer type the widths are given in
template <class N> static void lay_out(MultipleVector& v, const std::vector<size_t>& sz) { v.set_element_sizes(std::vector<N>(sz.begin(), sz.end())); }
template <int Id> static void one_of_many(Case& c, MultipleVector& v, Table& t, const std::vector<size_t>& sz, size_t i) {
  if ((size_t)Id >= sz.size()) return;
  const MultipleVector& cv = v;
  u64 e = t[i][Id], m = maskb(sz[Id]);
  REQUIRE(cv.element_size(Id) == sz[Id], "width of field ", Id);
  REQUIRE(cv.template nested_element<Id>(i) == e && v.block(i).template get<Id>() == e && v.block(i).get_at(Id) == e && cv.block(i).template get<Id>() == e, "field ", Id, " of record ", i, " of ", sz.size(), " fields, expected ", e);
  if (c.coin()) return;
  u64 x = c.bits(64) & m;
  switch (c.below(3)) {
    case 0: if (sz[Id]) v.template set_nested_element<Id>(i, x); break;
    case 1: v.block(i).template set<Id>(x); break;
    default: v.block(i).set_at(Id, x);
  }
  t[i][Id] = x;
}
LAW(records_of_many_fields, 300, 4000) {
  size_t f = c.weighted({2, 3, 1}) == 0 ? c.range(7, 40) : c.range(30, 330), n = c.range(1, 12);
  std::vector<size_t> sz(f);
  auto r = c.bulk();
  size_t top = c.one_of(std::vector<size_t>{1, 2, 8, 8}), total = 0;
  for (auto& s : sz) { s = r.below(top + 1); total += s; }
  MultipleVector v;
  switch (c.below(5)) {
    case 0: lay_out<uint8_t>(v, sz); break;
    case 1: lay_out<int8_t>(v, sz); break;
    case 2: lay_out<int>(v, sz); break;
    case 3: lay_out<unsigned short>(v, sz); break;
    default: lay_out<size_t>(v, sz);
  }
  NOTE(c, n, " records of ", f, " fields, ", total, " bytes");
  c.label_if(total > 255, "wider than 255 bytes");
  c.nontrivial(total > 255 && n > 1);
  REQUIRE(v.block_size() == total, "a record takes ", v.block_size(), " bytes, expected ", total);
  if (total == 0) return;
  Table t(n, std::vector<u64>(f));
  if (c.coin()) v.resize(n); else for (size_t i = 0; i < n; i++) v.emplace_back();
  REQUIRE(v.size() == n, "size ", v.size(), " expected ", n);
  for (size_t k = 0; k < 3 * f * n; k++) {
    size_t i = r.below(n), id = r.below(f);
    u64 x = r.next() & maskb(sz[id]);
    v.block(i).set_at(id, x);
    t[i][id] = x;
  }
  for (size_t round = 0; round < 2; round++) {
    for (size_t i = 0; i < n; i++) {
      one_of_many<0>(c, v, t, sz, i); one_of_many<6>(c, v, t, sz, i); one_of_many<31>(c, v, t, sz, i); one_of_many<32>(c, v, t, sz, i); one_of_many<63>(c, v, t, sz, i); one_of_many<64>(c, v, t, sz, i);
      one_of_many<100>(c, v, t, sz, i); one_of_many<127>(c, v, t, sz, i); one_of_many<128>(c, v, t, sz, i); one_of_many<200>(c, v, t, sz, i); one_of_many<255>(c, v, t, sz, i); one_of_many<256>(c, v, t, sz, i); one_of_many<299>(c, v, t, sz, i);
    }
    for (size_t i = 0; i < n; i++) for (size_t id = 0; id < f; id++) REQUIRE(v.block(i).get_at(id) == t[i][id], "field ", id, " of record ", i, " reads ", v.block(i).get_at(id), " expected ", t[i][id]);
    if (round == 0) { MultipleVector w(v); std::stringstream s; w.StoreTo(s); MultipleVector u; u.LoadFrom(s); v = c.coin() ? u : w; }
  }
}
LAW(records_without_content, 200, 2000) {
  MultipleVector d;
  REQUIRE(d.size() == 0 && d.block_size() == 0, "a default constructed vector has ", d.size(), " records of ", d.block_size(), " bytes");
  size_t f = c.range(0, 4);
  std::vector<size_t> sz(f, 0);
  NOTE(c, f, " fields of 0 bytes, then one of 2");
  c.nontrivial(f > 0);
  d.set_element_sizes(sz);
  REQUIRE(d.size() == 0 && d.block_size() == 0, f, " fields of 0 bytes: ", d.size(), " records of ", d.block_size(), " bytes");
  MultipleVector copy(d);
  sz.push_back(2);
  copy.set_element_sizes(sz);
  size_t n = c.range(0, 9);
  copy.resize(n);
  REQUIRE(copy.size() == n && copy.block_size() == 2, "then ", copy.size(), " records of ", copy.block_size(), " bytes, expected ", n, " of 2");
}

// each operation on its own, with numbers of records around those where a narrower counter would turn over
LAW_ENUM(every_operation_where_counters_turn, 8 * 9) {
  static const size_t turns[] = {127, 128, 255, 256, 257, 32768, 65536, 66000};
  u64 k = c.enum_index(8 * 9);
  size_t n = turns[k % 8], op = k / 8, f = c.range(1, 4);
  std::vector<size_t> sz(f);
  for (auto& z : sz) z = c.edgy(1, 8);
  auto r = c.bulk();
  auto rec = [&] { std::vector<u64> v(f); for (size_t i = 0; i < f; i++) v[i] = r.bits(64) & maskb(sz[i]); return v; };
  NOTE(c, "operation ", op, " at ", n, " records, field sizes ", show(sz));
  c.nontrivial(f > 1);
  MultipleVector v;
  v.set_element_sizes(sz);
  Table t;
  const std::vector<u64> zero(f, 0), a = rec(), b = rec();
  auto set_all = [&](size_t i) { auto x = rec(); for (size_t id = 0; id < f; id++) with_id(id, [&](auto q) { v.set_nested_element<decltype(q)::value>(i, x[id]); }); t[i] = x; };
  switch (op) {
    case 0: v.resize(n); t.assign(n, zero); break;
    case 1: with_list(a, [&](auto l) { v.resize(n, l); }); t.assign(n, a); break;
    case 2: { size_t m = r.below(n); with_list(a, [&](auto l) { v.resize(m, l); }); with_list(b, [&](auto l) { v.resize(n, l); }); t.assign(m, a); t.resize(n, b); break; }
    case 3: with_list(a, [&](auto l) { v.resize(n + 1 + r.below(n), l); }); v.resize(n); t.assign(n, a); break;
    case 4: v.reserve(n); for (size_t i = 0; i < n; i++) { auto x = rec(); with_list(x, [&](auto l) { v.push_back(l); }); t.push_back(x); } break;
    case 5: for (size_t i = 0; i < n; i++) v.emplace_back(); t.assign(n, zero); break;
    case 6: { v.resize(n); t.assign(n, zero); for (size_t i = 0; i < 60; i++) set_all(i == 0 ? n - 1 : r.below(n)); MultipleVector u(v); v = MultipleVector(); v = std::move(u); break; }
    case 7: { v.resize(n); t.assign(n, zero); for (size_t i = 0; i < 60; i++) set_all(i == 0 ? n - 1 : r.below(n)); std::stringstream s; v.StoreTo(s); MultipleVector u; u.LoadFrom(s); v = u; break; }
    default: v.resize(n); t.assign(n, zero); for (size_t i = 0; i < n; i++) { size_t j = (i * 7919) % n; auto x = rec(); with_list(x, [&](auto l) { v.block(j) = l; }); t[j] = x; }
  }
  auto look = [&](const char* after) {
    REQUIRE(v.size() == t.size(), "size ", v.size(), " expected ", t.size(), " after ", after);
    for (size_t i = 0; i < t.size(); i++) for (size_t id = 0; id < f; id++) REQUIRE(v.block(i).get_at(id) == t[i][id], "field ", id, " of record ", i, " of ", t.size(), " after ", after);
    for (size_t k = 0; k < 30; k++) { size_t i = k ? r.below(t.size()) : t.size() - 1; same_record(v, i, t[i], sz, after); }
  };
  look("the operation");
  for (size_t i = 0; i < 40; i++) set_all(i == 0 ? n - 1 : r.below(n));
  with_list(b, [&](auto l) { v.push_back(l); }); t.push_back(b);
  with_list(a, [&](auto l) { v.resize(t.size() + 3, l); }); t.resize(t.size() + 3, a);
  look("growth");
}

// more than 2^32 bytes of records
LAW_HUGE(beyond_32_bits, 2, 4) {
  pbt::MoreMemory more(6000);
  const size_t two32 = size_t(1) << 32;
  size_t a = c.range(1, 8), b = c.range(1, 8), block = a + b;
  const size_t n = two32 / block + c.range(2, 2000);
  c.nontrivial();
  NOTE(c, n, " records of ", a, "+", b, " bytes");
  MultipleVector v{a, b};
  v.resize(n);
  REQUIRE(v.size() == n, "size ", v.size(), " expected ", n);
  const MultipleVector& cv = v;
  std::map<size_t, std::pair<u64, u64>> m;
  for (size_t k = 0; k < 300; k++) {
    size_t low = c.below(1000), i = k % 3 == 0 ? low : k % 3 == 1 ? n - 1 - std::min(n - 1, low) : c.below(n);
    u64 x = c.bits(64) & maskb(a), y = c.bits(64) & maskb(b);
    switch (c.below(3)) {
      case 0: v.set_nested_element<0>(i, x); v.set_nested_element<1>(i, y); break;
      case 1: v.block(i) = {x, y}; break;
      default: v.block(i).set<0>(x); v.block(i).set_at(1, y);
    }
    m[i] = {x, y};
  }
  for (auto& e : m)
    for (size_t j : {e.first, e.first ^ 1, (e.first * block) % two32 / block, e.first + two32 / block}) {
      if (j >= n) continue;
      auto f = m.find(j);
      u64 x = f == m.end() ? 0 : f->second.first, y = f == m.end() ? 0 : f->second.second;
      REQUIRE(v.nested_element<0>(j) == x && v.nested_element<1>(j) == y, "record ", j, " of ", n);
      REQUIRE(cv.block(j).get<0>() == x && v.block(j).get<1>() == y, "record ", j, " of ", n, " as a block");
    }
}
