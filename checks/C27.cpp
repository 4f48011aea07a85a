// variants: rel
// scale: 1 6
// rule: programs of one to four translation units, each including a random sequence of library headers (repeats
//   allowed) and using what they declare, compiled by g++ or clang++ with a random language standard, optimisation
//   level, assertion setting and target, linked and run, every use compared with its known answer; every header
//   alone under every compiler; non-trivial = several units sharing a header, or a header alone
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "pbt.hpp"
extern char** environ;

struct Use { const char* header; const char* code; };  // code: statements ending in a return of whether all is right
static const Use kUses[] = {
    {"BijectiveHash.hpp", R"(sim_ds::SplitMixHash h(20); sim_ds::Xorshift x(20); return h.ihash(h.hash(12345)) == 12345 && h.hash(7) < (1u << 20);)"},
    {"BitReference.hpp", R"(return sizeof(sim_ds::BitReference<struct Anything>*) > 0;)"},
    {"BitVector.hpp", R"(sim_ds::BitVector b(100); b[3] = 1; b[70] = true; b[71] = b[70]; sim_ds::BitVector c(9, 1); c.resize(100, true);
      const sim_ds::BitVector d(b); size_t n = 0; for (auto x : d) n += x; for (bool x : c) n += x; sim_ds::BitVector e{true, false, true};
      return n == 103 && d[3] && !d[4] && d[71] && e.size() == 3 && e[2] && !e[1] && c.size() == 100;)"},
    {"BitsReference.hpp", R"(return sizeof(sim_ds::BitsReference<struct Anything>*) > 0;)"},
    {"CDRWArray.hpp", R"(sim_ds::CDRWArray a(10); a.set(3, 77); a.set(3, 1ull << 40); sim_ds::CDRWVector v(2); v.set(1, 5); v.resize(9); v.set(8, 6);
      return a.get(3) == 1ull << 40 && a.get(4) == 0 && a.size() == 10 && v.size() == 9 && v.get(1) == 5 && v.get(8) == 6 && v.get(5) == 0;)"},
    {"CHT.hpp", R"(sim_ds::CHT<8> t(16); for (int i = 0; i < 50; i++) t.set(i * 31, i); bool ok = t.size() == 50; for (int i = 0; i < 50; i++) ok = ok && t.get(i * 31).first && t.get(i * 31).second == i;
      t.erase(31); return ok && !t.get(31).first && t.size() == 49;)"},
    {"DacVector.hpp", R"(std::vector<size_t> v{1, 500, 3, 70000, 0, 1ull << 40}; sim_ds::DacVector d(v), e(v, std::vector<int>{8, 9, 30}); bool ok = d.size() == 6 && e.size() == 6;
      for (size_t i = 0; i < 6; i++) ok = ok && d[i] == v[i] && e[i] == v[i]; size_t i = 0; for (auto x : d) ok = ok && x == v[i++]; return ok && i == 6;)"},
    {"FitVector.hpp", R"(sim_ds::FitVector f(5, 40, 17); f[7] = 30; f[8] = f[7]; f.push_back(3); sim_ds::FitVector g(std::vector<int>{1, 2, 900}); size_t s = 0; for (auto x : f) s += x;
      return f.size() == 41 && s == 17 * 38 + 63 && g[2] == 900 && f[8] == 30;)"},
    {"Heap.hpp", R"(sim_ds::Heap<> h(std::vector<size_t>{5, 2, 9}); h.push(1); bool ok = h.front() == 1; h.pop(); return ok && h.front() == 2 && h.size() == 3;)"},
    {"InitializableArray.hpp", R"(sim_ds::InitializableArray<int, 9> a(4); a.set(3, 8); a[5] = a[3]; sim_ds::InitializableArrayFolklore<int> f(10, 3); f.set(2, 7);
      int s = 0; for (int x : a) s += x; a.init(1); return s == 44 && a.get(3) == 1 && f.get(2) == 7 && f.get(9) == 3 && f.size() == 10;)"},
    {"MultiBitVector.hpp", R"(sim_ds::MultiBitVector<2> m; m.resize(600); m.set(500, 3); m.build(); sim_ds::MultiBitVector<3> t; t.resize(9); t.set(8, 5); return m[500] == 3 && m[499] == 0 && t[8] == 5 && m.rank(500) == 0;)"},
    {"MultipleVector.hpp", R"(sim_ds::MultipleVector v{4, 1}; v.resize(20); v.set_nested_element<0>(3, 70000); v.set_nested_element<1>(3, 9); return v.nested_element<0>(3) == 70000 && v.nested_element<1>(3) == 9 && v.nested_element<0>(2) == 0 && v.size() == 20;)"},
    {"SuccinctBitVector.hpp", R"(sim_ds::BitVector b(2000); for (int i = 0; i < 2000; i += 3) b[i] = 1; sim_ds::SuccinctBitVector<> s(b); sim_ds::SuccinctBitVector<false> r(b);
      bool threw = false; try { r.select(0); } catch (...) { threw = true; } return s.rank_1(1500) == 500 && r.rank_0(1500) == 1000 && s.select(100) == 300 && threw && s[3] && !s[4];)"},
    {"WaveletTree.hpp", R"(std::vector<uint8_t> v{3, 1, 2, 3, 0, 3, 7}; sim_ds::WaveletTree w(v); bool ok = true; for (size_t i = 0; i < v.size(); i++) ok = ok && w[i] == v[i]; return ok && w.rank(5) == 2;)"},
    {"basic.hpp", R"(std::stringstream s; sim_ds::write_val<int>(5, s); sim_ds::write_vec(std::vector<int>{1, 2}, s); sim_ds::write_string("xyz", s); std::vector<int> v; bool ok = sim_ds::read_val<int>(s) == 5;
      sim_ds::read_vec(s, v); return ok && v.size() == 2 && v[1] == 2 && sim_ds::read_string(s) == "xyz" && sim_ds::size_vec(v) > 0 && sim_ds::millisec_time_in_process([] {}) >= 0;)"},
    {"bit_util.hpp", R"(using namespace sim_ds::bit_util; return popcnt(uint64_t(0xff0)) == 8 && popcnt32(7) == 3 && ctz(uint64_t(8)) == 3 && clz(uint64_t(1)) == 63 && sel(uint64_t(0xb0), 2) == 6 && cnt(uint64_t(0xff), 4) == 4 && bextr(0xabcd, 4, 8) == 0xbc && swap_pi32(1) == 1ull << 32 && width_mask<64> == ~0ull && WidthMask(3) == 7;)"},
    {"bit_util256.hpp", R"(using namespace sim_ds::bit_util; alignas(32) uint64_t a[4] = {1, 0, 6, 0}, b[4]; copy256_epi64(a, b); bool ok = b[2] == 6 && popcnt256(b) == 3 && ctz256(b) == 0 && clz256(b) == 64 + 61;
      xor_map(a, 255, b); ok = ok && b[3] == 1ull << 63; set256_epi1(false, b); return ok && is_zero256(b);)"},
    {"calc.hpp", R"(using namespace sim_ds::calc; std::vector<size_t> l{1, 2, 300, 4}, r; bit_length_frequencies(l, &r); bool ok = r.size() == 9 && r[1] == 1; cummulative_frequency_list(l, &r); ok = ok && r[0] == 4;
      split_positions_optimized_for_dac(l, &r); size_t s = 0; for (auto x : r) s += x; return ok && s == 9 && SizeFitsInBytes(256) == 2 && size_fits<4>(16) == 2 && SizeFitsInBits(9) == 4;)"},
    {"log.hpp", R"(std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); sim_ds::ShowAsBinary<unsigned char>(5); std::cout.rdbuf(old); return o.str().find("00000101") == 0;)"},
    {"sort.hpp", R"(std::vector<int> v{5, 2, 9, 1, 7}, w(v); sim_ds::HeapSort(v.begin(), v.end()); sim_ds::HeapSort(w.begin(), w.end(), [](int a, int b) { return a > b; }); return v == std::vector<int>{1, 2, 5, 7, 9} && w == std::vector<int>{9, 7, 5, 2, 1};)"},
    {"sim_ds.hpp", R"(using namespace sim_ds; FitVector f(5, 40, 17); BitVector b(9, 1); MultiBitVector<2> m; m.resize(9); m.set(8, 3); WaveletTree w(std::vector<uint8_t>{3, 1, 2}); DacVector d(std::vector<size_t>{1, 70000});
      Heap<> h(std::vector<size_t>{5, 2}); std::vector<int> v{5, 2, 9}; HeapSort(v.begin(), v.end()); FactorOracle o("abbab"); pattern_matching::Kmp k("bra"); graph_util::Trie<int> t; t.insert("ab", 5); InitializableArray<int, 9> a(4); a.set(1, 2);
      std::vector<std::string> keys{"ab", "b"}; Samc<uint16_t> s(keys.begin(), keys.end()); alignas(32) uint64_t x[4] = {1, 0, 6, 0};
      return f[39] == 17 && b[8] && m[8] == 3 && w[1] == 1 && d[1] == 70000 && h.front() == 2 && v[0] == 2 && o.accept("bba") && k.find_all("abra").size() == 1 && *t.traverse("ab") == 5 && a.get(1) + a.get(2) == 6 && s.accept("b") && !s.accept("a")
          && bit_util::popcnt256(x) == 3 && bit_util::ctz(uint64_t(8)) == 3;)"},
    {"string_util/FactorOracle.hpp", R"(sim_ds::FactorOracle f("abbab"); return f.accept("bba") && f.accept("") && !f.accept("c");)"},
    {"string_util/PatternMatching.hpp", R"(using namespace sim_ds::pattern_matching; std::string t = "abracadabra"; std::vector<size_t> want{0, 7}; auto p = [&](auto&& m) { return m.find_all(t) == want; };
      return p(Simple("abra")) && p(Kmp("abra")) && p(Bm("abra")) && p(Bom("abra")) && p(TurboBom("abra")) && p(SundayQS("abra")) && p(SundayMS("abra"))
          && PatternMatchSimple(t, "abra") == want && PatternMatchKMP(t, "abra") == want && PatternMatchBM(t, "abra") == want && PatternMatchBOM(t, "abra") == want && PatternMatchTurboBOM(t, "abra") == want
          && PatternMatchSundayQS(t, "abra") == want && PatternMatchSundayMS(t, "abra") == want;)"},
    {"string_util/Samc.hpp", R"(std::vector<std::string> k{"ab", "abc", "b", "cad"}; sim_ds::Samc<uint16_t> s(k.begin(), k.end()); sim_ds::SamcDict<uint16_t> d(k.begin(), k.end()); bool ok = !s.accept("a") && !s.accept("abcd") && d.lookup("x") == d.kSearchError;
      for (auto& x : k) ok = ok && s.accept(x) && d.access(d.lookup(x)) == x; return ok;)"},
    {"string_util/SuffixArray.hpp", R"(std::ostringstream o; auto old = std::cout.rdbuf(o.rdbuf()); sim_ds::SuffixArray a("mississippi"); std::cout.rdbuf(old); std::stringstream s; a.Write(s); bool ok = sim_ds::read_string(s) == "mississippi"; sim_ds::FitVector f(s); return ok && f.size() == 11 && f[0] == 10 && f[10] == 2;)"},
    {"string_util/graph_util.hpp", R"(sim_ds::graph_util::Trie<int> t; t.insert("ab", 5); t.insert("a", 6); return t.traverse("ab") && *t.traverse("ab") == 5 && *t.traverse("a") == 6 && !t.traverse("b");)"},
};
static std::string path_of(size_t h) { return strcmp(kUses[h].header, "sim_ds.hpp") ? std::string("sim_ds/") + kUses[h].header : kUses[h].header; }
constexpr size_t kN = sizeof(kUses) / sizeof(*kUses);

struct Config { std::string compiler; std::vector<std::string> flags; };
static std::string text_of(const Config& g) { std::string s = g.compiler; for (auto& f : g.flags) s += " " + f; return s; }

// a directory of its own for each case, removed with what is in it
static std::string scratch_dir;
struct Scratch {
  Scratch() {
    const char* t = getenv("TMPDIR");
    scratch_dir = std::string(t && *t ? t : "/tmp") + "/pbt-c27-XXXXXX";
    if (!mkdtemp(scratch_dir.data())) { perror("mkdtemp"); _exit(3); }
  }
  ~Scratch() {
    std::error_code e;
    std::filesystem::remove_all(scratch_dir, e);
  }
};
// runs a program; output (both streams, head) in out; -1 when it ended by a signal or could not be started
static int run(const std::vector<std::string>& argv, std::string& out) {
  const std::string log = scratch_dir + "/log";
  posix_spawn_file_actions_t fa;
  posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_addopen(&fa, 1, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  std::vector<char*> a;
  for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str()));
  a.push_back(nullptr);
  pid_t pid;
  int rc = posix_spawnp(&pid, a[0], &fa, nullptr, a.data(), environ), st = 0;
  posix_spawn_file_actions_destroy(&fa);
  if (rc) { out = "cannot be started"; return -1; }
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  std::ifstream f(log);
  out.assign(std::istreambuf_iterator<char>(f), {});
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static bool resources(const std::string& o) {
  for (const char* s : {"internal compiler error", "Killed", "out of memory", "cannot allocate", "memory exhausted", "No space left", "bad_alloc", "terminated", "PLEASE submit a bug report", "unable to execute"})
    if (o.find(s) != std::string::npos) return true;
  return false;
}

struct Unit { std::vector<size_t> headers; std::vector<size_t> uses; };
static std::string source(const Unit& u, size_t number) {
  std::string s;
  for (size_t h : u.headers) s += "#include \"" + path_of(h) + "\"\n";
  s += "#include <cstddef>\n#include <cstdint>\n#include <cstdio>\n#include <iostream>\n#include <sstream>\n#include <string>\n#include <vector>\n";
  s += "namespace {\n";
  for (size_t i = 0; i < u.uses.size(); i++) s += cat("bool use", i, "() {\n", kUses[u.uses[i]].code, "\n}\n");
  s += cat("}\nint unit", number, "() {\n  int bad = 0;\n");
  for (size_t i = 0; i < u.uses.size(); i++) s += cat("  if (!use", i, "()) { std::printf(\"wrong answer: unit ", number, ", ", kUses[u.uses[i]].header, "\\n\"); bad++; }\n");
  return s + "  return bad;\n}\n";
}
static void program(Case& c, const Config& g, const std::vector<Unit>& units) {
  std::string what = text_of(g) + ";";
  for (auto& u : units) { what += " ["; for (size_t h : u.headers) what += cat(" ", kUses[h].header); what += " ]"; }
  NOTE(c, what);
  Scratch guard;
  const std::string d = scratch_dir;
  std::string out, main_src;
  std::vector<std::string> link{g.compiler};
  auto compile = [&](const std::string& stem) {
    std::vector<std::string> cmd{g.compiler, "-w", "-fmax-errors=5", "-c", "-I" PBT_INCLUDE, d + "/" + stem + ".cpp", "-o", d + "/" + stem + ".o"};
    if (g.compiler == "clang++") cmd[2] = "-ferror-limit=5";
    cmd.insert(cmd.end(), g.flags.begin(), g.flags.end());
    int rc = run(cmd, out);
    if (rc != 0 && (rc < 0 || resources(out) || out.find("error:") == std::string::npos)) throw pbt::Discard();
    REQUIRE(rc == 0, "does not compile: ", what, "\n", out.substr(0, 1500));
    link.push_back(d + "/" + stem + ".o");
  };
  for (size_t i = 0; i < units.size(); i++) {
    std::ofstream(d + "/" + cat("unit", i) + ".cpp") << source(units[i], i);
    main_src += cat("int unit", i, "();\n");
  }
  main_src += "int main() { int bad = 0;\n";
  for (size_t i = 0; i < units.size(); i++) main_src += cat("  bad += unit", i, "();\n");
  main_src += "  return bad ? 1 : 0;\n}\n";
  std::ofstream(d + "/main.cpp") << main_src;
  for (size_t i = 0; i < units.size(); i++) compile(cat("unit", i));
  compile("main");
  link.insert(link.end(), {"-o", d + "/prog"});
  int rc = run(link, out);
  if (rc != 0 && (rc < 0 || resources(out) || (out.find("multiple definition") == std::string::npos && out.find("undefined reference") == std::string::npos))) throw pbt::Discard();
  REQUIRE(rc == 0, "does not link: ", what, "\n", out.substr(0, 1500));
  rc = run({d + "/prog"}, out);
  REQUIRE(rc == 0, rc < 0 ? "the program dies: " : "the program answers wrongly: ", what, "\n", out.substr(0, 800));
}
static bool cpu(const char* t) {
  if (!strcmp(t, "haswell")) return __builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi2") && __builtin_cpu_supports("fma");
  return __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512vbmi2") && __builtin_cpu_supports("avx512vpopcntdq") && __builtin_cpu_supports("avx512bitalg") && __builtin_cpu_supports("gfni");
}
static Config config(size_t k) {
  Config g{k % 2 ? "clang++" : "g++", {}};
  static const std::vector<std::string> kinds[] = {{"-std=c++17"}, {"-std=c++17", "-O2", "-DNDEBUG"}, {"-std=c++20", "-O1"}, {"-std=c++17", "-O1", "-march=haswell"}, {"-std=c++20", "-march=icelake-server"}};
  g.flags = kinds[k / 2 % 5];
  for (const char* t : {"haswell", "icelake-server"}) if (g.flags.back() == cat("-march=", t) && !cpu(t)) g.flags.pop_back();
  return g;
}
// every header is enough for the use of what it declares, and may be included in two units of one program
LAW_ENUM(each_header_alone, kN * 4) {
  u64 k = c.enum_index(kN * 4);
  size_t h = k % kN, kind = k / kN;
  c.nontrivial(true);
  program(c, config(kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 8 : 5), {Unit{{h}, {h}}, Unit{{h, h}, {h}}});
}
LAW_FULL(programs_of_several_units, 40, 800, 1.0, false) {
  std::vector<Unit> units(c.weighted({0, 1, 4, 2, 1}));
  std::vector<int> seen(kN);
  for (auto& u : units) {
    u.headers.resize(c.weighted({0, 1, 2, 3, 3, 2, 2, 1, 1}));
    for (auto& h : u.headers) h = c.below(kN);
    std::set<size_t> in(u.headers.begin(), u.headers.end());
    for (size_t h : in) seen[h]++;
    for (size_t h : in) if (c.chance(4, 5)) u.uses.push_back(h);
  }
  Config g = config(c.below(10));
  bool shared = false;
  for (int n : seen) shared |= n > 1;
  c.nontrivial(shared);
  c.label(g.compiler == "g++" ? "g++" : "clang++");
  c.label_if(units.size() > 2, "over two units");
  program(c, g, units);
}
// all headers in one unit, in two orders
LAW_FULL(all_headers_together, 8, 60, 1.0, false) {
  std::vector<Unit> units(2);
  for (auto& u : units) {
    for (size_t h = 0; h < kN; h++) u.headers.push_back(h);
    for (size_t i = kN; --i;) std::swap(u.headers[i], u.headers[c.below(i + 1)]);
    u.uses = u.headers;
  }
  c.nontrivial(true);
  program(c, config(c.below(10)), units);
}
// the examples of the documentation print what is written under them
LAW_ENUM(documented_examples, 8) {
  u64 k = c.enum_index(8);
  const char* doc = k % 2 ? "SuccinctBitVector" : "BitVector";
  Config g = config(k / 2);
  NOTE(c, doc, ".md, ", text_of(g));
  std::ifstream f(cat(PBT_INCLUDE "/../docs/", doc, ".md"));
  std::string code, want;
  bool in = false, out = false;
  for (std::string l; std::getline(f, l);) {
    if (l == "```c++") { in = true; code = want = ""; out = false; continue; }
    if (l == "```") { if (out) break; in = false; continue; }
    if (!in) continue;
    out |= l.find("main()") != std::string::npos;
    code += l + "\n";
    size_t at = l.find("// ");
    if (at != std::string::npos && l.find_first_not_of(' ') == at && l.find_first_not_of("0123456789:", at + 3) == std::string::npos) want += l.substr(at + 3) + "\n";
  }
  if (!out || want.empty()) throw pbt::Discard();
  c.nontrivial(true);
  Scratch guard;
  std::ofstream(scratch_dir + "/main.cpp") << code;
  std::vector<std::string> cmd{g.compiler, "-w", "-I" PBT_INCLUDE, scratch_dir + "/main.cpp", "-o", scratch_dir + "/prog"};
  cmd.insert(cmd.end(), g.flags.begin(), g.flags.end());
  std::string got;
  int rc = run(cmd, got);
  if (rc != 0 && (rc < 0 || resources(got) || got.find("error:") == std::string::npos)) throw pbt::Discard();
  REQUIRE(rc == 0, "the example of ", doc, ".md does not compile: ", text_of(g), "\n", got.substr(0, 1500));
  rc = run({scratch_dir + "/prog"}, got);
  REQUIRE(rc == 0 && got == want, "the example of ", doc, ".md prints\n", got.substr(0, 500), "instead of\n", want);
}
// a project takes the library in by add_subdirectory and target_link_libraries, as the README says
LAW_ENUM(cmake_projects, 8) {
  u64 k = c.enum_index(8);
  static const char* types[] = {"", "Debug", "Release", "RelWithDebInfo"};
  const char* compiler = k % 2 ? "clang++" : "g++";
  NOTE(c, "cmake project, ", compiler, ", build type ", *types[k / 2] ? types[k / 2] : "(none)");
  c.nontrivial(true);
  Scratch guard;
  const std::string d = scratch_dir;
  std::string out, repo = std::filesystem::weakly_canonical(PBT_INCLUDE "/..").string();
  auto project = [&](const std::string& name, bool uses) {
    std::filesystem::create_directory(d + "/" + name);
    std::ofstream(d + "/" + name + "/CMakeLists.txt") << "cmake_minimum_required(VERSION 3.9)\nproject(consumer CXX)\n" << (uses ? cat("add_subdirectory(\"", repo, "\" sim_ds)\n") : "")
        << "set(CMAKE_CXX_STANDARD 17)\nadd_executable(prog main.cpp unit0.cpp" << (uses ? cat(" \"", repo, "/include/sim_ds.cpp\"") : "") << ")\n" << (uses ? "target_link_libraries(prog PRIVATE sim_ds)\n" : "");
    size_t all = 0;
    while (strcmp(kUses[all].header, "sim_ds.hpp")) all++;
    Unit u{{all}, {all}};
    std::ofstream(d + "/" + name + "/unit0.cpp") << (uses ? source(u, 0) : std::string("int unit0() { return 0; }\n"));
    std::ofstream(d + "/" + name + "/main.cpp") << (uses ? "#include \"sim_ds.hpp\"\n" : "") << "int unit0();\nint main() { return unit0(); }\n";
    int rc = run({"cmake", "-S", d + "/" + name, "-B", d + "/" + name + "/out", cat("-DCMAKE_CXX_COMPILER=", compiler), cat("-DCMAKE_BUILD_TYPE=", types[k / 2])}, out);
    if (rc == 0) rc = run({"cmake", "--build", d + "/" + name + "/out"}, out);
    if (rc == 0) rc = run({d + "/" + name + "/out/prog"}, out);
    return rc;
  };
  int rc = project("with", true);
  if (rc == 0) return;
  std::string why = out;
  if (resources(why) || project("without", false) != 0) throw pbt::Discard();
  REQUIRE(false, "a cmake project that uses the library: ", why.substr(0, 1500));
}
