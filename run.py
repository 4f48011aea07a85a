#!/usr/bin/env python3
"""Build and run the property checks.

  run.py C02                    run one check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py C02 --replay FILE      run a saved failing case again
  run.py C02 --law NAME         one law only
Each check is one C++ program (checks/<id>.cpp) of several laws, compiled against
$REPO/include (default /repo) in two or more variants and run over generated cases.
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
REPLAYS = os.path.join(ROOT, "replays")
BASE = ["-std=c++17", "-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "engine"), "-I" + os.path.join(ROOT, "checks")]
VARIANTS = {
    # the optimised, assert-free build the project itself makes
    "rel": ["g++", "-O2"],
    # memory errors become visible
    "asan": ["g++", "-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR", "-fno-omit-frame-pointer"],
    # data races become visible
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    # with the project's assertions on, as in a build without a build type
    "dbg": ["g++", "-O1", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    # the hardware paths that the headers select by target macros
    "popcnt": ["g++", "-O2", "-mpopcnt"],
    "avx2": ["g++", "-O2", "-march=haswell"],
    "avx512": ["g++", "-O2", "-march=icelake-server"],
    "O3": ["g++", "-O3"],
    "clang": ["clang++", "-O2"],
}
# the same source built in many ways, as shared objects that one check program loads side by side (header "parts:");
# these come after BASE and may override it
PARTS = {
    "plain": ["g++", "-O2", "-DNDEBUG"],
    "none": ["g++", "-O0"],
    "dbg": ["g++", "-O1", "-D_GLIBCXX_ASSERTIONS"],
    "O3": ["g++", "-O3", "-funroll-loops", "-DNDEBUG"],
    "small": ["g++", "-Os", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
    "uchar": ["g++", "-O2", "-DNDEBUG", "-funsigned-char"],
    "new": ["g++", "-O2", "-std=c++23", "-ftrivial-auto-var-init=zero"],
    "popcnt": ["g++", "-O2", "-DNDEBUG", "-mpopcnt", "-msse4.2"],
    "avx2": ["g++", "-O3", "-DNDEBUG", "-march=haswell"],
    "avx512": ["g++", "-O2", "-march=icelake-server"],
    "clang": ["clang++", "-O2", "-DNDEBUG"],
    "clang-dbg": ["clang++", "-O1", "-D_GLIBCXX_DEBUG", "-ftrivial-auto-var-init=pattern"],
    "clang-avx2": ["clang++", "-O3", "-DNDEBUG", "-march=haswell", "-std=c++20", "-funsigned-char"],
}
NEEDS = {"popcnt": ["popcnt"], "avx2": ["avx2", "bmi1", "bmi2", "abm", "popcnt", "fma", "movbe", "f16c"],
         "avx512": ["avx512f", "avx512vl", "avx512bw", "avx512dq", "avx512cd", "avx512vbmi", "avx512_vbmi2", "avx512ifma", "avx512_vnni", "avx512_bitalg", "avx512_vpopcntdq", "gfni", "vaes", "vpclmulqdq", "avx2", "bmi1", "bmi2", "abm", "adx", "sha_ni"]}


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def spec(pid):
    src = os.path.join(ROOT, "checks", pid + ".cpp")
    text = open(src).read()
    m = re.search(r"^// *variants: *(.*)$", text, re.M)
    vs = (m.group(1).split() if m else []) or ["rel", "asan"]
    r = re.search(r"^// *rule: *((?:.*\n// {3,}.*)*.*)$", text, re.M)
    rule = re.sub(r"\n// *", " ", r.group(1)) if r else ""
    flags = re.search(r"^// *flags: *(.*)$", text, re.M)
    scale = re.search(r"^// *scale: *(\S+) +(\S+)", text, re.M)  # times the case counts written in the laws: quick, thorough
    scale = (float(scale.group(1)), float(scale.group(2))) if scale else (8.0, 12.0)
    parts = re.search(r"^// *parts: *(.*)$", text, re.M)
    return src, vs, rule, (flags.group(1).split() if flags else []), scale, (parts.group(1).split() if parts else [])


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, dn, fn in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            dn.sort()
            for f in sorted(fn):
                q = os.path.join(d, f)
                h.update(q.encode() + b"\0")
                h.update(open(q, "rb").read())
    return h.hexdigest()


class DoesNotCompile(Exception):
    """The uses of the public interface in the check are refused by the compiler."""


def build(pid, variant, src, extra, fuzz=False):
    """Compile; returns the binary.  The cache key is the content of everything compiled in."""
    cmd = (["clang++", "-O1", "-g1", "-fsanitize=fuzzer,address", "-D_GLIBCXX_SANITIZE_VECTOR", "-DPBT_FUZZ"] if fuzz else VARIANTS[variant]) + BASE + ([] if variant == "dbg" else ["-DNDEBUG"]) + extra + [
        '-DPBT_PROPERTY="%s"' % pid, '-DPBT_VARIANT="%s"' % variant, '-DPBT_INCLUDE="%s"' % os.path.join(REPO, "include"), src]
    return compiled(pid, variant, cmd, src, fuzz)


def compiled(pid, variant, cmd, src, fuzz=False):
    key = hashlib.sha256((" ".join(cmd) + tree_hash([os.path.join(REPO, "include"), os.path.join(ROOT, "engine"), *sorted(os.path.join(ROOT, "checks", f) for f in os.listdir(os.path.join(ROOT, "checks")) if f.endswith(".hpp")), src])).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "%s-%s-%s" % (pid, variant, key))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    for old in os.listdir(BUILD):
        if old.startswith("%s-%s-" % (pid, variant)):
            try:
                os.unlink(os.path.join(BUILD, old))
            except OSError:
                pass
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        if "error:" in r.stdout and "internal compiler error" not in r.stdout and "Killed" not in r.stdout:
            # the compiler rejects it; it is the library when the same compiler takes a program without it
            t = subprocess.run([x for x in cmd[:-1] if x not in ("-DPBT_PART", "-shared")] + ["-x", "c++", "-", "-o", tmp], input="#include \"pbt.hpp\"\n#include <boost/align/aligned_allocator.hpp>\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
            if t.returncode == 0 and not fuzz:
                raise DoesNotCompile(variant, r.stdout)
        raise RuntimeError("compiling %s [%s] failed:\n%s" % (pid, variant, r.stdout[-6000:]))
    os.rename(tmp, out)
    return out


def build_part(pid, name, src):
    """The check's source compiled with -DPBT_PART as one shared object that keeps its own copy of everything inline."""
    cmd = [PARTS[name][0]] + BASE + PARTS[name][1:] + ["-shared", "-fPIC", "-fvisibility=hidden", "-Wl,-Bsymbolic", "-DPBT_PART", '-DPBT_PROPERTY="%s"' % pid,
           '-DPBT_VARIANT="%s"' % name, '-DPBT_INCLUDE="%s"' % os.path.join(REPO, "include")] + (["-fno-gnu-unique"] if PARTS[name][0] == "g++" else []) + [src]
    return compiled(pid, "part." + name, cmd, src)


def needs_of(part):
    return NEEDS.get(part.replace("clang-", ""), [])


def build_parts(pid, src, parts, broken, executor):
    """Returns what PBT_PARTS is to say."""
    def one(name):
        try:
            return "%s=%s" % (name, build_part(pid, name, src))
        except DoesNotCompile as e:
            broken.append((name, e.args[1]))
            return None
    return [executor.submit(one, n) for n in parts]


def tsan_runs():
    """The thread sanitizer needs a memory layout that not every system grants."""
    d = tempfile.mkdtemp(prefix="pbt-tsan-")
    try:
        p = os.path.join(d, "a")
        src = "#include <thread>\nint main() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x - 1; }\n"
        r = subprocess.run(["g++", "-fsanitize=thread", "-pthread", "-x", "c++", "-", "-o", p], input=src, text=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return r.returncode == 0 and all(subprocess.run([p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for("tsan")).returncode == 0 for _ in range(5))
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS_BUILT = ""


def env_for(variant, tmp=None):
    e = dict(os.environ)
    if tmp:
        e["TMPDIR"] = tmp
    e.pop("LD_PRELOAD", None)
    e["PBT_PARTS"] = PARTS_BUILT
    e["MALLOC_PERTURB_"] = "165"  # fresh heap memory is never conveniently zero, and always the same
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0:allocator_may_return_null=0"
    e["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                         "hard_rss_limit_mb=3500:max_malloc_fill_size=1048576:malloc_fill_byte=165:detect_stack_use_after_return=0:"
                         "allocator_release_to_os_interval_ms=-1:quarantine_size_mb=16:handle_segv=1")
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--variant")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--fuzz-seconds", type=int)
    a = ap.parse_args()
    pid = a.id
    global PARTS_BUILT
    src, variants, rule, extra, scales, parts = spec(pid)
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.scale is None:
        a.scale = scales[0 if tier == "quick" else 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    os.makedirs(REPLAYS, exist_ok=True)

    if a.replay:
        text = open(a.replay, "rb").read()
        if text.startswith(b"property="):
            if parts:
                bad = []
                with concurrent.futures.ThreadPoolExecutor(8) as ex:
                    PARTS_BUILT = "\n".join(x for x in [f.result() for f in build_parts(pid, src, [p for p in parts if not any(f not in cpu_flags() for f in needs_of(p))], bad, ex)] if x)
                if bad:
                    print("does not compile [%s]:\n%s\nVIOLATION property=%s replay=%s" % (bad[0][0], bad[0][1][:3000], pid, a.replay))
                    return 1
            v = re.search(rb"^variant=(\S+)", text, re.M).group(1).decode()
            if v not in VARIANTS:
                v = variants[0]
            try:
                b = build(pid, v, src, extra)
            except DoesNotCompile as e:
                print("does not compile [%s]:\n%s\nVIOLATION property=%s replay=%s" % (v, e.args[1][:3000], pid, a.replay))
                return 1
            if b"\nlaw=(compiles)\n" in text:
                print("compiles [%s]" % v)
                return 0
            return subprocess.run([b, "--replay", a.replay], env=env_for(v)).returncode
        b = build(pid, "fuzz", src, extra, fuzz=True)
        r = subprocess.run([b, a.replay], env=dict(env_for("fuzz"), PBT_VERBOSE="1")).returncode
        if r:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1 if r else 0

    have = cpu_flags()
    skipped = [v for v in variants if any(f not in have for f in NEEDS.get(v, []))]
    if "tsan" in variants and not tsan_runs():
        skipped.append("tsan")
    variants = [v for v in variants if v not in skipped]
    if a.variant:
        variants = [a.variant]
    broken = []

    def try_build(v):
        try:
            return build(pid, v, src, extra)
        except DoesNotCompile as e:
            broken.append((v, e.args[1]))
            return None
    lacking = [p for p in parts if any(f not in have for f in needs_of(p))]
    skipped += lacking
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        made = build_parts(pid, src, [p for p in parts if p not in lacking], broken, ex)
        bins = dict(zip(variants, ex.map(try_build, variants)))
        PARTS_BUILT = "\n".join(x for x in [f.result() for f in made] if x)
    variants = [v for v in variants if bins[v]]
    t_build = time.time() - t0
    stats, violations, rc = [], 0, 0
    tmp = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
    try:
        hashes = None
        for v in variants:
            sf = os.path.join(tmp, v + ".json")
            ho = os.path.join(tmp, v + ".hashes")
            cmd = [bins[v], "--seed", str(seed), "--tier", tier, "--scale", str(a.scale), "--stats", sf, "--hashes-out", ho, "--replay-dir", REPLAYS, "--workers", "8"]
            if hashes:
                cmd += ["--hashes-in", hashes]
            if a.law:
                cmd += ["--law", a.law]
            sys.stdout.flush()
            r = subprocess.run(cmd, env=env_for(v, tmp))
            if os.path.exists(sf):
                stats.append(json.load(open(sf)))
            if r.returncode == 1:
                violations += 1
                rc = 1
                break
            if r.returncode == 4:  # a failure that did not come back: the other variants may say more
                rc = 2
                continue
            if r.returncode != 0:
                print("check program ended with status %d" % r.returncode, file=sys.stderr)
                rc = 2
                break
            hashes = ho
        fuzz = None
        secs = a.fuzz_seconds if a.fuzz_seconds is not None else (int(os.environ.get("VERIF_FUZZ_SECONDS", "120")) if tier == "thorough" else 0)
        if rc == 0 and secs and not a.law:
            fuzz, frc = run_fuzz(pid, src, extra, seed, secs, tmp)
            if frc:
                violations += 1
                rc = 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if broken and rc != 1:  # nothing else was found: report that users of the interface no longer compile
        v, text = broken[0]
        keep = os.path.join(REPLAYS, "%s-%s-compile" % (pid, v))
        with open(keep, "w") as f:
            f.write("property=%s\nvariant=%s\nlaw=(compiles)\n\n%s" % (pid, v, text[:4000]))
        print("the check no longer compiles against the library [%s]:\n%s" % (v, text[:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, keep))
        violations += 1
        rc = 1

    evals = sum(s.get("evaluations", 0) for s in stats)
    distinct = max([s.get("distinct_nontrivial_so_far", 0) for s in stats] + [0])
    laws, samples = {}, []
    for s in stats:
        for l in s.get("laws", []):
            e = laws.setdefault(l["law"], {"evaluations": 0, "nontrivial": 0, "discarded": 0, "enumerated": l["enumerated"], "labels": {}})
            for k in ("evaluations", "nontrivial", "discarded"):
                e[k] += l[k]
            for k, n in l["labels"].items():
                e["labels"][k] = e["labels"].get(k, 0) + n
            for x in l["samples"][:2]:
                if len([1 for q in samples if q["law"] == l["law"]]) < 2:
                    samples.append({"law": l["law"], "variant": s["variant"], "case": x})
    cov = {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples, "laws": laws,
           "variants": [{k: s.get(k) for k in ("variant", "evaluations", "nontrivial", "discarded", "wall_s")} for s in stats],
           "exhaustive": False, "build_s": round(t_build, 1)}
    if skipped:
        cov["variants_skipped_for_lack_of_system_support"] = skipped
    if broken:
        cov["variants_that_do_not_compile"] = [v for v, _ in broken]
    if fuzz:
        cov["libfuzzer"] = fuzz
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["g++ 13 / x86-64 code generation", "the reference models in checks/%s.cpp" % pid],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    if not a.law and not a.variant:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s -> %s" % (pid, tier, seed, evals, distinct, time.time() - t0, "ok" if rc == 0 else "exit %d" % rc))
    return rc


def run_fuzz(pid, src, extra, seed, secs, tmp):
    """Coverage-guided search over the same laws (thorough tier).  Bounded by time; finding
    nothing in that time is no verdict, finding something is confirmed three times."""
    b = build(pid, "fuzz", src, extra, fuzz=True)
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    art = os.path.join(tmp, "art-")
    log = os.path.join(tmp, "fuzz.log")
    with open(log, "wb") as f:
        subprocess.run([b, corpus, "-seed=%d" % (seed or 1), "-max_total_time=%d" % secs, "-jobs=8", "-workers=8", "-max_len=4096", "-timeout=60", "-rss_limit_mb=3500",
                        "-artifact_prefix=" + art, "-print_final_stats=1"], stdout=f, stderr=f, cwd=tmp, env=env_for("fuzz"))
    execs = 0
    for fn in os.listdir(tmp):
        if fn.startswith("fuzz-") and fn.endswith(".log"):
            t = open(os.path.join(tmp, fn), errors="replace").read()
            execs += sum(int(x) for x in re.findall(r"stat::number_of_executed_units: (\d+)", t))
    info = {"seconds": secs, "executions": execs, "corpus": len(os.listdir(corpus))}
    for fn in sorted(os.listdir(tmp)):
        if fn.startswith("art-crash") or fn.startswith("art-timeout"):
            p = os.path.join(tmp, fn)
            bad = sum(subprocess.run([b, p, "-timeout=60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for("fuzz")).returncode != 0 for _ in range(3))
            if bad == 3:
                keep = os.path.join(REPLAYS, "%s-fuzz-%s" % (pid, fn[4:]))
                subprocess.run([b, "-minimize_crash=1", "-max_total_time=30", "-exact_artifact_path=" + keep, p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_for("fuzz"))
                if not os.path.exists(keep):
                    shutil.copy(p, keep)
                r = subprocess.run([b, keep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(env_for("fuzz"), PBT_VERBOSE="1"))
                print(r.stdout.decode(errors="replace")[:3000])
                print("VIOLATION property=%s replay=%s" % (pid, keep))
                return info, 1
    return info, 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
