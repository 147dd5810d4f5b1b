"""Builds and runs the executable-contract harnesses against the real C++ code of /repo."""
import os, subprocess, sys, re, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CXX = ["g++", "-std=gnu++11", "-O1", "-g1", "-DMETIS", "-DNDEBUG", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=undefined", "-fno-sanitize=leak", "-w", "-D_GLIBCXX_ASSERTIONS"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=100000:malloc_fill_byte=90:detect_stack_use_after_return=0:print_legend=0:allocator_may_return_null=1:max_allocation_size_mb=2000",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1")


def all_sources(repo):
    """every library translation unit: src/*.cpp, src/hdagg/*.cpp, utils/*.cpp minus the ones the build leaves out and
    those that need METIS"""
    out = []
    for d in ("src", "src/hdagg", "utils"):
        for f in sorted(os.listdir(os.path.join(repo, d))):
            if f.endswith(".cpp") and f not in ("SuperNodalTools.cpp", "metis_interface.cpp", "FusionDemo.cpp"):
                out.append(os.path.join(d, f))
    return out


def build(repo, out, progs, jobs=8):
    """compile the library sources and the given harness programs; returns {prog: path} or raises RuntimeError"""
    os.makedirs(out, exist_ok=True)
    srcs = [(os.path.join(repo, s), os.path.join(out, s.replace("/", "_") + ".o")) for s in all_sources(repo)]
    srcs += [(os.path.join(ROOT, "replay", p + ".cpp"), os.path.join(out, p + ".o")) for p in progs]
    # big ones first
    srcs.sort(key=lambda x: -os.path.getsize(x[0]))

    def comp(x):
        r = subprocess.run(CXX + ["-ffunction-sections", "-I", os.path.join(repo, "include"), "-I", os.path.join(repo, "include/aggregation"), "-I", os.path.join(ROOT, "replay"),
                                  "-c", x[0], "-o", x[1]], capture_output=True, text=True)
        return x, r
    with ThreadPoolExecutor(jobs) as ex:
        for x, r in ex.map(comp, srcs):
            if r.returncode != 0:
                raise RuntimeError("compiling %s: %s" % (x[0], r.stderr[:3000]))
    lib = [o for s, o in srcs if not s.startswith(ROOT)]
    res = {}
    for p in progs:
        b = os.path.join(out, p)
        r = subprocess.run(CXX + [os.path.join(out, p + ".o")] + lib + ["-Wl,--gc-sections", "-o", b], capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("linking %s: %s" % (p, r.stderr[:3000]))
        res[p] = b
    return res


def run(binary, seed, tlimit, shards, out, extra=(), hard=None):
    """run the harness in parallel shards; returns (fails, stats)"""
    def one(k):
        rep = os.path.join(out, os.path.basename(binary) + ".rep%d" % k)
        cmd = [binary, "--seed", str(seed + 1000 * k if shards > 1 else seed), "--time", str(tlimit), "--shard", "%d/%d" % (k, shards), "--report", rep] + list(extra)
        # the exhaustive part is split between shards; the random part of each shard has its own seed, all cases run
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=ENV, timeout=hard or (tlimit * 6 + 60))
            rc, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        txt = open(rep, errors="replace").read() if os.path.exists(rep) else ""
        return k, rc, err, txt, cmd
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    fails, cases, nontriv, per, samples, done = [], 0, 0, {}, [], 0
    for k, rc, err, txt, cmd in rs:
        m = re.search(r"^FAIL fn=(.*?) case=(\d+) why=(.*)$", txt, re.M)
        if m:
            inp = re.search(r"^INPUT (.*)$", txt, re.M)
            fails.append({"fn": m.group(1), "case": int(m.group(2)), "why": m.group(3), "input": inp.group(1) if inp else "", "cmd": cmd, "log": err[-6000:]})
        elif rc != 0:
            fails.append({"fn": "?", "case": -1, "why": "harness ended with %s" % rc, "input": "", "cmd": cmd, "log": err[-6000:], "infra": True})
        m = re.search(r"^DONE cases=(\d+) nontrivial=(\d+)", txt, re.M)
        if m:
            done += 1
            cases += int(m.group(1))
            nontriv += int(m.group(2))
        for m in re.finditer(r"^PER (.*) (\d+)$", txt, re.M):
            per[m.group(1)] = per.get(m.group(1), 0) + int(m.group(2))
        for m in re.finditer(r"^SAMPLE (.*)$", txt, re.M):
            samples.append(m.group(1))
    return fails, {"cases": cases, "nontrivial": nontriv, "per": per, "samples": samples[:5], "shards_done": done}


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("progs", nargs="+")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", default="/tmp/h")
    ap.add_argument("--time", type=float, default=5)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shards", type=int, default=4)
    ap.add_argument("--fn")
    a = ap.parse_args()
    t = time.time()
    bins = build(a.repo, a.out, a.progs)
    print("build %.1fs" % (time.time() - t))
    for p in a.progs:
        f, s = run(bins[p], a.seed, a.time, a.shards, a.out, ["--fn", a.fn] if a.fn else [])
        print(p, s)
        for x in f:
            print("FAIL", x["fn"], x["case"], x["why"], "\n   ", x["input"][:1500], "\n", x["log"][:1500])
