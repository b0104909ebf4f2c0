#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and searches one property.

  check.py ID [--tier quick|thorough]      exit 0: held, 1: VIOLATION line, 2: error
  check.py replay FILE                     replays a violation (verbose), exit 1 if it shows
  check.py build [quick|thorough]          only builds
  check.py selftest [RUNS]                 determinism: every run twice, in different processes and job counts
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "replays")
LIB = "/usr/lib/x86_64-linux-gnu/libboost_context.a"
WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=mmap,--wrap=munmap,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"
KINDS = 41
MIN_KINDS = 20  # so many of them must compile

# language mode, optimisation, assertions and compiler all change which code is generated
CONFIGS = {
    "gcc-cxx11-O2-ndebug": ["g++", "-std=c++11", "-O2", "-DNDEBUG"],
    "gcc-cxx17-O1": ["g++", "-std=c++17", "-O1"],
    "clang-cxx14-O1-ndebug": ["clang++", "-std=c++14", "-O1", "-DNDEBUG"],
    "gcc-cxx20-O2": ["g++", "-std=c++20", "-O2"],
    "gcc-cxx14-O0": ["g++", "-std=c++14", "-O0"],
    "gcc-cxx17-O3-ndebug": ["g++", "-std=c++17", "-O3", "-DNDEBUG"],
    "clang-cxx11-O2": ["clang++", "-std=c++11", "-O2"],
    # undefined behaviour that shows no other way ends the run (as a crash)
    "clang-cxx17-O1-ubsan": ["clang++", "-std=c++17", "-O1", "-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=vptr"],
    # threads are pre-empted at single memory accesses of library code
    "clang-cxx17-O1-access": ["clang++", "-std=c++17", "-O1", "-DSIM_ACCESS"],
    # as on compilers without std::align
    "gcc-cxx14-O1-noalign": ["g++", "-std=c++14", "-O1", "-DBOOST_NO_CXX11_STD_ALIGN"],
}
MAIN_CONFIGS = list(CONFIGS)
# segmented stacks: split stacks, the ucontext backend of Boost.Context; the linker has to be gold
SPLIT = ["-DSIM_SPLIT", "-DBOOST_USE_UCONTEXT", "-DBOOST_USE_SEGMENTED_STACKS"]
SPLIT_FLAGS = ["-fsplit-stack", "-fcf-protection=none"]
SPLIT_WRAP = ",--wrap=__splitstack_makecontext,--wrap=syscall"
CONFIGS.update({
    "gcc-cxx17-O1-split": ["g++", "-std=c++17", "-O1"] + SPLIT,
    "gcc-cxx11-O2-split": ["g++", "-std=c++11", "-O2", "-DNDEBUG"] + SPLIT,
    "clang-cxx14-O2-split": ["clang++", "-std=c++14", "-O2", "-DNDEBUG"] + SPLIT,
    "gcc-cxx20-O0-split": ["g++", "-std=c++20", "-O0"] + SPLIT,
})
SPLIT_CONFIGS = [n for n in CONFIGS if n.endswith("-split")]
# the compiler reports every access of library code (only the instrumentation is used, the sanitizer's run-time library is not linked)
LIB_FLAGS = {
    "clang-cxx17-O1-access": ["-fsanitize=thread", "-fsanitize-ignorelist=" + os.path.join(HERE, "sim/access.list"), "-mllvm", "-tsan-instrument-func-entry-exit=0",
                              "-mllvm", "-tsan-instrument-memintrinsics=0", "-mllvm", "-tsan-instrument-atomics=0"],
}
TIERS = {
    "quick": {"configs": ["gcc-cxx11-O2-ndebug", "gcc-cxx17-O1", "clang-cxx14-O1-ndebug", "gcc-cxx20-O2"], "runs": 30000, "wall": 150},
    "thorough": {"configs": MAIN_CONFIGS, "runs": 400000, "wall": 900},
}
EXTRA = {("C14", "quick"): ["clang-cxx17-O1-access"], ("C08", "quick"): ["gcc-cxx14-O1-noalign"]}
PIPE_RUNS = {"quick": 9000, "thorough": 200000}
SPLIT_RUNS = {"quick": 4000, "thorough": 100000}


def configs(prop, tier):
    if prop == "C18":
        return SPLIT_CONFIGS[:3] if tier == "quick" else SPLIT_CONFIGS
    return EXTRA.get((prop, tier), []) + TIERS[tier]["configs"]


REAL = ["boost/coroutine2 headers of /repo (all of them)", "Boost.Context fcontext switching (libboost_context.a)",
        "libstdc++/libgcc unwinder and exception handling", "POSIX threads", "fixedsize, protected and pooled stack allocators",
        "std::function, iterators, range-for"]
STUB = ["thread scheduler: real threads parked on semaphores, the simulator picks the one that runs",
        "simulated stack allocator over an arena with red zones, guard pages and poisoning", "malloc/free/mmap/operator new wrapped to inject failures",
        "value types, callables, exceptions and local objects: booked by the simulator",
        "the program around the coroutines: a generated operation list"]

SPLIT_REAL = ["boost/coroutine2 headers of /repo", "Boost.Context's ucontext backend and segmented_stack (headers), swapcontext",
              "the split-stack runtime of libgcc (segments, morestack)", "libstdc++/libgcc unwinder and exception handling", "POSIX threads"]
SPLIT_STUB = ["the record of the running context (src/fiber.cpp of Boost.Context, not in the installed library), sim/ucontext.cpp",
              "system calls of the split-stack runtime are wrapped to book whose segment every mapping is", "a stack allocator that forwards to segmented_stack, keeps books and can fail",
              "threads run one at a time, the simulator decides which operation runs on one of its own", "values, callables, exceptions and local objects: booked by the simulator",
              "the program around the coroutines: a generated list of decisions"]


def die(msg):
    print("error: " + msg)
    sys.stdout.flush()
    os._exit(2)


def sources_hash(flags):
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(flags).encode())
    return h.hexdigest()[:20]


def compile_one(job):
    """The library may come to need more of a type than before (say, assignment): a kind of value or callable that no longer
    compiles is left out and named in the evidence, it is neither a verdict nor a failure of the check. What can only be moved
    is first made copyable, and a copy then shows in the run."""
    out, cmd, fallbacks = job
    left_out = ""
    for extra, what in [([], "")] + fallbacks:
        r = subprocess.run(cmd + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return out, 0, "", what
    return out, r.returncode, r.stdout, left_out


def build(names):
    """Returns {config: path of the simulator}; compiles what is not there yet."""
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        bins, jobs, todo = {}, [], []
        for n in names:
            flags = CONFIGS[n] + LIB_FLAGS.get(n, [])
            d = os.path.join(BUILD, n + "-" + sources_hash(flags))
            bins[n] = os.path.join(d, "sim")
            if os.path.exists(bins[n]):
                continue
            os.makedirs(d, exist_ok=True)
            todo.append((n, d))
            base = CONFIGS[n] + ["-g0", "-w", "-MD", "-I" + os.path.join(REPO, "include"), "-c"]
            split = n in SPLIT_CONFIGS
            for k in range(0 if split else KINDS):
                o = os.path.join(d, "k%d.o" % k)
                fb = [(["-DSIM_COPYABLE"], "move-only types with value kind %d (copyable instead)" % k),
                      (["-DSIM_ALLCALLS=0"], "unusual callables with value kind %d" % k),
                      (["-DSIM_COPYABLE", "-DSIM_ALLCALLS=0"], "move-only types and unusual callables with value kind %d" % k),
                      (["-DSIM_NO_KIND"], "value kind %d" % k)]
                jobs.append((o, base + LIB_FLAGS.get(n, []) + ["-DKIND=%d" % k, os.path.join(HERE, "sim/kinds.cpp"), "-o", o], fb))
            for f in ("segments", "ucontext", "world", "main", "gen") if split else ("pipeline", "world", "main", "gen", "mass", "segments"):
                o = os.path.join(d, f + ".o")
                special = SPLIT_FLAGS if split and f == "segments" else []
                fb = [(["-DSIM_COPYABLE"], "move-only types in pipelines (copyable instead)")] if f == "pipeline" else []
                jobs.insert(0, (o, base + special + [os.path.join(HERE, "sim", f + ".cpp"), "-o", o], fb))
        left, failed = {d: [] for _, d in todo}, {}
        if jobs:
            with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                for o, rc, txt, what in ex.map(compile_one, jobs):
                    if rc != 0:
                        failed.setdefault(os.path.dirname(o), "compiling %s failed:\n%s" % (o, txt[-6000:]))
                    if what:
                        left[os.path.dirname(o)].append(what)
        for n, d in todo:
            if d not in failed and sum(w.startswith("value kind") for w in left[d]) > KINDS - MIN_KINDS:
                failed[d] = "too many kinds of values do not compile: " + "; ".join(left[d])
            if d in failed:
                # a change may need a newer language than this configuration has: the others decide, and the evidence names it
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
                bins[n] = None
                print("%s: this configuration does not compile and is left out" % n)
                last = failed[d]
                continue
            for f in os.listdir(d):
                if f.endswith(".d"):
                    with open(os.path.join(d, f)) as fh:
                        if re.search(r"/usr/include/boost/coroutine2", fh.read()):
                            die("%s took a header from the system's coroutine2" % f)
            objs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o"))
            cmd = [CONFIGS[n][0], "-o", bins[n] + ".tmp"] + objs + (["-fsplit-stack", "-fuse-ld=gold", WRAP + SPLIT_WRAP] if n in SPLIT_CONFIGS else [WRAP]) + [LIB, "-lpthread"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                die("linking failed:\n" + r.stdout[-6000:])
            with open(os.path.join(d, "left_out.json"), "w") as fh:
                json.dump(left[d], fh)
            os.rename(bins[n] + ".tmp", bins[n])
            for o in objs:
                os.unlink(o)
        if not any(bins.values()):
            die(last)
        # old builds are dropped
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))), key=os.path.getmtime)
        keep = {os.path.dirname(b) for b in bins.values() if b}
        for d in ds[:-20]:
            if d not in keep:
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
    return bins


def known_findings():
    """Entries: 'open: property=ID key=KEY what fails' and 'fixed: property=ID COMMIT what failed'."""
    out = []
    try:
        with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def env():
    e = dict(os.environ)
    e["SIM_KNOWN"] = ",".join(k for _, k, _ in known_findings())
    e.pop("SIM_NOASLR_TRIED", None)
    return e


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = dict(TIERS[tier])
    spec["configs"] = configs(prop, tier)
    print("%s %s: seed %d" % (prop, tier, seed))
    bins = build(spec["configs"])
    tb = time.time() - t0
    print("built in %.1f s" % tb)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    runs = int(os.environ.get("SIM_RUNS", 0)) or (PIPE_RUNS[tier] if prop == "C16" else SPLIT_RUNS[tier] if prop == "C18" else spec["runs"])
    jobs = os.cpu_count() or 4
    results, violation, errors = [], None, []
    for i, n in enumerate(spec["configs"]):
        if not bins[n]:
            continue
        out = os.path.join(BUILD, "out-%s-%d.json" % (prop, os.getpid()))
        wall = spec["wall"]
        if tier == "quick":     # all of it well within 15 minutes, also on a slow machine
            wall = int(max(10, min(wall, (780 - (time.time() - t0)) / (len(spec["configs"]) - i))))
        cmd = [bins[n], "search", "--prop", prop, "--seed", str(seed * 1000 + i), "--runs", str(runs), "--jobs", str(jobs),
               "--wall", str(wall), "--replay-dir", REPLAYS, "--label", n, "--out", out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
        sys.stdout.write(p.stdout)
        sys.stdout.flush()
        try:
            with open(out) as f:
                r = json.load(f)
            os.unlink(out)
        except (OSError, ValueError):
            errors.append("%s: no result (exit %d)" % (n, p.returncode))
            continue
        with open(os.path.join(os.path.dirname(bins[n]), "left_out.json")) as f:
            r["left_out"] = json.load(f)
        for what in r["left_out"]:
            print("%s: left out, does not compile: %s" % (n, what))
        results.append(r)
        if r["replay"]:
            # a fresh process must show the same violation, with the same event log
            q = subprocess.run([bins[n], "replay", r["replay"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
            if q.returncode == 1 and "same violation" in q.stdout:
                violation = (r, q.stdout.strip())
                break
            errors.append("%s: %s did not reproduce: %s" % (n, r["replay"], q.stdout.strip()))
        elif p.returncode != 0:
            errors.append("%s: %s" % (n, r["error"] or "%d violations, none reproduced" % r["found"]))
    wall = time.time() - t0
    evidence(prop, tier, seed, spec, results, violation, errors, wall, tb, [n for n in bins if bins[n]])
    for kp, key, what in known_findings():
        if kp == prop:
            seen = sum(r["counts"].get("known_get_moves", 0) for r in results)
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (prop, what, seen))
    if violation:
        r, txt = violation
        print("%s in configuration %s: %s" % (prop, r["label"], txt))
        print("replay with: python3 %s replay %s" % (os.path.join(HERE, "check.py"), r["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
        return 1
    if errors:
        for e in errors:
            print("error: " + e)
        return 2
    print("%s held in %d runs (%.1f s)" % (prop, sum(r["done"] for r in results), wall))
    return 0


RULE = ("A case is one simulated run: a seed generates a configuration (threads, value kinds, stack allocators, callable forms, stack sizes, "
        "alignment and previous contents, reuse policy) and a list of operations with faults and pre-emptions, executed against the real library in lock-step "
        "with the reference model. A run is non-trivial if control was transferred into a coroutine at least once; runs are distinct if the "
        "hashes of their complete event logs differ.")


def evidence(prop, tier, seed, spec, results, violation, errors, wall, tb, built):
    counts = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
    done = sum(r["done"] for r in results)
    swall = sum(r["wall"] for r in results) or 1e-9
    faults = {k: v for k, v in counts.items() if k.startswith("fault_")}
    probes = {k: v for k, v in counts.items() if not k.startswith("fault_")}
    cov = {
        "evaluations": done,
        "distinct_nontrivial": sum(r["distinct"] for r in results),
        "rule": RULE,
        "samples": [s for r in results for s in r["samples"][:2]],
        "simulated_runs_per_hour": int(done / swall * 3600),
        "seeds": {r["label"]: {"seed": r["seed"], "runs": r["done"], "distinct_event_logs": r["distinct"], "abstract_states": r["states"],
                               "events": r["events"], "longest_run_events": r["max_events"]} for r in results},
        "simulated_time": "the library has no clock; progress is measured in logged events: %d in total" % sum(r["events"] for r in results),
        "state_measure": "abstract states: hash of (model state of every handle and its coroutine, operation, frame depth, running context, thread), counted per configuration in a 2^24 bitmap",
        "faults_fired": faults,
        "probes": probes,
        "configurations": {r["label"]: " ".join(CONFIGS[r["label"]] + (SPLIT_FLAGS if r["label"] in SPLIT_CONFIGS else LIB_FLAGS.get(r["label"], []))) for r in results},
        "left_out": {r["label"]: r["left_out"] for r in results},
        "configurations_left_out": [n for n in spec["configs"] if n not in built],
        "real_code": SPLIT_REAL if prop == "C18" else REAL,
        "stubs": SPLIT_STUB if prop == "C18" else STUB,
        "violations_of_other_properties_seen": sum(r["foreign"] for r in results),
        "search_wall_s": round(swall, 2),
        "build_wall_s": round(tb, 2),
        "errors": errors,
    }
    if violation:
        cov["violation"] = {"replay": violation[0]["replay"], "oracle": violation[0]["tag"] + "/" + violation[0]["code"], "message": violation[0]["msg"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["sampling: what no generated run reached is not decided",
                          "Boost.Context, the compiler's runtime and the allocators underneath behave as specified",
                          "programs stay within the documented preconditions (no resume of a terminated coroutine or of a handle from inside its own coroutine; no transfer inside a catch handler; no callable whose move constructor throws)"],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    label = None
    with open(path) as f:
        for line in f:
            if line.startswith("label "):
                label = line.split()[1]
    if label not in CONFIGS:
        die("no such configuration: %s" % label)
    b = build([label])
    if not b[label]:
        die("configuration %s does not compile" % label)
    return subprocess.run([b[label], "replay", path, "-v"], env=env()).returncode


def selftest(runs):
    bins = build(list(CONFIGS))
    bad = 0
    for n, b in bins.items():
        if not b:
            die("configuration %s does not compile" % n)
        for i in [18] if n in SPLIT_CONFIGS else range(1, 17):
            p = "C%02d" % i
            outs = set()
            for jobs in (8, 3, 8):
                q = subprocess.run([b, "digest", "--prop", p, "--seed", "77", "--runs", str(runs), "--jobs", str(jobs)],
                                   stdout=subprocess.PIPE, text=True, env=env())
                outs.add(hashlib.sha256("\n".join(q.stdout.split("\n")[1:]).encode()).hexdigest())
            if len(outs) != 1:
                bad += 1
                print("not deterministic: %s %s" % (n, p))
    print("selftest: %d configurations x their properties x %d runs x 3: %d differ" % (len(bins), runs, bad))
    return 2 if bad else 0


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    if argv[1] == "build":
        tier = argv[2] if len(argv) > 2 else "quick"
        for n, b in build(list(dict.fromkeys(c for p in ("C01", "C08", "C14", "C18") for c in configs(p, tier)))).items():
            print(n, b)
        return 0
    if argv[1] == "replay":
        return replay(argv[2])
    if argv[1] == "selftest":
        return selftest(int(argv[2]) if len(argv) > 2 else 500)
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in TIERS:
        die("unknown tier " + tier)
    return check(argv[1], tier)


if __name__ == "__main__":
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except BaseException as e:      # an error is never mistaken for a verdict
        print("error: %r" % (e,))
        rc = 2
    sys.exit(rc)
