#!/usr/bin/env python3
"""mutate.py [--list] [--only REGEX] OUT.txt: small edits of the library, one at a time (development aid).

An edit that compiles and passes the 60 tests is searched by all checks (C++17 and C++11, -O0, few runs); those that nobody
notices are listed, to be looked at by hand: equivalent, or something the simulator lacks.
"""
import os, random, re, subprocess, sys, shutil, tempfile, concurrent.futures
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "/usr/lib/x86_64-linux-gnu/libboost_context.a"
UT = ["-DBOOST_TEST_DYN_LINK"]
WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=mmap,--wrap=munmap,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"
FILES = ["pull_control_block_cc.ipp", "push_control_block_cc.ipp", "pull_coroutine.ipp", "push_coroutine.ipp", "pull_coroutine.hpp", "push_coroutine.hpp",
         "create_control_block.ipp", "wrap.hpp", "pull_control_block_cc.hpp", "push_control_block_cc.hpp", "decay_copy.hpp", "state.hpp", "disable_overload.hpp"]
JOBS = int(os.environ.get("MUT_JOBS", "4"))
RUNS = os.environ.get("SIM_RUNS", "3000")


def mutants(text):
    """(line number, description, new text)"""
    lines = text.split("\n")
    seen = {text}
    out = []

    def put(i, what, new):
        t = "\n".join(new)
        if t not in seen:
            seen.add(t)
            out.append((i + 1, what, t))

    subs = [(r"if \( (.*)\) \{", r"if ( ! ( \1) ) {"), (r"if \( (.*)\) \{", r"if ( true) {"), (r"if \( (.*)\) \{", r"if ( false) {"), (r"==", "!="), (r"!=", "=="),
            (r"&&(?= )", "||"), (r"\|\|", "&&"), (r"std::move\( ([^()]*)\)", r"\1"), (r"std::forward< \w+ >\( (\w+)\)", r"\1"), (r"std::forward< \w+ >\( (\w+)\)", r"std::move( \1)"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
            (r"\|=", "="), (r"\|= ([^;]*);", r"&= ~ \1;"), (r"state_t::(\w+)", "state_t::none"), (r"state_t::none \}", "state_t::unwind }"), (r"\bauto fn = ", "auto & fn = "), (r"\bauto fn = ", "static auto fn = "),
            (r"std::swap\(([^,]*), ([^)]*)\);", r"\1 = \2;"), (r"\( std::addressof\( t\) \)", "( t)"), (r"nullptr != (\w+)", r"true"), (r"\? 64 :", "? 8 :"), (r" - func_alignment", ""), (r" \+ func_alignment", ""),
            (r"T const&", "T &"), (r"typename std::decay< (\w+) >::type", r"\1"), (r"^(\s+)([^\s].*\(.*\);)$", r"\1\2 \2"), (r"! ", ""), (r"return (.*);", r"return ! ( \1);"), (r"\bc_->", "& * c_, c_->")]
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "template", "namespace", "typedef", "friend")):
            continue
        for a, b in subs:
            for m in re.finditer(a, l):
                n = l[:m.start()] + re.sub(a, b, m.group(0), count=1) + l[m.end():]
                put(i, "%s -> %s" % (s, n.strip()), lines[:i] + [n] + lines[i + 1:])
        if s.endswith(";") and not s.startswith(("return", "}")) and len(l) - len(l.lstrip()) >= 4:
            put(i, "delete: " + s, lines[:i] + [""] + lines[i + 1:])
            put(i, "return before: " + s, lines[:i] + ["return;"] + lines[i:])
            if i + 1 < len(lines) and lines[i + 1].strip().endswith(";"):
                put(i, "swap: %s / %s" % (s, lines[i + 1].strip()), lines[:i] + [lines[i + 1], l] + lines[i + 2:])
        if re.match(r"\w[\w:]*\{.*\},?( \{)?$", s):
            put(i, "delete initialiser: " + s, lines[:i] + (["{"] if s.endswith("{") else [""]) + lines[i + 1:])
        if s == "throw;":
            put(i, "swallow", lines[:i] + [""] + lines[i + 1:])
    return out


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def passes_tests(inc, tmp):
    def one(std):
        exe = os.path.join(tmp, "t%d" % std)
        rc, _ = run(["g++", "-std=c++%d" % std, "-O0", "-DNDEBUG", "-w", "-I", inc] + ["/repo/test/test_coroutine.cpp", "-o", exe, "/usr/lib/x86_64-linux-gnu/libboost_unit_test_framework.a", LIB], 120)
        if rc:
            return "compile"
        rc, o = run([exe], 60)
        return "" if rc == 0 else "test"
    r = ""
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for x in ex.map(one, (11, 14, 17)):
            r = r or x
    return r


FEW = [k for k in range(41) if k <= 10 or k in (14, 16, 25, 26, 35, 36)]    # kinds of value that are searched


def common(std):
    """objects that do not depend on the library"""
    d = os.path.join(tempfile.gettempdir(), "mut-common-%d" % std)
    if not os.path.exists(d + "/done"):
        os.makedirs(d, exist_ok=True)
        cmds = [["g++", "-std=c++%d" % std, "-O1", "-w", "-I", "/repo/include", "-c", os.path.join(ROOT, "sim", f + ".cpp"), "-o", os.path.join(d, f + ".o")] for f in ("world", "main", "gen")]
        cmds += [["g++", "-std=c++%d" % std, "-O0", "-w", "-I", "/repo/include", "-c", "-DSIM_NO_KIND", "-DKIND=%d" % k, os.path.join(ROOT, "sim/kinds.cpp"), "-o", os.path.join(d, "k%d.o" % k)] for k in range(41) if k not in FEW]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for rc, o in ex.map(lambda c: run(c, 300), cmds):
                assert rc == 0, o
        open(d + "/done", "w")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".o")]


def caught(inc, tmp, std):
    by = []
    for std in (std,):
        d = os.path.join(tmp, "s%d" % std)
        os.makedirs(d)
        cmds = [["g++", "-std=c++%d" % std, "-O0", "-w", "-I", inc, "-c", os.path.join(ROOT, "sim", f + ".cpp"), "-o", os.path.join(d, f + ".o")] for f in ("pipeline", "mass")]
        cmds += [["g++", "-std=c++%d" % std, "-O0", "-w", "-I", inc, "-c", "-DKIND=%d" % k, os.path.join(ROOT, "sim/kinds.cpp"), "-o", os.path.join(d, "k%d.o" % k)] for k in FEW]

        def comp(c):
            rc, o = run(c, 300)
            if rc and "pipeline" in " ".join(c):
                return run(c + ["-DSIM_COPYABLE"], 300)[0], "left out"
            if rc and "-DKIND" in " ".join(c):
                rc, _ = run(c + ["-DSIM_COPYABLE"], 300)
                if rc:
                    rc, _ = run(c + ["-DSIM_ALLCALLS=0"], 300)
                if rc:
                    rc, _ = run(c + ["-DSIM_NO_KIND"], 300)
                return rc, "left out"
            return rc, ""
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(comp, cmds))
        if any(r for r, _ in rs):
            return ["uncompilable simulator"]
        left = sum(1 for _, l in rs if l)
        exe = os.path.join(d, "sim")
        rc, o = run(["g++", "-o", exe] + [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o")] + common(std) + [WRAP, LIB, "-lpthread"], 120)
        if rc:
            return ["unlinkable simulator"]
        for i in range(1, 17):
            p = "C%02d" % i
            rc, o = run([exe, "search", "--prop", p, "--seed", "5", "--runs", "1500" if p == "C16" else RUNS, "--jobs", str(JOBS), "--wall", "60", "--replay-dir", d, "--label", "m", "--out", os.path.join(d, "o.json")], 300,
                        env=dict(os.environ, SIM_KNOWN="get-moves-value-out"))
            if rc == 1:
                by.append(p)
                return by      # one is enough here
            if rc:
                by.append("%s rc %d %s" % (p, rc, o[-200:]))
        if left:
            by.append("(%d left out)" % left)
        shutil.rmtree(d)
    return by


def with_edit(f, text, fn):
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        inc = os.path.join(tmp, "include")
        shutil.copytree("/repo/include", inc)
        open(os.path.join(inc, "boost/coroutine2/detail", f), "w").write(text)
        return fn(inc, tmp)
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    lst = "--list" in args
    args = [a for a in args if a != "--list"]
    only = None
    if args and args[0] == "--only":
        only = re.compile(args[1]); args = args[2:]
    todo = []
    for f in FILES:
        src = os.path.join("/repo/include/boost/coroutine2/detail", f)
        if os.path.exists(src) and not (only and not only.search(f)):
            todo += [(f,) + m for m in mutants(open(src).read())]
    if lst:
        for f, line, what, _ in todo:
            print(f, line, what)
        print(len(todo), "edits")
        return
    out = open(args[0], "a")
    random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(todo)
    common(11)
    common(17)
    n = {"compile": 0, "test": 0, "": 0}

    def one(m):
        f, line, what, text = m
        t = with_edit(f, text, passes_tests)
        n[t] += 1
        if t:
            return
        lines = text.split("\n")
        old = False             # inside the part for C++11
        for l in lines[:line]:
            if "BOOST_NO_CXX14_GENERIC_LAMBDAS" in l: old = True
            elif l.startswith(("#else", "#endif")) and old and "HAS_CXXABI" not in l and not (l.startswith("#endif")): old = False
        std = 11 if old or f in ("wrap.hpp", "decay_copy.hpp") else 17
        by = with_edit(f, text, lambda inc, tmp: caught(inc, tmp, std))
        print("%-28s %-5d %-14s %s" % (f, line, " ".join(by) or "SURVIVED", what), file=out, flush=True)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, todo))
    print("done", n, file=out, flush=True)


main()
