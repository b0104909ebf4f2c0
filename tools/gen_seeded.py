#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from the definitions in seeded_defs.py
and confirms each in a scratch copy: it builds, the 60 tests pass, the demo tells the two trees apart.

  gen_seeded.py [ID...]            generate and confirm
  gen_seeded.py --checks [ID...]   also run every check against the patched copy, quick tier; table in /tmp/seeded.json
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeded_defs

INC = "include/boost/coroutine2/"
LIB = "/usr/lib/x86_64-linux-gnu/libboost_context.a"

DEMO = """#!/bin/bash
# run with cwd = the repository; 0: the property holds, nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ %(std)s -O1 -w -I include "$d/demo.cpp" -o "$t/demo" """ + LIB + """ -lpthread || exit 2
ulimit -c 0
timeout 60 "$t/demo"
"""

PRE = """#include <boost/coroutine2/all.hpp>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <vector>
namespace coro = boost::coroutines2;
#define CHECK(x) do { if ( ! (x) ) { std::printf( "broken: %s (line %d)\\n", #x, __LINE__); std::fflush( stdout); std::_Exit( 1); } } while ( 0)
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(repo, tmp):
    """the test program in the four language modes, one process per case"""
    ps = []
    for std in ("11", "14", "17", "20"):
        exe = os.path.join(tmp, "t" + std)
        cmd = ("g++ -std=gnu++%s -w -I %s/include %s/test/test_coroutine.cpp -o %s %s /usr/lib/x86_64-linux-gnu/libboost_unit_test_framework.a && "
               "for t in $(%s --list_content 2>&1 | grep '^ ' | tr -d '* '); do timeout 60 %s --run_test='*/'$t >/dev/null 2>&1 || { echo failed $t c++%s; exit 1; }; done"
               % (std, repo, repo, exe, LIB, exe, exe, std))
        ps.append(subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    out = [(p.communicate()[0], p.returncode) for p in ps]
    return "".join(o for o, rc in out if rc), all(rc == 0 for o, rc in out)


def one(b, checks):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        run(["git", "clone", "-q", "/repo", repo])
        dst = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(dst, exist_ok=True)
        with open(os.path.join(dst, "demo.cpp"), "w") as f:
            f.write(PRE + b["demo"].lstrip("\n"))
        with open(os.path.join(dst, "demo.sh"), "w") as f:
            f.write(DEMO % {"std": b.get("std", "-std=c++17")})
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        demo = ["bash", os.path.join(dst, "demo.sh")]
        clean = run(demo, cwd=repo)
        for path, old, new, cnt in b["edits"]:
            p = os.path.join(repo, INC + path)
            s = open(p).read()
            if s.count(old) < 1 or (cnt and s.count(old) != abs(cnt) and cnt > 0):
                return b["id"], "edit does not fit %s: %d times %r" % (path, s.count(old), old[:60]), None
            if cnt == 0:
                s = s.replace(old, new)
            elif cnt < 0:      # only the -cnt'th occurrence
                parts = s.split(old)
                s = old.join(parts[:-cnt]) + new + old.join(parts[-cnt:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = run(["git", "-C", repo, "diff"]).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        txt, ok = tests(repo, tmp)
        bad = run(demo, cwd=repo)
        msg = "tests %s, demo clean %d, demo patched %d" % ("pass" if ok else "FAIL " + txt[-300:], clean.returncode, bad.returncode)
        if clean.returncode != 0: msg += "\n" + clean.stdout[-2000:]
        if bad.returncode in (0, 2): msg += "\n" + bad.stdout[-2000:]
        good = ok and clean.returncode == 0 and bad.returncode not in (0, 2)
        res = None
        if checks and good:
            res = {}
            env = dict(os.environ, SIM_REPO=repo, VERIF_SEED="1")
            ids = ["C%02d" % i for i in range(1, 17)] if checks == "all" else [b["property"]]
            for c in ids:
                r = run([sys.executable, os.path.join(ROOT, "check.py"), c], env=env, cwd=ROOT)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + c + " ")]
                res[c] = (r.returncode, len(v), [l for l in r.stdout.splitlines() if "seed" in l or "what" in l][:2] if r.returncode else [])
                if r.returncode not in (0, 1): print(r.stdout[-1500:])
        return b["id"], ("ok    " if good else "BAD   ") + msg, res
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    checks = None
    if args and args[0].startswith("--checks"):
        checks = "all" if args[0] == "--checks=all" else "own"
        args = args[1:]
    table = {}
    for b in seeded_defs.BUGS:
        if b.get("skip") or (args and b["id"] not in args):
            continue
        i, m, r = one(b, checks)
        line = "%-28s %s %s" % (i, b["property"], m)
        if r is not None:
            line += "  caught by: " + (" ".join(c for c, (rc, n, _) in r.items() if rc == 1 and n) or "NONE")
            own = r[b["property"]]
            line += "  own %s" % ("YES" if own[0] == 1 and own[1] else "NO")
            table[i] = r
        print(line, flush=True)
    if checks:
        json.dump(table, open("/tmp/seeded.json", "w"), indent=1)


main()
