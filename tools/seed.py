"""Plant a bug: python3 tools/seed.py SPEC.py   (SPEC defines BUGS: list of dicts)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
PRELUDE = '''import glob, os, sys, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.getcwd())
for p in sorted(glob.glob("/opt/venv/lib/*/site-packages")):
    sys.path.append(p)
'''
DEMO = '#!/bin/bash\nexec python3-vt "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        d = os.path.join(SEEDED, b["id"])
        tmp = tempfile.mkdtemp(prefix="mlseed.")
        wt = os.path.join(tmp, "r")
        sh(f"cp -a /repo {wt}", "/")
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "PATTERN", s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            shutil.rmtree(tmp)
            continue
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", wt).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(b.get("demo_sh", DEMO))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if "demo" in b:
            open(os.path.join(d, "demo.py"), "w").write(PRELUDE + b["demo"].lstrip("\n"))
        if "ll" in b:
            sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
            code = (f"import sys; sys.path.insert(0, {SEEDED!r} + '/../lib'); import llbuild, mlenv; "
                    f"t = mlenv.scratch(); so = llbuild.build_pass(t); ll, lo = llbuild.pair(t, so, 'p', {b['ll']!r}); "
                    f"import shutil; shutil.copy(ll, {d!r} + '/p.ll'); shutil.copy(lo, {d!r} + '/p.loops')")
            subprocess.run(["python3-vt", "-c", code], check=True)
            open(os.path.join(d, "p.cc"), "w").write(b["ll"] + "\n")
        # every removed line must be one of the original repository
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip():
                f = [e[0] for e in b["edits"]]
                if not any(l[1:] in sh("git show 8719e2f:" + x, "/repo").stdout.split("\n") for x in f):
                    print(b["id"], "NOT ORIGINAL:", l)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        clean = sh(f"bash {d}/demo.sh", "/repo", timeout=300)
        dirty = sh(f"bash {d}/demo.sh", wt, timeout=300)
        # the stable tests run in the patched copy through the tutorial's own runner
        t = sh(f"git apply {d}/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh {tmp}/o.json; "
               "git checkout -- .", "/repo", timeout=300)
        try:
            passed = set(json.load(open(f"{tmp}/o.json"))["passed"])
            want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            tests = want <= passed
        except Exception as ex:
            tests = repr(ex)
        good = clean.returncode == 0 and dirty.returncode != 0 and tests is True
        print(b["id"], "OK" if good else "BAD", "clean", clean.returncode, "patched", dirty.returncode, "tests", tests)
        if not good:
            print(clean.stdout[-500:], clean.stderr[-800:], "|", dirty.stdout[-300:], dirty.stderr[-300:])
        shutil.rmtree(tmp)


main(sys.argv[1])
