"""Plant a bug: seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}, validated in scratch copies.

    plant.py spec.py ID [--tests] [--check [PROP..]]

spec.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=python source)}"""
import json, os, runpy, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on the code in the current directory; nonzero: broken
W=$(mktemp -d) || exit 9
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=$W/pyc NUMBA_CACHE_DIR=$W/numba MPLCONFIGDIR=$W/mpl MPLBACKEND=Agg OMP_NUM_THREADS=1 SCRATCH=$W
HERE=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    bid = sys.argv[2]
    b = spec[bid]
    S = tempfile.mkdtemp(prefix="plant_%s_" % bid, dir="/tmp")
    T = S + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", T])
        for f, old, new in b["edits"]:
            s = open(T + "/" + f).read()
            if s.count(old) != 1:
                print("%s: %s: %d occurrences" % (bid, f, s.count(old)))
                return 1
            open(T + "/" + f, "w").write(s.replace(old, new))
        diff = sh("git diff", T).stdout
        D = H + "/seeded/" + bid
        os.makedirs(D, exist_ok=True)
        open(D + "/patch.diff", "w").write(diff)
        open(D + "/demo.sh", "w").write(DEMO)
        open(D + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(D + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % D, T)
        print("%s patched demo rc=%d  %s" % (bid, r.returncode, (r.stdout + r.stderr)[-300:].strip().replace("\n", " | ")))
        sh("git stash -q", T)
        r0 = sh("bash %s/demo.sh" % D, T)
        print("%s clean   demo rc=%d  %s" % (bid, r0.returncode, (r0.stdout + r0.stderr)[-300:].strip().replace("\n", " | ") if r0.returncode else ""))
        sh("git stash pop -q", T)
        # lines of the original repository only
        base = "476cb18"
        for f, old, new in b["edits"]:
            rm = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            orig = sh("git show %s:%s" % (base, f), T).stdout.splitlines()
            for l in rm:
                if l.strip() and l not in orig and not any(l in sh("git show %s:%s" % (base, g), T).stdout.splitlines() for g, _, _ in b["edits"]):
                    print("   NOT ORIGINAL:", l)
        if "--tests" in sys.argv:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + T)
            open(S + "/test.sh", "w").write(t)
            sh("bash %s/test.sh %s/out.json" % (S, S), T)
            out = json.load(open(S + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            ok = out.get("passed", [])
            print("   tests:", [x for x in stable if x not in ok] or "stable tests pass")
        if "--check" in sys.argv:
            props = sys.argv[sys.argv.index("--check") + 1:] or [b["property"]]
            for p in props:
                r = sh("python3 %s/run.py %s" % (H, p), T, env=dict(os.environ, VERIF_TREE=T, VERIF_EVIDENCE=S + "/ev", VERIF_SEED="1"))
                print("   check %s rc=%d  %s" % (p, r.returncode, (r.stdout + r.stderr)[-500:].strip()))
    finally:
        shutil.rmtree(S, ignore_errors=True)


main()
