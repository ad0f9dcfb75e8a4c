#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's working tree.

 1. design: TLC checks the specification modules exhaustively on small constants
 2. spec -> code: behaviours printed by TLC are given to the driver (when the check has them)
 3. driver: the real code is executed (seeded scenarios) and every public call recorded
 4. code -> spec: TLC judges every recorded event against the specification

exit 0: held; exit 1 + VIOLATION line: broken; exit 2: the machinery failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_TREE", "/repo")   # VERIF_TREE/VERIF_EVIDENCE: only for trying planted bugs in scratch copies
PY = "/opt/venv/bin/python"
EVID = os.environ.get("VERIF_EVIDENCE", HERE + "/evidence")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from checks import CHECKS


class MachineryError(Exception):
    pass


def base_env(work):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "VERIF_SEED", "VERIF_TIER", "JAVA_HOME")}
    env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
               PYTHONPYCACHEPREFIX=work + "/pyc", NUMBA_CACHE_DIR=work + "/numba", MPLCONFIGDIR=work + "/mpl",
               TMPDIR=work + "/tmp")
    env.setdefault("HOME", "/root")
    for d in ("pyc", "numba", "mpl", "tmp"):
        os.makedirs(work + "/" + d, exist_ok=True)
    return env


def build(work):
    os.makedirs(work + "/cls")
    src = [os.path.join(HERE, "java", f) for f in sorted(os.listdir(HERE + "/java")) if f.endswith(".java")]
    r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", work + "/cls"] + src, capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stderr[-2000:])


def tlc(work, module, cfg_text, env=None, workers="1", mem="3g", timeout=800, extra=(), tag=None):
    """one TLC run in its own directory; returns (exit code, output, stats)"""
    d = tempfile.mkdtemp(prefix="tlc_" + (tag or module) + "_", dir=work)
    for f in os.listdir(HERE + "/spec"):
        if f.endswith(".tla"):
            os.symlink(os.path.join(HERE, "spec", f), os.path.join(d, f))
    with open(d + "/" + module + ".cfg", "w") as fo:
        fo.write(cfg_text)
    e = base_env(work)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
           "-Djava.io.tmpdir=" + work + "/tmp",
           "-cp", TLA + ":" + work + "/cls", "tlc2.TLC", "-workers", workers, "-metadir", d + "/states",
           "-deadlock", "-noGenerateSpecTE", "-config", module + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    out = r.stdout + r.stderr
    out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Loading ", "Warning", "(Use the")))
    st = [0, 0]
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        st = [int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))]
    return r.returncode, out, st, d


def run_design(work, item):
    """item: dict(module, cfg, [props], [workers]) -- exhaustive check of a specification module"""
    rc, out, st, d = tlc(work, item["module"], item["cfg"], workers=item.get("workers", "2"), tag=item["module"],
                         env=item.get("env"), extra=item.get("extra", ()))
    if item.get("expect_violation"):
        ok = rc in (12, 13) and ("is violated" in out or "was violated" in out)
    else:
        ok = rc == 0 and "Model checking completed. No error has been found" in out
    if not ok:
        raise MachineryError("design check %s failed (rc %d):\n%s" % (item["module"], rc, out[-3000:]))
    return dict(module=item["module"], generated=st[0], distinct=st[1],
                expect_violation=bool(item.get("expect_violation")))


def run_behaviours(work, item, outdir):
    """TLC prints behaviours of the specification (JSON); the driver replays them on the code"""
    f = os.path.join(outdir, item["name"] + ".json")
    env = {"BEHAVIOURS_FILE": f}
    env.update(item.get("env", {}))
    rc, out, st, d = tlc(work, item["module"], item["cfg"], env=env, tag="gen", extra=item.get("extra", ()))
    if rc != 0 and not (item.get("simulate") and rc in (0,)):
        raise MachineryError("behaviour generation %s failed (rc %d):\n%s" % (item["module"], rc, out[-3000:]))
    lines = []
    for ln in out.splitlines():
        m = re.match(r'^"?@@B (.*?)"?$', ln)
        if m:
            s = m.group(1)
            try:
                lines.append(json.loads(s))
            except ValueError:
                lines.append(json.loads(s.encode().decode("unicode_escape")))
    with open(f, "w") as fo:
        json.dump(lines, fo)
    if not lines:
        raise MachineryError("no behaviours generated by " + item["module"] + out[-2000:])
    return dict(module=item["module"], generated=st[0], distinct=st[1], behaviours=len(lines))


def run_trace(work, module, trace, idx):
    vf = os.path.join(work, "verdict_%s_%02d.json" % (module, idx))
    cfg = "INIT TraceInit\nNEXT TraceNext\nINVARIANT Report\n"
    rc, out, st, d = tlc(work, module, cfg, env={"TRACE_FILE": trace, "VERDICT_FILE": vf}, tag="tr%02d" % idx)
    n = sum(1 for _ in open(trace))
    if not os.path.exists(vf):
        raise MachineryError("trace %s was not judged to its end (rc %d):\n%s" % (trace, rc, out[-4000:]))
    v = json.load(open(vf))
    if v["n"] != n:
        raise MachineryError("trace %s: %d of %d events consumed" % (trace, v["n"], n))
    v["bad"] = v["bad"] if isinstance(v["bad"], list) else []
    v["cov"] = v["cov"] if isinstance(v["cov"], dict) else {}
    v["states"] = st
    return v


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    keep = os.environ.get("VERIF_KEEP")
    try:
        rc = decide(pid, chk, tier, seed, work, t0)
    except MachineryError as e:
        print("MACHINERY ERROR property=%s: %s" % (pid, e))
        rc = 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, chk, tier, seed, work, t0):
    build(work)
    outdir = work + "/out"
    os.makedirs(outdir)
    pool = cf.ThreadPoolExecutor(8)
    design = []
    for it in chk.get("design", []):
        if it.get("tier") in (None, tier):
            design.append(pool.submit(run_design, work, it))
    beh = [run_behaviours(work, it, outdir) for it in chk.get("behaviours", []) if it.get("tier") in (None, tier)]

    only = os.environ.get("VERIF_ONLY")
    timings = {"prepare": time.time() - t0}
    # --- drivers (sequential: each forks its own shards)
    jobs = []
    for k, (driver, module) in enumerate(chk["traces"]):
        od = os.path.join(outdir, "d%d" % k)
        os.makedirs(od)
        env = base_env(work)
        env.update(VERIF_OUT=od, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_BEH=outdir, VERIF_PID=pid,
                   VERIF_REPO=REPO, PYTHONPATH=REPO + ":" + HERE + "/lib")
        if only:
            env["VERIF_ONLY"] = only
        lim = 3000 if tier == "thorough" else 600
        wd = os.path.join(od, "cwd")
        os.makedirs(wd)
        try:
            r = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "drivers", driver)], cwd=wd, env=env,
                               capture_output=True, text=True, timeout=lim)
        except subprocess.TimeoutExpired:
            raise MachineryError("driver %s timed out" % driver)
        if os.environ.get("VERIF_VERBOSE"):
            sys.stderr.write(r.stderr[-6000:])
        files = sorted(os.path.join(od, f) for f in os.listdir(od) if f.endswith(".ndjson"))
        files = [f for f in files if os.path.getsize(f) > 0]
        if r.returncode != 0 or not files:
            raise MachineryError("driver %s failed (rc %d):\n%s" % (driver, r.returncode, (r.stdout + r.stderr)[-4000:]))
        jobs += [(module, f) for f in files]
    timings["drive"] = time.time() - t0 - timings["prepare"]
    futs = [pool.submit(run_trace, work, m, f, i) for i, (m, f) in enumerate(jobs)]
    verdicts = [f.result() for f in futs]
    designs = [d.result() for d in design]
    timings["judge"] = time.time() - t0 - timings["prepare"] - timings["drive"]

    # --- verdict
    known = json.load(open(HERE + "/known_findings.json"))["findings"]
    cov, bad, states, events, scen = {}, [], 0, 0, set()
    samples = []
    for (m, f), v in zip(jobs, verdicts):
        for c, n in v["cov"].items():
            cov[c] = cov.get(c, 0) + n
        states += v["states"][0]
        events += v["n"]
        lines = open(f).read().splitlines()
        for ln in lines:
            d = json.loads(ln)
            scen.add(d["sc"])
        if len(samples) < 3 and lines:
            s = lines[min(len(lines) - 1, 1)]
            samples.append(json.loads(s) if len(s) < 4000 else s[:1500] + " ...")
        for b in v["bad"]:
            b["trace"] = f
            bad.append(b)
    new, kf = [], []
    for b in bad:
        hit = [k for k in known if k["property"] == pid and k["scenario"] == b["sc"] and b["clause"] in k["clauses"]]
        (kf if hit else new).append((b, hit[0] if hit else None))
    for k in known:
        if k["property"] == pid and any(h is k for _, h in kf):
            print("KNOWN-FINDING: property=%s %s [%s: %s]" % (pid, k["what"], k["scenario"], ", ".join(k["clauses"])))
    missing = [c for c in chk.get("expect_clauses", []) if cov.get(c, 0) == 0]
    if missing and not new and not only:
        raise MachineryError("clauses never exercised: " + ", ".join(missing))

    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states + sum(d["generated"] for d in designs) + sum(b["generated"] for b in beh),
                            transitions=max(0, states - len(jobs)) + sum(max(0, d["generated"] - 1) for d in designs),
                            traces_validated_against_impl=len(scen), events_judged=events,
                            clause_evaluations=cov, design_checks=designs, behaviours_replayed=beh,
                            samples=samples),
              assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), timings={k: round(v, 1) for k, v in timings.items()},
              violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(EVID + "/%s.json" % pid, "w"), indent=1)
    print("%s: %d scenarios, %d events, %d clause evaluations, %d failing, %.0fs %s" %
          (pid, len(scen), events, sum(cov.values()), len(bad), time.time() - t0, ev["timings"]))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(cov, indent=1))
    if not new:
        return 0
    rd = EVID + "/replay"
    os.makedirs(rd, exist_ok=True)
    seen = {}
    for b, _ in new:
        seen.setdefault((b["sc"], b["clause"]), []).append(b)
    for (sc, cl), bs in list(seen.items())[:12]:
        print("  scenario %s  event #%d %s  clause %s  (x%d) %s" % (sc, bs[0]["line"], bs[0]["ev"], cl, len(bs), bs[0]["info"][:300]))
    first = new[0][0]
    rp = "%s/%s.json" % (rd, pid)
    tr = [json.loads(ln) for ln in open(first["trace"])]
    json.dump(dict(property=pid, seed=seed, tier=tier, scenario=first["sc"], clause=first["clause"],
                   line=first["line"], info=first["info"],
                   reproduce="VERIF_SEED=%d VERIF_TIER=%s VERIF_ONLY='%s' python3 /verif/run.py %s" % (seed, tier, first["sc"], pid),
                   event=tr[first["line"] - 1], events=[e for e in tr if e["sc"] == first["sc"]][:200]), open(rp, "w"))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    main()
