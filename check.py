#!/usr/bin/env python3
"""Decide one property: build the harness from /repo's working tree, run the symbolic
executor over every job of the property, replay what it finds against the real code.

  check.py <property> [quick|thorough]      exit 0: held within the bounds, 1: VIOLATION
"""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

TARGET = os.path.join(HERE, "target")
SYMEX = os.path.join(TARGET, "symex/release/symex")
HARNESS = os.path.join(TARGET, "harness/release/harness")


def build(quiet=True):
    """engine and harness; the harness always from /repo's current tree"""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for script, arg in (("symex/build.sh", "symex"), ("harness/build.sh", "harness")):
            r = subprocess.run(["bash", os.path.join(HERE, script), os.path.join(TARGET, arg)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-3000:])
                print("BUILD-FAILED " + script)
                sys.exit(2)


def native(entry, replay, guard=None, timeout=60):
    env = dict(os.environ)
    if guard:
        env["SYM_GUARD"] = guard
    try:
        r = subprocess.run([HARNESS, entry, replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def confirm(job, v):
    """does the real code do what the engine says?"""
    if v["kind"] == "ct":
        return confirm_ct(job, v)
    path = v["replay"]
    for g in ((None,) if v["kind"] in ("check", "panic") else (None, "1", "2")):
        rc, out = native(job["entry"], path, g)
        if rc == 1 and "CHECK-FAILED" in out:
            return True, out.strip().splitlines()[0]
        if isinstance(rc, int) and rc < 0:
            tail = [l for l in out.strip().splitlines() if "panicked" in l or "overflow" in l]
            return True, "signal %d %s" % (-rc, tail[0][:200] if tail else "")
        if rc == "timeout" and v["kind"] == "steps":
            return True, "does not terminate"
    return False, "rc=%s %s" % (rc, out.strip()[:200])


def confirm_ct(job, v):
    txt = open(v["replay"]).read()
    if "---" not in txt:
        return False, "no pair"
    a, b = txt.split("---\n", 1)
    pa, pb = v["replay"] + ".a", v["replay"] + ".b"
    open(pa, "w").write(a)
    open(pb, "w").write(b)
    try:
        r = subprocess.run([SYMEX, "--steptrace", HARNESS, job["entry"], pa, pb], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False, "trace timeout"
    last = r.stdout.strip().splitlines()[-1:] or [""]
    return r.returncode == 1 and "DIVERGE" in r.stdout, last[0][:300]


def run_job(job, outdir, deadline):
    name = job["name"]
    left = deadline - time.time()
    if left < 5:
        return dict(job=job, skipped=True)
    t = min(job["t"], int(left))
    cmd = [SYMEX, HARNESS, job["entry"], "-p", ",".join(str(x) for x in job["p"]) or "0", "-t", str(t),
           "-o", outdir, "-n", name, "-w", str(job.get("w", 2))]
    if job.get("nofeat"):
        cmd += ["--nofeat", job["nofeat"]]
    cmd += job.get("extra", [])
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30)))
    try:
        out, err = p.communicate(timeout=t + 45)
    except subprocess.TimeoutExpired:
        out, err = "", "engine timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if not out:
        try:
            p.communicate(timeout=5)
        except Exception:
            pass
    res = None
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                res = json.loads(l)
            except ValueError:
                pass
    if res is None:
        return dict(job=job, failed="engine gave no result: " + (err or out)[-300:], wall=time.time() - t0)
    r = dict(job=job, res=res, wall=time.time() - t0, confirmed=[], unconfirmed=[], validated=0, mismatches=[])
    for v in res["violations"][:8]:
        ok, what = confirm(job, v)
        v["native"] = what
        (r["confirmed"] if ok else r["unconfirmed"]).append(v)
        if len(r["confirmed"]) >= 3:
            break
    for w in res.get("witnesses", []):
        rc, o = native(job["entry"], w)
        if rc == 0 and "DONE" in o:
            r["validated"] += 1
            r.setdefault("sample", open(w).read()[:600])
        elif rc == 1 and "CHECK-FAILED" in o:
            r["confirmed"].append(dict(kind="check", id=int(re.search(r"CHECK-FAILED (\d+)", o).group(1)), replay=w,
                                       msg="assertion fails natively", func="", native=o.strip().splitlines()[0]))
        elif job.get("panic_ok") and isinstance(rc, int) and rc < 0:
            r["validated"] += 1
        else:
            r["mismatches"].append("%s: rc=%s %s" % (w, rc, o.strip()[:300]))
    return r


def demangle(s):
    m = re.sub(r"Cs[0-9A-Za-z]+_", "", s)
    parts = []
    i = 0
    while i < len(m):
        if m[i].isdigit() and m[i] != "0":
            j = i
            while j < len(m) and m[j].isdigit():
                j += 1
            n = int(m[i:j])
            k = j + (1 if j < len(m) and m[j] == "_" else 0)
            if 0 < n <= len(m) - k:
                parts.append(m[k:k + n])
                i = k + n
                continue
        i += 1
    return "::".join(parts) if parts else s


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build()
    tb = time.time() - t0
    P = J.PROPS[prop]
    todo = J.expand(prop, tier)
    only = os.environ.get("ONLY")
    if only:
        todo = [j for j in todo if re.search(only, j["name"])]
    outdir = os.path.join(HERE, "work", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    budget = 560 if tier == "quick" else 6 * 3600
    deadline = t0 + tb + budget
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    results = []
    todo.sort(key=lambda j: -j["t"])
    nw = int(os.environ.get("JOBS", "8"))
    with cf.ThreadPoolExecutor(nw) as ex:
        for r in ex.map(lambda j: run_job(j, outdir, deadline), todo):
            results.append(r)
    viol, kn, inc, unconf = [], [], [], []
    reached = {}
    tot = dict(paths=0, steps=0, obligations=0, syntactic=0, solver_proved=0, unknown=0, queries=0, solver_s=0.0,
               sat=0, unsat=0, branches=0, forks=0)
    funcs = set()
    validated = 0
    samples = []
    jobs_ev = []
    for r in results:
        j = r["job"]
        label = "%s(%s)%s" % (j["entry"], ",".join(map(str, j["p"])), " -" + j["nofeat"] if j.get("nofeat") else "")
        if r.get("skipped"):
            inc.append(label + ": not started, time budget used up")
            continue
        if r.get("failed"):
            inc.append(label + ": " + r["failed"])
            continue
        res = r["res"]
        for k in tot:
            tot[k] += res.get(k, 0)
        for k, n in res["reached"].items():
            reached["%s:%s" % (j["entry"], k)] = reached.get("%s:%s" % (j["entry"], k), 0) + n
        for f in res["functions"]:
            d = demangle(f)
            if "harness" not in d and ("graviola" in d):
                funcs.add(d)
        validated += r["validated"]
        if r.get("sample") and len(samples) < 3:
            samples.append(dict(job=label, replay=r["sample"]))
        st = "proved"
        if res["violations"]:
            st = "violated"
        elif res["incomplete"] or res["errors"] or res["unknown"]:
            st = "undecided"
            inc.append(label + ": " + "; ".join((res["incomplete"] + res["errors"])[:3]))
        for m in r["mismatches"]:
            inc.append(label + ": native run of a witness disagrees: " + m)
        for v in r["unconfirmed"]:
            unconf.append("%s: %s %s (%s)" % (label, v["kind"], v["msg"], v["native"]))
        for v in r["confirmed"]:
            f = next((k for k in known["findings"] if k["property"] == prop and k["entry"] == j["entry"]
                      and k["id"] == v["id"] and k["kind"] == v["kind"]
                      and (k.get("params") is None or list(k["params"]) == list(j["p"]))), None)
            if f:
                kn.append("property=%s %s" % (prop, f["what"]))
            else:
                viol.append((label, v))
        jobs_ev.append(dict(job=label, status=st, paths=res["paths"], steps=res["steps"], obligations=res["obligations"],
                            by_normalisation=res["syntactic"], by_solver=res["solver_proved"], queries=res["queries"],
                            solver_s=round(res["solver_s"], 2), wall_s=round(r["wall"], 2)))
        # a vacuous job proves nothing
        for rid in j.get("reach", []):
            if res["reached"].get(str(rid), 0) == 0 and st == "proved":
                inc.append("%s: reachability marker %s not reached" % (label, rid))
    for l in sorted(set(kn)):
        print("KNOWN-FINDING: " + l)
    for l in unconf:
        print("UNCONFIRMED (not reported as a violation): " + l)
    for l in inc:
        print("INCONCLUSIVE: " + l[:400])
    cov = dict(
        states=tot["paths"], transitions=tot["steps"], traces_validated_against_impl=validated,
        samples=samples, exhaustive=False,
        bounds=P["bounds"] + " Jobs of this run: see 'jobs' (entry(parameters), -features masked).",
        functions_encoded=sorted(funcs), symbolic_branches=tot["branches"], forks=tot["forks"],
        assertions=tot["obligations"], assertions_by_normalising_simplifier=tot["syntactic"],
        assertions_by_solver=tot["solver_proved"], assertions_undecided=tot["unknown"],
        solver_queries=tot["queries"], solver_sat=tot["sat"], solver_unsat=tot["unsat"],
        solver_seconds=round(tot["solver_s"], 2), jobs=jobs_ev, reached=reached,
        inconclusive=inc, unconfirmed=unconf, known_findings=sorted(set(kn)), build_s=round(tb, 1))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=J.ASSUMPTIONS + P.get("assumptions", []), wall_s=round(time.time() - t0, 1),
              violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d paths, %d instructions, %d assertions (%d simplifier, %d solver, %d undecided), "
          "%d queries, %.1f s solver, %d native replays agree, %.1f s" % (
              prop, tier, len(results), tot["paths"], tot["steps"], tot["obligations"], tot["syntactic"],
              tot["solver_proved"], tot["unknown"], tot["queries"], tot["solver_s"], validated, time.time() - t0))
    if viol:
        for label, v in viol[:5]:
            print("  %s: %s #%s %s [%s] native: %s" % (label, v["kind"], v["id"], v["msg"][:200], demangle(v.get("func", ""))[:300], v["native"]))
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][1]["replay"]))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
