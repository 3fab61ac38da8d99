#!/usr/bin/env python3
"""Decide one property by abstract interpretation of /repo's current sources.

usage: check.py <PROPERTY> [--tier quick|thorough] [--job NAME] [--keep] [-v]

Exit 0: held on everything analysed.  Exit 1: VIOLATION line printed.
Exit 2: the analysis itself is broken (never a verdict).
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, argparse
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, ROOT)

BASE = ("-machdep gcc_x86_64 -eva-slevel 1000000 -eva-split-return full "
        "-eva-interprocedural-splits -eva-split-limit 300 -eva-verbose 0 -eva-ilevel 512 "
        "-eva-plevel 3000 -eva-unroll-recursive-calls 20 -eva-auto-loop-unroll 1100 "
        "-eva-alloc-builtin fresh -eva-no-alloc-returns-null -eva-print-callstacks "
        "-kernel-warn-key annot-error=abort").split()
SPLITNAMES = r".*\(len\|length\|count\|offset\|idx\|ret\|size\).*\|r\|n\|i"
REFINED = "-eva-domains cvalue,equality,symbolic-locations,gauges".split()


def run_one(job, tmp, extra, autosplit=""):
    """one Eva run; returns dict with rows/log or error"""
    d = tempfile.mkdtemp(prefix=re.sub(r"\W", "_", job["name"]) + ".", dir=tmp)
    ml = os.path.join(d, "vp.ml")
    shutil.copy(os.path.join(ROOT, "fc", "vp.ml"), ml)
    out = os.path.join(d, "out.json")
    cpp = "-I%s/fc/inc -I%s/harness -I%s/src %s %s" % (
        ROOT, ROOT, REPO, "" if job.get("nodebug") else "-DEMV_DEBUG_ENABLED", job.get("defs", ""))
    if "gen" in job:  # facts read from the tree under analysis
        with open(os.path.join(d, "vp_gen.h"), "w") as f:
            f.write(job["gen"])
        cpp += " -I" + d
    cmd = ["frama-c", "-cpp-extra-args=" + cpp]
    cmd += [os.path.join(ROOT, "harness", job["harness"])]
    cmd += [os.path.join(REPO, "src", s) for s in job.get("srcs", [])]
    cmd += BASE + job.get("opts", []) + extra
    cmd += ["-main", job.get("entry", "main"), "-load-script", ml]
    env = dict(os.environ, VP_OUT=out, HOME=d, TMPDIR=d,
               VP_AUTOSPLIT=autosplit or job.get("autosplit", ""), VP_REPO_SRC=REPO + "/src")
    t0 = time.time()
    lim = job.get("timeout", 420)
    logf = os.path.join(d, "log")
    with open(logf, "wb") as lf:
        p = subprocess.Popen(["prlimit", "--stack=unlimited", "--as=%d" % (job.get("mem", 12) << 30)] + cmd,
                             cwd=d, env=env, stdout=lf, stderr=subprocess.STDOUT)
    err = None
    while True:
        try:
            p.wait(0.25)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            why = "timeout after %ds" % lim if now - t0 > lim else \
                STOPPED if now > STOP["at"] else None
            if why:
                err = why
                p.kill()
                p.wait()
                break
    with open(logf, "rb") as lf:
        log = lf.read().decode("utf8", "replace")
    if os.environ.get("VP_LOG"):  # debugging aid
        with open(os.environ["VP_LOG"], "a") as f:
            f.write(log)
    if not err and p.returncode:
        err = "frama-c exit %d" % p.returncode
    rows = []
    if os.path.exists(out):
        for l in open(out, encoding="utf8", errors="replace"):
            try:
                rows.append(json.loads(l))
            except ValueError:
                err = err or "bad report line"
    if not err and not any(r["k"] == "end" for r in rows):
        err = "no report"
    return {"rows": rows, "log": log, "err": err, "wall": time.time() - t0, "cmd": cmd}


def label(name):
    """'C08,C09: text' -> ({C08, C09}, 'text'); no label: counts for every property"""
    m = re.match(r"(C\d\d(?:,C\d\d)*): (.*)", name)
    return (set(m.group(1).split(",")), m.group(2)) if m else (None, name)


def judge(job, res):
    """undischarged obligations of this run that count for this job"""
    viol = []
    hdir = os.path.join(ROOT, "harness")
    ignore = job.get("ignore", [])
    for r in res["rows"]:
        v = None
        if r["k"] == "mark" and not job.get("anylabel") and label(r["name"])[0] and job["prop"] not in label(r["name"])[0]:
            continue
        if r["k"] == "mark" and r["what"] == "vp_fail" and r["reach"]:
            v = ("check", r["name"], r["fun"], r["file"], r["line"], "obligation '%s' can fail" % r["name"])
        elif r["k"] == "ob":
            in_h = os.path.realpath(r["file"]).startswith(hdir) or r["file"].startswith(hdir)
            if job.get("mode", "func") == "safety":
                # signed/unsigned arithmetic style alarms stay in: they are UB
                v = (r["kind"], r["text"][:160], r["fun"], r["file"], r["line"],
                     "%s %s: %s" % (r["status"], r["kind"], r["text"][:300]))
        if v and not any(re.search(p, v[5] + " " + v[2]) for p in ignore):
            viol.append(v)
    return viol


STOPPED = "stopped, verdict known or out of time"
CONFIRMED = []  # jobs whose violation persisted; two are enough for a verdict
STOP = {"at": float("inf")}  # when running jobs are stopped: verdict known, or out of time


def run_job(job, tmp):
    if len(CONFIRMED) >= 2 or time.time() > STOP["at"]:
        return {"job": job, "rows": [], "log": "", "err": None, "skipped": True, "wall": 0, "viol": []}
    res = run_one(job, tmp, [])
    res["job"] = job
    res["runs"] = 1
    if res["err"]:
        return res
    res["viol"] = judge(job, res)
    unre = [r for r in res["rows"] if r["k"] == "mark" and not r["reach"]]
    if res["viol"] and job.get("refine", True):
        # more precise runs: only what persists counts.  First with the integers
        # that steer the code kept apart, then with relational domains as well.
        for ext in ([], REFINED + job.get("refopts", [])):
            r2 = run_one(dict(job, timeout=job.get("reftimeout", 150)), tmp, ext, SPLITNAMES)
            res["runs"] += 1
            res["wall"] += r2["wall"]
            if r2["err"] == STOPPED:
                return dict(res, err=STOPPED)
            if not r2["err"]:
                res["first_viol"] = res["viol"]
                res["viol"] = judge(job, r2)
                res["rows"], res["log"] = r2["rows"], r2["log"]
                if not res["viol"]:
                    break
    if res["viol"]:
        CONFIRMED.append(job["name"])
        STOP["at"] = min(STOP["at"], time.time() + (0 if len(CONFIRMED) >= 2 else 60))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    import jobs
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    P = jobs.get(a.prop, tier, REPO)
    for j in P["jobs"]:
        j["prop"] = a.prop
    js = [j for j in P["jobs"] if not a.job or re.search(a.job, j["name"])]
    if tier == "quick":
        STOP["at"] = t0 + 800
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % a.prop)
    broken, viol, results = [], [], []
    try:
        with ThreadPoolExecutor(a.j) as ex:
            results = list(ex.map(lambda j: run_job(j, tmp), js))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    funs, marks, nob, nundis = {}, {}, 0, 0
    for r in results:
        j = r["job"]
        if a.v:
            print("job %-40s %6.1fs %s" % (j["name"], r["wall"], r["err"] or "ok"))
        if r.get("skipped"):
            if not CONFIRMED:
                broken.append("job %s: out of time" % j["name"])
            continue
        if r["err"] == STOPPED and CONFIRMED:
            continue
        if r["err"]:
            broken.append("job %s: %s\n%s" % (j["name"], r["err"], r["log"][-350:]))
            continue
        for v in r["viol"]:
            viol.append((j["name"],) + v)
        if "end" not in [x["k"] for x in r["rows"]]:
            broken.append("job %s: incomplete" % j["name"])
        called = set()
        for x in r["rows"]:
            if x["k"] == "fun":
                called.add(x["name"])
                f = funs.setdefault((x["name"], x["file"]), [x["stmts"], 0])
                f[1] = max(f[1], x["reached"])
            elif x["k"] == "mark" and x["what"] in ("vp_reached", "vp_possible"):
                if a.prop not in (label(x["name"])[0] or ({} if j.get("anylabel") else {a.prop})):
                    continue
                k = (j["harness"], x["fun"], x["name"], x["what"])
                marks[k] = marks.get(k, False) or x["reach"]
            elif x["k"] == "ok":
                nob += 1
            elif x["k"] == "ob":
                nob += 1
                nundis += 1
        for m in j.get("must", []):
            if m not in called and "vp_wrap_" + m not in called:
                broken.append("job %s: anchor function %s was not analysed" % (j["name"], m))
    if not a.job and not broken and not any(r.get("skipped") or r["err"] for r in results):
        for (h, f, n, w), ok in sorted(marks.items()):
            if not ok:
                viol.append((h, "impossible", n, f, h, 0,
                             "%s '%s' in %s: no abstract path reaches it (definitely impossible)" %
                             ("behaviour" if w == "vp_possible" else "obligation", n, f)))
    extra = {}
    for fn in P.get("extra", []):
        try:
            b, vs, cov = fn(REPO, tier)
        except Exception as e:  # analysis trouble is never a verdict
            b, vs, cov = ["%s: %r" % (fn.__name__, e)], [], {}
        broken += b
        viol += vs
        extra.update(cov)
    # known findings
    known = []
    kf = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("open: "):
                k = json.loads(l[6:])
                if k["property"] == a.prop:
                    known.append(k)
    rest, hit = [], {}
    for v in viol:
        text = " ".join(str(x) for x in v)
        m = next((k for k in known if re.search(k["match"], text)), None)
        if m:
            hit[m["what"]] = m
        else:
            rest.append(v)
    for w in hit:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    nreached = sum(1 for k, v in marks.items() if v)
    repo_funs = sorted("%s (%d/%d statements)" % (n, s[1], s[0]) for (n, f), s in funs.items()
                       if os.path.join(REPO, "src") in f or not f.startswith(os.path.join(ROOT, "harness"))
                       and not n.startswith("vp_"))
    ev = {
        "property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": P["explain"],
            "rule": P.get("rule", ""),
            "jobs": [{"name": r["job"]["name"], "entry": r["job"].get("entry", "main"),
                      "sources": r["job"].get("srcs", []), "wall_s": round(r["wall"], 1),
                      "skipped_after_two_confirmed_violations": r.get("skipped", False),
                      "stopped_after_a_confirmed_violation": r["err"] == STOPPED,
                      "eva_runs": r["runs"] if "runs" in r else 1} for r in results],
            "functions_analysed": repo_funs,
            "obligations_evaluated_by_eva": nob,
            "undischarged_outside_this_property_or_known": nundis,
            "property_obligations": len(marks),
            "property_obligations_reached": nreached,
            **extra,
        },
        "assumptions": P.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(rest),
    }
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        print("obligations %d undischarged %d marks %d" % (nob, nundis, len(marks)))
    if rest:
        rp = os.path.join(ROOT, "evidence", a.prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in rest:
                f.write("job=%s kind=%s function=%s at %s:%s\n  %s\n" % (v[0], v[1], v[3], v[4], v[5], v[6]))
            for r in results:
                if r.get("viol"):
                    f.write("\n--- Eva alarms with call stacks, job %s ---\n" % r["job"]["name"])
                    keep = False
                    for l in r["log"].splitlines():
                        if l.startswith("["):
                            keep = "alarm" in l
                        if keep:
                            f.write(l + "\n")
            for b in broken:
                f.write("\nanalysis incomplete: %s\n" % b)
        for v in rest[:12]:
            print("  %s:%s: %s [%s] (job %s)" % (v[4], v[5], v[6], v[3], v[0]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if broken:
        for b in broken[:3]:
            print("ANALYSIS-BROKEN " + b)
        return 2
    print("OK property=%s jobs=%d functions=%d obligations=%d wall=%.1fs" % (
        a.prop, len(results), len(repo_funs), nob, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
