"""C24: effects rule over the whole C library (fc/effects.ml)."""
import os, json, glob, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))

def run(repo, tier):
    allc = sorted(os.path.basename(f) for f in glob.glob(repo + "/src/*.c"))
    core = [f for f in allc if f not in ("pcsc.c",)]
    # the back ends of one interface define the same functions: one program each
    alt = [f for f in core if f.startswith("iso8859_")]
    progs = [[f for f in core if f not in alt] + alt[-1:]] + [[f] for f in alt[:-1]]
    broken, viols = [], []
    cov = {"programs": [], "functions": 0, "write_sites": 0, "call_sites": 0, "read_only_parameters": 0, "static_objects": 0}
    for files in progs:
        for dbg in ("-DEMV_DEBUG_ENABLED", ""):
            if not dbg and len(files) == 1:
                continue
            d = tempfile.mkdtemp(prefix="vp_C24_")
            try:
                out = d + "/out.json"
                cmd = ["frama-c", "-c11", "-variadic-no-translation", "-cpp-extra-args=-I%s/fc/inc -I%s/src %s" % (ROOT, repo, dbg)]
                shutil.copy(ROOT + "/fc/effects.ml", d)
                cmd += [repo + "/src/" + f for f in files] + ["-load-script", d + "/effects.ml"]
                env = dict(os.environ, VP_OUT=out, HOME=d, TMPDIR=d, VP_REPO_SRC=repo + "/src", VP_INPUTS=ROOT + "/fc/inputs.txt")
                try:
                    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                    rows = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
                    log = p.stdout.decode("utf8", "replace")
                except subprocess.TimeoutExpired:
                    rows, log = [], "timeout"
                end = [r for r in rows if r["k"] == "end"]
                if not end:
                    broken.append("effects analysis of %s: %s" % (" ".join(files), log[-350:]))
                    continue
                end = end[0]
                cov["programs"].append({"files": files, "debug_events": bool(dbg)})
                if dbg:
                    cov["functions"] += sum(r["k"] == "fun" for r in rows)
                    for k, n in (("write_sites", "writes"), ("call_sites", "calls"), ("read_only_parameters", "const_params"), ("static_objects", "statics")):
                        cov[k] += end[n]
                for r in rows:
                    if r["k"] == "viol":
                        v = ("effects", r["kind"], r["text"], r["fun"], r["file"], r["line"], "%s: %s" % (r["kind"], r["text"]))
                        if v not in viols:
                            viols.append(v)
            finally:
                shutil.rmtree(d, ignore_errors=True)
    if not broken and (cov["functions"] < 100 or cov["write_sites"] < 500):
        broken.append("effects analysis saw only %d functions" % cov["functions"])
    return broken, viols, {"effects": cov}
