#!/usr/bin/env python3
"""Decide one property of wot-td by symbolic execution of its compiled code.

usage: vf.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]

Builds the executor, the native runner and the harness crate (whose only interesting dependency is
the crate in /repo, as it is now), runs every harness entry of the property through the executor,
replays what the solver found on the compiled code, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: no answer (an error of the check).
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
TC = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()
DEADLINE = 840
sys.path.insert(0, V)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402


def env(flags=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC")) and k not in ("CARGO_HOME",):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", RUSTC_BOOTSTRAP="1",
             CARGO_TERM_COLOR="never", RUSTFLAGS=flags)
    return e


def die(msg):
    print("NO-ANSWER: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def sh(cmd, cwd, e, what, limit=600):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    except subprocess.TimeoutExpired:
        die("%s: took more than %d s" % (what, limit))
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        die("%s failed (%d)" % (what, r.returncode))
    return r.stdout.decode(errors="replace")


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(V, "harness", "src")]
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, l in os.walk(r) for f in l)
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


FLAGS = ("-Zinline-mir=no -C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-inline-threshold=0 "
         "-C llvm-args=-inlinehint-threshold=0 -C llvm-args=-inlinecold-threshold=0")


def build(prop, work):
    os.makedirs(B, exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        def engine():
            e = env()
            e["CARGO_TARGET_DIR"] = os.path.join(B, "engine")
            sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), e, "building the executor")

        def runner():
            sh(["gcc", "-O1", "-rdynamic", "-o", os.path.join(work, "runner"), os.path.join(V, "runner", "runner.c"), "-ldl"],
               V, env(), "building the runner")

        def harness():
            e = env(FLAGS)
            tgt = os.path.join(B, "harness")
            e["CARGO_TARGET_DIR"] = tgt
            mark = os.path.join(tgt, ".tree")
            h = tree_hash()
            old = open(mark).read() if os.path.exists(mark) else ""
            if old != h:
                # cargo goes by time stamps; a source file put back with an old one must count too
                for d in ("release", ):
                    fp = os.path.join(tgt, d, ".fingerprint")
                    if os.path.isdir(fp):
                        for n in os.listdir(fp):
                            if n.startswith(("wot-td-", "harness-")):
                                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            sh(["cargo", "rustc", "--release", "--offline", "--features", prop.lower(), "--", "--emit=llvm-ir,link"],
               os.path.join(V, "harness"), e, "building the harness with /repo's code")
            with open(mark, "w") as f:
                f.write(h)
            shutil.copy(os.path.join(tgt, "release", "deps", "harness.ll"), os.path.join(work, "harness.ll"))
            shutil.copy(os.path.join(tgt, "release", "libharness.so"), os.path.join(work, "libharness.so"))

        fs = [ex.submit(f) for f in (engine, runner, harness)]
        for f in fs:
            f.result()


def lst(v):
    return ",".join(str(x) for x in v) if v else "-"


def native(work, entry, params, values):
    """One run of the compiled code. (kind, lines): kind is ok, fail, panic or error."""
    try:
        r = subprocess.run([os.path.join(work, "runner"), os.path.join(work, "libharness.so"), entry, lst(params), lst(values)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=work)
    except subprocess.TimeoutExpired:
        return "error", ["timeout"], ""
    out = r.stdout.decode(errors="replace").split("\n")
    err = r.stderr.decode(errors="replace")
    if r.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS):
        return "panic", out, err
    if r.returncode == 1:
        return "fail", out, err
    if r.returncode == 0 and "DONE" in out:
        return "ok", out, err
    if "ASSUME-FALSE" in out:
        return "assume", out, err
    return "error", out, err


def run_job(work, job, i):
    out = os.path.join(work, "job%d.json" % i)
    left = DEADLINE - (time.time() - T0)
    lim = max(1, min(job.get("time", 600), left))
    cmd = [os.path.join(B, "engine", "release", "lsym"), "--ll", os.path.join(work, "harness.ll"), "--entry", job["entry"],
           "--params", ",".join(map(str, job["params"])), "--out", out, "--max-time", "%.1f" % lim,
           "--samples", str(job.get("samples", 6)), "--max-viol", "3"] + (["--real-hash"] if job.get("real_hash") else [])
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim + 120, cwd=work)
    except subprocess.TimeoutExpired:
        return dict(error="executor did not stop in time")
    if r.returncode != 0 or not os.path.exists(out):
        return dict(error="executor ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-800:]))
    with open(out) as f:
        res = json.load(f)
    res["job_wall_s"] = time.time() - t
    return res


def known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split(" | ")[0].split(" ; "))
                d["text"] = l.split(" | ", 1)[1]
                out.append(d)
    return out


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(B, "engine")
        os.makedirs(B, exist_ok=True)
        sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), e, "building the executor", 1500)
        sys.exit(0)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--only" in a:
        only = a[a.index("--only") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    work = os.path.join(B, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    try:
        rc = decide(prop, tier, seed, c, work, only)
    finally:
        if "--keep" not in a:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, c, work, only):
    build(prop, work)
    t_build = time.time() - T0
    jobs = []
    for h in c["entries"]:
        plist = h.get("thorough" if tier == "thorough" and "thorough" in h else "params", [[]])
        for p in plist:
            j = dict(h)
            j["params"] = list(p) if isinstance(p, (list, tuple)) else [p]
            if only is None or only == j["entry"]:
                jobs.append(j)
    print("%s: %d jobs, built in %.1f s" % (prop, len(jobs), t_build))
    sys.stdout.flush()
    with cf.ThreadPoolExecutor(8) as ex:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("weight", 1))
        futs = {i: ex.submit(run_job, work, jobs[i], i) for i in order}
        res = [futs[i].result() for i in range(len(jobs))]
    errors, viols, findings = [], [], {}
    kf = [k for k in known() if k["property"] == prop]
    tot = dict(paths=0, completed=0, assumed_away=0, asserts=0, assert_queries=0, queries=0, forks=0, instructions=0, hash_calls=0)
    solver, maxq = 0.0, 0.0
    funcs, per, samples = set(), [], []
    covered_queries = 0
    validated = 0
    seen_covers = {}
    to_validate = []
    replays = []
    for i, (j, r) in enumerate(zip(jobs, res)):
        tag = "%s(%s)" % (j["entry"], ",".join(map(str, j["params"])))
        if "error" in r:
            errors.append("%s: %s" % (tag, r["error"]))
            continue
        for k in tot:
            tot[k] += r[k]
        solver += r["solver_s"]
        maxq = max(maxq, r["max_query_s"])
        funcs.update(r["functions"])
        for k, n in r["covers"].items():
            seen_covers.setdefault(j["entry"], {}).setdefault(k, 0)
            seen_covers[j["entry"]][k] += n
        if r["cover_query"] is True:
            covered_queries += 1
        per.append(dict(entry=j["entry"], params=j["params"], paths=r["paths"], completed=r["completed"],
                        asserts=r["asserts"], queries=r["queries"], solver_s=r["solver_s"], wall_s=round(r["job_wall_s"], 2),
                        symbolic_variables=r["max_vars"], cover_query=r["cover_query"]))
        for v in r["violations"]:
            replays.append((tag, j, v))
        if r["incomplete"]:
            errors.append("%s: not explored completely: %s %s" % (tag, r["incomplete"], "; ".join(r["unsupported"][:2])[:600]))
        if r["cover_query"] is False:
            errors.append("%s: the explored paths do not cover the inputs" % tag)
        if not r["violations"] and r["completed"] < 1:
            errors.append("%s: no path completes" % tag)
        for s in r["samples"]:
            to_validate.append((tag, j, s))
    # replay what the solver found on the compiled code
    for tag, j, v in replays:
        panic = v["label"].startswith("panic")
        hit = None
        for _ in range(12):
            kind, out, err = native(work, j["entry"], j["params"], v["values"])
            if (kind == "panic" and panic) or (not panic and ("ASSERT-FAIL " + v["label"]) in out):
                hit = (kind, out, err)
                break
        if hit is None:
            errors.append("%s: the solver's values for '%s' do not reproduce on the compiled code (%s): %s" % (tag, v["label"], kind, v["values"][:40]))
            continue
        k = [k for k in kf if k["entry"] == j["entry"] and k["label"] == v["label"] and not panic]
        if k:
            findings[k[0]["text"]] = True
            continue
        viols.append((tag, j, v, hit))
    # the executor against the compiled code on inputs of its own paths
    def val(x):
        tag, j, s = x
        for _ in range(3):
            kind, out, err = native(work, j["entry"], j["params"], s["values"])
            ob = [int(l[4:]) for l in out if l.startswith("OBS ")]
            cv = [l[6:] for l in out if l.startswith("COVER ")]
            want = s["covers"]
            if j.get("real_hash"):
                # how a map happens to be ordered differs from run to run of the compiled code
                cv, want = [[l for l in w if l != "another order"] for w in (cv, want)]
            if kind == "ok" and ob == [x & (2 ** 64 - 1) for x in s["obs"]] and sorted(cv) == sorted(want):
                return None
        fails = [l for l in out if l.startswith("ASSERT-FAIL")]
        return (tag, kind, fails, s["values"][:40], s["obs"][:40], ob[:40], s["covers"], cv, err[-300:])
    if not viols:
        with cf.ThreadPoolExecutor(8) as ex:
            for x, bad in zip(to_validate, ex.map(val, to_validate)):
                if bad is None:
                    validated += 1
                elif any(k["entry"] == x[1]["entry"] for k in kf):
                    pass
                else:
                    errors.append("executor and compiled code disagree: %s" % (bad,))
        if only is None:
            for h in c["entries"]:
                for need in h.get("covers", []):
                    if not seen_covers.get(h["entry"], {}).get(need):
                        errors.append("%s: '%s' is never reached" % (h["entry"], need))
    for tag, j, s in to_validate[:: max(1, len(to_validate) // 6)][:6]:
        samples.append(dict(entry=tag, symbolic_inputs=s["values"][:24], reached=s["covers"], assertions=s["asserts"]))
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    lines = []
    seen = set()
    for n, (tag, j, v, hit) in enumerate(viols):
        if v["label"] in seen and n > 8:
            continue
        seen.add(v["label"])
        path = os.path.join(V, "replay", "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(dict(property=prop, entry=j["entry"], params=j["params"], violated=v["label"], values=v["values"], call_stack=v["stack"],
                           native_result=hit[0], native_output=hit[1][-20:], native_stderr=hit[2][-1500:],
                           how="build/…/runner libharness.so %s %s %s" % (j["entry"], lst(j["params"]), lst(v["values"]))), f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s" % (tag, v["label"]))
    wot = sorted(f for f in funcs if "wot_td::" in f)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples,
            what="states: symbolic paths explored to their end; transitions: LLVM instructions executed symbolically; traces: solver-chosen inputs of explored paths whose native run agreed with the symbolic one",
            jobs=len(jobs), paths_completed=tot["completed"], paths_ended_by_assumption=tot["assumed_away"], forks=tot["forks"],
            assertions_checked=tot["asserts"], assertions_sent_to_solver=tot["assert_queries"], solver_queries=tot["queries"],
            solver_seconds=round(solver, 3), longest_query_seconds=round(maxq, 3),
            jobs_whose_paths_were_shown_to_cover_all_inputs=covered_queries,
            functions_encoded=len(funcs), functions_of_wot_td=len(wot), functions_of_wot_td_sample=wot[:: max(1, len(wot) // 40)][:40],
            bounds=c["bounds"], outside=c.get("outside", ""), per_job=per[:200],
            violations_replayed=len(viols), known_findings=sorted(findings)),
        assumptions=COMMON_ASSUMPTIONS + c.get("assumptions", []),
        wall_s=round(time.time() - T0, 2), violations=len(viols))
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for t in sorted(findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    print("%s %s: %d paths, %d assertions, %d queries, %.1f s solver, %d functions (%d of wot-td), %d traces validated, %.1f s" % (
        prop, tier, tot["paths"], tot["asserts"], tot["queries"], solver, len(funcs), len(wot), validated, time.time() - T0))
    if lines:
        for e in errors[:5]:
            print("note: " + e)
        for l in lines:
            print(l)
        return 1
    if errors:
        for e in errors[:20]:
            print("NO-ANSWER: " + e)
        return 2
    return 0


if __name__ == "__main__":
    main()
