#!/usr/bin/env python3
"""Runs the checks of one property against /repo's working tree.

usage: check.py <property id> [--tier quick|thorough] [--keep]

Builds the harness (Go files under /verif/harness, injected with a build overlay, nothing is written
to /repo), runs its exploration jobs, merges what they covered into evidence/<id>.json, and prints a
VIOLATION line and exits 1 if the property is broken in a way that known_findings.json does not list.
Exit 2: the check itself could not be run.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVDIR = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, VERIF)
from jobs import CHECKS  # noqa: E402


def goenv(version="go1.23.12"):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    env.update(
        HOME="/root",
        PATH="/opt/veriftools/%s/bin:/usr/local/bin:/usr/bin:/bin" % version,
        GOROOT="", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
        GOPATH="/root/go", GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
        GOFLAGS="-mod=mod -buildvcs=false",
    )
    return env


IMPORTS = re.compile(r'^(\s*(?:import\s+)?(?:[A-Za-z_][A-Za-z0-9_]*\s+)?)"([a-z0-9./-]+)"', re.M)

SHIMS = {
    "shim": {"os": "verifos/os", "io/ioutil": "verifos/ioutil"},
    "timeshim": {"time": "verifos/time"},
    "netshim": {"github.com/ethereum/go-ethereum/ethclient": "verifnet/ethclient",
                "github.com/tendermint/tendermint/rpc/client/http": "verifnet/http"},
}


def shim_source(module, text, what):
    """Redirects imports of a source file to the stand-ins."""
    path = SHIMS[what]
    head = re.search(r"^(func|var|type|const)\s", text, re.M)
    end = head.start() if head else len(text)
    return IMPORTS.sub(lambda m: '%s"%s/%s"' % (m.group(1), module, path[m.group(2)]) if m.group(2) in path else m.group(0),
                       text[:end]) + text[end:]


MODPATH = {"shuttermint": "github.com/shutter-network/shutter/shuttermint",
           "shlib": "github.com/shutter-network/shutter/shlib"}


def modfile(job, work):
    """go.mod and go.sum are copied, because the go command may edit them."""
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, job["module"], f), os.path.join(work, f))
    env = goenv(job.get("go", "go1.23.12"))
    env["GOFLAGS"] += " -modfile=" + os.path.join(work, "go.mod")
    return env


def make_overlay(job, work):
    mod = job["module"]
    root = os.path.join(REPO, mod)
    repl = {}
    for f in glob.glob(os.path.join(VERIF, "harness", "verifkit", "*.go")):
        repl[os.path.join(root, "verifkit", os.path.basename(f))] = f
    for rel in job["files"]:
        src = os.path.join(VERIF, "harness", mod, rel)
        paths = sorted(glob.glob(os.path.join(src, "*.go"))) if os.path.isdir(src) else [src]
        for p in paths:
            dst = os.path.join(root, os.path.relpath(p, os.path.join(VERIF, "harness", mod)))
            repl[dst] = p
    # the package's own tests are left out of the harness binary
    pkgdir = os.path.join(root, job["pkg"])
    for t in glob.glob(os.path.join(pkgdir, "*_test.go")):
        repl.setdefault(t, "")
    for f in glob.glob(os.path.join(VERIF, "harness", "verifmap", "*.go")):
        repl[os.path.join(root, "verifmap", os.path.basename(f))] = f
    for pkg in job.get("maporder", []):
        tool = maporder_tool(work)
        dst = os.path.join(work, "gen", "maporder", pkg)
        os.makedirs(dst)
        out = subprocess.run([tool, root, pkg, MODPATH[mod] + "/verifmap", dst], env=modfile(job, work), text=True,
                             stdout=subprocess.PIPE, check=True).stdout
        for line in out.splitlines():
            a, b = line.split("\t")
            repl[a] = b
    if job.get("pairmemo"):
        d = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/ethereum/go-ethereum"], cwd=root,
                           env=modfile(job, work), text=True, stdout=subprocess.PIPE, check=True).stdout.strip()
        d = os.path.join(d, "crypto", "bn256", "cloudflare")
        text = open(os.path.join(d, "bn256.go")).read()
        new = text.replace("\nfunc Pair(", "\nfunc pair(").replace("\nfunc PairingCheck(", "\nfunc pairingCheck(")
        for m in ("Unmarshal", "ScalarBaseMult", "ScalarMult"):
            new = new.replace("\nfunc (e *G2) %s(" % m, "\nfunc (e *G2) %s(" % (m[0].lower() + m[1:]))
        dst = os.path.join(work, "gen", "pairmemo")
        os.makedirs(dst)
        memo = open(os.path.join(VERIF, "harness", "pairmemo", "memo.go.txt")).read()
        new += memo[memo.index("\n"):]
        open(os.path.join(dst, "bn256.go"), "w").write(new)
        repl[os.path.join(d, "bn256.go")] = os.path.join(dst, "bn256.go")
    if any(job.get(what) for what in SHIMS):
        for f in glob.glob(os.path.join(VERIF, "harness", "verifos", "*", "*.go")) + glob.glob(os.path.join(VERIF, "harness", "verifnet", "*", "*.go")):
            rel = os.path.relpath(f, os.path.join(VERIF, "harness"))
            text = open(f).read().replace("MODULE/", MODPATH[mod] + "/")
            dst = os.path.join(work, "gen", rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            open(dst, "w").write(text)
            repl[os.path.join(root, rel)] = dst
        for pkg in sorted(set(sum((job.get(what, []) for what in SHIMS), []))):
            for f in glob.glob(os.path.join(root, pkg, "*.go")):
                if f.endswith("_test.go"):
                    continue
                new = text = open(f).read()
                for what in SHIMS:
                    if pkg in job.get(what, []):
                        new = shim_source(MODPATH[mod], new, what)
                if new != text:
                    dst = os.path.join(work, "gen", "src", pkg, os.path.basename(f))
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    open(dst, "w").write(new)
                    repl[f] = dst
    path = os.path.join(work, "overlay.json")
    json.dump({"Replace": repl}, open(path, "w"), indent=1)
    return path


def maporder_tool(work):
    tool = os.path.join(os.path.dirname(work), "maporder")
    if not os.path.exists(tool):
        subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "tools", "maporder"), env=goenv(), check=True)
    return tool


_built = {}


def build(job, work):
    key = json.dumps([job[k] if k in job else None for k in ("module", "pkg", "files", "shim", "timeshim", "netshim", "race", "maporder", "pairmemo", "go")])
    if key in _built:
        return _built[key]
    d = os.path.join(work, "b%d" % len(_built))
    os.makedirs(d)
    overlay = make_overlay(job, d)
    binary = os.path.join(d, "check.test")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-o", binary]
    if job.get("race"):
        cmd.append("-race")
    cmd.append("./" + job["pkg"])
    t = time.time()
    p = subprocess.run(cmd, cwd=os.path.join(REPO, job["module"]), env=modfile(job, d), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if (p.returncode != 0 or not os.path.exists(binary)) and job.get("maporder"):
        print("the source rewritten for map orders does not build, using the original:\n" + p.stdout[-2000:])
        plain = {k: v for k, v in job.items() if k != "maporder"}
        _built[key] = build(plain, work)
        return _built[key]
    if p.returncode != 0 or not os.path.exists(binary):
        print("ERROR: cannot build the harness of %s" % job["name"])
        print(p.stdout[-6000:])
        return None
    print("built %s in %.1fs" % (job["pkg"], time.time() - t), flush=True)
    _built[key] = binary
    return binary


def run_job(job, binary, work, tier, seed):
    d = tempfile.mkdtemp(prefix="run-", dir=work)
    out = os.path.join(d, "out.json")
    budget = job["budget"][1 if tier == "thorough" else 0]
    env = goenv()
    env.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=out, VERIF_BUDGET=str(budget), TMPDIR=d,
               GOMEMLIMIT=os.environ.get("VERIF_MEM", "20GiB"), GOGC="600", GOTRACEBACK="single", **job.get("env", {}))
    for k in ("VERIF_LOG", "VERIF_REPLAY"):
        if k in os.environ:
            env[k] = os.environ[k]
    hard = budget * 1.5 + 90
    log = os.path.join(d, "log")
    with open(log, "w") as lf:
        p = subprocess.Popen([binary, "-test.run", "^%s$" % job["test"], "-test.timeout", "%ds" % int(hard + 30), "-test.v"],
                             cwd=d, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=hard)
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, signal.SIGQUIT)
                p.wait(timeout=5)
            except (subprocess.TimeoutExpired, ProcessLookupError):
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    text = open(log, errors="replace").read()
    res = json.load(open(out)) if os.path.exists(out) else None
    race = "WARNING: DATA RACE" in text
    if res and res.get("done") and (rc == 0 or race or res["violations"]):
        res["violations"] = res["violations"] or []
        if race:
            res["violations"].append({"key": job["name"] + ":data-race", "msg": "data race: " + first_race(text),
                                      "replay": {"log": text[:20000]}})
        return res
    # no result: did the code under test bring the process down?
    tail = text[-20000:]
    if rc is not None and rc != 0:
        m = re.search(r"^(panic: .*|fatal error: .*|.*SIGSEGV.*)$", text, re.M)
        if "verifkit: nondeterministic" in text or "verifkit: Choose" in text or "out of memory" in text or rc == -9:
            print("ERROR: job %s ended abnormally (rc=%s)\n%s" % (job["name"], rc, tail[-4000:]))
            return None
        what = m.group(1) if m else "process ended with status %s" % rc
        return {"job": job["name"], "counters": {}, "distinct": {}, "samples": [], "rules": [], "assumptions": [],
                "incomplete": ["ended by a crash"], "wall_s": 0, "done": True,
                "violations": [{"key": job["name"] + ":crash", "msg": "the code under test crashed the process: " + what,
                                "replay": {"log": tail}}]}
    print("ERROR: job %s gave no result (rc=%s)\n%s" % (job["name"], rc, tail[-4000:]))
    return None


def repeated(violations, job, binary, work, tier, seed):
    """The keys of violations that come up again at least twice when their execution is repeated."""
    for v in violations[:3]:
        rep = v["replay"]
        if not isinstance(rep, dict) or "choices" not in rep or "VERIF_REPLAY" in os.environ:
            continue
        path = os.path.join(work, "repeat.json")
        with open(path, "w") as f:
            json.dump({"replay": rep}, f)
        n = 0
        for _ in range(8):
            os.environ["VERIF_REPLAY"] = path
            try:
                again = run_job(job, binary, work, tier, seed)
            finally:
                del os.environ["VERIF_REPLAY"]
            n += again is not None and v["key"] in {x["key"] for x in again["violations"]}
            if n == 2:
                return {v["key"]}
    return set()


def first_race(text):
    i = text.find("WARNING: DATA RACE")
    return " ".join(l.strip() for l in text[i:i + 1500].splitlines()[1:12])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier] or [pid]
    only = None
    if "--job" in sys.argv:
        only = sys.argv[sys.argv.index("--job") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return check(pid, chk, tier, seed, work, t0, only)
    finally:
        if "--keep" in sys.argv:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def check(pid, chk, tier, seed, work, t0, only):
    results = []
    for job in chk["jobs"]:
        if only and job["name"] != only:
            continue
        if tier == "quick" and job.get("thorough_only"):
            continue
        binary = build(job, work)
        if binary is None:
            return 2
        res = run_job(job, binary, work, tier, seed)
        if res is None:
            return 2
        if res["violations"] and job.get("confirm"):
            print("job %s reported %d violations, confirming" % (job["name"], len(res["violations"])))
            keys = repeated(res["violations"], job, binary, work, tier, seed)
            if not keys:
                again = run_job(job, binary, work, tier, seed)
                if again is None:
                    return 2
                keys = {v["key"] for v in again["violations"]}
            dropped = [v for v in res["violations"] if v["key"] not in keys]
            if not keys:
                print("NOT CONFIRMED:", "; ".join(v["msg"][:200] for v in dropped))
                res["incomplete"] = (res["incomplete"] or []) + ["unconfirmed: " + "; ".join(v["key"] for v in dropped)]
                res["violations"] = []
        results.append(res)
        print("job %-28s %6.1fs  %s %s%s" % (job["name"], res["wall_s"], res["counters"], res["distinct"],
              "  INCOMPLETE: " + "; ".join(res["incomplete"]) if res["incomplete"] else ""), flush=True)

    findings = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = {}
    for f in findings["findings"]:
        if f["property"] == pid and f["status"] == "known":
            for k in f["keys"]:
                known[k] = f
    vio, seen = [], {}
    for r in results:
        for v in r["violations"]:
            if v["key"] in known:
                seen.setdefault(id(known[v["key"]]), known[v["key"]])
            else:
                vio.append(v)

    write_evidence(pid, chk, tier, seed, results, len(vio), time.time() - t0)
    for f in findings["findings"]:
        if f["property"] == pid and f["status"] == "known":
            print("KNOWN-FINDING: property=%s %s%s" % (pid, f["what"], "" if id(f) in seen else " (not reached in this run)"))
    if vio:
        rd = os.path.join(EVDIR, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(vio[:10]):
            path = os.path.join(rd, "%s-%d.json" % (pid, i))
            json.dump({"property": pid, "tier": tier, "key": v["key"], "message": v["msg"], "replay": v["replay"]},
                      open(path, "w"), indent=1)
            print("  %s: %s" % (v["key"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s (%.1fs)" % (pid, time.time() - t0))
    return 0


def write_evidence(pid, chk, tier, seed, results, nvio, wall):
    cnt, dis, samples, rules, assume, incomplete = {}, {}, [], [], list(chk.get("assumptions", [])), []
    for r in results:
        for k, n in (r["counters"] or {}).items():
            cnt[k] = cnt.get(k, 0) + n
        for k, n in (r["distinct"] or {}).items():
            dis[k] = dis.get(k, 0) + n
        samples += [{"job": r["job"], "case": s} for s in (r["samples"] or [])]
        rules += ["%s: %s" % (r["job"], x) for x in (r["rules"] or [])]
        assume += [a for a in (r["assumptions"] or []) if a not in assume]
        incomplete += r["incomplete"] or []
    cov = {}
    level = chk["level"]
    if level == "model_checking":
        cov["states"] = cnt.pop("states", 0) + dis.get("states", 0)
        cov["transitions"] = cnt.pop("transitions", 0)
        cov["traces_validated_against_impl"] = cnt.pop("traces", 0)
        cov["samples"] = samples
    else:
        cov["evaluations"] = cnt.pop("evaluations", 0)
        cov["distinct_nontrivial"] = dis.get("nontrivial", 0)
        cov["rule"] = " | ".join(rules)
        cov["samples"] = samples
    cov["rules"] = rules
    cov["exhaustive"] = not incomplete
    cov["incomplete"] = incomplete
    cov["other_counters"] = cnt
    cov["distinct_sets"] = dis
    cov["jobs"] = [{"job": r["job"], "wall_s": r["wall_s"]} for r in results]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume,
          "wall_s": round(wall, 2), "violations": nvio}
    os.makedirs(EVDIR, exist_ok=True)
    json.dump(ev, open(os.path.join(EVDIR, pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
