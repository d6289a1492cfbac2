#!/usr/bin/env python3
"""Driver of the runtime monitors: builds the harness against /repo's working tree, runs one property check,
merges what the monitors observed into evidence/<id>.json and prints the verdict.

exit 0: held on everything observed; exit 1 + VIOLATION line: broken; exit 2: no verdict (build error, inconclusive).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.26.10/bin/go"
CONF = json.load(open(os.path.join(HERE, "checks.json")))
TIMEOUT = {"quick": 700, "thorough": 6 * 3600}


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1",
             GOCACHE=os.environ.get("VERIF_GOCACHE", os.path.join(HERE, ".cache", "go")))
    e["PATH"] = os.path.dirname(GO) + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("GOROOT", None)
    return e


def build(san, out):
    """Compile the harness together with the packages of /repo's working tree."""
    with tempfile.TemporaryDirectory(prefix="verif-mod-") as tmp:
        # A copy of the module files: the go tool may touch them.
        mod = open(os.path.join(HERE, "harness", "go.mod")).read()
        mod = re.sub(r"(?m)^replace github.com/livekit/media-sdk => .*$",
                     "replace github.com/livekit/media-sdk => " + REPO, mod)
        open(os.path.join(tmp, "go.mod"), "w").write(mod)
        sums = open(os.path.join(HERE, "harness", "go.sum")).read() + open(os.path.join(REPO, "go.sum")).read()
        open(os.path.join(tmp, "go.sum"), "w").write("".join(sorted(set(x + "\n" for x in sums.split("\n") if x))))
        cmd = [GO, "test", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"), "-c", "-o", out]
        if san:
            cmd.append("-" + san)
        cmd.append("./checks")
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout


def race_reports(prefix):
    out = []
    for f in sorted(glob.glob(prefix + "*")):
        data = open(f, errors="replace").read()
        for blk in data.split("=================="):
            if "WARNING: DATA RACE" in blk:
                out.append(blk.strip())
    return out


def race_sig(blk):
    """Functions on top of both stacks, without line numbers."""
    fn = re.findall(r"(?m)^(?:Write|Read|Previous write|Previous read|Atomic \w+) at .*\n\s+(\S+?)\(", blk.replace("Previous atomic", "Atomic"))
    return " / ".join(sorted(set(fn))) or "unknown"


def main():
    if len(sys.argv) < 2:
        print("usage: check.py PROP|--setup")
        return 2
    if sys.argv[1] == "--setup":
        for san in ("", "race", "asan"):
            with tempfile.TemporaryDirectory(prefix="verif-bin-") as tmp:
                rc, out = build(san, os.path.join(tmp, "t"))
                if rc != 0:
                    print(out)
                    return 2
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = os.environ.get("VERIF_SEED") or "1"
    if not re.fullmatch(r"-?\d+", seed):
        seed = "1"
    conf = CONF["checks"][prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, conf, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, conf, work, t0):
    binary = os.path.join(work, "t")
    san = "race" if conf.get("race") else "asan" if conf.get("asan") else ""
    rc, out = build(san, binary)
    if rc != 0:
        print(out[-6000:])
        print("check: cannot build the harness against %s" % REPO)
        return 2
    e = env()
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=seed, VERIF_OUT=work, VERIF_REPO=REPO,
             GOTRACEBACK="all", TMPDIR=work,
             # The runtime is linked to the binary, the preloaded library comes before it. Leaks are tracked by a monitor of their own.
             ASAN_OPTIONS="verify_asan_link_order=0:detect_leaks=0:abort_on_error=0:exitcode=66",
             GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(work, "race.log"))
    e.update(conf.get("env", {}))
    preload = conf.get("preload")
    if preload:
        so = os.path.join(work, "preload.so")
        p = subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", so, os.path.join(HERE, preload), "-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout)
            return 2
        e["VERIF_PRELOAD"] = so
        e["LD_PRELOAD"] = so
    cwd = os.path.join(work, "cwd")
    os.mkdir(cwd)
    log = os.path.join(work, "out.log")
    timed_out = False
    with open(log, "wb") as lf:
        p = subprocess.Popen([binary, "-test.run", "^TestProperty$", "-test.timeout", "0"], cwd=cwd, env=e,
                             stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(TIMEOUT[tier])
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, 9)
            p.wait()
    rc = p.returncode
    text = open(log, errors="replace").read()
    res = {}
    try:
        res = json.load(open(os.path.join(work, "result.json")))
    except (OSError, ValueError):
        pass
    viol = []
    try:
        viol = [json.loads(x) for x in open(os.path.join(work, "violations.jsonl")) if x.strip()]
    except (OSError, ValueError):
        pass
    races = race_reports(os.path.join(work, "race.log"))
    seen = set()
    for r in races:
        sig = "data-race: " + race_sig(r)
        if sig not in seen:
            seen.add(sig)
            viol.append({"property": prop, "signature": sig, "tier": tier, "seed": int(seed), "case": "", "message": r})
    if not res.get("complete") and not timed_out and not viol:
        # The process running the code under test died: panic in a goroutine, memory fault, abort, os.Exit.
        viol.append({"property": prop, "signature": "crash", "tier": tier, "seed": int(seed), "case": "exit code %s" % rc,
                     "message": text[:3000] + "\n...\n" + text[-9000:]})
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    findings = json.load(open(kf)).get("findings", []) if os.path.exists(kf) else []
    rest = []
    for v in viol:
        f = next((f for f in findings if f["property"] == prop and f["signature"] == v["signature"]), None)
        if f is not None:
            known.append(f)
        else:
            rest.append(v)
    observed = dict(res.get("observed", {}))
    if conf.get("race"):
        observed["race_detector_reports"] = len(races)
    ev = {
        "property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": int(res.get("evaluations", 0)),
            "distinct_nontrivial": int(res.get("distinct", 0)),
            "rule": res.get("rule", "the run did not complete"),
            "samples": res.get("samples") or [],
            "observed": observed,
            "build": "race detector" if conf.get("race") else "address sanitizer, LD_PRELOAD monitor" if conf.get("asan") else ("LD_PRELOAD monitor" if preload else "plain"),
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(rest),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if rest:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        path = os.path.join(HERE, "replay", "%s-%s-seed%s.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"rerun": "VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop), "violations": rest}, f, indent=1)
        for v in rest:
            print("[%s] case=%s\n%s" % (v["signature"], v.get("case"), v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if timed_out:
        print("check: no verdict, timed out")
        return 2
    if res.get("inconclusive"):
        print("check: no verdict, only %s evaluations" % res.get("evaluations"))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs %s" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], json.dumps(observed)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
