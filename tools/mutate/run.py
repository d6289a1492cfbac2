#!/usr/bin/env python3
"""Measures the checks: applies simple mutations to a copy of /repo, one at a time, and lists those that no check reports.
usage: run.py OUT.jsonl JOBS FILE...   (files relative to /repo). Not a part of any check."""
import concurrent.futures as cf, hashlib, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, VERIF)
GO = "/opt/veriftools/go1.26.10/bin/go"

MAP = [  # the most specific checks first
    (r"^buffers.go", "F01 M01 F02"), (r"^codecs.go", "C04 S03 S02"), (r"^dtmf/", "D02 D01 D03 S02"), (r"^dump.go", "F09 F04"),
    (r"^g711/", "C01 C04 F04 S02 T08"), (r"^g722/", "C02 C04 F09 F04 T08"), (r"^jitter/", "J01 J02 J03 T06 J04"), (r"^media.go", "F03 F04 F07 F06 F05"),
    (r"^mixer/", "M01 M02 M03 M04"), (r"^opus/", "C03 C04 F04 W01"), (r"^pcm.go", "F05 F04 F06 F01 F02 F07"), (r"^pipe.go", "F02"),
    (r"^processor.go", "F04"), (r"^res/", "F08"), (r"^resample", "R01 R02 R03 F09 F03"), (r"^ring/", "B01 M01"),
    (r"^rtp/codecs.go", "C04 T08 F09"), (r"^rtp/jitter.go", "T06"), (r"^rtp/listen.go", "T07"), (r"^rtp/media.go", "T04 T08"),
    (r"^rtp/mux.go", "T03"), (r"^rtp/rtp.go", "T01 T02 T08 D02 F06"), (r"^rtp/session.go", "T04 T03"),
    (r"^sdp/", "S01 S02 S03 S04"), (r"^srtp/", "T05 S04"), (r"^tones/", "D03 F07 D02 D01"), (r"^webm/", "W01 F06"),
]
CONF = json.load(open(os.path.join(VERIF, "checks.json")))["checks"]


def env():
    import check
    e = check.env()
    e["GOCACHE"] = os.environ.get("VERIF_GOCACHE", "/verif/.cache/go")
    return e


def build(repo, out, race):
    with tempfile.TemporaryDirectory(prefix="mutmod-") as tmp:
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read()
        mod = re.sub(r"(?m)^replace github.com/livekit/media-sdk => .*$", "replace github.com/livekit/media-sdk => " + repo, mod)
        open(tmp + "/go.mod", "w").write(mod)
        sums = open(os.path.join(VERIF, "harness", "go.sum")).read() + open(repo + "/go.sum").read()
        open(tmp + "/go.sum", "w").write("".join(sorted(set(x + "\n" for x in sums.split("\n") if x))))
        cmd = [GO, "test", "-vet=off", "-modfile", tmp + "/go.mod", "-c", "-o", out] + (["-race"] if race else []) + ["./checks"]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode == 0, p.stdout


def rss(pid):
    try:
        for l in open("/proc/%d/status" % pid):
            if l.startswith("VmRSS"):
                return int(l.split()[1])
    except OSError:
        pass
    return 0


def run(binary, repo, prop, race):
    work = tempfile.mkdtemp(prefix="mutrun-")
    try:
        e = env()
        e.update(VERIF_PROP=prop, VERIF_TIER="quick", VERIF_SEED="1", VERIF_OUT=work, VERIF_REPO=repo, TMPDIR=work,
                 GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + work + "/race.log")
        conf = CONF[prop]
        e.update(conf.get("env", {}))
        if conf.get("preload"):
            so = work + "/preload.so"
            subprocess.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, conf["preload"]), "-ldl", "-lpthread"], check=True)
            e["VERIF_PRELOAD"] = e["LD_PRELOAD"] = so
        os.mkdir(work + "/cwd")
        with open(work + "/log", "wb") as lf:
            p = subprocess.Popen([binary, "-test.run", "^TestProperty$", "-test.timeout", "0"], cwd=work + "/cwd", env=e, stdout=lf, stderr=lf, start_new_session=True)
            end = time.time() + 100
            why = None
            while p.poll() is None:
                time.sleep(0.1)
                if rss(p.pid) > 6 << 20:
                    why = "memory"
                elif time.time() > end:
                    why = "timeout"
                elif os.path.exists(work + "/violations.jsonl") and os.path.getsize(work + "/violations.jsonl"):
                    why = "violation"
                if why:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
        if why is None and os.path.exists(work + "/violations.jsonl") and os.path.getsize(work + "/violations.jsonl"):
            why = "violation"
        if why is None and any(x.startswith("race.log") for x in os.listdir(work)):
            why = "race"
        if why is None and p.returncode != 0:
            why = "exit"
        return why
    finally:
        shutil.rmtree(work, ignore_errors=True)


def one(wdir, m):
    repo = wdir + "/repo"
    path = os.path.join(repo, m["file"])
    orig = open(path, "rb").read()
    try:
        open(path, "wb").write(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
        p = subprocess.run([GO, "build", "./" + os.path.dirname(m["file"])], cwd=repo, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return "nobuild", ""
        checks = next(v for k, v in MAP if re.search(k, m["file"])).split()
        for race in (False, True):
            list_ = [c for c in checks if bool(CONF[c].get("race")) == race]
            if not list_:
                continue
            binary = wdir + "/t" + ("r" if race else "")
            ok, out = build(repo, binary, race)
            if not ok:
                return "nobuild", ""
            for c in list_:
                why = run(binary, repo, c, race)
                if why:
                    return "killed", c + ":" + why
        return "SURVIVED", " ".join(checks)
    finally:
        open(path, "wb").write(orig)


def main():
    out, jobs, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["start"], d["end"], d["new"]))
    binp = tempfile.mkdtemp(prefix="mut-") + "/mutate"
    subprocess.run([GO, "build", "-o", binp, "."], cwd=HERE, env=dict(env(), GOFLAGS=""), check=True)
    p = subprocess.run([binp] + files, cwd="/repo", stdout=subprocess.PIPE, text=True, check=True)
    muts = [json.loads(l) for l in p.stdout.split("\n") if l]
    muts = [m for m in muts if (m["file"], m["start"], m["end"], m["new"]) not in done]
    print(len(muts), "mutants", flush=True)
    if os.environ.get("SURVIVORS"):  # only those that survived an earlier run
        old = set()
        for l in open(os.environ["SURVIVORS"]):
            d = json.loads(l)
            if d["res"] != "killed" and d["res"] != "nobuild":
                old.update((d["file"], d["desc"], d["line"] + k) for k in range(-8, 9))  # the file may have changed a bit
        muts = [m for m in muts if (m["file"], m["desc"], m["line"]) in old]
    pool = queue.Queue()
    root = tempfile.mkdtemp(prefix="mutw-")
    for k in range(jobs):
        w = "%s/w%d" % (root, k)
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        pool.put(w)
    lock = threading.Lock()

    def work(m):
        w = pool.get()
        try:
            m["res"], m["by"] = one(w, m)
        except Exception as ex:
            m["res"], m["by"] = "error", repr(ex)
        finally:
            pool.put(w)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
            if m["res"] != "nobuild" and m["res"] != "killed" or "timeout" in m["by"]:
                print(m["res"], m["file"], m["line"], m["desc"], m["by"], flush=True)

    try:
        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(work, muts))
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
