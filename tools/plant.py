#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).

  plant.py new SPEC.py     makes /verif/seeded/<id>/ from specs (list BUGS of dicts) and validates them
  plant.py test ID...      validates again
"""
import json, os, re, shutil, subprocess, sys
ROOT = "/verif/seeded"
W = "/tmp/plant"
ENV = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")

DEMO = '''#!/bin/bash
# Runs the demonstration test beside this file as a part of the package.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
tmp=$(mktemp -d)
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD/%(dir)s" "$d" > "$tmp/overlay.json"
go test %(flags)s-vet=off -count=1 -timeout 250s -overlay "$tmp/overlay.json" -run '^TestZZDemo' ./%(dir)s
rc=$?
rm -f "$tmp/overlay.json"
rmdir "$tmp"
exit $rc
'''


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(W):
        subprocess.check_call(["cp", "-a", "/repo", W])
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq")


def write(b):
    fresh()
    for f, old, new in b["edits"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times in", f, repr(old[:60]))
            return False
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(ROOT, b["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff").stdout
    # Which lines are changed: they must be of the original repository.
    f, base = None, sh("git rev-list --max-parents=0 HEAD").stdout.strip()[:8]
    for l in sh("git diff -U0").stdout.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and m.group(2) != "0":
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for x in sh("git blame -s --abbrev=8 -L %d,+%d HEAD -- %s" % (a, n, f)).stdout.rstrip().split("\n"):
                if x[:9].lstrip("^")[:7] != base[:7]:
                    print(b["id"], "WARNING: not an original line:", x[:120])
    open(d + "/patch.diff", "w").write(diff)
    if "demo_sh" in b:
        open(d + "/demo.sh", "w").write(b["demo_sh"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % dict(dir=b["dir"], flags="-race " if b.get("race") else ""))
    open(d + "/demo_test.go", "w").write(b["demo"].lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    return True


def tests():
    """Runs the stable tests in the copy."""
    r = sh(". /opt/vp/env.sh; $GO build ./... && $GO vet ./... >/dev/null 2>&1; $GO test -json -vet=off -count=1 -p 1 -timeout 10m ./... > /tmp/plant.json; python3 /opt/vp/results.py /tmp/plant.out gojson:/tmp/plant.json")
    try:
        res = json.load(open("/tmp/plant.out"))
    except Exception as e:
        return ["no results: " + r.stdout[-500:]]
    base = json.load(open("/opt/vp/BASELINE.json"))
    def passed(x):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x:
                v = x[k]
                return set(v) if isinstance(v, list) else {a for a, b in v.items() if b in ("pass", "passed", True)}
        raise SystemExit("results: %s" % list(x))
    return sorted(passed(base) - passed(res))


def validate(id, others=()):
    d = os.path.join(ROOT, id)
    meta = json.load(open(d + "/meta.json"))
    fresh()
    r = sh("bash %s/demo.sh" % d)
    out = [id, meta["property"]]
    if r.returncode != 0:
        print(id, "DEMO FAILS ON THE UNCHANGED TREE\n", r.stdout[-2500:])
        return
    if sh("git apply %s/patch.diff" % d).returncode != 0:
        print(id, "PATCH DOES NOT APPLY")
        return
    r = sh("go build ./...")
    if r.returncode != 0:
        print(id, "BUILD", r.stdout)
        return
    r = sh("bash %s/demo.sh" % d)
    if r.returncode == 0:
        print(id, "DEMO PASSES WITH THE BUG")
        return
    demo = [l for l in r.stdout.split("\n") if l.strip()][:6]
    bad = tests()
    if bad:
        bad = tests()  # real time
    if bad:
        print(id, "TESTS CATCH IT:", bad[:5])
        return
    caught = {}
    for p in [meta["property"]] + list(others):
        r = subprocess.run(["python3", "check.py", p, "quick"], cwd="/verif", env=dict(ENV, VERIF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        caught[p] = r.returncode
        if p == meta["property"]:
            head = r.stdout[:250].replace("\n", " | ")
    print(id, "VALID", "CAUGHT" if caught[meta["property"]] == 1 else "*** MISSED ***", caught, "\n    check:", head, "\n    demo:", " | ".join(demo)[:300])
    fresh()


if sys.argv[1] == "new":
    ns = {}
    exec(open(sys.argv[2]).read(), ns)
    only = sys.argv[3:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        if write(b):
            validate(b["id"], b.get("also", ()))
        sys.stdout.flush()
else:
    ids = sys.argv[2:] or sorted(os.listdir(ROOT))
    for id in ids:
        validate(id)
        sys.stdout.flush()
