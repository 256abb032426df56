#!/usr/bin/env python3
"""Development tool for planted bugs (not used by any check).

  seed.py verify ID...        patch applies, builds, demo, stable tests
  seed.py eval ID[:CHECK,..]  run the property's (or other) checks against it

Everything runs in namespaces of its own in which a patched scratch copy
of the repository is mounted at /repo, so several can run at once.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(V, "seeded"))
ENV = ". /opt/vp/env.sh; "


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inside(copy, cmd, extra="", timeout=900):
    """Runs cmd with copy mounted at /repo."""
    full = "ip link set lo up; mount --bind %s /repo; %s %s" % (copy, extra, cmd)
    try:
        p = subprocess.run(["unshare", "-Urmn", "bash", "-c", full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def scratch(id, patched=True):
    d = tempfile.mkdtemp(prefix="seed-%s." % id, dir="/tmp")
    sh("cp -a /repo/. %s/" % d)
    if patched:
        p = sh("git -C %s apply %s/patch.diff" % (d, os.path.join(SEEDED, id)))
        if p.returncode:
            shutil.rmtree(d)
            raise Exception("%s: patch doesn't apply: %s" % (id, p.stdout))
    return d


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b.get("stable") or b.get("passed") or b


def tests(copy):
    out = tempfile.mkdtemp(dir="/tmp")
    log = os.path.join(out, "log")
    inside(copy, "cd /repo; go test -json -vet=off -count=1 -p 1 -timeout 10m -tags 'small medium large' ./... > %s" % log, ENV)
    r = sh("python3 /opt/vp/results.py %s/o.json gojson:%s" % (out, log))
    res = json.load(open(out + "/o.json"))
    shutil.rmtree(out)
    passed = set(res["passed"])
    return [t for t in baseline() if t not in passed]


def demo(copy, id):
    d = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
    for f in os.listdir(os.path.join(SEEDED, id)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(SEEDED, id, f), d)
    t = time.time()
    rc, out = inside(copy, "cd /repo; bash %s/demo.sh" % d, timeout=300)
    shutil.rmtree(d)
    return rc, out, time.time() - t


def verify(id):
    try:
        bad, clean = scratch(id), scratch(id, False)
    except Exception as e:
        return "%s FAIL %s" % (id, e)
    try:
        # Which lines does it change?
        base = sh("git -C /repo rev-list --max-parents=0 HEAD | tail -1").stdout.strip()
        for f in sh("cd %s && git diff --name-only" % bad).stdout.split():
            own = set()
            bl = sh("git -C /repo blame -s --line-porcelain 5229b50..HEAD -- %s" % f).stdout
            cur = None
            for l in bl.split("\n"):
                m = re.match(r"^(\^?[0-9a-f]{39,40}) \d+ (\d+)", l)
                if m:
                    cur, n = m.group(1), int(m.group(2))
                    bound = False
                elif l == "boundary":
                    bound = True
                elif l.startswith("\t") and not bound:
                    own.add(n)
            d = sh("cd %s && git diff -U0 -- %s" % (bad, f)).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, k = int(m.group(1)), int(m.group(2) or 1)
                hit = [x for x in range(a, a + k) if x in own]
                if hit:
                    print("%s: note: %s changes lines of my own: %s" % (id, f, hit))
                if k and len(hit) == k:
                    print("%s: WARNING: hunk at %d of %s changes only lines of my own" % (id, a, f))
        rc, out = inside(bad, "cd /repo && go build ./...", ENV)
        if rc:
            return "%s FAIL build: %s" % (id, out[-1500:])
        rc, out, t = demo(clean, id)
        if rc:
            return "%s FAIL demo on the unchanged tree (%d, %.0f s): %s" % (id, rc, t, out[-2500:])
        rc2, out2, t2 = demo(bad, id)
        if rc2 == 0:
            return "%s FAIL demo passes with the patch" % id
        if "build failed" in out2 or "setup failed" in out2 or "undefined" in out2:
            return "%s FAIL demo doesn't build with the patch: %s" % (id, out2[-1500:])
        failed = tests(bad)
        if failed:
            failed = [t for t in failed if t in tests(bad)]
        if failed:
            return "%s FAIL stable tests fail: %s" % (id, failed[:5])
        return "%s ok (demo %.0f s / %.0f s) %s" % (id, t, t2, [l for l in out2.split("\n") if "_test.go" in l][:1])
    finally:
        shutil.rmtree(bad)
        shutil.rmtree(clean)


def evaluate(arg):
    id, _, checks = arg.partition(":")
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    if checks == "all":
        checks = props
    elif checks:
        checks = checks.split(",")
    else:
        checks = [json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]]
    try:
        bad = scratch(id)
    except Exception as e:
        return str(e)
    res = []
    try:
        for c in checks:
            ev = tempfile.mkdtemp(dir="/tmp")
            t = time.time()
            rc, out = inside(bad, "cd %s && VERIF_SEED=%s VERIF_TIER=quick python3 run.py %s" % (V, os.environ.get("SEED", "1"), c), "mount --bind %s %s/evidence;" % (ev, V))
            shutil.rmtree(ev)
            first = [l for l in out.split("\n") if l.startswith("  ")][:1]
            word = {0: "MISSED", 1: "caught"}.get(rc, "rc=%d" % rc)
            if rc == 1 and "VIOLATION property=%s " % c not in out:
                word = "exit 1 without line"
            res.append("%s by %s (%.0f s) %s" % (word, c, time.time() - t, (first[0][:230] if first else "") if rc == 1 else out[-600:] if rc > 1 else ""))
    finally:
        shutil.rmtree(bad)
    return "%s (%s): " % (id, arg) + "\n    ".join(res)


if __name__ == "__main__":
    f = {"verify": verify, "eval": evaluate}[sys.argv[1]]
    n = int(os.environ.get("JOBS", "4"))
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for r in ex.map(f, sys.argv[2:]):
            print(r, flush=True)
