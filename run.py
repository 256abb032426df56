#!/usr/bin/env python3
"""Runs one check: run.py <property> [--replay FILE]

Builds the harness together with the code in /repo's working tree (with the
race detector), runs it in a subprocess and judges what it recorded.
Environment: VERIF_SEED, VERIF_TIER (quick, thorough), VERIF_THOROUGH_S.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENV_FILE = "/opt/vp/env.sh"
NEED_BINARIES = {"C22", "C26", "C28", "C30", "C33", "C34", "C35", "C36"}
FAST_NATS = {"C26"}
LEVELS = {}
KNOWN_FILE = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def base_env():
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["GOTOOLCHAIN"] = "local"
    env["GOPROXY"] = "off"
    env["GOFLAGS"] = "-mod=readonly"
    env["GOWORK"] = "off"
    for k in ("INFLUXDB_USER", "INFLUXDB_PASS", "GODEBUG", "GORACE", "GOMAXPROCS"):
        env.pop(k, None)
    return env


def fast_nats(dir):
    """Makes a copy of the NATS client library in which the time between
    reconnect attempts is 20 ms instead of 2 s (and dead connections are
    found after 6 s instead of 6 minutes). Returns a go.mod which uses it."""
    harness = os.path.join(VERIF, "harness")
    mod = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/nats-io/nats.go"],
                         cwd=harness, env=base_env(), stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, text=True).stdout.strip()
    try:
        with open(os.path.join(mod, "nats.go")) as f:
            text = f.read()
    except OSError:
        return None
    for name, val in (("ReconnectWait", "20 * time.Millisecond"), ("ReconnectJitter", "5 * time.Millisecond"),
                      ("PingInterval", "2 * time.Second")):
        text, n = re.subn(r"(?m)^(\tDefault%s\s+=) .*$" % name, r"\1 " + val, text)
        if n != 1:
            return None
    copy = os.path.join(dir, "nats.go")
    for root, _, files in os.walk(mod):
        to = os.path.join(copy, os.path.relpath(root, mod))
        os.makedirs(to, exist_ok=True)
        for f in files:
            if not f.endswith("_test.go"):
                with open(os.path.join(root, f), "rb") as src, open(os.path.join(to, f), "wb") as dst:
                    dst.write(src.read())
    with open(os.path.join(copy, "nats.go"), "w") as f:
        f.write(text)
    modfile = os.path.join(dir, "fast.mod")
    with open(os.path.join(harness, "go.mod")) as f:
        text = f.read()
    with open(modfile, "w") as f:
        f.write(text + "\nreplace github.com/nats-io/nats.go => %s\n" % copy)
    shutil.copyfile(os.path.join(harness, "go.sum"), os.path.join(dir, "fast.sum"))
    return modfile


def overlay(dir, stubs=()):
    """Writes the overlay file; the packages in stubs get a variant that
    doesn't touch anything internal."""
    repl = {}
    src = os.path.join(VERIF, "overlay")
    for pkg in sorted(os.listdir(src)):
        d = os.path.join(src, pkg, "stub") if pkg in stubs else os.path.join(src, pkg)
        for f in sorted(os.listdir(d)):
            if f.endswith(".go"):
                repl[os.path.join(REPO, pkg, f)] = os.path.join(d, f)
    path = os.path.join(dir, "overlay.json")
    with open(path, "w") as out:
        json.dump({"Replace": repl}, out)
    return path


def harness_job(ov, exe, modfile=None):
    return subprocess.Popen(
        ["go", "test", "-c", "-race", "-vet=off", "-overlay", ov] + (["-modfile", modfile] if modfile else []) + ["-o", exe, "."],
        cwd=os.path.join(VERIF, "harness"), env=base_env(),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def build(dir, binaries, fast=False):
    env = base_env()
    ov = overlay(dir)
    modfile = fast_nats(dir) if fast else None
    exe = os.path.join(dir, "harness.test")
    jobs = [harness_job(ov, exe, modfile)]
    if binaries:
        env2 = dict(env)
        env2["GOFLAGS"] = "-mod=mod"
        jobs.append(subprocess.Popen(
            ["go", "build", "-race", "-o", os.path.join(dir, "bin") + "/", "./cmd/influx-spout", "./cmd/influx-spout-tap", "./cmd/benchcheck", "./cmd/slowinfluxd"],
            cwd=REPO, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        os.makedirs(os.path.join(dir, "bin"), exist_ok=True)
    ok = True
    for i, j in enumerate(jobs):
        out, _ = j.communicate()
        if j.returncode != 0 and i == 0:
            # If that's because of the hooks, go on without them.
            stubs = [p for p in sorted(os.listdir(os.path.join(VERIF, "overlay"))) if subprocess.run(
                ["go", "build", "-overlay", ov, "-o", os.devnull, "github.com/jumptrading/influx-spout/v2/" + p],
                cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode]
            if stubs:
                print("note: the hooks of %s don't fit this tree; going on without them" % ", ".join(stubs))
                j = harness_job(overlay(dir, stubs), exe, modfile)
                out, _ = j.communicate()
        if j.returncode != 0:
            ok = False
            sys.stdout.write("BUILD FAILED:\n" + out.decode("utf-8", "replace")[-6000:] + "\n")
    return exe if ok else None


# ---------------------------------------------------------------------------
# Judging the output of the runtime

def own_frame(path):
    """Is this a source file of the code under test?"""
    return path.startswith(REPO + "/") and not path.startswith(REPO + "/spouttest/") and "_test.go" not in path


def file_frames(block):
    """The source files of a stack, innermost first."""
    return re.findall(r"^\s+(/\S+\.go):\d+", block, re.M)


def races(text):
    """Race reports in which the code under test makes one of the accesses
    (frames of the standard library are looked through)."""
    found = []
    for rep in text.split("=================="):
        if "WARNING: DATA RACE" not in rep:
            continue
        parts = re.split(r"\n\n", rep)
        for part in parts:
            head = part.strip().split("\n")
            head = [h for h in head if "WARNING: DATA RACE" not in h]
            if not head:
                continue
            if not re.match(r"(Previous )?(atomic )?(read|write|Read|Write|Atomic|Previous)", head[0].strip()):
                continue
            for f in file_frames("\n".join(head)):
                if "/veriftools/go" in f and "/src/" in f:
                    continue
                if own_frame(f) or f.startswith(VERIF + "/overlay/"):
                    found.append(rep.strip())
                break
            if found and found[-1] == rep.strip():
                break
    return found


def crash(text):
    """The panic or fatal error which ended the process: (message, is it in
    the code under test)."""
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|unexpected fault address.*)$", text, re.M)
    if not m:
        return None
    rest = text[m.start():]
    # The first goroutine listed is the one that failed.
    g = re.search(r"^goroutine \d+.*?(?=^goroutine \d+|\Z)", rest, re.M | re.S)
    stack = g.group(0) if g else rest[:4000]
    mine = False
    for f in file_frames(stack):
        if own_frame(f):
            mine = True
            break
        if f.startswith(VERIF + "/harness/") or f.startswith(VERIF + "/overlay/"):
            break
    return m.group(1) + "\n" + stack[:3000], mine


def tail(path, n=4000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


class Run:
    pass


def run_once(prop, exe, workdir, seed, tier, rnd, timeout):
    d = tempfile.mkdtemp(prefix="run.", dir=workdir)
    env = base_env()
    env.update({
        "VH_CHECK": prop, "VH_DIR": d, "VH_SEED": str(seed), "VH_TIER": tier,
        "VH_ROUND": str(rnd), "VH_BIN": os.path.join(workdir, "bin"),
        "GORACE": "halt_on_error=0 exitcode=0 log_path=%s" % os.path.join(d, "race"),
        "GOTRACEBACK": "all", "TMPDIR": d,
        "VH_FASTNATS": "1" if os.path.exists(os.path.join(workdir, "fast.mod")) else "",
    })
    errpath = os.path.join(d, "stderr.txt")
    r = Run()
    r.violations, r.infra, r.result = [], [], None
    with open(errpath, "wb") as err:
        p = subprocess.Popen([exe, "-test.run", "^TestCheck$", "-test.timeout", "0"],
                             cwd=d, env=env, stdout=err, stderr=err, start_new_session=True)
        timed_out = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    try:
        with open(os.path.join(d, "result.json")) as f:
            r.result = json.load(f)
    except (OSError, ValueError):
        r.result = None
    if r.result:
        for v in r.result.get("violations") or []:
            r.violations.append("%s: %s" % (v["scenario"], v["what"]))
        r.infra += r.result.get("infra") or []
    racetext = ""
    for f in sorted(os.listdir(d)):
        if f.startswith("race."):
            racetext += tail(os.path.join(d, f), 4000000)
    for root, _, files in os.walk(d):
        for f in files:
            if f.startswith("childrace."):
                racetext += tail(os.path.join(root, f), 4000000)
    for rep in races(racetext)[:3]:
        r.violations.append("data race:\n" + rep[:3500])
    if not (r.result and r.result.get("done")):
        text = tail(errpath, 4000000)
        log = tail(os.path.join(d, "log.txt"))
        cr = None if timed_out else crash(text)
        if cr and cr[1]:
            r.violations.append("the process crashed: " + cr[0])
        elif cr:
            r.infra.append("crash: " + cr[0])
        elif timed_out:
            r.infra.append("timed out after %d s: %s" % (timeout, text[-3000:]))
        elif p.returncode == 1 and log.strip() and "address already in use" not in log:
            r.violations.append("a component ended the process; its log ends with:\n" + log[-1500:])
        else:
            r.infra.append("ended with %s; stderr: %s log: %s" % (p.returncode, text[-2000:], log[-1000:]))
    r.log = tail(os.path.join(d, "log.txt"), 3000)
    shutil.rmtree(d, ignore_errors=True)
    return r


# ---------------------------------------------------------------------------

def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    first = 0
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            rep = json.load(f)
        seed, tier, first = rep["seed"], rep["tier"], rep["round"]
    budget = float(os.environ.get("VERIF_THOROUGH_S", "600"))
    workdir = tempfile.mkdtemp(prefix="verif-%s." % prop, dir=os.environ.get("VERIF_TMP") or None)
    try:
        return check(prop, seed, tier, first, budget, workdir, start)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def check(prop, seed, tier, first, budget, workdir, start):
    exe = build(workdir, prop in NEED_BINARIES, prop in FAST_NATS)
    if exe is None:
        print("ERROR property=%s: cannot build" % prop)
        return 2
    built = time.time()
    evals, sigs, samples, obs, known = 0, set(), [], {}, {}
    violations, infra = [], []
    rounds = 0
    rnd = first
    bad = 0
    while True:
        r = run_once(prop, exe, workdir, seed, tier, rnd, 400 if tier == "quick" else 1500)
        rounds += 1
        if r.result:
            evals += r.result.get("evals") or 0
            sigs.update(r.result.get("sigs") or [])
            for s in r.result.get("samples") or []:
                if len(samples) < 12:
                    samples.append(s)
            for k, v in (r.result.get("obs") or {}).items():
                if k.startswith(("largest", "milliseconds", "most", "max")):
                    obs[k] = max(obs.get(k, 0), v)
                else:
                    obs[k] = obs.get(k, 0) + v
            for k, v in (r.result.get("known") or {}).items():
                known[k] = known.get(k, 0) + v
        if r.violations:
            violations = r.violations
            break
        rnd += 1
        if r.infra:
            infra = r.infra
            bad += 1
            print("note: run %d was inconclusive: %s" % (rnd - 1, infra[0][:1500]))
            if bad >= 3 or time.time() - built > 450:
                break
            continue
        infra = []
        if tier == "quick" or time.time() - built > budget:
            break

    listed = known_findings(prop)
    for k in known:
        if k not in listed:
            violations.append("unlisted finding %s" % k)

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "rules.json")) as f:
        info = json.load(f).get(prop, {})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sigs),
            "rule": info.get("rule", ""), "samples": samples or ["(none)"],
            "observed": obs, "rounds": rounds,
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    for k, what in listed.items():
        if known.get(k):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, rnd))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "round": rnd,
                       "violations": violations, "log": r.log}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        for v in violations[:3]:
            print("  " + v[:2500])
        return 1
    if infra:
        print("ERROR property=%s: no answer: %s" % (prop, infra[0][:2000]))
        return 2
    print("OK property=%s: %d cases judged, %d distinct, %d round(s), %.1f s (build %.1f s)" % (
        prop, evals, len(sigs), rounds, time.time() - start, built - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
