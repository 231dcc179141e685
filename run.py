#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough   - decide one property (see DESIGN.md)."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
REPO = "/repo"
TARGET = VERIF + "/target"
SPEC = VERIF + "/spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8

from plan import PLAN  # noqa: E402


class Tool(Exception):
    """the check itself could not run"""


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e.pop("RUSTFLAGS", None)
    return e


def sh(cmd, cwd=None, timeout=600, extra=None):
    e = env()
    e.update(extra or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


# ------------------------------------------------------------------ building
def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def fresh_target():
    """Timestamps alone never decide whether the library is rebuilt."""
    os.makedirs(TARGET, exist_ok=True)
    mark, h = TARGET + "/.repo-hash", repo_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != h:
        for d in glob.glob(TARGET + "/debug/.fingerprint/cglinalg*") + glob.glob(TARGET + "/debug/.fingerprint/h*-*"):
            shutil.rmtree(d, ignore_errors=True)
        open(mark, "w").write(h)


def build(crate, binary):
    fresh_target()
    cwd = "%s/harness/%s" % (VERIF, crate)
    r = sh(["cargo", "build", "--offline", "--bin", binary], cwd=cwd)
    if r.returncode == 0:
        return "%s/debug/%s" % (TARGET, binary)
    # which side does not compile?
    lib = "cglinalg_core" if crate == "core" else "cglinalg"
    l = sh(["cargo", "build", "--offline", "-p", lib], cwd=cwd)
    if l.returncode != 0:
        raise Tool("the library does not build:\n" + l.stderr[-4000:])
    errs = re.findall(r"-->\s*(\S+):\d+:\d+", r.stderr)
    if "error" in r.stderr and any("src/" in x for x in errs):
        raise Violation("the library builds, but programs using its documented operations no longer do", {"compiler": r.stderr[-6000:]})
    raise Tool("harness does not build:\n" + r.stderr[-4000:])


# ------------------------------------------------------------------ TLC
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, meta, extra_env=None, workers=1, timeout=840, heap="2g", args=()):
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), *args, module + ".tla"]
    return sh(cmd, cwd=SPEC, timeout=timeout, extra=extra_env)


def model_check(name, consts, invs, work, workers, props=()):
    """exhaustive check of the laws in MC module `name`"""
    tag = name + "_" + hashlib.md5(json.dumps([consts, invs, props]).encode()).hexdigest()[:6]
    cfg = "%s/%s.cfg" % (work, tag)
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        for k, v in consts.items():
            f.write("CONSTANT %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v))
        for i in invs:
            f.write("INVARIANT %s\n" % i)
        for i in props:
            f.write("PROPERTY %s\n" % i)
    r = tlc(name, cfg, "%s/md_%s" % (work, tag), workers=workers, heap="6g")
    out = r.stdout
    m = STAT.findall(out)
    if "Model checking completed. No error has been found." not in out or not m:
        raise Tool("model %s does not check:\n%s" % (name, out[-3000:] + r.stderr[-2000:]))
    gen, dist = map(int, m[-1])
    return {"module": name, "constants": consts, "invariants": list(invs), "properties": list(props), "states": dist, "transitions": gen}


def validate(trace, work, i):
    r = tlc("Trace", "Trace.cfg", "%s/mt%d" % (work, i), {"TRACE": trace}, timeout=800)
    out = r.stdout
    known = re.findall(r'<<"KNOWN", "([^"]+)", (\d+)>>', out)
    rej = re.search(r'<<"REJECT", (\d+)>>', out)
    m = STAT.findall(out)
    n = sum(1 for _ in open(trace))
    if rej:
        return n, int(rej.group(1)), known, 0
    if not m or "Model checking completed. No error has been found." not in out:
        # the recorded result does not even have the form the specification
        # computes with: TLC says at which event evaluation stopped
        at = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if at and "Error: " in out and "OutOfMemory" not in out + r.stderr and "StackOverflow" not in out:
            return n, int(at[-1]), known, 0
        return n, None, known, out[-3000:] + r.stderr[-1500:]
    return n, 0, known, int(m[-1][1])


def recorded(binary, prop, tier, seed, work, shards):
    try:
        r = sh([binary, prop, tier, str(seed), work, str(shards)], timeout=240)
    except subprocess.TimeoutExpired:
        raise Violation("a library call does not return", {"driver": [binary, prop, tier, seed]})
    if r.returncode == 0:
        return
    if r.returncode == 101 or r.returncode < 0:
        raise Violation("the driver was brought down by the library (exit %d)" % r.returncode,
                        {"driver": [os.path.basename(binary), prop, tier, seed], "stderr": r.stderr[-3000:]})
    raise Tool("driver failed: %s" % r.stderr[-3000:])


# ------------------------------------------------------------------ main
def load_known():
    p = VERIF + "/KNOWN_FINDINGS.json"
    return {k["name"]: k for k in json.load(open(p))["findings"]} if os.path.exists(p) else {}


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    os.makedirs(VERIF + "/work", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=VERIF + "/work")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "wall_s": 0}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    code = 0
    try:
        with ThreadPoolExecutor(NCPU + 4) as ex:
            # the specification's own laws, exhaustively, while the code builds
            mcs = [ex.submit(model_check, n, c, i, work, 4, p) for (n, c, i, p) in plan.models(tier)]
            traces, notes = plan.record(sys.modules[__name__], prop, tier, seed, work)
            runs = list(ex.map(lambda t: validate(t[1], work, t[0]), list(enumerate(traces))))
            laws = [m.result() for m in mcs]
        cov["laws_model_checked"] = laws
        cov["recording"] = notes
        seen, bad = {}, None
        events = 0
        ops = {}
        for t, (n, rej, known, extra) in zip(traces, runs):
            lines = open(t).read().splitlines()
            for l in lines:
                k = re.match(r'\{"f": ?"(\w+)", ?"o": ?"(\w+)"', l)
                k = k.group(1) + "." + k.group(2) if k else "?"
                ops[k] = ops.get(k, 0) + 1
            for name, pos in known:
                seen.setdefault(name, lines[int(pos) - 1])
            if rej is None:
                raise Tool("trace validation failed to run: " + str(extra))
            if rej:
                e = json.loads(lines[rej - 1])
                bad = bad or {"event": e, "trace_position": rej, "preceding": lines[max(0, rej - 4):rej - 1]}
            else:
                events += n
                cov["traces_validated_against_impl"] += 1
                cov["states"] += extra
                cov["transitions"] += n
        for l in laws:
            cov["states"] += l["states"]
            cov["transitions"] += l["transitions"]
        cov["events_validated"] = events
        cov["events_by_operation"] = ops
        rng = random.Random(seed)
        pool = [l for t in traces for l in open(t).read().splitlines()[:400]]
        cov["samples"] = [json.loads(x) for x in rng.sample(pool, min(6, len(pool)))]
        listed = load_known()
        for name in sorted(seen):
            k = listed.get(name)
            if k is None:
                bad = bad or {"event": json.loads(seen[name]), "note": "deviation not listed in KNOWN_FINDINGS.json: " + name}
            else:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        cov["known_findings_seen"] = sorted(seen)
        if bad:
            raise Violation("a recorded call is not a step the specification allows", bad)
        print("OK property=%s tier=%s events=%d laws=%d" % (prop, tier, events, len(laws)))
    except Violation as v:
        code = 1
        d = VERIF + "/work/replay"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%s-%d.json" % (d, prop, tier, seed)
        json.dump({"property": prop, "tier": tier, "seed": seed, "what": v.what, **v.data,
                   "reproduce": "VERIF_SEED=%d python3 run.py %s %s" % (seed, prop, tier)}, open(path, "w"), indent=1)
        print("%s\n%s" % (v.what, json.dumps(v.data)[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        cov["violation"] = v.what
    except (Tool, subprocess.TimeoutExpired, OSError) as x:
        code = 2
        print("ERROR property=%s: %s" % (prop, x), file=sys.stderr)
        cov["error"] = str(x)[:2000]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    sys.exit(code)


if __name__ == "__main__":
    main()
