#!/usr/bin/env python3
"""Decides one property:  python3 check.py C05

 1. TLC explores the property's models exhaustively (laws of the specification)
    and prints the behaviours the implementation is going to replay.
 2. The Go harness is built from /repo's working tree and runs those behaviours
    and generated ones on the real code, recording what it does.
 3. TLC judges the recordings against the specification.

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself
failed."""
import concurrent.futures as cf
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8

sys.path.insert(0, HERE)
from props import AREAS, PROPS  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             PATH="/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin"))
    return e


def build(area, work):
    """Build the harness of one area inside /repo's module, by overlay."""
    pkg = "internal/verifharness_" + area
    files = AREAS[area]
    overlay = {"Replace": {os.path.join(REPO, pkg, f): os.path.join(HERE, "harness", f) for f in files}}
    ov = os.path.join(work, "overlay.json")
    with open(ov, "w") as f:
        json.dump(overlay, f)
    exe = os.path.join(work, "harness")
    r = subprocess.run(["go", "build", "-tags", "verif", "-overlay", ov, "-o", exe, "./" + pkg], cwd=REPO, env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("harness does not build:\n" + r.stdout[-4000:])
    return exe


def tlc(module, cfg, work, env=None, workers=1, mem="1500m", timeout=600, gc="-XX:+UseSerialGC"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + mem, gc, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"]
    out = os.path.join(meta, "out.txt")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (module, cfg))
    with open(out, errors="replace") as f:
        text = f.read()
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, text


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def model(m, tier, work):
    """Explore one model.  Returns (states, transitions, printed behaviours)."""
    cfg = m.get("cfg_" + tier) or m["cfg"]
    rc, text = tlc(m["module"], cfg, work, workers=m.get("workers", 4), mem=m.get("mem", "3g"),
                   timeout=m.get("timeout", 3000 if tier == "thorough" else 600), gc="-XX:+UseParallelGC")
    if rc != 0:
        raise CheckError("model %s (%s): TLC exit %d\n%s" % (m["module"], cfg, rc, "\n".join(
            l for l in text.splitlines() if not l.startswith('"'))[-4000:]))
    mm = STATES.findall(text)
    if not mm:
        raise CheckError("model %s: no state count" % m["module"])
    scripts = []
    for line in text.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            scripts.append(json.loads(line))
    return int(mm[-1][1]), int(mm[-1][0]), scripts


def judge(module, trace, work, timeout=1500):
    """TLC's verdict on a recording: None, or the index of the rejected event."""
    rc, text = tlc(module, module + ".cfg", work, env={"TRACE": trace}, timeout=timeout)
    if rc == 0:
        m = STATES.findall(text)
        return None, int(m[-1][1]) if m else 0
    if rc == 12 and "Invariant Accepted is violated" in text:
        n = re.findall(r"^(?:/\\ )?l = (\d+)", text, re.M)
        if n:
            return int(n[-1]), int(n[-1])
    raise CheckError("TLC exit %d on %s\n%s" % (rc, trace, text[-3000:]))


def harness(exe, args, timeout):
    try:
        return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                              env=dict(os.environ, GOMAXPROCS="4", GOTRACEBACK="none"))
    except subprocess.TimeoutExpired:
        raise CheckError("harness timed out: " + " ".join(args))


def inflight(path):
    with open(path + ".inflight", "rb") as f:
        b = f.read()
    n = struct.unpack("<Q", b[:8])[0]
    return json.loads(b[8:8 + n])


def lines_of(path):
    with open(path) as f:
        return [l for l in f.read().split("\n") if l]


def execute(exe, prop, inputs, work):
    """Run the code on the inputs again; returns the events."""
    d = tempfile.mkdtemp(prefix="exec", dir=work)
    src, out = os.path.join(d, "in"), os.path.join(d, "out")
    with open(src, "w") as f:
        for i in inputs:
            f.write(json.dumps({"i": i, "o": {}}) + "\n")
    r = harness(exe, [prop, "exec", "-in", src, "-out", out], 300)
    evs = [json.loads(l) for l in lines_of(out)] if os.path.exists(out) else []
    if r.returncode != 0:
        if r.returncode == 3 or not os.path.exists(out + ".inflight"):
            raise CheckError("harness: " + r.stderr.decode(errors="replace")[-2000:])
        evs.append({"i": inflight(out), "o": {"st": "crash"}})
    shutil.rmtree(d, ignore_errors=True)
    return evs


def confirm(exe, prop, module, event, work):
    """Does the real code do it again?  Returns the rejected event or None."""
    evs = execute(exe, prop, [event["i"]] * 30, work)
    t = tempfile.mktemp(prefix="confirm", dir=work)
    with open(t, "w") as f:
        for e in evs:
            f.write(json.dumps(e) + "\n")
    bad, _ = judge(module, t, work)
    return evs[bad - 1] if bad else None


def after_history(exe, prop, module, inputs, work):
    """Run all the inputs in one process; the last event if it is rejected."""
    evs = execute(exe, prop, inputs, work)
    if len(evs) != len(inputs):
        return None
    t = tempfile.mktemp(prefix="confirm", dir=work)
    with open(t, "w") as f:
        f.write(json.dumps(evs[-1]) + "\n")
    return evs[-1] if judge(module, t, work)[0] else None


def confirm_history(exe, prop, module, trace, bad, work):
    """The event alone is fine; is it wrong behind the cases that came before it?
    Returns (rejected event, the inputs that lead to it) or (None, None)."""
    with open(trace) as f:
        inputs = [json.loads(line)["i"] for _, line in zip(range(bad), f)]

    def last(ins):
        return after_history(exe, prop, module, ins, work)

    # twice: it has to happen every time
    event = last(inputs) and last(inputs)
    if event is None:
        return None, None
    n = len(inputs)
    while n > 1:
        less = last(inputs[-(n // 2):])
        if less is None:
            break
        n, event = n // 2, less
    return event, inputs[-n:]


def shard(exe, prop, cfg, k, seed, tier, scripts, work):
    """Record and judge one shard.  Returns (rejected event or None, stats, events judged)."""
    out = os.path.join(work, "trace%d" % k)
    args = [prop, "gen", "-seed", str(seed), "-tier", tier, "-shard", str(k), "-shards", str(SHARDS), "-out", out]
    if scripts:
        args += ["-scripts", scripts]
    r = harness(exe, args, 1500)
    stats = {"events": 0, "distinct": 0, "kinds": {}}
    if r.returncode != 0:
        if r.returncode == 3 or not os.path.exists(out + ".inflight"):
            raise CheckError("harness: " + r.stderr.decode(errors="replace")[-2000:])
        # the process died; the case it died on is run again on its own
        evs = execute(exe, prop, [inflight(out)], work)
        return ("rejected", evs[0]) if evs[0]["o"].get("st") == "crash" else ("flaky", evs[0]), stats, 0
    ended = not os.path.exists(out + ".stats")
    if not ended:
        with open(out + ".stats") as f:
            stats = json.load(f)
    bad, n = judge(cfg["trace"], out, work, timeout=3000)
    if bad:
        with open(out) as f:
            for j, line in enumerate(f):
                if j == bad - 1:
                    return ("rejected", json.loads(line), out, bad), stats, bad - 1
    if ended:
        raise CheckError("recording of shard %d ended early: %s" % (k, r.stderr.decode(errors="replace")[-500:]))
    return None, stats, n - 1


def main():
    t0 = time.time()
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    outdir = os.path.join(HERE, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    try:
        return run(prop, cfg, tier, seed, outdir, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, cfg, tier, seed, outdir, work, t0):
    states = transitions = 0
    scripts, models = [], {}
    with cf.ThreadPoolExecutor(SHARDS) as pool:
        fb = pool.submit(build, cfg["area"], work)
        fm = [(m, pool.submit(model, m, tier, work)) for m in cfg["models"]]
        exe = fb.result()
        for m, f in fm:
            s, t, sc = f.result()
            states += s
            transitions += t
            models[m["module"] + ":" + (m.get("cfg_" + tier) or m["cfg"])] = {"states": s, "transitions": t, "behaviours": len(sc)}
            scripts += sc
        sf = None
        if scripts:
            sf = os.path.join(work, "scripts")
            with open(sf, "w") as f:
                for s in scripts:
                    f.write(s.strip() + "\n")
        # known findings first: each is one recorded input
        for kf in sorted(glob.glob(os.path.join(HERE, "known", prop + "-*.json"))):
            with open(kf) as f:
                k = json.load(f)
            if confirm(exe, prop, cfg["trace"], {"i": k["input"]}, work):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        fs = [pool.submit(shard, exe, prop, cfg, k, seed, tier, sf, work) for k in range(SHARDS)]
        results = [f.result() for f in fs]
    validated = sum(n for _, _, n in results)
    kinds, distinct = {}, 0
    for _, st, _ in results:
        distinct += st["distinct"]
        for k, n in st["kinds"].items():
            kinds[k] = kinds.get(k, 0) + n
    samples = []
    for k in range(SHARDS):
        p = os.path.join(work, "trace%d" % k)
        if os.path.exists(p):
            with open(p) as f:
                for j, line in enumerate(f):
                    if j == 7 * k + 3 and len(line) < 6000:
                        samples.append(json.loads(line))
                        break
    violation, history, trouble = None, None, None
    for rej, _, _ in results:
        if rej is None:
            continue
        if rej[0] == "flaky":
            trouble = "the harness died on a case that does not kill it alone"
            continue
        again = confirm(exe, prop, cfg["trace"], rej[1], work)
        if again is None and len(rej) > 2:
            again, history = confirm_history(exe, prop, cfg["trace"], rej[2], rej[3], work)
        if again is None:
            trouble = "rejected event not reproduced: " + json.dumps(rej[1])[:2000]
            continue
        violation = again
        break
    if trouble and violation is None:
        raise CheckError(trouble)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions,
            "traces_validated_against_impl": validated,
            "distinct_inputs": distinct, "behaviours_from_spec": len(scripts),
            "models": models, "input_classes": kinds, "samples": samples[:4],
        },
        "assumptions": cfg.get("assumptions", []),
        "violations": 1 if violation else 0,
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if violation:
        path = os.path.join(outdir, "%s-seed%d.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "trace_module": cfg["trace"], "event": violation, "history": history,
                       "replay": "python3 replay.py " + os.path.relpath(path, HERE)}, f, indent=1)
            f.write("\n")
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if validated == 0:
        raise CheckError("nothing was validated")
    log("%s held: %d model states, %d events validated, %.1f s" % (prop, states, validated, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("check error:", e)
        sys.exit(2)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        sys.exit(2)
