#!/usr/bin/env python3
"""Decides one property: model-check the TLA+ design, replay its behaviours and
generated operation sessions into the real crate, and validate what the crate
did against the TLA+ specification with TLC.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; exit 1: VIOLATION printed; exit 2: tool error.
"""
import argparse, collections, fcntl, hashlib, importlib, json, os, re, random, resource, shutil, signal, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
REPLAYS = os.path.join(ROOT, "replays")
sys.path.insert(0, ROOT)
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

class TimedOut(ToolError):
    pass

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ build
def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["RUSTFLAGS"] = "--cfg webparse_verif"
    for k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    return os.path.join(BUILD, "target", "debug", "conform")

# ------------------------------------------------------------------ TLC
RE_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
def tlc(module, cfg, tmp, env=None, workers=8, timeout=800, extra=(), heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=tmp)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    outp = os.path.join(meta, "out.txt")
    with open(outp, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TimedOut("TLC timed out on " + module)
    out = open(outp, errors="replace").read()
    m = RE_STATES.findall(out)
    if not m:
        raise ToolError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    return dict(rc=p.returncode, out=out, generated=int(m[-1][0]), distinct=int(m[-1][1]), completed="Model checking completed. No error" in out)

def tla_string(lit):
    return json.loads(lit)

# a printed string is one line whatever its length (a printed tuple may be broken over several)
RE_SCRIPT = re.compile(r'^("SCRIPT (?:[^"\\]|\\.)*")$', re.M)
RE_MISM = re.compile(r'^("MISMATCH (?:[^"\\]|\\.)*")$', re.M)

def run_model(model, cfg, tmp, tier):
    """model check the design; a failing invariant here is an error of the specification."""
    t = time.time()
    r = tlc(model, cfg, tmp, workers=1, env={"TIER": tier})
    if not r["completed"]:
        raise ToolError("design model %s/%s violates its own properties:\n%s" % (model, cfg, r["out"][-3000:]))
    scripts, seen = [], set()
    if r["out"].count('"SCRIPT') != len(RE_SCRIPT.findall(r["out"])):
        raise ToolError("unreadable script output of " + model)
    for m in RE_SCRIPT.finditer(r["out"]):
        if m.group(1) not in seen:
            seen.add(m.group(1))
            scripts.append(json.loads(tla_string(m.group(1))[7:]))
    return dict(model=model, cfg=cfg, generated=r["generated"], distinct=r["distinct"], scripts=scripts, wall=round(time.time() - t, 2))

# octets of recorded traces that are validated in one go
BATCH = 24 << 20
RE_EVALFAIL = re.compile(r"TLC threw an unexpected exception|error occurred when TLC was evaluating")
def validate(mod, tf, tmp, timeout=800):
    """trace validation; answers the specification cannot even evaluate are set aside one by one"""
    stuck = []
    while True:
        r = tlc(mod, mod + ".cfg", tmp, env={"TRACE": tf}, timeout=timeout)
        if r["completed"] or len(stuck) >= 4 or not RE_EVALFAIL.search(r["out"]) or re.search(r"StackOverflow|OutOfMemory|heap space", r["out"]):
            return r, stuck
        tail = r["out"].split("The behavior up to this point is:")
        if len(tail) < 2:
            return r, stuck
        at = {}
        for k, v in re.findall(r"^/\\ (s|i) = (\d+)", tail[-1], re.M):
            at[k] = int(v)
        if set(at) != {"s", "i"}:
            return r, stuck
        with open(tf) as f:
            lines = f.readlines()
        t = json.loads(lines.pop(at["s"] - 1))
        if at["i"] >= len(t["ev"]):
            return r, stuck
        stuck.append((t["id"], at["i"] + 1))
        if not lines:
            return dict(r, completed=True, out="", generated=0, distinct=0), stuck
        with open(tf, "w") as f:
            f.writelines(lines)

# ------------------------------------------------------------------ harness
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_harness(binary, sessions, tmp, label):
    """runs all sessions; returns traces {id: trace} and crashes [(id, what)]"""
    traces, crashes = {}, []
    todo = sessions
    rounds = 0
    while todo:
        rounds += 1
        inp = os.path.join(tmp, "%s.%d.in" % (label, rounds))
        outp = os.path.join(tmp, "%s.%d.out" % (label, rounds))
        with open(inp, "w") as f:
            for s in todo:
                f.write(json.dumps({"id": s["id"], "fam": s["fam"], "ops": s["ops"]}, separators=(",", ":")) + "\n")
        try:
            p = subprocess.run([binary, inp, outp], preexec_fn=limits, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=840)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        done = set()
        if os.path.exists(outp):
            for line in open(outp):
                if not line.endswith("\n"):
                    break
                t = json.loads(line)
                traces[t["id"]] = t
                done.add(t["id"])
        err = p.stderr.decode(errors="replace")
        if p.returncode == 0:
            if len(done) != len(todo):
                raise ToolError("harness lost sessions")
            break
        if p.returncode == 78 or "HARNESS" in err:
            raise ToolError("harness error: " + err[-2000:])
        rest = [s for s in todo if s["id"] not in done]
        if not rest:
            raise ToolError("harness died after the last session: rc %s %s" % (p.returncode, err[-500:]))
        bad = rest[0]
        if p.returncode == 77:
            what = "an operation did not return (hang): " + open(outp + ".hang").read()
        else:
            what = "the process died (status %s): %s" % (p.returncode, err[-300:].strip())
        crashes.append((bad["id"], what))
        todo = rest[1:]
        if rounds >= 4:
            break
    return traces, crashes

# ------------------------------------------------------------------ known findings
def known_findings():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out

# ------------------------------------------------------------------ main
def shape(x, d=0):
    """short form for samples"""
    s = json.dumps(x, separators=(",", ":"))
    return s if len(s) < 700 else s[:700] + "..."

def run_property(prop, tier, seed, replay=None, keep=None):
    from gen import registry
    t0 = time.time()
    cfg = registry.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    violations, samples = [], []
    cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0)
    try:
        binary = build()
        bt = time.time() - t0
        models = []
        sessions = []
        def add(fam, ops, src):
            sessions.append({"id": len(sessions) + 1, "fam": fam, "ops": ops, "src": src})
        if replay:
            r = json.load(open(replay))
            add(r["fam"], r["ops"], "replay")
        else:
            for m in cfg.get("models", []):
                mod, c = m["mod"], m["cfg"][tier] if isinstance(m["cfg"], dict) else m["cfg"]
                r = run_model(mod, c, tmp, tier)
                models.append(r)
                cov["states"] += r["distinct"]
                cov["transitions"] += r["generated"]
                adapt = m.get("adapt")
                cap = m.get("cap", {}).get(tier)
                sc = r.pop("scripts")
                r["scripts"] = len(sc)
                if cap and len(sc) > cap:
                    sc = random.Random(seed).sample(sc, cap)
                r["scripts_replayed"] = len(sc)
                for ops in sc:
                    if adapt:
                        for o in adapt(ops):
                            add(m["fam"], o, mod)
                    else:
                        add(m["fam"], ops, mod)
            for g in cfg["gens"]:
                rng = random.Random("%s/%s/%d" % (prop, g.__name__, seed))
                for fam, ops in g(rng, tier):
                    add(fam, ops, g.__name__)
        gt = time.time() - t0
        traces, crashes = run_harness(binary, sessions, tmp, "run")
        ht = time.time() - t0
        for sid, what in crashes:
            s = sessions[sid - 1]
            violations.append(dict(session=s, event=None, what=what, expected="the call returns"))
        byfam = collections.OrderedDict()
        for s in sessions:
            if s["id"] in traces:
                byfam.setdefault(s["fam"], []).append(traces[s["id"]])
        opcount = collections.Counter()
        tv = []
        batches, late = [], []
        for fam, ts in byfam.items():
            for extra in (False, True):
                cur, size = [], 0
                for x in ts:
                    if sessions[x["id"] - 1]["src"].startswith(("focused_", "seasoned_")) != extra:
                        continue
                    line = json.dumps({"id": x["id"], "ev": x["ev"]}, separators=(",", ":")) + "\n"
                    if cur and size + len(line) > BATCH:
                        (late if extra else batches).append((fam, cur))
                        cur, size = [], 0
                    cur.append((x, line))
                    size += len(line)
                if cur:
                    (late if extra else batches).append((fam, cur))
        # what is only there for new vocabulary comes last, and may be cut short
        deadline, skipped = t0 + (450 if tier == "quick" else 3600), 0
        for bn, (fam, lines) in enumerate(batches + late):
            if bn >= len(batches) and time.time() > deadline:
                skipped += len(lines)
                continue
            ts = [x for x, _ in lines]
            tf = os.path.join(tmp, "trace_%d_%s.ndjson" % (bn, fam))
            want = 0
            with open(tf, "w") as f:
                for t, line in lines:
                    f.write(line)
                    want += 1 + len(t["ev"])
                    for e in t["ev"]:
                        opcount["%s.%s:%s" % (fam, e["op"], e["r"]["t"])] += 1
            mod = cfg.get("spec", "T_" + fam)
            try:
                r, stuck = validate(mod, tf, tmp, 800 if bn < len(batches) else max(60, deadline + 250 - time.time()))
            except TimedOut:
                if bn < len(batches):
                    raise
                skipped += len(lines)
                continue
            for sid, ev in stuck:
                t = traces[sid]
                violations.append(dict(session=sessions[sid - 1], event=ev, got=t["ev"][ev - 1], expected="an answer of the specified kind",
                                       what="%s.%s: the specification has no reading of the answer %s" % (fam, t["ev"][ev - 1]["op"], shape(t["ev"][ev - 1]["r"]))))
            ts = [t for t in ts if t["id"] not in {x[0] for x in stuck}]
            want = sum(1 + len(t["ev"]) for t in ts)
            mism = [tla_string(x).split(" ", 3)[1:] for x in RE_MISM.findall(r["out"])]
            if not r["completed"] and not stuck:
                raise ToolError("trace validation failed on %s:\n%s" % (fam, r["out"][-3000:]))
            if r["out"].count('"MISMATCH') != len(mism):
                raise ToolError("unreadable mismatch output:\n" + "\n".join(l for l in r["out"].splitlines() if "MISMATCH" in l)[:2000])
            if not mism and r["completed"] and r["distinct"] != want:
                raise ToolError("trace validation visited %d states, expected %d" % (r["distinct"], want))
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"] - len(ts)
            cov["traces_validated_against_impl"] += len(ts)
            tv.append(dict(family=fam, sessions=len(ts), events=want - len(ts), mismatches=len(mism)))
            if not keep and os.path.exists(tf):
                os.remove(tf)
            for sid, ev, exp in mism:
                sid, ev = int(sid), int(ev)
                t = traces[sid]
                violations.append(dict(session=sessions[sid - 1], event=ev, got=t["ev"][ev - 1], expected=exp,
                                       what="%s.%s: the code answered %s" % (fam, t["ev"][ev - 1]["op"], shape(t["ev"][ev - 1]["r"]))))
            if keep:
                shutil.copy(tf, keep)
        # known findings
        kf = [k for k in known_findings() if k["property"] == prop]
        real = []
        seen_kf = collections.Counter()
        for v in violations:
            hit = None
            for k in kf:
                if matches(k, v):
                    hit = k
                    break
            if hit:
                seen_kf[hit["what"]] += 1
            else:
                real.append(v)
        for w, n in seen_kf.items():
            log("KNOWN-FINDING: property=%s %s (%d occurrences)" % (prop, w, n))
        rs = random.Random(seed)
        pool = [t for t in traces.values()]
        for t in rs.sample(pool, min(4, len(pool))):
            samples.append({"fam": t["fam"], "src": sessions[t["id"] - 1]["src"], "trace": shape(t["ev"])})
        cov["samples"] = samples
        cov["models"] = models
        cov["trace_validation"] = tv
        cov["sessions_left_out_for_time"] = skipped
        cov["events_by_operation_and_result"] = dict(sorted(opcount.items()))
        cov["known_findings_seen"] = dict(seen_kf)
        cov["seconds"] = dict(build=round(bt, 1), models_and_generation=round(gt - bt, 1), run=round(ht - gt, 1), trace_validation=round(time.time() - t0 - ht, 1))
        if not replay:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                               assumptions=cfg.get("assumptions", registry.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(real)), f, indent=1)
        if real:
            os.makedirs(REPLAYS, exist_ok=True)
            for n, v in enumerate(real[:5]):
                h = hashlib.sha1(json.dumps(v["session"]["ops"]).encode()).hexdigest()[:10]
                rp = os.path.join(REPLAYS, "%s_%s.json" % (prop, h))
                with open(rp, "w") as f:
                    json.dump(dict(property=prop, fam=v["session"]["fam"], ops=v["session"]["ops"], source=v["session"]["src"], event=v["event"],
                                   what=v["what"], got=v.get("got"), expected=v["expected"]), f, indent=1)
                log("  %s (event %s of a session from %s; specification: %s)" % (v["what"][:400], v["event"], v["session"]["src"], shape(v["expected"])[:400]))
                log("VIOLATION property=%s replay=%s" % (prop, rp))
            log("%d violating sessions of %d" % (len(real), len(sessions)))
            return 1
        log("OK property=%s tier=%s: %d model states, %d sessions / %d events of the real code accepted by the specification in %.1fs" %
            (prop, tier, sum(m["distinct"] for m in models), len(traces), sum(x["events"] for x in tv), time.time() - t0))
        return 0
    finally:
        if os.environ.get("KEEP_TMP"):
            log("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)

def matches(k, v):
    """a known finding is identified by the operation and the exact input recorded for it"""
    g = v.get("got")
    if not g or v["session"]["fam"] != k["fam"] or g["op"] != k["op"]:
        return False
    from gen import findings
    return getattr(findings, k["match"])(g, v, k)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    a = ap.parse_args()
    if a.prop == "setup":
        build()
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return run_property(a.prop, a.tier, seed, a.replay, a.keep)
    except ToolError as e:
        log("TOOL ERROR: " + str(e))
        return 2

if __name__ == "__main__":
    sys.exit(main())
