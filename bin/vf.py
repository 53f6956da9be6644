"""Shared machinery: run drivers under the controlled scheduler, validate their traces with TLC, run the exhaustive TLC models, write evidence."""
import os, re, sys, json, subprocess, time, shutil, random, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import vbuild
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = os.cpu_count() or 4

class CheckError(Exception): pass
class OutOfDomain(Exception):
    def __init__(self, index, pos, out):
        Exception.__init__(self, "history %d, event %d is outside the domain of the specification" % (index, pos)); self.index, self.pos, self.out = index, pos, out
class TLCTimeout(CheckError): pass

def tlc_classpath():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, j) for j in os.listdir(d) if j.endswith(".jar")]
    return ":".join([JAR] + [j for j in jars if j != JAR])
CP = tlc_classpath()

def run_tlc(module, cfg, workdir, env=None, workers=NCPU, extra=(), timeout=800, mem="3g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (output, seconds)."""
    meta = os.path.join(workdir, "states-%s-%d" % (os.path.basename(cfg), random.getrandbits(32)))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + VERIF + "/spec", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        shutil.rmtree(meta, ignore_errors=True)
        raise TLCTimeout("TLC timed out on %s/%s" % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout, time.time() - t

def tlc_counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(",", "")) or re.findall(r'(\d+) states generated \(.*?\) (\d+) distinct', out.replace(",", ""))
    m2 = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if m2:
        a, b = m2[-1]
        return int(a.replace(",", "")), int(b.replace(",", ""))
    return 0, 0

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.out = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.notes = []
        self.violations = []
        self.known = []
        self.detail = {}
        self.findings = load_findings(prop)
        self.corrupt = [0, 0]

def load_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ drivers
def run_driver(ctx, exe, name, n, opts=None, uniq=10**9, tmax=60, seed=None, jobs=NCPU):
    base = os.path.join(ctx.out, name)
    cmd = [exe, "out=" + base, "seed=%d" % (seed if seed is not None else ctx.seed * 1000003 % 900000007), "n=%d" % n, "jobs=%d" % jobs, "uniq=%d" % max(1, uniq // jobs + 1), "time=%s" % tmax]
    cmd += ["%s=%s" % kv for kv in (opts or {}).items()]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tmax + 120)
    if r.returncode < 0 and r.returncode != -9:
        # the code crashes before any history starts (initialisation of the library): nothing it promises holds
        path = os.path.join(ctx.out, "violation-%s-startup.txt" % name)
        with open(path, "w") as f: f.write("property %s: the program dies with signal %d before its first history\nrerun: %s\n%s\n" % (ctx.prop, -r.returncode, " ".join(cmd), r.stderr[-3000:]))
        ctx.violations.append((name, path, {"e": "crash", "sig": -r.returncode}))
    if r.returncode != 0: raise CheckError("driver %s failed: %s %s" % (name, r.stdout[-500:], r.stderr[-2000:]))
    info = json.loads(r.stdout.strip().splitlines()[-1])
    ctx.evals += info["evaluations"]
    seen = {}
    for w in range(jobs):
        f = "%s.%d" % (base, w)
        for line in open(f):
            s, tr = line.rstrip("\n").split("\t", 1)
            if tr not in seen: seen[tr] = int(s)
        os.unlink(f)
    traces = [(s, tr) for tr, s in seen.items()]
    traces.sort()
    return traces, info, cmd

# ------------------------------------------------------------------ trace validation
def tlc_validate(ctx, module, traces, tag, cfg=None, env=None, workers=NCPU, dump=None, timeout=400):
    """traces: list of json strings (comma separated events). Returns set of accepted indices (0-based)."""
    p = os.path.join(ctx.out, "traces-%s.json" % tag)
    with open(p, "w") as f:
        f.write("[" + ",\n".join("[" + t + "]" for t in traces) + "]")
    e = {"TRACES": p}; e.update(env or {})
    extra = ["-dump", dump] if dump else []
    rc, out, sec = run_tlc(module, (cfg or module + ".cfg"), ctx.out, env=e, workers=workers, extra=["-deadlock"] + extra, timeout=timeout)
    if rc not in (0,):
        open(os.path.join(ctx.out, "tlc-%s.log" % tag), "w").write(out)
        # an event outside the domain of the specification (a number, a type, a name it does not know): the history is not one of its behaviours
        m = re.findall(r'^/\\ tid = (\d+)$', out, re.M) if "Error: The behavior up to this point is" in out and "nested" in out else []
        if m: raise OutOfDomain(int(m[-1]) - 1, int((re.findall(r'^/\\ l = (\d+)$', out, re.M) or ["1"])[-1]), out)
        raise CheckError("TLC error validating %s (rc %d), see %s\n%s" % (tag, rc, os.path.join(ctx.out, "tlc-%s.log" % tag), out[-3000:]))
    g, d = tlc_counts(out)
    acc = set(int(x) - 1 for x in re.findall(r'<<"ACC", (\d+)>>', out))
    if not dump: os.unlink(p)
    return acc, g, d, sec

def validate_all(ctx, module, js, tag, cfg, env, size):
    """Validate in batches; a batch whose state space is too large is split, and a single history that stays too large is undecided."""
    acc, und, G, D, S, ood = set(), set(), 0, 0, 0.0, 0
    todo = [list(range(i, min(i + size, len(js)))) for i in range(0, len(js), size)]
    while todo:
        ids = todo.pop()
        quick = ctx.tier == 'quick'
        lim = (70 if quick else 200) if len(ids) > 1 else 12
        try:
            a, g, d, s = tlc_validate(ctx, module, [js[i] for i in ids], tag, cfg=cfg, env=env, timeout=lim)
            acc |= {ids[k] for k in a}; G += g; D += d; S += s
        except OutOfDomain as x:
            rest = [i for k, i in enumerate(ids) if k != x.index]; ood += 1
            if ood <= 5 and rest: todo.append(rest)
            else: und |= set(rest)
        except TLCTimeout:
            S += lim
            if len(ids) == 1 or S > (200 if quick else 900): und |= set(ids)
            else: todo += [ids[k::4] for k in range(4) if ids[k::4]]
    return acc, G, D, S, und

def explain(ctx, module, trace, tag, cfg=None, env=None):
    """Longest prefix of a rejected trace that the specification can follow, with the specification states reached there."""
    dump = os.path.join(ctx.out, "dump-%s" % tag)
    try: acc, g, d, sec = tlc_validate(ctx, module, [trace], tag + "-x", cfg=cfg, env=env, workers=1, dump=dump)
    except OutOfDomain as x:
        for p in (dump, dump + ".dump"):
            if os.path.exists(p): os.unlink(p)
        return x.pos, ["(the event is outside the domain of the specification)\n" + x.out[x.out.find("Error:"):][:1500]]
    if acc: return None
    best, states = 0, []
    txt = ""
    for p in (dump, dump + ".dump"):
        if os.path.exists(p): txt = open(p).read(); os.unlink(p)
    for blk in re.split(r'\nState \d+:\n|^State \d+:\n', txt):
        m = re.search(r'/\\ l = (\d+)', blk)
        if not m: continue
        l = int(m.group(1))
        if l > best: best, states = l, [blk]
        elif l == best: states.append(blk)
    return best, states[:3]

def signature(events, best):
    """What the first unexplained event is (used to group violations and to match known findings)."""
    if best - 1 < len(events):
        e = events[best - 1]
        return e
    return {"e": "<end>"}

def matches(finding, suite, events, best):
    if finding.get("suite") != suite: return False
    pat = finding["match"]
    e = signature(events, best)
    for k, v in pat.get("event", {}).items():
        if e.get(k) != v: return False
    js = json.dumps(events)
    for rx in pat.get("trace_regex", []):
        if not re.search(rx, js): return False
    return True

def trace_suite(ctx, suite, exe, module, n, opts=None, uniq=2000, tmax=40, cfg=None, env=None, nontrivial=None, batch=None, jobs=NCPU, extra_traces=None):
    """Run one driver and validate every distinct trace it produced against spec/<module>.tla."""
    t0 = time.time()
    traces, info, cmd = run_driver(ctx, exe, suite, n, opts, uniq, tmax, jobs=jobs)
    td = time.time() - t0
    if not traces: raise CheckError("suite %s produced no traces" % suite)
    if len(traces) > uniq:
        # keep every trace that ended abnormally, sample the rest
        odd = [t for t in traces if '"e":"crash"' in t[1] or '"e":"hang"' in t[1] or '"e":"uaf"' in t[1] or '"e":"doublefree"' in t[1] or '"e":"quiesce"' in t[1]]
        so = set(odd)
        rest = [t for t in traces if t not in so]
        random.Random(ctx.seed).shuffle(rest)
        odd = odd[:max(uniq // 2, 1)]
        traces = odd + rest[:max(uniq - len(odd), 0)]
    js = [t[1] for t in traces]
    acc, g, d, sec, undecided = validate_all(ctx, module, js, suite, cfg, env, batch or 4000)
    ctx.states += d; ctx.transitions += g
    ctx.validated += len(acc)
    ctx.distinct += len(js)
    ctx.detail[suite] = {"executions": info["evaluations"], "distinct_traces": len(js), "accepted": len(acc), "tlc_states": d, "tlc_generated": g, "driver_s": round(td, 1), "tlc_s": round(sec, 1)}
    if nontrivial: ctx.detail[suite]["nontrivial"] = sum(1 for t in js if re.search(nontrivial, t))
    log("  %s: %d executions, %d distinct traces, %d accepted, %d spec states, driver %.1fs, TLC %.1fs" % (suite, info["evaluations"], len(js), len(acc), d, td, sec))
    if len(ctx.samples) < 3: ctx.samples.append({"suite": suite, "seed": traces[len(traces) // 2][0], "trace": json.loads("[" + js[len(js) // 2] + "]")[:60]})
    if undecided: ctx.detail[suite]['undecided'] = len(undecided); log('  %s: %d histories undecided (state space too large)' % (suite, len(undecided)))
    rej = [i for i in range(len(js)) if i not in acc and i not in undecided]
    rej.sort(key=lambda i: len(js[i]))
    reported = 0
    for i in rej[:12]:
        r = explain(ctx, module, js[i], "%s-%d" % (suite, i), cfg=cfg, env=env)
        if r is None: raise CheckError("rejection of trace %d of %s did not repeat" % (i, suite))
        best, states = r
        events = json.loads("[" + js[i] + "]")
        kf = next((f for f in ctx.findings if matches(f, suite, events, best)), None)
        if kf:
            ctx.known.append(kf); continue
        path = os.path.join(ctx.out, "violation-%s-%d.txt" % (suite, traces[i][0]))
        with open(path, "w") as f:
            f.write("property %s, suite %s: the real code produced a history the specification %s does not allow\n" % (ctx.prop, suite, module))
            f.write("rerun: %s one v=1 seed=%d %s\n" % (exe, traces[i][0], " ".join("%s=%s" % kv for kv in (opts or {}).items())))
            f.write("(a schedule also depends on the preemption points learnt so far; the recorded history below is the evidence)\n\nhistory (the first %d events are explained; event %d is not):\n" % (best - 1, best))
            for k, ev in enumerate(events): f.write("%s%3d %s\n" % ("=> " if k == best - 1 else "   ", k + 1, json.dumps(ev)))
            if best - 1 >= len(events): f.write("=> end of run\n")
            f.write("\nspecification state(s) after the longest explained prefix:\n")
            for s in states: f.write(s + "\n")
        ctx.violations.append((suite, path, events[best - 1] if best - 1 < len(events) else None))
        reported += 1
        if reported >= 3: break
    if len(rej) > 12 and not reported and ctx.findings:
        # everything examined was a known finding: examine the rest too
        for i in rej[12:]:
            r = explain(ctx, module, js[i], "%s-%d" % (suite, i), cfg=cfg, env=env)
            best, states = r
            events = json.loads("[" + js[i] + "]")
            kf = next((f for f in ctx.findings if matches(f, suite, events, best)), None)
            if kf: continue
            path = os.path.join(ctx.out, "violation-%s-%d.txt" % (suite, traces[i][0]))
            open(path, "w").write("unexplained at event %d:\n%s\n%s\n" % (best, "\n".join(json.dumps(x) for x in events), "\n".join(states)))
            ctx.violations.append((suite, path, events[best - 1] if best - 1 < len(events) else None))
            break
    return js, acc

def model_check(ctx, module, cfg, timeout=700, expect_min=10, workers=NCPU, mem="6g", extra=()):
    """Exhaustive TLC run of the specification with small constants; invariants/properties in the cfg."""
    rc, out, sec = run_tlc(module, cfg, ctx.out, workers=workers, timeout=timeout, mem=mem, extra=["-coverage", "1"] + list(extra))
    g, d = tlc_counts(out)
    if rc != 0:
        p = os.path.join(ctx.out, "tlc-%s.log" % cfg); open(p, "w").write(out)
        raise CheckError("model %s/%s does not satisfy its own properties or failed (rc %d): see %s\n%s" % (module, cfg, rc, p, out[-2500:]))
    if d < expect_min: raise CheckError("model %s/%s explored only %d states" % (module, cfg, d))
    # actions never taken => vacuity
    never = re.findall(r'^<(\w+) line [^>]*>: 0:0', out, re.M)
    never = sorted(set(x for x in never if x not in ("Init",)))
    ctx.states += d; ctx.transitions += g
    ctx.detail["mc:" + cfg] = {"distinct_states": d, "generated": g, "seconds": round(sec, 1), "actions_never_taken": never}
    log("  model %s: %d distinct states, %d generated, %.1fs%s" % (cfg, d, g, sec, (", NEVER TAKEN: " + ",".join(never)) if never else ""))
    return out

def finish(ctx, rule, assumptions=()):
    for f in {f["what"]: f for f in ctx.known}.values():
        log("KNOWN-FINDING: property=%s %s" % (ctx.prop, f["what"]))
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.validated,
                       "evaluations": ctx.evals, "distinct_nontrivial": ctx.distinct, "rule": rule, "samples": ctx.samples or ["none"], "detail": ctx.detail},
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 1), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for suite, path, e in ctx.violations:
        log("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        log("   first unexplained event: %s" % json.dumps(e))
    log("%s %s: %s in %.1fs" % (ctx.prop, ctx.tier, "VIOLATED" if ctx.violations else "held on everything explored", time.time() - ctx.t0))
    return 1 if ctx.violations else 0
