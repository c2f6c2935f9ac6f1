"""Runs the parts of a property's plan: model checking of the specification, generation of
scripts from it, their execution by the drivers, and validation of the recorded histories."""
import hashlib, json, os, random, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import compiler, harness, tla
from .tla import ToolError, VERIF

WORK = VERIF / "work"


# Random histories are cheap: the plans give their number relative to this
SIM = 40


class Part:
    """One component of a plan.

    module/mc: specification that is model checked and generates the scripts; mc is a list of
      dict(consts, cfgs, maxlen) (exhaustive), sim a list of dict(consts, cfgs, num, depth).
    bin: driver.  vmodule/vconsts/accept: the specification histories are validated against.
    """

    def __init__(self, name, module, bin, mc=(), sim=(), vmodule=None, vconsts=None, accept="match",
                 props=(), invs=("Inv",), vinvs=("Inv",), profiles=("dev",), extra=(), args=(), cap=None,
                 gen=None, timeout=600):
        self.__dict__.update(locals())
        self.vmodule = vmodule or module
        # the scripts are programs, and what is observed is the compiler
        self.compiled = bin[8:] if bin.startswith("compile:") else None


class Design:
    """Model checking of a specification alone: an algorithm against what it has to satisfy."""

    def __init__(self, name, module, **kw):
        self.name, self.module, self.kw, self.bin, self.compiled, self.profiles = name, module, kw, None, None, ()

    def run(self, seed, verbose, work):
        kw = dict(self.kw)
        r = tla.model_check(work, self.module, kw.pop("consts"), kw.pop("cfgs"), name=self.name, **kw)
        if verbose:
            print("  %s: %d states %d transitions %.1fs" % (self.name, r["states"], r["transitions"], r["secs"]))
        return dict(states=r["states"], transitions=r["transitions"], traces=0, events=0, samples=[],
                    parts={self.name: dict(states=r["states"], transitions=r["transitions"])}), []


def known(prop):
    """Listed findings: (part, op, result) signatures that are reported but not violations."""
    res = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("finding: property=%s " % prop):
                res.append(line.split(" ", 2)[2])
    return res


def signature(part, h, step, ev):
    return "part=%s cfg=%s script=%s" % (part.name, ",".join(map(str, h["cfg"])), (h["script"] or "").split("|", 1)[-1])


def sample(scripts, cap, seed):
    """Some of the scripts: every configuration and last operation has its share."""
    rnd = random.Random(seed)
    groups = {}
    for s in scripts:
        c, ops = s.split("|", 1)
        groups.setdefault((c, ops.rstrip(";").rsplit(";", 1)[-1]), []).append(s)
    res = []
    left = sorted(groups.items(), key=lambda g: (len(g[1]), g[0]))
    for i, (_, g) in enumerate(left):
        n = max(1, (cap - len(res)) // (len(left) - i))
        res += g if len(g) <= n else rnd.sample(g, n)
        if len(res) >= cap:
            break
    return sorted(res)


def execute(part, scripts, work, profile, stats=None):
    if part.compiled:
        return compiler.run(part.compiled, scripts, stats)
    return harness.run(part.bin, scripts, work, profile, timeout=part.timeout, args=part.args, stats=stats)


def run_part(prop, part, seed, verbose, work):
    stats = dict(states=0, transitions=0, traces=0, events=0, samples=[], parts={})
    scripts = list(part.extra)
    jobs = []
    for j, m in enumerate(part.mc):
        jobs.append(dict(name="%s_mc%d" % (part.name, j), consts=m["consts"], cfgs=m["cfgs"], invs=part.invs,
                         props=m.get("props", part.props), maxlen=m.get("maxlen"), workers=m.get("workers", 4),
                         timeout=m.get("timeout", 800), emit=m.get("emit", True), cap=m.get("cap")))
    for j, m in enumerate(part.sim):
        jobs.append(dict(name="%s_sim%d" % (part.name, j), consts=m["consts"], cfgs=m["cfgs"], invs=part.invs,
                         simulate=(SIM * m["num"], m["depth"]), seed=seed * 1000 + j, timeout=m.get("timeout", 800),
                         early=m.get("early", False)))

    def go(job):
        job = dict(job)
        cap = job.pop("cap", None)
        r = tla.explore(work, part.module, job.pop("consts"), job.pop("cfgs"), **job)
        r["scripts"] = tla.maximal(r["scripts"])
        if cap and len(r["scripts"]) > cap:
            r["scripts"] = sample(r["scripts"], cap, seed)
        return r
    with ThreadPoolExecutor(4) as ex:
        for job, r in zip(jobs, ex.map(go, jobs)):
            stats["states"] += r["states"]
            stats["transitions"] += r["transitions"]
            scripts += r["scripts"]
            if verbose:
                print("  %s: %d states %d transitions %d scripts %.1fs" % (job["name"], r["states"], r["transitions"], len(r["scripts"]), r["secs"]))
    if part.gen:
        scripts += part.gen(seed)
    scripts = tla.maximal(scripts)
    bad = []
    judged = set()
    for profile in part.profiles:
        t0 = time.time()
        hst = {}
        hs = execute(part, scripts, work, profile, hst)
        # identical histories are validated once
        order = []
        for h in hs:
            key = hash(json.dumps([h["cfg"], h["ev"]]))
            if key not in judged:
                judged.add(key)
                order.append(h)
        t1 = time.time()
        CH = 100000
        rejected, diag, done = [], [], 0
        for i in range(0, len(order), CH):
            chunk = order[i:i + CH]
            ok, st, rej, dg = tla.validate(work, part.vmodule, part.vconsts if part.vconsts is not None else part.mc[0]["consts"],
                                           chunk, name="%s_%s" % (part.name, profile), accept=part.accept, invs=part.vinvs)
            done += len(ok)
            stats["transitions"] += st["transitions"]
            stats["states"] += st["states"]
            for x in dg:
                bad.append((part, profile, chunk[x["index"]], x))
            rejected += rej
            if len(bad) >= 5:
                break
        stats["traces"] += done
        stats["events"] += sum(len(h["ev"]) for h in order)
        if verbose:
            print("  %s/%s: %d scripts -> %d histories %d distinct (%.1fs), validated %d, rejected %d (%.1fs)" % (
                part.name, profile, len(scripts), len(hs), len(order), t1 - t0, done, len(rejected), time.time() - t1))
        ran = len({h["i"] for h in hs})
        if ran < len(scripts) and not bad:
            raise ToolError("only %d of %d scripts ran" % (ran, len(scripts)))
        if hst and verbose:
            print("   ", hst)
        for h in random.Random(seed).sample(order, min(2, len(order))):
            stats["samples"].append(dict(part=part.name, profile=profile, cfg=h["cfg"], ops=h["script"],
                                         last=h["ev"][-1] if h["ev"] else None))
        stats["parts"]["%s/%s" % (part.name, profile)] = dict(scripts=len(scripts), histories=len(hs), distinct=len(order), accepted=done, **hst)
    return stats, bad


def check(prop, tier, seed, only=None, verbose=False):
    from . import plans
    t0 = time.time()
    parts = plans.plan(prop, tier)
    if only:
        parts = [p for p in parts if only in p.name]
    work = WORK / ("%s_%s_%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    for profile in ("dev", "plain"):
        bins = sorted({p.bin for p in parts if p.bin and not p.compiled and profile in p.profiles})
        if bins:
            harness.build(bins, profile)
    if verbose:
        print("  built %.1fs" % (time.time() - t0))
    tot = dict(states=0, transitions=0, traces=0, events=0, samples=[], parts={})
    viol, kn = [], known(prop)
    suppressed = []
    for p in parts:
        st, bad = (p.run if hasattr(p, "run") else lambda *a: run_part(prop, p, *a))(seed, verbose, work)
        for k in ("states", "transitions", "traces", "events"):
            tot[k] += st[k]
        tot["samples"] += st["samples"]
        tot["parts"].update(st["parts"])
        for part, profile, h, x in bad:
            sig = signature(part, h, x["step"], x["event"])
            (suppressed if sig in kn else viol).append((part, profile, h, x, sig))
        if viol and time.time() - t0 > 240:
            break
    for s in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (prop, s[4]))
    rd = WORK / "replays"
    rd.mkdir(parents=True, exist_ok=True)
    for part, profile, h, x, sig in viol:
        if h.get("program"):
            print("  program: %s\n  compiler: %s" % (h["program"], h["why"] or "accepted"))
        body = dict(program=h.get("program"), property=prop, part=part.name, tier=tier, profile=profile, script=h["script"], cfg=h["cfg"], ev=h["ev"],
                    step=x["step"], event=x["event"], expected=x["expected"])
        f = rd / ("%s_%s.json" % (prop, hashlib.sha1(json.dumps(body).encode()).hexdigest()[:12]))
        f.write_text(json.dumps(body, indent=1))
        print("  rejected: %s step %s: observed %s" % (sig[:600], x["step"], json.dumps(x["event"])[:1200]))
        for e in x["expected"]:
            print("    specified: %s" % str(e)[:1200])
        print("VIOLATION property=%s replay=%s" % (prop, f))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                            events_observed=tot["events"], samples=tot["samples"][:12], parts=tot["parts"]),
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    (VERIF / "evidence").mkdir(exist_ok=True)
    if not only:
        (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1))
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d states, %d transitions, %d histories validated, %d violations, %.1fs" % (
        prop, tier, tot["states"], tot["transitions"], tot["traces"], len(viol), time.time() - t0))
    return 1 if viol else 0


def replay(prop, path):
    """Run the recorded script again and validate what happens now."""
    from . import plans
    b = json.load(open(path))
    part = next(p for p in plans.plan(prop, b["tier"]) if p.name == b["part"])
    work = WORK / ("replay_%d" % os.getpid())
    work.mkdir(parents=True, exist_ok=True)
    if b["script"] and part.bin:
        if not part.compiled:
            harness.build([part.bin], b["profile"])
        hs = execute(part, [b["script"]], work, b["profile"])
    else:
        hs = [dict(cfg=b["cfg"], ev=b["ev"], script=None)]
    ok, st, rej, dg = tla.validate(work, part.vmodule, part.vconsts if part.vconsts is not None else part.mc[0]["consts"],
                                   hs, name="replay", accept=part.accept, invs=part.vinvs)
    shutil.rmtree(work, ignore_errors=True)
    for x in dg:
        print("  step %s: observed %s" % (x["step"], json.dumps(x["event"])))
        for e in x["expected"]:
            print("    specified: %s" % e)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if rej else 0
