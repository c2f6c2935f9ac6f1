#!/usr/bin/env python3
"""selftest.py [PROP ...] [--n N] [--seed S]: how sensitive the validation is.

Records histories of the real code, corrupts one observed value in each, and lets TLC judge the
corrupted histories. Reports which corruptions are accepted (by operation and field) and fails if
the validation itself breaks down."""
import argparse, collections, copy, json, os, random, shutil, sys
from lib import engine, harness, plans, tla

ap = argparse.ArgumentParser()
ap.add_argument("props", nargs="*")
ap.add_argument("--n", type=int, default=400)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
rnd = random.Random(a.seed)
RES = ["ok", "none", "panic", "full", "skip", "err"]


def corrupt(h):
    h = dict(i=h["i"], script=h["script"], cfg=h["cfg"], ev=copy.deepcopy(h["ev"]))
    k = rnd.randrange(len(h["ev"]))
    e = h["ev"][k]
    o = e["o"]
    fields = []
    for f, v in o.items():
        if f == "r" or isinstance(v, int) or isinstance(v, list):
            fields.append(f)
    f = rnd.choice(fields)
    v = o[f]
    if f == "r":
        how = "other"
        o[f] = rnd.choice([x for x in RES if x != v])
    elif isinstance(v, int):
        how = "int"
        o[f] = v + rnd.choice([1, -1, 8, harness.BIG, -harness.BIG])
        o[f] = harness.clamp(o[f])
    elif not v or rnd.random() < 0.15:
        how = "grow"
        o[f] = v + [v[-1] if v and isinstance(v[-1], list) else rnd.choice([0, 1, -1, 7])]
    elif rnd.random() < 0.15:
        how = "shrink"
        o[f] = v[:-1]
    else:
        how = "elem"
        j = rnd.randrange(len(v))
        x = v[j]
        how = "elem%d" % j if len(v) <= 12 else "elem"
        if isinstance(x, int):
            v[j] = harness.clamp(x + rnd.choice([1, -1, 2, 64, -1000, harness.BIG, -harness.BIG]))
        elif isinstance(x, list) and x and all(isinstance(y, int) for y in x):
            x[rnd.randrange(len(x))] += rnd.choice([1, -1, 100])
        elif isinstance(x, list):
            v[j] = x + [1]
        else:
            return None
    return h, (e["op"]["a"], f, how), k


bad = 0
for prop in a.props or ["C%02d" % i for i in range(1, 18)]:
    for part in plans.plan(prop, "quick"):
        if not part.bin:
            continue
        work = engine.WORK / ("self_%s_%d" % (part.name, os.getpid()))
        work.mkdir(parents=True)
        harness.build([part.bin])
        scripts = list(part.extra)
        if part.gen:
            scripts += part.gen(a.seed)
        for j, m in enumerate(part.sim):
            r = tla.explore(work, part.module, m["consts"], m["cfgs"], name="s%d" % j, invs=part.invs, simulate=(max(3, a.n // 40), m["depth"]), seed=a.seed)
            scripts += r["scripts"]
        for j, m in enumerate(part.mc if not part.sim else ()):
            r = tla.explore(work, part.module, m["consts"], m["cfgs"], name="m%d" % j, invs=part.invs, maxlen=m.get("maxlen"))
            scripts += r["scripts"]
        scripts = tla.maximal(scripts)
        scripts = rnd.sample(scripts, min(len(scripts), a.n))
        hs = [h for h in harness.run(part.bin, scripts, work, "dev", args=part.args) if h["ev"]]
        hs = rnd.sample(hs, min(len(hs), a.n))
        cs, tags = [], []
        for h in hs:
            for _ in range(3):
                c = corrupt(h)
                if c:
                    cs.append(c[0])
                    tags.append(c[1:])
        v = part.vconsts if part.vconsts is not None else part.mc[0]["consts"]
        try:
            ok, st, rej, dg = tla.validate(work, part.vmodule, v, cs, name="self", accept=part.accept, invs=part.vinvs, maxbad=10 ** 6)
        except tla.ToolError as e:
            print(prop, part.name, "BROKEN:", str(e)[:1500])
            bad = 1
            continue
        acc = collections.Counter(tags[i][0] for i in ok)
        tot = collections.Counter(t[0] for t in tags)
        print("%s %s: %d corrupted, %d accepted" % (prop, part.name, len(cs), len(ok)))
        for t, n in acc.most_common(25):
            print("    %s %s/%d" % (t, n, tot[t]))
        if a.v:
            for i in sorted(ok)[:8]:
                print("      e.g.", cs[i]["cfg"], json.dumps(cs[i]["ev"][tags[i][1]]))
        shutil.rmtree(work, ignore_errors=True)
sys.exit(bad)
