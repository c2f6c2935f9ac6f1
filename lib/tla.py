"""Running TLC: exploration (model checking + script generation) and trace validation."""
import json, os, re, subprocess, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
JAR = os.environ.get("TLA2TOOLS", "/opt/veriftools/tla/tla2tools.jar")


class ToolError(Exception):
    pass


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("=") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


def find_tlc():
    import glob
    cp = [JAR]
    for p in glob.glob("/opt/veriftools/tla/*.jar"):
        if p not in cp:
            cp.append(p)
    return cp


def run_tlc(work, module, workers, extra, timeout, heap="4g", env=None, jopts=()):
    """Run TLC on work/module.tla; returns (rc, stdout lines)."""
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + str(work), "-DTLA-Library=" + str(SPECS), *jopts,
           "-cp", ":".join(find_tlc()), "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", str(work / ("meta_" + module)),
           "-config", module + ".cfg", *extra, module + ".tla"]
    out = work / (module + ".out")
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    with open(out, "wb") as f:
        try:
            p = subprocess.run(cmd, cwd=work, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -9
    shutil.rmtree(work / ("meta_" + module), ignore_errors=True)
    return rc, out, time.time() - t0


def consts_defs(consts):
    """CONSTANT assignments as (definitions, cfg lines)."""
    defs, cfg = [], []
    for k, v in consts.items():
        defs.append("const_%s == %s" % (k, tla(v) if not (isinstance(v, str) and v.startswith("=")) else v[1:]))
        cfg.append("CONSTANT %s <- const_%s" % (k, k))
    return defs, cfg


def parse_stats(out):
    gen = dist = 0
    err = None
    sim = False
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                continue
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            m = re.match(r"Progress: ([\d,]+) states checked", line)
            if m:
                gen = dist = int(m.group(1).replace(",", ""))
            m = re.search(r"The number of states generated: ([\d,]+)", line)
            if m:
                gen = dist = int(m.group(1).replace(",", ""))
            if err is None and (line.startswith("Error:") or "Parse Error" in line or "*** Errors" in line
                                or line.startswith("Fatal") or "semantic error" in line.lower()):
                err = line.strip()
    return gen, dist, err


ALL_NEXT = r"""MCNext == \E o \in Ops : /\ Apply(o)
                         /\ script' = script \o OpStr_(o)
                         /\ n' = n + 1"""
# Random histories: each one does without some kinds of operations, and either all operations are
# equally likely or all kinds of operations are.
SWARM_NEXT = r"""Pick_(S) == {RandomElement(S)}
Swarm_(s) == IF RandomElement(1..3) = 1 THEN {} ELSE {k \in {o.a : o \in s} \cup {"-"} : RandomElement(1..3) = 1}
MCNext == \E s \in {Ops} : /\ s # {}
  /\ \E m \in {IF n % 8 = 0 THEN Swarm_(s) ELSE mute} :
     \E a \in {LET f == {o \in s : o.a \notin m} IN IF f = {} THEN s ELSE f} :
     \E k \in (IF "-" \in m THEN {"-"} ELSE Pick_({o.a : o \in a})) :
     \E o \in Pick_({o \in a : k = "-" \/ o.a = k}) : /\ Apply(o)
                                              /\ script' = script \o OpStr_(o)
                                              /\ n' = n + 1
                                              /\ mute' = m"""


def explore(work, module, consts, cfgs, *, name, invs=("Inv",), props=(), workers=8, timeout=600,
            simulate=None, seed=1, emit=True, heap="5g", maxlen=None, spec_extra="", early=False):
    """Exhaustive exploration (or simulation) of `module`. Returns dict(states, transitions, scripts)."""
    work.mkdir(parents=True, exist_ok=True)
    mod = "MC_" + name
    defs, cfg = consts_defs(consts)
    view = not simulate
    lines = ["---- MODULE %s ----" % mod, "EXTENDS %s" % module + (", TLC" if simulate else ""), "VARIABLES script, n" + (", mute" if simulate else "")]
    lines += defs
    lines.append("cfgs_ == {%s}" % ", ".join(tla(c) for c in cfgs))
    lines += [r"""
RECURSIVE CfgStr_(_)
CfgStr_(c) == IF Len(c) = 0 THEN "" ELSE ToString(Head(c)) \o "," \o CfgStr_(Tail(c))
OpStr_(o) == o.a \o " " \o ToString(o.x) \o " " \o ToString(o.y) \o " " \o ToString(o.z) \o ";"
MCInit == \E c \in cfgs_ : InitC(c) /\ script = CfgStr_(c) \o "|" /\ n = 0%s
%s
MCView == View
""" % ((" /\\ mute = {}", SWARM_NEXT) if simulate else ("", ALL_NEXT))]
    if simulate:
        lines.append("Emit == (n' < %d%s) \\/ PrintT(\"S\" \\o script')" % (simulate[1], " /\\ Ops' # {}" if early else ""))
    else:
        lines.append("Emit == PrintT(\"S\" \\o script')")
    if maxlen:
        lines.append("Bound == n < %d" % maxlen)
    lines.append(spec_extra)
    lines.append("====")
    (work / (mod + ".tla")).write_text("\n".join(lines))
    c = ["INIT MCInit", "NEXT MCNext", "CHECK_DEADLOCK FALSE"] + cfg
    if view:
        c.append("VIEW MCView")
    if emit:
        c.append("ACTION_CONSTRAINT Emit")
    if maxlen and not simulate:
        c.append("CONSTRAINT Bound")
    c += ["INVARIANT " + i for i in invs]
    if not simulate:
        c += ["PROPERTY " + p for p in props]
    (work / (mod + ".cfg")).write_text("\n".join(c) + "\n")
    extra = []
    if simulate:
        extra = ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1] + 1), "-seed", str(seed)]
        workers = 1
    rc, out, secs = run_tlc(work, mod, workers, extra, timeout, heap)
    gen, dist, err = parse_stats(out)
    if rc not in (0,) or err:
        tail = "".join(x for x in out.read_text(errors="replace").splitlines(True) if not x.startswith('"'))[-3000:]
        raise ToolError("TLC on %s: rc=%s %s\n%s" % (mod, rc, err, tail))
    scripts = []
    if emit:
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"S'):
                    scripts.append(line.rstrip("\n")[2:-1])
    out.unlink()
    return dict(states=dist, transitions=gen, scripts=scripts, secs=secs)


def model_check(work, module, consts, cfgs, *, name, init, next_, view=None, invs=(), props=(), fair=None, vars_=None,
                workers=4, timeout=800, heap="5g"):
    """Model check a specification that has its own initial condition and next state relation."""
    work.mkdir(parents=True, exist_ok=True)
    mod = "MD_" + name
    defs, cfg = consts_defs(consts)
    lines = ["---- MODULE %s ----" % mod, "EXTENDS %s" % module] + defs
    lines.append("DInit == \\E c \\in {%s} : %s(c)" % (", ".join(tla(c) for c in cfgs), init))
    if fair:
        lines.append("DSpec == DInit /\\ [][%s]_%s /\\ %s" % (next_, vars_, fair))
    lines.append("====")
    (work / (mod + ".tla")).write_text("\n".join(lines))
    c = (["SPECIFICATION DSpec"] if fair else ["INIT DInit", "NEXT " + next_]) + ["CHECK_DEADLOCK FALSE"] + cfg
    if view and not fair:
        c.append("VIEW " + view)
    c += ["INVARIANT " + i for i in invs] + ["PROPERTY " + p for p in props]
    (work / (mod + ".cfg")).write_text("\n".join(c) + "\n")
    rc, out, secs = run_tlc(work, mod, workers, [], timeout, heap)
    gen, dist, err = parse_stats(out)
    if rc or err:
        raise ToolError("TLC on %s: rc=%s %s\n%s" % (mod, rc, err, out.read_text(errors="replace")[-4000:]))
    return dict(states=dist, transitions=gen, secs=secs)


def maximal(scripts):
    """Drop scripts that are a proper prefix of another one."""
    s = sorted(set(scripts))
    res = []
    for i, x in enumerate(s):
        if i + 1 < len(s) and s[i + 1].startswith(x):
            continue
        res.append(x)
    return res


TRACE_TLA = r"""---- MODULE %(mod)s ----
EXTENDS %(module)s, Json
VARIABLES h_, l_
%(defs)s
H_ == ndJsonDeserialize("%(file)s")
TInit == \E i \in 1..Len(H_) : h_ = i /\ l_ = 1 /\ InitC(H_[i].cfg)
Bad_ == {"crash", "hang", "escape"}
%(diag)s
TNext == /\ l_ <= Len(H_[h_].ev)
         /\ LET e == H_[h_].ev[l_] IN
            /\ e.o.r \notin Bad_
            /\ Accept_(e.op, e.o)
         /\ l_' = l_ + 1
         /\ h_' = h_
         /\ (l_' > Len(H_[h_].ev) => PrintT("D" \o ToString(h_)))
         %(at)s
====
"""


def validate(work, module, consts, histories, *, name, par=8, **kw):
    """Check that every history is a behaviour of the module, in several TLC processes.
    Returns (accepted indices, stats, rejected indices, diagnosis of some of those)."""
    n = max(1, min(par, (len(histories) + 1499) // 1500))
    parts = [list(range(i, len(histories), n)) for i in range(n)]

    def one(k):
        return validate1(work, module, consts, [histories[i] for i in parts[k]], name="%s_%d" % (name, k), **kw)
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    done, rej, diag = set(), [], []
    st = dict(states=0, transitions=0)
    for k, (d, s, r, g) in enumerate(res):
        done |= {parts[k][i] for i in d}
        rej += [parts[k][i] for i in r]
        for x in g:
            x["index"] = parts[k][x["index"]]
            diag.append(x)
        for f in st:
            st[f] += s[f]
    diag.sort(key=lambda x: len(histories[x["index"]]["ev"]))
    return done, st, sorted(rej), diag[:5]


def culprit(out):
    """Which history (and event) TLC was at when it gave up because of an invariant or of an
    expression without a value; None if it gave up for another reason."""
    h = l = None
    judged = seen = False
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                continue
            if re.match(r"Error: (Invariant \w+ is violated|Evaluating|TLC threw an unexpected|The exception was|"
                        r"In evaluation|Attempted|The .* argument|Overflow|Applying|In applying)", line) or "is violated" in line \
                    or "verflow" in line or "ttempted to" in line:
                judged = True
            if "OutOfMemory" in line or "StackOverflow" in line or "Java heap space" in line:
                return None
            m = re.match(r"(?:State \d+:.*)|/\\ (h_|l_) = (\d+)", line)
            if m and m.group(1) == "h_":
                h, seen = int(m.group(2)), True
            elif m and m.group(1) == "l_":
                l = int(m.group(2))
    if not judged or not seen:
        return None
    return h - 1, (l or 1)


def validate1(work, module, consts, histories, *, name, accept, invs=("Inv",), timeout=900, workers=1, heap="2g", maxbad=3):
    work.mkdir(parents=True, exist_ok=True)
    mod = "TR_" + name
    f = work / (mod + ".ndjson")

    def run(hs, diag, invs_):
        with open(f, "w") as fh:
            for h in hs:
                fh.write(json.dumps(dict(cfg=h["cfg"], ev=h["ev"]), separators=(",", ":")) + "\n")
        defs, cfg = consts_defs(consts)
        if accept == "match":
            acc = r"Accept_(o, g) == Apply(o) /\ (Match(obs', g) %s)" % (
                r'\/ (PrintT("X" \o ToString(h_) \o " " \o ToString(l_) \o " " \o ToString(obs~)) /\ FALSE)'.replace("~", "'") if diag else "")
        else:
            acc = "Accept_(o, g) == %s(o, g)" % accept
        at = r'/\ PrintT("L" \o ToString(h_) \o " " \o ToString(l_))' if diag else ""
        (work / (mod + ".tla")).write_text(TRACE_TLA % dict(mod=mod, module=module, defs="\n".join(defs), file=f, diag=acc, at=at))
        (work / (mod + ".cfg")).write_text("\n".join(
            ["INIT TInit", "NEXT TNext", "CHECK_DEADLOCK FALSE"] + cfg + ["INVARIANT " + i for i in invs_]) + "\n")
        rc, out, secs = run_tlc(work, mod, workers if not diag else 1, [], timeout, heap)
        gen, dist, err = parse_stats(out)
        done, last, exp = set(), {}, {}
        with open(out, errors="replace") as fo:
            for line in fo:
                if line.startswith('"D'):
                    done.add(int(line.strip()[2:-1]) - 1)
                elif line.startswith('"L'):
                    a, b = line.strip()[2:-1].split()
                    last[int(a) - 1] = max(last.get(int(a) - 1, 0), int(b))
                elif line.startswith('"X'):
                    a, b, e = line.strip()[2:-1].split(" ", 2)
                    exp.setdefault((int(a) - 1, int(b)), []).append(e.replace('\\"', '"'))
        return rc, out, gen, dist, err, done, last, exp, secs

    # A history may take the specification out of its domain (an observed number that an invariant
    # or an operator refuses). Such a history is no behaviour either; the others are judged without it.
    bad, left = {}, list(range(len(histories)))
    gen = dist = secs = 0
    while True:
        rc, out, g, d_, err, d0, _, _, t = run([histories[i] for i in left], False, invs)
        gen, dist, secs = gen + g, dist + d_, secs + t
        if rc == 0 and not err:
            done = {left[j] for j in d0}
            break
        at = culprit(out)
        if at is None:
            tail = "".join(x for x in out.read_text(errors="replace").splitlines(True) if not x.startswith('"'))[-3000:]
            raise ToolError("TLC trace validation of %s: rc=%s %s\n%s" % (mod, rc, err, tail))
        i = left.pop(at[0])
        bad[i] = (at[1], err)
        if len(bad) >= maxbad:
            done = set(left)
            break
    rejected = [i for i in range(len(histories)) if i not in done]
    diag = []
    for i, (step, why) in sorted(bad.items()):
        ev = histories[i]["ev"]
        diag.append(dict(index=i, step=step, event=ev[step - 1] if step <= len(ev) else None, expected=[why or ""]))
    if len(bad) < len(rejected) and not bad:
        few = sorted(rejected, key=lambda i: len(histories[i]["ev"]))[:5]
        hs = [histories[i] for i in few]
        rc2, out2, _, _, err2, done2, last, exp, _ = run(hs, True, invs)
        for j, i in enumerate(few):
            step = last.get(j, 0) + 1
            ev = histories[i]["ev"]
            diag.append(dict(index=i, step=step, event=ev[step - 1] if step <= len(ev) else None,
                             expected=exp.get((j, step), [])[:3]))
    f.unlink(missing_ok=True)
    return done, dict(states=dist, transitions=gen, secs=secs), rejected, diag
