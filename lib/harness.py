"""Building and running the Rust drivers against /repo's working tree."""
import json, os, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from .tla import VERIF, ToolError

HARNESS = VERIF / "harness"


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["RUSTFLAGS"] = "-A dangerous_implicit_autorefs -A warnings"
    e["CARGO_TARGET_DIR"] = str(HARNESS / "target")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def build(bins, profile="dev"):
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile]
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])


def binary(b, profile):
    return HARNESS / "target" / ("debug" if profile == "dev" else profile) / b


END = dict(a="end", x=0, y=0, z=0)


def parse_op(s):
    w = s.split()
    g = [int(x) for x in w[1:]] + [0, 0, 0]
    return dict(a=w[0], x=g[0], y=g[1], z=g[2])


BIG = 2 ** 31 - 1


def clamp(v):
    """Numbers that TLC cannot represent become ones that no specification expects."""
    if isinstance(v, int):
        return BIG if v > BIG else -BIG if v < -BIG else v
    if isinstance(v, list):
        return [clamp(x) for x in v]
    if isinstance(v, dict):
        return {k: clamp(x) for k, x in v.items()}
    return v


# address space in GB; membump has blocks of 5 GB of which little is touched
MEM = {"membump": 8}


def limit(bin_):
    # a driver that runs away ends itself, not the sandbox
    def set_limits():
        mem = MEM.get(bin_, 3) << 30
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return set_limits



def run_chunk(bin_, profile, scripts, base, tag, work, max_crash=25, timeout=600, args=(), stats=None):
    """Execute scripts[...]; returns histories, crashes become events."""
    sf = work / ("scripts_%s" % tag)
    of = work / ("log_%s" % tag)
    with open(sf, "w") as f:
        for i, s in enumerate(scripts):
            cfg, body = s.split("|", 1)
            f.write("%d %s|%s\n" % (base + i, cfg.rstrip(",") or ",", body))
    of.unlink(missing_ok=True)
    skip, crashes = 0, 0
    t_end = time.time() + timeout
    status = {}
    while True:
        left = t_end - time.time()
        if left <= 0:
            raise ToolError("driver %s timed out" % bin_)
        try:
            p = subprocess.run([str(binary(bin_, profile)), str(sf), str(of), str(skip), *args],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=left, env=env(),
                               preexec_fn=limit(bin_))
        except subprocess.TimeoutExpired:
            raise ToolError("driver %s timed out" % bin_)
        if p.returncode == 0:
            break
        # died: attribute to the history that was being executed
        n_begun = 0
        with open(of) as f:
            for line in f:
                if line.startswith("S "):
                    n_begun += 1
        if n_begun == 0 or n_begun in status:
            raise ToolError("driver %s failed: rc=%s %s" % (bin_, p.returncode, p.stderr.decode(errors="replace")[-2000:]))
        kind = "hang" if p.returncode == 97 else "crash"
        with open(of, "a") as f:
            f.write("\nC %s\nF\n" % kind)
        status[n_begun] = kind
        skip = n_begun
        crashes += 4 if kind == "hang" else 1
        if crashes >= max_crash or skip >= len(scripts):
            break
    hs, cur, sid = [], None, None
    with open(of) as f:
        for line in f:
            t = line[:2]
            if t == "S ":
                sid = line.split()[1]
            if t == "N " and stats is not None:
                w = line.split()
                stats["schedules"] = stats.get("schedules", 0) + int(w[1])
                stats["programs"] = stats.get("programs", 0) + 1
                stats["programs_all_schedules"] = stats.get("programs_all_schedules", 0) + int(w[2])
            if (t == "C " or line[:1] == "X") and cur is None:
                # died in the middle of exploring a script
                sc = scripts[int(sid) - base]
                cur = dict(i=sid, cfg=[int(x) for x in sc.split("|")[0].split(",") if x], ev=[], bad=None)
            if t == "B ":
                _, i, cfg = line.split(" ", 2)
                cur = dict(i=i, cfg=json.loads(cfg), ev=[], bad=None)
            elif t == "E ":
                try:
                    cur["ev"].append(clamp(json.loads(line[2:])))
                except json.JSONDecodeError:
                    pass  # cut off by a crash
            elif t == "C ":
                cur["bad"] = line[2:].strip()
            elif t[:1] == "X":
                cur["bad"] = cur["bad"] or "escape"
            elif t[:1] == "F":
                i = cur["i"]
                if i.lstrip("-").isdigit() and 0 <= int(i) - base < len(scripts):
                    cur["script"] = scripts[int(i) - base]
                else:
                    cur["script"] = None
                if cur["bad"]:
                    ops = [parse_op(x) for x in (cur["script"] or "|").split("|", 1)[1].split(";") if x.strip()]
                    k = len(cur["ev"])
                    op = ops[k] if k < len(ops) else END
                    cur["ev"].append(dict(op=op, o=dict(r=cur["bad"], v=[], d=[], c=[], n=[], m=[], k=1)))
                hs.append(cur)
                cur = None
    of.unlink()
    sf.unlink()
    return hs


def run(bin_, scripts, work, profile="dev", par=8, timeout=600, args=(), stats=None):
    work.mkdir(parents=True, exist_ok=True)
    par = max(1, min(par, (len(scripts) + 19) // 20))
    step = (len(scripts) + par - 1) // par if scripts else 1
    chunks = [(scripts[i:i + step], i) for i in range(0, len(scripts), step)]
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(lambda c: run_chunk(bin_, profile, c[0], c[1], "%s_%s_%d" % (bin_, profile, c[1]), work, timeout=timeout, args=args, stats=stats), chunks))
    return [h for r in res for h in r]
