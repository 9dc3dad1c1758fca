"""Shared machinery: running TLC (with a cache keyed by the specification), building and running the harness."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(6, (os.cpu_count() or 4) - 1))


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ TLC
def spec_hash(module):
    """Hash of a module and everything it extends or instantiates within spec/."""
    seen, todo = {}, [module]
    while todo:
        m = todo.pop()
        f = os.path.join(SPEC, m + ".tla")
        if m in seen or not os.path.exists(f):
            continue
        text = open(f).read()
        seen[m] = text
        for line in re.findall(r"EXTENDS([^\n]*(?:\n[ \t]+[^\n]*,[^\n]*)*)", text):
            todo += [x.strip() for x in line.split(",")]
        todo += re.findall(r"INSTANCE\s+(\w+)", text)
    h = hashlib.sha256()
    for m in sorted(seen):
        h.update(m.encode() + b"\0" + seen[m].encode() + b"\0")
    return h.hexdigest()


def tlc(module, cfg_text, name, args=(), timeout=600, heap="3g", workers=1, ok_codes=(0,), cache=True, extra_key="", xss="16m"):
    """Runs TLC; returns (path of its output, statistics). Outputs are kept, keyed by the specification."""
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256("\0".join([spec_hash(module), cfg_text, " ".join(args), extra_key]).encode()).hexdigest()[:16]
    out = os.path.join(d, f"{name}-{key}.out")
    stat = os.path.join(d, f"{name}-{key}.json")
    if cache and os.path.exists(stat) and os.path.exists(out):
        s = json.load(open(stat))
        s["reused"] = True
        return out, s
    cfg = os.path.join(d, f"{name}-{key}.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(d, f"{name}-{key}.meta")
    tmp = out + ".tmp"
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + xss, "-cp", TLA_CP,
           "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *args, module + ".tla"]
    t0 = time.time()
    with open(tmp, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    subprocess.run(["rm", "-rf", "--", meta])
    text = [l for l in open(tmp, errors="replace") if not l.startswith('"')]
    tail = "".join(text)
    if rc not in ok_codes:
        raise ToolError(f"TLC on {module} ({name}) ended with {rc}: " + tail[-3000:])
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", tail)
    num = lambda x: int(x.replace(",", ""))
    s = {"rc": rc, "wall_s": round(time.time() - t0, 1), "states": num(m[-1][1]) if m else 0,
         "generated": num(m[-1][0]) if m else 0}
    m = re.search(r"depth of the complete state graph search is (\d+)", tail)
    s["depth"] = int(m.group(1)) if m else None
    os.replace(tmp, out)
    with open(stat, "w") as f:
        json.dump(s, f)
    s["reused"] = False
    return out, s


def slice_cfg(name, k=1, deep=False):
    base = open(os.path.join(SPEC, "SessionMC.cfg")).read()
    base = re.sub(r"Slice = .*", f'Slice = "{name}"', base)
    base = re.sub(r"K = .*", f"K = {k}", base)
    return re.sub(r"Deep = .*", f"Deep = {'TRUE' if deep else 'FALSE'}", base)


def run_slices(specs, timeout=900, heap="3g"):
    """specs: [(slice, k, deep)] -> {spec: (out, stats)}"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {s: ex.submit(tlc, "SessionMC", slice_cfg(*s), f"{s[0]}-k{s[1]}{'d' if s[2] else ''}", (), timeout, heap) for s in specs}
        return {s: f.result() for s, f in fs.items()}


# -------------------------------------------------------------- harness
def harness(tier="quick"):
    """Builds the harness against the current working tree of /repo; returns the executable."""
    profile = "deep" if tier == "thorough" else "release"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    # cargo goes by modification times, which may mislead it when files are swapped; go by the contents
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk("/repo")):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                h.update((os.path.join(d, f) + "\0").encode() + open(os.path.join(d, f), "rb").read())
    stamp = os.path.join(HARNESS, "target", "repo-hash-" + profile)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h.hexdigest():
        subprocess.run(["cargo", "clean", "--profile", profile, "--offline", "--quiet", "-p", "manul"], cwd=HARNESS, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--profile", profile, "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build: " + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return os.path.join(HARNESS, "target", profile, "manul-verif")


def run_harness(exe, args, timeout=800, stdin=None):
    """Runs the harness; returns the JSON values it prints."""
    try:
        r = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        raise ToolError(f"harness {args[0]} did not finish in {timeout} s")
    if r.returncode in (-6, -11, -4, -8):
        # aborted: a stack overflow, an absurd allocation, a panic while panicking
        return [{"file": "", "fatal": {"aspect": "panic", "detail": f"{args[0]}: the process was aborted: {r.stderr[-1500:]}"}}]
    if r.returncode != 0:
        raise ToolError(f"harness {' '.join(args)[:300]} ended with {r.returncode}: {r.stderr[-3000:]}")
    vs = []
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            vs.append(json.loads(l))
    return vs
