"""Checks other than the session slices."""
import json, re
from engine import *  # noqa


def violations_from(res, v, aspects, where):
    """Divergences reported by the harness (those of the given aspects) become violations."""
    other = 0
    for x in v["divergences"]:
        if x["aspect"] not in aspects:
            other += 1
        elif len(res.violations) < 20:
            res.violate(f"{where} ({x.get('format', '')}): {x['aspect']}: {x['detail'][:900]}", x, "json")
    return other


# ------------------------------------------------------------- evidence
EV = ["L", "P", "W", "C2", "CL", "CR"]


def evidence_cfg(which, k):
    base = open(os.path.join(SPEC, "Evidence.cfg")).read()
    return re.sub(r"K = .*", f"K = {k}", re.sub(r"Which = .*", f'Which = "{which}"', base))


def evidence_files(whiches, tier, seed):
    jobs = []
    for w in whiches:
        jobs.append((w, "all within 1 change", evidence_cfg(w, 1), ()))
        if tier == "thorough":
            jobs.append((w, "random, up to 4 changes", evidence_cfg(w, 4),
                         ("-simulate", "num=60000", "-depth", "6", "-seed", str(seed))))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [(j, ex.submit(tlc, "Evidence", j[2], f"ev{j[0]}-{'s%d' % seed if j[3] else 'bfs'}", j[3], 1500, "3g")) for j in jobs]
        return [(j, *f.result()) for j, f in fs]


def unit_evidence(res, exe, tier, seed, whiches, aspects):
    for (w, how, _, _), out, st in evidence_files(whiches, tier, seed):
        res.states += st["states"]
        for v in run_harness(exe, ["evidence", out], timeout=3000 if tier == "thorough" else 600):
            if v.get("fatal"):
                res.violate(v["fatal"]["detail"][:600], v["fatal"], "json")
                continue
            if v["tool_errors"]:
                raise ToolError(f"evidence {w}: {v['tool_errors'][:2]}")
            res.transitions += v["lines"]
            res.validated += sum(v["built"].values())
            d = {k: v[k] for k in ("lines", "configurations", "built", "skipped", "accepted", "templates")}
            d.update(tlc_wall_s=st["wall_s"], tlc_output_reused=st["reused"])
            d["divergences_in_other_aspects"] = violations_from(res, v, aspects, f"evidence {w}")
            res.detail[f"evidence {w} ({how})"] = d


# --------------------------------------------------- asynchronous runners
DRIVER = ["flow", "burst", "burst3", "topo", "chain", "hold", "holdb", "make", "full", "big", "bighold"]
DRIVER_X = ["fullX", "makeX"]


def driver_files(slices, k=1):
    base = open(os.path.join(SPEC, "Driver.cfg")).read()
    def one(s):
        c = re.sub(r"K = .*", f"K = {k}", re.sub(r"Slice = .*", f'Slice = "{s}"', base))
        return tlc("Driver", c, f"driver-{s}-k{k}", (), 1500, "3g", xss="256m" if s.startswith("big") else "16m")
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # (the longest first)
        order = sorted(slices, key=lambda s: s not in ("bighold", "fullX", "holdX", "hold", "holdb"))
        fs = {s: ex.submit(one, s) for s in order}
        return {s: fs[s].result() for s in slices}


def unit_driver(res, exe, tier, seed, aspects):
    files = driver_files(DRIVER)
    runs = [(s, 1, files[s]) for s in DRIVER]
    if tier == "thorough":
        runs += [(s, 1, f) for s, f in driver_files(DRIVER_X).items()]
        runs += [(s, 2, f) for s, f in driver_files(["flow", "burst"], 2).items()]
    for name, k, (out, st) in runs:
        res.states += st["states"]
        args = ["drive", out]
        if tier == "thorough":
            args += ["--max", "60000", "--seed", str(seed)]
        for v in run_harness(exe, args, timeout=3000 if tier == "thorough" else 600):
            if v.get("fatal"):
                res.violate(v["fatal"]["detail"][:600], v["fatal"], "json")
                continue
            if v["tool_errors"]:
                raise ToolError(f"driver {name}: {v['tool_errors'][:2]}")
            if v["reference_problems"] and name not in ("topo",):
                res.violate(f"driver {name}: an execution by the book fails: {v['reference_problems'][:3]}", v["reference_problems"], "json")
            res.transitions += v["lines"]
            res.validated += sum(v["scripts"].values())
            d = {x: v[x] for x in ("lines", "selected", "configurations", "scripts", "skipped", "steps", "ends", "nondeterministic")}
            d.update(tlc_wall_s=st["wall_s"], tlc_output_reused=st["reused"])
            d["divergences_in_other_aspects"] = violations_from(res, v, aspects, f"driver {name}")
            res.detail[f"driver {name} (k={k})"] = d
        if any(": hang:" in text for text, _ in res.violations):
            return  # every further slice would wait for its hanging runners to time out


# ------------------------------------------------------ development runners
NET = ["honest", "honestC", "topo1", "topo2", "topo5", "many", "none", "over", "over2", "overP", "overB", "fin", "mix", "two", "cross", "multi"]


def net_files(slices):
    base = open(os.path.join(SPEC, "Net.cfg")).read()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {s: ex.submit(tlc, "Net", re.sub(r"Slice = .*", f'Slice = "{s}"', base), f"net-{s}", (), 1500, "3g",
                           xss="256m" if s == "many" else "16m") for s in sorted(slices, key=lambda s: s not in ("pairs", "mix", "many"))}
        return {s: fs[s].result() for s in slices}


def unit_net(res, exe, tier, seed, slices, how, aspects, runs=12):
    if tier == "thorough":
        runs *= 20
    for name, (out, st) in net_files(slices).items():
        res.states += st["states"]
        n = 1 if name == "many" else runs
        for v in run_harness(exe, ["net", out, "--how", how, "--runs", str(n), "--seed", str(seed)], timeout=3000 if tier == "thorough" else 600):
            if v.get("fatal"):
                res.violate(v["fatal"]["detail"][:600], v["fatal"], "json")
                continue
            if v["tool_errors"]:
                raise ToolError(f"net {name}: {v['tool_errors'][:2]}")
            res.transitions += v["lines"]
            res.validated += sum(v["runs"].values())
            d = {x: v[x] for x in ("lines", "outcomes", "configurations", "runs", "reached", "draws", "judged", "accepted")}
            d.update(tlc_wall_s=st["wall_s"], tlc_output_reused=st["reused"])
            d["divergences_in_other_aspects"] = violations_from(res, v, aspects, f"net {name}")
            res.detail[f"net {name}"] = d
        if any(": hang:" in text for text, _ in res.violations):
            return


# ------------------------------------------------------- serializable maps
SMAP = ["build", "decode", "big"]


def smap_files(k=1):
    base = open(os.path.join(SPEC, "SMap.cfg")).read()
    def one(s):
        return tlc("SMap", re.sub(r"K = .*", f"K = {k}", re.sub(r"Slice = .*", f'Slice = "{s}"', base)), f"smap-{s}-k{k}", (), 1500, "4g", xss="64m")
    with cf.ThreadPoolExecutor(3) as ex:
        return list(zip(SMAP, ex.map(one, SMAP)))


def unit_smap(res, exe, tier, seed):
    for k in [1, 2] if tier == "thorough" else [1]:
        for name, (out, st) in smap_files(k):
            res.states += st["states"]
            for v in run_harness(exe, ["smap", out, "--seed", str(seed)], timeout=3000 if tier == "thorough" else 600):
                if v.get("fatal"):
                    res.violate(f"smap {name}: {v['fatal']['detail'][:600]}", v["fatal"], "json")
                    continue
                if v["tool_errors"]:
                    raise ToolError(f"smap {name}: {v['tool_errors'][:2]}")
                res.transitions += v["lines"]
                res.validated += sum(v["checks"].values())
                violations_from(res, v, {"built", "canonical", "decoded", "rejected", "accepted", "pairs", "cut", "panic"}, f"smap {name}")
                res.detail[f"maps {name} (k={k})"] = {"lines": v["lines"], "checks": v["checks"], "truncated_or_inflated": v["cut"],
                                                     "tlc_wall_s": st["wall_s"], "tlc_output_reused": st["reused"]}
                if not res.samples:
                    res.samples += [json.loads(json.loads(l)) for l in open(out) if l.startswith('"{')][100:103]


def prepare(exe):
    smap_files()
    net_files(NET)
    evidence_files(EV, "quick", 1)
    driver_files(DRIVER)
