#!/usr/bin/env python3
"""check.py ID [--thorough]: decides one property on the current working tree of /repo."""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *  # noqa
import plan


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []  # (text, replay file)
        self.states = self.transitions = self.validated = 0
        self.samples, self.detail, self.other = [], {}, {}

    def violate(self, what, payload, kind="txt"):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{self.pid}-{len(self.violations)}.{kind}")
        with open(f, "w") as h:
            h.write(payload if isinstance(payload, str) else json.dumps(payload, indent=1))
        self.violations.append((what, f))


def header_of(path, cfg):
    for l in open(path, errors="replace"):
        if l.startswith('"{') and '\\"cfg\\":%d' % cfg in l[:400]:
            v = json.loads(json.loads(l))
            if v.get("cfg") == cfg:
                return l
    return ""


def unit_slices(res, exe, specs, aspects, tier, seed, cap=None):
    outs = run_slices(specs, timeout=1500 if tier == "thorough" else 600)
    files = {}
    for s in specs:
        out, st = outs[s]
        files[out] = s
        res.states += st["states"]
        res.detail["slice " + s[0]] = {"k": s[1], "deep": s[2], "states": st["states"], "depth": st["depth"],
                                       "tlc_wall_s": st["wall_s"], "tlc_output_reused": st["reused"]}
    args = ["replay", *files]
    if cap:
        args += ["--max", str(cap), "--seed", str(seed)]
    for v in run_harness(exe, args, timeout=3000 if tier == "thorough" else 800):
        s = files.get(v["file"], (v["file"], 0, False))
        name = s[0]
        if v.get("fatal"):
            # not even the execution by the book works
            res.violate(f"{name}: {v['fatal']['detail'][:600]}", v["fatal"], "json")
            continue
        if v["tool_errors"]:
            raise ToolError(f"{name}: {v['tool_errors'][:3]}")
        res.transitions += v["selected"]
        n = sum(v["replayed"].values())
        res.validated += n
        d = res.detail.setdefault("slice " + name, {})
        d.update(transitions=v["lines"], replayed=v["replayed"], not_possible_in_format=v["skipped"],
                 operations=v["operations"], last_step=v["outcomes"], ambiguous=v["ambiguous"])
        if v["reference_problems"] and name not in plan.UNRUNNABLE:
            res.violate(f"{name}: an execution by the book, messages in order, fails: {v['reference_problems'][:3]}", v["reference_problems"], "json")
        for x in v["divergences"]:
            hit = [y for y in x["divergences"] if y["aspect"] in aspects]
            if not hit:
                d["divergences_in_other_aspects"] = d.get("divergences_in_other_aspects", 0) + 1
                continue
            if len(res.violations) < 20:
                y = hit[0]
                text = header_of(v["file"], x["cfg"]) + json.dumps(json.dumps(x["line"])) + "\n" + json.dumps(x["divergences"], indent=1)
                res.violate(f"{name} ({x['format']}): {y['aspect']} at {y['at'][:300]}: {y['detail'][:700]}", text)
        if not res.samples or len(res.samples) < 3:
            for l in open(v["file"], errors="replace"):
                if l.startswith('"{') and '\\"h\\":[[' in l:
                    h = json.loads(json.loads(l))["h"]
                    if len(h) > 5:
                        res.samples.append({"slice": name, "behaviour": h})
                        break


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    res = Result(pid)
    try:
        exe = harness(tier)
        tb = time.time()
        for unit in plan.units(pid, tier):
            kind, *a = unit
            if kind == "slices":
                unit_slices(res, exe, a[0], a[1], tier, seed, a[2] if len(a) > 2 else None)
            else:
                import units
                getattr(units, "unit_" + kind)(res, exe, tier, seed, *a)
    except ToolError as e:
        print(f"TOOL ERROR: {e}")
        sys.exit(2)
    except Exception:
        print("TOOL ERROR: " + traceback.format_exc())
        sys.exit(2)
    kf = os.path.join(VERIF, "known_findings.txt")
    known = [l.strip() for l in open(kf)] if os.path.exists(kf) else []
    for l in known:
        if l.startswith(f"finding: property={pid} "):
            print("KNOWN-FINDING: property=" + l.split("property=", 1)[1])
    cov = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.validated,
           "samples": res.samples[:4], "detail": res.detail, "build_s": round(tb - t0, 1), **res.other}
    if res.violations:
        cov["violations"] = [v[0] for v in res.violations]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "wall_s": round(time.time() - t0, 1)}, f, indent=1)
    if res.violations:
        for what, path in res.violations[:8]:
            print("  " + what.replace("\n", " ")[:1200])
        print(f"VIOLATION property={pid} replay={res.violations[0][1]}")
        sys.exit(1)
    print(f"{pid}: held on {res.validated} behaviours replayed on the real code ({res.states} states of the specification), "
          f"{time.time() - t0:.1f} s")


if __name__ == "__main__":
    main()
