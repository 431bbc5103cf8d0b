#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE]

Builds what the check of property ID needs from the current tree of /repo, explores the state space
described in checks/ID (a C++ harness harness/<id>.cc, or a Python module checks/<id>.py), filters the
known findings, replays every reported violation before printing it, and writes evidence/ID.json.
Exit status: 0 (held on everything explored) or 1 (with a VIOLATION line); anything else is an error.
"""
import importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import wfbuild  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """Lines 'KNOWN property=C22 key=<key> :: <description>'."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Ctx:
    def __init__(self, prop, tier, scratch):
        self.prop, self.tier, self.scratch = prop, tier, scratch
        self.thorough = tier == "thorough"
        self.counts, self.samples, self.states = {}, [], 0
        self.violations = []  # dicts id,key,detail
        self.exhaustive = True
        self.replay_cmd = None  # function(violation) -> bool (seen again)
        self.assumptions = []
        self.extra = {}

    def merge(self, d):
        for k, v in d["counts"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.states += d["states"]
        self.samples += d["samples"]
        self.violations += d["violations"]
        if d.get("incomplete"):
            self.exhaustive = False


def run_harness(ctx, exe, args=(), limit=None, tag="h"):
    """Runs an explorer executable; returns the parsed result."""
    out = os.path.join(ctx.scratch, "out_%s.json" % tag)
    limit = limit or (840 if not ctx.thorough else 6 * 3600)
    cmd = [exe, out, "--tier", ctx.tier] + list(args)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise RuntimeError("the exploration exceeded its time limit of %d s" % limit)
    if p.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("harness failed (%s): %s" % (p.returncode, o[-2000:]))
    d = json.load(open(out))
    d["stdout"] = o
    return d


FULL = {"C11", "C15"}  # checks that need the code generation sources


def cxx_check(ctx, main, core="core", libs=(), opt="-O1", cc="g++"):
    b = wfbuild.Builder(ctx.scratch, cc=cc, opt=opt)
    t = time.time()
    exe = b.harness(os.path.join(VERIF, "harness", main), core=core)
    ctx.extra["build_s"] = round(time.time() - t, 1)
    d = run_harness(ctx, exe)
    ctx.merge(d)

    def replay(v):
        # A case on its own, in a fresh process (with a longer limit, in case it was slow).
        r = run_harness(ctx, exe, ["--case", str(v["id"]), "--hang", "150"], tag="r")
        if any(x["key"] == v["key"] for x in r["violations"]):
            return "case"
        if not hasattr(ctx, "second"):
            ctx.second = run_harness(ctx, exe, tag="s")
        if any(x["key"] == v["key"] and x["id"] == v["id"] for x in ctx.second["violations"]):
            return "full"
        return None
    ctx.replay_cmd = replay


# property -> (kind, argument)
CXX = {}


def load_table():
    tab = {}
    d = os.path.join(VERIF, "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and re.match(r"c\d\d", f):
            tab[f[:3].upper()] = os.path.join(d, f)
    return tab


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ.pop("PYTHONPATH", None)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="wfcheck_%s_" % prop.lower())
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    try:
        ctx = Ctx(prop, tier, scratch)
        path = load_table().get(prop)
        if path:
            spec = importlib.util.spec_from_file_location("check_" + prop.lower(), path)
            mod = importlib.util.module_from_spec(spec)
            mod.driver = sys.modules[__name__]
            spec.loader.exec_module(mod)
            mod.run(ctx)
        else:
            cxx_check(ctx, prop.lower() + ".cc", core="full" if prop in FULL else "core")
        known = known_findings(prop)
        reported, kf, dropped = [], {}, 0
        seen = set()
        for v in sorted(ctx.violations, key=lambda v: v["id"]):
            if v["key"] in known:
                kf.setdefault(v["key"], v)
                continue
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            if len(reported) >= 5:
                break
            if dropped > 20:
                break
            how = ctx.replay_cmd(v) if ctx.replay_cmd else "case"
            if how:
                v["replay"] = how
                reported.append(v)
            else:
                dropped += 1
        rp = os.path.join(ev_dir, "%s.replay.json" % prop)
        if reported:
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "violations": reported,
                           "how": "python3 tools/check.py %s %s rebuilds and re-runs; each violation names its case "
                                  "number and the operations" % (prop, tier)}, f, indent=1)
        elif os.path.exists(rp):
            os.unlink(rp)
        c = dict(ctx.counts)
        cov = {"states": int(ctx.states), "transitions": int(c.pop("transitions", 0)),
               "traces_validated_against_impl": int(c.pop("transitions_decided", 0)),
               "samples": ctx.samples[:24], "exhaustive": bool(ctx.exhaustive)}
        cov.update({k: v for k, v in c.items()})
        cov.update(ctx.extra)
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "model_checking", "coverage": cov, "assumptions": ctx.assumptions,
              "wall_s": round(time.time() - t0, 1), "violations": len(reported)}
        tmp = os.path.join(ev_dir, "%s.json.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ev_dir, "%s.json" % prop))
        for k, v in kf.items():
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, known[k]))
        print("%s %s: states=%d transitions=%d checked=%d violations=%d wall=%.1fs" % (
            prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], len(reported),
            time.time() - t0))
        if dropped:
            print("note: %d reports were not reproduced and are dropped" % dropped)
        if cov["transitions"] == 0 and not reported:
            print("error: nothing was explored")
            return 3
        for v in reported:
            print("  case %s: %s :: %s" % (v["id"], v["key"], v["detail"][:1500]))
        if reported:
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        return 0
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if os.environ.get("WF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.modules.setdefault("check_driver", sys.modules[__name__])
    sys.exit(main())
