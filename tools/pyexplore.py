"""Runs a script of harness/py (an exhaustive exploration in Python) on 8 shards against the built module."""
import json, os, signal, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import wfbuild

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSH = 8


def environment(ctx, mod):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
    env.update(PYTHONPATH=os.pathsep.join([mod, os.path.join(wfbuild.REPO, "components", "python"),
                                           os.path.join(VERIF, "harness", "py")]),
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               TMPDIR=ctx.scratch, HOME=ctx.scratch)
    env.setdefault("RUSTUP_HOME", os.path.join(os.path.expanduser("~"), ".rustup"))
    return env


def shard(ctx, mod, script, i, n, only=None, tag="e", limit=None, args=()):
    """One shard to the end, restarted after a case that ends the process. Returns merged results and states."""
    limit = limit or (800 if not ctx.thorough else 6 * 3600)
    env, start, t0 = environment(ctx, mod), 0, time.time()
    env.update(WF_ARGS=json.dumps(list(args)))
    tot = {"counts": {}, "states": set(), "samples": [], "violations": []}
    for attempt in range(40):
        out = os.path.join(ctx.scratch, "%s_%d_%d" % (tag, i, attempt))
        cmd = [wfbuild.VENV_PY, "-B", os.path.join(VERIF, "harness", "py", script), out, ctx.tier, str(i), str(n),
               str(start)] + ([str(only)] if only is not None else [])
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env,
                             cwd=ctx.scratch, start_new_session=True)
        dead = None
        try:
            _, err = p.communicate(timeout=max(60, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise RuntimeError("the exploration exceeded its time limit")
        if p.returncode == 0:
            d = json.load(open(out))
            for k, v in d["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + v
            tot["samples"] += d["samples"]
            tot["violations"] += d["violations"]
            s = open(out + ".states", "rb").read()
            tot["states"].update(s[j:j + 8] for j in range(0, len(s), 8))
            return tot
        if p.returncode > 0:
            raise RuntimeError("%s failed: %s" % (script, err[-3000:]))
        raw = open(out + ".case", "rb").read()
        case = struct.unpack("<q", raw[:8])[0]
        text = raw[8:].split(b"\0")[0].decode(errors="replace")
        tot["violations"].append({"id": case, "key": "the process ends: " + text.split(" :: ")[0],
                                  "detail": "signal %d in: %s %s" % (-p.returncode, text, err[-300:])})
        if only is not None:
            return tot
        start = case + 1
    return tot


def explore(ctx, script, args=(), mod=None):
    t = time.time()
    if mod is None:
        mod = wfbuild.Builder(ctx.scratch, cc="g++", opt="-O1").python_module()
        ctx.extra["build_s"] = round(time.time() - t, 1)
    states = set()
    with ThreadPoolExecutor(NSH) as ex:
        for r in ex.map(lambda i: shard(ctx, mod, script, i, NSH, args=args), range(NSH)):
            states |= r["states"]
            r["states"] = 0
            ctx.merge(r)
    ctx.states += len(states)

    def replay(v):
        r = shard(ctx, mod, script, 0, 1, only=v["id"], tag="r%d" % v["id"], args=args)
        if any(x["key"] == v["key"] for x in r["violations"]):
            return "case"
        return None
    ctx.replay_cmd = replay
    return mod
