"""C17: the span types of the runtime header (components/runtime), compiled in nine parts."""
import json, os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import wfbuild

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPARTS, STEP = 9, 10 ** 9


def run(ctx):
    src = os.path.join(VERIF, "harness", "span", "c17.cc")
    t = time.time()

    def build(i):
        exe = os.path.join(ctx.scratch, "span%d" % i)
        cmd = ["g++", "-std=c++17", "-O0", "-w", "-DPART=%d" % i, "-I" + os.path.join(wfbuild.REPO, "components/runtime"),
               "-isystem", "/usr/include/eigen3", src, "-o", exe, "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return exe, r
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(build, [8, 7, 6, 5, 4, 3, 2, 1, 0]))
    built = built[::-1]
    ctx.extra["build_s"] = round(time.time() - t, 1)
    ctx.assumptions += ["spans of one, two and three dimensions; shapes up to 4 by 4 (6 by 6 at run time, thorough)"]
    for i, (exe, r) in enumerate(built):
        if r.returncode:
            # Everything in the enumeration is a documented use of the header: it has to compile.
            ctx.counts["transitions"] = ctx.counts.get("transitions", 0) + 1
            ctx.violations.append({"id": i * STEP, "key": "does not compile", "detail": r.stderr[:1500]})

    def go(i, args=(), tag="h"):
        return ctx_run(ctx, built[i][0], args, "%s%d" % (tag, i))
    ok = [i for i in range(NPARTS) if not built[i][1].returncode]
    for i in ok:
        d = go(i)
        for v in d["violations"]:
            v["id"] += i * STEP
        ctx.merge(d)

    def replay(v):
        i = v["id"] // STEP
        if v["key"] == "does not compile":
            return "case" if build(i)[1].returncode else None
        d = go(i, ["--case", str(v["id"] % STEP)], "r")
        return "case" if any(x["key"] == v["key"] for x in d["violations"]) else None
    ctx.replay_cmd = replay


def ctx_run(ctx, exe, args, tag):
    import sys
    drv = sys.modules.get("check_driver") or sys.modules["__main__"]
    return drv.run_harness(ctx, exe, list(args) + ["--shards", "4"], tag=tag)
