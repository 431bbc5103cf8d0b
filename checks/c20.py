"""C20: struct layouts and signatures of external functions, through the Python and the C++ interfaces."""
import os, sys, time
import pyexplore, wfbuild


def run(ctx):
    t = time.time()
    mod, exe = wfbuild.Builder(ctx.scratch, cc="g++", opt="-O1").python_module(os.path.join(pyexplore.VERIF, "harness", "c20.cc"), "-O0")
    ctx.extra["build_s"] = round(time.time() - t, 1)
    drv = sys.modules.get("check_driver") or sys.modules["__main__"]
    d = drv.run_harness(ctx, exe)
    OFF = 10 ** 9
    for v in d["violations"]:
        v["id"] += OFF
    ctx.merge(d)
    pyexplore.explore(ctx, "c20.py", mod=mod)
    py = ctx.replay_cmd

    def replay(v):
        if v["id"] < OFF:
            return py(v)
        r = drv.run_harness(ctx, exe, ["--case", str(v["id"] - OFF)], tag="r")
        return "case" if any(x["key"] == v["key"] for x in r["violations"]) else None
    ctx.replay_cmd = replay
    ctx.assumptions += ["generated C++ is compiled with a small stand-in for Eigen::Matrix that has the interface the generated code uses; generated Rust with a format override for matrices",
                        "values are dyadic, so that sums are exact in every language"]
