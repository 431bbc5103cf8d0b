"""C12: every function of the families is generated as C++, compiled with g++ and run."""
import os, re, subprocess
import codegen, wfbuild


def run(ctx):
    inc = ["-I" + ctx.scratch, "-I" + os.path.join(codegen.VERIF, "harness", "gen"), "-I" + wfbuild.REPO + "/components/runtime", "-I/usr/include/eigen3"]
    fl = ["g++", "-std=c++17", "-O0", "-w", "-ftemplate-depth=200"] + inc
    subprocess.run(fl + ["-x", "c++-header", os.path.join(codegen.VERIF, "harness", "gen", "prelude.h"), "-o", os.path.join(ctx.scratch, "prelude.h.gch")], check=True)

    def one(path):
        base = path[:-3]
        r = subprocess.run(fl + ["-ftrack-macro-expansion=0", "-fmax-errors=400", path, "-o", base + ".x"], capture_output=True, text=True)
        if r.returncode:
            src = open(path).read().split("\n")
            seen, bad = {}, []
            for m in re.finditer(r"^[^\n:]*%s:(\d+):\d+: error: (.*)$" % re.escape(os.path.basename(path)), r.stderr, re.M):
                ln = int(m.group(1)) - 1
                while ln > 0 and not re.search(r"\b(?:f|drv_)(\d+[bt][a-z])\(", src[ln]):
                    ln -= 1
                q = re.search(r"\b(?:f|drv_)(\d+[bt][a-z])\(", src[ln])
                if q and q.group(1) not in seen:
                    seen[q.group(1)] = 1
                    bad.append((q.group(1), "does not compile: " + m.group(2)))
            return 0, 0, bad or [(None, "compiler error: " + r.stderr[-1500:])]
        r = subprocess.run([base + ".x", base + ".bin"], capture_output=True, text=True, timeout=600)
        os.unlink(base + ".x")
        c, v, bad = codegen.parse_driver(r.stdout, path)
        if r.returncode or "DONE" not in r.stdout:
            bad.append((None, "the driver failed (%d): %s" % (r.returncode, r.stderr[-500:])))
        return c, v, bad
    codegen.explore(ctx, "cpp", 400, "cc", one)
    ctx.assumptions.append("g++ 13 -O0 -std=c++17; Scalar = double; functions whose value is not determined at a point are not compared there")
