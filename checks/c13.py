"""C13: every function of the families is generated as Python (NumPy, JAX, PyTorch) and run."""
import os, re, subprocess
import codegen

PY = "/opt/vp/venv/bin/python"


def run(ctx):
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", JAX_PLATFORMS="cpu", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", PYTHONDONTWRITEBYTECODE="1")

    def one(path):
        r = subprocess.run([PY, os.path.join(codegen.VERIF, "harness", "gen", "driver.py"), path], capture_output=True, text=True, timeout=800, env=env)
        c, v, bad = codegen.parse_driver(r.stdout, path)
        if r.returncode or "DONE" not in r.stdout:
            bad.append((None, "the driver failed (%d): %s" % (r.returncode, r.stderr[-800:])))
        return c, v, bad
    codegen.explore(ctx, "python", 5000, "json", one)
    ctx.assumptions.append("NumPy, JAX (64-bit floats enabled) and PyTorch on the CPU; integers are 32 bits wide in generated Python, so functions with larger intermediate integers are not run")
