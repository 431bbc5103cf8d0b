"""C23: custom code generators written in Python, over a pool of functions and all single overrides."""
import os
import pyexplore


def run(ctx):
    ctx.assumptions += ["freed memory is overwritten by the allocator (MALLOC_PERTURB_), so that a node used after it is freed is seen",
                        "the default text of the generators is correct (C12, C13, C14)"]
    os.environ["MALLOC_PERTURB_"] = "165"
    pyexplore.explore(ctx, "c23.py")
