"""C21: every operator, method, function and index form of the Python module against NumPy and Python."""
import pyexplore


def run(ctx):
    ctx.assumptions += ["NumPy, Python's float and complex arithmetic are the oracle",
                        "sizes up to 4 by 4, indices from -6 to 6, steps from -3 to 3"]
    pyexplore.explore(ctx, "c21.py")
