"""C19: conversion to SymPy and back, over all heads and operand combinations of two pools."""
import pyexplore


def run(ctx):
    ctx.assumptions += ["the value of a wrenfold expression is that of its printed form (C18), read by Python's parser and computed with mpmath",
                        "the value of a SymPy object is computed from its tree with mpmath"]
    pyexplore.explore(ctx, "c19.py")
