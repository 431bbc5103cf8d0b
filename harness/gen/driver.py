"""Runs generated Python (C13): driver.py CHUNK.json -> FAIL / DONE lines."""
import json, math, struct, sys, warnings
import numpy as np

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
SENT = -98765.4375  # not the value of any output
SHAPES = {"Point": ["x", "y"], "Inner": ["m", "k", "a"], "Outer": ["b", "q", "v", "p", "n"]}


class Rec:
    def __init__(self, **kw):
        if sorted(kw) != sorted(SHAPES[type(self).__name__]):
            raise TypeError("fields of %s: %s" % (type(self).__name__, sorted(kw)))
        self.__dict__.update(kw)


class Point(Rec):
    pass


class Inner(Rec):
    pass


class Outer(Rec):
    pass


def name_hash(n):
    h = 1469598103934665603
    for c in n.encode():
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h % 7


def ext(name, idx, a):
    s = name_hash(name)
    r = 0.25 * idx - 1
    for k in range(len(a)):
        r += ((k * 5 + idx * 3 + s) % 9 - 4 + 0.5) * a[k]
    if a:
        r += 0.125 * (a[0] * a[-1])
    return r


class Target:
    """How values are passed to and read from the functions of one target and float width."""

    def __init__(self, opts):
        w = opts.split()
        self.name, self.f32, self.oa = w[0], w[1] == "f32", "oa" in w
        self.np_t = np.float32 if self.f32 else np.float64
        if self.name == "np":
            self.mod = np
        elif self.name == "jnp":
            import jax
            jax.config.update("jax_enable_x64", True)
            import jax.numpy as jnp
            self.mod = jnp
        else:
            import torch
            torch.set_num_threads(1)
            torch.set_default_dtype(torch.float64)
            self.mod = torch
        self.globals = {"np": np, self.name: self.mod, "Point": Point, "Inner": Inner, "Outer": Outer}
        for n in ("e1", "ei", "em", "et", "ep"):
            self.globals[n] = getattr(self, n)

    def scalar(self, v):
        if self.name == "th":
            return self.mod.tensor(v, dtype=self.mod.float64)
        return (self.mod if self.name == "jnp" else np).asarray(v, dtype=self.np_t)[()]

    def integer(self, v):
        return self.mod.tensor(int(v), dtype=self.mod.int32) if self.name == "th" else int(v)

    def array(self, v, shape):
        a = np.array(v, dtype=self.np_t).reshape(shape)
        return self.mod.asarray(a)

    def load(self, ty, v, flat):
        k = ty[0]
        if k == "int":
            return int(v[0]), 1
        if k == "float":
            return float(v[0]), 1
        if k == "mat":
            n = ty[1] * ty[2]
            return self.array(v[:n], (n,) if flat else (ty[1], ty[2])), n
        if k == "Point":
            return Point(x=self.scalar(v[0]), y=self.scalar(v[1])), 2
        if k == "Inner":
            return Inner(m=self.array(v[:6], (2, 3)), k=self.integer(v[6]), a=self.scalar(v[7])), 8
        return Outer(b=self.scalar(v[0]), q=self.load(["Inner"], v[1:], 0)[0], v=self.array(v[9:12], (3, 1)), p=self.load(["Point"], v[12:], 0)[0], n=self.integer(v[14])), 15

    def num(self, x):
        a = np.asarray(x)
        if a.size != 1:
            raise TypeError("a scalar is expected, not shape %s" % (a.shape,))
        return float(a.reshape(()))

    # What the function computes has the precision the generator was asked for.
    def width(self, x):
        got = str(getattr(x, "dtype", type(x).__name__)).rpartition(".")[2]
        if got != ("float32" if self.f32 else "float64"):
            raise TypeError("precision: %s, with %s asked for" % (got, "float32" if self.f32 else "float64"))

    def flat(self, ty, x):
        k = ty[0]
        if k in ("float", "mat"):
            self.width(x)
        if k in ("int", "float"):
            return [self.num(x)]
        if k == "mat":
            a = np.asarray(x)
            if a.size != ty[1] * ty[2] or (not self.oa and a.shape != (ty[1], ty[2])):
                raise TypeError("shape %s instead of %s" % (a.shape, (ty[1], ty[2])))
            return [float(q) for q in a.reshape(-1)]
        if type(x).__name__ != k:
            raise TypeError("%s instead of %s" % (type(x).__name__, k))
        if k == "Point":
            return self.flat(["float"], x.x) + self.flat(["float"], x.y)
        if k == "Inner":
            return self.flat(["mat", 2, 3], x.m) + [self.num(x.k)] + self.flat(["float"], x.a)
        return self.flat(["float"], x.b) + self.flat(["Inner"], x.q) + self.flat(["mat", 3, 1], x.v) + self.flat(["Point"], x.p) + [self.num(x.n)]

    # External functions: the formula of external_value() in funcs.h.
    def e1(self, a, b):
        return self.scalar(ext("e1", 0, [self.num(a), self.num(b)]))

    def ei(self, a, b):
        return self.integer(3 * math.floor(self.num(a)) + 1)

    def em(self, m, s):
        v = [float(q) for q in np.asarray(m).reshape(6)] + [self.num(s)]
        return self.array([ext("em", i, v) for i in range(6)], (6,))  # reshaped by the caller

    def et(self, s, p, w):
        v = [self.num(s), self.num(p.x), self.num(p.y)] + [float(q) for q in np.asarray(w).reshape(3)]
        o = [ext("et", i, v) for i in range(8)]
        o[6] = 8
        return self.load(["Inner"], o, 0)[0]

    def ep(self, q):
        v = self.flat(["Inner"], q)
        return Point(x=self.scalar(ext("ep", 0, v)), y=self.scalar(ext("ep", 1, v)))


def size(ty):
    return {"int": 1, "float": 1, "Point": 2, "Inner": 8, "Outer": 15}.get(ty[0]) or ty[1] * ty[2]


def main(path):
    items = json.load(open(path))
    data = np.fromfile(path[:-5] + ".bin", dtype=np.float64)
    targets = {}
    calls = values = 0
    for it in items:
        t = targets.get(it["opts"]) or targets.setdefault(it["opts"], Target(it["opts"]))
        loc = {}
        try:
            exec(compile(it["code"], "<" + it["id"] + ">", "exec"), t.globals, loc)
            f = loc[it["name"]]
        except Exception as x:
            print("FAIL", it["id"], "does not load:", type(x).__name__, x)
            continue
        opt = [o[0] for o in it["outs"] if o[1] == "opt"]
        nin, nout, at = it["nin"], it["nout"], it["off"]
        try:
            for p in range(it["np"]):
                d = data[at:at + nin + 2 * nout]
                at += nin + 2 * nout
                flat = p % 2 == 1
                for m in range(1 << len(opt)):
                    args, i = {}, 0
                    for a in it["args"]:
                        args[a[0]], n = t.load(a[1:], d[i:], flat)
                        i += n
                    for o in it["outs"]:
                        on = o[1] == "out" or (o[1] == "opt" and m >> opt.index(o[0]) & 1)
                        if o[1] == "ret":
                            continue
                        if t.oa:
                            n = size(o[2:])
                            if on:
                                args[o[0]] = t.array([SENT] * n, (n,) if flat else (o[3], o[4]))
                            elif p % 3:
                                args[o[0]] = None  # or left out
                        elif o[1] == "opt":
                            args["compute_" + o[0]] = bool(on)
                    r = f(**args)
                    calls += 1
                    got = []
                    ret = [o for o in it["outs"] if o[1] == "ret"] + ([] if t.oa else [o for o in it["outs"] if o[1] != "ret"])
                    if len(ret) == 1:
                        r = (r,)
                    if len(ret) and (type(r) is not tuple or len(r) != len(ret)):
                        raise TypeError("a tuple of %d is expected" % len(ret))
                    val = dict(zip([o[0] for o in ret], r if ret else ()))
                    k = 0
                    for o in it["outs"]:
                        n = size(o[2:])
                        off = o[1] == "opt" and not m >> opt.index(o[0]) & 1
                        x = args.get(o[0]) if t.oa and o[1] != "ret" else val[o[0]]
                        if off:
                            if x is not None:
                                raise ValueError("output %s was not requested (mask %d)" % (o[0], m))
                        else:
                            v = t.flat(o[2:], x)
                            for j in range(n):
                                want, tol = d[nin + 2 * (k + j)], d[nin + 2 * (k + j) + 1]
                                if tol < 0:
                                    continue
                                if t.f32:
                                    tol *= 2.0**29
                                    if tol > 0.05 * (1e-3 + abs(want)) and o[2] != "int":
                                        continue
                                values += 1
                                if not abs(v[j] - want) <= tol:
                                    raise ValueError("output %s element %d: expected %r got %r (mask %d)" % (o[0], j, float(want), v[j], m))
                        k += n
        except Exception as x:
            print("FAIL", it["id"], "%s: %s: %s at %s" % (it["opts"], type(x).__name__, str(x).replace("\n", " ")[:300], [float(q) for q in d[:nin]]))
    print("DONE", calls, values)


main(sys.argv[1])
