"""C21: the Python module against NumPy / Python semantics."""
import cmath, itertools, math, operator, pathlib, tempfile
import numpy as np
from explorer import Explorer
from wrenfold import enumerations, sym
import wrenfold as wf
from wrenfold import code_generation as cg, geometry, type_annotations as ta, type_info as ti
from wrenfold.geometry import Quaternion

e = Explorer()
TH = e.thorough
RAISED = object()


def call(f):
    try:
        return f(), None
    except Exception as x:  # noqa: BLE001
        return RAISED, x


def num(x):
    """The number a symbol-free expression denotes."""
    return complex(sym.vector(x).eval()[0, 0])


def close(a, b, tol=1e-11):
    a, b = complex(a), complex(b)
    if cmath.isnan(a) or cmath.isnan(b):
        return cmath.isnan(a) and cmath.isnan(b)
    if cmath.isinf(a) or cmath.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def flat(m):
    return [tuple(m.shape)] + [hash(v) for v in m.to_flat_list()]


def same_matrix(m, ref):
    """m: MatrixExpr, ref: 2-D object array of expressions."""
    if not isinstance(m, sym.MatrixExpr) or tuple(m.shape) != ref.shape:
        return False
    got = m.to_flat_list()
    want = list(ref.ravel())
    return len(got) == len(want) and all(g.is_identical_to(w) for g, w in zip(got, want))


def expect_matrix(key, about, f, ref):
    """ref: object array, or RAISED when an exception is due."""
    e.about(about)
    m, x = call(f)
    e.decided()
    if ref is RAISED:
        if m is not RAISED:
            e.violation(key, "%s does not raise, returns %s" % (about, m))
        return
    if m is RAISED:
        e.violation(key, "%s raises %r, expected shape %s" % (about, x, ref.shape))
    elif not same_matrix(m, ref):
        e.violation(key, "%s gives %s, expected %s" % (about, m, ref.tolist()))
    else:
        e.state(repr((about[:12], m.shape, str(m))))
        e.sample(lambda: "%s = %s" % (about, m))


def expect_scalar(key, about, f, ref):
    e.about(about)
    m, x = call(f)
    e.decided()
    if ref is RAISED:
        if m is not RAISED:
            e.violation(key, "%s does not raise, returns %s" % (about, m))
        return
    if m is RAISED:
        e.violation(key, "%s raises %r, expected %s" % (about, x, ref))
    elif not (isinstance(m, sym.Expr) and m.is_identical_to(ref)):
        e.violation(key, "%s gives %s, expected %s" % (about, m, ref))
    else:
        e.sample(lambda: "%s = %s" % (about, m))


def expect_value(key, about, f, ref, tol=1e-11):
    """The value (a number, or a bool) of what f() returns."""
    e.about(about)
    m, x = call(f)
    e.decided()
    if m is RAISED:
        e.violation(key, "%s raises %r, expected %r" % (about, x, ref))
        return
    if isinstance(ref, (bool, np.bool_)):
        ok = isinstance(m, (sym.BooleanExpr, bool))
        if ok:
            v, x = call(lambda: bool(m))
            if v is RAISED:  # left alone: 1/2 < 0.25
                v, x = call(lambda: bool(num(sym.iverson(m))))
            ok = v is not RAISED and v == bool(ref)
    else:
        v, x = call(lambda: num(m))
        ok = v is not RAISED and close(v, ref, tol)
        m = "%s (%s)" % (m, v if v is not RAISED else repr(x))
    if not ok:
        e.violation(key, "%s gives %s, expected %r" % (about, m, ref))
    else:
        e.state(about)
        e.sample(lambda: "%s = %s" % (about, m))


def expect_raise(key, about, f):
    e.about(about)
    m, _ = call(f)
    e.decided()
    if m is not RAISED:
        e.violation(key, "%s does not raise, returns %r" % (about, m))


SYM = [[sym.symbol("m_%d_%d" % (i, j)) for j in range(8)] for i in range(8)]


def sym_matrix(r, c):
    ref = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            ref[i, j] = SYM[i][j]
    return sym.matrix([[SYM[i][j] for j in range(c)] for i in range(r)]), ref


def sl(s):
    return "%s:%s:%s" % tuple("" if v is None else v for v in (s.start, s.stop, s.step))


# ---------------------------------------------------------------- indexing
INTS = list(range(-6, 7))
BOUND = [None] + INTS
SLICES = [slice(a, b, s) for s in (None, 1, 2, 3, -1, -2, -3) for a in BOUND for b in BOUND]
REP = [slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(None, None, 2), slice(-1, None, -2),
       slice(0, 2), slice(-2, None), slice(2, 0, -1), slice(3, None, -3), slice(1, 1), slice(5, None), slice(0, 1)]
if TH:
    REP = REP + SLICES[::23]


def np_index(ref, idx):
    """NumPy on the same data, always two-dimensional; RAISED if NumPy raises."""
    try:
        if isinstance(idx, tuple):
            r, c = idx
        else:
            r, c = idx, slice(None)
        for k, n in ((r, ref.shape[0]), (c, ref.shape[1])):
            if isinstance(k, int) and not -n <= k < n:
                raise IndexError
        rr = [range(ref.shape[0])[r]] if isinstance(r, int) else list(range(ref.shape[0]))[r]
        cc = [range(ref.shape[1])[c]] if isinstance(c, int) else list(range(ref.shape[1]))[c]
        out = np.empty((len(rr), len(cc)), dtype=object)
        for a, i in enumerate(rr):
            for b, j in enumerate(cc):
                out[a, b] = ref[i, j]
        # The list arithmetic above against NumPy's own answer.
        nat = ref[idx]
        if isinstance(nat, np.ndarray):
            assert nat.size == out.size and all(x is y for x, y in zip(nat.ravel(), out.ravel()))
        else:
            assert nat is out[0, 0]
        return out
    except IndexError:
        return RAISED


def indexing():
    for r in range(1, 5):
        for c in range(1, 5):
            m, ref = sym_matrix(r, c)
            tag = "%dx%d" % (r, c)
            for i in INTS:
                if e.next():
                    want = np_index(ref, i)
                    if c == 1:
                        expect_scalar("m[i] on a column", "%s m[%d]" % (tag, i), lambda: m[i],
                                      RAISED if want is RAISED else want[0, 0])
                    else:
                        expect_matrix("m[i]", "%s m[%d]" % (tag, i), lambda: m[i], want)
                for j in INTS:
                    if e.next():
                        want = np_index(ref, (i, j))
                        expect_scalar("m[i, j]", "%s m[%d, %d]" % (tag, i, j), lambda: m[i, j],
                                      RAISED if want is RAISED else want[0, 0])
            for s in SLICES:
                if e.next():
                    expect_matrix("m[slice]", "%s m[%s]" % (tag, sl(s)), lambda: m[s], np_index(ref, s))
                for i in INTS:
                    if e.next():
                        expect_matrix("m[i, slice]" + (" with i < 0" if i < 0 else ""),
                                      "%s m[%d, %s]" % (tag, i, sl(s)), lambda: m[i, s], np_index(ref, (i, s)))
                        expect_matrix("m[slice, j]" + (" with j < 0" if i < 0 else ""),
                                      "%s m[%s, %d]" % (tag, sl(s), i), lambda: m[s, i], np_index(ref, (s, i)))
                for t in REP:
                    if e.next():
                        expect_matrix("m[slice, slice]", "%s m[%s, %s]" % (tag, sl(s), sl(t)), lambda: m[s, t],
                                      np_index(ref, (s, t)))
                        expect_matrix("m[slice, slice]", "%s m[%s, %s]" % (tag, sl(t), sl(s)), lambda: m[t, s],
                                      np_index(ref, (t, s)))
            for bad in (1.0, None, (0,), (0, 0, 0), (0.0, 0), slice(None, None, 0), (slice(None, None, 0), 0),
                        ..., [0], (0, None)):
                if e.next():
                    expect_raise("index of a wrong type", "%s m[%r]" % (tag, bad), lambda: m[bad])


# ---------------------------------------------------------------- containers
def containers():
    shapes = [(r, c) for r in range(1, 5) for c in range(1, 5)]
    for r, c in shapes:
        m, ref = sym_matrix(r, c)
        tag = "%dx%d" % (r, c)
        rows = ref.tolist()
        if e.next():
            e.about(tag + " properties")
            e.decided()
            if (len(m), tuple(m.shape), m.size, m.is_empty) != (r, (r, c), r * c, False):
                e.violation("shape properties", "%s: len %s shape %s size %s" % (tag, len(m), m.shape, m.size))
        if e.next():
            e.about(tag + " iteration")
            e.decided()
            for k in range(2):  # an iterator can be taken again
                it = list(m)
                ok = len(it) == r and all(
                    (x.is_identical_to(rows[i][0]) if c == 1 else same_matrix(x, ref[i:i + 1])) for i, x in
                    enumerate(it))
                if not ok:
                    e.violation("iteration", "%s: list(m) = %s" % (tag, it))
            it = iter(m)
            first = next(it)
            if r > 1 and first == next(it):
                e.violation("iteration", "%s: the iterator does not advance" % tag)
        if e.next():
            e.about(tag + " lists")
            e.decided()
            if not all(a.is_identical_to(b) for a, b in zip(m.to_flat_list(), ref.ravel())):
                e.violation("to_flat_list", "%s: %s" % (tag, m.to_flat_list()))
            tl = m.to_list()
            if [len(x) for x in tl] != [c] * r or not all(
                    tl[i][j].is_identical_to(rows[i][j]) for i in range(r) for j in range(c)):
                e.violation("to_list", "%s: %s" % (tag, tl))
        # Constructors from every kind of source.
        sources = {"lists": lambda: sym.matrix(rows), "tuples": lambda: sym.matrix(tuple(map(tuple, rows))),
                   "generator": lambda: sym.matrix(list(x) for x in rows),
                   "nested generators": lambda: sym.matrix((v for v in x) for x in rows),
                   "rows": lambda: sym.matrix([sym.row_vector(*x) for x in rows]),
                   "array": lambda: sym.matrix(ref), "class": lambda: sym.MatrixExpr(rows),
                   "itself": lambda: sym.matrix(m.to_list()), "vstack": lambda: sym.vstack(
                [sym.row_vector(*x) for x in rows]),
                   "hstack": lambda: sym.hstack([sym.vector(*ref[:, j]) for j in range(c)]),
                   "one block": lambda: sym.matrix([m]), "two blocks": lambda: sym.matrix([m[:r // 2], m[r // 2:]])
                   if r > 1 else m}
        for name, f in sources.items():
            if e.next():
                expect_matrix("matrix from " + name, "%s from %s" % (tag, name), f, ref)
        if c == 1 and e.next():
            expect_matrix("matrix from flat list", tag + " flat", lambda: sym.matrix([x[0] for x in rows]), ref)
            expect_matrix("vector", tag + " vector", lambda: sym.vector(*[x[0] for x in rows]), ref)
        if e.next():
            expect_matrix("matrix_of_symbols", tag + " matrix_of_symbols",
                          lambda: sym.matrix_of_symbols("m", r, c), ref)
        for f, name in ((lambda: m.T, "T"), (lambda: m.transpose(), "transpose()")):
            if e.next():
                expect_matrix("transpose", tag + " " + name, f, ref.T)
        if e.next():
            expect_matrix("vec", tag + " vec", lambda: sym.vec(m), ref.reshape(-1, 1, order="F"))
        if e.next():
            seen = []

            def fn(v):
                seen.append(v)
                return v * 2 + 1
            expect_matrix("unary_map", tag + " unary_map", lambda: m.unary_map(fn), ref * 2 + 1)
            if len(seen) != r * c or any(a != b for a, b in zip(seen, ref.ravel())):
                e.violation("unary_map", "%s: traversal order %s" % (tag, seen))
        for a in range(0, 17):
            for b in range(0, 17):
                if e.next():
                    want = ref.reshape(a, b) if a * b == r * c else RAISED
                    expect_matrix("reshape", "%s reshape(%d, %d)" % (tag, a, b), lambda: m.reshape(a, b), want)
                    expect_matrix("reshape", "%s reshape((%d, %d))" % (tag, a, b), lambda: m.reshape((a, b)), want)
        if e.next():
            expect_raise("reshape", tag + " reshape(-1)", lambda: m.reshape(-1, -r * c))
        # Element-wise and product operators.
        ints = np.arange(1, r * c + 1).reshape(r, c) * np.where(np.arange(r * c).reshape(r, c) % 2, -1, 1)
        mi = sym.matrix(ints.tolist())
        if e.next():
            e.about(tag + " numpy")
            e.decided()
            for name, f in (("np.array(m)", lambda: np.array(mi)), ("np.asarray(m)", lambda: np.asarray(mi)),
                            ("m.eval()", lambda: mi.eval())):
                v, x = call(f)
                if v is RAISED or v.shape != ints.shape or not (v == ints).all() or (
                        "np" in name and v.dtype != np.int64):
                    e.violation(name, "%s: %r %r" % (tag, v if v is not RAISED else x, ints))
        for dt in ("float64", "float32", "complex128", "int64", "object"):
            if e.next():
                e.about("%s np.array(m, dtype) %s" % (tag, dt))
                e.decided()
                for name, f in (("np.array", lambda: np.array(mi, dtype=dt)),
                                ("np.asarray", lambda: np.asarray(mi, dtype=dt))):
                    v, x = call(f)
                    if v is RAISED or v.shape != ints.shape or v.dtype != np.dtype(dt) or not (v == ints).all():
                        e.violation("np.array(m, dtype=...)", "%s: %s(m, dtype=%s) %r" % (
                            tag, name, dt, v if v is not RAISED else x))
        # Result type: one element of another kind.
        for pos in range(r * c):
            for val, dt, ref_val in ((0.5, np.float64, 0.5), (sym.I * 2 + 1, np.complex128, 1 + 2j),
                                     (sym.pi, np.float64, math.pi), (sym.sqrt(3), np.float64, math.sqrt(3)),
                                     (sym.rational(1, 3), np.float64, 1 / 3),
                                     (sym.exp(sym.rational(1, 2)) + 1, np.float64, math.exp(0.5) + 1),
                                     (sym.E ** 2, np.float64, math.e ** 2), (sym.sin(3), np.float64, math.sin(3)),
                                     (sym.log(sym.integer(3)), np.float64, math.log(3))):
                if e.next():
                    e.about("%s eval with %s at %d" % (tag, val, pos))
                    e.decided()
                    l = ints.ravel().tolist()
                    l[pos] = val
                    v, x = call(lambda: sym.matrix(l).reshape(r, c).eval())
                    want = ints.astype(complex).ravel()
                    want[pos] = ref_val
                    if v is RAISED or v.dtype != dt or v.shape != (r, c) or not np.allclose(
                            v.ravel(), want, rtol=1e-13, atol=0):
                        e.violation("eval() of a matrix", "%s with %s at %d: %r" % (
                            tag, val, pos, v if v is not RAISED else x))
        if e.next():
            expect_raise("eval() of a symbolic matrix", tag + " eval of symbols", lambda: m.eval())
        x = sym.symbol("x")
        for name, s in (("x", x), ("2", 2), ("-3", -3), ("0.5", 0.5), ("Integer 2", sym.integer(2)),
                        ("np.float64", np.float64(1.5)), ("np.int64", np.int64(3))):
            if e.next():
                sv = s.item() if hasattr(s, "item") else s
                expect_matrix("m * scalar", "%s m * %s" % (tag, name), lambda: m * s, ref * sv)
                if not hasattr(s, "item"):
                    expect_matrix("scalar * m", "%s %s * m" % (tag, name), lambda: s * m, ref * sv)
                expect_matrix("m / scalar", "%s m / %s" % (tag, name), lambda: m / s, ref / sv)
        if e.next():
            expect_matrix("-m", tag + " -m", lambda: -m, -ref)
        if e.next():
            e.about(tag + " norm")
            vals = {ref[i, j]: int(ints[i, j]) for i in range(r) for j in range(c)}
            pairs = list(vals.items())
            expect_value("squared_norm", tag + " squared_norm", lambda: m.squared_norm().subs(pairs),
                         int((ints ** 2).sum()))
            expect_value("norm", tag + " norm", lambda: m.norm().subs(pairs), math.sqrt((ints ** 2).sum()))
            expect_matrix("subs", tag + " subs", lambda: m.subs(pairs), np.array(
                [[sym.integer(int(v)) for v in row] for row in ints], dtype=object))
            expect_matrix("sym.subs", tag + " sym.subs", lambda: sym.subs(m, pairs), np.array(
                [[sym.integer(int(v)) for v in row] for row in ints], dtype=object))
        if e.next():
            if r == c:
                g = (ints * ints + np.eye(r, dtype=int) * 7) % 11
                for f in (lambda a: a.det(), sym.det):
                    expect_value("det", tag + " det", lambda: f(sym.matrix(g.tolist())), round(np.linalg.det(g)),
                                 1e-9)
            else:
                expect_raise("det", tag + " det", lambda: m.det())
                expect_raise("det", tag + " sym.det", lambda: sym.det(m))
        if e.next():
            f = ref * x ** 2 + 3
            fm = sym.matrix(f)
            expect_matrix("m.diff", tag + " diff", lambda: fm.diff(x), ref * x * 2)
            expect_matrix("m.diff", tag + " diff order 2", lambda: fm.diff(x, order=2), ref * 2)
            expect_matrix("m.diff", tag + " diff order 2 (positional)", lambda: fm.diff(x, 2), ref * 2)
        if r == 1 or c == 1:
            n = r * c
            f = [SYM[0][0] * k + SYM[0][1] ** (k + 2) for k in range(n)]
            fm = sym.matrix(f).reshape(r, c)
            want = np.array([[sym.integer(k), (k + 2) * SYM[0][1] ** (k + 1)] for k in range(n)], dtype=object)
            v = [SYM[0][0], SYM[0][1]]
            for name, g in (("m.jacobian(list)", lambda: fm.jacobian(v)),
                            ("m.jacobian(vector)", lambda: fm.jacobian(sym.vector(*v))),
                            ("m.jacobian(row)", lambda: fm.jacobian(sym.row_vector(*v))),
                            ("sym.jacobian(list, list)", lambda: sym.jacobian(f, v)),
                            ("sym.jacobian(m, list)", lambda: sym.jacobian(fm, v)),
                            ("sym.jacobian(list, m)", lambda: sym.jacobian(f, sym.vector(*v)))):
                if e.next():
                    expect_matrix(name, "%s %s" % (tag, name), g, want)
        elif e.next():
            expect_raise("m.jacobian", tag + " jacobian of a matrix", lambda: m.jacobian([x]))
            expect_raise("m.jacobian", tag + " jacobian by a matrix", lambda: sym.jacobian([x], m))
        # The second operand: all shapes.
        for r2, c2 in shapes + [(5, 1), (1, 5)]:
            t2 = "%s, %dx%d" % (tag, r2, c2)
            b = np.empty((r2, c2), dtype=object)
            for i in range(r2):
                for j in range(c2):
                    b[i, j] = sym.symbol("n_%d_%d" % (i, j))
            mb = sym.matrix(b)
            eq = (r, c) == (r2, c2)
            if e.next():
                expect_matrix("m + n", t2 + " m + n", lambda: m + mb, ref + b if eq else RAISED)
                expect_matrix("m - n", t2 + " m - n", lambda: m - mb, ref - b if eq else RAISED)
            if e.next():
                expect_matrix("m * n", t2 + " m * n", lambda: m * mb, ref.dot(b) if c == r2 else RAISED)
            if e.next():
                hs = np.hstack([ref, b]) if r == r2 else RAISED
                vs = np.vstack([ref, b]) if c == c2 else RAISED
                for k, (f, w) in {"hstack": (lambda: sym.hstack([m, mb]), hs), "row_join": (lambda: m.row_join(mb), hs),
                                  "vstack": (lambda: sym.vstack([m, mb]), vs), "col_join": (lambda: m.col_join(mb), vs),
                                  "matrix from blocks": (lambda: sym.matrix([m, mb]), vs)}.items():
                    expect_matrix(k, "%s %s" % (t2, k), f, w)
                d = np.full((r + r2, c + c2), sym.zero, dtype=object)
                d[:r, :c] = ref
                d[r:, c:] = b
                expect_matrix("diag of matrices", t2 + " diag", lambda: sym.diag([m, mb]), d)
            if e.next():
                cond = x < 1
                w = RAISED
                if eq:
                    w = np.empty((r, c), dtype=object)
                    for i in range(r):
                        for j in range(c):
                            w[i, j] = sym.where(cond, ref[i, j], b[i, j])
                expect_matrix("where of matrices", t2 + " where", lambda: sym.where(cond, m, mb), w)
                expect_matrix("where of matrices", t2 + " where(c=, a=, b=)", lambda: sym.where(c=cond, b=mb, a=m), w)
            if e.next():
                e.about(t2 + " equality")
                e.decided()
                m2 = sym.matrix(ref.tolist())
                if not (m == m2) or hash(m) != hash(m2) or not m.is_identical_to(m2) or m != m2:
                    e.violation("matrix equality", t2 + ": equal matrices differ")
                if m == mb or not (m != mb):
                    e.violation("matrix equality", t2 + ": different matrices are equal")
        # Three blocks.
        if r <= 2 and c <= 3:
            for (r2, c2), (r3, c3) in itertools.product([(a, b) for a in (1, 2) for b in (1, 2, 3)], repeat=2):
                if e.next():
                    b, d = np.full((r2, c2), x * 2, dtype=object), np.full((r3, c3), x * 3, dtype=object)
                    t3 = "%s, %dx%d, %dx%d" % (tag, r2, c2, r3, c3)
                    l = [m, sym.matrix(b), sym.matrix(d)]
                    expect_matrix("hstack", t3 + " hstack", lambda: sym.hstack(l),
                                  np.hstack([ref, b, d]) if r == r2 == r3 else RAISED)
                    expect_matrix("vstack", t3 + " vstack", lambda: sym.vstack(l),
                                  np.vstack([ref, b, d]) if c == c2 == c3 else RAISED)
                    z = np.full((r + r2 + r3, c + c2 + c3), sym.zero, dtype=object)
                    z[:r, :c] = ref
                    z[r:r + r2, c:c + c2] = b
                    z[r + r2:, c + c2:] = d
                    expect_matrix("diag of matrices", t3 + " diag", lambda: sym.diag(l), z)
        if e.next():
            expect_raise("bool(m)", tag + " bool(m)", lambda: bool(m))
    for r in range(-2, 6):
        for c in [None] + list(range(-2, 6)):
            if e.next():
                n = r if c is None else c
                want = RAISED
                if r > 0 and n > 0:
                    want = np.full((r, n), sym.zero, dtype=object)
                    for i in range(min(r, n)):
                        want[i, i] = sym.one
                expect_matrix("eye", "eye(%s, %s)" % (r, c), lambda: sym.eye(r) if c is None else sym.eye(r, c), want)
                if c is not None:
                    want = np.full((r, c), sym.zero, dtype=object) if r > 0 and c > 0 else RAISED
                    expect_matrix("zeros", "zeros(%s, %s)" % (r, c), lambda: sym.zeros(r, c), want)
                    if want is RAISED:
                        expect_matrix("matrix_of_symbols", "matrix_of_symbols(%s, %s)" % (r, c),
                                      lambda: sym.matrix_of_symbols("a", r, c), RAISED)
    x = sym.symbol("x")
    for n in range(1, 6):
        if e.next():
            l = [x * k for k in range(1, n + 1)]
            want = np.full((n, n), sym.zero, dtype=object)
            for k in range(n):
                want[k, k] = l[k]
            expect_matrix("diag of scalars", "diag of %d" % n, lambda: sym.diag(l), want)
            expect_matrix("vector", "vector of %d" % n, lambda: sym.vector(*l), np.array(l, dtype=object).reshape(n, 1))
            expect_matrix("row_vector", "row_vector of %d" % n, lambda: sym.row_vector(*l),
                          np.array(l, dtype=object).reshape(1, n))
    # Rows of unequal or no length, in every arrangement of up to three rows.
    for lens in itertools.chain.from_iterable(itertools.product(range(0, 4), repeat=k) for k in range(1, 4)):
        for kind in ("list", "tuple", "generator"):
            if e.next():
                rows = [[x + i * 5 + j for j in range(n)] for i, n in enumerate(lens)]
                ok = len(set(lens)) == 1 and lens[0] > 0
                want = np.array(rows, dtype=object).reshape(len(lens), lens[0]) if ok else RAISED
                conv = {"list": list, "tuple": tuple, "generator": lambda v: (y for y in v)}[kind]
                expect_matrix("rows without elements" if lens[0] == 0 else "rows of different length",
                              "matrix of %s rows with lengths %s" % (kind, lens),
                              lambda: sym.matrix([conv(v) for v in rows]), want)
    for name, f in (("matrix([])", lambda: sym.matrix([])), ("vector()", lambda: sym.vector()),
                    ("row_vector()", lambda: sym.row_vector()), ("hstack([])", lambda: sym.hstack([])),
                    ("vstack([])", lambda: sym.vstack([])), ("diag([])", lambda: sym.diag([])),
                    ("matrix(['a'])", lambda: sym.matrix(["a"])), ("vector('a')", lambda: sym.vector("a")),
                    ("matrix([[1], 2])", lambda: sym.matrix([[1], 2])), ("matrix([1, [2]])", lambda: sym.matrix([1, [2]])),
                    ("matrix(1)", lambda: sym.matrix(1)), ("matrix(empty generator)", lambda: sym.matrix(_ for _ in ())),
                    ("empty slice twice", lambda: sym.matrix([sym.eye(2)[2:], [1, 2, 3]])),
                    ("2 / m", lambda: 2 / sym.eye(2)), ("1 - m", lambda: 1 - sym.eye(2)), ("m + 1", lambda: sym.eye(2) + 1),
                    ("m + x", lambda: sym.eye(2) + sym.symbol("x")), ("m ** 2", lambda: sym.eye(2) ** 2),
                    ("m < m", lambda: sym.eye(2) < sym.eye(2)), ("x / m", lambda: sym.symbol("x") / sym.eye(2)),
                    ("x + m", lambda: sym.symbol("x") + sym.eye(2))):
        if e.next():
            expect_raise(name, name, f)


# ---------------------------------------------------------------- scalar operators
VALUES = [-3, -2, -1, 0, 1, 2, 3, -1.5, -0.5, 0.25, 0.5, 1.5, 2.5, 0.0, 1.0]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "**": operator.pow,
       "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
X, Y = sym.symbol("x"), sym.symbol("y")


def operands(v, var):
    """(kind, operand, substitutions) for value v."""
    out = [("variable", var, [(var, v)]), ("expression", var + 1, [(var, v - 1)]), ("Expr", sym.Expr(v), [])]
    if isinstance(v, int):
        out += [("int", v, []), ("np.int64", np.int64(v), []), ("integer", sym.integer(v), [])]
        if v in (0, 1):
            out += [("bool", bool(v), [])]
    else:
        out += [("float", v, []), ("np.float64", np.float64(v), []), ("float_constant", sym.float_constant(v), [])]
        n, d = v.as_integer_ratio()
        out += [("rational", sym.rational(n, d), [])]
    return out


def reference(op, a, b):
    try:
        if op == "**" and a == 0 and b <= 0:
            return None
        if op == "**":
            r = a ** b
            return r if isinstance(r, complex) else float(r)
        return OPS[op](a, b)
    except (ZeroDivisionError, OverflowError):
        return None


def operators():
    for a, b in itertools.product(VALUES, VALUES):
        for (ka, oa, sa), (kb, ob, sb) in itertools.product(operands(a, X), operands(b, Y)):
            if not (isinstance(oa, sym.Expr) or isinstance(ob, sym.Expr)):
                continue
            for op, f in OPS.items():
                if not e.next():
                    continue
                if ka.startswith("np.") and not isinstance(ob, sym.Expr):
                    continue
                want = reference(op, a, b)
                about = "%s %r %s %s %r" % (ka, a, op, kb, b)
                e.about(about)
                if want is None:
                    continue

                def run():
                    r = f(oa, ob)
                    if sa + sb:
                        r = r.subs(sa + sb)
                    return r
                expect_value("%s %s %s" % (ka, op, kb), about, run, want)
        if e.next():
            for op, g in {"pow": sym.pow, "max": sym.max, "min": sym.min, "atan2": sym.atan2}.items():
                want = {"pow": lambda: reference("**", a, b), "max": lambda: max(a, b), "min": lambda: min(a, b),
                        "atan2": lambda: None if a == 0 and b == 0 else math.atan2(a, b)}[op]()
                names = {"pow": ("base", "exp"), "max": ("a", "b"), "min": ("a", "b"), "atan2": ("y", "x")}[op]
                if want is None:
                    continue
                for ka, oa, sa in operands(a, X):
                    for kb, ob, sb in operands(b, Y):
                        expect_value("sym." + op, "%s(%s %r, %s %r)" % (op, ka, a, kb, b),
                                     lambda: g(oa, ob).subs(sa + sb), want)
                expect_value("sym." + op, "%s(%s=%r, %s=%r)" % (op, names[1], b, names[0], a),
                             lambda: g(**{names[1]: b, names[0]: a}), want)
        for name, g, ref in (("lt", sym.lt, a < b), ("le", sym.le, a <= b), ("gt", sym.gt, a > b),
                             ("ge", sym.ge, a >= b), ("eq", sym.eq, a == b)):
            if e.next():
                for ka, oa, sa in operands(a, X):
                    for kb, ob, sb in operands(b, Y):
                        about = "%s(%s %r, %s %r)" % (name, ka, a, kb, b)
                        expect_value("sym." + name, about, lambda: g(oa, ob).subs(sa + sb) if sa + sb else g(oa, ob),
                                     ref)
                        expect_value("iverson", "iverson " + about,
                                     lambda: sym.iverson(g(oa, ob)).subs(sa + sb), int(ref))
                        expect_value("sym.where", "where " + about,
                                     lambda: sym.where(g(oa, ob), X + 11, Y - 7).subs([(X, a), (Y, b)]).subs(sa + sb)
                                     if ka != "expression" and kb != "expression" else
                                     sym.where(g(oa, ob), 5, 9).subs(sa + sb),
                                     (a + 11 if ref else b - 7) if ka != "expression" and kb != "expression" else
                                     (5 if ref else 9))
                expect_value("sym." + name, "%s(b=%r, a=%r)" % (name, b, a), lambda: g(b=b, a=a), ref)
    for v in VALUES:
        for k, o, s in operands(v, X):
            if not e.next():
                continue
            if isinstance(o, sym.Expr):
                expect_value("-x", "-(%s %r)" % (k, v), lambda: (-o).subs(s), -v)
                expect_value("abs(x)", "abs(%s %r)" % (k, v), lambda: abs(o).subs(s), abs(v))
                expect_raise("bool(x)", "bool(%s %r)" % (k, v), lambda: bool(o))
            expect_value("sym.addition", "addition %s %r" % (k, v), lambda: sym.addition([o, X, 2]).subs(s + [(X, v)]),
                         2 * v + 2 if k != "expression" else None) if k not in ("expression",) else None
            if k != "expression":
                expect_value("sym.multiplication", "multiplication %s %r" % (k, v),
                             lambda: sym.multiplication([o, Y, 3]).subs(s + [(Y, 2)]), 6 * v)
    for n, d in itertools.product(range(-6, 7), repeat=2):
        if e.next():
            if d == 0:
                expect_raise("rational", "rational(%d, 0)" % n, lambda: sym.rational(n, d))
            else:
                expect_value("rational", "rational(%d, %d)" % (n, d), lambda: sym.rational(n, d), n / d)
                expect_value("rational", "rational(d=%d, n=%d)" % (d, n), lambda: sym.rational(d=d, n=n), n / d)
    for n in (0, 1, -1, 2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 2 ** 64, -2 ** 63 - 1):
        if e.next():
            e.about("integer(%d)" % n)
            e.decided()
            v, x = call(lambda: np.array(sym.vector(sym.integer(n)))[0, 0])
            if -2 ** 63 <= n < 2 ** 63:
                if v is RAISED or int(v) != n:
                    e.violation("sym.integer", "integer(%d) = %r" % (n, v if v is not RAISED else x))
            elif v is not RAISED:
                e.violation("sym.integer", "integer(%d) does not raise: %r" % (n, v))
            for op, f in (("x + n", lambda: X + n), ("n * x", lambda: n * X), ("n - x", lambda: n - X)):
                r, x = call(f)
                if r is not RAISED:
                    want = {"x + n": 1.0 + n, "n * x": 1.0 * n, "n - x": n - 1.0}[op]
                    v, _ = call(lambda: num(r.subs(X, 1)))  # may raise for overflow
                    if v is not RAISED and not close(v, want):
                        e.violation("large integer operand", "%s with n = %d: %s" % (op, n, r))
                elif -2 ** 63 < n < 2 ** 63:
                    e.violation("large integer operand", "%s with n = %d raises %r" % (op, n, x))


# ---------------------------------------------------------------- functions
def sign(v):
    return (v > 0) - (v < 0)


FUNCS = {"log": math.log, "exp": math.exp, "cos": math.cos, "sin": math.sin, "tan": math.tan, "acos": math.acos,
         "asin": math.asin, "atan": math.atan, "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh,
         "acosh": math.acosh, "asinh": math.asinh, "atanh": math.atanh, "sqrt": math.sqrt, "abs": abs, "sign": sign,
         "floor": math.floor}


def functions():
    grid = VALUES + [-0.75, 0.75, 0.1, -0.1, 3.25, -2.25, 4, 7]
    for name, ref in FUNCS.items():
        f = getattr(sym, name)
        for v in grid:
            try:
                want = ref(v)
            except ValueError:
                want = {"log": cmath.log, "acos": cmath.acos, "asin": cmath.asin, "sqrt": cmath.sqrt,
                        "acosh": cmath.acosh, "atanh": cmath.atanh}[name]
                try:
                    want = want(complex(v, 0.0))
                except ValueError:
                    continue
            if isinstance(want, complex) and name != "sqrt" and name != "log":
                continue  # outside of the real domain: C02 decides
            for k, o, s in operands(v, X):
                if not e.next():
                    continue
                about = "%s(%s %r)" % (name, k, v)

                def run(o=o):
                    r = f(o)
                    return r.subs(s) if s else r
                expect_value("sym." + name, about, run, want)
                if k == "float":
                    expect_value("sym." + name, "%s(arg=%r)" % (name, v), lambda: f(arg=v), want)
        if e.next():
            expect_raise("sym." + name, name + "(m)", lambda: f(sym.eye(2)))
            expect_raise("sym." + name, name + "('x')", lambda: f("x"))
    for name, want in {"pi": math.pi, "E": math.e, "one": 1, "zero": 0, "I": 1j, "imaginary_unit": 1j}.items():
        if e.next():
            expect_value("sym." + name, name, lambda: getattr(sym, name), want)
    for name, want in (("true", True), ("false", False)):
        if e.next():
            expect_value("sym." + name, name, lambda: getattr(sym, name), want)
    if e.next():
        expect_raise("bool(x < y)", "bool(x < y)", lambda: bool(X < Y))
    # Evaluation of single expressions: the documentation of Expr.eval promises a number.
    for text, want in (("sym.integer(3)", 3),
                       ("sym.rational(1, 4)", 0.25),
                       ("sym.Expr(0.5)", 0.5),
                       ("sym.I", 1j),
                       ("sym.pi", math.pi),
                       ("sym.E", math.e),
                       ("sym.sqrt(3)", math.sqrt(3)),
                       ("sym.sin(3)", math.sin(3)),
                       ("1 + 2 * sym.I", 1 + 2j),
                       ("sym.exp(2)", math.exp(2)),
                       ("sym.cos(1) + sym.sqrt(2)", math.cos(1) + math.sqrt(2)),
                       ("sym.atan2(3, 4)", math.atan2(3, 4)),
                       ("sym.pi / 7", math.pi / 7)):
        if e.next():
            e.about("(%s).eval()" % text)
            e.decided()
            v, x = call(lambda: eval(text).eval())
            if v is RAISED or not close(v, want):
                e.violation("(%s).eval()" % text, "(%s).eval() %s, expected %r" % (
                    text, v if v is not RAISED else "raises %r" % x, want))
    if e.next():
        expect_raise("Expr.eval of a symbol", "x.eval()", lambda: X.eval())
        expect_raise("Expr.eval of a symbol", "(x + 1).eval()", lambda: (X + 1).eval())
    # Methods of scalar expressions.
    z = sym.symbol("z")
    f = X ** 3 * Y + sym.sin(X) * 2 + (X + 1) * (Y + 2)
    pts = [(a, b) for a in (-1.5, -1, 0, 0.5, 2) for b in (-2, 0.25, 1)]
    for a, b in pts:
        sub = [(X, a), (Y, b)]
        for key, g, want in (
                ("diff(x)", lambda: f.diff(X), 3 * a * a * b + 2 * math.cos(a) + b + 2),
                ("diff(y)", lambda: f.diff(Y), a ** 3 + a + 1),
                ("diff(x, 2)", lambda: f.diff(X, 2), 6 * a * b - 2 * math.sin(a)),
                ("diff(x, order=3)", lambda: f.diff(X, order=3), 6 * b - 2 * math.cos(a)),
                ("diff(var=z)", lambda: f.diff(var=z), 0),
                ("distribute", lambda: f.distribute(), a ** 3 * b + 2 * math.sin(a) + (a + 1) * (b + 2)),
                ("sym.distribute", lambda: sym.distribute(f), a ** 3 * b + 2 * math.sin(a) + (a + 1) * (b + 2)),
                ("collect(x)", lambda: f.distribute().collect(X), a ** 3 * b + 2 * math.sin(a) + (a + 1) * (b + 2)),
                ("collect([x, y])", lambda: f.distribute().collect([X, Y]),
                 a ** 3 * b + 2 * math.sin(a) + (a + 1) * (b + 2)),
                ("subs(x, y)", lambda: f.subs(X, Y), b ** 4 + 2 * math.sin(b) + (b + 1) * (b + 2)),
                ("subs([(x, y), (y, x)])", lambda: (X - 2 * Y).subs([(X, Y), (Y, X)]), -a),  # one after the other
                ("sym.subs(f, x, y)", lambda: sym.subs(f, X, Y), b ** 4 + 2 * math.sin(b) + (b + 1) * (b + 2)),
                ("sym.subs(f, target=, replacement=)", lambda: sym.subs(expr=f, target=Y, replacement=X),
                 a ** 4 + 2 * math.sin(a) + (a + 1) * (a + 2)),
                ):
            if e.next():
                expect_value("Expr." + key, "%s at %r" % (key, (a, b)), lambda: g().subs(sub), want)
    # Symbols: names and assumptions.
    for csv, names in (("x", ["x"]), ("x, y", ["x", "y"]), ("x y", ["x", "y"]), ("x,y,z", ["x", "y", "z"]),
                       (" a ,, b ", ["a", "b"]), ("a\tb\nc", ["a", "b", "c"]), ("x_1, alpha", ["x_1", "alpha"])):
        if e.next():
            e.about("symbols(%r)" % csv)
            e.decided()
            v, x = call(lambda: sym.symbols(csv))
            got = None if v is RAISED else [str(s) for s in (v if isinstance(v, list) else [v])]
            if got != names or (isinstance(v, list) and len(names) == 1):
                e.violation("sym.symbols", "symbols(%r) = %r" % (csv, v if v is not RAISED else x))
    # Every flag set, cleared or left to its default, for every way of declaring.
    sets = enumerations.NumberSet
    ways = []
    for flags in itertools.product([False, True, None], repeat=4):
        kw = {k: v for k, v in zip(("real", "positive", "nonnegative", "complex"), flags) if v is not None}
        on = [bool(v) for v in flags]
        for text, mk in (("symbols('q')", lambda kw=kw: [sym.symbols("q", **kw)]),
                         ("symbols('q, r')", lambda kw=kw: sym.symbols("q, r", **kw)),
                         ("symbols(['q', ['r', 's t']])", lambda kw=kw: sym.symbols(["q", ["r", "s t"]], **kw)),
                         ("unique_symbols(1)", lambda kw=kw: [sym.unique_symbols(1, **kw)]),
                         ("unique_symbols(3)", lambda kw=kw: sym.unique_symbols(3, **kw))):
            ways.append(("%s %r" % (text, kw), mk, on[3] and any(on[:3]), on[1], on[1] or on[2], any(on[:3])))
    for n, (pos, nonneg, real) in (("RealPositive", (1, 1, 1)), ("RealNonNegative", (0, 1, 1)), ("Real", (0, 0, 1)),
                                   ("Complex", (0, 0, 0)), ("Unknown", (0, 0, 0)), (None, (0, 0, 0))):
        kw = {} if n is None else {"set": getattr(sets, n)}
        for text, mk in (("symbol('q')", lambda kw=kw: [sym.symbol("q", **kw)]),
                         ("make_symbols('q', 'r')", lambda kw=kw: sym.make_symbols("q", "r", **kw)),
                         ("make_symbols(['q', 'r'])", lambda kw=kw: sym.make_symbols(["q", "r"], **kw))):
            ways.append(("%s %r" % (text, kw), mk, False, pos, nonneg, real))

    def flatten(v):
        for q in v:
            if isinstance(q, sym.Expr):
                yield q
            else:
                yield from flatten(q)
    for text, mk, refused, pos, nonneg, real in ways:
        if e.next():
            e.about(text)
            e.decided()
            vs, x = call(mk)
            if refused:
                if vs is not RAISED:
                    e.violation("symbol assumptions", "%s is accepted" % text)
                continue
            if vs is RAISED:
                e.violation("symbol assumptions", "%s raises %r" % (text, x))
                continue
            for v in flatten(vs):
                # What follows from an assumption, and from nothing weaker.
                for got, want, what in ((sym.sqrt(v ** 2) == v, nonneg, "sqrt(q**2) == q"), (abs(v) == v and not nonneg, False, "abs(q) == q"),
                                        (sym.sqrt(sym.exp(v)) == sym.exp(v / 2), real, "sqrt(exp(q)) == exp(q/2)"),
                                        (sym.sqrt(z / v ** 2) == sym.sqrt(z) / v, pos, "sqrt(z/q**2) == sqrt(z)/q"),
                                        ((v < 0) == sym.false and not nonneg, False, "(q < 0) == false"),
                                        ((v > 0) == sym.true and not pos, False, "(q > 0) == true")):
                    if bool(got) != bool(want):
                        e.violation("symbol assumptions", "%s: %s is %s" % (text, what, got))
    if e.next():
        e.decided()
        a, b = sym.make_symbols("a", "b")
        c = sym.make_symbols(["a", "b"])
        if [str(a), str(b)] != ["a", "b"] or [a, b] != list(c) or sym.symbol("a") != a:
            e.violation("make_symbols", "%s %s" % ((a, b), c))
        u, v = sym.unique_symbols(2)
        if u == v or sym.unique_symbols(1) == sym.unique_symbols(1):
            e.violation("unique_symbols", "unique symbols are equal")
        for bad in (lambda: sym.symbol(""), lambda: sym.make_symbols(1, 2), lambda: sym.unique_symbols(0)):
            expect_raise("symbol errors", "bad symbol", bad)
        if not (sym.get_variables(X * 2 + sym.sin(Y)) in ([X, Y], [Y, X])):
            e.violation("get_variables", str(sym.get_variables(X * 2 + sym.sin(Y))))
    # Order and equality.
    pool = [X, Y, sym.integer(1), sym.integer(2), sym.Expr(1.0), X + Y, X * Y, X ** 2, sym.sin(X), sym.sin(Y), X < Y]
    for a, b in itertools.product(pool, repeat=2):
        if e.next():
            e.about("%s == %s" % (a, b))
            e.decided()
            same = a is b
            if (a == b) != same or (a != b) == same or (same and hash(a) != hash(b)):
                e.violation("==", "%s == %s: %s" % (a, b, a == b))
            if isinstance(a, sym.Expr) and isinstance(b, sym.Expr):
                k, l = sym.compare(a, b), sym.compare(b, a)
                if k != -l or (k == 0) != same:
                    e.violation("sym.compare", "%s %s: %s %s" % (a, b, k, l))


# ---------------------------------------------------------------- quaternions
def quat_mul(p, q):
    return (p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3],
            p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
            p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1],
            p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0])


def conj(q):
    return (q[0], -q[1], -q[2], -q[3])


def rot(q):
    w, x, y, z = q
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def quaternions():
    vals = [tuple(v) for v in itertools.product((-1, 0, 2), repeat=4) if any(v)]
    if not TH:
        vals = vals[::3]

    def ev(key, about, f, want, tol=1e-11):
        e.about(about)
        e.decided()

        def g():
            r = f()
            if isinstance(r, list):
                r = sym.vector(*r)
            return r.eval()
        v, x = call(g)
        if v is RAISED or not np.allclose(np.asarray(v, dtype=complex).ravel(), np.asarray(want).ravel(), rtol=tol,
                                          atol=tol):
            e.violation("Quaternion." + key, "%s: %s, expected %s" % (about, v if v is not RAISED else repr(x), want))
        else:
            e.sample(lambda: "Quaternion %s = %s" % (about, np.asarray(v).ravel()))
    for q in vals:
        Q = Quaternion(*q)
        n2 = sum(c * c for c in q)
        n = math.sqrt(n2)
        u = tuple(c / n for c in q)
        U = Quaternion(*u)
        w, x, y, z = q
        if e.next():
            t = "q=%r" % (q,)
            ev("eval", t, lambda: Q, q)
            ev("to_list", t + " to_list", lambda: Q.to_list(), q)
            ev("to_vector_wxyz", t + " wxyz", lambda: Q.to_vector_wxyz(), q)
            ev("to_vector_xyzw", t + " xyzw", lambda: Q.to_vector_xyzw(), (x, y, z, w))
            ev("w x y z", t + " components", lambda: [Q.w, Q.x, Q.y, Q.z], q)
            ev("keywords", t + " keywords", lambda: Quaternion(z=z, y=y, x=x, w=w), q)
            for src in (list, tuple, lambda v: sym.vector(*v), lambda v: (c for c in v)):
                ev("from_wxyz", t + " from_wxyz", lambda: Quaternion.from_wxyz(src((w, x, y, z))), q)
                ev("from_xyzw", t + " from_xyzw", lambda: Quaternion.from_xyzw(src((x, y, z, w))), q)
            ev("conjugate", t + " conjugate", lambda: Q.conjugate(), conj(q))
            ev("inverse", t + " inverse", lambda: Q.inverse(), np.array(conj(q)) / n2)
            ev("norm", t + " norm", lambda: [Q.norm()], [n])
            ev("squared_norm", t + " squared_norm", lambda: [Q.squared_norm()], [n2])
            ev("normalized", t + " normalized", lambda: Q.normalized(), u)
            ev("to_rotation_matrix", t + " to_rotation_matrix", lambda: U.to_rotation_matrix(), rot(u))
            for v in ((1, 2, 3), (0, -1, 0.5), (4, 0, 0)):
                ev("rotate", t + " rotate %r" % (v,), lambda: U.rotate(sym.vector(*v)), rot(u) @ np.array(v))
            N = Quaternion.with_name("q")
            ev("with_name", t + " with_name", lambda: [c.subs([(sym.symbol("q_" + k), a) for k, a in
                                                               zip("wxyz", q)]) for c in N.to_list()], q)
            ev("subs", t + " subs", lambda: N.subs(sym.symbol("q_w"), w).subs(sym.symbol("q_x"), x).subs(
                sym.symbol("q_y"), y).subs(sym.symbol("q_z"), z), q)
        for p in vals:
            if e.next():
                ev("*", "%r * %r" % (q, p), lambda: Q * Quaternion(*p), quat_mul(q, p))
    for a in (-3, -1.5, -0.5, 0, 0.25, 1, 2, 3):
        for name, ax in (("x", (1, 0, 0)), ("y", (0, 1, 0)), ("z", (0, 0, 1))):
            want = (math.cos(a / 2),) + tuple(math.sin(a / 2) * c for c in ax)
            if e.next():
                ev("from_%s_angle" % name, "from_%s_angle(%r)" % (name, a),
                   lambda: getattr(Quaternion, "from_%s_angle" % name)(a), want)
                ev("from_angle_axis", "from_angle_axis(%r, %r)" % (a, ax),
                   lambda: Quaternion.from_angle_axis(a, *ax), want)
                ev("from_angle_axis", "from_angle_axis(%r, vector %r)" % (a, ax),
                   lambda: Quaternion.from_angle_axis(a, sym.vector(*ax)), want)
                ev("from_angle_axis", "from_angle_axis(keywords %r %r)" % (a, ax),
                   lambda: Quaternion.from_angle_axis(vz=ax[2], vx=ax[0], vy=ax[1], angle=a), want)
                ev("from_rotation_vector", "from_rotation_vector(%r, %r)" % (a, ax),
                   lambda: Quaternion.from_rotation_vector(*[a * c for c in ax], epsilon=1e-20), want)
                ev("from_rotation_vector", "from_rotation_vector(vector %r, %r)" % (a, ax),
                   lambda: Quaternion.from_rotation_vector(sym.vector(*[a * c for c in ax]), epsilon=1e-20), want)
    if e.next():
        ev("identity", "Quaternion()", lambda: Quaternion(), (1, 0, 0, 0))
        for bad in ([1, 2, 3], [1, 2, 3, 4, 5], [], sym.vector(1, 2, 3)):
            expect_raise("Quaternion.from_wxyz", "from_wxyz(%s)" % bad, lambda: Quaternion.from_wxyz(bad))
            expect_raise("Quaternion.from_xyzw", "from_xyzw(%s)" % bad, lambda: Quaternion.from_xyzw(bad))


# ---------------------------------------------------------------- sizes
def sizes():
    x = sym.symbol("x")
    ints = list(range(-10, 11))
    few = [slice(a, b, s) for s in (None, 2, 3, 4, 7, -1, -2, -4) for a in (None, 0, 1, 3, 5, 8, -1, -2, -6, -9) for b in (None, 0, 2, 6, 7, 9, -1, -3, -7, -10)]
    shapes = [(5, 7), (7, 5), (1, 8), (8, 1), (6, 6), (8, 2), (2, 8), (5, 5)]
    for r, c in shapes:
        m, ref = sym_matrix(r, c)
        tag = "%dx%d" % (r, c)
        for i in ints:
            if e.next():
                want = np_index(ref, i)
                if c == 1:
                    expect_scalar("m[i] on a column", "%s m[%d]" % (tag, i), lambda: m[i], RAISED if want is RAISED else want[0, 0])
                else:
                    expect_matrix("m[i]", "%s m[%d]" % (tag, i), lambda: m[i], want)
                for j in ints:
                    want = np_index(ref, (i, j))
                    expect_scalar("m[i, j]", "%s m[%d, %d]" % (tag, i, j), lambda: m[i, j], RAISED if want is RAISED else want[0, 0])
        for k, s in enumerate(few):
            if e.next():
                expect_matrix("m[slice]", "%s m[%s]" % (tag, sl(s)), lambda: m[s], np_index(ref, s))
                for i in (-8, -3, -1, 0, 1, 4, 6):
                    expect_matrix("m[i, slice]", "%s m[%d, %s]" % (tag, i, sl(s)), lambda: m[i, s], np_index(ref, (i, s)))
                    expect_matrix("m[slice, j]", "%s m[%s, %d]" % (tag, sl(s), i), lambda: m[s, i], np_index(ref, (s, i)))
                for t in few[k % 7::(11 if TH else 43)]:
                    expect_matrix("m[slice, slice]", "%s m[%s, %s]" % (tag, sl(s), sl(t)), lambda: m[s, t], np_index(ref, (s, t)))
        if e.next():
            rows = ref.tolist()
            expect_matrix("transpose", tag + " T", lambda: m.T, ref.T)
            expect_matrix("vec", tag + " vec", lambda: sym.vec(m), ref.reshape(-1, 1, order="F"))
            expect_matrix("matrix_of_symbols", tag, lambda: sym.matrix_of_symbols("m", r, c), ref)
            expect_matrix("iteration", tag + " rows of rows", lambda: sym.vstack([v if c > 1 else sym.vector(v) for v in m]), ref)
            expect_matrix("matrix from lists", tag, lambda: sym.matrix(rows), ref)
            expect_matrix("matrix from rows", tag, lambda: sym.matrix([sym.row_vector(*v) for v in rows]), ref)
            expect_matrix("hstack", tag + " of columns", lambda: sym.hstack([m[:, j:j + 1] for j in range(c)]), ref)
            expect_matrix("vstack", tag + " of rows", lambda: sym.vstack([m[i:i + 1, :] for i in range(r)]), ref)
            expect_matrix("unary_map", tag, lambda: m.unary_map(lambda v: v * x + 1), ref * x + 1)
            expect_matrix("m * scalar", tag, lambda: m * x, ref * x)
            for a in range(1, r * c + 1):
                if r * c % a == 0:
                    expect_matrix("reshape", "%s reshape(%d)" % (tag, a), lambda: m.reshape(a, r * c // a), ref.reshape(a, -1))
            z = np.full((r * 3, c * 3), sym.zero, dtype=object)
            for k in range(3):
                z[k * r:(k + 1) * r, k * c:(k + 1) * c] = ref * (k + 1)
            expect_matrix("diag of matrices", tag + " three times", lambda: sym.diag([m, m * 2, m * 3]), z)
            ints2 = (np.arange(r * c).reshape(r, c) * 7 + 3) % 13 - 6
            mi = sym.matrix(ints2.tolist())
            for name, f in (("np.array(m)", lambda: np.array(mi)), ("m.eval()", lambda: mi.eval())):
                e.about(tag + name)
                e.decided()
                v, err = call(f)
                if v is RAISED or v.shape != (r, c) or not (v == ints2).all():
                    e.violation(name, "%s: %r" % (tag, v if v is not RAISED else err))
            if r == c:
                expect_value("det", tag + " det", lambda: mi.det(), round(np.linalg.det(ints2)), 1e-7)
            if r == 1 or c == 1:
                f = [SYM[0][k] * SYM[0][(k + 1) % 8] + k for k in range(8)]
                want = np.array([[sym.addition([SYM[0][(k + 1) % 8] if k == j else sym.zero, SYM[0][k] if (k + 1) % 8 == j else sym.zero]) for j in range(8)] for k in range(8)], dtype=object)
                expect_matrix("m.jacobian", tag, lambda: sym.matrix(f).reshape(r, c).jacobian([SYM[0][j] for j in range(8)]), want)
        for r2, c2 in shapes:
            if e.next():
                b = np.empty((r2, c2), dtype=object)
                for i in range(r2):
                    for j in range(c2):
                        b[i, j] = sym.symbol("n_%d_%d" % (i, j))
                mb = sym.matrix(b)
                t2 = "%s, %dx%d" % (tag, r2, c2)
                expect_matrix("m + n", t2, lambda: m + mb, ref + b if (r, c) == (r2, c2) else RAISED)
                expect_matrix("m - n", t2, lambda: m - mb, ref - b if (r, c) == (r2, c2) else RAISED)
                expect_matrix("m * n", t2, lambda: m * mb, ref.dot(b) if c == r2 else RAISED)
                expect_matrix("hstack", t2, lambda: sym.hstack([m, mb, m]), np.hstack([ref, b, ref]) if r == r2 else RAISED)
                expect_matrix("vstack", t2, lambda: sym.vstack([mb, m, mb, m]), np.vstack([b, ref, b, ref]) if c == c2 else RAISED)
    # Chained operators: Python decides the grouping, the result is that of the numbers.
    chain = ["+", "-", "*", "/", "**"]
    vals = [1.5, 2, -0.5, 3, 0.25, -2]
    for n in (3, 4, 5) if TH else (3, 4):
        for ops in itertools.product(chain, repeat=n - 1):
            for off in range(len(vals)):
                if not e.next():
                    continue
                nums = [vals[(off + i) % len(vals)] for i in range(n)]
                text = "".join(("v%d" % i) + (ops[i] if i < n - 1 else "") for i in range(n))
                try:
                    want = eval(text, {"v%d" % i: v for i, v in enumerate(nums)})
                except (ZeroDivisionError, OverflowError):
                    continue
                if abs(want) > 1e6 or (want != 0 and abs(want) < 1e-6):
                    continue
                for mask in (range(1, 1 << n) if TH else (1, (1 << n) - 1, 2, 5)):
                    if isinstance(want, complex) and (mask != (1 << n) - 1 or ops.count("**") > 1):
                        continue  # complex operands: powers of and by complex numbers are left alone
                    syms = {"v%d" % i: SYM[0][i] if mask >> i & 1 else v for i, v in enumerate(nums)}
                    sub = [(SYM[0][i], nums[i]) for i in range(n) if mask >> i & 1]

                    def run():
                        r = eval(text, dict(syms))
                        return r.subs(sub) if isinstance(r, sym.Expr) else sym.Expr(r)
                    expect_value("chained operators", "%s with %s, mask %d" % (text, nums, mask), run, want, 1e-9)


# ---------------------------------------------------------------- rotations
def skew(v):
    return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]], dtype=float)


def so3_jacobian(v):
    """The integral of the rotations about parts of the vector."""
    t, k = float(np.linalg.norm(v)), skew(v)
    if t < 1e-9:
        return np.eye(3) + k / 2
    return np.eye(3) + (1 - math.cos(t)) / t ** 2 * k + (t - math.sin(t)) / t ** 3 * (k @ k)


def rotations():
    vectors = [tuple(c * k for c in v) for v in itertools.product((-1, 0, 1), repeat=3) if any(v) for k in (0.001, 0.3, 1.0, 1.7)]
    vectors += [(0.25, -1.5, 0.75), (2.0, 0.5, -1.0), (3.0, 0.0, 0.0), (0.0, -3.1, 0.0), (-0.1, 0.2, 3.0)]

    def ev(key, about, f, want, tol=1e-9):
        e.about(about)
        e.decided()
        v, x = call(lambda: (lambda r: sym.vector(*r).eval() if isinstance(r, list) else r.eval())(f()))
        if v is RAISED or not np.allclose(np.asarray(v, dtype=complex).ravel(), np.asarray(want, dtype=complex).ravel(), rtol=tol, atol=tol):
            e.violation(key, "%s: %s, expected %s" % (about, v if v is not RAISED else repr(x), want))

    w, x, y, z = sym.make_symbols("w", "x", "y", "z")
    for v in vectors:
        if not e.next():
            continue
        t = math.sqrt(sum(c * c for c in v))
        a = tuple(c / t for c in v)
        q = (math.cos(t / 2),) + tuple(math.sin(t / 2) * c for c in a)
        Q, R, V = Quaternion(*q), rot(q), sym.vector(*v)
        for eps in (None, 1e-6, 0) if t > 0.01 else (None, 1e-6):
            ev("left_jacobian_of_so3", "left_jacobian_of_so3(%r, %r)" % (v, eps), lambda: geometry.left_jacobian_of_so3(V, eps), so3_jacobian(v), 1e-6)
            ev("inverse_left_jacobian_of_so3", "inverse_left_jacobian_of_so3(%r, %r)" % (v, eps), lambda: geometry.inverse_left_jacobian_of_so3(V, eps), np.linalg.inv(so3_jacobian(v)), 1e-6)
            ev("left_jacobian_of_so3", "keywords %r" % (v,), lambda: geometry.left_jacobian_of_so3(epsilon=eps, w=V), so3_jacobian(v), 1e-6)
            if eps != 0:
                ev("Quaternion.from_rotation_vector", "from_rotation_vector(%r, %r)" % (v, eps), lambda: Quaternion.from_rotation_vector(V, epsilon=eps), q)
                ev("Quaternion.from_rotation_vector", "from_rotation_vector(x, y, z of %r, %r)" % (v, eps), lambda: Quaternion.from_rotation_vector(*v, epsilon=eps), q)
            for at2 in (True, False):
                for s in (1, -1):
                    P = Quaternion(*[s * c for c in q])
                    ev("Quaternion.to_rotation_vector", "%s to_rotation_vector(%r, %r)" % (v, eps, at2), lambda: P.to_rotation_vector(eps, at2), v, 1e-6)
                    ev("Quaternion.to_rotation_vector", "%s to_rotation_vector(keywords)" % (v,), lambda: P.to_rotation_vector(use_atan2=at2, epsilon=eps), v, 1e-6)
        for s in (1, -1):
            P = Quaternion(*[s * c for c in q])
            ev("Quaternion.to_rotation_vector", "%s to_rotation_vector()" % (v,), lambda: P.to_rotation_vector(), v)
            for eps in ((), (0,), (1e-8,), (None,)):
                ev("Quaternion.to_angle_axis", "%s to_angle_axis%r" % (v, eps), lambda: (lambda r: [r[0]] + r[1].to_flat_list())(P.to_angle_axis(*eps)), (t,) + a, 1e-6)
        ev("Quaternion.from_rotation_matrix", "from_rotation_matrix of %r" % (v,), lambda: Quaternion.from_rotation_matrix(sym.matrix(R.tolist())).to_rotation_matrix(), R)
        W = Quaternion(w, x, y, z)
        sub = list(zip((w, x, y, z), q))
        qw, qx, qy, qz = q
        ev("Quaternion.right_retract_derivative", "right_retract_derivative at %r" % (v,), lambda: W.right_retract_derivative().subs(sub),
           np.array([[-qx, -qy, -qz], [qw, -qz, qy], [qz, qw, -qx], [-qy, qx, qw]]) / 2)
        ev("Quaternion.right_local_coordinates_derivative", "right_local_coordinates_derivative at %r" % (v,), lambda: W.right_local_coordinates_derivative().subs(sub),
           np.array([[-qx, qw, qz, -qy], [-qy, -qz, qw, qx], [-qz, qy, -qx, qw]]) * 2)
    for name, bad in (("left_jacobian_of_so3", sym.eye(3)), ("inverse_left_jacobian_of_so3", sym.row_vector(1, 2, 3)), ("left_jacobian_of_so3", sym.vector(1, 2))):
        if e.next():
            expect_raise(name, "%s(%s)" % (name, bad), lambda: getattr(geometry, name)(bad, None))
    for bad in (sym.eye(2), sym.eye(3, 4), sym.vector(1, 2, 3)):
        if e.next():
            expect_raise("Quaternion.from_rotation_matrix", "from_rotation_matrix(%s)" % bad, lambda: Quaternion.from_rotation_matrix(bad))


# ---------------------------------------------------------------- factorizations, sub-expressions, annotations
def programs():
    # P L U Q == A, with the factors of the shapes and forms the names promise
    for r in range(1, 5):
        for c in range(r, 6):
            for k in range(12 if TH else 5):
                if not e.next():
                    continue
                a = np.array([[((i * 7 + j * 5 + i * j * k + k * 3) * (k + 1)) % 11 - 5 for j in range(c)] for i in range(r)])
                if np.linalg.matrix_rank(a) < r:
                    continue
                about = "full_piv_lu(%s)" % a.tolist()
                e.about(about)
                e.decided()
                v, x = call(lambda: [np.asarray(m.eval(), dtype=float) for m in sym.full_piv_lu(sym.matrix(a.tolist()))])
                if v is RAISED:
                    e.violation("full_piv_lu", "%s raises %r" % (about, x))
                    continue
                P, L, U, Q = v
                perm = all(sorted(m.ravel().tolist()) == [0.0] * (len(m) ** 2 - len(m)) + [1.0] * len(m) and abs(np.linalg.det(m)) > 0.5 for m in (P, Q))
                if (P.shape, L.shape, U.shape, Q.shape) != ((r, r), (r, r), (r, c), (c, c)) or not perm or not np.allclose(np.tril(L), L) or not np.allclose(np.diag(L), 1) or not np.allclose(np.triu(U), U) or not np.allclose(P @ L @ U @ Q, a):
                    e.violation("full_piv_lu", "%s: %s" % (about, v))
    # eliminate_subexpressions
    f = sym.Function("f")
    Z = sym.symbol("z")
    t = sym.cos(X) * Y
    ex = [X, X + Y, t, t + t ** 2, f(X + Y) * f(X + Y * Z) + f(X + Y), sym.sin(t) + sym.cos(t) + sym.exp(t) * t, (X + Y) ** 2 + (X + Y) ** 3 + sym.sin(X + Y),
          sym.where(X < Y, t, t + 1) + t, sym.where(t < 0, sym.sin(X) * 2, sym.sin(X) * 3), sym.max(t, X + 1) * (X + 1), X ** 2 + Y ** 2 + sym.sqrt(X ** 2 + Y ** 2), sym.integer(3), f(t, t), sym.atan2(t, X) * t]
    for x in ex + [sym.vector(p, q) for p in ex for q in ex[::3]] + [sym.matrix([[p, q, p * q], [q, p + 1, q * 2]]) for p in ex[::2] for q in ex]:
        for least in (None, 1, 2, 3, 4):
            for naming in ("default", "None", "custom"):
                if not e.next():
                    continue
                asked = []

                def make(i):
                    asked.append(i)
                    return sym.symbol("sub_%d" % i)
                args = [] if naming == "default" and least is None else [make if naming == "custom" else None] + ([least] if least is not None else [])
                if not args and isinstance(x, sym.Expr):
                    args = [None]
                about = "eliminate_subexpressions(%s, %s, %s)" % (x, naming, least)
                e.about(about)
                e.decided()
                got, err = call(lambda: sym.eliminate_subexpressions(x, *args))
                if got is RAISED:
                    if least != 1:  # at least two are required
                        e.violation("eliminate_subexpressions", "%s raises %r" % (about, err))
                    continue
                out, pairs = got
                n = len(pairs)
                names = [("sub_%d" if naming == "custom" else "v%d") % i for i in range(n)]
                if [str(v) for v, _ in pairs] != names or naming == "custom" and asked != list(range(n)):
                    e.violation("eliminate_subexpressions", "%s: variables %s, asked %s" % (about, pairs, asked))
                for i, (_, d) in enumerate(pairs):
                    later = set(names[i:])
                    if later & {str(v) for v in sym.get_variables(d)}:
                        e.violation("eliminate_subexpressions", "%s: %s is used before it is defined" % (about, pairs[i:]))
                back = out
                for v, d in reversed(pairs):
                    back = back.subs(v, d)
                a, b = (x, back) if isinstance(x, sym.MatrixExpr) else (sym.vector(x), sym.vector(back))
                same = tuple(a.shape) == tuple(b.shape) and all(p.is_identical_to(q) for p, q in zip(a.to_flat_list(), b.to_flat_list()))
                if not same:
                    pts = [[(X, 0.75), (Y, -1.5), (Z, 2.25)], [(X, -0.5), (Y, 0.25), (Z, -3)]]
                    for pt in pts:
                        va, vb = call(lambda: a.subs(pt).eval())[0], call(lambda: b.subs(pt).eval())[0]
                        if va is RAISED or vb is RAISED or not np.allclose(va, vb):
                            e.violation("eliminate_subexpressions", "%s: %s with %s" % (about, out, pairs))
                            break
                e.state(about + str(n))
    # annotations name their own shapes
    shapes = {"Vector%d" % n: (n, 1) for n in range(1, 10)}
    shapes.update({"Matrix%d" % n: (n, n) for n in range(1, 10)})
    shapes.update({"Matrix%dx%d" % (r, c): (r, c) for r in range(1, 10) for c in range(1, 10) if hasattr(ta, "Matrix%dx%d" % (r, c))})
    for name, shape in shapes.items():
        if not e.next():
            continue
        seen = []

        def fn(m):
            seen.append(m)
            return [cg.ReturnValue(m)]
        fn.__annotations__ = {"m": getattr(ta, name)}
        e.about(name)
        e.decided()
        d, x = call(lambda: cg.create_function_description(fn))
        got = None if d is RAISED else (tuple(seen[0].shape), (d.arguments[0].type.rows, d.arguments[0].type.cols), str(seen[0][shape[0] - 1, shape[1] - 1]))
        if got != (shape, shape, "m[%d, %d]" % (shape[0] - 1, shape[1] - 1)):
            e.violation("annotation " + name, "%s: %s %r" % (name, got, x))
    # descriptions: the flattened form has the values of the outputs
    bodies = {
        "products": lambda x, y, m: (t2 := sym.cos(x) * m[0, 1], [cg.ReturnValue(t2 * y + t2), cg.OutputArg(m * t2, "o"), cg.OutputArg(m.T * y, "p", is_optional=True)])[1],
        "branches": lambda x, y, m: [cg.ReturnValue(sym.where(x < y, m[0, 0] * x, sym.where(y < 0, m[1, 1], x * y))), cg.OutputArg(sym.max(x, m[1, 2]) * sym.abs(y), "s")],
        "matrix": lambda x, y, m: [cg.ReturnValue(m * m.T * x + sym.eye(2) * y)],
        "optional": lambda x, y, m: [cg.OutputArg(x ** 2 + sym.sqrt(x ** 2 + 1), "a", is_optional=True), cg.OutputArg(sym.vector(x, y, x * y), "b", is_optional=True), cg.OutputArg(x, "c")],
        "functions": lambda x, y, m: [cg.ReturnValue(sym.atan2(x, y) + sym.floor(x) * sym.sign(y) + sym.exp(x * y) ** 2), cg.OutputArg(m.diff(m[0, 1]), "j")],
        "iverson": lambda x, y, m: [cg.ReturnValue(sym.iverson(x < y) * 2), cg.OutputArg(m * sym.iverson(x <= y), "o")],
    }
    for name, body in bodies.items():
        for passes, binarize in itertools.product((None, 0, 1, 2, 4), (False, True)):
            if not e.next():
                continue
            about = "%s, passes %s, binarize %s" % (name, passes, binarize)
            e.about(about)
            e.decided()
            inputs, outs = {}, []

            def fn(x, y, m):
                inputs.update(x=x, y=y, m=m)
                r = body(x, y, m)
                outs.append(r)
                return r
            fn.__annotations__ = {"x": ta.FloatScalar, "y": ta.FloatScalar, "m": ta.Matrix2x3}
            params = None
            if passes is not None:
                params = cg.OptimizationParams()
                params.factorization_passes, params.binarize_operations = passes, binarize
                if (params.factorization_passes, params.binarize_operations) != (passes, binarize):
                    e.violation("OptimizationParams", about)
            elif binarize:
                continue
            d, x = call(lambda: cg.create_function_description(fn))
            if d is RAISED:
                e.violation("create_function_description", "%s raises %r" % (about, x))
                continue
            got, x = call(lambda: cg.cse_function_description(d, params) if params is not None else cg.cse_function_description(d))
            if got is RAISED:
                e.violation("cse_function_description", "%s raises %r" % (about, x))
                continue
            res, pairs = got
            want = {}
            for o in outs[0]:
                if isinstance(o, cg.ReturnValue):
                    want[("", cg.ExpressionUsage.ReturnValue if hasattr(cg, "ExpressionUsage") else "ReturnValue")] = o.expression
                else:
                    want[(o.name, "OptionalOutputArgument" if o.is_optional else "OutputArgument")] = o.expression
            want = {(k[0], str(k[1]).split(".")[-1]): v for k, v in want.items()}
            have = {(k.name, str(k.usage).split(".")[-1]): v for k, v in res.items()}
            if set(want) != set(have):
                e.violation("cse_function_description", "%s: outputs %s, expected %s" % (about, sorted(have), sorted(want)))
                continue
            for shift in (0, 1, 2):
                pt = [(inputs["x"], 0.75 - shift), (inputs["y"], -0.5 + 1.25 * shift)] + [(q, 0.5 * i - 1 + shift) for i, q in enumerate(inputs["m"].to_flat_list())]
                known = list(pt)
                for v, dd in pairs:
                    known.append((v, dd.subs(known)))

                def value(o, pt):
                    if isinstance(o, sym.BooleanExpr):
                        return np.array([[num(sym.iverson(o).subs(pt))]])
                    return np.asarray((o if isinstance(o, sym.MatrixExpr) else sym.vector(o)).subs(pt).eval(), dtype=complex)
                for k in want:
                    a, x1 = call(lambda: value(want[k], pt))
                    b, x2 = call(lambda: value(have[k], known))
                    if a is RAISED or b is RAISED or a.shape != b.shape or not np.allclose(a, b):
                        e.violation("cse_function_description", "%s: output %s is %s, expected %s (%r %r)" % (about, k, b, a, x1, x2))
                    e.decided()
            # The short cut is the sum of its steps.
            for gen in (wf.CppGenerator(), wf.RustGenerator(), wf.PythonGenerator()):
                for tern in (True, False):
                    kw = {} if params is None else {"optimization_params": params}
                    a, x1 = call(lambda: cg.generate_function(fn, gen, convert_ternaries=tern, **kw))
                    b, x2 = call(lambda: gen.generate(cg.transpile(cg.create_function_description(fn), convert_ternaries=tern, **kw)))
                    c, x3 = call(lambda: gen.generate(cg.transpile(d, params, tern)))
                    if a is RAISED and b is RAISED and c is RAISED and type(gen) is not wf.PythonGenerator and name == "matrix":
                        continue  # documented: needs another generator
                    if a is RAISED or a != b or a != c:
                        e.violation("generate_function", "%s %s %s: %r %r %r" % (about, type(gen).__name__, tern, x1, x2, x3))
    # files
    for k, code in enumerate(("", "a", "a\nb\n", "\u03b1 \\ \t\n\n", "x" * 100000)):
        if e.next():
            with tempfile.TemporaryDirectory() as d:
                for path in (d + "/f", d + "/a/b/c/f.h", pathlib.Path(d) / "q" / "g"):
                    for content in (code + "before" * 5, code):
                        call(lambda: cg.mkdir_and_write_file(code=content, path=path))
                        e.decided()
                        v, x = call(lambda: open(path, encoding="utf-8", newline="").read())
                        if v != content:
                            e.violation("mkdir_and_write_file", "%d: %r" % (k, x))


def descriptions():
    """Every sequence of calls that build a function description, against a list of what was asked for."""
    F, N, M23, M31 = ti.ScalarType(ti.NumericType.Float), ti.ScalarType(ti.NumericType.Integer), ti.MatrixType(2, 3), ti.MatrixType(3, 1)

    class Pair:
        def __init__(self, u, w):
            self.u, self.w = u, w

        def __eq__(self, o):
            return self.u == o.u and np.array_equal(self.w, o.w)
    S = ti.CustomType("Pair", [("u", F), ("w", ti.MatrixType(2, 1))], Pair)
    kinds = ["float", "int", "m23", "m31", "struct", "out_scalar", "out_matrix", "opt_scalar", "opt_matrix", "out_struct", "ret_scalar", "ret_matrix", "ret_struct", "again"]
    if not TH:
        kinds = [k for k in kinds if k not in ("m31", "out_struct")]
    inputs = {"float": F, "int": N, "m23": M23, "m31": M31, "struct": S}
    for depth in range(0, 6 if TH else 5):
        for seq in itertools.product(kinds, repeat=depth):
            if not e.next():
                continue
            about = "FunctionDescription: %s" % " ".join(seq)
            e.about(about)
            e.decided()
            d = cg.FunctionDescription("fn_name")
            if d.name != "fn_name" or len(d.arguments) or len(d.output_expressions()):
                e.violation("FunctionDescription", about + ": not empty at the start")
            terms, names, outs, ret, given, failed = [sym.integer(7)], [], {}, None, {}, False
            for i, k in enumerate(seq):
                n = "arg%d" % i
                total = sum((t * (j + 1) for j, t in enumerate(terms)), sym.integer(0))

                def values():
                    return [total + q for q in range(3)]
                if k == "again":
                    # a name that is taken, or a second return value, must be refused without effect
                    if names:
                        for f in (lambda: d.add_input_argument(names[-1][0], F), lambda: d.add_input_argument(names[0][0], M23), lambda: d.add_output_argument(names[-1][0], False, total)):
                            v, x = call(f)
                            if v is not RAISED:
                                e.violation("FunctionDescription.duplicate", about + ": a second argument of the same name")
                                failed = True
                    if ret is not None:
                        for f in (lambda: d.set_return_value(total), lambda: d.set_return_value(S, values())):
                            v, x = call(f)
                            if v is not RAISED:
                                e.violation("FunctionDescription.return", about + ": a second return value")
                                failed = True
                    continue
                if k in inputs:
                    ty = inputs[k]
                    v, x = call(lambda: d.add_input_argument(n, ty))
                    if v is RAISED:
                        e.violation("add_input_argument", "%s: %r" % (about, x))
                        failed = True
                        break
                    names.append((n, "Input", ty))
                    if k in ("float", "int"):
                        terms.append(v)
                        given[n] = (1.5 + i if k == "float" else 3 + i)
                        texts, want = [str(v)], [n]
                    elif k == "struct":
                        given[n] = Pair(0.25 - i, np.array([[1.0 + i], [-2.0]]))
                        texts, want = [str(v)], [n]
                    else:
                        terms += v.to_flat_list()[:3:2]
                        given[n] = np.array([[(i + 1) * 0.5 + r - c * 0.25 for c in range(ty.cols)] for r in range(ty.rows)])
                        texts, want = [str(q) for q in v.to_flat_list()], ["%s[%d, %d]" % (n, r, c) for r in range(ty.rows) for c in range(ty.cols)]
                    if texts != want:
                        e.violation("add_input_argument", "%s: %s is %s" % (about, n, texts))
                    continue
                if k.startswith("ret") and ret is not None:
                    continue
                opt = k.startswith("opt")
                what = k.split("_")[1]
                val = total if what == "scalar" else sym.matrix([[total, total * 2, total - 1], [total + q for q in (1, 2, 5)]]) if what == "matrix" else values()
                if k.startswith("ret"):
                    f = (lambda: d.set_return_value(S, val)) if what == "struct" else (lambda: d.set_return_value(val))
                    ret = (what, val)
                else:
                    f = (lambda: d.add_output_argument(n, opt, S, val)) if what == "struct" else (lambda: d.add_output_argument(n, opt, val))
                    names.append((n, "OptionalOutput" if opt else "Output", S if what == "struct" else M23 if what == "matrix" else F))
                    outs[n] = (what, val, opt)
                v, x = call(f)
                if v is RAISED:
                    e.violation("FunctionDescription", "%s: %s raises %r" % (about, k, x))
                    failed = True
                    break
            if failed:
                continue

            def describe(args):
                r = []
                for a in args:
                    r.append((a.name, str(a.direction).split(".")[-1], str(a.type), a.is_input, a.is_optional))
                return r
            want = [(n, t, str(ty), t == "Input", t == "OptionalOutput") for n, t, ty in names]
            if describe(d.arguments) != want:
                e.violation("FunctionDescription.arguments", "%s: %s, expected %s" % (about, describe(d.arguments), want))
                continue
            have = {(k.name, str(k.usage).split(".")[-1]): v for k, v in d.output_expressions().items()}
            expect = {(n, "OptionalOutputArgument" if o else "OutputArgument") for n, (_, _, o) in outs.items()} | ({("", "ReturnValue")} if ret else set())
            if set(have) != expect:
                e.violation("FunctionDescription.output_expressions", "%s: %s, expected %s" % (about, sorted(have), sorted(expect)))
                continue
            for (n, _), v in have.items():
                what, val = ret if n == "" else outs[n][:2]
                if what != "struct" and not v.is_identical_to(val):
                    e.violation("FunctionDescription.output_expressions", "%s: %s is %s" % (about, n, v))
            for a, (n, t, ty) in zip(d.arguments, names):
                v, x = call(a.create_symbolic_input)
                ok = v is not RAISED and (isinstance(v, sym.Expr) and str(v) == n if isinstance(ty, ti.ScalarType) else isinstance(v, sym.MatrixExpr) and tuple(v.shape) == (ty.rows, ty.cols) and str(v[0, 0]) == n + "[0, 0]" if isinstance(ty, ti.MatrixType) else str(v) == n)
                if not ok:
                    e.violation("create_symbolic_input", "%s: %s is %s %r" % (about, n, v, x))
            if not outs and not ret:
                continue
            t, x = call(lambda: cg.transpile(d))
            if t is RAISED:
                e.violation("transpile", "%s raises %r" % (about, x))
                continue
            sg = t.signature
            rt = None if ret is None else str({"scalar": F, "matrix": M23, "struct": S}[ret[0]])
            if sg.name != "fn_name" or describe(sg.arguments) != want or (None if sg.return_type is None else str(sg.return_type)) != rt:
                e.violation("FunctionSignature", "%s: %s %s %s" % (about, sg.name, describe(sg.arguments), sg.return_type))
            # run it, for every choice of the optional outputs
            class Gen(wf.PythonGenerator):
                pass
            code, x = call(lambda: Gen().generate(t))
            if code is RAISED:
                e.violation("generate", "%s raises %r" % (about, x))
                continue
            ns = {"np": np, "Pair": Pair}
            exec(code, ns)
            e.state(code)
            # the value of an expression: the inputs are bound in order of their terms
            pt, vals = [], [7.0]
            for n, dr, ty in names:
                if dr != "Input":
                    continue
                g = given[n]
                vals += [] if isinstance(g, Pair) else [float(g)] if not isinstance(g, np.ndarray) else [float(q) for q in g.ravel()[:3:2]]

            def number(upto):
                return sum(v * (j + 1) for j, v in enumerate(vals[:upto]))
            counts, c = {}, 1
            first_ret = None
            for i, k in enumerate(seq):
                if k in inputs:
                    c += 0 if k == "struct" else 1 if k in ("float", "int") else 2
                elif k.startswith("ret"):
                    first_ret = c if first_ret is None else first_ret
                else:
                    counts["arg%d" % i] = c

            def real(what, c):
                v = number(c)
                return v if what == "scalar" else np.array([[v, v * 2, v - 1], [v + 1, v + 2, v + 5]]) if what == "matrix" else Pair(v, np.array([[v + 1], [v + 2]]))
            opts = [n for n, (_, _, o) in outs.items() if o]
            for on in itertools.product((True, False), repeat=len(opts)):
                kw = dict(given)
                kw.update({"compute_" + n: b for n, b in zip(opts, on)})
                r, x = call(lambda: ns["fn_name"](**kw))
                expected = ([real(ret[0], first_ret)] if ret else []) + [None if n in opts and not on[opts.index(n)] else real(outs[n][0], counts[n]) for n in outs]
                got = list(r) if len(expected) > 1 and r is not RAISED else [r]

                def same(a, b):
                    if b is None or a is None:
                        return a is b
                    if isinstance(b, Pair):
                        return isinstance(a, Pair) and np.allclose(a.u, b.u) and np.shape(a.w) == (2, 1) and np.allclose(a.w, b.w)
                    return np.shape(a) == np.shape(b) and np.allclose(a, b)
                if r is RAISED or len(got) != len(expected) or not all(same(a, b) for a, b in zip(got, expected)):
                    e.violation("FunctionDescription.value", "%s, optional outputs %s: %r, expected %s (%r)" % (about, on, r, expected, x))
    # properties of the generators
    for t, w, i, o in itertools.product((cg.PythonGeneratorTarget.NumPy, cg.PythonGeneratorTarget.JAX, cg.PythonGeneratorTarget.PyTorch), (cg.PythonGeneratorFloatWidth.Float32, cg.PythonGeneratorFloatWidth.Float64), (1, 2, 4, 7), (False, True)):
        if e.next():
            g = cg.PythonGenerator(target=t, float_width=w, indentation=i, use_output_arguments=o)
            e.decided()
            if (g.target, g.float_width, g.indentation) != (t, w, i):
                e.violation("PythonGenerator", "%s %s %s" % (t, w, i))
            d = cg.FunctionDescription("f")
            d.set_return_value(d.add_input_argument("x", F) * 2)
            for line in g.generate(cg.transpile(d)).split("\n"):
                if line and not line.startswith("def") and (len(line) - len(line.lstrip())) != i:
                    e.violation("PythonGenerator", "indentation %d: %r" % (i, line))


indexing()
containers()
sizes()
rotations()
programs()
descriptions()
operators()
functions()
quaternions()
e.finish()
