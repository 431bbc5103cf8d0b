"""C19: conversion to and from SymPy preserves the value (and the form, where the forms coincide)."""
import ast, itertools
import mpmath
import sympy as sp
from explorer import Explorer
from wrenfold import exceptions, sym
from wrenfold.enumerations import NumberSet
from wrenfold.sympy_conversion import from_sympy, to_sympy

e = Explorer()
TH = e.thorough
mpmath.mp.dps = 40
F = mpmath.mpf
SNAP, TOL = F(10) ** -13, F(10) ** -10


class Undecided(Exception):
    pass


def norm(z):
    """Snaps values that are real / imaginary up to rounding; SymPy and wrenfold round floats differently."""
    if isinstance(z, mpmath.mpc):
        if not (mpmath.isfinite(z.real) and mpmath.isfinite(z.imag)):
            raise Undecided
        m = abs(z)
        re, im = (F(0) if abs(z.real) < SNAP * m else z.real), (F(0) if abs(z.imag) < SNAP * m else z.imag)
        z = re if im == 0 else mpmath.mpc(re, im)
    elif not mpmath.isfinite(z):
        raise Undecided
    if abs(z) > F(10) ** 8 or (z != 0 and abs(z) < F(10) ** -9):
        raise Undecided
    return z


def real(z):
    if isinstance(z, mpmath.mpc):
        raise Undecided
    return z


def opaque(name, args):
    """A fixed function of the values, different for every name and arity."""
    s = F(sum((i + 3) * ord(c) for i, c in enumerate(name)) % 97 + 11) / 61
    q = F(0)
    for i, a in enumerate(args):
        s += a * F(7 * i + 5) / (13 + 4 * i)
        q += a * a * F(3 + i) / (17 + i)
    return norm(mpmath.sin(s) + q + F(len(args)) / 7)


def compare(op, a, b):
    a, b = real(a), real(b)
    if op == "==":
        if a != b and abs(a - b) <= TOL * max(1, abs(a), abs(b)):
            raise Undecided
        return a == b
    if a != b and abs(a - b) <= TOL * max(1, abs(a), abs(b)):
        raise Undecided
    return a < b if op == "<" else a <= b


def power(a, b):
    if a == 0:
        if isinstance(b, mpmath.mpc) or b <= 0:
            if b == 0:
                return F(1)
            raise Undecided
        return F(0)
    if not isinstance(b, mpmath.mpc) and b == int(b) and abs(b) < 1000:
        return norm(a ** int(b))
    return norm(mpmath.exp(b * mpmath.log(a)))


def floor(a):
    a = real(a)
    n = mpmath.nint(a)
    if a != n and abs(a - n) < TOL:
        raise Undecided
    return mpmath.floor(a)


def sign(a):
    a = real(a)
    return F(0) if a == 0 else mpmath.sign(a)


def atan2(a, b):
    a, b = real(a), real(b)
    if (a == 0 and b <= 0):
        raise Undecided
    return mpmath.atan2(a, b)


def checked(f, poles=()):
    def g(a):
        if any(a == p for p in poles):
            raise Undecided
        # on a branch cut of an inverse function the two sides are equally good
        if f in CUT and not isinstance(a, mpmath.mpc) and CUT[f](a):
            raise Undecided
        if f in ICUT and isinstance(a, mpmath.mpc) and a.real == 0 and abs(a.imag) >= 1:
            raise Undecided
        return norm(f(a))
    return g


CUT = {mpmath.acos: lambda a: abs(a) > 1, mpmath.asin: lambda a: abs(a) > 1, mpmath.acosh: lambda a: a < 1,
       mpmath.atanh: lambda a: abs(a) >= 1}
ICUT = {mpmath.asinh, mpmath.atan}
FN = {n: checked(getattr(mpmath, n)) for n in
      ("cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp")}
FN["log"] = checked(mpmath.log, (0,))
FN["abs"] = lambda a: norm(abs(a))
FN["sign"] = sign
FN["floor"] = floor


# ---- value of a wrenfold expression: its printed form (C18) read by Python's own parser -------------------
ASTS = {}


def tree(text):
    t = ASTS.get(text)
    if t is None:
        t = ASTS[text] = ast.parse(text, mode="eval").body
        if len(ASTS) > 50000:
            ASTS.clear()
    return t


def derivative_value(base, steps):
    """Derivatives commute: a symmetric function of the variables and orders."""
    s = F(0)
    for v, n in steps:
        s += n * (mpmath.cos(v + F(1) / 3) + v * v / 5)
    return opaque("Derivative", [base, s])


def wf_value(t, env):
    k = type(t)
    if k is ast.Constant:
        if isinstance(t.value, bool):
            return t.value
        return F(t.value)
    if k is ast.Name:
        if t.id == "I":
            return mpmath.mpc(0, 1)
        if t.id == "pi":
            return mpmath.pi + 0
        if t.id == "E":
            return mpmath.e + 0
        if t.id in ("zoo", "nan"):
            raise Undecided
        return env[t.id]
    if k is ast.UnaryOp:
        return -wf_value(t.operand, env)
    if k is ast.BinOp:
        a, b, o = wf_value(t.left, env), wf_value(t.right, env), type(t.op)
        if o is ast.Add:
            return cancel(a, b)
        if o is ast.Sub:
            return cancel(a, -b)
        if o is ast.Mult:
            return norm(a * b)
        if o is ast.Div:
            if b == 0:
                raise Undecided
            return norm(a / b)
        return power(a, b)
    if k is ast.Compare:
        op = {ast.Lt: "<", ast.LtE: "<=", ast.Eq: "=="}[type(t.ops[0])]
        return compare(op, wf_value(t.left, env), wf_value(t.comparators[0], env))
    if k is ast.Call:
        n, a = t.func.id, t.args
        if n == "where":
            return wf_value(a[1] if wf_value(a[0], env) else a[2], env)
        if n == "iverson":
            return F(1 if wf_value(a[0], env) else 0)
        if n == "Derivative":
            steps = [(wf_value(a[1], env), a[2].value if len(a) > 2 else 1)]
            inner = a[0]
            while isinstance(inner, ast.Call) and inner.func.id == "Derivative":
                steps.append((wf_value(inner.args[1], env), inner.args[2].value if len(inner.args) > 2 else 1))
                inner = inner.args[0]
            return derivative_value(wf_value(inner, env), steps)
        if n == "Subs":
            return wf_value(a[0], {**env, a[1].id: wf_value(a[2], env)})
        v = [wf_value(x, env) for x in a]
        if n == "atan2":
            return atan2(*v)
        if n in FN and len(v) == 1:
            return FN[n](v[0])
        return opaque(n, v)
    raise RuntimeError("cannot read " + ast.dump(t))


def cancel(a, b):
    s = a + b
    m = abs(a) + abs(b)
    if m != 0 and abs(s) < SNAP * m:
        return F(0)
    return norm(s)


# ---- value of a SymPy object: by its tree, nothing of SymPy's numerics -------------------------------------
SPF = {"cos": "cos", "sin": "sin", "tan": "tan", "acos": "acos", "asin": "asin", "atan": "atan", "cosh": "cosh",
       "sinh": "sinh", "tanh": "tanh", "acosh": "acosh", "asinh": "asinh", "atanh": "atanh", "exp": "exp", "log": "log",
       "Abs": "abs", "sign": "sign", "floor": "floor"}


def sp_value(x, env):
    n = type(x).__name__
    if isinstance(x, sp.Symbol):
        return env[x.name]
    if isinstance(x, (bool, type(sp.true), type(sp.false))):
        return bool(x)
    if isinstance(x, sp.Rational):
        return F(int(x.p)) / F(int(x.q))
    if isinstance(x, sp.Float):
        return F(float(x))
    if x is sp.I:
        return mpmath.mpc(0, 1)
    if x is sp.pi:
        return mpmath.pi + 0
    if x is sp.E:
        return mpmath.e + 0
    if x in (sp.nan, sp.zoo, sp.oo, -sp.oo):
        raise Undecided
    if n == "Piecewise":
        for v, c in x.args:
            if sp_value(c, env):
                return sp_value(v, env)
        raise Undecided
    if n == "Subs":
        # One after the other, as SymPy's doit() does (and as nested Subs are merged).
        new = dict(env)
        for var, pt in reversed(list(zip(x.args[1], x.args[2]))):
            new = {**new, var.name: sp_value(pt, new)}
        return sp_value(x.args[0], new)
    if n == "Derivative":
        return derivative_value(sp_value(x.args[0], env), [(sp_value(v, env), int(k)) for v, k in x.args[1:]])
    if n == "And":
        return all([sp_value(a, env) for a in x.args])
    if n == "Or":
        return any([sp_value(a, env) for a in x.args])
    if n == "Not":
        return not sp_value(x.args[0], env)
    if n == "ITE":
        return sp_value(x.args[1] if sp_value(x.args[0], env) else x.args[2], env)
    a = [sp_value(y, env) for y in x.args]
    if n == "Add":
        s = F(0)
        for y in a:
            s = cancel(s, y)
        return s
    if n == "Mul":
        s = F(1)
        for y in a:
            s = norm(s * y)
        return s
    if n == "Pow":
        if a[0] == 0 and not (not isinstance(a[1], mpmath.mpc) and a[1] > 0):
            raise Undecided
        return power(*a)
    if n in SPF:
        if n == "exp" or len(a) == 1:
            return FN[SPF[n]](a[0])
    if n == "atan2":
        return atan2(*a)
    if n == "UnevaluatedExpr":
        return a[0]
    if n == "Max":
        return max(real(y) for y in a)
    if n == "Min":
        return min(real(y) for y in a)
    if n == "Heaviside":
        return F(1) if real(a[0]) > 0 else F(0) if real(a[0]) < 0 else a[1]
    if n == "StrictLessThan":
        return compare("<", *a)
    if n == "LessThan":
        return compare("<=", *a)
    if n == "StrictGreaterThan":
        return compare("<", a[1], a[0])
    if n == "GreaterThan":
        return compare("<=", a[1], a[0])
    if n == "Equality":
        return compare("==", *a)
    if n == "Unequality":
        return not compare("==", *a)
    if n == "re":
        return a[0].real
    if n == "im":
        return a[0].imag
    if n == "arg":
        return mpmath.arg(a[0]) + 0
    if n == "conjugate":
        return mpmath.conj(a[0])
    if isinstance(x, sp.core.function.AppliedUndef):
        return opaque(x.func.name, a)
    raise NotImplementedError(n)


# ---- points ------------------------------------------------------------------------------------------------
C = mpmath.mpc
XS = [F(5) / 4, F(-7) / 8, C(F(3) / 4, F(1) / 2), F(-9) / 4, C(F(-5) / 8, F(3) / 8), F(3) / 8]
YS = [F(1) / 2, F(3) / 2, C(F(-1) / 3, F(5) / 7), F(-3) / 8, C(F(1) / 4, F(-9) / 8), F(-2)]
ZS = [C(F(2) / 7, F(-4) / 9), F(11) / 8, F(-1) / 5, C(F(-3) / 2, F(1) / 9), F(9) / 7, F(7) / 5]
RS = [F(-3) / 4, F(5) / 2, F(2) / 9, F(-8) / 5, F(3) / 2, F(-1) / 8]
PS = [F(1) / 3, F(7) / 2, F(9) / 8, F(2), F(5) / 9, F(13) / 7]
NS = [F(4) / 3, F(1) / 4, F(3), F(8) / 7, F(2) / 5, F(5) / 3]
POINTS = [dict(x=XS[i], y=YS[i], z=ZS[i], r=RS[i], s=RS[(i + 2) % 6] + F(1) / 16, p=PS[i], n=NS[i]) for i in range(6)]
x, y = sym.symbol("x"), sym.symbol("y")
z = sym.symbol("z", set=NumberSet.Complex)
r, s = sym.symbol("r", set=NumberSet.Real), sym.symbol("s", set=NumberSet.Real)
p, n = sym.symbol("p", set=NumberSet.RealPositive), sym.symbol("n", set=NumberSet.RealNonNegative)
SX, SY = sp.symbols("x y")
SZ, SR, SS = sp.Symbol("z", complex=True), sp.Symbol("r", real=True), sp.Symbol("s", real=True)
SPP, SN = sp.Symbol("p", positive=True), sp.Symbol("n", nonnegative=True)
SYMBOLS = {"x": (x, SX), "y": (y, SY), "z": (z, SZ), "r": (r, SR), "s": (s, SS), "p": (p, SPP), "n": (n, SN)}


def differ(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a != b
    return abs(a - b) > TOL * max(1, abs(a), abs(b))


def agree(key, about, wt, so):
    """wt: text of a wrenfold expression, so: SymPy object."""
    done = 0
    for i, env in enumerate(POINTS):
        try:
            a = wf_value(tree(wt), env)
        except Undecided:
            continue
        try:
            b = sp_value(so, env)
        except Undecided:
            continue
        except NotImplementedError as u:
            e.count("sympy_heads_outside_the_reader:%s" % u)
            return done
        done += 1
        if differ(a, b):
            e.violation(key, "%s: point %d: wrenfold %s = %s, sympy %s = %s"
                        % (about, i, wt[:200], mpmath.nstr(a, 12), show(so)[:200], mpmath.nstr(b, 12)))
            break
    return done


def show(so):
    """SymPy's printers sort, which fails next to nan."""
    if not isinstance(so, sp.Basic) or not so.args:
        return str(so)
    return "%s(%s)" % (type(so).__name__, ", ".join(show(a) for a in so.args))


def outside(so):
    """SymPy heads that have no wrenfold counterpart."""
    return any(type(q).__name__ in ("re", "im", "arg", "conjugate", "Unequality", "And", "Or", "Not", "ITE", "Infinity",
                                    "NegativeInfinity", "AccumulationBounds", "polar_lift", "sec", "csc", "cot",
                                    "ceiling", "frac", "Dummy", "Mod", "Tuple_", "ComplexRootOf", "ConditionSet") or
               (type(q).__name__ in ("Max", "Min") and len(q.args) != 2)
               for q in sp.preorder_traversal(so))


def both_ways(key, w):
    """A wrenfold expression to SymPy and back."""
    text = str(w)
    if "$" in text:  # unique variables have no counterpart
        e.count("unique_variables")
        return
    e.state(text)
    for ev in (True, False):
        try:
            so = to_sympy(w, evaluate=ev)
        except (ValueError, TypeError) as u:
            # SymPy itself refuses orders of non-real numbers ("Invalid comparison ...", "not comparable")
            if any(m in str(u) for m in ("omparison", "omparable")):
                e.count("sympy_refuses")
                continue
            e.violation(key, "to_sympy(%s, evaluate=%s) raises %r" % (text, ev, u))
            continue
        done = agree(key, "to_sympy(evaluate=%s)" % ev, text, so)
        if done:
            e.decided()
        e.sample(lambda: "%s -> %s" % (text, show(so)))
        if outside(so):
            continue
        try:
            back = from_sympy(so)
        except (exceptions.ArithmeticError, exceptions.DomainError):
            e.count("overflow_on_the_way_back")
            continue
        except Exception as u:  # noqa: BLE001
            if any(m in str(u) for m in ("omparison", "omparable")):
                continue
            e.violation(key, "from_sympy(to_sympy(%s, evaluate=%s)) raises %r" % (text, ev, u))
            continue
        bt = str(back)
        if bt != text:
            e.count("equal_valued_not_identical")
        for i, env in enumerate(POINTS):
            try:
                a, b = wf_value(tree(text), env), wf_value(tree(bt), env)
            except Undecided:
                continue
            if differ(a, b):
                e.violation(key, "round trip (evaluate=%s) of %s gives %s: point %d: %s and %s"
                            % (ev, text, bt, i, mpmath.nstr(a, 12), mpmath.nstr(b, 12)))
                break
        if not ev and not any(k in text for k in ("where", "iverson", "Derivative", "Subs")):
            if not back.is_identical_to(w):
                e.violation(key, "round trip of %s is not identical: %s" % (text, bt))
            e.count("identities_checked")


FUNCS = ["cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh", "exp", "log",
         "abs", "sign", "floor", "sqrt"]
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
       "**": lambda a, b: a ** b}
NUMBERS = [(0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (3, 1), (10, 1), (1, 2), (-1, 2), (1, 3), (-2, 3), (5, 7), (7, 2), (-9, 4)]
FLOATS = [0.5, -1.5, 0.1, 1e-5, -2.25, 3.0, 12345.678]


def build(f):
    """Cases whose construction raises are not of interest here (C01, C02)."""
    try:
        return f()
    except (exceptions.WfException if hasattr(exceptions, "WfException") else Exception):
        return None


def wrenfold_pool():
    f, g = sym.Function("f"), sym.Function("g")
    leaves = [x, y, z, r, s, p, n, sym.pi, sym.E, sym.I, sym.nan, sym.zoo]
    leaves += [sym.rational(a, b) for a, b in NUMBERS] + [sym.float_constant(v) for v in FLOATS]
    q = list(leaves)
    q += [x + y, x - y, x * 2 - y, x * y, x / y, -x, -x * y, x ** 2, x ** -1, x ** -2, sym.sqrt(x), 1 / sym.sqrt(x), x ** y,
          sym.pow(2, x), sym.pow(-2, x), sym.pow(r, 3), sym.pow(p * x, sym.rational(1, 2)), sym.sqrt(n), sym.pow(x * y, sym.rational(1, 3)),
          sym.sqrt(r ** 2), sym.pow(x, sym.rational(2, 3)), (x + y) ** 2, (x + y) * z, x * sym.rational(-2, 3), x * 0.5, x + 1.5,
          sym.I * x, x + sym.I, sym.sqrt(2), sym.pow(3, sym.rational(-1, 3)), sym.pow(-1, sym.rational(1, 3)), sym.sqrt(-3),
          sym.exp(1), sym.exp(x), sym.log(x), sym.log(2), sym.exp(2), sym.exp(x) * sym.exp(y),
          sym.where(r < s, x, y), sym.where(r <= s, x, 2), sym.where(sym.eq(r, s), x, y), sym.where(r > s, r, s), sym.where(r < s, r, s),
          sym.where(s < r, s, r), sym.where(s <= r, s, r), sym.where(r <= s, s, r), sym.where(r < s, s, r), sym.max(r, s), sym.min(r, s), sym.max(r, 0), sym.min(2, s),
          sym.where(r < 0, 1, 0), sym.where(r < 0, 0, 1), sym.where(r < 0, sym.where(s < 0, x, y), z), sym.where(r < 0, x, sym.where(s < 0, y, 3)),
          sym.iverson(r < s), sym.iverson(r <= 1) * x, sym.iverson(sym.eq(r, s)), sym.max(sym.min(r, s), 0),
          sym.unevaluated(x + y), sym.unevaluated(x * y) * x, sym.unevaluated(x) + 1, sym.unevaluated(sym.unevaluated(x)),
          f(x), f(x, y), f(), f(f(x)), g(x + y, 2) * x, f(x).diff(x), f(x, y).diff(y), f(x, y).diff(x).diff(y), f(x).diff(x, 3),
          f(x ** 2).diff(x), f(x, x).diff(x), f(x + y, x * y).diff(x), f(x * 2).diff(x, 2), sym.derivative(sym.abs(x * y), x), sym.derivative(f(x, y), x, 2).diff(y),
          sym.substitution(f(x), x, y), sym.substitution(f(x, y), x, y), sym.substitution(f(x, y), x, y ** 2),
          sym.substitution(sym.substitution(f(x, y), x, y), y, sym.pi), sym.substitution(sym.substitution(f(x, y), y, x * 2), x, z),
          sym.substitution(f(x).diff(x), x, y + 1), sym.substitution(x + 3, x, y),
          sym.atan2(r, s), sym.atan2(r, 2), sym.atan2(-1, s), sym.atan2(y, x), sym.abs(r * 2), sym.sign(r) * s, sym.floor(r * 3)]
    for fn in FUNCS:
        for a in (x, x + y, r, p, n, -x, sym.rational(1, 2), sym.float_constant(0.5), x * 2, sym.I * r, x ** 2, sym.integer(3), -r):
            v = build(lambda: getattr(sym, fn)(a))
            if v is not None:
                q.append(v)
    seen, out = set(), []
    for v in q:
        if hash(v) not in seen:
            seen.add(hash(v))
            out.append(v)
    return out


def sympy_pool():
    f, g = sp.Function("f"), sp.Function("g")
    x, y, z, r, s, p, n = SX, SY, SZ, SR, SS, SPP, SN
    q = [x, y, z, r, s, p, n, sp.pi, sp.E, sp.I, sp.nan, sp.zoo] + [sp.Rational(a, b) for a, b in NUMBERS] + [sp.Float(v) for v in FLOATS]
    q += [x + y, x - y, x * y, x / y, -x * y, x ** 2, 1 / x ** 2, sp.sqrt(x), 1 / sp.sqrt(x), x ** y, 2 ** x, (-2) ** x, (x + y) ** 2, (x + y) * z,
          2 * (x + y), sp.Mul(2, x + y, evaluate=False), sp.Add(x, x, evaluate=False), sp.Mul(x, x, evaluate=False), sp.Mul(x, sp.Pow(x, -1, evaluate=False), evaluate=False),
          sp.Pow(x, 1, evaluate=False), sp.Pow(x, 0, evaluate=False), sp.Pow(sp.Pow(x, 2), sp.Rational(1, 2)), sp.Pow(4, sp.Rational(1, 2), evaluate=False), sp.Pow(8, sp.Rational(2, 3), evaluate=False),
          sp.Add(1, sp.Add(x, 2, evaluate=False), evaluate=False), sp.Mul(3, sp.Mul(x, 2, evaluate=False), evaluate=False), sp.Add(x, -x, evaluate=False), sp.Mul(0, x, evaluate=False),
          x * sp.Rational(-2, 3), x * 0.5, sp.I * x, sp.sqrt(2), sp.sqrt(-3), (-1) ** sp.Rational(1, 3), sp.sqrt(r ** 2), sp.exp(x), sp.exp(1), sp.E ** y, sp.log(x), sp.log(x, 2), sp.log(2), sp.exp(x) * sp.exp(y),
          sp.Max(r, s), sp.Min(r, s), sp.Max(r, 0), sp.Min(2, s), sp.Heaviside(r), sp.Heaviside(r - s, 1), sp.Heaviside(s, 0), sp.Heaviside(r, sp.nan),
          sp.Piecewise((x, r < s), (y, True)), sp.Piecewise((1, r < s), (0, True)), sp.Piecewise((0, r < s), (1, True)), sp.Piecewise((x, r < 0), (y, s < 0), (z, True)),
          sp.Piecewise((x, r < 0), (y, r < 1), (z, r < 2), (3, True)), sp.Piecewise((x, r <= s), (y, r > s)), sp.Piecewise((1, r < 0), (0, r < 1), (2, True)), sp.Piecewise((1, r >= s), (0, True)),
          sp.Piecewise((x, sp.Eq(r, s)), (y, True)), sp.Piecewise((2, r > s), (3, r > 0), (1, True)), sp.Piecewise((1, r > s), (0, r > 0)),
          sp.UnevaluatedExpr(x + y), sp.UnevaluatedExpr(x * y) * x, sp.UnevaluatedExpr(x) + 1,
          f(x), f(x, y), f(), f(f(x)), g(x + y, 2) * x, sp.Derivative(f(x), x), sp.Derivative(f(x, y), y), sp.Derivative(f(x, y), x, y), sp.Derivative(f(x, y), y, x, x), sp.Derivative(f(x), (x, 3)),
          sp.Derivative(f(x, y), (x, 2), (y, 3)), f(x ** 2).diff(x), f(x, x).diff(x), f(2 * x).diff(x), f(x + y, x * y).diff(x), sp.Derivative(sp.Derivative(f(x, y), x), y), sp.Derivative(x ** 2, x), sp.Derivative(sp.Abs(x * y), x),
          sp.Subs(f(x), x, y), sp.Subs(f(x, y), x, y), sp.Subs(f(x, y), (x, y), (z, r)), sp.Subs(f(x, y), (x, y), (r, x)), sp.Subs(f(x, y), (y, x), (r, s * 2)), sp.Subs(sp.Derivative(f(x), x), x, y + 1), sp.Subs(sp.Subs(f(x, y), x, y), y, z),
          sp.Subs(x + 3, x, y), sp.Subs(f(x, y, z), (x, y, z), (r, s, p)),
          sp.atan2(r, s), sp.atan2(r, 2), sp.atan2(-1, s), sp.Abs(r * 2), sp.sign(r) * s, sp.floor(r * 3)]
    for nm in FUNCS:
        fn = getattr(sp, {"abs": "Abs"}.get(nm, nm))
        for a in (x, x + y, r, p, n, -x, sp.Rational(1, 2), sp.Float(0.5), x * 2, sp.I * r, x ** 2, sp.Integer(3), -r):
            q.append(fn(a))
            if nm != "sqrt":
                q.append(fn(a, evaluate=False))
    out = []
    for v in q:
        if not any(v == u and type(v) is type(u) and sp.srepr(v) == sp.srepr(u) for u in out):
            out.append(v)
    return out


def from_case(key, so):
    if outside(so):
        return
    e.state(show(so))
    try:
        w = from_sympy(so)
    except (exceptions.ArithmeticError, exceptions.DomainError):
        e.count("overflow")
        return
    except exceptions.TypeError as u:
        if any(m in str(u) for m in ("omparison", "omparable", "complex")):
            return
        e.violation(key, "from_sympy(%s) raises %r" % (show(so), u))
        return
    except Exception as u:  # noqa: BLE001
        e.violation(key, "from_sympy(%s) raises %r" % (show(so), u))
        return
    e.sample(lambda: "%s -> %s" % (show(so), w))
    if agree(key, "from_sympy", str(w), so):
        e.decided()


def main():
    # wrenfold to SymPy and back
    W = wrenfold_pool()
    for w in W:
        if e.next():
            e.about(str(w))
            both_ways("W %s" % w, w)
    small = W[:31] + W[31:140]
    for i, a in enumerate(small):
        for j, b in enumerate(small):
            if not TH and (i >= 31 and j >= 31) and (i * 5 + j) % 7:
                continue
            for o, op in OPS.items():
                if e.next():
                    e.about("%s %s %s" % (a, o, b))
                    w = build(lambda: op(a, b))
                    if w is not None:
                        both_ways("W (%s) %s (%s)" % (a, o, b), w)
    rel = [r, s, p, x, r * 2, s - 1, sym.integer(0), sym.rational(-1, 2), sym.float_constant(1.5), sym.cos(r), sym.max(r, s)]
    for a in rel:
        for b in rel:
            for o in ("lt", "le", "gt", "ge", "eq"):
                if e.next():
                    c = build(lambda: getattr(sym, o)(a, b))
                    if c is not None:
                        both_ways("W %s(%s, %s)" % (o, a, b), c)
                if e.next():
                    w = build(lambda: sym.where(getattr(sym, o)(a, b), a, b))
                    if w is not None:
                        both_ways("W where(%s(%s, %s))" % (o, a, b), w)
                if e.next():
                    w = build(lambda: sym.where(getattr(sym, o)(a, b), b + x, a * y))
                    if w is not None:
                        both_ways("W where(%s(%s, %s), .., ..)" % (o, a, b), w)
                if e.next():
                    w = build(lambda: sym.where(getattr(sym, o)(a, b), 1, 0) + sym.iverson(getattr(sym, o)(b, a)))
                    if w is not None:
                        both_ways("W iverson(%s(%s, %s))" % (o, a, b), w)
    # SymPy to wrenfold
    Q = sympy_pool()
    for so in Q:
        if e.next():
            from_case("S %s" % show(so), so)
    q = [u for u in Q if not isinstance(u, sp.logic.boolalg.Boolean)][:100]
    con = {"+": sp.Add, "*": sp.Mul, "**": sp.Pow}
    for i, a in enumerate(q):
        for j, b in enumerate(q):
            if not TH and (i >= 33 and j >= 33) and (i * 5 + j) % 7:
                continue
            for o, c in con.items():
                for ev in (True, False):
                    if e.next():
                        e.about("%s(%s, %s, evaluate=%s)" % (o, show(a), show(b), ev))
                        try:
                            so = c(a, b, evaluate=ev)
                        except Exception:  # noqa: BLE001
                            continue
                        from_case("S (%s) %s (%s) %s" % (show(a), o, show(b), ev), so)
    srel = [SR, SS, SPP, SX, SR * 2, SS - 1, sp.Integer(0), sp.Rational(-1, 2), sp.Float(1.5), sp.cos(SR), sp.Max(SR, SS)]
    for a in srel:
        for b in srel:
            for c in (sp.Lt, sp.Le, sp.Gt, sp.Ge, sp.Eq):
                for ev in (True, False):
                    if e.next():
                        so = c(a, b, evaluate=ev)
                        from_case("S %s(%s, %s) %s" % (c.__name__, a, b, ev), so)
                    if e.next():
                        so = sp.Piecewise((a, c(a, b, evaluate=ev)), (b + 1, True), evaluate=ev)
                        from_case("S Piecewise %s(%s, %s) %s" % (c.__name__, a, b, ev), so)
    # Piecewise with every arrangement of values and conditions
    vals, conds = [sp.Integer(1), sp.Integer(0), SX, SR], [SR < SS, SR >= 0, sp.Eq(SR, SS), SS > 1]
    more = vals + [sp.Integer(2), sp.Integer(-1), sp.Rational(1, 2), sp.Float(1.0), sp.pi, SPP, SX * SY]
    for k in (1, 2, 3) if TH else (1, 2):
        for vs in itertools.product(more if k == 1 or (TH and k == 2) else vals, repeat=k + 1):
            for cs in itertools.permutations(conds, k):
                for last in (True, SS <= 2):
                    if e.next():
                        so = sp.Piecewise(*zip(vs, cs + (last,)), evaluate=False)
                        from_case("S %s" % show(so), so)
    # sizes: long sums, products and chains of both libraries, long piecewise
    base = [x, y, r, s * 2, p, -x, x ** 2, sym.rational(-2, 3), sym.cos(r), x * y, 1 / y, sym.sqrt(p), sym.where(r < s, x, y), sym.I,
            sym.Function("f")(x, y), sym.float_constant(-1.5), sym.pi, sym.exp(y), r - s, sym.max(r, s), sym.pow(x, y), sym.pow(n, sym.rational(3, 2))]
    ways = {"sum": lambda a, b, i: a + b, "difference": lambda a, b, i: b - a, "product": lambda a, b, i: a * b, "quotient": lambda a, b, i: b / a,
            "mixed": lambda a, b, i: a * b if i % 2 else a + b, "powers": lambda a, b, i: sym.pow(a, 2) + b if i % 2 else a * b,
            "choice": lambda a, b, i: sym.where(r < s + i, a, b), "tower": lambda a, b, i: sym.Function("g")(a, b) if i % 2 else sym.sin(a) - b}
    for k in (3, 4, 5, 7, 9) if TH else (3, 5, 8):
        for off in range(len(base)):
            for st in (1, 3, 5) if TH else (1, 5):
                for wn, way in ways.items():
                    if not e.next():
                        continue
                    e.about("%s %d %d %d" % (wn, k, off, st))

                    def make():
                        a = base[off]
                        for i in range(1, k):
                            a = way(a, base[(off + i * st) % len(base)], i)
                        return a
                    w = build(make)
                    if w is not None:
                        both_ways("W %s of %d from %d by %d" % (wn, k, off, st), w)
    sbase = [SX, SY, SR, SS * 2, SPP, -SX, SX ** 2, sp.Rational(-2, 3), sp.cos(SR), SX * SY, 1 / SY, sp.sqrt(SPP), sp.Piecewise((SX, SR < SS), (SY, True)), sp.I,
             sp.Function("f")(SX, SY), sp.Float(-1.5), sp.pi, sp.exp(SY), SR - SS, sp.Max(SR, SS), SX ** SY, SN ** sp.Rational(3, 2)]
    for k in (3, 4, 5, 7, 9) if TH else (3, 5, 8):
        for off in range(len(sbase)):
            for st in (1, 3, 5):
                args = [sbase[(off + i * st) % len(sbase)] for i in range(k)]
                for ev in (True, False):
                    for head in (sp.Add, sp.Mul):
                        if e.next():
                            so = head(*args, evaluate=ev)
                            from_case("S %s" % show(so), so)
                    if e.next():
                        so = sp.Function("h")(*args)
                        from_case("S %s" % show(so), so)
                if e.next():
                    so = args[0]
                    for i, a in enumerate(args[1:]):
                        so = (sp.Add, sp.Mul)[i % 2](so, a, evaluate=False)
                    from_case("S %s" % show(so), so)
                if e.next():
                    so = sp.Piecewise(*[(a, SR < SS + sp.Rational(3 * i - 4, 4)) for i, a in enumerate(args[:-1])], (args[-1], True), evaluate=False)
                    from_case("S %s" % show(so), so)
    # substitution for several variables
    f = sp.Function("f")
    pts = [SX, SY, SZ, SX * 2, SY + 1, sp.Integer(3), SR]
    for k in (1, 2, 3):
        for vs in itertools.permutations([SX, SY, SZ], k):
            for ps in itertools.product(pts, repeat=k):
                if k == 3 and not TH and ps[0] not in (SY, SZ, SR):
                    continue
                if e.next():
                    so = sp.Subs(f(SX, SY, SZ), vs, ps)
                    from_case("S %s" % show(so), so)
    # derivatives by several variables in every order
    for k in (1, 2, 3):
        for vs in itertools.product([SX, SY, SZ], repeat=k):
            for cnt in itertools.product((1, 2, 3), repeat=k):
                if e.next():
                    so = sp.Derivative(f(SX, SY, SZ), *zip(vs, cnt))
                    from_case("S %s" % show(so), so)
    # numbers
    ints = sorted({sg * ((1 << b) + d) for b in range(0, 70) for d in (-1, 0, 1) for sg in (1, -1)})
    for v in ints:
        if e.next():
            fits = -2 ** 63 <= v < 2 ** 63
            for so, ok in ((sp.Integer(v), fits), (sp.Rational(v, 3), None), (sp.Rational(5, v) if v % 5 and v else sp.Integer(v), None)):
                try:
                    w = from_sympy(so)
                except Exception:  # noqa: BLE001
                    if ok or (ok is None and max(abs(int(so.p)), int(so.q)) < 2 ** 63):
                        e.violation("number %s" % so, "from_sympy raises")
                    continue
                if ok is False:
                    e.violation("number %s" % so, "outside of 64 bits, converted to %s" % w)
                elif to_sympy(w) != so or str(w) != str(so):
                    e.violation("number %s" % so, "converted to %s, back %s" % (w, to_sympy(w)))
            e.decided()
    dbl = [sg * m * 2.0 ** k for k in range(-1074, 1023, 3 if TH else 13) for m in (1.0, 1.1, 1.9999999999999998, 1.0000000000000002, 1.5) for sg in (1, -1)] + [0.1, 1 / 3, 2 / 3, 1e22, 1e23, 123456789.123456789, 5e-324, 1.7976931348623157e308]
    for v in dbl:
        if e.next():
            so = to_sympy(sym.float_constant(v))
            if float(so) != v:
                e.violation("float %r" % v, "to_sympy gives %r" % so)
            w = from_sympy(sp.Float(v))
            if str(w) != str(sym.float_constant(v)) or float(str(w)) != v:
                e.violation("float %r" % v, "from_sympy gives %s" % w)
            e.decided()
    # names and number sets
    kw = {NumberSet.Unknown: {}, NumberSet.Complex: {"complex": True}, NumberSet.Real: {"real": True},
          NumberSet.RealNonNegative: {"nonnegative": True}, NumberSet.RealPositive: {"positive": True}}
    for name in ("x", "x_1", "alpha", "lambda", "Q", "E1", "N", "S", "a b", "a,b", "x:3", "x0:2", "(a", "a)", "a\\b", "f(x)", "", "\u03b1", "x'", "1x", "x.y", "[0]"):
        for st, k in kw.items():
            if e.next():
                w = build(lambda: sym.make_symbols(name, set=st) if False else sym.symbol(name, set=st))
                if w is None:
                    continue
                try:
                    so = to_sympy(w)
                    good = isinstance(so, sp.Symbol) and so == sp.Symbol(name, **k)
                    back = from_sympy(so) if good else None
                    if not good or not back.is_identical_to(w):
                        e.violation("name %r" % name, "to_sympy(%r, %s) gives %r, back %s" % (name, st, so, back))
                except Exception as u:  # noqa: BLE001
                    e.violation("name %r" % name, "%s raises %r" % (st, u))
                e.decided()
            if e.next():
                if name == "":
                    continue
                w = from_sympy(sp.Symbol(name, **k))
                if not w.is_identical_to(sym.symbol(name, set=st)):
                    e.violation("name %r" % name, "from_sympy gives %s" % w)
                e.decided()
    # SymPy assumptions that wrenfold knows only in part: never a set that the symbol may leave
    order = {"integer": NumberSet.Real, "rational": NumberSet.Real, "negative": NumberSet.Real, "nonpositive": NumberSet.Real, "zero": NumberSet.RealNonNegative,
             "imaginary": NumberSet.Complex, "even": NumberSet.Real, "prime": NumberSet.RealPositive, "nonzero": NumberSet.Real, "finite": NumberSet.Unknown,
             "commutative": NumberSet.Unknown, "irrational": NumberSet.Real, "algebraic": NumberSet.Complex, "extended_real": NumberSet.Unknown, "extended_positive": NumberSet.Unknown}
    for k, st in order.items():
        if e.next():
            w = from_sympy(sp.Symbol("q", **{k: True}))
            allowed = {NumberSet.Unknown, NumberSet.Complex, NumberSet.Real, NumberSet.RealNonNegative, NumberSet.RealPositive}
            keep = [u for u in allowed if w.is_identical_to(sym.symbol("q", set=u))]
            rank = [NumberSet.Unknown, NumberSet.Complex, NumberSet.Real, NumberSet.RealNonNegative, NumberSet.RealPositive]
            if len(keep) != 1 or rank.index(keep[0]) > rank.index(st):
                e.violation("assumption %s" % k, "from_sympy gives the set %s" % keep)
            e.decided()
    # matrices
    el = W[12:60]
    shapes = [(i, j) for i in range(5) for j in range(5)] + [(1, 6), (6, 1), (5, 3), (3, 7), (6, 6), (2, 9)]
    for rows, cols in shapes:
        if True:
            for off in range(0, len(el), 1 if TH else 5):
                if not e.next():
                    continue
                vals = [[el[(off + i * 7 + j * 3) % len(el)] for j in range(cols)] for i in range(rows)]
                key = "matrix %dx%d" % (rows, cols)
                m = build(lambda: sym.matrix(vals)) if rows and cols else build(lambda: sym.zeros(rows, cols))
                if m is None:
                    continue
                for ev in (True, False):
                    so = to_sympy(m, evaluate=ev)
                    if so.shape != (rows, cols):
                        e.violation(key, "to_sympy gives shape %s" % (so.shape,))
                        continue
                    for i in range(rows):
                        for j in range(cols):
                            if agree(key, "element", str(vals[i][j]), so[i, j]):
                                e.count("elements")
                    try:
                        back = from_sympy(so)
                        if tuple(back.shape) != (rows, cols):
                            e.violation(key, "from_sympy gives shape %s" % (back.shape,))
                        for i in range(rows):
                            for j in range(cols):
                                agree(key, "element back", str(back[i, j]), so[i, j])
                        for cls in (sp.ImmutableMatrix, sp.SparseMatrix, sp.ImmutableSparseMatrix):
                            b2 = from_sympy(cls(so))
                            if not b2.is_identical_to(back):
                                e.violation(key, "%s is converted to something else" % cls.__name__)
                    except Exception as u:  # noqa: BLE001
                        e.violation(key, "from_sympy raises %r" % u)
                e.decided()
                if rows * cols == 0:
                    break
    # what has no counterpart raises
    t = [sp.oo, -sp.oo, sp.gamma(SX), sp.Ne(SX, SY), sp.And(SR < SS, SR > 0), sp.Integral(SX, SX), sp.Sum(SX, (SX, 1, SY)), sp.Max(SR, SS, 2), sp.ceiling(SX), sp.cot(SX), sp.Dummy("d"),
         sp.Function("h", real=True)(SX), sp.MatrixSymbol("M", 2, 2), sp.Lambda(SX, SX), sp.Interval(0, 1), sp.EulerGamma, sp.GoldenRatio, sp.Mod(SX, 2), sp.factorial(SX), sp.re(SX)]
    for so in t:
        if e.next():
            try:
                w = from_sympy(so)
                e.violation("no counterpart: %s" % (so,), "converted to %s" % w)
            except (TypeError, NotImplementedError, exceptions.TypeError):
                pass
            e.decided()
    no = [sym.stop_derivative(x * y), sym.unique_symbols(1)]
    for w in no:
        if e.next():
            try:
                e.violation("no counterpart: %s" % (w,), "converted to %s" % to_sympy(w))
            except (TypeError, exceptions.TypeError):
                pass
            e.decided()


main()
e.finish()
