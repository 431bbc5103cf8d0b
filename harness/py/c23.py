"""C23: the syntax tree and the code generators as custom generators written in Python see them."""
import dataclasses, itertools, math, sys, types
from typing import Annotated
from explorer import Explorer
import wrenfold as wf
from wrenfold import ast, code_generation as cg, external_functions, sym, type_annotations, type_info

e = Explorer()
TH = e.thorough
sys.setrecursionlimit(20000)

# ---- the argument types ---------------------------------------------------------------------------------
M21 = Annotated[sym.MatrixExpr, type_annotations.Shape(rows=2, cols=1)]
M22 = Annotated[sym.MatrixExpr, type_annotations.Shape(rows=2, cols=2)]
M12 = Annotated[sym.MatrixExpr, type_annotations.Shape(rows=1, cols=2)]
T = dataclasses.make_dataclass("T", [("w", wf.FloatScalar)])
S = dataclasses.make_dataclass("S", [("u", wf.FloatScalar), ("m", M21), ("t", T)])
EF = external_functions.declare_external_function("ef", [("a", wf.FloatScalar)], wf.FloatScalar)
EM = external_functions.declare_external_function("em", [("a", wf.FloatScalar), ("b", wf.FloatScalar)], M21)
ES = external_functions.declare_external_function("es", [("a", wf.FloatScalar)], T)
NS = types.SimpleNamespace
ENVS = [dict(x=0.37, y=-1.21, k=3, p=NS(u=0.83, m=((1.3,), (-0.45,)), t=NS(w=0.61)), M=((0.29, -0.71), (1.7, 0.53))),
        dict(x=1.93, y=0.57, k=-2, p=NS(u=-0.28, m=((-0.9,), (0.15,)), t=NS(w=2.1)), M=((1.1, 0.47), (-0.2, 0.97)))]


def np_ef(a):
    return 0.5 * a + 0.3


def np_em(a, b):
    return ((a - 0.2 * b,), (0.7 * b,))


def np_es(a):
    return NS(w=a * a + 0.1)


# ---- terms: a symbolic value and its meaning on floats --------------------------------------------------
class Undefined(Exception):
    pass


class Term:
    def __init__(self, text, s, f):
        self.text, self.s, self.f = text, s, f  # s: arguments -> expression, f: environment -> float


def leaf(text, s, f):
    return Term(text, s, f)


LEAVES = [
    leaf("x", lambda a: a.x, lambda v: v["x"]),
    leaf("y", lambda a: a.y, lambda v: v["y"]),
    leaf("k", lambda a: a.k, lambda v: v["k"]),
    leaf("p.u", lambda a: a.p.u, lambda v: v["p"].u),
    leaf("p.m1", lambda a: a.p.m[1], lambda v: v["p"].m[1][0]),
    leaf("p.t.w", lambda a: a.p.t.w, lambda v: v["p"].t.w),
    leaf("M01", lambda a: a.M[0, 1], lambda v: v["M"][0][1]),
    leaf("2", lambda a: sym.integer(2), lambda v: 2),
    leaf("-1", lambda a: sym.integer(-1), lambda v: -1),
    leaf("1/2", lambda a: sym.rational(1, 2), lambda v: 0.5),
    leaf("1.5", lambda a: sym.Expr(1.5), lambda v: 1.5),
    leaf("pi", lambda a: sym.pi, lambda v: math.pi),
    leaf("E", lambda a: sym.E, lambda v: math.e),
    leaf("ef(x)", lambda a: EF(a.x), lambda v: np_ef(v["x"])),
    leaf("em(y,2)1", lambda a: EM(a.y, 2)[1], lambda v: np_em(v["y"], 2)[1][0]),
    leaf("es(x).w", lambda a: ES(a.x).w, lambda v: np_es(v["x"]).w),
]
FEW = [t for t in LEAVES if t.text in ("x", "k", "p.u", "M01", "2", "1/2", "ef(x)")]


def fin(r):
    if isinstance(r, complex) or r != r or abs(r) > 1e9:
        raise Undefined
    return r


def num(f):
    def g(*a):
        try:
            return fin(f(*a))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Undefined
    return g


def apart(a, b):
    if a != b and abs(a - b) < 1e-9:
        raise Undefined
    return True


UN = {
    "cos": (sym.cos, math.cos), "acos": (sym.acos, math.acos), "tanh": (sym.tanh, math.tanh), "log": (sym.log, math.log),
    "exp": (sym.exp, math.exp), "asinh": (sym.asinh, math.asinh),
    "sqrt": (sym.sqrt, math.sqrt), "abs": (sym.abs, abs),
    "sign": (sym.sign, lambda a: apart(a, 0) and (a > 0) - (a < 0)),
    "floor": (sym.floor, lambda a: apart(a, round(a)) and math.floor(a)),
    "neg": (lambda a: -a, lambda a: -a), "inv": (lambda a: 1 / a, lambda a: 1 / a), "sq": (lambda a: a ** 2, lambda a: a * a),
    "cube^-1": (lambda a: a ** -3, lambda a: a ** -3.0),
}
BIN = {
    "add": (lambda a, b: a + b, lambda a, b: a + b), "sub": (lambda a, b: a - b, lambda a, b: a - b),
    "mul": (lambda a, b: a * b, lambda a, b: a * b), "div": (lambda a, b: a / b, lambda a, b: a / b),
    "pow": (lambda a, b: sym.pow(a, b), lambda a, b: float(a) ** b), "atan2": (sym.atan2, math.atan2),
    "lt": (lambda a, b: sym.where(a < b, a, b * 3), lambda a, b: apart(a, b) and (a if a < b else b * 3)),
    "eq": (lambda a, b: sym.where(sym.eq(a, b), a, sym.cos(b)), lambda a, b: apart(a, b) and (a if a == b else math.cos(b))),
    "le1": (lambda a, b: sym.iverson(a <= b), lambda a, b: apart(a, b) and int(a <= b)),
}


def un(n, a):
    s, f = UN[n]
    f = num(f)
    return Term("%s(%s)" % (n, a.text), lambda g: s(a.s(g)), lambda v: f(a.f(v)))


def bi(n, a, b):
    s, f = BIN[n]
    f = num(f)
    return Term("%s(%s,%s)" % (n, a.text, b.text), lambda g: s(a.s(g), b.s(g)), lambda v: f(a.f(v), b.f(v)))


def terms():
    """Every term up to depth 1 over all leaves, and depth 2 over a few."""
    yield from LEAVES
    d1 = [un(n, a) for n in UN for a in LEAVES] + [bi(n, a, b) for n in BIN for a in LEAVES for b in (LEAVES if TH else FEW)]
    yield from d1
    u1 = [un(n, a) for n in UN for a in FEW[:4]] + [bi(n, a, b) for n in BIN for a in FEW[:4] for b in FEW[:6:2] if a is not b]
    yield from (un(n, a) for n in UN for a in u1)
    for n in BIN:
        for a in u1:
            for b in (FEW if TH else FEW[:2]):
                yield bi(n, a, b)
                yield bi(n, b, a)
    if TH:
        for n in ("add", "mul", "lt"):
            for a in u1:
                for b in u1:
                    yield bi(n, a, b)


# ---- outputs: what a function does with terms -----------------------------------------------------------
class Out:
    """value: description of the outputs over (arguments, expressions); want: name -> nested tuples of floats."""
    def __init__(self, text, n, make, want):
        self.text, self.n, self.make, self.want = text, n, make, want


def ret(x):
    return cg.ReturnValue(x)


def mk_s(x, y):
    return S(u=x, m=sym.vector(y, x * 2), t=T(w=y))


def want_s(x, y):
    return (x, ((y,), (x * 2,)), (y,))


OUTS = [
    Out("return scalar", 1, lambda x: [ret(x)], lambda x: {"": x}),
    Out("return matrix", 2, lambda x, y: [ret(sym.matrix([[x, y], [y, 1]]))], lambda x, y: {"": ((x, y), (y, 1))}),
    Out("return struct", 2, lambda x, y: [ret(mk_s(x, y))], lambda x, y: {"": want_s(x, y)}),
    Out("output scalar", 1, lambda x: [cg.OutputArg(x, "o")], lambda x: {"o": x}),
    Out("output matrix", 2, lambda x, y: [cg.OutputArg(sym.matrix([[x, y]]), "o")], lambda x, y: {"o": ((x, y),)}),
    Out("output struct", 2, lambda x, y: [cg.OutputArg(mk_s(x, y), "o")], lambda x, y: {"o": want_s(x, y)}),
    Out("optional scalar", 1, lambda x: [cg.OutputArg(x, "o", is_optional=True)], lambda x: {"o": x}),
    Out("optional matrix", 2, lambda x, y: [cg.OutputArg(sym.matrix([[x, y]]), "o", is_optional=True)], lambda x, y: {"o": ((x, y),)}),
    Out("optional struct", 2, lambda x, y: [cg.OutputArg(mk_s(x, y), "o", is_optional=True)], lambda x, y: {"o": want_s(x, y)}),
    Out("return and optionals", 2, lambda x, y: [ret(x + y), cg.OutputArg(x, "o", is_optional=True), cg.OutputArg(sym.vector(y, x), "q", is_optional=True), cg.OutputArg(y, "r")],
        lambda x, y: {"": x + y, "o": x, "q": ((y,), (x,)), "r": y}),
]


class Program:
    def __init__(self, out, ts):
        self.out, self.ts = out, ts
        self.text = "%s of %s" % (out.text, ", ".join(t.text for t in ts))

    def function(self):
        def fn(x: wf.FloatScalar, y: wf.FloatScalar, k: wf.IntScalar, p: S, M: M22):
            a = NS(x=x, y=y, k=k, p=p, M=M)
            return self.out.make(*[t.s(a) for t in self.ts])
        return fn

    def definition(self, opt=None, tern=True):
        return cg.transpile(cg.create_function_description(self.function(), name="fn"), opt, tern)


def programs():
    """Every term returned; a fixed set of terms and pairs of them in every kind of output."""
    for t in terms():
        yield Program(OUTS[0], (t,))
    some = LEAVES[:8] + [un(n, LEAVES[0]) for n in UN] + [bi(n, LEAVES[0], LEAVES[3]) for n in BIN] + \
        [bi("lt", LEAVES[1], un("cos", LEAVES[0])), bi("add", bi("lt", LEAVES[0], LEAVES[1]), un("sqrt", LEAVES[5])), LEAVES[13], LEAVES[14], LEAVES[15]]
    for o in OUTS[1:]:
        if o.n == 1:
            for t in some:
                yield Program(o, (t,))
        else:
            for t, u in itertools.product(some, some if TH else some[::3]):
                yield Program(o, (t, u))


# ---- the syntax tree, walked by its attributes ----------------------------------------------------------
ONE, MANY = "one", "many"
CHILDREN = {
    "Add": [("args", MANY)], "AssignTemporary": [("right", ONE)], "AssignOutputMatrix": [("value", ONE)],
    "AssignOutputScalar": [("value", ONE)], "AssignOutputStruct": [("value", ONE)], "BooleanLiteral": [],
    "Branch": [("condition", ONE), ("if_branch", MANY), ("else_branch", MANY)], "CallExternalFunction": [("args", MANY)],
    "CallStdFunction": [("args", MANY)], "Cast": [("arg", ONE)], "Comment": [], "Compare": [("left", ONE), ("right", ONE)],
    "ConstructCustomType": [("fields", None)], "ConstructMatrix": [("args", MANY)], "Declaration": [("value", ONE)],
    "Divide": [("left", ONE), ("right", ONE)], "FloatLiteral": [], "GetArgument": [], "GetField": [("arg", ONE)],
    "GetMatrixElement": [("arg", ONE)], "IntegerLiteral": [], "Multiply": [("args", MANY)], "Negate": [("arg", ONE)],
    "OptionalOutputBranch": [("statements", MANY)], "Parenthetical": [("contents", ONE)], "ReturnObject": [("value", ONE)],
    "SpecialConstant": [], "Ternary": [("condition", ONE), ("left", ONE), ("right", ONE)], "VariableRef": [],
    "FunctionDefinition": [("body", MANY)],
}
SNAKE = {n: "".join("_" + c.lower() if c.isupper() else c for c in n)[1:] for n in CHILDREN}
FORMATS = sorted(SNAKE.values()) + ["function_signature", "custom_type", "matrix_type", "scalar_type"]


def name(x):
    return type(x).__name__


def steps(x):
    """Ways to get from a node to each of its children."""
    for attr, how in CHILDREN[name(x)]:
        if how == ONE:
            if getattr(x, attr) is not None:
                yield lambda o, a=attr: getattr(o, a)
        elif how == MANY:
            n = len(getattr(x, attr))
            for i in range(n):
                yield lambda o, a=attr, i=i: getattr(o, a)[i]
        else:
            for f in x.type.fields:
                yield lambda o, f=f.name: o.get_field_value(f)


def spans(x):
    return [(a, getattr(x, a)) for a, how in CHILDREN[name(x)] if how == MANY]


def walk(x):
    yield x
    for s in steps(x):
        yield from walk(s(x))


def paths(x, path=()):
    yield path, x
    for s in steps(x):
        yield from paths(s(x), path + (s,))


# ---- a generator written wholly in Python ---------------------------------------------------------------
STD = {"Cos": "math.cos", "Sin": "math.sin", "Tan": "math.tan", "Acos": "math.acos", "Asin": "math.asin", "Atan": "math.atan",
       "Cosh": "math.cosh", "Sinh": "math.sinh", "Tanh": "math.tanh", "Acosh": "math.acosh", "Asinh": "math.asinh",
       "Atanh": "math.atanh", "Log": "math.log", "Exp": "math.exp", "Sqrt": "math.sqrt", "Abs": "abs", "Signum": "sgn",
       "Floor": "math.floor", "Atan2": "math.atan2", "Powi": "fpow", "Powf": "fpow"}
CMP = {"LessThan": "<", "LessThanOrEqual": "<=", "Equal": "=="}
CAST = {"Bool": "bool", "Integer": "int", "Float": "float"}


def last(v):
    return str(v).split(".")[-1]


def block(lines):
    return "\n".join(" " + x for text in (list(lines) or ["pass"]) for x in text.split("\n"))


METHODS = {
    "add": lambda g, x: " + ".join(g.format(a) for a in x.args),
    "assign_temporary": lambda g, x: "%s = %s" % (x.left, g.format(x.right)),
    "assign_output_matrix": lambda g, x: "out[%r] = %s" % (x.arg.name, g.format(x.value)),
    "assign_output_scalar": lambda g, x: "out[%r] = %s" % (x.arg.name, g.format(x.value)),
    "assign_output_struct": lambda g, x: "out[%r] = %s" % (x.arg.name, g.format(x.value)),
    "boolean_literal": lambda g, x: str(x.value),
    "branch": lambda g, x: "if %s:\n%s\nelse:\n%s" % (g.format(x.condition), block(g.format(s) for s in x.if_branch), block(g.format(s) for s in x.else_branch)),
    "call_external_function": lambda g, x: "%s(%s)" % (x.function.name, ", ".join(g.format(a) for a in x.args)),
    "call_std_function": lambda g, x: "%s(%s)" % (STD[last(x.function)], ", ".join(g.format(a) for a in x.args)),
    "cast": lambda g, x: "%s(%s)" % (CAST[last(x.destination_type)], g.format(x.arg)),
    "comment": lambda g, x: "\n".join("# " + s for s in x.split_lines()),
    "compare": lambda g, x: "%s %s %s" % (g.format(x.left), CMP[last(x.operation)], g.format(x.right)),
    "construct_custom_type": lambda g, x: "NS(%s)" % ", ".join("%s=%s" % (f.name, g.format(x.get_field_value(f.name))) for f in x.type.fields),
    "construct_matrix": lambda g, x: "mat((%s,), %d, %d)" % (", ".join(g.format(a) for a in x.args), x.type.rows, x.type.cols),
    "declaration": lambda g, x: "%s = %s  # %s" % (x.name, "None" if x.value is None else g.format(x.value), g.format(x.type)),
    "divide": lambda g, x: "%s / %s" % (g.format(x.left), g.format(x.right)),
    "float_literal": lambda g, x: repr(x.value),
    "get_argument": lambda g, x: x.argument.name,
    "get_field": lambda g, x: "%s.%s" % (g.format(x.arg), x.field_name),
    "get_matrix_element": lambda g, x: "%s[%d][%d]" % (g.format(x.arg), x.row, x.col),
    "integer_literal": lambda g, x: repr(x.value),
    "multiply": lambda g, x: " * ".join(g.format(a) for a in x.args),
    "negate": lambda g, x: "-" + g.format(x.arg),
    "optional_output_branch": lambda g, x: "if %r in want:\n%s" % (x.argument.name, block(g.format(s) for s in x.statements)),
    "parenthetical": lambda g, x: "(%s)" % g.format(x.contents),
    "return_object": lambda g, x: "out[''] = %s" % g.format(x.value),
    "special_constant": lambda g, x: {"Pi": "math.pi", "Euler": "math.e"}[last(x.value)],
    "ternary": lambda g, x: "sel(%s, %s, %s)" % (g.format(x.condition), g.format(x.left), g.format(x.right)),
    "variable_ref": lambda g, x: x.name,
    "function_definition": lambda g, x: "%s\n%s\n return out" % (g.format(x.signature), block(g.format(s) for s in x.body)),
    "function_signature": lambda g, x: "def %s(%s, want, out):" % (x.name, ", ".join("%s: %r" % (a.name, g.format(a.type)) for a in x.arguments if a.is_input)),
    "custom_type": lambda g, x: x.name,
    "matrix_type": lambda g, x: "M%dx%d" % x.shape,
    "scalar_type": lambda g, x: last(x.numeric_type),
}
assert sorted(METHODS) == sorted(FORMATS)


def mat(a, r, c):
    return tuple(tuple(a[i * c:i * c + c]) for i in range(r)) if len(a) == r * c else None


SCOPE = dict(math=math, NS=NS, mat=mat, sgn=lambda a: (a > 0) - (a < 0), sel=lambda c, a, b: a if c else b,
             fpow=lambda a, b: float(a) ** b, ef=np_ef, em=np_em, es=np_es)


def generator(methods, base=None):
    return type("G", (base or wf.BaseGenerator,), {"format_" + k: v for k, v in methods.items()})


SCRATCH = generator(METHODS)
WITHOUT = {k: generator({j: m for j, m in METHODS.items() if j != k}) for k in FORMATS}


def flat(v):
    if isinstance(v, NS):
        return [y for x in vars(v).values() for y in flat(x)]
    if isinstance(v, tuple):
        return [y for x in v for y in flat(x)]
    return [v]


def close(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(isinstance(x, (int, float)) and abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


# ---- the generators with overrides ----------------------------------------------------------------------
BASES = {"C++": lambda c: c(), "C++ Eigen": lambda c: c(cg.CppMatrixTypeBehavior.Eigen), "Rust": lambda c: c(),
         "NumPy": lambda c: c(), "NumPy outputs": lambda c: c(use_output_arguments=True),
         "PyTorch": lambda c: c(cg.PythonGeneratorTarget.PyTorch), "JAX": lambda c: c(cg.PythonGeneratorTarget.JAX, cg.PythonGeneratorFloatWidth.Float32, 2)}
CLASS = {"C++": cg.CppGenerator, "C++ Eigen": cg.CppGenerator, "Rust": cg.RustGenerator}


def cls(g):
    return CLASS.get(g, cg.PythonGenerator)


MARK = {k: chr(0xE000 + i) for i, k in enumerate(FORMATS)}  # private use characters


def marker(k):
    return lambda g, x: g.super_format(x) + MARK[k]


def recursive(k):
    return lambda g, x: g.format(x) if g.on else g.super_format(x)


class Boom(Exception):
    pass


def boom(k):
    def f(g, x):
        if g.on:
            raise Boom(k)
        return g.super_format(x)
    return f


def nothing(k):
    return lambda g, x: 17 if g.on else g.super_format(x)


def family(make):
    return {(g, k): generator({k: make(k)}, cls(g)) for g in BASES for k in FORMATS}


PLAIN = {g: BASES[g](cls(g)) for g in BASES}
IDENT = {g: generator({k: (lambda s, x: s.super_format(x)) for k in FORMATS}, cls(g)) for g in BASES}
MARKS = {g: generator({k: marker(k) for k in FORMATS}, cls(g)) for g in BASES}
MARK1, RECUR, BOOM, NOTHING = family(marker), family(recursive), family(boom), family(nothing)


def attempt(f):
    try:
        return f()
    except Exception as ex:
        return (type(ex).__name__, str(ex)[:300])


def strip(s):
    for m in MARK.values():
        s = s.replace(m, "")
    return [x.rstrip() for x in s.split("\n") if x.strip()]


STATEMENTS = {"assign_temporary", "assign_output_matrix", "assign_output_scalar", "assign_output_struct", "branch", "comment", "declaration",
              "optional_output_branch", "return_object", "function_definition", "function_signature"}


def check_values(p, d, key):
    text = attempt(lambda: SCRATCH().generate(d))
    if isinstance(text, tuple):
        e.violation("the generator raises (%s)" % key, "%s: %s" % (p.text, text))
        return None
    for tag, g in (("format", SCRATCH().format), ("list", lambda x: SCRATCH().generate([x]))):
        if attempt(lambda: g(d)) != text:
            e.violation("%s and generate differ (%s)" % (tag, key), p.text)
    scope = dict(SCOPE)
    try:
        exec(text, scope)
    except Exception as ex:
        e.violation("the code does not load (%s)" % key, "%s: %s\n%s" % (p.text, ex, text))
        return None
    args = ("x", "y", "k", "p", "M")
    for v in ENVS:
        try:
            vals = [t.f(v) for t in p.ts]
        except Undefined:
            continue
        want = p.out.want(*vals)
        optional = [a.name for a in d.signature.arguments if a.is_optional]
        for mask in range(1 << len(optional)):
            on = [n for i, n in enumerate(optional) if mask >> i & 1]
            exp = {n: w for n, w in want.items() if n not in optional or n in on}
            got = attempt(lambda: scope["fn"](*[v[a] for a in args], on, {}))
            if isinstance(got, tuple) or sorted(got) != sorted(exp) or not all(close(got[n], exp[n]) for n in exp):
                e.violation("values of the code (%s)" % key, "%s with %s: %s, expected %s\n%s" % (p.text, on, got, exp, text))
            e.decided()
    return text


def check_tree(p, d):
    """Spans behave as sequences; repr is total; the tree has the same shape by every access."""
    counts = {}
    for x in walk(d):
        n = name(x)
        counts[SNAKE[n]] = counts.get(SNAKE[n], 0) + 1
        if n not in repr(x):
            e.violation("repr of a node", "%s: %r" % (n, x))
        for a, s in spans(x):
            it = [repr(y) for y in s]
            ix = [repr(s[i]) for i in range(len(s))]
            ng = [repr(s[i]) for i in range(-len(s), 0)]
            if not (it == ix == ng) or len(it) != len(s) or repr(s) != "AstSpan(%d elements)" % len(s):
                e.violation("span of %s.%s" % (n, a), "%s: %s %s %s" % (p.text, it, ix, ng))
            for i in (len(s), len(s) + 1, -len(s) - 1, 1 << 40, -(1 << 62)):
                r = attempt(lambda: s[i])
                if not isinstance(r, tuple) or r[0] != "DimensionError":
                    e.violation("span index out of range", "%s.%s[%d] of %d: %s" % (n, a, i, len(s), r))
            e.decided()
        if n == "ConstructMatrix" and (len(x.args) != x.type.rows * x.type.cols or [x.type.compute_indices(i) for i in range(len(x.args))] != list(itertools.product(range(x.type.rows), range(x.type.cols)))):
            e.violation("matrix literal", "%s: %s" % (p.text, x))
        if n == "ConstructCustomType" and (any(x.get_field_value(f.name) is None for f in x.type.fields) or x.get_field_value("nosuch") is not None):
            e.violation("struct literal", "%s: %s" % (p.text, x))
        if n == "Comment" and ("\n".join(x.split_lines()) != x.content.rstrip("\n") or any("\n" in y for y in x.split_lines())):
            e.violation("lines of a comment", repr(x.content))
    return counts


LABEL = {"Branch": "branch", "OptionalOutputBranch": "branch", "CallStdFunction": "call", "CallExternalFunction": "call",
         "Compare": "compare", "Divide": "divide", "Negate": "negate", "Add": "add", "Multiply": "multiply"}


def operations(x):
    """Operations of the tree below x; of two alternatives, the maximum of each kind."""
    n = name(x)
    c = {}
    if n in LABEL:
        c[LABEL[n]] = len(x.args) - 1 if n in ("Add", "Multiply") else 1
    if n == "Branch":
        parts = [operations(x.condition)]
        alt = []
        for b in (x.if_branch, x.else_branch):
            t = {}
            for y in b:
                for k, v in operations(y).items():
                    t[k] = t.get(k, 0) + v
            alt.append(t)
        parts.append({k: max(alt[0].get(k, 0), alt[1].get(k, 0)) for k in set(alt[0]) | set(alt[1])})
    else:
        parts = [operations(f(x)) for f in steps(x)]
    for q in parts:
        for k, v in q.items():
            c[k] = c.get(k, 0) + v
    return c


def check_operations(p, d):
    got = [x.content for x in d.body if name(x) == "Comment"]
    want = {k: v for k, v in operations(d).items() if v}
    lines = dict(y.split(": ") for y in got[0].split("\n")[1:] if y) if got else None
    want["total"] = sum(want.values())
    if len(got) != 1 or {k: int(v) for k, v in lines.items()} != want:
        e.violation("operation counts", "%s: %s, counted %s\n%s" % (p.text, got, want, SCRATCH().generate(d)))
    e.decided()


def check_overrides(p, d, counts):
    signum = any(name(x) == "CallStdFunction" and last(x.function) == "Signum" for x in walk(d))
    for g in BASES:
        make = BASES[g]
        base = attempt(lambda: PLAIN[g].generate(d))
        if attempt(lambda: make(IDENT[g]).generate(d)) != base and not (isinstance(base, tuple) and "super_format" in base[1]):
            e.violation("overrides that call the base (%s)" % g, "%s: %s, not %s" % (p.text, attempt(lambda: make(IDENT[g]).generate(d)), base))
        if isinstance(base, tuple):
            e.count("not supported by the generator")
            e.state("%s %s" % (g, base[0]))
            continue
        m = attempt(lambda: make(MARKS[g]).generate(d))
        if isinstance(m, tuple) or strip(m) != strip(base):
            e.violation("overrides that append (%s)" % g, "%s: %s, not %s" % (p.text, m, base))
            continue
        for k, c in counts.items():
            if k in ("construct_matrix", "return_object") or (k == "ternary" and signum):
                continue  # some generators write these as part of their parent
            n = m.count(MARK[k])
            if n != c if not signum else n < c:
                e.violation("override of %s called (%s)" % (k, g), "%s: %d times for %d nodes\n%s" % (p.text, n, c, m))
        e.decided(2 + len(counts))


def check_single(p, d, counts):
    """Each single override, with its failures; the generator stays usable after each."""
    for g in BASES:
        make = BASES[g]
        base = attempt(lambda: PLAIN[g].generate(d))
        if isinstance(base, tuple):
            continue
        m = make(MARKS[g]).generate(d)
        for k in FORMATS:
            used = MARK[k] in m
            one = attempt(lambda: make(MARK1[g, k]).generate(d))
            if isinstance(one, tuple) or strip(one) != strip(base) or one.count(MARK[k]) != m.count(MARK[k]):
                e.violation("a single override (%s)" % g, "%s %s: %s" % (k, p.text, one))
            for kind, table, names in (("recursive", RECUR, ("RuntimeError",)), ("raising", BOOM, ("Boom",)), ("returning a number", NOTHING, ("TypeError", "RuntimeError"))):
                inst = make(table[g, k])
                inst.on = True
                for repeat in range(2):
                    r = attempt(lambda: inst.generate(d))
                    if used != (isinstance(r, tuple) and r[0] in names) or (not used and r != base):
                        e.violation("%s override (%s)" % (kind, g), "%s %s: %s" % (k, p.text, r))
                inst.on = False
                r = attempt(lambda: inst.generate(d))
                if r != base:
                    e.violation("generator after a failed override (%s)" % g, "%s %s %s: %s" % (kind, k, p.text, r))
            e.decided(4)
    # format on the parts
    for g in BASES:
        inst = BASES[g](IDENT[g])
        for x in walk(d):
            a, b = attempt(lambda: PLAIN[g].format(x)), attempt(lambda: inst.format(x))
            if a != b or attempt(lambda: PLAIN[g].super_format(x)) != a:
                e.violation("format of a part (%s)" % g, "%s in %s: %s and %s" % (name(x), p.text, a, b))
            e.decided()


def check_missing(p, d, counts, text):
    """Without one method, generation says which is missing, exactly if the tree needs it."""
    need = set(counts)
    need |= {"function_signature"}
    for a in d.signature.arguments:
        if a.is_input:
            need.add({"ScalarType": "scalar_type", "MatrixType": "matrix_type", "CustomType": "custom_type"}[name(a.type)])
    for x in walk(d):
        if name(x) == "Declaration":
            need.add({"ScalarType": "scalar_type", "MatrixType": "matrix_type", "CustomType": "custom_type"}[name(x.type)])
    for k in FORMATS:
        r = attempt(lambda: WITHOUT[k]().generate(d))
        if k in need:
            ok = isinstance(r, tuple) and r[0] == "TypeError" and "format_" + k in r[1]
        else:
            ok = r == text
        if not ok:
            e.violation("a missing method", "%s in %s: %s" % (k, p.text, r))
        e.decided()


def check_lifetime(p):
    """Every node reached over a path of which nothing else is kept alive (freed memory is overwritten: MALLOC_PERTURB_)."""
    d = attempt(p.definition)
    if isinstance(d, tuple):
        return
    for path, x in list(paths(d)):
        want = repr(x)
        e.about("a node kept after its tree :: %s in %s" % (name(x), p.text))
        o = p.definition()
        for s in path:
            o = s(o)
        junk = [p.definition(), SCRATCH().generate(d)]
        if repr(o) != want:
            e.violation("a node kept after its tree", "%s in %s: %r, was %s" % (name(x), p.text, o, want))
        for a, how in CHILDREN[name(x)]:
            if how != MANY:
                continue
            want = [repr(y) for y in getattr(x, a)]
            for kind, f in (("span", lambda q: getattr(q, a)), ("list", lambda q: list(getattr(q, a))), ("iterator", lambda q: iter(getattr(q, a)))):
                e.about("a %s kept after its tree :: %s.%s in %s" % (kind, name(x), a, p.text))
                o = p.definition()
                for s in path:
                    o = s(o)
                o = f(o)
                junk = [p.definition(), SCRATCH().generate(d)]
                if [repr(y) for y in o] != want:
                    e.violation("a %s kept after its tree" % kind, "%s.%s in %s" % (name(x), a, p.text))
        if name(x) == "FunctionDefinition":
            e.about("a signature kept after its tree :: " + p.text)
            s = p.definition().signature
            o = [(y.name, y.type) for y in s.arguments]
            junk = [p.definition()]
            if s.name != "fn" or [(y, repr(t)) for y, t in o] != [(y.name, repr(y.type)) for y in d.signature.arguments]:
                e.violation("a signature kept after its tree", p.text)
        del junk
        e.decided()


def check_python(p):
    """generate_python: the function computes the values."""
    fn, _ = cg.generate_python(p.function(), context=dict(ef=np_ef, em=np_em, es=np_es, S=lambda **k: NS(**k), T=lambda **k: NS(**k)))
    import numpy as np
    for v in ENVS:
        try:
            vals = [t.f(v) for t in p.ts]
        except Undefined:
            continue
        want = p.out.want(*vals)
        a = [v["x"], v["y"], v["k"], NS(u=v["p"].u, m=np.array(v["p"].m), t=v["p"].t), np.array(v["M"])]
        opt = sum(x.is_optional for x in p.definition().signature.arguments)
        for mask in range(1 << opt):
            with np.errstate(all="ignore"):
                got = attempt(lambda: fn(*a, *[bool(mask >> i & 1) for i in range(opt)]))
            if isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], str):
                e.violation("generate_python", "%s: %s" % (p.text, got))
                continue
            exp, j = [], 0
            for n, w in sorted(want.items(), key=lambda kv: ["", "o", "q", "r"].index(kv[0])):
                if n and any(x.is_optional and x.name == n for x in p.definition().signature.arguments):
                    exp.append(w if mask >> j & 1 else None)
                    j += 1
                else:
                    exp.append(w)
            got = (got,) if len(exp) == 1 else got

            def plain(z):
                if isinstance(z, NS):
                    return tuple(plain(q) for q in vars(z).values())
                return tuple(z.flatten().tolist()) if isinstance(z, np.ndarray) else float(z)
            if len(got) != len(exp) or not all((g is None) == (w is None) and (w is None or close(plain(g), w)) for g, w in zip(got, exp)):
                e.violation("generate_python", "%s: %s, expected %s" % (p.text, got, exp))
            e.decided()


OPTS = []
for fp, binarize in ((0, False), (1, True), (3, False)):
    o = cg.OptimizationParams()
    o.factorization_passes, o.binarize_operations = fp, binarize
    OPTS.append(("passes %d%s" % (fp, " binarize" if binarize else ""), o))


def main():
    for i, p in enumerate(programs()):
        if e.next():
            e.about(p.text)
            text, counts = None, None
            for tern in (True, False):
                for tag, o in OPTS:
                    try:
                        d = p.definition(o, tern)
                    except Exception as ex:
                        if type(ex).__name__ not in ("ArithmeticError", "DomainError", "TypeError"):
                            e.violation("transpile raises", "%s: %s" % (p.text, ex))
                        e.count("not a function")
                        continue
                    text = check_values(p, d, "%s%s" % (tag, "" if tern else ", ternaries"))
                    if text is None:
                        continue
                    e.state(text)
                    counts = check_tree(p, d)
                    check_operations(p, d)
                    check_overrides(p, d, counts)
            if text is not None:
                check_python(p)
            e.sample(lambda: "%s: %s" % (p.text, counts))
        # the expensive checks: once per kind of output and operation
        if (p.out is not OUTS[0] and len(p.ts) == 2 and i % (4 if TH else 16) == 0) or (p.out is not OUTS[0] and len(p.ts) == 1 and i % (1 if TH else 4) == 0) or i % (31 if TH else 127) == 0:
            for tern in (True, False):
                if e.next():
                    e.about(p.text)
                    d = attempt(lambda: p.definition(None, tern))
                    if isinstance(d, tuple):
                        continue
                    counts = check_tree(p, d)
                    check_single(p, d, counts)
                    check_missing(p, d, counts, SCRATCH().generate(d))
            if e.next():
                check_lifetime(p)
    # several definitions
    short = [Program(OUTS[0], (t,)) for t in LEAVES[:4]]
    for n in range(0, 4):
        for ps in itertools.product(short, repeat=n):
            if e.next():
                ds = [p.definition() for p in ps]
                for g in list(BASES) + ["scratch"]:
                    inst = SCRATCH() if g == "scratch" else PLAIN[g]
                    if inst.generate(ds) != "\n\n".join(inst.generate(d) for d in ds):
                        e.violation("several definitions (%s)" % g, str([p.text for p in ps]))
                    e.decided()
    # preambles frame the code unchanged
    for code in ("", "x", "a\nb", "{", "}", "{}", "{code}", "%s", "\\", "// {0}", "é", "\n\n"):
        if e.next():
            for tag, r in (("C++", cg.CppGenerator().apply_preamble(code, "ns")), ("C++ imports", cg.CppGenerator().apply_preamble(code, "ns", "#include <q{}>")),
                           ("C++ Eigen", cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen).apply_preamble(code, "ns")),
                           ("Rust", cg.RustGenerator.apply_preamble(code)), ("NumPy", cg.PythonGenerator().apply_preamble(code)),
                           ("PyTorch", cg.PythonGenerator(cg.PythonGeneratorTarget.PyTorch).apply_preamble(code)), ("JAX", cg.PythonGenerator(cg.PythonGeneratorTarget.JAX).apply_preamble(code))):
                need = {"C++": ["#pragma once", "<cmath>", "<cstdint>", "<wrenfold/span.h>", "namespace ns {"], "C++ imports": ["#include <q{}>", "namespace ns {"],
                        "C++ Eigen": ["<Eigen/Core>", "namespace ns {"], "Rust": [], "NumPy": ["import numpy as np"], "PyTorch": ["import torch as th"], "JAX": ["import jax.numpy as jnp"]}[tag]
                if code not in r or any(x not in r for x in need):
                    e.violation("preamble", "%s of %r: %s" % (tag, code, r))
                e.decided()
    # depth of nesting under overrides
    for n in list(range(1, 60)) + [80, 120, 150, 200]:
        for kind in ("horner", "cos", "where"):
            if e.next():
                e.about("nested %d %s" % (n, kind))

                def fn(x: wf.FloatScalar, y: wf.FloatScalar):
                    r = y
                    for i in range(n):
                        r = r * x + (i + 2) if kind == "horner" else sym.cos(r) if kind == "cos" else sym.where(x < i, sym.cos(r), i)
                    return [cg.ReturnValue(r)]
                d = cg.transpile(cg.create_function_description(fn, name="fn"), None, False)
                for g in BASES:
                    r = attempt(lambda: BASES[g](IDENT[g]).generate(d))
                    if r != attempt(lambda: PLAIN[g].generate(d)):
                        e.violation("depth of nesting (%s)" % g, "%s %d: %s" % (kind, n, str(r)[:200]))
                    e.decided()
                r = attempt(lambda: SCRATCH().generate(d))
                if isinstance(r, tuple):
                    e.violation("depth of nesting (from scratch)", "%s %d: %s" % (kind, n, r))
                e.decided()


main()
e.finish()
