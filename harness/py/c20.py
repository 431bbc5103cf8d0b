"""C20: struct layouts and external-function signatures, from the Python types to the running generated code."""
import dataclasses, itertools, re, subprocess
import numpy as np
from explorer import Explorer
import wrenfold as wf
from wrenfold import code_generation as cg, custom_types, exceptions, external_functions, sym, type_annotations, type_info
from typing import Annotated

e = Explorer()
TH = e.thorough

# ---- layouts --------------------------------------------------------------------------------------------
# A layout is a tuple of field kinds: "S" float, "I" integer, (rows, cols) matrix, or another layout as ("N", layout).
NAMES = ["z", "b", "y", "a", "k", "zz", "m", "aa", "q", "c", "x0", "d"]
CLS, DEFS = {}, {}  # layout -> dataclass; name -> layout


def ann(kind):
    if kind == "S":
        return wf.FloatScalar
    if kind == "I":
        return wf.IntScalar
    if kind[0] == "N":
        return cls(kind[1])
    return Annotated[sym.MatrixExpr, type_annotations.Shape(rows=kind[0], cols=kind[1])]


def text(l):
    return "".join(k if isinstance(k, str) else "N" + text(k[1]) + "E" if k[0] == "N" else "M%d%d" % k for k in l)


def cls(l):
    if l not in CLS:
        name = "T" + text(l)
        CLS[l] = dataclasses.make_dataclass(name, [(NAMES[i], ann(k)) for i, k in enumerate(l)])
        DEFS[name] = l
    return CLS[l]


def leaves(l, path=()):
    """Every scalar of the layout in declaration order: (path, row and column or None, integer?)."""
    out = []
    for n, k in zip(NAMES, l):
        if isinstance(k, str):
            out.append((path + (n,), None, k == "I"))
        elif k[0] == "N":
            out += leaves(k[1], path + (n,))
        else:
            out += [(path + (n,), (r, c), False) for r in range(k[0]) for c in range(k[1])]
    return out


def read(obj, leaf):
    for n in leaf[0]:
        obj = getattr(obj, n)
    return obj if leaf[1] is None else obj[leaf[1]]


def build(l, values, mat):
    """An instance of the dataclass, filled by my own walk in declaration order."""
    it = iter(values)

    def one(l):
        kw = {}
        for n, k in zip(NAMES, l):
            if isinstance(k, str):
                kw[n] = next(it)
            elif k[0] == "N":
                kw[n] = one(k[1])
            else:
                kw[n] = mat([[next(it) for _ in range(k[1])] for _ in range(k[0])])
        return cls(l)(**kw)
    return one(l)


def symbolic(l, values):
    return build(l, values, lambda rows: sym.matrix(rows))


def numeric(l, values):
    return build(l, values, lambda rows: np.array(rows, dtype=float))


def sequences(kinds, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(kinds, repeat=n)


def layouts():
    flat = list(sequences(["S", "I", (3, 1), (1, 2), (2, 3)], 1, 4 if TH else 3))
    yield from flat
    n1, n2, n3 = ("N", ("S", "I")), ("N", ((2, 3),)), ("N", ((1, 2), "S"))
    for l in sequences(["S", (2, 2), n1, n2, n3], 1, 4 if TH else 3):
        if any(k in (n1, n2, n3) for k in l):
            yield l
    d1, d2 = ("N", (n1, "S")), ("N", ((2, 1), n3, "I"))
    for l in sequences(["S", d1, d2] + ([(1, 3)] if TH else []), 1, 3):
        if d1 in l or d2 in l:
            yield l
    q = ("N", ("I", d2, "S"))
    for l in sequences(["S", q, (2, 2)], 1, 3 if TH else 2):
        if q in l:
            yield l


    # sizes: many fields, large matrices, deep and repeated nesting
    deep = "S"
    for i in range(6 if TH else 4):
        deep = ("N", ((2, 1), deep, "S", "I")) if i % 2 else ("N", ("I", deep, (1, 3)))
    twice = ("N", (("N", ("S", (2, 2))), ("N", ("I", "S")), ("N", ("S", (2, 2)))))
    row = ["S", (1, 4), "I", n1, (3, 3), n3, "S", (4, 1), n2, "I"]
    yield (deep,)
    yield (deep, "S", deep)
    yield ("I", twice, (5, 2), twice)
    yield (twice, deep, (4, 4))
    yield ((6, 6), "S")
    yield ("S", (5, 7), "I", (7, 1))
    yield ("S",) * 12
    yield ("I", "S") * 6
    yield ((2, 2),) * 6
    yield (n1,) * 5
    for k in range(5, 11):
        for off in range(0, len(row), 1 if TH else 3):
            yield tuple(row[(off + i) % len(row)] for i in range(k))


# ---- permutations inside the classes of integers and floats ---------------------------------------------
def within(lv, f):
    out = list(range(len(lv)))
    for c in (True, False):
        idx = [i for i, x in enumerate(lv) if x[2] == c]
        for a, b in zip(idx, f(idx)):
            out[a] = b
    return out


def same(a, b):
    return a.is_identical_to(b)


def fails(f):
    try:
        f()
    except Exception:
        return True
    return False


def internal(t):
    return custom_types.convert_to_internal_type(t, {}, "c20")


def wsum(es):
    out = sym.integer(0)
    for k, x in enumerate(es):
        out = out + sym.integer(2 * k + 3) * x
    return out


def argument_instance(l, name="p"):
    """What a function gets for an argument of the type."""
    got = []
    cg.create_function_description(make_function("probe", [(name, cls(l))], lambda a: (got.append(a), [cg.ReturnValue(sym.integer(1))])[1]))
    return got[0]


def make_function(name, args, body):
    """A function with the given annotated arguments."""
    names = [a for a, _ in args]
    scope = {"body": body}
    exec("def %s(%s):\n  return body(%s)" % (name, ", ".join(names), ", ".join(names)), scope)
    scope[name].__annotations__ = dict(args)
    return scope[name]


def check_layout(l):
    lv = leaves(l)
    n = len(lv)
    what = "T" + text(l)

    def bad(kind, detail):
        e.violation(kind, "%s: %s" % (what, detail))

    t = internal(cls(l))
    # the description of the type
    if t.total_size != n or [f.name for f in t.fields] != NAMES[:len(l)]:
        bad("type description", "%s size %d" % ([f.name for f in t.fields], t.total_size))
    for f, k in zip(t.fields, l):
        ok = (isinstance(f.type, type_info.ScalarType) and f.type.numeric_type == (type_info.NumericType.Float if k == "S" else type_info.NumericType.Integer)) if isinstance(k, str) \
            else (isinstance(f.type, type_info.CustomType) and f.type.python_type is cls(k[1])) if k[0] == "N" \
            else (isinstance(f.type, type_info.MatrixType) and f.type.shape == k)
        if not ok:
            bad("type description", "field %s: %r" % (f.name, f.type))
    e.decided(1 + len(l))
    # flattening and its inverse
    s = [sym.symbols("s%d" % i) for i in range(n)]
    extra = [sym.symbols("e0"), sym.symbols("e1")]
    inst, rest = custom_types.map_expressions_into_custom_type(s + extra, t)
    if len(rest) != 2 or not all(same(a, b) for a, b in zip(rest, extra)):
        bad("leftover expressions", str(rest))
    for k, x in enumerate(lv):
        if not same(read(inst, x), s[k]):
            bad("map into", "%s is %s" % (x, read(inst, x)))
    for src in (inst, symbolic(l, s)):
        flat = custom_types.map_expressions_out_of_custom_type(src, t)
        if len(flat) != n or not all(same(a, b) for a, b in zip(flat, s)):
            bad("map out", str(flat))
    for m in range(n):
        if not fails(lambda: custom_types.map_expressions_into_custom_type(s[:m], t)):
            bad("too few expressions", str(m))
    e.decided(2 * n + 2)
    # elements of arguments
    p, q = argument_instance(l, "p"), argument_instance(l, "q")
    pe, qe = [read(p, x) for x in lv], [read(q, x) for x in lv]
    for k, x in enumerate(lv):
        name = "p." + ".".join(x[0]) + ("" if x[1] is None else "[%d, %d]" % x[1])
        if str(pe[k]) != name or str(qe[k]) != "q" + name[1:]:
            bad("field of an argument", "%s prints %s" % (name, pe[k]))
        for j in range(n):
            if same(pe[k], pe[j]) != (j == k) or same(pe[k], qe[j]):
                bad("identity of fields", "%s %s" % (pe[k], qe[j]))
    e.decided(n + n * n)
    # construction
    c = sym.create_custom_type_construction(t, s)
    got = sym.create_compound_expression_elements(c, n)
    if not all(same(a, b) for a, b in zip(got, s)):
        bad("elements of a construction", str(got))
    whole = sym.create_custom_type_construction(t, pe)
    if whole.type_name != "CustomTypeArgument" or str(whole) != "p":
        bad("construction of all elements", str(whole))
    for m in (n - 1, n + 1):
        if m and not fails(lambda: sym.create_custom_type_construction(t, (s + extra)[:m])):
            bad("wrong number of elements", str(m))
    for i in range(n):
        for v in [qe[i], s[0], pe[i] + 1] + [pe[j] for j in range(n) if j != i]:
            els = list(pe)
            els[i] = v
            c = sym.create_custom_type_construction(t, els)
            got = sym.create_compound_expression_elements(c, n)
            if not all(same(a, b) for a, b in zip(got, els)):
                if not (n == 1 and same(v, qe[i])):
                    bad("construction with one element changed", "%s -> %s" % (els, got))
            e.decided()
    # the same elements as another type of the same size
    for other in ((("N", l),), tuple("S" * n)):
        if other != l and n <= len(NAMES) or other[0] != "S":
            c = sym.create_custom_type_construction(internal(cls(other)), pe)
            if c.type_name != "CustomTypeConstruction":
                bad("elements of another type", str(c))
            e.decided()
    # differentiation
    total = wsum([x * x for x in pe])
    for i in range(n):
        for j in range(n):
            d = pe[i].diff(pe[j])
            if not same(d, sym.integer(1 if i == j else 0)):
                bad("derivative of a field", "d %s / d %s = %s" % (pe[i], pe[j], d))
        if not same(total.diff(pe[i]), sym.integer(2 * (2 * i + 3)) * pe[i]):
            bad("derivative of a sum of fields", str(total.diff(pe[i])))
        if not same(pe[i].diff(qe[i]), sym.integer(0)):
            bad("derivative of another argument", str(pe[i].diff(qe[i])))
    jac = sym.jacobian(sym.vector(*[x * x for x in pe]), sym.vector(*pe))
    if any(not same(jac[i, j], 2 * pe[i] if i == j else sym.integer(0)) for i in range(n) for j in range(n)):
        bad("jacobian of the fields", str(jac))
    e.decided(2 * n * n + 2 * n)
    # substitution, directly and through an external function that takes the struct
    x = sym.symbols("x")
    fn = external_functions.declare_external_function("F", [("t", cls(l)), ("x", wf.FloatScalar)], cls(l))
    shifted = symbolic(l, [v + 1 for v in pe])
    rep = sym.symbols("rep")
    for i in range(n):
        els = list(pe)
        els[i] = rep
        if not same(wsum(pe).subs(pe[i], rep), wsum(els)):
            bad("substitution of a field", str(wsum(pe).subs(pe[i], rep)))
        plus = list(els)
        for arg, want in ((p, els), (shifted, [v + 1 for v in els])):
            r0 = fn(arg, x)
            r1 = fn(symbolic(l, want), x)
            for k in (0, i, n - 1):
                a, b = read(r0, lv[k]).subs(pe[i], rep), read(r1, lv[k])
                if not same(a, b):
                    bad("substitution inside an external call", "%s, %s -> rep gives %s" % (read(r0, lv[k]), pe[i], a.expression_tree_str()))
                a = read(r0, lv[k]).subs([(pe[i], rep), (x, rep)])
                if not same(a, b.subs(x, rep)):
                    bad("substitution inside an external call (pairs)", "%s, %s -> rep" % (read(r0, lv[k]), pe[i]))
        e.decided(13)
    r = fn(p, x)
    re_ = [read(r, v) for v in lv]
    for i in range(n):
        for j in range(n):
            if not same(re_[i].diff(re_[j]), sym.integer(1 if i == j else 0)):
                bad("derivative of a result element", str(re_[i].diff(re_[j])))
        d = re_[i].diff(pe[i], use_abstract=True)
        if d.type_name != "Derivative":
            bad("abstract derivative by a field", str(d))
        d2 = re_[i].diff(pe[i], 2, use_abstract=True)
        if d2.type_name != "Derivative":
            bad("second abstract derivative by a field", str(d2))
    again = sym.create_custom_type_construction(t, re_)
    if again.type_name != "ExternalFunctionInvocation":
        bad("construction of all elements of a result", str(again))
    e.decided(n * n + 2 * n + 1)
    e.state(what)


# ---- running generated code ------------------------------------------------------------------------------
RUN = {"cpp": [], "rust": []}  # (case, what, source, expected)


class Rust(wf.RustGenerator):
    def format_construct_matrix(self, x):
        return "Mat::<%d, %d, %d>::new([%s])" % (x.type.rows, x.type.cols, x.type.rows * x.type.cols, ", ".join(self.format(a) for a in x.args))

    def format_matrix_type(self, x):
        return "Mat<%d, %d, %d>" % (x.rows, x.cols, x.rows * x.cols)

    def format_get_matrix_element(self, x):
        return "%s.at(%s, %s)" % (self.format(x.arg), x.row, x.col)


def generators():
    return {"python": wf.PythonGenerator(), "cpp": wf.CppGenerator(cg.CppMatrixTypeBehavior.Eigen), "rust": Rust()}


def needed(l, out):
    for k in l:
        if not isinstance(k, str) and k[0] == "N":
            needed(k[1], out)
    if l not in out:
        out.append(l)


def cpp_struct(l):
    ty = {"S": "double", "I": "std::int64_t"}
    fs = [(ty[k] if isinstance(k, str) else "T" + text(k[1]) if k[0] == "N" else "Eigen::Matrix<double, %d, %d>" % k) for k in l]
    return "struct T%s { %s };\n" % (text(l), " ".join("%s %s;" % (t, n) for t, n in zip(fs, NAMES)))


def rust_struct(l):
    ty = {"S": "f64", "I": "i64"}
    fs = [(ty[k] if isinstance(k, str) else "T" + text(k[1]) if k[0] == "N" else "Mat<%d, %d, %d>" % (k[0], k[1], k[0] * k[1])) for k in l]
    return "#[derive(Clone, Copy, Default)] pub struct T%s { %s }\n" % (text(l), " ".join("pub %s: %s," % (n, t) for t, n in zip(fs, NAMES)))


def cpp_leaf(obj, x):
    return obj + "." + ".".join(x[0]) + ("" if x[1] is None else "(%d, %d)" % x[1])


def rust_leaf(obj, x, mut=False):
    if x[1] is None:
        return obj + "." + ".".join(x[0])
    return ("*%s.%s.at_mut(%d, %d)" if mut else "%s.%s.at(%d, %d)") % (obj, ".".join(x[0]), *x[1])


def num(v, lang):
    return repr(v) if not (lang == "rust" and isinstance(v, float)) else repr(v) + "f64"


def fill(obj, l, values, lang):
    """Statements that store the values in a declared struct."""
    if lang == "cpp":
        return "".join("%s = %s; " % (cpp_leaf(obj, x), num(v, lang)) for x, v in zip(leaves(l), values))
    return "".join("%s = %s; " % (rust_leaf(obj, x, True), num(v, lang)) for x, v in zip(leaves(l), values))


def show(obj, l, lang):
    if lang == "cpp":
        return "".join("P(%s); " % cpp_leaf(obj, x) for x in leaves(l))
    return "".join("print!(\" {:?}\", %s as f64); " % rust_leaf(obj, x) for x in leaves(l))


def sequential(name, params, l, expr, lang):
    """Source of an external function that returns a struct whose leaf k is expr(k)."""
    lv = leaves(l)
    if lang == "cpp":
        return "T%s %s(%s) { T%s r{}; %s return r; }\n" % (text(l), name, params, text(l), "".join("%s = %s; " % (cpp_leaf("r", x), expr(k)) for k, x in enumerate(lv)))
    return "fn %s(%s) -> T%s { let mut r = T%s::default(); %s r }\n" % (name, params, text(l), text(l), "".join("%s = %s; " % (rust_leaf("r", x, True), expr(k)) for k, x in enumerate(lv)))


def out_layout(n):
    return ((n, 1),)


def pvals(lv):
    return [3 + 7 * k if x[2] else 0.5 + 1.25 * k for k, x in enumerate(lv)]


def qvals(lv):
    return [100 + 11 * k if x[2] else 1000.25 + 2.5 * k for k, x in enumerate(lv)]


XV = 0.75


def rt(lv, t, x, u):
    """The external function F of a layout, on leaf values."""
    return [2 * t[k] + 3 * u[k] + k + (0 if lv[k][2] else x) for k in range(len(lv))]


def compare(what, got, want):
    if list(map(float, got)) != list(map(float, want)):
        e.violation("running generated code", "%s: got %s, expected %s" % (what, list(got), list(want)))
    e.decided(len(want))


def check_run(l):
    """Fields of arguments, returned structs, output structs and structs to and from external functions, in three languages."""
    lv = leaves(l)
    n = len(lv)
    name = "f%d" % e.id
    T, O = cls(l), cls(out_layout(n))
    rev, rot = within(lv, lambda i: i[::-1]), within(lv, lambda i: i[1:] + i[:1])
    F = external_functions.declare_external_function("F" + text(l), [("t", T), ("x", wf.FloatScalar), ("u", T)], T)

    def column(vs):
        return O(**{NAMES[0]: sym.vector(*vs)})

    def body(p, x, q):
        pe, qe = [read(p, v) for v in lv], [read(q, v) for v in lv]
        w = F(symbolic(l, [pe[i] for i in rot]), x, q)
        w2 = F(u=w, t=p, x=x)
        we, w2e = [read(w, v) for v in lv], [read(w2, v) for v in lv]
        return [cg.ReturnValue(symbolic(l, [qe[i] for i in rev])), cg.OutputArg(column(pe), "o"),
                cg.OutputArg(column(we), "w"), cg.OutputArg(symbolic(l, [w2e[i] for i in rev]), "s"),
                cg.OutputArg(q, "t", is_optional=True)]

    fn = make_function(name, [("p", T), ("x", wf.FloatScalar), ("q", T)], body)
    desc = cg.create_function_description(fn)
    pv, qv = pvals(lv), qvals(lv)
    wv = rt(lv, [pv[i] for i in rot], XV, qv)
    w2v = rt(lv, pv, XV, wv)
    want = [qv[i] for i in rev] + pv + wv + [w2v[i] for i in rev] + qv
    for lang, g in generators().items():
        code = g.generate(cg.transpile(desc))
        e.count("functions_" + lang)
        if lang == "python":
            scope = {"np": np, "F" + text(l): lambda t, x, u: numeric(l, rt(lv, [read(t, v) for v in lv], x, [read(u, v) for v in lv]))}
            scope.update({c.__name__: c for c in CLS.values()})
            try:
                exec(code, scope)
                r = scope[name](numeric(l, pv), XV, numeric(l, qv), True)
            except Exception as x:
                e.violation("generated code fails", "%s %s: %r\n%s" % (lang, text(l), x, code))
                continue
            got = []
            by = dict(zip(["", "o", "w", "s", "t"], r))
            for key in ("", "o", "w", "s", "t"):
                shape = out_layout(n) if key in ("o", "w") else l
                got += [read(by[key], v) for v in leaves(shape)]
                if type(by[key]) is not cls(shape):
                    e.violation("type of a returned struct", "%s %s" % (text(l), type(by[key])))
            compare("python %s" % text(l), got, want)
            continue
        structs = []
        needed(l, structs)
        needed(out_layout(n), structs)
        ol = out_layout(n)
        if lang == "cpp":
            ext = sequential("F" + text(l), "const T%s& t, double x, const T%s& u" % (text(l), text(l)), l,
                             lambda k: "2 * %s + 3 * %s + %d%s" % (cpp_leaf("t", lv[k]), cpp_leaf("u", lv[k]), k, "" if lv[k][2] else " + x"), lang)
            main = "T%s p{}, q{}, s{}, t{}; T%s o{}, w{}; %s %s auto r = %s<double>(p, %r, q, o, w, s, &t); " % (text(l), text(ol), fill("p", l, pv, lang), fill("q", l, qv, lang), name, XV)
        else:
            ext = sequential("F" + text(l), "t: &T%s, x: f64, u: &T%s" % (text(l), text(l)), l,
                             lambda k: "2%s * %s + 3%s * %s + %d%s" % ("" if lv[k][2] else ".0", rust_leaf("t", lv[k]), "" if lv[k][2] else ".0", rust_leaf("u", lv[k]), k, "" if lv[k][2] else ".0 + x"), lang)
            main = "let mut p = T%s::default(); let mut q = p; let mut s = p; let mut t = p; let mut o = T%s::default(); let mut w = o; %s %s let r = %s(&p, %r, &q, &mut o, &mut w, &mut s, Some(&mut t)); " % (
                text(l), text(ol), fill("p", l, pv, lang), fill("q", l, qv, lang), name, XV)
        main += show("r", l, lang) + show("o", ol, lang) + show("w", ol, lang) + show("s", l, lang) + show("t", l, lang)
        RUN[lang].append((e.id, text(l), structs, [ext], code, main, want))
    e.state("run " + text(l))


# ---- external function signatures ------------------------------------------------------------------------
LA = ("S", (1, 2))
LB = ((2, 1), ("N", LA), "I")


class O(wf.Opaque):
    """An opaque type."""


KINDS = {"S": wf.FloatScalar, "V": Annotated[sym.MatrixExpr, type_annotations.Shape(rows=3, cols=1)],
         "M": Annotated[sym.MatrixExpr, type_annotations.Shape(rows=2, cols=2)], "A": cls(LA), "B": cls(LB), "O": O}
SHAPE = {"V": (3, 1), "M": (2, 2)}
LAY = {"A": LA, "B": LB}
TWIN = dataclasses.make_dataclass("T" + text(LA), [(NAMES[i], ann(k)) for i, k in enumerate(LA)])


def flat_kind(k):
    return 1 if k in "SO" else 3 if k == "V" else 4 if k == "M" else len(leaves(LAY[k]))


def values_of(k, v):
    """The numbers of a runtime value."""
    if k == "S":
        return [v]
    if k == "O":
        return [v.v]
    if k in SHAPE:
        assert v.shape == SHAPE[k], v.shape
        return list(v.ravel())
    return [read(v, x) for x in leaves(LAY[k])]


class RO:
    """An opaque value at run time."""
    def __init__(self, v):
        self.v = v


def ext_value(k, seed):
    n = flat_kind(k)
    v = [seed + 100 * i for i in range(n)]
    if k == "S":
        return float(v[0])
    if k == "O":
        return RO(float(v[0]))
    if k in SHAPE:
        return np.array(v, dtype=float).reshape(SHAPE[k])
    return numeric(LAY[k], [int(a) if x[2] else float(a) for a, x in zip(v, leaves(LAY[k]))])


def digest(args):
    """What the external functions compute from all numbers of all arguments: every position has its own weight."""
    return sum((2 * i + 3) * a for i, a in enumerate(args))


def signatures():
    for n in range(0, 3 + 1):
        for a in itertools.product("SVMABO", repeat=n):
            for r in "SVMABO":
                yield a, r
    kinds = "SVMABO"
    for off in range(6):
        for st in range(6):
            for r in kinds if TH else kinds[(off + st) % 6]:
                yield tuple(kinds[(off + i * st) % 6] for i in range(4)), r


def expressions_of(k, v):
    if k == "S":
        return [v]
    if k in SHAPE:
        return v.to_flat_list()
    if k == "O":
        return []
    return [read(v, x) for x in leaves(LAY[k])]


def check_signature(args, ret):
    sig = "%s -> %s" % ("".join(args), ret)
    names = ["z", "b", "y", "a"][:len(args)]

    def bad(kind, detail):
        e.violation(kind, "g(%s): %s" % (sig, detail))

    g = external_functions.declare_external_function("g", list(zip(names, [KINDS[k] for k in args])), KINDS[ret])
    if g.num_arguments != len(args) or [a.name for a in g.arguments] != names or [g.arg_position(x) for x in names] != list(range(len(args))) or g.arg_position("nope") is not None:
        bad("description of the function", "%r" % g)
    mk = external_functions.declare_external_function("mk", [("x", wf.FloatScalar)], O)
    rd = external_functions.declare_external_function("rd", [("o", O)], wf.FloatScalar)
    log = {}

    def actual(k, j, x, y, a1, a2, b1, op):
        """An argument of kind k for position j."""
        lit = [x, y + 1, x * y, a1.b[0, 1], b1.z[1, 0]]
        if k == "S":
            return lit[j]
        if k == "V":
            return sym.vector(lit[j], a2.z, b1.b.z + j)
        if k == "M":
            return sym.matrix([[lit[j], a2.b[0, 1]], [a1.z, b1.z[0, 0]]])
        if k == "A":
            return [a1, CLS[LA](z=lit[1] + j, b=a2.b), a2, b1.b][j]
        if k == "B":
            return [b1, CLS[LB](z=sym.vector(x, a1.z), b=a2, y=b1.y), CLS[LB](z=b1.z, b=b1.b, y=b1.y + 1)][j % 3]
        return [op, mk(x + 2), mk(a2.z), op][j]

    def body(x, y, a1, a2, b1, op):
        vals = [actual(k, j, x, y, a1, a2, b1, op) for j, k in enumerate(args)]
        r = g(*vals)
        base = expressions_of(ret, r) if ret != "O" else [rd(r)]
        # keyword arguments: every split and every order
        for m in range(len(args)):
            for perm in itertools.permutations(range(m, len(args))):
                kw = {names[i]: vals[i] for i in perm}
                r2 = g(*vals[:m], **kw)
                el = expressions_of(ret, r2) if ret != "O" else [rd(r2)]
                if not all(same(p, q) for p, q in zip(base, el)) or len(base) != len(el):
                    bad("keyword arguments", "%d positional, then %s" % (m, perm))
                e.decided()
            if not fails(lambda: g(*vals[:m + 1], **{names[m]: vals[m]}, **{names[i]: vals[i] for i in range(m + 2, len(args))})):
                bad("argument given twice", names[m])
        if not fails(lambda: g(*vals, x)) or args and not fails(lambda: g(*vals[:-1])) or args and not fails(lambda: g(*vals[:-1], nope=vals[-1])):
            bad("wrong number or name of arguments", "accepted")
        # arguments of another type
        pool = {"S": x, "V": sym.vector(x, y, x), "M": sym.matrix([[x, y], [y, x]]), "A": a1, "B": b1, "O": op,
                "row": sym.row_vector(x, y, x), "V2": sym.vector(x, y), "V4": sym.vector(x, y, x, y), "twin": TWIN(z=x, b=sym.row_vector(x, y)), "true": x < y}
        for j, k in enumerate(args):
            for kk, v in pool.items():
                if kk != k and not fails(lambda: g(*vals[:j], v, *vals[j + 1:])):
                    bad("argument of another type", "position %d given %s" % (j, kk))
                e.decided()
        # the same call once more, and a call that differs in one argument
        r3 = g(*vals)
        outs = list(base)
        other = []
        for j, k in enumerate(args):
            v2 = list(vals)
            v2[j] = {"S": lambda: y - 3, "V": lambda: sym.vector(a2.z, x, y), "M": lambda: sym.matrix([[y, x], [x, x]]), "A": lambda: CLS[LA](z=y, b=a1.b),
                     "B": lambda: CLS[LB](z=b1.z, b=a1, y=b1.y), "O": lambda: mk(y)}[k]()
            r4 = g(*v2)
            other.append(expressions_of(ret, r4) if ret != "O" else [rd(r4)])
            if any(same(p, q) for p, q in zip(base, other[-1])):
                bad("calls that differ in one argument", str(j))
            e.decided()
        again = expressions_of(ret, r3) if ret != "O" else [rd(r3)]
        if not all(same(p, q) for p, q in zip(base, again)):
            bad("the same call twice", str(again))
        outs += [o for os_ in other for o in os_]
        log["n"] = len(outs)
        return [cg.ReturnValue(cls(out_layout(len(outs)))(**{NAMES[0]: sym.vector(*outs)}))]

    name = "g%d" % e.id
    fa = [("x", wf.FloatScalar), ("y", wf.FloatScalar), ("a1", cls(LA)), ("a2", cls(LA)), ("b1", cls(LB)), ("op", O)]
    fn = make_function(name, fa, body)
    desc = cg.create_function_description(fn)
    # reference: the same calls on numbers
    x, y = 0.75, -1.5
    a1v, a2v, b1v, opv = [2.0, 3.5, 4.25], [-7.0, 8.5, 9.25], [11.0, 12.5, 13.5, 14.25, 15.75, 16], 21.0
    a1, a2, b1 = numeric(LA, a1v), numeric(LA, a2v), numeric(LB, b1v)

    def nums(k, j):
        lit = [x, y + 1, x * y, a1v[2], b1v[1]]
        if k == "S":
            return [lit[j]]
        if k == "V":
            return [lit[j], a2v[0], b1v[2] + j]
        if k == "M":
            return [lit[j], a2v[2], a1v[0], b1v[0]]
        if k == "A":
            return [a1v, [lit[1] + j] + a2v[1:], a2v, b1v[2:5]][j]
        if k == "B":
            return [b1v, [x, a1v[0]] + a2v + [b1v[5]], b1v[:5] + [b1v[5] + 1]][j % 3]
        return [[opv], [2 * (x + 2) + 1], [2 * a2v[0] + 1], [opv]][j]

    changed = {"S": [y - 3], "V": [a2v[0], x, y], "M": [y, x, x, x], "A": [y] + a1v[1:], "B": b1v[:2] + a1v + [b1v[5]], "O": [2 * y + 1]}

    def result(lists):
        d = digest([v for l in lists for v in l])
        if ret == "O":
            return [3 * (16 * d) - 1]
        out = []
        for i in range(flat_kind(ret)):
            out.append(16 * d + 100 * i)
        return out

    base = [nums(k, j) for j, k in enumerate(args)]
    want = result(base)
    for j, k in enumerate(args):
        want = want + result(base[:j] + [changed[k]] + base[j + 1:])
    assert all(float(v * 16).is_integer() for v in want)
    for lang, gen in generators().items():
        if lang != "python" and len(args) > 3:
            continue
        code = gen.generate(cg.transpile(desc))
        e.count("functions_" + lang)
        if lang == "python":
            trace = []

            def rg(*a):
                v = [n for k, b in zip(args, a) for n in values_of(k, b)]
                trace.append(tuple(v))
                return ext_value(ret, 16 * digest(v))
            scope = {"np": np, "g": rg, "mk": lambda x: RO(2 * x + 1), "rd": lambda o: 3 * o.v - 1, "O": RO}
            scope.update({c.__name__: c for c in CLS.values()})
            try:
                exec(code, scope)
                got = scope[name](x, y, a1, a2, b1, RO(opv))
            except Exception as ex:
                e.violation("generated code fails", "%s g(%s): %r\n%s" % (lang, sig, ex, code))
                continue
            compare("python g(%s)" % sig, list(getattr(got, NAMES[0]).ravel()), want)
            if len(trace) != len(args) + 1:
                bad("number of calls", "%d calls in\n%s" % (len(trace), code))
            continue
        ol = out_layout(log["n"])
        structs = []
        for l in (LA, LB, ol):
            needed(l, structs)
        types = {"cpp": {"S": "double", "V": "const Eigen::Matrix<double, 3, 1>&", "M": "const Eigen::Matrix<double, 2, 2>&", "A": "const T%s&" % text(LA), "B": "const T%s&" % text(LB), "O": "const O&"},
                 "rust": {"S": "f64", "V": "&Mat<3, 1, 3>", "M": "&Mat<2, 2, 4>", "A": "&T%s" % text(LA), "B": "&T%s" % text(LB), "O": "&O"}}[lang]
        rtypes = {k: t.replace("const ", "").replace("&", "") for k, t in types.items()}
        terms, i = [], 0
        for j, k in enumerate(args):
            v = "q%d" % j
            if k == "S":
                el = [v]
            elif k == "O":
                el = [v + ".v"]
            elif k in SHAPE:
                el = [(v + "(%d, %d)" if lang == "cpp" else v + ".at(%d, %d)") % rc for rc in itertools.product(range(SHAPE[k][0]), range(SHAPE[k][1]))]
            else:
                el = [(cpp_leaf if lang == "cpp" else rust_leaf)(v, lf) for lf in leaves(LAY[k])]
            for t in el:
                terms.append("%d * %s" % (2 * i + 3, t) if lang == "cpp" else "%d.0 * (%s as f64)" % (2 * i + 3, t))
                i += 1
        d = " + ".join(terms) or ("0" if lang == "cpp" else "0.0")
        gname = "g%dx" % e.id
        code = re.sub(r"\bg\(", gname + "(", code)
        if lang == "cpp":
            head = "%s %s(%s) { double d = 16 * (%s); %s r{}; " % (rtypes[ret], gname, ", ".join("%s q%d" % (types[k], j) for j, k in enumerate(args)), d, rtypes[ret])
            put = {"S": "r = d; ", "O": "r.v = d; "}.get(ret) or "".join("%s = d + %d; " % (("r(%d, %d)" % rc) if ret in SHAPE else cpp_leaf("r", rc), 100 * i) for i, rc in enumerate(
                itertools.product(range(SHAPE[ret][0]), range(SHAPE[ret][1])) if ret in SHAPE else leaves(LAY[ret])))
            ext = head + put + "return r; }\n"
            main = "T%s a1{}, a2{}; T%s b1{}; O op{%r}; %s %s %s auto r = %s<double>(%r, %r, a1, a2, b1, op); " % (
                text(LA), text(LB), opv, fill("a1", LA, a1v, lang), fill("a2", LA, a2v, lang), fill("b1", LB, b1v, lang), name, x, y)
        else:
            init = {"S": "0.0", "O": "O { v: 0.0 }"}.get(ret) or "%s::default()" % (rtypes[ret].replace("Mat<", "Mat::<"))
            head = "fn %s(%s) -> %s { let d = 16.0 * (%s); let mut r = %s; " % (gname, ", ".join("q%d: %s" % (j, types[k]) for j, k in enumerate(args)), rtypes[ret], d, init)
            put = {"S": "r = d; ", "O": "r.v = d; "}.get(ret) or "".join("%s = (d + %d.0) as %s; " % (("*r.at_mut(%d, %d)" % rc) if ret in SHAPE else rust_leaf("r", rc, True), 100 * i, "i64" if ret not in SHAPE and rc[2] else "f64") for i, rc in enumerate(
                itertools.product(range(SHAPE[ret][0]), range(SHAPE[ret][1])) if ret in SHAPE else leaves(LAY[ret])))
            ext = head + put + "r }\n"
            main = "let mut a1 = T%s::default(); let mut a2 = a1; let mut b1 = T%s::default(); let op = O { v: %r }; %s %s %s let r = %s(%r, %r, &a1, &a2, &b1, &op); " % (
                text(LA), text(LB), opv, fill("a1", LA, a1v, lang), fill("a2", LA, a2v, lang), fill("b1", LB, b1v, lang), name, x, y)
        main += show("r", ol, lang)
        RUN[lang].append((e.id, "g(%s)" % sig, structs, [ext], code, main, want))
    e.state("sig " + sig)


PRELUDE = {"cpp": r"""
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <vector>
namespace Eigen {
template <typename S, int R, int C> struct Matrix {
  S v[R * C]{};
  const S& operator()(int r, int c) const { return v[r * C + c]; }
  S& operator()(int r, int c) { return v[r * C + c]; }
  struct Init {
    Matrix m; int n;
    Init& operator,(S x) { m.v[n++] = x; return *this; }
    Matrix finished() { if (n != R * C) std::printf(" wrong-size"); return m; }
  };
  Init operator<<(S x) const { Init i{}; i.m.v[0] = x; i.n = 1; return i; }
};
}
struct O { double v; };
O mk(double x) { return O{2 * x + 1}; }
double rd(const O& o) { return 3 * o.v - 1; }
template <typename T> void P(T x) { std::printf(" %.17g", static_cast<double>(x)); }
""", "rust": r"""
#![allow(warnings)]
#[derive(Clone, Copy)] pub struct Mat<const R: usize, const C: usize, const N: usize> { v: [f64; N] }
impl<const R: usize, const C: usize, const N: usize> Default for Mat<R, C, N> { fn default() -> Self { Mat { v: [0.0; N] } } }
impl<const R: usize, const C: usize, const N: usize> Mat<R, C, N> {
  fn new(v: [f64; N]) -> Self { Mat { v } }
  fn at(&self, r: usize, c: usize) -> f64 { self.v[r * C + c] }
  fn at_mut(&mut self, r: usize, c: usize) -> &mut f64 { &mut self.v[r * C + c] }
}
#[derive(Clone, Copy)] pub struct O { v: f64 }
fn mk(x: f64) -> O { O { v: 2.0 * x + 1.0 } }
fn rd(o: &O) -> f64 { 3.0 * o.v - 1.0 }
"""}


def finish_runs():
    for lang, items in RUN.items():
        if not items:
            continue
        structs, exts = [], []
        for it in items:
            for l in it[2]:
                if l not in structs:
                    structs.append(l)
            for x in it[3]:
                if x not in exts:
                    exts.append(x)
        src = PRELUDE[lang] + "".join((cpp_struct if lang == "cpp" else rust_struct)(l) for l in structs) + "".join(exts)
        for it in items:
            src += it[4] + "\n"
            if lang == "cpp":
                src += "void run%d() { std::printf(\"CASE %d\"); %s std::printf(\"\\n\"); }\n" % (it[0], it[0], it[5])
            else:
                src += "fn run%d() { print!(\"CASE %d\"); %s println!(); }\n" % (it[0], it[0], it[5])
        src += ("int main() { %s }\n" if lang == "cpp" else "fn main() { %s }\n") % " ".join("run%d();" % it[0] for it in items)
        base = "%s_%s" % (e.out, lang)
        path = base + (".cc" if lang == "cpp" else ".rs")
        with open(path, "w") as f:
            f.write(src)
        cmd = ["g++", "-std=c++17", "-O0", "-w", "-fmax-errors=5", path, "-o", base + ".exe"] if lang == "cpp" else \
            ["rustc", "--edition=2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-A", "warnings", "--error-format=short", "-o", base + ".exe", path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            # attribute the failure to the functions
            lines = src.split("\n")
            hit = set()
            for m in re.finditer(r":(\d+):\d+: error", r.stderr):
                ln = int(m.group(1)) - 1
                while ln > 0 and not re.search(r"\b[fg](\d+)\(", lines[ln]):
                    ln -= 1
                q = re.search(r"\b[fg](\d+)\(", lines[ln])
                if q:
                    hit.add(int(q.group(1)))
            if not hit:
                raise RuntimeError("%s does not run: %s" % (cmd[0], r.stderr[:3000]))
            for h in sorted(hit):
                e.id = h
                e.violation("generated code does not compile", "%s: %s" % (lang, r.stderr[:1500]))
            continue
        o = subprocess.run([base + ".exe"], capture_output=True, text=True, timeout=600)
        got = {int(x.split()[1]): x.split()[2:] for x in o.stdout.split("\n") if x.startswith("CASE")}
        for it in items:
            e.id = it[0]
            e.count("programs_run")
            if it[0] not in got or "wrong-size" in got[it[0]]:
                e.violation("generated code fails", "%s %s: %s" % (lang, it[1], got.get(it[0])))
                continue
            compare("%s %s" % (lang, it[1]), [float(v) for v in got[it[0]]], it[6])


# ---- values that do not fit, and annotations ---------------------------------------------------------------
def fields_of(l, path=()):
    """Every field of the layout at every depth: (path, kind)."""
    for n, k in zip(NAMES, l):
        yield path + (n,), k
        if not isinstance(k, str) and k[0] == "N":
            yield from fields_of(k[1], path + (n,))


def replaced(l, values, changes):
    """The instance with the given fields (path -> value) set to something else."""
    inst = symbolic(l, values)
    for path, v in changes.items():
        obj = inst
        for n in path[:-1]:
            obj = getattr(obj, n)
        setattr(obj, path[-1], v)
    return inst


def block(shape, first):
    return sym.matrix([[sym.symbols("r%d" % (first + r * shape[1] + c)) for c in range(shape[1])] for r in range(shape[0])])


def misfits(k):
    """Values that are not of kind k."""
    shapes = sorted({(a, b) for a in range(1, 5) for b in range(1, 5)} | {(6, 1), (1, 6), (9, 1)})
    yield None
    yield "text"
    yield sym.symbols("a") < sym.symbols("b")
    if isinstance(k, str):
        for sh in [(1, 1), (2, 1)]:
            yield block(sh, 0)
    else:
        yield sym.symbols("w")
        yield sym.integer(2)
        for sh in shapes:
            if k[0] == "N" or sh != k and (sh[0] * sh[1] == k[0] * k[1] or abs(sh[0] * sh[1] - k[0] * k[1]) <= 2):
                yield block(sh, 0)
    if isinstance(k, str) or k[0] != "N":
        yield cls(("S",))(z=sym.symbols("w"))


def check_misfits(l):
    what = "T" + text(l)
    lv = leaves(l)
    t = internal(cls(l))
    s = [sym.symbols("s%d" % i) for i in range(len(lv))]
    x = sym.symbols("x")
    fn = external_functions.declare_external_function("F", [("t", cls(l)), ("x", wf.FloatScalar)], wf.FloatScalar)
    fr = external_functions.declare_external_function("H", [("x", wf.FloatScalar)], cls(l))
    made = fr(x)
    uses = [("map_expressions_out_of_custom_type", lambda v: custom_types.map_expressions_out_of_custom_type(v, t)),
            ("ReturnValue", lambda v: cg.create_function_description(make_function("f", [("x", wf.FloatScalar)], lambda x: [cg.ReturnValue(v)]))),
            ("a bare result", lambda v: cg.create_function_description(make_function("f", [("x", wf.FloatScalar)], lambda x: v))),
            ("OutputArg", lambda v: cg.create_function_description(make_function("f", [("x", wf.FloatScalar)], lambda x: [cg.OutputArg(v, "o")]))),
            ("an external argument", lambda v: fn(v, x))]
    # what fits is accepted
    for v in (symbolic(l, s), made):
        for name, use in uses:
            use(v)
            e.decided()

    def refuse(changes, why):
        v = replaced(l, s, changes)
        for name, use in uses:
            if not fails(lambda: use(v)):
                e.violation("a value that does not fit is accepted", "%s in %s: %s" % (name, what, why))
            e.decided()

    fs = list(fields_of(l))
    for path, k in fs:
        for v in misfits(k):
            refuse({path: v}, "%s (%s) set to %s" % (".".join(path), text((k,)), repr(v)[:80]))
    # two fields whose sizes change against each other, so that the total stays the same
    mats = [(p, k) for p, k in fs if not isinstance(k, str) and k[0] != "N"]
    for (p, a), (q, b) in itertools.combinations(mats, 2):
        for ra in range(1, a[0] * a[1] + b[0] * b[1]):
            n = a[0] * a[1] + b[0] * b[1] - ra
            if ra != a[0] * a[1]:
                refuse({p: block((ra, 1), 0), q: block((n, 1), ra)}, "%s and %s set to columns of %d and %d" % (".".join(p), ".".join(q), ra, n))
        if a != b:
            refuse({p: block(b, 0), q: block(a, 20)}, "%s and %s exchanged" % (".".join(p), ".".join(q)))
    # the value of another type, and something that is no instance at all
    for v in (cls(l), {n: s[0] for n in NAMES}, list(s), None, sym.symbols("w"), "text"):
        for name, use in (uses[0], uses[4]):
            if isinstance(v, sym.Expr) and name != "map_expressions_out_of_custom_type":
                pass
            if not fails(lambda: use(v)):
                e.violation("a value that does not fit is accepted", "%s for %s: %r" % (name, what, v))
            e.decided()
    e.state("misfits " + what)


def check_annotations():
    """Every built-in annotation denotes what its name says; every malformed one is refused, wherever it is used."""
    for name in dir(type_annotations):
        m = re.fullmatch(r"(Vector|Matrix)(\d+)(?:x(\d+))?", name)
        if not m:
            continue
        r = int(m.group(2))
        want = (r, int(m.group(3))) if m.group(3) else (r, 1) if m.group(1) == "Vector" else (r, r)
        a = getattr(type_annotations, name)
        t = internal(a)
        got = []
        d = cg.create_function_description(make_function("f", [("m", a)], lambda m: (got.append(m), [cg.ReturnValue(m)])[1]))
        ext = external_functions.declare_external_function("E", [("m", a)], a)
        fld = internal(dataclasses.make_dataclass("Holder", [("m", a)]))
        if getattr(wf, name, a) != a or t.shape != want or got[0].shape != want or d.arguments[0].type.shape != want \
                or ext.arguments[0].type.shape != want or ext.return_type.shape != want or ext(got[0]).shape != want or fld.fields[0].type.shape != want:
            e.violation("annotation", "%s: %s" % (name, t))
        e.decided(9)
    sc, mx, sh, nt = sym.Expr, sym.MatrixExpr, type_annotations.Shape, type_info.NumericType
    wrong = [("Expr", sc), ("MatrixExpr", mx), ("int", int), ("float", float), ("str", str), ("a string", "wf.FloatScalar"), ("object", object), ("list", list[sym.Expr]),
             ("Annotated int", Annotated[int, nt.Float]), ("Annotated BooleanExpr", Annotated[sym.BooleanExpr, nt.Bool]), ("Boolean scalar", Annotated[sc, nt.Bool]),
             ("scalar without a type", Annotated[sc, "text"]), ("scalar with a shape", Annotated[sc, sh(1, 1)]), ("scalar of two types", Annotated[sc, nt.Float, nt.Integer]),
             ("matrix without a shape", Annotated[mx, "text"]), ("matrix with a type only", Annotated[mx, nt.Float]), ("matrix of two shapes", Annotated[mx, sh(2, 1), sh(1, 2)]),
             ("matrix of the same shape twice", Annotated[mx, sh(2, 1), sh(2, 1)]),
             ("an empty dataclass", dataclasses.make_dataclass("Empty", [])), ("a plain class", type("Plain", (), {})), ("np.ndarray", np.ndarray)]
    x = sym.symbols("x")
    for name, a in wrong:
        deep = a
        for depth in range(4):
            places = [("argument", lambda: cg.create_function_description(make_function("f", [("p", deep)], lambda p: x))),
                      ("second argument", lambda: cg.create_function_description(make_function("f", [("x", wf.FloatScalar), ("p", deep)], lambda x, p: x))),
                      ("external argument", lambda: external_functions.declare_external_function("E", [("p", deep)], wf.FloatScalar)),
                      ("second external argument", lambda: external_functions.declare_external_function("E", [("x", wf.IntScalar), ("p", deep)], wf.FloatScalar)),
                      ("external result", lambda: external_functions.declare_external_function("E", [("x", wf.FloatScalar)], deep))]
            for place, use in places:
                if not fails(use):
                    e.violation("malformed annotation accepted", "%s as %s at depth %d" % (name, place, depth))
                e.decided()
            deep = dataclasses.make_dataclass("D%d" % depth, [("a", wf.Vector2), ("b", deep), ("c", wf.FloatScalar)])
    def bare(x, y: wf.FloatScalar):
        return x
    if not fails(lambda: cg.create_function_description(bare)):
        e.violation("malformed annotation accepted", "no annotation at all")
    e.decided()
    e.state("annotations")


def check_results():
    """One result may stand for a sequence of one; every kind of sequence is the same; anything else is refused."""
    lay = ((1, 2), "S")
    args = [("x", wf.FloatScalar), ("m", wf.Vector2), ("p", cls(lay))]
    values = {"scalar": lambda x, m, p: x + m[0], "matrix": lambda x, m, p: m * x, "struct": lambda x, m, p: cls(lay)(z=m.T * x, b=p.b), "argument": lambda x, m, p: p}

    def code(body, g):
        return cg.generate_function(make_function("f", args, body), g)

    R, A = cg.ReturnValue, cg.OutputArg
    for g in generators().values():
        for k, v in values.items():
            want = code(lambda *a: [R(v(*a))], g)
            for name, body in (("bare", v), ("ReturnValue", lambda *a: R(v(*a))), ("tuple", lambda *a: (R(v(*a)),)), ("generator", lambda *a: (R(q) for q in [v(*a)]))):
                if code(body, g) != want:
                    e.violation("one result", "%s as %s: %s" % (k, name, code(body, g)))
                e.decided()
            for opt in (False, True):
                want = code(lambda *a: [A(v(*a), "o", is_optional=opt)], g)
                for name, body in (("OutputArg", lambda *a: A(v(*a), "o", is_optional=opt)), ("tuple", lambda *a: (A(v(*a), "o", is_optional=opt),))):
                    if code(body, g) != want:
                        e.violation("one result", "output %s as %s: %s" % (k, name, code(body, g)))
                    e.decided()
            for j, w in values.items():
                base = code(lambda *a: [R(v(*a)), A(w(*a), "o")], g)
                for name, body in (("tuple", lambda *a: (R(v(*a)), A(w(*a), "o"))), ("output first", lambda *a: [A(w(*a), "o"), R(v(*a))])):
                    if code(body, g) != base:
                        e.violation("results of a sequence", "%s, %s as %s: %s" % (k, j, name, code(body, g)))
                    e.decided()
                refused = [("a value without ReturnValue", lambda *a: [v(*a), A(w(*a), "o")]), ("a value without OutputArg", lambda *a: [R(v(*a)), w(*a)]),
                           ("two return values", lambda *a: [R(v(*a)), R(w(*a))]), ("an output twice", lambda *a: [A(v(*a), "o"), A(w(*a), "o")]),
                           ("an output with the name of an argument", lambda *a: [A(v(*a), "x")]), ("nothing", lambda *a: None), ("None", lambda *a: [None]), ("a pair", lambda *a: [(v(*a), "o")])]
                for name, body in refused:
                    if not fails(lambda: code(body, g)):
                        e.violation("results that are none", "%s with %s and %s accepted" % (name, k, j))
                    e.decided()
    e.state("results")


for l in layouts():
    for check in (check_layout, check_run, check_misfits):
        if e.next():
            e.about("%s %s" % (check.__name__, text(l)))
            check(l)
            e.sample(lambda: "%s T%s: %d elements %s" % (check.__name__, text(l), len(leaves(l)), [x[0] for x in leaves(l)][:6]))
for a, r in signatures():
    if e.next():
        e.about("signature %s -> %s" % ("".join(a), r))
        check_signature(a, r)
        e.sample(lambda: "signature g(%s) -> %s" % (", ".join(a), r))
for check in (check_annotations, check_results):
    if e.next():
        e.about(check.__name__)
        check()
        e.sample(lambda: check.__doc__)
finish_runs()
e.finish()
