#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "an independent reference evaluator over complex numbers with running error bounds (harness/refeval.h)"
T = {
    "C01": ("explicit-state exploration of all arithmetic construction sequences up to depth 2-3 on the real library against a reference evaluator",
            "Every binary/unary arithmetic operation on every pair of states of the pools is executed on the real code and compared with " + ORACLE + " at up to 60 points. Values outside the alphabet, and points within rounding distance of branch cuts, are not decided."),
    "C02": ("explicit-state exploration of all function / relational / conditional constructions over an operand pool on the real library against a reference evaluator",
            "Every function, comparison, conditional, min/max, cast on every (pair, triple) of states of the pool is executed and compared with " + ORACLE + "."),
    "C03": ("exhaustive enumeration of all pairs and triples of a pool of expressions of every node kind on the real identity / hash / order functions, and of all permutations of operand lists",
            "Equivalence, hash agreement, antisymmetry, transitivity and consistency are checked for every pair and triple of the pools (bounded by the pool, not by sampling); operand permutations up to 4 (thorough 5) operands."),
    "C16": ("exhaustive enumeration of operations over a lattice of boundary 64-bit integers, rationals and floats on the real code against arbitrary-precision arithmetic",
            "Every operation on every pair (and triples for sums/products) of the lattice is compared with exact cpp_int / cpp_rational results; integers off the lattice are not decided."),
    "C04": ("bounded-exhaustive exploration of differentiations on the real library against a numeric differentiation oracle",
            "Every expression of the pools x every variable (orders 1-3) is differentiated by the real code and compared with contour-integral / finite-difference derivatives of the reference evaluator; points near singularities are not decided."),
    "C05": ("bounded-exhaustive exploration of substitutions (every target x replacement x expression of the pools, and all lists of two / three pairs) on the real library against a reference evaluator",
            "A substituted expression must evaluate like the original with the target bound to the value of the replacement; unchanged when the target is absent, and the target gone when present. Two known findings (bound variables of derivative and substitution nodes)."),
    "C06": ("bounded-exhaustive exploration of collect / distribute / eval over all sums and products of factor pools on the real library against a reference evaluator, with the promised form as an invariant",
            "Every expression of the pools x every list of terms: equal value at all points, no uncollected power, no unexpanded product, evaluated constants are numbers."),
    "C07": ("bounded-exhaustive exploration of common subexpression elimination over expressions with all sharing patterns of the pools on the real library; definitions replayed and substituted back",
            "Order, freshness, use, completeness and value of the definitions are checked for each (expression, min_occurrences, naming)."),
    "C08": ("bounded-exhaustive exploration of matrix operations over all shapes and operand combinations of the pools on the real library against element-wise definitions and a reference evaluator",
            "Every operation on every pair of matrices of the pools (all shapes up to 4x4, including mismatched ones, which must raise errors) is compared element by element."),
    "C09": ("exhaustive enumeration of all matrices over small alphabets (symbols, zeros, integers; zero patterns) on the real factorisation / determinant against a reference evaluator",
            "PA Q = L U, triangularity, permutation, determinant and adjugate are checked for every matrix of the families (shapes up to 6x6). Factorisations are compared where the pivots chosen by the elimination do not vanish."),
    "C10": ("bounded-exhaustive exploration of quaternion / SO(3) operations over all combinations of symbolic component patterns and a lattice of rotations on the real code against rotation algebra in long double",
            "Every operation x every pattern of components x every rotation of the lattice (angles around 0, pi, 2 pi, thresholds). Values within rounding distance of branch boundaries are not decided."),
    "C11": ("explicit-state exploration of the intermediate representation: every function of an enumerated family is lowered, optimised, converted and turned into a syntax tree by the real code, every resulting program is executed along every path by an interpreter and compared with the reference evaluator of the symbolic definition",
            "All functions of the families (scalar, conditional, custom types and external functions, optional outputs, sums) x optimiser configurations x optional-output masks x points. Undecidable comparisons explore both branches (structure only)."),
    "C12": ("bounded-exhaustive exploration of generated programs: every function of an enumerated family is generated as C++ by the real code (spans and Eigen, with and without ternaries), compiled and executed for every combination of optional outputs, against the reference evaluator of the symbolic definition",
            "All functions of the families x variants x optional-output masks x points; the compiled program must compile, write exactly the requested outputs, and produce the values of the symbolic definition. Points where the value is not determined in double precision are not compared."),
    "C13": ("bounded-exhaustive exploration of generated programs: every function of an enumerated family is generated as Python for NumPy, JAX, Numba and PyTorch by the real code and executed for every combination of optional outputs, against the reference evaluator of the symbolic definition",
            "All functions of the families x targets (NumPy with and without output arguments, float32, JAX, Numba, PyTorch) x optional-output masks x points; must import, return exactly the requested outputs with their shapes and precision, and produce the values of the symbolic definition."),
    "C14": ("bounded-exhaustive exploration of generated programs: every function of an enumerated family is generated as Rust by the real code, compiled with rustc and executed for every combination of optional outputs, against the reference evaluator of the symbolic definition",
            "All functions of the families x with / without conditional expressions x optional-output masks x points; must compile, write exactly the requested outputs, and produce the values of the symbolic definition."),
    "C15": ("exhaustive exploration of histories and allocation environments of the real library: every ordered pair of operations (thorough: under every allocation policy, and triples) is run in a forked process, after which every operation of the alphabet is probed and compared with its result in a fresh process; every function of the code generation families is generated under every allocator policy, forwards and backwards",
            "63 operations; 6 allocation policies (addresses ascending, descending, alternating, scattered, reused and poisoned) and 60 / 200 scatterings; 8 / 24 images of the process. Unique variables, which are numbered globally by design, are compared up to renaming."),
    "C17": ("exhaustive enumeration of span types and uses (shape x compile-time/run-time kind of every dimension and stride x layout x block, and every Eigen storage, map, reference, block, row, column, transposition) instantiated from the real header and executed, against address arithmetic and Eigen's own element access",
            "Shapes to 4x4 (compile time) and 4x4 / 6x6 (run time), all blocks and all blocks of blocks, positions beyond 2^32 elements, four dimensions; elements are compared by address."),
    "C18": ("bounded-exhaustive exploration of printed expressions: every kind of node in every operand position, all two-operation combinations of an awkward set, every float exponent; the text printed by the real code is parsed by an independent reader and compared with the value of the expression at all points",
            "All pairs of ~220 operands under every binary construction, all triples of 31 (thorough 40) signed / rational / reciprocal operands under all pairs of operators, float exponents x mantissa patterns, matrices to 4x4, external functions of every signature."),
    "C19": ("bounded-exhaustive exploration of conversions: every wrenfold construction over leaf alphabets and every supported SymPy head over operand alphabets is converted by the real module in both directions; values from an independent evaluator of each tree at all points of a lattice, plus identity of the round trip",
            "~95,000 conversions (all unary / binary / ternary constructions over leaves, piecewise, derivatives, substitutions, relationals, floats, numbers, matrices, names x assumptions), evaluate True and False."),
    "C20": ("bounded-exhaustive exploration of struct layouts and signatures: every layout of the alphabet is flattened, built, read, differentiated and substituted through the real Python and C++ interfaces, every signature is called in every argument form, and generated Python, C++ and Rust is run against an own walk over the elements",
            "All layouts of up to 3 fields (thorough 4) of 5 kinds, nesting to depth 4; all external-function signatures of up to 3 arguments of 6 kinds and 6 results; every field at every depth set to every non-fitting value; every built-in annotation; 89 C++ struct templates in declaration and permuted registration order."),
    "C21": ("bounded-exhaustive exploration of the Python module: all index and slice forms on all shapes, all operators on all operand kinds, all named functions, constructors and quaternion methods on the built module, against NumPy and Python arithmetic",
            "Shapes to 4x4, indices -6..6, slices with bounds None/-6..6 and steps None/+-1..3, all sequences of up to 4 description-building calls, every operator x operand kind x value pair of a lattice. One known finding (Expr.eval does not evaluate; nine inputs)."),
    "C23": ("bounded-exhaustive exploration of functions x generators x overrides: every term up to depth 2 in every kind of output, under all optimisation settings, is generated by every generator with every single override, all at once, and by a generator written from scratch whose code is run; every node is reached over every path with everything else released",
            "Terms to depth 2 over 16 leaves, 14 unary and 9 binary operations; 10 kinds of output; 6 settings; 7 generators; 33 overridable types; nesting to 200. The tree is compared with an own walk over its attributes, the code of the from-scratch generator with the terms computed with floats."),
    "C22": ("explicit-state exploration of constructed expressions; inferred set checked as an invariant of every state",
            "The inferred numeric set of every reachable expression is compared with its values at all points of the domains of its variables (reference evaluator). Two known findings are listed by node form."),
}
checks = [{"property": k, "quick_cmd": "python3 tools/check.py %s quick" % k, "thorough_cmd": "python3 tools/check.py %s thorough" % k,
           "evidence_file": "evidence/%s.json" % k, "technique": v[0], "level": "model_checking", "level_note": v[1]} for k, v in sorted(T.items())]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": "no check has been built for it yet"} for p in props if p not in T]
m = {"version": 1, "setup_cmd": "python3 -m py_compile tools/check.py tools/wfbuild.py && mkdir -p evidence", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check builds the library from /repo's working tree and uses its public interfaces."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
