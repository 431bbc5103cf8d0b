"""Builds what a check needs from the current tree of /repo, outside /repo.

The core library is compiled as a few "unity" translation units (the same sources the project's
CMake target lists, found by globbing, so added or removed files are picked up).  If a unity unit
does not compile (two files may define the same file-local name), its files are compiled one by
one instead, so that a refactoring cannot make the build fail here when it does not fail there.
"""
import os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("WF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = REPO + "/components/core"
NB = "/opt/vp/nanobind-2.12.0/nanobind"
VENV_PY = "/opt/vp/venv/bin/python"
NPROC = os.cpu_count() or 8

# Compile-time hints (seconds); only used to balance the units.
WEIGHT = {"substitute.cc": 15, "control_flow_graph.cc": 11, "ir_form_visitor.cc": 10.5,
          "ast_conversion.cc": 7, "addition.cc": 6.5, "factorizer.cc": 6, "ir_value.cc": 6,
          "ir_control_flow_converter.cc": 5.5, "ir_block.cc": 5, "distribute.cc": 5,
          "relational.cc": 5, "expr_from_ir.cc": 5, "ast.cc": 5, "python_code_generator.cc": 4.5,
          "expression.cc": 4.5, "utility_visitors.cc": 4.3, "matrix_functions.cc": 4.2,
          "functions.cc": 4, "cpp_code_generator.cc": 4, "evaluate.cc": 4, "derivative.cc": 3.7,
          "binarizer.cc": 3.5, "cse.cc": 3.5, "matrix_expression.cc": 3.2,
          "nb_combined.cpp": 12, "scalar_wrapper.cc": 10, "matrix_wrapper.cc": 12,
          "ast_wrapper.cc": 10, "codegen_wrapper.cc": 9, "code_formatting_wrapper.cc": 9,
          "geometry_wrapper.cc": 7, "sympy_conversion.cc": 7, "types_wrapper.cc": 6}


def base_flags(opt):
    return [opt, "-std=gnu++20", "-fPIC", "-w", "-DNDEBUG", "-DFMT_HEADER_ONLY=1",
            "-ffunction-sections", "-fdata-sections",
            "-I" + CORE, "-I" + REPO + "/components/runtime", "-I" + VERIF + "/harness",
            "-I/usr/include/eigen3"]


def py_flags():
    inc = subprocess.check_output(
        [VENV_PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
    return ["-I" + NB + "/include", "-I" + NB + "/ext/robin_map/include", "-I" + NB + "/src", "-I" + inc,
            "-fvisibility=hidden", "-fno-strict-aliasing", "-DNB_DOMAIN=wf_abi_domain",
            "-DPY_MODULE_NAME=pywrenfold", '-DPY_MODULE_VERSION="dev"'] + submodule_defs()


def submodule_defs():
    names = set()
    for f in find_sources(REPO + "/components/wrapper/pywrenfold"):
        names |= set(re.findall(r"PY_SUBMODULE_NAME_(\w+)", open(f).read()))
    return ['-DPY_SUBMODULE_NAME_%s="%s"' % (n, n.lower()) for n in sorted(names)]


def find_sources(root):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".cpp"))]
    return sorted(out)


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, scratch, cc="clang++", opt="-O1", extra=()):
        self.scratch, self.cc, self.opt, self.extra = scratch, cc, opt, list(extra)
        self.log = []

    def _cc(self, flags, src, obj):
        r = subprocess.run([self.cc] + flags + ["-c", src, "-o", obj], capture_output=True, text=True)
        return r.returncode, r.stderr

    def _unit(self, name, flags, srcs):
        if len(srcs) == 1:
            u = srcs[0]
        else:
            u = os.path.join(self.scratch, name + ".cc")
            with open(u, "w") as f:
                f.write("".join('#include "%s"\n' % s for s in srcs))
        t = time.time()
        o = os.path.join(self.scratch, name + ".o")
        rc, err = self._cc(flags, u, o)
        self.log.append((name, round(time.time() - t, 1), rc))
        if rc == 0:
            return [o]
        if len(srcs) == 1:
            raise BuildError("compiling %s failed:\n%s" % (u, err[-4000:]))
        objs = []

        def one(i):
            oi = os.path.join(self.scratch, "%s_%d.o" % (name, i))
            rc, err = self._cc(flags, srcs[i], oi)
            if rc:
                raise BuildError("compiling %s failed:\n%s" % (srcs[i], err[-4000:]))
            return oi
        with ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(one, range(len(srcs))))
        return objs

    def compile(self, core=None, wrapper=False, mains=(), ngroups=None, harness_opt=None):
        """core: None | 'core' | 'full'; mains: harness sources. Returns dict with object lists."""
        jobs = []  # (weight, kind, name, flags, srcs)
        fl = base_flags(self.opt) + self.extra
        for m in mains:
            hf = base_flags(harness_opt or self.opt) + self.extra
            jobs.append((25, "main", "h_" + os.path.basename(m).replace(".", "_"), hf, [m]))
        pool, flags_of = [], {}
        if core:
            srcs = find_sources(CORE + "/wf")
            if core == "core":
                keep = ("types.cc", "type_registry.cc")
                srcs = [s for s in srcs if "/code_generation/" not in s or os.path.basename(s) in keep]
            pool.append(("core", fl, srcs))
        if wrapper:
            w = find_sources(REPO + "/components/wrapper/pywrenfold") + [NB + "/src/nb_combined.cpp"]
            pool.append(("wrap", fl + py_flags(), w))
        # Files that define file-scope names in the shared namespace are kept in separate units.
        apart = {"python_code_generator.cc", "rust_code_generator.cc", "cpp_code_generator.cc"}
        for kind, flags, srcs in pool:
            def wt(s):
                return WEIGHT.get(os.path.basename(s), 1.5 if kind == "core" else 5)
            total = sum(map(wt, srcs))
            n = ngroups or max(1, min(len(srcs), {"core": NPROC, "wrap": NPROC}[kind]))
            groups = [[0.0, []] for _ in range(n)]
            for s in sorted(srcs, key=lambda s: (-wt(s), s)):
                b = os.path.basename(s)
                cand = sorted(groups, key=lambda g: g[0])
                if b == "nb_combined.cpp":
                    jobs.append((wt(s) + 5, kind, "nb", flags, [s]))
                    continue
                for g in cand:
                    if b in apart and any(os.path.basename(x) in apart for x in g[1]):
                        continue
                    g[0] += wt(s)
                    g[1].append(s)
                    break
            for i, g in enumerate(groups):
                if g[1]:
                    jobs.append((g[0] + 4, kind, "%s%d" % (kind, i), flags, g[1]))
        jobs.sort(key=lambda j: -j[0])
        out = {"main": {}, "core": [], "wrap": []}
        with ThreadPoolExecutor(NPROC) as ex:
            fs = [(j, ex.submit(self._unit, j[2], j[3], j[4])) for j in jobs]
            for j, f in fs:
                objs = f.result()
                if j[1] == "main":
                    out["main"][j[4][0]] = objs[0]
                else:
                    out[j[1]] += objs
        return out

    def link(self, objs, exe, libs=(), shared=False):
        r = subprocess.run([self.cc, "-o", exe] + (["-shared"] if shared else []) +
                           ["-Wl,--gc-sections"] + list(objs) + list(libs) + self.extra + ["-lpthread"],
                           capture_output=True, text=True)
        return r.returncode, r.stderr

    def harness(self, main, core="core", harness_opt=None):
        """Builds one harness executable."""
        exe = os.path.join(self.scratch, "harness")
        o = self.compile(core=core, mains=[main], harness_opt=harness_opt)
        rc, err = self.link([o["main"][main]] + o["core"], exe, absl_libs())
        if rc and core == "core":
            # Some source moved; take everything.
            o2 = self.compile(core="full")
            rc, err = self.link([o["main"][main]] + o2["core"], exe, absl_libs())
        if rc:
            raise BuildError("link failed:\n" + err[-4000:])
        return exe

    def python_module(self, main=None, harness_opt=None):
        """Builds pywrenfold; returns the directory to put on PYTHONPATH (with wrenfold package).
        With main: builds a harness executable from the same objects as well, and returns both."""
        o = self.compile(core="full", wrapper=True, mains=[main] if main else [], harness_opt=harness_opt)
        d = os.path.join(self.scratch, "py")
        os.makedirs(d, exist_ok=True)
        suffix = subprocess.check_output(
            [VENV_PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
        rc, err = self.link(o["core"] + o["wrap"], os.path.join(d, "pywrenfold" + suffix), absl_libs(), shared=True)
        if rc:
            raise BuildError("link of pywrenfold failed:\n" + err[-4000:])
        if main:
            exe = os.path.join(self.scratch, "harness")
            rc, err = self.link([o["main"][main]] + o["core"], exe, absl_libs())
            if rc:
                raise BuildError("link failed:\n" + err[-4000:])
            return d, exe
        return d


_absl = None


def absl_libs():
    global _absl
    if _absl is None:
        try:
            s = subprocess.check_output(["pkg-config", "--libs", "absl_hash", "absl_flat_hash_map", "absl_flat_hash_set",
                                         "absl_inlined_vector", "absl_span", "absl_strings", "absl_synchronization"],
                                        text=True, stderr=subprocess.DEVNULL)
            _absl = s.split()
        except Exception:
            _absl = ["-labsl_raw_hash_set", "-labsl_hash", "-labsl_city", "-labsl_low_level_hash",
                     "-labsl_throw_delegate", "-labsl_raw_logging_internal", "-labsl_hashtablez_sampler",
                     "-labsl_strings"]
    return _absl


if __name__ == "__main__":
    d = tempfile.mkdtemp(prefix="wfb.")
    try:
        b = Builder(d, cc=os.environ.get("WCC", "clang++"), opt=os.environ.get("WOPT", "-O1"))
        t = time.time()
        if sys.argv[1] == "py":
            print(b.python_module())
        else:
            print(b.harness(os.path.abspath(sys.argv[1]), core=sys.argv[2] if len(sys.argv) > 2 else "core"))
        print(b.log, time.time() - t)
        if len(sys.argv) > 3:
            shutil.copytree(d, sys.argv[3], dirs_exist_ok=True)
    finally:
        shutil.rmtree(d)
