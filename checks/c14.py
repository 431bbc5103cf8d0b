"""C14: every function of the families is generated as Rust, compiled with rustc and run."""
import os, re, shutil, subprocess
import codegen, wfbuild


def run(ctx):
    d = os.path.join(ctx.scratch, "rs")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(codegen.VERIF, "harness", "gen", "prelude.rs"), d)
    shutil.copy(wfbuild.REPO + "/components/rust/wrenfold-traits/src/traits.rs", d)

    def compile_(path, exe):
        return subprocess.run(["rustc", "--edition=2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-A", "warnings", "--error-format=short", "-o", exe, path], capture_output=True, text=True)

    def one(path):
        base = path[:-3]
        src = open(path).read().replace('include!("prelude.rs");', 'include!("%s/prelude.rs");' % d, 1)
        bad, exe = [], base + ".x"
        # A file is compiled again without the functions that do not compile, so that the others run.
        for attempt in range(6):
            open(path, "w").write(src)
            r = compile_(path, exe)
            if not r.returncode:
                break
            lines = src.split("\n")
            seen = {}
            for m in re.finditer(r"^[^\n:]*%s:(\d+):\d+: error(?:\[\w+\])?: (.*)$" % re.escape(os.path.basename(path)), r.stderr, re.M):
                ln = int(m.group(1)) - 1
                while ln > 0 and not re.search(r"\bfn (?:f|drv_)(\d+[bt][a-z])\b", lines[ln]):
                    ln -= 1
                q = re.search(r"\bfn (?:f|drv_)(\d+[bt][a-z])\b", lines[ln])
                if q and q.group(1) not in seen:
                    seen[q.group(1)] = 1
                    bad.append((q.group(1), "does not compile: " + m.group(2)))
            if not seen:
                return 0, 0, bad + [(None, "compiler error: " + r.stderr[:1500])]
            for u in seen:
                src = remove(src, u)
        else:
            return 0, 0, bad
        r = subprocess.run([exe, base + ".bin"], capture_output=True, text=True, timeout=600)
        os.unlink(exe)
        c, v, b2 = codegen.parse_driver(r.stdout, path)
        bad += b2
        if r.returncode or "DONE" not in r.stdout:
            bad.append((None, "the driver failed (%d): %s" % (r.returncode, r.stderr[-500:])))
        return c, v, bad
    codegen.explore(ctx, "rust", 400, "rs", one)
    ctx.assumptions.append("rustc -C opt-level=0 with overflow checks; functions whose value is not determined at a point are not compared there")


def remove(src, u):
    src = re.sub(r"#\[inline\]\n(?:#\[allow[^\n]*\n)?pub fn f%s<.*?\n}\n" % u, "", src, count=1, flags=re.S)
    src = re.sub(r"fn drv_%s\(.*?\n}\n" % u, "", src, count=1, flags=re.S)
    return re.sub(r"Entry { id: \"%s\"[^\n]*\n" % u, "", src, count=1)
