"""Shared by C12, C13 and C14: writes generated code with harness/gen.cc, builds and runs it."""
import glob, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import wfbuild

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSH = 8


class Generated:
    def __init__(self, ctx, lang, chunk):
        self.ctx, self.lang, self.chunk = ctx, lang, chunk
        b = wfbuild.Builder(ctx.scratch, cc="g++", opt="-O1")
        t = time.time()
        self.exe = b.harness(os.path.join(VERIF, "harness", "gen.cc"), core="full")
        ctx.extra["build_s"] = round(time.time() - t, 1)
        self.keys = {}

    def write(self, d, only=None):
        """Generates all functions (or one) into directory d; returns (stats, errors)."""
        os.makedirs(d, exist_ok=True)
        n = 1 if only is not None else NSH

        def one(i):
            cmd = [self.exe, self.lang, d, self.ctx.tier, str(i), str(n), str(self.chunk)]
            if only is not None:
                cmd.append(str(only))
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=1500)
            if r.returncode:
                raise RuntimeError("generator failed (%s) %s %s" % (r.returncode, r.stdout[-1000:], r.stderr[-1000:]))
            return [int(x) for x in r.stdout.split()]
        with ThreadPoolExecutor(NSH) as ex:
            st = [sum(c) for c in zip(*ex.map(one, range(n)))]
        errs = []
        for i in range(n):
            for l in open(os.path.join(d, "index%d" % i)):
                k, v = l.rstrip("\n").split("\t", 1)
                self.keys[int(k)] = v
            for l in open(os.path.join(d, "errors%d" % i)):
                k, key, what = l.rstrip("\n").split("\t", 2)
                errs.append((int(k), key, "no code is generated: " + what))
        return st, errs

    def files(self, d, ext):
        return sorted(glob.glob(os.path.join(d, "c*_*." + ext)))


def source_of(path, fname):
    """The text of function `fname` in a generated file."""
    s = open(path).read()
    i = s.find(fname)
    if i < 0:
        return ""
    a = max(s.rfind("\n\n", 0, i), s.rfind("\n}\n", 0, i), 0)
    b = s.find("\n}\n", i)
    return s[a:b + 2].strip()[:1500]


def explore(ctx, lang, chunk, ext, build_and_run):
    """build_and_run(path) -> (calls, values, [(uid or None, detail)])"""
    g = Generated(ctx, lang, chunk)

    def run(d, only=None):
        st, errs = g.write(d, only)
        fails = list(errs)
        calls = values = 0
        fs = g.files(d, ext)
        with ThreadPoolExecutor(NSH) as ex:
            for path, (c, v, bad) in zip(fs, ex.map(build_and_run, fs)):
                calls += c
                values += v
                for uid, detail in bad:
                    if uid is None:
                        fails.append((-1, os.path.basename(path), detail))
                    else:
                        n = int(re.match(r"\d+", uid).group(0))
                        fails.append((n, g.keys.get(n, "?"), detail + "\n" + source_of(path, "f" + uid)))
        return st, calls, values, fails
    st, calls, values, fails = run(os.path.join(ctx.scratch, "all"))
    ctx.states += st[1]
    ctx.counts["functions"] = st[0]
    ctx.counts["transitions"] = calls
    ctx.counts["transitions_decided"] = values
    ctx.counts["points"] = st[2]
    if st[3]:
        ctx.counts["unsupported_combinations"] = st[3]
    k = sorted(g.keys)
    ctx.samples = [g.keys[i] for i in k[:: max(1, len(k) // 20)]][:20]
    for n, key, detail in fails:
        ctx.violations.append({"id": n, "key": key, "detail": detail})

    def replay(v):
        if v["id"] < 0:
            return "full"
        d = os.path.join(ctx.scratch, "one%d" % v["id"])
        _, _, _, f = run(d, v["id"])
        return "case" if f else None
    ctx.replay_cmd = replay


def parse_driver(o, path):
    bad, calls, values = [], 0, 0
    for l in o.split("\n"):
        if l.startswith("FAIL "):
            bad.append((l.split()[1], l[5:]))
        elif l.startswith("DONE "):
            calls, values = map(int, l.split()[1:3])
    return calls, values, bad
