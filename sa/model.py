"""Program model: runs the extractor over /repo's current sources and indexes the facts."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis lost one of its anchors: neither a pass nor a violation."""


def build_extractor():
    src = os.path.join(VERIF, "extractor", "extract.cpp")
    stamp = EXTRACT + ".sha"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["/usr/bin/clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I%s/include" % LLVM, src, "-o", tmp,
           "-L%s/lib" % LLVM, "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath,%s/lib" % LLVM]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("extractor does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(h)


def _run_unit(args):
    unit, out, src = args
    cmd = [EXTRACT, src + "/", out, unit, "--", "-std=c++20", "-I" + src, "-include", "cstdint", "-Wno-everything",
           "-resource-dir", LLVM + "/lib/clang/18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return unit, r.returncode, r.stderr


class Model:
    def __init__(self, raw, units):
        self.units = units
        self.functions = {}
        self.by_q = {}
        self.records = {}
        self.rec_by_t = {}
        self.enums = {}
        self.globals = {}
        for d in raw:
            for f in d["functions"]:
                if f["id"] not in self.functions:
                    self.functions[f["id"]] = f
                    self.by_q.setdefault(f["q"], []).append(f)
            for r in d["records"]:
                self.records.setdefault(r["q"], r)
                self.rec_by_t.setdefault(r["t"], r)
            for e in d["enums"]:
                self.enums[e["q"]] = e["vals"]
            for g in d["globals"]:
                old = self.globals.get(g["q"])
                if old is None or ("init" in g and "init" not in old):
                    self.globals[g["q"]] = g
        self.derived = {}
        for r in self.records.values():
            for b in r["bases"]:
                self.derived.setdefault(b, []).append(r["q"])
        self.overriders = {}
        for r in self.rec_by_t.values():
            for m in r["methods"]:
                for o in m["over"]:
                    self.overriders.setdefault(o, set()).add(m["id"])
        self._lambda_index()

    def _lambda_index(self):
        self.lambdas = {}

        def visit(n, owner):
            if isinstance(n, dict):
                if n.get("k") == "lambda":
                    n["owner"] = owner
                    self.lambdas[n["fn"]] = n
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        visit(v, owner)
            elif isinstance(n, list):
                for v in n:
                    visit(v, owner)

        for f in list(self.functions.values()):
            visit(f.get("body"), f["id"])
            visit(f.get("inits"), f["id"])

    # -- lookup helpers -------------------------------------------------
    def fn(self, q, nparams=None, clst=None, pred=None):
        """The unique function with qualified name q; AnalysisBroken when it is gone."""
        c = self.fns(q, nparams, clst, pred)
        if not c:
            raise AnalysisBroken("anchor function %s not found" % q)
        return c[0]

    def fns(self, q, nparams=None, clst=None, pred=None):
        c = self.by_q.get(q, [])
        if nparams is not None:
            c = [f for f in c if len(f["params"]) == nparams]
        if clst is not None:
            c = [f for f in c if clst in f.get("clst", "")]
        if pred is not None:
            c = [f for f in c if pred(f)]
        return c

    def rec(self, q):
        r = self.records.get(q)
        if r is None:
            raise AnalysisBroken("anchor class %s not found" % q)
        return r

    def all_bases(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            r = self.records.get(x)
            if r is None:
                continue
            for b in r["bases"]:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def all_derived(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop()
            for d in self.derived.get(x, []):
                if d not in out:
                    out.append(d)
                    todo.append(d)
        return out

    def fields_of(self, q):
        """Fields of class q including its repository bases."""
        out = []
        for b in reversed(self.all_bases(q)):
            if b in self.records:
                out += self.records[b]["fields"]
        if q in self.records:
            out += self.records[q]["fields"]
        return out

    def loc(self, f, line=None):
        return "%s:%s" % ("src/" + f["file"], line if line is not None else f["l"])


def source_units():
    src = os.path.join(REPO, "src")
    units = sorted(glob.glob(src + "/**/*.cpp", recursive=True))
    return [os.path.join(VERIF, "extractor", "driver.cpp")] + units


def load():
    build_extractor()
    src = os.path.join(REPO, "src")
    units = source_units()
    if len(units) < 5:
        raise AnalysisBroken("only %d translation units found under %s" % (len(units), src))
    h = hashlib.sha256()
    h.update(open(EXTRACT + ".sha").read().encode())
    h.update(open(units[0], "rb").read())
    for root, dirs, files in sorted(os.walk(src)):
        dirs.sort()
        for fn in sorted(files):
            p = os.path.join(root, fn)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    key = h.hexdigest()[:24]
    cache = os.path.join(BUILD, "facts-%s" % key)
    outs = [os.path.join(cache, "%d.json" % i) for i in range(len(units))]
    if not os.path.exists(os.path.join(cache, "ok")):
        os.makedirs(cache, exist_ok=True)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_run_unit, [(u, o + ".%d" % os.getpid(), src) for u, o in zip(units, outs)]))
        for (u, rc, err), o in zip(res, outs):
            tmp = o + ".%d" % os.getpid()
            if rc != 0 or not os.path.exists(tmp):
                raise AnalysisBroken("front end failed on %s:\n%s" % (u, err[-2000:]))
            os.replace(tmp, o)
        open(os.path.join(cache, "ok"), "w").write("ok")
        # keep only a few caches
        old = sorted(glob.glob(os.path.join(BUILD, "facts-*")), key=os.path.getmtime)
        for d in old[:-6]:
            if time.time() - os.path.getmtime(d) < 900:
                continue
            subprocess.run(["rm", "-rf", os.path.abspath(d)])
    raw = [json.loads(re.sub(r'"std::pair<[^"]*>::(first|second)"', r'"std::pair::\1"', open(o).read())) for o in outs]
    return Model(raw, units)


# ---------------------------------------------------------------- tree helpers
def walk(n):
    """All dict nodes of a statement/expression tree (lambda bodies included)."""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def fn_nodes(f):
    yield from walk(f.get("inits"))
    yield from walk(f.get("body"))


def calls_in(n):
    for x in walk(n):
        if x.get("k") in ("call", "ctor") or (x.get("k") == "ref" and x.get("dk") == "func") or x.get("k") == "memfn":
            yield x


class CallGraph:
    """Resolved call graph: direct calls, constructors, functions whose address is taken, and class
    hierarchy targets of virtual calls."""

    def __init__(self, m):
        self.m = m
        self.succ = {}
        for fid, f in m.functions.items():
            s = set()
            for x in fn_nodes(f):
                k = x.get("k")
                if k in ("call", "ctor", "memfn") or (k == "ref" and x.get("dk") == "func"):
                    t = x.get("fn")
                    if t is None:
                        continue
                    s.add(t)
                    if x.get("virt") and not x.get("qualcall"):
                        s |= self._over(t)
            self.succ[fid] = s

    def _over(self, t, seen=None):
        out = set()
        for o in self.m.overriders.get(t, ()):
            if o not in out:
                out.add(o)
                out |= self._over(o)
        return out

    def reach(self, roots):
        seen, todo = set(), [r for r in roots]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self.succ.get(x, ()):
                if y not in seen:
                    todo.append(y)
        return {x for x in seen if x in self.m.functions}
