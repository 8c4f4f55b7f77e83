"""C35: an object that can be copied or moved is self-contained.

A points-into analysis of every function finds the classes whose objects come to hold, in a field or in something they
own, an address inside themselves (or a reference back to themselves), and the classes whose destructor releases a raw
handle. What copy and move operations those classes have is decided by the compiler (a witness of static assertions,
compiled against the headers); a memberwise one is a violation, a written one has to re-establish the address or take
the handle over.
"""
import json
import os
import re
import subprocess
import tempfile
import model as model_mod
from lib import *
from model import CallGraph, walk, fn_nodes, AnalysisBroken

EMB, OWN, VAL = "emb", "own", "val"
RELEASE = {"free", "fclose", "close", "munmap", "closedir", "pclose", "delete"}
# members that hand out (pointers, references, iterators to) what the container holds
ACCESS = {"operator->", "operator*", "operator[]", "get", "at", "begin", "end", "rbegin", "rend", "cbegin", "cend", "data",
          "back", "front", "find", "top", "value", "lower_bound", "upper_bound", "c_str", "insert", "emplace", "emplace_back",
          "emplace_front", "try_emplace", "insert_or_assign", "base"}
PUT = {"push_back", "emplace_back", "emplace", "emplace_front", "push_front", "push", "insert", "insert_or_assign", "assign",
       "try_emplace", "reset", "swap", "operator=", "emplace_hint", "resize", "fill"}
INLINE = ("basic_string<", "array<", "optional<", "variant<", "pair<", "tuple<")
SCALAR = re.compile(r"^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|void|wchar_t|char8_t|"
                    r"char16_t|char32_t|std::byte|std::nullptr_t)$")


def strip(t):
    t = (t or "").strip()
    while t.startswith(("const ", "volatile ")):
        t = t.split(" ", 1)[1]
    return re.sub(r"\s*(&&?|const)$", "", t).strip()


def holds(t):
    """May a value of the type carry addresses?"""
    t = strip(t)
    if not t or SCALAR.match(t):
        return False
    if t.endswith("*") or t.endswith("]"):
        return True
    if re.match(r"std::(__cxx11::)?basic_string<", t) or t.startswith("std::filesystem"):
        return False
    m = re.match(r"std::(?:vector|set|unordered_set|deque|list|optional|array|stack|queue)<(.*)$", t)
    if m:
        return holds(first_arg(m.group(1)))
    return True


def first_arg(s):
    d = 0
    for i, c in enumerate(s):
        if c in "<(":
            d += 1
        elif c in ">)":
            if d == 0:
                return s[:i]
            d -= 1
        elif c == "," and d == 0:
            return s[:i]
    return s


def ctype(e):
    """Type of the object an expression designates, smart pointers and containers included."""
    return strip(e.get("st") or e.get("t", ""))


class Flow:
    """What every function stores where: destination (this / parameter) <- (root, kind of address)."""

    def __init__(self, ctx):
        self.m, self.cg = ctx.m, ctx.cg
        self.sum = {fid: (frozenset(), frozenset(), frozenset()) for fid in self.m.functions}
        self.where = {}
        self.ftypes = {}
        for r in self.m.rec_by_t.values():
            for fl in r["fields"]:
                self.ftypes.setdefault(fl["q"], fl["ts"])
        self.inner = {}       # pointer field -> kinds of address inside its own object it may hold
        callers = {}
        for fid in self.m.functions:
            for s in self.cg.succ.get(fid, ()):
                callers.setdefault(s, set()).add(fid)
        for _ in range(6):
            before = dict(self.inner)
            todo = list(self.m.functions)
            while todo:
                fid = todo.pop()
                new = Scan(self, fid).result()
                if new != self.sum[fid]:
                    self.sum[fid] = new
                    todo += [c for c in callers.get(fid, ()) if c not in todo]
                    if fid not in todo:
                        todo.append(fid)
            if before == self.inner:
                break


class Scan:
    def __init__(self, F, fid):
        self.F, self.fid = F, fid
        self.f = f = F.m.functions[fid]
        self.vals, self.ats, self.isptr = {}, {}, {}
        for i, p in enumerate(f["params"]):
            byref = p["t"].rstrip().endswith("&")
            self.ats[p["id"]] = {(("P", i), EMB)} if byref else {("local", EMB)}
            self.vals[p["id"]] = {(("P", i), VAL)} if holds(p["t"]) else set()
        self.stores = {}
        self.nodes = list(walk(f.get("inits"))) + list(walk(f.get("body")))
        for _ in range(10):
            n0 = self.size()
            self.pass_()
            if self.size() == n0:
                break

    def size(self):
        return sum(len(v) for v in self.vals.values()) + sum(len(v) for v in self.ats.values()) + \
            sum(len(v) for v in self.stores.values())

    # -------------------------------------------------------------- values and places
    def kind_in(self, t, places):
        """Places of what an object of type t, living at `places`, gives access to."""
        t = strip(t)
        if t.startswith("std::shared_ptr") or t.startswith("std::weak_ptr") or t.startswith("std::reference_wrapper"):
            return {(r, "shared") for r, _ in places}
        inl = any(t.startswith(p + x) for x in INLINE for p in ("std::", "std::__cxx11::"))
        return {(r, k if inl else OWN) for r, k in places if k in (EMB, OWN)} | {x for x in places if x[1] == "shared"}

    def view(self, t):
        t = strip(t)
        return t.endswith("*") or "iterator" in t or "_view" in t or "span<" in t or "_Node" in t

    def at(self, e):
        """Places an expression may designate."""
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        if k == "ref":
            if e.get("dk") in ("local", "param", "binding"):
                return set(self.ats.get(e["id"], {("local", EMB)}))
            return set()
        if k == "mem":
            if strip(self.F.ftypes.get(e.get("f"), "")) and self.F.ftypes[e["f"]].rstrip().endswith("&"):
                return set()
            return self.pointee(e["b"]) if e.get("arrow") else self.at(e["b"])
        if k == "idx":
            return self.pointee(e["b"])
        if k == "un":
            if e["op"] == "*":
                return self.pointee(e["e"])
            return self.at(e["e"])
        if k in ("cast", "fcast", "dcast", "arrcopy"):
            return self.at(e.get("e"))
        if k == "asg":
            return self.at(e["lhs"])
        if k == "cond":
            return self.at(e["a"]) | self.at(e["b"])
        if k == "call":
            tg = self.targets(e)
            if tg or e.get("fn") in self.F.m.functions:
                out = set()
                for t in tg:
                    out |= self.subst(self.F.sum[t][1], e)
                return out
            nm = e.get("q", "").rsplit("::", 1)[-1]
            if isinstance(e.get("obj"), dict) and nm in ACCESS:
                o = e["obj"]
                ot = ctype(o)
                if self.view(ot):
                    return {x for x in self.val(o) if x[1] != VAL}
                return self.kind_in(ot, self.pointee(o) if e.get("arrow") and not e.get("opc") else self.at(o))
            if nm in ("move", "forward", "get", "ref", "cref", "as_const", "addressof", "min", "max") and e.get("args"):
                return self.at(e["args"][0])
        return set()

    def pointee(self, e):
        """Places the pointer value of e may lead to."""
        if not isinstance(e, dict):
            return set()
        t = ctype(e)
        if e.get("k") == "call" and e.get("opc") == "->":
            return self.at(e)
        if t.startswith(("std::unique_ptr", "std::shared_ptr")):
            return self.kind_in(t, self.at(e))
        return {x for x in self.val(e) if x[1] != VAL} | {(r, "far") for r, k in self.val(e) if k == VAL}

    def val(self, e):
        """Addresses the value of an expression may carry."""
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        if k == "this":
            return {("this", EMB)}
        if k == "lambda":
            out = set()
            for c in e.get("caps", []):
                if c.get("this"):
                    out |= {("this", EMB)}
                elif c.get("byref"):
                    out |= set(self.ats.get(c.get("id"), ())) - {("local", EMB)}
                elif c.get("id") in self.vals:
                    out |= self.vals[c["id"]]
            return out
        t = e.get("t", "")
        if not holds(t):
            return set()
        if k == "ref":
            if t.rstrip().endswith("]"):
                return self.at(e)
            return set(self.vals.get(e.get("id"), ()))
        if k == "mem":
            if t.rstrip().endswith("]"):
                return self.at(e)
            base = self.pointee(e["b"]) if e.get("arrow") else self.at(e["b"])
            out = self.read(base, e)
            for r, kk in base:
                if kk in (EMB, OWN):
                    out |= {(r, x) for x in self.F.inner.get(e.get("f"), ())}
            if (r := self.root_var(e)) is not None:
                out |= self.vals.get(r, set())
            return out
        if k == "un":
            if e["op"] == "&":
                return self.at(e["e"])
            if e["op"] == "*":
                return self.read(self.at(e), e)
            return self.val(e["e"])
        if k == "idx":
            return self.read(self.at(e), e)
        if k in ("cast", "fcast", "dcast", "arrcopy"):
            return self.val(e.get("e"))
        if k == "bin":
            return self.val(e["lhs"]) | self.val(e["rhs"]) if e["op"] in ("+", "-", ",") else set()
        if k == "asg":
            return self.val(e["rhs"])
        if k == "cond":
            return self.val(e["a"]) | self.val(e["b"])
        if k == "init":
            return self.aggregate(e)
        if k == "new":
            c = e.get("ctor")
            return self.val(c) if isinstance(c, dict) else set()
        if k == "ctor":
            return self.construct(e)
        if k == "call":
            tg = self.targets(e)
            if tg or e.get("fn") in self.F.m.functions:
                out = set()
                for x in tg:
                    out |= self.subst(self.F.sum[x][2], e)
                    if self.F.m.functions[x]["ret"].rstrip().endswith("&"):
                        out |= self.read(self.subst(self.F.sum[x][1], e), e)
                return out
            q = e.get("q", "")
            nm = q.rsplit("::", 1)[-1]
            args = e.get("args", [])
            if nm in ("make_unique", "make_shared", "construct_at"):
                return self.make(first_arg(strip(t).split("<", 1)[1]) if "<" in t else "", args)
            if isinstance(e.get("obj"), dict):
                o = e["obj"]
                if nm in ACCESS:
                    if self.view(t):
                        return self.at(e) | ({x for x in self.val(o) if x[1] != VAL} if self.view(ctype(o)) else set())
                    return self.read(self.at(e), e)
                return set().union(self.val(o), *[self.val(a) for a in args])
            if nm in ("ref", "cref", "addressof"):
                return self.at(args[0]) if args else set()
            if nm == "get" or nm == "move" or nm == "forward":
                return set().union(*[self.val(a) for a in args]) if args else set()
            return set().union(*[self.val(a) for a in args]) if args else set()
        return set()

    def read(self, places, e):
        """Addresses a value read from these places may carry: what a parameter's object holds; what lies in our own
        object already was judged when it was stored."""
        return {(r, VAL) for r, k in places if r not in ("this", "local")}

    def root_var(self, e):
        while isinstance(e, dict):
            if e.get("k") == "mem" and (not e.get("arrow") or e["b"].get("opc") == "->"):
                e = e["b"]
            elif e.get("k") == "call" and isinstance(e.get("obj"), dict) and e.get("opc") in ("->", "*", "[]"):
                e = e["obj"]
            else:
                break
        if isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") in ("local", "binding"):
            return e["id"]
        return None

    def aggregate(self, e):
        out = set()
        fs = e.get("fields") or []
        rec = strip(e.get("t", ""))
        if e.get("isref") or (len(e.get("elems", [])) == 1 and not fs):
            return self.val(e["elems"][0]) if e.get("elems") else set()
        for i, x in enumerate(e.get("elems", [])):
            out |= self.val(x)
            if i < len(fs) and self.F.ftypes.get(fs[i], "").rstrip().endswith("&"):
                out |= self.at(x)
        return out

    def construct(self, e):
        args = e.get("args", [])
        fid = e.get("fn")
        if fid in self.F.sum:
            out = set()
            for d, src in self.F.sum[fid][0]:
                if d == "this" and src[0] != "this":
                    out |= self.subst({src}, e)
            return out
        if strip(e.get("t", "")).startswith("std::reference_wrapper"):
            return self.at(args[0]) if args else set()
        out = set()
        for a in args:
            out |= self.val(a)
        return out

    def make(self, t, args):
        """make_unique<T>(args), emplace(args) of a T: what T's constructors keep of them."""
        rec = self.F.m.rec_by_t.get(strip(t))
        if rec is None:
            return set().union(*[self.val(a) for a in args]) if args else set()
        out = set()
        for fid, f in self.F.m.functions.items():
            if f["q"].endswith("::<ctor>") and f.get("clst") == rec["t"] and len(f["params"]) >= len(args):
                for d, src in self.F.sum[fid][0]:
                    if d == "this" and src[0] != "this":
                        out |= self.subst({src}, {"args": args})
        return out

    def targets(self, e):
        fid = e.get("fn")
        if fid is None or fid not in self.F.sum:
            return []
        ts = {fid}
        if e.get("virt") and not e.get("qualcall"):
            ts |= self.F.cg._over(fid)
        return [t for t in ts if t in self.F.sum]

    def obj_at(self, e):
        o = e.get("obj")
        if not isinstance(o, dict):
            return set()
        return self.pointee(o) if e.get("arrow") else self.at(o)

    def subst(self, toks, e):
        out = set()
        args = e.get("args", [])
        for r, k in toks:
            if r == "this":
                src = self.obj_at(e) if k != VAL else self.read(self.obj_at(e), e)
            elif isinstance(r, tuple) and r[1] < len(args):
                a = args[r[1]]
                if k == VAL:
                    src = self.val(a)
                    if strip(a.get("t", "")).endswith("*"):
                        src = src
                else:
                    src = self.at(a) or self.pointee(a)
            else:
                continue
            if k == OWN:
                src = {(x, OWN) for x, kk in src}
            elif k in ("far", "shared"):
                src = set() if k == "far" else {(x, "shared") for x, _ in src}
            out |= src
        return out

    # -------------------------------------------------------------- stores
    def put(self, places, vals, n, what):
        vals = {v for v in vals if v[0] != "local" and v[1] not in ("far", "shared")}
        if not vals:
            return
        for r, k in places:
            if r == "local":
                continue
            for v in vals:
                if r == v[0] and v[1] == VAL:
                    continue
                self.stores.setdefault((r, v), (n.get("l"), what))

    def name(self, e):
        s = []
        while isinstance(e, dict):
            if e.get("k") == "mem":
                s.append(e["n"])
                e = e["b"]
            elif e.get("k") in ("idx",):
                e = e["b"]
            elif e.get("k") in ("un", "cast", "fcast"):
                e = e["e"]
            elif e.get("k") == "call" and isinstance(e.get("obj"), dict):
                e = e["obj"]
            else:
                break
        return ".".join(reversed(s)) or "the object"

    def bind(self, d, key, s):
        d.setdefault(key, set()).update(s)

    def decl(self, v, src=None):
        src = src if src is not None else v.get("init")
        t = v.get("t", "")
        if not isinstance(src, dict):
            return
        if v.get("isref"):
            self.bind(self.ats, v["id"], self.at(src))
            self.bind(self.vals, v["id"], self.val(src))
        else:
            self.bind(self.ats, v["id"], {("local", EMB)})
            if holds(t):
                self.bind(self.vals, v["id"], self.val(src))
        for b in v.get("bindings", []):
            self.bind(self.ats, b["id"], self.at(src) if v.get("isref") else {("local", EMB)})
            self.bind(self.vals, b["id"], self.val(src))

    def pass_(self):
        for n in self.nodes:
            k = n.get("k")
            if k is None and "field" in n and isinstance(n.get("e"), dict):
                ft = self.F.ftypes.get(n["field"], "")
                e = n["e"]
                if ft.rstrip().endswith("&"):
                    x = e["elems"][0] if e.get("k") == "init" and e.get("elems") else e
                    v = self.at(x)
                else:
                    v = self.val(e)
                    if strip(ft).endswith("*") and e.get("k") == "init":
                        v = set().union(*[self.val(x) for x in e.get("elems", [])]) if e.get("elems") else set()
                self.note(n["field"], v)
                self.put({("this", EMB)}, v, e, n["field"].rsplit("::", 1)[-1])
            elif k is None and ("base" in n or "deleg" in n) and isinstance(n.get("e"), dict):
                self.call(dict(n["e"], obj={"k": "un", "op": "*", "e": {"k": "this", "t": "T *"}, "t": "T"}))
            elif k is None and "id" in n and "n" in n and "t" in n and "pm" not in n:
                self.decl(n)
            elif k == "rfor":
                v = n["var"]
                r = n["range"]
                els = {x for x in self.kind_in(ctype(r), self.at(r))}
                if v.get("isref"):
                    self.bind(self.ats, v["id"], els)
                else:
                    self.bind(self.ats, v["id"], {("local", EMB)})
                if holds(v.get("t", "")):
                    self.bind(self.vals, v["id"], self.read(els, r) | self.val(r))
                for b in v.get("bindings", []):
                    self.bind(self.ats, b["id"], els if v.get("isref") else {("local", EMB)})
                    self.bind(self.vals, b["id"], self.read(els, r))
            elif k == "asg" and n["op"] in ("=", "+=", "-="):
                self.assign(n["lhs"], self.val(n["rhs"]), n)
            elif k in ("call", "ctor"):
                self.call(n)

    def assign(self, lhs, v, n):
        rv = lhs["id"] if lhs.get("k") == "ref" and lhs.get("dk") in ("local", "param", "binding") else self.root_var(lhs)
        if rv is not None:
            self.bind(self.vals, rv, v)
        if lhs.get("k") == "mem":
            self.note(lhs["f"], v)
        self.put(self.at(lhs), v, n, self.name(lhs))

    def note(self, field, v):
        ks = {k for r, k in v if r == "this" and k in (EMB, OWN)}
        if ks and strip(self.F.ftypes.get(field, "")).endswith("*"):
            self.F.inner[field] = self.F.inner.get(field, frozenset()) | ks

    def call(self, n):
        if n.get("k") == "call" and n.get("opc") == "=" and n.get("args") and not self.targets(n):
            return self.assign(n["obj"], self.val(n["args"][0]), n)
        tg = self.targets(n)
        if tg or n.get("fn") in self.F.m.functions:
            for t in tg:
                for d, src in self.F.sum[t][0]:
                    if d == "this" and src[0] == "this":
                        continue           # judged where the member's or the base's class is
                    v = self.subst({src}, n)
                    if d == "this":
                        if n.get("k") == "ctor" and not isinstance(n.get("obj"), dict):
                            continue
                        self.put(self.obj_at(n), v, n, self.name(n.get("obj")))
                        rv = self.root_var(n["obj"]) if isinstance(n.get("obj"), dict) and not n.get("arrow") else None
                        if rv is not None and src[0] != "this":
                            self.bind(self.vals, rv, v)
                    elif isinstance(d, tuple) and d[1] < len(n.get("args", [])):
                        a = n["args"][d[1]]
                        if src[0] == d and src[1] != VAL:
                            v = {x for x in v}
                        self.put(self.at(a) | self.pointee(a), v, n, self.name(a))
                        rv = self.root_var(a)
                        if rv is not None:
                            self.bind(self.vals, rv, v)
            return
        nm = n.get("q", "").rsplit("::", 1)[-1]
        if n.get("k") == "call" and isinstance(n.get("obj"), dict) and nm in PUT:
            o = n["obj"]
            if nm.startswith("emplace") or nm == "try_emplace":
                mt = re.match(r"std::\w+<(.*)$", ctype(o))
                v = self.make(first_arg(mt.group(1)), n.get("args", [])) if mt else set()
            else:
                v = set()
                for a in n.get("args", []):
                    at = ctype(a)
                    if "iterator" in at:
                        continue                     # a range is copied element by element; a position is no element
                    v |= self.val(a)
            if nm != "swap":
                rv = self.root_var(o)
                if rv is not None:
                    self.bind(self.vals, rv, v)
                self.put(self.obj_at(n), v, n, self.name(o))

    def result(self):
        st = frozenset(self.stores)
        self.F.where[self.fid] = dict(self.stores)
        lam = set()
        for n in self.nodes:
            if n.get("k") == "lambda":
                lam |= {id(x) for x in walk(n["body"])}
        rets_at, rets_val = set(), set()
        isref = self.f["ret"].rstrip().endswith("&")
        for n in self.nodes:
            if n.get("k") == "ret" and id(n) not in lam and isinstance(n.get("e"), dict):
                if isref:
                    rets_at |= self.at(n["e"])
                else:
                    rets_val |= self.val(n["e"])
        drop = lambda s: frozenset(x for x in s if x[0] != "local")
        return st, drop(rets_at), drop(rets_val)


# ---------------------------------------------------------------- relations and handles
def relations(ctx, F):
    """Class type -> [(kind, function, line, what)]."""
    out = {}
    for fid, f in sorted(ctx.m.functions.items(), key=lambda x: (x[1]["file"], x[1]["l"])):
        ctx.note_fn(f)
        if not f.get("clst"):
            continue
        for (d, (r, k)), (line, what) in sorted(F.where[fid].items(), key=str):
            if d == "this" and r == "this" and k in (EMB, OWN):
                out.setdefault(f["clst"], []).append((k, f, line, what))
    for t, r in ctx.m.rec_by_t.items():
        for fl in r["fields"]:
            i = fl.get("init")
            if isinstance(i, dict) and (strip(fl["ts"]).endswith("*") or "(" in fl["ts"] or "_view" in fl["ts"]):
                for n in walk(i):
                    if n.get("k") == "this" or n.get("k") == "mem":
                        if n.get("k") == "mem" and not n.get("t", "").endswith("]"):
                            continue
                        out.setdefault(t, []).append((EMB, None, fl["l"], fl["n"]))
                        break
    return out


def handles(ctx):
    """Class type -> [(field, release function, line, dtor)]."""
    m = ctx.m
    out = {}
    for f in m.functions.values():
        if not f["q"].endswith("::<dtor>") or f.get("defaulted") or not f.get("clst"):
            continue
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g["id"] in seen:
                continue
            seen.add(g["id"])
            alias = {}
            for n in fn_nodes(g):
                if n.get("k") is None and isinstance(n.get("init"), dict) and "id" in n and n["init"].get("k") == "mem":
                    alias[n["id"]] = n["init"]
            for n in fn_nodes(g):
                if n.get("k") == "call":
                    o = n.get("obj")
                    if isinstance(o, dict) and o.get("k") == "this" and n.get("fn") in m.functions:
                        todo.append(m.functions[n["fn"]])
                    if n.get("q", "").replace("std::", "").lstrip(":") in RELEASE:
                        args = n.get("args", [])
                    else:
                        continue
                elif n.get("k") == "delete":
                    args = [n["e"]]
                else:
                    continue
                for a in args:
                    while isinstance(a, dict) and a.get("k") in ("cast", "fcast"):
                        a = a["e"]
                    if isinstance(a, dict) and a.get("k") == "ref":
                        a = alias.get(a.get("id"), a)
                    if isinstance(a, dict) and a.get("k") == "mem" and a["b"].get("k") == "this":
                        out.setdefault(f["clst"], []).append((a["f"], n.get("q", "delete"), n.get("l"), f, g))
    return out


OPS = (("copy-constructed", "std::is_copy_constructible_v<T>", True, True),
       ("copy-assigned", "std::is_copy_assignable_v<T>", True, False),
       ("move-constructed", "std::is_move_constructible_v<T>", False, True),
       ("move-assigned", "std::is_move_assignable_v<T>", False, False))


def allowed(ctx, types):
    """{(type, operation)} the compiler accepts, by a witness of static assertions."""
    src = os.path.join(model_mod.REPO, "src")
    hdrs = []
    for root, _, files in sorted(os.walk(os.path.join(src, "log_surgeon"))):
        for fn in sorted(files):
            if fn.endswith(".hpp"):
                hdrs.append(os.path.relpath(os.path.join(root, fn), src))
    lines = ["#include <type_traits>"] + ["#include <%s>" % h for h in hdrs]
    idx = {}
    for i, t in enumerate(types):
        lines.append("using T%d = %s;" % (i, t))
        for op, tr, _, _ in OPS:
            key = "OBLIGATION_%d_%s" % (i, op)
            lines.append('static_assert(!%s, "%s");' % (tr.replace("<T>", "<T%d>" % i), key))
            idx[key] = (t, op)
    with tempfile.NamedTemporaryFile("w", suffix=".cpp", delete=False) as fh:
        fh.write("\n".join(lines) + "\n")
    try:
        r = subprocess.run(["/usr/bin/clang++", "-fsyntax-only", "-std=c++20", "-I" + src, "-include", "cstdint", "-w",
                            "-ferror-limit=0", fh.name], capture_output=True, text=True)
    finally:
        os.unlink(fh.name)
    bad = [l for l in r.stderr.splitlines() if " error: " in l and "OBLIGATION_" not in l]
    if bad:
        raise AnalysisBroken("witness of copy and move operations does not compile: " + bad[0])
    return {idx[k] for k in re.findall(r"OBLIGATION_\d+_[a-z-]+", r.stderr) if k in idx}, hdrs, src


USE = {"copy-constructed": "T c(a); (void)c;", "copy-assigned": "b = a;", "move-constructed": "T c(static_cast<T&&>(b)); (void)c;",
       "move-assigned": "b = static_cast<T&&>(*p);"}


def witness(hdrs, t, op):
    return "".join("#include <%s>\n" % h for h in hdrs) + \
        "namespace { using T = %s;\n[[maybe_unused]] void witness(T const& a, T& b, T* p) { %s } }\n" % (t, USE[op])


def compiles(hdrs, src, t, op):
    """A class may declare an operation whose definition does not compile (a vector of unique_ptr)."""
    r = subprocess.run(["/usr/bin/clang++", "-fsyntax-only", "-std=c++20", "-I" + src, "-include", "cstdint", "-w", "-x",
                        "c++", "-"], input=witness(hdrs, t, op), capture_output=True, text=True)
    return r.returncode == 0


def instantiate(ctx, hdrs, src, need):
    """Bodies of written operations the library itself never uses: an extra unit that uses them is extracted."""
    new = False
    for t, op in need:
        d = tempfile.mkdtemp()
        u, o = os.path.join(d, "witness.cpp"), os.path.join(d, "out.json")
        with open(u, "w") as fh:
            fh.write(witness(hdrs, t, op))
        _, rc, err = model_mod._run_unit((u, o, src))
        if rc == 0 and os.path.exists(o):
            for f in json.load(open(o))["functions"]:
                if f["id"] not in ctx.m.functions:
                    ctx.m.functions[f["id"]] = f
                    ctx.m.by_q.setdefault(f["q"], []).append(f)
                    new = True
        for x in (u, o):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)
    return new


def member(ctx, t, op):
    """Declaration of a class's copy or move operation, None if implicit and undeclared."""
    r = ctx.m.rec_by_t.get(t)
    nm = "operator=" if op.endswith("assigned") else "<ctor>"
    copy = op.startswith("copy")
    for x in r["methods"]:
        if x["q"].rsplit("::", 1)[-1] != nm:
            continue
        isc = x.get("copy") if nm == "<ctor>" else re.search(r"operator=#&1", x["id"]) is not None
        ism = x.get("move") if nm == "<ctor>" else re.search(r"operator=#&&", x["id"]) is not None
        if copy and isc or not copy and ism:
            return x
    if not copy:
        return member(ctx, t, op.replace("move", "copy"))
    return None


def written(ctx, F, t, op, rels, hs):
    """Is the operation, where allowed, one that keeps the objects apart?  (ok, detail)"""
    x = member(ctx, t, op)
    if x is None or x.get("implicit") or x.get("defaulted"):
        return False, "memberwise"
    f = ctx.m.functions.get(x["id"])
    if f is None or f.get("body") is None:
        return None, "its operation is not instantiated"
    ctx.note_fn(f)
    st = F.where.get(x["id"], {})
    if not rels:
        return handle_moved(ctx, f, hs)
    own = sorted(q for q in F.inner if q.rsplit("::", 1)[0] == t)
    embedded = [fl for fl in ctx.m.rec_by_t[t]["fields"] if fl["ts"].rstrip().endswith("]")]
    nm = x["q"].rsplit("::", 1)[-1]
    if not any(d == "this" and r == "this" and k in (EMB, OWN) for (d, (r, k)) in F.where.get(x["id"], {})):
        return False, "%s does not make the new object's address point into the new object" % nm
    src = ("obj", "arg0")
    for q in own:
        for e in embedded:
            I = ctx.interp()
            st = State()
            st.store[("L", src, (("f", q),))] = addr(("L", src, (("f", e["q"]), ("e", ZERO))))
            for s in ctx.run(I, f, st=st):
                s = s[0] if isinstance(s, tuple) else s
                v = as_num(I.read(s, ("L", THIS, (("f", q),)), "T *"))
                if v[0] == "ref" and v[1][1] == src or v[0] == "n" and any(
                        isinstance(a, tuple) and a[0] in ("addr", "in") and a[1][1] == src and (("f", e["q"]) in a[1][2] or
                                                                                               a[0] == "in") for a, _ in v[2]):
                    return False, "%s takes the address inside the original over" % nm
    return True, "re-established"


def handle_moved(ctx, f, hs):
    for fq, rel, line, dt, g in hs:
        I = ctx.interp()
        for s in ctx.run(I, f):
            s = s[0] if isinstance(s, tuple) else s
            mine = as_num(I.read(s, ("L", THIS, (("f", fq),)), "T *"))
            theirs = as_num(I.read(s, ("L", ("obj", "arg0"), (("f", fq),)), "T *"))
            if truth(s, mine) is not False and same(s, mine, theirs):
                return False, "both objects hold %s" % fq.rsplit("::", 1)[-1]
    return True, "taken over"


def rule(ctx):
    m = ctx.m
    F = Flow(ctx)
    rel = relations(ctx, F)
    hs = handles(ctx)
    types = sorted(set(rel) | set(hs))
    ctx.need(len(m.functions) > 100, "only %d functions to analyse" % len(m.functions))
    ctx.need(any(t.startswith(P + "Buffer<") or t == P + "LogParser" for t in rel), "no class holding its own address found")
    maybe, hdrs, src = allowed(ctx, types)
    ok, need = set(), []
    for t in types:
        if t in m.rec_by_t:
            for op, _, copy, _ in OPS:
                if (t, op) in maybe and (hs.get(t) or any(x[0] == EMB or copy for x in rel.get(t, []))) and \
                        compiles(hdrs, src, t, op):
                    ok.add((t, op))
                    x = member(ctx, t, op)
                    if x is not None and not x.get("implicit") and not x.get("defaulted") and x["id"] not in m.functions:
                        need.append((t, op))
    if need and instantiate(ctx, hdrs, src, need):
        ctx._cg = None
        F = Flow(ctx)
    for t in types:
        r = m.rec_by_t.get(t)
        if r is None:
            continue
        short = re.sub(r"<.*", "", t) if len(t) > 60 else t
        where = "src/%s:%s" % (r["file"], r["l"])
        for op, _, copy, _ in OPS:
            rs = [x for x in rel.get(t, []) if x[0] == EMB or copy]
            h = hs.get(t, [])
            if rs:
                k, f, line, what = rs[0]
                why = "%s holds an address %s the object (set %s)" % (
                    what, "inside" if k == EMB else "of something owned by",
                    "by %s, line %s" % (f["q"].rsplit("::", 1)[-1] if f else "its initializer", line))
                if (t, op) not in ok:
                    ctx.check("self-contained", "%s cannot be %s" % (short, op), where, True, why)
                else:
                    g, d = written(ctx, F, t, op, rs, [])
                    ctx.check("self-contained", "%s %s" % (short, op), where, g is not False,
                              "%s, and the object can be %s (%s): the copy points into the original" % (why, op, d))
            if h:
                fq, q, line, dt, g = h[0]
                why = "the destructor releases %s (%s, line %s)" % (fq.rsplit("::", 1)[-1], q, line)
                if (t, op) not in ok:
                    ctx.check("released-once", "%s cannot be %s" % (short, op), where, True, why)
                else:
                    g, d = written(ctx, F, t, op, [], h)
                    ctx.check("released-once", "%s %s" % (short, op), where, g is not False,
                              "%s, and the object can be %s (%s): it is released twice" % (why, op, d))
