"""May-write effects: which storage outside a function its body may modify, through names, members, references,
pointers, iterators and calls.

Every expression that designates storage (or points into it) is mapped to the set of roots the storage may belong to;
local references, pointers, iterators and range variables carry the roots of what they were bound to. A function's
summary says which roots it may write (its parameters, its object, and tracked storage) and which roots what it
returns may refer to. Summaries are computed to a fixed point over the call graph (virtual calls: every overrider).
"""
import re
from model import walk

LOCAL = "local"
ATOMIC = re.compile(r"std::(atomic|mutex|shared_mutex|recursive_mutex|once_flag|condition_variable)\b")
# members of library types that hand out access to, or look at, their object without changing it
PASS = {"operator->", "operator*", "operator[]", "get", "at", "begin", "end", "rbegin", "rend", "cbegin", "cend", "data",
        "back", "front", "find", "top", "value", "lower_bound", "upper_bound", "equal_range", "size", "empty", "count",
        "contains", "operator bool", "<conv>", "base", "c_str", "length", "capacity", "has_value", "index",
        "operator+", "operator-", "operator==", "operator!=", "operator<", "operator<=>", "lock", "use_count"}
# library functions that write through iterators or pointers passed by value: name -> argument positions (None: all)
WRITERS = {"sort": None, "stable_sort": None, "fill": None, "fill_n": None, "reverse": None, "rotate": None, "iota": None,
           "generate": None, "generate_n": None, "replace": None, "replace_if": None, "remove": None, "remove_if": None,
           "unique": None, "shuffle": None, "partition": None, "nth_element": None, "iter_swap": None,
           "swap_ranges": None, "copy": (2,), "copy_n": (2,), "copy_if": (2,), "copy_backward": (2,), "move": (2,),
           "move_backward": (2,), "transform": (2, 3), "memcpy": (0,), "memmove": (0,), "memset": (0,), "merge": (4,),
           "set_union": (4,), "set_difference": (4,), "set_intersection": (4,), "partial_sort": None,
           "uninitialized_copy": (2,), "uninitialized_fill": None, "construct_at": (0,), "destroy_at": (0,)}
# library functions that take a reference to mutable storage without writing it themselves
TAKERS = {"move", "forward", "get", "get_if", "visit", "tie", "ref", "addressof", "begin", "end", "data", "size", "as_const", "invoke",
          "for_each", "back_inserter", "inserter", "min", "max", "make_pair", "make_tuple", "make_unique", "make_shared",
          "emplace", "emplace_back", "emplace_front", "emplace_hint", "try_emplace", "construct", "holds_alternative",
          "any_of", "all_of", "none_of", "find", "find_if", "count_if", "distance", "next", "prev", "advance", "lower_bound",
          "upper_bound", "binary_search", "equal", "views", "all", "filter", "push_back", "insert", "push", "apply"}
PTR = re.compile(r"[*&]\s*(const)?$|iterator|_ptr<|reference_wrapper|span<|_view\b|pair<.*(\*|iterator)|_Node|back_insert")


def pointerlike(t):
    return bool(PTR.search((t or "").rstrip()))


class Effects:
    def __init__(self, m, cg, track, within=None):
        """track(node) -> root or None for a "ref" (static storage) or "mem" node that designates tracked storage."""
        self.m, self.cg, self.track = m, cg, track
        self.fns = set(within) if within is not None else set(m.functions)
        self.sum = {fid: (frozenset(), frozenset()) for fid in self.fns}
        self.where = {}
        callers = {}
        for fid in self.fns:
            for s in cg.succ.get(fid, ()):
                callers.setdefault(s, set()).add(fid)
        todo = list(self.fns)
        while todo:
            fid = todo.pop()
            new = self.scan(fid)
            if new != self.sum[fid]:
                self.sum[fid] = new
                todo += [c for c in callers.get(fid, ()) if c in self.fns and c not in todo]
                if fid not in todo:
                    todo.append(fid)

    # -------------------------------------------------------------- one function
    def scan(self, fid):
        return FnScan(self, fid).result()


class FnScan:
    def __init__(self, E, fid):
        self.E, self.fid = E, fid
        self.f = f = E.m.functions[fid]
        self.alias, self.byval = {}, {}
        self.params = {}
        for i, p in enumerate(f["params"]):
            if p["pm"] in ("r", "m", "p", "c", "q") or pointerlike(p["t"]):
                self.alias[p["id"]] = {("P", i)}
            else:
                self.alias[p["id"]] = {LOCAL}
            self.byval[p["id"]] = p["pm"] in ("v", "p", "q")
        self.nodes = list(walk(f.get("inits"))) + list(walk(f.get("body")))
        self.fresh = f["q"].endswith("::<ctor>") or f["q"].endswith("::<dtor>")
        self.lambdas = {}
        for _ in range(12):
            before = {k: frozenset(v) for k, v in self.alias.items()}
            self.aliases()
            if before == {k: frozenset(v) for k, v in self.alias.items()}:
                break

    def bind(self, vid, roots):
        self.alias.setdefault(vid, set()).update(roots)

    def aliases(self):
        for n in self.nodes:
            k = n.get("k")
            if k is None and "id" in n and "n" in n and "t" in n and "pm" not in n:
                self.decl(n)
            elif k == "rfor":
                v = n["var"]
                self.decl(v, n["range"])
            elif k == "asg" and n["op"] == "=" and n["lhs"].get("k") == "ref" and n["lhs"].get("dk") in ("local", "param"):
                if pointerlike(n["lhs"].get("t")) or n["lhs"].get("t", "").endswith("*"):
                    self.bind(n["lhs"]["id"], self.roots(n["rhs"]))
            elif k == "call" and n.get("opc") == "=" and n.get("obj", {}).get("k") == "ref" and \
                    n["obj"].get("dk") in ("local", "param") and n.get("args"):
                if pointerlike(n["obj"].get("t")):
                    self.bind(n["obj"]["id"], self.roots(n["args"][0]))
            if k in ("call", "ctor"):
                others = None
                for a in ([n["obj"]] if isinstance(n.get("obj"), dict) else []) + n.get("args", []):
                    lams = [x for x in walk(a) if x.get("k") == "lambda"] if isinstance(a, dict) else []
                    if isinstance(a, dict) and a.get("k") == "ref" and a.get("id") in self.lambdas:
                        lams = [self.lambdas[a["id"]]]
                    for lam in lams:
                        if others is None:
                            others = set()
                            for b in ([n["obj"]] if isinstance(n.get("obj"), dict) else []) + n.get("args", []):
                                if isinstance(b, dict) and b.get("k") != "lambda":
                                    others |= self.roots(b)
                        for p in lam["params"]:
                            if p["pm"] in ("r", "m", "p", "c", "q") or pointerlike(p["t"]):
                                self.bind(p["id"], others)
                            else:
                                self.bind(p["id"], {LOCAL})
                            self.byval[p["id"]] = p["pm"] in ("v", "p", "q")

    def decl(self, v, src=None):
        src = src if src is not None else v.get("init")
        ref = v.get("isref") or pointerlike(v["t"])
        if isinstance(src, dict) and src.get("k") == "lambda":
            self.lambdas[v["id"]] = src
        rs = self.roots(src) if isinstance(src, dict) else set()
        self.byval[v["id"]] = not v.get("isref")
        if v.get("static"):
            return
        self.bind(v["id"], rs if ref else {LOCAL})
        for b in v.get("bindings", []):
            br = v.get("isref") or pointerlike(b["t"])
            self.bind(b["id"], rs if br else {LOCAL})
            self.byval[b["id"]] = not v.get("isref")

    # -------------------------------------------------------------- storage an expression designates
    def roots(self, e):
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        if k == "ref":
            t = self.E.track(self.f, e)
            if t:
                return {t}
            if e.get("dk") in ("local", "param", "binding"):
                return set(self.alias.get(e["id"], ()))
            return set()
        if k == "this":
            return {LOCAL} if self.fresh else {"this"}
        if k == "mem":
            b = self.roots(e["b"])
            if b == {LOCAL}:
                return b
            t = self.E.track(self.f, e)
            return b | ({t} if t else set())
        if k == "idx":
            return self.roots(e["b"])
        if k == "un":
            return self.roots(e["e"])
        if k in ("cast", "fcast", "dcast", "arrcopy"):
            return self.roots(e.get("e"))
        if k == "bin":
            return self.roots(e["lhs"]) | self.roots(e["rhs"]) if e["op"] in ("+", "-", ",") else set()
        if k == "asg":
            return self.roots(e["lhs"])
        if k == "cond":
            return self.roots(e["a"]) | self.roots(e["b"])
        if k == "init":
            return set().union(*[self.roots(x) for x in e["elems"]]) if e["elems"] else set()
        if k == "ctor":
            if pointerlike(e.get("t")) or pointerlike(e.get("cls")) or "iterator" in e.get("cls", ""):
                return set().union(*[self.roots(a) for a in e.get("args", [])]) if e.get("args") else set()
            return {LOCAL}
        if k == "call":
            fid = e.get("fn")
            tg = self.targets(e)
            if tg:
                out = set()
                for t in tg:
                    out |= self.subst(self.E.sum[t][1], e)
                return out
            if fid in self.E.m.functions:
                return set()
            out = self.roots(e["obj"]) if isinstance(e.get("obj"), dict) else set()
            for a in e.get("args", []):
                if isinstance(a, dict) and a.get("k") != "lambda":
                    out |= self.roots(a)
            return out
        return set()

    def targets(self, e):
        fid = e.get("fn")
        if fid is None:
            return []
        ts = {fid}
        if e.get("virt") and not e.get("qualcall"):
            ts |= self.E.cg._over(fid)
        return [t for t in ts if t in self.E.sum]

    def subst(self, roots, e):
        out = set()
        args = e.get("args", [])
        for r in roots:
            if r == "this":
                if isinstance(e.get("obj"), dict):
                    out |= self.roots(e["obj"])
            elif isinstance(r, tuple) and r[0] == "P":
                if r[1] < len(args):
                    out |= self.roots(args[r[1]])
            else:
                out.add(r)
        return out

    # -------------------------------------------------------------- writes
    def rebind(self, e):
        """Assigning to a local pointer, iterator or value writes the local itself."""
        while isinstance(e, dict) and e.get("k") in ("cast", "fcast"):
            e = e.get("e")
        return isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") in ("local", "param", "binding") and \
            self.byval.get(e["id"], True)

    def result(self):
        w = {}

        def put(rs, n, what):
            for r in rs:
                if r != LOCAL:
                    w.setdefault(r, (n.get("l"), what))
        for n in self.nodes:
            k = n.get("k")
            if k == "asg":
                if not self.rebind(n["lhs"]):
                    put(self.roots(n["lhs"]), n, "assigned")
            elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
                if not self.rebind(n["e"]):
                    put(self.roots(n["e"]), n, "incremented")
            elif k == "delete":
                put(self.roots(n["e"]), n, "deleted")
            elif k in ("call", "ctor"):
                self.call(n, put)
        ret = set()
        if pointerlike(self.f.get("ret")):
            lam = set()
            for n in self.nodes:
                if n.get("k") == "lambda":
                    lam |= {id(x) for x in walk(n["body"])}
            for n in self.nodes:
                if n.get("k") == "ret" and id(n) not in lam and isinstance(n.get("e"), dict):
                    ret |= self.roots(n["e"])
            ret.discard(LOCAL)
        self.E.where[self.fid] = w
        return frozenset(w), frozenset(ret)

    def call(self, n, put):
        q = n.get("q", "")
        tg = self.targets(n)
        if tg or n.get("fn") in self.E.m.functions:
            for t in tg:
                for r in self.E.sum[t][0]:
                    if r == "this" and isinstance(n.get("obj"), dict):
                        if not (n.get("opc") == "=" and self.rebind(n["obj"])):
                            put(self.roots(n["obj"]), n, "changed by %s" % q.rsplit("::", 1)[-1])
                    elif isinstance(r, tuple) and r[0] == "P":
                        if r[1] < len(n.get("args", [])):
                            put(self.roots(n["args"][r[1]]), n, "changed by %s" % q.rsplit("::", 1)[-1])
            return
        nm = q.rsplit("::", 1)[-1]
        if n["k"] == "call" and isinstance(n.get("obj"), dict) and not n.get("cm") and not n.get("static"):
            o = n["obj"]
            if q.startswith("log_surgeon") and n.get("opc") != "=":
                pass                       # implicit members without a body here: only assignment changes the object
            elif nm not in PASS and not q.startswith("?") and "(lambda" not in q and \
                    not (self.rebind(o) and not n.get("arrow")):
                put(self.roots(o), n, "changed by %s()" % nm)
        pos = WRITERS.get(nm) if not n.get("obj") and nm in WRITERS else ()
        for i, (a, pm) in enumerate(zip(n.get("args", []), n.get("pm", []) or ["v"] * 99)):
            if not isinstance(a, dict) or a.get("k") == "lambda":
                continue
            if nm in WRITERS and not n.get("obj") and (pos is None or i in pos) and len(n["args"]) > 1:
                put(self.roots(a), n, "changed by %s()" % nm)
            elif pm == "m":
                if a.get("k") == "call" and a.get("q") == "std::move" and nm not in ("move", "forward", "get", "visit"):
                    put(self.roots(a), n, "moved from by %s" % nm)
            elif pm == "r" and nm not in TAKERS:
                if not self.rebind(a) or not pointerlike(a.get("t")):
                    put(self.roots(a), n, "changed by %s()" % nm)
            elif pm == "p" and nm not in TAKERS and nm not in WRITERS and n["k"] == "call":
                put(self.roots(a), n, "changed by %s()" % nm)
