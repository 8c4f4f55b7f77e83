"""Abstract interpreter over the extracted program.

Partitioned (disjunctive) abstract states: a memory of symbolic linear terms plus a fact base of
linear bounds (dom.Facts).  Branches split states and drop those whose facts are contradictory; states
that agree on memory and events are joined; loops are run to a fixpoint (changed locations are
widened to fresh atoms, loop invariants are inferred by pruning candidates); calls to repository
functions are expanded, library calls use the transfer functions below, anything else is havocked.
Nothing is executed and no solver is involved.
"""
import re

from dom import *
from model import AnalysisBroken, walk

SCALARS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short",
           "unsigned short", "char", "signed char", "unsigned char", "bool", "std::nullptr_t", "nullptr_t",
           "char32_t", "char16_t", "char8_t", "wchar_t", "std::byte"}
PTRLIKE = ("std::unique_ptr<", "std::shared_ptr<", "__gnu_cxx::__normal_iterator<")


def strip_t(t):
    t = t.replace("class ", "").replace("struct ", "").replace("enum ", "").strip()
    while True:
        o = t
        if t.endswith("&"):
            t = t.rstrip("&").strip()
        if t.endswith(" const"):
            t = t[:-6]
        if t.startswith("const ") and not t.endswith("*"):
            t = t[6:]
        if t.endswith("*const"):
            t = t[:-5]
        if t == o:
            return t


class State:
    __slots__ = ("store", "facts", "events", "epoch", "n", "refs", "cls", "ghost")

    def __init__(self):
        self.store, self.facts, self.events, self.epoch, self.n = {}, Facts(), (), {}, 0
        self.refs, self.cls, self.ghost = {}, {}, {}

    def copy(self):
        s = State.__new__(State)
        s.store, s.facts, s.events = dict(self.store), self.facts.copy(), self.events
        s.epoch, s.n, s.refs, s.cls = dict(self.epoch), self.n, dict(self.refs), dict(self.cls)
        s.ghost = dict(self.ghost)
        return s

    def key(self):
        return (frozenset(self.store.items()), self.events, frozenset(self.epoch.items()),
                frozenset(self.refs.items()), frozenset(self.ghost.items()))

    def emit(self, *ev):
        self.events = self.events + (tuple(ev),)

    def fresh(self, *tag):
        self.n += 1
        return ("fr",) + tag + (self.n,)


class Cx:
    """Where we are: function record, location of *this, call stack of function ids."""
    __slots__ = ("fn", "this", "stack", "lam")

    def __init__(self, fn, this, stack=(), lam=None):
        self.fn, self.this, self.stack, self.lam = fn, this, stack, lam

    @property
    def owner(self):
        return self.lam if self.lam is not None else self.fn["id"]


class Interp:
    MAXSTATES = 6000

    def __init__(self, model, hooks=None, opaque=(), pure=()):
        self.m = model
        self.hooks = dict(hooks or {})
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.aborts = []          # (state, node, fn) of failed assertions / noreturn calls
        self.throws = []
        self.on_deref = None      # f(st, pointer, node, cx)
        self.on_index = None      # f(st, base loc or pointer, index, node, cx)
        self.on_write = None      # f(st, loc, value, node, cx)
        self.extra_inv = []       # f(state) -> [(value, op)]
        self.keep_left = False    # keep, in .left, the states in which control leaves each loop
        self.left = []
        self.on_exit = None       # f(I, st, loop id, cx): called where control leaves a loop normally
        self.join_key = None      # f(st): states with different keys are never joined
        self.on_enter = None      # f(I, st, loop id, cx): called with the state in which a loop is entered
        self.on_back = None       # f(I, st, loop id, cx): called where control returns to a loop head
        self.unknown = {}
        self.steps = 0
        self.max_steps = 400000
        self.functions_seen = set()
        self.calls_seen = 0
        self.join_states = True
        self.unroll_fork = 0
        self.unroll = 0           # loops with a constant trip count up to this are expanded
        self.devirt = True
        self.enum_ts = set(model.enums)
        self._scal = {}

    # ------------------------------------------------------------ types
    def scalar(self, t):
        r = self._scal.get(t)
        if r is None:
            s = strip_t(t)
            r = s.endswith("*") or s in SCALARS or s in self.enum_ts or s.startswith(PTRLIKE)
            self._scal[t] = r
        return r

    def type_bounds(self, st, v, t):
        s = strip_t(t)
        if len(v[2]) != 1 or v[2][0][1] != 1 or v[1] != 0:
            return
        a = v[2][0][0]
        if s.endswith("*") or s.startswith(PTRLIKE):
            mark_ptr(a)
            lo, hi = 0, INF
        elif s == "bool":
            lo, hi = 0, 1
        elif s == "unsigned char":
            lo, hi = 0, 255
        elif s == "char":
            lo, hi = -128, 127
        elif s.startswith("unsigned") or s in self.enum_ts:
            lo, hi = 0, INF
        else:
            return
        f = ((a, 1),)
        l, h, nq = st.facts._get(f)
        if l < lo or h > hi:
            st.facts.b[f] = (max(l, lo), min(h, hi), nq)
            st.facts._memo = {}

    # ------------------------------------------------------------ memory
    def init_value(self, st, loc, t):
        ep = self._epoch(st, loc)
        if t is not None and self.scalar(t):
            return atom(("in", loc) + ep)
        return ("o", "in", loc) + ep

    def _epoch(self, st, loc):
        if not st.epoch:
            return ()
        e = 0
        if loc[1][0] == "d":
            e = st.epoch.get(ptr_base(loc[1][1]), 0)
        return (e,) if e else ()

    def read(self, st, loc, t=None):
        store = st.store
        n = len(loc[2])
        desc = None
        for l2 in store:
            if l2[1] == loc[1] and len(l2[2]) > n and l2[2][:n] == loc[2]:
                if desc is None:
                    desc = []
                desc.append((l2[2][n:], store[l2]))
        if loc in store:
            base = store[loc]
        else:
            base = None
            for k in range(n - 1, -1, -1):
                anc = ("L", loc[1], loc[2][:k])
                if anc in store:
                    base = self.sel(st, store[anc], loc[2][k:], t, anc)
                    break
            if base is None:
                base = self.init_value(st, loc, t)
        if desc:
            desc.sort(key=repr)
            return self.upd(base, tuple(desc))
        if base[0] == "n" and t is not None:
            self.type_bounds(st, base, t)
        elif base[0] == "o" and t is not None and self.scalar(t):
            base = atom(("val", base))
            self.type_bounds(st, base, t)
        return base

    @staticmethod
    def upd(base, items):
        if base[0] == "upd":
            d = [(s, v) for s, v in base[2]]
            for s, v in items:
                d = [(s2, v2) for s2, v2 in d if s2[:len(s)] != s]
                d.append((s, v))
            items = tuple(sorted(d, key=repr))
            base = base[1]
        return ("upd", base, items)

    def sel(self, st, v, sels, t=None, anc=None):
        """Selects a member of an object value."""
        if not sels:
            return v
        if v[0] == "upd":
            for s, x in v[2]:
                if sels[:len(s)] == s:
                    return self.sel(st, x, sels[len(s):], t)
            inner = [(s[len(sels):], x) for s, x in v[2] if s[:len(sels)] == sels]
            b = self.sel(st, v[1], sels, t)
            if inner:
                return self.upd(b, tuple(inner))
            # an element written at an index that may equal ours
            for s, x in v[2]:
                if not self._sels_distinct(st, s, sels):
                    return self.mkval(("o", "sel", v, sels), t)
            return b
        if v[0] == "o":
            op = v[1]
            if op == "zero":
                return ZERO if t is not None and self.scalar(t) else v
            if op == "in":
                return self.mkval2(("L", v[2][1], v[2][2] + sels), v[3:], t)
            s0 = sels[0]
            if s0[0] == "e":
                i = as_num(s0[1])
                if op == "vec":
                    c = cval(i)
                    if c is not None and 0 <= c < len(v[2]):
                        return self.sel(st, v[2][c], sels[1:], t)
                if op == "str" and len(sels) == 1:
                    c = cval(i)
                    if c is not None and 0 <= c < len(v[2]):
                        return num(ord(v[2][c]))
                if op == "push":
                    sz = self.size(st, v[2])
                    d = sub(i, sz)
                    if st.facts.is_zero(d):
                        return self.sel(st, v[3], sels[1:], t)
                    if st.facts.nonzero(d):
                        return self.sel(st, v[2], sels, t)
                if op == "pop":
                    return self.sel(st, v[2], sels, t)
                if op == "fill":
                    return self.sel(st, v[3], sels[1:], t)
            if s0[0] == "i" and op == "some":
                return self.sel(st, v[2], sels[1:], t)
            if op == "pair" and s0[0] == "f":
                if s0[1].endswith("::first"):
                    return self.sel(st, v[2], sels[1:], t)
                if s0[1].endswith("::second"):
                    return self.sel(st, v[3], sels[1:], t)
        return self.mkval(("o", "sel", v, sels), t)

    def mkval(self, o, t):
        if t is not None and self.scalar(t):
            return atom(("val", o))
        return o

    def mkval2(self, loc, ep, t):
        if t is not None and self.scalar(t):
            return atom(("in", loc) + ep)
        return ("o", "in", loc) + ep

    @staticmethod
    def _sels_distinct(st, a, b):
        return distinct_locs(("L", 0, a), ("L", 0, b), st.facts) or any(
            x != y and x[0] == "f" and y[0] == "f" for x, y in zip(a, b))

    def write(self, st, loc, v, node=None, cx=None):
        if self.on_write is not None:
            self.on_write(st, loc, v, node, cx)
        n = len(loc[2])
        kill = []
        for l2 in st.store:
            if l2 == loc:
                continue
            if l2[1] == loc[1] and l2[2][:n] == loc[2] and len(l2[2]) > n:
                kill.append(l2)
            elif (l2[1] == loc[1] or (l2[1][0] == "d" and loc[1][0] == "d")) and not distinct_locs(l2, loc, st.facts):
                # may alias (symbolic element or pointer offset): forget, unless an ancestor
                if l2[1] == loc[1] and loc[2][:len(l2[2])] == l2[2]:
                    continue
                kill.append((l2,))
        for k in kill:
            if len(k) == 1:
                st.store[k[0]] = ("o", "fr", "alias", k[0], st.fresh()) if st.store[k[0]][0] != "n" else atom(
                    st.fresh("alias"))
            else:
                del st.store[k]
        if v[0] == "upd" and v[1] == ("o", "undef"):
            st.store[loc] = ("o", "undef")
            for s, x in v[2]:
                st.store[("L", loc[1], loc[2] + s)] = x
            return
        st.store[loc] = v

    def drop(self, st, pred):
        for k in [k for k in st.store if pred(k)]:
            del st.store[k]

    # ------------------------------------------------------------ container terms
    def size(self, st, v):
        if v[0] == "upd":
            return self.size(st, v[1])
        if v[0] == "o":
            op = v[1]
            if op == "vec":
                return num(len(v[2]))
            if op == "push":
                return add(self.size(st, v[2]), ONE)
            if op == "pop":
                return sub(self.size(st, v[2]), ONE)
            if op == "fill":
                return v[2]
            if op == "resize":
                return v[3]
            if op == "str":
                return num(len(v[2]))
            if op in ("cat", "joined"):
                return add(self.size(st, v[2]), self.size(st, v[3]))
            if op == "append":
                return add(self.size(st, v[2]), sub(v[4], v[3]))
            if op == "range":
                return sub(v[3], v[2])
        r = atom(("size", v))
        f = r[2]
        if f not in st.facts.b:
            st.facts.b[f] = (0, INF, ())
            st.facts._memo = {}
        return r

    # ------------------------------------------------------------ expressions
    def tick(self, k=1):
        self.steps += k
        if self.steps > self.max_steps:
            raise AnalysisBroken("abstract interpretation exceeded %d steps" % self.max_steps)

    def var_loc(self, st, e, cx):
        dk = e["dk"]
        if dk in ("global",):
            return L(("g", e["id"]))
        if dk == "slocal":
            return L(("g", cx.owner + "#" + e["id"]))
        k = (cx.owner, e["id"])
        r = st.refs.get(k)
        if r is not None:
            return r
        return L(("v",) + k)

    def is_lv(self, e):
        k = e["k"]
        if k == "ref":
            return e["dk"] in ("local", "param", "global", "slocal", "binding")
        if k in ("mem", "idx", "asg"):
            return True
        if k == "un":
            return e["op"] in ("*", "++", "--")
        if k == "call":
            return True
        if k == "cond":
            return self.is_lv(e["a"]) and self.is_lv(e["b"]) and e["a"]["k"] != "call" and e["b"]["k"] != "call"
        if k in ("cast", "fcast", "dcast"):
            return e["to"].endswith("&")
        return False

    def tmp(self, st, v, t=None):
        st.n += 1
        loc = L(("t", st.n))
        self.write(st, loc, v)
        return loc

    def lv(self, st, e, cx):
        """Lvalue evaluation: list of (state, location)."""
        self.tick()
        k = e["k"]
        if k == "ref":
            if e["dk"] in ("local", "param", "global", "slocal", "binding"):
                if e["dk"] == "global" and e.get("cv") is not None and ("g", e["id"]) and e.get("const"):
                    loc = L(("g", e["id"]))
                    return [(st, loc)]
                return [(st, self.var_loc(st, e, cx))]
        elif k == "mem":
            out = []
            if e.get("arrow"):
                for s, p in self.ev(st, e["b"], cx):
                    if self.on_deref:
                        self.on_deref(s, p, e, cx)
                    out.append((s, at(deref(p), ("f", e["f"]))))
                return out
            return [(s, at(b, ("f", e["f"]))) for s, b in self.lv(st, e["b"], cx)]
        elif k == "idx":
            out = []
            bt = e["b"].get("t", "")
            if bt.rstrip().endswith("]"):
                for s, b in self.lv(st, e["b"], cx):
                    for s2, i in self.ev(s, e["i"], cx):
                        if self.on_index:
                            self.on_index(s2, b, i, e, cx)
                        out.append((s2, at(b, ("e", as_num(i)))))
                return out
            for s, p in self.ev(st, e["b"], cx):
                for s2, i in self.ev(s, e["i"], cx):
                    if self.on_index:
                        self.on_index(s2, p, i, e, cx)
                    out.append((s2, deref(add(as_num(p), as_num(i)))))
            return out
        elif k == "un":
            if e["op"] == "*":
                out = []
                for s, p in self.ev(st, e["e"], cx):
                    if self.on_deref:
                        self.on_deref(s, p, e, cx)
                    out.append((s, deref(p)))
                return out
            if e["op"] in ("++", "--"):
                out = []
                for s, loc in self.lv(st, e["e"], cx):
                    v = as_num(self.read(s, loc, e["e"].get("t")))
                    self.write(s, loc, add(v, ONE if e["op"] == "++" else num(-1)), e, cx)
                    out.append((s, loc))
                return out
        elif k == "asg":
            return self.assign(st, e, cx)
        elif k == "cond":
            out = []
            for s, b in self.br(st, e["c"], cx):
                out += self.lv(s, e["a"] if b else e["b"], cx)
            return out
        elif k in ("cast", "fcast", "dcast"):
            if e["to"].endswith("&"):
                return self.lv(st, e["e"], cx)
        elif k == "call":
            out = []
            for s, v in self.call(st, e, cx):
                if v[0] == "ref":
                    out.append((s, v[1]))
                else:
                    out.append((s, self.tmp(s, v)))
            return out
        elif k == "this":
            return [(st, cx.this)]
        out = []
        for s, v in self.ev(st, e, cx):
            out.append((s, self.tmp(s, v)))
        return out

    def assign(self, st, e, cx):
        op = e["op"]
        out = []
        if op == "=":
            t = e["lhs"].get("t", "")
            for s, v in self.ev(st, e["rhs"], cx):
                for s2, loc in self.lv(s, e["lhs"], cx):
                    self.write(s2, loc, self.narrow(s2, v, e["rhs"], t), e, cx)
                    out.append((s2, loc))
            return out
        for s, loc in self.lv(st, e["lhs"], cx):
            for s2, v in self.ev(s, e["rhs"], cx):
                old = self.read(s2, loc, e["lhs"].get("t"))
                for s3, r in self.arith_split(s2, op[:-1], as_num(old), as_num(v), e):
                    self.write(s3, loc, r, e, cx)
                    out.append((s3, loc))
        return out

    def narrow(self, st, v, e, t):
        w = e.get("narrow")
        if not w or v[0] != "n":
            return v
        s = strip_t(t or e.get("t", ""))
        if s == "bool":
            return v
        if w == 8:
            lo, hi = (0, 255) if "unsigned" in s else (-128, 127)
        elif w == 32:
            return v      # 64 -> 32 bit: sizes and positions are assumed to fit (see ASSUMPTIONS)
        else:
            return v
        if st.facts.lower(v) >= lo and st.facts.upper(v) <= hi:
            return v
        return atom(("trunc", w, "u" if lo == 0 else "s", v))

    def field_type(self, f, q):
        r = self.m.rec_by_t.get(f.get("clst")) or {}
        return next((x["t"] for x in r.get("fields", []) if x["q"] == q), "")

    def arith_split(self, st, op, a, b, e=None):
        """a % b with 0 <= a < 2b is a or a - b."""
        if op == "%" and not (is_const(a) and is_const(b)) and st.facts.lower(a) >= 0 and st.facts.lower(b) >= 0 and \
                st.facts.upper(sub(a, scale(b, 2))) < 0:
            return [(s, a if lt else sub(a, b)) for s, lt in self.cmp(st, "<", a, b)]
        return [(st, self.arith(st, op, a, b, e))]

    def arith(self, st, op, a, b, e=None):
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            if is_const(a):
                return scale(b, a[1])
            if is_const(b):
                return scale(a, b[1])
        ca, cb = cval(a), cval(b)
        if ca is not None and cb is not None and (op not in ("/", "%") or cb):
            try:
                r = {"/": lambda: int(ca / cb) if (ca < 0) != (cb < 0) else ca // cb,
                     "%": lambda: ca - cb * (int(ca / cb)), "<<": lambda: ca << cb, ">>": lambda: ca >> cb,
                     "&": lambda: ca & cb, "|": lambda: ca | cb, "^": lambda: ca ^ cb, "*": lambda: ca * cb}.get(op)
                if r:
                    return num(r())
            except (ValueError, OverflowError):
                pass
        if op == "/" and cb:
            if a[1] % cb == 0 and all(k % cb == 0 for _, k in a[2]):
                return ("n", a[1] // cb, tuple((x, k // cb) for x, k in a[2]))
        if op == "<<" and cb is not None:
            return scale(a, 1 << cb)
        if op in ("|", "^") and (ca == 0 or cb == 0):
            return b if ca == 0 else a
        if op == "&" and (ca == 0 or cb == 0):
            return ZERO
        if op in ("&", "|") and a == b:
            return a
        if op in ("&", "|") and (ca == 1 or cb == 1):
            x = b if ca == 1 else a
            if st.facts.lower(x) >= 0 and st.facts.upper(x) <= 1:
                return ONE if op == "|" else x
        if op in ("*", "&", "|", "^", "+"):
            a, b = sorted((a, b), key=skey)
        r = atom(("op", op, a, b))
        if op == "/" and cb and cb > 0 and st.facts.lower(a) >= 0:
            # cb*r <= a <= cb*r + cb-1
            st.facts.assume(sub(scale(r, cb), a), "<=")
            st.facts.assume(sub(a, add(scale(r, cb), num(cb - 1))), "<=")
        if op == "%" and cb and cb > 0 and st.facts.lower(a) >= 0:
            st.facts._bound(r, 0, cb - 1)
        return r

    def ev(self, st, e, cx):
        """Rvalue evaluation: list of (state, value)."""
        if e is None:
            return [(st, ("o", "undef"))]
        self.tick()
        k = e["k"]
        t = e.get("t", "")
        if e.get("cv") is not None and self.scalar(t):
            return [(st, num(e["cv"]))]
        if k == "int":
            return [(st, num(e.get("cv", 0)))]
        if k == "null":
            return [(st, ZERO)]
        if k == "str":
            return [(st, ("o", "str", e["v"]))]
        if k == "this":
            return [(st, addr(cx.this))]
        if k == "ref":
            dk = e["dk"]
            if dk == "func":
                return [(st, ("o", "fnref", e["fn"]))]
            if dk in ("enum", "other"):
                return [(st, num(e.get("cv", 0)))]
            loc = self.var_loc(st, e, cx)
            if t.rstrip().endswith("]"):
                return [(st, addr(at(loc, ("e", ZERO))))]
            return [(st, self.read(st, loc, t))]
        if k in ("mem", "idx"):
            out = []
            for s, loc in self.lv(st, e, cx):
                if t.rstrip().endswith("]"):
                    out.append((s, addr(at(loc, ("e", ZERO)))))
                else:
                    out.append((s, self.read(s, loc, t)))
            return out
        if k == "asg":
            return [(s, self.read(s, loc, t)) for s, loc in self.assign(st, e, cx)]
        if k == "un":
            op = e["op"]
            if op == "*":
                return [(s, self.read(s, loc, t)) for s, loc in self.lv(st, e, cx)]
            if op == "&":
                if e["e"]["k"] == "ref" and e["e"].get("dk") == "func":
                    return [(st, ("o", "fnref", e["e"]["fn"]))]
                return [(s, addr(loc)) for s, loc in self.lv(st, e["e"], cx)]
            if op in ("++", "--"):
                return [(s, self.read(s, loc, t)) for s, loc in self.lv(st, e, cx)]
            if op in ("p++", "p--"):
                out = []
                for s, loc in self.lv(st, e["e"], cx):
                    v = as_num(self.read(s, loc, e["e"].get("t")))
                    self.write(s, loc, add(v, ONE if op == "p++" else num(-1)), e, cx)
                    out.append((s, v))
                return out
            if op == "-":
                return [(s, scale(as_num(v), -1)) for s, v in self.ev(st, e["e"], cx)]
            if op == "+":
                return self.ev(st, e["e"], cx)
            if op == "!":
                return [(s, num(0 if b else 1)) for s, b in self.br(st, e["e"], cx)]
            return [(s, atom(("op", op, as_num(v)))) for s, v in self.ev(st, e["e"], cx)]
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return [(s, num(1 if b else 0)) for s, b in self.br(st, e, cx)]
            if op == ",":
                out = []
                for s, _ in self.ev(st, e["lhs"], cx):
                    out += self.ev(s, e["rhs"], cx)
                return out
            out = []
            for s, a in self.ev(st, e["lhs"], cx):
                for s2, b in self.ev(s, e["rhs"], cx):
                    out += self.arith_split(s2, op, as_num(a), as_num(b), e)
            return out
        if k == "cond":
            out = []
            for s, b in self.br(st, e["c"], cx):
                out += self.ev(s, e["a"] if b else e["b"], cx)
            return out
        if k in ("cast", "fcast"):
            out = []
            if strip_t(e["to"]) == "void":
                return [(s, ("o", "void")) for s, _ in self.ev(st, e["e"], cx)]
            if strip_t(e["to"]) == "bool" and not e.get("cv"):
                return [(s, num(1 if b else 0)) for s, b in self.br(st, e["e"], cx)]
            for s, v in self.ev(st, e["e"], cx):
                if v[0] == "n":
                    v = self.narrow(s, v, e, e["to"])
                    sub_t = strip_t(e["e"].get("t", ""))
                    to = strip_t(e["to"])
                    if sub_t == "char" and to.startswith("unsigned") and v[0] == "n" and not is_const(v):
                        if s.facts.lower(v) < 0:
                            v = atom(("uchar", v)) if to == "unsigned char" else v
                out.append((s, v))
            return out
        if k == "dcast":
            out = []
            for s, v in self.ev(st, e["e"], cx):
                out.append((s, self.dyncast(s, v, e, cx)))
            return out
        if k == "call":
            out = []
            for s, v in self.call(st, e, cx):
                if v[0] == "ref":
                    v = self.read(s, v[1], t)
                    if v[0] != "n" and self.scalar(t):
                        v = as_num(v)
                out.append((s, v))
            return out
        if k in ("ctor", "init"):
            out = []
            st.n += 1
            loc = L(("t", st.n))
            for s in self.construct(st, loc, e, cx):
                v = self.read(s, loc, t)
                self.drop(s, lambda x: x[1] == loc[1])
                out.append((s, v))
            return out
        if k == "lambda":
            return [(st, ("lam", e["fn"], cx.this, cx.owner))]
        if k == "new":
            st.n += 1
            loc = L(("h", st.n))
            st.cls[loc[1]] = e.get("cls", "")
            h = self.hooks.get("new " + e.get("cls", ""))
            outs = [st]
            if e.get("ctor") is not None:
                outs = self.construct(st, loc, e["ctor"], cx)
            return [(s, addr(loc)) for s in outs]
        if k == "delete":
            return [(s, ("o", "void")) for s, _ in self.ev(st, e["e"], cx)]
        if k == "throw":
            for s, v in (self.ev(st, e["e"], cx) if e.get("e") else [(st, None)]):
                self.throws.append((s, e, cx))
            return []
        if k == "zeroinit":
            return [(st, ZERO if self.scalar(t) else ("o", "zero"))]
        if k in ("sizeof", "float"):
            return [(st, atom(("lit", k, e.get("l"))))]
        if k == "arrcopy":
            return self.ev(st, e["e"], cx)
        if k == "memfn":
            return [(st, ("o", "fnref", e["fn"]))]
        if k == "other":
            sts = [st]
            for c in e.get("ch", []):
                sts = [s2 for s in sts for s2, _ in self.ev(s, c, cx)]
            return [(s, self.mkval(("o", "other", e["cls"], s.fresh()), t)) for s in sts]
        raise AnalysisBroken("unknown expression kind " + k)

    def dyncast(self, st, v, e, cx):
        to = e.get("torec", "")
        p = as_num(v)
        loc = deref(p)
        c = st.cls.get(loc[1]) if not loc[2] else None
        if c is not None:
            return p if (c == to or to in self.m.all_bases(c)) else ZERO
        r = atom(("dyn", to, p))
        mark_ptr(r[2][0][0])
        st.facts._bound(r, 0, None)
        return r

    # ------------------------------------------------------------ conditions
    def br(self, st, e, cx):
        """Branch on a condition: list of (state, bool)."""
        self.tick()
        k = e["k"]
        if e.get("cv") is not None and k not in ("asg",):
            return [(st, bool(e["cv"]))]
        if k == "bin":
            op = e["op"]
            if op == "&&" or op == "||":
                out = []
                for s, b in self.br(st, e["lhs"], cx):
                    if b == (op == "||"):
                        out.append((s, b))
                    else:
                        out += self.br(s, e["rhs"], cx)
                return out
            if op in ("==", "!=", "<", ">", "<=", ">="):
                out = []
                for s, a in self.ev(st, e["lhs"], cx):
                    for s2, b in self.ev(s, e["rhs"], cx):
                        out += self.cmp(s2, op, a, b)
                return out
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.br(st, e["e"], cx)]
        if k in ("cast", "fcast") and strip_t(e["to"]) == "bool":
            return self.br(st, e["e"], cx)
        out = []
        for s, v in self.ev(st, e, cx):
            out += self.split(s, as_num(v))
        return out

    def split(self, st, v):
        """v != 0 ?"""
        if is_const(v):
            return [(st, v[1] != 0)]
        if st.facts.is_zero(v):
            return [(st, False)]
        if st.facts.nonzero(v):
            return [(st, True)]
        s2 = st.copy()
        out = []
        if st.facts.assume(v, "!="):
            out.append((st, True))
        if s2.facts.assume(v, "=="):
            out.append((s2, False))
        return out

    def cmp(self, st, op, a, b):
        a, b = as_num(a), as_num(b)
        d = sub(a, b)
        if op in ("==", "!="):
            r = self.split(st, d)
            return [(s, (not x) if op == "==" else x) for s, x in r]
        if op == ">":
            d, op = scale(d, -1), "<"
        elif op == ">=":
            d, op = scale(d, -1), "<="
        if op == "<":
            d1 = add(d, ONE)          # a-b+1 <= 0
        else:
            d1 = d
        neg = add(scale(d1, -1), ONE)  # not(d1<=0)  ==  -d1+1 <= 0
        if is_const(d1):
            return [(st, d1[1] <= 0)]
        if st.facts.upper(d1) <= 0:
            return [(st, True)]
        if st.facts.lower(d1) > 0:
            return [(st, False)]
        s2 = st.copy()
        out = []
        if st.facts.assume(d1, "<="):
            out.append((st, True))
        if s2.facts.assume(neg, "<="):
            out.append((s2, False))
        return out

    # ------------------------------------------------------------ construction
    def construct(self, st, loc, e, cx):
        """Constructs the object described by e at loc; list of states."""
        self.tick()
        k = e["k"]
        t = e.get("t", "")
        if "cast" in k and e.get("rec") and e["e"]["k"] in ("ctor", "init") and e["e"].get("rec") == e["rec"]:
            return self.construct(st, loc, e["e"], cx)      # a prvalue initialises the object itself
        if k == "init":
            flds = e.get("fields")
            sts = [st]
            if flds is not None and len(e["elems"]) == 1 and e["elems"][0].get("rec") and \
                    e["elems"][0]["rec"] == e.get("rec"):
                return self.construct(st, loc, e["elems"][0], cx)
            if flds is not None and e.get("rec", "").startswith("log_surgeon"):
                self.write(st, loc, ("o", "undef"))
                for f, x in zip(flds, e["elems"]):
                    sts = [s2 for s in sts for s2 in self.construct(s, at(loc, ("f", f)), x, cx)]
                return sts
            outs = [(st, ())]
            for x in e["elems"]:
                outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in self.ev(s, x, cx)]
            for s, vs in outs:
                if len(vs) == 1 and vs[0][0] == "o" and vs[0][1] == "vec":
                    self.write(s, loc, vs[0])
                elif self.scalar(t):
                    self.write(s, loc, vs[0] if vs else ZERO)
                elif not vs and (t.endswith("]") or t.startswith("std::array<")):
                    self.write(s, loc, ("o", "zero"))
                else:
                    self.write(s, loc, ("o", "vec", vs))
            return [s for s, _ in outs]
        if k == "ctor":
            cls = e["cls"]
            if cls.startswith("log_surgeon"):
                f = self.m.functions.get(e["fn"])
                h = self.hooks.get(e["q"])
                inl = f is not None and not ((e.get("copy") or e.get("move")) and f.get("defaulted")) and \
                    f["id"] not in cx.stack
                if h is not None or inl:
                    outs = []
                    for s, args in self.args(st, e, cx):
                        r = h(self, s, e, cx, loc, args) if h is not None else None
                        if r is not None:
                            outs += [s2 for s2, _ in r]
                        elif inl:
                            if loc not in s.store:
                                self.write(s, loc, ("o", "undef"))
                            outs += [s2 for s2, _ in self.invoke(s, f, loc, args, cx)]
                        else:
                            self.write(s, loc, self.val(s, args[0]) if args and (e.get("copy") or e.get("move")) else
                                       ("o", "new", cls, tuple(self.val(s, a) for a in args)))
                            outs.append(s)
                    return outs
                if e.get("copy") or e.get("move"):
                    outs = []
                    for s, v in self.ev(st, e["args"][0], cx):
                        self.write(s, loc, v)
                        outs.append(s)
                    return outs
                # implicit default construction
                if not e["args"]:
                    self.write(st, loc, ("o", "undef"))
                    sts = [st]
                    for b in [cls] + self.m.all_bases(cls):
                        r = self.m.records.get(b)
                        for fl in (r["fields"] if r else []):
                            if fl.get("init") is not None:
                                sts = [s2 for s in sts for s2 in
                                       self.construct(s, at(loc, ("f", fl["q"])), fl["init"], cx)]
                            elif e.get("zero") and self.scalar(fl["t"]):
                                for s in sts:
                                    self.write(s, at(loc, ("f", fl["q"])), ZERO)
                    return sts
                outs = []
                for s, args in self.args(st, e, cx):
                    vs = tuple(self.val(s, a) for a in args)
                    self.write(s, loc, ("o", "new", cls, vs))
                    outs.append(s)
                return outs
            outs = []
            for s, args in self.args(st, e, cx):
                for s2, v in self.std_ctor(s, e, cx, args):
                    self.write(s2, loc, v)
                    outs.append(s2)
            return outs
        outs = []
        for s, v in self.ev(st, e, cx):
            self.write(s, loc, self.narrow(s, v, e, t))
            outs.append(s)
        return outs

    # ------------------------------------------------------------ calls
    def args(self, st, e, cx):
        """Evaluates arguments: list of (state, [('ref',loc) | value])."""
        outs = [(st, [])]
        pm = e.get("pm", [])
        for i, a in enumerate(e.get("args", [])):
            mode = pm[i] if i < len(pm) else ("c" if self.is_lv(a) else "v")
            nxt = []
            for s, vs in outs:
                if mode in ("r", "c", "m") and self.is_lv(a) and a.get("cv") is None:
                    if a["k"] == "call":
                        for s2, v in self.call(s, a, cx):
                            nxt.append((s2, vs + [v]))
                    else:
                        for s2, loc in self.lv(s, a, cx):
                            nxt.append((s2, vs + [("ref", loc)]))
                else:
                    for s2, v in self.ev(s, a, cx):
                        v = self.narrow(s2, v, a, a.get("t", ""))
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def val(self, st, a, t=None):
        if a[0] == "ref":
            return self.read(st, a[1], t)
        return a

    def objloc(self, st, e, cx):
        """Location of the object a member call is made on: list of (state, loc)."""
        o = e["obj"]
        if e.get("arrow"):
            out = []
            for s, p in self.ev(st, o, cx):
                if self.on_deref:
                    self.on_deref(s, p, e, cx)
                out.append((s, deref(p)))
            return out
        return self.lv(st, o, cx)

    def call(self, st, e, cx):
        """list of (state, value or ('ref', loc))"""
        self.tick()
        self.calls_seen += 1
        q = e.get("q", "?")
        out = []
        if "obj" in e:
            if q == "?indirect" or q == "?memptr":
                pre = [(s, ("fnval", v)) for s, v in self.ev(st, e["obj"], cx)]
            else:
                pre = self.objloc(st, e, cx)
        else:
            pre = [(st, None)]
        for s, obj in pre:
            for s2, args in self.args(s, e, cx):
                out += self.apply(s2, e, cx, q, obj, args)
        return out

    def apply(self, st, e, cx, q, obj, args):
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, e, cx, obj, args)
            if r is not None:
                return r
        if e.get("noret") or q in ("__assert_fail", "abort", "std::terminate", "exit"):
            self.aborts.append((st, e, cx))
            return []
        if q.startswith("(lambda at"):
            return self.call_lambda(st, e["fn"], args, cx, obj)
        if q == "std::function::operator()" and obj is not None:
            v = self.read(st, obj)
            if v[0] == "lam":
                return self.call_lambda(st, v[1], args, cx, obj)
        fid = e.get("fn")
        f = self.m.functions.get(fid)
        if e.get("virt") and not e.get("qualcall"):
            f2 = self.devirtualize(st, e, obj, fid)
            if f2 is not None:
                f = f2
            elif self.m.overriders.get(fid) or f is None:
                return self.havoc_call(st, e, cx, q, obj, args)
        if f is not None and q not in self.opaque and f.get("body") is not None and f["id"] not in cx.stack and \
                len(cx.stack) < 30:
            return self.invoke(st, f, obj, args, cx)
        if q.startswith("log_surgeon"):
            if e.get("opc") == "=" and obj is not None and args:
                v = self.val(st, args[0])
                self.write(st, obj, v, e, cx)
                return [(st, ("ref", obj))]
            return self.havoc_call(st, e, cx, q, obj, args)
        r = self.std_call(st, e, cx, q, obj, args)
        if r is not None:
            return r
        return self.havoc_call(st, e, cx, q, obj, args)

    def devirtualize(self, st, e, obj, fid):
        if obj is None:
            return None
        cls = None
        if obj[1] in st.cls and not obj[2]:
            cls = st.cls[obj[1]]
        elif not e.get("arrow") and e["obj"].get("rec"):
            cls = e["obj"]["rec"]
        if not cls:
            return None
        # the method of cls overriding fid
        todo = [cls] + self.m.all_bases(cls)
        cand = {fid} | self._over(fid)
        for c in todo:
            for x in cand:
                f = self.m.functions.get(x)
                if f is not None and f.get("cls") == c:
                    return f
        return None

    def _over(self, t):
        out = set()
        for o in self.m.overriders.get(t, ()):
            out.add(o)
            out |= self._over(o)
        return out

    def havoc_call(self, st, e, cx, q, obj, args):
        self.unknown[q] = self.unknown.get(q, 0) + 1
        t = e.get("t", "")
        st.n += 1
        n = st.n
        if not e.get("cm") and obj is not None and obj[0] == "L" and "obj" in e and q not in self.pure:
            self.write(st, obj, ("o", "fr", q, "obj", n))
        pm = e.get("pm", [])
        for i, a in enumerate(args):
            if a[0] == "ref" and i < len(pm) and pm[i] == "r" and q not in self.pure:
                old = self.read(st, a[1])
                self.write(st, a[1], atom(("fr", q, i, n)) if old[0] == "n" else ("o", "fr", q, i, n))
        if q in self.pure or (e.get("cm") and q.startswith("log_surgeon")):
            vs = tuple(self.val(st, a) for a in args)
            ov = self.read(st, obj) if obj is not None and obj[0] == "L" else None
            return [(st, self.result(st, ("o", "app", q, ov, vs), t))]
        return [(st, self.result(st, ("o", "call", q, n), t))]

    def result(self, st, o, t):
        if self.scalar(t):
            v = atom(("val", o))
            self.type_bounds(st, v, t)
            return v
        return o

    def call_lambda(self, st, fid, args, cx, obj):
        lam = self.m.lambdas.get(fid)
        if lam is None or fid in cx.stack:
            return [(st, ("o", "call", "lambda", st.fresh()))]
        owner = lam["owner"]
        this = cx.this
        if obj is not None and obj[0] == "L":
            v = self.read(st, obj)
            if v[0] == "lam" and v[2] is not None:
                this = v[2]
        fake = {"id": fid, "params": lam["params"], "body": lam["body"], "q": "lambda", "file": self.m.functions[owner]["file"],
                "ret": lam.get("ret", "")}
        return self.invoke(st, fake, this, args, cx, lam=owner)

    def invoke(self, st, f, this, args, cx, lam=None):
        """Expands a call; list of (state, value | ('ref', loc))."""
        self.tick()
        self.functions_seen.add(f["q"] if f["q"] != "lambda" else f["id"])
        ncx = Cx(f, this, cx.stack + (f["id"],), lam)
        own = ncx.owner
        for p, a in zip(f["params"], args):
            if p["pm"] in ("r", "c", "m"):
                if a[0] != "ref":
                    a = ("ref", self.tmp(st, a))
                st.refs[(own, p["id"])] = a[1]
            else:
                v = self.val(st, a, p["t"])
                st.refs.pop((own, p["id"]), None)
                self.write(st, L(("v", own, p["id"])), v)
        sts = [st]
        for i in f.get("inits") or []:
            if i.get("e") is None:
                continue
            nxt = []
            for s in sts:
                ft = "" if i.get("deleg") or i.get("base") else self.field_type(f, i["field"])
                if ft.rstrip().endswith("&"):
                    e0 = i["e"]
                    if e0["k"] == "init" and len(e0.get("args") or e0.get("elems") or e0.get("inits") or []) == 1:
                        e0 = (e0.get("args") or e0.get("elems") or e0.get("inits"))[0]
                    if self.is_lv(e0):
                        for s2, l0 in self.lv(s, e0, ncx):
                            self.write(s2, at(this, ("f", i["field"])), self.read(s2, l0))
                            nxt.append(s2)
                        continue
                if i.get("deleg") or i.get("base"):
                    nxt += self.construct(s, this, i["e"], ncx) if i["e"]["k"] in ("ctor", "init") else [s]
                else:
                    nxt += self.construct(s, at(this, ("f", i["field"])), i["e"], ncx)
            sts = nxt
        out = []
        isref = f.get("ret", "").rstrip().endswith("&")
        body = f.get("body")
        for s in sts:
            for kind, s2, v in (self.block(s, [body], ncx) if body is not None else [("next", s, None)]):
                self.end_frame(s2, f, own, lam)
                if kind in ("next", "ret"):
                    if v is None:
                        v = ("o", "void")
                    elif v[0] != "ref" and isref:
                        v = v
                    out.append((s2, v))
                else:
                    raise AnalysisBroken("unexpected control flow %s leaving %s" % (kind, f["q"]))
        return self.merge_vals(out)

    def end_frame(self, st, f, own, lam):
        if lam is None:
            dead = [k for k in st.store if k[1][0] == "v" and k[1][1] == own]
            for k in dead:
                del st.store[k]
            for k in [k for k in st.refs if k[0] == own]:
                del st.refs[k]

    def merge_vals(self, lst):
        if not self.join_states or len(lst) < 2:
            return lst
        groups = {}
        order = []
        for s, v in lst:
            k = (s.key(), v, self.join_key(s) if self.join_key else None)
            if k in groups:
                o = groups[k]
                o.facts = o.facts.join(s.facts)
                o.n = max(o.n, s.n)
            else:
                groups[k] = s
                order.append((k, v))
        return [(groups[k], v) for k, v in order]

    def merge(self, lst):
        if len(lst) > self.MAXSTATES:
            raise AnalysisBroken("more than %d abstract states" % self.MAXSTATES)
        if not self.join_states or len(lst) < 2:
            return lst
        groups = {}
        order = []
        for kind, s, v in lst:
            k = (kind, s.key(), v, self.join_key(s) if self.join_key else None)
            if k in groups:
                o = groups[k]
                o.facts = o.facts.join(s.facts)
                o.n = max(o.n, s.n)
            else:
                groups[k] = s
                order.append(k)
        return [(k[0], groups[k], k[2]) for k in order]

    # ------------------------------------------------------------ statements
    def block(self, st, stmts, cx):
        cur = [st]
        done = []
        for x in stmts:
            nxt = []
            for s in cur:
                for kind, s2, v in self.stmt(s, x, cx):
                    if kind == "next":
                        nxt.append(s2)
                    else:
                        done.append((kind, s2, v))
            cur = [s for _, s, _ in self.merge([("next", s, None) for s in nxt])]
        return self.merge(done) + [("next", s, None) for s in cur]

    def stmt(self, st, x, cx):
        if x is None:
            return [("next", st, None)]
        self.tick()
        k = x["k"]
        if k == "block":
            return self.block(st, x["b"], cx)
        if k == "expr":
            e = x["e"]
            if self.is_lv(e) and e["k"] != "call":
                return [("next", s, None) for s, _ in self.lv(st, e, cx)]
            if e["k"] == "call":
                return [("next", s, None) for s, _ in self.call(st, e, cx)]
            return [("next", s, None) for s, _ in self.ev(st, e, cx)]
        if k == "decl":
            sts = [st]
            for v in x["vars"]:
                sts = [s2 for s in sts for s2 in self.declare(s, v, cx)]
            return [("next", s, None) for s in sts]
        if k == "if":
            pre = [st]
            if x.get("init") is not None:
                pre = [s for kind, s, _ in self.stmt(st, x["init"], cx) if kind == "next"]
            if x.get("cv") is not None and isinstance(x["cv"], dict):
                pre = [s2 for s in pre for s2 in self.declare(s, x["cv"], cx)]
            out = []
            for s in pre:
                for s2, b in self.br(s, x["c"], cx):
                    if b:
                        out += self.stmt(s2, x["then"], cx)
                    elif x.get("else") is not None:
                        out += self.stmt(s2, x["else"], cx)
                    else:
                        out.append(("next", s2, None))
            return self.merge(out)
        if k == "ret":
            e = x.get("e")
            if e is None:
                return [("ret", st, None)]
            isref = cx.fn.get("ret", "").rstrip().endswith("&")
            if isref and self.is_lv(e):
                out = []
                for s, l in self.lv(st, e, cx):
                    out.append(("ret", s, ("ref", l)))
                return out
            if e["k"] == "call" and cx.fn.get("q") == "lambda" and (isref or cx.fn.get("ret") in ("", "void")):
                return [("ret", s, v) for s, v in self.call(st, e, cx)]
            return [("ret", s, self.narrow(s, v, e, cx.fn.get("ret", ""))) for s, v in self.ev(st, e, cx)]
        if k in ("break", "continue"):
            return [(k, st, None)]
        if k == "null":
            return [("next", st, None)]
        if k == "while":
            if x.get("cv") is not None and isinstance(x["cv"], dict):
                def cond(s):
                    return [r for s2 in self.declare(s, x["cv"], cx) for r in self.br(s2, x["c"], cx)]
            else:
                def cond(s):
                    return self.br(s, x["c"], cx)
            return self.loop(st, x, cond, lambda s: self.stmt(s, x["body"], cx), None, cx)
        if k == "do":
            return self.loop(st, x, lambda s: self.br(s, x["c"], cx), lambda s: self.stmt(s, x["body"], cx), None, cx,
                             do=True)
        if k == "for":
            pre = [st]
            if x.get("init") is not None:
                pre = [s for kind, s, _ in self.stmt(st, x["init"], cx) if kind == "next"]
            cond = (lambda s: self.br(s, x["c"], cx)) if x.get("c") is not None else (lambda s: [(s, True)])
            inc = (lambda s: [s2 for s2, _ in (self.lv(s, x["inc"], cx) if self.is_lv(x["inc"]) else
                                               self.ev(s, x["inc"], cx))]) if x.get("inc") is not None else None
            out = []
            for s in pre:
                out += self.loop(s, x, cond, lambda s3: self.stmt(s3, x["body"], cx), inc, cx)
            return self.merge(out)
        if k == "rfor":
            return self.rangefor(st, x, cx)
        if k == "switch":
            return self.switch(st, x, cx)
        if k in ("case", "default"):
            return self.stmt(st, x["s"], cx)
        if k == "try":
            saved = self.throws
            self.throws = []
            out = self.stmt(st, x["body"], cx)
            mine, self.throws = self.throws, saved
            for s, e, c2 in mine:
                for h in x["handlers"]:
                    out += self.stmt(s.copy(), h, cx)
            return out
        raise AnalysisBroken("unknown statement kind " + k + " " + str(x.get("cls")))

    def declare(self, st, v, cx):
        key = (cx.owner, v["id"])
        loc = L(("v",) + key)
        if v.get("static"):
            return [st]
        self.drop(st, lambda k: k[1] == loc[1])
        st.refs.pop(key, None)
        e = v.get("init")
        if v.get("bindings"):
            outs = []
            if v.get("isref") and self.is_lv(e):
                pre = self.lv(st, e, cx)
            else:
                pre = [(s, loc) for s in self.construct(st, loc, e, cx)]
            for s, l0 in pre:
                for i, b in enumerate(v["bindings"]):
                    f = b.get("field")
                    if f is None:
                        f = "std::pair::first" if i == 0 else "std::pair::second"
                    s.refs[(cx.owner, b["id"])] = at(l0, ("f", f))
                outs.append(s)
            return outs
        if v.get("isref"):
            outs = []
            if e["k"] == "init" and len(e["elems"]) == 1 and self.is_lv(e["elems"][0]):
                bare = lambda t: t.replace("const ", "").replace(" const", "").rstrip("& ")
                if bare(e["elems"][0].get("t", "?")) == bare(v["t"]):
                    e = e["elems"][0]
            for s, l0 in self.lv(st, e, cx):
                s.refs[key] = l0
                outs.append(s)
            return outs
        if e is None:
            self.write(st, loc, ("o", "undef") if not self.scalar(v["t"]) else atom(st.fresh("undef", v["n"])))
            return [st]
        outs = self.construct(st, loc, e, cx)
        for s in outs:
            r = v.get("rec")
            if r:
                s.cls[loc[1]] = r
            if getattr(self, "on_declare", None):
                self.on_declare(s, loc, v)
        return outs

    def switch(self, st, x, cx):
        pre = [st]
        if x.get("init") is not None:
            pre = [s for kind, s, _ in self.stmt(st, x["init"], cx) if kind == "next"]
        body = x["body"]["b"] if x["body"]["k"] == "block" else [x["body"]]
        flat = []      # (labels, stmt)
        for b in body:
            labels = []
            while b is not None and b["k"] in ("case", "default"):
                labels.append(b["v"] if b["k"] == "case" else None)
                b = b["s"]
            flat.append((labels, b))
        out = []
        for s0 in pre:
            for s, v in self.ev(s0, x["c"], cx):
                v = as_num(v)
                rest = [s]
                default_i = None
                for i, (labels, b) in enumerate(flat):
                    for lab in labels:
                        if lab is None:
                            default_i = i
                            continue
                        nxt = []
                        for r in rest:
                            for s2, eq in self.cmp(r, "==", v, num(lab["cv"])):
                                if eq:
                                    out += self.block(s2, [z for _, z in flat[i:]], cx)
                                else:
                                    nxt.append(s2)
                        rest = nxt
                for r in rest:
                    if default_i is not None:
                        out += self.block(r, [z for _, z in flat[default_i:]], cx)
                    else:
                        out.append(("next", r, None))
        return self.merge([("next" if k == "break" else k, s, v) for k, s, v in out])

    # ------------------------------------------------------------ loops
    def rangefor(self, st, x, cx):
        pre = [st]
        if x.get("init") is not None:
            pre = [s for kind, s, _ in self.stmt(st, x["init"], cx) if kind == "next"]
        out = []
        rng, v = x["range"], x["var"]
        for s0 in pre:
            if self.is_lv(rng):
                rl = self.lv(s0, rng, cx)
            else:
                rl = []
                for s, val in self.ev(s0, rng, cx):
                    rl.append((s, self.tmp(s, val)))
            for s, rloc in rl:
                ctr = L(("v", cx.owner, "#rf%d_%d" % (x["l"], s.n)))
                s.n += 1
                self.write(s, ctr, ZERO)

                def size(s1, rloc=rloc):
                    mt = re.search(r"\[(\d+)\]$|std::array<[^<>]*, *(\d+)U?L?>(?: const)? *&?$", rng.get("t", "").rstrip())
                    if mt:
                        return num(int(mt.group(1) or mt.group(2)))
                    return self.size(s1, self.read(s1, rloc))

                def cond(s1, ctr=ctr, rloc=rloc):
                    # the iterators are compared with !=; the counter starts at 0 and steps by 1
                    out1 = self.cmp(s1, "<", self.read(s1, ctr, "unsigned long"), size(s1))
                    for s2, b2 in out1:
                        if not b2:
                            s2.facts.assume(sub(as_num(self.read(s2, ctr)), size(s2)), "==")
                    return out1

                def body(s1, ctr=ctr, rloc=rloc):
                    i = self.read(s1, ctr, "unsigned long")
                    eloc = at(rloc, ("e", as_num(i)))
                    key = (cx.owner, v["id"])
                    if v.get("bindings"):
                        for bi, b in enumerate(v["bindings"]):
                            f = b.get("field") or ("std::pair::first" if bi == 0 else "std::pair::second")
                            s1.refs[(cx.owner, b["id"])] = at(eloc, ("f", f))
                    elif v.get("isref"):
                        s1.refs[key] = eloc
                    else:
                        val = self.read(s1, eloc, v["t"])
                        s1.refs.pop(key, None)
                        self.drop(s1, lambda k: k[1] == ("v",) + key)
                        self.write(s1, L(("v",) + key), val)
                    return self.stmt(s1, x["body"], cx)

                def inc(s1, ctr=ctr):
                    self.write(s1, ctr, add(self.read(s1, ctr), ONE))
                    return [s1]

                # a range whose elements are listed is walked one by one
                n = size(s)
                u = self.unroll
                if is_const(n) and n[1] <= max(40, u):
                    self.unroll = max(u, n[1] + 1)
                out += self.loop(s, x, cond, body, inc, cx)
                self.unroll = u
        return self.merge(out)

    def unrolled(self, st0, cond, body, inc, do):
        """A loop whose condition is decided on every round (constant trip count); None otherwise."""
        ba, bt = len(self.aborts), len(self.throws)
        cur, out = [st0.copy()], []
        first = do
        for _ in range(self.unroll):
            nxt = []
            for s in cur:
                runs = [(s, True)] if first else cond(s)
                if len({b for _, b in runs}) > 1 and (not self.unroll_fork or len(out) > self.unroll_fork):
                    del self.aborts[ba:]
                    del self.throws[bt:]
                    return None
                for s1, b in runs:
                    if not b:
                        out.append(("next", s1, None))
                        continue
                    for kind, s2, v in body(s1):
                        if kind == "break":
                            out.append(("next", s2, None))
                        elif kind in ("next", "continue"):
                            nxt += inc(s2) if inc is not None else [s2]
                        else:
                            out.append((kind, s2, v))
            first = False
            if not nxt:
                return self.merge(out)
            cur = [s for _, s, _ in self.merge([("next", b, None) for b in nxt])]
        del self.aborts[ba:]
        del self.throws[bt:]
        return None

    def loop(self, st0, x, cond, body, inc, cx, do=False):
        if self.unroll:
            r = self.unrolled(st0, cond, body, inc, do)
            if r is not None:
                return r
        st0.n += 1
        lid = (x["l"], st0.n)
        if self.on_enter:
            self.on_enter(self, st0, lid, cx)
        declared = set()
        for n in walk(x):
            if n.get("k") == "decl":
                declared |= {v["id"] for v in n["vars"]}
            if n.get("k") == "rfor":
                declared.add(n["var"]["id"])
            if isinstance(n.get("cv"), dict):
                declared.add(n["cv"]["id"])
        if x["k"] == "for" and x.get("init") is not None:
            for n in walk(x["init"]):
                if n.get("k") == "decl":
                    declared -= {v["id"] for v in n["vars"]}
        W = []
        epochs = {}
        inv = None
        base_aborts, base_throws, base_left = len(self.aborts), len(self.throws), len(self.left)

        def iterate(head):
            exits, backs = [], []
            if do:
                runs = [(head, True)]
            else:
                runs = cond(head)
            for s, b in runs:
                if not b:
                    exits.append(("next", s, None))
                    continue
                for kind, s2, v in body(s):
                    if kind == "break":
                        exits.append(("next", s2, None))
                    elif kind in ("next", "continue"):
                        nx = inc(s2) if inc is not None else [s2]
                        for s3 in nx:
                            if do:
                                for s4, b4 in cond(s3):
                                    if b4:
                                        backs.append(s4)
                                    else:
                                        exits.append(("next", s4, None))
                            else:
                                backs.append(s3)
                    else:
                        exits.append((kind, s2, v))
            if self.on_back:
                for b in backs:
                    self.on_back(self, b, lid, cx)
            return exits, [s for _, s, _ in self.merge([("next", b, None) for b in backs])]

        def make_head(inv, fixed=()):
            head = st0.copy()
            hv = {}
            for b, n in epochs.items():
                head.epoch[b] = n
            for Lx in W:
                old = self.read(st0, Lx)
                if old[0] == "n":
                    nv = atom(("fr", lid, Lx))
                    if any(is_ptr_atom(a) or a[0] == "addr" for a, _ in old[2] if isinstance(a, tuple)):
                        mark_ptr(nv[2][0][0])
                else:
                    nv = ("o", "fr", lid, Lx)
                hv[Lx] = nv
                n = len(Lx[2])
                for k in [k for k in head.store if k[1] == Lx[1] and k[2][:n] == Lx[2]]:
                    del head.store[k]
                head.store[Lx] = nv
            for Lx, c in fixed:
                head.store[Lx] = num(c)
            if inv:
                for c, op in inv:
                    head.facts.assume(c, op)
            head.events = ()
            return head, hv

        def changed(headsnap, backs):
            """Locations that change along a back edge."""
            new = []
            for b in backs:
                for k in set(b.store) | set(headsnap.store):
                    if k[1][0] == "t" or (k[1][0] == "v" and k[1][2] in declared):
                        continue
                    if k[1][0] == "v" and k not in headsnap.store and k not in st0.store:
                        continue
                    if k[1][0] == "h" and not any(z[1] == k[1] for z in headsnap.store):
                        continue
                    if k in b.store:
                        bv = b.store[k]
                        hvv = headsnap.store[k] if k in headsnap.store else self.read(headsnap, k, None)
                        if bv[0] == "n" and hvv[0] == "o":
                            hvv = self.read(headsnap, k, "long")
                        if bv == hvv:
                            continue
                        if bv[0] == "n" and hvv[0] == "n" and b.facts.is_zero(sub(bv, hvv)):
                            continue
                    else:
                        # removed because an enclosing object was overwritten; that one is reported
                        if any(k[1] == z[1] and k[2][:len(z[2])] == z[2] for z in b.store if z != k):
                            continue
                        continue
                    g = self.generalise(k, lid, headsnap)
                    if g[0] == "epoch":
                        if g[1] not in epochs:
                            epochs[g[1]] = st0.n * 1000 + x["l"]
                            new.append(None)
                        continue
                    g = g[1]
                    if g not in W and not any(g[1] == w[1] and g[2][:len(w[2])] == w[2] for w in W):
                        W[:] = [w for w in W if not (w[1] == g[1] and w[2][:len(g[2])] == g[2])]
                        W.append(g)
                        new.append(g)
            return new

        def holds(b, c, op, hv):
            m = {a: self.term_at(b, Lx, kind) for a, Lx, kind in self.terms(W, hv)}
            return self.entails(b, subst(c, m), op)

        for rnd in range(60):
            del self.aborts[base_aborts:]
            del self.throws[base_throws:]
            del self.left[base_left:]
            head, hv = make_head(inv)
            n_head = head.n
            headsnap = head.copy()
            exits, backs = iterate(head)
            if changed(headsnap, backs):
                inv = None
                continue
            if inv is None:
                inv = inv_all = self.candidates(st0, headsnap, backs, W, hv)
                if inv:
                    continue
            keep = [(c, op) for c, op in inv if all(holds(b, c, op, hv) for b in backs)]
            if len(keep) == len(inv):
                break
            inv = keep
        else:
            raise AnalysisBroken("loop at line %s did not stabilise" % x["l"])
        # flags: locations that hold a constant on entry and are only ever set to constants
        flags = []
        for Lx in W:
            v0 = self.read(st0, Lx)
            if is_const(v0) and v0[1] in (0, 1):
                bvs = [self.read(b, Lx) for b in backs]
                if all(v == hv[Lx] or (is_const(v) and v[1] in (0, 1)) for v in bvs) and any(is_const(v) for v in bvs):
                    flags.append(Lx)
        if 0 < len(flags) <= 6:
            r = self.partitioned(st0, flags, W, make_head, changed, iterate, holds, (base_aborts, base_throws, base_left), list(W),
                                 inv_all)
            if r is not None:
                exits, backs = r
            else:
                del self.aborts[base_aborts:]
                del self.throws[base_throws:]
                del self.left[base_left:]
                head, hv = make_head(inv)
                exits, backs = iterate(head)
        self.summarise(st0, W, hv, backs, exits)
        iters = sorted({b.events for b in backs}, key=repr)
        pre = st0.events
        if any(iters):
            ind = []
            for Lx in W:
                if hv[Lx][0] != "n":
                    continue
                steps = {sub(as_num(self.read(b, Lx)), hv[Lx]) for b in backs}
                if len(steps) == 1:
                    stp = steps.pop()
                    if is_const(stp):
                        ind.append((hv[Lx], as_num(self.read(st0, Lx)), stp[1]))
            objs = [(hv[Lx], self.read(st0, Lx)) for Lx in W if hv[Lx][0] == "o"]
            nums = [(hv[Lx], as_num(self.read(st0, Lx))) for Lx in W if hv[Lx][0] == "n"]
            pre = pre + (("loop", lid, tuple(iters), tuple(sorted(ind, key=repr)), tuple(sorted(objs, key=repr)),
                          tuple(sorted(nums, key=repr))),)
        out = []
        for kind, s, v in exits:
            if self.on_exit and kind == "next":
                self.on_exit(self, s, lid, cx)
            if self.keep_left and kind == "next":
                self.left.append((lid, s.copy()))
            s.events = pre + s.events
            s.n = max(s.n, n_head)
            out.append((kind, s, v))
        for i in range(base_aborts, len(self.aborts)):
            self.aborts[i][0].events = pre + self.aborts[i][0].events
        for i in range(base_throws, len(self.throws)):
            self.throws[i][0].events = pre + self.throws[i][0].events
        return self.merge(out)

    def summarise(self, st0, W, hv, backs, exits):
        """Containers every round of the loop appends one element to hold, at the head, one element per round done."""
        if not backs:
            return
        rounds = None
        for Lx in W:
            if hv[Lx][0] == "n" and all(is_const(sub(as_num(self.read(b, Lx)), hv[Lx])) and
                                        sub(as_num(self.read(b, Lx)), hv[Lx])[1] == 1 for b in backs):
                rounds = (hv[Lx], as_num(self.read(st0, Lx)))
                break
        if rounds is None:
            return
        h, h0 = rounds
        varying = {hv[Lx] for Lx in W}
        for Lx in W:
            if hv[Lx][0] != "o":
                continue
            xs = set()
            for b in backs:
                v = b.store.get(Lx)
                if v is None or v[:2] != ("o", "push") or v[2] != hv[Lx]:
                    xs = None
                    break
                xs.add(v[3])
            if not xs or len(xs) != 1:
                continue
            x = xs.pop()
            x = replaced(x, {h[2][0][0]: ("bound",)})
            if any(mentions(x, t if t[0] == "o" else t[2][0][0]) for t in varying):
                continue
            base = self.read(st0, Lx)
            whole = self.elementwise(x)
            for _, s, _ in exits:
                last = as_num(h)
                new = ("o", "append", base, h0, last, x)
                if whole is not None and s.facts.is_zero(h0) and s.facts.is_zero(sub(last, self.size(s, whole))):
                    new = self.joined(base, whole)
                for k, v in list(s.store.items()):
                    if mentions(v, hv[Lx]):
                        s.store[k] = replaced(v, {hv[Lx]: new})

    @staticmethod
    def elementwise(x):
        """The container C when x is C[bound]."""
        if x[0] == "n" and x[1] == 0 and len(x[2]) == 1 and x[2][0][1] == 1:
            x = x[2][0][0]
        sel = ("e", atom(("bound",)))
        if isinstance(x, tuple) and x[0] == "in" and x[1][2] and x[1][2][-1] == sel:
            return ("o", "in", ("L", x[1][1], x[1][2][:-1])) + tuple(x[2:])
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "val":
            x = x[1]
        if isinstance(x, tuple) and x[:2] == ("o", "sel") and x[3] == (sel,):
            return x[2]
        if isinstance(x, tuple) and x[:2] == ("o", "in") and x[2][2] and x[2][2][-1] == sel:
            return ("o", "in", ("L", x[2][1], x[2][2][:-1])) + tuple(x[3:])
        return None

    def partitioned(self, st0, flags, W, make_head, changed, iterate, holds, base, W0, inv0):
        """The loop analysed once per valuation of its flags; None if that does not work out."""
        def key(s):
            k = tuple(self.read(s, Lx) for Lx in flags)
            return tuple(v[1] for v in k) if all(is_const(v) for v in k) else None
        K0 = key(st0)
        inv = {K0: list(inv0)}
        seeded = {K0}
        for rnd in range(60):
            del self.aborts[base[0]:]
            del self.throws[base[1]:]
            del self.left[base[2]:]
            exits, backs, hv = [], [], None
            for K in sorted(inv):
                head, hv = make_head(inv[K], list(zip(flags, K)))
                snap = head.copy()
                ex, bk = iterate(head)
                if changed(snap, bk) and W != W0:
                    return None
                exits += ex
                backs += bk
            new = False
            into = {}
            for b in backs:
                k = key(b)
                if k is None or len(inv) > 12:
                    return None
                into.setdefault(k, []).append(b)
            for k in into:
                if k not in seeded:
                    seeded.add(k)
                    inv[k] = self.part_candidates(into[k], W, hv)
                    new = True
            for k, bs in into.items():
                src = bs + ([st0] if k == K0 else [])
                keep = [(c, op) for c, op in inv[k] if all(holds(b, c, op, hv) for b in src)]
                if len(keep) != len(inv[k]):
                    inv[k] = keep
                    new = True
            if not new:
                return exits, backs
        return None

    def part_candidates(self, bs, W, hv):
        """Bounds that hold of the loop's quantities when a valuation of its flags is first reached."""
        cs = []
        b = bs[0]

        def bounds(d, h):
            if not h[2]:
                return
            lo, hi = b.facts.lower(d), b.facts.upper(d)
            if lo > -INF:
                cs.append((sub(num(lo), h), "<="))
            if hi < INF:
                cs.append((sub(h, num(hi)), "<="))
        ts = self.terms(W, hv)
        for i, (a, La, ka) in enumerate(ts):
            va = self.term_at(b, La, ka)
            bounds(va, atom(a))
            zs = {0}
            for b2 in bs:
                v2 = self.term_at(b2, La, ka)
                if len(v2[2]) == 1 and v2[2][0][1] == 1:
                    zs |= {z + v2[1] for z in b2.facts._get(v2[2])[2]}
            for z in sorted(zs):
                if b.facts.nonzero(sub(va, num(z))):
                    cs.append((sub(atom(a), num(z)), "!="))
            for c, Lc, kc in ts[i + 1:]:
                bounds(sub(va, self.term_at(b, Lc, kc)), sub(atom(a), atom(c)))
            m = {x: self.term_at(b, Lx, k) for x, Lx, k in ts}
            for f in list(b.facts.b):
                # quantities the loop does not change
                for y, _ in va[2]:
                    if len(f) == 2 and any(z == y for z, _ in f):
                        o = ("n", 0, tuple(z for z in f if z[0] != y))
                        if not any(z in m for z, _ in o[2]):
                            k = dict(f)[y]
                            bounds(add(scale(va, k), o), add(scale(atom(a), k), o))
        return cs

    def terms(self, W, hv):
        """Numeric quantities that vary in a loop: (atom at the head, location, kind)."""
        out = []
        for Lx in W:
            v = hv[Lx]
            if v[0] == "n":
                out.append((v[2][0][0], Lx, "n"))
            else:
                out.append((("size", v), Lx, "size"))
        return out

    def term_at(self, st, Lx, kind):
        v = self.read(st, Lx)
        if kind == "n":
            return as_num(v)
        return self.size(st, v)

    def entails(self, st, v, op):
        if op == "<=":
            return st.facts.upper(v) <= 0
        if op == "==":
            return st.facts.is_zero(v)
        return st.facts.nonzero(v)

    def generalise(self, k, lid, head):
        """A changed location whose address depends on loop-varying atoms stands for a whole array."""
        def varies(v):
            return contains(v, lambda t: len(t) > 1 and t[0] == "fr" and (t[1] == lid or (
                isinstance(t[-1], int) and t[-1] > head.n)))
        root, sels = k[1], k[2]
        if root[0] == "d" and varies(root[1]):
            return ("epoch", ptr_base(root[1]))
        for i, s in enumerate(sels):
            if s[0] == "e" and varies(s):
                return ("loc", ("L", root, sels[:i]))
        return ("loc", k)

    def candidates(self, st0, head, backs, W, hv):
        cs = []
        terms = self.terms(W, hv)
        m0 = {a: self.term_at(st0, Lx, kind) for a, Lx, kind in terms}

        def addc(v, op):
            if v[2] and (v, op) not in cs:
                cs.append((v, op))
        for ha, Lx, kind in terms:
            h, v0 = atom(ha), m0[ha]
            addc(sub(v0, h), "<=")
            addc(sub(h, v0), "<=")
            if st0.facts.lower(v0) >= 0:
                addc(scale(h, -1), "<=")
            if st0.facts.nonzero(v0):
                addc(h, "!=")
            if st0.facts.upper(v0) <= 1:
                addc(sub(h, ONE), "<=")
            if len(v0[2]) == 1 and v0[1] == 0:
                a = v0[2][0][0]
                for f, (lo, hi, nq) in st0.facts.b.items():
                    if any(y == a for y, _ in f):
                        w = subst(("n", 0, f), {a: h if v0[2][0][1] == 1 else v0})
                        if lo > -INF:
                            addc(sub(num(lo), w), "<=")
                        if hi < INF:
                            addc(sub(w, num(hi)), "<=")
                        for z in nq:
                            addc(sub(w, num(z)), "!=")
            for b in backs:
                bv = self.term_at(b, Lx, kind)
                if len(bv[2]) == 1 and bv[2][0][1] == 1:
                    a = bv[2][0][0]
                    for f, (lo, hi, nq) in b.facts.b.items():
                        if any(y == a for y, _ in f) and len(f) <= 4:
                            w = subst(("n", 0, f), {a: sub(h, num(bv[1]))})
                            if contains(w, lambda t: len(t) > 1 and t[0] == "fr" and isinstance(t[-1], int)
                                        and t[-1] > head.n):
                                continue
                            if lo > -INF:
                                addc(sub(num(lo), w), "<=")
                            if hi < INF:
                                addc(sub(w, num(hi)), "<=")
                            for z in nq:
                                addc(sub(w, num(z)), "!=")
                                w0 = subst(("n", -z, f), {a: h})
                                addc(w0, "<=")
                                addc(scale(w0, -1), "<=")
        for i, (a, _, _) in enumerate(terms):
            for b, _, _ in terms[i + 1:]:
                d = sub(atom(a), atom(b))
                addc(sub(d, sub(m0[a], m0[b])), "==")
        for fn in self.extra_inv:
            for v, op in fn(self, head, st0):
                addc(v, op)
        return [(c, op) for c, op in cs if self.entails(st0, subst(c, m0), op)]

    # ------------------------------------------------------------ driver
    def run(self, f, st=None, this=None, args=None, name_args=True):
        """Interprets function f from an arbitrary initial state."""
        st = st or State()
        if this is None and f.get("cls") and not f.get("static"):
            this = L(("obj", "this"))
        al = []
        for i, p in enumerate(f["params"]):
            if args is not None and i < len(args) and args[i] is not None:
                al.append(args[i])
            elif p["pm"] in ("r", "c", "m"):
                al.append(("ref", L(("obj", "arg%d" % i))))
            else:
                al.append(self.read(st, L(("obj", "arg%d" % i)), p["t"]))
        cx = Cx({"id": "<root>", "q": "<root>", "file": f["file"], "ret": ""}, this)
        return self.invoke(st, f, this, al, cx)


from stdlib import StdMixin  # noqa: E402

for _n in dir(StdMixin):
    if not _n.startswith("__"):
        setattr(Interp, _n, StdMixin.__dict__[_n])
