"""C15: every regex operator's NFA fragment accepts exactly the operator's language.

Contract of a fragment built by `add_to_nfa(nfa, end)` between the current root and `end`:
  * the words leading from the root to `end` are exactly the operator's language over its operands,
  * the nfa's root is what it was, nothing leads back into the root, every new state is owned by the nfa,
  * `end` gets outgoing transitions only if `may_loop_on_end_state()` says so.
Each operator is decided on its own, its operands being letters that obey the contract, so the property of
whole patterns follows by structural induction.
"""
from lib import *

AST = FA + "RegexAST"
STATE = FA + "RegexNFAState"
NF = FA + "RegexNFA"


def byte_fn(ctx, q):
    fs = [f for f in ctx.m.fns(q) if "UTF8" not in f.get("clst", "")]
    ctx.need(fs, "%s not found" % q)
    return fs[0]


def fld(ctx, clst, name):
    r = ctx.m.rec_by_t.get(clst)
    ctx.need(r is not None, "class %s not found" % clst)
    todo = [r]
    while todo:
        x = todo.pop(0)
        for fl in x["fields"]:
            if fl["q"].rsplit("::", 1)[-1] == name:
                return ("f", fl["q"])
        for b in x["bases"]:
            todo += [y for y in ctx.m.rec_by_t.values() if y["q"] == b and ("UTF8" in y["t"]) == ("UTF8" in clst)][:1]
    raise AnalysisBroken("field %s of %s not found" % (name, clst))


def elems(v):
    """Elements of a container term added since the start, None if it cannot be told."""
    if v[0] == "o":
        if v[1] == "vec":
            return list(v[2])
        if v[1] in ("push", "ins"):
            b = elems(v[2])
            return None if b is None else b + [v[3]]
        if v[1] == "in":
            return []
    return None


def member(v, name):
    """A member of a record term."""
    if v[0] == "upd":
        for s, x in v[2]:
            if len(s) == 1 and s[0][0] == "f" and s[0][1].rsplit("::", 1)[-1] == name:
                return x
    return None


# ------------------------------------------------------------------ languages
class Lang:
    """Regular expressions over letters, compiled to an epsilon-NFA."""

    def __init__(self):
        self.edges, self.n = {}, 0

    def node(self):
        self.n += 1
        return ("spec", self.n)

    def edge(self, a, l, b):
        self.edges.setdefault(a, []).append((l, b))

    def build(self, r, a, b):
        if r[0] == "eps":
            self.edge(a, None, b)
        elif r[0] == "let":
            self.edge(a, r[1], b)
        elif r[0] == "cat":
            cur = a
            for x in r[1:]:
                nx = self.node()
                self.build(x, cur, nx)
                cur = nx
            self.edge(cur, None, b)
        elif r[0] == "alt":
            for x in r[1:]:
                p, q = self.node(), self.node()
                self.edge(a, None, p)
                self.build(x, p, q)
                self.edge(q, None, b)
        elif r[0] == "star":
            p = self.node()
            self.edge(a, None, p)
            q = self.node()
            self.edge(p, None, q)
            h = self.node()
            self.build(r[1], q, h)
            self.edge(h, None, q)
            self.edge(q, None, b)


def closure(edges, s):
    out, todo = set(s), list(s)
    while todo:
        for l, b in edges.get(todo.pop(), ()):
            if l is None and b not in out:
                out.add(b)
                todo.append(b)
    return frozenset(out)


def difference(ea, ia, fa, eb, ib, fb):
    """A word accepted by exactly one of the two automata, or None."""
    start = (closure(ea, {ia}), closure(eb, {ib}))
    seen, todo = {start: ()}, [start]
    while todo:
        p = todo.pop(0)
        w = seen[p]
        if (fa in p[0]) != (fb in p[1]):
            return w, fa in p[0]
        letters = {l for e, s in ((ea, p[0]), (eb, p[1])) for x in s for l, _ in e.get(x, ()) if l is not None}
        for l in sorted(letters, key=repr):
            nx = tuple(closure(e, {b for x in s for l2, b in e.get(x, ()) if l2 == l}) for e, s in ((ea, p[0]), (eb, p[1])))
            if nx not in seen:
                seen[nx] = w + (l,)
                todo.append(nx)
    return None


# ------------------------------------------------------------------ fragments
def hooks():
    def child(I, st, e, cx, obj, args):
        if cx.fn["id"] == "<root>":
            return None
        nfa = deref(as_num(I.val(st, args[0])))
        st.emit("child", addr(obj), as_num(I.read(st, at(nfa, I.f_root), "T *")), as_num(I.val(st, args[1], "T *")),
                addr(nfa))
        return [(st, ("o", "void"))]

    def loops(I, st, e, cx, obj, args):
        f = I.m.functions.get(e.get("fn"))
        if f is not None and f["q"] != AST + "::may_loop_on_end_state":
            return None
        return [(st, I._bool(st, ("loops", addr(obj))))]

    def interval(I, st, e, cx, obj, args):
        v = I.val(st, args[0])
        if v[0] == "o" and v[1] == "pair":
            lo, hi = as_num(v[2]), as_num(v[3])
        else:
            lo = as_num(I.sel(st, v, (("f", "std::pair::first"),), "unsigned int"))
            hi = as_num(I.sel(st, v, (("f", "std::pair::second"),), "unsigned int"))
        st.emit("iv", addr(obj), lo, hi, as_num(I.val(st, args[1], "T *")))
        return [(st, ("o", "void"))]
    return {AST + "::add_to_nfa": child, AST + "::may_loop_on_end_state": loops, STATE + "::add_interval": interval}


def neg_tags(I, st, child):
    return I.read(st, at(deref(child), I.f_neg), "std::vector<T>")


def operand(I, st, child):
    """The language of an operand with its negative tags, as the contract allows it to look."""
    r = [("let", ("child", show(child)))]
    lp = I._bool(st, ("loops", child))
    if truth(st, lp) is not False:
        r.append(("star", ("let", ("again", show(child)))))
    nt = neg_tags(I, st, child)
    sz = I.size(st, nt)
    if truth(st, sz) is True:
        r.append(("let", ("neg", repr(nt), show(child))))
    elif truth(st, sz) is None:
        return None
    return ("cat",) + tuple(r)


class Graph:
    def __init__(self, ctx, I, st, nfa, clst_state, root, end):
        """The automaton fragment a final state describes."""
        self.edges, self.bad, self.nodes = {}, [], set()
        self.accepting = []
        F = lambda n: fld(ctx, clst_state, n)
        eps, pst, pen, neg = F("m_epsilon_transitions"), F("m_positive_tagged_start_transitions"), \
            F("m_positive_tagged_end_transition"), F("m_negative_tagged_transition")
        acc, vid, byt = F("m_accepting"), F("m_matching_variable_id"), F("m_bytes_transitions")
        self.children = []
        for l, v in sorted(st.store.items(), key=repr):
            if not l[2]:
                continue
            own = addr(("L", l[1], l[2][:-1]))
            if l[2][-1] == eps:
                es = elems(v)
                if es is None:
                    self.bad.append("unknown epsilon transitions")
                for x in es or ():
                    self.edge(own, None, as_num(x))
            elif l[2][-1] == pst:
                es = elems(v)
                if es is None:
                    self.bad.append("unknown tagged start transitions")
                for x in es or ():
                    self.tagged("start", own, x, "m_tag")
            elif l[2][-1] in (pen, neg):
                if v[0] == "o" and v[1] in ("none", "in"):
                    continue
                if v[0] == "o" and v[1] == "some":
                    self.tagged("end" if l[2][-1] == pen else "neg", own, v[2], "m_tag" if l[2][-1] == pen else "m_tags")
                else:
                    self.bad.append("unknown tagged transition")
            elif l[2][-1] == acc and v[0] == "n" and v != ZERO and not (len(v[2]) == 1 and v[2][0][0][0] == "in"):
                self.accepting.append((own, v, I.read(st, at(("L", l[1], l[2][:-1]), vid), "unsigned int")))
            elif byt in l[2]:
                if v[0] == "o" and v[1] in ("undef", "vec", "in"):
                    continue
                self.bad.append("byte transitions added directly")
        for ev in st.events:
            if ev[0] == "child":
                _, c, r, d, n = ev
                self.children.append(c)
                if n != nfa:
                    self.bad.append("operand added to another automaton")
                self.edge(r, ("child", show(c)), d)
                lp = I._bool(st, ("loops", c))
                if truth(st, lp) is not False:
                    self.edge(d, ("again", show(c)), d)
                    if truth(st, lp) is None:
                        pass
            elif ev[0] == "iv":
                _, r, lo, hi, d = ev
                self.edge(r, ("iv", show(lo), show(hi)), d)
            elif ev[0] == "loop" and any(x[0] in ("child", "iv") for it in ev[2] for x in it):
                self.bad.append("transitions added in a loop with an unknown number of rounds")
        owned = elems(I.read(st, at(deref(nfa), I.f_states)))
        for a in list(self.nodes):
            if a not in (root, end) and (owned is None or a not in [as_num(x) for x in owned]):
                self.bad.append("state %s is not owned by the automaton" % show(a))
        self.nfa = nfa

    def edge(self, a, l, b):
        self.nodes |= {a, b}
        self.edges.setdefault(a, []).append((l, b))

    def tagged(self, kind, own, x, name):
        t, d = member(x, name), member(x, "m_dest_state")
        if t is None or d is None:
            self.bad.append("unknown tagged transition")
            return
        self.edge(own, (kind, show(as_num(t)) if t[0] == "n" else repr(t)), as_num(d))


def word(w):
    return " ".join("%s(%s)" % (l[0], ", ".join(x if len(x) < 60 else "tags" for x in l[1:])) for l in w) or "the empty word"


def spec_strip(r):
    """Spec letters for negative tags carry the operand for printing only."""
    if r[0] == "let" and r[1][0] == "neg":
        return ("let", r[1][:2])
    return (r[0],) + tuple(spec_strip(x) if isinstance(x, tuple) and x and x[0] in (
        "let", "cat", "alt", "star", "eps") else x for x in r[1:])


def fragment(ctx, cls, name, spec, setup=None, inst="", loops_fn=True):
    """Decides the contract for one operator; spec(I, st, this) -> language, or None when not applicable."""
    f = byte_fn(ctx, cls + "::add_to_nfa")
    w = ctx.where(f)
    hk = hooks()
    I = ctx.interp(hk)
    I.unroll = 40
    nfa_t = [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == NF and "UTF8" not in r["t"]]
    st_t = [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == STATE and "UTF8" not in r["t"]]
    ast_t = [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == AST and "UTF8" not in r["t"]]
    ctx.need(nfa_t and st_t and ast_t, "NFA classes not found")
    I.f_root, I.f_states = fld(ctx, nfa_t[0], "m_root"), fld(ctx, nfa_t[0], "m_states")
    I.f_neg = fld(ctx, ast_t[0], "m_negative_tags")
    st = State()
    if setup:
        setup(I, st)
    nfa = as_num(I.read(st, L(("obj", "arg0")), "T *"))
    end = as_num(I.read(st, L(("obj", "arg1")), "T *"))
    root = as_num(I.read(st, at(deref(nfa), I.f_root), "T *"))
    ctx.note_fn(f)
    res = ctx.run(I, f, st=st)
    key = "%s%s" % (name, inst)
    ctx.check("fragment", key + " returns", w, res, "no path of %s completes" % f["q"])
    n = 0
    cases = []
    for s, v in res:
        todo = [s]
        for c in sorted({ev[1] for ev in s.events if ev[0] == "child"}, key=repr):
            todo = [s3 for s2 in todo for s3, _ in I.split(s2, I._bool(s2, ("loops", c)))]
        cases += todo
    for s in cases:
        n += 1
        g = Graph(ctx, I, s, nfa, st_t[0], root, end)
        case = facts_str(s, 4)
        ctx.check("fragment", key + " structure", w, not g.bad, "; ".join(sorted(set(g.bad))) + " when " + case)
        r2 = as_num(I.read(s, at(deref(nfa), I.f_root), "T *"))
        ctx.check("fragment", key + " restores the root", w, same(s, r2, root),
                  "the root of the automaton is %s afterwards" % show(r2))
        ctx.check("fragment", key + " accepts nothing itself", w, not g.accepting, "a state is marked accepting")
        into = [(a, l) for a, es in g.edges.items() for l, b in es if b == root]
        ctx.check("fragment", key + " leaves the root alone", w, not into,
                  "a transition leads back to the start of the fragment, which other alternatives share")
        sp = spec(I, s)
        if sp == "skip":
            continue
        if sp is None:
            ctx.check("fragment", key + " language", w, False, "operand tags undecided when " + case)
            continue
        lg = Lang()
        a, b = lg.node(), lg.node()
        lg.build(spec_strip(sp), a, b)
        d = difference(g.edges, root, end, lg.edges, a, b)
        ctx.check("fragment", key + " language", w, d is None, "" if d is None else
                  "%s: %s, when %s" % ("accepted although the pattern does not match it" if d[1] else
                                       "not accepted although the pattern matches it", word(d[0]), case))
        if any(a == end for a in g.edges):
            # the operator must announce it
            mf = [x for x in ctx.m.fns(cls + "::may_loop_on_end_state") if "UTF8" not in x["clst"]]
            ok = bool(mf)
            if mf:
                I2 = ctx.interp(hk)
                I2.f_root, I2.f_states, I2.f_neg = I.f_root, I.f_states, I.f_neg
                s2 = s.copy()
                for s3, v3 in ctx.run(I2, mf[0], st=s2):
                    ok = ok and truth(s3, I2.val(s3, v3, "bool")) is True
            ctx.check("fragment", key + " announces loops at its end", w, ok,
                      "transitions leave the end state but may_loop_on_end_state() can be false: %s" % case)
        else:
            ctx.check("fragment", key + " announces loops at its end", w, True)
    return n


def this_ptr(ctx, I, s, f, name):
    return as_num(I.read(s, at(L(THIS), fld(ctx, f["clst"], name)), "std::unique_ptr<T>"))


def rule15(ctx):
    def f_of(cls):
        return byte_fn(ctx, cls + "::add_to_nfa")
    E = FA + "RegexASTEmpty"
    fragment(ctx, E, "empty", lambda I, s: ("eps",))
    Lt = FA + "RegexASTLiteral"
    fl = f_of(Lt)

    def lit(I, s):
        c = as_num(I.read(s, at(L(THIS), fld(ctx, fl["clst"], "m_character")), "unsigned int"))
        return ("let", ("iv", show(c), show(c)))
    fragment(ctx, Lt, "literal", lit)
    for cls, nm in (("RegexASTCat", "concatenation"), ("RegexASTOr", "alternative")):
        q = FA + cls
        fc = f_of(q)

        def two(I, s, fc=fc, nm=nm):
            a, b = (operand(I, s, this_ptr(ctx, I, s, fc, x)) for x in ("m_left", "m_right"))
            if a is None or b is None:
                return None
            return ("cat", a, b) if nm == "concatenation" else ("alt", a, b)
        fragment(ctx, q, nm, two)
    C = FA + "RegexASTCapture"
    fc = f_of(C)

    def cap(I, s):
        a = operand(I, s, this_ptr(ctx, I, s, fc, "m_group_regex_ast"))
        t = show(this_ptr(ctx, I, s, fc, "m_tag"))
        return None if a is None else ("cat", ("let", ("start", t)), a, ("let", ("end", t)))
    fragment(ctx, C, "capture", cap)
    M = FA + "RegexASTMultiplication"
    fm = f_of(M)
    top = 6 if __import__("os").environ.get("VERIF_TIER") == "thorough" else 4
    for mn in range(0, top + 1):
        for mx in [0] + list(range(max(mn, 1), top + 2)):
            def setup(I, st, mn=mn, mx=mx):
                I.write(st, at(L(THIS), fld(ctx, fm["clst"], "m_min")), num(mn))
                I.write(st, at(L(THIS), fld(ctx, fm["clst"], "m_max")), num(mx))

            def rep(I, s, mn=mn, mx=mx):
                c = this_ptr(ctx, I, s, fm, "m_operand")
                if mn == 0 and truth(s, I._bool(s, ("loops", c))) is not False:
                    return "skip"     # never built: a minimum of 0 is an alternative with the empty pattern (C12)
                a = operand(I, s, c)
                if a is None:
                    return None
                r = ("cat",) + (a,) * mn if mn else ("eps",)
                if mx == 0:
                    return ("cat", r, ("star", a))
                alts = tuple(("cat",) + (a,) * k if k else ("eps",) for k in range(mn, mx + 1))
                return ("alt",) + alts
            fragment(ctx, M, "repetition", rep, setup, "{%d,%s}" % (mn, mx or "inf"))
    groups(ctx)
    interval_bytes(ctx)
    rules(ctx)


# ------------------------------------------------------------------ character groups
def h_sort(I, st, e, cx, obj, args):
    """std::sort of a container with a known number of elements: one state per order."""
    v = I.val(st, args[0])
    if v[0] == "n":
        loc = deref(as_num(v))
        if not loc[2] or loc[2][-1] != ("e", ZERO):
            return None
        loc = ("L", loc[1], loc[2][:-1])
    elif args[0][0] == "ref":
        loc = args[0][1]
    else:
        return None
    c = I.read(st, loc)
    es = elems(c)
    if es is None or (c[0] == "o" and c[1] == "in"):
        return None
    if len(args) > (2 if v[0] == "n" else 1) and I.val(st, args[-1])[0] == "lam":
        return None
    outs = [(st, [])]
    for x in es:
        nxt = []
        for s, done in outs:
            todo = [(s, 0)]
            while todo:
                s1, i = todo.pop()
                if i == len(done):
                    nxt.append((s1, done + [x]))
                    continue
                for s2, less in lex_less(I, s1, x, done[i]):
                    if less:
                        nxt.append((s2, done[:i] + [x] + done[i:]))
                    else:
                        todo.append((s2, i + 1))
        outs = nxt
    res = []
    for s, d in outs:
        I.write(s, loc, ("o", "vec", tuple(d)))
        res.append((s, ("o", "void")))
    return res


def lex_less(I, st, a, b):
    pa = [as_num(a)] if a[0] == "n" else [as_num(a[2]), as_num(a[3])] if a[1] == "pair" else None
    pb = [as_num(b)] if b[0] == "n" else [as_num(b[2]), as_num(b[3])] if b[1] == "pair" else None
    if pa is None or pb is None:
        raise AnalysisBroken("sorting of unknown elements")
    out, cur = [], [st]
    for x, y in zip(pa, pb):
        nxt = []
        for s in cur:
            for s2, lt in I.cmp(s, "<", x, y):
                if lt:
                    out.append((s2, True))
                    continue
                for s3, eq in I.cmp(s2, "==", x, y):
                    if eq:
                        nxt.append(s3)
                    else:
                        out.append((s3, False))
        cur = nxt
    return out + [(s, False) for s in cur]


def possible(st):
    """False when the difference constraints among the facts of a state contradict each other."""
    edges = []      # (u, v, w): value(v) - value(u) <= w
    for form, (lo, hi, _) in st.facts.b.items():
        if len(form) == 1 and form[0][1] == 1:
            u, v = None, form[0][0]
        elif len(form) == 2 and form[0][1] == 1 and form[1][1] == -1:
            u, v = form[1][0], form[0][0]
        else:
            continue
        if hi != INF:
            edges.append((u, v, hi))
        if lo != -INF:
            edges.append((v, u, -lo))
    dist = {x: 0 for e in edges for x in e[:2]}
    for _ in range(len(dist) + 1):
        moved = False
        for u, v, w in edges:
            if dist[u] + w < dist[v]:
                dist[v] = dist[u] + w
                moved = True
        if not moved:
            return True
    return False


def with_fact(st, v, op):
    s = st.copy()
    if not s.facts.assume(v, op):
        return None
    return s if possible(s) else None


def covered(I, st, x, y, ps, depth=0):
    """Is [x, y] inside the union of the ranges, in every run the state covers?  Returns None or a witness state."""
    if not possible(st):
        return None
    if depth > 2 * len(ps) + 2:
        return st
    for s, over in I.cmp(st.copy(), ">", x, y):
        if over:
            continue
        todo = [(s, 0)]
        while todo:
            s1, i = todo.pop()
            if not possible(s1):
                continue
            if i == len(ps):
                return s1
            lo, hi = ps[i]
            for s2, a in I.cmp(s1, "<=", lo, x):
                if not a:
                    todo.append((s2, i + 1))
                    continue
                for s3, b in I.cmp(s2, "<=", x, hi):
                    if not b:
                        todo.append((s3, i + 1))
                        continue
                    r = covered(I, s3, add(hi, ONE), y, ps, depth + 1)
                    if r is not None:
                        return r
    return None


def disjoint(I, st, p, q):
    """No character lies in both ranges."""
    s = st.copy()
    for v in (sub(p[0], p[1]), sub(q[0], q[1]), sub(p[0], q[1]), sub(q[0], p[1])):
        s = with_fact(s, v, "<=")
        if s is None:
            return True
    return False


def pair_of(I, s, v):
    if v[0] == "o" and v[1] == "pair":
        return as_num(v[2]), as_num(v[3])
    raise AnalysisBroken("range of unknown shape " + show(v))


def group_inputs(ctx, I, st, n, clst, negate, top):
    """n arbitrary ranges begin <= end <= top in the group object."""
    rs = []
    for i in range(n):
        a, b = sym("b%d" % i), sym("e%d" % i)
        for c, op in ((scale(a, -1), "<="), (sub(a, b), "<="), (sub(b, top), "<=")):
            st.facts.assume(c, op)
        rs.append((a, b))
    I.write(st, at(L(THIS), fld(ctx, clst, "m_ranges")), ("o", "vec", tuple(("o", "pair", a, b) for a, b in rs)))
    I.write(st, at(L(THIS), fld(ctx, clst, "m_negate")), num(negate))
    return rs


def unicode_max(ctx):
    g = ctx.m.globals.get(P + "cUnicodeMax")
    ctx.need(g is not None and g.get("init") and g["init"].get("cv") is not None, "cUnicodeMax not found")
    return num(g["init"]["cv"])


def groups(ctx):
    f = byte_fn(ctx, FA + "RegexASTGroup::add_to_nfa")
    w = ctx.where(f)
    top = unicode_max(ctx)
    for negate in (0, 1):
        for n in (0, 1, 2, 3):
            hk = hooks()
            hk.update({"std::sort": h_sort, "std::ranges::__sort_fn::operator()": h_sort,
                       "std::ranges::sort": h_sort, "std::stable_sort": h_sort})
            I = ctx.interp(hk)
            I.unroll = 12
            I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
            I.f_root = fld(ctx, [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == NF and "UTF8" not in r["t"]][0], "m_root")
            st = State()
            rs = group_inputs(ctx, I, st, n, f["clst"], negate, top)
            nfa = as_num(I.read(st, L(("obj", "arg0")), "T *"))
            end = as_num(I.read(st, L(("obj", "arg1")), "T *"))
            root = as_num(I.read(st, at(deref(nfa), I.f_root), "T *"))
            key = "%sgroup of %d ranges" % ("negated " if negate else "", n)
            res = ctx.run(I, f, st=st)
            ctx.check("group", key + " returns", w, res, "no path completes")
            for s, _ in res:
                ivs = [ev for ev in s.events if ev[0] == "iv"]
                odd = [ev for ev in s.events if ev[0] == "loop" and any(x[0] == "iv" for it in ev[2] for x in it)]
                bad = [show(ev[1]) for ev in ivs if ev[1] != root or ev[4] != end]
                ctx.check("group", key + " runs from the root to the end", w, not bad and not odd,
                          "a transition leaves %s instead" % bad[:1] if bad else "transitions added in an unknown loop")
                out = [(ev[2], ev[3]) for ev in ivs]
                case = facts_str(s, 5)
                if negate:
                    miss = covered(I, s, ZERO, top, rs + out)
                    ctx.check("group", key + " complement complete", w, miss is None,
                              "" if miss is None else "a character neither listed nor accepted: %s accepted, when %s" % (
                                  shows(out), facts_str(miss, 20)))
                    hit = [(p, q) for p in rs for q in out if not disjoint(I, s, p, q)]
                    ctx.check("group", key + " complement excludes", w, not hit,
                              "" if not hit else "%s accepted although %s is excluded, when %s" % (
                                  shows([hit[0][1]]), shows([hit[0][0]]), case))
                else:
                    for p in rs:
                        miss = covered(I, s, p[0], p[1], out)
                        ctx.check("group", key + " accepts its characters", w, miss is None,
                                  "" if miss is None else "%s listed but only %s accepted, when %s" % (
                                      shows([p]), shows(out), facts_str(miss, 20)))
                    for p in out:
                        miss = covered(I, s, p[0], p[1], rs)
                        ctx.check("group", key + " accepts nothing else", w, miss is None,
                                  "" if miss is None else "%s accepted but only %s listed, when %s" % (
                                      shows([p]), shows(rs), facts_str(miss, 20)))


def shows(ps):
    return ", ".join("[%s, %s]" % (show(a), show(b)) for a, b in ps) or "nothing"


# ------------------------------------------------------------------ byte transitions
def interval_bytes(ctx):
    """add_interval gives every byte value of the interval a transition to the destination and no other."""
    f = byte_fn(ctx, STATE + "::add_interval")
    w = ctx.where(f)
    I = ctx.interp()
    byt = fld(ctx, f["clst"], "m_bytes_transitions")
    record = lambda st, loc, v, node, cx: st.emit("bt", loc, v) if byt in loc[2] and loc[1] == THIS else None
    I.on_write = record
    I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
    lo, hi = sym("first"), sym("second")
    size = num(256)
    for low in (True, False):
        st = State()
        st.facts.assume(scale(lo, -1), "<=")
        st.facts.assume(sub(lo, hi), "<=")
        st.facts.assume(sub(lo, sub(size, ONE)) if low else sub(size, lo), "<=")
        dest = as_num(I.read(st, L(("obj", "arg1")), "T *"))
        res = ctx.run(I, f, st=st, args=[("o", "pair", lo, hi)])
        ctx.check("interval", "add_interval returns", w, res, "no path completes")
        for s, _ in res:
            spans, bad = [], []
            for ev in s.events:
                if ev[0] == "bt":
                    spans.append((byte_index(ev, byt), ONE, ev))
                elif ev[0] == "loop":
                    for it in ev[2]:
                        bts = [x for x in it if x[0] == "bt"]
                        if len(bts) != 1:
                            bad.append("a round adds %d transitions" % len(bts))
                            continue
                        i = byte_index(bts[0], byt)
                        ok = False
                        for h, v0, step in ev[3]:
                            if i is not None and step == 1 and h[2][0][0] in dict(i[2]) and dict(i[2])[h[2][0][0]] == 1:
                                off = sub(i, h)
                                if is_const(off) or not contains(off, lambda t: len(t) > 1 and t[0] == "fr"):
                                    spans.append((add(v0, off), sub(h, v0), bts[0]))
                                    ok = True
                        if not ok:
                            bad.append("an unexpected transition is added in a loop")
            for a, n, ev in spans:
                v = ev[2]
                good = v[0] == "o" and v[1] == "push" and as_num(v[3]) == dest
                if not good:
                    bad.append("the transition added leads to %s" % show(v))
            ctx.check("interval", "byte transitions added", w, not bad, "; ".join(bad))
            ps = [(a, sub(add(a, n), ONE)) for a, n, _ in spans if a is not None]
            top = sub(size, ONE)
            if low:
                for s2, b in I.cmp(s.copy(), "<=", hi, top):
                    y = hi if b else top
                    miss = covered(I, s2, lo, y, ps)
                    ctx.check("interval", "every byte of the interval", w, miss is None, "only %s of [first, %s] get a "
                              "transition%s" % (shows(ps), show(y), "" if miss is None else ", when " + facts_str(miss, 20)))
                    for p in ps:
                        miss = covered(I, s2, p[0], p[1], [(lo, y)])
                        ctx.check("interval", "no byte outside the interval", w, miss is None,
                                  "%s get a transition for [first, %s]" % (shows([p]), show(y)))
            else:
                ctx.check("interval", "no byte for a higher interval", w, all(
                    s.facts.upper(n) <= 0 for _, n, _ in spans), "bytes get a transition for an interval above them")


def byte_index(ev, byt):
    loc = ev[1]
    i = loc[2].index(byt)
    if len(loc[2]) == i + 2 and loc[2][i + 1][0] == "e":
        return as_num(loc[2][i + 1][1])
    return None


# ------------------------------------------------------------------ rules
def rules(ctx):
    LR = P + "LexicalRule"
    f = byte_fn(ctx, LR + "::add_to_nfa")
    w = ctx.where(f)
    I = ctx.interp(hooks())
    nfa_t = [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == NF and "UTF8" not in r["t"]][0]
    st_t = [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == STATE and "UTF8" not in r["t"]][0]
    ast_t = [r["t"] for r in ctx.m.rec_by_t.values() if r["q"] == AST and "UTF8" not in r["t"]][0]
    I.f_root, I.f_states, I.f_neg = fld(ctx, nfa_t, "m_root"), fld(ctx, nfa_t, "m_states"), fld(ctx, ast_t, "m_negative_tags")
    st = State()
    nfa = as_num(I.read(st, L(("obj", "arg0")), "T *"))
    root = as_num(I.read(st, at(deref(nfa), I.f_root), "T *"))
    vid = as_num(I.read(st, at(L(THIS), fld(ctx, f["clst"], "m_variable_id")), "unsigned int"))
    res = ctx.run(I, f, st=st)
    ctx.check("rule", "lexical rule returns", w, res, "no path completes")
    for s0, _ in res:
        c = this_ptr(ctx, I, s0, f, "m_regex")
        for s, _ in I.split(s0, I._bool(s0, ("loops", c))):
            g = Graph(ctx, I, s, nfa, st_t, root, None)
            acc = [(n, v, i) for n, v, i in g.accepting]
            ctx.check("rule", "one accepting state", w, len(acc) == 1 and truth(s, acc[0][1]) is True and acc[0][0] != root,
                      "%d states are marked accepting" % len(acc))
            ctx.check("rule", "accepts its own variable", w, all(same(s, i, vid) for _, _, i in acc),
                      "the accepting state carries the id %s" % "".join(show(i) for _, _, i in acc))
            ctx.check("rule", "structure", w, not g.bad, "; ".join(sorted(set(g.bad))))
            r2 = as_num(I.read(s, at(deref(nfa), I.f_root), "T *"))
            ctx.check("rule", "restores the root", w, same(s, r2, root), "the root is %s afterwards" % show(r2))
            sp = operand(I, s, c)
            if len(acc) == 1 and sp is not None:
                lg = Lang()
                a, b = lg.node(), lg.node()
                lg.build(spec_strip(sp), a, b)
                d = difference(g.edges, root, acc[0][0], lg.edges, a, b)
                ctx.check("rule", "accepts its pattern", w, d is None, "" if d is None else word(d[0]))
    # the automaton is built from every rule, each starting at the one root
    cs = [x for x in ctx.m.fns(NF + "::<ctor>") if "UTF8" not in x["clst"] and len(x["params"]) == 1
          and not x.get("copyctor") and not x.get("movector")]
    ctx.need(cs, "constructor of the NFA not found")
    f = cs[0]
    w = ctx.where(f)

    def h_rule(I, st, e, cx, obj, args):
        st.emit("addrule", obj, as_num(I.val(st, args[0])), as_num(I.read(st, at(L(THIS), I.f_root), "T *")))
        return [(st, ("o", "void"))]
    I = ctx.interp({LR + "::add_to_nfa": h_rule})
    I.f_root = fld(ctx, nfa_t, "m_root")
    res = ctx.run(I, f)
    ctx.check("rule", "automaton constructor returns", w, res, "no path completes")
    src = ("obj", "arg0")
    for s, _ in res:
        root = as_num(I.read(s, at(L(THIS), I.f_root), "T *"))
        states = elems(I.read(s, at(L(THIS), fld(ctx, nfa_t, "m_states"))))
        ctx.check("rule", "the root is a state of the automaton", w, states is not None and [as_num(x) for x in states] == [root],
                  "the root is %s" % show(root))
        loops = [ev for ev in s.events if ev[0] == "loop" and any(x[0] == "addrule" for it in ev[2] for x in it)]
        flat = [ev for ev in s.events if ev[0] == "addrule"]
        none = truth(s, I.size(s, ("o", "in", L(src)))) is False
        ok = len(loops) == 1 and not flat
        if ok:
            _, lid, its, ind = loops[0][:4]
            ok = False
            for h, v0, step in ind:
                if step == 1 and v0 == ZERO and all([x[1][2][-1] == ("e", h) and x[2] == addr(L(THIS)) and x[3] == root
                                                     for x in it if x[0] == "addrule"] == [True] for it in its):
                    sizes = [a for fm in s.facts.b for a, _ in fm if isinstance(a, tuple) and a[0] == "size"]
                    ok = any(s.facts.lower(sub(h, atom(z))) >= 0 for z in sizes) or ok
        ctx.check("rule", "every rule is added once from the root", w, ok or none,
                  "not every lexical rule reaches the automaton exactly once from its root")
