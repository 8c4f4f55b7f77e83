"""C34: the tables of the schema parser's LALR(1) automaton follow from its grammar.

Each step of the construction is decided from one arbitrary round of its loops: the closures, the states reached over
a symbol, the FIRST sets, the lookaheads and the actions.  What a round adds and under which conditions it adds it is
what the definition of the step says; the loops cover all of what they range over and end only when nothing is left.
"""
import itertools

from lib import *
from rules.dfa import element_wise, Work, canon, indexed, flat, work_loop, name

LP = P + "LALR1Parser"
ITEM = P + "Item"
PROD = P + "Production"
SET = P + "ItemSet"
NULL = num(10000000)


def leaf(s):
    return s[1].rsplit("::", 1)[-1]


# ------------------------------------------------------------------ values as access paths
def tk(v):
    """A value as the path it was read along, whatever the time at which it was read."""
    v = canon(v)
    if v[0] == "n":
        if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            return atk(v[2][0][0])
        return (("lin", v[1], tuple(sorted(((atk(a), k) for a, k in v[2]), key=repr))),)
    if v[0] == "L":
        return tl(v)
    if v[0] == "upd":
        fs = {leaf(s[0]): x for s, x in v[2] if len(s) == 1 and s[0][0] == "f"}
        if set(fs) == {"m_production", "m_dot", "m_lookahead"}:
            return (("made", tk(fs["m_production"]), tk(fs["m_dot"]), tk(fs["m_lookahead"])),)
    k = v[1]
    if k in ("in", "fr"):
        l = next((x for x in v[2:] if isinstance(x, tuple) and x[:1] == ("L",)), None)
        return tl(l) if l is not None else (v,)
    if k == "sel":
        return tk(v[2]) + sels(v[3])
    if k in ("ins", "popped", "inserted", "push"):
        return tk(v[2])
    if k == "made":
        return (("made",) + tuple(tk(x) for x in v[2:]),)
    if k == "pair" and len(v) == 4:
        return (("pair", tk(v[2]), tk(v[3])),)
    return (v,)


def atk(a):
    if isinstance(a, tuple) and a:
        if a[0] == "in":
            return tl(a[1])
        if a[0] == "val":
            return tk(a[1])
        if a[0] == "addr":
            return ("&",) + tl(a[1])
        if a[0] == "fr" and isinstance(a[2], tuple) and a[2][:1] == ("L",) and a[2][2]:
            return tl(a[2])
    return (a,)


def sels(xs):
    return tuple(leaf(s) if s[0] == "f" else (s[0],) + ((tk(s[1]),) if s[0] == "e" else s[1:]) for s in xs)


def tl(l):
    r = l[1]
    if r[0] == "d":
        base = tk(r[1]) + ("*",)
        if base[0] == "&":
            base = base[1:-1]
    elif r[0] == "obj":
        base = (r[1],)
    else:
        base = (l[:2],)
    return base + sels(l[2])


def of(p, *names):
    """Is path p the member names of something? That something, else None."""
    n = len(names)
    return p[:-n] if len(p) > n and p[-n:] == names else None


def elem(p):
    """(container, index) of a path that ends in an element."""
    if p and isinstance(p[-1], tuple) and p[-1][0] == "e":
        return p[:-1], p[-1][1]
    return None, None


class LW(Work):
    """Sets, maps and work lists of parser items: map entries are places, what is put into them is recorded."""

    def __init__(self, ctx, watch=()):
        super().__init__(ctx, "obj")
        self.watch = watch
        self.probe = None
        self.flags = False
        self.dot, self.prod, self.la = (path(ctx, ITEM, n) for n in ("m_dot", "m_production", "m_lookahead"))
        self.body = path(ctx, PROD, "m_body")

    def local(self, obj):
        return obj is not None

    def item(self, I, st, a):
        return self.made(canon(I.val(st, a)))

    def made(self, v):
        """An item put together from its parts, in one form."""
        if v[0] == "upd":
            fs = dict((leaf(s[-1]) if s[-1][0] == "f" else "", x) for s, x in v[2] if len(s) == 1)
            b = v[1]
            names = ("m_production", "m_dot", "m_lookahead")
            if set(fs) <= set(names) and (set(fs) == set(names) or b[:2] != ("o", "undef")):
                ids = (self.prod, self.dot, self.la)
                return ("o", "made") + tuple(canon(fs[n]) if n in fs else canon(("o", "sel", b, i)) for n, i in zip(names, ids))
        return v

    def hooks(self):
        out = super().hooks()
        out["std::make_move_iterator"] = lambda I, st, e, cx, obj, args: [(st, I.val(st, args[0]))]
        for c in ("std::vector::", "std::deque::"):
            out[c + "insert"] = self.h_splice
        return out

    def h_cell(self, I, st, e, cx, obj, args):
        return [(st, ("ref", at(obj, ("e", self.item(I, st, args[0])))))]

    def entry(self, I, st, it):
        p = L(("obj", "pair:%s" % repr(it)))
        st.store[at(p, ("f", "std::pair::first"))] = it[3]
        st.store[at(p, ("f", "std::pair::second"))] = I.read(st, at(it[2], ("e", it[3])))
        return p

    def h_take(self, I, st, e, cx, obj, args):
        out = super().h_take(I, st, e, cx, obj, args)
        if out is not None and "ItemSet" not in e["obj"].get("t", ""):
            for s, r in out:
                s.facts.assume(self.about(I, s, r[1])[5], "<=")      # the dot is never behind the end
        return out

    def h_splice(self, I, st, e, cx, obj, args):
        if len(args) != 3:
            return None
        a, b = as_num(I.val(st, args[1])), as_num(I.val(st, args[2]))
        w = I.whole_range(st, a, b)
        st.emit("union", obj, ("o", "part", a, b) if w is None else canon(w))
        self.touch(I, st, obj, ("o", "range", a, b), e, cx)
        return [(st, ("o", "void"))]

    def h_register(self, I, st, e, cx, obj, args):
        if len(args) == 2:
            k, v = self.item(I, st, args[0]), I.val(st, args[1])
        else:
            p = I.val(st, args[0])
            if p[:2] != ("o", "pair"):
                return None
            k, v = self.made(canon(p[2])), p[3]
        out = []
        for s, had in self.ask(I, st, obj, k):
            if not had or e["q"].endswith("insert_or_assign"):
                I.write(s, at(obj, ("e", k)), v, e, cx)
            out.append((s, ("o", "pair", ("o", "tit", obj, k), num(0 if had else 1))))
        return out

    def on_write(self, st, loc, v, node, cx):
        if self.flags and loc[1][0] == "v" and not loc[2]:
            old = st.store.get(loc)
            if old is not None and old[0] == "n" and old != v and truth(st, old) is not False and not (v[0] == "n" and truth(st, v)):
                st.emit("lost", loc)
        if loc[2] and (loc[2][-1][0] == "e" or loc[2][-1][0] == "f" and leaf(loc[2][-1]) in self.watch):
            st.emit("set", loc, canon(v))

    def interp(self, hooks=None):
        I = super().interp(hooks)
        I.on_back = self.on_back
        I.join_states = False
        return I

    def on_back(self, I, st, lid, cx):
        if self.probe is not None:
            x = self.probe(I, st, lid)
            for y in x if isinstance(x, list) else [x] if x is not None else []:
                st.emit("seen", *y)

    def on_declare(self, st, loc, v):
        t = v.get("t", "").replace("const ", "").strip()
        if t.startswith(("std::map<", "std::unordered_map<")) and st.store.get(loc) == ("o", "vec", ()):
            st.store[loc] = ("o", "in", loc)      # its entries are told apart by their keys
            return
        super().on_declare(st, loc, v)

    def outer(self, st, lid):
        """The indices and pointers of the loops around this one."""
        for l, v in list(st.store.items()):
            if v[0] == "n" and len(v[2]) == 1 and v[1] == 0 and v[2][0][0][0] == "fr" and v[2][0][0][2] == l and v[2][0][0][1] != lid:
                yield v

    def counters(self, st, lid):
        """The indices and pointers that this round of the loop moved on by one."""
        for l, v in list(st.store.items()):
            h = atom(("fr", lid, l))
            if v[0] == "n" and v != h and sub(v, h) == ONE:
                yield h

    def nonzero(self, st):
        return frozenset(l for l, v in st.store.items() if l[1][0] == "v" and not l[2] and v[0] == "n" and truth(st, v))

    def unchanged(self, I, st, cont):
        """Is a container as big as it was when its size was taken down?"""
        c = I.read(st, cont)
        now = I.size(st, c)
        for l, v in st.store.items():
            if l[1][0] == "v" and not l[2] and v[0] == "n" and v[1] == 0 and len(v[2]) == 1 and v[2][0][0][0] == "size" \
                    and tk(v[2][0][0][1]) == tl(cont) and v[2][0][0][1] != c and v[2][0][0][1][1] != "ins" and st.facts.lower(sub(v, now)) >= 0:
                return True
        return False

    def about(self, I, st, it):
        """(dot at the end?, next symbol, production, dot, lookahead) of the item at a place."""
        rd = lambda l, s: I.read(st, ("L", l[1], l[2] + s), "long")
        dot, prod = as_num(rd(it, self.dot)), as_num(rd(it, self.prod))
        body = ("L", ("d", prod), self.body)
        n = I.size(st, I.read(st, body))
        d = sub(dot, n)
        end = True if st.facts.lower(d) >= 0 else False if st.facts.nonzero(d) else None      # the dot is never behind the end
        return end, as_num(I.read(st, at(body, ("e", dot)), "long")), prod, dot, as_num(rd(it, self.la)), d


def rule34(ctx):
    steps(ctx)
    order(ctx)
    closure(ctx, "generate_lr0_closure", False)
    closure(ctx, "generate_lr1_closure", True)
    goto(ctx)
    kernels(ctx)
    actions(ctx)
    firsts(ctx)
    lookaheads(ctx)


def fns(ctx, n):
    return [x for x in ctx.m.fns(LP + "::" + n) if "UTF8" not in x["clst"]]


def inside(ctx, f, I):
    """The dot is never behind the end of a body: no path looks at the symbol there."""
    bad = []
    for s, e, cx in I.throws:
        d = s.ghost.get("over")
        if d is not None and s.copy().facts.assume(d, "=="):
            bad.append("line %s" % e.get("line", "?"))
    ctx.check(leaf(("f", f["q"])), "nothing is looked for behind the end of a body", ctx.where(f), not bad, ", ".join(bad))


STEPS = ("generate_lr0_kernels", "generate_first_sets", "generate_lr1_item_sets", "generate_lalr1_action")


def steps(ctx):
    for f in fns(ctx, "generate"):
        I = LW(ctx).interp({LP + "::" + n: step(n) for n in STEPS})
        for q in {x["q"] for x in ctx.m.fns(P + "Lexer::generate")}:
            I.hooks[q] = step("lexer")
        outs = ctx.run(I, f)
        w = ctx.where(f)
        ctx.check("generate", "the tables are built", w, bool(outs), "no path returns")
        for s, v in outs:
            got = [ev[1] for ev in s.events if ev[0] == "step"]
            for n in STEPS:
                if fns(ctx, n):
                    ctx.check("generate", "every step is taken once", w, got.count(n) == 1, "%s is done %d times" % (n, got.count(n)))
            for a, b in ((0, 2), (1, 2), (2, 3)):
                a, b = STEPS[a], STEPS[b]
                if a in got and b in got:
                    ctx.check("generate", "a step follows those it builds on", w, got.index(a) < got.index(b), "%s comes before %s" % (b, a))
            ctx.check("generate", "the lexer is built", w, "lexer" in got, "its automaton is not built")


def step(n):
    def h(I, st, e, cx, obj, args):
        st.emit("step", n)
        return [(st, ("o", "void"))]
    return h


def order(ctx):
    """Sets of items tell any two different items apart: the order of items is total over production, dot and lookahead."""
    for f in ctx.m.fns(P + "operator<"):
        if not all("::Item &" in p["t"] for p in f["params"]) or len(f["params"]) != 2:
            continue
        less = {r: compared(ctx, f, r) for r in itertools.product(("<", "==", ">"), repeat=3)}
        for r, got in less.items():
            ctx.check("items", "any two items compare the same way always", ctx.where(f), len(got) == 1, "%s: %s" % (r, got))
        if any(len(g) != 1 for g in less.values()):
            continue
        rel = lambda a, b: "<" if a < b else ">" if a > b else "=="
        lt = lambda a, b: next(iter(less[tuple(map(rel, a, b))]))
        pts = list(itertools.product(range(3), repeat=3))
        bad = [(a, b) for a in pts for b in pts if lt(a, b) + lt(b, a) != (a != b)]
        ctx.check("items", "different items are ordered, equal ones are not", ctx.where(f), not bad, "%s" % bad[:1])
        bad = [(a, b, c) for a in pts for b in pts if lt(a, b) for c in pts if lt(b, c) and not lt(a, c)]
        ctx.check("items", "their order is transitive", ctx.where(f), not bad, "%s" % bad[:1])


def compared(ctx, f, rels):
    I = ctx.interp()
    st = State()
    A, B = L(("obj", "a")), L(("obj", "b"))
    prod, dot, la, idx = (path(ctx, c, n) for c, n in ((ITEM, "m_production"), (ITEM, "m_dot"), (ITEM, "m_lookahead"), (PROD, "m_index")))
    vs = [[sym(x + n) for n in ("prod", "dot", "la", "idx")] for x in "ab"]
    for i, r in ((0, 0), (1, 1), (2, 2), (3, 0)):
        st.facts.assume(sub(vs[0][i], vs[1][i]), rels[r])
    for l, v in ((A, vs[0]), (B, vs[1])):
        if rels[0] == "==":
            v = vs[1][:1] + v[1:3] + vs[1][3:]
        st.cls[l[1]] = ITEM
        for s, y in zip((prod, dot, la), v):
            st.store[("L", l[1], l[2] + s)] = y
        st.store[("L", ("d", v[0]), idx)] = v[3]
    return {truth(s2, ONE if b else ZERO) for s, v in ctx.run(I, f, st=st, args=[("ref", A), ("ref", B)])
            for s2, b in I.split(s, as_num(I.val(s, v)))}


def taken_place(st):
    for ev in reversed(st.events):
        if ev[0] == "take":
            return ev[3]
    return None


# ------------------------------------------------------------------ closures
def closure(ctx, n, lr1):
    for f in fns(ctx, n):
        closure_of(ctx, f, n, lr1)


def closure_of(ctx, f, n, lr1):
    w = ctx.where(f)
    S = sym("set")
    W = LW(ctx)

    def probe(I, st, lid):
        l = taken_place(st)
        return ("end", W.about(I, st, l)[0]) if l is not None else None
    W.probe = probe
    I = W.interp()
    outs = ctx.run(I, f, args=[S])
    inside(ctx, f, I)
    R = lambda key, ok, d: ctx.check(n, key, w, ok, d)
    R("the closure is built", bool(outs), "no path returns")
    set_ = tk(S) + ("*",)
    for s, v in outs:
        evs = indexed(s.events)
        i, ev = work_loop(evs)
        R("items are taken from a work list", ev is not None, "no loop takes items")
        if ev is None:
            continue
        work = next(x for it in ev[2] for x in it if x[0] == "take")[1]
        R("the work ends with nothing left", W.drained(I, ev, work), "the loop can end with items left in " + name(work))
        R("it starts with all the items of the kernel", starts_with(W, I, evs[:i], ev, work, set_ + ("m_kernel",)),
          "the work list does not start with the kernel")
        expanded = False
        for it in (unions(W, I, x) for x in ev[2]):
            x = next((y[2] for y in it if y[0] == "take"), None)
            R("every round handles one item", x is not None and any(y[0] == "pop" and y[1] == work for y in it),
              "a round takes no item out")
            if x is None:
                continue
            q = tk(x)
            nxt = q + ("m_production", "*", "m_body", ("e", q + ("m_dot",)))
            ins = [y for y in it if y[0] == "insert" and tk(y[1]) == set_ + ("m_closure",)]
            R("the item enters the closure", [tk(y[2]) for y in ins] == [q], "the closure does not get the item")
            pushes = [y for y in flat(it) if y[0] == "push" and y[1] == work]
            if not ins or not ins[0][3]:
                R("items of the closure are handled once", not pushes, "an item that was there already is expanded again")
                continue
            end = next((y[2] for y in it if y[0] == "seen" and y[1] == "end"), None)
            term = next((y[3] for y in it if y[0] == "known" and tk(y[1]) == ("this", "m_terminals") and tk(y[2]) == nxt), None)
            if end or term:
                R("only items before a non-terminal are expanded", not pushes, "an item before %s is expanded"
                  % ("nothing" if end else "a token"))
                continue
            nonterm = next((y[3] for y in it if y[0] == "known" and tk(y[1]) == ("this", "m_non_terminals") and tk(y[2]) == nxt), None)
            if nonterm is False:
                continue
            R("every new item before a non-terminal is expanded", bool(pushes), "a new item adds nothing to the work list")
            if not pushes:
                continue
            expanded = True
            las = None
            if lr1:
                las = follow(W, R, it, q)
            heads = ("this", "m_non_terminals", ("e", nxt))
            R("all productions of the non-terminal are added", added(W, I, R, it, work, heads, las), "some production is not added")
        R("items are expanded", expanded, "no round expands an item")


def starts_with(W, I, before, ev, work, src):
    """Does the work list hold exactly the elements of src when the loop is entered?"""
    init = next((v for h, v in ev[4] if h[:2] == ("o", "fr") and h[3] == work), None)
    if init is None:
        return False
    got = contains_all(init)
    if got is not None:
        return got == src
    if tk(init) == src or init[:2] == ("o", "in") and tk(init) == src:
        return True
    for x in before:
        if x[0] == "loop":
            ps = [y for it in x[2] for y in flat(it) if y[0] == "push" and y[1] == work]
            cs = {elem(tk(y[2])) for y in ps}
            if len(cs) == 1 and all(any(y[0] == "push" and y[1] == work for y in it) for it in x[2]):
                c, idx = cs.pop()
                return c == src and full(W, I, x, c, ps[0][2])
        if x[0] == "union" and x[1] == work:
            return tk(x[2]) == src
    return False


def contains_all(v):
    """The container a container was built from, element by element."""
    if v[:2] == ("o", "build") and len(v[3]) == 2:
        a, b = v[3]
        if a[0] == "n" and len(a[2]) == 1 and a[2][0][0][0] == "addr":
            l = a[2][0][0][1]
            d = sub(as_num(b), a)
            if l[2] and l[2][-1] == ("e", ZERO) and d[1] == 0 and len(d[2]) == 1 and d[2][0][1] == 1:
                z = d[2][0][0]
                if z[0] in ("size", "len") and tk(z[1]) == tl(("L", l[1], l[2][:-1])):
                    return tk(z[1])
    return None


def subterms(v):
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            yield x
            todo += list(x)


def find_elem(v, c):
    """(container, index) of the element of the container with path c that value v was read from."""
    for x in subterms(v):
        if len(x) == 3 and x[0] == "L" and x[2]:
            for i, s in enumerate(x[2]):
                if s[0] == "e" and tl(("L", x[1], x[2][:i])) == c:
                    return ("L", x[1], x[2][:i]), s[1]
        if len(x) == 4 and x[:2] == ("o", "sel"):
            for i, s in enumerate(x[3]):
                if s[0] == "e" and tk(x[2]) + sels(x[3][:i]) == c:
                    return (x[2] if not i else ("o", "sel", x[2], x[3][:i])), s[1]
    return None, None


def full(W, I, ev, c, v):
    """Does the loop go through all of the container with path c, an element of which is part of v?"""
    cont, idx = find_elem(v, c)
    if cont is None or idx is None or idx[0] != "n":
        return False
    def size(s):
        l = cont if cont[0] == "L" else next((l for l in s.store if tl(l) == c), None)
        return I.size(s, I.read(s, l) if l is not None else cont)
    return W.full(ev, idx, size)


def unions(W, I, evs):
    """The events with loops that put in every element of a container as the union with that container."""
    out = []
    for ev in evs:
        if ev[0] == "loop":
            ev = ev[:2] + (tuple(unions(W, I, p) for p in ev[2]),) + ev[3:]
            ins = [[x for x in p if x[0] not in ("known", "isempty", "seen", "set", "lost")] for p in ev[2]]
            one = {x[1:3] for p in ins for x in p if x[0] in ("insert", "push")}
            if len(one) == 1 and all(len(p) == 1 and p[0][0] in ("insert", "push") for p in ins):
                dest, v = next(iter(one))
                c = elem(tk(v))[0]
                if c is not None and all(x[1] == dest for p in ev[2] for x in p if x[0] == "set") and full(W, I, ev, c, v):
                    cont = find_elem(v, c)[0]
                    out.append(("union", dest, ("o", "in", cont) if cont[0] == "L" else cont))
                    continue
        out.append(ev)
    return tuple(out)


def chains(evs, pick, loops=()):
    """(loops around it, event) of every event that pick accepts."""
    for y in evs:
        if y[0] == "loop":
            for it in y[2]:
                yield from chains(it, pick, loops + (y,))
        elif pick(y):
            yield loops, y


def always(ev, pick):
    """Does every round of the loop reach an event that pick accepts, possibly in a loop of its own?"""
    return all(any(pick(y) if y[0] != "loop" else always(y, pick) for y in it) for it in ev[2])


def added(W, I, R, it, work, heads, las):
    """Every production of the non-terminal (with every lookahead) is put in, and nothing else is."""
    pick = lambda y: y[0] == "push" and y[1] == work
    done = False
    for loops, y in chains(it, pick):
        v = y[2]
        ok = v[:2] == ("o", "made") and len(v) == 5
        R("items are added", ok, "adds %s" % show(v)[:80])
        if not ok:
            continue
        p, d, la = v[2:]
        R("a production of the non-terminal is added", elem(tk(p))[0] == heads, "adds another production")
        R("it is added with the dot at its beginning", as_num(d) == ZERO, "the dot is at %s" % show(d)[:60])
        covered = [lp for lp in loops if full(W, I, lp, heads, p)]
        if las is None:
            R("it is added without a lookahead", as_num(la) == NULL, "the lookahead is %s" % show(la)[:60])
            rest = [lp for lp in loops if lp not in covered]
        else:
            R("it is added with a symbol that can follow", elem(tk(la))[0] == tl(las), "the lookahead is %s" % show(la)[:60])
            more = [lp for lp in loops if lp not in covered and full(W, I, lp, tl(las), la)]
            R("it is added with every symbol that can follow", bool(more), "some symbol that can follow is left out")
            rest = [lp for lp in loops if lp not in covered + more]
        if covered and not rest and all(always(lp, pick) for lp in loops):
            done = True
    return done


def follow(W, R, it, q):
    """The collection of symbols that can follow the non-terminal behind the dot of q."""
    body = q + ("m_production", "*", "m_body")
    first = (("lin", 1, ((q + ("m_dot",), 1),)),)
    nullable = ("this", "m_nullable")
    I = W.I
    for i, ev in enumerate(it):
        if ev[0] != "loop":
            continue
        h = next((h for h, v0, stp in ev[3] if stp == 1 and tk(v0) == first), None)
        L = {y[1] for p in ev[2] for y in p if y[0] == "union"} | {y[1] for y in it[i:] if y[0] == "union"}
        if h is None or len(L) != 1:
            continue
        L = L.pop()
        sym_ = body + (("e", tk(h)),)
        firsts = ("this", "m_firsts", ("e", sym_))
        puts = lambda evs: [y for y in evs if y[0] in ("union", "push", "insert") and y[1] == L]
        null = lambda evs: next((y[3] for y in evs if y[0] == "known" and tk(y[1]) == nullable and tk(y[2]) == sym_), None)
        adds_first = lambda evs: [y[0] == "union" and tk(y[2]) == firsts for y in puts(evs)] == [True]
        for p in ev[2]:
            R("what each symbol of the rest can start with is added", adds_first(p), "the first symbols of a rest symbol are left out, "
              "or others are added")
            R("the rest is looked at up to the first symbol that is never empty", null(p) is True, "goes past a symbol that is never empty")
        tail = it[i + 1:]
        R("no other symbols can follow", [v for hh, v in ev[4] if hh[:2] == ("o", "fr") and hh[3] == L] in ([], [("o", "vec", ())]),
          "starts with symbols already there")
        if null(tail) is False:
            R("the symbol that is never empty ends the search", adds_first(tail), "the first symbols of the last symbol are left out, or the "
              "item's own lookahead is added although the rest is never empty")
        else:
            R("an empty rest is followed by the item's own lookahead", [y[0] != "union" and tk(y[2]) == q + ("m_lookahead",)
              for y in puts(tail)] == [True], "the item's lookahead is left out")
        for s in W.exits(ev[1]):
            if null(s.events) is not False:
                l = next((y[3] for y in it if y[0] == "take"), None)
                prod = as_num(I.read(s, ("L", l[1], l[2] + W.prod), "long"))
                n = I.size(s, I.read(s, ("L", ("d", prod), W.body)))
                R("all of the rest is looked at", s.facts.lower(sub(h, n)) >= 0, "the search ends early")
        return L
    R("what can follow is collected", False, "no loop over the symbols behind the non-terminal")
    return ("L", ("obj", "?"), ())


# ------------------------------------------------------------------ the sets of items reached over a symbol
def places(W, st, cont, lid):
    """Where the element of a container that this round of the loop handles may be."""
    for h in W.counters(st, lid):
        yield at(cont, ("e", h))
        yield ("L", ("d", h), ())


def goto(ctx):
    for f in fns(ctx, "go_to"):
        goto_of(ctx, f)


def size_of(v, c):
    """Is v the number of elements the container with path c had?"""
    v = as_num(v)
    return v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and v[2][0][0][0] == "size" and tk(v[2][0][0][1]) == c \
        and v[2][0][0][1][1] != "ins"


def goto_of(ctx, f):
    w = ctx.where(f)
    n = "go_to"
    F, X = sym("from"), sym("symbol")
    W = LW(ctx, ("m_index",))
    clos = ("L", ("d", F), path(ctx, SET, "m_closure"))
    index = path(ctx, SET, "m_index")

    def probe(I, st, lid):
        for p in places(W, st, clos, lid):
            end, nxt, prod, dot, la, _ = W.about(I, st, p)
            if end is not None:
                d = sub(nxt, X)
                eq = True if st.facts.is_zero(d) else False if st.facts.nonzero(d) else None
                return "item", end, eq, prod, dot, la
        return None
    W.probe = probe
    I = W.interp()
    outs = ctx.run(I, f, args=[F, X])
    inside(ctx, f, I)
    R = lambda key, ok, d: ctx.check(n, key, w, ok, d)
    R("the set reached is found", bool(outs), "no path returns")
    lr0 = ("this", "m_lr0_item_sets")
    frm = tk(F) + ("*",)
    advanced = False
    for s, v in outs:
        evs = indexed(s.events)
        v = I.val(s, v)
        loop = next((y for y in evs if y[0] == "loop" and any(z[0] == "insert" for z in flat(y[2][0] if len(y[2]) == 1 else
                     sum((list(q) for q in y[2]), [])))), None)
        R("the items of the closure are gone through", loop is not None, "no loop adds items to the kernel of the set reached")
        if loop is None:
            continue
        K = next(z[1] for it in loop[2] for z in flat(it) if z[0] == "insert")
        R("the set starts empty", [b for a, b in loop[4] if a[:2] == ("o", "fr") and a[3] == K] in ([], [("o", "vec", ())]),
          "the kernel of the set reached starts with other items")
        for it in loop[2]:
            ins = [y for y in flat(it) if y[0] == "insert" and y[1] == K]
            seen = next((y[2:] for y in it if y[0] == "seen" and y[1] == "item"), None)
            if not ins:
                R("items before the symbol are not left out", seen is not None and (seen[0] is True or seen[1] is False),
                  "an item before the symbol does not get into the set reached")
                continue
            advanced = True
            x = ins[0][2]
            R("only items before the symbol are in the set reached", seen is not None and seen[0] is False and seen[1] is True,
              "an item that is not before the symbol gets into the set reached")
            ok = seen is not None and x[:2] == ("o", "made") and len(x) == 5 and tk(x[2]) == tk(seen[2]) \
                and as_num(x[3]) == add(seen[3], ONE) and tk(x[4]) == tk(seen[4]) and len(ins) == 1
            R("their dot is moved over the symbol", ok, "gets %s" % show(x)[:120])
            R("all items of the closure are gone through", full(W, I, loop, frm + ("m_closure",), x), "items are left out")
        sets = [y for y in evs[evs.index(loop):] if y[0] == "set"]
        k = I.read(s, K)
        if s.facts.is_zero(I.size(s, k)):
            R("no set is reached when there is no item", as_num(v) == ZERO and not sets, "something is recorded")
            continue
        new = ("L", K[1], K[2][:-1])
        known = next((y[3] for y in evs if y[0] == "known" and tk(y[1]) == lr0), None)
        keys = {(lambda e_: e_ if e_[0] != "fr" else e_)(y[2]) for y in evs if y[0] == "known" and tk(y[1]) == lr0}
        R("the set is sought by its kernel", known is not None and {tk(x) for x in keys} == {tl(K)}, "looks for another kernel")
        tab = [y for y in sets if tl(y[1])[:2] == ("this", "m_go_to_table")]
        nxt = [y for y in sets if tl(y[1])[:-1] == frm + ("m_next",)]
        reg = [y for y in sets if tl(y[1])[:-1] == lr0]
        R("the transition is recorded", len(tab) == 1 and tl(tab[0][1])[2:] == (("e", frm + ("m_index",)), ("e", tk(X)))
          and len(nxt) == 1 and tl(nxt[0][1])[-1] == ("e", tk(X)), "the transition is not recorded for the set and symbol")
        if len(tab) != 1 or len(nxt) != 1:
            continue
        if known:
            old = lr0 + (("e", tl(K)),)
            R("it leads to the set known already", tk(nxt[0][2]) == old and tk(tab[0][2]) == old + ("*", "m_index"),
              "it leads to another set")
            R("a known set is not handled again", as_num(v) == ZERO and not reg, "a set known already is returned or replaced")
        else:
            i = as_num(I.read(s, ("L", new[1], new[2] + index), "long"))
            R("it leads to the new set", nxt[0][2] == addr(new) and as_num(tab[0][2]) == i, "it leads to another set")
            R("the new set gets a number of its own", size_of(i, lr0), "its number is %s" % show(i)[:80])
            R("the new set is kept under its kernel", len(reg) == 1 and tl(reg[0][1])[-1] == ("e", tl(K)) and reg[0][2] == addr(new),
              "a new set is not kept")
            R("a new set is returned", as_num(v) == addr(new), "returns %s" % show(v)[:60])
    R("items move on", advanced, "no item moves on")


# ------------------------------------------------------------------ all sets of items
def kernels(ctx):
    for f in fns(ctx, "generate_lr0_kernels"):
        kernels_of(ctx, f)


def kernels_of(ctx, f):
    w = ctx.where(f)
    n = "generate_lr0_kernels"
    W = LW(ctx, ("m_index",))

    def h_go(I, st, e, cx, obj, args):
        a, b = canon(I.val(st, args[0])), I.val(st, args[1])
        r = atom(("reached", repr((a, b))))
        other = st.copy()
        st.emit("go", a, b, ZERO)
        other.emit("go", a, b, r)
        other.facts.assume(r, ">")
        return [(st, ZERO), (other, r)]

    def h_closed(I, st, e, cx, obj, args):
        st.emit("closed", canon(I.val(st, args[0])))
        return [(st, ("o", "void"))]
    I = W.interp({LP + "::go_to": h_go, LP + "::generate_lr0_closure": h_closed})
    outs = ctx.run(I, f)
    inside(ctx, f, I)
    R = lambda key, ok, d: ctx.check(n, key, w, ok, d)
    R("the sets are built", bool(outs), "no path returns")
    lr0 = ("this", "m_lr0_item_sets")
    root = ("this", "m_productions", ("e", ("this", "m_root_production_id")))
    for s, v in outs:
        evs = indexed(s.events)
        i, ev = work_loop(evs)
        R("sets are taken from a work list", ev is not None, "no loop takes sets")
        if ev is None:
            continue
        work = next(x for it in ev[2] for x in it if x[0] == "take")[1]
        R("the work ends with nothing left", W.drained(I, ev, work), "the loop can end with sets left in " + name(work))
        before = evs[:i]
        first = [y[2] for y in before if y[0] == "push" and y[1] == work]
        ins = [y for y in before if y[0] == "insert"]
        ok = len(first) == 1 and len(ins) == 1 and first[0] == addr(("L", ins[0][1][1], ins[0][1][2][:-1]))
        R("it starts with one set of one item", ok, "starts with %d sets" % len(first))
        if not ok:
            continue
        x = ins[0][2]
        R("it starts with the root production", x[:2] == ("o", "made") and len(x) == 5 and tk(x[2]) in (root, root + ("*",))
          and as_num(x[3]) == ZERO and as_num(x[4]) == NULL, "starts with %s" % show(x)[:100])
        reg = [y for y in before if y[0] == "set" and tl(y[1])[:-1] == lr0]
        R("the first set is kept under its kernel", len(reg) == 1 and reg[0][2] == first[0] and
          any(z == x for z in subterms(reg[0][1][2][-1])), "the first set is not kept")
        num_ = [y for y in before if y[0] == "set" and tl(y[1])[-1:] == ("m_index",)]
        R("the first set gets a number of its own", bool(num_) and size_of(num_[-1][2], lr0), "it has another number")
        for it in ev[2]:
            x = next((y[2] for y in it if y[0] == "take"), None)
            R("every round handles one set", x is not None and any(y[0] == "pop" and y[1] == work for y in it), "takes no set out")
            if x is None:
                continue
            go = [j for j, y in enumerate(it) if y[0] == "go" or y[0] == "loop" and any(z[0] == "go" for z in flat([y]))]
            cl = [j for j, y in enumerate(it) if y[0] == "closed" and tk(y[1]) == tk(x)]
            R("the set is closed before it is left over symbols", cl and all(cl[0] < j for j in go), "the closure comes too late or never")
            for what, c, sel in (("token", ("this", "m_terminals"), ()), ("non-terminal", ("this", "m_non_terminals"), ("first",))):
                done = False
                for y in it:
                    if y[0] != "loop":
                        continue
                    gs = [z for p in y[2] for z in p if z[0] == "go"]
                    if gs and all(tk(z[1]) == tk(x) and tk(z[2])[:len(c)] == c and tk(z[2])[len(c) + 1:] == sel for z in gs) \
                            and always(y, lambda z: z[0] == "go") and full(W, I, y, c, gs[0][2]):
                        done = True
                R("every set is left over every " + what, done, "some %s is left out" % what)
            for p in rounds(it):
                for z in p:
                    if z[0] == "go":
                        pu = [q[2] for q in p if q[0] == "push" and q[1] == work]
                        R("every new set is handled", z[3] in pu if z[3] != ZERO else not pu, "a new set is not put on the work list, or "
                          "something else is")


def rounds(evs):
    yield evs
    for y in evs:
        if y[0] == "loop":
            for it in y[2]:
                yield from rounds(it)


# ------------------------------------------------------------------ actions
def alternative(t):
    t = t.replace("const", "").strip()
    return "set" if "ItemSet" in t else "production" if "Production" in t else "bool"


def actions(ctx):
    for f in fns(ctx, "generate_lalr1_action"):
        actions_of(ctx, f)


def actions_of(ctx, f):
    w = ctx.where(f)
    n = "generate_lalr1_action"
    W = LW(ctx)
    lr1 = loc_of(ctx, f["clst"], "m_lr1_item_sets")
    clos = path(ctx, SET, "m_closure")
    acts_f, next_f = path(ctx, SET, "m_actions"), path(ctx, SET, "m_next")
    prods, rootid = loc_of(ctx, f["clst"], "m_productions"), loc_of(ctx, f["clst"], "m_root_production_id")

    def place(a):
        return a[1] if a[0] == "ref" else None

    def h_assign(I, st, e, cx, obj, args):
        v = canon(I.val(st, args[0]))
        if v[:2] == ("o", "variant"):
            v = v[3]
        elif v[:2] == ("o", "alt"):
            v = v[2]
        st.emit("act", obj, canon(v))
        I.write(st, obj, ("o", "alt", canon(v)), e, cx)
        return [(st, ("ref", obj))]

    def h_holds(I, st, e, cx, obj, args):
        l = place(args[0])
        if l is None:
            return None
        m = e["fn"].split("<#", 1)[1]
        k = "bool" if m.startswith("b") else alternative(m.split("#", 1)[0] if not m.startswith("*$@N@log_surgeon@S@") else m[:40])
        for ev in reversed(st.events):
            if ev[0] == "act" and ev[1] == l:
                break
            if ev[0] == "holds" and ev[1] == l:
                if ev[3]:
                    return [(st, ONE if ev[2] == k else ZERO)]
                if ev[2] == k:
                    return [(st, ZERO)]
        no = {ev[2] for ev in st.events if ev[0] == "holds" and ev[1] == l and not ev[3]}
        if len(no | {k}) == 3:
            st.emit("holds", l, k, True)
            return [(st, ONE)]
        other = st.copy()
        st.emit("holds", l, k, True)
        other.emit("holds", l, k, False)
        return [(st, ONE), (other, ZERO)]

    def h_get(I, st, e, cx, obj, args):
        l = place(args[0])
        if l is None:
            return None
        return [(st, ("ref", at(l, ("i", "get_" + alternative(e["t"])))))]

    def h_resize(I, st, e, cx, obj, args):
        st.emit("resize", obj, as_num(I.val(st, args[0])), canon(I.val(st, args[1])) if len(args) > 1 else None)
        I.write(st, obj, ("o", "cleared"), e, cx)
        return [(st, ("o", "void"))]

    def probe(I, st, lid):
        r = as_num(I.read(st, at(prods, ("e", as_num(I.read(st, rootid, "long")))), "T*"))
        for v in W.outer(st, lid):
            for kv in (at(lr1, ("e", v)), ("L", ("d", v), ())):
                ptr = as_num(I.read(st, at(kv, ("f", "std::pair::second")), "T*"))
                for p in places(W, st, ("L", ("d", ptr), clos), lid):
                    end, nxt, prod, dot, la, _ = W.about(I, st, p)
                    if end is not None:
                        d = sub(prod, r)
                        root = True if st.facts.is_zero(d) else False if st.facts.nonzero(d) else None
                        own = ("L", ("d", ptr), ())
                        here = I.read(st, at(("L", own[1], acts_f), ("e", nxt), ("i", "get_set")), "T*")
                        there = I.read(st, at(("L", own[1], next_f), ("e", nxt)), "T*")
                        return "item", end, root, nxt, prod, la, st.facts.is_zero(sub(as_num(here), as_num(there)))
        return None
    W.probe = probe
    I = W.interp({"std::variant::operator=": h_assign, "std::holds_alternative": h_holds, "std::get": h_get,
                  "std::vector::resize": h_resize, "std::vector::assign": h_resize})
    outs = ctx.run(I, f)
    inside(ctx, f, I)
    R = lambda key, ok, d: ctx.check(n, key, w, ok, d)
    R("the table can be built", bool(outs), "no path returns")
    sets = ("this", "m_lr1_item_sets")
    end_token = tk(as_num(enum(ctx, P + "SymbolId", "TokenEnd")))
    kinds = set()
    for s, v in outs:
        evs = indexed(s.events)
        outer = [y for y in evs if y[0] == "loop" and any(z[0] == "act" for z in flat([y]))]
        R("one loop over the sets sets the actions", len(outer) == 1, "%d loops" % len(outer))
        if len(outer) != 1:
            continue
        outer = outer[0]
        for p in outer[2]:
            rs = [y for y in p if y[0] == "resize"]
            R("no action is set at first", len(rs) == 1 and tk(rs[0][1])[:2] == sets and tk(rs[0][1])[-1] == "m_actions" and
              rs[0][3] is not None and (rs[0][3] == ZERO or rs[0][3][:2] == ("o", "variant") and as_num(rs[0][3][3]) == ZERO),
              "the actions do not start as errors")
            if len(rs) != 1:
                continue
            R("there is an action for every symbol", size_of(rs[0][2], ("this", "m_lexer", "m_symbol_id")), "there are %s actions"
              % show(rs[0][2])[:60])
            R("all sets get their actions", full(W, I, outer, sets, ("x", rs[0][1])), "sets are left out")
            table = tk(rs[0][1])
            own = table[:-1]
            inner = [y for y in p if y[0] == "loop" and any(z[0] in ("act", "seen") for z in flat([y]))]
            R("the items of the closure are gone through", len(inner) == 1, "%d loops" % len(inner))
            for it in inner[0][2] if len(inner) == 1 else ():
                seen = next((y[2:] for y in it if y[0] == "seen" and y[1] == "item"), None)
                R("each item is told apart by its dot", seen is not None, "an action does not depend on the dot")
                if seen is None:
                    continue
                end, root, nxt, prod, la, agrees = seen
                R("all items of the closure are gone through", full(W, I, inner[0], own + ("m_closure",), prod), "items are left out")
                acts = [y for y in it if y[0] == "act"]
                if not end:
                    no = [y for y in it if y[0] == "known" and not y[3] and tk(y[2]) == tk(nxt)]
                    undefined = {tk(y[1])[-1] for y in no} >= {"m_terminals", "m_non_terminals"}
                    cell, val, what = ("e", tk(nxt)), own + ("m_next", ("e", tk(nxt))), "shift"
                elif root is None:
                    R("accepting is told apart from reducing", False, "the action of a finished item does not depend on its production")
                    continue
                elif root:
                    undefined, cell, val, what = False, ("e", end_token), tk(ONE), "accept"
                else:
                    undefined, cell, val, what = False, ("e", tk(la)), tk(prod), "reduce"
                if undefined:
                    R("symbols without a meaning have no action", not acts, "an action is set")
                    continue
                there = what == "shift" and not acts and any(y[0] == "holds" and y[2] == "set" and y[3] and tk(y[1]) == table + (cell,)
                                                             for y in it)
                if there:
                    R("a shift there already is the same shift", agrees, "another shift is kept without a conflict")
                    continue
                kinds.add(what)
                R("an item means to " + what, len(acts) == 1 and tk(acts[0][1]) == table + (cell,) and tk(acts[0][2]) == val,
                  "sets %s" % ([(show_loc(y[1])[-60:], show(y[2])[-60:]) for y in acts],))
                if what != "accept":
                    j = it.index(acts[0]) if acts else 0
                    R("two meanings are a conflict", any(y[0] == "holds" and y[1] == acts[0][1] and y[2] == "bool" and y[3]
                      for y in it[:j]) if acts else False, "an action replaces another")
    R("items shift, reduce and accept", kinds == {"shift", "reduce", "accept"}, "only %s" % sorted(kinds))
    R("conflicts are reported", bool(I.throws), "no conflict is reported")


# ------------------------------------------------------------------ what a symbol can start with
def fixpoint(W, R, evs, inner):
    """The loop around a pass over what `inner` accepts, and the flags that tell that nothing changed."""
    for y in evs:
        if y[0] == "loop" and any(z[0] == "loop" and any(inner(x) for x in flat([z])) for it in y[2] for z in it):
            ex = W.exits(y[1])
            zero = [frozenset(l for l, v in s.store.items() if l[1][0] == "v" and not l[2] and v[0] == "n" and s.facts.is_zero(v)) for s in ex]
            return y, frozenset.intersection(*zero) if zero else frozenset()
    return None, frozenset()


def firsts(ctx):
    for f in fns(ctx, "generate_first_sets"):
        firsts_of(ctx, f)


def firsts_of(ctx, f):
    w = ctx.where(f)
    n = "generate_first_sets"
    W = LW(ctx)
    W.flags = True
    prods = loc_of(ctx, f["clst"], "m_productions")
    fst = loc_of(ctx, f["clst"], "m_firsts")
    head = path(ctx, PROD, "m_head")

    def probe(I, st, lid):
        for h in W.counters(st, lid):
            for p in (at(prods, ("e", h)), ("L", ("d", h), ())):
                ptr = as_num(I.read(st, p, "T*"))
                if tk(ptr)[:2] != ("this", "m_productions"):
                    if p[1][0] != "d":
                        continue
                body = ("L", ("d", ptr), W.body)
                hd = as_num(I.read(st, ("L", ("d", ptr), head), "long"))
                c = at(fst, ("e", hd))
                c = next((l for l in st.store if l[1] == fst[1] and tl(l) == tl(c)), c)
                empty = st.facts.is_zero(I.size(st, I.read(st, body)))
                return "prod", ptr, hd, empty, W.nonzero(st), W.unchanged(I, st, c)
        return None
    W.probe = probe
    I = W.interp()
    outs = ctx.run(I, f)
    inside(ctx, f, I)
    R = lambda key, ok, d: ctx.check(n, key, w, ok, d)
    R("the sets are built", bool(outs), "no path returns")
    F, N = ("this", "m_firsts"), ("this", "m_nullable")
    T = ("this", "m_terminals")
    for s, v in outs:
        evs = unions(W, I, indexed(s.events))
        own = False
        for y in evs:
            if y[0] != "loop":
                continue
            got = [own_first(it, F, T) for it in y[2]]
            if any(got) and all(got) and full(W, I, y, T, next(x for x in got if x is not True)):
                own = True
                break
        R("every token starts with itself", own, "some token does not start with itself")
        B, flags = fixpoint(W, R, evs, lambda x: x[0] == "seen" and x[1] == "prod")
        R("the productions are gone through until nothing changes", B is not None and bool(flags), "no loop that ends when nothing changed")
        if B is None:
            continue
        for round_ in B[2]:
            ps = [y for y in round_ if y[0] == "loop" and any(x[0] == "seen" and x[1] == "prod" for it in y[2] for x in it)]
            R("every round goes through the productions", bool(ps), "a round looks at no production")
            for P_ in ps:
                for it in P_[2]:
                    seen = next((x[2:] for x in it if x[0] == "seen" and x[1] == "prod"), None)
                    R("each production is looked at", seen is not None, "a production is not looked at")
                    if seen is None:
                        continue
                    production(W, I, R, P_, it, seen, flags, F, N)


def own_first(it, F, T):
    for y in flat(it):
        if y[0] == "set" and tl(y[1])[:-1] == F:
            k = y[1][2][-1][1]
            if elem(tk(k))[0] == T and y[2][:2] == ("o", "build") and y[2][3] and y[2][3][0][:2] == ("o", "vec") \
                    and [tk(x) for x in y[2][3][0][2]] == [tk(k)]:
                return k
            if elem(tk(k))[0] == T and y[2][:2] == ("o", "vec") and [tk(x) for x in y[2][2]] == [tk(k)]:
                return k
        if y[0] == "insert" and tl(y[1])[:-1] == F and elem(tk(y[2]))[0] == T and tl(y[1])[-1] == ("e", tk(y[2])):
            return y[2]
    return any(y[0] == "known" and tk(y[1]) == F and y[3] for y in it)


def production(W, I, R, P_, it, seen, flags, F, N):
    ptr, hd, empty, nz, unchanged = seen
    R("all productions are looked at", full(W, I, P_, ("this", "m_productions"), ptr), "productions are left out")
    body = tk(ptr) + ("*", "m_body")
    mine = F + (("e", tk(hd)),)
    R("the head's own set is filled", tk(hd) == tk(ptr) + ("*", "m_head"), "another symbol's set is filled")
    null = lambda evs, sym_: next((y[3] for y in evs if y[0] == "known" and tk(y[1]) == N and tk(y[2]) == sym_), None)
    puts = lambda evs: [y for y in evs if y[0] in ("union", "insert") and tl(y[1])[:2] == F]
    whole_body = bool(empty)
    for i, y in enumerate(it):
        if y[0] != "loop":
            continue
        hs = [h for h, v0, stp in y[3] if v0 == ZERO and stp == 1 and any(z[0] in ("union", "known") and
              tk(z[2]) in (F + (("e", body + (("e", tk(h)),)),), body + (("e", tk(h)),)) for q in y[2] for z in q)]
        if not hs:
            hs = [("n", 0, ((("off", h), 1),)) for h, v0, stp in y[3] if stp == 1 and any(z[0] == "known" and
                  elem(tk(z[2])) == (body, (("off", h),)) for q in y[2] for z in q)]
        if not hs:
            continue
        h = hs[0]
        sym_ = body + (("e", tk(h)),)
        adds = lambda evs: [(y_[0], tl(y_[1]), tk(y_[2])) for y_ in puts(evs)] == [("union", mine, F + (("e", sym_),))]
        for q in y[2]:
            R("the head can start with what its symbols start with", adds(q), "a symbol's first symbols are left out or others are added")
            R("symbols behind one that is never empty are not looked at", null(q, sym_) is True, "goes past a symbol that is never empty")
        tail = it[i + 1:]
        if null(tail, sym_) is False:
            R("the head can start with what its first symbol that is never empty starts with", adds(tail), "its first symbols are left out")
        else:
            R("only symbols of the body count", not puts(tail), "others are added")
            whole_body = True
        for s in W.exits(y[1]):
            if null(s.events, sym_) is not False:
                b = find_elem(("x",) + tuple(z for q in y[2] for z in q), body)[0]
                n = I.size(s, I.read(s, b) if b is not None and b[0] == "L" else b) if b is not None else None
                R("all symbols are looked at", n is not None and s.facts.lower(sub(h, n)) >= 0, "the body is left early")
        break
    else:
        R("the symbols of the body are looked at", whole_body, "no loop over the body")
    on = bool(flags & nz)
    new = [y for y in it if y[0] == "insert" and tk(y[1]) == N]
    if whole_body:
        R("a head with an empty body can be empty", on or any(tk(y[2]) == tk(hd) for y in new) or
          any(y[0] == "known" and tk(y[1]) == N and tk(y[2]) == tk(hd) and y[3] for y in it), "the head is not known to be possibly empty")
    else:
        R("only a head with an empty body can be empty", not new, "a head that is never empty is taken for possibly empty")
    R("only the head becomes possibly empty", all(tk(y[2]) == tk(hd) for y in new), "another symbol becomes possibly empty")
    if not on:
        R("a change leads to another round", not any(y[3] for y in new) and (unchanged or not any(puts([y]) for y in flat(it) if y[0] != "loop")),
          "something new is found and the loop can end")
    R("a change is not forgotten", not any(y[0] == "lost" and y[1] in flags for y in flat(it)), "the sign that something changed is taken back")


# ------------------------------------------------------------------ lookaheads and the sets with them
def lookaheads(ctx):
    for f in fns(ctx, "generate_lr1_item_sets"):
        lookaheads_of(ctx, f)


class Sets:
    """The rules for generate_lr1_item_sets."""

    def __init__(self, ctx, f):
        self.ctx, self.f, self.w = ctx, f, ctx.where(f)
        W = self.W = LW(ctx, ("m_index", "m_root_item_set_ptr"))
        W.flags = True
        c = f["clst"]
        self.lr0, self.lr1, self.prods = (loc_of(ctx, c, x) for x in ("m_lr0_item_sets", "m_lr1_item_sets", "m_productions"))
        self.rootid, self.prop, self.go = (loc_of(ctx, c, x) for x in ("m_root_production_id", "m_propagate_map", "m_go_to_table"))
        self.kernel, self.clos, self.index, self.next = (path(ctx, SET, x) for x in ("m_kernel", "m_closure", "m_index", "m_next"))
        self.second = ("f", "std::pair::second")
        self.closed = None
        self.end = tk(as_num(enum(ctx, P + "SymbolId", "TokenEnd")))
        W.probe = self.probe
        W.on_write = self.on_write
        self.I = W.interp({LP + "::generate_lr1_closure": self.h_closed})

    def R(self, key, ok, d):
        self.ctx.check("generate_lr1_item_sets", key, self.w, ok, d)

    def h_closed(self, I, st, e, cx, obj, args):
        p = as_num(I.val(st, args[0]))
        l = ("L", ("d", p), self.clos)
        if p[1] == 0 and len(p[2]) == 1 and p[2][0][0][0] == "addr":
            a = p[2][0][0][1]
            l = ("L", a[1], a[2] + self.clos)
        st.emit("closed", canon(p), I.read(st, ("L", l[1], l[2][:-1] + self.kernel)))
        I.write(st, l, ("o", "closed", canon(p)), e, cx)
        self.closed = l
        return [(st, ("o", "void"))]

    def sets(self, st, cont, hs):
        for h in hs:
            for kv in (at(cont, ("e", h)), ("L", ("d", h), ())):
                yield ("L", ("d", as_num(self.I.read(st, at(kv, self.second), "T*"))), ())

    def probe(self, I, st, lid):
        W = self.W
        out = []
        tri = lambda v: True if st.facts.is_zero(v) else False if st.facts.nonzero(v) else None
        root = as_num(I.read(st, at(self.prods, ("e", as_num(I.read(st, self.rootid, "long")))), "T*"))
        if self.closed is not None:
            for p in places(W, st, self.closed, lid):
                end, nxt, prod, dot, la, _ = W.about(I, st, p)
                nul = tri(sub(la, NULL))
                miss = any(ev[0] == "known" and tl(ev[1])[-1:] == ("m_next",) and tk(ev[2]) == tk(prod) + ("*", "m_body", ("e", tk(dot)))
                           and ev[3] is False for ev in st.events)
                if nul is not None or end is not None:
                    out.append(("closure item", end, nul, canon(prod), dot, canon(la), miss))
        for s in self.sets(st, self.lr0, W.outer(st, lid)):
            for p in places(W, st, ("L", s[1], self.kernel), lid):
                end, nxt, prod, dot, la, _ = W.about(I, st, p)
                out.append(("kernel item", tri(sub(prod, root)), tri(dot), canon(prod), dot))
        out.append(("flags", W.nonzero(st)))
        un = [ev[1] for ev in st.events if ev[0] == "union"]
        out.append(("same", all(W.unchanged(I, st, l) for l in un)))
        return out

    def on_write(self, st, loc, v, node, cx):
        LW.on_write(self.W, st, loc, v, node, cx)
        if tl(loc)[-2:-1] == ("m_next",):
            n = self.beside(st, as_num(loc[2][-1][1]))
            st.emit("target", n is not None and st.facts.is_zero(sub(n, self.number(self.I, st, v))))

    def beside(self, st, key):
        """What a map entry holds whose key is given."""
        if key[1] == 0 and len(key[2]) == 1 and key[2][0][1] == 1:
            a = key[2][0][0]
            if a[0] == "val" and a[1][1] in ("in", "fr"):
                a = a[1][1:]
            if a[0] in ("in", "fr"):
                l = next((x for x in a[1:] if isinstance(x, tuple) and x[:1] == ("L",)), None)
                if l is not None and l[2] and l[2][-1] == ("f", "std::pair::first"):
                    return as_num(self.I.read(st, ("L", l[1], l[2][:-1] + (self.second,)), "long"))
            if a[0] == "val" and a[1][:2] == ("o", "sel") and a[1][3][-1] == ("f", "std::pair::first"):
                return as_num(("o", "sel", a[1][2], a[1][3][:-1] + (self.second,)))
        return None

    def number(self, I, st, ptr):
        return as_num(I.read(st, ("L", ("d", as_num(ptr)), self.index), "long"))


def lookaheads_of(ctx, f):
    S = Sets(ctx, f)
    W, I, R = S.W, S.I, S.R
    outs = ctx.run(I, f)
    inside(ctx, f, I)
    R("the sets are built", bool(outs), "no path returns")
    for s, v in outs:
        evs = unions(W, I, indexed(s.events))
        a = found(S, evs, spontaneous, 0)
        R("lookaheads are found from every item", a is not None, "no loops over all items of all kernels")
        if a is None:
            continue
        b = found(S, evs, initial, a[0] + 1)
        R("every item gets its lookaheads", b is not None, "no loops over all items of all kernels behind the first")
        if b is None:
            continue
        c = found(S, evs, propagated, b[0] + 1, b[1])
        R("lookaheads are handed on", c is not None, "no loop over what is handed on")
        if c is None:
            continue
        d = found(S, evs, with_lookaheads, c[0] + 1, b[1])
        R("the sets get their lookaheads", d is not None, "no loop that builds the sets with lookaheads")
        if d is None:
            continue
        e = found(S, evs, transitions, d[0] + 1)
        R("the sets are connected", e is not None, "no loop over the transitions")


def found(S, evs, rule, start, *more):
    for i, y in enumerate(evs):
        if i >= start and y[0] == "loop":
            r = rule(S, y, *more)
            if r is not None:
                return i, r
    return None


def items(S, y, need):
    """(path of the kernel item, events of a round) when the loop goes through all items of all kernels."""
    out = []
    for p in y[2]:
        inner = [z for z in p if z[0] == "loop" and need(z)]
        if not inner:
            return None
        for z in inner:
            for it in z[2]:
                x = next((q[2:] for q in it if q[0] == "seen" and q[1] == "kernel item" and
                          kernel_item(tk(q[4])) is not None and full(S.W, S.I, z, kernel_item(tk(q[4]))[:-1], q[4]) and
                          full(S.W, S.I, y, ("this", "m_lr0_item_sets"), q[4])), None)
                if x is None:
                    return None
                out.append((kernel_item(tk(x[2])), x, it, p))
    return out


def kernel_item(p):
    """this.m_lr0_item_sets[i].second->m_kernel[j] of ....m_production"""
    if len(p) == 7 and p[:2] == ("this", "m_lr0_item_sets") and p[3:5] == ("second", "*") and p[5] == "m_kernel":
        return p
    if len(p) == 8 and p[-1] == "m_production":
        return kernel_item(p[:-1])
    return None


def own_key(K):
    """The keys of a kernel item: its set and itself."""
    return [("e", (("pair", K[:4], it),)) for it in (K, (("made", K + ("m_production",), K + ("m_dot",), tk(NULL)),))]


def next_key(S, K, prod, dot):
    """The key of the item over the next symbol, in the set reached over that symbol."""
    nxt = K[:5] + ("m_next", ("e", tk(prod) + ("*", "m_body", ("e", tk(dot)))))
    return (("pair", nxt, (("made", tk(prod), tk(add(dot, ONE)), tk(NULL)),)),)


def spontaneous(S, y):
    R = S.R
    its = items(S, y, lambda z: any(q[0] == "closed" for q in flat([z])))
    if its is None:
        return None

    for K, x, it, p in its:
        cl = [q for q in it if q[0] == "closed"]
        ins = [q for q in it if q[0] == "insert" and tl(q[1])[-1:] == ("m_kernel",)]
        ok = len(cl) == 1 and len(ins) == 1 and tk(ins[0][2]) == K and cl[0][1] == canon(addr(("L", ins[0][1][1], ins[0][1][2][:-1]))) \
            and it.index(ins[0]) < it.index(cl[0]) and cl[0][2][:2] == ("o", "ins") and cl[0][2][2] == ("o", "vec", ())
        R("the closure of every kernel item by itself is formed", ok, "the closure is that of other items")
        if not ok:
            continue
        C = (("o", "closed", cl[0][1]),)
        lp = [z for z in it if z[0] == "loop" and any(q[0] == "seen" and q[1] == "closure item" for q in flat([z]))]
        R("its closure is gone through", len(lp) == 1, "%d loops" % len(lp))
        for z in lp:
            for q in z[2]:
                ci = next((w[2:] for w in q if w[0] == "seen" and w[1] == "closure item"), None)
                R("items are told apart by their lookahead", ci is not None, "what is done does not depend on the lookahead")
                if ci is None:
                    continue
                end, nul, prod, dot, la, miss = ci
                R("all of the closure is gone through", full(S.W, S.I, z, C, la), "items are left out")
                put = [w for w in q if w[0] == "insert"]
                if end is True or miss:
                    R("finished items hand nothing on", not put, "something is handed on to an item that is not there")
                    continue
                R("items are told apart by their lookahead", end is False and nul is not None, "what is done does not depend on the item")
                to = next_key(S, K, prod, dot)
                if nul is False:
                    ok = len(put) == 1 and tl(put[0][1])[:2] == ("this", "m_spontaneous_map") and tk(put[0][2]) == tk(la)
                    R("a lookahead of its own is kept", ok, "a lookahead that arises here is left out")
                    ok = ok and tl(put[0][1])[2:] == (("e", to),)
                else:
                    ok = len(put) == 1 and tl(put[0][1])[:2] == ("this", "m_propagate_map")
                    R("other lookaheads are handed on", ok, "the lookahead of the kernel item is not handed on")
                    ok = ok and tl(put[0][1])[2:] in [(e,) for e in own_key(K)] and tk(put[0][2]) == to
                R("lookaheads go to the item over the next symbol in the set reached over it", ok, "they go to other items, or to that item "
                  "in all sets")
    return True


def initial(S, y):
    R = S.R
    own = lambda q: q[0] == "union" and tk(q[2])[:2] == ("this", "m_spontaneous_map")
    its = items(S, y, lambda z: any(own(q) for q in flat([z])))
    if its is None:
        return None
    las = set()
    for K, x, it, p in its:
        un = [q for q in it if q[0] == "union"]
        none = not un and any(q[0] == "known" and tl(q[1])[:2] == ("this", "m_spontaneous_map") and ("e", tk(q[2])) in own_key(K) and
                              q[3] is False for q in it)
        ok = len(un) == 1 and tl(un[0][1])[-1] in own_key(K) and tk(un[0][2])[:-1] == ("this", "m_spontaneous_map") \
            and tk(un[0][2])[-1] in own_key(K)
        R("an item gets the lookaheads kept for it", ok or none, "it gets others or none")
        if ok:
            las.add(tl(un[0][1])[:-1])
        ends = [q for q in it if q[0] == "insert" and tk(q[2]) == S.end]
        R("only the root production is followed by the end", not ends if x[0] is False else x[0] is True and bool(ends),
          "the end of the input is not put behind the root production, or behind others")
        for q in ends:
            R("the end is put behind the root production", tl(q[1])[-1] in own_key(K), "another item gets the end")
    return next(iter(las)) if len(las) == 1 else None


def propagated(S, y, LA):
    R, W, I = S.R, S.W, S.I
    pick = lambda q: q[0] == "union" and tl(q[1])[:-1] == LA
    if not any(pick(q) for q in flat([y])):
        return None
    ex = W.exits(y[1])
    zero = [frozenset(l for l, v in s.store.items() if l[1][0] == "v" and not l[2] and v[0] == "n" and s.facts.is_zero(v)) for s in ex]
    flags = frozenset.intersection(*zero) if zero else frozenset()
    R("handing on ends when nothing changes", bool(flags), "the loop ends otherwise")
    R("every round hands on", always(y, pick), "a round hands nothing on")
    M = ("this", "m_propagate_map")
    for loops, q in chains([y], pick):
        frm, to = elem(tk(q[2])), tl(q[1])[-1][1]
        ok = frm[0] == LA and len(frm[1]) == 4 and frm[1][:2] == M and frm[1][3] == "first" and len(to) == 5 and to[:3] == frm[1][:3] \
            and to[3] == "second"
        R("an item hands on to the items it leads to", ok, "hands on otherwise")
        if ok:
            R("all items hand on", any(full(W, I, lp, M, ("x", q[2])) for lp in loops[1:]) and
              any(full(W, I, lp, to[:-1], ("x", q[1])) for lp in loops[1:]), "some do not hand on")
    for lp in flat([y]):
        for it in lp[2] if lp[0] == "loop" and lp is not y else ():
            R("a change is not forgotten", not any(q[0] == "lost" and q[1] in flags for q in it), "the sign that something changed is taken back")
            if any(pick(q) for q in it):
                nz = next((q[2] for q in it if q[0] == "seen" and q[1] == "flags"), frozenset())
                same_ = next((q[2] for q in it if q[0] == "seen" and q[1] == "same"), False)
                R("a change leads to another round", bool(nz & flags) or same_, "something new is handed on and the loop can end")
    return True


def with_lookaheads(S, y, LA):
    R, W, I = S.R, S.W, S.I
    its = items(S, y, lambda z: any(q[0] == "insert" and tl(q[1])[-1:] == ("m_kernel",) for q in flat([z])))
    if its is None:
        return None
    for K, x, it, p in its:
        pick = lambda q: q[0] == "insert" and tl(q[1])[-1:] == ("m_kernel",)
        got = [(lp, q) for lp, q in chains(it, pick)]
        new = {q[1] for lp, q in got}
        R("an item is added with its lookaheads", len(new) == 1, "it is added to %d sets" % len(new))
        if len(new) != 1:
            continue
        new = new.pop()
        N = canon(addr(("L", new[1], new[2][:-1])))
        las = [LA + (e,) for e in own_key(K)]
        for lps, q in got:
            v = q[2]
            ok = v[:2] == ("o", "made") and len(v) == 5 and tk(v[2]) == K + ("m_production",) and tk(v[3]) == K + ("m_dot",) \
                and elem(tk(v[4]))[0] in las
            R("only the lookahead is new", ok, "adds %s" % show(v)[:120])
            R("it is added with all its lookaheads", ok and any(full(W, I, lp, elem(tk(v[4]))[0], v[4]) and always(lp, pick) for lp in lps),
              "lookaheads are left out")
        first = [q for q in it if q[0] == "set" and tl(q[1])[-1] == "m_root_item_set_ptr"]
        here = x[0] is True and x[1] is True
        never = x[0] is False or x[1] is False
        R("the set with the root production at its beginning is the first", (not first) if never else here and len(first) == 1 and
          canon(first[0][2]) == N, "another set is the first, or none is")
        cl = [q for q in p if q[0] == "closed"]
        lpi = next(i for i, q in enumerate(p) if q[0] == "loop" and it in q[2])
        R("the new set is closed when it is complete", len(cl) == 1 and cl[0][1] == N and p.index(cl[0]) > lpi, "it is not closed")
        idx = [q for q in p if q[0] == "set" and tl(q[1])[-1] == "m_index" and q[1][1] == new[1]]
        R("it keeps the number of the set it comes from", bool(idx) and tk(idx[-1][2]) == K[:5] + ("m_index",), "it gets another number")
        reg = [q for q in p if q[0] == "set" and tl(q[1])[:-1] == ("this", "m_lr1_item_sets")]
        R("it is kept under its kernel", len(reg) == 1 and canon(reg[0][2]) == N and tl(reg[0][1])[-1] == ("e", tl(new)), "it is not kept")
        R("nothing is added to it later", all(p.index(q) > lpi for q in cl), "closed too early")
    return True


def transitions(S, y):
    R, W, I = S.R, S.W, S.I
    L1 = ("this", "m_lr1_item_sets")
    pick = lambda q: q[0] == "set" and tl(q[1])[-2:-1] == ("m_next",)
    if not any(pick(q) for q in flat([y])):
        return None
    for loops, q in chains([y], pick):
        own = tl(q[1])[:-2]
        key = tl(q[1])[-1][1]
        ok = len(own) == 5 and own[:2] == L1 and own[3:] == ("second", "*") and len(key) == 5 and key[:2] == ("this", "m_go_to_table") \
            and key[2] == ("e", own + ("m_index",)) and key[4] == "first"
        R("a set is connected over the symbols recorded for it", ok, "connects %s" % show_loc(q[1])[:120])
        if not ok:
            continue
        R("all sets are connected", any(full(W, I, lp, L1, ("x", q[1])) for lp in loops) and
          any(full(W, I, lp, key[:3], ("x", q[1])) for lp in loops), "some are not connected")
        mid = loops[-1]
        for it in mid[2]:
            if q in it:
                t = it[it.index(q) + 1]
                R("the connection leads to the set with the recorded number", t == ("target", True) and tk(q[2])[:2] == L1 and tk(q[2])[3:] in (
                  ("second",), ("second", "*")), "leads to %s" % (tk(q[2]),))
    return True
