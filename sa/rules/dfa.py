"""C16/C17/C31: the deterministic automaton built from the NFA, its tables, and the intersection of two of them.

The three work-list algorithms (epsilon closure, subset construction, reachable pairs) are decided from one arbitrary
round of their loop: what has to be done for the item taken is done on every path of the round, the loop only ends
when no item is left, and what is put in is taken out again.  That is the inductive step of their correctness.
"""
from lib import *
from rules.nfa import byte_fn, fld, AST, STATE, NF

DFA = FA + "RegexDFA"
DSTATE = FA + "RegexDFAState"
PAIR = FA + "RegexDFAStatePair"
BYTES = 256

WORK = ("std::stack::", "std::queue::", "std::deque::", "std::vector::", "std::priority_queue::")
SETS = ("std::set::", "std::unordered_set::")
MAPS = ("std::map::", "std::unordered_map::")
ITERS = ("std::__detail::_Node_iterator::", "std::__detail::_Node_const_iterator::", "std::_Rb_tree_iterator::",
         "std::_Rb_tree_const_iterator::")


def canon(v):
    """Objects and scalars in one form: atoms that stand for an object are that object."""
    if v[0] == "n" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        a = v[2][0][0]
        if isinstance(a, tuple) and a[0] == "val":
            return a[1]
    return v


class Work:
    """Hooks that record what a work-list algorithm takes, puts in, and remembers."""

    def __init__(self, ctx, keyed):
        self.ctx = ctx
        self.keyed = keyed          # "ptr": items are pointers; "obj": items are objects (sets, pairs)
        self.I = None
        self.cells = {}
        self.registry = set()       # maps that know every item of the work list (an obligation of its own)

    # ---------------------------------------------------------- state-local memory
    def ask(self, I, st, obj, v, what="known"):
        """Forks on whether container obj holds v; [(state, bool)]; remembered along the path."""
        for ev in reversed(st.events):
            if ev[0] == "known" and ev[1] == obj and ev[2] == v:
                return [(st, ev[3])]
            if ev[0] == "insert" and ev[1] == obj and ev[2] == v:
                return [(st, True)]
            if ev[0] in ("clear", "erase") and ev[1] == obj:
                break
            if ev[0] == "reg" and ev[1] == obj and ev[2] == v:
                return [(st, True)]
        if v == ("o", "taken", obj) or (v[:2] == ("o", "taken") and obj in self.registry):
            return [(st, True)]
        if I.read(st, obj) == ("o", "vec", ()):
            st.emit("known", obj, v, False)
            return [(st, False)]
        other = st.copy()
        st.emit("known", obj, v, True)
        other.emit("known", obj, v, False)
        return [(st, True), (other, False)]

    def touch(self, I, st, obj, v, e, cx):
        cur = I.read(st, obj)
        I.write(st, obj, ("o", "ins", cur, v), e, cx)

    def item(self, I, st, a):
        return canon(I.val(st, a))

    # ---------------------------------------------------------- hooks
    def hooks(self):
        out = {}
        for c in WORK:
            for n in ("push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front"):
                out[c + n] = self.h_push
            for n in ("top", "front", "back"):
                out[c + n] = self.h_take
            for n in ("pop", "pop_back", "pop_front"):
                out[c + n] = self.h_pop
        for c in SETS:
            out[c + "insert"] = out[c + "emplace"] = self.h_insert
            out[c + "merge"] = self.h_merge
            out[c + "count"] = out[c + "contains"] = self.h_count
            out[c + "find"] = self.h_find
            out[c + "erase"] = self.h_erase
        for c in MAPS:
            out[c + "count"] = out[c + "contains"] = self.h_count
            out[c + "find"] = self.h_find
            out[c + "at"] = out[c + "operator[]"] = self.h_cell
            for n in ("emplace", "try_emplace", "insert", "insert_or_assign"):
                out[c + n] = self.h_register
        for c in SETS + MAPS:
            out[c + "end"] = out[c + "cend"] = self.h_end
        for c in ITERS:
            out[c + "operator->"] = self.h_arrow
            out[c + "operator*"] = self.h_star
        for q in ("std::operator==", "std::__detail::operator=="):
            out[q] = self.h_eq(True)
        for q in ("std::operator!=", "std::__detail::operator!="):
            out[q] = self.h_eq(False)
        for c in WORK + SETS + MAPS + ("std::array::",):
            out[c + "empty"] = self.h_empty
        out["std::optional::has_value"] = out["std::optional::operator bool"] = out["std::optional::<conv>"] = self.h_has
        return out

    def on_declare(self, st, loc, v):
        """A work list or set that starts with the elements of a braced list."""
        t = v.get("t", "").replace("const ", "").strip()
        v0 = st.store.get(loc)
        if v0 is None or v0[:2] != ("o", "vec"):
            return
        for kinds, ev in ((WORK, "push"), (SETS, "insert")):
            if any(t.startswith(k[:-2] + "<") for k in kinds):
                for x in v0[2]:
                    st.emit(ev, loc, canon(x), *((True,) if ev == "insert" else ()))

    def local(self, obj):
        """Containers that are members of automaton states or of the automaton are not work lists."""
        return obj is not None and obj[1][0] in ("v", "t", "obj") and not any(s[0] == "f" and "finite_automata" in s[1] for s in obj[2])

    def h_push(self, I, st, e, cx, obj, args):
        if not self.local(obj) or not args:
            return None
        if len(args) == 1:
            v = self.item(I, st, args[0])
        else:
            v = ("o", "made") + tuple(self.item(I, st, a) for a in args)
        st.emit("push", obj, v)
        self.touch(I, st, obj, v, e, cx)
        if e["q"].endswith("emplace_back"):
            return [(st, ("ref", I.tmp(st, v)))]
        return [(st, ("o", "void"))]

    def h_take(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        # several looks at the same item
        for ev in reversed(st.events):
            if ev[0] in ("pop", "push", "loop") and (ev[0] == "loop" or ev[1] == obj):
                break
            if ev[0] == "take" and ev[1] == obj:
                return [(st, ("ref", ev[3]))]
        v = atom(("taken", obj)) if self.keyed == "ptr" else ("o", "taken", obj)
        loc = L(("obj", "item:%s" % repr(obj)))
        st.store[loc] = v
        st.emit("take", obj, v, loc)
        return [(st, ("ref", loc))]

    def h_pop(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        st.emit("pop", obj)
        I.write(st, obj, ("o", "popped", I.read(st, obj)), e, cx)
        return [(st, ("o", "void"))]

    def h_insert(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        if len(args) == 2 and not e["q"].endswith("emplace"):
            a, b = as_num(I.val(st, args[0])), as_num(I.val(st, args[1]))
            w = I.whole_range(st, a, b)
            if w is None:
                st.emit("union", obj, ("o", "part", a, b))
            else:
                st.emit("union", obj, canon(w))
            self.touch(I, st, obj, ("o", "range", a, b), e, cx)
            return [(st, ("o", "void"))]
        v = self.item(I, st, args[0]) if len(args) == 1 else ("o", "made") + tuple(self.item(I, st, a) for a in args)
        out = []
        for s, had in self.ask(I, st, obj, v):
            s.emit("insert", obj, v, not had)
            self.touch(I, s, obj, v, e, cx)
            out.append((s, ("o", "pair", ("o", "tit", obj, v), num(0 if had else 1))))
        return out

    def h_merge(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        st.emit("union", obj, self.item(I, st, args[0]))
        self.touch(I, st, obj, ("o", "merge"), e, cx)
        return [(st, ("o", "void"))]

    def h_count(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        return [(s, num(1 if b else 0)) for s, b in self.ask(I, st, obj, self.item(I, st, args[0]))]

    def h_find(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        return [(st, ("o", "tit", obj, self.item(I, st, args[0])))]

    def h_end(self, I, st, e, cx, obj, args):
        return None

    def h_erase(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        st.emit("pop", obj)
        I.write(st, obj, ("o", "popped", I.read(st, obj)), e, cx)
        return [(st, num(1))]

    def h_eq(self, pos):
        def h(I, st, e, cx, obj, args):
            vs = ([I.read(st, obj)] if obj is not None else []) + [I.val(st, a) for a in args]
            it = [v for v in vs if canon(v)[:2] == ("o", "tit")]
            if len(vs) != 2 or len(it) != 1:
                return None
            it = canon(it[0])
            return [(s, num(1 if had != pos else 0)) for s, had in self.ask(I, st, it[2], it[3])]
        return h

    def cell(self, obj, k):
        l = L(("obj", "cell:%s:%s" % (repr(obj), repr(k))))
        self.cells[l[1]] = (obj, k)
        return l

    def h_cell(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        if self.keyed == "obj" and canon(I.val(st, args[0]))[0] == "n":
            # a map with numbers as keys is a table of containers
            k = as_num(I.val(st, args[0]))
            if e["q"].endswith("operator[]"):
                self.touch(I, st, obj, k, e, cx)
            return [(st, ("ref", at(obj, ("e", k))))]
        k = self.item(I, st, args[0])
        if k[:2] == ("o", "taken"):
            self.registry.add(obj)
        out = []
        for s, had in self.ask(I, st, obj, k):
            l = self.cell(obj, k)
            if not had and e["q"].endswith("::at"):
                s.emit("throws")
                I.throws.append((s, e, cx))
                continue
            if not had:
                self.touch(I, s, obj, k, e, cx)
            out.append((s, ("ref", l)))
        return out

    def h_register(self, I, st, e, cx, obj, args):
        if not self.local(obj):
            return None
        if len(args) == 2:
            k, v = self.item(I, st, args[0]), I.val(st, args[1])
        else:
            p = I.val(st, args[0])
            if p[:2] != ("o", "pair"):
                return None
            k, v = canon(p[2]), p[3]
        out = []
        for s, had in self.ask(I, st, obj, k):
            l = self.cell(obj, k)
            if not had or e["q"].endswith("insert_or_assign"):
                s.store[l] = v
                s.emit("reg", obj, k, as_num(v))
                self.touch(I, s, obj, k, e, cx)
            out.append((s, ("o", "pair", ("o", "tit", obj, k), num(0 if had else 1))))
        return out

    def mapped(self, v):
        """(map, key) of a value looked up in a map."""
        v = canon(as_num(v))
        if v[:2] == ("o", "fr") or (v[0] == "n" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and isinstance(v[2][0][0], tuple)):
            for x in (v if v[0] == "o" else v[2][0][0]):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "L" and x[1] in self.cells and not x[2]:
                    return self.cells[x[1]]
        return None

    def on_write(self, st, loc, v, node, cx):
        c = self.cells.get(loc[1])
        if c is not None and not loc[2]:
            st.emit("reg", c[0], c[1], as_num(v))

    def entry(self, I, st, it):
        p = L(("obj", "pair:%s" % repr(it)))
        l = self.cell(it[2], it[3])
        st.store[at(p, ("f", "std::pair::first"))] = it[3]
        st.store[at(p, ("f", "std::pair::second"))] = I.read(st, l, "T*")
        return p

    def h_arrow(self, I, st, e, cx, obj, args):
        v = canon(I.read(st, obj))
        if v[:2] != ("o", "tit"):
            return None
        return [(st, addr(self.entry(I, st, v)))]

    def h_star(self, I, st, e, cx, obj, args):
        v = canon(I.read(st, obj))
        if v[:2] != ("o", "tit"):
            return None
        return [(st, ("ref", self.entry(I, st, v)))]

    def h_empty(self, I, st, e, cx, obj, args):
        out = []
        for s, b in I.split(st, I.size(st, I.read(st, obj))):
            s.emit("isempty", obj, canon(I.read(s, obj)), not b)
            out.append((s, num(0 if b else 1)))
        return out

    def h_has(self, I, st, e, cx, obj, args):
        for ev in reversed(st.events):
            if ev[0] == "has" and ev[1] == obj:
                return [(st, num(1 if ev[2] else 0))]
        other = st.copy()
        st.emit("has", obj, True)
        other.emit("has", obj, False)
        return [(st, ONE), (other, ZERO)]

    def exits(self, lid):
        return [s for l, s in self.I.left if l == lid]

    def interp(self, hooks=None):
        hk = self.hooks()
        hk.update(hooks or {})
        I = self.ctx.interp(hk)
        I.on_write = self.on_write
        I.on_declare = self.on_declare
        I.keep_left = True
        self.I = I
        I.join_key = lambda s: tuple(map(repr, s.events))
        return I

    # ---------------------------------------------------------- questions about what was recorded
    def full(self, ev, idx, size):
        """Does the loop count idx from 0 in steps of 1 until it has reached size?"""
        ex = self.exits(ev[1])
        p = offset_of(idx)
        if p is not None:
            # a pointer walked from the first element on
            v0 = next((v0 for h, v0, stp in ev[3] if h == p and stp == 1), None)
            return v0 is not None and bool(ex) and all(s.facts.lower(sub(sub(p, v0), size(s))) >= 0 for s in ex)
        if not any(as_num(h) == idx and v0 == ZERO and stp == 1 for h, v0, stp in ev[3]):
            return False
        return bool(ex) and all(s.facts.lower(sub(idx, size(s))) >= 0 for s in ex)

    def drained(self, I, ev, work):
        """The loop ends only with an empty work list."""
        ex = self.exits(ev[1])
        return bool(ex) and all(s.facts.is_zero(I.size(s, I.read(s, work))) for s in ex)


def offset_of(idx):
    if len(idx[2]) == 1 and idx[2][0][0][0] == "off":
        return idx[2][0][0][1]
    return None


def rewrite(x, m):
    """Every place *h of a pointer h walked over a container is that container's element."""
    if not isinstance(x, tuple):
        return x
    if len(x) == 3 and x[0] == "L" and x[1][0] == "d" and x[1][1] in m:
        base = m[x[1][1]]
        return rewrite(("L", base[1], base[2][:-1] + (("e", atom(("off", x[1][1]))),) + x[2]), m)
    y = tuple(rewrite(z, m) for z in x)
    return x if y == x else y


def indexed(evs):
    """The events with pointers walked over containers replaced by indices."""
    out = []
    for ev in evs:
        if ev[0] == "loop":
            m = {}
            for h, v0, stp in ev[3]:
                if stp == 1 and v0[1] == 0 and len(v0[2]) == 1 and v0[2][0][1] == 1 and v0[2][0][0][0] == "addr":
                    l = v0[2][0][0][1]
                    if l[2] and l[2][-1] == ("e", ZERO):
                        m[h] = l
            its = tuple(indexed(rewrite(it, m) if m else it) for it in ev[2])
            ev = ev[:2] + (its,) + ev[3:]
        out.append(ev)
    return tuple(out)


def flat(evs):
    for ev in evs:
        yield ev
        if ev[0] == "loop":
            for it in ev[2]:
                for x in flat(it):
                    yield x


def work_loop(evs):
    """The loop of a path that takes items: (index, event)."""
    for i, ev in enumerate(evs):
        if ev[0] == "loop" and any(x[0] == "take" for it in ev[2] for x in it):
            return i, ev
    return None, None


def members(v):
    """(root pointer, selectors) a value was read from."""
    v = as_num(v)
    if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        a = v[2][0][0]
        if isinstance(a, tuple) and a[0] == "in":
            return a[1][1], a[1][2]
        if isinstance(a, tuple) and a[0] == "val" and a[1][:2] == ("o", "in"):
            return a[1][2][1], a[1][2][2]
    return None, ()


def short(s):
    return s[1].rsplit("::", 1)[-1] if s[0] == "f" else s[0]


KINDS = {("m_epsilon_transitions", "e"): "epsilon transition",
         ("m_positive_tagged_start_transitions", "e", "m_dest_state"): "positive tagged start transition",
         ("m_positive_tagged_end_transition", "i", "m_dest_state"): "positive tagged end transition",
         ("m_negative_tagged_transition", "i", "m_dest_state"): "negative tagged transition"}


def name(obj):
    """Short name of a local container."""
    r = obj[1]
    n = str(r[2]).split("@")[0] if r[0] == "v" else str(r[1])
    return n + "".join("." + short(x) if x[0] == "f" else "[..]" for x in obj[2])


def rule16(ctx):
    closure(ctx)
    subsets(ctx)
    tables(ctx)


# ------------------------------------------------------------------ epsilon closure
def closure(ctx):
    for f in [x for x in ctx.m.fns(P + "Lexer::epsilon_closure") if "UTF8" not in x["clst"]]:
        closure_of(ctx, f)


def closure_of(ctx, f):
    w = ctx.where(f)
    start = sym("start")
    W = Work(ctx, "ptr")
    I = W.interp()
    outs = ctx.run(I, f, args=[start])
    R = lambda key, ok, d: ctx.check("closure", key, w, ok, d)
    R("a closure is always returned", outs and not I.throws, "some path fails")
    for s, v in outs:
        v = canon(I.val(s, v))
        s.events = indexed(s.events)
        i, ev = work_loop(s.events)
        R("states are visited", ev is not None, "no loop takes states to visit")
        if ev is None:
            continue
        work = next(x for it in ev[2] for x in it if x[0] == "take")[1]
        R("the search ends with nothing left to visit", W.drained(I, ev, work), "the loop can end with states left in " + name(work))
        R("the search is not left early", not any(x[0] == "take" for x in s.events[i + 1:]), "returns while visiting a state")
        before = s.events[:i]
        sets = {x[1] for x in flat(s.events) if x[0] == "insert"}
        R("one set is filled", len(sets) == 1, "%d sets" % len(sets))
        if len(sets) != 1:
            continue
        C = sets.pop()
        R("the set of states found is returned", contains(v, lambda y: y == C), "returns %s" % show(v)[:80])
        R("the given state is visited", ("push", work, start) in before, "does not start at the given state")
        R("only the given state is there at first", {x[2] for x in flat(before) if x[0] in ("push", "insert")} <= {start},
          "starts with other states")
        early = any(x[0] == "insert" for x in before)
        paths = ev[2]
        for it in paths:
            x = next((y[2] for y in it if y[0] == "take"), None)
            for y in flat(it):
                if y[0] == "insert" and y[2] != x and y[3]:
                    early = True
        seen = set()
        for it in paths:
            x = next((y[2] for y in it if y[0] == "take"), None)
            R("every round visits a state", x is not None and any(y[0] == "pop" for y in it), "a round visits nothing")
            if x is None:
                continue
            known = any((y[0] == "insert" and y[2] == x and not y[3]) or (y[0] == "known" and y[2] == x and y[3]) for y in it
                        if y[1] == C)
            if not early:
                R("a visited state is in the closure", known or any(y[0] == "insert" and y[1:3] == (C, x) for y in it),
                  "a state is visited without becoming part of the closure")
            if known and not early:
                continue
            for kind, ok, d in expansion(W, I, it, x, C, work, early):
                seen.add(kind)
                R("every " + kind + " is followed", ok, d)
            for y in flat(it):
                if y[0] in ("push", "insert") and y[2] != x:
                    k = kind_of(y[2], x)
                    R("only transitions are followed", k is not None and k[0] in KINDS, "adds %s" % show(y[2])[:120])
                if y[0] == "push" and early:
                    R("a state waiting to be visited is in the closure", any(z[0] in ("insert", "known") and z[1:3] == (C, y[2])
                      for z in flat(it)), "a state is queued without becoming part of the closure")
        R("states are expanded", seen == set(KINDS.values()), "no round follows transitions")


def kind_of(v, x):
    """Kind and index of the transition of state x that leads to v."""
    root, sels = members(v)
    if root is None or root[0] != "d" or root[1] != x or not sels:
        return None
    k = tuple(short(z) if z[0] == "f" else z[0] for z in sels)
    return k, [z[1] for z in sels if z[0] == "e"], ("L", root, sels[:1])


def expansion(W, I, it, x, C, work, early):
    """(kind, done, what is missing) for each kind of transition of x on one path of a round."""
    def handled(evs, cond):
        return any((y[0] == "push" and y[1] == work and cond(y[2])) or
                   (y[1] == C and cond(y[2]) and ((y[0] == "insert" and not y[3]) or (y[0] == "known" and y[3])))
                   for y in evs if y[0] in ("push", "insert", "known"))
    for pat, kind in KINDS.items():
        if pat[1] == "e":
            ok = False
            for ev in it:
                if ev[0] != "loop":
                    continue
                idx = None
                cont = None
                for p in ev[2]:
                    for y in p:
                        if y[0] in ("push", "insert", "known"):
                            k = kind_of(y[2], x)
                            if k is not None and k[0] == pat:
                                idx, cont = k[1][0], k[2]
                if idx is None:
                    continue
                mine = lambda v: (kind_of(v, x) or ((),))[0] == pat and kind_of(v, x)[1][0] == idx
                ok = W.full(ev, idx, lambda s: I.size(s, I.read(s, cont))) and all(handled(p, mine) for p in ev[2])
                if ok:
                    break
            yield kind, ok, "not all transitions of that kind lead to states to visit"
        else:
            has = [y[2] for y in it if y[0] == "has" and y[1][1] == ("d", x) and short(y[1][2][-1]) == pat[0]]
            if has and not has[0]:
                yield kind, True, ""
                continue
            mine = lambda v: (kind_of(v, x) or ((),))[0] == pat
            yield kind, bool(has) and handled(it, mine), "its destination is not visited"


# ------------------------------------------------------------------ subset construction
def h_closure(I, st, e, cx, obj, args):
    return [(st, ("o", "closure", as_num(I.val(st, args[0]))))]


def h_new_state(I, st, e, cx, obj, args):
    k = canon(I.val(st, args[0]))
    st.emit("newstate", k, addr(obj))
    return [(st, atom(("dfa state", k)))]


def h_trans(I, st, e, cx, obj, args):
    st.emit("trans", addr(obj), as_num(I.val(st, args[0])), as_num(I.val(st, args[1])))
    return [(st, ("o", "void"))]


BUILD = {P + "Lexer::epsilon_closure": h_closure, DFA + "::new_state": h_new_state, DSTATE + "::add_byte_transition": h_trans}


def nests(it, want):
    """(enclosing loop events with the index of the path taken, event, path) of every event of a kind on a path."""
    out = []

    def go(evs, loops):
        for ev in evs:
            if ev[0] == want:
                out.append((loops, ev, evs))
            elif ev[0] == "loop":
                for p in ev[2]:
                    go(p, loops + [ev])
    go(it, [])
    return out


def place(v):
    """(container place, round-loop id, selectors) of a part of a container as some loop left it."""
    v = canon(v)
    sels = ()
    while v[:2] == ("o", "sel"):
        sels = v[3] + sels
        v = v[2]
    if v[:2] == ("o", "fr"):
        return v[3], v[2], sels
    return None, None, ()


def element_of(v, S):
    """Index i when v is the i-th element of the set S taken from the work list."""
    v = canon(v)
    if v[:2] == ("o", "sel") and canon(v[2]) == S and len(v[3]) == 1 and v[3][0][0] == "e":
        return v[3][0][1]
    root, sels = members(v)
    if root is not None and root[0] == "obj" and str(root[1]).startswith("item:") and len(sels) == 1 and sels[0][0] == "e":
        return sels[0][1]
    return None


def subsets(ctx):
    for f in [x for x in ctx.m.fns(P + "Lexer::nfa_to_dfa") if "UTF8" not in x["clst"]]:
        subsets_of(ctx, f)


def subsets_of(ctx, f):
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("subsets", key, w, ok, d)
    W = Work(ctx, "obj")
    I = W.interp(BUILD)
    root = I.read(State(), at(L(("obj", "nfa")), fld(ctx, nfa_t(ctx), "m_root")), "T*")
    outs = ctx.run(I, f, args=[("ref", L(("obj", "nfa")))])
    R("an automaton is always returned", outs and not I.throws, "some path fails")
    first = ("o", "closure", root)
    for s, v in outs:
        evs = indexed(s.events)
        i, ev = work_loop(evs)
        R("sets of states are expanded", ev is not None, "no loop takes sets to expand")
        if ev is None:
            continue
        work = next(x for it in ev[2] for x in it if x[0] == "take")[1]
        S = ("o", "taken", work)
        R("the construction ends with no set left", W.drained(I, ev, work), "the loop can end with sets left in " + name(work))
        R("the construction is not left early", not any(x[0] in ("take", "newstate") for x in evs[i + 1:]), "returns while expanding a set")
        before = evs[:i]
        made = [x for x in flat(before) if x[0] == "newstate"]
        R("the first state is the closure of the root", len(made) == 1 and made[0][1] == first,
          "the first state is %s" % (show(made[0][1])[:100] if made else "missing"))
        maps = {x[1] for x in flat(evs) if x[0] == "reg"}
        R("one table of states", len(maps) == 1, "%d tables" % len(maps))
        if len(maps) != 1 or not made:
            continue
        T = maps.pop()
        dfa = made[0][2]
        R("the automaton built is returned", all(x[2] == dfa for x in flat(evs) if x[0] == "newstate") and as_num(I.val(s, v)) == dfa,
          "returns %s" % show(v)[:80])
        new_states(R, before, T, work, True)
        R("rounds are found", ev[2], "no round")
        for it in ev[2]:
            taken = [y for y in it if y[0] == "take"]
            R("every round expands a set", taken and any(y[0] == "pop" for y in it), "a round expands nothing")
            new_states(R, it, T, work, False)
            unions = nests(it, "union")
            target = None
            for loops, u, path_ in unions:
                t = one_union(R, W, I, it, loops, u, S)
                if t is not None:
                    target = t
            R("the closures of all transitions are united", target is not None, "a round does not look at the set's transitions")
            if target is None:
                continue
            transitions(R, W, I, it, target, T, S)


def new_states(R, evs, T, work, first):
    """Every state made is new, is registered under its set, and its set is going to be expanded."""
    def go(p):
        for j, y in enumerate(p):
            if y[0] == "loop":
                for q in y[2]:
                    go(q)
            if y[0] != "newstate":
                continue
            K = y[1]
            R("a state is made only for a new set", first or any(z[0] == "known" and z[1] == T and z[2] == K and not z[3] for z in p[:j]),
              "a second state can be made for the same set")
            R("a new state is registered under its set", any(z[0] == "reg" and z[1] == T and z[2] == K and
              canon_state(z[3]) == K for z in p[j:]), "a new state is not found again")
            R("the set of a new state is expanded", any(z[0] == "push" and z[1] == work and z[2] == K for z in p),
              "a new state gets no transitions")
        regs = [z for z in p if z[0] == "reg" and canon_state(z[3]) != z[2]]
        R("a set is registered with its own state", not regs, "a set is registered with another state")
        for z in p:
            if z[0] == "push" and z[1] == work:
                R("only sets with a state are expanded", any(q[0] == "newstate" and q[1] == z[2] for q in p), "queues a set without a state")
    go(evs)


def canon_state(v):
    v = as_num(v)
    if v[1] == 0 and len(v[2]) == 1 and v[2][0][0][0] == "dfa state":
        return v[2][0][0][1]
    return None


def nfa_t(ctx):
    return byte_fn(ctx, NF + "::get_root")["clst"]


def one_union(R, W, I, it, loops, u, S):
    """A union inside the round's loops covers every state of the set, every byte, and every transition; (table, loops)."""
    key = "each set of targets is the union of the closures"
    v = u[2]
    if v[:2] != ("o", "closure"):
        R(key, False, "unites %s" % show(v)[:120])
        return None
    r, sels = members(v[2])
    names = [short(z) for z in sels]
    if r is None or r[0] != "d" or len(sels) != 3 or names[0] != "m_bytes_transitions":
        R(key, False, "unites the closure of %s" % show(v[2])[:120])
        return None
    i = element_of(r[1], S)
    b, j = sels[1][1], sels[2][1]
    if i is None:
        R(key, False, "follows transitions of %s" % show(r[1])[:120])
        return None
    tloc = ("L", r, sels[:2])
    size = {i: lambda s: I.size(s, S), b: lambda s: num(BYTES), j: lambda s: I.size(s, I.read(s, tloc))}
    what = {i: "states of a set", b: "bytes", j: "transitions of a byte"}
    left = dict(size)
    ok = True
    for k, lp in enumerate(loops):
        idx = next((x for x in left if W.full(lp, x, left[x])), None)
        if idx is None:
            continue
        del left[idx]
        inner = loops[k + 1] if k + 1 < len(loops) else u
        for p in lp[2]:
            if not any(z == inner or (z[0] == "loop" == inner[0] and z[1] == inner[1]) for z in p) and not any(
                    z[0] == "isempty" and z[1] == tloc and z[3] for z in p):
                ok = False
    for x in left:
        R("all %s are looked at" % what[x], False, "the loop does not run over all %s" % what[x])
    R("no transition is skipped", ok, "on some path a transition is left out")
    if left:
        return None
    return u[1], loops, b


def transitions(R, W, I, it, target, T, S):
    loc, loops, b = target
    table, keys = (loc, ())
    if loc[2] and loc[2][-1] == ("e", b):
        table = ("L", loc[1], loc[2][:-1])
    outer = next((lp for lp in loops if any(h[:2] == ("o", "fr") and h[3] == table for h, _ in lp[4])), None)
    if outer is None:
        R("the targets of a round are its own", False, "the sets of targets are not tracked")
        return
    v0 = next(v for h, v in outer[4] if h[:2] == ("o", "fr") and h[3] == table)
    R("the targets of a round are its own", v0 == ("o", "vec", ()) or v0[:2] in (("o", "fill"), ("o", "zero"), ("o", "undef")),
      "the sets of targets still hold those of another round")
    got = nests(it, "trans")
    R("the transitions are added", got, "no transition is added")
    for lps, tr, p in got:
        D, byte, dest = tr[1:]
        R("the transitions lead from the state of the set", W.mapped(D) == (T, S), "adds them to %s" % show(D)[:100])
        K = canon_state(dest)
        if K is not None:
            R("the target is the state of the set of targets", any(z[0] == "newstate" and z[1] == K for z in p), "leads to %s" % show(dest)[:100])
        else:
            m = W.mapped(dest)
            R("the target is the state of the set of targets", m is not None and m[0] == T and any(
                z[0] in ("known", "reg") and z[1] == T and z[2] == m[1] and (z[0] == "reg" or z[3]) for z in p),
              "leads to %s" % show(dest)[:100])
            if m is None:
                continue
            K = m[1]
        pl, lid, sels = place(K)
        R("the target is a set of this round", pl is not None and pl[:2] == table[:2] and lid == outer[1],
          "leads to the state of %s" % show(K)[:100])
        if pl is None:
            continue
        lp = lps[-1] if lps else None
        if lp is None:
            R("every byte gets its transition", False, "only one transition is added")
            continue
        names = [short(z) for z in sels]
        if names == ["e", "second"]:
            k = sels[0][1]
            bp, bl, bs = place(byte)
            R("each byte leads to its own set", bp == pl and bl == lid and [short(z) for z in bs] == ["e", "first"] and bs[0] == sels[0],
              "byte %s leads to the set of another byte" % show(byte)[:80])
            R("every byte gets its transition", W.full(lp, k, lambda s: I.size(s, ("o", "fr", lid, table))) and
              all(any(z[0] == "trans" for z in q) for q in lp[2]), "some sets of targets get no transition")
        elif names == ["e"] or (not names and pl == table):
            k = sels[0][1] if sels else b
            R("each byte leads to its own set", byte == k, "byte %s leads to the set of another byte" % show(byte)[:80])
            R("every byte gets its transition", W.full(lp, k, lambda s: num(BYTES)) and all(
                any(z[0] == "trans" for z in q) or any(z[0] == "isempty" and z[3] and z[2] == K for z in q) for q in lp[2]),
              "some sets of targets get no transition")
            R("a byte without targets has no transition", all(
                any(z[0] == "isempty" and not z[3] and z[2] == K for z in q) for q in lp[2] if any(z[0] == "trans" for z in q)),
              "an empty set of targets becomes a state")
        else:
            R("each byte leads to its own set", False, "leads to %s" % show(K)[:100])


# ------------------------------------------------------------------ tables of the automaton
def dstate_t(ctx):
    return byte_fn(ctx, DSTATE + "::next")["clst"]


def dfa_fn(ctx, q, nparams=None):
    """The instance of a member of the automaton for byte states."""
    fs = [f for f in ctx.m.fns(q) if "UTF8" not in f.get("clst", "") and "UTF8" not in f.get("t", "")
          and (nparams is None or len(f["params"]) == nparams)]
    ctx.need(fs, "%s not found" % q)
    return fs[0]


def ids_of(I, s, p, ctx):
    return elems_of(I.read(s, at(deref(p), fld(ctx, dstate_t(ctx), "m_matching_variable_ids"))))


def elems_of(v):
    if v[0] == "o" and v[1] == "vec":
        return list(v[2])
    if v[0] == "o" and v[1] in ("push", "ins"):
        b = elems_of(v[2])
        return None if b is None else b + [v[3]]
    return None


def listed(*xs):
    return ("o", "vec", tuple(xs))


def tables(ctx):
    st_t = byte_fn(ctx, STATE + "::get_epsilon_transitions")["clst"]
    acc, mid = fld(ctx, st_t, "m_accepting"), fld(ctx, st_t, "m_matching_variable_id")
    # a state of the automaton carries the variables of the accepting states in its set
    f = dfa_fn(ctx, DFA + "::new_state")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("tables", key, w, ok, d)
    for n in range(4):
        I = ctx.interp()
        I.unroll = 8
        st = State()
        xs = [sym("state%d" % i) for i in range(n)]
        arg = L(("obj", "set"))
        st.store[arg] = listed(*xs)
        for i in range(n):
            for j in range(i):
                st.facts.assume(sub(xs[i], xs[j]), "!=")
        states = at(L(THIS), fld(ctx, f["clst"], "m_states"))
        before = I.read(st, states)
        flags = [as_num(I.read(st, at(deref(x), acc), "bool")) for x in xs]
        ids = [as_num(I.read(st, at(deref(x), mid), "unsigned int")) for x in xs]
        outs = ctx.run(I, f, st=st, args=[("ref", arg)])
        R("a state is made", outs and not I.throws, "some path fails")
        for s, v in outs:
            p = as_num(I.val(s, v))
            got = ids_of(I, s, p, ctx)
            tr = [truth(s, b) for b in flags]
            R("acceptance decided", None not in tr, "accepting states are not all looked at")
            want = [i for i, b in zip(ids, tr) if b]
            R("a state carries exactly the variables of its set", got is not None and sorted(map(repr, map(as_num, got))) == sorted(map(repr, want)),
              "with %d accepting states the ids are %s" % (len(want), "?" if got is None else ", ".join(show(x) for x in got)))
            now = I.read(s, states)
            R("a new state is owned by the automaton", now[:2] == ("o", "push") and now[2] == before and as_num(now[3]) == p,
              "the automaton's states are %s" % show(now)[:100])
    accepting(ctx)
    nexts(ctx)
    root_of(ctx)
    generate(ctx)


def accepting(ctx):
    f = dfa_fn(ctx, DSTATE + "::is_accepting")
    w = ctx.where(f)
    I = ctx.interp()
    st = State()
    ids = I.read(st, at(L(THIS), fld(ctx, f["clst"], "m_matching_variable_ids")))
    n = I.size(st, ids)
    for s, v in ctx.run(I, f, st=st):
        for s1, b in I.split(s, as_num(I.val(s, v))):
            ok = s1.facts.lower(sub(n, ONE)) >= 0 if b else s1.facts.is_zero(n)
            ctx.check("tables", "a state accepts exactly when it has variables", w, ok, "%s with %s variables" % (
                "accepts" if b else "does not accept", show(n)))
    f = dfa_fn(ctx, DSTATE + "::get_matching_variable_ids")
    I = ctx.interp()
    st = State()
    want = at(L(THIS), fld(ctx, f["clst"], "m_matching_variable_ids"))
    for s, v in ctx.run(I, f, st=st):
        ctx.check("tables", "the variables of a state are returned", ctx.where(f), v == ("ref", want) or I.val(s, v) == I.read(s, want),
                  "returns %s" % show(I.val(s, v))[:80])
    f = dfa_fn(ctx, DSTATE + "::add_matching_variable_id")
    I = ctx.interp()
    st = State()
    before = I.read(st, want)
    x = sym("id")
    for s, v in ctx.run(I, f, st=st, args=[x]):
        now = I.read(s, want)
        ctx.check("tables", "a variable is added to a state", ctx.where(f), now[:2] == ("o", "push") and now[2] == before and now[3] == x,
                  "the variables are %s" % show(now)[:80])


def nexts(ctx):
    tab = fld(ctx, dstate_t(ctx), "m_bytes_transition")
    f = dfa_fn(ctx, DSTATE + "::next")
    w = ctx.where(f)
    I = ctx.interp()
    st = State()
    c = sym("byte")
    st.facts.assume(c, ">=")
    st.facts.assume(sub(c, num(BYTES)), "<")
    slot = at(L(THIS), tab)
    want = as_num(I.read(st, at(slot, ("e", c)), "T *"))
    outs = ctx.run(I, f, st=st, args=[c])
    ctx.check("tables", "every byte has a next state", w, outs and not I.throws, "some path fails")
    for s, v in outs:
        ctx.check("tables", "the next state is the one of the byte", w, same(s, as_num(I.val(s, v)), want),
                  "next(byte) is %s" % show(I.val(s, v))[:100])
    f = dfa_fn(ctx, DSTATE + "::add_byte_transition")
    w = ctx.where(f)
    I = ctx.interp()
    st = State()
    c, d, other = sym("byte"), sym("dest"), sym("other")
    for x in (c, other):
        st.facts.assume(x, ">=")
        st.facts.assume(sub(x, num(BYTES)), "<")
    st.facts.assume(sub(c, other), "!=")
    o0 = I.read(st, at(slot, ("e", other)), "T *")
    outs = ctx.run(I, f, st=st, args=[c, d])
    ctx.check("tables", "every byte can get a transition", w, outs and not I.throws, "some path fails")
    for s, v in outs:
        ctx.check("tables", "the byte leads to its target", w, as_num(I.read(s, at(slot, ("e", c)), "T *")) == d,
                  "leads to %s" % show(I.read(s, at(slot, ("e", c)), "T *"))[:80])
    writes = {k for s, _ in outs for k in s.store if k[1] == THIS}
    ctx.check("tables", "other bytes keep their targets", w, writes <= {at(slot, ("e", c))}, "also writes %s" % sorted(map(str, writes)))
    # a new state has no transitions
    f = dfa_fn(ctx, DFA + "::new_state")
    I = ctx.interp()
    I.unroll = 8
    st = State()
    arg = L(("obj", "set"))
    st.store[arg] = listed()
    for s, v in ctx.run(I, f, st=st, args=[("ref", arg)]):
        x = I.read(s, at(deref(as_num(I.val(s, v))), tab, ("e", c)), "T *")
        ctx.check("tables", "a new state has no transitions", ctx.where(f), as_num(x) == ZERO, "a new state's transitions are %s" % show(x)[:80])


def root_of(ctx):
    f = dfa_fn(ctx, DFA + "::get_root")
    I = ctx.interp()
    st = State()
    states = at(L(THIS), fld(ctx, f["clst"], "m_states"))
    st.facts.assume(sub(I.size(st, I.read(st, states)), ONE), ">=")
    want = as_num(I.read(st, at(states, ("e", ZERO)), "std::unique_ptr<T>"))
    outs = ctx.run(I, f, st=st)
    for s, v in outs:
        ctx.check("tables", "the root is the first state made", ctx.where(f), as_num(I.val(s, v)) == want, "the root is %s" % show(I.val(s, v))[:80])


def generate(ctx):
    f = dfa_fn(ctx, P + "Lexer::generate")
    w = ctx.where(f)
    tab = fld(ctx, dstate_t(ctx), "m_bytes_transition")
    first = fld(ctx, f["clst"], "m_is_first_char")
    R = lambda key, ok, d: ctx.check("tables", key, w, ok, d)
    root = sym("root")

    def h_nfa(I, st, e, cx, obj, args):
        st.emit("rules", I.val(st, args[0]))
        return [(st, ("o", "void"))]

    def h_build(I, st, e, cx, obj, args):
        st.emit("built", addr(args[0][1]) if args[0][0] == "ref" else None)
        return [(st, sym("dfa"))]

    def h_root(I, st, e, cx, obj, args):
        R("the table of first characters is that of the automaton built", addr(obj) == sym("dfa"), "looks at the root of %s" % show(addr(obj))[:80])
        return [(st, root)]

    def on_write(st, loc, v, node, cx):
        if loc[1] == THIS and loc[2][:1] == (first,):
            if len(loc[2]) != 2:
                st.emit("first", None, False)
                return
            i = loc[2][1][1]
            ok = True
            nx = as_num(I.read(st, at(deref(root), tab, ("e", i)), "T *"))
            for s, b in I.split(st.copy(), nx):
                ok = ok and truth(s, as_num(v)) is b
            st.emit("first", i, ok)
    W = Work(ctx, "ptr")
    I = W.interp({NF + "::<ctor>": h_nfa, P + "Lexer::nfa_to_dfa": h_build, DFA + "::get_root": h_root})
    I.on_write = on_write
    st = State()
    rules = I.read(st, at(L(THIS), fld(ctx, f["clst"], "m_rules")))
    outs = ctx.run(I, f, st=st)
    R("the automaton is generated", outs and not I.throws, "some path fails")
    for s, v in outs:
        evs = indexed(s.events)
        R("the NFA is that of the lexer's rules", [x[1] for x in evs if x[0] == "rules"] == [rules], "the NFA is not made from all rules")
        R("the automaton is built from the NFA", len([x for x in evs if x[0] == "built"]) == 1, "no automaton is built")
        R("the lexer keeps the automaton", as_num(I.read(s, at(L(THIS), fld(ctx, f["clst"], "m_dfa")), "T *")) == sym("dfa"), "the automaton is dropped")
        loops = [x for x in evs if x[0] == "loop" and any(y[0] == "first" for p in x[2] for y in p)]
        last = None
        for lp in loops:
            idx = {y[1] for p in lp[2] for y in p if y[0] == "first"}
            ok = len(idx) == 1 and None not in idx and W.full(lp, next(iter(idx)), lambda s: num(BYTES))
            ok = ok and all([y[2] for y in p if y[0] == "first"][-1:] == [True] for p in lp[2])
            last = ok
        after = [x for x in evs[evs.index(loops[-1]) + 1:] if x[0] == "first"] if loops else []
        R("a first character is one with a transition from the root", bool(last) and not after,
          "not every byte's entry says whether the root has a transition for it")


# ------------------------------------------------------------------ C17: the order of the matching variables
def rule17(ctx):
    order(ctx)


def order(ctx):
    """The NFA is built from three rules, each with any pattern, and a set of its states is made a state of the automaton."""
    from itertools import permutations
    st_t = byte_fn(ctx, STATE + "::get_epsilon_transitions")["clst"]
    ctor = [x for x in ctx.m.fns(NF + "::<ctor>") if "UTF8" not in x["clst"] and len(x["params"]) == 1
            and not x.get("copyctor") and not x.get("movector")]
    ctx.need(ctor, "constructor of the NFA not found")
    ctor = ctor[0]
    make = dfa_fn(ctx, DFA + "::new_state")
    w = ctx.where(make)
    R = lambda key, ok, d: ctx.check("order", key, w, ok, d)
    states = fld(ctx, ctor["clst"], "m_states")
    acc, mid = fld(ctx, st_t, "m_accepting"), fld(ctx, st_t, "m_matching_variable_id")
    lr = dfa_fn(ctx, P + "LexicalRule::add_to_nfa")
    vid, rx = fld(ctx, lr["clst"], "m_variable_id"), fld(ctx, lr["clst"], "m_regex")
    nfa = L(("obj", "nfa"))
    new = byte_fn(ctx, NF + "::new_state")

    for many in (0, 1):
        # patterns add any number of states of their own; here none or one, made like the rule's own state
        def pattern(I, st, e, cx, obj, args):
            outs = [st]
            for _ in range(many):
                outs = [s2 for s in outs for s2, _ in I.invoke(s, new, nfa, [], cx)]
            return [(s, ("o", "void")) for s in outs]
        I = ctx.interp({AST + "::add_to_nfa_with_negative_tags": pattern, AST + "::add_to_nfa": pattern})
        I.unroll = 16
        I.unroll_fork = 8
        st = State()
        rules = L(("obj", "rules"))
        ids = [sym("id%d" % i) for i in range(3)]
        st.store[rules] = listed(*[("upd", ("o", "rule", i), (((vid,), ids[i]), ((rx,), sym("regex%d" % i)))) for i in range(3)])
        st.cls[("obj", "nfa")] = NF
        outs = ctx.run(I, ctor, st=st, args=[("ref", rules)], this=nfa)
        R("an NFA is built", outs and not I.throws, "some path fails")
        for s, _ in outs:
            sts = elems_of(I.read(s, at(nfa, states)))
            R("the states of the NFA are known", sts is not None, "the NFA's states are %s" % show(I.read(s, at(nfa, states)))[:100])
            if sts is None:
                continue
            final = {}
            for p in map(as_num, sts):
                if truth(s, as_num(I.read(s, at(deref(p), acc), "bool"))):
                    final[as_num(I.read(s, at(deref(p), mid), "unsigned int"))] = p
            R("each rule has its accepting state", set(final) == set(ids), "accepting states have the ids %s" % ", ".join(map(show, final)))
            if set(final) != set(ids):
                continue
            root = as_num(sts[0])
            for k in (2, 3):
                for chosen in permutations(range(3), k):
                    want = [ids[i] for i in sorted(chosen)]
                    s1 = s.copy()
                    arg = L(("obj", "set"))
                    s1.store[arg] = listed(root, *[final[ids[i]] for i in chosen])
                    s1.cls[("obj", "dfa")] = DFA
                    res = ctx.run(I, make, st=s1, args=[("ref", arg)], this=L(("obj", "dfa")))
                    R("a state is made", res and not I.throws, "some path fails")
                    for s2, v in res:
                        got = ids_of(I, s2, as_num(I.val(s2, v)), ctx)
                        got = None if got is None else [as_num(x) for x in got]
                        R("variables are listed in the order of their rules", got == want,
                          "with the accepting states at addresses in the order %s of their rules, the variables are listed in the order %s" % (
                              [i + 1 for i in chosen], "?" if got is None else [ids.index(x) + 1 if x in ids else "?" for x in got]))


# ------------------------------------------------------------------ C31: the intersection of two automata
def rule31(ctx):
    successors(ctx)
    intersect(ctx)
    pair_order(ctx)


def pair_of(v):
    """The two states of a pair of states."""
    v = canon(v)
    if v[:2] == ("o", "made") and len(v) == 4:
        return as_num(v[2]), as_num(v[3])
    if v[:2] == ("o", "new") and len(v[3]) == 2:
        return as_num(v[3][0]), as_num(v[3][1])
    if v[0] == "upd":
        m = {short(s[0]): x for s, x in v[2] if len(s) == 1 and s[0][0] == "f"}
        if set(m) == {"m_state1", "m_state2"}:
            return as_num(m["m_state1"]), as_num(m["m_state2"])
    return None


def successors(ctx):
    f = dfa_fn(ctx, PAIR + "::get_reachable_pairs")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("successors", key, w, ok, d)
    W = Work(ctx, "obj")
    n = [0]

    def h_next(I, st, e, cx, obj, args):
        p, i = addr(obj), as_num(I.val(st, args[0]))
        for ev in reversed(st.events):
            if ev[0] == "next" and ev[1] == p and ev[2] == i:
                return [(st, atom(("next", p, i)) if ev[3] else ZERO)]
        other = st.copy()
        st.emit("next", p, i, True)
        other.emit("next", p, i, False)
        t = atom(("next", p, i))
        st.facts.assume(sub(t, ONE), ">=")
        return [(st, t), (other, ZERO)]
    I = W.interp({DSTATE + "::next": h_next})
    st = State()
    s1 = as_num(I.read(st, at(L(THIS), fld(ctx, f["clst"], "m_state1")), "T *"))
    s2 = as_num(I.read(st, at(L(THIS), fld(ctx, f["clst"], "m_state2")), "T *"))
    vis, unv = L(("obj", "visited")), L(("obj", "unvisited"))
    outs = ctx.run(I, f, st=st, args=[("ref", vis), ("ref", unv)])
    R("the successors are always found", outs and not I.throws, "some path fails")
    for s, _ in outs:
        evs = indexed(s.events)
        loops = [x for x in evs if x[0] == "loop" and any(y[0] == "next" for p in x[2] for y in p)]
        R("the successors are looked for once", len(loops) == 1 and not any(x[0] in ("next", "insert") for x in evs), "%d loops" % len(loops))
        if len(loops) != 1:
            continue
        lp = loops[0]
        idx = {y[2] for p in lp[2] for y in p if y[0] == "next"}
        R("both states look at the same byte", len(idx) == 1, "they look at %s" % ", ".join(map(show, sorted(idx, key=repr))))
        if len(idx) != 1:
            continue
        i = idx.pop()
        R("every byte is looked at", W.full(lp, i, lambda s: num(BYTES)), "not all bytes are looked at")
        want = (atom(("next", s1, i)), atom(("next", s2, i)))
        for p in lp[2]:
            has = {y[1]: y[3] for y in p if y[0] == "next"}
            ins = [y for y in p if y[0] == "insert"]
            if has.get(s1) and has.get(s2):
                old = any(y[0] == "known" and y[1] == vis and pair_of(y[2]) == want and y[3] for y in p)
                new = any(y[1] == unv and pair_of(y[2]) == want for y in ins)
                R("a pair both automata can move to is kept", new or old, "on a byte with transitions in both automata no pair is added")
                if not old:
                    R("a pair is added only when it has not been visited", any(
                        y[0] == "known" and y[1] == vis and pair_of(y[2]) == want and not y[3] for y in p), "visited pairs are added again")
            R("a pair is looked at only when both automata can move", bool(has.get(s1) and has.get(s2)) or False in has.values(),
              "the pair is decided without both transitions")
            R("only pairs both automata can move to are added", all(y[1] == unv and pair_of(y[2]) == want for y in ins) and
              (not ins or bool(has.get(s1) and has.get(s2))), "adds another pair")


def intersect(ctx):
    f = dfa_fn(ctx, DFA + "::get_intersect")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("intersect", key, w, ok, d)
    W = Work(ctx, "obj")
    ids = fld(ctx, dstate_t(ctx), "m_matching_variable_ids")
    pt = dfa_fn(ctx, PAIR + "::is_accepting")["clst"]
    m1, m2 = fld(ctx, pt, "m_state1"), fld(ctx, pt, "m_state2")

    def h_begin(I, st, e, cx, obj, args):
        if obj is None or "RegexDFAStatePair" not in e.get("t", "") or not W.local(obj):
            return None
        r = W.h_take(I, st, e, cx, obj, args)
        return None if r is None else [(s, addr(v[1])) for s, v in r]

    def h_accepting(I, st, e, cx, obj, args):
        p = addr(obj)
        for ev in reversed(st.events):
            if ev[0] == "accepting" and ev[1] == p:
                return [(st, num(1 if ev[2] else 0))]
        other = st.copy()
        st.emit("accepting", p, True)
        other.emit("accepting", p, False)
        return [(st, ONE), (other, ZERO)]

    def h_root(I, st, e, cx, obj, args):
        return [(st, atom(("root of", addr(obj))))]

    def h_expand(I, st, e, cx, obj, args):
        st.emit("expand", canon(I.read(st, obj)), args[0][1] if args[0][0] == "ref" else None, args[1][1] if args[1][0] == "ref" else None)
        if args[1][0] == "ref":
            W.touch(I, st, args[1][1], ("o", "successors"), e, cx)
        return [(st, ("o", "void"))]
    hk = {c + n: h_begin for c in SETS for n in ("begin", "cbegin")}
    hk.update({DSTATE + "::is_accepting": h_accepting, DFA + "::get_root": h_root, PAIR + "::get_reachable_pairs": h_expand})
    I = W.interp(hk)
    st = State()
    other = sym("other")
    arg = L(("obj", "arg"))
    st.store[arg] = other
    outs = ctx.run(I, f, st=st, args=[("ref", arg)])
    R("the shared variables are always found", outs and not I.throws, "some path fails")
    first = (atom(("root of", addr(L(THIS)))), atom(("root of", other)))
    for s, v in outs:
        evs = indexed(s.events)
        i, ev = work_loop(evs)
        R("pairs are expanded", ev is not None, "no loop takes pairs to expand")
        if ev is None:
            continue
        work = next(x for it in ev[2] for x in it if x[0] == "take")[1]
        T = ("o", "taken", work)
        R("the search ends with no pair left", W.drained(I, ev, work), "the loop can end with pairs left in " + name(work))
        R("the search is not left early", not any(x[0] in ("take", "union", "expand") for x in evs[i + 1:]), "returns while expanding a pair")
        start = [pair_of(x[2]) for x in flat(evs[:i]) if x[0] in ("push", "insert") and x[1] == work]
        R("the search starts from the two roots", start == [first], "starts with %d pairs%s" % (
            len(start), " (%s, %s)" % tuple(map(show, start[0])) if start and start[0] else ""))
        evs = evs[:i] + (ev[:2] + (tuple(element_wise(W, I, it) for it in ev[2]),) + ev[3:],) + evs[i + 1:]
        ev = evs[i]
        results = {x[1] for x in flat(evs) if x[0] == "union"}
        R("one set of variables is collected", len(results) == 1, "%d sets" % len(results))
        if len(results) != 1:
            continue
        res = results.pop()
        init = next((v0 for h, v0 in ev[4] if h[:2] == ("o", "fr") and h[3] == res), None)
        R("the variables found are returned", canon(I.val(s, v))[:2] == ("o", "fr") and canon(I.val(s, v))[2:] == (ev[1], res), "returns %s" % show(I.val(s, v))[:80])
        R("only variables found are returned", init == ("o", "vec", ()), "the set starts with %s" % (show(init)[:80] if init else "?"))
        R("rounds are found", ev[2], "no round")
        for it in ev[2]:
            R("every round takes a pair away", any(y[0] == "take" for y in it) and any(y[0] == "pop" and y[1] == work for y in it), "a pair is not taken away")
            ex = [y for y in flat(it) if y[0] == "expand"]
            R("every pair taken is expanded", len(ex) == 1 and ex[0][1] == T and ex[0][3] == work, "on some path a pair's successors are not added")
            if ex:
                R("every pair taken is remembered", any(y[0] == "insert" and y[1] == ex[0][2] and y[2] == T for y in it), "a pair taken is not remembered as visited")
            acc = {}
            for y in it:
                if y[0] == "accepting":
                    k = repr(y[1])
                    acc["1" if m1[1] in k and m2[1] not in k else "2" if m2[1] in k and m1[1] not in k else "?"] = y[2]
            both = acc.get("1") and acc.get("2")
            R("a pair is judged by both states", bool(both) or False in acc.values(), "acceptance is not decided by the two states")
            un = [y for y in flat(it) if y[0] == "union"]
            if both:
                ok = len(un) >= 1 and all(u[1] == res for u in un) and any(m1[1] in repr(u[2]) and m2[1] not in repr(u[2]) and ids[1] in repr(u[2]) and
                                                                           "part" not in u[2][:2] for u in un)
                R("an accepting pair's variables are collected", ok, "the first state's variables are not collected")
            R("nothing else is collected", (bool(both) and all(m1[1] in repr(u[2]) for u in un)) or not un, "collects variables of a pair that does not accept")


def element_wise(W, I, evs):
    """Loops that insert every element of a container stand for the union with that container."""
    out = []
    for ev in evs:
        if ev[0] == "loop" and ev[2]:
            ins = [[x for x in p if x[0] not in ("known", "isempty")] for p in ev[2]]
            one = {(x[1], x[2]) for p in ins for x in p if x[0] == "insert"}
            if len(one) == 1 and all(len(p) == 1 and p[0][0] == "insert" for p in ins):
                dest, v = next(iter(one))
                root, sels = members(v)
                if root is not None and sels and sels[-1][0] == "e":
                    cont = ("L", root, sels[:-1])
                    if W.full(ev, as_num(sels[-1][1]), lambda s: I.size(s, I.read(s, cont))):
                        out.append(("union", dest, ("o", "in", cont)))
                        continue
        out.append(ev)
    return tuple(out)


def pair_order(ctx):
    """Sets of pairs tell any two different pairs apart: the order is total over both states."""
    f = dfa_fn(ctx, PAIR + "::operator<")
    w = ctx.where(f)
    m1, m2 = fld(ctx, f["clst"], "m_state1"), fld(ctx, f["clst"], "m_state2")
    A, B = L(("obj", "a")), L(("obj", "b"))
    a1, a2, b1, b2 = (sym(x) for x in ("a1", "a2", "b1", "b2"))
    for r1 in ("<", "==", ">"):
        for r2 in ("<", "==", ">"):
            got = []
            for x, y in ((A, B), (B, A)):
                I = ctx.interp()
                st = State()
                for l, (p, q) in ((A, (a1, a2)), (B, (b1, b2))):
                    st.store[at(l, m1)], st.store[at(l, m2)] = p, q
                    st.cls[l[1]] = PAIR
                st.facts.assume(sub(a1, b1), r1)
                st.facts.assume(sub(a2, b2), r2)
                rs = {truth(s2, ONE if b else ZERO) for s, v in ctx.run(I, f, st=st, args=[("ref", y)], this=x)
                      for s2, b in I.split(s, as_num(I.val(s, v)))}
                got.append(rs)
            want = 0 if (r1, r2) == ("==", "==") else 1
            ok = all(len(g) == 1 for g in got) and sum(next(iter(g)) for g in got if len(g) == 1) == want
            ctx.check("pairs", "different pairs are ordered, equal ones are not", w, ok,
                      "pairs with first states %s and second states %s compare as %s" % (r1, r2, got))
