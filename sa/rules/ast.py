"""C14/C25/C13: copies of a pattern, its capture tags, and the visitors that run over it."""
from lib import *
from rules.nfa import byte_fn, fld, AST, covered, disjoint, shows, with_fact, unicode_max, possible, group_inputs

TAGS = "m_subtree_positive_tags"
NEG = "m_negative_tags"


def byte_records(ctx):
    """The concrete node classes of byte patterns."""
    base = [r for r in ctx.m.rec_by_t.values() if r["q"] == AST and "UTF8" not in r["t"]]
    ctx.need(base, "class RegexAST not found")
    out = [r for r in ctx.m.rec_by_t.values() if "UTF8" not in r["t"] and AST in r["bases"]]
    ctx.need(len(out) >= 5, "node classes of RegexAST not found")
    return base[0], sorted(out, key=lambda r: r["t"])


def is_node_ptr(t):
    return "unique_ptr" in t and "RegexAST" in t


def cloned(p):
    return atom(("cloned", p))


def h_clone(I, st, e, cx, obj, args):
    if cx.fn["id"] == "<root>":
        return None
    return [(st, cloned(addr(obj)))]


def h_loops(I, st, e, cx, obj, args):
    return [(st, I._bool(st, ("loops", addr(obj))))]


def parts(v):
    """The pieces a container term consists of, as a sorted list; None when unknown."""
    if v[0] != "o":
        return None
    if v[1] in ("joined",):
        a, b = parts(v[2]), parts(v[3])
        return None if a is None or b is None else sorted(a + b, key=repr)
    if v[1] == "push":
        a = parts(v[2])
        return None if a is None else sorted(a + [("one", v[3])], key=repr)
    if v[1] == "vec":
        return sorted([("one", x) for x in v[2]], key=repr)
    if v[1] == "in":
        return [("all", v)]
    return None


def show_parts(ps):
    return "unknown" if ps is None else ", ".join(("the tags of " if k == "all" else "") + show(v) for k, v in ps) or "none"


def tags_of(ctx, I, st, p, name, base):
    return I.read(st, at(deref(p), fld(ctx, base["t"], name)), "std::vector<T>")


def initial_tags(ctx, p, name, base):
    """The tags a node has when it is handed over."""
    l = at(deref(p), fld(ctx, base["t"], name))
    return ("o", "in", l)


# ------------------------------------------------------------------ copies
def rule14(ctx):
    base, recs = byte_records(ctx)
    for r in recs:
        name = r["q"].rsplit("::", 1)[-1]
        f = [x for x in ctx.m.fns(r["q"] + "::clone") if x["clst"] == r["t"]]
        if not f:
            ctx.check("clone", name + " can be copied", "", False, "%s has no clone of its own" % r["q"])
            continue
        f = f[0]
        w = ctx.where(f)
        I = ctx.interp({AST + "::clone": h_clone})
        res = ctx.run(I, f)
        ctx.check("clone", name + " copy is made", w, res, "no path of clone completes")
        for s, v in res:
            p = as_num(I.val(s, v))
            obj = deref(p)
            fresh = obj[1][0] == "h" and not obj[2]
            ctx.check("clone", name + " copy is a new object", w, fresh, "clone returns %s" % show(p))
            if not fresh:
                continue
            c = s.cls.get(obj[1], "")
            ctx.check("clone", name + " copy is of the same kind", w, c.split("<")[0] == r["q"],
                      "clone of %s makes a %s" % (name, c.split("::")[-1]))
            todo = [(fl, False) for fl in r["fields"]] + [(fl, True) for fl in base["fields"]]
            kids = {cloned(as_num(I.init_value(s, at(L(THIS), ("f", fl["q"])), fl["t"])))
                    for fl in r["fields"] if is_node_ptr(fl["t"])}
            for fl, of_base in todo:
                fn = fl["q"].rsplit("::", 1)[-1]
                sel = ("f", fl["q"])
                got = I.read(s, at(obj, sel), fl["t"])
                if got[0] == "o" and got[1] == "sel" and got[2] == ("o", "in", L(THIS)):
                    got = I.init_value(s, at(L(THIS), sel), fl["t"])
                old = I.init_value(s, at(L(THIS), sel), fl["t"])
                key = "%s.%s" % (name, fn)
                if is_node_ptr(fl["t"]):
                    ok = as_num(got) == cloned(as_num(old))
                    ctx.check("clone", key + " is a copy of the child", w, ok, "%s of the copy is %s" % (fn, show(got)))
                elif "unique_ptr" in fl["t"]:
                    q = deref(as_num(got))
                    ok = q[1][0] == "h" and not q[2]
                    src = I.read(s, deref(as_num(old)), None)
                    ok = ok and I.read(s, q, None) == src
                    ctx.check("clone", key + " is a copy", w, ok, "%s of the copy is %s" % (fn, show(got)))
                elif of_base and fn == TAGS:
                    bad = kids and contains(got, lambda x: x == at(L(THIS), sel))
                    ctx.check("clone", key + " belong to the copy", w, not bad,
                              "the tags of the copy are those of the original: %s" % show(got))
                elif of_base and fn == NEG:
                    ps = parts(got)
                    ok = got == old or ps == []
                    ctx.check("clone", key + " copied or left to the parent", w, ok, "%s of the copy is %s" % (fn, show(got)))
                else:
                    ctx.check("clone", key + " copied", w, same(s, got, old), "%s of the copy is %s" % (fn, show(got)))
            wr = [l for l in s.store if l[1] == THIS or (l[1][0] == "d" and not any(
                ("L",) + (("d", k),) == ("L", l[1]) or contains(l, lambda x: x == k) for k in kids))]
            ctx.check("clone", name + " leaves the original alone", w, not wr,
                      "clone changes %s" % "".join(show_loc(l) for l in wr[:1]))


# ------------------------------------------------------------------ tags
def ctors_of(ctx, r):
    return [f for f in ctx.m.fns(r["q"] + "::<ctor>") if f["clst"] == r["t"] and not f.get("copyctor")
            and not f.get("movector")]


def rule25(ctx):
    base, recs = byte_records(ctx)
    seen = 0
    for r in recs:
        name = r["q"].rsplit("::", 1)[-1]
        kids = [fl for fl in r["fields"] if is_node_ptr(fl["t"])]
        for f in ctors_of(ctx, r):
            if not kids and len(f["params"]) == 0:
                continue
            w = ctx.where(f)
            I = ctx.interp({AST + "::clone": h_clone, AST + "::may_loop_on_end_state": h_loops})
            st = State()
            args = []
            for i, p in enumerate(f["params"]):
                args.append(I.read(st, L(("obj", "arg%d" % i)), p["t"]))
            nodes = [as_num(v) for p, v in zip(f["params"], args) if is_node_ptr(p["t"])]
            if kids and not nodes:
                continue
            seen += 1
            key = name + "(%d)" % len(f["params"])
            res = ctx.run(I, f, st=st)
            ctx.check("tags", key + " completes", w, res or not kids, "no path of the constructor completes")
            for s, _ in res:
                got_kids = [as_num(I.read(s, at(L(THIS), ("f", fl["q"])), fl["t"])) for fl in kids]
                ctx.check("tags", key + " operands", w, got_kids == nodes, "the operands become %s" % ", ".join(
                    show(x) for x in got_kids))
                want = []
                for n in nodes:
                    want.append(("all", initial_tags(ctx, n, TAGS, base)))
                own = [fl for fl in r["fields"] if "unique_ptr" in fl["t"] and not is_node_ptr(fl["t"])]
                for fl in own:
                    want.append(("one", as_num(I.read(s, at(L(THIS), ("f", fl["q"])), fl["t"]))))
                got = I.read(s, at(L(THIS), fld(ctx, r["t"], TAGS)), "std::vector<T>")
                ps = parts(got)
                if not nodes and ps == [("all", ("o", "in", at(L(THIS), fld(ctx, r["t"], TAGS))))]:
                    ps = []
                ctx.check("tags", key + " tags of the subtree", w, ps == sorted(want, key=repr),
                          "the tags of the node are %s instead of %s" % (show_parts(ps), show_parts(want)))
                if own:
                    pi = [i for i, p in enumerate(f["params"]) if "unique_ptr" in p["t"] and not is_node_ptr(p["t"])]
                    ctx.check("tags", key + " own tag", w, [as_num(args[i]) for i in pi] == [want[-1][1]],
                              "the tag of the capture is %s" % show(want[-1][1]))
                is_or = name == "RegexASTOr"
                for i, n in enumerate(nodes):
                    neg = tags_of(ctx, I, s, n, NEG, base)
                    if is_or:
                        ok = parts(neg) == [("all", initial_tags(ctx, nodes[1 - i], TAGS, base))]
                        ctx.check("tags", key + " tags of the alternative not taken %d" % i, w, ok,
                                  "an alternative rules out %s" % show_parts(parts(neg)))
                    else:
                        ctx.check("tags", key + " rules out nothing %d" % i, w, neg == initial_tags(ctx, n, NEG, base) or
                                  parts(neg) == [], "the operand rules out %s" % show_parts(parts(neg)))
                    sub_ = tags_of(ctx, I, s, n, TAGS, base)
                    ctx.check("tags", key + " operand keeps its tags %d" % i, w, sub_ == initial_tags(ctx, n, TAGS, base),
                              "the tags of an operand become %s" % show(sub_))
    ctx.need(seen >= 4, "constructors of the operators not found")
    # nothing else changes the tags of a node
    allowed = {"<ctor>", "set_negative_tags", "set_subtree_positive_tags", "add_subtree_positive_tags", "operator="}
    names = {fld(ctx, base["t"], TAGS)[1], fld(ctx, base["t"], NEG)[1]}
    import writes
    for f in ctx.m.functions.values():
        last = f["q"].rsplit("::", 1)[-1]
        if f.get("body") is None:
            continue
        for n in calls_in(f["body"]):
            g = ctx.m.functions.get(n.get("fn"))
            if g is not None and g["q"].startswith(AST + "::") and g["q"].rsplit("::", 1)[-1] in (
                    "set_negative_tags", "set_subtree_positive_tags", "add_subtree_positive_tags"):
                own = f["q"].startswith(AST) and (last == "<ctor>" or last in allowed)
                ctx.check("tags", "call of %s in %s" % (g["q"].rsplit("::", 1)[-1], f["q"].rsplit("::", 2)[-2] + "::" + last),
                          ctx.where(f, n.get("l")), own, "%s changes the tags of a finished node" % f["q"])


def calls_in(n):
    if isinstance(n, dict):
        if n.get("k") == "call":
            yield n
        for v in n.values():
            yield from calls_in(v)
    elif isinstance(n, list):
        for v in n:
            yield from calls_in(v)


# ------------------------------------------------------------------ visitors
def visitor(ctx, name, label):
    """A visitor of an operator visits each operand once, with what it was given."""
    base, recs = byte_records(ctx)
    out = []
    for r in recs:
        kids = [fl for fl in r["fields"] if is_node_ptr(fl["t"])]
        f = [x for x in ctx.m.fns(r["q"] + "::" + name) if x["clst"] == r["t"]]
        nm = r["q"].rsplit("::", 1)[-1]
        if not kids:
            if f:
                out.append((r, f[0]))
            continue
        ctx.check("visit", "%s of %s" % (label, nm), ctx.where(f[0]) if f else "", f, "%s lacks %s" % (nm, name))
        if not f:
            continue
        f = f[0]
        w = ctx.where(f)

        def h(I, st, e, cx, obj, args):
            if cx.fn["id"] == "<root>":
                return None
            st.emit("visit", addr(obj), args[0][1] if args[0][0] == "ref" else None)
            return [(st, ("o", "void"))]
        I = ctx.interp({AST + "::" + name: h})
        arg = L(("obj", "arg0"))
        res = ctx.run(I, f)
        ctx.check("visit", "%s of %s returns" % (label, nm), w, res, "no path completes")
        for s, _ in res:
            vs = [ev for ev in s.events if ev[0] == "visit"]
            want = sorted((as_num(I.init_value(s, at(L(THIS), ("f", fl["q"])), fl["t"])) for fl in kids), key=repr)
            got = sorted((as_num(ev[1]) for ev in vs), key=repr)
            ctx.check("visit", "%s of %s reaches every operand" % (label, nm), w, set(got) == set(want),
                      "%s is applied to %s instead of %s" % (name, ", ".join(map(show, got)) or "nothing",
                                                            ", ".join(map(show, want))))
            ctx.check("visit", "%s of %s passes its argument" % (label, nm), w, all(ev[2] == arg for ev in vs),
                      "an operand is visited with another argument")
    return out


def wildcard(ctx):
    """'.' becomes the characters that are no delimiters; every other leaf stays as it is."""
    leaves = visitor(ctx, "remove_delimiters_from_wildcard", "narrowing '.'")
    top = unicode_max(ctx)
    G = FA + "RegexASTGroup"
    for r, f in leaves:
        nm = r["q"].rsplit("::", 1)[-1]
        w = ctx.where(f)
        flag = [fl for fl in r["fields"] if fl["q"].endswith("::m_is_wildcard")]
        if r["q"] != G:
            I = ctx.interp()
            for s, _ in ctx.run(I, f):
                wr = [l for l in s.store if l[1] == THIS]
                ctx.check("wildcard", "%s stays as it is" % nm, w, not wr, "%s changes" % "".join(map(show_loc, wr[:1])))
            continue
        for wild in (0, 1):
            for n in (0, 1, 2, 3):
                from rules.nfa import h_sort
                I = ctx.interp({"std::sort": h_sort, "std::ranges::__sort_fn::operator()": h_sort,
                                "std::ranges::sort": h_sort, "std::stable_sort": h_sort})
                I.unroll = 12
                I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
                st = State()
                ds = []
                for i in range(n):
                    d = sym("delimiter%d" % i)
                    st.facts.assume(scale(d, -1), "<=")
                    st.facts.assume(sub(d, top), "<=")
                    ds.append(d)
                I.write(st, L(("obj", "arg0")), ("o", "vec", tuple(ds)))
                rl = at(L(THIS), fld(ctx, r["t"], "m_ranges"))
                a, b = sym("begin"), sym("end")
                old = ("o", "vec", (("o", "pair", a, b),))
                I.write(st, rl, old)
                I.write(st, at(L(THIS), fld(ctx, r["t"], "m_is_wildcard")), num(wild))
                key = "%s with %d delimiters" % ("'.'" if wild else "other group", n)
                res = ctx.run(I, f, st=st, args=[("ref", L(("obj", "arg0")))])
                ctx.check("wildcard", key + " returns", w, res, "no path completes")
                for s, _ in res:
                    v = I.read(s, rl)
                    if not wild or n == 0:
                        ctx.check("wildcard", key + " stays as it is", w, v == old, "the group becomes %s" % show(v))
                        continue
                    from rules.nfa import elems
                    es = elems(v)
                    ctx.check("wildcard", key + " narrowed", w, es is not None, "the group becomes %s" % show(v))
                    if es is None:
                        continue
                    ps = [(as_num(x[2]), as_num(x[3])) for x in es if x[:2] == ("o", "pair")]
                    case = facts_str(s, 8)
                    pts = [(d, d) for d in ds]
                    miss = covered(I, s, ZERO, top, pts + ps)
                    ctx.check("wildcard", key + " keeps all other characters", w, len(ps) == len(es) and miss is None,
                              "'.' matches only %s, when %s" % (shows(ps), case if miss is None else facts_str(miss, 8)))
                    hit = [(p, q) for p in pts for q in ps if not disjoint(I, s, p, q)]
                    ctx.check("wildcard", key + " excludes them", w, not hit, "'.' matches a delimiter: %s, when %s" % (
                        shows(ps), case))


def inputs(ctx):
    """set_possible_inputs_to_true marks every character the pattern can match."""
    leaves = visitor(ctx, "set_possible_inputs_to_true", "possible characters")
    G, Lt = FA + "RegexASTGroup", FA + "RegexASTLiteral"
    arg = L(("obj", "arg0"))

    def marks(I, f, st):
        def rec(st, loc, v, node, cx):
            if loc[1] == arg[1] and len(loc[2]) == 1 and loc[2][0][0] == "e":
                st.emit("mark", as_num(loc[2][0][1]), v)
        I.on_write = rec
        out = []
        for s, _ in ctx.run(I, f, st=st, args=[("ref", arg)]):
            spans, bad = [], []
            collect(s.events, spans, bad)
            out.append((s, spans, bad))
        return out

    def collect(events, spans, bad):
        for ev in events:
            if ev[0] == "mark":
                if ev[2] != ONE:
                    bad.append("a character is unmarked")
                spans.append((ev[1], ONE))
            elif ev[0] == "loop":
                for it in ev[2]:
                    ms = [x for x in it if x[0] == "mark"]
                    if any(x[0] == "loop" for x in it):
                        bad.append("nested loops")
                    for x in ms:
                        ok = False
                        if x[2] != ONE:
                            bad.append("a character is unmarked")
                        for h, v0, step in ev[3]:
                            if step == 1 and x[1] == h:
                                spans.append((v0, sub(h, v0)))
                                ok = True
                        if not ok:
                            bad.append("a character other than the running one is marked")
    for r, f in leaves:
        nm = r["q"].rsplit("::", 1)[-1]
        w = ctx.where(f)
        if r["q"] == Lt:
            I = ctx.interp()
            for s, spans, bad in marks(I, f, State()):
                c = as_num(I.read(s, at(L(THIS), fld(ctx, r["t"], "m_character")), "unsigned int"))
                ctx.check("inputs", "literal marks its character", w, not bad and spans and all(
                    n == ONE and same(s, a, c) for a, n in spans), "; ".join(bad) or "marked: %s" % shows(
                        [(a, a) for a, _ in spans]))
        elif r["q"] == G:
            top = unicode_max(ctx)
            for n in (0, 1, 2):
                I = ctx.interp()
                I.unroll = 6
                I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
                st = State()
                rs = group_inputs(ctx, I, st, n, r["t"], 0, top)
                key = "group of %d ranges" % n
                out = marks(I, f, st)
                ctx.check("inputs", key + " returns", w, out, "no path completes")
                for s, spans, bad in out:
                    ctx.check("inputs", key + " marks", w, not bad, "; ".join(bad))
                    ps = [(a, sub(add(a, k), ONE)) for a, k in spans]
                    for p in rs:
                        miss = covered(I, s, p[0], p[1], ps)
                        ctx.check("inputs", key + " marks its characters", w, miss is None, "" if miss is None else
                                  "%s listed but only %s marked, when %s" % (shows([p]), shows(ps), facts_str(miss, 8)))
                    for p in ps:
                        miss = covered(I, s, p[0], p[1], rs)
                        ctx.check("inputs", key + " marks no others", w, miss is None, "" if miss is None else
                                  "%s marked but only %s listed, when %s" % (shows([p]), shows(rs), facts_str(miss, 8)))
            negated(ctx, f, w, r["t"], top, arg)


def negated(ctx, f, w, clst, top, arg):
    """A negated group marks characters, in a loop over all of them, and unmarks none."""
    for n in (0, 1, 2):
        I = ctx.interp()
        I.unroll = 6
        I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
        st = State()
        group_inputs(ctx, I, st, n, clst, 1, top)

        def rec(st, loc, v, node, cx):
            if loc[1] == arg[1] and len(loc[2]) == 1 and loc[2][0][0] == "e":
                st.emit("mark", as_num(loc[2][0][1]), v)
        I.on_write = rec

        def within(evs, test):
            return any(test(x) or x[0] == "loop" and any(within(it, test) for it in x[2]) for x in evs)
        key = "negated group of %d ranges" % n
        out = ctx.run(I, f, st=st, args=[("ref", arg)])
        ctx.check("inputs", key + " returns", w, out, "no path completes")
        for s, _ in out:
            ctx.check("inputs", key + " marks", w, within(s.events, lambda x: x[0] == "mark") and not within(
                s.events, lambda x: x[0] == "mark" and x[2] != ONE), "a character is unmarked, or none is marked")


def rule13(ctx):
    wildcard(ctx)
    inputs(ctx)
