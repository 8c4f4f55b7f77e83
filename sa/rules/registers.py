"""C22: registers keep exactly the positions given to them, and operations on one register change no other."""
import itertools

from lib import *
from rules.malformed import the, listing

FA = P + "finite_automata::"
PT, RH = FA + "PrefixTree::", FA + "RegisterHandler::"


def rule22(ctx):
    tree_shapes(ctx)
    tree_set(ctx)
    tree_insert_any(ctx)
    register_ops(ctx)


def ctor(ctx, q):
    fs = [f for f in ctx.m.fns(q + "<ctor>") if not f["params"]]
    return fs[0] if fs else None


def new_tree(ctx, I):
    """A state with a tree as its constructor leaves it."""
    f = ctor(ctx, PT)
    ctx.need(f is not None, "the default constructor of PrefixTree is not found")
    outs = ctx.run(I, f, st=State())
    ctx.need(len(outs) == 1, "PrefixTree's constructor does not end in one state")
    return outs[0][0]


def path_of(parents, i):
    p = []
    while i:
        p.append(i)
        i = parents[i]
    return p


def positions(ctx, I, s, node):
    """What get_reversed_positions returns for a node: [(state, listed positions)], and whether some path throws."""
    I.throws.clear()
    outs = ctx.run(I, the(ctx, PT + "get_reversed_positions"), st=s.copy(), args=[node])
    res = []
    for s2, v in outs:
        loc = I.tmp(s2, I.val(s2, v))
        xs = listing(I, s2, loc)
        res.append((s2, tuple(map(as_num, xs)) if xs is not None else None))
    bad = bool(I.throws)
    I.throws.clear()
    return res, bad


def tree_shapes(ctx):
    """Every order of insertions of up to four nodes."""
    ins, get = the(ctx, PT + "insert"), the(ctx, PT + "get_reversed_positions")
    size = the(ctx, PT + "size")
    w = ctx.where(ins)
    for n in (0, 1, 2, 3, 4):
        for ps in itertools.product(*[range(i + 1) for i in range(n)]):
            parents = {i + 1: p for i, p in enumerate(ps)}
            key = "tree %s" % (",".join(map(str, ps)) or "of the root only")
            I = ctx.interp({})
            I.unroll = 16
            states = [new_tree(ctx, I)]
            for i, p in enumerate(ps):
                nxt = []
                for s in states:
                    for s2, v in ctx.run(I, ins, st=s, args=[num(p), sym("position%d" % (i + 1))]):
                        ctx.check("tree", key + "/a fresh id", w, as_num(I.val(s2, v)) == num(i + 1),
                                  "node %d is given id %s" % (i + 1, show(as_num(I.val(s2, v)))))
                        nxt.append(s2)
                states = nxt
            ctx.check("tree", key + "/inserted", w, bool(states) and not I.throws, "an insertion is refused")
            for s in states:
                for s2, v in ctx.run(I, size, st=s.copy()):
                    ctx.check("tree", key + "/size", ctx.where(size), same(s2, as_num(I.val(s2, v)), num(n + 1)), "size is %s" % show(as_num(v)))
                for i in range(n + 1):
                    want = tuple(sym("position%d" % k) for k in path_of(parents, i))
                    res, bad = positions(ctx, I, s, num(i))
                    ctx.check("tree", key + "/path of %d" % i, ctx.where(get), bool(res) and not bad, "is refused")
                    for _, got in res:
                        ctx.check("tree", key + "/path of %d" % i, ctx.where(get), got == want, "the positions are %s" % (
                            ", ".join(map(show, got)) if got is not None else "not listed"))
                far = sym("far")
                for what in ("path", "insertion"):
                    s3 = s.copy()
                    s3.facts._bound(far, n + 1, 2**32 - 1)
                    I.throws.clear()
                    f = get if what == "path" else ins
                    outs = ctx.run(I, f, st=s3, args=[far] + ([sym("position")] if f is ins else []))
                    ctx.check("tree", key + "/%s of a node that does not exist" % what, ctx.where(f), not outs and bool(I.throws), "is not refused")
                    for s4, _, _ in I.throws:
                        for s5, v in ctx.run(I, size, st=s4.copy()):
                            ctx.check("tree", key + "/a refused %s changes nothing" % what, ctx.where(f),
                                      same(s5, as_num(I.val(s5, v)), num(n + 1)), "the tree changes")
                    I.throws.clear()


def tree_set(ctx):
    """Setting a node changes its position, wherever it occurs on a path, and nothing else."""
    ins, setf = the(ctx, PT + "insert"), the(ctx, PT + "set")
    w = ctx.where(setf)
    for ps in itertools.product(*[range(i + 1) for i in range(3)]):
        parents = {i + 1: p for i, p in enumerate(ps)}
        I = ctx.interp({})
        I.unroll = 16
        states = [new_tree(ctx, I)]
        for i, p in enumerate(ps):
            states = [s2 for s in states for s2, _ in ctx.run(I, ins, st=s, args=[num(p), sym("position%d" % (i + 1))])]
        for s in states:
            for t in (0, 1, 2, 3):
                key = "tree %s, node %d" % (",".join(map(str, ps)), t)
                I.throws.clear()
                outs = ctx.run(I, setf, st=s.copy(), args=[num(t), sym("other")])
                ctx.check("set", key + "/accepted", w, bool(outs) and not I.throws, "is refused")
                for s2, _ in outs:
                    for i in range(4):
                        want = tuple(sym("other") if k == t else sym("position%d" % k) for k in path_of(parents, i))
                        res, bad = positions(ctx, I, s2, num(i))
                        for _, got in res:
                            ctx.check("set", key + "/path of %d" % i, w, got == want and not bad, "the positions are %s" % (
                                ", ".join(map(show, got)) if got is not None else "not listed"))
            far = sym("far")
            s3 = s.copy()
            s3.facts._bound(far, 4, 2**32 - 1)
            I.throws.clear()
            outs = ctx.run(I, setf, st=s3, args=[far, sym("other")])
            ctx.check("set", "a node that does not exist", w, not outs and bool(I.throws), "is not refused")
            I.throws.clear()


def tree_insert_any(ctx):
    """On a tree of any size, an insertion adds one node behind the others."""
    ins, size = the(ctx, PT + "insert"), the(ctx, PT + "size")
    w = ctx.where(ins)
    I = ctx.interp({})
    st = State()
    p = sym("parent")
    st.facts._bound(p, 0, 2**32 - 1)
    (s0, n0), = ctx.run(I, size, st=st)
    n0 = as_num(I.val(s0, n0))
    s0.facts._bound(n0, 1, 2**32 - 2)
    outs = ctx.run(I, ins, st=s0, args=[p, sym("position")])
    ctx.check("any tree", "insertion", w, bool(outs) and bool(I.throws), "never or always refused")
    for s, v in outs:
        ctx.check("any tree", "an accepted parent exists", w, le(s, add(p, ONE), n0), "a parent that does not exist is accepted")
        ctx.check("any tree", "id", w, same(s, as_num(I.val(s, v)), n0), "the id is %s" % show(as_num(I.val(s, v))))
        for s2, n in ctx.run(I, size, st=s.copy()):
            ctx.check("any tree", "one node more", w, same(s2, as_num(I.val(s2, n)), add(n0, ONE)), "size becomes %s" % show(as_num(n)))
    for s, _, _ in I.throws:
        ctx.check("any tree", "a refused parent does not exist", w, le(s, n0, p), "an existing parent is refused")


# ------------------------------------------------------------------ registers
def register_ops(ctx):
    size_t = 2**64 - 1

    def h_insert(I, st, e, cx, obj, args):
        a = [as_num(I.val(st, x)) for x in args]
        t = st.copy()
        t.emit("refused insert", *a)
        I.throws.append((t, cx, e))
        st.emit("insert", *a)
        return [(st, sym("new node"))]

    def h_set(I, st, e, cx, obj, args):
        st.emit("set", *[as_num(I.val(st, x)) for x in args])
        return [(st, ("o", "void"))]

    def h_get(I, st, e, cx, obj, args):
        st.emit("get", *[as_num(I.val(st, x)) for x in args])
        return [(st, ("o", "positions"))]
    hooks = {PT + "insert": h_insert, PT + "set": h_set, PT + "get_reversed_positions": h_get}
    old = tuple(sym("node%d" % i) for i in range(3))
    pos, par = sym("position"), sym("parent node")

    def case(name, args, key, want_regs, want_events, ok):
        f = the(ctx, RH + name)
        w = ctx.where(f)
        I = ctx.interp(hooks)
        lr = loc_of(ctx, f["clst"], "m_registers")
        st = State()
        st.facts._bound(sym("far"), 3, size_t)
        I.write(st, lr, ("o", "vec", old))
        outs = ctx.run(I, f, st=st, args=args)
        ck = lambda k, o, d: ctx.check(name, key + "/" + k, w, o, d)
        evs = lambda s: [x for x in s.events if x[0] in ("insert", "set", "get")]
        regs = lambda s: (lambda l: tuple(map(as_num, l)) if l is not None else None)(listing(I, s, lr))
        if not ok:
            ck("is refused", not outs and bool(I.throws), "is not refused")
        else:
            ck("is done", bool(outs), "is refused")
            ck("is not refused otherwise", all(any(x[0] == "refused insert" for x in s.events) for s, _, _ in I.throws), "is refused")
        for s, v in outs:
            if not ok:
                continue
            ck("the registers", regs(s) == want_regs, "the registers become %s" % (
                ", ".join(map(show, regs(s))) if regs(s) is not None else "unknown"))
            ck("the nodes", evs(s) == want_events, "does %s" % "; ".join("%s(%s)" % (x[0], ", ".join(map(show, x[1:]))) for x in evs(s)))
            if name == "get_reversed_positions":
                ck("its positions", I.val(s, v) == ("o", "positions"), "returns something else")
        for s, _, _ in I.throws:
            ck("a refusal changes nothing", regs(s) == old and not evs(s), "something changes")

    new = sym("new node")
    case("add_register", [par, pos], "any", old + (new,), [("insert", par, pos)], True)
    for i in range(4):
        r = num(i) if i < 3 else sym("far")
        nm = "register %s" % (i if i < 3 else "that does not exist")
        ok = i < 3
        case("set_register", [r, pos], nm, old, [("set", old[i], pos)] if ok else None, ok)
        case("append_position", [r, pos], nm, old[:i] + (new,) + old[i + 1:], [("insert", old[i], pos)] if ok else None, ok)
        case("get_reversed_positions", [r], nm, old, [("get", old[i])] if ok else None, ok)
        for j in range(4):
            q = num(j) if j < 3 else sym("far")
            case("copy_register", [r, q], nm + " from %s" % (j if j < 3 else "one that does not exist"),
                 old[:i] + (old[j],) + old[i + 1:] if ok and j < 3 else None, [], ok and j < 3)
