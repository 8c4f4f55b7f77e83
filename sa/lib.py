"""Shared helpers of the rule modules: field paths, symbolic comparisons, copied ranges."""
from checks import *

LOGP = P + "LogParser"
THIS = ("obj", "this")


def rec_t(ctx, f):
    r = ctx.m.rec_by_t.get(f["clst"])
    ctx.need(r is not None, "class record %s missing" % f.get("clst"))
    return r


def path(ctx, t, dotted):
    """Selectors of a.b.c starting in class type t (canonical record type or qualified name)."""
    m = ctx.m
    sels = ()
    for name in dotted.split("."):
        r = m.rec_by_t.get(t) or m.records.get(t)
        ctx.need(r is not None, "class %s (holding %s) not found" % (t, name))
        cand = None
        todo = [r]
        while todo and cand is None:
            x = todo.pop(0)
            for fl in x["fields"]:
                if fl["q"].rsplit("::", 1)[-1] == name:
                    cand = fl
                    break
            for b in x["bases"]:
                rb = [y for y in m.rec_by_t.values() if y["q"] == b]
                todo += rb[:1]
        ctx.need(cand is not None, "field %s of %s not found" % (name, t))
        sels += (("f", cand["q"]),)
        t = cand["t"].strip()
    return sels


def loc_of(ctx, t, dotted, root=THIS):
    return ("L", root, path(ctx, t, dotted))


def ftype(ctx, t, dotted):
    m = ctx.m
    for name in dotted.split("."):
        r = m.rec_by_t.get(t) or m.records.get(t)
        cand = None
        todo = [r]
        while todo and cand is None:
            x = todo.pop(0)
            for fl in x["fields"]:
                if fl["q"].rsplit("::", 1)[-1] == name:
                    cand = fl
            for b in x["bases"]:
                todo += [y for y in m.rec_by_t.values() if y["q"] == b][:1]
        t = cand["t"].strip()
    return t


def sym(name):
    return atom(("param", name))


def same(st, a, b):
    """Values equal in every run the abstract state covers."""
    if a == b:
        return True
    if a[0] == "n" and b[0] == "n":
        return st.facts.is_zero(sub(a, b))
    return False


def le(st, a, b):
    return st.facts.upper(sub(a, b)) <= 0


def truth(st, v):
    """True / False / None"""
    v = as_num(v)
    if st.facts.is_zero(v):
        return False
    if st.facts.nonzero(v):
        return True
    return None


MEMBERS = {}      # field -> all fields of its class


def whole(evs):
    """Puts with a memberwise assignment of a class object replaced by one put of the object."""
    out, part = [], {}
    for x in evs:
        if x[0] == "put":
            d, s = elem_field(x[1]), elem_field(source_addr(x[2])) if source_addr(x[2]) is not None else None
            if d is not None and s is not None and d[1] == s[1]:
                got = part.setdefault((d[0], s[0]), set())
                got.add(d[1])
                if MEMBERS.get(d[1]) and got >= MEMBERS[d[1]]:
                    out.append(("put", d[0], ("o", "in", ("L", ("d", s[0]), ()))))
                continue
        out.append(x)
    return out


def elem_field(a):
    """(object address, field) of an address that is a field of a pointed-to object."""
    if a is not None and a[0] == "n" and a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1:
        x = a[2][0][0]
        if isinstance(x, tuple) and x[0] == "addr" and x[1][1][0] == "d" and len(x[1][2]) == 1 and x[1][2][0][0] == "f":
            return x[1][1][1], x[1][2][0][1]
    return None


def record_copies(I):
    """Makes an interpreter record bulk copies and element writes as events."""
    if not MEMBERS:
        for r in I.m.rec_by_t.values():
            for fl in r["fields"]:
                MEMBERS[fl["q"]] = {x["q"] for x in r["fields"]}
    def on_copy(st, first, last, dst, e, cx):
        st.emit("copy", first, sub(last, first), dst)

    def on_write(st, loc, v, node, cx):
        if (loc[1][0] == "d" or any(s[0] == "e" for s in loc[2])) and loc[1][0] not in ("v", "t"):
            st.emit("put", addr(loc), v)
    I.on_copy = on_copy
    I.on_write = on_write


def source_addr(v):
    """Address a plainly copied value was read from."""
    if v[0] == "n" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        a = v[2][0][0]
        if isinstance(a, tuple) and a[0] == "in":
            return addr(a[1])
        if isinstance(a, tuple) and a[0] in ("val", "uchar"):
            return source_addr(a[1])
    if v[0] == "o" and v[1] == "in":
        return addr(v[2])
    return None


def copied(st):
    """[(source pointer, count, destination pointer)] of a state's events, element loops included."""
    out = []
    for ev in whole(st.events):
        if ev[0] == "copy":
            out.append(ev[1:])
        elif ev[0] == "put":
            s = source_addr(ev[2])
            if s is not None:
                out.append((s, ONE, ev[1]))
        elif ev[0] == "loop":
            _, lid, iters, ind = ev[:4]
            for it in iters:
                for x in whole(it):
                    if x[0] != "put":
                        continue
                    s = source_addr(x[2])
                    if s is None:
                        continue
                    d = x[1]
                    # both advance by one per iteration
                    ds = dd = num(0)
                    base_s, base_d, cnt = s, d, None
                    for h, v0, step in ind:
                        ha = h[2][0][0]
                        for which in (0, 1):
                            t = s if which == 0 else d
                            k = dict(t[2]).get(ha)
                            if k:
                                if which == 0:
                                    ds = add(ds, num(k * step))
                                    base_s = subst(base_s, {ha: v0})
                                else:
                                    dd = add(dd, num(k * step))
                                    base_d = subst(base_d, {ha: v0})
                                if abs(k * step) == 1 and cnt is None:
                                    cnt = sub(h, v0) if step == 1 else sub(v0, h)
                    if ds == ONE and dd == ONE and cnt is not None:
                        out.append((base_s, cnt, base_d))
    return out


def covers(st, pieces, src, n, dst):
    """Are dst[0,n) := src[0,n) all written by the recorded pieces, and nothing else over them?"""
    cur = ZERO
    for _ in range(len(pieces) + 1):
        if le(st, n, cur):
            break
        for s, k, d in pieces:
            if not same(st, sub(d, s), sub(dst, src)):
                continue
            o = sub(d, dst)
            if le(st, o, cur) and st.facts.lower(sub(add(o, k), cur)) > 0:
                cur = add(o, k)
                break
        else:
            return False
    if not le(st, n, cur):
        return False
    for s, k, d in pieces:
        if same(st, sub(d, s), sub(dst, src)):
            continue
        o = sub(d, dst)
        if len(ptr_base(o)) and any(k2 for _, k2 in ptr_base(o)):
            continue        # another array
        if le(st, add(o, k), ZERO) or le(st, n, o):
            continue
        return False
    return True


def at_exit(I, f, st=None, **kw):
    return I.run(f, st=st, **kw)


def lexer_t(ctx):
    for f in ctx.m.fns(P + "Lexer::scan"):
        if "UTF8" not in f["clst"] and "Byte" in f["clst"]:
            return f["clst"]
    raise AnalysisBroken("no byte lexer instantiation found")


def lexer_fn(ctx, name):
    fs = [f for f in ctx.m.fns(P + "Lexer::" + name) if "UTF8" not in f["clst"]]
    ctx.need(fs, "Lexer::%s not found" % name)
    return fs[0]


def enum(ctx, q, name):
    v = ctx.m.enums.get(q)
    ctx.need(v is not None and name in v, "enumerator %s::%s not found" % (q, name))
    return num(v[name])


def err(ctx, name):
    return enum(ctx, P + "ErrorCode", name)


def string_at(I, st, a, b):
    """The string whose whole content [a, b) is, if a is its data()."""
    if I is None or a[0] != "n" or a[1] != 0 or len(a[2]) != 1 or a[2][0][1] != 1:
        return None
    x = a[2][0][0]
    if not (isinstance(x, tuple) and x[0] == "addr" and x[1][2] and x[1][2][-1] == ("e", ZERO)):
        return None
    t = I.read(st, ("L", x[1][1], x[1][2][:-1]), "std::string")
    return t if t[0] == "o" and same(st, sub(b, a), I.size(st, t)) else None


def pieces(st, v, I=None):
    """A text as a list of pieces, neighbouring byte ranges merged: ("bytes", a, b) | ("lit", s) | ("text", term)."""
    out = []

    def walk(x):
        if x[0] == "o" and x[1] == "cat":
            walk(x[2])
            walk(x[3])
        elif x[0] == "o" and x[1] == "vec":
            for y in x[2]:
                walk(y)
        elif x[0] == "o" and x[1] == "range":
            t = string_at(I, st, x[2], x[3])
            if t is not None:
                walk(t)
            else:
                out.append(("bytes", x[2], x[3]))
        elif x[0] == "n" or (x[0] == "o" and x[1] == "fill" and x[2] == ONE):
            walk(("o", "chr", x if x[0] == "n" else x[3]))
        elif x[0] == "o" and x[1] == "str":
            if x[2]:
                out.append(("lit", x[2]))
        elif x[0] == "o" and x[1] in ("cstr", "sv") and x[2][0] == "o":
            walk(x[2])
        elif x[0] == "o" and x[1] == "chr":
            s = source_addr(x[2])
            if s is not None:
                out.append(("bytes", s, add(s, ONE)))
            elif is_const(x[2]):
                out.append(("lit", chr(x[2][1] & 255)))
            else:
                out.append(("text", x))
        else:
            out.append(("text", x))
    walk(v)
    res = []
    for p in out:
        if p[0] == "bytes" and same(st, p[1], p[2]):
            continue
        if res and p[0] == "bytes" and res[-1][0] == "bytes" and same(st, res[-1][2], p[1]):
            res[-1] = ("bytes", res[-1][1], p[2])
        elif res and p[0] == "lit" and res[-1][0] == "lit":
            res[-1] = ("lit", res[-1][1] + p[1])
        else:
            res.append(p)
    return res


def same_pieces(st, a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and all(p == q or (isinstance(p, tuple) and p[0] == "n" and same(st, p, q))
                             for p, q in zip(x[1:], y[1:])) for x, y in zip(a, b))


def show_pieces(ps):
    return " + ".join("bytes[%s, %s)" % (show(p[1]), show(p[2])) if p[0] == "bytes" else repr(p[1]) if p[0] == "lit"
                      else show(p[1]) for p in ps) or "nothing"
