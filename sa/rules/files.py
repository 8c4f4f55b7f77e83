"""C24: the readers hand out every byte once and report the end and errors as what they are."""
from lib import *
from rules.malformed import the
from rules.schema import lambdas_in, rec_name, fq

FR = P + "FileReader::"
SPQ = P + "SchemaParser::"


def rule24(ctx):
    read(ctx)
    to_delimiter(ctx)
    opening(ctx)
    closing(ctx)
    string_reader(ctx)
    file_reader(ctx)


def flag(name):
    """Result of feof/ferror: 0 or not, as the run prescribes."""
    def h(I, st, e, cx, obj, args):
        st.emit(name, as_num(I.val(st, args[0])))
        return [(st, sym(name))]
    return h


def preset(st, **kw):
    for k, v in kw.items():
        if v:
            st.facts.assume(sub(sym(k), ONE), ">=")
        else:
            st.facts.assume(sym(k), "==")


# ------------------------------------------------------------------ FileReader::read
def read(ctx):
    f = the(ctx, FR + "read")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("read", key, w, ok, d)
    lf = loc_of(ctx, f["clst"], "m_file")
    buf, n, got = sym("buf"), sym("n"), L(("obj", "got"))
    file = sym("file")
    cases = [("no file", dict(file=0, buf=1)), ("no buffer", dict(file=1, buf=0)), ("neither", dict(file=0, buf=0))]
    for r in ("all", "some", "none"):
        for er in (0, 1):
            for eof in (0, 1):
                if r == "all" or er or eof:
                    cases.append(("%s of the bytes%s%s" % (r, ", error" if er else "", ", end" if eof else ""),
                                  dict(file=1, buf=1, r=r, ferror=er, feof=eof)))
    code = lambda x: err(ctx, x)
    for label, c in cases:
        def h_fread(I, st, e, cx, obj, args):
            a = [as_num(I.val(st, x)) for x in args]
            st.emit("fread", a[0], mul_sizes(st, a[1], a[2]), a[3])
            return [(st, sym("k"))]
        I = ctx.interp({"fread": h_fread, "fread_unlocked": h_fread, "ferror": flag("ferror"), "feof": flag("feof")})
        st = State()
        for v, x in ((buf, c["buf"]), (file, c["file"])):
            st.facts.assume(sub(v, ONE) if x else v, ">=" if x else "==")
        I.write(st, lf, file if c["file"] else ZERO)
        st.facts._bound(n, 1, 2**63)
        st.facts.assume(scale(sym("k"), -1), "<=")
        if "r" in c:
            preset(st, ferror=c["ferror"], feof=c["feof"])
            if c["r"] == "all":
                st.facts.assume(sub(sym("k"), n), "==")
            elif c["r"] == "none":
                st.facts.assume(sym("k"), "==")
            else:
                st.facts.assume(sub(sym("k"), ONE), ">=")
                st.facts.assume(sub(add(sym("k"), ONE), n), "<=")
        outs = ctx.run(I, f, st=st, args=[buf if c["buf"] else ZERO, n, ("ref", got)])
        R(label + "/returns", bool(outs) and not I.throws, "some path fails")
        for s, v in outs:
            v = as_num(v)
            fr = [x for x in s.events if x[0] == "fread"]
            if "r" not in c:
                want = [code("NotInit")] if c["buf"] else [code("BadParam")] if c["file"] else [code("NotInit"), code("BadParam")]
                R(label + "/refused", v in want, "returns code %s" % show(v))
                R(label + "/nothing read", not fr, "reads all the same")
                continue
            want = ("Success" if c["r"] == "all" else "Errno" if c["ferror"] else "Success" if c["r"] == "some" else "EndOfFile")
            R(label + "/result", same(s, v, code(want)), "returns code %s instead of %s" % (show(v), want))
            R(label + "/read once", len(fr) == 1, "%d reads" % len(fr))
            for x in fr:
                R(label + "/into the buffer", x[1] == buf and x[3] == file, "reads to %s from %s" % (show(x[1]), show(x[3])))
                R(label + "/as much as asked", same(s, x[2], n), "reads %s bytes" % show(x[2]))
            R(label + "/count", same(s, as_num(I.read(s, got, "unsigned long")), sym("k")), "reports %s bytes" % show(
                as_num(I.read(s, got, "unsigned long"))))
            R(label + "/right file", all(x[1] == file for x in s.events if x[0] in ("ferror", "feof")), "asks another file")


def mul_sizes(st, a, b):
    a, b = (ONE if x[1] == 0 and x[2] and "sizeof" in repr(x) else x for x in (a, b))
    if is_const(a):
        return scale(b, a[1])
    return scale(a, b[1]) if is_const(b) else atom(("mul", a, b))


# ------------------------------------------------------------------ try_read_to_delimiter
def to_delimiter(ctx):
    f = the(ctx, FR + "try_read_to_delimiter")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("delimiter", key, w, ok, d)
    t = f["clst"]
    lf, lb = loc_of(ctx, t, "m_file"), loc_of(ctx, t, "m_get_delim_buf")
    ll = loc_of(ctx, t, "m_get_delim_buf_len")
    file, line, n, d = sym("file"), sym("line"), sym("n"), sym("delim")
    text = L(("obj", "text"))
    code = lambda x: err(ctx, x)
    for keep in (0, 1):
        for app in (0, 1):
            for r in ("line", "last line", "end", "error", "end and error", "failure"):
                label = "%s%s%s" % (r, ", keeping the delimiter" if keep else "", ", appending" if app else "")

                def h_get(I, st, e, cx, obj, args):
                    a = [as_num(I.val(st, x)) for x in args]
                    st.emit("getdelim", a[0], a[1], a[2], a[3])
                    I.write(st, lb, line)
                    if r in ("line", "last line"):
                        k = n
                        lastc = at(deref(line), ()) if False else deref(add(line, sub(n, ONE)))
                        st.store[lastc] = d if r == "line" else sym("other")
                    else:
                        k = num(-1)
                    return [(st, k)]
                I = ctx.interp({"getdelim": h_get, "__getdelim": h_get, "ferror": flag("ferror"), "feof": flag("feof")})
                st = State()
                st.facts.assume(sub(file, ONE), ">=")
                st.facts.assume(sub(line, ONE), ">=")
                st.facts._bound(n, 1, 2**62)
                st.facts._bound(d, -128, 127)
                st.facts._bound(sym("other"), -128, 127)
                st.facts.assume(sub(d, sym("other")), "!=")
                I.write(st, lf, file)
                preset(st, ferror=1 if "error" in r else 0, feof=1 if "end" in r or r == "last line" else 0)
                outs = ctx.run(I, f, st=st, args=[d, num(keep), num(app), ("ref", text)])
                R(label + "/returns", bool(outs) and not I.throws, "some path fails")
                for s, v in outs:
                    v = as_num(v)
                    want = "Success" if "line" in r else "Errno" if "error" in r or r == "failure" else "EndOfFile"
                    R(label + "/result", same(s, v, code(want)), "returns code %s instead of %s" % (show(v), want))
                    g = [x for x in s.events if x[0] == "getdelim"]
                    R(label + "/one line", len(g) == 1 and g[0][1:] == (addr(lb), addr(ll), d, file), "another line is read")
                    if "line" in r:
                        end = add(line, n if keep or r == "last line" else sub(n, ONE))
                        got = pieces(s, I.read(s, text, "std::string"), I)
                        old = [("text", ("o", "in", text))] if app else []
                        R(label + "/text", same_pieces(s, got, old + [("bytes", line, end)]), "the text is %s" % show_pieces(got))


# ------------------------------------------------------------------ try_open, close, destructor
def opening(ctx):
    f = the(ctx, FR + "try_open")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("open", key, w, ok, d)
    lf = loc_of(ctx, f["clst"], "m_file")
    path_ = L(("obj", "path"))
    code = lambda x: err(ctx, x)
    ENOENT = num(2)
    for was in (0, 1):
        for r in ("opened", "missing", "other error"):
            label = "%s%s" % (r, ", another file open" if was else "")

            def h_fopen(I, st, e, cx, obj, args):
                st.emit("fopen", I.val(st, args[0]), I.val(st, args[1]))
                if r != "opened":
                    st.store[L(("obj", "errno"))] = ENOENT if r == "missing" else sym("code")
                return [(st, sym("file") if r == "opened" else ZERO)]

            def h_fclose(I, st, e, cx, obj, args):
                st.emit("fclose", as_num(I.val(st, args[0])))
                st.store[L(("obj", "errno"))] = atom(st.fresh("errno"))
                return [(st, atom(st.fresh("res")))]
            I = ctx.interp({"fopen": h_fopen, "fopen64": h_fopen, "fclose": h_fclose,
                            "__errno_location": lambda I, st, e, cx, obj, args: [(st, addr(L(("obj", "errno"))))]})
            st = State()
            st.facts.assume(sub(sym("file"), ONE), ">=")
            st.facts.assume(sub(sym("old"), ONE), ">=")
            st.facts._bound(sym("code"), 1, 4095)
            st.facts.assume(sub(sym("code"), ENOENT), "!=")
            I.write(st, lf, sym("old") if was else ZERO)
            outs = ctx.run(I, f, st=st, args=[("ref", path_)])
            R(label + "/returns", bool(outs) and not I.throws, "some path fails")
            want = {"opened": "Success", "missing": "FileNotFound", "other error": "Errno"}[r]
            for s, v in outs:
                R(label + "/result", same(s, as_num(v), code(want)), "returns code %s instead of %s" % (show(as_num(v)), want))
                R(label + "/file held", same(s, as_num(I.read(s, lf, "T *")), sym("file") if r == "opened" else ZERO), "holds %s" % show(
                    as_num(I.read(s, lf, "T *"))))
                cl = [x[1] for x in s.events if x[0] == "fclose"]
                R(label + "/earlier file closed", cl == ([sym("old")] if was else []), "%d files are closed" % len(cl))
                op = [x for x in s.events if x[0] == "fopen"]
                R(label + "/the named file", len(op) == 1 and "path" in repr(op[0][1]) and binary(op[0][2]), "opens another file or mode")


def binary(v):
    return any("'%s'" % m in repr(v) for m in ("r", "rb", "rbe", "re"))


def closing(ctx):
    for q in ("close", "<dtor>"):
        f = the(ctx, FR + q)
        w = ctx.where(f)
        t = f["clst"]
        lf, lb = loc_of(ctx, t, "m_file"), loc_of(ctx, t, "m_get_delim_buf")
        what = "close" if q == "close" else "destructor"
        R = lambda key, ok, d: ctx.check("close", what + "/" + key, w, ok, d)
        for was in (0, 1):
            def h_fclose(I, st, e, cx, obj, args):
                st.emit("fclose", as_num(I.val(st, args[0])))
                return [(st, atom(st.fresh("res")))]

            def h_free(I, st, e, cx, obj, args):
                st.emit("free", as_num(I.val(st, args[0])))
                return [(st, ("o", "void"))]
            I = ctx.interp({"fclose": h_fclose, "free": h_free})
            st = State()
            st.facts.assume(sub(sym("old"), ONE), ">=")
            I.write(st, lf, sym("old") if was else ZERO)
            I.write(st, lb, sym("buffer"))
            outs = ctx.run(I, f, st=st)
            R("returns", bool(outs) and not I.throws, "some path fails")
            for s, v in outs:
                cl = [x[1] for x in s.events if x[0] == "fclose"]
                R("an open file is closed once", cl == ([sym("old")] if was else []), "%d files are closed" % len(cl))
                if q == "close":
                    R("no file is held", same(s, as_num(I.read(s, lf, "T *")), ZERO), "holds %s" % show(as_num(I.read(s, lf, "T *"))))
                fr = [x[1] for x in s.events if x[0] == "free"]
                null = q != "close" and same(s, sym("buffer"), ZERO)
                R("the line buffer is freed with the reader", fr == ([sym("buffer")] if q != "close" else []) or null and not fr,
                  "%d buffers are freed" % len(fr))


# ------------------------------------------------------------------ the readers of schemas
def held_lambda(I, st, loc):
    """The lambda a Reader object holds."""
    for l2, v in st.store.items():
        if l2[1] == loc[1] and v[0] == "lam":
            return v
    v = I.read(st, loc)
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == "lam":
                return x
            todo += list(x)
    return None


def string_reader(ctx):
    """The reader of a schema string hands out each character once, in order, then the end."""
    f = the(ctx, SPQ + "try_schema_string")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("string", key, w, ok, d)
    a, n = sym("text"), sym("length")
    ok, end = err(ctx, "Success"), err(ctx, "EndOfFile")
    seen = []

    def h_tree(I, st, e, cx, obj, args):
        loc = args[0][1] if args[0][0] == "ref" else None
        lam = held_lambda(I, st, loc) if loc else None
        seen.append(lam)
        if lam is None:
            return [(st, addr(L(("obj", "tree"))))]
        sts = [st]
        for i in range(3):
            nxt = []
            for s in sts:
                got = L(("obj", "got%d" % i))
                c = sym("count%d" % i)
                lt = I.tmp(s, lam)
                s.emit("call", i)
                for s2, v in I.call_lambda(s, lam[1], [sym("dst%d" % i), c, ("ref", got)], cx, lt):
                    for l2, x in list(s2.store.items()):
                        if x[0] == "n":
                            y = s2.facts.solved(x)
                            if y != x:
                                s2.store[l2] = y
                    s2.emit("returned", i, as_num(I.val(s2, v)), as_num(I.read(s2, got, "unsigned long")))
                    nxt.append(s2)
            sts = nxt
        return [(s, addr(L(("obj", "tree")))) for s in sts]
    void = lambda I, st, e, cx, obj, args: [(st, ("o", "void"))]
    I = ctx.interp({SPQ + "generate_schema_ast": h_tree, SPQ + "<ctor>": void})
    record_copies(I)
    st = State()
    for x in [a] + [sym("dst%d" % i) for i in range(3)]:
        st.facts.assume(sub(x, ONE), ">=")
    for x in [n] + [sym("count%d" % i) for i in range(3)]:
        st.facts._bound(x, 0 if x == n else 1, 2**31)
    sv = I.mkrange(a, add(a, n))
    outs = ctx.run(I, f, st=st, args=[sv])
    R("the text is parsed", bool(outs) and seen and None not in seen, "the reader given to the parser is not recognised")
    for s, v in outs:
        R("the tree is returned", as_num(I.val(s, v)) == addr(L(("obj", "tree"))), "returns another tree")
        part, cur = {}, None
        for x in s.events:
            if x[0] == "call":
                cur = x[1]
                part[cur] = []
            elif x[0] == "returned":
                part[cur, "r"] = x[2:]
                cur = None
            elif cur is not None:
                part[cur].append(x)
        off = ZERO
        for i in (0, 1, 2):
            if (i, "r") not in part:
                continue
            rc, k = part[i, "r"]
            left, c = sub(n, off), sym("count%d" % i)
            tmp = State()
            tmp.events = list(part[i])
            ps = copied(tmp)
            w_ = ("first", "second", "third")[i] + " read"
            ended = same(s, rc, end)
            R(w_ + "/result", ended or same(s, rc, ok), "returns code %s" % show(rc))
            if ended:
                R(w_ + "/end", le(s, left, ZERO), "the end is reported with characters left")
                R(w_ + "/nothing after the end", all(le(s, q, ZERO) for _, q, _ in ps), "characters are handed out with the end")
                R(w_ + "/none counted", same(s, k, ZERO), "%s characters are reported" % show(k))
                continue
            full = same(s, k, c) and le(s, c, left) or same(s, k, left) and le(s, left, c)
            R(w_ + "/as much as asked or left", full, "%s characters" % show(k))
            R(w_ + "/at least one", le(s, ONE, k), "success without a character")
            R(w_ + "/characters", covers(s, ps, add(a, off), k, sym("dst%d" % i)), "the characters are not those that follow")
            off = add(off, k)


def file_reader(ctx):
    """The reader of a schema file passes everything through."""
    f = the(ctx, SPQ + "try_schema_file")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("file", key, w, ok, d)
    opened, seen = [], []

    def h_open(I, st, e, cx, obj, args):
        opened.append(obj)
        return [(st, err(ctx, "Success"))]

    def h_read(I, st, e, cx, obj, args):
        st.emit("read", obj, as_num(I.val(st, args[0])), as_num(I.val(st, args[1])), args[2][1] if args[2][0] == "ref" else None)
        return [(st, sym("result"))]

    def h_tree(I, st, e, cx, obj, args):
        loc = args[0][1] if args[0][0] == "ref" else None
        lam = held_lambda(I, st, loc) if loc else None
        seen.append(lam)
        o = L(("obj", "tree"))
        if lam is None:
            return [(st, addr(o))]
        out = []
        for s2, v in I.call_lambda(st, lam[1], [sym("dst"), sym("count"), ("ref", L(("obj", "got")))], cx, I.tmp(st, lam)):
            s2.emit("returned", as_num(I.val(s2, v)))
            out.append((s2, addr(o)))
        return out
    void = lambda I, st, e, cx, obj, args: [(st, ("o", "void"))]
    I = ctx.interp({FR + "try_open": h_open, FR + "read": h_read, SPQ + "generate_schema_ast": h_tree, SPQ + "<ctor>": void,
                    FR + "close": void, FR + "<dtor>": void})
    st = State()
    outs = ctx.run(I, f, st=st, args=[("ref", L(("obj", "path")))])
    R("the file is parsed", bool(outs) and seen and None not in seen, "the reader given to the parser is not recognised")
    for s, v in outs:
        rd = [x for x in s.events if x[0] == "read"]
        R("the opened file is read as asked", len(rd) == 1 and rd[0][1] in opened and rd[0][2:] == (
            sym("dst"), sym("count"), L(("obj", "got"))), "reads something else")
        R("its result is passed on", [x[1] for x in s.events if x[0] == "returned"] == [sym("result")], "another result")
