"""C20: a text that is not a schema is refused with an exception; the programmatic API never acts on what is not there."""
from lib import *
from rules.schema import byte_only, rec_name, obj_of, fq, h_visit, h_stacks, lambdas_in

LR = P + "LALR1Parser::"
SPQ = P + "SchemaParser::"


def rule20(ctx):
    advance_step(ctx)
    next_symbol(ctx)
    parse(ctx)
    ast_of(ctx)
    schema_file(ctx)
    add_variable(ctx)
    add_schema_var(ctx)
    schema_object(ctx)


def the(ctx, q, pred=None):
    fs = [f for f in byte_only(ctx.m.fns(q)) if pred is None or pred(f)]
    ctx.need(len(fs) == 1, "%s: %d definitions found" % (q, len(fs)))
    return fs[0]


# ------------------------------------------------------------------ one step of the automaton
def advance_step(ctx):
    """parse_symbol: an accepting action accepts, a missing one refuses, a shift moves the token onto the stack."""
    f = the(ctx, LR + "parse_symbol")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("step", key, w, ok, d)
    for kind, val, label in (("bool", ONE, "accept"), ("bool", ZERO, "error"), ("ItemSet", addr(L(("obj", "target"))), "shift")):
        hk = h_stacks(ctx, {"m_parse_stack_matches": "match", "m_parse_stack_states": "state"})

        def push(I, st, e, cx, obj, args):
            which = "state" if obj is not None and any(s[1].endswith("m_parse_stack_states") for s in obj[2] if s[0] == "f") else "match"
            a = args[0]
            st.emit("push", which, a[1] if a[0] == "ref" else I.val(st, a))
            if which == "state" and a[0] == "ref":
                st.emit("pushed state", as_num(I.val(st, a)))
            elif which == "state":
                st.emit("pushed state", as_num(I.val(st, a)))
            return [(st, ("o", "void"))]
        hk["std::stack::push"] = hk["std::stack::emplace"] = push
        hk["std::visit"] = h_visit(kind, val)
        I = ctx.interp(hk)
        st = State()
        token, acc = L(("obj", "token")), L(("obj", "accept"))
        I.write(st, acc, ZERO)
        outs = ctx.run(I, f, st=st, args=[sym("type"), ("ref", token), addr(acc)])
        R(label + "/always decided", bool(outs) and not I.throws, "some path fails")
        for s, v in outs:
            evs = [x for x in s.events if x[0] in ("push", "pop", "pushed state")]
            accepted = as_num(I.read(s, acc))
            R(label + "/accepted", accepted == num(1 if label == "accept" else 0), "accept is set to %s" % show(accepted))
            R(label + "/result", truth(s, as_num(v)) is (label != "error"), "returns %s" % show(as_num(v)))
            if label == "shift":
                R("shift/token kept", [x for x in evs if x[0] == "push" and x[1] == "match"] == [("push", "match", token)],
                  "the token does not go on the stack")
                R("shift/state entered", [x[1] for x in evs if x[0] == "pushed state"] == [val], "the state entered is another one")
                R("shift/nothing removed", not any(x[0] == "pop" for x in evs), "something is taken from the stack")
            else:
                R(label + "/stack unchanged", not evs, "the stack changes")


# ------------------------------------------------------------------ the next token
def next_symbol(ctx):
    f = the(ctx, LR + "get_next_symbol")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("token", key, w, ok, d)
    nxt = loc_of(ctx, f["clst"], "m_next_token")
    ok = err(ctx, "Success")
    for waiting in (True, False):
        def scan(I, st, e, cx, obj, args):
            out = []
            for s, b in I.split(st, sym("scanned")):
                s.emit("scan", b)
                if args[1][0] == "ref":
                    I.write(s, args[1][1], ("o", "scanned token"))
                c = ok
                if not b:
                    c = atom(s.fresh("code"))
                    s.facts.assume(sub(c, ok), "!=")
                out.append((s, c))
            return out
        I = ctx.interp({P + "Lexer::scan": scan})
        I.join_key = lambda s: tuple(map(repr, s.events))
        st = State()
        st.facts._bound(sym("scanned"), 0, 1)
        I.write(st, nxt, ("o", "some", ("o", "saved token")) if waiting else ("o", "none"))
        outs = ctx.run(I, f, st=st)
        R("a token is returned", bool(outs), "no path returns a token")
        for s, v in outs:
            sc = [x for x in s.events if x[0] == "scan"]
            v = I.val(s, v)
            if waiting:
                R("the token put back comes first", v == ("o", "saved token") and not sc, "returns %s" % show(v)[:60])
                R("the token put back comes once", I.read(s, nxt)[:2] == ("o", "none"), "it is kept")
            else:
                R("a token is scanned", sc == [("scan", True)] and v == ("o", "scanned token"), "returns %s%s" % (
                    show(v)[:60], " although scanning failed" if ("scan", False) in sc else ""))
        if not waiting:
            R("a scan error is an exception", any(("scan", False) in s.events for s, _, _ in I.throws), "no exception")
        R("only scan errors are exceptions", all(("scan", False) in s.events for s, _, _ in I.throws), "another exception")


# ------------------------------------------------------------------ the parse loop
def parse(ctx):
    f = the(ctx, LR + "parse")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("parse", key, w, ok, d)
    names = {"m_parse_stack_matches": "match", "m_parse_stack_states": "state"}
    hk = h_stacks(ctx, names)
    root_at = loc_of(ctx, f["clst"], "m_root_item_set_ptr")

    def which(obj):
        return next((v for s in reversed(obj[2]) if s[0] == "f" for k, v in names.items() if s[1].endswith("::" + k)), None) if obj else None

    def push(I, st, e, cx, obj, args):
        st.emit("push", which(obj), I.val(st, args[0]) if args else None)
        return [(st, ("o", "void"))]

    def empty(I, st, e, cx, obj, args):
        if which(obj) is None:
            return None
        return [(st, num(1 if any(x == ("pop", "match") for x in st.events) else 0))]

    def ev(name):
        def h(I, st, e, cx, obj, args):
            st.emit(name)
            return [(st, ("o", "void"))]
        return h

    def read(I, st, e, cx, obj, args):
        st.emit("read")
        return [(st, atom(("val", ("o", "err", st.fresh()))))]

    def token(I, st, e, cx, obj, args):
        t = ("o", "token", st.fresh())
        st.emit("next", t)
        return [(st, t)]

    def advance(I, st, e, cx, obj, args):
        st.emit("advance", I.val(st, args[0]))
        go, acc, no = st, st.copy(), st.copy()
        p = deref(as_num(I.val(st, args[1])))
        for s, done, a in ((go, 0, 0), (acc, 1, 1), (no, 1, 0)):
            s.emit("result", done, a)
            I.write(s, p, num(a))
        return [(go, ZERO), (acc, ONE), (no, ONE)]
    hk.update({LR + "reset": ev("reset"), P + "ParserInputBuffer::read_if_safe": read, LR + "get_next_symbol": token,
               LR + "parse_advance": advance, "std::stack::push": push, "std::stack::emplace": push, "std::stack::empty": empty,
               LR + "report_error": lambda I, st, e, cx, obj, args: [(st, ("o", "message"))]})
    hk["std::get"] = lambda I, st, e, cx, obj, args: [(st, args[0])]
    I = ctx.interp(hk)
    I.join_key = lambda s: tuple(x for x in s.events if x[0] == "result")
    outs = ctx.run(I, f, st=State(), args=[("ref", L(("obj", "reader")))])

    def last(s):
        r = [x for x in s.events if x[0] == "result"]
        return r[-1][1:] if r else None
    R("accepted texts give a result", bool(outs), "no path returns")
    R("refused texts give an exception", any(last(s) == (1, 0) for s, _, _ in I.throws), "no path throws")
    for s, v in outs:
        R("a result is given for accepted texts only", last(s) == (1, 1), "returns although the text was not accepted")
    for s, _, _ in I.throws:
        R("accepted texts are not refused", last(s) == (1, 0), "throws although the text was accepted")
    for s, _, _ in I.aborts:
        R("no assertion fails", False, "an assertion can fail")
    for s, v in outs + [(x[0], None) for x in I.throws]:
        evs = [x for x in s.events if x[0] in ("reset", "push", "read", "next", "advance", "loop", "pop")]
        pre = []
        for x in evs:
            if x[0] in ("loop", "next", "read"):
                break
            pre.append(x)
        R("every text starts anew", [x[0] for x in pre] == ["reset", "push"] and pre[1][1] == "state" and pre[1][2] in (I.read(s, root_at), I.read(s, root_at, "T *")),
          "the parser does not start with fresh stacks at the root state")
        rounds = [it for x in evs if x[0] == "loop" for it in x[2]]
        tail = [x for x in evs[len(pre):] if x[0] != "loop"]
        for it in rounds + [tail]:
            seq = [x for x in it if x[0] in ("read", "next", "advance")]
            good = [x[0] for x in seq] == ["read", "next", "advance"] and seq[1][1] == seq[2][1]
            R("each token is read, taken and parsed", good, "a round does %s" % ", ".join(x[0] for x in seq))
    for s, v in outs:
        pops = [x for x in s.events if x == ("pop", "match")]
        R("the whole text's symbol is returned", len(pops) == 1, "%d symbols are taken from the stack" % len(pops))


# ------------------------------------------------------------------ from text to Schema
def ast_of(ctx):
    """generate_schema_ast hands out the tree of the parsed text."""
    f = the(ctx, SPQ + "generate_schema_ast")
    w = ctx.where(f)
    nt = rec_name(ctx, "NonTerminal")
    tree = L(("obj", "tree"))

    def h_parse(I, st, e, cx, obj, args):
        st.emit("parse", args[0][1] if args[0][0] == "ref" else None)
        t = L(("obj", "parsed"))
        I.write(st, at(t, ("f", fq(nt, ctx, "m_ast"))), addr(tree))
        st.cls[tree[1]] = P + "SchemaAST"
        return [(st, ("ref", t))]
    I = ctx.interp({LR + "parse": h_parse})
    rd = L(("obj", "reader"))
    outs = ctx.run(I, f, st=State(), args=[("ref", rd)])
    ctx.check("tree", "a parsed text has a tree", w, bool(outs) and not I.throws, "some path fails")
    for s, v in outs:
        ctx.check("tree", "the text is parsed once", w, [x for x in s.events if x[0] == "parse"] == [("parse", rd)], "other input")
        ctx.check("tree", "the tree parsed is returned", w, as_num(I.val(s, v)) == addr(tree), "returns %s" % show(I.val(s, v))[:80])


def schema_file(ctx):
    """A file that cannot be opened is an exception; otherwise the file's own bytes are parsed."""
    f = the(ctx, SPQ + "try_schema_file")
    w = ctx.where(f)
    ok = err(ctx, "Success")
    file = []

    def h_open(I, st, e, cx, obj, args):
        a = args[0]
        st.emit("open", obj, a[1] if a[0] == "ref" else None)
        out = []
        for s, b in I.split(st, sym("opened")):
            c = ok
            if not b:
                c = atom(s.fresh("code"))
                s.facts.assume(sub(c, ok), "!=")
            out.append((s, c))
        return out

    def h_tree(I, st, e, cx, obj, args):
        st.emit("tree", I.val(st, args[0]))
        o, r = obj_of(ctx, st, "tree", "SchemaAST")
        return [(st, addr(o))]

    def h_close(I, st, e, cx, obj, args):
        st.emit("close", obj)
        return [(st, ("o", "void"))]
    void = lambda I, st, e, cx, obj, args: [(st, ("o", "void"))]
    r = rec_name(ctx, "SchemaAST")
    I = ctx.interp({P + "FileReader::try_open": h_open, SPQ + "generate_schema_ast": h_tree, P + "FileReader::close": h_close,
                    SPQ + "<ctor>": void, "log_surgeon::strfmt": lambda I, st, e, cx, obj, args: [(st, ("o", "message"))]})
    I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
    st = State()
    st.facts._bound(sym("opened"), 0, 1)
    path_ = L(("obj", "path"))
    outs = ctx.run(I, f, st=st, args=[("ref", path_)])
    R = lambda key, ok_, d: ctx.check("file", key, w, ok_, d)
    R("an open file is parsed", bool(outs), "no path returns")
    R("an unopened file is an exception", any(truth(s, sym("opened")) is False for s, _, _ in I.throws), "no exception")
    for s, _, _ in I.throws:
        R("an open file is not refused", truth(s, sym("opened")) is False, "throws although the file was opened")
    for s, v in outs:
        R("only open files are parsed", truth(s, sym("opened")) is True, "returns a tree although the file could not be opened")
        op = [x for x in s.events if x[0] == "open"]
        R("the file named is opened", len(op) == 1 and op[0][2] == path_, "opens another file")
        tr = [i for i, x in enumerate(s.events) if x[0] == "tree"]
        cl = [i for i, x in enumerate(s.events) if x[0] == "close"]
        R("the file is open while it is parsed", len(tr) == 1 and all(c > tr[0] for c in cl), "closed before it is parsed")
        R("the tree parsed is returned", as_num(I.val(s, v)) == addr(L(("obj", "tree"))), "returns %s" % show(I.val(s, v))[:80])
        fp = I.read(s, at(L(("obj", "tree")), ("f", fq(r, ctx, "m_file_path"))))
        R("the tree knows its file", fp == I.read(s, path_), "its path is %s" % show(fp)[:60])


# ------------------------------------------------------------------ Schema
def listing(I, s, loc):
    """The elements of a container that are known one by one; None when they are not."""
    def go(v):
        if v[0] == "upd" and all(len(x) == 1 and x[0][0] == "e" and is_const(as_num(x[0][1])) for x, _ in v[2]):
            old = go(v[1])
            if old is None:
                return None
            new = list(old)
            for x, y in v[2]:
                i = as_num(x[0][1])[1]
                if not 0 <= i < len(new):
                    return None
                new[i] = y
            return tuple(new)
        if v[:2] == ("o", "vec"):
            return tuple(v[2])
        if v[:2] == ("o", "push"):
            old = go(v[2])
            return None if old is None else old + (I.val(s, v[3]),)
        if v[:2] == ("o", "inserted") and len(v[3]) == 2:
            old, i = go(v[2]), sub(as_num(v[3][0]), addr(at(loc, ("e", ZERO))))
            if old is None or not is_const(i) or not 0 <= i[1] <= len(old):
                return None
            return old[:i[1]] + (I.val(s, v[3][1]),) + old[i[1]:]
        return None
    return go(I.read(s, loc))


def add_variable(ctx):
    f = the(ctx, P + "Schema::add_variable")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("add_variable", key, w, ok, d)
    r = rec_name(ctx, "SchemaAST")
    mine = L(("obj", "mine"))
    vars_ = lambda o: at(o, ("f", fq(r, ctx, "m_schema_vars")))
    for n in (0, 1, 2):
        def h_text(I, st, e, cx, obj, args):
            o, _ = obj_of(ctx, st, "parsed", "SchemaAST")
            st.emit("text", I.val(st, args[0]))
            I.write(st, vars_(o), ("o", "vec", tuple(addr(L(("obj", "new%d" % i))) for i in range(n))))
            return [(st, addr(o))]

        def h_add(I, st, e, cx, obj, args):
            st.emit("add", obj, as_num(I.val(st, args[0])), as_num(I.val(st, args[1])) if len(args) > 1 else num(-1))
            return [(st, ("o", "void"))]
        I = ctx.interp({SPQ + "try_schema_string": h_text, P + "SchemaAST::add_schema_var": h_add})
        st = State()
        obj_of(ctx, st, "mine", "SchemaAST")
        I.write(st, loc_of(ctx, f["clst"], "m_schema_ast"), addr(mine))
        text, prio = ("o", "in", L(("obj", "text"))), sym("priority")
        outs = ctx.run(I, f, st=st, args=[text, prio])
        if n == 0:
            R("a text without variable is refused", not outs and bool(I.throws), "it is not refused")
            R("a text without variable adds nothing", all(not any(x[0] == "add" for x in s.events) for s, _ in outs), "something is added")
            continue
        R("a text with a variable is accepted", bool(outs) and not I.throws, "it is refused")
        for s, v in outs:
            R("the given text is parsed", [x for x in s.events if x[0] == "text"] == [("text", text)], "another text")
            R("its first variable is added where asked", [x for x in s.events if x[0] == "add"] == [("add", mine, addr(L(("obj", "new0"))), prio)],
              "adds %s" % "; ".join(", ".join(map(show, x[2:])) for x in s.events if x[0] == "add"))


def add_schema_var(ctx):
    f = the(ctx, P + "SchemaAST::add_schema_var")
    w = ctx.where(f)
    R = lambda key, ok, d: ctx.check("add_schema_var", key, w, ok, d)
    lv = loc_of(ctx, f["clst"], "m_schema_vars")
    new = addr(L(("obj", "new")))
    for n in (0, 1, 3):
        old = tuple(addr(L(("obj", "old%d" % i))) for i in range(n))
        for pos in [-1] + list(range(n + 1)) + ["below", "above"]:
            I = ctx.interp()
            st = State()
            I.write(st, lv, ("o", "vec", old))
            p = sym("pos")
            if pos == "below":
                st.facts.assume(add(p, num(2)), "<=")
                st.facts._bound(p, -2**31, -2)
            elif pos == "above":
                st.facts._bound(p, n + 1, 2**31 - 1)
            else:
                p = num(pos)
            outs = ctx.run(I, f, st=st, args=[new, p])
            key = "%d variables, position %s" % (n, pos)
            if isinstance(pos, str):
                R(key + " is refused", not outs and bool(I.throws), "a position that does not exist is used")
                R(key + " changes nothing", all(listing(I, s, lv) == old for s, _, _ in I.throws), "the variables change")
                continue
            R(key + " is accepted", bool(outs) and not I.throws, "it is refused")
            at_ = n if pos == -1 else pos
            want = old[:at_] + (new,) + old[at_:]
            for s, _ in outs:
                got = listing(I, s, lv)
                R(key, got is not None and tuple(map(as_num, got)) == want, "the variables are %s" % (
                    ", ".join(map(show, got)) if got is not None else "?"))


def schema_object(ctx):
    """A Schema made from a file is that file's; giving its tree away leaves an empty one."""
    for f in ctx.m.fns(P + "Schema::<ctor>"):
        if not f["params"] or "Schema" in f["params"][0]["t"]:
            continue
        got = L(("obj", "tree"))
        I = ctx.interp({SPQ + "try_schema_file": lambda I, st, e, cx, obj, args: [(st.emit("file", args[0][1] if args[0][0] == "ref" else None) or st, addr(got))]})
        p = L(("obj", "path"))
        outs = ctx.run(I, f, st=State(), args=[("ref", p)])
        w = ctx.where(f)
        ctx.check("schema", "a schema is made from a file", w, bool(outs) and not I.throws, "some path fails")
        for s, _ in outs:
            v = as_num(I.read(s, loc_of(ctx, f["clst"], "m_schema_ast"), "T *"))
            ctx.check("schema", "the file's rules are the schema's", w, v == addr(got) and ("file", p) in s.events, "holds %s" % show(v))
    f = the(ctx, P + "Schema::release_schema_ast_ptr")
    w = ctx.where(f)
    lv = loc_of(ctx, f["clst"], "m_schema_ast")
    I = ctx.interp()
    st = State()
    o, r = obj_of(ctx, st, "mine", "SchemaAST")
    I.write(st, lv, addr(o))
    outs = ctx.run(I, f, st=st)
    ctx.check("schema", "the rules can be taken", w, bool(outs) and not I.throws, "some path fails")
    for s, v in outs:
        ctx.check("schema", "the rules taken are the schema's", w, as_num(I.val(s, v)) == addr(o), "returns %s" % show(I.val(s, v)))
        n = as_num(I.read(s, lv, "T *"))
        d = deref(n) if n[1] == 0 and n[2] else None
        fresh = d is not None and d != o and d[1][0] == "h"
        ctx.check("schema", "an empty schema is left", w, fresh and all(
            I.read(s, at(d, ("f", fq(r, ctx, x)))) in (("o", "vec", ()), ("o", "zero")) for x in ("m_schema_vars", "m_delimiters")),
            "what is left is %s" % show(n))
