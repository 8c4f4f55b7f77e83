"""C19/C18: the schema's rules become the lexer's rules; names and ids of symbols."""
from lib import *
from rules.schema import Describe, text, fq, rec_name, obj_of, byte_only, child, special_loc

AST = P + "finite_automata::RegexAST"
SOF = 3


def sof(ctx):
    for q, g in ctx.m.globals.items():
        if q.endswith("cCharStartOfFile"):
            v = g.get("cv")
            if v is None and g.get("init") is not None:
                v = g["init"].get("cv")
            if v is not None:
                return int(v)
    return None


# ------------------------------------------------------------------ delimiters
def delimiters(ctx):
    """After add_delimiters exactly the listed characters and the start of the file are delimiters."""
    f = byte_only(ctx.m.fns(P + "Lexer::add_delimiters"))
    g = byte_only(ctx.m.fns(P + "Lexer::is_delimiter"))
    ctx.need(f and g, "Lexer::add_delimiters not found")
    f, g = f[0], g[0]
    w = ctx.where(f)
    start = sof(ctx)
    ctx.need(start is not None, "cCharStartOfFile not found")
    for given in ((32,), (10, 44, 32), (127, 9, 58, 9)):
        I = ctx.interp()
        I.unroll = 300
        st = State()
        arg = L(("obj", "list"))
        I.write(st, arg, ("o", "vec", tuple(map(num, given))))
        outs = ctx.run(I, f, st=st, args=[("ref", arg)])
        key = "%d delimiters" % len(given)
        ctx.check("delimiters", key + " accepted", w, outs and not I.aborts and not I.throws, "the delimiters are not accepted")
        for s, _ in outs:
            got = set()
            bad = []
            for c in range(256):
                I2 = ctx.interp()
                for s2, v in ctx.run(I2, g, st=s.copy(), args=[num(c)]):
                    t = truth(s2, I2.val(s2, v))
                    if t is None:
                        bad.append(c)
                    elif t:
                        got.add(c)
            ctx.check("delimiters", key, w, not bad and got == set(given) | {start},
                      "delimiters are %s%s" % (sorted(got), ", unknown for %s" % bad[:4] if bad else ""))


# ------------------------------------------------------------------ add_rules
def hooks19(ctx, delims, seen):
    def is_delim(I, st, e, cx, obj, args):
        i = as_num(I.val(st, args[0]))
        ctx.need(is_const(i), "delimiters are looked up by a computed index")
        return [(st, num(1 if i[1] in delims else 0))]

    def add_rule(I, st, e, cx, obj, args):
        if cx.fn["id"] == "<root>":
            return None
        from rules.schema import word
        st.emit("rule", word(I.val(st, args[0])), Describe(ctx, I, st).tree(I.val(st, args[1])))
        return [(st, ("o", "void"))]

    def add_token(I, st, e, cx, obj, args):
        from rules.schema import word
        st.emit("rule", word(I.val(st, args[0])), ("char", as_num(I.val(st, args[1]))))
        return [(st, ("o", "void"))]

    def clone(I, st, e, cx, obj, args):
        st.n += 1
        p = addr(L(("obj", "copy of " + str(obj[1][1]))))
        return [(st, p)]

    def narrow(I, st, e, cx, obj, args):
        st.emit("narrow", obj[1], I.val(st, args[0]))
        return [(st, ("o", "void"))]

    def inputs(I, st, e, cx, obj, args):
        st.emit("inputs", obj[1])
        arr = args[0][1]
        I.write(st, arr, ("o", "in", L(("obj", "possible " + str(obj[1][1])))))
        return [(st, ("o", "void"))]

    def add_delims(I, st, e, cx, obj, args):
        st.emit("delims", I.val(st, args[0]))
        return [(st, ("o", "void"))]
    return {P + "Lexer::is_delimiter": is_delim, P + "Parser::add_rule": add_rule, P + "LALR1Parser::add_rule": add_rule,
            P + "LogParser::add_rule": add_rule, P + "Parser::add_token": add_token, AST + "::clone": clone,
            AST + "::remove_delimiters_from_wildcard": narrow, AST + "::set_possible_inputs_to_true": inputs,
            P + "Lexer::add_delimiters": add_delims}


def schema_obj(ctx, I, st, names, n_delims):
    l, r = obj_of(ctx, st, "schema", "SchemaAST")
    vs = []
    for i, n in enumerate(names):
        v, vr = obj_of(ctx, st, "var%d" % i, "SchemaVarAST")
        I.write(st, at(v, ("f", fq(vr, ctx, "m_name"))), ("o", "str", n))
        I.write(st, at(v, ("f", fq(vr, ctx, "m_regex_ptr"))), addr(L(("obj", "pattern%d" % i))))
        vs.append(addr(v))
    I.write(st, at(l, ("f", fq(r, ctx, "m_schema_vars"))), ("o", "vec", tuple(vs)))
    ds = []
    for i in range(n_delims):
        d, dr = obj_of(ctx, st, "delims%d" % i, "DelimiterStringAST")
        I.write(st, at(d, ("f", fq(dr, ctx, "m_delimiters"))), ("o", "vec", (num(100 + i),)))
        ds.append(addr(d))
    I.write(st, at(l, ("f", fq(r, ctx, "m_delimiters"))), ("o", "vec", tuple(ds)))
    return addr(l)


OPAQUE19 = (P + "FileReader::try_open", P + "FileReader::try_read_to_delimiter", P + "FileReader::<ctor>",
            P + "FileReader::<dtor>", P + "FileReader::read", P + "FileReader::close")


def construction(ctx):
    """A log parser is built from its schema: its rules are added, and only then the automata are generated from them."""
    add, gen = P + "LogParser::add_rules", P + "Lexer::generate"
    given = atom(("param", "schema"))
    mark_ptr(given[2][0][0])
    ctors = [c for c in ctx.m.fns(P + "LogParser::<ctor>") if c.get("body") is not None and len(c.get("params") or ()) == 1
             and not c.get("copyctor") and not c.get("movector")]
    ctors = [c for c in ctors if "LogParser" not in c["params"][0]["t"]]
    ctx.need(ctors, "no constructor of LogParser found")
    n = 0
    for c in ctors:
        def h_add(I, st, e, cx, obj, args):
            v = args[0]
            if v[0] == "ref":
                v = I.read(st, v[1], "std::unique_ptr<>")
            st.emit("rules", as_num(I.val(st, v)))
            return [(st, ("o", "void"))]

        def h_gen(I, st, e, cx, obj, args):
            st.emit("generate")
            return [(st, ("o", "void"))]

        def h_file(I, st, e, cx, obj, args):
            st.emit("file", I.val(st, args[0]))
            return [(st, atom(("schema of", I.val(st, args[0]))))]

        def h_reset(I, st, e, cx, obj, args):
            st.emit("reset")
            return [(st, ("o", "void"))]
        I = ctx.interp({add: h_add, gen: h_gen, P + "SchemaParser::try_schema_file": h_file, P + "LogParser::reset": h_reset,
                        P + "Lexer::prepend_start_of_file_char": h_reset})
        I.join_key = lambda s: tuple(map(repr, s.events))
        w = ctx.where(c)
        byname = "basic_string" in c["params"][0]["t"] or "std::string" in c["params"][0]["t"]
        key = "LogParser(%s)" % ("schema file" if byname else "schema")
        arg = L(("obj", "schema"))
        st = State()
        if not byname:
            st.store[arg] = given
        else:
            st.store[arg] = ("o", "in", L(("obj", "path")))
        outs = ctx.run(I, c, st=st, args=[("ref", arg)])
        ctx.check("construction", key + " yields a parser", w, bool(outs), "no path completes")
        for s, v in outs:
            n += 1
            evs = [x for x in s.events if x[0] in ("rules", "generate", "file", "reset")]
            ks = [x[0] for x in evs]
            ctx.check("construction", key + "/the schema's rules are added", w, ks.count("rules") == 1, "rules are added %d times" % ks.count("rules"))
            ctx.check("construction", key + "/the automata are generated from them", w, "generate" in ks and "rules" in ks and
                      ks.index("rules") < ks.index("generate"), "the steps are: %s" % ", ".join(ks))
            ctx.check("construction", key + "/the automata exist before they are used", w, "reset" not in ks or (
                "generate" in ks and ks.index("generate") < ks.index("reset")), "the steps are: %s" % ", ".join(ks))
            for x in evs:
                if x[0] == "rules":
                    want = given if not byname else atom(("schema of", ("o", "in", L(("obj", "path")))))
                    ctx.check("construction", key + "/the given schema is used", w, x[1] == want, "it is %s" % show(x[1]))
    ctx.need(n >= 2, "constructors of LogParser not recognised")


def rule19(ctx):
    construction(ctx)
    delimiters(ctx)
    fs = ctx.m.fns(P + "LogParser::add_rules")
    ctx.need(fs, "LogParser::add_rules not found")
    f = fs[0]
    w = ctx.where(f)
    start = sof(ctx)
    pool = ((10, 32, start), (0, 44, 255), (9,))
    for names in (("a",), ("timestamp",), ("a", "timestamp", "b"), ("timestamp", "a"), ("a", "a"), ()):
        for delims in pool if len(names) == 1 else pool[:1]:
            one(ctx, f, w, names, delims, 2, start)
    one(ctx, f, w, ("a",), (), 0, start)


def one(ctx, f, w, names, delims, n_delims, start):
    key = "%s with %d delimiters" % ("/".join(names) or "no rule", len(delims))
    I = ctx.interp(hooks19(ctx, set(delims), []), opaque=OPAQUE19)
    I.unroll = 300
    I.unroll_fork = 12
    I.join_key = lambda s: (tuple(sorted(map(repr, s.facts.b.items()))), tuple(map(repr, s.events)))
    st = State()
    p = schema_obj(ctx, I, st, names, n_delims)
    outs = ctx.run(I, f, st=st, args=[p])
    if not delims:
        ctx.check("rules", key + " are rejected", w, not outs and not I.aborts, "a schema without delimiters is accepted")
        return
    ctx.check("rules", key + " are accepted", w, outs, "the rules are always rejected")
    ds = tuple(num(d) for d in sorted(delims))
    grp = ("group", ZERO, ZERO, tuple(sorted(((d, d) for d in ds), key=repr)))
    for s, _ in outs:
        got = [x[1:] for x in s.events if x[0] == "rule"]
        if any(x[0] == "loop" and contains(x, lambda y: isinstance(y, tuple) and y[:1] == ("rule",)) for x in s.events):
            raise AnalysisBroken("rules are added in a loop that is not understood")
        want = [(("o", "str", "newLine"), ("char", num(10)))]
        for i, n in enumerate(names):
            if n == "timestamp":
                c = lambda: ("child", "copy of pattern%d" % i)
                alt = (c(), ("child", "pattern%d" % i))
                want += [(("o", "str", "firstTimestamp"), ("cat", ("char", num(start)), alt)),
                         (("o", "str", "newLineTimestamp"), ("cat", ("char", num(10)), alt))]
            else:
                alt = (("child", "pattern%d" % i), ("child", "copy of pattern%d" % i))
                want.append((("o", "str", n), ("cat", grp, alt)))
        for i in range(max(len(got), len(want))):
            if i >= len(got) or i >= len(want):
                ctx.check("rules", "%s/rule %d" % (key, i), w, False, "%d rules are added instead of %d" % (len(got), len(want)))
                break
            (gn, gt), (wn, wt) = got[i], want[i]
            ok = gn == wn and (gt == wt or (gt[0] == "cat" == wt[0] and gt[1] == wt[1] and gt[2] in wt[2]))
            ctx.check("rules", "%s/rule %d" % (key, i), w, ok, "adds %s as %s, expected %s as %s" % (
                text(gt), show(gn), text(wt), show(wn)))
        for i, n in enumerate(names):
            if n == "timestamp":
                continue
            root = ("obj", "pattern%d" % i)
            seq = [(k, x) for k, x in enumerate(s.events) if x[0] in ("narrow", "inputs") and x[1] == root]
            nar = [k for k, x in seq if x[0] == "narrow"]
            inp = [k for k, x in seq if x[0] == "inputs"]
            ctx.check("rules", "%s/'.' of rule %d excludes the delimiters" % (key, i), w, len(nar) >= 1 and all(
                sorted(map(repr, Describe(ctx, I, s).list(x[2]))) == sorted(map(repr, ds)) for k, x in seq if x[0] == "narrow"),
                "'.' keeps delimiters")
            ctx.check("rules", "%s/'.' of rule %d excluded before the check" % (key, i), w,
                      inp and nar and min(inp) > min(nar), "the characters are checked before '.' is narrowed")
            for d in ds:
                v = possible_at(I, s, i, d)
                ctx.check("rules", "%s/rule %d cannot contain delimiter" % (key, i), w, truth(s, v) is False,
                          "accepted although the pattern may contain character %s" % show(d))
        if n_delims:
            got = [x[1] for x in s.events if x[0] == "delims"]
            ctx.check("rules", key + "/last delimiters are used", w, got and show(got[-1]) == show(
                ("o", "vec", (num(100 + n_delims - 1),))), "uses %s" % ", ".join(map(show, got)))
    for x in I.throws:
        s = x[0]
        bad = any(truth(s, possible_at(I, s, i, d)) is True for i, n in enumerate(names) if n != "timestamp" for d in ds)
        ctx.check("rules", key + " rejected only for delimiters", w, bad, "rejected when %s" % facts_str(s, 8))
    for x in I.aborts[:1]:
        ctx.check("rules", key + " asserts", w, False, "an assertion fails when %s" % facts_str(x[0], 6))


def possible_at(I, s, i, d):
    return I.sel(s, ("o", "in", L(("obj", "possible pattern%d" % i))), (("e", d),), "bool")


# ------------------------------------------------------------------ names and ids
MAPS = ("m_symbol_id", "m_id_symbol")


class Maps:
    """Models the two maps between names and ids: unknown old entries, listed new ones."""

    def __init__(self, ctx, empty=False):
        self.ctx, self.empty = ctx, empty

    def which(self, obj):
        if obj is None or obj[0] != "L":
            return None
        for s in obj[2][-1:]:
            if s[0] == "f" and s[1].rsplit("::", 1)[-1] in MAPS:
                return s[1].rsplit("::", 1)[-1]
        return None

    def added(self, st, w):
        v = st.store.get(L(("obj", "added:" + w)))
        return list(v[2]) if v is not None else []

    def key(self, v):
        return as_num(v) if v[0] == "n" else v

    def cell(self, w, k):
        return L(("obj", "cell:%s:%r" % (w, k)))

    def has(self, st, w, k):
        """[(state, bool)]"""
        for x in self.added(st, w):
            if self.eq(st, x, k):
                return [(st, True)]
        if self.empty:
            return [(st, False)]
        if w == "m_id_symbol" and "symbols" in repr(k):
            return [(st, False)]
        if w == "m_id_symbol" and "idof" in repr(k):
            return [(st, True)]
        f = atom(("has", w, k))
        st.facts._bound(f, max(0, int(st.facts.lower(f)) if st.facts.lower(f) > 0 else 0), 1)
        return [(s, truth(s, f)) for s, b in self.I.split(st, f)]

    def eq(self, st, a, b):
        return a == b or (a[0] == "n" and b[0] == "n" and same(st, a, b))

    def insert(self, st, w, k, v=None):
        st.store[L(("obj", "added:" + w))] = ("o", "vec", tuple(self.added(st, w)) + (k,))
        st.emit("insert", w, k)
        if v is not None:
            st.store[self.cell(w, k)] = v

    def old(self, st, w, k):
        c = self.cell(w, k)
        if c not in st.store:
            st.store[c] = atom(("idof", k)) if w == "m_symbol_id" else ("o", "nameof", k)
        return c

    def hooks(self):
        out = {}
        for c in ("std::unordered_map::", "std::map::"):
            out.update({c + "find": self.h_find, c + "end": self.h_end, c + "cend": self.h_end,
                        c + "operator[]": self.h_sub, c + "at": self.h_at, c + "size": self.h_size,
                        c + "contains": self.h_contains, c + "count": self.h_contains,
                        c + "emplace": self.h_insert, c + "insert": self.h_insert, c + "try_emplace": self.h_insert,
                        c + "insert_or_assign": self.h_insert})
        for q in ("std::__detail::operator==", "std::operator=="):
            out[q] = self.h_eq(True)
        for q in ("std::__detail::operator!=", "std::operator!="):
            out[q] = self.h_eq(False)
        for c in ("std::__detail::_Node_iterator::", "std::__detail::_Node_const_iterator::", "std::_Rb_tree_iterator::",
                  "std::_Rb_tree_const_iterator::"):
            out[c + "operator->"] = self.h_arrow
            out[c + "operator*"] = self.h_star
        return out

    def arg(self, I, st, a):
        return self.key(I.val(st, a))

    def h_find(self, I, st, e, cx, obj, args):
        self.I = I
        w = self.which(obj)
        return [(st, ("o", "symit", w, self.arg(I, st, args[0])))] if w else None

    def h_end(self, I, st, e, cx, obj, args):
        w = self.which(obj)
        return [(st, ("o", "symend", w))] if w else None

    def h_eq(self, pos):
        def h(I, st, e, cx, obj, args):
            self.I = I
            vs = [I.val(st, a) for a in args] if obj is None else [I.read(st, obj), I.val(st, args[0])]
            if len(vs) != 2:
                return None
            it = [v for v in vs if v[:2] == ("o", "symit")]
            end = [v for v in vs if v[:2] == ("o", "symend")]
            if len(it) != 1 or len(end) != 1:
                return None
            return [(s, num(1 if b != pos else 0)) for s, b in self.has(st, it[0][2], it[0][3])]
        return h

    def pair(self, I, st, it):
        w, k = it[2], it[3]
        p = L(("obj", "pair:%s:%r" % (w, k)))
        I.write(st, at(p, ("f", "std::pair::first")), k)
        I.write(st, at(p, ("f", "std::pair::second")), st.store[self.old(st, w, k)])
        return p

    def h_arrow(self, I, st, e, cx, obj, args):
        v = I.read(st, obj)
        if v[:2] != ("o", "symit"):
            return None
        return [(st, addr(self.pair(I, st, v)))]

    def h_star(self, I, st, e, cx, obj, args):
        v = I.read(st, obj)
        if v[:2] != ("o", "symit"):
            return None
        return [(st, ("ref", self.pair(I, st, v)))]

    def h_sub(self, I, st, e, cx, obj, args):
        self.I = I
        w = self.which(obj)
        if not w:
            return None
        k = self.arg(I, st, args[0])
        out = []
        for s, b in self.has(st, w, k):
            if b:
                out.append((s, ("ref", self.old(s, w, k))))
            else:
                self.insert(s, w, k, ZERO if w == "m_symbol_id" else ("o", "str", ""))
                out.append((s, ("ref", self.cell(w, k))))
        return out

    def h_at(self, I, st, e, cx, obj, args):
        self.I = I
        w = self.which(obj)
        if not w:
            return None
        k = self.arg(I, st, args[0])
        out = []
        for s, b in self.has(st, w, k):
            if b:
                out.append((s, ("ref", self.old(s, w, k))))
            else:
                s.emit("throws")
                I.throws.append((s, e, cx))
        return out

    def h_size(self, I, st, e, cx, obj, args):
        w = self.which(obj)
        if not w:
            return None
        return [(st, add(ZERO if self.empty else atom(("count", "symbols")), num(len(self.added(st, w)))))]

    def h_contains(self, I, st, e, cx, obj, args):
        self.I = I
        w = self.which(obj)
        if not w:
            return None
        return [(s, num(1 if b else 0)) for s, b in self.has(st, w, self.arg(I, st, args[0]))]

    def h_insert(self, I, st, e, cx, obj, args):
        self.I = I
        w = self.which(obj)
        if not w:
            return None
        if len(args) == 2:
            k, v = self.arg(I, st, args[0]), I.val(st, args[1])
        else:
            p = I.val(st, args[0])
            if p[:2] != ("o", "pair"):
                return None
            k, v = self.key(p[2]), p[3]
        out = []
        for s, b in self.has(st, w, k):
            if not b:
                self.insert(s, w, k, v)
            elif e["q"].endswith("insert_or_assign"):
                s.store[self.old(s, w, k)] = v
            out.append((s, ("o", "pair", ("o", "symit", w, k), num(0 if b else 1))))
        return out

    # -------------------------------------------------------------- what they hold afterwards
    def entries(self, st, w):
        """New entries {key: value}; changed old entries {key: value}."""
        new = {k: st.store.get(self.cell(w, k)) for k in self.added(st, w)}
        changed = {}
        for l, v in st.store.items():
            if l[1][0] == "obj" and str(l[1][1]).startswith("cell:%s:" % w) and not any(l == self.cell(w, k) for k in new):
                k = l[1][1].split(":", 2)[2]
                if not (v[0] == "n" and v[2] and v[2][0][0][0] == "idof") and v[:2] != ("o", "nameof"):
                    changed[k] = v
        return new, changed

    def inverse(self, ctx, rule, key, where, s, names):
        """The maps stay each other's inverse and ids stay 0 .. n-1."""
        ids, ci = self.entries(s, "m_symbol_id")
        syms, cs = self.entries(s, "m_id_symbol")
        base = ZERO if self.empty else atom(("count", "symbols"))
        ctx.check(rule, key + "/known symbols keep their ids", where, not ci and not cs, "changes %s" % ", ".join(
            show(v) for v in list(ci.values()) + list(cs.values())))
        vals = [as_num(v) if v is not None else None for v in ids.values()]
        want = [add(base, num(i)) for i in range(len(ids))]
        ctx.check(rule, key + "/new symbols get the next free ids", where, sorted(map(repr, vals)) == sorted(map(repr, want)),
                  "ids of new symbols are %s" % ", ".join(map(show, vals)))
        inv = {repr(as_num(v)): k for k, v in ids.items()}
        ok = len(inv) == len(ids) == len(syms) and all(
            any(self.eq(s, i, as_num(v)) and n == k for i, n in syms.items()) for k, v in ids.items())
        ctx.check(rule, key + "/id and name belong together", where, ok, "names %s have ids %s, but ids %s have names %s" % (
            ", ".join(map(show, ids)), ", ".join(map(show, vals)), ", ".join(map(show, syms)),
            ", ".join(show(v) if v is not None else "?" for v in syms.values())))

    def id_of(self, s, k):
        c = s.store.get(self.cell("m_symbol_id", k))
        return as_num(c) if c is not None else None


def rule18(ctx):
    reserved(ctx)
    lookups(ctx)
    new_rule(ctx)
    new_production(ctx)


def reserved(ctx):
    f = [x for x in byte_only(ctx.m.fns(P + "Parser::<ctor>")) if not x["params"]]
    ctx.need(f, "constructor of Parser not found")
    f = f[0]
    w = ctx.where(f)
    M = Maps(ctx, empty=True)
    I = ctx.interp(M.hooks())
    enum = next((v for q, v in ctx.m.enums.items() if q.endswith("SymbolId")), None)
    ctx.need(enum, "enum SymbolId not found")
    outs = ctx.run(I, f)
    ctx.check("reserved", "parser is built", w, outs, "no path of the constructor completes")
    for s, _ in outs:
        M.inverse(ctx, "reserved", "reserved symbols", w, s, ())
        ids, _ = M.entries(s, "m_symbol_id")
        got = {as_num(v)[1]: constant_text(ctx, k) for k, v in ids.items() if v is not None and is_const(as_num(v))}
        vals = enum_values(enum)
        ctx.check("reserved", "every reserved id has a name", w, set(got) == set(vals.values()),
                  "ids with a name are %s" % sorted(got))
        for n, v in sorted(vals.items()):
            name = got.get(v, "")
            ctx.check("reserved", n, w, name_of(n) == name, "the name of %s is %r" % (n, name))


RESERVED = {"TokenEnd": "$end", "TokenUncaughtString": "$UncaughtString", "TokenInt": "int", "TokenFloat": "float",
            "TokenHex": "hex", "TokenFirstTimestamp": "firstTimestamp", "TokenNewlineTimestamp": "newLineTimestamp",
            "TokenNewline": "newLine"}


def constant_text(ctx, k):
    """The text a key of the map is, when it is a constant of the program."""
    if k[:2] == ("o", "str"):
        return k[2]
    found = []

    def look(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "g":
            found.append(x[1])
        return False
    contains(k, look)
    for q in found:
        init = (ctx.m.globals.get(q) or {}).get("init") or {}
        if "s" in init:
            return init["s"]
        if "v" in init and isinstance(init["v"], str):
            return init["v"]
    return None


def name_of(n):
    return RESERVED.get(n)


def enum_values(enum):
    if isinstance(enum, dict):
        return {k.rsplit("::", 1)[-1]: v for k, v in enum.items()}
    out = {}
    for x in enum:
        out[x["n"] if isinstance(x, dict) else x[0]] = x["v"] if isinstance(x, dict) else x[1]
    return out


def lookups(ctx):
    name = ("o", "in", L(("obj", "arg0")))
    for f in ctx.m.fns(P + "LogParser::get_symbol_id"):
        M = Maps(ctx)
        I = ctx.interp(M.hooks())
        st = State()
        outs = ctx.run(I, f, st=st)
        seen = set()
        for s, v in outs:
            k = [x for x in s.facts.b if "has" in repr(x)]
            known = any(truth(s, ("n", 0, x)) for x in k)
            seen.add(known)
            v = I.val(s, v)
            ok = v == ("o", "none") if not known else v[:2] == ("o", "some") and "idof" in repr(v[2])
            ctx.check("lookup", "id of %s symbol" % ("a known" if known else "an unknown"), ctx.where(f), ok and not M.added(s, "m_symbol_id"),
                      "yields %s" % show(v))
        ctx.check("lookup", "id of a symbol", ctx.where(f), seen == {True, False}, "does not tell known symbols from others")
    for f in ctx.m.fns(P + "LogParser::get_id_symbol"):
        M = Maps(ctx)
        I = ctx.interp(M.hooks())
        outs = ctx.run(I, f)
        ctx.check("lookup", "name of an id", ctx.where(f), outs, "always fails")
        for s, v in outs:
            v = I.val(s, v)
            ctx.check("lookup", "name of an id is the id's", ctx.where(f), v[:2] == ("o", "nameof"), "yields %s" % show(v))


def new_rule(ctx):
    """A rule's tokens carry the id of its name."""
    name = ("o", "str", "name")
    node = addr(L(("obj", "pattern")))

    def lexer_rule(I, st, e, cx, obj, args):
        st.emit("lexrule", as_num(I.val(st, args[0])), as_num(I.val(st, args[1])))
        return [(st, ("o", "void"))]
    for q in (P + "Parser::add_rule", P + "LALR1Parser::add_rule"):
        for f in byte_only(ctx.m.fns(q)):
            w = ctx.where(f)
            M = Maps(ctx)
            hk = M.hooks()
            hk[P + "Lexer::add_rule"] = lexer_rule
            I = ctx.interp(hk)
            I.join_key = lambda s: (tuple(sorted(map(repr, s.facts.b.items()))), tuple(map(repr, s.events)))
            short = q.rsplit("::", 2)[-2]
            outs = ctx.run(I, f, args=[name, node])
            ctx.check("rule-id", short + " adds rules for new and for known names", w, len(outs) >= 2, "not both complete")
            for s, _ in outs:
                known = not M.added(s, "m_symbol_id")
                key = "%s rule of a %s name" % (short, "known" if known else "new")
                M.inverse(ctx, "rule-id", key, w, s, (name,))
                rs = [x for x in s.events if x[0] == "lexrule"]
                want = atom(("idof", name)) if known else atom(("count", "symbols"))
                ctx.check("rule-id", key, w, len(rs) == 1 and same(s, rs[0][1], want) and rs[0][2] == node,
                          "adds %s" % "; ".join("rule %s with id %s" % (show(x[2]), show(x[1])) for x in rs))
    for f in byte_only(ctx.m.fns(P + "Lexer::add_rule")):
        w = ctx.where(f)
        I = ctx.interp()
        st = State()
        rules = loc_of(ctx, f["clst"], "m_rules")
        outs = ctx.run(I, f, st=st, args=[sym("id"), node])
        for s, _ in outs:
            v = I.read(s, rules, "std::vector<R>")
            ok = v[:2] == ("o", "push") and v[2] == ("o", "in", rules)
            ctx.check("rule-id", "the lexer appends its rules", w, ok, "the rules are %s" % show(v))


def new_production(ctx):
    fs = byte_only(ctx.m.fns(P + "LALR1Parser::add_production"))
    ctx.need(fs, "add_production not found")
    f = fs[0]
    w = ctx.where(f)
    head = ("o", "str", "H")
    prod = rec_name(ctx, "Production")
    for body in (("X", "Y"), ("X", "H"), ("X", "X"), ()):
        M = Maps(ctx)
        hk = M.hooks()
        old_eq = hk["std::__detail::operator=="]

        def eq(I, st, e, cx, obj, args, old_eq=old_eq):
            r = old_eq(I, st, e, cx, obj, args)
            # the production is new
            return r if r is not None else [(st, ONE)]
        hk["std::__detail::operator=="] = eq
        hk["std::__detail::operator!="] = lambda I, st, e, cx, obj, args: (
            [(s, num(1 - v[1])) for s, v in eq(I, st, e, cx, obj, args)])
        hk["std::vector::size"] = lambda I, st, e, cx, obj, args: (
            [(st, num(7))] if obj and obj[2] and str(obj[2][-1][1]).endswith("m_productions") else None)
        I = ctx.interp(hk)
        I.unroll = 6
        I.join_key = lambda s: (tuple(sorted(map(repr, s.facts.b.items()))), tuple(map(repr, s.events)))
        st = State()
        b = ("o", "vec", tuple(("o", "str", x) for x in body))
        outs = ctx.run(I, f, st=st, args=[head, b, ("o", "in", L(("obj", "action")))])
        key = "H -> %s" % (" ".join(body) or "nothing")
        ctx.check("production", key + " is added", w, outs, "no path completes")
        for s, v in outs:
            M.inverse(ctx, "production", key, w, s, ())
            objs = [r for r, c in s.cls.items() if c.split("<")[0] == prod["q"]]
            ctx.check("production", key + " is new", w, len(objs) == 1, "%d productions are made" % len(objs))
            for r in objs:
                g = lambda n, t: I.read(s, at(L(r), ("f", fq(prod, ctx, n))), t)
                got = Describe(ctx, I, s).list(g("m_body", "std::vector<T>"))
                want = tuple(id_in(M, s, ("o", "str", x)) for x in body)
                ctx.check("production", key + "/symbols", w, tuple(map(as_num, got)) == want and
                          as_num(g("m_head", "unsigned int")) == id_in(M, s, head), "the production is %s -> %s" % (
                              show(as_num(g("m_head", "unsigned int"))), " ".join(map(show, got))))
                act = g("m_semantic_rule", "std::function<T>")
                ctx.check("production", key + "/action", w, act == ("o", "in", L(("obj", "action"))), "the action is %s" % show(act))


def id_in(M, s, k):
    v = M.id_of(s, k)
    return v if v is not None else atom(("idof", k))
