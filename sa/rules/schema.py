"""C12: a schema text is turned into the rules it describes."""
from lib import *
from rules.nfa import elems

SP = P + "SchemaParser::"
MAP = "m_special_regex_characters"


# ------------------------------------------------------------------ hooks
def const_map(ctx):
    """Maps with listed contents are lists of pairs."""
    def pairs(I, st, loc):
        v = I.read(st, loc)
        return list(v[2]) if v[0] == "o" and v[1] == "vec" else None

    def put(over):
        def h(I, st, e, cx, obj, args):
            ps = pairs(I, st, obj)
            if ps is None:
                return None
            if len(args) == 2:
                k, v = I.val(st, args[0]), I.val(st, args[1])
            else:
                p = I.val(st, args[0])
                k, v = I.sel(p, ("f", "std::pair::first")) if hasattr(I, "sel") else p[2], p[3]
            old = [i for i, p in enumerate(ps) if as_num(p[2]) == as_num(k) or p[2] == k]
            new = ("o", "pair", k, v)
            if old and over:
                ps[old[0]] = new
            elif not old:
                ps.append(new)
            I.write(st, obj, ("o", "vec", tuple(ps)))
            return [(st, ("o", "insres"))]
        return h
    out = {}
    for c in ("std::unordered_map::", "std::map::"):
        for n in ("emplace", "insert", "try_emplace"):
            out[c + n] = put(False)
        out[c + "insert_or_assign"] = put(True)
    return out


def unbound(v):
    """The function behind a function object."""
    while v[0] == "o" and v[1] == "bind":
        v = v[2][0]
    return v


def h_bind(I, st, e, cx, obj, args):
    return [(st, ("o", "bind", tuple(I.val(st, a) for a in args)))]


# ------------------------------------------------------------------ what a syntax tree object is
class Describe:
    def __init__(self, ctx, I, st):
        self.ctx, self.I, self.st = ctx, I, st

    def fields(self, c):
        out = {}
        todo = [c]
        while todo:
            x = todo.pop(0)
            r = self.ctx.m.rec_by_t.get(x) or self.ctx.m.records.get(x)
            if r is None:
                rs = [y for y in self.ctx.m.rec_by_t.values() if y["q"] == x and "UTF8" not in y["t"]]
                r = rs[0] if rs else None
            if r is None:
                continue
            for fl in r["fields"]:
                out.setdefault(fl["q"].rsplit("::", 1)[-1], fl)
            todo += r["bases"]
        return out

    def field(self, loc, c, name):
        fl = self.fields(c).get(name)
        self.ctx.need(fl is not None, "field %s of %s not found" % (name, c))
        return self.I.read(self.st, at(loc, ("f", fl["q"])), fl["t"])

    def chars(self, v):
        """A text as a tuple of characters; None when it is not known."""
        if v[0] == "o" and v[1] == "str":
            return tuple(num(ord(c)) for c in v[2])
        if v[0] == "o" and v[1] == "chr":
            return (as_num(v[2]),)
        if v[0] == "n":
            return (v,)
        if v[0] == "o" and v[1] == "vec":
            return tuple(y for x in v[2] for y in (self.chars(x) or (x,)))
        if v[0] == "o" and v[1] in ("push", "cat"):
            a, b = self.chars(v[2]), self.chars(v[3])
            return None if a is None or b is None else a + b
        if v[0] == "o" and v[1] == "fill" and is_const(v[2]) and 0 <= v[2][1] < 100:
            return (self.chars(v[3]) or (v[3],)) * v[2][1]
        if v[0] == "o" and v[1] == "cstr":
            return self.chars(v[2])
        if v[0] == "o" and v[1] == "in":
            return (("text", v),)
        return (("text", v),)

    def list(self, v):
        """The elements of a container term, what it held before included."""
        if v[0] == "o" and v[1] == "vec":
            return tuple(v[2])
        if v[0] == "o" and v[1] == "push":
            a = self.list(v[2])
            return None if a is None else a + (v[3],)
        if v[0] == "o" and v[1] == "in":
            return (("was", v[2]),)
        if v[0] == "o" and v[1] == "joined":
            a, b = self.list(v[2]), self.list(v[3])
            return None if a is None or b is None else a + b
        return (("unknown", v),)

    def ranges(self, v):
        out = []
        for x in self.list(v):
            if x[0] == "o" and x[1] == "pair":
                out.append((as_num(x[2]), as_num(x[3])))
            else:
                out.append(x)
        return tuple(sorted(set(out), key=repr))

    def tree(self, p):
        p = as_num(p)
        if p == ZERO:
            return ("null",)
        loc = deref(p)
        r = loc[1]
        if loc[2]:
            return ("unknown", show(p))
        if r[0] == "obj" and r[1].startswith("node") and ("whole", r) in getattr(self.st, "_", ()):
            return ("child", r[1])
        c = self.st.cls.get(r)
        if c is None:
            return ("child", r[1]) if r[0] == "obj" else ("unknown", show(p))
        k = c.split("<")[0].rsplit("::", 1)[-1]
        f = lambda n: self.field(loc, c, n)
        if k == "ParserValue":
            return self.tree(f("m_value"))
        if k == "RegexASTLiteral":
            return ("char", as_num(f("m_character")))
        if k == "RegexASTGroup":
            return ("group", as_num(f("m_negate")), as_num(f("m_is_wildcard")), self.ranges(f("m_ranges")))
        if k == "RegexASTCat":
            return ("cat", self.tree(f("m_left")), self.tree(f("m_right")))
        if k == "RegexASTOr":
            return ("or",) + tuple(sorted((self.tree(f("m_left")), self.tree(f("m_right"))), key=repr))
        if k == "RegexASTMultiplication":
            return ("repeat", self.tree(f("m_operand")), as_num(f("m_min")), as_num(f("m_max")))
        if k == "RegexASTCapture":
            t = f("m_tag")
            tc = self.st.cls.get(deref(as_num(t))[1])
            name = self.chars(self.field(deref(as_num(t)), tc, "m_name")) if tc else None
            return ("capture", name, self.tree(f("m_group_regex_ast")))
        if k == "RegexASTEmpty":
            return ("empty",)
        if k == "RegexASTInteger":
            return ("digits", tuple(as_num(x) if x[0] == "n" else x for x in self.list(f("m_digits"))))
        if k == "IdentifierAST":
            return ("name", self.chars(f("m_name")))
        if k == "DelimiterStringAST":
            return ("delimiters", tuple(as_num(x) if x[0] == "n" else x for x in self.list(f("m_delimiters"))))
        if k == "SchemaVarAST":
            return ("rule", self.chars(f("m_name")), self.tree(f("m_regex_ptr")), as_num(f("m_line_num")))
        if k == "SchemaAST":
            g = lambda n: tuple(self.tree(x) if x[0] == "n" else x for x in self.list(f(n)))
            return ("schema", g("m_schema_vars"), g("m_delimiters"))
        return ("unknown", c)


def text(d):
    if not isinstance(d, tuple) or not d:
        return str(d)
    if d[0] == "n":
        return show(d)
    if isinstance(d[0], str):
        if d[0] == "o":
            return show(d)
        return d[0] + ("(%s)" % ", ".join(text(x) for x in d[1:]) if len(d) > 1 else "")
    return "{" + ", ".join(text(x) for x in d) + "}"


# ------------------------------------------------------------------ tokens
def word(v):
    """A listed text as a constant string."""
    cs = Describe(None, None, None).chars(v) if v[0] == "o" else None
    if cs is not None and all(is_const(c) for c in cs):
        return ("o", "str", "".join(chr(c[1] & 255) for c in cs))
    return v


def run_lexical(ctx, table):
    """[(name, what it matches)] of add_lexical_rules, started with the given table of special characters."""
    f = ctx.m.fn(SP + "add_lexical_rules")
    got = []

    def char(I, st, e, cx, obj, args):
        n, c = word(I.val(st, args[0])), as_num(I.val(st, args[1]))
        st.emit("token", n, ("char", c))
        return [(st, ("o", "void"))]

    def rule(I, st, e, cx, obj, args):
        n = word(I.val(st, args[0]))
        st.emit("token", n, Describe(ctx, I, st).tree(I.val(st, args[1])))
        return [(st, ("o", "void"))]

    def chain(I, st, e, cx, obj, args):
        st.emit("token", word(I.val(st, args[0])), ("word", word(I.val(st, args[1]))))
        return [(st, ("o", "void"))]
    hk = const_map(ctx)
    hk.update({P + "Parser::add_token": char, P + "LALR1Parser::add_token": char, P + "SchemaParser::add_token": char,
               P + "Parser::add_rule": rule, P + "LALR1Parser::add_rule": rule, P + "LALR1Parser::add_token_group": rule,
               P + "LALR1Parser::add_token_chain": chain})
    I = ctx.interp(hk)
    I.unroll = 40
    st = State()
    gl = special_loc(ctx)
    if gl is not None:
        I.write(st, gl, table)
    out = []
    for s, _ in ctx.run(I, f, st=st):
        toks = {}
        bad = []
        for ev in s.events:
            if ev[0] == "loop":
                bad.append("the tokens of a loop are not known")
            if ev[0] != "token":
                continue
            n = ev[1]
            if n[0] == "o" and n[1] == "str":
                toks.setdefault(n[2], set()).add(ev[2] if ev[2][0] != "word" else
                                                 ("word", ev[2][1][2] if ev[2][1][:2] == ("o", "str") else ev[2][1]))
            else:
                bad.append("token name %s is not known" % show(n))
        out.append((toks, bad, I.read(s, gl) if gl is not None else None))
    return f, out


def special_loc(ctx):
    for q in ctx.m.globals:
        if q.endswith("SchemaParser::" + MAP):
            return L(("g", q))
    return None


def initial(ctx):
    """What the table of special characters holds before any function runs: its initialiser, or nothing."""
    from model import walk
    gl = special_loc(ctx)
    init = ctx.m.globals[gl[1][1]].get("init") if gl is not None else None
    ps = []
    for n in walk(init):
        if n.get("k") in ("ctor", "init") and (n.get("cls") == "std::pair" or n.get("t", "").replace("const ", "").startswith("std::pair")):
            a = n.get("args") or n.get("elems") or []
            ks = [x for x in walk(a[0])] if len(a) == 2 else []
            cv = [x["cv"] for x in ks if "cv" in x]
            tx = [x["v"] for x in walk(a[1]) if x.get("k") == "str"] if len(a) == 2 else []
            if cv and tx:
                ps.append(("o", "pair", num(cv[0]), ("o", "str", tx[0])))
    return ("o", "vec", tuple(ps))


def group(ranges, negate=0):
    return ("group", num(negate), ZERO, tuple(sorted(((num(a), num(b)) for a, b in ranges), key=repr)))


def meaning(toks):
    """The set of characters (or the word) a token name stands for."""
    cs, neg, words = set(), [], set()
    for t in toks:
        if t[0] == "char" and is_const(t[1]):
            cs.add(chr(t[1][1] & 255))
        elif t[0] == "group" and all(is_const(a) and is_const(b) for a, b in t[3]) and t[1] in (ZERO, ONE):
            x = {chr(c) for a, b in t[3] for c in range(a[1], b[1] + 1)}
            if t[1] == ONE:
                neg.append(x)
            else:
                cs |= x
        elif t[0] == "word":
            words.add(t[1])
        else:
            return ("unknown", text(t))
    if words:
        return ("word", tuple(sorted(map(str, words)))) if not cs and not neg else ("unknown", "mixed")
    if neg:
        return ("not", "".join(sorted(set.intersection(*neg) - cs)))
    return ("one of", "".join(sorted(cs)))


LITERALS = " !\"#$%&',/:;=@_`~"
SPECIAL = "()*+-.[]\\^{}|<>?"
DIGITS = "0123456789"
ALNUM = "".join(sorted(DIGITS + "abcdefghijklmnopqrstuvwxyz" + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"))


def C(chars):
    return ("one of", "".join(sorted(chars)))


# ------------------------------------------------------------------ the grammar: head, body, meaning
ESC = {"t": 9, "n": 10, "v": 11, "f": 12, "r": 13}


def grammar():
    N = lambda n: ("nt", n)
    w = ("word", ("delimiters",))
    nl, cr, sl = C("\n"), C("\r"), C("/")
    comment = ("not", "\n\r")
    G = {}

    def p(head, body, sem):
        G[(head, tuple(body))] = sem
    p("Schema", [N("Comment")], "schema")
    p("Schema", [N("SchemaVar")], "schema+var0")
    p("Schema", [w, C(":"), N("DelimiterString")], "schema+delims2")
    p("Schema", [N("Schema"), N("PortableNewLine")], "same0")
    p("Schema", [N("Schema"), N("PortableNewLine"), N("Comment")], "same0")
    p("Schema", [N("Schema"), N("PortableNewLine"), N("SchemaVar")], "schema0+var2")
    p("Schema", [N("Schema"), N("PortableNewLine"), w, C(":"), N("DelimiterString")], "schema0+delims4")
    p("DelimiterString", [N("DelimiterString"), N("Literal")], "delims+")
    p("DelimiterString", [N("Literal")], "delims")
    p("PortableNewLine", [cr, nl], None)
    p("PortableNewLine", [nl], None)
    p("Comment", [sl, sl, N("Text")], None)
    p("Text", [N("Text"), comment], None)
    p("Text", [comment], None)
    p("Text", [N("Text"), w], None)
    p("Text", [w], None)
    p("SchemaVar", [N("WhitespaceStar"), N("Identifier"), C(":"), N("Regex")], "rule")
    p("Identifier", [N("Identifier"), C(ALNUM)], "name+")
    p("Identifier", [C(ALNUM)], "name")
    p("WhitespaceStar", [N("WhitespaceStar"), C(" ")], None)
    p("WhitespaceStar", [], None)
    p("Regex", [N("Concat")], "same0")
    p("Concat", [N("Concat"), N("Or")], "cat")
    p("Concat", [N("Or")], "same0")
    p("Or", [N("Or"), C("|"), N("Literal")], "or")
    for x in ("MatchStar", "MatchPlus", "MatchExact", "MatchRange", "CompleteGroup"):
        p("Or", [N(x)], "same0")
    p("MatchStar", [N("CompleteGroup"), C("*")], "star")
    p("MatchPlus", [N("CompleteGroup"), C("+")], "plus")
    p("MatchExact", [N("CompleteGroup"), C("{"), N("Integer"), C("}")], "exactly")
    p("MatchRange", [N("CompleteGroup"), C("{"), N("Integer"), C(","), N("Integer"), C("}")], "between")
    p("CompleteGroup", [N("IncompleteGroup"), C("]")], "same0")
    for x in ("Literal", "Digit", "Wildcard", "WhiteSpace"):
        p("CompleteGroup", [N(x)], "same0")
    for x, s in (("LiteralRange", "group"), ("Digit", "group"), ("WhiteSpace", "group"), ("Literal", "lit")):
        p("IncompleteGroup", [N("IncompleteGroup"), N(x)], "group+" + s)
        p("IncompleteGroup", [C("["), N(x)], "newgroup+" + s)
    p("IncompleteGroup", [C("["), C("^")], "negated")
    p("LiteralRange", [N("Literal"), C("-"), N("Literal")], "range")
    for c, v in ESC.items():
        p("Literal", [C("\\"), C(c)], ("char", num(v)))
    for c in LITERALS:
        p("Literal", [C(c)], "char0")
    p("Literal", [C(ALNUM)], "char0")
    for c in SPECIAL:
        p("Literal", [C("\\"), C(c)], "char1")
    p("Literal", [C("("), C("?"), C("<"), N("Identifier"), C(">"), N("Regex"), C(")")], "capture")
    p("Literal", [C("("), N("Regex"), C(")")], "same1")
    p("Integer", [N("Integer"), C(DIGITS)], "digits+")
    p("Integer", [C(DIGITS)], "digits")
    p("Digit", [C("\\"), C("d")], "digit")
    p("Wildcard", [C(".")], "wildcard")
    p("WhiteSpace", [C("\\"), C("s")], "white")
    return G


def show_sym(s):
    if s[0] == "nt":
        return s[1]
    x = s[1] if isinstance(s[1], str) else " ".join(s[1])
    return {"one of": "%r", "not": "none of %r", "word": "word %r", "unknown": "unknown %r"}[s[0]] % (
        "alphanumeric" if x == ALNUM else x)


def show_prod(k):
    return "%s -> %s" % (k[0], " ".join(map(show_sym, k[1])) or "nothing")


def productions(ctx, toks, table):
    """{(head, body)} -> action value of add_productions; in order"""
    f = ctx.m.fn(SP + "add_productions")

    def add(I, st, e, cx, obj, args):
        st.emit("prod", I.val(st, args[0]), I.val(st, args[1]), I.val(st, args[2]))
        return [(st, num(0))]
    hk = const_map(ctx)
    hk.update({P + "LALR1Parser::add_production": add, "std::bind": h_bind})
    I = ctx.interp(hk)
    I.unroll = 120
    st = State()
    gl = special_loc(ctx)
    if gl is not None:
        I.write(st, gl, table)
    runs = ctx.run(I, f, st=st)
    out = []
    for s, _ in runs:
        ps, bad, heads = {}, [], set()
        evs = [ev for ev in s.events if ev[0] == "prod"]
        if any(ev[0] == "loop" for ev in s.events):
            bad.append("the productions added by a loop are not known")
        for ev in evs:
            if ev[1][:2] == ("o", "str"):
                heads.add(ev[1][2])
        first = None
        for ev in evs:
            b = ev[2]
            if b[:2] == ("o", "zero"):
                b = ("o", "vec", ())
            if ev[1][:2] != ("o", "str") or b[:2] != ("o", "vec") or not all(x[:2] == ("o", "str") for x in b[2]):
                bad.append("production %s -> %s is not known" % (show(ev[1]), show(b)))
                continue
            body = []
            for x in b[2]:
                n = x[2]
                body.append(("nt", n) if n in heads else meaning(toks[n]) if n in toks else ("unknown", n))
            key = (ev[1][2], tuple(body))
            first = first or ev[1][2]
            ps[key] = ev[3]
        out.append((ps, bad, first))
    return f, out


# ------------------------------------------------------------------ actions
class Action:
    """Runs one semantic action on a production's children."""

    def __init__(self, ctx, value):
        self.ctx = ctx
        v = unbound(value)
        self.none = v == ZERO or v[:2] == ("o", "nullptr") or v == ("o", "none")
        self.f = None
        if v[:2] == ("o", "fnref"):
            self.f = ctx.m.functions.get(v[2])
        elif v[0] == "lam":
            lam = ctx.m.lambdas.get(v[1])
            if lam is not None:
                self.f = {"id": v[1], "params": lam["params"], "body": lam["body"], "q": "lambda", "ret": "",
                          "file": ctx.m.functions[lam["owner"]]["file"], "l": lam["body"].get("l"), "clst": ""}
        self.name = self.f["q"].rsplit("::", 1)[-1] if self.f else show(v)

    def where(self):
        try:
            return self.ctx.where(self.f)
        except Exception:
            return ""

    def run(self, kids):
        """kids: per child a function filling the state and returning the syntax tree object, or None for a token.
        Returns (interpreter, [(state, tree)], [throwing state])."""
        ctx = self.ctx

        def h_nt(I, st, e, cx, obj, args):
            i = as_num(I.val(st, args[0]))
            return [(st, addr(L(("obj", "nt%s" % (i[1] if is_const(i) else "?")))))]

        def h_tok(I, st, e, cx, obj, args):
            i = as_num(I.val(st, args[0]))
            return [(st, addr(L(("obj", "tok%s" % (i[1] if is_const(i) else "?")))))]

        def h_text(I, st, e, cx, obj, args):
            if obj is not None and obj[1][0] == "obj" and obj[1][1].startswith("tok"):
                c = sym("char" + obj[1][1][3:])
                st.facts.assume(scale(c, -1), "<=")
                st.facts.assume(sub(c, num(127)), "<=")
                return [(st, ("o", "vec", (c,)))]
            return None

        def h_pow(I, st, e, cx, obj, args):
            a, b = as_num(I.val(st, args[0])), as_num(I.val(st, args[1]))
            if is_const(a) and is_const(b) and b[1] >= 0:
                return [(st, num(a[1] ** b[1]))]
            return None
        hk = {P + "NonTerminal::non_terminal_cast": h_nt, P + "NonTerminal::token_cast": h_tok,
              P + "Token::to_string": h_text, P + "Token::to_string_view": h_text, P + "Token::get_char": self.h_char,
              "pow": h_pow, "std::pow": h_pow}
        I = ctx.interp(hk)
        I.unroll = 8
        I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
        st = State()
        nt = ctx.m.records.get(P + "NonTerminal") or [r for r in ctx.m.rec_by_t.values() if r["q"] == P + "NonTerminal"][0]
        ast = [fl["q"] for fl in nt["fields"] if fl["q"].endswith("::m_ast")]
        ctx.need(ast, "NonTerminal::m_ast not found")
        for i, k in enumerate(kids):
            if k is None:
                continue
            o = k(ctx, I, st, i)
            I.write(st, at(L(("obj", "nt%d" % i)), ("f", ast[0])), o)
        self.trees = {}
        arg = [addr(L(("obj", "m")))] + [o for o in ()]
        res = ctx.run(I, self.f, st=st, args=arg, this=L(("obj", "parser")))
        out = []
        for s, v in res:
            p = as_num(I.val(s, v))
            out.append((s, Describe(ctx, I, s).tree(p)))
        return I, out

    def h_char(self, I, st, e, cx, obj, args):
        if obj is not None and obj[1][0] == "obj" and obj[1][1].startswith("tok"):
            c = sym("char" + obj[1][1][3:])
            st.facts.assume(scale(c, -1), "<=")
            st.facts.assume(sub(c, num(127)), "<=")
            return [(st, c)]
        return None


def rec_name(ctx, short):
    for r in ctx.m.rec_by_t.values():
        if r["q"].rsplit("::", 1)[-1] == short and "UTF8" not in r["t"] and (
                short != "ParserValue" or "RegexAST" in r["t"]):
            return r
    raise AnalysisBroken("class %s not found" % short)


def obj_of(ctx, st, name, short):
    r = rec_name(ctx, short)
    root = ("obj", name)
    st.cls[root] = r["q"]
    return L(root), r


def fq(r, ctx, name):
    todo = [r]
    while todo:
        x = todo.pop(0)
        for fl in x["fields"]:
            if fl["q"].rsplit("::", 1)[-1] == name:
                return fl["q"]
        todo += [y for y in ctx.m.rec_by_t.values() if y["q"] in x["bases"] and "UTF8" not in y["t"]]
    raise AnalysisBroken("field %s of %s not found" % (name, r["q"]))


def value(ctx, I, st, i, node):
    l, r = obj_of(ctx, st, "ast%d" % i, "ParserValue")
    I.write(st, at(l, ("f", fq(r, ctx, "m_value"))), node)
    return addr(l)


def k_any(ctx, I, st, i):
    return value(ctx, I, st, i, addr(L(("obj", "node%d" % i))))


def k_other(ctx, I, st, i):
    l, r = obj_of(ctx, st, "node%d" % i, "RegexASTCat")
    return value(ctx, I, st, i, addr(l))


def k_lit(ctx, I, st, i):
    l, r = obj_of(ctx, st, "node%d" % i, "RegexASTLiteral")
    c = sym("lit%d" % i)
    st.facts.assume(scale(c, -1), "<=")
    st.facts.assume(sub(c, num(127)), "<=")
    I.write(st, at(l, ("f", fq(r, ctx, "m_character"))), c)
    return value(ctx, I, st, i, addr(l))


def k_group(negate, n):
    def k(ctx, I, st, i):
        l, r = obj_of(ctx, st, "node%d" % i, "RegexASTGroup")
        I.write(st, at(l, ("f", fq(r, ctx, "m_negate"))), num(negate))
        I.write(st, at(l, ("f", fq(r, ctx, "m_is_wildcard"))), ZERO)
        I.write(st, at(l, ("f", fq(r, ctx, "m_ranges"))),
                ("o", "vec", tuple(("o", "pair", sym("b%d%d" % (i, j)), sym("e%d%d" % (i, j))) for j in range(n))))
        return value(ctx, I, st, i, addr(l))
    return k


def grp_ranges(i, n):
    return tuple((sym("b%d%d" % (i, j)), sym("e%d%d" % (i, j))) for j in range(n))


def k_int(n):
    def k(ctx, I, st, i):
        l, r = obj_of(ctx, st, "node%d" % i, "RegexASTInteger")
        ds = []
        for j in range(n):
            d = sym("digit%d%d" % (i, j))
            st.facts.assume(scale(d, -1), "<=")
            st.facts.assume(sub(d, num(9)), "<=")
            ds.append(d)
        I.write(st, at(l, ("f", fq(r, ctx, "m_digits"))), ("o", "vec", tuple(ds)))
        return value(ctx, I, st, i, addr(l))
    return k


def int_value(i, n):
    v = ZERO
    for j in range(n):
        v = add(scale(v, 10), sym("digit%d%d" % (i, j)))
    return v


def k_ident(ctx, I, st, i):
    l, r = obj_of(ctx, st, "ast%d" % i, "IdentifierAST")
    I.write(st, at(l, ("f", fq(r, ctx, "m_name"))), ("o", "vec", (sym("n%d0" % i), sym("n%d1" % i))))
    return addr(l)


def k_schema(ctx, I, st, i):
    l, r = obj_of(ctx, st, "ast%d" % i, "SchemaAST")
    I.write(st, at(l, ("f", fq(r, ctx, "m_schema_vars"))), ("o", "vec", (addr(L(("obj", "oldvar"))),)))
    I.write(st, at(l, ("f", fq(r, ctx, "m_delimiters"))), ("o", "vec", (addr(L(("obj", "olddelims"))),)))
    return addr(l)


def k_plain(name):
    def k(ctx, I, st, i):
        return addr(L(("obj", name)))
    return k


def k_delims(ctx, I, st, i):
    l, r = obj_of(ctx, st, "ast%d" % i, "DelimiterStringAST")
    I.write(st, at(l, ("f", fq(r, ctx, "m_delimiters"))), ("o", "vec", (sym("old"),)))
    return addr(l)


def child(i):
    return ("child", "node%d" % i)


def grp(negate, ranges, wild=0):
    return ("group", num(negate), num(wild), tuple(sorted(set(ranges), key=repr)))


NAME = lambda i: (sym("n%d0" % i), sym("n%d1" % i))
L_ = lambda i: sym("lit%d" % i)
CH = lambda i: sym("char%d" % i)


def cases(sem, body, top):
    """[(label, children, expected tree | 'throw' | function(I, results, report))]"""
    n = len(body)
    K = [None] * n

    def kids(**kw):
        out = list(K)
        for k, v in kw.items():
            out[int(k[1:])] = v
        return out
    if isinstance(sem, tuple):
        return [("", K, sem)]
    if sem == "schema":
        return [("", kids(), ("schema", (), ()))]
    if sem == "schema+var0":
        return [("", kids(c0=k_plain("var")), ("schema", (("child", "var"),), ()))]
    if sem == "schema+delims2":
        return [("", kids(c2=k_plain("delims")), ("schema", (), (("child", "delims"),)))]
    old = (("child", "oldvar"),), (("child", "olddelims"),)
    if sem == "schema0+var2":
        return [("", kids(c0=k_schema, c2=k_plain("var")), ("schema", old[0] + (("child", "var"),), old[1]))]
    if sem == "schema0+delims4":
        return [("", kids(c0=k_schema, c4=k_plain("delims")), ("schema", old[0], old[1] + (("child", "delims"),)))]
    if sem in ("same0", "same1"):
        i = int(sem[-1])
        if body[i] == ("nt", "Schema"):
            return [("", kids(c0=k_schema), ("schema",) + old)]
        return [("", kids(**{"c%d" % i: k_any}), child(i))]
    if sem == "delims":
        return [("", kids(c0=k_lit), ("delimiters", (L_(0),))), (" given no character", kids(c0=k_other), "throw")]
    if sem == "delims+":
        return [("", kids(c0=k_delims, c1=k_lit), ("delimiters", (sym("old"), L_(1)))),
                (" given no character", kids(c0=k_delims, c1=k_other), "throw")]
    if sem == "rule":
        line = atom(("in", None))
        return [("", kids(c1=k_ident, c3=k_any), ("rule", NAME(1), child(3), "line2"))]
    if sem == "name":
        return [("", K, ("name", (CH(0),)))]
    if sem == "name+":
        return [("", kids(c0=k_ident), ("name", NAME(0) + (CH(1),)))]
    if sem == "cat":
        return [("", kids(c0=k_any, c1=k_any), ("cat", child(0), child(1)))]
    if sem == "or":
        return [("", kids(c0=k_any, c2=k_any), ("or",) + tuple(sorted((child(0), child(2)), key=repr)))]
    if sem in ("star", "plus"):
        r = ("repeat", child(0), ONE, ZERO)
        return [("", kids(c0=k_any), ("or",) + tuple(sorted((("empty",), r), key=repr)) if sem == "star" else r)]
    if sem == "exactly":
        return [(" of %d digits" % d, kids(c0=k_any, c2=k_int(d)), ("count", int_value(2, d), int_value(2, d)))
                for d in (1, 2, 3, 4)]
    if sem == "between":
        return [(" of %d and %d digits" % (d, e), kids(c0=k_any, c2=k_int(d), c4=k_int(e)),
                 ("count", int_value(2, d), int_value(4, e))) for d in (1, 2, 3) for e in (1, 2, 3)]
    if sem.startswith("group+"):
        out = []
        for neg in (0, 1):
            for a in (0, 1, 2):
                lab = " of a%s group of %d" % (" negated" if neg else "", a)
                if sem == "group+lit":
                    out.append((lab, kids(c0=k_group(neg, a), c1=k_lit), grp(neg, grp_ranges(0, a) + ((L_(1), L_(1)),))))
                    out.append((lab + " given no character", kids(c0=k_group(neg, a), c1=k_other), "throw"))
                else:
                    for b in ((6,) if body[1] == ("nt", "WhiteSpace") else (1,)):
                        out.append((lab, kids(c0=k_group(neg, a), c1=k_group(0, b)),
                                    grp(neg, grp_ranges(0, a) + grp_ranges(1, b))))
        return out
    if sem == "newgroup+lit":
        return [("", kids(c1=k_lit), grp(0, ((L_(1), L_(1)),))), (" given no character", kids(c1=k_other), "throw")]
    if sem == "newgroup+group":
        b = 6 if body[1] == ("nt", "WhiteSpace") else 1
        return [("", kids(c1=k_group(0, b)), grp(0, grp_ranges(1, b)))]
    if sem == "negated":
        return [("", K, grp(1, ()))]
    if sem == "range":
        return [("", kids(c0=k_lit, c2=k_lit), ("range", L_(0), L_(2))),
                (" given no first character", kids(c0=k_other, c2=k_lit), "throw"),
                (" given no last character", kids(c0=k_lit, c2=k_other), "throw")]
    if sem in ("char0", "char1"):
        return [("", K, ("char", CH(int(sem[-1]))))]
    if sem == "capture":
        return [("", kids(c3=k_ident, c5=k_any), ("capture", NAME(3), child(5)))]
    if sem == "digits":
        return [("", K, ("digits", (sub(CH(0), num(48)),)))]
    if sem == "digits+":
        return [("", kids(c0=k_int(2)), ("digits", (sym("digit00"), sym("digit01"), sub(CH(1), num(48)))))]
    if sem == "digit":
        return [("", K, grp(0, ((num(48), num(57)),)))]
    if sem == "white":
        return [("", K, grp(0, tuple((num(c), num(c)) for c in (9, 10, 11, 12, 13, 32))))]
    if sem == "wildcard":
        return [("", K, grp(0, ((ZERO, top),), 1))]
    raise AnalysisBroken("no meaning for " + str(sem))


def norm_group(t):
    """Constant ranges of a group as a set of characters."""
    if t[0] == "group" and all(isinstance(p, tuple) and len(p) == 2 and is_const(p[0]) and is_const(p[1]) and
                               p[1][1] - p[0][1] < 300 for p in t[3]):
        return t[:3] + (frozenset(c for a, b in t[3] for c in range(a[1], b[1] + 1)),)
    return t


def same_tree(s, a, b):
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if a and b and a[0] == "n" and b[0] == "n":
        return s.facts.is_zero(sub(a, b))
    if a and b and a[0] == "group" and b[0] == "group":
        a, b = norm_group(a), norm_group(b)
        if a == b:
            return True
        if isinstance(a[3], frozenset) or isinstance(b[3], frozenset):
            return False
    return len(a) == len(b) and all(same_tree(s, x, y) for x, y in zip(a, b))


def rule12(ctx):
    from rules.nfa import unicode_max
    top = unicode_max(ctx)
    # tokens: the first parser of a process fills the table of special characters, later ones find it filled
    f, first = run_lexical(ctx, initial(ctx))
    w = ctx.where(f)
    ctx.check("tokens", "lexical rules are added", w, first, "no path of add_lexical_rules completes")
    for toks, bad, table in first:
        ctx.check("tokens", "tokens are known", w, not bad, "; ".join(bad[:3]))
        if bad:
            return
        f2, again = run_lexical(ctx, table if table is not None else ("o", "vec", ()))
        ctx.check("tokens", "every parser gets the same tokens", w, again and all(t == toks and b == [] and x == table
                  for t, b, x in again), "a later parser gets other tokens: %s" % "; ".join(
                      sorted(set(map(str, toks)) ^ {n for t, _, _ in again for n in t})[:4]))
        if special_loc(ctx) is not None and table is not None and table[:2] == ("o", "vec"):
            keys = {chr(as_num(p[2])[1]) for p in table[2] if p[:2] == ("o", "pair") and is_const(as_num(p[2]))}
            ctx.check("tokens", "table of special characters", w, keys == set(SPECIAL),
                      "the special characters are %s" % "".join(sorted(keys)))
        grammar_rule(ctx, toks, table, top)
    chain(ctx)
    reduce_rule(ctx)
    advance_rule(ctx)


def grammar_rule(ctx, toks, table, top):
    f, runs = productions(ctx, toks, table)
    w = ctx.where(f)
    G = grammar()
    ctx.check("grammar", "productions are added", w, runs, "no path of add_productions completes")
    for ps, bad, first in runs:
        ctx.check("grammar", "productions are known", w, not bad, "; ".join(bad[:3]))
        ctx.check("grammar", "a text is a schema", w, first == "Schema", "the first production is for %s" % first)
        for k in G:
            ctx.check("grammar", show_prod(k), w, k in ps, "missing production")
        for k in ps:
            if k not in G:
                ctx.check("grammar", show_prod(k), w, False, "production that the schema syntax does not have")
        memo = {}
        for k, v in ps.items():
            if k in G:
                action(ctx, k, v, G[k], top, memo)


def action(ctx, k, v, sem, top, memo):
    name = show_prod(k)
    a = Action(ctx, v)
    if sem is None:
        ctx.check("action", name, "", a.none, "%s runs for text that means nothing" % a.name)
        return
    ctx.check("action", name + " has a meaning", "", a.f is not None, "the action is %s" % a.name)
    if a.f is None:
        return
    w = a.where()
    for label, kids, want in cases(sem, k[1], top):
        I, res = a.run(kids)
        key = name + label
        throws = I.throws
        if I.aborts:
            for x in I.aborts[:1]:
                ctx.check("action", key + " asserts", w, False, "an assertion fails when %s" % facts_str(x[0], 6))
        if want == "throw":
            ctx.check("action", key + " is rejected", w, not res, "yields %s" % "; ".join(text(t) for _, t in res[:1]))
            continue
        if isinstance(want, tuple) and want[0] == "count":
            counts(ctx, key, w, I, res, want[1], want[2], sem)
            continue
        if isinstance(want, tuple) and want[0] == "range":
            lo, hi = want[1:]
            for s, t in res:
                ok = same_tree(s, t, grp(0, ((lo, hi),)))
                ctx.check("action", key, w, ok, "yields %s" % text(t))
                ctx.check("action", key + " in order", w, le(s, lo, hi), "accepted when %s" % facts_str(s, 6))
            ctx.check("action", key + " accepted", w, res, "always rejected")
            for x in throws:
                s = x[0]
                ctx.check("action", key + " rejected out of order only", w, s.facts.lower(sub(lo, hi)) > 0,
                          "rejected when %s" % facts_str(s, 6))
            continue
        ctx.check("action", key + " yields a value", w, res and not throws, "the pattern is rejected")
        for s, t in res:
            exp = want
            if exp[0] == "rule":
                tl = [x for x in rec_name(ctx, "Token")["fields"] if x["q"].endswith("::m_line")]
                line = I.init_value(s, at(L(("obj", "tok2")), ("f", tl[0]["q"])), tl[0]["t"])
                exp = exp[:3] + (as_num(line),)
            ctx.check("action", key, w, same_tree(s, t, exp), "yields %s instead of %s" % (text(t), text(exp)))


def counts(ctx, key, w, I, res, lo, hi, sem):
    """R{lo,hi} for every pair of counts."""
    R = lambda a, b: ("repeat", child(0), a, b)
    ctx.check("action", key + " yields a value", w, res, "the pattern is rejected")
    for s, t in res:
        fs = facts_str(s, 6)
        ctx.check("action", key + " rejects a maximum below the minimum", w, le(s, lo, hi), "accepted when %s" % fs)
        if t == ("empty",):
            ctx.check("action", key, w, s.facts.is_zero(hi), "matches nothing when %s" % fs)
            continue
        rep = t
        if t[0] == "or" and ("empty",) in t[1:]:
            rep = [x for x in t[1:] if x != ("empty",)]
            rep = rep[0] if rep else t
            ok = rep[0] == "repeat" and s.facts.is_zero(lo) and same(s, rep[2], ONE)
        else:
            ok = rep[0] == "repeat" and same(s, rep[2], lo) and s.facts.lower(lo) >= 1
        ok = ok and rep[1] == child(0) and same(s, rep[3], hi) and s.facts.lower(hi) >= 1
        ctx.check("action", key, w, ok, "yields %s for {%s,%s} when %s" % (text(t), show(lo), show(hi), fs))
    for x in I.throws:
        s = x[0]
        ctx.check("action", key + " rejects nothing else", w, sem == "between" and s.facts.lower(sub(lo, hi)) > 0,
                  "rejected when %s" % facts_str(s, 6))


# ------------------------------------------------------------------ words
def add_rule_trees(ctx, fn, args_of, opaque_q):
    """[(state, name, tree)] handed to add_rule by the function named fn."""
    fs = ctx.m.fns(fn)
    ctx.need(fs, fn + " not found")
    out = []
    for f in fs:
        if "UTF8" in f.get("clst", ""):
            continue
        got = []

        def rule(I, st, e, cx, obj, args):
            got.append((st, I.val(st, args[0]), Describe(ctx, I, st).tree(I.val(st, args[1]))))
            return [(st, ("o", "void"))]
        I = ctx.interp({q: rule for q in opaque_q})
        I.unroll = 12
        st = State()
        ctx.run(I, f, st=st, args=args_of(f, st))
        out.append((f, got, I))
    return out


def chain(ctx):
    """A word is the concatenation of its characters, a character is itself, a set of characters is itself."""
    rules = (P + "LALR1Parser::add_rule", P + "Parser::add_rule")
    name = ("o", "str", "token")
    for n in (2, 3, 4, 6):
        cs = [sym("c%d" % i) for i in range(n)]

        def args(f, st):
            for c in cs:
                st.facts.assume(scale(c, -1), "<=")
                st.facts.assume(sub(c, num(127)), "<=")
            return [name, ("o", "vec", tuple(cs))]
        for f, got, I in add_rule_trees(ctx, P + "LALR1Parser::add_token_chain", args, rules):
            w = ctx.where(f)
            key = "a word of %d characters" % n
            ctx.check("word", key + " is added", w, got, "no rule is added")
            for s, nm, t in got:
                ctx.check("word", key, w, nm == name and [x for x in leaves(t)] == [("char", c) for c in cs],
                          "adds %s as %s" % (text(t), show(nm)))
    c = sym("c")
    for f, got, I in add_rule_trees(ctx, P + "Parser::add_token", lambda f, st: [name, c], rules):
        for s, nm, t in got:
            ctx.check("word", "a character", ctx.where(f), nm == name and t == ("char", c), "adds %s" % text(t))
        ctx.check("word", "a character is added", ctx.where(f), got, "no rule is added")
    node = addr(L(("obj", "node0")))
    for f, got, I in add_rule_trees(ctx, P + "LALR1Parser::add_token_group", lambda f, st: [name, node], rules):
        for s, nm, t in got:
            ctx.check("word", "a set of characters", ctx.where(f), nm == name and t == child(0), "adds %s" % text(t))
        ctx.check("word", "a set of characters is added", ctx.where(f), got, "no rule is added")


def leaves(t):
    if t[0] == "cat":
        return leaves(t[1]) + leaves(t[2])
    return [t]


# ------------------------------------------------------------------ reductions
KIDS = P + "NonTerminal::m_all_children"
NEXT = P + "NonTerminal::m_next_children_start"


def byte_only(fs):
    return [f for f in fs if "UTF8" not in f.get("clst", "")]


def h_visit(kind, value):
    """std::visit on the action: the alternative whose parameter has the given kind of type."""
    def h(I, st, e, cx, obj, args):
        for i in range(len(args) - 1):
            for lam in lambdas_in(e["args"][i]):
                ps = I.m.lambdas[lam["fn"]]["params"] if lam["fn"] in I.m.lambdas else lam.get("params", [])
                t = ps[0]["t"] if ps else ""
                if kind in t:
                    loc = I.tmp(st, ("lam", lam["fn"], cx.this, cx.owner))
                    return I.call_lambda(st, lam["fn"], [value], cx, loc)
        return None
    return h


def lambdas_in(n):
    out = []
    if isinstance(n, dict):
        if n.get("k") == "lambda":
            return [n]
        for k, v in n.items():
            if k != "body":
                out += lambdas_in(v)
    elif isinstance(n, list):
        for v in n:
            out += lambdas_in(v)
    return out


def depth(st, name):
    return st.store.get(L(("obj", "depth" + name)), ZERO)


def h_stacks(ctx, names):
    """Stacks named by field: the i-th element below the top at the start is the object <name><i>."""
    nt = rec_name(ctx, "NonTerminal")

    def which(obj):
        for s in reversed(obj[2]):
            if s[0] == "f":
                for k, v in names.items():
                    if s[1].endswith("::" + k):
                        return v
        return None

    def top(I, st, e, cx, obj, args):
        w = which(obj)
        if w is None:
            return None
        pushed = st.store.get(L(("obj", "pushed" + w)))
        if pushed is not None and pushed[2]:
            return [(st, pushed[2][-1])]
        o = L(("obj", "%s%d" % (w, depth(st, w)[1])))
        return [(st, ("ref", o) if w == "match" else addr(o))]

    def pop(I, st, e, cx, obj, args):
        w = which(obj)
        if w is None:
            return None
        st.store[L(("obj", "depth" + w))] = add(depth(st, w), ONE)
        st.emit("pop", w)
        return [(st, ("o", "void"))]

    def push(I, st, e, cx, obj, args):
        w = which(obj)
        if w is None:
            return None
        a = args[0]
        v = a
        if w == "match" and a[0] == "ref":
            v = tuple(as_num(I.read(st, at(a[1], ("f", fq(nt, ctx, n)))))
                      for n in ("m_children_start", "m_production", "m_ast"))
        st.emit("push", w, v if v[0] != "ref" else as_num(I.val(st, a)), depth(st, w))
        return [(st, ("o", "void"))]
    return {"std::stack::top": top, "std::stack::pop": pop, "std::stack::push": push, "std::stack::emplace": push}


def reduce_rule(ctx):
    fs = byte_only(ctx.m.fns(P + "LALR1Parser::parse_symbol"))
    ctx.need(fs, "parse_symbol not found")
    f = fs[0]
    t = f["clst"]
    nt = rec_name(ctx, "NonTerminal")
    F = lambda r, n: ("f", fq(r, ctx, n))
    prod_r = rec_name(ctx, "Production")
    prod = L(("obj", "prod"))
    names = {"m_parse_stack_matches": "match", "m_parse_stack_states": "state"}
    w = ctx.where(f)

    def get_state(I, st, e, cx, obj, args):
        return [(st, addr(L(("obj", "goto"))))]

    def assign(I, st, e, cx, obj, args):
        if obj is not None and obj[1] == ("g", KIDS):
            a = args[0]
            st.emit("child", obj, a[1] if a[0] == "ref" else I.val(st, a))
            return [(st, ("ref", obj))]
        return None

    def call(I, st, e, cx, obj, args):
        if obj is not None and obj[1] == prod[1]:
            o = deref(as_num(I.val(st, args[0])))
            st.emit("action", as_num(I.read(st, at(o, F(nt, "m_children_start")))),
                    as_num(I.read(st, at(o, F(nt, "m_production")))))
            return [(st, addr(L(("obj", "result"))))]
        return None

    def null(I, st, e, cx, obj, args):
        return [(s, num(1 if b else 0)) for s, b in I.split(st, sym("has_action"))]

    def cmp_fn(neg):
        def h(I, st, e, cx, obj, args):
            return [(s, num(1 if b == neg else 0)) for s, b in I.split(st, sym("has_action"))]
        return h
    token_start = at(L(("obj", "arg1")), *path(ctx, P + "Token", "m_start_pos"))
    active_size = loc_of(ctx, t, "m_input_buffer.m_storage.m_active_size")

    def consumed(I, st, e, cx, obj, args):
        st.emit("consumed", as_num(I.val(st, args[0])))
        return [(st, ("o", "void"))]

    start = atom(("in", L(("g", NEXT))))
    for n in (0, 1, 2, 3, 7):
        for has in (0, 1):
            key = "reduction of %d symbols%s" % (n, "" if has else " without action")
            hk = h_stacks(ctx, names)
            hk.update({"std::visit": h_visit("Production", addr(prod)), "std::get": get_state,
                       "std::variant::operator=": assign, "std::function::operator()": call,
                       "std::operator!=": cmp_fn(True), "std::operator==": cmp_fn(False),
                       "std::function::operator bool": null, "std::function::<conv>": null})
            hk[P + "ParserInputBuffer::set_consumed_pos"] = consumed
            I = ctx.interp(hk)
            I.unroll = 10
            I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
            st = State()
            st.facts.assume(sub(sym("has_action"), num(has)), "==")
            I.write(st, at(prod, F(prod_r, "m_body")), ("o", "vec", tuple(sym("s%d" % i) for i in range(n))))
            # assumed here: the pool has room (checked by the constructor, see below)
            st.facts.assume(sub(start, num(1000)), "<=")
            # the position of a token lies inside the buffer
            begin = as_num(I.read(st, token_start, "unsigned int"))
            size = as_num(I.read(st, active_size, "unsigned int"))
            st.facts.assume(sub(ZERO, begin), "<=")
            st.facts.assume(sub(begin, size), "<")
            outs = ctx.run(I, f, st=st)
            if not outs:
                ctx.check("reduce", key, w, False, "no path completes")
            for s, v in outs:
                evs = [x for x in s.events if x[0] in ("child", "action", "pop", "push")]
                kids = {}
                for x in evs:
                    if x[0] == "child":
                        sel = [y for y in x[1][2] if y[0] == "e"]
                        kids[show(sub(sel[0][1], start))] = x[2]
                want = {str(i): L(("obj", "match%d" % (n - 1 - i))) for i in range(n)}
                ctx.check("reduce", key + "/children in order", w, kids == want,
                          "children are %s" % {k: show_loc(v) if v[0] == "L" else show(v) for k, v in kids.items()})
                pops = [sum(1 for x in evs if x[:2] == ("pop", k)) for k in ("match", "state")]
                ctx.check("reduce", key + "/symbols taken from the stack", w, pops == [n, n],
                          "%d symbols and %d states are popped" % tuple(pops))
                acts = [i for i, x in enumerate(evs) if x[0] == "action"]
                ctx.check("reduce", key + "/action", w, len(acts) == has, "the action runs %d times" % len(acts))
                last = max([i for i, x in enumerate(evs) if x[0] == "child"], default=-1)
                ctx.check("reduce", key + "/action after its children", w, all(a > last for a in acts),
                          "the action runs before its children are placed")
                pushes = [x for x in evs if x[0] == "push"]
                ms = [x for x in pushes if x[1] == "match"]
                ss = [x for x in pushes if x[1] == "state"]
                ctx.check("reduce", key + "/result pushed", w, len(ms) == 1 and len(ss) == 1 and
                          all(as_num(x[3]) == num(n) for x in ms + ss), "%d symbols and %d states are pushed" % (len(ms), len(ss)))
                for x in ss:
                    ctx.check("reduce", key + "/next state", w, x[2][0] == "n" and deref(x[2])[1] == ("obj", "goto"), "other state")
                ast = addr(L(("obj", "result"))) if has else ZERO
                for x in ms:
                    ctx.check("reduce", key + "/symbol pushed", w, x[2] == (start, addr(prod), ast),
                              "the symbol pushed is %s" % ", ".join(map(show, x[2])))
                for x in evs:
                    if x[0] == "action":
                        ctx.check("reduce", key + "/symbol given to the action", w, x[1:] == (start, addr(prod)),
                                  "the action runs on %s" % ", ".join(map(show, x[1:])))
                tk = I.read(s, loc_of(ctx, t, "m_next_token"), "std::optional<Token>")
                for x in s.events:
                    if x[0] == "consumed":
                        before = s.facts.is_zero(sub(x[1], sub(begin, ONE))) and s.facts.nonzero(begin) or \
                            s.facts.is_zero(begin) and s.facts.is_zero(sub(x[1], sub(size, ONE)))
                        ctx.check("reduce", key + "/text given up", w, before, "the text up to %s counts as consumed, the token seen begins "
                                  "at %s" % (show(x[1]), show(begin)))
                ctx.check("reduce", key + "/token kept", w, kept(tk, I, s), "the token seen is not kept: %s" % show(tk))
            for x in I.aborts[:1]:
                ctx.check("reduce", key + "/asserts", w, False, "an assertion fails when %s" % facts_str(x[0], 6))
    casts(ctx, nt, start)


def kept(v, I, s):
    """The value is the token the reduction was given."""
    return v[:2] == ("o", "some") and v[2][:2] == ("o", "in") and v[2][2] == L(("obj", "arg1"))


def casts(ctx, nt, start):
    base = atom(("in", at(L(THIS), ("f", fq(nt, ctx, "m_children_start")))))
    for name in ("token_cast", "non_terminal_cast"):
        for f in ctx.m.fns(P + "NonTerminal::" + name):
            I = ctx.interp({"std::get": lambda I, st, e, cx, obj, args: [(st, args[0])]})
            st = State()
            st.facts._bound(sym("i"), 0, 9)
            outs = ctx.run(I, f, st=st, args=[sym("i")])
            ctx.check("children", name + " yields a child", ctx.where(f), outs, "always fails")
            for s, v in outs:
                o = deref(as_num(I.val(s, v)))
                ix = [x[1] for x in o[2] if x[0] == "e"]
                ctx.check("children", name, ctx.where(f), o[1] == ("g", KIDS) and len(ix) == 1 and
                          same(s, ix[0], add(base, sym("i"))), "child i is %s" % show_loc(o))
    for f in ctx.m.fns(P + "NonTerminal::<ctor>"):
        if len(f["params"]) != 1 or "Production" not in f["params"][0]["t"]:
            continue
        w = ctx.where(f)
        cap = None
        for q, g in ctx.m.globals.items():
            if q.endswith("cSizeOfAllChildren"):
                cap = g
        for n in (0, 1, 3):
            I = ctx.interp()
            I.join_key = lambda s: tuple(sorted(map(repr, s.facts.b.items())))
            st = State()
            prod = L(("obj", "prod"))
            I.write(st, at(prod, ("f", fq(rec_name(ctx, "Production"), ctx, "m_body"))),
                    ("o", "vec", tuple(sym("s%d" % i) for i in range(n))))
            old = as_num(I.init_value(st, L(("g", NEXT)), "unsigned int"))
            outs = ctx.run(I, f, st=st, args=[addr(prod)])
            ctx.check("children", "a symbol with %d children is built" % n, w, outs, "always fails")
            for s, v in outs:
                g = lambda x, tt: as_num(I.read(s, at(L(THIS), ("f", fq(nt, ctx, x))), tt))
                new = as_num(I.read(s, L(("g", NEXT)), "unsigned int"))
                ctx.check("children", "first of %d children" % n, w, same(s, g("m_children_start", "unsigned int"), old) and
                          g("m_production", "P *") == addr(prod), "the children start at %s" % show(g("m_children_start", "unsigned int")))
                ctx.check("children", "room of %d children" % n, w, same(s, new, add(old, num(n))),
                          "the next symbol's children start at %s" % show(new))
                if n:
                    size = pool_size(ctx)
                    ctx.check("children", "%d children fit" % n, w, le(s, new, num(size)),
                              "children are stored behind the end of the pool when %s" % facts_str(s, 6))


def pool_size(ctx):
    for q, g in ctx.m.globals.items():
        if q == KIDS:
            import re
            mm = re.search(r"\[(\d+)\]$", g.get("t", "")) or re.match(r"std::array<.*, (\d+)>$", g.get("t", ""))
            if mm:
                return int(mm.group(1))
            init = g.get("init") or {}
            if g["t"].startswith("std::vector<") and init.get("k") == "ctor" and init.get("args") and \
                    "cv" in init["args"][0] and not resized(ctx):
                return init["args"][0]["cv"]
    raise AnalysisBroken("size of the pool of children not found")


def resized(ctx):
    """Calls that change the number of elements of the pool."""
    from model import fn_nodes
    return [n for f in ctx.m.functions.values() for n in fn_nodes(f)
            if n.get("k") == "call" and isinstance(n.get("obj"), dict) and n["obj"].get("id") == KIDS and
            n["q"].rsplit("::", 1)[-1] not in ("operator[]", "at", "size", "empty", "begin", "end", "front", "back", "data")]




def advance_rule(ctx):
    """Every meaning of a token is tried in order; the first that fits decides; a token that never fits stops."""
    f = byte_only(ctx.m.fns(P + "LALR1Parser::parse_advance"))[0]
    w = ctx.where(f)
    tok = rec_name(ctx, "Token")
    ids = L(("obj", "ids"))
    for n in (1, 2, 3):
        def sub_parse(I, st, e, cx, obj, args):
            t = as_num(I.val(st, args[0]))
            i = sum(1 for x in st.events if x[0] == "try")
            st.emit("try", t)
            o = []
            for s, b in I.split(st, sym("fits%d" % i)):
                if b:
                    I.write(s, deref(as_num(I.val(s, args[2]))), sym("accepts"))
                o.append((s, num(1 if b else 0)))
            return o
        hk = h_stacks(ctx, {"m_parse_stack_matches": "match", "m_parse_stack_states": "state"})

        def push(I, st, e, cx, obj, args):
            st.emit("stop")
            return [(st, ("o", "void"))]
        hk["std::stack::push"] = hk["std::stack::emplace"] = push
        hk[P + "LALR1Parser::parse_symbol"] = sub_parse
        I = ctx.interp(hk)
        I.unroll = 6
        I.join_key = lambda s: (s.facts.b.get(()),) + tuple(sorted(map(repr, s.facts.b.items())))
        st = State()
        st.facts._bound(sym("accepts"), 0, 1)
        for i in range(n):
            st.facts._bound(sym("fits%d" % i), 0, 1)
        token = L(("obj", "token"))
        acc = L(("obj", "accept"))
        I.write(st, at(token, ("f", fq(tok, ctx, "m_type_ids_ptr"))), addr(ids))
        I.write(st, ids, ("o", "vec", tuple(sym("type%d" % i) for i in range(n))))
        I.write(st, acc, ZERO)
        outs = ctx.run(I, f, st=st, args=[("ref", token), addr(acc)])
        ctx.check("advance", "%d meanings" % n, w, len(outs) >= n + 1, "a token that fits is not accepted")
        for s, v in outs:
            tried = [x[1] for x in s.events if x[0] == "try"]
            stop = any(x[0] == "stop" for x in s.events)
            fit = [i for i in range(n) if truth(s, sym("fits%d" % i))]
            k = fit[0] + 1 if fit else n
            ctx.check("advance", "%d meanings, %s" % (n, "fit %d" % fit[0] if fit else "none fits"), w,
                      tried == [sym("type%d" % i) for i in range(k)] and stop == (not fit) and
                      same(s, as_num(v), sym("accepts") if fit else ONE),
                      "tries %s, returns %s" % (", ".join(map(show, tried)), show(as_num(v))))
        for x in I.aborts[:1]:
            ctx.check("advance", "asserts", w, False, "an assertion fails")
