"""C28: every accessor of a token reads the bytes the token covers, also when it wraps around its buffer."""
from lib import *

TK = P + "Token"


class Setup:
    def __init__(self, ctx, name, wrap):
        m = ctx.m
        self.f = m.fn(TK + "::" + name)
        t = self.f["clst"]
        g = lambda d: loc_of(ctx, t, d)
        self.start, self.end, self.buf, self.size = (g(x) for x in ("m_start_pos", "m_end_pos", "m_buffer", "m_buffer_size"))
        self.cache = g("m_wrap_around_string")
        st = self.st = State()
        v = lambda l: atom(("in", l))
        self.s, self.e, self.n, self.b = v(self.start), v(self.end), v(self.size), v(self.buf)
        st.facts.assume(scale(self.s, -1), "<=")
        st.facts.assume(scale(self.e, -1), "<=")
        st.facts.assume(sub(add(self.s, ONE), self.n), "<=")
        st.facts.assume(sub(self.e, self.n), "<=")
        if wrap:
            st.facts.assume(sub(add(self.e, ONE), self.s), "<=")
            self.want = [("bytes", add(self.b, self.s), add(self.b, self.n)), ("bytes", self.b, add(self.b, self.e))]
        else:
            st.facts.assume(sub(self.s, self.e), "<=")
            self.want = [("bytes", add(self.b, self.s), add(self.b, self.e))]
        self.wrap = wrap


def rule(ctx):
    for name in ("to_string", "to_string_view"):
        for wrap in (0, 1):
            for cached in ((0, 1) if wrap else (0,)):
                text(ctx, name, wrap, cached)
    delimiter(ctx)
    length(ctx)
    char(ctx)


def text(ctx, name, wrap, cached):
    x = Setup(ctx, name, wrap)
    key = "%s/%s%s" % (name, "wrapped" if wrap else "plain", "/text cached" if cached else "")
    st = x.st
    old = ("o", "in", x.cache)
    if not cached:
        st.store[x.cache] = ("o", "str", "")
    else:
        st.facts.assume(sub(ONE, atom(("size", old))), "<=")
    I = ctx.interp()
    outs = ctx.run(I, x.f, st=st)
    ctx.need(outs, "%s has no normal exit" % name)

    def norm(s, v):
        if wrap and cached and v == old:
            return list(x.want)
        ps = []
        for p in pieces(s, v, I):
            ps += x.want if wrap and cached and p == ("text", old) else [p]
        # an empty second part disappears
        return pieces(s, ("o", "vec", tuple(("o", "range", p[1], p[2]) if p[0] == "bytes" else p[1] if p[0] == "text"
                                            else ("o", "str", p[1]) for p in ps)))
    for s, v in outs:
        v = I.val(s, v) if isinstance(v, tuple) and v[0] == "ref" else v
        want = pieces(s, ("o", "vec", tuple(("o", "range", a, b) for _, a, b in x.want)))
        got = norm(s, v)
        ctx.check("token-text", key, ctx.where(x.f), same_pieces(s, got, want),
                  "the text is %s, the token covers %s" % (show_pieces(got), show_pieces(want)))
        c = I.read(s, x.cache, "std::string")
        if wrap:
            ok = c == old or c == ("o", "str", "") or same_pieces(s, norm(s, c), want)
            ctx.check("cached-text", key, ctx.where(x.f), ok, "the cached text is %s" % show_pieces(norm(s, c)))
        for l, nm in ((x.start, "m_start_pos"), (x.end, "m_end_pos"), (x.buf, "m_buffer"), (x.size, "m_buffer_size")):
            ctx.check("token-unchanged", key + "/" + nm, ctx.where(x.f), same(s, as_num(I.read(s, l, "char *" if nm == "m_buffer" else "unsigned int")), atom(("in", l))),
                      "an accessor leaves %s alone" % nm)


def delimiter(ctx):
    for wrap in (0, 1):
        x = Setup(ctx, "get_delimiter", wrap)
        I = ctx.interp()
        for s, v in ctx.run(I, x.f, st=x.st):
            got = pieces(s, v, I)
            want = [("bytes", add(x.b, x.s), add(add(x.b, x.s), ONE))]
            ctx.check("token-delimiter", "get_delimiter/%d" % wrap, ctx.where(x.f), same_pieces(s, got, want),
                      "the delimiter is %s, the first byte of the token is %s" % (show_pieces(got), show_pieces(want)))


def length(ctx):
    for wrap in (0, 1):
        x = Setup(ctx, "get_length", wrap)
        I = ctx.interp()
        want = sub(x.e, x.s)
        if wrap:
            want = add(want, x.n)
        for s, v in ctx.run(I, x.f, st=x.st):
            ctx.check("token-length", "get_length/%s" % ("wrapped" if wrap else "plain"), ctx.where(x.f),
                      same(s, as_num(v), want), "the length is %s, expected %s" % (show(as_num(v)), show(want)))


def char(ctx):
    for wrap in (0, 1):
        for second in ((0, 1) if wrap else (0,)):
            x = Setup(ctx, "get_char", wrap)
            ctx.need(len(x.f["params"]) == 1, "Token::get_char changed its interface")
            i = atom(("in", L(("obj", "arg0"))))
            I = ctx.interp()
            st = x.st
            a = atom(("param", "i"))
            st.facts._bound(a, 0, 255)
            st.facts.assume(sub(add(add(x.s, a), ONE), scale(x.n, 2)), "<=")
            if second:
                st.facts.assume(sub(x.n, add(x.s, a)), "<=")
                st.facts.assume(sub(add(add(x.s, a), ONE), add(x.n, x.e)), "<=")
                want = sub(add(add(x.b, x.s), a), x.n)
            else:
                st.facts.assume(sub(add(add(x.s, a), ONE), x.n if wrap else x.e), "<=")
                want = add(add(x.b, x.s), a)
            outs = ctx.run(I, x.f, st=st, args=[a])
            for s, v in outs:
                v = I.val(s, v) if isinstance(v, tuple) and v[0] == "ref" else v
                src = source_addr(as_num(v))
                ctx.check("token-char", "get_char/%s%s" % ("wrapped" if wrap else "plain", "/second part" if second else ""),
                          ctx.where(x.f), src is not None and same(s, src, want),
                          "character i is read from %s, expected %s" % (show(src) if src else show(as_num(v)), show(want)))
