"""C07, C08, C29, C30: what a log event view and its deep copy make of the token slots.

A walk over the slots is recognised by what it does, not by how it is written: every pass handles one token whose
address advances by one slot, from the first slot used to the last.
"""
from lib import *

EV = P + "LogEventView"
OB = P + "LogParserOutputBuffer"
TK = P + "Token"


def fr_head(v):
    return v[0] == "o" and v[1] == "fr"


class View:
    """One interpretation of a function that reads the slots of the view at location `view`."""

    def __init__(self, ctx, f, view, has_ts, args=None, setup=None, hooks=None, sid=None):
        self.ctx, self.f, self.view, self.has_ts = ctx, f, view, has_ts
        I = self.I = ctx.interp()
        st = State()
        t = ctx.m.records[EV]["t"] if EV in ctx.m.records and "t" in ctx.m.records[EV] else EV
        obl = path(ctx, EV, "m_log_output_buffer")
        ob = as_num(I.read(st, at(view, *obl), "std::unique_ptr<>"))
        mark_ptr(ob[2][0][0])
        st.facts._bound(ob, 1, None)
        self.ob = deref(ob)
        o = lambda d: ("L", self.ob[1], self.ob[2] + path(ctx, OB, d))
        self.ts, self.delims, self.pos, self.act = o("m_has_timestamp"), o("m_has_delimiters"), o("m_storage.m_pos"), o(
            "m_storage.m_active_storage")
        st.store[self.ts] = num(has_ts)
        self.p = as_num(I.read(st, self.pos, "unsigned int"))
        st.facts._bound(self.p, 1, None)
        self.base = as_num(I.read(st, self.act, "T *"))
        st.facts._bound(self.base, 1, None)
        self.first = num(0 if has_ts else 1)
        self.tk = lambda n: path(ctx, TK, n)
        I.hooks.update({TK + "::to_string": self.h_text, TK + "::to_string_view": self.h_text,
                        TK + "::get_length": self.h_len, TK + "::get_delimiter": self.h_delim,
                        TK + "::get_char": self.h_char,
                        EV + "::add_token": self.h_add})
        I.hooks.update(hooks or {})
        I.on_back = self.on_back
        self.sid = sid
        if setup:
            setup(self, st)
        self.G = L(("obj", "ghost"), ("f", "first newline"))
        st.store[self.G] = ZERO
        self.outs = ctx.run(I, f, st=st, this=view if f["q"].startswith(EV) else None, args=args)
        ctx.need(self.outs, "%s has no normal exit" % f["q"])

    # ------------------------------------------------------------ hooks
    def h_text(self, I, st, e, cx, obj, args):
        return [(st, ("o", "text", addr(obj)))]

    def h_len(self, I, st, e, cx, obj, args):
        return [(st, I.size(st, ("o", "text", addr(obj))))]

    def newline(self, st, obj):
        """Splits on whether the token starts with a newline; remembers the first slot that does."""
        st.emit("nl", addr(obj))
        out = []
        k = ("nl", addr(obj))
        for s, b in self.I.split(st, self.I._bool(st, k)):
            if not b:
                out.append((s, False))
                continue
            for s2, seen in self.I.split(s, as_num(self.I.read(s, self.G, "unsigned int"))):
                if not seen:
                    s2.store[self.G] = sub(addr(obj), self.base)
                out.append((s2, True))
        return out

    def h_delim(self, I, st, e, cx, obj, args):
        if self.sid is not None:
            return [(st, ("o", "delim", addr(obj)))]
        return [(s, ("o", "str", "\n" if b else "x")) for s, b in self.newline(st, obj)]

    def h_char(self, I, st, e, cx, obj, args):
        i = as_num(I.val(st, args[0]))
        if i != ZERO:
            return None
        if self.sid is not None:
            return [(st, atom(("delimchar", addr(obj))))]
        out = []
        for s, b in self.newline(st, obj):
            c = num(10)
            if not b:
                c = atom(("delimchar", addr(obj)))
                s.facts.assume(sub(c, num(10)), "!=")
            out.append((s, c))
        return out

    def h_add(self, I, st, e, cx, obj, args):
        st.emit("tok", obj, as_num(I.val(st, args[0])), as_num(I.val(st, args[1])))
        return [(st, ("o", "void"))]

    def type_of(self, st, A):
        """The first type id of the token at address A."""
        tp = as_num(self.I.read(st, at(deref(A), *self.tk("m_type_ids_ptr")), "T *"))
        return as_num(self.I.read(st, at(deref(tp), ("e", ZERO)), "unsigned int"))

    def addrs(self, v, out):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "o" and v[1] in ("text", "delim"):
                out.add(v[2])
            elif len(v) == 3 and v[0] == "L" and v[1][0] == "d" and v[2][:1] == self.tk("m_type_ids_ptr"):
                out.add(v[1][1])
            elif len(v) == 3 and v[0] == "o" and v[1] == "in" and v[2][0] == "L" and v[2][1][0] == "d" and not v[2][2]:
                out.add(v[2][1][1])
            else:
                for x in v:
                    self.addrs(x, out)

    def on_back(self, I, st, lid, cx):
        ups, A = [], set()
        for k, v in sorted(st.store.items(), key=repr):
            h = ("o", "fr", lid, k)
            hn = atom(("fr", lid, k))
            if v[0] == "o" and v != h and contains(v, lambda t: t == h):
                ups.append((h, v))
                self.addrs(v, A)
            elif v[0] == "n" and v != hn and contains(v, lambda t: t == ("fr", lid, k)):
                ups.append((hn, v))
                self.addrs(v, A)
        for x in st.events:
            if x[0] == "tok":
                A.add(x[3])
            if x[0] == "nl":
                A.add(x[1])
            if x[0] == "put-token":
                self.addrs(x[3], A)
        info = []
        for a in sorted(A, key=repr):
            info.append((a, le(st, add(a, ONE), add(self.base, self.p)), self.kind(st, a), self.extra(st, a)))
        st.emit("pass", lid, tuple(ups), tuple(info))

    def kind(self, st, A):
        if not self.sid:
            return None
        t = self.type_of(st, A)
        for n, k in self.sid.items():
            if same(st, t, num(k)):
                return n
        if all(st.facts.nonzero(sub(t, num(k))) for k in self.sid.values()):
            return "other"
        return "?"

    def extra(self, st, A):
        return None

    # ------------------------------------------------------------ reading
    def sweeps(self, s, A, ind, first=None):
        """None if address A runs over the slots from the first to the last one used, else what is wrong."""
        first = self.first if first is None else first
        hs = [(h, v0, step) for h, v0, step in ind if contains(A, lambda t: t == h[2][0][0])]
        if len(hs) != 1:
            return "the token handled in a pass is not determined by a counter"
        h, v0, step = hs[0]
        k = dict(A[2]).get(h[2][0][0])
        if k is None or k * step != 1:
            return "the walk does not advance by one slot"
        A0 = subst(A, {h[2][0][0]: v0})
        if not same(s, A0, add(self.base, first)):
            return "the walk starts at slot %s instead of %s" % (show(sub(A0, self.base)), show(first))
        if not le(s, add(self.base, self.p), A):
            return "the walk may stop before the last token"
        return None


def loops_of(s):
    return [x for x in s.events if x[0] == "loop"]


def passes(lp):
    """The ("pass", ...) record of each iteration trace of a loop."""
    return [([y for y in it if y[0] == "pass" and y[1] == lp[1]] or [None])[-1] for it in lp[2]]


def this_view():
    return L(THIS)


def text_sweep(ctx, v, s, res, key, rule, first, want):
    """The text `res` is the concatenation, over the slots from `first`, of want(kind, address)."""
    where = ctx.where(v.f)
    ps = pieces(s, res, v.I)
    if len(ps) != 1 or ps[0][0] != "text" or not fr_head(ps[0][1]):
        ctx.check(rule, key, where, False, "the text is not built by one walk over the tokens: %s" % show_pieces(ps)[:200])
        return
    head = ps[0][1]
    lps = [lp for lp in loops_of(s) if lp[1] == head[2]]
    if len(lps) != 1:
        ctx.check(rule, key, where, False, "the text is not built by one walk over the tokens")
        return
    lp = lps[0]
    old = [o for h, o in lp[4] if h == head]
    pre = pieces(s, old[0], v.I) if len(old) == 1 else [None]
    n = 0
    while pre:
        # tokens added one by one before the walk
        w = want(v.kind(s, add(v.base, first)), add(v.base, first))
        if w is None or len(pre) < len(w) or not same_pieces(s, pre[:len(w)], w):
            break
        pre = pre[len(w):]
        first = add(first, ONE)
        n += 1
    ctx.check(rule, key + "/begin", where, not pre and n <= 1, "the text begins empty")
    kinds = set()
    for p in passes(lp):
        if p is None:
            ctx.check(rule, key, where, False, "a pass of the walk adds nothing")
            continue
        new = [n for h, n in p[2] if h == head]
        if not new:
            ctx.check(rule, key, where, False, "a token is left out")
            continue
        q = pieces(s, new[0], v.I)
        if not q or q[0] != ("text", head):
            ctx.check(rule, key, where, False, "a pass replaces the text built so far")
            continue
        if not p[3]:
            ctx.check(rule, key, where, False, "a pass adds something that is no token: %s" % show_pieces(q[1:]))
            continue
        if len(p[3]) != 1:
            ctx.check(rule, key, where, False, "a pass handles %d tokens" % len(p[3]))
            continue
        A, inside, kind, _ = p[3][0]
        bad = v.sweeps(s, A, lp[3], first)
        ctx.check(rule, key + "/walk", where, bad is None, bad or "every slot from the first to the last one used")
        ctx.check(rule, key + "/bound", where, inside, "only slots in use are read")
        kinds.add(kind)
        w = want(kind, A)
        ctx.check(rule, key + ("/" + kind if kind else ""), where, w is not None and same_pieces(s, q[1:], w),
                  "a %s token adds %s, expected %s" % (kind or "", show_pieces(q[1:]), show_pieces(w or [])))


def to_string(ctx):
    f = ctx.m.fn(EV + "::to_string")
    for ts in (0, 1):
        v = View(ctx, f, this_view(), ts)
        for s, res in v.outs:
            text_sweep(ctx, v, s, v.I.val(s, res) if res[0] == "ref" else res, "to_string/%s timestamp" % ("with" if ts else "no"),
                       "event-text", num(0 if ts else 1), lambda k, A: [("text", ("o", "text", A))])


def get_timestamp(ctx):
    f = ctx.m.fn(EV + "::get_timestamp")
    for ts in (0, 1):
        v = View(ctx, f, this_view(), ts)
        for s, res in v.outs:
            w = v.base if ts else ZERO
            ctx.check("timestamp-slot", "get_timestamp/%d" % ts, ctx.where(f), same(s, as_num(res), w),
                      "the timestamp token is %s, expected %s" % (show(as_num(res)), show(w)))


def logtype(ctx):
    f = ctx.m.fn(EV + "::get_logtype")
    sid = {n: enum(ctx, P + "SymbolId", e)[1] for n, e in (("uncaught", "TokenUncaughtString"), ("newline", "TokenNewline"))}
    h = {P + "LogParser::get_id_symbol": lambda I, st, e, cx, obj, args: [(st, ("o", "sym", as_num(I.val(st, args[0]))))]}

    for ts in (0, 1):
        v = View(ctx, f, this_view(), ts, sid=sid, hooks=h)
        kinds = set()

        def want(kind, A):
            kinds.add(kind)
            t = ("text", ("o", "text", A))
            sym_ = ("text", ("o", "sym", v.type_of(v.state, A)))
            if kind == "uncaught":
                return [t]
            name = [("lit", "<"), sym_, ("lit", ">")]
            if kind == "newline":
                return name
            if kind == "other":
                return [("text", ("o", "delim", A))] + name
            return None
        for s, res in v.outs:
            v.state = s
            text_sweep(ctx, v, s, v.I.val(s, res) if res[0] == "ref" else res, "get_logtype/%s timestamp" % ("with" if ts else "no"),
                       "log-type", ONE, want)
        ctx.check("log-type", "get_logtype/kinds/%d" % ts, ctx.where(f), {"uncaught", "newline", "other"} <= kinds | {
            "newline"}, "uncaught text, newlines and variables are told apart (%s)" % sorted(map(str, kinds)))


def accessors(ctx):
    """add_token files a token under its type; get_variables returns what was filed."""
    m = ctx.m
    f = m.fn(EV + "::add_token")
    occ = loc_of(ctx, EV, "m_log_var_occurrences")
    I = ctx.interp()
    ctx.need(len(f["params"]) == 2, "LogEventView::add_token changed its interface")
    t, p = sym("type"), sym("token")
    for s, _ in ctx.run(I, f, args=[t, p]):
        got = I.read(s, at(occ, ("e", t)), "std::vector<>")
        ok = got[0] == "o" and got[1] == "push" and as_num(got[3]) == p
        ctx.check("variable-filed", "add_token", ctx.where(f), ok, "the token is appended to the list of its type")
    f = m.fn(EV + "::get_variables")
    I = ctx.interp()
    for s, v in ctx.run(I, f, args=[t]):
        ctx.check("variable-list", "get_variables", ctx.where(f), v == ("ref", at(occ, ("e", t))),
                  "the list of the requested type is returned")


def metadata(ctx):
    f = ctx.m.fn(P + "LogParser::generate_log_event_view_metadata")
    vp = loc_of(ctx, f["clst"], "m_log_event_view")
    evp = atom(("in", vp))
    mark_ptr(evp[2][0][0])
    view = deref(evp)
    for ts in (0, 1):
        v = View(ctx, f, view, ts, setup=lambda v, st: st.facts._bound(evp, 1, None))
        key = "metadata/%s timestamp" % ("with" if ts else "no")
        for s, _ in v.outs:
            walk_adds(ctx, v, s, key, view, ctx.where(f), "variable-listed")


def walk_adds(ctx, v, s, key, view, where, rule):
    """Every token in use is filed once, in order, under its first type."""
    lps = [lp for lp in loops_of(s) if any(y[0] == "tok" for it in lp[2] for y in it)]
    flat = [x for x in s.events if x[0] == "tok"]
    if len(lps) != 1 or flat:
        ctx.check(rule, key, where, False, "the tokens are not filed by one walk over the slots")
        return
    lp = lps[0]
    for it in lp[2]:
        toks = [y for y in it if y[0] == "tok"]
        if len(toks) != 1:
            ctx.check(rule, key, where, False, "a pass files %d tokens" % len(toks))
            continue
        _, obj, tid, A = toks[0]
        p = [y for y in it if y[0] == "pass" and y[1] == lp[1]][-1]
        bad = v.sweeps(s, A, lp[3])
        ctx.check(rule, key + "/walk", where, bad is None, bad or "every slot from the first to the last one used")
        ctx.check(rule, key + "/bound", where, all(i[1] for i in p[3] if i[0] == A), "only slots in use are filed")
        ctx.check(rule, key + "/view", where, obj == view, "the token is filed in the view it belongs to")
        ctx.check(rule, key + "/type", where, same(s, tid, v.type_of(s, A)), "the token is filed under %s, its type is %s" % (
            show(tid), show(v.type_of(s, A))))


def multiline(ctx):
    """C29: an event is multi-line iff a newline-started token is followed by another token."""
    f = ctx.m.fn(P + "LogParser::generate_log_event_view_metadata")
    vp = loc_of(ctx, f["clst"], "m_log_event_view")
    evp = atom(("in", vp))
    mark_ptr(evp[2][0][0])
    view = deref(evp)
    flag = at(view, *path(ctx, EV, "m_multiline"))
    where = ctx.where(f)
    for ts in (0, 1):
        for pos1 in (0, 1):
            def setup(v, st):
                st.facts._bound(evp, 1, None)
                st.store[flag] = ZERO

                def jk(s):
                    g = as_num(v.I.read(s, v.G, "unsigned int"))
                    return truth(s, g), le(s, add(g, num(2)), v.p), le(s, v.p, add(g, ONE))
                v.I.join_key = jk
                if pos1:
                    st.facts.assume(sub(v.p, ONE), "==")
            v = View(ctx, f, view, ts, setup=setup)
            for s, _ in v.outs:
                g = as_num(v.I.read(s, v.G, "unsigned int"))
                got = truth(s, as_num(v.I.read(s, flag, "bool")))
                seen = truth(s, g)
                if not ts:
                    ctx.check("multiline", "no timestamp", where, got is False, "without a timestamp an event is a single line")
                    continue
                key = "with timestamp/%s" % ("only token" if pos1 else "tokens")
                more = le(s, add(g, num(2)), v.p)
                last = le(s, v.p, add(g, ONE))
                if seen is False:
                    want = False
                elif seen is True and more:
                    want = True
                elif seen is True and last:
                    want = False
                else:
                    want = None
                ctx.check("multiline", key + "/%s" % {True: "newline then more", False: "none or last", None: "?"}[want], where,
                          want is not None and got is want,
                          "the flag is %s with the first newline-started slot %s of %s" % (got, show(g), show(v.p)))
                # the walk looks at every token until it found one
                for lp in loops_of(s):
                    for it in lp[2]:
                        nl = [y for y in it if y[0] == "nl"]
                        if not nl:
                            continue
                        bad = v.sweeps(s, nl[0][1], lp[3])
                        if bad and seen is True and "before the last" in bad:
                            bad = None
                        ctx.check("multiline", key + "/walk", where, bad is None, bad or "every slot is looked at")


def lists(ctx):
    """The lists of variables: one for every id when the view is built, all empty before each event is parsed."""
    from rules.reset import clears_all
    m = ctx.m
    f = m.fn(EV + "::reset")
    occ = loc_of(ctx, f["clst"], "m_log_var_occurrences")

    ctx.check("lists-emptied", "reset", ctx.where(f), clears_all(ctx, f, occ, {
        P + "LogParserOutputBuffer::reset": lambda I, st, e, cx, obj, args: [(st, ("o", "void"))]}),
        "every list of variables is emptied before the next event and their number stays")
    ctors = [c for c in m.functions.values() if c["q"] == EV + "::<ctor>" and c.get("params") and not c.get("copyctor")
             and not c.get("defaulted") and len(c["params"]) == 1 and c["params"][0].get("rec") == P + "LogParser"]
    ctx.need(ctors, "the constructor of LogEventView from its parser was not found")
    for c in ctors:
        I = ctx.interp()
        lp = L(("obj", "parser"))
        names = ("L", ("obj", "parser"), path(ctx, P + "LogParser", "m_lexer.m_id_symbol"))
        for s, _ in ctx.run(I, c, args=[("ref", lp)]):
            v = I.read(s, occ, "std::vector<>")
            n = I.size(s, v)
            want = I.size(s, I.read(s, names, "std::unordered_map<>"))
            ctx.check("lists-for-every-id", "LogEventView", ctx.where(c), s.facts.lower(sub(n, want)) >= 0,
                      "a new view has %s lists for %s ids" % (show(n), show(want)))


def rule08(ctx):
    lists(ctx)
    to_string(ctx)
    get_timestamp(ctx)
    metadata(ctx)
    accessors(ctx)


# ---------------------------------------------------------------- deep copies
class Copy(View):
    def __init__(self, ctx, ts):
        f = [x for x in ctx.m.fns(P + "LogEvent::<ctor>") if len(x["params"]) == 1 and not x.get("copyctor")
             and not x.get("movector")]
        ctx.need(len(f) == 1, "the constructor LogEvent(LogEventView const&) was not found")
        self.src = L(("obj", "arg0"))
        hooks = {OB + "::set_curr_token": self.h_set, OB + "::set_token": self.h_set2,
                 OB + "::advance_to_next_token": self.h_adv}

        def setup(v, st):
            v.I.on_copy = lambda st, first, last, dst, e, cx: st.emit("copy", string_at(v.I, st, first, last), dst)
            v.I.on_write = v.h_write
        super().__init__(ctx, f[0], self.src, ts, hooks=hooks, setup=setup)

    def h_write(self, st, loc, v, node, cx):
        if any(s[0] == "e" for s in loc[2]) and loc[1] == ("obj", "this"):
            st.emit("put", loc, v)

    def h_set(self, I, st, e, cx, obj, args):
        st.emit("put-token", obj, as_num(I.read(st, at(obj, *path(self.ctx, OB, "m_storage.m_pos")), "unsigned int")),
                I.val(st, args[0]))
        return [(st, ("o", "void"))]

    def h_set2(self, I, st, e, cx, obj, args):
        st.emit("put-token", obj, as_num(I.val(st, args[0])), I.val(st, args[1]))
        return [(st, ("o", "void"))]

    def on_back(self, I, st, lid, cx):
        puts = [x for x in st.events if x[0] == "put-token"]
        if len(puts) == 1:
            T = token_fields(self.ctx, I, puts[0][3])
            A = set()
            self.addrs(puts[0][3], A)
            start, end = T["m_start_pos"], T["m_end_pos"]
            n = I.size(st, ("o", "text", A.pop())) if len(A) == 1 else None
            cont = False
            for k, v in st.store.items():
                if v[0] == "n" and atom(("fr", lid, k)) == start and same(st, v, end):
                    cont = True
            st.emit("range", n is not None and same(st, sub(end, start), n), cont)
        super().on_back(I, st, lid, cx)

    def h_char(self, I, st, e, cx, obj, args):
        # by C28, the i-th byte of the token's text
        return [(st, atom(("val", ("o", "sel", ("o", "text", addr(obj)), (("e", as_num(I.val(st, args[0]))),)))))]

    def h_adv(self, I, st, e, cx, obj, args):
        l = at(obj, *path(self.ctx, OB, "m_storage.m_pos"))
        I.write(st, l, add(as_num(I.read(st, l, "unsigned int")), ONE))
        return [(st, ("o", "void"))]


def strip_inds(v, inds):
    """v at the entry of the loop and its change per pass; None if it does not advance steadily."""
    m, d = {}, num(0)
    if v[0] != "n":
        return None
    for h, v0, step in inds:
        a = h[2][0][0]
        k = dict(v[2]).get(a)
        if k:
            m[a] = v0
            d = add(d, num(k * step))
    return subst(v, m), d


def deep_copy(ctx):
    for ts in (0, 1):
        one_copy(ctx, ts)


def one_copy(ctx, ts):
    v = Copy(ctx, ts)
    I, f = v.I, v.f
    where = ctx.where(f)
    key = "deep copy/%s timestamp" % ("with" if ts else "no")
    tv = lambda n: path(ctx, EV, n)
    for s, _ in v.outs:
        dst = deref(as_num(I.read(s, L(THIS, *tv("m_log_output_buffer")), "std::unique_ptr<>")))
        o = lambda d: at(dst, *path(ctx, OB, d))
        pairs = [("m_multiline", as_num(I.read(s, L(THIS, *tv("m_multiline")), "bool")),
                  as_num(I.read(State(), at(v.src, *tv("m_multiline")), "bool"))),
                 ("m_has_timestamp", as_num(I.read(s, o("m_has_timestamp"), "bool")), num(ts)),
                 ("m_has_delimiters", as_num(I.read(s, o("m_has_delimiters"), "bool")),
                  as_num(I.read(State(), v.delims, "bool")))]
        for n, got, want in pairs:
            ctx.check("flag-copied", key + "/" + n, where, same(s, got, want), "%s of the copy is %s, expected %s" % (
                n, show(got), show(want)))
        mb = loc_of(ctx, f["clst"], "m_buffer")
        data = addr(at(mb, ("e", ZERO)))
        cps = [lp for lp in loops_of(s) if any(y[0] == "put-token" for it in lp[2] for y in it)]
        stray = [x for x in s.events if x[0] == "put-token"]
        if len(cps) != 1 or stray:
            ctx.check("tokens-copied", key, where, False, "the tokens are not copied by one walk over the slots")
            continue
        lp = cps[0]
        size = None
        for h, old in lp[4]:
            if h[3] == mb and old[0] == "o" and old[1] in ("resize", "fill"):
                size = old[3] if old[1] == "resize" else old[2]
        ctx.check("buffer-size", key + "/allocated", where, size is not None,
                  "the byte buffer has its final size before the first token is copied")
        if size is None:
            continue
        total(ctx, v, s, key, where, size)
        A = None
        for it in lp[2]:
            puts = [y for y in it if y[0] == "put-token"]
            ps = [y for y in it if y[0] == "pass" and y[1] == lp[1]][-1]
            if len(puts) != 1:
                ctx.check("tokens-copied", key, where, False, "a pass stores %d tokens" % len(puts))
                continue
            _, ob, slot, tk = puts[0]
            T = token_fields(ctx, I, tk)
            As = [a for a in ps[3]]
            if len(As) != 1:
                ctx.check("tokens-copied", key, where, False, "a pass handles %d tokens" % len(As))
                continue
            A = As[0][0]
            bad = v.sweeps(s, A, lp[3])
            ctx.check("tokens-copied", key + "/walk", where, bad is None, bad or "every slot from the first to the last one used")
            ctx.check("tokens-copied", key + "/bound", where, As[0][1], "only slots in use are read")
            ctx.check("tokens-copied", key + "/destination", where, ob == dst, "the token is stored in the copy")
            rel = strip_inds(sub(slot, sub(A, v.base)), lp[3])
            ctx.check("same-slot", key, where, rel is not None and same(s, rel[0], ZERO) and rel[1] == ZERO,
                      "a token keeps its slot: stored at %s, taken from slot %s" % (show(slot), show(sub(A, v.base))))
            text = ("o", "text", A)
            n = I.size(s, text)
            start = T["m_start_pos"]
            rng = [y for y in it if y[0] == "range"][-1]
            ctx.check("token-range", key + "/length", where, rng[1],
                      "the copied token covers [%s, %s), its text has %s bytes" % (show(start), show(T["m_end_pos"]), show(n)))
            ctx.check("token-range", key + "/buffer", where, same(s, T["m_buffer"], data) and same(s, T["m_buffer_size"], size),
                      "the copied token refers to the copy's own buffer and its size (%s, %s)" % (
                          show(T["m_buffer"]), show(T["m_buffer_size"])))
            rd = lambda nme, t: as_num(I.read(s, at(deref(A), *v.tk(nme)), t))
            ctx.check("token-copied", key + "/line", where, same(s, T["m_line"], rd("m_line", "unsigned int")),
                      "the line is %s" % show(T["m_line"]))
            ctx.check("token-copied", key + "/types", where, same(s, T["m_type_ids_ptr"], rd("m_type_ids_ptr", "T *")),
                      "the types are %s" % show(T["m_type_ids_ptr"]))
            # where the next token goes
            v0 = entry_value(s, lp, start)
            ctx.check("token-range", key + "/contiguous", where, rng[2],
                      "a token begins where the previous one ended")
            ctx.check("token-range", key + "/first", where, v0 is None or same(s, v0, ZERO), "the first token begins at 0")
            bytes_copied(ctx, v, s, key, where, it, mb, data, start, text, n)
        if A is None:
            continue
        nb = as_num(I.read(s, o("m_storage.m_active_storage"), "T *"))
        np = as_num(I.read(s, o("m_storage.m_pos"), "unsigned int"))
        r = strip_inds(sub(np, sub(A, v.base)), lp[3])
        ctx.check("token-count", key, where, r is not None and same(s, r[0], ZERO) and r[1] == ZERO,
                  "the copy has as many tokens as the view (%s)" % show(np))
        walk_adds2(ctx, v, s, key, where, nb, np)


def token_fields(ctx, I, tk):
    from rules.events import token_of
    return token_of(I, tk)


def entry_value(s, lp, h):
    for a, v0, step in lp[3]:
        if a == h:
            return v0
    for a, v0 in lp[5] if len(lp) > 5 else ():
        if a == h:
            return v0
    return None


def total(ctx, v, s, key, where, size):
    """The size is the sum of the lengths of all tokens in use."""
    ok, why = False, "the buffer size %s is not the sum of the token lengths" % show(size)
    for lp in loops_of(s):
        for p in passes(lp):
            if p is None:
                continue
            for h, nw in p[2]:
                if h == size and len(p[3]) == 1:
                    A, inside = p[3][0][:2]
                    bad = v.sweeps(s, A, lp[3])
                    v0 = entry_value(s, lp, h)
                    ok = bad is None and inside and same(s, sub(nw, h), v.I.size(s, ("o", "text", A))) and (
                        v0 is None or same(s, v0, ZERO))
                    why = bad or "each pass adds the length of its token (%s)" % show(sub(nw, h))
    ctx.check("buffer-size", key + "/sum", where, ok, why)


def bytes_copied(ctx, v, s, key, where, it, mb, data, start, text, n):
    """The bytes of the text go to [start, start + n) of the buffer, one by one or in bulk."""
    ok, why = False, "the bytes of the token are not copied"
    for x in it:
        if x[0] == "copy":
            ok = x[1] == text and same(s, x[2], add(data, start))
            why = "the text is copied to %s" % show(sub(x[2], data))
        elif x[0] == "loop":
            for it2 in x[2]:
                for y in it2:
                    if y[0] != "put":
                        continue
                    loc, val = y[1], y[2]
                    c = as_num(loc[2][-1][1])
                    r = index_in(val, text)
                    if loc[:2] != mb[:2] or loc[2][:-1] != mb[2] or r is None:
                        why = "%s := %s" % (show_loc(loc), show(val))
                        continue
                    a, b = strip_inds(c, x[3]), strip_inds(r, x[3])
                    ok = same(s, a[0], start) and same(s, b[0], ZERO) and a[1] == ONE and b[1] == ONE
                    why = "byte %s of the text goes to position %s" % (show(r), show(c))
    ctx.check("bytes-copied", key, where, ok, why)


def index_in(val, text):
    """i if val is the i-th byte of the text."""
    res = []

    def look(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == "o" and t[1] == "sel" and t[2] == text and len(t[3]) == 1:
                res.append(as_num(t[3][0][1]))
                return
            for y in t:
                look(y)
    look(val)
    return res[0] if len(res) == 1 else None


def walk_adds2(ctx, v, s, key, where, nb, np):
    class W:
        pass
    w = W()
    w.base, w.p, w.first, w.I, w.tk = nb, np, v.first, v.I, v.tk
    lps = [lp for lp in loops_of(s) if any(y[0] == "tok" for it in lp[2] for y in it)]
    if len(lps) != 1:
        ctx.check("variable-listed", key, where, False, "the copied tokens are not filed by one walk over the slots")
        return
    lp = lps[0]
    for it in lp[2]:
        toks = [y for y in it if y[0] == "tok"]
        if len(toks) != 1:
            ctx.check("variable-listed", key, where, False, "a pass files %d tokens" % len(toks))
            continue
        _, obj, tid, A = toks[0]
        bad = View.sweeps(w, s, A, lp[3])
        ctx.check("variable-listed", key + "/walk", where, bad is None, bad or "every slot from the first to the last one used")
        ctx.check("variable-listed", key + "/view", where, obj == this_view(), "the token is filed in the copy")
        ctx.check("variable-listed", key + "/type", where, same(s, tid, View.type_of(w, s, A)),
                  "the token is filed under %s, its type is %s" % (show(tid), show(View.type_of(w, s, A))))
