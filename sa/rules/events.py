"""Abstract interpretation of LogParser::parse over an arbitrary token stream.

The lexer is replaced by its contract (checked separately): each call yields an error or a token of any
type, with or without a leading newline.  The rules look at what happens to every token.
"""
from lib import *

LP = P + "LogParser"
TK = P + "Token::"
KINDS = ["End", "Uncaught", "FirstTimestamp", "NewlineTimestamp", "Newline", "Var"]


class Tok:
    def __init__(self, ctx, S):
        sid = lambda n: enum(ctx, P + "SymbolId", n)
        self.kind = {"End": sid("TokenEnd"), "Uncaught": sid("TokenUncaughtString"),
                     "FirstTimestamp": sid("TokenFirstTimestamp"), "NewlineTimestamp": sid("TokenNewlineTimestamp"),
                     "Newline": sid("TokenNewline")}
        self.max = max(v[1] for v in self.kind.values())
        self.S = S

    def fields(self, st, tid, kind, nl):
        """Field values of a token of the given kind whose first character is (not) a newline."""
        A = lambda n: atom(("tok", tid, n))
        s, e = A("start"), A("end")
        buf, types = A("buffer"), A("types")
        mark_ptr(buf[2][0][0])
        mark_ptr(types[2][0][0])
        st.facts.assume(scale(s, -1), "<=")
        st.facts.assume(sub(add(s, ONE), self.S), "<=")
        st.facts.assume(scale(e, -1), "<=")
        st.facts.assume(sub(e, self.S), "<=")
        st.facts._bound(types, 1, None)
        if kind == "Var":
            t = A("type")
            st.facts.assume(sub(num(self.max + 1), t), "<=")
        else:
            t = self.kind[kind]
        st.store[at(deref(types), ("e", ZERO))] = t
        c = num(10) if nl else A("char")
        if not nl:
            st.facts._bound(c, -128, 127)
            st.facts.assume(sub(c, num(10)), "!=")
        st.store[deref(add(buf, s))] = c
        return {"m_start_pos": s, "m_end_pos": e, "m_buffer": buf, "m_buffer_size": self.S, "m_line": A("line"),
                "m_type_ids_ptr": types}


NAMES = ["m_start_pos", "m_end_pos", "m_buffer", "m_buffer_size", "m_line", "m_type_ids_ptr"]


def put_token(I, st, loc, fl):
    I.write(st, loc, ("o", "undef"))
    for n, v in fl.items():
        st.store[at(loc, ("f", TK + n))] = v
    st.store[at(loc, ("f", TK + "m_wrap_around_string"))] = ("o", "str", "")


def token_of(I, v):
    """Field values of a token value."""
    return {n: as_num(I.sel(State(), v, (("f", TK + n),), "unsigned long")) for n in NAMES}


def tid_of(f):
    """Which scanned token do these fields belong to?  (id, 'whole' | 'first' | 'rest' | None)"""
    b = f["m_buffer"]
    for a, k in b[2]:
        if isinstance(a, tuple) and a[0] == "tok":
            return a[1]
    return None


class Run:
    """All exits of parse() from one entry situation."""

    def __init__(self, ctx, resume, has_start, has_ts):
        m = ctx.m
        self.f = f = m.fn(LP + "::parse")
        ctx.need(len(f["params"]) == 1, "LogParser::parse changed its interface")
        t = f["clst"]
        self.ctx = ctx
        view = deref(atom(("in", L(THIS, *path(ctx, t, "m_log_event_view")))))
        vt = P + "LogEventView"
        obp = at(view, *path(ctx, vt, "m_log_output_buffer"))
        ob = deref(atom(("in", obp)))
        ot = P + "LogParserOutputBuffer"
        self.pos = at(ob, *path(ctx, ot, "m_storage.m_pos"))
        self.ts = at(ob, *path(ctx, ot, "m_has_timestamp"))
        self.delims = at(ob, *path(ctx, ot, "m_has_delimiters"))
        self.lexdelims = loc_of(ctx, t, "m_lexer.m_has_delimiters")
        self.store = atom(("in", at(ob, *path(ctx, ot, "m_storage.m_active_storage"))))
        mark_ptr(self.store[2][0][0])
        self.cons = loc_of(ctx, t, "m_input_buffer.m_consumed_pos")
        self.has = loc_of(ctx, t, "m_has_start_of_log")
        self.start = loc_of(ctx, t, "m_start_of_log_message")
        S = atom(("in", loc_of(ctx, t, "m_input_buffer.m_storage.m_active_size")))
        self.S = S
        self.tk = tk = Tok(ctx, S)
        st = State()
        st.facts.assume(sub(num(4), S), "<=")
        st.store[self.has] = num(has_start)
        st.store[self.ts] = num(has_ts)
        self.p0 = ZERO
        if resume:
            self.p0 = atom(("in", self.pos))
            st.facts.assume(sub(ONE if has_ts else num(2), self.p0), "<=")
        else:
            st.store[self.pos] = ZERO
        self.has_start, self.has_ts, self.resume = has_start, has_ts, resume
        I = self.I = ctx.interp()
        OK = err(ctx, "Success")
        self.tokens = {}
        store_base = ptr_base(self.store)

        def hscan(I, st, e, cx, obj, args):
            p = as_num(I.read(st, self.pos, "unsigned int"))
            out = []
            s = st.copy()
            ev = atom(s.fresh("scanerr"))
            s.facts._bound(ev, 1, None)
            s.emit("scanerr", ev, p)
            out.append((s, ev))
            for kind in KINDS:
                for nl in (0, 1):
                    if kind in ("Newline", "NewlineTimestamp") and not nl:
                        continue
                    if kind == "FirstTimestamp" and nl:
                        continue
                    s = st.copy()
                    tid = s.fresh("t", kind, nl)
                    fl = tk.fields(s, tid, kind, nl)
                    put_token(I, s, args[1][1], fl)
                    self.tokens[tid] = (kind, nl)
                    s.emit("scan", tid, p)
                    out.append((s, OK))
            return out

        def on_write(st, loc, v, node, cx):
            if loc[1][0] == "d" and not loc[2] and ptr_base(loc[1][1]) == store_base:
                st.emit("store", sub(loc[1][1], self.store), v)
            elif loc[1][0] == "d" and loc[2] and ptr_base(loc[1][1]) == store_base:
                st.emit("part", sub(loc[1][1], self.store), loc[2], v)
            elif loc == self.pos:
                st.emit("pos", as_num(v))
            elif loc == self.cons:
                st.emit("cons", as_num(v))

        def hadv(I, st, e, cx, obj, args):
            p = as_num(I.read(st, self.pos, "unsigned int"))
            I.write(st, self.pos, add(p, ONE))
            return [(st, ("o", "void"))]
        I.hooks.update({P + "Lexer::scan": hscan, P + "LogParserOutputBuffer::advance_to_next_token": hadv})
        I.on_write = on_write
        if has_start:
            # the pending token: a newline timestamp or a variable, its newline already cut off
            self.pend = []
            sts = []
            for kind in ("NewlineTimestamp", "Var"):
                s = st.copy()
                tid = ("pending", kind)
                fl = tk.fields(s, tid, kind, 0)
                self.tokens[tid] = (kind, 0)
                put_token(I, s, self.start, fl)
                sts.append(s)
        else:
            sts = [st]
        self.outs = []
        for s in sts:
            self.outs += ctx.run(I, f, st=s)
        ctx.need(self.outs, "LogParser::parse has no normal exit")

    # ---- reading results
    def action(self, s):
        v = as_num(self.I.read(s, L(("obj", "arg0")), "int"))
        for n in ("None", "Compress", "CompressAndFinish"):
            if same(s, v, enum(self.ctx, LP + "::ParsingAction", n)):
                return n
        return "?" if is_const(v) else "unset"

    def slots(self, s, evs):
        """[(index, token fields)] in order of the last write, from an event list."""
        out = []
        for x in evs:
            if x[0] == "store":
                out = [(i, f) for i, f in out if i != x[1]]
                out.append((x[1], token_of(self.I, x[2])))
            elif x[0] == "part":
                if not any(i == x[1] for i, _ in out):
                    out.append((x[1], {n: num(-1) for n in NAMES}))
                for i, f in out:
                    if i == x[1]:
                        n = x[2][0][1].rsplit("::", 1)[-1]
                        if n in f:
                            f[n] = as_num(x[3])
        return out

    def whole(self, f, tid):
        s = State()
        A = lambda n: atom(("tok", tid, n))
        return f["m_start_pos"] == A("start") and f["m_end_pos"] == A("end") and f["m_buffer"] == A("buffer") and \
            f["m_type_ids_ptr"] == A("types") and f["m_line"] == A("line") and f["m_buffer_size"] == self.S

    def newline_part(self, s, f, tid):
        A = lambda n: atom(("tok", tid, n))
        un = [g for g in self.ctx.m.globals if g.endswith("::cTokenUncaughtStringTypes")]
        return f["m_start_pos"] == A("start") and same(s, f["m_end_pos"], add(A("start"), ONE)) and \
            f["m_buffer"] == A("buffer") and f["m_buffer_size"] == self.S and f["m_line"] == A("line") and \
            contains(f["m_type_ids_ptr"], lambda t: len(t) == 2 and t[0] == "g" and "cTokenUncaughtStringTypes" in str(t[1]))

    def rest_part(self, s, f, tid):
        A = lambda n: atom(("tok", tid, n))
        st0 = f["m_start_pos"]
        a = A("start")
        if same(s, a, sub(self.S, ONE)):
            okk = same(s, st0, ZERO)
        else:
            okk = same(s, st0, add(a, ONE)) and s.facts.nonzero(sub(a, sub(self.S, ONE)))
        return okk and f["m_end_pos"] == A("end") and f["m_buffer"] == A("buffer") and \
            f["m_type_ids_ptr"] == A("types") and f["m_line"] == A("line") and f["m_buffer_size"] == self.S


def runs(ctx):
    for resume, has_start, has_ts in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1)):
        yield Run(ctx, resume, has_start, has_ts)


def situation(r):
    return ("resumed, %s timestamp" % ("with" if r.has_ts else "no") if r.resume else
            "fresh, pending token" if r.has_start else "fresh")


def split_events(s):
    """(events before the loop, loops' iteration traces, events of the last partial iteration)"""
    pre, its, post = [], [], []
    for x in s.events:
        if x[0] == "loop":
            its += list(x[2])
            pre += post
            post = []
        else:
            post.append(x)
    return pre, its, post


def describe(f):
    return "{start %s, end %s, types %s}" % (show(f["m_start_pos"]), show(f["m_end_pos"]), show(f["m_type_ids_ptr"]))


def conservation(ctx):
    """C05: every token the lexer yields is stored exactly once, in order; a split token loses nothing."""
    OK = err(ctx, "Success")
    f = ctx.m.fn(LP + "::parse")
    n = 0
    for r in runs(ctx):
        sit = situation(r)
        for s, v in r.outs:
            pre, its, post = split_events(s)
            # whole iterations: one token scanned at position p, stored at p, position p+1
            for it in its:
                n += 1
                iteration(ctx, r, f, sit, s, it)
            failed = not same(s, as_num(v), OK)
            act = r.action(s)
            exit_state(ctx, r, f, sit, s, pre, post, failed, act, bool(its))
    ctx.need(n >= 3, "the token loop of LogParser::parse was not found")


def iteration(ctx, r, f, sit, s, it):
    scans = [x for x in it if x[0] == "scan"]
    kind = r.tokens.get(scans[0][1], ("?", 0)) if scans else ("none", 0)
    key = "parse/%s/loop/%s%s" % (sit, kind[0], " after newline" if kind[1] else "")
    if len(scans) != 1:
        ctx.check("one-token-per-iteration", key, ctx.where(f), False, "%d tokens are taken in one iteration" % len(scans))
        return
    tid, p = scans[0][1], scans[0][2]
    sl = r.slots(s, it)
    poss = [x[1] for x in it if x[0] == "pos"]
    ok = len(sl) == 1 and sub(sl[0][0], p) == ZERO and r.whole(sl[0][1], tid)
    ctx.check("token-stored", key, ctx.where(f), ok, "the token is stored unchanged in the next slot: %s" % (
        "; ".join("slot +%s %s" % (show(sub(i, p)), describe(x)) for i, x in sl) or "not stored"))
    ctx.check("slot-advanced", key, ctx.where(f), bool(poss) and sub(poss[-1], p) == ONE,
              "the output position advances by exactly one (%s)" % (show(sub(poss[-1], p)) if poss else "not moved"))


def exit_state(ctx, r, f, sit, s, pre, post, failed, act, looped):
    I = r.I
    pos = as_num(I.read(s, r.pos, "unsigned int"))
    has = truth(s, I.read(s, r.has, "bool"))
    ts = truth(s, I.read(s, r.ts, "bool"))
    evs = pre + post
    scans = [x for x in evs if x[0] == "scan"]
    sl = r.slots(s, evs)
    order = []      # tokens this call must have placed, oldest first (not counting loop iterations)
    if r.has_start:
        pk = [a for a in [("pending", "NewlineTimestamp"), ("pending", "Var")]
              if at(deref(atom(("tok", a, "types"))), ("e", ZERO)) in s.store]
        order += pk[:1]
    order += [x[1] for x in scans]
    base = r.p0
    names = [r.tokens[t][0] + ("+nl" if r.tokens[t][1] else "") for t in order]
    key = "parse/%s/%s/%s" % (sit, ",".join(names) or "none", "error" if failed else act)
    where = ctx.where(f)
    if failed:
        # an error may only come from the lexer, and what was stored before it stays stored
        es = [x for x in post if x[0] == "scanerr"]
        ctx.check("error-kept", key, where, len(es) == 1, "an unsuccessful return reports the lexer's error")
    if act == "CompressAndFinish" and not failed:
        last = order[-1] if order else None
        ctx.check("finish-at-end-only", key, where, last is not None and r.tokens[last][0] == "End",
                  "the last event is announced exactly when the end token was scanned (%s)" % names)
        placed = order[:-1]
    else:
        placed = list(order)
    # where must they be?
    if not placed:
        if not looped and not failed and act != "CompressAndFinish":
            ctx.check("event-has-token", key, where, False, "an event without any token is reported")
        if not looped and failed:
            ctx.check("position-kept", key, where, same(s, pos, base),
                      "without a token the output position stays %s (%s)" % (show(base), show(pos)))
        if not looped and act == "CompressAndFinish" and not r.resume:
            ctx.check("empty-last-event", key, where, same(s, pos, ONE) and ts is False,
                      "an end without any token leaves an event without tokens (position %s)" % show(pos))
    bytes_ = {}
    for k, t in enumerate(placed):
        last = k == len(placed) - 1
        first = k == 0 and not r.resume
        # expected slot
        if first:
            kind = r.tokens[t][0]
            is_ts = kind in ("FirstTimestamp", "NewlineTimestamp")
            split_first = kind == "NewlineTimestamp" and not r.has_start
            want = ZERO if is_ts and not split_first else ONE
        elif t in [x[1] for x in pre + post if x[0] == "scan"]:
            want = [x[2] for x in scans if x[1] == t][0]
        got = [fl for i, fl in sl if same(s, i, want)]
        dup = [i for i, fl in sl if tid_of(fl) == t and not same(s, i, want)]
        tn = r.tokens[t][0]
        if not got:
            ctx.check("token-stored", key + "/" + tn, where, False, "token not stored in slot %s" % show(want))
            continue
        g = got[-1]
        ctx.check("token-once", key + "/" + tn, where, not dup, "the token is stored in one slot only")
        if r.whole(g, t):
            split = False
        elif last and r.newline_part(s, g, t):
            split = True
        else:
            ctx.check("token-stored", key + "/" + tn, where, False, "slot %s holds %s instead of the token" % (
                show(want), describe(g)))
            continue
        if last and not failed:
            if split:
                pv = token_of(I, I.read(s, r.start))
                ctx.check("split-keeps-rest", key + "/" + tn, where, has is True and r.rest_part(s, pv, t),
                          "after cutting the newline off, the rest of the token is pending: flag %s, %s" % (
                              has, describe(pv)))
            else:
                ctx.check("nothing-pending", key + "/" + tn, where, has is False,
                          "no token is pending when the last one was stored whole (flag %s)" % has)
        else:
            ctx.check("token-stored", key + "/" + tn, where, not split, "the token is stored whole")
        # the position after this token, before the next one is asked for
        i0 = max([i for i, x in enumerate(evs) if x[0] == "scan" and x[1] == t] or [-1])
        nxt = [i for i, x in enumerate(evs) if i > i0 and x[0] in ("scan", "scanerr")]
        mv = [x[1] for x in evs[i0 + 1:nxt[0] if nxt else len(evs)] if x[0] == "pos"]
        ctx.check("slot-advanced", key + "/" + tn, where, bool(mv) and same(s, mv[-1], add(want, ONE)),
                  "the output position is one past the token (%s, slot %s)" % (
                      show(mv[-1]) if mv else "not moved", show(want)))
    es = [x for x in post if x[0] == "scanerr"]
    if failed and es:
        ctx.check("position-kept", key, where, same(s, pos, es[0][2]), "an error leaves the output position alone")
    elif placed and mv:
        ctx.check("position-kept", key, where, same(s, pos, mv[-1]) or act == "CompressAndFinish",
                  "the position at the end of the event is the one after its last token")
    if failed and (placed or looped):
        ctx.check("nothing-pending", key + "/error", where, has is False,
                  "a token that was stored is not pending any more (flag %s)" % has)
    if failed and not placed and not looped:
        ctx.check("pending-kept", key, where, has is bool(r.has_start), "the pending flag is unchanged")
    if act == "CompressAndFinish" and not failed and placed == [] and looped:
        lastp = [x[2] for x in scans][-1] if scans else None
        ctx.check("slot-advanced", key + "/end", where, lastp is not None and same(s, pos, lastp),
                  "the end token does not count as a token (%s)" % show(pos))
    if act == "CompressAndFinish" and not failed:
        ctx.check("nothing-pending", key + "/end", where, has is False, "nothing is pending at the end (flag %s)" % has)


def boundaries(ctx):
    """C06: where events end and which slot the first token takes."""
    OK = err(ctx, "Success")
    f = ctx.m.fn(LP + "::parse")
    where = ctx.where(f)
    for r in runs(ctx):
        sit = situation(r)
        for s, v in r.outs:
            pre, its, post = split_events(s)
            for it in its:
                sc = [x for x in it if x[0] == "scan"]
                if len(sc) != 1:
                    continue
                kind, nl = r.tokens[sc[0][1]]
                # the timestamp flag at that point is the one at exit (never changed inside the loop)
                ts = truth(s, r.I.read(s, r.ts, "bool"))
                key = "parse/%s/%s timestamp/%s%s/continue" % (sit, {True: "with", False: "no", None: "unknown"}[ts], kind,
                                                               "+nl" if nl else "")
                want = kind != "End" and (kind != "NewlineTimestamp" if ts else not nl)
                ctx.check("event-continues", key, where, want and ts is not None,
                          "a token that ends the event must not be absorbed into it")
            if not same(s, as_num(v), OK):
                continue
            act = r.action(s)
            ts = truth(s, r.I.read(s, r.ts, "bool"))
            dl = r.I.read(s, r.delims, "bool")
            scans = [x for x in post if x[0] == "scan"]
            inloop = bool(its) or r.resume or r.has_start or len([x for x in pre + post if x[0] == "scan"]) > 1
            allscans = [x for x in pre + post if x[0] == "scan"]
            last = allscans[-1][1] if allscans else None
            kind, nl = r.tokens[last] if last is not None else ("none", 0)
            key = "parse/%s/%s timestamp/%s%s/%s" % (sit, {True: "with", False: "no", None: "unknown"}[ts], kind,
                                                     "+nl" if nl else "", act)
            if kind == "End":
                ctx.check("event-ends", key, where, act == "CompressAndFinish", "the end of input finishes parsing")
                continue
            if inloop:
                want = kind == "NewlineTimestamp" if ts else bool(nl)
            else:
                want = kind == "NewlineTimestamp"
            ctx.check("event-ends", key, where, want and act == "Compress",
                      "an event ends only before a timestamp line (if it has a timestamp) or at a newline (if it has none)")
            if kind == "Newline" and not ts:
                ctx.check("newline-whole", key, where, truth(s, r.I.read(s, r.has, "bool")) is False,
                          "a plain newline belongs to the event it ends")
            # first token decides the timestamp flag
        if not r.resume:
            for s, v in r.outs:
                pre, its, post = split_events(s)
                evs = pre + post
                if r.has_start:
                    pk = [k for k in ("NewlineTimestamp", "Var")
                          if at(deref(atom(("tok", ("pending", k), "types"))), ("e", ZERO)) in s.store]
                    k0, fresh = pk[0], False
                else:
                    sc = [x for x in evs if x[0] == "scan"]
                    if not sc:
                        continue
                    k0, fresh = r.tokens[sc[0][1]][0], True
                ts = truth(s, r.I.read(s, r.ts, "bool"))
                want = k0 == "FirstTimestamp" or (k0 == "NewlineTimestamp" and not fresh)
                ctx.check("timestamp-flag", "parse/%s/first %s" % (sit, k0), where, ts is want,
                          "the event has a timestamp exactly when its first token is one (flag %s)" % ts)
                dl = r.I.read(s, r.delims, "bool")
                ctx.check("delimiter-flag", "parse/%s/first %s" % (sit, k0), where,
                          dl == r.I.read(State(), r.lexdelims, "bool"), "the event knows whether delimiters are in use")


def consumed(ctx):
    """C03: after an event, the consumed position covers the event and nothing after it."""
    OK = err(ctx, "Success")
    f = ctx.m.fn(LP + "::parse")
    n = 0
    for r in runs(ctx):
        for s, v in r.outs:
            pre, its, post = split_events(s)
            cons = [x for x in pre + post if x[0] == "cons"]
            act = r.action(s)
            for it in its:
                for x in it:
                    if x[0] == "cons":
                        ctx.check("consumed-late", "parse/%s/loop" % situation(r), ctx.where(f), False,
                                  "data of an unfinished event is declared consumed")
            scans = [x for x in pre + post if x[0] == "scan"]
            names = [r.tokens[x[1]][0] + ("+nl" if r.tokens[x[1]][1] else "") for x in scans]
            key = "parse/%s/%s/%s" % (situation(r), ",".join(names), act)
            if not same(s, as_num(v), OK):
                ctx.check("consumed-late", key + "/error", ctx.where(f), not cons,
                          "data of an unfinished event is declared consumed")
                continue
            if act != "Compress":
                continue
            n += 1
            c = as_num(r.I.read(s, r.cons, "unsigned int"))
            if truth(s, r.I.read(s, r.has, "bool")):
                pend = as_num(token_of(r.I, r.I.read(s, r.start))["m_start_pos"])
            else:
                pend = atom(("tok", scans[-1][1], "end")) if scans else None
            ok = pend is not None and (same(s, c, pend) or same(s, c, sub(pend, ONE)) or
                                       (same(s, pend, ZERO) and same(s, c, sub(r.S, ONE))))
            if ok and same(s, c, sub(pend, ONE)) and not same(s, pend, ZERO) and s.facts.lower(pend) < 1:
                ok = False
            ctx.check("consumed-exact", key, ctx.where(f), ok,
                      "the next event starts at %s and everything before it is released; consumed position is %s" % (
                          show(pend) if pend else "?", show(c)))
    ctx.need(n >= 4, "no completed event found in LogParser::parse")
