"""C04, C09, C10: what the parsers report to their caller."""
from lib import *

LP = P + "LogParser"
EV = P + "LogEventView"
OB = P + "LogParserOutputBuffer"


def void(I, st, e, cx, obj, args):
    return [(st, ("o", "void"))]


def actions(ctx):
    en = [q for q in ctx.m.enums if q.endswith("ParsingAction")]
    ctx.need(len(en) == 1, "enum ParsingAction not found")
    return {n: enum(ctx, en[0], n)[1] for n in ("None", "Compress", "CompressAndFinish")}


class Front:
    """parse_next_event of one of the parsers with reading and parsing left open.

    Each call of a read or a parse yields one of the results that matter: Success, end of file, out of buffered data, and
    any other error (a symbol)."""

    def __init__(self, ctx, cls, out=None):
        self.ctx = ctx
        self.f = f = ctx.m.fn(P + cls + "::parse_next_event")
        self.cls = f["clst"]
        self.codes = {n: err(ctx, n) for n in ("Success", "EndOfFile", "BufferOutOfBounds")}
        self.act = actions(ctx)
        self.done = loc_of(ctx, self.cls, "m_done")
        self.inpos = loc_of(ctx, self.cls, "m_log_parser.m_input_buffer.m_storage.m_pos")
        I = self.I = ctx.interp({LP + "::read_into_input": self.h_read, LP + "::increase_capacity": self.h_grow,
                                 LP + "::parse_and_generate_metadata": self.h_parse, EV + "::reset": self.h_view,
                                 LP + "::reset": self.h_reset})
        # states that saw different results stay apart
        I.join_key = lambda st: tuple(st.store.get(self.gl(n)) for n in ("bad", "ok", "oob", "fin", "lastparse", "fresh", "grown"))
        st = State()
        self.gset(st, bad=0, ok=0, oob=0, fin=0, lastparse=0, rres=0, pres=0, fresh=0, grown=0, any=0)
        self.out = out
        self.setup(st)
        self.st0 = st
        self.outs = ctx.run(I, f, st=st)
        ctx.need(self.outs, "%s::parse_next_event has no normal exit" % cls)

    def setup(self, st):
        pass

    def other(self, st, name):
        v = atom(st.fresh(name))
        for c in self.codes.values():
            st.facts.assume(sub(v, c), "!=")
        return v

    def h_view(self, I, st, e, cx, obj, args):
        st.emit("view")
        return [(st, ("o", "void"))]

    def h_reset(self, I, st, e, cx, obj, args):
        st.emit("reset")
        return [(st, ("o", "void"))]

    def h_grow(self, I, st, e, cx, obj, args):
        st.emit("grow", self.g(st, "oob"), self.g(st, "grown"))
        self.gset(st, grown=1)
        return [(st, ("o", "void"))]

    # what happened last, kept in the state so that loops carry it along
    def gl(self, n):
        return L(("obj", "ghost"), ("f", n))

    def g(self, s, n):
        v = as_num(self.I.read(s, self.gl(n), "int"))
        return v[1] if is_const(v) else None

    def gset(self, s, **kw):
        for n, v in kw.items():
            s.store[self.gl(n)] = num(v) if isinstance(v, int) else v

    def h_read(self, I, st, e, cx, obj, args):
        out = []
        src = args[0][1] if args and args[0][0] == "ref" else None
        for n in ("Success", "EndOfFile", "BufferOutOfBounds", "other"):
            s = st.copy()
            v = self.codes[n] if n in self.codes else self.other(s, "rerr")
            s.emit("read", src, self.g(s, "bad"), self.g(s, "oob"), self.g(s, "grown"))
            self.gset(s, bad=0 if n in ("Success", "EndOfFile") else 1, rres=v, lastparse=0, fresh=1)
            out.append((s, v))
        return out

    def h_parse(self, I, st, e, cx, obj, args):
        out = []
        for n in ("Success", "EndOfFile", "BufferOutOfBounds", "other"):
            for an in (("Compress", "CompressAndFinish") if n == "Success" else ("None",)):
                s = st.copy()
                v = self.codes[n] if n in self.codes else self.other(s, "perr")
                s.emit("parse", n, self.g(s, "bad"), self.snapshot(s), tuple(self.g(s, x) for x in (
                    "fresh", "any", "oob", "grown")))
                self.gset(s, ok=1 if n == "Success" else 0, oob=1 if n == "BufferOutOfBounds" else 0, pres=v, lastparse=1, fresh=0,
                          grown=0, any=1,
                          fin=1 if an == "CompressAndFinish" else 0)
                if n == "Success":
                    I.write(s, args[0][1], num(self.act[an]))
                I.write(s, self.inpos, atom(s.fresh("inpos")))
                self.parsed(s, n)
                out.append((s, v))
        return out

    def snapshot(self, s):
        return None

    def parsed(self, s, n):
        pass


def flat(evs):
    out = []
    for x in evs:
        if x[0] == "loop":
            for it in x[2]:
                out += flat(it)
        else:
            out.append(x)
    return out


def reader(ctx):
    """C04: errors of the reader reach the caller; nothing is parsed after one."""
    F = Front(ctx, "ReaderParser")
    f, where = F.f, ctx.where(F.f)
    rd = loc_of(ctx, F.cls, "m_reader")
    for s, v in F.outs:
        v = as_num(v)
        evs = flat(s.events)
        ctx.need(any(x[0] == "read" for x in evs), "parse_next_event does not read")
        for x in evs:
            if x[0] == "parse":
                ctx.check("stop-on-error", "parse after read", where, x[2] == 0,
                          "an event is parsed only if the last read did not fail")
            if x[0] == "read":
                ctx.check("stop-on-error", "read after read", where, x[2] == 0, "reading stops after a read that failed")
                ctx.check("own-reader", "reader", where, x[1] == rd, "the parser's own reader is asked")
        bad, last = F.g(s, "bad"), F.g(s, "lastparse")
        if bad != 0:
            ctx.check("error-reported", "read", where, bad == 1 and last == 0 and same(s, v, as_num(
                s.store[F.gl("rres")])), "the code of a failed read is returned at once, got %s" % show(v))
            continue
        ctx.check("parse-result", "parsed", where, last == 1, "after the last successful read an event is parsed")
        ctx.check("parse-result", "parse/%s" % ("event" if F.g(s, "ok") else "error"), where, F.g(s, "oob") == 0 and same(
            s, v, as_num(s.store[F.gl("pres")])), "the result of the parse is returned, got %s" % show(v))


def retry(ctx):
    """Part of C03: parsing that runs out of data is repeated after one growth and a read, in this order."""
    F = Front(ctx, "ReaderParser")
    where = ctx.where(F.f)
    for s, v in F.outs:
        for x in flat(s.events):
            if x[0] == "parse":
                fresh, any_, oob, grown = x[4]
                ctx.check("read-before-parse", "parse_next_event", where, fresh == 1, "input is read before (re)parsing")
                ctx.check("grow-and-read", "parse_next_event/parse", where, any_ == 0 or (oob == 1 and grown == 1),
                          "an event is parsed again only after running out of data and growing")
            if x[0] == "read":
                ctx.check("grow-and-read", "parse_next_event/read", where, x[3] == 0 or (x[3] == 1 and x[4] == 1),
                          "after running out of data the buffer grows before the next read")
            if x[0] == "grow":
                ctx.check("grow-and-read", "parse_next_event/grow", where, x[1] == 1 and x[2] == 0,
                          "the buffer grows once, and only after running out of data")
        ctx.check("retry", "parse_next_event/exit", where, F.g(s, "oob") == 0 or F.g(s, "bad") == 1,
                  "running out of buffered data is never the final outcome")


def rule04(ctx):
    reader(ctx)
    import rules.refill as refill
    sub_ = [o for o in run_part(ctx, refill.reads) if o[0] in ("read-result", "finished-flag", "state-kept")]
    ctx.obligations += sub_
    import rules.events as events
    ctx.obligations += [o for o in run_part(ctx, events.conservation) if o[0] == "error-kept"]
    import rules.scanner as scanner
    ctx.obligations += [o for o in run_part(ctx, lambda c: scanner.table(scanner.Only(c, False))) if o[0] == "out-of-data"]
    discards(ctx)


def run_part(ctx, fn):
    keep = ctx.obligations
    ctx.obligations = []
    try:
        fn(ctx)
        return ctx.obligations
    finally:
        ctx.obligations = keep


def discards(ctx):
    """No call on the way from parse_next_event to the reader drops an error code it gets."""
    roots = [ctx.m.fn(P + c + "::parse_next_event")["id"] for c in ("ReaderParser", "BufferParser")]
    seen = ctx.cg.reach(roots)
    n = 0
    for u in sorted(seen):
        f = ctx.m.functions.get(u)
        if not f or not f["q"].startswith(P):
            continue
        for call in discarded(f.get("body")):
            if call.get("t", "").endswith("ErrorCode") and call["k"] == "call":
                n += 1
                ctx.check("error-used", "%s/%s" % (f["q"], call.get("q")), ctx.where(f, call["l"]), False,
                          "the error code returned by %s is dropped" % call.get("q"))
        for call in calls_in(f.get("body")):
            if call.get("t", "").endswith("ErrorCode"):
                ctx.check("error-code-call", "%s/%s" % (f["q"], call.get("q") or "call"), ctx.where(f, call["l"]), True, "")


def discarded(x):
    if isinstance(x, dict):
        if x.get("k") == "expr":
            e = x["e"]
            while isinstance(e, dict) and e.get("k") in ("cast", "paren"):
                e = e.get("e") or {}
            if isinstance(e, dict) and e.get("k") == "call":
                yield e
        for v in x.values():
            yield from discarded(v)
    elif isinstance(x, list):
        for v in x:
            yield from discarded(v)


def calls_in(x):
    if isinstance(x, dict):
        if x.get("k") == "call":
            yield x
        for v in x.values():
            yield from calls_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from calls_in(v)


def done_reader(ctx):
    """C09: the parser is done exactly when the final event was handed out."""
    F = Front(ctx, "ReaderParser")
    done_check(ctx, F, "ReaderParser")


def done_check(ctx, F, name):
    where = ctx.where(F.f)
    d0 = as_num(F.I.read(State(), F.done, "bool"))
    for s, v in F.outs:
        d = as_num(F.I.read(s, F.done, "bool"))
        ok = F.g(s, "ok")
        if F.g(s, "bad") == 0 and F.g(s, "lastparse") == 1 and ok == 1:
            if F.g(s, "fin") == 1:
                ctx.check("done-at-end", name + "/final event", where, same(s, d, ONE), "done() becomes true: %s" % show(d))
            else:
                ctx.check("done-at-end", name + "/other event", where, F.g(s, "fin") == 0 and (same(s, d, d0) or same(
                    s, d, ZERO)), "done() stays false while events remain: %s" % show(d))
        else:
            ctx.check("done-at-end", name + "/error", where, same(s, d, d0) or same(s, d, ZERO),
                      "an error does not make the parser done: %s" % show(d))


def done_getter(ctx):
    for c in ("ReaderParser", "BufferParser"):
        f = ctx.m.fn(P + c + "::done")
        I = ctx.interp()
        for s, v in ctx.run(I, f):
            d = as_num(I.read(State(), loc_of(ctx, f["clst"], "m_done"), "bool"))
            ctx.check("done-read", c, ctx.where(f), same(s, as_num(v), d), "done() is %s" % show(v))


def rule09(ctx):
    done_reader(ctx)
    for out in ("empty", "timestamp", "none"):
        done_check(ctx, BufferFront(ctx, "BufferParser", out), "BufferParser")
    done_getter(ctx)
    import rules.events as events
    ctx.obligations += [o for o in run_part(ctx, events.conservation) + run_part(ctx, events.boundaries) if o[0] in (
        "finish-at-end-only", "event-ends", "event-continues", "event-has-token")]


class BufferFront(Front):
    def setup(self, st):
        ctx, I = self.ctx, self.I
        n = len(self.f["params"])
        ctx.need(n == 4, "BufferParser::parse_next_event changed its interface")
        self.buf, self.size, self.fin = [atom(("in", L(("obj", "arg%d" % i)))) for i in (0, 1, 3)]
        self.off = L(("obj", "arg2"))
        self.off0 = as_num(I.read(st, self.off, "unsigned long"))
        st.facts._bound(self.off0, 0, None)
        st.facts._bound(self.size, 0, 2 ** 31 - 1)
        st.facts.assume(sub(self.off0, self.size), "<=")
        ev = as_num(I.read(st, loc_of(ctx, self.cls, "m_log_parser.m_log_event_view"), "std::unique_ptr<>"))
        mark_ptr(ev[2][0][0])
        st.facts._bound(ev, 1, None)
        ob = as_num(I.read(st, at(deref(ev), *path(ctx, EV, "m_log_output_buffer")), "std::unique_ptr<>"))
        mark_ptr(ob[2][0][0])
        st.facts._bound(ob, 1, None)
        self.o = lambda d: at(deref(ob), *path(ctx, OB, d))
        self.b = lambda d: loc_of(ctx, self.cls, "m_log_parser.m_input_buffer." + d)

    def snapshot(self, s):
        I = self.I
        r = lambda d, t: as_num(I.read(s, self.b(d), t))
        return tuple(("n",) + x[1:] for x in (
            r("m_storage.m_active_storage", "char *"), r("m_storage.m_active_size", "unsigned int"),
            r("m_storage.m_pos", "unsigned int"), r("m_finished_reading_input", "bool"),
            r("m_pos_last_read_char", "unsigned int"), r("m_last_read_first_half", "bool"),
            r("m_log_fully_consumed", "bool")))

    def parsed(self, s, n):
        if self.out == "empty":
            s.store[self.o("m_storage.m_pos")] = ZERO
        else:
            p = atom(s.fresh("outpos"))
            s.facts._bound(p, 1, None)
            s.store[self.o("m_storage.m_pos")] = p
        s.store[self.o("m_has_timestamp")] = num(1 if self.out == "timestamp" else 0)
        # the parse may have moved the tokens
        ts = as_num(self.I.read(s, self.o("m_storage.m_active_storage"), "T *"))
        mark_ptr(ts[2][0][0])
        self.tok = deref(add(ts, num(0 if self.out == "timestamp" else 1)))
        self.start = as_num(self.I.read(s, at(self.tok, *path(self.ctx, P + "Token", "m_start_pos")), "unsigned int"))

    def h_reset(self, I, st, e, cx, obj, args):
        st.emit("reset")
        # what a reset parser's event view holds is nobody's business any more
        return [(st, ("o", "void"))]


def rule10(ctx):
    for out in ("empty", "timestamp", "none"):
        F = BufferFront(ctx, "BufferParser", out)
        I, where = F.I, ctx.where(F.f)
        for s, v in F.outs:
            v = as_num(v)
            ev = [x for x in s.events if x[0] != "view"]
            kinds = [x[0] for x in ev]
            off = as_num(I.read(s, F.off, "unsigned long"))
            ctx.check("one-parse", "parse", where, kinds.count("parse") == 1, "one event is parsed per call: %s" % kinds)
            if kinds.count("parse") != 1:
                continue
            p = ([x for x in ev if x[0] == "parse"][0][1], as_num(s.store[F.gl("pres")]))
            snap = [x for x in ev if x[0] == "parse"][0][3]
            want = (("buffer", F.buf), ("bounds", scale(F.size, 2)), ("start", F.off0), ("finished", F.fin),
                    ("end of data", F.size), ("half", ONE), ("consumed", ZERO))
            for (n, w), g in zip(want, snap):
                ctx.check("input-set", "input/" + n, where, same(s, g, w), "the input's %s is %s, expected %s" % (
                    n, show(g), show(w)))
            key = "%s/%s" % (p[0], out)
            ctx.check("result", key, where, same(s, v, p[1]), "the result of the parse is returned, got %s" % show(v))
            if p[0] == "Success":
                ipos = as_num(I.read(s, F.inpos, "unsigned int"))
                ctx.check("offset", key, where, same(s, off, ipos), "the offset moves behind the event: %s" % show(off))
                ctx.check("reset-on-error", key, where, "reset" not in kinds, "the parser keeps its state after an event")
                continue
            w = F.off0 if out == "empty" else F.start
            ctx.check("offset", key, where, same(s, off, w),
                      "the offset of the unfinished event is %s, expected %s" % (show(off), show(w)))
            ctx.check("reset-on-error", key, where, kinds[-1:] == ["reset"],
                      "the parser is reset so that the event is parsed again from its start: %s" % kinds)
    window(ctx)


def window(ctx):
    """Characters of a caller's buffer are taken one by one up to its end, never beyond."""
    f = ctx.m.fn(P + "ParserInputBuffer::get_next_character")
    g = lambda d: loc_of(ctx, f["clst"], d)
    size = sym("size")
    pos0 = sym("pos")
    for fin in (0, 1):
        for atend in (0, 1):
            st = State()
            st.facts._bound(size, 1, None)
            st.facts._bound(pos0, 0, None)
            st.facts.assume(add(pos0, ONE) if False else sub(add(pos0, num(0 if atend else 1)), size), "==" if atend else "<=")
            st.store[g("m_storage.m_active_size")] = scale(size, 2)
            st.store[g("m_storage.m_pos")] = pos0
            st.store[g("m_pos_last_read_char")] = size
            st.store[g("m_finished_reading_input")] = num(fin)
            st.store[g("m_last_read_first_half")] = ONE
            st.store[g("m_log_fully_consumed")] = ZERO
            I = ctx.interp()
            for s, v in ctx.run(I, f, st=st):
                p = as_num(I.read(s, g("m_storage.m_pos"), "unsigned int"))
                full = as_num(I.read(s, g("m_log_fully_consumed"), "bool"))
                c = I.read(s, L(("obj", "arg0")), "unsigned char")
                key = "next character/%s/%s" % ("finished" if fin else "more", "at the end" if atend else "inside")
                if not atend:
                    src = source_addr(c)
                    base = atom(("in", g("m_storage.m_active_storage")))
                    ok = same(s, as_num(v), err(ctx, "Success")) and same(s, p, add(pos0, ONE)) and same(s, full, ZERO) and \
                        src is not None and same(s, src, add(base, pos0))
                elif fin:
                    ok = same(s, as_num(v), err(ctx, "Success")) and same(s, p, pos0) and same(s, full, ONE)
                else:
                    ok = same(s, as_num(v), err(ctx, "BufferOutOfBounds")) and same(s, p, pos0) and same(s, full, ZERO)
                ctx.check("window", key, ctx.where(f), ok, "result %s, position %s, fully consumed %s" % (
                    show(v), show(p), show(full)))
