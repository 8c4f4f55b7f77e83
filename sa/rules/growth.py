"""C02: growing a buffer keeps all pending data and every saved position."""
from lib import *

LP = P + "LogParser"


def rule(ctx):
    input_growth(ctx)
    output_growth(ctx)


def input_growth(ctx):
    m = ctx.m
    f = m.fn(LP + "::increase_capacity")
    t = f["clst"]
    g = lambda d: loc_of(ctx, t, d)
    active, size_ = g("m_input_buffer.m_storage.m_active_storage"), g("m_input_buffer.m_storage.m_active_size")
    dyn = g("m_input_buffer.m_storage.m_dynamic_storages")
    pos, lastpos = g("m_input_buffer.m_storage.m_pos"), g("m_input_buffer.m_pos_last_read_char")
    half = g("m_input_buffer.m_last_read_first_half")
    cons = g("m_input_buffer.m_consumed_pos")
    fin = g("m_input_buffer.m_finished_reading_input")
    full = g("m_input_buffer.m_log_fully_consumed")
    poss = {"m_match_pos": g("m_lexer.m_match_pos"), "m_last_match_pos": g("m_lexer.m_last_match_pos"),
            "m_start_pos": g("m_lexer.m_start_pos")}
    h = sym("h")
    S = scale(h, 2)
    old = atom(("in", active))
    lexer_keep = ["m_match", "m_line", "m_match_line", "m_last_match_line", "m_asked_for_more_data", "m_prev_state",
                  "m_type_ids"]
    keep = [(n, g("m_lexer." + n)) for n in lexer_keep] + [("m_finished_reading_input", fin),
                                                            ("m_log_fully_consumed", full)]
    rs = m.fn(P + "ParserInputBuffer::read_is_safe")
    done_common = False
    for flipped in (0, 1):
        regions = [("0", 0), ("first half", 1), ("middle", 2), ("second half", 3)]
        for field, fl in poss.items():
            for rname, r in regions:
                st = State()
                st.facts.assume(sub(ONE, h), "<=")
                st.store[size_] = S
                st.store[half] = num(flipped)
                st.store[pos] = h if flipped else ZERO
                st.store[fin] = ZERO
                cv = atom(("in", cons))
                st.facts.assume(scale(cv, -1), "<=")
                st.facts.assume(sub(add(cv, ONE), S), "<=")
                p = atom(("in", fl))
                if r == 0:
                    st.store[fl] = ZERO
                    p = ZERO
                elif r == 2:
                    st.store[fl] = h
                    p = h
                elif r == 1:
                    st.facts.assume(sub(ONE, p), "<=")
                    st.facts.assume(sub(add(p, ONE), h), "<=")
                else:
                    st.facts.assume(sub(add(h, ONE), p), "<=")
                    st.facts.assume(sub(add(p, ONE), S), "<=")
                head = (r == 2) if flipped else (r == 0)
                if field == "m_start_pos" and head:
                    st.store[poss["m_last_match_pos"]] = h if flipped else ZERO
                elif field == "m_start_pos":
                    # a token starts at or after the end of the previous match, so that end is behind the head too
                    st.facts.assume(sub(atom(("in", poss["m_last_match_pos"])), h if flipped else ZERO), "!=")
                I = ctx.interp()
                record_copies(I)
                outs = ctx.run(I, f, st=st)
                ctx.need(outs, "increase_capacity has no normal exit")
                if head:
                    want, wtxt = S, "the end of the old content (next character to be read)"
                elif flipped:
                    want = sub(p, h) if r == 3 else add(p, h)
                    wtxt = "the place its character was moved to"
                else:
                    want, wtxt = p, "its old value"
                ok, det = True, "maps to %s" % wtxt
                for s, _ in outs:
                    v = I.read(s, fl, "unsigned int")
                    if not same(s, v, want):
                        ok = False
                        det = "with the last read in the %s half, a %s of %s (half size h, size 2h) becomes %s instead " \
                              "of %s" % ("first" if flipped else "second", field, show(p), show(v), show(want))
                ctx.check("position-map", "increase_capacity/%s/%s/%s" % (
                    field, "flipped" if flipped else "in order", rname), ctx.where(f), ok, det)
                if field != "m_match_pos" or r != 3:
                    continue
                for s, _ in outs:
                    content(ctx, f, I, s, flipped, old, h, S, active, size_, dyn)
                    for nm, l, w in (("read head", pos, S), ("end of valid data", lastpos, S),
                                     ("first half is the one last read", half, ONE)):
                        v = I.read(s, l, "unsigned int")
                        ctx.check("growth-state", "increase_capacity/%s/%d" % (nm, flipped), ctx.where(f),
                                  same(s, v, w), "%s is %s, expected %s" % (nm, show(v), show(w)))
                    for nm, l in keep:
                        v = I.read(s, l)
                        v0 = I.read(st, l)
                        ctx.check("state-kept", "increase_capacity/%s/%d" % (nm, flipped), ctx.where(f), v == v0 or
                                  same(s, v, v0), "%s is %s after growing" % (nm, show(v)))
                    # a refill of the new half is possible
                    s2 = s.copy()
                    I2 = ctx.interp()
                    rr = I2.run(rs, st=s2, this=("L", THIS, path(ctx, t, "m_input_buffer")))
                    ctx.check("refill-after-growth", "increase_capacity/%d" % flipped, ctx.where(f),
                              rr and all(truth(a, v) is True for a, v in rr),
                              "after growing, reading into the new half is permitted")


def content(ctx, f, I, s, flipped, old, h, S, active, size_, dyn):
    v = I.read(s, size_, "unsigned int")
    ctx.check("doubled", "increase_capacity/size/%d" % flipped, ctx.where(f), same(s, v, scale(S, 2)),
              "new size is %s for an old size of 2*h" % show(v))
    dv = I.read(s, dyn)
    while dv[0] == "upd":
        dv = dv[1]
    olddyn = ("o", "in", dyn)
    n = as_num(I.size(s, dv))
    kept, x = False, dv
    seen_new = None
    while x[0] == "o" and x[1] == "push":
        seen_new = x[3]
        x = x[2]
    kept = x == olddyn and seen_new is not None
    ctx.check("old-storage-kept", "increase_capacity/dynamic/%d" % flipped, ctx.where(f), kept,
              "the previous storages stay alive (tokens point into them): %s" % show(dv))
    new = as_num(I.read(s, active, "char *"))
    want_new = addr(at(dyn, ("e", sub(n, ONE)), ("e", ZERO)))
    cap = None
    if seen_new is not None:
        cap = I.size(s, seen_new)
    ctx.check("new-storage", "increase_capacity/active/%d" % flipped, ctx.where(f),
              same(s, new, want_new) and cap is not None and le(s, scale(S, 2), cap),
              "the active storage is the new vector's data (%s) of %s items" % (show(new), show(cap) if cap else "?"))
    pieces = copied(s)
    if flipped:
        ok = covers(s, pieces, add(old, h), h, new) and covers(s, pieces, old, h, add(new, h))
        d = "old second half to the front, old first half after it"
    else:
        ok = covers(s, pieces, old, S, new)
        d = "the whole old content to the front"
    ctx.check("content-in-order", "increase_capacity/copy/%d" % flipped, ctx.where(f), ok,
              d + "; copies found: " + "; ".join("[%s, +%s) -> %s" % (show(a), show(k), show(b)) for a, k, b in pieces))


def output_growth(ctx):
    m = ctx.m
    f = m.fn(P + "LogParserOutputBuffer::advance_to_next_token")
    t = f["clst"]
    g = lambda d: loc_of(ctx, t, d)
    active, size_, dyn, pos = (g("m_storage." + x) for x in ("m_active_storage", "m_active_size", "m_dynamic_storages",
                                                             "m_pos"))
    old, S, p = atom(("in", active)), atom(("in", size_)), atom(("in", pos))
    for full in (False, True):
        st = State()
        st.facts.assume(sub(ONE, S), "<=")
        if full:
            st.store[pos] = sub(S, ONE)
            p0 = sub(S, ONE)
        else:
            st.facts.assume(sub(add(p, num(2)), S), "<=")
            st.facts.assume(scale(p, -1), "<=")
            p0 = p
        I = ctx.interp()
        record_copies(I)
        outs = ctx.run(I, f, st=st)
        ctx.need(outs, "advance_to_next_token has no normal exit")
        for s, _ in outs:
            v = as_num(I.read(s, pos, "unsigned int"))
            ctx.check("advance", "advance_to_next_token/pos/%d" % full, ctx.where(f), same(s, v, add(p0, ONE)),
                      "the position becomes %s" % show(v))
            sz = as_num(I.read(s, size_, "unsigned int"))
            ctx.check("advance", "advance_to_next_token/room/%d" % full, ctx.where(f), le(s, add(v, ONE), sz),
                      "there is room for the next token (position %s, size %s)" % (show(v), show(sz)))
            new = as_num(I.read(s, active, "char *"))
            if same(s, new, old):
                ctx.check("advance", "advance_to_next_token/size/%d" % full, ctx.where(f), same(s, sz, S),
                          "size unchanged without a new storage")
                continue
            dv = I.read(s, dyn)
            while dv[0] == "upd":
                dv = dv[1]
            n = I.size(s, dv)
            x, nw = dv, None
            while x[0] == "o" and x[1] == "push":
                nw = nw or x[3]
                x = x[2]
            ctx.check("old-storage-kept", "advance_to_next_token/dynamic", ctx.where(f),
                      x == ("o", "in", dyn) and nw is not None, "previous token storages stay alive: %s" % show(dv))
            ctx.check("new-storage", "advance_to_next_token/active", ctx.where(f),
                      nw is not None and same(s, new, addr(at(dyn, ("e", sub(n, ONE)), ("e", ZERO)))) and
                      le(s, sz, I.size(s, nw)), "the active storage is the new vector of %s items, size %s" % (
                          show(I.size(s, nw)) if nw else "?", show(sz)))
            pieces = copied(s)
            ctx.check("content-in-order", "advance_to_next_token/copy", ctx.where(f),
                      covers(s, pieces, old, add(p0, ONE), new),
                      "every token stored so far is copied; copies found: " + "; ".join(
                          "[%s, +%s) -> %s" % (show(a), show(k), show(b)) for a, k, b in pieces))
