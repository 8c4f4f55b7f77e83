"""C03: input bytes are neither overwritten before they are consumed, nor lost, nor read twice."""
from lib import *

LP = P + "LogParser"
FN = "std::function::operator()"


def rule(ctx):
    reads(ctx)
    next_char(ctx)
    import rules.front as front
    front.retry(ctx)
    import rules.events as events
    events.consumed(ctx)


def reads(ctx):
    m = ctx.m
    f = m.fn(LP + "::read_into_input")
    t = f["clst"]
    g = lambda d: loc_of(ctx, t, "m_input_buffer." + d)
    active, size_ = g("m_storage.m_active_storage"), g("m_storage.m_active_size")
    lastpos, half, cons, fin = g("m_pos_last_read_char"), g("m_last_read_first_half"), g("m_consumed_pos"), g(
        "m_finished_reading_input")
    pos, full = g("m_storage.m_pos"), g("m_log_fully_consumed")
    h = sym("h")
    S = scale(h, 2)
    buf = atom(("in", active))
    EOF_, OK = err(ctx, "EndOfFile"), err(ctx, "Success")
    c = atom(("in", cons))
    regions = {"0": lambda st: st.store.__setitem__(cons, ZERO),
               "first half": lambda st: (st.facts.assume(sub(ONE, c), "<="), st.facts.assume(sub(add(c, ONE), h), "<=")),
               "h": lambda st: st.store.__setitem__(cons, h),
               "second half": lambda st: (st.facts.assume(sub(add(h, ONE), c), "<="),
                                          st.facts.assume(sub(add(c, num(2)), S), "<=")),
               "2h-1": lambda st: st.store.__setitem__(cons, sub(S, ONE))}
    # (last read half, consumed region) -> must the read happen?  None: either is sound
    table = {(0, "0"): False, (0, "first half"): False, (0, "h"): None, (0, "second half"): True, (0, "2h-1"): True,
             (1, "0"): True, (1, "first half"): True, (1, "h"): False, (1, "second half"): False, (1, "2h-1"): None}
    e0 = L(("obj", "e0"))
    for finished in (0, 1):
        for (last, reg), must in table.items():
            st = State()
            st.facts.assume(sub(num(2), h), "<=")
            st.store[size_], st.store[fin], st.store[half] = S, num(finished), num(last)
            regions[reg](st)
            lp = atom(("in", lastpos))
            st.facts.assume(scale(lp, -1), "<=")
            st.facts.assume(sub(lp, S), "<=")

            def hread(I, st, e, cx, obj, args):
                k = atom(st.fresh("k"))
                n = as_num(I.val(st, args[1]))
                st.facts.assume(scale(k, -1), "<=")
                st.facts.assume(sub(k, n), "<=")
                st.emit("rd", as_num(I.val(st, args[0])), n, k)
                out = []
                for name in ("Success", "EndOfFile", "Errno"):
                    s = st.copy()
                    if name == "Success":
                        s.facts.assume(sub(ONE, k), "<=")
                    I.write(s, args[2][1], k)
                    s.ghost["err"] = name
                    out.append((s, err(ctx, name)))
                return out
            I = ctx.interp({FN: hread})
            outs = ctx.run(I, f, st=st)
            ctx.need(outs, "read_into_input has no normal exit")
            key = "read_into_input/%s/%s half last read/consumed %s" % (
                "finished" if finished else "more input", "first" if last else "second", reg)
            for s, v in outs:
                rd = [x for x in s.events if x[0] == "rd"]
                want = False if finished else must
                if any(x[0] == "loop" for x in s.events):
                    ctx.check("one-read", key, ctx.where(f), False, "a single call reads repeatedly")
                if want is False:
                    ctx.check("read-only-when-consumed", key, ctx.where(f), not rd,
                              "no read may happen: unconsumed data would be overwritten or the input has ended")
                elif want:
                    ctx.check("refill-possible", key, ctx.where(f), len(rd) == 1,
                              "the free half must be refilled (%d reads)" % len(rd))
                if not rd:
                    ctx.check("read-result", key + "/no read", ctx.where(f), same(s, as_num(v), OK),
                              "an unsafe read reports Success")
                    for nm, l in (("end of data", lastpos), ("last read half", half), ("finished", fin)):
                        ctx.check("state-kept", key + "/" + nm, ctx.where(f),
                                  same(s, I.read(s, l, "int"), I.read(st, l, "int")), "unchanged without a read")
                    continue
                _, dst, n, k = rd[0]
                off = h if last else ZERO
                ctx.check("read-target", key, ctx.where(f), same(s, dst, add(buf, off)) and same(s, n, h),
                          "reads %s bytes to %s, expected h bytes to the free half (offset %s)" % (
                              show(n), show(dst), show(off)))
                name = s.ghost.get("err")
                ctx.check("read-result", key + "/" + name, ctx.where(f), same(s, as_num(v), err(ctx, name)),
                          "the reader's result %s is returned (got %s)" % (name, show(v)))
                fv, hv, lv = I.read(s, fin, "bool"), I.read(s, half, "bool"), as_num(I.read(s, lastpos, "unsigned int"))
                if name == "Success":
                    part = truth(s, sub(h, k))
                    wf = ONE if le(s, add(k, ONE), h) else ZERO if same(s, k, h) else None
                    if wf is None:
                        # undetermined: the flag must itself not be determined (cannot be right for both)
                        ctx.check("finished-flag", key, ctx.where(f), False,
                                  "end of input does not depend on whether the half was filled")
                    else:
                        ctx.check("finished-flag", key + "/%s" % show(wf), ctx.where(f), same(s, fv, wf),
                                  "a read of %s marks the input finished: %s" % (
                                      "less than half" if wf == ONE else "a full half", show(fv)))
                    ctx.check("last-read-half", key, ctx.where(f), same(s, hv, num(1 - last)),
                              "the half last read toggles (%s)" % show(hv))
                    w1, w2 = add(lp, k), sub(add(lp, k), S)
                    ctx.check("end-of-data", key, ctx.where(f),
                              (same(s, lv, w1) and le(s, lv, S)) or (same(s, lv, w2) and s.facts.lower(lv) >= 0),
                              "end of valid data moves from %s by the %s bytes read, wrapping at 2h: %s" % (
                                  show(lp), show(k), show(lv)))
                else:
                    ctx.check("finished-flag", key + "/" + name, ctx.where(f),
                              same(s, fv, ONE if name == "EndOfFile" else ZERO),
                              "after %s the input-finished flag is %s" % (name, show(fv)))
                    ctx.check("state-kept", key + "/" + name, ctx.where(f),
                              same(s, lv, lp) and same(s, hv, num(last)), "a failed read moves nothing")
                ctx.check("state-kept", key + "/position", ctx.where(f),
                          I.read(s, pos, "int") == I.read(st, pos, "int"), "reading does not move the scan position")


def next_char(ctx):
    m = ctx.m
    f = m.fn(P + "ParserInputBuffer::get_next_character")
    t = f["clst"]
    g = lambda d: loc_of(ctx, t, d)
    active, size_, pos = g("m_storage.m_active_storage"), g("m_storage.m_active_size"), g("m_storage.m_pos")
    lastpos, half, fin, full = g("m_pos_last_read_char"), g("m_last_read_first_half"), g(
        "m_finished_reading_input"), g("m_log_fully_consumed")
    h = sym("h")
    S = scale(h, 2)
    p = atom(("in", pos))
    OK, OOB = err(ctx, "Success"), err(ctx, "BufferOutOfBounds")
    eof = ctx.m.globals.get(P + "utf8::cCharEOF")
    regions = {"0": (ZERO, None), "first half": (p, (ONE, sub(h, ONE))), "h": (h, None),
               "second half": (p, (add(h, ONE), sub(S, num(2)))), "2h-1": (sub(S, ONE), None)}
    out = ("ref", L(("obj", "arg0")))
    for last in (0, 1):
        for finished in (0, 1):
            for atend in (0, 1):
                for reg, (pv, rng) in regions.items():
                    st = State()
                    st.facts.assume(sub(num(2), h), "<=")
                    st.store[size_], st.store[fin], st.store[half] = S, num(finished), num(last)
                    st.store[full] = ZERO
                    st.store[pos] = pv
                    if rng:
                        if not (st.facts.assume(sub(rng[0], p), "<=") and st.facts.assume(sub(p, rng[1]), "<=")):
                            continue
                    if atend:
                        st.store[lastpos] = pv
                    else:
                        st.facts.assume(sub(atom(("in", lastpos)), pv), "!=")
                    I = ctx.interp()
                    outs = ctx.run(I, f, st=st)
                    key = "get_next_character/%s/%s/%s half last read/pos %s" % (
                        "finished" if finished else "more input", "end of data" if atend else "data left",
                        "first" if last else "second", reg)
                    ctx.need(outs, "get_next_character has no normal exit")
                    head = reg == ("h" if last else "0")
                    for s, v in outs:
                        np = as_num(I.read(s, pos, "unsigned int"))
                        nf = I.read(s, full, "bool")
                        v = as_num(v)
                        if finished and atend:
                            ctx.check("next-character", key, ctx.where(f),
                                      same(s, v, OK) and same(s, nf, ONE) and same(s, np, pv),
                                      "end of input: reported (flag %s), nothing consumed (position %s)" % (show(nf), show(np)))
                        elif head:
                            ctx.check("next-character", key, ctx.where(f),
                                      same(s, v, OOB) and same(s, np, pv) and same(s, nf, ZERO),
                                      "no data there yet: BufferOutOfBounds with the position kept (%s)" % show(np))
                        else:
                            c = I.read(s, L(("obj", "arg0")), "unsigned char")
                            src = source_addr(c)
                            want = add(atom(("in", active)), pv)
                            np_want = ZERO if reg == "2h-1" else add(pv, ONE)
                            ctx.check("next-character", key, ctx.where(f),
                                      same(s, v, OK) and same(s, np, np_want) and same(s, nf, ZERO) and
                                      src is not None and same(s, src, want),
                                      "returns the byte at the position (from %s) and advances with wrap to %s" % (
                                          show(src) if src else show(c), show(np)))
