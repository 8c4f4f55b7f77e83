"""C01: reset leaves no trace of the previous input."""
from checks import *
from writes import writes_of, repo_class_assignments

EXEMPT = {
    P + "Buffer::m_static_storage": "item contents below the read position are only read after being written",
    P + "LogParser::m_start_of_log_message": "only read when m_has_start_of_log is set (checked below)",
}


def base_name(fq):
    # Buffer<char>::m_pos -> Buffer::m_pos
    out, d = "", 0
    for ch in fq:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out


def mutable_fields(ctx, roots):
    reach = ctx.cg.reach([f["id"] for f in roots])
    w = {}
    for fid in reach:
        f = ctx.m.functions[fid]
        ctx.note_fn(f)
        for t, l in writes_of(f, ctx.m.functions) + repo_class_assignments(f):
            w.setdefault(t, "%s (%s)" % (f["q"], ctx.where(f, l)))
    return w


def nested(ctx, cls, clst, prefix=()):
    """(selector path, field record) of every scalar/std field of a class, through by-value members."""
    r = ctx.m.rec_by_t.get(clst) or ctx.m.records.get(cls)
    out = []
    for b in [x for x in ctx.m.all_bases(cls)]:
        if b in ctx.m.records:
            rb = [x for x in ctx.m.rec_by_t.values() if x["q"] == b]
            for fl in (rb[0]["fields"] if rb else []):
                out += field_paths(ctx, fl, prefix)
    for fl in r["fields"]:
        out += field_paths(ctx, fl, prefix)
    return out


def field_paths(ctx, fl, prefix):
    p = prefix + (("f", fl["q"]),)
    t = fl["t"].strip()
    if t in ctx.m.rec_by_t:
        return [(p, fl)] + nested(ctx, fl["rec"], t, p)
    return [(p, fl)]


def fresh_state(ctx, I, clst):
    """State of a default-initialised object at ('obj','this')."""
    st = State()
    loc = L(("obj", "this"))
    r = ctx.m.rec_by_t[clst]
    st.store[loc] = ("o", "undef")
    sts = init_fields(I, ctx, st, loc, r["q"], clst)
    return sts, loc


def init_fields(I, ctx, st, loc, cls, clst):
    cx = Cx({"id": "<root>", "q": "<root>", "file": "", "ret": ""}, loc)
    sts = [st]
    recs = [x for b in ctx.m.all_bases(cls) for x in ctx.m.rec_by_t.values() if x["q"] == b][:1]
    for r in recs + [ctx.m.rec_by_t[clst]]:
        for fl in r["fields"]:
            floc = at(loc, ("f", fl["q"]))
            if fl["t"].strip() in ctx.m.rec_by_t:
                for s in sts:
                    s.store[floc] = ("o", "undef")
                nxt = []
                for s in sts:
                    nxt += init_fields(I, ctx, s, floc, fl["rec"], fl["t"].strip())
                sts = nxt
            elif fl.get("init") is not None:
                sts = [s2 for s in sts for s2 in I.construct(s, floc, fl["init"], cx)]
            elif fl["t"].startswith(("std::vector", "std::set", "std::map", "std::unordered", "std::deque", "std::stack")):
                for s in sts:
                    s.store[floc] = ("o", "vec", ())
            elif fl["t"].startswith("std::optional"):
                for s in sts:
                    s.store[floc] = ("o", "none")
            elif fl["t"].startswith("std::unique_ptr"):
                for s in sts:
                    s.store[floc] = ZERO
    return sts


def clears_all(ctx, f, loc, hooks=()):
    """Every element of the container of containers at loc is empty after f, and their number is the same."""
    for n in (0, 1, 3, 20):
        I = ctx.interp(dict(hooks), pure={P + "RegexDFAState::next"})
        I.unroll = n + 2
        st = State()
        st.store[loc] = ("o", "vec", tuple(("o", "some", i) for i in range(n)))
        for s, _ in ctx.run(I, f, st=st):
            if not s.facts.is_zero(sub(I.size(s, I.read(s, loc, "std::vector<>")), num(n))):
                return False
            for i in range(n):
                v = I.read(s, at(loc, ("e", num(i))), "std::vector<>")
                if not s.facts.is_zero(I.size(s, v)):
                    return False
    return True


def depends(v, muts):
    """Name of a field mutable while parsing whose entry value occurs in v."""
    if v is None:
        return "an unknown value"
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "L" and isinstance(v[2], tuple):
            for s in v[2]:
                if s[0] == "f" and base_name(s[1]) in muts:
                    return "the previous value of " + base_name(s[1]).replace(P, "")
        if v and v[0] == "addr":
            return None
        for x in v:
            d = depends(x, muts) if isinstance(x, tuple) else None
            if d:
                return d
    return None


def rule(ctx):
    m = ctx.m
    parse_roots = [m.fn(P + "ReaderParser::parse_next_event"), m.fn(P + "BufferParser::parse_next_event")]
    mut = mutable_fields(ctx, parse_roots)
    schema_roots = m.fns(P + "LALR1Parser::parse")
    ctx.need(schema_roots, "LALR1Parser::parse not found")
    mut2 = mutable_fields(ctx, schema_roots)
    lexers = m.fns(P + "Lexer::scan_with_wildcard")
    for k, v in mutable_fields(ctx, lexers).items():
        mut.setdefault(k, v)

    targets = []
    for f in m.fns(P + "Buffer::reset"):
        targets.append((f, mut, True))
    for q in ("ParserInputBuffer::reset", "LogParserOutputBuffer::reset", "Lexer::reset"):
        fs = [f for f in m.fns(P + q) if "UTF8" not in f.get("clst", "")]
        ctx.need(fs, q + " not found")
        targets += [(f, mut, True) for f in fs]
    targets.append((m.fn(P + "LogEventView::reset"), mut, True))
    targets.append((m.fn(P + "LogParser::reset"), mut, False))
    targets.append((m.fn(P + "BufferParser::reset"), mut, False))
    targets.append((m.fn(P + "ReaderParser::reset_and_set_reader"), mut, False))
    for f in m.fns(P + "LALR1Parser::reset"):
        targets.append((f, mut2, True))

    nfields = 0
    for f, mset, vs_fresh in targets:
        clst = f["clst"]
        r = m.rec_by_t.get(clst)
        ctx.need(r is not None, "class record %s missing" % clst)
        h = {}
        # helper behind a pointer: LogEventView::m_log_output_buffer is its own target
        I1 = ctx.interp(h, pure={P + "RegexDFAState::next"})
        ra = ctx.run(I1, f)
        I2 = ctx.interp(h)
        fresh, loc = fresh_state(ctx, I2, clst)
        rb = []
        init_vals = {}
        paths = nested(ctx, r["q"], clst)
        for s in fresh:
            for sel, fl in paths:
                init_vals.setdefault(sel, set()).add(I2.read(s, ("L", loc[1], sel), fl["t"]))
            rb += I2.run(f, st=s, this=loc)
        ctx.need(ra and rb, "%s has no normal exit" % f["q"])
        mut_names = {base_name(x) for x in mset}
        for sel, fl in paths:
            bn = base_name(fl["q"])
            if fl["q"] not in mset and bn not in {base_name(x) for x in mset}:
                continue
            if any(base_name(x[1]) in EXEMPT for x in sel if x[0] == "f"):
                continue
            if fl.get("const") or fl["t"].rstrip().endswith("&"):
                continue
            if fl["t"].strip() in m.rec_by_t:
                continue
            if fl["t"].startswith("std::unique_ptr"):
                # owned helper object: its own reset is a separate obligation; the pointer is never
                # reseated by parsing
                continue
            if bn.startswith(P + "Reader"):
                continue
            nfields += 1
            key = "%s/%s" % (base_name(f["q"]).replace(P, "") + ("<Token>" if "Token" in clst else ""),
                             ".".join(x[1].rsplit("::", 1)[-1] for x in sel))
            src = mset.get(fl["q"]) or next(v for k, v in mset.items() if base_name(k) == bn)
            l0 = ("L", ("obj", "this"), sel)
            ok, detail = True, "written while parsing by %s; restored" % src
            vals = []
            for a, _ in ra:
                v1 = I1.read(a, l0, fl["t"])
                if v1[0] == "n" and v1[2]:
                    lo, hi = a.facts.lower(v1), a.facts.upper(v1)
                    if lo == hi:
                        v1 = num(lo)
                if v1[0] == "o" and fl["t"].startswith("std::") and a.facts.is_zero(I1.size(a, v1)):
                    v1 = ("o", "vec", ())
                dep = depends(v1, mut_names)
                if dep and fl["t"].startswith("std::vector<std::vector"):
                    if clears_all(ctx, f, l0, h):
                        continue
                vals.append(v1)
                if dep:
                    ok = False
                    detail = "written while parsing by %s, but after %s it is still %s, which depends on %s" % (
                        src, f["q"], show(v1), dep)
                    break
            if ok and len(set(vals)) > 1:
                ok = False
                detail = "after %s it is one of %s" % (f["q"], " or ".join(sorted(show(x) for x in set(vals))))
            ctx.check("independent-of-history", key, ctx.where(f), ok, detail)
            if vs_fresh and ok:
                good = True
                det = "reset value equals the construction-time value"
                if not fl["t"].startswith("std::vector<std::vector"):
                    for a, _ in ra:
                        v1 = I1.read(a, l0, fl["t"])
                        iv = init_vals.get(sel, set())
                        g = False
                        for v in iv:
                            if v == v1 or contains(v, lambda t: t == ("o", "undef")):
                                g = True
                            elif v[0] == "o" and v1[0] == "o" and a.facts.is_zero(I1.size(a, v1)):
                                g = I2.size(State(), v) == ZERO
                            elif v[0] == "n" and v1[0] == "n" and sub(v, v1) == ZERO:
                                g = True
                        if not g:
                            good = False
                            det = "reset sets it to %s, construction to %s" % (
                                show(v1), " or ".join(show(x) for x in iv))
                ctx.check("equals-fresh-object", key, ctx.where(f), good, det)
    ctx.need(nfields >= 25, "only %d resettable fields found" % nfields)
    owned(ctx)
    built_like_reset(ctx, mut)


def owned(ctx):
    """Owned helpers are reset too: event view before each event; lexer/input buffer by LogParser::reset."""
    m = ctx.m
    for q in ("ReaderParser::parse_next_event", "BufferParser::parse_next_event"):
        f = m.fn(P + q)
        log = []

        def h(I, st, e, cx, obj, args):
            st.ghost["view-reset"] = True
            return [(st, ("o", "void"))]

        def hp(I, st, e, cx, obj, args):
            log.append(st.ghost.get("view-reset", False))
            return [(st, atom(("val", ("o", "parse", st.fresh()))))]
        I = ctx.interp({P + "LogEventView::reset": h, P + "LogParser::parse_and_generate_metadata": hp,
                        P + "LogParser::parse": hp})
        ctx.run(I, f)
        ctx.need(log, q + " never parses")
        ctx.check("view-reset-before-parse", q, ctx.where(f), all(log),
                  "the event view is reset before the next event is parsed into it")
    f = m.fn(P + "LogEventView::reset")
    seen = []

    def hb(I, st, e, cx, obj, args):
        st.emit("ob-reset", obj)
        return [(st, ("o", "void"))]
    I = ctx.interp({P + "LogParserOutputBuffer::reset": hb})
    for s, _ in ctx.run(I, f):
        want = deref(atom(("in", L(("obj", "this"), ("f", P + "LogEventView::m_log_output_buffer")))))
        repl = I.read(s, L(("obj", "this"), ("f", P + "LogEventView::m_log_output_buffer")), "std::unique_ptr<>")
        okk = any(x[0] == "ob-reset" and x[1] == want for x in s.events) or (
            deref(repl)[1][0] == "h")
        seen.append(okk)
    ctx.check("output-buffer-reset", "LogEventView::reset", ctx.where(f), all(seen) and seen,
              "resetting the event view resets (or replaces) its token buffer")
    # the pending-event token is guarded by its flag
    f = m.fn(P + "LogParser::parse")
    flag = L(("obj", "this"), ("f", P + "LogParser::m_has_start_of_log"))
    tok = P + "LogParser::m_start_of_log_message"
    bad = []

    def rd(I, st, e, cx, obj, args):
        return [(st, ("o", "sym", st.fresh()))]
    st = State()
    st.store[flag] = ZERO

    def hset(I, st, e, cx, obj, args):
        for a in args:
            v = I.val(st, a)
            if contains(v, lambda t: len(t) == 3 and t[0] == "L" and any(
                    isinstance(s, tuple) and len(s) == 2 and s[1] == tok for s in t[2])):
                bad.append(e.get("l"))
        return [(st, ("o", "void"))]

    def hnext(I, st, e, cx, obj, args):
        for a in args:
            if a[0] == "ref":
                I.write(st, a[1], ("o", "tok", st.fresh()))
        return [(st, atom(("val", ("o", "err", st.fresh()))))]
    I = ctx.interp({P + "LogParser::get_next_symbol": hnext, P + "Lexer::scan": hnext,
                    P + "LogParserOutputBuffer::set_token": hset, P + "LogParserOutputBuffer::set_curr_token": hset})
    ctx.run(I, f, st=st)
    ctx.check("pending-token-guarded", "LogParser::m_start_of_log_message", ctx.where(f), not bad,
              "with no pending event start, the saved token never reaches the output (%s)" % bad)


def built_like_reset(ctx, mut):
    """A newly built parser is in the state reset leaves it in: resetting it changes no field parsing uses."""
    m = ctx.m
    names = {base_name(x) for x in mut}

    def nothing(I, st, e, cx, obj, args):
        return [(st, ("o", "void"))]

    def generated(I, st, e, cx, obj, args):
        l = at(obj, ("f", next(fl["q"] for r in m.rec_by_t.values() if r["q"] == P + "Lexer"
                               for fl in r["fields"] if fl["q"].endswith("::m_dfa"))))
        I.write(st, l, atom(("param", "dfa")))
        return [(st, ("o", "void"))]

    n = 0
    for cls, rs in (("LogParser", "reset"), ("BufferParser", "reset"), ("ReaderParser", "reset_and_set_reader")):
        f = m.fn(P + cls + "::" + rs)
        clst = f["clst"]
        h = {P + "LogParser::add_rules": nothing, P + "Lexer::generate": generated,
             P + "SchemaParser::try_schema_file": lambda I, st, e, cx, obj, args: [(st, ("o", "schema"))]}
        paths = [(sel, fl) for sel, fl in nested(ctx, P + cls, clst)
                 if base_name(fl["q"]) in names and not fl.get("const") and not fl["t"].rstrip().endswith("&")
                 and fl["t"].strip() not in m.rec_by_t and not fl["t"].startswith("std::unique_ptr")
                 and not base_name(fl["q"]).startswith(P + "Reader::")
                 and not any(base_name(x[1]) in EXEMPT for x in sel)]
        ctors = [c for c in m.functions.values() if c["q"] == P + cls + "::<ctor>" and c.get("params") is not None
                 and not c.get("copyctor") and not c.get("defaulted")]
        ctx.need(ctors, "no constructor of %s" % cls)
        for c in ctors:
            I = ctx.interp(h, pure={P + "RegexDFAState::next"})
            runs = []
            fresh, loc = fresh_state(ctx, I, clst)
            for s in fresh:
                runs += [a for a, _ in ctx.run(I, c, st=s, this=loc)]
            ctx.need(runs, "constructor of %s never returns" % cls)
            key0 = "%s(%s)" % (cls, ", ".join(p["n"] for p in c["params"]))
            for sel, fl in paths:
                l0 = ("L", loc[1], sel)
                bad = None
                for a in runs:
                    v0 = I.read(a, l0, fl["t"])
                    for b, _ in I.run(f, st=a.copy(), this=loc):
                        v1 = I.read(b, l0, fl["t"])
                        same = v0 == v1 or (v0[0] == "n" and v1[0] == "n" and b.facts.is_zero(sub(v0, v1))) or (
                            v0[0] == "o" and v1[0] == "o" and fl["t"].startswith("std::")
                            and a.facts.is_zero(I.size(a, v0)) and b.facts.is_zero(I.size(b, v1)))
                        if not same:
                            bad = "a new %s has %s, after %s it is %s" % (cls, show(v0), rs, show(v1))
                n += 1
                ctx.check("built-like-reset", key0 + "/" + ".".join(x[1].rsplit("::", 1)[-1] for x in sel),
                          ctx.where(c), bad is None, bad or "resetting a new object leaves the field as it is")
    ctx.need(n >= 30, "only %d fields of new parsers compared" % n)
