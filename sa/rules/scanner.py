"""Abstract interpretation of Lexer::scan, one input character at a time.

The buffer (get_next_character) and the DFA (is_accepting, next) are replaced by their contracts; every call
leaves an event with a snapshot of the lexer's fields.  Each pass over the scan loop is then compared with the
decision table of a longest-match scanner that may only end a match before a delimiter.
"""
from lib import *
from rules.events import token_of, NAMES

DS = FA + "RegexDFAState::"
FIELDS = ["start", "match", "mpos", "mline", "last", "lastline", "line", "types", "asked", "prev"]
CPP = {"start": "m_start_pos", "match": "m_match", "mpos": "m_match_pos", "mline": "m_match_line",
       "last": "m_last_match_pos", "lastline": "m_last_match_line", "line": "m_line", "types": "m_type_ids",
       "asked": "m_asked_for_more_data", "prev": "m_prev_state"}
TYPE = {"match": "bool", "asked": "bool"}
PTR = ("types", "prev")


class Scan:
    def __init__(self, ctx, hd, entry, state_loc=None, prev=None):
        """entry: 'fresh' | 'pending' | 'resume'"""
        self.ctx, self.hd, self.entry = ctx, hd, entry
        self.f = f = lexer_fn(ctx, "scan")
        t = f["clst"]
        ctx.need(len(f["params"]) == 2, "Lexer::scan changed its interface")
        self.loc = {n: loc_of(ctx, t, CPP[n]) for n in FIELDS}
        bt = P + "ParserInputBuffer"
        buf = ("obj", "arg0")
        self.pos = loc_of(ctx, bt, "m_storage.m_pos", buf)
        self.full = loc_of(ctx, bt, "m_log_fully_consumed", buf)
        self.active = loc_of(ctx, bt, "m_storage.m_active_storage", buf)
        self.asize = loc_of(ctx, bt, "m_storage.m_active_size", buf)
        self.delim, self.first = loc_of(ctx, t, "m_is_delimiter"), loc_of(ctx, t, "m_is_first_char")
        self.dfa = loc_of(ctx, t, "m_dfa")
        self.state_loc = state_loc
        self.ghost_c, self.ghost_p = L(("obj", "ghost"), ("f", "c")), L(("obj", "ghost"), ("f", "p"))
        self.root = atom(("dfa", "root"))
        mark_ptr(self.root[2][0][0])
        I = self.I = ctx.interp()
        st = State()
        st.facts._bound(self.root, 1, None)
        st.store[loc_of(ctx, t, "m_has_delimiters")] = num(hd)
        st.store[self.full] = ZERO
        st.store[self.loc["asked"]] = num(int(entry == "resume"))
        st.store[self.ghost_c] = num(-1)
        st.store[self.ghost_p] = num(-1)
        if entry != "resume":
            st.store[self.loc["match"]] = num(int(entry == "pending"))
        for n in PTR:
            mark_ptr(("in", self.loc[n]))
        if prev is not None:
            st.store[self.loc["prev"]] = prev
        elif entry == "resume":
            st.facts._bound(atom(("in", self.loc["prev"])), 1, None)
        p0 = I.read(st, self.pos, "unsigned int")
        if entry == "fresh":
            st.store[self.loc["last"]] = p0       # established by every exit, see `contiguous`
        elif entry == "pending":
            st.store[self.loc["mpos"]] = p0
        I.hooks.update({
            P + "ParserInputBuffer::get_next_character": self.h_char,
            DS + "is_accepting": self.h_acc, DS + "next": self.h_next, DS + "get_matching_variable_ids": self.h_ids,
            FA + "RegexDFA::get_root": lambda I, st, e, cx, o, a: [(st, self.root)]})
        I.on_back = self.h_back
        I.on_exit = self.h_exit
        self.entries = []
        I.on_enter = self.h_enter
        # whether a token can start at the last character is not forgotten where branches meet
        I.join_key = lambda s: self.start_facts(s, as_num(I.read(s, self.ghost_c)))
        self.state0 = st.copy()
        self.outs = ctx.run(I, f, st=st)
        ctx.need(self.outs, "Lexer::scan has no normal exit")

    # ------------------------------------------------------------ hooks
    def h_enter(self, I, st, lid, cx):
        """The fields with which the scan loop is entered: no character has been read yet."""
        if I.read(st, self.ghost_c) == num(-1):
            self.entries.append((st.copy(), self.snap(st)))

    def snap(self, st):
        d = {}
        for n in FIELDS:
            d[n] = as_num(self.I.read(st, self.loc[n], TYPE.get(n, "unsigned int")))
        d["pos"] = as_num(self.I.read(st, self.pos, "unsigned int"))
        d["full"] = as_num(self.I.read(st, self.full, "bool"))
        gc = as_num(self.I.read(st, self.ghost_c))
        d["lastp"] = as_num(self.I.read(st, self.ghost_p))
        d["begins"] = num({None: -1, False: 0, True: 1}[self.begins(st, gc)])
        if self.state_loc is not None:
            v = as_num(self.I.read(st, self.state_loc, "long"))
            d["state"] = v
            t = truth(st, v)
            d["live"] = num(-1 if t is None else int(t))
        for n, v in d.items():
            if not is_const(v) and st.facts.lower(v) == st.facts.upper(v):
                d[n] = num(st.facts.lower(v))
        d["startlast"] = num(int(same(st, d["start"], d["lastp"])))
        d["poslast"] = num(int(same(st, d["pos"], d["lastp"])))
        return tuple(sorted(d.items()))

    def begins(self, st, c):
        """Can a token start at character c (a delimiter that some token starts with)?"""
        both = self.start_facts(st, c)
        if False in both:
            return False
        return True if both == (True, True) else None

    def start_facts(self, st, c):
        """(some token starts with c, c is a delimiter), each True / False / None."""
        both = []
        for arr in (self.first, self.delim):
            r = truth(st, as_num(self.I.read(st, at(arr, ("e", c)), "bool")))
            if r is None:
                n = len(arr[2])
                for fkey in list(st.facts.b):
                    for a, k in fkey:
                        if isinstance(a, tuple) and a[0] == "in" and a[1][1] == arr[1] and a[1][2][:n] == arr[2] and \
                                len(a[1][2]) == n + 1 and same(st, as_num(a[1][2][n][1]), c):
                            r = truth(st, atom(a)) if r is None else r
            both.append(r)
        return tuple(both)

    def h_char(self, I, st, e, cx, obj, args):
        out = []
        for s0, m in I.split(st, as_num(I.read(st, self.loc["match"], "bool"))):
            I.write(s0, self.loc["match"], num(int(m)))
            p = as_num(I.read(s0, self.pos, "unsigned int"))
            I.write(s0, self.ghost_p, p)
            snap = self.snap(s0)
            # no data
            s = s0.copy()
            ev = atom(s.fresh("readerr"))
            s.facts._bound(ev, 1, None)
            s.emit("err", ev, snap)
            out.append((s, ev))
            # end of input
            s = s0.copy()
            c = num(255)
            I.write(s, args[0][1], c)
            I.write(s, self.full, ONE)
            I.write(s, self.ghost_c, c)
            s.emit("char", snap, p, c, "eof", p)
            out.append((s, err(self.ctx, "Success")))
            # a character
            s0.facts.assume(as_num(I.read(s0, self.full, "bool")), "==")
            for nl in (0, 1):
                s = s0.copy()
                if nl:
                    c = num(10)
                else:
                    c = atom(s.fresh("ch"))
                    s.facts._bound(c, 0, 255)
                    s.facts.assume(sub(c, num(10)), "!=")
                np = atom(s.fresh("pos"))
                s.facts._bound(np, 0, None)
                s.facts.assume(sub(np, p), "!=")
                I.write(s, args[0][1], c)
                I.write(s, self.pos, np)
                I.write(s, self.ghost_c, c)
                d = as_num(I.read(s, at(self.delim, ("e", c)), "bool"))
                for s1, isd in I.split(s, d):
                    s1.emit("char", snap, p, c, "delim" if isd else "plain", np)
                    out.append((s1, err(self.ctx, "Success")))
        return out

    def dstate(self, obj):
        return obj[1][1] if obj is not None and obj[1][0] == "d" else None

    def h_acc(self, I, st, e, cx, obj, args):
        v = atom(("acc", self.dstate(obj)))
        st.facts._bound(v, 0, 1)
        out = []
        for s, b in I.split(st, v):
            s.emit("acc", self.dstate(obj), b, truth(s, self.dstate(obj)))
            out.append((s, num(int(b))))
        return out

    def h_next(self, I, st, e, cx, obj, args):
        c = as_num(I.val(st, args[0]))
        S = self.dstate(obj)
        v = atom(("next", S, c))
        mark_ptr(v[2][0][0])
        # with delimiters, the newline token is always a rule of its own (checked by the construction rules)
        st.facts._bound(v, int(self.hd and S == self.root and c == num(10)), None)
        out = []
        for s, b in I.split(st, v):
            s.emit("next", S, c, b, truth(s, S))
            out.append((s, v if b else ZERO))
        return out

    def h_ids(self, I, st, e, cx, obj, args):
        return [(st, ("ref", L(("d", self.dstate(obj)), ("f", "ids"))))]

    def h_exit(self, I, st, lid, cx):
        # keep apart the reasons to stop skipping
        st.ghost["stop"] = (truth(st, as_num(I.read(st, self.full, "bool"))),
                            self.begins(st, as_num(I.read(st, self.ghost_c))))

    def h_back(self, I, st, lid, cx):
        st.emit("back", lid, self.snap(st))

    # ------------------------------------------------------------ reading
    def exits(self):
        """(state, result, pre events, complete passes, last partial pass)"""
        for s, v in self.outs:
            pre, its, post = [], [], []
            for x in s.events:
                # the scan loop is the outermost loop whose passes read characters
                if x[0] == "loop" and not its and any(y[0] in ("char", "err") for it in x[2] for y in it):
                    its = list(x[2])
                    pre += post
                    post = []
                else:
                    post.append(x)
            yield s, as_num(v), pre, its, post


def kinds(ctx, trace):
    return [x[0] for x in trace]


def find_state(ctx):
    """The local variable that holds the DFA state: the object whose transitions are taken in the scan loop."""
    r = Scan(ctx, 1, "fresh")
    locs = set()
    for s, v, pre, its, post in r.exits():
        for it in its + [post]:
            for x in it:
                if x[0] in ("acc", "next") and len(x[1][2]) == 1:
                    a = x[1][2][0][0]
                    if a[0] == "fr" and isinstance(a[-1], tuple) and a[-1][0] == "L":
                        locs.add(a[-1])
    ctx.need(len(locs) == 1, "the scan loop's DFA state was not found (%d candidates)" % len(locs))
    return locs.pop()


def run_all(ctx):
    if getattr(ctx, "_scan", None) is None:
        sl = find_state(ctx)
        ctx._scan = [Scan(ctx, hd, e, sl) for hd in (1, 0) for e in ("fresh", "pending", "resume")]
        ctx._scan_null = [Scan(ctx, hd, "resume", sl, prev=ZERO) for hd in (1, 0)]
    return ctx._scan


def E(sn):
    """Where the text not yet handed out begins."""
    return sn["start"] if same_const(sn["match"], 1) and sn["asked"] == ZERO else sn["last"]


def same_const(v, k):
    return v == num(k)


def types_uncaught(v):
    return contains(v, lambda t: len(t) == 2 and t[0] == "g" and "cTokenUncaughtStringTypes" in str(t[1]))


def types_end(v):
    return contains(v, lambda t: len(t) == 2 and t[0] == "g" and "cTokenEndTypes" in str(t[1]))


def contiguous(ctx):
    """C05: the tokens of successive scans partition the input; only the end token is empty."""
    OK = err(ctx, "Success")
    for r in run_all(ctx):
        f = r.f
        where = ctx.where(f)
        sit0 = "scan/%s/%s" % ("delimiters" if r.hd else "no delimiters", r.entry)
        I = r.I
        s0 = r.state0
        sn0 = dict(r.snap(s0))
        done = set()
        for s, v, pre, its, post in r.exits():
            sn = dict(r.snap(s))
            for it in its:
                for x in it:
                    if x[0] == "back" and x not in done:
                        done.add(x)
                        b = dict(x[2])
                        ctx.check("progress-kept", sit0 + "/loop", where, b["last"] == sn0["last"],
                                  "the start of the text not handed out yet stays %s while scanning (%s)" % (
                                      show(sn0["last"]), show(b["last"])))
            if not same(s, v, OK):
                ctx.check("progress-kept", sit0 + "/out of data", where, same(s, sn["last"], sn0["last"]),
                          "running out of data hands nothing out")
                continue
            tk = token_of(I, I.read(s, L(("obj", "arg1"))))
            e0 = sn0["start"] if r.entry == "pending" else sn0["last"]
            pend = truth(s, sn["match"])
            ctx.check("pending-known", sit0, where, pend is not None, "whether a token is pending is determined")
            e1 = sn["start"] if pend else sn["last"]
            kind = "uncaught" if types_uncaught(tk["m_type_ids_ptr"]) else "end" if types_end(tk["m_type_ids_ptr"]) else "match"
            key = "%s/%s token%s" % (sit0, kind, " then pending" if pend else "")
            ctx.check("token-start", key, where, same(s, tk["m_start_pos"], e0),
                      "the token starts where the previous one ended: %s, expected %s" % (
                          show(tk["m_start_pos"]), show(e0)))
            ctx.check("token-end", key, where, same(s, tk["m_end_pos"], e1),
                      "the next token will start where this one ends: %s, next start %s" % (
                          show(tk["m_end_pos"]), show(e1)))
            ctx.check("asked", key, where, truth(s, sn["asked"]) is False, "the scan is not marked interrupted")
            ctx.check("token-buffer", key, where,
                      same(s, tk["m_buffer"], as_num(I.read(s, r.active, "char *"))) and
                      same(s, tk["m_buffer_size"], as_num(I.read(s, r.asize, "unsigned int"))),
                      "the token refers to the input buffer and its size")
            if pend:
                ctx.check("pending-ends-at-read-position", key, where, same(s, sn["mpos"], sn["pos"]),
                          "scanning continues after the pending token (position %s, its end %s)" % (
                              show(sn["pos"]), show(sn["mpos"])))
            else:
                ctx.check("read-position", key, where, same(s, sn["last"], sn["pos"]),
                          "scanning continues at the end of the token (position %s, its end %s)" % (
                              show(sn["pos"]), show(sn["last"])))
            eof = any(x[0] == "char" and x[4] == "eof" for x in post)
            if kind == "end":
                ctx.check("end-token", key, where, eof and same(s, tk["m_start_pos"], tk["m_end_pos"]),
                          "the end token is empty and comes only at the end of the input")
            if pend and types_end(sn["types"]):
                ctx.check("end-token", key, where, eof and same(s, sn["start"], sn["mpos"]),
                          "a pending end token is empty and comes only at the end of the input")


def segs(trace):
    """Splits one pass at its character reads: [(char event, [events until the next])]; nested loops stay whole."""
    out = []
    for x in trace:
        if x[0] in ("char", "err"):
            out.append((x, []))
        elif out:
            out[-1][1].append(x)
        else:
            out.append((None, [x]))
    return out


def table(ctx):
    """C26: the decision table of the scan loop."""
    OK = err(ctx, "Success")
    n = 0
    runs = run_all(ctx) + ctx._scan_null
    for r in runs:
        if r.entry == "pending":
            continue
        null0 = r in ctx._scan_null
        base = "scan/%s/%s%s" % ("delimiters" if r.hd else "no delimiters", r.entry, " skipping" if null0 else "")
        entry(ctx, r, base)
        done = set()
        for s, v, pre, its, post in r.exits():
            for it in its:
                if it not in done:
                    done.add(it)
                    n += one_pass(ctx, r, base, it, None, None)
            n += one_pass(ctx, r, base, post, s, v)
    ctx.need(n >= 20, "the scan loop was not recognised (%d passes)" % n)


def entry(ctx, r, base):
    """A scan starts at the read position in the root state; an interrupted one goes on with what it had."""
    where = ctx.where(r.f)
    b = dict(r.snap(r.state0))
    want = {n: b[n] for n in ("start", "mpos", "mline", "types", "last", "lastline", "line", "match", "pos")}
    if r.entry == "fresh":
        want.update(start=b["pos"], match=ZERO, state=r.root)
        for n in ("mpos", "mline", "types"):    # not looked at until a match is found
            del want[n]
    else:
        want["state"] = b["prev"]
    for s, got in r.entries:
        got = dict(got)
        bad = [n for n in want if not same(s, got[n], want[n])]
        diffs(ctx, "entry", base + "/start", where, list(want), bad, want, got,
              "the scan starts at the read position in the root state: " if r.entry == "fresh" else
              "an interrupted scan goes on in the state it stopped in: ")


def one_pass(ctx, r, base, trace, s, v):
    f, I = r.f, r.I
    where = ctx.where(f)
    OK = err(ctx, "Success")
    if not any(x[0] in ("char", "err") for x in trace):
        return 0
    x0 = trace[0]
    if x0[0] not in ("char", "err"):
        i = [k for k, x in enumerate(trace) if x[0] in ("char", "err")][0]
        if any(x[0] in ("acc", "next") for x in trace[:i]):
            ctx.check("table", base + "/before reading", where, False, "the DFA is consulted before a character is read")
            return 1
        trace = trace[i:]
        x0 = trace[0]
    if x0[0] == "err":
        b = dict(x0[2])
        a = dict(r.snap(s)) if s is not None else None
        ok = s is not None and same(s, v, x0[1])
        ctx.check("out-of-data", base + "/out of data", where, ok, "the read error is reported unchanged")
        if ok:
            ctx.check("out-of-data", base + "/out of data/state", where,
                      a["prev"] == b["state"] and same(s, a["asked"], ONE),
                      "the DFA state in use is kept for the next call (saved %s, in use %s, flag %s)" % (
                          show(a["prev"]), show(b["state"]), show(a["asked"])))
            names = ("start", "match", "mpos", "mline", "line", "types", "last", "lastline", "pos")
            keep = [n for n in names if a[n] != b[n]]
            diffs(ctx, "out-of-data", base + "/out of data/fields", where, names, keep, b, a,
                  "an interrupted scan changes nothing else: ")
        return 1
    _, snap, p, c, kind, np = x0
    b = dict(snap)
    # the part before anything else is read
    rest, tail, inner = [], [], None
    for x in trace[1:]:
        if x[0] in ("char", "err") or (x[0] == "loop" and any(y[0] in ("char", "err") for it in x[2] for y in it)):
            inner = inner or []
        if inner is not None:
            inner.append(x)
        else:
            rest.append(x)
    live = {1: True, 0: False}.get(b["live"][1] if is_const(b["live"]) else -1)
    S = b["state"]
    acc = [x for x in rest if x[0] == "acc"]
    nxt = [x for x in rest if x[0] == "next"]
    if live is None and any(x[1] == S for x in acc + nxt):
        live = True if all(x[3] is not None or True for x in acc) else None
    for x in acc + nxt:
        if x[-1] is False:
            ctx.check("table", base + "/null state", where, False, "the DFA is consulted through a null state")
    key = "%s/%s%s%s" % (base, "newline " if c == num(10) else "", kind, "/match pending" if b["match"] == ONE else "")
    m = b["match"] == ONE
    nl = c == num(10) and kind != "eof"
    stop = kind in ("delim", "eof") or not r.hd
    used = [x for x in acc + nxt if x[1] == S]
    skipping = not used
    want = dict(b)
    want["pos"] = np
    want["full"] = ONE if kind == "eof" else ZERO
    if not skipping:
        a = [x[2] for x in acc if x[1] == S]
        if stop:
            if not a:
                ctx.check("accept-at-boundary", key, where, False, "acceptance of the state is not examined at a possible end")
                return 1
            if a[0]:
                m = True
                want.update(match=ONE, mpos=p, mline=b["line"], types=addr(L(("d", S), ("f", "ids"))))
        tr = [x for x in nxt if x[1] == S and x[2] == c]
        if nl:
            want["line"] = add(b["line"], ONE)
        root_next = None
        if nl and r.hd and not m:
            tn = [x for x in nxt if x[1] == r.root and x[2] == num(10)]
            m = True
            root_next = atom(("next", r.root, num(10)))
            want.update(match=ONE, mpos=np, mline=want["line"], start=p,
                        types=addr(L(("d", root_next), ("f", "ids"))))
            tr = tn
        if not tr:
            if kind != "eof":
                ctx.check("transition-taken", key, where, False, "the transition on the character is not looked up")
                return 1
            alive = False
        else:
            alive = tr[-1][3]
        target = root_next if root_next is not None else atom(("next", S, c))
    else:
        # state is null: an interrupted skip goes on
        alive = False
        target = None
        if live is True:
            ctx.check("transition-taken", key, where, False, "a live state is ignored")
            return 1
    ends = kind == "eof" or not alive
    last = trace[-1]
    back = dict(last[2]) if last[0] == "back" else None
    if not ends:
        ok = back is not None and inner is None
        ctx.check("scan-goes-on", key, where, ok, "the scan continues while a transition exists")
        if ok:
            want["state"] = target
            diff = [n for n in want if n in FIELDS + ["pos", "state"] and n not in ("prev", "asked") and back[n] != want[n]]
            diffs(ctx, "step", key + "/" + ("accepting" if acc and acc[0][2] else "go on"), where, want, diff, want,
                  back, "after the character: ")
        return 1
    if m:
        # a match ends: emitted now or after the uncaught text before it
        ok = s is not None and same(s, v, OK) and inner is None
        ctx.check("match-emitted", key, where, ok, "a match is handed out when no longer one is possible")
        if ok:
            a = dict(r.snap(s))
            pend = truth(s, a["match"])
            w = {"pos": want["mpos"], "line": want["mline"], "mpos": want["mpos"], "start": want["start"],
                 "full": ZERO, "mline": want["mline"]}
            if pend:
                w["types"] = want["types"]
                w["match"] = ONE
            else:
                w["last"] = want["mpos"]
                w["lastline"] = want["mline"]
            diff = [n for n in w if not same(s, a[n], w[n])]
            diffs(ctx, "rewind", key + ("/after uncaught text" if pend else "/match"), where, w, diff, w, a,
                  "scanning resumes right after the match: ")
            tk = token_of(I, I.read(s, L(("obj", "arg1"))))
            ln = b["lastline"] if pend else want["mline"]
            ctx.check("token-line", key + ("/after uncaught text" if pend else "/match"), where,
                      same(s, tk["m_line"], ln), "the token's line is %s, expected %s" % (show(tk["m_line"]), show(ln)), lines=True)
            if not pend:
                ctx.check("token-type", key, where, same(s, tk["m_type_ids_ptr"], want["types"]),
                          "the token's types are those of the accepting state (%s)" % show(tk["m_type_ids_ptr"]))
            else:
                ctx.check("token-type", key + "/uncaught", where, types_uncaught(tk["m_type_ids_ptr"]),
                          "text before a match is uncaught")
        return 1
    if s is not None and same(s, v, OK) and inner is None:
        # no match: only the end of the input yields a token
        tk = token_of(I, I.read(s, L(("obj", "arg1"))))
        a = dict(r.snap(s))
        ctx.check("end-only-at-start", key, where, kind == "eof" and same(s, want["start"], np),
                  "without a match a token is produced only at the end of the input, after the remaining text was skipped")
        ctx.check("token-line", key + "/end", where,
                  same(s, tk["m_line"], b["line"] if types_end(tk["m_type_ids_ptr"]) else b["lastline"]),
                  "the token's line is %s" % show(tk["m_line"]), lines=True)
        return 1
    # resynchronisation
    resync(ctx, r, key, where, b, want, p, c, kind, inner or [], back, s, v, rest)
    return 1


def explain(diff, want, got):
    return "; ".join("%s is %s, expected %s" % (CPP.get(n, n), show(got[n]), show(want[n])) for n in diff) or "as expected"


def resync(ctx, r, key, where, b, want, p, c, kind, inner, back, s, v, rest):
    key = key + "/skip"
    for x in inner:
        if x[0] in ("acc", "next"):
            ctx.check("skip", key, where, False, "the DFA is consulted while skipping to the next token start")
    if s is not None and not same(s, v, err(ctx, "Success")):
        a = dict(r.snap(s))
        es = [x for x in inner if x[0] == "err"]
        ok = len(es) == 1 and same(s, v, es[0][1])
        ctx.check("out-of-data", key + "/out of data", where, ok, "the read error is reported unchanged")
        ctx.check("skip-survives-interruption", key, where, same(s, a["prev"], ZERO) and same(s, a["asked"], ONE),
                  "an interrupted skip is continued by the next call, not taken for a match attempt (saved state %s)"
                  % show(a["prev"]))
        names = ("match", "line", "last", "lastline")
        keep = [n for n in names if not same(s, a[n], want[n])]
        diffs(ctx, "skip", key + "/out of data/fields", where, names, keep, want, a, "")
        return
    ctx.check("skip", key, where, back is not None, "after a failed match the scan skips to the next token start")
    # every character but the last one is skipped because no token can start there
    chars = []
    for x in inner:
        if x[0] == "char":
            chars.append(x)
        if x[0] == "loop":
            for it in x[2]:
                chars += [y for y in it if y[0] == "char"]
    for x in chars:
        d = dict(x[1])
        ctx.check("skip-no-further", key, where, d["begins"] == ZERO and d["full"] == ZERO,
                  "a character at which a token can start is not skipped, nor the end of the input")
    if back is None:
        return
    stop = back["begins"] == ONE or back["full"] == ONE
    ctx.check("skip-far-enough", key, where, stop and back["startlast"] == ONE and back["poslast"] == ONE,
              "skipping stops at a delimiter that some token starts with or at the end of input (last character %s, "
              "restart at %s)" % (show(back["lastp"]), show(back["start"])))
    w = {"match": ZERO, "state": r.root, "line": want["line"], "last": b["last"], "lastline": b["lastline"]}
    diff = [n for n in w if back[n] != w[n]]
    diffs(ctx, "skip", key + "/restart", where, w, diff, w, back, "the scan restarts with the root state: ")


def start_of_file(ctx):
    """The scan that follows prepend_start_of_file_char continues after a virtual start-of-file character."""
    f = lexer_fn(ctx, "prepend_start_of_file_char")
    t = f["clst"]
    where = ctx.where(f)
    root = atom(("dfa", "root"))
    mark_ptr(root[2][0][0])
    I = ctx.interp()
    nexts = []

    def h_next(I, st, e, cx, obj, args):
        c = as_num(I.val(st, args[0]))
        v = atom(("next", obj[1][1], c))
        mark_ptr(v[2][0][0])
        nexts.append((obj[1][1], c))
        return [(st, v)]
    I.hooks.update({DS + "next": h_next, FA + "RegexDFA::get_root": lambda I, st, e, cx, o, a: [(st, root)]})
    g = ctx.m.globals.get(P + "utf8::cCharStartOfFile")
    ctx.need(g is not None and "cv" in (g.get("init") or {}), "cCharStartOfFile is not a constant")
    sof = num(int(g["init"]["cv"]))
    outs = ctx.run(I, f)
    ctx.need(outs, "prepend_start_of_file_char has no exit")
    pos = loc_of(ctx, P + "ParserInputBuffer", "m_storage.m_pos", ("obj", "arg0"))
    loc = {n: loc_of(ctx, t, CPP[n]) for n in FIELDS}
    ctx.check("start-of-file", "prepend/transition", where,
              len(nexts) >= 1 and all(same(outs[0][0], x[0], root) and same(outs[0][0], x[1], sof) for x in nexts),
              "the transition on the start-of-file character is taken from the root state (%s)" % ", ".join("%s from %s" % (show(b), show(a)) for a, b in nexts))
    for s, v in outs:
        p = as_num(I.read(s, pos, "unsigned int"))
        got = {n: as_num(I.read(s, loc[n], TYPE.get(n, "unsigned int"))) for n in FIELDS}
        st0 = State()
        was = {n: as_num(I.read(st0, loc[n], TYPE.get(n, "unsigned int"))) for n in FIELDS}
        want = {"prev": atom(("next", root, nexts[0][1])) if nexts else ZERO, "asked": ONE, "start": p, "mpos": p,
                "mline": was["line"], "types": ZERO, "line": was["line"], "match": was["match"],
                "last": was["last"], "lastline": was["lastline"]}
        for n in want:
            ctx.check("start-of-file", "prepend/" + CPP[n], where, same(s, got[n], want[n]),
                      "%s is %s, expected %s" % (CPP[n], show(got[n]), show(want[n])))


class Only:
    """Passes on the obligations of one aspect of the decision table."""

    def __init__(self, ctx, lines):
        self.__dict__["c"] = ctx
        self.__dict__["lines"] = lines

    def __getattr__(self, n):
        return getattr(self.c, n)

    def __setattr__(self, n, v):
        setattr(self.c, n, v)

    def check(self, rule, key, where, ok, detail="", lines=False):
        if lines == self.lines:
            return self.c.check(rule, key, where, ok, detail)
        return ok


LINE_FIELDS = ("line", "mline", "lastline")


def diffs(ctx, rule, key, where, names, bad, want, got, text):
    """One obligation per aspect: positions and states, line numbers."""
    for ln in (False, True):
        d = [n for n in bad if (n in LINE_FIELDS) == ln]
        if any((n in LINE_FIELDS) == ln for n in names):
            ctx.check(rule, key + ("/lines" if ln else ""), where, not d, text + explain(d, want, got), lines=ln)


def rule26(ctx):
    table(Only(ctx, False))
    start_of_file(ctx)


def lines(ctx):
    """C11: line numbers, from the same table."""
    table(Only(ctx, True))


def rule05(ctx):
    import rules.events as events
    contiguous(ctx)
    events.conservation(ctx)
