"""C33: a token in front of a wildcard is given a variable's types only if every text the wildcard can stand for keeps it one."""
from lib import *
from rules.dfa import Work, indexed, flat, work_loop
from rules.nfa import byte_fn
from rules.events import token_of

TK = P + "Token"

BYTES = 256
DS = FA + "RegexDFAState::"


def rule(ctx):
    for wc in ("?", "*"):
        for delims in (0, 1):
            Wild(ctx, wc, delims)
    for delims in (0, 1):
        for entry in ("fresh", "resume"):
            Walk(ctx, delims, entry)


class Wild:
    """scan_with_wildcard at the end of its text, in any state of the automaton."""

    def __init__(self, ctx, wc, hd):
        self.ctx, self.wc = ctx, wc
        self.f = f = byte_fn(ctx, P + "Lexer::scan_with_wildcard")
        ctx.need(len(f["params"]) == 3, "scan_with_wildcard changed its interface")
        w = ctx.where(f)
        self.R = R = lambda key, ok, d: ctx.check("wildcard", "%s: %s" % (wc, key), w, ok, d)
        t = f["clst"]
        g = lambda d: loc_of(ctx, t, d)
        bt, buf = P + "ParserInputBuffer", ("obj", "arg0")
        b = lambda d: loc_of(ctx, bt, d, buf)
        self.pos, self.full = b("m_storage.m_pos"), b("m_log_fully_consumed")
        self.delim = g("m_is_delimiter")
        W = self.W = Work(ctx, "ptr")
        I = self.I = W.interp({P + "ParserInputBuffer::get_next_character": self.h_char,
                               P + "ParserInputBuffer::set_pos": self.h_pos,
                               FA + "RegexDFA::get_root": self.h_root,
                               DS + "is_accepting": self.h_acc, DS + "next": self.h_next,
                               DS + "get_matching_variable_ids": self.h_ids, "std::array::operator[]": self.h_at,
                               "std::array::at": self.h_at})
        self.S = S = as_num(I.init_value(State(), g("m_prev_state"), "T *"))
        mark_ptr(S[2][0][0])
        st = State()
        st.facts._bound(S, 1, None)
        st.store[g("m_asked_for_more_data")] = ONE
        st.store[g("m_has_delimiters")] = num(hd)
        st.store[self.full] = ZERO
        self.bad_null = False
        self.p0 = as_num(I.read(st, self.pos, "unsigned int"))
        self.m0 = as_num(I.read(st, g("m_match"), "bool"))
        self.mp0 = as_num(I.read(st, g("m_match_pos"), "unsigned int"))
        self.start0 = as_num(I.read(st, g("m_start_pos"), "unsigned int"))
        self.last0 = as_num(I.read(st, g("m_last_match_pos"), "unsigned int"))
        # a match remembered from before lies before the end of the text: it ended in front of a delimiter
        st.facts.assume(sub(self.mp0, self.p0), "!=")
        tok = L(("obj", "arg2"))
        uncaught = None
        outs = ctx.run(I, f, st=st, args=[("ref", L(("obj", "arg0"))), num(ord(wc)), ("ref", tok)])
        R("the scan ends", bool(outs) and not I.throws, "fails: %s" % [(x[1].get("l"), x[1].get("q")) for x in I.throws[:3]])
        R("no transition to nowhere is followed", not self.bad_null, "asks a state that does not exist whether it accepts")
        named = 0
        for s, v in outs:
            s.events = indexed(s.events)
            if not same(s, as_num(v), err(ctx, "Success")):
                R("a scan that finds the end of the text succeeds", any(x[0] == "err" for x in s.events), "fails with %s" % show(as_num(v)))
                continue
            F = token_of(I, I.read(s, tok, TK))
            ty = F["m_type_ids_ptr"]
            mine = ty == addr(L(("d", S), ("f", "ids")))
            other = "cTokenUncaughtStringTypes" in repr(ty)
            R("a token has the variables of the state or none", mine or other, "its types are %s" % show(ty))
            if mine:
                named += 1
                self.named(s, F)
            elif other:
                self.refused(s, F)
        R("a variable can be found", named, "no path yields a variable")

    # ------------------------------------------------------------ hooks
    def h_char(self, I, st, e, cx, obj, args):
        # the end of the text
        s = st.copy()
        ev = atom(s.fresh("readerr"))
        s.facts._bound(ev, 1, None)
        s.emit("err")
        I.write(st, args[0][1], num(255))
        I.write(st, self.full, ONE)
        return [(s, ev), (st, err(self.ctx, "Success"))]

    def h_pos(self, I, st, e, cx, obj, args):
        I.write(st, self.pos, as_num(I.val(st, args[0])))
        return [(st, ("o", "void"))]

    def h_at(self, I, st, e, cx, obj, args):
        if obj != self.delim:
            return None
        i = as_num(I.val(st, args[0]))
        for ev in reversed(st.events):
            if ev[0] == "delim" and ev[1] == i:
                return [(st, num(int(ev[2])))]
        o = st.copy()
        st.emit("delim", i, True)
        o.emit("delim", i, False)
        return [(st, ONE), (o, ZERO)]

    def h_root(self, I, st, e, cx, obj, args):
        # the automaton's first state exists
        v = atom(("dfa", "root"))
        mark_ptr(v[2][0][0])
        st.facts._bound(v, 1, None)
        return [(st, v)]

    def state(self, obj):
        return obj[1][1] if obj is not None and obj[1][0] == "d" and not obj[2] else None

    def h_acc(self, I, st, e, cx, obj, args):
        S = self.state(obj)
        if S is None:
            return None
        if truth(st, S) is not True:
            self.bad_null = True
        for ev in reversed(st.events):
            if ev[0] == "acc" and ev[1] == S:
                return [(st, num(int(ev[2])))]
        o = st.copy()
        st.emit("acc", S, True)
        o.emit("acc", S, False)
        return [(st, ONE), (o, ZERO)]

    def h_next(self, I, st, e, cx, obj, args):
        S, c = self.state(obj), as_num(I.val(st, args[0]))
        if S is None:
            return None
        if truth(st, S) is not True:
            self.bad_null = True
        v = atom(("next", S, c))
        mark_ptr(v[2][0][0])
        st.facts._bound(v, 0, None)
        st.emit("next", S, c)
        return [(st, v)]

    def h_ids(self, I, st, e, cx, obj, args):
        return [(st, ("ref", L(("d", self.state(obj)), ("f", "ids"))))]

    # ------------------------------------------------------------ exits
    def nxt(self, v):
        """(state, byte) a pointer is the transition of."""
        v = as_num(v)
        if v[0] == "n" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and isinstance(v[2][0][0], tuple) and v[2][0][0][0] == "next":
            return v[2][0][0][1], v[2][0][0][2]
        return None

    def named(self, s, F):
        R, W, I = self.R, self.W, self.I
        evs = s.events
        R("the token is the whole text", same(s, F["m_start_pos"], self.start0) and same(s, F["m_end_pos"], self.p0),
          "it covers %s to %s" % (show(F["m_start_pos"]), show(F["m_end_pos"])))
        R("the state of the text accepts", ("acc", self.S, True) in evs, "the text itself is not a variable")
        g = lambda d, t: as_num(I.read(s, loc_of(self.ctx, self.f["clst"], d), t))
        R("the next token is sought behind this one", truth(s, g("m_match", "bool")) is False and
          same(s, g("m_last_match_pos", "unsigned int"), self.p0) and truth(s, g("m_asked_for_more_data", "bool")) is False,
          "the token stays pending, or the next one starts elsewhere")
        if self.wc == "?":
            loops = [x for x in evs if x[0] == "loop" and any(y[0] == "next" for p in x[2] for y in p)]
            R("every character is tried", len(loops) == 1, "%d loops look at transitions" % len(loops))
            for lp in loops[:1]:
                idx = {y[2] for p in lp[2] for y in p if y[0] == "next"}
                i = min(idx, key=repr)
                R("every character is tried", len(idx) == 1 and W.full(lp, i, lambda x: num(BYTES)), "not all characters are tried")
                for p in lp[2]:
                    R("each character keeps the variable", ("acc", atom(("next", self.S, i)), True) in p,
                      "a character is passed over without an accepting transition")
        else:
            k, lp = work_loop(evs)
            R("the states behind the text are visited", lp is not None, "no loop takes states to visit")
            if lp is None:
                return
            work = next(x for it in lp[2] for x in it if x[0] == "take")[1]
            R("the search ends with nothing left to visit", W.drained(I, lp, work), "the loop can end with states left")
            R("the search starts at the state of the text", ("push", work, self.S) in evs[:k], "it starts elsewhere")
            for it in lp[2]:
                self.round(it, work)

    def round(self, it, work):
        R, W = self.R, self.W
        x = next((y[2] for y in it if y[0] == "take"), None)
        R("every round visits a state", x is not None and any(y[0] == "pop" and y[1] == work for y in it), "a round visits nothing")
        if x is None:
            return
        if any(y[0] == "known" and y[2] == x and y[3] for y in it) and not any(y[0] == "next" for y in flat(it)):
            return          # visited before
        R("a visited state accepts", ("acc", x, True) in it, "a state is passed over that may not accept")
        R("a visited state is remembered", any(y[0] == "insert" and y[2] == x for y in flat(it)), "the state is not remembered")
        R("only visited states are remembered", all(y[2] == x for y in flat(it) if y[0] == "insert"), "another state counts as visited")
        loops = [y for y in it if y[0] == "loop" and any(self.nxt(z[2]) for p in y[2] for z in p if z[0] in ("push", "known"))]
        R("every transition is followed", len(loops) == 1, "%d loops follow transitions" % len(loops))
        for lp in loops[:1]:
            idx = {self.nxt(z[2])[1] for p in lp[2] for z in p if z[0] in ("push", "known") and self.nxt(z[2])}
            i = min(idx, key=repr)
            R("every transition is followed", len(idx) == 1 and W.full(lp, i, lambda s: num(BYTES)), "not all characters are tried")
            for p in lp[2]:
                n = atom(("next", x, i))
                done = any(y[0] == "push" and y[1:3] == (work, n) for y in p) or \
                    any(y[0] == "known" and y[2] == n and y[3] for y in p)
                R("every transition but a delimiter's leads to a state to visit", done or self.is_delim(p, i),
                  "a character that is no delimiter is passed over")

    def is_delim(self, p, i):
        return any(y[0] == "delim" and y[1] == i and y[2] for y in p)

    def refused(self, s, F):
        """No variable: the text is none, or some text behind it is none."""
        evs = s.events
        why = ("acc", self.S, False) in evs
        for x in flat(evs):
            if x[0] == "acc" and not x[2]:
                why = True
            if x[0] in ("next", "take"):
                v = atom(("next", x[1], x[2])) if x[0] == "next" else x[2]
                why = why or truth(s, v) is False
        self.R("a variable is refused only for a text that is none", why, "a variable is refused without a text that is none")


class Walk(Wild):
    """scan_with_wildcard on the characters of its text: the state follows them."""

    def __init__(self, ctx, hd, entry):
        self.ctx, self.hd, self.wc = ctx, hd, "?"
        self.f = f = byte_fn(ctx, P + "Lexer::scan_with_wildcard")
        self.w = ctx.where(f)
        self.key = "walk/%s/%s" % ("delimiters" if hd else "no delimiters", entry)
        self.entry = entry
        self.state_loc = None
        self.seen = 0
        cands = set()
        self.run(cands)
        if not cands:
            self.check("the state follows the characters", False, "the scan never leaves its first state")
            return
        ctx.need(len(cands) == 1, "scan_with_wildcard's state was not found (%d candidates)" % len(cands))
        self.state_loc = cands.pop()
        self.run(None)
        ctx.need(self.seen >= 4, "scan_with_wildcard's loop was not recognised (%d passes)" % self.seen)

    def run(self, cands):
        ctx, f, entry = self.ctx, self.f, self.entry
        t = f["clst"]
        g = self.g = lambda d: loc_of(ctx, t, d)
        bt, buf = P + "ParserInputBuffer", ("obj", "arg0")
        self.pos, self.full = loc_of(ctx, bt, "m_storage.m_pos", buf), loc_of(ctx, bt, "m_log_fully_consumed", buf)
        self.delim = g("m_is_delimiter")
        self.ghost = L(("obj", "ghost"), ("f", "c"))
        self.lid, self.bad_null, self.cands = None, False, cands
        I = self.I = ctx.interp()
        I.hooks.update({P + "ParserInputBuffer::get_next_character": self.h_char, P + "ParserInputBuffer::set_pos": self.h_pos,
                        FA + "RegexDFA::get_root": self.h_root, DS + "is_accepting": self.h_acc, DS + "next": self.h_next,
                        DS + "get_matching_variable_ids": self.h_ids, "std::array::operator[]": self.h_at,
                        "std::array::at": self.h_at})
        I.on_enter, I.on_back = self.h_enter, self.h_back
        st = State()
        S = as_num(I.init_value(st, g("m_prev_state"), "T *"))
        mark_ptr(S[2][0][0])
        st.facts._bound(S, 1, None)
        self.prev0 = S
        st.store[g("m_asked_for_more_data")] = num(int(entry == "resume"))
        if entry == "fresh":
            st.store[g("m_match")] = ZERO
        st.store[g("m_has_delimiters")] = num(self.hd)
        st.store[self.full] = ZERO
        st.store[self.ghost] = num(-1)
        self.start0 = as_num(I.read(st, g("m_start_pos"), "unsigned int"))
        self.pos0 = as_num(I.read(st, self.pos, "unsigned int"))
        outs = ctx.run(I, f, st=st, args=[("ref", L(("obj", "arg0"))), num(ord("?")), ("ref", L(("obj", "arg2")))])
        for s, v in outs if self.state_loc is not None else ():
            last = [x for x in indexed(s.events) if x[0] in ("err", "char", "end")][-1:]
            if last and last[0][0] == "err":
                self.check("an interrupted scan can go on", not same(s, as_num(v), err(ctx, "Success")) and
                           same(s, as_num(I.read(s, g("m_prev_state"), "T *")), last[0][1]) and
                           truth(s, as_num(I.read(s, g("m_asked_for_more_data"), "bool"))) is True,
                           "the state is not kept, or the error not reported")

    def check(self, key, ok, d):
        self.ctx.check("wildcard", "%s: %s" % (self.key, key), self.w, ok, d)

    def cur(self, st):
        return as_num(self.I.read(st, self.state_loc, "long")) if self.state_loc is not None else ZERO

    def h_enter(self, I, st, lid, cx):
        if self.state_loc is None or I.read(st, self.ghost) != num(-1):
            return
        self.lid = lid
        fresh = self.entry == "fresh"
        S = self.cur(st)
        self.check("the scan starts in its state", same(st, S, atom(("dfa", "root"))) if fresh else same(st, S, self.prev0),
                   "it starts in %s" % show(S))
        self.check("the text starts at its start", same(st, as_num(I.read(st, self.g("m_start_pos"), "unsigned int")),
                                                       self.pos0 if fresh else self.start0), "it starts elsewhere")

    def h_acc(self, I, st, e, cx, obj, args):
        self.found(self.state(obj))
        return Wild.h_acc(self, I, st, e, cx, obj, args)

    def h_next(self, I, st, e, cx, obj, args):
        self.found(self.state(obj))
        return Wild.h_next(self, I, st, e, cx, obj, args)

    def found(self, S):
        if self.cands is not None and S is not None and len(S[2]) == 1:
            a = S[2][0][0]
            if a[0] == "fr" and isinstance(a[-1], tuple) and a[-1][0] == "L" and (self.lid is None or self.lid == a[1]):
                self.lid = a[1]
                self.cands.add(a[-1])

    def h_char(self, I, st, e, cx, obj, args):
        out = []
        p = as_num(I.read(st, self.pos, "unsigned int"))
        for m, b in ((m, b) for m, b in I.split(st, as_num(I.read(st, self.g("m_match"), "bool")))):
            I.write(m, self.g("m_match"), num(int(b)))
            s = m.copy()
            s.emit("err", self.cur(s))
            ev = atom(s.fresh("readerr"))
            s.facts._bound(ev, 1, None)
            out.append((s, ev))
            s = m.copy()
            s.emit("end")
            I.write(s, args[0][1], num(255))
            I.write(s, self.full, ONE)
            I.write(s, self.ghost, num(255))
            out.append((s, err(self.ctx, "Success")))
            for nl in (0, 1):
                s = m.copy()
                if nl:
                    c = num(10)
                else:
                    c = atom(s.fresh("char"))
                    s.facts._bound(c, 0, 255)
                    s.facts.assume(sub(c, num(10)), "!=")
                np = atom(s.fresh("pos"))
                I.write(s, self.pos, np)
                I.write(s, args[0][1], c)
                I.write(s, self.ghost, c)
                s.emit("char", c, self.cur(s), b, p, np, as_num(I.read(s, self.g("m_line"), "unsigned int")),
                       as_num(I.read(s, self.g("m_start_pos"), "unsigned int")))
                out.append((s, err(self.ctx, "Success")))
        return out

    def h_back(self, I, st, lid, cx):
        if self.lid != lid or self.state_loc is None:
            return
        evs = indexed(st.events)
        k = max((i for i, x in enumerate(evs) if x[0] == "char"), default=None)
        if k is None:
            return
        self.seen += 1
        _, c, S, m, p, np, line, start = evs[k]
        evs = evs[k + 1:]
        at_end = not self.hd or any(x[0] == "delim" and x[1] == c and x[2] for x in evs)
        acc = [x[2] for x in evs if x[0] == "acc" and x[1] == S]
        nl = c == num(10)
        get = lambda d, t="unsigned int": as_num(I.read(st, self.g(d), t))
        if self.hd and not any(x[0] == "delim" and x[1] == c for x in evs):
            self.check("it is known whether the text ends here", False, "nothing asks whether the character is a delimiter")
            return
        if at_end and not acc:
            self.check("it is known whether the text ends here", False, "nothing asks whether the state accepts")
            return
        ends = at_end and acc[0]
        m2 = m or bool(ends)
        S2, start2 = atom(("next", S, c)), start
        if nl and self.hd and not m2:
            S2, start2, m2 = atom(("next", atom(("dfa", "root")), c)), p, True
        self.check("the state follows the characters", same(st, self.cur(st), S2), "it becomes %s, not %s" % (show(self.cur(st)), show(S2)))
        self.check("a match is remembered", truth(st, get("m_match", "bool")) is m2, "the match is forgotten or made up")
        self.check("the token starts where it started", same(st, get("m_start_pos"), start2), "it starts elsewhere")
        self.check("lines are counted", same(st, get("m_line"), add(line, ONE) if nl else line), "the line is %s" % show(get("m_line")))
        if ends:
            self.check("a match is the text before the character", same(st, get("m_match_pos"), p) and
                       get("m_type_ids", "T *") == addr(L(("d", S), ("f", "ids"))), "it is another")
