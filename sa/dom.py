"""Abstract domain of the interpreter: linear terms over atoms, objects with field/element selectors,
and a fact base of linear bounds.  No values of a run appear here: an atom stands for every value
the corresponding program quantity can have.

Values
  ('n', c, ((atom, k), ...))   c + sum k*atom   (integers, bools, enums, characters, pointers)
  ('o', op, ...)               an object (container, string, class instance) as an opaque term
  ('upd', base, ((sels, v),..)) object `base` with the listed members/elements replaced
  ('lam', lambda-id, this, byval-items)
Locations
  ('L', root, (sel, ...)) with root ('v', fn, var) | ('d', pointer-value) | ('obj', name) |
  ('g', name) | ('h', n) | ('t', n) and sel ('f', field) | ('e', index-value) | ('i',) unwrapped
"""
INF = float("inf")


def num(c):
    return ("n", int(c), ())


ZERO = num(0)
ONE = num(1)


def atom(a):
    return ("n", 0, ((a, 1),))


_skey_cache = {}


def skey(a):
    r = _skey_cache.get(a)
    if r is None:
        r = repr(a)
        _skey_cache[a] = r
    return r


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: skey(x[0])))
    return ("n", c, t)


def is_num(v):
    return v[0] == "n"


def is_const(v):
    return v[0] == "n" and not v[2]


def cval(v):
    return v[1] if is_const(v) else None


def add(a, b, kb=1):
    d = dict(a[2])
    for x, k in b[2]:
        d[x] = d.get(x, 0) + kb * k
    return mk(a[1] + kb * b[1], d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return mk(a[1] * k, {x: c * k for x, c in a[2]})


def as_num(v):
    """Any value as a linear term (objects become atoms)."""
    if v[0] == "n":
        return v
    return atom(("val", v))


def subst(v, m):
    """Replaces atoms inside a linear value (top level only)."""
    if v[0] != "n":
        return v
    out = ("n", v[1], ())
    for a, k in v[2]:
        r = m.get(a)
        out = add(out, scale(r, k) if r is not None else ("n", 0, ((a, k),)))
    return out


def contains(v, pred, _seen=None):
    """Does term v contain a sub-tuple satisfying pred?"""
    if isinstance(v, tuple):
        if pred(v):
            return True
        for x in v:
            if isinstance(x, tuple) and contains(x, pred):
                return True
    return False


def mentions(v, t):
    return contains(v, lambda x: x == t)


def replaced(v, m):
    return rewrite(v, lambda x: m.get(x))


def rewrite(v, f):
    """Bottom-up rewriting of every sub-tuple; linear values are re-normalised."""
    if not isinstance(v, tuple):
        return v
    if len(v) == 3 and v[0] == "n" and isinstance(v[1], int) and isinstance(v[2], tuple):
        out = ("n", v[1], ())
        for a, k in v[2]:
            a2 = rewrite(a, f)
            if isinstance(a2, tuple) and len(a2) == 3 and a2[0] == "n" and isinstance(a2[1], int):
                out = add(out, scale(a2, k))
            else:
                out = add(out, ("n", 0, ((a2, k),)))
        r = f(out)
        return out if r is None else r
    w = tuple(rewrite(x, f) for x in v)
    r = f(w)
    return w if r is None else r


ANY = (-INF, INF, ())


class Facts:
    """Conjunction of bounds on linear forms. Forms are normalised: no constant, first coefficient > 0."""
    __slots__ = ("b", "_memo")

    def __init__(self, b=None):
        self.b = b if b is not None else {}
        self._memo = {}

    def copy(self):
        return Facts(dict(self.b))

    @staticmethod
    def norm(v):
        """v (linear, non-const) -> (form terms, c, sign): v == sign*form + c"""
        t = v[2]
        if t[0][1] < 0:
            return tuple((a, -k) for a, k in t), v[1], -1
        return t, v[1], 1

    def _get(self, form):
        r = self.b.get(form)
        if r is None:
            r = ANY
        if len(form) == 1 and r[0] < 0 and form[0][1] == 1:
            a = form[0][0]
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "size":
                return (0, r[1], r[2])
        return r

    def lower(self, v, depth=4):
        """A lower bound of linear value v implied by the facts."""
        if not v[2]:
            return v[1]
        key = (v, depth)
        r = self._memo.get(key)
        if r is not None:
            return r
        r = self._lower(v, depth)
        if depth == 4 and len(v[2]) > 1:
            w = self.solved(v)
            if w != v:
                r = max(r, w[1] if not w[2] else self._lower(w, depth))
        self._memo[key] = r
        return r

    def solved(self, v):
        """v with the loop variables that equalities determine replaced by what they equal."""
        m = self._memo.get("solved")
        if m is None:
            m = {}
            for f, (lo, hi, _) in self.b.items():
                if lo != hi or lo in (INF, -INF) or len(f) < 2:
                    continue
                e = sub(("n", 0, f), num(lo))
                for _ in range(3):
                    e2 = subst(e, m) if m else e
                    if e2 == e:
                        break
                    e = e2
                piv = [(a, k) for a, k in e[2] if abs(k) == 1 and isinstance(a, tuple) and a[0] == "fr"]
                if not piv:
                    continue
                a, k = max(piv, key=lambda x: repr(x[0]))
                # k*a + rest == 0
                val = scale(sub(e, ("n", 0, ((a, k),))), -k)
                m = {x: subst(y, {a: val}) for x, y in m.items()}
                m[a] = val
            self._memo["solved"] = m
        return subst(v, m) if m else v

    def _lower(self, v, depth):
        form, c, s = self.norm(v)
        lo, hi, _ = self._get(form)
        best = (lo + c) if s > 0 else (-hi + c)
        # the same form up to an integer factor
        if len(v[2]) == 1:
            a, k = v[2][0]
            lo1, hi1, _ = self._get(((a, 1),))
            x = (lo1 * k if k > 0 else hi1 * k) + c
            if x == x:
                best = max(best, x)
            if isinstance(a, tuple) and a and a[0] in ("addr",) and k > 0:
                best = max(best, k + c)
        if depth == 0:
            return best
        # eliminate the first atom with a fact that mentions it
        for a, k in v[2]:
            for f, (lo, hi, _) in self.b.items():
                if len(f) == 1 and len(v[2]) == 1:
                    continue
                kf = 0
                for x, kk in f:
                    if x == a:
                        kf = kk
                        break
                if not kf or k % kf:
                    continue
                m = k // kf
                bound = m * lo if m > 0 else m * hi
                if bound in (INF, -INF) or bound != bound:
                    continue
                rest = add(v, ("n", 0, f), -m)
                if len(rest[2]) > 3:
                    continue
                if rest == v:
                    continue
                x = self.lower(rest, depth - 1)
                if x + bound > best:
                    best = x + bound
            break
        if len(v[2]) > 1 and depth >= 3:
            # term-wise bounds
            tot = c
            for a, k in v[2]:
                lo1, hi1, _ = self._get(((a, 1),))
                tot += lo1 * k if k > 0 else hi1 * k
            if tot == tot and tot > best:
                best = tot
        return best

    def upper(self, v, depth=4):
        return -self.lower(scale(v, -1), depth)

    def nonzero(self, v):
        if not v[2]:
            return v[1] != 0
        if self.lower(v) > 0 or self.upper(v) < 0:
            return True
        form, c, s = self.norm(v)
        _, _, nq = self._get(form)
        if (-c * s) in nq:
            return True
        # addresses of distinct objects
        ads = [(a, k) for a, k in v[2] if isinstance(a, tuple) and a[0] == "addr"]
        if len(v[2]) == 2 and len(ads) == 2 and ads[0][1] + ads[1][1] == 0 and v[1] == 0:
            return distinct_locs(ads[0][0][1], ads[1][0][1], self)
        if len(v[2]) == 2 and len(ads) == 1:
            o = [(a, k) for a, k in v[2] if (a, k) != ads[0]][0]
            if o[1] == -ads[0][1] and isinstance(o[0], tuple) and o[0][0] == "in" and fresh_root(ads[0][0][1]):
                return True  # a pointer that predates the object
        # x-y != c through equality of y with a constant etc. handled by bounds
        if len(v[2]) == 2:
            (a, ka), (b, kb) = v[2]
            if abs(ka) == 1 and abs(kb) == 1:
                for p, kp, q in ((a, ka, b), (b, kb, a)):
                    lo, hi, _ = self._get(((p, 1),))
                    if lo == hi and lo not in (INF, -INF):
                        kq = kb if q == b else ka
                        w = ("n", v[1] + kp * lo, ((q, kq),))
                        f2, c2, s2 = self.norm(w)
                        if (-c2 * s2) in self._get(f2)[2]:
                            return True
        return False

    def is_zero(self, v):
        if not v[2]:
            return v[1] == 0
        return self.lower(v) == 0 and self.upper(v) == 0

    def assume(self, v, op):
        """Adds v op 0; False when contradictory."""
        if op == ">=":
            return self.assume(sub(ZERO, v), "<=")
        if op == "<":
            return self.assume(add(v, ONE), "<=")
        if op == ">":
            return self.assume(sub(ONE, v), "<=")
        if not v[2]:
            c = v[1]
            return {"<=": c <= 0, "==": c == 0, "!=": c != 0}[op]
        if op == "<=":
            if self.lower(v) > 0:
                return False
            if self.upper(v) <= 0:
                return True
            return self._bound(v, None, 0)
        if op == "==":
            if self.lower(v) > 0 or self.upper(v) < 0 or self.nonzero(v):
                return False
            if self.is_zero(v):
                return True
            return self._bound(v, 0, 0)
        if self.is_zero(v):
            return False
        if self.nonzero(v):
            return True
        lo, hi = self.lower(v), self.upper(v)
        if lo == 0:
            return self._bound(v, 1, None)
        if hi == 0:
            return self._bound(v, None, -1)
        form, c, s = self.norm(v)
        l, h, nq = self._get(form)
        self.b[form] = (l, h, tuple(sorted(set(nq) | {-c * s})))
        self._memo = {}
        return True

    def _bound(self, v, lo, hi):
        form, c, s = self.norm(v)
        l, h, nq = self._get(form)
        # v = s*form + c in [lo,hi]
        a = -INF if lo is None else lo - c
        b = INF if hi is None else hi - c
        if s < 0:
            a, b = -b, -a
        g = 0
        for _, k in form:
            k = abs(k)
            while k:
                g, k = k, g % k
            # g is gcd so far
        l, h = max(l, a), min(h, b)
        while l in nq:
            l += 1
        while h in nq:
            h -= 1
        if l > h:
            return False
        if g > 1 and l == h and l % g:
            return False
        self.b[form] = (l, h, tuple(x for x in nq if l <= x <= h))
        self._memo = {}
        # neq of the same atom pairs may have become decisive elsewhere; checked lazily
        return True

    def key(self):
        return frozenset(self.b.items())

    def join(self, o):
        """Facts valid in both."""
        b = {}
        for f, (l, h, nq) in self.b.items():
            if f in o.b:
                l2, h2, nq2 = o.b[f]
            else:
                w = ("n", 0, f)
                l2, h2, nq2 = o.lower(w), o.upper(w), ()
            L, H = min(l, l2), max(h, h2)
            N = tuple(x for x in set(nq) | set(nq2)
                      if self.nonzero(("n", -x, f)) and o.nonzero(("n", -x, f)) and L <= x <= H)
            if L > -INF or H < INF or N:
                b[f] = (L, H, tuple(sorted(N)))
        for f, (l, h, nq) in o.b.items():
            if f in self.b:
                continue
            w = ("n", 0, f)
            L, H = min(l, self.lower(w)), max(h, self.upper(w))
            N = tuple(sorted(x for x in nq if self.nonzero(("n", -x, f))))
            if L > -INF or H < INF or N:
                b[f] = (L, H, N)
        return Facts(b)


def fresh_root(L):
    return L[1][0] in ("v", "h", "t")


def distinct_locs(a, b, facts=None):
    """Provably different, non-overlapping locations."""
    if a == b:
        return False
    ra, rb = a[1], b[1]
    if ra != rb:
        if ra[0] == "d" and rb[0] == "d":
            d = sub(ra[1], rb[1])
            if facts is not None and facts.nonzero(d):
                return True
            if is_const(d):
                return d[1] != 0
            # pointers with different provenance: see ASSUMPTIONS (distinct pointer terms of
            # different bases address different objects)
            return not same_base(ra[1], rb[1])
        return True
    for x, y in zip(a[2], b[2]):
        if x == y:
            continue
        if x[0] == "f" and y[0] == "f":
            return True
        if x[0] == "e" and y[0] == "e":
            d = sub(as_num(x[1]), as_num(y[1]))
            if is_const(d):
                return d[1] != 0
            return facts is not None and facts.nonzero(d)
        return False
    return False


def ptr_base(p):
    """The address-like part of a pointer value."""
    return tuple((a, k) for a, k in p[2] if isinstance(a, tuple) and (a[0] in ("addr", "ptr") or is_ptr_atom(a)))


_ptr_atoms = set()


def mark_ptr(a):
    _ptr_atoms.add(a)


def is_ptr_atom(a):
    return a in _ptr_atoms


def same_base(p, q):
    bp, bq = ptr_base(p), ptr_base(q)
    return bp == bq


def L(root, *sels):
    return ("L", root, tuple(sels))


def at(loc, *sels):
    return ("L", loc[1], loc[2] + tuple(sels))


def addr(loc):
    """The address of a location, element addresses normalised to base + index."""
    if loc[2] and loc[2][-1][0] == "e" and is_num(as_num(loc[2][-1][1])):
        i = as_num(loc[2][-1][1])
        base = ("L", loc[1], loc[2][:-1] + (("e", ZERO),))
        return add(atom(("addr", base)), i)
    if loc[1][0] == "d" and not loc[2]:
        return loc[1][1]
    return atom(("addr", loc))


def deref(p):
    p = as_num(p)
    for a, k in p[2]:
        if k == 1 and isinstance(a, tuple) and a[0] == "addr":
            rest = sub(p, atom(a))
            loc = a[1]
            if rest == ZERO:
                return loc
            if loc[2] and loc[2][-1][0] == "e":
                return ("L", loc[1], loc[2][:-1] + (("e", add(as_num(loc[2][-1][1]), rest)),))
    return ("L", ("d", p), ())
