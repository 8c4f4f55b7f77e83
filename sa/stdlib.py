"""Transfer functions of the C++ standard library operations used by log-surgeon."""
import re

from dom import *


def _L(root, *sels):
    return ("L", root, tuple(sels))


FREE = {"begin": "begin", "end": "end", "cbegin": "cbegin", "cend": "cend", "size": "size", "ssize": "size", "empty": "empty",
        "data": "data"}
LEX = {"std::operator<=>": lambda r: r, "std::operator<": lambda r: r < 0, "std::operator>": lambda r: r > 0,
       "std::operator<=": lambda r: r <= 0, "std::operator>=": lambda r: r >= 0,
       "std::operator==": lambda r: r == 0, "std::operator!=": lambda r: r != 0}


class StdMixin:
    def std_ctor(self, st, e, cx, args):
        cls = e["cls"]
        vals = [self.val(st, a) for a in args]
        t = e.get("t", "")
        if cls in ("std::unique_ptr", "std::shared_ptr"):
            if not vals:
                return [(st, ZERO)]
            v = as_num(vals[0])
            if args[0][0] == "ref" and (e.get("move") or cls == "std::unique_ptr"):
                self.write(st, args[0][1], ZERO)
            return [(st, v)]
        if e.get("copy") or e.get("move"):
            v = vals[0] if vals else ("o", "undef")
            if e.get("move") and args[0][0] == "ref" and cls in ("std::vector", "std::deque", "std::set", "std::map"):
                self.write(st, args[0][1], ("o", "vec", ()))
            return [(st, v)]
        if cls in ("std::vector", "std::deque", "std::basic_string", "std::set", "std::unordered_map", "std::map",
                   "std::unordered_set", "std::stack", "std::queue"):
            a = [x for x, y in zip(vals, args)]
            a = self._no_alloc(e, a)
            if not a:
                return [(st, ("o", "str", "") if cls == "std::basic_string" else ("o", "vec", ()))]
            if cls == "std::basic_string":
                if len(a) == 1:
                    if a[0][0] == "o":
                        return [(st, a[0])]
                    x = self.unval(a[0])
                    return [(st, x if x is not None and x[:2] == ("o", "str") else ("o", "cstr", a[0]))]
                if len(a) == 2 and a[0][0] == "n" and a[1][0] == "n":
                    a0t = e["args"][0].get("t", "")
                    if self._is_ptr_t(a0t):
                        a1t = e["args"][1].get("t", "")
                        if self._is_ptr_t(a1t):
                            return [(st, self.mkrange(a[0], a[1]))]
                        return [(st, self.mkrange(a[0], add(a[0], a[1])))]
                    return [(st, ("o", "fill", a[0], a[1]))]
                if len(a) == 1 and a[0][0] == "o":
                    return [(st, a[0])]
                return [(st, ("o", "strctor", tuple(a)))]
            if len(a) == 1 and a[0][0] == "n":
                if cls == "std::vector":
                    return [(st, ("o", "fill", a[0], ("o", "zero")))]
            if len(a) == 2 and a[0][0] == "n" and a[1][0] == "n" and self._is_ptr_t(e["args"][0].get("t", "")):
                return [(st, self.mkrange(a[0], a[1]))]
            if len(a) == 2 and a[0][0] == "n" and cls == "std::vector":
                return [(st, ("o", "fill", a[0], a[1]))]
            if len(a) == 1:
                return [(st, a[0])]
            return [(st, ("o", "build", cls, tuple(a)))]
        if cls == "std::optional":
            if not vals or e["args"][0].get("t", "").startswith("std::nullopt_t"):
                return [(st, ("o", "none"))]
            return [(st, ("o", "some", vals[0]))]
        if cls == "std::pair":
            if len(vals) == 2:
                return [(st, ("o", "pair", vals[0], vals[1]))]
            if len(vals) == 1:
                return [(st, vals[0])]
            return [(st, ("o", "pair", ZERO, ZERO))]
        if cls == "std::tuple":
            return [(st, ("o", "tuple", tuple(vals)))]
        if cls == "std::function":
            return [(st, vals[0] if vals else ("o", "nofn"))]
        if cls in ("std::nullopt_t", "std::allocator"):
            return [(st, ("o", cls))]
        if cls in ("std::basic_string_view", "std::span"):
            if len(vals) == 1:
                return [(st, vals[0])]
            if len(vals) == 2:
                return [(st, self.mkrange(as_num(vals[0]), add(as_num(vals[0]), as_num(vals[1]))))]
        if len(vals) == 1 and cls in ("std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator",
                                      "std::_Rb_tree_iterator"):
            return [(st, vals[0])]
        if cls == "std::array" and not vals:
            return [(st, ("o", "undef"))]
        if cls == "std::initializer_list" and not vals:
            return [(st, ("o", "vec", ()))]
        if cls == "std::variant" and len(vals) == 1:
            return [(st, ("o", "variant", strip_first(e), vals[0]))]
        return [(st, ("o", "build", cls, tuple(vals)))]

    def _is_ptr_t(self, t):
        t = t.strip()
        return t.endswith("*") or "__normal_iterator" in t or t.endswith("]") or t.endswith("*const")

    def _no_alloc(self, e, vals):
        out = []
        for a, v in zip(e["args"], vals):
            if a.get("rec", "") == "std::allocator" or v == ("o", "std::allocator"):
                continue
            out.append(v)
        return out

    def mkrange(self, a, b):
        """The items in [a, b): an object term; its source bytes are those at the time it is built."""
        return ("o", "range", a, b)

    # ------------------------------------------------------------ calls
    def std_call(self, st, e, cx, q, obj, args):
        name = q.rsplit("::", 1)[-1]
        cls = q.rsplit("::", 2)[-2] if q.count("::") >= 2 else ""
        t = e.get("t", "")
        V = lambda i, tt=None: self.val(st, args[i], tt)
        if q in ("std::move", "std::forward", "std::as_const", "std::addressof"):
            if q == "std::addressof":
                return [(st, addr(args[0][1]))]
            return [(st, args[0])]
        if q == "std::" + name and name in FREE and len(args) == 1 and args[0][0] == "ref":
            r = self.free_access(st, e, cx, FREE[name], args[0][1])
            if r is not None:
                return r
        if q in ("std::min", "std::max") and len(args) >= 2:
            a, b = as_num(V(0, t)), as_num(V(1, t))
            out = []
            for s, lt in self.cmp(st, "<", a, b):
                out.append((s, a if lt == (q == "std::min") else b))
            return out
        if q in ("std::next", "std::prev") and args and self._is_ptr_t(e["args"][0].get("t", "")):
            d = as_num(V(1)) if len(args) > 1 and e["args"][1].get("k") != "defarg" else ONE
            return [(st, add(as_num(V(0)), d if q == "std::next" else scale(d, -1)))]
        if q == "std::distance" and len(args) == 2 and self._is_ptr_t(e["args"][0].get("t", "")):
            return [(st, sub(as_num(V(1)), as_num(V(0))))]
        if q == "std::advance" and len(args) == 2 and args[0][0] == "ref" and self._is_ptr_t(e["args"][0].get("t", "")):
            self.write(st, args[0][1], add(as_num(V(0)), as_num(V(1))), e, cx)
            return [(st, ("o", "void"))]
        if q == "std::exchange" and len(args) == 2 and args[0][0] == "ref":
            old = V(0)
            self.write(st, args[0][1], V(1), e, cx)
            return [(st, old)]
        if q == "std::swap" and len(args) == 2 and args[0][0] == "ref" == args[1][0]:
            a, b = V(0), V(1)
            self.write(st, args[0][1], b, e, cx)
            self.write(st, args[1][1], a, e, cx)
            return [(st, ("o", "void"))]
        if q in ("std::make_unique", "std::make_shared"):
            return self.make_obj(st, e, cx, args)
        if cls == "function" and name == "operator=" and obj is not None and args:
            self.write(st, obj, V(0), e, cx)
            return [(st, ("ref", obj))]
        if cls in ("unique_ptr", "shared_ptr"):
            p = as_num(self.read(st, obj, e["obj"].get("t", "") if not e.get("arrow") else "std::unique_ptr<>"))
            if name in ("operator->", "get"):
                return [(st, p)]
            if name == "operator*":
                if self.on_deref:
                    self.on_deref(st, p, e, cx)
                return [(st, ("ref", deref(p)))]
            if name == "<conv>" or name == "operator bool":
                return [(s, num(1 if b else 0)) for s, b in self.split(st, p)]
            if name == "release":
                self.write(st, obj, ZERO, e, cx)
                return [(st, p)]
            if name == "reset":
                self.write(st, obj, as_num(V(0)) if args else ZERO, e, cx)
                return [(st, ("o", "void"))]
            if name == "operator=":
                v = as_num(V(0)) if args else ZERO
                if args and args[0][0] == "ref" and args[0][1] != obj:
                    self.write(st, args[0][1], ZERO)
                self.write(st, obj, v, e, cx)
                return [(st, ("ref", obj))]
        if cls in ("vector", "deque", "basic_string", "array", "span", "basic_string_view", "stack", "queue", "set",
                   "map", "unordered_map", "unordered_set"):
            r = self.container(st, e, cx, cls, name, obj, args)
            if r is not None:
                return r
        if cls == "pair" and name == "operator=" and len(args) == 1:
            self.write(st, obj, V(0), e, cx)
            return [(st, ("ref", obj))]
        if cls == "optional":
            cur = self.read(st, obj)
            if name in ("has_value", "<conv>", "operator bool"):
                return self._has(st, cur)
            if name in ("value", "operator*", "operator->"):
                loc = ("L", obj[1], obj[2] + (("i",),))
                if name == "operator->":
                    return [(st, addr(loc))]
                return [(st, ("ref", loc))]
            if name in ("operator=", "emplace"):
                if not args or e["args"][0].get("t", "").startswith("std::nullopt_t"):
                    v = ("o", "none")
                else:
                    v = V(0)
                    if not (v[0] == "o" and v[1] in ("some", "none")) and not (
                            "std::optional" in e["args"][0].get("t", "")):
                        v = ("o", "some", v)
                self.write(st, obj, v, e, cx)
                return [(st, ("ref", obj))]
            if name == "reset":
                self.write(st, obj, ("o", "none"), e, cx)
                return [(st, ("o", "void"))]
        if cls == "__normal_iterator" or (cls in ("_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator",
                                                  "_Node_const_iterator") and self.read(st, obj)[0] == "n"):
            p = as_num(self.read(st, obj, "std::unique_ptr<>"))
            if name == "operator*":
                return [(st, ("ref", deref(p)))]
            if name == "operator->":
                return [(st, p)]
            if name == "operator+":
                return [(st, add(p, as_num(V(0))))]
            if name == "operator-":
                return [(st, sub(p, as_num(V(0, "long"))))]
            if name in ("operator++", "operator--"):
                self.write(st, obj, add(p, ONE if name == "operator++" else num(-1)), e, cx)
                return [(st, p if args else ("ref", obj))]
        if q in ("std::operator==", "std::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=",
                 "std::__detail::operator==") or (name in ("operator==", "operator!=") and len(args) + (obj is not None) == 2):
            a = self.val(st, args[0]) if obj is None else self.read(st, obj)
            b = self.val(st, args[-1])
            at0 = e["args"][0].get("t", "") if obj is None else e["obj"].get("t", "")
            if self.scalar(at0):
                a, b = as_num(a), as_num(b)
            if a[0] == "n" and b[0] == "n":
                r = self.split(st, sub(a, b))
                return [(s, num(1 if x == (name == "operator!=") else 0)) for s, x in r]
            if e["args"][-1].get("t", "").startswith("std::nullopt_t"):
                r = self._has(st, a)
                return [(s, v if name == "operator!=" else sub(ONE, v)) for s, v in r]
            if a == b:
                return [(st, num(1 if name == "operator==" else 0))]
            if a[0] == "o" and b[0] == "o" and a[1] == "str" and b[1] == "str":
                return [(st, num(int((a[2] == b[2]) == (name == "operator=="))))]
            x, y = sorted((a, b), key=skey)
            r = self.split(st, self._bool(st, ("eq", x, y)))
            return [(s, num(1 if tv == (name == "operator==") else 0)) for s, tv in r]
        if q == "std::operator+" and len(args) == 2:
            a, b = V(0), V(1)
            return [(st, ("o", "cat", self._str(a, e["args"][0]), self._str(b, e["args"][1])))]
        if q in ("std::back_inserter", "std::inserter") and args[0][0] == "ref":
            return [(st, ("o", "appender", args[0][1]))]
        if nm_of(cls, name) in ("copy", "copy_if", "transform", "remove_copy_if") and len(args) >= 2:
            r = self.algo_append(st, e, cx, nm_of(cls, name), args)
            if r is not None:
                return r
        if q == "std::copy" and len(args) == 3:
            first, last, dst = as_num(V(0)), as_num(V(1)), as_num(V(2))
            h = getattr(self, "on_copy", None)
            if h is not None:
                h(st, first, last, dst, e, cx)
            self.havoc_array(st, dst)
            return [(st, add(dst, sub(last, first)))]
        if q in ("std::copy_n", "memcpy", "std::memcpy", "memmove", "std::memmove") and len(args) == 3:
            if q == "std::copy_n":
                first, n, dst = as_num(V(0)), as_num(V(1)), as_num(V(2))
            else:
                dst, first, n = as_num(V(0)), as_num(V(1)), as_num(V(2))
            h = getattr(self, "on_copy", None)
            if h is not None:
                h(st, first, add(first, n), dst, e, cx)
            self.havoc_array(st, dst)
            return [(st, add(dst, n) if q == "std::copy_n" else dst)]
        if name in ("for_each", "__for_each_fn::operator()") or q in ("std::for_each", "std::ranges::__for_each_fn::operator()"):
            lamv = V(len(args) - 1)
            if lamv[0] == "lam":
                if len(args) == 3:
                    first, last = as_num(V(0)), as_num(V(1))
                    mk = lambda s1, i: deref(add(first, i))
                    n = lambda s1: sub(last, first)
                else:
                    rl = args[0][1] if args[0][0] == "ref" else self.tmp(st, args[0])
                    mk = lambda s1, i: ("L", rl[1], rl[2] + (("e", i),))
                    n = lambda s1: self.size(s1, self.read(s1, rl))
                return self.algo_loop(st, e, cx, lamv, n, mk)
        nm = cls[2:-3] if cls.startswith("__") and cls.endswith("_fn") else name
        if nm in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "find", "count_if", "count"):
            r = self.algo_pred(st, e, cx, nm, args)
            if r is not None:
                return r
        if nm in ("sort", "stable_sort"):
            r = self.algo_sort(st, e, cx, args)
            if r is not None:
                return r
        if q == "std::fill" or nm == "fill" and q.startswith("std::ranges"):
            if len(args) == 3:
                w = self.whole_loc(st, as_num(V(0)), as_num(V(1)))
            else:
                w = (args[0][1], self.size(st, self.read(st, args[0][1]))) if args[0][0] == "ref" else None
            if w is not None:
                self.write(st, w[0], ("o", "fill", w[1], V(len(args) - 1)), e, cx)
                return [(st, ("o", "void"))]
        if name in ("any_of", "all_of", "none_of", "__any_of_fn::operator()", "__all_of_fn::operator()",
                    "__none_of_fn::operator()") or (cls in ("__any_of_fn", "__all_of_fn", "__none_of_fn")):
            return [(st, self._bool(st, (cls + name,) + tuple(self.val(st, a) for a in args)))]
        if q == "std::to_string":
            return [(st, ("o", "to_string", V(0)))]
        if q == "std::make_pair" and len(args) == 2:
            return [(st, ("o", "pair", V(0), V(1)))]
        if q in ("std::tie", "std::make_tuple", "std::forward_as_tuple"):
            return [(st, ("o", "tuple", tuple(V(i) for i in range(len(args)))))]
        if q in LEX and len(args) == 2:
            r = self.lexicographic(st, q, V(0), V(1))
            if r is not None:
                return r
        if q in ("std::operator<=>", "std::operator<", "std::operator>"):
            vs = tuple(self.val(st, a) for a in args)
            if len(vs) == 2 and vs[0][0] == "n" and vs[1][0] == "n" and name in ("operator<", "operator>"):
                return [(s, num(1 if b else 0)) for s, b in self.cmp(st, name[-1], vs[0], vs[1])]
            return [(st, self._bool(st, (name,) + vs))]
        if q in ("std::holds_alternative",):
            return [(st, self._bool(st, ("holds", e.get("fn", ""), V(0))))]
        return None

    def lexicographic(self, st, q, a, b):
        """Comparison of tuples and pairs, and of the result of <=> with 0."""
        parts = lambda v: v[2] if v[:2] == ("o", "tuple") else v[2:] if v[:2] == ("o", "pair") else None
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None or len(pa) != len(pb):
            if a[:2] == ("o", "ordering"):
                return [(st, num(1 if LEX[q](a[2]) else 0))]
            return None
        if any(x[0] != "n" for x in pa + pb):
            return None
        out, todo = [], [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == len(pa):
                out.append((s, 0))
                continue
            for s2, lt in self.cmp(s, "<", pa[i], pb[i]):
                if lt:
                    out.append((s2, -1))
                    continue
                for s3, gt in self.cmp(s2, ">", pa[i], pb[i]):
                    if gt:
                        out.append((s3, 1))
                    else:
                        todo.append((s3, i + 1))
        if q == "std::operator<=>":
            return [(s, ("o", "ordering", r)) for s, r in out]
        return [(s, num(1 if LEX[q](r) else 0)) for s, r in out]

    def algo_append(self, st, e, cx, nm, args):
        """copy, copy_if, transform of a range to the end of a vector: each element in order."""
        dsts = [i for i, a in enumerate(args) if self.val(st, a)[:2] == ("o", "appender")]
        if len(dsts) != 1 or dsts[0] not in (1, 2):
            return None
        d = dsts[0]
        dst = self.val(st, args[d])[2]
        lamv = self.val(st, args[d + 1]) if len(args) > d + 1 else None
        if (nm != "copy") != (lamv is not None and lamv[0] == "lam"):
            return None
        if d == 2:
            first, last = as_num(self.val(st, args[0])), as_num(self.val(st, args[1]))
            mk = lambda s1, i: deref(add(first, i))
            n = lambda s1: sub(last, first)
        else:
            rl = args[0][1] if args[0][0] == "ref" else self.tmp(st, args[0])
            mk = lambda s1, i: ("L", rl[1], rl[2] + (("e", i),))
            n = lambda s1: self.size(s1, self.read(s1, rl))
        et = first_targ(e["args"][0].get("t", "")) or ""
        if "__normal_iterator" in e["args"][0].get("t", "") and et.rstrip().endswith("*"):
            et = et.rstrip()[:-1].strip()
        push = {"k": "call", "q": "std::vector::push_back", "fn": "", "l": e.get("l", 0), "t": "void", "pm": ["c"],
                "args": [{"k": "other", "t": ""}], "obj": {"k": "other", "t": "std::vector<>"}}

        def one(s1, i, c2):
            el = mk(s1, i)
            tl = self.tmp(s1, lamv) if lamv is not None else None
            outs = []
            if nm == "transform":
                for s2, v in self.call_lambda(s1, lamv[1], [("ref", el)], cx, tl):
                    outs.append((s2, self.val(s2, v)))
            elif nm == "copy":
                outs.append((s1, self.read(s1, el, et)))
            else:
                for s2, v in self.call_lambda(s1, lamv[1], [("ref", el)], cx, tl):
                    for s3, b in self.split(s2, as_num(self.val(s2, v))):
                        outs.append((s3, self.read(s3, el, et) if b == (nm == "copy_if") else None))
            res = []
            for s2, v in outs:
                if v is None:
                    res.append(s2)
                else:
                    res += [s3 for s3, _ in self.apply(s2, push, cx, push["q"], dst, [v])]
            return res
        d0 = n(st)
        if is_const(d0) and 0 <= d0[1] <= 64:
            live = [st]
            for i in range(d0[1]):
                live = [s2 for s1 in live for s2 in one(s1, num(i), cx)]
            return [(s1, ("o", "appender", dst)) for s1 in live]
        return self.algo_loop(st, e, cx, lamv or ("o", "none"), n, mk, one)

    def algo_loop(self, st, e, cx, lamv, n, mk, one=None):
        """for_each: the callable is applied to every element of the range in order."""
        ctr = _L(("v", cx.owner, "#alg%d_%d" % (e.get("l", 0), st.n)))
        st.n += 1
        self.write(st, ctr, ZERO)
        cond = lambda s1: self.cmp(s1, "<", self.read(s1, ctr, "unsigned long"), n(s1))

        def body(s1):
            i = as_num(self.read(s1, ctr, "unsigned long"))
            if one is not None:
                return [("next", s2, None) for s2 in one(s1, i, cx)]
            tl = self.tmp(s1, lamv)
            return [("next", s2, None) for s2, _ in self.call_lambda(s1, lamv[1], [("ref", mk(s1, i))], cx, tl)]

        def inc(s1):
            self.write(s1, ctr, add(self.read(s1, ctr), ONE))
            return [s1]
        node = {"k": "algo", "l": e.get("l", 0), "body": self.m.lambdas[lamv[1]]["body"] if lamv[0] == "lam" and lamv[1] in self.m.lambdas else None}
        return [(s2, ("o", "void")) for kind, s2, _ in self.loop(st, node, cond, body, inc, cx)]

    def _bool(self, st, term):
        a = atom(term)
        f = a[2]
        if f not in st.facts.b:
            st.facts.b[f] = (0, 1, ())
            st.facts._memo = {}
        return a

    def _has(self, st, cur):
        if cur[0] == "upd":
            return [(st, ONE)]
        if cur[0] == "o" and cur[1] == "some":
            return [(st, ONE)]
        if cur[0] == "o" and cur[1] == "none":
            return [(st, ZERO)]
        return [(st, self._bool(st, ("has", cur)))]

    @staticmethod
    def unval(v):
        """The object a number stands for."""
        if v[0] == "n" and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            a = v[2][0][0]
            if isinstance(a, tuple) and a[:1] == ("val",):
                return a[1]
        return None

    def _str(self, v, node):
        if v[0] == "n":
            if node.get("t", "").strip().endswith("*") or node.get("t", "").strip().endswith("]"):
                return ("o", "cstr", v)
            return ("o", "chr", v)
        return v

    def havoc_array(self, st, p):
        """The elements p points into hold unknown values from now on."""
        loc = deref(p)
        if loc[1][0] == "d" and not loc[2]:
            b = ptr_base(loc[1][1])
            for k in [k for k in st.store if k[1][0] == "d" and ptr_base(k[1][1]) == b]:
                del st.store[k]
            st.n += 1
            st.epoch[b] = st.n
            return
        if loc[2] and loc[2][-1][0] == "e":
            base = ("L", loc[1], loc[2][:-1])
            n = len(base[2])
            for k in [k for k in st.store if k[1] == base[1] and k[2][:n] == base[2]]:
                del st.store[k]
            st.store[base] = ("o", "fr", "copied", st.fresh())

    def container(self, st, e, cx, cls, name, obj, args):
        V = lambda i, tt=None: self.val(st, args[i], tt)
        t = e.get("t", "")
        if obj is None:
            return None
        if name in ("size", "length"):
            n = array_len(e["obj"].get("t", "")) if cls == "array" else None
            if n is not None:
                return [(st, num(n))]
            return [(st, self.size(st, self.read(st, obj)))]
        if name == "empty":
            r = self.split(st, self.size(st, self.read(st, obj)))
            return [(s, num(0 if b else 1)) for s, b in r]
        seq = cls in ("vector", "deque", "basic_string", "array", "span", "basic_string_view")
        if name in ("operator[]", "at") and seq:
            out = []
            i = as_num(V(0, "unsigned long"))
            if name == "at":
                n = array_len(e["obj"].get("t", "")) if cls == "array" else None
                over = add(sub(i, num(n) if n is not None else self.size(st, self.read(st, obj))), ONE)
                bad = st.copy()
                if bad.facts.assume(sub(over, ONE), ">="):
                    bad.ghost["over"] = sub(over, ONE)
                    self.throws.append((bad, e, cx))
                if not st.facts.assume(over, "<="):
                    return []
            if name == "operator[]" and self.on_index:
                self.on_index(st, obj, i, e, cx)
            if cls in ("span", "basic_string_view"):
                cur = self.read(st, obj)
                if cur[:2] == ("o", "range"):
                    return [(st, ("ref", deref(add(cur[2], i))))]
            return [(st, ("ref", ("L", obj[1], obj[2] + (("e", i),))))]
        if name in ("front", "back") and cls in ("vector", "deque", "basic_string", "array"):
            sz = self.size(st, self.read(st, obj))
            if self.on_index:
                self.on_index(st, obj, ZERO if name == "front" else sub(sz, ONE), e, cx)
            i = ZERO if name == "front" else sub(sz, ONE)
            return [(st, ("ref", ("L", obj[1], obj[2] + (("e", i),))))]
        if seq and name in ("data", "c_str", "begin", "cbegin"):
            cur = self.read(st, obj)
            if cls in ("basic_string_view", "span") and cur[0] == "o" and cur[1] == "range":
                return [(st, cur[2])]
            return [(st, addr(("L", obj[1], obj[2] + (("e", ZERO),))))]
        if seq and name in ("end", "cend"):
            cur = self.read(st, obj)
            if cls in ("basic_string_view", "span") and cur[0] == "o" and cur[1] == "range":
                return [(st, cur[3])]
            n = array_len(e["obj"].get("t", "")) if cls == "array" else None
            return [(st, add(addr(("L", obj[1], obj[2] + (("e", ZERO),))),
                             num(n) if n is not None else self.size(st, cur)))]
        if name == "<conv>" and cls in ("basic_string", "basic_string_view"):
            return [(st, self.read(st, obj))]
        if name == "clear" or (name == "pop" and False):
            self.write(st, obj, ("o", "vec", ()) if cls != "basic_string" else ("o", "str", ""), e, cx)
            return [(st, ("o", "void"))]
        if name in ("push_back", "emplace_back") and cls in ("vector", "deque", "basic_string"):
            cur = self.read(st, obj)
            sz = self.size(st, cur)
            if name == "push_back":
                v = V(0, e["args"][0].get("t", ""))
                if args[0][0] == "ref" and e["pm"] and e["pm"][0] == "m" and self.scalar(e["args"][0].get("t", "")):
                    tt = e["args"][0].get("t", "")
                    if "unique_ptr" in tt:
                        self.write(st, args[0][1], ZERO)
                if cls == "basic_string":
                    self.write(st, obj, ("o", "cat", cur, ("o", "chr", v)), e, cx)
                    return [(st, ("o", "void"))]
            else:
                outs = []
                for s1, v in self.emplaced(st, e, args, cx):
                    self.write(s1, obj, ("o", "push", cur, v), e, cx)
                    outs.append((s1, ("ref", ("L", obj[1], obj[2] + (("e", sz),)))))
                return outs
            self.write(st, obj, ("o", "push", cur, v), e, cx)
            return [(st, ("o", "void"))]
        if name == "pop_back":
            cur = self.read(st, obj)
            v = cur[2] if cur[0] == "o" and cur[1] == "push" else ("o", "pop", cur)
            self.write(st, obj, v, e, cx)
            return [(st, ("o", "void"))]
        if cls in ("stack", "queue"):
            cur = self.read(st, obj)
            sz = self.size(st, cur)
            if name in ("push", "emplace"):
                v = V(0) if args else ("o", "undef")
                self.write(st, obj, ("o", "push", cur, v), e, cx)
                return [(st, ("o", "void"))]
            if name in ("top", "back"):
                return [(st, ("ref", ("L", obj[1], obj[2] + (("e", sub(sz, ONE)),))))]
            if name == "front":
                return [(st, ("ref", ("L", obj[1], obj[2] + (("e", ZERO),))))]
            if name == "pop":
                if cls == "stack" and cur[0] == "o" and cur[1] == "push":
                    v = cur[2]
                else:
                    v = ("o", "pop", cur) if cls == "stack" else ("o", "popf", cur)
                self.write(st, obj, v, e, cx)
                return [(st, ("o", "void"))]
        if name == "resize":
            self.write(st, obj, ("o", "resize", self.read(st, obj), as_num(V(0))), e, cx)
            return [(st, ("o", "void"))]
        if name == "reserve" or name == "shrink_to_fit":
            return [(st, ("o", "void"))]
        if name == "fill" and cls == "array":
            n = array_len(e["obj"].get("t", ""))
            if n is not None:
                self.write(st, obj, ("o", "fill", num(n), V(0)), e, cx)
                return [(st, ("o", "void"))]
        if name == "assign" and len(args) == 2:
            a, b = V(0), V(1)
            if self._is_ptr_t(e["args"][0].get("t", "")):
                last = as_num(b) if self._is_ptr_t(e["args"][1].get("t", "")) else add(as_num(a), as_num(b))
                self.write(st, obj, self.mkrange(as_num(a), last), e, cx)
            else:
                self.write(st, obj, ("o", "fill", as_num(a), b), e, cx)
            return [(st, ("ref", obj))]
        if name == "operator=":
            v = V(0)
            if len(e["args"]) and v[0] == "n" and cls == "basic_string":
                v = self._str(v, e["args"][0])
            if args[0][0] == "ref" and e["pm"] and e["pm"][0] == "m" and args[0][1] != obj:
                self.write(st, args[0][1], ("o", "vec", ()) if cls != "basic_string" else ("o", "str", ""))
            self.write(st, obj, v, e, cx)
            return [(st, ("ref", obj))]
        if cls == "basic_string" and name in ("operator+=", "append"):
            cur = self.read(st, obj)
            vs = [V(i) for i in range(len(args))]
            if len(vs) == 1:
                v = self._str(vs[0], e["args"][0])
            elif len(vs) == 2 and self._is_ptr_t(e["args"][0].get("t", "")):
                b = as_num(vs[1]) if self._is_ptr_t(e["args"][1].get("t", "")) else add(as_num(vs[0]), as_num(vs[1]))
                v = self.mkrange(as_num(vs[0]), b)
            else:
                v = ("o", "appended", tuple(vs))
            self.write(st, obj, ("o", "cat", cur, v), e, cx)
            return [(st, ("ref", obj))]
        if name == "insert" and cls == "vector":
            vs = tuple(V(i) for i in range(len(args)))
            cur = self.read(st, obj)
            whole = None
            if len(vs) == 3 and all(v[0] == "n" for v in vs) and st.facts.is_zero(
                    sub(as_num(vs[0]), add(addr(("L", obj[1], obj[2] + (("e", ZERO),))), self.size(st, cur)))):
                whole = self.whole_range(st, vs[1], vs[2])
            self.write(st, obj, self.joined(cur, whole) if whole is not None else
                       ("o", "inserted", cur, vs, st.fresh()), e, cx)
            return [(st, atom(st.fresh("it")))]
        if cls in ("basic_string_view", "span") and name in ("substr", "subspan", "copy", "remove_prefix", "remove_suffix", "first", "last"):
            cur = self.read(st, obj)
            if cur[:2] == ("o", "range"):
                a, b = cur[2], cur[3]
                ns = [as_num(V(i)) for i in range(len(args))]
                whole = len(ns) < 2 or ns[1] in (num(-1), num(2 ** 64 - 1)) if name != "copy" else False
                if name == "remove_prefix":
                    self.write(st, obj, self.mkrange(add(a, ns[0]), b), e, cx)
                    return [(st, ("o", "void"))]
                if name == "remove_suffix":
                    self.write(st, obj, self.mkrange(a, sub(b, ns[0])), e, cx)
                    return [(st, ("o", "void"))]
                if name in ("first", "last"):
                    return [(st, self.mkrange(a, add(a, ns[0])) if name == "first" else self.mkrange(sub(b, ns[0]), b))]
                if name == "copy":
                    p = ns[2] if len(ns) > 2 else ZERO
                    out = []
                    for s, lt in self.cmp(st, "<", ns[1], sub(sub(b, a), p)):
                        n = ns[1] if lt else sub(sub(b, a), p)
                        if getattr(self, "on_copy", None):
                            self.on_copy(s, add(a, p), add(add(a, p), n), ns[0], e, cx)
                        else:
                            self.write(s, deref(ns[0]), ("o", "bytes", add(a, p), n), e, cx)
                        out.append((s, n))
                    return out
                p = ns[0] if ns else ZERO
                if whole:
                    return [(st, self.mkrange(add(a, p), b))]
                out = []
                for s, lt in self.cmp(st, "<", ns[1], sub(sub(b, a), p)):
                    out.append((s, self.mkrange(add(a, p), add(add(a, p), ns[1]) if lt else b)))
                return out
        if cls == "basic_string" and name == "substr":
            cur = self.read(st, obj)
            ns = [as_num(V(i)) for i in range(len(args))]
            if len(ns) == 2 and ns[1] in (num(-1), num(2 ** 64 - 1)):
                ns.pop()
            if cur[0] == "o" and cur[1] in ("vec", "str") and all(is_const(x) and x[1] >= 0 for x in ns) and \
                    (not ns or ns[0][1] <= len(cur[2])):
                a = ns[0][1] if ns else 0
                return [(st, ("o", cur[1], cur[2][a:a + ns[1][1]] if len(ns) > 1 else cur[2][a:]))]
            return [(st, ("o", "substr", self.read(st, obj), tuple(V(i) for i in range(len(args)))))]
        if cls in ("map", "unordered_map"):
            cur = self.read(st, obj)
            if name in ("operator[]", "at"):
                k = as_num(V(0))
                return [(st, ("ref", ("L", obj[1], obj[2] + (("e", k),))))]
            if name in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                vs = tuple(V(i) for i in range(len(args)))
                self.write(st, obj, ("o", "ins", cur, vs), e, cx)
                return [(st, ("o", "insres", cur, vs))]
            if name == "find":
                return [(st, ("o", "find", cur, V(0)))]
            if name in ("end", "cend", "begin", "cbegin"):
                return [(st, self.position(st, obj, cur, name))]
        if cls in ("set", "unordered_set"):
            cur = self.read(st, obj)
            if name in ("insert", "emplace"):
                vs = tuple(V(i) for i in range(len(args)))
                self.write(st, obj, ("o", "ins", cur, vs), e, cx)
                return [(st, ("o", "insres", cur, vs))]
            if name == "find":
                return [(st, ("o", "find", cur, V(0)))]
            if name in ("count", "contains"):
                return [(st, self._bool(st, ("contains", cur, V(0))))]
            if name in ("end", "cend", "begin", "cbegin"):
                return [(st, self.position(st, obj, cur, name))]
        return None

    def free_access(self, st, e, cx, name, loc):
        """std::begin(c) and its kind, as the member of the same name; of a built-in array, its elements."""
        t = e["args"][0].get("t", "").replace("const ", "").rstrip("& ")
        m = re.search(r"\[(\d+)\]$", t)
        if m:
            p = addr(("L", loc[1], loc[2] + (("e", ZERO),)))
            n = num(int(m.group(1)))
            return [(st, {"begin": p, "cbegin": p, "data": p, "end": add(p, n), "cend": add(p, n), "size": n,
                          "empty": ZERO}[name])]
        c = t.split("<", 1)[0]
        c = {"std::string": "std::basic_string", "std::string_view": "std::basic_string_view"}.get(c, c)
        if not c.startswith("std::"):
            return None
        q = c + "::" + name
        return self.std_call(st, dict(e, q=q, obj=e["args"][0], args=[], pm=[]), cx, q, loc, [])

    def whole_loc(self, st, a, b):
        """The place of the container whose elements [a, b) are, when the range covers it entirely."""
        if len(a[2]) != 1 or a[1] or a[2][0][1] != 1 or a[2][0][0][0] != "addr":
            return None
        l = a[2][0][0][1]
        if not l[2] or l[2][-1] != ("e", ZERO):
            return None
        loc = ("L", l[1], l[2][:-1])
        d = sub(b, a)
        return (loc, d) if is_const(d) or st.facts.is_zero(sub(d, self.size(st, self.read(st, loc)))) else None

    def algo_sort(self, st, e, cx, args):
        """A sort, by a comparison given as a lambda, of a container whose elements are listed; None when they are not."""
        vals = [self.val(st, a) for a in args]
        k = next((i for i, v in enumerate(vals) if v[0] == "lam"), None)
        if k is None:
            return None
        lamv = vals[k]
        if k == 2:
            a, b = as_num(vals[0]), as_num(vals[1])
            if len(a[2]) != 1 or a[1] or a[2][0][1] != 1 or a[2][0][0][0] != "addr":
                return None
            l = a[2][0][0][1]
            if not l[2] or l[2][-1] != ("e", ZERO):
                return None
            loc, n = ("L", l[1], l[2][:-1]), sub(b, a)
        elif k == 1 and args[0][0] == "ref":
            loc = args[0][1]
            n = self.size(st, self.read(st, loc))
        else:
            return None
        total = self.size(st, self.read(st, loc))
        if not is_const(n) or not is_const(total) or not 0 <= n[1] <= min(6, total[1]):
            return None
        old = [self.read(st, ("L", loc[1], loc[2] + (("e", num(i)),))) for i in range(total[1])]
        outs = [(st, [])]
        for x in old[:n[1]]:
            nxt = []
            for s, done in outs:
                todo = [(s, 0)]
                while todo:
                    s1, i = todo.pop()
                    if i == len(done):
                        nxt.append((s1, done + [x]))
                        continue
                    tl = self.tmp(s1, lamv)
                    for s2, v in self.call_lambda(s1, lamv[1], [("ref", self.tmp(s1, x)), ("ref", self.tmp(s1, done[i]))], cx, tl):
                        for s3, less in self.split(s2, as_num(self.val(s2, v))):
                            if less:
                                nxt.append((s3, done[:i] + [x] + done[i:]))
                            else:
                                todo.append((s3, i + 1))
            outs = nxt
        for s, d in outs:
            self.write(s, loc, ("o", "vec", tuple(d + old[n[1]:])), e, cx)
        return [(s, ("o", "void")) for s, _ in outs]

    def algo_pred(self, st, e, cx, nm, args):
        """A search or quantifier over a range whose elements are listed; None when they are not."""
        k = len(args)
        lamv = self.val(st, args[k - 1])
        byval = nm in ("find", "count")
        if not byval and lamv[0] != "lam":
            return None
        if k == 3:
            a, b = as_num(self.val(st, args[0])), as_num(self.val(st, args[1]))
            d = sub(b, a)
            if not is_const(d):
                return self.algo_search(st, e, cx, nm, lamv, byval, lambda s1: d, lambda i: deref(add(a, i)), lambda i: add(a, i))
            n = d[1]
            mk = lambda i: deref(add(a, num(i)))
            it = lambda i: add(a, num(i))
        elif k == 2 and args[0][0] == "ref":
            rl = args[0][1]
            d = self.size(st, self.read(st, rl))
            if not is_const(d):
                mk = lambda i: ("L", rl[1], rl[2] + (("e", i),))
                return self.algo_search(st, e, cx, nm, lamv, byval, lambda s1: self.size(s1, self.read(s1, rl)), mk, lambda i: addr(mk(i)))
            n = d[1]
            mk = lambda i: ("L", rl[1], rl[2] + (("e", num(i)),))
            it = lambda i: addr(mk(i))
        else:
            return None
        if not 0 <= n <= 64:
            return None
        want = nm in ("any_of", "none_of", "find_if", "find")
        outs = []
        live = [(st, 0)]
        for i in range(n):
            nxt = []
            for s1, c in live:
                if byval:
                    rs = [(s2, None, x) for s2, x in self.split(s1, sub(as_num(self.read(s1, mk(i))), as_num(lamv)))]
                    rs = [(s2, not x) for s2, _, x in rs]
                else:
                    tl = self.tmp(s1, lamv)
                    rs = []
                    for s2, v in self.call_lambda(s1, lamv[1], [("ref", mk(i))], cx, tl):
                        rs += self.split(s2, as_num(self.val(s2, v)))
                for s2, x in rs:
                    if nm in ("count_if", "count"):
                        nxt.append((s2, c + (1 if x else 0)))
                    elif x == want:
                        outs.append((s2, it(i) if nm.startswith("find") else num(1 if nm == "any_of" else 0)))
                    else:
                        nxt.append((s2, 0))
            live = nxt
        for s1, c in live:
            outs.append((s1, it(n) if nm.startswith("find") else num(c if nm.startswith("count") else
                                                                     0 if nm == "any_of" else 1)))
        return outs

    def algo_search(self, st, e, cx, nm, lamv, byval, n, mk, it):
        """A search or quantifier over a range of any length: the loop that looks at one element after the other."""
        if nm.startswith("count"):
            return None
        ctr, hit = (_L(("v", cx.owner, "#%s%d_%d" % (x, e.get("l", 0), st.n))) for x in ("alg", "hit"))
        st.n += 1
        self.write(st, ctr, ZERO)
        self.write(st, hit, ZERO)
        want = nm in ("any_of", "none_of", "find_if", "find")
        at_ = lambda s1: as_num(self.read(s1, ctr, "unsigned long"))
        cond = lambda s1: self.cmp(s1, "<", at_(s1), n(s1))

        def body(s1):
            x = mk(at_(s1))
            if byval:
                rs = [(s2, not b) for s2, b in self.split(s1, sub(as_num(self.read(s1, x)), as_num(lamv)))]
            else:
                tl = self.tmp(s1, lamv)
                rs = [y for s2, v in self.call_lambda(s1, lamv[1], [("ref", x)], cx, tl) for y in self.split(s2, as_num(self.val(s2, v)))]
            out = []
            for s2, b in rs:
                if b == want:
                    self.write(s2, hit, ONE)
                out.append(("break" if b == want else "next", s2, None))
            return out

        def inc(s1):
            self.write(s1, ctr, add(self.read(s1, ctr), ONE))
            return [s1]
        node = {"k": "algo", "l": e.get("l", 0), "body": None if byval else self.m.lambdas[lamv[1]]["body"]}
        outs = []
        for kind, s2, _ in self.loop(st, node, cond, body, inc, cx):
            found = as_num(self.read(s2, hit)) == ONE
            outs.append((s2, it(at_(s2)) if nm.startswith("find") else num(1 if found == (nm == "any_of") else 0)))
        return outs

    def whole_range(self, st, a, b):
        """The container whose elements [a, b) are, all of them; None when that cannot be told."""
        if len(a[2]) != 1 or a[1] or a[2][0][1] != 1 or a[2][0][0][0] != "addr":
            return None
        l = a[2][0][0][1]
        if not l[2] or l[2][-1] != ("e", ZERO):
            return None
        c = self.read(st, ("L", l[1], l[2][:-1]))
        return c if c[0] == "o" and st.facts.is_zero(sub(sub(b, a), self.size(st, c))) else None

    def joined(self, a, b):
        """The elements of a followed by those of b."""
        if b[0] == "o" and b[1] == "vec":
            for x in b[2]:
                a = ("o", "push", a, x)
            return a
        if a == ("o", "vec", ()):
            return b
        return ("o", "joined", a, b)

    def position(self, st, obj, cur, name):
        """begin() and end() of a set or map: positions in the order it is walked."""
        p = addr(("L", obj[1], obj[2] + (("e", ZERO),)))
        return p if "begin" in name else add(p, self.size(st, cur))

    def _emplaced(self, st, e, args):
        vs = [self.val(st, a) for a in args]
        if len(vs) == 1 and not (vs[0][0] == "n" and "std::vector<std::vector" in e["obj"].get("t", "")):
            ot = e["obj"].get("t", "")
            if "unique_ptr" in ot and args[0][0] == "ref":
                self.write(st, args[0][1], ZERO)
            return vs[0]
        if len(vs) == 1:
            return ("o", "fill", vs[0], ("o", "zero"))
        ot = e["obj"].get("t", "")
        if len(vs) == 2 and first_targ(ot).startswith("std::pair<"):
            return ("o", "pair", vs[0], vs[1])
        return ("o", "new", "elem", tuple(vs))

    def emplaced(self, st, e, args, cx):
        """Elements of repository class type are built by their own constructor."""
        inner = first_targ(e["obj"].get("t", ""))
        rec = self.m.rec_by_t.get(inner)
        if rec is None or not args or (len(args) == 1 and e["args"][0].get("rec") == rec["q"]):
            return [(st, self._emplaced(st, e, args))]
        cands = self.ctors(rec["q"], inner, e, len(args))
        if not cands or cands[0]["id"] in cx.stack:
            return [(st, self._emplaced(st, e, args))]
        loc = self.tmp(st, ("o", "undef"))
        out = []
        for s1, _ in self.invoke(st, cands[0], loc, self.converted(st, cands[0], e, args), cx):
            v = self.read(s1, loc)
            self.drop(s1, lambda x: x[1] == loc[1])
            out.append((s1, v))
        return out

    def converted(self, st, f, e, args):
        """Forwarded arguments as the constructor's parameters receive them (values become optionals)."""
        out = []
        for i, a in enumerate(args):
            pt = f["params"][i]["t"] if i < len(f["params"]) else ""
            at_ = e["args"][i].get("t", "") if i < len(e["args"]) else ""
            if pt.replace("const ", "").startswith("std::optional<") and "std::optional<" not in at_:
                v = self.val(st, a)
                if not (v[0] == "o" and v[1] in ("some", "none")):
                    v = ("o", "none") if "nullopt" in at_ else ("o", "some", v)
                a = ("ref", self.tmp(st, v)) if pt.endswith("&") else v
            out.append(a)
        return out

    def ctors(self, cls, inner, e, n):
        cands = [f for f in self.m.functions.values()
                 if f["q"] == cls + "::<ctor>" and f.get("clst") == inner and len(f["params"]) == n
                 and not f.get("movector") and not f.get("copyctor") and not f.get("defaulted")]
        if len(cands) > 1:
            cands = self.best(cands, e["args"])
        return cands

    def make_obj(self, st, e, cx, args):
        """make_unique / make_shared: allocates and constructs."""
        t = e.get("t", "")
        m = re.match(r"std::(?:unique_ptr|shared_ptr)<(.*)>$", t)
        inner = m.group(1) if m else "?"
        # strip the default_delete argument
        depth = 0
        for i, ch in enumerate(inner):
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif ch == "," and depth == 0:
                inner = inner[:i]
                break
        inner = inner.replace(" const", "").strip()
        st.n += 1
        loc = _L(("h", st.n))
        rec = self.m.rec_by_t.get(inner)
        cls = rec["q"] if rec else inner
        st.cls[loc[1]] = cls
        h = self.hooks.get("new " + cls)
        if h is not None:
            r = h(self, st, e, cx, loc, args)
            if r is not None:
                return r
        cands = [f for f in self.m.functions.values()
                 if f["q"] == cls + "::<ctor>" and f.get("clst") == inner and len(f["params"]) == len(args)
                 and not f.get("movector") and not f.get("copyctor")]
        copyc = [f for f in self.m.functions.values()
                 if f["q"] == cls + "::<ctor>" and f.get("clst") == inner and len(args) == 1
                 and (f.get("copyctor") or f.get("movector")) and e["args"][0].get("rec") == cls]
        if copyc:
            f = copyc[0]
            if f.get("defaulted"):
                self.write(st, loc, self.val(st, args[0]))
                return [(st, addr(loc))]
            cands = [f]
        if len(cands) > 1:
            cands = self.best(cands, e["args"])
        if len(cands) >= 1 and cands[0]["id"] not in cx.stack:
            # an object without a constructor of its own is zeroed first
            self.write(st, loc, ("o", "zero") if not args and cands[0].get("defaulted") else ("o", "undef"))
            out = []
            for s, _ in self.invoke(st, cands[0], loc, args, cx):
                out.append((s, addr(loc)))
            return out
        self.write(st, loc, ("o", "new", cls, tuple(self.val(st, a) for a in args)))
        return [(st, addr(loc))]

    def best(self, cands, args):
        """The candidate the arguments convert to with the least effort."""
        rank = []
        for f in cands:
            sc = [self._conv(p, a) for p, a in zip(f["params"], args)]
            if None not in sc:
                rank.append((sum(sc), f))
        if not rank:
            return cands
        top = max(r for r, _ in rank)
        return [f for r, f in rank if r == top]

    ARITH = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long",
             "unsigned long", "long long", "unsigned long long", "float", "double", "char8_t", "char16_t", "char32_t",
             "wchar_t"}

    def _conv(self, p, a):
        if self._targ(p, a):
            return 4
        pt, at_ = (x.get("t", "").replace("const ", "").replace("&", "").strip() for x in (p, a))
        pa, aa = pt in self.ARITH, at_ in self.ARITH
        if pa or aa:
            return 2 if pa and aa else (1 if at_ not in self.ARITH and not self._ptrlike(at_) and not
                                        self._ptrlike(pt) and not pt.startswith("std::") and
                                        not at_.startswith("std::") else None)
        if self._ptrlike(pt) != self._ptrlike(at_) and "nullptr" not in at_:
            return None
        return 1

    @staticmethod
    def _ptrlike(t):
        return t.endswith("*") or "[" in t

    def _targ(self, p, a):
        pt = p["t"].replace("const ", "").replace("&", "").strip()
        at_ = a.get("t", "").replace("const ", "").replace("&", "").strip()
        return pt == at_


def strip_first(e):
    return e["args"][0].get("t", "") if e.get("args") else ""


def nm_of(cls, name):
    """The algorithm a call names: a function of std:: or the callable object of std::ranges."""
    return cls[2:-3] if cls.startswith("__") and cls.endswith("_fn") else name


def first_targ(t):
    """The first template argument of a type name."""
    i = t.find("<")
    if i < 0:
        return ""
    depth, j = 0, i
    for j in range(i, len(t)):
        ch = t[j]
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
            if depth == 0:
                break
        elif ch == "," and depth == 1:
            break
    return t[i + 1:j].strip()


def array_len(t):
    """N of std::array<T, N>."""
    m = re.search(r"array<.*,\s*(\d+)\w*>[&\s]*$", t)
    return int(m.group(1)) if m else None
