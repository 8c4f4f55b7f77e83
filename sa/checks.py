"""Obligation bookkeeping, evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

import model as model_mod
from dom import *
from interp import Interp, State, Cx
from model import AnalysisBroken, VERIF

FINDINGS = os.path.join(VERIF, "known_findings.txt")
P = "log_surgeon::"
FA = "log_surgeon::finite_automata::"


class Ctx:
    def __init__(self, pid, m):
        self.pid, self.m = pid, m
        self.obligations = []     # (rule, key, where, ok, detail)
        self.functions = set()
        self.calls = 0
        self.interps = 0
        self.steps = 0
        self.paths = 0
        self.unknown = {}
        self.assume = []
        self._cg = None

    @property
    def cg(self):
        if self._cg is None:
            self._cg = model_mod.CallGraph(self.m)
        return self._cg

    def check(self, rule, key, where, ok, detail=""):
        """One obligation: `key` names the instance independently of line numbers."""
        self.obligations.append((rule, key, where, bool(ok), detail))
        return ok

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def interp(self, hooks=None, opaque=(), pure=()):
        I = Interp(self.m, hooks, opaque, pure)
        self._ints = getattr(self, "_ints", [])
        self._ints.append(I)
        return I

    def run(self, I, f, **kw):
        r = I.run(f, **kw)
        self.paths += len(r)
        self.functions.add(f["q"])
        return r

    def note_fn(self, f):
        self.functions.add(f["q"])

    def where(self, f, line=None):
        return self.m.loc(f, line)

    def close(self):
        for I in getattr(self, "_ints", []):
            self.functions |= {q for q in I.functions_seen}
            self.calls += I.calls_seen
            self.steps += I.steps
            self.interps += 1
            for q, n in I.unknown.items():
                self.unknown[q] = self.unknown.get(q, 0) + n


# ---------------------------------------------------------------- printing terms
def show(v):
    if v is None:
        return "?"
    if v[0] == "n":
        s = ""
        for a, k in v[2]:
            x = show_atom(a)
            t = x if abs(k) == 1 else "%d*%s" % (abs(k), x)
            s += (" - " if k < 0 else " + " if s else "") + t
        if v[1] or not s:
            s += (" %s " % ("-" if v[1] < 0 else "+") if s else ("-" if v[1] < 0 else "")) + str(abs(v[1]))
        return s.strip()
    if v[0] == "ref":
        return "&" + show_loc(v[1])
    if v[0] == "upd":
        return "{%s with %s}" % (show(v[1]), ", ".join("%s=%s" % (show_sels(s), show(x)) for s, x in v[2]))
    if v[0] == "lam":
        return "<lambda>"
    if v[0] == "o":
        if v[1] == "in":
            return show_loc(v[2])
        if v[1] == "str":
            return repr(v[2])
        if v[1] == "range":
            return "bytes[%s, %s)" % (show(v[2]), show(v[3]))
        if v[1] == "sel":
            return show(v[2]) + show_sels(v[3])
        return "%s(%s)" % (v[1], ", ".join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x)
                                           for x in v[2:]))
    return str(v)


def show_sels(sels):
    s = ""
    for x in sels:
        s += "." + x[1].split("::")[-1] if x[0] == "f" else "[%s]" % show(as_num(x[1])) if x[0] == "e" else ".value"
    return s


def show_loc(l):
    r = l[1]
    if r[0] == "d":
        s = "(*%s)" % show(r[1])
    elif r[0] == "v":
        s = r[2].split("@")[0]
    else:
        s = str(r[1])
    return s + show_sels(l[2])


def show_atom(a):
    if isinstance(a, tuple):
        if a[0] == "in":
            return show_loc(a[1])
        if a[0] == "addr":
            return "&" + show_loc(a[1])
        if a[0] == "val":
            return show(a[1])
        if a[0] == "op":
            return "(%s)" % (" %s " % a[1]).join(show(x) for x in a[2:])
        if a[0] == "param":
            return a[1]
        if a[0] == "size":
            return "size(%s)" % show(a[1])
        if a[0] == "fr":
            return "?%s" % "_".join(str(x) if not isinstance(x, tuple) else (show_loc(x) if x and x[0] == "L" else "")
                                    for x in a[1:])
    return str(a)


def facts_str(st, limit=12):
    out = []
    for f, (lo, hi, nq) in st.facts.b.items():
        x = show(("n", 0, f))
        if lo == hi:
            out.append("%s == %s" % (x, lo))
        else:
            if lo not in (-INF, 0):
                out.append("%s >= %s" % (x, lo))
            if hi != INF and not (hi == 1 and lo == 0):
                out.append("%s <= %s" % (x, hi))
        for z in nq:
            out.append("%s != %s" % (x, z))
    return "; ".join(out[:limit])


# ---------------------------------------------------------------- findings
def load_findings(pid):
    """lines: `known: property=<id> key=<obligation key> | <what fails>` and `fixed: ...` (never suppresses)."""
    out = {}
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                rest = ln.split("key=", 1)[1]
                key, _, what = rest.partition(" | ")
                out[key.strip()] = what.strip()
    return out


def main(pid, rule, level="other", explanation="", assumptions=()):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    try:
        sys.setrecursionlimit(20000)
        m = model_mod.load()
        ctx = Ctx(pid, m)
        rule(ctx)
        ctx.close()
        if not ctx.obligations:
            raise AnalysisBroken("no obligation was generated")
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, ex))
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    findings = load_findings(pid)
    bad = [o for o in ctx.obligations if not o[3]]
    # one report per key
    seen, viol, known = set(), [], []
    for o in bad:
        if o[1] in seen:
            continue
        seen.add(o[1])
        (known if o[1] in findings else viol).append(o)
    for o in known:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, o[1], o[2], findings[o[1]]))
    replay = os.path.join(ev_dir, "%s.violation.txt" % pid)
    if viol:
        with open(replay, "w") as f:
            for r, k, w, _, d in viol:
                f.write("property %s\nrule     %s\ninstance %s\nwhere    %s\ndetail   %s\n\n" % (pid, r, k, w, d))
        for r, k, w, _, d in viol:
            print("%s: %s: %s: %s" % (w, r, k, d))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif os.path.exists(replay):
        os.unlink(replay)
    ok = [o for o in ctx.obligations if o[3]]
    rules = {}
    for r, k, w, good, d in ctx.obligations:
        x = rules.setdefault(r, [0, 0])
        x[0] += 1
        x[1] += int(good)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": {"explanation": explanation,
                       "obligations": len(ctx.obligations), "discharged": len(ok),
                       "rules": {r: {"obligations": a, "discharged": b} for r, (a, b) in sorted(rules.items())},
                       "translation_units": len(m.units), "functions_in_model": len(m.functions),
                       "functions_analysed": sorted(ctx.functions)[:200],
                       "abstract_interpretations": ctx.interps, "call_sites_evaluated": ctx.calls,
                       "abstract_steps": ctx.steps, "abstract_exit_states": ctx.paths,
                       "havocked_calls": ctx.unknown,
                       "samples": [{"rule": r, "instance": k, "where": w, "holds": g, "detail": d[:300]}
                                   for r, k, w, g, d in ctx.obligations[:25]],
                       "known_findings_reported": [o[1] for o in known]},
          "assumptions": list(assumptions) + ctx.assume,
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    with open(os.path.join(ev_dir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    if not viol:
        print("OK property=%s obligations=%d known=%d (%.1fs)" % (pid, len(ctx.obligations), len(known),
                                                                   time.time() - t0))
    return 1 if viol else 0
