"""Field-write effects: which fields a function body may modify (resolved program, not text)."""
from model import fn_nodes, walk

READONLY_STD = {"operator->", "get", "operator*", "operator[]", "at", "begin", "end", "data", "back", "front", "find",
                "top", "value"}


def target_field(e):
    """The field whose storage an lvalue expression designates (None: local / through a pointer)."""
    while isinstance(e, dict):
        k = e.get("k")
        if k == "mem":
            return e["f"]
        if k == "idx":
            if e["b"].get("t", "").rstrip().endswith("]"):
                e = e["b"]
                continue
            return None
        if k in ("cast", "fcast", "dcast"):
            e = e["e"]
            continue
        if k == "cond":
            e = e["a"]
            continue
        if k == "call" and e.get("q", "").startswith("std::") and e.get("obj") is not None and \
                e["q"].rsplit("::", 1)[-1] in ("operator[]", "at", "back", "front", "value", "top"):
            e = e["obj"]
            continue
        return None
    return None


def assigns_parameter(f, functions, seen=None):
    """Does f, or a function it hands a parameter on to, assign to or move from it as a whole?"""
    seen = set() if seen is None else seen
    if f["id"] in seen:
        return False
    seen.add(f["id"])
    ids = {p["id"] for p in f["params"]}

    def par(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "fcast", "un"):
            e = e["e"]
        return isinstance(e, dict) and e.get("k") == "ref" and e.get("id") in ids
    for n in fn_nodes(f):
        if n.get("k") == "asg" and par(n["lhs"]) or n.get("k") == "call" and n.get("opc") == "=" and par(n.get("obj")):
            return True
        if n.get("k") == "call" and n.get("q") in ("std::move", "std::swap", "std::exchange") and any(map(par, n["args"])):
            return True
        if n.get("k") in ("call", "ctor") and n.get("fn") in functions and \
                any(pm in ("r", "m") and par(a) for a, pm in zip(n.get("args", []), n.get("pm", []))) and \
                assigns_parameter(functions[n["fn"]], functions, seen):
            return True
        if n.get("k") == "lambda" and n.get("caps"):
            return True
    return False


def writes_of(f, functions=None):
    """list of (field, line) written by f itself. An object of a class of the library handed to one of its functions is
    written there, field by field."""
    out = []
    isctor = f["q"].endswith("<ctor>")
    for n in fn_nodes(f):
        k = n.get("k")
        if k == "asg":
            t = target_field(n["lhs"])
            if t:
                out.append((t, n["l"]))
        elif k == "un" and n["op"] in ("++", "--", "p++", "p--"):
            t = target_field(n["e"])
            if t:
                out.append((t, n["l"]))
        elif k == "call":
            o = n.get("obj")
            if o is not None and not n.get("cm") and not n.get("arrow") and not n["q"].startswith("log_surgeon"):
                nm = n["q"].rsplit("::", 1)[-1]
                t = target_field(o)
                if t and nm not in READONLY_STD:
                    out.append((t, n["l"]))
            for a, pm in zip(n.get("args", []), n.get("pm", [])):
                if pm in ("r", "m"):
                    x = a
                    if x.get("k") == "call" and x.get("q") == "std::move" and x.get("args"):
                        x = x["args"][0]
                    t = target_field(x)
                    if x is a and functions is not None and a.get("rec", "").startswith("log_surgeon") and \
                            n.get("fn") in functions and functions[n["fn"]].get("body") and \
                            not assigns_parameter(functions[n["fn"]], functions):
                        continue
                    if t and not n.get("q", "").startswith("std::move"):
                        out.append((t, n["l"]))
                elif pm == "p" and a.get("k") == "un" and a.get("op") == "&":
                    t = target_field(a["e"])
                    if t:
                        out.append((t, n["l"]))
        elif k == "ctor":
            for a, pm in zip(n.get("args", []), n.get("pm", [])):
                if pm == "m":
                    x = a
                    if x.get("k") == "call" and x.get("q") == "std::move" and x.get("args"):
                        x = x["args"][0]
                    t = target_field(x)
                    if t:
                        out.append((t, n["l"]))
    return out


def reads_of(f):
    """Fields whose value is read (appears outside a pure write position)."""
    out = set()
    wr = set()
    for n in fn_nodes(f):
        if n.get("k") == "asg" and n["op"] == "=" and n["lhs"].get("k") == "mem":
            wr.add(id(n["lhs"]))
    for n in fn_nodes(f):
        if n.get("k") == "mem" and id(n) not in wr:
            out.add(n["f"])
    return out


def repo_class_assignments(f):
    """Whole-object assignments/moves to a field of repository class type (writes every field)."""
    out = []
    for n in fn_nodes(f):
        if n.get("k") == "call" and n.get("opc") == "=" and n["q"].startswith("log_surgeon") and n.get("obj"):
            t = target_field(n["obj"])
            if t:
                out.append((t, n["l"]))
    return out
