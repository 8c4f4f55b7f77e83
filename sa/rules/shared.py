"""C21: parsers share no mutable state.  C27: a compiled schema does not change while it is used."""
from lib import *
from model import CallGraph, walk, fn_nodes
from effects import Effects, ATOMIC

# C library functions that keep their result or state in storage shared by all threads
UNSAFE_LIBC = {"strtok", "localtime", "gmtime", "asctime", "ctime", "rand", "srand", "setlocale", "getenv", "setenv",
               "putenv", "unsetenv", "tmpnam", "strerror", "mblen", "mbtowc", "wctomb", "drand48", "lrand48", "localeconv",
               "readdir", "getpwnam", "getpwuid", "gethostbyname", "signal", "umask", "chdir", "tmpfile"}


def statics(m):
    """Every variable of static storage duration the functions mention: root -> (declaration, why it is harmless)."""
    out = {}
    gl = m.globals.values() if isinstance(m.globals, dict) else m.globals
    for g in gl:
        t = g["t"]
        why = "const" if g["const"] else "thread_local" if g.get("tls") else "synchronised" if ATOMIC.match(t) else None
        out["static " + g["q"]] = (g["file"], g["l"], why, t)
    for f in m.functions.values():
        for n in fn_nodes(f):
            if n.get("k") == "ref" and n.get("dk") == "slocal":
                t = n.get("st", n.get("t", ""))
                why = "const" if n.get("const") else "thread_local" if n.get("tls") else \
                    "synchronised" if ATOMIC.match(t) else None
                out["static %s in %s" % (n["n"], f["q"])] = (f["file"], n["l"], why, t)
    return out


def track_static(f, e):
    if e.get("k") == "ref":
        if e.get("dk") == "global":
            return "static " + e["id"]
        if e.get("dk") == "slocal":
            return "static %s in %s" % (e["n"], f["q"])
    return None


def rule(ctx):
    m = ctx.m
    cg = CallGraph(m)
    sv = statics(m)
    # reading or growing an object of static storage is only judged where the library's own functions do it; the whole
    # library is in scope, so every function is an entry point
    E = Effects(m, cg, track_static)
    for fid, f in sorted(m.functions.items(), key=lambda x: (x[1]["file"], x[1]["l"])):
        ctx.note_fn(f)
        ws = {r: v for r, v in E.where[fid].items() if isinstance(r, str) and r.startswith("static ") and r in sv}
        for r, (line, what) in sorted(ws.items()):
            why = sv[r][2]
            ctx.check("no-shared-write", "%s: %s" % (f["q"], r), ctx.where(f, line), why is not None,
                      "%s is %s here; it is %s" % (r, what, why or "neither const, thread_local nor synchronised: the "
                                                   "parsers of all threads share it"))
        if not ws:
            ctx.check("no-shared-write", f["q"], ctx.where(f), True, "writes no variable of static storage duration")
        for n in fn_nodes(f):
            if n.get("k") == "call" and n.get("q", "").replace("std::", "") in UNSAFE_LIBC:
                ctx.check("no-shared-library-state", "%s: %s" % (f["q"], n["q"]), ctx.where(f, n["l"]), False,
                          "%s() keeps its state in storage shared by all threads" % n["q"])
    for r, (file, l, why, t) in sorted(sv.items()):
        ctx.check("static-variable", r, "%s:%s" % (file, l), True, "type %s: %s" % (t[:80], why or "mutable"))


# ------------------------------------------------------------------ C27
OWNERS = ("BufferParser", "ReaderParser", "LogParser", "LogEventView", "LogEvent", "Token", "LogParserOutputBuffer")
LEXER = ("m_symbol_id", "m_id_symbol", "m_is_delimiter", "m_is_first_char", "m_rules", "m_has_delimiters", "m_dfa")


def bare(q):
    """A qualified name without template arguments."""
    out, d = [], 0
    for c in q:
        d += (c == "<") - (c == ">" and d > 0)
        if not d and c != ">":
            out.append(c)
    return "".join(out)


def rule27(ctx):
    m = ctx.m
    lexer = P + "Lexer"
    tables = {lexer + "::" + n for n in LEXER}
    for n in LEXER:
        ctx.need(any(bare(fl["q"]) == lexer + "::" + n for r in m.records.values() for fl in r.get("fields", [])),
                 "field %s of the lexer not found" % n)
    whole = tuple(P + "finite_automata::" + c + "::" for c in
                  ("RegexDFA", "RegexDFAState", "RegexNFA", "RegexNFAState", "UnicodeIntervalTree")) + (P + "LexicalRule::",)

    def track(f, e):
        if e.get("k") == "mem":
            q = bare(e["f"])
            if q in tables or any(q.startswith(w) and "::" not in q[len(w):] for w in whole):
                return "field " + q
        return None
    roots = [fid for fid, f in m.functions.items()
             if any(f["q"].startswith(P + o + "::") for o in OWNERS) and f.get("access", 0) == 0 and
             not f["q"].endswith("::<ctor>") and not f["q"].endswith("::<dtor>")]
    roots += [fid for fid, f in m.functions.items() if f["q"] in (lexer + "::scan", lexer + "::scan_with_wildcard",
                                                                  lexer + "::reset", lexer + "::flush")]
    ctx.need(len(roots) > 20, "the functions used while parsing were not found")
    reach = ctx.cg.reach(roots)
    E = Effects(m, ctx.cg, track)
    for fid in sorted(reach, key=lambda x: (m.functions[x]["file"], m.functions[x]["l"])):
        f = m.functions[fid]
        ctx.note_fn(f)
        ws = {r: v for r, v in E.where[fid].items() if isinstance(r, str) and r.startswith("field ")}
        for r, (line, what) in sorted(ws.items()):
            ctx.check("schema-unchanged", "%s: %s" % (f["q"], r), ctx.where(f, line), False,
                      "%s is %s here, in a function that runs while logs are parsed" % (r[6:], what))
        if not ws:
            ctx.check("schema-unchanged", f["q"], ctx.where(f), True, "runs while parsing; writes no table of the schema")
