"""Token-level reader of Rust sources: finds impls, functions, structs, loops; no interpretation."""
import re

class Lost(Exception):
    """An anchor (function, struct, loop ...) named by a contract is not in the source."""

class Tok:
    __slots__ = ("k", "t", "s", "e")
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return f"{self.k}:{self.t}"

_ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"[0-9][0-9a-zA-Z_]*(\.[0-9][0-9a-zA-Z_]*)?")
_RAW = re.compile(r'b?r(#*)"')
_PUNCT3 = ("..=", "<<=", ">>=", "...")
_PUNCT2 = ("->", "=>", "::", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "..")

def lex(s):
    """Tokens without whitespace and comments."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j):
                    d += 1; j += 2
                elif s.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = _RAW.match(s, i)
        if m:
            j = s.find('"' + m[1], m.end()) + 1 + len(m[1])
            out.append(Tok("str", s[i:j], i, j)); i = j
            continue
        if c == '"' or s.startswith('b"', i):
            j = i + (2 if c == "b" else 1)
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            j += 1
            out.append(Tok("str", s[i:j], i, j)); i = j
            continue
        if c == "'" or s.startswith("b'", i):
            q = i + (1 if c == "b" else 0)
            m = re.compile(r"'(\\(x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", re.S).match(s, q)
            if m:
                out.append(Tok("chr", s[i:m.end()], i, m.end())); i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(s, i)
            out.append(Tok("life", m[0], i, m.end())); i = m.end()
            continue
        m = _ID.match(s, i)
        if m:
            out.append(Tok("id", m[0], i, m.end())); i = m.end()
            continue
        m = _NUM.match(s, i)
        if m:
            t = m[0]
            if m[1] and out and out[-1].t == "." :   # tuple field x.0.1
                t = t.split(".")[0]
            out.append(Tok("num", t, i, i + len(t))); i += len(t)
            continue
        for p in _PUNCT3:
            if s.startswith(p, i):
                out.append(Tok("p", p, i, i + 3)); i += 3
                break
        else:
            for p in _PUNCT2:
                if s.startswith(p, i):
                    out.append(Tok("p", p, i, i + 2)); i += 2
                    break
            else:
                out.append(Tok("p", c, i, i + 1)); i += 1
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}

def match(toks, i):
    """Index of the bracket closing toks[i]."""
    d, j = 0, i
    while j < len(toks):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN:
                d += 1
            elif t.t in (")", "]", "}"):
                d -= 1
                if d == 0:
                    return j
        j += 1
    raise Lost("unbalanced brackets")

LOGS = {"debug", "info", "trace", "warn", "error", "println", "eprintln", "log_debug", "debug_assert", "debug_assert_eq", "debug_assert_ne"}

def text(toks):
    """Tokens back to text: glued where the source had them glued, else one blank or a newline."""
    out, prev = [], None
    for t in toks:
        if prev is not None and prev.e != t.s:
            out.append("\n" if prev.t in (";", "{", "}") else " ")
        out.append(t.t)
        prev = t
    return "".join(out)

class Source:
    def __init__(self, repo, rel):
        self.rel = rel
        try:
            self.src = open(f"{repo}/{rel}", encoding="utf-8").read()
        except OSError as e:
            raise Lost(f"source file {rel} is gone") from e
        self.toks = lex(self.src)
        self.items = []          # (kind, name, implheader, start, body_open, end)
        self._scan(0, len(self.toks), None, "")

    def line(self, tok):
        return self.src.count("\n", 0, tok.s) + 1

    def _scan(self, i, end, impl, cfg):
        T = self.toks
        pend_test = False
        istart = i
        while i < end:
            t = T[i]
            if t.t == "#" and i + 1 < end and T[i + 1].t in ("[", "!"):
                o = i + 1 if T[i + 1].t == "[" else i + 2
                c = match(T, o)
                body = "".join(x.t for x in T[o + 1:c])
                if body == "cfg(test)" or body == "test":
                    pend_test = True
                i = c + 1
                continue
            if t.k == "id" and t.t == "mod" and T[i + 1].k == "id":
                if T[i + 2].t == ";":
                    i += 3
                else:
                    c = match(T, i + 2)
                    if not pend_test:
                        self._scan(i + 3, c, impl, cfg)
                    i = c + 1
                pend_test = False; istart = i
                continue
            if t.k == "id" and t.t in ("impl", "trait") and impl is None:
                j = i + 1
                while T[j].t != "{" and T[j].t != ";":
                    j += 1 if T[j].t not in ("(", "[") else match(T, j) - j + 1
                hdr = text(T[i:j])
                if T[j].t == "{":
                    c = match(T, j)
                    if not pend_test:
                        self.items.append(("impl", hdr, hdr, i, j, c))
                        self._scan(j + 1, c, hdr, cfg)
                    i = c + 1
                else:
                    i = j + 1
                pend_test = False; istart = i
                continue
            if t.k == "id" and t.t == "fn" and T[i + 1].k == "id":
                name = T[i + 1].t
                j = i + 2
                # to the body or ';'
                while T[j].t not in ("{", ";"):
                    j = match(T, j) + 1 if T[j].t in ("(", "[") else j + 1
                if T[j].t == "{":
                    c = match(T, j)
                    if not pend_test:
                        self.items.append(("fn", name, impl, i, j, c))
                    i = c + 1
                else:
                    i = j + 1
                pend_test = False; istart = i
                continue
            if t.k == "id" and t.t in ("struct", "enum", "union") and T[i + 1].k == "id":
                name = T[i + 1].t
                j = i + 2
                wh = False
                while T[j].t not in ("{", ";", "(") or (wh and T[j].t == "("):
                    wh = wh or T[j].t == "where"
                    j += 1
                if T[j].t == "(":
                    c = match(T, j)
                    while T[c].t != ";":
                        c += 1
                elif T[j].t == "{":
                    c = match(T, j)
                else:
                    c = j
                if not pend_test:
                    self.items.append((t.t, name, impl, i, j, c))
                i = c + 1
                pend_test = False; istart = i
                continue
            if t.k == "id" and t.t in ("const", "static", "type") and T[i + 1].k == "id" and T[i + 1].t != "fn":
                j = i
                while T[j].t != ";":
                    j = match(T, j) + 1 if T[j].t in OPEN else j + 1
                if not pend_test:
                    self.items.append((t.t, T[i + 1].t, impl, i, j, j))
                i = j + 1
                pend_test = False; istart = i
                continue
            if t.t in OPEN:
                i = match(T, i) + 1
                pend_test = False
                continue
            if t.t == ";":
                pend_test = False
            i += 1

    def find(self, kind, name, owner=None, impl_re=None):
        """owner: type name the impl is for (None: free)."""
        hits = []
        for it in self.items:
            if it[0] != kind or it[1] != name:
                continue
            if impl_re is not None:
                if it[2] is None or not re.search(impl_re, it[2]):
                    continue
            elif owner is not None:
                if it[2] is None:
                    continue
                h = it[2]
                if not re.search(rf"\b{re.escape(owner)}\b", h):
                    continue
            elif it[2] is not None:
                continue
            hits.append(it)
        if not hits:
            raise Lost(f"{kind} {owner + '::' if owner else ''}{name} not found in {self.rel}")
        return hits[0]

    def names_in_file(self):
        """(owner-header or None, fn name) of every non-test function in this file."""
        return [(it[2], it[1]) for it in self.items if it[0] == "fn"]

def strip_logs(toks, extra=()):
    """Drops log macros: `debug!(..);` vanishes, `debug!(..)` as expression becomes ()."""
    out, i = [], 0
    names = (LOGS | set(extra))
    while i < len(toks):
        t = toks[i]
        j = i
        # optional path log::debug!
        if t.k == "id" and t.t == "log" and i + 2 < len(toks) and toks[i + 1].t == "::":
            j = i + 2
        tj = toks[j]
        if tj.k == "id" and tj.t in names and j + 2 < len(toks) and toks[j + 1].t == "!" and toks[j + 2].t in OPEN:
            c = match(toks, j + 2)
            if c + 1 < len(toks) and toks[c + 1].t == ";":
                i = c + 2
            else:
                out.append(Tok("p", "(", t.s, t.s)); out.append(Tok("p", ")", t.s, t.s))
                i = c + 1
            continue
        out.append(t)
        i += 1
    return out

def drop_strings(toks, call):
    """Message texts become `call`: format!(..), "..".to_string(), "..".to_owned(), "..".into(), String::from("..")."""
    out, i = [], 0
    def put(t):
        for w in lex(call):
            out.append(Tok(w.k, w.t, t.s, t.s))
    while i < len(toks):
        t = toks[i]
        nx = lambda k: toks[i + k].t if i + k < len(toks) else ""
        if t.t == "format" and nx(1) == "!" and nx(2) in OPEN:
            put(t); i = match(toks, i + 2) + 1; continue
        if t.t[:1] == '"' and nx(1) == "." and nx(2) in ("to_string", "to_owned", "into") and nx(3) == "(" and nx(4) == ")":
            put(t); i += 5; continue
        if t.t == "String" and nx(1) == "::" and nx(2) == "from" and nx(3) == "(" and nx(4)[:1] == '"' and nx(5) == ")":
            put(t); i += 6; continue
        out.append(t); i += 1
    return out

def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            i = match(toks, i + 1) + 1
            continue
        out.append(toks[i]); i += 1
    return out

def loops(toks):
    """[(kw index, body open index, body close index)] of the loops, in text order."""
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("while", "for", "loop"):
            if t.t == "for" and i + 1 < len(toks) and toks[i + 1].t == "<":
                continue
            j = i + 1
            while toks[j].t != "{":
                j = match(toks, j) + 1 if toks[j].t in ("(", "[") else j + 1
            out.append((i, j, match(toks, j)))
    return out
