"""Turns a contract template (specs/*.rs) plus /repo's current sources into one Verus file.

The executable text of every function comes from /repo on every run.  What the extraction changes:
comments, attributes, log macros are dropped; visibility becomes `pub`; the declared, per-template
textual rewrites are applied (listed in the evidence); contracts, invariants and ghost code are spliced in.
"""
import re
from . import rustsrc as R

SECTIONS = ("start", "loop", "loopstart", "loopend", "afterloop", "sig", "beforeloop")

class Fn:
    def __init__(self):
        self.src = self.path = None
        self.opts = {}
        self.spec = ""
        self.sec = {}          # (kind, n) -> text
        self.rewrites = []     # (regex, repl, required)
        self.iters = {}
        self.at = None         # regex ending in `{`: the contract is on that inner block (async block, closure body)
        self.holes = []        # (regex ending in `{`, replacement for the block): inner blocks under their own contract

class Template:
    def __init__(self, path):
        self.path = path
        self.parts = []        # ("raw", text) | ("fn", Fn) | ("struct", dict) | ("const", ...)
        self.sources = {}
        self.rewrites = []
        self.opts = {}
        self.parse(open(path, encoding="utf-8").read())

    def parse(self, s):
        raw, cur, sec, buf = [], None, None, []
        assumed = None         # name of the template that proves the contracts which follow
        def flush_raw():
            if raw:
                self.parts.append(("raw", "\n".join(raw) + "\n"))
                raw.clear()
        def flush_sec():
            nonlocal buf
            if cur is not None:
                t = "\n".join(buf).strip("\n")
                if sec is None:
                    cur.spec += t
                else:
                    cur.sec[sec] = cur.sec.get(sec, "") + t
            buf = []
        for ln in s.split("\n"):
            m = re.match(r"\s*//@(\w+)\s*(.*)$", ln)
            if not m:
                (raw if cur is None else buf).append(ln)
                continue
            d, rest = m[1], m[2].strip()
            if d == "source":
                n, p = rest.split()
                self.sources[n] = p
            elif d == "opt":
                k, _, v = rest.partition("=")
                self.opts[k.strip()] = v.strip()
            elif d == "rewrite":
                delim = rest[0]
                parts = rest.split(delim)
                rw = (parts[1], parts[2].replace("\\n", "\n"), len(parts) > 3 and "!" in parts[3])
                (self.rewrites if cur is None else cur.rewrites).append(rw)
            elif d in ("struct", "enum", "const", "type"):
                flush_raw()
                w = rest.split()
                o = dict(x.split("=", 1) for x in w[2:])
                self.parts.append((d, w[0], w[1], o))
            elif d == "fn":
                flush_raw()
                cur = Fn(); sec = None; buf = []
                w = rest.split()
                cur.src, cur.path = w[0], w[1]
                for x in w[2:]:
                    k, _, v = x.partition("=")
                    cur.opts[k] = v
                if assumed and "prove" not in cur.opts:
                    cur.opts["assumed"] = assumed
            elif d == "assumed":
                assumed = rest
            elif d == "proved":
                assumed = None
            elif d == "endfn":
                flush_sec()
                self.parts.append(("fn", cur))
                cur = None; sec = None
            elif d == "at":
                cur.at = re.match(r"/(.*)/\s*$", rest)[1]
            elif d == "hole":
                m2 = re.match(r"/(.*?)/(.*)$", rest)
                cur.holes.append((m2[1], m2[2].strip().rstrip("/")))
            elif d in ("before", "after"):      # ghost code at every match of a regex in the body
                flush_sec()
                m2 = re.match(r"/(.*)/(\w*)$", rest)
                sec = (d, m2[1])
            elif d in SECTIONS:
                flush_sec()
                w = rest.split()
                sec = (d, int(w[0]) if w else 0)
                if len(w) > 1:         # ghost name of a for loop's iterator
                    cur.iters[sec[1]] = w[1]
            else:
                raise SystemExit(f"{self.path}: unknown directive {d}")
        flush_raw()

class FnInfo:
    """One function in the generated file."""
    def __init__(self, name, src, line, lo, hi):
        self.name, self.src, self.line, self.lo, self.hi = name, src, line, lo, hi
        self.unknown_calls = []
        self.degraded = None
        self.loops = 0
        self.shape = ""

class Generated:
    def __init__(self):
        self.text = ""
        self.fns = []          # FnInfo
        self.dropped = []      # notes of applied rewrites
        self.lost = []         # (fn, reason)
        self.ghost = 0

def _apply(rws, s, notes, where):
    for rx, rep, req in rws:
        s2, n = re.subn(rx, rep, s, flags=re.S)
        if n:
            notes.add(f"{where}: /{rx}/ -> /{rep}/")
        elif req:
            raise R.Lost(f"rewrite /{rx}/ does not apply in {where}")
        s = s2
    return s

def _block(body, rx, where):
    """(start of match, offset of `{`, offset of matching `}`) of the block a regex ends at."""
    m = re.search(rx, body, re.S)
    if not m or body[m.end() - 1] != "{":
        raise R.Lost(f"no block /{rx}/ in {where}")
    T = R.lex(body)
    k = next(i for i, t in enumerate(T) if t.s == m.end() - 1)
    return m.start(), m.end() - 1, T[R.match(T, k)].s

def _ret(sig, name):
    """`-> T` of a signature becomes `-> (name: T)`."""
    toks = R.lex(sig)
    d = 0
    i = 0
    # skip to parameter list
    while toks[i].t != "fn":
        i += 1
    i += 2
    ang = 0
    while toks[i].t != "(" or ang:
        if toks[i].t == "<": ang += 1
        if toks[i].t == ">": ang -= 1
        i += 1
    c = R.match(toks, i)
    if c + 1 >= len(toks) or toks[c + 1].t != "->":
        return sig
    a = c + 2
    b = a
    while b < len(toks) and toks[b].t != "where":
        b += 1
    return sig[:toks[a].s] + f"({name}: {sig[toks[a].s:toks[b - 1].e]}) " + sig[toks[b - 1].e:]

def fn_text(src, it, strings=None):
    """Stripped token text of a function item: (signature, body) without braces."""
    _, name, impl, i, o, c = it
    T = src.toks
    sig = R.text(R.strip_attrs(T[i:o]))
    body = R.strip_attrs(R.strip_logs(T[o + 1:c]))
    if strings:
        body = R.drop_strings(body, strings)
    return sig, re.sub(r"\|_\|", "|_vp|", R.text(body))

def generate(repo, tpl, degrade=(), probe=False):
    """degrade: names of functions whose body is left out (contract then is an unproved assumption)."""
    g = Generated()
    srcs = {n: None for n in tpl.sources}
    notes = set()
    out = []
    lineno = 1
    def emit(t):
        nonlocal lineno
        if not t.endswith("\n"):
            t += "\n"
        out.append(t)
        lineno += t.count("\n")
    known = {}      # source name -> set of function names under contract
    for p in tpl.parts:
        if p[0] == "fn":
            known.setdefault(p[1].src, set()).add(p[1].path.split("::")[-1])
    def source(n):
        if srcs[n] is None:
            srcs[n] = R.Source(repo, tpl.sources[n])
        return srcs[n]
    for p in tpl.parts:
        if p[0] == "raw":
            emit(p[1])
            continue
        if p[0] in ("struct", "enum"):
            kind, sn, name, o = p
            s = source(sn)
            it = s.find(kind, name, None) if True else None
            T = R.strip_attrs(s.toks[it[3]:it[5] + 1])
            body = R.text(T)
            if kind == "struct":
                body = struct_pub(T, set(filter(None, o.get("drop", "").split(","))), (o.get("generics") or "").replace("~", " ").replace("pub struct", "struct") or None)
            if "name" in o:
                body = re.sub(rf"\b{name}\b", o["name"], body)
            body = _apply(tpl.rewrites, body, notes, name)
            emit(o.get("attr", "").replace("~", " ") + "\npub " + body)
            continue
        if p[0] in ("const", "type"):
            kind, sn, name, o = p
            s = source(sn)
            it = s.find(kind, name, o.get("owner"))
            body = R.text(s.toks[it[3]:it[5] + 1])
            emit("pub " + _apply(tpl.rewrites, body, notes, name))
            continue
        f = p[1]
        nm = f.path if not f.at else f.path + "{" + re.search(r"\bfn (\w+)", f.sec[("sig", 0)])[1] + "}"
        try:
            s = source(f.src)
            owner, _, fname = f.path.rpartition("::")
            it = s.find("fn", fname, owner or None, f.opts.get("impl", "").replace("~", " ") or None)
            sig, body = fn_text(s, it, tpl.opts.get("strings"))
            if tpl.opts.get("strings"):
                notes.add("message strings (format!, \"..\".to_string()) replaced by an arbitrary string")
            body = _apply(tpl.rewrites + f.rewrites, body, notes, nm)
            sig = _apply(tpl.rewrites + f.rewrites, sig, notes, nm)
            for rx, rep in f.holes:
                a, o_, c_ = _block(body, rx, nm)
                body = body[:a] + rep + body[c_ + 1:]
            if f.at:
                a, o_, c_ = _block(body, f.at, nm)
                body = body[o_ + 1:c_]
                notes.add(f"{nm}: the block after /{f.at}/ is a function of its own here")
        except R.Lost as e:
            g.lost.append((nm, str(e)))
            continue
        if ("sig", 0) in f.sec:
            sig = f.sec[("sig", 0)].strip()
        if "rename" in f.opts:
            sig = re.sub(rf"\bfn {fname}\b", f"fn {f.opts['rename']}", sig)
        sig = _ret(sig, f.opts.get("ret", "res"))
        if not re.match(r"\s*(pub\b)", sig) and "nopub" not in f.opts:
            sig = "pub " + sig
        bt = R.lex(body)
        lps = R.loops(bt)
        info = FnInfo(nm, s.rel, s.line(s.toks[it[3]]), 0, 0)
        info.loops = len(lps)
        want = {n for (k, n) in f.sec if k in ("loop", "loopstart", "loopend", "afterloop", "beforeloop")}
        info.shape = " ".join(t.t for t in bt)
        if want and max(want) >= len(lps):
            g.lost.append((nm, f"loop {max(want)} has no counterpart: {len(lps)} loops in the source"))
            degrade_this = "loops changed"
        elif len(lps) > (max(want) + 1 if want else 0) and "anyloops" not in f.opts:
            g.lost.append((nm, f"{len(lps)} loops in the source, invariants for {max(want) + 1 if want else 0}"))
            degrade_this = "loops changed"
        else:
            degrade_this = None
        spots = []
        for (k, rx), t in f.sec.items():
            if k in ("before", "after"):
                ms = list(re.finditer(rx, body, re.S))
                if not ms:
                    g.lost.append((nm, f"no place for ghost code: /{rx}/"))
                    degrade_this = degrade_this or "ghost anchor lost"
                spots += [(m.start() if k == "before" else m.end(), "\n" + t + "\n", 0) for m in ms]
        # calls of functions of the same file which have no contract here
        mine = {n for _, n in s.names_in_file()}
        for i, t in enumerate(bt):
            if t.k == "id" and i + 1 < len(bt) and bt[i + 1].t == "(" and t.t in mine and t.t not in known.get(f.src, ()):
                pre = bt[i - 1].t if i else ""
                prev2 = bt[i - 2].t if i > 1 else ""
                if (pre == "." and prev2 == "self") or (pre == "::" and prev2 == "Self") or pre not in (".", "::"):
                    if t.t not in f.opts.get("extern", "").split(","):
                        info.unknown_calls.append(t.t)
        info.lo = lineno
        spec = f.spec
        if "assumed" in f.opts:
            info.degraded, info.unknown_calls = f"proved in {f.opts['assumed']}", []
            g.lost = [x for x in g.lost if x[0] != nm]
            notes.add(f"{nm}: contract used here, proved in {f.opts['assumed']}")
            emit(f"// {s.rel}:{info.line} {nm} (proved in {f.opts['assumed']})")
            emit("#[verifier::external_body] /*proved elsewhere*/\n" + sig + "\n" + spec + "\n{ unimplemented!() }\n")
        elif nm in degrade or degrade_this:
            info.degraded = degrade_this or "front end"
            emit(f"// {s.rel}:{info.line} {nm} (body left out: {info.degraded})")
            emit("#[verifier::external_body]\n" + sig + "\n" + spec + "\n{ unimplemented!() }\n")
        else:
            emit(f"// {s.rel}:{info.line} {nm}")
            if "attr" in f.opts:
                emit(f.opts["attr"].replace("~", " "))
            ins = []   # (offset, text)
            for (k, n), t in f.sec.items():
                g.ghost += t.count("\n") + 1
                if k in ("sig", "before", "after"):
                    continue
                if k == "start":
                    ins.append((0, "\n" + t + "\n", 0)); continue
                kw, o, c = lps[n]
                if k == "loop":
                    ins.append((bt[o].s, "\n" + t + "\n", 0))
                elif k == "loopstart":
                    ins.append((bt[o].e, "\n" + t + "\n", 0))
                elif k == "loopend":
                    ins.append((bt[c].s, "\n" + t + "\n", 0))
                elif k == "afterloop":
                    ins.append((bt[c].e, "\n" + t + "\n", 0))
                elif k == "beforeloop":
                    q = kw
                    while q and bt[q - 1].k == "life" or (q and bt[q - 1].t == ":" and bt[q - 2].k == "life"):
                        q -= 1
                    ins.append((bt[q].s, "\n" + t + "\n", 0))
            ins += spots
            for n, nm_it in f.iters.items():
                kw, o, c = lps[n]
                if bt[kw].t == "for":
                    q = kw + 1
                    while bt[q].t != "in":
                        q = R.match(bt, q) + 1 if bt[q].t in R.OPEN else q + 1
                    ins.append((bt[q].e, f" {nm_it}:", 0))
            if probe:
                ins.append((0, "\n/*probe*/ assert(false);\n", 1))
                for kw, o, c in lps:
                    ins.append((bt[o].e, "\n/*probe*/ assert(false);\n", 1))
            ins.sort(key=lambda x: (-x[0], x[2]))
            b = body
            for off, t, _ in ins:
                b = b[:off] + t + b[off:]
            if f.opts.get("split"):
                # the same body once per kind of self.value_, then the function itself by cases
                name = nm.split("::")[-1]
                kinds = f.opts["split"].split(",")
                rest = " && ".join(f"!(self.value_ is {k})" for k in kinds)
                for k in kinds + ["other"]:
                    only = rest if k == "other" else f"self.value_ is {k}"
                    emit(re.sub(rf"\bfn {name}\b", f"fn {name}_in_{k}", sig, count=1) + "\n"
                         + re.sub(r"\brequires\b", f"requires {only},", spec, count=1) + "\n{\n" + b + "\n}\n")
                emit(sig + "\n" + spec + "\n{\nmatch self.value_ {\n"
                     + "".join(f"Val::{k}(_) => self.{name}_in_{k}(other),\n" for k in kinds)
                     + f"_ => self.{name}_in_other(other),\n}}\n}}\n")
            else:
                emit(sig + "\n" + spec + "\n{\n" + b + "\n}\n")
        info.hi = lineno
        g.fns.append(info)
    g.text = "".join(out)
    g.dropped = sorted(notes)
    return g

def struct_pub(T, drop, generics):
    """Struct tokens with all fields public and the named ones dropped."""
    i = 0
    wh = False
    while T[i].t not in ("{", "(", ";") or (wh and T[i].t == "("):
        wh = wh or T[i].t == "where"
        i += 1
    head = generics if generics else R.text(T[:i])
    if T[i].t == ";":
        return head + ";"
    c = R.match(T, i)
    fields, j, st = [], i + 1, i + 1
    ang = 0
    while j <= c:
        t = T[j]
        if j == c or (t.t == "," and ang == 0):
            if j > st:
                fields.append(T[st:j])
            st = j + 1
        elif t.t in R.OPEN:
            j = R.match(T, j)
        elif t.t == "<":
            ang += 1
        elif t.t == ">":
            ang -= 1
        elif t.t == ">>":
            ang -= 2
        j += 1
    out = []
    for f in fields:
        if f[0].t == "pub":
            f = f[1:]
            if f[0].t == "(":
                f = f[R.match(f, 0) + 1:]
        if T[i].t == "{" and f[0].t in drop:
            continue
        out.append("pub " + R.text(f))
    if T[i].t == "(":
        return head + "(" + ", ".join(out) + ");"
    return head + " {\n" + ",\n".join(out) + "\n}"
