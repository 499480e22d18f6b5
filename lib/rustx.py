"""Mechanical extraction of Rust items from /repo for Verus.

Nothing here writes code for the repository: it copies the tokens of a function
or type out of the current source and applies the fixed list of syntactic
rewrites documented in DESIGN.md (section "What the extraction drops").
Contracts, loop invariants and proof blocks come from the unit file in
/verif/specs and are inserted at function heads and loop heads.
"""
import re, os


class Lost(Exception):
    """The unit file no longer fits the source (item gone, loop shape changed, construct we cannot carry)."""


class Tok:
    __slots__ = ("s", "ws", "line", "kind")

    def __init__(self, s, ws, line, kind):
        self.s, self.ws, self.line, self.kind = s, ws, line, kind

    def __repr__(self):
        return self.s


OPS = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=",
       "%=", "^=", "|=", "&=", "<<", ">>", ".."]
OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def lex(src):
    toks, i, n, line = [], 0, len(src), 1
    ws = ""
    while i < n:
        c = src[i]
        if c.isspace():
            if c == "\n":
                line += 1
            ws += c
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            i = j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            ws += " "
            i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.index(end, m.end()) + len(end)
            t = Tok(src[i:j], ws, line, "str")
        elif re.compile(r'[bc]?"').match(src, i):
            j = src.index('"', i) + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            t = Tok(src[i:j], ws, line, "str")
        elif (m := re.compile(r"b?'(?:\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'").match(src, i)):
            j = m.end()
            t = Tok(src[i:j], ws, line, "chr")
        elif c == "'":
            m = re.compile(r"'[A-Za-z_]\w*").match(src, i)
            j = m.end()
            t = Tok(src[i:j], ws, line, "life")
        elif c.isdigit():
            m = re.compile(r"0[xob][0-9a-fA-F_]+\w*|\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][+-]?\d+)?(?:_?[a-z]\w*)?").match(src, i)
            j = m.end()
            t = Tok(src[i:j], ws, line, "num")
        elif c.isalpha() or c == "_":
            m = re.compile(r"\w+").match(src, i)
            j = m.end()
            t = Tok(src[i:j], ws, line, "id")
        else:
            for op in OPS:
                if src.startswith(op, i):
                    break
            else:
                op = c
            j = i + len(op)
            t = Tok(op, ws, line, "op")
        line += src.count("\n", i, j)
        toks.append(t)
        ws = ""
        i = j
    return toks


def match_close(t, i):
    """index of the bracket closing t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j].s in OPEN:
            d += 1
        elif t[j].s in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


def text(t):
    out = []
    for k, x in enumerate(t):
        ws = x.ws
        if k == 0:
            ws = ""
        out.append(ws + x.s)
    return "".join(out)


def norm(t):
    return " ".join(x.s for x in t)


def mk(s):
    return Tok(s, " ", 0, "raw")


def toks_of(s):
    return lex(s)


def strip_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t[i].s == "#" and i + 1 < len(t) and t[i + 1].s in ("[", "!"):
            j = i + 1 if t[i + 1].s == "[" else i + 2
            if j < len(t) and t[j].s == "[":
                i = match_close(t, j) + 1
                continue
        out.append(t[i])
        i += 1
    return out


class Source:
    def __init__(self, repo, rel):
        p = os.path.join(repo, rel)
        if not os.path.exists(p):
            raise Lost("file %s is gone" % rel)
        self.rel = rel
        self.src = open(p, encoding="utf-8").read()
        self.t = lex(self.src)
        self.items = []  # (kind, scope, name, start, end)
        self._scan(0, len(self.t), "")

    def _scan(self, i, end, scope):
        t = self.t
        start = i
        while i < end:
            s = t[i].s
            if s == "#":
                j = i + 1
                if t[j].s == "!":
                    j += 1
                k = match_close(t, j)
                a = norm(t[j:k + 1])
                if "cfg ( test )" in a or "cfg ( kani )" in a:
                    # skip the annotated item
                    i = k + 1
                    while t[i].s == "#":
                        i = match_close(t, i + 1) + 1
                    while t[i].s not in ("{", ";"):
                        if t[i].s in ("(", "["):
                            i = match_close(t, i)
                        i += 1
                    if t[i].s == "{":
                        i = match_close(t, i)
                    i += 1
                    start = i
                    continue
                i = k + 1
                continue
            if s == "mod" and t[i + 2].s == "{":
                c = match_close(t, i + 2)
                self._scan(i + 3, c, scope + t[i + 1].s + "::")
                i = c + 1
                start = i
                continue
            if s == "macro_rules":
                nm = t[i + 2].s
                c = match_close(t, i + 3)
                self.items.append(("macro", scope, nm, start, c + 1))
                i = c + 1
                start = i
                continue
            if s in ("impl", "trait") :
                j = i + 1
                if s == "impl" and t[j].s == "<":
                    d = 0
                    while True:
                        if t[j].s == "<": d += 1
                        if t[j].s == ">": d -= 1
                        if t[j].s == ">>": d -= 2
                        j += 1
                        if d <= 0: break
                b = j
                while t[b].s != "{":
                    b += 1
                hdr = t[j:b]
                w = [k for k, x in enumerate(hdr) if x.s == "where"]
                h = hdr[:w[0]] if w else hdr
                f = [k for k, x in enumerate(h) if x.s == "for"]
                if s == "trait":
                    name = "trait " + h[0].s
                elif f:
                    name = norm(h[:f[0]]).replace(" ", "") + " for " + norm(h[f[0] + 1:]).replace(" ", "")
                else:
                    name = norm(h).replace(" ", "")
                c = match_close(t, b)
                self.items.append(("impl", scope, name, i, c + 1))
                self._scan(b + 1, c, scope + name + "|")
                i = c + 1
                start = i
                continue
            if s == "fn":
                j = i + 2
                b = j
                d = 0
                while not (t[b].s in ("{", ";") and d == 0):
                    if t[b].s in ("(", "["): d += 1
                    if t[b].s in (")", "]"): d -= 1
                    b += 1
                if t[b].s == ";":
                    self.items.append(("fn", scope, t[i + 1].s, start, b + 1))
                    i = b + 1
                else:
                    c = match_close(t, b)
                    self.items.append(("fn", scope, t[i + 1].s, start, c + 1))
                    i = c + 1
                start = i
                continue
            if s in ("struct", "enum", "union"):
                nm = t[i + 1].s
                b = i + 2
                while t[b].s not in ("{", ";", "("):
                    b += 1
                if t[b].s == "{":
                    c = match_close(t, b)
                elif t[b].s == "(":
                    c = match_close(t, b)
                    while t[c].s != ";": c += 1
                else:
                    c = b
                self.items.append((s, scope, nm, start, c + 1))
                i = c + 1
                start = i
                continue
            if s in ("const", "static", "type", "use") and t[i + 1].s not in ("fn", "unsafe", "extern"):
                b = i
                while t[b].s != ";":
                    if t[b].s in OPEN:
                        b = match_close(t, b)
                    b += 1
                self.items.append((s, scope, t[i + 1].s, start, b + 1))
                i = b + 1
                start = i
                continue
            if s in OPEN:
                i = match_close(t, i) + 1
                start = i
                continue
            if s == ";":
                start = i + 1
            i += 1

    def find(self, kinds, path):
        """path: 'Level::trade' (impl Level), 'Trait for Ty::f', 'f', 'Name'"""
        scope, _, name = path.rpartition("::")
        hits = []
        for k, sc, nm, a, b in self.items:
            if k not in kinds or nm != name:
                continue
            impl = sc.rsplit("|", 1)[0].split("::")[-1] if "|" in sc else ""
            if sc.endswith("|"):
                impl = sc[:-1].split("|")[-1]
                # strip module prefix
                impl = re.sub(r"^(?:\w+::)+(?=\w)", "", impl) if " for " not in impl else impl
            if scope != impl and not (scope == "" and impl == ""):
                continue
            hits.append((a, b))
        if not hits:
            raise Lost("%s: item `%s` not found" % (self.rel, path))
        if len(hits) > 1:
            raise Lost("%s: item `%s` found %d times" % (self.rel, path, len(hits)))
        return self.t[hits[0][0]:hits[0][1]]


# ---------------------------------------------------------------- body rewriting

def ensure_expander(args):
    return "if !(%s) { return Err(verif_anyhow()); }" % text(split_commas(args)[0]).strip()


def matches_expander(args):
    a = split_commas(args)
    o = toks_of("match ") + a[0] + toks_of(" {")
    for k, z in enumerate(a[1:]):
        o += (toks_of(",") if k else []) + z
    return o + toks_of(" => true, _ => false }")


def rewrite_ranges(t):
    """(A..=B).contains(&X) -> ((A) <= (X) && (X) <= (B)), and the half-open form with <"""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "(" :
            c = match_close(t, i)
            if [x.s for x in t[c + 1:c + 5]] == [".", "contains", "(", "&"]:
                e = match_close(t, c + 3)
                d, cut = 0, None
                for q in range(i + 1, c):
                    if t[q].s in OPEN: d += 1
                    if t[q].s in CLOSE: d -= 1
                    if d == 0 and t[q].s in ("..=", ".."):
                        cut = q
                        break
                if cut is not None and cut > i + 1 and cut < c - 1:
                    x = t[c + 5:e]
                    op = "<=" if t[cut].s == "..=" else "<"
                    out += [mk("((")] + rewrite_ranges(t[i + 1:cut]) + [mk(") <= (")] + x + [mk(") && (")] + x + [mk(") %s (" % op)] + rewrite_ranges(t[cut + 1:c]) + [mk("))")]
                    i = e + 1
                    continue
        out.append(t[i])
        i += 1
    return out


DEFAULT_MACROS = {
    "anyhow": "verif_anyhow()", "format": "verif_string()",
    "matches": matches_expander, "warn": "()", "ensure": ensure_expander, "bail": "return Err(verif_anyhow())",
    "log_warn": "()", "log_info": "()", "log_error": "()", "log_debug": "()", "log_trace": "()",
    "println": "()", "eprintln": "()", "debug_assert": "()", "debug_assert_eq": "()", "dbg": "()",
}
DEFAULT_METHODS = {"iter": "sh_iter", "iter_mut": "sh_iter_mut", "into_iter": "sh_into_iter", "extend": "sh_extend", "contains": "sh_contains",
                   "unwrap_or_else": "unwrap_or_else"}


def rewrite_macros(t, macros):
    out, i = [], 0
    while i < len(t):
        x = t[i]
        if x.kind == "id" and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].s in OPEN and x.s in macros:
            # drop a leading path  a::b::
            while len(out) >= 2 and out[-1].s == "::" and out[-2].kind == "id":
                out.pop(); out.pop()
            ws = x.ws
            rep = macros[x.s]
            c = match_close(t, i + 2)
            if callable(rep):
                r = rep(t[i + 3:c])
                if isinstance(r, str):
                    r = toks_of(r)
            else:
                r = toks_of(rep)
            if r:
                r[0].ws = ws
            out += r
            i = c + 1
            continue
        out.append(x)
        i += 1
    return out


def format_expander(args):
    """format!("lit{}lit{:02}", ..) -> concatenation of contract-carrying pieces; anything but plain {} and zero-padded {:0N} is refused"""
    a = [x for x in split_commas(args) if x]
    lit = "".join(x.s for x in a[0]).strip()
    if not re.match(r'^"([^"\\]|\\.)*"$', lit):
        raise Lost("format!: format string is not a plain literal")
    lit, pos, named, k = lit[1:-1], [], {}, 0
    for x in a[1:]:
        if len(x) > 2 and x[0].kind == "id" and x[1].s == "=":
            named[x[0].s] = text(x[2:])
        else:
            pos.append(text(x))
    parts = []
    for m in re.finditer(r"((?:[^{}]|\{\{|\}\})+)|\{(\w*)(?::(\w*))?\}|(.)", lit):
        if m.group(4):
            raise Lost("format!: " + lit)
        if m.group(1):
            parts.append('fmt_lit("%s")' % m.group(1).replace("{{", "{").replace("}}", "}"))
            continue
        n, sp = m.group(2), m.group(3) or ""
        if n == "":
            if k >= len(pos):
                raise Lost("format!: " + lit)
            e = pos[k]; k += 1
        elif n.isdigit():
            e = pos[int(n)]
        else:
            e = named.get(n, n)
        if sp == "":
            parts.append("fmt_disp(&(%s))" % e)
        elif re.match(r"^0[1-9]\d*$", sp):
            parts.append("fmt_pad(%s, (%s) as i128)" % (sp[1:], e))
        else:
            raise Lost("format!: {:%s}" % sp)
    out = "fmt_empty()" if not parts else parts[0]
    for p in parts[1:]:
        out = "fmt_cat(%s, %s)" % (out, p)
    return out


def macro_expander(item, name):
    """one-arm macro_rules taking expressions -> function from argument tokens to body tokens (arguments substituted as written, parenthesised unless atomic)"""
    t = strip_attrs(item)
    i = next(k for k, x in enumerate(t) if x.s in OPEN)
    arms = t[i + 1:match_close(t, i)]
    if not arms or arms[0].s not in OPEN:
        raise Lost("macro %s: unexpected shape" % name)
    c = match_close(arms, 0)
    params, k = [], 1
    for a in split_commas(arms[1:c]):
        w = [x.s for x in a]
        w = "".join(w)
        m = re.match(r"^\$(\w+):(expr|ident|literal)$", w)
        if not m:
            raise Lost("macro %s: parameter %s" % (name, w))
        params.append(m.group(1))
    k = c + 1
    if arms[k].s != "=>" or arms[k + 1].s not in OPEN:
        raise Lost("macro %s: unexpected arm" % name)
    e = match_close(arms, k + 1)
    rest = [x.s for x in arms[e + 1:] if x.s != ";"]
    if rest:
        raise Lost("macro %s has more than one arm" % name)
    body = arms[k + 2:e]
    # macro hygiene: locals of the body never capture the caller's names
    own = {body[j + (2 if body[j + 1].s == "mut" else 1)].s for j in range(len(body) - 2) if body[j].s == "let"}

    def go(args):
        a = split_commas(args)
        a = [x for x in a if x]
        if len(a) != len(params):
            raise Lost("macro %s called with %d arguments" % (name, len(a)))
        b = dict(zip(params, a))
        out, j = [], 0
        while j < len(body):
            x = body[j]
            if x.s.startswith("$"):
                n = x.s[1:]
                if not n and j + 1 < len(body):
                    j += 1
                    n = body[j].s
                if n not in b:
                    raise Lost("macro %s: $%s" % (name, n))
                v = [Tok(y.s, y.ws, y.line, y.kind) for y in b[n]]
                v[0].ws = x.ws
                if all(y.kind == "id" or y.s in (".", "::") or y.kind == "num" for y in v):
                    out += v
                else:
                    out += [Tok("(", x.ws, x.line, "p")] + v + [mk(")")]
            else:
                local = x.kind == "id" and x.s in own and not (j and body[j - 1].s == ".")
                out.append(Tok(x.s + "__m" if local else x.s, x.ws, x.line, x.kind))
            j += 1
        return [mk("{")] + out + [mk("}")]
    return go


def rewrite_local_consts(t):
    """const N: T = e;  inside a body  ->  let N: T = e;  moved nowhere (a block-local constant used before its line would not resolve and be reported)"""
    out = list(t)
    for i in range(1, len(out) - 2):
        if out[i].s == "const" and out[i + 1].kind == "id" and out[i + 2].s == ":" and out[i - 1].s in ("{", "}", ";"):
            out[i] = Tok("let", out[i].ws, out[i].line, "id")
    return out


def rewrite_byte_match(t):
    """match E { b"x" => A, .. _ => C }  ->  { let __m = E; if sh_bytes_are(__m, &[..]) { A } else { C } }, and the same with text literals and sh_str_is (the verifier has no string patterns)"""
    def P(src):
        r = toks_of(src)
        r[0].ws = " "
        return r
    out, i = [], 0
    while i < len(t):
        x = t[i]
        if x.s == "match":
            j, d = i + 1, 0
            while not (t[j].s == "{" and d == 0):
                if t[j].s in ("(", "["): d += 1
                if t[j].s in (")", "]"): d -= 1
                j += 1
            c = match_close(t, j)
            if j + 1 < c and re.match(r'^b?"', t[j + 1].s):
                arms, k = [], j + 1
                ok = True
                while k < c:
                    pat = []
                    while t[k].s != "=>":
                        pat.append(t[k].s)
                        k += 1
                    k += 1
                    if t[k].s == "{":
                        e = match_close(t, k) + 1
                        body = t[k:e]
                    else:
                        e, d = k, 0
                        while e < c and not (t[e].s == "," and d == 0):
                            if t[e].s in OPEN: d += 1
                            if t[e].s in CLOSE: d -= 1
                            e += 1
                        body = t[k:e]
                    k = e
                    if k < c and t[k].s == ",":
                        k += 1
                    arms.append((pat, rewrite_byte_match(body)))
                if arms[-1][0] != ["_"] or not all(re.match(r'^b?"[^"\\\\]*"$', p) or p == "|" for a in arms[:-1] for p in a[0]):
                    raise Lost("byte-string match of an unexpected shape")
                r = P("{ let __m =") + t[i + 1:j] + P(";")
                for pat, body in arms[:-1]:
                    cond = " || ".join("sh_bytes_are(__m, [%s])" % ", ".join("%du8" % ord(ch) for ch in p[2:-1]) if p[0] == "b" else "sh_str_is(__m, %s)" % p for p in pat if p != "|")
                    r += P("if " + cond + " {") + body + P("} else")
                r += P("{") + arms[-1][1] + P("} }")
                out += r
                i = c + 1
                continue
        out.append(x)
        i += 1
    return out


def rewrite_byte_lits(t):
    """b"x" -> sh_lit([..]) : &'static [u8]"""
    out = []
    for x in t:
        if x.kind == "str" and re.match(r'^b"[^"\\\\]*"$', x.s):
            r = toks_of("sh_lit([%s])" % ", ".join("%du8" % ord(ch) for ch in x.s[2:-1]))
            r[0].ws = x.ws
            out += r
        else:
            out.append(x)
    return out


REAL_TYPES = ("Real", "Time", "f32", "f64")


def rewrite_reals(t):
    """float literals -> Real::lit(n, d); E as Real -> ToReal::to_real(&(E)): machine floats are taken as exact reals"""
    out = []
    for x in t:
        if x.kind == "num" and re.match(r"^\d[\d_]*(\.\d[\d_]*)?([eE][+-]?\d+)?(_?f32|_?f64)?$", x.s) and re.search(r"[.eE]|f32|f64", x.s):
            from fractions import Fraction
            v = Fraction(re.sub(r"_|f32|f64", "", x.s))
            r = toks_of("Real::lit(%di64, %di64)" % (v.numerator, v.denominator))
            r[0].ws = x.ws
            out += r
        elif x.s == "as" and x.kind == "id":
            out.append(x)
        else:
            out.append(x)
    t, i = out, 0
    while i < len(t):
        if t[i].s == "as" and t[i].kind == "id" and i + 1 < len(t) and t[i + 1].s in REAL_TYPES:
            j = _operand_start(t, i)
            e = toks_of("ToReal::to_real(&(") + t[j:i] + toks_of("))")
            e[0].ws = t[j].ws or " "
            t = t[:j] + e + t[i + 2:]
            i = j + len(e)
            continue
        i += 1
    return t


def _operand_start(t, i):
    """first token of the operand of the `as` at t[i]"""
    j = i - 1
    while True:
        if t[j].s in (")", "]"):
            d = 0
            while True:
                if t[j].s in CLOSE: d += 1
                if t[j].s in OPEN:
                    d -= 1
                    if d == 0:
                        break
                j -= 1
            if j > 0 and (t[j - 1].kind == "id" and t[j - 1].s not in ("in", "return", "if", "match", "else", "while", "as") or t[j - 1].s in (")", "]")):
                j -= 1
                continue
            if j > 0 and t[j - 1].s == "!":
                j -= 2
        elif t[j].kind not in ("id", "num"):
            raise Lost("cast to a real of an unexpected shape")
        if t[j - 1].s in (".", "::", "as"):
            j -= 2
            continue
        break
    while t[j - 1].s in ("-", "*", "&", "!") and (t[j - 2].kind == "op" and t[j - 2].s not in (")", "]") or t[j - 2].s in ("return", "in")):
        j -= 1
    return j


def rewrite_methods(t, methods):
    out, skip = [], 0
    for i, x in enumerate(t):
        if i < skip:
            continue
        if x.kind == "id" and x.s == "collect" and i > 0 and t[i - 1].s == "." and i + 2 < len(t) and t[i + 1].s == "::" and t[i + 2].s == "<":
            d, j = 0, i + 2  # collect::<Vec<T>>(): the type is inferred
            while j < len(t):
                d += {"<": 1, ">": -1, ">>": -2}.get(t[j].s, 0)
                j += 1
                if d <= 0:
                    break
            skip = j
            # collecting Results stops at the first error
            out.append(Tok("collect_res", x.ws, x.line, "id") if t[i + 3].s == "Result" else x)
            continue
        if x.kind == "id" and x.s in methods and i > 0 and t[i - 1].s == "." and i + 1 < len(t) and t[i + 1].s in ("(", "::"):
            x = Tok(methods[x.s], x.ws, x.line, "id")
        out.append(x)
    return out


def split_commas(t):
    parts, cur, d = [], [], 0
    ang = 0
    for x in t:
        if x.s in OPEN: d += 1
        if x.s in CLOSE: d -= 1
        if x.s == "<": ang += 1
        if x.s == ">" and ang: ang -= 1
        if x.s == "," and d == 0 and ang == 0:
            parts.append(cur); cur = []
        else:
            cur.append(x)
    if cur:
        parts.append(cur)
    return parts


CLOSURE_PREV = {"(", ",", "=", "=>", "return", "move", "{", ";", "&&", "||"}


def closures(t):
    """yield (start, params_tok, body_start, body_end) for each outermost closure, left to right"""
    i = 0
    res = []
    while i < len(t):
        x = t[i]
        prev = t[i - 1].s if i else "("
        if x.s in ("|", "||") and prev in CLOSURE_PREV:
            st = i
            if prev == "move":
                st = i - 1
            if x.s == "||":
                params, b = [], i + 1
            else:
                j = i + 1
                d = 0
                while not (t[j].s == "|" and d == 0):
                    if t[j].s in OPEN: d += 1
                    if t[j].s in CLOSE: d -= 1
                    j += 1
                params, b = t[i + 1:j], j + 1
            if t[b].s == "->":
                k = b
                while t[k].s != "{":
                    k += 1
                e = match_close(t, k) + 1
                res.append((st, params, b, e))
                i = e
                continue
            if t[b].s == "{":
                e = match_close(t, b) + 1
            else:
                e, d = b, 0
                while e < len(t):
                    if t[e].s in OPEN: d += 1
                    if t[e].s in CLOSE:
                        if d == 0: break
                        d -= 1
                    if t[e].s in (",", ";") and d == 0:
                        break
                    e += 1
            res.append((st, params, b, e))
            i = e
            continue
        i += 1
    return res


def _param_name(p):
    nm = [x for x in p]
    if ":" in [x.s for x in nm]:
        return None
    if len(nm) == 1 and nm[0].kind == "id":
        return nm[0].s
    return None


def auto_closure(k, params, body, spec):
    """Give a closure a contract: `ensures __r == (body)` for a call-free body, or the one from the unit file.

    The body itself is kept token for token; tuple patterns in the parameter list move to a `let`."""
    parts = split_commas(params)
    names, pre = [], []
    for n, p in enumerate(parts):
        if any(x.s == ":" for x in p) and all(x.s not in OPEN for x in p[:1]):
            names.append(text(p).strip())
            continue
        nm = _param_name(p)
        if nm == "_":
            names.append("__p%d_%d" % (k, n))
        elif nm:
            names.append(nm)
        else:
            v = "__p%d_%d" % (k, n)
            names.append(v)
            if p[0].s == "&" and len(p) == 2:
                pre.append("let %s = *%s;" % (p[1].s, v))
            elif p[0].s == "&":
                pre.append("let %s = *%s;" % (text(p[1:]).strip(), v))
            else:
                pre.append("let %s = %s;" % (text(p).strip(), v))
    b = text(body).strip()
    pres = " ".join(pre)
    if spec:
        head = "|%s| %s" % (", ".join(spec.get("params", names)), spec["spec"])
        return head + " { " + pres + " " + b + " }"
    if not params:
        return None
    calls = [body[i - 1].s for i in range(1, len(body)) if body[i].s == "(" and body[i - 1].kind == "id"]
    if body and body[0].s == "{":
        return None
    if calls:
        return "|%s| { %s %s }" % (", ".join(names), pres, b) if pre else None
    isbool = any(x.s in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", "!") for x in body)
    ty = "bool" if isbool else "_"
    return "|%s| -> (__r: %s) ensures sh_eq(__r, { %s %s }) { %s %s }" % (", ".join(names), ty, pres, b, pres, b)


def rewrite_closures(t, specs, counter):
    cl = closures(t)
    out, pos = [], 0
    for (st, params, b, e) in cl:
        k = counter[0]
        counter[0] += 1
        body = t[b:e]
        r = None
        if t[b].s != "->":
            r = auto_closure(k, params, body, specs.get(k))
        if r is None:
            # descend
            out += t[pos:b] + rewrite_closures(body, specs, counter)
        else:
            out += t[pos:st] + [Tok(r, t[st].ws or " ", t[st].line, "raw")]
        pos = e
    return out + t[pos:]


class Loops:
    def __init__(self, specs, where):
        self.specs, self.where, self.n, self.used = specs, where, 0, set()

    def spec(self, header):
        k = self.n
        self.n += 1
        sp = self.specs.get(k)
        if sp is None:
            raise Lost("%s: loop %d `%s` has no invariant in the unit file" % (self.where, k, header))
        kind = lambda h: re.match(r"(while let|while|for|loop)?", h).group(0)
        if sp.get("header") is not None and kind(sp["header"]) != kind(header):
            raise Lost("%s: loop %d header is now `%s`" % (self.where, k, header))
        self.used.add(k)
        return k, sp


def find_block(t, i):
    """first `{` at bracket depth 0 from i"""
    d = 0
    while i < len(t):
        if t[i].s == "{" and d == 0:
            return i
        if t[i].s in OPEN: d += 1
        if t[i].s in CLOSE: d -= 1
        i += 1
    raise Lost("loop without a block")


def rewrite_loops(t, loops):
    out, i = [], 0
    while i < len(t):
        x = t[i]
        if x.kind == "id" and x.s in ("while", "for", "loop") and not (x.s == "for" and i + 1 < len(t) and t[i + 1].s == "<"):
            b = find_block(t, i + 1)
            c = match_close(t, b)
            hdr = norm(t[i:b])
            k, sp = loops.spec(hdr)
            body = rewrite_loops(t[b + 1:c], loops)
            lab = ""
            if len(out) >= 2 and out[-1].s == ":" and out[-2].kind == "life":
                lab = out[-2].s + ": "
                out.pop(); out.pop()
            inv = "\n" + sp.get("spec", "") + "\n"
            begin = " " + sp.get("begin", "") + " "
            endp = " " + sp.get("end", "") + " "
            before = sp.get("before", "")
            after = sp.get("after", "")
            def wrap(core):
                return [mk("{ " + before)] + core + [mk(after + " }")] if True else core
            if x.s == "while" and t[i + 1].s == "let":
                eq = i + 2
                d = 0
                while not (t[eq].s == "=" and d == 0):
                    if t[eq].s in OPEN: d += 1
                    if t[eq].s in CLOSE: d -= 1
                    eq += 1
                pat, ex = t[i + 2:eq], t[eq + 1:b]
                core = [mk(lab + "loop " + inv + "{ " + begin + " match")] + ex + [mk("{")] + pat + [mk("=> {")] + body + \
                       [mk(endp + "} _ => { break; } } }")]
            elif x.s == "while":
                core = [mk(lab + "while")] + t[i + 1:b] + [mk(inv + "{" + begin)] + body + [mk(endp + "}")]
            elif x.s == "loop":
                core = [mk(lab + "loop" + inv + "{" + begin)] + body + [mk(endp + "}")]
            else:
                ii = i + 1
                d = 0
                while not (t[ii].s == "in" and d == 0):
                    if t[ii].s in OPEN: d += 1
                    if t[ii].s in CLOSE: d -= 1
                    ii += 1
                pat, ex = t[i + 1:ii], t[ii + 1:b]
                it = "__it%d" % k
                d = 0
                for q, y in enumerate(ex):
                    if y.s in OPEN: d += 1
                    if y.s in CLOSE: d -= 1
                    if y.s == "..=" and d == 0:
                        ex = [mk("sh_incl(")] + ex[:q] + [mk(",")] + ex[q + 1:] + [mk(")")]
                        break
                np, deref = [], ""
                for q, y in enumerate(pat):  # `&x` in the pattern: bound by reference, then copied out
                    if y.s == "&" and q + 1 < len(pat) and pat[q + 1].kind == "id":
                        continue
                    if q and pat[q - 1].s == "&" and y.kind == "id":
                        deref += "let %s = *__rf_%s; " % (y.s, y.s)
                        y = Tok("__rf_" + y.s, y.ws, y.line, "id")
                    np.append(y)
                pat = np
                # an iterator over a call's result: the result lives as long as the loop
                hold = any(y.s == "sh_iter" and q > 3 and [z.s for z in ex[q - 3:q]] == ["(", ")", "."] and ex[q - 4].s not in ("borrow", "keys", "values") for q, y in enumerate(ex))
                head, sep, close = ("match sh_for(", ") { mut %s => { " % it, "} } ") if hold else ("let mut %s = sh_for(" % it, "); ", "")
                core = [mk(head)] + ex + [mk(sep + sp.get("init", "") + lab + "loop " + inv + "{ match %s.next() { Some(" % it)] + pat + \
                       [mk(") => { " + deref + begin)] + body + [mk(endp + " } None => { break; } } }" + close)]
            out += wrap(core)
            i = c + 1
            continue
        out.append(x)
        i += 1
    return out


def split_fn(t):
    """tokens of a fn item -> (sig tokens before body, body tokens incl. braces or None)"""
    t = strip_attrs(t)
    i = 0
    while t[i].s != "fn":
        i += 1
    b = i
    d = 0
    while not (t[b].s in ("{", ";") and d == 0):
        if t[b].s in ("(", "["): d += 1
        if t[b].s in (")", "]"): d -= 1
        b += 1
    if t[b].s == ";":
        return t[:b], None
    return t[:b], t[b:match_close(t, b) + 1]


def name_return(sig, name="ret"):
    d = 0
    for i, x in enumerate(sig):
        if x.s in ("(", "["): d += 1
        if x.s in (")", "]"): d -= 1
        if x.s == "->" and d == 0:
            j = len(sig)
            for k in range(i, len(sig)):
                if sig[k].s == "where":
                    j = k
            return sig[:i + 1] + [mk("(%s:" % name)] + sig[i + 1:j] + [mk(")")] + sig[j:], True
    return sig, False


# map entries are removed through a reference in the shims
ENTRY_SUBST = [("Occupied ( entry )", "Occupied ( mut entry )"), ("Vacant ( entry )", "Vacant ( mut entry )"), ("Occupied ( e )", "Occupied ( mut e )")]


def emit_fn(t, ann, cfg, where):
    """ann: dict(contract, loops{}, closures{}, begin, end, body('external'))"""
    sig, body = split_fn(t)
    sig, _ = name_return(sig)
    rep = cfg.get("subst", []) + ann.get("subst", [])
    macros = dict(DEFAULT_MACROS); macros.update(cfg.get("macros", {}))
    methods = dict(DEFAULT_METHODS); methods.update(cfg.get("methods", {}))
    for d in cfg.get("drop_methods", []):
        methods.pop(d, None)
    loops = Loops(ann.get("loops", {}), where)
    b = rewrite_ranges(rewrite_macros(strip_attrs(body), macros))
    p = next((i for i in range(len(sig) - 2) if sig[i].s in ("(", ",") and sig[i + 1].s == "mut" and sig[i + 2].s == "self"), None)
    if p is not None:  # `mut self`: the verifier wants the mutable copy spelled out
        sig = sig[:p + 1] + sig[p + 2:]
        b = [b[0]] + toks_of(" let mut self__v = self ;") + [Tok("self__v", x.ws, x.line, "id") if x.s == "self" else x for x in b[1:]]
    s = text(sig)
    b = rewrite_local_consts(b)
    b = rewrite_byte_match(b)
    if cfg.get("byte_lits"):
        b = rewrite_byte_lits(b)
    if cfg.get("reals"):
        b = rewrite_reals(b)
    b = apply_subst(b, ENTRY_SUBST, where)
    b = apply_subst(b, rep, where)
    b = rewrite_methods(b, methods)
    cc = [0]
    b = rewrite_closures(b, ann.get("closures", {}), cc)
    for k in ann.get("closures", {}):
        if k >= cc[0]:
            raise Lost("%s: closure %d is gone" % (where, k))
    nblocks = 0
    if ann.get("blocks"):
        b, nblocks, top = block_probes(b, ann["blocks"])
        ann["begin"] = ann.get("begin", "") + "\n" + "".join("let ghost mut __b%d = false; " % k for k in range(nblocks))
        ann["tail"] = ann.get("tail", "") + "\n" + _probe_asserts(range(nblocks), ann["blocks"])
    inner = rewrite_loops(b[1:-1], loops)
    missing = set(ann.get("loops", {})) - loops.used
    if missing:
        raise Lost("%s: loop(s) %s gone" % (where, sorted(missing)))
    bt = text(inner)
    for a, r in cfg.get("sig_subst", []) + ann.get("sig_subst", []):
        s = re.sub(a, r, s)
    if ann.get("tail"):
        m = re.search(r"->\s*\(ret: (.*)\)\s*(?:where\b.*)?$", s.strip(), re.S)
        bt = " let __res" + (": " + m.group(1) if m and "*const" in m.group(1) else "") + " = {" + bt + "}; " + ann["tail"] + " __res "
    return s + "\n" + ann.get("contract", "") + "\n{ " + ann.get("begin", "") + "\n" + bt + "\n" + ann.get("end", "") + "}\n"


def renames(old, new):
    """local renamings between two token lists of one function: {old identifier: new identifier}"""
    import difflib
    if old == new:
        return {}
    m, bad = {}, set()
    ident = re.compile(r"^[A-Za-z_]\w*$")
    for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if op == "replace" and i2 - i1 == j2 - j1:
            for a, b in zip(old[i1:i2], new[j1:j2]):
                if a != b and ident.match(a) and ident.match(b):
                    if m.get(a, b) != b:
                        bad.add(a)
                    m[a] = b
    olds, news = set(old), set(new)
    # a rename: the old name is gone, the new one was not there before
    return {a: b for a, b in m.items() if a not in bad and a not in news and b not in olds}


def _probe_asserts(ks, name):
    return "".join("\nproof { if __arb(%d) { assert(!__b%d); //probe:%s:block%d\n } }" % (k, k, name, k) for k in ks)


def block_probes(t, name):
    """audit: a ghost flag per branch; a flag that provably never reaches an exit marks an unreachable branch"""
    out, n = list(t), [0]

    def go(lo, hi, loop):
        # returns list of new tokens for t[lo:hi]; loop = list collecting flags of the innermost loop
        res, i = [], lo
        while i < hi:
            x = t[i]
            if x.kind == "id" and x.s in ("if", "while", "for", "loop") and not (x.s == "for" and t[i + 1].s == "<"):
                b = find_block(t, i + 1)
                c = match_close(t, b)
                res += go(i + 1, b, loop) if False else []
                hdr = t[i:b]
                k = n[0]; n[0] += 1
                isloop = x.s != "if"
                mine = [] if isloop else loop
                mine.append(k)
                body = go(b + 1, c, mine)
                set_ = "proof { __b%d = true; } " % k
                if isloop:
                    reset = "proof { %s } " % "".join("__b%d = false; " % q for q in mine)
                    res += hdr + [mk("{"), mk(reset + set_)] + body + [mk((";" if body and body[-1].s not in (";", "}") else "") + _probe_asserts(mine, name) + "\n"), mk("}")]
                else:
                    res += hdr + [mk("{"), mk(set_)] + body + [mk("}")]
                i = c + 1
                continue
            if (x.s == "else" or x.s == "=>") and t[i + 1].s == "{":
                c = match_close(t, i + 1)
                k = n[0]; n[0] += 1
                loop.append(k)
                res += [x, mk("{"), mk("proof { __b%d = true; } " % k)] + go(i + 2, c, loop) + [mk("}")]
                i = c + 1
                continue
            if x.kind == "id" and x.s in ("return", "break", "continue"):
                e, d = i + 1, 0
                while e < hi and not (d == 0 and (t[e].s in (";", ",") or t[e].s in CLOSE)):
                    if t[e].s in OPEN: d += 1
                    if t[e].s in CLOSE: d -= 1
                    e += 1
                ks = range(n[0]) if x.s == "return" else loop
                res += [mk("{"), mk(_probe_asserts(ks, name) + "\n")] + t[i:e] + [mk("}")]
                i = e
                continue
            res.append(x)
            i += 1
        return res
    r = [t[0]] + go(1, len(t) - 1, []) + [t[-1]]
    return r, n[0], None


def emit_sig(t, ann, cfg):
    sig, _ = split_fn(t)
    sig, _ = name_return(sig)
    s = text(sig)
    for a, r in cfg.get("sig_subst", []) + ann.get("sig_subst", []):
        s = re.sub(a, r, s)
    return s + "\n" + ann.get("contract", "") + "\n{ unimplemented!() }\n"


def apply_subst(t, rules, where):
    """token-sequence substitutions: [(pattern string, replacement string, required?)].

    The pattern is matched token by token; `$x` in a pattern matches one bracket-balanced argument
    (up to a comma/closing bracket at depth 0)."""
    for rule in rules:
        pat, rep = rule[0], rule[1]
        pt = toks_of_pat(pat)
        out, i, hits = [], 0, 0
        while i < len(t):
            m = _match(t, i, pt)
            if m:
                end, b = m
                r = toks_of_pat(rep)
                o = []
                for x in r:
                    if x.s in b and x.kind == "var":
                        o += b[x.s]
                    else:
                        o.append(x)
                if o:
                    o[0] = Tok(o[0].s, t[i].ws or o[0].ws, t[i].line, o[0].kind)
                out += o
                i = end
                hits += 1
            else:
                out.append(t[i])
                i += 1
        t = out
    return t


def toks_of_pat(s):
    parts = re.split(r"(\$\w+)", s)
    out = []
    for p in parts:
        if p.startswith("$"):
            out.append(Tok(p, " ", 0, "var"))
        else:
            q = lex(p)
            out += q
    return out


def _match(t, i, pt):
    b = {}
    k = 0
    while k < len(pt):
        p = pt[k]
        if p.kind == "var":
            st, d = i, 0
            stop = pt[k + 1].s if k + 1 < len(pt) else None
            while i < len(t):
                if d == 0 and (t[i].s == stop or t[i].s in (",", ";") or t[i].s in CLOSE):
                    break
                if t[i].s in OPEN: d += 1
                if t[i].s in CLOSE: d -= 1
                i += 1
            if i == st:
                return None
            b[p.s] = t[st:i]
            k += 1
            continue
        if i >= len(t) or t[i].s != p.s:
            return None
        i += 1
        k += 1
    return i, b
