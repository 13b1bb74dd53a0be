"""A small Rust lexer and item finder.

Only what mechanical extraction needs: a token stream with byte spans (comments
and whitespace dropped), brace matching, and lookup of items (fn / struct / enum /
const / trait / impl) by path such as  ``CrossSolver::cross_point`` or
``RoundDivide for UInt128::divide_with_rounding``.
"""
import re

TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<raw>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
  | (?P<str>b?"(?:\\(?:.|\n)|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:u\{[^}]*\}|x[0-9a-fA-F]{2}|.)|[^'\\\n])')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
  | (?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|<<=|>>=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|.)
""", re.X)


class Tok:
    __slots__ = ("kind", "s", "a", "b")

    def __init__(self, kind, s, a, b):
        self.kind, self.s, self.a, self.b = kind, s, a, b

    def __repr__(self):
        return f"{self.s!r}"


def lex(src):
    out = []
    i, n = 0, len(src)
    while i < n:
        m = TOKEN.match(src, i)
        if not m:
            i += 1
            continue
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if k == "bc":
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group("raw"):
            k = "str"
        if k not in ("ws", "lc"):
            out.append(Tok(k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_table(toks):
    """index of the partner of every bracket token"""
    st, tab = [], {}
    for i, t in enumerate(toks):
        if t.kind == "op" and t.s in OPEN:
            st.append(i)
        elif t.kind == "op" and t.s in CLOSE:
            if not st:
                raise ValueError("unbalanced " + t.s)
            j = st.pop()
            tab[i] = j
            tab[j] = i
    if st:
        raise ValueError("unbalanced open bracket")
    return tab


class Item:
    """kind: fn/struct/enum/const/trait/impl/mod/use/static/type; header text is normalised"""

    def __init__(self, kind, name, start, end, body, container, attrs, kw):
        self.kind, self.name = kind, name
        self.start, self.end = start, end      # token index range [start, end)
        self.body = body                       # (open, close) token idx or None
        self.container = container             # normalised impl/trait header or ""
        self.attrs = attrs                     # list of attribute texts
        self.kw = kw                           # token index of the keyword


def norm(toks):
    s = ""
    for t in toks:
        if s and (s[-1].isalnum() or s[-1] == "_") and (t.s[0].isalnum() or t.s[0] == "_" or t.s[0] == "'"):
            s += " "
        s += t.s
    return s


def skip_generics(toks, i):
    """i at '<' -> index after the matching '>'"""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
            if d == 0:
                return i + 1
        elif s == ">>":
            d -= 2
            if d <= 0:
                return i + 1
        i += 1
    return i


class Source:
    def __init__(self, path, text):
        self.path, self.text = path, text
        self.toks = lex(text)
        self.tab = match_table(self.toks)
        self.items = []
        self._scan(0, len(self.toks), "")

    def _scan(self, i, end, container):
        toks, tab = self.toks, self.tab
        while i < end:
            start = i
            attrs = []
            while i < end and toks[i].s == "#":
                j = i + 1
                if toks[j].s == "!":
                    j += 1
                k = tab[j]
                attrs.append(norm(toks[i:k + 1]))
                i = k + 1
            if i >= end:
                break
            # visibility & qualifiers
            if toks[i].s == "pub":
                i += 1
                if i < end and toks[i].s == "(":
                    i = tab[i] + 1
            while i < end and toks[i].s in ("unsafe", "async", "default", "extern") or \
                    (i + 1 < end and toks[i].s == "const" and toks[i + 1].s in ("fn", "unsafe")):
                i += 1
                if toks[i].kind == "str":
                    i += 1
            if i >= end:
                break
            t = toks[i]
            kw = i
            if t.s in ("fn", "struct", "enum", "const", "static", "trait", "mod", "type", "union", "use", "impl", "macro_rules"):
                name = toks[i + 1].s if t.s != "impl" else ""
                # find end: first ';' or '{..}' at depth 0
                j = i + 1
                body = None
                if t.s == "impl":
                    if toks[j].s == "<":
                        j = skip_generics(toks, j)
                    h0 = j
                while j < end:
                    s = toks[j].s
                    if s == ";":
                        j += 1
                        break
                    if s == "{" and t.s not in ("const", "static", "use"):
                        body = (j, tab[j])
                        j = tab[j] + 1
                        break
                    if s in OPEN:
                        j = tab[j] + 1
                        continue
                    j += 1
                if t.s == "impl":
                    hdr_toks = []
                    k = h0
                    while k < body[0]:
                        if toks[k].s == "where":
                            break
                        hdr_toks.append(toks[k])
                        k += 1
                    name = norm(hdr_toks)
                it = Item(t.s, name, start, j, body, container, attrs, kw)
                self.items.append(it)
                if t.s == "impl" and body:
                    self._scan(body[0] + 1, body[1], name)
                elif t.s == "trait" and body:
                    self._scan(body[0] + 1, body[1], "trait " + name)
                elif t.s == "mod" and body and not any("cfg(test)" in a or "cfg(kani)" in a for a in attrs):
                    self._scan(body[0] + 1, body[1], container)
                i = j
            else:
                # macro invocation item or junk: skip to ';' or a brace group
                while i < end and toks[i].s != ";" and toks[i].s not in OPEN:
                    i += 1
                if i < end and toks[i].s in OPEN:
                    i = tab[i] + 1
                if i < end and toks[i].s == ";":
                    i += 1

    def find(self, kind, container, name):
        c = norm(lex(container)) if container else ""
        r = []
        for it in self.items:
            if it.kind != kind:
                continue
            if kind == "impl":
                if it.name == norm(lex(name)):
                    r.append(it)
            elif it.name == name and it.container == c:
                r.append(it)
        r = [it for it in r if not any("cfg(test)" in a for a in it.attrs)]
        return r

    def span(self, i, j):
        """source text of tokens i..j (j exclusive)"""
        return self.text[self.toks[i].a:self.toks[j - 1].b]
