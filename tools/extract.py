"""Mechanical extraction of Rust items into a single-file Verus program.

A unit file (``verus/*.vx``) is Verus text with ``//@`` directives. Text outside
directives (spec functions, lemmas, trait specs) is copied. Directives pull in
items from the *current* source tree:

  //@ include other.vx
  //@ import other.vx                           contracts only: bodies are dropped, they are verified in other.vx
  //@ item FILE KIND NAME [in CONTAINER]        struct / enum / const / type alias / trait
  //@ fn FILE CONTAINER NAME                     CONTAINER is '-' for a free function
  //@ sig TEXT                                   (optional) replace the signature's generics/where, see `sub`
  //@ ret NAME                                   name of the result (default r)
  //@ as NEWNAME                                 emit under another name
  //@ sub <<<OLD>>> <<<NEW>>>                    token-level substitution, must match (``?`` first: may be absent);
                                                ``$X`` captures a balanced run of tokens
  //@ spec | entry | exit | finish | loop K | loopbody K | loopend K | before_loop K | after_loop K | after NAME
      ... text lines ...
  //@ endfn

What the extraction changes in the program text (and nothing else):
  D1 attributes and visibility are dropped / made pub, the return value is named;
  D2 ``unsafe { .. }`` becomes a plain block and ``x.get_unchecked(i)`` /
     ``x.get_unchecked_mut(i)`` becomes ``&x[i]`` / ``&mut x[i]`` (which ADDS a bounds
     obligation: the verifier must show i < x.len());
  D3 ``debug_assert!(c)`` becomes a proof obligation ``assert(c)``;
  D4 ``for &x in e {`` becomes ``for x_ref in e { let x = *x_ref; ..``,
     ``if let Some(&x) = e {`` becomes ``if let Some(x) = e { let x = *x; ..``;
  D6 (units that ask for it with ``//@ index_loops``) a loop over a slice,
     ``for PAT in E.iter()[.enumerate()][.skip(k)][.take(n)]`` (or iter_mut), becomes the
     (or ``for PAT in s`` where s is a parameter of type &[T]) becomes the
     loop over its positions ``for itK in lo..hi { let PAT = &E[itK]; ..`` (K-th loop);
  D7 (the same units) in the body of a for loop ``if c { continue; } rest`` becomes ``if c { } else { rest }``;
  D8 ``fn f(mut self, ..) { body }`` becomes ``fn f(self, ..) { let mut vx_self = self; body with vx_self for self }``;
  D5 explicit ``sub`` rewrites, listed one by one in the unit and in the evidence.
"""
import os
import re
from rustlex import Source, lex, norm, match_table, OPEN, skip_generics


class Structural(Exception):
    """the source no longer has the shape the unit needs (never a violation)"""


FILE_ALIAS = {}


class Repo:
    def __init__(self, root, registry):
        self.root = root
        self.registry = registry
        self.cache = {}

    def path(self, f):
        if f.startswith("i_float:"):
            return os.path.join(self.registry["i_float"], "src", f.split(":", 1)[1])
        if f.startswith("i_shape:"):
            return os.path.join(self.registry["i_shape"], "src", f.split(":", 1)[1])
        if f.startswith("i_key_sort:"):
            return os.path.join(self.registry["i_key_sort"], "src", f.split(":", 1)[1])
        return os.path.join(self.root, f)

    def source(self, f):
        p = self.path(f)
        if p not in self.cache:
            try:
                text = open(p).read()
            except OSError:
                raise Structural(f"source file {f} not found")
            try:
                self.cache[p] = Source(p, text)
            except ValueError as e:
                raise Structural(f"cannot lex {f}: {e}")
        return self.cache[p]

    def all_sources(self):
        for d, _, fs in os.walk(self.root):
            for x in sorted(fs):
                if x.endswith(".rs"):
                    yield os.path.relpath(os.path.join(d, x), self.root)

    def find(self, f, kind, container, name):
        try:
            s = self.source(f)
            r = s.find(kind, container, name)
        except Structural:
            r = []
        if len(r) == 1:
            return s, r[0]
        if len(r) > 1:
            raise Structural(f"{kind} {container}::{name} is ambiguous in {f}")
        if ":" in f:
            raise Structural(f"{kind} {container}::{name} not found in {f}")
        # moved to another file?
        hits = []
        for g in self.all_sources():
            s = self.source(g)
            for it in s.find(kind, container, name):
                hits.append((s, it))
        if len(hits) == 1:
            return hits[0]
        raise Structural(f"{kind} {container or ''}::{name} not found ({len(hits)} candidates)")


KEEP_DERIVES = ("Clone", "Copy", "PartialEq", "Eq")


def filter_attrs(attrs):
    out = []
    for a in attrs:
        m = re.match(r"#\[derive\((.*)\)\]$", a)
        if m:
            ds = [d.strip() for d in m.group(1).split(",")]
            ds = [d for d in ds if d in KEEP_DERIVES]
            if ds:
                out.append("#[derive(" + ", ".join(ds) + ")]")
    return out


class Edit:
    """span edits on token indices of one item"""

    def __init__(self, src, start, end):
        self.src, self.start, self.end = src, start, end
        self.rep = []   # (a, b, text) char spans

    def replace(self, a, b, text):
        self.rep.append((a, b, text, len(self.rep)))

    def insert(self, pos, text):
        self.rep.append((pos, pos, text, len(self.rep)))

    def render(self, lo, hi):
        out, pos = [], lo
        for a, b, t, _ in sorted(self.rep, key=lambda r: (r[0], r[1], r[3])):
            if a < pos:
                raise Structural("overlapping rewrites")
            out.append(self.src.text[pos:a])
            out.append(t)
            pos = b
        out.append(self.src.text[pos:hi])
        return "".join(out)


def default_rewrites(text, log):
    """D2..D4 on a function text (token level, iterated)."""
    # strip comments so that line structure of comments never matters
    def once(text):
        toks = lex(text)
        tab = match_table(toks)
        for i, t in enumerate(toks):
            if t.s == "mut" and toks[i - 1].s == "(" and toks[i + 1].s == "self" and (toks[i - 2].kind == "id" or toks[i - 2].s == ">") and any(x.s == "fn" for x in toks[:i]):
                k = tab[i - 1] + 1
                while toks[k].s != "{":
                    k = tab[k] + 1 if toks[k].s in OPEN else k + 1
                out, last = text[:t.a] + text[toks[i + 1].a:toks[k].b] + " let mut vx_self = self;", toks[k].b
                for q in range(k + 1, tab[k]):
                    if toks[q].s == "self":
                        out += text[last:toks[q].a] + "vx_self"
                        last = toks[q].b
                log.add("D8 mut self")
                return out + text[last:]
            if t.s == "unsafe" and toks[i + 1].s == "{":
                log.add("D2 unsafe block")
                return text[:t.a] + text[t.b:]
            if t.s in ("get_unchecked", "get_unchecked_mut") and toks[i - 1].s == "." and toks[i + 1].s == "(":
                # receiver
                j = i - 2
                while True:
                    if toks[j].s in (")", "]"):
                        j = tab[j] - 1
                        # call: identifier precedes
                        if toks[j].kind == "id":
                            pass
                        else:
                            j += 1
                            break
                    if toks[j].kind in ("id", "num"):
                        if j >= 1 and toks[j - 1].s in (".", "::"):
                            j -= 2
                            continue
                        break
                    break
                close = tab[i + 1]
                recv = text[toks[j].a:toks[i - 2].b]
                arg = text[toks[i + 1].b:toks[close].a]
                mut = t.s.endswith("_mut")
                log.add("D2 " + t.s)
                amp = "&mut " if mut else "&"
                s0, s1 = toks[j].a, toks[close].b
                # `*x.get_unchecked(i)` -> `x[i]` ; `x.get_unchecked(i).f` -> `x[i].f`
                prev = toks[j - 1] if j else None
                nxt = toks[close + 1] if close + 1 < len(toks) else None
                if nxt is not None and nxt.s == ".":
                    new = f"{recv}[{arg}]"
                elif prev is not None and prev.s == "*" and (j < 2 or not (toks[j - 2].kind in ("id", "num") and toks[j-2].s not in ("return", "in", "else") or toks[j - 2].s in (")", "]"))):
                    new = f"{recv}[{arg}]"
                    s0 = prev.a
                else:
                    new = f"({amp}{recv}[{arg}])"
                return text[:s0] + new + text[s1:]
            if t.s in ("debug_assert", "debug_assert_eq", "debug_assert_ne") and toks[i + 1].s == "!":
                o = i + 2
                c = tab[o]
                # split args at top-level commas
                args, cur, k = [], o + 1, o + 1
                while k < c:
                    if toks[k].s in OPEN:
                        k = tab[k] + 1
                        continue
                    if toks[k].s == ",":
                        args.append(text[toks[cur].a:toks[k - 1].b])
                        cur = k + 1
                    k += 1
                if cur < c:
                    args.append(text[toks[cur].a:toks[c - 1].b])
                log.add("D3 debug_assert")
                if t.s == "debug_assert":
                    e = args[0]
                elif t.s == "debug_assert_eq":
                    e = f"({args[0]}) == ({args[1]})"
                else:
                    e = f"({args[0]}) != ({args[1]})"
                end = toks[c].b
                return text[:t.a] + "{ let vx_da: bool = " + e + "; assert(vx_da); }" + text[end:]
            if t.s == "for" and toks[i + 1].s == "&" and toks[i + 2].kind == "id" and toks[i + 3].s == "in":
                name = toks[i + 2].s
                k = i + 4
                while toks[k].s != "{":
                    k = tab[k] + 1 if toks[k].s in OPEN else k + 1
                log.add("D4 for &x")
                return (text[:toks[i + 1].a] + name + "_ref" + text[toks[i + 2].b:toks[k].b] +
                        f" let {name} = *{name}_ref;" + text[toks[k].b:])
            if (t.s == "if" and [x.s for x in toks[i + 1:i + 5]] == ["let", "Some", "(", "&"] and toks[i + 5].kind == "id"
                    and toks[i + 5].s != "mut" and [x.s for x in toks[i + 6:i + 8]] == [")", "="]):
                name = toks[i + 5].s
                k = i + 8
                while toks[k].s != "{":
                    k = tab[k] + 1 if toks[k].s in OPEN else k + 1
                log.add("D4 Some(&x)")
                return text[:toks[i + 4].a] + text[toks[i + 5].a:toks[k].b] + f" let {name} = *{name};" + text[toks[k].b:]
        return None

    while True:
        n = once(text)
        if n is None:
            return text
        text = n


def index_loops(text, log):
    """D6: loops over slices become loops over positions"""
    def once(text):
        toks = lex(text)
        tab = match_table(toks)
        ordinal = -1
        for i, t in enumerate(toks):
            if t.kind != "id" or t.s not in ("for", "while", "loop"):
                continue
            if t.s == "for" and toks[i + 1].s == "<":
                continue
            ordinal += 1
            if t.s != "for":
                continue
            p = i + 1
            while toks[p].s != "in":
                p = tab[p] + 1 if toks[p].s in OPEN else p + 1
            k = p + 1
            dots = []
            while toks[k].s != "{":
                if toks[k].s == "." and toks[k + 1].kind == "id" and toks[k + 2].s == "(":
                    dots.append(k)
                k = tab[k] + 1 if toks[k].s in OPEN else k + 1
            calls = []
            for d in dots:
                o = d + 2
                c = tab[o]
                calls.append((d, toks[d + 1].s, text[toks[o].b:toks[c].a], c))
            start = [n for n, c in enumerate(calls) if c[1] in ("iter", "iter_mut")]
            if not start:
                # ``for PAT in s`` where s is a parameter of type &[T]
                if k == p + 2 and toks[p + 1].kind == "id" and re.search(r"\b%s\s*:\s*&\s*\[" % toks[p + 1].s, text[:toks[i].a]):
                    log.add("D6 slice loop by position")
                    pat, v, recv = text[toks[i + 1].a:toks[p - 1].b], f"it{ordinal}", toks[p + 1].s
                    let = f" let {pat[1:].strip()} = {recv}[{v}];" if pat.startswith("&") else f" let {pat} = &{recv}[{v}];"
                    return text[:toks[i + 1].a] + f"{v} in 0..{recv}.len() " + text[toks[k].a:toks[k].b] + let + text[toks[k].b:]
                continue
            n0 = start[-1]
            recv = text[toks[p + 1].a:toks[calls[n0][0] - 1].b]
            if recv.startswith("&mut ") or recv.startswith("&"):
                continue
            mut = calls[n0][1] == "iter_mut"
            rest = calls[n0 + 1:]
            if any(c[1] not in ("enumerate", "skip", "take", "rev") for c in rest) or calls[-1][3] != k - 1:
                continue
            lo, hi, base, enum, rev = "0", f"{recv}.len()", "0", False, False
            ok = True
            for _, nm, arg, _ in rest:
                if nm == "enumerate":
                    if enum or rev:
                        ok = False
                    enum, base = True, lo
                elif nm == "skip":
                    if rev:
                        ok = False
                    lo = f"({arg})" if lo == "0" else f"({lo} + ({arg}))"
                elif nm == "take":
                    if rev or lo != "0":
                        ok = False
                    hi = f"vx_min({hi}, {arg})"
                else:
                    ok = False
            if not ok:
                continue
            pat = text[toks[i + 1].a:toks[p - 1].b]
            v = f"it{ordinal}"
            lets = ""
            if enum:
                m = re.match(r"\(\s*(\w+)\s*,\s*(.*?)\s*,?\s*\)$", pat, re.S)
                if not m:
                    continue
                idx, pat = m.group(1), m.group(2)
                if idx != "_":
                    lets += f" let {idx}: usize = {v}" + ("" if base == "0" else f" - {base}") + ";"
            if pat != "_":
                if pat.startswith("&"):
                    if mut:
                        continue
                    lets += f" let {pat[1:].strip()} = {recv}[{v}];"
                else:
                    lets += f" let {pat} = " + ("&mut " if mut else "&") + f"{recv}[{v}];"
            log.add("D6 slice loop by position")
            return text[:toks[i + 1].a] + f"{v} in {lo}..{hi}" + " " + text[toks[k].a:toks[k].b] + lets + text[toks[k].b:]
        return None

    while True:
        n = once(text)
        if n is None:
            return text
        text = n


def no_continue(text, log):
    """D7: `continue` at the start of an iteration becomes an else branch"""
    def once(text):
        toks = lex(text)
        tab = match_table(toks)
        for i, t in enumerate(toks):
            if t.s != "for" or toks[i + 1].s == "<":
                continue
            k = i + 1
            while k < len(toks) and toks[k].s != "{":
                k = tab[k] + 1 if toks[k].s in OPEN else k + 1
            if k >= len(toks) or not any(x.s == "in" for x in toks[i:k]):
                continue
            while True:
                end = tab[k]
                j = k + 1
                while j < end:
                    if toks[j].s == "if" and toks[j - 1].s in ("{", "}", ";"):
                        o = j + 1
                        while toks[o].s != "{":
                            o = tab[o] + 1 if toks[o].s in OPEN else o + 1
                        c = tab[o]
                        if [x.s for x in toks[o + 1:c]] == ["continue", ";"] and toks[c + 1].s != "else":
                            log.add("D7 continue")
                            return text[:toks[o].b] + " } else {" + text[toks[c].b:toks[end].a] + "}" + text[toks[end].a:]
                    j = tab[j] + 1 if toks[j].s in OPEN else j + 1
                # an else branch at the end of the body ends the iteration as well
                last = tab[end - 1] if toks[end - 1].s == "}" else None
                if last is None or toks[last - 1].s != "else":
                    break
                k = last
        return None

    while True:
        n = once(text)
        if n is None:
            return text
        text = n


def strip_comments(text):
    toks = lex(text)
    out, prev = [], 0
    # rebuild keeping newlines between tokens
    for i, t in enumerate(toks):
        gap = text[prev:t.a]
        nl = gap.count("\n")
        if i:
            out.append("\n" * min(nl, 1) if nl else (" " if gap else ""))
            if nl:
                out.append("    ")
        out.append(t.s)
        prev = t.b
    return "".join(out)


def token_sub(text, old, new, must=True):
    """Replace the token sequence `old` by `new`; `$NAME` in `old` stands for any balanced run of tokens without a
    top-level `;` (shortest first), repeated in `new`."""
    cap = lambda t: re.sub(r"\$(\w+)", r"vxcap_\1", t)
    ot = [t.s for t in lex(cap(old))]
    toks = lex(text)
    tab = match_table(toks)

    def match(i, p, env):
        while p < len(ot):
            if i >= len(toks):
                return None
            if ot[p].startswith("vxcap_"):
                e = i
                while e < len(toks) and toks[e].s != ";" and toks[e].s not in (")", "]", "}"):
                    e = tab[e] + 1 if toks[e].s in OPEN else e + 1
                    env2 = dict(env)
                    env2[ot[p]] = text[toks[i].a:toks[e - 1].b]
                    if env.get(ot[p], env2[ot[p]]) == env2[ot[p]]:
                        r = match(e, p + 1, env2)
                        if r:
                            return r
                return None
            if toks[i].s != ot[p]:
                return None
            i, p = i + 1, p + 1
        return i, env

    res, i, last, n = [], 0, 0, 0
    while i < len(toks):
        m = match(i, 0, {})
        if m:
            res.append(text[last:toks[i].a])
            res.append(re.sub(r"\$(\w+)", lambda k: m[1]["vxcap_" + k.group(1)], new))
            last = toks[m[0] - 1].b
            i = m[0]
            n += 1
        else:
            i += 1
    if n == 0 and must:
        raise Structural(f"rewrite anchor `{old}` not found")
    res.append(text[last:])
    return "".join(res)


class FnSpec:
    def __init__(self, f, container, name, line):
        self.file, self.container, self.name, self.line = f, container, name, line
        self.ret, self.as_name = "r", None
        self.subs, self.sections = [], []
        self.attr = []
        self.nopub = False
        self.index_loops = False
        self.imported = False

    @property
    def qual(self):
        return (self.container + "::" if self.container else "") + self.name


def build_fn(repo, fs, log):
    src, it = repo.find(fs.file, "fn", fs.container, fs.name)
    if it.body is None:
        raise Structural(f"{fs.qual} has no body")
    text = src.text[src.toks[it.kw].a:src.toks[it.end - 1].b]
    srcline = src.text.count("\n", 0, src.toks[it.kw].a) + 1
    text = strip_comments(text)
    missing = []
    if fs.imported:
        # contract only: the body is verified in the unit this contract is imported from
        fs.sections = [x for x in fs.sections if x[0] == "spec"]
    for old, new in fs.subs:
        must = not old.startswith("?")
        try:
            text = token_sub(text, old.lstrip("?"), new, must)
        except Structural as e:
            missing.append(str(e))
    if fs.index_loops and not fs.imported:
        text = no_continue(index_loops(text, log), log)
    text = default_rewrites(text, log)
    toks = lex(text)
    tab = match_table(toks)
    # signature
    i = 1
    name_tok = toks[i]
    j = i + 1
    if toks[j].s == "<":
        j = skip_generics(toks, j)
    if toks[j].s != "(":
        raise Structural(f"cannot parse the signature of {fs.qual}")
    params_close = tab[j]
    k = params_close + 1
    body_open = None
    arrow = None
    where = None
    while k < len(toks):
        if toks[k].s == "->":
            arrow = k
        elif toks[k].s == "where":
            where = k
        elif toks[k].s == "{":
            body_open = k
            break
        elif toks[k].s in OPEN:
            k = tab[k]
        k += 1
    if body_open is None:
        raise Structural(f"cannot parse the signature of {fs.qual}")
    body_close = tab[body_open]
    inserts = []  # (pos, order, text)
    order = [0]

    def ins(pos, t):
        inserts.append((pos, order[0], t))
        order[0] += 1

    if fs.as_name:
        inserts.append((name_tok.a, -1, None))
    if arrow is not None:
        e = where if where is not None else body_open
        ins(toks[arrow].b, f" ({fs.ret}:")
        ins(toks[e - 1].b, ")")
    # loops
    loops = []
    for q in range(body_open + 1, body_close):
        t = toks[q]
        if t.s in ("for", "while", "loop") and t.kind == "id":
            if t.s == "for" and toks[q + 1].s == "<":
                continue
            p = q + 1
            while toks[p].s != "{":
                p = tab[p] + 1 if toks[p].s in OPEN else p + 1
            loops.append((t.s, q, p, tab[p]))
    spec_text = ""
    nloops_named = set()
    for kind, arg, body in fs.sections:
        b = "\n" + body + "\n"
        soft = kind.endswith("?")
        kind = kind.rstrip("?")

        def miss(what):
            if not soft:
                missing.append(f"{fs.qual}: {what}")
        if kind == "spec":
            spec_text += b
        elif kind == "entry":
            ins(toks[body_open].b, b)
        elif kind == "exit":
            # before the tail expression (or at the end of the body when there is none)
            q, pos = body_open + 1, toks[body_open].b
            while q < body_close:
                if toks[q].s in OPEN:
                    blk = toks[q].s == "{"
                    q = tab[q]
                    if blk and q + 1 < body_close and (toks[q + 1].kind in ("id", "num") and toks[q + 1].s not in ("else", "as") or toks[q + 1].s in ("(", "*")):
                        pos = toks[q].b
                elif toks[q].s == ";":
                    pos = toks[q].b
                q += 1
            ins(pos, b)
        elif kind == "finish":
            # at the very end of a body without a value
            ins(toks[body_close].a, b)
        elif kind in ("loop", "loopbody", "loopend", "before_loop", "after_loop"):
            parts = arg.split()
            n = int(parts[0])
            if n >= len(loops):
                miss(f"loop {n} not found ({len(loops)} loops)")
                continue
            lk, q, p, c = loops[n]
            nloops_named.add(n)
            if kind == "loop":
                if len(parts) > 1 and parts[1] != lk:
                    miss(f"loop {n} is a `{lk}` loop, expected `{parts[1]}`")
                    continue
                if len(parts) > 2:
                    # ghost iterator name
                    z = q
                    d = 0
                    while toks[z].s != "in":
                        z += 1
                    ins(toks[z].b, f" {parts[2]}:")
                ins(toks[p].a, b)
            elif kind == "loopbody":
                ins(toks[p].b, b)
            elif kind == "loopend":
                # a last expression of the body ends as a statement
                z = toks[c - 1]
                ins(toks[c].a, ("" if z.s in (";", "}", "{") else ";") + b)
            elif kind == "before_loop":
                ins(toks[q].a, b)
            else:
                ins(toks[c].b, b)
        elif kind in ("after", "before"):
            parts = arg.split()
            nm, occ = parts[0], int(parts[1]) if len(parts) > 1 else 0
            found = -1
            pos = None
            for q in range(body_open + 1, body_close):
                if toks[q].s == "let":
                    p = q + 1
                    names = set()
                    while toks[p].s not in ("=", ";", ":"):
                        names.add(toks[p].s)
                        p += 1
                    if nm in names:
                        found += 1
                        if found == occ:
                            while toks[p].s != ";":
                                p = tab[p] + 1 if toks[p].s in OPEN else p + 1
                            pos = toks[p].b if kind == "after" else toks[q].a
                            break
            if pos is None:
                miss(f"binding `{nm}` #{occ} not found")
                continue
            ins(pos, b)
        elif kind in ("at", "atafter"):
            # anchor by token pattern, arg is <<<pattern>>> [occ]
            m = re.match(r"<<<(.*)>>>\s*(\d*)$", arg)
            pat = [t.s for t in lex(m.group(1))]
            occ = int(m.group(2) or 0)
            pos = None
            cnt = -1
            for q in range(body_open + 1, body_close):
                if [t.s for t in toks[q:q + len(pat)]] == pat:
                    cnt += 1
                    if cnt == occ:
                        pos = toks[q].a if kind == "at" else toks[q + len(pat) - 1].b
                        break
            if pos is None:
                miss(f"anchor `{m.group(1)}` not found")
                continue
            ins(pos, b)
        else:
            raise ValueError("unknown section " + kind)
    unspecified = [n for n in range(len(loops)) if n not in nloops_named]
    if spec_text:
        ins(toks[body_open].a, spec_text)
    # render
    out, pos = [], 0
    for p, _, t in sorted(inserts, key=lambda x: (x[0], x[1])):
        out.append(text[pos:p])
        if t is None:
            out.append(fs.as_name)
            pos = name_tok.b
        else:
            out.append(t)
            pos = p
    if fs.imported:
        rendered = "".join(out)
        out = [rendered, text[pos:toks[body_open].b] + " unimplemented!() }"]
        fs.attr = ["#[verifier::external_body] /* imported */"] + [a for a in fs.attr if "spinoff" not in a]
    else:
        out.append(text[pos:])
    vis = "" if fs.nopub else "pub "
    code = "".join(("    " + a + "\n") for a in fs.attr) + vis + "".join(out)
    return code, os.path.relpath(src.path, repo.root), srcline, len(loops), unspecified, missing


def build_item(repo, f, kind, name, container):
    src, it = repo.find(f, kind, container, name)
    text = src.text[src.toks[it.kw].a:src.toks[it.end - 1].b]
    text = strip_comments(text)
    if kind in ("struct", "enum", "trait"):
        # drop visibility of fields
        text = re.sub(r"\bpub\s*\([^)]*\)\s*", "pub ", text)
        if kind == "struct":
            toks = lex(text)
            tab = match_table(toks)
            o = next((i for i, t in enumerate(toks) if t.s in "{("), None)
            if o is not None and toks[o].s == "{":
                # make every field pub
                pos_ins = []
                k = o + 1
                start = True
                while k < tab[o]:
                    if start:
                        while toks[k].s == "#":
                            k = tab[k + 1] + 1
                        if toks[k].s != "pub" and toks[k].kind == "id":
                            pos_ins.append(toks[k].a)
                        start = False
                    if toks[k].s in OPEN:
                        k = tab[k]
                    elif toks[k].s == "<":
                        k = skip_generics(toks, k) - 1
                    elif toks[k].s == ",":
                        start = True
                    k += 1
                for p in reversed(pos_ins):
                    text = text[:p] + "pub " + text[p:]
    attrs = filter_attrs(it.attrs) if kind in ("struct", "enum") else []
    return "\n".join(attrs + ["pub " + text])


class Unit:
    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.fns = []          # dicts
        self.out = []
        self.log = set()
        self.subs = []
        self.importing = 0
        self.in_trait = False
        self.imports, self.loaded = [], set()
        self.inner, self.once = [], set()
        self._load(path)

    def emit(self, text):
        self.out.append(text)

    def lineno(self):
        return "\n".join(self.out).count("\n") + 2 if self.out else 1

    def _load(self, path):
        lines = open(path).read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            st = ln.strip()
            if not st.startswith("//@"):
                if self.importing:
                    if ln.startswith(("pub trait ", "trait ")):
                        self.in_trait = True
                    elif ln.startswith("}"):
                        self.in_trait = False
                    if st == "fn main() {}":
                        i += 1
                        continue
                    if not self.in_trait and re.match(r"(pub )?(broadcast )?proof fn ", st):
                        self.emit("#[verifier::external_body] /* imported */")
                if ln.startswith("#!["):        # inner attributes go to the front
                    if ln not in self.inner:
                        self.inner.append(ln)
                    ln = ""
                elif ln.startswith("global size_of "):
                    if ln in self.once:
                        ln = ""
                    self.once.add(ln)
                self.emit(ln)
                i += 1
                continue
            d = st[3:].strip()
            if d.startswith("include ") or d.startswith("import "):
                name = d.split()[1]
                if name in self.loaded:
                    i += 1
                    continue
                self.loaded.add(name)
                if d.startswith("import "):
                    if not self.importing:
                        self.imports.append(name)
                    self.importing += 1
                self._load(os.path.join(os.path.dirname(path), name))
                if d.startswith("import "):
                    self.importing -= 1
                i += 1
            elif d.startswith("item ") and d in self.once:      # already there, from another unit
                i += 1
            elif d.startswith("item "):
                self.once.add(d)
                m = re.match(r"item (\S+) (\S+) (\S+)(?: in (.*))?$", d)
                self.emit(build_item(self.repo, m.group(1), m.group(2), m.group(3), m.group(4) or ""))
                i += 1
            elif d.startswith("fn "):
                m = re.match(r"fn (\S+) (.+) (\S+)$", d)
                fs = FnSpec(m.group(1), "" if m.group(2) == "-" else m.group(2), m.group(3), i)
                fs.imported = self.importing > 0
                i += 1
                cur = None
                while True:
                    ln = lines[i]
                    st = ln.strip()
                    if st.startswith("//@"):
                        d = st[3:].strip()
                        if cur:
                            fs.sections.append((cur[0], cur[1], "\n".join(cur[2])))
                            cur = None
                        if d == "endfn":
                            i += 1
                            break
                        w = d.split(None, 1)
                        arg = w[1] if len(w) > 1 else ""
                        if w[0] == "ret":
                            fs.ret = arg
                        elif w[0] == "as":
                            fs.as_name = arg
                        elif w[0] == "attr":
                            fs.attr.append(arg)
                        elif w[0] == "nopub":
                            fs.nopub = True
                        elif w[0] == "index_loops":
                            fs.index_loops = True
                        elif w[0] == "sub":
                            mm = re.match(r"<<<(.*)>>>\s*<<<(.*)>>>$", arg, re.S)
                            fs.subs.append((mm.group(1), mm.group(2)))
                            if not fs.imported:
                              self.subs.append(f"{fs.qual}: `{mm.group(1)}` => `{mm.group(2)}`")
                        else:
                            cur = [w[0], arg, []]
                    elif cur:
                        cur[2].append(ln)
                    i += 1
                code, f, line, nl, unspec, missing = build_fn(self.repo, fs, self.log)
                a = self.lineno()
                self.emit(code)
                b = self.lineno() - 1
                if not fs.imported: self.fns.append(dict(name=fs.qual, file=f, line=line, out=(a, b), loops=nl, unspecified_loops=unspec, missing=missing,
                                     has_spec=any(k == "spec" for k, _, _ in fs.sections)))
            else:
                raise ValueError(f"{path}:{i + 1}: unknown directive {d}")

    def text(self):
        return "".join(a + " " for a in self.inner) + "\n".join(self.out)
