"""A small, tolerant Rust tokenizer and item parser (byte offsets kept), used by the weaver."""
import re

TOKEN_RE = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rstr>b?r(?P<h>\#*)")
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<p>.)
""", re.X | re.S)


class Tok:
    __slots__ = ("k", "s", "a", "b", "m")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b, self.m = k, s, a, b, -1

    def __repr__(self):
        return self.s


def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        m = TOKEN_RE.match(src, i)
        k = m.lastgroup
        if m.group("ws") is not None or m.group("lc") is not None:
            i = m.end()
            continue
        if m.group("bc") is not None:
            d, j = 1, m.end()
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group("rstr") is not None:
            end = src.index('"' + m.group("h"), m.end()) + 1 + len(m.group("h"))
            toks.append(Tok("str", src[i:end], i, end))
            i = end
            continue
        for k in ("str", "char", "life", "id", "num", "p"):
            if m.group(k) is not None:
                break
        # `1..2` : do not swallow a range dot
        toks.append(Tok(k, m.group(0), m.start(), m.end()))
        i = m.end()
    st = []
    for j, t in enumerate(toks):
        if t.k == "p":
            if t.s in "([{":
                st.append(j)
            elif t.s in ")]}":
                if not st:
                    continue
                o = st.pop()
                toks[o].m = j
                t.m = o
    return toks


def norm(toks):
    return " ".join(t.s for t in toks)


class Item:
    def __init__(self, kind, name, lo, hi):
        self.kind, self.name, self.lo, self.hi = kind, name, lo, hi  # token range [lo,hi)
        self.children = []
        self.attrs = []
        self.header = None
        self.body = None  # token index of '{'
        self.kw = None

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


def skip_generics(T, i):
    """T[i] == '<': return the index after the matching '>'."""
    d = 0
    while True:
        s = T[i].s
        if s == "<":
            d += 1
        elif s == ">" and T[i - 1].s != "-" and T[i - 1].s != "=":
            d -= 1
            if d == 0:
                return i + 1
        elif s in "([{" and T[i].k == "p":
            i = T[i].m
        i += 1


QUAL = {"pub", "const", "unsafe", "async", "extern", "default"}


def parse_items(T, lo, hi):
    items, i = [], lo
    while i < hi:
        start = i
        attrs = []
        while T[i].s == "#" and i + 1 < hi:
            j = i + 1
            if T[j].s == "!":
                j += 1
            e = T[j].m
            attrs.append((i, e + 1))
            i = e + 1
            if i >= hi:
                return items
        q = i
        if i < hi and T[i].s == "pub":
            i += 1
            if T[i].s == "(":
                i = T[i].m + 1
        kwstart = i
        # qualifiers before fn
        j = i
        while T[j].s in ("const", "unsafe", "async", "extern", "default") or T[j].k == "str":
            if T[j].s == "const" and T[j + 1].k == "id" and T[j + 1].s not in ("fn", "unsafe", "async", "extern"):
                break
            if T[j].s == "extern" and T[j + 1].s == "crate":
                break
            j += 1
        t = T[j].s
        it = None
        if t == "fn":
            name = T[j + 1].s
            k = j + 2
            if T[k].s == "<":
                k = skip_generics(T, k)
            it = Item("fn", name, start, None)
            it.params = (k, T[k].m)
            k = T[k].m + 1
            it.ret = None
            if T[k].s == "-" and T[k + 1].s == ">":
                r0 = k + 2
                k = r0
                while not (T[k].s in ("where", ";") or (T[k].s == "{")):
                    if T[k].k == "p" and T[k].s in "([":
                        k = T[k].m
                    k += 1
                it.ret = (r0, k)
            it.where_ = None
            if T[k].s == "where":
                w0 = k
                while T[k].s not in ("{", ";"):
                    k += 1
                it.where_ = (w0, k)
            it.fnkw = j
            if T[k].s == "{":
                it.body = k
                it.hi = T[k].m + 1
            else:
                it.hi = k + 1
            it.kw = q
        elif t in ("impl", "trait", "mod", "struct", "enum", "union") or (t == "unsafe" and T[j + 1].s in ("impl", "trait")):
            k = j + 1
            if t == "impl":
                gen = ""
                if T[k].s == "<":
                    k2 = skip_generics(T, k)
                    gen = norm(T[k:k2])
                    k = k2
                h0 = k
                while T[k].s != "{":
                    if T[k].k == "p" and T[k].s in "([":
                        k = T[k].m
                    k += 1
                name = norm(T[h0:k])
                if " where " in name:
                    name = name.split(" where ")[0]
                it = Item("impl", name, start, T[k].m + 1)
                it.generics = gen
                it.body = k
                it.header = (kwstart, k)
                it.children = parse_items(T, k + 1, T[k].m)
            else:
                name = T[k].s
                while T[k].s not in ("{", ";"):
                    if T[k].k == "p" and T[k].s in "([":
                        k = T[k].m
                    k += 1
                it = Item(t, name, start, None)
                if T[k].s == "{":
                    it.body = k
                    it.hi = T[k].m + 1
                    if t in ("mod", "trait"):
                        it.children = parse_items(T, k + 1, T[k].m)
                else:
                    it.hi = k + 1
            it.kw = q
        elif t == "macro_rules":
            k = j + 2
            name = T[k].s
            e = T[k + 1].m
            if e + 1 < hi and T[e + 1].s == ";":
                e += 1
            it = Item("macro_rules", name, start, e + 1)
            it.body = k + 1
        elif t in ("use", "type", "static", "const", "extern", "let"):
            k = j
            while T[k].s != ";":
                if T[k].k == "p" and T[k].s in "([{":
                    k = T[k].m
                k += 1
            name = T[j + 1].s if t != "use" else norm(T[j + 1:k])
            it = Item(t, name, start, k + 1)
            it.kw = q
        elif T[j].k == "id" and (T[j + 1].s in ("!", ":")):
            k = j
            while T[k].s != "!":
                k += 1
            name = T[k - 1].s
            k += 1
            e = T[k].m
            it = Item("macro_call", name, start, e + 1)
            it.body = k
            if e + 1 < hi and T[e + 1].s == ";":
                it.hi = e + 2
        else:
            raise SyntaxError(f"cannot parse item at {T[i:i+8]}")
        it.attrs = attrs
        it.kwstart = kwstart
        items.append(it)
        i = it.hi
    return items


def find_loops(T, body):
    """Loops of a fn body (token index of '{'), in source order: (kw index, in index or None, body '{' index)."""
    res = []
    i, end = body + 1, T[body].m
    while i < end:
        s = T[i].s
        if s in ("for", "while", "loop") and T[i].k == "id":
            if s == "for" and T[i + 1].s == "<":
                i += 1
                continue
            k = i + 1
            inn = None
            while T[k].s != "{":
                if s == "for" and T[k].s == "in" and inn is None:
                    inn = k
                if T[k].k == "p" and T[k].s in "([":
                    k = T[k].m
                k += 1
            res.append((i, inn, k))
        i += 1
    return res


BINOPS = set("+-*/%&|^<>=.?,")


def tail_pos(T, body):
    """Token index where the last statement/tail expression of the block starts (body end if empty)."""
    i, end = body + 1, T[body].m
    last = i
    start = i
    while i < end:
        t = T[i]
        if t.k == "p" and t.s in "([":
            i = t.m + 1
            continue
        if t.k == "p" and t.s == "{":
            i = t.m + 1
            # block-like statement ends here?
            if i < end and T[start].s in ("if", "match", "for", "while", "loop", "{", "unsafe") and T[i].s not in ("else", ".", "?"):
                start = i
                last = i
            continue
        if t.s == ";":
            i += 1
            start = i
            if i < end:
                last = i
            continue
        i += 1
    if start >= end:
        return end
    return start


def split_top(text):
    """Split on commas outside brackets (and outside closures' |..|, which the contract style does not use with commas)."""
    out, d, cur, i = [], 0, "", 0
    q = False  # inside a quantifier binder |a, b|
    while i < len(text):
        c = text[i]
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == "|" and text[i:i + 2] != "||" and text[i - 1] != "|":
            q = not q
        if c == "," and d == 0 and not q:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    out.append(cur)
    return out
