"""A small, exact Rust lexer and item finder.  It never rewrites text: it only locates things."""
import re

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")


class Tok:
    __slots__ = ("k", "t", "s", "e")

    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


def lex(src):
    """All tokens, comments included (kind 'comment'); whitespace dropped."""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(Tok("comment", src[i:j], i, j))
            i = j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            out.append(Tok("comment", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.index(end, m.end()) + len(end)
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r'(?:b|c)?"').match(src, i)
        if m:
            j = m.end()
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or src.startswith("b'", i):
            st = i + (1 if c == "b" else 0)
            if src[st + 1] == "\\":
                j = st + 3
                if src[st + 2] == "u":
                    j = src.index("}", st) + 1
                elif src[st + 2] == "x":
                    j = st + 5
                assert src[j] == "'", src[st:st + 10]
                out.append(Tok("char", src[i:j + 1], i, j + 1))
                i = j + 1
                continue
            if src[st + 2] == "'":
                out.append(Tok("char", src[i:st + 3], i, st + 3))
                i = st + 3
                continue
            m = IDENT.match(src, i + 1)
            out.append(Tok("life", src[i:m.end()], i, m.end()))
            i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            # do not swallow `0..x`
            out.append(Tok("num", m.group(), i, m.end()))
            i = m.end()
            continue
        for p in ("<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", ".."):
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


class Anchor(Exception):
    """Something the unit refers to is not in the source (any more)."""


class Fn:
    pass


class RustFile:
    def __init__(self, src, name="?"):
        self.src = src
        self.name = name
        self.toks = [t for t in lex(src) if t.k != "comment"]
        self._match()
        self.fns = []      # Fn objects
        self.items = {}    # (kind,name) -> (start,end)
        self._scan(0, len(self.toks), "")

    def _match(self):
        st = []
        self.mate = {}
        for i, t in enumerate(self.toks):
            if t.k == "p":
                if t.t in OPEN:
                    st.append(i)
                elif t.t in CLOSE:
                    j = st.pop()
                    self.mate[i] = j
                    self.mate[j] = i

    def _attrs_start(self, i):
        """Walk back from token i over visibility/attributes/qualifiers to the item's first token."""
        T = self.toks
        while i > 0:
            p = T[i - 1]
            if p.k == "id" and p.t in ("pub", "const", "unsafe", "async", "extern", "default"):
                i -= 1
            elif p.k == "str" and i >= 2 and T[i - 2].t == "extern":
                i -= 1
            elif p.t == ")" and self.mate[i - 1] >= 1 and T[self.mate[i - 1] - 1].t == "pub":
                i = self.mate[i - 1] - 1
            elif p.t == "]" and T[self.mate[i - 1] - 1].t == "#":
                i = self.mate[i - 1] - 1
            else:
                break
        return i

    def _body_open(self, i, end):
        """First `{` or `;` at depth 0 from token i."""
        T = self.toks
        while i < end:
            t = T[i]
            if t.t == "{" and t.k == "p":
                return i
            if t.t == ";" and t.k == "p":
                return i
            if t.k == "p" and t.t in ("(", "["):
                i = self.mate[i] + 1
                continue
            i += 1
        raise Anchor("no body")

    def _scan(self, lo, hi, owner):
        T = self.toks
        i = lo
        while i < hi:
            t = T[i]
            if t.k == "id" and t.t == "fn" and i + 1 < hi and T[i + 1].k == "id":
                name = T[i + 1].t
                b = self._body_open(i + 2, hi)
                f = Fn()
                f.name = name
                f.owner = owner
                f.q = owner + "::" + name if owner else name
                f.first = self._attrs_start(i)
                f.fn_tok = i
                f.open = b
                if T[b].t == "{":
                    f.close = self.mate[b]
                    i = f.close + 1
                else:
                    f.close = None
                    i = b + 1
                f.test = self._is_test(f.first, f.fn_tok)
                self.fns.append(f)
                continue
            if t.k == "id" and t.t in ("impl", "trait") and (i == lo or T[i - 1].t not in ("->", "(", ",", ":", "&", "<")):
                b = self._body_open(i + 1, hi)
                hdr = self.src[T[i].s:T[b].s]
                own = self._impl_name(i, b)
                if T[b].t == "{":
                    if not self._is_test(self._attrs_start(i), i):
                        self.items.setdefault((t.t, own), []).append((self._attrs_start(i), self.mate[b], i, b))
                        self._scan(b + 1, self.mate[b], own)
                    i = self.mate[b] + 1
                else:
                    i = b + 1
                continue
            if t.k == "id" and t.t == "mod" and T[i + 1].k == "id":
                b = self._body_open(i + 1, hi)
                if T[b].t == "{":
                    if not self._is_test(self._attrs_start(i), i):
                        self._scan(b + 1, self.mate[b], owner)
                    i = self.mate[b] + 1
                else:
                    i = b + 1
                continue
            if t.k == "id" and t.t in ("struct", "enum", "union", "const", "static", "type") and i + 1 < hi and T[i + 1].k == "id" and T[i + 1].t != "fn" and T[i+1].t != "unsafe":
                nm = T[i + 1].t if T[i + 1].t != "mut" else T[i + 2].t
                st = self._attrs_start(i)
                if t.t in ("struct", "enum", "union"):
                    b = self._body_open(i + 2, hi)
                    e = self.mate[b] if T[b].t == "{" else b
                else:
                    j = i + 1
                    while T[j].t != ";":
                        if T[j].k == "p" and T[j].t in OPEN:
                            j = self.mate[j]
                        j += 1
                    e = j
                self.items.setdefault((t.t, nm), []).append((st, e, i, e))
                i = e + 1
                continue
            if t.k == "p" and t.t in OPEN:
                i = self.mate[i] + 1
                continue
            i += 1

    def _is_test(self, a, b):
        s = self.src[self.toks[a].s:self.toks[b].s]
        return bool(re.search(r"#\[(cfg\(test\)|test\b|tokio::test)", s))

    def _impl_name(self, i, b):
        """impl<..> [Trait for] Type<..> -> 'Type' or '<Trait>Type'."""
        T = self.toks
        j = i + 1
        if T[j].t == "<":
            d = 0
            while True:
                if T[j].t == "<":
                    d += 1
                elif T[j].t == ">":
                    d -= 1
                j += 1
                if d == 0:
                    break
        parts, cur, d = [], [], 0
        while j < b:
            t = T[j].t
            if t == "where" and d == 0:
                break
            if t == "<":
                d += 1
            elif t == ">":
                d -= 1
            elif d == 0:
                if t == "for":
                    parts.append("".join(cur))
                    cur = []
                elif t in ("&", "mut") or T[j].k == "life":
                    pass
                elif t == "::":
                    cur = []
                else:
                    cur.append(t)
            j += 1
        parts.append("".join(cur))
        return parts[0] if len(parts) == 1 else f"<{parts[0]}>{parts[1]}"

    def find_fn(self, q, sig=None):
        c = [f for f in self.fns if f.q == q and not f.test and (sig is None or sig in self.src[self.toks[f.fn_tok].s:self.toks[f.open].s])]
        if len(c) != 1:
            raise Anchor(f"{self.name}: function {q} found {len(c)} times")
        return c[0]

    def item_text(self, kind, name):
        c = self.items.get((kind, name), [])
        if len(c) != 1:
            raise Anchor(f"{self.name}: {kind} {name} found {len(c)} times")
        a, e, i, _ = c[0]
        return self.src[self.toks[a].s:self.toks[e].e], self.src[self.toks[i].s:self.toks[e].e]

    def text(self, a, b):
        """Text from token a to token b inclusive, comments removed, line structure kept."""
        return strip_comments(self.src[self.toks[a].s:self.toks[b].e])

    def loops(self, f):
        """[(header token, body-open token, body-close token)] in source order, nested ones included."""
        T = self.toks
        out = []
        i = f.open + 1
        while i < f.close:
            t = T[i]
            if t.k == "id" and t.t in ("while", "loop", "for") and not (t.t == "for" and T[i + 1].t == "<") and T[i - 1].t != ".":
                j = i + 1
                while True:
                    if T[j].k == "p" and T[j].t in ("(", "["):
                        j = self.mate[j] + 1
                        continue
                    if T[j].k == "p" and T[j].t == "{":
                        # `while match x {` does not occur here
                        break
                    j += 1
                out.append((i, j, self.mate[j]))
            i += 1
        return out


def strip_comments(s):
    out, last = [], 0
    for t in lex(s):
        if t.k == "comment":
            out.append(s[last:t.s])
            out.append("\n" * t.t.count("\n"))
            last = t.e
    out.append(s[last:])
    return "".join(out)
