"""Mechanical extraction of Rust items from /repo's current source.

A small lexer (comments, strings, raw strings, chars vs lifetimes, brackets) plus an item parser.  Nothing here
rewrites code: `Item.text()` is the source text byte for byte, minus what `Drops` lists, and annotations are inserted
at structural positions (before a body's `{`, after a loop header, at the start / end of a body ...), never by
matching the text of a statement unless the caller says so.
"""
import os
import re


class Tok:
    __slots__ = ("k", "s", "e", "t")

    def __init__(self, k, s, e, t):
        self.k, self.s, self.e, self.t = k, s, e, t

    def __repr__(self):
        return f"{self.k}:{self.t!r}"


ID = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][A-Za-z0-9_]*(\.[0-9][A-Za-z0-9_]*)?")
LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
CHAR = re.compile(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'")
RAW = re.compile(r'(?:b|c)?r(#*)"')
STR = re.compile(r'(?:b|c)?"')
PUNCT = ["::", "->", "=>", "..=", "...", "..", "&&", "||", "==", "!=", "<=", ">="]


class LexError(Exception):
    pass


class Lost(Exception):
    """An item or position the machinery needs is no longer in the source."""


def lex(src):
    """Tokens without comments and whitespace."""
    i, n, out = 0, len(src), []
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = RAW.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            if j < 0:
                raise LexError("raw string")
            out.append(Tok("str", i, j + len(end), src[i:j + len(end)]))
            i = j + len(end)
            continue
        m = STR.match(src, i)
        if m:
            j = m.end()
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append(Tok("str", i, j + 1, src[i:j + 1]))
            i = j + 1
            continue
        m = CHAR.match(src, i)
        if m:
            out.append(Tok("chr", i, m.end(), m.group(0)))
            i = m.end()
            continue
        m = LIFE.match(src, i)
        if m:
            out.append(Tok("life", i, m.end(), m.group(0)))
            i = m.end()
            continue
        m = ID.match(src, i)
        if m:
            out.append(Tok("id", i, m.end(), m.group(0)))
            i = m.end()
            continue
        m = NUM.match(src, i)
        if m:
            out.append(Tok("num", i, m.end(), m.group(0)))
            i = m.end()
            continue
        for p in PUNCT:
            if src.startswith(p, i):
                out.append(Tok("p", i, i + len(p), p))
                i += len(p)
                break
        else:
            out.append(Tok("p", i, i + 1, c))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(toks, i):
    """Index of the bracket closing the one at i."""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == "p":
            if t.t in OPEN:
                d += 1
            elif t.t in ")]}":
                d -= 1
                if d == 0:
                    return j
    raise LexError("unbalanced")


class Item:
    """kind: fn struct enum trait impl mod const static type use macro; toks[a:b] is the item incl. attributes."""

    def __init__(self, src, kind, name, a, start, body, b):
        self.src, self.kind, self.name = src, kind, name
        self.a, self.start, self.body, self.b = a, start, body, b  # token indices; body = (open, close) or None
        self.children = []
        self.self_ty = self.trait = None
        self.parent = None

    @property
    def toks(self):
        return self.src.toks

    def span(self):
        return self.toks[self.a].s, self.toks[self.b - 1].e

    def text(self):
        s, e = self.span()
        return self.src.text[s:e]

    def attrs(self):
        s, e = self.toks[self.a].s, self.toks[self.start].s
        return self.src.text[s:e]

    def path(self):
        p = self.name
        if self.parent is not None and self.parent.kind in ("impl", "trait"):
            p = (self.parent.self_ty or self.parent.name) + "::" + p
        return p

    def loops(self):
        """Loops of the fn body in source order (closure bodies included): (kind, kw index, body open, body close)."""
        if self.body is None:
            return []
        out = []
        o, c = self.body
        i = o + 1
        while i < c:
            t = self.toks[i]
            if t.k == "id" and t.t in ("for", "while", "loop"):
                # `for<'a>` is a binder, `impl X for Y` occurs only in nested items
                if t.t == "for" and self.toks[i + 1].t == "<":
                    i += 1
                    continue
                if t.t == "for" and not self._has_in(i, c):
                    i += 1
                    continue
                j = i + 1
                d = 0
                while t.t == "for" and not (self.toks[j].k == "id" and self.toks[j].t == "in"):
                    j = (match_close(self.toks, j) if self.toks[j].k == "p" and self.toks[j].t in OPEN else j) + 1
                while j < c:
                    u = self.toks[j]
                    if u.k == "p":
                        if u.t in "([":
                            j = match_close(self.toks, j)
                        elif u.t == "{":
                            # a struct literal is not allowed here, so this is the body, unless it is a match/if/block
                            # in the header: `while match x { .. } {`
                            if d == 0:
                                break
                            d -= 1
                            j = match_close(self.toks, j)
                    elif u.k == "id" and u.t in ("match", "if", "unsafe") and t.t != "loop":
                        d += 1
                    elif u.k == "id" and u.t == "else":
                        d += 1
                    j += 1
                out.append((t.t, i, j, match_close(self.toks, j)))
            i += 1
        return out

    def _has_in(self, i, c):
        j = i + 1
        while j < c:
            u = self.toks[j]
            if u.k == "p" and u.t in OPEN:
                j2 = match_close(self.toks, j)
                if u.t == "{" and self.toks[j2 + 1].t not in ("in", ",", "|"):
                    return False
                j = j2
            elif u.k == "id" and u.t == "in":
                return True
            elif u.t == ";":
                return False
            j += 1
        return False

    def closures(self):
        """Closures of the fn body in source order: (bar open, bar close, body first token, body last token)."""
        out = []
        if self.body is None:
            return out
        t = self.toks
        o, c = self.body
        i = o + 1
        while i < c:
            u = t[i]
            if u.k == "p" and u.t in ("|", "||") and (
                    t[i - 1].t in ("(", ",", "=", "{", ";", "=>", "&&", "[") or t[i - 1].t in ("move", "return", "in")):
                if u.t == "||":
                    j = i
                else:
                    j = i + 1
                    while t[j].t != "|":
                        if t[j].k == "p" and t[j].t in "([{":
                            j = match_close(t, j)
                        j += 1
                b = j + 1
                if t[b].t == "->":
                    while t[b].t != "{":
                        b += 1
                e = b
                d = 0
                k = b
                while k <= c:
                    v = t[k]
                    if v.k == "p" and v.t in OPEN:
                        k = match_close(t, k)
                        if v.t == "{" and t[b].t == "{" and k + 0 and b == self._idx(v):
                            e = k + 1
                            break
                        e = k + 1
                    elif v.k == "p" and v.t in ",;)]}":
                        e = k
                        break
                    k += 1
                out.append((i, j, b, e - 1))
                i = j
            i += 1
        return out

    def _idx(self, tok):
        return next(i for i in range(self.body[0], self.body[1] + 1) if self.toks[i] is tok)

    def idents(self):
        return {t.t for t in self.toks[self.start:self.b] if t.k == "id"}


KINDS = ("fn", "struct", "enum", "trait", "impl", "mod", "const", "static", "type", "use", "macro_rules", "union")


class Source:
    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        self.text = text
        self.toks = lex(self.text)
        self.items = self._items(0, len(self.toks), None)

    def _skip_attrs(self, i, end):
        t = self.toks
        while i < end and t[i].t == "#":
            j = i + 1
            if t[j].t == "!":
                j += 1
            if t[j].t != "[":
                break
            i = match_close(t, j) + 1
        return i

    def _items(self, i, end, parent):
        t = self.toks
        out = []
        while i < end:
            a = i
            # inner attributes are skipped
            if t[i].t == "#" and t[i + 1].t == "!":
                i = match_close(t, i + 2) + 1
                continue
            i = self._skip_attrs(i, end)
            if i >= end:
                break
            start = i
            # visibility and modifiers
            kind = None
            j = i
            while j < end:
                u = t[j]
                if u.k == "id" and u.t == "pub":
                    j += 1
                    if t[j].t == "(":
                        j = match_close(t, j) + 1
                    continue
                if u.k == "id" and u.t in ("const",) and t[j + 1].t in ("fn", "unsafe", "extern", "async"):
                    j += 1
                    continue
                if u.k == "id" and u.t in ("unsafe", "async", "extern", "default", "auto") and t[j + 1].k in ("id", "str"):
                    j += 1
                    if t[j].k == "str":
                        j += 1
                    continue
                break
            u = t[j]
            if u.k == "id" and u.t in KINDS:
                kind = u.t
            elif u.k == "id" and j + 1 < end and t[j + 1].t == "!":
                kind = "macrocall"
            else:
                # not an item we know: skip one token
                i += 1
                continue
            # find the end: first `;` or `{...}` at depth 0
            body = None
            k = j + 1
            if kind in ("use", "const", "static", "type"):
                while t[k].t != ";":
                    if t[k].t in OPEN and t[k].k == "p":
                        k = match_close(t, k)
                    k += 1
                b = k + 1
            elif kind == "macro_rules":
                while not (t[k].k == "p" and t[k].t in OPEN):
                    k += 1
                e = match_close(t, k)
                b = e + 1
                if b < end and t[b].t == ";":
                    b += 1
            elif kind == "macrocall":
                k = j + 2
                if t[k].k == "id":
                    k += 1
                e = match_close(t, k)
                b = e + 1
                if t[k].t != "{" and b < end and t[b].t == ";":
                    b += 1
            else:
                while True:
                    v = t[k]
                    if v.k == "p" and v.t == ";":
                        b = k + 1
                        break
                    if v.k == "p" and v.t == "{":
                        e = match_close(t, k)
                        body = (k, e)
                        b = e + 1
                        break
                    if v.k == "p" and v.t in "([":
                        k = match_close(t, k)
                    k += 1
            name = None
            if kind == "impl":
                name = "impl"
            elif kind == "macro_rules":
                name = t[j + 2].t
            elif kind == "macrocall":
                name = t[j].t
            elif kind == "use":
                name = "use"
            else:
                name = t[j + 1].t
            it = Item(self, {"macro_rules": "macro"}.get(kind, kind), name, a, start, body, b)
            it.kw = j
            it.parent = parent
            if kind == "impl":
                self._impl_header(it, j)
            if kind in ("impl", "trait", "mod") and body:
                it.children = self._items(body[0] + 1, body[1], it)
            out.append(it)
            i = b
        return out

    def _impl_header(self, it, j):
        """Last path segment of the self type, and of the trait (None for an inherent impl)."""
        t = self.toks
        k = j + 1
        if t[k].t == "<":
            k = self._angle(k)
        segs, cur, for_at = [], [], None
        hdr = []
        d = 0
        while k < it.body[0]:
            u = t[k]
            if u.k == "id" and u.t == "where":
                break
            if u.t == "<":
                k = self._angle(k)
                continue
            if u.k == "id" and u.t == "for":
                hdr.append("for")
            elif u.k == "id" or u.t in ("&", "["):
                hdr.append(u.t)
            k += 1
        if "for" in hdr:
            p = hdr.index("for")
            tr, ty = hdr[:p], hdr[p + 1:]
            it.trait = next(x for x in reversed(tr) if x not in "&[")
        else:
            ty = hdr
        ids = [x for x in ty if x not in "&[" and x not in ("mut", "dyn")]
        it.self_ty = ("&" if ty and ty[0] == "&" else "") + (ids[-1] if ids else "?")

    def _angle(self, k):
        t = self.toks
        d = 0
        while True:
            u = t[k].t
            if u == "<":
                d += 1
            elif u == ">":
                d -= 1
                if d == 0:
                    return k + 1
            elif u in "([" and t[k].k == "p":
                k = match_close(t, k)
            k += 1

    def walk(self):
        def go(items):
            for it in items:
                yield it
                yield from go(it.children)
        yield from go(self.items)

    def find(self, kind, name, self_ty=None, trait=None):
        """trait: None = any, '' = inherent only."""
        for it in self.walk():
            if it.kind != kind or (name is not None and it.name != name):
                continue
            if in_tests(it):
                continue
            if kind == "impl":
                if it.self_ty != self_ty or (trait is not None and (it.trait or "") != trait):
                    continue
            elif self_ty is not None:
                p = it.parent
                if p is None or p.kind not in ("impl", "trait"):
                    continue
                if (p.self_ty if p.kind == "impl" else p.name) != self_ty:
                    continue
                if trait is not None and (p.trait or "") != trait:
                    continue
            return it
        return None


def in_tests(it):
    while it is not None:
        at = it.attrs()
        if "cfg(test)" in at.replace(" ", "") or "#[test]" in at:
            return True
        it = it.parent
    return False


class Crate:
    """All sources below a directory, to find an item that moved to another file."""

    def __init__(self, root):
        self.root = root
        self._src = {}

    def src(self, rel):
        if rel not in self._src:
            p = os.path.join(self.root, rel)
            if not os.path.exists(p):
                return None
            self._src[rel] = Source(p)
        return self._src[rel]

    def find(self, rel, kind, name, self_ty=None, trait=None):
        s = self.src(rel)
        it = s.find(kind, name, self_ty, trait) if s else None
        if it is None:
            base = os.path.join(self.root, rel.split("/src/")[0], "src")
            for r, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    if f.endswith(".rs") and it is None:
                        try:
                            it = self.src(os.path.relpath(os.path.join(r, f), self.root)).find(kind, name, self_ty, trait)
                        except (LexError, IndexError, UnicodeDecodeError):
                            pass
        if it is None:
            raise Lost(f"{kind} {self_ty + '::' if self_ty else ''}{name} (trait {trait}) not found under {rel}")
        return it
