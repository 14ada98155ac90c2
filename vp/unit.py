"""Builds one Verus file from real items of /repo plus contracts, and keeps the books on what was done to the text."""
import re
import rsx
import stdspecs
from rsx import Lost, match_close

LOG_MACROS = ("debug", "trace", "info", "warn", "error", "eprintln", "println")

RUST_KW = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn Some None Ok Err Box Vec
String vec format panic unreachable unimplemented todo assert debug_assert matches u8 u32 u64 usize i32 i64 bool str
char Option Result""".split())


class FnPlan:
    def __init__(self, it, spec):
        self.it, self.spec = it, spec


class Unit:
    def __init__(self, name, crate):
        self.name, self.crate = name, crate
        self.parts = []            # list of callables(probe) -> text
        self.contracts = []        # functions under contract
        self.extracted = []        # (path, file, lines, what was dropped)
        self.drops = []
        self.structure = []        # reasons the annotations do not sit on the structure they were written for
        self.nprobes = 0
        self.stub_fns = set()
        self.seen = {}             # (self_ty or '', fn) -> True
        self.sources = {}
        self.trusted = []
        self.pre = ""

    # ---- building blocks -------------------------------------------------------------------------------------
    def raw(self, text, stubs=()):
        self.parts.append(lambda probe, text=text: text)
        self.stub_fns |= set(stubs)

    def _note(self, it, dropped):
        s, e = it.span()
        rel = it.src.path[len(self.crate.root) + 1:]
        l0 = it.src.text.count("\n", 0, s) + 1
        l1 = it.src.text.count("\n", 0, e) + 1
        self.extracted.append({"item": f"{it.kind} {it.path()}", "file": rel, "lines": f"{l0}-{l1}", "dropped": dropped})

    def item(self, rel, kind, name, self_ty=None, trait=None, attrs="", subst=(), inject=""):
        """A struct/enum/trait/const/macro as it stands, without its attributes and doc comments (attrs given anew)."""
        it = self.crate.find(rel, kind, name, self_ty, trait)
        s = it.toks[it.start].s
        e = it.toks[it.b - 1].e
        edits = Edits(it.src, s, e)
        dropped = self._strip_inner(it, edits)
        if it.attrs().strip():
            dropped.append("attributes: " + " ".join(it.attrs().split()))
        if inject:
            edits.insert(it.toks[it.body[0]].e, "\n" + inject + "\n")
        if kind == "struct":
            self._publish(it, edits, dropped)
        text = self._subst(edits.apply(), subst, it, dropped)
        self._note(it, dropped)
        self.raw(attrs + "\n" + text + "\n")
        return it

    def _publish(self, it, edits, dropped):
        """Contracts may name fields: visibility is widened, nothing else."""
        t = it.toks
        if t[it.start].t != "pub":
            edits.insert(t[it.start].s, "pub ")
        k = it.kw + 2
        if t[k].t == "<":
            k = it.src._angle(k)
        while t[k].t not in ("{", "(", ";"):
            k += 1
        if t[k].t == ";":
            return
        e = match_close(t, k)
        i, n = k + 1, 0
        while i < e:
            while t[i].t == "#":
                i = match_close(t, i + 1) + 1
            if t[i].t == "pub":
                if t[i + 1].t == "(":
                    j = match_close(t, i + 1)
                    edits.delete(t[i + 1].s, t[j].e)
            elif i < e:
                edits.insert(t[i].s, "pub ")
                n += 1
            d = 0
            while i < e and not (t[i].t == "," and d == 0):
                if t[i].k == "p" and t[i].t in OPENS:
                    i = match_close(t, i)
                elif t[i].t == "<":
                    d += 1
                elif t[i].t == ">":
                    d -= 1
                elif t[i].t == ">>":
                    d -= 2
                i += 1
            i += 1
        if n:
            dropped.append(f"{n} private fields made pub")

    def _strip_inner(self, it, edits):
        """Attributes on fields / variants inside a struct or enum."""
        dropped = []
        if it.body and it.kind in ("struct", "enum"):
            t = it.toks
            i = it.body[0] + 1
            while i < it.body[1]:
                if t[i].t == "#" and t[i + 1].t == "[":
                    j = match_close(t, i + 1)
                    edits.delete(t[i].s, t[j].e)
                    dropped.append("field attribute " + it.src.text[t[i].s:t[j].e])
                    i = j
                i += 1
        return dropped

    def _subst(self, text, subst, it, dropped):
        for pat, rep, why in subst:
            text2, n = re.subn(pat, rep, text)
            if n:
                dropped.append(f"{why}: /{pat}/ -> {rep!r} ({n}x)")
            text = text2
        return text

    def fn(self, rel, name, self_ty=None, trait=None, **spec):
        it = self.crate.find(rel, "fn", name, self_ty, trait)
        self.seen[(self_ty or "", name)] = True
        self._fn_part(it, spec)
        return it

    def impl(self, rel, self_ty, trait, fns, header=None, inject="", types=True, subst=(), pre_attr=""):
        """One impl block holding the given methods: {name: spec}.  Methods may come from several impl blocks."""
        its = [(self.crate.find(rel, "fn", n, self_ty, trait), sp) for n, sp in fns.items()]
        im = its[0][0].parent
        if header is None:
            header = im.src.text[im.toks[im.start].s:im.toks[im.body[0]].s]
            for pat, rep, why in subst:
                header = re.sub(pat, rep, header)
        self.raw(pre_attr + header + " {\n" + inject)
        if types:
            for c in im.children:
                if c.kind in ("type", "const"):
                    s, e = c.toks[c.start].s, c.toks[c.b - 1].e
                    self.raw("  " + im.src.text[s:e] + "\n")
        for it, sp in its:
            self.seen[(self_ty, it.name)] = True
            self._fn_part(it, sp)
        # helper methods of the same type that the included ones call and nobody has given a contract or a stub
        done = {it.name for it, _ in its}
        work = [it for it, _ in its]
        while work:
            it = work.pop()
            for n in called(it, method=True):
                if n in done or n in self.stub_fns or (self_ty, n) in self.seen:
                    continue
                h = it.src.find("fn", n, self_ty)
                if h is None or (h.parent.trait or "") != (im.trait or "") and im.trait:
                    continue
                done.add(n)
                self.structure.append(f"{it.path()} calls {h.path()}, which has no contract")
                self._fn_part(h, dict(auto=True))
                work.append(h)
        self.raw("}\n")

    def helpers(self):
        """Free functions and macros of the same files that included functions use and that nothing defines yet."""
        work = list(self.sources.values())
        done = set()
        while work:
            it = work.pop()
            for n in called(it, method=False):
                if n in done or n in self.stub_fns or ("", n) in self.seen:
                    continue
                h = it.src.find("fn", n)
                if h is not None and h.parent is None:
                    done.add(n)
                    self.structure.append(f"{it.path()} calls {n}, which has no contract")
                    self._fn_part(h, dict(auto=True))
                    work.append(h)

    # ---- one function ----------------------------------------------------------------------------------------
    def _fn_part(self, it, spec):
        t = it.toks
        s, e = t[it.start].s, t[it.b - 1].e
        dropped = []
        base = Edits(it.src, s, e)
        if it.attrs().strip():
            dropped.append("attributes: " + " ".join(it.attrs().split())[:160])
        if it.body is None:
            raise Lost(f"{it.path()} has no body")
        bo, bc = it.body
        keep_logs = spec.get("keep_logs")
        # logging statements
        i = bo + 1
        while i < bc:
            j = i
            if t[i].t == "log" and t[i + 1].t == "::":
                j = i + 2
            if (t[j].k == "id" and t[j].t in LOG_MACROS and t[j + 1].t == "!" and t[j + 2].t in OPENS
                    and t[i - 1].t in (";", "{", "}") and not keep_logs):
                c = match_close(t, j + 2)
                if t[c + 1].t == ";":
                    base.replace(t[i].s, t[c + 1].e, "/* log statement dropped */")
                    dropped.append("log statement " + " ".join(it.src.text[t[i].s:t[c].e].split())[:80])
                    i = c + 1
            i += 1
        for a in spec.get("drop_attrs", ()):
            pass
        # what a panic message says
        i = bo + 1
        while i < bc:
            if t[i].k == "id" and t[i].t in ("panic", "unimplemented", "unreachable", "todo") and t[i + 1].t == "!" and t[i + 2].t in OPENS:
                c = match_close(t, i + 2)
                if t[i + 3].k == "str" and i + 4 < c:
                    base.delete(t[i + 4].s, t[c - 1].e)
                    base.replace(t[i + 3].s, t[i + 3].e, '"message"')
                    dropped.append("arguments of a panic message")
                i = c
            i += 1
        # inner statement attributes
        i = bo + 1
        while i < bc:
            if t[i].t == "#" and t[i + 1].t == "[":
                c = match_close(t, i + 1)
                base.delete(t[i].s, t[c].e)
                dropped.append("statement attribute " + it.src.text[t[i].s:t[c].e])
                i = c
            i += 1
        # named result
        if spec.get("ret"):
            k = it.kw + 2
            if t[k].t == "<":
                k = it.src._angle(k)
            k = match_close(t, k) + 1
            if t[k].t == "->":
                a = k + 1
                k = a
                while k < bo and not (t[k].k == "id" and t[k].t == "where"):
                    if t[k].k == "p" and t[k].t in "([":
                        k = match_close(t, k)
                    k += 1
                base.insert(t[a].s, f"({spec['ret']}: ")
                base.insert(t[k - 1].e, ")")
            else:
                base.insert(t[k - 1].e, f" -> ({spec['ret']}: ())")
        if spec.get("spec"):
            base.insert(t[bo].s, "\n" + spec["spec"] + "\n")
        if spec.get("start"):
            base.insert(t[bo].e, "\n" + spec["start"] + "\n")
        if spec.get("end"):
            base.insert(t[bc].s, "\n" + spec["end"] + "\n")
        if spec.get("tail"):
            p = tail_pos(t, bo, bc)
            base.insert(t[p].s, "\n" + spec["tail"] + "\n")
        loops = it.loops()
        want = spec.get("loops", [])
        if not spec.get("auto") and [l[0] for l in loops] != [w["kind"] for w in want]:
            self.structure.append(f"{it.path()}: loops are {[l[0] for l in loops]}, annotated for {[w['kind'] for w in want]}")
        for l, w in zip(loops, want):
            kw, ki, lo, lc = l
            if kw != w["kind"]:
                continue
            forlet = ""
            if kw == "for" and w.get("iter"):
                k = ki + 1
                while not (t[k].k == "id" and t[k].t == "in"):
                    if t[k].k == "p" and t[k].t in OPENS:
                        k = match_close(t, k)
                    k += 1
                if t[ki + 1].t == "&":
                    pat = it.src.text[t[ki + 2].s:t[k - 1].e]
                    base.replace(t[ki + 1].s, t[k - 1].e, "vp_f")
                    forlet = f" let {pat} = *vp_f; "
                    dropped.append(f"loop pattern `&{pat}` desugared to a let")
            if w.get("iter") and kw == "for":
                k = ki + 1
                while not (t[k].k == "id" and t[k].t == "in"):
                    if t[k].k == "p" and t[k].t in OPENS:
                        k = match_close(t, k)
                    k += 1
                base.insert(t[k].e, f" {w['iter']}: ")
            if w.get("inv"):
                base.insert(t[lo].s, "\n" + w["inv"] + "\n")
            if forlet:
                base.insert(t[lo].e, forlet)
            if w.get("start"):
                base.insert(t[lo].e, "\n" + w["start"] + "\n")
            if w.get("end"):
                base.insert(t[lc].s, "\n" + w["end"] + "\n")
            if w.get("before"):
                # a label belongs to the loop
                b = ki
                if t[b - 1].t == ":" and t[b - 2].k == "life":
                    b -= 2
                base.insert(t[b].s, "\n" + w["before"] + "\n")
            if w.get("after"):
                base.insert(t[lc].e, "\n" + w["after"] + "\n")
        cls = it.closures()
        wantc = spec.get("closures")
        if wantc is not None:
            if len(cls) != len(wantc):
                self.structure.append(f"{it.path()}: {len(cls)} closures, annotated for {len(wantc)}")
            for (po, pc, cb, ce), w in zip(cls, wantc):
                if w is None:
                    continue
                # parameters: patterns become plain names plus a `let`, and types are written out (what inference finds anyway)
                ps, st, k = [], po + 1, po + 1
                while k <= pc and pc > po:
                    if t[k].k == "p" and t[k].t in OPENS:
                        k = match_close(t, k)
                    elif t[k].t == "," or k == pc:
                        if k > st:
                            ps.append((st, k))
                        st = k + 1
                    k += 1
                lets = ""
                tys = list(w.get("types", ())) + [None] * len(ps)
                for n, ((x, y), ty) in enumerate(zip(ps, tys)):
                    q = x
                    while q < y and t[q].t != ":":
                        if t[q].k == "p" and t[q].t in OPENS:
                            q = match_close(t, q)
                        q += 1
                    pat = it.src.text[t[x].s:t[q - 1].e]
                    if not (q == x + 1 and t[x].k == "id" and pat != "_"):
                        var = f"vp_c{n}"
                        base.replace(t[x].s, t[q - 1].e, var)
                        if t[x].t == "&&":
                            lets += f"let {it.src.text[t[x + 1].s:t[q - 1].e]} = **{var}; "
                        elif t[x].t == "&":
                            lets += f"let {it.src.text[t[x + 1].s:t[q - 1].e]} = *{var}; "
                        elif pat != "_":
                            lets += f"let {pat} = {var}; "
                        dropped.append(f"closure pattern `{pat}` desugared to a let")
                    if ty and q == y:
                        base.insert(t[y - 1].e, ": " + ty)
                if t[pc + 1].t == "->":
                    base.delete(t[pc + 1].s, t[cb - 1].e)
                base.insert(t[pc].e, f" -> ({w['ret']}) {w['spec']} ")
                if t[cb].t != "{":
                    base.insert(t[pc].e, "{ " + lets + w.get("start", ""))
                    base.insert(t[ce].e, " }")
                elif lets or w.get("start"):
                    base.insert(t[cb].e, " " + lets + w.get("start", ""))
        body = it.src.text[t[bo].s:t[bc].e]
        for pat, where, txt in spec.get("at", ()):
            m = re.search(pat, body)
            if not m:
                self.structure.append(f"{it.path()}: no statement matches the proof anchor /{pat}/")
                continue
            o = t[bo].s + (m.start() if where == "before" else m.end())
            base.insert(o, "\n" + txt + "\n")
        probes = []
        if not spec.get("auto") and not spec.get("noprobe"):
            probes.append(t[bo].e)
            for l in loops:
                probes.append(t[l[2]].e)
            self.contracts.append(it.path())
        self.nprobes += len(probes)
        subst = spec.get("subst", ())
        attrs = spec.get("attrs", "")
        if spec.get("subst"):
            self._subst(it.text(), subst, it, dropped)
        if spec.get("split_or"):
            dropped.append("match arms `A | B if g => e` written as one arm per alternative")
        if spec.get("tail_continue"):
            dropped.append("a `continue` that ends the body of its `for` loop dropped")
        if "inner" in spec:
            dropped.append("functions and types declared inside the body moved in front of it")
            self.contracts += [f"{it.path()}::{n}" for n in spec["inner"]]
        self._note(it, dropped)
        self.sources[it.path()] = it

        def emit(probe):
            b = base.copy()
            if probe:
                for o in probes:
                    b.insert(o, " assert(false); ")
            text = b.apply()
            if probe:
                # `hide` must come first in a body
                text = re.sub(r"assert\(false\);\s*((?:hide\(\w+\);\s*)+)", r"\1 assert(false); ", text)
            for pat, rep, why in subst:
                text = re.sub(pat, rep, text)
            if spec.get("split_or"):
                text = split_or(text)
            if spec.get("tail_continue"):
                text = tail_continue(text)
            if "inner" in spec:
                text = hoist(text, spec["inner"])
            return attrs + ("\n" if attrs else "") + text + "\n"
        self.parts.append(emit)

    def render(self, probe=False):
        text = "\n".join(p(probe) for p in self.parts)
        pre, tr = stdspecs.prelude(text)
        self.trusted = sorted(set(self.trusted) | set(tr))
        return pre + text

    def plain(self):
        return self.render()


OPENS = ("(", "[", "{")


def hoist(text, inner):
    """Items declared as statements of a function body go in front of the function; inner functions get their contracts."""
    t = rsx.lex(text)
    bo = next(i for i in range(len(t)) if t[i].t == "{" and _is_body(t, i))
    bc = match_close(t, bo)
    out, cut, i = [], [], bo + 1
    while i < bc:
        u = t[i]
        if u.k == "p" and u.t in OPENS:
            i = match_close(t, i)
        elif u.k == "id" and u.t in ("fn", "type") and t[i - 1].t in (";", "{", "}") or u.t == "type" and t[i - 1].s < u.s and t[i + 1].k == "id" and t[i - 1].t in (";", "{", "}"):
            j = i
            while t[j].t not in (";", "{"):
                if t[j].k == "p" and t[j].t in "([":
                    j = match_close(t, j)
                j += 1
            e = match_close(t, j) if t[j].t == "{" else j
            piece = text[u.s:t[e].e]
            if u.t == "fn" and t[i + 1].t in inner:
                ret, sp, *start = inner[t[i + 1].t]
                k = next(k for k in range(i, j) if t[k].t == "->")
                piece = text[u.s:t[k].e] + f" ({ret}: {text[t[k + 1].s:t[j - 1].e]})\n  {sp}\n" + text[t[j].s:t[j].e] + "".join(start) + text[t[j].e:t[e].e]
            out.append(piece)
            cut.append((u.s, t[e].e))
            i = e
        i += 1
    for a, b in reversed(cut):
        text = text[:a] + text[b:]
    return "\n".join(out) + "\n" + text


def split_or(text):
    """`A | B if g => e` becomes `A if g => e, B if g => e`."""
    t = rsx.lex(text)
    edits = []
    for m in range(len(t)):
        if t[m].t != "match" or t[m].k != "id" or t[m - 1].t == ".":
            continue
        b = m + 1
        while b < len(t) and t[b].t != "{":
            if t[b].k == "p" and t[b].t in "([":
                b = match_close(t, b)
            b += 1
        end = match_close(t, b)
        i = b + 1
        while i < end:
            st, bars, guard = i, [], None
            while t[i].t != "=>":
                if t[i].k == "p" and t[i].t in OPENS:
                    i = match_close(t, i)
                elif t[i].t == "|" and guard is None:
                    bars.append(i)
                elif t[i].t == "if" and t[i].k == "id" and guard is None:
                    guard = i
                i += 1
            arrow = i
            i += 1
            while i < end and t[i].t != ",":
                if t[i].k == "p" and t[i].t in OPENS:
                    blk = t[i].t == "{" and i == arrow + 1
                    i = match_close(t, i)
                    if blk and t[i + 1].t not in (".", "?"):
                        i += 1
                        break
                i += 1
            last = i - 1
            if i < end and t[i].t == ",":
                i += 1
            if bars and guard:
                cut = [st - 1] + bars + [guard]
                alts = [text[t[a + 1].s:t[c - 1].e] for a, c in zip(cut, cut[1:]) if c > a + 1]
                rest = text[t[guard].s:t[last].e]
                edits.append((t[st].s, t[last].e, ",\n".join(f"{a} {rest}" for a in alts)))
    for a, c, new in sorted(edits, reverse=True):
        text = text[:a] + new + text[c:]
    return text


def tail_continue(text):
    """A `continue` with nothing left to run in the body of its `for` loop goes (the verifier has none in `for` loops)."""
    t = rsx.lex(text)
    opener = {}
    for i in range(len(t)):
        if t[i].k == "p" and t[i].t in OPENS:
            opener[match_close(t, i)] = i

    def head(o):
        """the keyword of the construct whose block opens at o"""
        i = o - 1
        while i > 0 and t[i].t not in (";", "{", "}", "=>", "(", "["):
            i = opener[i] - 1 if i in opener else i - 1
        ks = [t[k].t for k in range(i + 1, o) if t[k].k == "id"]
        return next((k for k in reversed(ks) if k in ("match", "if", "else", "for", "while", "loop")), "")
    cut = []
    for i in range(len(t) - 1):
        if t[i].k == "id" and t[i].t == "continue" and t[i + 1].t == ";":
            j = i + 2
            while True:
                while t[j].t == ";":
                    j += 1
                if t[j].t != "}":
                    break
                o = opener[j]
                h = head(o)
                if h == "for":
                    cut.append((t[i].s, t[i + 1].e))
                    break
                if h in ("while", "loop"):
                    break
                j += 1
                while t[j].t == "else":
                    while t[j].t != "{":
                        j = match_close(t, j) if t[j].t in ("(", "[") else j
                        j += 1
                    j = match_close(t, j) + 1
                # a match arm: on to the end of the match
                d = j
                while d < len(t) and t[d].t != "}":
                    d = match_close(t, d) if t[d].t in OPENS else d
                    d += 1
                if t[o - 1].t == "=>" and d < len(t) and head(opener[d]) == "match":
                    j = d
    for a, b in reversed(cut):
        text = text[:a] + text[b:]
    return text


def _is_body(t, i):
    d = 0
    for k in range(i):
        if t[k].t in ("(", "["):
            d += 1
        elif t[k].t in (")", "]"):
            d -= 1
    return d == 0 and i > 0 and any(t[k].t == "fn" for k in range(i))


def tail_pos(t, bo, bc):
    """Token index where the tail expression (or the last statement) of a block starts."""
    last = bo + 1
    i = bo + 1
    while i < bc:
        u = t[i]
        if u.k == "p" and u.t in OPENS:
            c = match_close(t, i)
            if u.t == "{" and c + 1 < bc and t[c + 1].t not in (".", "?", "else", ")", ",", ";", "==", "&&", "||", "as"):
                # end of a block statement only if the statement began as one
                if t[last].k == "id" and t[last].t in ("if", "for", "while", "loop", "match", "unsafe") or t[last].t == "{" \
                        or t[last].k == "life" or (t[last].k == "id" and t[last].t in ("fn", "impl", "struct", "enum", "macro_rules")):
                    last = c + 1
            i = c
        elif u.k == "p" and u.t == ";":
            if i + 1 < bc:
                last = i + 1
        i += 1
    return last


def called(it, method):
    """Names called in the body: `x.n(` / `Self::n(` when method, bare `n(` otherwise."""
    t = it.toks
    out = []
    if it.body is None:
        return out
    for i in range(it.body[0] + 1, it.body[1]):
        if t[i].k != "id" or t[i].t in RUST_KW:
            continue
        nxt = t[i + 1].t
        if nxt == "::" and t[i + 2].t == "<":
            try:
                nxt = t[it.src._angle(i + 2)].t
            except Exception:
                pass
        prev = t[i - 1].t
        if method:
            if nxt == "(" and (prev == "." and t[i - 2].t == "self" or prev == "::" and t[i - 2].t == "Self") \
                    or prev == "::" and t[i - 2].t == "Self":
                out.append(t[i].t)
        else:
            if prev not in (".", "::", "fn") and nxt == "(":
                out.append(t[i].t)
            elif prev not in (".", "::", "fn") and t[i].t.islower() and prev in ("(", ",") and nxt in (")", ","):
                out.append(t[i].t)
    return list(dict.fromkeys(out))


class Edits:
    def __init__(self, src, s, e):
        self.src, self.s, self.e = src, s, e
        self.ops = []

    def copy(self):
        c = Edits(self.src, self.s, self.e)
        c.ops = list(self.ops)
        return c

    def insert(self, o, text):
        self.ops.append((o, o, text, len(self.ops)))

    def delete(self, a, b):
        self.replace(a, b, "")

    def replace(self, a, b, text):
        self.ops.append((a, b, text, len(self.ops)))

    def apply(self):
        # probes are inserted last but must come first at their position, in front of ghost text
        ops = sorted(self.ops, key=lambda o: (o[0], o[1], 0 if "assert(false)" in o[2] else 1, o[3]))
        out, p = [], self.s
        for a, b, text, _ in ops:
            if a < p:
                continue
            out.append(self.src.text[p:a])
            out.append(text)
            p = b
        out.append(self.src.text[p:self.e])
        return "".join(out)
