"""New helpers (functions and constants of a source file that the contracts do not know) are put back into
their callers before extraction: `helper(args)` -> a block that binds the parameters and runs the body.
What cannot be put back mechanically (recursion, early returns outside tail position, other receivers) is
left alone, and whatever calls it is then undecided. The known names are in baseline.json."""
import json
import os
import re
from rustlex import RustFile, lex, strip_comments, OPEN, CLOSE

HERE = os.path.dirname(os.path.abspath(__file__))


def baseline():
    try:
        return json.load(open(os.path.join(HERE, "baseline.json")))
    except OSError:
        return {}


def names(rf):
    fns = sorted({f.q for f in rf.fns if not f.test})
    consts = sorted({n for (k, n) in rf.items if k in ("const", "static")})
    return dict(fns=fns, consts=consts)


def split_args(s):
    """Top-level comma parts of an argument list's text."""
    out, d, a, ang = [], 0, 0, 0
    for t in lex(s):
        if t.k == "p" and t.t in OPEN:
            d += 1
        elif t.k == "p" and t.t in CLOSE:
            d -= 1
        elif t.t == "<" and d == 0:
            ang += 1
        elif t.t == ">" and d == 0:
            ang -= 1
        elif t.t == "," and d == 0 and ang <= 0:
            out.append(s[a:t.s].strip())
            a = t.e
    if s[a:].strip():
        out.append(s[a:].strip())
    return out


def args_text(s):
    """Like split_args, for expressions (no generics)."""
    out, d, a = [], 0, 0
    bars = 0
    for t in lex(s):
        if t.k == "p" and t.t in OPEN:
            d += 1
        elif t.k == "p" and t.t in CLOSE:
            d -= 1
        elif t.t == "|" and d == 0:
            bars += 1
        elif t.t == "," and d == 0 and bars % 2 == 0:
            out.append(s[a:t.s].strip())
            a = t.e
    if s[a:].strip():
        out.append(s[a:].strip())
    return out


class Helper:
    def __init__(self, rf, f):
        T = rf.toks
        self.f, self.name, self.owner = f, f.name, f.owner
        sig = strip_comments(rf.src[T[f.fn_tok].s:T[f.open].s])
        self.body = strip_comments(rf.src[T[f.open].e:T[f.close].s]).strip()
        self.ok = True
        st = [t for t in lex(sig)]
        i = next((k for k, t in enumerate(st) if t.t == "("), None)
        d, j = 0, i
        while True:
            if st[j].t in OPEN and st[j].k == "p":
                d += 1
            elif st[j].t in CLOSE and st[j].k == "p":
                d -= 1
                if d == 0:
                    break
            j += 1
        self.params, self.self_ = [], None
        generic = [t.t for t in st[2:i]]
        gen = {t for t in generic if re.fullmatch(r"[A-Z]\w*", t)}
        for p in split_args(sig[st[i].e:st[j].s]):
            if re.fullmatch(r"(?:&\s*(?:'\w+\s+)?)?(?:mut\s+)?self", p):
                self.self_ = p
                if re.fullmatch(r"mut\s+self", p):
                    self.ok = False
                continue
            m = re.match(r"((?:mut\s+)?\w+)\s*:\s*(.*)$", p, re.S)
            if not m:
                self.ok = False
                return
            ty = m.group(2).strip()
            if "impl " in ty or "dyn " in ty or any(re.search(r"\b%s\b" % g, ty) for g in gen):
                ty = None
            else:
                ty = re.sub(r"&\s*'(?!static)\w+", "&", ty)
            self.params.append((m.group(1), ty))
        bt = lex(self.body)
        ids = [t.t for t in bt if t.k == "id"]
        self.returns = "return" in ids
        self.tries = any(t.t == "?" for t in bt)
        self.recursive = self.name in ids
        if self.recursive or "macro_rules" in ids or "fn" in ids:
            self.ok = False
        # a single expression?
        d, single = 0, True
        for k, t in enumerate(bt):
            if t.k == "p" and t.t in OPEN:
                d += 1
            elif t.k == "p" and t.t in CLOSE:
                d -= 1
            elif t.t == ";" and d == 0:
                single = False
        if bt and bt[0].t in ("if", "match", "while", "for", "loop", "let", "{"):
            single = single and bt[0].t in ("match", "if")
        self.single = single and bool(bt)


def call_sites(rf, h):
    """(start, end, args text, call tokens) of calls of h outside tests, and whether other uses remain."""
    T = rf.toks
    out, other = [], False
    tests = [(f.open, f.close) for f in rf.fns if f.test and f.close]
    for i, t in enumerate(T):
        if t.k != "id" or t.t != h.name or i == h.f.fn_tok + 1:
            continue
        if not any(f.open and f.close and f.open < i < f.close for f in rf.fns):
            continue    # in tests or items
        if any(a < i < b for a, b in tests):
            continue
        if i + 1 >= len(T) or T[i + 1].t != "(":
            if T[i - 1].t in (".", "::") or T[i - 1].k != "id":
                other = other or (T[i - 1].t != "." and T[i + 1].t in (")", ","))
            continue
        a = i
        if T[i - 1].t == ".":
            if T[i - 2].t != "self" or T[i - 3].t == "." or h.self_ is None:
                if h.self_ is not None:
                    other = True
                continue
            a = i - 2
        elif T[i - 1].t == "::":
            if T[i - 2].t not in ("Self", h.owner.split(">")[-1]) or h.self_ is not None:
                if T[i - 2].t in ("Self", h.owner):
                    other = True
                continue
            a = i - 2
        elif h.self_ is not None or h.owner:
            continue
        out.append((a, i, rf.mate[i + 1]))
    return out, other


def inline_file(src, path, base=None, log=None):
    b = (base if base is not None else baseline()).get(path)
    if b is None:
        return src
    log = {} if log is None else log
    bad = set()
    for _ in range(60):
        rf = RustFile(src, path)
        T = rf.toks
        edit = None
        for (k, n), items in rf.items.items():
            if k != "const" or n in b["consts"] or len(items) != 1 or ("const", n) in bad:
                continue
            a, e, i, _e = items[0]
            m = re.match(r"const\s+\w+\s*:\s*(.*?)=(.*);?\s*$", strip_comments(src[T[i].s:T[e].e]).rstrip("; \n"), re.S)
            if not m:
                bad.add(("const", n))
                continue
            val = m.group(2).strip()
            cuts = []
            for j, t in enumerate(T):
                if t.k == "id" and t.t == n and not i <= j <= e and T[j - 1].t != ".":
                    s0 = T[j - 2].s if T[j - 1].t == "::" and T[j - 2].t == "Self" else t.s
                    cuts.append((s0, t.e, val if re.fullmatch(r"[\w']+|\"[^\"]*\"|b?'.*'", val) else f"({val})"))
            cuts.append((T[a].s, T[e].e, ""))
            edit = (("const", n), cuts)
            break
        if edit is None:
            cand = [f for f in rf.fns if not f.test and f.close is not None and f.q not in b["fns"] and f.q not in bad]
            for f in cand:
                h = Helper(rf, f)
                if not h.ok:
                    bad.add(f.q)
                    continue
                sites, other = call_sites(rf, h)
                if other or not sites:
                    bad.add(f.q)
                    continue
                cuts, fine = [], True
                for a, i, c in sites:
                    if any(x[2] > a and x[1] < c for x in [(0, T and a2, c2) for a2, _i, c2 in sites if (a2, c2) != (a, c)]):
                        # nested calls of the same helper: one at a time, inner first
                        if any(a < a2 and c2 < c for a2, _i, c2 in sites):
                            continue
                    al = args_text(strip_comments(src[T[i + 1].e:T[c].s]))
                    if len(al) != len(h.params):
                        fine = False
                        break
                    nxt = T[c + 1].t if c + 1 < len(T) else ""
                    caller = next((g for g in rf.fns if g.close and g.open < i < g.close), None)
                    tail = T[a - 1].t == "return" or (caller is not None and caller.close == c + 1)
                    if h.returns or h.tries:
                        bad_ret = re.search(r"\breturn\b(?!\s*Err\b)", h.body) is not None
                        if not (tail or (nxt == "?" and not bad_ret)):
                            fine = False
                            break
                    lets, body = [], h.body
                    simple = True
                    for k, ((p, ty), x) in enumerate(zip(h.params, al)):
                        if x == p:
                            continue
                        simple = False
                        pn = p.split()[-1]
                        if any(re.search(r"\b%s\b" % pn, y) for y in al[k + 1:]):
                            fine = False
                            break
                        lets.append(f"let {p}{': ' + ty if ty else ''} = {x};")
                    if not fine:
                        break
                    alone = T[a - 1].t in ("=", "(", ",", "{", ";", "=>", "return", "}") and nxt in (";", ")", ",", "}")
                    if simple and h.single and (alone or not re.match(r"(if|match)\b", body)):
                        new = body if alone else f"({body})"
                    else:
                        new = "{ " + " ".join(lets) + " " + body + " }"
                        if T[a - 1].t in ("if", "while", "match", "in", "!", "&&", "||", "==") or nxt in (".", "==", "&&", "||", "?"):
                            new = "(" + new + ")"
                    cuts.append((T[a].s, T[c].e, new))
                if not fine:
                    bad.add(f.q)
                    continue
                if len(cuts) == len(sites):
                    cuts.append((T[f.first].s, T[f.close].e, ""))
                edit = (f.q, cuts)
                break
        if edit is None:
            break
        what, cuts = edit
        log[f"put back {what if isinstance(what, str) else what[1]}"] = log.get(f"put back {what if isinstance(what, str) else what[1]}", 0) + len(cuts)
        for s0, e0, new in sorted(cuts, reverse=True):
            src = src[:s0] + new + src[e0:]
    return src
