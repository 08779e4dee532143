"""Mechanical extraction: unit file (.vu) + current /repo source -> one Verus file.

A unit file is Verus text with directive lines (they start with `@` in column 0):

  @file ALIAS PATH                 source file of /repo (re-read on every run)
  @use NAME                        splice /verif/units/NAME.vlib here (shared library text)
  @rewrite RX => REPL              regex rewrite applied to extracted text from here on
  @rewrite-push / @rewrite-pop     scope of the @rewrite rules in between
  @rewrite-pre RX => REPL          like @rewrite, but before loops are rewritten
  @rewrite-first RX => REPL        like @rewrite, but before chains are rewritten
  @rewrite-slices                  `&E[A..B]` -> `v_slice(E, A, B)` etc. (str slicing helpers)
  @rewrite-iters [S..]             `for P in E.chars()/char_indices()/bytes()/iter()/split('\\n')[.enumerate()]` (and `for P in S`,
                                   S a slice) -> index loop over the iterated sequence (v_sN, v_iN, N = number of the `for`)
  @rewrite-chains [off]            `E.chars()/iter().any/all/find(|p| B)`, `.filter(|p| B).count()` -> a loop with B in place
                                   (@chain N invariants, @chain-start N, @after-chain N attach to it)
  @havoc NAME REPL                  `let NAME = E;` -> `let NAME = REPL;` (REPL: any value of the type)
  @rewrite-optmap N [N..]          `N.map(|p| E)` (N an Option) -> `match N { Some(p) => Some(E), None => None }`
  @dropmacro NAME                  remove the statement `NAME!(...);`
  @macro NAME REPL                 `NAME!(...)` becomes REPL
  @item ALIAS KIND NAME [attrs..]  extract a struct/enum/const verbatim (attributes, docs dropped)
  @fn ALIAS QNAME [key=val..]      extract a function; the lines that follow attach to it:
     @spec / @entry / @exit / @loop N / @loop-start N / @loop-end N / @before-loop N / @after-loop N
     @before RX / @after RX        before/after the statement whose text matches RX (anchor)
     @end                          ends the attachment block
"""
import os
import re
import inline
from rustlex import RustFile, Anchor, lex, OPEN, CLOSE, strip_comments

REPO = os.environ.get("STYX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unit:
    def __init__(self, name):
        self.name = name
        self.files = {}
        self.paths = {}
        self.rewrites = []
        self.late = []      # applied after the unit's own rewrites
        self.used = set()
        self.havoc = []        # (variable, expression): its initialiser is replaced (any value: no claim on it)
        self.first = []        # @rewrite-first: rules applied before the chain rewriting
        self.pre = []          # @rewrite-pre: rules applied before the loop rewriting
        self.opaque = []
        self.rewstack = []     # @rewrite-push / @rewrite-pop: rules that hold for some functions only
        self.dropmacros = []
        self.macros = []       # @macro NAME REPL: NAME!(..) becomes REPL (for text that only people read)
        self.slices = False
        self.iters = None
        self.chains = False
        self.optmap = ()
        self.out = []          # list of (text, fnname|None)
        self.fns = []          # extracted function names (qualified)
        self.lost = []         # lost anchors: (fn, what)
        self.loopdiff = []     # functions whose loop count differs from the overlay
        self.covered = {}      # alias -> set of fn names included
        self.owners = {}
        self.rew_count = {}
        self.defs = {}
        self.autos = []
        self.vacuity = False   # assert(false) at every entry: each function must then fail
        self.vac = []
        self.assume = False
        self.assumed = []      # contracts used here and discharged in another unit
        self.trusted = []      # attr=external_body functions of /repo


def balanced_end(s, i):
    """s[i] is an opener; index of its closer (lexically aware)."""
    toks = lex(s[i:])
    d = 0
    for t in toks:
        if t.k == "p" and t.t in OPEN:
            d += 1
        elif t.k == "p" and t.t in CLOSE:
            d -= 1
            if d == 0:
                return i + t.s
    raise Anchor("unbalanced")


def havoc(s, name, repl):
    """`let NAME = E;` -> `let NAME = REPL;`"""
    m = re.search(r"\blet " + re.escape(name) + r"\s*=\s*", s)
    if not m:
        return s, 0
    d = 0
    for t in lex(s[m.end():]):
        if t.k == "p" and t.t in OPEN:
            d += 1
        elif t.k == "p" and t.t in CLOSE:
            d -= 1
        elif t.k == "p" and t.t == ";" and d == 0:
            return s[:m.end()] + repl + s[m.end() + t.s:], 1
    raise Anchor("unbalanced")


def drop_macro(s, name, repl=None):
    n = 0
    while True:
        m = re.search(r"(?<![A-Za-z0-9_:])(?:[a-z_]+::)*" + name + r"!\s*(?=[(\[{])", s)
        if not m:
            return s, n
        e = balanced_end(s, m.end())
        j = e + 1
        if repl is None:
            m2 = re.match(r"\s*;", s[j:])
            if m2:
                j += m2.end()
        s = s[:m.start()] + (repl or "") + "\n" * s[m.start():j].count("\n") + s[j:]
        n += 1


def rewrite_slices(s, pre="v_slice"):
    """`&E[A..B]` -> v_slice(E, A, B);  &E[A..] -> v_slice_from;  &E[..B] -> v_slice_to."""
    n = 0
    pos = 0
    while True:
        toks = lex(s)
        hit = None
        st = []
        mate = {}
        for i, t in enumerate(toks):
            if t.k == "p" and t.t in OPEN:
                st.append(i)
            elif t.k == "p" and t.t in CLOSE:
                j = st.pop()
                mate[i] = j
                mate[j] = i
        for i, t in enumerate(toks):
            if t.t != "[" or t.k != "p" or i == 0 or t.s < pos:
                continue
            p = toks[i - 1]
            if not (p.k == "id" or p.t in (")", "]")) or p.t in ("in", "return", "mut"):
                continue
            # range inside?
            j = i + 1
            dd = None
            while j < mate[i]:
                if toks[j].k == "p" and toks[j].t in OPEN:
                    j = mate[j] + 1
                    continue
                if toks[j].t == "..":
                    dd = j
                    break
                j += 1
            if dd is None:
                continue
            # expression start
            k = i - 1
            while True:
                if toks[k].t in (")", "]"):
                    k = mate[k]
                    # a call/paren: continue with what precedes if it is an ident
                    if k > 0 and (toks[k - 1].k == "id" or toks[k - 1].t in (")", "]")) and toks[k - 1].t not in ("return", "in", "match", "if"):
                        k -= 1
                        continue
                    if k > 0 and toks[k - 1].t == ".":
                        k -= 2
                        continue
                    break
                if toks[k].k in ("id", "num") and k > 0 and toks[k - 1].t in (".", "::"):
                    k -= 2
                    continue
                break
            if k == 0 or toks[k - 1].t != "&":
                continue
            hit = (k - 1, k, i, dd, mate[i])
            break
        if not hit:
            return s, n
        amp, k, ob, dd, cb = hit
        e = s[toks[k].s:toks[ob].s]
        a = s[toks[ob].e:toks[dd].s].strip()
        b = s[toks[dd].e:toks[cb].s].strip()
        if a and b:
            r = f"{pre}({e}, {a}, {b})"
        elif a:
            r = f"{pre}_from({e}, {a})"
        elif b:
            r = f"{pre}_to({e}, {b})"
        else:
            r = f"v_all({e})"
        s = s[:toks[amp].s] + r + s[toks[cb].e:]
        n += 1


def rewrite_let_chains(s):
    """`if A && let P = E && B { X }` -> nested ifs (no else) / `match E { P if B => X, _ => else }`."""
    n = 0
    while True:
        toks = lex(s)
        mate, st = {}, []
        for i, t in enumerate(toks):
            if t.k == "p" and t.t in OPEN:
                st.append(i)
            elif t.k == "p" and t.t in CLOSE:
                j = st.pop()
                mate[i], mate[j] = j, i
        hit = None
        for i, t in enumerate(toks):
            if not (t.k == "id" and t.t == "if"):
                continue
            # condition tokens up to `{` at depth 0
            j = i + 1
            amps, lets, seen_let = [], [], False
            if toks[j].t == "let":
                lets.append(j)
            stop = False
            while True:
                x = toks[j]
                if x.k == "p" and x.t in ("(", "["):
                    j = mate[j] + 1
                    continue
                if x.k == "p" and x.t == "{":
                    # a struct pattern `P { .. } =` or the body?
                    c = mate[j]
                    if c + 1 < len(toks) and toks[c + 1].t == "=" and lets and toks[j - 1].k == "id":
                        j = c + 1
                        continue
                    break
                if x.t == "=>":  # a match guard, not an if expression
                    stop = True
                    break
                if x.k == "p" and x.t == "&&" and toks[j + 1].t == "let":
                    lets.append(j + 1)
                if x.k == "p" and x.t == "&&":
                    amps.append(j)
                j += 1
                if j >= len(toks):
                    stop = True
                    break
            if stop or not lets or not amps:
                continue
            hit = (i, j, amps, lets)
            break
        if not hit:
            return s, n
        i, b, amps, lets = hit
        # split into clauses at && (only when a clause boundary: before or after a let clause)
        bounds = [i] + amps + [b]
        raw = []
        for x, y in zip(bounds, bounds[1:]):
            raw.append((toks[x + 1].t == "let", s[toks[x].e:toks[y].s].strip()))
        clauses = []
        for isl, tx in raw:
            if not isl and clauses and not clauses[-1][0]:
                clauses[-1] = (False, clauses[-1][1] + " && " + tx)
            else:
                clauses.append((isl, tx))
        body_e = toks[mate[b]].e
        body = s[toks[b].s:body_e]
        els = None
        nx = mate[b] + 1
        end = body_e
        if nx < len(toks) and toks[nx].t == "else":
            if toks[nx + 1].t == "if":
                # extent of the whole else-if chain
                k = nx + 1
                while True:
                    while True:
                        if toks[k].k == "p" and toks[k].t in ("(", "["):
                            k = mate[k] + 1
                        elif toks[k].k == "p" and toks[k].t == "{":
                            if toks[mate[k] + 1].t != "=":
                                break
                            k = mate[k] + 1
                        else:
                            k += 1
                    k = mate[k]
                    if k + 1 < len(toks) and toks[k + 1].t == "else":
                        k += 2
                        continue
                    break
                els = "{ " + s[toks[nx + 1].s:toks[k].e] + " }"
                end = toks[k].e
            else:
                k = mate[nx + 1]
                els = s[toks[nx + 1].s:toks[k].e]
                end = toks[k].e
        if els is None:
            r = ""
            for isl, tx in clauses:
                r += "if " + tx + " { "
            r += body + " }" * len(clauses)
        elif len(clauses) == 2 and clauses[0][0] and not clauses[1][0]:
            m = re.match(r"let\s+(.*?)\s*=(?!=)\s*(.*)$", clauses[0][1], re.S)
            r = f"match {m.group(2)} {{ {m.group(1)} if {clauses[1][1]} => {body} _ => {els} }}"
        elif len(clauses) == 2 and not clauses[0][0] and clauses[1][0]:
            m = re.match(r"let\s+(.*?)\s*=(?!=)\s*(.*)$", clauses[1][1], re.S)
            r = f"if {clauses[0][1]} {{ match {m.group(2)} {{ {m.group(1)} => {body} _ => {els} }} }} else {els}"
        else:
            # duplicate the else branch at every level
            r = body
            for isl, tx in reversed(clauses):
                r = "{ if " + tx + " " + r + " else " + els + " }"
            r = r[1:-1].strip()
        pre = s[:toks[i].s]
        if i > 0 and toks[i - 1].t == "else":
            r = "{ " + r + " }"
        s = pre + r + s[end:]
        n += 1


PH = r"(?P<ph>\s*(?:__PH\d+__\s*)*)\{"
ITER = re.compile(r"\bfor\s+(?P<pat>[^{};]*?)\s+in\s+(?P<e>[^{};]*?)\s*\.(?P<m>chars|char_indices|bytes|iter|split)\((?P<arg>'(?:\\?.)'|\"[^\"]*\")?\)(?P<en>\.enumerate\(\))?(?:\.skip\((?P<sk>\w+)\))?" + PH)
ITER2 = re.compile(r"\bfor\s+(?P<pat>[^{};]*?)\s+in\s+(?P<e>&?[a-z_][\w.]*)(?P<m>)(?P<arg>)(?P<en>)(?P<sk>)" + PH)
ITER3 = re.compile(r"\bfor\s+(?P<pat>[^{};]*?)\s+in\s+(?P<e>[a-z_]\w*\([^(){};]*\))" + PH)
ITER5 = re.compile(r"\bfor\s+(?P<pat>[^{};]*?)\s+in\s+(?P<e>v_[a-z]\w*\([^(){};]*\))" + PH)
ITER6 = re.compile(r"\bfor\s+(?P<pat>\w+)\s+in\s+(?P<lo>\w+)\.\.=(?P<hi>[\w.]+)" + PH)
ITER4 = re.compile(r"\bfor\s+(?P<pat>\w+)\s+in\s+\((?P<lo>\w+)\.\.(?P<hi>[^{};=]+?)\)\.rev\(\)" + PH)



def rewrite_iters(s, slices=()):
    """`for P in E.chars() {` -> index loop over the sequence it iterates: v_sN = v_chars(E), v_iN = position."""
    n = 0
    pos = 0
    k = 0
    while True:
        m = re.search(r"\bfor\s", s[pos:])
        if not m:
            return s, n
        a = pos + m.start()
        m = ITER5.match(s, a)
        if m:   # over the elements (copies) of a stand-in's result, put there by @rewrite-pre
            r = f"let v_s{k} = {m['e']}; let mut v_i{k}: usize = 0; while v_i{k} < v_s{k}.len() {m['ph']} {{ let {m['pat']} = v_s{k}[v_i{k}]; v_i{k} = v_i{k} + 1; "
            s = s[:a] + r + s[m.end():]
            pos, k, n = a + len(r), k + 1, n + 1
            continue
        m = ITER3.match(s, a)
        if m:   # by value over a call's result
            r = f"let mut v_s{k} = {m['e']}; while v_s{k}.len() > 0 {m['ph']} {{ let ghost v_o{k} = v_s{k}@; let {m['pat']} = v_s{k}.remove(0); "
            s = s[:a] + r + s[m.end():]
            pos, k, n = a + len(r), k + 1, n + 1
            continue
        m = ITER4.match(s, a)
        if m:   # range backwards
            r = f"let mut v_i{k}: usize = {m['hi']}; while v_i{k} > {m['lo']} {m['ph']} {{ v_i{k} = v_i{k} - 1; let {m['pat']} = v_i{k}; "
            s = s[:a] + r + s[m.end():]
            pos, k, n = a + len(r), k + 1, n + 1
            continue
        m = ITER6.match(s, a)
        if m:   # inclusive range
            r = f"let v_e{k} = {m['hi']}; let mut v_i{k}: usize = {m['lo']}; while v_i{k} <= v_e{k} {m['ph']} {{ let {m['pat']} = v_i{k}; v_i{k} = v_i{k} + 1; "
            s = s[:a] + r + s[m.end():]
            pos, k, n = a + len(r), k + 1, n + 1
            continue
        m = ITER.match(s, a) or ITER2.match(s, a)
        if not m or (m.re is ITER2 and m["e"].lstrip("&") not in [x.rstrip("*") for x in slices]):
            pos = a + 3
            k += 1
            continue
        if m["m"] == "split" and m["arg"] != "'\\n'":
            src, ref = f"v_split({m['e']}, {m['arg']})", ""
        else:
          src = {"chars": "v_chars(%s)", "char_indices": "v_char_indices(%s)", "bytes": "v_bytes(%s)", "iter": "%s", "split": "v_split_lf(%s)", "": "%s"}[m["m"]] % m["e"]
          ref = "&" if m["m"] in ("iter", "") else ""
        if ref and not src.startswith("&") and m["e"] + "*" not in slices:
            src = "&" + src
        el = f"{ref}v_s{k}[v_i{k}]"
        if m["en"]:
            el = f"(v_i{k}, {el})"
        r = f"let v_s{k} = {src}; let mut v_i{k}: usize = {m['sk'] or 0}; while v_i{k} < v_s{k}.len() {m['ph']} {{ let {m['pat']} = {el}; v_i{k} = v_i{k} + 1; "
        s = s[:a] + r + s[m.end():]
        pos = a + len(r)
        k += 1
        n += 1


CHAIN = re.compile(r"(?<![\w.])(?P<recv>[A-Za-z_][\w.]*)\.(?P<m>chars|iter)\(\)\.(?P<op>any|all|find|filter)\(\s*\|(?P<pat>[^|]*)\|")


def rewrite_chains(s, text):
    """`E.chars()/iter().any/all/find(|p| B)`, `.filter(|p| B).count()` -> a loop over the sequence E iterates, with the
    closure's body in place: v_cN = the sequence, v_kN = position, v_bN = result (N = number of the chain).
    text(kind, N) gives placeholders for invariants (chain), and proof text (chain-start, after-chain)."""
    s = re.sub(r"\s*\n\s*\.(?=[A-Za-z_0-9])", ".", s)
    k = 0
    pos = 0
    while True:
        m = CHAIN.search(s, pos)
        if not m:
            return s, k
        o = s.index("(", m.end("op"))
        c = balanced_end(s, o) + 1      # index behind the closing parenthesis
        body = s[m.end():c - 1].strip()
        pat = m["pat"].strip().lstrip("&").strip()
        if m["m"] == "chars" or m["op"] in ("find", "filter"):
            body = re.sub(r"(?<![\w)\]])\*" + re.escape(pat) + r"\b", pat, body)
        end = c
        if m["op"] == "filter":
            t = re.match(r"\.count\(\)", s[c:])
            if not t:
                pos = c
                continue
            end = c + t.end()
        if m["m"] == "chars":
            src, el = f"v_chars({m['recv']})", f"v_c{k}[v_k{k}]"
        else:
            src, el = f"&{m['recv']}", f"&v_c{k}[v_k{k}]"
        init, act = {"any": ("false", f"if {body} {{ v_b{k} = true; break; }}"), "all": ("true", f"if !({body}) {{ v_b{k} = false; break; }}"),
                     "find": ("None", f"if {body} {{ v_b{k} = Some({pat}); break; }}"), "filter": ("0", f"if {body} {{ v_b{k} = v_b{k} + 1; }}")}[m["op"]]
        ty = {"filter": ": usize", "find": text("chain-type", k)}.get(m["op"], "")
        r = f"{{ let v_c{k} = {src}; let mut v_k{k}: usize = 0; let mut v_b{k}{ty} = {init}; while v_k{k} < v_c{k}.len() {text('chain', k)} {{ let {pat} = {el}; v_k{k} = v_k{k} + 1; {text('chain-start', k)} {act} }} {text('after-chain', k)} v_b{k} }}"
        s = s[:m.start()] + r + s[end:]
        pos = m.start() + len(r)
        k += 1


def rewrite_optmap(s, names):
    """`N.map(|p| E)` for an Option N -> the match it stands for."""
    n, pos = 0, 0
    rx = re.compile(r"(?<![\w.])(" + "|".join(map(re.escape, names)) + r")\.map\(\s*\|\s*([\w&]+)\s*\|\s*")
    while True:
        m = rx.search(s, pos)
        if not m:
            return s, n
        o = s.index("(", m.end(1))
        c = balanced_end(s, o)
        r = f"match {m[1]} {{ Some({m[2]}) => Some({s[m.end():c].strip()}), None => None }}"
        s = s[:m.start()] + r + s[c + 1:]
        pos = m.start() + len(r)
        n += 1


def apply_rewrites(u, s):
    for name in u.dropmacros:
        s, n = drop_macro(s, name)
        u.rew_count["drop " + name + "!"] = u.rew_count.get("drop " + name + "!", 0) + n
    for name, repl in u.macros:
        s, n = drop_macro(s, name, repl)
        u.rew_count[f"{name}!(..) => {repl}"] = u.rew_count.get(f"{name}!(..) => {repl}", 0) + n
    s = re.sub(r"\s*\n\s*\.(?=[A-Za-z_0-9])", ".", s)   # join method chains
    s, n = rewrite_let_chains(s)
    u.rew_count["let chains"] = u.rew_count.get("let chains", 0) + n
    s, n = re.subn(r'\bb"((?:[^"\\]|\\.)*)"', lambda m: "&[" + ", ".join("%du8" % b for b in m.group(1).encode().decode("unicode_escape").encode("latin1")) + "]", s)
    if n:
        u.rew_count["byte string literals"] = u.rew_count.get("byte string literals", 0) + n
    for rx, repl in u.pre:
        s, n = re.subn(rx, repl, s)
        u.rew_count[rx + " => " + repl] = u.rew_count.get(rx + " => " + repl, 0) + n
    if u.optmap:
        s, n = rewrite_optmap(s, u.optmap)
        u.rew_count["Option::map"] = u.rew_count.get("Option::map", 0) + n
    if u.iters is not None:
        s, n = rewrite_iters(s, u.iters)
        u.rew_count["for loops over sequences"] = u.rew_count.get("for loops over sequences", 0) + n
    for rx, repl in u.rewrites:
        s, n = re.subn(rx, repl, s)
        u.rew_count[rx + " => " + repl] = u.rew_count.get(rx + " => " + repl, 0) + n
    for rx, repl in u.late:
        s, n = re.subn(rx, repl, s)
        if n:
            u.rew_count[rx + " => " + repl] = u.rew_count.get(rx + " => " + repl, 0) + n
    if u.slices:
        s, n = rewrite_slices(s, u.slices)
        u.rew_count["str slices"] = u.rew_count.get("str slices", 0) + n
    return s


def strip_attrs(s, keep=()):
    """Remove attributes anywhere in the text."""
    toks = lex(s)
    cut = []
    i = 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            d, j = 0, i + 1
            while True:
                if toks[j].t == "[":
                    d += 1
                elif toks[j].t == "]":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            cut.append((toks[i].s, toks[j].e))
            i = j + 1
            continue
        i += 1
    for a, b in reversed(cut):
        s = s[:a] + "\n" * s[a:b].count("\n") + s[b:]
    return s


def stmt_span(text, rx, nth=0):
    """Span (in `text`) of the innermost statement that contains the nth match of rx."""
    ms = list(re.finditer(rx, text))
    if len(ms) <= nth:
        return None
    m = ms[nth]
    toks = lex(text)
    # walk back from the match to the previous `;`, `{`, `}` at the same depth
    idx = next(i for i, t in enumerate(toks) if t.e > m.start())
    d = 0
    i = idx - 1
    st = None
    while i >= 0:
        t = toks[i]
        if t.k == "p" and t.t in CLOSE:
            if t.t == "}" and d == 0:
                st = t.e
                break
            d += 1
        elif t.k == "p" and t.t in OPEN:
            if d == 0 and t.t == "{":
                st = t.e
                break
            d -= 1
            if d < 0:
                d = 0
        elif t.t == ";" and d == 0:
            st = t.e
            break
        i -= 1
    if st is None:
        st = 0
    i = next(i for i, t in enumerate(toks) if t.s >= st)
    while toks[i].t.startswith("__PH"):   # text already attached here goes first
        i += 1
    start = toks[i].s
    d = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "p" and t.t in OPEN:
            d += 1
        elif t.k == "p" and t.t in CLOSE:
            d -= 1
            if d < 0:
                return start, toks[i - 1].e
            if d == 0 and t.t == "}" and toks[next(k for k, x in enumerate(toks) if x.s >= start)].t in ("if", "while", "loop", "for", "match"):
                nx = toks[i + 1] if i + 1 < len(toks) else None
                if nx is None or nx.t not in ("else", ".", "?", ";"):
                    return start, t.e
        elif t.t == ";" and d == 0:
            return start, t.e
        i += 1
    return start, toks[-1].e


def emit_fn(u, rf, f, blocks, opts):
    T = rf.toks
    src = rf.src
    loops = rf.loops(f) if f.close is not None else []
    ins = []  # (pos, order, text)

    def add(pos, txt, o=0):
        ins.append((pos, o, txt))

    sig_a, sig_b = T[f.fn_tok].s, T[f.open].s
    body_s, body_e = T[f.open].s, T[f.close].e
    want = opts.get("loops")
    if want is not None and int(want) != len(loops):
        u.loopdiff.append((f.q, f"{len(loops)} loops, overlay written for {want}"))
    marks = []
    for key, arg, txt in blocks:
        if key == "spec":
            continue
        if key == "entry":
            add(T[f.open].e, "\n" + txt)
        elif key in ("loop", "loop-start", "loop-end", "before-loop", "after-loop"):
            n = int(arg)
            if n >= len(loops):
                u.lost.append((f.q, f"loop {n}"))
                continue
            h, o, c = loops[n]
            if key == "loop":
                add(T[o].s, "\n" + txt)
            elif key == "loop-start":
                add(T[o].e, "\n" + txt)
            elif key == "loop-end":
                add(T[c].s, "\n" + txt)
            elif key == "before-loop":
                # before the loop keyword (or its label)
                hh = h
                if T[h - 1].t == ":" and T[h - 2].k == "life":
                    hh = h - 2
                add(T[hh].s, txt)
            else:
                add(T[c].e, "\n" + txt)
        elif key in ("before", "after", "exit"):
            marks.append((key, arg, txt))
    chains = {(k, int(a)): t for k, a, t in blocks if k in ("chain", "chain-start", "after-chain", "chain-type")}
    # assemble with placeholders
    ins.sort(key=lambda x: (x[0], x[1]))
    body = []
    last = body_s
    store = []
    for pos, _, txt in ins:
        body.append(src[last:pos])
        body.append(f" /*@@{len(store)}@@*/ ")
        store.append(txt)
        last = pos
    body.append(src[last:body_e])
    b = "".join(body)
    # comments out, placeholders kept
    b = re.sub(r"/\*@@(\d+)@@\*/", r" __PH\1__ ", b)
    b = strip_comments(b)
    b = strip_attrs(b)
    for name, repl in u.havoc:
        b, n = havoc(b, name, repl)
        u.rew_count[f"let {name} = ..; => {repl}"] = u.rew_count.get(f"let {name} = ..; => {repl}", 0) + n
    if u.first:
        b = re.sub(r"\s*\n\s*\.(?=[A-Za-z_0-9])", ".", b)
        for rx, repl in u.first:
            b, n = re.subn(rx, repl, b)
            u.rew_count[rx + " => " + repl] = u.rew_count.get(rx + " => " + repl, 0) + n
    if u.chains:
        def chain_text(kind, n):
            t = chains.pop((kind, n), None)
            if t is None:
                return ""
            if kind == "chain-type":
                return ": " + t.strip()
            store.append(t)
            return f" __PH{len(store) - 1}__ "
        b, nch = rewrite_chains(b, chain_text)
        u.rew_count["iterator chains"] = u.rew_count.get("iterator chains", 0) + nch
        for kind, n in chains:
            u.lost.append((f.q, f"{kind} {n}"))
    b = apply_rewrites(u, b)
    mutself = re.search(r"\(\s*mut self\b", strip_comments(src[sig_a:sig_b])) is not None
    if mutself:
        # Verus has no `mut self` parameters: the body works on a local copy of the same name but for the `v_`
        b = re.sub(r"\bself\b", "v_self", b)
        b = "{ let mut v_self = self; " + b.lstrip()[1:]
        u.rew_count["mut self parameters"] = u.rew_count.get("mut self parameters", 0) + 1
    for key, arg, txt in marks:
        nth = 0
        m = re.match(r"#(\d+)\s+(.*)", arg or "")
        if m:
            nth, arg = int(m.group(1)), m.group(2)
        if key == "exit":
            # before the closing brace
            k = b.rstrip().rfind("}")
            b = b[:k] + f" __PH{len(store)}__ " + b[k:]
            store.append(txt)
            continue
        sp = stmt_span(b, arg, nth)
        if sp is None:
            u.lost.append((f.q, f"statement /{arg}/"))
            continue
        p = sp[0] if key == "before" else sp[1]
        b = b[:p] + f" __PH{len(store)}__ " + b[p:]
        store.append(txt)
    if u.assume or "external_body" in opts.get("attr", ""):
        b = "{ unimplemented!() }"
    b = re.sub(r"__PH(\d+)__", lambda m: "\n" + store[int(m.group(1))] + "\n", b)
    if u.vacuity and "external_body" not in opts.get("attr", ""):
        b = b.lstrip()
        mh = re.match(r"\s*((?:(?:hide|reveal)\([^()]*\);\s*)*)", b[1:])   # headers stay first
        b = "{ " + mh.group(1) + " assert(false); " + b[1 + mh.end():]
        u.vac.append(f.q)
    if "touch" in opts:
        # Verus loses `final(x) == current x` behind a failed match guard in tail position; a no-op
        # reborrow after the body restores it (proof aid, no effect on the code's behaviour).
        b = "{ let v_r = " + b + "; v_touch(" + opts["touch"] + "); v_r }"
    sig = strip_comments(src[sig_a:sig_b])
    sig = apply_rewrites(u, sig)
    if mutself:
        sig = re.sub(r"\(\s*mut self\b", "(self", sig)
    spec = "".join(t for k, a, t in blocks if k == "spec")
    rname = opts.get("ret", "r")
    # name the result
    m = None
    toks = lex(sig)
    d = 0
    arrow = None
    where = None
    for t in toks:
        if t.k == "p" and t.t in OPEN:
            d += 1
        elif t.k == "p" and t.t in CLOSE:
            d -= 1
        elif t.t == "->" and d == 0:
            arrow = t
        elif t.t == "where" and d == 0:
            where = t
    if arrow is not None and spec:
        end = where.s if where else len(sig)
        ty = sig[arrow.e:end].strip()
        sig = sig[:arrow.s] + f"-> ({rname}: {ty}) " + sig[end:]
    attrs = opts.get("attr", "")
    attrs = "".join(f"#[verifier::{a}] " for a in attrs.split("|") if a)
    vis = opts.get("vis", "pub")
    vis = "" if vis == "none" else vis + " "
    if opts.get("trait"):
        vis = ""
    if "rename" in opts:
        sig = re.sub(r"^fn\s+\w+", "fn " + opts["rename"], sig)
    return f"{attrs}{vis}{sig}\n{spec}{b}\n"


def load(unit, text=None, vacuity=False):
    path = os.path.join(VERIF, "units", unit + ".vu")
    lines = (text if text is not None else open(path).read()).split("\n")
    u = Unit(unit)
    u.vacuity = vacuity
    expand(u, lines)
    return u


def predefs(u, lines):
    """`@def NAME` .. `@enddef` templates; a line `@@NAME a1 | a2` expands with $1 $2 replaced."""
    out, i = [], 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("@def "):
            nm, body = ln[5:].strip(), []
            i += 1
            while lines[i] != "@enddef":
                body.append(lines[i])
                i += 1
            u.defs[nm] = body
        elif ln.startswith("@@"):
            nm, _, a = ln[2:].partition(" ")
            args = [x.strip() for x in a.split(";;")] if a.strip() else []
            if nm not in u.defs:
                raise Anchor("unit: no @def " + nm)
            t = "\n".join(u.defs[nm])
            for k, v in enumerate(args):
                t = t.replace("$%d" % (k + 1), v)
            t = re.sub(r"\$[0-9]", "", t)
            out.extend(predefs(u, t.split("\n")))
        else:
            out.append(ln)
        i += 1
    return out


def expand(u, lines):
    lines = predefs(u, lines)
    i = 0
    while i < len(lines):
        ln = lines[i]
        if not ln.startswith("@"):
            u.out.append((ln + "\n", None))
            i += 1
            continue
        d, _, rest = ln[1:].partition(" ")
        rest = rest.strip() if d not in ("rewrite", "rewrite-late") else rest.lstrip()
        if d == "file":
            al, p = rest.split()
            full = os.path.join(REPO, p)
            try:
                u.files[al] = RustFile(inline.inline_file(open(full).read(), p, log=u.rew_count), p)
            except (OSError, IndexError, ValueError) as ex:
                raise Anchor(f"cannot read {p}: {ex!r}")
            u.paths[al] = p
            u.covered[al] = set()
        elif d == "use" and rest == "std" and rest in u.used:
            pass
        elif d == "rewrite-late":
            a, _, b = rest.partition(" => ")
            u.late.append((a, b))
        elif d == "use":
            u.used.add(rest)
            sub = open(os.path.join(VERIF, "units", rest + ".vlib")).read().split("\n")
            expand(u, sub)
        elif d == "rewrite":
            a, _, b = rest.partition(" => ")
            u.rewrites.append((a, b))
        elif d == "rewrite-first":
            a, _, b = rest.partition(" => ")
            u.first.append((a, b))
        elif d == "rewrite-pre":
            a, _, b = rest.partition(" => ")
            u.pre.append((a, b))
        elif d == "use-assumed":
            # contracts discharged in another unit: bodies and proofs are not checked again here
            sub = open(os.path.join(VERIF, "units", rest + ".vlib")).read()
            sub = re.sub(r"(?m)^(\s*)(?=(?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::external_body] ", sub)
            was, u.assume = u.assume, True
            expand(u, sub.split("\n"))
            u.assume = was
        elif d == "opaque":
            u.opaque += rest.split()
        elif d == "rewrite-reset":
            u.rewrites = []
        elif d == "rewrite-slices":
            u.slices = rest or "v_slice"
        elif d == "rewrite-iters":
            u.iters = rest.split()
        elif d == "havoc":
            u.havoc.append(tuple(rest.split(None, 1)))
        elif d == "rewrite-optmap":
            u.optmap = tuple(rest.split())
        elif d == "rewrite-chains":
            u.chains = rest != "off"
        elif d == "rewrite-push":
            u.rewstack.append((list(u.rewrites), list(u.pre)))
        elif d == "rewrite-pop":
            u.rewrites, u.pre = u.rewstack.pop()
        elif d == "unrewrite":
            u.rewrites = [(a, b) for a, b in u.rewrites if a != rest]
        elif d == "dropmacro":
            u.dropmacros.append(rest)
        elif d == "macro":
            u.macros.append(tuple(rest.split(None, 1)))
        elif d == "item":
            al, kind, nm, *opts = rest.split()
            full, bare = u.files[al].item_text(kind, nm)
            t = strip_attrs(strip_comments(bare))
            t = apply_rewrites(u, t)
            o = dict(x.split("=", 1) for x in opts if "=" in x)
            if "pubfields" in opts:
                t = re.sub(r"(?m)^(\s+)(?!pub\b)([a-z_]\w*\s*:)", r"\1pub \2", t)
            at = "".join(f"#[{a}] " for a in o.get("attr", "").split("|") if a)
            u.out.append((at + "pub " + t + "\n", None))
        elif d == "fn":
            al, q, *opts = rest.split()
            o = dict(x.split("=", 1) for x in opts)
            blocks = []
            i += 1
            cur = None
            while True:
                if i >= len(lines):
                    raise Anchor(f"unit: @fn {q} has no @end")
                l2 = lines[i]
                if l2.startswith("@end"):
                    break
                if l2.startswith("@"):
                    k, _, a = l2[1:].partition(" ")
                    cur = [k, a.strip(), ""]
                    blocks.append(cur)
                elif cur is not None:
                    cur[2] += l2 + "\n"
                i += 1
            try:
                f = u.files[al].find_fn(q, o.get("sig"))
            except Anchor as ex:
                if "optional" in o:
                    i += 1
                    continue
                raise
            u.covered[al].add(f.q)
            u.fns.append(q)
            if u.assume:
                u.fns.remove(q)
                u.assumed.append(q)
                o["attr"] = "|".join([x for x in o.get("attr", "").split("|") if x] + ["external_body"])
                o.pop("touch", None)
                o.pop("loops", None)
                blocks = [b for b in blocks if b[0] == "spec"]
            elif "external_body" in o.get("attr", ""):
                u.trusted.append(q)
            u.out.append((emit_fn(u, u.files[al], f, blocks, o), q))
        elif d == "auto":
            # every remaining function of owner OWNER, with the given default contract
            al, own, *opts = rest.split()
            o = dict(x.split("=", 1) for x in opts)
            spec = ""
            i += 1
            while not lines[i].startswith("@end"):
                spec += lines[i] + "\n"
                i += 1
            own = "" if own == "-" else own
            skip = set(o.get("skip", "").split(","))
            for f in u.files[al].fns:
                if f.owner == own and not f.test and f.q not in u.covered[al] and f.name not in skip and f.close is not None:
                    u.covered[al].add(f.q)
                    u.autos.append(f.q)
                    sp = spec
                    sigtxt = u.files[al].src[u.files[al].toks[f.fn_tok].s:u.files[al].toks[f.open].s]
                    if "&mut self" not in sigtxt:
                        sp = ""
                    u.out.append((emit_fn(u, u.files[al], f, [["spec", "", sp]], {}), f.q))
        else:
            raise Anchor(f"unit: unknown directive {ln!r}")
        i += 1


def render(u):
    """Text and line map [(first,last,fn)]."""
    text = []
    n = 1
    lm = []
    for t, fn in u.out:
        for o in u.opaque:
            t = re.sub(r"(?m)^(\s*)(?=pub open spec fn %s\b)" % o, r"\1#[verifier::opaque] ", t)
        k = t.count("\n")
        if fn:
            lm.append((n, n + k - 1, fn))
        text.append(t)
        n += k
    return "".join(text), lm
