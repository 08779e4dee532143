"""The texts, characters and numbers the source under test mentions more often than the source the contracts were
written for (vx/literals.json).  They only steer the search for failing inputs; no verdict depends on them."""
import collections, glob, json, os, re
from rustlex import lex

V = os.path.dirname(os.path.abspath(__file__))
GLOBS = ["crates/styx-tokenizer/src/*.rs", "crates/styx-parse/src/*.rs", "crates/styx-parse/src/parser/*.rs", "crates/styx-cst/src/*.rs",
         "crates/styx-tree/src/*.rs", "crates/styx-format/src/*.rs", "crates/styx-embed/src/*.rs", "crates/styx-embed-macros/src/*.rs",
         "crates/styx-lsp/src/server.rs", "crates/styx-lsp/src/semantic_tokens.rs", "crates/facet-styx/src/schema_*.rs"]
SPACES = ["\u00a0", "\u2003", "\u3000", "\u000b", "\u000c", "\u0085", "\u2028", " ", "\t"]
CASES = ["A", "a", "AB", "ab", "É", "é", "İ", "ß", "KEY", "key", "Key"]
LETTERS = ["é", "½", "٣", "日", "Ⅷ", "ª"]
WIDE = ["é", "日本", "\U0001F600", "a\u0301"]
BREAKS = ["\r\n", "\r", "\n", "\u2028", "\u0085"]
IDS = {**{k: SPACES for k in ("is_whitespace", "trim", "trim_start", "trim_end", "split_whitespace", "is_ascii_whitespace", "trim_ascii", "trim_ascii_start", "trim_ascii_end")},
       **{k: CASES for k in ("to_lowercase", "to_uppercase", "eq_ignore_ascii_case", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "is_uppercase", "is_lowercase", "is_ascii_uppercase", "is_ascii_lowercase")},
       **{k: LETTERS for k in ("is_alphanumeric", "is_alphabetic", "is_numeric", "is_ascii_alphanumeric", "is_ascii_alphabetic", "is_ascii_digit", "is_digit", "to_digit")},
       **{k: ["\u0000", "\u007f", "\u0085", "\u0001", "\u200b", "\ufeff"] for k in ("is_control", "is_ascii_control", "is_ascii_graphic")},
       **{k: BREAKS for k in ("lines", "split_inclusive", "split", "rsplit", "rsplit_once", "split_once", "splitn")},
       **{k: WIDE for k in ("len", "chars", "count", "char_indices", "as_bytes", "bytes", "is_ascii", "len_utf8", "len_utf16", "encode_utf16", "is_char_boundary", "nth")}}
SIZES = {"u8": 8, "i8": 7, "u16": 16, "i16": 15, "u32": 32, "i32": 31, "u64": 64, "i64": 63}


def tokens(path):
    src = open(path).read()
    m = re.search(r"#\[cfg\(test\)\]\s*mod\s", src)
    return [t for t in lex(src[:m.start()] if m else src) if t.k in ("str", "char", "num") or (t.k == "id" and (t.t in IDS or t.t in SIZES))]


def files(repo):
    return sorted(f for g in GLOBS for f in glob.glob(os.path.join(repo, g)) if "test" not in os.path.basename(f))


def baseline(repo):
    return {os.path.relpath(f, repo): dict(sorted(collections.Counter(t.k[0] + t.t for t in tokens(f)).items())) for f in files(repo)}


def text(lit):
    raw = re.match(r'(?:b|c)?r(#*)"', lit)
    if raw:
        return lit[raw.end():len(lit) - 1 - len(raw.group(1))]
    s = re.sub(r"^[bc]", "", lit)[1:-1]
    s = re.sub(r"\\\n\s*", "", s)

    def one(m):
        e = m.group(1)
        return chr(int(e[2:-1], 16)) if e[0] == "u" else chr(int(e[1:], 16)) if e[0] == "x" else {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(e, e)
    return re.sub(r"\\(u\{[0-9A-Fa-f_]+\}|x[0-9A-Fa-f]{2}|.)", one, s)


def novel(repo):
    """(words, numbers)"""
    known = json.load(open(os.path.join(V, "literals.json")))
    words, nums = [], []
    for f in files(repo):
        try:
            c = collections.Counter(t.k[0] + t.t for t in tokens(f))
        except (AssertionError, ValueError, IndexError):
            continue
        k = known.get(os.path.relpath(f, repo), {})
        for w, n in c.items():
            if n <= k.get(w, 0):
                continue
            kind, w = w[0], w[1:]
            try:
                if kind in "sc":
                    t = text(w)
                    words += [x for x in [t] + re.split(r"\{[^{}]*\}", t) if x and len(x) < 60]
                elif kind == "n":
                    nums.append(int(re.sub(r"(?:[ui](?:8|16|32|64|128|size)|_)", "", w), 0))
                elif w in SIZES:
                    nums += [2 ** SIZES[w] - 1, 2 ** SIZES[w]]
                else:
                    words += IDS[w]
            except (ValueError, OverflowError):
                pass
    return list(dict.fromkeys(words))[:200], list(dict.fromkeys(nums))[:40]


def write(repo, path):
    words, nums = novel(repo)
    esc = lambda s: s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
    open(path, "w", newline="").write("".join(f"s\t{esc(w)}\n" for w in words) + "".join(f"n\t{n}\n" for n in nums))
    return words, nums
