"""Copies private functions of /repo verbatim (with the free functions they call) into src/gen_*.rs."""
import os, re, sys
sys.path.insert(0, os.environ.get("VX") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "vx"))
from rustlex import RustFile, Anchor
REPO = os.environ.get("STYX_REPO", "/repo")
dest = os.path.join(sys.argv[1], "src")


def grab(path, fns, items=(), head="", out=""):
    rf = RustFile(open(os.path.join(REPO, path)).read(), path)
    free = {f.name: f for f in rf.fns if f.owner == "" and not f.test and f.close is not None}
    T = rf.toks
    todo, done = list(fns), []
    while todo:
        n = todo.pop()
        if n in done:
            continue
        if n not in free:
            raise Anchor(f"{path}: no function {n}")
        done.append(n)
        f = free[n]
        for i in range(f.open, f.close):
            if T[i].k == "id" and T[i].t in free and T[i - 1].t not in (".", "::"):
                todo.append(T[i].t)
    s = head
    for k, nm in items:
        s += re.sub(r"(?m)^(?:pub(?:\([^)]*\))?\s+)?(%s %s\b)" % (k, nm), r"pub \1", rf.item_text(k, nm)[0]) + "\n"
    for n in sorted(done):
        f = free[n]
        s += "pub " + rf.src[T[f.fn_tok].s:T[f.close].e] + "\n"
    open(os.path.join(dest, out), "w").write("// generated\n" + s)


POS = """#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub fn new(line: u32, character: u32) -> Self { Position { line, character } } }
"""
SEM = """#[derive(Clone, Copy, Debug, PartialEq)]
pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
pub fn raw(line: u32, start_char: u32, length: u32, token_type: TokenType, modifiers: u32) -> RawToken { RawToken { line, start_char, length, token_type, modifiers } }
"""
grab("crates/styx-lsp/src/server.rs", ["offset_to_position", "position_to_offset"], head=POS, out="gen_pos.rs")
grab("crates/styx-lsp/src/semantic_tokens.rs", ["offset_to_line_col", "encode_tokens"], [("enum", "TokenType"), ("struct", "RawToken")], SEM, "gen_sem.rs")
grab("crates/facet-styx/src/schema_validate.rs", ["levenshtein"], out="gen_lev.rs")
grab("crates/styx-lsp/src/server.rs", ["levenshtein"], out="gen_lev2.rs")
