IN = ["inputs"]
prop("P01", "Tokens tile any text, and scanning always ends",
     "For every text, splitting it into tokens ends after finitely many tokens with one end-of-input token, and asking again keeps giving end of input. The tokens' ranges follow one another without gap or overlap from the first byte to the last, and each token's text is exactly the source text of its range, so that joining the token texts gives back the source byte for byte. No input makes the scan panic, split a character or loop.",
     IN, "every text, valid or not",
     "The tests tokenize some hundred chosen snippets; unterminated strings, heredocs at end of input, multi-byte characters next to delimiters and their combinations form an unbounded space.",
     ["crates/styx-tokenizer/src/tokenizer.rs", "crates/styx-tokenizer/src/span.rs"],
     [("scanner dispatch", "Tokenizer::next_token"), ("token construction from the scan position", "Tokenizer::token, Tokenizer::advance"), ("heredoc mode and its end at end of input", "Tokenizer::tokenize_heredoc_content")],
     state=[{"name": "scan position and heredoc mode", "meaning": "the unread rest of the source and the delimiter being looked for", "where": "Tokenizer"}])
prop("P02", "Every token is classified as the lexical grammar says",
     "For every text, the sequence of token kinds and ranges is the one the lexical specification defines: structural marks, bare scalars up to the first forbidden character, quoted scalars with escaped quotes, raw scalars closed by a quote with the same number of hashes, heredocs closed by their delimiter alone on a line (maybe indented), tags with chained segments, units, comments and doc comments up to the line end, blanks and newlines. Text that fits no rule becomes an error token, never a token of another kind.",
     IN, "every text, valid or not",
     "The tests pin single tokens and a few sequences; the boundaries (which character ends which token, hashes inside raw text, delimiter prefixes inside heredocs, a tag name next to a raw payload) need all inputs.",
     ["crates/styx-tokenizer/src/tokenizer.rs", "docs/content/reference/spec/parser.md"],
     [("per-kind scanners", "Tokenizer::tokenize_* functions"), ("heredoc delimiter search", "Tokenizer::find_heredoc_delimiter"), ("character classes", "is_bare_scalar_start, is_bare_scalar_char")])
prop("P03", "Quoted scalars decode exactly; every bad escape is reported",
     "For every quoted scalar whose escapes are all valid (\\\\, \\\", \\n, \\r, \\t, \\uXXXX with four hex digits, \\u{...} with at least one hex digit denoting a Unicode scalar value), the value the parser reads, as key or value anywhere in a document, is exactly the text with each escape replaced by the character it names and everything else unchanged. For every quoted scalar with any other escape the parser reports an error, with a range inside the source, and never panics.",
     IN, "every quoted scalar in every position a scalar may take",
     "The tests decode a handful of escapes; truncated, overflowing, surrogate, empty and multi-byte-adjacent escapes are an unbounded family.",
     ["crates/styx-parse/src/lexer.rs", "crates/styx-parse/src/parser/mod.rs"],
     [("escape decoding", "process_escapes"), ("escape error location", "validate_escapes"), ("lenient decoding for error recovery", "unescape_quoted")])
prop("P04", "Raw and heredoc scalars keep their content verbatim",
     "For every raw scalar the value the parser reads is exactly the text between its delimiters, backslashes, quotes and line breaks included. For every heredoc it is exactly its content lines, each line stripped of at most as many leading blanks as the closing delimiter is indented, whatever the language hint, and an unterminated heredoc is an error.",
     IN, "every raw scalar and heredoc, any delimiter, indentation, hash count and content",
     "The tests use a few contents with one indentation each; mixed tabs, blank lines, short lines, delimiter look-alikes and multi-byte blanks need all inputs.",
     ["crates/styx-parse/src/lexer.rs", "crates/styx-tokenizer/src/tokenizer.rs"],
     [("raw delimiter stripping, heredoc collection", "Lexer::next_lexeme"), ("dedent", "dedent_heredoc"), ("closing indent", "Tokenizer::heredoc_closing_indent")])
prop("P05", "A scalar written is read back as the same text",
     "For every string, writing it as a scalar (bare, quoted, raw or heredoc, whichever the writer picks) and parsing the result gives one scalar with exactly that text, as a key and as a value. A string is written bare only if the bare form reads back as one bare scalar, and quoting then unquoting any string gives it back.",
     IN, "every string, every position and writer option",
     "Tests and property tests sample friendly strings; control characters, forbidden bare characters, delimiters inside the text, quotes followed by hashes are rare in samples.",
     ["crates/styx-format/src/scalar.rs", "crates/styx-format/src/writer.rs"],
     [("bare decision", "can_be_bare"), ("escaping", "escape_quoted, unescape_quoted"), ("form choice", "StyxWriter::write_scalar_string, write_raw_string, write_heredoc")])
prop("P06", "Parse events always form one balanced document",
     "For every text, valid or not, the event stream starts with one document start, ends with one document end (after which at most an error follows) and is finite. Object, sequence, tag and entry starts and ends nest properly, entries occur only directly in objects, each entry has a key before its value, and values occur only where one is expected (in an entry after its key, in a sequence, or as the single payload of a tag). Where something cannot be a key or a value is missing, an error of the same entry stands in its place.",
     IN, "every text, valid or not",
     "The tests check streams of chosen documents; consumers (tree, deserializers, bindings) rely on nesting for malformed inputs nobody listed.",
     ["crates/styx-parse/src/parser/mod.rs"],
     [("event queue and state machine", "Parser::next_event, advance_*"), ("entry emission", "emit_simple_entry, emit_dotted_path_entry, emit_atom_as_value, emit_atom_as_key")],
     state=[{"name": "parser state and event queue", "meaning": "what is open and what is still to be delivered", "where": "ParserState, Parser::event_queue"}])
prop("P07", "Event ranges point at the text they describe",
     "For every text, each parse event's range lies inside the source, is not inverted and does not split a character. The range of a bare scalar, key or comment is exactly its text, that of a quoted, raw or heredoc scalar is the whole literal, and a duplicate-key error also points at an earlier key.",
     IN, "every text, valid or not",
     "Diagnostics and editor features index the source with these ranges; tests compare a few ranges in ASCII documents.",
     ["crates/styx-parse/src/parser/mod.rs", "crates/styx-parse/src/lexer.rs", "crates/styx-tokenizer/src/span.rs"],
     [("range construction", "Lexer::next_lexeme, Parser::parse_atom and the emit functions")])
prop("P08", "Duplicate and reopened keys are reported, and only those",
     "For every document, a key given a second time in an object or in the document root (keys compare by decoded text, tag and payload, not by spelling), a dotted path given twice at the document root, a root path continued after a sibling closed it, or a root path nested under a terminal value is reported as a parse error. A document without any of these gets no such error.",
     IN, "every document, any number of entries, any path depth",
     "The detection keeps only the current path and closed siblings; whether that suffices depends on the whole history of entries, of which tests show two or three.",
     ["crates/styx-parse/src/parser/mod.rs"],
     [("path tracking", "PathState::check_and_update"), ("key identity", "KeyValue::from_atom"), ("seen keys of nested objects", "Parser::parse_object_atom, emit_entry_in_object")],
     state=[{"name": "current path and closed siblings", "meaning": "which paths may still be extended", "where": "PathState"}])
prop("P09", "The syntax tree reproduces the source byte for byte",
     "For every text, valid or not, the concrete syntax tree's text is exactly the source: every character, blank, comment and error token appears once and in order. Reported error offsets lie inside the source, and every tree kind number converts back to the kind it came from.",
     IN, "every text, valid or not",
     "Formatter and editor features rewrite files through this tree, so a dropped token is data loss; the tests check a few dozen snippets.",
     ["crates/styx-cst/src/parser.rs", "crates/styx-cst/src/syntax_kind.rs"],
     [("token bumping", "CstParser::bump and the parse_* functions"), ("kind conversion", "SyntaxKind::from_raw / into")])
prop("P10", "The document tree mirrors the text",
     "For every well-formed document, the tree read from it has the same entries in the same order, with the same keys, tags, payload kinds, scalar texts and doc comments as the text, whatever syntax spells them (commas or newlines, attributes or braces, bare, quoted, raw or heredoc). A document with any error yields an error, never a partial tree.",
     IN, "every well-formed document, any nesting",
     "Tests build a few trees; the builder's frame stack must be right for every nesting of tags, sequences, objects and units.",
     ["crates/styx-tree/src/builder.rs", "crates/styx-parse/src/parser/mod.rs"],
     [("frame stack", "TreeBuilder::event, TreeBuilder::push_value"), ("result", "TreeBuilder::finish")])
prop("P11", "Tree lookups and inserts agree with the entries",
     "For every object, looking up a key returns the value of the first entry whose key is an untagged scalar with exactly that text, and nothing if there is none; the unit-key lookup behaves alike. Inserting a key replaces the value of that entry in place or appends a new entry at the end, and changes no other entry, so that a lookup afterwards returns the inserted value. Dotted and indexed path lookup is the composition of the single steps.",
     ["inputs", "histories"], "every object and sequence, every key and path, any sequence of inserts",
     "Tests insert one or two keys; tagged keys, unit keys, quoted keys with dots and out-of-range indices are combinations.",
     ["crates/styx-tree/src/value.rs"],
     [("lookup and insert", "Object::get, get_mut, insert, get_unit, insert_unit; Value::get; Sequence::get")])
prop("P12", "A value written as a document reads back as the same value",
     "For every document value that can be built programmatically, within the documented syntax, formatting it and parsing the result gives the same entries, keys, tags, sequences, objects, units and scalar texts in the same order, under every layout option.",
     ["inputs", "configurations"], "every document value and every formatting option",
     "The layout decisions (inline, multi-line, comma repair, comments, tags, nesting) interact; property tests sample shallow friendly values.",
     ["crates/styx-format/src/value_format.rs", "crates/styx-format/src/writer.rs"],
     [("value traversal", "ValueFormatter"), ("separators, nesting and comma repair", "StyxWriter")])
prop("P13", "Formatting a source file never changes its meaning",
     "For every well-formed document and every formatting option, the formatted text parses without errors to the same tree as the original, every comment of the original is still present, and formatting it again changes nothing. A document with parse errors is returned unchanged.",
     ["inputs", "configurations"], "every well-formed document and formatting option",
     "Snapshot tests and a property test cover friendly layouts; comments, heredocs, attributes and blank lines combine freely.",
     ["crates/styx-format/src/cst_format.rs"],
     [("tree walk with indentation", "CstFormatter"), ("entry point", "format_source")])
prop("P14", "Embedded schemas are extracted exactly, and only intact ones",
     "For every list of schema texts embedded in a binary, at any offsets and with any other bytes around them that hold no intact blob, extraction returns exactly those texts in order. A blob whose length, hash or text encoding does not match is skipped and never returned altered, and no byte sequence makes extraction panic or read outside the data.",
     IN, "every byte string, every list of schemas",
     "Tests embed one or two schemas; truncated headers, magic bytes in the payload and lengths near the maximum need all byte strings.",
     ["crates/styx-embed/src/lib.rs", "crates/styx-embed-macros/src/lib.rs"],
     [("blob layout", "compress_schema, build_embedded_blob (both crates)"), ("scan", "extract_schemas, find_magic_from"), ("blob check", "try_extract_v2_at, try_extract_v1_at")])
prop("P15", "Editor positions and byte offsets convert without loss",
     "For every document text, converting a byte offset on a character boundary to an editor position and back gives the same offset. The position's line is the number of line feeds before the offset and its column counts the UTF-16 code units since the last one; a position past the end of its line maps to that line's end, and one past the last line to the end of the text.",
     IN, "every text, offset and position",
     "Tests use ASCII and one or two offsets; every hover, completion and edit depends on the conversion.",
     ["crates/styx-lsp/src/server.rs", "crates/styx-lsp/src/semantic_tokens.rs"],
     [("conversion", "offset_to_position, position_to_offset, offset_to_line_col")])
prop("P16", "Delta-encoded highlighting decodes to the original tokens",
     "For every list of highlighting tokens in document order, decoding the delta encoding sent to the editor gives back exactly the same lines, columns, lengths, types and modifiers, and encoding does not panic or wrap.",
     IN, "every ordered token list",
     "Tests decode short fixed documents.",
     ["crates/styx-lsp/src/semantic_tokens.rs"],
     [("delta encoding", "encode_tokens")])
prop("P17", "Schema validation accepts exactly the values the schema describes",
     "For every document value and schema, validation reports no error exactly when the value satisfies the schema: a string or integer within its bounds, a boolean, a literal, a unit; sequences, tuples and maps whose every part satisfies its type; at least one union member; unit or the inner type for an optional; an enum tag that names a variant whose payload fits; a listed value of a one-of; an object in which every key is declared or falls under the catch-all, every value fits, and no required field is missing; a named type that is defined and satisfied. Patterns and flattening aside.",
     IN, "every value and every schema on which validation ends",
     "Tests try a few schemas with single bounds; off-by-one bounds, absent bounds, nesting, empty collections, extra and missing parts combine without limit.",
     ["crates/facet-styx/src/schema_validate.rs", "crates/facet-styx/src/schema_error.rs", "crates/facet-styx/src/schema_types.rs"],
     [("scalar checks", "Validator::validate_string, validate_int, validate_bool, validate_unit, validate_literal"), ("composite checks", "Validator::validate_object, validate_seq, validate_tuple, validate_map, validate_union, validate_enum, validate_one_of, validate_type_ref"), ("collecting errors", "ValidationResult::error, merge")])
prop("P18", "Suggestions use the true edit distance",
     "For every pair of texts the distance used for did-you-mean suggestions is the Levenshtein distance in characters.",
     IN, "every pair of texts",
     "Tests compare a few words.",
     ["crates/facet-styx/src/schema_validate.rs"],
     [("row by row table", "levenshtein")])
prop("P19", "Typed data survives a round trip through the text format",
     "For every serializable value of a supported type, serializing and deserializing it gives an equal value, through both typed front ends.",
     ["inputs", "programs"], "every supported type and value",
     "Types and values are unbounded; tests list some.",
     ["crates/facet-styx/src/serializer.rs", "crates/facet-styx/src/parser.rs", "crates/serde_styx/src/ser.rs", "crates/serde_styx/src/de.rs"],
     [("serializers and deserializers", "facet-styx and serde_styx")])
prop("P20", "The language server's view equals the last text the editor sent",
     "For every interleaving of edits, requests and schema fetches, each answer is computed from the latest text received before it.",
     ["schedules", "histories"], "every interleaving of notifications and requests",
     "Tests run single requests.",
     ["crates/styx-lsp/src/server.rs"], [("document map", "StyxLanguageServer")])
prop("P21", "C interface handles are freed once and never dangle",
     "For every sequence of calls that follows the documented ownership rules, the C interface never frees memory twice, never reads freed memory and returns the same data as the native interface.",
     ["histories"], "every call sequence",
     "Tests make a few calls.",
     ["crates/styx-ffi/src/lib.rs"], [("ownership transfer", "styx_* functions")])
NA = {
    "P19": "the code is generic over facet reflection (Shape/Peek/Partial vtables) and serde traits with dyn and unsafe; the installed Verus accepts neither and Kani cannot bound the type universe",
    "P20": "a property of async interleavings over tokio and tower-lsp; contracts on sequential functions do not express it and the verifiers installed have no support for this runtime",
    "P21": "raw-pointer ownership across a C boundary (Box::into_raw/from_raw on caller-held pointers): Verus does not accept it and the history quantifier is over C callers",
}
for k in ["P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18"]:
    NA.setdefault(k, "contracts for this property are not built yet")
