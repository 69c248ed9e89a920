#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the LLVM IR rustc emits for /repo's crates, Z3 deciding every branch and assertion"
P = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), claim=True, reason=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, claim=claim, reason=reason, note=note))


LX = "Every source text up to the stated symbolic length and every text of the stated skeletons with symbolic holes (bytes, whole code points, alphabets)."

prop("C01", "Tokens tile the source text exactly",
     "Reading a source text to its end gives tokens whose byte ranges are non-empty, in order and non-overlapping, start on character boundaries, spell exactly the token reported, and leave between them only white space, line breaks and comments. Every character of the text belongs to one token or one gap, and a lexical error is reported at a position inside the text.",
     LX, "The lexer's tests compare a few dozen ASCII token lists; positions after multi-byte characters, at the end of input and next to every neighbour are never tried.",
     ["lexer/src/lib.rs", "common/src/io/char_reader.rs", "ast/src/lib.rs"],
     [("position bookkeeping of the character reader", "common/src/io/char_reader.rs"), ("token spans", "lexer/src/lib.rs: read_token")])
prop("C02", "Punctuators are read by longest match",
     "Wherever a punctuator starts, the token read is the longest ECMAScript punctuator spelled there (with `?.` before a digit read as `?`), and no text that spells no punctuator is read as one.",
     LX, "Tests read each punctuator alone; longest match is about every continuation of every prefix.",
     ["lexer/src/lib.rs", "lexer/src/token.rs", "macros/src/lib.rs"],
     [("punctuator production macro", "lexer/src/lib.rs: read/produce!"), ("punctuator table", "lexer/src/token.rs")])
prop("C03", "Numeric literals follow the grammar",
     "A numeric literal is read exactly as far as the ECMAScript grammar allows (radix prefixes, fractions, exponents, separators) and keeps its source spelling, and every other text that starts like a number is rejected, including one directly followed by an identifier or a digit. Zero-prefixed legacy numbers and BigInt suffixes are not supported and always rejected.",
     LX, "A number's extent depends on every later character; the tests sample a few dozen spellings.",
     ["lexer/src/number.rs", "lexer/src/lib.rs"],
     [("number reader", "lexer/src/number.rs"), ("identifier-after-number check", "lexer/src/number.rs")])
prop("C04", "String literals end where the grammar says",
     "A string literal ends at the first unescaped delimiter of its own kind, may contain any other character including U+2028 and U+2029, is rejected when a line break or the end of input comes first, and reports its delimiter and its content.",
     LX, "Escapes, delimiters and line breaks combine without limit; the tests hold about twenty strings.",
     ["lexer/src/string.rs", "lexer/src/lib.rs"],
     [("string reader", "lexer/src/string.rs")])
prop("C05", "Identifiers and keywords are recognised exactly",
     "A word extends over exactly the Unicode ID_Start/ID_Continue characters, `$`, `_`, joiners and valid Unicode escapes the grammar allows, its name is the decoded text, it is a keyword exactly when its name is spelled like one, and malformed or out-of-range escapes are rejected.",
     LX + " All code points of two, three and four bytes at identifier start and identifier part.", "The space is all of Unicode times all escape forms; the tests use a few non-ASCII words.",
     ["lexer/src/code_point.rs", "lexer/src/unicode_escape_sequence.rs", "lexer/src/lib.rs", "lexer/src/token.rs"],
     [("identifier reader", "lexer/src/lib.rs: read_identifier_or_keyword"), ("ID_Start/ID_Continue tests", "lexer/src/code_point.rs"), ("keyword table", "lexer/src/token.rs")])
prop("C06", "White space, comments and line breaks separate tokens correctly",
     "Between tokens, exactly the ECMAScript white space, line terminators and comments are skipped, an unterminated block comment is rejected, and a token counts as first on its line exactly when it is the first of the text or a line terminator (also one inside a block comment) comes before it since the previous token.",
     LX, "Automatic semicolon insertion rests on this flag for every mix of comments and line breaks; the tests try single ones.",
     ["lexer/src/lib.rs", "lexer/src/code_point.rs"],
     [("white space and comment skipping", "lexer/src/lib.rs: skip_comments_and_white_spaces"), ("line terminator and white space tables", "lexer/src/code_point.rs")])
prop("C07", "Regular expressions and template parts are delimited correctly",
     "When the consumer asks for a regular expression at `/` or `/=`, or for a template continuation at `}`, the token read ends at the first terminator that is not escaped or inside a character class, never crosses a line terminator in a regular expression, and the tokens after it are read as usual; otherwise `/` is division and a template head, middle or tail is cut exactly at `${` and the closing backtick.",
     LX + " Every choice of re-reading at every such token.", "The right token depends on what the consumer asks and on all later characters; the tests sample a few patterns.",
     ["lexer/src/lib.rs", "common/src/io.rs"],
     [("regular expression reader", "lexer/src/regexp.rs: read_regexp_literal"), ("template reader", "lexer/src/lib.rs: read_until_end_of_template_literal_part"), ("re-reading", "common/src/io.rs: reread_with_state")])
prop("C08", "HTML-like comments exist only in scripts and only where allowed",
     "In scripts `<!--` starts a line comment anywhere and `-->` only when nothing but white space and comments precedes it on its line; in modules they are rejected with an error there, and every other `<`, `!`, `--`, `>` sequence is read as ordinary punctuators.",
     LX + " Both source types.", "Whether `-->` is a comment depends on the whole line before it; tests try a handful of lines.",
     ["lexer/src/lib.rs"], [("HTML comment handling", "lexer/src/lib.rs: skip_comments_and_white_spaces/LexerState")])
prop("C09", "Rewinding and peeking never change what is read",
     "After rewinding to an earlier token, the same tokens are read again as in an uninterrupted run, whatever was peeked, consumed or re-read as a regular expression or template in between, and peeking shows exactly the token that consuming then gives.",
     "Every text of the stated skeletons, every token to rewind to, every number of tokens read ahead and every choice of re-reads on the way.", "The parser's backtracking relies on it for every token history; the tests rewind over one short list.",
     ["common/src/io.rs", "lexer/src/lib.rs", "common/src/io/char_reader.rs"],
     [("rewind", "common/src/io.rs: rewind_to"), ("lexer state restore", "lexer/src/lib.rs: rewind/ReReadWithState")], over=("inputs", "histories"))
prop("C27", "Spelling tables of keywords and punctuators are exact inverses",
     "Parsing a text as a keyword or as a punctuator succeeds exactly when the text is the spelling of one, and gives the keyword or punctuator that is printed with that spelling.",
     "Every byte string of up to 11 characters.", "The tests convert a few spellings; exactness is about all other texts as well.",
     ["macros/src/enum_from_string.rs", "lexer/src/token.rs"],
     [("FromString derive", "macros/src/enum_from_string.rs"), ("keyword table", "lexer/src/token.rs"), ("punctuator table", "lexer/src/token.rs")])

exec(open(os.path.join(V, "tools", "props_parser.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_parser.py")) else None

P.sort(key=lambda p: p["id"])
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "cfg(fajt_vp)", "enable": "RUSTFLAGS=\"--cfg fajt_vp\" when check.py builds the harness crates against /repo", "source_commits": ["8f8af87"]}, "checks": [], "not_applicable": []}
for p in P:
    if p["claim"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                            "technique": TECH, "level": "model_checking", "level_note": p["note"] or "bounded: complete over the inputs each job's template generates (listed in the evidence under bounds)"})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
