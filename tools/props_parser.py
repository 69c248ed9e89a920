GX = "Every text of the stated skeletons with symbolic holes (bytes, tokens, words, items, contexts, white space), in both source types where that matters."
GM = "fajt's own parser is executed symbolically next to an independent parser for the ECMAScript grammar on the same symbolic text."

prop("C10", "The parser gives a tree or a syntax error for every source text",
     "Parsing any source text, as a script or as a module, terminates with either a syntax tree or a reported error whose span lies inside the text and starts on a character boundary: it never panics, never overruns and never loops, as long as the nesting of the text fits the native stack; constructs nested two dozen deep do not multiply the work with each level.",
     GX + " All ASCII texts of four (thorough: five) bytes, texts with any two- and three-byte character, all sequences of three (thorough: four) tokens, and two to three tokens in every kind of surrounding code; 60 constructs nested 24 deep.",
     "Totality is about all texts, in particular the broken ones, and every place the text can be cut; the tests are mostly valid programs.",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs", "parser/src/error/mod.rs", "common/src/io.rs"],
     [("entry point and token access", "parser/src/lib.rs"), ("backtracking", "common/src/io.rs: rewind_to"), ("cover grammar re-reading", "parser/src/cover.rs")])
prop("C31", "Exactly the programs of the grammar are accepted, with their tree",
     "A text is accepted exactly when the supported ECMAScript grammar derives it (for its source type), and the syntax tree returned is the one the grammar gives it; every other text is an error.",
     GX + " All ASCII texts of three (thorough: four) bytes, all sequences of three tokens, and two to three tokens in every kind of surrounding code.",
     "Acceptance relates all texts, in particular nearly valid ones, to the grammar; the tests are mostly valid programs.",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs", "parser/src/cover.rs", "parser/src/function.rs", "parser/src/class.rs"],
     [("program", "parser/src/lib.rs"), ("statements", "parser/src/stmt.rs"), ("expressions", "parser/src/expr.rs")])
prop("C26", "A reported error names, shows and marks its place",
     "Writing the report for any parse error succeeds; unless the input just ended, it gives the file with the line and column where the offending text starts, shows that source line (tabs as four blanks) and marks the offending text below it. An error about a word or token is placed at that word or token.",
     GX + " All texts of three (thorough: four) bytes, texts with two-byte characters, tokens on several lines, tabs, line numbers of one to three digits and columns beyond 65535. Where the marks stand is decided for lines that are ASCII up to the error.",
     "Where the error is and what surrounds it vary freely; the snapshot tests show a few one-line ASCII errors.",
     ["parser/src/error/emitter.rs", "parser/src/error/mod.rs", "src/main.rs"],
     [("error emitter", "parser/src/error/emitter.rs")])
prop("C11", "Operators bind with ECMAScript precedence and associativity",
     "An expression made of operands and operators gives the tree ECMAScript's grammar prescribes: every binary, prefix, postfix, conditional, assignment, arrow, yield and await operator binds with its precedence and associativity, a unary operand cannot be the base of `**` unparenthesised, and `??` cannot be mixed with `||` or `&&` unparenthesised.",
     GX + " All pairs of binary operators, all triples of precedence levels, with prefix, postfix, conditional, arrow, yield and primary operands.",
     "The right tree depends on every combination of neighbouring operators; the tests hold one or two combinations per operator.",
     ["parser/src/binary_expr.rs", "parser/src/expr.rs"],
     [("binary operator levels", "parser/src/binary_expr.rs"), ("unary, update, conditional and assignment levels", "parser/src/expr.rs")])
prop("C12", "Every node's span covers exactly its source text",
     "Each syntax tree node's span starts at the first byte of its first token and ends after the last byte of its last token, whatever white space, line breaks, comments and multi-byte characters surround or separate the tokens.",
     GX + " White space, line breaks and comments at every token boundary of the stated statements and expressions.",
     "Positions depend on every gap between tokens; the tests use one fixed layout per construct.",
     ["parser/src/lib.rs", "parser/src/expr.rs", "parser/src/stmt.rs", "parser/src/cover.rs", "ast/src/lib.rs"],
     [("span bookkeeping", "parser/src/lib.rs: span_from/position"), ("node spans", "ast/src/lib.rs")])
prop("C13", "Semicolons are inserted exactly where ECMAScript says",
     "A statement may omit its semicolon exactly where automatic semicolon insertion applies: before a line break if the next token cannot continue it, before `}`, at the end of input and after do-while. Operands of `return`, `break`, `continue`, `throw`, `yield`, postfix `++`/`--`, `async` and `=>` must start on the same line, and no semicolon is inserted anywhere else.",
     GX + " Every kind of gap (blank, line break, line comment, block comment with and without line break) between the tokens of the stated statements and continuations, and arbitrary bytes between two tokens.",
     "The rule relates two arbitrary tokens and the gap between them; the tests contain a few statements with and without semicolon.",
     ["parser/src/lib.rs", "parser/src/stmt.rs", "parser/src/expr.rs", "parser/src/function.rs"],
     [("statement end", "parser/src/stmt.rs: consume_optional_semicolon, parser/src/lib.rs: stmt_ended"), ("restricted productions", "parser/src/stmt.rs"), ("async and arrow line break rules", "parser/src/cover.rs")])
prop("C14", "Words are keywords or names as their context says",
     "Reserved words are never names; contextual words (`let`, `static`, `yield`, `await`, `async`, `of`, `get`, `set`, ... and the strict mode reserved words) are names exactly where the grammar parameters and strictness of the surrounding code allow it, and any word is a property name.",
     GX + " All contextual and reserved words at the stated binding, reference, label, property and parameter positions in sloppy, strict, generator, async, arrow and module code.",
     "The answer depends on word, position and every enclosing function; tests cover single pairs.",
     ["parser/src/lib.rs", "lexer/src/token.rs"],
     [("identifier test", "parser/src/lib.rs: is_identifier/parse_identifier"), ("keyword context", "parser/src/lib.rs"), ("contextual keywords", "lexer/src/token.rs: KeywordContext")])
prop("C15", "Only valid targets can be assigned to",
     "The left side of an assignment, of `++`/`--`, of for-in/of and the elements of destructuring patterns are accepted exactly when they are assignment targets ECMAScript allows there (names except `eval`/`arguments` in strict code, member accesses, parenthesised such targets, and patterns where patterns are allowed); anything else is an error.",
     GX + " All stated candidates with all assignment operators, prefix and postfix updates, loop heads, nested in patterns and parentheses, in sloppy and strict code.",
     "Target validity is a property of whole expressions in every assigning position; tests assign to a few shapes.",
     ["parser/src/static_semantics/mod.rs", "parser/src/assignment_pattern.rs", "parser/src/expr.rs", "parser/src/stmt.rs"],
     [("assignment target type", "parser/src/static_semantics/mod.rs"), ("assignment patterns", "parser/src/assignment_pattern.rs")])
prop("C16", "Parentheses, brackets and braces get their one correct reading",
     "A parenthesised list, array or object literal is read as an expression, as arrow function parameters or as a destructuring pattern exactly as what follows it demands, with the same elements, defaults, rests and trailing commas, and is an error when the required reading does not exist.",
     GX + " All pairs of stated list items, each list continued as expression, arrow function and assignment; all sequences of two or three pattern tokens.",
     "The reading is decided by a token arbitrarily far to the right; tests fix one ending per list.",
     ["parser/src/cover.rs", "parser/src/binding.rs", "parser/src/assignment_pattern.rs", "parser/src/function.rs", "parser/src/literal.rs"],
     [("cover grammar", "parser/src/cover.rs"), ("binding patterns", "parser/src/binding.rs"), ("assignment patterns", "parser/src/assignment_pattern.rs"), ("parameters", "parser/src/function.rs")])
prop("C17", "super, return, yield and await only where their function allows",
     "`return` is accepted only in functions, `super()` only in constructors of derived classes, `super.x` only in methods, `yield` and `await` act as operators exactly in generators and async functions; arrow functions inherit, other functions reset these rights, at every nesting.",
     GX + " Every nesting of two (thorough: three) surrounding functions, methods, arrow functions and classes around each such expression.",
     "Validity depends on the whole chain of enclosing functions; tests nest one or two chosen ones.",
     ["parser/src/lib.rs", "parser/src/function.rs", "parser/src/method.rs", "parser/src/class.rs", "parser/src/expr.rs"],
     [("parse context", "parser/src/lib.rs: Context"), ("contexts of methods and constructors", "parser/src/class.rs, parser/src/method.rs")])
prop("C18", "Import and export forms are those of the grammar, in modules only",
     "In modules every import and export declaration is accepted exactly in the forms the grammar lists and reports the same names, aliases, sources and declarations; in scripts and inside nested code they are errors, while `import(...)` works everywhere and `import.meta` is an expression.",
     GX + " All sequences of three (thorough: four) pieces of import and export declarations, in modules and scripts and inside other code.",
     "Clauses combine freely and errors depend on where the declaration stands; tests cover single forms.",
     ["parser/src/module.rs", "parser/src/stmt.rs", "parser/src/expr.rs"],
     [("import and export declarations", "parser/src/module.rs"), ("import calls", "parser/src/expr.rs")])
prop("C19", "Strict mode begins and ends exactly where ECMAScript says",
     "A `use strict` directive makes exactly the function or script it begins strict, including functions nested in it; class bodies and modules are strict; code outside stays sloppy. Directives are recorded exactly when string statements start a body, and `use strict` is an error in a function with non-simple parameters.",
     GX + " All pairs (thorough: triples) of candidate directives before each statement only sloppy mode allows, in every kind of function and after every kind of strict code.",
     "Strictness is state carried through all nested code and back-tracking; tests check single bodies.",
     ["parser/src/lib.rs", "parser/src/function.rs", "parser/src/class.rs"],
     [("directive prologue", "parser/src/lib.rs: parse_directive_prologue"), ("strict context", "parser/src/lib.rs")])
prop("C20", "Class and object members are read exactly",
     "Every class element and object property gives the member the grammar prescribes (method, getter, setter, generator, async, static, shorthand, spread, computed, literal or reserved names, contextual words as names), with the right number and form of parameters, and malformed members, array or object literals are errors.",
     GX + " All stated modifiers with all property names and parameter lists in classes and objects, pairs of object properties and triples of array elements.",
     "Modifier words are also names, so each member is one of many readings; the tests fix a few dozen.",
     ["parser/src/class.rs", "parser/src/method.rs", "parser/src/literal.rs"],
     [("class elements", "parser/src/class.rs"), ("methods", "parser/src/method.rs"), ("object and array literals", "parser/src/literal.rs")])
prop("C21", "`in` is an operator everywhere but at the top of a for header",
     "In the first part of a for header, an unparenthesised `in` belongs to the loop and is never read as an operator; inside brackets, parentheses, braces, templates and function bodies there, and everywhere else, it is the operator.",
     GX + " All stated nestings of `in` in every kind of for header.",
     "The flag must be set and reset along every nesting; tests hold a few headers.",
     ["parser/src/stmt.rs", "parser/src/lib.rs", "parser/src/expr.rs"],
     [("in flag", "parser/src/lib.rs: Context::with_in"), ("for statement", "parser/src/stmt.rs")])
prop("C25", "Statements have the structure of the grammar",
     "Every statement gives the tree the grammar prescribes: else belongs to the nearest if, loop and label bodies are single statements and no declarations, blocks are told from object literals and declarations from expressions, and malformed headers, clauses and declarations are errors.",
     GX + " All pairs of stated statements in each kind of body, all statement headers with stated parts missing or duplicated.",
     "Statements nest without limit and most broken combinations are never written in tests.",
     ["parser/src/stmt.rs", "parser/src/variable.rs", "parser/src/lib.rs"],
     [("statement parsing", "parser/src/stmt.rs")])
prop("C28", "Template literals are split and nested correctly",
     "A template literal gives exactly its text parts and substitutions in order, its substitutions are complete expressions (containing braces, strings, regular expressions, comments and templates), it is a tag call exactly after an expression that can be a tag, and an unfinished one is an error.",
     GX + " All strings of up to five template characters, all stated substitutions, tags and continuations.",
     "Braces and backticks nest without limit and re-enter the tokenizer; tests nest a few.",
     ["parser/src/literal.rs", "parser/src/expr.rs", "lexer/src/lib.rs"],
     [("template parsing", "parser/src/literal.rs"), ("re-reading of `}`", "lexer/src/lib.rs")])
prop("C29", "Call, member, new and optional chains associate correctly",
     "A chain of member accesses, calls, templates, `new` and `?.` after any head gives the tree the grammar prescribes: `new` takes the first argument list, `?.` chains cover what follows them, and forms the grammar excludes (such as a template in an optional chain or `new a?.b()`) are errors.",
     GX + " All chains of two to three links (thorough: three to four) after all stated heads, prefixes and `new`.",
     "Each link changes what the next may be; the tests hold short fixed chains.",
     ["parser/src/expr.rs", "parser/src/member_access.rs"],
     [("chains", "parser/src/member_access.rs"), ("new, super, import and optional chains", "parser/src/expr.rs")])
prop("C30", "`/` is division or a regular expression as the context demands",
     "At every place, `/` starts a regular expression exactly where the grammar expects an operand and is division where it expects an operator, also after `}`, `)`, `++`, contextual words and at statement starts, and the tokens after it are read accordingly.",
     GX + " Every token, statement, chain, operator and keyword before `/`, with arbitrary regular expression characters after it.",
     "The reading depends on the parser state at each `/`; the tests check a handful of places.",
     ["parser/src/expr.rs", "lexer/src/lib.rs", "common/src/io.rs"],
     [("regular expression literals", "parser/src/expr.rs"), ("re-reading", "common/src/io.rs")])
prop("C22", "Traversal visits every node once, in source order",
     "Walking a parsed tree enters and leaves every node of it exactly once, properly nested and siblings in source order, and nothing that is not part of the tree; when entering a node answers false, exactly the inside of that node is left out and it is still left.",
     "Every parsed text of the stated skeletons with symbolic holes (statements, expressions, patterns, classes, functions, modules, white space).",
     "Each field of each node must be forwarded once, in the right order, in every combination of present and absent parts; no test walks a tree.",
     ["ast/src/traverse/mod.rs", "ast/src/traverse/nodes.rs", "ast/src/lib.rs"],
     [("traversal", "ast/src/traverse"), ("node declarations", "ast/src/macros")])
prop("C23", "A serialised tree reads back as the same tree",
     "Every parsed tree written with serde as JSON reads back as an equal tree, positions included (unless the JSON is nested deeper than its reader allows); a text is read as a span exactly when it is two decimal numbers joined by a colon, any other text is a reported error.",
     "Every parsed text of the stated skeletons with symbolic holes, and all texts of up to five characters read as a span.",
     "Every node kind and every optional part has its own written form; the tests compare stored trees of fixed programs.",
     ["ast/src/span.rs", "ast/src/lib.rs"],
     [("span form", "ast/src/span.rs"), ("derived forms", "ast/src/lib.rs")])
prop("C24", "Generated code reads back as the same tree",
     "Code generated from any parsed program, pretty or minified, is accepted by the parser and gives the same tree apart from positions; the minified form may only leave out empty statements of blocks, bodies, cases and programs. Pretty-printing printed code changes nothing.",
     "Every parsed text of the stated skeletons with symbolic holes, in both output formats. Methods nested in generators and async functions are left out, since the parser marks those wrongly (the finding listed for C17).",
     "Whether two neighbouring pieces merge or lose a separator depends on every pair of neighbours; the comparisons of generated code are switched off in the repository's own tests.",
     ["codegen/src/lib.rs"],
     [("one method per node kind", "codegen/src/lib.rs: Visitor for CodeGenerator"), ("separation of words and operators", "codegen/src/lib.rs: must_add_space_before"), ("droppable semicolons", "codegen/src/lib.rs: remove_semicolon")])
prop("C32", "Reading one statement or expression gives what the program starts with",
     "Reading a single statement or a single expression from a text never panics. When the text is a program without directives, reading one statement from it gives the tree and positions of its first statement, and reading one expression those of that statement's expression. What is read as a statement from any other text is a program by itself, what is read as an expression is that expression in parentheses, and what is an expression in parentheses is read as one.",
     "Every text of the stated skeletons with symbolic holes, read as a statement, as an expression and as a program, as a script and as a module.",
     "The entry points set up different contexts, and the one used by tests and by the macros is never compared with the one used by the tool.",
     ["parser/src/lib.rs"],
     [("Parse for Stmt, Expr, Program", "parser/src/lib.rs")])
