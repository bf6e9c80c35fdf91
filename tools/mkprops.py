#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in a script so that the long strings stay readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=mech)))

ALLP = ["parser/parser_table.go", "parser/parser_query.go", "parser/parser_column.go", "parser/parser_alter.go",
        "parser/parser_view.go", "parser/parser_drop.go", "parser/parse_system.go", "parser/parser_common.go", "parser/lexer.go"]

prop("P01", "Totality: no input crashes or hangs the parser, formatter or traversals",
 "For every input byte string, parsing returns either a list of statements or an error, and never panics, overflows the stack at moderate nesting or loops forever. Every statement list it returns can be formatted in compact and beautified form, walked, visited and marshalled to JSON, again without panicking or hanging.",
 ["inputs"], "every byte string: arbitrary bytes, every prefix and every small edit of a valid statement, every token sequence up to the bound",
 "The tests parse a fixed set of valid files and a few dozen broken strings; a nil dereference at end of input needs the one clause that is cut at the one token, and the suite has no recover or fuzz target.",
 ALLP + ["parser/format.go", "parser/walk.go", "parser/ast.go"],
 ["recursive descent with a nil current token at end of input", "no recover() anywhere in the package", "loops that continue while a separator is consumed"])

prop("P02", "Bounded work: cost grows at most quadratically with the input length",
 "The number of steps spent parsing an input (accepted or rejected), and then formatting and walking its AST, is bounded by a quadratic function of the input length: no nesting, repetition or malformed tail makes backtracking or re-scanning blow up.",
 ["inputs"], "every repetition of every unit of one or two tokens in every clause context, and every nesting chain, at increasing sizes",
 "Tests check results, not cost; an exponential retry only shows on inputs that repeat the ambiguous construct several times, which no golden file does.",
 ["parser/parser_column.go", "parser/lexer.go", "parser/parser_common.go", "parser/parser_query.go", "parser/format.go"],
 ["save/restore backtracking (INTERVAL, lambda, select item, join)", "failedIntervalOffsets memo", "peekToken re-lexing"])

prop("P03", "Lexing follows the ClickHouse token rules and keeps every literal verbatim",
 "Every input is split into tokens by the lexical rules: bare, back-quoted and double-quoted identifiers, decimal, fractional, exponent and 0x numbers, strings with doubled-quote and backslash escapes, line and block comments, longest-match operators, and a sign belonging to a number only where no operand precedes it. Malformed or unterminated tokens are errors. The content, quoting kind and numeric base of every identifier and literal reach the AST byte for byte.",
 ["inputs"], "every byte string up to the bound over an alphabet holding one byte of every lexical class, and every spelling of every leaf in every clause",
 "Lexer tests list single tokens; how two neighbouring tokens are told apart depends on all pairs and triples of byte classes.",
 ["parser/lexer.go", "parser/helper.go", "parser/parser_common.go"],
 ["byte-wise scanner with lookahead", "previous-token test for unary signs", "escape handling in consumeString"])

prop("P04", "Round trip: formatted SQL parses back to the same AST and is a fixed point",
 "For every accepted input, the formatted text of each statement is accepted, parses to exactly one statement whose AST equals the original in everything but source positions, the letter case of keywords and the fixed order in which the options of a JSON type are printed, and formats to the same text again.",
 ["inputs"], "every accepted statement: all clause combinations of all statement kinds within the deviation bounds",
 "The golden tests compare the format of about 250 files with stored text; whether a clause survives depends on which other clauses surround it, and combinations are not sampled.",
 ["parser/format.go", "parser/ast.go"] + ALLP[:8],
 ["hand-written FormatSQL per node type", "printing order versus parsing order of clauses", "separator and parenthesis handling"])

prop("P05", "Beautified output has the same tokens as compact output, for any indent",
 "For every AST and every whitespace indent string, the beautified text consists of exactly the same tokens as the compact text and parses to the same AST as that text; no string, quoted identifier or other token is altered or split by layout. Compact output never contains a line break that is not inside a token of the source, and beautified output depends only on the AST and the indent.",
 ["inputs", "configurations"], "every accepted statement, every indent string in the tested set, including literals that contain blanks and line breaks",
 "Beautify goldens cover a few files with one indent; a missing blank only shows where two particular tokens meet at a line boundary.",
 ["parser/format.go"],
 ["Formatter.NewLine / Break / Indent", "mode-dependent branches in FormatSQL", "byte-wise indentation at line start"])

prop("P06", "Nothing the user wrote is silently dropped, duplicated or reordered",
 "If an input is accepted, every identifier, number and string literal written in it occurs in the AST exactly as often as it was written, the identifiers and literals of the formatted text are the same multiset, and every remaining clause keyword is represented. In particular no trailing text, extra statement, clause or list element is skipped without an error.",
 ["inputs"], "every accepted statement, and every accepted one-token insertion or duplication applied to it",
 "A test that parses a valid file and compares it with a golden file made by the same code cannot notice text that was lost in both.",
 ALLP + ["parser/ast.go", "parser/format.go"],
 ["errors of consumeToken that callers ignore", "statement loop in ParseStmts", "optional clauses parsed and then not stored"])

prop("P07", "Source positions are exact for leaves and follow the source layout",
 "For every accepted input, the range of each identifier, number and string in the AST cuts exactly that token's content out of the input (without its quotes), and every node's range lies in the input, starts where its first token starts and ends where its last token ends (a node that ends with a closing bracket may end before or after it, outer parentheses may be left out, and `*` and `?` may have an empty range). Positions depend only on the tokens: inserting blanks or comments between tokens shifts each position by exactly the text inserted before it.",
 ["inputs"], "every accepted statement within the bounds, in its own and in a wide layout; the node kinds whose current ranges are known to be wrong, and pinned by golden files, are listed as findings",
 "Position tests look at a handful of nodes in one-line statements; the golden ASTs pin whatever the code computed.",
 ["parser/ast.go", "parser/parser_common.go"] + ALLP[:7],
 ["Pos()/End() methods computed from stored fields or children", "ends captured before or after consuming a token"])

prop("P08", "Every traversal reaches every AST node exactly once and obeys early stop",
 "For every accepted statement, Walk calls its function once for every node reachable in the AST, parents before children; Accept enters, visits and leaves every such node once, properly nested, with the node's own Visit method after its children. Returning false or an error from the callback at any node stops the traversal there, with no further callback, and Accept returns that very error; Find, FindAll and WalkWithBreak agree with Walk.",
 ["inputs", "histories"], "every accepted statement times every node at which the callback may stop or fail",
 "The drift test compares type names in the source text; that each field of each node is followed, once, and that every early return is honoured, needs every node in every context.",
 ["parser/walk.go", "parser/ast.go", "parser/ast_visitor.go"],
 ["two hand-written traversals over some 150 node types", "typed-nil interface values", "defer Leave / error propagation"])

prop("P09", "Errors point into the input: offset, line, column, token and caret agree",
 "Every parse error is a ParseError whose offset lies in the input (or at its end), whose line and column are those of the offset, and whose offending token is the one at that offset (none exactly at end of input). Its message starts with that line and column and shows that source line with the caret under that column; blanks, comments or line breaks added around the tokens leave the offending token the same. The error is not reported before the token (or the keyword just before it) where the input stops being the beginning of a valid statement, except after the word INTERVAL, and never after a token that no statement can contain.",
 ["inputs"], "every rejected input within the bounds: all prefixes, deletions, insertions and replacements of one token in valid statements, in several layouts and line-end conventions",
 "The error tests check five inputs; the position depends on which of several hundred error sites is reached and on the tokens around it.",
 ["parser/error.go", "parser/source.go", "parser/parser_common.go", "parser/parser_table.go"],
 ["wrapError position capture", "lineStarts binary search", "caret rendering from Got"])

prop("P10", "Operators group by the documented precedence and associativity",
 "Every expression is parsed into the tree that the operator table prescribes: binary operators by precedence level and left-associative, prefix minus and NOT, postfix index, member access and cast, BETWEEN..AND, IN, IS NULL, the ternary operator and lambda, with parentheses overriding. Chains of joins and of set operations group the same way for every length.",
 ["inputs"], "every sequence of operands and operators up to the bound, every pair and triple of operators, with and without parentheses",
 "precedence_test.go has a list of chosen pairs; grouping errors need particular triples and particular prefix/postfix neighbours.",
 ["parser/parser_column.go", "parser/parser_query.go", "parser/lexer.go"],
 ["precedence climbing in parseSubExpr / parseInfix", "special cases for NOT, BETWEEN, ?:, ->, ::"])

prop("P11", "Blanks, comments and keyword case never change the meaning",
 "Replacing the blanks between the tokens of an accepted statement by any other non-empty mixture of spaces, tabs, line breaks and comments, removing them where tokens stay apart, or changing the letter case of keywords gives an accepted statement with the same AST up to positions and keyword case. The same holds for rejected input: it stays rejected.",
 ["inputs"], "every accepted statement times every separator at every gap and every keyword's case",
 "The suite writes its SQL in one or two house styles; most keywords are only ever tested in upper case and comments only between clauses.",
 ALLP, ["skipComments/skipSpace", "string comparison of keywords", "lookahead that inspects raw text"])

prop("P12", "A script of several statements parses as its statements one by one",
 "Parsing statements joined by semicolons, with any blanks, comments and a trailing semicolon, gives exactly the list of ASTs of the single statements, in order, with positions shifted by where each begins. A script with an invalid statement is rejected as a whole with the error of the first invalid one, and a missing semicolon never merges or drops statements.",
 ["inputs", "histories"], "every ordered pair of statement kinds (and of their one-deviation variants with representatives), and sequences of growing length",
 "Multi-statement files in testdata hold a few fixed sequences; state carried from one statement to the next depends on the pair.",
 ["parser/parser_table.go", "parser/parser_common.go", "parser/lexer.go"],
 ["ParseStmts loop", "lexer state and memo carried between statements"])

prop("P13", "Parsing and formatting are deterministic, isolated and side-effect free",
 "The result of parsing an input, and the text of formatting an AST, depend only on that input or AST and the formatter options: not on earlier calls, on other parsers or formatters running at the same time in other goroutines, or on repetition. Formatting, walking, visiting and marshalling never modify the AST.",
 ["schedules", "histories"], "every interleaving of two concurrent calls up to the preemption bound, and every sequence of calls up to the bound",
 "Tests run one parser at a time and never compare a second run with the first; an interference needs a preemption between two particular statements.",
 ["parser/lexer.go", "parser/parser_common.go", "parser/keyword.go", "parser/set.go", "parser/format.go", "parser/type.go"],
 ["package-level tables that must stay read-only", "per-parser lexer state and memo", "formatter state"])

prop("P14", "Non-reserved keywords work as identifiers, reserved ones need quotes",
 "Every non-reserved keyword is accepted bare, in any letter case, as a column, table, column alias or member name and means the same as an ordinary identifier there, except where that very word starts a construct of its own (IF after DROP TABLE, CAST before a parenthesis) and as a table alias without AS. Reserved keywords are rejected as bare table names and column aliases but accepted after AS and after a dot. Every keyword is accepted in quotes anywhere a name is, and keeps its quotes when formatted.",
 ["inputs"], "every keyword of the language times every name slot times every spelling",
 "keyword_test.go tries some keywords in some slots; each of about 260 keywords may be hit by a special case in one slot only.",
 ["parser/keyword.go", "parser/parser_common.go", "parser/parser_query.go", "parser/parser_column.go"],
 ["keywords / reservedKeywords sets", "matchTokenKind's ident rule", "lookahead that tells keyword from name"])

prop("P15", "Every clause of the supported grammar is accepted and printed faithfully",
 "For every statement kind the parser supports, every combination of its optional clauses, alternatives and list lengths is accepted, and the formatted text has exactly the tokens of the source in order, except for the fixed normalisations (AS before aliases, ASC/DESC spelling, LIMIT n OFFSET m, dropped redundant parentheses and noise words). No clause changes the way another clause of the same statement is read or printed.",
 ["inputs"], "every derivation of the reference grammar (29 statement kinds) within the deviation bounds, list lengths and nesting depths up to the stated sizes",
 "Golden files contain one or a few examples of each statement; pairs and triples of clauses, list lengths 0, 1, many and their interplay are not covered.",
 ALLP + ["parser/format.go"],
 ["optional-clause parsing order", "FormatSQL of each statement"])

prop("P16", "The JSON form of an AST is complete and faithful",
 "Marshalling the AST of any accepted statement to JSON succeeds, is valid JSON with one member per exported field, and contains the exact content of every identifier and literal; two statements whose ASTs differ (beyond positions) have different JSON.",
 ["inputs"], "every accepted statement within the deviation bounds",
 "The goldens store JSON for fixed files; a field hidden from JSON, or a custom encoding that loses data, shows only for nodes those files lack.",
 ["parser/ast.go", "main.go"], ["exported struct fields and json tags of some 150 node types"])

prop("P17", "The command line tool prints what the library computes, or fails cleanly",
 "For every combination of flags and input (argument or file), the tool prints exactly the library's JSON AST, compact or beautified SQL, one statement per line group, and exits 0; on a syntax error or unreadable file it prints nothing on standard output, reports the error on standard error and exits 1. Help and version requests never parse anything.",
 ["inputs", "configurations"], "every flag combination and order times a set of inputs of every statement kind, valid and invalid",
 "There is no test of main.go at all.",
 ["main.go"], ["flag handling", "last-argument convention", "error paths"])

prop("P18", "Edits to the AST show up in the formatted SQL, and nowhere else",
 "Replacing the content of any one identifier, string or number node found by Walk changes exactly the corresponding token of the formatted text and nothing else; replacing any expression node by another through its parent's field changes exactly that part of the text.",
 ["inputs", "histories"], "every accepted statement times every leaf node of its AST",
 "The rewrite test changes one table name in one query; whether every node is printed from its own fields, once, needs every node of every statement kind.",
 ["parser/format.go", "parser/walk.go", "parser/ast.go"],
 ["FormatSQL printing from fields rather than cached text", "Walk handing out the real nodes"])

prop("P19", "Unbalanced brackets, cut literals and stray tokens are always rejected",
 "An input whose brackets (round, square, curly) do not pair up outside literals and comments, which ends inside a quoted token or block comment, or which contains a character that is no token, is always rejected with an error, whatever precedes or follows.",
 ["inputs"], "every accepted statement with any one bracket or quote removed, added or exchanged, at every place, and every short token string",
 "Negative tests list a few broken inputs; each place where a closing bracket is consumed optionally or an error is ignored is separate.",
 ALLP, ["expectTokenKind(RParen) at each nesting construct", "errors from the lexer ignored by callers", "end-of-input handling"])

prop("P20", "The exported Formatter behaves as its reference writer for any call sequence",
 "For any sequence of calls to the exported Formatter methods (writing strings, bytes and expressions, new line, break, indent, dedent, switching to beautify and setting the indent), its text equals that of a simple reference writer: compact mode writes text verbatim with a blank for a break and nothing for a new line, beautify mode starts each non-empty line with the current indentation. Dedent below zero is ignored, and reading the text has no effect.",
 ["histories", "configurations"], "every sequence of formatter calls up to the bound",
 "format_test.go makes a few fixed calls; the state (line start, level, mode) interacts across calls.",
 ["parser/format.go"], ["Formatter state machine: mode, lineStart, indentLevel, indent"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
