T.update({
 "P08": (DERIV + "the node sequence of Walk, Accept, Find and WalkWithBreak equals the one collected by reflection, and stopping at every single callback stops there",
         "bounded by the deviation budgets; every early-stop point of every explored AST"),
 "P09": ("exhaustive enumeration of token prefixes, one-token/one-byte edits and short byte strings, each run through the real parser; oracle: offset, line, column, offending token and caret recomputed from the input with an independent reference lexer, viable-prefix bounds on where the error may be reported",
         "bounded: one edit away from derivations with one deviation, byte strings up to length 2-4 over 34 classes"),
 "P10": ("exhaustive enumeration of operator/operand sequences up to a bound (every sequence, one pair of parentheses anywhere, long chains, join and set-operation chains), each parsed by the real parser; oracle: the tree built by an independent precedence table",
         "bounded: sequences up to 3-4 operators of the full table, 5+ of one operator per level, chains up to 65"),
 "P11": (DERIV + "every gap of every derivation times every separator, every keyword in other letter cases: same AST up to positions; rejected stays rejected",
         "bounded by the deviation budgets; nine separators"),
 "P12": ("exhaustive enumeration of scripts of up to three statements with every separator layout, valid and invalid statements at every place; oracle: the concatenation of single-statement results with shifted positions",
         "bounded: one representative per statement kind in triples, all pairs of derivations with one deviation"),
 "P16": (DERIV + "the JSON text decoded with an independent decoder has one member per exported field, every leaf verbatim, and no two different ASTs share a JSON",
         "bounded by the deviation budgets; pairwise distinctness over all explored ASTs through hashing"),
 "P17": ("exhaustive enumeration of flag sequences and inputs of the real command line binary built from the working tree; oracle: a reference model of the command line plus the library's own result",
         "bounded: up to 3 of 16 flags, derivations with one deviation cut at every token"),
 "P18": (DERIV + "every single-leaf edit and every expression replacement of every AST, formatted by the real formatter: the token sequence changes in exactly that place",
         "bounded by the deviation budgets; one edit at a time"),
 "P19": ("exhaustive enumeration of every one-bracket, one-quote and one-stray-token breaking of derivations, nests, seed files and of short byte strings; oracle: an independent bracket matcher and lexer says it must be rejected",
         "bounded: one breaking of derivations with up to two deviations, byte strings up to length 4"),
 "P20": ("explicit-state exploration of every call sequence on the exported Formatter, each compared with a reference writer after every call",
         "bounded: call sequences up to length 6 (quick) or 7 (thorough) over 19 operations, cycles of 64 repetitions"),
 "P03": ("exhaustive enumeration of byte strings over per-class alphabets, of operand/separator/operator sequences, and of every spelling of every leaf in every slot of the derivations, each run through the real parser; oracle: an independent reference lexer decides acceptance and the exact leaves of the AST",
         "bounded: byte strings up to length 3-8 over 9-60 symbols, one spelling at a time in derivations with one deviation"),
 "P06": (DERIV + "the significant tokens of the source (everything but parentheses, commas and AS) are those of the formatted text, in order, and every literal and identifier is a leaf of the AST as often as written",
         "bounded by the deviation budgets and one edit (a token, or a run of up to 8 tokens repeated or dropped); inside constructs the formatter prints in a fixed order of its own, order is left to P15"),
 "P14": ("exhaustive enumeration of every keyword, in several letter cases and quoted, in every name slot of a slot table and of the derivations, each run through the real parser; oracle: same AST and text as an ordinary name, or rejection, by slot class",
         "complete over the keyword list; slots: 110 hand-classified places plus every name slot of the derivations with one deviation"),
 "P02": ("exhaustive enumeration of every repetition unit, token run, wrapper pair and cut-off nest at doubling sizes, each run on the real parser and formatter with an exact step counter (instrumented build) and allocation counter; monitored: growth per doubling and absolute cost per byte squared",
         "bounded: doublings up to a few thousand tokens; a growth factor over 1.6 g^2 when the input grows by g counts as superquadratic"),
 "P07": (DERIV + "the range of every node and the place of every position recomputed from the source's tokens with an independent lexer, in two layouts",
         "bounded by the deviation budgets and one edit; node kinds listed as findings are excused for the listed kind of error only"),
 "P13": ("stateless model checking of the real parser: every schedule of two calls with one preemption (two for short inputs) under a controlled scheduler switching at every statement, every history of up to three calls against a fresh process, every sequence of three read-only operations, and every pair of calls under the happens-before race detector; oracle: the result of the call alone in a fresh process, and an unchanged AST",
         "bounded: two calls at a time, one preemption at any statement (two for short inputs), histories of three calls and of up to 1000 repetitions"),
})
