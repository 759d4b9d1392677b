#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that it is easy to edit)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": None},
    })

GRAMMAR = ("the grammar parse/rules.peg", "parse/rules.peg, compiled into parse/internal/parser/zparser.go")

prop("C01", "Parsing yields exactly the rules that the text says",
     "Every text of the rules language is accepted, from a string, a reader or a file alike, and yields exactly the rules it says, in their order. Every part is there, with its own content, at its own place: match and result, operators with all their literal and alternate parts, bindings, types, auxint and aux operands, arguments in order, ellipsis and trailing marks, conditions and other Go expressions with the structure Go gives them, and block names. Nothing is dropped, added, merged or reordered.",
     ["inputs"], "every text of the language (rule files of any number of rules, nesting up to 10,000 operations, any layout), through any entry point and any chunking of a reader",
     "The parser tests compare a dozen small rules and the Go compiler's own rule files with golden dumps; combinations of parts, the long tail of Go expressions, large and deep rules, and readers that deliver in pieces are not sampled, and golden dumps were produced by the parser itself.",
     ["parse/parse.go", "parse/rules.peg", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go", "ast/ast.go"],
     [GRAMMAR, ("Go expressions are parsed by go/parser", "parse/internal/goexpr/parse.go"), ("entry points", "parse/parse.go File, Reader, String")],
     ["parse.String, parse.Reader, parse.File: the returned *ast.File"])

prop("C02", "Parsing rejects every text outside the language",
     "A text that is not of the rules language (unbalanced or missing brackets, a missing arrow, match or result, misplaced or repeated operands, bad names or opcodes, Go expressions that are malformed or outside the supported subset, text left over, invalid UTF-8) is rejected with an error that says something, and with no file. Exactly one of file and error is returned, for any input whatever, and there is no panic.",
     ["inputs"], "every byte sequence not in the language, including texts at a distance of one edit from the language",
     "No test feeds the parser a malformed text; what is rejected is a statement about all texts that are not of the language.",
     ["parse/parse.go", "parse/rules.peg", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go"],
     [GRAMMAR, ("'!.' at the end of the start rule", "parse/rules.peg"), ("errors of go/parser and of repeated operands", "parse/internal/goexpr/parse.go, actions of rules.peg")],
     ["parse.String, parse.Reader, parse.File: the returned pair"])

prop("C03", "White space, line breaks and comments never change what is parsed",
     "Wherever the language allows white space, any amount and kind of it (spaces, tabs, line breaks, carriage returns), with // comments where those are allowed, can be written without changing the result: all layouts of the same rules are accepted and give identical trees, whatever the entry point, and whether or not the last line is terminated. Blank lines, comment lines between and around rules, and files of nothing but these mean nothing.",
     ["inputs"], "all layouts of all rule files: every choice of white space and comments at every gap between tokens",
     "The tests parse each rule in the one layout it has in its file; equality over all layouts is a relation between unboundedly many texts.",
     ["parse/rules.peg", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go"],
     [("white space and comment rules of the grammar", "parse/rules.peg"), ("line breaks are joined and positions cleared", "parse/internal/goexpr/parse.go joinlines, clearpos")],
     ["parse.String, parse.Reader, parse.File: trees of different layouts compared"])

prop("C04", "Printed rules parse back to the same rules",
     "For every tree of rules, whether parsed, built by a program or expanded, the printed text is accepted by the parser and yields an equal tree. Printing that result gives the same text again.",
     ["inputs"], "every tree that stands for a text of the language: all operators, operands, types, conditions, blocks and all supported Go expressions in all combinations, nesting up to 10,000 operations",
     "The printer tests round-trip short rules and the compiler's files; operator adjacency, precedence, literals, ellipses and other interactions between printer and both parsers are not enumerated by them.",
     ["printer/printer.go", "parse/rules.peg", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go"],
     [("one printing function per node kind", "printer/printer.go"), GRAMMAR],
     ["printer.Bytes followed by parse.String: trees compared"])

prop("C05", "Printed text is the canonical form, the same through all entry points",
     "Printing a node gives exactly its canonical text: a rule on one line, without a line break at its end, the rules of a file each on a line of its own; an operation as (binding:Opcode <type> [auxint] {aux} arguments) with single spaces, '...' without a space before or '___' as its last argument; the condition after ' && ' and the block after ' => @name ', and Go expressions in a compact form with the parentheses they were written with. Every kind of node (file, rule, operation, opcode, its parts and alternates, variable, expression) can be printed on its own, and gives the text it has within a rule. The entry points for bytes and for a writer give the same bytes.",
     ["inputs"], "every tree that stands for a text of the language, and every node within",
     "The tests compare printed files after a round trip with a handful of sources; canonical text is a function of all trees, and nodes other than files are not printed on their own by any test.",
     ["printer/printer.go"],
     [("one printing function per node kind", "printer/printer.go node, rule, sexpr, op, oppart, goexpr")],
     ["printer.Bytes, printer.Fprint: bytes compared with an independent formatter"])

prop("C06", "Expansion gives exactly the rules that the alternates stand for",
     "A rule whose opcodes have lists of alternates stands for one rule per position in the lists, and expansion replaces it, at its place, by exactly those, in the order of the positions: the k-th has the k-th alternate of every list throughout match and result. Lists of different operations with several alternates must have the same length, and a rule without alternates, or a list of one, is the same for every position. Everything else (bindings, types, auxint, aux, arguments and their order, ellipsis and trailing marks, condition, block) is the same in each of them.",
     ["inputs"], "every file of rules whose alternates are compatible: any number of lists, alternates, parts per opcode, operations nested in arguments, on both sides",
     "The tests expand a few rules and compare with golden files; position-by-position correspondence over all shapes of rules is not sampled.",
     ["pass/alt.go"],
     [("expansion of rules, values, operations and opcodes", "pass/alt.go expandrule, expandsexpr, expandop, expandopcodeparts"), ("counts must agree", "pass/alt.go resolvecounts")],
     ["pass.ExpandAlternates: the rules of the file afterwards"])

prop("C07", "Expansion succeeds as a whole or leaves the file unchanged",
     "Expansion of a file either succeeds, and leaves no alternates anywhere, or it fails with an error, and the file has the same rules as before. It fails exactly if lists of several alternates of different lengths occur together in a rule, never panics, never modifies the original rules, and expanding an expanded file changes nothing.",
     ["inputs", "fault_sequences"], "every file of rules, with compatible or incompatible alternates at any place, first, last or in between",
     "The tests contain no incompatible alternates and never expand twice or look at the original rules.",
     ["pass/alt.go"],
     [("the file is assigned once, at the end", "pass/alt.go ExpandAlternates"), ("operations are copied", "pass/alt.go expandsexpr")],
     ["pass.ExpandAlternates: error, file and original rules afterwards"])

prop("C08", "Traversal visits every node once, in order, and honours the visitor",
     "Walking a tree visits every node exactly once, parents before children and children in the order in which they are printed: match, condition, result; binding, opcode, auxint, aux, arguments; the parts of an opcode (a list of alternates is one node, as are expressions). The visitor that a visit returns visits the children of the node; if it returns none, or false for functions, the children are skipped and nothing else. A search for a node by a predicate finds one exactly if some node satisfies it.",
     ["inputs", "histories"], "every tree, every visitor: kept, replaced or ended at any node",
     "No test walks a tree; the feature predicates used by the tests exercise searches on a few rules.",
     ["ast/walk.go"],
     [("one case per node kind", "ast/walk.go Walk"), ("search as a traversal", "ast/walk.go Contains, Inspect")],
     ["ast.Walk, ast.Inspect, ast.Contains: the recorded sequence of visits"])

prop("C09", "Feature predicates say exactly which features a rule uses",
     "Each of the predicates for bindings, types, aux, auxint, ellipsis and trailing marks is true of a rule exactly if at least one operation, anywhere in its match or result, has that feature, whatever other features there are. They do not modify the rule.",
     ["inputs"], "every rule: every set of features over every operation of either side at any depth",
     "The tests ask each predicate about a few rules with one operation; depth, side, argument position and combinations are not covered.",
     ["rules/rules.go", "ast/walk.go"],
     [("predicates as searches", "rules/rules.go")],
     ["rules.HasBinding, HasType, HasAux, HasAuxInt, HasEllipsis, HasTrailing"])

prop("C10", "The SMT-LIB script is satisfiable exactly if the rule is wrong",
     "The script for a rule is well-formed SMT-LIB 2.6 in the logic QF_BV: it declares every variable of the rule once, before its use, with the sort of its width (Bool for B operations), has the rule in comments, one assertion, check-sat and exit. It is satisfied by exactly those values of the variables for which match and result differ, with the meaning the operations have in Go: Add, Sub, Neg modulo 2^width, And, Or, Xor, Com bitwise, boolean And, Or, Eq, Neq, Not. Every placeholder of the match stands for a value of its own, and no name is confused with another or with a symbol of SMT-LIB.",
     ["inputs", "programs"], "every rule of the supported fragment and every assignment of values to its variables",
     "The generator has no test at all; equivalence with the rule is a statement about all rules and all values of their variables.",
     ["smt2/generate.go", "smt2/ops.go"],
     [("table of operations, sorts and formats", "smt2/ops.go buildoperations"), ("types are propagated from result to arguments", "smt2/generate.go sexpr, variable"), ("names", "smt2/generate.go symbol")],
     ["smt2.Generate: the script, evaluated next to the rule"])

prop("C11", "A script is generated for exactly the rules that are supported",
     "Generation succeeds for a rule exactly if match and result are made of the supported operations (Add, Sub, And, Or, Xor, Neg, Com of 8 to 64 bits; AndB, OrB, EqB, NeqB, Not) with the right number of arguments, and of variables, with the match an operation, sizes that agree throughout both sides, and placeholders in the match only; and neither has bindings, types, auxint, aux, ellipsis, trailing marks or alternates, nor the rule a condition or block. Otherwise there is an error that says something, and no script: nothing of a rule is ever ignored.",
     ["inputs"], "every rule: within the fragment, outside by one feature at one place, or by far",
     "The generator has no test at all; exactness is a statement about all rules on both sides of the border.",
     ["smt2/generate.go", "smt2/ops.go", "internal/errutil/errutil.go"],
     [("unsupported features are checked for every operation", "smt2/generate.go sexpr"), ("types and counts of arguments are checked", "smt2/generate.go variable, sexpr; smt2/ops.go Params, match")],
     ["smt2.Generate: script and error"])

prop("C12", "The command writes one right script per convertible rule, and nothing else",
     "The command reads the rules of all files given, in order, leaves out those with a condition, block, binding, type, aux, auxint, ellipsis or trailing mark, expands the rest, and numbers what it got from 0: for rule i it reports the printed rule, and either the reason why there is no script or that it was written to NNNN.smt2 (i with at least four digits) in the output directory. Each of these files holds exactly the script for its rule, other files are not touched, and the report counts the rules of each file and in total. The exit status is 0 exactly if all files could be read, parsed and expanded and all scripts written; if any input cannot, nothing is written.",
     ["inputs", "configurations", "fault_sequences"], "every list of input files, every output directory and its former content",
     "There is no test of the command.",
     ["cmd/ssarules/main.go", "rules/rules.go", "pass/alt.go", "smt2/generate.go", "printer/printer.go"],
     [("load and filter", "cmd/ssarules/main.go load"), ("one loop over the rules", "cmd/ssarules/main.go run")],
     ["the process: exit status, standard error, standard output, directory before and after"])

prop("C13", "No failure of reading, writing or printing goes unreported",
     "If a reader, writer or file fails at any point, the operation that uses it reports an error (the command: a message and a non-zero exit status), never success with missing or partial content; what was written up to then is a prefix of the right output. A tree with a node that cannot be printed gives an error and no panic, wherever in the tree it is.",
     ["fault_sequences", "inputs"], "every operation on a reader, writer or file, failing at every byte, once or for good; every place of an unprintable node",
     "No test injects a failure.",
     ["parse/parse.go", "printer/printer.go", "ast/ast.go", "smt2/generate.go", "cmd/ssarules/main.go"],
     [("the first error is kept", "printer/printer.go printf, seterror; smt2/generate.go printf, seterror"), ("errors end the command", "cmd/ssarules/main.go run")],
     ["parse.Reader, parse.File, printer.Fprint, printer.Print, ast.Fprint, the command"])

prop("C14", "Concurrent use is free of races and gives the same results as serial use",
     "All operations of the library (parsing, printing, walking, predicates, expansion of files of one's own, generating scripts, dumping) can be used from any number of goroutines at the same time, on shared texts and trees that nobody modifies, without data races. Each gives the result it gives alone.",
     ["schedules", "inputs"], "every interleaving of operations on the same or different texts and trees, the first use of the library included",
     "The tests use one goroutine and are not run with concurrent callers; races depend on the schedule.",
     ["parse/parse.go", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go", "printer/printer.go", "pass/alt.go", "smt2/generate.go", "smt2/ops.go", "ast/walk.go", "rules/rules.go"],
     [("state is kept per call: parser, printer, generator", "zparser.go newParser, printer.go newprinter, generate.go Generate"), ("package-level tables are only read", "smt2/ops.go operations, zparser.go grammar g")],
     ["every exported operation, under the race detector"])

prop("C15", "Results depend on the input alone: no hidden state, no side effects",
     "The result of an operation depends on its input alone: the same input gives the same result again and again, whatever was done before, in whichever order, with success or failure, and rules give the same alone and among others. Parsing, printing, walking, predicates, dumping and generating scripts do not modify the trees given to them, and results are the caller's: to overwrite a tree, text or script that was returned does not affect any other result.",
     ["histories", "inputs"], "every history of operations on any inputs, with results overwritten in between",
     "Every test starts from a fresh input and does one thing; the effect of one operation on another is not looked at.",
     ["parse/parse.go", "parse/internal/parser/zparser.go", "printer/printer.go", "pass/alt.go", "smt2/generate.go", "smt2/ops.go", "ast/ast.go", "ast/walk.go"],
     [("state is kept per call: parser, printer, generator", "zparser.go newParser, printer.go newprinter, generate.go Generate"), ("operations are copied when expanded", "pass/alt.go expandsexpr")],
     ["every exported operation: results and deep copies of the inputs compared over a history"])

prop("C16", "Errors of parsing say where in the text the trouble is",
     "Errors of parsing start with file name, line, column and offset of where the text ceases to be of the language: lines and columns counted from 1, columns in characters, offsets in bytes from 0. For a malformed structure that is the furthest token at which the text cannot be continued; for a Go expression that is malformed or not supported, and for a repeated operand, it is the start of it; for invalid UTF-8 it is the first invalid byte. If there are several, the one met first comes first.",
     ["inputs"], "every text outside the language, of any number of lines, with characters of any length before the trouble",
     "No test looks at an error of the parser.",
     ["parse/internal/parser/zparser.go", "parse/rules.peg", "parse/parse.go"],
     [("positions are counted rune by rune", "zparser.go parser.read"), ("farthest failure", "zparser.go failAt, parse"), ("positions of errors of actions", "zparser.go addErrAt")],
     ["the error returned by parse.String, parse.Reader, parse.File"])

prop("C17", "Work grows polynomially with the size of the input",
     "The time and memory that parsing, printing, walking, predicates, expansion, generating a script and dumping take grow no faster than the square of the size of their input and output. There is no input, accepted or rejected, whose nesting, length or repetition of a construct makes them grow exponentially.",
     ["inputs"], "all families of inputs that nest or repeat a construct of the language, accepted or rejected, up to nesting of thousands and sizes of megabytes",
     "Growth is a relation between inputs of different sizes; the tests only use small ones and the compiler's own files.",
     ["parse/rules.peg", "parse/internal/parser/zparser.go", "parse/internal/goexpr/parse.go", "printer/printer.go", "pass/alt.go", "ast/walk.go", "smt2/generate.go"],
     [("bounded backtracking of the grammar", "parse/rules.peg"), ("one visit per node", "ast/walk.go, printer/printer.go, pass/alt.go, smt2/generate.go")],
     ["every exported operation: instructions counted as allocations, bytes and statements executed on inputs of doubling size"])

prop("C18", "Dumps show the whole tree: equal for equal trees, different for different ones",
     "The dump of a tree shows every part of it: two parsed trees have the same dump exactly if they are equal, in whichever layout they were written. Dumping to a string and to a writer give the same text, nothing is cut off, and errors of the writer are returned.",
     ["inputs"], "every pair of parsed files whose types are on one line each (the dump shows types verbatim), and of nodes of a kind within",
     "The tests use dumps to compare with golden files, taking for granted that they show everything.",
     ["ast/ast.go"],
     [("go/ast's printer on the whole tree", "ast/ast.go Fprint, Dump")],
     ["ast.Dump, ast.Fprint, ast.Print"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
