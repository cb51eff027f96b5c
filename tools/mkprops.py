#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A parser recognises exactly what its grammar denotes",
  "For every grammar assembled from literals, regexps, sequences, ordered choices, bounded and unbounded repetitions, delimited lists (with optional leading or trailing separator), lookaheads, names and rule references, parsing an input succeeds exactly when the ordered-choice, greedy, non-backtracking-into-success reading of the grammar matches the whole input. Alternatives are tried in the order written, repetitions take as many items as they can within their bounds, a lookahead consumes nothing, and the input consumed is the same as under that reading.",
  ["programs", "inputs"], "all grammars over those constructs (without left recursion) and all inputs",
  "The tests parse a few dozen fixed strings with a handful of grammars; the guarantee ranges over every combination of constructs and every input.",
  ["parser/parser.go", "parser/terms.go", "parser/scanner.go"],
  [("one parser per term kind", "parser/parser.go: *Parser.Parse"), ("grammar compilation and rule linking", "parser/parser.go: Grammar.Compile")],
  ["parser.Parsers.Parse", "parser.UnconsumedInputError"])
p("C02", "The parse tree records exactly the derivation",
  "A successful parse returns a tree that mirrors the derivation: every rule and every name tags its node, choices carry the index of the option taken, sequences, repetitions and delimited lists list their items in input order and in full, and an optional leading or trailing separator that was present is marked by an empty element beside it. Nothing that was matched is missing from the tree, nothing that was not matched appears in it, and nothing of an abandoned alternative or iteration is left behind.",
  ["programs", "inputs"], "all grammars and all inputs they accept",
  "Tests compare a few trees; a bookkeeping error for one construct combination (nesting, an empty match, a failed iteration) shows up only for particular grammars and inputs.",
  ["parser/parser.go", "parser/parsernodes.go"],
  [("tagging of results", "parser/parser.go: tag/putter"), ("delimiter re-nesting", "parser/parser.go: delimParser.Parse")],
  ["parser.Parsers.Parse result"])
p("C03", "Delimiter associativity and stack precedence are honoured",
  "A left-associative delimiter nests its operands to the left, a right-associative one to the right and a plain one keeps them flat, always with the operands and separators in input order; in a precedence stack every earlier level binds more loosely than the later ones, a self-reference in a level names the next level down and in the last level wraps around to the first. Hence evaluating the tree (and the AST) of any expression gives the value the grammar's precedences and associativities prescribe.",
  ["programs", "inputs"], "all operator tables (levels, associativities, operators, parentheses) and all expressions over them",
  "Tests evaluate one or two expressions by eye; the guarantee is about every operator table and every expression shape and length.",
  ["parser/parser.go", "parser/resolve.go", "ast/from_parsernode.go"],
  [("stack resolution into levels", "parser/parser.go: resolveStacks, parser/resolve.go"), ("associative folding", "parser/parser.go: delimParser.Parse")],
  ["parser.Parsers.Parse", "ast.FromParserNode"])
p("C04", "Every token points at its exact place in the source",
  "Each token of a parse tree and of the AST made from it is a slice of the scanned input: its text is what stands at its offset, its file name, line and column are those of that offset, tokens come in increasing order without overlap, and what lies between them is only what the wrapper expression swallowed (nothing when there is none). This holds also when the scanner handed to the parser starts part-way into a larger text.",
  ["programs", "inputs"], "all grammars, inputs, file names and starting offsets",
  "Tests check a couple of positions; off-by-one errors appear only with particular whitespace, newlines, multi-byte text or start offsets.",
  ["parser/scanner.go", "parser/parser.go", "ast/node_string.go"],
  [("capture of the first group", "parser/scanner.go: EatRegexp"), ("slice bookkeeping", "parser/scanner.go: Slice/Skip/Eat"), ("line/column", "parser/scanner.go: lineColumn")],
  ["Scanner.Offset/Position/String/Filename of leaves"])
p("C05", "Literals, regexps and .wrapRE match exactly what they say",
  "A literal token matches exactly its own characters, whatever they are (including regexp metacharacters, quotes, newlines and multi-byte characters), and a regexp token matches at the current position only, yielding its first capture group or else the whole match. A .wrapRE is applied around every literal and regexp of its grammar, except to those listed before the wrapper in its choice, and never becomes part of a token.",
  ["programs", "inputs"], "all literal texts, regexps, wrappers, exception lists and inputs",
  "Tests use the whitespace wrapper and plain ASCII tokens; metacharacters, exceptions, captures inside the wrapped regexp and multi-line anchors are not covered.",
  ["parser/parser.go", "parser/scanner.go"],
  [("wrapper substitution", "parser/parser.go: applyWrapRE"), ("quoting", "parser/parser.go: S.Parser")],
  ["parser.Parsers.Parse"])
p("C06", "A parse reports exactly what happened",
  "Parsing returns either a tree and no error or an error and no tree: an unconsumed-input error exactly when the rule matched a proper prefix, carrying the tree of that prefix and the rest of the input as residue, and a parse failure exactly when the rule matched nothing. Every such error can be rendered, without crash or endless recursion, to a non-empty message that is the same each time and shows where in the input the parse got stuck (the residue with its line and column, or the text found instead of what was expected).",
  ["programs", "inputs"], "all grammars and all inputs, in particular failing ones",
  "Tests look at a few error values; rendering is lazy and recursive so it fails only for particular failure shapes.",
  ["parser/error.go", "parser/terms.go", "parser/scope.go", "gotree/gotree.go"],
  [("unconsumed input", "parser/terms.go: ParseWithExternals"), ("lazy error tree", "parser/error.go")],
  ["Parsers.Parse error, its Error(), Result(), Residue()"])
p("C07", "Compiling any text and parsing any input terminate cleanly",
  "Compiling any text whatsoever as a grammar ends with either parsers or an error, and never with a panic, a runaway recursion or a hang. A grammar that compiled can parse any input from any of its rules with the same guarantee, however the grammar nests repetitions, optional and empty terms, lookaheads, scoped grammars and macros.",
  ["inputs", "programs"], "all byte strings as grammar texts; all compiled grammars and all inputs",
  "Tests compile well-formed grammars and a few invalid ones; crashes and non-termination need unusual texts such as nullable repetition bodies or malformed escapes.",
  ["wbnf/compile.go", "wbnf/validation.go", "wbnf/recursion.go", "parser/parser.go"],
  [("validation before building", "wbnf/validation.go"), ("progress test in repetitions", "parser/parser.go: quantParser.Parse")],
  ["wbnf.Compile", "parser.Parsers.Parse"])
p("C08", "Grammar text means the terms it spells, however it is formatted",
  "Compiling the text of a grammar gives parsers that behave as the terms spelled in it, with the documented precedence of stacks, choices, sequences, quantifiers (several on one atom apply right to left) and names. White space, comments between statements, redundant parentheses, the order of productions, the kind of quotes, and the choice between a character and its escape make no difference.",
  ["programs", "inputs"], "all grammars and all ways of writing them down, checked on all inputs",
  "Tests compile some formats of some grammars; the guarantee is that formatting never matters and every construct is read the same in every context.",
  ["wbnf/compile.go", "wbnf/wbnfgrammar.go", "examples/wbnf.wbnf"],
  [("AST to terms", "wbnf/compile.go: grammarBuilder"), ("string and regexp literals", "wbnf/compile.go: unquote, parseRegexp")],
  ["wbnf.Compile then Parse"])
p("C09", "A macro call means its body with the arguments put in",
  "A grammar that uses macros behaves exactly as the grammar in which every call has been replaced by hand with the macro's body and each parameter by the (parenthesised) argument, also when parameters occur several times, inside names, quantifiers, delimiters, lookaheads or scoped grammars, and when macros call macros or are defined after use. Expanding a call never affects another call or the macro itself.",
  ["programs", "inputs"], "all macro definitions and calls, all inputs",
  "Tests expand two or three macros; capture, sharing and nesting mistakes need particular combinations.",
  ["wbnf/compile.go", "wbnf/cutpoints.go"],
  [("expansion", "wbnf/compile.go: expandMacro"), ("term rewriting", "wbnf/cutpoints.go: fixTerm, rebuildGrammar")],
  ["wbnf.Compile then Parse"])
p("C10", "Imports amount to pasting each imported grammar in once",
  "Compiling a grammar with imports gives parsers that behave as the one text obtained by adding the statements of every (transitively) imported file exactly once, whatever the shape of the import graph, including diamonds, repeated and mutual imports. Paths are resolved through the resolver given, which is told the importing file; a missing, unreadable or malformed import, or a conflict between the files, makes compilation fail with an error.",
  ["configurations", "fault_sequences"], "all import graphs over files in a directory tree, with and without faulty files",
  "The tests import one file; graph shapes, relative resolution and faults are not covered.",
  ["wbnf/compile.go", "cmd/test.go"],
  [("loading", "wbnf/compile.go: makeGrammar, loadGrammarFile"), ("merging", "wbnf/compile.go: mergeGrammarNodes")],
  ["wbnf.Compile with a resolver"])
p("C11", "Ill-formed grammars are rejected and well-formed ones accepted",
  "Compile rejects a grammar, anywhere in it and also inside scoped grammars and macro bodies, that refers to an undefined rule, defines a rule or macro twice, has an invalid regexp or string, a quantifier whose minimum exceeds its maximum, a name that clashes with a rule or occurs twice in one sequence, calls something that is no macro or with the wrong number of arguments, or has a .wrapRE that is no wrapper. It accepts every grammar without such a fault (and without left recursion), and the error names the offending item.",
  ["programs"], "all well-formed grammars and all single faults injected at all places",
  "Tests reject one sample per kind at top level; position, nesting depth and context of the fault vary without bound.",
  ["wbnf/validation.go"],
  [("validator walk", "wbnf/validation.go: validator.walk"), ("rule collection", "wbnf/validation.go: findDefinedRules")],
  ["wbnf.Compile error"])
p("C12", "Left recursion is caught before it can run away",
  "Compile rejects a grammar in which a rule can reach itself, directly or through any chain of other rules, alternatives, parentheses, names and optional prefixes, without first matching a literal. A rule that reaches itself only after a mandatory literal is accepted and parses inputs nested to any practical depth.",
  ["programs", "inputs"], "all rule graphs of any size and cycle length with all kinds of prefixes",
  "Tests try three grammars; long cycles, several cycles sharing rules and optional prefixes are combinatorial.",
  ["wbnf/recursion.go"],
  [("first-reference sets", "wbnf/recursion.go: getSequenceDangerTerms"), ("cycle search", "wbnf/recursion.go: walkRule, findPaths")],
  ["wbnf.Compile error", "Parse of deeply nested input"])
p("C13", "Cut points change speed and messages but not results",
  "For a grammar text whose tokens are literals, the cut points that compilation inserts never change which inputs are accepted nor the tree of an accepted input, compared with the same grammar without them. For grammars that also use regexps, whenever parsing with cut points succeeds the result is that of parsing without them.",
  ["programs", "inputs"], "all grammars and all inputs",
  "The tests check which tokens count as unique, not what cutting does to parses; a wrong cut shows only on inputs that need the alternative given up.",
  ["wbnf/cutpoints.go", "parser/parser.go", "parser/scope.go", "parser/error.go"],
  [("unique tokens", "wbnf/cutpoints.go: findUniqueStrings"), ("fatal errors", "parser/error.go: isNotMyFatalError"), ("scope of a cut", "parser/scope.go: ReplaceCutPoint")],
  ["Parse of Compile(text) versus Parse of the cut-free grammar"])
p("C14", "The AST keeps every token under its right name",
  "Converting any parse tree to an AST never fails and loses nothing: each token of the tree appears exactly once in the AST, under the name of the rule or name it was matched for, with tokens of one name in input order and choices recorded in order. Whether a name holds one node or a list depends only on the grammar, never on the input.",
  ["programs", "inputs"], "all grammars and all inputs they accept",
  "Tests convert fixed examples; the counting rules (sums, products, unions of multiplicities) must be right for every construct combination.",
  ["ast/from_parsernode.go", "ast/counter.go", "ast/node.go"],
  [("multiplicity counters", "ast/counter.go"), ("conversion", "ast/from_parsernode.go")],
  ["ast.FromParserNode"])
p("C15", "An AST converts back to the parse tree it came from",
  "For grammars in which whatever is optional or repeated holds something that occurs nowhere else beside it (and without associative delimiters, back references and optional list ends), converting a parse tree to an AST and back gives a tree with the same tokens, tags, choices and structure, and leaves the AST unchanged. The conversion back never drops, duplicates or reorders a token.",
  ["programs", "inputs"], "all such grammars and all inputs they accept",
  "Tests round-trip a few examples; every construct combination must be inverted.",
  ["ast/to_parsernode.go", "ast/from_parsernode.go"],
  [("pulling children back", "ast/to_parsernode.go: pull")],
  ["ast.ToParserNode"])
p("C16", "Unparsing writes back the matched text",
  "Unparsing a parse tree writes exactly the text of its tokens, in input order and once each, so that without a wrapper it reproduces the input matched and with one it omits only what the wrapper swallowed. The count returned is the number of bytes written, and an error of the writer is returned.",
  ["programs", "inputs", "fault_sequences"], "all grammars (without lookahead, back or external references) and inputs; writers failing at any byte",
  "Tests unparse a few trees by eye; delimiters, optional separators and nesting combine without bound.",
  ["parser/unparse.go", "parser/parser.go"],
  [("term-directed writing", "parser/unparse.go"), ("operand order", "parser/parser.go: LRTerms")],
  ["parser.Parsers.Unparse"])
p("C17", "A back reference matches exactly what its name last matched",
  "A reference to a name matches exactly the text that the most recent preceding occurrence of that name (or rule) in the enclosing sequences matched, and nothing else; with no such occurrence it matches its default if it has one and fails otherwise. Names bound inside an alternative or iteration that was given up, or in a sibling term, are not visible.",
  ["programs", "inputs"], "all placements of names and references, all inputs",
  "Tests cover two grammars; scoping across rules, repetitions, failed alternatives and structured values is open-ended.",
  ["parser/parser.go", "parser/scope.go"],
  [("scope threading", "parser/parser.go: seqParser.Parse, parser/scope.go: WithVal"), ("reference parser", "parser/parser.go: REF.Parse")],
  ["parser.Parsers.Parse"])
p("C18", "External handlers and escapes are called where the grammar says",
  "An external reference calls its handler exactly when the parse gets there, with the remaining input at that point and the values bound so far, puts the handler's result in the tree and goes on after what it consumed; a handler's error fails that alternative only, unless it is a stop error, which ends the whole parse and is returned as is. With an escape installed, text between its delimiters is handed to the escape's handler at any point where a term is tried and stands in for that term, and a missing closing delimiter is an error.",
  ["programs", "inputs", "fault_sequences"], "all grammars with external references, all handler behaviours and inputs",
  "Tests use one handler and one escape in one grammar; backtracking over calls, errors and scopes is not covered.",
  ["parser/parser.go", "parser/scope.go", "parser/externals.go", "parser/error.go"],
  [("handler call", "parser/parser.go: ExtRef.Parse"), ("escape", "parser/parser.go: parseEscape"), ("stop errors", "parser/error.go: isFatal")],
  ["ParseWithExternals; log of handler calls"])
p("C19", "Scoped grammars are local, nest, and see their surroundings",
  "A rule of a scoped grammar is visible exactly in the term it is attached to and in that grammar itself, where it shadows outer rules, while everything else still refers to the rules of the enclosing grammars. A .wrapRE of a scoped grammar applies inside it only, and without one the enclosing wrapper applies; compiling is equivalent to renaming the local rules apart and hoisting them.",
  ["programs", "inputs"], "all nestings of scoped grammars and all inputs",
  "Tests use one scoped grammar; shadowing, nesting, stacks and inherited wrappers combine freely.",
  ["parser/parser.go", "wbnf/compile.go", "ast/from_parsernode.go"],
  [("local rule linking", "parser/parser.go: ScopedGrammar.Parser"), ("wrapper inheritance", "parser/parser.go: prepare")],
  ["wbnf.Compile then Parse"])
p("C20", "Parsers are safe and unaffected when shared by goroutines",
  "One set of parsers may be used by any number of goroutines at once to parse, convert, unparse and render errors, and grammars may be compiled and code generated from them concurrently, without data races. Every call returns what it would have returned alone.",
  ["schedules"], "all interleavings of parsing, conversion, unparsing, error rendering, compilation and code generation",
  "The tests run each parse on its own; races depend on schedules and shared state.",
  ["parser/parser.go", "parser/scope.go", "wbnf/compile.go", "wbnf/grammar.go", "ast/from_parsernode.go"],
  [("immutable scopes", "parser/scope.go (frozen maps)"), ("read-only compiled parsers", "parser/parser.go")],
  ["race detector reports", "results per goroutine"])
p("C21", "Operations have no side effects and no memory",
  "Compiling leaves the grammar given to it unchanged; parsing, converting, unparsing, printing and rendering errors leave the parsers, grammars, trees and ASTs they are given unchanged, and repeating any of them, in any order and after any history of other successful or failing calls, gives an equal result. Compiling the same grammar twice gives parsers that behave the same.",
  ["histories"], "all sequences of library calls over shared parsers, grammars, trees and ASTs",
  "Tests call each function once per value; aliasing and leftover state need repeated and mixed calls.",
  ["parser/parser.go", "ast/to_parsernode.go", "ast/node.go", "parser/parsernodes.go", "wbnf/compile.go"],
  [("copy before preparing", "parser/parser.go: prepare, clone"), ("clone before consuming", "ast/to_parsernode.go")],
  ["deep snapshots before and after"])
p("C22", "Generated Go code compiles and behaves as its grammar",
  "The Go source generated for a grammar is the same each time, compiles, and its parser accepts the same inputs with the same trees and ASTs as the grammar it was generated from. This holds for all tokens, regexps, quantifiers, delimiters, stacks, scoped grammars, references and names.",
  ["programs", "inputs"], "all grammars (whose rule names give distinct Go names) and all inputs",
  "Tests compare fragments of generated text; nothing compiles and runs generated code for other grammars than the grammar grammar.",
  ["cmd/codegen/grammar.go", "cmd/codegen/types.go", "cmd/codegen/template.go", "cmd/codegen/typebuilder.go", "cmd/gen.go"],
  [("grammar literal", "cmd/codegen/grammar.go: walkTerm, MakeGrammarString"), ("file template", "cmd/codegen/template.go")],
  ["output of 'wbnf gen', compiled and run"])
p("C23", "Walkers visit every node once and obey stoppers",
  "Walking a typed tree calls the enter callback once for every node reachable through it, parents before children, and the exit callback of a node after everything below it, also when only some callbacks are set. A callback that returns the node exiter skips just the rest of that node, one that returns the aborter ends the whole walk at once, and no node is visited twice or missed.",
  ["programs", "inputs"], "all grammar texts walked, all generated walkers, all stopping points",
  "Tests walk one tree with a single callback; stopping at every possible node and complete coverage are not checked.",
  ["cmd/codegen/walkerinterface.go", "wbnf/wbnfgrammar.go", "cmd/codegen/template.go"],
  [("generated walkers", "cmd/codegen/walkerinterface.go: getTypeWalker"), ("stoppers", "cmd/codegen/template.go")],
  ["order of callbacks of wbnf.WalkerOps and of generated walkers"])
p("C24", "Typed accessors return what the AST holds",
  "For every typed node, each One/All accessor returns exactly the child or children of that name in the underlying AST, in order, nil or empty when there is none, and Choice and token accessors return the recorded choice and texts. Accessors whose plural form is needed to reach all children exist, so that walking and accessors miss no child, token or named term of a typed node, except separators that have no name, which the typed API leaves aside.",
  ["programs", "inputs"], "all grammar texts seen through the typed API and all generated types and inputs",
  "Tests call few accessors on few trees; each accessor must agree with the untyped AST on every input.",
  ["cmd/codegen/types.go", "cmd/codegen/pushtype.go", "wbnf/wbnfgrammar.go", "ast/helpers.go"],
  [("accessor generation", "cmd/codegen/types.go"), ("multiplicity of getters", "cmd/codegen/types.go: countManager")],
  ["typed API versus ast.Branch"])
p("C25", "Diffs are empty exactly for equal grammars and trees",
  "Comparing a grammar, term or parse tree with itself or an equal copy reports equality, and comparing it with one that differs anywhere in structure, text, bounds, names, tags, choices or tokens reports a difference; the verdict does not depend on the order of the two, and a report that something differs holds the two sides, the first first, for just the parts that differ. The comparison does not crash on any pair.",
  ["programs", "inputs"], "all pairs of grammars and of parse trees, in particular those differing in one place",
  "There are no tests of the diff package's verdicts; each term kind and field is a place where a difference can be overlooked.",
  ["parser/diff/terms.go", "parser/diff/nodes.go"],
  [("term comparison", "parser/diff/terms.go"), ("tree comparison", "parser/diff/nodes.go")],
  ["diff.Grammars, diff.Terms, diff.NewNodeDiff"])
p("C26", "Scanners behave as slices of their source text",
  "Any sequence of scanner operations (slice, skip, eat, eat string, eat regexp, merge, contains, strip) agrees with the same operations on an offset and length over a plain string: texts, offsets, lines, columns, file names, captures and whether anything was eaten. A failed operation leaves the scanner unchanged, merging spans exactly its parts, and containment is exactly range inclusion in the same source.",
  ["histories", "inputs"], "all sources (with newlines and multi-byte text) and all sequences of operations within bounds",
  "Tests cover a few calls; the guarantee is over operation sequences and arbitrary texts.",
  ["parser/scanner.go"],
  [("slice arithmetic", "parser/scanner.go")],
  ["parser.Scanner methods"])
p("C27", "Printed trees show every node once, in the right place",
  "Printing a tree shows each node's text once, on its own line or lines, indented below its parent with branch marks from which the tree's shape can be read back, and in order. A tree view of an AST shows every token of it, is the same every time, and sorting keeps equal-ranked items in place.",
  ["inputs", "programs"], "all trees (with multi-line texts) and all ASTs",
  "Tests print small fixed trees; shape recovery for arbitrary depth, multi-line texts and last-child marks is not covered.",
  ["gotree/gotree.go", "ast/treeview.go", "ast/node_string.go"],
  [("printer", "gotree/gotree.go: printItems, printText"), ("AST view", "ast/treeview.go")],
  ["gotree.Tree.Print", "ast.BuildTreeView"])
p("C28", "The command line agrees with the library",
  "The test command prints the AST (or tree view) the library computes for its grammar, rule and input, read from files or standard input, and exits 0 exactly when the library parses the whole input; invalid grammars, unknown rules, unreadable files and parse failures give a non-zero exit and a message, and a partial parse still prints the partial result. The gen command writes exactly the library's generated source to standard output or the file named, and fails with non-zero exit when it cannot.",
  ["configurations", "inputs", "fault_sequences"], "all grammars, inputs, flag combinations and missing or bad files",
  "There are no tests of the commands at all.",
  ["cmd/test.go", "cmd/gen.go", "cmd/main.go"],
  [("test command", "cmd/test.go: test"), ("gen command", "cmd/gen.go: gen")],
  ["exit code, standard output and files of the built binary"])
p("C29", "The grammar of grammars describes itself",
  "The built-in parser, the parser compiled from the published grammar of grammars, and the parser compiled by that parser from it again accept the same texts with the same trees. The generated sources in the repository are what the generator makes from that grammar.",
  ["inputs", "programs"], "all texts, valid grammars and near misses",
  "The start-up check compares one pair of grammars structurally; agreement on all texts is wider.",
  ["wbnf/wbnfgrammar.go", "wbnf/grammar.go", "examples/wbnf.wbnf", "scripts/copygrammar.sh"],
  [("bootstrap check", "wbnf/grammar.go: core"), ("generated grammar", "wbnf/wbnfgrammar.go: Grammar")],
  ["wbnf.Core, wbnf.Grammar, wbnf.Compile"])
p("C30", "AST queries agree with the AST's contents",
  "One, Many, First, All, Which and Choice return what the AST holds under a name, and nothing when it holds nothing; a node's scanner spans from its first to its last token, wherever they are below it. Content equality is an equivalence that holds for ASTs of the same tokens, names and choices whatever their positions, and fails for any two that differ in one of these; printing an AST is deterministic and shows every token with its offset.",
  ["programs", "inputs"], "all ASTs and all pairs of them, in particular those differing in one place",
  "Tests query fixed small trees; equality, spans and printing must be right for every shape.",
  ["ast/node.go", "ast/helpers.go", "ast/node_string.go"],
  [("queries", "ast/helpers.go"), ("equality", "ast/node.go: ContentEquals"), ("spans", "ast/node_string.go: Scanner")],
  ["ast.Node methods and helpers"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
