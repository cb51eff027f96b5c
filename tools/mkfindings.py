#!/usr/bin/env python3
"""Writes known-findings.json: defects recorded, and those repaired."""
import json, os
fixed = [
 ("C06", "d8c3d26", "rendering the error of a failed quantifier recursed for ever"),
 ("C07", "83b53ed", "an unbounded quantifier over a term that matches nothing looped for ever"),
 ("C05", "c82b3a1", "numeric escapes in strings were cut short or wrong, and malformed ones panicked"),
 ("C05", "683b7ec", "regexps with several or non-participating capture groups yielded wrong tokens or panicked"),
 ("C11", "9c77653", "the regexp validated was not the one compiled: panics, or valid ones rejected"),
 ("C11", "3db0519", "a .wrapRE that cannot wrap anything was accepted and panicked"),
 ("C14", "56781c9", "stack levels counted as different names: lost or misplaced AST children"),
 ("C14", "a851fa3", "operands of an associative delimiter taken for its nested nodes: AST lost tokens"),
 ("C08", "53bc6ff", "a production that is the mere name of another rule panicked"),
 ("C19", "cf4e544", "rules of a scoped grammar leaked into the enclosing grammar"),
 ("C21", "db09f82", "compiling changed the scoped grammars of the grammar given to it"),
 ("C19", "1486be9", "mere names for rules of other scopes resolved in the wrong scope"),
 ("C19", "ee87711", "scoped grammars attached to choices and stack levels were dropped"),
 ("C13", "21a1d2c", "uses of a token inside scoped grammars were not counted: valid inputs rejected by cut points"),
 ("C09", "4ddfc64", "macro parameters inside lookaheads and scoped grammars were not replaced"),
 ("C13", "def442c", "an optional ending separator became a cut point: valid inputs rejected"),
 ("C13", "8a2e530", "a token that is a prefix of another became a cut point: valid inputs rejected"),
 ("C11", "53d8580", "scoped grammars were not validated: undefined rules and the like panicked later"),
 ("C09", "ba57176", "macros of a scoped grammar were visible outside of it"),
 ("C07", "aa53a24", "self-calling macros overflowed the stack; misplaced stacks and rules undefined after expansion panicked"),
 ("C08", "4295409", "quantifier bounds {1,1} and overflowing bounds were misread"),
 ("C30", "6a9d2ab", "Scanner() of nodes some of which span nothing panicked or was wrong"),
 ("C25", "2561ed6", "diffs of leaves, external references and references missed differences or panicked"),
 ("C23", "37e385e", "the aborter merely exited the node"),
 ("C27", "5e342b1", "tree printing order depended on map order"),
 ("C10", "6fdb311", "diamond imports were rejected as duplicates and cyclic ones did not terminate"),
 ("C10", "a1b6179", "imports were resolved relative to the top file instead of the importing one"),
 ("C28", "883d335", "gen exited 0 when it could not write its output"),
 ("C22", "4f146da", "generated code lost carriage returns in tokens"),
 ("C22", "8af140e", "generated code did not compile for bounded quantifiers"),
 ("C22", "99474e3", "generated code did not compile for rules that match nothing"),
 ("C24", "58856ee", "generated code lacked the types of named rules of scoped grammars"),
 ("C26", "8eb0ef8", "stripped scanners had wrong positions and slices"),
 ("C17", "c0d30b6", "references to delimited values with an optional end never matched"),
 ("C12", "c1bf5bc", "left recursion through repetitions, delimiters, nullable regexps and scoped grammars was accepted and overflowed the stack"),
 ("C12", "bbc6224", "rules that refer to themselves after a mandatory rule were rejected as left recursive"),
 ("C06", "55b77e0", "error messages showed addresses, different each time"),
 ("C13", "c2ff8c9", "a reference to a rule that is a token became a cut point: valid inputs rejected"),
 ("C13", "da900d0", "a token that a back reference matches again became a cut point: valid inputs rejected"),
 ("C13", "18ff761", "a token that overlaps another became a cut point: valid inputs rejected"),
 ("C14", "e8e3e54", "converting trees panicked or went wrong where a scoped grammar shadows a rule that an outer rule uses"),
 ("C14", "d681d95", "converting a tree with two nested unnamed associative delimiters in one node panicked"),
 ("C07", "721dd02", "a back reference to invalid UTF-8 panicked"),
 ("C06", "f3df067", "messages showed the text at the start of the sequence instead of where the expected token was missing"),
 ("C06", "780904d", "rendering a deeply nested parse error took time quadratic in its size: nearly a minute for an input of 30 bytes"),
 ("C07", "bfde748", "compiling n nested lookaheads (or separators with an optional end) took time exponential in n"),
 ("C06", "896c33d", "rendering the error for a grammar or input nested 100 levels deep ran out of memory (each level rendered its children anew, and every failure the whole call stack)"),
 ("C07", "f47a0d1", "compiling n nested delimiters took time and memory exponential in n"),
 ("C11", "b641fc3", "the bodies of macros were not validated: a wrong quantifier, string or regexp in one made Compile panic"),
 ("C07", "cfb7247", "a .wrapRE such as /{()|()} or /{()*} could match without the token: rules taken for safe recursed until the stack overflowed"),
 ("C07", "e415e45", "parsing with a quantifier of a huge minimum ran out of memory before looking at the input"),
 ("C15", "078a5f6", "ToParserNode panicked, hung, dropped or misplaced tokens for an optional or repeated term followed by another token of the same name, for delimited lists between tokens, for nested repetitions, and lost the nodes of lookaheads"),
 ("C15", "6521015", "ToParserNode tagged the node of a named reference to a rule with the name, unlike the parser"),
 ("C15", "43d8380", "ToParserNode went on forever or stopped early at repetitions of what may match nothing but white space of the wrapper"),
 ("C16", "b651947", "Unparse panicked on trees of scoped grammars and of rules that are single tokens, and returned a count without the bytes written before a writer failed"),
 ("C18", "49aa728", "Scope.GetVal panicked in the handler of an escape that stood for a token of the name asked for"),
 ("C18", "607463f", "an escape whose delimiters have alternatives (e.g. '*{{|<<()}}|>>') made the parser panic"),
 ("C18", "b53a10a", "an escape after an item of a delimited list was taken for the rest of the list and made the parser panic; one inside of what a back reference repeats was taken for a part of it"),
 ("C20", "6017562", "GoName memoised names in a package-level map without a lock: generating code (or naming types) on two goroutines at once was a data race and could crash with 'concurrent map writes'"),
 ("C22", "d6c3810", "generated code for a stack that refers to itself both with @ and by its name (e -> @:'+' > '(' e ')' | 'x';) declared the accessor twice and did not compile"),
 ("C22", "22dd29b", "generated code for a rule with two back references to the same name (x=('a'|'b') %x %x) declared the accessor twice and did not compile"),
 ("C22", "e7f3710", "a named term of a stack that refers to the stack with @ (e -> @:'+' > x=('(' @ ')') | 'a';) got its accessor generated for the type of the stack, so that the generated code did not compile"),
 ("C23", "c9217c9", "walkers never called the Exit callback of nodes of types without children (ExitIdentNode, ExitStrNode ...), and the node exiter returned from the Enter callback of such a node exited its parent, skipping its siblings"),
 ("C24", "b5bc683", "OneToken of a generated type panicked on a node whose only child is a list, such as the first level of a stack (item -> @:'*' > [0-9] | '(' @ ')';)"),
 ("C24", "50eb1d7", "accessors for a named reference to a rule (x=rule) wrapped the node around the rule's own node, so that all accessors of the type returned nothing and walkers did not get below it"),
 ("C24", "5591ea0", "rules with several tokens, names or rules of which one begins the rule or is in a choice beside another (REF -> '%' IDENT ('=' STR)?; a -> b ('x' b | 'y');) lacked the All accessor: all but the first were unreachable and not walked"),
 ("C24", "4c461b5", "AllX or OneX of a token named x panicked when x is also referred back to (a -> (x=[a-z] %x)+;)"),
 ("C25", "abf37cb", "diff.Grammars panicked for grammars that are equal but for a nil list in the place of an empty one (Seq(nil) and Seq{})"),
 ("C30", "7ead2a4", "ContentEquals of a branch with an empty list and of one without it was true, in one direction"),
 ("C26", "ff354c6", "scanners without a source (zero ones, captures that took no part) printed a nil pointer panic"),
 ("C07", "1542e56", "a bounded repetition of nothing went on up to its bound, using up all memory for large ones"),
 ("C14", "657cab0", "counts of AST children overflowed for nested repetitions: 64 of them or large bounds panicked"),
 ("C14", "b733fbd", "the levels of a stack whose name begins with a dot (.e -> @:'+' > 'x';) counted as names of their own in ASTs"),
 ("C22", "4684218", "generated code did not compile for a start rule named like fooNode or a rule named like _1, and mixed up the types of a rule and of a term in it named _ or Node"),
 ("C25", "9e06335", "comparing trees with nodes that hold the AST an external handler returned panicked"),
 ("C14", "7aec11b", "converting (and unparsing) the tree of a list of lists, both associative in the same direction and without names, panicked"),
]
def finding(prop, probe, what, **args):
    findings.append({"property": prop, "probe": probe, "args": args, "what": what})
findings = []
finding("C08", "compile-fails", "block comments with more than one character (or run of stars) between /* and */ are rejected "
        "(the repair is in examples/wbnf.wbnf, from which the parser is generated, and examples are out of bounds)",
        grammar="/* two words */ a -> \"x\";")
finding("C07", "parse-panics", "@ outside of a stack is accepted by Compile (the existing tests require it) and panics when the parser gets there",
        grammar='a -> "(" @ ")" | "x";', rule="a", input="(x)")
finding("C19", "parse-fails", "@ in a stack does not mean the stack's next level within a scoped grammar that has a rule named like the stack: "
        "the local rule captures it (tags are rule names, so hygiene would need another representation of levels throughout)",
        grammar='e -> @:"+" > "1" | ("(" @ ")" {e -> "x";});', rule="e", input="(1)")
finding("C19", "tag-missing", "a rule of a scoped grammar that is the mere name of a rule outside of it yields nodes tagged with the other rule's name, unlike at top level",
        grammar='a -> "(" (b {b -> c;}) ")"; c -> "x" "y";', rule="a", input="(xy)", tag="b")
finding("C24", "accessor-missing", "the nested nodes of an associative delimiter (a -> [0-9]:>'+';) have no accessor, so that all but its outermost operands are unreachable through the typed API and not walked "
        "(they have the type of none of the rules: the types would need an addition to their API)",
        grammar="a -> [0-9]:>'+';", methods="OneA(|AllA(")
finding("C24", "accessor-missing", "if several delimiters in a rule have separators of the same name (a -> x:op=',' y:op=';';) there is just OneOp "
        "(the existing tests require that for the levels of stacks, which the type builder doesn't tell from terms in sequence)",
        grammar="a -> x:op=',' y:op=';'; x -> 'x'; y -> 'y';", methods="AllOp(")
finding("C22", "declared-twice", "a rule with a literal or regexp without a name and a term or rule named token beside it (a -> token='x' 'y';) gets the accessor OneToken twice, so that the generated code does not compile "
        "(one of the two has to be called something else: the API's to decide)",
        grammar="a -> token='x' 'y';", method="OneToken(")
finding("C14", "ast-panics", "with three lists one in the other without names, all associative in the same direction, of which the inner ones may end (or begin) with a separator, "
        "converting some trees panics: nodes have the same tag and shape whichever of the lists ended with a separator (telling them apart would need another representation in trees)",
        grammar="a -> '<' ((b:>',',):>';',):>'|' '>'; b -> 'x';", rule="a", input="<x|x;|x>")
out = {"fixed": ["fixed: property=%s %s %s" % f for f in fixed], "findings": findings}
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json")
json.dump(out, open(path, "w"), indent=1, ensure_ascii=False)
open(path, "a").write("\n")
