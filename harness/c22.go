package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// What is hard to write down in Go.
var c22Tokens = []string{"a", "b", "`", "``", "\"", "'", "\\", "\\n", "\r", "\n", "\r\n", "\t", "\x00", "\ufeff", "%", "%s", "%d", "{{", "}}", "{{.}}", "é", "\u2028", "$", "//", "/*"}

var c22Regexps = []reSample{
	{"`+", []string{"`", "``"}},
	{"[\"'`]", []string{"\"", "'", "`"}},
	{`\r\n?`, []string{"\r", "\r\n"}},
	{"\t", []string{"\t"}},
	{`%[sd]`, []string{"%s", "%d"}},
	{`\\`, []string{"\\"}},
	{`\x00`, []string{"\x00"}},
	{`[é-ü]+`, []string{"é", "üé"}},
	{`\{\{(a)?\}\}`, []string{"{{}}", "{{a}}"}},
	{`\.\*`, []string{".*"}},
	{`[ab]`, []string{"a", "b"}},
}

var c22Opts = []GenOpts{
	{Big: 10, Rules: 4, Depth: 4, Refs: true, Scoped: true, AST: true},
	{Big: 10, Rules: 4, Depth: 4, Refs: true, Scoped: true, Wrap: true, AST: true},
	{Big: 10, Rules: 4, Depth: 4, Refs: true, Scoped: true, AST: true, Tokens: c22Tokens, Regexps: c22Regexps},
	{Big: 10, Rules: 3, Depth: 5, AST: true, MoreRefs: true, Refs: true},
	{Big: 10, Rules: 3, Depth: 3, Exts: extNames, ExtSamples: extSamples, Scoped: true, Refs: true},
	{Big: 10, Rules: 4, Depth: 4, Scoped: true, MoreScopes: true, Wrap: true, AST: true},
	{Big: 10, Rules: 6, Depth: 3, NoDelim: true, Scoped: true, AST: true},
}

// outcomeGist leaves out how errors describe the terms of the grammar.
func outcomeGist(e parser.TreeElement, err error) string {
	if u, ok := err.(parser.UnconsumedInputError); ok {
		return fmt.Sprintf("unconsumed %q at %d: %s", u.Residue().String(), u.Residue().Offset(), fromElement(u.Result()))
	}
	if err != nil {
		return fmt.Sprintf("%T %v", err, e)
	}
	return fromElement(e).String()
}

func init() {
	register(&Check{
		ID:    "C22",
		Rule:  "for each random grammar over all constructs (quantifiers, delimiters, stacks, scoped grammars, wrappers, lookaheads, references with and without defaults, external references, names, tokens and regexps with quotes, control characters, template and format markers) the built wbnf command generates code twice, which must be the same and compile, together with that of the other grammars in this binary; its parser must give the same trees, errors and residues as the grammar for all rules, and its Parse and ParseString the same ASTs and errors for the start rule. Distinct by (grammar, rule, result); non-trivial if more than an empty text was consumed or an error was compared.",
		Cases: map[string]int{"quick": 200, "thorough": 3000},
		Generated: func(r *rand.Rand) (parser.Grammar, []parser.Rule, GenOpts) {
			o := c22Opts[r.IntN(len(c22Opts))]
			g, rules := genGrammar(r, o)
			return g, rules, o
		},
		Run: func(c *Case) {
			gc := genCases[c.Index]
			c.Note("grammar", gc.Text)
			c.Note("start", gc.Start)
			switch {
			case gc.GenError != "":
				c.Fail("no code could be generated: %s", gc.GenError)
				return
			case gc.Differs != "":
				c.Fail("the code generated is not the same each time: %s", gc.Differs)
				return
			case gc.CompileError != "":
				c.Fail("the code generated doesn't compile:\n%s", gc.CompileError)
				return
			}
			pkg := genPkgs[c.Index]
			g, rules, o, _ := checks[c.ID].generate(c.Seed, c.Index)
			want, err := wbnf.Compile(gc.Text, nil)
			if err != nil {
				c.Fail("the grammar doesn't compile: %v", err)
				return
			}
			got := pkg.Grammar()
			refs := statelessHandlers(func() {})
			delete(refs, c18Escapes[0].key)
			c.Stat("packages compiled and run", 1)
			for _, t := range g {
				walkTerm(t, func(t parser.Term) { c.Stat(fmt.Sprintf("terms: %T", t), 1) })
			}
			for i, rule := range rules {
				for _, input := range genInputs(c.Rand, g, rule, o, 16) {
					c.Note("input", input)
					ref := newRef(g)
					ref.host = &extHost{calls: map[string]int{}}
					ref.limit = 6000
					if ref.Parse(rule, input).Budget {
						continue
					}
					c.Note("rule", string(rule))
					parse := func(p parser.Parsers) (parser.TreeElement, error) {
						if len(o.Exts) > 0 {
							return p.ParseWithExternals(rule, parser.NewScanner(input), refs)
						}
						return p.Parse(rule, parser.NewScanner(input))
					}
					tree, err := parse(want)
					a, b := outcomeGist(tree, err), outcomeGist(parse(got))
					c.Eval()
					if a != b {
						c.Fail("the grammar gives\n%s\nand the generated one\n%s", a, b)
						return
					}
					if err != nil {
						c.Stat(fmt.Sprintf("same %T", err), 1)
					} else {
						c.Stat("same trees", 1)
					}
					if input != "" {
						c.Distinct(gc.Text, rule, a)
					}
					if c.Index%40 == 0 && err == nil && len(input) > 3 {
						c.Sample(map[string]any{"grammar": gc.Text, "rule": string(rule), "input": input})
					}
					if i > 0 || len(o.Exts) > 0 {
						continue
					}
					// The functions for the rule that was given as start.
					for _, f := range []func() []reflect.Value{
						func() []reflect.Value {
							return reflect.ValueOf(pkg.Parse).Call([]reflect.Value{reflect.ValueOf(parser.NewScanner(input))})
						},
						func() []reflect.Value {
							return reflect.ValueOf(pkg.ParseString).Call([]reflect.Value{reflect.ValueOf(input)})
						},
					} {
						out := f()
						gotErr, _ := out[1].Interface().(error)
						if (gotErr == nil) != (err == nil) || err != nil && fmt.Sprintf("%T", err) != fmt.Sprintf("%T", gotErr) {
							c.Fail("the grammar gives error %v and the generated Parse %v", err, gotErr)
							return
						}
						if err != nil {
							continue
						}
						wantAST := canonAST(ast.FromParserNode(want.Grammar(), tree), true)
						if gotAST := canonAST(typedNode(out[0]), true); gotAST != wantAST {
							c.Fail("the grammar gives\n%s\nand the generated Parse\n%s", wantAST, gotAST)
							return
						}
						c.Stat("ASTs compared", 1)
					}
				}
			}
		},
	})
}
