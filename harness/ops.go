package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
	"github.com/arr-ai/wbnf/wbnf"
)

// world is a grammar, what was made from it, and all that can be done with it.
// Every operation returns all it computed as text, so that it can be compared
// with what it gives at other times.
type world struct {
	opts   GenOpts
	g      parser.Grammar
	text   string
	p      parser.Parsers
	rules  []parser.Rule
	inputs []worldInput
	ops    []worldOp
	dir    string
	with   func(p parser.Parsers, in worldInput) (parser.TreeElement, error)
}

type worldInput struct {
	rule parser.Rule
	text string
	// what they gave at first; shared by the operations
	tree parser.TreeElement
	ast  ast.Branch
	err  error
}

type worldOp struct {
	name string
	run  func() string
}

// slowHandlers make other goroutines run in the midst of a parse.
func statelessHandlers(pause func()) parser.ExternalRefs {
	refs := parser.ExternalRefs{}
	add := func(key, name string) {
		refs[key] = func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
			var stop error
			pause()
			h := &extHost{names: genNames, calls: map[string]int{}}
			return h.handler(name, &stop)(scope, input)
		}
	}
	for _, n := range extNames {
		add(n, n)
	}
	add(c18Escapes[0].key, "escape")
	return refs
}

func outcomeText(e parser.TreeElement, err error) string {
	if u, ok := err.(parser.UnconsumedInputError); ok {
		return fmt.Sprintf("unconsumed %q at %d: %s: %s", u.Residue().String(), u.Residue().Offset(), u.Error(), fromElement(u.Result()))
	}
	if err != nil {
		return fmt.Sprintf("%T: %s (%v)", err, err.Error(), e)
	}
	return fromElement(e).String()
}

func grammarText(g parser.Grammar) string {
	// Not Grammar.String, which is among what is checked.
	var sb strings.Builder
	for _, r := range sortedRules(g) {
		fmt.Fprintf(&sb, "%s -> %#v;\n", r, sortedTerm(g[parser.Rule(r)]))
	}
	return sb.String()
}

// sortedTerm replaces grammars in a term by something that prints in a fixed order.
func sortedTerm(t parser.Term) any {
	switch t := t.(type) {
	case nil:
		return nil
	case parser.ScopedGrammar:
		return []any{"scoped", sortedTerm(t.Term), grammarText(t.Grammar)}
	case parser.CutPoint:
		return []any{"cut", sortedTerm(t.Term)}
	case parser.Seq:
		return []any{"seq", sortedTerms(t)}
	case parser.Oneof:
		return []any{"oneof", sortedTerms(t)}
	case parser.Stack:
		return []any{"stack", sortedTerms(t)}
	case parser.Named:
		return []any{"named", t.Name, sortedTerm(t.Term)}
	case parser.LookAhead:
		return []any{"look", sortedTerm(t.Term)}
	case parser.Quant:
		return []any{"quant", t.Min, t.Max, sortedTerm(t.Term)}
	case parser.Delim:
		return []any{"delim", int(t.Assoc), t.CanStartWithSep, t.CanEndWithSep, sortedTerm(t.Term), sortedTerm(t.Sep)}
	}
	return t
}

func sortedTerms(ts []parser.Term) []any {
	var out []any
	for _, t := range ts {
		out = append(out, sortedTerm(t))
	}
	return out
}

// walkAll records the callbacks of a walk of a typed tree.
func walkAll(n wbnf.GrammarNode) string {
	var sb strings.Builder
	note := func(what string, n ast.Node) wbnf.Stopper {
		s := n.Scanner()
		fmt.Fprintf(&sb, "%s %d+%d;", what, s.Offset(), len(s.String()))
		return nil
	}
	w := wbnf.WalkerOps{
		EnterGrammarNode: func(n wbnf.GrammarNode) wbnf.Stopper { return note("grammar", n.Node) },
		EnterProdNode:    func(n wbnf.ProdNode) wbnf.Stopper { return note("prod", n.Node) },
		EnterTermNode:    func(n wbnf.TermNode) wbnf.Stopper { return note("term", n.Node) },
		ExitTermNode:     func(n wbnf.TermNode) wbnf.Stopper { return note("/term", n.Node) },
		EnterAtomNode:    func(n wbnf.AtomNode) wbnf.Stopper { return note("atom", n.Node) },
		EnterIdentNode:   func(n wbnf.IdentNode) wbnf.Stopper { return note("ident", n.Node) },
		EnterStrNode:     func(n wbnf.StrNode) wbnf.Stopper { return note("str", n.Node) },
		ExitProdNode:     func(n wbnf.ProdNode) wbnf.Stopper { return note("/prod", n.Node) },
	}
	w.Walk(n)
	return sb.String()
}

type dirResolver struct{ dir string }

func (r dirResolver) Resolve(from, file string) string { return filepath.Join(r.dir, file) }

// newWorld makes a world. It returns nil if the case is of no use.
func newWorld(c *Case, pause func()) *world {
	o := pickOpts(c, []GenOpts{
		{Rules: 3, Depth: 4, Refs: true, AST: true},
		{Rules: 4, Depth: 4, Scoped: true, Wrap: true, AST: true},
		{Rules: 3, Depth: 4, Exts: extNames, Refs: true, ExtSamples: extSamples},
		{Rules: 5, Depth: 3, AST: true},
		{Rules: 3, Depth: 4, Exts: extNames, ExtSamples: extSamples, Escapes: c18EscapeTexts[0], Scoped: true},
	})
	g, rules := genGrammar(c.Rand, o)
	w := &world{g: g, rules: rules, opts: o, text: printGrammar(g)}
	exts := len(o.Exts) > 0 || len(o.Escapes) > 0 // their results stand where others are expected
	refs := statelessHandlers(pause)
	if len(o.Escapes) == 0 {
		delete(refs, c18Escapes[0].key)
	}
	p, ok := compileText(c, w.text)
	if !ok {
		return nil
	}
	w.p = p
	ref := newRef(g)
	ref.host = &extHost{calls: map[string]int{}}
	ref.limit = 4000
	with := func(p parser.Parsers, in worldInput) (parser.TreeElement, error) {
		s := parser.NewScanner(in.text)
		if exts {
			return p.ParseWithExternals(in.rule, s, refs)
		}
		return p.Parse(in.rule, s)
	}
	parse := func(in worldInput) (parser.TreeElement, error) { return with(p, in) }
	w.with = with
	// pick returns an input, preferably one that parses.
	pick := func() (in worldInput, ok bool) {
		in.text, ok = "a", false
		for i := 0; i < 8; i++ {
			rule := rules[c.IntN(len(rules))]
			text := genInputs(c.Rand, g, rule, o, 1)[0]
			if len(text) > 60 {
				continue
			}
			if r := ref.Parse(rule, text); !r.Budget {
				in.rule, in.text, ok = rule, text, true
				if r.OK && r.End > 0 || c.IntN(6) == 0 {
					return in, true
				}
			}
		}
		return in, ok
	}
	for len(w.inputs) < 4 {
		in, ok := pick()
		if !ok {
			return nil
		}
		in.tree, in.err = parse(in)
		if u, ok := in.err.(parser.UnconsumedInputError); ok && c.IntN(2) == 0 {
			in.tree = u.Result()
		}
		if in.tree != nil && !exts {
			in.ast = ast.FromParserNode(p.Grammar(), in.tree)
		}
		w.inputs = append(w.inputs, in)
	}
	add := func(name string, run func() string) { w.ops = append(w.ops, worldOp{name: name, run: run}) }
	for i := range w.inputs {
		in := w.inputs[i]
		add("parse", func() string { return outcomeText(parse(in)) })
		w.ops = append(w.ops, worldOp{name: "parse, render twice", run: func() string {
			e, err := parse(in)
			a, b := outcomeText(e, err), outcomeText(e, err)
			if a != b {
				return a + " and then " + b
			}
			return a
		}})
		if in.err != nil {
			add("render an error", func() string { return in.err.Error() })
		}
		if in.tree != nil {
			add("print a tree", func() string { return fmt.Sprintf("%v %v", in.tree, fromElement(in.tree)) })
			if n, ok := in.tree.(parser.Node); ok {
				add("diff of trees", func() string {
					d := diff.NewNodeDiff(&n, &n)
					return fmt.Sprint(d.Equal(), d.String())
				})
			}
		}
		if in.tree != nil && !exts {
			add("tree to AST", func() string { return canonAST(ast.FromParserNode(p.Grammar(), in.tree), true) })
			noUnparse := hasTerm(g, func(t parser.Term) bool {
				switch t.(type) {
				case parser.REF, parser.LookAhead:
					return true
				}
				return false
			})
			if !noUnparse {
				add("unparse", func() string {
					var b bytes.Buffer
					n, err := p.Unparse(in.tree, &b)
					return fmt.Sprintf("%q %d %v", b.String(), n, err)
				})
				// What cannot be converted back panics; that it does is the same every time, too.
				add("AST to tree", func() (s string) {
					defer func() {
						if r := recover(); r != nil {
							s = "panic"
						}
					}()
					return fromElement(ast.ToParserNode(p.Grammar(), in.ast)).String()
				})
			}
			add("print an AST", func() string {
				return in.ast.String() + ast.BuildTreeView("root", in.ast, true) + ast.BuildTreeView("root", in.ast, false)
			})
			add("query an AST", func() string {
				name, kids := ast.Which(in.ast, "a", "b", "c", "x", "y", "op")
				s := in.ast.Scanner()
				return fmt.Sprintf("%s %v %v %v %s %d %s", name, kids, ast.First(in.ast, "x"), ast.All(in.ast, "a"), s, ast.Choice(in.ast), canonAST(in.ast, true))
			})
			add("compare ASTs", func() string {
				return fmt.Sprint(in.ast.ContentEquals(in.ast), in.ast.ContentEquals(w.inputs[0].ast), w.inputs[0].ast.ContentEquals(in.ast))
			})
		}
	}
	// What nobody did before the operation itself: whatever is worked out when
	// it is first needed is worked out by these.
	if q, ok := compileText(c, w.text); ok {
		for i := 0; i < 4; i++ {
			in, ok := pick()
			if !ok {
				break
			}
			add("cold: parse, convert", func() string {
				e, err := with(q, in)
				s := outcomeText(e, err)
				if u, ok := err.(parser.UnconsumedInputError); ok {
					e = u.Result()
				}
				if e != nil && !exts {
					b := ast.FromParserNode(q.Grammar(), e)
					s += canonAST(b, true) + b.String() + ast.BuildTreeView("root", b, false) + b.Scanner().String()
				}
				return s
			})
		}
		add("cold: print", func() string { return q.Grammar().String() })
	}
	g2, rules2 := genGrammar(c.Rand, o)
	text2, in2 := printGrammar(g2), worldInput{rule: rules2[c.IntN(len(rules2))]}
	in2.text = genInputs(c.Rand, g2, in2.rule, o, 1)[0]
	if ref2 := newRef(g2); len(in2.text) <= 60 {
		ref2.host = &extHost{calls: map[string]int{}}
		ref2.limit = 4000
		if !ref2.Parse(in2.rule, in2.text).Budget {
			add("cold: compile, generate, parse", func() string {
				p, err := wbnf.Compile(text2, nil)
				if err != nil {
					return err.Error()
				}
				t := codegen.MakeTypes(p.Node().(wbnf.GrammarNode))
				s := codegen.MakeGrammarString(p.Grammar()).String() + codegen.GetVisitorWriter(t.Types(), string(rules2[0])).String()
				for _, t := range t.Get() {
					s += t.String()
				}
				return s + outcomeText(with(p, in2))
			})
		}
	}
	add("compile text, parse", func() string {
		p, err := wbnf.Compile(w.text, nil)
		if err != nil {
			return err.Error()
		}
		in := w.inputs[0]
		if exts {
			return outcomeText(p.ParseWithExternals(in.rule, parser.NewScanner(in.text), refs))
		}
		return outcomeText(p.Parse(in.rule, parser.NewScanner(in.text)))
	})
	add("compile terms, parse", func() string {
		in := w.inputs[1]
		p := g.Compile(nil)
		if exts {
			return outcomeText(p.ParseWithExternals(in.rule, parser.NewScanner(in.text), refs))
		}
		return outcomeText(p.Parse(in.rule, parser.NewScanner(in.text)))
	})
	add("compile the compiled grammar", func() string { return p.Grammar().Compile(p.Node()).Grammar().String() })
	bad := w.text + []string{" zz -> nowhere;", " zz -> (", " zz -> zz;", " zz -> \"\\q\";", " zz -> a=\"x\" a=\"y\";", " .macro m(a) { a } zz -> %!m();"}[c.IntN(6)]
	add("compile a wrong text", func() string {
		_, err := wbnf.Compile(bad, nil)
		if err == nil {
			return "accepted"
		}
		return err.Error()
	})
	macro := ".macro L(x, s) { x:s } zz -> %!L(\"a\", \",\") (q {q -> %!L(\"b\", \";\");}) %!L(\"c\" n=\"d\", \"+\"); "
	add("compile macros", func() string {
		p, err := wbnf.Compile(macro, nil)
		if err != nil {
			return err.Error()
		}
		return p.Grammar().String() + outcomeText(p.Parse("zz", parser.NewScanner("a,ab;bcd+cd")))
	})
	if c.IntN(2) == 0 {
		dir, err := os.MkdirTemp("", "vhworld")
		must(err)
		w.dir = dir
		must(os.WriteFile(filepath.Join(dir, "one"), []byte(".import two; i1 -> i2 \"+\" i3;"), 0o644))
		must(os.WriteFile(filepath.Join(dir, "two"), []byte("i2 -> \"a\" i3; .import three"), 0o644))
		must(os.WriteFile(filepath.Join(dir, "three"), []byte(".import one; i3 -> \"b\"? ;"), 0o644))
		add("compile with imports", func() string {
			p, err := wbnf.Compile(".import one; .import three; i0 -> i1*;", dirResolver{dir})
			if err != nil {
				return err.Error()
			}
			return p.Grammar().String() + outcomeText(p.Parse("i0", parser.NewScanner("ab+ba+")))
		})
	}
	add("print the grammar", func() string { return p.Grammar().String() + g.String() })
	add("parse the grammar text", func() string {
		return outcomeText(wbnf.Core().Parse("grammar", parser.NewScanner(w.text)))
	})
	gn := p.Node().(wbnf.GrammarNode)
	add("walk the grammar's tree", func() string { return walkAll(gn) })
	add("print the grammar's tree", func() string { return gn.Node.(ast.Branch).String() })
	add("parse and walk", func() string {
		n, err := wbnf.ParseString(w.text)
		if err != nil {
			return err.Error()
		}
		return walkAll(n)
	})
	add("diff of grammars", func() string {
		q := stripCuts(p.Grammar())
		return fmt.Sprint(diff.Grammars(p.Grammar(), p.Grammar()).Equal(), diff.Grammars(q, p.Grammar()).Equal(), diff.Grammars(g, q).Equal())
	})
	add("generate code", func() string {
		var sb strings.Builder
		sb.WriteString(codegen.MakeGrammarString(p.Grammar()).String())
		t := codegen.MakeTypes(gn)
		for _, s := range t.Get() {
			sb.WriteString(s.String())
		}
		sb.WriteString(codegen.GetVisitorWriter(t.Types(), string(rules[0])).String())
		return sb.String()
	})
	return w
}

func (w *world) close() {
	if w.dir != "" {
		os.RemoveAll(w.dir)
	}
}

// state is what a user can see of what the world shares.
func (w *world) state() string {
	var sb strings.Builder
	sb.WriteString(grammarText(w.g))
	sb.WriteString("compiled\n")
	sb.WriteString(grammarText(w.p.Grammar()))
	sb.WriteString(canonAST(w.p.Node().(wbnf.GrammarNode).Node, true))
	for _, in := range w.inputs {
		sb.WriteString("\n" + fromElement(in.tree).String())
		if in.ast != nil {
			sb.WriteString("\n" + canonAST(in.ast, true))
		}
	}
	return sb.String()
}
