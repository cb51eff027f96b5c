package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// astExp is what is expected of a node of an AST.
type astExp struct {
	leaf  *parser.Scanner
	extra string
	kids  map[string][]*astExp
	key   string // identifies the part of the grammar that the node stands for
}

func (x *astExp) add(name string, k *astExp) { x.kids[name] = append(x.kids[name], k) }

// astEnv are the rules in scope.
type astEnv struct {
	g     parser.Grammar
	outer *astEnv
	id    string
}

func (e *astEnv) lookup(r parser.Rule) (parser.Term, *astEnv) {
	for ; e.outer != nil; e = e.outer {
		if t, has := e.g[r]; has {
			return t, e
		}
	}
	return e.g[r], e
}

func levelless(name string) string {
	if i := strings.LastIndex(name, "@"); i > 0 {
		return name[:i]
	}
	return name
}

// expectAST says what the AST of a tree holds, by walking the tree along with
// the terms of the grammar.
func expectAST(g parser.Grammar, e parser.TreeElement) *astExp {
	root := &astExp{kids: map[string][]*astExp{}}
	if s, ok := e.(parser.Scanner); ok {
		root.add("", &astExp{leaf: &s})
		return root
	}
	rule := e.(parser.Node).Tag
	root.key = "rule:" + rule
	root.add("@rule", &astExp{extra: "r(" + rule + ")"})
	root.walk(&astEnv{g: g}, g[parser.Rule(rule)], e, root.key)
	return root
}

// listsOf tells whether n is from the term, a delimiter: it then has as many
// lists in it, each the operand of the one around it, as the term has delimiters.
func (env *astEnv) listsOf(term parser.Term, n parser.Node) bool {
	levels := []map[string]bool{{}} // the names on the way to each delimiter
	for term != nil {
		names := levels[len(levels)-1]
		switch t := term.(type) {
		case parser.CutPoint:
			term = t.Term
		case parser.Named:
			names[t.Name] = true
			term = t.Term
		case parser.ScopedGrammar:
			term, env = t.Term, &astEnv{g: t.Grammar, outer: env}
		case parser.Rule:
			names[string(t)] = true
			term, env = env.lookup(t)
		case parser.Delim:
			if len(names) == 0 {
				names[":"] = true
			}
			levels = append(levels, map[string]bool{})
			term = t.Term
		default:
			term = nil
		}
	}
	levels = levels[:len(levels)-1]
	return len(levels) > 0 && listsWithin(n, levels)
}

// listsWithin tells whether te can be a list of lists of ... by those names.
func listsWithin(te parser.TreeElement, levels []map[string]bool) bool {
	n, _ := te.(parser.Node)
	assoc, list := n.Extra.(parser.Associativity)
	if !list || len(levels) == 0 {
		return !list && len(levels) == 0
	}
	kids := append([]parser.TreeElement{}, n.Children...)
	if assoc > 0 { // The last is the operand, the first another list or an operand.
		for i, j := 0, len(kids)-1; i < j; i, j = i+1, j-1 {
			kids[i], kids[j] = kids[j], kids[i]
		}
	}
	if _, empty := kids[0].(parser.Empty); !empty {
		return levels[0][n.Tag] && listsWithin(kids[0], levels[1:])
	}
	return levels[0][n.Tag] && (listsWithin(kids[2], levels[1:]) || assoc != 0 && listsWithin(kids[2], levels))
}

func (x *astExp) walk(env *astEnv, term parser.Term, e parser.TreeElement, pos string) {
	node, _ := e.(parser.Node)
	sub := func(key string) *astExp { return &astExp{kids: map[string][]*astExp{}, key: key} }
	switch t := term.(type) {
	case parser.S, parser.RE:
		s := e.(parser.Scanner)
		x.add("", &astExp{leaf: &s})
	case parser.CutPoint:
		x.walk(env, t.Term, e, pos)
	case parser.Rule:
		body, inner := env.lookup(t)
		k := sub("rule:" + inner.id + ":" + string(t))
		k.walk(inner, body, e, k.key)
		x.add(levelless(string(t)), k)
	case parser.Named:
		k := sub(pos + "=")
		k.walk(env, t.Term, e, k.key)
		x.add(t.Name, k)
	case parser.ScopedGrammar:
		x.walk(&astEnv{g: t.Grammar, outer: env, id: env.id + "/" + pos}, t.Term, e, pos+"{")
	case parser.Seq:
		for i, c := range node.Children {
			x.walk(env, t[i], c, fmt.Sprintf("%s.%d", pos, i))
		}
	case parser.Oneof:
		i := int(node.Extra.(parser.Choice))
		x.add("@choice", &astExp{extra: fmt.Sprintf("c%d", i)})
		x.walk(env, t[i], node.Children[0], fmt.Sprintf("%s|%d", pos, i))
	case parser.Quant:
		for _, c := range node.Children {
			x.walk(env, t.Term, c, pos+"*")
		}
	case parser.LookAhead:
		x.walk(env, t.Term, node.Children[0], pos+"?=")
	case parser.Delim:
		assoc := node.Extra.(parser.Associativity)
		for i, c := range node.Children {
			if _, empty := c.(parser.Empty); empty {
				which := "@suffix"
				if i == 0 {
					which = "@prefix"
				}
				x.add("@empty", &astExp{extra: "string(" + which + ")"})
				continue
			}
			n, isNode := c.(parser.Node)
			nested := isNode && n.Tag == node.Tag && n.Extra == node.Extra && (assoc > 0 && i == 0 || assoc < 0 && i == len(node.Children)-1) &&
				!env.listsOf(t.Term, n)
			switch {
			case nested:
				k := sub(strings.TrimSuffix(pos, "~") + "~")
				k.walk(env, t, c, k.key)
				x.add(node.Tag, k)
			case i%2 == 0:
				x.walk(env, t.Term, c, pos+":t")
			default:
				x.walk(env, t.Sep, c, pos+":s")
			}
		}
	case parser.REF:
		x.ref(t.Ident, e)
	default:
		panic(fmt.Sprintf("%T", term))
	}
}

// ref adds what a reference matched.
func (x *astExp) ref(name string, e parser.TreeElement) {
	switch e := e.(type) {
	case parser.Scanner:
		x.add(name, &astExp{leaf: &e})
	case parser.Node:
		k := &astExp{kids: map[string][]*astExp{}, key: ""}
		for _, c := range e.Children {
			k.ref(name, c)
		}
		x.add(name, k)
	}
}

// compare checks an AST against what is expected of it and records, per part of
// the grammar, which names hold lists.
func (x *astExp) compare(n ast.Node, path string, plural map[string]bool) error {
	if x.leaf != nil {
		l, ok := n.(ast.Leaf)
		if !ok {
			return fmt.Errorf("%s is a %T instead of the token %q", path, n, x.leaf)
		}
		if s := parser.Scanner(l); s.String() != x.leaf.String() || s.Offset() != x.leaf.Offset() {
			return fmt.Errorf("%s is %q at %d instead of the token %q at %d", path, s.String(), s.Offset(), x.leaf.String(), x.leaf.Offset())
		}
		return nil
	}
	if x.extra != "" {
		if got := canonAST(n, true); got != x.extra {
			return fmt.Errorf("%s is %s instead of %s", path, got, x.extra)
		}
		return nil
	}
	b, ok := n.(ast.Branch)
	if !ok {
		return fmt.Errorf("%s is a %T instead of a branch", path, n)
	}
	var names []string
	for name := range b {
		names = append(names, name)
		if _, has := x.kids[name]; !has {
			return fmt.Errorf("%s has an unexpected %q: %s", path, name, canonAST(b, true))
		}
	}
	for name := range x.kids {
		if _, has := b[name]; !has {
			return fmt.Errorf("%s lacks %q: %s", path, name, canonAST(b, true))
		}
	}
	sort.Strings(names)
	for _, name := range names {
		want := x.kids[name]
		var got []ast.Node
		many := false
		switch c := b[name].(type) {
		case ast.One:
			got = []ast.Node{c.Node}
		case ast.Many:
			got, many = c, true
		}
		if x.key != "" {
			k := x.key + " " + name
			if was, has := plural[k]; has && was != many {
				return fmt.Errorf("%s.%s is now a list, now a single node", path, name)
			}
			plural[k] = many
		}
		if len(got) != len(want) {
			return fmt.Errorf("%s.%s holds %d nodes instead of %d: %s", path, name, len(got), len(want), canonAST(b, true))
		}
		for i := range want {
			if err := want[i].compare(got[i], fmt.Sprintf("%s.%s[%d]", path, name, i), plural); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	knownProbes["ast-panics"] = func(args map[string]string) bool {
		return catch(func() {
			p := wbnf.MustCompile(args["grammar"], nil)
			if te, err := p.Parse(parser.Rule(args["rule"]), parser.NewScanner(args["input"])); err == nil {
				ast.FromParserNode(p.Grammar(), te)
			}
		}) != nil
	}
	opts := []GenOpts{
		{Rules: 3, Depth: 3, AST: true},
		{Rules: 4, Depth: 5, AST: true},
		{Rules: 5, Depth: 4, AST: true, Scoped: true},
		{Rules: 3, Depth: 4, AST: true, Refs: true},
		{Rules: 6, Depth: 2, AST: true, Wrap: true},
		{Rules: 4, Depth: 3, AST: true, Refs: true, Scoped: true, Tokens: []string{"a", "b", "é", "+"}},
	}
	register(&Check{
		ID: "C14",
		Rule: "random grammars over all constructs (names and rules used several times, under quantifiers, in choices, delimiters of all associativities, in one another, also as lists of lists through rules, names and scopes, with optional ends, stacks, scoped grammars, lookaheads, back references) and inputs they match; the AST of each tree is compared, node by node, with what a walk of the tree along the grammar's terms says it holds: names, order, tokens with offsets, choices; the number of tokens is that of the tree; " +
			"and for each part of the grammar, whether a name holds one node or a list is the same for all inputs. Distinct by (grammar, tree).",
		Cases: map[string]int{"quick": 7000, "thorough": 250000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			g, rules := genGrammar(c.Rand, o)
			if c.Index%6 == 5 {
				g, rules = genListGrammar(c.Rand)
			}
			text := printGrammar(g)
			c.Note("grammar", text)
			p, _, ok := build(c, g, text)
			if !ok {
				return
			}
			pg := p.Grammar()
			plural := map[string]bool{}
			ref := newRef(g)
			for k := 0; k < 8; k++ {
				rule := rules[0]
				if c.IntN(3) == 0 {
					rule = rules[c.IntN(len(rules))]
				}
				input := genInputs(c.Rand, g, rule, o, 1)[0]
				c.Note("rule", rule)
				c.Note("input", input)
				if ref.Parse(rule, input).Budget {
					continue
				}
				got, fine := runParse(c, p, rule, input)
				if !fine {
					return
				}
				if !got.OK {
					continue
				}
				var a ast.Branch
				if !c.Try("FromParserNode", func() { a = ast.FromParserNode(pg, got.Element) }) {
					return
				}
				c.Eval()
				want := expectAST(pg, got.Element)
				if err := want.compare(a, "AST", plural); err != nil {
					c.Fail("%v\ntree %s\nAST  %s", err, got.Tree, canonAST(a, true))
					return
				}
				leaves := len(astLeaves(a))
				c.Stat("tokens found in ASTs", leaves)
				if n := len(got.Tree.Leaves()); n != leaves {
					c.Fail("the tree has %d tokens, the AST %d", n, leaves)
					return
				}
				if leaves > 1 {
					c.Distinct(text, rule, got.Tree)
				}
				c.Max("tokens of an AST", leaves)
			}
			for _, many := range plural {
				if many {
					c.Stat("names that hold lists", 1)
				} else {
					c.Stat("names that hold one node", 1)
				}
			}
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"text": text})
			}
		},
	})
}
