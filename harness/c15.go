package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// revGen makes grammars whose trees can be told from their ASTs: within the
// body of a rule or name, whatever is optional or repeated has something in it
// that occurs nowhere else in that body.
type revGen struct {
	*rand.Rand
	names  int
	lits   int
	scopes int
	budget int
	big    int // 1: choices, 2: sequences, 3: stacks
}

type revRule struct {
	name parser.Rule
	done bool
}

type revScope struct {
	parent *revScope
	rules  []*revRule
}

// revBody is what was used in the body at hand.
type revBody struct {
	scope *revScope
	used  map[string]bool
	safe  bool // something was consumed before
}

var revUnique = []string{"!", "@", "#", "~", "$", "%", "^", "&", "?", "=", "é", "::", "=>"}
var revLits = []string{"a", "b", "ab", "+", ",", ";", "(", ")", "[", "]", "x"}
var revRegexps = []string{`[ab]`, `[a-c]+`, `\d`, `\d+`, `x|ab`, `\w+`, `(a)b`, `b?`, `[a-c]*`}

func (g *revGen) lit() parser.Term { return parser.S(revLits[g.IntN(len(revLits))]) }

func (g *revGen) unique(b *revBody) parser.Term {
	for try := 0; try < 30; try++ {
		u := revUnique[g.IntN(len(revUnique))]
		if !b.used["="+u] {
			b.used["="+u] = true
			b.safe = true
			return parser.S(u)
		}
	}
	return nil
}

func (g *revGen) named(b *revBody, depth int) parser.Term {
	g.names++
	inner := &revBody{scope: b.scope, used: map[string]bool{}, safe: b.safe}
	t := g.top(inner, depth-1)
	// What came before is unknown to be consumed unless the whole of it surely is.
	if !nullableTerm(t) {
		b.safe = true
	}
	name := fmt.Sprintf("n%d", g.names)
	if g.IntN(3) == 0 { // the same names in different bodies
		if n := genNames[g.IntN(len(genNames))]; !b.used[n] {
			name = n
		}
	}
	b.used[name] = true
	return parser.Named{Name: name, Term: t}
}

// nullableTerm errs on the side of true.
func nullableTerm(t parser.Term) bool {
	switch t := t.(type) {
	case parser.S:
		return t == ""
	case parser.RE:
		return reNullable(string(t))
	case parser.Seq:
		for _, x := range t {
			if !nullableTerm(x) {
				return false
			}
		}
		return true
	case parser.Oneof:
		for _, x := range t {
			if nullableTerm(x) {
				return true
			}
		}
		return false
	case parser.Named:
		return nullableTerm(t.Term)
	case parser.Quant:
		return t.Min == 0 || nullableTerm(t.Term)
	case parser.Delim:
		return nullableTerm(t.Term)
	}
	return true
}

// rule refers to a rule not yet referred to in the body.
func (g *revGen) rule(b *revBody) parser.Term {
	var all []*revRule
	seen := map[parser.Rule]bool{}
	for s := b.scope; s != nil; s = s.parent {
		for _, r := range s.rules {
			if !seen[r.name] && !b.used[string(r.name)] && (r.done || b.safe) {
				all = append(all, r)
			}
			seen[r.name] = true
		}
	}
	if len(all) == 0 {
		return nil
	}
	r := all[g.IntN(len(all))]
	b.used[string(r.name)] = true
	return r.name
}

// selfID makes a term that can be told to be there or not.
func (g *revGen) selfID(b *revBody, depth int) parser.Term {
	g.budget--
	for {
		var t parser.Term
		switch k := g.IntN(10); {
		case depth <= 0 || g.budget < 0 || k < 2:
			if t = g.unique(b); t == nil {
				g.names++
				t = parser.Named{Name: fmt.Sprintf("n%d", g.names), Term: g.lit()}
			}
		case k < 5:
			t = g.rule(b)
		case k < 7:
			t = g.named(b, depth)
		case k < 9:
			var seq parser.Seq
			n := 1 + g.IntN(3)
			at := g.IntN(n + 1)
			for i := 0; i <= n; i++ {
				if i == at {
					seq = append(seq, g.selfID(b, depth-1))
				} else {
					seq = append(seq, g.plain(b, depth-1))
				}
			}
			t = seq
		default:
			var alts parser.Oneof
			safe := b.safe
			for i, n := 0, 2+g.IntN(2); i < n; i++ {
				b.safe = safe
				alts = append(alts, g.selfID(b, depth-1))
			}
			b.safe = safe
			t = alts
		}
		if t != nil {
			return t
		}
	}
}

// plain makes a term with nothing optional or repeated but in names.
func (g *revGen) plain(b *revBody, depth int) parser.Term {
	g.budget--
	switch k := g.IntN(12); {
	case depth <= 0 || g.budget < 0 || k < 3:
		b.safe = true
		return g.lit()
	case k < 5:
		re := revRegexps[g.IntN(len(revRegexps))]
		b.safe = b.safe || !reNullable(re)
		return parser.RE(re)
	case k < 8:
		return g.selfID(b, depth)
	case k < 9:
		var seq parser.Seq
		for i, n := 0, 2+g.IntN(2); i < n; i++ {
			seq = append(seq, g.plain(b, depth-1))
		}
		if g.big == 2 {
			for i := 5 + g.IntN(120); i > 0; i-- {
				seq = append(seq, g.lit())
			}
			b.safe = true
		}
		return seq
	case k < 11:
		var alts parser.Oneof
		safe := b.safe
		for i, n := 0, 2+g.IntN(2); i < n; i++ {
			b.safe = safe
			alts = append(alts, g.plain(b, depth-1))
		}
		b.safe = safe
		if g.big == 1 {
			var many parser.Oneof
			for i, n := 0, 10+g.IntN(300); i < n; i++ {
				many = append(many, parser.S(fmt.Sprintf("k%d.", i)))
			}
			if g.IntN(2) == 0 {
				return append(many, alts...)
			}
			return append(alts, many...)
		}
		return alts
	default:
		safe := b.safe
		t := g.plain(b, depth-2)
		b.safe = safe
		return parser.LookAhead{Term: t}
	}
}

// top makes a term of a body that may have optional and repeated parts.
func (g *revGen) top(b *revBody, depth int) parser.Term {
	g.budget--
	switch k := g.IntN(12); {
	case depth <= 0 || g.budget < 0 || k < 2:
		return g.plain(b, depth)
	case k < 5:
		safe := b.safe
		t := g.selfID(b, depth-1)
		b.safe = safe
		for i := g.IntN(5) / 4; i >= 0; i-- {
			if q, ok := t.(parser.Quant); ok && nullableTerm(q.Term) {
				break // which repetition what matched nothing belonged to is lost
			}
			min := g.IntN(3)
			q := parser.Quant{Term: t, Min: min, Max: min + g.IntN(3)}
			switch g.IntN(5) {
			case 0:
				q = parser.Opt(t)
			case 1:
				q = parser.Any(t)
			case 2:
				q = parser.Some(t)
			}
			if q.Min == 0 && q.Max == 0 && g.IntN(2) == 0 {
				q.Max = 2
			}
			t = q
		}
		b.safe = safe || !nullableTerm(t)
		return t
	case k < 7:
		safe := b.safe
		t := g.selfID(b, depth-1)
		b.safe = safe || !nullableTerm(t)
		sep := g.plain(b, depth-2)
		if g.IntN(3) > 0 {
			sep = g.lit()
		}
		b.safe = safe || !nullableTerm(t)
		return parser.Delim{Term: t, Sep: sep}
	case k < 10:
		var seq parser.Seq
		for i, n := 0, 2+g.IntN(3); i < n; i++ {
			seq = append(seq, g.top(b, depth-1))
		}
		return seq
	case k < 11:
		var alts parser.Oneof
		safe := b.safe
		for i, n := 0, 2+g.IntN(2); i < n; i++ {
			b.safe = safe
			alts = append(alts, g.top(b, depth-1))
		}
		b.safe = safe
		return alts
	default:
		if g.scopes >= 2 {
			return g.plain(b, depth)
		}
		g.scopes++
		inner := &revScope{parent: b.scope}
		n := 1 + g.IntN(2)
		for i := 0; i < n; i++ {
			name := parser.Rule(fmt.Sprintf("s%d_%d", g.scopes, i))
			if g.IntN(3) == 0 { // shadows another, unless the body uses that
				if r := genRuleNames[g.IntN(len(genRuleNames))]; !b.used[r] {
					name = parser.Rule(r)
				}
			}
			if i > 0 && inner.rules[0].name == name {
				continue
			}
			inner.rules = append(inner.rules, &revRule{name: name})
		}
		gr := g.grammar(inner, depth-1)
		for name, t := range gr {
			if _, bare := aliasOf(t); bare {
				gr[name] = parser.Seq{t, g.lit()}
			}
		}
		outer := b.scope
		b.scope = inner
		t := g.top(b, depth-1)
		b.scope = outer
		return parser.ScopedGrammar{Term: t, Grammar: gr}
	}
}

func (g *revGen) grammar(scope *revScope, depth int) parser.Grammar {
	gr := parser.Grammar{}
	for i := len(scope.rules) - 1; i >= 0; i-- {
		r := scope.rules[i]
		if g.IntN(6) == 0 {
			gr[r.name] = g.stack(scope)
		} else {
			gr[r.name] = g.top(&revBody{scope: scope, used: map[string]bool{}}, depth)
		}
		r.done = true
	}
	return gr
}

func (g *revGen) stack(scope *revScope) parser.Term {
	var out parser.Stack
	n := 2 + g.IntN(2)
	unique := append([]string{}, revUnique...)
	g.Shuffle(len(unique), func(i, j int) { unique[i], unique[j] = unique[j], unique[i] })
	if g.big == 3 {
		n = 8 + g.IntN(8)
		for i := 0; i < 2*n; i++ {
			unique = append(unique, fmt.Sprintf("<%d>", i))
		}
	}
	for i := 0; i < n-1; i++ {
		sep := parser.Term(parser.S(unique[i]))
		if g.IntN(3) == 0 {
			sep = parser.Oneof{sep, parser.S(unique[n+i])}
		}
		if g.IntN(3) == 0 {
			sep = parser.Named{Name: "op", Term: sep}
		}
		switch g.IntN(4) {
		case 0, 1:
			out = append(out, parser.Delim{Term: parser.At, Sep: sep})
		case 2:
			out = append(out, parser.Seq{parser.At, parser.Opt(parser.Seq{sep, parser.At})})
		case 3:
			out = append(out, parser.Seq{parser.Any(sep), parser.At})
		}
	}
	return append(out, parser.Oneof{parser.Seq{parser.S("("), parser.At, parser.S(")")}, parser.RE(`\d+`), parser.RE(`[a-c]+`)})
}

func init() {
	register(&Check{
		ID:    "C15",
		Rule:  "random grammars in which whatever is optional or repeated in the body of a rule or name has something in it (a name, a rule or a literal) that occurs nowhere else in that body - over literals, regexps, sequences, choices, repetitions with bounds and nested ones, flat delimiters, stacks, lookaheads, scoped grammars with shadowing, wrappers - and inputs they match, as well as the grammar of grammars over random grammar texts; the tree made from the AST of each tree equals the tree (tags, choices, structure, tokens with offsets), its AST equals the first, which is as before. Distinct by (grammar, tree).",
		Cases: map[string]int{"quick": 7000, "thorough": 250000},
		Run: func(c *Case) {
			if c.IntN(12) == 0 {
				g, _ := genGrammar(c.Rand, GenOpts{Rules: 4, Depth: 4, Refs: true, Scoped: true})
				text := printFancy(c.Rand, g)
				c.Note("input", text)
				e, err := wbnf.Core().Parse("grammar", parser.NewScanner(text))
				if err != nil {
					c.Fail("a valid grammar was rejected: %v", err)
					return
				}
				roundTrip(c, wbnf.Core().Grammar(), e, "wbnf")
				c.Stat("trees of grammars", 1)
				return
			}
			g := &revGen{Rand: c.Rand, budget: 50}
			if c.IntN(15) == 0 {
				g.big = 1 + c.IntN(3)
				c.Stat("big grammars", 1)
			}
			scope := &revScope{}
			for _, i := range c.Perm(len(genRuleNames))[:1+c.IntN(4)] {
				scope.rules = append(scope.rules, &revRule{name: parser.Rule(genRuleNames[i])})
			}
			gr := g.grammar(scope, 3+c.IntN(3))
			if c.IntN(4) == 0 {
				gr[".wrapRE"] = parser.RE(`\s*()\s*`)
			}
			text := printGrammar(gr)
			c.Note("grammar", text)
			p, _, ok := build(c, gr, text)
			if !ok {
				return
			}
			ref := newRef(gr)
			for k := 0; k < 8; k++ {
				rule := scope.rules[0].name
				if c.IntN(3) == 0 {
					rule = scope.rules[c.IntN(len(scope.rules))].name
				}
				input := genInputs(c.Rand, gr, rule, GenOpts{}, 1)[0]
				if ref.Parse(rule, input).Budget {
					continue
				}
				c.Note("rule", rule)
				c.Note("input", input)
				got, fine := runParse(c, p, rule, input)
				if !fine {
					return
				}
				if !got.OK {
					continue
				}
				if !roundTrip(c, p.Grammar(), got.Element, text) {
					return
				}
			}
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"grammar": text})
			}
		},
	})
}

func roundTrip(c *Case, g parser.Grammar, e parser.TreeElement, key string) bool {
	if _, ok := e.(parser.Node); !ok {
		return true
	}
	want := fromElement(e)
	var a, again ast.Branch
	var back parser.TreeElement
	if !c.Try("FromParserNode", func() { a = ast.FromParserNode(g, e) }) {
		return false
	}
	before := canonAST(a, true)
	c.Note("ast", before)
	c.Note("tree", want.String())
	if !c.Try("ToParserNode", func() { back = ast.ToParserNode(g, a) }) {
		return false
	}
	c.Eval()
	if got := fromElement(back); got.String() != want.String() {
		c.Fail("the tree\n  %s\nturned into\n  %s\nby way of the AST\n  %s", want, got, before)
		return false
	}
	if after := canonAST(a, true); after != before {
		c.Fail("ToParserNode changed the AST\n  %s\ninto\n  %s", before, after)
		return false
	}
	if !c.Try("FromParserNode", func() { again = ast.FromParserNode(g, back) }) {
		return false
	}
	if s := canonAST(again, true); s != before {
		c.Fail("the AST of the tree made from an AST\n  %s\nis\n  %s", before, s)
		return false
	}
	if n := len(want.Leaves()); n > 1 {
		c.Distinct(key, want)
		c.Stat("tokens in trees made from ASTs", n)
		c.Max("tokens of a tree", n)
	}
	return true
}
