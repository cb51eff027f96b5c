package main

import (
	"math/rand/v2"

	"github.com/arr-ai/wbnf/parser"
)

// listMaker makes grammars of lists, the items of which are lists too, spelled
// in all the ways a term may amount to another.
type listMaker struct {
	*rand.Rand
	g     parser.Grammar
	seps  []string
	names int
	depth int
}

// genListGrammar returns a grammar with up to three lists, one in the other.
func genListGrammar(r *rand.Rand) (parser.Grammar, []parser.Rule) {
	m := &listMaker{Rand: r, g: parser.Grammar{}, seps: []string{",", ";", "/", "+"}}
	r.Shuffle(len(m.seps), func(i, j int) { m.seps[i], m.seps[j] = m.seps[j], m.seps[i] })
	m.g["b"] = []parser.Term{parser.S("x"), parser.Oneof{parser.S("x"), parser.S("y")}, parser.RE("[xy]")}[r.IntN(3)]
	m.depth = 1 + r.IntN(3)
	if r.IntN(3) == 0 {
		m.depth = 2
	}
	assoc := parser.Associativity(r.IntN(3) - 1)
	list := m.list(m.depth, assoc)
	switch r.IntN(4) {
	case 0:
		m.g["a"] = list
	case 1:
		m.g["a"] = parser.Oneof{parser.Seq{parser.S("<"), list}, parser.Rule("b")}
	default:
		m.g["a"] = parser.Seq{parser.S("<"), m.around(list), parser.S(">")}
	}
	return m.g, []parser.Rule{"a"}
}

func (m *listMaker) list(depth int, assoc parser.Associativity) parser.Term {
	if m.IntN(6) == 0 {
		assoc = parser.Associativity(m.IntN(3) - 1)
	}
	d := parser.Delim{Assoc: assoc, Sep: parser.S(m.seps[depth])}
	switch m.IntN(6) {
	case 0:
		d.Sep = parser.Named{Name: "op", Term: d.Sep}
	case 1:
		d.Sep = parser.Oneof{d.Sep, parser.S("-" + m.seps[depth])}
	}
	// See known-findings.json about three.
	if m.depth < 3 || depth == 3 {
		d.CanStartWithSep = m.IntN(3) == 0
		d.CanEndWithSep = m.IntN(3) == 0
	}
	if depth > 1 {
		d.Term = m.around(m.list(depth-1, assoc))
		return d
	}
	switch m.IntN(6) {
	case 0:
		d.Term = parser.S("x")
	case 1:
		d.Term = parser.Seq{parser.Rule("b"), parser.S("!")}
	case 2:
		d.Term = parser.Named{Name: "n", Term: parser.Rule("b")}
	case 3:
		d.Term = parser.Oneof{parser.S("z"), parser.Seq{parser.S("("), parser.Rule("a"), parser.S(")")}}
	default:
		d.Term = parser.Rule("b")
	}
	return d
}

// around returns a term that amounts to the list t.
func (m *listMaker) around(t parser.Term) parser.Term {
	switch m.IntN(10) {
	case 0:
		return parser.Named{Name: []string{"m", "n"}[m.IntN(2)], Term: t}
	case 1: // A rule.
		m.names++
		r := parser.Rule([]string{"l", "ll", "lll", "llll"}[m.names-1])
		m.g[r] = t
		return r
	case 2: // A scope that has nothing to do with it.
		return parser.ScopedGrammar{Term: t, Grammar: parser.Grammar{"s": parser.S("q")}}
	case 3: // A scope that redefines the items.
		return parser.ScopedGrammar{Term: t, Grammar: parser.Grammar{"b": parser.Oneof{parser.S("y"), parser.Seq{parser.S("x"), parser.S("x")}}}}
	case 4, 5: // A rule of a scope, which may be named like one outside.
		r := parser.Rule([]string{"s", "l", "a", "t"}[m.IntN(4)])
		if usesRule(t, r) {
			m.names++
			r = parser.Rule([]string{"r", "rr", "rrr", "rrrr"}[m.names-1])
		}
		inner := parser.Grammar{r: t}
		if m.IntN(3) == 0 {
			inner = parser.Grammar{r: parser.Seq{parser.S("?"), parser.S("?")}, "u": t}
			r = "u"
			if m.IntN(2) == 0 { // which rules of the scope use
				inner["u"], inner["v"] = parser.Rule("v"), t
			}
		}
		return parser.ScopedGrammar{Term: r, Grammar: inner}
	case 6:
		m.names++
		r := parser.Rule([]string{"l", "ll", "lll", "llll"}[m.names-1])
		m.g[r] = parser.Named{Name: "k", Term: t}
		return r
	}
	return t
}

func usesRule(t parser.Term, r parser.Rule) bool {
	used := false
	walkTerm(t, func(t parser.Term) {
		if t == r {
			used = true
		}
	})
	return used
}
