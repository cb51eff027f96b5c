package main

import (
	"github.com/arr-ai/wbnf/parser"
)

// stripCuts returns a copy of a grammar without cut points.
func stripCuts(g parser.Grammar) parser.Grammar {
	out := parser.Grammar{}
	for r, t := range g {
		out[r] = stripCutsTerm(t)
	}
	return out
}

func mapTerms(ts []parser.Term, f func(parser.Term) parser.Term) []parser.Term {
	out := make([]parser.Term, len(ts))
	for i, t := range ts {
		out[i] = f(t)
	}
	return out
}

func stripCutsTerm(t parser.Term) parser.Term {
	switch t := t.(type) {
	case parser.CutPoint:
		return stripCutsTerm(t.Term)
	case parser.Seq:
		return parser.Seq(mapTerms(t, stripCutsTerm))
	case parser.Oneof:
		return parser.Oneof(mapTerms(t, stripCutsTerm))
	case parser.Stack:
		return parser.Stack(mapTerms(t, stripCutsTerm))
	case parser.Delim:
		t.Term, t.Sep = stripCutsTerm(t.Term), stripCutsTerm(t.Sep)
		return t
	case parser.Quant:
		t.Term = stripCutsTerm(t.Term)
		return t
	case parser.Named:
		t.Term = stripCutsTerm(t.Term)
		return t
	case parser.LookAhead:
		t.Term = stripCutsTerm(t.Term)
		return t
	case parser.ScopedGrammar:
		t.Term, t.Grammar = stripCutsTerm(t.Term), stripCuts(t.Grammar)
		return t
	}
	return t
}

// hasRE tells whether a grammar contains regexps other than its wrappers.
func hasRE(g parser.Grammar) bool {
	found := false
	for name, t := range g {
		if name == ".wrapRE" {
			continue
		}
		walkTerm(t, func(t parser.Term) {
			if _, ok := t.(parser.RE); ok {
				found = true
			}
		})
	}
	return found
}

// walkTerm visits a term and all terms in it, including those of scoped grammars.
func walkTerm(t parser.Term, f func(parser.Term)) {
	if t == nil {
		return
	}
	f(t)
	switch t := t.(type) {
	case parser.CutPoint:
		walkTerm(t.Term, f)
	case parser.Seq:
		for _, x := range t {
			walkTerm(x, f)
		}
	case parser.Oneof:
		for _, x := range t {
			walkTerm(x, f)
		}
	case parser.Stack:
		for _, x := range t {
			walkTerm(x, f)
		}
	case parser.Delim:
		walkTerm(t.Term, f)
		walkTerm(t.Sep, f)
	case parser.Quant:
		walkTerm(t.Term, f)
	case parser.Named:
		walkTerm(t.Term, f)
	case parser.LookAhead:
		walkTerm(t.Term, f)
	case parser.ScopedGrammar:
		walkTerm(t.Term, f)
		for name, x := range t.Grammar {
			if name != ".wrapRE" {
				walkTerm(x, f)
			}
		}
	}
}

// buildMode is how the parsers under test came about, and so what may be
// expected of them.
type buildMode int

const (
	fromTerms   buildMode = iota // no cut points
	fromText                     // compiled text without the cut points
	fromTextCut                  // compiled text as it is
)

// build makes parsers for g in a mode chosen at random.
func build(c *Case, g parser.Grammar, text string) (parser.Parsers, buildMode, bool) {
	switch m := buildMode(c.IntN(3)); m {
	case fromTerms:
		c.Stat("grammars compiled from terms", 1)
		return g.Compile(nil), m, true
	default:
		p, ok := compileText(c, text)
		if !ok {
			return p, m, false
		}
		if m == fromText {
			c.Stat("grammars compiled from text, cut points removed", 1)
			return stripCuts(p.Grammar()).Compile(nil), m, true
		}
		c.Stat("grammars compiled from text", 1)
		return p, m, true
	}
}

// comparable tells whether an outcome must be the reference's, given that cut
// points may turn matches of a part of the input into failures and, where
// regexps are involved, are a heuristic.
func mustAgree(m buildMode, re bool, want RefResult, got outcome, n int) bool {
	if m != fromTextCut {
		return true
	}
	if got.OK {
		return true
	}
	return !re && want.OK && want.End == n
}
