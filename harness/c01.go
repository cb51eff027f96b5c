package main

import (
	"fmt"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// outcome is what a parse reported, in terms comparable to the reference.
type outcome struct {
	OK      bool // a prefix (or all) of the input was matched
	End     int
	Tree    *Tree
	Err     error
	Element parser.TreeElement
}

// runParse parses and classifies the result. It fails the case where the
// result is not of one of the allowed kinds.
func runParse(c *Case, p parser.Parsers, rule parser.Rule, input string) (o outcome, fine bool) {
	sc := parser.NewScanner(input)
	e, err := p.Parse(rule, sc)
	o.Err = err
	switch err := err.(type) {
	case nil:
		if e == nil {
			c.Fail("parse returned neither a tree nor an error")
			return o, false
		}
		o.OK, o.End, o.Element = true, len(input), e
	case parser.UnconsumedInputError:
		if e != nil {
			c.Fail("parse returned both a tree and an error")
			return o, false
		}
		res := err.Residue().String()
		o.OK, o.End, o.Element = true, len(input)-len(res), err.Result()
	default:
		if e != nil {
			c.Fail("parse returned both a tree and an error")
			return o, false
		}
		return o, true
	}
	o.Tree = fromElement(o.Element)
	return o, true
}

// compileText compiles grammar text that ought to be valid.
func compileText(c *Case, text string) (parser.Parsers, bool) {
	p, err := wbnf.Compile(text, nil)
	if err != nil {
		c.Note("grammar", text)
		c.Fail("a valid grammar was rejected: %v", err)
		return p, false
	}
	return p, true
}

var coreOpts = []GenOpts{
	{Rules: 3, Depth: 3, NoRE: true},
	{Rules: 4, Depth: 4},
	{Rules: 5, Depth: 5, NoStack: true},
	{Rules: 2, Depth: 3, Tokens: []string{"a", "b", "ab"}},
	{Rules: 4, Depth: 4, Tokens: []string{"a", "aa", "b", "ba", ","}, NoRE: true},
	{Rules: 6, Depth: 2},
}

// checkAgainstRef compares parses of grammar g by p to the reference.
func checkAgainstRef(c *Case, p parser.Parsers, g parser.Grammar, rules []parser.Rule, o GenOpts, inputs int,
	judge func(rule parser.Rule, input string, want RefResult, got outcome)) {
	ref := newRef(g)
	for k := 0; k < inputs; k++ {
		rule := rules[0]
		if len(rules) > 1 && c.IntN(3) == 0 {
			rule = rules[c.IntN(len(rules))]
		}
		input := genInputs(c.Rand, g, rule, o, 1)[0]
		want := ref.Parse(rule, input)
		if want.Budget {
			c.Stat("skipped: too expensive for the reference", 1)
			continue
		}
		c.Note("rule", rule)
		c.Note("input", input)
		got, fine := runParse(c, p, rule, input)
		if !fine {
			return
		}
		c.Eval()
		judge(rule, input, want, got)
		if c.failed {
			return
		}
		switch {
		case want.OK && want.End == len(input):
			c.Stat("accepted", 1)
		case want.OK:
			c.Stat("matched a prefix", 1)
		default:
			c.Stat("rejected", 1)
		}
		c.Max("input length", len(input))
	}
	for k, n := range ref.kinds {
		c.Stat("reference: "+k, n)
	}
}

func pickOpts(c *Case, all []GenOpts) GenOpts { return all[c.IntN(len(all))] }

func init() {
	register(&Check{
		ID: "C01",
		Rule: "random grammars without left recursion (as term algebra and as text) are parsed over derived, mutated and random inputs; " +
			"acceptance and the length matched are compared to an independent reference interpreter of the same terms. " +
			"A case is non-trivial if the input is non-empty and the rule matched at least part of it or the reference consumed at least one character before rejecting; distinct by grammar, rule and input.",
		Cases: map[string]int{"quick": 12000, "thorough": 200000},
		Run: func(c *Case) {
			o := pickOpts(c, coreOpts)
			g, rules := genGrammar(c.Rand, o)
			text := printGrammar(g)
			c.Note("grammar", text)
			p, mode, ok := build(c, g, text)
			if !ok {
				return
			}
			re := hasRE(g)
			c.Sample(map[string]any{"grammar": text, "rule": rules[0], "inputs": genInputs(caseRand("s", 1, c.Index), g, rules[0], o, 3)})
			checkAgainstRef(c, p, g, rules, o, 12, func(rule parser.Rule, input string, want RefResult, got outcome) {
				if !mustAgree(mode, re, want, got, len(input)) {
					c.Stat("not comparable: cut points", 1)
					return
				}
				if want.OK != got.OK || want.OK && want.End != got.End {
					c.Fail("rule %s on %q: expected %s, got %s (%v)", rule, input, describe(want.OK, want.End, input), describe(got.OK, got.End, input), got.Err)
					return
				}
				if input != "" && (want.OK && want.End > 0 || want.Furthest > 0) {
					c.Distinct(text, rule, input)
				}
			})
		},
	})
	register(&Check{
		ID: "C02",
		Rule: "as C01, comparing the whole tree (tags, choices, associativity, children, tokens with offsets, marks of optional separators) " +
			"of each matched prefix to the tree the reference derives. Non-trivial: the tree has at least two tokens; distinct by grammar, rule and tree.",
		Cases: map[string]int{"quick": 12000, "thorough": 200000},
		Run: func(c *Case) {
			o := pickOpts(c, coreOpts)
			g, rules := genGrammar(c.Rand, o)
			text := printGrammar(g)
			c.Note("grammar", text)
			p, _, ok := build(c, g, text)
			if !ok {
				return
			}
			checkAgainstRef(c, p, g, rules, o, 12, func(rule parser.Rule, input string, want RefResult, got outcome) {
				if !want.OK || !got.OK {
					return // C01's business
				}
				w, t := want.Tree.String(), got.Tree.String()
				if w != t {
					c.Fail("rule %s on %q:\n expected %s\n      got %s", rule, input, w, t)
					return
				}
				c.Stat("trees compared", 1)
				n := len(want.Tree.Leaves())
				c.Max("tokens in a tree", n)
				if n >= 2 {
					c.Distinct(text, rule, w)
					c.Sample(map[string]any{"grammar": text, "rule": rule, "input": input, "tree": w})
				}
			})
		},
	})
}

func describe(ok bool, end int, input string) string {
	if !ok {
		return "no match"
	}
	if end == len(input) {
		return "a match of all"
	}
	return fmt.Sprintf("a match of %q", input[:end])
}
