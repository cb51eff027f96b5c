package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// tryTerminal is a terminal that the reference tried, and where.
type tryTerminal struct {
	term parser.Term
	pos  int
}

func init() {
	register(&Check{
		ID: "C06",
		Rule: "random grammars parse derived, mutated and random inputs, starting at any offset of a source with or without file name; the kind of result (tree, unconsumed input, failure), the prefix tree, residue, offset, line and column are compared to the reference's, " +
			"and every error is rendered twice and again after a second parse: the texts must be equal and name the residue with its position, or the terminal at which the reference finds the parse to be stuck together with the text found there. " +
			"Non-trivial: the parse ended in an error; distinct by grammar, rule and input.",
		Cases:      map[string]int{"quick": 9000, "thorough": 150000},
		CPUSeconds: 60,
		Run: func(c *Case) {
			o := pickOpts(c, coreOpts)
			o.Refs = c.IntN(4) == 0
			o.Wrap = c.IntN(4) == 0
			o.Scoped = c.IntN(4) == 0
			g, rules := genGrammar(c.Rand, o)
			text := printGrammar(g)
			c.Note("grammar", text)
			p, mode, ok := build(c, g, text)
			if !ok {
				return
			}
			ref := newRef(g)
			cost := 0
			var last tryTerminal
			ref.onTry = func(t parser.Term, pos int) {
				// Rendering takes time in proportion to the depth of each failed attempt, squared.
				if cost += ref.depth * ref.depth; cost > 1500000 {
					panic(budgetExceeded{})
				}
				switch t.(type) {
				case parser.S, parser.RE, parser.REF:
					last = tryTerminal{t, pos}
				}
			}
			for k := 0; k < 8; k++ {
				rule := rules[c.IntN(len(rules))]
				input := genInputs(c.Rand, g, rule, o, 1)[0]
				switch c.IntN(4) {
				case 0:
					input += []string{"?", "\n?", "a", "\n\n"}[c.IntN(4)]
				case 1:
					input = mutate(c.Rand, input, defaultTokens)
				}
				cost = 0
				want := ref.Parse(rule, input)
				if want.Budget {
					c.Stat("too expensive to judge", 1)
					continue
				}
				prefix, file := []string{"", "", "a\nb", "\n", "é,"}[c.IntN(5)], ""
				if c.IntN(2) == 0 {
					file = "some/file.x"
				}
				full := prefix + input
				scan := func() *parser.Scanner { return parser.NewScannerWithFilename(full, file).Skip(len(prefix)) }
				c.Note("rule", rule)
				c.Note("input", input)
				c.Note("prefix", prefix)
				e, err := p.Parse(rule, scan())
				c.Eval()
				if (e == nil) == (err == nil) {
					c.Fail("tree %v and error %v", e, err)
					return
				}
				cut := mode == fromTextCut
				switch err := err.(type) {
				case nil:
					if !want.OK || want.End != len(input) {
						c.Fail("complete parse reported; expected %s", describe(want.OK, want.End, input))
						return
					}
					c.Stat("trees", 1)
					continue
				case parser.UnconsumedInputError:
					c.Stat("unconsumed input", 1)
					if !want.OK || want.End == len(input) {
						c.Fail("unconsumed input %q reported; expected %s", err.Residue(), describe(want.OK, want.End, input))
						return
					}
					res := err.Residue()
					if res.String() != input[want.End:] || res.Offset() != len(prefix)+want.End || res.Filename() != file {
						c.Fail("residue %q at %s:%d, want %q at %s:%d", res, res.Filename(), res.Offset(), input[want.End:], file, len(prefix)+want.End)
						return
					}
					if err.Result() == nil {
						c.Fail("unconsumed input without a tree")
						return
					}
					got := fromElement(err.Result())
					got.Walk(func(t *Tree) {
						if t.Leaf {
							t.Off -= len(prefix)
						}
					})
					if w, g := want.Tree.String(), got.String(); w != g {
						c.Fail("prefix tree\n      %s\n want %s", g, w)
						return
					}
					line, col := lineCol(full, len(prefix)+want.End)
					msg := err.Error()
					if pos := fmt.Sprintf("%s:%d:%d", file, line, col); !strings.Contains(msg, pos) {
						c.Fail("the message does not say %s:\n%s", pos, msg)
						return
					}
					if !strings.Contains(msg, input[want.End:]) {
						c.Fail("the message does not show the residue:\n%s", msg)
						return
					}
				default:
					c.Stat("failures", 1)
					if want.OK && !cut {
						c.Fail("failure reported; expected %s: %v", describe(want.OK, want.End, input), clip(err.Error(), 2000))
						return
					}
					if want.OK && want.End == len(input) && !hasRE(g) {
						return // C13's and C01's business
					}
					if want.Steps > 3000 && len(input) > 150 {
						// Messages grow with the cube of the depth.
						c.Stat("failures whose message is too long to render", 1)
						return
					}
					msg := err.Error()
					if strings.TrimSpace(msg) == "" {
						c.Fail("empty message for %T", err)
						return
					}
					if !cut {
						checkBlame(c, msg, last, input)
					}
				}
				c.Distinct(text, rule, input)
				m1, m2 := err.Error(), err.Error()
				c.Max("message length", len(m1))
				if m1 != m2 {
					c.Fail("two renderings of one error differ:\n%s\n%s", clip(m1, 1500), clip(m2, 1500))
					return
				}
				_, err2 := p.Parse(rule, scan())
				if err2 == nil || err2.Error() != m1 {
					c.Fail("a second parse ended differently:\n%s\n%v", clip(m1, 1500), err2)
					return
				}
				c.Sample(map[string]any{"grammar": text, "input": input, "message": clip(m1, 400)})
				if c.failed {
					return
				}
			}
		},
	})
}

// checkBlame looks for the terminal at which the parse got stuck, which is the
// last one that the reference tried.
func checkBlame(c *Case, msg string, last tryTerminal, input string) {
	expect := ""
	switch t := last.term.(type) {
	case parser.S:
		expect = fmt.Sprintf("%q", string(t))
	case parser.RE:
		expect = string(t)
	default:
		return
	}
	if !strings.Contains(msg, expect) {
		c.Fail("the message does not say that %s was expected:\n%s", expect, msg)
		return
	}
	found := strings.TrimSpace(input[last.pos:])
	if i := strings.IndexByte(found, '\n'); i >= 0 {
		found = found[:i]
	}
	if len(found) > 30 {
		found = found[:30]
	}
	c.Stat("blame checked", 1)
	if !strings.Contains(msg, found) {
		c.Fail("the message does not show what was found instead of %s, %q:\n%s", expect, found, msg)
	}
}
