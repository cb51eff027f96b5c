package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// lineCol computes a 1-indexed line and column (in bytes) by counting.
func lineCol(s string, at int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < at; i++ {
		col++
		if s[i] == '\n' {
			line++
			col = 1
		}
	}
	return
}

// subject is a parse to be examined.
type subject struct {
	g     parser.Grammar // as written, without cut points
	text  string
	p     parser.Parsers
	mode  buildMode
	rule  parser.Rule
	input string
	want  RefResult
	elem  parser.TreeElement
}

// eachParse makes a grammar by o, parses up to n inputs and hands over the
// parses that the reference and the parser agree to be complete.
func eachParse(c *Case, o GenOpts, n int, f func(s subject)) {
	g, rules := genGrammar(c.Rand, o)
	text := printGrammar(g)
	c.Note("grammar", text)
	p, mode, ok := build(c, g, text)
	if !ok {
		return
	}
	ref := newRef(g)
	for k := 0; k < n; k++ {
		rule := rules[0]
		if c.IntN(4) == 0 {
			rule = rules[c.IntN(len(rules))]
		}
		input := genInputs(c.Rand, g, rule, o, 1)[0]
		want := ref.Parse(rule, input)
		if want.Budget || !want.OK || want.End == 0 && c.IntN(4) > 0 {
			continue
		}
		input = input[:want.End]
		if want = ref.Parse(rule, input); want.Budget || !want.OK || want.End != len(input) {
			continue
		}
		e, err := p.Parse(rule, parser.NewScanner(input))
		if err != nil {
			continue // C01's business
		}
		c.Note("rule", rule)
		c.Note("input", input)
		f(subject{g, text, p, mode, rule, input, want, e})
		if c.failed {
			return
		}
	}
}

var gapRE = regexp.MustCompile(`^(?:[\s~_]|#[a-z]*#)*$`)

func hasTerm(g parser.Grammar, is func(parser.Term) bool) bool {
	found := false
	for name, t := range g {
		if name != ".wrapRE" {
			walkTerm(t, func(t parser.Term) { found = found || is(t) })
		}
	}
	return found
}

func hasWrap(g parser.Grammar) bool {
	if g[".wrapRE"] != nil {
		return true
	}
	return hasTerm(g, func(t parser.Term) bool {
		s, ok := t.(parser.ScopedGrammar)
		return ok && s.Grammar[".wrapRE"] != nil
	})
}

func init() {
	register(&Check{
		ID: "C04",
		Rule: "random grammars (with and without wrappers and scoped grammars) parse texts through scanners that start at zero or part-way into a larger text with line breaks and multi-byte characters, " +
			"with and without file name; every token of the tree and of its AST is checked against the text, an independent line and column count, the order of tokens and what the wrapper may swallow, and the offsets the reference finds. " +
			"Non-trivial: the tree has two or more tokens; distinct by grammar, text and offset.",
		Cases: map[string]int{"quick": 9000, "thorough": 150000},
		Run: func(c *Case) {
			o := GenOpts{Rules: 4, Depth: 4, Wrap: c.IntN(3) > 0, NoLook: c.IntN(4) > 0, Scoped: c.IntN(3) == 0, Refs: c.IntN(4) == 0,
				Tokens: []string{"a", "b", "ab", "é", "\n", "+", ",", "(", "日本", "a\nb", ";", "\r", "\r\n", "\t", "\u2028"}, NoRE: c.IntN(3) == 0, AST: true}
			groups := c.IntN(4) == 0 // of regexps may leave out some of what they match
			if !groups {
				o.Regexps = plainRegexps()
			}
			eachParse(c, o, 10, func(s subject) {
				prefix, file := "", ""
				if c.IntN(2) == 0 {
					prefix = []string{"x\ny ", "\n", "é\n\n日 ", "ab", "line one\nline two\nab", "(((\n", "a\r\nb\rc", "\t\f\v", "\u2028\u0085x"}[c.IntN(9)]
					if c.IntN(40) == 0 {
						prefix = strings.Repeat(prefix, 1+c.IntN(70000)/len(prefix))
					}
				}
				full := prefix + s.input
				var sc *parser.Scanner
				how := "plain"
				switch c.IntN(4) {
				case 0:
					sc = parser.NewScannerAt(full, len(prefix), len(s.input))
					how = "at"
				case 1:
					file = "dir/some file.txt"
					sc = parser.NewScannerWithFilename(full, file).Skip(len(prefix))
					how = "file, skipped"
				case 2:
					full += "\ntail ab"
					sc = parser.NewScanner(full).Slice(len(prefix), len(prefix)+len(s.input))
					how = "sliced"
				default:
					sc = parser.NewScanner(full)
					var eaten parser.Scanner
					if !sc.EatString(prefix, &eaten) {
						c.Fail("EatString")
						return
					}
				}
				c.Note("scanner", how)
				c.Note("text", full)
				e, err := s.p.Parse(s.rule, sc)
				if err != nil {
					c.Fail("parses by itself but not at offset %d of %q: %v", len(prefix), full, err)
					return
				}
				c.Eval()
				c.Stat("scanner: "+how, 1)
				look := hasTerm(s.g, func(t parser.Term) bool { _, is := t.(parser.LookAhead); return is })
				wrap := hasWrap(s.g)
				toks := scanners(e)
				wantToks := s.want.Tree.Leaves()
				if len(toks) != len(wantToks) {
					c.Fail("tree has %d tokens, want %d", len(toks), len(wantToks))
					return
				}
				end := len(prefix)
				for i, t := range toks {
					off := t.Offset()
					if off < 0 || off+len(t.String()) > len(full) || full[off:off+len(t.String())] != t.String() {
						c.Fail("token %d, %q, is not what stands at its offset %d of %q", i, t.String(), off, full)
						return
					}
					if off != wantToks[i].Off+len(prefix) || t.String() != wantToks[i].Text {
						c.Fail("token %d is %q at %d, want %q at %d", i, t.String(), off, wantToks[i].Text, wantToks[i].Off+len(prefix))
						return
					}
					line, col := t.Position()
					wl, wc := lineCol(full, off)
					if line != wl || col != wc {
						c.Fail("token %d at offset %d of %q is said to be at %d:%d, is at %d:%d", i, off, full, line, col, wl, wc)
						return
					}
					if t.Filename() != file {
						c.Fail("token %d has file name %q, want %q", i, t.Filename(), file)
						return
					}
					if look || groups {
						continue
					}
					if off < end {
						c.Fail("token %d at %d begins before the end %d of the token before", i, off, end)
						return
					}
					gap := full[end:off]
					if !wrap && gap != "" || wrap && !gapRE.MatchString(gap) {
						c.Fail("%q before token %d is not accounted for", gap, i)
						return
					}
					end = off + len(t.String())
				}
				if !look && !groups {
					gap := full[end : len(prefix)+len(s.input)]
					if !wrap && gap != "" || wrap && !gapRE.MatchString(gap) {
						c.Fail("%q after the last token is not accounted for", gap)
						return
					}
				}
				c.Stat("tokens checked", len(toks))
				// The same tokens in the AST.
				count := map[string]int{}
				for _, t := range toks {
					count[fmt.Sprintf("%d %q", t.Offset(), t.String())]++
				}
				for _, t := range astLeaves(ast.FromParserNode(s.p.Grammar(), e)) {
					count[fmt.Sprintf("%d %q", t.Offset(), t.String())]--
					line, col := t.Position()
					wl, wc := lineCol(full, t.Offset())
					if line != wl || col != wc || t.Filename() != file {
						c.Fail("AST token %q at offset %d is said to be at %s:%d:%d, is at %s:%d:%d", t.String(), t.Offset(), t.Filename(), line, col, file, wl, wc)
						return
					}
				}
				for k, n := range count {
					if n < 0 {
						c.Fail("the AST has a token the tree has not: %s", k)
						return
					}
				}
				if len(toks) >= 2 {
					c.Distinct(s.text, full, len(prefix))
					c.Sample(map[string]any{"grammar": s.text, "text": full, "start": len(prefix), "tokens": strings.Join(strings.Fields(fmt.Sprintf("%q", toks)), " ")})
				}
			})
		},
	})
}
