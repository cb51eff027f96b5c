package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/arr-ai/wbnf/parser"
)

var literalRunes = []rune("aabbABZ019_- .*+?()[]{}|^$\\/\"'`#~:;,<>=%&@!\n\t\r\aé日本😀\u0301\u00a0\u007f\u0001‵ßİ")

func genLiteral(r *rand.Rand) string {
	n := 1 + r.IntN(4)
	if r.IntN(30) == 0 {
		n = 20 + r.IntN(60)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(literalRunes[r.IntN(len(literalRunes))])
	}
	return sb.String()
}

// randRegexp makes a regexp and texts that it is likely to match.
type randRegexp struct {
	*rand.Rand
	groups int
}

func (g *randRegexp) make(depth int) (re string, sample func() string) {
	if depth <= 0 {
		return g.atom()
	}
	switch g.IntN(9) {
	case 0, 1:
		return g.atom()
	case 2, 3, 4:
		n := 2 + g.IntN(2)
		var samples []func() string
		for i := 0; i < n; i++ {
			r, s := g.make(depth - 1)
			re += r
			samples = append(samples, s)
		}
		return re, func() string {
			out := ""
			for _, s := range samples {
				out += s()
			}
			return out
		}
	case 5:
		r1, s1 := g.make(depth - 1)
		r2, s2 := g.make(depth - 1)
		return "(?:" + r1 + "|" + r2 + ")", func() string {
			if g.IntN(2) == 0 {
				return s1()
			}
			return s2()
		}
	case 6, 7:
		r, s := g.make(depth - 1)
		q := []string{"*", "+", "?", "{2}", "{1,2}", "{1,}"}[g.IntN(6)]
		if g.IntN(5) == 0 {
			q += "?"
		}
		return "(?:" + r + ")" + q, func() string {
			n := g.IntN(3)
			switch {
			case strings.HasPrefix(q, "{2"):
				n = 2
			case q[0] == '+' || q[0] == '{':
				n = 1 + g.IntN(2)
			case q[0] == '?':
				n = g.IntN(2)
			}
			out := ""
			for i := 0; i < n; i++ {
				out += s()
			}
			return out
		}
	default:
		r, s := g.make(depth - 1)
		g.groups++
		switch g.IntN(6) {
		case 0:
			return fmt.Sprintf("(?P<g%d>%s)", g.groups, r), s
		case 1:
			return "(?i:" + r + ")", func() string {
				if g.IntN(2) == 0 {
					return strings.ToUpper(s())
				}
				return s()
			}
		}
		return "(" + r + ")", s
	}
}

func (g *randRegexp) atom() (string, func() string) {
	one := func(re string, samples ...string) (string, func() string) {
		return re, func() string { return samples[g.IntN(len(samples))] }
	}
	switch g.IntN(14) {
	case 0, 1, 2:
		l := string("abcxAB01"[g.IntN(8)])
		return one(l, l)
	case 3:
		for {
			c := literalRunes[g.IntN(len(literalRunes))]
			if strings.ContainsRune(" \n\t\r\u00a0\a\u0001‵{}", c) {
				continue
			}
			return one(regexp.QuoteMeta(string(c)), string(c))
		}
	case 4:
		return one(`[a-c]`, "a", "b", "c")
	case 5:
		return one(`[^a,]`, "b", "é", "\n", " ")
	case 6:
		return one(`\d`, "0", "9")
	case 7:
		return one(`\w`, "a", "_", "5")
	case 8:
		return one(`.`, "a", "日", " ")
	case 9:
		return one(`\s`, " ", "\n", "\t")
	case 10:
		return one(`(?s:.)`, "\n", "a")
	case 11:
		return one([]string{`\b`, `$`, `^`, `\B`}[g.IntN(4)], "")
	case 12:
		return one(`\pL`, "é", "a", "日")
	default:
		return one(`[\]\[^"x-]`, "]", "[", "^", "x", "-", `"`)
	}
}

type tokenSample struct {
	term   parser.Term
	sample func() string
}

func init() {
	register(&Check{
		ID: "C05",
		Rule: "grammars of a few tokens in sequence, choice or repetition: literals of arbitrary characters (metacharacters, quotes, line breaks, control, combining and astral characters) written with all kinds of quotes and escapes, " +
			"and random regexps (classes, groups, flags, anchors, lazy and bounded repetition, nested and non-participating captures), with and without a .wrapRE with exempt tokens; texts are matched, near misses included. " +
			"Acceptance, extent and each token's text and offset must be those that Go's regexp package and string comparison give. Non-trivial: a literal with a character outside [A-Za-z0-9] or a regexp with an operator took part in a match or a rejection after the first token; distinct by grammar and text.",
		Cases: map[string]int{"quick": 40000, "thorough": 600000},
		Run: func(c *Case) {
			n := 1 + c.IntN(3)
			var toks []tokenSample
			var terms []parser.Term
			for i := 0; i < n; i++ {
				var t tokenSample
				if c.IntN(2) == 0 {
					l := genLiteral(c.Rand)
					t = tokenSample{parser.S(l), func() string { return l }}
				} else {
					g := &randRegexp{Rand: c.Rand}
					re, s := g.make(1 + c.IntN(3))
					if _, err := regexp.Compile(re); err != nil {
						continue // e.g. a repetition of too many
					}
					t = tokenSample{parser.RE(re), s}
				}
				toks = append(toks, t)
			}
			if len(toks) == 0 {
				return
			}
			used := []tokenSample{}
			for i := 0; i <= c.IntN(4); i++ {
				t := toks[c.IntN(len(toks))]
				used = append(used, t)
				switch c.IntN(6) {
				case 0:
					o := toks[c.IntN(len(toks))]
					terms = append(terms, parser.Oneof{o.term, t.term})
				case 1:
					terms = append(terms, parser.Any(t.term))
				default:
					terms = append(terms, t.term)
				}
			}
			g := parser.Grammar{"a": parser.Seq(terms)}
			var pre, post func() string
			none := func() string { return "" }
			pre, post = none, none
			if c.IntN(2) == 0 {
				w := genWraps[c.IntN(len(genWraps))]
				pre = func() string { return w.pre[c.IntN(len(w.pre))] }
				post = func() string { return w.post[c.IntN(len(w.post))] }
				g[".wrapRE"] = parser.RE(w.re)
				if c.IntN(3) == 0 {
					o := parser.Oneof{}
					for i := 0; i <= c.IntN(2); i++ {
						o = append(o, toks[c.IntN(len(toks))].term)
					}
					g[".wrapRE"] = append(o, parser.RE(w.re))
				}
			}
			if len(terms) == 1 {
				g["a"] = terms[0]
			}
			text := printGrammar(g)
			if c.IntN(2) == 0 {
				text = printFancyStrings(c.Rand, g)
			}
			c.Note("grammar", text)
			p, mode, ok := build(c, g, text)
			if !ok {
				return
			}
			ref := newRef(g)
			hard := false
			for _, t := range toks {
				switch x := t.term.(type) {
				case parser.S:
					hard = hard || strings.IndexFunc(string(x), func(r rune) bool { return r > 127 || !strings.ContainsRune(wordChars, r) }) >= 0
				case parser.RE:
					hard = hard || regexp.QuoteMeta(string(x)) != string(x)
				}
			}
			for k := 0; k < 10; k++ {
				input := ""
				for _, t := range used {
					input += pre() + t.sample() + post()
				}
				switch c.IntN(4) {
				case 0:
					input = mutate(c.Rand, input, []string{"a", " ", "\n", "é", "\\", "(", "x", "A"})
				case 1:
					input = swapCase(c.Rand, input)
				}
				if !utf8.ValidString(input) {
					continue
				}
				want := ref.Parse("a", input)
				c.Note("input", input)
				got, fine := runParse(c, p, "a", input)
				if !fine {
					return
				}
				c.Eval()
				if !mustAgree(mode, hasRE(g), want, got, len(input)) {
					c.Stat("not comparable: cut points", 1)
					continue
				}
				if want.OK != got.OK || want.OK && want.End != got.End {
					c.Fail("on %q: expected %s, got %s (%v)", input, describe(want.OK, want.End, input), describe(got.OK, got.End, input), got.Err)
					return
				}
				if want.OK {
					c.Stat("matched", 1)
					w, t := want.Tree.String(), got.Tree.String()
					if w != t {
						c.Fail("on %q:\n expected %s\n      got %s", input, w, t)
						return
					}
				} else {
					c.Stat("rejected", 1)
				}
				if hard && (want.OK || want.Furthest > 0) {
					c.Distinct(text, input)
					c.Sample(map[string]any{"grammar": text, "input": input, "matched": want.OK})
				}
			}
		},
	})
}

func swapCase(r *rand.Rand, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return s
	}
	i := r.IntN(len(rs))
	if u := strings.ToUpper(string(rs[i])); u != string(rs[i]) {
		return string(rs[:i]) + u + string(rs[i+1:])
	}
	return string(rs[:i]) + strings.ToLower(string(rs[i])) + string(rs[i+1:])
}

// printFancyStrings varies quotes and escapes only.
func printFancyStrings(r *rand.Rand, g parser.Grammar) string {
	p := &printer{Rand: r, escapes: true, quotes: true, shortRE: true}
	p.grammar(g)
	return p.sb.String()
}
