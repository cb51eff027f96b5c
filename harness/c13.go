package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// cutTokens makes a vocabulary in which some tokens contain or overlap others.
func cutTokens(c *Case) []string {
	const letters = "abcdefghijklmnopqrstuvwxyz+-*/<>=!"
	var out []string
	for i, n := 0, 3+c.IntN(40); i < n; i++ {
		switch k := c.IntN(8); {
		case k == 0 && len(out) > 0: // one that contains another
			t := out[c.IntN(len(out))]
			x := letters[c.IntN(len(letters)):][:1]
			out = append(out, []string{t + x, x + t, t + t, x + t + x}[c.IntN(4)])
		case k == 1 && len(out) > 1: // one that overlaps others
			a, b := out[c.IntN(len(out))], out[c.IntN(len(out))]
			ra, rb := []rune(a), []rune(b)
			out = append(out, string(ra[len(ra)-1:])+string(rb[:1]))
		case k == 2:
			out = append(out, letters[c.IntN(len(letters)):][:1])
		case k == 3:
			out = append(out, []string{"é", "日本", "\n", "\\", "."}[c.IntN(5)])
		default:
			out = append(out, fmt.Sprintf("%c%d", letters[c.IntN(26)], i))
		}
	}
	if c.IntN(4) == 0 {
		out = append(out, "")
	}
	return out
}

// cutLook returns a term that looks ahead for tokens which, but for that, are
// unique or all but, and inputs for it.
func cutLook(c *Case) (parser.Term, []string) {
	toks := []string{"QQ", "WW", "EE", "TT", "YY"}
	c.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
	s := func(i int) parser.Term { return parser.S(toks[i]) }
	ahead := parser.Term(parser.Seq{s(0), s(1)})
	if c.IntN(3) == 0 {
		ahead = parser.Seq{s(0), parser.Opt(s(2)), s(1)}
	}
	look := parser.Term(parser.LookAhead{Term: ahead})
	if c.IntN(4) == 0 {
		look = parser.Named{Name: "look", Term: look}
	}
	switch c.IntN(4) {
	case 0:
		look = parser.Opt(look)
	case 1:
		look = parser.Oneof{look, parser.S("")}
	case 2:
		look = parser.Oneof{parser.Seq{look, parser.Opt(s(3))}, parser.S("")}
	case 3:
		look = parser.Oneof{look, parser.LookAhead{Term: parser.Seq{s(0), s(4)}}}
	}
	rest := parser.Seq{look, s(0)}
	if c.IntN(2) == 0 {
		rest = append(rest, parser.Oneof{s(1), s(2), s(4)})
	} else {
		rest = append(rest, parser.Opt(s(2)), parser.Opt(s(1)), parser.Opt(s(4)))
	}
	return rest, []string{toks[0] + toks[1], toks[0] + toks[2], toks[0] + toks[4], toks[0] + toks[2] + toks[1], toks[0]}
}

// cutBack returns rules whose references match again what may be a unique token,
// where an alternative that begins with it was given up, and inputs for them.
func cutBack(c *Case) (parser.Grammar, []string) {
	toks := []string{"QQ", "WW", "EE", "TT", "YY"}
	c.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
	s := func(i int) parser.Term { return parser.S(toks[i]) }
	g := parser.Grammar{}
	t := s(0)
	switch c.IntN(5) {
	case 0:
		t = parser.Seq{s(0), s(1)}
	case 1:
		t = parser.Oneof{s(0), s(1)}
	case 2:
		t = parser.Seq{s(0), parser.Any(s(1))}
	}
	name := "x"
	if c.IntN(3) == 0 {
		g["back"] = t
		t = parser.Rule("back")
	}
	if _, is := t.(parser.Rule); is && c.IntN(2) == 0 {
		name = "back"
	} else {
		t = parser.Named{Name: "x", Term: t}
	}
	ref := parser.Term(parser.REF{Ident: name})
	if c.IntN(4) == 0 {
		ref = parser.REF{Ident: name, Default: s(4)}
	}
	switch c.IntN(3) {
	case 0:
		ref = parser.Delim{Term: parser.Opt(s(2)), Sep: ref}
	case 1:
		ref = parser.Seq{ref, parser.Opt(s(2))}
	}
	again := parser.Term(parser.Rule("trap"))
	if c.IntN(2) == 0 {
		again = parser.Seq{again, s(3)}
	}
	alts := parser.Oneof{again, ref}
	if c.IntN(3) == 0 {
		alts = append(alts, parser.S(""))
	}
	g["trap"] = parser.Seq{t, alts}
	if c.IntN(3) == 0 {
		g["trap"] = parser.ScopedGrammar{Term: parser.Seq{t, alts}, Grammar: parser.Grammar{"own": parser.S("own")}}
	}
	var inputs []string
	for k := 0; k < 8; k++ {
		input := ""
		for n := 1 + c.IntN(6); n > 0; n-- {
			input += toks[[]int{0, 0, 0, 1, 2, 3}[c.IntN(6)]]
		}
		inputs = append(inputs, input)
	}
	return g, append(inputs, toks[0]+toks[0], toks[0]+toks[1]+toks[0]+toks[1], toks[0]+toks[0]+toks[3]+toks[0])
}

// cutTrap returns a term whose alternatives take the same text, up to some point,
// for different tokens, and inputs for it.
func cutTrap(c *Case) (parser.Term, []string) {
	letters := []string{"pqr", "pq", "pqrstu", "é日p"}[c.IntN(4)]
	runes := []rune(letters)
	word := ""
	for k := 2 + c.IntN(4); k > 0; k-- {
		word += string(runes[c.IntN(len(runes))])
	}
	var alts []parser.Term
	var texts []string
	for i, n := 0, 2+c.IntN(3); i < n; i++ {
		rest := []rune(word)
		if c.IntN(3) == 0 {
			rest = rest[:1+c.IntN(len(rest))]
		}
		if c.IntN(3) > 0 {
			rest = append(rest, rune('0'+i))
		}
		texts = append(texts, string(rest))
		seq := parser.Seq{}
		for len(rest) > 0 {
			k := 1 + c.IntN(len(rest))
			tok := parser.Term(parser.S(string(rest[:k])))
			if c.IntN(8) == 0 { // what it never refers to is not there
				tok = parser.REF{Ident: "nowhere", Default: tok}
			}
			seq = append(seq, tok)
			rest = rest[k:]
		}
		alt := parser.Term(seq)
		if len(seq) == 1 {
			alt = seq[0]
		}
		alts = append(alts, alt)
	}
	var t parser.Term
	switch c.IntN(6) {
	case 0:
		t = parser.Seq{parser.Opt(alts[0]), alts[1]}
	case 1:
		t = parser.Seq{parser.Any(alts[0]), alts[1]}
	case 2:
		t = parser.Oneof{parser.Seq{parser.LookAhead{Term: alts[0]}, alts[1], parser.S("!")}, alts[1]}
	case 3:
		t = parser.Seq{parser.Delim{Term: alts[0], Sep: alts[1], CanStartWithSep: c.IntN(2) == 0, CanEndWithSep: c.IntN(2) == 0}, alts[len(alts)-1]}
	default:
		t = parser.Oneof(alts)
	}
	if c.IntN(3) == 0 {
		t = parser.Some(t)
	}
	var inputs []string
	for i := 0; i < 4; i++ {
		in := ""
		for k := 1 + c.IntN(3); k > 0; k-- {
			in += texts[c.IntN(len(texts))]
		}
		inputs = append(inputs, in)
	}
	return t, inputs
}

func countCuts(g parser.Grammar) (n int) {
	for name, t := range g {
		if name != ".wrapRE" {
			walkTerm(t, func(t parser.Term) {
				if _, ok := t.(parser.CutPoint); ok {
					n++
				}
			})
		}
	}
	return
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 3, NoRE: true},
		{Rules: 5, Depth: 4, NoRE: true, Scoped: true},
		{Rules: 4, Depth: 5, NoRE: true},
		{Rules: 7, Depth: 2, NoRE: true, NoStack: true, Scoped: true},
		{Rules: 4, Depth: 4, Scoped: true},
		{Rules: 5, Depth: 3, Refs: true, Wrap: true},
		{Rules: 5, Depth: 4, NoRE: true, Refs: true, Scoped: true},
	}
	register(&Check{
		ID: "C13",
		Rule: "random grammars (choices that share beginnings, repetitions, delimiters with optional separators, lookaheads, stacks, scoped grammars, macros) over vocabularies in which some tokens are unique, contained in or overlapping others, compiled from text, versus the same terms compiled without cut points, on inputs that match, that match up to an edit, that one alternative takes for other tokens than another one does, and that match another alternative up to some point. " +
			"Literals only: acceptance and trees are the same. With regexps, references and wrappers: what succeeds has the same tree. Distinct by (grammar, input) of grammars with cut points.",
		Cases: map[string]int{"quick": 9000, "thorough": 300000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			o.Tokens = cutTokens(c)
			g, rules := genGrammar(c.Rand, o)
			var trapInputs []string
			if c.IntN(2) == 0 {
				switch c.IntN(6) {
				case 0:
					g["trap"], trapInputs = cutLook(c)
				case 1:
					var more parser.Grammar
					more, trapInputs = cutBack(c)
					for name, t := range more {
						g[name] = t
					}
					c.Stat("with references to tokens", 1)
				default:
					g["trap"], trapInputs = cutTrap(c)
				}
				if c.IntN(2) == 0 { // by way of another rule
					g["trap2"] = g["trap"]
					g["trap"] = parser.Seq{parser.Opt(parser.S("~")), parser.Rule("trap2")}
				}
			}
			text := ""
			if c.IntN(4) == 0 {
				mg := parser.Grammar{}
				for r, t := range g {
					mg[r] = cloneTerm(t)
				}
				mm := &macroMaker{Rand: c.Rand, c: c, pure: true}
				for i, n := 0, 1+c.IntN(2); i < n; i++ {
					mm.factor(mg)
				}
				text = printMacros(c.Rand, mg, false)
				g = expandMacros(mg, nil)
				c.Stat("with macros", 1)
			} else {
				text = printGrammar(g)
			}
			literal := o.NoRE
			if literal && c.IntN(6) == 0 {
				// White space about tokens that hold none makes no difference.
				fine := true
				for _, t := range o.Tokens {
					if strings.ContainsAny(t, "\n ") || t == "" {
						fine = false
					}
				}
				if fine {
					g[".wrapRE"] = parser.RE(`\s*()`)
					text += "\n.wrapRE -> /{\\s*()};"
					c.Stat("with a wrapper", 1)
				}
			}
			c.Note("grammar", text)
			p, ok := compileText(c, text)
			if !ok {
				return
			}
			plain := g.Compile(nil)
			cuts := countCuts(p.Grammar())
			c.Stat("cut points", cuts)
			if cuts == 0 {
				return
			}
			ref := newRef(g)
			for k := 0; k < 5+len(trapInputs); k++ {
				rule := rules[c.IntN(len(rules))]
				input := genInputs(c.Rand, g, rule, o, 1)[0]
				if c.IntN(3) == 0 { // go on as another match does
					other := genInputs(c.Rand, g, rule, o, 1)[0]
					i, j := c.IntN(len(input)+1), c.IntN(len(other)+1)
					input = input[:i] + other[j:]
				}
				if k >= 5 {
					rule, input = "trap", trapInputs[k-5]
				}
				c.Note("rule", rule)
				c.Note("input", input)
				if ref.Parse(rule, input).Budget {
					c.Stat("skipped: too expensive for the reference", 1)
					continue
				}
				got, fine := runParse(c, p, rule, input)
				if !fine {
					return
				}
				want, fine := runParse(c, plain, rule, input)
				if !fine {
					return
				}
				c.Eval()
				c.Distinct(text, rule, input)
				if _, fatal := got.Err.(parser.FatalError); fatal {
					c.Stat("parses aborted at a cut point", 1)
				}
				whole := got.OK && got.Err == nil
				switch {
				case whole != (want.OK && want.Err == nil) && (whole || literal):
					c.Fail("accepted %v with cut points, %v without: %v, %v", whole, !whole, got.Err, want.Err)
				case got.OK && !want.OK:
					c.Fail("matched with cut points only")
				case whole && got.Tree.String() != want.Tree.String():
					c.Fail("the tree with cut points is\n%s\nthat without is\n%s", got.Tree, want.Tree)
				case whole:
					c.Stat("accepted with the same tree", 1)
				}
				if c.failed {
					return
				}
			}
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"text": text, "cut points": cuts})
			}
		},
	})
}
