package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// parseOutcome renders what a parse reported. Failures are all alike.
func parseOutcome(c *Case, p parser.Parsers, rule parser.Rule, input string) (s string, ok, fine bool) {
	sc := parser.NewScanner(input)
	e, err := p.ParseWithExternals(rule, sc, eaterExternals)
	if err == nil {
		if e == nil {
			c.Fail("parse returned neither a tree nor an error")
			return "", false, false
		}
		return "matched " + fromElement(e).String(), true, true
	}
	if u, is := err.(parser.UnconsumedInputError); is {
		return fmt.Sprintf("matched all but %q: %s", u.Residue().String(), fromElement(u.Result()).String()), true, true
	}
	return "no match", false, true
}

// eaterExternals is a handler that takes "<x>".
var eaterExternals = parser.ExternalRefs{
	"f": func(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
		var eaten parser.Scanner
		if !in.EatString("<x>", &eaten) {
			return nil, fmt.Errorf("no <x>")
		}
		return eaten, nil
	},
}

// sharpTexts are grammars whose terms are spelled out by hand.
type sharpText struct {
	text string
	term parser.Term
}

func sharpTexts() []sharpText {
	S, RE, R := func(x string) parser.Term { return parser.S(x) }, func(x string) parser.Term { return parser.RE(x) }, func(x string) parser.Term { return parser.Rule(x) }
	seq := func(t ...parser.Term) parser.Term { return parser.Seq(t) }
	one := func(t ...parser.Term) parser.Term { return parser.Oneof(t) }
	named := func(n string, t parser.Term) parser.Term { return parser.Named{Name: n, Term: t} }
	q := func(t parser.Term, min, max int) parser.Term { return parser.Quant{Term: t, Min: min, Max: max} }
	return []sharpText{
		{`"a" "b" | "c" "a"`, one(seq(S("a"), S("b")), seq(S("c"), S("a")))},
		{`"a" ("b" | "c") "a"`, seq(S("a"), one(S("b"), S("c")), S("a"))},
		{`"a" "b"* | "c"+ "a"?`, one(seq(S("a"), q(S("b"), 0, 0)), seq(q(S("c"), 1, 0), q(S("a"), 0, 1)))},
		{`n="a"*`, q(named("n", S("a")), 0, 0)},
		{`n=("a"*)`, named("n", q(S("a"), 0, 0))},
		{`n=("a" "b")+ "c"`, seq(q(named("n", seq(S("a"), S("b"))), 1, 0), S("c"))},
		{`"a":","`, parser.Delim{Term: S("a"), Sep: S(",")}},
		{`n="a":m=","`, parser.Delim{Term: named("n", S("a")), Sep: named("m", S(","))}},
		{`"a"*:","`, q(parser.Delim{Term: S("a"), Sep: S(",")}, 0, 0)},
		{`("a"*):","`, parser.Delim{Term: q(S("a"), 0, 0), Sep: S(",")}},
		{`"a":","*`, parser.Delim{Term: q(S("a"), 0, 0), Sep: S(",")}},
		{`"a":","?`, parser.Delim{Term: q(S("a"), 0, 1), Sep: S(",")}},
		{`"a"?:","`, q(parser.Delim{Term: S("a"), Sep: S(",")}, 0, 1)},
		{`"a":",":";"`, parser.Delim{Term: parser.Delim{Term: S("a"), Sep: S(";")}, Sep: S(",")}},
		{`"a":>","`, parser.Delim{Term: S("a"), Sep: S(","), Assoc: parser.LeftToRight}},
		{`"a"<:","`, parser.Delim{Term: S("a"), Sep: S(","), Assoc: parser.RightToLeft}},
		{`"a":,","`, parser.Delim{Term: S("a"), Sep: S(","), CanStartWithSep: true}},
		{`"a":",",`, parser.Delim{Term: S("a"), Sep: S(","), CanEndWithSep: true}},
		{`"a":,",",`, parser.Delim{Term: S("a"), Sep: S(","), CanStartWithSep: true, CanEndWithSep: true}},
		{`"a":("," "b")`, parser.Delim{Term: S("a"), Sep: seq(S(","), S("b"))}},
		{`"a":"," "b"`, seq(parser.Delim{Term: S("a"), Sep: S(",")}, S("b"))},
		{`"a"{2,3}`, q(S("a"), 2, 3)},
		{`"a"{2,}`, q(S("a"), 2, 0)},
		{`"a"{,3}`, q(S("a"), 0, 3)},
		{`"a"{,} "b"`, seq(q(S("a"), 0, 0), S("b"))},
		{`"a"{1,1} "b"`, seq(q(S("a"), 1, 1), S("b"))},
		{`"a"+{2,2}`, q(q(S("a"), 2, 2), 1, 0)},
		{`"a"{2,2}+`, q(q(S("a"), 1, 0), 2, 2)},
		{`"a"?*`, q(q(S("a"), 0, 0), 0, 1)},
		{`(?="a") r`, seq(parser.LookAhead{Term: S("a")}, R("r"))},
		{`(?="a" | "b") r`, seq(parser.LookAhead{Term: one(S("a"), S("b"))}, R("r"))},
		{`"c" (?="a" "b") r`, seq(S("c"), parser.LookAhead{Term: seq(S("a"), S("b"))}, R("r"))},
		{`n=([ab]) "," %n`, seq(named("n", RE("[ab]")), S(","), parser.REF{Ident: "n"})},
		{`n=/{[ab]}? "," %n="c"`, seq(q(named("n", RE("[ab]")), 0, 1), S(","), parser.REF{Ident: "n", Default: S("c")})},
		{`() "a"`, seq(parser.Seq{}, S("a"))},
		{`"a" | ()`, one(S("a"), parser.Seq{})},
		{`"a" | "b" | "c"`, one(S("a"), S("b"), S("c"))},
		{`("a" | "b") | "c"`, one(one(S("a"), S("b")), S("c"))},
		{`"a" ("b" "c")`, seq(S("a"), seq(S("b"), S("c")))},
		{`@:"+" > @:>"*" > "a" | "(" @ ")"`, parser.Stack{parser.Delim{Term: R("@"), Sep: S("+")}, parser.Delim{Term: R("@"), Sep: S("*"), Assoc: parser.LeftToRight},
			one(S("a"), seq(S("("), R("@"), S(")")))}},
		{`@:"+" > "-"? @ > "a" "b"`, parser.Stack{parser.Delim{Term: R("@"), Sep: S("+")}, seq(q(S("-"), 0, 1), R("@")), seq(S("a"), S("b"))}},
		{`"b" @ | @:"+" > "a"`, parser.Stack{one(seq(S("b"), R("@")), parser.Delim{Term: R("@"), Sep: S("+")}), S("a")}},
		{`\d+`, RE(`\d+`)},
		{`"a" \d "b"`, seq(S("a"), RE(`\d`), S("b"))},
		{`/{a b}`, RE(`ab`)},
		{`/{a\_b}`, RE(`a b`)},
		{"/{ a\n  | b c }", RE(`a|bc`)},
		{`/{[,;]}`, RE(`[,;]`)},
		{`/{a{2,3}\}}`, RE(`a{2,3}\}`)},
		{`[^"]+ '"'`, seq(RE(`[^"]+`), S(`"`))},
		{"`a``b`", S("a`b")},
		{`"\x41\u0042\103\t\"'"`, S("ABC\t\"'")},
		{`'a\'"'`, S(`a'"`)},
		{"`\\n`", S(`\n`)},
		{`n=n2=("a")`, nil},
		{`x {x -> "a" r;}`, parser.ScopedGrammar{Term: R("x"), Grammar: parser.Grammar{"x": seq(S("a"), R("r"))}}},
		{`"c" | "a" x {x -> "b";}`, parser.ScopedGrammar{Term: one(S("c"), seq(S("a"), R("x"))), Grammar: parser.Grammar{"x": S("b")}}},
		{`"c" | ("a" x {x -> "b";})`, one(S("c"), parser.ScopedGrammar{Term: seq(S("a"), R("x")), Grammar: parser.Grammar{"x": S("b")}})},
		{`n=(x {x -> "b"+;}) "a"`, seq(named("n", parser.ScopedGrammar{Term: R("x"), Grammar: parser.Grammar{"x": q(S("b"), 1, 0)}}), S("a"))},
	}
}

const sharpAlphabet = "aabbc,,;(r)+-*\"`'\\\t 1}ABC"

// randomText makes a text of the tokens of a term.
func randomText(r *rand.Rand) string {
	b := make([]byte, r.IntN(9))
	for i := range b {
		b[i] = sharpAlphabet[r.IntN(len(sharpAlphabet))]
	}
	return string(b)
}

func init() {
	var all []sharpText
	for _, t := range sharpTexts() {
		if t.term != nil {
			all = append(all, t)
		}
	}
	opts := []GenOpts{
		{Rules: 3, Depth: 3, Refs: true},
		{Rules: 4, Depth: 4, Scoped: true},
		{Rules: 4, Depth: 3, Wrap: true},
		{Rules: 3, Depth: 5, Refs: true, Scoped: true, Wrap: true, Exts: []string{"f"}},
		{Rules: 2, Depth: 4, Tokens: []string{"a", "b", "\\", `"`, "'", "`", "\n", "é", "/{", "//", "%", "<x>", "{", "}", "=", ";", "->", "日"}},
	}
	register(&Check{
		ID: "C08",
		Rule: "random grammars made of terms are written down plainly and in a random format (white space, comments between statements, redundant parentheses, order of productions, kinds of quotes, escapes, ways to write bounds and regexps); " +
			"the parsers of the terms themselves and of both texts (with cut points taken out, and the two texts also with them) are run on the same inputs and must report the same outcomes and trees. " +
			"Likewise hand-written texts, each with the terms it spells. Non-trivial: some input was matched; distinct by grammar text.",
		Cases: map[string]int{"quick": 4500, "thorough": 200000},
		Run: func(c *Case) {
			var g parser.Grammar
			var rules []parser.Rule
			var plain, fancy string
			o := pickOpts(c, opts)
			hand := c.IntN(8) == 0
			if hand {
				t := all[c.IntN(len(all))]
				g = parser.Grammar{"a": t.term, "r": parser.RE(`[a-c]+`)}
				rules = []parser.Rule{"a"}
				plain = "a -> " + t.text + ";\nr -> [a-c]+;\n"
				o = GenOpts{Tokens: []string{"a", "b", "c", ",", ";", "+", "-", "(", ")", `"`}, Regexps: []reSample{
					{"ab", []string{"ab"}}, {"a b", []string{"a b"}}, {"a|bc", []string{"a", "bc"}}, {"[,;]", []string{",", ";"}},
					{`a{2,3}\}`, []string{"aa}", "aaa}"}}, {`[^"]+`, []string{"abc", "\\ 1"}}}}
				c.Stat("hand-written texts", 1)
			} else {
				g, rules = genGrammar(c.Rand, o)
				plain = printGrammar(g)
			}
			fancy = printFancy(c.Rand, g)
			c.Note("plain", plain)
			c.Note("fancy", fancy)
			direct := g.Compile(nil)
			p1, ok := compileText(c, plain)
			if !ok {
				return
			}
			p2, ok := compileText(c, fancy)
			if !ok {
				return
			}
			ps := []parser.Parsers{direct, stripCuts(p1.Grammar()).Compile(nil), stripCuts(p2.Grammar()).Compile(nil), p1, p2}
			names := []string{"terms", "plain text without cuts", "formatted text without cuts", "plain text", "formatted text"}
			if n1, n2 := ruleNames(p1.Grammar()), ruleNames(p2.Grammar()); n1 != n2 {
				c.Fail("the two texts define different rules: %s and %s", n1, n2)
				return
			}
			ref := newRef(g)
			if len(o.Exts) > 0 {
				ref.host = eaterHost{ref}
			}
			matched := false
			for k := 0; k < 5; k++ {
				rule := rules[c.IntN(len(rules))]
				if c.IntN(2) == 0 {
					rule = rules[0]
				}
				input := genInputs(c.Rand, g, rule, o, 1)[0]
				if hand && c.IntN(3) == 0 {
					input = randomText(c.Rand)
				}
				if ref.Parse(rule, input).Budget {
					c.Stat("skipped: too expensive for the reference", 1)
					continue
				}
				c.Note("rule", rule)
				c.Note("input", input)
				var outs [5]string
				for i, p := range ps {
					var ok, fine bool
					outs[i], ok, fine = parseOutcome(c, p, rule, input)
					if !fine {
						return
					}
					matched = matched || ok
				}
				c.Eval()
				for i, j := range []int{0, 0, 0, 3, 3} {
					if outs[i] != outs[j] {
						c.Fail("the parsers of the %s and of the %s differ:\n%s\n%s", names[j], names[i], outs[j], outs[i])
						return
					}
				}
				if strings.HasPrefix(outs[0], "matched") {
					c.Stat("matched", 1)
				} else {
					c.Stat("not matched", 1)
				}
			}
			if matched {
				c.Distinct(fancy)
				c.Sample(map[string]any{"plain": plain, "formatted": fancy})
			}
		},
	})
}

func ruleNames(g parser.Grammar) string {
	var names []string
	for r := range g {
		names = append(names, string(r))
	}
	sort.Strings(names)
	return strings.Join(names, " ")
}

// eaterHost is eaterExternals for the reference.
type eaterHost struct{ ref *Ref }

func (h eaterHost) Escape(_, _ string, _ int, _ *refScope) (*Tree, int, bool, bool) {
	return nil, 0, false, false
}

func (h eaterHost) External(_, _ string, pos int, _ *refScope) (*Tree, int, bool, bool) {
	if !strings.HasPrefix(h.ref.in[pos:], "<x>") {
		return nil, pos, false, false
	}
	return &Tree{}, pos + 3, true, false
}
