package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// raw is a piece of grammar text that stands for an atom (see printMacros).
func raw(text string) parser.Term { return parser.Rule("raw:" + text) }

// placeWalker rewrites the k-th place of a grammar where a term may stand.
type placeWalker struct {
	at    int // which; negative to count only
	n     int
	apply func(t parser.Term, w *placeInfo) parser.Term
}

// placeInfo says what is around a place.
type placeInfo struct {
	visible map[string]bool // names of rules
	params  map[string]bool
	where   string
	depth   int
}

func (w *placeWalker) grammar(g parser.Grammar, in placeInfo) parser.Grammar {
	vis := map[string]bool{}
	for r := range in.visible {
		vis[r] = true
	}
	for r := range g {
		if r[0] != '.' {
			vis[strings.TrimSpace(string(r))] = true
		}
	}
	in.visible = vis
	out := parser.Grammar{}
	for _, r := range sortedRules(g) {
		t := g[parser.Rule(r)]
		info := in
		switch {
		case r == ".wrapRE":
			out[parser.Rule(r)] = t
			continue
		case strings.HasPrefix(r, ".macro "):
			info.where += " macro body"
			info.params = map[string]bool{}
			for p := range in.params {
				info.params[p] = true
			}
			for _, p := range macroParams(r) {
				info.params[p] = true
			}
		}
		if s, ok := t.(parser.Stack); ok {
			info.where += " stack"
			layers := parser.Stack{}
			for _, l := range s {
				layers = append(layers, w.term(l, info))
			}
			out[parser.Rule(r)] = layers
			continue
		}
		out[parser.Rule(r)] = w.term(t, info)
	}
	return out
}

func (w *placeWalker) term(t parser.Term, in placeInfo) parser.Term {
	if r, ok := t.(parser.Rule); ok && strings.HasPrefix(string(r), "%!") {
		return t
	}
	w.n++
	if w.n-1 == w.at {
		return w.apply(t, &in)
	}
	in.depth++
	switch t := t.(type) {
	case parser.ScopedGrammar:
		in.where += " scoped"
		inner := in
		inner.visible = map[string]bool{}
		for r := range in.visible {
			inner.visible[r] = true
		}
		for r := range t.Grammar {
			if r[0] != '.' {
				inner.visible[string(r)] = true
			}
		}
		return parser.ScopedGrammar{Term: w.term(t.Term, inner), Grammar: w.grammar(t.Grammar, in)}
	case parser.LookAhead:
		in.where += " lookahead"
	case parser.Delim:
		in.where += " delim"
	case parser.Quant:
		in.where += " quant"
	case parser.Oneof:
		if _, _, ok := asMacroCall(t); ok {
			in.where += " macro argument"
		}
	}
	return mapSubterms(t, func(t parser.Term) parser.Term { return w.term(t, in) })
}

func countPlaces(g parser.Grammar) int {
	w := placeWalker{at: -1}
	w.grammar(g, placeInfo{})
	return w.n
}

// grammarAt calls f for every grammar, that given and the scoped ones.
func eachGrammar(g parser.Grammar, f func(parser.Grammar)) {
	f(g)
	for _, r := range sortedRules(g) {
		walkTerm(g[parser.Rule(r)], func(t parser.Term) {
			if s, ok := t.(parser.ScopedGrammar); ok {
				f(s.Grammar)
			}
		})
	}
}

var badRegexps = []string{`/{(}`, `/{[z-a]}`, `/{a**}`, `\p{Nothing}`, `[[:foo:]]`, `/{a{2,1}}`, `/{(?<n}`, `/{*}`, `/{a)(b}`, `/{(?q)a}`, `/{a{1001}}`, `[b-a]`}

// badRegexp returns the text of a regexp that is none, going by the regexp package.
func badRegexp(c *Case) string {
	if c.IntN(3) == 0 {
		return badRegexps[c.IntN(len(badRegexps))]
	}
	pieces := []string{"a", "b", "(", ")", "(", ")", "]", "*", "+", "?", "|", "{1}", "{2,1}", "\\d", "\\q", "\\pQ", "[z-a]", "[[:no:]]", "(?:", "(?P<n>", "^", "$", "**", "{1001}", "c"}
	for i := 0; i < 60; i++ {
		text := ""
		for k := 1 + c.IntN(6); k > 0; k-- {
			text += pieces[c.IntN(len(pieces))]
		}
		if _, err := regexp.Compile(text); err != nil {
			return "/{" + text + "}"
		}
	}
	return "/{(}"
}

// badString returns the text of a string that is none.
func badString(c *Case) string {
	if c.IntN(3) == 0 {
		return badStrings[c.IntN(len(badStrings))]
	}
	good := []string{"a", "é", "\\n", "\\\\", "\\x41", "\\u00e9", "\\101", " ", "\\'", "\\U0001F600", "Z"}
	bad := []string{"\\" + string("cdeghijklmopqswyz89ABCDEFGHIJKLMNOPQRSTVWXYZ(){}[].*-$"[c.IntN(54)])}
	for _, e := range []struct {
		letter string
		digits int
	}{{"x", 2}, {"u", 4}, {"U", 8}} { // with a digit that is none
		hex := []byte(strings.Repeat("0", e.digits))
		hex[c.IntN(e.digits)] = "gGzxé+- _."[c.IntN(10)]
		bad = append(bad, "\\"+e.letter+string(hex))
	}
	bad = append(bad, fmt.Sprintf("\\%d%d%d", c.IntN(4), c.IntN(8), 8+c.IntN(2)), fmt.Sprintf("\\%d%d%d", 4+c.IntN(4), c.IntN(8), c.IntN(8)),
		fmt.Sprintf("\\U%08x", 0x110000+c.IntN(1<<30)), fmt.Sprintf("\\u%04x", 0xd800+c.IntN(0x800)), fmt.Sprintf("\\x%02xz", 0x80+c.IntN(0x80)))
	text := ""
	for k := c.IntN(4); k > 0; k-- {
		text += good[c.IntN(len(good))]
	}
	text += bad[c.IntN(len(bad))]
	for k := c.IntN(4); k > 0; k-- {
		text += good[c.IntN(len(good))]
	}
	q := "\"'"[c.IntN(2):][:1]
	return q + text + q
}

// similarName returns a name that resembles a given one.
func similarName(c *Case, name string) string {
	switch c.IntN(6) {
	case 0:
		return name + name[len(name)-1:]
	case 1:
		return name + string("_1aZ"[c.IntN(4)])
	case 2:
		return strings.ToUpper(name)
	case 3:
		return "_" + name
	case 4:
		return "." + name
	}
	if len(name) > 1 {
		return name[:len(name)-1]
	}
	return name + "x"
}

var badStrings = []string{`"\q"`, `"\x4"`, `"\u12"`, `"\xff"`, `"a\777"`, `"\U00110000"`, `'\x'`, `"\ud800"`, `"\"\("`, `'\é'`, `"\xc3"`, `"\9"`, `"\u00g0"`}
var badWraps = []parser.Term{
	parser.S("a"), parser.RE(`\s*`), parser.RE(`(\s*)`), parser.Seq{parser.RE(`\s*()\s*`), parser.S("a")},
	parser.Opt(parser.RE(`\s*()\s*`)), parser.Named{Name: "x", Term: parser.RE(`\s*()`)}, parser.Oneof{parser.RE(`\s*()`), parser.S("a")},
	parser.RE(`()|a`), parser.RE(`()?`), parser.RE(`\(\)`),
}

// wellFormedTwins are pairs of productions that resemble faults but are none.
var wellFormedTwins = []string{
	`zz -> n="a" (n="b");`, `zz -> n="a" | n="b";`, `zz -> "a"{2,2};`, `zz -> (y {y -> "a";}) (y {y -> "b";});`, `zz -> "a"{0,3} "b"{3,};`,
	`zz -> n="a":n="b";`, `zz -> yy="a" (yy2 {yy2 -> yy="b";});`, `.macro zm(pp) { pp } .macro zn(pp) { pp } zz -> %!zm("a") %!zn("b");`,
	`zz -> x=(y="a") y="b";`, `zz -> y {y -> "a";} ; zy -> y {y -> zz "b" %!zk(y2="c");} ; .macro zk(k) { k };`, `zz -> "a"{,3} "b"{3,3};`,
	`zz -> %nothing %other="x";`, `zz -> %%anything;`, `zz -> /{(?i:a)} /{a{2,3}} [[:alpha:]] /{\pL};`, `zz -> "\x41\u00e9\U0001F600\101\xc3\xa9" '\'' "\"";`,
	`zz -> y {y -> zm="a"; .macro q(zm2) { zm2 }} ;`, `.macro unused(p) { "a" } zz -> "b";`, `.macro nop() { "a" } zz -> %!nop();`,
	`zz -> "a" {.wrapRE -> "b" | /{\s*()};};`, `zz -> n=("a" "b")+ m=("c")*;`, `zz -> @:"+" > n=@:m="*" > "a" | "(" @ ")";`,
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 3, Refs: true},
		{Rules: 4, Depth: 4, Scoped: true},
		{Rules: 3, Depth: 3, Wrap: true, Scoped: true},
		{Rules: 2, Depth: 3},
	}
	register(&Check{
		ID: "C11",
		Rule: "one fault of a random kind (undefined rule, also one that is local elsewhere or the name of a term or parameter; rule or macro defined twice; invalid regexp or string; quantifier bounds out of order; name that clashes with a rule or is repeated; call of no macro, with too many or few arguments, of itself; .wrapRE that is no wrapper; misplaced stack) " +
			"is planted at a random place (productions, stack levels, scoped grammars, macro bodies and arguments, delimiters, lookaheads) of a random well-formed grammar: Compile must return an error that names the item. Without it, or with something that merely resembles a fault, it must not. Distinct by text.",
		Cases: map[string]int{"quick": 9000, "thorough": 250000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			base, _ := genGrammar(c.Rand, o)
			mg := parser.Grammar{}
			for r, t := range base {
				mg[r] = cloneTerm(t)
			}
			mm := &macroMaker{Rand: c.Rand, c: c, pure: true}
			for i, n := 0, c.IntN(3); i < n; i++ {
				mm.factor(mg)
			}
			if c.IntN(2) == 0 {
				mm.localMacros(mg)
			}
			fancy := c.IntN(2) == 0
			if c.IntN(8) == 0 {
				text := printMacros(c.Rand, mg, fancy)
				if c.IntN(2) == 0 {
					text += "\n" + wellFormedTwins[c.IntN(len(wellFormedTwins))]
				}
				c.Note("text", text)
				c.Eval()
				if _, err := wbnf.Compile(text, nil); err != nil {
					c.Fail("a well-formed grammar was rejected: %v", err)
				}
				c.Stat("well-formed", 1)
				c.Distinct(text)
				return
			}

			kind, item := "", ""
			extra := ""
			var g parser.Grammar
			inject := func(f func(t parser.Term, w *placeInfo) parser.Term) {
				w := placeWalker{at: c.IntN(countPlaces(mg)), apply: func(t parser.Term, in *placeInfo) parser.Term {
					for _, k := range []string{"macro body", "macro argument", "scoped", "stack", "delim", "quant", "lookahead"} {
						if strings.Contains(in.where, k) {
							c.Stat("inside of: "+k, 1)
						}
					}
					c.Max("nesting of the place", in.depth)
					return f(t, in)
				}}
				g = w.grammar(mg, placeInfo{})
			}
			// around puts a faulty atom somewhere about t.
			around := func(t, bad parser.Term) parser.Term {
				if c.IntN(4) == 0 {
					bad = parser.Named{Name: "nm", Term: bad}
				}
				switch c.IntN(9) {
				case 0:
					return parser.Seq{t, bad}
				case 1:
					return parser.Seq{bad, t}
				case 2:
					return parser.Oneof{t, bad}
				case 3:
					return parser.Oneof{bad, t}
				case 4:
					return parser.Delim{Term: t, Sep: bad}
				case 5:
					return parser.Seq{t, parser.Opt(bad)}
				case 6:
					return parser.Seq{parser.LookAhead{Term: bad}, t}
				case 7:
					return parser.Delim{Term: bad, Sep: parser.S(",")}
				}
				return bad
			}
			some := func(m map[string]bool) string {
				var all []string
				for k := range m {
					all = append(all, k)
				}
				sort.Strings(all)
				if len(all) == 0 {
					return ""
				}
				return all[c.IntN(len(all))]
			}
			switch c.IntN(14) {
			case 0:
				kind, item = "undefined rule", "nowhere"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					if n := some(w.visible); n != "" && c.IntN(2) == 0 {
						if n = similarName(c, n); !w.visible[n] && !w.params[n] && n != "x" {
							item = n
						}
					}
					return around(t, parser.Rule(item))
				})
			case 1:
				kind = "rule of another scope"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					others := map[string]bool{}
					eachGrammar(mg, func(g parser.Grammar) {
						for r := range g {
							if r[0] != '.' && !w.visible[string(r)] {
								others[string(r)] = true
							}
							if strings.HasPrefix(string(r), ".macro ") {
								for _, p := range macroParams(string(r)) {
									if !w.params[p] {
										others[p] = true
									}
								}
							}
						}
					})
					item = some(others)
					return around(t, parser.Rule(item))
				})
				if item == "" {
					return
				}
			case 2:
				kind, item = "name of a term for a rule", "nm"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					return parser.Seq{parser.Named{Name: "nm", Term: t}, parser.Rule("nm")}
				})
			case 3:
				kind = "rule defined twice"
				var gs []parser.Grammar
				g = mg
				eachGrammar(g, func(g parser.Grammar) { gs = append(gs, g) })
				h := gs[c.IntN(len(gs))]
				names := map[string]bool{}
				for r := range h {
					if r[0] != '.' {
						names[string(r)] = true
					}
				}
				item = some(names)
				if item == "" {
					return
				}
				h[parser.Rule(item+" ")] = parser.S("again")
				if c.IntN(2) == 0 {
					h[parser.Rule(item+" ")] = h[parser.Rule(item)]
				}
			case 4:
				kind = "macro defined twice"
				var gs []parser.Grammar
				g = mg
				eachGrammar(g, func(g parser.Grammar) {
					for r := range g {
						if strings.HasPrefix(string(r), ".macro ") {
							gs = append(gs, g)
							break
						}
					}
				})
				if len(gs) == 0 {
					return
				}
				h := gs[c.IntN(len(gs))]
				for _, r := range sortedRules(h) {
					if strings.HasPrefix(r, ".macro ") {
						item = r[len(".macro "):strings.Index(r, "(")]
						switch c.IntN(3) {
						case 0:
							h[parser.Rule(r+" ")] = h[parser.Rule(r)]
						case 1:
							h[parser.Rule(".macro "+item+"(other)")] = parser.S("again")
						case 2:
							h[parser.Rule(item)] = parser.S("again")
						}
						break
					}
				}
			case 5:
				kind, item = "invalid regexp", badRegexp(c)
				inject(func(t parser.Term, w *placeInfo) parser.Term { return around(t, raw(item)) })
				item = strings.TrimSuffix(strings.TrimPrefix(item, "/{"), "}")
			case 6:
				kind, item = "invalid string", badString(c)
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					if c.IntN(5) == 0 {
						return around(t, raw("%x="+item))
					}
					return around(t, raw(item))
				})
			case 7:
				kind = "bounds out of order"
				max := 1 + c.IntN([]int{3, 12, 120, 2000}[c.IntN(4)])
				min := max + 1 + c.IntN([]int{1, 3, 12, 120}[c.IntN(4)])
				item = fmt.Sprint(min)
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					q := parser.Quant{Term: t, Min: min, Max: max}
					switch c.IntN(4) {
					case 0:
						q.Term = parser.S("a")
						return around(t, q)
					case 1:
						return parser.Opt(q)
					}
					return q
				})
			case 8:
				kind = "name that clashes with a rule"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					item = some(w.visible)
					if c.IntN(2) == 0 {
						return parser.Named{Name: item, Term: t}
					}
					return around(t, parser.Named{Name: item, Term: parser.S("a")})
				})
			case 9:
				kind, item = "name used twice", "nm"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					one := func(t parser.Term) parser.Term {
						n := parser.Term(parser.Named{Name: "nm", Term: t})
						switch c.IntN(4) {
						case 0:
							return parser.Any(n)
						case 1:
							return parser.Delim{Term: n, Sep: parser.S(",")}
						}
						return n
					}
					s := parser.Seq{one(parser.S("a")), one(t)}
					if c.IntN(2) == 0 {
						s = parser.Seq{one(t), parser.S("b"), one(parser.S("a"))}
					}
					// Others, named or not, before, between and after them.
					for i, n := 0, c.IntN(4); i < n; i++ {
						other := parser.Term(parser.S("o"))
						if c.IntN(3) > 0 {
							other = parser.Named{Name: []string{"n", "nmm", "nmo", "mn"}[i], Term: other}
						}
						k := c.IntN(len(s) + 1)
						s = append(s[:k:k], append(parser.Seq{other}, s[k:]...)...)
					}
					if c.IntN(6) == 0 {
						s = append(s, one(parser.S("c")))
					}
					return s
				})
			case 10:
				kind, item = "call of no macro", "nomacro"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					if c.IntN(2) == 0 {
						item = some(w.visible)
					}
					if c.IntN(2) == 0 {
						return around(t, macroCall(item, parser.S("a")))
					}
					return around(parser.S("a"), macroCall(item, t))
				})
			case 11:
				kind, item = "wrong number of arguments", "wm"
				n := c.IntN(5)
				params := []string{"wp", "wq", "wr", "ws"}[:n]
				extra = ".macro wm(" + strings.Join(params, ", ") + ") { \"a\" " + strings.Join(params, " ") + " }"
				inject(func(t parser.Term, w *placeInfo) parser.Term {
					k := c.IntN(6)
					for k == n {
						k = c.IntN(6)
					}
					var args []parser.Term
					for i := 0; i < k; i++ {
						args = append(args, parser.S("a"))
					}
					if k > 0 {
						args[c.IntN(k)] = t
						return macroCall(item, args...)
					}
					return around(t, macroCall(item))
				})
			case 12:
				kind, item = "no wrapper", ".wrapRE"
				var gs []parser.Grammar
				g = mg
				eachGrammar(g, func(g parser.Grammar) { gs = append(gs, g) })
				gs[c.IntN(len(gs))][".wrapRE"] = badWraps[c.IntN(len(badWraps))]
			case 13:
				if c.IntN(2) == 0 {
					kind, item = "macro that calls itself", "wm"
					extra = []string{".macro wm(wp) { wp %!wm(wp) }", ".macro wm() { \"a\" | %!wn() } .macro wn() { %!wm()? }",
						".macro wn() { \"b\":%!wo() } .macro wm() { (wx {wx -> %!wn();}) } .macro wo() { \"c\" %!wm() }",
						".macro wi(wy) { wy } .macro wm() { %!wi(\"a\" %!wi(%!wm())) }"}[c.IntN(4)]
					inject(func(t parser.Term, w *placeInfo) parser.Term {
						if strings.Contains(extra, "wp") {
							return macroCall("wm", t)
						}
						return around(t, macroCall("wm"))
					})
				} else {
					kind, item = "misplaced stack", "stack"
					inject(func(t parser.Term, w *placeInfo) parser.Term {
						if strings.Contains(w.where, "macro argument") {
							item = "" // the macro may not use its argument
						}
						bad := raw(`(@:"+" > "a" | "b")`)
						if c.IntN(2) == 0 {
							return around(t, parser.Opt(bad))
						}
						return around(t, parser.Seq{parser.S("x"), bad})
					})
				}
			}
			if item == "" {
				return
			}
			text := printMacros(c.Rand, g, fancy)
			if c.IntN(2) == 0 {
				text = extra + "\n" + text
			} else {
				text += "\n" + extra
			}
			c.Note("text", text)
			c.Note("fault", kind+": "+item)
			_, err := wbnf.Compile(text, nil)
			c.Eval()
			c.Stat("fault: "+kind, 1)
			c.Distinct(text)
			if err == nil {
				c.Fail("accepted in spite of %s %q", kind, item)
				return
			}
			msg := err.Error()
			switch err.(type) {
			case parser.ParseError, parser.FatalError, parser.UnconsumedInputError:
				if kind != "invalid string" && kind != "invalid regexp" { // some of them are not even tokens
					c.Fail("the text does not parse: %v", err)
				}
				return
			}
			if !strings.Contains(msg, item) {
				c.Fail("the error does not name %q (%s): %s", item, kind, msg)
				return
			}
			if c.Index%50 == 0 {
				c.Sample(map[string]any{"text": text, "fault": kind + ": " + item, "error": msg})
			}
		},
	})
}
