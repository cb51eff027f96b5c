package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// hostile writes grammar texts that are mostly well-formed but for nothing
// else to be relied upon.
type hostile struct {
	*rand.Rand
	macros []string
	arity  map[string]int
	budget int
}

var hostileStrings = []string{`"a"`, `'b'`, "`c`", `""`, `"a"`, `"b"`, `","`, `"\n"`, `"\x41"`, `"\u00e9"`, `"\q"`, `"\x"`, `"\u12"`, `"\xff"`, `"\777"`, `"\U00110000"`,
	"`a``b`", "``", `"\\"`, `"\""`, `'\'`, `'\"'`, `"é"`, `"(?"`, `"\d"`, `"` + "\n" + `"`}
var hostileREs = []string{`[ab]`, `\d`, `\w+`, `.`, `^`, `$`, `/{a*}`, `/{}`, `/{()}`, `/{a()b}`, `/{(}`, `/{)}`, `/{a**}`, `/{[z-a]}`, `/{\Q}`, `/{(?i:a)}`, `/{(?P<n>a)}`,
	`/{(?P<theToken>a)}`, `/{a|}`, `/{|a}`, `/{\z}`, `/{\b}`, `/{(a)|(b)}`, `/{(a)?b}`, `\pL`, `/{\pZZ}`, `[[:alpha:]]`, `[[:foo:]]`, `/{a{2,1}}`, `/{a{1001}}`,
	`/{(?:a|b)*c}`, `/{[^\n]*}`, `/{\_}`, `/{a\_\_b}`, `/{\}`, `/{(?s:.)}`, `/{.*?}`, `/{(?m)$}`, `/{\}}`, `[^]`, `[]]`, `/{\C}`, `/{(?U)a+}`, `/{)(}`, `/{a)|(b}`, `/{(?#)}`}
var hostileIdents = []string{"a", "b", "c", "d", "a", "b", "x", "@", "a@1", "_", ".wrapRE", ".x", "grammar", "é"}
var hostileQuants = []string{"*", "+", "?", "{1,2}", "{2,}", "{,2}", "{,}", "{0,0}", "{3,1}", "{1,1}", "{00,01}", "{99999999999999999999,}", "{ 1 , 3 }", "{,99999999999999999999}", "{,4000000000}", "{1,1000000000}", "{70000,}", "{3000000000,}", "{100000000000000,}", "{9000000000000000000,9100000000000000000}"}

func (h *hostile) pick(s []string) string { return s[h.IntN(len(s))] }

func (h *hostile) ident() string {
	if h.IntN(12) == 0 {
		return h.pick(hostileIdents)
	}
	return hostileIdents[h.IntN(7)]
}

func (h *hostile) atom(d int) string {
	switch n := h.IntN(24); {
	case n < 6:
		if h.IntN(6) == 0 {
			return h.pick(hostileStrings)
		}
		return hostileStrings[h.IntN(8)]
	case n < 9:
		if h.IntN(5) == 0 {
			return h.pick(hostileREs)
		}
		return hostileREs[h.IntN(7)]
	case n < 14:
		return h.ident()
	case n < 15:
		return "%" + h.ident() + []string{"", "", `=""`, `="a"`, `= "\z"`}[h.IntN(5)]
	case n < 16:
		return "%%" + h.ident()
	case n < 17:
		return "()"
	case n < 18:
		return "(?=" + h.term(d-1) + ")"
	case n < 20 && len(h.macros) > 0:
		m := h.pick(h.macros)
		k := h.arity[m]
		if h.IntN(20) == 0 {
			k = h.IntN(3)
		}
		var args []string
		for i := 0; i < k; i++ {
			args = append(args, h.term(d-2))
		}
		return "%!" + m + "(" + strings.Join(args, ",") + ")"
	default:
		if d <= 0 {
			return `"a"`
		}
		return "(" + h.term(d-1) + ")"
	}
}

func (h *hostile) named(d int) string {
	if h.IntN(5) == 0 {
		return h.pick([]string{"n", "m", "x", "a", "@"}) + "=" + h.atom(d)
	}
	return h.atom(d)
}

func (h *hostile) quantified(d int) string {
	s := h.named(d)
	for h.IntN(3) == 0 {
		switch h.IntN(3) {
		case 0:
			s += h.pick(hostileQuants)
		case 1:
			s += hostileQuants[h.IntN(6)]
		case 2:
			s += []string{":", ":>", "<:"}[h.IntN(3)] + []string{"", "", "", ","}[h.IntN(4)] + h.named(d-2) + []string{"", "", "", ","}[h.IntN(4)]
		}
	}
	return s
}

func (h *hostile) seq(d int) string {
	n := 1
	for d > 0 && h.budget > 0 && n < 4 && h.IntN(2) == 0 {
		n++
	}
	var parts []string
	for i := 0; i < n; i++ {
		h.budget--
		parts = append(parts, h.quantified(d-1))
	}
	return strings.Join(parts, " ")
}

func (h *hostile) term(d int) string {
	n := 1
	for d > 0 && h.budget > 0 && n < 4 && h.IntN(3) == 0 {
		n++
	}
	var parts []string
	for i := 0; i < n; i++ {
		parts = append(parts, h.seq(d))
	}
	s := strings.Join(parts, " | ")
	if d > 0 && h.IntN(14) == 0 {
		s += " {" + h.grammar(d-2, false) + "}"
	}
	if d > 0 && h.IntN(25) == 0 {
		s += " > " + h.term(d-1)
	}
	return s
}

func (h *hostile) grammar(d int, top bool) string {
	var sb strings.Builder
	macros := len(h.macros)
	for h.IntN(4) == 0 && len(h.macros) < 4 {
		name := []string{"m1", "m2", "m3", "a"}[h.IntN(4)]
		var args []string
		for i, k := 0, h.IntN(3); i < k; i++ {
			args = append(args, []string{"p", "q", "r", "a"}[h.IntN(4)])
		}
		h.arity[name] = len(args)
		body := h.term(d - 1)
		for _, a := range args {
			body += []string{" ", " | ", " x=", " (?=", ":"}[h.IntN(5)] + a
		}
		if strings.Count(body, "(") > strings.Count(body, ")") {
			body += strings.Repeat(")", strings.Count(body, "(")-strings.Count(body, ")"))
		}
		h.macros = append(h.macros, name)
		fmt.Fprintf(&sb, ".macro %s(%s) { %s }\n", name, strings.Join(args, ","), body)
	}
	names := []string{"a", "b", "c", "d", "x"}
	n := 1 + h.IntN(5)
	for i := 0; i < n; i++ {
		name := names[i]
		if h.IntN(40) == 0 {
			name = h.pick(hostileIdents)
		}
		t := h.term(d)
		if h.IntN(6) == 0 {
			t = []string{`@:"+"`, `@:>"+"`, `@ @`, `@*`, `@`, `@ "a"`, `n=@ op="+" m=@`}[h.IntN(7)] + " > " + t
			if h.IntN(2) == 0 {
				t += ` | "(" @ ")"`
			}
		}
		fmt.Fprintf(&sb, "%s -> %s;\n", name, t)
	}
	if h.IntN(6) == 0 {
		sb.WriteString(".wrapRE -> " + h.pick([]string{`/{\s*()\s*}`, `/{\s*()}`, `"a" | /{\s*()}`, `\d | "b" | /{ _*()_* }`, `"a"`, `/{a}`, `/{(())}`, `/{()|()}`, `a`, `/{()*}`, `/{[()]}`, `()`}) + ";\n")
	}
	if top && h.IntN(40) == 0 {
		sb.WriteString(".import x/y.wbnf;\n")
	}
	h.macros = h.macros[:macros]
	return sb.String()
}

var soup = strings.Split("a|b|x|@|->|->|;|;|(|)|{|}|(?=|:|:>|<:|*|+|?|{1,2}|,|=|>|\"a\"|'b'|`c`|/{a}|/{|%|%%|%!|.macro|.import|.wrapRE|\\d|[ab]|.|..|//|/*|*/|\n|é|\xff|\\|\"|'|`|0|1|2|x=|\"\"|()", "|")

func garble(r *rand.Rand, s string) string {
	for i, n := 0, 1+r.IntN(3); i < n && len(s) > 0; i++ {
		at := r.IntN(len(s) + 1)
		switch r.IntN(7) {
		case 0:
			j := r.IntN(len(s))
			s = s[:j] + s[j+1:]
		case 1, 2:
			s = s[:at] + soup[r.IntN(len(soup))] + s[at:]
		case 3:
			s = s[:at] + string([]byte{byte(r.IntN(256))}) + s[at:]
		case 4:
			i, j := r.IntN(len(s)), r.IntN(len(s))
			if i > j {
				i, j = j, i
			}
			s = s[:i] + s[j:]
		case 5:
			i, j := r.IntN(len(s)), r.IntN(len(s))
			if i > j {
				i, j = j, i
			}
			if j-i > 60 {
				j = i + 60
			}
			s = s[:at] + s[i:j] + s[at:]
		case 6:
			s = s[:at]
		}
	}
	return s
}

type noImports struct{}

func (noImports) Resolve(from, path string) string { return "/nonexistent/" + path }

// atOutsideStack tells whether a grammar uses @ where it has no meaning, which
// is a recorded finding of C07.
func atOutsideStack(g parser.Grammar) bool {
	bad := false
	var look func(g parser.Grammar, in bool)
	var walk func(t parser.Term, in bool)
	walk = func(t parser.Term, in bool) {
		switch t := t.(type) {
		case parser.Rule:
			if t == parser.At && !in {
				bad = true
			}
		case parser.CutPoint:
			walk(t.Term, in)
		case parser.Seq:
			for _, x := range t {
				walk(x, in)
			}
		case parser.Oneof:
			for _, x := range t {
				walk(x, in)
			}
		case parser.Stack:
			for _, x := range t {
				walk(x, true)
			}
		case parser.Delim:
			walk(t.Term, in)
			walk(t.Sep, in)
		case parser.Quant:
			walk(t.Term, in)
		case parser.Named:
			walk(t.Term, in)
		case parser.LookAhead:
			walk(t.Term, in)
		case parser.ScopedGrammar:
			walk(t.Term, in)
			look(t.Grammar, in)
		}
	}
	look = func(g parser.Grammar, in bool) {
		for _, t := range g {
			walk(t, in)
		}
	}
	look(g, false)
	return bad
}

func deepText(c *Case) string {
	n := []int{3, 10, 20, 30, 40, 60, 120}[c.IntN(6+c.IntN(200)/199)]
	open, shut, mid := "(", ")", `"a"`
	switch c.IntN(9) {
	case 0:
		open, shut = "(?=", ")"
	case 1:
		open, shut = "x=(", ")"
	case 2:
		open, shut = "(", ")*"
	case 3:
		open, shut = `"a":(`, ")"
	case 4:
		open, shut = `("b" | `, ")"
	case 5:
		open, shut = `"b" {a -> `, ";}"
		n = n/3 + 1
	case 6:
		open, shut = "(", "):,"+`"b",`
	case 7:
		open, shut = "%!m(", ")"
	}
	if c.IntN(5) == 0 {
		shut = ""
	}
	return "a -> " + strings.Repeat(open, n) + mid + strings.Repeat(shut, n) + ";" + []string{"", " .macro m(p) { p? }"}[c.IntN(2)]
}

func hostileText(c *Case) (text, kind string) {
	if c.IntN(50) == 0 {
		return deepText(c), "deep nesting"
	}
	switch c.IntN(9) {
	case 0:
		for i, n := 0, 1+c.IntN(30); i < n; i++ {
			text += soup[c.IntN(len(soup))]
			if c.IntN(2) == 0 {
				text += " "
			}
		}
		return text, "token soup"
	case 1:
		b := make([]byte, c.IntN(40))
		for i := range b {
			b[i] = byte(c.IntN(256))
			if c.IntN(2) == 0 {
				b[i] = byte(32 + c.IntN(96))
			}
		}
		if c.IntN(2) == 0 {
			return "a -> " + string(b) + ";", "random bytes"
		}
		return string(b), "random bytes"
	case 2, 3:
		g, _ := genGrammar(c.Rand, GenOpts{Refs: true, Scoped: true, Wrap: true, Exts: []string{"f"}})
		return garble(c.Rand, printFancy(c.Rand, g)), "garbled grammar"
	default:
		h := &hostile{Rand: c.Rand, arity: map[string]int{}, budget: 40}
		text = h.grammar(1+c.IntN(4), true)
		if c.IntN(4) == 0 {
			return garble(c.Rand, text), "garbled hostile grammar"
		}
		return text, "hostile grammar"
	}
}

func init() {
	knownProbes["parse-panics"] = func(args map[string]string) bool {
		return catch(func() {
			p, err := wbnf.Compile(args["grammar"], nil)
			if err == nil {
				_, _ = p.Parse(parser.Rule(args["rule"]), parser.NewScanner(args["input"]))
			}
		}) != nil
	}
	knownProbes["compile-fails"] = func(args map[string]string) bool {
		_, err := wbnf.Compile(args["grammar"], nil)
		return err != nil
	}
	register(&Check{
		ID: "C07",
		Rule: "texts (hostile grammars with left recursion, nullable bodies, undefined names, wrong strings and regexps, extreme bounds, macros, stacks and scoped grammars anywhere; garbled valid ones; token soup; random bytes; deep nesting) " +
			"are compiled, and what compiles parses derived, garbled and random inputs from every rule, with and without externals; every panic, dead process, runaway (by CPU time and live heap) and missing error is a violation, as is an error that cannot be rendered. " +
			"Non-trivial: the text compiled and inputs were parsed, or it was rejected by validation; distinct by text.",
		Cases:      map[string]int{"quick": 12000, "thorough": 600000},
		CPUSeconds: 60,
		Run: func(c *Case) {
			text, kind := hostileText(c)
			c.Note("text", text)
			c.Stat(kind, 1)
			p, err := wbnf.Compile(text, noImports{})
			c.Eval()
			if err != nil {
				msg := ""
				if len(text) < 400 {
					msg = err.Error()
					if msg == "" {
						c.Fail("empty error message %T", err)
						return
					}
				}
				switch err.(type) {
				case parser.ParseError, parser.FatalError, parser.UnconsumedInputError:
					c.Stat("rejected by the parser", 1)
				default:
					c.Stat("rejected by validation", 1)
					c.Distinct(text)
				}
				return
			}
			c.Stat("compiled", 1)
			g := p.Grammar()
			if atOutsideStack(g) {
				c.Stat("compiled, with @ outside of a stack (known finding)", 1)
				return
			}
			_ = g.String()
			var rules []string
			for r := range g {
				if r != ".wrapRE" && r != parser.At {
					rules = append(rules, string(r))
				}
			}
			sort.Strings(rules)
			if len(rules) == 0 {
				return
			}
			ref := newRef(g)
			ref.limit = 20000
			c.Distinct(text)
			for k := 0; k < 6; k++ {
				rule := parser.Rule(rules[c.IntN(len(rules))])
				var input string
				switch c.IntN(4) {
				case 0:
					input = garble(c.Rand, "aab b,c(a)+a1 ab"+strings.Repeat("a", c.IntN(8)))
				case 1:
					b := make([]byte, c.IntN(12))
					for i := range b {
						b[i] = "ab,+(1 \n\xff\xc3"[c.IntN(10)]
					}
					input = string(b)
				default:
					input = safeInput(c, g, rule)
				}
				c.Note("rule", rule)
				c.Note("input", input)
				want := ref.Parse(rule, input)
				if want.Budget && !ref.tooDeep {
					c.Stat("too expensive to parse", 1)
					continue
				}
				var e parser.TreeElement
				if c.IntN(3) == 0 {
					e, err = p.ParseWithExternals(rule, parser.NewScanner(input), parser.ExternalRefs{
						"a": eatOne, "b": eatOne, "f": eatOne, "x": refuse,
					})
				} else {
					e, err = p.Parse(rule, parser.NewScanner(input))
				}
				c.Eval()
				c.Stat("parses", 1)
				if (e == nil) == (err == nil) {
					c.Fail("tree %v and error %v", e, err)
					return
				}
				if err != nil && ref.steps < 300 && err.Error() == "" {
					c.Fail("empty error message %T", err)
					return
				}
				if err == nil {
					c.Stat("successful parses", 1)
				}
			}
			c.Sample(map[string]any{"text": text})
		},
	})
}

func eatOne(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
	var eaten parser.Scanner
	if in.String() == "" {
		// A handler that took nothing could be called for ever.
		return nil, fmt.Errorf("nothing left")
	}
	in.Eat(1, &eaten)
	return eaten, nil
}

func refuse(_ parser.Scope, in *parser.Scanner) (parser.TreeElement, error) {
	return nil, fmt.Errorf("refused")
}

// safeInput derives an input from a grammar whose regexps are arbitrary.
func safeInput(c *Case, g parser.Grammar, rule parser.Rule) (s string) {
	if catch(func() {
		s = genInputs(c.Rand, g, rule, GenOpts{Regexps: []reSample{
			{`a*`, []string{"", "a", "aa"}}, {``, []string{""}}, {`^`, []string{""}}, {`$`, []string{""}}, {`()`, []string{""}}, {`(a)?b`, []string{"b", "ab"}}}}, 1)[0]
	}) != nil {
		return "a"
	}
	return s
}
