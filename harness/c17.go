package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// xmlCase checks nested elements, whose closing tags are back references,
// against a plain stack machine.
func xmlCase(c *Case) {
	tags := []string{"a", "b", "ab", "é", "a.b", "a*", "(", "\\"}[:2+c.IntN(7)]
	body := []string{
		`elem -> "<" tag=/{[^<>/0-9]+} ">" (elem | /{[0-9]})* "</" %tag ">";`,
		`elem -> "<" tag=name ">" inner* "</" %tag ">"; inner -> elem | /{[0-9]}; name -> /{[^<>/0-9]+};`,
		`elem -> "<" name ">" (x=elem | /{[0-9]})* "</" %name ">"; name -> first=/{[^<>/0-9]} /{[^<>/0-9]}*;`,
		`elem -> open (elem | /{[0-9]})* "</" %open ">"; open -> "<" n=/{[^<>/0-9]+} ">";`,
	}
	k := c.IntN(len(body))
	p, ok := compileText(c, body[k])
	if !ok {
		return
	}
	c.Note("grammar", body[k])
	openText := func(t string) string { // what the reference repeats
		if k == 3 {
			return "<" + t + ">"
		}
		return t
	}
	for i := 0; i < 12; i++ {
		var sb strings.Builder
		var gen func(depth int)
		gen = func(depth int) {
			t := tags[c.IntN(len(tags))]
			sb.WriteString("<" + t + ">")
			for j := c.IntN(4); j > 0; j-- {
				if depth > 0 && c.IntN(3) > 0 {
					gen(depth - 1)
				} else {
					sb.WriteString(fmt.Sprint(c.IntN(10)))
				}
			}
			if c.IntN(12) == 0 {
				t = tags[c.IntN(len(tags))]
			}
			sb.WriteString("</" + openText(t) + ">")
		}
		gen(c.IntN(6))
		in := sb.String()
		if c.IntN(6) == 0 {
			in = mutate(c.Rand, in, append([]string{"<", ">", "</", "/"}, tags...))
		}
		c.Note("input", in)
		want := xmlOK(in, k == 3)
		e, err := p.Parse("elem", parser.NewScanner(in))
		c.Eval()
		if want != (err == nil) {
			c.Fail("the text %q is well-formed: %t, but the parser says: %v", in, want, err)
			return
		}
		if want {
			c.Stat("well-formed", 1)
			var out strings.Builder
			for _, s := range scanners(e) {
				out.WriteString(s.String())
			}
			if out.String() != in {
				c.Fail("the tokens of %q are %q", in, out.String())
				return
			}
		} else {
			c.Stat("ill-formed", 1)
		}
		c.Distinct(k, in)
	}
}

func xmlOK(s string, whole bool) bool {
	var stack []string
	name := func() (string, bool) {
		i := strings.IndexAny(s, "<>/0123456789")
		if i <= 0 || s[i] != '>' {
			return "", false
		}
		n := s[:i]
		s = s[i+1:]
		return n, true
	}
	done := false
	for s != "" {
		if done {
			return false
		}
		switch {
		case strings.HasPrefix(s, "</"):
			s = s[2:]
			if len(stack) == 0 {
				return false
			}
			top := stack[len(stack)-1]
			if !strings.HasPrefix(s, top+">") {
				return false
			}
			s = s[len(top)+1:]
			stack = stack[:len(stack)-1]
			done = len(stack) == 0
		case s[0] == '<':
			s = s[1:]
			n, ok := name()
			if !ok {
				return false
			}
			if whole {
				n = "<" + n + ">"
			}
			stack = append(stack, n)
		case s[0] >= '0' && s[0] <= '9' && len(stack) > 0:
			s = s[1:]
		default:
			return false
		}
	}
	return done
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 4, Refs: true, MoreRefs: true},
		{Rules: 4, Depth: 5, Refs: true, MoreRefs: true, NoStack: true, Scoped: true},
		{Rules: 3, Depth: 4, Refs: true, MoreRefs: true, Tokens: []string{"a", "b", "ab", "é", ".", "*"}, Wrap: true},
		{Rules: 2, Depth: 5, Refs: true, MoreRefs: true, NoStack: true, NoLook: true, Tokens: []string{"a", "b", "aa"}},
	}
	register(&Check{
		ID:    "C17",
		Rule:  "random grammars rich in names, rules and references to them (with and without defaults; in sequences, choices, repetitions, delimiters, rules called, lookaheads, scoped grammars, stacks, under wrappers) over derived and mutated inputs, compared - acceptance, length, whole tree - with the reference interpreter, which keeps its own list of bindings; and nested elements with matching tags checked against a stack machine. Non-trivial: a reference with a value or default was tried; distinct by (grammar, rule, input).",
		Cases: map[string]int{"quick": 9000, "thorough": 300000},
		Run: func(c *Case) {
			if c.IntN(8) == 0 {
				xmlCase(c)
				return
			}
			o := pickOpts(c, opts)
			g, rules := genGrammar(c.Rand, o)
			text := printGrammar(g)
			c.Note("grammar", text)
			uses := false
			for _, t := range g {
				walkTerm(t, func(t parser.Term) {
					if _, ok := t.(parser.REF); ok {
						uses = true
					}
				})
			}
			if !uses {
				c.Stat("grammars without references", 1)
				return
			}
			p, mode, ok := build(c, g, text)
			if !ok {
				return
			}
			re := hasRE(g)
			ref := newRef(g)
			for i := 0; i < 12; i++ {
				rule := rules[c.IntN(len(rules))]
				input := genInputs(c.Rand, g, rule, o, 1)[0]
				c.Note("rule", rule)
				c.Note("input", input)
				ref.kinds = map[string]int{}
				want := ref.Parse(rule, input)
				if want.Budget {
					continue
				}
				got, fine := runParse(c, p, rule, input)
				if !fine {
					return
				}
				if !mustAgree(mode, re, want, got, len(input)) {
					continue
				}
				c.Eval()
				if want.OK != got.OK || want.OK && want.End != got.End {
					c.Fail("rule %s on %q: expected %s, got %s (%v)", rule, input, describe(want.OK, want.End, input), describe(got.OK, got.End, input), got.Err)
					return
				}
				if want.OK && want.Tree.String() != got.Tree.String() {
					c.Fail("rule %s on %q:\n expected %s\n      got %s", rule, input, want.Tree, got.Tree)
					return
				}
				tried := ref.kinds["back reference"] + ref.kinds["default"] + ref.kinds["no value"]
				c.Stat("references with a value tried", ref.kinds["back reference"])
				c.Stat("references matched", ref.kinds["back reference matched"])
				c.Stat("defaults tried", ref.kinds["default"])
				c.Stat("references without value or default tried", ref.kinds["no value"])
				if tried > 0 {
					c.Distinct(text, rule, input)
				}
			}
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"grammar": text})
			}
		},
	})
}
