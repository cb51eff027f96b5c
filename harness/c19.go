package main

import (
	"fmt"
	"regexp"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// hoister renames the rules of scoped grammars apart and makes them rules of
// the one grammar.
type hoister struct {
	out parser.Grammar
	n   int
}

type hoistEnv struct {
	parent *hoistEnv
	names  map[parser.Rule]parser.Rule
	at     parser.Rule
}

func (e *hoistEnv) lookup(r parser.Rule) parser.Rule {
	if r == parser.At {
		return e.at
	}
	for ; e != nil; e = e.parent {
		if n, has := e.names[r]; has {
			return n
		}
	}
	panic("undefined " + string(r))
}

func (h *hoister) grammar(g parser.Grammar, outer *hoistEnv) *hoistEnv {
	env := &hoistEnv{parent: outer, names: map[parser.Rule]parser.Rule{}}
	if outer != nil {
		env.at = outer.at
	}
	for r := range g {
		if outer == nil {
			env.names[r] = r
		} else {
			h.n++
			env.names[r] = parser.Rule(fmt.Sprintf("%s__h%d", r, h.n))
		}
	}
	for r, t := range g {
		if r == ".wrapRE" {
			h.out[r] = t
			continue
		}
		name := env.names[r]
		stack, ok := t.(parser.Stack)
		if !ok {
			h.out[name] = h.term(t, env)
			continue
		}
		var layers parser.Stack
		for i, l := range stack {
			at := name
			if j := (i + 1) % len(stack); j > 0 {
				at = parser.Rule(fmt.Sprintf("%s@%d", name, j))
			}
			layers = append(layers, h.term(l, &hoistEnv{parent: env, at: at}))
		}
		h.out[name] = layers
	}
	return env
}

func (h *hoister) term(t parser.Term, env *hoistEnv) parser.Term {
	switch t := t.(type) {
	case parser.Rule:
		return env.lookup(t)
	case parser.ScopedGrammar:
		return h.term(t.Term, h.grammar(t.Grammar, env))
	}
	return mapSubterms(t, func(t parser.Term) parser.Term { return h.term(t, env) })
}

var hoistMark = regexp.MustCompile(`__h\d+`)

func (t *Tree) unhoist() *Tree {
	t.Walk(func(t *Tree) { t.Tag = hoistMark.ReplaceAllString(t.Tag, "") })
	return t
}

func init() {
	knownProbes["parse-fails"] = func(args map[string]string) bool {
		p, err := wbnf.Compile(args["grammar"], nil)
		if err == nil {
			_, err = p.Parse(parser.Rule(args["rule"]), parser.NewScanner(args["input"]))
		}
		return err != nil
	}
	knownProbes["tag-missing"] = func(args map[string]string) bool {
		p, err := wbnf.Compile(args["grammar"], nil)
		if err != nil {
			return false
		}
		e, err := p.Parse(parser.Rule(args["rule"]), parser.NewScanner(args["input"]))
		found := false
		fromElement(e).Walk(func(t *Tree) { found = found || t.Tag == args["tag"] })
		return err == nil && !found
	}
	opts := []GenOpts{
		{Rules: 3, Depth: 4},
		{Rules: 2, Depth: 6},
		{Rules: 4, Depth: 4, NoRE: true, Tokens: []string{"a", "b", "c", "ab", "(", ")", ","}},
		{Rules: 3, Depth: 4, Wrap: true},
		{Rules: 3, Depth: 5, Wrap: true},
		{Rules: 3, Depth: 4, Refs: true},
	}
	register(&Check{
		ID: "C19",
		Rule: "random grammars with up to eight scoped grammars each, nested and side by side, on all kinds of terms and on the levels of stacks, with local stacks, wrappers and rules that shadow outer rules, name each other and refer outwards (also to the next level of an enclosing stack), compiled from terms and from text; " +
			"every parse is compared to the reference's, and, where no scoped grammar has a wrapper, to that of the grammar in which all local rules were renamed apart and hoisted. Local rules are not rules of the parsers. Distinct by (grammar, rule, input) where a local rule or wrapper was entered.",
		Cases: map[string]int{"quick": 5500, "thorough": 250000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			o.Scoped, o.MoreScopes = true, true
			// The tags of rules that name outer ones are as in known-findings.json.
			o.OuterAlias = c.Index%4 == 3
			tree := func(t *Tree) string {
				if t != nil && o.OuterAlias {
					t.Walk(func(t *Tree) { t.Tag = "" })
				}
				return t.String()
			}
			g, rules := genGrammar(c.Rand, o)
			text := printGrammar(g)
			if c.IntN(3) == 0 {
				text = printFancy(c.Rand, g)
			}
			c.Note("grammar", text)
			p, mode, ok := build(c, g, text)
			if !ok {
				return
			}
			for _, r := range genRuleNames {
				_, is := g[parser.Rule(r)]
				if has := p.HasRule(parser.Rule(r)); has != is {
					c.Fail("HasRule(%s) is %v", r, has)
					return
				}
			}
			scopes, localWrap, depth := 0, false, 0
			for _, t := range g {
				d := scopeDepth(t)
				if d > depth {
					depth = d
				}
				walkTerm(t, func(t parser.Term) {
					if s, ok := t.(parser.ScopedGrammar); ok {
						scopes++
						localWrap = localWrap || s.Grammar[".wrapRE"] != nil
					}
				})
			}
			c.Max("scoped grammars", scopes)
			c.Max("nesting of scoped grammars", depth)
			c.Stat("scoped grammars", scopes)
			var hoisted *parser.Parsers
			if !localWrap && !o.Refs {
				h := &hoister{out: parser.Grammar{}}
				h.grammar(g, nil)
				hp := h.out.Compile(nil)
				hoisted = &hp
				c.Stat("grammars hoisted", 1)
			}
			re := hasRE(g)
			checkAgainstRef(c, p, g, rules, o, 10, func(rule parser.Rule, input string, want RefResult, got outcome) {
				if !mustAgree(mode, re, want, got, len(input)) {
					c.Stat("not comparable: cut points", 1)
					return
				}
				if want.OK != got.OK || want.OK && want.End != got.End {
					c.Fail("rule %s on %q: expected %s, got %s (%v)", rule, input, describe(want.OK, want.End, input), describe(got.OK, got.End, input), got.Err)
					return
				}
				if want.OK && tree(want.Tree) != tree(got.Tree) {
					c.Fail("rule %s on %q:\n expected %s\n      got %s", rule, input, want.Tree, got.Tree)
					return
				}
				if hoisted != nil {
					h, fine := runParse(c, *hoisted, rule, input)
					if !fine {
						return
					}
					if h.OK != got.OK || h.OK && (h.End != got.End || tree(h.Tree.unhoist()) != tree(got.Tree)) {
						c.Fail("rule %s on %q: with scoped grammars %s %s, hoisted %s %s", rule, input,
							describe(got.OK, got.End, input), got.Tree, describe(h.OK, h.End, input), h.Tree)
						return
					}
					c.Stat("parses compared with the hoisted grammar", 1)
				}
				if scopes > 0 && input != "" && (want.End > 0 || want.Furthest > 0) {
					c.Distinct(text, rule, input)
				}
			})
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"grammar": text})
			}
		},
	})
}

func scopeDepth(t parser.Term) int {
	best := 0
	in := func(t parser.Term) parser.Term {
		if d := scopeDepth(t); d > best {
			best = d
		}
		return t
	}
	switch t := t.(type) {
	case nil:
	case parser.ScopedGrammar:
		in(t.Term)
		for r, x := range t.Grammar {
			if r != ".wrapRE" {
				in(x)
			}
		}
		best++
	default:
		mapSubterms(t, in)
	}
	return best
}
