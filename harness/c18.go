package main

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// extOutcome is what a handler does with the text before it, as decided by extModel.
type extOutcome struct {
	tokens  []int // the lengths of the tokens it makes, one after the other
	skip    int   // what it consumes after that
	node    bool  // the result is a node, rather than the one token
	fail    bool
	stop    bool
	residue bool // report the result as one that leaves input unconsumed
}

var errExt = errors.New("the handler does not like it")

type stopErr struct{ n int }

func (stopErr) IsStopError()    {}
func (s stopErr) Error() string { return fmt.Sprint("stop ", s.n) }

var extWord = regexp.MustCompile(`\A[a-z]+`)

// extModel says what the handler of that name does. get returns the text bound to a name.
func extModel(name, rest string, get func(string) (string, bool)) extOutcome {
	switch name {
	case "word":
		if n := len(extWord.FindString(rest)); n > 0 {
			return extOutcome{tokens: []int{n}}
		}
		return extOutcome{fail: true}
	case "nil":
		return extOutcome{node: true}
	case "pair":
		if len(rest) >= 2 && rest[0] < 0x80 && rest[1] < 0x80 {
			return extOutcome{tokens: []int{1, 1}, node: true}
		}
		return extOutcome{fail: true}
	case "dirty": // consumes although it fails
		n := len(rest)
		if n > 3 {
			n = 3
		}
		if strings.HasPrefix(rest, "b") {
			return extOutcome{tokens: []int{1}}
		}
		return extOutcome{skip: n, fail: true}
	case "stop":
		switch {
		case strings.HasPrefix(rest, "a"):
			return extOutcome{tokens: []int{1}}
		case strings.HasPrefix(rest, "!"):
			return extOutcome{stop: true}
		}
		return extOutcome{fail: true}
	case "same":
		if v, ok := get("x"); ok && strings.HasPrefix(rest, v) {
			return extOutcome{tokens: []int{len(v)}}
		}
		return extOutcome{fail: true}
	case "gap": // leaves out some of what it consumes
		if strings.HasPrefix(rest, "(") {
			return extOutcome{tokens: []int{1}, skip: len(rest) - len(strings.TrimLeft(rest[1:], "b")) - 1, node: true}
		}
		return extOutcome{fail: true}
	case "escape":
		i := 0
		for i < len(rest) && strings.IndexByte("ab1+", rest[i]) >= 0 {
			i++
		}
		switch {
		case strings.HasPrefix(rest, "!"):
			return extOutcome{stop: true}
		case i == 0:
			return extOutcome{skip: 1, fail: true}
		case rest[0] == 'b':
			return extOutcome{tokens: []int{1, i - 1}, node: true}
		case rest[0] == '1':
			return extOutcome{tokens: []int{i}, residue: true}
		}
		return extOutcome{tokens: []int{i}}
	}
	panic(name)
}

var extNames = []string{"word", "nil", "pair", "dirty", "stop", "same", "gap"}

var extSamples = map[string][]string{
	"word": {"a", "abc", "x"}, "nil": {""}, "pair": {"ab", "+(", "1a"}, "dirty": {"b", "a"},
	"stop": {"a", "a", "a", "a", "!"}, "same": {"a", "ab", "b"}, "gap": {"(", "(bb", "(b"},
}

type extHost struct {
	names []string // bindings to tell of
	log   []string
	limit int
	calls map[string]int
}

func (h *extHost) entry(name string, pos, rest int, get func(string) (string, bool)) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s at %d with %d left", name, pos, rest)
	for _, n := range h.names {
		if v, ok := get(n); ok {
			fmt.Fprintf(&sb, " %s=%q", n, v)
		}
	}
	h.log = append(h.log, sb.String())
	h.calls[name]++
}

// External is the reference's side.
func (h *extHost) External(name, in string, pos int, sc *refScope) (*Tree, int, bool, bool) {
	return h.external(name, "", in, pos, sc)
}

func (h *extHost) external(name, hides, in string, pos int, sc *refScope) (*Tree, int, bool, bool) {
	get := func(n string) (string, bool) {
		t, ok := sc.get(n)
		if !ok || n == hides {
			return "", false
		}
		var sb strings.Builder
		for _, l := range t.Leaves() {
			sb.WriteString(l.Text)
		}
		return sb.String(), true
	}
	h.entry(name, pos, len(in)-pos, get)
	o := extModel(name, in[pos:], get)
	if o.stop || o.fail {
		return nil, pos, false, o.stop
	}
	t := &Tree{Tag: "ext:" + name}
	for _, n := range o.tokens {
		t.Kids = append(t.Kids, &Tree{Leaf: true, Text: in[pos : pos+n], Off: pos})
		pos += n
	}
	pos += o.skip
	if !o.node {
		return t.Kids[0], pos, true, false
	}
	return t, pos, true, false
}

func (h *extHost) Escape(hides, in string, pos int, sc *refScope) (*Tree, int, bool, bool) {
	return h.external("escape", hides, in, pos, sc)
}

// handler is the parser's side.
func (h *extHost) handler(name string, stop *error) parser.ExternalRef {
	return func(scope parser.Scope, input *parser.Scanner) (parser.TreeElement, error) {
		get := func(n string) (string, bool) {
			_, e, ok := scope.GetVal(n)
			if !ok {
				return "", false
			}
			var sb strings.Builder
			for _, s := range scanners(e) {
				sb.WriteString(s.String())
			}
			return sb.String(), true
		}
		rest := input.String()
		h.entry(name, input.Offset(), len(rest), get)
		o := extModel(name, rest, get)
		if o.stop {
			*stop = &stopErrPtr{stopErr{len(h.log)}}
			return nil, *stop
		}
		node := parser.Node{Tag: "ext:" + name}
		in := input
		if o.residue {
			cp := *input
			in = &cp
		}
		for _, n := range o.tokens {
			var s parser.Scanner
			in.Eat(n, &s)
			node.Children = append(node.Children, s)
		}
		if o.skip > 0 {
			var s parser.Scanner
			in.Eat(o.skip, &s)
		}
		if o.fail {
			return nil, errExt
		}
		var result parser.TreeElement = node
		if !o.node {
			result = node.Children[0]
		}
		if o.residue {
			return nil, parser.UnconsumedInput(*in, result)
		}
		return result, nil
	}
}

type stopErrPtr struct{ stopErr }

var c18Escapes = []struct{ key, open, close string }{
	{"*{{()}}", "{{", "}}"},
	{"*<\\s*()\\s*>", "<\\s*", "\\s*>"},
	{"*<|«()»|>", "<|«", "»|>"},
	{"*%%[A-Z]*:()%", "%%[A-Z]*:", "%"},
}

var c18EscapeTexts = [][]string{
	{"{{a}}", "{{bab}}", "{{1+}}", "{{", "{{a", "{{c}}", "{{!}}", "{{a}", "{{11}}", "{{a}}{{b}}"},
	{"<a>", "< a\n>", "<b  >", "<1>", "<", "<a", "<c>", "<!>", "<a><1>"},
	{"<a>", "«b»", "<1»", "«a1>", "«", "«x»", "<!", "<a>«a»"},
	{"%%:a%", "%%XY:ba%", "%%A:1%", "%%:", "%%", "%%:!%", "%%:a", "%%Q:a1%"},
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 4, Exts: extNames, Refs: true},
		{Rules: 4, Depth: 5, Exts: extNames, Scoped: true},
		{Rules: 3, Depth: 4, Exts: extNames, Wrap: true, Refs: true, Scoped: true},
		{Rules: 4, Depth: 3, Exts: []string{"word", "same", "stop", "dirty"}, NoNames: false, Refs: true},
	}
	register(&Check{
		ID:    "C18",
		Rule:  "random grammars with external references everywhere (in sequences, choices, repetitions, delimiters, lookaheads, scoped grammars, stacks) whose handlers consume a token, nothing, several tokens, what a name was bound to, more than they return, or fail (also after consuming) or stop the parse; and with escapes of four kinds inserted anywhere into inputs, complete and not, whose handlers return tokens or nodes, report unconsumed input, fail or stop. The log of calls - handler, position, rest of the input, values bound - as well as outcome and tree are compared with those of the reference interpreter under the same handlers; stop errors must come back identical. Distinct by (grammar, input) with at least one call.",
		Cases: map[string]int{"quick": 9000, "thorough": 300000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			o.ExtSamples = extSamples
			esc := -1
			if c.IntN(2) == 0 {
				esc = c.IntN(len(c18Escapes))
				o.Escapes = c18EscapeTexts[esc]
				if c.IntN(2) == 0 {
					o.Exts = nil
				}
			}
			g, rules := genGrammar(c.Rand, o)
			text := printGrammar(g)
			c.Note("grammar", text)
			exts := 0
			for _, t := range g {
				walkTerm(t, func(t parser.Term) {
					if _, ok := t.(parser.ExtRef); ok {
						exts++
					}
				})
			}
			if exts == 0 && esc < 0 {
				c.Stat("grammars without external references", 1)
				return
			}
			p, mode, ok := build(c, g, text)
			if !ok {
				return
			}
			ref := newRef(g)
			names := append([]string{}, genNames...)
			for _, r := range genRuleNames {
				names = append(names, r)
			}
			missing := ""
			if c.IntN(10) == 0 {
				missing = extNames[c.IntN(len(extNames))]
			}
			for i := 0; i < 10; i++ {
				rule := rules[0]
				if c.IntN(3) == 0 {
					rule = rules[c.IntN(len(rules))]
				}
				input := genInputs(c.Rand, g, rule, o, 1)[0]
				c.Note("rule", rule)
				c.Note("input", input)
				want := &extHost{names: names, calls: map[string]int{}}
				ref.host = want
				if missing != "" {
					ref.host = missingHost{want, missing}
				}
				ref.escOpen, ref.escClose = nil, nil
				if esc >= 0 {
					c.Note("escape", c18Escapes[esc].key)
					ref.escOpen = regexp.MustCompile(`(?m)\A(?:` + c18Escapes[esc].open + `)`)
					ref.escClose = regexp.MustCompile(`(?m)\A(?:` + c18Escapes[esc].close + `)`)
				}
				ref.kinds = map[string]int{}
				w := ref.Parse(rule, input)
				if w.Budget {
					c.Stat("skipped: too expensive for the reference", 1)
					continue
				}
				got := &extHost{names: names, calls: map[string]int{}}
				var stop error
				refs := parser.ExternalRefs{}
				for _, n := range extNames {
					if n != missing {
						refs[n] = got.handler(n, &stop)
					}
				}
				if esc >= 0 {
					refs[c18Escapes[esc].key] = got.handler("escape", &stop)
				}
				var e parser.TreeElement
				var err error
				if !c.Try("ParseWithExternals", func() {
					e, err = p.ParseWithExternals(rule, parser.NewScanner(input), refs)
				}) {
					return
				}
				c.Eval()
				for k, n := range got.calls {
					c.Stat("calls of "+k, n)
				}
				c.Stat("escapes without end", ref.kinds["escape without end"])
				if stop != nil {
					c.Stat("parses stopped", 1)
					if err != stop {
						c.Fail("a handler returned the stop error %v, but the parse gave %v, %v", stop, e, err)
						return
					}
				}
				if err != nil && len(input) <= 80 { // messages grow with the cube of the depth
					if rc := catch(func() { _ = err.Error() }); rc != nil {
						c.Fail("rendering the error panicked: %v", rc)
						return
					}
				}
				res := outcome{Err: err}
				if err == nil {
					res.OK, res.End, res.Tree = true, len(input), fromElement(e)
				} else if u, ok := err.(parser.UnconsumedInputError); ok {
					res.OK, res.End, res.Tree = true, len(input)-len(u.Residue().String()), fromElement(u.Result())
				}
				if mode == fromTextCut && !res.OK {
					continue // cut points may have given up an alternative
				}
				if w.OK != res.OK || w.OK && w.End != res.End {
					c.Fail("rule %s on %q: expected %s, got %s (%v)", rule, input, describe(w.OK, w.End, input), describe(res.OK, res.End, input), err)
					return
				}
				if w.OK && w.Tree.String() != res.Tree.String() {
					c.Fail("rule %s on %q:\n expected %s\n      got %s", rule, input, w.Tree, res.Tree)
					return
				}
				if d := firstDiff(want.log, got.log); d != "" && mode != fromTextCut {
					c.Fail("rule %s on %q: calls differ: %s", rule, input, d)
					return
				}
				if len(got.log) > 0 {
					c.Distinct(text, input, strings.Join(got.log, ";"))
				}
				c.Max("calls in a parse", len(got.log))
			}
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"grammar": text})
			}
		},
	})
}

// missingHost has no handler of one name.
type missingHost struct {
	*extHost
	missing string
}

func (h missingHost) External(name, in string, pos int, sc *refScope) (*Tree, int, bool, bool) {
	if name == h.missing {
		return nil, pos, false, true // ends the parse
	}
	return h.extHost.External(name, in, pos, sc)
}

func firstDiff(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("call %d, %q, was not made", i, want[i])
		}
		if want[i] != got[i] {
			return fmt.Sprintf("call %d is %q instead of %q", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("call %d, %q, was not due", len(want), got[len(want)])
	}
	return ""
}
