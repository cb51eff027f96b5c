package main

import (
	"bytes"
	"errors"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

var errFull = errors.New("the disk is full")

// fullWriter takes so many bytes and fails ever after.
type fullWriter struct {
	room    int
	got     []byte
	failed  bool
	tooMany bool // written to after it failed
	calls   int
}

func (w *fullWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed {
		w.tooMany = true
		return 0, errFull
	}
	n := len(p)
	if n > w.room {
		n = w.room
	}
	w.got = append(w.got, p[:n]...)
	w.room -= n
	if n < len(p) || w.room == 0 && len(p) > 0 {
		w.failed = true
		return n, errFull
	}
	return n, nil
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 4, AST: true, NoLook: true, Regexps: plainRegexps()},
		{Rules: 4, Depth: 3, AST: true, NoLook: true, Regexps: plainRegexps(), Scoped: true},
		{Rules: 5, Depth: 5, AST: true, NoLook: true, Regexps: plainRegexps(), Scoped: true, Tokens: []string{"a", "b", "é", "\n", "%", "+"}},
		{Rules: 4, Depth: 4, AST: true, NoLook: true, Wrap: true, Scoped: true},
		{Rules: 4, Depth: 4, AST: true, NoLook: true},
	}
	register(&Check{
		ID:    "C16",
		Rule:  "random grammars over all constructs but lookaheads, back and external references (delimiters of all associativities with optional ends, stacks, scoped grammars, wrappers, regexps with captures) and inputs they match; what Unparse writes for each tree, also for those of matched prefixes, is compared with the texts of its tokens and, if nothing is swallowed, with the input; the count with the bytes written; and writers failing at each of several places must get no more after they failed, with their error and the number of bytes they took returned. Distinct by (grammar, tree).",
		Cases: map[string]int{"quick": 8000, "thorough": 300000},
		Run: func(c *Case) {
			k := c.IntN(len(opts))
			g, rules := genGrammar(c.Rand, opts[k])
			if c.Index%6 == 5 {
				g, rules = genListGrammar(c.Rand)
			}
			plain := k < 3
			text := printGrammar(g)
			c.Note("grammar", text)
			p, _, ok := build(c, g, text)
			if !ok {
				return
			}
			ref := newRef(g)
			for i := 0; i < 8; i++ {
				rule := rules[c.IntN(len(rules))]
				input := genInputs(c.Rand, g, rule, opts[k], 1)[0]
				c.Note("rule", rule)
				c.Note("input", input)
				if ref.Parse(rule, input).Budget {
					continue
				}
				got, fine := runParse(c, p, rule, input)
				if !fine {
					return
				}
				if !got.OK {
					continue
				}
				c.Note("tree", got.Tree.String())
				var want strings.Builder
				for _, l := range got.Tree.Leaves() {
					want.WriteString(l.Text)
				}
				if plain && want.String() != input[:got.End] {
					c.Fail("the tokens of the tree, %q, are not the input matched, %q", want.String(), input[:got.End])
					return
				}
				if !unparseAll(c, p, got.Element, want.String()) {
					return
				}
				if len(got.Tree.Leaves()) > 1 {
					c.Distinct(text, got.Tree)
				}
			}
			if c.Index%100 == 0 {
				c.Sample(map[string]any{"grammar": text})
			}
		},
	})
}

func unparseAll(c *Case, p parser.Parsers, e parser.TreeElement, want string) bool {
	var buf bytes.Buffer
	var n int
	var err error
	c.Eval()
	if !c.Try("Unparse", func() { n, err = p.Unparse(e, &buf) }) {
		return false
	}
	switch {
	case err != nil:
		c.Fail("Unparse failed with %v though the writer did not", err)
		return false
	case buf.String() != want:
		c.Fail("Unparse wrote %q instead of %q", buf.String(), want)
		return false
	case n != len(want):
		c.Fail("Unparse wrote %d bytes and returned %d", len(want), n)
		return false
	}
	c.Stat("bytes written", n)
	// Writers that fail.
	for i := 0; i < 3 && len(want) > 0; i++ {
		room := c.IntN(len(want) + 1)
		if i == 0 {
			room = 0
		}
		w := &fullWriter{room: room}
		if !c.Try("Unparse", func() { n, err = p.Unparse(e, w) }) {
			return false
		}
		c.Eval()
		c.Stat("failing writers", 1)
		switch {
		case err != errFull:
			c.Fail("a writer failed after %d bytes of %q, but Unparse returned %v", room, want, err)
		case string(w.got) != want[:room]:
			c.Fail("a failing writer was given %q instead of %q", w.got, want[:room])
		case n != room:
			c.Fail("a writer took %d bytes of %q and failed, but Unparse returned %d", room, want, n)
		case w.tooMany:
			c.Fail("a writer was written to after it failed with %d bytes of %q", room, want)
		}
		if c.failed {
			return false
		}
	}
	return true
}
