package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func init() {
	register(&Check{
		ID: "C21",
		Rule: "random histories of 20 to 80 operations on two random grammars (everything C20 does, in one goroutine: parsing with and without externals, failing and partial parses, conversions, unparsing, printing, comparing, compiling good and bad texts, macros, imports and the same terms again, walking, generating code); " +
			"each result has to equal what the same operation gave at first, what earlier operations returned and what is shared has to look the same after later ones, and parsers compiled before and after the history must behave the same. Then grammars that differ in little (wrapper, tokens, regexps) are used in turn and have to behave as the reference says, and texts parsed before are parsed from another offset. Distinct by grammar and order of operations; non-trivial if at least ten different operations were repeated.",
		Cases: map[string]int{"quick": 800, "thorough": 60000},
		Run: func(c *Case) {
			var worlds []*world
			for i := 0; i < 2; i++ {
				w := newWorld(c, func() {})
				if w == nil {
					return
				}
				defer w.close()
				if w.dir != "" {
					w.ops = append(w.ops, changingImports(w.dir))
				}
				c.Note(fmt.Sprint("grammar ", i), w.text)
				worlds = append(worlds, w)
			}
			before := make([]string, len(worlds))
			for i, w := range worlds {
				before[i] = w.state()
			}
			unchanged := func(after string) bool {
				for i, w := range worlds {
					if now := w.state(); now != before[i] {
						c.Fail("what is shared changed in %s from\n%s\nto\n%s", after, before[i], now)
						return false
					}
				}
				return true
			}
			type opID struct{ world, op int }
			first := map[opID]string{}
			repeated := map[opID]bool{}
			// What was returned, and how it looked then.
			type kept struct {
				what, look string
				see        func() string
			}
			var keep []kept
			var history []string
			var order []opID
			var hot []opID
			for i, w := range worlds {
				for k := 0; k < 6; k++ {
					hot = append(hot, opID{i, c.IntN(len(w.ops))})
				}
			}
			for k, n := 0, 20+c.IntN(60); k < n; k++ {
				id := hot[c.IntN(len(hot))]
				if c.IntN(2) == 0 {
					wi := c.IntN(len(worlds))
					id = opID{wi, c.IntN(len(worlds[wi].ops))}
				}
				w := worlds[id.world]
				o := w.ops[id.op]
				order = append(order, id)
				history = append(history, fmt.Sprintf("%s (of %d)", o.name, id.world))
				var got string
				if !c.Try(o.name, func() { got = o.run() }) {
					c.Note("history", history)
					return
				}
				if strings.HasPrefix(got, "\x00") {
					c.Note("history", history)
					c.Fail("%s: %s", o.name, got[1:])
					return
				}
				c.Eval()
				c.Stat(o.name, 1)
				if want, has := first[id]; !has {
					first[id] = got
				} else {
					repeated[id] = true
					if got != want {
						c.Note("history", history)
						c.Fail("%q gave\n%s\nbut at first it gave\n%s", o.name, got, want)
						return
					}
				}
				if c.IntN(6) == 0 {
					if !unchanged(fmt.Sprintf("%q or some operations before it (%v)", o.name, history)) {
						return
					}
				}
				if c.IntN(3) == 0 {
					in := w.inputs[c.IntN(len(w.inputs))]
					e, err := w.with(w.p, in)
					see := func() string { return outcomeText(e, err) }
					keep = append(keep, kept{"a parse result", see(), see})
					if e != nil && in.ast != nil {
						b := ast.FromParserNode(w.p.Grammar(), e)
						see := func() string { return canonAST(b, true) }
						keep = append(keep, kept{"an AST", see(), see})
						if n, ok := e.(parser.Node); ok && catch(func() { ast.ToParserNode(w.p.Grammar(), b) }) == nil {
							back := ast.ToParserNode(w.p.Grammar(), b)
							see := func() string { return fromElement(back).String() + fmt.Sprint(n) }
							keep = append(keep, kept{"a tree made from an AST", see(), see})
						}
					}
				}
			}
			c.Note("history", history)
			if !unchanged("the history") {
				return
			}
			for _, k := range keep {
				c.Eval()
				c.Stat("earlier results looked at again", 1)
				if now := k.see(); now != k.look {
					c.Fail("%s looked like\n%s\nand after the rest of the history like\n%s", k.what, k.look, now)
					return
				}
			}
			// Parsers compiled now.
			for i, w := range worlds {
				again, ok := compileText(c, w.text)
				if !ok {
					return
				}
				terms := w.g.Compile(nil)
				if a, b := grammarText(again.Grammar()), grammarText(w.p.Grammar()); a != b {
					c.Fail("compiling grammar %d gave\n%s\nat first and after the history\n%s", i, b, a)
					return
				}
				for j, in := range w.inputs {
					a := outcomeText(w.with(w.p, in))
					b := outcomeText(w.with(again, in))
					c.Eval()
					if a != b {
						c.Fail("input %d of grammar %d gives\n%s\nbut with a parser compiled later\n%s", j, i, a, b)
						return
					}
					// The terms as they were generated, twice.
					if x, y := outcomeText(w.with(terms, in)), outcomeText(w.with(w.g.Compile(nil), in)); x != y {
						c.Fail("input %d of grammar %d gives\n%s\nbut with its terms compiled again\n%s", j, i, x, y)
						return
					}
				}
			}
			for _, w := range worlds {
				if len(w.opts.Exts)+len(w.opts.Escapes) == 0 {
					if !relatives(c, w) || !elsewhere(c, w) {
						return
					}
				}
			}
			c.Max("operations repeated", len(repeated))
			if len(repeated) >= 10 {
				c.Distinct(worlds[0].text, worlds[1].text, order)
			}
			if c.Index%300 == 0 {
				c.Sample(map[string]any{"grammar": worlds[0].text, "history": history})
			}
		},
	})
}

// relatives uses grammars that have much in common in turn.
func relatives(c *Case, w *world) bool {
	type relative struct {
		g    parser.Grammar
		p    parser.Parsers
		mode buildMode
		re   bool
	}
	var all []relative
	for i := 0; i < 3; i++ {
		g := w.g
		if i > 0 {
			g = vary(c.Rand, w.g)
		}
		p, mode, ok := build(c, g, printGrammar(g))
		if !ok {
			return false
		}
		all = append(all, relative{g, p, mode, hasRE(g)})
	}
	for k := 0; k < 9 && !c.failed; k++ {
		r := all[k%3]
		if k >= 3 {
			r = all[c.IntN(3)]
		}
		c.Stat("uses of grammars alike in turn", 1)
		checkAgainstRef(c, r.p, r.g, w.rules, w.opts, 2, func(rule parser.Rule, input string, want RefResult, got outcome) {
			if !mustAgree(r.mode, r.re, want, got, len(input)) {
				return
			}
			if want.OK != got.OK || want.OK && (want.End != got.End || want.Tree.String() != got.Tree.String()) {
				c.Note("grammar used", printGrammar(r.g))
				c.Fail("after grammars like it, rule %s on %q: expected %s, got %s (%v)", rule, input, describe(want.OK, want.End, input), describe(got.OK, got.End, input), got.Err)
			}
		})
	}
	return !c.failed
}

// vary returns a copy of a grammar with another wrapper, or other tokens here and there.
func vary(r *rand.Rand, g parser.Grammar) parser.Grammar {
	var tokens []parser.S
	for _, t := range g {
		walkTerm(t, func(t parser.Term) {
			if s, ok := t.(parser.S); ok && s != "" {
				tokens = append(tokens, s)
			}
		})
	}
	tokens = append(tokens, "a", "+")
	sort.Slice(tokens, func(i, j int) bool { return tokens[i] < tokens[j] })
	odds := 1 + r.IntN(8)
	var edit func(t parser.Term) parser.Term
	grammar := func(g parser.Grammar) parser.Grammar {
		out := parser.Grammar{}
		for _, name := range sortedRules(g) {
			if t := g[parser.Rule(name)]; name == ".wrapRE" {
				out[".wrapRE"] = t
			} else {
				out[parser.Rule(name)] = edit(t)
			}
		}
		return out
	}
	edit = func(t parser.Term) parser.Term {
		switch t := t.(type) {
		case parser.S:
			if t != "" && r.IntN(odds) == 0 {
				return tokens[r.IntN(len(tokens))]
			}
			return t
		case parser.RE:
			if r.IntN(odds) == 0 {
				return parser.RE([]string{`[ab]`, `\d`, `a(b|c)`, `\w+`}[r.IntN(4)])
			}
			return t
		case parser.ScopedGrammar:
			return parser.ScopedGrammar{Term: edit(t.Term), Grammar: grammar(t.Grammar)}
		}
		return mapSubterms(t, edit)
	}
	wrap := r.IntN(2) == 0
	if wrap {
		odds = 1000 // almost only the wrapper
	}
	out := grammar(g)
	if _, has := out[".wrapRE"]; has && wrap && r.IntN(2) == 0 {
		delete(out, ".wrapRE")
	} else if wrap {
		out[".wrapRE"] = parser.RE(genWraps[r.IntN(len(genWraps))].re)
	}
	return out
}

// elsewhere parses texts that were parsed before as parts of others.
func elsewhere(c *Case, w *world) bool {
	for _, in := range w.inputs {
		pre := []string{"x", "ab\n", "\n\n ", "é", in.text + "\n"}[c.IntN(5)]
		s := parser.NewScannerWithFilename(pre+in.text, "elsewhere").Skip(len(pre))
		e, err := w.p.Parse(in.rule, s)
		c.Eval()
		c.Stat("texts parsed elsewhere", 1)
		if (err == nil) != (in.err == nil) || fmt.Sprintf("%T", err) != fmt.Sprintf("%T", in.err) {
			c.Fail("%q gave the error %v; from offset %d it gives %v", in.text, in.err, len(pre), err)
			return false
		}
		if u, ok := err.(parser.UnconsumedInputError); ok {
			e = u.Result()
			if in.tree == nil {
				continue
			}
		}
		if e == nil {
			continue
		}
		a, b := fromElement(in.tree), fromElement(e)
		if a.Shape() != b.Shape() {
			c.Fail("%q gave\n%s\nand from offset %d it gives\n%s", in.text, a, len(pre), b)
			return false
		}
		la, lb := a.Leaves(), b.Leaves()
		for i := range la {
			if la[i].Off+len(pre) != lb[i].Off {
				c.Fail("%q, from offset %d: a token is at %d instead of %d", in.text, len(pre), lb[i].Off, la[i].Off+len(pre))
				return false
			}
		}
	}
	return true
}

// changingImports compiles a text as a file that it imports changes.
func changingImports(dir string) worldOp {
	return worldOp{name: "compile with imports that change", run: func() string {
		out := ""
		for _, tok := range []string{"p", "q", "rs"} {
			must(os.WriteFile(filepath.Join(dir, "new"), []byte(fmt.Sprintf("i1 -> %q;", tok)), 0o644))
			p, err := wbnf.Compile(".import new; i0 -> i1;", dirResolver{dir})
			if err != nil {
				return err.Error()
			}
			if e, err := p.Parse("i0", parser.NewScanner(tok)); err != nil || e == nil {
				return fmt.Sprintf("\x00a file imported has changed to %q, but: %v", tok, err)
			}
			out += p.Grammar().String()
		}
		return out
	}}
}
