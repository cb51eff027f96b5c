package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// astReader reads a printed AST back.
type astReader struct {
	s   string
	pos int
}

func (r *astReader) blanks() {
	for r.pos < len(r.s) && (r.s[r.pos] == ' ' || r.s[r.pos] == '\n') {
		r.pos++
	}
}

func (r *astReader) eat(s string) bool {
	if strings.HasPrefix(r.s[r.pos:], s) {
		r.pos += len(s)
		return true
	}
	return false
}

// list reads what stands between brackets, after the opening one.
func (r *astReader) list(end string, item func() error) error {
	for r.blanks(); !r.eat(end); r.blanks() {
		if err := item(); err != nil {
			return err
		}
		if !r.eat(",") && !strings.HasPrefix(r.s[r.pos:], end) {
			return fmt.Errorf("no comma or %s at %q", end, clip(r.s[r.pos:], 30))
		}
	}
	return nil
}

// node returns what was printed, in a form that readable gives as well.
func (r *astReader) node() (string, error) {
	switch {
	case r.eat("("):
		var parts []string
		err := r.list(")", func() error {
			i := strings.Index(r.s[r.pos:], ": ")
			if i < 0 {
				return fmt.Errorf("no name at %q", clip(r.s[r.pos:], 30))
			}
			name := r.s[r.pos : r.pos+i]
			if name == "''" {
				name = ""
			}
			r.pos += i + 2
			v, err := r.group()
			parts = append(parts, fmt.Sprintf("%q:%s", name, v))
			return err
		})
		return "{" + strings.Join(parts, " ") + "}", err
	default:
		i := r.pos
		for i < len(r.s) && r.s[i] >= '0' && r.s[i] <= '9' {
			i++
		}
		digits := r.s[r.pos:i]
		if digits == "" || !strings.HasPrefix(r.s[i:], "‣") {
			i = strings.IndexAny(r.s[r.pos:], ",)]\n")
			if i < 0 {
				i = len(r.s) - r.pos
			}
			r.pos += i
			return "extra " + r.s[r.pos-i:r.pos], nil
		}
		r.pos = i + len("‣")
		var text string
		switch rest := r.s[r.pos:]; {
		case strings.HasPrefix(rest, `"`):
			q, err := strconv.QuotedPrefix(rest)
			if err != nil {
				return "", fmt.Errorf("no quoted text at %q", clip(rest, 30))
			}
			text, _ = strconv.Unquote(q)
			r.pos += len(q)
		case strings.HasPrefix(rest, "`"):
			for r.pos++; ; {
				i := strings.Index(r.s[r.pos:], "`")
				if i < 0 {
					return "", fmt.Errorf("no end of the quotation %q", clip(rest, 30))
				}
				text += r.s[r.pos : r.pos+i]
				r.pos += i + 1
				if !r.eat("`") {
					break
				}
				text += "`"
			}
		default:
			i := strings.IndexAny(rest, ",)]\n")
			if i < 0 {
				i = len(rest)
			}
			text = rest[:i]
			r.pos += i
		}
		return fmt.Sprintf("%q@%s", text, digits), nil
	}
}

func (r *astReader) group() (string, error) {
	if !r.eat("[") {
		return r.node()
	}
	var parts []string
	err := r.list("]", func() error {
		v, err := r.node()
		parts = append(parts, v)
		return err
	})
	return "[" + strings.Join(parts, " ") + "]", err
}

// readable renders an AST as the reader does what it read.
func readable(n ast.Node) string {
	switch n := n.(type) {
	case ast.Leaf:
		s := parser.Scanner(n)
		return fmt.Sprintf("%q@%d", s.String(), s.Offset())
	case ast.Extra:
		return fmt.Sprintf("extra %v", n.Data)
	}
	b := n.(ast.Branch)
	var parts []string
	for _, name := range branchNames(b) {
		var v string
		switch g := b[name].(type) {
		case ast.One:
			v = readable(g.Node)
		case ast.Many:
			var vs []string
			for _, n := range g {
				vs = append(vs, readable(n))
			}
			v = "[" + strings.Join(vs, " ") + "]"
		}
		parts = append(parts, fmt.Sprintf("%q:%s", name, v))
	}
	return "{" + strings.Join(parts, " ") + "}"
}

func branchNames(b ast.Branch) (names []string) {
	for name := range b {
		names = append(names, name)
	}
	sort.Strings(names)
	return
}

func walkAST(n ast.Node, f func(ast.Node)) {
	f(n)
	if b, ok := n.(ast.Branch); ok {
		for _, name := range branchNames(b) {
			switch g := b[name].(type) {
			case ast.One:
				walkAST(g.Node, f)
			case ast.Many:
				for _, n := range g {
					walkAST(n, f)
				}
			}
		}
	}
}

// editAST returns a copy of an AST with one change, if it could make one.
func editAST(r *rand.Rand, n ast.Node) (ast.Node, string) {
	type place struct {
		b    ast.Branch
		name string
	}
	out := copyAST(r, n)
	var places []place
	walkAST(out, func(n ast.Node) {
		if b, ok := n.(ast.Branch); ok {
			for _, name := range branchNames(b) {
				places = append(places, place{b, name})
			}
		}
	})
	leafLike := func(n ast.Node) (ast.Node, string) {
		switch n := n.(type) {
		case ast.Leaf:
			s := parser.Scanner(n)
			switch r.IntN(3) {
			case 0:
				return ast.Leaf(*parser.NewScannerAt(strings.Repeat("z", s.Offset())+s.String()+"z", s.Offset(), len(s.String())+1)), "longer token"
			case 1:
				if len(s.String()) > 0 {
					return ast.Leaf(*parser.NewScannerAt(strings.Repeat("z", s.Offset())+s.String(), s.Offset(), len(s.String())-1)), "shorter token"
				}
				fallthrough
			default:
				return ast.Leaf(*parser.NewScannerAt("zz"+strings.Repeat("z", s.Offset())+s.String(), s.Offset()+2, len(s.String()))), "moved token"
			}
		case ast.Extra:
			switch d := n.Data.(type) {
			case parser.Choice:
				return ast.Extra{Data: d + 1}, "choice"
			case parser.Rule:
				return ast.Extra{Data: d + "x"}, "rule"
			}
			return ast.Extra{Data: fmt.Sprint(n.Data) + "x"}, "extra"
		case ast.Branch:
			if len(n) == 0 {
				return ast.Branch{"new": ast.Many{}}, "empty list in an empty node"
			}
			if r.IntN(2) == 0 {
				return ast.Branch{}, "node emptied"
			}
			return ast.Leaf(*parser.NewScanner("z")), "node replaced by a token"
		}
		return n, ""
	}
	if len(places) == 0 {
		return leafLike(out)
	}
	p := places[r.IntN(len(places))]
	switch g := p.b[p.name].(type) {
	case ast.One:
		switch r.IntN(5) {
		case 0:
			p.b[p.name] = ast.Many{g.Node}
			return out, "list of one"
		case 1:
			delete(p.b, p.name)
			return out, "deleted"
		case 2:
			delete(p.b, p.name)
			p.b[p.name+"x"] = g
			return out, "renamed"
		}
		k, what := leafLike(g.Node)
		p.b[p.name] = ast.One{Node: k}
		return out, what
	case ast.Many:
		if len(g) == 0 {
			delete(p.b, p.name)
			return out, "empty list removed"
		}
		switch k := r.IntN(8); {
		case k == 0 && len(g) == 1:
			p.b[p.name] = ast.One{Node: g[0]}
			return out, "one of list"
		case k == 1 && len(g) > 1:
			i := r.IntN(len(g) - 1)
			g[i], g[i+1] = g[i+1], g[i]
			return out, "swapped"
		case k == 2:
			p.b[p.name] = append(g, g[0])
			return out, "appended"
		case k == 3:
			p.b[p.name] = g[:len(g)-1]
			return out, "last removed"
		case k == 4:
			p.b[p.name] = g[1:]
			return out, "first removed"
		case k == 5:
			delete(p.b, p.name)
			p.b[p.name+"x"] = g
			return out, "renamed list"
		}
		i := r.IntN(len(g))
		k, what := leafLike(g[i])
		g[i] = k
		return out, what
	}
	return out, ""
}

func randomAST(r *rand.Rand, src string, depth int) ast.Node {
	switch k := r.IntN(8); {
	case depth == 0 || k < 3:
		a := r.IntN(len(src) + 1)
		n := r.IntN(len(src) - a + 1)
		if n > 6 {
			n = r.IntN(6)
		}
		return ast.Leaf(*parser.NewScannerAt(src, a, n))
	}
	b := ast.Branch{}
	for k := r.IntN(5); k > 0; k-- {
		name := []string{"", "a", "b", "name", "x1", "_", "longer_name", "@choice", "@rule", "@skip", "@empty"}[r.IntN(11)]
		child := func() ast.Node {
			switch name {
			case "@choice":
				return ast.Extra{Data: parser.Choice(r.IntN(4))}
			case "@rule":
				return ast.Extra{Data: parser.Rule([]string{"a", "b"}[r.IntN(2)])}
			case "@skip", "@empty":
				return ast.Extra{Data: []any{1, "@prefix", "@suffix", 2, true}[r.IntN(5)]}
			}
			return randomAST(r, src, depth-1)
		}
		if r.IntN(2) == 0 {
			b[name] = ast.One{Node: child()}
			continue
		}
		m := ast.Many{}
		for j := 1 + r.IntN(4); j > 0; j-- {
			m = append(m, child())
		}
		b[name] = m
	}
	return b
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 3, AST: true},
		{Rules: 4, Depth: 5, AST: true, Refs: true},
		{Rules: 6, Depth: 3, AST: true, Scoped: true},
		{Rules: 4, Depth: 2, AST: true, Wrap: true},
		{Rules: 3, Depth: 4, AST: true, Refs: true, Tokens: []string{"a", "\n", "é", "`", "\"", ",", "(", "\"`", " ", "'"}},
	}
	register(&Check{
		ID: "C30",
		Rule: "ASTs of inputs of random grammars and ASTs made by hand over one text. For every node: One, Many, First, All, Which and Choice are compared with what the maps hold, also for names they lack; Scanner() has to span exactly the tokens below (or be nil); printing is repeated on copies with maps filled in another order, and the print is read back and compared, token by token with offset. Content equality of the AST with copies, with the same input parsed at another offset and under a file name, and with single edits (token, name, choice, order, length of list, one or list, position) in both directions has to hold iff renderings without positions are equal; it's transitive then. " +
			"Distinct by AST; non-trivial with at least four nodes.",
		Cases: map[string]int{"quick": 3200, "thorough": 250000},
		Run: func(c *Case) {
			if c.Index%3 == 0 {
				for k := 0; k < 6; k++ {
					a, b := randomAST(c.Rand, scanText(c.Rand), 3), randomAST(c.Rand, "aab", 2)
					c30(c, a)
					c30equal(c, a, b, "another AST")
					c30equal(c, randomAST(c.Rand, "aa", 1), randomAST(c.Rand, "aa", 1), "small ASTs")
				}
				return
			}
			o := pickOpts(c, opts)
			g, rules := genGrammar(c.Rand, o)
			c.Note("grammar", grammarText(g))
			p := g.Compile(nil)
			ref := newRef(g)
			var last ast.Node
			for _, rule := range rules {
				for _, in := range genInputs(c.Rand, g, rule, o, 3) {
					if len(in) > 200 || ref.Parse(rule, in).Budget {
						continue
					}
					e, err := p.Parse(rule, parser.NewScanner(in))
					if err != nil {
						continue
					}
					c.Note("input", in)
					c.Note("rule", rule)
					a := ast.FromParserNode(p.Grammar(), e)
					c30(c, a)
					if last != nil {
						c30equal(c, a, last, "the AST before")
					}
					last = a
					pre := scanText(c.Rand)
					for k, s := range []*parser.Scanner{parser.NewScannerAt(pre+in, len(pre), len(in)), parser.NewScannerWithFilename(in, "file.txt")} {
						e, err := p.Parse(rule, s)
						if err != nil {
							continue // what it says of the text around is for other checks
						}
						c30equal(c, a, ast.FromParserNode(p.Grammar(), e), []string{"the AST of the text elsewhere", "the AST of the file"}[k])
					}
				}
			}
		},
	})
}

func c30equal(c *Case, a, b ast.Node, what string) {
	c.Eval()
	want := canonAST(a, false) == canonAST(b, false)
	c.Stat(fmt.Sprintf("content equality %v", want), 1)
	if got := a.ContentEquals(b); got != want {
		c.Fail("ContentEquals of the AST and %s is %v:\n%s\n%s", what, got, canonAST(a, false), canonAST(b, false))
	}
	if got := b.ContentEquals(a); got != want {
		c.Fail("ContentEquals of %s and the AST is %v:\n%s\n%s", what, got, canonAST(b, false), canonAST(a, false))
	}
}

func c30(c *Case, root ast.Node) {
	c30equal(c, root, root, "itself")
	c30equal(c, root, copyAST(c.Rand, root), "its copy")
	for k := 0; k < 8; k++ {
		e, what := editAST(c.Rand, root)
		c30equal(c, root, e, what)
		c.Stat("edits: "+what, 1)
		if k%2 == 0 {
			e2, what2 := editAST(c.Rand, e)
			c30equal(c, root, e2, what+" and "+what2)
			c30equal(c, e, e2, what2+" after "+what)
		}
	}
	nodes := 0
	walkAST(root, func(n ast.Node) {
		nodes++
		if c.failed {
			return
		}
		c.Eval()
		c30node(c, n)
	})
	text := root.String()
	for k := 0; k < 2; k++ {
		if again := copyAST(c.Rand, root).String(); again != text {
			c.Fail("a copy prints differently:\n%s\n%s", text, again)
		}
	}
	if b, ok := root.(ast.Branch); ok {
		r := astReader{s: text}
		got, err := r.node()
		if err == nil && r.pos != len(text) {
			err = fmt.Errorf("text after the end: %q", clip(text[r.pos:], 30))
		}
		if err != nil {
			c.Fail("can't read the printed AST back: %v\n%s", err, text)
		} else if got != readable(b) {
			c.Fail("the AST\n%s\nprints as\n%s\nwhich reads\n%s", readable(b), text, got)
		}
	}
	if nodes >= 4 {
		c.Distinct(text)
	}
	c.Max("nodes of an AST", nodes)
	if c.Index%400 == 1 {
		c.Sample(map[string]any{"printed": text})
	}
}

func sameNodes(a, b []ast.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if canonAST(a[i], true) != canonAST(b[i], true) {
			return false
		}
	}
	return true
}

func c30node(c *Case, n ast.Node) {
	b, isBranch := n.(ast.Branch)
	// Queries.
	names := append([]string{"", "a", "nothing", "@choice", "@rule"}, branchNames(b)...)
	for _, name := range names {
		var one ast.Node
		var many, all []ast.Node
		if isBranch {
			switch g := b[name].(type) {
			case ast.One:
				one, all = g.Node, []ast.Node{g.Node}
			case ast.Many:
				many, all = g, g
			}
		}
		var first ast.Node
		if len(all) > 0 {
			first = all[0]
		}
		switch {
		case canonAST(n.One(name), true) != canonAST(one, true) || (n.One(name) == nil) != (one == nil):
			c.Fail("One(%q) of %s is %s", name, canonAST(n, true), canonAST(n.One(name), true))
		case !sameNodes(n.Many(name), many):
			c.Fail("Many(%q) of %s is %v", name, canonAST(n, true), n.Many(name))
		case !sameNodes(ast.All(n, name), all):
			c.Fail("All(%q) of %s is %v", name, canonAST(n, true), ast.All(n, name))
		case canonAST(ast.First(n, name), true) != canonAST(first, true) || (ast.First(n, name) == nil) != (first == nil):
			c.Fail("First(%q) of %s is %s", name, canonAST(n, true), canonAST(ast.First(n, name), true))
		}
	}
	choice := -1
	if isBranch {
		switch g := b["@choice"].(type) {
		case ast.One:
			choice = int(g.Node.(ast.Extra).Data.(parser.Choice))
		case ast.Many:
			if len(g) > 0 {
				choice = int(g[0].(ast.Extra).Data.(parser.Choice))
			}
		}
	}
	if got := ast.Choice(n); got != choice {
		c.Fail("Choice of %s is %d", canonAST(n, true), got)
	}
	if ast.Choice(nil) != -1 || ast.First(nil, "a") != nil || ast.All(nil, "a") != nil {
		c.Fail("a missing node has children")
	}
	if isBranch {
		var ask []string
		for k := 1 + c.IntN(4); k > 0; k-- {
			ask = append(ask, names[c.IntN(len(names))])
		}
		wantName := ""
		var want ast.Children
		for _, name := range ask {
			if g, has := b[name]; has {
				wantName, want = name, g
				break
			}
		}
		name, got := ast.Which(b, ask...)
		if name != wantName || (got == nil) != (want == nil) || got != nil && got.String() != want.String() {
			c.Fail("Which(%q) of %s is %q, %v", ask, canonAST(n, true), name, got)
		}
	}
	if _, extra := n.(ast.Extra); extra {
		return
	}
	// Spans.
	span := func(what string, got parser.Scanner, nodes ...ast.Node) {
		lo, hi, any := 0, 0, false
		for _, n := range nodes {
			for _, s := range astLeaves(n) {
				a, z := s.Offset(), s.Offset()+len(s.String())
				if !any || a < lo {
					lo = a
				}
				if !any || z > hi {
					hi = z
				}
				any = true
			}
		}
		c.Stat("spans", 1)
		switch {
		case any == got.IsNil():
			c.Fail("the scanner of %s, which is nil: %v", what, got.IsNil())
		case any && (got.Offset() != lo || got.Offset()+len(got.String()) != hi):
			c.Fail("the scanner of %s spans %d to %d instead of %d to %d", what, got.Offset(), got.Offset()+len(got.String()), lo, hi)
		}
	}
	if !c.Try("Scanner()", func() { span(canonAST(n, true), n.Scanner(), n) }) || !isBranch {
		return
	}
	for _, name := range branchNames(b) {
		if strings.HasPrefix(name, "@") {
			continue
		}
		switch g := b[name].(type) {
		case ast.One:
			span(name+" of "+canonAST(n, true), g.Scanner(), g.Node)
		case ast.Many:
			span(name+" of "+canonAST(n, true), g.Scanner(), g...)
		}
	}
}
