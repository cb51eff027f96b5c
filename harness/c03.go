package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// An operator table and an independent evaluator of expressions over it.

type opLevel struct {
	kind string // "left", "right", "flat", "prefix", "postfix", "optional"
	ops  []string
	name string // of the operator, or ""
	// A list may begin or end with an operator.
	lead, trail bool
}

type opTable struct {
	levels []opLevel
	open   []string // brackets, in pairs
	rule   string
	num    string // atoms: "digit" or "word"
}

var opPool = []string{"+", "-", "*", "/", "^", "&", "|", "||", "&&", "==", "<", "<=", "=>", "%", "!", "~", "?", ".", "and", "or", "÷", "→", "#", "$", ":=", ";", "@", "mod", "xor", "¬"}

func genTable(r *rand.Rand) opTable {
	t := opTable{rule: []string{"expr", "e", "a", "Sum", "x_1"}[r.IntN(5)]}
	perm := r.Perm(len(opPool))
	next := func() string {
		s := opPool[perm[0]]
		perm = perm[1:]
		return s
	}
	n := 1 + r.IntN(4)
	if r.IntN(12) == 0 {
		n = 6 + r.IntN(8)
	}
	used := []string{}
	take := func() string {
		for len(perm) > 0 {
			s := next()
			ok := true
			for _, u := range used { // no operator may begin another
				if strings.HasPrefix(u, s) || strings.HasPrefix(s, u) {
					ok = false
				}
			}
			if ok {
				used = append(used, s)
				return s
			}
		}
		return ""
	}
	for i, many := 0, n > 4; i < n; i++ {
		l := opLevel{kind: []string{"left", "left", "right", "right", "flat", "prefix", "postfix"}[r.IntN(7)]}
		for k := 0; k <= r.IntN(3) && !(many && k > 0); k++ {
			if s := take(); s != "" {
				l.ops = append(l.ops, s)
			}
		}
		if len(l.ops) == 0 {
			break
		}
		if r.IntN(2) == 0 {
			l.name = "op"
		}
		switch l.kind {
		case "left", "right", "flat":
			l.lead, l.trail = r.IntN(6) == 0, r.IntN(6) == 0
		}
		t.levels = append(t.levels, l)
	}
	for _, b := range [][2]string{{"(", ")"}, {"[", "]"}, {"begin", "end"}}[:1+r.IntN(3)] {
		t.open = append(t.open, b[0], b[1])
	}
	t.num = []string{`\d+`, `/{[A-Z]z?}`}[r.IntN(2)]
	return t
}

func (t opTable) text(p *printer) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s -> ", t.rule)
	for _, l := range t.levels {
		var ops []string
		for _, o := range l.ops {
			ops = append(ops, p.str(o))
		}
		op := strings.Join(ops, " | ")
		if len(ops) > 1 {
			op = "(" + op + ")"
		}
		if l.name != "" {
			op = l.name + "=" + op
		}
		op = l.commas(op)
		switch l.kind {
		case "left":
			sb.WriteString("@:>" + op)
		case "right":
			sb.WriteString("@<:" + op)
		case "flat":
			sb.WriteString("@:" + op)
		case "prefix":
			sb.WriteString(op + "* @")
		case "postfix":
			sb.WriteString("@ " + op + "*")
		}
		sb.WriteString("\n  > ")
	}
	fmt.Fprintf(&sb, "%s", t.num)
	for i := 0; i < len(t.open); i += 2 {
		fmt.Fprintf(&sb, " | %s @ %s", p.str(t.open[i]), p.str(t.open[i+1]))
	}
	sb.WriteString(";\n")
	return sb.String()
}

func (l opLevel) commas(op string) string {
	if l.lead {
		op = "," + op
	}
	if l.trail {
		op += ","
	}
	return op
}

// group joins parts, but for empty ones, into a group unless there is just one.
func group(all []string) string {
	var parts []string
	for _, p := range all {
		if p != "" {
			parts = append(parts, p)
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(" + strings.Join(parts, " ") + ")"
}

// gen makes a random expression of a level: its tokens and its value, which is its grouping.
func (t opTable) gen(r *rand.Rand, level, depth int) (tokens []string, value string) {
	if level == len(t.levels) {
		if depth > 0 && len(t.open) > 0 && r.IntN(4) == 0 {
			b := 2 * r.IntN(len(t.open)/2)
			tok, v := t.gen(r, 0, depth-1)
			return append(append([]string{t.open[b]}, tok...), t.open[b+1]), group([]string{t.open[b], v, t.open[b+1]})
		}
		var s string
		if t.num == `\d+` {
			s = strconv.Itoa(r.IntN(1000))
		} else {
			s = string(rune('A'+r.IntN(26))) + []string{"", "z"}[r.IntN(2)]
		}
		return []string{s}, s
	}
	l := t.levels[level]
	pick := func() string { return l.ops[r.IntN(len(l.ops))] }
	n := 0
	if r.IntN(2) == 0 {
		n = 1 + r.IntN(3)
		if r.IntN(20) == 0 {
			n = 10 + r.IntN(20)
		}
		if depth <= 0 {
			n = 1
			if len(t.levels) > 5 && r.IntN(4) > 0 {
				n = 0
			}
		}
	}
	operand := func() string {
		tok, v := t.gen(r, level+1, depth-1)
		tokens = append(tokens, tok...)
		return v
	}
	op := func() string {
		o := pick()
		tokens = append(tokens, o)
		return o
	}
	switch l.kind {
	case "prefix":
		var ops []string
		for i := 0; i < n; i++ {
			ops = append(ops, op())
		}
		v := operand()
		if n == 0 {
			return tokens, v
		}
		return tokens, group([]string{group(ops), v})
	case "postfix":
		v := operand()
		var ops []string
		for i := 0; i < n; i++ {
			ops = append(ops, op())
		}
		if n == 0 {
			return tokens, v
		}
		return tokens, group([]string{v, group(ops)})
	}
	var parts []string
	if l.lead && r.IntN(2) == 0 {
		parts = append(parts, "", op())
	}
	parts = append(parts, operand())
	for i := 0; i < n; i++ {
		parts = append(parts, op(), operand())
	}
	if l.trail && r.IntN(2) == 0 {
		parts = append(parts, op(), "")
	}
	switch l.kind {
	case "left":
		v := parts[0]
		for i := 1; i < len(parts); i += 2 {
			v = group([]string{v, parts[i], parts[i+1]})
		}
		return tokens, v
	case "right":
		v := parts[len(parts)-1]
		for i := len(parts) - 2; i > 0; i -= 2 {
			v = group([]string{parts[i-1], parts[i], v})
		}
		return tokens, v
	}
	return tokens, group(parts)
}

// groupTree reads the grouping of a parse tree.
func groupTree(t *Tree) string {
	if t.Leaf {
		return t.Text
	}
	var parts []string
	for _, k := range t.Kids {
		if s := groupTree(k); s != "" {
			parts = append(parts, s)
		}
	}
	if len(parts) == 0 {
		return ""
	}
	return group(parts)
}

// groupAST reads the grouping of an AST, which says nothing of the order of
// children of different names, but their positions do. The operators of a
// repetition are grouped the way groupTree does if they are adjacent and of
// one kind.
func groupAST(n ast.Node) (string, int) {
	switch n := n.(type) {
	case ast.Leaf:
		s := parser.Scanner(n)
		return s.String(), s.Offset()
	case ast.Branch:
		type part struct {
			s  string
			at int
		}
		var parts []part
		for name, ch := range n {
			if strings.HasPrefix(name, "@") {
				continue
			}
			switch ch := ch.(type) {
			case ast.One:
				if s, at := groupAST(ch.Node); s != "" {
					parts = append(parts, part{s, at})
				}
			case ast.Many:
				for _, k := range ch {
					if s, at := groupAST(k); s != "" {
						parts = append(parts, part{s, at})
					}
				}
			}
		}
		if len(parts) == 0 {
			return "", 0
		}
		sort.Slice(parts, func(i, j int) bool { return parts[i].at < parts[j].at })
		var ss []string
		for _, p := range parts {
			ss = append(ss, p.s)
		}
		return group(ss), parts[0].at
	}
	return "", 0
}

func init() {
	register(&Check{
		ID: "C03",
		Rule: "random operator tables (one to four levels; left, right, flat, prefix and postfix operators; brackets) become stacks, and random expressions over them are generated " +
			"together with the grouping the table prescribes; the grouping read from the parse tree and from the AST must be that one. " +
			"Also the same operators as chains of rules without a stack. Non-trivial: the expression has two or more operators; distinct by table and expression.",
		Cases: map[string]int{"quick": 9000, "thorough": 150000},
		Run: func(c *Case) {
			t := genTable(c.Rand)
			if len(t.levels) == 0 {
				return
			}
			pr := &printer{}
			text := t.text(pr)
			if c.IntN(4) == 0 { // without a stack
				text = t.chain(pr)
			}
			if c.IntN(3) == 0 {
				text += `.wrapRE -> /{\s*()\s*};`
			}
			c.Note("grammar", text)
			p, ok := compileText(c, text)
			if !ok {
				return
			}
			spaced := strings.Contains(text, ".wrapRE")
			if c.IntN(3) == 0 {
				p = stripCuts(p.Grammar()).Compile(nil)
			}
			c.Stat("operator tables", 1)
			c.Max("levels", len(t.levels))
			for k := 0; k < 6; k++ {
				tokens, want := t.gen(c.Rand, 0, 3+c.IntN(3))
				if len(tokens) > 400 {
					continue
				}
				sep := ""
				if spaced {
					sep = []string{"", " ", "\n"}[c.IntN(3)]
				}
				input := strings.Join(tokens, sep)
				if t.num == `\d+` && !spaced {
					input = strings.Join(tokens, "")
				}
				c.Note("input", input)
				e, err := p.Parse(parser.Rule(t.rule), parser.NewScanner(input))
				if err != nil {
					c.Fail("expression %q does not parse: %v", input, err)
					return
				}
				c.Eval()
				if got := groupTree(fromElement(e)); got != want {
					c.Fail("expression %q\n reads %s\n tree: %s\n want: %s", input, want, got, want)
					return
				}
				a := ast.FromParserNode(p.Grammar(), e)
				flatWant, flatGot := flattenRuns(want), ""
				g, _ := groupAST(a)
				flatGot = flattenRuns(g)
				if flatGot != flatWant {
					c.Fail("expression %q\n AST:  %s\n want: %s\n %s", input, flatGot, flatWant, canonAST(a, true))
					return
				}
				ops := strings.Count(want, "(")
				c.Max("groups in an expression", ops)
				if ops >= 2 {
					c.Distinct(text, input)
					c.Sample(map[string]any{"grammar": text, "expression": input, "grouping": want})
				}
			}
		},
	})
}

// flattenRuns drops groups of bare operators, of which the AST keeps just the members.
func flattenRuns(s string) string {
	// Groups without nested groups and operands: "(- -)".
	var out strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '(' && i+1 < len(s) && s[i+1] != ' ' {
			j := strings.IndexByte(s[i+1:], ')')
			if j > 0 {
				inner := s[i+1 : i+1+j]
				if !strings.ContainsAny(inner, "([") && onlyOps(inner) {
					out.WriteString(inner)
					i += j + 2
					continue
				}
			}
		}
		out.WriteByte(s[i])
		i++
	}
	return out.String()
}

func onlyOps(s string) bool {
	for _, f := range strings.Fields(s) {
		known := false
		for _, o := range opPool {
			known = known || o == f
		}
		if !known {
			return false
		}
	}
	return s != ""
}

// chain is the same table as rules that refer to the next one.
func (t opTable) chain(p *printer) string {
	var sb strings.Builder
	rule := func(i int) string {
		switch {
		case i == 0:
			return t.rule
		case i > len(t.levels):
			panic("level")
		}
		return fmt.Sprintf("lvl%d", i)
	}
	for i, l := range t.levels {
		var ops []string
		for _, o := range l.ops {
			ops = append(ops, p.str(o))
		}
		op := strings.Join(ops, " | ")
		if len(ops) > 1 {
			op = "(" + op + ")"
		}
		op = l.commas(op)
		next := rule(i + 1)
		fmt.Fprintf(&sb, "%s -> ", rule(i))
		switch l.kind {
		case "left":
			sb.WriteString(next + ":>" + op)
		case "right":
			sb.WriteString(next + "<:" + op)
		case "flat":
			sb.WriteString(next + ":" + op)
		case "prefix":
			sb.WriteString(op + "* " + next)
		case "postfix":
			sb.WriteString(next + " " + op + "*")
		}
		sb.WriteString(";\n")
	}
	fmt.Fprintf(&sb, "%s -> %s", rule(len(t.levels)), t.num)
	for i := 0; i < len(t.open); i += 2 {
		fmt.Fprintf(&sb, " | %s %s %s", p.str(t.open[i]), t.rule, p.str(t.open[i+1]))
	}
	sb.WriteString(";\n")
	return sb.String()
}
