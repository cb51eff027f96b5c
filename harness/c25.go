package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/parser/diff"
)

// fullKey renders a term in full, so that two terms are equal iff their keys are.
func fullKey(t parser.Term) string {
	var sb strings.Builder
	writeKey(&sb, t)
	return sb.String()
}

func fullGrammarKey(g parser.Grammar) string {
	var sb strings.Builder
	sb.WriteString("{")
	for _, r := range sortedRules(g) {
		fmt.Fprintf(&sb, "%q->", r)
		writeKey(&sb, g[parser.Rule(r)])
		sb.WriteString(";")
	}
	sb.WriteString("}")
	return sb.String()
}

func writeKey(sb *strings.Builder, t parser.Term) {
	list := func(what string, ts []parser.Term) {
		sb.WriteString(what + "(")
		for _, t := range ts {
			writeKey(sb, t)
			sb.WriteString(",")
		}
		sb.WriteString(")")
	}
	switch t := t.(type) {
	case nil:
		sb.WriteString("nil")
	case parser.Rule, parser.S, parser.RE, parser.ExtRef:
		fmt.Fprintf(sb, "%T%q", t, fmt.Sprintf("%s", any(plainText(t))))
	case parser.REF:
		fmt.Fprintf(sb, "ref%q(", t.Ident)
		writeKey(sb, t.Default)
		sb.WriteString(")")
	case parser.Seq:
		list("seq", t)
	case parser.Oneof:
		list("oneof", t)
	case parser.Stack:
		list("stack", t)
	case parser.Delim:
		fmt.Fprintf(sb, "delim%d%v%v", int(t.Assoc), t.CanStartWithSep, t.CanEndWithSep)
		list("", []parser.Term{t.Term, t.Sep})
	case parser.Quant:
		fmt.Fprintf(sb, "quant%d,%d", t.Min, t.Max)
		list("", []parser.Term{t.Term})
	case parser.Named:
		fmt.Fprintf(sb, "named%q", t.Name)
		list("", []parser.Term{t.Term})
	case parser.LookAhead:
		list("look", []parser.Term{t.Term})
	case parser.CutPoint:
		list("cut", []parser.Term{t.Term})
	case parser.ScopedGrammar:
		list("scoped", []parser.Term{t.Term})
		sb.WriteString(fullGrammarKey(t.Grammar))
	default:
		panic(fmt.Sprintf("%T", t))
	}
}

func plainText(t parser.Term) string {
	switch t := t.(type) {
	case parser.Rule:
		return string(t)
	case parser.S:
		return string(t)
	case parser.RE:
		return string(t)
	case parser.ExtRef:
		return string(t)
	}
	return ""
}

// copyTerm copies deeply, sharing nothing.
func copyTerm(t parser.Term) parser.Term { return editTerm(t, &edit{at: -1}) }

func copyGrammar(g parser.Grammar) parser.Grammar { return editGrammar(g, &edit{at: -1}) }

// edit changes one place of a term: the at-th that is visited.
type edit struct {
	r    *rand.Rand
	at   int
	seen int
	what string
}

func editGrammar(g parser.Grammar, e *edit) parser.Grammar {
	out := parser.Grammar{}
	for _, r := range sortedRules(g) {
		out[parser.Rule(r)] = editTerm(g[parser.Rule(r)], e)
	}
	here := e.seen == e.at
	e.seen++
	if !here {
		return out
	}
	rules := sortedRules(out)
	name := parser.Rule(rules[e.r.IntN(len(rules))])
	switch e.r.IntN(4) {
	case 0:
		e.what = "rule added"
		out["extra_rule"] = out[name]
	case 1:
		e.what = "rule dropped"
		delete(out, name)
	case 2:
		e.what = "rule renamed"
		out[name+"x"] = out[name]
		delete(out, name)
	case 3:
		other := parser.Rule(rules[e.r.IntN(len(rules))])
		e.what = "rules swapped"
		out[name], out[other] = out[other], out[name]
	}
	return out
}

func editTerm(t parser.Term, e *edit) parser.Term {
	if t == nil {
		return nil
	}
	here := e.seen == e.at
	e.seen++
	switch x := t.(type) {
	case parser.Seq:
		t = append(parser.Seq(nil), mapTerms(x, func(t parser.Term) parser.Term { return editTerm(t, e) })...)
	case parser.Oneof:
		t = append(parser.Oneof{}, mapTerms(x, func(t parser.Term) parser.Term { return editTerm(t, e) })...)
	case parser.Stack:
		t = append(parser.Stack{}, mapTerms(x, func(t parser.Term) parser.Term { return editTerm(t, e) })...)
	case parser.Delim:
		x.Term, x.Sep = editTerm(x.Term, e), editTerm(x.Sep, e)
		t = x
	case parser.Quant:
		x.Term = editTerm(x.Term, e)
		t = x
	case parser.Named:
		x.Term = editTerm(x.Term, e)
		t = x
	case parser.LookAhead:
		x.Term = editTerm(x.Term, e)
		t = x
	case parser.CutPoint:
		x.Term = editTerm(x.Term, e)
		t = x
	case parser.ScopedGrammar:
		x.Term, x.Grammar = editTerm(x.Term, e), editGrammar(x.Grammar, e)
		t = x
	case parser.REF:
		x.Default = editTerm(x.Default, e)
		t = x
	}
	if !here {
		return t
	}
	if e.r.IntN(6) == 0 { // something else around, or instead of it
		e.what = "wrapped"
		switch e.r.IntN(6) {
		case 0:
			return parser.Seq{t}
		case 1:
			return parser.Oneof{t}
		case 2:
			return parser.Named{Name: "wrapping", Term: t}
		case 3:
			return parser.LookAhead{Term: t}
		case 4:
			return parser.CutPoint{Term: t}
		default:
			return parser.Quant{Term: t, Max: 1}
		}
	}
	e.what = fmt.Sprintf("edit of %T", t)
	text := func(s string) string {
		if s == "" || e.r.IntN(3) == 0 {
			return s + string("xab("[e.r.IntN(4)])
		}
		i := e.r.IntN(len(s))
		return s[:i] + "~" + s[i+1:]
	}
	list := func(ts []parser.Term) []parser.Term {
		i := 0
		if len(ts) > 0 {
			i = e.r.IntN(len(ts))
		}
		switch n := e.r.IntN(5); {
		case n == 0 && len(ts) > 0:
			e.what += ": dropped one"
			return append(append([]parser.Term{}, ts[:i]...), ts[i+1:]...)
		case n == 1 && len(ts) > 1:
			e.what += ": swapped two"
			j := e.r.IntN(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
			return ts
		case n == 2 && len(ts) > 0:
			e.what += ": doubled one"
			return append(append(append([]parser.Term{}, ts[:i]...), ts[i]), ts[i:]...)
		case n == 3:
			e.what += ": added one at the end"
			return append(ts, parser.S(""))
		default:
			e.what += ": added one at the start"
			return append([]parser.Term{parser.S("")}, ts...)
		}
	}
	switch x := t.(type) {
	case parser.S:
		switch e.r.IntN(4) {
		case 0:
			return parser.RE(x)
		case 1:
			return parser.Rule(x)
		}
		return parser.S(text(string(x)))
	case parser.RE:
		if e.r.IntN(4) == 0 {
			return parser.S(x)
		}
		return parser.RE(text(string(x)))
	case parser.Rule:
		switch e.r.IntN(4) {
		case 0:
			return parser.ExtRef(x)
		case 1:
			return parser.REF{Ident: string(x)}
		}
		return parser.Rule(text(string(x)))
	case parser.ExtRef:
		if e.r.IntN(4) == 0 {
			return parser.Rule(x)
		}
		return parser.ExtRef(text(string(x)))
	case parser.REF:
		switch {
		case e.r.IntN(2) == 0:
			x.Ident = text(x.Ident)
		case x.Default == nil:
			x.Default = parser.S("")
		default:
			x.Default = nil
		}
		return x
	case parser.Seq:
		if e.r.IntN(6) == 0 {
			return parser.Oneof(x)
		}
		return parser.Seq(list(x))
	case parser.Oneof:
		if e.r.IntN(6) == 0 {
			return parser.Stack(x)
		}
		return parser.Oneof(list(x))
	case parser.Stack:
		if e.r.IntN(6) == 0 {
			return parser.Seq(x)
		}
		return parser.Stack(list(x))
	case parser.Delim:
		switch e.r.IntN(5) {
		case 0:
			x.CanStartWithSep = !x.CanStartWithSep
		case 1:
			x.CanEndWithSep = !x.CanEndWithSep
		case 2:
			x.Term, x.Sep = x.Sep, x.Term
		default:
			for old := x.Assoc; x.Assoc == old; {
				x.Assoc = []parser.Associativity{parser.NonAssociative, parser.LeftToRight, parser.RightToLeft}[e.r.IntN(3)]
			}
		}
		return x
	case parser.Quant:
		switch e.r.IntN(4) {
		case 0:
			x.Min++
		case 1:
			x.Max++
		case 2:
			x.Max += 1 + e.r.IntN(3)
			x.Min += x.Max
		default:
			return x.Term
		}
		return x
	case parser.Named:
		if e.r.IntN(3) == 0 {
			return x.Term
		}
		x.Name = text(x.Name)
		return x
	case parser.LookAhead:
		return x.Term
	case parser.CutPoint:
		return x.Term
	case parser.ScopedGrammar:
		if e.r.IntN(2) == 0 {
			return x.Term
		}
		x.Grammar["extra_rule"] = parser.S("x")
		return x
	}
	return t
}

// editTree changes one place of a copy of a tree.
func editTree(t parser.TreeElement, e *edit) parser.TreeElement {
	here := e.seen == e.at
	e.seen++
	n, ok := t.(parser.Node)
	if !ok {
		if !here {
			return t
		}
		switch x := t.(type) {
		case parser.Scanner:
			switch e.r.IntN(4) {
			case 0:
				e.what = "a token became empty"
				return parser.Empty{}
			case 1:
				e.what = "a token became a node"
				return parser.Node{Children: []parser.TreeElement{t}}
			case 2:
				if s := x.String(); len(s) > 0 {
					e.what = "a token was cut short"
					return *x.Slice(0, len(s)-1)
				}
			}
			e.what = "a token changed its text"
			return *parser.NewScanner(x.String() + "x")
		}
		switch e.r.IntN(2) {
		case 0:
			e.what = "a token instead of something empty"
			return *parser.NewScanner("")
		default:
			e.what = "a node instead of something empty"
			return parser.Node{}
		}
	}
	kids := make([]parser.TreeElement, 0, len(n.Children)+1)
	for _, c := range n.Children {
		kids = append(kids, editTree(c, e))
	}
	n.Children = kids
	if !here {
		return n
	}
	i := 0
	if len(kids) > 0 {
		i = e.r.IntN(len(kids))
	}
	switch k := e.r.IntN(9); {
	case k == 0:
		e.what = "tag changed"
		n.Tag += "x"
	case k == 1:
		e.what = "extra changed"
		switch x := n.Extra.(type) {
		case nil:
			n.Extra = parser.Choice(0)
		case parser.Choice:
			n.Extra = x + 1
			if e.r.IntN(3) == 0 {
				n.Extra = parser.Associativity(x)
			}
		case parser.Associativity:
			n.Extra = parser.Choice(x)
		}
	case k == 2 && n.Extra != nil:
		e.what = "extra dropped"
		n.Extra = nil
	case k == 3 && len(kids) > 0:
		e.what = "child dropped"
		n.Children = append(append([]parser.TreeElement{}, kids[:i]...), kids[i+1:]...)
	case k == 4 && len(kids) > 0:
		e.what = "child doubled"
		n.Children = append(append(append([]parser.TreeElement{}, kids[:i]...), kids[i]), kids[i:]...)
	case k == 5 && len(kids) > 1:
		e.what = "children swapped"
		j := e.r.IntN(len(kids))
		kids[i], kids[j] = kids[j], kids[i]
	case k == 6:
		e.what = "children added"
		n.Children = append(kids, parser.Empty{})
	case k == 7 && len(kids) > 0:
		e.what = "children gone"
		n.Children = nil
	default:
		e.what = "tag changed"
		n.Tag = strings.TrimPrefix(n.Tag+"y", "_")
	}
	return n
}

func init() {
	register(&Check{
		ID: "C25",
		Rule: "pairs of random grammars and of random parse trees: deep copies, one to three random edits in random places of a copy (texts, bounds, names, kinds of terms, order, optional ends, associativity, rules, defaults; tags, choices, children and tokens of trees), the grammar before and after a round trip through text, and unrelated ones, and every pair of subterms of some grammars. diff.Grammars, diff.Terms and diff.NewNodeDiff, either way around, have to say equal iff the monitors' complete renderings of the two are equal; OnlyInA, OnlyInB and Prods have to name the rules that differ, and below them every report has to hold the two sides of just what differs. " +
			"Distinct by pair; non-trivial if the two are not equal.",
		Cases: map[string]int{"quick": 4000, "thorough": 300000},
		Run: func(c *Case) {
			mode := modeFor(c)
			g, rules := genGrammar(c.Rand, mode)
			c.Note("grammar", grammarText(g))
			c25Grammars(c, g, rules, mode)
			if !c.failed {
				c25Trees(c, g, rules, mode)
			}
		},
	})
}

func modeFor(c *Case) GenOpts {
	return []GenOpts{
		{Rules: 5, Depth: 4},
		{Rules: 6, Depth: 3, Scoped: true},
		{Rules: 4, Depth: 4, Refs: true},
		{Rules: 4, Depth: 3, Exts: extNames},
		{Rules: 1, Depth: 2},
	}[c.IntN(5)]
}

func c25Grammars(c *Case, g parser.Grammar, rules []parser.Rule, o GenOpts) {
	if cut := c.IntN(4) == 0; cut {
		// Cut points, as in compiled grammars.
		out := parser.Grammar{}
		for r, t := range g {
			out[r] = addCuts(c.Rand, t)
		}
		g = out
	}
	count := &edit{at: -1}
	a := editGrammar(g, count)
	pair := func(what string, a, b parser.Grammar) bool {
		ka, kb := fullGrammarKey(a), fullGrammarKey(b)
		c.Eval()
		c.Stat("pairs of grammars, "+map[bool]string{true: "equal", false: "not equal"}[ka == kb], 1)
		ab, ba := diff.Grammars(a, b), diff.Grammars(b, a)
		if ab.Equal() != (ka == kb) || ba.Equal() != (ka == kb) {
			c.Note("edited", kb)
			c.Fail("%s: Equal() is %v and %v, but equal: %v\n%s\n%s", what, ab.Equal(), ba.Equal(), ka == kb, ka, kb)
			return false
		}
		if fullGrammarKey(a) != ka || fullGrammarKey(b) != kb {
			c.Fail("%s: the comparison changed a grammar", what)
			return false
		}
		if p := grammarDetail(ab, a, b) + grammarDetail(ba, b, a); p != "" {
			c.Fail("%s: %s\n%s\n%s", what, p, ka, kb)
			return false
		}
		c.Stat("reports checked in detail", 2)
		for _, r := range append(sortedRules(a), sortedRules(b)...) {
			r := parser.Rule(r)
			ta, inA := a[r]
			tb, inB := b[r]
			want := []bool{inA && !inB, inB && !inA, inA && inB && fullKey(ta) != fullKey(tb)}
			_, prod := ab.Prods[r]
			_, back := ba.Prods[r]
			if got := []bool{hasRule(ab.OnlyInA, r), hasRule(ab.OnlyInB, r), prod}; fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fail("%s: rule %s: only in A, only in B, differs: reported %v, but they are %v", what, r, got, want)
				return false
			}
			if hasRule(ba.OnlyInA, r) != want[1] || hasRule(ba.OnlyInB, r) != want[0] || back != want[2] {
				c.Fail("%s: rule %s is reported differently the other way around", what, r)
				return false
			}
		}
		if ka != kb {
			c.Distinct(ka, kb)
		}
		return true
	}
	if !pair("a grammar and itself", g, g) || !pair("a grammar and its copy", g, a) {
		return
	}
	edits := []string{}
	for i := 0; i < 12; i++ {
		b := a
		what := ""
		for k := 1 + c.IntN(3)*c.IntN(2); k > 0; k-- {
			count := &edit{at: -1}
			editGrammar(b, count)
			e := &edit{r: c.Rand, at: c.IntN(count.seen)}
			b = editGrammar(b, e)
			what += " " + e.what
			if len(b) == 0 {
				break
			}
		}
		edits = append(edits, what)
		if !pair("a grammar and one edited:"+what, a, b) {
			return
		}
	}
	if c.IntN(4) == 0 {
		other, _ := genGrammar(c.Rand, o)
		if !pair("two grammars", g, other) || !pair("a grammar and none", g, parser.Grammar{}) {
			return
		}
	}
	// All pairs of subterms.
	var terms []parser.Term
	for _, r := range sortedRules(g) {
		walkTerm(g[parser.Rule(r)], func(t parser.Term) { terms = append(terms, t) })
	}
	c.Shuffle(len(terms), func(i, j int) { terms[i], terms[j] = terms[j], terms[i] })
	if len(terms) > 12 {
		terms = terms[:12]
	}
	for _, x := range terms {
		for _, y := range terms {
			y = copyTerm(y)
			kx, ky := fullKey(x), fullKey(y)
			c.Eval()
			c.Stat("pairs of terms, "+map[bool]string{true: "equal", false: "not equal"}[kx == ky], 1)
			d := diff.Terms(x, y)
			if got := d.Equal(); got != (kx == ky) {
				c.Fail("diff.Terms: Equal() is %v for\n%s\n%s", got, kx, ky)
				return
			}
			if p := termDetail(d, x, y); p != "" {
				c.Fail("diff.Terms: %s\n%s\n%s", p, kx, ky)
				return
			}
		}
	}
	if c.Index%500 == 1 {
		c.Sample(map[string]any{"grammar": grammarText(g), "edits": edits})
	}
}

func hasRule(rs []parser.Rule, r parser.Rule) bool {
	for _, x := range rs {
		if x == r {
			return true
		}
	}
	return false
}

// addCuts makes some tokens cut points.
func addCuts(r *rand.Rand, t parser.Term) parser.Term {
	switch x := t.(type) {
	case parser.S:
		if r.IntN(2) == 0 {
			return parser.CutPoint{Term: x}
		}
	case parser.Seq:
		return parser.Seq(mapTerms(x, func(t parser.Term) parser.Term { return addCuts(r, t) }))
	case parser.Oneof:
		return parser.Oneof(mapTerms(x, func(t parser.Term) parser.Term { return addCuts(r, t) }))
	case parser.Stack:
		return parser.Stack(mapTerms(x, func(t parser.Term) parser.Term { return addCuts(r, t) }))
	case parser.Quant:
		x.Term = addCuts(r, x.Term)
		return x
	case parser.Named:
		x.Term = addCuts(r, x.Term)
		return x
	}
	return t
}

func c25Trees(c *Case, g parser.Grammar, rules []parser.Rule, o GenOpts) {
	if len(o.Exts) > 0 {
		return
	}
	ps := g.Compile(nil)
	var trees []parser.Node
	for _, input := range genInputs(c.Rand, g, rules[0], o, 6) {
		ref := newRef(g)
		ref.limit = 6000
		if r := ref.Parse(rules[0], input); r.Budget {
			continue
		}
		if te, err := ps.Parse(rules[0], parser.NewScanner(input)); err == nil {
			if n, ok := te.(parser.Node); ok {
				trees = append(trees, n)
				if te, err := ps.Parse(rules[0], parser.NewScanner(input)); err == nil && c.IntN(3) == 0 {
					trees = append(trees, te.(parser.Node))
				}
			}
		}
	}
	pair := func(what string, a, b parser.Node) bool {
		ka, kb := fromElement(a).Shape(), fromElement(b).Shape()
		equal := ka == kb
		ab, ba := diff.NewNodeDiff(&a, &b), diff.NewNodeDiff(&b, &a)
		c.Eval()
		c.Stat("pairs of trees, "+map[bool]string{true: "equal", false: "not equal"}[equal], 1)
		if ab.Equal() != equal || ba.Equal() != equal {
			c.Fail("%s: Equal() is %v and %v, but equal: %v\n%s\n%s", what, ab.Equal(), ba.Equal(), equal, ka, kb)
			return false
		}
		if (ab.String() == "") != equal || (ba.String() == "") != equal {
			c.Fail("%s: the report is %q for\n%s\n%s", what, ab.String(), ka, kb)
			return false
		}
		if p := nodeDetail(ab, a, b) + nodeDetail(ba, b, a); p != "" {
			c.Fail("%s: %s\n%s\n%s", what, p, ka, kb)
			return false
		}
		c.Stat("reports checked in detail", 2)
		if !equal {
			c.Distinct(ka, kb)
		}
		return true
	}
	for i, t := range trees {
		if !pair("a tree and its copy", t, editTree(t, &edit{at: -1}).(parser.Node)) {
			return
		}
		for k := 0; k < 6; k++ {
			count := &edit{at: -1}
			editTree(t, count)
			if count.seen > 3000 {
				break
			}
			e := &edit{r: c.Rand, at: c.IntN(count.seen)}
			if b, ok := editTree(t, e).(parser.Node); ok {
				if !pair("a tree and one edited: "+e.what, t, b) {
					return
				}
			}
		}
		if !pair("two trees", t, trees[c.IntN(i+1)]) {
			return
		}
		other := trees[c.IntN(len(trees))]
		if catch(func() { ast.FromParserNode(ps.Grammar(), t); ast.FromParserNode(ps.Grammar(), other) }) != nil {
			continue // for C14 to tell
		}
		if !c25Extern(c, ps.Grammar(), t, other) {
			return
		}
	}
}

// c25Extern compares trees with nodes that hold what external handlers returned: the ASTs of x and y.
func c25Extern(c *Case, g parser.Grammar, x, y parser.Node) bool {
	outer := func(te parser.TreeElement) *parser.Node {
		return parser.NewNode("_", nil, parser.Scanner{}, *parser.NewNode("a", nil, te))
	}
	extern := func(te parser.Node) *parser.Node { return outer(ast.NewExtRefTreeElement(g, te)) }
	try := func(what string, a, b *parser.Node, equal bool) bool {
		for i, pair := range [][2]*parser.Node{{a, b}, {b, a}} {
			d := diff.NewNodeDiff(pair[0], pair[1])
			c.Eval()
			c.Stat("pairs of trees with what external handlers returned", 1)
			if d.Equal() != equal || (d.String() == "") != equal {
				c.Fail("%s (%d): Equal() is %v and the report is %q for\n%v\n%v", what, i, d.Equal(), clip(d.String(), 300), *a, *b)
				return false
			}
		}
		return true
	}
	if !try("what a handler returned and its copy", extern(x), extern(editTree(x, &edit{at: -1}).(parser.Node)), true) ||
		!try("what a handler returned and a choice", extern(x), outer(*parser.NewNode("extref", parser.Choice(1))), false) {
		return false
	}
	var tx, ty strings.Builder
	collectTokens(x, false, &tx)
	collectTokens(y, false, &ty)
	return tx.String() == ty.String() || try("what a handler returned for different texts", extern(x), extern(y), false)
}

// termDetail returns what is wrong with the details of the report on a and b, or "".
func termDetail(d diff.TermDiff, a, b parser.Term) string {
	if fullKey(a) == fullKey(b) {
		return ""
	}
	sides := func(x, y any, same bool) string {
		if !same {
			return fmt.Sprintf("the report on %T holds %v and %v", a, x, y)
		}
		return ""
	}
	if ta, tb := reflect.TypeOf(a), reflect.TypeOf(b); ta != tb {
		d, ok := d.(diff.TypesDiffer[string])
		return sides(d.A, d.B, ok && d.A == ta.String() && d.B == tb.String())
	}
	seq := func(n diff.InterfaceDiff[int], ds []diff.TermDiff, a, b []parser.Term) string {
		if p := ifaceDetail("length", n, len(a), len(b)); p != "" {
			return p
		}
		for i := 0; i < len(a) && i < len(b); i++ {
			if fullKey(a[i]) == fullKey(b[i]) {
				continue
			}
			if len(ds) == 0 {
				return "an item that differs is missing in the report"
			}
			if p := termDetail(ds[0], a[i], b[i]); p != "" {
				return p
			}
			ds = ds[1:]
		}
		if len(ds) > 0 {
			return "the report has items that don't differ"
		}
		return ""
	}
	switch a := a.(type) {
	case parser.S:
		if d, ok := d.(diff.SDiff); ok {
			return sides(d.A, d.B, d.A == a && d.B == b.(parser.S))
		}
	case parser.RE:
		if d, ok := d.(diff.REDiff); ok {
			return sides(d.A, d.B, d.A == a && d.B == b.(parser.RE))
		}
	case parser.Rule:
		if d, ok := d.(diff.RuleDiff); ok {
			return sides(d.A, d.B, d.A == a && d.B == b.(parser.Rule))
		}
	case parser.REF:
		if d, ok := d.(diff.RefDiff); ok {
			return sides(d.A, d.B, fullKey(d.A) == fullKey(a) && fullKey(d.B) == fullKey(b))
		}
	case parser.ExtRef:
		if d, ok := d.(diff.SDiff); ok {
			return sides(d.A, d.B, string(d.A) == string(a) && string(d.B) == string(b.(parser.ExtRef)))
		}
		return ""
	case parser.Seq:
		if d, ok := d.(diff.SeqDiff); ok {
			return seq(d.Len, d.Terms, a, b.(parser.Seq))
		}
	case parser.Oneof:
		if d, ok := d.(diff.OneofDiff); ok {
			return seq(d.Len, d.Terms, a, b.(parser.Oneof))
		}
	case parser.Stack:
		if d, ok := d.(diff.TowerDiff); ok {
			return seq(d.Len, d.Terms, a, b.(parser.Stack))
		}
	case parser.Delim:
		if d, ok := d.(diff.DelimDiff); ok {
			b := b.(parser.Delim)
			return termDetail(d.Term, a.Term, b.Term) + termDetail(d.Sep, a.Sep, b.Sep) +
				ifaceDetail("associativity", d.Assoc, a.Assoc, b.Assoc) +
				ifaceDetail("leading", d.CanStartWithSep, a.CanStartWithSep, b.CanStartWithSep) +
				ifaceDetail("trailing", d.CanEndWithSep, a.CanEndWithSep, b.CanEndWithSep)
		}
	case parser.Quant:
		if d, ok := d.(diff.QuantDiff); ok {
			b := b.(parser.Quant)
			return termDetail(d.Term, a.Term, b.Term) + ifaceDetail("min", d.Min, a.Min, b.Min) + ifaceDetail("max", d.Max, a.Max, b.Max)
		}
	case parser.Named:
		if d, ok := d.(diff.NamedDiff); ok {
			b := b.(parser.Named)
			return termDetail(d.Term, a.Term, b.Term) + ifaceDetail("name", d.Name, a.Name, b.Name)
		}
	case parser.ScopedGrammar:
		if d, ok := d.(diff.ScopedGrammarDiff); ok {
			b := b.(parser.ScopedGrammar)
			return termDetail(d.Term, a.Term, b.Term) + grammarDetail(d.Grammar, a.Grammar, b.Grammar)
		}
	default: // Nothing is said about how others are reported.
		return ""
	}
	return fmt.Sprintf("a %T is reported by a %T", a, d)
}

func ifaceDetail[T comparable](what string, d diff.InterfaceDiff[T], a, b T) string {
	if a == b && !d.Equal() || a != b && (d.A != a || d.B != b) {
		return fmt.Sprintf("the %s is %v and %v, and reported as %v and %v", what, a, b, d.A, d.B)
	}
	return ""
}

func grammarDetail(d diff.GrammarDiff, a, b parser.Grammar) string {
	for r, t := range d.Prods {
		if p := termDetail(t, a[r], b[r]); p != "" {
			return fmt.Sprintf("rule %s: %s", r, p)
		}
	}
	return ""
}

// nodeDetail returns what is wrong with the details of the report on a and b, or "".
func nodeDetail(d diff.NodeDiff, a, b parser.Node) string {
	if d.A == nil || d.B == nil || fromElement(*d.A).Shape() != fromElement(a).Shape() || fromElement(*d.B).Shape() != fromElement(b).Shape() {
		return "the report is not on the trees compared"
	}
	n := minInt(len(a.Children), len(b.Children))
	seen := 0
	for i := 0; i < n; i++ {
		x, y := a.Children[i], b.Children[i]
		types, byType := d.Types[i]
		leaves, byLeaf := d.Leaves[i]
		child, byChild := d.Children[i]
		nx, xok := x.(parser.Node)
		ny, yok := y.(parser.Node)
		wantType := reflect.TypeOf(x) != reflect.TypeOf(y)
		differ := fromElement(x).Shape() != fromElement(y).Shape()
		wantChild := !wantType && xok && yok && differ
		wantLeaf := !wantType && !xok && differ
		if byType != wantType || byLeaf != wantLeaf || byChild != wantChild {
			return fmt.Sprintf("child %d: reported as of another type %v, another leaf %v, another node %v, but that is %v, %v, %v",
				i, byType, byLeaf, byChild, wantType, wantLeaf, wantChild)
		}
		switch {
		case wantType:
			seen++
			if types != [2]reflect.Type{reflect.TypeOf(x), reflect.TypeOf(y)} {
				return fmt.Sprintf("child %d: types %v", i, types)
			}
		case wantLeaf:
			seen++
			if fmt.Sprint(leaves[0]) != fmt.Sprint(x) || fmt.Sprint(leaves[1]) != fmt.Sprint(y) {
				return fmt.Sprintf("child %d: leaves %v", i, leaves)
			}
		case wantChild:
			seen++
			if p := nodeDetail(child, nx, ny); p != "" {
				return fmt.Sprintf("child %d: %s", i, p)
			}
		}
	}
	if seen != len(d.Types)+len(d.Leaves)+len(d.Children) {
		return "the report has children that there are not"
	}
	return ""
}
