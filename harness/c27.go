package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/gotree"
	"github.com/arr-ai/wbnf/parser"
)

// treeModel is what a printed tree should look like.
type treeModel struct {
	text  string
	items []*treeModel
}

// print draws the tree, bottom up, unlike the code, which passes prefixes down.
func (t *treeModel) print() string {
	lines := strings.Split(t.text, "\n")
	for i, k := range t.items {
		first, rest := "├── ", "│   "
		if i == len(t.items)-1 {
			first, rest = "└── ", "    "
		}
		for j, l := range strings.Split(strings.TrimSuffix(k.print(), "\n"), "\n") {
			if j == 0 {
				lines = append(lines, first+l)
			} else {
				lines = append(lines, rest+l)
			}
		}
	}
	return strings.Join(lines, "\n") + "\n"
}

func (t *treeModel) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q(", t.text)
	for _, k := range t.items {
		sb.WriteString(k.key())
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *treeModel) walk(f func(*treeModel)) {
	f(t)
	for _, k := range t.items {
		k.walk(f)
	}
}

// rank is the least of the numbers that the texts of the tree begin with, not
// looking below those; it's -1 for texts without a number that have nothing
// below them.
func (t *treeModel) rank() int {
	if n := regexp.MustCompile(`^[1-9][0-9]*`).FindString(t.text); n != "" {
		v, err := strconv.ParseUint(n, 10, 63)
		if err != nil {
			return 1<<63 - 1
		}
		return int(v)
	}
	least := -1
	for i, k := range t.items {
		if r := k.rank(); i == 0 || r < least {
			least = r
		}
	}
	return least
}

// readTree reads a printed tree back from the marks. Lines of texts mustn't
// begin with marks for that.
func readTree(s string) (*treeModel, error) {
	if !strings.HasSuffix(s, "\n") {
		return nil, fmt.Errorf("the last line doesn't end")
	}
	var path []*treeModel // from the root to what was read last
	var lasts []bool      // which of these were marked as the last
	for n, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if n == 0 {
			path = []*treeModel{{text: l}}
			lasts = []bool{true}
			continue
		}
		rest := l
		unit := func() string {
			for _, u := range []string{"├── ", "└── ", "│   ", "    "} {
				if strings.HasPrefix(rest, u) {
					return u
				}
			}
			return ""
		}
		guide := func(i int) string {
			if lasts[i+1] {
				return "    "
			}
			return "│   "
		}
		depth := 0
		for depth+1 < len(path) && unit() == guide(depth) {
			rest = rest[len(guide(depth)):]
			depth++
		}
		switch unit() {
		case "├── ", "└── ":
			if depth+1 < len(path) && lasts[depth+1] {
				return nil, fmt.Errorf("line %d comes after the last of its siblings: %q", n, l)
			}
			if depth+1 < len(path) {
				for k := depth + 2; k < len(path); k++ {
					if !lasts[k] {
						return nil, fmt.Errorf("line %d: %q ends a list whose last item isn't marked", n, l)
					}
				}
			}
			k := &treeModel{text: rest[len(unit()):]}
			path[depth].items = append(path[depth].items, k)
			path = append(path[:depth+1:depth+1], k)
			lasts = append(lasts[:depth+1:depth+1], unit() == "└── ")
		default:
			if depth+1 != len(path) {
				return nil, fmt.Errorf("line %d lacks marks: %q", n, l)
			}
			path[depth].text += "\n" + rest
		}
	}
	for _, last := range lasts[1:] {
		if !last {
			return nil, fmt.Errorf("the last item isn't marked as such")
		}
	}
	return path[0], nil
}

// viewItems says what a view of an AST has to show at its ends: tokens, extra
// data and nodes without children, each with the names above it.
func viewItems(name string, n ast.Node, above map[string]bool, skip bool, out map[string]int) {
	names := func(m map[string]bool) string {
		var s []string
		for k := range m {
			s = append(s, k)
		}
		sort.Strings(s)
		return strings.Join(s, " ")
	}
	with := func() map[string]bool {
		m := map[string]bool{name: true}
		for k := range above {
			m[k] = true
		}
		return m
	}
	switch n := n.(type) {
	case ast.Leaf:
		out[n.String()+" below "+names(above)]++
	case ast.Extra:
		out[fmt.Sprint(n.Data)+" below "+names(with())]++
	case ast.Branch:
		k := 0
		for c, group := range n {
			if skip && strings.HasPrefix(c, "@") {
				continue
			}
			k++
			switch g := group.(type) {
			case ast.One:
				viewItems(c, g.Node, with(), skip, out)
			case ast.Many:
				for _, x := range g {
					viewItems(c, x, with(), skip, out)
				}
			}
		}
		if k == 0 {
			out[name+" below "+names(above)]++
		}
	}
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 3, AST: true},
		{Rules: 4, Depth: 5, AST: true, Refs: true},
		{Rules: 6, Depth: 3, AST: true, Scoped: true},
		{Rules: 4, Depth: 2, AST: true, Wrap: true},
		{Rules: 8, Depth: 1, AST: true},
		{Rules: 3, Depth: 4, AST: true, Refs: true, Tokens: []string{"a", " ‣ ", "é", "`", "\"", "...", "├── "}},
	}
	register(&Check{
		ID: "C27",
		Rule: "(1) histories that build trees (texts of several lines, blank and non-ASCII ones, ones that begin with numbers or marks), add trees to several parents, sort and print them in between; each print has to equal one drawn independently, sorting has to be by rank and stable, and if no text begins with a mark, the tree read back from the marks has to be the one that was built; " +
			"(2) ASTs of inputs of random grammars, viewed with and without the @ nodes: the view has to be readable as a tree, to show each token (with offset), extra and empty node once, below exactly the names it is below in the AST, and to be the same for a copy of the AST. Distinct by printed tree; non-trivial with at least five lines.",
		Cases:      map[string]int{"quick": 6000, "thorough": 300000},
		CPUSeconds: 120,
		Run: func(c *Case) {
			if c.Index%2 == 0 {
				c27trees(c)
				return
			}
			o := pickOpts(c, opts)
			g, rules := genGrammar(c.Rand, o)
			c.Note("grammar", grammarText(g))
			p := g.Compile(nil)
			ref := newRef(g)
			for _, rule := range rules {
				for _, in := range genInputs(c.Rand, g, rule, o, 4) {
					// Views of deep trees take quadratic time.
					if len(in) > 80 || ref.Parse(rule, in).Budget {
						continue
					}
					e, err := p.Parse(rule, parser.NewScanner(in))
					if err != nil {
						continue
					}
					c.Note("input", in)
					c.Note("rule", rule)
					c27view(c, ast.FromParserNode(p.Grammar(), e))
				}
			}
		},
	})
}

// copyAST makes the same AST anew, filling its maps in another order.
func copyAST(r *rand.Rand, n ast.Node) ast.Node {
	b, ok := n.(ast.Branch)
	if !ok {
		return n
	}
	var names []string
	for name := range b {
		names = append(names, name)
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	out := ast.Branch{}
	for _, name := range names {
		switch g := b[name].(type) {
		case ast.One:
			out[name] = ast.One{Node: copyAST(r, g.Node)}
		case ast.Many:
			m := make(ast.Many, 0, len(g))
			for _, x := range g {
				m = append(m, copyAST(r, x))
			}
			out[name] = m
		}
	}
	return out
}

func c27view(c *Case, n ast.Node) {
	for _, skip := range []bool{false, true} {
		root := []string{"root", "a", "r1"}[c.IntN(3)]
		c.Eval()
		view := ast.BuildTreeView(root, n, skip)
		for k := 0; k < 2; k++ {
			if again := ast.BuildTreeView(root, copyAST(c.Rand, n), skip); again != view {
				c.Fail("the view of a copy of the AST differs:\n%s\n%s", view, again)
				return
			}
		}
		t, err := readTree(view)
		if err != nil {
			c.Fail("the view (skip %v) can't be read as a tree: %v\n%s", skip, err, view)
			return
		}
		want, got := map[string]int{}, map[string]int{}
		viewItems(root, n, nil, skip, want)
		var walk func(t *treeModel, above []string)
		walk = func(t *treeModel, above []string) {
			if len(t.items) == 0 {
				set := map[string]bool{}
				var names []string
				for _, s := range above {
					if !set[s] {
						set[s] = true
						names = append(names, s)
					}
				}
				sort.Strings(names)
				got[t.text+" below "+strings.Join(names, " ")]++
				return
			}
			above = append([]string{}, above...)
			for _, s := range strings.Split(t.text, " ‣ ") {
				if s != "..." {
					above = append(above, s)
				}
			}
			for _, k := range t.items {
				walk(k, above)
			}
		}
		walk(t, nil)
		c.Stat("ends of views", len(got))
		if len(want) != len(got) {
			c.Fail("the view (skip %v) shows\n%v\ninstead of\n%v\n%s", skip, got, want, view)
		}
		for k, n := range want {
			if got[k] != n {
				c.Fail("the view (skip %v) shows %q %d times instead of %d\n%s", skip, k, got[k], n, view)
			}
		}
		if strings.Count(view, "\n") >= 5 {
			c.Distinct("view", view)
		}
		if c.Index%1000 == 1 {
			c.Sample(map[string]any{"view": view})
		}
	}
}

func c27trees(c *Case) {
	marks := c.IntN(3) == 0
	text := func() string {
		ts := []string{"a", "b", "item", "12", "3x", "012", "7 seas", "99999999999999999999", "1", "é‣x", "世界", "5", "5", "x\ny", "1\n2\n3", "last\n", "-4", "a b  c", "a\n\nb", "41\n├"}
		if marks {
			ts = append(ts, "", "\n", " x", "├── y", "a\n│   b", "└── z\n    w", "    ", "\t", "\n\n")
		}
		if c.IntN(12) == 0 {
			return strconv.Itoa(c.IntN(3000) - 100)
		}
		return ts[c.IntN(len(ts))]
	}
	type pair struct {
		t gotree.Tree
		m *treeModel
	}
	t0 := text()
	pool := []pair{{gotree.New(t0), &treeModel{text: t0}}}
	shared := 0
	size := func(m *treeModel) (n int) { m.walk(func(*treeModel) { n++ }); return }
	check := func(x pair) bool {
		c.Eval()
		got, want := x.t.Print(), x.m.print()
		if got != want {
			c.Fail("%s prints as\n%s\ninstead of\n%s", x.m.key(), got, want)
			return false
		}
		if again := x.t.Print(); again != got {
			c.Fail("%s prints differently again:\n%s\n%s", x.m.key(), got, again)
			return false
		}
		if x.t.Rank() != x.m.rank() {
			c.Fail("%s has the rank %d instead of %d", x.m.key(), x.t.Rank(), x.m.rank())
			return false
		}
		if !marks && !strings.Contains(x.m.text, "\n") {
			read, err := readTree(got)
			if err != nil {
				c.Fail("can't read the print of %s back: %v\n%s", x.m.key(), err, got)
				return false
			}
			if read.key() != x.m.key() {
				c.Fail("the print of %s reads as %s\n%s", x.m.key(), read.key(), got)
				return false
			}
			c.Stat("prints read back", 1)
		}
		c.Max("printed lines", strings.Count(got, "\n"))
		if strings.Count(got, "\n") >= 5 {
			c.Distinct(got)
		}
		return true
	}
	for k, n := 0, 10+c.IntN(50); k < n; k++ {
		x := pool[c.IntN(len(pool))]
		switch c.IntN(9) {
		case 0, 1, 2, 3:
			s := text()
			m := &treeModel{text: s}
			x.m.items = append(x.m.items, m)
			pool = append(pool, pair{x.t.Add(s), m})
			c.Stat("added texts", 1)
		case 4:
			s := text()
			pool = append(pool, pair{gotree.New(s), &treeModel{text: s}})
		case 5, 6:
			y := pool[c.IntN(len(pool))]
			cyclic := false
			y.m.walk(func(m *treeModel) { cyclic = cyclic || m == x.m })
			if shared++; cyclic || shared > 8 || size(x.m)+size(y.m) > 300 || size(pool[0].m)+size(y.m) > 600 {
				break
			}
			x.t.AddTree(y.t)
			x.m.items = append(x.m.items, y.m)
			c.Stat("added trees", 1)
		case 7:
			if c.IntN(4) == 0 && shared == 0 { // very many, of few ranks
				n := 2 + c.IntN(4)
				for k := 10 + c.IntN(40); k > 0; k-- {
					s := []string{"", "1", "2", "a", "10"}[c.IntN(n)%5] + "‣" + strconv.Itoa(k)
					m := &treeModel{text: s}
					x.m.items = append(x.m.items, m)
					x.t.Add(s)
				}
				c.Stat("added very many", 1)
			}
			x.t.SortItems()
			ranks := map[*treeModel]int{}
			for _, m := range x.m.items {
				ranks[m] = m.rank()
			}
			// Stable, by insertion.
			for i := range x.m.items {
				for j := i; j > 0 && ranks[x.m.items[j]] < ranks[x.m.items[j-1]]; j-- {
					x.m.items[j], x.m.items[j-1] = x.m.items[j-1], x.m.items[j]
				}
			}
			c.Stat("sorted", 1)
			if len(x.t.Items()) != len(x.m.items) {
				c.Fail("sorting %s left %d items", x.m.key(), len(x.t.Items()))
				return
			}
		case 8:
			if !check(x) {
				return
			}
		}
		if x.t.Text() != x.m.text {
			c.Fail("the text of %s is %q", x.m.key(), x.t.Text())
			return
		}
	}
	for _, x := range pool {
		if size(x.m) < 2000 && !check(x) {
			return
		}
	}
	if c.Index%1000 == 2 {
		c.Sample(map[string]any{"printed": pool[0].t.Print()})
	}
}
