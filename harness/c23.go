package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// coreAPI is the typed API of package wbnf itself, as if it was generated for a case.
func coreAPI() genPkg {
	return genPkg{Ops: wbnf.WalkerOps{}, Exiter: wbnf.NodeExiter, Aborter: wbnf.Aborter, Parse: wbnf.Parse, ParseString: wbnf.ParseString, Grammar: wbnf.Grammar}
}

// typedOpts are grammars whose generated types are of interest.
var typedOpts = []GenOpts{
	{Rules: 6, Depth: 4, AST: true, NoLook: true},
	{Rules: 6, Depth: 3, AST: true},
	{Rules: 8, Depth: 3, AST: true, NoRE: true, NoAssoc: true},
	{Rules: 5, Depth: 4, AST: true, Scoped: true},
	{Rules: 6, Depth: 4, AST: true, Refs: true},
	{Rules: 6, Depth: 3, AST: true, Wrap: true, NoEmptyTok: true},
}

func typedGrammar(r *rand.Rand) (parser.Grammar, []parser.Rule, GenOpts) {
	o := typedOpts[r.IntN(len(typedOpts))]
	g, rules := genGrammar(r, o)
	return g, rules, o
}

// typedCase calls f with typed trees: every fourth case is about package wbnf,
// the others about the generated package.
func typedCase(c *Case, want int, f func(pkg genPkg, root reflect.Value, text, input string)) {
	if c.Index%4 == 3 {
		for i := 0; i < want; i++ {
			o := typedOpts[c.IntN(len(typedOpts))]
			o.Scoped = true
			o.Exts = extNames
			g, _ := genGrammar(c.Rand, o)
			input := printFancy(c.Rand, g)
			if c.IntN(3) == 0 {
				input = printMacros(c.Rand, g, true)
			}
			if c.IntN(4) == 0 {
				input = ".import a/b.wbnf\n" + input
			}
			c.Note("grammar", "(package wbnf)")
			c.Note("input", input)
			n, err := wbnf.ParseString(input)
			if err != nil {
				c.Fail("the grammar doesn't parse: %v", err)
				return
			}
			f(coreAPI(), reflect.ValueOf(n), "", input)
		}
		return
	}
	gc := genCases[c.Index]
	c.Note("grammar", gc.Text)
	pkg, ok := genPkgs[c.Index]
	if !ok {
		c.Stat("generated code that doesn't compile (see C22)", 1)
		return
	}
	g, rules, o, _ := checks[c.ID].generate(c.Seed, c.Index)
	for try, done := 0, 0; try < 12 && done < want; try++ {
		for _, input := range genInputs(c.Rand, g, rules[0], o, 8) {
			c.Note("input", input)
			ref := newRef(g)
			ref.limit = 6000
			if r := ref.Parse(rules[0], input); r.Budget {
				continue
			}
			out := reflect.ValueOf(pkg.ParseString).Call([]reflect.Value{reflect.ValueOf(input)})
			if !out[1].IsNil() {
				continue
			}
			done++
			f(pkg, out[0], gc.Text, input)
		}
	}
}

func init() {
	register(&Check{
		ID: "C23",
		Rule: "walks of typed trees of generated code for random grammars and of grammar texts (package wbnf), also from inner nodes, by Walk and by the methods of the types: all callbacks set gives each node that the accessors reach once, entered before and exited after what is below it, siblings of one name in order; random sets of callbacks give just these callbacks of the full walk; and random node exiters and an aborter returned at random callbacks give what a model makes of the full walk: the rest of just that node skipped, or nothing more and Walk returning the aborter. " +
			"Distinct by (tree, callbacks set, verdicts); non-trivial if the tree has at least three nodes.",
		Cases:     map[string]int{"quick": 240, "thorough": 3000},
		Generated: typedGrammar,
		Typed:     true,
		Run: func(c *Case) {
			typedCase(c, 10, func(pkg genPkg, root reflect.Value, text, input string) { c23Walks(c, pkg, root, text, input) })
		},
	})
}

func c23Walks(c *Case, pkg genPkg, root reflect.Value, text, input string) {
	if c.failed {
		return
	}
	ops := reflect.TypeOf(pkg.Ops)
	every := map[string]bool{}
	for i := 0; i < ops.NumField(); i++ {
		every[ops.Field(i).Name] = true
	}
	tree := newTypedTree(root, 0)
	if tree.size > 400 {
		return
	}
	nodes := tree.all()
	if c.IntN(3) == 0 {
		tree = nodes[c.IntN(len(nodes))]
		root = tree.node
	}
	direct := c.IntN(2) == 0
	all := func(string) bool { return true }
	// The full walk.
	var full []walkEvent
	res := typedWalk(pkg, root, direct, all, func(e walkEvent) walkVerdict { full = append(full, e); return goOn })
	c.Eval()
	c.Stat("callbacks", len(full))
	c.Max("nodes in a tree", tree.size)
	if res != nil {
		c.Fail("a walk that nobody stopped returned %v", res)
		return
	}
	if end, msg := tree.match(full, 0, every); msg != "" || end != len(full) {
		if msg == "" {
			msg = fmt.Sprintf("event %d is one too many", end)
		}
		c.Fail("wrong callbacks: %s\nthey were\n%v", msg, events(full))
		return
	}
	if tree.size >= 3 {
		c.Distinct(input, tree.id)
	}
	// Where the nodes end in the full walk.
	ends := make([]int, len(full))
	var stack []int
	for i, e := range full {
		if !e.exit {
			stack = append(stack, i)
			continue
		}
		ends[stack[len(stack)-1]] = i
		stack = stack[:len(stack)-1]
	}
	if len(stack) != 0 {
		c.Fail("nodes that were not exited: %v", events(full))
		return
	}
	for k := 0; k < 6; k++ {
		// Which callbacks are set, and what they return in which turn.
		set := all
		chosen := map[string]bool{}
		if c.IntN(2) == 0 {
			var names []string
			for i := 0; i < ops.NumField(); i++ {
				if c.IntN(3) == 0 {
					names = append(names, ops.Field(i).Name)
					chosen[ops.Field(i).Name] = true
				}
			}
			set = func(f string) bool { return chosen[f] }
		}
		field := func(e walkEvent) string {
			if e.exit {
				return "Exit" + typeName(e.node.Type())
			}
			return "Enter" + typeName(e.node.Type())
		}
		var present []int
		for i, e := range full {
			if set(field(e)) {
				present = append(present, i)
			}
		}
		verdict := map[int]walkVerdict{}
		if len(present) > 0 {
			for i, n := 0, c.IntN(4); i < n; i++ {
				verdict[present[c.IntN(len(present))]] = exitNode
			}
			if c.IntN(2) == 0 {
				verdict[present[c.IntN(len(present))]] = abort
			}
		}
		// The model: a pass over the full walk.
		var want []int
		aborted := false
		for i := 0; i < len(full); i++ {
			if !set(field(full[i])) {
				continue
			}
			want = append(want, i)
			switch v := verdict[i]; {
			case v == abort:
				aborted = true
			case v == exitNode && !full[i].exit:
				i = ends[i] // its exit callback is among what is skipped
			}
			if aborted {
				break
			}
		}
		turn := 0
		var got []walkEvent
		wrong := ""
		res := typedWalk(pkg, root, direct, set, func(e walkEvent) walkVerdict {
			got = append(got, e)
			if wrong != "" {
				return goOn
			}
			if turn >= len(want) || full[want[turn]].id != e.id || full[want[turn]].exit != e.exit {
				wrong = fmt.Sprintf("callback %d (%s) was unexpected", turn, e)
				return goOn
			}
			turn++
			return verdict[want[turn-1]]
		})
		c.Eval()
		if wrong == "" && turn != len(want) {
			wrong = fmt.Sprintf("callback %d (%s) is missing", turn, full[want[turn]])
		}
		isAborter := res != nil && res.(interface{ Abort() bool }).Abort()
		switch {
		case wrong != "":
		case aborted && !isAborter:
			wrong = fmt.Sprintf("an aborted walk returned %v", res)
		case !aborted && res != nil:
			wrong = fmt.Sprintf("a walk that was not aborted returned %T", res)
		}
		verdicts := describeVerdicts(full, verdict)
		if wrong != "" {
			c.Fail("with callbacks %v (none: all) and verdicts %s: %s\nthe full walk is\n%v\nthis one was\n%v", keysOf(chosen), verdicts, wrong, events(full), events(got))
			return
		}
		if len(verdict) > 0 {
			c.Stat("walks with stoppers", 1)
			c.Stat("callbacks skipped", len(present)-len(want))
		}
		if tree.size >= 3 {
			c.Distinct(input, tree.id, keysOf(chosen), verdicts)
		}
	}
	if c.Index%60 < 4 && len(full) > 6 {
		c.Sample(map[string]any{"grammar": text, "input": input, "callbacks": len(full)})
	}
}

func keysOf(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func describeVerdicts(full []walkEvent, v map[int]walkVerdict) string {
	var out []string
	for i, e := range full {
		switch v[i] {
		case exitNode:
			out = append(out, fmt.Sprintf("%d: exit node at %s", i, e))
		case abort:
			out = append(out, fmt.Sprintf("%d: abort at %s", i, e))
		}
	}
	return "[" + strings.Join(out, "; ") + "]"
}

func events(es []walkEvent) string {
	var sb strings.Builder
	for i, e := range es {
		fmt.Fprintf(&sb, "%d %s\n", i, e)
	}
	return sb.String()
}
