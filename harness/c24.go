package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

func init() {
	// The code generated for the grammar has none of the methods, which are
	// separated by a bar.
	knownProbes["accessor-missing"] = func(args map[string]string) bool {
		tree, err := wbnf.ParseString(args["grammar"])
		if err != nil {
			return false
		}
		code := ""
		for _, t := range codegen.MakeTypes(tree).Get() {
			code += t.String()
		}
		for _, m := range strings.Split(args["methods"], "|") {
			if strings.Contains(code, m) {
				return false
			}
		}
		return code != ""
	}
	knownProbes["declared-twice"] = func(args map[string]string) bool {
		tree, err := wbnf.ParseString(args["grammar"])
		if err != nil {
			return false
		}
		code := ""
		for _, t := range codegen.MakeTypes(tree).Get() {
			code += t.String()
		}
		return strings.Count(code, args["method"]) > 1
	}
	register(&Check{
		ID: "C24",
		Rule: "each typed node reached from random inputs of generated code for random grammars, and from grammar texts (package wbnf): every One and All accessor against the children of that name in the underlying AST (unwrapped by the model of the grammar where the AST holds a named rule), in order and in full, nil or empty if there are none; token texts, back references, Choice and the text of nodes that are mere tokens against the AST; and every name in the AST (other than separators without a name) has an accessor that reaches all of its children. " +
			"Distinct by (grammar, tree); non-trivial if the tree has at least three nodes.",
		Cases:       map[string]int{"quick": 240, "thorough": 3000},
		Generated:   c24Grammar,
		Typed:       true,
		StrictTypes: true,
		Run: func(c *Case) {
			typedCase(c, 10, func(pkg genPkg, root reflect.Value, text, input string) {
				if c.failed {
					return
				}
				tree := newTypedTree(root, 0)
				var tt *typeTable
				if text == "" { // package wbnf
					tt = newTypeTable(wbnf.Grammar().Grammar())
				} else {
					g, _, _, _ := checks[c.ID].generate(c.Seed, c.Index)
					tt = newTypeTable(g)
				}
				for _, t := range tree.all() {
					if msg := c24Node(c, t.node, tt); msg != "" {
						c.Fail("%s\nin %s", msg, t.id)
						return
					}
				}
				c.Max("nodes in a tree", tree.size)
				if tree.size >= 3 {
					c.Distinct(text, tree.id)
				}
				if c.Index%60 < 4 && tree.size > 4 {
					c.Sample(map[string]any{"grammar": text, "input": input, "typed nodes": tree.size})
				}
			})
		},
	})
}

// c24Grammar makes grammars without associative delimiters, whose nested nodes
// lack accessors (known finding).
func c24Grammar(r *rand.Rand) (parser.Grammar, []parser.Rule, GenOpts) {
	o := typedOpts[r.IntN(len(typedOpts))]
	o.NoAssoc = true
	g, rules := genGrammar(r, o)
	return g, rules, o
}

// kidsOf returns what a branch holds under a name.
func kidsOf(n ast.Node, name string) []ast.Node {
	b, ok := n.(ast.Branch)
	if !ok {
		return nil
	}
	switch k := b[name].(type) {
	case ast.One:
		return []ast.Node{k.Node}
	case ast.Many:
		return k
	}
	return nil
}

// nodeText is the text of a node that is a token.
func nodeText(n ast.Node) string {
	switch n := n.(type) {
	case ast.Leaf:
		s := n.Scanner()
		return s.String()
	case ast.Branch:
		if k := kidsOf(n, ""); len(k) > 0 {
			return nodeText(k[0])
		}
	}
	return "(no text)"
}

func c24Node(c *Case, v reflect.Value, tt *typeTable) string {
	info := tt.types[strings.ToLower(strings.TrimSuffix(typeName(v.Type()), "Node"))]
	if info == nil {
		return "a type that the grammar doesn't account for"
	}
	n := typedNode(v)
	b, _ := n.(ast.Branch)
	accs := accessors(v.Type())
	reached := map[string]bool{}
	for _, a := range accs {
		name, found := "", false
		for k := range b {
			if k != "" && k[0] != '@' && plainName(k) == plainName(a.name) {
				name, found = k, true
			}
		}
		var want []ast.Node
		if found {
			want = kidsOf(n, name)
			if rule := info.wrapped[name]; rule != "" {
				inner := []ast.Node{}
				for _, w := range want {
					if k := kidsOf(w, rule); len(k) > 0 {
						w = k[0]
					} // else it's from a back reference
					inner = append(inner, w)
				}
				want = inner
			}
		}
		if a.name == "Token" && !a.typed {
			name = ""
			want = kidsOf(n, "")
		}
		res := v.Method(a.method).Call(nil)[0]
		c.Eval()
		c.Stat("accessors "+a.kind+map[bool]string{true: ", typed", false: ", text"}[a.typed], 1)
		what := a.kind + a.name
		switch {
		case a.kind == "Ref":
			got, _ := res.Interface().(ast.Node)
			if len(want) == 0 != (got == nil) || len(want) > 0 && canonAST(want[0], true) != canonAST(got, true) {
				return fmt.Sprintf("%s returned %v but the AST holds %v", what, got, want)
			}
			reached[name] = true
		case a.typed:
			var got []reflect.Value
			if a.kind == "All" {
				for i := 0; i < res.Len(); i++ {
					got = append(got, res.Index(i))
				}
				reached[name] = true
			} else {
				if !res.IsNil() {
					got = append(got, res.Elem())
				}
				if len(want) < 2 {
					reached[name] = true
				} else {
					want = want[:1]
				}
			}
			if len(got) != len(want) {
				return fmt.Sprintf("%s returned %d nodes but the AST holds %d", what, len(got), len(want))
			}
			for i := range got {
				if x, y := canonAST(typedNode(got[i]), true), canonAST(want[i], true); x != y {
					return fmt.Sprintf("%s returned as number %d\n%s\nbut the AST holds\n%s", what, i, x, y)
				}
			}
		default:
			var got []string
			if a.kind == "All" {
				for i := 0; i < res.Len(); i++ {
					got = append(got, res.Index(i).String())
				}
				reached[name] = true
			} else {
				got = []string{res.String()}
				if len(want) < 2 {
					reached[name] = true
				} else {
					want = want[:1]
				}
				if len(want) == 0 && got[0] == "" {
					got = nil
				}
			}
			if what == "OneToken" && len(want) == 0 && len(b) == 1 {
				continue // may be the token of the only child
			}
			if len(got) != len(want) {
				return fmt.Sprintf("%s returned %q but the AST holds %v", what, got, want)
			}
			for i := range got {
				if y := nodeText(want[i]); got[i] != y {
					return fmt.Sprintf("%s returned as number %d %q but the AST holds %q", what, i, got[i], y)
				}
			}
		}
	}
	// The text of nodes that are but a token.
	if info.token && len(accs) == 0 && !v.MethodByName("Choice").IsValid() {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		got, want := p.MethodByName("String").Call(nil)[0].String(), ""
		for _, s := range astLeaves(n) {
			want += s.String()
		}
		c.Eval()
		c.Stat("texts of tokens", 1)
		if got != want {
			return fmt.Sprintf("String() is %q but the AST holds %q", got, want)
		}
		reached[""] = true
	}
	for k := range b {
		switch {
		case k == "@choice":
			m := v.MethodByName("Choice")
			if !m.IsValid() && !info.choice && info.sepChoice() {
				c.Stat("choices of separators without a name", 1)
				continue
			}
			if !m.IsValid() {
				return "there is no method for the choice"
			}
			c.Eval()
			c.Stat("choices", 1)
			if got, want := int(m.Call(nil)[0].Int()), kidsOf(n, k)[0].(ast.Extra).Data; fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("Choice() is %d but the AST holds %v", got, want)
			}
		case k != "" && k[0] == '@':
		case reached[k]:
		case info.sepOnly(k):
			c.Stat("children that are separators without a name", 1)
		case info.namedSep[k] && (info.named[k] > 1 || info.kids[k]["ref"]):
			c.Stat("separators named like another (known finding)", 1)
		case info.namedSep[k] && sameTexts(kidsOf(n, k)):
			c.Stat("separators with a name, all the same", 1)
		default:
			return fmt.Sprintf("no accessor reaches all of the %d children %q", len(kidsOf(n, k)), k)
		}
	}
	return ""
}

func sameTexts(nodes []ast.Node) bool {
	for _, n := range nodes {
		if nodeText(n) != nodeText(nodes[0]) {
			return false
		}
	}
	return true
}
