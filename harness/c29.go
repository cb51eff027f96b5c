package main

import (
	"bytes"
	"fmt"
	goast "go/ast"
	"go/format"
	goparser "go/parser"
	goprinter "go/printer"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// repoDir is where the repository is; elsewhere in experiments.
var repoDir = func() string {
	if d := os.Getenv("VH_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// generations are the parsers of the grammar of grammars.
var generations = onceGenerations(func() (ps []parser.Parsers, err error) {
	src, err := os.ReadFile(filepath.Join(repoDir, "examples", "wbnf.wbnf"))
	must(err)
	ps = []parser.Parsers{wbnf.Core(), wbnf.Grammar()}
	p, err := wbnf.Compile(string(src), nil)
	if err != nil {
		return nil, fmt.Errorf("the published grammar doesn't compile: %v", err)
	}
	ps = append(ps, p)
	// Each makes the next from its own reading of the grammar.
	for k := 0; k < 2; k++ {
		e, err := p.Parse("grammar", parser.NewScanner(string(src)))
		if err != nil {
			return nil, fmt.Errorf("generation %d doesn't accept the published grammar: %v", k, err)
		}
		node := ast.FromParserNode(p.Grammar(), e)
		p = wbnf.NewFromAst(node).Compile(node)
		ps = append(ps, p)
	}
	return ps, nil
})

var generationNames = []string{"the built-in parser", "the generated one", "that of the published grammar", "that which this one makes", "that of the next generation"}

func init() {
	register(&Check{
		ID: "C29",
		Rule: "the built-in parser, that of the generated Grammar(), that compiled from the published grammar, the one made from this one's own reading of the published grammar, and again the one made from that one's, parse the same texts from the same rules (grammars in plain and random formats, with macros and imports, garbled ones, hostile ones, token soup, random bytes, and pieces of these from the grammar's other rules): trees with offsets, kinds of errors, residues and ASTs have to agree. " +
			"The typed nodes and walks of package wbnf for these texts are compared with those of the code that gen makes of the published grammar: each accessor, from each node, and what callbacks are called with. Once per run, the source that gen makes of the published grammar is compared with the one in the repository: the grammar, and each declaration (types, constants, signatures of functions). Distinct by (rule, text); non-trivial if at least three tokens were matched.",
		Cases: map[string]int{"quick": 4500, "thorough": 400000},
		GeneratedOnly: func() (text, start string) {
			src, err := os.ReadFile(filepath.Join(repoDir, "examples", "wbnf.wbnf"))
			must(err)
			return string(src), "grammar"
		},
		Run: func(c *Case) {
			ps, err := generations()
			if err != nil {
				c.Fail("%v", err)
				return
			}
			if c.Index == 0 {
				c29source(c, ps)
			}
			var text, kind string
			switch c.IntN(6) {
			case 0:
				g, _ := genGrammar(c.Rand, coreOpts[c.IntN(len(coreOpts))])
				text, kind = printGrammar(g), "plain grammars"
			case 1:
				g, _ := genGrammar(c.Rand, GenOpts{Rules: 3, Depth: 4, Refs: true, Scoped: true, Wrap: true, Exts: []string{"f"}})
				text, kind = printFancy(c.Rand, g), "formatted grammars"
			case 2:
				src, err := os.ReadFile(filepath.Join(repoDir, "examples", "wbnf.wbnf"))
				must(err)
				text, kind = garble(c.Rand, string(src)), "the garbled grammar of grammars"
			default:
				text, kind = hostileText(c)
				if len(text) > 1500 || kind == "deep nesting" && strings.Count(text, "(") > 10 {
					return
				}
			}
			c29parse(c, ps, "grammar", text)
			c.Stat("texts: "+kind, 1)
			if !c.failed && c.IntN(3) == 0 {
				c29typed(c, text)
			}
			rules := sortedRules(ps[0].Grammar())
			for k := 0; k < 4 && !c.failed; k++ {
				r := parser.Rule(rules[c.IntN(len(rules))])
				if r[0] == '.' {
					continue
				}
				piece := text
				if len(text) > 0 {
					i := c.IntN(len(text))
					if c.IntN(2) == 0 { // at the start of a word
						for i < len(text) && i > 0 && text[i-1] > ' ' {
							i++
						}
					}
					piece = text[i:]
					if len(piece) > 40 && c.IntN(2) == 0 {
						piece = piece[:c.IntN(40)]
					}
				}
				c29parse(c, ps, r, piece)
			}
		},
	})
}

func c29parse(c *Case, ps []parser.Parsers, rule parser.Rule, text string) {
	c.Note("rule", rule)
	c.Note("text", text)
	var first string
	for i, p := range ps {
		c.Eval()
		o, fine := runParse(c, p, rule, text)
		if !fine {
			return
		}
		got := fmt.Sprintf("%T", o.Err)
		if o.OK {
			got += fmt.Sprintf(" to %d\n%s\n%s", o.End, o.Tree, canonAST(ast.FromParserNode(p.Grammar(), o.Element), true))
			if i == 0 && len(o.Tree.Leaves()) >= 3 {
				c.Distinct(rule, text)
			}
		}
		if i == 0 {
			first = got
			if c.Index%600 == 1 {
				c.Sample(map[string]any{"rule": rule, "text": text, "outcome": clip(got, 500)})
			}
			if o.OK && o.End == len(text) {
				c.Stat("accepted", 1)
			} else if o.OK {
				c.Stat("partly matched", 1)
			} else {
				c.Stat("rejected", 1)
			}
			continue
		}
		if got != first {
			c.Fail("%s and %s differ: %s", generationNames[0], generationNames[i], firstDifference(first, got))
			return
		}
	}
}

// declarations lists what a Go file declares, without the bodies of functions.
func declarations(name string, src []byte) (map[string]string, error) {
	fset := token.NewFileSet()
	f, err := goparser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	show := func(n any) string {
		var buf bytes.Buffer
		must(goprinter.Fprint(&buf, fset, n))
		return strings.Join(strings.Fields(buf.String()), " ")
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *goast.FuncDecl:
			recv := ""
			if d.Recv != nil {
				recv = show(d.Recv.List[0].Type) + "."
			}
			var params []string
			for _, fl := range []*goast.FieldList{d.Type.Params, d.Type.Results} {
				if fl == nil {
					continue
				}
				for _, p := range fl.List {
					for k := 0; k < len(p.Names) || k == 0; k++ {
						params = append(params, show(p.Type))
					}
				}
				params = append(params, ";")
			}
			out["func "+recv+d.Name.Name] = strings.Join(params, " ")
		case *goast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *goast.TypeSpec:
					out["type "+s.Name.Name] = show(s.Type)
				case *goast.ValueSpec:
					if d.Tok != token.CONST {
						continue
					}
					for i, n := range s.Names {
						v := ""
						if i < len(s.Values) {
							v = show(s.Values[i])
						}
						out["const "+n.Name] = v
					}
				}
			}
		}
	}
	return out, nil
}

// c29source compares the generated source in the repository with what the
// generator makes.
func c29source(c *Case, ps []parser.Parsers) {
	src, err := os.ReadFile(filepath.Join(repoDir, "examples", "wbnf.wbnf"))
	must(err)
	p, err := wbnf.Compile(string(src), nil)
	must(err)
	made, kept := codegen.MakeGrammarString(p.Grammar()).String(), codegen.MakeGrammarString(wbnf.Grammar().Grammar()).String()
	c.Eval()
	if made != kept {
		c.Fail("the grammar in the generated source is not that of the published grammar: %s", firstDifference(made, kept))
		return
	}
	types := codegen.MakeTypes(p.Node().(wbnf.GrammarNode))
	var buf bytes.Buffer
	must(codegen.Write(&buf, codegen.TemplateData{
		PackageName:       "wbnf",
		StartRule:         codegen.IdentName("grammar"),
		StartRuleTypeName: codegen.GoTypeName("grammar"),
		Grammar:           codegen.MakeGrammarString(p.Grammar()),
		MiddleSection:     append(types.Get(), codegen.GetVisitorWriter(types.Types(), "grammar")),
	}))
	out, err := format.Source(buf.Bytes())
	if err != nil {
		c.Fail("the generated source is malformed: %v", err)
		return
	}
	cliOut, err := runLimited(60*time.Second, repoDir, nil, cliExe(), "gen", "--grammar", "examples/wbnf.wbnf", "--start", "grammar", "--pkg", "wbnf")
	if err != nil {
		c.Fail("gen fails for the published grammar: %v %s", err, clip(string(cliOut.stderr), 1000))
		return
	}
	want, err := declarations("made.go", out)
	must(err)
	want2, err := declarations("cli.go", cliOut.stdout)
	must(err)
	got := map[string]string{}
	files, err := filepath.Glob(filepath.Join(repoDir, "wbnf", "*.go"))
	must(err)
	for _, file := range files {
		if strings.HasSuffix(file, "_test.go") {
			continue
		}
		text, err := os.ReadFile(file)
		must(err)
		ds, err := declarations(file, text)
		must(err)
		for k, v := range ds {
			got[k] = v
		}
	}
	for k, w := range []map[string]string{want, want2} {
		var names []string
		for name := range w {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			c.Eval()
			c.Stat("declarations compared", 1)
			if g, has := got[name]; !has {
				c.Fail("the source in the repository lacks %s, which the generator makes (%d)", name, k)
			} else if g != w[name] {
				c.Fail("%s is %s in the repository but %s as generated", name, g, w[name])
			}
		}
	}
}

func onceGenerations(f func() ([]parser.Parsers, error)) func() ([]parser.Parsers, error) {
	var once sync.Once
	var ps []parser.Parsers
	var err error
	return func() ([]parser.Parsers, error) {
		once.Do(func() { ps, err = f() })
		return ps, err
	}
}

// c29typed compares the typed nodes of package wbnf with those of the code
// that the generator makes now.
func c29typed(c *Case, text string) {
	pkg, ok := genPkgs[0]
	if !ok {
		gc := genCases[0]
		c.Fail("the code generated for the published grammar cannot be had: %s%s", gc.GenError, gc.CompileError)
		return
	}
	kept, keptErr := wbnf.ParseString(text)
	out := reflect.ValueOf(pkg.ParseString).Call([]reflect.Value{reflect.ValueOf(text)})
	c.Eval()
	if (keptErr == nil) != out[1].IsNil() {
		c.Fail("ParseString gives %v in package wbnf, but %v in the code generated for the published grammar", keptErr, out[1])
		return
	}
	if keptErr != nil {
		return
	}
	a, b := reflect.ValueOf(kept), out[0]
	n := 0
	if msg := sameTyped(c, a, b, &n); msg != "" {
		c.Fail("package wbnf and the code generated for the published grammar differ: %s", msg)
		return
	}
	c.Stat("accessors called", n)
	set := map[string]bool{}
	all := c.IntN(2) == 0
	walk := func(pkg genPkg, root reflect.Value) (string, any) {
		var events []string
		res := typedWalk(pkg, root, false, func(field string) bool {
			if _, has := set[field]; !has {
				set[field] = all || c.IntN(2) == 0
			}
			return set[field]
		}, func(e walkEvent) walkVerdict {
			events = append(events, e.String())
			return goOn
		})
		sort.Strings(events) // which name comes first is up to the walker
		return strings.Join(events, "\n"), res
	}
	ea, ra := walk(coreAPI(), a)
	eb, rb := walk(pkg, b)
	c.Eval()
	if ea != eb {
		c.Fail("walks with package wbnf and the code generated for the published grammar differ: %s", firstDifference(ea, eb))
	} else if (ra == nil) != (rb == nil) {
		c.Fail("the walk with package wbnf gives %v, but %v in the code generated for the published grammar", ra, rb)
	}
	c.Stat("typed trees compared", 1)
}

// sameTyped compares typed nodes of two packages and all that their accessors reach.
func sameTyped(c *Case, a, b reflect.Value, n *int) string {
	if x, y := nodeID(a), nodeID(b); x != y {
		return fmt.Sprintf("%s or %s", x, y)
	}
	t := a.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 || m.Name == "One" || m.Name == "Many" {
			continue
		}
		other := b.MethodByName(m.Name)
		if !other.IsValid() {
			continue // see declarations
		}
		*n++
		var x, y reflect.Value
		px := catch(func() { x = a.Method(i).Call(nil)[0] })
		py := catch(func() { y = other.Call(nil)[0] })
		what := typeName(t) + "." + m.Name
		if (px == nil) != (py == nil) {
			return fmt.Sprintf("%s panics in one only: %v, %v", what, px, py)
		}
		if px != nil {
			continue
		}
		if x.Kind() != y.Kind() {
			return what + " gives different types"
		}
		one := func(x, y reflect.Value) string {
			switch {
			case isTyped(x.Type()):
				return sameTyped(c, x, y, n)
			case x.Kind() == reflect.String || x.Kind() == reflect.Int || x.Kind() == reflect.Bool:
				if fmt.Sprint(x) != fmt.Sprint(y) {
					return fmt.Sprintf("%s gives %q or %q", what, x, y)
				}
			}
			return ""
		}
		switch x.Kind() {
		case reflect.Ptr:
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s is nil in one only: %v, %v", what, x, y)
			}
			if !x.IsNil() {
				if msg := one(x.Elem(), y.Elem()); msg != "" {
					return msg
				}
			}
		case reflect.Slice:
			if x.Len() != y.Len() {
				return fmt.Sprintf("%s gives %d or %d", what, x.Len(), y.Len())
			}
			for k := 0; k < x.Len(); k++ {
				if msg := one(x.Index(k), y.Index(k)); msg != "" {
					return msg
				}
			}
		default:
			if msg := one(x, y); msg != "" {
				return msg
			}
		}
	}
	return ""
}
