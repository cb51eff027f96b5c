package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// recordingResolver resolves paths relative to the importing file and records
// what it was asked.
type recordingResolver struct {
	root  string
	alias map[string]string // what some paths mean, wherever they are used
	messy bool              // give back paths that are not clean
	calls map[string]int
}

func (r *recordingResolver) Resolve(from, path string) string {
	r.calls[from+" imports "+path]++
	if a, ok := r.alias[path]; ok {
		return a
	}
	dir := r.root
	if from != "" {
		dir = filepath.Dir(from)
	}
	if r.messy {
		return dir + "/./" + path
	}
	return filepath.Join(dir, path)
}

type importFile struct {
	name    string // relative to the root; "" for the text compiled
	grammar parser.Grammar
	imports []int
	text    string
}

func init() {
	opts := []GenOpts{
		{Rules: 6, Depth: 2, Wrap: true},
		{Rules: 5, Depth: 3, Scoped: true},
		{Rules: 8, Depth: 2, NoRE: true},
	}
	register(&Check{
		ID: "C10",
		Rule: "the rules and macros of random grammars are spread over up to nine files in a directory tree that import each other in random ways (trees, diamonds, cycles, self-imports, repeated imports, several spellings of one path, imports anywhere in a file), found through a resolver relative to the importing file, through aliases, or by absolute path without a resolver; " +
			"the parsers must behave as those of the one text with all statements, and the resolver be asked exactly the expected questions. In some runs a file is missing, a directory, malformed, empty or in conflict with another: compilation must fail. Non-trivial: at least two files; distinct by all texts.",
		Cases: map[string]int{"quick": 4500, "thorough": 120000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			base, rules := genGrammar(c.Rand, o)
			mg := parser.Grammar{}
			for r, t := range base {
				mg[r] = cloneTerm(t)
			}
			mm := &macroMaker{Rand: c.Rand, c: c, pure: true}
			for i, n := 0, c.IntN(3); i < n; i++ {
				mm.factor(mg)
			}
			root, err := os.MkdirTemp("", "vhC10")
			must(err)
			defer os.RemoveAll(root)

			dirs := []string{"", "", "sub/", "sub/deep/", "other/", "../up/"}
			n := 1 + c.IntN(9)
			files := []*importFile{{grammar: parser.Grammar{}}}
			for i := 1; i <= n; i++ {
				files = append(files, &importFile{
					name:    fmt.Sprintf("%sf%d%s", dirs[c.IntN(len(dirs))], i, []string{".wbnf", "", ".x.y", ":z"}[c.IntN(4)]),
					grammar: parser.Grammar{},
				})
			}
			top := filepath.Join(root, "in") // leaves room for ../
			for _, r := range sortedRules(mg) {
				f := files[c.IntN(len(files))]
				f.grammar[parser.Rule(r)] = mg[parser.Rule(r)]
			}
			for i := 1; i <= n; i++ { // everything is reachable
				f := files[c.IntN(i)]
				f.imports = append(f.imports, i)
			}
			for k := c.IntN(2 * n); k > 0; k-- {
				f := files[c.IntN(len(files))]
				f.imports = append(f.imports, 1+c.IntN(n))
			}
			if len(files[0].imports) == 0 {
				files[0].imports = []int{1}
			}

			// Whether each spelling is one that the resolver knows.
			mode := c.IntN(4)
			res := &recordingResolver{root: top, messy: mode == 1, alias: map[string]string{}, calls: map[string]int{}}
			want := map[string]bool{}
			path := func(f *importFile) string { return filepath.Join(top, f.name) }
			spell := func(from *importFile, to *importFile) string {
				if mode == 3 {
					return path(to) // no resolver: absolute
				}
				if mode == 2 && c.IntN(2) == 0 {
					a := fmt.Sprintf("lib:%s/x", strings.NewReplacer("/", ".", "..", "up").Replace(to.name))
					res.alias[a] = path(to)
					want[orEmpty(from, path)+" imports "+a] = true
					return a
				}
				dir := top
				if from.name != "" {
					dir = filepath.Dir(path(from))
				}
				rel, err := filepath.Rel(dir, path(to))
				must(err)
				want[orEmpty(from, path)+" imports "+rel] = true
				switch c.IntN(4) {
				case 0:
					if !strings.HasPrefix(rel, ".") {
						rel = "./" + rel
					}
				case 1:
					if !strings.HasPrefix(rel, ".") {
						rel = "nowhere/../" + rel
					}
				case 2:
					rel = strings.Replace(rel, "/", " / ", 1)
				}
				return rel
			}
			var all parser.Grammar = parser.Grammar{}
			for _, f := range files {
				var parts []string
				for _, r := range sortedRules(f.grammar) {
					all[parser.Rule(r)] = f.grammar[parser.Rule(r)]
					parts = append(parts, printMacros(c.Rand, parser.Grammar{parser.Rule(r): f.grammar[parser.Rule(r)]}, c.IntN(3) == 0))
				}
				for _, i := range f.imports {
					parts = append(parts, ".import "+spell(f, files[i])+[]string{";\n", "\n"}[c.IntN(2)])
				}
				if len(parts) == 0 {
					parts = append(parts, "// nothing here\n")
				}
				c.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
				f.text = strings.Join(parts, "")
				// An import may end in what looks like the start of the next statement unless it is closed.
				if f.name != "" {
					must(os.MkdirAll(filepath.Dir(path(f)), 0o755))
					must(os.WriteFile(path(f), []byte(f.text), 0o644))
				}
			}
			pasted := printMacros(c.Rand, all, false)
			texts := ""
			for _, f := range files {
				texts += "--- " + f.name + "\n" + f.text
			}
			c.Note("files", texts)
			c.Note("pasted", pasted)
			compile := func() (parser.Parsers, error) {
				res.calls = map[string]int{}
				if mode == 3 {
					return wbnf.Compile(files[0].text, nil)
				}
				return wbnf.Compile(files[0].text, res)
			}

			if c.IntN(3) == 0 { // break one of the files
				f := files[1+c.IntN(n)]
				fault := ""
				rewrite := func(s string) { must(os.WriteFile(path(f), []byte(s), 0o644)) }
				switch c.IntN(7) {
				case 0:
					fault = "missing file"
					must(os.Remove(path(f)))
				case 1:
					fault = "directory"
					must(os.Remove(path(f)))
					must(os.Mkdir(path(f), 0o755))
				case 2:
					fault = "malformed file"
					rewrite(f.text + []string{"a b c;", "zz -> \"a\"", ")", "zz -> ;", "\x00"}[c.IntN(5)])
				case 3:
					fault = "empty file"
					rewrite([]string{"", " \n"}[c.IntN(2)])
				case 4:
					fault = "rule defined twice"
					r := rules[c.IntN(len(rules))]
					if f.grammar[r] != nil {
						return
					}
					rewrite(f.text + fmt.Sprintf("\n%s -> \"dup\";", r))
				case 5:
					fault = "macro defined twice"
					key := ""
					for _, r := range sortedRules(mg) {
						if strings.HasPrefix(r, ".macro ") && f.grammar[parser.Rule(r)] == nil {
							key = r
						}
					}
					if key == "" {
						return
					}
					rewrite(f.text + "\n" + key + ` { "dup" }`)
				case 6:
					fault = "import of a missing file"
					rewrite(f.text + "\n.import no/such.file;")
				}
				c.Note("fault", fault+" "+f.name)
				_, err := compile()
				c.Eval()
				c.Stat("fault: "+fault, 1)
				if err == nil {
					c.Fail("no error in spite of a %s", fault)
					return
				}
				if err.Error() == "" {
					c.Fail("empty error message %T", err)
				}
				c.Distinct(texts, fault, f.name)
				return
			}

			p1, err := compile()
			if err != nil {
				c.Fail("a valid grammar was rejected: %v", err)
				return
			}
			p2, ok := compileText(c, pasted)
			if !ok {
				return
			}
			c.Eval()
			if mode != 3 {
				var got, exp []string
				for k := range res.calls {
					got = append(got, k)
				}
				for k := range want {
					exp = append(exp, k)
				}
				sort.Strings(got)
				sort.Strings(exp)
				if g, e := strings.Join(got, "\n"), strings.Join(exp, "\n"); g != e {
					c.Fail("the resolver was asked\n%s\ninstead of\n%s", g, e)
					return
				}
				c.Stat("paths resolved", len(got))
			}
			if n1, n2 := ruleNames(p1.Grammar()), ruleNames(p2.Grammar()); n1 != n2 {
				c.Fail("the rules are %s instead of %s", n1, n2)
				return
			}
			c.Max("files", len(files))
			hand := expandMacros(mg, nil)
			ps := []parser.Parsers{hand.Compile(nil), stripCuts(p1.Grammar()).Compile(nil), p2, p1}
			names := []string{"terms", "files, without cuts", "pasted text", "files"}
			ref := newRef(hand)
			for k := 0; k < 4; k++ {
				rule := rules[c.IntN(len(rules))]
				input := genInputs(c.Rand, hand, rule, o, 1)[0]
				if ref.Parse(rule, input).Budget {
					c.Stat("skipped: too expensive for the reference", 1)
					continue
				}
				c.Note("rule", rule)
				c.Note("input", input)
				var outs [4]string
				for i, p := range ps {
					var fine bool
					if outs[i], _, fine = parseOutcome(c, p, rule, input); !fine {
						return
					}
				}
				c.Eval()
				for _, ij := range [][2]int{{0, 1}, {2, 3}} {
					if i, j := ij[0], ij[1]; outs[i] != outs[j] {
						c.Fail("the parsers of the %s and of the %s differ:\n%s\n%s", names[i], names[j], outs[i], outs[j])
						return
					}
				}
			}
			c.Distinct(texts)
			c.Sample(map[string]any{"files": texts})
		},
	})
}

func orEmpty(f *importFile, path func(*importFile) string) string {
	if f.name == "" {
		return ""
	}
	return path(f)
}
