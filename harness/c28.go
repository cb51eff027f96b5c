package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/format"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/cmd/codegen"
	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// cliExe is the command, which run.sh builds.
func cliExe() string { return filepath.Join(verifDir(), ".build", "wbnf") }

// cli is a scratch directory to run the command in.
type cli struct {
	*Case
	dir string
	cwd string
}

func (c *cli) write(name, text string) string {
	file := filepath.Join(c.dir, name)
	must(os.MkdirAll(filepath.Dir(file), 0o755))
	must(os.WriteFile(file, []byte(text), 0o644))
	return file
}

// spell gives a path as it may stand on the command line.
func (c *cli) spell(file string) string {
	if c.IntN(2) == 0 {
		return file
	}
	rel, err := filepath.Rel(c.cwd, file)
	must(err)
	if c.IntN(3) == 0 {
		rel = "./" + rel
	}
	return rel
}

// flags puts flags in one of the forms there are, in any order.
func (c *cli) flags(pairs ...[2]string) (out []string) {
	for _, i := range c.Perm(len(pairs)) {
		name, value := pairs[i][0], pairs[i][1]
		dash := []string{"--", "-"}[c.IntN(2)]
		switch {
		case value == "\x00":
			out = append(out, dash+name)
		case c.IntN(2) == 0:
			out = append(out, dash+name+"="+value)
		default:
			out = append(out, dash+name, value)
		}
	}
	return
}

// files returns all files below the directory with what they hold.
func (c *cli) files() string {
	var out []string
	must(filepath.Walk(c.dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		what := ""
		if info.Mode().IsRegular() {
			b, err := os.ReadFile(path)
			must(err)
			what = fmt.Sprintf("%d %x", len(b), fnvOf(b))
		}
		out = append(out, path+" "+info.Mode().String()+" "+what)
		return nil
	}))
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// expectation says what a run has to do.
type expectation struct {
	what   string
	ok     bool
	stdout *string // exactly; nil if it doesn't matter
	loud   bool    // a message on standard error
	output string  // file that may change
}

func (c *cli) run(stdin string, args []string, want expectation) bool {
	before := ""
	if want.output == "" {
		before = c.files()
	}
	c.Note("command line", fmt.Sprintf("%q in %s", args, c.cwd))
	c.Note("standard input", stdin)
	out, err := runLimited(60*time.Second, c.cwd, []byte(stdin), cliExe(), args...)
	c.Eval()
	c.Stat("runs: "+want.what, 1)
	var exit *exec.ExitError
	code := 0
	if errors.As(err, &exit) {
		code = exit.ExitCode()
		err = nil
	}
	switch {
	case err != nil:
		c.Fail("%s: the command %v", want.what, err)
	case code < 0:
		c.Fail("%s: the command was killed: %v", want.what, exit)
	case (code == 0) != want.ok:
		c.Fail("%s: exit code %d\nstdout: %s\nstderr: %s", want.what, code, clip(string(out.stdout), 600), clip(string(out.stderr), 600))
	case want.stdout != nil && string(out.stdout) != *want.stdout:
		c.Fail("%s: standard output differs: %s\ngot\n%s\nwant\n%s", want.what, firstDifference(string(out.stdout), *want.stdout), clip(string(out.stdout), 1500), clip(*want.stdout, 1500))
	case !want.ok && len(bytes.TrimSpace(out.stdout))+len(bytes.TrimSpace(out.stderr)) == 0:
		c.Fail("%s: exit code %d without any message", want.what, code)
	case want.loud && len(bytes.TrimSpace(out.stderr)) == 0:
		c.Fail("%s: no message on standard error", want.what)
	case want.output == "" && c.files() != before:
		c.Fail("%s: the files are not as before:\n%s\n%s", want.what, before, c.files())
	}
	return !c.failed
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 3, AST: true},
		{Rules: 4, Depth: 4, AST: true, Scoped: true},
		{Rules: 6, Depth: 2, AST: true, Wrap: true, Refs: true},
	}
	register(&Check{
		ID: "C28",
		Rule: "the command built from the working tree runs in scratch directories on random grammars, some spread over files in several directories that import each other, valid, mutated and random inputs (from files, standard input, -), flags in any order and spelling, several working directories. For test, with and without --grammar, --tree and -v, exit code and standard output have to be those that follow from calling the library (AST, tree view, partial result); " +
			"for gen, to standard output, -, new and existing files, exactly the library's source for that command line. Faults: missing files and directories in place of files, invalid and conflicting grammars, missing imports, unknown or missing rules, missing flags, output that can't be written (also a full device): non-zero exit, a message, no file touched. Distinct by command line and files.",
		Cases: map[string]int{"quick": 400, "thorough": 30000},
		Run: func(cc *Case) {
			o := pickOpts(cc, opts)
			dir, err := os.MkdirTemp("", "vh-cli-")
			must(err)
			defer os.RemoveAll(dir)
			c := &cli{Case: cc, dir: dir}
			c28(c, o)
		},
	})
}

func c28(c *cli, o GenOpts) {
	g, rules := genGrammar(c.Rand, o)
	whole := printGrammar(g)
	c.Note("grammar", whole)
	for _, d := range []string{"gr/sub", "other", "a b"} {
		must(os.MkdirAll(filepath.Join(c.dir, d), 0o755))
	}
	c.cwd = filepath.Join(c.dir, []string{"", "gr", "other", "a b"}[c.IntN(4)])
	root := filepath.Join(c.dir, "gr")
	main := whole
	if c.IntN(3) == 0 && len(g) > 1 {
		// Spread the rules over files.
		parts := []parser.Grammar{{}, {}, {}}
		for _, r := range sortedRules(g) {
			k := 0
			if r != ".wrapRE" {
				k = c.IntN(3)
			}
			parts[k][parser.Rule(r)] = g[parser.Rule(r)]
		}
		text := func(g parser.Grammar) string {
			if len(g) == 0 {
				return ""
			}
			return printGrammar(g)
		}
		main = ".import sub/one.wbnf;\n" + text(parts[0])
		c.write("gr/sub/one.wbnf", ".import two.wbnf;\n"+text(parts[1]))
		c.write("gr/sub/two.wbnf", text(parts[2])+"\n.import ../sub/one.wbnf;\n")
		c.Stat("grammars of several files", 1)
	}
	file := c.write("gr/main.wbnf", main)
	var p parser.Parsers
	var err error
	if !c.Try("compiling", func() { p, err = wbnf.Compile(whole, nil) }) {
		return
	}
	if err != nil {
		c.Fail("the grammar doesn't compile: %v", err)
		return
	}
	ref := newRef(g)
	test := []string{"test", "t"}[c.IntN(2)]
	text := func(n ast.Node, root string, tree bool) *string {
		s := fmt.Sprintln(n)
		if tree {
			s = ast.BuildTreeView(root, n, true) + "\n"
		}
		return &s
	}
	for k := 0; k < 3 && !c.failed; k++ {
		rule := rules[c.IntN(len(rules))]
		in := genInputs(c.Rand, g, rule, o, 1)[0]
		switch c.IntN(8) {
		case 0:
			in += []string{"\n", "\n", "\r\n", " ", "\n\n", "\t", "\x00", "\x1a", "\xff", "\u2028"}[c.IntN(10)]
		case 1:
			in = []string{"\n", " ", "\ufeff", "\r\n", "#!"}[c.IntN(5)] + in
		}
		if len(in) > 300 || ref.Parse(rule, in).Budget {
			continue
		}
		inFile := c.write([]string{"in", "other/x.txt", "a b/in put"}[c.IntN(3)], in)
		flags := [][2]string{{"grammar", c.spell(file)}, {"start", string(rule)}}
		stdin := ""
		switch c.IntN(3) {
		case 0:
			stdin = in
		case 1:
			stdin = in
			flags = append(flags, [2]string{"input", "-"})
		default:
			flags = append(flags, [2]string{"input", c.spell(inFile)})
		}
		tree := c.IntN(2) == 0
		if tree {
			flags = append(flags, [2]string{"tree", "\x00"})
		}
		if c.IntN(4) == 0 {
			flags = append(flags, [2]string{"v", "\x00"})
		}
		want := expectation{}
		e, err := p.Parse(rule, parser.NewScanner(in))
		var uci parser.UnconsumedInputError
		switch {
		case err == nil:
			want.what, want.ok = "test, the input matches", true
		case errors.As(err, &uci):
			e = uci.Result()
			want.what, want.loud = "test, a part of the input matches", true
		default:
			want.what, want.loud = "test, the input doesn't match", true
			s := ""
			want.stdout = &s
		}
		if want.stdout == nil {
			want.stdout = text(ast.FromParserNode(p.Grammar(), e), string(rule), tree)
		}
		args := append([]string{test}, c.flags(flags...)...)
		if !c.run(stdin, args, want) {
			return
		}
		c.Distinct(main, fmt.Sprint(args), in)
		if c.Index%100 == 0 {
			c.Sample(map[string]any{"args": args, "stdin": stdin, "grammar": main, "expected": want.what})
		}
	}
	if c.IntN(20) == 0 && !c.failed { // more than a pipe holds at once
		in := strings.Repeat([]string{"a", "qwerty", "\u00df"}[c.IntN(3)], 40000)
		in += []string{"", "\n", "1"}[c.IntN(3)]
		f := c.write("gr/long.wbnf", `word -> /{[^\d\n]*} /{\n?};`)
		flags := [][2]string{{"grammar", c.spell(f)}, {"start", "word"}}
		stdin := in
		if c.IntN(2) == 0 {
			stdin = ""
			flags = append(flags, [2]string{"input", c.spell(c.write("long.txt", in))})
		}
		p := wbnf.MustCompile(`word -> /{[^\d\n]*} /{\n?};`, nil)
		e, err := p.Parse("word", parser.NewScanner(in))
		want := expectation{what: "test, a long input", ok: err == nil, loud: err != nil}
		var uci parser.UnconsumedInputError
		if errors.As(err, &uci) {
			e = uci.Result()
		}
		want.stdout = text(ast.FromParserNode(p.Grammar(), e), "word", false)
		if !c.run(stdin, append([]string{test}, c.flags(flags...)...), want) {
			return
		}
	}
	c28self(c, root, main, file, test, text)
	for k := 0; k < 2 && !c.failed; k++ {
		c28gen(c, p, file, rules)
	}
	for k := 0; k < 3 && !c.failed; k++ {
		c28faults(c, main, file, test, rules)
	}
}

// c28self prints the AST of a grammar.
func c28self(c *cli, root, main, file, test string, text func(ast.Node, string, bool) *string) {
	base, stdin := root, ""
	var flags [][2]string
	switch c.IntN(4) {
	case 0:
		stdin = main
		base = "."
		if strings.Contains(main, ".import") {
			c.cwd = root
		}
		flags = append(flags, [2]string{"input", "-"})
	case 1:
		stdin = main
		if strings.Contains(main, ".import") {
			c.cwd = root
		}
		base = "."
	default:
		flags = append(flags, [2]string{"input", c.spell(file)})
	}
	if base == "." {
		base = c.cwd
	}
	tree := c.IntN(2) == 0
	if tree {
		flags = append(flags, [2]string{"tree", "\x00"})
	}
	if c.IntN(4) == 0 {
		flags = append(flags, [2]string{"start", "whatever"})
	}
	p, err := wbnf.Compile(main, &recordingResolver{root: base, calls: map[string]int{}})
	if err != nil {
		c.Fail("the grammar doesn't compile: %v", err)
		return
	}
	node := p.Node().(wbnf.GrammarNode)
	want := expectation{what: "test, a grammar's AST", ok: true}
	want.stdout = text(node.Node, "grammar", tree)
	c.run(stdin, append([]string{test}, c.flags(flags...)...), want)
}

func c28gen(c *cli, p parser.Parsers, file string, rules []parser.Rule) {
	rule := rules[c.IntN(len(rules))]
	pkg := []string{"p", "main", "grammar_2"}[c.IntN(3)]
	flags := [][2]string{{"grammar", c.spell(file)}, {"start", string(rule)}, {"pkg", pkg}}
	output := ""
	switch c.IntN(4) {
	case 0:
		flags = append(flags, [2]string{"output", "-"})
	case 1, 2:
		output = filepath.Join(c.dir, []string{"out.go", "a b/g.go", "gr/x"}[c.IntN(3)])
		flags = append(flags, [2]string{"output", c.spell(output)})
		switch c.IntN(3) {
		case 0:
			must(os.WriteFile(output, []byte(strings.Repeat("old\n", c.IntN(20000))), 0o644))
		case 1:
			os.Remove(output)
		}
	}
	args := append([]string{[]string{"gen", "g"}[c.IntN(2)]}, c.flags(flags...)...)
	c.Note("command line", args)
	var src []byte
	if !c.Try("generating", func() {
		main, err := os.ReadFile(file)
		must(err)
		q, err := wbnf.Compile(string(main), &recordingResolver{root: filepath.Dir(file), calls: map[string]int{}})
		must(err)
		types := codegen.MakeTypes(q.Node().(wbnf.GrammarNode))
		var buf bytes.Buffer
		must(codegen.Write(&buf, codegen.TemplateData{
			CommandLine:       strings.Join(args, " "),
			PackageName:       pkg,
			StartRule:         codegen.IdentName(string(rule)),
			StartRuleTypeName: codegen.GoTypeName(string(rule)),
			Grammar:           codegen.MakeGrammarString(q.Grammar()),
			MiddleSection:     append(types.Get(), codegen.GetVisitorWriter(types.Types(), string(rule))),
		}))
		src, err = format.Source(buf.Bytes())
		must(err)
	}) {
		return
	}
	s := string(src)
	want := expectation{what: "gen to standard output", ok: true, stdout: &s}
	if output != "" {
		want.what, want.output = "gen to a file", output
		none := ""
		want.stdout = &none
	}
	if !c.run("", args, want) {
		return
	}
	if output != "" {
		got, err := os.ReadFile(output)
		if err != nil {
			c.Fail("gen didn't write its output: %v", err)
		} else if string(got) != s {
			c.Fail("the file written differs: %s", firstDifference(string(got), s))
		}
	}
}

func c28faults(c *cli, main, file, test string, rules []parser.Rule) {
	rule := string(rules[0])
	inFile := c.write("in", "x")
	missing := filepath.Join(c.dir, []string{"no.such", "gr/no.such", "nodir/file"}[c.IntN(3)])
	folder := filepath.Join(c.dir, "gr")
	badFile := func() string {
		if c.IntN(3) == 0 {
			return folder
		}
		return missing
	}
	badGrammars := []string{
		main + "\n" + rule + ` -> "twice";`, main + "\nzz -> ;;", main + "\nzz -> nothing_there;", main + "\nzz -> \"open;", main + "\n.import no/such.file;", "", "   \n", "\xff\xfe", main + "\nzz -> zz \"left\";", main + "\nzz -> /{(};",
	}
	gFile, start, input := c.spell(file), rule, c.spell(inFile)
	old := strings.Repeat("old\n", c.IntN(100))
	output := c.write("a b/out.go", old)
	kind, what := test, ""
	var drop string
	switch c.IntN(11) {
	case 0:
		gFile, what = c.spell(badFile()), "a grammar that can't be read"
	case 1:
		input, what = c.spell(badFile()), "an input that can't be read"
	case 2:
		start, what = rule+"_no_such", "a rule that isn't there"
	case 3:
		drop, what = "start", "no rule"
	case 4:
		gFile, what = c.spell(c.write("gr/bad.wbnf", badGrammars[c.IntN(len(badGrammars))])), "an invalid grammar"
	case 5:
		kind, gFile, what = "gen", c.spell(badFile()), "a grammar that can't be read"
	case 6:
		kind, gFile, what = "gen", c.spell(c.write("gr/bad.wbnf", badGrammars[c.IntN(len(badGrammars))])), "an invalid grammar"
	case 7:
		kind, drop, what = "gen", []string{"pkg", "start", "grammar"}[c.IntN(3)], "a missing flag"
	case 8:
		kind, what = "gen", "an output that can't be written"
		output = []string{folder, filepath.Join(c.dir, "nodir/out.go"), inFile + "/x"}[c.IntN(3)]
	case 9:
		kind, what = "gen", "a full device"
		output = "/dev/full"
	case 10:
		what = "no grammar, and an invalid one as the input"
		drop = "grammar"
		input = c.spell(c.write("gr/bad.wbnf", badGrammars[c.IntN(len(badGrammars))]))
	}
	flags := [][2]string{}
	add := func(name, value string) {
		if name != drop {
			flags = append(flags, [2]string{name, value})
		}
	}
	add("grammar", gFile)
	add("start", start)
	want := expectation{what: kind + ", fault: " + what}
	if kind == "gen" {
		add("pkg", "p")
		if output == "/dev/full" {
			c28full(c, append([]string{"gen"}, c.flags(flags...)...))
			flags = append(flags, [2]string{"output", output})
		} else {
			add("output", c.spell(output))
		}
		none := ""
		if drop == "" { // usage is shown otherwise
			want.stdout = &none
		}
	} else {
		add("input", input)
	}
	c.run("", append([]string{kind}, c.flags(flags...)...), want)
	c.Distinct("fault", kind, what, fmt.Sprint(flags), main)
}

// c28full has the command write to a full device.
func c28full(c *cli, args []string) {
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return
	}
	defer full.Close()
	cmd := exec.Command(cliExe(), args...)
	cmd.Dir = c.cwd
	cmd.Stdout = full
	var errs bytes.Buffer
	cmd.Stderr = &errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Note("command line", fmt.Sprintf("%q > /dev/full", args))
	timer := time.AfterFunc(60*time.Second, func() {
		if cmd.Process != nil {
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	})
	err = cmd.Run()
	timer.Stop()
	c.Eval()
	c.Stat("runs: gen, standard output on a full device", 1)
	if err == nil || errs.Len() == 0 {
		c.Fail("gen with standard output on a full device: %v, %s", err, errs.String())
	}
}

func fnvOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}
