package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	goast "go/ast"
	"go/format"
	goparser "go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/arr-ai/wbnf/parser"
)

// Checks of generated code work in two steps. First the binary generates
// random grammars and has the wbnf command of the working tree generate code
// for each. Then it builds itself once more together with all this code, and
// the result runs the cases, one for each grammar.

// genPkg is a generated package that was compiled into this binary.
type genPkg struct {
	Ops, Exiter, Aborter any
	Parse, ParseString   any
	Grammar              func() parser.Parsers
}

var genPkgs = map[int]genPkg{}

// genCase tells what became of a case before it was compiled in.
type genCase struct {
	Index int
	Text  string
	Start string
	// What failed, if anything.
	GenError, Differs, CompileError string
}

var genCases map[int]genCase

func (chk *Check) generate(seed uint64, index int) (g parser.Grammar, rules []parser.Rule, o GenOpts, text string) {
	r := caseRand(chk.ID+"/grammar", seed, index)
	for {
		g, rules, o = chk.Generated(r)
		if wbnfCompiles(g) && len(newTypeTable(g).problems(chk.StrictTypes)) == 0 {
			return g, rules, o, printFancy(r, g)
		}
	}
}

func wbnfCompiles(g parser.Grammar) (ok bool) {
	return catch(func() { g.Compile(nil) }) == nil
}

// needsGenerated tells whether the binary lacks the code that the check is about.
func needsGenerated(chk *Check) bool {
	return chk != nil && (chk.Generated != nil || chk.GeneratedOnly != nil) && os.Getenv("VH_GENDIR") == ""
}

// wbnfBinary builds the wbnf command of the working tree.
func wbnfBinary(dir string) string {
	exe := filepath.Join(dir, "wbnf")
	cmd := exec.Command("go", "build", "-o", exe, "github.com/arr-ai/wbnf")
	cmd.Dir = filepath.Join(verifDir(), "harness")
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "vh: the wbnf command does not build: %v\n%s\n", err, out)
		os.Exit(2)
	}
	return exe
}

// withGenerated builds the binary with generated code and runs it with the
// arguments given.
func withGenerated(chk *Check, tier string, seed uint64, only int, args []string) int {
	dir, err := os.MkdirTemp("", "vh-gen-")
	must(err)
	defer os.RemoveAll(dir)
	wbnfExe := wbnfBinary(dir)
	var indices []int
	if chk.GeneratedOnly != nil {
		indices = []int{0}
	} else if only >= 0 {
		indices = []int{only}
	} else {
		for i := 0; i < chk.Cases[tier]; i++ {
			if chk.Typed && i%4 == 3 {
				continue // about package wbnf
			}
			indices = append(indices, i)
		}
	}
	cases := make([]genCase, len(indices))
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range next {
				i := indices[k]
				gc := genCase{Index: i}
				if chk.GeneratedOnly != nil {
					gc.Text, gc.Start = chk.GeneratedOnly()
				} else {
					_, rules, _, text := chk.generate(seed, i)
					gc.Text, gc.Start = text, string(rules[0])
				}
				text := gc.Text
				file := filepath.Join(dir, fmt.Sprintf("g%d.wbnf", i))
				must(os.WriteFile(file, []byte(text), 0o644))
				var outs [2][]byte
				for try := range outs {
					out, err := runLimited(60*time.Second, "", nil, wbnfExe, "gen", "--grammar", file, "--pkg", "g"+strconv.Itoa(i), "--start", gc.Start)
					if err != nil {
						gc.GenError = fmt.Sprintf("%v: %s", err, clip(string(out.stderr), 1500))
						break
					}
					outs[try] = out.stdout
				}
				if gc.GenError == "" {
					if !bytes.Equal(outs[0], outs[1]) {
						gc.Differs = firstDifference(string(outs[0]), string(outs[1]))
					}
					must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("g%d.go", i)), outs[0], 0o644))
				}
				cases[k] = gc
			}
		}()
	}
	for k := range indices {
		next <- k
	}
	close(next)
	wg.Wait()
	exe := filepath.Join(dir, "vhgen")
	for try := 0; ; try++ {
		out, err := buildGenerated(dir, exe, cases)
		if err == nil {
			break
		}
		// Leave out what doesn't compile.
		bad := map[int]string{}
		for _, m := range regexp.MustCompile(`(?m)^.*?g(\d+)\.go:(.*)$`).FindAllStringSubmatch(string(out), -1) {
			i, _ := strconv.Atoi(m[1])
			if len(bad[i]) < 1500 {
				bad[i] += m[2] + "\n"
			}
		}
		found := false
		for k := range cases {
			if msg, is := bad[cases[k].Index]; is && cases[k].CompileError == "" {
				cases[k].CompileError = msg
				found = true
			}
		}
		if !found || try > 40 {
			fmt.Fprintf(os.Stderr, "vh: the generated code does not build: %v\n%s\n", err, out)
			return 2
		}
	}
	b, err := json.Marshal(cases)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "cases.json"), b, 0o644))
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "VH_GENDIR="+dir)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() >= 0 {
			return ee.ExitCode()
		}
		fmt.Fprintln(os.Stderr, "vh:", err)
		return 2
	}
	return 0
}

// prefixed renames what a file declares, so that files of several packages fit
// into one: compiling one package takes a second or two whatever its size.
func prefixed(src []byte, pkg, prefix string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := goparser.ParseFile(fset, "", src, 0)
	if err != nil {
		return nil, err
	}
	own := map[*goast.Object]bool{}
	for _, o := range f.Scope.Objects {
		own[o] = true
	}
	goast.Inspect(f, func(n goast.Node) bool {
		if id, ok := n.(*goast.Ident); ok && id.Obj != nil && own[id.Obj] {
			id.Name = prefix + id.Name
		}
		return true
	})
	f.Name.Name = pkg
	var out bytes.Buffer
	if err := format.Node(&out, fset, f); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

func buildGenerated(dir, exe string, cases []genCase) ([]byte, error) {
	harness := filepath.Join(verifDir(), "harness")
	replace := map[string]string{}
	var reg, imports strings.Builder
	packs := map[string]bool{}
	for k, gc := range cases {
		if gc.GenError != "" || gc.CompileError != "" {
			continue
		}
		pack := fmt.Sprintf("p%d", k%8+k/400*8)
		if !packs[pack] {
			packs[pack] = true
			fmt.Fprintf(&imports, "import %s \"verif/gen/%[1]s\"\n", pack)
		}
		name := fmt.Sprintf("g%d.go", gc.Index)
		replace[filepath.Join(harness, "gen", pack, name)] = filepath.Join(dir, pack+"-"+name)
		src, err := os.ReadFile(filepath.Join(dir, name))
		must(err)
		prefix := fmt.Sprintf("G%d", gc.Index)
		src, err = prefixed(src, pack, prefix)
		if err != nil {
			return []byte(fmt.Sprintf("%s:%v", name, err)), err
		}
		must(os.WriteFile(filepath.Join(dir, pack+"-"+name), src, 0o644))
		p := pack + "." + prefix
		fmt.Fprintf(&reg, "\tgenPkgs[%d] = genPkg{Ops: %sWalkerOps{}, Exiter: %[2]sNodeExiter, Aborter: %[2]sAborter, Parse: %[2]sParse, ParseString: %[2]sParseString, Grammar: %[2]sGrammar}\n",
			gc.Index, p)
	}
	file := filepath.Join(dir, "registry.go")
	must(os.WriteFile(file, []byte("package main\n\n"+imports.String()+"\nfunc init() {\n"+reg.String()+"}\n"), 0o644))
	replace[filepath.Join(harness, "zz_registry.go")] = file
	b, err := json.Marshal(map[string]any{"Replace": replace})
	must(err)
	overlay := filepath.Join(dir, "overlay.json")
	must(os.WriteFile(overlay, b, 0o644))
	cmd := exec.Command("go", "build", "-overlay", overlay, "-gcflags=verif/gen/...=-e -l", "-o", exe, ".")
	cmd.Dir = harness
	return cmd.CombinedOutput()
}

func loadGenCases() {
	genCases = map[int]genCase{}
	b, err := os.ReadFile(filepath.Join(os.Getenv("VH_GENDIR"), "cases.json"))
	must(err)
	var cases []genCase
	must(json.Unmarshal(b, &cases))
	for _, gc := range cases {
		genCases[gc.Index] = gc
	}
}

type cmdOutput struct{ stdout, stderr []byte }

// runLimited runs a command for so long at most.
func runLimited(limit time.Duration, dir string, stdin []byte, name string, args ...string) (cmdOutput, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(stdin)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return cmdOutput{}, err
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err := cmd.Wait()
	if !timer.Stop() && err != nil {
		err = fmt.Errorf("did not end within %v", limit)
	}
	return cmdOutput{out.Bytes(), errs.Bytes()}, err
}

func firstDifference(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range as {
		if i >= len(bs) || as[i] != bs[i] {
			other := "(end)"
			if i < len(bs) {
				other = bs[i]
			}
			return fmt.Sprintf("line %d: %q or %q", i+1, clip(as[i], 300), clip(other, 300))
		}
	}
	return "one is longer"
}
