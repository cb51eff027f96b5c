// Command vh decides the properties of arr-ai/wbnf by running its code and
// monitoring what it does.
//
//go:debug panicnil=0
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
)

func selfCommand(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	must(err)
	return exec.Command(exe, args...)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID TIER | replay FILE | case ID TIER INDEX | list")
		os.Exit(2)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil { // any text is a seed
			for _, c := range s {
				n = n*131 + uint64(c)
			}
			n >>= 1
		}
		seed = n
	}
	args := os.Args[2:]
	atoi := func(s string) int {
		n, err := strconv.Atoi(s)
		must(err)
		return n
	}
	if os.Getenv("VH_GENDIR") != "" {
		loadGenCases()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		if chk := checks[args[0]]; needsGenerated(chk) {
			os.Exit(withGenerated(chk, args[1], seed, -1, os.Args[1:]))
		}
		os.Exit(runCheck(args[0], args[1], seed))
	case "worker":
		seed, err := strconv.ParseUint(args[2], 10, 64)
		must(err)
		worker(args[0], args[1], seed, atoi(args[3]), atoi(args[4]), atoi(args[5]), args[6])
	case "case":
		if chk := checks[args[0]]; needsGenerated(chk) {
			os.Exit(withGenerated(chk, args[1], seed, atoi(args[2]), os.Args[1:]))
		}
		m := newMerged()
		runCase(checks[args[0]], args[1], seed, atoi(args[2]), m)
		report(m)
	case "replay":
		b, err := os.ReadFile(args[0])
		must(err)
		var v Violation
		must(json.Unmarshal(b, &v))
		if v.Case < 0 { // A recorded finding fails otherwise.
			m := newMerged()
			_, otherwise := runKnownFindings(v.Property)
			for _, message := range otherwise {
				m.Violations = append(m.Violations, Violation{Property: v.Property, Case: -1, Message: message})
			}
			report(m)
			return
		}
		if chk := checks[v.Property]; needsGenerated(chk) {
			os.Exit(withGenerated(chk, v.Tier, v.Seed, v.Case, os.Args[1:]))
		}
		m := newMerged()
		runCase(checks[v.Property], v.Tier, v.Seed, v.Case, m)
		report(m)
	default:
		if f := extraCommands[os.Args[1]]; f != nil {
			f(args)
			return
		}
		fmt.Fprintln(os.Stderr, "vh: unknown command", os.Args[1])
		os.Exit(2)
	}
}

var extraCommands = map[string]func(args []string){}

func report(m *Merged) {
	for _, v := range m.Violations {
		b, _ := json.MarshalIndent(v.Details, "", " ")
		fmt.Printf("%s\n%s\n", v.Message, b)
	}
	if len(m.Violations) > 0 {
		os.Exit(1)
	}
	fmt.Println("held:", m.Evaluations, "evaluations,", m.Stats)
}
