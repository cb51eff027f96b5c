package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// Finding is a genuine defect of the code that is recorded rather than repaired.
type Finding struct {
	Property string            `json:"property"`
	Probe    string            `json:"probe"` // which of knownProbes shows it
	Args     map[string]string `json:"args"`  // the specific input that fails
	What     string            `json:"what"`
}

// knownProbes return true iff the input still fails as recorded.
var knownProbes = map[string]func(args map[string]string) bool{}

func loadFindings() []Finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var file struct {
		Findings []Finding `json:"findings"`
	}
	must(json.Unmarshal(b, &file))
	return file.Findings
}

// runKnownFindings prints a line for each recorded finding that is still there.
// It also returns which of them fail in some other way than recorded.
func runKnownFindings(id string) (n int, otherwise []string) {
	for _, f := range loadFindings() {
		f := f
		if f.Property != id {
			continue
		}
		probe := knownProbes[f.Probe]
		if probe == nil {
			fmt.Fprintln(os.Stderr, "vh: no such probe:", f.Probe)
			continue
		}
		var there bool
		done := make(chan any, 1)
		go func() { done <- catch(func() { there = probe(f.Args) }) }()
		select {
		case err := <-done:
			if err != nil {
				otherwise = append(otherwise, fmt.Sprintf("probing the recorded finding %q: %.300v", f.What, err))
			} else if there {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
				n++
			}
		case <-time.After(2 * time.Minute):
			otherwise = append(otherwise, fmt.Sprintf("probing the recorded finding %q: no end in sight", f.What))
		}
	}
	return n, otherwise
}
