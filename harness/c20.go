package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Check{
		ID: "C20",
		Rule: "under the race detector, four to ten goroutines do a random selection of everything there is to do with one or two random grammars (parsing with and without externals and escapes, rendering of new and shared errors, conversions, unparsing, printing, queries, comparing, compiling of good and bad texts with macros and imports and of shared terms, walking, generating code) on shared parsers, grammars, trees, ASTs and errors, also ones that nobody used before, with yields and delays injected between operations and within handlers; " +
			"any report of the race detector, crash or deadlock is a violation, as is a result that differs from what the operation gives alone, before or after, and a change of what is shared. Distinct by the order in which operations began and ended (hash of the interleaving).",
		Cases:      map[string]int{"quick": 120, "thorough": 10000},
		CPUSeconds: 150,
		Run: func(c *Case) {
			// No shared state here: it would order what it is to shake up.
			pause := func() {
				switch x := uint64(time.Now().UnixNano()) * 0x9E3779B97F4A7C15 >> 58; {
				case x < 16:
					runtime.Gosched()
				case x < 20:
					time.Sleep(time.Duration(x) * time.Microsecond)
				}
			}
			var worlds []*world
			for i, n := 0, 1+c.IntN(2); i < n; i++ {
				w := newWorld(c, pause)
				if w == nil {
					return
				}
				defer w.close()
				worlds = append(worlds, w)
			}
			type opID struct{ world, op int }
			var all []opID
			for i, w := range worlds {
				c.Note(fmt.Sprint("grammar ", i), w.text)
				for j := range w.ops {
					all = append(all, opID{i, j})
				}
			}
			op := func(id opID) worldOp { return worlds[id.world].ops[id.op] }
			alone := map[opID]string{}
			before := make([]string, len(worlds))
			for i, w := range worlds {
				before[i] = w.state()
			}
			runAlone := func() {
				for _, id := range all {
					alone[id] = op(id).run()
				}
			}
			first := c.IntN(3) == 0
			if first {
				runAlone()
			}
			n := 4 + c.IntN(7)
			plans := make([][]opID, n)
			results := make([][]string, n)
			hot := all[c.IntN(len(all))] // one that everybody does
			for i := 0; i < 200 && !first && c.Index%2 == 0 && !strings.HasPrefix(op(hot).name, "cold: "); i++ {
				hot = all[c.IntN(len(all))]
			}
			for i := range plans {
				for k, m := 0, 6+c.IntN(10); k < m; k++ {
					plans[i] = append(plans[i], all[c.IntN(len(all))])
				}
				plans[i] = append([]opID{hot}, plans[i]...)
				results[i] = make([]string, len(plans[i]))
			}
			type event struct{ g, op, end int }
			events := make([]event, 0, 1000)
			panics := make(chan string, n)
			start := make(chan struct{})
			var wg sync.WaitGroup
			// The event log must not order the operations of different
			// goroutines more than need be, or races would be hidden: each
			// goroutine notes times of its own, and they are merged later.
			logs := make([][]time.Duration, n)
			t0 := time.Now()
			for i := range plans {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							panics <- fmt.Sprint(r)
						}
					}()
					<-start
					for k, id := range plans[i] {
						logs[i] = append(logs[i], time.Since(t0))
						results[i][k] = op(id).run()
						logs[i] = append(logs[i], time.Since(t0))
						if (i+k)%3 == 0 {
							runtime.Gosched()
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			select {
			case p := <-panics:
				c.Fail("panic in a goroutine: %s", p)
				return
			default:
			}
			if !first {
				runAlone()
			}
			for i := range plans {
				for k, id := range plans[i] {
					c.Eval()
					c.Stat("concurrent: "+op(id).name, 1)
					if results[i][k] != alone[id] {
						c.Fail("%q gave\n%s\nalongside others, but alone\n%s", op(id).name, results[i][k], alone[id])
						return
					}
				}
			}
			for i, w := range worlds {
				if after := w.state(); after != before[i] {
					c.Fail("what is shared changed from\n%s\nto\n%s", before[i], after)
					return
				}
			}
			// The interleaving.
			for {
				best := -1
				for i := range logs {
					if len(logs[i]) > 0 && (best < 0 || logs[i][0] < logs[best][0]) {
						best = i
					}
				}
				if best < 0 {
					break
				}
				k := len(results[best])*2 - len(logs[best])
				events = append(events, event{best, k / 2, k % 2})
				logs[best] = logs[best][1:]
			}
			overlaps, running := 0, 0
			for _, e := range events {
				if e.end == 0 {
					if running > 0 {
						overlaps++
					}
					running++
				} else {
					running--
				}
				c.Max("operations at once", running)
			}
			c.Stat("operations begun while others ran", overlaps)
			if overlaps > 0 {
				c.Distinct(c.Index, events)
			}
			if c.Index%50 == 0 {
				c.Sample(map[string]any{"grammar": worlds[0].text, "goroutines": n, "events": len(events), "overlaps": overlaps})
			}
		},
	})
}
