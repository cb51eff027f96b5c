package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// scanModel is what a scanner is: a range of a text. Of a stripped one just
// the text from lo to hi is left.
type scanModel struct {
	text, file string
	off, n     int
	stripped   bool
	lo, hi     int
}

func (m scanModel) str() string { return m.text[m.off : m.off+m.n] }

func (m scanModel) position() (line, col int) {
	line, col = 1, 1
	for i := 0; i < m.off; i++ {
		if m.text[i] == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
	}
	return
}

// sameSource tells whether two are from one source; known is false if that is
// up to the implementation, which is so if something was stripped.
func (m scanModel) sameSource(o scanModel) (same, known bool) {
	if m.text != o.text || m.file != o.file {
		// The rest of stripped ones may be the same.
		return false, !m.stripped && !o.stripped
	}
	if !m.stripped && !o.stripped {
		return true, true
	}
	return m.stripped && o.stripped && m.lo == o.lo && m.hi == o.hi, m.stripped && o.stripped && m.lo == o.lo && m.hi == o.hi
}

func (m scanModel) contains(o scanModel) bool {
	return m.off <= o.off && o.off+o.n <= m.off+m.n
}

func (m scanModel) sub(a, b int) scanModel {
	m.off, m.n = m.off+a, b-a
	return m
}

func (m scanModel) String() string {
	return fmt.Sprintf("%q[%d:%d] of %d bytes (file %q, stripped %v)", m.str(), m.off, m.off+m.n, len(m.text), m.file, m.stripped)
}

type modelled struct {
	s *parser.Scanner
	m scanModel
}

// differs says how a scanner differs from its model.
func (x modelled) differs(r *rand.Rand) string {
	s, m := *x.s, x.m
	if s.IsNil() {
		return "it is nil"
	}
	line, col := s.Position()
	wantLine, wantCol := m.position()
	switch {
	case s.String() != m.str():
		return fmt.Sprintf("String() is %q", s.String())
	case s.Offset() != m.off:
		return fmt.Sprintf("Offset() is %d", s.Offset())
	case line != wantLine || col != wantCol:
		return fmt.Sprintf("Position() is %d:%d instead of %d:%d", line, col, wantLine, wantCol)
	case s.Filename() != m.file:
		return fmt.Sprintf("Filename() is %q", s.Filename())
	case fmt.Sprint(s) != m.str() || fmt.Sprintf("%v|%s", s, x.s) != m.str()+"|"+m.str():
		return fmt.Sprintf("it prints as %q", fmt.Sprint(s))
	case fmt.Sprintf("%q", s) != fmt.Sprintf("%q", m.str()):
		return fmt.Sprintf("it quotes as %s", fmt.Sprintf("%q", s))
	}
	if r.IntN(8) > 0 {
		return ""
	}
	// The context shows the text with what is around it.
	limit := r.IntN(5) - 1
	lo, hi := 0, len(m.text)
	if m.stripped {
		lo, hi = m.lo, m.hi
	}
	got := s.Context(limit)
	head := fmt.Sprintf("\n\033[1;37m%s:%d:%d:\033[0m\n", m.file, wantLine, wantCol)
	mid := "\033[1;31m" + m.str() + "\033[0m"
	above, below := m.text[lo:m.off], m.text[m.off+m.n:hi]
	if !strings.HasPrefix(got, head) {
		return fmt.Sprintf("Context(%d) begins otherwise: %q", limit, got)
	}
	got = got[len(head):]
	if limit == parser.NoLimit {
		if got != above+mid+below {
			return fmt.Sprintf("Context(NoLimit) is %q", got)
		}
		return ""
	}
	// Limited, it has at least the line before what is shown.
	for k := strings.LastIndex(above, "\n") + 1; k >= 0; k-- {
		if k > 0 && above[k-1] != '\n' {
			continue // lines are shown from their start on
		}
		rest, ok := strings.CutPrefix(got, above[k:]+mid)
		if ok && strings.HasPrefix(below, rest) && (rest == below || below[len(rest)] == '\n' || limit == 0) {
			if lines := strings.Count(above[k:], "\n"); lines > limit+1 || strings.Count(rest, "\n") > limit {
				return fmt.Sprintf("Context(%d) shows too many lines: %q", limit, got)
			}
			return ""
		}
	}
	return fmt.Sprintf("Context(%d) shows something else than lines around it: %q", limit, got)
}

var scanREs = func() (out []*regexp.Regexp) {
	for _, re := range []string{`[a-c]+`, `(a)(b)?`, `(?:x|(é))(\n)*`, ``, `()`, `(.)(.)(.)`, `(?s)(.*)\n`, `(\s*)(\w*)`, `(?s:.)`, `((a|b)|(c))+`, `[^\n]*`, `(a)|(b)|(c)|\n`, `$`, `(?m)^.*$`} {
		out = append(out, regexp.MustCompile(`\A(?:`+re+`)`))
	}
	return
}()

func scanText(r *rand.Rand) string {
	var sb strings.Builder
	for i, n := 0, r.IntN(30); i < n; i++ {
		sb.WriteString([]string{"a", "b", "c", "\n", "\n", " ", "é", "\r\n", "世", "x", "\xff", "ab", "\t"}[r.IntN(13)])
	}
	return sb.String()
}

func init() {
	register(&Check{
		ID: "C26",
		Rule: "histories of 30 to 90 operations (slice, skip, eat, eat string, eat regexp with and without captures, merge, contains, strip source) on pools of scanners over up to three texts (several made anew of the same text, with file names, and starting part-way), with a model of a range of a string beside each; after each operation its result and all scanners have to agree with their models in text, offset, line, column, file name, printing, quoting and context. " +
			"Distinct by history; non-trivial if at least ten operations of five kinds succeeded.",
		Cases: map[string]int{"quick": 6000, "thorough": 600000},
		Run:   c26,
	})
}

func c26(c *Case) {
	var pool []modelled
	texts := []string{scanText(c.Rand), scanText(c.Rand)}
	files := []string{"", "a.wbnf", "b"}
	addNew := func() {
		t := texts[c.IntN(len(texts))]
		switch c.IntN(3) {
		case 0:
			pool = append(pool, modelled{parser.NewScanner(t), scanModel{text: t, n: len(t)}})
		case 1:
			f := files[c.IntN(len(files))]
			pool = append(pool, modelled{parser.NewScannerWithFilename(t, f), scanModel{text: t, file: f, n: len(t)}})
		default:
			off := c.IntN(len(t) + 1)
			n := c.IntN(len(t) - off + 1)
			pool = append(pool, modelled{parser.NewScannerAt(t, off, n), scanModel{text: t, off: off, n: n}})
		}
	}
	for i := 0; i < 3; i++ {
		addNew()
	}
	var history []string
	kinds := map[string]int{}
	note := func(kind, format string, args ...any) {
		history = append(history, kind+" "+fmt.Sprintf(format, args...))
		kinds[kind]++
		c.Stat("operations: "+kind, 1)
	}
	fail := func(format string, args ...any) {
		c.Note("texts", texts)
		c.Note("history", history)
		c.Fail(format, args...)
	}
	for k, n := 0, 30+c.IntN(60); k < n && !c.failed; k++ {
		i := c.IntN(len(pool))
		x := &pool[i]
		m := x.m
		c.Eval()
		switch c.IntN(11) {
		case 0:
			addNew()
			note("new", "%s", pool[len(pool)-1].m)
		case 1:
			a := c.IntN(m.n + 1)
			b := a + c.IntN(m.n-a+1)
			note("slice", "%d: %d %d", i, a, b)
			pool = append(pool, modelled{x.s.Slice(a, b), m.sub(a, b)})
		case 2:
			a := c.IntN(m.n + 1)
			note("skip", "%d: %d", i, a)
			pool = append(pool, modelled{x.s.Skip(a), m.sub(a, m.n)})
		case 3:
			a := c.IntN(m.n + 1)
			note("eat", "%d: %d", i, a)
			var eaten parser.Scanner
			if got := x.s.Eat(a, &eaten); got != x.s {
				fail("Eat returned another scanner")
			}
			pool[i].m = m.sub(a, m.n)
			pool = append(pool, modelled{&eaten, m.sub(0, a)})
		case 4, 5:
			a := 0
			if m.n > 0 {
				a = c.IntN(minInt(m.n, 6) + 1)
			}
			s := m.str()[:a]
			switch c.IntN(4) {
			case 0:
				s += "a"
			case 1:
				s = scanText(c.Rand)
			}
			other := c.IntN(len(pool))
			eaten := *pool[other].s
			ok := x.s.EatString(s, &eaten)
			want := strings.HasPrefix(m.str(), s)
			note(map[bool]string{true: "eat string", false: "eat string, failing"}[want], "%d: %q", i, s)
			switch {
			case ok != want:
				fail("EatString(%q) returned %v on %s", s, ok, m)
			case ok:
				pool[i].m = m.sub(len(s), m.n)
				pool = append(pool, modelled{&eaten, m.sub(0, len(s))})
			default:
				om := pool[other].m
				if other == i {
					om = m
				}
				pool = append(pool, modelled{&eaten, om})
			}
		case 6, 7:
			re := scanREs[c.IntN(len(scanREs))]
			loc := re.FindStringSubmatchIndex(m.str())
			caps := make([]parser.Scanner, c.IntN(5))
			var match parser.Scanner
			mp := &match
			if c.IntN(4) == 0 {
				mp = nil
			}
			if c.IntN(4) == 0 {
				caps = nil
			}
			before := *pool[c.IntN(len(pool))].s
			for k := range caps {
				caps[k] = before
			}
			match = before
			got, ok := x.s.EatRegexp(re, mp, caps)
			note(map[bool]string{true: "eat regexp", false: "eat regexp, failing"}[loc != nil], "%d: %s, %d captures", i, re, len(caps))
			if ok != (loc != nil) {
				fail("EatRegexp(%s) returned %v on %s", re, ok, m)
				break
			}
			untouched := func(s parser.Scanner) bool {
				return s.String() == before.String() && s.Offset() == before.Offset() && s.Filename() == before.Filename()
			}
			if !ok {
				if got != 0 || mp != nil && !untouched(match) {
					fail("a failing EatRegexp returned %d captures and the match %q", got, match.String())
				}
				for _, s := range caps {
					if !untouched(s) {
						fail("a failing EatRegexp set a capture to %q", s.String())
					}
				}
				break
			}
			if want := minInt(len(caps), re.NumSubexp()); got != want {
				fail("EatRegexp(%s) with room for %d captures returned %d", re, len(caps), got)
				break
			}
			for k := 0; k < got; k++ {
				a, b := loc[2*k+2], loc[2*k+3]
				if a < 0 {
					if nil1 := caps[k]; !nil1.IsNil() || nil1.String() != "" || fmt.Sprintf("%v|%q", nil1, nil1) != `|""` {
						fail("EatRegexp(%s): capture %d took no part in the match but is %q", re, k, caps[k].String())
					}
					continue
				}
				pool = append(pool, modelled{&caps[k], m.sub(a, b)})
			}
			for k := got; k < len(caps); k++ {
				if !untouched(caps[k]) {
					fail("EatRegexp(%s) set capture %d though it has %d", re, k, got)
				}
			}
			if mp != nil {
				pool = append(pool, modelled{mp, m.sub(0, loc[1])})
			}
			pool[i].m = m.sub(loc[1], m.n)
		case 8:
			var parts []parser.Scanner
			var ms []scanModel
			all, known := true, true
			for k := c.IntN(5); k > 0; k-- {
				j := c.IntN(len(pool))
				if len(ms) > 0 && c.IntN(4) > 0 { // from the same source
					for try := 0; try < 8; try++ {
						if same, _ := ms[0].sameSource(pool[j].m); same {
							break
						}
						j = c.IntN(len(pool))
					}
				}
				parts = append(parts, *pool[j].s)
				ms = append(ms, pool[j].m)
				s, kn := ms[0].sameSource(pool[j].m)
				all = all && (s || !kn)
				known = known && kn
			}
			if len(ms) > 1 && !known && all {
				break
			}
			got, err := parser.MergeScanners(parts...)
			if len(ms) == 0 || !all {
				note("merge, failing", "%v", ms)
				if err == nil {
					fail("merging %v gave %q", ms, got.String())
				} else if !got.IsNil() || err.Error() == "" {
					fail("merging %v gave %q and the error %v", ms, got.String(), err)
				}
				break
			}
			note("merge", "%v", ms)
			if err != nil {
				fail("merging %v: %v", ms, err)
				break
			}
			u := ms[0]
			lo, hi := u.off, u.off+u.n
			for _, m := range ms {
				lo, hi = minInt(lo, m.off), maxInt(hi, m.off+m.n)
			}
			u.off, u.n = lo, hi-lo
			pool = append(pool, modelled{&got, u})
		case 9:
			j := c.IntN(len(pool))
			o := pool[j].m
			same, known := m.sameSource(o)
			if !known {
				break
			}
			want := same && m.contains(o)
			note(fmt.Sprintf("contains: %v", want), "%d %d", i, j)
			if got := x.s.Contains(*pool[j].s); got != want {
				fail("%s contains %s: %v", m, o, got)
			}
		case 10:
			if c.IntN(3) > 0 {
				break
			}
			s := x.s.StripSource()
			note("strip", "%d", i)
			m.stripped, m.lo, m.hi = true, m.off, m.off+m.n
			pool = append(pool, modelled{&s, m})
		}
		for j, x := range pool {
			if msg := x.differs(c.Rand); msg != "" && !c.failed {
				fail("scanner %d should be %s, but %s", j, x.m, msg)
			}
		}
		if len(pool) > 16 {
			c.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			pool = pool[:8]
			history = append(history, "(shuffled)")
		}
	}
	n := 0
	for _, k := range kinds {
		n += k
	}
	if len(kinds) >= 5 && n >= 10 {
		c.Distinct(fmt.Sprint(texts, history))
	}
	if c.Index%800 == 1 {
		c.Sample(map[string]any{"texts": texts, "history": history})
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int { return a + b - minInt(a, b) }
