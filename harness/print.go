package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// printer writes a grammar down as text, in one of the many ways there are.
type printer struct {
	*rand.Rand // nil: plain
	sb         strings.Builder
	last       string
	comments   bool
	// escapes: write some characters of strings as escapes
	escapes bool
	// extraParens: put redundant parentheses around some terms
	extraParens bool
	// shuffle the order of productions
	shuffle bool
	// spaces: random white space
	spaces bool
	// shortRE: write regexps without /{} where that is possible
	shortRE bool
	// quotes: any kind of quotes
	quotes bool
	// overrides replace terms by text, e.g. macro calls.
	override func(t parser.Term) (string, bool)
}

func printGrammar(g parser.Grammar) string {
	p := &printer{}
	p.grammar(g)
	return p.sb.String()
}

func printFancy(r *rand.Rand, g parser.Grammar) string {
	p := &printer{Rand: r, comments: true, escapes: true, extraParens: true, shuffle: true, spaces: true,
		shortRE: true, quotes: true}
	p.grammar(g)
	return p.sb.String()
}

func (p *printer) chance(on bool, n int) bool { return on && p.Rand != nil && p.IntN(n) == 0 }

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

func (p *printer) tok(s string) {
	if p.last != "" {
		p.sb.WriteString(p.space(p.last, s))
	}
	p.sb.WriteString(s)
	p.last = s
}

func (p *printer) glue(s string) { // without white space before it
	p.sb.WriteString(s)
	p.last = s
}

func (p *printer) space(a, b string) string {
	needed := true
	if strings.ContainsAny(a[len(a)-1:], "()|;") && strings.ContainsAny(b[:1], "()|;\"'`") &&
		!(a == "(" && b == "(?=") {
		needed = false
	}
	if !p.spaces || p.Rand == nil {
		if needed {
			return " "
		}
		return ""
	}
	if !needed && p.IntN(2) == 0 {
		return ""
	}
	return p.ws()
}

func (p *printer) ws() string {
	if p.Rand == nil {
		return " "
	}
	all := []string{" ", " ", "  ", "\n", "\n    ", "\t", "\r\n", " \n\n ", "\f"}
	return all[p.IntN(len(all))]
}

func (p *printer) comment() {
	if p.chance(p.comments, 3) {
		// The grammar takes block comments of one character or run of stars only (see known-findings.json).
		cs := []string{
			"// a comment -> \"x\";\n", "//\n", "// \"unbalanced ' quotes\n", "// /* no block\n", "/*x*/", "/* */", "/*\n*/", "/*;*/",
			"/**x*/", "/****x*/", "/*\"*/", "/*é*/",
		}
		p.sb.WriteString(p.ws() + cs[p.IntN(len(cs))] + p.ws())
		p.last = ""
	}
}

func (p *printer) grammar(g parser.Grammar) {
	var rules []string
	for r := range g {
		rules = append(rules, string(r))
	}
	sort.Strings(rules)
	if p.shuffle && p.Rand != nil {
		p.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
	}
	for _, r := range rules {
		p.comment()
		p.prod(r, g[parser.Rule(r)])
	}
	p.comment()
}

func (p *printer) prod(name string, t parser.Term) {
	if strings.HasPrefix(name, ".macro ") { // see c09.go
		p.tok(name)
		p.tok("{")
		p.term(t, 0)
		p.tok("}")
		if p.chance(true, 2) {
			p.tok(";")
		}
		p.sb.WriteString("\n")
		p.last = ""
		return
	}
	p.tok(name)
	p.tok("->")
	switch x := t.(type) {
	case parser.Stack:
		for i, layer := range x {
			if i > 0 {
				p.tok(">")
			}
			if s, ok := layer.(parser.ScopedGrammar); ok {
				p.term(s.Term, 1)
				p.scoped(s.Grammar)
				continue
			}
			p.term(layer, 1)
		}
	case parser.ScopedGrammar:
		p.term(x, 0)
	default:
		p.term(t, 1)
	}
	p.tok(";")
	if p.Rand == nil || !p.spaces || p.IntN(2) == 0 {
		p.sb.WriteString("\n")
		p.last = ""
	}
}

func (p *printer) scoped(g parser.Grammar) {
	p.tok("{")
	if len(g) == 0 {
		panic("empty scoped grammar")
	}
	p.grammar(g)
	p.tok("}")
}

// Levels: 0 with scoped grammar, 1 choice, 2 sequence, 3 one term with quantifiers, 4 named, 5 atom.
func (p *printer) term(t parser.Term, level int) {
	if p.override != nil {
		if s, ok := p.override(t); ok {
			p.tok(s)
			return
		}
	}
	if cp, ok := t.(parser.CutPoint); ok {
		p.term(cp.Term, level)
		return
	}
	own := 5
	switch x := t.(type) {
	case parser.ScopedGrammar:
		own = 0
	case parser.Oneof:
		own = 1
		if len(x) == 1 {
			panic("choice of one")
		}
	case parser.Seq:
		if len(x) == 1 {
			p.term(x[0], level) // cannot be written; means the same but for the tree
			return
		}
		if len(x) > 0 {
			own = 2
		}
	case parser.Quant, parser.Delim:
		own = 3
	case parser.Named:
		own = 4
	}
	if own < level || p.chance(p.extraParens, 8) {
		p.tok("(")
		p.term(t, 0)
		p.tok(")")
		return
	}
	switch x := t.(type) {
	case parser.ScopedGrammar:
		p.term(x.Term, 1)
		p.scoped(x.Grammar)
	case parser.Oneof:
		for i, o := range x {
			if i > 0 {
				p.tok("|")
			}
			p.term(o, 2)
		}
	case parser.Seq:
		if len(x) == 0 {
			p.tok("(")
			p.tok(")")
			return
		}
		for _, o := range x {
			p.term(o, 3)
		}
	case parser.Quant, parser.Delim:
		// The quantifiers of an atom are written outermost first.
		var quants []parser.Term
		base := t
		for {
			if p.override != nil {
				if _, ok := p.override(base); ok {
					break
				}
			}
			if q, ok := base.(parser.Quant); ok {
				quants = append(quants, q)
				base = q.Term
				if p.chance(p.extraParens, 6) {
					break
				}
				continue
			}
			if q, ok := base.(parser.Delim); ok {
				quants = append(quants, q)
				base = q.Term
				continue
			}
			break
		}
		short := p.shortRE
		p.shortRE = false // or the quantifier would become part of it
		p.term(base, 4)
		for i, q := range quants {
			if i == len(quants)-1 {
				p.shortRE = short
			}
			p.quant(q)
		}
		p.shortRE = short
	case parser.Named:
		p.tok(x.Name)
		if p.chance(p.spaces, 3) {
			p.tok("=")
			p.tok(p.atomText(x.Term, 5))
		} else {
			p.glue("=")
			p.last = ""
			p.term(x.Term, 5)
		}
	case parser.LookAhead:
		p.tok("(?=")
		p.term(x.Term, 0)
		p.tok(")")
	default:
		p.tok(p.simple(t))
	}
}

// atomText prints a term separately.
func (p *printer) atomText(t parser.Term, level int) string {
	q := *p
	q.sb = strings.Builder{}
	q.last = ""
	q.term(t, level)
	return q.sb.String()
}

func (p *printer) quant(t parser.Term) {
	switch q := t.(type) {
	case parser.Quant:
		op := ""
		switch [2]int{q.Min, q.Max} {
		case [2]int{0, 0}:
			op = "*"
		case [2]int{0, 1}:
			op = "?"
		case [2]int{1, 0}:
			op = "+"
		}
		if op != "" && !p.chance(p.spaces, 4) {
			if p.spaces && p.IntN(2) == 0 {
				p.tok(op)
			} else {
				p.glue(op)
			}
			return
		}
		min, max := "", ""
		if q.Min != 0 || p.chance(p.spaces, 2) {
			min = fmt.Sprint(q.Min)
		}
		if q.Max != 0 {
			max = fmt.Sprint(q.Max)
		}
		if p.spaces && p.IntN(2) == 0 {
			p.tok("{" + p.ws() + min + " , " + max + "}")
		} else {
			p.tok("{" + min + "," + max + "}")
		}
	case parser.Delim:
		op := q.Assoc.String()
		if p.spaces && p.IntN(2) == 0 {
			p.tok(op)
		} else {
			p.glue(op)
		}
		if q.CanStartWithSep {
			p.glue(",")
		}
		if p.spaces && p.IntN(2) == 0 {
			p.tok(p.atomText(q.Sep, 4))
		} else {
			p.glue(p.atomText(q.Sep, 4))
		}
		if q.CanEndWithSep {
			p.glue(",")
		}
	}
}

func (p *printer) simple(t parser.Term) string {
	switch x := t.(type) {
	case parser.S:
		return p.str(string(x))
	case parser.RE:
		return p.regexp(string(x))
	case parser.Rule:
		return string(x)
	case parser.REF:
		if x.Default != nil {
			return "%" + x.Ident + "=" + p.str(string(x.Default.(parser.S)))
		}
		return "%" + x.Ident
	case parser.ExtRef:
		return "%%" + string(x)
	}
	panic(fmt.Sprintf("print: %T", t))
}

func (p *printer) str(s string) string {
	quote := byte('"')
	if p.quotes && p.Rand != nil {
		quote = "\"'`"[p.IntN(3)]
	}
	if quote == '`' {
		if strings.Contains(s, "‵") {
			quote = '"'
		} else {
			return "`" + strings.ReplaceAll(s, "`", "``") + "`"
		}
	}
	var sb strings.Builder
	sb.WriteByte(quote)
	for _, c := range s {
		esc := p.chance(p.escapes, 4)
		switch {
		case c == rune(quote):
			sb.WriteString(`\` + string(c))
		case c == '\\':
			sb.WriteString(`\\`)
		case esc:
			sb.WriteString(p.escape(c))
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte(quote)
	return sb.String()
}

var namedEscapes = map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`,
	'\'': `\'`, '\\': `\\`}

func (p *printer) escape(c rune) string {
	for {
		switch p.IntN(5) {
		case 0:
			if e := namedEscapes[c]; e != "" {
				return e
			}
		case 1:
			if c < 0x80 {
				return fmt.Sprintf(`\x%02x`, c)
			}
			s := ""
			for _, b := range []byte(string(c)) {
				s += fmt.Sprintf(`\x%02X`, b)
			}
			return s
		case 2:
			if c < 0x10000 {
				return fmt.Sprintf(`\u%04x`, c)
			}
		case 3:
			return fmt.Sprintf(`\U%08X`, c)
		case 4:
			if c < 0x80 {
				return fmt.Sprintf(`\%03o`, c)
			}
		}
	}
}

// shortForms are regexps that need no /{}.
var shortForms = map[string]bool{`[ab]`: true, `[a-c]+`: true, `[a-c]*`: true, `\d`: true, `\d+`: true, `.`: true,
	`[^,;()]`: true, `\w+`: true, `[^"]+`: true}

func (p *printer) regexp(re string) string {
	if shortForms[re] && p.chance(p.shortRE, 2) {
		return re
	}
	var sb strings.Builder
	sb.WriteString("/{")
	pad := func() {
		if p.chance(p.spaces, 3) {
			sb.WriteString([]string{" ", "\n", "\t ", "\r\n", "\f", "  \n \t"}[p.IntN(6)])
		}
	}
	pad()
	for i := 0; i < len(re); i++ {
		switch c := re[i]; {
		case c == '\\' && i+1 < len(re):
			sb.WriteString(re[i : i+2])
			i++
		case c == ' ':
			sb.WriteString(`\_`)
		case c == '\n':
			sb.WriteString(`\n`)
		case c == '\t':
			sb.WriteString(`\t`)
		default:
			sb.WriteByte(c)
			if c < 0x80 && !strings.Contains(re, "{") && p.chance(p.spaces, 12) && (i+1 == len(re) || re[i+1] < 0x80) {
				sb.WriteString([]string{" ", "\n", "\t ", "\r\n", "\f", "  \n \t"}[p.IntN(6)])
			}
		}
	}
	pad()
	sb.WriteString("}")
	return sb.String()
}
