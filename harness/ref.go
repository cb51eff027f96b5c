package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// The reference reads a grammar as what it denotes: ordered choice, greedy
// repetition, no backtracking into what has succeeded. It interprets terms
// directly over the input string; it shares nothing with the parser but the
// data types in which grammars are written down.

type refEntry struct {
	name string // tag of its nodes
	term parser.Term
	env  *refEnv
}

type refEnv struct {
	parent *refEnv
	rules  map[parser.Rule]*refEntry
	at     *refEntry
	wrap   *refWrap
}

type refWrap struct {
	re     string
	exempt map[string]bool
}

func (e *refEnv) lookup(r parser.Rule) *refEntry {
	if r == "@" {
		return e.at
	}
	for ; e != nil; e = e.parent {
		if x := e.rules[r]; x != nil {
			return x
		}
	}
	return nil
}

func newRefEnv(g parser.Grammar, parent *refEnv) *refEnv {
	env := &refEnv{parent: parent, rules: map[parser.Rule]*refEntry{}}
	if parent != nil {
		env.at = parent.at
		env.wrap = parent.wrap
	}
	if w := g[".wrapRE"]; w != nil {
		env.wrap = newRefWrap(w)
	}
	for name, term := range g {
		stack, ok := term.(parser.Stack)
		if !ok {
			env.rules[name] = &refEntry{name: string(name), term: term, env: env}
			continue
		}
		entries := make([]*refEntry, len(stack))
		for i, layer := range stack {
			n := string(name)
			if i > 0 {
				n = fmt.Sprintf("%s@%d", name, i)
			}
			entries[i] = &refEntry{name: n, term: layer}
			env.rules[parser.Rule(n)] = entries[i]
		}
		for i := range stack {
			entries[i].env = &refEnv{parent: env, at: entries[(i+1)%len(stack)], wrap: env.wrap}
		}
	}
	return env
}

func newRefWrap(w parser.Term) *refWrap {
	out := &refWrap{exempt: map[string]bool{}}
	for {
		switch t := w.(type) {
		case parser.CutPoint:
			w = t.Term
			continue
		case parser.Oneof:
			for _, x := range t[:len(t)-1] {
				if c, ok := x.(parser.CutPoint); ok {
					x = c.Term
				}
				switch x := x.(type) {
				case parser.S:
					out.exempt[string(x)] = true
				case parser.RE:
					out.exempt[string(x)] = true
				}
			}
			w = t[len(t)-1]
			continue
		case parser.RE:
			out.re = string(t)
			return out
		}
		panic("reference: bad .wrapRE")
	}
}

// RefHost supplies what a grammar leaves to its host.
type RefHost interface {
	// External is called for %%name at pos.
	External(name, in string, pos int, scope *refScope) (t *Tree, end int, ok, stop bool)
	// Escape is called for what follows the opening delimiter of an escape.
	Escape(hides, in string, pos int, scope *refScope) (tree *Tree, end int, ok, stop bool)
}

type refScope struct {
	name string
	val  *Tree
	next *refNode
}
type refNode = refScope

func (s *refScope) get(name string) (*Tree, bool) {
	for ; s != nil; s = s.next {
		if s.name == name {
			return s.val, true
		}
	}
	return nil, false
}

// Ref interprets one grammar over one input.
type Ref struct {
	top   *refEnv
	in    string
	steps int
	limit int
	host  RefHost
	// delimiters of the escape, if there is one
	escOpen, escClose *regexp.Regexp
	stopped           bool
	depth             int
	tooDeep           bool // the last parse was given up for its depth
	maxpos            int
	// counts of what was exercised
	kinds map[string]int
	res   map[string]*regexp.Regexp
	// onTerm, if set, is told of every term tried
	onTry func(t parser.Term, pos int)
}

type budgetExceeded struct{}

func newRef(g parser.Grammar) *Ref {
	return &Ref{top: newRefEnv(g, nil), limit: 60000, kinds: map[string]int{}, res: map[string]*regexp.Regexp{}}
}

// RefResult is what the reference found.
type RefResult struct {
	OK       bool // the rule matched a prefix
	End      int
	Tree     *Tree
	Budget   bool // gave up: the case is too expensive to judge
	Stopped  bool
	Furthest int
	Steps    int
}

// Parse reads input by rule.
func (r *Ref) Parse(rule parser.Rule, input string) (res RefResult) {
	r.in, r.steps, r.depth, r.stopped, r.maxpos = input, 0, 0, false, 0
	r.tooDeep = false
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(budgetExceeded); ok {
				res = RefResult{Budget: true}
				return
			}
			panic(x)
		}
	}()
	e := r.top.lookup(rule)
	t, end, ok := r.rule(e, nil, 0)
	return RefResult{OK: ok && !r.stopped, End: end, Tree: t, Stopped: r.stopped, Furthest: r.maxpos, Steps: r.steps}
}

func (r *Ref) rule(e *refEntry, sc *refScope, pos int) (*Tree, int, bool) {
	term, env := e.term, e.env
	// A production may be a mere name for another rule.
	for i := 0; ; i++ {
		if i > 1000 {
			panic(budgetExceeded{})
		}
		switch t := term.(type) {
		case parser.Named:
			term = t.Term
			continue
		case parser.CutPoint:
			term = t.Term
			continue
		case parser.ScopedGrammar:
			env = newRefEnv(t.Grammar, env)
			term = t.Term
			continue
		case parser.Rule:
			x := env.lookup(t)
			if x == nil {
				panic("reference: undefined rule " + string(t))
			}
			term, env = x.term, x.env
			continue
		}
		break
	}
	return r.term(term, e.name, env, sc, pos)
}

func (r *Ref) compile(re string) *regexp.Regexp {
	c := r.res[re]
	if c == nil {
		c = regexp.MustCompile(re)
		r.res[re] = c
	}
	return c
}

func (r *Ref) token(env *refEnv, text string, literal bool, pos int) (*Tree, int, bool) {
	rest := r.in[pos:]
	if env == nil || env.wrap == nil || env.wrap.exempt[text] {
		if literal {
			if strings.HasPrefix(rest, text) {
				return &Tree{Leaf: true, Text: text, Off: pos}, pos + len(text), true
			}
			return nil, pos, false
		}
		loc := r.compile(`\A(?m:` + text + `)`).FindStringSubmatchIndex(rest)
		if loc == nil {
			return nil, pos, false
		}
		a, b := loc[0], loc[1]
		if len(loc) > 2 && loc[2] >= 0 {
			a, b = loc[2], loc[3]
		}
		return &Tree{Leaf: true, Text: rest[a:b], Off: pos + a}, pos + loc[1], true
	}
	pre := text
	if literal {
		pre = regexp.QuoteMeta(text)
	}
	re := r.compile(`\A(?m:` + strings.Replace(env.wrap.re, "()", "(?P<theToken>"+pre+")", 1) + `)`)
	loc := re.FindStringSubmatchIndex(rest)
	if loc == nil {
		return nil, pos, false
	}
	i := re.SubexpIndex("theToken")
	// The first group inside of the token, if any, takes precedence.
	if !literal && regexp.MustCompile(text).NumSubexp() > 0 && loc[2*(i+1)] >= 0 {
		i++
	}
	a, b := loc[2*i], loc[2*i+1]
	if a < 0 { // The wrapper matched without the token.
		a, b = 0, 0
	}
	return &Tree{Leaf: true, Text: rest[a:b], Off: pos + a}, pos + loc[1], true
}

func tagOr(name, alt string) string {
	if name == "" {
		return alt
	}
	return name
}

func refIdent(t parser.Term) string {
	switch t := t.(type) {
	case parser.Named:
		if t.Name != "" {
			return t.Name
		}
		return refIdent(t.Term)
	case parser.Rule:
		return string(t)
	case parser.Quant:
		return refIdent(t.Term)
	}
	return ""
}

// identOf is the name by which later terms may refer to what t matches. A
// self-reference in a stack goes by the name of the level it refers to.
func (r *Ref) identOf(t parser.Term, env *refEnv) string {
	id := refIdent(t)
	if id == "@" && env.at != nil {
		return env.at.name
	}
	return id
}

func (r *Ref) seqParts(terms []parser.Term, env *refEnv, sc *refScope, pos int) ([]*Tree, int, bool) {
	kids := []*Tree{}
	for _, t := range terms {
		k, end, ok := r.term(t, "", env, sc, pos)
		if !ok || r.stopped {
			return nil, pos, false
		}
		if id := r.identOf(t, env); id != "" {
			sc = &refScope{name: id, val: k, next: sc}
		}
		pos = end
		kids = append(kids, k)
	}
	return kids, pos, true
}

func (r *Ref) term(term parser.Term, name string, env *refEnv, sc *refScope, pos int) (*Tree, int, bool) {
	r.steps++
	r.depth++
	defer func() { r.depth-- }()
	if r.steps > r.limit || r.depth > 4000 {
		r.tooDeep = r.depth > 4000
		panic(budgetExceeded{})
	}
	if pos > r.maxpos {
		r.maxpos = pos
	}
	if r.stopped {
		return nil, pos, false
	}
	if r.onTry != nil {
		r.onTry(term, pos)
	}
	if r.escOpen != nil {
		switch term.(type) {
		case parser.CutPoint, parser.Named, parser.Rule, parser.ScopedGrammar:
		default:
			if loc := r.escOpen.FindStringIndex(r.in[pos:]); loc != nil {
				r.kinds["escape"]++
				// The name of a token hides an earlier value of that name.
				hides := ""
				switch term.(type) {
				case parser.S, parser.RE:
					hides = name
				}
				k, end, ok, stop := r.host.Escape(hides, r.in, pos+loc[1], sc)
				if stop {
					r.stopped = true
				}
				if stop || !ok {
					return nil, pos, false
				}
				loc = r.escClose.FindStringIndex(r.in[end:])
				if loc == nil {
					r.kinds["escape without end"]++
					return nil, pos, false
				}
				return k, end + loc[1], true
			}
		}
	}
	switch t := term.(type) {
	case parser.S:
		return r.token(env, string(t), true, pos)
	case parser.RE:
		return r.token(env, string(t), false, pos)
	case parser.CutPoint:
		return r.term(t.Term, name, env, sc, pos)
	case parser.Named:
		return r.term(t.Term, t.Name, env, sc, pos)
	case parser.Rule:
		e := env.lookup(t)
		if e == nil {
			panic("reference: undefined rule " + string(t))
		}
		return r.rule(e, sc, pos)
	case parser.ScopedGrammar:
		r.kinds["scoped"]++
		return r.term(t.Term, name, newRefEnv(t.Grammar, env), sc, pos)
	case parser.Seq:
		kids, end, ok := r.seqParts(t, env, sc, pos)
		if !ok {
			return nil, pos, false
		}
		return &Tree{Tag: tagOr(name, "_"), Kids: kids}, end, true
	case parser.Oneof:
		for i, o := range t {
			if k, end, ok := r.term(o, "", env, sc, pos); ok {
				if i > 0 {
					r.kinds["later option"]++
				}
				return &Tree{Tag: tagOr(name, "|"), Extra: fmt.Sprintf("c%d", i), Kids: []*Tree{k}}, end, true
			}
			if r.stopped {
				return nil, pos, false
			}
		}
		return nil, pos, false
	case parser.LookAhead:
		k, _, ok := r.term(t.Term, "", env, sc, pos)
		if !ok {
			return nil, pos, false
		}
		r.kinds["lookahead"]++
		return &Tree{Tag: tagOr(name, "?="), Kids: []*Tree{k}}, pos, true
	case parser.Quant:
		kids := []*Tree{}
		p := pos
		for t.Max == 0 || len(kids) < t.Max {
			k, end, ok := r.term(t.Term, "", env, sc, p)
			if r.stopped {
				return nil, pos, false
			}
			if !ok {
				break
			}
			// It would match nothing over and over.
			if end == p && t.Max == 0 && len(kids) >= t.Min {
				break
			}
			kids = append(kids, k)
			if end == p && len(kids) >= t.Min {
				break
			}
			p = end
		}
		if len(kids) < t.Min {
			return nil, pos, false
		}
		if len(kids) > 1 {
			r.kinds["repetition"]++
		}
		return &Tree{Tag: tagOr(name, "?"), Kids: kids}, p, true
	case parser.Delim:
		return r.delim(t, name, env, sc, pos)
	case parser.REF:
		return r.backref(t, sc, pos)
	case parser.ExtRef:
		if r.host == nil {
			return nil, pos, false
		}
		k, end, ok, stop := r.host.External(string(t), r.in, pos, sc)
		if stop {
			r.stopped = true
			return nil, pos, false
		}
		return k, end, ok
	}
	panic(fmt.Sprintf("reference: unexpected term %T", term))
}

// delim: x:y is x (y x)*, x:,y is y? x (y x)* and x:y, is x (y x)* y?
func (r *Ref) delim(t parser.Delim, name string, env *refEnv, sc *refScope, pos int) (*Tree, int, bool) {
	var items []*Tree
	p := pos
	if t.CanStartWithSep {
		if k, end, ok := r.term(t.Sep, "", env, sc, p); ok {
			items = append(items, &Tree{Empty: true}, k)
			p = end
			if id := r.identOf(t.Sep, env); id != "" {
				sc = &refScope{name: id, val: &Tree{Tag: "?", Kids: []*Tree{k}}, next: sc}
			}
		} else {
			if r.stopped {
				return nil, pos, false
			}
			if id := r.identOf(t.Sep, env); id != "" {
				sc = &refScope{name: id, val: &Tree{Tag: "?"}, next: sc}
			}
		}
	}
	k, end, ok := r.term(t.Term, "", env, sc, p)
	if !ok {
		return nil, pos, false
	}
	items = append(items, k)
	p = end
	inner := sc
	if id := r.identOf(t.Term, env); id != "" {
		inner = &refScope{name: id, val: k, next: sc}
	}
	n := 0
	for {
		kids, end, ok := r.seqParts([]parser.Term{t.Sep, t.Term}, env, inner, p)
		if r.stopped {
			return nil, pos, false
		}
		if !ok || end == p {
			break
		}
		items = append(items, kids...)
		p = end
		n++
	}
	if t.CanEndWithSep {
		if k, end, ok := r.term(t.Sep, "", env, sc, p); ok {
			items = append(items, k, &Tree{Empty: true})
			p = end
			r.kinds["trailing separator"]++
		}
		if r.stopped {
			return nil, pos, false
		}
	}
	if n > 0 {
		r.kinds["delimited"]++
	}
	tag := tagOr(name, ":")
	if len(items) > 1 && t.Assoc != parser.NonAssociative {
		if n > 1 {
			r.kinds["associative"]++
		}
		if t.Assoc == parser.LeftToRight {
			v := items[0]
			for i := 1; i < len(items); i += 2 {
				v = &Tree{Tag: tag, Extra: "a1", Kids: []*Tree{v, items[i], items[i+1]}}
			}
			return v, p, true
		}
		v := items[len(items)-1]
		for i := len(items) - 2; i > 0; i -= 2 {
			v = &Tree{Tag: tag, Extra: "a-1", Kids: []*Tree{items[i-1], items[i], v}}
		}
		return v, p, true
	}
	return &Tree{Tag: tag, Extra: "a0", Kids: items}, p, true
}

// backref: exactly the text that the name last matched, without any wrapper.
func (r *Ref) backref(t parser.REF, sc *refScope, pos int) (*Tree, int, bool) {
	if val, ok := sc.get(t.Ident); ok {
		r.kinds["back reference"]++
		k, end, ok := r.repeat(val, t.Ident, pos)
		if ok {
			r.kinds["back reference matched"]++
		}
		return k, end, ok
	}
	if t.Default != nil {
		r.kinds["default"]++
		s := string(t.Default.(parser.S))
		if strings.HasPrefix(r.in[pos:], s) {
			return &Tree{Leaf: true, Text: s, Off: pos}, pos + len(s), true
		}
	} else {
		r.kinds["no value"]++
	}
	return nil, pos, false
}

func (r *Ref) repeat(val *Tree, tag string, pos int) (*Tree, int, bool) {
	if val.Leaf {
		if strings.HasPrefix(r.in[pos:], val.Text) {
			return &Tree{Leaf: true, Text: val.Text, Off: pos}, pos + len(val.Text), true
		}
		return nil, pos, false
	}
	out := &Tree{Tag: tag}
	p := pos
	for _, k := range val.Kids {
		if k.Empty {
			continue
		}
		c, end, ok := r.repeat(k, "_", p)
		if !ok {
			return nil, pos, false
		}
		out.Kids = append(out.Kids, c)
		p = end
	}
	return out, p, true
}
