package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// Grammars with macros are kept as terms too: a rule called ".macro m(p,q)"
// holds the body of a macro, with its parameters as rules, and a choice that
// starts with the rule "%!m" is a call whose arguments are the other choices.

type macroDef struct {
	params []string
	body   parser.Term
}

func macroKey(name string, params []string) parser.Rule {
	return parser.Rule(".macro " + name + "(" + strings.Join(params, ",") + ")")
}

func macroCall(name string, args ...parser.Term) parser.Term {
	return append(parser.Oneof{parser.Rule("%!" + name)}, args...)
}

func asMacroCall(t parser.Term) (name string, args []parser.Term, ok bool) {
	if o, is := t.(parser.Oneof); is && len(o) > 0 {
		if r, is := o[0].(parser.Rule); is && strings.HasPrefix(string(r), "%!") {
			return string(r[2:]), o[1:], true
		}
	}
	return "", nil, false
}

// expandMacros replaces the calls of a grammar by hand.
func expandMacros(g parser.Grammar, outer map[string]macroDef) parser.Grammar {
	defs := map[string]macroDef{}
	for k, v := range outer {
		defs[k] = v
	}
	for r, t := range g {
		if s := string(r); strings.HasPrefix(s, ".macro ") {
			i := strings.Index(s, "(")
			var params []string
			if p := s[i+1 : len(s)-1]; p != "" {
				params = strings.Split(p, ",")
			}
			defs[s[len(".macro "):i]] = macroDef{params, t}
		}
	}
	out := parser.Grammar{}
	for r, t := range g {
		if !strings.HasPrefix(string(r), ".macro ") {
			out[r] = expandTerm(t, nil, defs)
		}
	}
	return out
}

func expandTerm(t parser.Term, binds map[string]parser.Term, defs map[string]macroDef) parser.Term {
	f := func(t parser.Term) parser.Term { return expandTerm(t, binds, defs) }
	if name, args, ok := asMacroCall(t); ok {
		def, ok := defs[name]
		if !ok || len(def.params) != len(args) {
			panic("bad call of " + name)
		}
		b := map[string]parser.Term{}
		for i, a := range args {
			b[def.params[i]] = f(a)
		}
		return expandTerm(def.body, b, defs)
	}
	switch t := t.(type) {
	case parser.Rule:
		if arg, ok := binds[string(t)]; ok {
			return arg
		}
		return t
	case parser.ScopedGrammar:
		inner := map[string]macroDef{}
		g := expandScoped(t.Grammar, binds, defs, inner)
		return parser.ScopedGrammar{Term: expandTerm(t.Term, binds, inner), Grammar: g}
	}
	return mapSubterms(t, f)
}

func expandScoped(g parser.Grammar, binds map[string]parser.Term, defs, inner map[string]macroDef) parser.Grammar {
	for k, v := range defs {
		inner[k] = v
	}
	for r, t := range g {
		if s := string(r); strings.HasPrefix(s, ".macro ") {
			i := strings.Index(s, "(")
			var params []string
			if p := s[i+1 : len(s)-1]; p != "" {
				params = strings.Split(p, ",")
			}
			inner[s[len(".macro "):i]] = macroDef{params, t}
		}
	}
	out := parser.Grammar{}
	for r, t := range g {
		switch {
		case strings.HasPrefix(string(r), ".macro "):
		case r == ".wrapRE":
			out[r] = t
		default:
			out[r] = expandTerm(t, binds, inner)
		}
	}
	return out
}

// mapSubterms applies f to the parts of a term.
func mapSubterms(t parser.Term, f func(parser.Term) parser.Term) parser.Term {
	switch t := t.(type) {
	case parser.Seq:
		return parser.Seq(mapTerms(t, f))
	case parser.Oneof:
		return parser.Oneof(mapTerms(t, f))
	case parser.Stack:
		return parser.Stack(mapTerms(t, f))
	case parser.Delim:
		t.Term, t.Sep = f(t.Term), f(t.Sep)
		return t
	case parser.Quant:
		t.Term = f(t.Term)
		return t
	case parser.Named:
		t.Term = f(t.Term)
		return t
	case parser.LookAhead:
		t.Term = f(t.Term)
		return t
	case parser.ScopedGrammar:
		t.Term = f(t.Term)
		g := parser.Grammar{}
		for r, x := range t.Grammar {
			if r == ".wrapRE" {
				g[r] = x
			} else {
				g[r] = f(x)
			}
		}
		t.Grammar = g
		return t
	}
	return t
}

func printMacros(r *rand.Rand, g parser.Grammar, fancy bool) string {
	p := &printer{Rand: r, shuffle: true}
	if fancy {
		p.spaces, p.quotes, p.comments = true, true, true
	}
	p.override = func(t parser.Term) (string, bool) {
		if r, ok := t.(parser.Rule); ok && strings.HasPrefix(string(r), "raw:") { // see c11.go
			return string(r[4:]), true
		}
		name, args, ok := asMacroCall(t)
		if !ok {
			return "", false
		}
		var out []string
		for _, a := range args {
			s := p.atomText(a, 1)
			if strings.Contains(s, ":") || strings.Contains(s, "{") || r.IntN(3) == 0 {
				s = "(" + s + ")"
			}
			out = append(out, s)
		}
		return "%!" + name + "(" + strings.Join(out, []string{",", ", "}[r.IntN(2)]) + ")", true
	}
	p.grammar(g)
	return p.sb.String()
}

// macroMaker introduces macros into grammars.
type macroMaker struct {
	*rand.Rand
	n     int
	c     *Case
	local bool
	pure  bool // what the grammar means must not change
}

// subterms lists the terms that may be cut out of t: no @ and no whole stacks.
func subterms(t parser.Term) (out []parser.Term) {
	walk := func(t parser.Term) {}
	walk = func(t parser.Term) {
		if _, isStack := t.(parser.Stack); !isStack && !mentions(t, "@") {
			out = append(out, t)
		}
		switch t := t.(type) {
		case parser.Seq:
			for _, x := range t {
				walk(x)
			}
		case parser.Oneof:
			if _, args, ok := asMacroCall(t); ok {
				for _, x := range args {
					walk(x)
				}
				return
			}
			for _, x := range t {
				walk(x)
			}
		case parser.Delim:
			walk(t.Term)
			walk(t.Sep)
		case parser.Quant:
			walk(t.Term)
		case parser.Named:
			walk(t.Term)
		case parser.LookAhead:
			walk(t.Term)
		case parser.Stack:
			for _, x := range t {
				walk(x)
			}
		case parser.ScopedGrammar:
			walk(t.Term)
			for _, r := range sortedRules(t.Grammar) {
				if r[0] != '.' {
					walk(t.Grammar[parser.Rule(r)])
				}
			}
		}
	}
	walk(t)
	return
}

func sortedRules(g parser.Grammar) (out []string) {
	for r := range g {
		out = append(out, string(r))
	}
	sort.Strings(out)
	return
}

func mentions(t parser.Term, r string) bool {
	found := false
	walkTerm(t, func(t parser.Term) {
		if x, ok := t.(parser.Rule); ok && string(x) == r {
			found = true
		}
	})
	return found
}

func cloneTerm(t parser.Term) parser.Term { return mapSubterms(t, cloneTerm) }

func termKey(t parser.Term) string {
	var sb strings.Builder
	var f func(t parser.Term) parser.Term
	f = func(t parser.Term) parser.Term {
		switch x := t.(type) {
		case parser.S, parser.RE, parser.Rule, parser.REF, parser.ExtRef:
			fmt.Fprintf(&sb, "%T%#v", x, x)
			return t
		case parser.ScopedGrammar:
			sb.WriteString("scoped(")
			f(x.Term)
			sb.WriteString(grammarKey(x.Grammar) + ")")
			return t
		case parser.Delim:
			fmt.Fprint(&sb, x.Assoc, x.CanStartWithSep, x.CanEndWithSep)
		case parser.Quant:
			fmt.Fprint(&sb, x.Min, ",", x.Max)
		case parser.Named:
			sb.WriteString(x.Name)
		}
		fmt.Fprintf(&sb, "%T(", t)
		mapSubterms(t, f)
		sb.WriteString(")")
		return t
	}
	f(t)
	return sb.String()
}

func grammarKey(g parser.Grammar) string {
	s := "{"
	for _, r := range sortedRules(g) {
		s += r + ":" + termKey(g[parser.Rule(r)]) + ";"
	}
	return s + "}"
}

// replaceTerm replaces terms equal to old (at most limit of them, 0 for all).
func replaceTerm(t parser.Term, old string, by parser.Term, limit int) (parser.Term, int) {
	n := 0
	var f func(t parser.Term) parser.Term
	f = func(t parser.Term) parser.Term {
		if (limit == 0 || n < limit) && termKey(t) == old {
			n++
			return by
		}
		return mapSubterms(t, f)
	}
	return f(t), n
}

func localRules(t parser.Term) map[string]bool {
	out := map[string]bool{}
	walkTerm(t, func(t parser.Term) {
		if s, ok := t.(parser.ScopedGrammar); ok {
			for r := range s.Grammar {
				out[string(r)] = true
			}
		}
		if r, ok := t.(parser.REF); ok {
			out[r.Ident] = true
		}
		if n, ok := t.(parser.Named); ok {
			out["="+n.Name] = true
		}
	})
	return out
}

// freeRules are the rules that a term gets from where it stands.
func freeRules(t parser.Term, out map[string]bool, local map[string]bool) {
	switch t := t.(type) {
	case parser.Rule:
		if !local[string(t)] && !strings.HasPrefix(string(t), "%!") {
			out[string(t)] = true
		}
	case parser.ScopedGrammar:
		inner := map[string]bool{}
		for r := range local {
			inner[r] = true
		}
		for r := range t.Grammar {
			inner[string(r)] = true
		}
		freeRules(t.Term, out, inner)
		for _, x := range t.Grammar {
			freeRules(x, out, inner)
		}
	default:
		mapSubterms(t, func(t parser.Term) parser.Term { freeRules(t, out, local); return t })
	}
}

// definedIn tells whether the rules that a term needs are those of g.
func definedIn(t parser.Term, gs ...parser.Grammar) bool {
	free := map[string]bool{}
	freeRules(t, free, nil)
next:
	for r := range free {
		for _, g := range gs {
			if g[parser.Rule(r)] != nil {
				continue next
			}
		}
		return false
	}
	return true
}

var ruleNameRE = regexp.MustCompile(`^[A-Za-z_]\w*$`)

func isGenRule(s string) bool {
	for _, r := range genRuleNames {
		if r == s {
			return true
		}
	}
	return false
}

// params makes names for the parameters of a macro; some are also those of named terms.
func (m *macroMaker) params(body parser.Term, n int) []string {
	local := localRules(body)
	pool := []string{"p", "q", "arg", "p1", "term", "x", "op", "_"}
	if m.local { // a parameter may not shadow that of a macro around it
		pool = nil
		for i := 0; i < 5; i++ {
			pool = append(pool, fmt.Sprintf("l%d_%d", m.n, i))
		}
	}
	if !m.local && m.IntN(3) == 0 { // names similar to those of rules
		pool = nil
		walkTerm(body, func(t parser.Term) {
			if r, ok := t.(parser.Rule); ok && ruleNameRE.MatchString(string(r)) {
				s := string(r)
				for _, p := range []string{strings.ToUpper(s), strings.ToLower(s), strings.Title(s), s + "_", s + "1", s[:len(s)-1], "_" + s, s + s} {
					if ruleNameRE.MatchString(p) && !isGenRule(p) && !strings.HasPrefix(p, "trap") {
						pool = append(pool, p)
					}
				}
			}
		})
		pool = append(pool, "p", "P", "q")
	}
	m.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	var out []string
	seen := map[string]bool{}
	for _, p := range pool {
		if len(out) < n && !seen[p] && !local[p] && !local["="+p] && !mentions(body, p) {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// abstract makes a macro of a term: some of its parts become parameters.
func (m *macroMaker) abstract(t parser.Term) (def macroDef, args []parser.Term) {
	body := t
	n := m.IntN(4)
	names := m.params(t, n)
	for _, p := range names {
		subs := subterms(body)
		var cands []parser.Term
		for _, s := range subs {
			// Not what contains parameters (the argument would have to hold them) or
			// rules that are local to a part of the body.
			ok := true
			for _, q := range names {
				ok = ok && !mentions(s, q)
			}
			for l := range localRules(t) {
				ok = ok && !mentions(s, l)
			}
			for l := range localRules(s) {
				ok = ok && l[0] == '='
			}
			if _, isS := s.(parser.Seq); isS && len(s.(parser.Seq)) == 0 {
				ok = false
			}
			if ok {
				cands = append(cands, s)
			}
		}
		if len(cands) == 0 {
			break
		}
		s := cands[m.IntN(len(cands))]
		nb, k := replaceTerm(body, termKey(s), parser.Rule(p), m.IntN(5)/4)
		if k > 0 && m.IntN(3) == 0 { // use it in another place, too
			if subs := subterms(nb); len(subs) > 0 {
				at := subs[m.IntN(len(subs))]
				ok := !mentions(at, p) && !m.pure
				if s, is := at.(parser.Seq); is && len(s) == 0 {
					ok = false
				}
				if ok {
					nb, _ = replaceTerm(nb, termKey(at), parser.Rule(p), 1)
					k++
				}
			}
		}
		if k == 0 {
			break
		}
		if k > 1 {
			m.c.Stat("parameters used several times", 1)
		}
		body = nb
		def.params = append(def.params, p)
		args = append(args, s)
	}
	def.body = body
	if m.IntN(6) == 0 && len(names) > len(def.params) { // one that is not used
		def.params = append(def.params, names[len(def.params)])
		args = append(args, parser.S("unused"))
	}
	return def, args
}

// factor rewrites one part of a grammar as a macro and a call.
func (m *macroMaker) factor(g parser.Grammar) {
	rules := sortedRules(g)
	r := parser.Rule(rules[m.IntN(len(rules))])
	if r == ".wrapRE" {
		return
	}
	subs := subterms(g[r])
	if len(subs) == 0 {
		return
	}
	t := subs[m.IntN(len(subs))]
	for i := 0; i < m.IntN(4); i++ { // rather a large one
		if u := subs[m.IntN(len(subs))]; len(termKey(u)) > len(termKey(t)) {
			t = u
		}
	}
	if s, ok := t.(parser.Seq); ok && len(s) == 0 {
		return
	}
	home := g
	if !strings.HasPrefix(string(r), ".macro ") && !definedIn(t, g) {
		return
	}
	// A part of a macro's body may hold its parameters, which the new macro would not know.
	if strings.HasPrefix(string(r), ".macro ") {
		for _, p := range macroParams(string(r)) {
			if mentions(t, p) {
				// fine if they become arguments; keep it simple and pass them all
				def := macroDef{[]string{p}, t}
				for _, q := range macroParams(string(r)) {
					if q != p && mentions(t, q) {
						def.params = append(def.params, q)
					}
				}
				for l := range localRules(t) {
					if l[0] != '=' || strings.Contains(string(r), l[1:]) {
						return
					}
				}
				ps := parser.Grammar{}
				for _, q := range macroParams(string(r)) {
					ps[parser.Rule(q)] = parser.S("")
				}
				if !definedIn(t, g, ps) {
					return
				}
				var args []parser.Term
				for _, q := range def.params {
					args = append(args, parser.Rule(q))
				}
				m.n++
				name := fmt.Sprintf("m%d", m.n)
				nt, _ := replaceTerm(g[r], termKey(t), macroCall(name, args...), 0)
				g[r] = nt
				home[macroKey(name, def.params)] = def.body
				m.c.Stat("macros calling macros with their parameters", 1)
				return
			}
		}
	}
	if !definedIn(t, g) {
		return
	}
	def, args := m.abstract(t)
	m.n++
	name := fmt.Sprintf("m%d", m.n)
	nt, k := replaceTerm(g[r], termKey(t), macroCall(name, args...), 0)
	if k == 0 {
		return
	}
	g[r] = nt
	home[macroKey(name, def.params)] = def.body
	m.c.Stat("calls that stand for a part of a grammar", k)
}

func macroParams(key string) []string {
	i := strings.Index(key, "(")
	if p := key[i+1 : len(key)-1]; p != "" {
		return strings.Split(p, ",")
	}
	return nil
}

// insert calls a macro with other arguments elsewhere.
func (m *macroMaker) insert(g parser.Grammar) {
	var keys []string
	for _, r := range sortedRules(g) {
		if strings.HasPrefix(r, ".macro ") {
			keys = append(keys, r)
		}
	}
	if len(keys) == 0 {
		return
	}
	key := keys[m.IntN(len(keys))]
	name := key[len(".macro "):strings.Index(key, "(")]
	rules := sortedRules(g)
	r := parser.Rule(rules[m.IntN(len(rules))])
	if r[0] == '.' {
		return
	}
	if len(localRules(g[r])) > 0 {
		return
	}
	subs := subterms(g[r])
	if len(subs) == 0 {
		return
	}
	pick := func() parser.Term { return subs[m.IntN(len(subs))] }
	var args []parser.Term
	for range macroParams(key) {
		a := pick()
		if s, ok := a.(parser.Seq); ok && len(s) == 0 {
			a = parser.S("a")
		}
		if m.IntN(3) == 0 {
			a = parser.S("b")
		}
		args = append(args, a)
	}
	at := pick()
	call := macroCall(name, args...)
	var by parser.Term
	switch m.IntN(5) {
	case 0:
		by = call
	case 1:
		by = parser.Seq{at, call}
	case 2:
		by = parser.Oneof{call, at}
	case 3:
		by = parser.Oneof{at, parser.Opt(call)}
	case 4:
		by = parser.Delim{Term: at, Sep: parser.Seq{parser.S("+"), call}}
	}
	nt, k := replaceTerm(g[r], termKey(at), by, 1)
	if k == 1 {
		g[r] = nt
		m.c.Stat("calls added", 1)
	}
}

// localMacro moves into a scoped grammar a macro that is only used there.
func (m *macroMaker) localMacros(g parser.Grammar) {
	m.local = true
	defer func() { m.local = false }()
	for _, r := range sortedRules(g) {
		walkTerm(g[parser.Rule(r)], func(t parser.Term) {
			s, ok := t.(parser.ScopedGrammar)
			if !ok || m.IntN(2) == 0 {
				return
			}
			var own []string
			for _, r := range sortedRules(s.Grammar) {
				if r[0] != '.' {
					own = append(own, r)
				}
			}
			if len(own) == 0 {
				return
			}
			r := parser.Rule(own[m.IntN(len(own))])
			subs := subterms(s.Grammar[r])
			if len(subs) == 0 {
				return
			}
			t2 := subs[m.IntN(len(subs))]
			if s, ok := t2.(parser.Seq); ok && len(s) == 0 {
				return
			}
			if !definedIn(t2, g, s.Grammar) {
				return
			}
			def, args := m.abstract(t2)
			m.n++
			name := fmt.Sprintf("m%d", m.n)
			nt, k := replaceTerm(s.Grammar[r], termKey(t2), macroCall(name, args...), 0)
			if k == 0 {
				return
			}
			s.Grammar[r] = nt
			s.Grammar[macroKey(name, def.params)] = def.body
			m.c.Stat("macros of scoped grammars", 1)
		})
	}
}

// shadow gives macros of scoped grammars the names of macros that are defined
// around them or elsewhere, where this changes nothing.
func (m *macroMaker) shadow(g parser.Grammar) {
	defined := map[string]bool{}
	inBodies := map[string]bool{}
	calls := func(t parser.Term, found map[string]bool) {
		walkTerm(t, func(t parser.Term) {
			if name, _, ok := asMacroCall(t); ok {
				found[name] = true
			}
		})
	}
	note := func(g parser.Grammar) {
		for r, t := range g {
			if s := string(r); strings.HasPrefix(s, ".macro ") {
				defined[macroName(s)] = true
				calls(t, inBodies)
			}
		}
	}
	note(g)
	var scopes []parser.ScopedGrammar
	for _, r := range sortedRules(g) {
		walkTerm(g[parser.Rule(r)], func(t parser.Term) {
			if s, ok := t.(parser.ScopedGrammar); ok {
				note(s.Grammar)
				scopes = append(scopes, s)
			}
		})
	}
	var names []string
	for name := range defined {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, s := range scopes {
		for _, r := range sortedRules(s.Grammar) {
			if !strings.HasPrefix(r, ".macro ") {
				continue
			}
			from, to := macroName(r), names[m.IntN(len(names))]
			here := map[string]bool{}
			calls(s, here)
			for r := range s.Grammar {
				if strings.HasPrefix(string(r), ".macro ") {
					here[macroName(string(r))] = true
				}
			}
			if here[to] || inBodies[to] || inBodies[from] {
				continue
			}
			body := s.Grammar[parser.Rule(r)]
			delete(s.Grammar, parser.Rule(r))
			for _, r := range sortedRules(s.Grammar) {
				s.Grammar[parser.Rule(r)] = renameCalls(s.Grammar[parser.Rule(r)], from, to)
			}
			s.Grammar[macroKey(to, macroParams(r))] = body
			m.c.Stat("macros with the name of another", 1)
		}
	}
}

func macroName(key string) string { return key[len(".macro "):strings.Index(key, "(")] }

func renameCalls(t parser.Term, from, to string) parser.Term {
	f := func(t parser.Term) parser.Term { return renameCalls(t, from, to) }
	if name, args, ok := asMacroCall(t); ok {
		args = mapTerms(args, f)
		if name == from {
			name = to
		}
		return macroCall(name, args...)
	}
	if s, ok := t.(parser.ScopedGrammar); ok {
		s.Term = f(s.Term)
		for _, r := range sortedRules(s.Grammar) {
			if r != ".wrapRE" {
				s.Grammar[parser.Rule(r)] = f(s.Grammar[parser.Rule(r)])
			}
		}
		return s
	}
	return mapSubterms(t, f)
}

func init() {
	opts := []GenOpts{
		{Rules: 3, Depth: 3},
		{Rules: 4, Depth: 4, Scoped: true},
		{Rules: 3, Depth: 4, Refs: true, Wrap: true},
		{Rules: 2, Depth: 3, NoRE: true, NoStack: true},
		{Rules: 3, Depth: 4, Scoped: true, Refs: true, NoStack: true},
	}
	register(&Check{
		ID: "C09",
		Rule: "in random grammars parts are abstracted into macros (parameters for some of their parts, several times, unused, sharing the names of terms; macros of macros, with parameters passed on; macros of scoped grammars, also with the names of others outside; definitions anywhere) and further calls with other arguments are added; " +
			"the text with macros must be accepted if and only if the one expanded by hand is, and parse every input with the same outcome and tree. Non-trivial: compiled, with calls, and some input was matched; distinct by text.",
		Cases: map[string]int{"quick": 4500, "thorough": 150000},
		Run: func(c *Case) {
			o := pickOpts(c, opts)
			base, rules := genGrammar(c.Rand, o)
			mg := parser.Grammar{}
			for r, t := range base {
				mg[r] = cloneTerm(t)
			}
			mm := &macroMaker{Rand: c.Rand, c: c, pure: c.IntN(2) == 0}
			for i, n := 0, 1+c.IntN(4); i < n; i++ {
				mm.factor(mg)
			}
			if o.Scoped && c.IntN(2) == 0 {
				mm.localMacros(mg)
				if c.IntN(2) == 0 {
					mm.shadow(mg)
				}
			}
			pure := mm.pure
			if pure && grammarKey(expandMacros(mg, nil)) != grammarKey(base) {
				c.Note("a", printGrammar(base))
				c.Note("b", printGrammar(expandMacros(mg, nil)))
				c.Note("m", printMacros(c.Rand, mg, false))
				panic("harness: expanding does not give back the grammar")
			}
			if !pure {
				for i, n := 0, c.IntN(4); i < n; i++ {
					mm.insert(mg)
				}
				pure = false
			}
			if mm.n == 0 {
				return
			}
			hand := expandMacros(mg, nil)
			if len(grammarKey(hand)) > 60000 {
				return
			}
			text := printMacros(c.Rand, mg, c.IntN(2) == 0)
			handText := printGrammar(hand)
			c.Note("text", text)
			c.Note("by hand", handText)
			p1, err1 := wbnf.Compile(text, nil)
			p2, err2 := wbnf.Compile(handText, nil)
			c.Eval()
			if (err1 == nil) != (err2 == nil) {
				if !pure && err1 == nil && strings.Contains(err2.Error(), "multiple times") {
					c.Stat("names that only the expanded text repeats", 1)
					return
				}
				c.Fail("with macros: %v; expanded by hand: %v", err1, err2)
				return
			}
			if err1 != nil {
				if pure {
					c.Fail("a valid grammar was rejected: %v", err1)
				}
				c.Stat("rejected both ways", 1)
				return
			}
			c.Stat("macros", mm.n)
			ps := []parser.Parsers{hand.Compile(nil), stripCuts(p1.Grammar()).Compile(nil), p2, p1}
			names := []string{"expansion", "text with macros, without cuts", "text expanded by hand", "text with macros"}
			ref := newRef(hand)
			matched := false
			for k := 0; k < 5; k++ {
				rule := rules[0]
				if c.IntN(2) == 0 {
					rule = rules[c.IntN(len(rules))]
				}
				input := genInputs(c.Rand, hand, rule, o, 1)[0]
				if ref.Parse(rule, input).Budget {
					c.Stat("skipped: too expensive for the reference", 1)
					continue
				}
				c.Note("rule", rule)
				c.Note("input", input)
				var outs [4]string
				for i, p := range ps {
					var ok, fine bool
					outs[i], ok, fine = parseOutcome(c, p, rule, input)
					if !fine {
						return
					}
					matched = matched || ok
				}
				c.Eval()
				for _, ij := range [][2]int{{0, 1}, {2, 3}} {
					if i, j := ij[0], ij[1]; outs[i] != outs[j] {
						c.Fail("the parsers of the %s and of the %s differ:\n%s\n%s", names[i], names[j], outs[i], outs[j])
						return
					}
				}
				if strings.HasPrefix(outs[0], "matched") {
					c.Stat("matched", 1)
				} else {
					c.Stat("not matched", 1)
				}
			}
			if matched {
				c.Distinct(text)
				c.Sample(map[string]any{"text": text, "by hand": handText})
			}
		},
	})
}
