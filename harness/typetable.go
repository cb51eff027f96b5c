package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// typeTable models which types generated code has for a grammar: one for each
// rule and for each name given to more than a token or rule, in what it occurs.
type typeTable struct {
	types map[string]*typeInfo // by normalised name
	clash []string             // types that have the same name
}

type typeInfo struct {
	name  string
	what  string
	token bool
	kids  map[string]map[string]bool // what an ident stands for
	// helper types are for separators
	helper bool
	// choice in it or what is inlined into it
	choice bool
	// what separators put into the nodes of the type: tokens without a name
	// (sep), tokens with one, and what they hold otherwise
	wrapped  map[string]string // x in x=rule: rule
	sep      bool
	namedSep map[string]bool
	named    map[string]int // how often tokens have which names
	seps     []*typeInfo
}

// plainName is what remains of a name in Go, but for upper case.
func plainName(s string) string {
	s = strings.ToLower(strings.NewReplacer("_", "", ".", "", "-", "", "@", "", "%", "").Replace(strings.TrimSuffix(s, "Node")))
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		return "x" + s
	}
	return s
}

type typeScope struct {
	parent *typeScope
	rules  map[string]*typeInfo
}

func (s *typeScope) find(name string) *typeInfo {
	for ; s != nil; s = s.parent {
		if t := s.rules[name]; t != nil {
			return t
		}
	}
	return nil
}

func newTypeTable(g parser.Grammar) *typeTable {
	tt := &typeTable{types: map[string]*typeInfo{}}
	tt.grammar("", "", g, nil)
	return tt
}

func (tt *typeTable) add(name, what string, helper bool) *typeInfo {
	key := strings.ToLower(name)
	if t := tt.types[key]; t != nil {
		if t.what == what {
			return t
		}
		tt.clash = append(tt.clash, fmt.Sprintf("%s and %s", t.what, what))
	}
	t := &typeInfo{name: name, what: what, kids: map[string]map[string]bool{}, helper: helper}
	tt.types[key] = t
	return t
}

func (tt *typeTable) grammar(prefix, path string, g parser.Grammar, outer *typeScope) *typeScope {
	scope := &typeScope{parent: outer, rules: map[string]*typeInfo{}}
	for _, r := range sortedRules(g) {
		scope.rules[r] = tt.add(prefix+plainName(r), path+"/rule "+r, false)
	}
	for _, r := range sortedRules(g) {
		tt.term(g[parser.Rule(r)], scope.rules[r], scope, r, scope.rules[r])
	}
	return scope
}

func (t *typeInfo) kid(ident, kind string) {
	if t.kids[ident] == nil {
		t.kids[ident] = map[string]bool{}
	}
	t.kids[ident][kind] = true
}

func (tt *typeTable) term(t parser.Term, in *typeInfo, scope *typeScope, stack string, stackType *typeInfo) {
	switch t := t.(type) {
	case parser.S, parser.RE:
		in.token = true
	case parser.Rule:
		tt.rule(t, string(t), in, scope, stack, stackType)
	case parser.REF:
		in.kid(t.Ident, "ref")
	case parser.Seq:
		for _, x := range t {
			tt.term(x, in, scope, stack, stackType)
		}
	case parser.Stack:
		for _, x := range t {
			tt.term(x, in, scope, stack, stackType)
		}
	case parser.Oneof:
		in.choice = true
		for _, x := range t {
			tt.term(x, in, scope, stack, stackType)
		}
	case parser.Quant:
		tt.term(t.Term, in, scope, stack, stackType)
	case parser.LookAhead:
		tt.term(t.Term, in, scope, stack, stackType)
	case parser.CutPoint:
		tt.term(t.Term, in, scope, stack, stackType)
	case parser.ScopedGrammar:
		inner := tt.grammar(in.name, fmt.Sprintf("%s/scope %p", in.what, t.Grammar), t.Grammar, scope)
		tt.term(t.Term, in, inner, stack, stackType)
	case parser.Delim:
		tt.term(t.Term, in, scope, stack, stackType)
		switch sep := t.Sep.(type) {
		case parser.Rule:
			helper := tt.add(in.name+plainName(string(sep)), in.what+"/sep", true)
			in.seps = append(in.seps, helper)
			tt.rule(sep, string(sep), helper, scope, stack, stackType)
		case parser.Named:
			if _, is := sep.Term.(parser.S); is {
				if in.namedSep == nil {
					in.namedSep = map[string]bool{}
				}
				in.namedSep[sep.Name] = true
			}
			tt.term(sep, in, scope, stack, stackType)
		case parser.S:
			in.sep = true
		default:
			helper := tt.add(in.name+"Delim", in.what+"/delim", true)
			in.seps = append(in.seps, helper)
			tt.term(sep, helper, scope, stack, stackType)
		}
	case parser.Named:
		switch x := t.Term.(type) {
		case parser.Rule:
			if in.wrapped == nil {
				in.wrapped = map[string]string{}
			}
			in.wrapped[t.Name] = string(x)
			if x == parser.At {
				in.wrapped[t.Name] = stack
			}
			tt.rule(x, t.Name, in, scope, stack, stackType)
		case parser.S, parser.RE, parser.CutPoint:
			in.kid(t.Name, "token")
			if in.named == nil {
				in.named = map[string]int{}
			}
			in.named[t.Name]++
		default:
			named := tt.add(in.name+plainName(t.Name), in.what+"/name "+t.Name, false)
			in.kid(t.Name, named.what)
			tt.term(x, named, scope, stack, stackType)
		}
	}
}

func (tt *typeTable) rule(r parser.Rule, ident string, in *typeInfo, scope *typeScope, stack string, stackType *typeInfo) {
	if r == parser.At {
		if ident == "@" {
			ident = stack
		}
		in.kid(ident, stackType.what)
		return
	}
	what := "?"
	if t := scope.find(string(r)); t != nil {
		what = t.what
	}
	in.kid(ident, what)
}

// problems tells why the accessors of the types may get in each other's way.
// One name for several kinds of things is a problem if strict.
func (tt *typeTable) problems(strict bool) (out []string) {
	out = append(out, tt.clash...)
	keys := make([]string, 0, len(tt.types))
	for k := range tt.types {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := tt.types[k]
		seen := map[string]string{"token": "a token", "string": "a method"}
		idents := make([]string, 0, len(t.kids))
		for id := range t.kids {
			idents = append(idents, id)
		}
		sort.Strings(idents)
		for _, id := range idents {
			n := plainName(id)
			if other, has := seen[n]; has {
				out = append(out, fmt.Sprintf("%s: %s and %s", t.what, id, other))
			}
			seen[n] = id
			kinds := 0
			for _, t := range append([]*typeInfo{t}, t.seps...) {
				kinds += len(t.kids[id])
			}
			if kinds == 2 && !t.namedSep[id] && t.kids[id]["token"] && t.kids[id]["ref"] {
				kinds = 1
			}
			if strict && kinds > 1 {
				out = append(out, fmt.Sprintf("%s: %s is several things", t.what, id))
			}
		}
	}
	return out
}

// sepOnly tells whether an accessor need not reach all children of a name,
// because some belong to separators without a name.
func (t *typeInfo) sepOnly(ident string) bool {
	if ident == "" && t.sep {
		return true
	}
	for _, h := range t.seps {
		if ident == "" && h.token || h.kids[ident] != nil || h.sepOnly(ident) {
			return true
		}
	}
	return false
}

func (t *typeInfo) sepChoice() bool {
	for _, h := range t.seps {
		if h.choice || h.sepChoice() {
			return true
		}
	}
	return false
}
