package main

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	"github.com/arr-ai/wbnf/parser"
)

// GenOpts says what grammars may be made of.
type GenOpts struct {
	Rules      int // most rules
	Depth      int // of terms
	Big        int // one grammar in so many has a very long rule (0: 40)
	Tokens     []string
	Regexps    []reSample
	NoRE       bool
	NoNames    bool
	NoDelim    bool
	NoAssoc    bool
	NoOptSep   bool
	NoStack    bool
	NoLook     bool
	Refs       bool // back references
	MoreRefs   bool // many of them
	Exts       []string
	ExtSamples map[string][]string
	Escapes    []string
	Scoped     bool
	MoreScopes bool // many of them, also in stacks
	OuterAlias bool // local rules may merely name outer ones
	Wrap       bool
	NoEmptyTok bool
	NoEmptySeq bool
	// DistinctNames makes names unique throughout the grammar and rules be used under names.
	DistinctNames bool
	NoBounded     bool
	NoNestedQuant bool
	NoRecursion   bool
	// AST is for trees made into ASTs: associative delimiters of the same
	// direction are often the operands of one another.
	AST bool
}

type reSample struct {
	re      string
	samples []string
}

var defaultTokens = []string{"a", "b", "c", "ab", "ba", "aa", "abc", "+", "-", "*", ",", ";", "(", ")", "[", "]", "x", "1"}

var defaultRegexps = []reSample{
	{`[ab]`, []string{"a", "b"}},
	{`a+`, []string{"a", "aa", "aaa"}},
	{`[a-c]+`, []string{"a", "bc", "cab"}},
	{`[a-c]*`, []string{"", "a", "bb"}},
	{`b?`, []string{"", "b"}},
	{`\d`, []string{"0", "7"}},
	{`\d+`, []string{"1", "42"}},
	{`a(b|c)`, []string{"ab", "ac"}},
	{`(a)b`, []string{"ab"}},
	{`x|ab`, []string{"x", "ab"}},
	{`[^,;()]`, []string{"a", "+", "é"}},
	{`.`, []string{"a", ",", "é"}},
	{`(?:ab)*c`, []string{"c", "abc", "ababc"}},
	{`a*?b`, []string{"b", "ab"}},
	{`(a)|(b)`, []string{"a", "b"}},
	{`(x)?1`, []string{"1", "x1"}},
	{`\w+`, []string{"a", "ab1", "x"}},
}

// genWraps are wrappers along with what they may swallow before and after.
var genWraps = []struct {
	re        string
	pre, post []string
}{
	{`\s*()\s*`, []string{"", "", " ", "\n", "  "}, []string{"", "", " "}},
	{`\s*()`, []string{"", "", " ", "\n "}, []string{""}},
	{`[~_]*()`, []string{"", "_", "~~"}, []string{""}},
	{`()(?:#[a-z]*#)?`, []string{""}, []string{"", "", "#z#", "##"}},
	{`()\b`, []string{""}, []string{""}},
}

type genRule struct {
	name     parser.Rule
	done     bool
	nullable bool
}

type genScope struct {
	parent *genScope
	rules  []*genRule
	at     *genRule
}

func (s *genScope) visible() (out []*genRule) {
	seen := map[parser.Rule]bool{}
	for ; s != nil; s = s.parent {
		for _, r := range s.rules {
			if !seen[r.name] {
				seen[r.name] = true
				out = append(out, r)
			}
		}
	}
	return
}

type generator struct {
	*rand.Rand
	o         GenOpts
	names     int
	inScan    int
	ruleNames map[parser.Rule]bool
	bound     []string // names that references may use
	scopes    int
	budget    int
	big       int // 1: a deep stack, 2: a wide choice, 3: a long sequence, 4: deep nesting is to come
}

// genNames are for named terms; none is a name for a rule.
var genNames = []string{"x", "y", "z", "op", "val", "lhs", "name_1", "Xy", "_9", ".m", "keyNode", "XY2"}
var genRuleNames = []string{"a", "b", "c", "d", "e", "foo", "Bar", "b_2", "_q", "expr", "item", ".s", "_1", "listNode", "func", "__"}

// genGrammar makes a grammar free of left recursion. The first rule returned is a good start.
func genGrammar(r *rand.Rand, o GenOpts) (parser.Grammar, []parser.Rule) {
	if o.Rules == 0 {
		o.Rules = 4
	}
	if o.Depth == 0 {
		o.Depth = 4
	}
	if o.Tokens == nil {
		o.Tokens = defaultTokens
	}
	if o.Regexps == nil {
		o.Regexps = defaultRegexps
	}
	g := &generator{Rand: r, o: o, ruleNames: map[parser.Rule]bool{}, budget: 60}
	big := 40
	if o.Big > 0 {
		big = o.Big
	}
	if r.IntN(big) == 0 {
		g.big = 1 + r.IntN(4)
	}
	n := 1 + r.IntN(o.Rules)
	scope := &genScope{}
	perm := r.Perm(len(genRuleNames))
	for i := 0; i < n; i++ {
		scope.rules = append(scope.rules, &genRule{name: parser.Rule(genRuleNames[perm[i]])})
	}
	gr := g.grammar(scope)
	if o.Wrap && r.IntN(3) > 0 {
		gr[".wrapRE"] = g.wrapper()
	}
	rules := make([]parser.Rule, n)
	for i, ru := range scope.rules {
		rules[i] = ru.name
	}
	return gr, rules
}

func (g *generator) wrapper() parser.Term {
	w := parser.RE(genWraps[g.IntN(len(genWraps))].re)
	if g.IntN(4) > 0 {
		return w
	}
	out := parser.Oneof{}
	for i := 0; i <= g.IntN(2); i++ {
		if g.IntN(2) == 0 || g.o.NoRE {
			out = append(out, parser.S(g.token()))
		} else {
			out = append(out, parser.RE(g.o.Regexps[g.IntN(len(g.o.Regexps))].re))
		}
	}
	return append(out, w)
}

func (g *generator) grammar(scope *genScope) parser.Grammar {
	gr := parser.Grammar{}
	for i := len(scope.rules) - 1; i >= 0; i-- {
		ru := scope.rules[i]
		g.bound = nil
		big := g.big
		if big > 0 && g.IntN(i+1) == 0 {
			g.big = 0
		} else {
			big = 0
		}
		if big == 1 && g.o.NoStack {
			big = 2
		}
		if big > 1 {
			gr[ru.name], ru.nullable = g.bigTerm(big, scope), big == 4
		} else if !g.o.NoStack && g.IntN(6) == 0 || big == 1 {
			gr[ru.name] = g.stack(ru, scope, big == 1)
		} else {
			gr[ru.name], ru.nullable = g.term(g.o.Depth, scope, false, true)
		}
		ru.done = true
	}
	return gr
}

func (g *generator) token() string {
	if !g.o.NoEmptyTok && g.IntN(40) == 0 {
		return ""
	}
	return g.o.Tokens[g.IntN(len(g.o.Tokens))]
}

// bigTerm makes a choice with very many options or a sequence of very many items.
func (g *generator) bigTerm(kind int, scope *genScope) parser.Term {
	if kind == 2 {
		var out parser.Oneof
		for i, n := 0, 100+g.IntN(200); i < n; i++ {
			t := parser.Term(parser.S(fmt.Sprintf("%c%c", 'a'+i/26, 'a'+i%26)))
			switch g.IntN(30) {
			case 0:
				if u, null := g.term(1, scope, false, false); !null {
					t = u
				}
			case 1:
				t = parser.Seq{t, parser.S(g.token())}
			case 2:
				if !g.o.NoNames {
					t = parser.Named{Name: g.name(), Term: t}
				}
			}
			out = append(out, t)
		}
		return out
	}
	if kind == 4 {
		t := parser.Term(parser.S(g.nonEmptyToken()))
		quant := false
		for i, n := 0, 20+g.IntN(60); i < n; i++ {
			k := g.IntN(8)
			switch {
			case k < 5 && !(quant && g.o.NoNestedQuant):
				t = []parser.Term{parser.Opt(t), parser.Any(t), parser.Some(t), parser.Quant{Term: t, Max: 1 << 32}}[g.IntN(4)]
				if q := t.(parser.Quant); q.Max > 1 && g.o.NoBounded {
					t = parser.Any(q.Term)
				}
				quant = true
				continue
			case k == 5 && !g.o.NoNames:
				if _, ok := t.(parser.Named); !ok {
					t = parser.Named{Name: g.name(), Term: t}
				}
				continue
			case k == 6 && g.IntN(4) == 0:
				t = parser.Seq{t, parser.S(g.nonEmptyToken())}
			case k == 7 && g.IntN(4) == 0:
				t = parser.Oneof{parser.S(g.nonEmptyToken()), t}
			default:
				continue
			}
			quant = false
		}
		return t
	}
	out := parser.Seq{parser.S("a")}
	for i, n := 0, 10+g.IntN(130); i < n; i++ {
		t := parser.Term(parser.S(g.o.Tokens[g.IntN(len(g.o.Tokens))]))
		if g.IntN(10) == 0 {
			t = parser.Opt(t)
		}
		out = append(out, t)
	}
	return out
}

// stack makes a precedence stack like @:"+" > @:"*" > "(" @ ")" | atom.
func (g *generator) stack(ru *genRule, scope *genScope, deep bool) parser.Term {
	n := 2 + g.IntN(2)
	if deep {
		n = 9 + g.IntN(6)
	}
	var out parser.Stack
	ops := g.Perm(len(g.o.Tokens))
	for i := 0; i < n-1; i++ {
		var sep parser.Term
		if i < len(ops) {
			sep = parser.S(g.o.Tokens[ops[i]])
		} else {
			sep = parser.S(fmt.Sprintf("o%c", 'a'+i))
		}
		if g.IntN(4) == 0 && i+1 < len(ops) {
			sep = parser.Oneof{sep, parser.S(g.o.Tokens[ops[len(ops)-1-i]])}
		}
		if !g.o.NoNames && g.IntN(2) == 0 {
			sep = parser.Named{Name: g.name(), Term: sep}
		}
		at := parser.Term(parser.At)
		switch g.IntN(5) {
		case 0, 1, 2:
			if g.o.NoDelim {
				out = append(out, parser.Seq{at, parser.Any(parser.Seq{sep, at})})
				continue
			}
			d := parser.Delim{Term: at, Sep: sep}
			if !g.o.NoAssoc {
				d.Assoc = parser.Associativity(g.IntN(3) - 1)
			}
			if !g.o.NoOptSep && g.IntN(6) == 0 {
				d.CanEndWithSep = true
			}
			out = append(out, d)
		case 3:
			out = append(out, parser.Seq{at, parser.Opt(parser.Seq{sep, at})})
		case 4:
			out = append(out, parser.Seq{parser.Opt(sep), at})
		}
	}
	if g.o.MoreScopes && g.scopes < 8 && !g.o.NoRecursion && g.IntN(2) == 0 {
		// The last level or another has rules of its own, which may refer to the next level.
		i := g.IntN(n)
		inner, gr := g.localRules(&genScope{parent: scope, at: ru})
		if i < n-1 {
			out[i] = parser.ScopedGrammar{Term: out[i], Grammar: gr}
		} else {
			t, null := g.term(1, inner, false, false)
			if null {
				t = parser.Seq{parser.S("["), t}
			}
			return append(out, parser.ScopedGrammar{Term: parser.Oneof{
				parser.Seq{parser.S("("), parser.At, parser.S(")")}, t, parser.S(g.nonEmptyToken())}, Grammar: gr})
		}
	}
	last := parser.Oneof{parser.S(g.nonEmptyToken())}
	if !g.o.NoRE {
		last[0] = parser.RE(`\d+`)
	}
	if !g.o.NoRecursion {
		last = append(last, parser.Seq{parser.S("("), parser.At, parser.S(")")})
	}
	if g.IntN(2) == 0 {
		layer := scope
		if g.o.MoreScopes {
			layer = &genScope{parent: scope, at: ru}
		}
		t, nullable := g.term(1, layer, false, false)
		if !nullable {
			last = append(last, t)
		}
	}
	ru.nullable = false
	if len(last) == 1 {
		return append(out, last[0])
	}
	return append(out, last)
}

func (g *generator) nonEmptyToken() string {
	for {
		if t := g.o.Tokens[g.IntN(len(g.o.Tokens))]; t != "" {
			return t
		}
	}
}

func (g *generator) name() string {
	if g.o.DistinctNames {
		g.names++
		return fmt.Sprintf("n%d", g.names)
	}
	return genNames[g.IntN(len(genNames))]
}

func reNullable(re string) bool {
	return regexp.MustCompile(`\A(?:`+re+`)\z`).MatchString("") || strings.Contains(re, `\b`)
}

func (g *generator) atom(scope *genScope, safe bool) (parser.Term, bool) {
	for try := 0; try < 8; try++ {
		k := g.IntN(10)
		if g.o.MoreRefs && g.IntN(4) == 0 {
			k = 8
		}
		switch k {
		case 0, 1, 2:
			t := g.token()
			return parser.S(t), t == ""
		case 3, 4:
			if g.o.NoRE {
				continue
			}
			re := g.o.Regexps[g.IntN(len(g.o.Regexps))].re
			return parser.RE(re), reNullable(re)
		case 5, 6, 7:
			rules := scope.visible()
			r := rules[g.IntN(len(rules))]
			if r.done {
				return r.name, r.nullable
			}
			if !safe || g.o.NoRecursion {
				continue
			}
			if scope.at != nil && g.IntN(3) == 0 {
				return parser.At, false
			}
			return r.name, true
		case 8:
			if g.o.Refs && len(g.bound) > 0 {
				ref := parser.REF{Ident: g.bound[g.IntN(len(g.bound))]}
				if g.IntN(3) == 0 {
					ref.Default = parser.S(g.token())
				}
				return ref, true
			}
			if g.o.Refs && g.IntN(4) == 0 {
				ref := parser.REF{Ident: genNames[g.IntN(len(genNames))]}
				if g.IntN(2) == 0 {
					ref.Default = parser.S(g.token())
				}
				return ref, true
			}
			if len(g.o.Exts) > 0 {
				return parser.ExtRef(g.o.Exts[g.IntN(len(g.o.Exts))]), true
			}
		case 9:
			if !g.o.NoEmptySeq && g.IntN(6) == 0 {
				return parser.Seq{}, true
			}
		}
	}
	t := g.nonEmptyToken()
	return parser.S(t), false
}

// term makes a term. safe says that something was consumed before it since its rule began.
func (g *generator) term(depth int, scope *genScope, safe, whole bool) (parser.Term, bool) {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		return g.atom(scope, safe)
	}
	for {
		if g.o.MoreScopes && g.scopes < 8 && g.IntN(6) == 0 {
			return g.scopedTerm(depth, scope, safe)
		}
		switch g.IntN(16) {
		case 0, 1:
			return g.atom(scope, safe)
		case 2, 3, 4, 5:
			n := 2 + g.IntN(3)
			if g.o.NoEmptyTok {
				n = 2 + g.IntN(2)
			}
			seq := parser.Seq{}
			nullable := true
			used := map[string]bool{}
			bound := len(g.bound)
			safe := safe
			for i := 0; i < n; i++ {
				t, null := g.term(depth-1, scope, safe, false)
				if named, ok := baseNamed(t); ok {
					if used[named] {
						continue
					}
					used[named] = true
				}
				seq = append(seq, t)
				if g.o.Refs {
					if id := refIdent(t); id != "" && id != "@" {
						g.bound = append(g.bound, id)
					}
				}
				if !null {
					nullable = false
					safe = true
				}
			}
			g.bound = g.bound[:bound]
			if len(seq) < 2 {
				continue
			}
			return seq, nullable
		case 6, 7, 8:
			n := 2 + g.IntN(3)
			var out parser.Oneof
			nullable := false
			for i := 0; i < n; i++ {
				t, null := g.term(depth-1, scope, safe, false)
				out = append(out, t)
				nullable = nullable || null
			}
			return out, nullable
		case 9, 10:
			t, null := g.term(depth-1, scope, safe, false)
			if g.o.NoNestedQuant {
				switch x := t.(type) {
				case parser.Quant, parser.Delim:
					continue
				case parser.Named:
					_ = x
				}
			}
			switch k := g.IntN(8); {
			case k < 2:
				return parser.Opt(t), true
			case k < 4:
				return parser.Any(t), true
			case k < 6 || g.o.NoBounded:
				return parser.Some(t), null
			}
			min := g.IntN(3)
			max := min + g.IntN(3)
			if min == 0 && max == 0 {
				max = 2
			}
			switch g.IntN(12) {
			case 0, 1, 2:
				max = 0
			case 3:
				max = 1 << (8 + g.IntN(25))
			}
			return parser.Quant{Term: t, Min: min, Max: max}, min == 0 || null
		case 11, 12:
			if g.o.NoDelim {
				continue
			}
			t, null := g.term(depth-1, scope, safe, false)
			// The separator may come after nothing at all if the term is nullable.
			d := parser.Delim{Term: t}
			if !g.o.NoAssoc && g.IntN(2) == 0 {
				d.Assoc = parser.Associativity(g.IntN(3) - 1)
			}
			if d.Assoc != 0 && g.o.AST && g.IntN(2) == 0 { // Of a list like it.
				d.Term = listLike(d)
			}
			if !g.o.NoOptSep {
				d.CanStartWithSep = g.IntN(5) == 0
				d.CanEndWithSep = g.IntN(5) == 0
			}
			if g.o.AST && d.Assoc != 0 {
				d.Term = endless(d.Term, 0)
			}
			sepSafe := safe || !null && !d.CanStartWithSep
			if g.IntN(3) > 0 {
				d.Sep = parser.S(g.nonEmptyToken())
			} else {
				d.Sep, _ = g.term(depth-2, scope, sepSafe, false)
				switch d.Sep.(type) {
				case parser.Quant, parser.Delim:
					// needs parentheses; fine
				}
			}
			if !g.o.NoNames && g.IntN(3) == 0 {
				if _, ok := d.Sep.(parser.Named); !ok {
					d.Sep = parser.Named{Name: g.name(), Term: d.Sep}
				}
			}
			return d, null
		case 13, 14:
			if g.o.NoNames {
				continue
			}
			t, null := g.term(depth-1, scope, safe, false)
			if _, ok := t.(parser.Named); ok {
				return t, null
			}
			name := g.name()
			return parser.Named{Name: name, Term: t}, null
		case 15:
			switch {
			case g.o.Scoped && g.scopes < 3 && g.IntN(2) == 0:
				return g.scopedTerm(depth, scope, safe)
			case !g.o.NoLook:
				t, _ := g.term(depth-2, scope, safe, false)
				look := parser.LookAhead{Term: t}
				if g.IntN(2) == 0 {
					return parser.Seq{look, stripNames(t)}, true
				}
				return look, true
			}
		}
	}
}

// localRules makes the rules of a scoped grammar.
func (g *generator) localRules(scope *genScope) (*genScope, parser.Grammar) {
	g.scopes++
	inner := &genScope{parent: scope, at: scope.at}
	n := 1 + g.IntN(2)
	if g.o.MoreScopes {
		n = 1 + g.IntN(3)
	}
	pool := len(genRuleNames)
	if g.o.MoreScopes {
		pool = 6
	}
	for _, i := range g.Perm(pool) {
		// A rule named like the stack around it would capture @ (see known-findings.json).
		name := parser.Rule(genRuleNames[i])
		if len(inner.rules) < n && (inner.at == nil || inner.at.name != name) {
			inner.rules = append(inner.rules, &genRule{name: name})
		}
	}
	prev := g.bound
	gr := g.grammar(inner)
	g.bound = prev
	// A local rule that merely names one from outside takes the other's tag (see known-findings.json).
	for _, name := range sortedRules(gr) {
		t := gr[parser.Rule(name)]
		for x, bare := aliasOf(t); bare; x, bare = aliasOf(t) {
			_, local := gr[x]
			walkTerm(t, func(t parser.Term) {
				if _, scoped := t.(parser.ScopedGrammar); scoped {
					local = false // x may be a rule of an inner one
				}
			})
			if !local && g.o.OuterAlias {
				break
			}
			if !local || !g.o.MoreScopes {
				gr[parser.Rule(name)] = parser.Seq{gr[parser.Rule(name)], parser.S(g.token())}
				break
			}
			t = gr[x]
		}
	}
	return inner, gr
}

func (g *generator) scopedTerm(depth int, scope *genScope, safe bool) (parser.Term, bool) {
	inner, gr := g.localRules(scope)
	t, null := g.term(depth-1, inner, safe, false)
	if g.o.Wrap && g.IntN(3) == 0 {
		gr[".wrapRE"] = g.wrapper()
	}
	return parser.ScopedGrammar{Term: t, Grammar: gr}, null
}

// listLike returns the operand of d with any list in it associative like d.
func listLike(d parser.Delim) parser.Term {
	var like func(parser.Term) parser.Term
	like = func(t parser.Term) parser.Term {
		switch x := t.(type) {
		case parser.Delim:
			x.Assoc, x.Term = d.Assoc, like(x.Term)
			return x
		case parser.ScopedGrammar:
			x.Term = like(x.Term)
			return x
		case parser.CutPoint:
			return parser.CutPoint{Term: like(x.Term)}
		case parser.Named:
			x.Term = like(x.Term)
			return x
		}
		return t
	}
	return like(d.Term)
}

// endless takes the optional separators at the ends from the lists of lists in
// t, as a tree does not tell which of three lists, one in the other, has them.
func endless(t parser.Term, depth int) parser.Term {
	switch x := t.(type) {
	case parser.Delim:
		x.Term = endless(x.Term, depth+1)
		if isList(x.Term) || depth > 0 {
			x.CanStartWithSep, x.CanEndWithSep = false, false
		}
		return x
	case parser.ScopedGrammar:
		x.Term = endless(x.Term, depth)
		return x
	case parser.CutPoint:
		return parser.CutPoint{Term: endless(x.Term, depth)}
	case parser.Named:
		x.Term = endless(x.Term, depth)
		return x
	}
	return t
}

func isList(t parser.Term) bool {
	switch x := t.(type) {
	case parser.Delim:
		return true
	case parser.ScopedGrammar:
		return isList(x.Term)
	case parser.CutPoint:
		return isList(x.Term)
	case parser.Named:
		return isList(x.Term)
	}
	return false
}

// stripNames lets a term occur a second time in a sequence.
func stripNames(t parser.Term) parser.Term {
	if n, ok := t.(parser.Named); ok {
		return n.Term
	}
	return t
}

// aliasOf tells whether a production amounts to the mere name of a rule.
func aliasOf(t parser.Term) (parser.Rule, bool) {
	for {
		switch x := t.(type) {
		case parser.Named:
			t = x.Term
		case parser.ScopedGrammar:
			t = x.Term
		case parser.Rule:
			return x, true
		default:
			return "", false
		}
	}
}

// baseNamed is the name that counts for the uniqueness of names in a sequence.
func baseNamed(t parser.Term) (string, bool) {
	for {
		switch x := t.(type) {
		case parser.Named:
			return x.Name, true
		case parser.Quant:
			t = x.Term
		case parser.Delim:
			t = x.Term
		default:
			return "", false
		}
	}
}

// -----------------------------------------------------------------------------
// Inputs

type deriver struct {
	*rand.Rand
	samples map[string][]string
	budget  int
	wraps   map[string][2][]string
	exts    map[string][]string // what external references consume
	escapes []string            // what may stand in for a term
	sparse  bool                // few repetitions
	long    bool                // some very long ones
}

func newDeriver(r *rand.Rand, o GenOpts) *deriver {
	d := &deriver{Rand: r, samples: map[string][]string{}, wraps: map[string][2][]string{}}
	for _, re := range defaultRegexps {
		d.samples[re.re] = re.samples
	}
	for _, re := range o.Regexps {
		d.samples[re.re] = re.samples
	}
	for _, w := range genWraps {
		d.wraps[w.re] = [2][]string{w.pre, w.post}
	}
	return d
}

type deriveFail struct{}

// Derive makes a text that a rule might match. ok is false if none was found.
func (d *deriver) Derive(g parser.Grammar, rule parser.Rule) (s string, ok bool) {
	for try := 0; try < 4; try++ {
		d.budget = 300
		depth := 14
		d.sparse, d.long = false, false
		switch d.IntN(12) {
		case 0:
			d.sparse, depth = true, 40
		case 1:
			d.long = true
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(deriveFail); !is {
						panic(x)
					}
				}
			}()
			env := newRefEnv(g, nil)
			e := env.lookup(rule)
			var sb strings.Builder
			d.term(&sb, e.term, e.env, map[string]string{}, depth)
			s, ok = sb.String(), true
		}()
		if ok && len(s) < 400 {
			return s, true
		}
	}
	return "", false
}

func (d *deriver) pick(s []string) string { return s[d.IntN(len(s))] }

func (d *deriver) token(sb *strings.Builder, env *refEnv, text, key string) {
	if env != nil && env.wrap != nil && !env.wrap.exempt[key] {
		w := d.wraps[env.wrap.re]
		pre, post := "", ""
		if len(w[0]) > 0 {
			pre, post = d.pick(w[0]), d.pick(w[1])
		}
		sb.WriteString(pre + text + post)
		return
	}
	sb.WriteString(text)
}

func (d *deriver) term(sb *strings.Builder, term parser.Term, env *refEnv, bound map[string]string, depth int) {
	d.budget--
	if d.budget < 0 || depth < -20 {
		panic(deriveFail{})
	}
	if len(d.escapes) > 0 && d.IntN(14) == 0 {
		sb.WriteString(d.pick(d.escapes))
		return
	}
	times := func(min, max int) int {
		hi := min + 3
		if max != 0 && hi > max {
			hi = max
		}
		if depth <= 0 || d.sparse && d.IntN(4) > 0 {
			return min
		}
		if d.long && max == 0 && d.IntN(3) == 0 {
			return min + d.IntN(40)
		}
		return min + d.IntN(hi-min+1)
	}
	switch t := term.(type) {
	case parser.S:
		d.token(sb, env, string(t), string(t))
	case parser.RE:
		ss := d.samples[string(t)]
		if len(ss) == 0 {
			panic(deriveFail{})
		}
		d.token(sb, env, d.pick(ss), string(t))
	case parser.CutPoint:
		d.term(sb, t.Term, env, bound, depth)
	case parser.Named:
		d.term(sb, t.Term, env, bound, depth)
	case parser.Rule:
		e := env.lookup(t)
		if e == nil {
			panic(deriveFail{})
		}
		d.term(sb, e.term, e.env, bound, depth-1)
	case parser.ScopedGrammar:
		d.term(sb, t.Term, newRefEnv(t.Grammar, env), bound, depth)
	case parser.Seq:
		b := map[string]string{}
		for k, v := range bound {
			b[k] = v
		}
		for _, x := range t {
			start := sb.Len()
			d.term(sb, x, env, b, depth-1)
			if id := refIdent(x); id != "" {
				b[id] = strings.TrimSpace(sb.String()[start:])
			}
		}
	case parser.Oneof:
		i := d.IntN(len(t))
		if depth <= 0 {
			// Prefer what looks smallest.
			best := 1 << 30
			for j, x := range t {
				if w := weight(x); w < best {
					best, i = w, j
				}
			}
		}
		d.term(sb, t[i], env, bound, depth-1)
	case parser.LookAhead:
		if d.IntN(3) == 0 { // sometimes what it asks for, in case nothing else provides it
			d.term(sb, t.Term, env, bound, depth-1)
		}
	case parser.Quant:
		for i, n := 0, times(t.Min, t.Max); i < n; i++ {
			d.term(sb, t.Term, env, bound, depth-2)
		}
	case parser.Delim:
		if t.CanStartWithSep && d.IntN(3) == 0 {
			d.term(sb, t.Sep, env, bound, depth-2)
		}
		d.term(sb, t.Term, env, bound, depth-1)
		for i, n := 0, times(0, 0)+d.IntN(2); i < n; i++ {
			d.term(sb, t.Sep, env, bound, depth-2)
			d.term(sb, t.Term, env, bound, depth-2)
		}
		if t.CanEndWithSep && d.IntN(3) == 0 {
			d.term(sb, t.Sep, env, bound, depth-2)
		}
	case parser.REF:
		if v, ok := bound[t.Ident]; ok {
			sb.WriteString(v)
		} else if t.Default != nil {
			sb.WriteString(string(t.Default.(parser.S)))
		}
	case parser.ExtRef:
		if ss := d.exts[string(t)]; len(ss) > 0 {
			sb.WriteString(d.pick(ss))
		} else {
			sb.WriteString("<x>")
		}
	default:
		panic(fmt.Sprintf("derive: %T", term))
	}
}

func weight(t parser.Term) int {
	switch t := t.(type) {
	case parser.S, parser.RE, parser.REF, parser.ExtRef:
		return 1
	case parser.Rule:
		return 6
	case parser.Named:
		return weight(t.Term)
	case parser.CutPoint:
		return weight(t.Term)
	case parser.ScopedGrammar:
		return weight(t.Term)
	case parser.Quant:
		return 1 + t.Min*weight(t.Term)
	case parser.Delim:
		return 1 + weight(t.Term)
	case parser.Seq:
		n := 1
		for _, x := range t {
			n += weight(x)
		}
		return n
	case parser.Oneof:
		n := 1 << 20
		for _, x := range t {
			if w := weight(x); w < n {
				n = w
			}
		}
		return n + 1
	case parser.Stack:
		return 8
	case parser.LookAhead:
		return 1
	}
	return 3
}

// Mutate changes a text a little.
func mutate(r *rand.Rand, s string, tokens []string) string {
	n := 1 + r.IntN(2)
	for i := 0; i < n; i++ {
		at := 0
		if len(s) > 0 {
			at = r.IntN(len(s) + 1)
		}
		switch r.IntN(6) {
		case 0:
			if len(s) > 0 {
				j := r.IntN(len(s))
				s = s[:j] + s[j+1:]
			}
		case 1:
			s = s[:at] + tokens[r.IntN(len(tokens))] + s[at:]
		case 2:
			s = s[:at]
		case 3:
			s += tokens[r.IntN(len(tokens))]
		case 4:
			if len(s) > 1 {
				i, j := r.IntN(len(s)), r.IntN(len(s))
				if i > j {
					i, j = j, i
				}
				s = s[:at] + s[i:j] + s[at:]
			}
		case 5:
			if len(s) > 0 {
				j := r.IntN(len(s))
				s = s[:j] + tokens[r.IntN(len(tokens))] + s[j+1:]
			}
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// Inputs makes k texts to try a rule on: derived, mutated and random ones.
func genInputs(r *rand.Rand, g parser.Grammar, rule parser.Rule, o GenOpts, k int) []string {
	tokens := o.Tokens
	if tokens == nil {
		tokens = defaultTokens
	}
	d := newDeriver(r, o)
	d.exts, d.escapes = o.ExtSamples, o.Escapes
	var out []string
	for len(out) < k {
		s, ok := d.Derive(g, rule)
		switch {
		case ok && r.IntN(10) < 6:
			out = append(out, s)
		case ok && r.IntN(8) > 0:
			out = append(out, mutate(r, s, tokens))
		default:
			s = ""
			for i, n := 0, r.IntN(6); i < n; i++ {
				s += tokens[r.IntN(len(tokens))]
			}
			out = append(out, s)
		}
	}
	return out
}

// plainRegexps are those of defaultRegexps whose token is all they match.
func plainRegexps() (out []reSample) {
	for _, re := range defaultRegexps {
		if regexp.MustCompile(re.re).NumSubexp() == 0 {
			out = append(out, re)
		}
	}
	return
}
