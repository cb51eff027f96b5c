From d8c3d26f737dabcf4c43d246eb63f21f5dfebf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:28 +0000
Subject: [PATCH 01/76] fix: quantifier parse error must not refer to itself

A failed quantifier captured its own named return value as the cause of the
error, so rendering the error recursed until the stack overflowed.
---
 parser/parser.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a1f6ff7..1d09c37 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -567,11 +567,13 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 	stk = stk.push(string(p.rule), p.AsTerm())
 
 	scope, prevcp, mycp := scope.ReplaceCutPoint(false)
+	var termErr error
 	for p.t.Max == 0 || len(result) < p.t.Max {
-		if out = p.term.Parse(scope, &start, &v, stk); out != nil {
-			if isNotMyFatalError(out, mycp) {
-				return out
+		if err := p.term.Parse(scope, &start, &v, stk); err != nil {
+			if isNotMyFatalError(err, mycp) {
+				return err
 			}
+			termErr = err
 			break
 		}
 		result = append(result, v)
@@ -582,10 +584,14 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 		return p.put(output, nil, result...)
 	}
 
+	children := []func() error{func() error { return stk }}
+	if termErr != nil {
+		children = append([]func() error{func() error { return termErr }}, children...)
+	}
 	return newParseError(p.rule,
 		"quant failed, expected: (%d, %d), have %d value(s)",
 		p.t.Min, p.t.Max, len(result),
-	)(prevcp, func() error { return out }, func() error { return stk })
+	)(prevcp, children...)
 }
 func (p *quantParser) AsTerm() Term { return p.t }
 
-- 
2.43.0


From 83b53ed6e4a29e1d2e09f6277ee3d916d4c58d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:37 +0000
Subject: [PATCH 02/76] fix: unbounded quantifier over a term matching nothing
 must terminate

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 1d09c37..67819af 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -576,6 +576,9 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			termErr = err
 			break
 		}
+		if p.t.Max == 0 && len(result) >= p.t.Min && start.Offset() == input.Offset() {
+			break // Nothing was consumed, so the term would match here forever.
+		}
 		result = append(result, v)
 		*input = start
 	}
-- 
2.43.0


From c82b3a13acd1eaf8e24eca77d08fc05173971f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 03/76] fix: numeric escapes in string literals, and reject
 malformed ones

\x, \u, \U and octal escapes were sliced one byte off and truncated to a
byte, so they panicked or denoted other text; unknown escapes panicked in
Compile. They now denote what they denote in Go, and literals that denote
no text that a regexp can match are validation errors.
---
 wbnf/compile.go    | 74 ++++++++++++++++++++++++++++++----------------
 wbnf/validation.go | 14 +++++++++
 2 files changed, 62 insertions(+), 26 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index d89e7ab..69b9540 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/ast"
 
@@ -19,11 +20,31 @@ func unfakeBackquote(s string) string {
 	return strings.ReplaceAll(s, "‵", "`")
 }
 
+// parseString returns the text denoted by a string literal, which must be valid.
 func parseString(s string) string {
+	text, err := unquote(s)
+	if err != nil {
+		panic(err)
+	}
+	return text
+}
+
+// escapeDigits gives the digits and base of the numeric escapes.
+var escapeDigits = map[byte]struct{ count, base int }{
+	'x': {2, 16},
+	'u': {4, 16},
+	'U': {8, 16},
+}
+
+func unquote(s string) (string, error) {
 	var sb strings.Builder
 	quote, s := s[0], s[1:len(s)-1]
 	if quote == '`' {
-		return strings.ReplaceAll(s, "``", "`")
+		s = strings.ReplaceAll(s, "``", "`")
+		if !utf8.ValidString(s) {
+			return "", fmt.Errorf("not UTF-8: %q", s)
+		}
+		return s, nil
 	}
 	for i := 0; i < len(s); i++ {
 		c := s[i]
@@ -31,34 +52,31 @@ func parseString(s string) string {
 		case '\\':
 			i++
 			switch s[i] {
-			case 'x':
-				n, err := strconv.ParseInt(s[i:i+2], 16, 8)
-				if err != nil {
-					panic(err)
+			case 'x', 'u', 'U', '0', '1', '2', '3', '4', '5', '6', '7':
+				start, digits := i+1, escapeDigits[s[i]]
+				if digits.count == 0 {
+					start, digits.count, digits.base = i, 3, 8
 				}
-				sb.WriteByte(uint8(n))
-				i++
-			case 'u':
-				n, err := strconv.ParseInt(s[i:i+4], 16, 16)
-				if err != nil {
-					panic(err)
+				end := start + digits.count
+				if end > len(s) {
+					return "", fmt.Errorf("incomplete \\-escape: %q", s[i-1:])
 				}
-				sb.WriteByte(uint8(n))
-				i += 2
-			case 'U':
-				n, err := strconv.ParseInt(s[i:i+8], 16, 32)
+				n, err := strconv.ParseUint(s[start:end], digits.base, 32)
 				if err != nil {
-					panic(err)
+					return "", fmt.Errorf("invalid \\-escape: %q", s[i-1:end])
 				}
-				sb.WriteByte(uint8(n))
-				i += 4
-			case '0', '1', '2', '3', '4', '5', '6', '7':
-				n, err := strconv.ParseInt(s[i:i+3], 8, 8)
-				if err != nil {
-					panic(err)
+				switch {
+				case digits.count > 3:
+					if !utf8.ValidRune(rune(n)) {
+						return "", fmt.Errorf("invalid \\-escape: %q", s[i-1:end])
+					}
+					sb.WriteRune(rune(n))
+				case n > 0xff:
+					return "", fmt.Errorf("invalid \\-escape: %q", s[i-1:end])
+				default:
+					sb.WriteByte(uint8(n))
 				}
-				sb.WriteByte(uint8(n))
-				i++
+				i = end - 1
 			case 'a':
 				sb.WriteByte('\a')
 			case 'b':
@@ -80,13 +98,17 @@ func parseString(s string) string {
 			case quote:
 				sb.WriteByte(quote)
 			default:
-				panic(fmt.Errorf("unrecognized \\-escape: %q", s[i]))
+				return "", fmt.Errorf("unrecognized \\-escape: %q", s[i])
 			}
 		default:
 			sb.WriteByte(c)
 		}
 	}
-	return sb.String()
+	text := sb.String()
+	if !utf8.ValidString(text) {
+		return "", fmt.Errorf("not UTF-8: %q", text)
+	}
+	return text, nil
 }
 
 var whitespaceRE = regexp.MustCompile(`\s`)
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 80995c5..697dc97 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -75,6 +75,7 @@ const (
 	PossibleCycleDetected
 	NotAMacro
 	IncorrectMacroArgCount
+	InvalidString
 )
 
 type validationError struct {
@@ -112,6 +113,7 @@ func (v *validator) walk(node IsWalkableType) {
 		EnterTermNode:           v.validateTerm,
 		EnterPragmaMacrodefNode: v.validateMacro,
 		EnterMacrocallNode:      v.validateMacroCall,
+		EnterStrNode:            v.validateString,
 	}
 	ops.Walk(node)
 }
@@ -173,6 +175,18 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 	return nil
 }
 
+func (v *validator) validateString(tree StrNode) Stopper {
+	if _, err := unquote(tree.String()); err != nil {
+		v.err = append(v.err, validationError{
+			s:    tree.Scanner(),
+			msg:  "string %s is not valid, %s",
+			kind: InvalidString,
+			args: []any{err},
+		})
+	}
+	return nil
+}
+
 func (v *validator) validateQuant(tree QuantNode) Stopper {
 	switch tree.Choice() {
 	case 0:
-- 
2.43.0


From 683b7ec8b6b743feb26c1a16f63a1099fee56d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:53 +0000
Subject: [PATCH 04/76] fix: regexps with several or non-participating capture
 groups

EatRegexp counted captures it had not set, so eatRegexp indexed out of
range, and a group outside the match yielded a scanner over nothing real.
---
 parser/parser.go  | 3 +++
 parser/scanner.go | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 67819af..dd219db 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -197,6 +197,9 @@ func eatRegexp(input *Scanner, re *regexp.Regexp, output *TreeElement) bool {
 	var eaten [2]Scanner
 	if n, ok := input.EatRegexp(re, nil, eaten[:]); ok {
 		*output = eaten[n-1]
+		if eaten[n-1].IsNil() {
+			*output = eaten[0]
+		}
 		return true
 	}
 	return false
diff --git a/parser/scanner.go b/parser/scanner.go
index eb6334f..600db03 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -196,7 +196,12 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 		if len(captures) > n {
 			captures = captures[:n]
 		}
+		n = len(captures)
 		for i := range captures {
+			if loc[2*i] < 0 { // The group took no part in the match.
+				captures[i] = Scanner{}
+				continue
+			}
 			captures[i] = *s.Slice(loc[2*i], loc[2*i+1])
 		}
 
-- 
2.43.0


From 9c776538db79d7529949b2f6f187c44538331a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 05/76] fix: validate the regexp that will be compiled

Validation compiled the source text of a regexp literal, including its /{}
and its insignificant whitespace, so it let through regexps that panic in
Compile and rejected some good ones.
---
 wbnf/compile.go    | 21 +++++++++++++--------
 wbnf/validation.go |  7 ++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 69b9540..67eb2fc 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -114,6 +114,18 @@ func unquote(s string) (string, error) {
 var whitespaceRE = regexp.MustCompile(`\s`)
 var escapedSpaceRE = regexp.MustCompile(`((?:\A|[^\\])(?:\\\\)*)\\_`)
 
+// parseRegexp returns the regexp denoted by a regexp literal.
+func parseRegexp(name string) string {
+	s := whitespaceRE.ReplaceAllString(name, "")
+	// Do this twice to cover adjacent escaped spaces `\_\_`.
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
+	if strings.HasPrefix(s, "/{") {
+		s = s[2 : len(s)-1]
+	}
+	return s
+}
+
 type grammarBuilder struct {
 	macros map[string]PragmaMacrodefNode
 }
@@ -152,14 +164,7 @@ func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
 	case "STR":
 		return parser.S(parseString(name))
 	case "RE":
-		s := whitespaceRE.ReplaceAllString(name, "")
-		// Do this twice to cover adjacent escaped spaces `\_\_`.
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		s = escapedSpaceRE.ReplaceAllString(s, "$1 ")
-		if strings.HasPrefix(s, "/{") {
-			s = s[2 : len(s)-1]
-		}
-		return parser.RE(s)
+		return parser.RE(parseRegexp(name))
 	case "REF":
 		refNode := atom.OneRef()
 		ref := parser.REF{
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 697dc97..b506400 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -163,7 +163,12 @@ func (v *validator) validateAtom(tree AtomNode) Stopper {
 			}
 		}
 	} else if x := tree.OneRe(); x != nil {
-		if _, err := regexp.Compile(x.String()); err != nil {
+		re := parseRegexp(x.String())
+		_, err := regexp.Compile(re)
+		if err == nil { // The parser will parenthesise it.
+			_, err = regexp.Compile("(" + re + ")")
+		}
+		if err != nil {
 			v.err = append(v.err, validationError{
 				s:    tree.OneRe().Scanner(),
 				msg:  "regex '%s' is not valid, %s",
-- 
2.43.0


From 3db0519169ce0579f95bbe24069a95a15dff11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:33 +0000
Subject: [PATCH 06/76] fix: reject a .wrapRE that cannot wrap anything

A .wrapRE that is neither a regexp with a () in it nor a choice ending in one
passed validation and panicked in Compile or in the first Parse.
---
 wbnf/validation.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index b506400..89f495e 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strconv"
+	"strings"
 
 	"github.com/arr-ai/frozen"
 
@@ -76,6 +77,7 @@ const (
 	NotAMacro
 	IncorrectMacroArgCount
 	InvalidString
+	InvalidWrapRE
 )
 
 type validationError struct {
@@ -107,6 +109,7 @@ type validator struct {
 
 func (v *validator) walk(node IsWalkableType) {
 	ops := WalkerOps{
+		EnterProdNode:           v.validateProd,
 		EnterAtomNode:           v.validateAtom,
 		EnterQuantNode:          v.validateQuant,
 		EnterNamedNode:          v.validateNamed,
@@ -122,6 +125,48 @@ func (v *validator) Error() string {
 	return fmt.Sprint(v.err)
 }
 
+func (v *validator) validateProd(tree ProdNode) Stopper {
+	if ident := tree.OneIdent(); ident.String() == string(parser.WrapRE) {
+		if terms := tree.AllTerm(); len(terms) != 1 || !endsInWrapper(terms[0]) {
+			v.err = append(v.err, validationError{s: ident.Scanner(),
+				msg: "'%s' must be a regex containing (), or a choice that ends with one", kind: InvalidWrapRE})
+		}
+	}
+	return nil
+}
+
+// endsInWrapper returns true iff the term is a regexp that contains (), or a
+// choice whose last option is one.
+func endsInWrapper(tree TermNode) bool {
+	for isChoice := false; ; {
+		terms := tree.AllTerm()
+		switch {
+		case len(tree.AllGrammar()) != 0:
+			return false
+		case len(terms) == 1:
+			tree = terms[0]
+		case len(terms) > 1 && tree.OneOp() == "|" && !isChoice:
+			isChoice = true
+			tree = terms[len(terms)-1]
+		case len(terms) > 1 || len(tree.AllQuant()) > 0 || tree.OneNamed().OneIdent() != nil:
+			return false
+		default:
+			atom := tree.OneNamed().OneAtom()
+			if term := atom.OneTerm(); term != nil {
+				tree = *term
+				continue
+			}
+			if atom.OneRe() == nil {
+				return false
+			}
+			text := parseRegexp(atom.OneRe().String())
+			re, err := regexp.Compile(text)
+			// validateAtom reports regexps that don't compile.
+			return err != nil || strings.Contains(text, "()") && re.NumSubexp() > 0
+		}
+	}
+}
+
 func (v *validator) validateTerm(tree TermNode) Stopper {
 	if len(tree.AllGrammar()) != 0 {
 		//fixme: This doesnt work for scoped grammars yet, abort!
-- 
2.43.0


From 56781c9b6d2add4938f0176adb8bd7d1a96da926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:32 +0000
Subject: [PATCH 07/76] fix: count stack levels and the stack's rule as one AST
 name

A stack layer that uses both @ and the name of its own rule put two One
children under one name, which panicked in FromParserNode.
---
 ast/counter.go         | 3 ++-
 ast/from_parsernode.go | 2 +-
 ast/node.go            | 7 +++++++
 ast/to_parsernode.go   | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index 3bb31a0..5a8f2c1 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -99,7 +99,8 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.S, parser.RE:
 		ctrs.count("", parent)
 	case parser.Rule:
-		ctrs.count(string(t), parent)
+		// All the levels of a stack go by the same name in the AST.
+		ctrs.count(unlevelName(string(t)), parent)
 	case parser.Seq:
 		for _, child := range t {
 			ctrs.termCountChildren(child, parent)
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f247f80..623eb8b 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -133,7 +133,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		// 	// TODO: zeroOrOne
 		// }
 		node = node.collapse(level)
-		b.add(unleveled, node, ctrs[string(t)])
+		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
 		gcopy := g
 		for rule, terms := range t.Grammar {
diff --git a/ast/node.go b/ast/node.go
index 46b9c30..382a8df 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -106,6 +106,13 @@ func (e Extra) collapse(level int) Node {
 
 var stackLevelRE = regexp.MustCompile(`^(\w+)@(\d+)$`)
 
+func unlevelName(name string) string {
+	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
+		return m[1]
+	}
+	return name
+}
+
 func unlevel(name string, g parser.Grammar) (string, int) {
 	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
 		i, err := strconv.Atoi(m[2])
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 04a334d..2f0bac3 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -86,7 +86,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		name := string(t)
 		term := g[t]
 		unleveled, level := unlevel(name, g)
-		if node := b.pull(unleveled, ctrs[name]); node != nil {
+		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
 			}
-- 
2.43.0


From a851fa3300527b6bed02d36ff5fc69a89af78b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 08/76] fix: tell the operands of an associative delimiter from
 its nested nodes

FromParserNode compared terms with ==, which panics for sequences and choices,
took every node on the nesting side for a nested one, and clashed with stack
operands of the same name. Unparse failed on the innermost operand.
---
 ast/from_parsernode.go | 16 ++++++++--------
 parser/parser.go       | 26 ++++++++++++++++++--------
 parser/unparse.go      |  6 +++++-
 3 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 623eb8b..b66f0e4 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -158,15 +158,15 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 			if _, ok := child.(parser.Empty); ok {
 				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
 			} else {
-				if lrTerm == t {
-					if _, ok := child.(parser.Node); ok {
-						childCtrs := newCounters(lrTerm)
-						b2 := Branch{}
-						childCtrs.termCountChildren(t, ctrs[""])
-						b2.fromParserNode(g, lrTerm, childCtrs, child)
-						b.one(tag, b2)
+				if t.IsNested(node, i) {
+					childCtrs := newCounters(t)
+					b2 := Branch{}
+					childCtrs.termCountChildren(t, ctrs[""])
+					b2.fromParserNode(g, t, childCtrs, child)
+					if ctr, has := ctrs[tag]; has { // Operands go by the same name.
+						b.add(tag, b2, ctr)
 					} else {
-						b.fromParserNode(g, t.Term, ctrs, child)
+						b.one(tag, b2)
 					}
 				} else {
 					b.fromParserNode(g, lrTerm, ctrs, child)
diff --git a/parser/parser.go b/parser/parser.go
index dd219db..f44d1e7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -503,14 +503,24 @@ func (l *LRTGen) Next() Term {
 }
 
 func (t Delim) LRTerms(node Node) LRTGen {
-	associativity := node.Extra.(Associativity)
-	switch {
-	case associativity < 0:
-		return LRTGen{sides: [2]Term{t.Term, t}, sep: t.Sep}
-	case associativity > 0:
-		return LRTGen{sides: [2]Term{t, t.Term}, sep: t.Sep}
-	}
-	return LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
+	gen := LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
+	for i := range node.Children {
+		if t.IsNested(node, i) {
+			gen.sides[i/2%2] = t
+		}
+	}
+	return gen
+}
+
+// IsNested returns true iff the i'th child of a node, which the delimiter
+// produced, is itself such a node, i.e. not an operand of the delimiter.
+func (t Delim) IsNested(node Node, i int) bool {
+	switch assoc := node.Extra.(Associativity); {
+	case assoc > 0 && i == 0, assoc < 0 && i == len(node.Children)-1:
+		child, ok := node.Children[i].(Node)
+		return ok && child.Tag == node.Tag && child.Extra == node.Extra
+	}
+	return false
 }
 
 //-----------------------------------------------------------------------------
diff --git a/parser/unparse.go b/parser/unparse.go
index 529e085..4cbabca 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -47,7 +47,11 @@ func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 	node := e.(Node)
 	tgen := t.LRTerms(node)
 	for _, child := range node.Children {
-		if err = unparse(g, tgen.Next(), child, w, &n); err != nil {
+		term := tgen.Next()
+		if _, ok := child.(Empty); ok {
+			continue
+		}
+		if err = unparse(g, term, child, w, &n); err != nil {
 			return
 		}
 	}
-- 
2.43.0


From 53bc6ff49c1ecf56442dac453a85d99e23bbe095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:45 +0000
Subject: [PATCH 09/76] fix: a production may be a mere name for another rule

a -> x=b; panicked in Parse, and the tree of a -> x=(...); was tagged x, for
which FromParserNode found no rule.
---
 parser/parser.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f44d1e7..3c301ab 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -93,6 +93,24 @@ func (g Grammar) resolveStacks() {
 	}
 }
 
+// resolveAlias returns the term that a production amounts to, given that it
+// might merely name (a name for) another rule.
+func (g Grammar) resolveAlias(term Term) Term {
+	for {
+		switch t := term.(type) {
+		case Named:
+			term = t.Term
+			continue
+		case Rule:
+			if aliased, has := g[t]; has {
+				term = aliased
+				continue
+			}
+		}
+		return term
+	}
+}
+
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
@@ -110,15 +128,7 @@ func (g Grammar) Compile(node any) Parsers {
 		rulePtrses: map[Rule][]*Parser{},
 	}
 	for rule, term := range g {
-		for {
-			switch r := term.(type) {
-			case Rule:
-				term = g[r]
-				continue
-			}
-			break
-		}
-		c.parsers[rule] = term.Parser(rule, c)
+		c.parsers[rule] = g.resolveAlias(term).Parser(rule, c)
 	}
 
 	for rule, rulePtrs := range c.rulePtrses {
@@ -782,15 +792,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 		rulePtrses: map[Rule][]*Parser{},
 	}
 	for rule, term := range t.Grammar {
-		for {
-			switch r := term.(type) {
-			case Rule:
-				term = t.Grammar[r]
-				continue
-			}
-			break
-		}
-		cc.parsers[rule] = term.Parser(rule, cc)
+		cc.parsers[rule] = t.Grammar.resolveAlias(term).Parser(rule, cc)
 	}
 
 	// At this point we have the nested grammar cache populated with the grammar rules
-- 
2.43.0


From cf4e5448ae62820a67b4a40780d292f27d537b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:51 +0000
Subject: [PATCH 10/76] fix: don't add the rules of a scoped grammar to its
 enclosing grammar

FromParserNode and ToParserNode wrote them to the map that the caller passed,
so scoped rules replaced outer ones for good and concurrent conversions raced.
---
 ast/from_parsernode.go | 5 ++++-
 ast/to_parsernode.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index b66f0e4..62e6f8a 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -135,7 +135,10 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 2f0bac3..63b103b 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -105,7 +105,10 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := g
+		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
+		for rule, terms := range g {
+			gcopy[rule] = terms
+		}
 		for rule, terms := range t.Grammar {
 			gcopy[rule] = terms
 		}
-- 
2.43.0


From db09f826ca96febc27439066bf5e0dfa56d1b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 11/76] fix: prepare scoped grammars in the copy of the grammar
 that is compiled

Compile wrote the inherited .wrapRE into the scoped grammars of its argument,
left their stacks unresolved in Parsers.Grammar(), so that FromParserNode could
not follow the parse, and panicked on a stack layer with a scoped grammar.
---
 parser/parser.go  | 73 ++++++++++++++++++++++++++++++++++-------------
 parser/resolve.go |  9 +++++-
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3c301ab..c89d37f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -93,6 +93,58 @@ func (g Grammar) resolveStacks() {
 	}
 }
 
+// prepare returns a copy of the grammar in which, throughout, stacks are
+// resolved and scoped grammars have the .wrapRE that applies to them.
+func (g Grammar) prepare(wrapRE Term) Grammar {
+	g = g.clone()
+	if _, has := g[WrapRE]; !has && wrapRE != nil {
+		g[WrapRE] = wrapRE
+	}
+	g.resolveStacks()
+	for rule, term := range g {
+		g[rule] = prepareTerm(term, g[WrapRE])
+	}
+	return g
+}
+
+func prepareTerms(terms []Term, wrapRE Term) []Term {
+	out := append(terms[:0:0], terms...)
+	for i, term := range out {
+		out[i] = prepareTerm(term, wrapRE)
+	}
+	return out
+}
+
+func prepareTerm(term, wrapRE Term) Term {
+	switch t := term.(type) {
+	case Seq:
+		return Seq(prepareTerms(t, wrapRE))
+	case Oneof:
+		return Oneof(prepareTerms(t, wrapRE))
+	case Delim:
+		t.Term = prepareTerm(t.Term, wrapRE)
+		t.Sep = prepareTerm(t.Sep, wrapRE)
+		return t
+	case Quant:
+		t.Term = prepareTerm(t.Term, wrapRE)
+		return t
+	case Named:
+		t.Term = prepareTerm(t.Term, wrapRE)
+		return t
+	case LookAhead:
+		t.Term = prepareTerm(t.Term, wrapRE)
+		return t
+	case CutPoint:
+		t.Term = prepareTerm(t.Term, wrapRE)
+		return t
+	case ScopedGrammar:
+		t.Grammar = t.Grammar.prepare(wrapRE)
+		t.Term = prepareTerm(t.Term, t.Grammar[WrapRE])
+		return t
+	}
+	return term
+}
+
 // resolveAlias returns the term that a production amounts to, given that it
 // might merely name (a name for) another rule.
 func (g Grammar) resolveAlias(term Term) Term {
@@ -114,13 +166,7 @@ func (g Grammar) resolveAlias(term Term) Term {
 // Compile prepares a grammar for parsing. The parser holds a copy of the
 // grammar modified to support parser execution.
 func (g Grammar) Compile(node any) Parsers {
-	for _, term := range g {
-		if _, ok := term.(Stack); ok {
-			g = g.clone()
-			g.resolveStacks()
-			break
-		}
-	}
+	g = g.prepare(nil)
 
 	c := cache{
 		parsers:    map[Rule]Parser{},
@@ -773,19 +819,6 @@ func (t ExtRef) AsTerm() Term { return t }
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
-	for _, term := range t.Grammar {
-		if _, ok := term.(Stack); ok {
-			t.Grammar = t.Grammar.clone()
-			t.Grammar.resolveStacks()
-			break
-		}
-	}
-	if wrap, has := c.grammar[WrapRE]; has {
-		if _, has := t.Grammar[WrapRE]; !has {
-			t.Grammar[WrapRE] = wrap
-		}
-	}
-
 	cc := cache{
 		parsers:    map[Rule]Parser{},
 		grammar:    t.Grammar,
diff --git a/parser/resolve.go b/parser/resolve.go
index a96f059..656f2fe 100644
--- a/parser/resolve.go
+++ b/parser/resolve.go
@@ -62,7 +62,14 @@ func (t Named) Resolve(oldRule, newRule Rule) Term {
 }
 
 func (t ScopedGrammar) Resolve(oldRule, newRule Rule) Term {
-	panic(errors.Inconceivable)
+	t.Term = t.Term.Resolve(oldRule, newRule)
+	t.Grammar = t.Grammar.clone()
+	for rule, term := range t.Grammar {
+		if _, ok := term.(Stack); !ok { // Stacks have an oldRule of their own.
+			t.Grammar[rule] = term.Resolve(oldRule, newRule)
+		}
+	}
+	return t
 }
 
 func (t CutPoint) Resolve(oldRule, newRule Rule) Term {
-- 
2.43.0


From 1486be9ec9eb97bda55ea9df9da38817741c3ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 12/76] fix: follow names for rules into and out of scoped
 grammars

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c89d37f..ffa0c1d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -158,6 +158,13 @@ func (g Grammar) resolveAlias(term Term) Term {
 				term = aliased
 				continue
 			}
+		case ScopedGrammar:
+			t.Term = t.Grammar.resolveAlias(t.Term)
+			if rule, ok := t.Term.(Rule); ok { // From an enclosing scope
+				term = rule
+				continue
+			}
+			return t
 		}
 		return term
 	}
@@ -839,6 +846,7 @@ func (t ScopedGrammar) Parser(name Rule, c cache) Parser {
 			p := cc.parsers[rule]
 			for _, rulePtr := range rulePtrs {
 				*rulePtr = p
+				c.registerRule(rulePtr) // in case the local rule names one from the previous scope
 			}
 		} else {
 			// must be from the previous scope, add it to the previous scopes cache
-- 
2.43.0


From ee87711ed10172cb4b3e07e78e560a1f44a59074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:03 +0000
Subject: [PATCH 13/76] fix: keep the scoped grammars of choices and of the
 levels of stacks

---
 wbnf/compile.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 67eb2fc..0cc6c22 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -253,27 +253,24 @@ func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 		case "|":
 			return append(parser.Oneof{}, terms...)
 		case ">":
-			return append(parser.Stack{}, terms...)
-		}
-		var sg *parser.ScopedGrammar
-		if g := t.AllGrammar(); len(g) == 1 {
-			nested := gb.buildGrammar(g[0].Node)
-			sg = &parser.ScopedGrammar{
-				Grammar: nested,
+			// Each layer can have a scoped grammar, which follows it.
+			for _, g := range t.AllGrammar() {
+				i := len(terms) - 1
+				for i > 0 && g.Scanner().Offset() < t.AllTerm()[i].Scanner().Offset() {
+					i--
+				}
+				terms[i] = parser.ScopedGrammar{Term: terms[i], Grammar: gb.buildGrammar(g.Node)}
 			}
+			return append(parser.Stack{}, terms...)
 		}
-		if len(terms) == 1 {
-			if sg != nil {
-				sg.Term = terms[0]
-				return *sg
-			}
-			return terms[0]
+		term := terms[0]
+		if len(terms) > 1 {
+			term = append(parser.Seq{}, terms...)
 		}
-		if sg != nil {
-			sg.Term = append(parser.Seq{}, terms...)
-			return *sg
+		if g := t.AllGrammar(); len(g) == 1 {
+			return parser.ScopedGrammar{Term: term, Grammar: gb.buildGrammar(g[0].Node)}
 		}
-		return append(parser.Seq{}, terms...)
+		return term
 	}
 	// named and quants need to be added backwards
 	// "a":","*     ->   Any(Delim(... S("a")))
-- 
2.43.0


From 21a1d2ce346bcc06aacb83e1a35e4e6dc43e79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 14/76] fix: count every use of a token in scoped grammars
 before cutting at it

---
 wbnf/cutpoints.go   | 7 +++----
 wbnf/wbnfgrammar.go | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2e2cc76..2cd1156 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -95,10 +95,9 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.ScopedGrammar:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			incoming := frozen.NewMapFromKeys(
-				findUniqueStrings(t.Grammar),
-				func(string) int { return 1 })
-			out = out.Merge(incoming, mergeFn)
+			for _, t := range t.Grammar {
+				out = out.Merge(forTerm(t), mergeFn)
+			}
 		case parser.REF:
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b7bf441..d9d1f87 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -58,7 +58,7 @@ func Grammar() parser.Parsers {
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})},
+					parser.Opt(parser.S(`;`))},
 				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
@@ -70,11 +70,11 @@ func Grammar() parser.Parsers {
 					parser.S(`{`),
 					parser.Rule(`term`),
 					parser.S(`}`),
-					parser.Opt(parser.CutPoint{parser.S(`;`)})}}},
+					parser.Opt(parser.S(`;`))}}},
 		"prod": parser.Seq{parser.Rule(`IDENT`),
 			parser.CutPoint{parser.S(`->`)},
 			parser.Some(parser.Rule(`term`)),
-			parser.CutPoint{parser.S(`;`)}},
+			parser.S(`;`)},
 		"quant": parser.Oneof{parser.Eq(`op`,
 			parser.RE(`[?*+]`)),
 			parser.Seq{parser.S(`{`),
-- 
2.43.0


From 4ddfc64df3feb7f6b652f67e39a3507f1f8af92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:20 +0000
Subject: [PATCH 15/76] fix: macro parameters inside lookaheads and scoped
 grammars

---
 wbnf/compile.go   | 10 +++++++---
 wbnf/cutpoints.go | 12 ++++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 0cc6c22..a3f4093 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -135,7 +135,8 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 	macro := gb.macros[name]
 	g := parser.Grammar{parser.Rule(name): gb.buildTerm(*macro.OneTerm())}
 
-	newg := rebuildGrammar(g, func(t parser.Term) parser.Term {
+	var callback func(t parser.Term) parser.Term
+	callback = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
 		case parser.Rule:
 			for i, arg := range macro.AllArgs() {
@@ -143,10 +144,13 @@ func (gb grammarBuilder) expandMacro(node MacrocallNode) parser.Term {
 					return gb.buildTerm(node.AllTerm()[i])
 				}
 			}
+		case parser.ScopedGrammar:
+			t.Grammar = rebuildGrammar(t.Grammar, callback)
+			return t
 		}
 		return t
-	})
-	return newg[parser.Rule(name)]
+	}
+	return rebuildGrammar(g, callback)[parser.Rule(name)]
 }
 
 func (gb grammarBuilder) buildAtom(atom AtomNode) parser.Term {
diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2cd1156..2830e56 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -102,7 +102,12 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			out = out.Merge(forTerm(t.Default), mergeFn)
 		case parser.CutPoint:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-		case parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead: // do nothing
+		case parser.LookAhead:
+			// Passing a lookahead commits to nothing, so ensure that its tokens
+			// will never be cutpoints.
+			out = out.Merge(forTerm(t.Term), mergeFn)
+			out = out.Merge(forTerm(t.Term), mergeFn)
+		case parser.RE, parser.Rule, parser.ExtRef: // do nothing
 		default:
 			panic(fmt.Errorf("findUniqueStrings: unexpected term type: %v %[1]T", t))
 		}
@@ -162,7 +167,10 @@ func fixTerm(term parser.Term, callback func(t parser.Term) parser.Term) parser.
 	case parser.CutPoint:
 		t.Term = fixTerm(t.Term, callback)
 		return callback(t)
-	case parser.S, parser.REF, parser.RE, parser.Rule, parser.ExtRef, parser.LookAhead:
+	case parser.LookAhead:
+		t.Term = fixTerm(t.Term, callback)
+		return callback(t)
+	case parser.S, parser.REF, parser.RE, parser.Rule, parser.ExtRef:
 		return callback(term)
 	default:
 		panic(fmt.Errorf("fixTerm: unexpected term type: %v %[1]T", t))
-- 
2.43.0


From def442c227c6159967f7a30aa6b58e97ee890103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:34 +0000
Subject: [PATCH 16/76] fix: an optional ending separator must never be a
 cutpoint

---
 wbnf/cutpoints.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 2830e56..347f0b7 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -85,8 +85,8 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		case parser.Delim:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 			out = out.Merge(forTerm(t.Sep), mergeFn)
-			if t.CanStartWithSep {
-				// ensure that a starting sep will never be a cutpoint
+			if t.CanStartWithSep || t.CanEndWithSep {
+				// ensure that a starting or ending sep will never be a cutpoint
 				out = out.Merge(forTerm(t.Sep), mergeFn)
 			}
 		case parser.Quant:
-- 
2.43.0


From 8a2e53073c81f2cd4291d500e5935a5b3af08e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:57 +0000
Subject: [PATCH 17/76] fix: a token that overlaps another must never be a
 cutpoint

---
 wbnf/cutpoints.go   | 30 +++++++++++++++++++++---------
 wbnf/wbnfgrammar.go | 16 ++++++++--------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 347f0b7..156823d 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -2,6 +2,7 @@ package wbnf
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/arr-ai/frozen"
 	"github.com/arr-ai/wbnf/parser"
@@ -29,7 +30,8 @@ Where can cutpoints be added?
 	consumed text. This will have to be heuristically determined.
 
 What does this code attempt to add?
-	1) Any S() token which appears only once in the entire grammar can be safely considered a cutpoint
+	1) Any S() token which appears only once in the entire grammar, and which is neither a prefix of another token
+	   nor has one as a prefix, can be safely considered a cutpoint
 	2) .... TBD
 
 The intention of this file is to provide good-enough cutpoints that it is not necessary for grammar authors
@@ -38,14 +40,12 @@ to add their own
 */
 
 func insertCutPoints(g parser.Grammar) parser.Grammar {
-	strings := findUniqueStrings(g)
-	s := strings.Elements()
-	_ = s
+	unique := findUniqueStrings(g)
 	var callback func(t parser.Term) parser.Term
 	callback = func(t parser.Term) parser.Term {
 		switch t := t.(type) {
 		case parser.S:
-			if strings.Has(string(t)) {
+			if unique.Has(string(t)) {
 				return parser.CutPoint{Term: t}
 			}
 		case parser.ScopedGrammar:
@@ -114,15 +114,27 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		return out
 	}
 
-	strings := frozen.NewMap[string, int]()
+	counts := frozen.NewMap[string, int]()
 	for _, t := range g {
-		strings = strings.Merge(forTerm(t), mergeFn)
+		counts = counts.Merge(forTerm(t), mergeFn)
 	}
-	return strings.Where(func(key string, val int) bool {
-		return val == 1
+	tokens := counts.Keys().Elements()
+	return counts.Where(func(key string, val int) bool {
+		return val == 1 && key != "" && !overlaps(key, tokens)
 	}).Keys()
 }
 
+// overlaps returns true iff text that starts with token might also start with
+// another of the tokens, e.g. "<" and "<=".
+func overlaps(token string, tokens []string) bool {
+	for _, other := range tokens {
+		if other != "" && other != token && (strings.HasPrefix(token, other) || strings.HasPrefix(other, token)) {
+			return true
+		}
+	}
+	return false
+}
+
 func rebuildGrammar(input parser.Grammar, callback func(t parser.Term) parser.Term) parser.Grammar {
 	out := parser.Grammar{}
 	for rule, term := range input {
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index d9d1f87..46ebdbb 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -13,7 +13,7 @@ func Grammar() parser.Parsers {
 		"IDENT":   parser.RE(`@|\.?[A-Za-z_]\w*`),
 		"INT":     parser.RE(`\d+`),
 		"RE":      parser.RE(`/{(?:\\.|{(?:(?:\d+(?:,\d*)?|,\d+)\})?|\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|[^\\{\}])*\}|(?:(?:\[(?:\\.|\[:^?[a-z]+:\]|[^\]])+]|\\[pP](?:[a-z]|\{[a-zA-Z_]+\})|\\[a-zA-Z]|[.^$])(?:(?:[+*?]|\{\d+,?\d?\})\??)?)+`),
-		"REF": parser.Seq{parser.CutPoint{parser.S(`%`)},
+		"REF": parser.Seq{parser.S(`%`),
 			parser.Rule(`IDENT`),
 			parser.Opt(parser.Seq{parser.S(`=`),
 				parser.Eq(`default`,
@@ -24,10 +24,10 @@ func Grammar() parser.Parsers {
 			parser.Rule(`RE`),
 			parser.Rule(`macrocall`),
 			parser.Eq(`ExtRef`,
-				parser.Seq{parser.CutPoint{parser.S(`%%`)},
+				parser.Seq{parser.S(`%%`),
 					parser.Rule(`IDENT`)}),
 			parser.Rule(`REF`),
-			parser.Seq{parser.CutPoint{parser.S(`(?=`)},
+			parser.Seq{parser.S(`(?=`),
 				parser.Eq(`lookahead`,
 					parser.Rule(`term`)),
 				parser.S(`)`)},
@@ -37,7 +37,7 @@ func Grammar() parser.Parsers {
 			parser.Seq{parser.S(`(`),
 				parser.S(`)`)}},
 		"grammar": parser.Some(parser.Rule(`stmt`)),
-		"macrocall": parser.Seq{parser.CutPoint{parser.S(`%!`)},
+		"macrocall": parser.Seq{parser.S(`%!`),
 			parser.Eq(`name`,
 				parser.Rule(`IDENT`)),
 			parser.S(`(`),
@@ -51,15 +51,15 @@ func Grammar() parser.Parsers {
 		"pragma": parser.ScopedGrammar{Term: parser.Oneof{parser.Rule(`import`),
 			parser.Rule(`macrodef`)},
 			Grammar: parser.Grammar{".wrapRE": parser.RE(`\s*()\s*`),
-				"import": parser.Seq{parser.CutPoint{parser.S(`.import`)},
+				"import": parser.Seq{parser.S(`.import`),
 					parser.Eq(`path`,
-						parser.Delim{Term: parser.Oneof{parser.CutPoint{parser.S(`..`)},
-							parser.CutPoint{parser.S(`.`)},
+						parser.Delim{Term: parser.Oneof{parser.S(`..`),
+							parser.S(`.`),
 							parser.RE(`[a-zA-Z0-9.:]+`)},
 							Sep:             parser.S(`/`),
 							CanStartWithSep: true}),
 					parser.Opt(parser.S(`;`))},
-				"macrodef": parser.Seq{parser.CutPoint{parser.S(`.macro`)},
+				"macrodef": parser.Seq{parser.S(`.macro`),
 					parser.Eq(`name`,
 						parser.Rule(`IDENT`)),
 					parser.S(`(`),
-- 
2.43.0


From 53d858082a924a19b81677d80e183f836e4df56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:17 +0000
Subject: [PATCH 18/76] fix: validate scoped grammars

---
 wbnf/compile.go    | 28 ++++++++++++++++++++++------
 wbnf/validation.go | 39 +++++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index a3f4093..18b0c78 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -247,6 +247,25 @@ func (gb grammarBuilder) buildNamed(n NamedNode) parser.Term {
 	return atom
 }
 
+// scopedGrammars returns the grammar that follows each layer of a stack (nil if
+// there is none), or the only one of a term that isn't a stack.
+func scopedGrammars(t TermNode) []*GrammarNode {
+	layers := []TermNode{t}
+	if t.OneOp() == ">" {
+		layers = t.AllTerm()
+	}
+	grammars := make([]*GrammarNode, len(layers))
+	for _, g := range t.AllGrammar() {
+		g := g
+		i := len(layers) - 1
+		for i > 0 && g.Scanner().Offset() < layers[i].Scanner().Offset() {
+			i--
+		}
+		grammars[i] = &g
+	}
+	return grammars
+}
+
 func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 	if len(t.AllTerm()) > 0 {
 		var terms []parser.Term
@@ -257,13 +276,10 @@ func (gb grammarBuilder) buildTerm(t TermNode) parser.Term {
 		case "|":
 			return append(parser.Oneof{}, terms...)
 		case ">":
-			// Each layer can have a scoped grammar, which follows it.
-			for _, g := range t.AllGrammar() {
-				i := len(terms) - 1
-				for i > 0 && g.Scanner().Offset() < t.AllTerm()[i].Scanner().Offset() {
-					i--
+			for i, g := range scopedGrammars(t) {
+				if g != nil {
+					terms[i] = parser.ScopedGrammar{Term: terms[i], Grammar: gb.buildGrammar(g.Node)}
 				}
-				terms[i] = parser.ScopedGrammar{Term: terms[i], Grammar: gb.buildGrammar(g.Node)}
 			}
 			return append(parser.Stack{}, terms...)
 		}
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 89f495e..fb2db41 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -168,10 +168,6 @@ func endsInWrapper(tree TermNode) bool {
 }
 
 func (v *validator) validateTerm(tree TermNode) Stopper {
-	if len(tree.AllGrammar()) != 0 {
-		//fixme: This doesnt work for scoped grammars yet, abort!
-		return NodeExiter
-	}
 	if tree.OneOp() == "" {
 		names := map[string]bool{}
 		for _, child := range tree.AllTerm() {
@@ -186,9 +182,44 @@ func (v *validator) validateTerm(tree TermNode) Stopper {
 			}
 		}
 	}
+	if len(tree.AllGrammar()) != 0 {
+		for i, grammar := range scopedGrammars(tree) {
+			terms := tree.AllTerm()
+			if tree.OneOp() == ">" {
+				terms = terms[i : i+1]
+			}
+			v.validateScope(terms, grammar)
+		}
+		return NodeExiter
+	}
 	return nil
 }
 
+// validateScope validates terms and the grammar that is scoped to them, if any.
+func (v *validator) validateScope(terms []TermNode, grammar *GrammarNode) {
+	prevRules, prevMacros := v.knownRules, v.macros
+	defer func() { v.knownRules, v.macros = prevRules, prevMacros }()
+
+	if grammar != nil {
+		rules, macros, err := findDefinedRules(*grammar)
+		if err != nil {
+			v.err = append(v.err, err)
+			return
+		}
+		v.knownRules = v.knownRules.Union(rules)
+		v.macros = map[string]PragmaMacrodefNode{}
+		for _, m := range []map[string]PragmaMacrodefNode{prevMacros, macros} {
+			for name, macro := range m {
+				v.macros[name] = macro
+			}
+		}
+		v.walk(*grammar)
+	}
+	for _, term := range terms {
+		v.walk(term)
+	}
+}
+
 func (v *validator) validateNamed(tree NamedNode) Stopper {
 	if x := tree.OneIdent(); x != nil {
 		if v.knownRules.Has(x.String()) {
-- 
2.43.0


From ba571767d8cb034e493880f68fd6fb6e3fea9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:52 +0000
Subject: [PATCH 19/76] fix: macros of a scoped grammar are in scope only there

---
 wbnf/compile.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 18b0c78..74c7112 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -317,6 +317,18 @@ func (gb grammarBuilder) buildProd(p ProdNode) parser.Term {
 func (gb grammarBuilder) buildGrammar(node ast.Node) parser.Grammar {
 	g := parser.Grammar{}
 	tree := NewGrammarNode(node)
+	outer := gb.macros
+	gb.macros = map[string]PragmaMacrodefNode{}
+	for name, macro := range outer {
+		gb.macros[name] = macro
+	}
+	for _, stmt := range tree.AllStmt() {
+		if pragma := stmt.OnePragma(); pragma != nil {
+			if macro := pragma.OneMacrodef(); macro != nil {
+				gb.macros[macro.OneName().String()] = *macro
+			}
+		}
+	}
 	for _, stmt := range tree.AllStmt() {
 		if prod := stmt.OneProd(); prod != nil {
 			g[parser.Rule(prod.OneIdent().String())] = gb.buildProd(*prod)
@@ -326,18 +338,7 @@ func (gb grammarBuilder) buildGrammar(node ast.Node) parser.Grammar {
 }
 
 func NewFromAst(node ast.Node) parser.Grammar {
-	gb := grammarBuilder{
-		macros: map[string]PragmaMacrodefNode{},
-	}
-	WalkerOps{
-		EnterPragmaMacrodefNode: func(node PragmaMacrodefNode) Stopper {
-			gb.macros[node.OneName().String()] = node
-			return nil
-		},
-	}.Walk(NewGrammarNode(node))
-	g := gb.buildGrammar(node)
-
-	return insertCutPoints(g)
+	return insertCutPoints(grammarBuilder{}.buildGrammar(node))
 }
 
 func mergeGrammarNodes(a, b ast.Branch) ast.Node {
-- 
2.43.0


From aa53a245b7486c3d19a50a339dc50f32f20514c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:44 +0000
Subject: [PATCH 20/76] fix: reject self-calling macros, and what expansion
 leaves misplaced or undefined

---
 wbnf/compile.go    |   6 ++-
 wbnf/validation.go | 107 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 112 insertions(+), 1 deletion(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 74c7112..26f03eb 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -413,7 +413,11 @@ func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	if err := validate(node); err != nil {
 		return parser.Parsers{}, err
 	}
-	return NewFromAst(node).Compile(node), nil
+	g := NewFromAst(node)
+	if err := validateTerms(g); err != nil {
+		return parser.Parsers{}, err
+	}
+	return g.Compile(node), nil
 }
 
 func MustCompile(grammar string, resolver ImportResolver) parser.Parsers {
diff --git a/wbnf/validation.go b/wbnf/validation.go
index fb2db41..15b7379 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -3,6 +3,7 @@ package wbnf
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -51,6 +52,7 @@ func validate(tree GrammarNode) error {
 		knownRules: rules,
 		macros:     macros,
 	}
+	v.validateMacroRecursion(macros)
 	v.walk(tree)
 
 	if cycles := checkForRecursion(tree); cycles != nil {
@@ -78,6 +80,8 @@ const (
 	IncorrectMacroArgCount
 	InvalidString
 	InvalidWrapRE
+	RecursiveMacro
+	MisplacedStack
 )
 
 type validationError struct {
@@ -213,6 +217,7 @@ func (v *validator) validateScope(terms []TermNode, grammar *GrammarNode) {
 				v.macros[name] = macro
 			}
 		}
+		v.validateMacroRecursion(macros)
 		v.walk(*grammar)
 	}
 	for _, term := range terms {
@@ -329,3 +334,105 @@ func (v *validator) validateMacroCall(node MacrocallNode) Stopper {
 	}
 	return nil
 }
+
+// validateMacroRecursion reports those of the macros whose expansion would never end.
+func (v *validator) validateMacroRecursion(macros map[string]PragmaMacrodefNode) {
+	names := make([]string, 0, len(macros))
+	for name := range macros {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		seen := map[string]bool{}
+		var visit func(name string)
+		visit = func(name string) {
+			macro, has := v.macros[name]
+			if !has || seen[name] {
+				return
+			}
+			seen[name] = true
+			WalkerOps{EnterMacrocallNode: func(node MacrocallNode) Stopper {
+				visit(node.OneName().String())
+				return nil
+			}}.Walk(macro)
+		}
+		WalkerOps{EnterMacrocallNode: func(node MacrocallNode) Stopper {
+			visit(node.OneName().String())
+			return nil
+		}}.Walk(macros[name])
+		if seen[name] {
+			v.err = append(v.err, validationError{s: macros[name].OneName().Scanner(),
+				msg: "macro '%s' calls itself", kind: RecursiveMacro})
+		}
+	}
+}
+
+// validateTerms validates what the productions of a grammar amount to once
+// macros are expanded.
+func validateTerms(g parser.Grammar) error {
+	v := validator{}
+	v.validateTerms(g, frozen.NewSet[string]())
+	if len(v.err) == 0 {
+		return nil
+	}
+	return &v
+}
+
+func (v *validator) validateTerms(g parser.Grammar, outer frozen.Set[string]) {
+	rules := make([]string, 0, len(g))
+	for rule := range g {
+		rules = append(rules, string(rule))
+	}
+	sort.Strings(rules)
+	known := outer.Union(frozen.NewSet(rules...))
+
+	var check func(term parser.Term)
+	check = func(term parser.Term) {
+		switch t := term.(type) {
+		case parser.Rule:
+			if t != parser.At && !known.Has(string(t)) {
+				v.err = append(v.err, validationError{
+					msg: fmt.Sprintf("identifier '%s' is not a defined rule", t), kind: UnknownRule})
+			}
+		case parser.Seq:
+			for _, t := range t {
+				check(t)
+			}
+		case parser.Oneof:
+			for _, t := range t {
+				check(t)
+			}
+		case parser.Stack:
+			v.err = append(v.err, validationError{
+				msg: "a stack must be a whole production", kind: MisplacedStack})
+		case parser.Delim:
+			check(t.Term)
+			check(t.Sep)
+		case parser.Quant:
+			check(t.Term)
+		case parser.Named:
+			check(t.Term)
+		case parser.LookAhead:
+			check(t.Term)
+		case parser.CutPoint:
+			check(t.Term)
+		case parser.ScopedGrammar:
+			prev := known
+			v.validateTerms(t.Grammar, known)
+			for rule := range t.Grammar {
+				known = known.With(string(rule))
+			}
+			check(t.Term)
+			known = prev
+		}
+	}
+	for _, rule := range rules {
+		if stack, ok := g[parser.Rule(rule)].(parser.Stack); ok {
+			for _, layer := range stack {
+				check(layer)
+			}
+		} else {
+			check(g[parser.Rule(rule)])
+		}
+	}
+}
-- 
2.43.0


From 4295409bcefec4a773e7863fe50a844c526f465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:11 +0000
Subject: [PATCH 21/76] fix: quantifier bounds {1,1}, and ones too big for an
 int

---
 parser/terms.go    |  2 --
 wbnf/validation.go | 24 ++++++++++++------------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 0142725..2fdd2a4 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -242,8 +242,6 @@ func (t Quant) String() string {
 		sb.WriteString("?")
 	case [2]int{1, 0}:
 		sb.WriteString("+")
-	case [2]int{1, 1}:
-		panic(errors.Inconceivable)
 	default:
 		sb.WriteString("{")
 		if t.Min != 0 {
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 15b7379..06541af 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -279,19 +279,19 @@ func (v *validator) validateQuant(tree QuantNode) Stopper {
 	case 1:
 		min := 0
 		max := 0
-		if x := tree.OneMin().String(); x != "" {
-			val, err := strconv.Atoi(x)
-			if err != nil {
-				panic("should not get here")
-			}
-			min = val
-		}
-		if x := tree.OneMax().String(); x != "" {
-			val, err := strconv.Atoi(x)
-			if err != nil {
-				panic("should not get here")
+		for _, bound := range []struct {
+			text string
+			val  *int
+		}{{tree.OneMin().String(), &min}, {tree.OneMax().String(), &max}} {
+			if bound.text != "" {
+				val, err := strconv.Atoi(bound.text)
+				if err != nil {
+					v.err = append(v.err, validationError{
+						msg: fmt.Sprintf("quant: invalid bound %s", bound.text), kind: MinMaxQuantError})
+					return nil
+				}
+				*bound.val = val
 			}
-			max = val
 		}
 		if min != 0 && max != 0 {
 			if max < min {
-- 
2.43.0


From 6a9d2ab7e6ab21a44ca85d9c7715bf5524f39ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 22/76] fix: Scanner() of nodes some of which span nothing

---
 ast/node_string.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/node_string.go b/ast/node_string.go
index bd19985..56590a7 100644
--- a/ast/node_string.go
+++ b/ast/node_string.go
@@ -117,7 +117,9 @@ func (c One) Scanner() parser.Scanner {
 func (c Many) Scanner() parser.Scanner {
 	childrenScanners := make([]parser.Scanner, 0, len(c))
 	for _, n := range c {
-		childrenScanners = append(childrenScanners, n.Scanner())
+		if s := n.Scanner(); !s.IsNil() {
+			childrenScanners = append(childrenScanners, s)
+		}
 	}
 
 	if len(childrenScanners) > 0 {
-- 
2.43.0


From 2561ed68ea267ddfaa2bc602fc15b77ec8a77304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:48 +0000
Subject: [PATCH 23/76] fix: diffs of tree leaves, external references and
 references

---
 parser/diff/nodes.go | 18 ++++++++++++++----
 parser/diff/terms.go |  7 +++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 3d18f44..587adce 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -13,6 +13,7 @@ type NodeDiff struct {
 	A, B     *parser.Node
 	Children map[int]NodeDiff
 	Types    map[int][2]reflect.Type
+	Leaves   map[int][2]parser.TreeElement
 }
 
 func (d NodeDiff) String() string {
@@ -41,6 +42,9 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	for i, t := range d.Types {
 		fmt.Fprintf(w, "%sChildren[%d].Type: %v != %v", prefix, i, t[0], t[1])
 	}
+	for i, l := range d.Leaves {
+		fmt.Fprintf(w, "%sChildren[%d]: %v != %v", prefix, i, l[0], l[1])
+	}
 	for i, d := range d.Children {
 		d.report(append(append([]string{}, path...), fmt.Sprintf("%s[%d]", d.A.Tag, i)), w)
 	}
@@ -51,26 +55,31 @@ func (d NodeDiff) Equal() bool {
 		d.A.Tag == d.B.Tag &&
 		d.A.Extra == d.B.Extra &&
 		len(d.Children) == 0 &&
-		len(d.Types) == 0
+		len(d.Types) == 0 &&
+		len(d.Leaves) == 0
 }
 
 func NewNodeDiff(a, b *parser.Node) NodeDiff {
 	children := map[int]NodeDiff{}
 	types := map[int][2]reflect.Type{}
+	leaves := map[int][2]parser.TreeElement{}
 	n := len(a.Children)
 	if n > len(b.Children) {
 		n = len(b.Children)
 	}
 	for i, x := range a.Children[:n] {
-		aType := reflect.TypeOf(a)
-		bType := reflect.TypeOf(a)
+		y := b.Children[i]
+		aType := reflect.TypeOf(x)
+		bType := reflect.TypeOf(y)
 		if aType != bType {
 			types[i] = [2]reflect.Type{aType, bType}
 		} else if childNodeA, ok := x.(parser.Node); ok {
-			childNodeB := b.Children[i].(parser.Node)
+			childNodeB := y.(parser.Node)
 			if d := NewNodeDiff(&childNodeA, &childNodeB); !d.Equal() {
 				children[i] = d
 			}
+		} else if fmt.Sprint(x) != fmt.Sprint(y) {
+			leaves[i] = [2]parser.TreeElement{x, y}
 		}
 	}
 	return NodeDiff{
@@ -78,5 +87,6 @@ func NewNodeDiff(a, b *parser.Node) NodeDiff {
 		B:        b,
 		Children: children,
 		Types:    types,
+		Leaves:   leaves,
 	}
 }
diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 77d6c12..2d9f8de 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -111,7 +111,7 @@ func Terms(a, b parser.Term) TermDiff {
 	case parser.CutPoint:
 		return Terms(a.Term, b.(parser.CutPoint).Term)
 	case parser.ExtRef:
-		return diffSes(parser.S(string(a)), parser.S(string(a)))
+		return diffSes(parser.S(string(a)), parser.S(string(b.(parser.ExtRef))))
 	case parser.REF:
 		return diffRefs(a, b.(parser.REF))
 	case parser.LookAhead:
@@ -171,7 +171,10 @@ type RefDiff struct {
 
 func (d RefDiff) Equal() bool {
 	if d.A.Ident == d.B.Ident {
-		return (d.A.Default == nil && d.B.Default == nil) || Terms(d.A.Default, d.B.Default).Equal()
+		if d.A.Default == nil || d.B.Default == nil {
+			return d.A.Default == nil && d.B.Default == nil
+		}
+		return Terms(d.A.Default, d.B.Default).Equal()
 	}
 	return false
 }
-- 
2.43.0


From 37e385e8c360456ef8dc6306412a7e53b64ba71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:16 +0000
Subject: [PATCH 24/76] fix: Aborter must abort the walk, not merely exit the
 node

---
 cmd/codegen/template.go | 2 +-
 wbnf/wbnfgrammar.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/template.go b/cmd/codegen/template.go
index 1346fb0..2cb78ce 100644
--- a/cmd/codegen/template.go
+++ b/cmd/codegen/template.go
@@ -40,7 +40,7 @@ func (n *nodeExiter) ExitNode() bool {return true }
 func (n *nodeExiter) Abort() bool {return false }
 
 type aborter struct{}
-func (n *aborter) ExitNode() bool {return true }
+func (n *aborter) ExitNode() bool {return false }
 func (n *aborter) Abort() bool {return true }
 var (
 	NodeExiter = &nodeExiter{}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 46ebdbb..aba80f9 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -119,7 +119,7 @@ func (n *nodeExiter) Abort() bool    { return false }
 
 type aborter struct{}
 
-func (n *aborter) ExitNode() bool { return true }
+func (n *aborter) ExitNode() bool { return false }
 func (n *aborter) Abort() bool    { return true }
 
 var (
-- 
2.43.0


From 5e342b1a22a0f39c213816fe01234bce76a5c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:48 +0000
Subject: [PATCH 25/76] fix: print trees in a fixed order, whatever numbers
 they contain

---
 ast/treeview.go  | 10 ++++++++--
 gotree/gotree.go |  8 +++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ast/treeview.go b/ast/treeview.go
index 2b47cb9..f53487b 100644
--- a/ast/treeview.go
+++ b/ast/treeview.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/arr-ai/wbnf/gotree"
@@ -33,11 +34,16 @@ func fromAst(name string, node Node, skipAtNodes bool) gotree.Tree {
 
 	switch n := node.(type) {
 	case Branch:
-		for name, val := range n {
+		names := make([]string, 0, len(n))
+		for name := range n {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		for _, name := range names {
 			if skipAtNodes && strings.HasPrefix(name, "@") {
 				continue
 			}
-			switch c := val.(type) {
+			switch c := n[name].(type) {
 			case One:
 				tree.AddTree(fromAst(name, c.Node, skipAtNodes))
 			case Many:
diff --git a/gotree/gotree.go b/gotree/gotree.go
index 1fdf880..127cb96 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -79,7 +79,7 @@ func (t *tree) Print() string {
 
 // SortItems sorts the items of tree by the determined rank
 func (t *tree) SortItems() {
-	sort.Slice(t.items, func(i, j int) bool {
+	sort.SliceStable(t.items, func(i, j int) bool {
 		return t.items[i].Rank() < t.items[j].Rank()
 	})
 }
@@ -88,10 +88,8 @@ func (t *tree) SortItems() {
 func (t *tree) Rank() int {
 	num := regexp.MustCompile("^[1-9][0-9]*").Find([]byte(t.Text()))
 	if num != nil {
-		r, err := strconv.Atoi(string(num))
-		if err != nil {
-			panic(err)
-		}
+		// Atoi returns the max int for numbers that are too big for one.
+		r, _ := strconv.Atoi(string(num))
 		return r
 	}
 	if len(t.Items()) == 0 {
-- 
2.43.0


From 6fdb3118c864cedd520351074cdc5be7866b1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:54 +0000
Subject: [PATCH 26/76] fix: import each grammar once, however often it is
 imported

---
 wbnf/compile.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 26f03eb..4f03e04 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -352,7 +352,7 @@ type ImportResolver interface {
 }
 
 type compiler struct {
-	imports  map[string]GrammarNode
+	imports  map[string]bool
 	resolver ImportResolver
 }
 
@@ -387,23 +387,20 @@ func (c *compiler) makeGrammar(filename, text string) (GrammarNode, error) {
 
 func (c *compiler) loadGrammarFile(filename string) (GrammarNode, error) {
 	filename = filepath.Clean(filename)
-	if _, has := c.imports[filename]; !has {
-		text, err := os.ReadFile(filename)
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		g, err := c.makeGrammar(filename, string(text))
-		if err != nil {
-			return GrammarNode{}, err
-		}
-		c.imports[filename] = g
+	if c.imports[filename] { // It is, or will be, part of the grammar.
+		return GrammarNode{}, nil
+	}
+	text, err := os.ReadFile(filename)
+	if err != nil {
+		return GrammarNode{}, err
 	}
-	return c.imports[filename], nil
+	c.imports[filename] = true
+	return c.makeGrammar(filename, string(text))
 }
 
 func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	c := compiler{
-		imports:  map[string]GrammarNode{},
+		imports:  map[string]bool{},
 		resolver: resolver,
 	}
 	node, err := c.makeGrammar("", grammar)
-- 
2.43.0


From a1b617990d521b654f880d3ada73880bce2c7f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:56 +0000
Subject: [PATCH 27/76] fix: resolve imports relative to the importing file

---
 cmd/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/test.go b/cmd/test.go
index 79ba003..7d931ba 100644
--- a/cmd/test.go
+++ b/cmd/test.go
@@ -76,7 +76,7 @@ func (r resolver) Resolve(from, file string) string {
 	if from == "" {
 		return filepath.Clean(filepath.Join(r.base, file))
 	}
-	return filepath.Clean(filepath.Join(r.base, from, file))
+	return filepath.Clean(filepath.Join(filepath.Dir(from), file))
 }
 
 func makeResolver(firstFilename string) resolver {
-- 
2.43.0


From 883d3351dcf68d6b33ac9129e3d910546809ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:56 +0000
Subject: [PATCH 28/76] fix: gen must report that it couldn't write its output

---
 cmd/gen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gen.go b/cmd/gen.go
index c43687b..6622809 100644
--- a/cmd/gen.go
+++ b/cmd/gen.go
@@ -79,10 +79,10 @@ func gen(c *cli.Context) error {
 
 	switch outFile {
 	case "", "-":
-		os.Stdout.Write(out)
+		_, err = os.Stdout.Write(out)
 	default:
-		os.WriteFile(outFile, out, 0644) //nolint:errcheck,gosec
+		err = os.WriteFile(outFile, out, 0644) //nolint:gosec
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From 4f146da4672860cf38525be36dc997615c9b690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:43 +0000
Subject: [PATCH 29/76] fix: generate tokens and regexps that contain carriage
 returns

---
 cmd/codegen/grammar.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 306942c..2324fdb 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -3,6 +3,7 @@ package codegen
 import (
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/arr-ai/frozen"
@@ -44,9 +45,13 @@ func (g *GoNode) Add(n GoNode) {
 	g.children = append(g.children, n)
 }
 
-func safeString(src string) string {
+// goString returns a Go expression for the string.
+func goString(src string) string {
+	if strings.ContainsAny(src, "\x00\r\ufeff") { // A raw string can't contain these.
+		return strconv.Quote(src)
+	}
 	r := strings.NewReplacer("`", "`+\"`\"+`")
-	return r.Replace(src)
+	return "`" + r.Replace(src) + "`"
 }
 
 func prefixName(prefix string, node GoNode) GoNode {
@@ -82,7 +87,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.children = append(node.children, walkTerm(t))
 		}
 	case parser.S:
-		node.name = fmt.Sprintf("parser.S(`%s`)", safeString(string(t)))
+		node.name = fmt.Sprintf("parser.S(%s)", goString(string(t)))
 	case parser.Delim:
 		node.name = "parser.Delim"
 		node.scope = squigglyScope
@@ -141,7 +146,7 @@ func walkTerm(term parser.Term) GoNode {
 			node.Add(prefixName("Default: ", walkTerm(t.Default)))
 		}
 	case parser.RE:
-		node = stringNode("parser.RE(`%s`)", safeString(string(t)))
+		node = stringNode("parser.RE(%s)", goString(string(t)))
 	case parser.Rule:
 		if strings.Contains(string(t), parser.StackDelim) {
 			node = stringNode("parser.At")
@@ -153,7 +158,7 @@ func walkTerm(term parser.Term) GoNode {
 		node.scope = squigglyScope
 		node.Add(walkTerm(t.Term))
 	case parser.ExtRef:
-		node = stringNode("parser.ExtRef(`%s`)", safeString(string(t)))
+		node = stringNode("parser.ExtRef(%s)", goString(string(t)))
 	case parser.LookAhead:
 		node.name = "parser.LookAhead"
 		node.scope = squigglyScope
-- 
2.43.0


From 8af140eebf70c68153926845af549a85e7798419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:47 +0000
Subject: [PATCH 30/76] fix: generate quantifiers with bounds

---
 cmd/codegen/grammar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/codegen/grammar.go b/cmd/codegen/grammar.go
index 2324fdb..17bc7ac 100644
--- a/cmd/codegen/grammar.go
+++ b/cmd/codegen/grammar.go
@@ -121,6 +121,7 @@ func walkTerm(term parser.Term) GoNode {
 		} else {
 			node.name = "parser.Quant"
 			node.scope = squigglyScope
+			node.children[0] = prefixName("Term: ", node.children[0])
 			node.Add(stringNode("Min: %d", t.Min))
 			node.Add(stringNode("Max: %d", t.Max))
 		}
-- 
2.43.0


From 99474e3aeb470dee44241bc985e252d8559c373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:13 +0000
Subject: [PATCH 31/76] fix: generate types for rules and terms that match
 nothing

---
 cmd/codegen/pushtype.go        | 10 ++++++++++
 cmd/codegen/typebuilder.go     |  3 ++-
 cmd/codegen/walkerinterface.go |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 469fb4d..d64b687 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -4,6 +4,16 @@ func (tm *TypeMap) findType(name string) GrammarType {
 	return (*tm)[name]
 }
 
+// findOrAddType is for types to which nothing might have been pushed, e.g. the
+// type for `a -> ();`.
+func (tm *TypeMap) findOrAddType(name string) GrammarType {
+	typeName := GoTypeName(name)
+	if tm.findType(typeName) == nil {
+		(*tm)[typeName] = rule{name: typeName}
+	}
+	return tm.findType(typeName)
+}
+
 func (tm *TypeMap) pushType(name, parent string, child GrammarType) {
 	if name == "" {
 		tm.createOrAddParent(parent, child)
diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4656c70..4f39b92 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -46,7 +46,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
-		newT := tm.findType(GoTypeName(typeName))
+		newT := tm.findOrAddType(typeName)
 		var needStackAddition bool
 		for _, child := range newT.Children() {
 			if x, ok := child.(stackBackRef); ok {
@@ -188,6 +188,7 @@ func (tm *TypeMap) walkTerm(
 			})
 		default:
 			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.findOrAddType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index 30c6ec1..fb62224 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -57,7 +57,7 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 		switch child := child.(type) {
 		case namedRule:
 			if r, ok := w.types[GoTypeName(child.returnType)]; ok {
-				if _, ok := r.(basicRule); ok {
+				if len(r.Children()) == 0 {
 					walker += getWalkerFuncs(funcs, false)
 					continue
 				}
-- 
2.43.0


From 58856eececf9ad402ddabc57cf5b4ad47d5f3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:34 +0000
Subject: [PATCH 32/76] fix: generate the types of named rules of scoped
 grammars

---
 cmd/codegen/typebuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 4f39b92..6725ccc 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -175,7 +175,7 @@ func (tm *TypeMap) walkTerm(
 				val = namedRule{
 					name:       t.Name,
 					parent:     parentName,
-					returnType: term.String(),
+					returnType: knownRules.MustGet(term.String()).(string),
 					count:      quant,
 				}
 			}
-- 
2.43.0


From 8eb0ef8fa8ad34318bce0a14cb987479f341df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:24 +0000
Subject: [PATCH 33/76] fix: positions and slices of scanners whose source was
 stripped

---
 parser/scanner.go | 53 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/parser/scanner.go b/parser/scanner.go
index 600db03..6a6fc20 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -18,6 +18,7 @@ type source interface {
 	slice(i, length int) string // the string of the given slice
 	filename() string           // the name of the file from which the source is derived (or empty if none)
 	stripSource(i, length int) source
+	position(i int) (line, col int) // the 1-indexed line and column number of the given offset
 }
 
 type stringSource struct {
@@ -116,7 +117,7 @@ func (s Scanner) Offset() int {
 
 // The 1-indexed line and column number of the start of the scanner within the original source.
 func (s Scanner) Position() (int, int) {
-	return lineColumn(s.src.slice(0, s.sliceStart), s.sliceStart)
+	return s.src.position(s.sliceStart)
 }
 
 // The slice that is visible to the scanner
@@ -215,8 +216,13 @@ func (s *Scanner) EatRegexp(re *regexp.Regexp, match *Scanner, captures []Scanne
 // - stringSource
 
 func (s stringSource) stripSource(offset, size int) source {
+	line, col := s.position(offset)
 	s.origin = s.slice(offset, size)
-	return s
+	return strippedSource{stringSource: s, offset: offset, line: line, col: col}
+}
+
+func (s stringSource) position(i int) (line, col int) {
+	return lineColumn(s.slice(0, i), i)
 }
 
 func (s stringSource) length() int {
@@ -235,6 +241,49 @@ func (s stringSource) filename() string {
 	return s.f
 }
 
+// - strippedSource
+
+// strippedSource holds just a part of a source.
+type strippedSource struct {
+	stringSource     // the part
+	offset       int // where the part was in the source
+	line, col    int // the 1-indexed line and column number of the part
+}
+
+func (s strippedSource) length() int {
+	return s.offset + len(s.origin)
+}
+
+// slice returns as much of the given slice as there is.
+func (s strippedSource) slice(i, length int) string {
+	clamp := func(i int) int {
+		i -= s.offset
+		if i < 0 {
+			return 0
+		}
+		if i > len(s.origin) {
+			return len(s.origin)
+		}
+		return i
+	}
+	return s.origin[clamp(i):clamp(i+length)]
+}
+
+func (s strippedSource) stripSource(i, length int) source {
+	line, col := s.position(i)
+	s.origin = s.slice(i, length)
+	s.offset, s.line, s.col = i, line, col
+	return s
+}
+
+func (s strippedSource) position(i int) (line, col int) {
+	line, col = lineColumn(s.origin, i-s.offset)
+	if line == 1 {
+		col += s.col - 1
+	}
+	return line + s.line - 1, col
+}
+
 // The 1-indexed line and column number of the given position within the given string.
 func lineColumn(str string, pos int) (line, col int) {
 	prefix := str[:pos]
-- 
2.43.0


From c0d30b64675d7eeebe7a2300781454167a0a8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:13 +0000
Subject: [PATCH 34/76] fix: references to delimited values with an optional
 separator at an end

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ffa0c1d..f29cc9c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -758,7 +758,9 @@ func termFromRefVal(from TreeElement) Term {
 	case Node:
 		s := Seq{}
 		for _, v := range n.Children {
-			s = append(s, termFromRefVal(v))
+			if term := termFromRefVal(v); term != nil { // nil for Empty
+				s = append(s, term)
+			}
 		}
 		term = s
 	case Scanner:
-- 
2.43.0


From c1bf5bcb9dce6e0fea41334ff4aa8cac5e983e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:05 +0000
Subject: [PATCH 35/76] fix: reject left recursion through repetitions,
 delimiters, nullable regexps and scoped grammars

---
 wbnf/compile.go   |   3 +
 wbnf/recursion.go | 257 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 260 insertions(+)

diff --git a/wbnf/compile.go b/wbnf/compile.go
index 4f03e04..dae145d 100644
--- a/wbnf/compile.go
+++ b/wbnf/compile.go
@@ -414,6 +414,9 @@ func Compile(grammar string, resolver ImportResolver) (parser.Parsers, error) {
 	if err := validateTerms(g); err != nil {
 		return parser.Parsers{}, err
 	}
+	if err := checkForLeftRecursion(g); err != nil {
+		return parser.Parsers{}, err
+	}
 	return g.Compile(node), nil
 }
 
diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index 4d5cdbe..d3d3328 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -2,10 +2,13 @@ package wbnf
 
 import (
 	"fmt"
+	"regexp/syntax"
 	"sort"
 	"strings"
 
 	"github.com/arr-ai/frozen"
+
+	"github.com/arr-ai/wbnf/parser"
 )
 
 /*
@@ -138,3 +141,257 @@ func getSequenceDangerTerms(tree TermNode) frozen.Set[string] {
 	}
 	return result
 }
+
+// checkForLeftRecursion reports any rule of the grammar, or of a grammar scoped
+// to a part of it, that could reach itself without consuming any input.
+// Whereas checkForRecursion judges a grammar by its text, this takes into
+// account what each term could match.
+func checkForLeftRecursion(g parser.Grammar) error {
+	f := leftFinder{named: map[string][]*leftExpr{}}
+	f.scope(g, nil)
+	f.findNullable()
+
+	var badRoutes []string
+	done := map[*leftRule]bool{}
+	var visit func(r *leftRule, route []*leftRule)
+	visit = func(r *leftRule, route []*leftRule) {
+		for i, prev := range route {
+			if prev == r {
+				var names []string
+				for _, r := range append(route[i:len(route):len(route)], r) {
+					names = append(names, r.name)
+				}
+				badRoutes = append(badRoutes, strings.Join(names, " > "))
+				return
+			}
+		}
+		if !done[r] {
+			r.expr.leftRules(func(next *leftRule) {
+				visit(next, append(route[:len(route):len(route)], r))
+			})
+			done[r] = true
+		}
+	}
+	for _, r := range f.rules {
+		visit(r, nil)
+	}
+	if len(badRoutes) > 0 {
+		return validationError{
+			msg:  fmt.Sprintf("Possible cycle(s) detected: \n\t%s", strings.Join(badRoutes, "\n\t")),
+			kind: PossibleCycleDetected,
+		}
+	}
+	return nil
+}
+
+// leftExpr holds what matters of a term: what it could start with, and whether
+// it could match nothing. It is a sequence unless choice is set.
+type leftExpr struct {
+	choice   bool
+	parts    []*leftExpr
+	rule     *leftRule // iff the term refers to a rule
+	ref      string    // iff the term refers to what a name matched
+	nullable bool
+}
+
+type leftRule struct {
+	name string
+	expr *leftExpr
+}
+
+func (e *leftExpr) leftRules(found func(*leftRule)) {
+	if e.rule != nil {
+		found(e.rule)
+	}
+	for _, part := range e.parts {
+		part.leftRules(found)
+		if !e.choice && !part.nullable {
+			break
+		}
+	}
+}
+
+func (f *leftFinder) couldBeNullable(e *leftExpr) bool {
+	if e.rule != nil {
+		return e.rule.expr.nullable
+	}
+	for _, named := range f.named[e.ref] {
+		if named.nullable {
+			return true
+		}
+	}
+	for _, part := range e.parts {
+		if part.nullable == e.choice {
+			return e.choice
+		}
+	}
+	return !e.choice
+}
+
+type leftScope map[parser.Rule]*leftRule
+
+type leftFinder struct {
+	rules []*leftRule
+	exprs []*leftExpr            // all those not known to be nullable or not
+	named map[string][]*leftExpr // terms by name
+}
+
+func (f *leftFinder) findNullable() {
+	for changed := true; changed; {
+		changed = false
+		for _, e := range f.exprs {
+			if !e.nullable && f.couldBeNullable(e) {
+				e.nullable = true
+				changed = true
+			}
+		}
+	}
+}
+
+// scope adds the rules of a grammar, and returns them and those of its
+// surroundings.
+func (f *leftFinder) scope(g parser.Grammar, outer leftScope) leftScope {
+	scope := leftScope{}
+	for name, r := range outer {
+		scope[name] = r
+	}
+	names := make([]string, 0, len(g))
+	for name := range g {
+		names = append(names, string(name))
+		scope[parser.Rule(name)] = &leftRule{name: string(name)}
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		r := scope[parser.Rule(name)]
+		f.rules = append(f.rules, r)
+		if stack, ok := g[parser.Rule(name)].(parser.Stack); ok {
+			layers := []*leftRule{r}
+			for i := range stack[1:] {
+				layers = append(layers, &leftRule{name: fmt.Sprintf("%s%s%d", name, parser.StackDelim, i+1)})
+			}
+			f.rules = append(f.rules, layers[1:]...)
+			for i, layer := range stack {
+				layerScope := leftScope{}
+				for name, r := range scope {
+					layerScope[name] = r
+				}
+				layerScope[parser.At] = layers[(i+1)%len(layers)]
+				layers[i].expr = f.expr(layer, layerScope)
+			}
+		} else {
+			r.expr = f.expr(g[parser.Rule(name)], scope)
+		}
+	}
+	return scope
+}
+
+func (f *leftFinder) combine(choice bool, parts ...*leftExpr) *leftExpr {
+	e := &leftExpr{choice: choice, parts: parts}
+	f.exprs = append(f.exprs, e)
+	return e
+}
+
+func (f *leftFinder) optional(e *leftExpr) *leftExpr {
+	return f.combine(true, e, &leftExpr{nullable: true})
+}
+
+// name records an expression as what references to the name of term, if it has
+// one, might repeat.
+func (f *leftFinder) name(term parser.Term, e *leftExpr) {
+	switch t := term.(type) {
+	case parser.Named:
+		f.named[t.Name] = append(f.named[t.Name], e)
+	case parser.Rule:
+		f.named[string(t)] = append(f.named[string(t)], e)
+	case parser.Quant:
+		f.name(t.Term, e)
+	}
+}
+
+func (f *leftFinder) expr(term parser.Term, scope leftScope) *leftExpr {
+	switch t := term.(type) {
+	case parser.S:
+		return &leftExpr{nullable: t == ""}
+	case parser.RE:
+		re, err := syntax.Parse(string(t), syntax.Perl)
+		return &leftExpr{nullable: err == nil && matchesNothing(re)}
+	case parser.Rule:
+		e := f.combine(false)
+		if e.rule = scope[t]; e.rule == nil { // e.g. @ outside of a stack
+			return &leftExpr{}
+		}
+		f.name(t, e)
+		return e
+	case parser.REF:
+		e := f.combine(true)
+		if t.Default != nil {
+			e.parts = append(e.parts, f.expr(t.Default, scope))
+		}
+		e.ref = t.Ident
+		return e
+	case parser.Seq:
+		e := f.combine(false)
+		for _, t := range t {
+			e.parts = append(e.parts, f.expr(t, scope))
+		}
+		return e
+	case parser.Oneof:
+		e := f.combine(true)
+		for _, t := range t {
+			e.parts = append(e.parts, f.expr(t, scope))
+		}
+		return e
+	case parser.Delim:
+		e, sep := f.expr(t.Term, scope), f.expr(t.Sep, scope)
+		if t.CanStartWithSep {
+			return f.combine(false, f.optional(sep), e, f.optional(sep))
+		}
+		return f.combine(false, e, f.optional(sep))
+	case parser.Quant:
+		e := f.expr(t.Term, scope)
+		if t.Min == 0 {
+			e = f.optional(e)
+		}
+		f.name(t.Term, e)
+		return e
+	case parser.LookAhead:
+		return f.optional(f.expr(t.Term, scope))
+	case parser.Named:
+		e := f.expr(t.Term, scope)
+		f.name(t, e)
+		return e
+	case parser.CutPoint:
+		return f.expr(t.Term, scope)
+	case parser.ScopedGrammar:
+		return f.expr(t.Term, f.scope(t.Grammar, scope))
+	}
+	return &leftExpr{}
+}
+
+// matchesNothing returns true iff the regexp could match without consuming anything.
+func matchesNothing(re *syntax.Regexp) bool {
+	switch re.Op {
+	case syntax.OpNoMatch, syntax.OpCharClass, syntax.OpAnyCharNotNL, syntax.OpAnyChar:
+		return false
+	case syntax.OpLiteral:
+		return len(re.Rune) == 0
+	case syntax.OpCapture, syntax.OpPlus:
+		return matchesNothing(re.Sub[0])
+	case syntax.OpRepeat:
+		return re.Min == 0 || matchesNothing(re.Sub[0])
+	case syntax.OpConcat:
+		for _, sub := range re.Sub {
+			if !matchesNothing(sub) {
+				return false
+			}
+		}
+	case syntax.OpAlternate:
+		for _, sub := range re.Sub {
+			if matchesNothing(sub) {
+				return true
+			}
+		}
+		return false
+	}
+	return true
+}
-- 
2.43.0


From bbc6224c8ac8e376eefbab1829678ed79556bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:22 +0000
Subject: [PATCH 36/76] fix: accept rules that refer to themselves after a rule
 that matches something

---
 wbnf/recursion.go  | 4 ++--
 wbnf/validation.go | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/wbnf/recursion.go b/wbnf/recursion.go
index d3d3328..758e79e 100644
--- a/wbnf/recursion.go
+++ b/wbnf/recursion.go
@@ -144,8 +144,8 @@ func getSequenceDangerTerms(tree TermNode) frozen.Set[string] {
 
 // checkForLeftRecursion reports any rule of the grammar, or of a grammar scoped
 // to a part of it, that could reach itself without consuming any input.
-// Whereas checkForRecursion judges a grammar by its text, this takes into
-// account what each term could match.
+// Whereas checkForRecursion assumes that any rule might match nothing, this
+// takes into account what each term could match.
 func checkForLeftRecursion(g parser.Grammar) error {
 	f := leftFinder{named: map[string][]*leftExpr{}}
 	f.scope(g, nil)
diff --git a/wbnf/validation.go b/wbnf/validation.go
index 06541af..6038187 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -55,10 +55,6 @@ func validate(tree GrammarNode) error {
 	v.validateMacroRecursion(macros)
 	v.walk(tree)
 
-	if cycles := checkForRecursion(tree); cycles != nil {
-		v.err = append(v.err, cycles)
-	}
-
 	if len(v.err) == 0 {
 		return nil
 	}
-- 
2.43.0


From 55b77e02b6c4cc1fb65d6d8f8de4ae591ae5ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:36 +0000
Subject: [PATCH 37/76] fix: show terms, and no addresses, in the call stacks
 of parse errors

---
 parser/scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/scope.go b/parser/scope.go
index dfc9ae0..1bae810 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -140,7 +140,7 @@ type call struct {
 func (c *call) Error() string {
 	var parts []string
 	for ; c != nil; c = c.next {
-		parts = append(parts, fmt.Sprintf("%+v", *c))
+		parts = append(parts, fmt.Sprintf("{ident:%s term:%v}", c.ident, c.term))
 	}
 	return strings.Join(parts, "\n")
 }
-- 
2.43.0


From c2ff8c9edb50cef358f4fa608bcd0a259a43c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:31 +0000
Subject: [PATCH 38/76] fix: a reference to a rule that is a token must not be
 a cutpoint

---
 parser/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f29cc9c..0dd9ab5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -421,7 +421,7 @@ func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk
 				func() error { return stk },
 			)
 		}
-		if _, ok := item.(*cutPointParser); ok {
+		if isCutPoint(p.t[i]) {
 			scope, _, _ = scope.ReplaceCutPoint(true)
 		}
 		scope = scope.WithVal(ident, p.parsers[i], v)
@@ -865,6 +865,18 @@ type cutPointParser struct {
 	t CutPoint
 }
 
+// isCutPoint returns true iff the term itself is a cutpoint. A mere reference to
+// a rule isn't one, since the rule may be used elsewhere too.
+func isCutPoint(term Term) bool {
+	switch t := term.(type) {
+	case CutPoint:
+		return true
+	case Named:
+		return isCutPoint(t.Term)
+	}
+	return false
+}
+
 func (t *cutPointParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	return t.p.Parse(scope, input, output, stk)
 }
-- 
2.43.0


From 18ff76185137adf8f4eb7c4b49f6ca4f57c74571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:08 +0000
Subject: [PATCH 39/76] fix: a token that another may overlap in any way must
 never be a cutpoint

---
 wbnf/cutpoints.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 156823d..82d4488 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -30,8 +30,8 @@ Where can cutpoints be added?
 	consumed text. This will have to be heuristically determined.
 
 What does this code attempt to add?
-	1) Any S() token which appears only once in the entire grammar, and which is neither a prefix of another token
-	   nor has one as a prefix, can be safely considered a cutpoint
+	1) Any S() token which appears only once in the entire grammar, and which no other token could overlap in the
+	   input, can be safely considered a cutpoint
 	2) .... TBD
 
 The intention of this file is to provide good-enough cutpoints that it is not necessary for grammar authors
@@ -124,12 +124,17 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 	}).Keys()
 }
 
-// overlaps returns true iff text that starts with token might also start with
-// another of the tokens, e.g. "<" and "<=".
+// overlaps returns true iff another of the tokens might match the start of the
+// token in some text that contains it, e.g. "<=" and "<", or "->" and ">".
 func overlaps(token string, tokens []string) bool {
 	for _, other := range tokens {
-		if other != "" && other != token && (strings.HasPrefix(token, other) || strings.HasPrefix(other, token)) {
-			return true
+		if other == token {
+			continue
+		}
+		for i := range other {
+			if strings.HasPrefix(token, other[i:]) || strings.HasPrefix(other[i:], token) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From e8e3e54c5cd3392326d0a18cb22d480e7bad9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:40 +0000
Subject: [PATCH 40/76] fix: convert nodes of rules that a scoped grammar
 shadows

---
 ast/from_parsernode.go | 37 +++++++++++++++----------------------
 ast/scope.go           | 19 +++++++++++++++++++
 ast/to_parsernode.go   | 35 ++++++++++++++---------------------
 3 files changed, 48 insertions(+), 43 deletions(-)
 create mode 100644 ast/scope.go

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index 62e6f8a..f57917e 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -29,7 +29,7 @@ func FromParserNode(g parser.Grammar, e parser.TreeElement) Branch {
 	result := Branch{}
 	result.one("@rule", Extra{rule})
 	ctrs := newCounters(term)
-	result.fromParserNode(g, term, ctrs, e)
+	result.fromParserNode(&scope{g: g}, term, ctrs, e)
 	return result.collapse(0).(Branch)
 }
 
@@ -115,18 +115,18 @@ func (b Branch) many(name string, node Node) {
 	}
 }
 
-func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters, e parser.TreeElement) {
+func (b Branch) fromParserNode(s *scope, term parser.Term, ctrs counters, e parser.TreeElement) {
 	var tag string
 	// defer enterf("fromParserNode(term=%T(%[1]v), ctrs=%v, v=%v)", term, ctrs, e).exitf("tag=%q, n=%v", &tag, &n)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		b.add("", Leaf(e.(parser.Scanner)), ctrs[""])
 	case parser.Rule:
-		rule := g[t]
+		rule, s := s.lookup(t)
 		childCtrs := newCounters(rule)
 		b2 := Branch{}
-		unleveled, level := unlevel(string(t), g)
-		b2.fromParserNode(g, rule, childCtrs, e)
+		unleveled, level := unlevel(string(t), s.g)
+		b2.fromParserNode(s, rule, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -135,23 +135,16 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		node = node.collapse(level)
 		b.add(unleveled, node, ctrs[unleveled])
 	case parser.ScopedGrammar:
-		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
-		for rule, terms := range g {
-			gcopy[rule] = terms
-		}
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		b.fromParserNode(gcopy, t.Term, ctrs, e)
+		b.fromParserNode(&scope{g: t.Grammar, outer: s}, t.Term, ctrs, e)
 	case parser.Seq:
 		node := e.(parser.Node)
 		for i, child := range node.Children {
-			b.fromParserNode(g, t[i], ctrs, child)
+			b.fromParserNode(s, t[i], ctrs, child)
 		}
 	case parser.Oneof:
 		node := e.(parser.Node)
 		b.many(ChoiceTag, Extra{Data: node.Extra.(parser.Choice)})
-		b.fromParserNode(g, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
+		b.fromParserNode(s, t[node.Extra.(parser.Choice)], ctrs, node.Children[0])
 	case parser.Delim:
 		node := e.(parser.Node)
 		tag = node.Tag
@@ -165,26 +158,26 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 					childCtrs := newCounters(t)
 					b2 := Branch{}
 					childCtrs.termCountChildren(t, ctrs[""])
-					b2.fromParserNode(g, t, childCtrs, child)
+					b2.fromParserNode(s, t, childCtrs, child)
 					if ctr, has := ctrs[tag]; has { // Operands go by the same name.
 						b.add(tag, b2, ctr)
 					} else {
 						b.one(tag, b2)
 					}
 				} else {
-					b.fromParserNode(g, lrTerm, ctrs, child)
+					b.fromParserNode(s, lrTerm, ctrs, child)
 				}
 			}
 		}
 	case parser.Quant:
 		node := e.(parser.Node)
 		for _, child := range node.Children {
-			b.fromParserNode(g, t.Term, ctrs, child)
+			b.fromParserNode(s, t.Term, ctrs, child)
 		}
 	case parser.Named:
 		childCtrs := newCounters(t.Term)
 		b2 := Branch{}
-		b2.fromParserNode(g, t.Term, childCtrs, e)
+		b2.fromParserNode(s, t.Term, childCtrs, e)
 		var node Node = b2
 		// if name := childCtrs.singular(); name != nil {
 		// 	node = b2[*name].(One).Node
@@ -198,12 +191,12 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 		case parser.Node:
 			b2 := Branch{}
 			for _, child := range e.Children {
-				b2.fromParserNode(g, term, ctrs, child)
+				b2.fromParserNode(s, term, ctrs, child)
 			}
 			b.add(t.Ident, b2, ctrs[t.Ident])
 		}
 	case parser.CutPoint:
-		b.fromParserNode(g, t.Term, ctrs, e)
+		b.fromParserNode(s, t.Term, ctrs, e)
 	case parser.ExtRef:
 		if node, ok := e.(parser.Node); ok {
 			if b2, ok := node.Extra.(Branch); ok {
@@ -214,7 +207,7 @@ func (b Branch) fromParserNode(g parser.Grammar, term parser.Term, ctrs counters
 	case parser.LookAhead:
 		node := e.(parser.Node)
 		for _, child := range node.Children {
-			b.fromParserNode(g, t.Term, ctrs, child)
+			b.fromParserNode(s, t.Term, ctrs, child)
 		}
 	default:
 		panic(fmt.Errorf("branch.fromParserNode: unexpected term type: %v %[1]T", t))
diff --git a/ast/scope.go b/ast/scope.go
new file mode 100644
index 0000000..c01e558
--- /dev/null
+++ b/ast/scope.go
@@ -0,0 +1,19 @@
+package ast
+
+import "github.com/arr-ai/wbnf/parser"
+
+// scope holds the rules that a term may refer to.
+type scope struct {
+	g     parser.Grammar
+	outer *scope // the scope around a scoped grammar
+}
+
+// lookup returns the term of a rule and the scope of that term.
+func (s *scope) lookup(rule parser.Rule) (parser.Term, *scope) {
+	for ; s.outer != nil; s = s.outer {
+		if term, has := s.g[rule]; has {
+			return term, s
+		}
+	}
+	return s.g[rule], s
+}
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 63b103b..61ccad5 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -13,7 +13,7 @@ func ToParserNode(g parser.Grammar, branch Branch) parser.TreeElement {
 	term := g[rule]
 	ctrs := newCounters(term)
 	branch = expandNode(branch, string(rule)).(Branch)
-	return relabelNode(string(rule), branch.toParserNode(g, term, ctrs))
+	return relabelNode(string(rule), branch.toParserNode(&scope{g: g}, term, ctrs))
 }
 
 func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
@@ -74,8 +74,8 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
-func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters) (out parser.TreeElement) {
-	// defer enterf("%v.toParserNode(g, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
+func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
+	// defer enterf("%v.toParserNode(s, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
 	case parser.S, parser.RE:
 		if node := b.pull("", ctrs[""]); node != nil {
@@ -84,8 +84,8 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		return nil
 	case parser.Rule:
 		name := string(t)
-		term := g[t]
-		unleveled, level := unlevel(name, g)
+		term, s := s.lookup(t)
+		unleveled, level := unlevel(name, s.g)
 		if node := b.pull(unleveled, ctrs[unleveled]); node != nil {
 			if level > 0 {
 				node = expandNode(node, unleveled)
@@ -96,7 +96,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(g, term, childCtrs))
+				return relabelNode(string(t), node.toParserNode(s, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -105,18 +105,11 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.ScopedGrammar:
-		gcopy := make(parser.Grammar, len(g)+len(t.Grammar))
-		for rule, terms := range g {
-			gcopy[rule] = terms
-		}
-		for rule, terms := range t.Grammar {
-			gcopy[rule] = terms
-		}
-		return b.toParserNode(gcopy, t.Term, ctrs)
+		return b.toParserNode(&scope{g: t.Grammar, outer: s}, t.Term, ctrs)
 	case parser.Seq:
 		result := parser.Node{Tag: seqTag}
 		for _, child := range t {
-			if node := b.toParserNode(g, child, ctrs); node != nil {
+			if node := b.toParserNode(s, child, ctrs); node != nil {
 				result.Children = append(result.Children, node)
 			} else {
 				return nil
@@ -129,7 +122,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			return parser.Node{
 				Tag:      oneofTag,
 				Extra:    extra,
-				Children: []parser.TreeElement{b.toParserNode(g, t[extra], ctrs)},
+				Children: []parser.TreeElement{b.toParserNode(s, t[extra], ctrs)},
 			}
 		}
 		return nil
@@ -141,7 +134,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		terms := [2]parser.Term{t.Term, t.Sep}
 		i := 0
 		for ; ; i++ {
-			if child := b.toParserNode(g, terms[i%2], ctrs); child != nil {
+			if child := b.toParserNode(s, terms[i%2], ctrs); child != nil {
 				v.Children = append(v.Children, child)
 			} else {
 				break
@@ -154,7 +147,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
 		for i := 0; !t.MaxLessThan(i); i++ {
-			if v := b.toParserNode(g, t.Term, ctrs); v != nil {
+			if v := b.toParserNode(s, t.Term, ctrs); v != nil {
 				result.Children = append(result.Children, v)
 			} else {
 				break
@@ -172,7 +165,7 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(g, t.Term, childCtrs))
+				return relabelNode(t.Name, node.toParserNode(s, t.Term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -181,9 +174,9 @@ func (b Branch) toParserNode(g parser.Grammar, term parser.Term, ctrs counters)
 		}
 		return nil
 	case parser.CutPoint:
-		return b.toParserNode(g, t.Term, ctrs)
+		return b.toParserNode(s, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(g, t.Term, ctrs)
+		return b.toParserNode(s, t.Term, ctrs)
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
-- 
2.43.0


From d681d95d2a5cf8804ce3e9aef0b80088bb66e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:45 +0000
Subject: [PATCH 41/76] fix: convert nodes with several nested associative
 delimiters

---
 ast/counter.go         | 3 +++
 ast/from_parsernode.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ast/counter.go b/ast/counter.go
index 5a8f2c1..f16fa32 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -114,6 +114,9 @@ func (ctrs counters) termCountChildren(term parser.Term, parent counter) {
 	case parser.Delim:
 		ctrs.termCountChildren(t.Term, parent.mul(oneOrMore))
 		ctrs.termCountChildren(t.Sep, parent.mul(zeroOrMore))
+		if t.Assoc != parser.NonAssociative { // Nested nodes.
+			ctrs.count(delimTag, parent.mul(zeroOrOne))
+		}
 	case parser.Quant:
 		ctrs.termCountChildren(t.Term, parent.mul(newCounterFromQuant(t)))
 	case parser.Named:
diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index f57917e..d7c23a9 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -158,6 +158,7 @@ func (b Branch) fromParserNode(s *scope, term parser.Term, ctrs counters, e pars
 					childCtrs := newCounters(t)
 					b2 := Branch{}
 					childCtrs.termCountChildren(t, ctrs[""])
+					childCtrs[delimTag] = newCounters(t)[delimTag]
 					b2.fromParserNode(s, t, childCtrs, child)
 					if ctr, has := ctrs[tag]; has { // Operands go by the same name.
 						b.add(tag, b2, ctr)
-- 
2.43.0


From 721dd021c310d7e17880bbcff33b6ffb64d2ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:20 +0000
Subject: [PATCH 42/76] fix: back references to text that is not valid UTF-8
 must not panic

---
 parser/parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0dd9ab5..ec0de7a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/arr-ai/wbnf/errors"
 )
@@ -301,7 +302,7 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 	if escaped, err := parseEscape(p, scope, string(p.rule), p.t, input, output); escaped || err != nil {
 		return err
 	}
-	if ok := eatRegexp(input, p.re, output); !ok {
+	if ok := p.eat(input, output); !ok {
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
 			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
@@ -312,7 +313,22 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 }
 func (p *sParser) AsTerm() Term { return p.t }
 
+func (p *sParser) eat(input *Scanner, output *TreeElement) bool {
+	if p.re != nil {
+		return eatRegexp(input, p.re, output)
+	}
+	var eaten Scanner
+	if input.EatString(string(p.t), &eaten) {
+		*output = eaten
+		return true
+	}
+	return false
+}
+
 func (t S) Parser(rule Rule, c cache) Parser {
+	if !utf8.ValidString(string(t)) { // e.g. what a reference repeats; no regexp can match it.
+		return &sParser{rule: rule, t: t}
+	}
 	re := applyWrapRE(string(t), func(re string) string { return "(" + regexp.QuoteMeta(re) + ")" }, c)
 	return &sParser{
 		rule: rule,
-- 
2.43.0


From f3df067cc6ee9da10f0de32aacf43ff64910631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:30 +0000
Subject: [PATCH 43/76] fix: error messages must show the text where a token
 failed, not where its sequence began

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ec0de7a..921bc99 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -303,9 +303,10 @@ func (p *sParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *c
 		return err
 	}
 	if ok := p.eat(input, output); !ok {
+		stuck := *input // which the caller may reset
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.t.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&stuck)) },
 			func() error { return stk },
 		)
 	}
@@ -348,9 +349,10 @@ func (p *reParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *
 		return err
 	}
 	if ok := eatRegexp(input, p.re, output); !ok {
+		stuck := *input // which the caller may reset
 		return newParseError(p.rule, "")(scope.GetCutPoint(),
 			func() error { return fmt.Errorf("expect: %s", NewScanner(p.re.String()).Context(DefaultLimit)) },
-			func() error { return fmt.Errorf("actual: %s", getErrorStrings(input)) },
+			func() error { return fmt.Errorf("actual: %s", getErrorStrings(&stuck)) },
 			func() error { return stk },
 		)
 	}
-- 
2.43.0


From 780904d06d476471b58392b88b04b2ee3f1a0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:58 +0000
Subject: [PATCH 44/76] fix: render trees and error messages in time linear in
 their size

---
 gotree/gotree.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gotree/gotree.go b/gotree/gotree.go
index 127cb96..1063beb 100644
--- a/gotree/gotree.go
+++ b/gotree/gotree.go
@@ -130,12 +130,12 @@ func (p *printer) printText(text string, spaces []bool, last bool) string {
 		indicator = lastItem
 	}
 
-	var out string
+	var out strings.Builder
 	lines := strings.Split(text, "\n")
 	for i := range lines {
 		text := lines[i]
 		if i == 0 {
-			out += result + indicator + text + newLine
+			out.WriteString(result + indicator + text + newLine)
 			continue
 		}
 		if last {
@@ -143,21 +143,21 @@ func (p *printer) printText(text string, spaces []bool, last bool) string {
 		} else {
 			indicator = continueItem
 		}
-		out += result + indicator + text + newLine
+		out.WriteString(result + indicator + text + newLine)
 	}
 
-	return out
+	return out.String()
 }
 
 func (p *printer) printItems(t []Tree, spaces []bool) string {
-	var result string
+	var result strings.Builder
 	for i, f := range t {
 		last := i == len(t)-1
-		result += p.printText(f.Text(), spaces, last)
+		result.WriteString(p.printText(f.Text(), spaces, last))
 		if len(f.Items()) > 0 {
 			spacesChild := append(spaces, last)
-			result += p.printItems(f.Items(), spacesChild)
+			result.WriteString(p.printItems(f.Items(), spacesChild))
 		}
 	}
-	return result
+	return result.String()
 }
-- 
2.43.0


From bfde748e076b8938e7b53fa7d8c9f7a14908ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:28 +0000
Subject: [PATCH 45/76] fix: count the tokens of nested lookaheads and
 separators in linear time

---
 wbnf/cutpoints.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 82d4488..1de82f1 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -59,6 +59,9 @@ func insertCutPoints(g parser.Grammar) parser.Grammar {
 
 func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 	mergeFn := func(_ string, a, b int) int {
+		if a+b > 2 {
+			return 2 // No matter how many, if it isn't only one.
+		}
 		return a + b
 	}
 	var forTerm func(t parser.Term) frozen.Map[string, int]
@@ -84,11 +87,12 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 			}
 		case parser.Delim:
 			out = out.Merge(forTerm(t.Term), mergeFn)
-			out = out.Merge(forTerm(t.Sep), mergeFn)
+			sep := forTerm(t.Sep)
 			if t.CanStartWithSep || t.CanEndWithSep {
 				// ensure that a starting or ending sep will never be a cutpoint
-				out = out.Merge(forTerm(t.Sep), mergeFn)
+				sep = sep.Merge(sep, mergeFn)
 			}
+			out = out.Merge(sep, mergeFn)
 		case parser.Quant:
 			out = out.Merge(forTerm(t.Term), mergeFn)
 		case parser.Named:
@@ -105,8 +109,8 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		case parser.LookAhead:
 			// Passing a lookahead commits to nothing, so ensure that its tokens
 			// will never be cutpoints.
-			out = out.Merge(forTerm(t.Term), mergeFn)
-			out = out.Merge(forTerm(t.Term), mergeFn)
+			ahead := forTerm(t.Term)
+			out = out.Merge(ahead.Merge(ahead, mergeFn), mergeFn)
 		case parser.RE, parser.Rule, parser.ExtRef: // do nothing
 		default:
 			panic(fmt.Errorf("findUniqueStrings: unexpected term type: %v %[1]T", t))
-- 
2.43.0


From 896c33de745fdbc63f7c662c9d1e2efef3367726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:11 +0000
Subject: [PATCH 46/76] fix: error messages of deeply nested failures must not
 exhaust memory

---
 parser/error.go | 10 ++++++----
 parser/scope.go |  7 +++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/parser/error.go b/parser/error.go
index eb0b6f1..90f5b1d 100644
--- a/parser/error.go
+++ b/parser/error.go
@@ -69,10 +69,12 @@ func (p ParseError) Error() string {
 func (p ParseError) walkErrors(parent gotree.Tree) {
 	x := gotree.New(fmt.Sprintf(`rule(%s) - %s`, p.rule, fmt.Sprintf(p.msgFormat, p.msgArgs...)))
 	for _, errf := range p.children {
-		err := errf()
-		if pe, ok := err.(*ParseError); ok {
-			pe.walkErrors(x)
-		} else {
+		switch err := errf().(type) {
+		case ParseError:
+			err.walkErrors(x)
+		case FatalError:
+			err.walkErrors(x)
+		default:
 			x.Add(err.Error())
 		}
 	}
diff --git a/parser/scope.go b/parser/scope.go
index 1bae810..cbea978 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -137,9 +137,16 @@ type call struct {
 	next  *call
 }
 
+// maxCalls is the number of innermost calls that an error shows.
+const maxCalls = 16
+
 func (c *call) Error() string {
 	var parts []string
 	for ; c != nil; c = c.next {
+		if len(parts) == maxCalls { // The errors that enclose this one show the rest.
+			parts = append(parts, "...")
+			break
+		}
 		parts = append(parts, fmt.Sprintf("{ident:%s term:%v}", c.ident, c.term))
 	}
 	return strings.Join(parts, "\n")
-- 
2.43.0


From f47a0d1e042d206ef383f07fcfed4a4c85e0a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 47/76] fix: nested delimiters must not take exponential time
 to compile

---
 parser/parser.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 921bc99..e634157 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -451,10 +451,14 @@ func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk
 func (p *seqParser) AsTerm() Term { return p.t }
 
 func (t Seq) Parser(rule Rule, c cache) Parser {
+	return makeSeq(rule, t, c.makeParsers(t))
+}
+
+func makeSeq(rule Rule, t Seq, parsers []Parser) *seqParser {
 	return &seqParser{
 		rule:    rule,
 		t:       t,
-		parsers: c.makeParsers(t),
+		parsers: parsers,
 		put:     tag(rule, seqTag),
 	}
 }
@@ -543,19 +547,35 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 	// a -> x:y    ===   a -> x (y x)*
 	// a -> x:,y   ===   a -> y? x (y x)*
 	// a -> x:y,   ===   a -> x (y x)* y?
-	seq := Seq{}
+	// The parsers of x and y are made once each, lest nested delimiters take
+	// exponential time.
+	term, sep := t.Term.Parser("", c), t.Sep.Parser("", c)
+	seqOf := func(rule Rule, t Seq, parsers ...Parser) Parser {
+		c.registerRules(parsers)
+		return makeSeq(rule, t, parsers)
+	}
+	quantOf := func(t Quant, term Parser) Parser {
+		p := makeQuant("", t, term)
+		c.registerRule(&p.term)
+		return p
+	}
+
+	opt, more := Opt(t.Sep), Any(Seq{t.Sep, t.Term})
+	seq := Seq{Seq{t.Term, more}}
+	parsers := []Parser{seqOf("", Seq{t.Term, more}, term, quantOf(more, seqOf("", Seq{t.Sep, t.Term}, sep, term)))}
 	if t.CanStartWithSep {
-		seq = append(seq, Opt(t.Sep))
+		seq = append(Seq{opt}, seq...)
+		parsers = append([]Parser{quantOf(opt, sep)}, parsers...)
 	}
-	seq = append(seq, Seq{t.Term, Any(Seq{t.Sep, t.Term})})
 	if t.CanEndWithSep {
-		seq = append(seq, Opt(t.Sep))
+		seq = append(seq, opt)
+		parsers = append(parsers, quantOf(opt, sep))
 	}
 
 	p := &delimParser{
 		rule:  rule,
 		t:     t,
-		child: seq.Parser(rule, c),
+		child: seqOf(rule, seq, parsers...),
 		put:   tag(rule, delimTag),
 	}
 	c.registerRule(&p.child)
@@ -693,14 +713,18 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 func (p *quantParser) AsTerm() Term { return p.t }
 
 func (t Quant) Parser(rule Rule, c cache) Parser {
-	p := &quantParser{
+	p := makeQuant(rule, t, t.Term.Parser("", c))
+	c.registerRule(&p.term)
+	return p
+}
+
+func makeQuant(rule Rule, t Quant, term Parser) *quantParser {
+	return &quantParser{
 		rule: rule,
 		t:    t,
-		term: t.Term.Parser("", c),
+		term: term,
 		put:  tag(rule, quantTag),
 	}
-	c.registerRule(&p.term)
-	return p
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From b641fc3360c7cb392e1751aace98ef40b7f56e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 48/76] fix: validate the bodies of macros

---
 wbnf/validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index 6038187..f5b70a7 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -312,7 +312,7 @@ func (v *validator) validateMacro(node PragmaMacrodefNode) Stopper {
 			v.knownRules = v.knownRules.With(arg.String())
 		}
 	}
-	v.walk(node.OneTerm())
+	v.walk(*node.OneTerm())
 	return NodeExiter
 }
 
-- 
2.43.0


From cfb72477389ccdbe686992697f5b01bf87346ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 49/76] fix: reject a .wrapRE that may match without what it
 wraps

---
 wbnf/validation.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/wbnf/validation.go b/wbnf/validation.go
index f5b70a7..8466db2 100644
--- a/wbnf/validation.go
+++ b/wbnf/validation.go
@@ -3,6 +3,7 @@ package wbnf
 import (
 	"fmt"
 	"regexp"
+	"regexp/syntax"
 	"sort"
 	"strconv"
 	"strings"
@@ -162,11 +163,45 @@ func endsInWrapper(tree TermNode) bool {
 			text := parseRegexp(atom.OneRe().String())
 			re, err := regexp.Compile(text)
 			// validateAtom reports regexps that don't compile.
-			return err != nil || strings.Contains(text, "()") && re.NumSubexp() > 0
+			return err != nil || strings.Contains(text, "()") && re.NumSubexp() > 0 && wraps(text)
 		}
 	}
 }
 
+// wraps returns true iff a wrapper cannot match without the token that it wraps.
+func wraps(wrapper string) bool {
+	re, err := syntax.Parse(strings.Replace(wrapper, "()", `([^\x00-\x{10FFFF}])`, 1), syntax.Perl)
+	return err == nil && neverMatches(re)
+}
+
+// neverMatches returns true iff no text could match the regexp.
+func neverMatches(re *syntax.Regexp) bool {
+	switch re.Op {
+	case syntax.OpNoMatch:
+		return true
+	case syntax.OpCharClass:
+		return len(re.Rune) == 0
+	case syntax.OpCapture, syntax.OpPlus:
+		return neverMatches(re.Sub[0])
+	case syntax.OpRepeat:
+		return re.Min > 0 && neverMatches(re.Sub[0])
+	case syntax.OpConcat:
+		for _, sub := range re.Sub {
+			if neverMatches(sub) {
+				return true
+			}
+		}
+	case syntax.OpAlternate:
+		for _, sub := range re.Sub {
+			if !neverMatches(sub) {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func (v *validator) validateTerm(tree TermNode) Stopper {
 	if tree.OneOp() == "" {
 		names := map[string]bool{}
-- 
2.43.0


From e415e45b13995b664037ef7b547caa5ca33dd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:30 +0000
Subject: [PATCH 50/76] fix: do not allocate room for a quantifier's minimum in
 advance

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e634157..a192a04 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -674,7 +674,7 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
 		return err
 	}
-	result := make([]TreeElement, 0, p.t.Min)
+	result := []TreeElement{}
 	var v TreeElement
 	start := *input
 
-- 
2.43.0


From 078a5f6f47fcfeaf839682c2a574a37969bdf98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:53 +0000
Subject: [PATCH 51/76] fix: convert repetitions, optional terms and lookaheads
 back from ASTs

---
 ast/node.go          |   2 +
 ast/to_parsernode.go | 100 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 78 insertions(+), 24 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index 382a8df..011d5cd 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -16,6 +16,8 @@ const (
 	delimTag = ":"
 	quantTag = "?"
 
+	lookaheadTag = "?="
+
 	RuleTag   = "@rule"
 	ChoiceTag = "@choice"
 	SkipTag   = "@skip"
diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 61ccad5..f91664c 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -74,10 +74,50 @@ func (b Branch) pullFromMany(name string) Node {
 	return nil
 }
 
+// copy returns a branch from which children can be pulled without any effect on b.
+func (b Branch) copy() Branch {
+	result := Branch{}
+	for name, children := range b {
+		result[name] = children
+	}
+	return result
+}
+
+// restore puts back what was pulled from b since it was copied.
+func (b Branch) restore(saved Branch) {
+	for name, children := range saved {
+		b[name] = children
+	}
+}
+
+// isBlank returns true iff there is no text in e.
+func isBlank(e parser.TreeElement) bool {
+	switch e := e.(type) {
+	case parser.Scanner:
+		return e.String() == ""
+	case parser.Node:
+		for _, child := range e.Children {
+			if !isBlank(child) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
 	// defer enterf("%v.toParserNode(s, term=%T(%[2]v), ctrs=%v)", n, term, ctrs).exitf("%v", &out)
 	switch t := term.(type) {
-	case parser.S, parser.RE:
+	case parser.S:
+		saved := b.copy()
+		if node := b.pull("", ctrs[""]); node != nil {
+			if scanner := parser.Scanner(node.(Leaf)); scanner.String() == string(t) {
+				return scanner
+			}
+			b.restore(saved)
+		}
+		return nil
+	case parser.RE:
 		if node := b.pull("", ctrs[""]); node != nil {
 			return parser.Scanner(node.(Leaf))
 		}
@@ -96,7 +136,7 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(string(t), node.toParserNode(s, term, childCtrs))
+				return relabelNode(string(t), node.copy().toParserNode(s, term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -119,10 +159,11 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 	case parser.Oneof:
 		if choice := b.pullFromMany(ChoiceTag); choice != nil {
 			extra := choice.(Extra).Data.(parser.Choice)
-			return parser.Node{
-				Tag:      oneofTag,
-				Extra:    extra,
-				Children: []parser.TreeElement{b.toParserNode(s, t[extra], ctrs)},
+			if int(extra) >= len(t) {
+				return nil
+			}
+			if child := b.toParserNode(s, t[extra], ctrs); child != nil {
+				return parser.Node{Tag: oneofTag, Extra: extra, Children: []parser.TreeElement{child}}
 			}
 		}
 		return nil
@@ -131,30 +172,38 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 			Tag:   delimTag,
 			Extra: parser.NonAssociative,
 		}
-		terms := [2]parser.Term{t.Term, t.Sep}
-		i := 0
-		for ; ; i++ {
-			if child := b.toParserNode(s, terms[i%2], ctrs); child != nil {
-				v.Children = append(v.Children, child)
-			} else {
-				break
-			}
+		child := b.toParserNode(s, t.Term, ctrs)
+		if child == nil {
+			return nil
 		}
-		if i%2 == 0 {
-			panic(errors.Inconceivable)
+		v.Children = append(v.Children, child)
+		for {
+			saved := b.copy()
+			sep := b.toParserNode(s, t.Sep, ctrs)
+			if sep == nil {
+				b.restore(saved)
+				return v
+			}
+			child := b.toParserNode(s, t.Term, ctrs)
+			if child == nil || isBlank(sep) && isBlank(child) {
+				b.restore(saved)
+				return v
+			}
+			v.Children = append(v.Children, sep, child)
 		}
-		return v
 	case parser.Quant:
 		result := parser.Node{Tag: quantTag}
-		for i := 0; !t.MaxLessThan(i); i++ {
-			if v := b.toParserNode(s, t.Term, ctrs); v != nil {
-				result.Children = append(result.Children, v)
-			} else {
+		for t.Max == 0 || len(result.Children) < t.Max {
+			saved := b.copy()
+			v := b.toParserNode(s, t.Term, ctrs)
+			if v == nil || t.Max == 0 && len(result.Children) >= t.Min && isBlank(v) {
+				b.restore(saved)
 				break
 			}
+			result.Children = append(result.Children, v)
 		}
 		if !t.Contains(len(result.Children)) {
-			panic(errors.Inconceivable)
+			return nil
 		}
 		return result
 	case parser.Named:
@@ -165,7 +214,7 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.toParserNode(s, t.Term, childCtrs))
+				return relabelNode(t.Name, node.copy().toParserNode(s, t.Term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
@@ -176,7 +225,10 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 	case parser.CutPoint:
 		return b.toParserNode(s, t.Term, ctrs)
 	case parser.LookAhead:
-		return b.toParserNode(s, t.Term, ctrs)
+		if child := b.toParserNode(s, t.Term, ctrs); child != nil {
+			return parser.Node{Tag: lookaheadTag, Children: []parser.TreeElement{child}}
+		}
+		return nil
 	default:
 		panic(fmt.Errorf("branch.toParserNode: unexpected term type: %v %[1]T", t))
 	}
-- 
2.43.0


From 6521015cc9b29cc6c251a19c6493d94ba8737eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:16 +0000
Subject: [PATCH 52/76] fix: a named reference to a rule must keep the rule's
 tag when converted back

---
 ast/to_parsernode.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index f91664c..fb49d63 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -24,6 +24,17 @@ func relabelNode(name string, e parser.TreeElement) parser.TreeElement {
 	return e
 }
 
+// nameNode tags a node with a name, unless it already has that of a rule.
+func nameNode(name string, e parser.TreeElement) parser.TreeElement {
+	if n, ok := e.(parser.Node); ok {
+		switch n.Tag {
+		case seqTag, oneofTag, delimTag, quantTag, lookaheadTag:
+			return relabelNode(name, e)
+		}
+	}
+	return e
+}
+
 func expandNode(n Node, name string) Node {
 	return n
 	// switch n := n.(type) {
@@ -214,7 +225,7 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 			// }
 			switch node := node.(type) {
 			case Branch:
-				return relabelNode(t.Name, node.copy().toParserNode(s, t.Term, childCtrs))
+				return nameNode(t.Name, node.copy().toParserNode(s, t.Term, childCtrs))
 			case Leaf:
 				return parser.Scanner(node)
 			default:
-- 
2.43.0


From 43d8380de0bd5536b990639868b020ff19d0c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:16 +0000
Subject: [PATCH 53/76] fix: converting back must not take tokens of
 repetitions for absent that matched only white space

---
 ast/to_parsernode.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index fb49d63..4a4b65f 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -101,19 +101,18 @@ func (b Branch) restore(saved Branch) {
 	}
 }
 
-// isBlank returns true iff there is no text in e.
-func isBlank(e parser.TreeElement) bool {
-	switch e := e.(type) {
-	case parser.Scanner:
-		return e.String() == ""
-	case parser.Node:
-		for _, child := range e.Children {
-			if !isBlank(child) {
-				return false
-			}
+// size returns the number of nodes that can be pulled from b.
+func (b Branch) size() int {
+	n := 0
+	for _, children := range b {
+		switch c := children.(type) {
+		case One:
+			n++
+		case Many:
+			n += len(c)
 		}
 	}
-	return true
+	return n
 }
 
 func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out parser.TreeElement) {
@@ -196,7 +195,7 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 				return v
 			}
 			child := b.toParserNode(s, t.Term, ctrs)
-			if child == nil || isBlank(sep) && isBlank(child) {
+			if child == nil || b.size() == saved.size() {
 				b.restore(saved)
 				return v
 			}
@@ -207,7 +206,7 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 		for t.Max == 0 || len(result.Children) < t.Max {
 			saved := b.copy()
 			v := b.toParserNode(s, t.Term, ctrs)
-			if v == nil || t.Max == 0 && len(result.Children) >= t.Min && isBlank(v) {
+			if v == nil || t.Max == 0 && len(result.Children) >= t.Min && b.size() == saved.size() {
 				b.restore(saved)
 				break
 			}
-- 
2.43.0


From b651947a3dba3b4f4f076c79f49aac047d920a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:06 +0000
Subject: [PATCH 54/76] fix: unparse trees of scoped grammars and of single
 tokens, and count what was written before an error

---
 parser/terms.go   |  7 +++++--
 parser/unparse.go | 23 +++++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/parser/terms.go b/parser/terms.go
index 2fdd2a4..961a7fe 100644
--- a/parser/terms.go
+++ b/parser/terms.go
@@ -19,8 +19,11 @@ type Grammar map[Rule]Term
 // the source it came from. Currently, it doesn't quite do that, and is only
 // being used for quick eyeballing to validate output.
 func (g Grammar) Unparse(e TreeElement, w io.Writer) (n int, err error) {
-	rule := NodeRule(e.(Node))
-	return g[rule].Unparse(g, e, w)
+	node, ok := e.(Node)
+	if !ok { // The rule is but a token.
+		return unparseTokens(e, w)
+	}
+	return g[NodeRule(node)].Unparse(g, e, w)
 }
 
 // Parsers holds Parsers generated by Grammar.Compile.
diff --git a/parser/unparse.go b/parser/unparse.go
index 4cbabca..2d7c0f8 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -22,12 +22,27 @@ func (t REF) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 
 func unparse(g Grammar, term Term, e TreeElement, w io.Writer, N *int) error {
 	n, err := term.Unparse(g, e, w)
-	if err == nil {
-		*N += n
-	}
+	*N += n
 	return err
 }
 
+// unparseTokens writes the tokens of e, whatever terms they come from.
+func unparseTokens(e TreeElement, w io.Writer) (n int, err error) {
+	switch e := e.(type) {
+	case Scanner:
+		return w.Write([]byte(e.String()))
+	case Node:
+		for _, child := range e.Children {
+			m, err := unparseTokens(child, w)
+			n += m
+			if err != nil {
+				return n, err
+			}
+		}
+	}
+	return n, nil
+}
+
 func (t Seq) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 	node := e.(Node)
 	for i, term := range t {
@@ -98,7 +113,7 @@ func (t Named) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 //-----------------------------------------------------------------------------
 
 func (t ScopedGrammar) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-	panic(errors.Inconceivable)
+	return unparseTokens(e, w) // Rules of g may go by the names of rules of t.
 }
 
 func (t CutPoint) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
-- 
2.43.0


From 49aa728f92506a1060837056f6176159ea624706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 55/76] fix: handlers may ask for the value of the name of the
 term that an escape stands for

---
 parser/scope.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/scope.go b/parser/scope.go
index cbea978..08d4980 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -65,8 +65,9 @@ func (s Scope) WithVal(ident string, p Parser, val TreeElement) Scope {
 
 func (s Scope) GetVal(ident string) (Parser, TreeElement, bool) {
 	if val, ok := s.m.Get(ident); ok {
-		sv := val.(*scopeVal)
-		return sv.p, sv.val, ok
+		if sv, ok := val.(*scopeVal); ok {
+			return sv.p, sv.val, ok
+		}
 	}
 	return nil, nil, false
 }
-- 
2.43.0


From 607463f3176fd92e963acdcaa40cebcb0e69dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 56/76] fix: delimiters of escapes that have alternatives

---
 parser/scope.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scope.go b/parser/scope.go
index 08d4980..8e873a7 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -107,8 +107,8 @@ func (s Scope) WithExternals(extRefs ExternalRefs) Scope {
 			}
 			openClose := strings.Split(name[1:], "()")
 			e = &escape{
-				openDelim:  regexp.MustCompile(`(?m)\A` + openClose[0]),
-				closeDelim: regexp.MustCompile(`(?m)\A` + openClose[1]),
+				openDelim:  regexp.MustCompile(`(?m)\A(?:` + openClose[0] + `)`),
+				closeDelim: regexp.MustCompile(`(?m)\A(?:` + openClose[1] + `)`),
 				external:   external,
 			}
 			sb.Put(parseEscapeKey, e)
-- 
2.43.0


From b53a10af914a8ce9345316524dc0651725f7d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:26 +0000
Subject: [PATCH 57/76] fix: escapes stand for terms of the grammar, not for
 parts of delimiters or references

---
 parser/parser.go | 40 +++++++++++++++++++++++++---------------
 parser/scope.go  |  4 ++++
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a192a04..6997dc7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -372,10 +372,11 @@ func (t RE) Parser(rule Rule, c cache) Parser {
 //-----------------------------------------------------------------------------
 
 type seqParser struct {
-	rule    Rule
-	t       Seq
-	parsers []Parser
-	put     putter
+	rule     Rule
+	t        Seq
+	parsers  []Parser
+	put      putter
+	implicit bool // not a term of the grammar
 }
 
 func identFromTerm(term Term) string {
@@ -420,8 +421,10 @@ func nodesEqual(a, b any) bool {
 
 func (p *seqParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.implicit {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := make([]TreeElement, 0, len(p.parsers))
 	furthest := *input
@@ -548,14 +551,18 @@ func (t Delim) Parser(rule Rule, c cache) Parser {
 	// a -> x:,y   ===   a -> y? x (y x)*
 	// a -> x:y,   ===   a -> x (y x)* y?
 	// The parsers of x and y are made once each, lest nested delimiters take
-	// exponential time.
+	// exponential time. An escape stands for one of these or for the delimiter,
+	// not for a part of the sequence.
 	term, sep := t.Term.Parser("", c), t.Sep.Parser("", c)
 	seqOf := func(rule Rule, t Seq, parsers ...Parser) Parser {
 		c.registerRules(parsers)
-		return makeSeq(rule, t, parsers)
+		p := makeSeq(rule, t, parsers)
+		p.implicit = true
+		return p
 	}
 	quantOf := func(t Quant, term Parser) Parser {
 		p := makeQuant("", t, term)
+		p.implicit = true
 		c.registerRule(&p.term)
 		return p
 	}
@@ -663,16 +670,19 @@ func (t LookAhead) Parser(rule Rule, c cache) Parser {
 //-----------------------------------------------------------------------------
 
 type quantParser struct {
-	rule Rule
-	t    Quant
-	term Parser
-	put  putter
+	rule     Rule
+	t        Quant
+	term     Parser
+	put      putter
+	implicit bool // not a term of the grammar
 }
 
 func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call) (out error) {
 	// defer enterf("%s: %T %[2]v", p.rule, p.t).exitf("%v %v", &out, output)
-	if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
-		return err
+	if !p.implicit {
+		if escaped, err := parseEscape(p, scope, "", nil, input, output); escaped || err != nil {
+			return err
+		}
 	}
 	result := []TreeElement{}
 	var v TreeElement
@@ -820,7 +830,7 @@ func (t *REF) Parse(scope Scope, input *Scanner, output *TreeElement, stk *call)
 	if _, expected, ok := scope.GetVal(t.Ident); ok {
 		term := termFromRefVal(expected)
 		parser := term.Parser(Rule(t.Ident), cache{})
-		if err := parser.Parse(scope, input, &v, stk); err != nil {
+		if err := parser.Parse(scope.withoutEscape(), input, &v, stk); err != nil {
 			return err
 		}
 		if !nodesEqual(v, expected) {
diff --git a/parser/scope.go b/parser/scope.go
index 8e873a7..35387f7 100644
--- a/parser/scope.go
+++ b/parser/scope.go
@@ -125,6 +125,10 @@ func (s Scope) GetExternal(ident string) ExternalRef {
 	return nil
 }
 
+func (s Scope) withoutEscape() Scope {
+	return s.With(parseEscapeKey, (*escape)(nil))
+}
+
 func (s Scope) getParserEscape() *escape {
 	if e, has := s.m.Get(parseEscapeKey); has {
 		return e.(*escape)
-- 
2.43.0


From 6017562bc82c2d125295b1f57719eba9867e3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 58/76] fix: GoName kept names in an unguarded map, a data race
 when code is generated concurrently

---
 cmd/codegen/types.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index d774694..e987dc3 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -10,8 +10,6 @@ import (
 	"github.com/arr-ai/wbnf/wbnf"
 )
 
-var gotypemap map[string]string
-
 func GoTypeName(rule string) string {
 	return GoName(rule) + "Node"
 }
@@ -20,17 +18,7 @@ func GoName(rule string) string {
 	if strings.HasSuffix(rule, "Node") {
 		return strings.TrimSuffix(rule, "Node")
 	}
-	if gotypemap == nil {
-		gotypemap = map[string]string{}
-	}
-
-	if val, has := gotypemap[rule]; has {
-		return val
-	}
-
-	res := strcase.ToCamel(DropCaps(rule))
-	gotypemap[rule] = res
-	return res
+	return strcase.ToCamel(DropCaps(rule))
 }
 
 func DropCaps(rule string) string {
-- 
2.43.0


From d6c3810c2f07c8004ff6c2c4b6eafc62da50ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 59/76] fix: generate stacks that refer to themselves by name,
 too

---
 cmd/codegen/pushtype.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index d64b687..591b6ab 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -93,8 +93,13 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			c = child
 			appendNext = false
 		case stackBackRef:
-			if _, ok := next.(stackBackRef); ok {
+			switch next := next.(type) {
+			case stackBackRef:
 				return children
+			case namedRule:
+				if next.returnType == child.parent { // The rule refers to itself by its name, too.
+					return children
+				}
 			}
 		case choice:
 			if _, ok := next.(choice); ok {
-- 
2.43.0


From 22dd29b911c5fadbc3148852667c19a94106c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:26 +0000
Subject: [PATCH 60/76] fix: generate several back references to one name in a
 rule

---
 cmd/codegen/pushtype.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 591b6ab..9300bc1 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -101,6 +101,10 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 					return children
 				}
 			}
+		case backRef:
+			if _, ok := next.(backRef); ok {
+				return children
+			}
 		case choice:
 			if _, ok := next.(choice); ok {
 				return children
-- 
2.43.0


From e7f3710f73ee9ce8e51f540ec25c6d528152086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:45 +0000
Subject: [PATCH 61/76] fix: generate accessors of @ within named terms of
 stacks for the type of the term

---
 cmd/codegen/pushtype.go    |  2 +-
 cmd/codegen/typebuilder.go | 12 +++++++-----
 cmd/codegen/types.go       |  4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/codegen/pushtype.go b/cmd/codegen/pushtype.go
index 9300bc1..69deac1 100644
--- a/cmd/codegen/pushtype.go
+++ b/cmd/codegen/pushtype.go
@@ -97,7 +97,7 @@ func checkForDupes(children []GrammarType, next GrammarType) []GrammarType {
 			case stackBackRef:
 				return children
 			case namedRule:
-				if next.returnType == child.parent { // The rule refers to itself by its name, too.
+				if next.returnType == child.returnType { // The rule refers to itself by its name, too.
 					return children
 				}
 			}
diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index 6725ccc..cc7f150 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -58,7 +58,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 			}
 		}
 		if needStackAddition {
-			tm.pushType("", typeName, stackBackRef{name: r.String(), parent: typeName})
+			tm.pushType("", typeName, stackBackRef{name: r.String(), parent: typeName, returnType: typeName})
 		}
 	}
 
@@ -89,8 +89,9 @@ func (tm *TypeMap) makeLeafType(
 		if t == parser.At {
 			si := knownRules.MustGet(t.String()).(stackInfo)
 			val = stackBackRef{
-				name:   si.ident,
-				parent: si.parentName,
+				name:       si.ident,
+				parent:     parentName,
+				returnType: si.parentName,
 			}
 		} else {
 			val = namedRule{
@@ -168,8 +169,9 @@ func (tm *TypeMap) walkTerm(
 			if term == parser.At {
 				si := knownRules.MustGet(term.String()).(stackInfo)
 				val = stackBackRef{
-					name:   t.Name,
-					parent: si.parentName,
+					name:       t.Name,
+					parent:     parentName,
+					returnType: si.parentName,
 				}
 			} else {
 				val = namedRule{
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index e987dc3..0a27ac9 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -54,7 +54,7 @@ type (
 		parent string
 	}
 	stackBackRef struct {
-		name, parent string
+		name, parent, returnType string
 	}
 	backRef struct {
 		name, parent string
@@ -182,7 +182,7 @@ func (t stackBackRef) toNamedRule() GrammarType {
 	return namedRule{
 		name:       t.name,
 		parent:     t.parent,
-		returnType: t.parent,
+		returnType: t.returnType,
 		count:      countManager{int: wantAllGetter},
 	}
 }
-- 
2.43.0


From c9217c9a3e6f79260917a333e8b6eedaf16dc985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 62/76] fix: walkers must call the exit callbacks of nodes
 without children, and exit only those that are asked to

---
 cmd/codegen/walkerinterface.go |  40 +----
 wbnf/wbnfgrammar.go            | 306 ++++++++++++++++++++-------------
 2 files changed, 196 insertions(+), 150 deletions(-)

diff --git a/cmd/codegen/walkerinterface.go b/cmd/codegen/walkerinterface.go
index fb62224..4446620 100644
--- a/cmd/codegen/walkerinterface.go
+++ b/cmd/codegen/walkerinterface.go
@@ -25,12 +25,7 @@ func (w VisitorWriter) String() string {
 	parts = []string{}
 	for _, t := range w.types {
 		typeName := GoTypeName(t.TypeName())
-		if len(t.Children()) > 0 {
-			parts = append(parts, fmt.Sprintf("\tcase %s: return w.Walk%s(node)\n", typeName, typeName))
-		} else {
-			parts = append(parts, fmt.Sprintf("\tcase %s: if fn := w.Enter%s; fn != nil { return fn(node) }\n",
-				typeName, typeName))
-		}
+		parts = append(parts, fmt.Sprintf("\tcase %s: return w.Walk%s(node)\n", typeName, typeName))
 	}
 	sort.Strings(parts)
 	out += "\n" + `func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
@@ -38,9 +33,7 @@ func (w VisitorWriter) String() string {
 ` + strings.Join(parts, "\n") + "\n}\nreturn nil\n}\n"
 	parts = []string{}
 	for _, t := range w.types {
-		if len(t.Children()) > 0 {
-			parts = append(parts, w.getTypeWalker(t))
-		}
+		parts = append(parts, w.getTypeWalker(t))
 	}
 	sort.Strings(parts)
 	return out + strings.Join(parts, "\n")
@@ -53,21 +46,8 @@ func (w *VisitorWriter) getTypeWalker(t GrammarType) string {
 		if s := fn(node); s != nil { if s.ExitNode() { return nil } else if s.Abort() { return s} }\n}\n`)
 
 	for _, child := range t.Children() {
-		funcs := child.CallbackData()
-		switch child := child.(type) {
-		case namedRule:
-			if r, ok := w.types[GoTypeName(child.returnType)]; ok {
-				if len(r.Children()) == 0 {
-					walker += getWalkerFuncs(funcs, false)
-					continue
-				}
-			}
-		case stackBackRef:
-			walker += getWalkerFuncs(funcs, true)
-			continue
-		}
-		if funcs != nil {
-			walker += getWalkerFuncs(funcs, true)
+		if funcs := child.CallbackData(); funcs != nil {
+			walker += getWalkerFuncs(funcs)
 		}
 	}
 
@@ -82,22 +62,14 @@ func GetVisitorWriter(types map[string]GrammarType, startRule string) VisitorWri
 	return VisitorWriter{types, startRule}
 }
 
-func getWalkerFuncs(funcs *callbackData, isWalker bool) string {
+func getWalkerFuncs(funcs *callbackData) string {
 	var walker string
 	if funcs.isMany {
 		walker += fmt.Sprintf("for _, child := range node.All%s() {\n", funcs.getter)
 	} else {
 		walker += fmt.Sprintf("if child := node.One%s(); child != nil { child := *child\n", funcs.getter)
 	}
-	if isWalker {
-		walker += fmt.Sprintf(`if s := w.Walk%s(child); s != nil { 
+	walker += fmt.Sprintf(`if s := w.Walk%s(child); s != nil { 
 			if s.ExitNode() { return nil } else if s.Abort() { return s} } }`+"\n", funcs.walker)
-	} else {
-		walker += fmt.Sprintf(`if fn := w.Enter%s; fn != nil { 
-			if s := fn(child); s != nil { 
-				if s.ExitNode() { return nil } else if s.Abort() { return s} } 
-			}
-		}`+"\n", funcs.walker)
-	}
 	return walker
 }
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index aba80f9..03fe95f 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -747,22 +747,16 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 		return w.WalkAtomNode(node)
 
 	case CommentNode:
-		if fn := w.EnterCommentNode; fn != nil {
-			return fn(node)
-		}
+		return w.WalkCommentNode(node)
 
 	case GrammarNode:
 		return w.WalkGrammarNode(node)
 
 	case IdentNode:
-		if fn := w.EnterIdentNode; fn != nil {
-			return fn(node)
-		}
+		return w.WalkIdentNode(node)
 
 	case IntNode:
-		if fn := w.EnterIntNode; fn != nil {
-			return fn(node)
-		}
+		return w.WalkIntNode(node)
 
 	case MacrocallNode:
 		return w.WalkMacrocallNode(node)
@@ -789,9 +783,7 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 		return w.WalkQuantNode(node)
 
 	case ReNode:
-		if fn := w.EnterReNode; fn != nil {
-			return fn(node)
-		}
+		return w.WalkReNode(node)
 
 	case RefNode:
 		return w.WalkRefNode(node)
@@ -800,17 +792,13 @@ func (w WalkerOps) Walk(tree IsWalkableType) Stopper {
 		return w.WalkStmtNode(node)
 
 	case StrNode:
-		if fn := w.EnterStrNode; fn != nil {
-			return fn(node)
-		}
+		return w.WalkStrNode(node)
 
 	case TermNode:
 		return w.WalkTermNode(node)
 
 	case WrapReNode:
-		if fn := w.EnterWrapReNode; fn != nil {
-			return fn(node)
-		}
+		return w.WalkWrapReNode(node)
 
 	}
 	return nil
@@ -827,13 +815,11 @@ func (w WalkerOps) WalkAtomExtRefNode(node AtomExtRefNode) Stopper {
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -868,13 +854,11 @@ func (w WalkerOps) WalkAtomNode(node AtomNode) Stopper {
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -900,13 +884,11 @@ func (w WalkerOps) WalkAtomNode(node AtomNode) Stopper {
 	}
 	if child := node.OneRe(); child != nil {
 		child := *child
-		if fn := w.EnterReNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkReNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -922,13 +904,11 @@ func (w WalkerOps) WalkAtomNode(node AtomNode) Stopper {
 	}
 	if child := node.OneStr(); child != nil {
 		child := *child
-		if fn := w.EnterStrNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkStrNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -951,6 +931,25 @@ func (w WalkerOps) WalkAtomNode(node AtomNode) Stopper {
 	return nil
 }
 
+func (w WalkerOps) WalkCommentNode(node CommentNode) Stopper {
+	if fn := w.EnterCommentNode; fn != nil {
+		if s := fn(node); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
+			}
+		}
+	}
+
+	if fn := w.ExitCommentNode; fn != nil {
+		if s := fn(node); s != nil && s.Abort() {
+			return s
+		}
+	}
+	return nil
+}
+
 func (w WalkerOps) WalkGrammarNode(node GrammarNode) Stopper {
 	if fn := w.EnterGrammarNode; fn != nil {
 		if s := fn(node); s != nil {
@@ -979,6 +978,44 @@ func (w WalkerOps) WalkGrammarNode(node GrammarNode) Stopper {
 	return nil
 }
 
+func (w WalkerOps) WalkIdentNode(node IdentNode) Stopper {
+	if fn := w.EnterIdentNode; fn != nil {
+		if s := fn(node); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
+			}
+		}
+	}
+
+	if fn := w.ExitIdentNode; fn != nil {
+		if s := fn(node); s != nil && s.Abort() {
+			return s
+		}
+	}
+	return nil
+}
+
+func (w WalkerOps) WalkIntNode(node IntNode) Stopper {
+	if fn := w.EnterIntNode; fn != nil {
+		if s := fn(node); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
+			}
+		}
+	}
+
+	if fn := w.ExitIntNode; fn != nil {
+		if s := fn(node); s != nil && s.Abort() {
+			return s
+		}
+	}
+	return nil
+}
+
 func (w WalkerOps) WalkMacrocallNode(node MacrocallNode) Stopper {
 	if fn := w.EnterMacrocallNode; fn != nil {
 		if s := fn(node); s != nil {
@@ -991,13 +1028,11 @@ func (w WalkerOps) WalkMacrocallNode(node MacrocallNode) Stopper {
 	}
 	if child := node.OneName(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1041,13 +1076,11 @@ func (w WalkerOps) WalkNamedNode(node NamedNode) Stopper {
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1119,25 +1152,21 @@ func (w WalkerOps) WalkPragmaMacrodefNode(node PragmaMacrodefNode) Stopper {
 		}
 	}
 	for _, child := range node.AllArgs() {
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneName(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1211,13 +1240,11 @@ func (w WalkerOps) WalkProdNode(node ProdNode) Stopper {
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1251,25 +1278,21 @@ func (w WalkerOps) WalkQuantNode(node QuantNode) Stopper {
 	}
 	if child := node.OneMax(); child != nil {
 		child := *child
-		if fn := w.EnterIntNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIntNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneMin(); child != nil {
 		child := *child
-		if fn := w.EnterIntNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIntNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1292,6 +1315,25 @@ func (w WalkerOps) WalkQuantNode(node QuantNode) Stopper {
 	return nil
 }
 
+func (w WalkerOps) WalkReNode(node ReNode) Stopper {
+	if fn := w.EnterReNode; fn != nil {
+		if s := fn(node); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
+			}
+		}
+	}
+
+	if fn := w.ExitReNode; fn != nil {
+		if s := fn(node); s != nil && s.Abort() {
+			return s
+		}
+	}
+	return nil
+}
+
 func (w WalkerOps) WalkRefNode(node RefNode) Stopper {
 	if fn := w.EnterRefNode; fn != nil {
 		if s := fn(node); s != nil {
@@ -1304,25 +1346,21 @@ func (w WalkerOps) WalkRefNode(node RefNode) Stopper {
 	}
 	if child := node.OneDefault(); child != nil {
 		child := *child
-		if fn := w.EnterStrNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkStrNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
 	if child := node.OneIdent(); child != nil {
 		child := *child
-		if fn := w.EnterIdentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkIdentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1347,13 +1385,11 @@ func (w WalkerOps) WalkStmtNode(node StmtNode) Stopper {
 	}
 	if child := node.OneComment(); child != nil {
 		child := *child
-		if fn := w.EnterCommentNode; fn != nil {
-			if s := fn(child); s != nil {
-				if s.ExitNode() {
-					return nil
-				} else if s.Abort() {
-					return s
-				}
+		if s := w.WalkCommentNode(child); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
 			}
 		}
 	}
@@ -1386,6 +1422,25 @@ func (w WalkerOps) WalkStmtNode(node StmtNode) Stopper {
 	return nil
 }
 
+func (w WalkerOps) WalkStrNode(node StrNode) Stopper {
+	if fn := w.EnterStrNode; fn != nil {
+		if s := fn(node); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
+			}
+		}
+	}
+
+	if fn := w.ExitStrNode; fn != nil {
+		if s := fn(node); s != nil && s.Abort() {
+			return s
+		}
+	}
+	return nil
+}
+
 func (w WalkerOps) WalkTermNode(node TermNode) Stopper {
 	if fn := w.EnterTermNode; fn != nil {
 		if s := fn(node); s != nil {
@@ -1442,6 +1497,25 @@ func (w WalkerOps) WalkTermNode(node TermNode) Stopper {
 	return nil
 }
 
+func (w WalkerOps) WalkWrapReNode(node WrapReNode) Stopper {
+	if fn := w.EnterWrapReNode; fn != nil {
+		if s := fn(node); s != nil {
+			if s.ExitNode() {
+				return nil
+			} else if s.Abort() {
+				return s
+			}
+		}
+	}
+
+	if fn := w.ExitWrapReNode; fn != nil {
+		if s := fn(node); s != nil && s.Abort() {
+			return s
+		}
+	}
+	return nil
+}
+
 func (c GrammarNode) GetAstNode() ast.Node { return c.Node }
 
 func NewGrammarNode(from ast.Node) GrammarNode { return GrammarNode{from} }
-- 
2.43.0


From b5bc683b545c7060649e738ac9e6c30c54133f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 63/76] fix: OneToken must not panic on nodes whose only
 children are several

---
 cmd/codegen/types.go |  6 ++++--
 wbnf/wbnfgrammar.go  | 48 +++++++++++++++++++++++++++++---------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 0a27ac9..21a109d 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -258,8 +258,10 @@ func (c {{parent}}) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 03fe95f..b0b4e3a 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -146,8 +146,10 @@ func (c AtomExtRefNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -221,8 +223,10 @@ func (c AtomNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -303,8 +307,10 @@ func (c MacrocallNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -361,8 +367,10 @@ func (c PragmaImportNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -413,8 +421,10 @@ func (c PragmaMacrodefNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -473,8 +483,10 @@ func (c ProdNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -542,8 +554,10 @@ func (c QuantNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
@@ -592,8 +606,10 @@ func (c RefNode) OneToken() string {
 	}
 	if b, ok := c.Node.(ast.Branch); ok && len(b) == 1 {
 		for _, c := range b {
-			if child := ast.First(c.(ast.One).Node, ""); child != nil {
-				return child.Scanner().String()
+			if c, ok := c.(ast.One); ok {
+				if child := ast.First(c.Node, ""); child != nil {
+					return child.Scanner().String()
+				}
 			}
 		}
 	}
-- 
2.43.0


From 50eb1d7847266aac8913245ec77145806bb5ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 64/76] fix: typed accessors of named references to rules
 return the rule's node

The ast holds the node for x=rule as (x: (rule: node)), but OneX and AllX
wrapped (rule: node), so that none of the accessors of the type found
anything in it and walkers didn't get below it.
---
 cmd/codegen/typebuilder.go |  2 ++
 cmd/codegen/types.go       | 15 +++++++++++++--
 wbnf/wbnfgrammar.go        | 21 +++++++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index cc7f150..b6306bc 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -172,12 +172,14 @@ func (tm *TypeMap) walkTerm(
 					name:       t.Name,
 					parent:     parentName,
 					returnType: si.parentName,
+					rule:       si.ident,
 				}
 			} else {
 				val = namedRule{
 					name:       t.Name,
 					parent:     parentName,
 					returnType: knownRules.MustGet(term.String()).(string),
+					rule:       term.String(),
 					count:      quant,
 				}
 			}
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 21a109d..c8689df 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -55,6 +55,7 @@ type (
 	}
 	stackBackRef struct {
 		name, parent, returnType string
+		rule                     string // see namedRule
 	}
 	backRef struct {
 		name, parent string
@@ -69,6 +70,7 @@ type (
 	}
 	namedRule struct {
 		name, parent, returnType string
+		rule                     string // of x=rule; the ast holds its node as (x: (rule: node))
 		count                    countManager
 	}
 	rule struct {
@@ -183,6 +185,7 @@ func (t stackBackRef) toNamedRule() GrammarType {
 		name:       t.name,
 		parent:     t.parent,
 		returnType: t.returnType,
+		rule:       t.rule,
 		count:      countManager{int: wantAllGetter},
 	}
 }
@@ -288,8 +291,16 @@ func (t namedRule) TypeName() string        { return "" /* not exported */ }
 func (t namedRule) Ident() string           { return t.name }
 func (t namedRule) Children() []GrammarType { return nil }
 func (t namedRule) String() string {
+	unwrap := ""
+	if t.rule != "" {
+		unwrap = strings.ReplaceAll(`
+		if node := ast.First(child, {{rule}}); node != nil {
+			child = node
+		}`, "{{rule}}", IdentName(t.rule))
+	}
 	replacer := strings.NewReplacer("{{parent}}", GoTypeName(t.parent),
 		"{{child}}", GoName(t.name),
+		"{{unwrap}}", unwrap,
 		"{{returnType}}", GoTypeName(t.returnType),
 		"{{name}}", IdentName(t.name),
 	)
@@ -297,7 +308,7 @@ func (t namedRule) String() string {
 	if t.count.wantOne() {
 		out += replacer.Replace(`
 func (c {{parent}}) One{{child}}() *{{returnType}} {
-	if child := ast.First(c.Node, {{name}}); child != nil {
+	if child := ast.First(c.Node, {{name}}); child != nil {{{unwrap}}
 		return &{{returnType}}{child}
 	}
 	return nil
@@ -307,7 +318,7 @@ func (c {{parent}}) One{{child}}() *{{returnType}} {
 	if t.count.wantAll() {
 		out += replacer.Replace(`func (c {{parent}}) All{{child}}() []{{returnType}} {
 	var out []{{returnType}}
-	for _, child := range ast.All(c.Node, {{name}}) {
+	for _, child := range ast.All(c.Node, {{name}}) {{{unwrap}}
 		out = append(out, {{returnType}}{child})
 	}
 	return out
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b0b4e3a..199acb1 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -177,6 +177,9 @@ func (c AtomNode) OneIdent() *IdentNode {
 
 func (c AtomNode) OneLookahead() *TermNode {
 	if child := ast.First(c.Node, "lookahead"); child != nil {
+		if node := ast.First(child, "term"); node != nil {
+			child = node
+		}
 		return &TermNode{child}
 	}
 	return nil
@@ -288,6 +291,9 @@ func (MacrocallNode) isWalkableType() {}
 
 func (c MacrocallNode) OneName() *IdentNode {
 	if child := ast.First(c.Node, "name"); child != nil {
+		if node := ast.First(child, "IDENT"); node != nil {
+			child = node
+		}
 		return &IdentNode{child}
 	}
 	return nil
@@ -396,6 +402,9 @@ func (PragmaMacrodefNode) isWalkableType() {}
 func (c PragmaMacrodefNode) AllArgs() []IdentNode {
 	var out []IdentNode
 	for _, child := range ast.All(c.Node, "args") {
+		if node := ast.First(child, "IDENT"); node != nil {
+			child = node
+		}
 		out = append(out, IdentNode{child})
 	}
 	return out
@@ -403,6 +412,9 @@ func (c PragmaMacrodefNode) AllArgs() []IdentNode {
 
 func (c PragmaMacrodefNode) OneName() *IdentNode {
 	if child := ast.First(c.Node, "name"); child != nil {
+		if node := ast.First(child, "IDENT"); node != nil {
+			child = node
+		}
 		return &IdentNode{child}
 	}
 	return nil
@@ -508,6 +520,9 @@ func (c QuantNode) Choice() int   { return ast.Choice(c.Node) }
 
 func (c QuantNode) OneMax() *IntNode {
 	if child := ast.First(c.Node, "max"); child != nil {
+		if node := ast.First(child, "INT"); node != nil {
+			child = node
+		}
 		return &IntNode{child}
 	}
 	return nil
@@ -515,6 +530,9 @@ func (c QuantNode) OneMax() *IntNode {
 
 func (c QuantNode) OneMin() *IntNode {
 	if child := ast.First(c.Node, "min"); child != nil {
+		if node := ast.First(child, "INT"); node != nil {
+			child = node
+		}
 		return &IntNode{child}
 	}
 	return nil
@@ -588,6 +606,9 @@ func (RefNode) isWalkableType() {}
 
 func (c RefNode) OneDefault() *StrNode {
 	if child := ast.First(c.Node, "default"); child != nil {
+		if node := ast.First(child, "STR"); node != nil {
+			child = node
+		}
 		return &StrNode{child}
 	}
 	return nil
-- 
2.43.0


From 5591ea0488d98bcdf98557a39e76ed53c0929710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 65/76] fix: generate plural accessors for what occurs inside
 and beside a choice

A rule such as REF -> '%' IDENT ('=' STR)? or a -> 'x' ('y' | 'z') got OneToken
only, as the first token's place was forgotten and each option counted as
excluding what is beside its choice, too.
---
 cmd/codegen/typebuilder.go | 43 +++++++++++++++++++-------------------
 cmd/codegen/types.go       | 35 +++++++++++++++++++++++--------
 wbnf/wbnfgrammar.go        | 16 ++++++++++++++
 3 files changed, 64 insertions(+), 30 deletions(-)

diff --git a/cmd/codegen/typebuilder.go b/cmd/codegen/typebuilder.go
index b6306bc..10eda90 100644
--- a/cmd/codegen/typebuilder.go
+++ b/cmd/codegen/typebuilder.go
@@ -43,7 +43,7 @@ func (tm *TypeMap) walkGrammar(prefix string, g parser.Grammar, knownRules froze
 	for r, term := range g {
 		typeName := prefix + GoName(r.String())
 		tm.walkTerm(term, typeName, setWantOneGetter(),
-			pushRuleNameForStack(r.String(), typeName, knownRules), rand.Int()) //nolint:gosec
+			pushRuleNameForStack(r.String(), typeName, knownRules), branch{0})
 		// Now we need to check if stack terms were used, if they were we need to ensure that unnamed rule child
 		// was added, otherwise a rule like `f -> foo=@ > BAR;` would not generate a working walker api
 		newT := tm.findOrAddType(typeName)
@@ -70,10 +70,10 @@ func (tm *TypeMap) handleSeq(
 	parentName string,
 	quant countManager,
 	knownRules frozen.Map[string, any],
-	termID int,
+	at branch,
 ) {
 	for _, t := range terms {
-		tm.walkTerm(t, parentName, quant, knownRules, termID)
+		tm.walkTerm(t, parentName, quant, knownRules, at)
 	}
 }
 
@@ -114,11 +114,11 @@ func (tm *TypeMap) walkTerm(
 	parentName string,
 	quant countManager,
 	knownRules frozen.Map[string, any],
-	termID int,
+	at branch,
 ) {
 	switch t := term.(type) {
 	case parser.S, parser.RE, parser.Rule:
-		tm.makeLeafType(term, parentName, quant.pushSingleNode(termID), knownRules)
+		tm.makeLeafType(term, parentName, quant.pushSingleNode(at...), knownRules)
 	case parser.REF:
 		tm.pushType("", parentName, backRef{
 			name:   t.Ident,
@@ -127,19 +127,20 @@ func (tm *TypeMap) walkTerm(
 	case parser.ScopedGrammar:
 		knownRules = mergeGrammarRules(parentName, t.Grammar, knownRules)
 		scoped := tm.walkGrammar(parentName, t.Grammar, knownRules)
-		scoped.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		scoped.walkTerm(t.Term, parentName, quant, knownRules, at)
 		*tm = tm.merge(scoped)
 	case parser.Seq:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
+		tm.handleSeq(t, parentName, quant, knownRules, at)
 	case parser.Oneof:
 		tm.pushType("", parentName, choice{parent: parentName})
-		for _, t := range t {
-			tm.walkTerm(t, parentName, quant, knownRules, rand.Int()) //nolint:gosec
+		id := rand.Int() //nolint:gosec
+		for i, t := range t {
+			tm.walkTerm(t, parentName, quant, knownRules, at.option(id, i))
 		}
 	case parser.Stack:
-		tm.handleSeq(t, parentName, quant, knownRules, termID)
+		tm.handleSeq(t, parentName, quant, knownRules, at)
 	case parser.Delim:
-		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, termID)
+		tm.walkTerm(t.Term, parentName, setWantAllGetter(), knownRules, at)
 		switch delim := t.Sep.(type) {
 		case parser.Named:
 			childName := parentName + GoName(delim.Name)
@@ -151,15 +152,15 @@ func (tm *TypeMap) walkTerm(
 					count:  quant,
 				})
 			default:
-				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, termID)
+				tm.walkTerm(t.Sep, parentName, setWantAllGetter(), knownRules, at)
 			}
 		case parser.Rule:
 			childName := parentName + GoName(delim.String())
-			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, termID)
+			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, at)
 		case parser.CutPoint, parser.S: // ignore the delim
 		default:
 			childName := parentName + "Delim"
-			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, termID)
+			tm.walkTerm(t.Sep, childName, setWantAllGetter(), knownRules, at)
 		}
 	case parser.Named:
 		childName := parentName + GoName(t.Name)
@@ -180,7 +181,7 @@ func (tm *TypeMap) walkTerm(
 					parent:     parentName,
 					returnType: knownRules.MustGet(term.String()).(string),
 					rule:       term.String(),
-					count:      quant,
+					count:      quant.pushSingleNode(at...),
 				}
 			}
 			tm.pushType(childName, parentName, val)
@@ -188,27 +189,27 @@ func (tm *TypeMap) walkTerm(
 			tm.pushType(childName, parentName, namedToken{
 				name:   t.Name,
 				parent: parentName,
-				count:  quant,
+				count:  quant.pushSingleNode(at...),
 			})
 		default:
-			tm.walkTerm(t.Term, childName, quant, knownRules, termID)
+			tm.walkTerm(t.Term, childName, quant, knownRules, at)
 			tm.findOrAddType(childName)
 			tm.pushType(childName, parentName, namedRule{
 				name:       t.Name,
 				parent:     parentName,
 				returnType: childName,
-				count:      quant,
+				count:      quant.pushSingleNode(at...),
 			})
 		}
 	case parser.Quant:
 		if t.Max != 1 {
 			quant = setWantAllGetter()
 		}
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, at)
 	case parser.CutPoint:
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, at)
 	case parser.LookAhead:
-		tm.walkTerm(t.Term, parentName, quant, knownRules, termID)
+		tm.walkTerm(t.Term, parentName, quant, knownRules, at)
 	case parser.ExtRef:
 		// nothing yet
 	default:
diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index c8689df..2bb4c9c 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -96,25 +96,42 @@ const (
 //	    a -> x="a"+ | x="b"				one option wants only one, the other wants at least one.
 //	etc.
 //
-// To track this, each countManager keeps a set of identifiers for each branch of a term the ident is used in,
-// If each term is unique, and they all want just One, then the result should only require a One.
+// To track this, each countManager keeps the branches of a term the ident is used in. If no two of them can be taken
+// together, and they all want just One, then the result should only require a One.
 type countManager struct {
 	int
-	nodes []int
+	nodes []branch
+}
+
+// branch says which options of which choices lead to a term: an option, a choice within it, an option of that, etc.
+type branch []int
+
+func (b branch) option(choice, option int) branch {
+	return append(append(make(branch, 0, len(b)+2), b...), choice, option)
+}
+
+// excludes tells whether the two are different options of one choice.
+func (b branch) excludes(other branch) bool {
+	for i := 0; i < len(b) && i < len(other); i++ {
+		if b[i] != other[i] {
+			return i%2 == 0
+		}
+	}
+	return false
 }
 
 func (c countManager) forceMany() countManager {
 	c.int |= wantAllGetter
 	return c
 }
-func (c countManager) pushSingleNode(id int) countManager {
+func (c countManager) pushSingleNode(b ...int) countManager {
 	if !c.wantAll() {
 		for _, x := range c.nodes {
-			if x == id {
+			if !x.excludes(b) {
 				return c.forceMany()
 			}
 		}
-		c.nodes = append(c.nodes, id)
+		c.nodes = append(c.nodes[:len(c.nodes):len(c.nodes)], b)
 	}
 	return c
 }
@@ -123,8 +140,8 @@ func (c countManager) merge(other countManager) countManager {
 	if other.wantAll() {
 		return c.forceMany()
 	}
-	for _, id := range other.nodes {
-		c = c.pushSingleNode(id)
+	for _, b := range other.nodes {
+		c = c.pushSingleNode(b...)
 	}
 	return c
 }
@@ -151,7 +168,7 @@ func (t basicRule) CallbackData() *callbackData { return nil }
 func (t basicRule) Upgrade() unnamedToken {
 	return unnamedToken{
 		parent: string(t),
-		count:  countManager{int: wantOneGetter},
+		count:  setWantOneGetter().pushSingleNode(),
 	}
 }
 
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index 199acb1..b24dd4b 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -383,6 +383,14 @@ func (c PragmaImportNode) OneToken() string {
 	return ""
 }
 
+func (c PragmaImportNode) AllToken() []string {
+	var out []string
+	for _, child := range ast.All(c.Node, "") {
+		out = append(out, child.Scanner().String())
+	}
+	return out
+}
+
 type PragmaImportPathNode struct{ ast.Node }
 
 func (PragmaImportPathNode) isWalkableType() {}
@@ -637,6 +645,14 @@ func (c RefNode) OneToken() string {
 	return ""
 }
 
+func (c RefNode) AllToken() []string {
+	var out []string
+	for _, child := range ast.All(c.Node, "") {
+		out = append(out, child.Scanner().String())
+	}
+	return out
+}
+
 type StmtNode struct{ ast.Node }
 
 func (StmtNode) isWalkableType() {}
-- 
2.43.0


From 4c461b59ad6206745f034f4f46eaf0ec69d8187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 66/76] fix: accessors of named tokens don't panic on back
 references to them

The ast holds what %x matched under x as well, but as a mere leaf, for which
AllX (or OneX) of x='a' dereferenced nil.
---
 cmd/codegen/types.go | 10 ++++++++--
 wbnf/wbnfgrammar.go  | 25 ++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index 2bb4c9c..b30423d 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -236,7 +236,10 @@ func (t namedToken) String() string {
 		out += replacer.Replace(`
 func (c {{parent}}) One{{childtype}}() string {
 	if child := ast.First(c.Node, {{name}}); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -247,7 +250,10 @@ func (c {{parent}}) One{{childtype}}() string {
 func (c {{parent}}) All{{childtype}}() []string {
 	var out []string
 	for _, child := range ast.All(c.Node, {{name}}) {
-		out = append(out, ast.First(child, "").Scanner().String())
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		out = append(out, child.Scanner().String())
 	}
 	return out
 }
diff --git a/wbnf/wbnfgrammar.go b/wbnf/wbnfgrammar.go
index b24dd4b..82664c6 100644
--- a/wbnf/wbnfgrammar.go
+++ b/wbnf/wbnfgrammar.go
@@ -351,7 +351,10 @@ func (c NamedNode) OneIdent() *IdentNode {
 
 func (c NamedNode) OneOp() string {
 	if child := ast.First(c.Node, "op"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -555,21 +558,30 @@ func (c QuantNode) OneNamed() *NamedNode {
 
 func (c QuantNode) OneOp() string {
 	if child := ast.First(c.Node, "op"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
 
 func (c QuantNode) OneOptLeading() string {
 	if child := ast.First(c.Node, "opt_leading"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
 
 func (c QuantNode) OneOptTrailing() string {
 	if child := ast.First(c.Node, "opt_trailing"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
@@ -709,7 +721,10 @@ func (c TermNode) OneNamed() *NamedNode {
 
 func (c TermNode) OneOp() string {
 	if child := ast.First(c.Node, "op"); child != nil {
-		return ast.First(child, "").Scanner().String()
+		if token := ast.First(child, ""); token != nil {
+			child = token
+		}
+		return child.Scanner().String()
 	}
 	return ""
 }
-- 
2.43.0


From abf37cb2f2aab8ae7a822d9f893a326f2972707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 67/76] fix: comparing grammars doesn't panic over nil and
 empty lists

diff.Grammars panicked if its verdict differed from that of reflect.DeepEqual,
which tells Seq(nil) from Seq{}.
---
 parser/diff/terms.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/parser/diff/terms.go b/parser/diff/terms.go
index 2d9f8de..e285aac 100644
--- a/parser/diff/terms.go
+++ b/parser/diff/terms.go
@@ -56,11 +56,6 @@ func Grammars(a, b parser.Grammar) GrammarDiff {
 			diff.OnlyInB = append(diff.OnlyInB, rule)
 		}
 	}
-	if diff.Equal() != reflect.DeepEqual(a, b) {
-		panic(fmt.Sprintf(
-			"diff.Equal() == %v != %v == reflect.DeepEqual(a, b): %#v\n%#v\n%#v",
-			diff.Equal(), reflect.DeepEqual(a, b), diff, a, b))
-	}
 	return diff
 }
 
-- 
2.43.0


From ff354c6763ae9549a4574f7aa4fc5f54af21c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 68/76] fix: scanners without a source print as the empty
 string they are

---
 parser/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/scanner.go b/parser/scanner.go
index 6a6fc20..ec4c930 100644
--- a/parser/scanner.go
+++ b/parser/scanner.go
@@ -63,9 +63,9 @@ func (s Scanner) IsNil() bool {
 
 func (s Scanner) Format(state fmt.State, c rune) {
 	if c == 'q' {
-		_, _ = fmt.Fprintf(state, "%q", s.slice())
+		_, _ = fmt.Fprintf(state, "%q", s.String())
 	} else {
-		_, _ = state.Write([]byte(s.slice()))
+		_, _ = state.Write([]byte(s.String()))
 	}
 }
 
-- 
2.43.0


From 7ead2a472fdf4a0982237f7215fc6ce19b0f47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:42 +0000
Subject: [PATCH 69/76] fix: an empty list in an AST doesn't equal the absence
 of one

---
 ast/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/node.go b/ast/node.go
index 011d5cd..e04354c 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -208,8 +208,8 @@ func (b Branch) ContentEquals(other Node) bool {
 					return false
 				}
 			case Many:
-				otherNodes := other.Many(k)
-				if len(v) != len(otherNodes) {
+				otherNodes, ok := other[k].(Many)
+				if !ok || len(v) != len(otherNodes) {
 					return false
 				}
 				for i, n := range v {
-- 
2.43.0


From 1542e561397bf4f3b331809eccce9391a0e419ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 70/76] fix: a bounded repetition of nothing went on up to its
 bound, however large

---
 ast/to_parsernode.go | 6 +++++-
 parser/parser.go     | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ast/to_parsernode.go b/ast/to_parsernode.go
index 4a4b65f..7cfdb3c 100644
--- a/ast/to_parsernode.go
+++ b/ast/to_parsernode.go
@@ -206,11 +206,15 @@ func (b Branch) toParserNode(s *scope, term parser.Term, ctrs counters) (out par
 		for t.Max == 0 || len(result.Children) < t.Max {
 			saved := b.copy()
 			v := b.toParserNode(s, t.Term, ctrs)
-			if v == nil || t.Max == 0 && len(result.Children) >= t.Min && b.size() == saved.size() {
+			stuck := b.size() == saved.size()
+			if v == nil || stuck && t.Max == 0 && len(result.Children) >= t.Min {
 				b.restore(saved)
 				break
 			}
 			result.Children = append(result.Children, v)
+			if stuck && len(result.Children) >= t.Min {
+				break
+			}
 		}
 		if !t.Contains(len(result.Children)) {
 			return nil
diff --git a/parser/parser.go b/parser/parser.go
index 6997dc7..cebefef 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -700,10 +700,15 @@ func (p *quantParser) Parse(scope Scope, input *Scanner, output *TreeElement, st
 			termErr = err
 			break
 		}
-		if p.t.Max == 0 && len(result) >= p.t.Min && start.Offset() == input.Offset() {
-			break // Nothing was consumed, so the term would match here forever.
+		// If nothing was consumed, the term would match here over and over.
+		stuck := start.Offset() == input.Offset()
+		if stuck && p.t.Max == 0 && len(result) >= p.t.Min {
+			break
 		}
 		result = append(result, v)
+		if stuck && len(result) >= p.t.Min {
+			break
+		}
 		*input = start
 	}
 
-- 
2.43.0


From 657cab0d3e1c9f74ab0fe691f75aa6e45cc50498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 71/76] fix: counts of AST children overflowed for nested
 repetitions

---
 ast/counter.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ast/counter.go b/ast/counter.go
index f16fa32..bb30bed 100644
--- a/ast/counter.go
+++ b/ast/counter.go
@@ -19,7 +19,7 @@ func newCounterFromQuant(q parser.Quant) counter {
 	if max == 0 {
 		max = 2
 	}
-	return newCounter(q.Min, max)
+	return newCounter(q.Min, max).saturate()
 }
 
 var (
@@ -30,11 +30,22 @@ var (
 )
 
 func (c counter) add(d counter) counter {
-	return counter{lo: c.lo + d.lo, hi: c.hi + d.hi}
+	return counter{lo: c.lo + d.lo, hi: c.hi + d.hi}.saturate()
 }
 
 func (c counter) mul(d counter) counter {
-	return counter{lo: c.lo * d.lo, hi: c.hi * d.hi}
+	return counter{lo: c.lo * d.lo, hi: c.hi * d.hi}.saturate()
+}
+
+// saturate counts everything beyond one as two, lest large counts overflow.
+func (c counter) saturate() counter {
+	if c.lo > 2 {
+		c.lo = 2
+	}
+	if c.hi > 2 {
+		c.hi = 2
+	}
+	return c
 }
 
 func (c counter) union(d counter) counter {
-- 
2.43.0


From b733fbd89af17a42d2f8cc432712f5ea4567843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:45 +0000
Subject: [PATCH 72/76] fix: stack levels of rules whose names begin with a dot
 counted as names of their own in ASTs

---
 ast/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index e04354c..218c8a9 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -106,7 +106,7 @@ func (e Extra) collapse(level int) Node {
 	return e
 }
 
-var stackLevelRE = regexp.MustCompile(`^(\w+)@(\d+)$`)
+var stackLevelRE = regexp.MustCompile(`^(.+)@(\d+)$`)
 
 func unlevelName(name string) string {
 	if m := stackLevelRE.FindStringSubmatch(name); m != nil {
-- 
2.43.0


From 4684218ba30dfc34ef058c72c700159021c6bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 73/76] fix: generated code for names such as fooNode, _1 and _
 didn't compile or mixed up types

---
 cmd/codegen/types.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/codegen/types.go b/cmd/codegen/types.go
index b30423d..361fee1 100644
--- a/cmd/codegen/types.go
+++ b/cmd/codegen/types.go
@@ -15,10 +15,11 @@ func GoTypeName(rule string) string {
 }
 
 func GoName(rule string) string {
-	if strings.HasSuffix(rule, "Node") {
-		return strings.TrimSuffix(rule, "Node")
+	name := strcase.ToCamel(DropCaps(strings.TrimSuffix(rule, "Node")))
+	if rule != "" && (name == "" || '0' <= name[0] && name[0] <= '9') { // _ and _1 are names, but these aren't.
+		return "X" + name
 	}
-	return strcase.ToCamel(DropCaps(rule))
+	return name
 }
 
 func DropCaps(rule string) string {
-- 
2.43.0


From da900d0513a48221a0bd24714e32aad10d3f63fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 74/76] fix: tokens that a back reference may match again must
 never be cutpoints

---
 wbnf/cutpoints.go | 60 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/wbnf/cutpoints.go b/wbnf/cutpoints.go
index 1de82f1..f3b9e76 100644
--- a/wbnf/cutpoints.go
+++ b/wbnf/cutpoints.go
@@ -123,11 +123,69 @@ func findUniqueStrings(g parser.Grammar) frozen.Set[string] {
 		counts = counts.Merge(forTerm(t), mergeFn)
 	}
 	tokens := counts.Keys().Elements()
+	repeatable := findReferencedStrings(g)
 	return counts.Where(func(key string, val int) bool {
-		return val == 1 && key != "" && !overlaps(key, tokens)
+		return val == 1 && key != "" && !repeatable[key] && !overlaps(key, tokens)
 	}).Keys()
 }
 
+// findReferencedStrings returns the tokens of all terms that back references
+// might refer to, as such references match these tokens once more.
+func findReferencedStrings(g parser.Grammar) map[string]bool {
+	refs := []string{}
+	terms := map[string][]parser.Term{} // all terms that a name might stand for
+	var collect func(g parser.Grammar)
+	collect = func(g parser.Grammar) {
+		for rule, root := range g {
+			root := root
+			terms[string(rule)] = append(terms[string(rule)], root)
+			fixTerm(root, func(t parser.Term) parser.Term {
+				switch t := t.(type) {
+				case parser.REF:
+					refs = append(refs, t.Ident)
+				case parser.Named:
+					terms[t.Name] = append(terms[t.Name], t.Term)
+				case parser.Rule:
+					if t == parser.At {
+						terms[string(t)] = append(terms[string(t)], root)
+					}
+				case parser.ScopedGrammar:
+					collect(t.Grammar)
+				}
+				return t
+			})
+		}
+	}
+	collect(g)
+
+	out := map[string]bool{}
+	seen := map[string]bool{}
+	var visit func(name string)
+	visit = func(name string) {
+		if seen[name] {
+			return
+		}
+		seen[name] = true
+		for _, t := range terms[name] {
+			fixTerm(t, func(t parser.Term) parser.Term {
+				switch t := t.(type) {
+				case parser.S:
+					out[string(t)] = true
+				case parser.Rule:
+					visit(string(t))
+				case parser.REF:
+					visit(t.Ident)
+				}
+				return t
+			})
+		}
+	}
+	for _, ref := range refs {
+		visit(ref)
+	}
+	return out
+}
+
 // overlaps returns true iff another of the tokens might match the start of the
 // token in some text that contains it, e.g. "<=" and "<", or "->" and ">".
 func overlaps(token string, tokens []string) bool {
-- 
2.43.0


From 9e06335fc07996a276fd5b3ec4ebe148da63cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 75/76] fix: compare trees with what external handlers returned

Such a node holds a Branch, which != cannot compare: it panicked.
---
 parser/diff/nodes.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/diff/nodes.go b/parser/diff/nodes.go
index 587adce..f82d28f 100644
--- a/parser/diff/nodes.go
+++ b/parser/diff/nodes.go
@@ -33,7 +33,7 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 	if d.A.Tag != d.B.Tag {
 		fmt.Fprintf(w, "%sTag: %v != %v", prefix, d.A.Tag, d.B.Tag)
 	}
-	if d.A.Extra != d.B.Extra {
+	if !reflect.DeepEqual(d.A.Extra, d.B.Extra) {
 		fmt.Fprintf(w, "%sExtra: %v != %v", prefix, d.A.Extra, d.B.Extra)
 	}
 	if len(d.A.Children) != len(d.B.Children) {
@@ -53,7 +53,7 @@ func (d NodeDiff) report(path []string, w io.Writer) {
 func (d NodeDiff) Equal() bool {
 	return len(d.A.Children) == len(d.B.Children) &&
 		d.A.Tag == d.B.Tag &&
-		d.A.Extra == d.B.Extra &&
+		reflect.DeepEqual(d.A.Extra, d.B.Extra) &&
 		len(d.Children) == 0 &&
 		len(d.Types) == 0 &&
 		len(d.Leaves) == 0
-- 
2.43.0


From 7aec11b3686d1afb8f8dcd2ac52246b00caa2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:57 +0000
Subject: [PATCH 76/76] fix: tell lists from their operands that are lists
 alike

An operand of an associative delimiter may come from another delimiter of the
same associativity and tag; it was taken for a nested node of the former, so
that converting or unparsing the tree failed.
---
 ast/from_parsernode.go |  4 +-
 ast/scope.go           |  8 ++++
 parser/parser.go       | 84 ++++++++++++++++++++++++++++++++++++++++--
 parser/unparse.go      |  2 +-
 4 files changed, 92 insertions(+), 6 deletions(-)

diff --git a/ast/from_parsernode.go b/ast/from_parsernode.go
index d7c23a9..0f563e6 100644
--- a/ast/from_parsernode.go
+++ b/ast/from_parsernode.go
@@ -148,13 +148,13 @@ func (b Branch) fromParserNode(s *scope, term parser.Term, ctrs counters, e pars
 	case parser.Delim:
 		node := e.(parser.Node)
 		tag = node.Tag
-		tgen := t.LRTerms(node)
+		tgen := t.LRTermsIn(node, s.rules())
 		for i, child := range node.Children {
 			lrTerm := tgen.Next()
 			if _, ok := child.(parser.Empty); ok {
 				b.many("@empty", Extra{map[bool]string{true: "@prefix", false: "@suffix"}[i == 0]})
 			} else {
-				if t.IsNested(node, i) {
+				if t.IsNested(node, i, s.rules()) {
 					childCtrs := newCounters(t)
 					b2 := Branch{}
 					childCtrs.termCountChildren(t, ctrs[""])
diff --git a/ast/scope.go b/ast/scope.go
index c01e558..f67471b 100644
--- a/ast/scope.go
+++ b/ast/scope.go
@@ -17,3 +17,11 @@ func (s *scope) lookup(rule parser.Rule) (parser.Term, *scope) {
 	}
 	return s.g[rule], s
 }
+
+// rules returns the lookup as a function.
+func (s *scope) rules() parser.Lookup {
+	return func(rule parser.Rule) (parser.Term, parser.Lookup) {
+		term, s := s.lookup(rule)
+		return term, s.rules()
+	}
+}
diff --git a/parser/parser.go b/parser/parser.go
index cebefef..ed06d9b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -611,9 +611,17 @@ func (l *LRTGen) Next() Term {
 }
 
 func (t Delim) LRTerms(node Node) LRTGen {
+	return t.LRTermsIn(node, nil)
+}
+
+// Lookup returns the term of a rule and the Lookup for the rules in that term.
+type Lookup func(rule Rule) (Term, Lookup)
+
+// LRTermsIn is like LRTerms for a delimiter in the scope of the given rules.
+func (t Delim) LRTermsIn(node Node, rules Lookup) LRTGen {
 	gen := LRTGen{sides: [2]Term{t.Term, t.Term}, sep: t.Sep}
 	for i := range node.Children {
-		if t.IsNested(node, i) {
+		if t.IsNested(node, i, rules) {
 			gen.sides[i/2%2] = t
 		}
 	}
@@ -622,15 +630,85 @@ func (t Delim) LRTerms(node Node) LRTGen {
 
 // IsNested returns true iff the i'th child of a node, which the delimiter
 // produced, is itself such a node, i.e. not an operand of the delimiter.
-func (t Delim) IsNested(node Node, i int) bool {
+func (t Delim) IsNested(node Node, i int, rules Lookup) bool {
 	switch assoc := node.Extra.(Associativity); {
 	case assoc > 0 && i == 0, assoc < 0 && i == len(node.Children)-1:
 		child, ok := node.Children[i].(Node)
-		return ok && child.Tag == node.Tag && child.Extra == node.Extra
+		return ok && child.Tag == node.Tag && child.Extra == node.Extra && !fits(t.Term, child, rules)
 	}
 	return false
 }
 
+// fits returns true iff term could have produced e, which takes as many
+// delimiters one within the other as there are in e.
+func fits(term Term, e TreeElement, rules Lookup) bool {
+	node, _ := e.(Node)
+	assoc, made := node.Extra.(Associativity)
+	t, tags, inner, ok := delimOf(term, rules)
+	if !ok || !made {
+		return ok == made
+	}
+	if !tags[node.Tag] {
+		return false
+	}
+	last := len(node.Children) - 1
+	if last < 0 || assoc != NonAssociative && assoc != t.Assoc {
+		return false
+	}
+	operand, other := node.Children[0], node.Children[last]
+	if assoc > 0 {
+		operand, other = other, operand
+	}
+	if _, empty := operand.(Empty); !empty {
+		return fits(t.Term, operand, inner)
+	}
+	if assoc == NonAssociative {
+		return last > 1 && fits(t.Term, node.Children[2], inner)
+	}
+	// No node within another of the delimiter has nothing there, so e is not nested.
+	return fits(t.Term, other, inner) || fits(term, other, rules)
+}
+
+// delimOf returns the delimiter that a term amounts to, the tags that its nodes
+// may have and the rules around it.
+func delimOf(term Term, rules Lookup) (Delim, map[string]bool, Lookup, bool) {
+	tags := map[string]bool{}
+	for {
+		switch t := term.(type) {
+		case CutPoint:
+			term = t.Term
+		case Named:
+			tags[t.Name] = true
+			term = t.Term
+		case ScopedGrammar:
+			term, rules = t.Term, t.Grammar.lookup(rules)
+		case Rule:
+			if rules == nil {
+				return Delim{}, nil, nil, false
+			}
+			tags[string(t)] = true
+			term, rules = rules(t)
+		case Delim:
+			if len(tags) == 0 {
+				tags[delimTag] = true
+			}
+			return t, tags, rules, true
+		default:
+			return Delim{}, nil, nil, false
+		}
+	}
+}
+
+// lookup returns a Lookup for the rules of g and, for the others, those around g.
+func (g Grammar) lookup(outer Lookup) Lookup {
+	return func(rule Rule) (Term, Lookup) {
+		if term, has := g[rule]; has || outer == nil {
+			return term, g.lookup(outer)
+		}
+		return outer(rule)
+	}
+}
+
 //-----------------------------------------------------------------------------
 
 type lookaheadParser struct {
diff --git a/parser/unparse.go b/parser/unparse.go
index 2d7c0f8..7091828 100644
--- a/parser/unparse.go
+++ b/parser/unparse.go
@@ -60,7 +60,7 @@ func (t Oneof) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error)
 
 func (t Delim) Unparse(g Grammar, e TreeElement, w io.Writer) (n int, err error) {
 	node := e.(Node)
-	tgen := t.LRTerms(node)
+	tgen := t.LRTermsIn(node, g.lookup(nil))
 	for _, child := range node.Children {
 		term := tgen.Next()
 		if _, ok := child.(Empty); ok {
-- 
2.43.0

