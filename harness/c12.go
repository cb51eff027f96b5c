package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/parser"
	"github.com/arr-ai/wbnf/wbnf"
)

// edge is a way in which the text of one rule may mention another.
type edge struct {
	text      string // of an alternative; R stands for the other rule, L for a literal of its own
	pre, post string // what surrounds the other rule's text in the input
	extra     string // productions that it needs
	twice     bool   // the other rule is tried twice, hence no use for deep inputs
}

// unsafeEdges let a rule reach the other without matching a literal.
var unsafeEdges = []edge{
	{text: `R`}, {text: `(R)`}, {text: `((((R))))`}, {text: `n=R`}, {text: `n=(R "q")`},
	{text: `R "q"`}, {text: `"p"? R`}, {text: `"p"* R "q"`}, {text: `"p"{0,3} R`}, {text: `"p"{,2} R`}, {text: `R?`, extra: ""}, {text: `R+`}, {text: `R*`}, {text: `R{2,3}`},
	{text: `("p" "q")? R`}, {text: `("p" | "q"?) R`}, {text: `("p" | ()) R "q"`}, {text: `() R`}, {text: `"p"? "q"? R "x"`}, {text: `("p"? "q"*) R`},
	{text: `"p"?+ R`}, {text: `("p"?){3,3} R`}, {text: `"p"{0,2}{4,5} R`}, {text: `n=("p"?) R`}, {text: `("p"?):("q"?) R`},
	{text: `/{%*} R`}, {text: `/{%?&?} R`}, {text: `(?="p") R`}, {text: `(?=R) "p"`}, {text: `(?= "p"? R) "q"`}, {text: `(?=(?=R)) "q"`},
	{text: `R:"p"`}, {text: `R:>"p"`}, {text: `R<:"p"`}, {text: `"p":,R`}, {text: `("p"?):R`}, {text: `("p" | "q"*):R,`}, {text: `R:"p",`}, {text: `n=R:,"p"`}, {text: `"p":,n=R,`},
	{text: `opt_ R`, extra: `opt_ -> "p"? "q"*;`}, {text: `opt_ R`, extra: `opt_ -> opt2_ opt2_; opt2_ -> "z" | ("p"* | opt3_); opt3_ -> "r"{0,2};`}, {text: `opt_? R`, extra: `opt_ -> "p";`},
	{text: `look_ R`, extra: `look_ -> (?="p");`}, {text: `"q" | "p"? R`}, {text: `("q" | R) "p"`}, {text: `("q" | "p" | ("w" | R "v")) "p"`},
	{text: `via_ "q"`, extra: `via_ -> "v" | "w"? R;`}, {text: `via_`, extra: `via_ -> R:"+";`}, {text: `via_ "q"`, extra: `via_ -> via2_; via2_ -> n=via3_; via3_ -> ((R));`},
	{text: `(q_ {q_ -> R;})`}, {text: `(q_ "z" {q_ -> "p"? R "q";})`}, {text: `(R {q_ -> "z";})`}, {text: `("p"? (o_ R {o_ -> "v"*;}) {o_ -> "w";})`},
	{text: `(q_ {q_ -> s_; s_ -> (t_ {t_ -> "p"{0,1} R;});})`}, {text: `(q_ {q_ -> @:"+" > R;})`}, {text: `(opt_ R {opt_ -> "v"?;})`, extra: `opt_ -> "p";`},
	{text: `st_`, extra: `st_ -> @:"+" > @:"*" > "7" | R;`}, {text: `st_`, extra: `st_ -> @:"+" | R > "p"? @ | "8" > "7";`}, {text: `"p"? st_`, extra: `st_ -> ("+" @)? R > "7";`},
	{text: `%!mac_(R)`, extra: `.macro mac_(x) { "p"? x }`}, {text: `%!mac_("q"?) `, extra: `.macro mac_(x) { x R }`}, {text: `%!mac_(R, "p"?)`, extra: `.macro mac_(x, y) { %!mic_(y) x "r" } .macro mic_(z) { z }`},
	{text: `%!mac_((R "p"))`, extra: `.macro mac_(x) { x:"," }`}, {text: `%x="" R`},
	{text: `/{(?:%?){2}} R`}, {text: `/{(?:%*){1,3}} R`}, {text: `/{(?:%+|)+} R`}, {text: `/{(?:%{0,3})(?:^|&)} R`}, {text: `/{(%{2})?} R`},
	{text: `x_="p"* %x_ R`}, {text: `x_="p"? %x_ R`}, {text: `x_="p"+? %x_ R`}, {text: `x_="p"{2,}? %x_ R`}, {text: `x_="p"?+ %x_ R`}, {text: `x_=("p" "w")+* %x_ R`}, {text: `(x_="v" "w" | x_="p"?) %x_ R`}, {text: `(x_=("p"?) "w"? | x_="v") %x_="s" R`},
	{text: `((o_ %o_ R {o_ -> "p"?;}) | (o_ "z" {o_ -> "v";}))`}, {text: `((o_ "z" {o_ -> "v";}) | (o_ %o_ R {o_ -> "p"?;}))`},
	{text: `st_`, extra: `st_ -> @:"+" > (q_ {q_ -> "p"? @;}) > "7" | R;`}, {text: `st_`, extra: `st_ -> @:"+" > ("v" | (q_ {q_ -> (s_ {s_ -> n=@;});})) > R | "7";`},
	{text: `("1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "s" | "t" | R)`}, {text: `"1"? "2"? "3"? "4"? "5"? "6"? "7"? "8"? "9"? R`},
	{text: `oa_ R`, extra: `oa_ -> ob_; ob_ -> oc_; oc_ -> od_; od_ -> oe_; oe_ -> of_; of_ -> og_; og_ -> oh_; oh_ -> "p"?;`},
}

// safeEdges make it match a literal first.
var safeEdges = []edge{
	{text: `L R`, pre: "L"}, {text: `L (R)`, pre: "L"}, {text: `L R "q"`, pre: "L", post: "q"}, {text: `n=(L R)`, pre: "L"}, {text: `n=L (m=R "q")`, pre: "L", post: "q"},
	{text: `L+ R`, pre: "L"}, {text: `L{1,} R`, pre: "LL"}, {text: `L{2,2} R "q"`, pre: "LL", post: "q"}, {text: `(L){1,3} (R)`, pre: "LL"}, {text: `L R?`, pre: "L"}, {text: `L R{0,1}`, pre: "L"}, {text: `L (R "q")*`, twice: true},
	{text: `"p"? L R`, pre: "L"}, {text: `"p"* L R`, pre: "ppL"}, {text: `(L | "~" "^"?) R`, pre: "~"}, {text: `(L | "~") R`, pre: "L"}, {text: `(("p" | "q"?) L) R "q"`, pre: "pL", post: "q"},
	{text: `L ("p" | R)`, pre: "L"}, {text: `(?=L) L R`, pre: "L"}, {text: `(L R){1,1}`, pre: "L"}, {text: `L "p"? R`, pre: "Lp"}, {text: `L "p"? R`, pre: "L"},
	{text: `L:"p" R "q"`, pre: "LpL", post: "q"}, {text: `L:R`, twice: true}, {text: `L:n=R, "q"`, twice: true}, {text: `(L R):";"`, pre: "L"}, {text: `(L R "q"):>";",`, pre: "L", post: "q;"},
	{text: `L (R:",")`, pre: "L"}, {text: `L R:"/"`, pre: "L"},
	{text: `tok_ L R`, pre: "tL", extra: `tok_ -> "t";`}, {text: `tok_ R`, pre: "pL", extra: `tok_ -> opt_ L opt_; opt_ -> "p"?;`}, {text: `tok_{1,} R`, pre: "LL", extra: `tok_ -> n=(L | L "v");`},
	{text: `(L via_)`, pre: "L", extra: `via_ -> R;`}, {text: `via_ "q"`, pre: "L", post: "q", extra: `via_ -> L via2_; via2_ -> "w"? R;`},
	{text: `(q_ {q_ -> L R;})`, pre: "L"}, {text: `(q_ "z" {q_ -> "p"? L (R "q" {s_ -> "s";});})`, pre: "pL", post: "qz"}, {text: `L (q_ {q_ -> R;})`, pre: "L"}, {text: `(o_ R {o_ -> L;})`, pre: "L", extra: `o_ -> "v"?;`},
	{text: `L st_`, pre: "L", post: "+7", extra: `st_ -> @:"+" > "7" | R;`}, {text: `st_`, pre: "7*L", extra: `st_ -> @:"+" > @:"*" > "7" | L R;`},
	{text: `%!mac_(R)`, pre: "L", extra: `.macro mac_(x) { L x }`}, {text: `%!mac_(L)`, pre: "pL", extra: `.macro mac_(x) { "p"? x R }`}, {text: `%!mac_((L R "q"))`, pre: "L", post: "q", extra: `.macro mac_(x) { x:"," }`},
	{text: `/{x+} L R`, pre: "XL"}, {text: `L %x="p" R`, pre: "Lp"}, {text: `st_`, twice: true, extra: `st_ -> L @ R > @ "q" | "7";`}, {text: `/{x{2,}} R`, twice: true}, {text: `/{(?:x?y){2}} R`, twice: true}, {text: `x_=L %x_ R`, twice: true}, {text: `(x_=L | x_="v") %x_ R`, twice: true},
	{text: `st_`, twice: true, extra: `st_ -> @:"+" > L (q_ {q_ -> "p"? @;}) > "7" | R;`},
	{text: `(_nR {_nR -> "p"? L;}) R`, pre: "L"},
	{text: `(_nR "q" {_nR -> L;} ) | (q_ {R -> L "%"; q_ -> R;})`, pre: "", post: "", extra: "SHADOW"},
}

// edgeMaker composes edges.
type edgeMaker struct {
	*rand.Rand
	n     int
	extra []string
}

func (m *edgeMaker) ident(prefix string) string {
	m.n++
	return fmt.Sprintf("%s%d_", prefix, m.n)
}

func (m *edgeMaker) rule(body string) string {
	name := m.ident("v")
	m.extra = append(m.extra, name+" -> "+body+";")
	return name
}

// nullable makes a term that can match nothing.
func (m *edgeMaker) nullable(depth int) string {
	if depth <= 0 {
		return []string{`"p"?`, `"p"*`, `()`, `""`, `/{%*}`, `/{(?:%?)(?:&*)}`, `(?="p")`, `"p"{,3}`, `%x=""`}[m.IntN(9)]
	}
	sub := func() string { return m.nullable(depth - 1 - m.IntN(2)) }
	switch m.IntN(13) {
	case 0:
		return "(" + sub() + " " + sub() + ")"
	case 1:
		return `("p" | ` + sub() + ")"
	case 2:
		return "(" + sub() + ` | "p" "w")`
	case 3:
		return "(" + m.ident("x") + "=(" + sub() + "))"
	case 4:
		x := m.ident("x")
		return "(" + x + "=(" + sub() + ") %" + x + ")"
	case 5:
		return "((" + sub() + "):(" + sub() + "))"
	case 6:
		return "((" + sub() + ")" + []string{"{2,5}", "{3,3}", "+", "*", "?"}[m.IntN(5)] + ")"
	case 7:
		return m.rule(sub())
	case 8:
		return "((" + sub() + "):" + []string{`,"p"`, `"p",`, `>"p"`, `>"p",`}[m.IntN(4)] + ")"
	case 9:
		q := m.ident("q")
		return "(" + q + " {" + q + " -> " + sub() + ";})"
	case 10:
		return "(?=" + m.nonnull(depth-1) + ")"
	case 11:
		x := m.ident("x")
		return "(" + x + "=" + `"p"` + []string{"?", "*", "{0,2}", "+?", "{2,}?", "?+"}[m.IntN(6)] + " %" + x + ")"
	}
	r := m.ident("s")
	m.extra = append(m.extra, r+` -> @:"+" > (`+sub()+`) > "7";`)
	return r
}

// nonnull makes a term that cannot.
func (m *edgeMaker) nonnull(depth int) string {
	if depth <= 0 {
		return []string{"L", `"w"`, `/{%+}`, `/{(?:%?&){2}}`, `L{2,}`}[m.IntN(5)]
	}
	sub := func() string { return m.nonnull(depth - 1 - m.IntN(2)) }
	switch m.IntN(12) {
	case 0:
		return "(" + m.nullable(depth-1) + " " + sub() + ")"
	case 1:
		return "(" + sub() + " " + m.nullable(depth-1) + ")"
	case 2:
		return "(" + sub() + " | " + sub() + ")"
	case 3:
		return "((" + sub() + ")" + []string{"+", "{2,}", "{1,1}", "{3,4}"}[m.IntN(4)] + ")"
	case 4:
		return "((" + sub() + "):(" + m.nullable(depth-1) + "))"
	case 5:
		return m.rule(sub())
	case 6:
		q := m.ident("q")
		return "(" + q + " {" + q + " -> " + sub() + ";})"
	case 7:
		y := m.ident("y")
		return "(" + y + "=(" + sub() + ") %" + y + ")"
	case 8:
		return "(" + m.ident("y") + "=(" + sub() + "))"
	case 9:
		return "((" + sub() + "):" + []string{`,"p"`, `"p",`, `>"p"`, `>"p",`}[m.IntN(4)] + ")"
	case 10:
		r := m.ident("s")
		m.extra = append(m.extra, r+` -> @:"+" > `+sub()+` | "7";`)
		return r
	}
	return "((?=" + m.nullable(depth-1) + ") " + sub() + ")"
}

// around makes a term that can start with what the given one can.
func (m *edgeMaker) around(inner string, depth int) string {
	for ; depth > 0; depth-- {
		switch m.IntN(16) {
		case 0:
			inner = "(" + m.nullable(m.IntN(3)) + " " + inner + ")"
		case 1:
			inner = "(" + m.nonnull(m.IntN(2)) + " | " + inner + ")"
		case 2:
			inner = "(" + inner + " | " + m.nonnull(m.IntN(2)) + ")"
		case 3:
			inner = "(" + m.ident("x") + "=(" + inner + "))"
		case 4:
			inner = "((" + inner + ")" + []string{"?", "*", "+", "{2,3}", "{,2}", "{1,}"}[m.IntN(6)] + ")"
		case 5:
			inner = "((" + inner + "):(" + m.nonnull(m.IntN(2)) + "))"
		case 6:
			inner = "((" + m.nullable(m.IntN(2)) + "):(" + inner + "))"
		case 7:
			inner = `("p":,(` + inner + "))"
		case 8:
			inner = m.rule(inner)
		case 9:
			q := m.ident("q")
			inner = "(" + q + " {" + q + " -> " + inner + ";})"
		case 10:
			inner = "((?=" + inner + ") " + m.nonnull(m.IntN(2)) + ")"
		case 11:
			inner = "(" + inner + " " + m.nonnull(m.IntN(2)) + ")"
		case 12:
			r := m.ident("s")
			m.extra = append(m.extra, r+` -> @:"+" > @:"-" > "7" | `+inner+`;`)
			inner = r
		case 13:
			r, q := m.ident("s"), m.ident("q")
			m.extra = append(m.extra, r+` -> @:"+" > (`+q+" {"+q+" -> "+m.nullable(0)+` @;}) > "7" | `+inner+`;`)
			inner = r
		case 14:
			options := []string{}
			for k := 8 + m.IntN(30); k > 0; k-- {
				options = append(options, fmt.Sprintf(`"%c%d"`, 'a'+k%26, k))
			}
			options[m.IntN(len(options))] = inner
			inner = "(" + strings.Join(options, " | ") + ")"
		case 15:
			q := m.ident("q")
			inner = "(" + inner + " {" + q + ` -> "z";})`
		}
	}
	return inner
}

func makeEdge(r *rand.Rand, safe bool) edge {
	m := &edgeMaker{Rand: r}
	inner := "R"
	if safe {
		inner = "(" + m.nonnull(r.IntN(4)) + " " + m.around("R", r.IntN(3)) + ")"
	}
	text := m.around(inner, r.IntN(5))
	return edge{text: text, extra: strings.Join(m.extra, " "), twice: true}
}

func init() {
	register(&Check{
		ID: "C12",
		Rule: "random rule graphs (2 to 14 rules) whose edges are spelled in ~90 ways or composed at random that let a rule reach another before any literal (optional, empty, nullable or looked-ahead prefixes; names, parentheses, choices, repetitions, delimiters and separators, scoped grammars, stacks, macros) and ~50 in which a literal must come first. " +
			"With only an acyclic graph of the former, Compile must accept, and inputs that go round the cycles thousands of times must parse to their whole length, in order; with one cycle of the former closed anywhere (length 1 to the number of rules) it must reject. Distinct by text.",
		Cases: map[string]int{"quick": 4500, "thorough": 150000}, CPUSeconds: 60,
		Run: runC12,
	})
}

func unsafeEdge(c *Case) edge {
	if c.IntN(2) == 0 {
		return makeEdge(c.Rand, false)
	}
	return unsafeEdges[c.IntN(len(unsafeEdges))]
}

func runC12(c *Case) {
	n := 2 + c.IntN(4)
	reject := c.IntN(2) == 0
	if c.IntN(3) == 0 && reject {
		n = 4 + c.IntN(11)
	}
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("r%d", i)
	}
	c.Shuffle(n, func(i, j int) { names[i], names[j] = names[j], names[i] })
	uid := 0
	lits := "abcdefghijklmnoABCDEFGHIJKLMNOPQRSTUVWXYZ"
	var prods []string
	// spell makes the text of an alternative, along with what surrounds the other rule in the input.
	spell := func(e edge, to string) (text, pre, post string) {
		uid++
		lit := fmt.Sprintf("%c%d.", lits[c.IntN(len(lits))], uid)
		own := func(ch byte) string { return fmt.Sprintf("%c%d.", ch, uid) }
		fix := func(s string) string {
			var words strings.Builder
			inStr := false
			for i := 0; i < len(s); i++ {
				switch ch := s[i]; {
				case ch == '"':
					inStr = !inStr
					words.WriteByte(ch)
				case inStr: // lest something else take it
					words.WriteString(own(ch))
				case i > 0 && (s[i-1] == '_' || isLetter(s[i-1])) && ch != '_':
					words.WriteByte(ch)
				case ch == 'R':
					words.WriteString(to)
				case ch == 'L':
					words.WriteString(`"` + lit + `"`)
				case ch == '_' && i > 0 && (isLetter(s[i-1]) || s[i-1] >= '0' && s[i-1] <= '9'):
					words.WriteString(fmt.Sprintf("_%d", uid))
				case ch == '_':
					words.WriteString(fmt.Sprintf("loc%d_", uid))
				default:
					words.WriteByte(ch)
				}
			}
			return words.String()
		}
		if e.extra != "" && e.extra != "SHADOW" {
			prods = append(prods, fix(e.extra))
		}
		around := func(s string) string {
			var sb strings.Builder
			for i := range s {
				switch s[i] {
				case 'L':
					sb.WriteString(lit)
				case 'X':
					sb.WriteByte('x')
				default:
					sb.WriteString(own(s[i]))
				}
			}
			return sb.String()
		}
		return fix(e.text), around(e.pre), around(e.post)
	}
	alts := make([][]string, n)
	deeper := make([][3]any, n) // pre, post and the rule that follows
	unsafe := make([][]int, n)
	var spelled []string
	add := func(i int, text string) { alts[i] = append(alts[i], text) }

	for i := range names { // a DAG of unsafe edges
		for k := c.IntN(3); k > 0 && i+1 < n; k-- {
			j := i + 1 + c.IntN(n-i-1)
			e := unsafeEdge(c)
			text, _, _ := spell(e, names[j])
			add(i, text)
			unsafe[i] = append(unsafe[i], j)
			spelled = append(spelled, e.text)
		}
	}
	cycle := 0
	if reject {
		// Close a cycle of a random length over rules in a random order.
		cycle = 1 + c.IntN(n)
		order := c.Perm(n)[:cycle]
		for k, i := range order {
			e := unsafeEdge(c)
			text, _, _ := spell(e, names[order[(k+1)%cycle]])
			add(i, text)
			spelled = append(spelled, e.text)
		}
	}
	deep := !reject && c.IntN(3) == 0
	for i := range names { // and any graph of safe ones
		for k := c.IntN(3); k > 0; k-- {
			e := safeEdges[c.IntN(len(safeEdges))]
			if c.IntN(3) == 0 {
				e = makeEdge(c.Rand, true)
			}
			text, _, _ := spell(e, names[c.IntN(n)])
			add(i, text)
			spelled = append(spelled, e.text)
		}
	}
	for i := range names {
		c.Shuffle(len(alts[i]), func(a, b int) { alts[i][a], alts[i][b] = alts[i][b], alts[i][a] })
	}
	// The way in which a deep input goes round comes first.
	if deep {
		for i := range names {
			e := safeEdges[c.IntN(len(safeEdges)-1)]
			for e.twice {
				e = safeEdges[c.IntN(len(safeEdges)-1)]
			}
			j := c.IntN(n)
			text, pre, post := spell(e, names[j])
			alts[i] = append([]string{text}, alts[i]...)
			deeper[i] = [3]any{pre, post, j}
		}
	}
	for i := range names {
		leaf := fmt.Sprintf(`"=%d"`, i)
		if deep || c.IntN(2) == 0 {
			// directly after the way round, lest alternatives that match nothing hide it
			if deep {
				alts[i] = append([]string{alts[i][0], leaf}, alts[i][1:]...)
			} else {
				add(i, leaf)
			}
		} else {
			alts[i] = append([]string{leaf}, alts[i]...)
		}
		prods = append(prods, names[i]+" -> "+strings.Join(alts[i], " | ")+";")
	}
	c.Shuffle(len(prods), func(i, j int) { prods[i], prods[j] = prods[j], prods[i] })
	text := strings.Join(prods, "\n")
	c.Note("text", text)
	sort.Strings(spelled)
	p, err := wbnf.Compile(text, nil)
	c.Eval()
	c.Distinct(text)
	if reject {
		c.Stat("grammars with a cycle", 1)
		c.Max("length of a cycle", cycle)
		if err == nil {
			c.Fail("a grammar with left recursion over %d rules was accepted", cycle)
			return
		}
		switch err.(type) {
		case parser.ParseError, parser.FatalError, parser.UnconsumedInputError:
			c.Fail("the text does not parse: %v", err)
		}
		if c.Index%100 == 0 {
			c.Sample(map[string]any{"text": text, "error": err.Error()})
		}
		return
	}
	c.Stat("grammars without a cycle", 1)
	if err != nil {
		c.Fail("a grammar without left recursion was rejected: %v", err)
		return
	}
	if !deep {
		for i := range names {
			if _, _, fine := parseOutcome(c, p, parser.Rule(names[i]), []string{"", "p", "q", fmt.Sprintf("=%d", i)}[c.IntN(4)]); !fine {
				return
			}
			c.Eval()
		}
		return
	}
	depth := 200 + c.IntN(3000)
	if c.IntN(40) == 0 || c.Tier == "thorough" && c.IntN(10) == 0 {
		depth = 20000
	}
	start := c.IntN(n)
	var pres, posts []string
	i := start
	for d := 0; d < depth; d++ {
		pres = append(pres, deeper[i][0].(string))
		posts = append(posts, deeper[i][1].(string))
		i = deeper[i][2].(int)
	}
	var sb strings.Builder
	for _, s := range pres {
		sb.WriteString(s)
	}
	fmt.Fprintf(&sb, "=%d", i)
	for k := len(posts) - 1; k >= 0; k-- {
		sb.WriteString(posts[k])
	}
	input := sb.String()
	c.Note("input", clip(input, 500))
	e, err := p.Parse(parser.Rule(names[start]), parser.NewScanner(input))
	c.Eval()
	c.Stat("deep inputs", 1)
	c.Max("nesting", depth)
	if err != nil {
		c.Fail("an input nested %d deep was not parsed: %s", depth, clip(err.Error(), 2000))
		return
	}
	var got strings.Builder
	collectTokens(e, false, &got)
	if got.String() != input {
		c.Fail("the tree of an input nested %d deep holds %q", depth, clip(got.String(), 500))
	}
}

func isLetter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }

// collectTokens writes the tokens of a tree but those of lookaheads.
func collectTokens(e parser.TreeElement, ahead bool, sb *strings.Builder) {
	switch e := e.(type) {
	case parser.Scanner:
		sb.WriteString(e.String())
	case parser.Node:
		if e.Tag == "?=" {
			return
		}
		for _, child := range e.Children {
			collectTokens(child, ahead, sb)
		}
	}
}
