package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/wbnf/ast"
	"github.com/arr-ai/wbnf/parser"
)

// Tree is a parse tree as the reference understands it.
type Tree struct {
	Leaf  bool
	Empty bool
	Text  string
	Off   int
	Tag   string
	Extra string
	Kids  []*Tree
}

func (t *Tree) write(sb *strings.Builder, offsets bool) {
	switch {
	case t == nil:
		sb.WriteString("<nil>")
	case t.Empty:
		sb.WriteString("E")
	case t.Leaf:
		fmt.Fprintf(sb, "%q", t.Text)
		if offsets {
			fmt.Fprintf(sb, "@%d", t.Off)
		}
	default:
		sb.WriteString(t.Tag)
		sb.WriteString("|")
		sb.WriteString(t.Extra)
		sb.WriteString("[")
		for i, k := range t.Kids {
			if i > 0 {
				sb.WriteString(" ")
			}
			k.write(sb, offsets)
		}
		sb.WriteString("]")
	}
}

func (t *Tree) String() string {
	var sb strings.Builder
	t.write(&sb, true)
	return sb.String()
}

// Shape is the tree without offsets.
func (t *Tree) Shape() string {
	var sb strings.Builder
	t.write(&sb, false)
	return sb.String()
}

// Leaves returns the leaves in order.
func (t *Tree) Leaves() (out []*Tree) {
	if t == nil {
		return nil
	}
	if t.Leaf {
		return []*Tree{t}
	}
	for _, k := range t.Kids {
		out = append(out, k.Leaves()...)
	}
	return out
}

func (t *Tree) Walk(f func(*Tree)) {
	if t == nil {
		return
	}
	f(t)
	for _, k := range t.Kids {
		k.Walk(f)
	}
}

func extraString(e parser.Extra) string {
	switch e := e.(type) {
	case nil:
		return ""
	case parser.Choice:
		return fmt.Sprintf("c%d", int(e))
	case parser.Associativity:
		return fmt.Sprintf("a%d", int(e))
	case ast.Branch:
		return "branch{" + e.String() + "}"
	default:
		return fmt.Sprintf("%T(%[1]v)", e)
	}
}

// fromElement converts what the parser returned. Text and offset are as the
// scanner reports them.
func fromElement(e parser.TreeElement) *Tree {
	switch e := e.(type) {
	case nil:
		return nil
	case parser.Node:
		t := &Tree{Tag: e.Tag, Extra: extraString(e.Extra)}
		for _, c := range e.Children {
			t.Kids = append(t.Kids, fromElement(c))
		}
		return t
	case parser.Scanner:
		if e.IsNil() {
			return &Tree{Leaf: true, Text: "<nil scanner>", Off: -1}
		}
		return &Tree{Leaf: true, Text: e.String(), Off: e.Offset()}
	case parser.Empty:
		return &Tree{Empty: true}
	default:
		return &Tree{Tag: fmt.Sprintf("?%T", e)}
	}
}

// scanners returns the scanners of a parse tree in order.
func scanners(e parser.TreeElement) (out []parser.Scanner) {
	switch e := e.(type) {
	case parser.Node:
		for _, c := range e.Children {
			out = append(out, scanners(c)...)
		}
	case parser.Scanner:
		out = append(out, e)
	}
	return out
}

// canonAST renders an AST in full and unambiguously, without using its own printer.
func canonAST(n ast.Node, offsets bool) string {
	var sb strings.Builder
	writeAST(&sb, n, offsets)
	return sb.String()
}

func writeAST(sb *strings.Builder, n ast.Node, offsets bool) {
	switch n := n.(type) {
	case nil:
		sb.WriteString("<nil>")
	case ast.Leaf:
		s := parser.Scanner(n)
		fmt.Fprintf(sb, "%q", s.String())
		if offsets && !s.IsNil() {
			fmt.Fprintf(sb, "@%d", s.Offset())
		}
	case ast.Extra:
		switch d := n.Data.(type) {
		case parser.Choice:
			fmt.Fprintf(sb, "c%d", int(d))
		case parser.Rule:
			fmt.Fprintf(sb, "r(%s)", string(d))
		default:
			fmt.Fprintf(sb, "%T(%[1]v)", d)
		}
	case ast.Branch:
		names := make([]string, 0, len(n))
		for name := range n {
			names = append(names, name)
		}
		sortStrings(names)
		sb.WriteString("{")
		for i, name := range names {
			if i > 0 {
				sb.WriteString(" ")
			}
			fmt.Fprintf(sb, "%q:", name)
			switch c := n[name].(type) {
			case ast.One:
				writeAST(sb, c.Node, offsets)
			case ast.Many:
				sb.WriteString("[")
				for i, k := range c {
					if i > 0 {
						sb.WriteString(" ")
					}
					writeAST(sb, k, offsets)
				}
				sb.WriteString("]")
			}
		}
		sb.WriteString("}")
	}
}

// astLeaves returns the scanners of all the leaves of an AST, in source order.
func astLeaves(n ast.Node) (out []parser.Scanner) {
	switch n := n.(type) {
	case ast.Leaf:
		out = append(out, parser.Scanner(n))
	case ast.Branch:
		for _, c := range n {
			switch c := c.(type) {
			case ast.One:
				out = append(out, astLeaves(c.Node)...)
			case ast.Many:
				for _, k := range c {
					out = append(out, astLeaves(k)...)
				}
			}
		}
	}
	return out
}
