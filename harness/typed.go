package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/arr-ai/wbnf/ast"
)

// What follows looks at typed nodes, of generated code or of package wbnf,
// through reflection.

// typedNode returns the AST within a typed node.
func typedNode(v reflect.Value) ast.Node {
	n, _ := v.Field(0).Interface().(ast.Node)
	return n
}

var astNodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// isTyped tells whether t is the type of typed nodes.
func isTyped(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && t.NumField() == 1 && t.Field(0).Type == astNodeType && strings.HasSuffix(t.Name(), "Node")
}

// accessor is a method like OneX, AllX or XRef.
type accessor struct {
	kind, name string // "One", "All", "Ref"; X
	method     int
	typed      bool // for typed nodes, not texts
}

func accessors(t reflect.Type) (out []accessor) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Type.NumOut() != 1 {
			continue
		}
		res := m.Type.Out(0)
		switch {
		case strings.HasPrefix(m.Name, "One") && res.Kind() == reflect.Ptr && isTyped(res.Elem()):
			out = append(out, accessor{"One", m.Name[3:], i, true})
		case strings.HasPrefix(m.Name, "One") && res.Kind() == reflect.String:
			out = append(out, accessor{"One", m.Name[3:], i, false})
		case strings.HasPrefix(m.Name, "All") && res.Kind() == reflect.Slice && isTyped(res.Elem()):
			out = append(out, accessor{"All", m.Name[3:], i, true})
		case strings.HasPrefix(m.Name, "All") && res.Kind() == reflect.Slice && res.Elem().Kind() == reflect.String:
			out = append(out, accessor{"All", m.Name[3:], i, false})
		case strings.HasSuffix(m.Name, "Ref") && res == astNodeType:
			out = append(out, accessor{"Ref", strings.TrimSuffix(m.Name, "Ref"), i, false})
		}
	}
	return out
}

// typedKids returns the typed nodes right below a node, by name.
func typedKids(v reflect.Value) map[string][]reflect.Value {
	out := map[string][]reflect.Value{}
	all := map[string]bool{}
	for _, a := range accessors(v.Type()) {
		if !a.typed {
			continue
		}
		res := v.Method(a.method).Call(nil)[0]
		if a.kind == "All" {
			all[a.name] = true
			out[a.name] = nil
			for i := 0; i < res.Len(); i++ {
				out[a.name] = append(out[a.name], res.Index(i))
			}
		} else if !all[a.name] && !res.IsNil() { // All comes before One
			out[a.name] = []reflect.Value{res.Elem()}
		}
	}
	return out
}

// typeName is the name of the type without what was prefixed to it.
func typeName(t reflect.Type) string {
	n := t.Name()
	if strings.HasPrefix(n, "G") && len(n) > 1 && n[1] >= '0' && n[1] <= '9' {
		n = strings.TrimLeft(n[1:], "0123456789")
	}
	return n
}

// nodeID identifies a typed node by its type and what is in it.
func nodeID(v reflect.Value) string {
	return typeName(v.Type()) + " " + canonAST(typedNode(v), true)
}

// walkEvent is one callback.
type walkEvent struct {
	exit bool
	id   string
	node reflect.Value
}

func (e walkEvent) String() string {
	if e.exit {
		return "exit " + e.id
	}
	return "enter " + e.id
}

// stopper values of the package.
type walkVerdict int

const (
	goOn walkVerdict = iota
	exitNode
	abort
)

// typedWalk walks a node with callbacks for which set is true. decide is asked
// what each callback is to return. It returns what Walk returned.
func typedWalk(pkg genPkg, root reflect.Value, direct bool, set func(field string) bool, decide func(e walkEvent) walkVerdict) any {
	ops := reflect.New(reflect.TypeOf(pkg.Ops)).Elem()
	for i := 0; i < ops.NumField(); i++ {
		f := ops.Type().Field(i)
		if !set(f.Name) {
			continue
		}
		exit := strings.HasPrefix(f.Name, "Exit")
		stopper := f.Type.Out(0)
		ops.Field(i).Set(reflect.MakeFunc(f.Type, func(args []reflect.Value) []reflect.Value {
			e := walkEvent{exit: exit, id: nodeID(args[0]), node: args[0]}
			switch decide(e) {
			case exitNode:
				return []reflect.Value{reflect.ValueOf(pkg.Exiter).Convert(stopper)}
			case abort:
				return []reflect.Value{reflect.ValueOf(pkg.Aborter).Convert(stopper)}
			}
			return []reflect.Value{reflect.Zero(stopper)}
		}))
	}
	if direct {
		if m := ops.MethodByName("Walk" + typeName(root.Type())); m.IsValid() {
			return m.Call([]reflect.Value{root})[0].Interface()
		}
	}
	return ops.MethodByName("Walk").Call([]reflect.Value{root})[0].Interface()
}

// typedTree is a typed node with what is below it.
type typedTree struct {
	id   string
	node reflect.Value
	kids map[string][]*typedTree
	size int
}

func newTypedTree(v reflect.Value, depth int) *typedTree {
	t := &typedTree{id: nodeID(v), node: v, kids: map[string][]*typedTree{}, size: 1}
	if depth > 200 {
		return t
	}
	for name, kids := range typedKids(v) {
		for _, k := range kids {
			kt := newTypedTree(k, depth+1)
			t.kids[name] = append(t.kids[name], kt)
			t.size += kt.size
		}
	}
	return t
}

func (t *typedTree) all() []*typedTree {
	out := []*typedTree{t}
	for _, name := range t.names() {
		for _, k := range t.kids[name] {
			out = append(out, k.all()...)
		}
	}
	return out
}

func (t *typedTree) names() (out []string) {
	for n := range t.kids {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// match checks that a walk from t on gave the events beginning at i, and
// returns the index after them. The order of children of different names is
// up to the walker.
func (t *typedTree) match(events []walkEvent, i int, fields map[string]bool) (int, string) {
	n := typeName(t.node.Type())
	if fields["Enter"+n] {
		if i >= len(events) || events[i].exit || events[i].id != t.id {
			return i, fmt.Sprintf("event %d should be: enter %s", i, t.id)
		}
		i++
	}
	left := map[string]int{}
	for _, name := range t.names() {
		left[name] = 0
	}
	for len(left) > 0 {
		progress := false
		msg := ""
		for _, name := range t.names() {
			k, open := left[name]
			if !open {
				continue
			}
			if k == len(t.kids[name]) {
				delete(left, name)
				progress = true
				break
			}
			// Is it the turn of this child?
			if j, m := t.kids[name][k].match(events, i, fields); m == "" {
				left[name]++
				i = j
				progress = true
				break
			} else if msg == "" {
				msg = m
			}
		}
		if !progress {
			return i, msg
		}
	}
	if fields["Exit"+n] {
		if i >= len(events) || !events[i].exit || events[i].id != t.id {
			return i, fmt.Sprintf("event %d should be: exit %s", i, t.id)
		}
		i++
	}
	return i, ""
}
