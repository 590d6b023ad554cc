package main

import (
	"fmt"
	"reflect"
	"strconv"

	"github.com/ulule/loukoum/v3/builder"
)

const (
	modePositional = iota
	modeNamed
	modeInline
)

var modeNames = []string{"positional", "named", "inlined"}

// vals lists the bound values of an expected tree, in textual order.
func (n *N) vals() []*Val {
	var out []*Val
	var walk func(n *N)
	walk = func(n *N) {
		if n.K == "val" && !n.V.Null {
			out = append(out, n.V)
		}
		for _, c := range n.C {
			walk(c)
		}
	}
	walk(n)
	return out
}

// binds lists the placeholders of a parsed tree, in textual order.
func (n *N) find(kind string) []*N {
	var out []*N
	var walk func(n *N)
	walk = func(n *N) {
		if n.K == kind {
			out = append(out, n)
		}
		for _, c := range n.C {
			walk(c)
		}
	}
	walk(n)
	return out
}

type diffState struct {
	mode int
	next int
}

// diff compares the expected tree with the one which was read. Returns "" when they are the same.
func (d *diffState) diff(path string, want, got *N) string {
	path += "/" + want.K
	if want.K == "val" {
		if want.V.Null {
			if got.K != "null" {
				return fmt.Sprintf("at %s: want NULL, got %s", path, got)
			}
			return ""
		}
		switch d.mode {
		case modePositional:
			d.next++
			if got.K != "param" || got.T != strconv.Itoa(d.next) {
				return fmt.Sprintf("at %s: want placeholder $%d for %s, got %s", path, d.next, want, got)
			}
		case modeNamed:
			d.next++
			if got.K != "named" || got.T != "arg_"+strconv.Itoa(d.next) {
				return fmt.Sprintf("at %s: want placeholder :arg_%d for %s, got %s", path, d.next, want, got)
			}
		case modeInline:
			if msg := litDenotes(got, want.V.Out); msg != "" {
				return fmt.Sprintf("at %s: %s", path, msg)
			}
		}
		return ""
	}
	if want.K != got.K || want.T != got.T {
		return fmt.Sprintf("at %s: want %s, got %s", path, want, got)
	}
	for i := range want.C {
		if i >= len(got.C) {
			return fmt.Sprintf("at %s: missing %s", path, want.C[i])
		}
		if msg := d.diff(path, want.C[i], got.C[i]); msg != "" {
			return msg
		}
	}
	if len(got.C) > len(want.C) {
		return fmt.Sprintf("at %s: unexpected %s", path, got.C[len(want.C)])
	}
	return ""
}

// rendered is everything observable of a builder.
type rendered struct {
	Q     string
	Args  []any
	NQ    string
	NArgs map[string]any
	S     string
}

func renderQ(b builder.Builder) (q string, args []any, o outcome) {
	o = try(func() { q, args = b.Query() })
	return
}

// render has copies of the arguments, which no later rendering can change.
func render(b builder.Builder) rendered {
	var r rendered
	r.Q, r.Args = b.Query()
	if r.Args != nil {
		r.Args = append([]any{}, r.Args...)
	}
	r.NQ, r.NArgs = b.NamedQuery()
	if r.NArgs != nil {
		m := make(map[string]any, len(r.NArgs))
		for k, v := range r.NArgs {
			m[k] = v
		}
		r.NArgs = m
	}
	r.S = b.String()
	return r
}

// sameArgs compares two argument lists.
func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameArg(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameNamed(a, b map[string]any) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		v, ok := b[k]
		if !ok || !sameArg(a[k], v) {
			return false
		}
	}
	return true
}

func (r rendered) equal(o rendered) string {
	switch {
	case r.Q != o.Q:
		return fmt.Sprintf("positional text differs:\n  %s\n  %s", r.Q, o.Q)
	case !sameArgs(r.Args, o.Args):
		return fmt.Sprintf("arguments differ for %s:\n  %s\n  %s", r.Q, describeArgs(r.Args), describeArgs(o.Args))
	case r.NQ != o.NQ:
		return fmt.Sprintf("named text differs:\n  %s\n  %s", r.NQ, o.NQ)
	case !sameNamed(r.NArgs, o.NArgs):
		return fmt.Sprintf("named arguments differ for %s:\n  %v\n  %v", r.NQ, r.NArgs, o.NArgs)
	case r.S != o.S:
		return fmt.Sprintf("inlined text differs:\n  %s\n  %s", r.S, o.S)
	}
	return ""
}

func describeArgs(args []any) string {
	s := "["
	for i := range args {
		if i > 0 {
			s += ", "
		}
		s += brief(args[i])
		if len(s) > 1500 {
			return s + "..."
		}
	}
	return s + "]"
}

// checkArgs compares the arguments of a rendering with the values of the expected tree.
func checkArgs(want []*Val, args []any) string {
	if len(want) != len(args) {
		return fmt.Sprintf("want %d arguments, got %d: %s", len(want), len(args), describeArgs(args))
	}
	for i := range want {
		if !sameArg(args[i], want[i].Out) {
			return fmt.Sprintf("argument %d: want %s, got %s", i+1, brief(want[i].Out), brief(args[i]))
		}
	}
	return ""
}

func namedToList(m map[string]any, n int) ([]any, string) {
	if len(m) != n {
		return nil, fmt.Sprintf("want %d named arguments, got %d", n, len(m))
	}
	out := make([]any, n)
	for i := 1; i <= n; i++ {
		v, ok := m["arg_"+strconv.Itoa(i)]
		if !ok {
			return nil, fmt.Sprintf("named argument arg_%d is missing", i)
		}
		out[i-1] = v
	}
	return out, ""
}

// conform compares the text and the arguments of a builder with the expected tree, in the given renderings.
func (t *T) conform(p *Prog, b builder.Builder, modes ...int) {
	vals := p.AST.vals()
	for _, mode := range modes {
		var text string
		var args []any
		haveArgs := false
		switch mode {
		case modePositional:
			text, args = b.Query()
			haveArgs = true
		case modeNamed:
			var m map[string]any
			text, m = b.NamedQuery()
			var msg string
			args, msg = namedToList(m, len(vals))
			if msg != "" {
				t.Fail("%s rendering: %s\n%s\n%s", modeNames[mode], msg, text, p.Desc())
			}
			haveArgs = true
		case modeInline:
			text = b.String()
		}
		got, err := parseSQL(p.Kind, text)
		if err != nil {
			t.Fail("%s rendering cannot be read as SQL: %s\n%s\n%s", modeNames[mode], err, text, p.Desc())
		}
		d := &diffState{mode: mode}
		if msg := d.diff("", p.AST, got); msg != "" {
			t.Fail("%s rendering: %s\n%s\n%s", modeNames[mode], msg, text, p.Desc())
		}
		if haveArgs {
			if msg := checkArgs(vals, args); msg != "" {
				t.Fail("%s rendering: %s\n%s\n%s", modeNames[mode], msg, text, p.Desc())
			}
			t.Ev("bound arguments compared", len(args))
		}
		t.Ev(modeNames[mode]+" renderings compared", 1)
	}
}

// shape is a skeleton of the tree, used to count distinct structures.
func (n *N) shape() string {
	s := n.K
	switch n.K {
	case "cmp", "in", "between", "join", "conflict", "set", "order", "table":
		s += n.T
	case "val":
		s += n.V.Kind
	}
	if len(n.C) > 0 {
		s += "("
		for _, c := range n.C {
			s += c.shape() + " "
		}
		s += ")"
	}
	return s
}

func typeName(x any) string {
	if x == nil {
		return "nil"
	}
	return reflect.TypeOf(x).String()
}
