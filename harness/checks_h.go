package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P31

// p31Funcs are the functions a user calls to make builders and the arguments of their methods.
var p31Funcs = []struct {
	name string
	fn   any
	min  int // fewest variadic arguments
}{
	{"lk.Pair", lk.Pair, 0}, {"lk.Value", lk.Value, 0}, {"lk.Select", lk.Select, 0}, {"lk.Column", lk.Column, 0}, {"lk.Table", lk.Table, 0},
	{"lk.On", lk.On, 0}, {"lk.AndOn", lk.AndOn, 0}, {"lk.OrOn", lk.OrOn, 0}, {"lk.Condition", lk.Condition, 0}, {"lk.Order", lk.Order, 0},
	{"lk.Offset", lk.Offset, 0}, {"lk.Limit", lk.Limit, 0}, {"lk.And", lk.And, 0}, {"lk.Or", lk.Or, 0}, {"lk.Raw", lk.Raw, 0},
	{"lk.Exists", lk.Exists, 0}, {"lk.NotExists", lk.NotExists, 0}, {"lk.Count", lk.Count, 0}, {"lk.Max", lk.Max, 0}, {"lk.Min", lk.Min, 0}, {"lk.Sum", lk.Sum, 0},
	{"lk.With", lk.With, 0}, {"lk.Insert", lk.Insert, 0}, {"lk.Delete", lk.Delete, 0}, {"lk.Update", lk.Update, 0}, {"lk.DoNothing", lk.DoNothing, 0}, {"lk.DoUpdate", lk.DoUpdate, 0},
	{"builder.NewSelect", builder.NewSelect, 0}, {"builder.NewInsert", builder.NewInsert, 0}, {"builder.NewDelete", builder.NewDelete, 0}, {"builder.NewUpdate", builder.NewUpdate, 0},
	{"builder.ToColumn", builder.ToColumn, 0}, {"builder.ToColumns", builder.ToColumns, 0}, {"builder.ToSelectExpressions", builder.ToSelectExpressions, 0},
	{"builder.ToTable", builder.ToTable, 0}, {"builder.ToTables", builder.ToTables, 0}, {"builder.ToFrom", builder.ToFrom, 0}, {"builder.ToInto", builder.ToInto, 0},
	{"builder.ToSuffix", builder.ToSuffix, 0}, {"builder.ToPrefix", builder.ToPrefix, 0}, {"builder.ToInt64", builder.ToInt64, 0}, {"builder.ToSet", builder.ToSet, 0},
	{"builder.ToLimit", builder.ToLimit, 0}, {"builder.ToOffset", builder.ToOffset, 0}, {"builder.MergeSet", builder.MergeSet, 0},
	{"builder.IsSelectBuilder", builder.IsSelectBuilder, 0}, {"builder.IsInsertBuilder", builder.IsInsertBuilder, 0}, {"builder.IsUpdateBuilder", builder.IsUpdateBuilder, 0}, {"builder.IsDeleteBuilder", builder.IsDeleteBuilder, 0},
	{"stmt.NewExpression", stmt.NewExpression, 0}, {"stmt.NewIdentifier", stmt.NewIdentifier, 0}, {"stmt.NewCall", stmt.NewCall, 0}, {"stmt.NewWrapper", stmt.NewWrapper, 0},
	{"stmt.NewColumnAlias", stmt.NewColumnAlias, 0}, {"stmt.NewTableAlias", stmt.NewTableAlias, 0}, {"stmt.NewOrder", stmt.NewOrder, 0}, {"stmt.NewWithQuery", stmt.NewWithQuery, 0},
	{"stmt.NewJoin", stmt.NewJoin, 0}, {"stmt.NewInnerJoin", stmt.NewInnerJoin, 0}, {"stmt.NewIn", stmt.NewIn, 0}, {"stmt.NewNotIn", stmt.NewNotIn, 0},
	{"stmt.NewBetween", stmt.NewBetween, 0}, {"stmt.NewInfixExpression", stmt.NewInfixExpression, 0}, {"stmt.NewOnClause", stmt.NewOnClause, 0}, {"stmt.NewInfixOnExpression", stmt.NewInfixOnExpression, 0},
	{"stmt.NewArrayListExpression", stmt.NewArrayListExpression, 1}, {"stmt.NewArrayExpression", stmt.NewArrayExpression, 1},
	{"stmt.NewInto", stmt.NewInto, 0}, {"stmt.NewPrefix", stmt.NewPrefix, 0}, {"stmt.NewSuffix", stmt.NewSuffix, 0}, {"stmt.NewLimit", stmt.NewLimit, 0}, {"stmt.NewOffset", stmt.NewOffset, 0},
	{"stmt.NewAndOperator", stmt.NewAndOperator, 0}, {"stmt.NewOrOperator", stmt.NewOrOperator, 0},
}

// p31Zeros are the statements whose zero value a user may write.
var p31Zeros = []any{
	stmt.Column{}, stmt.Table{}, stmt.Identifier{}, stmt.Raw{}, stmt.Order{}, stmt.Limit{}, stmt.Offset{}, stmt.WithQuery{}, stmt.OnClause{}, stmt.Value{}, stmt.Call{},
	stmt.Join{}, stmt.From{}, stmt.Into{}, stmt.Prefix{}, stmt.Suffix{}, stmt.Count{}, stmt.Max{}, stmt.Min{}, stmt.Sum{}, stmt.In{}, stmt.Between{}, stmt.InfixExpression{},
	stmt.InfixOnExpression{}, stmt.Select{}, stmt.Insert{}, stmt.Update{}, stmt.Delete{}, builder.Select{}, builder.Insert{}, builder.Update{}, builder.Delete{},
	types.Pair{}, stmt.Set{}, stmt.ConflictNoAction{}, stmt.ConflictUpdateAction{}, stmt.LogicalOperator{}, stmt.ComparisonOperator{}, stmt.Array{}, stmt.ArrayList{},
}

var p31Texts = []string{
	"", " ", "\t\n", "a", "a.b", "a.b.c", ".", "..", "a.", ".a", "*", "a.*", ",", "a,b", "a, ,b", ",,", "a as b", "a AS b AS c", " as ", "as", "a as ", " AS b", "a b", "a b c", `"`, `a"b`, "'", "$1", ":arg_1", "?", "\x00", "\xff", "é",
	"JOIN t ON a = b", "t ON a = b", "ON a = b", "a = b", "a = b AND c = d", "INNER JOIN", "LEFT JOIN t", "ON", "=", "a =", "= b", "a = b AND", "a = b OR c", "(a = b", "a = b)", "AND", ";", "a;", "LEFT", "JOIN JOIN JOIN", "a = b = c",
	"SELECT 1", "count(*)", "(", ")", "()", "--", "/*", "*/", "a--b", "null", "true", "0", "-1", "1", "12", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e3", "0x10", "1_0", " 1", "+1", "٣", "1.5", "NaN",
	"ASC", "DESC", "id DESC", "FOR UPDATE", strings.Repeat("a", 300), strings.Repeat("a,", 200), strings.Repeat("a.", 200), strings.Repeat("(", 500), strings.Repeat("a = b AND ", 200) + "c = d",
}

// p31Edges are containers with nothing in them, in every type the API takes, and of others.
var p31Edges = func() []any {
	var out []any
	var elems []reflect.Type
	for _, v := range []any{
		"", true, 1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), 1.5, time.Time{}, []byte{}, stmt.Column{}, stmt.Table{}, stmt.Raw{}, stmt.Value{},
		stmt.Identifier{}, stmt.WithQuery{}, stmt.Join{}, stmt.Order{}, stmt.OnClause{}, stmt.InfixExpression{}, stmt.Call{}, types.Pair{}, lk.Map{}, map[string]any{}, map[string]string{}, builder.Select{}, struct{}{}, (*int)(nil), (*string)(nil), (func())(nil),
	} {
		elems = append(elems, reflect.TypeOf(v))
	}
	for _, p := range []any{(*any)(nil), (*stmt.Expression)(nil), (*stmt.SelectExpression)(nil), (*stmt.Statement)(nil), (*stmt.OnExpression)(nil), (*error)(nil), (*fmt.Stringer)(nil)} {
		elems = append(elems, reflect.TypeOf(p).Elem())
	}
	for _, e := range elems {
		one := reflect.SliceOf(e)
		two := reflect.SliceOf(one)
		row := func(rows ...reflect.Value) any {
			return reflect.Append(reflect.MakeSlice(two, 0, 0), rows...).Interface()
		}
		empty, null, zero := reflect.MakeSlice(one, 0, 0), reflect.Zero(one), reflect.MakeSlice(one, 1, 1)
		out = append(out,
			null.Interface(), empty.Interface(), zero.Interface(), reflect.MakeSlice(one, 3, 3).Interface(),
			reflect.Zero(two).Interface(), row(), row(null), row(empty), row(empty, empty), row(zero), row(zero, empty), row(empty, zero), row(zero, null), row(zero, zero),
			reflect.Zero(reflect.SliceOf(two)).Interface(), reflect.MakeSlice(reflect.SliceOf(two), 1, 1).Interface(),
			reflect.New(one).Interface(), reflect.Zero(reflect.PointerTo(one)).Interface(), reflect.New(e).Interface(),
			reflect.Zero(reflect.ArrayOf(0, e)).Interface(), reflect.Zero(reflect.ArrayOf(2, e)).Interface(),
		)
	}
	for _, l := range []any{[]any{}, []any{nil}, []any{[]any{}}, []any{[]any{}, []any{}}, []any{[]any{1}, []any{}}, []any{[]any{}, []any{1}}, []any{nil, nil}, []any{[]int{}}, []any{[]int{1}, []string{}}, []any{[][]int{}}, []any{[]any{[]any{}}}, []any{1, []any{}}, []any{[]any{1}, 2}} {
		out = append(out, l)
	}
	return out
}()

// p31Pointers are pointers, nil and not, to statements, builders and encoders.
var p31Pointers = func() []any {
	var out []any
	for _, v := range append(append([]any{}, p31Zeros...), wrapEncoder{}, p31Int64(1), p31Bool(true), p31Time{}, p31Text("x"), types.Map{}, map[string]any{}, time.Time{}, "", 1, true, []string{}, []any{}) {
		typ := reflect.TypeOf(v)
		out = append(out, reflect.Zero(reflect.PointerTo(typ)).Interface())
		if _, ok := v.(wrapEncoder); !ok {
			out = append(out, reflect.New(typ).Interface())
		}
	}
	return out
}()

// Encoders whose methods take a value.
type (
	p31Int64 int64
	p31Bool  bool
	p31Time  struct{ t time.Time }
	p31Text  string
)

func (v p31Int64) Int64() int64   { return int64(v) }
func (v p31Bool) Bool() bool      { return bool(v) }
func (v p31Time) Time() time.Time { return v.t }
func (v p31Text) String() string  { return string(v) }

// p31Methods are the methods of the builders.
var p31Methods = func() []string {
	var out []string
	for _, b := range []bld{builder.Select{}, builder.Insert{}, builder.Update{}, builder.Delete{}} {
		typ := reflect.TypeOf(b)
		for i := 0; i < typ.NumMethod(); i++ {
			mt := typ.Method(i).Type
			for k := 1; k < mt.NumIn(); k++ {
				pt := mt.In(k)
				if mt.IsVariadic() && k == mt.NumIn()-1 {
					pt = pt.Elem()
				}
				if pt == p31AnyType {
					out = append(out, typ.Name()+"."+typ.Method(i).Name)
					break
				}
			}
		}
	}
	return out
}()

// p31EdgePlaces is the number of places where p31Edge puts a value.
var p31EdgePlaces = len(valuePositions) + len(listPositions) + 4*len(p31Methods) + 3*len(p31Funcs)

// p31Edge puts each of the edge values in each place of the API which takes a value of any type.
func p31Edge(t *T) {
	v := p31Edges[t.idx%len(p31Edges)]
	k := t.idx / len(p31Edges)
	p := &p31Pool{t: t, r: t.R("")}
	var name string
	var build func() any
	switch {
	case k < len(valuePositions):
		name = valuePositions[k].name
		build = func() any { return valuePositions[k].build(v) }
	case k < len(valuePositions)+len(listPositions):
		lp := listPositions[k-len(valuePositions)]
		name = lp.name
		build = func() any { return lp.build(v) }
	default:
		k -= len(valuePositions) + len(listPositions)
		var fn reflect.Value
		way := 0
		if k < 4*len(p31Methods) {
			way = k % 4
			name = p31Methods[k/4]
			start := map[string]bld{"Select": lk.Select("a").From("t"), "Insert": lk.Insert("t"), "Update": lk.Update("t"), "Delete": lk.Delete("t")}
			fresh := map[string]bld{"Select": builder.NewSelect(), "Insert": builder.NewInsert(), "Update": builder.NewUpdate("t"), "Delete": builder.NewDelete()}
			typ, method, _ := strings.Cut(name, ".")
			b := start[typ]
			if way == 3 {
				b = fresh[typ]
			}
			fn = reflect.ValueOf(b).MethodByName(method)
		} else {
			k -= 4 * len(p31Methods)
			way = k % 3
			name = p31Funcs[k/3].name
			fn = reflect.ValueOf(p31Funcs[k/3].fn)
		}
		ft := fn.Type()
		var args []reflect.Value
		given := false
		edge := func() {
			given = true
			args = append(args, reflect.ValueOf(v))
		}
		for i := 0; i < ft.NumIn(); i++ {
			pt := ft.In(i)
			last := ft.IsVariadic() && i == ft.NumIn()-1
			if last {
				pt = pt.Elem()
			}
			switch {
			case pt != p31AnyType && reflect.TypeOf(v).AssignableTo(pt):
				edge()
			case pt != p31AnyType:
				if last {
					continue
				}
				a, ok := p.arg(pt, 1)
				if !ok {
					return
				}
				args = append(args, a)
			case !last:
				edge()
			case way == 1:
				args = append(args, reflect.ValueOf("a"))
				edge()
			case way == 2:
				edge()
				args = append(args, reflect.ValueOf("a"))
			default:
				edge()
			}
		}
		if !given {
			return
		}
		build = func() any {
			if out := fn.Call(args); len(out) == 1 {
				return out[0].Interface()
			}
			return nil
		}
	}
	t.Trace("%s with %T(%v)", name, v, v)
	p.log = append(p.log, func() string { return fmt.Sprintf("%s with %T %+v", name, v, v) })
	var made any
	o := try(func() { made = build() })
	t.Ev("calls with an edge value", 1)
	t.Distinct("edge", name, fmt.Sprintf("%T %d", v, t.idx%len(p31Edges)))
	if why := p31Fault(o); why != "" {
		t.Fail("%s: %s\nin %s\n%s", why, o.Msg, p.history(), clip(o.Stack, 3000))
	}
	if o.Panicked {
		t.Ev("edge values rejected", 1)
		return
	}
	t.Ev("edge values accepted", 1)
	if made != nil {
		p.render(reflect.ValueOf(made))
		if e, ok := made.(stmt.Expression); ok {
			if o := try(func() { p.render(reflect.ValueOf(lk.Select("a").Where(e))) }); p31Fault(o) != "" {
				t.Fail("%s: %s\nin Where(%s)\n%s", p31Fault(o), o.Msg, p.history(), clip(o.Stack, 3000))
			}
		}
	}
}

// p31Pool holds what the calls of a case returned.
type p31Pool struct {
	t    *T
	r    *R
	objs []reflect.Value
	size []int
	log  []func() string
	used int // size of the arguments picked for the current call
}

func (p *p31Pool) add(v reflect.Value, size int) {
	if !v.IsValid() || v.Kind() == reflect.Interface && v.IsNil() {
		return
	}
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !strings.HasPrefix(v.Type().PkgPath(), loukoumPkg) {
		return
	}
	p.objs = append(p.objs, v)
	p.size = append(p.size, size)
}

// pick returns an object of the pool which can be given as typ.
func (p *p31Pool) pick(typ reflect.Type) (reflect.Value, bool) {
	for try := 0; try < 12 && len(p.objs) > 0; try++ {
		i := p.r.N(len(p.objs))
		if p.objs[i].Type().AssignableTo(typ) && p.size[i]+p.used < 400 {
			p.used += p.size[i]
			return p.objs[i], true
		}
	}
	return reflect.Value{}, false
}

// any returns a value of any type whatsoever.
func (p *p31Pool) any(depth int) any {
	r := p.r
	switch k := r.N(20); {
	case k < 5:
		if v, ok := p.pick(reflect.TypeOf((*any)(nil)).Elem()); ok {
			if r.P(15) {
				q := reflect.New(v.Type())
				q.Elem().Set(v)
				return q.Interface()
			}
			return v.Interface()
		}
		return pick(r, p31Texts...)
	case k < 8:
		return pick(r, p31Texts...)
	case k < 10:
		return unsupported[r.N(len(unsupported))]
	case k < 12:
		return p.value()
	case k < 13:
		return p31Zeros[r.N(len(p31Zeros))]
	case k < 15:
		return pick[any](r, nil, true, int8(-1), math.MinInt64, int64(math.MaxInt64), uint64(math.MaxUint64), uint(5), math.NaN(), math.Inf(1), float32(0), 1e300, []byte(nil), []byte{0, 255}, time.Time{},
			time.Unix(1<<60, 0), (*time.Time)(nil), map[string]any(nil), map[string]any{"a": 1}, lk.Map(nil), lk.Map{"a": nil}, lk.Map{nil: nil}, lk.Map{"": 1}, lk.Map{1: 2}, []string(nil), []string{""}, []string{"a,b", ",", "c as d"},
			[]stmt.Column(nil), []stmt.Column{{}}, []stmt.Table{{}}, []stmt.Statement{nil}, []stmt.Expression{nil}, []stmt.SelectExpression{nil}, []any(nil), []any{nil}, [][]any{nil, {}}, []types.Pair{{}}, [][]string{nil}, []float64{})
	case k < 16:
		if r.P(30) {
			return p31Pointers[r.N(len(p31Pointers))]
		}
		return p31Edges[r.N(len(p31Edges))]
	}
	if depth == 0 {
		return nil
	}
	n := r.N(4)
	if r.P(25) {
		m := lk.Map{}
		for i := 0; i < n; i++ {
			k := p.any(0)
			if k != nil && !reflect.TypeOf(k).Comparable() {
				k = "k"
			}
			func() {
				// A comparable type may still hold a value which is not.
				defer func() { _ = recover() }()
				m[k] = p.any(depth - 1)
			}()
		}
		return m
	}
	list := make([]any, n)
	for i := range list {
		list[i] = p.any(depth - 1)
	}
	if r.P(20) && n > 0 && list[0] != nil {
		// A slice of one type.
		s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(list[0])), 0, n)
		s = reflect.Append(s, reflect.ValueOf(list[0]))
		return s.Interface()
	}
	return list
}

var p31AnyType = reflect.TypeOf((*any)(nil)).Elem()
var p31ContextType = reflect.TypeOf((*types.Context)(nil)).Elem()

// arg returns a value for a parameter of type typ.
func (p *p31Pool) arg(typ reflect.Type, depth int) (reflect.Value, bool) {
	r := p.r
	switch {
	case typ == p31AnyType:
		v := p.any(2)
		if v == nil {
			return reflect.Zero(typ), true
		}
		return reflect.ValueOf(v), true
	case typ == p31ContextType:
		return reflect.ValueOf(pick[types.Context](r, &types.RawContext{}, &types.StdContext{}, &types.NamedContext{})), true
	case typ.Kind() == reflect.String:
		var s string
		switch typ {
		case reflect.TypeOf(types.LeftJoin):
			s = string(pick(r, append(joinTypes, "", "X")...))
		case reflect.TypeOf(types.Asc):
			s = string(pick(r, types.Asc, types.Desc, "", "X"))
		default:
			s = pick(r, p31Texts...)
		}
		return reflect.ValueOf(s).Convert(typ), true
	case typ.Kind() == reflect.Bool:
		return reflect.ValueOf(r.P(50)).Convert(typ), true
	case typ.Kind() >= reflect.Int && typ.Kind() <= reflect.Int64:
		return reflect.ValueOf(pick(r, 0, -1, 1, 5, math.MaxInt64, math.MinInt64)).Convert(typ), true
	case typ.Kind() == reflect.Slice:
		n := pick(r, 0, 1, 1, 2, 3)
		s := reflect.MakeSlice(typ, 0, n)
		for i := 0; i < n; i++ {
			e, ok := p.arg(typ.Elem(), depth)
			if !ok {
				return reflect.Value{}, false
			}
			s = reflect.Append(s, e)
		}
		return s, true
	case typ.Kind() == reflect.Interface:
		if r.P(6) {
			return reflect.Zero(typ), true
		}
		if r.P(6) {
			// A pointer, nil or not.
			if v := reflect.ValueOf(p31Pointers[r.N(len(p31Pointers))]); v.Type().AssignableTo(typ) {
				return v, true
			}
		}
	}
	if v, ok := p.pick(typ); ok {
		return v, true
	}
	if r.P(30) {
		for try := 0; try < 12; try++ {
			z := reflect.ValueOf(p31Zeros[r.N(len(p31Zeros))])
			if z.Type().AssignableTo(typ) {
				return z, true
			}
		}
	}
	if depth > 0 {
		// Made for the purpose.
		var can []int
		for i, f := range p31Funcs {
			if ft := reflect.TypeOf(f.fn); ft.NumOut() == 1 && ft.Out(0).AssignableTo(typ) {
				can = append(can, i)
			}
		}
		for try := 0; try < 3 && len(can) > 0; try++ {
			i := can[r.N(len(can))]
			if out := p.call(p31Funcs[i].name, reflect.ValueOf(p31Funcs[i].fn), p31Funcs[i].min, 0, depth-1); len(out) == 1 {
				return out[0], true
			}
		}
	}
	if typ.Kind() == reflect.Interface {
		return reflect.Zero(typ), true
	}
	return reflect.Value{}, false
}

// p31Clean tells if the outcome of a call is a result or a rejection with a message.
func p31Fault(o outcome) string {
	switch {
	case !o.Panicked:
		return ""
	case o.Runtime:
		return "a runtime fault"
	case strings.HasPrefix(o.Msg, "reflect"):
		return "a fault of the reflect package"
	case len(strings.TrimSpace(o.Msg)) < 8:
		return "a panic without message"
	}
	return ""
}

// call calls a function with arguments of the types it takes.
func (p *p31Pool) call(name string, fn reflect.Value, min, size, depth int) []reflect.Value {
	ft := fn.Type()
	var args []reflect.Value
	used := p.used
	p.used = size
	for i := 0; i < ft.NumIn(); i++ {
		pt := ft.In(i)
		n := 1
		if ft.IsVariadic() && i == ft.NumIn()-1 {
			pt = pt.Elem()
			n = pick(p.r, 0, 1, 1, 1, 2, 2, 3, 4)
			if n < min {
				n = min
			}
		}
		for ; n > 0; n-- {
			a, ok := p.arg(pt, depth)
			if !ok {
				p.used = used
				return nil
			}
			args = append(args, a)
		}
	}
	size = p.used + 1
	p.used = used

	call := func() string {
		var desc []string
		for _, a := range args {
			if a.Kind() == reflect.Interface && a.IsNil() {
				desc = append(desc, "nil")
				continue
			}
			desc = append(desc, clip(fmt.Sprintf("%T(%#v)", a.Interface(), a.Interface()), 300))
		}
		return fmt.Sprintf("%s(%s)", name, strings.Join(desc, ", "))
	}
	var out []reflect.Value
	o := try(func() { out = fn.Call(args) })
	p.t.Ev("calls", 1)
	if why := p31Fault(o); why != "" {
		p.t.Fail("%s: %s\nin %s\nafter:\n  %s\n%s", why, o.Msg, call(), p.history(), clip(o.Stack, 3000))
		return nil
	}
	if o.Panicked {
		p.t.Ev("rejections", 1)
		p.t.Distinct("rejected", o.Msg)
		return nil
	}
	p.log = append(p.log, call)
	for _, v := range out {
		p.add(v, size)
	}
	return out
}

func (p *p31Pool) history() string {
	var lines []string
	for _, l := range p.log {
		lines = append(lines, l())
	}
	return strings.Join(lines, "\n  ")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// value returns a supported value.
func (p *p31Pool) value() any {
	return kindByName[allKinds[p.r.N(len(allKinds))]].gen(p.r).In
}

// finish renders every builder which was made, all its calls having succeeded.
func (p *p31Pool) finish() {
	for _, v := range p.objs {
		p.render(v)
	}
}

func (p *p31Pool) render(v reflect.Value) {
	b, ok := v.Interface().(bld)
	if !ok {
		return
	}
	for _, form := range []struct {
		name string
		fn   func()
	}{
		{"String", func() { _ = b.String() }}, {"Query", func() { _, _ = b.Query() }}, {"NamedQuery", func() { _, _ = b.NamedQuery() }},
	} {
		o := try(form.fn)
		p.t.Ev("renderings", 1)
		if why := p31Fault(o); why != "" {
			p.t.Fail("%s: %s\nin %s of a %T\nmade by:\n  %s\n%s", why, o.Msg, form.name, b, p.history(), clip(o.Stack, 3000))
			return
		}
		if o.Panicked {
			p.t.Ev("rejected renderings", 1)
			p.t.Distinct("rejected", o.Msg)
		} else if form.name == "Query" {
			p.t.Ev("statements", 1)
		}
	}
}

func p31Random(t *T) {
	p := &p31Pool{t: t, r: t.R("")}
	for i := 0; i < 40; i++ {
		if len(p.objs) == 0 || p.r.P(30) {
			f := p31Funcs[p.r.N(len(p31Funcs))]
			p.call(f.name, reflect.ValueOf(f.fn), f.min, 0, 2)
			continue
		}
		k := p.r.N(len(p.objs))
		v := p.objs[k]
		if p.size[k] > 300 || v.NumMethod() == 0 {
			continue
		}
		m := p.r.N(v.NumMethod())
		name := v.Type().Method(m).Name
		if _, ok := v.Interface().(bld); !ok && (name == "Write" || name == "GoString") {
			// Writing a statement alone is no builder call.
			continue
		}
		p.call(fmt.Sprintf("#%d %s.%s", k, v.Type(), name), v.Method(m), 0, p.size[k], 2)
		p.t.Ev("method calls", 1)
	}
	p.finish()
	t.Distinct(p.history())
	t.Sample("%s", p.history())
}

// p31Programs makes a long sound program, and gives one of its calls another argument.
func p31Builders(t *T) {
	p := &p31Pool{t: t, r: t.R("")}
	// The methods of one builder, mostly: this is how users misuse it.
	kind := kinds4[t.idx%4]
	o := defaultOpts()
	prog := newGen(t, o, "v", "s", "p").Of(kind)
	b := prog.Start()
	keep := p.r.N(len(prog.Steps) + 1)
	for _, s := range prog.Steps[:keep] {
		b = s.Apply(b)
	}
	made := keep
	p.log = append(p.log, func() string {
		return fmt.Sprintf("a generated %s of %d calls: %s", kind, made, clip(fmt.Sprint(prog.Desc()), 2000))
	})
	cur := reflect.ValueOf(b)
	p.add(cur, 1)
	for i := 0; i < 12; i++ {
		m := p.r.N(cur.NumMethod())
		out := p.call(cur.Type().String()+"."+cur.Type().Method(m).Name, cur.Method(m), 0, 1, 2)
		if len(out) == 1 && out[0].Type() == cur.Type() {
			cur = out[0]
			t.Ev("builder calls", 1)
		}
		if p.r.P(20) {
			// What remains of the program.
			if keep < len(prog.Steps) {
				if o := try(func() { cur = reflect.ValueOf(prog.Steps[keep].Apply(cur.Interface().(bld))) }); p31Fault(o) != "" {
					t.Fail("%s: %s\nafter %s\n%s", p31Fault(o), o.Msg, p.history(), clip(o.Stack, 3000))
				}
				keep++
			}
		}
	}
	p.render(cur)
	t.Distinct(kind, p.history())
}

// p31Nesting nests every form which contains others many times.
func p31Nesting(t *T) {
	depth := []int{1, 2, 20, 200, 1000, 3000}[t.idx%6]
	if t.Thorough() && t.idx%6 == 5 {
		depth = 10000
	}
	// Subqueries are much less nested than conditions: a rendering can cost a constant memory per level and enclosed word.
	subMax := 400
	if t.Thorough() {
		subMax = 1000
	}
	a := lk.Condition("a")
	sel := func(e stmt.Expression) builder.Select { return lk.Select("x").From("t").Where(e) }
	nest := []struct {
		name string
		max  int
		fn   func() bld
	}{
		{"and left", 1 << 30, func() bld {
			e := stmt.Expression(a.Equal(0))
			for i := 0; i < depth; i++ {
				e = lk.And(e, a.Equal(i))
			}
			return sel(e)
		}},
		{"or right", 1 << 30, func() bld {
			e := stmt.Expression(a.Equal(0))
			for i := 0; i < depth; i++ {
				e = lk.Or(a.Equal(i), e)
			}
			return sel(e)
		}},
		{"methods", 1 << 30, func() bld {
			e := a.Equal(0)
			for i := 0; i < depth; i++ {
				e = e.And(a.Equal(i)).Or(a.In(i))
			}
			return sel(e)
		}},
		{"builder", 1 << 30, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = b.And(a.Equal(i)).Or(a.Between(i, 3))
			}
			return b
		}},
		{"exists", subMax, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = sel(lk.Exists(b))
			}
			return b
		}},
		{"not exists", subMax, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = sel(lk.NotExists(b))
			}
			return b
		}},
		{"in", subMax, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = sel(a.In(b))
			}
			return b
		}},
		{"comparison", subMax, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = sel(a.GreaterThan(b))
			}
			return b
		}},
		{"with", subMax, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = lk.Select("y").With(lk.With("w", b)).From("w")
			}
			return b
		}},
		{"select exists", subMax, func() bld {
			b := sel(a.Equal(0))
			for i := 0; i < depth; i++ {
				b = lk.Select(lk.Exists(b))
			}
			return b
		}},
		{"calls", 1 << 30, func() bld {
			e := stmt.NewCall("f", stmt.NewValue(1))
			for i := 0; i < depth; i++ {
				e = stmt.NewCall("f", e)
			}
			return sel(e.Equal(1))
		}},
		{"on", 1 << 30, func() bld {
			e := stmt.OnExpression(lk.On("a", "b"))
			for i := 0; i < depth; i++ {
				if i%2 == 0 {
					e = lk.AndOn(e, lk.On("c", "d"))
				} else {
					e = lk.OrOn(lk.On("c", "d"), e)
				}
			}
			return lk.Select("x").From("t").Join("u", e)
		}},
		{"lists", 1 << 30, func() bld {
			var l any = []any{1}
			for i := 0; i < depth && i < 2000; i++ {
				l = []any{l}
			}
			return sel(a.In(l))
		}},
		{"rows", 1 << 30, func() bld {
			var l any = []any{1}
			for i := 0; i < depth && i < 2000; i++ {
				l = []any{l, l}[:1+i%2]
				if i > 20 {
					l = []any{l}
				}
				if i > 12 {
					break
				}
			}
			return lk.Insert("t").Columns("a").Values(l)
		}},
		{"wide", 1 << 30, func() bld {
			b := lk.Select("x").From("t")
			for i := 0; i < depth; i++ {
				b = b.Join("u", lk.On("a", "b")).OrderBy(lk.Order("a")).With(lk.With(fmt.Sprint("w", i), lk.Select("z")))
			}
			return b
		}},
		{"texts", 1 << 30, func() bld {
			return lk.Select(strings.Repeat("a,", depth)+"b").From("t").Join("u", strings.Repeat("a = b AND ", depth)+"c = d")
		}},
	}
	n := nest[t.idx/6%len(nest)]
	if depth > n.max {
		depth = n.max
	}
	t.Trace("%s nested %d times", n.name, depth)
	var b bld
	if o := try(func() { b = n.fn() }); o.Panicked {
		if p31Fault(o) != "" {
			t.Fail("%s: %s\nmaking %s nested %d times\n%s", p31Fault(o), o.Msg, n.name, depth, clip(o.Stack, 3000))
		}
		t.Ev("rejections", 1)
		return
	}
	for _, fn := range []func(){func() { _ = b.String() }, func() { _, _ = b.Query() }, func() { _, _ = b.NamedQuery() }} {
		if o := try(fn); p31Fault(o) != "" {
			t.Fail("%s: %s\nrendering %s nested %d times\n%s", p31Fault(o), o.Msg, n.name, depth, clip(o.Stack, 3000))
		}
	}
	t.Ev("nestings", 1)
	t.Distinct(n.name, fmt.Sprint(depth))
	t.Sample("%s nested %d times", n.name, depth)
}

func init() {
	register(&Check{
		ID: "P31",
		Rule: "the functions and methods of the API called through reflection, in random sequences, with arguments of every type (texts, numbers, lists, maps, statements, builders, pointers, zero values, nil); " +
			"misused generated builders; deep nestings. Every panic must carry a message and be no runtime fault.",
		Require:   []string{"calls", "method calls", "rejections", "renderings", "statements", "builder calls", "nestings", "edge values accepted", "edge values rejected"},
		HangFails: true,
		Families: []Family{
			{Name: "random", Quick: 30000, Thorough: 600000, Fn: p31Random},
			{Name: "builders", Quick: 20000, Thorough: 400000, Fn: p31Builders},
			{Name: "edge", Quick: len(p31Edges) * p31EdgePlaces, Thorough: 2 * len(p31Edges) * p31EdgePlaces, Fn: p31Edge},
			{Name: "nesting", Quick: 96, Thorough: 96, Fn: p31Nesting},
		},
	})
}
