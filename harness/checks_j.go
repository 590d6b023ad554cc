//go:build !nohand

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P33

func init() {
	register(&Check{
		ID: "P33",
		Rule: "the statement of a generated builder is made again by hand, part after part, with the constructors of the stmt package; written on the contexts of the library, it must give the " +
			"renderings of the builder. The contexts, the container of pairs and the emptiness of every part are compared with models.",
		Require: []string{"statements made again", "parts made again", "context operations", "container operations", "parts judged empty", "parts judged not empty"},
		Families: []Family{
			{Name: "huge", Quick: 200, Thorough: 15000, Fn: hugely(5000, p33Made)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p33Made)},
			{Name: "made", Quick: 9000, Thorough: 250000, Fn: p33Made},
			{Name: "contexts", Quick: 4000, Thorough: 100000, Fn: p33Contexts},
			{Name: "pairs", Quick: 6000, Thorough: 200000, Fn: p33Pairs},
			{Name: "empties", Quick: len(p33Parts), Thorough: len(p33Parts), Fn: p33Empties},
		},
	})
}

// maker makes statements again from their parts.
type maker struct {
	t     *T
	r     *R
	parts int
}

func (m *maker) exprs(list []stmt.Expression) []stmt.Expression {
	out := make([]stmt.Expression, len(list))
	for i := range list {
		out[i] = m.expr(list[i])
	}
	return out
}

func (m *maker) expr(e stmt.Expression) stmt.Expression {
	m.parts++
	switch x := e.(type) {
	case stmt.Select:
		return m.selekt(x)
	case *stmt.Wrapper:
		return stmt.NewWrapper(m.expr(x.Value))
	case stmt.Exists:
		return stmt.NewExists(m.expr(x.Subquery))
	case stmt.NotExists:
		return stmt.NewNotExists(m.expr(x.Subquery))
	case stmt.InfixExpression:
		left, right := m.expr(x.Left), m.expr(x.Right)
		op, ok := x.Operator.(stmt.LogicalOperator)
		if !ok {
			return stmt.NewInfixExpression(left, stmt.NewComparisonOperator(x.Operator.(stmt.ComparisonOperator).Operator), right)
		}
		and := op.Operator == types.And
		type chain interface {
			And(stmt.Expression) stmt.InfixExpression
			Or(stmt.Expression) stmt.InfixExpression
		}
		if c, ok := left.(chain); ok && m.r.P(50) {
			if and {
				return c.And(right)
			}
			return c.Or(right)
		}
		if and {
			return stmt.NewInfixExpression(left, stmt.NewAndOperator(), right)
		}
		return stmt.NewInfixExpression(left, stmt.NewOrOperator(), right)
	case stmt.Between:
		if x.Operator.Operator == types.Between {
			return stmt.NewBetween(m.identifier(x.Identifier), m.expr(x.From), m.expr(x.To))
		}
		return stmt.NewNotBetween(m.identifier(x.Identifier), m.expr(x.From), m.expr(x.To))
	case stmt.In:
		if x.Operator.Operator == types.In {
			return stmt.NewIn(m.expr(x.Expression), m.expr(x.Value))
		}
		return stmt.NewNotIn(m.expr(x.Expression), m.expr(x.Value))
	case stmt.Identifier:
		return m.identifier(x)
	case stmt.Value:
		return stmt.NewValue(x.Value)
	case stmt.Raw:
		return stmt.NewRaw(x.Value)
	case stmt.Array:
		if m.r.P(50) {
			a := stmt.Array{}
			for _, v := range x.Values {
				a.Append(m.expr(v))
			}
			return a
		}
		return stmt.NewArrayExpression(m.exprs(x.Values))
	case stmt.ArrayList:
		rows := make([][]stmt.Expression, 0, len(x.Values))
		for _, row := range x.Values {
			a, ok := row.(stmt.Array)
			if !ok {
				return stmt.ArrayList{Values: m.exprs(x.Values)}
			}
			rows = append(rows, m.exprs(a.Values))
		}
		if len(rows) == 0 {
			return x
		}
		return stmt.NewArrayListExpression(rows)
	case stmt.OnClause:
		return m.on(x).(stmt.Expression)
	case stmt.InfixOnExpression:
		return m.on(x).(stmt.Expression)
	}
	return e
}

func (m *maker) on(e stmt.OnExpression) stmt.OnExpression {
	switch x := e.(type) {
	case stmt.OnClause:
		return stmt.NewOnClause(m.column(x.Left), m.column(x.Right))
	case stmt.InfixOnExpression:
		left, right := m.on(x.Left), m.on(x.Right)
		if x.Operator.Operator == types.And {
			if m.r.P(50) {
				return left.And(right)
			}
			return stmt.NewInfixOnExpression(left, stmt.NewAndOperator(), right)
		}
		if m.r.P(50) {
			return left.Or(right)
		}
		return stmt.NewInfixOnExpression(left, stmt.NewOrOperator(), right)
	}
	return e
}

func (m *maker) identifier(x stmt.Identifier) stmt.Identifier {
	switch i := x.Identifier.(type) {
	case string:
		if m.r.P(30) {
			return stmt.NewIdentifier(stmt.NewColumn(i))
		}
	case stmt.Column:
		return stmt.NewIdentifier(m.column(i))
	case stmt.Expression:
		return stmt.NewIdentifier(m.expr(i))
	}
	return stmt.NewIdentifier(x.Identifier)
}

func (m *maker) column(c stmt.Column) stmt.Column {
	m.parts++
	switch m.r.N(3) {
	case 0:
		return stmt.NewColumnAlias(c.Name, c.Alias)
	case 1:
		return stmt.NewColumn(c.Name).As("other").As(c.Alias)
	}
	return stmt.Column{Name: c.Name, Alias: c.Alias}
}

func (m *maker) columns(list []stmt.Column) []stmt.Column {
	out := make([]stmt.Column, len(list))
	for i := range list {
		out[i] = m.column(list[i])
	}
	return out
}

func (m *maker) table(x stmt.Table) stmt.Table {
	m.parts++
	made := stmt.NewTableAlias(x.Name, x.Alias)
	if m.r.P(50) {
		made = stmt.NewTable(x.Name).As(x.Alias)
	}
	if made != x {
		made = made.Only()
	}
	return made
}

func (m *maker) statement(s stmt.Statement) stmt.Statement {
	switch x := s.(type) {
	case stmt.Table:
		return m.table(x)
	case stmt.Column:
		return m.column(x)
	case stmt.Expression:
		return m.expr(x)
	}
	return s
}

func (m *maker) selection(list []stmt.SelectExpression) []stmt.SelectExpression {
	out := make([]stmt.SelectExpression, len(list))
	for i := range list {
		m.parts++
		switch x := list[i].(type) {
		case stmt.Column:
			out[i] = m.column(x)
		case stmt.Raw:
			out[i] = stmt.NewRaw(x.Value)
		case stmt.Max:
			out[i] = stmt.NewMax(x.Value.Value).As(x.Alias)
		case stmt.Min:
			out[i] = stmt.NewMin(x.Value.Value).As(x.Alias)
		case stmt.Sum:
			out[i] = stmt.NewSum(x.Value.Value).As(x.Alias)
		case stmt.Count:
			out[i] = stmt.NewCount(x.Value.Value).As(x.Alias).Distinct(x.IsDistinct)
		case stmt.Exists:
			out[i] = stmt.NewExists(m.expr(x.Subquery))
		case stmt.NotExists:
			out[i] = stmt.NewNotExists(m.expr(x.Subquery))
		default:
			out[i] = x
		}
	}
	return out
}

func (m *maker) with(w stmt.With) stmt.With {
	var list []stmt.WithQuery
	for _, q := range w.Queries {
		list = append(list, stmt.NewWithQuery(q.Name, m.expr(q.Subquery)))
	}
	return stmt.NewWith(list)
}

func (m *maker) from(f stmt.From) stmt.From {
	var list []stmt.Statement
	for _, x := range f.Tables {
		list = append(list, m.statement(x))
	}
	return stmt.NewFrom(list)
}

// split reads a condition as a chain of conditions: the first one, and what was joined.
func (m *maker) split(e stmt.Expression) (first stmt.Expression, and []bool, rest []stmt.Expression) {
	x, ok := e.(stmt.InfixExpression)
	if ok && m.r.P(80) {
		if op, ok := x.Operator.(stmt.LogicalOperator); ok {
			first, and, rest = m.split(x.Left)
			return first, append(and, op.Operator == types.And), append(rest, m.expr(x.Right))
		}
	}
	return m.expr(e), nil, nil
}

func (m *maker) where(w stmt.Where) stmt.Where {
	if w.IsEmpty() {
		return stmt.Where{}
	}
	first, and, rest := m.split(w.Condition)
	made := stmt.NewWhere(first)
	for i := range rest {
		before := made
		if and[i] {
			made = made.And(rest[i])
		} else {
			made = made.Or(rest[i])
		}
		m.unchanged(before, made)
	}
	return made
}

func (m *maker) having(h stmt.Having) stmt.Having {
	if h.IsEmpty() {
		return stmt.Having{}
	}
	first, and, rest := m.split(h.Condition)
	made := stmt.NewHaving(first)
	for i := range rest {
		if and[i] {
			made = made.And(rest[i])
		} else {
			made = made.Or(rest[i])
		}
	}
	return made
}

// unchanged: joining a condition to a clause makes another clause.
func (m *maker) unchanged(before, after stmt.Where) {
	a, b := &types.StdContext{}, &types.StdContext{}
	before.Write(a)
	after.Write(b)
	if len(a.Query()) >= len(b.Query()) {
		m.t.Fail("a where clause with another condition is written %s, and was %s", b.Query(), a.Query())
	}
}

func (m *maker) set(s stmt.Set) stmt.Set {
	return stmt.Set{Pairs: m.pairs(s.Pairs)}
}

func (m *maker) pairs(p stmt.PairContainer) stmt.PairContainer {
	made := stmt.NewPairContainer()
	switch p.Mode {
	case stmt.PairAssociativeMode:
		order := append([]stmt.Column{}, p.Columns...)
		sort.Slice(order, func(i, j int) bool {
			return order[i].Name+"\x00"+order[i].Alias < order[j].Name+"\x00"+order[j].Alias
		})
		shuffle(m.r, order)
		for _, c := range order {
			if m.r.P(20) {
				made.Add(c, stmt.NewRaw("before"))
			}
			made.Add(c, m.expr(p.Map[c]))
		}
	case stmt.PairArrayMode:
		for _, c := range p.Columns {
			made.Set(m.column(c))
		}
		for _, e := range p.Expressions {
			made.Use(m.expr(e))
		}
	}
	return made
}

func (m *maker) selekt(x stmt.Select) stmt.Select {
	made := stmt.NewSelect()
	steps := []func(){
		func() { made.Prefix = stmt.NewPrefix(x.Prefix.Prefix) },
		func() { made.With = m.with(x.With) },
		func() { made.Distinct = x.Distinct },
		func() { made.DistinctOn = stmt.NewDistinctOn(m.columns(x.DistinctOn.Columns)) },
		func() { made.Expressions = m.selection(x.Expressions) },
		func() { made.From = m.from(x.From) },
		func() {
			for _, j := range x.Joins {
				made.Joins = append(made.Joins, m.join(j))
			}
		},
		func() { made.Where = m.where(x.Where) },
		func() { made.GroupBy = stmt.NewGroupBy(m.columns(x.GroupBy.Columns)) },
		func() { made.Having = m.having(x.Having) },
		func() { made.OrderBy = stmt.NewOrderBy(m.orders(x.OrderBy.Orders)) },
		func() { made.Limit = stmt.NewLimit(x.Limit.Count) },
		func() { made.Offset = stmt.NewOffset(x.Offset.Start) },
		func() { made.Suffix = stmt.NewSuffix(x.Suffix.Suffix) },
		func() { made.Comment = stmt.NewComment(x.Comment.Comment) },
	}
	shuffle(m.r, steps)
	for _, f := range steps {
		f()
	}
	m.parts += len(steps)
	return made
}

func (m *maker) join(j stmt.Join) stmt.Join {
	table, cond := m.table(j.Table), m.expr(j.Condition)
	if m.r.P(50) {
		switch j.Type {
		case types.InnerJoin:
			return stmt.NewInnerJoin(table, cond)
		case types.LeftJoin:
			return stmt.NewLeftJoin(table, cond)
		case types.RightJoin:
			return stmt.NewRightJoin(table, cond)
		}
	}
	return stmt.NewJoin(j.Type, table, cond)
}

func (m *maker) orders(list []stmt.Order) []stmt.Order {
	var out []stmt.Order
	for _, o := range list {
		switch {
		case o.Type == types.Asc && m.r.P(30):
			out = append(out, stmt.NewColumn(o.Expression).Asc())
		case o.Type == types.Desc && m.r.P(30):
			out = append(out, stmt.NewColumn("other").As(o.Expression).Desc())
		default:
			out = append(out, stmt.NewOrder(o.Expression, o.Type))
		}
	}
	return out
}

func (m *maker) returning(x stmt.Returning) stmt.Returning {
	return stmt.NewReturning(m.selection(x.Columns))
}

func (m *maker) root(s stmt.Statement) stmt.Statement {
	switch x := s.(type) {
	case stmt.Select:
		return m.selekt(x)
	case stmt.Insert:
		made := stmt.NewInsert()
		steps := []func(){
			func() { made.Into = stmt.NewInto(m.table(x.Into.Table)) },
			func() { made.Columns = m.columns(x.Columns) },
			func() {
				if !x.Values.IsEmpty() {
					made.Values = stmt.NewValues(m.expr(x.Values.Values))
				}
			},
			func() {
				if x.OnConflict.Action == nil {
					return
				}
				target := stmt.NewConflictTarget(m.columns(x.OnConflict.Target.Columns))
				switch a := x.OnConflict.Action.(type) {
				case stmt.ConflictNoAction:
					made.OnConflict = stmt.NewOnConflict(target, stmt.NewConflictNoAction())
				case stmt.ConflictUpdateAction:
					made.OnConflict = stmt.NewOnConflict(target, stmt.NewConflictUpdateAction(m.set(a.Set)))
				default:
					made.OnConflict = stmt.NewOnConflict(target, a)
				}
			},
			func() { made.Returning = m.returning(x.Returning) },
			func() { made.Comment = stmt.NewComment(x.Comment.Comment) },
		}
		shuffle(m.r, steps)
		for _, f := range steps {
			f()
		}
		return made
	case stmt.Update:
		made := stmt.NewUpdate(m.table(x.Table))
		steps := []func(){
			func() { made.With = m.with(x.With) },
			func() { made.Only = x.Only },
			func() { made.Set = m.set(x.Set) },
			func() { made.From = m.from(x.From) },
			func() { made.Where = m.where(x.Where) },
			func() { made.Returning = m.returning(x.Returning) },
			func() { made.Comment = stmt.NewComment(x.Comment.Comment) },
		}
		shuffle(m.r, steps)
		for _, f := range steps {
			f()
		}
		return made
	case stmt.Delete:
		made := stmt.NewDelete()
		steps := []func(){
			func() { made.From = m.from(x.From) },
			func() {
				var tables []stmt.Table
				for _, u := range x.Using.Tables {
					tables = append(tables, m.table(u))
				}
				made.Using = stmt.NewUsing(tables)
			},
			func() { made.Where = m.where(x.Where) },
			func() { made.Returning = m.returning(x.Returning) },
			func() { made.Comment = stmt.NewComment(x.Comment.Comment) },
		}
		shuffle(m.r, steps)
		for _, f := range steps {
			f()
		}
		return made
	}
	return s
}

// p33Write has the renderings of a statement on the contexts of the library.
func p33Write(s stmt.Statement) rendered {
	std, named, raw := &types.StdContext{}, &types.NamedContext{}, &types.RawContext{}
	s.Write(std)
	s.Write(named)
	s.Write(raw)
	return rendered{Q: std.Query(), Args: std.Values(), NQ: named.Query(), NArgs: named.Values(), S: raw.Query()}
}

// handMade has the renderings of a statement as a builder has them.
type handMade struct{ s stmt.Statement }

func (h handMade) String() string {
	ctx := &types.RawContext{}
	h.s.Write(ctx)
	return ctx.Query()
}

func (h handMade) NamedQuery() (string, map[string]any) {
	ctx := &types.NamedContext{}
	h.s.Write(ctx)
	return ctx.Query(), ctx.Values()
}

func (h handMade) Query() (string, []any) {
	ctx := &types.StdContext{}
	h.s.Write(ctx)
	return ctx.Query(), ctx.Values()
}

func (h handMade) Statement() stmt.Statement { return h.s }

func p33Made(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	o.nest = 10
	p := newGen(t, o, "", "", "").Of(kinds4[t.idx%4])
	b := p.Build()
	want := render(b)
	m := &maker{t: t, r: t.R("make")}
	made := m.root(b.Statement())
	if reflect.TypeOf(made) != reflect.TypeOf(b.Statement()) || made.IsEmpty() {
		t.Fail("the statement made again is a %T which reports to be empty: %t\n%s", made, made.IsEmpty(), p.Desc())
	}
	t.conform(p, handMade{made}, modePositional, modeNamed)
	got := p33Write(made)
	if len(got.Args) != len(want.Args) || !sameArgs(got.Args, want.Args) {
		t.Fail("the builder and the statement made by hand have other arguments:\n  %s %s\n  %s %s\n%s", want.Q, describeArgs(want.Args), got.Q, describeArgs(got.Args), p.Desc())
	}
	if want.Q == got.Q {
		t.Ev("texts equal to the builder's", 1)
		if msg := want.equal(got); msg != "" {
			t.Fail("the builder and the statement made by hand: %s\n%s", msg, p.Desc())
		}
	}
	if msg := want.equal(p33Write(b.Statement())); msg != "" {
		t.Fail("the builder and its statement on the contexts of the library: %s\n%s", msg, p.Desc())
	}
	if msg := want.equal(render(b)); msg != "" {
		t.Fail("after its statement was made again, the builder renders differently: %s\n%s", msg, p.Desc())
	}
	t.Ev("statements made again", 1)
	t.Ev("parts made again", m.parts)
	t.Distinct(p.AST.shape())
	t.Sample("%s", want.Q)
}

// p33Contexts: several contexts of the library, used at the same time, against lists.
func p33Contexts(t *T) {
	r := t.R("value")
	type ctx interface {
		types.Context
		Query() string
	}
	type model struct {
		ctx  ctx
		text strings.Builder
		args []any
	}
	list := make([]*model, r.Range(1, 5))
	for i := range list {
		list[i] = &model{ctx: pick[ctx](r, &types.StdContext{}, &types.NamedContext{}, &types.RawContext{})}
	}
	var held []func() string
	n := r.Size(1, 60)
	if r.P(2) {
		n = r.Range(500, 3000)
	}
	for i := 0; i < n; i++ {
		m := list[r.N(len(list))]
		if r.P(50) {
			s := pick(r, "", " ", "a", "$1", ":arg_1", "?", "'", "\"", "\x00", "\xff", "--", "%s", "%", "\\", "é", strings.Repeat("x", r.N(300)), fmt.Sprint(i))
			m.ctx.Write(s)
			m.text.WriteString(s)
			t.Ev("context operations", 1)
			continue
		}
		v := makeVal(stableKinds[r.N(len(stableKinds))], r).Out
		if v == nil {
			continue
		}
		m.ctx.Bind(v)
		m.args = append(m.args, v)
		k := strconv.Itoa(len(m.args))
		switch m.ctx.(type) {
		case *types.StdContext:
			m.text.WriteString("$" + k)
		case *types.NamedContext:
			m.text.WriteString(":arg_" + k)
		case *types.RawContext:
			m.text.WriteString(format.Value(v))
		}
		t.Ev("context operations", 1)
		if r.P(20) {
			// What was read before does not change afterwards.
			switch c := m.ctx.(type) {
			case *types.StdContext:
				got, q, copied := c.Values(), c.Query(), append([]any{}, m.args...)
				text := m.text.String()
				held = append(held, func() string {
					if q != text || !sameArgs(got, copied) {
						return fmt.Sprintf("read before: %q %s, expected %q %s", q, describeArgs(got), text, describeArgs(copied))
					}
					return ""
				})
			}
		}
	}
	for _, f := range held {
		if msg := f(); msg != "" {
			t.Fail("%s", msg)
		}
	}
	kinds := ""
	for _, m := range list {
		if got := m.ctx.Query(); got != m.text.String() {
			t.Fail("a %T among %d contexts has %q instead of %q", m.ctx, len(list), got, m.text.String())
		}
		kinds += fmt.Sprintf("%T %d ", m.ctx, len(m.args))
		switch c := m.ctx.(type) {
		case *types.StdContext:
			if !sameArgs(c.Values(), m.args) {
				t.Fail("a %T has %s instead of %s", c, describeArgs(c.Values()), describeArgs(m.args))
			}
		case *types.NamedContext:
			want := map[string]any{}
			for i, v := range m.args {
				want["arg_"+strconv.Itoa(i+1)] = v
			}
			if !sameNamed(c.Values(), want) {
				t.Fail("a %T has %v instead of %v", c, c.Values(), want)
			}
		}
	}
	t.Distinct(kinds)
}

// p33Pairs: the container of pairs against a map.
func p33Pairs(t *T) {
	r := t.R("value")
	c := stmt.NewPairContainer()
	mode := 0 // 1: pairs, 2: lists
	assoc := map[stmt.Column]string{}
	var columns []stmt.Column
	var uses []string
	history := ""
	col := func() stmt.Column {
		x := stmt.NewColumn(pick(r, "a", "b", "B", "a.b", "t.a", "z", "é", "aa", " ", `"`) + strings.Repeat("x", r.N(2)))
		if r.P(10) {
			x = x.As("k")
		}
		return x
	}
	n := r.Size(1, 25)
	for i := 0; i < n; i++ {
		op := r.N(3)
		if r.P(60) && mode > 0 {
			op = mode - 1
			if mode == 2 && r.P(50) {
				op = 2
			}
		}
		x, text := col(), fmt.Sprintf("v%d", i)
		var out outcome
		var ok bool
		switch op {
		case 0:
			ok = mode != 2
			out = try(func() { c.Add(x, stmt.NewRaw(text)) })
			history += fmt.Sprintf(" Add(%v, %s)", x, text)
			if ok {
				mode = 1
				if _, found := assoc[x]; !found {
					columns = append(columns, x)
				}
				assoc[x] = text
			}
		case 1:
			ok = mode != 1
			out = try(func() { c.Set(x) })
			history += fmt.Sprintf(" Set(%v)", x)
			if ok {
				mode = 2
				columns = append(columns, x)
			}
		case 2:
			ok = mode == 2
			out = try(func() { c.Use(stmt.NewRaw(text)) })
			history += fmt.Sprintf(" Use(%s)", text)
			if ok {
				uses = append(uses, text)
			}
		}
		t.Ev("container operations", 1)
		if out.Panicked == ok || out.Runtime {
			t.Fail("container:%s: %s", history, out.String())
		}
		empty := mode == 0 || (mode == 1 && len(assoc) == 0) || (mode == 2 && len(uses) == 0)
		if c.IsEmpty() != empty || (stmt.Set{Pairs: c}).IsEmpty() != empty {
			t.Fail("container:%s: reports to be empty: %t", history, c.IsEmpty())
		}
		if i%3 != 0 && i != n-1 {
			continue
		}
		ctx := &types.RawContext{}
		w := try(func() { stmt.Set{Pairs: c}.Write(ctx) })
		if w.Panicked != empty || w.Runtime {
			t.Fail("container:%s: written %s", history, w.String())
		}
		if empty {
			continue
		}
		want := "SET "
		if mode == 1 {
			sorted := append([]stmt.Column{}, columns...)
			sort.SliceStable(sorted, func(i, j int) bool {
				if sorted[i].Name != sorted[j].Name {
					return sorted[i].Name < sorted[j].Name
				}
				return sorted[i].Alias < sorted[j].Alias
			})
			cols, values := c.Values()
			if len(cols) != len(sorted) || len(values) != len(sorted) {
				t.Fail("container:%s: %d columns and %d values instead of %d", history, len(cols), len(values), len(sorted))
			}
			for i, x := range sorted {
				if i > 0 {
					want += ", "
				}
				one := &types.RawContext{}
				x.Write(one)
				want += one.Query() + " = " + assoc[x]
				if cols[i] != x || values[i] != stmt.Expression(stmt.NewRaw(assoc[x])) {
					t.Fail("container:%s: pair %d is %v = %v instead of %v = %s", history, i, cols[i], values[i], x, assoc[x])
				}
			}
		} else {
			var list []string
			for _, x := range columns {
				one := &types.RawContext{}
				x.Write(one)
				list = append(list, one.Query())
			}
			want += "(" + strings.Join(list, ", ") + ") = (" + strings.Join(uses, ", ") + ")"
		}
		if got := ctx.Query(); got != want {
			t.Fail("container:%s: written\n  %s instead of\n  %s", history, got, want)
		}
	}
	t.Distinct(history)
}

type p33Part struct {
	name  string
	empty bool
	part  stmt.Statement
}

var p33Parts = func() (out []p33Part) {
	add := func(empty bool, list ...stmt.Statement) {
		for i, s := range list {
			out = append(out, p33Part{fmt.Sprintf("%T #%d", s, i), empty, s})
		}
	}
	cols := []stmt.Column{stmt.NewColumn("a")}
	sel := stmt.NewSelect()
	sel.Expressions = []stmt.SelectExpression{cols[0]}
	set := stmt.NewSet()
	set.Pairs.Add(cols[0], stmt.NewValue(nil))
	upd := stmt.NewUpdate(stmt.NewTable("t"))
	noSet := upd
	upd.Set = set
	noTable := upd
	noTable.Table = stmt.Table{}
	ins := stmt.NewInsert()
	ins.Into = stmt.NewInto(stmt.NewTable("t"))
	del := stmt.NewDelete()
	del.From = stmt.NewFrom([]stmt.Statement{stmt.NewTable("t")})
	on := stmt.NewOnClause(cols[0], cols[0])
	cond := stmt.NewIdentifier("a").Equal(1)
	add(true, stmt.Select{}, stmt.NewSelect(), stmt.Select{From: del.From, Where: stmt.NewWhere(cond)}, stmt.Insert{}, stmt.NewInsert(), stmt.Insert{Columns: cols},
		stmt.Update{}, noSet, noTable, stmt.Delete{}, stmt.NewDelete(), stmt.Delete{Where: stmt.NewWhere(cond)},
		stmt.With{}, stmt.NewWith(nil), stmt.WithQuery{}, stmt.DistinctOn{}, stmt.NewDistinctOn(nil), stmt.From{}, stmt.NewFrom(nil), stmt.Join{}, stmt.Where{}, stmt.GroupBy{}, stmt.NewGroupBy(nil),
		stmt.Having{}, stmt.OrderBy{}, stmt.NewOrderBy(nil), stmt.Order{}, stmt.NewOrder("", types.Asc), stmt.Limit{}, stmt.NewLimit(0), stmt.Offset{}, stmt.NewOffset(0),
		stmt.Prefix{}, stmt.NewPrefix(""), stmt.Suffix{}, stmt.NewSuffix(""), stmt.Comment{}, stmt.NewComment(""), stmt.Into{}, stmt.NewInto(stmt.Table{}), stmt.Using{}, stmt.NewUsing(nil),
		stmt.Values{}, stmt.NewValues(nil), stmt.NewValues(stmt.ArrayList{}), stmt.Returning{}, stmt.NewReturning(nil), stmt.OnConflict{}, stmt.NewOnConflict(stmt.NewConflictTarget(cols), nil),
		stmt.NewOnConflict(stmt.NewConflictTarget(cols), stmt.NewConflictUpdateAction(stmt.NewSet())), stmt.ConflictTarget{}, stmt.NewConflictTarget(nil), stmt.ConflictUpdateAction{},
		stmt.Set{}, stmt.NewSet(), stmt.PairContainer{}, stmt.NewPairContainer(), stmt.Column{}, stmt.NewColumn(""), stmt.NewColumnAlias("", "x"), stmt.Table{}, stmt.NewTable(""),
		stmt.NewTableAlias("", "x"), stmt.Table{}.Only(), stmt.Raw{}, stmt.NewRaw(""), stmt.Identifier{}, stmt.NewIdentifier(""), stmt.NewIdentifier(stmt.Column{}), stmt.Array{}, stmt.ArrayList{},
		stmt.NewMax(""), stmt.NewMin("").As("x"), stmt.NewSum(""), stmt.NewCount("").Distinct(true), stmt.OnClause{}, stmt.NewOnClause(cols[0], stmt.Column{}), stmt.NewOnClause(stmt.Column{}, cols[0]),
		stmt.InfixOnExpression{}, stmt.NewInfixOnExpression(on, stmt.NewAndOperator(), stmt.OnClause{}), stmt.NewInfixOnExpression(nil, stmt.NewAndOperator(), on),
		stmt.NewInfixOnExpression(on, stmt.LogicalOperator{}, on), stmt.InfixExpression{}, stmt.NewInfixExpression(cond, stmt.NewAndOperator(), nil),
		stmt.NewInfixExpression(nil, stmt.NewAndOperator(), cond), stmt.NewInfixExpression(cond, stmt.LogicalOperator{}, cond), stmt.NewInfixExpression(cond, nil, cond),
		stmt.Between{}, stmt.In{}, stmt.NewIn(stmt.Raw{}, stmt.NewArrayExpression(1)), stmt.NewIdentifier("").Between(1, 2), stmt.NewBetween(stmt.NewIdentifier("a"), nil, stmt.NewValue(1)),
		stmt.NewNotBetween(stmt.NewIdentifier("a"), stmt.NewValue(1), nil), stmt.LogicalOperator{}, stmt.ComparisonOperator{},
		stmt.NewJoin("", stmt.NewTable("t"), on), stmt.NewInnerJoin(stmt.Table{}, on), stmt.NewInnerJoin(stmt.NewTable("t"), nil), stmt.NewWithQuery("", sel), stmt.WithQuery{Name: "x"})
	add(false, sel, ins, upd, del, stmt.NewWith([]stmt.WithQuery{stmt.NewWithQuery("x", sel)}), stmt.NewWithQuery("x", sel), stmt.NewDistinctOn(cols), del.From, stmt.NewInnerJoin(stmt.NewTable("t"), on),
		stmt.NewWhere(cond), stmt.NewGroupBy(cols), stmt.NewHaving(cond), stmt.NewOrderBy([]stmt.Order{stmt.NewOrder("a", types.Asc)}), stmt.NewOrder("a", types.Desc), stmt.NewLimit(1), stmt.NewLimit(1<<62),
		stmt.NewOffset(1), stmt.NewPrefix("x"), stmt.NewPrefix(" "), stmt.NewSuffix("x"), stmt.NewComment("x"), stmt.NewComment(" "), ins.Into, stmt.NewUsing([]stmt.Table{stmt.NewTable("t")}),
		stmt.NewValues(stmt.NewArrayListExpression(1)), stmt.NewValues(stmt.NewArrayListExpression(nil)), stmt.NewValues(stmt.NewArrayListExpression("")), stmt.NewReturning([]stmt.SelectExpression{cols[0]}),
		stmt.NewOnConflict(stmt.ConflictTarget{}, stmt.NewConflictNoAction()), stmt.NewOnConflict(stmt.ConflictTarget{}, stmt.NewConflictUpdateAction(set)), stmt.NewConflictTarget(cols),
		stmt.NewConflictNoAction(), stmt.NewConflictUpdateAction(set), set, set.Pairs, cols[0], stmt.NewColumn(" "), stmt.NewTable("t"), stmt.NewRaw(" "), stmt.NewRaw("x"), stmt.NewIdentifier("a"),
		stmt.NewIdentifier(cols[0]), stmt.NewIdentifier(sel), stmt.NewValue(nil), stmt.NewValue(""), stmt.NewValue(0), stmt.NewValue(false), stmt.Value{}, stmt.NewArrayExpression(nil, nil), stmt.NewArrayExpression(0),
		stmt.NewArrayExpression(""), stmt.NewMax("a"), stmt.NewMin("a"), stmt.NewSum("a"), stmt.NewCount("*"), on, on.And(on), on.Or(on), cond, cond.And(cond), cond.Or(cond),
		stmt.NewIdentifier("a").Between(nil, nil), stmt.NewIdentifier("a").In(), stmt.NewIdentifier("a").In(nil), stmt.NewIdentifier("a").NotIn([]int{}), stmt.NewIdentifier("a").Is(nil),
		stmt.NewAndOperator(), stmt.NewOrOperator(), stmt.NewComparisonOperator(types.Equal), stmt.NewExists(sel), stmt.NewNotExists(sel), stmt.NewCall("now"), stmt.NewCall("f", stmt.NewValue(nil)))
	return out
}()

func p33Empties(t *T) {
	p := p33Parts[t.idx]
	var got bool
	if out := try(func() { got = p.part.IsEmpty() }); out.Panicked {
		t.Fail("%s: %#v: %s", p.name, p.part, out.String())
	}
	if got != p.empty {
		t.Fail("%s: %#v reports to be empty: %t", p.name, p.part, got)
	}
	if p.empty {
		t.Ev("parts judged empty", 1)
	} else {
		t.Ev("parts judged not empty", 1)
		// What is not empty is written.
		ctx := &recorder{}
		if out := try(func() { p.part.Write(ctx) }); out.Panicked {
			t.Fail("%s: %#v is not empty and cannot be written: %s", p.name, p.part, out.String())
		}
		if ctx.text(0) == "" {
			t.Fail("%s: %#v is not empty and is written as nothing", p.name, p.part)
		}
	}
	t.Distinct(p.name, fmt.Sprint(p.empty), fmt.Sprintf("%#v", p.part))
}
