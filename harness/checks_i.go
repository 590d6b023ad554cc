package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P32

func init() {
	register(&Check{
		ID: "P32",
		Rule: "every clause call is given undefined or unsupported elements, alone or among good ones: it must be rejected with a message, or the element must be " +
			"in a statement which is still well formed. The oracle compares with the same call without the element.",
		Require: []string{"rejected elements", "accepted elements", "good calls"},
		Families: []Family{
			{Name: "elements", Quick: len(p32Slots) * len(p32Bad) * p32Places, Thorough: len(p32Slots) * len(p32Bad) * p32Places, Fn: p32Elements},
			{Name: "mixed", Quick: len(p32Lists) * 400, Thorough: len(p32Lists) * 20000, Fn: p32Mixed},
			{Name: "lengths", Quick: len(p32Lists) * 200, Thorough: len(p32Lists) * 700, Fn: p32Lengths},
		},
	})
}

const p32Places = 4

// p32Slot is a call which takes a list of elements.
type p32Slot struct {
	name string
	kind string
	good []any
	call func(args []any) bld // nil arguments: the same statement without the call
	opt  bool                 // the call is optional
}

func anyOf(v ...any) []any { return v }

func okSel() builder.Select { return lk.Select("c0").From("t0") }
func okIns() builder.Insert { return lk.Insert("t0").Columns("c0").Values(1) }
func okUpd() builder.Update { return lk.Update("t0").Set(lk.Pair("c0", 1)) }
func okDel() builder.Delete { return lk.Delete("t0") }

var p32Slots = []p32Slot{
	{"lk.Select", "select", anyOf("g1", "g2"), func(a []any) bld { return lk.Select(a...).From("t0") }, false},
	{"Select.Columns", "select", anyOf("g1", "g2"), func(a []any) bld { return okSel().Columns(a...) }, false},
	{"Select.DistinctOn", "select", anyOf("g1", "g2"), func(a []any) bld { return okSel().DistinctOn(a...) }, true},
	{"Select.From", "select", anyOf("g1", "g2"), func(a []any) bld { return lk.Select("c0").From(a...) }, true},
	{"Select.GroupBy", "select", anyOf("g1", "g2"), func(a []any) bld { return okSel().GroupBy(a...) }, true},
	{"Insert.Columns", "insert", anyOf("g1", "g2"), func(a []any) bld { return lk.Insert("t0").Columns(a...).Values([]int{1, 2, 3}) }, true},
	{"Insert.Returning", "insert", anyOf("g1", "g2"), func(a []any) bld { return okIns().Returning(a...) }, true},
	{"Insert.OnConflict", "insert", anyOf("g1", "g2"), func(a []any) bld { return okIns().OnConflict(append(a, lk.DoNothing())...) }, true},
	{"DoUpdate", "insert", anyOf(lk.Pair("g1", 1), lk.Pair("g2", 2)), func(a []any) bld { return okIns().OnConflict("c0", lk.DoUpdate(a...)) }, true},
	{"Insert.Set", "insert", anyOf(lk.Pair("g1", 1), lk.Pair("g2", 2)), func(a []any) bld { return lk.Insert("t0").Set(a...) }, true},
	{"Update.Set", "update", anyOf(lk.Pair("g1", 1), lk.Pair("g2", 2)), func(a []any) bld { return okUpd().Set(a...) }, true},
	{"Update.Set columns", "update", anyOf("g1", "g2"), func(a []any) bld { return lk.Update("t0").Set(a...).Using(lk.Raw("x")) }, true},
	{"Update.Using", "update", anyOf(lk.Raw("g1"), lk.Raw("g2")), func(a []any) bld { return lk.Update("t0").Set("c0", "c1").Using(a...) }, true},
	{"Update.Returning", "update", anyOf("g1", "g2"), func(a []any) bld { return okUpd().Returning(a...) }, true},
	{"Delete.From", "delete", anyOf("g1", "g2"), func(a []any) bld { return builder.NewDelete().From(a...) }, true},
	{"Delete.Using", "delete", anyOf("g1", "g2"), func(a []any) bld { return okDel().Using(a...) }, true},
	{"Delete.Returning", "delete", anyOf("g1", "g2"), func(a []any) bld { return okDel().Returning(a...) }, true},
	{"Select.OrderBy", "select", anyOf(lk.Order("g1"), lk.Order("g2")), func(a []any) bld { return okSel().OrderBy(typed[stmt.Order](a)...) }, true},
	{"Select.With", "select", anyOf(lk.With("g1", okSel()), lk.With("g2", okSel())), func(a []any) bld { return okSel().With(typed[stmt.WithQuery](a)...) }, true},
	{"Update.With", "update", anyOf(lk.With("g1", okSel()), lk.With("g2", okSel())), func(a []any) bld { return okUpd().With(typed[stmt.WithQuery](a)...) }, true},
	{"ToColumns", "select", anyOf("g1", "g2"), func(a []any) bld { return okSel().Columns(builder.ToColumns(a)) }, true},
	{"ToSelectExpressions", "select", anyOf("g1", "g2"), func(a []any) bld { return okSel().Columns(builder.ToSelectExpressions(a)) }, true},
	{"ToTables", "select", anyOf("g1", "g2"), func(a []any) bld {
		tables := builder.ToTables(a)
		list := make([]any, len(tables))
		for i := range tables {
			list[i] = tables[i]
		}
		return lk.Select("c0").From(list...)
	}, true},
	{"ToFrom", "select", anyOf("g1", "g2"), func(a []any) bld { return lk.Select("c0").From(builder.ToFrom(a...)) }, true},
	// Single elements.
	{"lk.Insert", "insert", nil, func(a []any) bld { return lk.Insert(a[0]).Columns("c0").Values(1) }, false},
	{"Insert.Into", "insert", nil, func(a []any) bld { return builder.NewInsert().Into(a[0]).Columns("c0").Values(1) }, false},
	{"lk.Update", "update", nil, func(a []any) bld { return lk.Update(a[0]).Set(lk.Pair("c0", 1)) }, false},
	{"lk.Delete", "delete", nil, func(a []any) bld { return lk.Delete(a[0]) }, false},
	{"Update.From", "update", nil, func(a []any) bld { return okUpd().From(a[0]) }, false},
	{"Select.Prefix", "select", nil, func(a []any) bld { return okSel().Prefix(a[0]) }, false},
	{"Select.Suffix", "select", nil, func(a []any) bld { return okSel().Suffix(a[0]) }, false},
	{"Select.Join", "select", nil, func(a []any) bld { return okSel().Join(a[0]) }, false},
	{"Select.Join table", "select", nil, func(a []any) bld { return okSel().Join(a[0], lk.On("a", "b")) }, false},
	{"Select.Join condition", "select", nil, func(a []any) bld { return okSel().Join("u", a[0]) }, false},
	{"Select.Join type", "select", nil, func(a []any) bld { return okSel().Join("u", lk.On("a", "b"), a[0]) }, false},
	{"Pair key, insert", "insert", nil, func(a []any) bld { return lk.Insert("t0").Set(lk.Pair(a[0], 1), lk.Pair("g1", 2)) }, false},
	{"Pair key, update", "update", nil, func(a []any) bld { return okUpd().Set(lk.Pair(a[0], 1), lk.Pair("g1", 2)) }, false},
	{"Pair key, upsert", "insert", nil, func(a []any) bld { return okIns().OnConflict("c0", lk.DoUpdate(lk.Pair(a[0], 1), lk.Pair("g1", 2))) }, false},
	{"Map key, insert", "insert", nil, func(a []any) bld { return lk.Insert("t0").Set(types.Map{a[0]: 1, "g1": 2}) }, false},
	{"Map key, update", "update", nil, func(a []any) bld { return okUpd().Set(types.Map{a[0]: 1, "g1": 2}) }, false},
	{"Map key, upsert", "insert", nil, func(a []any) bld { return okIns().OnConflict("c0", lk.DoUpdate(types.Map{a[0]: 1, "g1": 2})) }, false},
	{"ToColumn", "select", nil, func(a []any) bld { return okSel().Columns(builder.ToColumn(a[0])) }, false},
	{"ToTable", "select", nil, func(a []any) bld { return lk.Select("c0").From(builder.ToTable(a[0])) }, false},
	{"ToInto", "insert", nil, func(a []any) bld { return lk.Insert(builder.ToInto(a[0])).Columns("c0").Values(1) }, false},
	{"ToPrefix", "select", nil, func(a []any) bld { return okSel().Prefix(builder.ToPrefix(a[0])) }, false},
	{"ToSuffix", "select", nil, func(a []any) bld { return okSel().Suffix(builder.ToSuffix(a[0])) }, false},
}

// p32Trusted are the calls which take SQL written by the caller, as it is: what is in the statement is not judged.
var p32Trusted = map[string]bool{
	"Select.Prefix": true, "Select.Suffix": true, "ToPrefix": true, "ToSuffix": true, "Update.Using": true,
}

// typed converts the elements: another type does not compile, which rejects it as well.
func typed[E any](args []any) []E {
	out := make([]E, len(args))
	for i := range args {
		e, ok := args[i].(E)
		if !ok {
			panic("harness: does not compile")
		}
		out[i] = e
	}
	return out
}

type p32Elem struct {
	name string
	mk   func() any
}

type p32Named string

var p32Bad = []p32Elem{
	{"nil", func() any { return nil }},
	{`""`, func() any { return "" }},
	{`" "`, func() any { return " " }},
	{`","`, func() any { return "," }},
	{`"x,"`, func() any { return "x," }},
	{`",x"`, func() any { return ",x" }},
	{`"x,,y"`, func() any { return "x,,y" }},
	{`"x, ,y"`, func() any { return "x, ,y" }},
	{"tab", func() any { return "\t\n" }},
	{"Column{}", func() any { return stmt.Column{} }},
	{`Column("")`, func() any { return lk.Column("") }},
	{`Column{Alias}`, func() any { return stmt.Column{Alias: "x"} }},
	{`Column("").As`, func() any { return lk.Column("").As("x") }},
	{"Table{}", func() any { return stmt.Table{} }},
	{`Table("")`, func() any { return lk.Table("") }},
	{`Table{Alias}`, func() any { return stmt.Table{Alias: "x"} }},
	{`Table("").As`, func() any { return lk.Table("").As("x") }},
	{`Table("").Only`, func() any { return lk.Table("").Only() }},
	{`Raw("")`, func() any { return lk.Raw("") }},
	{"From{}", func() any { return stmt.From{} }},
	{"From{nil}", func() any { return stmt.From{Tables: []stmt.Statement{nil}} }},
	{"From{Table{}}", func() any { return stmt.From{Tables: []stmt.Statement{stmt.Table{}}} }},
	{"From{x, Table{}}", func() any { return stmt.From{Tables: []stmt.Statement{stmt.NewTable("x"), stmt.Table{}}} }},
	{"Into{}", func() any { return stmt.Into{} }},
	{"Prefix{}", func() any { return stmt.Prefix{} }},
	{"Suffix{}", func() any { return stmt.Suffix{} }},
	{"42", func() any { return 42 }},
	{"int64", func() any { return int64(7) }},
	{"1.5", func() any { return 1.5 }},
	{"true", func() any { return true }},
	{"rune", func() any { return 'x' }},
	{"bytes", func() any { return []byte("x") }},
	{"named text", func() any { return p32Named("x") }},
	{"*string", func() any { s := "x"; return &s }},
	{"(*string)(nil)", func() any { return (*string)(nil) }},
	{"*Column", func() any { c := lk.Column("x"); return &c }},
	{"*Table", func() any { c := lk.Table("x"); return &c }},
	{"(*Column)(nil)", func() any { return (*stmt.Column)(nil) }},
	{"(*Table)(nil)", func() any { return (*stmt.Table)(nil) }},
	{"(*Raw)(nil)", func() any { return (*stmt.Raw)(nil) }},
	{"(*Select)(nil)", func() any { return (*builder.Select)(nil) }},
	{"[]any{x}", func() any { return []any{"x"} }},
	{"[]any{nil}", func() any { return []any{nil} }},
	{"[]int{1}", func() any { return []int{1} }},
	{`[]string{""}`, func() any { return []string{""} }},
	{`[]string{" "}`, func() any { return []string{" "} }},
	{`[]string{"x", ""}`, func() any { return []string{"x", ""} }},
	{`[]string{"", "x"}`, func() any { return []string{"", "x"} }},
	{`[]string{"x", "", "y"}`, func() any { return []string{"x", "", "y"} }},
	{`[]Column{{}}`, func() any { return []stmt.Column{{}} }},
	{`[]Column{x, {}}`, func() any { return []stmt.Column{lk.Column("x"), {}} }},
	{`[]Column{{}, x}`, func() any { return []stmt.Column{{}, lk.Column("x")} }},
	{`[]SelectExpression{nil}`, func() any { return []stmt.SelectExpression{nil} }},
	{`[]SelectExpression{x, nil}`, func() any { return []stmt.SelectExpression{lk.Column("x"), nil} }},
	{`[]SelectExpression{Column{}}`, func() any { return []stmt.SelectExpression{stmt.Column{}} }},
	{`[]SelectExpression{x, Column{}}`, func() any { return []stmt.SelectExpression{lk.Column("x"), stmt.Column{}} }},
	{`[]SelectExpression{x, Raw("")}`, func() any { return []stmt.SelectExpression{lk.Column("x"), stmt.Raw{}} }},
	{`[]SelectExpression{x, Max{}}`, func() any { return []stmt.SelectExpression{lk.Column("x"), stmt.Max{}} }},
	{`[]Table{x}`, func() any { return []stmt.Table{lk.Table("x")} }},
	{`[]Table{{}}`, func() any { return []stmt.Table{{}} }},
	{`Max("")`, func() any { return lk.Max("") }},
	{`Min{}`, func() any { return stmt.Min{} }},
	{`Sum("")`, func() any { return lk.Sum("") }},
	{`Count("")`, func() any { return lk.Count("") }},
	{`Call{}`, func() any { return stmt.Call{} }},
	{`Order{}`, func() any { return stmt.Order{} }},
	{`Order("")`, func() any { return lk.Order("") }},
	{`With{}`, func() any { return stmt.WithQuery{} }},
	{`With("", select)`, func() any { return lk.With("", okSel()) }},
	{`With("x", NewSelect())`, func() any { return stmt.WithQuery{Name: "x", Subquery: stmt.NewSelect()} }},
	{`WithQuery{x, nil}`, func() any { return stmt.WithQuery{Name: "x"} }},
	{`Limit{}`, func() any { return stmt.Limit{} }},
	{`On{}`, func() any { return stmt.OnClause{} }},
	{`On("", x)`, func() any { return lk.On("", "x") }},
	{`On(x, "")`, func() any { return lk.On("x", "") }},
	{`AndOn(on, On{})`, func() any { return lk.AndOn(lk.On("x", "y"), stmt.OnClause{}) }},
	{`InfixOn{}`, func() any { return stmt.InfixOnExpression{} }},
	{`Join{}`, func() any { return stmt.Join{} }},
	{`Join without a condition`, func() any { return stmt.NewInnerJoin(stmt.NewTable("x"), nil) }},
	{`Join without a table`, func() any { return stmt.NewInnerJoin(stmt.Table{}, lk.On("x", "y")) }},
	{`Join with an empty table`, func() any { return stmt.NewInnerJoin(stmt.NewTable(""), lk.On("x", "y")) }},
	{`Condition("")`, func() any { return lk.Condition("") }},
	{`Value{}`, func() any { return stmt.Value{} }},
	{`Pair{}`, func() any { return types.Pair{} }},
	{`Pair("", 1)`, func() any { return lk.Pair("", 1) }},
	{`Pair(" ", 1)`, func() any { return lk.Pair(" ", 1) }},
	{`Pair(nil, 1)`, func() any { return lk.Pair(nil, 1) }},
	{`Pair(5, 1)`, func() any { return lk.Pair(5, 1) }},
	{`Pair(Column{}, 1)`, func() any { return lk.Pair(stmt.Column{}, 1) }},
	{`*Pair`, func() any { p := lk.Pair("x", 1); return &p }},
	{`[]Pair`, func() any { return []types.Pair{lk.Pair("x", 1)} }},
	{`Map{"": 1}`, func() any { return types.Map{"": 1} }},
	{`Map{nil: 1}`, func() any { return types.Map{nil: 1} }},
	{`Map{5: 1}`, func() any { return types.Map{5: 1} }},
	{`Map{x, ""}`, func() any { return types.Map{"x": 1, "": 2} }},
	{`map[string]any{""}`, func() any { return map[string]any{"": 1} }},
	{`map[string]any{x, ""}`, func() any { return map[string]any{"x": 1, "": 2} }},
	{`map[string]int`, func() any { return map[string]int{"x": 1} }},
	{`map[string]string`, func() any { return map[string]string{"x": "y"} }},
	{`[]map`, func() any { return []map[string]any{{"x": 1}} }},
	{`ConflictNoAction`, func() any { return lk.DoNothing() }},
	{`ConflictUpdateAction{}`, func() any { return stmt.ConflictUpdateAction{} }},
	{`NewSelect()`, func() any { return builder.NewSelect() }},
	{`NewSelect().From`, func() any { return builder.NewSelect().From("x") }},
	{`select`, func() any { return lk.Select("x") }},
	{`select statement`, func() any { return lk.Select("x").Statement() }},
	{`update`, func() any { return okUpd() }},
	{`delete`, func() any { return okDel() }},
	{`insert`, func() any { return okIns() }},
	{`JoinType`, func() any { return types.InnerJoin }},
	{`JoinType("")`, func() any { return types.JoinType("") }},
	{`OrderType`, func() any { return types.Desc }},
	{`struct`, func() any { return struct{ A int }{1} }},
	{`struct{}`, func() any { return struct{}{} }},
	{`chan`, func() any { return make(chan int) }},
	{`func`, func() any { return func() {} }},
	{`error`, func() any { return errors.New("x") }},
	{`time`, func() any { return time.Unix(0, 0) }},
	{`complex`, func() any { return complex(1, 2) }},
}

type p32Result struct {
	out   outcome
	texts []string
	args  []any
	named map[string]any
}

func p32Run(s *p32Slot, args []any) (r p32Result) {
	r.out = try(func() {
		b := s.call(args)
		q, a := b.Query()
		n, m := b.NamedQuery()
		r.texts, r.args, r.named = []string{q, n, b.String()}, a, m
	})
	return r
}

func p32Elements(t *T) {
	s := &p32Slots[t.idx%len(p32Slots)]
	e := &p32Bad[t.idx/len(p32Slots)%len(p32Bad)]
	place := t.idx / len(p32Slots) / len(p32Bad)
	if s.good == nil && place > 0 {
		return
	}
	var before, after []any
	switch place {
	case 1:
		after = s.good
	case 2:
		before = s.good
	case 3:
		before, after = s.good[:1], s.good[1:]
	}
	t.Distinct(s.name, e.name, fmt.Sprint(place))
	args := append(append(append([]any{}, before...), e.mk()), after...)
	r := p32Run(s, args)
	where := fmt.Sprintf("%s with %s at place %d", s.name, e.name, place)
	if r.out.Panicked {
		if r.out.Runtime && !strings.Contains(r.out.Msg, "unhashable") {
			t.Fail("%s: runtime fault %s", where, r.out.String())
		}
		t.Ev("rejected elements", 1)
		return
	}
	t.Ev("accepted elements", 1)
	// Accepted: the element is somewhere in the statement.
	if s.good != nil {
		if rest := append(append([]any{}, before...), after...); len(rest) > 0 {
			base := p32Run(s, rest)
			if base.out.Panicked {
				t.Fail("%s: the call without the element is rejected: %s", where, base.out.String())
			}
			t.Ev("good calls", 1)
			if base.texts[0] == r.texts[0] {
				t.Fail("%s: the element is ignored: %s", where, r.texts[0])
			}
		}
	}
	if s.good == nil && p32Trusted[s.name] {
		// What is written is the caller's, but something must be.
		if base := okSel().String(); len(r.texts[2]) <= len(base) {
			t.Fail("%s: the element is ignored: %s", where, r.texts[0])
		}
	}
	if p32Trusted[s.name] {
		return
	}
	if _, err := parseSQL(s.kind, r.texts[0]); err != nil {
		t.Fail("%s: accepted, but the statement is not well formed (%s): %s", where, err, r.texts[0])
	}
}

// p32Class is a kind of lists of elements: what they may contain, and what they always reject.
type p32Class struct {
	name string
	good func(r *R, mark func() string) any
	bad  []p32Elem
}

func p32Space(r *R, s string) string {
	if r.P(30) {
		s = " " + s
	}
	if r.P(30) {
		s += "\t"
	}
	return s
}

func p32Text(r *R, mark func() string) string {
	n := 1
	if r.P(40) {
		n = r.Range(2, 5)
	}
	list := make([]string, n)
	for i := range list {
		list[i] = p32Space(r, mark())
	}
	return strings.Join(list, ",")
}

func p32ColumnOf(r *R, mark func() string) stmt.Column {
	c := lk.Column(mark())
	return c
}

var p32BadColumn = []p32Elem{
	{"nil", func() any { return nil }},
	{`""`, func() any { return "" }},
	{`" "`, func() any { return "  " }},
	{"Column{}", func() any { return stmt.Column{} }},
	{"Column{Alias}", func() any { return stmt.Column{Alias: "x"} }},
	{"Table", func() any { return lk.Table("x") }},
	{"42", func() any { return 42 }},
	{"true", func() any { return true }},
	{"*string", func() any { s := "x"; return &s }},
	{"(*Column)(nil)", func() any { return (*stmt.Column)(nil) }},
	{"named text", func() any { return p32Named("x") }},
	{"bytes", func() any { return []byte("x") }},
	{"select", func() any { return lk.Select("x") }},
	{"update", func() any { return okUpd() }},
	{"time", func() any { return time.Unix(0, 0) }},
	{"error", func() any { return errors.New("x") }},
	{"[]int", func() any { return []int{1} }},
	{"[]any", func() any { return []any{"x"} }},
	{"pair", func() any { return lk.Pair("x", 1) }},
}

var p32BadColumns = append(p32BadColumn[:len(p32BadColumn):len(p32BadColumn)],
	p32Elem{`"x,"`, func() any { return "x," }},
	p32Elem{`",x"`, func() any { return ",x" }},
	p32Elem{`"x,,y"`, func() any { return "x,,y" }},
	p32Elem{`"x, ,y"`, func() any { return "x, ,y" }},
)

var p32BadExpression = append(p32BadColumns[:len(p32BadColumns):len(p32BadColumns)],
	p32Elem{`Raw("")`, func() any { return stmt.Raw{} }},
	p32Elem{`Max{}`, func() any { return stmt.Max{} }},
	p32Elem{`Min("")`, func() any { return lk.Min("") }},
	p32Elem{`Sum{}`, func() any { return stmt.Sum{} }},
	p32Elem{`Count("")`, func() any { return lk.Count("") }},
	p32Elem{`(*Raw)(nil)`, func() any { return (*stmt.Raw)(nil) }},
)

var p32BadTable = []p32Elem{
	{"nil", func() any { return nil }},
	{`""`, func() any { return "" }},
	{"Table{}", func() any { return stmt.Table{} }},
	{"Table{Alias}", func() any { return stmt.Table{Alias: "x"} }},
	{"Column", func() any { return lk.Column("x") }},
	{"42", func() any { return 42 }},
	{"*string", func() any { s := "x"; return &s }},
	{"(*Table)(nil)", func() any { return (*stmt.Table)(nil) }},
	{"From{}", func() any { return stmt.From{} }},
	{"From{nil}", func() any { return stmt.From{Tables: []stmt.Statement{nil}} }},
	{"From{x, Table{}}", func() any { return stmt.From{Tables: []stmt.Statement{stmt.NewTable("x"), stmt.Table{}}} }},
	{"From{Table{}, x}", func() any { return stmt.From{Tables: []stmt.Statement{stmt.Table{}, stmt.NewTable("x")}} }},
	{"named text", func() any { return p32Named("x") }},
	{"[]string", func() any { return []string{"x"} }},
	{"pair", func() any { return lk.Pair("x", 1) }},
	{"update", func() any { return okUpd() }},
}

var p32BadPair = []p32Elem{
	{"nil", func() any { return nil }},
	{"Pair{}", func() any { return types.Pair{} }},
	{`Pair("", 1)`, func() any { return lk.Pair("", 1) }},
	{`Pair(" ", 1)`, func() any { return lk.Pair(" ", 1) }},
	{`Pair(nil, 1)`, func() any { return lk.Pair(nil, 1) }},
	{`Pair(5, 1)`, func() any { return lk.Pair(5, 1) }},
	{`Pair(Column{}, 1)`, func() any { return lk.Pair(stmt.Column{}, 1) }},
	{`*Pair`, func() any { p := lk.Pair("x", 1); return &p }},
	{`[]Pair`, func() any { return []types.Pair{lk.Pair("x", 1)} }},
	{`Map{"": 1}`, func() any { return types.Map{"": 1} }},
	{`Map{nil: 1}`, func() any { return types.Map{nil: 1} }},
	{`Map{5: 1}`, func() any { return types.Map{5: 1} }},
	{`Map{x, ""}`, func() any { return types.Map{"x": 1, "": 2} }},
	{`Map{x, 5}`, func() any { return types.Map{"x": 1, 5: 2} }},
	{`Map{x, Column{}}`, func() any { return types.Map{"x": 1, stmt.Column{}: 2} }},
	{`map[string]any{""}`, func() any { return map[string]any{"": 1} }},
	{`map[string]any{x, " "}`, func() any { return map[string]any{"x": 1, " ": 2} }},
	{`map[string]int`, func() any { return map[string]int{"x": 1} }},
	{`map[string]string`, func() any { return map[string]string{"x": "y"} }},
	{"42", func() any { return 42 }},
	{`""`, func() any { return "" }},
	{`Column{}`, func() any { return stmt.Column{} }},
	{`struct`, func() any { return struct{ A int }{1} }},
}

func p32Value(r *R) any {
	switch r.N(5) {
	case 0:
		return "v"
	case 1:
		return nil
	case 2:
		return lk.Raw("now()")
	case 3:
		return lk.Select("v").From("w")
	}
	return r.N(1000)
}

var p32Classes = map[string]*p32Class{
	"columns": {"columns", func(r *R, mark func() string) any {
		if r.P(60) {
			return p32Text(r, mark)
		}
		return p32ColumnOf(r, mark)
	}, p32BadColumns},
	"expressions": {"expressions", func(r *R, mark func() string) any {
		switch r.N(8) {
		case 0:
			return lk.Max(mark())
		case 1:
			return lk.Min(mark())
		case 2:
			return lk.Sum(mark())
		case 3:
			return lk.Count(mark())
		case 4:
			return lk.Raw(mark())
		case 5:
			return p32ColumnOf(r, mark)
		case 6:
			return lk.Exists(lk.Select(mark()).From("w"))
		}
		return p32Text(r, mark)
	}, p32BadExpression},
	"targets": {"targets", func(r *R, mark func() string) any {
		if r.P(60) {
			return p32Space(r, mark())
		}
		return p32ColumnOf(r, mark)
	}, p32BadColumn},
	"from": {"from", func(r *R, mark func() string) any {
		switch r.N(5) {
		case 0:
			return lk.Table(mark()).As("z")
		case 1:
			return lk.Raw(mark())
		case 2:
			return stmt.NewFrom([]stmt.Statement{stmt.NewTable(mark())})
		case 3:
			return stmt.NewFrom([]stmt.Statement{stmt.NewTable(mark()), stmt.NewTable(mark())})
		}
		return mark()
	}, append(p32BadTable[:len(p32BadTable):len(p32BadTable)], p32Elem{`Raw("")`, func() any { return stmt.Raw{} }})},
	"tables": {"tables", func(r *R, mark func() string) any {
		if r.P(50) {
			return lk.Table(mark())
		}
		return mark()
	}, append(p32BadTable[:len(p32BadTable):len(p32BadTable)], p32Elem{`Raw`, func() any { return lk.Raw("x") }})},
	"pairs": {"pairs", func(r *R, mark func() string) any {
		key := func() any {
			if r.P(30) {
				return p32ColumnOf(r, mark)
			}
			return p32Space(r, mark())
		}
		switch r.N(4) {
		case 0:
			return map[string]any{p32Space(r, mark()): p32Value(r)}
		case 1:
			return types.Map{key(): p32Value(r)}
		}
		return lk.Pair(key(), p32Value(r))
	}, p32BadPair},
	"orders": {"orders", func(r *R, mark func() string) any {
		switch r.N(3) {
		case 0:
			return lk.Order(mark(), lk.Desc)
		case 1:
			return lk.Column(mark()).Asc()
		}
		return lk.Order(mark())
	}, []p32Elem{{"Order{}", func() any { return stmt.Order{} }}, {`Order("")`, func() any { return lk.Order("") }},
		{"Order{Type}", func() any { return stmt.Order{Type: types.Desc} }}, {`Column("").Desc`, func() any { return lk.Column("").Desc() }}}},
	"ctes": {"ctes", func(r *R, mark func() string) any {
		sub := lk.Select("v").From("w")
		return lk.With(mark(), []any{sub, sub.Statement(), lk.Raw("SELECT 1")}[r.N(3)])
	}, []p32Elem{{"With{}", func() any { return stmt.WithQuery{} }}, {`With{Name}`, func() any { return stmt.WithQuery{Name: "x"} }},
		{`With("", select)`, func() any { return lk.With("", okSel()) }},
		{`With{x, NewSelect()}`, func() any { return stmt.WithQuery{Name: "x", Subquery: stmt.NewSelect()} }},
		{`With{x, (*Select)(nil)}`, func() any { return stmt.WithQuery{Name: "x", Subquery: (*stmt.Select)(nil)} }}}},
}

var p32Lists = []struct {
	slot, class string
	max         int
}{
	{"lk.Select", "expressions", 0}, {"Select.Columns", "expressions", 0}, {"Select.DistinctOn", "columns", 0}, {"Select.From", "from", 0},
	{"Select.GroupBy", "columns", 0}, {"Insert.Columns", "columns", 0}, {"Insert.Returning", "expressions", 0}, {"Insert.OnConflict", "targets", 0},
	{"DoUpdate", "pairs", 0}, {"Insert.Set", "pairs", 0}, {"Update.Set", "pairs", 0}, {"Update.Set columns", "columns", 0},
	{"Update.Returning", "expressions", 0}, {"Delete.From", "from", 0}, {"Delete.Using", "tables", 0}, {"Delete.Returning", "expressions", 0},
	{"Select.OrderBy", "orders", 0}, {"Select.With", "ctes", 0}, {"Update.With", "ctes", 0}, {"ToColumns", "columns", 0},
	{"ToSelectExpressions", "expressions", 0}, {"ToTables", "tables", 0}, {"ToFrom", "from", 0},
}

func p32SlotOf(name string) *p32Slot {
	for i := range p32Slots {
		if p32Slots[i].name == name {
			return &p32Slots[i]
		}
	}
	panic("harness: no slot " + name)
}

// p32Mixed: lists of good elements of mixed types, with or without a bad one at a random place.
func p32Mixed(t *T) {
	l := p32Lists[t.idx%len(p32Lists)]
	r := t.R("value")
	p32List(t, l.slot, l.class, r, r.Size(1, 9))
}

// p32Lengths has lists of every length.
func p32Lengths(t *T) {
	l := p32Lists[t.idx%len(p32Lists)]
	p32List(t, l.slot, l.class, t.R("value"), t.idx/len(p32Lists)+1)
}

func p32List(t *T, slot, list string, r *R, n int) {
	s, class := p32SlotOf(slot), p32Classes[list]
	var marks []string
	repeats := list != "pairs" && list != "ctes"
	mark := func() string {
		if repeats && len(marks) > 0 && r.P(15) {
			marks = append(marks, marks[len(marks)-1])
			return marks[len(marks)-1]
		}
		m := fmt.Sprintf("mk%05d_", len(marks))
		marks = append(marks, m)
		return m
	}
	args := make([]any, n)
	last := 0 // the marks before the last element
	for i := range args {
		if repeats && i > 0 && r.P(15) {
			// The same element again.
			args[i] = args[i-1]
			marks = append(marks, marks[last:]...)
			last = len(marks) - (len(marks)-last)/2
			continue
		}
		last = len(marks)
		args[i] = class.good(r, mark)
	}
	slice := ""
	if (list == "columns" || list == "expressions") && slot != "Update.Set columns" && r.P(25) {
		marks, args, slice = p32Slice(r, list, n)
	}
	run := p32Run(s, args)
	where := fmt.Sprintf("%s with %d good elements (%#v)", s.name, n, args)
	if run.out.Panicked {
		t.Fail("%s: rejected: %s", where, run.out.String())
	}
	t.Ev("good calls", 1)
	for i, q := range run.texts {
		if got := p32Markers(t, q); strings.Join(got, " ") != strings.Join(marks, " ") {
			t.Fail("%s: rendering %d has the elements %v instead of %v: %s", where, i, got, marks, q)
		}
	}
	if slice == "[]string" {
		// The texts are the names, whatever the blanks around them.
		if trimmed := p32Run(s, []any{append([]string{}, marks...)}); trimmed.out.Panicked || strings.Join(trimmed.texts, "\n") != strings.Join(run.texts, "\n") {
			t.Fail("%s: %s, but %s (%s) for %v", where, run.texts[0], trimmed.texts, trimmed.out.String(), marks)
		}
	}
	if _, err := parseSQL(s.kind, run.texts[0]); err != nil && slot != "Insert.Columns" && slot != "Select.With" && slot != "Update.With" {
		t.Fail("%s: not well formed (%s): %s", where, err, run.texts[0])
	}
	places := []int{0, n / 2, n - 1, r.N(n + 1), r.N(n + 1), r.N(n + 1)}
	if n <= 16 {
		places = places[:0]
		for at := 0; at <= n; at++ {
			places = append(places, at)
		}
	}
	if slice == "" && len(places) > 4 {
		places = []int{0, n, r.N(n + 1)}
	}
	for _, at := range places {
		var given []any
		what := ""
		if slice != "" {
			if at == n {
				continue
			}
			switch list := args[0].(type) {
			case []string:
				list = append([]string{}, list...)
				list[at] = pick(r, "", " ", "\t \n")
				given = []any{list}
			case []stmt.Column:
				list = append([]stmt.Column{}, list...)
				list[at] = pick(r, stmt.Column{}, stmt.Column{Alias: "x"}, lk.Column("").As("x"))
				given = []any{list}
			case []stmt.SelectExpression:
				list = append([]stmt.SelectExpression{}, list...)
				list[at] = pick[stmt.SelectExpression](r, nil, stmt.Column{}, stmt.Raw{}, stmt.Max{}, stmt.Count{}, (*stmt.Column)(nil), (*stmt.Raw)(nil))
				given = []any{list}
			}
			what = fmt.Sprintf("%s whose element %d of %d is undefined (%#v)", slice, at, n, given)
		} else {
			bad := class.bad[r.N(len(class.bad))]
			given = append(append(append([]any{}, args[:at]...), bad.mk()), args[at:]...)
			what = fmt.Sprintf("%s at %d of %d elements", bad.name, at, n+1)
		}
		t.Distinct(s.name, slice, fmt.Sprint(at, n))
		run = p32Run(s, given)
		if !run.out.Panicked {
			t.Fail("%s with %s: accepted: %s", s.name, what, run.texts[0])
		} else if run.out.Runtime {
			t.Fail("%s with %s: runtime fault %s", s.name, what, run.out.String())
		}
		t.Ev("rejected elements", 1)
	}
}

// p32Slice has the whole list in one slice of a type which stands for its elements.
func p32Slice(r *R, list string, n int) (marks []string, args []any, name string) {
	for i := 0; i < n; i++ {
		marks = append(marks, fmt.Sprintf("mk%05d_", i))
	}
	kinds := 2
	if list == "expressions" {
		kinds = 3
	}
	switch r.N(kinds) {
	case 0:
		slice := make([]string, n)
		for i, m := range marks {
			slice[i] = p32Space(r, m)
		}
		return marks, []any{slice}, "[]string"
	case 1:
		slice := make([]stmt.Column, n)
		for i, m := range marks {
			slice[i] = lk.Column(m)
		}
		return marks, []any{slice}, "[]Column"
	}
	slice := make([]stmt.SelectExpression, n)
	for i, m := range marks {
		slice[i] = pick[stmt.SelectExpression](r, lk.Column(m), lk.Raw(m), lk.Max(m), lk.Count(m), lk.Column(m).As("z"))
	}
	return marks, []any{slice}, "[]SelectExpression"
}

func p32Markers(t *T, q string) (out []string) {
	toks, err := tokenize(q)
	if err != nil {
		t.Fail("cannot read %s: %s", q, err)
	}
	for _, k := range toks {
		if (k.Kind == TkIdent || k.Kind == TkQuoted) && strings.HasPrefix(k.Text, "mk") && strings.HasSuffix(k.Text, "_") {
			out = append(out, k.Text)
		}
	}
	return out
}
