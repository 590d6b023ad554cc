package main

import (
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P15

func init() {
	register(&Check{
		ID: "P15",
		Rule: "condition trees whose comparisons are on unique marker columns, with undefined parts injected as operands, leaves, whole conditions or joins: " +
			"with an undefined part the program must be rejected; accepted texts must contain every marker in order. Exhaustive single injections, then random ones.",
		Require: []string{"rejected programs", "accepted programs", "markers found", "undefined parts injected", "rejected clauses"},
		Families: []Family{
			{Name: "single", Quick: len(undefinedParts) * len(injections), Thorough: len(undefinedParts) * len(injections), Fn: p15Single},
			{Name: "random", Quick: 16000, Thorough: 250000, Fn: p15Random},
			{Name: "chains", Quick: 6000, Thorough: 80000, Fn: p15Chains},
			{Name: "on", Quick: 8000, Thorough: 100000, Fn: p15On},
			{Name: "lists", Quick: 2000, Thorough: 20000, Fn: p15Lists},
			{Name: "clauses", Quick: len(undefinedParts) * len(clauseInjections), Thorough: len(undefinedParts) * len(clauseInjections), Fn: p15Clauses},
		},
	})
}

type undefinedPart struct {
	name string
	mk   func() stmt.Expression
}

func goodCond() stmt.InfixExpression { return lk.Condition("good").Equal(1) }

var undefinedParts = []undefinedPart{
	{"nil", func() stmt.Expression { return nil }},
	{"InfixExpression{}", func() stmt.Expression { return stmt.InfixExpression{} }},
	{`Condition("")`, func() stmt.Expression { return lk.Condition("") }},
	{`Raw("")`, func() stmt.Expression { return lk.Raw("") }},
	{`Condition(nil)`, func() stmt.Expression { return lk.Condition(nil) }},
	{`Condition(Raw(""))`, func() stmt.Expression { return lk.Condition(lk.Raw("")) }},
	{`Condition(Column(""))`, func() stmt.Expression { return lk.Condition(lk.Column("")) }},
	{`Condition(Condition(""))`, func() stmt.Expression { return lk.Condition(lk.Condition("")) }},
	{`Condition(5)`, func() stmt.Expression { return lk.Condition(5) }},
	{"stmt.NewSelect()", func() stmt.Expression { return stmt.NewSelect() }},
	{"builder.NewSelect().Statement()", func() stmt.Expression { return builder.NewSelect().Statement().(stmt.Expression) }},
	{"In{}", func() stmt.Expression { return stmt.In{} }},
	{"Between{}", func() stmt.Expression { return stmt.Between{} }},
	{"Identifier{}", func() stmt.Expression { return stmt.Identifier{} }},
	{"Array{}", func() stmt.Expression { return stmt.Array{} }},
	{"ArrayList{}", func() stmt.Expression { return stmt.ArrayList{} }},
	{"Exists(NewSelect())", func() stmt.Expression { return lk.Exists(builder.NewSelect()) }},
	{"NotExists(NewSelect())", func() stmt.Expression { return lk.NotExists(builder.NewSelect()) }},
	{"Exists(NewSelect().From)", func() stmt.Expression { return lk.Exists(builder.NewSelect().From("t")) }},
	{"And(nil, x)", func() stmt.Expression { return lk.And(nil, goodCond()) }},
	{"And(x, nil)", func() stmt.Expression { return lk.And(goodCond(), nil) }},
	{"Or(nil, x)", func() stmt.Expression { return lk.Or(nil, goodCond()) }},
	{"Or(x, nil)", func() stmt.Expression { return lk.Or(goodCond(), nil) }},
	{"And(nil, nil)", func() stmt.Expression { return lk.And(nil, nil) }},
	{"x.And(nil)", func() stmt.Expression { return goodCond().And(nil) }},
	{"x.Or(nil)", func() stmt.Expression { return goodCond().Or(nil) }},
	{"in.And(nil)", func() stmt.Expression { return lk.Condition("good").In(1).And(nil) }},
	{"in.Or(nil)", func() stmt.Expression { return lk.Condition("good").NotIn(1).Or(nil) }},
	{`Condition("").Equal`, func() stmt.Expression { return lk.Condition("").Equal(1) }},
	{`Condition("").NotEqual`, func() stmt.Expression { return lk.Condition("").NotEqual(1) }},
	{`Condition("").IsNull`, func() stmt.Expression { return lk.Condition("").IsNull(true) }},
	{`Condition("").In`, func() stmt.Expression { return lk.Condition("").In(1, 2) }},
	{`Condition("").NotIn`, func() stmt.Expression { return lk.Condition("").NotIn(1, 2) }},
	{`Condition("").Between`, func() stmt.Expression { return lk.Condition("").Between(1, 2) }},
	{`Condition("").NotBetween`, func() stmt.Expression { return lk.Condition("").NotBetween(1, 2) }},
	{`x = Raw("")`, func() stmt.Expression { return lk.Condition("good").Equal(lk.Raw("")) }},
	{`x = Condition("")`, func() stmt.Expression { return lk.Condition("good").Equal(lk.Condition("")) }},
	{`x LIKE Raw("")`, func() stmt.Expression { return lk.Condition("good").Like(lk.Raw("")) }},
	{`x = (x AND nil)`, func() stmt.Expression { return lk.Condition("good").Equal(lk.And(goodCond(), nil)) }},
	{`x IS DISTINCT FROM Raw("")`, func() stmt.Expression { return lk.Condition("good").IsDistinctFrom(lk.Raw("")) }},
	{`x && Raw("")`, func() stmt.Expression { return lk.Condition("good").Overlap(lk.Raw("")) }},
	{`x BETWEEN Raw("") AND 1`, func() stmt.Expression { return lk.Condition("good").Between(lk.Raw(""), 1) }},
	{`x BETWEEN 1 AND Raw("")`, func() stmt.Expression { return lk.Condition("good").Between(1, lk.Raw("")) }},
	{`x NOT BETWEEN 1 AND Condition("")`, func() stmt.Expression { return lk.Condition("good").NotBetween(1, lk.Condition("")) }},
	{"x IN (NewSelect())", func() stmt.Expression { return lk.Condition("good").In(builder.NewSelect()) }},
	{"x NOT IN (NewSelect().From)", func() stmt.Expression { return lk.Condition("good").NotIn(builder.NewSelect().From("t")) }},
	{"x = NewSelect()", func() stmt.Expression { return lk.Condition("good").Equal(builder.NewSelect()) }},
	{"x = f(NewSelect())", func() stmt.Expression {
		return lk.Condition("good").Equal(stmt.NewCall("f", stmt.NewExpression(builder.NewSelect())))
	}},
	{`f(x) = Raw("")`, func() stmt.Expression { return stmt.NewCall("f", lk.Raw("x")).Equal(lk.Raw("")) }},
	{`1 = Raw("")`, func() stmt.Expression { return lk.Value(1).Equal(lk.Raw("")) }},
	{"NewIn(nil, nil)", func() stmt.Expression { return stmt.NewIn(nil, nil) }},
	{"NewIn(x, nil)", func() stmt.Expression { return stmt.NewIn(lk.Condition("good"), nil) }},
	{"NewBetween(x, nil, y)", func() stmt.Expression { return stmt.NewBetween(lk.Condition("good"), nil, lk.Raw("1")) }},
	{"NewBetween(x, y, nil)", func() stmt.Expression { return stmt.NewBetween(lk.Condition("good"), lk.Raw("1"), nil) }},
	{"NewWrapper(nil)", func() stmt.Expression { return stmt.NewWrapper(nil) }},
	{"NewInfix(nil, AND, x)", func() stmt.Expression { return stmt.NewInfixExpression(nil, stmt.NewAndOperator(), goodCond()) }},
	{"NewInfix(x, nil, x)", func() stmt.Expression { return stmt.NewInfixExpression(goodCond(), nil, goodCond()) }},
	{"NewInfix(x, {}, x)", func() stmt.Expression { return stmt.NewInfixExpression(goodCond(), stmt.LogicalOperator{}, goodCond()) }},
	{"On", func() stmt.Expression { return stmt.OnClause{} }},
	{"InfixOn", func() stmt.Expression { return stmt.InfixOnExpression{} }},
	{"On with an empty column", func() stmt.Expression { return lk.On("a", "") }},
}

// injections are the places of a single undefined part.
type injection struct {
	name string
	run  func(e stmt.Expression) bld
}

// clauseInjections are the places of a single undefined part in statements assembled without a builder.
var clauseInjections = []struct {
	name string
	run  func(e stmt.Expression) stmt.Statement
}{
	{"NewWhere(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewWhere(e) }},
	{"NewWhere(x).And(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewWhere(mark(1)).And(e) }},
	{"NewWhere(x).Or(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewWhere(mark(1)).Or(e) }},
	{"NewWhere(x).And(y).Or(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewWhere(mark(1)).And(mark(2)).Or(e) }},
	{"Where{e}.And(x)", func(e stmt.Expression) stmt.Statement { return stmt.Where{Condition: e}.And(mark(1)) }},
	{"Where{e}.Or(x)", func(e stmt.Expression) stmt.Statement { return stmt.Where{Condition: e}.Or(mark(1)) }},
	{"Where{e}", func(e stmt.Expression) stmt.Statement { return stmt.Where{Condition: e} }},
	{"NewHaving(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewHaving(e) }},
	{"NewHaving(x).And(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewHaving(mark(1)).And(e) }},
	{"NewHaving(x).Or(e)", func(e stmt.Expression) stmt.Statement { return stmt.NewHaving(mark(1)).Or(e) }},
	{"Having{e}.And(x)", func(e stmt.Expression) stmt.Statement { return stmt.Having{Condition: e}.And(mark(1)) }},
	{"Having{e}.Or(x)", func(e stmt.Expression) stmt.Statement { return stmt.Having{Condition: e}.Or(mark(1)) }},
	{"Having{e}", func(e stmt.Expression) stmt.Statement { return stmt.Having{Condition: e} }},
	{"NewInnerJoin(e)", func(e stmt.Expression) stmt.Statement { return joined(stmt.NewInnerJoin(stmt.NewTable("u"), e)) }},
	{"NewLeftJoin(e)", func(e stmt.Expression) stmt.Statement { return joined(stmt.NewLeftJoin(stmt.NewTable("u"), e)) }},
	{"NewRightJoin(e)", func(e stmt.Expression) stmt.Statement { return joined(stmt.NewRightJoin(stmt.NewTable("u"), e)) }},
	{"NewJoin(e)", func(e stmt.Expression) stmt.Statement {
		return joined(stmt.NewJoin(types.InnerJoin, stmt.NewTable("u"), e))
	}},
	{"NewJoin(x AND e)", func(e stmt.Expression) stmt.Statement {
		return joined(stmt.NewJoin(types.InnerJoin, stmt.NewTable("u"), stmt.NewInfixExpression(mark(1), stmt.NewAndOperator(), e)))
	}},
	{"Select", func(e stmt.Expression) stmt.Statement {
		s := lk.Select("a").From("t").Statement().(stmt.Select)
		s.Where = stmt.NewWhere(e)
		return s
	}},
	{"Update", func(e stmt.Expression) stmt.Statement {
		s := lk.Update("t").Set(lk.Pair("a", 1)).Statement().(stmt.Update)
		s.Where = stmt.NewWhere(mark(1)).And(e)
		return s
	}},
	{"Delete", func(e stmt.Expression) stmt.Statement {
		s := lk.Delete("t").Statement().(stmt.Delete)
		s.Where = stmt.NewWhere(mark(1)).Or(e)
		return s
	}},
}

// joined is a select with a join given as a statement.
func joined(j stmt.Join) stmt.Statement { return lk.Select("a").From("t").Join(j).Statement() }

func p15Clauses(t *T) {
	u := undefinedParts[t.idx%len(undefinedParts)]
	in := clauseInjections[t.idx/len(undefinedParts)%len(clauseInjections)]
	var text string
	o := try(func() {
		rec := &recorder{}
		in.run(u.mk()).Write(rec)
		text = rec.text(2)
	})
	t.Ev("undefined parts injected", 1)
	t.Distinct(u.name, in.name)
	if !o.Panicked {
		t.Fail("the undefined part %s in %s is accepted: %s", u.name, in.name, text)
	}
	t.Ev("rejected clauses", 1)
	// The same place with a defined condition is accepted, and complete.
	o = try(func() {
		rec := &recorder{}
		in.run(goodCond()).Write(rec)
		text = rec.text(2)
	})
	if o.Panicked || !strings.Contains(text, `"good" = 1`) {
		t.Fail("a condition in %s is rejected or lost: %s %s", in.name, text, o.String())
	}
}

func mark(i int) stmt.InfixExpression { return lk.Condition("mk" + strconv.Itoa(i)).Equal(i) }

var injections = func() []injection {
	var out []injection
	for _, place := range condPlaces {
		place := place
		add := func(name string, run func(e stmt.Expression) bld) {
			out = append(out, injection{place + " " + name, run})
		}
		add("first", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", e) })
		add("left of and", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", lk.And(e, mark(1))) })
		add("right of and", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", lk.And(mark(1), e)) })
		add("left of or", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", lk.Or(e, mark(1))) })
		add("right of or", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", lk.Or(mark(1), e)) })
		add("method and", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", mark(1).And(e)) })
		add("method or", func(e stmt.Expression) bld { return whereCall(place, whereStart(place), "Where", mark(1).Or(e)) })
		add("deep", func(e stmt.Expression) bld {
			return whereCall(place, whereStart(place), "Where", lk.And(mark(1), lk.Or(mark(2), lk.And(mark(3), lk.Or(e, mark(4))))))
		})
		add("in a subquery", func(e stmt.Expression) bld {
			return whereCall(place, whereStart(place), "Where", lk.Condition("x").In(lk.Select("id").From("u").Where(e)))
		})
		add("in an exists", func(e stmt.Expression) bld {
			return whereCall(place, whereStart(place), "Where", lk.Exists(lk.Select("id").From("u").Where(mark(1)).And(e)))
		})
		if place == "having" {
			continue
		}
		for _, call := range []string{"Where", "And", "Or"} {
			call := call
			add("after a condition, "+call, func(e stmt.Expression) bld {
				return whereCall(place, whereCall(place, whereStart(place), "Where", mark(1)), call, e)
			})
			add("between conditions, "+call, func(e stmt.Expression) bld {
				b := whereCall(place, whereCall(place, whereStart(place), "Where", mark(1)), call, e)
				return whereCall(place, b, "Or", mark(2))
			})
			add("before a condition, "+call, func(e stmt.Expression) bld {
				return whereCall(place, whereCall(place, whereStart(place), "Where", e), call, mark(1))
			})
		}
	}
	return out
}()

// renderAll renders in the three notations, so that any of them can reject.
func renderAll(b bld) []string {
	q, _ := b.Query()
	n, _ := b.NamedQuery()
	return []string{q, n, b.String()}
}

// markersOf lists the marker columns of a text, in order.
func markersOf(t *T, text string) []string {
	toks, err := tokenize(text)
	if err != nil {
		t.Fail("the text cannot be read as SQL: %s\n%s", err, text)
	}
	var out []string
	for _, tok := range toks {
		if tok.Kind == TkQuoted && strings.HasPrefix(tok.Text, "mk") {
			out = append(out, tok.Text)
		}
	}
	return out
}

func p15Single(t *T) {
	u := undefinedParts[t.idx%len(undefinedParts)]
	in := injections[t.idx/len(undefinedParts)]
	var texts []string
	o := try(func() { texts = renderAll(in.run(u.mk())) })
	t.Ev("undefined parts injected", 1)
	if !o.Panicked {
		t.Fail("an undefined condition, %s given as %s, is accepted:\n  %s", u.name, in.name, texts[0])
	}
	t.Ev("rejected programs", 1)
	t.Distinct(u.name, in.name)
}

type holeTree struct {
	r       *R
	markers []string
	holes   []string
	desc    string
	left    int // when it is not 0, the number of leaves before the only hole, or a negative number if there is none
}

// hole decides whether the next leaf is undefined.
func (h *holeTree) hole(percent int) bool {
	if h.left == 0 {
		return h.r.P(percent)
	}
	if h.left > 0 {
		h.left--
		if h.left == 0 {
			h.left = -1
			return true
		}
	}
	return false
}

// chain links n leaves: to the left, to the right, or as a random tree, by one operator or both, with functions or methods.
func (h *holeTree) chain(n int) stmt.Expression {
	shape, ops := h.r.N(3), h.r.N(3)
	methods := pick(h.r, 0, 50, 100)
	join := func(l, r stmt.Expression) stmt.Expression {
		and := ops == 0 || ops == 2 && h.r.P(50)
		if h.r.P(methods) {
			switch x := l.(type) {
			case stmt.InfixExpression:
				if and {
					return x.And(r)
				}
				return x.Or(r)
			case stmt.In:
				if and {
					return x.And(r)
				}
				return x.Or(r)
			}
		}
		if and {
			return lk.And(l, r)
		}
		return lk.Or(l, r)
	}
	var build func(n int) stmt.Expression
	build = func(n int) stmt.Expression {
		if n == 1 {
			return h.leaf()
		}
		k := n - 1
		switch shape {
		case 1:
			k = 1
		case 2:
			k = 1 + h.r.N(n-1)
		}
		l := build(k)
		return join(l, build(n-k))
	}
	return build(n)
}

// onChain is the same for the conditions of a join.
func (h *holeTree) onChain(n int) stmt.OnExpression {
	shape, ops := h.r.N(3), h.r.N(3)
	methods := pick(h.r, 0, 50, 100)
	var build func(n int) stmt.OnExpression
	build = func(n int) stmt.OnExpression {
		if n == 1 {
			return h.onGen(0)
		}
		k := n - 1
		switch shape {
		case 1:
			k = 1
		case 2:
			k = 1 + h.r.N(n-1)
		}
		l := build(k)
		r := build(n - k)
		and := ops == 0 || ops == 2 && h.r.P(50)
		switch {
		case l != nil && h.r.P(methods) && and:
			return l.And(r)
		case l != nil && h.r.P(methods):
			return l.Or(r)
		case and:
			return lk.AndOn(l, r)
		}
		return lk.OrOn(l, r)
	}
	return build(n)
}

// p15Chains: long chains having one undefined part, at any position, or none.
func p15Chains(t *T) {
	h := &holeTree{r: t.R("chain"), left: -1}
	n := h.r.Range(1, 40)
	if h.r.P(10) {
		n = h.r.Range(41, 300)
	}
	if h.r.P(70) {
		h.left = h.r.Range(1, n)
		if h.r.P(30) {
			h.left = pick(h.r, 1, n)
		}
	}
	place := condPlaces[t.idx/2%4]
	kind := "conditions"
	var texts []string
	o := try(func() {
		b := whereStart(place)
		switch {
		case t.idx%2 == 1:
			kind = "join"
			h.markers = append(h.markers, "mkt")
			b = lk.Select("id").From("t").Join("mkt", h.onChain(n), pick(h.r, joinTypes...))
		case place != "having" && h.r.P(40):
			kind = "calls"
			b = whereCall(place, b, "Where", h.leaf())
			for i := 1; i < n; i++ {
				b = whereCall(place, b, pick(h.r, "And", "Or", "Where"), h.leaf())
			}
		default:
			b = whereCall(place, b, "Where", h.chain(n))
		}
		texts = renderAll(b)
	})
	t.Ev("undefined parts injected", len(h.holes))
	if o.Panicked {
		if len(h.holes) == 0 {
			t.Fail("a chain of %d defined %s is rejected: %s (%s)", n, kind, o.Msg, place)
		}
		t.Ev("rejected programs", 1)
		t.Distinct(append(h.holes, place, kind, strconv.Itoa(n), strconv.Itoa(len(h.markers)))...)
		return
	}
	if len(h.holes) > 0 {
		t.Fail("a chain of %d %s with the undefined part %q is accepted (%s):\n  %s", n, kind, h.holes, place, texts[0])
	}
	t.Ev("accepted programs", 1)
	for _, text := range texts {
		got := markersOf(t, text)
		if strings.Join(got, " ") != strings.Join(h.markers, " ") {
			t.Fail("conditions are missing in a chain of %d %s (%s):\n  want %v\n  got  %v\n  %s", n, kind, place, h.markers, got, text)
		}
		t.Ev("markers found", len(got))
	}
	t.Distinct("chain", place, kind, strconv.Itoa(n), texts[0])
}

func (h *holeTree) leaf() stmt.Expression {
	if h.hole(8) {
		u := undefinedParts[h.r.N(len(undefinedParts))]
		h.holes = append(h.holes, u.name)
		return u.mk()
	}
	name := "mk" + strconv.Itoa(len(h.markers))
	h.markers = append(h.markers, name)
	c := lk.Condition(name)
	switch h.r.N(8) {
	case 0:
		return c.In(1, 2)
	case 1:
		return c.Between(1, 2)
	case 2:
		return c.IsNull(true)
	case 3:
		return c.NotIn([]string{"a"})
	case 4:
		return lk.Exists(lk.Select("id").From("u").Where(c.Equal(1)))
	case 5:
		return c
	case 6:
		return c.In()
	}
	return c.Equal(1)
}

func (h *holeTree) gen(depth int) stmt.Expression {
	if depth == 0 || h.r.P(45) {
		return h.leaf()
	}
	l := h.gen(depth - 1)
	r := h.gen(depth - 1)
	switch h.r.N(4) {
	case 0:
		return lk.And(l, r)
	case 1:
		return lk.Or(l, r)
	}
	switch x := l.(type) {
	case stmt.InfixExpression:
		if h.r.P(50) {
			return x.And(r)
		}
		return x.Or(r)
	case stmt.In:
		if h.r.P(50) {
			return x.And(r)
		}
		return x.Or(r)
	}
	return lk.And(l, r)
}

func p15Random(t *T) {
	h := &holeTree{r: t.R("tree")}
	place := condPlaces[t.idx%4]
	var texts []string
	var calls []string
	badStart := false
	o := try(func() {
		b := whereStart(place)
		n := h.r.Range(1, 4)
		if place == "having" {
			n = 1
		}
		var conds []stmt.Expression
		for i := 0; i < n; i++ {
			conds = append(conds, h.gen(h.r.N(4)))
			call := "Where"
			if i > 0 || h.r.P(5) {
				call = pick(h.r, "And", "Or", "Where")
			}
			calls = append(calls, call)
		}
		badStart = calls[0] != "Where" && place != "having"
		for i := range conds {
			b = whereCall(place, b, calls[i], conds[i])
		}
		if sel, ok := b.(builder.Select); ok && h.r.P(25) {
			b = lk.Select("id").From("o").Where(lk.Condition("id").In(sel))
		}
		texts = renderAll(b)
	})
	t.Ev("undefined parts injected", len(h.holes))
	if o.Panicked {
		if len(h.holes) == 0 && !badStart {
			t.Fail("defined conditions are rejected: %s (%s %v)", o.Msg, place, calls)
		}
		t.Ev("rejected programs", 1)
		if len(h.holes) > 0 {
			t.Distinct(append(h.holes, place, fmt.Sprint(calls))...)
		}
		return
	}
	if len(h.holes) > 0 {
		t.Fail("a program with undefined conditions %q is accepted (%s %v):\n  %s", h.holes, place, calls, texts[0])
	}
	t.Ev("accepted programs", 1)
	for _, text := range texts {
		got := markersOf(t, text)
		if strings.Join(got, " ") != strings.Join(h.markers, " ") {
			t.Fail("conditions are missing (%s %v):\n  want %v\n  got  %v\n  %s", place, calls, h.markers, got, text)
		}
		t.Ev("markers found", len(got))
	}
	t.Distinct(texts[0])
	t.Sample("%s", texts[0])
}

type undefinedOn struct {
	name string
	mk   func() stmt.OnExpression
}

var undefinedOns = []undefinedOn{
	{"nil", func() stmt.OnExpression { return nil }},
	{"OnClause{}", func() stmt.OnExpression { return stmt.OnClause{} }},
	{"InfixOnExpression{}", func() stmt.OnExpression { return stmt.InfixOnExpression{} }},
	{`On("", "x")`, func() stmt.OnExpression { return lk.On("", "x") }},
	{`On("x", "")`, func() stmt.OnExpression { return lk.On("x", "") }},
	{`On("", "")`, func() stmt.OnExpression { return lk.On("", "") }},
	{"AndOn(nil, x)", func() stmt.OnExpression { return lk.AndOn(nil, lk.On("a", "b")) }},
	{"AndOn(x, nil)", func() stmt.OnExpression { return lk.AndOn(lk.On("a", "b"), nil) }},
	{"OrOn(nil, x)", func() stmt.OnExpression { return lk.OrOn(nil, lk.On("a", "b")) }},
	{"OrOn(x, nil)", func() stmt.OnExpression { return lk.OrOn(lk.On("a", "b"), nil) }},
	{"x.And(nil)", func() stmt.OnExpression { return lk.On("a", "b").And(nil) }},
	{"x.Or(nil)", func() stmt.OnExpression { return lk.On("a", "b").Or(nil) }},
	{`x.And(On("", ""))`, func() stmt.OnExpression { return lk.On("a", "b").And(lk.On("", "")) }},
	{"NewInfixOn(x, {}, x)", func() stmt.OnExpression {
		return stmt.NewInfixOnExpression(lk.On("a", "b"), stmt.LogicalOperator{}, lk.On("a", "b"))
	}},
}

func (h *holeTree) onGen(depth int) stmt.OnExpression {
	if depth == 0 || h.r.P(40) {
		if h.hole(10) {
			u := undefinedOns[h.r.N(len(undefinedOns))]
			h.holes = append(h.holes, u.name)
			return u.mk()
		}
		name := "mk" + strconv.Itoa(len(h.markers))
		h.markers = append(h.markers, name)
		if h.r.P(50) {
			return lk.On("x", name)
		}
		return lk.On(name, "x")
	}
	l := h.onGen(depth - 1)
	r := h.onGen(depth - 1)
	k := h.r.N(4)
	if l == nil {
		k %= 2
	}
	switch k {
	case 0:
		return lk.AndOn(l, r)
	case 1:
		return lk.OrOn(l, r)
	case 2:
		return l.And(r)
	}
	return l.Or(r)
}

func p15On(t *T) {
	h := &holeTree{r: t.R("on")}
	var texts []string
	desc := ""
	n := h.r.Range(1, 3)
	o := try(func() {
		s := lk.Select("id").From("t")
		for i := 0; i < n; i++ {
			tab := "mkt" + strconv.Itoa(i)
			h.markers = append(h.markers, tab)
			on := h.onGen(h.r.N(4))
			switch h.r.N(5) {
			case 0:
				s = s.Join(tab, on)
			case 1:
				s = s.Join(lk.Table(tab), on, types.LeftJoin)
			case 2:
				e, _ := on.(stmt.Expression)
				s = s.Join(stmt.NewJoin(types.RightJoin, lk.Table(tab), e))
			case 3:
				e, _ := on.(stmt.Expression)
				s = s.Join(stmt.NewInnerJoin(lk.Table(tab), e))
			default:
				s = s.Join(tab, on, types.InnerJoin)
			}
		}
		if h.r.P(30) {
			s = s.Where(lk.Condition("mkw").Equal(1))
			h.markers = append(h.markers, "mkw")
		}
		texts = renderAll(s)
	})
	t.Ev("undefined parts injected", len(h.holes))
	if o.Panicked {
		if len(h.holes) == 0 {
			t.Fail("defined joins are rejected: %s %s", o.Msg, desc)
		}
		t.Ev("rejected programs", 1)
		t.Distinct(append(h.holes, "on")...)
		return
	}
	if len(h.holes) > 0 {
		t.Fail("a join with undefined conditions %q is accepted:\n  %s", h.holes, texts[0])
	}
	t.Ev("accepted programs", 1)
	for _, text := range texts {
		got := markersOf(t, text)
		if strings.Join(got, " ") != strings.Join(h.markers, " ") {
			t.Fail("join conditions are missing:\n  want %v\n  got  %v\n  %s", h.markers, got, text)
		}
		t.Ev("markers found", len(got))
	}
	t.Distinct(texts[0])
}

var markerRx = regexp.MustCompile(`"mk[0-9]+"`)

// p15Lists has undefined elements in lists and calls: the condition can be written as it is (PostgreSQL rejects it), never
// be dropped.
func p15Lists(t *T) {
	r := t.R("lists")
	hole := pick[any](r, lk.Raw(""), lk.Condition(""), nil, builder.NewSelect(), stmt.Array{}, stmt.Value{})
	var args []any
	for i, c := 0, r.N(4); i < c; i++ {
		args = append(args, i)
	}
	args = append(args, hole)
	shuffle(r, args)
	var e stmt.Expression
	m := lk.Condition("mk1")
	var texts []string
	place := condPlaces[t.idx%4]
	o := try(func() {
		switch r.N(5) {
		case 0:
			e = m.In(args...)
		case 1:
			e = m.NotIn(args...)
		case 2:
			e = m.In(args)
		case 3:
			var xs []stmt.Expression
			for i := range args {
				xs = append(xs, stmt.NewExpression(args[i]))
			}
			e = m.Equal(stmt.NewCall("f", xs...))
		case 4:
			e = m.Equal(stmt.NewCall("f"))
		}
		b := whereCall(place, whereStart(place), "Where", lk.And(mark(0), e))
		if place != "having" {
			b = whereCall(place, b, "Or", mark(2))
			texts = renderAll(b)
		} else {
			texts = renderAll(b)
			for i := range texts {
				texts[i] += ` "mk2"`
			}
		}
	})
	t.Ev("undefined parts injected", 1)
	if o.Panicked {
		t.Ev("rejected programs", 1)
		return
	}
	t.Ev("accepted programs", 1)
	for _, text := range texts {
		// The hole may be written as a zero-length identifier, so that the text is not read as a whole.
		if got := markerRx.FindAllString(text, -1); strings.Join(got, " ") != `"mk0" "mk1" "mk2"` {
			t.Fail("a condition is missing: %v\n  %s", got, text)
		}
		t.Ev("markers found", 3)
	}
	t.Distinct(texts[0])
}

// ------------------------------------------------------------------------------------------------------------------ P16

func init() {
	register(&Check{
		ID: "P16",
		Rule: "sequences of pairs and maps over few column names (so that they overwrite each other), in one or several calls, for updates, inserts and " +
			"upserts; the assignments read in the text must be those of a map model, sorted by name. Every value is unique. Derivations share prefixes.",
		Require: []string{"assignments compared", "overwritten columns", "calls in sequence"},
		Families: []Family{
			{Name: "model", Quick: 16000, Thorough: 250000, Fn: p16Model},
			{Name: "coincide", Quick: 6000, Thorough: 150000, Fn: alike(p16Model)},
			{Name: "big", Quick: 300, Thorough: 3000, Fn: p16Big},
			{Name: "columns", Quick: 3000, Thorough: 30000, Fn: p16Columns},
		},
	})
}

var p16Names = []string{"a", "b", "c", "A", "ab", "a.b", "t.a", "é", "order", "a b", "\"q\"", "b\"c", "Z", "_x", "1"}

type setModel struct {
	tiny bool
	vals map[string]*N
	over int
}

func (m *setModel) put(name string, n *N) {
	if m.vals[name] != nil {
		m.over++
	}
	m.vals[name] = n
}

func (m *setModel) pairs() *N {
	n := nd("set", "pairs")
	keys := sortedKeys(m.vals)
	sortStrings(keys)
	for _, k := range keys {
		n.add(nd("assign", nameKey(k), m.vals[k]))
	}
	return n
}

func (m *setModel) row() (*N, *N) {
	cols, row := nd("columns", ""), nd("vrow", "")
	for _, a := range m.pairs().C {
		cols.add(nd("id", a.T))
		row.add(a.C[0])
	}
	return cols, nd("values", "", row)
}

// p16Value is unique (by its counter).
func p16Value(r *R, counter *int) (any, *N) {
	*counter++
	switch r.N(10) {
	case 0:
		f := "f" + strconv.Itoa(*counter) + "()"
		return lk.Raw(f), mustExpr(f)
	case 1:
		c := "c" + strconv.Itoa(*counter)
		return lk.Select(c), nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf(c)))))
	case 2:
		v := val(strconv.Itoa(*counter) + "'")
		return v.In, valNode(&v)
	case 3:
		return nil, valNode(&Val{Null: true})
	case 4:
		c := "z" + strconv.Itoa(*counter)
		return lk.Condition(c), idOf(c)
	case 5:
		v := val([]byte(strconv.Itoa(*counter)))
		return v.In, valNode(&v)
	}
	v := val(*counter)
	return v.In, valNode(&v)
}

// p16Args generates arguments and applies them to the model.
func (m *setModel) name(r *R) string {
	if m.tiny {
		return pick(r, "a", "b", "c", "t.a")
	}
	return p16Names[r.N(len(p16Names))]
}

// value is unique, or one of few values which look like the columns.
func (m *setModel) value(r *R, counter *int) (any, *N) {
	if !m.tiny {
		return p16Value(r, counter)
	}
	name := m.name(r)
	switch r.N(8) {
	case 0, 1:
		return lk.Raw(name), mustExpr(name)
	case 2:
		f := `"` + strings.ReplaceAll(name, ".", `"."`) + `"`
		return lk.Raw(f), mustExpr(f)
	case 3:
		return lk.Condition(name), idOf(name)
	case 4:
		v := val(name)
		return v.In, valNode(&v)
	case 5:
		return lk.Select(name), nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf(name)))))
	case 6:
		return nil, valNode(&Val{Null: true})
	}
	v := val(r.N(2))
	return v.In, valNode(&v)
}

func p16Args(r *R, m *setModel, count int, counter *int) []any {
	var args []any
	for i := 0; i < count; i++ {
		switch r.N(4) {
		case 0, 1:
			name := m.name(r)
			v, n := m.value(r, counter)
			m.put(name, n)
			if r.P(50) {
				args = append(args, lk.Pair(lk.Column(name), v))
			} else {
				args = append(args, lk.Pair(name, v))
			}
		case 2:
			mp := lk.Map{}
			used := map[string]bool{}
			for k := r.Size(1, 6); k > 0; k-- {
				name := m.name(r)
				if used[name] {
					continue
				}
				used[name] = true
				v, n := m.value(r, counter)
				m.put(name, n)
				if r.P(50) {
					mp[lk.Column(name)] = v
				} else {
					mp[name] = v
				}
			}
			args = append(args, mp)
		default:
			mp := map[string]interface{}{}
			for k := r.Size(1, 6); k > 0; k-- {
				name := m.name(r)
				if _, ok := mp[name]; ok {
					continue
				}
				v, n := m.value(r, counter)
				m.put(name, n)
				mp[name] = v
			}
			args = append(args, mp)
		}
	}
	return args
}

func p16Model(t *T) {
	r := t.R("set")
	counter := 0
	m := &setModel{tiny: t.tiny, vals: map[string]*N{}}
	p := &Prog{}
	var b bld
	calls := 1
	switch t.idx % 3 {
	case 0:
		u := lk.Update("t")
		calls = r.Range(1, 6)
		for i := 0; i < calls; i++ {
			args := p16Args(r, m, r.Size(1, 3), &counter)
			p.SDesc += "\n .Set(" + briefArgs(args) + ")"
			prev := u
			u = u.Set(args...)
			if r.P(30) {
				// A sibling which must not disturb.
				_ = prev.Set(lk.Pair(p16Names[r.N(len(p16Names))], "sibling"), lk.Map{"sibling": 1}).String()
			}
			if r.P(20) {
				u = u.Comment("")
			}
		}
		b, p.Kind, p.AST = u, "update", nd("update", "", tableT(), m.pairs())
	case 1:
		args := p16Args(r, m, r.Size(1, 8), &counter)
		p.SDesc = "Set(" + briefArgs(args) + ")"
		cols, row := m.row()
		b, p.Kind, p.AST = lk.Insert("t").Set(args...), "insert", nd("insert", "", tableT(), cols, row)
	case 2:
		args := p16Args(r, m, r.Size(1, 8), &counter)
		p.SDesc = "DoUpdate(" + briefArgs(args) + ")"
		b, p.Kind = lk.Insert("t").Values(lk.Raw("1")).OnConflict("id", lk.DoUpdate(args...)), "insert"
		p.AST = nd("insert", "", tableT(), nd("values", "", nd("vrow", "", mustExpr("1"))),
			nd("conflict", "update", nd("target", "", idOf("id")), m.pairs()))
	}
	t.conform(p, b, modePositional, modeInline)
	t.Ev("assignments compared", len(m.vals))
	t.Ev("overwritten columns", m.over)
	t.Ev("calls in sequence", calls)
	t.Distinct(p.AST.String())
	t.Sample("%s", b.String())
}

func p16Big(t *T) {
	r := t.R("big")
	n := r.Range(50, 1500)
	m := &setModel{vals: map[string]*N{}}
	u := lk.Update("t")
	var batch []any
	for i := 0; i < 2*n; i++ {
		name := "c" + strconv.Itoa(r.N(n))
		v := val(i)
		m.put(name, valNode(&v))
		batch = append(batch, lk.Pair(name, i))
		if r.P(5) {
			u = u.Set(batch...)
			batch = nil
		}
	}
	if len(batch) > 0 {
		u = u.Set(batch...)
	}
	t.conform(&Prog{Kind: "update", AST: nd("update", "", tableT(), m.pairs()), SDesc: "big"}, u, modePositional)
	t.Ev("assignments compared", len(m.vals))
	t.Ev("overwritten columns", m.over)
	t.Distinct("big", strconv.Itoa(n))
}

// p16Columns checks that a column list keeps its order, and each column its own value.
func p16Columns(t *T) {
	r := t.R("columns")
	names := append([]string{}, p16Names...)
	shuffle(r, names)
	names = names[:r.Range(1, len(names))]
	counter := 0
	var using, cols []any
	targets, l := nd("targets", ""), nd("list", "")
	for _, n := range names {
		cols, targets = append(cols, lk.Column(n)), targets.add(idOf(n))
		v := val(counter)
		counter++
		using, l = append(using, v.In), l.add(valNode(&v))
	}
	u := lk.Update("t")
	for i := 0; i < len(cols); {
		k := r.Range(1, len(cols)-i)
		u = u.Set(cols[i : i+k]...)
		i += k
	}
	if r.P(50) {
		u = u.Using(using...)
	} else {
		w := lk.Update("t").Set(cols...)
		u = w.Using(using...)
	}
	p := &Prog{Kind: "update", AST: nd("update", "", tableT(), nd("set", "list", targets, l)), SDesc: briefArgs(cols)}
	t.conform(p, u, modePositional)
	t.Ev("assignments compared", len(names))
	t.Distinct(p.AST.String())
}

// ------------------------------------------------------------------------------------------------------------------ P17

func init() {
	register(&Check{
		ID: "P17",
		Rule: "every form of the argument(s) of Values (arguments, typed slices, slices of rows, expressions, single values, nil) with 1 to 3000 rows and 1 to " +
			"300 elements, of every kind, NULL included, rows of different lengths; rows and elements read in the text are compared one by one.",
		Require: []string{"rows compared", "elements compared", "NULL elements", "single elements"},
		Families: []Family{
			{Name: "huge", Quick: 100, Thorough: 20000, Fn: hugely(5000, p17Forms)},
			{Name: "coincide", Quick: 2000, Thorough: 200000, Fn: alike(p17Forms)},
			{Name: "forms", Quick: 16000, Thorough: 200000, Fn: p17Forms},
			{Name: "single", Quick: len(allKinds) * 20, Thorough: len(allKinds) * 200, Fn: p17Single},
			{Name: "many", Quick: 120, Thorough: 1200, Fn: p17Many},
		},
	})
}

func p17Check(t *T, b bld, cols *N, vn *N, desc string, modes ...int) {
	ast := nd("insert", "", tableT())
	if cols != nil {
		ast.add(cols)
	}
	ast.add(vn)
	t.conform(&Prog{Kind: "insert", AST: ast, SDesc: desc}, b, modes...)
	t.Ev("rows compared", len(vn.C))
	for _, r := range vn.C {
		t.Ev("elements compared", len(r.C))
		for _, e := range r.C {
			if e.K == "val" && e.V.Null {
				t.Ev("NULL elements", 1)
			}
		}
	}
}

func p17Forms(t *T) {
	o := defaultOpts()
	o.kinds = allKinds
	o.sub = 1
	g := newGen(t, o, "", "", "")
	r := g.s
	elem := func() (any, *N) {
		if r.P(12) {
			return nil, valNode(&Val{Null: true})
		}
		return g.element()
	}
	rowN := func(count int) ([]any, *N) {
		n := nd("vrow", "")
		var row []any
		for i := 0; i < count; i++ {
			a, an := elem()
			row, n = append(row, a), n.add(an)
		}
		return row, n
	}
	vn := nd("values", "")
	var args []any
	cols := r.Size(1, 6)
	form := t.idx % 8
	switch form {
	case 0: // arguments
		row, n := rowN(cols + 1)
		args, vn = row, vn.add(n)
	case 1: // one slice
		row, n := rowN(cols)
		args, vn = []any{row}, vn.add(n)
	case 2, 3: // rows, possibly of different lengths
		var rows [][]any
		for i, c := 0, r.Size(1, 8); i < c; i++ {
			k := cols
			if form == 3 {
				k = r.Size(1, 6)
			}
			row, n := rowN(k)
			rows, vn = append(rows, row), vn.add(n)
		}
		args = []any{rows}
	case 4: // a typed slice
		d := sliceDefs[r.N(len(sliceDefs))]
		n := nd("vrow", "")
		var vals []*Val
		for i := 0; i < cols; i++ {
			v := g.valOf(d.kind)
			vals, n = append(vals, v), n.add(valNode(v))
		}
		args, vn = []any{d.mk(vals)}, vn.add(n)
	case 5: // typed rows
		kind := pick(r, "string", "int", "int64", "bool")
		var vals [][]*Val
		for i, c := 0, r.Size(1, 8); i < c; i++ {
			n := nd("vrow", "")
			var row []*Val
			k := cols
			if r.P(20) {
				k = r.Size(1, 6)
			}
			for j := 0; j < k; j++ {
				v := g.valOf(kind)
				row, n = append(row, v), n.add(valNode(v))
			}
			vals, vn = append(vals, row), vn.add(n)
		}
		args = []any{typedRows(kind, vals, r.P(70))}
	case 6: // expressions
		row, n := rowN(cols)
		var xs []stmt.Expression
		for i := range row {
			xs = append(xs, stmt.NewExpression(row[i]))
		}
		args, vn = []any{xs}, vn.add(n)
	case 7: // rows of expressions
		var rows [][]stmt.Expression
		for i, c := 0, r.Size(1, 6); i < c; i++ {
			row, n := rowN(r.Size(1, 5))
			var xs []stmt.Expression
			for i := range row {
				xs = append(xs, stmt.NewExpression(row[i]))
			}
			rows, vn = append(rows, xs), vn.add(n)
		}
		args = []any{rows}
	}
	ib := lk.Insert("t")
	var cn *N
	if r.P(70) {
		cn = nd("columns", "")
		var names []any
		for i := 0; i < cols; i++ {
			names, cn = append(names, "c"+strconv.Itoa(i)), cn.add(idOf("c"+strconv.Itoa(i)))
		}
		ib = ib.Columns(names...)
	}
	desc := fmt.Sprintf("form %d: Values(%s)", form, briefArgs(args))
	p17Check(t, ib.Values(args...), cn, vn, desc, modePositional, modeNamed)
	t.Distinct(strconv.Itoa(form), vn.shape())
	t.Sample("%s", desc)
}

// p17Single gives one value of each kind in the forms which could be mistaken for another one.
func p17Single(t *T) {
	r := t.R("single")
	k := kindByName[allKinds[t.idx%len(allKinds)]]
	v := makeVal(k.name, r)
	form := t.idx / len(allKinds) % 5
	vn := nd("values", "", nd("vrow", "", valNode(v)))
	var args []any
	switch form {
	case 0: // Values(v): a list is a row
		if k.list {
			vn = nd("values", "", nd("vrow", "", listElems(v)...))
			if len(vn.C[0].C) == 0 {
				return
			}
		}
		args = []any{v.In}
	case 1:
		args = []any{[]any{v.In}}
	case 2:
		args = []any{[][]any{{v.In}}}
	case 3:
		args = []any{[][]any{{v.In}, {v.In}}}
		vn.add(nd("vrow", "", valNode(v)))
	case 4:
		args = []any{[]stmt.Expression{stmt.NewExpression(v.In)}}
	}
	p17Check(t, lk.Insert("t").Columns("a").Values(args...), nd("columns", "", idOf("a")), vn,
		fmt.Sprintf("form %d of %s: Values(%s)", form, k.name, briefArgs(args)), modePositional, modeNamed)
	t.Ev("single elements", 1)
	t.Distinct("single", k.name, strconv.Itoa(form))
}

func listElems(v *Val) []*N {
	var out []*N
	rv := reflect.ValueOf(v.In)
	for i := 0; i < rv.Len(); i++ {
		e := val(rv.Index(i).Interface())
		out = append(out, valNode(&e))
	}
	return out
}

func p17Many(t *T) {
	r := t.R("many")
	rows, cols := pick(r, 1, 2, 500, 1000, 3000), pick(r, 1, 2, 3, 20)
	if rows < 3 {
		cols = pick(r, 50, 300, 3000)
	}
	switch t.idx {
	case 0: // more than the arguments of one statement of PostgreSQL
		rows, cols = 66000, 1
	case 1:
		rows, cols = 1, 66000
	case 2:
		rows, cols = 12000, 3
	}
	vn := nd("values", "")
	var list [][]any
	for i := 0; i < rows; i++ {
		n := nd("vrow", "")
		var row []any
		for j := 0; j < cols; j++ {
			if r.P(10) {
				row, n = append(row, nil), n.add(valNode(&Val{Null: true}))
				continue
			}
			v := val(i*cols + j)
			row, n = append(row, v.In), n.add(valNode(&v))
		}
		list, vn = append(list, row), vn.add(n)
	}
	p17Check(t, lk.Insert("t").Values(list), nil, vn, fmt.Sprintf("%d rows of %d", rows, cols), modePositional, modeInline)
	t.Distinct("many", strconv.Itoa(rows), strconv.Itoa(cols))
}

// ------------------------------------------------------------------------------------------------------------------ P18

func init() {
	register(&Check{
		ID: "P18",
		Rule: "every kind of value at every position of the API: bound as it is (type and content), NULL for nil, encoders by the value they encode, " +
			"expressions embedded; every unsupported type at every position must be rejected by a panic which is no runtime fault.",
		Require: []string{"values bound", "values NULL", "unsupported values rejected", "embedded encoders"},
		Families: []Family{
			{Name: "supported", Quick: len(allKinds) * len(valuePositions) * 4, Thorough: len(allKinds) * len(valuePositions) * 60, Fn: p18Supported},
			{Name: "unsupported", Quick: len(unsupported) * (len(valuePositions) + len(listPositions)), Thorough: len(unsupported) * (len(valuePositions) + len(listPositions)), Fn: p18Unsupported},
			{Name: "encoders", Quick: len(valuePositions) * 12, Thorough: len(valuePositions) * 12, Fn: p18Encoders},
			{Name: "two", Quick: len(allKinds) * len(twoPositions) * 8, Thorough: len(allKinds) * len(twoPositions) * 100, Fn: p18Two},
			{Name: "several", Quick: len(valuePositions) * p18ManyForms, Thorough: len(valuePositions) * p18ManyForms * 4, Fn: p18Several},
		},
	})
}

// valuePosition takes one value: the statement, and its tree around the node of the value.
type valuePosition struct {
	name  string
	build func(v any) bld
	kind  string
	ast   func(v *N) *N
	// skip tells if the position takes this kind as something else than a single value
	skip func(k *kindDef, v *Val) bool
}

func one() *N { x := val(1); return valNode(&x) }

func selWhere(c *N) *N {
	return nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()), nd("where", "", c))
}

var valuePositions = func() []valuePosition {
	var out []valuePosition
	where := func(name string, e func(v any) stmt.Expression, n func(v *N) *N, skip func(k *kindDef, v *Val) bool) {
		out = append(out, valuePosition{name, func(v any) bld { return lk.Select("id").From("t").Where(e(v)) }, "select", func(v *N) *N { return selWhere(n(v)) }, skip})
	}
	a := lk.Condition("a")
	for _, op := range identOps {
		op := op
		where("identifier "+op.op, func(v any) stmt.Expression { return op.fn(a, v) }, func(v *N) *N { return nd("cmp", op.op, idOf("a"), v) }, nil)
	}
	for _, op := range callOps {
		op := op
		where("call "+op.op, func(v any) stmt.Expression { return op.fn(stmt.NewCall("f"), v) }, func(v *N) *N { return nd("cmp", op.op, nd("call", nameKey("f")), v) }, nil)
	}
	for _, op := range valueOps {
		op := op
		where("value "+op.op, func(v any) stmt.Expression { return op.fn(lk.Value(1), v) }, func(v *N) *N { return nd("cmp", op.op, one(), v) }, nil)
	}
	where("between from", func(v any) stmt.Expression { return a.Between(v, 1) }, func(v *N) *N { return nd("between", "", idOf("a"), v, one()) }, nil)
	where("between to", func(v any) stmt.Expression { return a.Between(1, v) }, func(v *N) *N { return nd("between", "", idOf("a"), one(), v) }, nil)
	where("not between", func(v any) stmt.Expression { return a.NotBetween(v, v) }, func(v *N) *N { return nd("between", "NOT ", idOf("a"), v, v) }, nil)
	where("in among", func(v any) stmt.Expression { return a.In(1, v) }, func(v *N) *N { return nd("in", "", idOf("a"), nd("list", "", one(), v)) }, nil)
	where("in first", func(v any) stmt.Expression { return a.NotIn(v, 1, v) }, func(v *N) *N { return nd("in", "NOT ", idOf("a"), nd("list", "", v, one(), v)) }, nil)
	where("in slice", func(v any) stmt.Expression { return a.In([]any{v, 1}) }, func(v *N) *N { return nd("in", "", idOf("a"), nd("list", "", v, one())) }, nil)
	where("in slice of one", func(v any) stmt.Expression { return a.In([]any{v}) }, func(v *N) *N { return nd("in", "", idOf("a"), nd("list", "", v)) }, nil)
	where("in single", func(v any) stmt.Expression { return a.In(v) }, func(v *N) *N { return nd("in", "", idOf("a"), nd("list", "", v)) },
		func(k *kindDef, v *Val) bool { return k.list || v.In == nil })
	where("call in", func(v any) stmt.Expression { return stmt.NewCall("f").In(v, v) }, func(v *N) *N { return nd("in", "", nd("call", nameKey("f")), nd("list", "", v, v)) }, nil)
	where("call argument", func(v any) stmt.Expression { return stmt.NewCall("f", stmt.NewExpression(v), stmt.NewExpression(1)) }, func(v *N) *N { return nd("call", nameKey("f"), v, one()) }, nil)
	out = append(out,
		valuePosition{"having", func(v any) bld { return lk.Select("id").From("t").Having(a.Equal(v)) }, "select", func(v *N) *N {
			return nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()), nd("having", "", nd("cmp", "=", idOf("a"), v)))
		}, nil},
		valuePosition{"subquery", func(v any) bld {
			return lk.Delete("t").Where(lk.Exists(lk.Select("id").From("t").Where(a.Equal(v))))
		}, "delete", func(v *N) *N {
			return nd("delete", "", nd("from", "", tableT()), nd("where", "", nd("exists", "", nd("subq", "", selWhere(nd("cmp", "=", idOf("a"), v))))))
		}, nil},
		valuePosition{"cte", func(v any) bld {
			return lk.Update("t").With(lk.With("w", lk.Select("id").From("t").Where(a.Equal(v)))).Set(lk.Pair("x", 1))
		}, "update", func(v *N) *N {
			return nd("update", "", nd("with", "", nd("cte", nameKey("w"), nd("subq", "", selWhere(nd("cmp", "=", idOf("a"), v))))), tableT(), nd("set", "pairs", assignN("x", one())))
		}, nil},
		valuePosition{"update pair", func(v any) bld { return lk.Update("t").Set(lk.Pair("a", v)) }, "update", func(v *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v)))
		}, nil},
		valuePosition{"update map", func(v any) bld { return lk.Update("t").Set(lk.Map{"a": v, "b": 1}) }, "update", func(v *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v), assignN("b", one())))
		}, nil},
		valuePosition{"update map of texts", func(v any) bld { return lk.Update("t").Set(map[string]interface{}{"a": v}) }, "update", func(v *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v)))
		}, nil},
		valuePosition{"update using", func(v any) bld { return lk.Update("t").Set("a", "b").Using(1, v) }, "update", func(v *N) *N {
			return nd("update", "", tableT(), nd("set", "list", nd("targets", "", idOf("a"), idOf("b")), nd("list", "", one(), v)))
		}, nil},
		valuePosition{"insert set", func(v any) bld { return lk.Insert("t").Set(lk.Pair("a", v), lk.Pair("b", 1)) }, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("columns", "", idOf("a"), idOf("b")), nd("values", "", nd("vrow", "", v, one())))
		}, nil},
		valuePosition{"insert set map", func(v any) bld { return lk.Insert("t").Set(lk.Map{lk.Column("a"): v}) }, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("columns", "", idOf("a")), nd("values", "", nd("vrow", "", v)))
		}, nil},
		valuePosition{"upsert pair", func(v any) bld {
			return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(lk.Pair("a", v)))
		}, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", one())), nd("conflict", "update", nd("target", "", idOf("id")), nd("set", "pairs", assignN("a", v))))
		}, nil},
		valuePosition{"values", func(v any) bld { return lk.Insert("t").Values(1, v) }, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", one(), v)))
		}, nil},
		valuePosition{"values single", func(v any) bld { return lk.Insert("t").Values(v) }, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", v)))
		}, func(k *kindDef, v *Val) bool { return k.list }},
		valuePosition{"values slice", func(v any) bld { return lk.Insert("t").Values([]any{v}) }, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", v)))
		}, nil},
		valuePosition{"values rows", func(v any) bld { return lk.Insert("t").Values([][]any{{1, v}, {v, 1}}) }, "insert", func(v *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", one(), v), nd("vrow", "", v, one())))
		}, nil},
	)
	return out
}()

func p18Supported(t *T) {
	k := kindByName[allKinds[t.idx%len(allKinds)]]
	pos := valuePositions[t.idx/len(allKinds)%len(valuePositions)]
	v := makeVal(k.name, t.R("value"))
	if pos.skip != nil && pos.skip(k, v) {
		return
	}
	p := &Prog{Kind: pos.kind, AST: pos.ast(valNode(v)), SDesc: fmt.Sprintf("%s with %s: %s", pos.name, k.name, v.Desc())}
	modes := []int{modePositional, modeNamed}
	if k.lit {
		modes = append(modes, modeInline)
	}
	b := pos.build(v.In)
	t.conform(p, b, modes...)
	if v.Null {
		t.Ev("values NULL", 1)
	} else {
		t.Ev("values bound", 1)
	}
	if !k.lit {
		// No exact reading of the inlined literal: it must exist.
		_ = b.String()
	}
	t.Distinct(pos.name, v.Desc())
	t.Sample("%s", p.SDesc)
}

// twoPositions take two values.
var twoPositions = func() []struct {
	name  string
	build func(v, w any) bld
	kind  string
	ast   func(v, w *N) *N
} {
	type two = struct {
		name  string
		build func(v, w any) bld
		kind  string
		ast   func(v, w *N) *N
	}
	var out []two
	a := lk.Condition("a")
	where := func(name string, e func(v, w any) stmt.Expression, n func(v, w *N) *N) {
		out = append(out, two{name, func(v, w any) bld { return lk.Select("id").From("t").Where(e(v, w)) }, "select", func(v, w *N) *N { return selWhere(n(v, w)) }})
	}
	where("between", func(v, w any) stmt.Expression { return a.Between(v, w) }, func(v, w *N) *N { return nd("between", "", idOf("a"), v, w) })
	where("not between", func(v, w any) stmt.Expression { return a.NotBetween(v, w) }, func(v, w *N) *N { return nd("between", "NOT ", idOf("a"), v, w) })
	where("in", func(v, w any) stmt.Expression { return a.In(v, w) }, func(v, w *N) *N { return nd("in", "", idOf("a"), nd("list", "", v, w)) })
	where("not in slice", func(v, w any) stmt.Expression { return a.NotIn([]any{v, w}) }, func(v, w *N) *N { return nd("in", "NOT ", idOf("a"), nd("list", "", v, w)) })
	where("call", func(v, w any) stmt.Expression { return stmt.NewCall("f", stmt.NewExpression(v), stmt.NewExpression(w)) },
		func(v, w *N) *N { return nd("call", nameKey("f"), v, w) })
	where("call in", func(v, w any) stmt.Expression { return stmt.NewCall("f").In(v, w) }, func(v, w *N) *N { return nd("in", "", nd("call", nameKey("f")), nd("list", "", v, w)) })
	where("and", func(v, w any) stmt.Expression { return a.Equal(v).And(a.Equal(w)) },
		func(v, w *N) *N { return nd("and", "", nd("cmp", "=", idOf("a"), v), nd("cmp", "=", idOf("a"), w)) })
	where("range", func(v, w any) stmt.Expression { return lk.And(a.GreaterThanOrEqual(v), a.LessThan(w)) },
		func(v, w *N) *N { return nd("and", "", nd("cmp", ">=", idOf("a"), v), nd("cmp", "<", idOf("a"), w)) })
	where("or", func(v, w any) stmt.Expression { return lk.Or(a.Equal(v), a.NotEqual(w)) },
		func(v, w *N) *N { return nd("or", "", nd("cmp", "=", idOf("a"), v), nd("cmp", "!=", idOf("a"), w)) })
	out = append(out,
		two{"two wheres", func(v, w any) bld { return lk.Delete("t").Where(a.Equal(v)).Where(a.LessThan(w)) }, "delete", func(v, w *N) *N {
			return nd("delete", "", nd("from", "", tableT()), nd("where", "", nd("and", "", nd("cmp", "=", idOf("a"), v), nd("cmp", "<", idOf("a"), w))))
		}},
		two{"where and having", func(v, w any) bld { return lk.Select("id").From("t").Where(a.Equal(v)).Having(a.Equal(w)) }, "select", func(v, w *N) *N {
			return nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()), nd("where", "", nd("cmp", "=", idOf("a"), v)), nd("having", "", nd("cmp", "=", idOf("a"), w)))
		}},
		two{"set and where", func(v, w any) bld { return lk.Update("t").Set(lk.Pair("a", v)).Where(a.Equal(w)) }, "update", func(v, w *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v)), nd("where", "", nd("cmp", "=", idOf("a"), w)))
		}},
		two{"update pairs", func(v, w any) bld { return lk.Update("t").Set(lk.Pair("a", v), lk.Pair("b", w)) }, "update", func(v, w *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v), assignN("b", w)))
		}},
		two{"update map", func(v, w any) bld { return lk.Update("t").Set(lk.Map{"b": w, "a": v}) }, "update", func(v, w *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v), assignN("b", w)))
		}},
		two{"pair set twice", func(v, w any) bld { return lk.Update("t").Set(lk.Pair("a", 1), lk.Pair("b", w)).Set(lk.Pair("a", v)) }, "update", func(v, w *N) *N {
			return nd("update", "", tableT(), nd("set", "pairs", assignN("a", v), assignN("b", w)))
		}},
		two{"using", func(v, w any) bld { return lk.Update("t").Set("a", "b").Using(v, w) }, "update", func(v, w *N) *N {
			return nd("update", "", tableT(), nd("set", "list", nd("targets", "", idOf("a"), idOf("b")), nd("list", "", v, w)))
		}},
		two{"insert pairs", func(v, w any) bld { return lk.Insert("t").Set(lk.Pair("a", v), lk.Pair("b", w)) }, "insert", func(v, w *N) *N {
			return nd("insert", "", tableT(), nd("columns", "", idOf("a"), idOf("b")), nd("values", "", nd("vrow", "", v, w)))
		}},
		two{"upsert", func(v, w any) bld {
			return lk.Insert("t").Columns("a").Values([]any{v}).OnConflict("id", lk.DoUpdate(lk.Pair("a", w)))
		}, "insert", func(v, w *N) *N {
			return nd("insert", "", tableT(), nd("columns", "", idOf("a")), nd("values", "", nd("vrow", "", v)), nd("conflict", "update", nd("target", "", idOf("id")), nd("set", "pairs", assignN("a", w))))
		}},
		two{"row", func(v, w any) bld { return lk.Insert("t").Values(v, w) }, "insert", func(v, w *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", v, w)))
		}},
		two{"rows", func(v, w any) bld { return lk.Insert("t").Values([][]any{{v}, {w}}) }, "insert", func(v, w *N) *N {
			return nd("insert", "", tableT(), nd("values", "", nd("vrow", "", v), nd("vrow", "", w)))
		}},
	)
	return out
}()

// p18Two gives two values, of the same kind or of others, equal or not.
func p18Two(t *T) {
	r := t.R("two")
	k1 := allKinds[t.idx%len(allKinds)]
	pos := twoPositions[t.idx/len(allKinds)%len(twoPositions)]
	k2 := k1
	if r.P(30) {
		k2 = allKinds[r.N(len(allKinds))]
	}
	v, w := makeVal(k1, t.R("value")), makeVal(k2, t.R("other value"))
	if r.P(15) {
		w, k2 = makeVal(k1, t.R("value")), k1
	}
	if r.P(20) {
		v, w, k1, k2 = w, v, k2, k1
	}
	if (kindByName[k1].list && kindByName[k2].list) && pos.name == "row" {
		return // two rows
	}
	p := &Prog{Kind: pos.kind, AST: pos.ast(valNode(v), valNode(w)), SDesc: fmt.Sprintf("%s with %s, %s: %s, %s", pos.name, k1, k2, v.Desc(), w.Desc())}
	modes := []int{modePositional, modeNamed}
	if kindByName[k1].lit && kindByName[k2].lit {
		modes = append(modes, modeInline)
	}
	t.conform(p, pos.build(v.In, w.In), modes...)
	t.Ev("pairs of values bound", 1)
	t.Distinct(pos.name, v.Desc(), w.Desc())
	t.Sample("%s", p.SDesc)
}

type (
	myInt    int
	myString string
	myBytes  []byte
	mySlice  []string
	myMap    map[string]string
	myFloat  float64
	myBool   bool

	nInt8    int8
	nInt16   int16
	nInt32   int32
	nInt64   int64
	nUint    uint
	nUint8   uint8
	nUint16  uint16
	nUint32  uint32
	nUint64  uint64
	nUintptr uintptr
	nFloat32 float32
	nTime    time.Time
	nInts    []int
	nBools   []bool
	nAnys    []any
	nRows    [][]any
	nTimes   []time.Time
	nBytes2  []nUint8
	nAnyMap  map[string]any
	nExprs   []stmt.Expression
	nFunc    func() string
	nChan    chan string
)

// unsupported values, of types which are close to supported ones.
var unsupported = func() []any {
	i, s, b, f := 5, "x", true, 1.5
	ps := &s
	now := time.Unix(0, 0)
	pt := &now
	return []any{
		struct{}{}, unsupportedStruct{1}, &unsupportedStruct{1}, (*unsupportedStruct)(nil), make(chan int), func() {}, &i, (*int)(nil), &s, (*string)(nil), &b, &f, &ps, &pt,
		myInt(1), myString("x"), myBytes("x"), mySlice{"x"}, myMap{"a": "b"}, myFloat(1), myBool(true), complex(1, 2), complex64(1), uintptr(1), 'a' + complex(0, 0),
		[2]int{1, 2}, [0]int{}, [1]string{"a"}, map[int]int{1: 2}, map[string]int{"a": 1}, map[interface{}]interface{}{1: 2}, map[string][]string{}, map[string]bool{"a": true},
		[]time.Time{now}, [][]float64{{1}}, [][][]string{{{"a"}}}, []unsupportedStruct{{1}}, []map[string]string{}, []error{}, [][]uint{{1}}, []*int{&i}, []complex128{1},
		errors.New("x"), json.RawMessage("{}"), sql.RawBytes("x"), time.January, reflect.TypeOf(1), struct{ time.Location }{}, pgtype.FlatArray[int32]{1}, &pgtype.FlatArray[string]{},
		lk.Map{"a": 1}, lk.Pair("a", 1), lk.Column("a"), lk.Table("a"), lk.Order("a"), lk.Limit(1), lk.With("a", lk.Select("b")), lk.Count("x"), lk.DoNothing(),
		lk.Insert("t").Values(1), lk.Update("t").Set(lk.Pair("a", 1)), lk.Delete("t"), types.LeftJoin, types.Asc, stmt.NewInsert(), stmt.NewOffset(1),
		badStatement{}, []any{}, []any{1}, []int{1}, []bool{true}, []float32{1}, []uint8(nil),
		nInt8(1), nInt16(1), nInt32(1), nInt64(1), nUint(1), nUint8(1), nUint16(1), nUint32(1), nUint64(1), nUintptr(1), nFloat32(1), nTime(now), nInts{1}, nBools{true}, nAnys{1}, nRows{{1}}, nTimes{now},
		nBytes2{1}, nAnyMap{"a": 1}, nExprs{stmt.NewValue(1)}, nFunc(func() string { return "x" }), make(nChan), []nInt8{1}, []myString{"x"}, []myInt{1}, []nTime{nTime(now)}, []nFloat32{1}, []myBool{true}, [][]myInt{{1}},
		new(int8), new(int16), new(int32), new(int64), new(uint), new(uint8), new(uint16), new(uint32), new(uint64), new(float32), new([]byte), new([]int), new([]string), new(map[string]any), new(any), new(myInt), new(nTime),
		(*bool)(nil), (*float64)(nil), (*int64)(nil), (*uint8)(nil), (*any)(nil), (*[]byte)(nil), (chan int)(nil), (func())(nil), map[any]any{"a": 1},
	}
}()

// badStatement encodes a statement which is not an expression.
type badStatement struct{}

func (badStatement) Statement() stmt.Statement { return stmt.NewTable("x") }

// Some of the above have a meaning: they are not unsupported everywhere.
func reallyUnsupported(v any) bool {
	switch v.(type) {
	case interface{ String() string }, interface{ Int64() int64 }, interface{ Bool() bool }, interface{ Time() time.Time }:
		// Encoders of a value (some types of the standard library are, depending on its version).
		_, statement := v.(stmt.StatementEncoder)
		return statement
	case []uint8:
		return false
	}
	return true
}

// isList tells if v is a list of supported values, which IN and VALUES take.
func isListArg(v any) bool {
	switch v.(type) {
	case []any, []int, []bool, []float32:
		return true
	}
	return false
}

type listPosition struct {
	name  string
	build func(v any) bld
}

// listPositions take a list.
var listPositions = []listPosition{
	{"in single", func(v any) bld { return lk.Select("id").From("t").Where(lk.Condition("a").In(v)) }},
	{"not in single", func(v any) bld { return lk.Delete("t").Where(lk.Condition("a").NotIn(v)) }},
	{"call in single", func(v any) bld { return lk.Delete("t").Where(stmt.NewCall("f").In(v)) }},
	{"values single", func(v any) bld { return lk.Insert("t").Values(v) }},
	{"exists", func(v any) bld { return lk.Select("id").Where(lk.Exists(v)) }},
	{"not exists", func(v any) bld { return lk.Select("id").Where(lk.NotExists(v)) }},
	{"with", func(v any) bld { return lk.Select("id").With(lk.With("w", v)) }},
	{"using single", func(v any) bld { return lk.Update("t").Set("a").Using(v) }},
}

func p18Unsupported(t *T) {
	v := unsupported[t.idx%len(unsupported)]
	k := t.idx / len(unsupported)
	if !reallyUnsupported(v) {
		return
	}
	var name string
	var build func(v any) bld
	if k < len(valuePositions) {
		name, build = valuePositions[k].name, valuePositions[k].build
		if isListArg(v) && (name == "in single" || name == "values single") {
			return
		}
	} else {
		lp := listPositions[k-len(valuePositions)]
		name, build = lp.name, lp.build
		if isListArg(v) && strings.Contains(name, "single") {
			return
		}
	}
	var texts []string
	o := try(func() { texts = renderAll(build(v)) })
	if !o.Panicked {
		t.FailKey(fmt.Sprintf("%s:%T", name, v), "a value of the unsupported type %T is accepted as %s:\n  %s", v, name, strings.Join(texts, "\n  "))
	}
	if o.Runtime {
		t.Fail("a value of the unsupported type %T as %s ends in a runtime fault: %s\n%s", v, name, o.Msg, o.Stack)
	}
	t.Ev("unsupported values rejected", 1)
	t.Distinct("unsupported", name, typeName(v), brief(v))
}

// exprEncoder is an encoder of an expression.
type exprEncoder struct{ e stmt.Statement }

func (e exprEncoder) Statement() stmt.Statement { return e.e }

// bothEncoder is also an encoder of a text: its statement comes first.
type bothEncoder struct{ exprEncoder }

func (bothEncoder) String() string { return "never" }

type ptrEncoder struct{ e stmt.Statement }

func (e *ptrEncoder) Statement() stmt.Statement { return e.e }

func p18Encoders(t *T) {
	pos := valuePositions[t.idx%len(valuePositions)]
	k := t.idx / len(valuePositions)
	var e stmt.Statement
	var n *N
	switch k % 4 {
	case 0:
		e, n = lk.Raw("NOW()"), mustExpr("NOW()")
	case 1:
		e, n = lk.Condition("t.c"), idOf("t.c")
	case 2:
		e, n = stmt.NewCall("g", stmt.NewExpression(1)), nd("call", nameKey("g"), one())
	case 3:
		e, n = lk.Select("m").From("u").Statement(), nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf("m"))), nd("from", "", nd("table", "", idOf("u")))))
	}
	var v any
	switch k / 4 {
	case 0:
		v = exprEncoder{e}
	case 1:
		v = bothEncoder{exprEncoder{e}}
	default:
		v = &ptrEncoder{e}
	}
	if pos.name == "in single" && k%4 == 3 || strings.HasPrefix(pos.name, "in slice of one") && k%4 == 3 {
		// IN (SELECT ...) has no list.
		p := &Prog{Kind: pos.kind, AST: selWhere(nd("in", "", idOf("a"), n)), SDesc: pos.name}
		t.conform(p, pos.build(v), modePositional)
		return
	}
	p := &Prog{Kind: pos.kind, AST: pos.ast(n), SDesc: fmt.Sprintf("%s with %T of %T", pos.name, v, e)}
	t.conform(p, pos.build(v), modePositional, modeNamed, modeInline)
	t.Ev("embedded encoders", 1)
	t.Distinct("encoder", pos.name, strconv.Itoa(k))
}

var _ = big.NewInt
