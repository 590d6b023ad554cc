package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	"github.com/lib/pq"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P07

func init() {
	register(&Check{
		ID: "P07",
		Rule: "trees of builders derived from one another (random parents and calls, every repeatable call at every length 0..12 with 2 to 4 siblings), reused " +
			"expressions; every node is rendered at the end, in a random order, and compared with its own chain of calls applied alone on new objects.",
		Require: []string{"nodes compared", "siblings compared", "expression reuses compared", "calls rejected"},
		Families: []Family{
			{Name: "huge", Quick: 200, Thorough: 4000, Fn: hugely(600, p07Tree)},
			{Name: "coincide", Quick: 1000, Thorough: 60000, Fn: alike(p07Tree)},
			{Name: "tree", Quick: 3200, Thorough: 40000, Fn: p07Tree},
			{Name: "append", Quick: len(repeatables) * 13 * 4, Thorough: len(repeatables) * 13 * 40, Fn: p07Append},
			{Name: "long append", Quick: len(repeatables) * 4, Thorough: len(repeatables) * 4 * 40, Fn: p07LongAppend},
			{Name: "expressions", Quick: 6000, Thorough: 80000, Fn: p07Expr},
		},
	})
}

type poolStep struct{ prog, step int }

type pool struct {
	progs []*Prog
	steps []poolStep
	big   bool // some of the calls have extreme sizes
}

// newPool generates the calls of several statements of the same kind.
func newPool(t *T, kind string, count int, salt string) *pool {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	o.sub = 1
	hugeOne := newR(t.w.seed, uint64(t.idx), hash64(salt)).N(count)
	wasHuge := t.huge
	defer func() { t.huge = wasHuge }()
	p := &pool{}
	for j := 0; j < count; j++ {
		t.huge = 0
		if j == hugeOne {
			t.huge = wasHuge
		}
		g := newGen(t, o, "", "", "")
		tag := salt + strconv.Itoa(j)
		g.s, g.v, g.sp, g.pm = t.R("s"+tag), t.R("v"+tag), t.R("sp"+tag), t.R("pm"+tag)
		p.big = p.big || g.big > 0 || g.huge > 0
		prog := g.Of(kind)
		p.progs = append(p.progs, prog)
		for k := range prog.Steps {
			p.steps = append(p.steps, poolStep{j, k})
		}
	}
	return p
}

func (p *pool) at(i int) Step { s := p.steps[i]; return p.progs[s.prog].Steps[s.step] }

func p07Tree(t *T) {
	kind := kinds4[t.idx%4]
	r := t.R("tree")
	pl := newPool(t, kind, 4, "pool")
	type node struct {
		b      bld
		chain  []int
		parent int
	}
	type reject struct {
		parent int
		step   int
		msg    string
	}
	nodes := []node{{b: pl.progs[0].Start()}}
	var rejects []reject
	if len(pl.steps) == 0 {
		return
	}
	hot, size := 0, 40
	if pl.big {
		size = 14
	}
	for k := 0; k < size; k++ {
		parent := r.N(len(nodes))
		switch r.N(4) {
		case 0:
			parent = len(nodes) - 1
		case 1:
			parent = hot
		}
		if r.P(20) {
			hot = parent
		}
		step := r.N(len(pl.steps))
		var b bld
		o := try(func() { b = pl.at(step).Apply(nodes[parent].b) })
		if o.Panicked {
			rejects = append(rejects, reject{parent, step, o.Msg})
			t.Ev("calls rejected", 1)
			continue
		}
		chain := append(append([]int{}, nodes[parent].chain...), step)
		nodes = append(nodes, node{b, chain, parent})
		if r.P(15) {
			_ = outcomeOf(nodes[r.N(len(nodes))].b)
		}
	}
	fresh := func(chain []int) (bld, *pool, string) {
		p := newPool(t, kind, 4, "pool")
		b := p.progs[0].Start()
		for i, s := range chain {
			if o := try(func() { b = p.at(s).Apply(b) }); o.Panicked {
				return nil, p, fmt.Sprintf("call %d is rejected alone: %s", i, o.Msg)
			}
		}
		return b, p, ""
	}
	desc := func(chain []int) string {
		d := "  " + pl.progs[0].SDesc
		for _, s := range chain {
			d += "\n    ." + pl.at(s).Desc
		}
		return d
	}
	order := make([]int, len(nodes))
	for i := range order {
		order[i] = i
	}
	shuffle(r, order)
	for _, i := range order {
		n := nodes[i]
		b, _, msg := fresh(n.chain)
		if msg != "" {
			t.Fail("in a tree of %d builders: %s\n%s", len(nodes), msg, desc(n.chain))
		}
		want, got := outcomeOf(b), outcomeOf(n.b)
		if want != got {
			t.Fail("in a tree of %d builders, this one renders differently than alone:\n  %s\n  %s\n%s", len(nodes), want, got, desc(n.chain))
		}
		t.Ev("nodes compared", 1)
		if len(n.chain) > 1 {
			t.Distinct(want)
		}
	}
	for _, rj := range rejects {
		b, p, msg := fresh(nodes[rj.parent].chain)
		if msg != "" {
			continue
		}
		if o := try(func() { b = p.at(rj.step).Apply(b) }); !o.Panicked || o.Msg != rj.msg {
			t.Fail("in a tree, this call was rejected (%s), alone: %s\n%s\n    .%s", rj.msg, o, desc(nodes[rj.parent].chain), pl.at(rj.step).Desc)
		}
	}
	t.Sample("%d nodes, %d rejected calls, last one: %s", len(nodes), len(rejects), outcomeOf(nodes[len(nodes)-1].b))
}

// repeatable calls: i identifies what is added.
type repeatable struct {
	name  string
	start func() bld
	call  func(b bld, i int) bld
}

func colN(i int) string { return "c" + strconv.Itoa(i) }

var repeatables = []repeatable{
	{"select join", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		return sel(b).Join("j"+strconv.Itoa(i), lk.On("a", colN(i)), joinTypes[i%len(joinTypes)])
	}},
	{"select join text", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		return sel(b).Join(fmt.Sprintf("INNER JOIN j%d ON a%d = b%d", i, i, i))
	}},
	{"select order one", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		return sel(b).OrderBy(lk.Order(colN(i), types.Desc))
	}},
	{"select order many", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		var o []stmt.Order
		for k := 0; k <= i%3; k++ {
			o = append(o, lk.Column(colN(i)+"_"+strconv.Itoa(k)).Asc())
		}
		return sel(b).OrderBy(o...)
	}},
	{"select with", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		return sel(b).With(lk.With("w"+strconv.Itoa(i), lk.Select(colN(i)).From("u").Where(lk.Condition("x").Equal(i))))
	}},
	{"select with many", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		var w []stmt.WithQuery
		for k := 0; k <= i%3; k++ {
			w = append(w, lk.With(fmt.Sprintf("w%d_%d", i, k), lk.Select(colN(i)).From("u")))
		}
		return sel(b).With(w...)
	}},
	{"select where", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		return sel(b).Where(lk.Condition(colN(i)).Equal(i))
	}},
	{"select and or", func() bld { return lk.Select("id").From("t").Where(lk.Condition("z").In(1, 2)) }, func(b bld, i int) bld {
		if i%2 == 0 {
			return sel(b).And(lk.Condition(colN(i)).In(i, i+1))
		}
		return sel(b).Or(lk.Condition(colN(i)).Between(i, i+1))
	}},
	{"select mixed", func() bld { return lk.Select("id").From("t") }, func(b bld, i int) bld {
		s := sel(b)
		switch i % 4 {
		case 0:
			return s.Join("j"+strconv.Itoa(i), lk.On("a", colN(i)))
		case 1:
			return s.OrderBy(lk.Order(colN(i)))
		case 2:
			return s.With(lk.With("w"+strconv.Itoa(i), lk.Select(colN(i))))
		}
		return s.Where(lk.Condition(colN(i)).Equal(i))
	}},
	{"select columns", func() bld { return builder.NewSelect() }, func(b bld, i int) bld {
		if i%2 == 0 {
			return sel(b).Columns(colN(i), colN(i+1))
		}
		return sel(b).Distinct()
	}},
	{"update with", func() bld { return lk.Update("t").Set(lk.Pair("a", 1)) }, func(b bld, i int) bld {
		return upd(b).With(lk.With("w"+strconv.Itoa(i), lk.Select(colN(i)).From("u").Where(lk.Condition("x").Equal(i))))
	}},
	{"update set pair", func() bld { return lk.Update("t") }, func(b bld, i int) bld {
		return upd(b).Set(lk.Pair(colN(i), i), lk.Pair("last", i))
	}},
	{"update set map", func() bld { return lk.Update("t") }, func(b bld, i int) bld {
		return upd(b).Set(lk.Map{colN(i): i, "last": i, lk.Column("other"): strconv.Itoa(i)})
	}},
	{"update set overwrite", func() bld { return lk.Update("t").Set(lk.Map{"a": 0, "b": 0, "c": 0}) }, func(b bld, i int) bld {
		return upd(b).Set(lk.Pair([]string{"a", "b", "c"}[i%3], i))
	}},
	{"update set column", func() bld { return lk.Update("t") }, func(b bld, i int) bld {
		return upd(b).Set(colN(i))
	}},
	{"update where", func() bld { return lk.Update("t").Set(lk.Pair("a", 1)) }, func(b bld, i int) bld {
		return upd(b).Where(lk.Condition(colN(i)).Equal(i))
	}},
	{"update and or", func() bld { return lk.Update("t").Set(lk.Pair("a", 1)).Where(lk.Condition("z").Equal(0)) }, func(b bld, i int) bld {
		if i%2 == 0 {
			return upd(b).And(lk.Condition(colN(i)).Equal(i))
		}
		return upd(b).Or(lk.Condition(colN(i)).Equal(i))
	}},
	{"delete where", func() bld { return lk.Delete("t") }, func(b bld, i int) bld {
		return del(b).Where(lk.Condition(colN(i)).Equal(i))
	}},
	{"delete and or", func() bld { return lk.Delete("t").Where(lk.Condition("z").Equal(0)) }, func(b bld, i int) bld {
		if i%2 == 0 {
			return del(b).And(lk.Condition(colN(i)).Equal(i))
		}
		return del(b).Or(lk.Condition(colN(i)).Equal(i))
	}},
	{"delete comment", func() bld { return lk.Delete("t") }, func(b bld, i int) bld { return del(b).Comment("c" + strconv.Itoa(i)) }},
	// Chains of expressions.
	{"on and", selT1, onChain(func(e stmt.OnExpression, i int) stmt.OnExpression { return e.And(lk.On("a", colN(i))) })},
	{"on or", selT1, onChain(func(e stmt.OnExpression, i int) stmt.OnExpression { return e.Or(lk.On(colN(i), "b")) })},
	{"on and, or", selT1, onChain(func(e stmt.OnExpression, i int) stmt.OnExpression {
		if i%3 == 0 {
			return e.Or(lk.On(colN(i), "b"))
		}
		return e.And(lk.On("a", colN(i)))
	})},
	{"on on the right", selT1, onChain(func(e stmt.OnExpression, i int) stmt.OnExpression { return lk.AndOn(lk.On("a", colN(i)), e) })},
	{"on chains", selT1, onChain(func(e stmt.OnExpression, i int) stmt.OnExpression {
		return e.And(lk.On("a", colN(i)).Or(lk.On("b", colN(i))))
	})},
	{"infix and", selT1, infixChain(func(e stmt.InfixExpression, i int) stmt.InfixExpression { return e.And(lk.Condition(colN(i)).Equal(i)) })},
	{"infix or", selT1, infixChain(func(e stmt.InfixExpression, i int) stmt.InfixExpression {
		return e.Or(lk.Condition(colN(i)).In(i, i+1))
	})},
	{"infix and, or", selT1, infixChain(func(e stmt.InfixExpression, i int) stmt.InfixExpression {
		if i%3 == 0 {
			return lk.Or(e, lk.Condition(colN(i)).Equal(i))
		}
		return lk.And(e, lk.Condition(colN(i)).Between(i, i))
	})},
	{"infix on the right", selT1, infixChain(func(e stmt.InfixExpression, i int) stmt.InfixExpression {
		return lk.And(lk.Condition(colN(i)).Equal(i), e)
	})},
	{"where clause", selT1, func(b bld, i int) bld {
		x, ok := b.(held[stmt.Where])
		if !ok {
			x.value = stmt.NewWhere(lk.Condition("z").Equal(1))
		}
		if i%3 == 0 {
			x.value = x.value.Or(lk.Condition(colN(i)).Equal(i))
		} else {
			x.value = x.value.And(lk.Condition(colN(i)).Equal(i))
		}
		x.bld = clauseShow{st: x.value}
		return x
	}},
	{"having clause", selT1, func(b bld, i int) bld {
		x, ok := b.(held[stmt.Having])
		if !ok {
			x.value = stmt.NewHaving(lk.Condition("z").Equal(1))
		}
		if i%3 == 0 {
			x.value = x.value.Or(lk.Condition(colN(i)).Equal(i))
		} else {
			x.value = x.value.And(lk.Condition(colN(i)).Equal(i))
		}
		x.bld = clauseShow{st: x.value}
		return x
	}},
	{"insert comment", func() bld { return lk.Insert("t").Set(lk.Map{"a": 1}) }, func(b bld, i int) bld {
		return ins(b).Comment("c" + strconv.Itoa(i))
	}},
}

// held is an expression in the making, and a builder showing it.
type held[E any] struct {
	bld
	value E
}

// clauseShow shows a statement which has no builder.
type clauseShow struct {
	bld
	st stmt.Statement
}

func (c clauseShow) text(k int) string {
	rec := &recorder{}
	c.st.Write(rec)
	return rec.text(k)
}

func (c clauseShow) String() string                       { return c.text(2) }
func (c clauseShow) Query() (string, []any)               { return c.text(0), nil }
func (c clauseShow) NamedQuery() (string, map[string]any) { return c.text(1), nil }

// onChain extends a join condition.
func onChain(f func(e stmt.OnExpression, i int) stmt.OnExpression) func(b bld, i int) bld {
	return func(b bld, i int) bld {
		x, ok := b.(held[stmt.OnExpression])
		if !ok {
			x.value = lk.On("t.x", "j.y")
		}
		x.value = f(x.value, i)
		x.bld = lk.Select("id").From("t").Join("j", x.value)
		return x
	}
}

// infixChain extends a condition.
func infixChain(f func(e stmt.InfixExpression, i int) stmt.InfixExpression) func(b bld, i int) bld {
	return func(b bld, i int) bld {
		x, ok := b.(held[stmt.InfixExpression])
		if !ok {
			x.value = lk.Condition("z").Equal(0)
		}
		x.value = f(x.value, i)
		x.bld = lk.Select("id").From("t").Where(x.value)
		return x
	}
}

func selT1() bld { return lk.Select("id").From("t") }

// p07LongAppend: as p07Append, with long chains.
func p07LongAppend(t *T) { p07Siblings(t, 14+t.R("length").N(90)) }

// p07Append extends chains of every length with several siblings.
func p07Append(t *T) { p07Siblings(t, t.idx/len(repeatables)%13) }

func p07Siblings(t *T, length int) {
	rp := repeatables[t.idx%len(repeatables)]
	r := t.R("append")
	type node struct {
		b     bld
		chain []int
	}
	b := rp.start()
	var chain []int
	next := 0
	for i := 0; i < length; i++ {
		b = rp.call(b, next)
		chain = append(chain, next)
		next++
	}
	nodes := []node{{b, chain}}
	derive := func(p int) {
		n := nodes[p]
		c := append(append([]int{}, n.chain...), next)
		nodes = append(nodes, node{rp.call(n.b, next), c})
		next++
	}
	for i, c := 0, r.Range(2, 4); i < c; i++ {
		derive(0)
		if r.P(30) {
			_ = outcomeOf(nodes[r.N(len(nodes))].b)
		}
	}
	for i := 0; i < 6; i++ {
		derive(r.N(len(nodes)))
	}
	order := make([]int, len(nodes))
	for i := range order {
		order[i] = i
	}
	shuffle(r, order)
	for _, i := range order {
		n := nodes[i]
		f := rp.start()
		for _, c := range n.chain {
			f = rp.call(f, c)
		}
		want, got := outcomeOf(f), outcomeOf(n.b)
		if want != got {
			t.Fail("%s: among siblings at length %d, the builder of the calls %v renders differently than alone:\n  %s\n  %s", rp.name, length, n.chain, want, got)
		}
		t.Ev("siblings compared", 1)
	}
	t.Distinct("append", rp.name, strconv.Itoa(length), fmt.Sprint(order))
	t.Sample("%s length %d, %d nodes", rp.name, length, len(nodes))
}

// p07Expr reuses expressions in several derived ones.
func p07Expr(t *T) {
	r := t.R("expr")
	o := defaultOpts()
	o.kinds = stableKinds
	gen := func() (stmt.Expression, *N) { return newGen(t, o, "", "", "").cond(3) }
	shared, n := gen()
	alone := func(e stmt.Expression) string { return outcomeOf(lk.Select("id").From("t").Where(e)) }
	e0, _ := gen()
	want := alone(e0)
	other := lk.Condition("other").Equal(1)
	checkShared := func(after string) {
		if got := alone(shared); got != want {
			t.Fail("a condition changed after it was used in %s:\n  %s\n  %s\n%s", after, want, got, n)
		}
		t.Ev("expression reuses compared", 1)
	}
	for k := 0; k < 4; k++ {
		switch r.N(7) {
		case 0:
			_ = lk.And(shared, other)
			_ = lk.Or(other, shared)
			checkShared("And, Or")
		case 1:
			if x, ok := shared.(stmt.InfixExpression); ok {
				a := x.And(other)
				b := x.Or(shared)
				_, _ = alone(a), alone(b)
				checkShared("And, Or methods")
			}
		case 2:
			_ = lk.Select("a").From("t").Where(shared).And(shared).Or(shared).Having(shared).String()
			checkShared("a select")
		case 3:
			_ = lk.Delete("t").Where(shared).String()
			checkShared("a delete")
		case 4:
			s := lk.Select("a").From("t").Where(shared)
			_ = lk.Select(lk.Exists(s)).Where(lk.Condition("id").In(s)).String()
			checkShared("a subquery")
		case 5:
			_ = lk.Update("t").Set(lk.Pair("a", 1)).Where(shared).Or(other).String()
			checkShared("an update")
		case 6:
			w := stmt.NewWhere(shared)
			_, _ = w.And(other), w.Or(other)
			h := stmt.NewHaving(shared)
			_, _ = h.And(other), h.Or(other)
			checkShared("where and having")
		}
	}
	// Columns, tables, aggregates, on clauses and orders.
	name, alias := "n"+strconv.Itoa(r.N(100)), "al"
	col, tab, cnt, mx := lk.Column(name), lk.Table(name), lk.Count(name), lk.Max(name)
	on := lk.On("a", "b")
	inf := lk.AndOn(on, lk.On("c", "d"))
	ident := lk.Condition(name)
	text := func() string {
		return outcomeOf(lk.Select(col, cnt, mx).From(tab).Join("j", inf).Join("k", on).Where(ident.Equal(1)))
	}
	before := text()
	uses := []func(){
		func() { _ = col.As(alias) }, func() { _, _ = col.Asc(), col.Desc() }, func() { _ = tab.As(alias) }, func() { _ = tab.Only() },
		func() { _ = cnt.As(alias) }, func() { _ = cnt.Distinct(true) }, func() { _ = mx.As(alias) },
		func() { _, _ = on.And(lk.On("x", "y")), on.Or(inf) }, func() { _, _ = inf.And(on), inf.Or(on) },
		func() { _, _ = ident.In(1, 2), ident.IsNull(true) },
		func() { _ = lk.Update(tab).Only().Set(lk.Pair(col, 1)).String() },
		func() { _ = lk.Insert(tab).Columns(col).Values(1).Returning(col.As(alias), cnt).String() },
		func() { _ = lk.Delete(tab).Using(tab).Returning(col).String() },
	}
	for i := 0; i < 6; i++ {
		k := r.N(len(uses))
		uses[k]()
		if got := text(); got != before {
			t.Fail("a column, table, aggregate or join condition changed after use %d:\n  %s\n  %s", k, before, got)
		}
		t.Ev("expression reuses compared", 1)
	}
	t.Distinct("expr", n.shape())
}

// ------------------------------------------------------------------------------------------------------------------ P08

func init() {
	register(&Check{
		ID: "P08",
		Rule: "every API that takes a slice or a map receives containers with spare capacity; they are compared with snapshots after the call and after " +
			"renderings, then scrambled (elements, spare capacity, nested slices, map entries); the statement must render as an untouched one.",
		Require: []string{"containers scrambled", "containers unmodified", "large containers"},
		Families: []Family{
			{Name: "containers", Quick: len(containerAPIs) * 300, Thorough: len(containerAPIs) * 4000, Fn: p08Containers},
			{Name: "elsewhere", Quick: 4000, Thorough: 50000, Fn: p08Reuse},
			{Name: "values", Quick: len(valuePositions) * 20 * 4, Thorough: len(valuePositions) * 20 * 60, Fn: p08Values},
			{Name: "sizes", Quick: len(containerAPIs) * sizeCount, Thorough: len(containerAPIs) * sizeCount * 3, Fn: p08Sizes},
		},
	})
}

// containerAPI gives a container (made by mk from a stream) to a call.
type containerAPI struct {
	name string
	mk   func(r *R) any
	use  func(c any) bld
	// more are further calls made after the container was scrambled
	more func(b bld) bld
}

// spare copies a slice in a larger array, whose spare capacity is filled.
func spare[E any](list []E, fill E) []E {
	out := make([]E, 0, len(list)+5)
	out = append(out, list...)
	full := out[:cap(out)]
	for i := len(out); i < len(full); i++ {
		full[i] = fill
	}
	return out
}

func smallStrings(r *R, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, benignPart(r)+"_"+strconv.Itoa(i))
	}
	return spare(out, "SPARE")
}

func typedList(r *R, n int) any { return typedListOf(r, n, r.N(14)) }

func typedListOf(r *R, n, kind int) any {
	switch kind {
	case 0:
		return spare(smallStrings(r, n), "S")
	case 1:
		return spare(repeatGen(n, func() int { return r.N(100) }), 7)
	case 2:
		return spare(repeatGen(n, func() int64 { return anyInt(r) }), 7)
	case 3:
		return spare(repeatGen(n, func() bool { return r.P(50) }), true)
	case 4:
		return spare(repeatGen(n, func() float64 { return anyFloat(r) }), 7)
	case 5:
		return spare(repeatGen(n, func() uint { return uint(r.N(100)) }), 7)
	case 6:
		return spare(repeatGen(n, func() uint64 { return uint64(r.N(100)) }), 7)
	case 7:
		return spare(repeatGen(n, func() int8 { return int8(r.N(100)) }), 7)
	case 8:
		return spare(repeatGen(n, func() int16 { return int16(r.N(100)) }), 7)
	case 9:
		return spare(repeatGen(n, func() uint16 { return uint16(r.N(100)) }), 7)
	case 10:
		return spare(repeatGen(n, func() int32 { return int32(r.N(100)) }), 7)
	case 11:
		return spare(repeatGen(n, func() uint32 { return uint32(r.N(100)) }), 7)
	case 12:
		return spare(repeatGen(n, func() float32 { return float32(r.N(100)) }), 7)
	default:
		return spare(repeatGen(n, func() any { return r.N(100) }), any("S"))
	}
}

func repeatGen[E any](n int, f func() E) []E {
	var out []E
	for i := 0; i < n; i++ {
		out = append(out, f())
	}
	return out
}

func exprList(r *R, n int) []stmt.Expression {
	return spare(repeatGen(n, func() stmt.Expression { return stmt.NewExpression(r.N(100)) }), stmt.Expression(lk.Raw("SPARE")))
}

func anyList(c any) []any {
	v := reflect.ValueOf(c)
	out := make([]any, v.Len())
	for i := range out {
		out[i] = v.Index(i).Interface()
	}
	return out
}

var selT = func() builder.Select { return lk.Select("id").From("t") }

func columnList(r *R) []stmt.Column {
	return spare(repeatGen(r.Size(1, 5), func() stmt.Column { return lk.Column(benignPart(r)) }), lk.Column("SPARE"))
}

func anyColumns(r *R) []any {
	return spare(repeatGen(r.Size(1, 5), func() any {
		if r.P(50) {
			return lk.Column(benignPart(r))
		}
		return benignPart(r)
	}), any("SPARE"))
}

func mapOf(r *R) any {
	n := r.Size(1, 6)
	if r.P(50) {
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[benignPart(r)+"_"+strconv.Itoa(i)] = r.N(100)
		}
		return m
	}
	m := lk.Map{}
	for i := 0; i < n; i++ {
		if r.P(50) {
			m[benignPart(r)+"_"+strconv.Itoa(i)] = r.N(100)
		} else {
			m[lk.Column(benignPart(r)+"_"+strconv.Itoa(i))] = r.N(100)
		}
	}
	return m
}

func rowsContainer(r *R) any {
	n, c := r.Size(1, 4), r.Size(1, 4)
	switch r.N(5) {
	case 0:
		return spare(repeatGen(n, func() []string { return smallStrings(r, c) }), []string{"S"})
	case 1:
		return spare(repeatGen(n, func() []int64 { return spare(repeatGen(c, func() int64 { return anyInt(r) }), 7) }), []int64{7})
	case 2:
		return spare(repeatGen(n, func() []stmt.Expression { return exprList(r, c) }), exprList(r, 1))
	default:
		return spare(repeatGen(n, func() []any { return spare(repeatGen(c, func() any { return anyString(r) }), any("S")) }), []any{1})
	}
}

func pairsList(r *R) []any {
	return spare(repeatGen(r.Size(1, 5), func() any {
		if r.P(30) {
			return mapOf(r)
		}
		return lk.Pair(benignPart(r), r.N(100))
	}), any(lk.Pair("SPARE", 1)))
}

func orderList(r *R) []stmt.Order {
	return spare(repeatGen(r.Size(1, 5), func() stmt.Order { return lk.Order(benignPart(r), types.Desc) }), lk.Order("SPARE"))
}

func withList(r *R) []stmt.WithQuery {
	return spare(repeatGen(r.Size(1, 5), func() stmt.WithQuery {
		return lk.With(benignPart(r)+"w", lk.Select(benignPart(r)).From("u").Where(lk.Condition("x").Equal(r.N(9))))
	}), lk.With("SPARE", lk.Select("SPARE")))
}

func tableList(r *R) []any {
	return spare(repeatGen(r.Size(1, 4), func() any {
		if r.P(50) {
			return lk.Table(benignPart(r)).As("al")
		}
		return benignPart(r)
	}), any("SPARE"))
}

func statementList(r *R) []stmt.Statement {
	return spare(repeatGen(r.Size(1, 4), func() stmt.Statement { return lk.Table(benignPart(r)) }), stmt.Statement(lk.Table("SPARE")))
}

func conflictArgs(r *R) []any {
	out := repeatGen(r.Size(1, 3), func() any { return benignPart(r) })
	if r.P(50) {
		return spare(append(out, lk.DoNothing()), any("SPARE"))
	}
	return spare(append(out, lk.DoUpdate(lk.Pair("a", r.N(9)))), any("SPARE"))
}

var moreSelect = func(b bld) bld {
	return sel(b).Where(lk.Condition("more").Equal(1)).Join("more", lk.On("a", "b")).OrderBy(lk.Order("more")).With(lk.With("more", lk.Select("more")))
}
var moreUpdate = func(b bld) bld {
	return upd(b).Where(lk.Condition("more").Equal(1)).With(lk.With("more", lk.Select("more")))
}

var containerAPIs = []containerAPI{
	{"In slice", func(r *R) any { return typedList(r, r.Size(1, 5)) }, func(c any) bld { return selT().Where(lk.Condition("a").In(c)) }, moreSelect},
	{"In variadic", func(r *R) any { return spare(anyList(typedList(r, r.Range(2, 5))), any(1)) }, func(c any) bld { return selT().Where(lk.Condition("a").In(c.([]any)...)) }, moreSelect},
	{"NotIn slice", func(r *R) any { return typedList(r, r.Size(1, 5)) }, func(c any) bld { return lk.Delete("t").Where(lk.Condition("a").NotIn(c)) }, nil},
	{"NotIn variadic", func(r *R) any { return spare(anyList(typedList(r, r.Range(2, 5))), any(1)) }, func(c any) bld { return lk.Delete("t").Where(lk.Condition("a").NotIn(c.([]any)...)) }, nil},
	{"In expressions", func(r *R) any { return exprList(r, r.Size(1, 4)) }, func(c any) bld { return selT().Where(lk.Condition("a").In(c)) }, moreSelect},
	{"In variadic of expressions", func(r *R) any { return spare(anyList(exprList(r, 3)), any(1)) }, func(c any) bld { return selT().Where(lk.Condition("a").In(c.([]any)...)) }, moreSelect},
	{"In variadic of slices", func(r *R) any { return spare([]any{typedList(r, 3)}, any(1)) }, func(c any) bld { return selT().Where(lk.Condition("a").In(c.([]any)...)) }, moreSelect},
	{"call arguments", func(r *R) any { return exprList(r, r.Size(1, 4)) }, func(c any) bld {
		return selT().Where(stmt.NewCall("f", c.([]stmt.Expression)...).Equal(1))
	}, moreSelect},
	{"call In", func(r *R) any { return typedList(r, 3) }, func(c any) bld { return selT().Where(stmt.NewCall("f").In(c)) }, moreSelect},
	{"select columns", func(r *R) any { return columnList(r) }, func(c any) bld { return lk.Select(c).From("t") }, moreSelect},
	{"select texts", func(r *R) any { return smallStrings(r, 3) }, func(c any) bld { return lk.Select(c).From("t") }, moreSelect},
	{"select variadic", func(r *R) any { return anyColumns(r) }, func(c any) bld { return lk.Select(c.([]any)...).From("t") }, moreSelect},
	{"select expressions", func(r *R) any {
		return spare(repeatGen(3, func() stmt.SelectExpression { return lk.Count(benignPart(r)) }), stmt.SelectExpression(lk.Raw("SPARE")))
	}, func(c any) bld { return lk.Select(c).From("t") }, moreSelect},
	{"Columns variadic", func(r *R) any { return anyColumns(r) }, func(c any) bld { return builder.NewSelect().Columns(c.([]any)...) }, moreSelect},
	{"DistinctOn variadic", func(r *R) any { return anyColumns(r) }, func(c any) bld { return selT().DistinctOn(c.([]any)...) }, moreSelect},
	{"DistinctOn slice", func(r *R) any { return columnList(r) }, func(c any) bld { return selT().DistinctOn(c) }, moreSelect},
	{"GroupBy variadic", func(r *R) any { return anyColumns(r) }, func(c any) bld { return selT().GroupBy(c.([]any)...) }, moreSelect},
	{"GroupBy slice", func(r *R) any { return columnList(r) }, func(c any) bld { return selT().GroupBy(c) }, moreSelect},
	{"GroupBy texts", func(r *R) any { return smallStrings(r, 3) }, func(c any) bld { return selT().GroupBy(c) }, moreSelect},
	{"From variadic", func(r *R) any { return tableList(r) }, func(c any) bld { return lk.Select("id").From(c.([]any)...) }, moreSelect},
	{"From statement", func(r *R) any { return statementList(r) }, func(c any) bld { return lk.Select("id").From(stmt.NewFrom(c.([]stmt.Statement))) }, moreSelect},
	{"Join variadic", func(r *R) any {
		return spare([]any{lk.Table(benignPart(r)), lk.On(benignPart(r), "b"), types.LeftJoin}, any(1))
	}, func(c any) bld { return selT().Join(c.([]any)...) }, moreSelect},
	{"Join text variadic", func(r *R) any {
		return spare([]any{"t" + strconv.Itoa(r.N(9)), "ON a = b"}, any(1))
	}, func(c any) bld { return selT().Join(c.([]any)...) }, moreSelect},
	{"OrderBy", func(r *R) any { return orderList(r) }, func(c any) bld { return selT().OrderBy(c.([]stmt.Order)...) }, moreSelect},
	{"OrderBy after another", func(r *R) any { return orderList(r) }, func(c any) bld {
		return selT().OrderBy(lk.Order("z")).OrderBy(c.([]stmt.Order)...)
	}, moreSelect},
	{"select With", func(r *R) any { return withList(r) }, func(c any) bld { return selT().With(c.([]stmt.WithQuery)...) }, moreSelect},
	{"update With", func(r *R) any { return withList(r) }, func(c any) bld {
		return lk.Update("t").Set(lk.Pair("a", 1)).With(c.([]stmt.WithQuery)...)
	}, moreUpdate},
	{"update Set map", mapOf, func(c any) bld { return lk.Update("t").Set(c) }, func(b bld) bld { return upd(b).Set(lk.Pair("zz", 1)) }},
	{"update Set variadic", func(r *R) any { return pairsList(r) }, func(c any) bld { return lk.Update("t").Set(c.([]any)...) }, func(b bld) bld { return upd(b).Set(lk.Pair("zz", 1)) }},
	{"update Set columns", func(r *R) any { return spare(anyList(smallStrings(r, 3)), any("SPARE")) }, func(c any) bld {
		return lk.Update("t").Set(c.([]any)...).Using(lk.Raw("(1, 2, 3)"))
	}, nil},
	{"update Using variadic", func(r *R) any { return spare([]any{r.N(9), "x", lk.Raw("y")}, any(1)) }, func(c any) bld {
		return lk.Update("t").Set("a", "b", "c").Using(c.([]any)...)
	}, nil},
	{"update Returning", func(r *R) any { return anyColumns(r) }, func(c any) bld {
		return lk.Update("t").Set(lk.Pair("a", 1)).Returning(c.([]any)...)
	}, moreUpdate},
	{"delete Using", func(r *R) any { return tableList(r) }, func(c any) bld { return lk.Delete("t").Using(c.([]any)...) }, nil},
	{"delete From", func(r *R) any { return tableList(r) }, func(c any) bld { return builder.NewDelete().From(c.([]any)...) }, nil},
	{"delete Returning", func(r *R) any { return columnList(r) }, func(c any) bld { return lk.Delete("t").Returning(c) }, nil},
	{"insert Columns variadic", func(r *R) any { return anyColumns(r) }, func(c any) bld { return lk.Insert("t").Columns(c.([]any)...).Values(1) }, nil},
	{"insert Columns slice", func(r *R) any { return columnList(r) }, func(c any) bld { return lk.Insert("t").Columns(c).Values(1) }, nil},
	{"insert Columns texts", func(r *R) any { return smallStrings(r, 3) }, func(c any) bld { return lk.Insert("t").Columns(c).Values(1, 2, 3) }, nil},
	{"Values slice", func(r *R) any { return typedList(r, r.Size(1, 5)) }, func(c any) bld { return lk.Insert("t").Values(c) }, nil},
	{"Values variadic", func(r *R) any { return spare(anyList(typedList(r, r.Range(2, 5))), any(1)) }, func(c any) bld { return lk.Insert("t").Values(c.([]any)...) }, nil},
	{"Values expressions", func(r *R) any { return exprList(r, r.Size(1, 5)) }, func(c any) bld { return lk.Insert("t").Values(c) }, nil},
	{"Values rows", rowsContainer, func(c any) bld { return lk.Insert("t").Values(c) }, nil},
	{"Values variadic of rows", func(r *R) any { return spare([]any{rowsContainer(r)}, any(1)) }, func(c any) bld { return lk.Insert("t").Values(c.([]any)...) }, nil},
	{"insert Set map", mapOf, func(c any) bld { return lk.Insert("t").Set(c) }, nil},
	{"insert Set variadic", func(r *R) any { return pairsList(r) }, func(c any) bld { return lk.Insert("t").Set(c.([]any)...) }, nil},
	{"insert Returning", func(r *R) any { return anyColumns(r) }, func(c any) bld { return lk.Insert("t").Values(1).Returning(c.([]any)...) }, nil},
	{"OnConflict variadic", func(r *R) any { return conflictArgs(r) }, func(c any) bld { return lk.Insert("t").Values(1).OnConflict(c.([]any)...) }, nil},
	{"DoUpdate variadic", func(r *R) any { return pairsList(r) }, func(c any) bld {
		return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(c.([]any)...))
	}, nil},
	{"DoUpdate map", mapOf, func(c any) bld { return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(c)) }, nil},
	{"subquery columns", func(r *R) any { return columnList(r) }, func(c any) bld {
		return selT().Where(lk.Condition("id").In(lk.Select(c).From("u")))
	}, moreSelect},
}

// snapshot describes a container with its spare capacity and its nested containers. Capacities of nested bound values
// ([]byte) are not part of it.
func snapshot(c any) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for v.Kind() == reflect.Interface && !v.IsNil() {
			v = v.Elem()
		}
		switch {
		case v.Kind() == reflect.Slice && isContainer(v.Type()):
			fmt.Fprintf(&b, "%s len %d cap %d [", v.Type(), v.Len(), v.Cap())
			full := v.Slice(0, v.Cap())
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i))
				b.WriteString(", ")
			}
			b.WriteString("]")
		case v.Kind() == reflect.Map:
			lines := map[string]bool{}
			for _, k := range v.MapKeys() {
				lines[fmt.Sprintf("%#v: %#v", k.Interface(), v.MapIndex(k).Interface())] = true
			}
			fmt.Fprintf(&b, "%s{%s}", v.Type(), strings.Join(sortedKeys(lines), ", "))
		case v.IsValid() && v.CanInterface():
			fmt.Fprintf(&b, "%#v", v.Interface())
		}
	}
	walk(reflect.ValueOf(c))
	return b.String()
}

func isContainer(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8
}

// scramble overwrites a container: its elements, its spare capacity, its nested containers.
func scramble(c any) int {
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for v.Kind() == reflect.Interface && !v.IsNil() {
			v = v.Elem()
		}
		switch v.Kind() {
		case reflect.Slice:
			if !isContainer(v.Type()) {
				return
			}
			full := v.Slice(0, v.Cap())
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i))
			}
			for i := 0; i < full.Len(); i++ {
				if !scrambleElem(full.Index(i)) {
					full.Index(i).Set(reflect.Zero(full.Type().Elem()))
				}
				n++
			}
		case reflect.Map:
			keys := v.MapKeys()
			for i, k := range keys {
				if i%2 == 0 {
					v.SetMapIndex(k, reflect.Value{})
				} else {
					v.SetMapIndex(k, reflect.ValueOf("SCRAMBLED"))
				}
				n++
			}
			v.SetMapIndex(reflect.ValueOf("scrambled"), reflect.ValueOf("SCRAMBLED"))
		}
	}
	walk(reflect.ValueOf(c))
	return n
}

func scrambleElem(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.String:
		v.SetString("SCRAMBLED")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(99)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(99)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(99)
	case reflect.Interface:
		x := reflect.ValueOf(lk.Raw("SCRAMBLED"))
		if !x.Type().AssignableTo(v.Type()) {
			return false
		}
		v.Set(x)
	case reflect.Struct:
		switch v.Interface().(type) {
		case stmt.Column:
			v.Set(reflect.ValueOf(lk.Column("SCRAMBLED")))
		case stmt.Order:
			v.Set(reflect.ValueOf(lk.Order("SCRAMBLED")))
		case stmt.WithQuery:
			v.Set(reflect.ValueOf(lk.With("SCRAMBLED", lk.Select("SCRAMBLED"))))
		default:
			return false
		}
	default:
		return false
	}
	return true
}

func p08Containers(t *T) {
	api := containerAPIs[t.idx%len(containerAPIs)]
	if t.idx < len(containerAPIs) {
		// Other seeds of the same container.
		_ = api.mk(t.R("warm"))
	}
	make1 := func() any { return api.mk(t.R("container")) }
	r := t.R("how")
	want := api.use(make1())
	wantOut := outcomeOf(want)
	wantMore := ""
	if api.more != nil {
		wantMore = outcomeOf(api.more(want))
	}
	c := make1()
	before := snapshot(c)
	b := api.use(c)
	if after := snapshot(c); after != before {
		t.Fail("%s modified the container it was given:\n  %s\n  %s", api.name, before, after)
	}
	if r.P(50) {
		if out := outcomeOf(b); out != wantOut {
			t.Fail("%s renders differently a second time:\n  %s\n  %s", api.name, wantOut, out)
		}
		if api.more != nil {
			_ = outcomeOf(api.more(b))
		}
		// The container is also used by another statement.
		other := api.use(c)
		_ = outcomeOf(other)
		if after := snapshot(c); after != before {
			t.Fail("%s: a rendering or a later call modified the container given by the caller:\n  %s\n  %s", api.name, before, after)
		}
	}
	t.Ev("containers unmodified", 1)
	t.Ev("containers scrambled", scramble(c))
	if out := outcomeOf(b); out != wantOut {
		t.Fail("%s retained the container of its caller, which was then modified (%s):\n  %s\n  %s", api.name, before, wantOut, out)
	}
	if api.more != nil {
		if out := outcomeOf(api.more(b)); out != wantMore {
			t.Fail("%s retained the container of its caller, seen after more calls (%s):\n  %s\n  %s", api.name, before, wantMore, out)
		}
	}
	t.Distinct(api.name, before)
	t.Sample("%s %s", api.name, before)
}

// p08Reuse gives the same container to several statements, with renderings of all of them.
func p08Reuse(t *T) {
	r := t.R("reuse")
	k := r.N(len(containerAPIs))
	api := containerAPIs[k]
	c := api.mk(t.R("container"))
	before := snapshot(c)
	want := outcomeOf(api.use(api.mk(t.R("container"))))
	var all []bld
	for i := 0; i < 4; i++ {
		b := api.use(c)
		if api.more != nil {
			_ = api.more(b)
		}
		all = append(all, b)
		_ = outcomeOf(all[r.N(len(all))])
	}
	for _, b := range all {
		if out := outcomeOf(b); out != want {
			t.Fail("%s: a container used 4 times gives another statement:\n  %s\n  %s", api.name, want, out)
		}
	}
	if after := snapshot(c); after != before {
		t.Fail("%s modified a container used 4 times:\n  %s\n  %s", api.name, before, after)
	}
	t.Ev("containers unmodified", 1)
	t.Distinct("reuse", api.name, before)
}

// boundContainers are slices and maps which are bound as a single argument where a value is expected.
var boundContainers = []func(r *R) any{
	func(r *R) any { return spare(anyBytes(r), 'S') },
	func(r *R) any { return spare([]byte(anyString(r)), '!') },
	func(r *R) any { return append(make([]byte, 0, r.Range(1, 300)), anyBytes(r)...) },
	func(r *R) any { return lk.Value(spare(anyBytes(r), 'S')) },
	func(r *R) any { return sql.NullString{String: string(anyBytes(r)), Valid: true} },
	func(r *R) any { return spare(anyStrings(r, r.N(4)), "SPARE") },
	func(r *R) any { return spare(repeatGen(r.N(4), func() int64 { return anyInt(r) }), 7) },
	func(r *R) any { return pgtype.FlatArray[string](spare(anyStrings(r, r.N(4)), "SPARE")) },
	func(r *R) any {
		return pgtype.FlatArray[int64](spare(repeatGen(r.N(4), func() int64 { return anyInt(r) }), 7))
	},
	func(r *R) any { return pq.StringArray(spare(anyStrings(r, r.N(4)), "SPARE")) },
	func(r *R) any {
		return pq.Int64Array(spare(repeatGen(r.N(4), func() int64 { return anyInt(r) }), 7))
	},
	func(r *R) any { return map[string]string{"k": anyString(r), anyString(r): ""} },
	func(r *R) any { return map[string]any{"k": anyInt(r), anyString(r): spare(anyBytes(r), 'S')} },
	func(r *R) any { return lk.Value(spare([]int{r.N(9), r.N(9)}, 7)) },
	func(r *R) any { return lk.Value(map[string][]byte{"a": spare(anyBytes(r), 'S')}) },
	func(r *R) any { x := anyTime(r); return &x },
	func(r *R) any { return &valuerP{anyInt(r)} },
	func(r *R) any { return []any{spare(anyBytes(r), 'S')}[0] },
	func(r *R) any { return valuerB(spare(anyBytes(r), 'S')) },
	func(r *R) any { return &encString{anyString(r)} },
}

// valuerB gives its own bytes to whoever asks for them.
type valuerB []byte

func (v valuerB) Value() (driver.Value, error) { return []byte(v), nil }

// deepSnapshot describes a value with everything behind it, and the spare capacity of its slices.
func deepSnapshot(x any) string {
	var b strings.Builder
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(&b, "%s:", v.Type())
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			walk(v.Elem())
		case reflect.Slice:
			fmt.Fprintf(&b, "%d/%d[", v.Len(), v.Cap())
			full := v.Slice(0, v.Cap())
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%x", full.Bytes())
			} else {
				for i := 0; i < full.Len(); i++ {
					walk(full.Index(i))
					b.WriteString(",")
				}
			}
			b.WriteString("]")
		case reflect.Map:
			lines := map[string]bool{}
			for _, k := range v.MapKeys() {
				lines[fmt.Sprintf("%q=%s", k.String(), deepSnapshot(v.MapIndex(k).Interface()))] = true
			}
			fmt.Fprintf(&b, "%q", sortedKeys(lines))
		case reflect.Struct:
			if x, ok := v.Interface().(time.Time); ok {
				fmt.Fprintf(&b, "%#v %p", x, x.Location())
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); f.CanInterface() {
					walk(f)
				}
				b.WriteString(";")
			}
		default:
			fmt.Fprintf(&b, "%q", fmt.Sprint(v.Interface()))
		}
	}
	walk(reflect.ValueOf(x))
	return b.String()
}

// p08Values gives slices and maps where they are single arguments.
func p08Values(t *T) {
	pos := valuePositions[t.idx%len(valuePositions)]
	v := boundContainers[t.idx/len(valuePositions)%len(boundContainers)](t.R("value"))
	before := deepSnapshot(v)
	var b bld
	if o := try(func() { b = pos.build(v) }); o.Panicked {
		t.Ev("values rejected", 1)
		return
	}
	check := func(when string) {
		if after := deepSnapshot(v); after != before {
			t.Fail("%s: %s modified the value given by the caller:\n  %s\n  %s", pos.name, when, before, after)
		}
	}
	check("the call")
	out := outcomeOf(b)
	check("a rendering")
	for i, fn := range []func(){func() { _ = b.String() }, func() { _, _ = b.Query() }, func() { _, _ = b.NamedQuery() }} {
		_ = try(fn)
		check([]string{"String", "Query", "NamedQuery"}[i])
	}
	_ = outcomeOf(pos.build(v))
	if again := outcomeOf(b); again != out {
		t.Fail("%s renders differently later:\n  %s\n  %s", pos.name, out, again)
	}
	check("another use")
	t.Ev("bound containers unmodified", 1)
	t.Distinct("value", pos.name, before)
	t.Sample("%s %s", pos.name, before)
}

// ------------------------------------------------------------------------------------------------------------------ P09

func init() {
	register(&Check{
		ID:   "P09",
		Race: true, Shards: 4,
		Rule: "built with the race detector: 6 goroutines, released together, render, derive from, and reuse the parts of the same builders (made in another " +
			"goroutine, never rendered before), parse textual joins and build from the same containers; results are compared with those of one goroutine alone.",
		Require: []string{"first uses compared", "concurrent results compared", "concurrent renderings", "concurrent derivations", "concurrent joins parsed"},
		Families: []Family{
			{Name: "shared", Quick: 1200, Thorough: 12000, Fn: p09Shared},
			{Name: "append", Quick: len(repeatables) * 24, Thorough: len(repeatables) * 200, Fn: p09Append},
			{Name: "parts", Quick: 600, Thorough: 6000, Fn: p09Parts},
			{Name: "joins", Quick: 400, Thorough: 4000, Fn: p09Joins},
			{Name: "containers", Quick: len(containerAPIs) * 6, Thorough: len(containerAPIs) * 60, Fn: p09Containers},
			{Name: "cold", Quick: 96, Thorough: 1600, Fn: p09Cold},
		},
	})
}

const p09Workers = 6

// together runs fn in several goroutines released at once.
func together(n int, fn func(i int)) []outcome {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	outs := make([]outcome, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			outs[i] = try(func() { fn(i) })
		}(i)
	}
	close(gate)
	wg.Wait()
	return outs
}

func p09Shared(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	kind := kinds4[t.idx%4]
	gen := func() *Prog { return newGen(t, o, "", "", "").Of(kind) }
	p := gen()
	b := p.Build()
	alone := gen().Build()
	extra := func(pl *pool, b bld, i, k int) string {
		if len(pl.steps) == 0 {
			return ""
		}
		s := pl.at((i*7 + k*3) % len(pl.steps))
		var d bld
		if o := try(func() { d = s.Apply(b) }); o.Panicked {
			return o.Msg
		}
		return outcomeOf(d)
	}
	shared := newPool(t, kind, 2, "extra")
	results := make([][]string, p09Workers)
	outs := together(p09Workers, func(i int) {
		r := newR(t.w.seed, uint64(t.idx), uint64(i))
		for k := 0; k < 4; k++ {
			if r.P(50) {
				results[i] = append(results[i], "r"+outcomeOf(b))
			} else {
				results[i] = append(results[i], "d"+strconv.Itoa(k)+"|"+extra(shared, b, i, k))
			}
		}
	})
	for _, o := range outs {
		if o.Panicked {
			t.Fail("a goroutine panicked: %s\n%s\n%s", o.Msg, o.Stack, p.Desc())
		}
	}
	want := outcomeOf(alone)
	fresh := newPool(t, kind, 2, "extra")
	for i := range results {
		for _, s := range results[i] {
			w := "r" + want
			if s[0] == 'd' {
				k := int(s[1] - '0')
				w = "d" + strconv.Itoa(k) + "|" + extra(fresh, alone, i, k)
				t.Ev("concurrent derivations", 1)
			} else {
				t.Ev("concurrent renderings", 3)
			}
			if s != w {
				t.Fail("a goroutine obtained another result than alone:\n  %s\n  %s\n%s", w, s, p.Desc())
			}
			t.Ev("concurrent results compared", 1)
		}
	}
	t.Distinct(p.AST.shape())
	t.Sample("%s", want)
}

func p09Append(t *T) {
	rp := repeatables[t.idx%len(repeatables)]
	length := t.idx / len(repeatables) % 12
	base := func() bld {
		b := rp.start()
		for i := 0; i < length; i++ {
			b = rp.call(b, i)
		}
		return b
	}
	b := base()
	results := make([]string, p09Workers)
	outs := together(p09Workers, func(i int) {
		d := rp.call(b, 100+i)
		d = rp.call(d, 200+i)
		results[i] = outcomeOf(d)
	})
	for i, o := range outs {
		if o.Panicked {
			t.Fail("%s: a goroutine panicked: %s\n%s", rp.name, o.Msg, o.Stack)
		}
		want := outcomeOf(rp.call(rp.call(base(), 100+i), 200+i))
		if results[i] != want {
			t.Fail("%s at length %d: a goroutine obtained another result than alone:\n  %s\n  %s", rp.name, length, want, results[i])
		}
		t.Ev("concurrent results compared", 1)
		t.Ev("concurrent derivations", 1)
	}
	t.Distinct("append", rp.name, strconv.Itoa(length))
}

// p09Parts shares conditions, subqueries, columns and tables.
func p09Parts(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	mk := func() (stmt.Expression, builder.Select, stmt.OnExpression, []stmt.Column, lk.Map) {
		g := newGen(t, o, "", "", "")
		e, _ := g.cond(3)
		g.o.sub = 1
		p, _ := g.subselect()
		on, _ := g.onExpr(2)
		return e, sel(p.Build()), on, []stmt.Column{lk.Column("a"), lk.Column("b").As("c")}, lk.Map{"x": 1, lk.Column("y"): "z"}
	}
	use := func(i int, e stmt.Expression, s builder.Select, on stmt.OnExpression, cols []stmt.Column, m lk.Map) string {
		var b bld
		switch i % 6 {
		case 0:
			b = lk.Select(cols).From("t").Join("j", on).Where(e).And(lk.Condition("x").In(s))
		case 1:
			b = lk.Delete("t").Where(lk.Or(e, lk.Exists(s)))
		case 2:
			b = lk.Update("t").Set(m).Set(lk.Pair("w", i)).Where(e).Returning(cols)
		case 3:
			b = lk.Insert("t").Set(m).OnConflict("x", lk.DoUpdate(m)).Returning(cols)
		case 4:
			b = lk.Select("id").With(lk.With("w", s)).From("w").Join("k", on.And(lk.On("p", "q"))).Having(e)
		default:
			b = lk.Select(cols).From("t").Where(lk.And(e, e)).Or(e).OrderBy(cols[0].Asc(), cols[1].Desc())
		}
		return outcomeOf(b)
	}
	e, s, on, cols, m := mk()
	results := make([]string, p09Workers)
	outs := together(p09Workers, func(i int) { results[i] = use(i, e, s, on, cols, m) })
	e, s, on, cols, m = mk()
	for i := range results {
		if outs[i].Panicked {
			t.Fail("a goroutine panicked: %s\n%s", outs[i].Msg, outs[i].Stack)
		}
		if want := use(i, e, s, on, cols, m); want != results[i] {
			t.Fail("a goroutine obtained another result than alone:\n  %s\n  %s", want, results[i])
		}
		t.Ev("concurrent results compared", 1)
	}
	t.Distinct("parts", results[0])
}

// p09Text varies the letter case of the keywords of a textual join.
func p09Text(r *R, text string) string {
	words := strings.Split(text, " ")
	for i, w := range words {
		if !lexKeywords[w] {
			continue
		}
		b := []byte(w)
		switch r.N(4) {
		case 0:
		case 1:
			b = []byte(strings.ToLower(w))
		default:
			for k := range b {
				if r.P(50) {
					b[k] |= 0x20
				}
			}
		}
		words[i] = string(b)
	}
	return strings.Join(words, " ")
}

// p09ColdWork is what a goroutine of a new process does first.
func p09ColdWork(t *T, i, k int) string {
	o := defaultOpts()
	o.kinds, o.comment, o.extremes = stableKinds, true, false
	g := newGen(&T{w: t.w, fam: t.fam, idx: t.idx*16 + k}, o, "", "", "")
	switch {
	case k%4 == 3:
		r := g.s
		text := "n1 = t.n2 OR n" + strconv.Itoa(r.N(9)) + " = n4 AND n5 = n6"
		text = p09Text(r, pick(r, "INNER JOIN", "LEFT JOIN", "RIGHT JOIN")+" tab ON "+text)
		return outcomeOf(lk.Select("id").From("t").Join(text).Join("u", p09Text(r, "ON a = b AND c = d")))
	case k%4 == 2:
		c := badCalls[g.s.N(len(badCalls))]
		r := t.R("bad" + strconv.Itoa(k))
		rejected := try(func() {
			_ = outcomeOf(c.apply(r, newGen(&T{w: t.w, fam: t.fam, idx: t.idx*16 + k}, o, "", "", "").Of(c.kinds).Build()))
		})
		return fmt.Sprint(rejected.Panicked, rejected.Runtime)
	default:
		return outcomeOf(g.Any().Build())
	}
}

const p09ColdSteps = 8

// p09ColdResults executes the work of all the goroutines of a case, concurrently.
func p09ColdResults(t *T) []string {
	results := make([][]string, p09Workers)
	outs := together(p09Workers, func(i int) {
		for s := 0; s < p09ColdSteps; s++ {
			k := s
			if t.idx%2 == 1 {
				k = (s + i) % p09ColdSteps
			}
			results[i] = append(results[i], fmt.Sprintf("%d %d %016x", i, k, hash64(p09ColdWork(t, i, k))))
		}
	})
	var out []string
	for i := range results {
		if outs[i].Panicked {
			out = append(out, fmt.Sprintf("%d panic %s", i, strings.ReplaceAll(outs[i].Msg, "\n", " ")))
		}
		out = append(out, results[i]...)
	}
	return out
}

// cold is the main function of a process of p09Cold: its first uses of the library are concurrent.
func cold(seed uint64, idx int) {
	w := &W{check: checks["P09"], seed: seed}
	t := &T{w: w, fam: &Family{Name: "cold"}, idx: idx}
	for _, l := range p09ColdResults(t) {
		fmt.Println(l)
	}
}

// p09Cold starts a process whose first uses of the library are concurrent. Its races are reported in the log of this worker.
func p09Cold(t *T) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "cold", strconv.FormatUint(t.w.seed, 10), strconv.Itoa(t.idx))
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err = cmd.Run(); err != nil {
		t.Fail("a process whose first uses of the library are concurrent ended with %v:\n%s", err, clip(stderr.String(), 4000))
	}
	lines := strings.Fields(strings.ReplaceAll(strings.TrimSpace(stdout.String()), " ", "_"))
	if len(lines) != p09Workers*p09ColdSteps {
		t.Fail("a goroutine of a new process failed:\n%s", stdout.String())
	}
	for _, l := range lines {
		var i, k int
		var h string
		if _, err = fmt.Sscanf(strings.ReplaceAll(l, "_", " "), "%d %d %s", &i, &k, &h); err != nil {
			t.Fail("a goroutine of a new process failed:\n%s", stdout.String())
		}
		want := p09ColdWork(t, i, k)
		if w := fmt.Sprintf("%016x", hash64(want)); w != h {
			t.Fail("a goroutine of a new process obtained another result than alone: %s", want)
		}
		t.Ev("concurrent results compared", 1)
		t.Ev("first uses compared", 1)
	}
	t.Distinct("cold", strconv.Itoa(t.idx))
}

func p09Joins(t *T) {
	r := t.R("joins")
	texts := make([]string, p09Workers)
	for i := range texts {
		g := newGen(t, defaultOpts(), "", "", "")
		g.s = t.R("join" + strconv.Itoa(i))
		g.o.part, g.o.qualify = func(r *R) string { return "n" + strconv.Itoa(r.N(99)) }, 40
		_, _, text := g.onChain(g.s.Range(1, 4))
		texts[i] = p09Text(g.s, pick(g.s, "INNER JOIN ", "LEFT JOIN ", "RIGHT JOIN ")+"tab"+strconv.Itoa(i)+" ON "+text)
	}
	b := lk.Select("id").From("t")
	results := make([]string, p09Workers)
	outs := together(p09Workers, func(i int) {
		for k := 0; k < 3; k++ {
			parser.MustParseJoin(texts[i])
			results[i] = outcomeOf(b.Join(texts[i]).Join(texts[(i+1)%p09Workers]))
		}
	})
	for i := range results {
		if outs[i].Panicked {
			t.Fail("a goroutine panicked: %s\n%s\n%s", outs[i].Msg, outs[i].Stack, texts[i])
		}
		want := outcomeOf(lk.Select("id").From("t").Join(texts[i]).Join(texts[(i+1)%p09Workers]))
		if want != results[i] {
			t.Fail("a goroutine obtained another result than alone:\n  %s\n  %s", want, results[i])
		}
		t.Ev("concurrent results compared", 1)
		t.Ev("concurrent joins parsed", 6)
	}
	_ = r
	t.Distinct("joins", texts[0])
}

func p09Containers(t *T) {
	api := containerAPIs[t.idx%len(containerAPIs)]
	c := api.mk(t.R("container"))
	results := make([]string, p09Workers)
	outs := together(p09Workers, func(i int) {
		b := api.use(c)
		if api.more != nil && i%2 == 0 {
			b = api.more(b)
		}
		results[i] = outcomeOf(b)
	})
	for i := range results {
		if outs[i].Panicked {
			t.Fail("%s: a goroutine panicked: %s\n%s", api.name, outs[i].Msg, outs[i].Stack)
		}
		b := api.use(api.mk(t.R("container")))
		if api.more != nil && i%2 == 0 {
			b = api.more(b)
		}
		if want := outcomeOf(b); want != results[i] {
			t.Fail("%s: a goroutine obtained another result than alone:\n  %s\n  %s", api.name, want, results[i])
		}
		t.Ev("concurrent results compared", 1)
	}
	t.Distinct("containers", api.name)
}
