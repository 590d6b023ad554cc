package main

import (
	"fmt"
	"strconv"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P10

func init() {
	register(&Check{
		ID: "P10",
		Rule: "random condition trees (depth up to 6, every operator, list and range, conditions as operands) chained with Where, And, Or, Having and On; the " +
			"text is parsed with PostgreSQL's precedences and associativities and its tree must be the one of the calls; operators are also paired exhaustively.",
		Require: []string{"comparisons in the expected trees", "connectors in the expected trees", "positional renderings compared", "operator pairs", "long conditions"},
		Families: []Family{
			{Name: "huge", Quick: 1000, Thorough: 20000, Fn: hugely(5000, func(t *T) { p10Tree(t, false) })},
			{Name: "coincide", Quick: 6000, Thorough: 300000, Fn: alike(func(t *T) { p10Tree(t, false) })},
			{Name: "where", Quick: 14000, Thorough: 250000, Fn: func(t *T) { p10Tree(t, false) }},
			{Name: "nested operands", Quick: 8000, Thorough: 120000, Fn: func(t *T) { p10Tree(t, true) }},
			{Name: "chains", Quick: 6000, Thorough: 80000, Fn: p10Chain},
			{Name: "on", Quick: 8000, Thorough: 100000, Fn: p10On},
			{Name: "long", Quick: p10LongForms * len(p10Lengths), Thorough: p10LongForms * len(p10Lengths) * 3, Fn: p10Long},
			{Name: "lists", Quick: 2 * sizeCount * 14, Thorough: 8 * sizeCount * 14, Fn: p10Lists},
			{Name: "parameters", Quick: 40, Thorough: 400, Fn: p10Parameters},
			{Name: "pairs", Quick: len(pairForms) * len(pairForms) * 10, Thorough: len(pairForms) * len(pairForms) * 10, Fn: p10Pairs},
		},
	})
}

func condOpts() Opts {
	o := defaultOpts()
	o.kinds = []string{"string", "int", "bool", "nil", "float64", "time", "bytes", "int64"}
	return o
}

func (t *T) countTree(n *N) {
	for _, k := range []string{"cmp", "in", "between", "exists", "notexists"} {
		t.Ev("comparisons in the expected trees", len(n.find(k)))
	}
	for _, k := range []string{"and", "or"} {
		t.Ev("connectors in the expected trees", len(n.find(k)))
	}
}

func tableT() *N { return nd("table", "", idOf("t")) }

func whereProg(kind string, c *N) (*Prog, string) {
	switch kind {
	case "select":
		return &Prog{Kind: kind, AST: nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()), nd("where", "", c))}, ""
	case "having":
		return &Prog{Kind: "select", AST: nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()), nd("having", "", c))}, ""
	case "delete":
		return &Prog{Kind: kind, AST: nd("delete", "", nd("from", "", tableT()), nd("where", "", c))}, ""
	}
	return &Prog{Kind: "update", AST: nd("update", "", tableT(), nd("set", "pairs", nd("assign", nameKey("x"), mustExpr("1"))), nd("where", "", c))}, ""
}

var condPlaces = []string{"select", "having", "delete", "update"}

func whereStart(kind string) bld {
	switch kind {
	case "select", "having":
		return lk.Select("id").From("t")
	case "delete":
		return lk.Delete("t")
	}
	return lk.Update("t").Set(lk.Pair("x", lk.Raw("1")))
}

func whereCall(kind string, b bld, call string, e stmt.Expression) bld {
	switch kind {
	case "having":
		return sel(b).Having(e)
	case "select":
		switch call {
		case "And":
			return sel(b).And(e)
		case "Or":
			return sel(b).Or(e)
		}
		return sel(b).Where(e)
	case "delete":
		switch call {
		case "And":
			return del(b).And(e)
		case "Or":
			return del(b).Or(e)
		}
		return del(b).Where(e)
	}
	switch call {
	case "And":
		return upd(b).And(e)
	case "Or":
		return upd(b).Or(e)
	}
	return upd(b).Where(e)
}

func p10Tree(t *T, nest bool) {
	o := condOpts()
	o.sub = 1
	if nest {
		o.nest = 25
	}
	g := newGen(t, o, "", "", "")
	place := condPlaces[t.idx%4]
	e, n := g.cond(g.s.Range(1, 6))
	p, _ := whereProg(place, n)
	p.SDesc = place + ": " + n.String()
	b := whereCall(place, whereStart(place), "Where", e)
	t.conform(p, b, modePositional, modeInline)
	t.countTree(n)
	t.Distinct(n.shape())
	t.Sample("%s", b.String())
}

func p10Chain(t *T) {
	o := condOpts()
	o.sub, o.depth = 1, 2
	g := newGen(t, o, "", "", "")
	place := []string{"select", "delete", "update"}[t.idx%3]
	b := whereStart(place)
	var n *N
	desc := place
	for i, c := 0, g.s.Size(1, 9); i < c; i++ {
		e, en := g.cond(g.s.N(3))
		call := "Where"
		if i > 0 {
			call = pick(g.s, "And", "Or", "Where")
		}
		desc += "\n ." + call + "(" + en.String() + ")"
		b = whereCall(place, b, call, e)
		switch {
		case i == 0:
			n = en
		case call == "Or":
			n = nd("or", "", n, en)
		default:
			n = nd("and", "", n, en)
		}
	}
	p, _ := whereProg(place, n)
	p.SDesc = desc
	t.conform(p, b, modePositional, modeNamed)
	t.countTree(n)
	t.Distinct("chain", n.shape())
}

func p10On(t *T) {
	g := newGen(t, condOpts(), "", "", "")
	s := lk.Select("id").From("t")
	ast := nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()))
	desc := ""
	for i, c := 0, g.s.Size(1, 3); i < c; i++ {
		on, n := g.onExpr(g.s.Range(1, 5))
		jt := joinTypes[g.s.N(len(joinTypes))]
		tab := "j" + strconv.Itoa(i)
		s = s.Join(tab, on, jt)
		ast.add(nd("join", string(jt), nd("table", "", idOf(tab)), n))
		desc += "\n .Join(" + tab + ", " + n.String() + ", " + string(jt) + ")"
		t.countTree(n)
		t.Distinct("on", n.shape())
	}
	t.conform(&Prog{Kind: "select", AST: ast, SDesc: desc}, s, modePositional)
}

// p10Lengths are the numbers of elements and of operands tried: every small one, and those around powers of 2 and 10.
var p10Lengths = func() []int {
	var out []int
	for i := 1; i <= 300; i++ {
		out = append(out, i)
	}
	return append(out, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000)
}()

const p10LongForms = 7

// p10Long: long lists, long chains and deep trees.
func p10Long(t *T) {
	n := p10Lengths[t.idx/p10LongForms%len(p10Lengths)]
	form := t.idx % p10LongForms
	r := t.R("long")
	place := pick(r, condPlaces...)
	num := func(i int) *N { v := val(i); return valNode(&v) }
	eq := func(i int) (stmt.Expression, *N) {
		name := pick(r, "a", "b", "c") + strconv.Itoa(i%10)
		return lk.Condition(name).Equal(i), nd("cmp", "=", idOf(name), num(i))
	}
	var e stmt.Expression
	var c *N
	b := whereStart(place)
	switch form {
	case 0, 1: // a list
		l, vals := nd("list", ""), make([]any, n)
		for i := range vals {
			vals[i] = r.N(1000)
			l.add(num(vals[i].(int)))
		}
		x := lk.Condition("a")
		if form == 0 {
			e, c = x.In(vals), nd("in", "", idOf("a"), l)
			if r.P(50) {
				e = x.In(vals...)
			}
		} else {
			e, c = x.NotIn(vals), nd("in", "NOT ", idOf("a"), l)
			if r.P(50) {
				e = x.NotIn(vals...)
			}
		}
		if r.P(50) {
			z, zn := eq(1)
			if r.P(50) {
				e, c = lk.And(e, z), nd("and", "", c, zn)
			} else {
				e, c = lk.Or(z, e), nd("or", "", zn, c)
			}
		}
		b = whereCall(place, b, "Where", e)
	case 2: // chained on the builder
		if place == "having" {
			place = "select"
			b = whereStart(place)
		}
		for i := 0; i < n; i++ {
			e, en := eq(i)
			call := pick(r, "And", "Or", "Where")
			if i == 0 {
				call = "Where"
			}
			b = whereCall(place, b, call, e)
			switch {
			case i == 0:
				c = en
			case call == "Or":
				c = nd("or", "", c, en)
			default:
				c = nd("and", "", c, en)
			}
		}
	case 3, 4: // chained on expressions, on the left or on the right
		e, c = eq(0)
		for i := 1; i < n; i++ {
			x, xn := eq(i)
			k := "and"
			f := lk.And
			if r.P(50) {
				k, f = "or", lk.Or
			}
			if form == 3 {
				e, c = f(e, x), nd(k, "", c, xn)
			} else {
				e, c = f(x, e), nd(k, "", xn, c)
			}
		}
		b = whereCall(place, b, "Where", e)
	case 5: // a balanced tree
		type node struct {
			e stmt.Expression
			c *N
		}
		var tree func(lo, hi int) node
		tree = func(lo, hi int) node {
			if hi-lo == 1 {
				e, c := eq(lo)
				return node{e, c}
			}
			mid := lo + 1 + r.N(hi-lo-1)
			x, y := tree(lo, mid), tree(mid, hi)
			if r.P(50) {
				return node{lk.And(x.e, y.e), nd("and", "", x.c, y.c)}
			}
			return node{lk.Or(x.e, y.e), nd("or", "", x.c, y.c)}
		}
		root := tree(0, n)
		c = root.c
		b = whereCall(place, b, "Where", root.e)
	case 6: // a join condition
		cols := func(i int) (stmt.OnClause, *N) {
			l, rr := "t.a"+strconv.Itoa(i%10), "j.b"+strconv.Itoa(i%7)
			return lk.On(l, rr), nd("cmp", "=", idOf(l), idOf(rr))
		}
		first, fn := cols(0)
		var on stmt.OnExpression = first
		c = fn
		for i := 1; i < n; i++ {
			x, xn := cols(i)
			if r.P(50) {
				on, c = on.And(x), nd("and", "", c, xn)
			} else {
				on, c = on.Or(x), nd("or", "", c, xn)
			}
		}
		ast := nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()), nd("join", "INNER JOIN", nd("table", "", idOf("j")), c))
		t.conform(&Prog{Kind: "select", AST: ast, SDesc: fmt.Sprintf("%d join conditions", n)}, lk.Select("id").From("t").Join("j", on), modePositional)
		t.Ev("long conditions", 1)
		t.Distinct("long", strconv.Itoa(form), strconv.Itoa(n))
		return
	}
	p, _ := whereProg(place, c)
	p.SDesc = fmt.Sprintf("%s: form %d of %d operands", place, form, n)
	t.conform(p, b, pick(r, modePositional, modeNamed, modeInline))
	t.Ev("long conditions", 1)
	t.Distinct("long", strconv.Itoa(form), strconv.Itoa(n), c.shape())
}

// p10Lists: lists of every type and size, given in every way.
func p10Lists(t *T) { p10List(t, sizeOf(t.idx/14), t.idx%14) }

// p10Parameters: lists around the number of parameters of a statement which PostgreSQL accepts, and further.
func p10Parameters(t *T) {
	r := t.R("count")
	p10List(t, pick(r, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 16385, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 70000), r.N(14))
}

func p10List(t *T, n, kind int) {
	p, b := listProg(t, n, kind)
	t.conform(p, b, modePositional, modeNamed, modeInline)
	t.Ev("lists", 1)
	t.Distinct("list", p.SDesc)
}

// listProg is a statement with a condition on a list of n elements.
func listProg(t *T, n, kind int) (*Prog, bld) {
	r := t.R("list")
	list := typedListOf(r, n, kind)
	elems := anyList(list)
	l := nd("list", "")
	for _, x := range elems {
		v := val(x)
		l.add(valNode(&v))
	}
	given := []any{list}
	if r.P(30) {
		given = elems
	}
	not := r.P(50)
	var e stmt.Expression
	var left *N
	switch r.N(4) {
	case 0:
		f := stmt.NewCall("f", lk.Raw("a"))
		e, left = f.In(given...), nd("call", nameKey("f"), idOf("a"))
		not = false
	case 1:
		array := stmt.NewArrayExpression(given...)
		left = idOf("t.a")
		if not {
			e = stmt.NewNotIn(lk.Condition("t.a"), array)
		} else {
			e = stmt.NewIn(lk.Condition("t.a"), array)
		}
	default:
		left = idOf("a")
		if not {
			e = lk.Condition("a").NotIn(given...)
		} else {
			e = lk.Condition("a").In(given...)
		}
	}
	op := ""
	if not {
		op = "NOT "
	}
	c := nd("in", op, left, l)
	z, zn := lk.Condition("z").Equal(1), func() *N { v := val(1); return nd("cmp", "=", idOf("z"), valNode(&v)) }()
	switch r.N(5) {
	case 0:
		e, c = lk.And(e, z), nd("and", "", c, zn)
	case 1:
		e, c = lk.Or(z, e), nd("or", "", zn, c)
	case 2:
		e, c = e.(stmt.In).Or(z), nd("or", "", c, zn)
	}
	place := pick(r, condPlaces...)
	b := whereCall(place, whereStart(place), "Where", e)
	p, _ := whereProg(place, c)
	p.SDesc = fmt.Sprintf("%s: %sIN %d elements of %T", place, op, n, list)
	return p, b
}

// pairForms are all the conditions on a name.
type pairForm struct {
	name string
	fn   func(i string) (stmt.Expression, *N)
}

var pairForms = func() []pairForm {
	var out []pairForm
	v := func(x any) *N { y := val(x); return valNode(&y) }
	for _, op := range identOps {
		op := op
		out = append(out, pairForm{op.op, func(i string) (stmt.Expression, *N) {
			return op.fn(lk.Condition(i), 1), nd("cmp", op.op, idOf(i), v(1))
		}})
	}
	out = append(out,
		pairForm{"in", func(i string) (stmt.Expression, *N) {
			return lk.Condition(i).In(1, 2), nd("in", "", idOf(i), nd("list", "", v(1), v(2)))
		}},
		pairForm{"not in", func(i string) (stmt.Expression, *N) {
			return lk.Condition(i).NotIn([]int{1}), nd("in", "NOT ", idOf(i), nd("list", "", v(1)))
		}},
		pairForm{"between", func(i string) (stmt.Expression, *N) {
			return lk.Condition(i).Between(1, 2), nd("between", "", idOf(i), v(1), v(2))
		}},
		pairForm{"not between", func(i string) (stmt.Expression, *N) {
			return lk.Condition(i).NotBetween(1, 2), nd("between", "NOT ", idOf(i), v(1), v(2))
		}},
		pairForm{"is null", func(i string) (stmt.Expression, *N) {
			return lk.Condition(i).IsNull(true), nd("cmp", "IS", idOf(i), nd("null", ""))
		}},
		pairForm{"is not null", func(i string) (stmt.Expression, *N) {
			return lk.Condition(i).IsNull(false), nd("cmp", "IS NOT", idOf(i), nd("null", ""))
		}},
		pairForm{"exists", func(i string) (stmt.Expression, *N) {
			return lk.Exists(lk.Select(i)), nd("exists", "", nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf(i))))))
		}},
		pairForm{"not exists", func(i string) (stmt.Expression, *N) {
			return lk.NotExists(lk.Select(i)), nd("notexists", "", nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf(i))))))
		}},
		pairForm{"and", func(i string) (stmt.Expression, *N) {
			return lk.And(lk.Condition(i).Equal(1), lk.Condition("z").Equal(2)), nd("and", "", nd("cmp", "=", idOf(i), v(1)), nd("cmp", "=", idOf("z"), v(2)))
		}},
		pairForm{"or", func(i string) (stmt.Expression, *N) {
			return lk.Or(lk.Condition(i).Equal(1), lk.Condition("z").Equal(2)), nd("or", "", nd("cmp", "=", idOf(i), v(1)), nd("cmp", "=", idOf("z"), v(2)))
		}},
		pairForm{"boolean column", func(i string) (stmt.Expression, *N) { return lk.Condition(i), idOf(i) }},
		pairForm{"call", func(i string) (stmt.Expression, *N) {
			return stmt.NewCall("f", stmt.NewExpression(1)), nd("call", nameKey("f"), v(1))
		}},
	)
	return out
}()

// p10Pairs joins every two forms in every way.
func p10Pairs(t *T) {
	k := len(pairForms)
	way := t.idx / (k * k)
	fa, fb := pairForms[t.idx/k%k], pairForms[t.idx%k]
	a, an := fa.fn("a")
	b, bn := fb.fn("b")
	and := nd("and", "", an, bn)
	or := nd("or", "", an, bn)
	base := lk.Select("id").From("t")
	var q bld
	var n *N
	switch way {
	case 0:
		q, n = base.Where(lk.And(a, b)), and
	case 1:
		q, n = base.Where(lk.Or(a, b)), or
	case 2:
		q, n = base.Where(a).And(b), and
	case 3:
		q, n = base.Where(a).Or(b), or
	case 4:
		q, n = base.Where(a).Where(b), and
	case 5, 6, 7, 8:
		x, ok := a.(stmt.InfixExpression)
		y, ok2 := a.(stmt.In)
		switch {
		case ok && way == 5:
			q, n = base.Where(x.And(b)), and
		case ok && way == 6:
			q, n = base.Where(x.Or(b)), or
		case ok && way == 7:
			q, n = base.Where(x.Or(b).And(a)), nd("and", "", or, an)
		case ok:
			q, n = base.Where(x.And(b).Or(a)), nd("or", "", and, an)
		case ok2 && way == 5:
			q, n = base.Where(y.And(b)), and
		case ok2 && way == 6:
			q, n = base.Where(y.Or(b)), or
		case ok2 && way == 7:
			q, n = base.Where(y.Or(b).And(a)), nd("and", "", or, an)
		case ok2:
			q, n = base.Where(y.And(b).Or(a)), nd("or", "", and, an)
		default:
			return
		}
	case 9:
		q, n = base.Where(lk.Or(b, lk.And(a, lk.Or(b, a)))), nd("or", "", bn, nd("and", "", an, nd("or", "", bn, an)))
	}
	p, _ := whereProg("select", n)
	p.SDesc = fmt.Sprintf("%s, %s, way %d", fa.name, fb.name, way)
	t.conform(p, q, modePositional)
	t.Ev("operator pairs", 1)
	t.countTree(n)
	t.Distinct(p.SDesc)
}

// -------------------------------------------------------------------------------------------------------------- P11 - P14

func clauseCheck(id, kind, rule string, require []string, extra ...Family) {
	name := "clauses of a " + kind
	any := func(t *T) {
		o := defaultOpts()
		o.comment, o.extremes = true, true
		o.kinds = stableLitKinds
		p := newGen(t, o, "", "", "").Of(kind)
		clauseConform(t, p, name)
	}
	huge := 800
	if fastQuick[id] {
		huge = 80
	}
	fams := []Family{
		{Name: "any", Quick: 14000, Thorough: 250000, Fn: any},
		{Name: "huge", Quick: huge, Thorough: 12000, Fn: hugely(5000, any)},
		{Name: "coincide", Quick: 6000, Thorough: 300000, Fn: alike(any)},
		{Name: "canonical", Quick: 3000, Thorough: 40000, Fn: func(t *T) {
			// Each part in its simplest spelling, without subqueries.
			o := defaultOpts()
			o.spell, o.sub = false, 0
			o.kinds = stableLitKinds
			p := newGen(t, o, "", "", "").Of(kind)
			clauseConform(t, p, name)
		}},
		{Name: "deep", Quick: 1500, Thorough: 20000, Fn: func(t *T) {
			o := defaultOpts()
			o.sub, o.depth, o.comment = 4, 4, true
			o.kinds = []string{"int", "string", "nil"}
			p := newGen(t, o, "", "", "").Of(kind)
			clauseConform(t, p, name)
		}},
	}
	register(&Check{ID: id, Rule: rule, Require: append([]string{name, "positional renderings compared", "inlined renderings compared"}, require...), Families: append(fams, extra...)})
}

// maskFamily enumerates the sets of clauses of a statement.
func maskFamily(kind string, bits, quick, thorough int) Family {
	n := 1 << bits
	return Family{Name: "masks", Quick: n * quick, Thorough: n * thorough, Fn: func(t *T) {
		o := defaultOpts()
		o.mask = t.idx%n | 1<<30
		o.sub = 1 + t.idx/n%2
		o.comment = true
		o.kinds = []string{"int", "string", "nil"}
		p := newGen(t, o, "", "", "").Of(kind)
		clauseConform(t, p, "clauses of a "+kind)
		t.Ev("clause masks", 1)
	}}
}

func clauseConform(t *T, p *Prog, name string) {
	b := p.Build()
	modes := []int{modePositional, modeInline}
	if t.idx%5 == 0 {
		modes = append(modes, modeNamed)
	}
	t.conform(p, b, modes...)
	t.Ev(name, len(p.AST.C))
	for _, c := range p.AST.C {
		k := c.K
		if k == "join" || k == "conflict" || k == "set" {
			k += " " + c.T
		}
		t.Ev("clause "+k, 1)
	}
	t.Distinct(p.AST.shape())
	t.Sample("%s", b.String())
}

func init() {
	clauseCheck("P11", "select", "random selects compared with the tree of their calls: any subset of the 14 optional clauses (the 16384 subsets are enumerated), any element in any "+
		"documented spelling, subqueries; the text is read by an independent parser of PostgreSQL's grammar. Non trivial cases are counted by their skeleton.",
		[]string{"clause masks", "clause join LEFT OUTER JOIN", "clause join RIGHT OUTER JOIN", "clause orderby", "clause suffix", "clause prefix", "clause distincton", "clause with", "clause having"},
		maskFamily("select", 14, 1, 4),
		Family{Name: "items", Quick: 3000, Thorough: 30000, Fn: p11Items},
		Family{Name: "long", Quick: 400, Thorough: 4000, Fn: p11Long},
		sizesFamily("select", 2),
	)
	clauseCheck("P12", "insert", "random inserts compared with the tree of their calls: Set or columns and values in every form, conflict targets and actions, returning; every "+
		"combination of conflict target size, action and other clauses is enumerated.",
		[]string{"clause conflict nothing", "clause conflict update", "clause returning", "conflict forms"},
		maskFamily("insert", 5, 30, 300),
		Family{Name: "conflicts", Quick: 5000, Thorough: 60000, Fn: p12Conflicts},
		sizesFamily("insert", 2),
	)
	clauseCheck("P13", "update", "random updates compared with the tree of their calls: ONLY, CTEs, pairs, column lists with expressions or a subquery, FROM, conditions, RETURNING.",
		[]string{"clause set pairs", "clause set list", "clause from", "clause returning", "clause with", "column lists"},
		maskFamily("update", 7, 12, 100),
		Family{Name: "lists", Quick: 4000, Thorough: 40000, Fn: p13Lists},
		sizesFamily("update", 3),
	)
	clauseCheck("P14", "delete", "random deletes compared with the tree of their calls: several targets, ONLY and aliases, USING, conditions, RETURNING.",
		[]string{"clause using", "clause where", "clause returning", "delete forms"},
		maskFamily("delete", 4, 60, 600),
		Family{Name: "forms", Quick: 4000, Thorough: 40000, Fn: p14Forms},
		sizesFamily("delete", 3),
	)
}

// p11Items checks each kind of select item, alone and among others, with and without alias.
func p11Items(t *T) {
	r := t.R("items")
	type item struct {
		arg any
		n   *N
	}
	alias := func() (string, string) {
		if r.P(40) {
			return "", ""
		}
		a := pick(r, "total", "cnt", "x1", "a_b")
		return a, strconv.Quote(a)
	}
	mk := func() item {
		f := pick(r, "id", "t.amount", "a + b", "coalesce(x, 0)")
		a, qa := alias()
		agg := func(fn string, arg any) item { return item{arg, nd("item", qa, mustExpr(fn))} }
		switch r.N(11) {
		case 0:
			return agg("COUNT("+f+")", lk.Count(f).As(a))
		case 1:
			return agg("COUNT(DISTINCT "+f+")", lk.Count(f).Distinct(true).As(a))
		case 2:
			return agg("COUNT(DISTINCT "+f+")", lk.Count(f).As(a).Distinct(true))
		case 3:
			return agg("COUNT("+f+")", lk.Count(f).Distinct(true).Distinct(false).As(a))
		case 4:
			return agg("MAX("+f+")", lk.Max(f).As(a))
		case 5:
			return agg("MIN("+f+")", lk.Min(f).As(a))
		case 6:
			return agg("SUM("+f+")", lk.Sum(f).As(a))
		case 7:
			n := benignPart(r)
			if a == "" {
				return item{n, nd("item", "", idOf(n))}
			}
			return item{lk.Column(n).As(a), nd("item", qa, idOf(n))}
		case 8:
			return item{lk.Raw(f), nd("item", "", mustExpr(f))}
		case 9:
			return item{"*", nd("item", "", nd("star", ""))}
		default:
			return item{lk.Exists(lk.Select("x").From("t")), nd("item", "", nd("exists", "", nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf("x"))), nd("from", "", tableT())))))}
		}
	}
	var args []any
	cols := nd("columns", "")
	for i, c := 0, r.Size(1, 7); i < c; i++ {
		it := mk()
		args, cols = append(args, it.arg), cols.add(it.n)
	}
	ret := nd("returning", "", cols.C...)
	var b bld
	p := &Prog{SDesc: briefArgs(args)}
	switch t.idx % 4 {
	case 0, 1:
		b, p.Kind, p.AST = lk.Select(args...).From("t"), "select", nd("select", "", cols, nd("from", "", tableT()))
	case 2:
		b, p.Kind, p.AST = lk.Delete("t").Returning(args...), "delete", nd("delete", "", nd("from", "", tableT()), ret)
	case 3:
		b, p.Kind, p.AST = lk.Insert("t").Values(lk.Raw("1")).Returning(args...), "insert", nd("insert", "", tableT(), nd("values", "", nd("vrow", "", mustExpr("1"))), ret)
	}
	t.conform(p, b, modePositional)
	t.Distinct("items", p.AST.String())
}

// p11Long has long clauses.
func p11Long(t *T) {
	r := t.R("long")
	n := pick(r, 10, 33, 64, 100, 257)
	s := builder.NewSelect()
	var cols, orders, froms, groups []any
	ast := nd("select", "")
	cn, fn, gn, on := nd("columns", ""), nd("from", ""), nd("groupby", ""), nd("orderby", "")
	wn := nd("with", "")
	for i := 0; i < n; i++ {
		c := "c" + strconv.Itoa(i)
		cols, cn = append(cols, c), cn.add(nd("item", "", idOf(c)))
		f := "f" + strconv.Itoa(i)
		froms, fn = append(froms, f), fn.add(nd("table", "", idOf(f)))
		g := "g" + strconv.Itoa(i)
		groups, gn = append(groups, g), gn.add(idOf(g))
		o := "o" + strconv.Itoa(i)
		dir := pick(r, types.Asc, types.Desc)
		s = s.OrderBy(lk.Order(o, dir))
		on.add(nd("order", string(dir), mustExpr(o)))
		w := "w" + strconv.Itoa(i)
		s = s.With(lk.With(w, lk.Select(c)))
		wn.add(nd("cte", nameKey(w), nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf(c)))))))
	}
	s = s.Columns(cols...).From(froms...).GroupBy(groups...)
	ast.add(wn, cn, fn)
	for i := 0; i < n; i++ {
		jt := joinTypes[r.N(len(joinTypes))]
		j := "j" + strconv.Itoa(i)
		s = s.Join(j, lk.On("a"+strconv.Itoa(i), "b"), jt)
		ast.add(nd("join", string(jt), nd("table", "", idOf(j)), nd("cmp", "=", idOf("a"+strconv.Itoa(i)), idOf("b"))))
	}
	ast.add(gn, on)
	_ = orders
	t.conform(&Prog{Kind: "select", AST: ast, SDesc: fmt.Sprintf("%d elements of each clause", n)}, s, modePositional)
	t.Distinct("long", strconv.Itoa(n), ast.shape())
}

func assignN(name string, v *N) *N { return nd("assign", nameKey(name), v) }

// p12Conflicts combines every conflict form with the other clauses.
func p12Conflicts(t *T) {
	r := t.R("conflict")
	targets := t.idx % 5
	action := t.idx / 5 % 3 // nothing, update with pairs, update with expressions
	if action > 0 && targets == 0 {
		targets = 1
	}
	hasReturning := t.idx/15%2 == 1
	order := t.idx / 30 % 3
	b := lk.Insert("t")
	ast := nd("insert", "", tableT())
	useSet := r.P(40)
	v := makeVal("int", r)
	calls := map[string]func(b builder.Insert) builder.Insert{}
	if useSet {
		calls["values"] = func(b builder.Insert) builder.Insert { return b.Set(lk.Pair("a", v.In), lk.Pair("b", nil)) }
		ast.add(nd("columns", "", idOf("a"), idOf("b")), nd("values", "", nd("vrow", "", valNode(v), valNode(&Val{Null: true}))))
	} else {
		calls["values"] = func(b builder.Insert) builder.Insert { return b.Columns("a", "b").Values(v.In, nil) }
		ast.add(nd("columns", "", idOf("a"), idOf("b")), nd("values", "", nd("vrow", "", valNode(v), valNode(&Val{Null: true}))))
	}
	conflict := nd("conflict", "nothing")
	var args []any
	if targets > 0 {
		tn := nd("target", "")
		for i := 0; i < targets; i++ {
			name := "k" + strconv.Itoa(i)
			tn.add(idOf(name))
			if r.P(50) {
				args = append(args, name)
			} else {
				args = append(args, lk.Column(name))
			}
		}
		conflict.add(tn)
	}
	switch action {
	case 0:
		args = append(args, lk.DoNothing())
	case 1:
		conflict.T = "update"
		x := makeVal(pick(r, "string", "int", "bool", "nil"), r)
		args = append(args, lk.DoUpdate(lk.Pair("a", x.In)))
		conflict.add(nd("set", "pairs", assignN("a", valNode(x))))
	case 2:
		conflict.T = "update"
		x := makeVal("string", r)
		args = append(args, lk.DoUpdate(lk.Map{"b": x.In, lk.Column("c"): lk.Raw("EXCLUDED.c")}, lk.Pair("a", lk.Select("m").From("t"))))
		sub := nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf("m"))), nd("from", "", tableT())))
		conflict.add(nd("set", "pairs", assignN("a", sub), assignN("b", valNode(x)), assignN("c", mustExpr("EXCLUDED.c"))))
	}
	calls["conflict"] = func(b builder.Insert) builder.Insert { return b.OnConflict(args...) }
	ast.add(conflict)
	if hasReturning {
		calls["returning"] = func(b builder.Insert) builder.Insert { return b.Returning("id", lk.Column("x").As("y")) }
		ast.add(nd("returning", "", nd("item", "", idOf("id")), nd("item", strconv.Quote("y"), idOf("x"))))
	}
	keys := sortedKeys(calls)
	for i := 0; i < order; i++ {
		keys = append(keys[1:], keys[0])
	}
	for _, k := range keys {
		b = calls[k](b)
	}
	p := &Prog{Kind: "insert", AST: ast, SDesc: fmt.Sprintf("targets=%d action=%d returning=%v order=%v args=%s", targets, action, hasReturning, keys, briefArgs(args))}
	t.conform(p, b, modePositional, modeInline)
	t.Ev("conflict forms", 1)
	t.Distinct("conflict", p.SDesc)
}

// p13Lists checks SET (columns) = (expressions | subquery), and pairs with every kind of value.
func p13Lists(t *T) {
	r := t.R("lists")
	n := 1 + t.idx%6
	form := t.idx / 6 % 4
	only := r.P(30)
	tab := tableT()
	b := lk.Update("t")
	if only {
		tab.T = "only"
	}
	ast := nd("update", "", tab)
	targets := nd("targets", "")
	var names []any
	for i := 0; i < n; i++ {
		name := "c" + strconv.Itoa(n-i)
		targets.add(idOf(name))
		names = append(names, name)
	}
	set := nd("set", "list", targets)
	var using []any
	switch form {
	case 0: // values
		l := nd("list", "")
		for i := 0; i < n; i++ {
			v := makeVal(stableLitKinds[r.N(len(stableLitKinds))], r)
			using, l = append(using, v.In), l.add(valNode(v))
		}
		set.add(l)
	case 1: // one subquery
		x := makeVal("int", r)
		using = []any{lk.Select("a").From("u").Where(lk.Condition("x").Equal(x.In))}
		set.add(nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf("a"))), nd("from", "", nd("table", "", idOf("u"))),
			nd("where", "", nd("cmp", "=", idOf("x"), valNode(x))))))
	case 2: // mixed
		l := nd("list", "")
		for i := 0; i < n; i++ {
			switch r.N(3) {
			case 0:
				using, l = append(using, lk.Raw("NOW()")), l.add(mustExpr("NOW()"))
			case 1:
				v := makeVal("string", r)
				using, l = append(using, v.In), l.add(valNode(v))
			default:
				using, l = append(using, stmt.NewCall("f", lk.Condition("z"))), l.add(nd("call", nameKey("f"), idOf("z")))
			}
		}
		set.add(l)
	case 3: // subqueries as elements
		l := nd("list", "")
		if n == 1 {
			using, l = append(using, lk.Raw("1")), l.add(mustExpr("1"))
		} else {
			for i := 0; i < n; i++ {
				using = append(using, lk.Select("s"+strconv.Itoa(i)))
				l.add(nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf("s"+strconv.Itoa(i)))))))
			}
		}
		set.add(l)
	}
	steps := []func(){
		func() { b = b.Set(names...).Using(using...) },
		func() { b = b.Where(lk.Condition("id").Equal(7)) },
		func() {
			if only {
				b = b.Only()
			}
		},
		func() { b = b.From("u") },
		func() { b = b.Returning("*") },
	}
	shuffle(r, steps)
	for _, s := range steps {
		s()
	}
	seven := val(7)
	ast.add(set, nd("from", "", nd("table", "", idOf("u"))), nd("where", "", nd("cmp", "=", idOf("id"), valNode(&seven))),
		nd("returning", "", nd("item", "", nd("star", ""))))
	p := &Prog{Kind: "update", AST: ast, SDesc: fmt.Sprintf("form=%d n=%d only=%v using=%s", form, n, only, briefArgs(using))}
	t.conform(p, b, modePositional, modeInline)
	t.Ev("column lists", 1)
	t.Distinct("list", p.AST.shape())
}

func p14Forms(t *T) {
	r := t.R("forms")
	mk := func(allowOnly bool) (any, *N) {
		name := benignPart(r)
		if r.P(30) {
			name += "." + benignPart(r)
		}
		n := nd("table", "", idOf(name))
		tb := lk.Table(name)
		plain := true
		only := allowOnly && r.P(30)
		al := r.P(40)
		alias := benignPart(r)
		if only && r.P(50) {
			tb, plain, n.T = tb.Only(), false, "only"
			only = false
		}
		if al {
			tb, plain = tb.As(alias), false
			n.add(nd("alias", strconv.Quote(alias)))
		}
		if only {
			tb, plain, n.T = tb.Only(), false, "only"
		}
		if plain && r.P(60) {
			return name, n
		}
		return tb, n
	}
	ast := nd("delete", "")
	a, an := mk(true)
	ast.add(nd("from", "", an))
	b := lk.Delete(a)
	var uargs []any
	un := nd("using", "")
	var steps []func()
	if c := r.N(5); c > 0 {
		for i := 0; i < c; i++ {
			x, xn := mk(false)
			uargs, un = append(uargs, x), un.add(xn)
		}
		steps = append(steps, func() { b = b.Using(uargs...) })
		ast.add(un)
	}
	var conds []string
	if c := r.N(4); c > 0 {
		var n *N
		steps = append(steps, func() {
			for i := 0; i < c; i++ {
				v := makeVal("int", r)
				cn := nd("cmp", "=", idOf("c"+strconv.Itoa(i)), valNode(v))
				e := lk.Condition("c" + strconv.Itoa(i)).Equal(v.In)
				switch k := r.N(3); {
				case i == 0:
					b, n = b.Where(e), cn
				case k == 0:
					b, n = b.Or(e), nd("or", "", n, cn)
				case k == 1:
					b, n = b.And(e), nd("and", "", n, cn)
				default:
					b, n = b.Where(e), nd("and", "", n, cn)
				}
			}
			conds = append(conds, n.String())
		})
		w := nd("where", "")
		ast.add(w)
		inner := steps[len(steps)-1]
		steps[len(steps)-1] = func() { inner(); w.add(n) }
	}
	if r.P(50) {
		steps = append(steps, func() { b = b.Returning("id", lk.Column("x").As("y"), lk.Count("*")) })
		ast.add(nd("returning", "", nd("item", "", idOf("id")), nd("item", strconv.Quote("y"), idOf("x")), nd("item", "", mustExpr("COUNT(*)"))))
	}
	if r.P(30) {
		steps = append(steps, func() { b = b.Comment("c1") })
		ast.add(nd("comment", "c1"))
	}
	shuffle(r, steps)
	for _, s := range steps {
		s()
	}
	p := &Prog{Kind: "delete", AST: ast, SDesc: strings.Join([]string{briefArgs([]any{a}), briefArgs(uargs), strings.Join(conds, "")}, " | ")}
	t.conform(p, b, modePositional, modeInline)
	t.Ev("delete forms", 1)
	t.Distinct("form", ast.String())
}
