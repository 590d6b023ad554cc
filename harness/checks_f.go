package main

import (
	"fmt"
	"strconv"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P24

// The oracle of embedding is differential: the enclosing statement is built twice, around the subquery and around
// `SELECT __SUB__`; replacing the latter, in its parentheses, by the text of the subquery rendered alone must give the
// former.

const subMarker = "__SUB__"

func markerSelect() builder.Select { return lk.Select(lk.Raw(subMarker)) }

const markerText = "(SELECT " + subMarker + ")"

// subPosition puts a subquery in a statement.
type subPosition struct {
	name  string
	uses  int // how many times
	kind  string
	cte   bool
	build func(s any) bld
}

// wrapEncoder is a user type whose statement is a select.
type wrapEncoder struct{ s stmt.Statement }

func (w wrapEncoder) Statement() stmt.Statement { return w.s }

var subPositions = func() []subPosition {
	var out []subPosition
	a := lk.Condition("a")
	where := func(name string, uses int, e func(s any) stmt.Expression) {
		out = append(out, subPosition{name, uses, "select", false, func(s any) bld {
			return lk.Select("x", "y").From("t").Where(lk.Condition("p").Equal("before")).And(e(s)).And(lk.Condition("q").Equal(12345))
		}})
		kind := []string{"select", "update", "delete", "select"}[len(out)/2%4]
		having := len(out)/2%4 == 3
		out = append(out, subPosition{name + ", alone", uses, kind, false, func(s any) bld {
			switch {
			case having:
				return lk.Select("x").From("t").Having(e(s))
			case kind == "select":
				return lk.Select("x").From("t").Where(e(s))
			case kind == "update":
				return lk.Update("t").Set(lk.Pair("a", 5)).Where(e(s))
			}
			return lk.Delete("t").Where(e(s))
		}})
	}
	for _, op := range identOps {
		op := op
		where("identifier "+op.op, 1, func(s any) stmt.Expression { return op.fn(a, s) })
	}
	for _, op := range callOps {
		op := op
		where("call "+op.op, 1, func(s any) stmt.Expression { return op.fn(stmt.NewCall("f", stmt.NewExpression(7)), s) })
	}
	for _, op := range valueOps {
		op := op
		where("value "+op.op, 1, func(s any) stmt.Expression { return op.fn(lk.Value("left"), s) })
	}
	where("left side", 1, func(s any) stmt.Expression { return lk.Condition(stmt.NewExpression(s)).Equal("right") })
	where("both sides", 2, func(s any) stmt.Expression { return lk.Condition(stmt.NewExpression(s)).NotEqual(s) })
	where("left side of in", 1, func(s any) stmt.Expression { return lk.Condition(stmt.NewExpression(s)).In(1, 2, 3) })
	where("left side of between", 1, func(s any) stmt.Expression { return lk.Condition(stmt.NewExpression(s)).Between(1, 2) })
	where("in", 1, func(s any) stmt.Expression { return a.In(s) })
	where("not in", 1, func(s any) stmt.Expression { return a.NotIn(s) })
	where("call in", 1, func(s any) stmt.Expression { return stmt.NewCall("f", stmt.NewExpression(7)).In(s) })
	where("in among", 1, func(s any) stmt.Expression { return a.In(1, s, "z") })
	where("in first and last", 2, func(s any) stmt.Expression { return a.NotIn(s, 5, s) })
	where("in slice", 1, func(s any) stmt.Expression { return a.In([]any{1, s}) })
	where("in slice of one", 1, func(s any) stmt.Expression { return a.In([]any{s}) })
	where("in slice of expressions", 1, func(s any) stmt.Expression {
		return a.In([]stmt.Expression{stmt.NewExpression(s), stmt.NewExpression(3)})
	})
	where("exists", 1, func(s any) stmt.Expression { return lk.Exists(s) })
	where("not exists", 1, func(s any) stmt.Expression { return lk.NotExists(s) })
	where("exists in a tree", 2, func(s any) stmt.Expression {
		return lk.Or(lk.And(lk.Exists(s), a.Equal("m")), lk.And(a.Equal("n"), lk.NotExists(s)))
	})
	where("between from", 1, func(s any) stmt.Expression { return a.Between(s, 1) })
	where("between to", 1, func(s any) stmt.Expression { return a.Between(1, s) })
	where("not between", 2, func(s any) stmt.Expression { return a.NotBetween(s, s) })
	where("call argument", 1, func(s any) stmt.Expression { return stmt.NewCall("f", stmt.NewExpression(s)) })
	where("call arguments", 2, func(s any) stmt.Expression {
		return stmt.NewCall("f", stmt.NewExpression(1), stmt.NewExpression(s), stmt.NewExpression("z"), stmt.NewExpression(s)).Equal(4)
	})
	where("two operands", 2, func(s any) stmt.Expression { return lk.And(a.In(s), lk.Condition("b").GreaterThan(s)) })
	// The statement given as an expression, which is a condition or an operand as any other.
	where("condition", 1, func(s any) stmt.Expression { return asExpr(s) })
	where("left of and", 1, func(s any) stmt.Expression { return lk.And(asExpr(s), a.Equal("m")) })
	where("right of and", 1, func(s any) stmt.Expression { return lk.And(a.Equal("m"), asExpr(s)) })
	where("both sides of or", 2, func(s any) stmt.Expression { return lk.Or(asExpr(s), asExpr(s)) })
	where("in and", 1, func(s any) stmt.Expression { return a.In(1, 2).And(asExpr(s)) })
	where("in or", 1, func(s any) stmt.Expression { return a.NotIn(1, 2).Or(asExpr(s)) })
	where("infix and", 1, func(s any) stmt.Expression { return a.Equal(1).And(asExpr(s)) })
	where("infix or", 1, func(s any) stmt.Expression { return a.Equal(1).Or(asExpr(s)).And(a.Equal(2)) })
	where("identifier", 1, func(s any) stmt.Expression { return lk.Condition(asExpr(s)).Equal("right") })
	where("identifier of in", 1, func(s any) stmt.Expression { return lk.Condition(asExpr(s)).In("right", 4) })
	where("identifier of between", 1, func(s any) stmt.Expression { return lk.Condition(asExpr(s)).Between("right", 4) })
	where("NewIn", 1, func(s any) stmt.Expression { return stmt.NewIn(a, asExpr(s)) })
	where("NewNotIn", 2, func(s any) stmt.Expression { return stmt.NewNotIn(asExpr(s), asExpr(s)) })
	where("NewBetween", 2, func(s any) stmt.Expression { return stmt.NewBetween(a, asExpr(s), asExpr(s)) })
	where("NewNotBetween", 1, func(s any) stmt.Expression { return stmt.NewNotBetween(a, stmt.NewExpression(1), asExpr(s)) })
	where("NewInfixExpression", 2, func(s any) stmt.Expression {
		return stmt.NewInfixExpression(asExpr(s), stmt.NewComparisonOperator(types.Equal), asExpr(s))
	})
	where("NewCall", 1, func(s any) stmt.Expression { return stmt.NewCall("f", asExpr(s)).Equal(3) })
	where("NewCall of several", 2, func(s any) stmt.Expression { return stmt.NewCall("f", asExpr(s), lk.Value(2), asExpr(s)) })
	where("NewWrapper", 1, func(s any) stmt.Expression { return stmt.NewWrapper(asExpr(s)) })
	add := func(name, kind string, uses int, cte bool, f func(s any) bld) {
		out = append(out, subPosition{name, uses, kind, cte, f})
	}
	t1 := func() builder.Select { return lk.Select("c1").From("t1").Where(lk.Condition("v").Equal("one")) }
	t2 := func() builder.Select { return lk.Select("c2").From("t2").Where(lk.Condition("v").Equal("two")) }
	add("select list exists", "select", 1, false, func(s any) bld { return lk.Select(lk.Column("id"), lk.Exists(s)).From("t").Where(a.Equal(1)) })
	add("select list not exists", "select", 1, false, func(s any) bld { return lk.Select(lk.NotExists(s), lk.Column("id")).From("t").Where(a.Equal(1)) })
	add("select list only", "select", 1, false, func(s any) bld { return lk.Select(lk.Exists(s)) })
	add("returning exists", "update", 1, false, func(s any) bld { return lk.Update("t").Set(lk.Pair("b", 3)).Where(a.Equal(1)).Returning(lk.Exists(s)) })
	add("having", "select", 1, false, func(s any) bld {
		return lk.Select("id").From("t").Where(a.Equal("w")).GroupBy("id").Having(a.GreaterThan(s)).Limit(3)
	})
	add("having condition", "select", 1, false, func(s any) bld {
		return lk.Select("id").From("t").Where(a.Equal("w")).Having(asExpr(s)).OrderBy(lk.Order("id"))
	})
	add("or condition", "select", 1, false, func(s any) bld { return lk.Select("id").From("t").Where(a.Equal("w")).Or(asExpr(s)).Limit(3) })
	add("first condition", "update", 1, false, func(s any) bld {
		return lk.Update("t").Set(lk.Pair("b", 3)).Where(asExpr(s)).And(a.Equal(1)).Returning("id")
	})
	add("delete conditions", "delete", 2, false, func(s any) bld { return lk.Delete("t").Where(asExpr(s)).Or(a.Equal(9)).And(asExpr(s)) })
	add("join condition", "select", 1, false, func(s any) bld {
		return lk.Select("id").From("t").Join(stmt.NewLeftJoin(stmt.NewTable("u"), asExpr(s))).Where(a.Equal("w"))
	})
	add("delete where", "delete", 1, false, func(s any) bld { return lk.Delete("t").Where(a.In(s)).Or(a.Equal(9)).Returning("id") })
	add("update where", "update", 1, false, func(s any) bld {
		return lk.Update("t").Set(lk.Pair("x", 1), lk.Pair("y", 2)).Where(a.Equal(s)).And(a.Equal(9))
	})
	add("update pair", "update", 1, false, func(s any) bld {
		return lk.Update("t").Set(lk.Pair("a", 1), lk.Pair("b", s), lk.Pair("c", "z")).Where(a.Equal(4))
	})
	add("update map", "update", 1, false, func(s any) bld { return lk.Update("t").Set(lk.Map{"a": 1, "b": s, "c": "z"}).Where(a.Equal(4)) })
	add("update using", "update", 1, false, func(s any) bld { return lk.Update("t").Set("a", "b").Using(s).Where(a.Equal(4)) })
	add("update using several", "update", 2, false, func(s any) bld { return lk.Update("t").Set("a", "b", "c").Using(1, s, s).Where(a.Equal(4)) })
	add("insert values", "insert", 1, false, func(s any) bld { return lk.Insert("t").Columns("a", "b", "c").Values(1, s, "z").Returning("id") })
	add("insert single value", "insert", 1, false, func(s any) bld { return lk.Insert("t").Columns("a").Values(s) })
	add("insert row", "insert", 1, false, func(s any) bld { return lk.Insert("t").Columns("a").Values([]any{s}) })
	add("insert rows", "insert", 2, false, func(s any) bld { return lk.Insert("t").Columns("a", "b").Values([][]any{{1, s}, {s, 2}, {3, 4}}) })
	add("insert rows of one", "insert", 2, false, func(s any) bld { return lk.Insert("t").Columns("a").Values([][]any{{s}, {1}, {s}}) })
	add("insert row of expressions", "insert", 1, false, func(s any) bld {
		return lk.Insert("t").Columns("a", "b").Values([]stmt.Expression{stmt.NewExpression(s), stmt.NewExpression(2)})
	})
	add("insert set", "insert", 1, false, func(s any) bld { return lk.Insert("t").Set(lk.Pair("a", 1), lk.Pair("b", s), lk.Pair("c", 3)) })
	add("insert set map", "insert", 1, false, func(s any) bld { return lk.Insert("t").Set(lk.Map{"a": 1, "b": s}) })
	add("upsert pair", "insert", 1, false, func(s any) bld {
		return lk.Insert("t").Columns("a").Values(1).OnConflict("id", lk.DoUpdate(lk.Pair("a", 2), lk.Pair("b", s), lk.Pair("c", 3))).Returning("id")
	})
	add("cte", "select", 1, true, func(s any) bld { return lk.Select("id").With(lk.With("w", s)).From("w").Where(a.Equal("z")) })
	add("cte first", "select", 1, true, func(s any) bld {
		return lk.Select("id").With(lk.With("w", s), lk.With("one", t1()), lk.With("two", t2())).From("w").Where(a.Equal("z"))
	})
	add("cte middle", "update", 1, true, func(s any) bld {
		return lk.Update("t").With(lk.With("one", t1())).With(lk.With("w", s)).With(lk.With("two", t2())).Set(lk.Pair("q", 5)).Where(a.Equal("z"))
	})
	add("cte last", "update", 1, true, func(s any) bld {
		return lk.Update("t").With(lk.With("one", t1()), lk.With("two", t2()), lk.With("w", s)).Set(lk.Pair("q", 5)).Where(a.Equal("z"))
	})
	add("cte and condition", "select", 3, true, func(s any) bld {
		return lk.Select("id").With(lk.With("w", s), lk.With("v", s)).From("w").Where(a.In(s)).Having(a.Equal(6))
	})
	return out
}()

// asExpr is a subquery as the expression a user gets from its builder, which no constructor has converted.
func asExpr(s any) stmt.Expression {
	switch s := s.(type) {
	case stmt.Expression:
		return s
	case builder.Builder:
		return s.Statement().(stmt.Expression)
	case interface{ Statement() stmt.Statement }:
		return s.Statement().(stmt.Expression)
	}
	panic("harness: not a subquery")
}

// maskParams replaces the placeholders of a rendering, and returns their numbers. Text inside of literals, of quoted
// names and of comments is not a placeholder.
func maskParams(t *T, s string) (string, []string) {
	toks, err := tokenize(s)
	if err != nil {
		t.Fail("a rendering is not made of SQL tokens: %s\n%s", err, s)
	}
	var b strings.Builder
	var nums []string
	last := 0
	for _, tk := range toks {
		if tk.Kind == TkParam || tk.Kind == TkNamed {
			b.WriteString(s[last:tk.Start])
			b.WriteString("\x00")
			nums = append(nums, tk.Text)
			last = tk.End
		}
	}
	b.WriteString(s[last:])
	return b.String(), nums
}

// splice puts the arguments of the subquery in the ones of the enclosing statement.
func splice(maskedMarker string, args, sub []any) []any {
	var out []any
	n := 0
	for i, part := range strings.Split(maskedMarker, markerText) {
		if i > 0 {
			out = append(out, sub...)
		}
		k := strings.Count(part, "\x00")
		if n+k > len(args) {
			k = len(args) - n
		}
		out = append(out, args[n:n+k]...)
		n += k
	}
	return out
}

// p24Compare decides that outer embeds sub where marked embeds the marker.
func p24Compare(t *T, outer, marked bld, sub builder.Builder, uses int, desc func() string) {
	q, args := outer.Query()
	mq, margs := marked.Query()
	sq, sargs := sub.Query()
	nq, nargs := outer.NamedQuery()
	mnq, _ := marked.NamedQuery()
	snq, _ := sub.NamedQuery()
	for k, x := range [][3]string{{q, mq, sq}, {nq, mnq, snq}} {
		got, nums := maskParams(t, x[0])
		m, _ := maskParams(t, x[1])
		s, _ := maskParams(t, x[2])
		if uses > 0 && strings.Count(m, markerText) != uses {
			t.Fail("the subquery is not written %d times in its own parentheses: %s\n%s", uses, x[1], desc())
		}
		if want := strings.ReplaceAll(m, markerText, "("+s+")"); got != want {
			t.Fail("%s rendering: the subquery is not embedded as it renders alone\n  enclosing: %s\n  alone:     %s\n  marker:    %s\n%s", modeNames[k], x[0], x[2], x[1], desc())
		}
		prefix := ""
		if k == 1 {
			prefix = "arg_"
		}
		for i := range nums {
			if nums[i] != prefix+strconv.Itoa(i+1) {
				t.Fail("%s rendering: placeholder %d is numbered %s\n%s\n%s", modeNames[k], i+1, nums[i], x[0], desc())
			}
		}
		if len(nums) != len(args) {
			t.Fail("%s rendering: %d placeholders for %d arguments\n%s\n%s", modeNames[k], len(nums), len(args), x[0], desc())
		}
		if k == 0 {
			if want := splice(m, margs, sargs); !sameArgs(args, want) {
				t.Fail("the arguments are not the ones of the subquery within the ones of the enclosing statement:\n  got  %s\n  want %s\n%s\n%s", describeArgs(args), describeArgs(want), q, desc())
			}
		}
	}
	if list, msg := namedToList(nargs, len(args)); msg != "" || !sameArgs(list, args) {
		t.Fail("named arguments differ from the positional ones: %s\n%s\n%s", msg, nq, desc())
	}
	s, ms, ss := outer.String(), marked.String(), sub.String()
	if want := strings.ReplaceAll(ms, markerText, "("+ss+")"); s != want {
		t.Fail("inlined rendering: the subquery is not embedded as it renders alone\n  enclosing: %s\n  alone:     %s\n  marker:    %s\n%s", s, ss, ms, desc())
	}
	t.Ev("embeddings compared", 1)
	t.Ev("arguments of subqueries", len(sargs))
}

func subOpts() Opts {
	o := defaultOpts()
	o.kinds = stableKinds
	return o
}

// forms of a subquery as an argument.
func subForm(r *R, b builder.Select) (any, string) {
	switch r.N(8) {
	case 0, 5:
		return b.Statement(), "its statement"
	case 6:
		st := b.Statement().(stmt.Select)
		return &st, "the address of its statement"
	case 1:
		return &b, "its address"
	case 2:
		return wrapEncoder{b.Statement()}, "an encoder"
	case 3:
		return &wrapEncoder{b.Statement()}, "a pointer to an encoder"
	}
	return b, "a builder"
}

func p24Position(t *T) {
	pos := subPositions[t.idx%len(subPositions)]
	r := t.R("form")
	o := subOpts()
	o.sub = 1
	g := newGen(t, o, "", "", "")
	p := g.Select(t.idx%3 == 0)
	b := sel(p.Build())
	arg, form := subForm(r, b)
	if r.P(40) {
		// Its comment is removed.
		text := pick(r, "a comment", "it's", "a; b", "x -- y", "two\nlines")
		c := b.Comment(text)
		arg, form = subForm(r, c)
		form += " with a comment"
		t.Ev("subqueries with a comment", 1)
	}
	desc := func() string { return "position: " + pos.name + ", given as " + form + "\n" + p.Desc() }
	p24Compare(t, pos.build(arg), pos.build(markerSelect()), b, pos.uses, desc)
	t.Distinct(pos.name, form, p.AST.shape())
	t.Sample("%s, %s: %s", pos.name, form, brief(pos.build(arg).String()))
}

// p24Chain nests selects.
func p24Chain(t *T) {
	r := t.R("chain")
	depth := r.Range(3, 12)
	if t.idx%10 == 0 {
		depth = r.Range(40, 60)
	}
	o := subOpts()
	o.sub = 0
	g := newGen(t, o, "", "", "")
	cur := sel(g.Select(true).Build())
	var trail []string
	for i := 0; i < depth; i++ {
		var pos subPosition
		for {
			pos = subPositions[r.N(len(subPositions))]
			if depth > 12 && pos.uses > 1 {
				continue
			}
			if pos.uses > 2 || (i > 5 && pos.uses > 1) || (i < depth-1 && pos.kind != "select") {
				continue
			}
			break
		}
		trail = append(trail, pos.name)
		arg, form := subForm(r, cur)
		outer := pos.build(arg)
		if i < depth-8 && i%8 != 0 {
			// Long chains are not compared at each level.
		} else {
			p24Compare(t, outer, pos.build(markerSelect()), cur, pos.uses, func() string { return fmt.Sprintf("nested: %v, given as %s", trail, form) })
		}
		if i == depth-1 {
			break
		}
		cur = sel(outer)
	}
	t.Distinct(append([]string{"chain"}, trail...)...)
	if depth > 12 {
		t.Ev("deep chains", 1)
	}
	t.Sample("%d levels: %v", depth, trail)
}

// p24Random replaces one of the subqueries of a generated statement by the marker.
func p24Random(t *T) {
	o := subOpts()
	o.sub = 3
	r := t.R("target")
	count := newGen(t, o, "", "", "")
	prog := count.Any()
	if count.nsub == 0 {
		t.Ev("programs without subquery", 1)
		return
	}
	for k := 0; k < 3; k++ {
		target := r.Range(1, count.nsub)
		gm := newGen(t, o, "", "", "")
		gm.subTarget = target
		pm := gm.Any()
		if gm.subFound == nil {
			t.Fail("harness: subquery %d not found", target)
		}
		mq, _ := pm.Build().Query()
		times := 1
		if t.tiny {
			times = strings.Count(mq, subMarker) // in a condition given several times
		}
		if !strings.Contains(mq, subMarker) {
			// The generator may choose something else than what it generated, which the comparison of the trees decides.
			t.Ev("subqueries left out by the generator", 1)
			continue
		}
		p24Compare(t, prog.Build(), pm.Build(), gm.subFound.Build(), times, func() string { return prog.Desc() })
		t.Distinct("random", prog.AST.shape(), strconv.Itoa(target))
	}
	t.conform(prog, prog.Build(), modePositional, modeNamed)
}

// p24Ctes: names and order of the common table expressions.
func p24Ctes(t *T) {
	r := t.R("ctes")
	n := r.Size(1, 12)
	o := subOpts()
	o.kinds = stableLitKinds
	o.prefix = false
	o.sub = 1
	g := newGen(t, o, "", "", "")
	wn := nd("with", "")
	var qs []stmt.WithQuery
	for i := 0; i < n; i++ {
		g.nsub = 0
		p := g.Select(true)
		name := pick(r, "w", "recent", "a_cte", "z", "b") + strconv.Itoa((i*7+3)%n)
		arg, _ := subForm(r, sel(p.Build()))
		qs = append(qs, lk.With(name, arg))
		wn.add(nd("cte", partsKey([]string{name}), nd("subq", "", p.AST)))
	}
	one1 := val("set")
	var b bld
	var ast *N
	split := r.P(50)
	if t.idx%2 == 0 {
		s := lk.Select("id").From("t")
		if split {
			for i := range qs {
				s = s.With(qs[i])
			}
		} else {
			s = s.With(qs...)
		}
		b, ast = s, nd("select", "", wn, nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()))
	} else {
		u := lk.Update("t").Set(lk.Pair("a", "set"))
		if split {
			for i := range qs {
				u = u.With(qs[i])
			}
		} else {
			u = u.With(qs...)
		}
		b, ast = u, nd("update", "", wn, tableT(), nd("set", "pairs", assignN("a", valNode(&one1))))
	}
	p := &Prog{Kind: kindsOf(b), SDesc: fmt.Sprintf("%d common table expressions", n), AST: ast}
	t.conform(p, b, modePositional, modeNamed, modeInline)
	t.Ev("common table expressions", n)
	t.Distinct("cte", ast.shape())
}

func kindsOf(b bld) string {
	switch b.(type) {
	case builder.Select:
		return "select"
	case builder.Insert:
		return "insert"
	case builder.Update:
		return "update"
	}
	return "delete"
}

func init() {
	register(&Check{
		ID: "P24",
		Rule: "differential: the enclosing statement around the subquery against the same one around `SELECT __SUB__`, the marker being replaced by the text of the " +
			"subquery alone; every position, generated subqueries as builder, pointer, statement or encoder, with and without comment, chains of up to 60 levels; " +
			"CTEs against the expected tree. Non-trivial: the subquery has a structure of its own.",
		Require: []string{"embeddings compared", "arguments of subqueries", "subqueries with a comment", "deep chains", "common table expressions"},
		Families: []Family{
			{Name: "positions", Quick: len(subPositions) * 120, Thorough: len(subPositions) * 3000, Fn: p24Position},
			{Name: "chains", Quick: 400, Thorough: 8000, Fn: p24Chain},
			{Name: "huge", Quick: 150, Thorough: 10000, Fn: hugely(5000, p24Random)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p24Random)},
			{Name: "random", Quick: 4000, Thorough: 120000, Fn: p24Random},
			{Name: "ctes", Quick: 800, Thorough: 20000, Fn: p24Ctes},
		},
	})
}

// ------------------------------------------------------------------------------------------------------------------ P25

func withComment(b bld, c string) bld {
	switch b := b.(type) {
	case builder.Select:
		return b.Comment(c)
	case builder.Insert:
		return b.Comment(c)
	case builder.Update:
		return b.Comment(c)
	case builder.Delete:
		return b.Comment(c)
	}
	panic("harness: no builder")
}

func commentWords(s string) string {
	s = strings.ReplaceAll(strings.ToValidUTF8(s, ""), "\ufffd", "")
	return strings.Join(strings.Fields(s), " ")
}

// p25Judge: a rendering with a comment against the one without.
func p25Judge(t *T, mode, with, without, c string) {
	rest, ok := strings.CutPrefix(with, without)
	if !ok {
		t.Fail("%s rendering: the comment %q changes the statement:\n  %s\n  %s", mode, c, without, with)
	}
	tail, ok := strings.CutPrefix(rest, "; -- ")
	if !ok {
		// Any layout, as long as it is one comment after the end of the statement.
		trimmed := strings.TrimLeft(rest, "; ")
		if tail, ok = strings.CutPrefix(trimmed, "--"); !ok {
			t.Fail("%s rendering: the statement is not followed by one comment line: %q", mode, with)
		}
	}
	if strings.ContainsAny(tail, "\r\n") {
		t.Fail("%s rendering: the comment %q ends before its end: %q", mode, c, with)
	}
	// An independent reading of the whole text: the same tokens, a semicolon at most, and one comment at the end.
	tw, err := tokenize(with)
	if err != nil {
		t.Fail("%s rendering with the comment %q: %s\n%q", mode, c, err, with)
	}
	to, err := tokenize(without)
	if err != nil {
		t.Fail("%s rendering: %s\n%q", mode, err, without)
	}
	n := len(to)
	if len(tw) == n+2 && tw[n].Kind == TkPunct && tw[n].Text == ";" {
		tw = append(tw[:n:n], tw[n+1])
	}
	if len(tw) != n+1 || tw[n].Kind != TkComment || tw[n].End != len(with) {
		t.Fail("%s rendering: the comment %q is not one comment token at the end: %q", mode, c, with)
	}
	for i := range to {
		if tw[i] != to[i] {
			t.Fail("%s rendering: token %d changes with the comment %q: %s, %s", mode, i, c, to[i], tw[i])
		}
	}
	// What is not a line break is kept, words at least. What is not UTF-8 may be replaced.
	if got, want := commentWords(tail), commentWords(strings.NewReplacer("\r", " ", "\n", " ").Replace(c)); got != want {
		t.Fail("%s rendering: the comment %q reads %q", mode, c, tail)
	}
	t.Ev("renderings with a comment", 1)
}

var commentTexts = []string{
	"/v1/users", "a", " ", "--", "-- -- --", "a\nb", "\n", "\r", "\r\n", "x\n; DROP TABLE users", "x\r; DROP TABLE users;\n--", "*/ x", "/* x", "'", "\"", "$1", ":arg_1", "$$",
	"\\", "; SELECT 1", "\x00", "\u2028x", "\u0085x", "\vx\f", "\n\n\n", "a\\\nb", "é日本", "\xff\xfe", "%s %d", "E'\\'", "tail\n", "\nhead", "SELECT 1; --",
}

func p25Random(t *T) {
	o := defaultOpts()
	o.kinds = stableLitKinds
	g := newGen(t, o, "", "", "")
	p := g.Of(kinds4[t.idx%4])
	r := t.R("comment")
	var c string
	switch t.idx % 3 {
	case 0:
		c = commentTexts[r.N(len(commentTexts))]
	case 1:
		c = hostileText(r, 12)
	default:
		c = hostileText(r, 6) + pick(r, "\n", "\r", "\r\n") + hostileText(r, 6)
	}
	b := p.Build()
	want := render(b)
	var w bld
	desc := p.Desc()
	at := r.N(len(p.Steps) + 1)
	if r.P(50) {
		w = withComment(b, c)
	} else {
		// The comment can be given at any moment.
		w = p.Start()
		for i, s := range p.Steps {
			if i == at {
				w = withComment(w, c)
			}
			w = s.Apply(w)
		}
		if at == len(p.Steps) {
			w = withComment(w, c)
		}
	}
	t.Trace("%s", desc)
	got := render(w)
	if c == "" {
		if msg := want.equal(got); msg != "" {
			t.Fail("an empty comment changes the statement: %s", msg)
		}
		return
	}
	if !sameArgs(want.Args, got.Args) || !sameNamed(want.NArgs, got.NArgs) {
		t.Fail("the comment %q changes the arguments: %s, %s", c, describeArgs(want.Args), describeArgs(got.Args))
	}
	p25Judge(t, "positional", got.Q, want.Q, c)
	p25Judge(t, "named", got.NQ, want.NQ, c)
	p25Judge(t, "inlined", got.S, want.S, c)
	if msg := want.equal(render(b)); msg != "" {
		t.Fail("the builder without the comment changes: %s", msg)
	}
	t.Distinct(p.AST.shape(), c)
	t.Sample("%q", got.Q)
}

// p25Characters: every character of the Unicode BMP in a comment.
func p25Characters(t *T) {
	for i := 0; i < 256; i++ {
		ch := string(rune(t.idx*256 + i))
		for _, c := range []string{ch, "a" + ch + "b", ch + "; DROP TABLE x", "x" + ch} {
			b := lk.Delete("t").Where(lk.Condition("a").Equal(1))
			q, _ := b.Query()
			cq, _ := b.Comment(c).Query()
			p25Judge(t, "positional", cq, q, c)
		}
	}
	t.Ev("characters", 256)
	t.Distinct("characters", strconv.Itoa(t.idx))
}

// p25Sub: comments of subqueries.

// p25Lengths: every length up to 10000, and a few longer ones.
func p25Lengths(t *T) {
	r := t.R("lengths")
	for i := 0; i < 250; i++ {
		n := t.idx%40*250 + i + 1
		if i == 0 {
			n = pick(r, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 100000)
		}
		c := comment(r, n)
		b := lk.Delete("t").Where(lk.Condition("a").Equal("v"))
		if r.P(50) {
			s := lk.Select("x").From("t").Limit(3)
			p25Judge(t, "positional", s.Comment(c).String(), s.String(), c)
			continue
		}
		q, qa := b.NamedQuery()
		cq, ca := b.Comment(c).NamedQuery()
		if !sameNamed(qa, ca) {
			t.Fail("a comment of %d bytes changes the arguments", len(c))
		}
		p25Judge(t, "named", cq, q, c)
	}
	t.Ev("lengths", 250)
	t.Distinct("lengths", strconv.Itoa(t.idx))
}

// comment returns a text of about n bytes.
func comment(r *R, n int) string {
	var b strings.Builder
	plain := r.P(40)
	for b.Len() < n {
		if plain || r.P(80) {
			b.WriteString(pick(r, "a", "b", "c d", "xyz", "0", ","))
		} else {
			b.WriteString(pick(r, "\n", "\r\n", "'", ";", "--", "é", "漢", "$1", "/*", "*/", "?", "%", "\""))
		}
	}
	return b.String()
}

func p25Sub(t *T) {
	pos := subPositions[t.idx%len(subPositions)]
	r := t.R("sub")
	c := hostileText(r, 10)
	if r.P(40) {
		c = commentTexts[r.N(len(commentTexts))]
	}
	o := subOpts()
	o.kinds = stableLitKinds
	o.sub = 1
	p := newGen(t, o, "", "", "").Select(true)
	b := sel(p.Build())
	arg, form := subForm(r, b.Comment(c))
	want, got := render(pos.build(b)), render(pos.build(arg))
	if msg := want.equal(got); msg != "" {
		t.Fail("%s, given as %s: the comment %q of a subquery changes the enclosing statement: %s", pos.name, form, c, msg)
	}
	// And the enclosing statement has its own.
	w := render(withComment(pos.build(arg), "outer"))
	p25Judge(t, "positional", w.Q, want.Q, "outer")
	p25Judge(t, "inlined", w.S, want.S, "outer")
	t.Ev("commented subqueries", 1)
	t.Distinct("sub", pos.name, c)
}

func init() {
	register(&Check{
		ID: "P25",
		Rule: "differential: statements with and without a comment of any text, read by an independent tokenizer: the same tokens followed by one comment token; every BMP " +
			"character; comments of subqueries at every position.",
		Require: []string{"renderings with a comment", "commented subqueries", "characters", "lengths"},
		Families: []Family{
			{Name: "huge", Quick: 150, Thorough: 10000, Fn: hugely(5000, p25Random)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p25Random)},
			{Name: "random", Quick: 6000, Thorough: 200000, Fn: p25Random},
			{Name: "characters", Quick: 64, Thorough: 256, Fn: p25Characters},
			{Name: "lengths", Quick: 40, Thorough: 400, Fn: p25Lengths},
			{Name: "subqueries", Quick: len(subPositions) * 50, Thorough: len(subPositions) * 1000, Fn: p25Sub},
		},
	})
}

// ------------------------------------------------------------------------------------------------------------------ P26

// event of a recorded context.
type ctxEvent struct {
	bind bool
	text string
	val  any
}

type recorder struct{ events []ctxEvent }

func (c *recorder) Write(s string) { c.events = append(c.events, ctxEvent{text: s}) }
func (c *recorder) Bind(v any)     { c.events = append(c.events, ctxEvent{bind: true, val: v}) }
func (c *recorder) text(k int) string {
	var b strings.Builder
	n := 0
	for _, e := range c.events {
		if !e.bind {
			b.WriteString(e.text)
			continue
		}
		n++
		switch k {
		case 0:
			b.WriteString("$" + strconv.Itoa(n))
		case 1:
			b.WriteString(":arg_" + strconv.Itoa(n))
		case 2:
			b.WriteString(format.Value(e.val))
		}
	}
	return b.String()
}

func (c *recorder) binds() []any {
	var out []any
	for _, e := range c.events {
		if e.bind {
			out = append(out, e.val)
		}
	}
	return out
}

// questionContext is what a user would write for a driver with ? placeholders. It is not a pointer.
type questionContext struct {
	text *strings.Builder
	args *[]any
}

func (c questionContext) Write(s string) { c.text.WriteString(s) }
func (c questionContext) Bind(v any) {
	*c.args = append(*c.args, v)
	c.text.WriteString("?")
}

// embedding contexts: a user can extend the contexts of the library.
type embeddedStd struct {
	types.StdContext
	binds int
}

func (c *embeddedStd) Bind(v any) {
	c.binds++
	c.StdContext.Bind(v)
}

func p26Judge(t *T, b bld, desc func() string) {
	want := render(b)
	st := b.Statement()
	for round := 0; round < 3; round++ {
		rec := &recorder{}
		if round == 2 {
			st = b.Statement()
		}
		st.Write(rec)
		for k, text := range []string{want.Q, want.NQ, want.S} {
			if got := rec.text(k); got != text {
				t.Fail("writing %d of the statement on a custom context, %s rendering:\n  %s\n  %s\n%s", round+1, modeNames[k], got, text, desc())
			}
		}
		if got := rec.binds(); !sameArgs(got, want.Args) {
			t.Fail("writing %d of the statement on a custom context binds %s, not %s\n%s\n%s", round+1, describeArgs(got), describeArgs(want.Args), want.Q, desc())
		}
		t.Ev("writes observed", len(rec.events))
		t.Ev("binds observed", len(want.Args))
	}
	var text strings.Builder
	var args []any
	st.Write(questionContext{&text, &args})
	masked, _ := maskParams(t, want.Q)
	if got := text.String(); got != strings.ReplaceAll(masked, "\x00", "?") || !sameArgs(args, want.Args) {
		t.Fail("writing the statement on a context with ? placeholders:\n  %s %s\n  %s %s\n%s", got, describeArgs(args), want.Q, describeArgs(want.Args), desc())
	}
	emb := &embeddedStd{}
	st.Write(emb)
	if emb.Query() != want.Q || emb.binds != len(want.Args) || !sameArgs(emb.Values(), want.Args) {
		t.Fail("writing the statement on a context that embeds the one of the library: %d binds\n  %s %s\n  %s %s\n%s", emb.binds, emb.Query(), describeArgs(emb.Values()), want.Q, describeArgs(want.Args), desc())
	}
	// Two statements on the same context: their texts and arguments follow each other.
	rec := &recorder{}
	st.Write(rec)
	n := len(rec.events)
	st.Write(rec)
	if len(rec.events) != 2*n || !sameArgs(rec.binds(), append(append([]any{}, want.Args...), want.Args...)) || rec.text(2) != want.S+want.S {
		t.Fail("two writings of the statement on the same context: %s\n%s", rec.text(0), desc())
	}
	if msg := want.equal(render(b)); msg != "" {
		t.Fail("after writing its statement on contexts, the builder renders differently: %s\n%s", msg, desc())
	}
	t.Ev("statements written", 1)
}

func p26Random(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	o.sub = 2
	o.nest = 10
	p := newGen(t, o, "", "", "").Of(kinds4[t.idx%4])
	p26Judge(t, p.Build(), p.Desc)
	t.Distinct(p.AST.shape())
	q, _ := p.Build().Query()
	t.Sample("%s", q)
}

// p26Kinds: every kind of value at every position.
func p26Kinds(t *T) {
	k := kindDefs[t.idx%len(kindDefs)]
	pos := valuePositions[t.idx/len(kindDefs)%len(valuePositions)]
	v := makeVal(k.name, t.R("v"))
	if pos.skip != nil && pos.skip(&k, v) {
		return
	}
	p26Judge(t, pos.build(v.In), func() string { return pos.name + " " + v.Desc() })
	t.Distinct("kinds", k.name, pos.name)
}

func init() {
	register(&Check{
		ID: "P26",
		Rule: "statements of builders written on contexts of the harness, which record the writes and the binds: concatenated, with each kind of placeholder, they must give the " +
			"three renderings and the arguments; written several times, and twice on one context.",
		Require: []string{"statements written", "binds observed", "writes observed"},
		Families: []Family{
			{Name: "huge", Quick: 30, Thorough: 15000, Fn: hugely(5000, p26Random)},
			{Name: "coincide", Quick: 1000, Thorough: 200000, Fn: alike(p26Random)},
			{Name: "random", Quick: 8000, Thorough: 250000, Fn: p26Random},
			{Name: "kinds", Quick: len(kindDefs) * len(valuePositions), Thorough: len(kindDefs) * len(valuePositions) * 4, Fn: p26Kinds},
		},
	})
}
