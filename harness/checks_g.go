package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P27

type boomEncoder struct{}

func (boomEncoder) Statement() stmt.Statement { panic("harness: boom") }

type boomInt64 struct{}

func (boomInt64) Int64() int64 { panic("harness: boom") }

type boomString struct{}

func (boomString) String() string { panic("harness: boom") }

// badArg is refused wherever a value is expected.
func badArg(r *R) any {
	switch r.N(6) {
	case 0:
		return make(chan int)
	case 1:
		return func() {}
	case 2:
		return struct{ A int }{3}
	case 3:
		return boomEncoder{}
	case 4:
		return boomInt64{}
	}
	return []complex128{1i}
}

// badCall is rejected, after a part of its arguments has been accepted.
type badCall struct {
	name  string
	kinds string
	apply func(r *R, b bld) bld
}

var badCalls = func() []badCall {
	var out []badCall
	add := func(kinds, name string, f func(r *R, b bld) bld) { out = append(out, badCall{name, kinds, f}) }
	s := func(name string, f func(r *R, b builder.Select) builder.Select) {
		add("select", name, func(r *R, b bld) bld { return f(r, sel(b)) })
	}
	i := func(name string, f func(r *R, b builder.Insert) builder.Insert) {
		add("insert", name, func(r *R, b bld) bld { return f(r, ins(b)) })
	}
	u := func(name string, f func(r *R, b builder.Update) builder.Update) {
		add("update", name, func(r *R, b bld) bld { return f(r, upd(b)) })
	}
	d := func(name string, f func(r *R, b builder.Delete) builder.Delete) {
		add("delete", name, func(r *R, b bld) bld { return f(r, del(b)) })
	}
	good := func() stmt.WithQuery { return lk.With("rejected_cte", lk.Select("zz").From("rejected")) }
	c := lk.Condition("rejected")
	conds := []struct {
		name string
		mk   func(r *R) stmt.Expression
	}{
		{"nil", func(r *R) stmt.Expression { return nil }},
		{"undefined identifier", func(r *R) stmt.Expression { return lk.Condition("") }},
		{"half undefined", func(r *R) stmt.Expression { return c.Equal(1).And(lk.Condition("").Equal(2)) }},
		{"bad value", func(r *R) stmt.Expression { return c.Equal(badArg(r)) }},
		{"bad list", func(r *R) stmt.Expression { return c.In(1, 2, badArg(r), 3) }},
		{"undefined raw", func(r *R) stmt.Expression { return lk.Or(c.Equal(1), lk.Raw("")) }},
		{"bad exists", func(r *R) stmt.Expression { return lk.And(c.Equal(1), lk.Exists(badArg(r))) }},
		{"bad between", func(r *R) stmt.Expression { return c.Between(1, badArg(r)) }},
		{"bad identifier", func(r *R) stmt.Expression { return lk.And(c.Equal(1), lk.Condition(12).Equal(2)) }},
		{"undefined second", func(r *R) stmt.Expression { return lk.And(c.Equal(1), nil) }},
	}
	for _, e := range conds {
		e := e
		s("Where "+e.name, func(r *R, b builder.Select) builder.Select { return b.Where(e.mk(r)) })
		s("And "+e.name, func(r *R, b builder.Select) builder.Select { return b.And(e.mk(r)) })
		s("Or "+e.name, func(r *R, b builder.Select) builder.Select { return b.Or(e.mk(r)) })
		s("Having "+e.name, func(r *R, b builder.Select) builder.Select { return b.Having(e.mk(r)) })
		u("Where "+e.name, func(r *R, b builder.Update) builder.Update { return b.Where(e.mk(r)) })
		u("And "+e.name, func(r *R, b builder.Update) builder.Update { return b.And(e.mk(r)) })
		u("Or "+e.name, func(r *R, b builder.Update) builder.Update { return b.Or(e.mk(r)) })
		d("Where "+e.name, func(r *R, b builder.Delete) builder.Delete { return b.Where(e.mk(r)) })
		d("And "+e.name, func(r *R, b builder.Delete) builder.Delete { return b.And(e.mk(r)) })
		d("Or "+e.name, func(r *R, b builder.Delete) builder.Delete { return b.Or(e.mk(r)) })
	}
	s("Columns", func(r *R, b builder.Select) builder.Select { return b.Columns("rejected", 12) })
	s("Columns undefined", func(r *R, b builder.Select) builder.Select { return b.Columns("rejected", lk.Column("")) })
	s("Columns slice", func(r *R, b builder.Select) builder.Select {
		return b.Columns([]stmt.Column{lk.Column("rejected"), lk.Column("")})
	})
	s("Columns text", func(r *R, b builder.Select) builder.Select { return b.Columns("rejected,,x") })
	s("DistinctOn", func(r *R, b builder.Select) builder.Select { return b.DistinctOn("rejected", nil) })
	s("DistinctOn none", func(r *R, b builder.Select) builder.Select { return b.DistinctOn() })
	s("From", func(r *R, b builder.Select) builder.Select { return b.From("rejected", 3.5) })
	s("From undefined", func(r *R, b builder.Select) builder.Select { return b.From("rejected", lk.Table("")) })
	s("From nil", func(r *R, b builder.Select) builder.Select {
		return b.From(stmt.NewFrom([]stmt.Statement{lk.Table("rejected"), nil}))
	})
	s("Join text", func(r *R, b builder.Select) builder.Select { return b.Join("LEFT JOIN rejected ON a = b AND") })
	s("Join no condition", func(r *R, b builder.Select) builder.Select { return b.Join("rejected", "ON a") })
	s("Join type", func(r *R, b builder.Select) builder.Select { return b.Join("rejected", lk.On("a", "b"), 3) })
	s("Join table", func(r *R, b builder.Select) builder.Select { return b.Join(3, lk.On("a", "b")) })
	s("Join undefined", func(r *R, b builder.Select) builder.Select { return b.Join(stmt.Join{}) })
	s("Join undefined type", func(r *R, b builder.Select) builder.Select {
		return b.Join("rejected", lk.On("a", "b"), types.JoinType(""))
	})
	s("Join undefined on", func(r *R, b builder.Select) builder.Select { return b.Join("rejected", lk.On("a", "")) })
	s("Join none", func(r *R, b builder.Select) builder.Select { return b.Join() })
	s("With", func(r *R, b builder.Select) builder.Select { return b.With(good(), stmt.WithQuery{}) })
	s("With bad", func(r *R, b builder.Select) builder.Select { return b.With(good(), lk.With("x", badArg(r))) })
	s("GroupBy", func(r *R, b builder.Select) builder.Select { return b.GroupBy("rejected", nil) })
	s("GroupBy undefined", func(r *R, b builder.Select) builder.Select { return b.GroupBy("rejected", "") })
	s("OrderBy", func(r *R, b builder.Select) builder.Select { return b.OrderBy(lk.Order("rejected"), stmt.Order{}) })
	s("Limit", func(r *R, b builder.Select) builder.Select { return b.Limit(-1) })
	s("Limit text", func(r *R, b builder.Select) builder.Select { return b.Limit("12x") })
	s("Offset", func(r *R, b builder.Select) builder.Select { return b.Offset(-1) })
	s("Offset type", func(r *R, b builder.Select) builder.Select { return b.Offset(1.5) })
	s("Prefix", func(r *R, b builder.Select) builder.Select { return b.Prefix("") })
	s("Prefix type", func(r *R, b builder.Select) builder.Select { return b.Prefix(4) })
	s("Suffix", func(r *R, b builder.Select) builder.Select { return b.Suffix("") })
	s("Suffix type", func(r *R, b builder.Select) builder.Select { return b.Suffix(4) })
	i("Into", func(r *R, b builder.Insert) builder.Insert { return b.Into("rejected").Into("twice") })
	i("Into type", func(r *R, b builder.Insert) builder.Insert { return b.Into(4) })
	i("Columns", func(r *R, b builder.Insert) builder.Insert { return b.Columns("rejected", 4) })
	i("Columns undefined", func(r *R, b builder.Insert) builder.Insert { return b.Columns("rejected", " ") })
	i("Values", func(r *R, b builder.Insert) builder.Insert { return b.Values(1, 2, badArg(r)) })
	i("Values rows", func(r *R, b builder.Insert) builder.Insert { return b.Values([][]any{{1, 2}, {3, badArg(r)}}) })
	i("Values none", func(r *R, b builder.Insert) builder.Insert { return b.Values() })
	i("Set", func(r *R, b builder.Insert) builder.Insert { return b.Set(lk.Pair("rejected", 1), 12) })
	i("Set map", func(r *R, b builder.Insert) builder.Insert {
		return b.Set(lk.Map{"rejected": 1, "x": badArg(r), "y": 2})
	})
	i("Set key", func(r *R, b builder.Insert) builder.Insert { return b.Set(lk.Pair("rejected", 1), lk.Pair(3, 2)) })
	i("Set none", func(r *R, b builder.Insert) builder.Insert { return b.Set() })
	i("OnConflict no action", func(r *R, b builder.Insert) builder.Insert { return b.OnConflict("rejected", lk.Column("x")) })
	i("OnConflict bad", func(r *R, b builder.Insert) builder.Insert { return b.OnConflict("rejected", 12, lk.DoNothing()) })
	i("OnConflict after", func(r *R, b builder.Insert) builder.Insert { return b.OnConflict("rejected", lk.DoNothing(), "x") })
	i("OnConflict undefined", func(r *R, b builder.Insert) builder.Insert { return b.OnConflict("rejected", "", lk.DoNothing()) })
	i("OnConflict no target", func(r *R, b builder.Insert) builder.Insert { return b.OnConflict(lk.DoUpdate(lk.Pair("rejected", 1))) })
	i("OnConflict pair", func(r *R, b builder.Insert) builder.Insert {
		return b.OnConflict("rejected", lk.DoUpdate(lk.Pair("rejected", 1), lk.Pair("x", badArg(r))))
	})
	i("OnConflict none", func(r *R, b builder.Insert) builder.Insert { return b.OnConflict() })
	i("Returning", func(r *R, b builder.Insert) builder.Insert { return b.Returning("rejected", 3) })
	i("Returning twice", func(r *R, b builder.Insert) builder.Insert { return b.Returning("rejected").Returning("x") })
	u("Set", func(r *R, b builder.Update) builder.Update { return b.Set(lk.Pair("rejected", 1), 12) })
	u("Set existing", func(r *R, b builder.Update) builder.Update {
		return b.Set(lk.Pair("a", "rejected"), lk.Pair("id", "rejected"), lk.Pair("x", badArg(r)))
	})
	u("Set map", func(r *R, b builder.Update) builder.Update {
		return b.Set(lk.Map{"rejected": 1, "id": 5, "name": "x", "x": badArg(r), "y": 2})
	})
	u("Set texts", func(r *R, b builder.Update) builder.Update { return b.Set("rejected", "id", lk.Column("")) })
	u("Set mixed", func(r *R, b builder.Update) builder.Update { return b.Set(lk.Pair("rejected", 1), "rejected2") })
	u("Set mixed after", func(r *R, b builder.Update) builder.Update { return b.Set("rejected", "x", lk.Pair("y", 2)) })
	u("Set none", func(r *R, b builder.Update) builder.Update { return b.Set() })
	u("Set colliding", func(r *R, b builder.Update) builder.Update {
		return b.Set(lk.Pair("rejected", 1), lk.Map{"q": 1, lk.Column("q"): 2})
	})
	u("Using", func(r *R, b builder.Update) builder.Update { return b.Using(1, badArg(r)) })
	u("Using late", func(r *R, b builder.Update) builder.Update { return b.Using("rejected", "x", badArg(r), "y") })
	u("Using none", func(r *R, b builder.Update) builder.Update { return b.Using() })
	u("With", func(r *R, b builder.Update) builder.Update { return b.With(good(), stmt.WithQuery{}) })
	u("With bad", func(r *R, b builder.Update) builder.Update { return b.With(good(), lk.With("x", badArg(r))) })
	u("From", func(r *R, b builder.Update) builder.Update { return b.From(badArg(r)) })
	u("From undefined", func(r *R, b builder.Update) builder.Update { return b.From("") })
	u("From twice", func(r *R, b builder.Update) builder.Update { return b.From("rejected").From("x") })
	u("Returning", func(r *R, b builder.Update) builder.Update { return b.Returning("rejected", 3) })
	u("Returning undefined", func(r *R, b builder.Update) builder.Update { return b.Returning("rejected,") })
	d("From", func(r *R, b builder.Delete) builder.Delete { return b.From("rejected", 3) })
	d("From undefined", func(r *R, b builder.Delete) builder.Delete { return b.From(lk.Table("rejected"), "") })
	d("Using", func(r *R, b builder.Delete) builder.Delete { return b.Using("rejected", 3) })
	d("Using twice", func(r *R, b builder.Delete) builder.Delete { return b.Using("rejected").Using("x") })
	d("Returning", func(r *R, b builder.Delete) builder.Delete { return b.Returning("rejected", 3) })
	d("Returning raw", func(r *R, b builder.Delete) builder.Delete { return b.Returning("rejected", lk.Raw("")) })
	return out
}()

var badCallsOf = func() map[string][]badCall {
	m := map[string][]badCall{}
	for _, c := range badCalls {
		m[c.kinds] = append(m[c.kinds], c)
	}
	return m
}()

// bomb is a context which panics in the middle of a rendering.
type bomb struct{ left int }

func (c *bomb) tick() {
	c.left--
	if c.left < 0 {
		panic("harness: bomb")
	}
}
func (c *bomb) Write(string) { c.tick() }
func (c *bomb) Bind(any)     { c.tick() }

// brokenBuilders are rejected when they are rendered.
var brokenBuilders = []func() bld{
	func() bld { return lk.Insert("t") },
	func() bld { return lk.Update("t") },
	func() bld { return builder.NewSelect().From("t") },
	func() bld { return builder.NewDelete().Where(lk.Condition("a").Equal(1)) },
	func() bld { return lk.Update("t").Set("a", "b") },
	func() bld {
		return lk.Select("a").From("t").Where(lk.Condition("a").Equal(badValuer{})).And(lk.Condition("b").In(1, 2))
	},
	func() bld { return lk.Select("a").From("t").Where(lk.Condition("a").In(builder.NewSelect())) },
	func() bld {
		return lk.Select("a").From("t").Where(lk.Condition("b").Equal("half")).And(lk.Condition("a").In(builder.NewSelect()))
	},
	func() bld {
		return lk.Delete("t").Where(lk.Condition("b").Equal("half")).And(lk.Condition("a").In(builder.NewSelect()))
	},
	func() bld {
		return lk.Update("t").Set(lk.Pair("b", "half")).Where(lk.Condition("b").Equal("half")).And(lk.Exists(builder.NewSelect()))
	},
	func() bld {
		return lk.Insert("t").Columns("a", "b").Values("half", 1).Returning("a", lk.Exists(builder.NewSelect()))
	},
	func() bld {
		return lk.Select("a").From("t").With(lk.With("half", lk.Select("x").From("y").Where(lk.Condition("a").Equal(1))), lk.With("w", lk.Select("z").From("w").Where(lk.Condition("a").In(builder.NewSelect()))))
	},
	func() bld {
		return lk.Insert("t").Columns("a", "b").Values("half", builder.NewSelect())
	},
	func() bld { return lk.Insert("t").Columns("a").Values(1, badValuer{}) },
	func() bld { return lk.Update("t").Set(lk.Pair("a", badValuer{}), lk.Pair("b", 1)) },
}

// disturb makes renderings that panic.
func disturb(t *T, r *R, b bld) {
	switch r.N(4) {
	case 0, 3:
		var x bld
		if try(func() { x = brokenBuilders[r.N(len(brokenBuilders))]() }).Panicked {
			t.Ev("calls rejected", 1)
			return
		}
		fs := []func(){func() { x.Query() }, func() { x.NamedQuery() }, func() { _ = x.String() }}
		shuffle(r, fs)
		for _, f := range fs[:r.Range(1, 3)] {
			if try(f).Panicked {
				t.Ev("renderings rejected", 1)
			}
		}
	case 1:
		c := &bomb{r.N(30)}
		if try(func() { b.Statement().Write(c) }).Panicked {
			t.Ev("renderings interrupted", 1)
		}
	case 2:
		// As a part of another statement.
		c := &bomb{r.N(40)}
		if s, ok := b.(builder.Select); ok {
			_ = try(func() { lk.Delete("x").Where(lk.Condition("y").In(s)).Statement().Write(c) })
		} else {
			_ = try(func() { b.Statement().Write(c) })
		}
		t.Ev("renderings interrupted", 1)
	}
}

// canary is a valid program, rendered before any other one in this process.
type canary struct {
	mk   func() bld
	kept bld
	want string
	desc string
}

var canaries []canary

// watchCanaries renders the canaries for the first time.
func watchCanaries(t *T) {
	if canaries != nil {
		return
	}
	o := defaultOpts()
	o.kinds, o.sub, o.depth, o.extremes, o.comment = stableKinds, 3, 3, false, true
	for i := 0; i < 64; i++ {
		gen := func() *Prog {
			r := func(stream string) *R { return newR(t.w.seed, hash64("canary"), uint64(i), hash64(stream)) }
			return (&Gen{s: r("s"), v: r("v"), sp: r("sp"), pm: r("pm"), o: o}).Of(kinds4[i%4])
		}
		p := gen()
		if i < 4 {
			// Long and deep ones.
			e := stmt.Expression(lk.Condition("z").Equal(1))
			for k := 0; k < 10; k++ {
				e = lk.And(lk.Condition("y").In(lk.Select("x").From("t").Where(lk.Or(lk.Exists(lk.Select("w").Where(e)), lk.Condition("v").Between(k, 2)))), lk.Condition("u").NotIn(1, k))
			}
			kind := condPlaces[i]
			canaries = append(canaries, canary{mk: func() bld { return whereCall(kind, whereStart(kind), "Where", e) }, desc: "deep " + kind})
			continue
		}
		canaries = append(canaries, canary{mk: func() bld { return gen().Build() }, desc: p.Desc()})
	}
	for i := range canaries {
		c := &canaries[i]
		if o := try(func() { c.kept = c.mk() }); o.Panicked {
			t.Fail("a valid program is rejected: %s\n%s", o.Msg, c.desc)
		}
		c.want = outcomeOf(c.kept)
		if strings.HasPrefix(c.want, "panic: ") || strings.Contains(c.want, "\npanic: ") {
			t.Fail("a valid program cannot be rendered: %s\n%s", c.want, c.desc)
		}
	}
}

// checkCanary renders canaries again.
func checkCanary(t *T, which ...int) {
	for _, i := range which {
		c := canaries[i%len(canaries)]
		if got := outcomeOf(c.kept); got != c.want {
			t.Fail("after rejected calls and renderings, a builder made before all of them renders differently:\n  %s\n  %s\n%s", c.want, got, c.desc)
		}
		var b bld
		if o := try(func() { b = c.mk() }); o.Panicked {
			t.Fail("after rejected calls and renderings, this valid program is rejected: %s\n%s", o.Msg, c.desc)
		}
		if got := outcomeOf(b); got != c.want {
			t.Fail("after rejected calls and renderings, a new builder renders differently from the same one made before all of them:\n  %s\n  %s\n%s", c.want, got, c.desc)
		}
		t.Ev("canaries rendered", 1)
	}
}

func withCanaries(fn func(t *T)) func(t *T) {
	return func(t *T) {
		watchCanaries(t)
		fn(t)
		checkCanary(t, t.idx, t.idx/3+1)
	}
}

// p27Storm: one rejected call or rendering, many times.
func p27Storm(t *T) {
	r := t.R("storm")
	n := pick(r, 120, 300, 600, 1200)
	k := t.idx % p27Storms
	name := ""
	count := 0
	for i := 0; i < n; i++ {
		if k >= len(brokenBuilders)+len(badCalls) {
			// Interrupted at any point.
			x := canaries[r.N(4)*((k-len(brokenBuilders)-len(badCalls))%2)+r.N(len(canaries)-4)]
			name = "interruption"
			if try(func() { x.kept.Statement().Write(&bomb{r.N(60)}) }).Panicked {
				count++
			}
			continue
		}
		if k < len(brokenBuilders) {
			name = fmt.Sprintf("incomplete builder %d", k)
			var x bld
			if try(func() { x = brokenBuilders[k]() }).Panicked {
				count++
				continue
			}
			for _, f := range []func(){func() { x.Query() }, func() { x.NamedQuery() }, func() { _ = x.String() }} {
				if try(f).Panicked {
					count++
				}
			}
			continue
		}
		c := badCalls[k-len(brokenBuilders)]
		name = c.kinds + " " + c.name
		b := canaries[i%len(canaries)]
		for b.kept == nil || kindOf(b.kept) != c.kinds {
			b = canaries[r.N(len(canaries))]
		}
		if try(func() { _ = c.apply(r, b.kept) }).Panicked {
			count++
		}
	}
	for i := range canaries {
		checkCanary(t, i)
	}
	t.Ev("rejections in storms", count)
	if count > 100 {
		t.Distinct("storm", name)
	}
}

var p27Storms = len(brokenBuilders) + len(badCalls) + 10

func kindOf(b bld) string {
	switch b.(type) {
	case builder.Select:
		return "select"
	case builder.Insert:
		return "insert"
	case builder.Update:
		return "update"
	}
	return "delete"
}

// p27Before injects rejected calls before each step of a program.
func p27Before(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	kind := kinds4[t.idx%4]
	gen := func() *Prog { return newGen(t, o, "", "", "").Of(kind) }
	want := outcomeOf(gen().Build())
	p := gen()
	r := t.R("bad")
	bad := badCallsOf[kind]
	b := p.Start()
	var trail []string
	for i := 0; i <= len(p.Steps); i++ {
		before := outcomeOf(b)
		for k, n := 0, r.Size(1, 4); k < n; k++ {
			c := bad[r.N(len(bad))]
			oc := try(func() { _ = c.apply(r, b) })
			if oc.Panicked {
				t.Ev("calls rejected", 1)
				t.Distinct(kind, c.name, strconv.Itoa(i))
				trail = append(trail, fmt.Sprintf("before call %d: %s: %s", i, c.name, oc.Msg))
			} else {
				t.Ev("calls accepted", 1)
			}
			if r.P(25) {
				disturb(t, r, b)
			}
		}
		if after := outcomeOf(b); after != before {
			t.Fail("after rejected calls, the builder renders differently:\n  %s\n  %s\n%s\n%s", before, after, strings.Join(trail, "\n"), p.Desc())
		}
		if i < len(p.Steps) {
			if oc := try(func() { b = p.Steps[i].Apply(b) }); oc.Panicked {
				t.Fail("after rejected calls, this valid one is rejected: .%s: %s\n%s\n%s", p.Steps[i].Desc, oc.Msg, strings.Join(trail, "\n"), p.Desc())
			}
		}
	}
	if got := outcomeOf(b); got != want {
		t.Fail("with rejected calls in between:\n  want %s\n  got  %s\n%s\n%s", want, got, strings.Join(trail, "\n"), p.Desc())
	}
	t.Sample("%d rejected calls around %s", len(trail), brief(want))
}

// p27Joins: textual joins, some of which are rejected in the middle of the text, between valid ones.
func p27Joins(t *T) {
	r := t.R("joins")
	var trail []string
	for k := 0; k < 20; k++ {
		c := newJoinCase(r, pick(r, 1, 1, 2, 3))
		if r.P(60) {
			// A rejected one: a beginning, or a valid text with one token more, less, or instead of another.
			toks := append([]string{}, c.tokens...)
			i := r.N(len(toks))
			switch r.N(5) {
			case 0, 1:
				toks = toks[:i]
			case 2:
				toks = append(toks[:i:i], toks[i+1:]...)
			case 3:
				toks = append(toks[:i:i], append([]string{pick(r, p19Noise...)}, toks[i:]...)...)
			default:
				toks[i] = pick(r, p19Noise...)
			}
			text := layout(r, toks)
			o := try(func() { _ = c.apply(lk.Select("id").From("t"), text) })
			if o.Panicked {
				t.Ev("calls rejected", 1)
				t.Distinct("join", text)
				trail = append(trail, fmt.Sprintf("%q", text))
			} else {
				t.Ev("calls accepted", 1)
			}
			continue
		}
		text := layout(r, c.tokens)
		e, _ := c.structured()
		want := render(lk.Select("id").From("t").Join(c.table, e, c.typ))
		var got rendered
		if o := try(func() { got = render(c.apply(lk.Select("id").From("t"), text)) }); o.Panicked {
			t.Fail("after rejected joins, %q is rejected: %s\n%s", text, o.Msg, strings.Join(trail, "\n"))
		}
		if msg := got.equal(want); msg != "" {
			t.Fail("after rejected joins, %q and its structured form differ: %s\n%s", text, msg, strings.Join(trail, "\n"))
		}
		t.Ev("joins after rejected ones", 1)
	}
}

// p27Tree: rejected calls on builders which share a history.
func p27Tree(t *T) {
	kind := kinds4[t.idx%4]
	r := t.R("tree")
	pl := newPool(t, kind, 3, "pool")
	if len(pl.steps) == 0 {
		return
	}
	bad := badCallsOf[kind]
	type node struct {
		b     bld
		chain []int
		out   string
	}
	nodes := []node{{b: pl.progs[0].Start()}}
	nodes[0].out = outcomeOf(nodes[0].b)
	var trail []string
	for k := 0; k < 30; k++ {
		at := r.N(len(nodes))
		if r.P(40) {
			at = len(nodes) - 1
		}
		switch {
		case r.P(45):
			c := bad[r.N(len(bad))]
			if oc := try(func() { _ = c.apply(r, nodes[at].b) }); oc.Panicked {
				t.Ev("calls rejected", 1)
				trail = append(trail, fmt.Sprintf("on %d: %s: %s", at, c.name, oc.Msg))
			}
		case r.P(20):
			disturb(t, r, nodes[at].b)
		default:
			step := r.N(len(pl.steps))
			var b bld
			if oc := try(func() { b = pl.at(step).Apply(nodes[at].b) }); oc.Panicked {
				t.Ev("calls rejected", 1)
				trail = append(trail, fmt.Sprintf("on %d: %s: %s", at, pl.at(step).Desc, oc.Msg))
				continue
			}
			nodes = append(nodes, node{b, append(append([]int{}, nodes[at].chain...), step), outcomeOf(b)})
			trail = append(trail, fmt.Sprintf("on %d: %s is %d", at, pl.at(step).Desc, len(nodes)-1))
		}
	}
	for i, n := range nodes {
		if out := outcomeOf(n.b); out != n.out {
			t.Fail("builder %d changed:\n  %s\n  %s\n%s", i, n.out, out, strings.Join(trail, "\n"))
		}
		fp := newPool(t, kind, 3, "pool")
		fb := fp.progs[0].Start()
		oc := try(func() {
			for _, s := range n.chain {
				fb = fp.at(s).Apply(fb)
			}
		})
		if oc.Panicked {
			t.Fail("builder %d made alone: %s\n%s", i, oc.Msg, strings.Join(trail, "\n"))
		}
		if out := outcomeOf(fb); out != n.out {
			t.Fail("builder %d, among rejected calls, differs from the same one alone:\n  %s\n  %s\n%s", i, n.out, out, strings.Join(trail, "\n"))
		}
		t.Ev("builders compared", 1)
		if len(n.chain) > 1 {
			t.Distinct(n.out)
		}
	}
}

// p27Each: each rejected call before and after each valid call of the repertoire of its kind.
func p27Each(t *T) {
	c := badCalls[t.idx%len(badCalls)]
	r := t.R("each")
	pl := newPool(t, c.kinds, 4, "each")
	if len(pl.steps) == 0 {
		return
	}
	for k := 0; k < 25; k++ {
		chain := []int{}
		mk := func(p *pool, inject bool) (bld, string) {
			b := p.progs[0].Start()
			msg := ""
			for _, s := range chain {
				if inject {
					if oc := try(func() { _ = c.apply(t.R("args"), b) }); oc.Panicked {
						t.Ev("calls rejected", 1)
						msg = oc.Msg
					}
				}
				if oc := try(func() { b = p.at(s).Apply(b) }); oc.Panicked {
					return b, "rejected: " + oc.Msg
				}
			}
			if inject {
				_ = try(func() { _ = c.apply(t.R("args"), b) })
			}
			_ = msg
			return b, ""
		}
		for i, n := 0, r.Size(1, 4); i < n; i++ {
			chain = append(chain, r.N(len(pl.steps)))
		}
		b1, m1 := mk(newPool(t, c.kinds, 4, "each"), false)
		b2, m2 := mk(newPool(t, c.kinds, 4, "each"), true)
		if m1 != m2 {
			t.Fail("with %s in between: %q instead of %q", c.name, m2, m1)
		}
		if o1, o2 := outcomeOf(b1), outcomeOf(b2); o1 != o2 {
			t.Fail("with %s in between:\n  %s\n  %s", c.name, o1, o2)
		}
		t.Ev("builders compared", 1)
	}
	t.Distinct(c.kinds, c.name)
}

func init() {
	register(&Check{
		ID: "P27",
		Rule: "calls rejected by any of their arguments (some after valid ones, some by panicking encoders) and renderings which panic (incomplete statements, failing valuers, " +
			"panicking contexts) are injected between valid calls, on builders sharing a history; every builder must render as before and as the same one made without them, and so must fixed builders, first rendered before any rejection, after thousands of them.",
		Require: []string{"calls rejected", "builders compared", "renderings rejected", "renderings interrupted", "canaries rendered", "rejections in storms", "joins after rejected ones"},
		Families: []Family{
			{Name: "huge", Quick: 120, Thorough: 4000, Fn: hugely(200, withCanaries(p27Before))},
			{Name: "before", Quick: 3000, Thorough: 80000, Fn: withCanaries(p27Before)},
			{Name: "tree", Quick: 1000, Thorough: 25000, Fn: withCanaries(p27Tree)},
			{Name: "joins", Quick: 1500, Thorough: 40000, Fn: withCanaries(p27Joins)},
			{Name: "each", Quick: len(badCalls) * 2, Thorough: len(badCalls) * 40, Fn: withCanaries(p27Each)},
			{Name: "storm", Quick: p27Storms, Thorough: 8 * p27Storms, Fn: withCanaries(p27Storm)},
		},
	})
}

// ------------------------------------------------------------------------------------------------------------------ P28

const fragMarker = "ZQFRAGMENTZQ"

type fragPosition struct {
	name  string
	uses  int
	build func(f string) bld
}

var fragPositions = func() []fragPosition {
	var out []fragPosition
	add := func(name string, uses int, f func(f string) bld) { out = append(out, fragPosition{name, uses, f}) }
	a := lk.Condition("a")
	where := func(name string, uses int, e func(f string) stmt.Expression) {
		add(name, uses, func(f string) bld {
			return lk.Select("x", "y").From("t").Where(lk.Condition("p").Equal("before")).And(e(f)).And(lk.Condition("q").In(1, 2))
		})
	}
	for _, op := range identOps {
		op := op
		where("raw identifier "+op.op, 1, func(f string) stmt.Expression { return op.fn(a, lk.Raw(f)) })
	}
	for _, op := range callOps {
		op := op
		where("raw call "+op.op, 2, func(f string) stmt.Expression { return op.fn(stmt.NewCall(f, stmt.NewExpression(1)), lk.Raw(f)) })
	}
	for _, op := range valueOps {
		op := op
		where("raw value "+op.op, 1, func(f string) stmt.Expression { return op.fn(lk.Value(3), lk.Raw(f)) })
	}
	where("raw condition", 1, func(f string) stmt.Expression { return lk.Raw(f) })
	where("raw left", 1, func(f string) stmt.Expression { return lk.Condition(lk.Raw(f)).Equal(1) })
	where("raw in", 1, func(f string) stmt.Expression { return a.In(lk.Raw(f)) })
	where("raw in list", 2, func(f string) stmt.Expression { return a.NotIn(1, lk.Raw(f), "z", lk.Raw(f)) })
	where("raw in slice", 1, func(f string) stmt.Expression { return a.In([]any{1, lk.Raw(f)}) })
	where("raw left of in", 1, func(f string) stmt.Expression { return lk.Condition(lk.Raw(f)).In(1, 2) })
	where("raw between", 2, func(f string) stmt.Expression { return a.Between(lk.Raw(f), lk.Raw(f)) })
	where("raw between from", 1, func(f string) stmt.Expression { return a.NotBetween(lk.Raw(f), 1) })
	where("raw left of between", 1, func(f string) stmt.Expression { return lk.Condition(lk.Raw(f)).Between(1, 2) })
	where("raw and", 1, func(f string) stmt.Expression { return lk.And(a.Equal(1), lk.Raw(f)) })
	where("raw or", 2, func(f string) stmt.Expression { return lk.Or(lk.Raw(f), lk.Raw(f)) })
	where("raw method", 1, func(f string) stmt.Expression { return a.Equal(1).Or(lk.Raw(f)) })
	where("raw method of in", 1, func(f string) stmt.Expression { return a.In(1, 2).And(lk.Raw(f)) })
	where("raw call argument", 1, func(f string) stmt.Expression { return stmt.NewCall("f", lk.Raw(f)) })
	where("raw call arguments", 2, func(f string) stmt.Expression {
		return stmt.NewCall("f", lk.Raw(f), stmt.NewExpression(1), lk.Raw(f))
	})
	where("call name", 1, func(f string) stmt.Expression { return stmt.NewCall(f) })
	where("call name with arguments", 1, func(f string) stmt.Expression {
		return stmt.NewCall(f, stmt.NewExpression(1), stmt.NewExpression("x")).Equal(2)
	})
	where("call as identifier", 1, func(f string) stmt.Expression {
		return lk.Condition(stmt.NewCall(f, stmt.NewExpression(1))).GreaterThan(2)
	})
	where("raw in a subquery", 3, func(f string) stmt.Expression {
		return lk.Exists(lk.Select(lk.Raw(f)).From("u").Where(lk.Condition("b").Equal(lk.Raw(f))).OrderBy(lk.Order(f)))
	})
	sl := func() builder.Select { return lk.Select("id").From("t").Where(a.Equal("v")) }
	add("raw select item", 1, func(f string) bld { return lk.Select(lk.Raw(f)).From("t").Where(a.Equal(1)) })
	add("raw select items", 2, func(f string) bld {
		return lk.Select("x", lk.Raw(f), lk.Column("y").As("z"), lk.Raw(f)).From("t").Where(a.Equal(1))
	})
	add("raw select expressions", 1, func(f string) bld { return lk.Select([]stmt.SelectExpression{lk.Raw(f), lk.Column("b")}) })
	add("raw table", 1, func(f string) bld { return lk.Select("x").From(lk.Raw(f)).Where(a.Equal(1)) })
	add("raw tables", 1, func(f string) bld {
		return lk.Select("x").From("a", lk.Raw(f), lk.Table("b").As("c")).Where(a.Equal(1))
	})
	add("raw table of delete", 1, func(f string) bld { return lk.Delete(lk.Raw(f)).Where(a.Equal(1)) })
	add("raw table of update", 1, func(f string) bld { return lk.Update("t").Set(lk.Pair("a", 1)).From(lk.Raw(f)).Where(a.Equal(1)) })
	add("raw having", 1, func(f string) bld { return lk.Select("x").From("t").GroupBy("x").Having(lk.Raw(f)) })
	add("raw having operand", 1, func(f string) bld { return lk.Select("x").From("t").Having(a.Equal(lk.Raw(f))).Limit(3) })
	add("order", 1, func(f string) bld { return sl().OrderBy(lk.Order(f)) })
	add("order desc", 2, func(f string) bld { return sl().OrderBy(lk.Order("x"), lk.Order(f, lk.Desc), lk.Order(f)).Limit(1) })
	add("order of column", 1, func(f string) bld { return sl().OrderBy(lk.Column(f).Desc()) })
	add("order of alias", 1, func(f string) bld { return sl().OrderBy(lk.Column("x").As(f).Asc()) })
	add("aggregates", 4, func(f string) bld {
		return lk.Select(lk.Count(f), lk.Max(f), lk.Min(f), lk.Sum(f)).From("t").Where(a.Equal(1))
	})
	add("distinct count", 1, func(f string) bld { return lk.Select(lk.Count(f).Distinct(true)).From("t").Where(a.Equal(1)) })
	add("aliases of aggregates", 4, func(f string) bld {
		return lk.Select(lk.Count("a").As(f), lk.Max("b").As(f), lk.Min("c").As(f), lk.Sum("d").As(f)).From("t").Where(a.Equal(1))
	})
	add("aggregate in returning", 2, func(f string) bld { return lk.Delete("t").Where(a.Equal(1)).Returning("id", lk.Count(f).As(f)) })
	add("prefix", 1, func(f string) bld { return sl().Prefix(f) })
	add("prefix statement", 1, func(f string) bld { return sl().Prefix(stmt.NewPrefix(f)) })
	add("suffix", 1, func(f string) bld { return sl().Limit(1).Suffix(f) })
	add("suffix statement", 1, func(f string) bld { return sl().Suffix(stmt.NewSuffix(f)) })
	add("prefix and suffix", 2, func(f string) bld { return sl().Suffix(f).Prefix(f) })
	add("suffix of a subquery", 1, func(f string) bld { return lk.Delete("t").Where(a.In(sl().Suffix(f))).Or(a.Equal(2)) })
	add("cte name", 1, func(f string) bld { return sl().With(lk.With(f, sl())) })
	add("cte names", 2, func(f string) bld { return sl().With(lk.With("w", sl()), lk.With(f, sl()), lk.With(f, sl())) })
	add("cte name of update", 1, func(f string) bld { return lk.Update("t").Set(lk.Pair("a", 1)).With(lk.With(f, sl())) })
	add("raw in a cte", 1, func(f string) bld { return sl().With(lk.With("w", lk.Select(lk.Raw(f)).From("t").Where(a.Equal(2)))) })
	add("raw pair", 1, func(f string) bld {
		return lk.Update("t").Set(lk.Pair("a", 1), lk.Pair("b", lk.Raw(f)), lk.Pair("c", "z"))
	})
	add("raw map", 1, func(f string) bld { return lk.Update("t").Set(lk.Map{"a": lk.Raw(f), "b": 1}) })
	add("raw using", 2, func(f string) bld { return lk.Update("t").Set("a", "b", "c").Using(lk.Raw(f), 1, lk.Raw(f)) })
	add("raw using single", 1, func(f string) bld { return lk.Update("t").Set("a").Using(lk.Raw(f)) })
	add("raw values", 1, func(f string) bld { return lk.Insert("t").Columns("a", "b").Values(1, lk.Raw(f)) })
	add("raw value", 1, func(f string) bld { return lk.Insert("t").Columns("a").Values(lk.Raw(f)) })
	add("raw rows", 2, func(f string) bld { return lk.Insert("t").Values([][]any{{1, lk.Raw(f)}, {lk.Raw(f), 2}}) })
	add("raw insert pair", 1, func(f string) bld { return lk.Insert("t").Set(lk.Pair("a", lk.Raw(f)), lk.Pair("b", 1)) })
	add("raw upsert pair", 1, func(f string) bld {
		return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(lk.Pair("a", 1), lk.Pair("b", lk.Raw(f)))).Returning("id")
	})
	add("raw returning", 1, func(f string) bld { return lk.Insert("t").Values(1).Returning("id", lk.Raw(f)) })
	add("raw returning of update", 1, func(f string) bld { return lk.Update("t").Set(lk.Pair("a", 1)).Returning(lk.Raw(f)) })
	return out
}()

// sqlTails and sqlHeads are pieces of SQL which people write in the places where loukoum takes text as it is.
var sqlTails = []string{
	"NULLS LAST", "NULLS FIRST", "ASC", "DESC", "COLLATE \"C\"", "COLLATE pg_catalog.default", "USING >", "USING <", "ASC NULLS FIRST", "DESC NULLS LAST",
	"AS y", "AS \"Y\"", "y", "FILTER (WHERE z > 1)", "OVER (PARTITION BY a ORDER BY b)", "OVER w", "AT TIME ZONE 'UTC'", "IS NULL", "IS NOT NULL", "IS TRUE",
	"ILIKE '%a%'", "ESCAPE '\\'", "NOT IN (1, 2)", "= ANY ('{1,2}')", "BETWEEN 1 AND 2", "FOR UPDATE", "FOR UPDATE OF x NOWAIT", "FOR SHARE SKIP LOCKED",
	"LIMIT 1", "OFFSET 2", "LIMIT ALL", "FETCH FIRST 3 ROWS ONLY", "UNION ALL SELECT 1", "EXCEPT SELECT 2", "WITH ORDINALITY", "TABLESAMPLE SYSTEM (1)",
	"::text", "::int[]", "->'k'", "->>'k'", "#>'{a,b}'", "#>>'{a}'", "@> '{}'", "? 'k'", "?| array['a']", "?& array['a']", "[1]", "[1:2]", "|| 'b'", "+ 1", "- 1", "* 2", "/ 3", "% 4", "^ 2", "!~ 'a'", "~* 'b'",
	"<> 1", "!= 1", "<= 2", ">= 3", "= x", "&& y", "<-> z", "-- tail", "/* tail */", "--", "/*", "*/", ";", ";;", "; DROP TABLE t", ",", ", y", ", y DESC", "(", ")", "(a, b)", "AS (a, b)", "AS MATERIALIZED", "AS NOT MATERIALIZED",
	"ON CONFLICT DO NOTHING", "RETURNING *", "SET a = 1", "WHERE a", "ORDER BY a", "GROUP BY a", "HAVING a", "AND b", "OR b", "JOIN u ON a = b", "DEFAULT", "CASCADE", "ONLY", "INTO z",
}

var sqlHeads = []string{
	"x", "\"x\"", "t.x", "\"t\".\"x\"", "t.*", "*", "lower(x)", "count(*)", "COUNT(x)", "COUNT(DISTINCT x)", "DISTINCT x", "DISTINCT ON (x) x", "ALL x", "ONLY x", "LATERAL x", "RECURSIVE x", "x(a, b)",
	"coalesce(x, 0)", "NULLIF(x, '')", "now()", "NOW()", "CURRENT_TIMESTAMP", "INTERVAL '1 day'", "DATE '2020-01-01'", "TIMESTAMP WITH TIME ZONE '2020-01-01 00:00:00+00'", "CAST(x AS text)", "x::text",
	"CASE WHEN x > 1 THEN 'a' ELSE 'b' END", "ARRAY[1, 2]", "ROW(1, 2)", "(SELECT 1)", "(SELECT x FROM u WHERE u.a = t.b)", "EXISTS (SELECT 1)", "NOT x", "NOT (x)", "- x", "+1", "(x)", "((x))", "(x, y)", "()", "NULL", "TRUE", "false",
	"DEFAULT", "E'\\n'", "U&'d\\0061'", "B'101'", "X'1F'", "N'a'", "$$a$$", "$tag$a$tag$", "$1", "$1::int", ":x", "@x", "?", "1", "0x1F", "1e10", ".5", "1_000", "VALUES (1)", "SELECT 1", "EXPLAIN", "EXPLAIN ANALYZE", "EXPLAIN (FORMAT JSON)", "/* head */", "/*+ SeqScan(t) */", "-- head\n",
	"WITH z AS (SELECT 1)", "\u00ab\u00bb", "[x]", "`x`", "x AS y", "x y", "excluded.x", "EXCLUDED.x", "nextval('s')", "generate_series(1, 3)", "unnest(x)", "jsonb_build_object('a', 1)", "x.y.z.w", "COUNT", "count", "asc", "desc", "order", "ORDER BY x", "group", "NULLS LAST",
}

func sqlFragment(r *R) string {
	f := pick(r, sqlHeads...)
	if r.P(20) {
		f = pick(r, sqlTails...)
	}
	for n := r.N(3); n > 0; n-- {
		f += pick(r, " ", " ", " ", "", "  ", "\n", "\t") + pick(r, sqlTails...)
	}
	switch r.N(8) {
	case 0:
		f = strings.ToLower(f)
	case 1:
		f = strings.ToUpper(f)
	}
	return f
}

func fragment(r *R) string {
	switch r.N(11) {
	case 7, 8, 9, 10:
		return sqlFragment(r)
	case 0:
		return special[1+r.N(len(special)-1)]
	case 1:
		return pick(r, " ", "  x", "x  ", "\n", "\ta\t", "a,b", "a, b", "a.b", "\"a\"", "a b", "x;", "*", "t.*", "$1", "$12", ":arg_3", "?", "%s", "%d%%", "--", "'", "''", "\\", "\"", "E'\\n'", "$$x$$", "\x00",
			"\xff\xfe", "NULL", "é", "\u2028", "{}", "()", "(", ")", "1", "SELECT 1", "a OR b", "AND", "DISTINCT x", "x ASC", "count(*)", "\ufeffx", "A", "a")
	case 2:
		return string(anyBytes(r)) + "x"
	case 3:
		return hostileText(r, 60) + "."
	default:
		return hostileText(r, 6) + pick(r, "x", " ", "'", ")", "$1", "\"", ".", "\n")
	}
}

func p28Judge(t *T, pos fragPosition, f string, marked rendered) {
	got := render(pos.build(f))
	for k, x := range [][2]string{{marked.Q, got.Q}, {marked.NQ, got.NQ}, {marked.S, got.S}} {
		if n := strings.Count(x[0], fragMarker); n != pos.uses {
			t.Fail("%s: %s rendering: the fragment is written %d times, not %d: %s", pos.name, modeNames[k], n, pos.uses, x[0])
		}
		if want := strings.ReplaceAll(x[0], fragMarker, f); want != x[1] {
			t.Fail("%s: %s rendering: the fragment %q is not written as it is:\n  %q\n  %q", pos.name, modeNames[k], f, x[1], want)
		}
	}
	if !sameArgs(got.Args, marked.Args) || !sameNamed(got.NArgs, marked.NArgs) {
		t.Fail("%s: the fragment %q changes the arguments: %s, %s", pos.name, f, describeArgs(got.Args), describeArgs(marked.Args))
	}
	t.Ev("fragments compared", pos.uses)
}

func p28Position(t *T) {
	pos := fragPositions[t.idx%len(fragPositions)]
	r := t.R("fragment")
	marked := render(pos.build(fragMarker))
	for k := 0; k < 30; k++ {
		f := fragment(r)
		p28Judge(t, pos, f, marked)
		t.Distinct(pos.name, f)
	}
	t.Sample("%s: %q", pos.name, brief(pos.build(fragment(r)).String()))
}

// p28Snippets: every piece of SQL, alone and after a name, at each position.
func p28Snippets(t *T) {
	pos := fragPositions[t.idx%len(fragPositions)]
	marked := render(pos.build(fragMarker))
	n := 0
	for _, f := range sqlHeads {
		p28Judge(t, pos, f, marked)
		n++
	}
	for _, f := range sqlTails {
		for _, g := range []string{f, "x " + f, "x" + f, "t.x " + strings.ToLower(f)} {
			p28Judge(t, pos, g, marked)
			n++
		}
	}
	t.Ev("snippets", n)
	t.Distinct("snippets", pos.name)
}

// p28Characters: every byte and every BMP character, alone and at both ends, at each position.
func p28Characters(t *T) {
	pos := fragPositions[t.idx%len(fragPositions)]
	marked := render(pos.build(fragMarker))
	r := t.R("char")
	for i := 0; i < 256; i++ {
		for _, f := range []string{string([]byte{byte(i)}), "a" + string([]byte{byte(i)}), string([]byte{byte(i)}) + "a", string(rune(r.Range(128, 0xffff)))} {
			p28Judge(t, pos, f, marked)
		}
	}
	t.Ev("characters", 256)
	t.Distinct("characters", pos.name)
}

// p28Pairs: two different fragments, at two positions of the same statement, are not mixed up.
func p28Many(t *T) {
	r := t.R("many")
	n := r.Range(5, 60)
	items := make([]any, n)
	marks := make([]any, n)
	pairs := make([]string, 0, 2*n)
	for i := range items {
		f := fragment(r)
		m := fragMarker + "<" + strconv.Itoa(i) + ">"
		pairs = append(pairs, m, f)
		switch r.N(3) {
		case 0:
			items[i], marks[i] = lk.Raw(f), lk.Raw(m)
		case 1:
			items[i], marks[i] = lk.Count(f), lk.Count(m)
		default:
			items[i], marks[i] = lk.Exists(lk.Select(lk.Raw(f))), lk.Exists(lk.Select(lk.Raw(m)))
		}
	}
	rep := strings.NewReplacer(pairs...)
	mk := func(items []any) bld { return lk.Select(items...).From("t").Where(lk.Condition("a").Equal("arg")) }
	got, marked := render(mk(items)), render(mk(marks))
	for k, x := range [][2]string{{marked.Q, got.Q}, {marked.NQ, got.NQ}, {marked.S, got.S}} {
		if want := rep.Replace(x[0]); want != x[1] {
			t.Fail("%s rendering of %d fragments:\n  %q\n  %q", modeNames[k], n, x[1], want)
		}
	}
	t.Ev("fragments compared", n)
	t.Distinct("many", got.Q)
}

func init() {
	register(&Check{
		ID: "P28",
		Rule: "differential: the same statement with the fragment and with a unique marker at each position of the API; replacing the marker must give the former, in the three " +
			"renderings, with the same arguments. Fragments are any bytes, and pieces of SQL.",
		Require: []string{"fragments compared", "characters", "snippets"},
		Families: []Family{
			{Name: "positions", Quick: len(fragPositions) * 40, Thorough: len(fragPositions) * 1500, Fn: p28Position},
			{Name: "lengths", Quick: len(fragPositions) * 12, Thorough: len(fragPositions) * 120, Fn: p28Lengths},
			{Name: "characters", Quick: len(fragPositions), Thorough: len(fragPositions) * 20, Fn: p28Characters},
			{Name: "snippets", Quick: len(fragPositions), Thorough: len(fragPositions), Fn: p28Snippets},
			{Name: "many", Quick: 400, Thorough: 10000, Fn: p28Many},
		},
	})
}

// ------------------------------------------------------------------------------------------------------------------ P29

// p29Random: programs with the same structure and values, in other spellings.
func p29Random(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	o.sameText = true
	kind := kinds4[t.idx%4]
	co := o
	co.spell = false
	canon := newGen(t, co, "", "", "").Of(kind)
	want := render(canon.Build())
	for k := 0; k < 4; k++ {
		p := newGen(t, o, "", strconv.Itoa(k), strconv.Itoa(k)).Of(kind)
		if msg := want.equal(render(p.Build())); msg != "" {
			t.Fail("two spellings of the same statement: %s\n--- canonical\n%s\n--- other\n%s", msg, canon.Desc(), p.Desc())
		}
		t.Ev("spellings compared", 1)
		t.Distinct(p.Desc())
	}
	t.Sample("%s", want.Q)
}

// equivalence: every form gives the same statement.
type equivalence struct {
	name  string
	forms func(r *R) []func() bld
}

// userColumns etc: forms made by a user.
type userInt64 int64

func (u userInt64) Int64() int64 { return int64(u) }

var equivalences = func() []equivalence {
	var out []equivalence
	type F = func() bld
	add := func(name string, f func(r *R) []F) { out = append(out, equivalence{name, f}) }
	names := func(r *R, n int) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, benignPart(r)+strconv.Itoa(i))
			if r.P(30) {
				out[i] = "t." + out[i]
			}
		}
		return out
	}
	cols := func(ns []string) []stmt.Column {
		var out []stmt.Column
		for _, n := range ns {
			out = append(out, lk.Column(n))
		}
		return out
	}
	anys := func(ns []string) []any {
		var out []any
		for _, n := range ns {
			out = append(out, n)
		}
		return out
	}
	anyCols := func(ns []string) []any {
		var out []any
		for _, n := range ns {
			out = append(out, lk.Column(n))
		}
		return out
	}
	mixed := func(ns []string) []any {
		out := anys(ns)
		for i := 1; i < len(out); i += 2 {
			out[i] = lk.Column(ns[i])
		}
		return out
	}
	exprs := func(ns []string) []stmt.SelectExpression {
		var out []stmt.SelectExpression
		for _, n := range ns {
			out = append(out, lk.Column(n))
		}
		return out
	}
	grouped := func(ns []string) []any {
		if len(ns) < 2 {
			return anys(ns)
		}
		return []any{ns[0], strings.Join(ns[1:], ", ")}
	}
	columnForms := func(r *R, selects bool) [][]any {
		ns := names(r, r.count(1, 6))
		forms := [][]any{anys(ns), anyCols(ns), mixed(ns), {cols(ns)}, {ns}, {strings.Join(ns, ",")}, {strings.Join(ns, ", ")}, {" " + strings.Join(ns, " ,\t") + " "}, grouped(ns)}
		if selects {
			forms = append(forms, []any{exprs(ns)})
		}
		return forms
	}
	each := func(forms [][]any, f func(args []any) bld) []F {
		var out []F
		for _, args := range forms {
			args := args
			out = append(out, func() bld { return f(args) })
		}
		return out
	}
	add("select columns", func(r *R) []F {
		forms := columnForms(r, true)
		fs := each(forms, func(a []any) bld { return lk.Select(a...).From("t") })
		return append(fs, each(forms, func(a []any) bld { return builder.NewSelect().Columns(a...).From("t") })...)
	})
	add("distinct on", func(r *R) []F {
		return each(columnForms(r, false), func(a []any) bld { return lk.Select("x").DistinctOn(a...).From("t") })
	})
	add("group by", func(r *R) []F {
		return each(columnForms(r, false), func(a []any) bld { return lk.Select("x").From("t").GroupBy(a...) })
	})
	add("insert columns", func(r *R) []F {
		return each(columnForms(r, false), func(a []any) bld { return lk.Insert("t").Columns(a...).Values(1) })
	})
	add("insert returning", func(r *R) []F {
		return each(columnForms(r, true), func(a []any) bld { return lk.Insert("t").Values(1).Returning(a...) })
	})
	add("update returning", func(r *R) []F {
		return each(columnForms(r, true), func(a []any) bld { return lk.Update("t").Set(lk.Pair("a", 1)).Returning(a...) })
	})
	add("delete returning", func(r *R) []F {
		return each(columnForms(r, true), func(a []any) bld { return lk.Delete("t").Returning(a...) })
	})
	add("update columns", func(r *R) []F {
		ns := names(r, r.count(1, 5))
		vals := make([]any, len(ns))
		for i := range vals {
			vals[i] = i
		}
		forms := [][]any{anys(ns), anyCols(ns), mixed(ns), {strings.Join(ns, ",")}, {strings.Join(ns, " , ")}, grouped(ns)}
		fs := each(forms, func(a []any) bld { return lk.Update("t").Set(a...).Using(vals...) })
		fs = append(fs, func() bld {
			b := lk.Update("t")
			for _, n := range ns {
				b = b.Set(n)
			}
			return b.Using(vals...)
		}, func() bld {
			b := lk.Update("t").Set(anyCols(ns)...)
			for _, v := range vals {
				b = b.Using(v)
			}
			return b
		})
		return fs
	})
	add("select all", func(r *R) []F {
		return []F{
			func() bld { return lk.Select().From("t") }, func() bld { return lk.Select("*").From("t") }, func() bld { return lk.Select(lk.Column("*")).From("t") },
			func() bld { return builder.NewSelect().Columns().From("t") },
		}
	})
	add("aliased columns", func(r *R) []F {
		n, a := benignPart(r), benignPart(r)
		return []F{
			func() bld { return lk.Select(lk.Column(n).As(a)) }, func() bld { return lk.Select(stmt.NewColumnAlias(n, a)) },
			func() bld { return lk.Select([]stmt.Column{lk.Column(n).As(a)}) }, func() bld { return lk.Select([]stmt.SelectExpression{lk.Column(n).As(a)}) },
		}
	})
	add("table of select", func(r *R) []F {
		n, m := benignPart(r), benignPart(r)
		return []F{
			func() bld { return lk.Select("x").From(n, m) }, func() bld { return lk.Select("x").From(lk.Table(n), m) }, func() bld { return lk.Select("x").From(lk.Table(n), lk.Table(m)) },
			func() bld { return lk.Select("x").From(stmt.NewFrom([]stmt.Statement{lk.Table(n), lk.Table(m)})) },
			func() bld { return lk.Select("x").From(n, stmt.NewFrom([]stmt.Statement{lk.Table(m)})) },
		}
	})
	add("table of insert", func(r *R) []F {
		n := benignPart(r)
		return []F{
			func() bld { return lk.Insert(n).Values(1) }, func() bld { return lk.Insert(lk.Table(n)).Values(1) }, func() bld { return lk.Insert(stmt.NewInto(lk.Table(n))).Values(1) },
			func() bld { return builder.NewInsert().Into(n).Values(1) }, func() bld { return builder.NewInsert().Values(1).Into(lk.Table(n)) },
		}
	})
	add("table of update", func(r *R) []F {
		n, m := benignPart(r), benignPart(r)
		return []F{
			func() bld { return lk.Update(n).Set(lk.Pair("a", 1)).From(m) }, func() bld { return lk.Update(lk.Table(n)).Set(lk.Pair("a", 1)).From(lk.Table(m)) },
			func() bld {
				return builder.NewUpdate(n).From(stmt.NewFrom([]stmt.Statement{lk.Table(m)})).Set(lk.Pair("a", 1))
			},
		}
	})
	add("table of delete", func(r *R) []F {
		n, m := benignPart(r), benignPart(r)
		return []F{
			func() bld { return lk.Delete(n).Using(m) }, func() bld { return lk.Delete(lk.Table(n)).Using(lk.Table(m)) }, func() bld { return builder.NewDelete().From(n).Using(m) },
			func() bld {
				return builder.NewDelete().Using(lk.Table(m)).From(stmt.NewFrom([]stmt.Statement{lk.Table(n)}))
			},
		}
	})
	add("only", func(r *R) []F {
		n := benignPart(r)
		return []F{
			func() bld { return lk.Update(n).Only().Set(lk.Pair("a", 1)) }, func() bld { return lk.Update(lk.Table(n)).Set(lk.Pair("a", 1)).Only() },
		}
	})
	pairForms := func(r *R, ns []string) [][]any {
		var pairs, colPairs, split []any
		m, mc, ms := lk.Map{}, types.Map{}, map[string]interface{}{}
		for i, n := range ns {
			var v any = fmt.Sprintf("v%d", i)
			switch r.N(8) {
			case 0:
				v = nil
			case 1:
				v = lk.Raw("NOW()")
			case 2:
				v = lk.Select("z").From("y").Where(lk.Condition("x").Equal(i))
			case 3, 4:
				v = makeVal(stableKinds[r.N(len(stableKinds))], r).In
			}
			pairs, colPairs = append(pairs, lk.Pair(n, v)), append(colPairs, types.Pair{Key: lk.Column(n), Value: v})
			m[n], mc[lk.Column(n)], ms[n] = v, v, v
			if i%2 == 0 {
				split = append(split, lk.Map{n: v})
			} else {
				split = append(split, lk.Pair(n, v))
			}
		}
		return [][]any{pairs, colPairs, {m}, {mc}, {ms}, split, {m, ms}, append([]any{lk.Pair(ns[0], "overwritten")}, pairs...)}
	}
	add("update pairs", func(r *R) []F {
		ns := names(r, r.count(1, 6))
		forms := pairForms(r, ns)
		return append(each(forms, func(a []any) bld { return lk.Update("t").Set(a...) }), func() bld {
			b := lk.Update("t")
			for _, p := range forms[0] {
				b = b.Set(p)
			}
			return b
		})
	})
	add("insert pairs", func(r *R) []F {
		return each(pairForms(r, names(r, r.count(1, 6))), func(a []any) bld { return lk.Insert("t").Set(a...) })
	})
	add("upsert pairs", func(r *R) []F {
		return each(pairForms(r, names(r, r.count(1, 6))), func(a []any) bld { return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(a...)) })
	})
	add("conflict target", func(r *R) []F {
		return []F{
			func() bld { return lk.Insert("t").Values(1).OnConflict("a", "b", lk.DoNothing()) },
			func() bld { return lk.Insert("t").Values(1).OnConflict(lk.Column("a"), "b", lk.DoNothing()) },
			func() bld {
				return lk.Insert("t").Values(1).OnConflict(" a ", lk.Column("b"), stmt.NewConflictNoAction())
			},
		}
	})
	add("values", func(r *R) []F {
		n := r.count(2, 6)
		var ints []int
		var strs []string
		var as []any
		var es, ss []stmt.Expression
		var sa []any
		for i := 0; i < n; i++ {
			v, s := r.N(1000), benignPart(r)
			ints, strs, as, es = append(ints, v), append(strs, s), append(as, v), append(es, stmt.NewExpression(v))
			sa, ss = append(sa, s), append(ss, lk.Value(s))
		}
		b := func() builder.Insert { return lk.Insert("t").Columns("a") }
		if r.P(50) {
			return []F{
				func() bld { return b().Values(as...) }, func() bld { return b().Values(ints) }, func() bld { return b().Values(as) }, func() bld { return b().Values(es) },
				func() bld { return b().Values([][]int{ints}) }, func() bld { return b().Values([][]any{as}) }, func() bld { return b().Values([][]stmt.Expression{es}) },
			}
		}
		return []F{
			func() bld { return b().Values(sa...) }, func() bld { return b().Values(sa) }, func() bld { return b().Values(ss) },
			func() bld { return b().Values([][]string{strs}) }, func() bld { return b().Values([][]any{sa}) }, func() bld { return b().Values(strs) },
		}
	})
	add("rows", func(r *R) []F {
		var i1 [][]int
		var i2 [][]int64
		var a1, a2 [][]any
		var e1, e2 [][]stmt.Expression
		for i, n := 0, r.count(3, 3); i < n; i++ {
			x, y := r.N(1000), r.N(1000)
			i1, a1, e1 = append(i1, []int{x, y}), append(a1, []any{x, y}), append(e1, []stmt.Expression{lk.Value(x), stmt.NewExpression(y)})
			i2, a2, e2 = append(i2, []int64{int64(x), int64(y)}), append(a2, []any{int64(x), encInt64{int64(y)}}), append(e2, []stmt.Expression{lk.Value(int64(x)), lk.Value(int64(y))})
		}
		b := func() builder.Insert { return lk.Insert("t").Columns("a", "b") }
		if r.P(50) {
			return []F{func() bld { return b().Values(i1) }, func() bld { return b().Values(a1) }, func() bld { return b().Values(e1) }}
		}
		return []F{func() bld { return b().Values(i2) }, func() bld { return b().Values(a2) }, func() bld { return b().Values(e2) }}
	})
	add("in", func(r *R) []F {
		a := lk.Condition("a")
		neg, call := r.P(50), r.P(30)
		var ints []int
		var as []any
		var es []stmt.Expression
		for i, n := 0, r.count(1, 8); i < n; i++ {
			v := r.N(1000)
			ints, as, es = append(ints, v), append(as, v), append(es, stmt.NewExpression(v))
		}
		return each([][]any{as, {ints}, {as}, {es}}, func(x []any) bld {
			if call {
				return lk.Delete("t").Where(stmt.NewCall("f").In(x...))
			}
			if neg {
				return lk.Delete("t").Where(a.NotIn(x...))
			}
			return lk.Delete("t").Where(a.In(x...))
		})
	})
	add("typed lists", func(r *R) []F {
		d := sliceDefs[r.N(len(sliceDefs))]
		n := r.count(1, 8)
		if r.grow == 0 && r.P(10) {
			n = r.Range(9, 70)
		}
		var vals []*Val
		var as []any
		var es []stmt.Expression
		for i := 0; i < n; i++ {
			v := makeVal(d.kind, r)
			vals, as, es = append(vals, v), append(as, v.In), append(es, stmt.NewExpression(v.In))
		}
		forms := [][]any{as, {d.mk(vals)}, {as}, {es}}
		way := r.N(5)
		return each(forms, func(x []any) bld {
			switch way {
			case 0:
				return lk.Delete("t").Where(stmt.NewCall("f").In(x...))
			case 1:
				return lk.Select("x").Having(lk.Condition("a").NotIn(x...))
			case 2:
				return lk.Insert("t").Values(x...)
			case 3:
				return lk.Select("x").Where(lk.Condition("t.b").In(x...))
			}
			return lk.Update("t").Set(lk.Pair("a", 1)).Where(lk.Condition("a").In(x...))
		})
	})
	add("integers", func(r *R) []F {
		n := r.Range(1, 127)
		forms := []any{n, int8(n), int16(n), int32(n), int64(n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), strconv.Itoa(n)}
		var fs []F
		for _, l := range append(forms, lk.Limit(int64(n)), stmt.NewLimit(int64(n))) {
			l := l
			fs = append(fs, func() bld { return lk.Select("x").Limit(l).Offset(n) })
		}
		for _, l := range append(forms, lk.Offset(int64(n)), stmt.NewOffset(int64(n))) {
			l := l
			fs = append(fs, func() bld { return lk.Select("x").Offset(l).Limit(n) })
		}
		return fs
	})
	add("orders", func(r *R) []F {
		n := benignPart(r)
		return []F{
			func() bld { return lk.Select("x").OrderBy(lk.Order(n), lk.Order("z", lk.Desc)) }, func() bld { return lk.Select("x").OrderBy(lk.Order(n, lk.Asc)).OrderBy(lk.Order("z", types.Desc)) },
			func() bld { return lk.Select("x").OrderBy(lk.Column(n).Asc(), lk.Column("z").Desc()) },
			func() bld { return lk.Select("x").OrderBy(stmt.NewOrder(n, types.Asc), stmt.NewOrder("z", types.Desc)) },
			func() bld { return lk.Select("x").OrderBy([]stmt.Order{lk.Order(n), lk.Column("z").Desc()}...) },
		}
	})
	add("prefix and suffix", func(r *R) []F {
		return []F{
			func() bld { return lk.Select("x").Prefix("EXPLAIN").Suffix("FOR UPDATE") },
			func() bld {
				return lk.Select("x").Suffix(stmt.NewSuffix("FOR UPDATE")).Prefix(stmt.NewPrefix("EXPLAIN"))
			},
		}
	})
	add("joins", func(r *R) []F {
		jt := joinTypes[r.N(len(joinTypes))]
		t, a, b, c, d := benignSimple(r), benignSimple(r), benignSimple(r), benignSimple(r), benignSimple(r)
		text := fmt.Sprintf("%s %s ON %s = %s AND %s = %s", jt, t, a, b, c, d)
		on := lk.On(a, b).And(lk.On(c, d)).(stmt.InfixOnExpression)
		tb := lk.Table(t)
		s := func() builder.Select { return lk.Select("x").From("y") }
		fs := []F{
			func() bld { return s().Join(t, on, jt) }, func() bld { return s().Join(tb, on, jt) },
			func() bld { return s().Join(tb, lk.AndOn(lk.On(a, b), lk.On(c, d)), jt) }, func() bld { return s().Join(stmt.NewJoin(jt, tb, on)) },
			func() bld { return s().Join(tb, fmt.Sprintf("ON %s = %s AND %s = %s", a, b, c, d), jt) },
			func() bld { return s().Join(t, fmt.Sprintf(" %s=%s and %s=%s ;", a, b, c, d), jt) },
		}
		if jt != types.LeftOuterJoin && jt != types.RightOuterJoin {
			// A text which names its join type knows three of them.
			fs = append(fs, func() bld { return s().Join(text) }, func() bld { return s().Join(strings.ToLower(string(jt)) + text[len(jt):]) })
		}
		if jt == types.InnerJoin {
			fs = append(fs, func() bld { return s().Join(t, on) }, func() bld { return s().Join(tb, fmt.Sprintf("ON %s = %s AND %s = %s", a, b, c, d)) },
				func() bld { return s().Join(fmt.Sprintf("JOIN %s ON %s = %s AND %s = %s", t, a, b, c, d)) },
				func() bld { return s().Join(stmt.NewInnerJoin(tb, on)) })
		}
		if jt == types.LeftJoin {
			fs = append(fs, func() bld { return s().Join(stmt.NewLeftJoin(tb, on)) })
		}
		if jt == types.RightJoin {
			fs = append(fs, func() bld { return s().Join(stmt.NewRightJoin(tb, on)) })
		}
		return fs
	})
	add("conditions", func(r *R) []F {
		n := benignPart(r)
		l, rr := lk.Condition(n).Equal(1), lk.Condition("z").In(2, 3)
		b := func() builder.Delete { return lk.Delete("t") }
		return []F{
			func() bld { return b().Where(l).And(rr) }, func() bld { return b().Where(l).Where(rr) }, func() bld { return b().Where(lk.And(l, rr)) }, func() bld { return b().Where(l.And(rr)) },
			func() bld { return b().Where(lk.Condition(lk.Column(n)).Equal(1)).And(rr) },
		}
	})
	add("alternatives", func(r *R) []F {
		l, rr := lk.Condition("y").Equal(1), lk.Condition("z").In(2, 3)
		b := func() builder.Update { return lk.Update("t").Set(lk.Pair("a", 1)) }
		return []F{
			func() bld { return b().Where(l).Or(rr) }, func() bld { return b().Where(lk.Or(l, rr)) }, func() bld { return b().Where(l.Or(rr)) },
		}
	})
	add("nulls", func(r *R) []F {
		a := lk.Condition("a")
		b := func(e stmt.Expression) F { return func() bld { return lk.Delete("t").Where(e) } }
		if r.P(50) {
			return []F{b(a.Is(nil)), b(a.IsNull(true)), b(a.Is(lk.Value(nil))), b(a.Is((*time.Time)(nil)))}
		}
		return []F{b(a.IsNot(nil)), b(a.IsNull(false)), b(a.IsNot(lk.Value(nil)))}
	})
	add("one value", func(r *R) []F {
		pos := valuePositions[r.N(len(valuePositions))]
		n := int64(r.N(1000))
		s := benignPart(r)
		tm := anyTime(r)
		bl := r.P(50)
		mk := func(v any) F { return func() bld { return pos.build(v) } }
		switch r.N(4) {
		case 0:
			return []F{mk(n), mk(lk.Value(n)), mk(encInt64{n}), mk(userInt64(n)), mk(stmt.NewExpression(n))}
		case 1:
			return []F{mk(s), mk(lk.Value(s)), mk(encString{s}), mk(&encString{s}), mk(stmt.NewExpression(s))}
		case 2:
			return []F{mk(tm), mk(&tm), mk(lk.Value(tm)), mk(encTime{tm})}
		}
		return []F{mk(bl), mk(lk.Value(bl)), mk(encBool{bl})}
	})
	add("subqueries", func(r *R) []F {
		pos := subPositions[r.N(len(subPositions))]
		s := lk.Select("a").From("u").Where(lk.Condition("b").Equal(5)).Limit(3)
		mk := func(v any) F { return func() bld { return pos.build(v) } }
		return []F{mk(s), mk(&s), mk(s.Statement()), mk(wrapEncoder{s.Statement()}), mk(&wrapEncoder{s.Statement()}), mk(s.Comment("x")), mk(stmt.NewExpression(s))}
	})
	add("ctes", func(r *R) []F {
		w1, w2 := lk.With("w1", lk.Select("a")), stmt.NewWithQuery("w2", lk.Select("b").Statement())
		if r.P(50) {
			b := func() builder.Select { return lk.Select("x") }
			return []F{func() bld { return b().With(w1, w2) }, func() bld { return b().With(w1).With(w2) }, func() bld { return b().With([]stmt.WithQuery{w1, w2}...) }, func() bld { return b().With(w1).With().With(w2) }}
		}
		b := func() builder.Update { return lk.Update("x").Set(lk.Pair("a", 1)) }
		return []F{func() bld { return b().With(w1, w2) }, func() bld { return b().With(w1).With(w2) }, func() bld { return b().With([]stmt.WithQuery{w1, w2}...) }}
	})
	add("aggregates", func(r *R) []F {
		return []F{
			func() bld { return lk.Select(lk.Count("a"), lk.Max("b").As("m"), lk.Min("c"), lk.Sum("d")) },
			func() bld {
				return lk.Select(stmt.NewCount("a"), stmt.NewMax("b").As("m"), stmt.NewMin("c"), stmt.NewSum("d"))
			},
			func() bld {
				return lk.Select([]stmt.SelectExpression{lk.Count("a").Distinct(false), lk.Max("b").As("x").As("m"), lk.Min("c"), lk.Sum("d").As("")})
			},
		}
	})
	add("builder values and pointers", func(r *R) []F {
		s := lk.Select("a").From("t").Where(lk.Condition("x").Equal(1))
		return []F{func() bld { return s }, func() bld { return &s }}
	})
	return out
}()

// benignSimple is a name which can be written in a join text.
func benignSimple(r *R) string {
	for {
		n := benignPart(r)
		if r.P(40) {
			n = benignPart(r) + "." + n
		}
		if wordName(n) {
			return n
		}
	}
}

func p29Forms(t *T) { p29Equivalent(t, t.R("forms")) }

// p29Sizes: the same with lists of every size.
func p29Sizes(t *T) {
	r := t.R("forms")
	r.grow = sizeOf(t.idx / len(equivalences))
	if r.grow > 1 {
		p29Equivalent(t, r)
		t.Ev("sizes", 1)
	}
}

func p29Equivalent(t *T, r *R) {
	e := equivalences[t.idx%len(equivalences)]
	forms := e.forms(r)
	var want rendered
	for i, f := range forms {
		var got rendered
		if o := try(func() { got = render(f()) }); o.Panicked {
			t.Fail("%s: form %d is rejected: %s", e.name, i, o.Msg)
		}
		if i == 0 {
			want = got
			continue
		}
		if msg := want.equal(got); msg != "" {
			t.Fail("%s: form %d: %s", e.name, i, msg)
		}
		t.Ev("forms compared", 1)
	}
	t.Distinct(e.name, want.Q)
	t.Sample("%s, %d forms: %s", e.name, len(forms), want.Q)
}

func init() {
	register(&Check{
		ID: "P29",
		Rule: "differential: generated programs with the same structure and values in several spellings, and tables of equivalent forms for every argument of the API, must give " +
			"the same three renderings and arguments.",
		Require: []string{"spellings compared", "forms compared", "sizes"},
		Families: []Family{
			{Name: "huge", Quick: 80, Thorough: 15000, Fn: hugely(5000, p29Random)},
			{Name: "coincide", Quick: 1500, Thorough: 150000, Fn: alike(p29Random)},
			{Name: "random", Quick: 5000, Thorough: 150000, Fn: p29Random},
			{Name: "sizes", Quick: len(equivalences) * sizeCount, Thorough: 6 * len(equivalences) * sizeCount, Fn: p29Sizes},
			{Name: "forms", Quick: len(equivalences) * 150, Thorough: len(equivalences) * 4000, Fn: p29Forms},
		},
	})
}

// ------------------------------------------------------------------------------------------------------------------ P30

func pointerTo(b bld) bld {
	switch b := b.(type) {
	case builder.Select:
		return &b
	case builder.Insert:
		return &b
	case builder.Update:
		return &b
	case builder.Delete:
		return &b
	}
	panic("harness: no builder")
}

func p30Judge(t *T, kind string, b bld, desc func() string) {
	for form, x := range []bld{b, pointerTo(b)} {
		got := [4]bool{builder.IsSelectBuilder(x), builder.IsInsertBuilder(x), builder.IsUpdateBuilder(x), builder.IsDeleteBuilder(x)}
		for i, k := range kinds4 {
			if got[i] != (k == kind) {
				t.Fail("the %s predicate is %t for a %s builder (%T)\n%s", k, got[i], kind, x, desc())
			}
		}
		var sk string
		switch x.Statement().(type) {
		case stmt.Select:
			sk = "select"
		case stmt.Insert:
			sk = "insert"
		case stmt.Update:
			sk = "update"
		case stmt.Delete:
			sk = "delete"
		default:
			sk = fmt.Sprintf("%T", x.Statement())
		}
		if sk != kind {
			t.Fail("the statement of a %s builder (%T) is a %s\n%s", kind, x, sk, desc())
		}
		t.Ev([]string{"values", "pointers"}[form], 1)
	}
}

func p30Random(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	kind := kinds4[t.idx%4]
	p := newGen(t, o, "", "", "").Of(kind)
	b := p.Start()
	p30Judge(t, kind, b, p.Desc)
	for _, s := range p.Steps {
		b = s.Apply(b)
		p30Judge(t, kind, b, p.Desc)
		t.Distinct(kind, s.Desc)
	}
	t.Ev("builders", 1)
	t.Sample("%s after %d calls", kind, len(p.Steps))
}

func p30Zero(t *T) {
	for _, x := range []struct {
		kind string
		b    bld
	}{
		{"select", builder.Select{}}, {"insert", builder.Insert{}}, {"update", builder.Update{}}, {"delete", builder.Delete{}},
		{"select", builder.NewSelect()}, {"insert", builder.NewInsert()}, {"update", builder.NewUpdate("t")}, {"delete", builder.NewDelete()},
		{"select", lk.Select()}, {"insert", lk.Insert("t")}, {"update", lk.Update("t")}, {"delete", lk.Delete("t")},
	} {
		p30Judge(t, x.kind, x.b, func() string { return "new builder" })
	}
	t.Distinct("zero")
}

func init() {
	register(&Check{
		ID:      "P30",
		Rule:    "the four predicates and the statement of every builder, by value and by pointer, after each call of generated programs.",
		Require: []string{"values", "pointers", "builders"},
		Families: []Family{
			{Name: "random", Quick: 6000, Thorough: 100000, Fn: p30Random},
			{Name: "new", Quick: 1, Thorough: 1, Fn: p30Zero},
		},
	})
}
