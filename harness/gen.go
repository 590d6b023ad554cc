package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// A program is a sequence of builder calls, with the tree its text must have. Programs are regenerated from their
// streams: same structure with other values (v), same structure and values with other spellings (sp), other order of
// the pairs (pm)...

type bld = builder.Builder

type Step struct {
	Clause string
	Desc   string
	Apply  func(b bld) bld
}

type Prog struct {
	Kind  string
	Start func() bld
	SDesc string
	Steps []Step
	AST   *N
}

func (p *Prog) Build() bld {
	b := p.Start()
	for _, s := range p.Steps {
		b = s.Apply(b)
	}
	return b
}

func (p *Prog) Desc() string {
	var d []string
	d = append(d, p.SDesc)
	for _, s := range p.Steps {
		d = append(d, "  ."+s.Desc)
	}
	return strings.Join(d, "\n")
}

func (p *Prog) step(clause, desc string, fn func(b bld) bld) {
	p.Steps = append(p.Steps, Step{clause, desc, fn})
}

func sel(b bld) builder.Select { return b.(builder.Select) }
func ins(b bld) builder.Insert { return b.(builder.Insert) }
func upd(b bld) builder.Update { return b.(builder.Update) }
func del(b bld) builder.Delete { return b.(builder.Delete) }

// Opts of a generator.
type Opts struct {
	kinds    []string          // kinds of scalar values
	part     func(r *R) string // one part of a name
	alias    func(r *R) string // alias of a table or a column
	comment  bool              // comments
	prefix   bool              // prefixes and suffixes
	stars    bool              // * in select lists
	sub      int               // depth of subqueries
	depth    int               // depth of conditions
	equal    *Val              // every value is this one
	extremes bool              // some programs have extreme sizes
	qualify  int               // percents of qualified names
	valStr   func(r *R) string // content of strings
	spell    bool              // vary spellings (otherwise, the canonical one)
	aliasPct int
	nest     int  // percents of operands which are conditions
	sameText bool // only spellings which give the same text
	mask     int  // with mask > 0, its bits decide the clauses of the top level statement
}

func defaultOpts() Opts {
	return Opts{kinds: scalarKinds, part: benignPart, alias: benignPart, stars: true, sub: 2, depth: 3, extremes: true, qualify: 30, aliasPct: 20, spell: true, prefix: true}
}

type Gen struct {
	s, v, sp, pm *R // structure, values, spellings, permutations
	o            Opts
	nsub         int
	subTarget    int    // this subquery is replaced by a marker
	subFound     *Prog  // the replaced subquery
	vals         []*Val // in order of generation
	big          int    // extreme sizes left
	bit          int    // clauses decided by the mask so far
	huge, hugeAt int    // a clause, list or chain of this length, after some others
	t            *T
	tiny         bool     // everything is taken from very few names, texts and values
	vocab        []string // these names
	ops          []identOp
	heldE        stmt.Expression // a condition generated earlier
	heldN        *N
}

func newGen(t *T, o Opts, value, spelling, perm string) *Gen {
	g := &Gen{s: t.R("structure"), v: t.R("value" + value), sp: t.R("spelling" + spelling), pm: t.R("perm" + perm), o: o}
	if o.extremes && g.s.P(3) {
		g.big = 1 + g.s.N(3)
	}
	if t.tiny {
		g.shrink(t)
	}
	if t.huge > 0 {
		g.big, g.t, g.hugeAt = 0, t, g.s.N(10)
		switch k := g.s.N(10); {
		case k < 5:
			g.huge = g.s.Range(13, 130)
		case k < 8:
			g.huge = g.s.Range(131, 600)
		default:
			g.huge = largeSizes[g.s.N(len(largeSizes))]
		}
		g.huge = min(g.huge, t.huge)
	}
	return g
}

// hugely has one very long clause, list or chain of conditions in each generated program.
func hugely(limit int, fn func(t *T)) func(t *T) {
	return func(t *T) {
		t.huge = limit
		fn(t)
	}
}

// alike takes everything from very few names, texts and values, so that distinct parts of a statement are often equal.
func alike(fn func(t *T)) func(t *T) {
	return func(t *T) {
		t.tiny = true
		fn(t)
	}
}

var tinyOps = []identOp{identOps[0], identOps[1], identOps[4], identOps[10], identOps[15], identOps[16]}

func (g *Gen) shrink(t *T) {
	g.tiny, g.t = true, t
	part := g.o.part
	g.vocab = []string{"a"}
	if g.s.P(60) {
		g.vocab = append(g.vocab, "b")
	}
	if g.s.P(40) {
		g.vocab = append(g.vocab, part(g.s))
	}
	g.o.part = func(r *R) string { return g.vocab[r.N(len(g.vocab))] }
	g.o.alias = g.o.part
	g.o.aliasPct = max(g.o.aliasPct, 35)
	g.o.qualify = g.o.qualify / 2
	g.o.nest /= 2
	if len(g.o.kinds) > 4 {
		kinds := []string{"string"}
		for i := 0; i < 3; i++ {
			kinds = append(kinds, g.o.kinds[g.s.N(len(g.o.kinds))])
		}
		g.o.kinds = kinds
	}
	for i, c := 0, g.s.Range(1, 3); i < c; i++ {
		g.ops = append(g.ops, tinyOps[g.s.N(len(tinyOps))])
	}
}

// op is the operator of a comparison.
func (g *Gen) op() identOp {
	if g.tiny {
		return g.ops[g.s.N(len(g.ops))]
	}
	return identOps[g.s.N(len(identOps))]
}

// text is a fragment of SQL.
func (g *Gen) text(pool ...string) string {
	if g.tiny {
		pool = []string{"a", "b", "1", pool[0]}
	}
	return pool[g.s.N(len(pool))]
}

// tick returns a very large number of elements when it is the time to have one.
func (g *Gen) tick() (int, bool) {
	if g.huge == 0 {
		return 0, false
	}
	g.hugeAt--
	if g.hugeAt >= 0 {
		return 0, false
	}
	n := g.huge
	g.huge = 0
	if g.o.depth > 1 {
		g.o.depth = 1
	}
	g.t.Ev("very long parts", 1)
	return n, true
}

// count is a number of elements: from lo to hi, rarely much more.
func (g *Gen) count(lo, hi int) int {
	if hi > 1 {
		if n, ok := g.tick(); ok {
			return n
		}
	}
	if g.big > 0 && hi > 1 && g.s.P(20) {
		g.big--
		return g.s.Range(hi+1, 40)
	}
	return g.s.Range(lo, hi)
}

var benignNames = []string{
	"id", "name", "email", "user_id", "created_at", "updated_at", "deleted_at", "status", "count", "amount", "title", "a", "b", "c", "x1", "users", "posts",
	"comments", "order", "user", "group", "select", "createdAt", "UserID", "table", "from", "where", "limit", "with", "null", "true", "Id", "ID", "a_b_c", "z_9",
}

func benignPart(r *R) string {
	switch k := r.N(1000); {
	case k < 750:
		return benignNames[r.N(len(benignNames))]
	case k < 753:
		return strings.Repeat(benignNames[r.N(len(benignNames))], r.Range(10, 200))
	case k < 850:
		return randomWord(r)
	}
	return benignNames[r.N(len(benignNames))] + strconv.Itoa(r.N(50))
}

// randomWord is a word which is no keyword, since it has no vowel.
func randomWord(r *R) string {
	const letters = "bcdfghjklmnpqrstvwxz_0123456789s"
	b := []byte{letters[r.N(20)]}
	for i, n := 0, r.N(12); i < n; i++ {
		b = append(b, letters[r.N(len(letters))])
	}
	if r.P(20) {
		b = append(b, b...)
	}
	if r.P(10) {
		b = append(b, '_')
	}
	return string(b)
}

func (g *Gen) name() string {
	n := g.o.part(g.s)
	if g.s.P(g.o.qualify) {
		n += "." + g.o.part(g.s)
		for i := 0; i < 4 && g.s.P(12); i++ {
			n += "." + g.o.part(g.s)
		}
	}
	return n
}

func nameKey(name string) string { return partsKey(strings.Split(name, ".")) }

func idOf(name string) *N { return nd("id", nameKey(name)) }

// asText tells if a column name can be given as a (comma separated, trimmed) text.
func asText(name string) bool {
	return !strings.Contains(name, ",") && strings.TrimSpace(name) == name && name != ""
}

func (g *Gen) val() *Val {
	kind := g.o.kinds[g.s.N(len(g.o.kinds))]
	return g.valOf(kind)
}

func (g *Gen) valOf(kind string) *Val {
	var v *Val
	if g.o.equal != nil {
		c := *g.o.equal
		v = &c
	} else {
		if g.tiny && g.v.P(85) {
			v = makeVal(kind, newR(77, uint64(g.v.N(2))))
			if kind == "string" {
				v.In, v.Out = any(g.vocab[len(g.vocab)-1]), any(g.vocab[len(g.vocab)-1])
			}
			g.vals = append(g.vals, v)
			return v
		}
		v = makeVal(kind, g.v)
		if g.o.valStr != nil && kind == "string" {
			s := g.o.valStr(g.v)
			v.In, v.Out = s, s
		}
	}
	g.vals = append(g.vals, v)
	return v
}

func valNode(v *Val) *N { return &N{K: "val", V: v} }

var rawPool = []string{
	"NOW()", "a + 1", "lower(name)", "1", "'text'", "(x = 1)", "t.c", `"Quoted"."Col"`, "NULL", "true", "(a || b)", "coalesce(x, 0)", "-1", "x::text",
	"array_agg(y)", "2 * (a - b)", "'it''s'",
}

func (g *Gen) raw() (stmt.Raw, *N) {
	f := g.text(rawPool...)
	if g.s.N(200) == 0 {
		f = strings.Repeat("a + ", g.s.Range(2, 150)) + f
	}
	return lk.Raw(f), mustExpr(f)
}

func (g *Gen) canSub() bool { return g.o.sub > 0 && g.nsub < 6 }

// subselect generates a select used in another statement.
func (g *Gen) subselect() (*Prog, *N) {
	g.nsub++
	replaced := g.nsub == g.subTarget
	o := g.o
	g.o.sub--
	g.o.comment, g.o.prefix = false, false
	p := g.Select(true)
	g.o = o
	if replaced {
		g.subFound = p
		return &Prog{Kind: "select", SDesc: "marker", Start: func() bld { return markerSelect() }, AST: p.AST}, nd("subq", "", p.AST)
	}
	return p, nd("subq", "", p.AST)
}

// subArg gives a subselect as an argument: a builder, its address, or its statement.
func (g *Gen) subArg(p *Prog) any {
	b := sel(p.Build())
	if !g.o.spell {
		return b
	}
	switch g.sp.N(4) {
	case 0:
		return b.Statement()
	case 1:
		return &b
	}
	return b
}

// operand is the right side of a comparison.
func (g *Gen) operand() (any, *N) {
	if g.o.nest > 0 && g.s.P(g.o.nest) {
		return g.nested()
	}
	switch k := g.s.N(100); {
	case k < 70:
		v := g.val()
		return v.In, valNode(v)
	case k < 78:
		r, n := g.raw()
		return r, n
	case k < 84:
		name := g.name()
		return lk.Condition(name), idOf(name)
	case k < 90:
		return g.call()
	case k < 97 && g.canSub():
		p, n := g.subselect()
		return g.subArg(p), n
	default:
		v := g.val()
		return v.In, valNode(v)
	}
}

// nested is a condition used as an operand.
func (g *Gen) nested() (stmt.Expression, *N) {
	o := g.o
	defer func() { g.o = o }()
	g.o.nest /= 2
	return g.cond(1)
}

func (g *Gen) call() (stmt.Call, *N) {
	fn := pick(g.s, "lower", "coalesce", "greatest", "my_func", "pg_catalog.now")
	n := nd("call", nameKey(fn))
	var args []stmt.Expression
	for i, c := 0, g.count(0, 2); i < c; i++ {
		switch k := g.s.N(10); {
		case k < 3:
			r, rn := g.raw()
			args, n = append(args, r), n.add(rn)
		case k < 6:
			name := g.name()
			args, n = append(args, lk.Condition(name)), n.add(idOf(name))
		case k < 7 && g.canSub():
			p, sn := g.subselect()
			args, n = append(args, stmt.NewExpression(g.subArg(p))), n.add(sn)
		default:
			v := g.val()
			args, n = append(args, stmt.NewExpression(v.In)), n.add(valNode(v))
		}
	}
	return stmt.NewCall(fn, args...), n
}

type identOp struct {
	op string
	fn func(i stmt.Identifier, v any) stmt.InfixExpression
}

var identOps = []identOp{
	{"=", stmt.Identifier.Equal}, {"!=", stmt.Identifier.NotEqual}, {">", stmt.Identifier.GreaterThan},
	{">=", stmt.Identifier.GreaterThanOrEqual}, {"<", stmt.Identifier.LessThan}, {"<=", stmt.Identifier.LessThanOrEqual},
	{"LIKE", stmt.Identifier.Like}, {"NOT LIKE", stmt.Identifier.NotLike}, {"ILIKE", stmt.Identifier.ILike},
	{"NOT ILIKE", stmt.Identifier.NotILike}, {"IS DISTINCT FROM", stmt.Identifier.IsDistinctFrom},
	{"IS NOT DISTINCT FROM", stmt.Identifier.IsNotDistinctFrom}, {"@>", stmt.Identifier.Contains},
	{"<@", stmt.Identifier.IsContainedBy}, {"&&", stmt.Identifier.Overlap}, {"IS", stmt.Identifier.Is}, {"IS NOT", stmt.Identifier.IsNot},
}

type callOp struct {
	op string
	fn func(c stmt.Call, v any) stmt.InfixExpression
}

var callOps = []callOp{
	{"=", stmt.Call.Equal}, {">", stmt.Call.GreaterThan}, {"<", stmt.Call.LessThan}, {"LIKE", stmt.Call.Like}, {"ILIKE", stmt.Call.ILike},
	{"&&", stmt.Call.Overlap},
}

type valueOp struct {
	op string
	fn func(c stmt.Value, v any) stmt.InfixExpression
}

var valueOps = []valueOp{
	{"=", stmt.Value.Equal}, {"!=", stmt.Value.NotEqual}, {"&&", stmt.Value.Overlap}, {"@>", stmt.Value.Contains}, {"<@", stmt.Value.IsContainedBy},
}

// ident is the left side of a comparison.
func (g *Gen) ident() (stmt.Identifier, *N) {
	if g.o.nest > 0 && g.s.P(g.o.nest/2) {
		e, n := g.nested()
		return lk.Condition(e), n
	}
	switch k := g.s.N(100); {
	case k < 80:
		name := g.name()
		if g.o.spell && g.sp.P(30) {
			return lk.Condition(lk.Column(name)), idOf(name)
		}
		return lk.Condition(name), idOf(name)
	case k < 86:
		f := g.text("lower(name)", "count(*)", "a + b", "t.c", "max(x)")
		return lk.Condition(lk.Raw(f)), mustExpr(f)
	case k < 92:
		c, n := g.call()
		return lk.Condition(c), n
	case k < 96 && g.canSub():
		p, n := g.subselect()
		return lk.Condition(stmt.NewExpression(g.subArg(p))), n
	default:
		name := g.name()
		return lk.Condition(name), idOf(name)
	}
}

func (g *Gen) listSize() int {
	if n, ok := g.tick(); ok {
		return n
	}
	if g.big > 0 && g.s.P(50) {
		g.big--
		return g.s.Range(30, 300)
	}
	return pick(g.s, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12)
}

// list is the argument list of IN.
func (g *Gen) list() ([]any, *N) {
	switch k := g.s.N(100); {
	case k < 45:
		// Values of a same type: separate arguments, a typed slice, a slice of interfaces.
		d := sliceDefs[g.s.N(len(sliceDefs))]
		n := nd("list", "")
		var vals []*Val
		for i, c := 0, g.listSize(); i < c; i++ {
			v := g.valOf(d.kind)
			if v.Kind != d.kind {
				d = sliceDef{kind: v.Kind}
			}
			vals = append(vals, v)
			n.add(valNode(v))
		}
		return g.spellList(d, vals), n
	case k < 65:
		n := nd("list", "")
		var vals []*Val
		for i, c := 0, g.listSize(); i < c; i++ {
			v := g.val()
			vals = append(vals, v)
			n.add(valNode(v))
		}
		if len(vals) == 1 && (vals[0].In == nil || kindByName[vals[0].Kind].list) {
			// In(nil) is an empty list, but a list of one NULL can be given as a slice. A single slice is expanded.
			return []any{[]any{vals[0].In}}, n
		}
		return g.spellList(sliceDef{}, vals), n
	case k < 75:
		n := nd("list", "")
		var args []any
		for i, c := 0, g.count(1, 3); i < c; i++ {
			if g.s.P(50) {
				r, rn := g.raw()
				args, n = append(args, r), n.add(rn)
			} else {
				v := g.valOf("int")
				args, n = append(args, v.In), n.add(valNode(v))
			}
		}
		if len(args) > 1 && g.o.spell && g.sp.P(40) {
			return []any{args}, n
		}
		return args, n
	case k < 92 && g.canSub():
		p, n := g.subselect()
		return []any{g.subArg(p)}, n
	case k < 95 && g.canSub():
		// Scalar subqueries among other elements.
		p, sn := g.subselect()
		v := g.valOf("int")
		if g.s.P(50) {
			return []any{g.subArg(p), v.In}, nd("list", "", sn, valNode(v))
		}
		return []any{v.In, g.subArg(p)}, nd("list", "", valNode(v), sn)
	default:
		v := g.valOf("int")
		return []any{v.In}, nd("list", "", valNode(v))
	}
}

func (g *Gen) spellList(d sliceDef, vals []*Val) []any {
	ins := make([]any, len(vals))
	for i := range vals {
		ins[i] = vals[i].In
	}
	if !g.o.spell {
		return ins
	}
	switch k := g.sp.N(4); {
	case k == 0 && d.mk != nil:
		return []any{d.mk(vals)}
	case k == 1:
		return []any{ins}
	case k == 2:
		exprs := make([]stmt.Expression, len(vals))
		for i := range vals {
			exprs[i] = stmt.NewExpression(vals[i].In)
		}
		return []any{exprs}
	}
	return ins
}

// cond generates a condition.
// existsLike tells if an operand is an EXISTS, which the methods And and Or of
// some conditions write bare and the functions And and Or in parentheses.
func existsLike(r stmt.Expression) bool {
	switch r.(type) {
	case stmt.Exists, stmt.NotExists:
		return true
	}
	return false
}

// condChain is a chain of conditions.
func (g *Gen) condChain(count int) (stmt.Expression, *N) {
	e, n := g.cond(0)
	right := g.s.P(20)
	for i := 1; i < count; i++ {
		var x stmt.Expression
		var xn *N
		if g.s.P(3) {
			x, xn = g.cond(1)
		} else {
			name := g.name()
			v := g.valOf("int")
			x, xn = lk.Condition(name).Equal(v.In), nd("cmp", "=", idOf(name), valNode(v))
		}
		l, ln := e, n
		if right {
			l, ln, x, xn = x, xn, e, n
		}
		and := g.s.P(60)
		k := "or"
		if and {
			k = "and"
		}
		n = nd(k, "", ln, xn)
		in, ok := l.(stmt.InfixExpression)
		switch {
		case ok && g.o.spell && g.sp.P(60) && (!g.o.sameText || !existsLike(x)):
			if and {
				e = in.And(x)
			} else {
				e = in.Or(x)
			}
		case and:
			e = lk.And(l, x)
		default:
			e = lk.Or(l, x)
		}
	}
	return e, n
}

func (g *Gen) cond(depth int) (stmt.Expression, *N) {
	if !g.tiny {
		return g.newCond(depth)
	}
	if g.heldN != nil && g.s.P(20) {
		g.t.Ev("conditions given twice", 1)
		return g.heldE, g.heldN
	}
	e, n := g.newCond(depth)
	if g.s.P(50) {
		g.heldE, g.heldN = e, n
	}
	return e, n
}

func (g *Gen) newCond(depth int) (stmt.Expression, *N) {
	if depth > 1 {
		if c, ok := g.tick(); ok {
			return g.condChain(c)
		}
	}
	if depth > 0 && g.s.P(40) {
		l, ln := g.cond(depth - 1)
		r, rn := g.cond(depth - 1)
		and := g.s.P(50)
		k := "or"
		if and {
			k = "and"
		}
		n := nd(k, "", ln, rn)
		if g.o.spell && g.sp.P(50) && (!g.o.sameText || !existsLike(r)) {
			switch x := l.(type) {
			case stmt.InfixExpression:
				if and {
					return x.And(r), n
				}
				return x.Or(r), n
			case stmt.In:
				if and {
					return x.And(r), n
				}
				return x.Or(r), n
			}
		}
		if and {
			return lk.And(l, r), n
		}
		return lk.Or(l, r), n
	}
	switch k := g.s.N(100); {
	case k < 48:
		i, in := g.ident()
		op := g.op()
		v, vn := g.operand()
		return op.fn(i, v), nd("cmp", op.op, in, vn)
	case k < 53:
		i, in := g.ident()
		if g.s.P(50) {
			if g.o.spell && g.sp.P(50) {
				return i.Is(nil), nd("cmp", "IS", in, nd("null", ""))
			}
			return i.IsNull(true), nd("cmp", "IS", in, nd("null", ""))
		}
		if g.o.spell && g.sp.P(50) {
			return i.IsNot(nil), nd("cmp", "IS NOT", in, nd("null", ""))
		}
		return i.IsNull(false), nd("cmp", "IS NOT", in, nd("null", ""))
	case k < 68:
		i, in := g.ident()
		args, ln := g.list()
		if g.s.P(50) {
			return i.In(args...), nd("in", "", in, ln)
		}
		return i.NotIn(args...), nd("in", "NOT ", in, ln)
	case k < 78:
		i, in := g.ident()
		a, an := g.operand()
		b, bn := g.operand()
		if g.s.P(50) {
			return i.Between(a, b), nd("between", "", in, an, bn)
		}
		return i.NotBetween(a, b), nd("between", "NOT ", in, an, bn)
	case k < 84:
		c, cn := g.call()
		if g.s.P(25) {
			args, ln := g.list()
			return c.In(args...), nd("in", "", cn, ln)
		}
		op := callOps[g.s.N(len(callOps))]
		v, vn := g.operand()
		return op.fn(c, v), nd("cmp", op.op, cn, vn)
	case k < 88:
		x := g.val()
		op := valueOps[g.s.N(len(valueOps))]
		v, vn := g.operand()
		return op.fn(lk.Value(unwrapValue(x)), v), nd("cmp", op.op, valNode(x), vn)
	case k < 95 && g.canSub():
		p, sn := g.subselect()
		if g.s.P(50) {
			return lk.Exists(g.subArg(p)), nd("exists", "", sn)
		}
		return lk.NotExists(g.subArg(p)), nd("notexists", "", sn)
	default:
		i, in := g.ident()
		v := g.val()
		return i.Equal(v.In), nd("cmp", "=", in, valNode(v))
	}
}

// unwrapValue returns what has to be given to loukoum.Value to bind v.
func unwrapValue(v *Val) any {
	if v.Null {
		return nil
	}
	return v.Out
}

// ---------------------------------------------------------------------------------------------------------------- tables

func (g *Gen) table(allowOnly bool) (stmt.Table, *N) {
	name := g.name()
	t := lk.Table(name)
	n := nd("table", "", idOf(name))
	if allowOnly && g.s.P(12) {
		t = t.Only()
		n.T = "only"
	}
	if g.s.P(g.o.aliasPct) {
		a := g.o.alias(g.s)
		t = t.As(a)
		n.add(nd("alias", strconv.Quote(a)))
	}
	return t, n
}

func (g *Gen) tableArg(t stmt.Table, n *N) any {
	if n.T == "" && len(n.C) == 1 && g.o.spell && g.sp.P(60) {
		return t.Name
	}
	return t
}

// from generates the arguments of a FROM clause.
func (g *Gen) from(max int, raws bool) ([]any, *N) {
	var args []any
	n := nd("from", "")
	for i, c := 0, g.count(1, max); i < c; i++ {
		if raws && g.s.P(8) {
			args = append(args, lk.Raw("generate_series(1, 10)"))
			n.add(nd("table", "", mustExpr("generate_series(1, 10)")))
			continue
		}
		t, tn := g.table(true)
		args, n = append(args, g.tableArg(t, tn)), n.add(tn)
	}
	if g.o.spell && g.sp.P(10) {
		tables := make([]stmt.Statement, len(args))
		for i := range args {
			switch x := args[i].(type) {
			case string:
				tables[i] = lk.Table(x)
			case stmt.Statement:
				tables[i] = x
			}
		}
		args = []any{stmt.NewFrom(tables)}
	}
	return args, n
}

// columns generates n names without alias, and a spelling of them.
func (g *Gen) columns(kind string, max int) ([]any, []string, *N) {
	n := nd(kind, "")
	var names []string
	for i, c := 0, g.count(1, max); i < c; i++ {
		name := g.name()
		names = append(names, name)
		n.add(idOf(name))
	}
	return g.spellColumns(names), names, n
}

func (g *Gen) spellColumns(names []string) []any {
	var args []any
	text := true
	for i := range names {
		text = text && asText(names[i])
	}
	k := 1
	if g.o.spell {
		k = g.sp.N(5)
	}
	if !text && k != 1 {
		k = 2 // column statements
		if g.sp.P(50) {
			k = 4
		}
	}
	switch k {
	case 0: // one comma separated text
		sep := pick(g.sp, ",", ", ", " , ")
		return []any{strings.Join(names, sep)}
	case 2: // a slice of columns
		cols := make([]stmt.Column, len(names))
		for i := range names {
			cols[i] = lk.Column(names[i])
		}
		return []any{cols}
	case 3: // a slice of texts
		return []any{append([]string{}, names...)}
	case 4:
		for i := range names {
			args = append(args, lk.Column(names[i]))
		}
		return args
	}
	for i := range names {
		if asText(names[i]) && (!g.o.spell || g.sp.P(60)) {
			args = append(args, names[i])
		} else {
			args = append(args, lk.Column(names[i]))
		}
	}
	return args
}

var aggFragments = []string{"*", "id", "t.amount", "amount * 2", "coalesce(x, 0)"}

// selectItems generates a select list (or a RETURNING list).
func (g *Gen) selectItems(kind string, max int) ([]any, *N) {
	n := nd(kind, "")
	var args []any
	onlyCols, plain := true, true
	var names []string
	for i, c := 0, g.count(1, max); i < c; i++ {
		switch k := g.s.N(100); {
		case k < 62:
			name := g.name()
			it := nd("item", "", idOf(name))
			col := lk.Column(name)
			if g.s.P(g.o.aliasPct) {
				a := g.o.alias(g.s)
				col = col.As(a)
				it.T = strconv.Quote(a)
				plain = false
			}
			args, n = append(args, col), n.add(it)
			names = append(names, name)
		case k < 70 && g.o.stars:
			name := "*"
			it := nd("item", "", nd("star", ""))
			if g.s.P(50) {
				t := g.o.part(g.s)
				name = t + ".*"
				it = nd("item", "", nd("star", nameKey(t)))
			}
			args, n = append(args, lk.Column(name)), n.add(it)
			names = append(names, name)
		case k < 86:
			onlyCols, plain = false, false
			f := g.text(aggFragments...)
			alias := ""
			if g.s.P(50) {
				alias = pick(g.s, "total", "n", "agg_1")
				if g.tiny {
					alias = pick(g.s, "a", "b")
				}
			}
			var a any
			var text string
			which := g.s.N(5)
			if which > 0 && f == "*" {
				f = "id"
			}
			switch which {
			case 0:
				a, text = lk.Count(f).As(alias), "COUNT("+f+")"
			case 1:
				a, text = lk.Max(f).As(alias), "MAX("+f+")"
			case 2:
				a, text = lk.Min(f).As(alias), "MIN("+f+")"
			case 3:
				a, text = lk.Sum(f).As(alias), "SUM("+f+")"
			case 4:
				a, text = lk.Count(f).Distinct(true).As(alias), "COUNT(DISTINCT "+f+")"
			}
			it := nd("item", "", mustExpr(text))
			if alias != "" {
				it.T = strconv.Quote(alias)
			}
			args, n = append(args, a), n.add(it)
		case k < 93 || !g.canSub():
			onlyCols, plain = false, false
			r, rn := g.raw()
			args, n = append(args, r), n.add(nd("item", "", rn))
		default:
			onlyCols, plain = false, false
			p, sn := g.subselect()
			if g.s.P(50) {
				args, n = append(args, lk.Exists(g.subArg(p))), n.add(nd("item", "", nd("exists", "", sn)))
			} else {
				args, n = append(args, lk.NotExists(g.subArg(p))), n.add(nd("item", "", nd("notexists", "", sn)))
			}
		}
	}
	if !g.o.spell {
		return args, n
	}
	switch {
	case plain && g.sp.P(60):
		return g.spellColumns(names), n
	case onlyCols && g.sp.P(30):
		cols := make([]stmt.Column, len(args))
		for i := range args {
			cols[i] = args[i].(stmt.Column)
		}
		return []any{cols}, n
	case g.sp.P(20):
		exprs := make([]stmt.SelectExpression, len(args))
		for i := range args {
			exprs[i] = args[i].(stmt.SelectExpression)
		}
		return []any{exprs}, n
	}
	return args, n
}

// ----------------------------------------------------------------------------------------------------------------- joins

var joinTypes = []types.JoinType{types.InnerJoin, types.LeftJoin, types.RightJoin, types.LeftOuterJoin, types.RightOuterJoin}

func (g *Gen) onClause() (stmt.OnClause, *N) {
	a, b := g.name(), g.name()
	return lk.On(a, b), nd("cmp", "=", idOf(a), idOf(b))
}

func (g *Gen) onExpr(depth int) (stmt.OnExpression, *N) {
	if depth == 0 || g.s.P(45) {
		return g.onClause()
	}
	l, ln := g.onExpr(depth - 1)
	r, rn := g.onExpr(depth - 1)
	and := g.s.P(60)
	if g.o.spell && g.sp.P(50) {
		if and {
			return l.And(r), nd("and", "", ln, rn)
		}
		return l.Or(r), nd("or", "", ln, rn)
	}
	if and {
		return lk.AndOn(l, r), nd("and", "", ln, rn)
	}
	return lk.OrOn(l, r), nd("or", "", ln, rn)
}

// onChain is a condition folded to the left, which can be given as text.
func (g *Gen) onChain(count int) (stmt.OnExpression, *N, string) {
	var e stmt.OnExpression
	var n *N
	text := ""
	for i := 0; i < count; i++ {
		a, b := g.name(), g.name()
		c, cn := lk.On(a, b), nd("cmp", "=", idOf(a), idOf(b))
		ct := a + " = " + b
		if i == 0 {
			e, n, text = c, cn, ct
			continue
		}
		if g.s.P(65) {
			e, n, text = lk.AndOn(e, c), nd("and", "", n, cn), text+" AND "+ct
		} else {
			e, n, text = lk.OrOn(e, c), nd("or", "", n, cn), text+" OR "+ct
		}
	}
	return e, n, text
}

// wordName tells if a name can be written as a word of a textual join.
func wordName(name string) bool {
	if name == "" {
		return false
	}
	for i := 0; i < len(name); i++ {
		c := name[i]
		if !(c == '_' || c == '.' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
			return false
		}
	}
	return !lexKeywords[strings.ToUpper(name)]
}

// lexKeywords are the words that the tokenizer documents as keywords (own list).
var lexKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`SELECT UPDATE INSERT DELETE FROM WHERE AND OR LIMIT OFFSET SET AS INNER CROSS LEFT RIGHT JOIN ON GROUP BY HAVING
		ORDER DISTINCT ONLY USING RETURNING VALUES INTO CONFLICT DO NOTHING WITH NOT EXISTS COUNT MAX MIN SUM`) {
		lexKeywords[w] = true
	}
}

func (g *Gen) join() (string, func(b bld) bld, *N) {
	t, tn := g.table(true)
	jt := joinTypes[g.s.N(len(joinTypes))]
	var on stmt.OnExpression
	var on1 *N
	text := ""
	if g.s.P(50) {
		on, on1, text = g.onChain(g.count(1, 3))
		words := strings.FieldsFunc(text, func(r rune) bool { return r == ' ' || r == '=' })
		for _, w := range words {
			if w != "AND" && w != "OR" && !wordName(w) {
				text = ""
			}
		}
		// Names which contain blanks or operators would not be words.
		if text != "" && !joinTextOK(text) {
			text = ""
		}
	} else {
		on, on1 = g.onExpr(3)
	}
	n := nd("join", string(jt), tn, on1)
	var args []any
	k := 2
	if g.o.spell {
		k = g.sp.N(5)
	}
	plainTable := len(tn.C) == 1 && tn.T == ""
	short := jt == types.InnerJoin || jt == types.LeftJoin || jt == types.RightJoin
	switch {
	case k == 0 && text != "" && plainTable && wordName(t.Name) && short:
		args = []any{string(jt) + " " + t.Name + " ON " + text}
	case k == 1 && text != "" && jt == types.InnerJoin:
		args = []any{g.tableArg(t, tn), pick(g.sp, text, "ON "+text, "ON ("+text+")")}
	case k == 3:
		args = []any{stmt.NewJoin(jt, t, on.(stmt.Expression))}
	case k == 4 && text != "":
		args = []any{g.tableArg(t, tn), "ON " + text, jt}
	case jt == types.InnerJoin && g.o.spell && g.sp.P(50):
		args = []any{g.tableArg(t, tn), on}
	default:
		args = []any{g.tableArg(t, tn), on, jt}
	}
	return fmt.Sprintf("Join(%s)", briefArgs(args)), func(b bld) bld { return sel(b).Join(args...) }, n
}

func joinTextOK(text string) bool {
	for _, part := range strings.FieldsFunc(strings.ReplaceAll(text, " OR ", " AND "), func(r rune) bool { return r == 0 }) {
		for _, c := range strings.Split(part, " AND ") {
			ab := strings.Split(c, " = ")
			if len(ab) != 2 || !wordName(ab[0]) || !wordName(ab[1]) {
				return false
			}
		}
	}
	return true
}

func briefArgs(args []any) string {
	var out []string
	for _, a := range args {
		s := fmt.Sprintf("%#v", a)
		s = strings.ReplaceAll(s, "github.com/ulule/loukoum/v3/", "")
		if len(s) > 160 {
			s = s[:160] + "..."
		}
		out = append(out, s)
	}
	return strings.Join(out, ", ")
}

// ------------------------------------------------------------------------------------------------------------- statements

// where generates a chain of Where, And and Or calls.
func (g *Gen) where(p *Prog, max int, call func(b bld, k string, c stmt.Expression) bld) *N {
	var n *N
	for i, c := 0, g.count(1, max); i < c; i++ {
		e, en := g.cond(g.o.depth)
		kind := "Where"
		if i > 0 {
			kind = pick(g.s, "And", "Or")
			if kind == "And" {
				n = nd("and", "", n, en)
				if g.o.spell && g.sp.P(40) {
					kind = "Where"
				}
			} else {
				n = nd("or", "", n, en)
			}
		} else {
			n = en
		}
		k := kind
		p.step("where", k+"("+en.String()+")", func(b bld) bld { return call(b, k, e) })
	}
	return nd("where", "", n)
}

func (g *Gen) with(p *Prog, call func(b bld, q []stmt.WithQuery) bld) *N {
	n := nd("with", "")
	var qs []stmt.WithQuery
	last := ""
	for i, c := 0, g.count(1, 3); i < c; i++ {
		name := pick(g.s, "recent", "cte_a", "t1", "contributors") + strconv.Itoa(i)
		switch {
		case g.tiny:
			name = pick(g.s, "a", "b", "t")
		case g.s.P(30):
			name = pick(g.s, "b", "k", "x", "z") + randomWord(g.s) + pick(g.s, "", "s")
		case g.s.P(10):
			name = pick(g.s, "x", "_", "posts_") + strconv.Itoa(i) + pick(g.s, "s", "_", "x_s")
		}
		if i > 0 && g.s.P(8) {
			// PostgreSQL would reject it later: nothing of it can be dropped silently.
			name = last
		}
		last = name
		sp, sn := g.subselect()
		qs = append(qs, lk.With(name, g.subArg(sp)))
		n.add(nd("cte", partsKey([]string{name}), sn))
	}
	one := !g.o.spell || g.sp.P(50)
	if one {
		p.step("with", "With("+n.String()+")", func(b bld) bld { return call(b, qs) })
	} else {
		for i := range qs {
			q := qs[i : i+1]
			p.step("with", "With("+n.C[i].String()+")", func(b bld) bld { return call(b, q) })
		}
	}
	return n
}

func (g *Gen) orderBy(p *Prog) *N {
	n := nd("orderby", "")
	var orders []stmt.Order
	for i, c := 0, g.count(1, 3); i < c; i++ {
		e := g.text("id", "created_at", "t.name", "lower(name)", "a + b", `"Col"`)
		dir := pick(g.s, types.Asc, types.Desc)
		o := lk.Order(e, dir)
		if g.o.spell {
			switch g.sp.N(4) {
			case 0:
				if dir == types.Asc {
					o = lk.Order(e)
				}
			case 1:
				if dir == types.Asc {
					o = lk.Column(e).Asc()
				} else {
					o = lk.Column(e).Desc()
				}
			case 2:
				// The alias is used as order expression.
				if dir == types.Asc {
					o = lk.Column("any").As(e).Asc()
				} else {
					o = lk.Column("any").As(e).Desc()
				}
			}
		}
		orders = append(orders, o)
		n.add(nd("order", string(dir), mustExpr(e)))
	}
	if !g.o.spell || g.sp.P(50) {
		p.step("orderby", "OrderBy("+n.String()+")", func(b bld) bld { return sel(b).OrderBy(orders...) })
	} else {
		for i := range orders {
			o := orders[i]
			p.step("orderby", "OrderBy("+n.C[i].String()+")", func(b bld) bld { return sel(b).OrderBy(o) })
		}
	}
	return n
}

func (g *Gen) spellInt(n int64, limit bool) any {
	if !g.o.spell {
		return n
	}
	switch g.sp.N(11) {
	case 0:
		return int(n)
	case 1:
		if n <= 127 {
			return int8(n)
		}
	case 2:
		if n <= 32767 {
			return int16(n)
		}
	case 3:
		if n <= 1<<31-1 {
			return int32(n)
		}
	case 4:
		return uint64(n)
	case 5:
		if n <= 255 {
			return uint8(n)
		}
	case 6:
		if n <= 65535 {
			return uint16(n)
		}
	case 7:
		if n <= 1<<32-1 {
			return uint32(n)
		}
	case 8:
		return strconv.FormatInt(n, 10)
	case 9:
		return uint(n)
	case 10:
		if limit {
			return lk.Limit(n)
		}
		return lk.Offset(n)
	}
	return n
}

func (g *Gen) someInt() int64 {
	if g.tiny {
		return pick(g.s, int64(1), 2, 10)
	}
	return pick(g.s, int64(1), 2, 10, 100, 127, 128, 255, 256, 20, 1000, 65535, 65536, 1<<31-1, 1<<31, 1<<32, 1<<63-1, int64(1+g.s.N(5000)))
}

// has decides if a statement has a clause: the bits of the mask, when there is one, enumerate the sets of clauses.
func (g *Gen) has(pct int) bool {
	if g.o.mask > 0 {
		g.bit++
		return g.o.mask>>(g.bit-1)&1 == 1
	}
	return g.s.P(pct)
}

// Select generates a select. A nested one can be embedded in any expression.
func (g *Gen) Select(nested bool) *Prog {
	p := &Prog{Kind: "select"}
	ast := nd("select", "")
	maxItems := 4
	if nested {
		maxItems = 2
	}
	items, itemsN := g.selectItems("columns", maxItems)
	has := func(pct int) bool {
		if nested {
			if g.tiny {
				return g.s.P(pct / 3)
			}
			return g.s.P(pct * 2 / 3)
		}
		return g.has(pct)
	}
	hasPrefix := has(12) && g.o.prefix
	hasWith := has(20) && g.canSub()
	hasFrom := has(95)
	masked := g.o.mask > 0 && !nested
	hasJoin := has(35) && (hasFrom || masked || g.s.P(10))
	hasWhere := has(65)
	hasGroup := has(25)
	hasHaving := has(50) && (hasGroup || masked || g.s.P(20))
	hasOrder := has(30)
	hasLimit := has(30)
	hasOffset := has(25)
	hasSuffix := has(12) && (g.o.prefix || nested)
	distinct := 0
	if has(10) {
		distinct = 1
	}
	if has(10) {
		distinct = 2
	}
	hasComment := g.o.comment && has(30)

	direct := !g.o.spell || g.sp.P(70)
	if direct {
		p.SDesc = "Select(" + briefArgs(items) + ")"
		p.Start = func() bld { return lk.Select(items...) }
	} else {
		p.SDesc = "NewSelect()"
		p.Start = func() bld { return builder.NewSelect() }
		p.step("columns", "Columns("+briefArgs(items)+")", func(b bld) bld { return sel(b).Columns(items...) })
	}
	if hasPrefix {
		f := pick(g.s, "EXPLAIN", "EXPLAIN ANALYZE", "EXPLAIN VERBOSE")
		var a any = f
		if g.o.spell && g.sp.P(50) {
			a = stmt.NewPrefix(f)
		}
		p.step("prefix", "Prefix("+f+")", func(b bld) bld { return sel(b).Prefix(a) })
		ast.add(nd("prefix", f))
	}
	if hasWith {
		ast.add(g.with(p, func(b bld, q []stmt.WithQuery) bld { return sel(b).With(q...) }))
	}
	switch distinct {
	case 1:
		p.step("distinct", "Distinct()", func(b bld) bld { return sel(b).Distinct() })
		ast.add(nd("distinct", ""))
	case 2:
		args, _, n := g.columns("distincton", 3)
		p.step("distincton", "DistinctOn("+briefArgs(args)+")", func(b bld) bld { return sel(b).DistinctOn(args...) })
		ast.add(n)
	}
	ast.add(itemsN)
	if hasFrom {
		args, n := g.from(3, true)
		p.step("from", "From("+briefArgs(args)+")", func(b bld) bld { return sel(b).From(args...) })
		ast.add(n)
	}
	if hasJoin {
		for i, c := 0, g.count(1, 3); i < c; i++ {
			desc, fn, n := g.join()
			p.step("join", desc, fn)
			ast.add(n)
		}
	}
	if hasWhere {
		ast.add(g.where(p, 3, func(b bld, k string, c stmt.Expression) bld {
			switch k {
			case "And":
				return sel(b).And(c)
			case "Or":
				return sel(b).Or(c)
			}
			return sel(b).Where(c)
		}))
	}
	if hasGroup {
		args, _, n := g.columns("groupby", 3)
		p.step("groupby", "GroupBy("+briefArgs(args)+")", func(b bld) bld { return sel(b).GroupBy(args...) })
		ast.add(n)
	}
	if hasHaving {
		e, n := g.cond(g.o.depth)
		p.step("having", "Having("+n.String()+")", func(b bld) bld { return sel(b).Having(e) })
		ast.add(nd("having", "", n))
	}
	if hasOrder {
		ast.add(g.orderBy(p))
	}
	if hasLimit {
		n := g.someInt()
		a := g.spellInt(n, true)
		p.step("limit", fmt.Sprintf("Limit(%T(%v))", a, a), func(b bld) bld { return sel(b).Limit(a) })
		ast.add(nd("limit", strconv.FormatInt(n, 10)))
	}
	if hasOffset {
		n := g.someInt()
		a := g.spellInt(n, false)
		p.step("offset", fmt.Sprintf("Offset(%T(%v))", a, a), func(b bld) bld { return sel(b).Offset(a) })
		ast.add(nd("offset", strconv.FormatInt(n, 10)))
	}
	if hasSuffix {
		f := pick(g.s, "FOR UPDATE", "FOR SHARE", "FOR UPDATE SKIP LOCKED")
		var a any = f
		if g.o.spell && g.sp.P(50) {
			a = stmt.NewSuffix(f)
		}
		p.step("suffix", "Suffix("+f+")", func(b bld) bld { return sel(b).Suffix(a) })
		ast.add(nd("suffix", f))
	}
	if hasComment {
		g.comment(p, ast, func(b bld, c string) bld { return sel(b).Comment(c) })
	}
	p.AST = ast
	return p
}

func (g *Gen) comment(p *Prog, ast *N, call func(b bld, c string) bld) {
	c := pick(g.s, "a comment", "file.go:12", "users.List")
	if g.s.P(6) {
		c = strings.TrimSpace(strings.Repeat(c+" ", g.s.Range(2, 120)))
	}
	p.step("comment", "Comment("+c+")", func(b bld) bld { return call(b, c) })
	ast.add(nd("comment", c))
}

func (g *Gen) returning(p *Prog, ast *N, call func(b bld, a []any) bld) {
	args, n := g.selectItems("returning", 3)
	p.step("returning", "Returning("+briefArgs(args)+")", func(b bld) bld { return call(b, args) })
	ast.add(n)
}

// element of a row, or a value assigned to a column.
func (g *Gen) element() (any, *N) {
	if g.tiny && g.s.P(30) {
		name := pick(g.s, "a", "b", g.vocab[0])
		if g.s.P(25) {
			return lk.Condition(name), idOf(name)
		}
		return lk.Raw(name), mustExpr(name)
	}
	switch k := g.s.N(100); {
	case k < 5:
		v := g.valOf("nil")
		return v.In, valNode(v)
	case k < 82:
		v := g.val()
		return v.In, valNode(v)
	case k < 90 || !g.canSub():
		r, n := g.raw()
		return r, n
	case k < 94:
		c, n := g.call()
		return c, n
	default:
		p, n := g.subselect()
		return g.subArg(p), n
	}
}

// distinctNames generates different unqualified or qualified names.
func (g *Gen) distinctNames(count int) []string {
	var out []string
	seen := map[string]bool{}
	for len(out) < count {
		n := g.name()
		if seen[n] && g.tiny && g.s.P(70) {
			n = pick(g.s, "a", "b", "c")
		}
		if seen[n] {
			n = g.o.part(g.s) + strconv.Itoa(len(out)) + "_"
		}
		if seen[n] || !asText(n) && strings.TrimSpace(n) == "" {
			continue
		}
		seen[n] = true
		out = append(out, n)
	}
	return out
}

// pairs generates the arguments of one or several Set calls which assign each of the columns once, and the tree.
func (g *Gen) pairs(count int) (calls [][]any, n *N) {
	names := g.distinctNames(count)
	type pair struct {
		name string
		arg  any
	}
	n = nd("set", "pairs")
	sorted := append([]string{}, names...)
	sortStrings(sorted)
	var ps []pair
	// Values are generated in the order of columns, so that the tree is in textual order.
	for _, name := range sorted {
		a, an := g.element()
		ps = append(ps, pair{name, a})
		n.add(nd("assign", nameKey(name), an))
	}
	shuffle(g.pm, ps)
	var args []any
	flush := func() {
		if len(args) > 0 {
			calls = append(calls, args)
			args = nil
		}
	}
	for i := 0; i < len(ps); {
		if g.pm.P(25) {
			flush()
		}
		switch k := g.pm.N(4); {
		case k == 0: // Map of several columns
			m := lk.Map{}
			for c := g.pm.Range(1, 4); c > 0 && i < len(ps); c-- {
				if g.pm.P(50) && asText(ps[i].name) {
					m[ps[i].name] = ps[i].arg
				} else {
					m[lk.Column(ps[i].name)] = ps[i].arg
				}
				i++
			}
			args = append(args, m)
		case k == 1 && asText(ps[i].name): // map[string]interface{}
			m := map[string]interface{}{}
			for c := g.pm.Range(1, 4); c > 0 && i < len(ps) && asText(ps[i].name); c-- {
				m[ps[i].name] = ps[i].arg
				i++
			}
			args = append(args, m)
		default:
			var key any = lk.Column(ps[i].name)
			if g.pm.P(50) && asText(ps[i].name) {
				key = ps[i].name
			}
			args = append(args, lk.Pair(key, ps[i].arg))
			i++
		}
	}
	flush()
	return calls, n
}

func sortStrings(s []string) {
	// Order of column names: bytes.
	sort.Strings(s)
}

// rows generates the argument(s) of Values with its tree.
func (g *Gen) rows(cols int) ([]any, *N) {
	n := nd("values", "")
	switch k := g.s.N(100); {
	case k < 30: // one row of any elements
		row := nd("vrow", "")
		var args []any
		for i := 0; i < cols; i++ {
			a, an := g.element()
			args, row = append(args, a), row.add(an)
		}
		n.add(row)
		if len(args) > 1 && g.o.spell && g.sp.P(30) {
			return []any{args}, n
		}
		if len(args) > 1 && g.o.spell && g.sp.P(30) {
			return []any{[][]any{args}}, n
		}
		return args, n
	case k < 50: // one typed row
		d := sliceDefs[g.s.N(len(sliceDefs))]
		row := nd("vrow", "")
		var vals []*Val
		for i := 0; i < cols; i++ {
			v := g.valOf(d.kind)
			if v.Kind != d.kind {
				d = sliceDef{kind: v.Kind}
			}
			vals = append(vals, v)
			row.add(valNode(v))
		}
		n.add(row)
		return g.spellList(d, vals), n
	case k < 75: // several rows of any elements
		var rows [][]any
		for i, c := 0, g.listSize(); i < c; i++ {
			row := nd("vrow", "")
			var args []any
			for j := 0; j < cols; j++ {
				a, an := g.element()
				args, row = append(args, a), row.add(an)
			}
			n.add(row)
			rows = append(rows, args)
		}
		return []any{rows}, n
	default: // several typed rows
		kind := pick(g.s, "string", "int", "int64", "bool")
		count := g.listSize()
		vals := make([][]*Val, count)
		for i := range vals {
			row := nd("vrow", "")
			for j := 0; j < cols; j++ {
				v := g.valOf(kind)
				vals[i] = append(vals[i], v)
				row.add(valNode(v))
			}
			n.add(row)
		}
		return []any{typedRows(kind, vals, !g.o.spell || g.sp.P(60))}, n
	}
}

func rowsOf[T any](vals [][]*Val) [][]T {
	out := make([][]T, len(vals))
	for i := range vals {
		out[i] = make([]T, len(vals[i]))
		for j := range vals[i] {
			out[i][j] = vals[i][j].In.(T)
		}
	}
	return out
}

func typedRows(kind string, vals [][]*Val, typed bool) any {
	if typed {
		same := true
		for i := range vals {
			for j := range vals[i] {
				same = same && vals[i][j].Kind == kind
			}
		}
		if same {
			switch kind {
			case "string":
				return rowsOf[string](vals)
			case "int":
				return rowsOf[int](vals)
			case "int64":
				return rowsOf[int64](vals)
			case "bool":
				return rowsOf[bool](vals)
			}
		}
	}
	out := make([][]stmt.Expression, len(vals))
	for i := range vals {
		for j := range vals[i] {
			out[i] = append(out[i], stmt.NewExpression(vals[i][j].In))
		}
	}
	return out
}

// Insert generates an insert.
func (g *Gen) Insert() *Prog {
	p := &Prog{Kind: "insert"}
	ast := nd("insert", "")
	t, tn := g.table(false)
	ast.add(tn)
	arg := g.tableArg(t, tn)
	if g.o.spell && g.sp.P(10) {
		arg = stmt.NewInto(t)
	}
	if !g.o.spell || g.sp.P(70) {
		p.SDesc = "Insert(" + briefArgs([]any{arg}) + ")"
		p.Start = func() bld { return lk.Insert(arg) }
	} else {
		p.SDesc = "NewInsert()"
		p.Start = func() bld { return builder.NewInsert() }
		p.step("into", "Into("+briefArgs([]any{arg})+")", func(b bld) bld { return ins(b).Into(arg) })
	}
	hasConflict := g.has(40)
	hasReturning := g.has(40)
	hasColumns, hasValues := g.has(92), g.has(97)
	if hasColumns && hasValues && g.s.P(35) {
		// Set
		calls, n := g.pairs(g.count(1, 5))
		var args []any
		for _, c := range calls {
			args = append(args, c...)
		}
		cols, row := nd("columns", ""), nd("vrow", "")
		for _, a := range n.C {
			cols.add(nd("id", a.T))
			row.add(a.C[0])
		}
		ast.add(cols, nd("values", "", row))
		p.step("values", "Set("+briefArgs(args)+")", func(b bld) bld { return ins(b).Set(args...) })
	} else {
		names := g.distinctNames(g.count(1, 4))
		if hasColumns {
			cn := nd("columns", "")
			for _, name := range names {
				cn.add(idOf(name))
			}
			ast.add(cn)
			cargs := g.spellColumns(names)
			p.step("columns", "Columns("+briefArgs(cargs)+")", func(b bld) bld { return ins(b).Columns(cargs...) })
		}
		if hasValues {
			vargs, vn := g.rows(len(names))
			ast.add(vn)
			p.step("values", "Values("+briefArgs(vargs)+")", func(b bld) bld { return ins(b).Values(vargs...) })
		}
	}
	if hasConflict {
		n := nd("conflict", "nothing")
		var args []any
		update := g.s.P(60)
		if update || g.s.P(50) {
			target := nd("target", "")
			for i, c := 0, g.count(1, 3); i < c; i++ {
				name := g.name()
				target.add(idOf(name))
				if strings.TrimSpace(name) == name && (!g.o.spell || g.sp.P(50)) {
					args = append(args, name)
				} else {
					args = append(args, lk.Column(name))
				}
			}
			n.add(target)
		}
		if update {
			calls, sn := g.pairs(g.count(1, 4))
			var sargs []any
			for _, c := range calls {
				sargs = append(sargs, c...)
			}
			n.T = "update"
			n.add(sn)
			args = append(args, lk.DoUpdate(sargs...))
		} else {
			args = append(args, lk.DoNothing())
		}
		ast.add(n)
		p.step("conflict", "OnConflict("+n.String()+")", func(b bld) bld { return ins(b).OnConflict(args...) })
	}
	if hasReturning {
		g.returning(p, ast, func(b bld, a []any) bld { return ins(b).Returning(a...) })
	}
	if g.o.comment && g.has(30) {
		g.comment(p, ast, func(b bld, c string) bld { return ins(b).Comment(c) })
	}
	p.AST = ast
	return p
}

// Update generates an update.
func (g *Gen) Update() *Prog {
	p := &Prog{Kind: "update"}
	ast := nd("update", "")
	t, tn := g.table(false)
	arg := g.tableArg(t, tn)
	p.SDesc = "Update(" + briefArgs([]any{arg}) + ")"
	if g.has(15) {
		tn.T = "only"
		if g.o.spell && g.sp.P(40) {
			arg = t.Only()
		} else {
			p.step("only", "Only()", func(b bld) bld { return upd(b).Only() })
		}
	}
	p.Start = func() bld { return lk.Update(arg) }
	if g.has(20) && g.canSub() {
		ast.add(g.with(p, func(b bld, q []stmt.WithQuery) bld { return upd(b).With(q...) }))
	}
	ast.add(tn)
	if g.has(65) {
		calls, n := g.pairs(g.count(1, 6))
		for _, c := range calls {
			args := c
			p.step("set", "Set("+briefArgs(args)+")", func(b bld) bld { return upd(b).Set(args...) })
		}
		ast.add(n)
	} else {
		n := nd("set", "list")
		names := g.distinctNames(g.count(1, 4))
		targets := nd("targets", "")
		for _, name := range names {
			targets.add(idOf(name))
		}
		n.add(targets)
		var sargs []any
		for _, name := range names {
			if asText(name) && (!g.o.spell || g.sp.P(60)) {
				sargs = append(sargs, name)
			} else {
				sargs = append(sargs, lk.Column(name))
			}
		}
		if !g.o.spell || g.sp.P(60) {
			p.step("set", "Set("+briefArgs(sargs)+")", func(b bld) bld { return upd(b).Set(sargs...) })
		} else {
			for i := range sargs {
				a := sargs[i]
				p.step("set", "Set("+briefArgs([]any{a})+")", func(b bld) bld { return upd(b).Set(a) })
			}
		}
		var uargs []any
		if g.canSub() && g.s.P(25) {
			sp, sn := g.subselect()
			uargs = append(uargs, g.subArg(sp))
			n.add(sn)
		} else {
			l := nd("list", "")
			for range names {
				a, an := g.element()
				if an.K == "subq" && len(names) == 1 {
					a, an = lk.Raw("1"), mustExpr("1")
				}
				uargs, l = append(uargs, a), l.add(an)
			}
			n.add(l)
		}
		p.step("set", "Using("+briefArgs(uargs)+")", func(b bld) bld { return upd(b).Using(uargs...) })
		ast.add(n)
	}
	if g.has(25) {
		args, n := g.from(1, true)
		p.step("from", "From("+briefArgs(args)+")", func(b bld) bld { return upd(b).From(args[0]) })
		ast.add(n)
	}
	if g.has(70) {
		ast.add(g.where(p, 3, func(b bld, k string, c stmt.Expression) bld {
			switch k {
			case "And":
				return upd(b).And(c)
			case "Or":
				return upd(b).Or(c)
			}
			return upd(b).Where(c)
		}))
	}
	if g.has(35) {
		g.returning(p, ast, func(b bld, a []any) bld { return upd(b).Returning(a...) })
	}
	if g.o.comment && g.has(30) {
		g.comment(p, ast, func(b bld, c string) bld { return upd(b).Comment(c) })
	}
	p.AST = ast
	return p
}

// Delete generates a delete.
func (g *Gen) Delete() *Prog {
	p := &Prog{Kind: "delete"}
	ast := nd("delete", "")
	args, n := g.from(2, false)
	ast.add(n)
	if len(args) == 1 && (!g.o.spell || g.sp.P(70)) {
		p.SDesc = "Delete(" + briefArgs(args) + ")"
		p.Start = func() bld { return lk.Delete(args[0]) }
	} else {
		p.SDesc = "NewDelete()"
		p.Start = func() bld { return builder.NewDelete() }
		p.step("from", "From("+briefArgs(args)+")", func(b bld) bld { return del(b).From(args...) })
	}
	if g.has(30) {
		un := nd("using", "")
		var uargs []any
		for i, c := 0, g.count(1, 3); i < c; i++ {
			t, tn := g.table(true)
			uargs, un = append(uargs, g.tableArg(t, tn)), un.add(tn)
		}
		p.step("using", "Using("+briefArgs(uargs)+")", func(b bld) bld { return del(b).Using(uargs...) })
		ast.add(un)
	}
	if g.has(80) {
		ast.add(g.where(p, 3, func(b bld, k string, c stmt.Expression) bld {
			switch k {
			case "And":
				return del(b).And(c)
			case "Or":
				return del(b).Or(c)
			}
			return del(b).Where(c)
		}))
	}
	if g.has(35) {
		g.returning(p, ast, func(b bld, a []any) bld { return del(b).Returning(a...) })
	}
	if g.o.comment && g.has(30) {
		g.comment(p, ast, func(b bld, c string) bld { return del(b).Comment(c) })
	}
	p.AST = ast
	return p
}

var kinds4 = []string{"select", "insert", "update", "delete"}

func (g *Gen) Any() *Prog {
	return g.Of(kinds4[g.s.N(4)])
}

func (g *Gen) Of(kind string) *Prog {
	switch kind {
	case "select":
		return g.Select(false)
	case "insert":
		return g.Insert()
	case "update":
		return g.Update()
	default:
		return g.Delete()
	}
}
