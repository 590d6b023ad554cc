package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/types"
)

// Families shared by several checks: sizes of clauses and containers, neighbouring inputs.

// largeSizes are sizes around usual limits: powers of 2 and 10, and the limits of PostgreSQL (32 columns of an index, 63 bytes of a
// name, 1600 columns of a table, 1664 elements of a select list).
var largeSizes = []int{31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
	1599, 1600, 1601, 1663, 1664, 1665, 1999, 2000, 2001, 2047, 2048, 2049, 2500, 3000, 4095, 4096, 4097}

// sizeOf draws the k-th size: every small one, then the large ones.
func sizeOf(k int) int {
	k %= 30 + len(largeSizes)
	if k < 30 {
		return k + 1
	}
	return largeSizes[k-30]
}

const sizeCount = 77

// sizeWords returns n distinct names, sorted.
func sizeWords(r *R, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = pick(r, "a", "b", "col_", "x") + strconv.Itoa(i) + pick(r, "", "", "_z", "q")
	}
	sort.Strings(out)
	return out
}

var sizeClauses = map[string][]string{
	"select": {"items", "from", "join", "groupby", "orderby", "with", "distincton"},
	"insert": {"columns", "row", "rows", "set", "target", "update", "returning"},
	"update": {"set", "list", "with", "returning"},
	"delete": {"using", "returning", "from"},
}

func sizesFamily(kind string, quick int) Family {
	n := len(sizeClauses[kind]) * sizeCount
	return Family{Name: "sizes", Quick: n * quick, Thorough: n * quick * 3, Fn: func(t *T) { clauseSizes(t, kind) }}
}

// clauseSizes: one clause has n elements, and others come after it.
func clauseSizes(t *T, kind string) {
	p, b := sizedProg(t, kind, t.idx)
	t.conform(p, b, pick(t.R("mode"), modePositional, modePositional, modeNamed, modeInline))
	t.Ev("sizes", 1)
	t.Distinct("sizes", p.SDesc, p.AST.shape())
}

// sizedProg is the idx-th statement of a kind having a clause of a given size.
func sizedProg(t *T, kind string, idx int) (*Prog, bld) {
	clause := sizeClauses[kind][idx%len(sizeClauses[kind])]
	n := sizeOf(idx / len(sizeClauses[kind]))
	r := t.R("sizes")
	words := sizeWords(r, n)
	mixed := append([]string{}, words...)
	shuffle(r, mixed)
	if r.P(30) && n > 2 && clause != "set" && clause != "update" && clause != "with" && clause != "list" && clause != "columns" {
		// The same one several times.
		for k := 0; k < 3; k++ {
			mixed[r.N(n)] = mixed[r.N(n)]
		}
	}
	num := func(i int) *N { v := val(i); return valNode(&v) }
	eq, eqn := lk.Condition("w").Equal(7), nd("where", "", nd("cmp", "=", idOf("w"), num(7)))
	any1 := func(list []string) []any {
		cols := make([]stmt.Column, len(list))
		exprs := make([]stmt.SelectExpression, len(list))
		for i := range list {
			cols[i] = lk.Column(list[i])
			exprs[i] = cols[i]
		}
		switch k := r.N(10); {
		case k < 2:
			return []any{append([]string{}, list...)}
		case k == 2:
			return []any{cols}
		case k == 3 && (clause == "items" || clause == "returning"):
			return []any{exprs}
		case k == 4:
			return []any{strings.Join(list, pick(r, ",", ", ", " ,\t"))}
		case k == 5:
			half := len(list) / 2
			return append([]any{lk.Column(list[0])}, func() (out []any) {
				if half > 1 {
					out = append(out, strings.Join(list[1:half], ", "))
				}
				for _, w := range list[max(1, half):] {
					out = append(out, w)
				}
				return out
			}()...)
		}
		out := make([]any, len(list))
		for i := range list {
			out[i] = list[i]
			if r.P(30) {
				out[i] = lk.Column(list[i])
			}
		}
		return out
	}
	tables1 := func(list []string, root string) ([]any, *N) {
		out, an := make([]any, len(list)), nd(root, "")
		for i := range list {
			out[i] = list[i]
			if r.P(30) {
				out[i] = lk.Table(list[i])
			}
			an.add(nd("table", "", idOf(list[i])))
		}
		return out, an
	}
	ids := func(root string, list []string) *N {
		an := nd(root, "")
		for _, w := range list {
			an.add(idOf(w))
		}
		return an
	}
	items := func(root string, list []string) *N {
		an := nd(root, "")
		for _, w := range list {
			an.add(nd("item", "", idOf(w)))
		}
		return an
	}
	pairs := func() ([]any, *N) {
		var args []any
		an := nd("set", "pairs")
		vals := map[string]int{}
		for i, w := range words {
			vals[w] = i
			an.add(assignN(w, num(i)))
		}
		m := map[string]any{}
		for _, w := range mixed {
			switch r.N(3) {
			case 0:
				m[w] = vals[w]
			default:
				args = append(args, lk.Pair(w, vals[w]))
			}
		}
		if len(m) > 0 {
			args = append(args, m)
		}
		return args, an
	}
	with := func() ([]stmt.WithQuery, *N) {
		var q []stmt.WithQuery
		an := nd("with", "")
		for i, w := range mixed {
			sub := lk.Select(w).From("u")
			sn := nd("select", "", nd("columns", "", nd("item", "", idOf(w))), nd("from", "", nd("table", "", idOf("u"))))
			if r.P(30) {
				sub = sub.Where(lk.Condition("k").Equal(i))
				sn.add(nd("where", "", nd("cmp", "=", idOf("k"), num(i))))
			}
			if r.P(10) {
				sub = sub.With(lk.With("inner_"+w, lk.Select("z")))
				sn = nd("select", "", append([]*N{nd("with", "", nd("cte", nameKey("inner_"+w), nd("subq", "", nd("select", "", nd("columns", "", nd("item", "", idOf("z")))))))}, sn.C...)...)
			}
			q, an = append(q, lk.With(w, sub)), an.add(nd("cte", nameKey(w), nd("subq", "", sn)))
		}
		return q, an
	}
	idItem := nd("columns", "", nd("item", "", idOf("id")))
	fromT := nd("from", "", tableT())
	limit := nd("limit", "3")
	ret := nd("returning", "", nd("item", "", idOf("rr")))
	var b bld
	var ast *N
	switch kind + " " + clause {
	case "select items":
		b, ast = lk.Select(any1(mixed)...).From("t").Where(eq).Limit(3), nd("select", "", items("columns", mixed), fromT, eqn, limit)
	case "select from":
		args, an := tables1(mixed, "from")
		b, ast = lk.Select("id").From(args...).Where(eq).Limit(3), nd("select", "", idItem, an, eqn, limit)
	case "select join":
		s := lk.Select("id").From("t")
		ast = nd("select", "", idItem, fromT)
		for _, w := range mixed {
			jt := joinTypes[r.N(len(joinTypes))]
			s = s.Join(w, lk.On(w, "b"), jt)
			ast.add(nd("join", string(jt), nd("table", "", idOf(w)), nd("cmp", "=", idOf(w), idOf("b"))))
		}
		b = s.Where(eq).Limit(3)
		ast.add(eqn, limit)
	case "select groupby":
		b, ast = lk.Select("id").From("t").Where(eq).GroupBy(any1(mixed)...).Limit(3), nd("select", "", idItem, fromT, eqn, ids("groupby", mixed), limit)
	case "select distincton":
		b, ast = lk.Select("id").DistinctOn(any1(mixed)...).From("t").Limit(3), nd("select", "", ids("distincton", mixed), idItem, fromT, limit)
	case "select orderby":
		s := lk.Select("id").From("t").Where(eq)
		on := nd("orderby", "")
		var list []stmt.Order
		for _, w := range mixed {
			dir := pick(r, types.Asc, types.Desc)
			list = append(list, lk.Order(w, dir))
			on.add(nd("order", string(dir), mustExpr(w)))
			if r.P(3) {
				s, list = s.OrderBy(list...), nil
			}
		}
		b, ast = s.OrderBy(list...).Limit(3), nd("select", "", idItem, fromT, eqn, on, limit)
	case "select with":
		q, an := with()
		b, ast = lk.Select("id").From("t").Where(eq).With(q...), nd("select", "", an, idItem, fromT, eqn)
	case "insert columns":
		vals, row := make([]any, n), nd("vrow", "")
		for i := range vals {
			vals[i], row = i, row.add(num(i))
		}
		b, ast = lk.Insert("t").Columns(any1(mixed)...).Values(vals).Returning("rr"), nd("insert", "", tableT(), ids("columns", mixed), nd("values", "", row), ret)
	case "insert row":
		vals, row := make([]any, n), nd("vrow", "")
		for i := range vals {
			k := r.N(3)
			if i == 0 && n == 1 {
				k = 5
			}
			vals[i], row = k, row.add(num(k))
		}
		if n == 1 || r.P(50) {
			b = lk.Insert("t").Values(vals).Returning("rr")
		} else {
			b = lk.Insert("t").Values(vals...).Returning("rr")
		}
		ast = nd("insert", "", tableT(), nd("values", "", row), ret)
	case "insert rows":
		rows, vn := make([][]any, n), nd("values", "")
		for i := range rows {
			rows[i] = []any{r.N(4), "v"}
			v := val("v")
			vn.add(nd("vrow", "", num(rows[i][0].(int)), valNode(&v)))
		}
		b, ast = lk.Insert("t").Values(rows).Returning("rr"), nd("insert", "", tableT(), vn, ret)
	case "insert set":
		args, an := pairs()
		cols, row := nd("columns", ""), nd("vrow", "")
		for _, a := range an.C {
			cols.add(nd("id", a.T))
			row.add(a.C[0])
		}
		b, ast = lk.Insert("t").Set(args...).Returning("rr"), nd("insert", "", tableT(), cols, nd("values", "", row), ret)
	case "insert target":
		args := make([]any, n)
		for i, w := range mixed {
			args[i] = w
			if r.P(30) {
				args[i] = lk.Column(w)
			}
		}
		b, ast = lk.Insert("t").Values(1).OnConflict(append(args, lk.DoNothing())...).Returning("rr"), nd("insert", "", tableT(), nd("values", "", nd("vrow", "", num(1))),
			nd("conflict", "nothing", ids("target", mixed)), ret)
	case "insert update":
		args, an := pairs()
		b, ast = lk.Insert("t").Values(1).OnConflict("k", lk.DoUpdate(args...)).Returning("rr"), nd("insert", "", tableT(), nd("values", "", nd("vrow", "", num(1))),
			nd("conflict", "update", nd("target", "", idOf("k")), an), ret)
	case "insert returning":
		b, ast = lk.Insert("t").Values(1).Returning(any1(mixed)...), nd("insert", "", tableT(), nd("values", "", nd("vrow", "", num(1))), items("returning", mixed))
	case "update set":
		args, an := pairs()
		u := lk.Update("t")
		if r.P(50) {
			u = u.Set(args...)
		} else {
			for _, a := range args {
				u = u.Set(a)
			}
		}
		b, ast = u.Where(eq).Returning("rr"), nd("update", "", tableT(), an, eqn, ret)
	case "update list":
		args, l := make([]any, n), nd("list", "")
		for i := range args {
			args[i], l = i+1, l.add(num(i+1))
		}
		cols := make([]any, n)
		for i, w := range mixed {
			cols[i] = w
		}
		b, ast = lk.Update("t").Set(cols...).Using(args...).Where(eq).Returning("rr"), nd("update", "", tableT(), nd("set", "list", ids("targets", mixed), l), eqn, ret)
	case "update with":
		q, an := with()
		b, ast = lk.Update("t").Set(lk.Pair("a", 1)).Where(eq).With(q...), nd("update", "", an, tableT(), nd("set", "pairs", assignN("a", num(1))), eqn)
	case "update returning":
		b, ast = lk.Update("t").Set(lk.Pair("a", 1)).Where(eq).Returning(any1(mixed)...), nd("update", "", tableT(), nd("set", "pairs", assignN("a", num(1))), eqn, items("returning", mixed))
	case "delete using":
		args, an := tables1(mixed, "using")
		b, ast = lk.Delete("t").Using(args...).Where(eq).Returning("rr"), nd("delete", "", fromT, an, eqn, ret)
	case "delete returning":
		b, ast = lk.Delete("t").Where(eq).Returning(any1(mixed)...), nd("delete", "", fromT, eqn, items("returning", mixed))
	case "delete from":
		args, an := tables1(mixed, "from")
		b, ast = builder.NewDelete().From(args...).Where(eq).Returning("rr"), nd("delete", "", an, eqn, ret)
	default:
		panic("harness: no clause " + clause)
	}
	return &Prog{Kind: kind, AST: ast, SDesc: fmt.Sprintf("%s of %d elements", clause, n)}, b
}

// ------------------------------------------------------------------------------------------------------- P08: containers

// grow returns a container of n elements, with spare capacity, from a small one. The last element stays the last one.
func grow(c any, n int) any {
	v := reflect.ValueOf(c)
	switch v.Kind() {
	case reflect.Slice:
		if !isContainer(v.Type()) || v.Len() == 0 {
			return c
		}
		if v.Len() == 1 && v.Type().Elem().Kind() == reflect.Interface {
			if inner := v.Index(0).Elem(); inner.IsValid() && inner.Kind() == reflect.Slice && isContainer(inner.Type()) {
				// A list given as the only argument.
				out := reflect.MakeSlice(v.Type(), 1, 3)
				out.Index(0).Set(reflect.ValueOf(grow(inner.Interface(), n)))
				return out.Interface()
			}
		}
		out := reflect.MakeSlice(v.Type(), n, n+5)
		full := out.Slice(0, n+5)
		for i := 0; i < n+5; i++ {
			full.Index(i).Set(growElem(v.Index(i%v.Len()), i))
		}
		out.Index(n - 1).Set(v.Index(v.Len() - 1))
		return out.Interface()
	case reflect.Map:
		out := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, v.MapIndex(k))
		}
		for i := 0; out.Len() < n; i++ {
			out.SetMapIndex(reflect.ValueOf("grown"+strconv.Itoa(i)), reflect.ValueOf(i))
		}
		return out.Interface()
	}
	return c
}

// growElem copies the nested containers, so that elements share nothing.
func growElem(v reflect.Value, i int) reflect.Value {
	e := v
	for e.Kind() == reflect.Interface && !e.IsNil() {
		e = e.Elem()
	}
	switch {
	case e.Kind() == reflect.Slice && isContainer(e.Type()) && !e.IsNil():
		out := reflect.MakeSlice(e.Type(), e.Len(), e.Cap())
		reflect.Copy(out.Slice(0, e.Cap()), e.Slice(0, e.Cap()))
		return out
	case e.Kind() == reflect.String && e.Type() == reflect.TypeOf("") && i > 3:
		return reflect.ValueOf(e.String() + strconv.Itoa(i))
	}
	return v
}

// p08Sizes: containers of every size.
func p08Sizes(t *T) {
	api := containerAPIs[t.idx%len(containerAPIs)]
	n := sizeOf(t.idx / len(containerAPIs))
	if n > 1100 {
		n = 1100 + n%10
	}
	if strings.HasPrefix(api.name, "Join") {
		return
	}
	make1 := func() any { return grow(api.mk(t.R("container")), n) }
	var b bld
	wantOut := ""
	c := make1()
	before := snapshot(c)
	if o := try(func() { wantOut, b = outcomeOf(api.use(make1())), api.use(c) }); o.Panicked {
		return // a set of the same keys
	}
	if after := snapshot(c); after != before {
		t.Fail("%s modified a container of %d elements", api.name, n)
	}
	if t.idx%2 == 0 {
		_ = outcomeOf(b)
		if after := snapshot(c); after != before {
			t.Fail("%s: a rendering modified a container of %d elements", api.name, n)
		}
	}
	t.Ev("containers scrambled", scramble(c))
	if out := outcomeOf(b); out != wantOut {
		t.Fail("%s retained a container of %d elements of its caller, which was then modified", api.name, n)
	}
	t.Ev("large containers", 1)
	t.Distinct("sizes", api.name, strconv.Itoa(n))
}

// ------------------------------------------------------------------------------------------------------- P28: fragments

// p28Lengths: fragments of many lengths, with blanks or breaks at their ends.
func p28Lengths(t *T) {
	pos := fragPositions[t.idx%len(fragPositions)]
	r := t.R("lengths")
	marked := render(pos.build(fragMarker))
	sizes := []int{}
	for k := 0; k < 20; k++ {
		sizes = append(sizes, r.Range(1, 400))
	}
	sizes = append(sizes, largeSizes[r.N(len(largeSizes))], largeSizes[r.N(len(largeSizes))], pick(r, 4095, 4096, 5000, 8191, 8192, 8193, 16384, 20000, 65535, 65536, 70000, 131072))
	for _, n := range sizes {
		p28Judge(t, pos, longFragment(r, n), marked)
		t.Distinct("lengths", pos.name, strconv.Itoa(n))
	}
	t.Ev("long fragments", len(sizes))
}

func longFragment(r *R, n int) string {
	var b strings.Builder
	ends := r.P(70)
	if ends {
		b.WriteString(pick(r, " ", "\n", "\t", "(", "'", "  "))
	}
	for b.Len() < n-1 {
		switch r.N(8) {
		case 0:
			b.WriteString(hostile[r.N(len(hostile))])
		case 1:
			b.WriteString(pick(r, "\n", "  ", "\t", "\r\n"))
		default:
			b.WriteString(pick(r, "a", "count", " + ", "b_1", ", ", "WHEN ", "Ab"))
		}
	}
	s := b.String()
	if len(s) > n-1 {
		s = s[:n-1]
	}
	if ends {
		return s + pick(r, " ", "\n", "\t", ")", "'", ";", ".")
	}
	return s + "x"
}

// -------------------------------------------------------------------------------------------------- neighbouring inputs

// neighbours are texts close to a name: what a cache with an imprecise key would mistake for it.
func neighbours(r *R, s string) []string {
	runes := []rune(s)
	i := r.N(len(runes))
	swap := func(c rune) rune {
		switch {
		case c == 'a':
			return 'b'
		case c == 'z':
			return 'y'
		case '0' <= c && c <= '8' || 'b' <= c && c <= 'y' || 'A' <= c && c <= 'Y':
			return c + 1
		}
		return 'k'
	}
	mid := append([]rune{}, runes...)
	mid[i] = swap(mid[i])
	last := append([]rune{}, runes...)
	last[len(last)-1] = swap(last[len(last)-1])
	rev := append([]rune{}, runes...)
	for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
		rev[a], rev[b] = rev[b], rev[a]
	}
	out := []string{strings.ToUpper(s), strings.ToLower(s), strings.Title(s), randCase(r, s), string(mid), string(last), string(rev), s + "s", s + "_", "_" + s, s + s} // nolint
	if len(runes) > 1 {
		out = append(out, string(runes[:len(runes)-1]), string(runes[1:]), string(runes[:1]))
	}
	return out
}

// p19Again: texts which differ a little are parsed one after another, and the first one again.
func p19Again(t *T) {
	r := t.R("again")
	c := newJoinCase(r, pick(r, 1, 1, 2, 3))
	p19Compare(t, c, layout(r, c.tokens))
	for k := 0; k < 6; k++ {
		d := *c
		d.tokens = append([]string{}, c.tokens...)
		d.conds = append([][2]string{}, c.conds...)
		rename := func(old string) string {
			next := neighbours(r, old)
			return next[r.N(len(next))]
		}
		seen := map[string]string{}
		fix := func(old string) string {
			s, ok := seen[old]
			if !ok {
				s = old
				if k%2 == 0 || r.P(50) {
					s = rename(old)
				}
				if !wordName(s) || strings.Contains("."+s+".", "..") {
					s = old
				}
				seen[old] = s
			}
			return s
		}
		// The keywords of the text stay where they are.
		names := map[string]bool{c.table: true}
		d.table = fix(c.table)
		for i, x := range c.conds {
			names[x[0]], names[x[1]] = true, true
			d.conds[i] = [2]string{fix(x[0]), fix(x[1])}
		}
		for i, tok := range c.tokens {
			if names[tok] {
				d.tokens[i] = fix(tok)
			} else {
				d.tokens[i] = randCase(r, tok)
			}
		}
		text := strings.Join(d.tokens, " ")
		if r.P(30) {
			text = layout(r, d.tokens)
		}
		p19Compare(t, &d, text)
		t.Ev("neighbouring texts", 1)
	}
	text := strings.Join(c.tokens, " ")
	p19Compare(t, c, text)
}

// p04Similar: names which differ a little, one after another at random positions.
func p04Similar(t *T) {
	r := t.R("similar")
	var name string
	switch r.N(4) {
	case 0:
		name = strings.Repeat(pick(r, "x", "ab", "col_"), r.Range(1, 40)) + strconv.Itoa(r.N(100))
	case 1:
		name = hostilePart(r)
	case 2:
		name = reservedWords[r.N(len(reservedWords))]
	default:
		name = benignPart(r)
	}
	list := append([]string{name}, neighbours(r, name)...)
	list = append(list, name, name+" ", " "+name, name+"\"", "\""+name, name+"\\", "\""+name+"\"", name+"\x01", name+"é")
	shuffle(r, list)
	pos := &namePositions[r.N(len(namePositions))]
	for _, s := range list {
		s = strings.NewReplacer(".", "", "\x00", "").Replace(s)
		if s == "" || s == "*" || strings.TrimSpace(s) != s && !pos.alias || strings.ContainsRune(s, '\uFFFD') {
			continue
		}
		p04At(t, pos, s)
		if r.P(30) {
			pos = &namePositions[r.N(len(namePositions))]
		}
	}
	t.Ev("similar names", len(list))
	t.Distinct("similar", name)
}

// ------------------------------------------------------------------------------------------------------- P18: encoders

// Values which can be encoded in several ways: the first of a statement, an integer, a boolean, a time and a text.
type encIB struct{ N int64 }

func (e encIB) Int64() int64 { return e.N }
func (e encIB) Bool() bool   { return e.N%2 == 0 }

type encIBTS struct{ N int64 }

func (e encIBTS) Int64() int64    { return e.N }
func (e encIBTS) Bool() bool      { return e.N%2 == 0 }
func (e encIBTS) Time() time.Time { return time.Unix(e.N%1000, 0) }
func (e encIBTS) String() string  { return "never" }

type encIS int64

func (e encIS) Int64() int64   { return int64(e) }
func (e encIS) String() string { return "never" }

type encBTS struct{ N int64 }

func (e encBTS) Bool() bool      { return e.N%2 == 0 }
func (e encBTS) Time() time.Time { return time.Unix(e.N%1000, 0) }
func (e encBTS) String() string  { return "never" }

type encBS bool

func (e encBS) Bool() bool     { return bool(e) }
func (e encBS) String() string { return "never" }

type encTS struct{ T time.Time }

func (e encTS) Time() time.Time { return e.T }
func (e encTS) String() string  { return "never" }

type encIT struct{ N int64 }

func (e encIT) Int64() int64    { return e.N }
func (e encIT) Time() time.Time { return time.Unix(e.N%1000, 0) }

// Also a Valuer, bound as it is.
type encValuer struct{ valuerS }

func (e encValuer) Int64() int64    { return 1 }
func (e encValuer) Bool() bool      { return true }
func (e encValuer) Time() time.Time { return time.Unix(1, 0) }
func (e encValuer) String() string  { return "never" }

// Also a statement.
type encAll struct{ encIBTS }

func (e encAll) Statement() stmt.Statement { return stmt.NewValue(e.N) }

const p18ManyForms = 11

func p18Several(t *T) {
	pos := valuePositions[t.idx%len(valuePositions)]
	r := t.R("several")
	n := int64(r.Range(-5, 1000))
	var v Val
	switch t.idx / len(valuePositions) % p18ManyForms {
	case 0:
		v = Val{In: encIB{n}, Out: n}
	case 1:
		v = Val{In: encIBTS{n}, Out: n}
	case 2:
		v = Val{In: encIS(n), Out: n}
	case 3:
		v = Val{In: encBTS{n}, Out: n%2 == 0}
	case 4:
		v = Val{In: encBS(n%2 == 0), Out: n%2 == 0}
	case 5:
		v = Val{In: encTS{time.Unix(n, 0)}, Out: time.Unix(n, 0)}
	case 6:
		v = Val{In: encIT{n}, Out: n}
	case 7:
		x := encValuer{valuerS{strconv.Itoa(int(n))}}
		v = Val{In: x, Out: x}
	case 8:
		v = Val{In: encAll{encIBTS{n}}, Out: n}
	case 9:
		v = Val{In: &encIBTS{n}, Out: n}
	case 10:
		x := &encValuer{valuerS{strconv.Itoa(int(n))}}
		v = Val{In: x, Out: x}
	}
	p := &Prog{Kind: pos.kind, AST: pos.ast(valNode(&v)), SDesc: fmt.Sprintf("%s with %T", pos.name, v.In)}
	t.conform(p, pos.build(v.In), modePositional, modeNamed)
	t.Ev("values of several encodings", 1)
	t.Distinct("several", pos.name, fmt.Sprintf("%T", v.In))
}
