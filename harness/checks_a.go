package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/stmt"
)

// ------------------------------------------------------------------------------------------------------------------ P01

func init() {
	register(&Check{
		ID: "P01",
		Rule: "random statements of the 4 builders, built twice with the same structure and other values of the same types (hostile texts, extremes, " +
			"special words, very long ones): the texts must be identical bytes. A case is non trivial when at least one value differs between both.",
		Require: []string{"pairs of texts compared", "values replaced", "markers searched"},
		Families: []Family{
			{Name: "huge", Quick: 600, Thorough: 20000, Fn: hugely(5000, p01Reassign)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p01Reassign)},
			{Name: "reassign", Quick: 24000, Thorough: 400000, Fn: p01Reassign},
			{Name: "marker", Quick: 4000, Thorough: 60000, Fn: p01Marker},
			{Name: "kinds", Quick: 9000, Thorough: 120000, Fn: p01Kinds},
			{Name: "long", Quick: 24, Thorough: 200, Fn: p01Long},
		},
	})
}

func p01Compare(t *T, pa, pb *Prog) {
	a, b := pa.Build(), pb.Build()
	qa, aa := a.Query()
	qb, ab := b.Query()
	na, ma := a.NamedQuery()
	nb, mb := b.NamedQuery()
	va, vb := pa.AST.vals(), pb.AST.vals()
	if qa != qb {
		t.Fail("the positional text depends on the values:\n  %s\n  %s\n%s\n%s", qa, qb, pa.Desc(), describeArgs(ab))
	}
	if na != nb {
		t.Fail("the named text depends on the values:\n  %s\n  %s\n%s\n%s", na, nb, pa.Desc(), describeArgs(ab))
	}
	if msg := checkArgs(va, aa); msg != "" {
		t.Fail("%s\n%s\n%s", msg, qa, pa.Desc())
	}
	if msg := checkArgs(vb, ab); msg != "" {
		t.Fail("%s\n%s\n%s", msg, qb, pb.Desc())
	}
	for _, x := range []struct {
		v []*Val
		m map[string]any
	}{{va, ma}, {vb, mb}} {
		args, msg := namedToList(x.m, len(x.v))
		if msg == "" {
			msg = checkArgs(x.v, args)
		}
		if msg != "" {
			t.Fail("named: %s\n%s\n%s", msg, na, pa.Desc())
		}
	}
	t.Ev("pairs of texts compared", 2)
	changed := 0
	for i := range va {
		if !sameArg(va[i].Out, vb[i].Out) {
			changed++
		}
	}
	t.Ev("values replaced", changed)
	if changed > 0 {
		t.Distinct(pa.AST.shape())
	}
}

func p01Reassign(t *T) {
	o := defaultOpts()
	o.kinds = scalarKinds
	pa := newGen(t, o, "a", "", "").Any()
	pb := newGen(t, o, "b", "", "").Any()
	t.Sample("%s", pa.Desc())
	p01Compare(t, pa, pb)
}

// p01Kinds uses a single kind per statement, so that every one of its contents meets every clause.
func p01Kinds(t *T) {
	o := defaultOpts()
	o.kinds = []string{scalarKinds[t.idx%len(scalarKinds)]}
	kind := kinds4[t.idx/len(scalarKinds)%4]
	pa := newGen(t, o, "a", "", "").Of(kind)
	for _, v := range []string{"b", "c", "d"} {
		pb := newGen(t, o, v, "", "").Of(kind)
		p01Compare(t, pa, pb)
	}
}

func p01Marker(t *T) {
	o := defaultOpts()
	o.kinds = []string{"string", "encstring", "valuer", "bytes", "rawstring", "mapss", "lkvalue"}
	marker := fmt.Sprintf("zq%dx", 100000+t.R("marker").N(800000))
	g := newGen(t, o, "", "", "")
	mk := func(r *R) string {
		return pick(r, "", "'", "\"", "\\", "--", ";", "$1", " ") + marker + hostileText(r, 3)
	}
	o.valStr = mk
	g.o.valStr = mk
	g.o.kinds = []string{"string"}
	p := g.Any()
	b := p.Build()
	q, args := b.Query()
	n, _ := b.NamedQuery()
	if strings.Contains(q, marker) || strings.Contains(n, marker) {
		t.Fail("the content of a value is in the text:\n  %s\n  %s\n%s", q, n, p.Desc())
	}
	if _, err := tokenize(q); err != nil {
		t.Fail("the text cannot be read as SQL: %s\n  %s\n%s", err, q, p.Desc())
	}
	t.Ev("markers searched", len(args))
	t.Distinct(p.AST.shape())
	t.Sample("%s", q)
}

func p01Long(t *T) {
	r := t.R("v")
	unit := hostileText(r, 6) + "x"
	long := strings.Repeat(unit, r.Range(1000, 1000000/len(unit)+1000))
	build := func(s string) builder.Builder {
		switch t.idx % 4 {
		case 0:
			return lk.Select("id").From("t").Where(lk.Condition("a").Equal(s)).And(lk.Condition("b").In(s, s))
		case 1:
			return lk.Insert("t").Columns("a", "b").Values(s, []byte(s))
		case 2:
			return lk.Update("t").Set(lk.Map{"a": s, "b": s}).Where(lk.Condition("c").Like(s))
		default:
			return lk.Delete("t").Where(lk.Condition("c").Between(s, s))
		}
	}
	a, b := build(long), build("")
	qa, aa := a.Query()
	qb, _ := b.Query()
	na, _ := a.NamedQuery()
	nb, _ := b.NamedQuery()
	if qa != qb || na != nb {
		t.Fail("the text depends on the length of the values (%d): %.2000s\n%s", len(long), qa, qb)
	}
	for i := range aa {
		if s, ok := aa[i].(string); ok && s != long {
			t.Fail("argument %d was altered", i+1)
		}
	}
	t.Ev("pairs of texts compared", 2)
	t.Ev("values replaced", len(aa))
	t.Distinct(qa, strconv.Itoa(len(long)))
}

// ------------------------------------------------------------------------------------------------------------------ P02

func init() {
	register(&Check{
		ID: "P02",
		Rule: "random statements of the 4 builders, read again by an independent parser: the placeholders in order of appearance must be 1..n, and the k-th " +
			"argument the k-th value of the expected tree; statements with all equal values, and lists, rows and chains of up to 70000 values.",
		Require: []string{"placeholders in sequence", "bound arguments compared", "placeholders in big statements", "statements with hostile names"},
		Families: []Family{
			{Name: "huge", Quick: 600, Thorough: 20000, Fn: hugely(5000, func(t *T) { p02Any(t, nil) })},
			{Name: "coincide", Quick: 4000, Thorough: 300000, Fn: alike(func(t *T) { p02Any(t, nil) })},
			{Name: "any", Quick: 16000, Thorough: 250000, Fn: func(t *T) { p02Any(t, nil) }},
			{Name: "equal", Quick: 6000, Thorough: 80000, Fn: func(t *T) {
				r := t.R("equal")
				v := makeVal(pick(r, "string", "int", "bool", "time", "bytes", "float64", "valuer"), r)
				p02Any(t, v)
			}},
			{Name: "big", Quick: 56, Thorough: 400, Fn: p02Big},
			{Name: "lengths", Quick: p02Forms * 400, Thorough: p02Forms * 1500, Fn: p02Lengths},
		},
	})
}

func p02Sequence(t *T, b builder.Builder, desc func() string) {
	q, args := b.Query()
	nq, m := b.NamedQuery()
	for mode, text := range []string{q, nq} {
		toks, err := tokenize(text)
		if err != nil {
			t.Fail("%s text cannot be read as SQL: %s\n%.3000s\n%s", modeNames[mode], err, text, desc())
		}
		n := 0
		for _, tok := range toks {
			switch tok.Kind {
			case TkParam:
				n++
				if mode != modePositional || tok.Text != strconv.Itoa(n) {
					t.Fail("%s text: placeholder $%s where number %d is expected\n%.3000s\n%s", modeNames[mode], tok.Text, n, text, desc())
				}
			case TkNamed:
				n++
				if mode != modeNamed || tok.Text != "arg_"+strconv.Itoa(n) {
					t.Fail("%s text: placeholder :%s where number %d is expected\n%.3000s\n%s", modeNames[mode], tok.Text, n, text, desc())
				}
			}
		}
		count := len(args)
		if mode == modeNamed {
			count = len(m)
			if _, msg := namedToList(m, n); msg != "" {
				t.Fail("%s text: %s\n%.3000s\n%s", modeNames[mode], msg, text, desc())
			}
		}
		if n != count {
			t.Fail("%s text: %d placeholders for %d arguments\n%.3000s\n%s", modeNames[mode], n, count, text, desc())
		}
		t.Ev("placeholders in sequence", n)
	}
}

func p02Any(t *T, equal *Val) {
	o := defaultOpts()
	o.kinds = scalarKinds
	o.sub, o.extremes, o.equal, o.comment = 3, true, equal, true
	if t.R("names").P(35) {
		// Names which look like placeholders.
		o.part = func(r *R) string {
			if r.P(40) {
				return pick(r, "$1", "$", "a$b", ":arg_1", ":arg_", ":arg_2x", "arg_1", "?", "%s", "$2:arg_3", "%d", "a:b", "$a$")
			}
			return hostilePart(r)
		}
		o.alias = o.part
		o.qualify, o.aliasPct = 35, 40
		t.Ev("statements with hostile names", 1)
	}
	p := newGen(t, o, "", "", "").Any()
	b := p.Build()
	p02Sequence(t, b, p.Desc)
	t.conform(p, b, modePositional, modeNamed)
	t.Distinct(p.AST.shape())
	t.Sample("%s", p.Desc())
}

var bigSizes = []int{1, 9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 70000}

func p02Big(t *T) {
	r := t.R("big")
	n := bigSizes[r.N(len(bigSizes))]
	if t.idx%8 == 0 {
		n = 65530 + r.N(5000)
	}
	p02Sized(t, r, n, (t.idx/8)%p02Forms)
}

const p02Forms = 7

// p02Lengths has every number of values up to some hundreds.
func p02Lengths(t *T) {
	p02Sized(t, t.R("lengths"), t.idx/p02Forms+1, t.idx%p02Forms)
}

func p02Sized(t *T, r *R, n, form int) {
	p := &Prog{}
	ast := nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", nd("table", "", idOf("t"))))
	if form == 5 && n > 3000 {
		n = 3000 // a condition of n levels
	}
	d := sliceDefs[t.idx%len(sliceDefs)]
	var vals []*Val
	l := nd("list", "")
	for i := 0; i < n; i++ {
		v := makeVal(d.kind, r)
		vals = append(vals, v)
		l.add(valNode(v))
	}
	var b builder.Builder
	switch form {
	case 0, 1: // IN with a typed slice, then a value around it
		x, y := makeVal("int", r), makeVal("string", r)
		b = lk.Select("id").From("t").Where(lk.Condition("x").Equal(x.In)).And(lk.Condition("a").In(d.mk(vals))).And(lk.Condition("y").Equal(y.In))
		cx, cy := nd("cmp", "=", idOf("x"), valNode(x)), nd("cmp", "=", idOf("y"), valNode(y))
		ast.add(nd("where", "", nd("and", "", nd("and", "", cx, nd("in", "", idOf("a"), l)), cy)))
		p.Kind = "select"
	case 2: // NOT IN with separate arguments
		ins := make([]any, n)
		for i := range vals {
			ins[i] = vals[i].In
		}
		if n == 1 {
			ins = append(ins, 5)
			v := val(5)
			l.add(valNode(&v))
		}
		b = lk.Delete("t").Where(lk.Condition("a").NotIn(ins...))
		ast = nd("delete", "", nd("from", "", nd("table", "", idOf("t"))), nd("where", "", nd("in", "NOT ", idOf("a"), l)))
		p.Kind = "delete"
	case 3: // rows
		cols := pick(r, 1, 2, 3, 7)
		var rows [][]any
		vn := nd("values", "")
		for i := 0; i+cols <= n; i += cols {
			var row []any
			rn := nd("vrow", "")
			for j := i; j < i+cols; j++ {
				row = append(row, vals[j].In)
				rn.add(valNode(vals[j]))
			}
			rows = append(rows, row)
			vn.add(rn)
		}
		if len(rows) == 0 {
			return
		}
		b = lk.Insert("t").Values(rows)
		ast = nd("insert", "", nd("table", "", idOf("t")), vn)
		p.Kind = "insert"
	case 4: // one wide row
		rn := nd("vrow", "")
		for i := range vals {
			rn.add(valNode(vals[i]))
		}
		b = lk.Insert("t").Values(d.mk(vals))
		ast = nd("insert", "", nd("table", "", idOf("t")), nd("values", "", rn))
		p.Kind = "insert"
	case 5: // a chain of conditions
		var c *N
		s := lk.Select("id").From("t")
		for i := range vals {
			one := nd("cmp", "=", idOf("c"), valNode(vals[i]))
			s = s.Where(lk.Condition("c").Equal(vals[i].In))
			if c == nil {
				c = one
			} else {
				c = nd("and", "", c, one)
			}
		}
		b = s
		ast.add(nd("where", "", c))
		p.Kind = "select"
	case 6: // pairs
		args := make([]any, 0, n)
		set := nd("set", "pairs")
		for i := range vals {
			name := fmt.Sprintf("c%08d", i)
			args = append(args, lk.Pair(name, vals[i].In))
			set.add(nd("assign", nameKey(name), valNode(vals[i])))
		}
		shuffle(r, args)
		w := makeVal("int", r)
		b = lk.Update("t").Set(args...).Where(lk.Condition("id").Equal(w.In))
		ast = nd("update", "", nd("table", "", idOf("t")), set, nd("where", "", nd("cmp", "=", idOf("id"), valNode(w))))
		p.Kind = "update"
	}
	p.AST = ast
	p.SDesc = fmt.Sprintf("big form %d with %d values of %s", form, n, d.kind)
	p02Sequence(t, b, p.Desc)
	t.conform(p, b, modePositional, modeNamed)
	t.Ev("placeholders in big statements", n)
	t.Distinct("big", strconv.Itoa(form), strconv.Itoa(n), d.kind)
	t.Sample("%s", p.SDesc)
}

// ------------------------------------------------------------------------------------------------------------------ P03

func init() {
	register(&Check{
		ID: "P03",
		Rule: "random statements of the 4 builders with values of every kind: the named text must be the positional text with $k spelled :arg_k, the inlined " +
			"one the same text with the literal of the k-th argument. Renderings are made in a random order.",
		Require: []string{"named texts compared", "inlined texts compared", "literals decoded"},
		Families: []Family{
			{Name: "huge", Quick: 300, Thorough: 20000, Fn: hugely(5000, func(t *T) { p03(t, scalarKinds, false) })},
			{Name: "coincide", Quick: 4000, Thorough: 300000, Fn: alike(func(t *T) { p03(t, scalarKinds, false) })},
			{Name: "any", Quick: 20000, Thorough: 300000, Fn: func(t *T) { p03(t, scalarKinds, false) }},
			{Name: "long", Quick: len(p03Sizes) * 6, Thorough: len(p03Sizes) * 23, Fn: p03Long},
			{Name: "decoded", Quick: 10000, Thorough: 150000, Fn: func(t *T) { p03(t, litKinds, true) }},
			{Name: "sizes", Quick: 2 * 7 * sizeCount, Thorough: 4 * 7 * sizeCount * 4, Fn: p03Sized},
			{Name: "lists", Quick: 14 * sizeCount, Thorough: 14 * sizeCount * 4, Fn: p03Lists},
		},
	})
}

var p03Sizes = func() []int {
	out := []int{}
	for i := 0; i <= 66; i++ {
		out = append(out, i)
	}
	for _, n := range []int{128, 256, 512, 1000, 1024, 4096, 8192, 10000, 16384, 32768, 65536, 131072, 1 << 20} {
		out = append(out, n-1, n, n+1)
	}
	return out
}()

// p03Long has long values: their literals are complete in the inlined rendering.
func p03Long(t *T) {
	n := p03Sizes[t.idx%len(p03Sizes)]
	r := t.R("long")
	letters := "abcdefghijklmnopqrstuvwxyz 0123456789%$:;?-"
	text := make([]byte, n)
	for i := range text {
		text[i] = letters[r.N(len(letters))]
	}
	v, w := string(text), r.N(1000000)
	var b bld
	var q, literal string
	literal = "'" + v + "'"
	switch r.N(5) {
	case 0:
		b = lk.Select("a").From("t").Where(lk.Condition("b").Equal(v)).And(lk.Condition("c").Equal(w))
	case 1:
		b = lk.Select("a").From("t").Where(lk.Condition("b").In(v, w))
	case 2:
		b = lk.Update("t").Set(lk.Pair("a", v), lk.Pair("b", w))
	case 3:
		b = lk.Insert("t").Values(v, w)
	case 4:
		b = lk.Delete("t").Where(lk.Condition("b").Between(v, w)).Returning("b")
	}
	q, args := b.Query()
	nq, named := b.NamedQuery()
	if len(args) != 2 || args[0] != any(v) || args[1] != any(w) || len(named) != 2 || named["arg_1"] != any(v) || named["arg_2"] != any(w) {
		t.Fail("the arguments are not the values of %d bytes", n)
	}
	if strings.NewReplacer("$1", ":arg_1", "$2", ":arg_2").Replace(q) != nq {
		t.Fail("the named text is not the positional one: %s %s", q, nq)
	}
	t.Ev("named texts compared", 1)
	if want := strings.NewReplacer("$1", literal, "$2", strconv.Itoa(w)).Replace(q); b.String() != want {
		t.Fail("the inlined text is not the positional one with its literals, one of %d bytes:\n  %.300s\n  %.300s", n, want, b.String())
	}
	t.Ev("literals replaced", 2)
	t.Distinct("long", q, strconv.Itoa(n))
}

func p03(t *T, kinds []string, decode bool) {
	o := defaultOpts()
	o.kinds = kinds
	o.sub, o.comment = 3, true
	if t.R("names").P(30) {
		o.part, o.alias = hostilePart, hostilePart
	}
	p := newGen(t, o, "", "", "").Any()
	p03Judge(t, p, p.Build(), decode)
}

// p03Sized: every clause, and lists of every type, with every size.
func p03Sized(t *T) {
	kind := kinds4[t.idx%4]
	p, b := sizedProg(t, kind, t.idx/4*5)
	p03Judge(t, p, b, t.R("decode").P(50))
}

func p03Lists(t *T) {
	p, b := listProg(t, sizeOf(t.idx/14), t.idx%14)
	p03Judge(t, p, b, false)
}

func p03Judge(t *T, p *Prog, b bld, decode bool) {
	var r rendered
	order := []int{0, 1, 2}
	shuffle(t.R("order"), order)
	for _, k := range order {
		switch k {
		case 0:
			r.Q, r.Args = b.Query()
		case 1:
			r.NQ, r.NArgs = b.NamedQuery()
		case 2:
			r.S = b.String()
		}
	}
	toks, err := tokenize(r.Q)
	if err != nil {
		t.Fail("the text cannot be read as SQL: %s\n%s\n%s", err, r.Q, p.Desc())
	}
	// The pieces of text around the placeholders.
	var named strings.Builder
	var pieces []string
	var nums []int
	last := 0
	for _, tok := range toks {
		if tok.Kind == TkParam {
			pieces = append(pieces, r.Q[last:tok.Start])
			named.WriteString(r.Q[last:tok.Start] + ":arg_" + tok.Text)
			nums = append(nums, atoi(tok.Text))
			last = tok.End
		}
	}
	pieces = append(pieces, r.Q[last:])
	named.WriteString(r.Q[last:])
	if named.String() != r.NQ {
		t.Fail("the named text is not the positional one:\n  %s\n  %s\n%s", r.Q, r.NQ, p.Desc())
	}
	nargs, msg := namedToList(r.NArgs, len(r.Args))
	if msg != "" || !sameArgs(nargs, r.Args) {
		t.Fail("named arguments differ from positional ones: %s\n  %s\n  %s\n%s", msg, describeArgs(r.Args), describeArgs(nargs), p.Desc())
	}
	t.Ev("named texts compared", 1)
	if !decode {
		want := pieces[0]
		for i, n := range nums {
			want += format.Value(r.Args[n-1]) + pieces[i+1]
		}
		if want != r.S {
			t.Fail("the inlined text is not the positional one with its literals:\n  %s\n  %s\n%s", want, r.S, p.Desc())
		}
	} else {
		rest := r.S
		for i := range pieces {
			if !strings.HasPrefix(rest, pieces[i]) {
				t.Fail("the inlined text differs at %.80q, want %.80q\n  %s\n  %s\n%s", rest, pieces[i], r.Q, r.S, p.Desc())
			}
			rest = rest[len(pieces[i]):]
			if i == len(nums) {
				break
			}
			// One literal, up to the next piece.
			end, node, err := readLiteral(rest)
			if err != nil {
				t.Fail("no literal at %.80q: %s\n  %s\n%s", rest, err, r.S, p.Desc())
			}
			if msg := litDenotes(node, r.Args[nums[i]-1]); msg != "" {
				t.Fail("%s\n  %s\n%s", msg, r.S, p.Desc())
			}
			rest = rest[end:]
			t.Ev("literals decoded", 1)
		}
		if rest != "" {
			t.Fail("the inlined text has %q at its end\n  %s\n  %s\n%s", rest, r.Q, r.S, p.Desc())
		}
	}
	t.Ev("inlined texts compared", 1)
	if len(nums) > 0 {
		t.Distinct(p.AST.shape())
	}
	t.Sample("%s\n%s\n%s", r.Q, r.NQ, r.S)
}

// readLiteral reads the literal at the beginning of a text.
func readLiteral(s string) (int, *N, error) {
	// A literal never is longer than its own tokens: -n, 'x', E'x', n, NULL, true, decode('x', 'hex').
	if strings.HasPrefix(s, "decode(") {
		i := strings.Index(s, ")")
		if i < 0 {
			return 0, nil, fmt.Errorf("unterminated call")
		}
		n, err := parseExpr(s[:i+1])
		return i + 1, n, err
	}
	i := 0
	if strings.HasPrefix(s, "-") {
		i = 1
	}
	var end int
	switch {
	case strings.HasPrefix(s[i:], "E'"):
		_, j, err := scanString(s, i+1, true)
		if err != nil {
			return 0, nil, err
		}
		end = j
	case strings.HasPrefix(s[i:], "'"):
		_, j, err := scanString(s, i, false)
		if err != nil {
			return 0, nil, err
		}
		end = j
	default:
		end = i
		for end < len(s) && (isIdentPart(s[end]) || s[end] == '.' || ((s[end] == '+' || s[end] == '-') && end > i && (s[end-1] == 'e' || s[end-1] == 'E'))) {
			end++
		}
	}
	n, err := parseExpr(s[:end])
	return end, n, err
}

// ------------------------------------------------------------------------------------------------------------------ P04

func init() {
	register(&Check{
		ID: "P04",
		Rule: "random statements of the 4 builders whose tables, columns and aliases are hostile (quotes, backslashes, comment marks, placeholders, keywords, " +
			"line breaks, Unicode...), and every hostile name at every position: an independent tokenizer must read exactly the given names at their place.",
		Require: []string{"names decoded", "positional renderings compared", "inlined renderings compared", "named renderings compared", "stars"},
		Families: []Family{
			{Name: "hostile", Quick: 24000, Thorough: 400000, Fn: p04Any},
			{Name: "similar", Quick: 2000, Thorough: 40000, Fn: p04Similar},
			{Name: "positions", Quick: p04PositionCount(), Thorough: 8 * p04PositionCount(), Fn: p04Position},
			{Name: "characters", Quick: len(namePositions) * 0x3000 / 64, Thorough: len(namePositions) * 0x20000 / 64, Fn: p04Characters},
			{Name: "lengths", Quick: len(namePositions) * len(p04NameLengths), Thorough: len(namePositions) * len(p04NameLengths) * 3, Fn: p04Lengths},
		},
	})
}

var reservedWords = []string{
	"all", "analyse", "and", "any", "array", "as", "asc", "case", "cast", "check", "column", "constraint", "create", "default", "desc", "distinct", "do", "else",
	"end", "except", "false", "fetch", "for", "foreign", "from", "grant", "group", "having", "in", "initially", "into", "join", "left", "like", "limit", "natural",
	"not", "null", "offset", "on", "only", "or", "order", "primary", "references", "returning", "select", "set", "table", "then", "to", "true", "union",
	"unique", "update", "user", "using", "values", "when", "where", "window", "with", "FROM", "Select", "excluded", "EXCLUDED", "ctid", "current_user",
}

// hostilePart is one part of a name: no dot (it separates parts), no NUL, valid UTF-8.
func hostilePart(r *R) string {
	var s string
	switch r.N(10) {
	case 0:
		s = reservedWords[r.N(len(reservedWords))]
	case 1:
		s = pick(r, "userId", "UserID", "USERS", "a b", " a", "a ", "1a", "0", "9", "$a", "a$b", "é", "Δ", "user-id", "user name", "a'b", "a\"b", "\"", "\"\"",
			"\\", "a\\", "\\\"", "\n", "a\nb", "--", "a--b", "/*", "$1", ":arg_1", "?", ";", "(", ")", ",", "a,b", "count(*)", "a AS b", "a = b", "**", "*a", "a*", "' '", "E'")
	case 2:
		s = strings.Repeat(pick(r, "x", "\"", "é", "a\""), r.Range(1, 120))
	case 3:
		s = benignPart(r)
	default:
		s = hostileText(r, 4)
	}
	s = strings.NewReplacer(".", "", "\x00", "").Replace(s)
	if s == "" || s == "*" {
		s = "n"
	}
	return s
}

func hostileAlias(r *R) string {
	s := hostilePart(r)
	if r.P(20) {
		s += pick(r, ".", ".", "..", " . ") + hostilePart(r) // an alias is one identifier
	}
	return s
}

func p04Any(t *T) {
	o := defaultOpts()
	o.kinds = stableLitKinds
	o.part, o.alias, o.qualify, o.aliasPct = hostilePart, hostileAlias, 35, 40
	p := newGen(t, o, "", "", "").Any()
	b := p.Build()
	t.conform(p, b, modePositional, modeNamed, modeInline)
	ids := p.AST.find("id")
	t.Ev("names decoded", 3*len(ids))
	t.Ev("stars", 3*len(p.AST.find("star")))
	for _, n := range ids {
		t.Distinct(n.T)
	}
	t.Sample("%s", b.String())
}

type namePos struct {
	name  string
	alias bool
	build func(n string) builder.Builder
	kind  string
	ast   func(id *N, al string) *N
}

func itemN(id *N) *N { return nd("item", "", id) }

func selN(items *N, rest ...*N) *N {
	n := nd("select", "", nd("columns", "", items), nd("from", "", nd("table", "", idOf("t"))))
	return n.add(rest...)
}

var namePositions = []namePos{
	{"select column", false, func(n string) builder.Builder { return lk.Select(lk.Column(n)).From("t") }, "select",
		func(id *N, _ string) *N { return selN(itemN(id)) }},
	{"select column alias", true, func(n string) builder.Builder { return lk.Select(lk.Column("c").As(n)).From("t") }, "select",
		func(id *N, al string) *N { return selN(nd("item", al, idOf("c"))) }},
	{"from text", false, func(n string) builder.Builder { return lk.Select("c").From(n) }, "select",
		func(id *N, _ string) *N {
			return nd("select", "", nd("columns", "", itemN(idOf("c"))), nd("from", "", nd("table", "", id)))
		}},
	{"from table", false, func(n string) builder.Builder { return lk.Select("c").From(lk.Table(n).As("x")) }, "select",
		func(id *N, _ string) *N {
			return nd("select", "", nd("columns", "", itemN(idOf("c"))), nd("from", "", nd("table", "", id, nd("alias", `"x"`))))
		}},
	{"from alias", true, func(n string) builder.Builder { return lk.Select("c").From(lk.Table("t").As(n)) }, "select",
		func(_ *N, al string) *N {
			return nd("select", "", nd("columns", "", itemN(idOf("c"))), nd("from", "", nd("table", "", idOf("t"), nd("alias", al))))
		}},
	{"from only", false, func(n string) builder.Builder { return lk.Select("c").From(lk.Table(n).Only()) }, "select",
		func(id *N, _ string) *N {
			return nd("select", "", nd("columns", "", itemN(idOf("c"))), nd("from", "", nd("table", "only", id)))
		}},
	{"condition text", false, func(n string) builder.Builder { return lk.Select("c").From("t").Where(lk.Condition(n).IsNull(true)) }, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("where", "", nd("cmp", "IS", id, nd("null", ""))))
		}},
	{"condition column", false, func(n string) builder.Builder {
		return lk.Select("c").From("t").Where(lk.Condition(lk.Column(n)).IsNull(false))
	}, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("where", "", nd("cmp", "IS NOT", id, nd("null", ""))))
		}},
	{"condition operand", false, func(n string) builder.Builder {
		return lk.Select("c").From("t").Where(lk.Condition("x").Equal(lk.Condition(n)))
	}, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("where", "", nd("cmp", "=", idOf("x"), id)))
		}},
	{"condition in", false, func(n string) builder.Builder {
		return lk.Select("c").From("t").Where(lk.Condition(n).In(lk.Raw("1")))
	}, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("where", "", nd("in", "", id, nd("list", "", mustExpr("1")))))
		}},
	{"condition between", false, func(n string) builder.Builder {
		return lk.Select("c").From("t").Where(lk.Condition(n).Between(lk.Raw("1"), lk.Condition(n)))
	}, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("where", "", nd("between", "", id, mustExpr("1"), id)))
		}},
	{"call argument", false, func(n string) builder.Builder {
		return lk.Select("c").From("t").Where(stmt.NewCall("f", lk.Condition(n)).Equal(nil))
	}, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("where", "", nd("cmp", "=", nd("call", nameKey("f"), id), nd("null", ""))))
		}},
	{"join table", false, func(n string) builder.Builder { return lk.Select("c").From("t").Join(n, lk.On("a", "b"), lk.LeftJoin) }, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("join", "LEFT JOIN", nd("table", "", id), nd("cmp", "=", idOf("a"), idOf("b"))))
		}},
	{"join alias", true, func(n string) builder.Builder {
		return lk.Select("c").From("t").Join(lk.Table("u").As(n), lk.On("a", "b"))
	}, "select",
		func(_ *N, al string) *N {
			return selN(itemN(idOf("c")), nd("join", "INNER JOIN", nd("table", "", idOf("u"), nd("alias", al)), nd("cmp", "=", idOf("a"), idOf("b"))))
		}},
	{"join on", false, func(n string) builder.Builder { return lk.Select("c").From("t").Join("u", lk.On(n, n)) }, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("join", "INNER JOIN", nd("table", "", idOf("u")), nd("cmp", "=", id, id)))
		}},
	{"group by", false, func(n string) builder.Builder { return lk.Select("c").From("t").GroupBy(lk.Column(n)) }, "select",
		func(id *N, _ string) *N { return selN(itemN(idOf("c")), nd("groupby", "", id)) }},
	{"distinct on", false, func(n string) builder.Builder { return lk.Select("c").DistinctOn(lk.Column(n)).From("t") }, "select",
		func(id *N, _ string) *N {
			return nd("select", "", nd("distincton", "", id), nd("columns", "", itemN(idOf("c"))), nd("from", "", nd("table", "", idOf("t"))))
		}},
	{"having", false, func(n string) builder.Builder {
		return lk.Select("c").From("t").GroupBy("c").Having(lk.Condition(n).IsNull(true))
	}, "select",
		func(id *N, _ string) *N {
			return selN(itemN(idOf("c")), nd("groupby", "", idOf("c")), nd("having", "", nd("cmp", "IS", id, nd("null", ""))))
		}},
	{"insert into", false, func(n string) builder.Builder { return lk.Insert(n).Values(lk.Raw("1")) }, "insert",
		func(id *N, _ string) *N {
			return nd("insert", "", nd("table", "", id), nd("values", "", nd("vrow", "", mustExpr("1"))))
		}},
	{"insert columns", false, func(n string) builder.Builder {
		return lk.Insert("t").Columns(lk.Column(n), lk.Column("z")).Values(lk.Raw("1"), lk.Raw("2"))
	}, "insert",
		func(id *N, _ string) *N {
			return nd("insert", "", nd("table", "", idOf("t")), nd("columns", "", id, idOf("z")),
				nd("values", "", nd("vrow", "", mustExpr("1"), mustExpr("2"))))
		}},
	{"insert set", false, func(n string) builder.Builder { return lk.Insert("t").Set(lk.Pair(lk.Column(n), lk.Raw("1"))) }, "insert",
		func(id *N, _ string) *N {
			return nd("insert", "", nd("table", "", idOf("t")), nd("columns", "", id), nd("values", "", nd("vrow", "", mustExpr("1"))))
		}},
	{"conflict target", false, func(n string) builder.Builder {
		return lk.Insert("t").Values(lk.Raw("1")).OnConflict(lk.Column(n), lk.DoNothing())
	}, "insert",
		func(id *N, _ string) *N {
			return nd("insert", "", nd("table", "", idOf("t")), nd("values", "", nd("vrow", "", mustExpr("1"))),
				nd("conflict", "nothing", nd("target", "", id)))
		}},
	{"conflict update", false, func(n string) builder.Builder {
		return lk.Insert("t").Values(lk.Raw("1")).OnConflict(lk.Column("c"), lk.DoUpdate(lk.Map{lk.Column(n): lk.Raw("2")}))
	}, "insert",
		func(id *N, _ string) *N {
			return nd("insert", "", nd("table", "", idOf("t")), nd("values", "", nd("vrow", "", mustExpr("1"))),
				nd("conflict", "update", nd("target", "", idOf("c")), nd("set", "pairs", nd("assign", id.T, mustExpr("2")))))
		}},
	{"insert returning", false, func(n string) builder.Builder { return lk.Insert("t").Values(lk.Raw("1")).Returning(lk.Column(n)) }, "insert",
		func(id *N, _ string) *N {
			return nd("insert", "", nd("table", "", idOf("t")), nd("values", "", nd("vrow", "", mustExpr("1"))), nd("returning", "", itemN(id)))
		}},
	{"returning alias", true, func(n string) builder.Builder {
		return lk.Delete("t").Returning(lk.Column("c").As(n))
	}, "delete",
		func(_ *N, al string) *N {
			return nd("delete", "", nd("from", "", nd("table", "", idOf("t"))), nd("returning", "", nd("item", al, idOf("c"))))
		}},
	{"update table", false, func(n string) builder.Builder { return lk.Update(n).Set(lk.Pair("c", lk.Raw("1"))) }, "update",
		func(id *N, _ string) *N {
			return nd("update", "", nd("table", "", id), nd("set", "pairs", nd("assign", nameKey("c"), mustExpr("1"))))
		}},
	{"update alias", true, func(n string) builder.Builder { return lk.Update(lk.Table("t").As(n)).Set(lk.Pair("c", lk.Raw("1"))) }, "update",
		func(_ *N, al string) *N {
			return nd("update", "", nd("table", "", idOf("t"), nd("alias", al)), nd("set", "pairs", nd("assign", nameKey("c"), mustExpr("1"))))
		}},
	{"update set", false, func(n string) builder.Builder { return lk.Update("t").Set(lk.Map{lk.Column(n): lk.Raw("1")}) }, "update",
		func(id *N, _ string) *N {
			return nd("update", "", nd("table", "", idOf("t")), nd("set", "pairs", nd("assign", id.T, mustExpr("1"))))
		}},
	{"update list", false, func(n string) builder.Builder {
		return lk.Update("t").Set(lk.Column(n), lk.Column("z")).Using(lk.Raw("1"), lk.Raw("2"))
	}, "update",
		func(id *N, _ string) *N {
			return nd("update", "", nd("table", "", idOf("t")),
				nd("set", "list", nd("targets", "", id, idOf("z")), nd("list", "", mustExpr("1"), mustExpr("2"))))
		}},
	{"update from", false, func(n string) builder.Builder { return lk.Update("t").Set(lk.Pair("c", lk.Raw("1"))).From(n) }, "update",
		func(id *N, _ string) *N {
			return nd("update", "", nd("table", "", idOf("t")), nd("set", "pairs", nd("assign", nameKey("c"), mustExpr("1"))),
				nd("from", "", nd("table", "", id)))
		}},
	{"delete from", false, func(n string) builder.Builder { return lk.Delete(n) }, "delete",
		func(id *N, _ string) *N { return nd("delete", "", nd("from", "", nd("table", "", id))) }},
	{"delete only alias", true, func(n string) builder.Builder { return lk.Delete(lk.Table("t").Only().As(n)) }, "delete",
		func(_ *N, al string) *N {
			return nd("delete", "", nd("from", "", nd("table", "only", idOf("t"), nd("alias", al))))
		}},
	{"delete using", false, func(n string) builder.Builder { return lk.Delete("t").Using(n, "z") }, "delete",
		func(id *N, _ string) *N {
			return nd("delete", "", nd("from", "", nd("table", "", idOf("t"))), nd("using", "", nd("table", "", id), nd("table", "", idOf("z"))))
		}},
}

func p04Fixed() []string {
	var out []string
	seen := map[string]bool{}
	for _, list := range [][]string{hostile, special, reservedWords} {
		for _, s := range list {
			s = strings.NewReplacer(".", "", "\x00", "").Replace(s)
			if s == "" || s == "*" || seen[s] {
				continue
			}
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

var p04Names = p04Fixed()

func p04PositionCount() int { return len(namePositions) * len(p04Fixed()) }

func p04Position(t *T) {
	pos := namePositions[t.idx%len(namePositions)]
	k := t.idx / len(namePositions)
	name := p04Names[k%len(p04Names)]
	if k >= len(p04Names) {
		r := t.R("name")
		name = hostilePart(r)
		if !pos.alias && r.P(50) {
			name += "." + hostilePart(r)
		}
	}
	id := idOf(name)
	if pos.alias {
		id = nil
	}
	b := pos.build(name)
	p := &Prog{Kind: pos.kind, AST: pos.ast(id, strconv.Quote(name)), SDesc: fmt.Sprintf("%s: %q", pos.name, name)}
	t.conform(p, b, modePositional, modeInline)
	t.Ev("names decoded", 2)
	t.Distinct("position", pos.name, name)
	t.Sample("%s", b.String())
}

func p04At(t *T, pos *namePos, name string) {
	id := idOf(name)
	if pos.alias {
		id = nil
	}
	p := &Prog{Kind: pos.kind, AST: pos.ast(id, strconv.Quote(name)), SDesc: fmt.Sprintf("%s: %q", pos.name, name)}
	t.conform(p, pos.build(name), modePositional)
	t.Ev("names decoded", 1)
}

// p04Characters has every character in a name, at every position.
func p04Characters(t *T) {
	pos := &namePositions[t.idx%len(namePositions)]
	chunk := t.idx / len(namePositions)
	for c := rune(chunk * 64); c < rune(chunk+1)*64; c++ {
		if c == 0 || c == '.' || (c >= 0xd800 && c < 0xe000) {
			continue
		}
		p04At(t, pos, "a"+string(c)+"b")
		if !unicode.IsSpace(c) && c != '*' {
			p04At(t, pos, string(c))
		}
	}
	t.Distinct("characters", pos.name, strconv.Itoa(chunk))
}

var p04NameLengths = func() []int {
	var out []int
	for i := 1; i <= 260; i++ {
		out = append(out, i)
	}
	return append(out, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537)
}()

// p04Lengths has names of every length, and of every number of parts.
func p04Lengths(t *T) {
	pos := &namePositions[t.idx%len(namePositions)]
	n := p04NameLengths[t.idx/len(namePositions)%len(p04NameLengths)]
	r := t.R("name")
	chars := []rune("abcXYZ019_ \"'é漢😀")
	name := make([]rune, n)
	for i := range name {
		name[i] = chars[r.N(len(chars))]
	}
	name[0], name[n-1] = 'm', 'n'
	p04At(t, pos, string(name))
	t.Distinct("length", pos.name, strconv.Itoa(n))
	if n > 40 {
		return
	}
	parts := make([]string, n)
	for i := range parts {
		parts[i] = string(rune('a'+i%26)) + strings.Repeat("x", r.N(3))
	}
	p04At(t, pos, strings.Join(parts, "."))
}

// ------------------------------------------------------------------------------------------------------------------ P05

func init() {
	register(&Check{
		ID: "P05",
		Rule: "the same program is generated again with its pairs in another order and grouped in other maps, then built and rendered, 5 times in a process " +
			"among other statements and once in each of 8 processes with another history: every text and every argument list must be the same.",
		Require: []string{"renderings compared in process", "renderings compared across processes", "map iterations"},
		Families: []Family{
			{Name: "huge", Quick: 250, Thorough: 8000, Fn: hugely(5000, p05Rebuild)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p05Rebuild)},
			{Name: "rebuild", Quick: 8000, Thorough: 120000, Fn: p05Rebuild},
			{Name: "maps", Quick: 2000, Thorough: 30000, Fn: p05Maps},
			{Name: "colliding keys", Quick: 400, Thorough: 6000, Fn: p05Colliding},
			{Name: "processes", Quick: 2500, Thorough: 20000, AllShards: true, Fn: p05Process},
		},
		Finish: p05Finish,
	})
}

// p05Colliding has maps whose keys name the same column in several ways: whatever the outcome is, it does not vary.
func p05Colliding(t *T) {
	r := t.R("map")
	type kv struct {
		k any
		v int
	}
	var kvs []kv
	for i, c := 0, r.Range(2, 12); i < c; i++ {
		n := pick(r, "a", "b", "c", "t.a")
		var k any
		switch r.N(5) {
		case 0:
			k = lk.Column(n)
		case 1:
			k = " " + n
		case 2:
			k = n + "\t"
		default:
			k = n
		}
		kvs = append(kvs, kv{k, i})
	}
	form := r.N(4)
	build := func() bld {
		m, ms := lk.Map{}, map[string]interface{}{}
		for _, x := range kvs {
			if _, ok := m[x.k]; !ok {
				m[x.k] = x.v
			}
			if s, ok := x.k.(string); ok {
				if _, ok := ms[s]; !ok {
					ms[s] = x.v
				}
			}
		}
		switch form {
		case 0:
			return lk.Update("t").Set(m)
		case 1:
			return lk.Update("t").Set(lk.Pair("z", 0), ms)
		case 2:
			return lk.Insert("t").Set(m)
		}
		return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(m))
	}
	want := ""
	for k := 0; k < 25; k++ {
		got := ""
		o := try(func() {
			q, args := build().Query()
			got = q + describeArgs(args)
		})
		if o.Panicked {
			got = "rejected"
		}
		if k == 0 {
			want = got
		} else if got != want {
			t.Fail("the statement of a map with the keys %v depends on its iteration order:\n  %s\n  %s", kvs, want, got)
		}
		t.Ev("map iterations", 1)
	}
	t.Distinct("colliding", want)
}

func p05Opts() Opts {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	return o
}

func p05Rebuild(t *T) {
	first := newGen(t, p05Opts(), "", "", "").Any()
	want := render(first.Build())
	for k := 1; k <= 4; k++ {
		// Something else in between.
		other := newGen(&T{w: t.w, fam: t.fam, idx: t.idx + 1000003*k}, p05Opts(), "", "", "").Any()
		_ = render(other.Build())
		p := newGen(t, p05Opts(), "", "", strconv.Itoa(k)).Any()
		if msg := want.equal(render(p.Build())); msg != "" {
			t.Fail("built again: %s\n%s\n%s", msg, first.Desc(), p.Desc())
		}
		t.Ev("renderings compared in process", 3)
	}
	if len(first.AST.find("assign")) > 1 || first.Kind == "insert" {
		t.Ev("map iterations", 1)
	}
	t.Distinct(first.AST.shape())
	t.Sample("%s", want.Q)
}

func p05Maps(t *T) {
	r := t.R("maps")
	n := r.Range(2, 80)
	names := map[string]bool{}
	for len(names) < n {
		names[hostilePart(r)+strconv.Itoa(r.N(3))] = true
	}
	keys := sortedKeys(names)
	build := func(k int) (builder.Builder, string) {
		rr := t.R("perm" + strconv.Itoa(k))
		var args []any
		left := append([]string{}, keys...)
		shuffle(rr, left)
		for len(left) > 0 {
			c := rr.Range(1, len(left))
			m := lk.Map{}
			for _, name := range left[:c] {
				if !asText(name) || rr.P(50) {
					m[lk.Column(name)] = "v " + name
				} else {
					m[name] = "v " + name
				}
			}
			left = left[c:]
			args = append(args, m)
		}
		switch t.idx % 4 {
		case 0:
			return lk.Update("t").Set(args...), "update"
		case 1:
			return lk.Insert("t").Set(args...), "insert"
		case 2:
			return lk.Insert("t").Values(1).OnConflict("id", lk.DoUpdate(args...)), "upsert"
		default:
			u := lk.Update("t")
			for i := range args {
				u = u.Set(args[i])
			}
			return u, "updates"
		}
	}
	b, kind := build(0)
	want := render(b)
	for k := 1; k < 6; k++ {
		b, _ := build(k)
		if msg := want.equal(render(b)); msg != "" {
			t.Fail("%s of the same %d columns: %s", kind, n, msg)
		}
		t.Ev("renderings compared in process", 3)
		t.Ev("map iterations", 1)
	}
	t.Distinct(want.Q)
}

func p05Process(t *T) {
	// Each process has another history.
	if t.idx%10 == 0 {
		for k := 0; k < 3+t.w.shard; k++ {
			o := &T{w: t.w, fam: t.fam, idx: 7000000 + t.idx*100 + k*(t.w.shard+1)}
			_ = render(newGen(o, p05Opts(), "", "", "").Any().Build())
		}
	}
	p := newGen(t, p05Opts(), "", "", "").Any()
	// Pairs are also given in another order in each process.
	if t.idx%2 == 0 {
		p = newGen(t, p05Opts(), "", "", "shard"+strconv.Itoa(t.w.shard)).Any()
	}
	r := render(p.Build())
	var text strings.Builder
	text.WriteString(r.Q + "\x00" + r.NQ + "\x00" + r.S)
	for i := range r.Args {
		if !strings.Contains(fmt.Sprintf("%T", r.Args[i]), "*") {
			fmt.Fprintf(&text, "\x00%T %#v", r.Args[i], r.Args[i])
		}
	}
	t.Blob(strconv.Itoa(t.idx), fmt.Sprintf("%016x %.300s", hash64(text.String()), r.Q))
	t.Distinct("process", p.AST.shape())
	t.Ev("renderings compared across processes", 1)
}

func p05Finish(results []*Result) []Violation {
	var out []Violation
	for _, k := range sortedKeys(results[0].Blobs) {
		for i := 1; i < len(results); i++ {
			if results[i].Blobs[k] != results[0].Blobs[k] {
				out = append(out, Violation{Family: "processes", Index: atoi(k), Shard: i, Shards: len(results),
					Detail: fmt.Sprintf("two processes rendered the same program differently:\n  %s\n  %s", results[0].Blobs[k], results[i].Blobs[k])})
				break
			}
		}
		if len(out) >= maxViolations {
			break
		}
	}
	return out
}

// ------------------------------------------------------------------------------------------------------------------ P06

func init() {
	register(&Check{
		ID: "P06",
		Rule: "a builder is rendered 8 to 20 times in random modes, among renderings of another builder, derivations and modifications of the returned lists " +
			"and maps; every result is compared with the one of a program built apart and rendered once, immediately and again at the end.",
		Require: []string{"renderings compared", "returned arguments modified", "old results compared again", "renderings between calls"},
		Families: []Family{
			{Name: "huge", Quick: 300, Thorough: 10000, Fn: hugely(5000, p06History)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p06History)},
			{Name: "history", Quick: 12000, Thorough: 150000, Fn: p06History},
			{Name: "between", Quick: 8000, Thorough: 100000, Fn: p06Between},
			{Name: "sizes", Quick: 8000, Thorough: 200000, Fn: p06Sizes},
		},
	})
}

type sentinel struct{}

func p06History(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	o.comment = true
	gen := func() *Prog { return newGen(t, o, "", "", "").Any() }
	p := gen()
	want := render(gen().Build())
	b := p.Build()
	other := newGen(&T{w: t.w, fam: t.fam, idx: t.idx + 5000011}, o, "", "", "").Any()
	ob := other.Build()
	owant := render(other.Build())
	r := t.R("history")
	type kept struct {
		got, want string
		args      []any
		named     map[string]any
		n         int
	}
	var results []kept
	var trail []string
	for k, n := 0, r.Range(8, 20); k < n; k++ {
		switch what := r.N(8); what {
		case 0, 1, 2:
			q, args := b.Query()
			trail = append(trail, "Query")
			if q != want.Q || !sameArgs(args, want.Args) {
				t.Fail("Query changed after %v:\n  %s %s\n  %s %s\n%s", trail, want.Q, describeArgs(want.Args), q, describeArgs(args), p.Desc())
			}
			if r.P(50) {
				// Modify the list and its spare capacity.
				full := args[:cap(args)]
				for i := range full {
					full[i] = sentinel{}
				}
				_ = append(args, sentinel{})
				trail = append(trail, "modify list")
				t.Ev("returned arguments modified", len(args))
			} else {
				results = append(results, kept{got: q, want: want.Q, args: args})
			}
		case 3, 4:
			q, m := b.NamedQuery()
			trail = append(trail, "NamedQuery")
			if q != want.NQ || !sameNamed(m, want.NArgs) {
				t.Fail("NamedQuery changed after %v:\n  %s %v\n  %s %v\n%s", trail, want.NQ, want.NArgs, q, m, p.Desc())
			}
			if r.P(50) {
				for key := range m {
					if r.P(50) {
						delete(m, key)
					} else {
						m[key] = sentinel{}
					}
				}
				if m != nil {
					m["arg_1"] = sentinel{}
					m["other"] = sentinel{}
				}
				trail = append(trail, "modify map")
				t.Ev("returned arguments modified", len(m))
			} else {
				results = append(results, kept{got: q, want: want.NQ, named: m})
			}
		case 5:
			s := b.String()
			trail = append(trail, "String")
			if s != want.S {
				t.Fail("String changed after %v:\n  %s\n  %s\n%s", trail, want.S, s, p.Desc())
			}
			results = append(results, kept{got: s, want: want.S})
		case 6:
			q, args := ob.Query()
			trail = append(trail, "other Query")
			if q != owant.Q || !sameArgs(args, owant.Args) {
				t.Fail("another builder is disturbed after %v:\n  %s\n  %s\n%s", trail, owant.Q, q, p.Desc())
			}
			results = append(results, kept{got: q, want: owant.Q, args: args, n: 1})
		case 7:
			_ = b.Statement()
			ob = other.Build()
			trail = append(trail, "Statement")
		}
		t.Ev("renderings compared", 1)
	}
	for _, k := range results {
		w := want
		if k.n == 1 {
			w = owant
		}
		if k.got != k.want || (k.args != nil && !sameArgs(k.args, w.Args)) || (k.named != nil && !sameNamed(k.named, w.NArgs)) {
			t.Fail("an old result changed after %v\n%s", trail, p.Desc())
		}
		t.Ev("old results compared again", 1)
	}
	if msg := want.equal(render(b)); msg != "" {
		t.Fail("after %v: %s\n%s", trail, msg, p.Desc())
	}
	if len(want.Args) > 0 {
		t.Distinct(p.AST.shape())
	}
	t.Sample("%s after %v", want.Q, trail)
}

// p06Sizes renders several statements with few values in turn: the results of one never depend on those of the others, nor
// on what is done with them.
func p06Sizes(t *T) {
	r := t.R("sizes")
	type st struct {
		b    bld
		want rendered
	}
	n := r.Range(2, 5)
	sizes := []int{0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100}
	size := sizes[r.N(len(sizes))]
	var sts []st
	serial := 0
	for i := 0; i < n; i++ {
		k := size
		if r.P(30) {
			k = sizes[r.N(len(sizes))]
		}
		form := r.N(5)
		build := func(first int) bld {
			var cond stmt.Expression
			var pairs, values []any
			for j := 0; j < k; j++ {
				v := fmt.Sprint("v", first+j)
				values = append(values, v)
				pairs = append(pairs, lk.Pair(fmt.Sprintf("c%d", j), v))
				c := stmt.Expression(lk.Condition("a").Equal(v))
				if j > 0 {
					c = lk.And(cond, c)
				}
				cond = c
			}
			switch {
			case k == 0:
				return lk.Select("a").From(fmt.Sprint("t", first))
			case form == 0:
				return lk.Select("a").From("t").Where(cond)
			case form == 1:
				return lk.Delete("t").Where(lk.Condition("a").In(values...))
			case form == 2:
				return lk.Update("t").Set(pairs...)
			case form == 3:
				return lk.Insert("t").Values(values)
			}
			return lk.Select("a").From("t").Where(stmt.NewCall("f", lk.Value("v"+fmt.Sprint(first))).Equal(nil)).Having(cond)
		}
		sts = append(sts, st{build(serial), render(build(serial))})
		serial += 1000
	}
	type kept struct {
		st    int
		text  string
		want  string
		args  []any
		named map[string]any
		has   int // 1: args, 2: named
	}
	var results []kept
	for k, c := 0, r.Range(6, 20); k < c; k++ {
		i := r.N(len(sts))
		x := sts[i]
		switch r.N(3) {
		case 0:
			q, args := x.b.Query()
			if q != x.want.Q || !sameArgs(args, x.want.Args) {
				t.Fail("Query differs: %s %s\n  want %s %s", q, describeArgs(args), x.want.Q, describeArgs(x.want.Args))
			}
			if r.P(40) {
				full := args[:cap(args)]
				for j := range full {
					full[j] = sentinel{}
				}
				_ = append(args, sentinel{})
				t.Ev("returned arguments modified", len(args))
				continue
			}
			results = append(results, kept{i, q, x.want.Q, args, nil, 1})
		case 1:
			q, m := x.b.NamedQuery()
			if q != x.want.NQ || !sameNamed(m, x.want.NArgs) {
				t.Fail("NamedQuery differs: %s %v\n  want %s %v", q, m, x.want.NQ, x.want.NArgs)
			}
			if r.P(40) && m != nil {
				for key := range m {
					m[key] = sentinel{}
				}
				m["other"] = sentinel{}
				t.Ev("returned arguments modified", len(m))
				continue
			}
			results = append(results, kept{i, q, x.want.NQ, nil, m, 2})
		case 2:
			results = append(results, kept{i, x.b.String(), x.want.S, nil, nil, 0})
		}
		t.Ev("renderings compared", 1)
	}
	for _, k := range results {
		want := sts[k.st].want
		if k.text != k.want || k.has == 1 && !sameArgs(k.args, want.Args) || k.has == 2 && !sameNamed(k.named, want.NArgs) {
			t.Fail("an old result changed: %s %s %v\n  want %s %s", k.text, describeArgs(k.args), k.named, k.want, describeArgs(want.Args))
		}
		t.Ev("old results compared again", 1)
	}
	t.Distinct("sizes", strconv.Itoa(size), strconv.Itoa(n))
}

// p06Between renders between the calls which build the statement.
func p06Between(t *T) {
	o := defaultOpts()
	o.kinds = stableKinds
	gen := func() *Prog { return newGen(t, o, "", "", "").Any() }
	want := render(gen().Build())
	p := gen()
	r := t.R("between")
	b := p.Start()
	type node struct {
		b   bld
		n   int
		out string
	}
	var nodes []node
	for i := 0; ; i++ {
		for k := r.N(3); k > 0; k-- {
			nodes = append(nodes, node{b, i, outcomeOf(b)})
			t.Ev("renderings between calls", 3)
		}
		if i == len(p.Steps) {
			break
		}
		b = p.Steps[i].Apply(b)
	}
	if msg := want.equal(render(b)); msg != "" {
		t.Fail("rendered between the calls: %s\n%s", msg, p.Desc())
	}
	shuffle(r, nodes)
	for _, n := range nodes {
		if out := outcomeOf(n.b); out != n.out {
			t.Fail("the builder after %d calls renders differently later:\n  %s\n  %s\n%s", n.n, n.out, out, p.Desc())
		}
	}
	t.Distinct(p.AST.shape())
}

// outcomeOf describes the result of rendering a builder, or its panic.
func outcomeOf(b bld) string {
	var s strings.Builder
	if o := try(func() {
		q, args := b.Query()
		s.WriteString(q + " ")
		writeArgs(&s, args)
	}); o.Panicked {
		s.WriteString("panic: " + o.Msg)
	}
	if o := try(func() {
		q, m := b.NamedQuery()
		s.WriteString("\n" + q)
		for _, k := range sortedKeys(m) {
			s.WriteString(" " + k + "=")
			writeArgs(&s, []any{m[k]})
		}
	}); o.Panicked {
		s.WriteString("\npanic: " + o.Msg)
	}
	if o := try(func() { s.WriteString("\n" + b.String()) }); o.Panicked {
		s.WriteString("\npanic: " + o.Msg)
	}
	return s.String()
}

func writeArgs(s *strings.Builder, args []any) {
	s.WriteString("[")
	for i := range args {
		fmt.Fprintf(s, "%T(%#v) ", args[i], args[i])
	}
	s.WriteString("]")
}

func fullArgs(args []any) string {
	var s strings.Builder
	writeArgs(&s, args)
	return s.String()
}
