package main

import (
	"bufio"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/lib/pq"
	lk "github.com/ulule/loukoum/v3"
	"github.com/ulule/loukoum/v3/builder"
	"github.com/ulule/loukoum/v3/format"
	"github.com/ulule/loukoum/v3/lexer"
	"github.com/ulule/loukoum/v3/parser"
	"github.com/ulule/loukoum/v3/stmt"
	"github.com/ulule/loukoum/v3/token"
	"github.com/ulule/loukoum/v3/types"
)

// ------------------------------------------------------------------------------------------------------------------ P19

const p19Small = 5

func init() {
	register(&Check{
		ID: "P19",
		Rule: "textual joins in random layouts and cases compared with the same joins given with structured arguments (text, tree); every sequence of up to " +
			"5 tokens (6 in thorough) over 14 words and symbols, and mutated texts, must be rejected, or mean a join with every condition of the text in order.",
		Require:   []string{"joins compared", "texts accepted", "texts rejected", "conditions conserved"},
		HangFails: true,
		Families: []Family{
			{Name: "text", Quick: 20000, Thorough: 300000, Fn: p19Text},
			{Name: "long", Quick: 60, Thorough: 600, Fn: p19Long},
			{Name: "again", Quick: 3000, Thorough: 60000, Fn: p19Again},
			{Name: "exhaustive", Quick: len(p19Vocabulary) * len(p19Vocabulary), Thorough: len(p19Vocabulary) * len(p19Vocabulary), Fn: p19Exhaustive},
			{Name: "mutated", Quick: 60000, Thorough: 1000000, Fn: p19Mutated},
			{Name: "soup", Quick: 30000, Thorough: 500000, Fn: p19Soup},
		},
	})
}

func randCase(r *R, s string) string {
	b := []byte(s)
	mode := r.N(3)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' && (mode == 1 || (mode == 2 && r.P(50))) {
			b[i] = c + 32
		}
	}
	return string(b)
}

func blanks(r *R, min int) string {
	s := ""
	for i, c := 0, min+r.N(3); i < c; i++ {
		s += pick(r, " ", " ", "\t", "\n", "\r\n", "  ")
	}
	return s
}

// layout writes tokens with random blanks, which are needed only between two words.
func layout(r *R, toks []string) string {
	out := blanks(r, 0)
	for i, tok := range toks {
		if i > 0 {
			min := 0
			if isWordByte(toks[i-1][len(toks[i-1])-1]) && isWordByte(tok[0]) {
				min = 1
			}
			if r.P(50) && min == 1 {
				out += " "
			} else {
				out += blanks(r, min)
			}
		}
		out += tok
	}
	return out + blanks(r, 0)
}

func isWordByte(c byte) bool {
	return c == '_' || c == '.' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}

// joinCase is a join which can be written as text.
type joinCase struct {
	typ    types.JoinType
	table  string
	conds  [][2]string
	ops    []string // AND, OR
	tokens []string
	form   int // 0: a single text, 1: a table and a text, 2: a table, a text and a type
}

func joinWord(r *R) string {
	part := func() string {
		return pick(r, "a", "b", "id", "users", "user_id", "x1", "_p", "T", "Foo", "1", "00", "onx", "andy", "order_id", "Join_", "lefty", "a1b2", "ORs", "_", "inner1")
	}
	n := part()
	for r.P(35) {
		n += "." + part()
	}
	if r.P(3) {
		// Names are not bounded.
		n = strings.Repeat(n, r.Range(2, 400))
	}
	if !wordName(n) {
		return "w_" + n
	}
	return n
}

func newJoinCase(r *R, count int) *joinCase {
	c := &joinCase{typ: types.InnerJoin, table: joinWord(r), form: r.N(3)}
	var head []string
	if c.form == 0 || r.P(10) {
		switch r.N(5) {
		case 0:
		case 1:
			head = []string{"JOIN"}
		case 2:
			head = []string{"INNER", "JOIN"}
		case 3:
			head, c.typ = []string{"LEFT", "JOIN"}, types.LeftJoin
		case 4:
			head, c.typ = []string{"RIGHT", "JOIN"}, types.RightJoin
		}
		for i := range head {
			head[i] = randCase(r, head[i])
		}
		head = append(head, c.table, randCase(r, "ON"))
	} else if r.P(60) {
		head = []string{randCase(r, "ON")}
	}
	if c.form == 2 {
		c.typ = pick(r, types.InnerJoin, types.LeftJoin, types.RightJoin, types.LeftOuterJoin, types.RightOuterJoin)
	}
	parens := 0
	if r.P(35) {
		parens = r.Range(1, 3)
	}
	toks := append([]string{}, head...)
	for i := 0; i < parens; i++ {
		toks = append(toks, "(")
	}
	for i := 0; i < count; i++ {
		if i > 0 {
			op := pick(r, "AND", "AND", "OR")
			c.ops = append(c.ops, op)
			toks = append(toks, randCase(r, op))
		}
		a, b := joinWord(r), joinWord(r)
		c.conds = append(c.conds, [2]string{a, b})
		toks = append(toks, a, "=", b)
	}
	for i := 0; i < parens; i++ {
		toks = append(toks, ")")
	}
	if r.P(30) {
		toks = append(toks, ";")
	}
	c.tokens = toks
	return c
}

func (c *joinCase) structured() (stmt.OnExpression, *N) {
	var e stmt.OnExpression
	var n *N
	for i, x := range c.conds {
		on, on1 := lk.On(x[0], x[1]), nd("cmp", "=", idOf(x[0]), idOf(x[1]))
		switch {
		case i == 0:
			e, n = on, on1
		case c.ops[i-1] == "AND":
			e, n = e.And(on), nd("and", "", n, on1)
		default:
			e, n = e.Or(on), nd("or", "", n, on1)
		}
	}
	return e, n
}

func (c *joinCase) apply(b builder.Select, text string) builder.Select {
	switch c.form {
	case 0:
		return b.Join(text)
	case 1:
		return b.Join(c.table, text)
	}
	return b.Join(lk.Table(c.table), text, c.typ)
}

func p19Compare(t *T, c *joinCase, text string) {
	e, n := c.structured()
	base := func() builder.Select { return lk.Select("id").From("t") }
	var a, b bld
	if o := try(func() { a = c.apply(base(), text) }); o.Panicked {
		t.Fail("the join %q (form %d) is rejected: %s", text, c.form, o.Msg)
	}
	b = base().Join(c.table, e, c.typ)
	p := &Prog{Kind: "select", SDesc: fmt.Sprintf("Join(%q)", text), AST: nd("select", "", nd("columns", "", nd("item", "", idOf("id"))), nd("from", "", tableT()),
		nd("join", string(c.typ), nd("table", "", idOf(c.table)), n))}
	t.conform(p, a, modePositional)
	if msg := render(a).equal(render(b)); msg != "" {
		t.Fail("the join %q and its structured form differ: %s", text, msg)
	}
	// Two joins in a row, and a condition behind.
	d := c.apply(c.apply(base(), text), text).Where(lk.Condition("z").Equal(1))
	want := base().Join(c.table, e, c.typ).Join(c.table, e, c.typ).Where(lk.Condition("z").Equal(1))
	if msg := render(d).equal(render(want)); msg != "" {
		t.Fail("the join %q twice and its structured form differ: %s", text, msg)
	}
	t.Ev("joins compared", 2)
	t.Distinct(string(c.typ), strings.Join(c.ops, ""), strconv.Itoa(c.form), strings.Join(c.tokens, " "))
}

func p19Text(t *T) {
	r := t.R("join")
	c := newJoinCase(r, pick(r, 1, 1, 1, 2, 2, 3, 4, 6))
	text := layout(r, c.tokens)
	p19Compare(t, c, text)
	t.Sample("%q", text)
}

func p19Long(t *T) {
	r := t.R("join")
	c := newJoinCase(r, pick(r, 50, 100, 150, 300, 400))
	p19Compare(t, c, layout(r, c.tokens))
}

var p19Vocabulary = []string{"JOIN", "LEFT", "INNER", "ON", "AND", "OR", "a", "b.c", "=", "(", ")", ";", ",", "*"}

// p19Judge decides on any text: it is rejected, or nothing of it is lost.
func p19Judge(t *T, text string) {
	var direct stmt.Join
	var err error
	if o := try(func() { direct, err = parser.ParseJoin(text) }); o.Panicked {
		t.Fail("ParseJoin panics on %q: %s", text, o.Msg)
	}
	if err != nil {
		if !direct.IsEmpty() {
			t.Fail("ParseJoin returns both an error and a join for %q", text)
		}
		t.Ev("texts rejected", 1)
		return
	}
	for form := 0; form < 2; form++ {
		var q string
		o := try(func() {
			b := lk.Select("id").From("t")
			if form == 0 {
				b = b.Join(text)
			} else {
				b = b.Join("ztable", text)
			}
			q, _ = b.Query()
		})
		if o.Panicked {
			if o.Runtime {
				t.Fail("the join %q ends in a runtime fault: %s", text, o.Msg)
			}
			t.Ev("texts rejected", 1)
			continue
		}
		t.Ev("texts accepted", 1)
		p19Conserved(t, text, q, form)
	}
}

type joinText struct {
	types  []string
	tables []string
	flat   []string // a = b AND c = d
	other  []string // tokens which are no part of a join
	inner  bool     // parentheses between conditions
}

// readJoinText splits the words of a text, without deciding if it is a join.
func readJoinText(text string) *joinText {
	var toks []string
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case isWordByte(c):
			j := i
			for j < len(text) && isWordByte(text[j]) {
				j++
			}
			toks = append(toks, text[i:j])
			i = j
		default:
			_, n := utf8.DecodeRuneInString(text[i:])
			toks = append(toks, text[i:i+n])
			i += n
		}
	}
	jt := &joinText{}
	first, last := -1, -1
	for i, tok := range toks {
		up := strings.ToUpper(tok)
		switch {
		case up == "JOIN" || up == "ON" || tok == "(" || tok == ")" || tok == ";":
		case up == "INNER" || up == "LEFT" || up == "RIGHT":
			jt.types = append(jt.types, up)
		case tok == "=":
			jt.flat = append(jt.flat, "=")
		case up == "AND" || up == "OR":
			jt.flat = append(jt.flat, up)
		case isWordByte(tok[0]) && !lexKeywords[up]:
			if i+1 < len(toks) && strings.ToUpper(toks[i+1]) == "ON" && (i == 0 || toks[i-1] != "=") {
				jt.tables = append(jt.tables, tok)
				continue
			}
			jt.flat = append(jt.flat, tok)
			if first < 0 {
				first = i
			}
			last = i
		default:
			jt.other = append(jt.other, tok)
		}
	}
	for i := first; i >= 0 && i <= last; i++ {
		if toks[i] == "(" || toks[i] == ")" {
			jt.inner = true
		}
	}
	return jt
}

// flatten lists the conditions of a tree, which must be folded to the left.
func flattenOn(n *N) ([]string, bool) {
	name := func(n *N) string { return n.T }
	switch n.K {
	case "cmp":
		return []string{name(n.C[0]), n.T, name(n.C[1])}, len(n.C) == 2 && n.C[0].K == "id" && n.C[1].K == "id"
	case "and", "or":
		l, ok := flattenOn(n.C[0])
		r, ok2 := flattenOn(n.C[1])
		return append(append(l, strings.ToUpper(n.K)), r...), ok && ok2 && n.C[1].K == "cmp" && len(n.C) == 2
	}
	return nil, false
}

func p19Conserved(t *T, text, q string, form int) {
	for _, part := range readJoinText(text).flat {
		for _, p := range strings.Split(part, ".") {
			if p == "" {
				return // a name with an empty part
			}
		}
	}
	ast, err := parseSQL("select", q)
	if err != nil {
		t.Fail("the join %q is accepted, and cannot be read as SQL: %s\n  %s", text, err, q)
	}
	joins := ast.find("join")
	if len(joins) != 1 {
		t.Fail("the join %q gives %d joins:\n  %s", text, len(joins), q)
	}
	j := joins[0]
	jt := readJoinText(text)
	if len(jt.other) > 0 {
		t.Fail("a text with %q is accepted as a join: %q\n  %s", jt.other, text, q)
	}
	if jt.inner {
		t.Fail("a text with parentheses between its conditions is accepted, without them: %q\n  %s", text, q)
	}
	got, ok := flattenOn(j.C[1])
	var want []string
	for _, x := range jt.flat {
		switch x {
		case "=", "AND", "OR":
			want = append(want, x)
		default:
			want = append(want, nameKey(x))
		}
	}
	if !ok || strings.Join(got, " ") != strings.Join(want, " ") {
		t.Fail("the conditions of the join %q are not the ones of its text:\n  want %q\n  got  %q\n  %s", text, want, got, q)
	}
	t.Ev("conditions conserved", (len(want)+1)/4)
	table := "ztable"
	if form == 0 {
		if len(jt.tables) != 1 {
			t.Fail("a join without one table is accepted: %q\n  %s", text, q)
		}
		table = jt.tables[0]
	}
	if len(jt.tables) > 1 {
		t.Fail("a join with several tables is accepted: %q\n  %s", text, q)
	}
	if w := nd("table", "", idOf(table)).String(); j.C[0].String() != w {
		t.Fail("the table of the join %q is %s\n  %s", text, j.C[0], q)
	}
	switch len(jt.types) {
	case 0:
		if j.T != string(types.InnerJoin) {
			t.Fail("the type of the join %q is %s\n  %s", text, j.T, q)
		}
	case 1:
		if j.T != jt.types[0]+" JOIN" {
			t.Fail("the type of the join %q is %s\n  %s", text, j.T, q)
		}
	}
	t.Distinct("accepted", strings.Join(want, " "), j.T, strconv.Itoa(form))
}

func p19Exhaustive(t *T) {
	n := len(p19Vocabulary)
	size := p19Small
	if t.Thorough() {
		size++
	}
	toks := []string{p19Vocabulary[t.idx%n], p19Vocabulary[t.idx/n]}
	if t.idx < n {
		p19Judge(t, toks[0])
	}
	if t.idx == 0 {
		p19Judge(t, "")
	}
	var walk func()
	walk = func() {
		p19Judge(t, strings.Join(toks, " "))
		if len(toks) == size {
			return
		}
		for _, w := range p19Vocabulary {
			toks = append(toks, w)
			walk()
			toks = toks[:len(toks)-1]
		}
	}
	walk()
}

var p19Noise = []string{
	"JOIN", "INNER", "LEFT", "RIGHT", "CROSS", "ON", "AND", "OR", "NOT", "USING", "WHERE", "SELECT", "AS", "a", "b.c", "users", "1", "=", "=", "(", ")", ";", ",", "*", ":",
	"<", ">", "!", "'", "\"", "$1", "--", "/*", "+", "é", "\x00", "==", "<>", "!=", ">=", "OUTER", "FULL", "NATURAL", "true", "IS", "NULL", "IN", "\u00a0", "\ufeff", "a.b.c", "EXISTS", "LIMIT",
}

func p19Mutated(t *T) {
	r := t.R("mutate")
	c := newJoinCase(r, pick(r, 1, 2, 2, 3, 4))
	toks := append([]string{}, c.tokens...)
	for k, m := 0, r.Range(1, 3); k < m; k++ {
		i := r.N(len(toks) + 1)
		switch r.N(6) {
		case 0:
			if i < len(toks) {
				toks = append(toks[:i:i], toks[i+1:]...)
			}
		case 1:
			if i < len(toks) {
				toks = append(toks[:i+1:i+1], toks[i:]...)
			}
		case 2:
			if i+1 < len(toks) {
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		case 3:
			if i < len(toks) {
				toks[i] = pick(r, p19Noise...)
			}
		case 4:
			toks = append(toks[:i:i], append([]string{pick(r, "(", ")", "AND", "OR", "=", ";")}, toks[i:]...)...)
		default:
			toks = append(toks[:i:i], append([]string{pick(r, p19Noise...)}, toks[i:]...)...)
		}
		if len(toks) == 0 {
			toks = []string{"ON"}
		}
	}
	text := layout(r, toks)
	p19Judge(t, text)
}

func p19Soup(t *T) {
	r := t.R("soup")
	var toks []string
	for i, c := 0, r.Size(1, 14); i < c; i++ {
		switch r.N(4) {
		case 0:
			toks = append(toks, pick(r, p19Noise...))
		case 1:
			toks = append(toks, "t", "ON")
		case 2:
			toks = append(toks, "a"+strconv.Itoa(i), "=", "b"+strconv.Itoa(i))
		default:
			toks = append(toks, pick(r, "AND", "OR", "and", "(", ")", ";", "LEFT", "JOIN"))
		}
	}
	p19Judge(t, layout(r, toks))
}

// ------------------------------------------------------------------------------------------------------------------ P20

func init() {
	register(&Check{
		ID: "P20",
		Rule: "random, exhaustive (single and double characters) and huge texts through several kinds of readers: the token values must concatenate to the text " +
			"without its blanks, within as many steps as characters; the same tokens with other blanks and another letter case must be read again.",
		Require:   []string{"texts tokenized", "tokens", "keywords", "blank variations", "case variations"},
		HangFails: true,
		Families: []Family{
			{Name: "random", Quick: 40000, Thorough: 600000, Fn: p20Random},
			{Name: "characters", Quick: 0x3000/64 + 1, Thorough: 0x110000 / 64, Fn: p20Characters},
			{Name: "pairs", Quick: 130, Thorough: 130, Fn: p20Pairs},
			{Name: "keywords", Quick: len(p20Keywords), Thorough: len(p20Keywords), Fn: p20Keyword},
			{Name: "huge", Quick: 80, Thorough: 1000, Fn: p20Huge},
		},
	})
}

var p20Keywords = func() []string {
	var out []string
	for _, w := range strings.Fields(`SELECT UPDATE INSERT DELETE FROM WHERE AND OR LIMIT OFFSET SET AS INNER CROSS LEFT RIGHT JOIN ON GROUP BY HAVING
		ORDER DISTINCT ONLY USING RETURNING VALUES INTO CONFLICT DO NOTHING WITH NOT EXISTS COUNT MAX MIN SUM`) {
		out = append(out, w)
	}
	return out
}()

func p20Blank(c rune) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func stripBlanks(s string) string {
	return strings.Map(func(c rune) rune {
		if p20Blank(c) {
			return -1
		}
		return c
	}, s)
}

// p20Read reads every token of a text, in both ways, with a bound on the number of steps.
func p20Read(t *T, s string, mk func(s string) io.Reader) []token.Token {
	l := lexer.New(mk(s))
	var list []token.Token
	limit := utf8.RuneCountInString(s) + 1
	for steps := 0; ; steps++ {
		tok := l.Next()
		if tok.Type == token.EOF {
			if tok.Value != "" {
				t.Fail("the end of %q has the value %q", brief(s), tok.Value)
			}
			break
		}
		list = append(list, tok)
		if steps > limit {
			t.Fail("more tokens than characters for %q: %v...", s, list[:min(len(list), 20)])
		}
	}
	for i := 0; i < 3; i++ {
		if tok := l.Next(); tok.Type != token.EOF {
			t.Fail("a token after the end of %q: %v", s, tok)
		}
	}
	l2 := lexer.New(mk(s))
	it := l2.Iterator()
	for i := range list {
		if !it.HasNext() {
			t.Fail("the iterator of %q ends after %d tokens of %d", s, i, len(list))
		}
		if !it.Is(list[i].Type) {
			t.Fail("the iterator of %q: token %d is %v, Is(%v) is false", s, i, list[i], list[i].Type)
		}
		if tok := it.Next(); tok != list[i] {
			t.Fail("the iterator of %q differs at token %d: %v, %v", s, i, list[i], tok)
		}
	}
	if it.HasNext() {
		t.Fail("the iterator of %q has more tokens than the lexer", s)
	}
	return list
}

func plainReader(s string) io.Reader { return strings.NewReader(s) }

var p20Readers = []func(s string) io.Reader{
	plainReader,
	func(s string) io.Reader { return iotest.OneByteReader(strings.NewReader(s)) },
	func(s string) io.Reader { return iotest.HalfReader(strings.NewReader(s)) },
	func(s string) io.Reader { return iotest.DataErrReader(strings.NewReader(s)) },
	func(s string) io.Reader { return bufio.NewReaderSize(strings.NewReader(s), 16) },
}

// p20Judge checks the tokens of a text.
func p20Judge(t *T, r *R, s string) []token.Token {
	toks := p20Read(t, s, p20Readers[r.N(len(p20Readers))])
	t.Ev("texts tokenized", 1)
	t.Ev("tokens", len(toks))
	var cat strings.Builder
	for _, tok := range toks {
		if tok.Value == "" {
			t.Fail("an empty token in %q: %v", s, toks)
		}
		cat.WriteString(tok.Value)
		up := asciiUpper(tok.Value)
		if lexKeywords[up] {
			t.Ev("keywords", 1)
			if string(tok.Type) != up {
				t.Fail("the keyword %q has the type %q", tok.Value, tok.Type)
			}
		} else if lexKeywords[string(tok.Type)] || tok.Type == token.DistinctOn {
			t.Fail("%q is not the keyword %q", tok.Value, tok.Type)
		}
		if isWordByte(tok.Value[0]) {
			if !lexKeywords[up] && tok.Type != token.Literal {
				t.Fail("the word %q has the type %q", tok.Value, tok.Type)
			}
		} else if strings.Contains("=*;,:()", tok.Value) && string(tok.Type) != tok.Value {
			t.Fail("the symbol %q has the type %q", tok.Value, tok.Type)
		} else if tok.Type == token.Literal {
			t.Fail("%q is read as a word", tok.Value)
		}
	}
	if want := stripBlanks(s); cat.String() != want {
		t.Fail("the tokens of %q are not its characters:\n  want %q\n  got  %q", s, want, cat.String())
	}
	return toks
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// p20Vary writes the tokens with other blanks, and another case: the tokens are the same.
func p20Vary(t *T, r *R, s string, toks []token.Token) {
	vals := make([]string, len(toks))
	for i := range toks {
		vals[i] = toks[i].Value
	}
	again := layout(r, vals)
	if r.P(20) {
		again = strings.Join(vals, " ")
	}
	got := p20Read(t, again, plainReader)
	if !reflect.DeepEqual(append([]token.Token{}, got...), append([]token.Token{}, toks...)) {
		t.Fail("blanks change the tokens:\n  %q\n  %v\n  %q\n  %v", s, toks, again, got)
	}
	t.Ev("blank variations", 1)
	cased := []byte(again)
	for i, c := range cased {
		if (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') && r.P(50) {
			cased[i] = c ^ 32
		}
	}
	got = p20Read(t, string(cased), plainReader)
	if len(got) != len(toks) {
		t.Fail("the letter case changes the tokens: %q %v, %q %v", again, toks, cased, got)
	}
	for i := range got {
		if got[i].Type != toks[i].Type || !strings.EqualFold(asciiUpper(got[i].Value), asciiUpper(toks[i].Value)) {
			t.Fail("the letter case changes a token: %v, %v", toks[i], got[i])
		}
	}
	t.Ev("case variations", 1)
}

func p20Text(r *R, parts int) string {
	var b strings.Builder
	for i := 0; i < parts; i++ {
		switch r.N(12) {
		case 0:
			b.WriteString(randCase(r, p20Keywords[r.N(len(p20Keywords))]))
		case 1:
			b.WriteString(blanks(r, 1))
		case 2:
			b.WriteString(pick(r, "=", "*", ";", ",", ":", "(", ")", "==", "**", "()", ";;"))
		case 3:
			b.WriteString(hostile[r.N(len(hostile))])
		case 4:
			c := rune(r.N(0x110000))
			if !utf8.ValidRune(c) {
				c = 'x'
			}
			b.WriteRune(c)
		case 5:
			b.WriteRune(rune(r.N(128)))
		case 6:
			b.WriteString(pick(r, "\x00", "\ufffd", "\uffff", "\U0010ffff", "\u017f", "\u212a", "\u0131", "\v", "\f", "\u0085", "\u2028", "\u3000", "\u00a0", "\x7f", "\b"))
		case 7:
			b.WriteString(pick(r, "DISTINCT ON", "distinct  on", "Literal", "EOF", "Illegal", "--", "->", "order by"))
		case 8, 9:
			b.WriteString(" ")
		default:
			b.WriteString(joinWord(r))
		}
	}
	return b.String()
}

func p20Random(t *T) {
	r := t.R("text")
	s := p20Text(r, r.Range(0, 20))
	toks := p20Judge(t, r, s)
	p20Vary(t, r, s, toks)
	shape := ""
	for _, tok := range toks {
		shape += string(tok.Type) + " "
	}
	t.Distinct(shape)
	t.Sample("%q", s)
}

func p20Characters(t *T) {
	r := t.R("characters")
	for i := 0; i < 64; i++ {
		c := rune(t.idx*64 + i)
		if !utf8.ValidRune(c) {
			continue
		}
		for _, s := range []string{string(c), "a" + string(c) + "b", string(c) + string(c), "select" + string(c) + "from", "(" + string(c) + ")"} {
			toks := p20Judge(t, r, s)
			p20Vary(t, r, s, toks)
			t.Distinct(s)
		}
	}
}

func p20Pairs(t *T) {
	r := t.R("pairs")
	for i := 0; i < 130; i++ {
		a, b := rune(t.idx), rune(i)
		if t.idx >= 128 {
			a = pick(r, 'é', '日', '😀')
		}
		s := string(a) + string(b)
		toks := p20Judge(t, r, s)
		p20Vary(t, r, s, toks)
		t.Distinct(s)
	}
}

// p20Keyword has every letter case of a keyword, and its neighbours.
func p20Keyword(t *T) {
	w := p20Keywords[t.idx]
	r := t.R("case")
	n := 1 << len(w)
	for k := 0; k < n; k++ {
		b := []byte(w)
		for i := range b {
			if k>>i&1 == 1 {
				b[i] += 32
			}
		}
		s := string(b)
		toks := p20Judge(t, r, s)
		if len(toks) != 1 || string(toks[0].Type) != w {
			t.Fail("the keyword %q is read as %v", s, toks)
		}
		t.Distinct(s)
	}
	for _, s := range []string{w + "S", "_" + w, w + "1", w + ".", "." + w, "1" + w, w + "_", w + w, w[:len(w)-1] + "Z", w + "." + w} {
		if lexKeywords[s] {
			continue
		}
		for _, x := range []string{s, strings.ToLower(s)} {
			toks := p20Judge(t, r, x)
			if len(toks) != 1 || toks[0].Type != token.Literal {
				t.Fail("%q is read as %v", x, toks)
			}
		}
	}
	for _, s := range []string{w + "\u00a0", "\u212a" + w, w + "\u017f", w + "\x00", w + "é"} {
		p20Judge(t, r, s)
	}
}

func p20Huge(t *T) {
	r := t.R("huge")
	var s string
	switch t.idx % 6 {
	case 0:
		s = strings.Repeat(pick(r, "a", "select", "x.", "1", "_"), r.Range(2000, 20000))
	case 1:
		s = strings.Repeat(blanks(r, 1), r.Range(2000, 20000)) + "a"
	case 2:
		s = strings.Repeat(pick(r, "é", "日", "😀", "\x00"), r.Range(2000, 6000))
	case 3:
		s = strings.Repeat("a", r.Range(4080, 4100)) + pick(r, "é", "日", "😀", " ", "=") + strings.Repeat("b", 5000)
	case 4:
		s = strings.Repeat("(", r.Range(5000, 20000)) + ")"
	default:
		s = p20Text(r, r.Range(1000, 6000))
	}
	toks := p20Judge(t, r, s)
	p20Vary(t, r, s, toks)
	t.Distinct("huge", strconv.Itoa(t.idx))
}

// ------------------------------------------------------------------------------------------------------------------ P21

func init() {
	register(&Check{
		ID: "P21",
		Rule: "the calls of random statements in other orders (calls of a same clause keep theirs; all the permutations of up to 5 calls exhaustively) must " +
			"be accepted and render the same; every pair of definitions of a clause, among random other calls, must be rejected by the second one.",
		Require: []string{"orders compared", "second definitions rejected"},
		Families: []Family{
			{Name: "huge", Quick: 200, Thorough: 10000, Fn: hugely(5000, p21Permute)},
			{Name: "coincide", Quick: 3000, Thorough: 200000, Fn: alike(p21Permute)},
			{Name: "permute", Quick: 12000, Thorough: 180000, Fn: p21Permute},
			{Name: "exhaustive", Quick: 400, Thorough: 4000, Fn: p21Exhaustive},
			{Name: "twice", Quick: len(twiceDefs) * 60, Thorough: len(twiceDefs) * 800, Fn: p21Twice},
		},
	})
}

func p21Opts() Opts {
	o := defaultOpts()
	o.kinds = []string{"int", "string", "bool", "nil"}
	o.comment = true
	return o
}

func applySteps(start bld, steps []Step) bld {
	for _, s := range steps {
		start = s.Apply(start)
	}
	return start
}

// reorder keeps the order of the calls of a same clause.
func reorder(steps []Step, perm []int) []Step {
	queues := map[string][]Step{}
	for _, s := range steps {
		queues[s.Clause] = append(queues[s.Clause], s)
	}
	out := make([]Step, 0, len(steps))
	for _, i := range perm {
		c := steps[i].Clause
		out = append(out, queues[c][0])
		queues[c] = queues[c][1:]
	}
	return out
}

func stepsDesc(steps []Step) string {
	s := ""
	for _, x := range steps {
		s += "\n  ." + x.Desc
	}
	return s
}

func p21Order(t *T, p *Prog, want rendered, perm []int) {
	steps := reorder(p.Steps, perm)
	var got rendered
	if o := try(func() { got = render(applySteps(p.Start(), steps)) }); o.Panicked {
		t.Fail("an order of the calls is rejected: %s\n%s%s", o.Msg, p.SDesc, stepsDesc(steps))
	}
	if msg := want.equal(got); msg != "" {
		t.Fail("the order of the calls changes the statement: %s\n%s%s", msg, p.SDesc, stepsDesc(steps))
	}
	t.Ev("orders compared", 1)
	names := []string{p.Kind}
	for _, s := range steps {
		names = append(names, s.Clause)
	}
	t.Distinct(names...)
}

func p21Permute(t *T) {
	p := newGen(t, p21Opts(), "", "", "").Of(kinds4[t.idx%4])
	want := render(p.Build())
	r := t.R("perm")
	perm := make([]int, len(p.Steps))
	for i := range perm {
		perm[i] = i
	}
	// Reversed, rotated, and random orders.
	for i, j := 0, len(perm)-1; i < j; i, j = i+1, j-1 {
		perm[i], perm[j] = perm[j], perm[i]
	}
	p21Order(t, p, want, perm)
	for k := 0; k < 4; k++ {
		shuffle(r, perm)
		p21Order(t, p, want, perm)
	}
	t.Sample("%s", p.Desc())
}

func p21Exhaustive(t *T) {
	o := p21Opts()
	for try := 0; try < 60; try++ {
		p := newGen(t, o, "v"+strconv.Itoa(try), "s"+strconv.Itoa(try), "").Of(kinds4[t.idx%4])
		n := len(p.Steps)
		if n < 3 || n > 5 {
			continue
		}
		want := render(p.Build())
		perm := make([]int, n)
		for i := range perm {
			perm[i] = i
		}
		var walk func(k int)
		walk = func(k int) {
			if k == n {
				p21Order(t, p, want, perm)
				return
			}
			for i := k; i < n; i++ {
				perm[k], perm[i] = perm[i], perm[k]
				walk(k + 1)
				perm[k], perm[i] = perm[i], perm[k]
			}
		}
		walk(0)
		return
	}
}

// twiceDef are the definitions of a clause which can only be defined once.
type twiceDef struct {
	kind   string
	clause string
	hide   []string // clauses of the other calls which cannot come along
	start  func() bld
	// starts with the clause already defined
	defined bool
	defs    []func(b bld) bld
}

func sd(fns ...func(b builder.Select) builder.Select) []func(b bld) bld {
	var out []func(b bld) bld
	for _, fn := range fns {
		fn := fn
		out = append(out, func(b bld) bld { return fn(sel(b)) })
	}
	return out
}

func idf(fns ...func(b builder.Insert) builder.Insert) []func(b bld) bld {
	var out []func(b bld) bld
	for _, fn := range fns {
		fn := fn
		out = append(out, func(b bld) bld { return fn(ins(b)) })
	}
	return out
}

func udf(fns ...func(b builder.Update) builder.Update) []func(b bld) bld {
	var out []func(b bld) bld
	for _, fn := range fns {
		fn := fn
		out = append(out, func(b bld) bld { return fn(upd(b)) })
	}
	return out
}

func ddf(fns ...func(b builder.Delete) builder.Delete) []func(b bld) bld {
	var out []func(b bld) bld
	for _, fn := range fns {
		fn := fn
		out = append(out, func(b bld) bld { return fn(del(b)) })
	}
	return out
}

var twiceDefs = []twiceDef{
	{kind: "select", clause: "from", defs: sd(
		func(b builder.Select) builder.Select { return b.From("f1") },
		func(b builder.Select) builder.Select { return b.From("f1", lk.Table("f2")) },
		func(b builder.Select) builder.Select { return b.From(lk.Table("f3").As("x")) },
		func(b builder.Select) builder.Select { return b.From(lk.Raw("f4()")) },
		func(b builder.Select) builder.Select { return b.From(lk.Table("f5").Only()) },
	)},
	{kind: "select", clause: "groupby", defs: sd(
		func(b builder.Select) builder.Select { return b.GroupBy("g1") },
		func(b builder.Select) builder.Select { return b.GroupBy("g1, g2", "g3") },
		func(b builder.Select) builder.Select { return b.GroupBy([]string{"g4"}) },
		func(b builder.Select) builder.Select { return b.GroupBy(lk.Column("g5")) },
		func(b builder.Select) builder.Select { return b.GroupBy([]stmt.Column{lk.Column("g5")}) },
	)},
	{kind: "select", clause: "having", defs: sd(
		func(b builder.Select) builder.Select { return b.Having(lk.Condition("h1").Equal(1)) },
		func(b builder.Select) builder.Select { return b.Having(lk.Raw("h2")) },
		func(b builder.Select) builder.Select { return b.Having(lk.Condition("h3").In(1, 2)) },
		func(b builder.Select) builder.Select { return b.Having(lk.Exists(lk.Select("h4"))) },
		func(b builder.Select) builder.Select {
			return b.Having(lk.And(lk.Condition("h5").Equal(1), lk.Condition("h6").Equal(2)))
		},
	)},
	{kind: "select", clause: "limit", defs: sd(
		func(b builder.Select) builder.Select { return b.Limit(1) },
		func(b builder.Select) builder.Select { return b.Limit("2") },
		func(b builder.Select) builder.Select { return b.Limit(lk.Limit(3)) },
		func(b builder.Select) builder.Select { return b.Limit(uint8(4)) },
		func(b builder.Select) builder.Select { return b.Limit(int64(math.MaxInt64)) },
	)},
	{kind: "select", clause: "offset", defs: sd(
		func(b builder.Select) builder.Select { return b.Offset(1) },
		func(b builder.Select) builder.Select { return b.Offset("2") },
		func(b builder.Select) builder.Select { return b.Offset(lk.Offset(3)) },
		func(b builder.Select) builder.Select { return b.Offset(uint8(4)) },
	)},
	{kind: "select", clause: "distincton", hide: []string{"distinct"}, defs: sd(
		func(b builder.Select) builder.Select { return b.DistinctOn("d1") },
		func(b builder.Select) builder.Select { return b.DistinctOn("d1, d2") },
		func(b builder.Select) builder.Select { return b.DistinctOn(lk.Column("d3"), "d4") },
		func(b builder.Select) builder.Select { return b.DistinctOn([]string{"d3", "d4"}) },
	)},
	{kind: "select", clause: "prefix", defs: sd(
		func(b builder.Select) builder.Select { return b.Prefix("EXPLAIN") },
		func(b builder.Select) builder.Select { return b.Prefix(stmt.NewPrefix("EXPLAIN ANALYZE")) },
	)},
	{kind: "select", clause: "suffix", defs: sd(
		func(b builder.Select) builder.Select { return b.Suffix("FOR UPDATE") },
		func(b builder.Select) builder.Select { return b.Suffix(stmt.NewSuffix("FOR SHARE")) },
	)},
	{kind: "insert", clause: "into", start: func() bld { return builder.NewInsert() }, defs: idf(
		func(b builder.Insert) builder.Insert { return b.Into("i1") },
		func(b builder.Insert) builder.Insert { return b.Into(lk.Table("i2")) },
		func(b builder.Insert) builder.Insert { return b.Into(stmt.NewInto(lk.Table("i3"))) },
	)},
	{kind: "insert", clause: "into", defined: true, start: func() bld { return lk.Insert("t") }, defs: idf(
		func(b builder.Insert) builder.Insert { return b.Into("i1") },
		func(b builder.Insert) builder.Insert { return b.Into(lk.Table("t")) },
		func(b builder.Insert) builder.Insert { return b.Into(stmt.NewInto(lk.Table("i3"))) },
	)},
	{kind: "insert", clause: "columns", hide: []string{"values"}, defs: idf(
		func(b builder.Insert) builder.Insert { return b.Columns("c1") },
		func(b builder.Insert) builder.Insert { return b.Columns("c1, c2") },
		func(b builder.Insert) builder.Insert { return b.Columns([]string{"c3"}) },
		func(b builder.Insert) builder.Insert { return b.Columns(lk.Column("c4"), "c5") },
		func(b builder.Insert) builder.Insert { return b.Columns([]stmt.Column{lk.Column("c4")}) },
		func(b builder.Insert) builder.Insert { return b.Set(lk.Pair("c6", 1)) },
		func(b builder.Insert) builder.Insert { return b.Set(lk.Map{"c7": 1, "c8": nil}) },
	)},
	{kind: "insert", clause: "values", hide: []string{"columns"}, defs: idf(
		func(b builder.Insert) builder.Insert { return b.Values(1) },
		func(b builder.Insert) builder.Insert { return b.Values(nil) },
		func(b builder.Insert) builder.Insert { return b.Values([]int{1, 2}) },
		func(b builder.Insert) builder.Insert { return b.Values([][]int{{1, 2}, {3, 4}}) },
		func(b builder.Insert) builder.Insert { return b.Values("a", lk.Raw("NOW()")) },
		func(b builder.Insert) builder.Insert { return b.Values(lk.Select("x")) },
		func(b builder.Insert) builder.Insert { return b.Set(lk.Pair("c6", 1)) },
		func(b builder.Insert) builder.Insert { return b.Set(map[string]interface{}{"c7": 1, "c8": nil}) },
	)},
	{kind: "insert", clause: "conflict", defs: idf(
		func(b builder.Insert) builder.Insert { return b.OnConflict(lk.DoNothing()) },
		func(b builder.Insert) builder.Insert { return b.OnConflict("k1", lk.DoNothing()) },
		func(b builder.Insert) builder.Insert { return b.OnConflict("k1", lk.DoUpdate(lk.Pair("c", 1))) },
		func(b builder.Insert) builder.Insert {
			return b.OnConflict(lk.Column("k2"), "k3", lk.DoUpdate(lk.Map{"c": nil}))
		},
	)},
	{kind: "insert", clause: "returning", defs: idf(
		func(b builder.Insert) builder.Insert { return b.Returning("r1") },
		func(b builder.Insert) builder.Insert { return b.Returning("*") },
		func(b builder.Insert) builder.Insert { return b.Returning(lk.Column("r2").As("x"), lk.Raw("now()")) },
		func(b builder.Insert) builder.Insert { return b.Returning([]string{"r3"}) },
	)},
	{kind: "update", clause: "from", defs: udf(
		func(b builder.Update) builder.Update { return b.From("f1") },
		func(b builder.Update) builder.Update { return b.From(lk.Table("f2").As("x")) },
		func(b builder.Update) builder.Update { return b.From(lk.Raw("f3()")) },
		func(b builder.Update) builder.Update { return b.From(lk.Table("f5").Only()) },
	)},
	{kind: "update", clause: "returning", defs: udf(
		func(b builder.Update) builder.Update { return b.Returning("r1") },
		func(b builder.Update) builder.Update { return b.Returning("*") },
		func(b builder.Update) builder.Update { return b.Returning(lk.Column("r2").As("x"), lk.Raw("now()")) },
		func(b builder.Update) builder.Update { return b.Returning([]string{"r3"}) },
	)},
	{kind: "delete", clause: "from", start: func() bld { return builder.NewDelete() }, defs: ddf(
		func(b builder.Delete) builder.Delete { return b.From("f1") },
		func(b builder.Delete) builder.Delete { return b.From("f1", "f2") },
		func(b builder.Delete) builder.Delete { return b.From(lk.Table("f2").As("x")) },
		func(b builder.Delete) builder.Delete { return b.From(lk.Table("f5").Only()) },
	)},
	{kind: "delete", clause: "from", defined: true, start: func() bld { return lk.Delete("t") }, defs: ddf(
		func(b builder.Delete) builder.Delete { return b.From("f1") },
		func(b builder.Delete) builder.Delete { return b.From("t") },
		func(b builder.Delete) builder.Delete { return b.From(lk.Table("f2").As("x")) },
		func(b builder.Delete) builder.Delete { return b.From(lk.Table("f5").Only()) },
	)},
	{kind: "delete", clause: "using", defs: ddf(
		func(b builder.Delete) builder.Delete { return b.Using("u1") },
		func(b builder.Delete) builder.Delete { return b.Using("u1", lk.Table("u2")) },
		func(b builder.Delete) builder.Delete { return b.Using(lk.Table("u3").As("x")) },
		func(b builder.Delete) builder.Delete { return b.Using("u4", "u5") },
	)},
	{kind: "delete", clause: "returning", defs: ddf(
		func(b builder.Delete) builder.Delete { return b.Returning("r1") },
		func(b builder.Delete) builder.Delete { return b.Returning("*") },
		func(b builder.Delete) builder.Delete { return b.Returning(lk.Column("r2").As("x"), lk.Raw("now()")) },
		func(b builder.Delete) builder.Delete { return b.Returning([]string{"r3"}) },
	)},
}

func p21Twice(t *T) {
	d := twiceDefs[t.idx%len(twiceDefs)]
	k := t.idx / len(twiceDefs)
	r := t.R("twice")
	n := len(d.defs)
	first, second := k%n, k/n%n
	p := newGen(t, p21Opts(), "", "", "").Of(d.kind)
	start := p.Start
	if d.start != nil {
		start = d.start
	} else if d.kind == "insert" {
		start = func() bld { return lk.Insert("t") }
	} else if d.kind == "delete" {
		start = func() bld { return lk.Delete("t") }
	}
	var others []Step
	for _, s := range p.Steps {
		skip := s.Clause == d.clause || (s.Clause == "into" && d.start == nil) || (s.Clause == "from" && d.kind == "delete")
		for _, h := range d.hide {
			skip = skip || s.Clause == h
		}
		if !skip {
			others = append(others, s)
		}
	}
	if r.P(25) {
		others = nil
	} else {
		perm := make([]int, len(others))
		for i := range perm {
			perm[i] = i
		}
		shuffle(r, perm)
		others = reorder(others, perm)
	}
	i := r.N(len(others) + 1)
	j := i + r.N(len(others)+1-i)
	b := start()
	desc := fmt.Sprintf("%T", b)
	apply := func(steps []Step) {
		for _, s := range steps {
			b = s.Apply(b)
			desc += "\n  ." + s.Desc
		}
	}
	apply(others[:i])
	if !d.defined {
		b = d.defs[first](b)
		desc += fmt.Sprintf("\n  .%s (definition %d)", d.clause, first)
	}
	apply(others[i:j])
	desc += fmt.Sprintf("\n  .%s (definition %d)", d.clause, second)
	var again bld
	o := try(func() { again = d.defs[second](b) })
	if !o.Panicked {
		q, _, _ := renderQ(again)
		t.Fail("the clause %s of a %s is defined twice:\n%s\n  %s", d.clause, d.kind, desc, q)
	}
	if o.Runtime {
		t.Fail("the second definition ends in a runtime fault: %s\n%s", o.Msg, desc)
	}
	t.Ev("second definitions rejected", 1)
	names := []string{d.kind, d.clause, strconv.Itoa(first), strconv.Itoa(second)}
	for _, s := range others[:j] {
		names = append(names, s.Clause)
	}
	t.Distinct(names...)
}

// ------------------------------------------------------------------------------------------------------------------ P22

func init() {
	register(&Check{
		ID: "P22",
		Rule: "values inlined by String() and by the format package, decoded by an own reader of PostgreSQL literals: every character alone and between others, all " +
			"triples of 16 special characters, random hostile texts, every byte, bit patterns of floats, limits of integers, times in many zones, Valuers.",
		Require: []string{"literals decoded", "characters", "bytes", "floats", "integers", "times", "valuers"},
		Families: []Family{
			{Name: "characters", Quick: 0x3000 / 64, Thorough: 0x110000 / 64, Fn: p22Characters},
			{Name: "triples", Quick: len(p22Special) * len(p22Special), Thorough: len(p22Special) * len(p22Special), Fn: p22Triples},
			{Name: "texts", Quick: 20000, Thorough: 300000, Fn: p22Texts},
			{Name: "bytes", Quick: 4000, Thorough: 60000, Fn: p22Bytes},
			{Name: "numbers", Quick: 20000, Thorough: 400000, Fn: p22Numbers},
			{Name: "times", Quick: 20000, Thorough: 300000, Fn: p22Times},
			{Name: "valuers", Quick: 10000, Thorough: 100000, Fn: p22Valuers},
			{Name: "statements", Quick: 6000, Thorough: 100000, Fn: p22Statements},
		},
	})
}

// p22Literal checks the literal of a value, alone and inside of a statement.
func p22Literal(t *T, in, out any) {
	text := format.Value(in)
	n, err := parseExpr(text)
	if err != nil {
		t.Fail("the literal of %s cannot be read: %s: %s", brief(in), err, text)
	}
	if msg := litDenotes(n, out); msg != "" {
		t.Fail("%s: %s", msg, text)
	}
	t.Ev("literals decoded", 1)
}

func p22Inside(t *T, r *R, v *Val) {
	one := func(c *N) *N { return c }
	var b bld
	p := &Prog{SDesc: v.Desc()}
	mk := val("it's")
	sep := val(7)
	switch r.N(4) {
	case 0:
		p.Kind = "select"
		p.AST = selWhere(nd("or", "", nd("cmp", "=", idOf("a"), valNode(v)), nd("cmp", "=", idOf("b"), valNode(&mk))))
		b = lk.Select("id").From("t").Where(lk.Condition("a").Equal(v.In).Or(lk.Condition("b").Equal(mk.In)))
	case 1:
		p.Kind = "insert"
		p.AST = nd("insert", "", tableT(), nd("values", "", nd("vrow", "", valNode(v), valNode(v), valNode(&sep), valNode(&mk))))
		b = lk.Insert("t").Values(v.In, v.In, sep.In, mk.In)
	case 2:
		p.Kind = "update"
		p.AST = nd("update", "", tableT(), nd("set", "pairs", assignN("a", valNode(v)), assignN("b", valNode(&mk))))
		b = lk.Update("t").Set(lk.Pair("b", mk.In), lk.Pair("a", v.In))
	case 3:
		p.Kind = "delete"
		p.AST = nd("delete", "", nd("from", "", tableT()), nd("where", "", one(nd("in", "NOT ", idOf("a"), nd("list", "", valNode(&mk), valNode(v), valNode(&sep))))))
		b = lk.Delete("t").Where(lk.Condition("a").NotIn(mk.In, v.In, sep.In))
	}
	t.conform(p, b, modeInline)
	t.Ev("literals decoded", 1)
}

var p22Special = []string{"'", "\\", "\"", "\n", "\r", "\t", "E", "$", "%", "-", ":", ";", "\b", "x", "é", "\u0085"}

func p22String(t *T, r *R, s string) {
	p22Literal(t, s, s)
	v := val(s)
	v.Kind = "string"
	p22Inside(t, r, &v)
	// The function itself.
	n, err := parseExpr(format.String(s))
	if err != nil || litDenotes(n, s) != "" {
		t.Fail("format.String(%q) = %s", s, format.String(s))
	}
}

func p22Characters(t *T) {
	r := t.R("in")
	for i := 0; i < 64; i++ {
		c := rune(t.idx*64 + i)
		if !utf8.ValidRune(c) || c == 0 {
			continue
		}
		for _, s := range []string{string(c), "a" + string(c) + "b", string(c) + "'", "\\" + string(c), string(c) + string(c)} {
			p22String(t, r, s)
		}
		t.Ev("characters", 1)
		t.Distinct(string(c))
	}
}

func p22Triples(t *T) {
	r := t.R("in")
	a, b := p22Special[t.idx%len(p22Special)], p22Special[t.idx/len(p22Special)]
	for _, c := range p22Special {
		p22String(t, r, a+b+c)
		t.Distinct(a + b + c)
	}
	p22String(t, r, a)
	p22String(t, r, a+b)
}

func p22Texts(t *T) {
	r := t.R("text")
	var s string
	switch r.N(6) {
	case 0:
		s = special[r.N(len(special))]
	case 1:
		s = anyString(r)
	case 2:
		s = strings.Repeat(pick(r, "'", "\\", "a", "\\'", "é", "''"), r.Range(1, 300))
	case 3:
		s = strings.Repeat("x", r.Range(0, 3000)) + pick(r, "'", "\\", "\n", "") + strings.Repeat("y", r.N(50))
	default:
		s = hostileText(r, 12)
	}
	s = strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\x00", "")
	p22String(t, r, s)
	// Texts which have something in common.
	near := []string{strings.ToLower(s), strings.ToUpper(s), strings.TrimSpace(s), s + " ", " " + s, s + s, s + "\\", s + "'", strings.ReplaceAll(s, "'", "''"), strings.ReplaceAll(s, "\\", "\\\\")}
	if len(s) > 2 {
		i := r.N(len(s))
		near = append(near, strings.ToValidUTF8(s[:i], ""), strings.ToValidUTF8(s[i:], ""), strings.ToValidUTF8(s[:len(s)-1]+"x", "y"))
	}
	shuffle(r, near)
	for _, y := range append(near[:1+r.N(3)], s) {
		p22Literal(t, y, y)
		t.Ev("neighbouring texts", 1)
	}
	t.Distinct(s)
	t.Sample("%q %s", s, format.Value(s))
}

func p22Bytes(t *T) {
	r := t.R("bytes")
	var b []byte
	switch {
	case t.idx < 256:
		b = []byte{byte(t.idx)}
	case t.idx < 512:
		b = []byte{byte(t.idx), '\'', byte(t.idx - 1)}
	default:
		b = anyBytes(r)
	}
	p22Literal(t, b, b)
	v := val(b)
	v.Kind = "bytes"
	p22Inside(t, r, &v)
	t.Ev("bytes", len(b))
	t.Distinct(string(b))
}

func p22Numbers(t *T) {
	r := t.R("number")
	var x any
	switch r.N(4) {
	case 0:
		f := math.Float64frombits(r.U64())
		if r.P(30) {
			f = pick(r, 0, 1, -1, 0.1, 1e15, 1e16, 1e20, 1e21, 1e22, 123456789.125, 1e-5, 1e-6, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64, 0.30000000000000004,
				5e-324, 2.2250738585072014e-308, 9007199254740993, 100, 1e100, 1.5, float64(r.N(1000000))/1000)
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0.5
		}
		x = f
		t.Ev("floats", 1)
	case 1:
		f := math.Float32frombits(uint32(r.U64()))
		if r.P(30) {
			f = pick(r, float32(0.1), math.MaxFloat32, math.SmallestNonzeroFloat32, 16777217, 1e10, 1.5, 0.3, 1e-10)
		}
		if f != f || math.IsInf(float64(f), 0) {
			f = 0.5
		}
		x = f
		t.Ev("floats", 1)
	case 2:
		n := pick(r, int64(math.MinInt64), math.MaxInt64, 0, -1, 1, math.MinInt32, math.MaxInt32, math.MaxUint32, -129, 128, int64(r.U64()))
		u := pick(r, uint64(math.MaxUint64), 1<<63, 1<<63-1, r.U64(), 0)
		x = pick[any](r, n, int(n), int32(n), int16(n), int8(n), u, uint(u), uint32(u), uint16(u), uint8(u))
		t.Ev("integers", 1)
	case 3:
		x = r.P(50)
	}
	// A literal of exactly the number: compared as numbers of any precision too.
	if f, ok := x.(float64); ok {
		got, ok := new(big.Rat).SetString(format.Value(f))
		if !ok {
			t.Fail("the literal of %v is no number: %s", f, format.Value(f))
		}
		if g, _ := got.Float64(); g != f {
			t.Fail("the literal of %v is %s", f, format.Value(f))
		}
	}
	p22Literal(t, x, x)
	v := val(x)
	v.Kind = fmt.Sprintf("%T", x)
	p22Inside(t, r, &v)
	t.Distinct(fmt.Sprintf("%T%v", x, x))
}

func p22Times(t *T) {
	r := t.R("time")
	x := anyTime(r)
	switch r.N(12) {
	case 0:
		// Around midnight and the limits of a month, in another zone.
		x = time.Date(r.Range(1, 9998), time.Month(r.Range(1, 12)), r.Range(1, 31), pick(r, 0, 23), pick(r, 0, 59), pick(r, 0, 59), pick(r, 0, 1000, 999999000, 999000000), zones[r.N(len(zones))])
		if y := x.UTC().Year(); y < 1 || y > 9999 {
			x = time.Unix(0, 0)
		}
	case 1:
		x = time.Unix(int64(r.N(1<<31)), int64(r.N(1000000))*1000)
	case 2:
		x = time.Date(2000, 2, 29, 12, 0, 0, r.N(1000000)*1000, time.FixedZone("z", r.Range(-14*60, 14*60)*60))
	case 3:
		x = time.Date(r.Range(1800, 2200), 6, 15, r.N(24), 30, 0, 0, time.FixedZone("s", r.Range(-50000, 50000)))
	case 4:
		x = bootTime.Add(time.Duration(r.N(1 << 40)))
	}
	p22Literal(t, x, x)
	// Times which have something in common: the instant, the second, the text in their zone, the number of nanoseconds modulo 2^64.
	near := []time.Time{
		x.UTC(), x.In(zones[r.N(len(zones))]), x.Truncate(time.Second), x.Truncate(time.Second).Add(999999 * time.Microsecond), x.Add(time.Microsecond),
		time.Date(x.Year(), x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second(), x.Nanosecond(), zones[r.N(len(zones))]),
		time.Unix(0, x.UnixNano()), x.AddDate(0, 0, 1), x.AddDate(100, 0, 0), x.AddDate(-400, 0, 0), time.Unix(int64(int32(x.Unix())), int64(x.Nanosecond())),
	}
	shuffle(r, near)
	for _, y := range append(near[:1+r.N(4)], x) {
		if u := y.UTC().Year(); u >= 1 && u <= 9999 {
			p22Literal(t, y, y)
			t.Ev("neighbouring times", 1)
		}
	}
	v := val(x)
	v.Kind = "time"
	if r.P(20) {
		v.In = &x
	}
	p22Inside(t, r, &v)
	t.Ev("times", 1)
	t.Distinct(x.String())
	t.Sample("%v %s", x, format.Value(x))
}

// anyValuer provides any value a driver accepts.
type anyValuer struct{ v driver.Value }

func (v anyValuer) Value() (driver.Value, error) { return v.v, nil }

type ptrAnyValuer struct{ v driver.Value }

func (v *ptrAnyValuer) Value() (driver.Value, error) { return v.v, nil }

type badValuer struct{}

func (badValuer) Value() (driver.Value, error) { return "never", errValuer }

func p22Valuers(t *T) {
	r := t.R("valuer")
	var dv any
	switch r.N(7) {
	case 0:
		dv = nil
	case 1:
		dv = anyString(r)
	case 2:
		dv = anyInt(r)
	case 3:
		dv = anyFloat(r)
	case 4:
		dv = r.P(50)
	case 5:
		dv = anyBytes(r)
	case 6:
		dv = anyTime(r)
	}
	var in any
	out := dv
	switch r.N(6) {
	case 0:
		in = anyValuer{dv}
	case 1:
		in = &anyValuer{dv}
	case 2:
		in = &ptrAnyValuer{dv}
	case 3:
		in, out = (*ptrAnyValuer)(nil), nil
	case 4:
		in = anyValuer{dv}
	case 5:
		s := anyString(r)
		n := anyInt(r)
		bt := anyTime(r)
		switch r.N(8) {
		case 0:
			in, out = sql.NullString{String: s, Valid: true}, s
		case 1:
			in, out = sql.NullString{String: s}, nil
		case 2:
			in, out = sql.NullInt64{Int64: n, Valid: true}, n
		case 3:
			in, out = &sql.NullInt64{Int64: n}, nil
		case 4:
			in, out = pq.NullTime{Time: bt, Valid: true}, bt
		case 5:
			in, out = sql.NullTime{}, nil
		case 6:
			in, out = sql.NullBool{Bool: true, Valid: true}, true
		case 7:
			in, out = sql.NullInt32{Int32: int32(n), Valid: true}, int64(int32(n))
		}
	}
	p22Literal(t, in, out)
	v := &Val{Kind: "valuer", In: in, Out: in}
	p22Inside(t, r, v)
	t.Ev("valuers", 1)
	t.Distinct(fmt.Sprintf("%T%v", in, dv))
	if t.idx%500 == 0 {
		// A Valuer which fails is rejected: nothing else can be written for it.
		var text string
		o := try(func() { text = lk.Select("id").Where(lk.Condition("a").Equal(badValuer{})).String() })
		if !o.Panicked || o.Runtime {
			t.Fail("a Valuer which fails is written: %s %s", text, o.Msg)
		}
	}
}

func p22Statements(t *T) {
	o := defaultOpts()
	o.kinds = litKinds
	o.comment = true
	p := newGen(t, o, "", "", "").Any()
	t.conform(p, p.Build(), modeInline)
	t.Ev("literals decoded", len(p.AST.vals()))
	t.Distinct(p.AST.shape())
}

// ------------------------------------------------------------------------------------------------------------------ P23

func init() {
	register(&Check{
		ID: "P23",
		Rule: "the limits of every integer type and their neighbours, powers of two and ten, random numbers, in every type, text and limit or offset statement; " +
			"malformed texts and other types: the number read in the text is exactly the given one (compared as big numbers), otherwise the call is rejected.",
		Require: []string{"numbers rendered exactly", "values rejected", "malformed texts rejected"},
		Families: []Family{
			{Name: "integers", Quick: 30000, Thorough: 500000, Fn: p23Integers},
			{Name: "texts", Quick: 20000, Thorough: 300000, Fn: p23Texts},
			{Name: "types", Quick: len(p23Types) * 4, Thorough: len(p23Types) * 4, Fn: p23OtherTypes},
		},
	})
}

var p23Edges = func() []*big.Int {
	var out []*big.Int
	add := func(x *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			y := new(big.Int).Add(x, big.NewInt(d))
			out = append(out, y, new(big.Int).Neg(y))
		}
	}
	for k := uint(0); k <= 66; k++ {
		add(new(big.Int).Lsh(big.NewInt(1), k))
	}
	for k := int64(0); k <= 22; k++ {
		add(new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}()

// p23Forms gives a number in every type which can hold it.
func p23Forms(n *big.Int) []any {
	var out []any
	if n.IsInt64() {
		x := n.Int64()
		out = append(out, x, int(x))
		if x == int64(int32(x)) {
			out = append(out, int32(x))
		}
		if x == int64(int16(x)) {
			out = append(out, int16(x))
		}
		if x == int64(int8(x)) {
			out = append(out, int8(x))
		}
	}
	if n.IsUint64() {
		x := n.Uint64()
		out = append(out, x, uint(x))
		if x == uint64(uint32(x)) {
			out = append(out, uint32(x))
		}
		if x == uint64(uint16(x)) {
			out = append(out, uint16(x))
		}
		if x == uint64(uint8(x)) {
			out = append(out, uint8(x))
		}
	}
	return append(out, n.String())
}

// p23Judge gives a value to a limit or an offset, with the number it stands for (nil: none).
func p23Judge(t *T, arg any, n *big.Int, limit bool, strict bool) {
	r := t.R("place")
	max := big.NewInt(math.MaxInt64)
	name, min := "LIMIT", int64(1)
	if !limit {
		name, min = "OFFSET", 0
	}
	valid := n != nil && n.Cmp(big.NewInt(min)) >= 0 && n.Cmp(max) <= 0
	var texts []string
	place := r.N(3)
	o := try(func() {
		b := lk.Select("id").From("t")
		if place == 1 {
			if limit {
				b = b.Offset(3)
			} else {
				b = b.Limit(3)
			}
		}
		if limit {
			b = b.Limit(arg)
		} else {
			b = b.Offset(arg)
		}
		if place == 2 {
			b = lk.Select("z").From("t").Where(lk.Condition("z").In(b))
		}
		texts = renderAll(b)
	})
	what := fmt.Sprintf("%s of %T(%v)", name, arg, arg)
	if o.Panicked {
		if o.Runtime {
			t.Fail("%s ends in a runtime fault: %s", what, o.Msg)
		}
		if valid && strict {
			t.Fail("%s is rejected: %s", what, o.Msg)
		}
		if n == nil {
			t.Ev("malformed texts rejected", 1)
		}
		t.Ev("values rejected", 1)
		t.Distinct("rejected", name, fmt.Sprintf("%T%v", arg, arg))
		return
	}
	if !valid {
		t.Fail("%s is accepted: %s", what, texts[0])
	}
	for _, text := range texts {
		ast, err := parseSQL("select", text)
		if err != nil {
			t.Fail("%s cannot be read: %s\n  %s", what, err, text)
		}
		var got []*N
		for _, x := range append(ast.find("limit"), ast.find("offset")...) {
			if x.K == strings.ToLower(name) {
				got = append(got, x)
			}
		}
		if len(got) == 0 && !limit && n.Sign() == 0 {
			continue
		}
		if len(got) != 1 || got[0].T != n.String() {
			t.Fail("%s is rendered as %v\n  %s", what, got, text)
		}
	}
	t.Ev("numbers rendered exactly", 1)
	t.Distinct("rendered", name, fmt.Sprintf("%T%v", arg, arg))
}

func p23Integers(t *T) {
	r := t.R("number")
	var n *big.Int
	if t.idx < len(p23Edges)*10 {
		n = p23Edges[t.idx%len(p23Edges)]
	} else {
		n = new(big.Int).SetUint64(r.U64())
		n.Rsh(n, uint(r.N(64)))
		if r.P(20) {
			n.Neg(n)
		}
	}
	for i, f := range p23Forms(n) {
		p23Judge(t, f, n, (t.idx+i)%2 == 0, true)
	}
	if n.IsInt64() {
		p23Judge(t, lk.Limit(n.Int64()), n, true, true)
		p23Judge(t, lk.Offset(n.Int64()), n, false, true)
		p23Judge(t, stmt.Limit{Count: n.Int64()}, n, true, true)
		p23Judge(t, stmt.Offset{Start: n.Int64()}, n, false, true)
	}
	t.Sample("%s", n)
}

func p23Texts(t *T) {
	r := t.R("text")
	limit := r.P(50)
	n := new(big.Int).SetUint64(r.U64() >> uint(r.N(64)))
	var s string
	var want *big.Int
	strict := false
	switch r.N(8) {
	case 0:
		s, want = pick(r, "0", "00", "000000000")+n.String(), n
	case 1:
		s, want = "+"+n.String(), n
	case 2:
		s = n.String() + pick(r, " ", ".", ".0", "e3", "x", ";", "--", ", 1", " OFFSET 1", "\x00", "_0", "'", "ALL", "\n", "%", "L", "n")
	case 3:
		s = pick(r, " ", "\t", "0x", "0b", "0o", "'", "--", "e", "++", "+-", "\u00a0", "_") + n.String()
	case 4:
		s = pick(r, "", " ", "ALL", "NULL", "NaN", "-", "+", "0x10", "1_000", "1,000", "１２", "٣", "1e3", "1.5", "$1", ":arg_1", "true", "ten", "Infinity", "1 1", "(1)", "1::int")
	case 5:
		s = hostileText(r, 4)
		if _, err := strconv.ParseInt(s, 10, 64); err == nil {
			s += "z"
		}
	case 6:
		d := r.Range(19, 40)
		s = pick(r, "1", "9", "2")
		for i := 0; i < d; i++ {
			s += strconv.Itoa(r.N(10))
		}
		want, _ = new(big.Int).SetString(s, 10)
	case 7:
		s, want, strict = n.String(), n, true
	}
	p23Judge(t, s, want, limit, strict)
}

var p23Types = []any{
	nil, true, false, 1.0, float32(1), 1.5, []byte("1"), []int{1}, [1]int{1}, map[string]int{}, struct{}{}, complex(1, 0), uintptr(1), 'a' + 0.0, time.Duration(1), time.Second,
	encInt64{1}, encString{"1"}, myInt(1), myString("1"), sql.NullInt64{Int64: 1, Valid: true}, lk.Raw("1"), lk.Value(1), lk.Condition("x"), lk.Select("x"), new(int), (*int)(nil), big.NewInt(1),
	stmt.NewWhere(lk.Condition("x")), &stmt.Limit{Count: 1}, &stmt.Offset{Start: 1}, lk.Column("x"), func() int { return 1 }, make(chan int), error(nil), errValuer, valuerS{"1"}, stmt.NewComment("x"),
}

func p23OtherTypes(t *T) {
	arg := p23Types[t.idx%len(p23Types)]
	p23Judge(t, arg, nil, t.idx/len(p23Types)%2 == 0, true)
	if t.idx/len(p23Types) >= 2 {
		// A limit is no offset.
		p23Judge(t, lk.Offset(1), nil, true, true)
		p23Judge(t, lk.Limit(1), nil, false, true)
	}
}
