package main

import (
	"fmt"
	"strconv"
	"strings"
)

// N is a node of a syntax tree. The reference model builds the expected tree, the parser reads the tree back from the
// text rendered by loukoum.
type N struct {
	K string // kind
	T string // text (operator, name...)
	C []*N
	V *Val // bound value (expected trees only)
}

func nd(k, t string, c ...*N) *N { return &N{K: k, T: t, C: c} }

func (n *N) add(c ...*N) *N { n.C = append(n.C, c...); return n }

func (n *N) String() string {
	if n == nil {
		return "<nil>"
	}
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *N) write(b *strings.Builder) {
	b.WriteString(n.K)
	if n.T != "" {
		b.WriteString("[" + n.T + "]")
	}
	if n.V != nil {
		b.WriteString("{" + n.V.Desc() + "}")
	}
	if len(n.C) > 0 {
		b.WriteString("(")
		for i, c := range n.C {
			if i > 0 {
				b.WriteString(" ")
			}
			c.write(b)
		}
		b.WriteString(")")
	}
}

// partsKey identifies a (qualified) name by its exact parts.
func partsKey(parts []string) string {
	q := make([]string, len(parts))
	for i := range parts {
		q[i] = strconv.Quote(parts[i])
	}
	return strings.Join(q, ".")
}

type sqlParser struct {
	toks []Tok
	pos  int
	src  string
}

type parseErr struct{ msg string }

func (p *sqlParser) fail(format string, args ...any) {
	panic(parseErr{fmt.Sprintf(format, args...)})
}

func (p *sqlParser) peek() *Tok {
	if p.pos < len(p.toks) {
		return &p.toks[p.pos]
	}
	return nil
}

func (p *sqlParser) at(i int) *Tok {
	if p.pos+i < len(p.toks) {
		return &p.toks[p.pos+i]
	}
	return nil
}

func (p *sqlParser) where() string {
	t := p.peek()
	if t == nil {
		return "end of statement"
	}
	end := t.Start + 30
	if end > len(p.src) {
		end = len(p.src)
	}
	return fmt.Sprintf("offset %d, near %q", t.Start, p.src[t.Start:end])
}

func isKw(t *Tok, kw string) bool {
	return t != nil && t.Kind == TkIdent && strings.EqualFold(t.Text, kw)
}

func (p *sqlParser) kw(words ...string) bool {
	for i, w := range words {
		if !isKw(p.at(i), w) {
			return false
		}
	}
	p.pos += len(words)
	return true
}

func (p *sqlParser) isKw(words ...string) bool {
	for i, w := range words {
		if !isKw(p.at(i), w) {
			return false
		}
	}
	return true
}

func (p *sqlParser) expectKw(words ...string) {
	if !p.kw(words...) {
		p.fail("expected %s at %s", strings.Join(words, " "), p.where())
	}
}

func (p *sqlParser) isPunct(s string) bool {
	t := p.peek()
	return t != nil && t.Kind == TkPunct && t.Text == s
}

func (p *sqlParser) punct(s string) bool {
	if p.isPunct(s) {
		p.pos++
		return true
	}
	return false
}

func (p *sqlParser) expect(s string) {
	if !p.punct(s) {
		p.fail("expected %q at %s", s, p.where())
	}
}

func (p *sqlParser) op(ops ...string) string {
	t := p.peek()
	if t != nil && t.Kind == TkOp {
		for _, o := range ops {
			if t.Text == o {
				p.pos++
				return o
			}
		}
	}
	return ""
}

// reserved words that cannot be used as an undelimited name.
var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`SELECT FROM WHERE AND OR NOT IN IS LIKE ILIKE BETWEEN AS ON USING GROUP HAVING ORDER LIMIT
		OFFSET INTO VALUES SET RETURNING WITH ONLY INNER LEFT RIGHT FULL CROSS JOIN OUTER NATURAL DISTINCT UNION EXCEPT INTERSECT CASE
		WHEN THEN ELSE END CAST ASC DESC FOR FETCH WINDOW TABLE CREATE DO CONFLICT_ NULL TRUE FALSE DEFAULT_ EXISTS_`) {
		reserved[w] = true
	}
}

func (p *sqlParser) isName() bool {
	t := p.peek()
	if t == nil {
		return false
	}
	return t.Kind == TkQuoted || (t.Kind == TkIdent && !reserved[strings.ToUpper(t.Text)])
}

func (p *sqlParser) namePart() string {
	t := p.peek()
	if !p.isName() {
		p.fail("expected a name at %s", p.where())
	}
	p.pos++
	if t.Kind == TkQuoted {
		return t.Text
	}
	return strings.ToLower(t.Text)
}

// name reads a qualified name. star is true when it ends with .* (or is *).
func (p *sqlParser) name(allowStar bool) (parts []string, star bool) {
	if allowStar && p.op("*") != "" {
		return nil, true
	}
	parts = append(parts, p.namePart())
	for p.isPunct(".") {
		p.pos++
		if allowStar && p.op("*") != "" {
			return parts, true
		}
		parts = append(parts, p.namePart())
	}
	return parts, false
}

func idNode(parts []string, star bool) *N {
	if star {
		return nd("star", partsKey(parts))
	}
	return nd("id", partsKey(parts))
}

// ---------------------------------------------------------------------------------------------------------- expressions

func (p *sqlParser) expr() *N { return p.orExpr() }

func (p *sqlParser) orExpr() *N {
	l := p.andExpr()
	for p.kw("OR") {
		l = nd("or", "", l, p.andExpr())
	}
	return l
}

func (p *sqlParser) andExpr() *N {
	l := p.notExpr()
	for p.kw("AND") {
		l = nd("and", "", l, p.notExpr())
	}
	return l
}

func (p *sqlParser) notExpr() *N {
	if p.isKw("NOT") && !p.isKw("NOT", "EXISTS") {
		p.pos++
		return nd("not", "", p.notExpr())
	}
	return p.isExpr()
}

func (p *sqlParser) isExpr() *N {
	l := p.cmpExpr()
	for {
		switch {
		case p.kw("IS", "NOT", "DISTINCT", "FROM"):
			l = nd("cmp", "IS NOT DISTINCT FROM", l, p.cmpExpr())
		case p.kw("IS", "DISTINCT", "FROM"):
			l = nd("cmp", "IS DISTINCT FROM", l, p.cmpExpr())
		case p.kw("IS", "NOT"):
			l = nd("cmp", "IS NOT", l, p.cmpExpr())
		case p.kw("IS"):
			l = nd("cmp", "IS", l, p.cmpExpr())
		default:
			return l
		}
	}
}

func (p *sqlParser) cmpExpr() *N {
	l := p.likeExpr()
	// Comparison operators are not associative.
	if o := p.op("=", "<", ">", "<=", ">=", "!=", "<>"); o != "" {
		l = nd("cmp", o, l, p.likeExpr())
		if t := p.peek(); t != nil && t.Kind == TkOp && strings.Contains(" = < > <= >= != <> ", " "+t.Text+" ") {
			p.fail("chained comparison at %s", p.where())
		}
	}
	return l
}

func (p *sqlParser) likeExpr() *N {
	l := p.otherExpr()
	for {
		not := ""
		save := p.pos
		if p.isKw("NOT") && !p.isKw("NOT", "EXISTS") {
			p.pos++
			not = "NOT "
		}
		switch {
		case p.kw("LIKE"):
			l = nd("cmp", not+"LIKE", l, p.otherExpr())
		case p.kw("ILIKE"):
			l = nd("cmp", not+"ILIKE", l, p.otherExpr())
		case p.kw("BETWEEN"):
			a := p.otherExpr()
			p.expectKw("AND")
			l = nd("between", not, l, a, p.otherExpr())
		case p.kw("IN"):
			p.expect("(")
			if p.startsSelect() {
				s := p.selectStmt(true)
				p.expect(")")
				l = nd("in", not, l, nd("subq", "", s))
			} else {
				list := nd("list", "")
				if !p.isPunct(")") {
					list.add(p.expr())
					for p.punct(",") {
						list.add(p.expr())
					}
				}
				p.expect(")")
				l = nd("in", not, l, list)
			}
		default:
			p.pos = save
			return l
		}
	}
}

func (p *sqlParser) otherExpr() *N {
	l := p.addExpr()
	for {
		o := p.op("@>", "<@", "&&", "||", "->", "->>", "#>", "~", "~*", "@@", "?", "&", "|")
		if o == "" {
			return l
		}
		l = nd("cmp", o, l, p.addExpr())
	}
}

func (p *sqlParser) addExpr() *N {
	l := p.mulExpr()
	for {
		o := p.op("+", "-")
		if o == "" {
			return l
		}
		l = nd("arith", o, l, p.mulExpr())
	}
}

func (p *sqlParser) mulExpr() *N {
	l := p.unary()
	for {
		o := p.op("*", "/", "%")
		if o == "" {
			return l
		}
		l = nd("arith", o, l, p.unary())
	}
}

func (p *sqlParser) unary() *N {
	if p.op("-") != "" {
		e := p.unary()
		if e.K == "num" && !strings.HasPrefix(e.T, "-") {
			return nd("num", "-"+e.T)
		}
		return nd("neg", "", e)
	}
	if p.op("+") != "" {
		return p.unary()
	}
	e := p.primary()
	for p.op("::") != "" {
		parts, _ := p.name(false)
		e = nd("cast", partsKey(parts), e)
	}
	return e
}

func (p *sqlParser) startsSelect() bool {
	return p.isKw("SELECT") || (p.isKw("WITH") && p.at(1) != nil)
}

func (p *sqlParser) primary() *N {
	t := p.peek()
	if t == nil {
		p.fail("expected an expression at %s", p.where())
	}
	switch t.Kind {
	case TkParam:
		p.pos++
		return nd("param", t.Text)
	case TkNamed:
		p.pos++
		return nd("named", t.Text)
	case TkString:
		p.pos++
		return &N{K: "str", T: t.Text}
	case TkNumber:
		p.pos++
		return nd("num", t.Text)
	case TkPunct:
		if t.Text != "(" {
			p.fail("expected an expression at %s", p.where())
		}
		p.pos++
		if p.startsSelect() {
			s := p.selectStmt(true)
			p.expect(")")
			return nd("subq", "", s)
		}
		e := p.expr()
		if p.isPunct(",") {
			row := nd("row", "", e)
			for p.punct(",") {
				row.add(p.expr())
			}
			p.expect(")")
			return row
		}
		p.expect(")")
		return e
	case TkIdent:
		switch strings.ToUpper(t.Text) {
		case "NULL":
			p.pos++
			return nd("null", "")
		case "TRUE", "FALSE":
			p.pos++
			return nd("bool", strings.ToLower(t.Text))
		case "NOT":
			p.expectKw("NOT", "EXISTS")
			return nd("notexists", "", p.existsArg())
		case "EXISTS":
			p.pos++
			return nd("exists", "", p.existsArg())
		}
	}
	if !p.isName() {
		p.fail("expected an expression at %s", p.where())
	}
	parts, star := p.name(false)
	if !star && p.isPunct("(") {
		p.pos++
		call := nd("call", partsKey(parts))
		if p.kw("DISTINCT") {
			call.T += " DISTINCT"
		}
		if p.op("*") != "" {
			call.add(nd("star", ""))
		} else if !p.isPunct(")") {
			call.add(p.callArg())
			for p.punct(",") {
				call.add(p.callArg())
			}
		}
		p.expect(")")
		return call
	}
	return idNode(parts, star)
}

// callArg allows a bare subquery as the only argument (ARRAY(SELECT ...)).
func (p *sqlParser) callArg() *N {
	if p.startsSelect() {
		return nd("subq", "", p.selectStmt(true))
	}
	return p.expr()
}

func (p *sqlParser) existsArg() *N {
	p.expect("(")
	var n *N
	if p.startsSelect() {
		n = nd("subq", "", p.selectStmt(true))
	} else {
		n = p.expr()
	}
	p.expect(")")
	return n
}

// ----------------------------------------------------------------------------------------------------------- statements

func (p *sqlParser) text(from, to int) string {
	var b []string
	for i := from; i < to; i++ {
		b = append(b, p.src[p.toks[i].Start:p.toks[i].End])
	}
	return strings.Join(b, " ")
}

func (p *sqlParser) with() *N {
	w := nd("with", "")
	for {
		parts, _ := p.name(false)
		q := nd("cte", partsKey(parts))
		p.expectKw("AS")
		p.expect("(")
		if p.startsSelect() {
			q.add(nd("subq", "", p.selectStmt(true)))
		} else {
			q.add(p.expr())
		}
		p.expect(")")
		w.add(q)
		if !p.punct(",") {
			return w
		}
	}
}

func (p *sqlParser) selectItem() *N {
	save := p.pos
	// star
	if p.op("*") != "" {
		return nd("item", "", nd("star", ""))
	}
	if p.isName() {
		parts, star := p.name(true)
		if star {
			return nd("item", "", nd("star", partsKey(parts)))
		}
	}
	p.pos = save
	e := p.expr()
	n := nd("item", "", e)
	if p.kw("AS") {
		n.T = strconv.Quote(p.namePart())
	}
	return n
}

func (p *sqlParser) selectItems(kind string) *N {
	n := nd(kind, "", p.selectItem())
	for p.punct(",") {
		n.add(p.selectItem())
	}
	return n
}

func (p *sqlParser) columnList(kind string) *N {
	p.expect("(")
	n := p.bareColumns(kind)
	p.expect(")")
	return n
}

func (p *sqlParser) bareColumns(kind string) *N {
	n := nd(kind, "")
	for {
		parts, _ := p.name(false)
		n.add(idNode(parts, false))
		if !p.punct(",") {
			return n
		}
	}
}

func (p *sqlParser) table() *N {
	n := nd("table", "")
	if p.kw("ONLY") {
		n.T = "only"
	}
	function := p.peek() != nil && p.peek().Kind == TkIdent // a delimited name is a table
	parts, _ := p.name(false)
	if function && p.isPunct("(") {
		p.pos++
		call := nd("call", partsKey(parts))
		if !p.isPunct(")") {
			call.add(p.callArg())
			for p.punct(",") {
				call.add(p.callArg())
			}
		}
		p.expect(")")
		n.add(call)
	} else {
		n.add(idNode(parts, false))
	}
	if p.kw("AS") {
		n.add(nd("alias", strconv.Quote(p.namePart())))
	}
	return n
}

func (p *sqlParser) tables(kind string) *N {
	n := nd(kind, "", p.table())
	for p.punct(",") {
		n.add(p.table())
	}
	return n
}

func (p *sqlParser) selectStmt(nested bool) *N {
	n := nd("select", "")
	if !nested {
		start := p.pos
		for p.peek() != nil && !p.isKw("SELECT") && !p.isKw("WITH") {
			p.pos++
		}
		if p.pos > start {
			n.add(nd("prefix", p.text(start, p.pos)))
		}
	}
	if p.kw("WITH") {
		n.add(p.with())
	}
	p.expectKw("SELECT")
	if p.kw("DISTINCT", "ON") {
		n.add(p.columnList("distincton"))
	} else if p.kw("DISTINCT") {
		n.add(nd("distinct", ""))
	}
	n.add(p.selectItems("columns"))
	if p.kw("FROM") {
		n.add(p.tables("from"))
	}
	for {
		jt := ""
		switch {
		case p.kw("INNER", "JOIN"):
			jt = "INNER JOIN"
		case p.kw("LEFT", "JOIN"):
			jt = "LEFT JOIN"
		case p.kw("RIGHT", "JOIN"):
			jt = "RIGHT JOIN"
		case p.kw("LEFT", "OUTER", "JOIN"):
			jt = "LEFT OUTER JOIN"
		case p.kw("RIGHT", "OUTER", "JOIN"):
			jt = "RIGHT OUTER JOIN"
		case p.kw("FULL", "OUTER", "JOIN"):
			jt = "FULL OUTER JOIN"
		}
		if jt == "" {
			break
		}
		t := p.table()
		p.expectKw("ON")
		n.add(nd("join", jt, t, p.expr()))
	}
	if p.kw("WHERE") {
		n.add(nd("where", "", p.expr()))
	}
	if p.kw("GROUP", "BY") {
		n.add(p.bareColumns("groupby"))
	}
	if p.kw("HAVING") {
		n.add(nd("having", "", p.expr()))
	}
	if p.kw("ORDER", "BY") {
		o := nd("orderby", "")
		for {
			e := p.expr()
			switch {
			case p.kw("ASC"):
				o.add(nd("order", "ASC", e))
			case p.kw("DESC"):
				o.add(nd("order", "DESC", e))
			default:
				p.fail("expected ASC or DESC at %s", p.where())
			}
			if !p.punct(",") {
				break
			}
		}
		n.add(o)
	}
	for _, k := range []string{"LIMIT", "OFFSET"} {
		if p.kw(k) {
			t := p.peek()
			if t == nil || t.Kind != TkNumber {
				p.fail("expected a number after %s at %s", k, p.where())
			}
			p.pos++
			n.add(nd(strings.ToLower(k), t.Text))
		}
	}
	// Suffix: FOR UPDATE and friends.
	if p.isKw("FOR") {
		start := p.pos
		for p.peek() != nil && p.peek().Kind == TkIdent {
			p.pos++
		}
		n.add(nd("suffix", p.text(start, p.pos)))
	}
	return n
}

func (p *sqlParser) setClause(kind string) *N {
	if p.isPunct("(") {
		n := nd(kind, "list", p.columnList("targets"))
		if p.op("=") == "" {
			p.fail("expected = at %s", p.where())
		}
		p.expect("(")
		if p.startsSelect() {
			n.add(nd("subq", "", p.selectStmt(true)))
		} else {
			l := nd("list", "", p.expr())
			for p.punct(",") {
				l.add(p.expr())
			}
			n.add(l)
		}
		p.expect(")")
		return n
	}
	n := nd(kind, "pairs")
	for {
		parts, _ := p.name(false)
		if p.op("=") == "" {
			p.fail("expected = at %s", p.where())
		}
		// A comparison at the top level of an assigned expression is a valid boolean expression.
		n.add(nd("assign", partsKey(parts), p.expr()))
		if !p.punct(",") {
			return n
		}
	}
}

func (p *sqlParser) insertStmt() *N {
	n := nd("insert", "")
	p.expectKw("INSERT", "INTO")
	n.add(p.table())
	if p.isPunct("(") {
		n.add(p.columnList("columns"))
	}
	if p.kw("VALUES") {
		v := nd("values", "")
		for {
			p.expect("(")
			row := nd("vrow", "", p.expr())
			for p.punct(",") {
				row.add(p.expr())
			}
			p.expect(")")
			v.add(row)
			if !p.punct(",") {
				break
			}
		}
		n.add(v)
	}
	if p.kw("ON", "CONFLICT") {
		c := nd("conflict", "")
		if p.isPunct("(") {
			c.add(p.columnList("target"))
		}
		p.expectKw("DO")
		if p.kw("NOTHING") {
			c.T = "nothing"
		} else {
			p.expectKw("UPDATE", "SET")
			c.T = "update"
			c.add(p.setClause("set"))
		}
		n.add(c)
	}
	if p.kw("RETURNING") {
		n.add(p.selectItems("returning"))
	}
	return n
}

func (p *sqlParser) updateStmt() *N {
	n := nd("update", "")
	if p.kw("WITH") {
		n.add(p.with())
	}
	p.expectKw("UPDATE")
	n.add(p.table())
	p.expectKw("SET")
	n.add(p.setClause("set"))
	if p.kw("FROM") {
		n.add(p.tables("from"))
	}
	if p.kw("WHERE") {
		n.add(nd("where", "", p.expr()))
	}
	if p.kw("RETURNING") {
		n.add(p.selectItems("returning"))
	}
	return n
}

func (p *sqlParser) deleteStmt() *N {
	n := nd("delete", "")
	p.expectKw("DELETE", "FROM")
	n.add(p.tables("from"))
	if p.kw("USING") {
		n.add(p.tables("using"))
	}
	if p.kw("WHERE") {
		n.add(nd("where", "", p.expr()))
	}
	if p.kw("RETURNING") {
		n.add(p.selectItems("returning"))
	}
	return n
}

// parseSQL reads a complete statement of the given kind, with its trailing comment.
func parseSQL(kind, src string) (n *N, err error) {
	toks, err := tokenize(src)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{src: src}
	var comment *Tok
	for i := range toks {
		if toks[i].Kind == TkComment {
			if i != len(toks)-1 || strings.HasPrefix(src[toks[i].Start:], "/*") {
				return nil, fmt.Errorf("unexpected comment at offset %d", toks[i].Start)
			}
			comment = &toks[i]
			continue
		}
		p.toks = append(p.toks, toks[i])
	}
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(parseErr)
			if !ok {
				panic(r)
			}
			n, err = nil, fmt.Errorf("%s", pe.msg)
		}
	}()
	switch kind {
	case "select":
		n = p.selectStmt(false)
	case "insert":
		n = p.insertStmt()
	case "update":
		n = p.updateStmt()
	case "delete":
		n = p.deleteStmt()
	default:
		panic("unknown kind " + kind)
	}
	if comment != nil {
		p.expect(";")
		n.add(nd("comment", strings.TrimSpace(comment.Text)))
	}
	if p.pos != len(p.toks) {
		p.fail("unexpected text at %s", p.where())
	}
	return n, nil
}

// parseExpr reads a complete expression.
func parseExpr(src string) (n *N, err error) {
	toks, err := tokenize(src)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{src: src, toks: toks}
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(parseErr)
			if !ok {
				panic(r)
			}
			n, err = nil, fmt.Errorf("%s", pe.msg)
		}
	}()
	n = p.expr()
	if p.pos != len(p.toks) {
		p.fail("unexpected text at %s", p.where())
	}
	return n, nil
}

func mustExpr(src string) *N {
	n, err := parseExpr(src)
	if err != nil {
		panic(fmt.Sprintf("harness: cannot parse fragment %q: %s", src, err))
	}
	return n
}
