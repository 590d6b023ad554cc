package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/jackc/pgx/v5/pgtype"
	"github.com/lib/pq"
	lk "github.com/ulule/loukoum/v3"
)

// Val is a value given to loukoum, and what is expected from it.
type Val struct {
	Kind string
	In   any  // given to the API
	Out  any  // expected argument
	Null bool // expected to be NULL in the text, without any argument
}

func (v *Val) Desc() string {
	if v.Null {
		return v.Kind + ":NULL"
	}
	return v.Kind + ":" + brief(v.Out)
}

func brief(x any) string {
	s := fmt.Sprintf("%T(%#v)", x, x)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// sameArg tells if an argument is the expected value: same type, same content (identity for pointers).
func sameArg(got, want any) bool {
	if got == nil || want == nil {
		return got == nil && want == nil
	}
	gt, wt := reflect.TypeOf(got), reflect.TypeOf(want)
	if gt != wt {
		return false
	}
	switch w := want.(type) {
	case float32:
		return math.Float32bits(w) == math.Float32bits(got.(float32))
	case float64:
		return math.Float64bits(w) == math.Float64bits(got.(float64))
	case time.Time:
		// Same instant, same location, same monotonic reading.
		return reflect.DeepEqual(w, got)
	case []byte:
		g := got.([]byte)
		return (g == nil) == (w == nil) && bytes.Equal(g, w)
	}
	if wt.Kind() == reflect.Ptr {
		return reflect.ValueOf(got).Pointer() == reflect.ValueOf(want).Pointer()
	}
	return reflect.DeepEqual(got, want)
}

// A driver.Valuer.
type valuerS struct{ S string }

func (v valuerS) Value() (driver.Value, error) { return v.S, nil }

// A driver.Valuer with a pointer receiver.
type valuerP struct{ N int64 }

func (v *valuerP) Value() (driver.Value, error) { return v.N, nil }

// A driver.Valuer that would also be an encoder: a Valuer is bound as it is.
type valuerStr struct{ N int64 }

func (v valuerStr) Value() (driver.Value, error) { return v.N, nil }
func (v valuerStr) String() string               { return "never" }

type encInt64 struct{ N int64 }

func (e encInt64) Int64() int64 { return e.N }

type encBool struct{ B bool }

func (e encBool) Bool() bool { return e.B }

type encTime struct{ T time.Time }

func (e encTime) Time() time.Time { return e.T }

type encString struct{ S string }

func (e encString) String() string { return e.S }

type namedString string

func (e namedString) String() string { return "<" + string(e) + ">" }

type unsupportedStruct struct{ A int }

var errValuer = errors.New("harness: valuer")

// Hostile fragments: anything that means something for SQL, for placeholders or for Go formatting.
var hostile = []string{
	"'", "\"", "\\", "''", "\"\"", "\\'", "$1", "$2", "$$", ":arg_1", ":arg_2", "::", "?", "--", "/*", "*/", ";", "; DROP TABLE users; --",
	"' OR '1'='1", "\x01", "\n", "\r", "\t", "\r\n", "%s", "%d", "%!", "{{", "}}", "(", ")", ",", ".", "*", "NULL", "E'", "é", "日本語",
	"😀", "\u2028", "\u00a0", "\u0130", "ß", "ǅ", "\ufeff", "\u202e", "a\u0301", " ", "  ", "\b", "\f", "\v", "\x7f", "\u0085", "`", "=", "@>", "AND", "OR",
	"SELECT", "arg_1", "$10", "\\x41", "\\n", "\\u0041", "U&'", "#", "&&", "|", "[", "]", "true", "0", "-1", "1e5",
}

func hostileText(r *R, maxParts int) string {
	var b strings.Builder
	for i, n := 0, r.N(maxParts+1); i < n; i++ {
		switch r.N(4) {
		case 0:
			b.WriteString(pick(r, "abc", "x", "Foo", "user_id", "Z9"))
		case 1:
			b.WriteRune(rune(r.Range(1, 0x24f)))
		default:
			b.WriteString(hostile[r.N(len(hostile))])
		}
	}
	return b.String()
}

// Texts that an implementation could be tempted to handle as something else than a value.
var special = []string{
	"", " ", "NULL", "null", "NOW()", "now()", "DEFAULT", "default", "CURRENT_TIMESTAMP", "*", "users.id", "id", "true", "false", "0", "1", "-1", "$1", ":arg_1", "?",
	"SELECT 1", "(SELECT 1)", "(1, 2)", "a,b", "{1,2}", "[1,2]", "ARRAY[1]", "''", "\"id\"", "2020-01-01", "infinity", "NaN", "\\x00", "%", "_", "%s", "x'00'", "::text", "--",
}

func anyString(r *R) string {
	switch r.N(9) {
	case 8:
		return special[r.N(len(special))]
	case 0:
		return ""
	case 1:
		return "value-" + strconv.Itoa(r.N(1000))
	case 2:
		return strings.Repeat(pick(r, "x", "'", "\\", "é", "--"), r.N(300))
	default:
		return hostileText(r, 8)
	}
}

// nonEmpty strings are unique enough to be recognized in a text.
func plainString(r *R) string {
	return pick(r, "alpha", "beta", "gamma", "delta", "omega") + strconv.Itoa(r.N(100000))
}

func anyStrings(r *R, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = anyString(r)
	}
	return out
}

func anyInt(r *R) int64 {
	switch r.N(6) {
	case 0:
		return pick(r, int64(0), 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 127, -128, 255, 256, 65535, 1<<53, 1<<53+1)
	case 1:
		return -int64(r.N(100000))
	case 2:
		return int64(r.U64())
	default:
		return int64(r.N(100000))
	}
}

func anyFloat(r *R) float64 {
	switch r.N(6) {
	case 0:
		return pick(r, 0.0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e-21, math.MaxFloat64, math.SmallestNonzeroFloat64, 1.0/3, 123456789.125, -2.5e-8)
	case 1:
		for {
			f := math.Float64frombits(r.U64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	default:
		return float64(r.N(2000000)-1000000) / 64
	}
}

func anyFloat32(r *R) float32 {
	for {
		f := math.Float32frombits(uint32(r.U64()))
		if r.P(60) {
			f = float32(r.N(200000)-100000) / 16
		}
		if f == f && !math.IsInf(float64(f), 0) {
			return f
		}
	}
}

func anyBytes(r *R) []byte {
	b := make([]byte, r.N(20))
	for i := range b {
		b[i] = byte(r.U64())
	}
	if r.P(30) {
		b = []byte(hostileText(r, 4))
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

var zones = []*time.Location{
	time.UTC, time.FixedZone("plus", 5*3600+1800), time.FixedZone("minus", -8*3600), time.FixedZone("odd", 3600+17*60+30), time.FixedZone("", 0),
}

func anyTime(r *R) time.Time {
	switch r.N(40) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(0, 0).UTC()
	}
	year := r.Range(1, 9999)
	if r.P(70) {
		year = r.Range(1900, 2100)
	}
	ns := 0
	switch r.N(5) {
	case 0:
		ns = r.N(1000000) * 1000
	case 1:
		ns = r.N(1000) * 1000000
	case 2:
		ns = pick(r, 1000, 999999000, 100000000, 10000, 123456000)
	case 3:
		ns = r.N(1000000000)
	}
	// Keep one day of margin around the supported years: the literal is written in UTC.
	z, zone := r.N(len(zones)+1), localZone
	if z < len(zones) {
		zone = zones[z]
	}
	return time.Date(year, time.Month(r.Range(1, 12)), r.Range(2, 27), r.N(24), r.N(60), r.N(60), ns, zone)
}

// localZone is the zone of this process, which differs between the processes of a check (but for P05, which compares them).
var localZone = time.Local

// kinds of values. The generator of a kind only draws contents from r: two values of the same kind have the same Go
// type and nil-ness.
type kindDef struct {
	name string
	list bool // expanded by the positions that take a list
	lit  bool // its inlined literal can be decoded
	gen  func(r *R) Val
}

func val(in any) Val { return Val{In: in, Out: in} }

var kindDefs = []kindDef{
	{"nil", false, true, func(r *R) Val { return Val{In: nil, Null: true} }},
	{"string", false, true, func(r *R) Val { return val(anyString(r)) }},
	{"bool", false, true, func(r *R) Val { return val(r.P(50)) }},
	{"int", false, true, func(r *R) Val { return val(int(anyInt(r))) }},
	{"int8", false, true, func(r *R) Val { return val(int8(anyInt(r))) }},
	{"int16", false, true, func(r *R) Val { return val(int16(anyInt(r))) }},
	{"int32", false, true, func(r *R) Val { return val(int32(anyInt(r))) }},
	{"int64", false, true, func(r *R) Val { return val(anyInt(r)) }},
	{"uint", false, true, func(r *R) Val { return val(uint(anyInt(r))) }},
	{"uint8", false, true, func(r *R) Val { return val(uint8(anyInt(r))) }},
	{"uint16", false, true, func(r *R) Val { return val(uint16(anyInt(r))) }},
	{"uint32", false, true, func(r *R) Val { return val(uint32(anyInt(r))) }},
	{"uint64", false, true, func(r *R) Val { return val(uint64(anyInt(r))) }},
	{"float32", false, true, func(r *R) Val { return val(anyFloat32(r)) }},
	{"float64", false, true, func(r *R) Val { return val(anyFloat(r)) }},
	{"bytes", false, true, func(r *R) Val { return val(anyBytes(r)) }},
	{"nilbytes", false, false, func(r *R) Val { return val([]byte(nil)) }},
	{"rawstring", false, false, func(r *R) Val { return val(string(anyBytes(r)) + "\x00" + anyString(r) + "\xff") }},
	{"floatspecial", false, false, func(r *R) Val { return val(pick(r, math.NaN(), math.Inf(1), math.Inf(-1))) }},
	{"nilstrings", true, false, func(r *R) Val { return val([]string(nil)) }},
	{"nilint64s", true, false, func(r *R) Val { return val([]int64(nil)) }},
	{"nilmapsi", false, false, func(r *R) Val { return val(map[string]interface{}(nil)) }},
	{"emptymapss", false, false, func(r *R) Val { return val(map[string]string{}) }},
	{"timenow", false, false, func(r *R) Val { return val(bootTime.Add(time.Duration(r.N(1e9)))) }},
	{"strings0", true, false, func(r *R) Val { return val([]string{}) }},
	{"strings1", true, false, func(r *R) Val { return val([]string{anyString(r)}) }},
	{"stringsn", true, false, func(r *R) Val { return val(anyStrings(r, r.Range(3, 20))) }},
	{"int64s0", true, false, func(r *R) Val { return val([]int64{}) }},
	{"int64s1", true, false, func(r *R) Val { return val([]int64{anyInt(r)}) }},
	{"timefar", false, false, func(r *R) Val {
		if r.P(50) {
			return val(anyTime(r))
		}
		// Years which are not written with four digits.
		return val(time.Date(pick(r, 10000, 12000, 99999, 294276, 300000, 0, -1, -44, -4712, -100000), time.Month(r.Range(1, 12)), r.Range(1, 28),
			r.N(24), r.N(60), r.N(60), r.N(1e9), zones[r.N(len(zones))]))
	}},
	{"mapssn", false, false, func(r *R) Val {
		m := map[string]string{}
		for _, s := range anyStrings(r, 12) {
			m[s] = s
		}
		return val(m)
	}},
	{"emptymapsi", false, false, func(r *R) Val { return val(map[string]interface{}{}) }},
	{"nilmapss", false, false, func(r *R) Val { return val(map[string]string(nil)) }},
	{"pgarrays0", false, false, func(r *R) Val { return val(pgtype.FlatArray[string]{}) }},
	{"pgarraysnil", false, false, func(r *R) Val { return val(pgtype.FlatArray[string](nil)) }},
	{"pgarrayi0", false, false, func(r *R) Val { return val(pgtype.FlatArray[int64]{}) }},
	{"pgarrayinil", false, false, func(r *R) Val { return val(pgtype.FlatArray[int64](nil)) }},
	{"pgrange0", false, false, func(r *R) Val { return val(pgtype.Range[int64]{}) }},
	{"pgrangeempty", false, false, func(r *R) Val {
		return val(pgtype.Range[int64]{LowerType: pgtype.Empty, UpperType: pgtype.Empty, Valid: true})
	}},
	{"pgint80", false, true, func(r *R) Val { return val(pgtype.Int8{}) }},
	{"pgtext", false, true, func(r *R) Val { return val(pgtype.Text{String: anyString(r), Valid: r.P(80)}) }},
	{"int64s", true, false, func(r *R) Val { return val([]int64{anyInt(r), anyInt(r)}) }},
	{"strings", true, false, func(r *R) Val { return val([]string{anyString(r), anyString(r)}) }},
	{"mapss", false, false, func(r *R) Val { return val(map[string]string{"k" + anyString(r): anyString(r)}) }},
	{"mapsi", false, false, func(r *R) Val { return val(map[string]interface{}{"k": anyString(r), "n": anyInt(r)}) }},
	{"time", false, true, func(r *R) Val { return val(anyTime(r)) }},
	{"ptrtime", false, true, func(r *R) Val { t := anyTime(r); return Val{In: &t, Out: t} }},
	{"nilptrtime", false, true, func(r *R) Val { return Val{In: (*time.Time)(nil), Null: true} }},
	{"nullstring", false, true, func(r *R) Val { return val(sql.NullString{String: anyString(r), Valid: true}) }},
	{"nullstring0", false, true, func(r *R) Val { return val(sql.NullString{String: anyString(r)}) }},
	{"nullint64", false, true, func(r *R) Val { return val(sql.NullInt64{Int64: anyInt(r), Valid: true}) }},
	{"nullint640", false, true, func(r *R) Val { return val(sql.NullInt64{}) }},
	{"nullbool", false, true, func(r *R) Val { return val(sql.NullBool{Bool: r.P(50), Valid: true}) }},
	{"nullfloat64", false, true, func(r *R) Val { return val(sql.NullFloat64{Float64: anyFloat(r), Valid: true}) }},
	{"nulltime", false, true, func(r *R) Val { return val(sql.NullTime{Time: anyTime(r), Valid: true}) }},
	{"pqnulltime", false, true, func(r *R) Val { return val(pq.NullTime{Time: anyTime(r), Valid: true}) }},
	{"pqnulltime0", false, true, func(r *R) Val { return val(pq.NullTime{}) }},
	{"valuer", false, true, func(r *R) Val { return val(valuerS{anyString(r)}) }},
	{"ptrvaluer", false, true, func(r *R) Val { return val(&valuerP{anyInt(r)}) }},
	{"nilptrvaluer", false, true, func(r *R) Val { return val((*valuerP)(nil)) }},
	{"valuerstring", false, true, func(r *R) Val { return val(valuerStr{anyInt(r)}) }},
	{"pgint8", false, true, func(r *R) Val { return val(pgtype.Int8{Int64: anyInt(r), Valid: true}) }},
	{"pgrange", false, false, func(r *R) Val {
		return val(pgtype.Range[int64]{Lower: anyInt(r), Upper: anyInt(r), LowerType: pgtype.Inclusive, UpperType: pgtype.Exclusive, Valid: true})
	}},
	{"pgtrange", false, false, func(r *R) Val {
		return val(pgtype.Range[time.Time]{Lower: anyTime(r), Upper: anyTime(r), LowerType: pgtype.Inclusive, UpperType: pgtype.Unbounded, Valid: true})
	}},
	{"pgarrays", false, false, func(r *R) Val { return val(pgtype.FlatArray[string]{anyString(r), anyString(r)}) }},
	{"pgarrayi", false, false, func(r *R) Val { return val(pgtype.FlatArray[int64]{anyInt(r)}) }},
	{"pqstrings", false, true, func(r *R) Val { return val(pq.StringArray{anyString(r), anyString(r)}) }},
	{"pqint64s", false, true, func(r *R) Val { return val(pq.Int64Array{anyInt(r)}) }},
	{"pqstrings0", false, true, func(r *R) Val { return val(pq.StringArray(nil)) }},
	{"encint64", false, true, func(r *R) Val { n := anyInt(r); return Val{In: encInt64{n}, Out: n} }},
	{"encbool", false, true, func(r *R) Val { b := r.P(50); return Val{In: encBool{b}, Out: b} }},
	{"enctime", false, true, func(r *R) Val { t := anyTime(r); return Val{In: encTime{t}, Out: t} }},
	{"encstring", false, true, func(r *R) Val { s := anyString(r); return Val{In: encString{s}, Out: s} }},
	{"ptrencstring", false, true, func(r *R) Val { s := anyString(r); return Val{In: &encString{s}, Out: s} }},
	{"namedstring", false, true, func(r *R) Val { s := anyString(r); return Val{In: namedString(s), Out: "<" + s + ">"} }},
	{"duration", false, true, func(r *R) Val { d := time.Duration(anyInt(r)); return Val{In: d, Out: d.String()} }},
	{"lkvalue", false, true, func(r *R) Val { s := anyString(r); return Val{In: lk.Value(s), Out: s} }},
	{"lkvaluenil", false, true, func(r *R) Val { return Val{In: lk.Value(nil), Null: true} }},
	{"lkvalueany", false, false, func(r *R) Val { s := unsupportedStruct{int(anyInt(r))}; return Val{In: lk.Value(s), Out: s} }},
	{"lkvalueslice", false, false, func(r *R) Val { s := []int{r.N(100), r.N(100)}; return Val{In: lk.Value(s), Out: s} }},
}

// bootTime has a monotonic clock reading.
var bootTime = time.Now()

var kindByName = map[string]*kindDef{}
var litKinds, allKinds, scalarKinds []string

// stableKinds are the scalar kinds whose values are the same when they are generated again, in any process.
var stableKinds, stableLitKinds []string

// boundKinds always produce exactly one argument.
var boundKinds []string

// Ready before the registration of the checks.
var _ = setupKinds()

func setupKinds() bool {
	for i := range kindDefs {
		k := &kindDefs[i]
		kindByName[k.name] = k
		allKinds = append(allKinds, k.name)
		if k.lit {
			litKinds = append(litKinds, k.name)
		}
		if !k.list {
			scalarKinds = append(scalarKinds, k.name)
			if k.name != "ptrvaluer" && k.name != "timenow" {
				stableKinds = append(stableKinds, k.name)
				if k.lit {
					stableLitKinds = append(stableLitKinds, k.name)
				}
			}
		}
		if v := k.gen(newR(1)); !v.Null {
			boundKinds = append(boundKinds, k.name)
		}
	}
	return true
}

func makeVal(kind string, r *R) *Val {
	v := kindByName[kind].gen(r)
	v.Kind = kind
	return &v
}

// typed slices, which are expanded to one value per element by IN and VALUES.
type sliceDef struct {
	name string
	kind string
	mk   func(vals []*Val) any
}

func mkSlice[T any](name, kind string) sliceDef {
	return sliceDef{name, kind, func(vals []*Val) any {
		out := make([]T, len(vals))
		for i := range vals {
			out[i] = vals[i].In.(T)
		}
		return out
	}}
}

var sliceDefs = []sliceDef{
	mkSlice[string]("[]string", "string"), mkSlice[int]("[]int", "int"), mkSlice[uint]("[]uint", "uint"), mkSlice[int8]("[]int8", "int8"),
	mkSlice[int16]("[]int16", "int16"), mkSlice[uint16]("[]uint16", "uint16"), mkSlice[int32]("[]int32", "int32"),
	mkSlice[uint32]("[]uint32", "uint32"), mkSlice[int64]("[]int64", "int64"), mkSlice[uint64]("[]uint64", "uint64"),
	mkSlice[bool]("[]bool", "bool"), mkSlice[float32]("[]float32", "float32"), mkSlice[float64]("[]float64", "float64"),
	mkSlice[[]byte]("[][]byte", "bytes"),
}

// ------------------------------------------------------------------------------------------------------ inlined literals

// litDenotes tells if the tree of an inlined literal denotes v.
func litDenotes(n *N, out any) string {
	if dv, ok := out.(driver.Valuer); ok {
		if _, isTime := out.(time.Time); !isTime {
			rv := reflect.ValueOf(out)
			if rv.Kind() == reflect.Ptr && rv.IsNil() {
				return litDenotes(n, nil)
			}
			x, err := dv.Value()
			if err != nil {
				return "valuer error"
			}
			return litDenotes(n, x)
		}
	}
	bad := func() string { return fmt.Sprintf("literal %s does not denote %s", n, brief(out)) }
	switch v := out.(type) {
	case nil:
		if n.K != "null" {
			return bad()
		}
	case string:
		if n.K != "str" || n.T != strings.ToValidUTF8(v, "\ufffd") {
			return bad()
		}
	case bool:
		if n.K != "bool" || n.T != strconv.FormatBool(v) {
			return bad()
		}
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		if n.K != "num" || n.T != fmt.Sprint(v) {
			return bad()
		}
	case float32:
		// The literal may be the shortest text of the 64 bits value: compare as 32 bits numbers.
		f, err := strconv.ParseFloat(n.T, 64)
		if n.K != "num" || err != nil || float32(f) != v {
			return bad()
		}
	case float64:
		f, err := strconv.ParseFloat(n.T, 64)
		if n.K != "num" || err != nil || f != v {
			return bad()
		}
	case []byte:
		if n.K != "call" || n.T != partsKey([]string{"decode"}) || len(n.C) != 2 || n.C[0].K != "str" || n.C[1].K != "str" || n.C[1].T != "hex" ||
			n.C[0].T != fmt.Sprintf("%x", v) {
			return bad()
		}
	case time.Time:
		if n.K != "str" || !timeDenotes(n.T, v) {
			return bad()
		}
	default:
		return fmt.Sprintf("harness: no literal for %T", out)
	}
	return ""
}

// timeDenotes reads a timestamp with time zone literal: YYYY-MM-DD HH:MM:SS[.ffffff](+HH[:MM[:SS]]|Z), own parser.
func timeDenotes(s string, want time.Time) bool {
	num := func(a, b int) int {
		if b > len(s) {
			return -1
		}
		n, err := strconv.Atoi(s[a:b])
		if err != nil || s[a] == '+' || s[a] == '-' {
			return -1
		}
		return n
	}
	if len(s) < 20 || s[4] != '-' || s[7] != '-' || (s[10] != ' ' && s[10] != 'T') || s[13] != ':' || s[16] != ':' {
		return false
	}
	y, mo, d, h, mi, se := num(0, 4), num(5, 7), num(8, 10), num(11, 13), num(14, 16), num(17, 19)
	if y < 0 || mo < 0 || d < 0 || h < 0 || mi < 0 || se < 0 {
		return false
	}
	i, micro := 19, 0
	if i < len(s) && s[i] == '.' {
		j, scale := i+1, 100000
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			micro += int(s[j]-'0') * scale
			scale /= 10
			j++
		}
		if j == i+1 || j-i-1 > 6 {
			return false
		}
		i = j
	}
	off := 0
	zone := s[i:]
	if zone != "Z" && zone != "z" {
		if zone == "" || (zone[0] != '+' && zone[0] != '-') {
			return false // without a zone the literal depends on the session
		}
		parts := strings.Split(zone[1:], ":")
		if len(parts) > 3 {
			return false
		}
		for k, p := range parts {
			n, err := strconv.Atoi(p)
			if err != nil || len(p) != 2 {
				return false
			}
			off += n * []int{3600, 60, 1}[k]
		}
		if zone[0] == '-' {
			off = -off
		}
	}
	got := time.Date(y, time.Month(mo), d, h, mi, se, micro*1000, time.UTC).Add(-time.Duration(off) * time.Second)
	diff := got.Sub(want)
	// Truncated or rounded to the microsecond.
	return diff > -time.Microsecond && diff < time.Microsecond
}
