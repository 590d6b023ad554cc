package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

// Family is a set of cases of a check, generated from VERIF_SEED and their index.
type Family struct {
	Name            string
	Quick, Thorough int
	AllShards       bool // every shard runs every case (cross-process comparisons)
	Fn              func(t *T)
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string   // how cases are made, and what makes one non-trivial
	Require     []string // events which must have been observed, otherwise the run is inconclusive
	Assumptions []string
	HangFails   bool // the property itself forbids endless loops and memory exhaustion
	Race        bool // built and executed with the race detector
	Shards      int  // 0: default
	Families    []Family
	Finish      func(results []*Result) []Violation
}

// Violation is an observed violation of a property.
type Violation struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Family   string `json:"family"`
	Index    int    `json:"index"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Key      string `json:"key"` // identifies the failing input, used by the known findings
	Detail   string `json:"detail"`
}

// Result is what a worker observed.
type Result struct {
	Shard       int               `json:"shard"`
	Evaluations int               `json:"evaluations"`
	PerFamily   map[string]int    `json:"per_family"`
	Events      map[string]int    `json:"events"`
	Samples     []string          `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Blobs       map[string]string `json:"blobs"`
	Err         string            `json:"err"`
	distinct    map[uint64]bool
}

// W is a worker: it executes a shard of the cases of a check.
type W struct {
	check    *Check
	seed     uint64
	tier     string
	shard    int
	shards   int
	res      *Result
	progress *os.File
	only     string
	onlyIdx  int
	early    string // violations are also written there as soon as they are observed
	verbose  bool
}

// T is one case.
type T struct {
	w      *W
	fam    *Family
	idx    int
	trace  []string
	sample bool
	tiny   bool // everything is taken from few names and values
	huge   int  // the longest part of the generated programs, or 0
}

type stopCase struct{}

func hash64(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// R derives a stream of random choices for this case.
func (t *T) R(stream string) *R {
	return newR(t.w.seed, hash64(t.w.check.ID), hash64(t.fam.Name), uint64(t.idx), hash64(stream))
}

func (t *T) Thorough() bool { return t.w.tier == "thorough" }

// Ev counts observed events.
func (t *T) Ev(name string, n int) { t.w.res.Events[name] += n }

// Distinct records a distinct non-trivial observation.
func (t *T) Distinct(parts ...string) {
	t.w.res.distinct[hash64(strings.Join(parts, "\x00"))] = true
}

// Sample keeps a few cases for the evidence.
func (t *T) Sample(format string, args ...any) {
	if t.sample || len(t.w.res.Samples) >= 6 {
		return
	}
	for _, s := range t.w.res.Samples {
		if strings.HasPrefix(s, t.fam.Name+":") {
			return
		}
	}
	t.sample = true
	s := fmt.Sprintf(t.fam.Name+": "+format, args...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	t.w.res.Samples = append(t.w.res.Samples, s)
}

func (t *T) Blob(key, value string) { t.w.res.Blobs[key] = value }

// Trace adds a line to the detail of a violation.
func (t *T) Trace(format string, args ...any) {
	t.trace = append(t.trace, fmt.Sprintf(format, args...))
}

// Fail records a violation and ends the case.
func (t *T) Fail(format string, args ...any) { t.FailKey("", format, args...) }

// FailKey is Fail for an input that can be identified by a stable key.
func (t *T) FailKey(key, format string, args ...any) {
	t.record(key, fmt.Sprintf(format, args...))
	panic(stopCase{})
}

func (t *T) record(key, msg string) {
	detail := msg
	if len(t.trace) > 0 {
		detail += "\n--- trace\n" + strings.Join(t.trace, "\n")
	}
	if len(detail) > 20000 {
		detail = detail[:20000] + "..."
	}
	t.w.res.Violations = append(t.w.res.Violations, Violation{
		Property: t.w.check.ID, Seed: t.w.seed, Tier: t.w.tier, Family: t.fam.Name, Index: t.idx,
		Shard: t.w.shard, Shards: t.w.shards, Key: key, Detail: detail,
	})
}

// outcome of a call on loukoum.
type outcome struct {
	Panicked bool
	Runtime  bool // the panic is a Go runtime fault
	Msg      string
	Stack    string
}

func (o outcome) String() string {
	if !o.Panicked {
		return "ok"
	}
	return "panic: " + o.Msg
}

const loukoumPkg = "github.com/ulule/loukoum/v3"

// try executes fn and captures its panic.
func try(fn func()) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			if pe, ok := r.(parseErr); ok {
				panic(pe)
			}
			o.Panicked = true
			_, o.Runtime = r.(runtime.Error)
			o.Msg = fmt.Sprint(r)
			o.Stack = string(debug.Stack())
		}
	}()
	fn()
	return
}

// fromLoukoum reports whether the panic was raised by loukoum (or below it), rather than by the harness.
func (o outcome) fromLoukoum() bool {
	// Frames after the panic call, innermost first.
	i := strings.Index(o.Stack, "panic(")
	if i < 0 {
		return false
	}
	for _, line := range strings.Split(o.Stack[i:], "\n") {
		if strings.HasPrefix(line, "\t") {
			continue
		}
		if strings.HasPrefix(line, loukoumPkg+"/") || strings.HasPrefix(line, loukoumPkg+".") {
			return true
		}
		if strings.HasPrefix(line, "main.") {
			// Callbacks of the harness called by loukoum (encoders, valuers, contexts) never panic.
			return false
		}
	}
	return false
}

func (w *W) runCase(f *Family, idx int) {
	t := &T{w: w, fam: f, idx: idx}
	if w.progress != nil {
		var buf [16]byte
		binary.LittleEndian.PutUint64(buf[:8], uint64(w.res.Evaluations+1))
		binary.LittleEndian.PutUint64(buf[8:], uint64(idx))
		_, _ = w.progress.WriteAt(buf[:], 0)
		if w.res.Evaluations == 0 || idx < w.shards {
			_, _ = w.progress.WriteAt([]byte(fmt.Sprintf("%-64s", f.Name)), 16)
		}
	}
	w.res.Evaluations++
	w.res.PerFamily[f.Name]++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			o := outcome{Panicked: true, Msg: fmt.Sprint(r), Stack: string(debug.Stack())}
			_, o.Runtime = r.(runtime.Error)
			if o.fromLoukoum() {
				t.record("", "unexpected panic on a valid program: "+o.Msg+"\n"+o.Stack)
				return
			}
			w.res.Err = fmt.Sprintf("harness fault in %s/%s/%d: %s\n%s", w.check.ID, f.Name, idx, o.Msg, o.Stack)
		}
	}()
	f.Fn(t)
}

// count is the number of cases of a family. The sampled families (not the enumerated ones) of the quick checks are
// extended when they are cheap.
func (f *Family) count(c *Check, tier string) int {
	switch {
	case tier == "thorough":
		return f.Thorough
	case f.Thorough < 4*f.Quick || slowQuick[c.ID]:
		return f.Quick
	case f.Thorough < 12*f.Quick || !fastQuick[c.ID]:
		return 3 * f.Quick
	default:
		return 10 * f.Quick
	}
}

// fastQuick are the checks which take a few seconds.
var fastQuick = map[string]bool{"P08": true, "P12": true, "P15": true, "P17": true, "P18": true, "P22": true, "P26": true, "P28": true, "P29": true, "P30": true, "P32": true}

var slowQuick = map[string]bool{"P07": true, "P09": true, "P27": true, "P31": true}

const maxViolations = 10

func (w *W) run() {
	w.res = &Result{Shard: w.shard, PerFamily: map[string]int{}, Events: map[string]int{}, Blobs: map[string]string{},
		distinct: map[uint64]bool{}}
	for i := range w.check.Families {
		f := &w.check.Families[i]
		if w.only != "" && w.only != f.Name {
			continue
		}
		n := f.count(w.check, w.tier)
		for idx := 0; idx < n; idx++ {
			if w.only != "" && w.onlyIdx >= 0 && w.onlyIdx != idx {
				continue
			}
			if !f.AllShards && w.only == "" && idx%w.shards != w.shard {
				continue
			}
			before := len(w.res.Violations)
			w.runCase(f, idx)
			if len(w.res.Violations) > before && w.early != "" {
				// The process may be killed later by a case that never ends.
				b, _ := json.Marshal(w.res.Violations)
				_ = os.WriteFile(w.early, b, 0o644)
			}
			if len(w.res.Violations) >= maxViolations || w.res.Err != "" {
				return
			}
		}
	}
}

func (w *W) write(path string) error {
	b, err := json.Marshal(w.res)
	if err != nil {
		return err
	}
	if err = os.WriteFile(path, b, 0o644); err != nil {
		return err
	}
	keys := make([]uint64, 0, len(w.res.distinct))
	for k := range w.res.distinct {
		keys = append(keys, k)
	}
	buf := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(buf[8*i:], k)
	}
	return os.WriteFile(path+".distinct", buf, 0o644)
}

func readResult(path string) (*Result, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	res := &Result{distinct: map[uint64]bool{}}
	if err = json.Unmarshal(b, res); err != nil {
		return nil, err
	}
	d, err := os.ReadFile(path + ".distinct")
	if err != nil {
		return nil, err
	}
	for i := 0; i+8 <= len(d); i += 8 {
		res.distinct[binary.LittleEndian.Uint64(d[i:])] = true
	}
	return res, nil
}

// ------------------------------------------------------------------------------------------------------ known findings

// knownFinding is a genuine defect that was recorded rather than repaired.
// Lines of known-findings.txt: "known: property=<id> key=<key> <what fails>".
type knownFinding struct{ property, key, what string }

func readKnown(root string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		rest, ok = strings.CutPrefix(rest, "key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " ")
		out = append(out, knownFinding{id, key, what})
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic("harness: bad number " + s)
	}
	return n
}
