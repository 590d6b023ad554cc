package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

var checks = map[string]*Check{}

func register(c *Check) {
	if checks[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	checks[c.ID] = c
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness check ID | race ID | replay FILE | list")
	os.Exit(2)
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		for _, id := range sortedKeys(checks) {
			fmt.Println(id)
		}
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "israce":
		if c := checks[os.Args[2]]; c != nil && c.Race {
			os.Exit(0)
		}
		os.Exit(1)
	case "cold":
		seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
		cold(seed, atoi(os.Args[3]))
	case "parse":
		n, err := parseSQL(os.Args[2], os.Args[3])
		fmt.Println(n, err)
	default:
		usage()
	}
}

// processEnv is the environment of a process of a check: nothing depends on it.
func processEnv(id string, shard int) []string {
	if id == "P05" {
		localZone = time.UTC
	}
	return [][]string{
		{"TZ=UTC", "HOSTNAME="},
		{"TZ=Asia/Kolkata", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOSTNAME=web-1.example.org", "USER=nobody", "DEBUG=1", "ENV=production", "PGTZ=Asia/Kolkata", "PGDATESTYLE=German"},
		{"TZ=America/St_Johns", "LANG=C", "LC_ALL=C", "HOSTNAME=localhost", "DEBUG=false", "ENV=test", "LOUKOUM_DEBUG=1"},
		{"TZ=Pacific/Kiritimati", "LANG=en_US.UTF-8", "HOSTNAME=db", "DEBUG=sql", "GO_ENV=development", "ENV=development", "VERBOSE=1"},
	}[shard%4]
}

// worker ID seed tier shard shards result progress
func worker(args []string) {
	c := checks[args[0]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", args[0])
		os.Exit(2)
	}
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	_ = processEnv(c.ID, 0)
	w := &W{check: c, seed: seed, tier: args[2], shard: atoi(args[3]), shards: atoi(args[4]), early: args[5] + ".early"}
	f, err := os.OpenFile(args[6], os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w.progress = f
	w.run()
	if err = w.write(args[5]); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

type workerRun struct {
	shard          int
	cmd            *exec.Cmd
	result, prog   string
	stderr, raceLg string
	err            error
	killed         string // reason
}

func (r *workerRun) position() (count, idx int, family string) {
	b, err := os.ReadFile(r.prog)
	if err != nil || len(b) < 16 {
		return 0, 0, ""
	}
	count = int(binary.LittleEndian.Uint64(b[:8]))
	idx = int(binary.LittleEndian.Uint64(b[8:16]))
	family = strings.TrimSpace(string(b[16:]))
	return
}

// procUsage returns the CPU seconds and the resident megabytes of one of our own children.
func procUsage(pid int) (cpu float64, rssMB float64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	s = s[strings.LastIndex(s, ")")+1:]
	f := strings.Fields(s)
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	rss, _ := strconv.ParseFloat(f[21], 64)
	return (ut + st) / 100, rss * 4096 / 1e6
}

const (
	stuckCPU  = 60.0   // CPU seconds on one case: cases need milliseconds
	stuckWall = 400.0  // generous wall clock watchdog: inconclusive
	memLimit  = 3000.0 // megabytes: cases need a few
)

func (r *workerRun) watch(done chan struct{}) {
	last, lastCPU := -1, 0.0
	lastT := time.Now()
	for {
		select {
		case <-done:
			return
		case <-time.After(200 * time.Millisecond):
		}
		n, _, _ := r.position()
		cpu, rss := procUsage(r.cmd.Process.Pid)
		if n != last {
			last, lastCPU, lastT = n, cpu, time.Now()
		}
		switch {
		case cpu-lastCPU > stuckCPU:
			r.killed = "hang"
		case rss > memLimit:
			r.killed = "memory"
		case time.Since(lastT).Seconds() > stuckWall:
			r.killed = "wall clock"
		}
		if r.killed != "" {
			_ = r.cmd.Process.Kill()
			return
		}
	}
}

func runCheck(id string) int {
	start := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		return 2
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			seed = hash64(s)
		} else {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	shards := c.Shards
	if shards == 0 {
		shards = 8
	}
	tmp, err := os.MkdirTemp(filepath.Join(root(), "build"), "run-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	runs := make([]*workerRun, shards)
	var wg sync.WaitGroup
	for i := range runs {
		r := &workerRun{
			shard: i, result: filepath.Join(tmp, fmt.Sprintf("r%d", i)), prog: filepath.Join(tmp, fmt.Sprintf("p%d", i)),
			stderr: filepath.Join(tmp, fmt.Sprintf("e%d", i)), raceLg: filepath.Join(tmp, fmt.Sprintf("race%d", i)),
		}
		runs[i] = r
		r.cmd = exec.Command(self, "worker", id, strconv.FormatUint(seed, 10), tier, strconv.Itoa(i), strconv.Itoa(shards), r.result, r.prog)
		r.cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+r.raceLg)
		r.cmd.Env = append(r.cmd.Env, processEnv(id, i)...)
		ef, err := os.Create(r.stderr)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r.cmd.Stderr = ef
		r.cmd.Stdout = ef
		if err = r.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer ef.Close()
			done := make(chan struct{})
			go r.watch(done)
			r.err = r.cmd.Wait()
			close(done)
		}()
	}
	wg.Wait()

	var violations []Violation
	var results []*Result
	var errs []string
	total := &Result{PerFamily: map[string]int{}, Events: map[string]int{}, distinct: map[uint64]bool{}}
	races := 0
	for _, r := range runs {
		_, idx, family := r.position()
		res, err := readResult(r.result)
		if r.err != nil || err != nil {
			out, _ := os.ReadFile(r.stderr)
			text := string(out)
			if b, err := os.ReadFile(r.result + ".early"); err == nil {
				var early []Violation
				if json.Unmarshal(b, &early) == nil {
					violations = append(violations, early...)
				}
			}
			v := Violation{Property: id, Seed: seed, Tier: tier, Family: family, Index: idx, Shard: r.shard, Shards: shards}
			switch {
			case (r.killed == "hang" || r.killed == "memory") && c.HangFails:
				v.Detail = fmt.Sprintf("the call never ended (%s): more than %.0f CPU seconds or %.0f MB in a single case", r.killed, stuckCPU, memLimit)
				violations = append(violations, v)
			case r.killed != "":
				errs = append(errs, fmt.Sprintf("shard %d killed (%s) at %s/%d", r.shard, r.killed, family, idx))
			case strings.Contains(text, "fatal error:") && strings.Contains(text, loukoumPkg+"/"):
				if len(text) > 12000 {
					text = text[:12000]
				}
				v.Detail = "the process crashed: " + text
				violations = append(violations, v)
			default:
				if len(text) > 3000 {
					text = text[:3000]
				}
				errs = append(errs, fmt.Sprintf("shard %d: %v %v at %s/%d\n%s", r.shard, r.err, err, family, idx, text))
			}
			continue
		}
		results = append(results, res)
		if res.Err != "" {
			errs = append(errs, res.Err)
		}
		violations = append(violations, res.Violations...)
		total.Evaluations += res.Evaluations
		for k, n := range res.PerFamily {
			total.PerFamily[k] += n
		}
		for k, n := range res.Events {
			total.Events[k] += n
		}
		for k := range res.distinct {
			total.distinct[k] = true
		}
		for _, s := range res.Samples {
			if len(total.Samples) < 12 {
				dup := 0
				for _, o := range total.Samples {
					if strings.SplitN(o, ":", 2)[0] == strings.SplitN(s, ":", 2)[0] {
						dup++
					}
				}
				if dup < 2 {
					total.Samples = append(total.Samples, s)
				}
			}
		}
		if c.Race {
			logs, _ := filepath.Glob(r.raceLg + ".*")
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				for _, rep := range raceReports(string(b)) {
					races++
					violations = append(violations, Violation{Property: id, Seed: seed, Tier: tier, Shard: r.shard, Shards: shards,
						Family: "race", Index: races, Key: raceKey(rep), Detail: rep})
				}
			}
		}
	}
	if c.Finish != nil && len(results) == shards {
		violations = append(violations, c.Finish(results)...)
	}
	for i := range violations {
		violations[i].Property = id
		violations[i].Seed, violations[i].Tier = seed, tier
	}

	// Known findings.
	known := readKnown(root())
	var fresh []Violation
	seenKnown := map[string]bool{}
	for _, v := range violations {
		matched := false
		for _, k := range known {
			if k.property == id && v.Key != "" && k.key == v.Key {
				matched = true
				seenKnown[k.key] = true
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}
	for _, k := range known {
		if k.property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
		}
	}

	// Inconclusive runs.
	var missing []string
	for _, e := range c.Require {
		if total.Events[e] == 0 {
			missing = append(missing, e)
		}
	}

	wall := time.Since(start).Seconds()
	coverage := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(total.distinct),
		"rule":                c.Rule,
		"samples":             total.Samples,
		"events":              total.Events,
		"cases_per_family":    total.PerFamily,
		"processes":           shards,
	}
	if c.Race {
		coverage["race_reports"] = races
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
		"assumptions": append([]string{
			"held on the executions counted here, which is not a proof for all inputs",
			"texts are read with an independent tokenizer and parser of the PostgreSQL grammar subset loukoum can produce",
		}, c.Assumptions...),
		"wall_s": wall, "violations": len(fresh),
	}
	if len(errs) > 0 {
		ev["errors"] = errs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	fmt.Printf("%s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n", id, tier, seed, total.Evaluations, len(total.distinct), len(fresh), wall)
	for _, k := range sortedKeys(total.Events) {
		fmt.Printf("  observed %-40s %d\n", k, total.Events[k])
	}
	if len(fresh) > 0 {
		dir := filepath.Join(root(), "replay")
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range fresh {
			if i >= 3 {
				fmt.Printf("... %d more violations\n", len(fresh)-i)
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", id, sanitize(v.Family), v.Index, i))
			vb, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(path, append(vb, '\n'), 0o644)
			detail := v.Detail
			if len(detail) > 2500 {
				detail = detail[:2500] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Println(indent(detail))
		}
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", e)
		}
		return 2
	}
	if len(missing) > 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: never observed:", strings.Join(missing, ", "))
		return 2
	}
	return 0
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.]+`).ReplaceAllString(s, "_")
}

func indent(s string) string { return "    " + strings.ReplaceAll(s, "\n", "\n    ") }

func raceReports(log string) []string {
	var out []string
	seen := map[string]bool{}
	for _, part := range strings.Split(log, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") && !seen[raceKey(part)] {
			seen[raceKey(part)] = true
			out = append(out, strings.TrimSpace(part))
		}
	}
	return out
}

// raceKey identifies a report by its functions, without lines nor addresses.
func raceKey(rep string) string {
	var fns []string
	for _, line := range strings.Split(rep, "\n") {
		line = strings.TrimSpace(line)
		if strings.HasSuffix(line, "()") {
			fns = append(fns, line)
		}
	}
	return fmt.Sprintf("race-%016x", hash64(strings.Join(fns, "|")))
}

// replay executes again the case of a violation, alone then within its shard.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err = json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[v.Property]
	if c == nil {
		return 2
	}
	for _, e := range processEnv(c.ID, v.Shard) {
		name, value, _ := strings.Cut(e, "=")
		_ = os.Setenv(name, value)
	}
	if v.Family != "race" {
		w := &W{check: c, seed: v.Seed, tier: v.Tier, shard: v.Shard, shards: v.Shards, only: v.Family, onlyIdx: v.Index}
		w.run()
		if len(w.res.Violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", v.Property, path, indent(w.res.Violations[0].Detail))
			return 1
		}
	}
	w := &W{check: c, seed: v.Seed, tier: v.Tier, shard: v.Shard, shards: v.Shards}
	w.run()
	if len(w.res.Violations) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s (within its shard)\n%s\n", v.Property, path, indent(w.res.Violations[0].Detail))
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}
