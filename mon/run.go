package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property by running many cases.  A case is determined
// by its property, the seed and its index alone.
type Check struct {
	id         string
	rule       string
	quick      int // cases per tier
	thorough   int
	serial     bool // run the cases one after another
	fn         func(c *Case)
	assume     []string
	known      func(rep *Report) // executes the known findings
	exhaustive bool
	prepare    func(rep *Report) (clean func())
	hang       int // seconds until a case counts as not terminating
	shards     int // processes to spread the cases over, for cold starts
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

// Case is one execution under observation.
type Case struct {
	R    *rand.Rand
	Idx  int
	N    int // cases of the run
	Seed int64
	Tier string
	rep  *Report
	fail bool
	in   []byte
}

// Input records what the case runs on, for replays and samples.
func (c *Case) Input(b []byte) { c.in = b }

// Violate reports a violation of the property.
func (c *Case) Violate(format string, a ...interface{}) {
	c.fail = true
	c.rep.violation(c.Idx, fmt.Sprintf(format, a...), c.in)
}

// Check reports a violation unless ok holds.
func (c *Case) Check(ok bool, format string, a ...interface{}) bool {
	c.rep.count("oracle verdicts", 1)
	if !ok {
		c.Violate(format, a...)
	}
	return ok
}

// Same reports a violation unless the canonical values agree.
func (c *Case) Same(what string, want, got *V) bool {
	c.rep.count("oracle verdicts", 1)
	c.rep.count("nodes compared", want.size())
	if d := diff("", want, got); d != "" {
		c.Violate("%s: %s", what, d)
		return false
	}
	return true
}

func (c *Case) Count(name string, n int) { c.rep.count(name, n) }

// Distinct counts the case as one more execution unless the same key was
// counted before.
func (c *Case) Distinct(key string) { c.rep.distinct(key) }

func (c *Case) Seen(seen map[string]bool) {
	for k := range seen {
		c.rep.see(k)
	}
}
func (c *Case) See(k string) { c.rep.see(k) }

// Violation is a refuted execution.
type Violation struct {
	Idx   int    `json:"case"`
	Msg   string `json:"message"`
	Input string `json:"input"`
}

// Report collects what the monitors observed.
type Report struct {
	mu         sync.Mutex
	Counts     map[string]int `json:"counts"`
	Constructs map[string]int `json:"constructs"`
	Cases      int            `json:"cases"`
	NDistinct  int            `json:"distinct"`
	Samples    []string       `json:"samples"`
	Violations []Violation    `json:"violations"`
	NViol      int            `json:"nviol"`
	Known      []string       `json:"known"`
	Dist       []uint64       `json:"dist,omitempty"`
	dist       map[uint64]struct{}
}

func newReport() *Report {
	return &Report{Counts: map[string]int{}, Constructs: map[string]int{}, dist: map[uint64]struct{}{}}
}

func (r *Report) count(name string, n int) {
	r.mu.Lock()
	r.Counts[name] += n
	r.mu.Unlock()
}
func (r *Report) see(name string) {
	r.mu.Lock()
	r.Constructs[name]++
	r.mu.Unlock()
}
func (r *Report) distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	r.mu.Lock()
	r.dist[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}
func (r *Report) violation(idx int, msg string, in []byte) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.NViol++
	if len(r.Violations) < 20 {
		r.Violations = append(r.Violations, Violation{idx, msg, string(in)})
	}
}
func (r *Report) failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.NViol > 0
}

func (r *Report) sample(s string) {
	r.mu.Lock()
	if len(r.Samples) < 3 {
		if len(s) > 1200 {
			s = s[:1200] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
	r.mu.Unlock()
}

func caseSeed(prop string, seed int64, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return int64(h.Sum64())
}

// slot is what a goroutine is busy with.
type slot struct {
	idx   int64 // case index + 1, 0 if idle
	start int64
}

// For trying the monitors on many changes: stopFirst ends a run at the first
// violation, part leaves out all but one of so many cases.
var (
	stopFirst bool
	part      = 1
)

const hangAfter = 90 * time.Second

func runCase(ck *Check, rep *Report, seed int64, tier string, n, idx int) {
	c := &Case{R: rand.New(rand.NewSource(caseSeed(ck.id, seed, idx))), Idx: idx, N: n, Seed: seed, Tier: tier, rep: rep}
	defer func() {
		if e := recover(); e != nil {
			c.Violate("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
		rep.mu.Lock()
		rep.Cases++
		rep.mu.Unlock()
		if idx < 3 && len(c.in) > 0 {
			rep.sample(string(c.in))
		}
	}()
	ck.fn(c)
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// worker runs cases in this process.  only >= 0 selects a single case.
func worker(ck *Check, tier string, seed int64, only, shard int, journal, result string) {
	n := ck.quick
	if tier == "thorough" {
		n = ck.thorough
	}
	rep := newReport()
	debug.SetMaxStack(256 << 20)
	procs := runtime.GOMAXPROCS(0)
	if ck.serial || only >= 0 {
		procs = 1
	}
	slots := make([]slot, procs)
	var jf *os.File
	if journal != "" {
		jf, _ = os.OpenFile(journal, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	hang := hangAfter
	if ck.hang > 0 {
		hang = time.Duration(ck.hang) * time.Second
	}
	if ck.prepare != nil {
		defer ck.prepare(rep)()
	}
	go watchdog(slots, hang)
	var next int64
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			buf := make([]byte, 8)
			for {
				idx := int(atomic.AddInt64(&next, 1) - 1)
				if only < 0 {
					idx *= part
				}
				if ck.shards > 1 && only < 0 {
					idx = idx*ck.shards + shard
				}
				if only >= 0 {
					if idx > 0 {
						return
					}
					idx = only
				} else if idx >= n || stopFirst && rep.failed() {
					return
				}
				atomic.StoreInt64(&slots[p].start, time.Now().UnixNano())
				atomic.StoreInt64(&slots[p].idx, int64(idx)+1)
				if jf != nil {
					binary.LittleEndian.PutUint64(buf, uint64(idx)+1)
					jf.WriteAt(buf, int64(p)*8)
				}
				runCase(ck, rep, seed, tier, n, idx)
				atomic.StoreInt64(&slots[p].idx, 0)
			}
		}(p)
	}
	wg.Wait()
	if ck.known != nil && only < 0 && shard == 0 {
		ck.known(rep)
	}
	rep.NDistinct = len(rep.dist)
	if ck.shards > 1 {
		for h := range rep.dist {
			rep.Dist = append(rep.Dist, h)
		}
	}
	out, _ := json.Marshal(rep)
	if err := ioutil.WriteFile(result, out, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

const (
	exitHang = 71
	exitMem  = 72
)

func watchdog(slots []slot, hangAfter time.Duration) {
	for range time.Tick(500 * time.Millisecond) {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 8<<30 {
			fmt.Fprintln(os.Stderr, "mon: out of memory limit")
			os.Exit(exitMem)
		}
		for p := range slots {
			if atomic.LoadInt64(&slots[p].idx) != 0 && time.Since(time.Unix(0, atomic.LoadInt64(&slots[p].start))) > hangAfter {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "mon: case %d does not terminate\n%s\n", atomic.LoadInt64(&slots[p].idx)-1, buf)
				os.Exit(exitHang)
			}
		}
	}
}

// outcome of a worker process.
type outcome struct {
	code   int
	stderr string
}

func spawn(args []string) outcome {
	cmd := exec.Command(os.Args[0], args...)
	var eb bytes.Buffer
	cmd.Stderr = &tail{b: &eb}
	cmd.Stdout = os.Stdout
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return outcome{code, eb.String()}
}

// tail keeps the first part of what is written.
type tail struct{ b *bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 20000 {
		t.b.Write(p)
	}
	return len(p), nil
}

// merge adds what another process observed.
func (r *Report) merge(o *Report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, n := range o.Counts {
		r.Counts[k] += n
	}
	for k, n := range o.Constructs {
		r.Constructs[k] += n
	}
	r.Cases += o.Cases
	r.NDistinct += o.NDistinct
	for _, h := range o.Dist {
		r.dist[h] = struct{}{}
	}
	r.NViol += o.NViol
	r.Violations = append(r.Violations, o.Violations...)
	r.Known = append(r.Known, o.Known...)
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, o.Samples...)
	}
}

// runShard runs a worker process and turns its death into a verdict.
func runShard(base []string, shard int, files string) (*Report, error) {
	journal, result := files+".journal", files+".result"
	base = append(append([]string{}, base...), "-result", result, "-shard", strconv.Itoa(shard))
	o := spawn(append(append([]string{}, base...), "-journal", journal))
	rep := newReport()
	if raw, err := ioutil.ReadFile(result); err == nil && o.code == 0 {
		return rep, json.Unmarshal(raw, rep)
	}
	// The process died: find the case that kills it.
	rep.NDistinct = 1
	jr, _ := ioutil.ReadFile(journal)
	for i := 0; i+8 <= len(jr); i += 8 {
		idx := int(binary.LittleEndian.Uint64(jr[i:])) - 1
		if idx < 0 {
			continue
		}
		if p := spawn(append(append([]string{}, base...), "-only", strconv.Itoa(idx))); p.code != 0 && p.code != 2 {
			rep.violation(idx, describe(p), nil)
			return rep, nil
		}
	}
	if strings.Contains(o.stderr, "fatal error:") || strings.Contains(o.stderr, "DATA RACE") || strings.Contains(o.stderr, "panic:") {
		rep.violation(-1, describe(o), nil)
		return rep, nil
	}
	return nil, fmt.Errorf("mon: inconclusive: the run ended with code %d and no case reproduces it\n%s", o.code, o.stderr)
}

// parent runs a check in a child process, so that crashes become verdicts.
func parent(ck *Check, tier string, seed int64, evid string) int {
	start := time.Now()
	dir, err := ioutil.TempDir("", "mon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	base := []string{"worker", ck.id, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-part", strconv.Itoa(part), fmt.Sprintf("-first=%t", stopFirst)}
	n := ck.shards
	if n < 1 {
		n = 1
	}
	rep, why := newReport(), make([]string, n)
	var wg sync.WaitGroup
	room := make(chan struct{}, 4)
	for i := 0; i < n; i++ {
		wg.Add(1)
		room <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-room }()
			part, err := runShard(base, i, filepath.Join(dir, strconv.Itoa(i)))
			if err != nil {
				why[i] = err.Error()
				return
			}
			rep.merge(part)
		}(i)
	}
	wg.Wait()
	if n > 1 {
		rep.NDistinct = len(rep.dist)
	}
	if rep.NViol == 0 {
		for _, w := range why {
			if w != "" {
				fmt.Fprintln(os.Stderr, w)
				return 2
			}
		}
	}
	code := 0
	if rep.NViol > 0 {
		code = 1
	}
	if rep.NViol == 0 && (rep.Cases == 0 || rep.NDistinct < 2) {
		fmt.Fprintln(os.Stderr, "mon: inconclusive: nothing was observed")
		code = 2
	}
	for _, k := range rep.Known {
		fmt.Println(k)
	}
	if err := writeEvidence(ck, rep, tier, seed, evid, time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 1 {
		path := filepath.Join(evid, ck.id+".replay.json")
		raw, _ := json.MarshalIndent(map[string]interface{}{
			"property": ck.id, "tier": tier, "seed": seed, "violations": rep.Violations, "total": rep.NViol,
			"replay_cmd": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s --case %d", seed, tier, ck.id, rep.Violations[0].Idx),
		}, "", " ")
		ioutil.WriteFile(path, raw, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.id, path)
		for i, v := range rep.Violations {
			if i == 3 {
				break
			}
			m := v.Msg
			if len(m) > 1500 {
				m = m[:1500] + "..."
			}
			fmt.Printf("  case %d: %s\n", v.Idx, m)
		}
	} else if code == 0 {
		fmt.Printf("OK property=%s tier=%s cases=%d distinct=%d verdicts=%d constructs=%d in %.1fs\n", ck.id, tier, rep.Cases, rep.NDistinct, rep.Counts["oracle verdicts"], len(rep.Constructs), time.Since(start).Seconds())
	}
	return code
}

func describe(o outcome) string {
	switch o.code {
	case exitHang:
		return "does not terminate: " + o.stderr
	case exitMem:
		return "needs unbounded memory: " + o.stderr
	case 66:
		return "data race: " + o.stderr
	}
	return "the process died: " + o.stderr
}

func writeEvidence(ck *Check, rep *Report, tier string, seed int64, dir string, d time.Duration) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	cons := make([]string, 0, len(rep.Constructs))
	for k, n := range rep.Constructs {
		cons = append(cons, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(cons)
	samples := make([]interface{}, 0)
	for _, s := range rep.Samples {
		samples = append(samples, s)
	}
	cov := map[string]interface{}{
		"evaluations":         rep.Cases,
		"distinct_nontrivial": rep.NDistinct,
		"rule":                ck.rule,
		"samples":             samples,
		"observed":            rep.Counts,
		"constructs_seen":     len(cons),
		"constructs":          cons,
	}
	if ck.exhaustive {
		cov["exhaustive"] = true
	}
	ev := map[string]interface{}{
		"property":    ck.id,
		"tier":        tier,
		"seed":        seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": ck.assume,
		"wall_s":      float64(int(d.Seconds()*100)) / 100,
		"violations":  rep.NViol,
	}
	raw, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return ioutil.WriteFile(filepath.Join(dir, ck.id+".json"), raw, 0o644)
}
