package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"gopkg.in/yaml.v3"
)

// C15: faults of readers and writers.  C16: goroutines.

// faultReader delivers its text in pieces and fails where it is told to.
type faultReader struct {
	r       *rand.Rand
	text    []byte
	pos     int
	limit   int   // fail after this many bytes, -1 for never
	err     error // what it fails with
	once    bool  // deliver the rest after the failure
	failed  int
	chunk   int  // 0: as much as fits, 1: single bytes, 2: random
	with    bool // deliver the error together with data
	empties bool // deliver nothing now and then
	n       int
	wrong   error // set when the caller misuses the reader
}

func (f *faultReader) Read(p []byte) (int, error) {
	f.n++
	if len(p) == 0 {
		return 0, nil
	}
	if f.empties && f.r.Intn(4) == 0 {
		return 0, nil
	}
	end := len(f.text)
	if f.limit >= 0 && !(f.once && f.failed > 0) {
		end = f.limit
	}
	n := end - f.pos
	if n > len(p) {
		n = len(p)
	}
	switch {
	case f.chunk == 1 && n > 1:
		n = 1
	case f.chunk == 2 && n > 1:
		n = 1 + f.r.Intn(n)
		if n > 64 && f.r.Intn(2) == 0 {
			n = 1 + f.r.Intn(64)
		}
	}
	copy(p, f.text[f.pos:f.pos+n])
	f.pos += n
	if f.pos < end {
		return n, nil
	}
	if n > 0 && !f.with {
		return n, nil
	}
	if f.limit >= 0 && !(f.once && f.failed > 0) {
		f.failed++
		return n, f.err
	}
	return n, io.EOF
}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

var readErrs = []error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, tempErr{}, errors.New(""), io.ErrNoProgress, io.ErrShortBuffer, fmt.Errorf("wrapped: %w", io.EOF),
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, syscall.EINTR, syscall.EAGAIN, context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull, bufio.ErrTooLong, errors.New("EOF"), &yaml.TypeError{Errors: []string{"injected"}}}

var writeErrs = []error{errFault, io.EOF, io.ErrShortWrite, io.ErrClosedPipe, tempErr{}, errors.New(""), io.ErrNoProgress, fmt.Errorf("wrapped: %w", io.ErrClosedPipe),
	os.ErrClosed, os.ErrDeadlineExceeded, syscall.EPIPE, syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, &os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE}, context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull, http.ErrHandlerTimeout, &yaml.TypeError{Errors: []string{"injected"}}}

func bigDoc(c *Case, lib bool) *Doc {
	return c.gen(lib, func(g *Gen) *yaml.Node {
		m := g.wide(lib)
		for i := 0; i < 3; i++ {
			n := g.wide(lib)
			x := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
			g.add(x, "content", n)
			g.add(m, fmt.Sprintf("x-big%d", i), x)
		}
		return m
	})
}

func init() {
	register(&Check{
		id: "C15", quick: 400, thorough: 40000, assume: []string{yamlTrust, "readers and writers keep the contracts of io.Reader and io.Writer"},
		rule: "random documents, up to 60 kB; read errors of several kinds injected at every offset of small texts and sampled offsets of large ones, with and without data, transient and lasting, over whole, random and single byte chunks; write errors likewise at every offset of the output, with part, nothing or all of the failing write taken; 17 kinds of readers and 16 kinds of writers, fresh and in use; results are compared with the run without faults; distinct by source text",
		fn: func(c *Case) {
			lib := c.R.Intn(2) == 0
			var d *Doc
			big := c.Idx%12 == 5
			switch {
			case big:
				d = bigDoc(c, lib)
				c.See("large document")
			default:
				d = c.gen(lib, func(g *Gen) *yaml.Node { g.left = 40; return g.anyDoc(c, lib) })
			}
			x, ok := c.accepted(d)
			if !ok {
				return
			}
			full, ok := c.written(x)
			if !ok {
				return
			}
			if c.Idx%4 == 0 && !readerWriterKinds(c, lib, d.text, full, x) {
				return
			}
			readFaults(c, lib, d.text, full)
			writeFaults(c, x, full)
		},
	})
}

func offsets(c *Case, n, most int) []int {
	var out []int
	if n+1 <= most {
		for i := 0; i <= n; i++ {
			out = append(out, i)
		}
		c.Count("texts with faults at every offset", 1)
		return out
	}
	out = append(out, 0, 1, n-1, n)
	// Around the edges of common buffers as well.
	for _, b := range []int{512, 1024, 4096, 8192, 16384, 32768} {
		for d := -1; d <= 1; d++ {
			if b+d < n {
				out = append(out, b+d)
			}
		}
	}
	for len(out) < most {
		out = append(out, c.R.Intn(n+1))
	}
	return out
}

func readFaults(c *Case, lib bool, text, full []byte) {
	// However the text arrives, the result is the same.
	for i := 0; i < 6; i++ {
		f := &faultReader{r: c.R, text: text, limit: -1, chunk: i % 3, with: i%2 == 0, empties: i > 3}
		x, err := parseDoc(lib, f)
		if err != nil || x == nil {
			c.Violate("a legal document is refused when it arrives in pieces (mode %d): %v", i, err)
			return
		}
		out, err := writeDoc(x)
		if !c.Check(err == nil && bytes.Equal(out, full), "the document differs when it arrives in pieces (mode %d): %v\n%s\n---\n%s", i, err, full, out) {
			return
		}
		c.Count("chunked reads", f.n)
	}
	most := 400
	if len(text) > 4000 {
		most = 60
	}
	if c.Tier == "thorough" {
		most *= 4
	}
	for _, off := range offsets(c, len(text), most) {
		f := &faultReader{r: c.R, text: text, limit: off, err: readErrs[c.R.Intn(len(readErrs))], once: c.R.Intn(3) == 0, chunk: c.R.Intn(3), with: c.R.Intn(2) == 0}
		x, err := parseDoc(lib, f)
		if f.failed == 0 {
			// The parser had seen enough, which it cannot know of a single document.
			c.Violate("the parser stops reading before the end: %d of %d bytes, result %T %v", f.pos, len(text), x, err)
			return
		}
		if !c.Check(err != nil && x == nil, "the reader fails after %d of %d bytes with %q, the parser returns %T and error %v", off, len(text), f.err, x, err) {
			return
		}
		c.See(fmt.Sprintf("read error %q once=%v with data=%v", f.err, f.once, f.with))
		c.Count("read faults injected", 1)
	}
}

func writeFaults(c *Case, x interface{}, full []byte) {
	most := 400
	if len(full) > 4000 {
		most = 60
	}
	if c.Tier == "thorough" {
		most *= 4
	}
	for _, off := range offsets(c, len(full)-1, most) {
		w := &faultWriter{limit: off, once: c.R.Intn(2) == 0, whole: c.R.Intn(2) == 0, full: c.R.Intn(4) == 0, err: writeErrs[c.R.Intn(len(writeErrs))]}
		err := x.(ramlWriter).WriteRAML(w)
		if !c.Check(err != nil, "the writer fails after %d of %d bytes with %q (transient: %v), WriteRAML returns no error", off, len(full), w.err, w.once) {
			return
		}
		if !c.Check(bytes.HasPrefix(full, w.got.Bytes()), "the writer fails after %d of %d bytes, what it got is no prefix: %q", off, len(full), clip(w.got.Bytes())) {
			return
		}
		if !c.Check(w.later == 0, "after a failed write %d more bytes are written, which leaves a hole", w.later) {
			return
		}
		c.See(fmt.Sprintf("write error %q", w.err))
		c.See(fmt.Sprintf("write error once=%v whole=%v full=%v", w.once, w.whole && !w.full, w.full))
		c.Count("write faults injected", 1)
	}
	// A writer that does not fail gets everything.
	w := &faultWriter{limit: len(full)}
	if err := x.(ramlWriter).WriteRAML(w); !c.Check(err == nil && bytes.Equal(w.got.Bytes(), full), "writing again after failures: %v", err) {
		return
	}
}

func init() {
	register(&Check{
		id: "C16", quick: 64, thorough: 4800, serial: true, shards: 16, assume: []string{yamlTrust},
		rule: "under the race detector: 8 goroutines parse, observe, assemble, change and write documents of their own, and 8 goroutines read and write one shared document that nothing has read before, with random yields and without locks that would order them, in 16 processes that start cold; every result is compared with a sequential run made afterwards, and any data race is a violation; distinct by the order in which the goroutines' steps finished",
		fn:   goroutines,
	})
}

// steps records when the steps of one goroutine end. It takes no lock, which
// would order the goroutines and so hide races from the detector.
type steps struct {
	at    []time.Duration
	calls int
}

var epoch = time.Now()

func (l *steps) add() { l.at = append(l.at, time.Since(epoch)) }

// interleaving gives the order in which the steps of all goroutines ended.
func interleaving(ls []steps) string {
	type ev struct {
		at time.Duration
		id int
	}
	var evs []ev
	for id := range ls {
		for _, at := range ls[id].at {
			evs = append(evs, ev{at, id})
		}
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	var b strings.Builder
	for _, e := range evs {
		b.WriteByte(byte('a' + e.id))
	}
	return b.String()
}

func pause(r *rand.Rand) {
	switch r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
	}
}

func goroutines(c *Case) {
	const n = 8
	// The verdict of each goroutine; nothing is shared while they run.
	guard := func(f func() string) (bad string) {
		defer func() {
			if e := recover(); e != nil {
				bad = fmt.Sprintf("panic: %v", e)
			}
		}()
		return f()
	}
	type result struct{ obs, out, asm, mut, err string }
	type job struct {
		d    *Doc
		seed int64
	}
	work := func(j job, step func()) (res result) {
		x, err := parseText(j.d.lib, j.d.text)
		step()
		if err != nil {
			res.err = err.Error()
			return
		}
		res.obs = obsDocument(x).String()
		step()
		out, err := writeDoc(x)
		if err != nil {
			res.err = err.Error()
			return
		}
		res.out = string(out)
		step()
		b := newBuilder(rand.New(rand.NewSource(j.seed)))
		y := b.document(j.d.lib, j.d.want)
		step()
		asm, err := writeDoc(y)
		if err != nil {
			res.err = err.Error()
			return
		}
		res.asm = string(asm)
		b.upsetAll(&Case{R: b.r, rep: newReport()}, y, 6)
		step()
		res.mut = snapshot(y)
		step()
		return
	}
	jobs := make([]job, n)
	for i := range jobs {
		lib := c.R.Intn(2) == 0
		jobs[i] = job{d: c.gen(lib, func(g *Gen) *yaml.Node { g.left = 50; return g.anyDoc(c, lib) }), seed: c.R.Int63()}
		if i > 0 && c.R.Intn(4) == 0 {
			jobs[i] = jobs[0] // the same text, parsed at once
		}
	}
	run := func(f func(id int, r *rand.Rand, l *steps) string) bool {
		start := make(chan struct{})
		logs, bad := make([]steps, n), make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i, r := i, sub(c.R)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				var l steps
				bad[i] = guard(func() string { return f(i, r, &l) })
				logs[i] = l
			}()
		}
		close(start)
		wg.Wait()
		for i, b := range bad {
			if b != "" {
				c.Violate("goroutine %d: %s", i, b)
			}
			c.Count("goroutine steps", len(logs[i].at))
			c.Count("concurrent read-only calls", logs[i].calls)
		}
		c.Distinct(interleaving(logs))
		c.Count("goroutines run", n)
		return !c.fail
	}
	// The goroutines come before the sequential run, which would fill any cache
	// or make any late initialisation of the library.
	got := make([]result, n)
	if !run(func(id int, r *rand.Rand, l *steps) string {
		got[id] = work(jobs[id], func() { l.add(); pause(r) })
		return ""
	}) {
		return
	}
	for i, j := range jobs {
		want, g := work(j, func() {}), got[i]
		c.Count("oracle verdicts", 1)
		switch {
		case want.err != "":
			c.Violate("sequential run: %s", want.err)
		case g.err != "":
			c.Violate("goroutine %d: %s", i, g.err)
		case g.obs != want.obs:
			c.Violate("goroutine %d: accessors differ from the sequential run: %s", i, textDiff(want.obs, g.obs))
		case g.out != want.out:
			c.Violate("goroutine %d: the text differs from the sequential run: %s", i, textDiff(want.out, g.out))
		case g.asm != want.asm:
			c.Violate("goroutine %d: the assembled text differs from the sequential run: %s", i, textDiff(want.asm, g.asm))
		case g.mut != want.mut:
			c.Violate("goroutine %d: the changed document differs from the sequential run: %s", i, textDiff(want.mut, g.mut))
		}
		if c.fail {
			return
		}
	}
	// One document, read by all. It is fresh: nothing has been read from it.
	j := jobs[c.R.Intn(n)]
	asm := c.R.Intn(2) == 0
	mk := func() interface{} {
		if asm {
			return newBuilder(rand.New(rand.NewSource(j.seed))).document(j.d.lib, j.d.want)
		}
		x, err := parseText(j.d.lib, j.d.text)
		if err != nil {
			c.Violate("a legal document is refused: %v", err)
		}
		return x
	}
	x, twin := mk(), mk()
	if c.fail {
		return
	}
	seen := make([][]string, n)
	if !run(func(id int, r *rand.Rand, l *steps) string {
		objs := reach(x)
		mine := r.Perm(len(objs))
		for k := 0; k < 3; k++ {
			if k > 0 || r.Intn(2) == 0 {
				seen[id] = append(seen[id], snapshot(x))
			}
			l.add()
			for i := 0; i < 12 && len(mine) > 0; i++ {
				calls, _ := readAll(objs[mine[0]])
				l.calls += calls
				mine = mine[1:]
				pause(r)
			}
			x.(ramlWriter).WriteRAML(&faultWriter{limit: r.Intn(200)})
			l.add()
		}
		return ""
	}) {
		return
	}
	want := snapshot(twin)
	for id, l := range seen {
		for _, got := range l {
			c.Count("oracle verdicts", 1)
			if got != want {
				c.Violate("goroutine %d: the shared document looks different: %s", id, textDiff(want, got))
				return
			}
		}
	}
}
