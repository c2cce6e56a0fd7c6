package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property. Its streams are fixed lists of cases, each determined by seed and index.
type Check struct {
	ID      string
	Level   string // level in MANIFEST and evidence
	Rule    string // how cases are made, and what makes one non-trivial
	Boost   int    // factor for the counts of streams that are not enumerations (default 6)
	Serial  bool   // one case at a time (goroutine and descriptor monitors)
	Streams []Stream
	Setup   func() error
	Assume  []string
	// Final judges what was observed over the whole run; a non-empty string means the run observed too little.
	MinNote map[string]int // observations that a run must have made, else it is inconclusive
}

type Stream struct {
	Name     string
	Quick    int
	Thorough int // 0: the stream is not an enumeration, its count is multiplied
	boost    int
	Run      func(c *C)
}

var checks = map[string]*Check{}

func register(c *Check) {
	for i := range c.Streams {
		c.Streams[i].boost = c.Boost
		if c.Boost == 0 {
			c.Streams[i].boost = 6
		}
	}
	checks[c.ID] = c
}

// C is the context of one case.
type C struct {
	R      *Rand
	Idx    int
	Tier   string
	Stream string
	descs  []string
	w      *workerStats

	descDir string
}

type workerStats struct {
	evals   int64
	notes   map[string]int64
	sigs    map[uint64]struct{}
	samples []string
}

type failure struct{ msg string }

// Failf ends the case as a violation.
func (c *C) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Desc attaches a description of the input, for the report of a violation.
func (c *C) Desc(name string, v interface{}) {
	c.descs = append(c.descs, fmt.Sprintf("%s: %s", name, show(v)))
	if c.descDir != "" { // a single case: the description survives a crash or a hang
		_ = os.WriteFile(filepath.Join(c.descDir, "desc"), []byte(strings.Join(c.descs, "\n")), 0o644)
	}
}

func show(v interface{}) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case []string:
		return fmt.Sprintf("%q", x)
	case map[string]string:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		for _, k := range ks {
			fmt.Fprintf(&sb, "\n  %q: %q", k, x[k])
		}
		return sb.String()
	default:
		return fmt.Sprintf("%+v", v)
	}
}

// Note counts an observation.
func (c *C) Note(kind string)         { c.w.notes[kind]++ }
func (c *C) NoteN(kind string, n int) { c.w.notes[kind] += int64(n) }
func (c *C) NoteIf(b bool, k string) {
	if b {
		c.Note(k)
	}
}

// Sig records the signature of a non-trivial case; distinct ones are counted.
func (c *C) Sig(parts ...string) {
	if len(c.w.sigs) < 2000000 {
		c.w.sigs[hashStr(strings.Join(parts, "\x00"))] = struct{}{}
	}
}

// Evals counts extra evaluations made within a case.
func (c *C) Evals(n int) { c.w.evals += int64(n) }

// Sample offers a written-out case for the evidence.
func (c *C) Sample(f func() string) {
	if len(c.w.samples) < 3 {
		s := f()
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.samples = append(c.w.samples, c.Stream+"/"+fmt.Sprint(c.Idx)+": "+s)
	}
}

type caseFailure struct {
	Stream string   `json:"stream"`
	Idx    int      `json:"index"`
	Msg    string   `json:"what"`
	Descs  []string `json:"input"`
}

type workerResult struct {
	Evals    int64            `json:"evals"`
	Distinct int              `json:"distinct"`
	Notes    map[string]int64 `json:"notes"`
	Samples  []string         `json:"samples"`
	Failures []caseFailure    `json:"failures"`
	Stuck    []string         `json:"stuck"`
	Cases    int64            `json:"cases"`
}

const (
	exitFail   = 1
	exitStuck  = 78
	exitMemory = 77
	exitRace   = 66
)

func caseSeed(seed uint64, prop, stream string, idx int) *Rand {
	return NewRand(seed, hashStr(prop), hashStr(stream), uint64(idx))
}

// runCase runs one case and returns its failure, if any.
func runCase(ch *Check, st *Stream, seed uint64, tier string, idx int, w *workerStats, descDir string) (f *caseFailure) {
	c := &C{R: caseSeed(seed, ch.ID, st.Name, idx), Idx: idx, Tier: tier, Stream: st.Name, w: w, descDir: descDir}
	w.evals++
	defer func() {
		if p := recover(); p != nil {
			msg := ""
			if fl, ok := p.(failure); ok {
				msg = fl.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
			f = &caseFailure{Stream: st.Name, Idx: idx, Msg: msg, Descs: c.descs}
		}
	}()
	st.Run(c)
	return nil
}

type slotState struct {
	stream  atomic.Int64 // stream+1, 0 when idle
	idx     atomic.Int64
	started atomic.Int64 // unix nanoseconds
}

func (st *Stream) count(tier string) int {
	if tier == "thorough" {
		if st.Thorough != 0 {
			return st.Thorough
		}
		return st.Quick * st.boost * 20
	}
	if st.Thorough == 0 {
		return st.Quick * st.boost
	}
	return st.Quick
}

// workerMain runs all cases of a check (or a single one) and writes the result file.
func workerMain(ch *Check, seed uint64, tier, dir, only string, stuckAfter time.Duration) {
	if ch.Setup != nil {
		if err := ch.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			os.Exit(2)
		}
	}
	nw := runtime.GOMAXPROCS(0)
	if ch.Serial || only != "" {
		nw = 1
	}
	slots := make([]slotState, nw)
	slotFile, err := os.OpenFile(filepath.Join(dir, "slots"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}

	type job struct{ st, idx int }
	var jobs []int // cumulative counts
	total := 0
	for i := range ch.Streams {
		total += ch.Streams[i].count(tier)
		jobs = append(jobs, total)
	}
	locate := func(n int) job {
		i := sort.SearchInts(jobs, n+1)
		base := 0
		if i > 0 {
			base = jobs[i-1]
		}
		return job{i, n - base}
	}
	first, last := 0, total
	descDir := ""
	if only != "" {
		descDir = dir
		name, num, _ := strings.Cut(only, ":")
		base := 0
		found := false
		for i := range ch.Streams {
			if ch.Streams[i].Name == name {
				var k int
				fmt.Sscan(num, &k)
				first, last = base+k, base+k+1
				found = true
			}
			base = jobs[i]
		}
		if !found {
			fmt.Fprintln(os.Stderr, "no stream", name)
			os.Exit(2)
		}
	}

	res := workerResult{Notes: map[string]int64{}}
	var mu sync.Mutex
	var next atomic.Int64
	next.Store(int64(first))
	var stop atomic.Bool
	var done atomic.Int64
	stats := make([]*workerStats, nw)

	writeResult := func() {
		sigs := map[uint64]struct{}{}
		for _, w := range stats {
			if w == nil {
				continue
			}
			res.Evals += w.evals
			for k, v := range w.notes {
				res.Notes[k] += v
			}
			for s := range w.sigs {
				sigs[s] = struct{}{}
			}
			for _, s := range w.samples {
				if len(res.Samples) < 6 {
					res.Samples = append(res.Samples, s)
				}
			}
		}
		res.Distinct = len(sigs)
		res.Cases = done.Load()
		b, _ := json.Marshal(&res)
		_ = os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644)
	}

	// watchdog for cases that do not come to an end and for memory
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now().UnixNano()
			for i := range slots {
				s := slots[i].stream.Load()
				if s != 0 && now-slots[i].started.Load() > int64(stuckAfter) {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					_ = os.WriteFile(filepath.Join(dir, "stacks"), buf, 0o644)
					stuck := fmt.Sprintf("%s:%d", ch.Streams[s-1].Name, slots[i].idx.Load())
					_ = os.WriteFile(filepath.Join(dir, "stuck"), []byte(stuck), 0o644)
					os.Exit(exitStuck)
				}
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 8<<30 {
				os.Exit(exitMemory)
			}
		}
	}()

	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		k := k
		stats[k] = &workerStats{notes: map[string]int64{}, sigs: map[uint64]struct{}{}}
		run := func() {
			var rec [16]byte
			for !stop.Load() {
				n := int(next.Add(1) - 1)
				if n >= last {
					break
				}
				j := locate(n)
				put64(rec[:8], uint64(j.st+1))
				put64(rec[8:], uint64(j.idx))
				_, _ = slotFile.WriteAt(rec[:], int64(16*k))
				slots[k].idx.Store(int64(j.idx))
				slots[k].started.Store(time.Now().UnixNano())
				slots[k].stream.Store(int64(j.st + 1))
				f := runCase(ch, &ch.Streams[j.st], seed, tier, j.idx, stats[k], descDir)
				slots[k].stream.Store(0)
				done.Add(1)
				if f != nil {
					mu.Lock()
					res.Failures = append(res.Failures, *f)
					if len(res.Failures) >= 3 {
						stop.Store(true)
					}
					mu.Unlock()
				}
			}
		}
		if nw == 1 {
			run()
		} else {
			wg.Add(1)
			go func() {
				defer wg.Done()
				run()
			}()
		}
	}
	wg.Wait()
	writeResult()
	if len(res.Failures) > 0 {
		os.Exit(exitFail)
	}
}

func put64(b []byte, x uint64) {
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (8 * i))
	}
}

func get64(b []byte) uint64 {
	var x uint64
	for i := 0; i < 8; i++ {
		x |= uint64(b[i]) << (8 * i)
	}
	return x
}
