package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	var (
		prop     = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Uint64("seed", 1, "seed")
		worker   = flag.Bool("worker", false, "run the cases in this process")
		dir      = flag.String("dir", "", "scratch directory of the worker")
		only     = flag.String("only", "", "stream:index")
		replay   = flag.String("replay", "", "replay file")
		outDir   = flag.String("out", ".", "directory for replay files")
		evidence = flag.String("evidence", "", "evidence file")
		alone    = flag.String("alone", "", "make one call in this process: seed,kind,a,b,c")
		first    = flag.Uint64("first", 0, "make the first calls of this process at the same time")
		scale    = flag.Int("scale", 0, "measure one operation in this process")
		list     = flag.Bool("list", false, "list checks")
		literals = flag.Bool("literals", false, "list the words and numbers of the code")
		stuck    = flag.Int("stuck", 40, "seconds until a case counts as stuck")
	)
	flag.Parse()
	if *literals {
		for _, l := range readLiterals("/repo") {
			fmt.Println(l)
		}
		return
	}
	if *alone != "" {
		runAlone(*alone)
		return
	}
	if *first != 0 {
		runFirst(*first)
		return
	}
	if *scale != 0 {
		runScale(*scale - 1)
		return
	}
	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Level)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *tier, *seed, *only = r.Property, r.Tier, r.Seed, r.Case
		if *only == "all:0" { // it took the load of all cases
			*only = ""
		}
	}
	ch := checks[*prop]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker {
		workerMain(ch, *seed, *tier, *dir, *only, time.Duration(*stuck)*time.Second)
		return
	}
	os.Exit(supervise(ch, *tier, *seed, *only, *outDir, *evidence))
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Case     string   `json:"case"`
	What     string   `json:"what"`
	Input    []string `json:"input"`
}

type runOutcome struct {
	code   int
	signal string
	stderr string
	res    workerResult
	hasRes bool
	dir    string
	cpu    time.Duration
}

func runWorker(ch *Check, tier string, seed uint64, only string, stuck int) (*runOutcome, error) {
	dir, err := os.MkdirTemp("", "vmon")
	if err != nil {
		return nil, err
	}
	args := []string{"-worker", "-prop", ch.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-dir", dir, "-stuck", strconv.Itoa(stuck)}
	if only != "" {
		args = append(args, "-only", only)
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, args...)
	// scratch space of the cases, removed below even if the worker is killed
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	var stderr bytes.Buffer
	cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 20}
	cmd.Stdout = os.Stdout
	err = cmd.Run()
	o := &runOutcome{dir: dir, stderr: stderr.String()}
	if cmd.ProcessState != nil {
		o.cpu = cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.signal = ws.Signal().String()
			o.code = 200
		} else {
			o.code = cmd.ProcessState.ExitCode()
		}
	} else {
		return nil, err
	}
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		o.hasRes = json.Unmarshal(b, &o.res) == nil
	}
	return o, nil
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if k := l.n - l.w.Len(); k > 0 {
		if len(b) < k {
			k = len(b)
		}
		l.w.Write(b[:k])
	}
	return len(b), nil
}

func (o *runOutcome) cleanup() { _ = os.RemoveAll(o.dir) }

// supervise runs the worker, turns what happened into a verdict and writes the evidence.
func supervise(ch *Check, tier string, seed uint64, only, outDir, evidence string) int {
	start := time.Now()
	var fails []caseFailure
	var o *runOutcome
	for try := 0; ; try++ {
		var err error
		o, err = runWorker(ch, tier, seed, only, 40)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer o.cleanup()
		again := false
		switch {
		case o.code == 0 || (o.code == exitFail && o.hasRes):
			fails = o.res.Failures
		case o.code == exitRace || o.code == 2 || o.code == exitMemory || o.code == exitStuck:
			if o.code == 2 && (strings.HasPrefix(o.stderr, "setup:") || !strings.Contains(o.stderr, "goroutine")) {
				fmt.Fprintln(os.Stderr, o.stderr)
				return 2
			}
			fails = attribute(ch, tier, seed, o)
			again = len(fails) == 0
		default:
			fmt.Fprintf(os.Stderr, "worker ended with code %d signal %q\n%s\n", o.code, o.signal, o.stderr)
			again = true
		}
		if !again {
			break
		}
		if try == 1 {
			fmt.Fprintln(os.Stderr, "inconclusive: the worker did not finish, and no single case explains it")
			return 2
		}
	}

	known := loadKnown(ch.ID)
	violations := 0
	for _, f := range fails {
		id := f.Stream + ":" + strconv.Itoa(f.Idx)
		if k := known[inputKey(f)]; k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ch.ID, k)
			continue
		}
		r := replayFile{Property: ch.ID, Tier: tier, Seed: seed, Case: id, What: f.Msg, Input: f.Descs}
		b, _ := json.MarshalIndent(r, "", " ")
		name := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", ch.ID, f.Stream, f.Idx))
		_ = os.MkdirAll(outDir, 0o755)
		_ = os.WriteFile(name, b, 0o644)
		if violations == 0 {
			what := f.Msg
			if len(what) > 3000 {
				what = what[:3000] + "..."
			}
			fmt.Printf("case %s\n%s\n%s\n", id, strings.Join(f.Descs, "\n"), what)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, name)
		violations++
	}

	inconclusive := ""
	if len(fails) == 0 && only == "" {
		for k, min := range ch.MinNote {
			if o.res.Notes[k] < int64(min) {
				inconclusive += fmt.Sprintf("observed only %d of %s (at least %d wanted)\n", o.res.Notes[k], k, min)
			}
		}
	}

	if evidence != "" {
		streams := map[string]int{}
		for _, s := range ch.Streams {
			streams[s.Name] = s.count(tier)
		}
		ev := map[string]interface{}{
			"property": ch.ID, "tier": tier, "seed": seed, "level": ch.Level,
			"coverage": map[string]interface{}{
				"evaluations": o.res.Evals, "distinct_nontrivial": o.res.Distinct, "rule": ch.Rule,
				"samples": append([]string{}, o.res.Samples...), "observed": o.res.Notes, "cases_run": o.res.Cases, "cases_planned": streams,
			},
			"assumptions": append([]string{}, ch.Assume...), "wall_s": time.Since(start).Seconds(), "violations": violations,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if violations > 0 {
		return 1
	}
	if inconclusive != "" {
		fmt.Fprint(os.Stderr, "inconclusive: ", inconclusive)
		return 2
	}
	fmt.Printf("%s held: %d evaluations, %d distinct, %.1fs\n", ch.ID, o.res.Evals, o.res.Distinct, time.Since(start).Seconds())
	return 0
}

// attribute finds the case that ended the worker by running each candidate on its own.
func attribute(ch *Check, tier string, seed uint64, o *runOutcome) []caseFailure {
	var cands []string
	if b, err := os.ReadFile(filepath.Join(o.dir, "stuck")); err == nil {
		cands = append(cands, string(b))
	}
	if b, err := os.ReadFile(filepath.Join(o.dir, "slots")); err == nil && o.code != exitStuck {
		for i := 0; i+16 <= len(b); i += 16 {
			if st := get64(b[i:]); st != 0 {
				cands = append(cands, fmt.Sprintf("%s:%d", ch.Streams[st-1].Name, get64(b[i+8:])))
			}
		}
	}
	for _, cand := range cands {
		r, err := runWorker(ch, tier, seed, cand, 25)
		if err != nil {
			continue
		}
		defer r.cleanup()
		stream, num, _ := strings.Cut(cand, ":")
		idx, _ := strconv.Atoi(num)
		mk := func(what string) []caseFailure {
			return []caseFailure{{Stream: stream, Idx: idx, Msg: what, Descs: describe(r)}}
		}
		switch {
		case r.code == exitFail && r.hasRes:
			return r.res.Failures
		case r.code == 2 && strings.Contains(r.stderr, "goroutine"):
			return mk("the process crashed:\n" + r.stderr)
		case r.code == exitRace:
			return mk("data race:\n" + r.stderr)
		case r.code == exitMemory:
			return mk("memory use without bound")
		case r.code == exitStuck:
			stacks, _ := os.ReadFile(filepath.Join(r.dir, "stacks"))
			if r.cpu < 3*time.Second {
				return mk("blocked forever (no progress, no CPU use):\n" + string(stacks))
			}
			if r.cpu > 15*time.Second {
				return mk(fmt.Sprintf("does not come to an end (%s of CPU):\n%s", r.cpu, stacks))
			}
		}
	}
	// a crash or a race that does not repeat alone (it needs the load of the other cases) is a violation all the same
	switch o.code {
	case exitRace:
		return []caseFailure{{Stream: "all", Idx: 0, Msg: "data race (candidates " + strings.Join(cands, " ") + "):\n" + o.stderr}}
	case 2:
		if strings.Contains(o.stderr, "nginx-go-crossplane") {
			return []caseFailure{{Stream: "all", Idx: 0, Msg: "the process crashed (candidates " + strings.Join(cands, " ") + "):\n" + o.stderr}}
		}
	}
	return nil
}

func describe(r *runOutcome) []string {
	b, err := os.ReadFile(filepath.Join(r.dir, "desc"))
	if err != nil {
		return nil
	}
	return []string{string(b)}
}

// inputKey identifies a failing input for the known-findings file.
func inputKey(f caseFailure) string {
	return fmt.Sprintf("%016x", hashStr(strings.Join(f.Descs, "\n")))
}

// loadKnown reads the findings of this property: lines "known: property=<id> input=<key> <what fails>".
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(os.Getenv("VMON_KNOWN"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "input=") {
			m[strings.TrimPrefix(f[2], "input=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}
