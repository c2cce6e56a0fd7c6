package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C14 (nothing is left behind) and C15 (faults are reported).

var errInjected = errors.New("injected fault 7193")

// faultReader gives the first n bytes and then an error; with says that the error comes with the last bytes.
type faultReader struct {
	s    string
	n    int
	err  error
	with bool
	hit  *bool
	ch   func() int
}

func (f *faultReader) Read(b []byte) (int, error) {
	if f.n <= 0 {
		*f.hit = true
		return 0, f.err
	}
	k := len(b)
	if f.ch != nil {
		if x := f.ch(); x < k {
			k = x
		}
	}
	if k > f.n {
		k = f.n
	}
	k = copy(b[:k], f.s)
	f.s = f.s[k:]
	f.n -= k
	if f.n == 0 && f.with {
		*f.hit = true
		return k, f.err
	}
	return k, nil
}

func luaOpts() cp.LexOptions {
	l := &cp.Lua{}
	return cp.LexOptions{Lexers: []cp.RegisterLexer{l.RegisterLexer()}}
}

// reported tells whether an error is found in what a parse returns, and the file that it is reported for.
func reported(p *cp.Payload, err, want error) (bool, string) {
	has := func(e error) bool { return errors.Is(e, want) || strings.Contains(e.Error(), want.Error()) }
	if err != nil {
		return has(err), ""
	}
	for i, e := range p.Errors {
		if has(e.Error) {
			for _, cf := range p.Config {
				for _, ce := range cf.Errors {
					if has(ce.Error) && cf.Status == "failed" && p.Status == "failed" {
						return true, p.Errors[i].File
					}
				}
			}
		}
	}
	return false, ""
}

// faultErr gives errors that the environment may return.
func faultErr(r *Rand) error {
	if r.Bool() {
		return errInjected
	}
	return pick(r, []error{io.ErrUnexpectedEOF, os.ErrClosed, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", errInjected), cp.ErrPrematureLexEnd,
		&os.PathError{Op: "read", Path: "/x", Err: errInjected}, os.ErrPermission, os.ErrNotExist, os.ErrExist, filepath.ErrBadPattern, io.ErrShortWrite, os.ErrDeadlineExceeded,
		&cp.ParseError{What: "from the reader"}})
}

// readFault parses text with a read error after k bytes.
func readFault(c *C, files map[string]string, victim string, k int, o cp.ParseOptions, valid bool) {
	hit := false
	with := c.R.Bool()
	fault := faultErr(c.R)
	m := newMemFS(files)
	m.reader = func(path string, r io.Reader) io.Reader {
		if path != victim {
			return r
		}
		fr := &faultReader{s: files[path], n: k, err: fault, with: with, hit: &hit}
		if c.R.Bool() {
			fr.ch = func() int { return 1 + k%7 }
		}
		return fr
	}
	c.Evals(1)
	p, err := cp.Parse("/c/main", m.with(o))
	if !hit {
		c.Note("fault not reached")
		return
	}
	c.Note("read faults")
	fail := func(f string, a ...interface{}) {
		c.Desc("files", files)
		c.Desc("read fault", fmt.Sprintf("%q after %d bytes of %s, with data %v", fault, k, victim, with))
		c.Desc("options", optString(&o))
		c.Failf(f, a...)
	}
	if valid {
		ok, file := reported(p, err, fault)
		if !ok {
			fail("the read error is not reported: %v %+v", err, p)
		}
		if file != "" && file != victim {
			fail("the read error is reported for %q", file)
		}
		if p != nil && !o.CombineConfigs {
			for _, cf := range p.Config {
				if (cf.File == victim) != (cf.Status == "failed") {
					fail("status of %s is %s", cf.File, cf.Status)
				}
			}
		}
	} else if err == nil {
		bad := false
		for _, cf := range p.Config {
			bad = bad || (cf.Status == "failed" && (cf.File == victim || o.CombineConfigs))
		}
		if !bad || p.Status != "failed" {
			fail("a file that was not read to its end is not failed: %+v", p)
		}
	}
	c.Sig(fmt.Sprint(k, with, len(files[victim])), fault.Error())
}

func readFaultCase(c *C, valid bool) {
	r := c.R
	o := cp.ParseOptions{ParseComments: r.Bool(), CombineConfigs: r.P(1, 4), StopParsingOnError: r.P(1, 4), SkipDirectiveContextCheck: r.Bool()}
	var files map[string]string
	victim := "/c/main"
	switch {
	case !valid:
		files = map[string]string{"/c/main": soupCase(r)}
		o.SingleFile = true
		if refErrs(files, o) == 0 {
			return
		}
	case r.P(1, 3):
		w := genWorld(r, worldCfg{noGlob: true})
		files = w.files
		if m := newMemFS(files); true {
			p, err := cp.Parse("/c/main", m.with(o))
			if err != nil || p.Status != "ok" {
				return
			}
			victim = pick(r, m.opens)
		}
		if o.CombineConfigs && victim != "/c/main" {
			c.Note("combined victims")
		}
	case r.P(1, 3):
		o.LexOptions = luaOpts()
		files = map[string]string{"/c/main": "http {\n  server {\n content_by_lua_block { local a = \"}\" -- x }\n if x then { y } end }\n set_by_lua_block $a { return [[}]] } listen 80; } }\n"}
		o.DirectiveSources = []cp.MatchFunc{noMatch}
	default:
		st := genStyle(r)
		text, _ := render(r, genReal(r), &st)
		files = map[string]string{"/c/main": text}
	}
	if t := files[victim]; valid && t != "" && r.P(1, 20) {
		// a file larger than any buffer
		t = strings.Repeat(t+"\n", 1+pick(r, []int{5000, 9000, 70000})/len(t))
		files[victim] = t
		c.Note("large files")
		for n := 8; n > 0; n-- {
			k := r.N(len(t) + 1)
			if n < 6 {
				k = (1 << (12 + r.N(5))) + r.Range(-3, 3)
			}
			if k <= len(t) {
				readFault(c, files, victim, k, o, valid)
			}
		}
		return
	}
	text := files[victim]
	if len(text) <= 200 {
		// every position
		for k := 0; k <= len(text); k++ {
			readFault(c, files, victim, k, o, valid)
		}
		return
	}
	for n := 30; n > 0; n-- {
		readFault(c, files, victim, r.N(len(text)+1), o, valid)
	}
}

func refErrs(files map[string]string, o cp.ParseOptions) int {
	want, err := refParse(newMemFS(files), "/c/main", &o)
	if err != nil {
		return 1
	}
	return len(want.Errors)
}

// openFaultCase fails each open and each glob of a parse, one at a time.
func openFaultCase(c *C) {
	r := c.R
	w := genWorld(r, worldCfg{})
	o := cp.ParseOptions{ParseComments: r.Bool(), CombineConfigs: r.P(1, 4), StopParsingOnError: r.P(1, 4)}
	m := newMemFS(w.files)
	base, err := cp.Parse("/c/main", m.with(o))
	if err != nil || base.Status != "ok" {
		c.Note("not parsed")
		return
	}
	c.Desc("files", w.files)
	c.Desc("options", optString(&o))
	opens, globs := len(m.opens), len(m.globs)
	fault := faultErr(r)
	try := func(n int, glob bool) {
		c.Evals(1)
		f := newMemFS(w.files)
		victim := ""
		hook := func(k int, path string) error {
			if k == n {
				victim = path
				return fault
			}
			return nil
		}
		if glob {
			f.onGlob = hook
			f.partial = r.Bool()
			c.Note("glob faults")
		} else {
			f.onOpen = hook
			c.Note("open faults")
		}
		p, err := cp.Parse("/c/main", f.with(o))
		if victim == "" {
			c.Failf("call %d is not made again", n)
		}
		ok, _ := reported(p, err, fault)
		if !ok {
			c.Desc("fault", fmt.Sprintf("call %d (glob %v) of %s", n, glob, victim))
			c.Failf("the error is not reported: %v %+v", err, p)
		}
		if d := f.check(); d != "" {
			c.Note("left behind")
		}
		c.Sig(fmt.Sprint(n, glob, opens, globs, err != nil))
	}
	for n := 1; n <= opens; n++ {
		try(n, false)
	}
	for n := 1; n <= globs; n++ {
		try(n, true)
	}
	c.Sample(func() string { return fmt.Sprintf("%d opens and %d globs failed in turn", opens, globs) })
}

// faultWriter fails after n bytes.
type faultWriter struct {
	buf   bytes.Buffer
	n     int
	short bool // takes a part of the bytes of the write that fails
	err   error
	hit   bool
	after int  // writes after the failed one
	once  bool // only one write fails
	full  bool // takes all bytes of the write that fails
}

func (w *faultWriter) Write(b []byte) (int, error) {
	if w.hit && !w.once {
		w.after++
		return 0, w.err
	}
	if !w.hit && w.buf.Len()+len(b) > w.n {
		w.hit = true
		k := 0
		if w.full {
			k = len(b)
			w.buf.Write(b)
		} else if w.short {
			k = w.n - w.buf.Len()
			w.buf.Write(b[:k])
		}
		return k, w.err
	}
	w.buf.Write(b)
	return len(b), nil
}

func genPayload(r *Rand) *cp.Payload {
	p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}}
	for n := r.Range(1, 4); n > 0; n-- {
		st := genStyle(r)
		var ns []*GNode
		if r.Bool() {
			ns = genReal(r)
		} else {
			ns = genTree(r, 0, defaultTreeCfg(r))
		}
		text, _ := render(r, ns, &st)
		q, err := parse1(text, anyOpts())
		if err != nil || q.Status != "ok" {
			continue
		}
		cf := q.Config[0]
		cf.File = fmt.Sprintf("%sf%d.conf", pick(r, []string{"", "d/", "d/e/"}), n)
		p.Config = append(p.Config, cf)
	}
	return p
}

// diskReadFaultCase parses files on disk, without hooks, that cannot be opened or read.
func diskReadFaultCase(c *C) {
	r := c.R
	dir, err := os.MkdirTemp("", "diskread")
	must(err)
	defer os.RemoveAll(dir)
	must(os.WriteFile(dir+"/ok.conf", []byte("daemon on;"), 0o644))
	kind := pick(r, []string{"main missing", "main is a directory", "included is a directory", "matched is a directory", "matched is a dangling link", "matched is a link loop", "bad pattern", "included missing", "included below a file"})
	main, text := dir+"/main.conf", ""
	switch kind {
	case "main missing":
	case "main is a directory":
		must(os.Mkdir(main, 0o755))
	case "included is a directory", "matched is a directory":
		must(os.Mkdir(dir+"/sub.conf", 0o755))
		text = "include sub.conf;"
		if kind[0] == 'm' {
			text = "include s*.conf;"
		}
	case "matched is a dangling link", "matched is a link loop":
		target := dir + "/nowhere"
		if strings.HasSuffix(kind, "loop") {
			target = dir + "/s1.conf"
		}
		must(os.Symlink(target, dir+"/s1.conf"))
		text = "include " + pick(r, []string{"s?.conf", "*[0-9].conf"}) + ";"
	case "bad pattern":
		text = "include " + pick(r, []string{"[", "a[", "*[]", "[a-"}) + ";"
	case "included missing":
		text = "include nothing.conf;"
	default:
		text = "include ok.conf/x.conf;"
	}
	if text != "" {
		must(os.WriteFile(main, []byte(pick(r, []string{"", "include ok.conf;\n", "user nobody;\n"})+text+pick(r, []string{"", "\nworker_processes 4;"})), 0o644))
	}
	o := &cp.ParseOptions{StopParsingOnError: r.Bool(), CombineConfigs: r.P(1, 3)}
	p, err := cp.Parse(main, o)
	c.Note("disk read faults")
	c.Note(kind)
	c.Sig(kind, fmt.Sprint(o.StopParsingOnError, o.CombineConfigs), text)
	if err == nil && (p.Status != "failed" || len(p.Errors) == 0) {
		c.Desc("text", text)
		c.Failf("%s, but nothing is reported", kind)
	}
	if err == nil && o.StopParsingOnError {
		c.Failf("%s, but the parse does not stop", kind)
	}
}

func writeFaultCase(c *C) {
	r := c.R
	p := genPayload(r)
	if len(p.Config) == 0 {
		return
	}
	cf := pick(r, p.Config)
	bo := genBuildOpts(r)
	full := buildText(c, cf.Parsed, bo)
	c.Desc("built", full)
	for n := 20; n > 0; n-- {
		k := r.N(len(full) + 1)
		if n <= 4 {
			k = []int{0, len(full) - 1, len(full), len(full) / 2}[n-1]
		}
		if k < 0 {
			k = 0
		}
		fault := faultErr(r)
		if r.P(1, 6) {
			fault = io.EOF
		}
		w := &faultWriter{n: k, short: r.Bool(), err: fault, once: r.Bool(), full: r.P(1, 4)}
		c.Evals(1)
		b := *bo
		err := cp.Build(w, cf, &b)
		if w.hit != (err != nil) {
			c.Failf("write fails after %d of %d bytes: %v, Build returns %v", k, len(full), w.hit, err)
		}
		if err != nil && !errors.Is(err, fault) {
			c.Failf("Build returns another error: %v", err)
		}
		if err == nil && w.buf.String() != full {
			c.Failf("Build succeeds but wrote %q", w.buf.String())
		}
		if w.hit {
			c.Note("write faults")
		} else {
			c.Note("writes without fault")
		}
		c.Sig(fmt.Sprint(k, len(full), w.short))
	}
}

// creator records what BuildInto does, and fails on demand.
type creator struct {
	texts   []string
	names   []string
	open    int
	closes  []int
	failAt  int // number of the config whose creation, write or close fails, -1: none
	failOp  string
	failK   int
	full    bool // takes all bytes of the write that fails
	bad     []string
	created int
	err     error
}

type createdFile struct {
	c  *creator
	i  int
	n  int
	sb strings.Builder
}

func (cr *creator) Create(path string) (io.WriteCloser, error) {
	i := len(cr.names)
	cr.names = append(cr.names, path)
	cr.texts = append(cr.texts, "")
	cr.closes = append(cr.closes, 0)
	if i == cr.failAt && cr.failOp == "create" {
		return nil, cr.err
	}
	if cr.open > 0 {
		cr.bad = append(cr.bad, "created "+path+" while another one is open")
	}
	cr.open++
	cr.created++
	return &createdFile{c: cr, i: i}, nil
}

func (cr *creator) Reset() {}

func (f *createdFile) Write(b []byte) (int, error) {
	if f.c.closes[f.i] > 0 {
		f.c.bad = append(f.c.bad, "write after close")
	}
	if f.i == f.c.failAt && f.c.failOp == "write" && f.n+len(b) > f.c.failK {
		if f.c.full {
			return len(b), f.c.err
		}
		return 0, f.c.err
	}
	f.n += len(b)
	f.c.texts[f.i] += string(b)
	return len(b), nil
}

func (f *createdFile) Close() error {
	f.c.closes[f.i]++
	if f.c.closes[f.i] > 1 {
		f.c.bad = append(f.c.bad, "second close")
		return os.ErrClosed
	}
	f.c.open--
	if f.i == f.c.failAt && f.c.failOp == "close" {
		return f.c.err
	}
	return nil
}

func intoFaultCase(c *C) {
	r := c.R
	p := genPayload(r)
	if len(p.Config) == 0 {
		return
	}
	bo := genBuildOpts(r)
	for i := range p.Config {
		for _, op := range []string{"create", "write", "close"} {
			cr := &creator{failAt: i, failOp: op, failK: r.N(40), full: r.P(1, 4), err: faultErr(r)}
			full := buildText(c, p.Config[i].Parsed, bo)
			b := *bo
			err := cp.BuildInto(p, cr, &b)
			c.Evals(1)
			if op == "write" && (len(full) <= cr.failK) {
				if err != nil {
					c.Failf("BuildInto returns %v, nothing failed", err)
				}
				continue
			}
			c.Note(op + " faults")
			if !errors.Is(err, cr.err) {
				c.Desc("payload", jsonOf(p))
				c.Failf("%s of config %d fails, BuildInto returns %v", op, i, err)
			}
			c.Sig(op, fmt.Sprint(i, len(p.Config), cr.failK))
		}
	}
}

// diskFaultCase builds to places that cannot be written.
func diskFaultCase(c *C) {
	r := c.R
	dir, err := os.MkdirTemp("", "disk")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := genPayload(r)
	if len(p.Config) == 0 {
		return
	}
	i := r.N(len(p.Config))
	kind := ""
	switch r.N(5) {
	case 0:
		kind = "parent is a file"
		p.Config[i].File = "blocked/x/y.conf"
		must(os.WriteFile(filepath.Join(dir, "blocked"), []byte("keep"), 0o644))
	case 1:
		kind = "target is a directory"
		p.Config[i].File = "isdir.conf"
		must(os.Mkdir(filepath.Join(dir, "isdir.conf"), 0o755))
	case 2:
		kind = "device is full"
		p.Config[i].File = "full.conf"
		must(os.Symlink("/dev/full", filepath.Join(dir, "full.conf")))
	case 3:
		kind = "name too long"
		p.Config[i].File = strings.Repeat("n", 300) + ".conf"
	default:
		kind = "directory name too long"
		p.Config[i].File = strings.Repeat("n", 300) + "/a.conf"
	}
	b := genBuildOpts(r)
	if kind == "device is full" && len(p.Config[i].Parsed) == 0 {
		return
	}
	err = cp.BuildFiles(*p, dir, b)
	if err == nil {
		c.Desc("payload", jsonOf(p))
		c.Failf("%s, BuildFiles returns no error", kind)
	}
	c.Note("disk faults")
	c.Note(kind)
	c.Sig(kind, fmt.Sprint(i, len(p.Config), len(p.Config[i].Parsed)))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- what calls leave behind ----

// quiet waits until only the goroutines from before are left. A goroutine that stays blocked in the package or in an
// extension when the call has returned is there for good, because no one has the other end of its channel.
func quiet(c *C, base int) {
	for i := 0; i < 2000; i++ {
		if runtime.NumGoroutine() <= base {
			return
		}
		if i < 200 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	var last string
	for i := 0; i < 4; i++ {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		blocked := ""
		for _, g := range strings.Split(string(buf), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			if strings.Contains(g, "nginx-go-crossplane.") && !strings.Contains(g, "main.quiet(") &&
				(strings.Contains(head, "[chan ") || strings.Contains(head, "[select") || strings.Contains(head, "[sync.") || strings.Contains(head, "[semacquire")) {
				blocked += g + "\n\n"
			}
		}
		if blocked == "" {
			if runtime.NumGoroutine() <= base {
				return
			}
			last = ""
			time.Sleep(500 * time.Millisecond)
			continue
		}
		if last != "" && stripStates(last) == stripStates(blocked) {
			c.Failf("goroutines are left behind:\n%s", blocked)
		}
		last = blocked
		time.Sleep(300 * time.Millisecond)
	}
	c.Note("goroutines that did not settle")
}

func stripStates(s string) string {
	return digits.ReplaceAllString(s, "0")
}

func countFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// slowLexer is an extension that sends tokens through an unbuffered channel; it may give more than are wanted.
type slowLexer struct {
	n   int
	err bool
}

func (l *slowLexer) Lex(s *cp.SubScanner, matched string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken)
	go func() {
		defer close(ch)
		for i := 0; i < l.n && s.Scan(); i++ {
			ch <- cp.NgxToken{Value: "t" + s.Text(), Line: s.Line()}
		}
		if l.err {
			ch <- cp.NgxToken{Error: &cp.ParseError{What: "no such thing"}}
			ch <- cp.NgxToken{Value: "more"}
		}
		ch <- cp.NgxToken{Value: ";", Line: s.Line()}
	}()
	return ch
}

// openFilesCase parses a config of hundreds of files.
func openFilesCase(c *C) {
	r := c.R
	n := 100 + r.N(300)
	bodies := make([]strings.Builder, n)
	kind := r.N(3)
	for i := 1; i < n; i++ {
		from := 0
		switch kind {
		case 0: // any tree
			from = r.N(i)
		case 1: // a chain
			from = i - 1
		}
		stmt := fmt.Sprintf("include /c/f%03d;\n", i)
		switch r.N(8) {
		case 0:
			stmt = fmt.Sprintf("include f%03d;\n", i)
		case 1:
			stmt = fmt.Sprintf("include f%03d*;\n", i)
		case 2:
			stmt += "include /c/missing;\n"
		}
		bodies[from].WriteString(stmt)
	}
	files := map[string]string{}
	for i := range bodies {
		name := "/c/main"
		if i > 0 {
			name = fmt.Sprintf("/c/f%03d", i)
		}
		if r.P(1, 10) {
			bodies[i].WriteString(pick(r, []string{"bad_directive;", "server {", "}", "worker_processes"}))
		}
		files[name] = bodies[i].String()
	}
	o := cp.ParseOptions{ErrorOnUnknownDirectives: r.Bool(), CombineConfigs: r.P(1, 3)}
	most := 0
	withCap(c, func() {
		leakParse(c, files, o, func(m *memFS) {
			m.onOpen = func(int, string) error {
				m.mu.Lock()
				if most = m.maxOpen; most > 60 {
					c.Desc("files", fmt.Sprint(len(files)))
				}
				m.mu.Unlock()
				return nil
			}
		})
	})
	c.Note("configs of many files")
	if most > 60 {
		c.Failf("%d files of %d are open at the same time", most, n)
	}
}

func leakParse(c *C, files map[string]string, o cp.ParseOptions, setup func(m *memFS)) {
	base := runtime.NumGoroutine()
	m := newMemFS(files)
	if setup != nil {
		setup(m)
	}
	c.Desc("files", files)
	c.Desc("options", optString(&o))
	p, err := cp.Parse("/c/main", m.with(o))
	if d := m.check(); d != "" {
		c.Failf("parse (%v): %s", err, d)
	}
	quiet(c, base)
	c.NoteIf(err != nil, "parses that fail")
	c.NoteIf(err == nil, "parses")
	c.NoteN("opens", len(m.opens))
	key := "ok"
	if err != nil {
		key = digits.ReplaceAllString(err.Error(), "0")
	} else if len(p.Errors) > 0 {
		key = digits.ReplaceAllString(p.Errors[0].Error.Error(), "0")
	}
	c.Sig(key, fmt.Sprint(len(m.opens), len(m.globs)))
	c.Sample(func() string { return fmt.Sprintf("%d opens, %d globs: %s", len(m.opens), len(m.globs), key) })
	if err == nil && p != nil {
		_, _ = p.Combined()
		quiet(c, base)
	}
}

func init() {
	register(&Check{
		ID: "C14", Level: "exploration", Serial: true,
		Rule: "parses of valid, invalid and hostile files and file sets, with read, open and glob faults, with extensions, stop-on-error, combine, small token channels; lexers that are read to the end; builds with faults; combining of valid and invalid hand-made payloads. After each call the recorded opens and closes are balanced and the goroutines are those from before; descriptors of the process for files on disk. Distinct: outcomes by number of opens.",
		Streams: []Stream{
			{Name: "worlds", Quick: 2000, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: c.R.P(2, 3), cycles: c.R.P(1, 5), soup: c.R.Bool()})
				o := cp.ParseOptions{ErrorOnUnknownDirectives: c.R.Bool(), StopParsingOnError: c.R.Bool(), CombineConfigs: c.R.P(1, 3), ParseComments: c.R.Bool()}
				withCap(c, func() { leakParse(c, w.files, o, nil) })
			}},
			{Name: "faults", Quick: 2000, Run: func(c *C) {
				r := c.R
				w := genWorld(r, worldCfg{errs: r.P(1, 3), soup: r.P(1, 4)})
				o := cp.ParseOptions{StopParsingOnError: r.Bool(), CombineConfigs: r.P(1, 3)}
				n, kind := 1+r.N(5), r.N(3)
				withCap(c, func() {
					leakParse(c, w.files, o, func(m *memFS) {
						hook := func(k int, _ string) error {
							if k == n {
								return errInjected
							}
							return nil
						}
						switch kind {
						case 0:
							m.onOpen = hook
						case 1:
							m.onGlob = func(k int, _ string) error { return hook(k+n-1, "") }
						default:
							seen := 0
							m.reader = func(path string, rd io.Reader) io.Reader {
								if seen++; seen != n {
									return rd
								}
								hit := false
								return &faultReader{s: w.files[path], n: r.N(len(w.files[path]) + 1), err: errInjected, hit: &hit}
							}
						}
					})
				})
			}},
			{Name: "hostile", Quick: 5000, Run: func(c *C) {
				o := genDiffOpts(c.R)
				withCap(c, func() { leakParse(c, map[string]string{"/c/main": soupCase(c.R)}, o, nil) })
			}},
			{Name: "extensions", Quick: 3000, Run: func(c *C) {
				r := c.R
				o := genDiffOpts(r)
				o.LexOptions = luaOpts()
				if r.Bool() {
					o.LexOptions.Lexers = append(o.LexOptions.Lexers, cp.LexWithLexer(&slowLexer{r.N(6), r.P(1, 3)}, "a", "server", "x1", "map"))
				}
				text := luaText(r)
				if r.Bool() {
					text = mutate(r, text)
				}
				if r.P(1, 3) {
					text = soupCase(r)
				}
				withCap(c, func() { leakParse(c, map[string]string{"/c/main": text}, o, nil) })
			}},
			{Name: "lexer", Quick: 4000, Run: func(c *C) {
				r := c.R
				base := runtime.NumGoroutine()
				text := soupCase(r)
				c.Desc("text", text)
				withCap(c, func() {
					if r.Bool() {
						lexText(text)
					} else {
						lo := luaOpts()
						if r.Bool() {
							lo.Lexers = append(lo.Lexers, cp.LexWithLexer(&slowLexer{r.N(6), r.P(1, 3)}, "a", "server", "x1"))
						}
						lexAll(cp.LexWithOptions(strings.NewReader(text), lo))
					}
				})
				quiet(c, base)
				c.Note("lexers")
			}},
			{Name: "disk", Quick: 300, Run: func(c *C) { diskLeakCase(c) }},
			{Name: "many", Quick: 40, Run: func(c *C) { openFilesCase(c) }},
			{Name: "builds", Quick: 1500, Run: func(c *C) { buildLeakCase(c) }},
			{Name: "combines", Quick: 3000, Run: func(c *C) {
				// hand-made payloads, with invalid and cyclic indexes at any depth
				base := runtime.NumGoroutine()
				p := genCombine(c.R)
				c.Desc("payload", jsonOf(p.Config))
				_, err := p.Combined()
				quiet(c, base)
				c.NoteIf(err != nil, "combines that fail")
				c.NoteIf(err == nil, "combines")
			}},
		},
		MinNote: map[string]int{"parses that fail": 500, "parses": 2000, "lexers": 1000, "builds": 500, "failed builds": 200, "combines": 1000, "combines that fail": 1000},
		Assume:  []string{"a goroutine blocked in two dumps 300 ms apart after the call has returned, with no one else holding its channel, stays blocked"},
	})

	register(&Check{
		ID: "C15", Level: "fault_enumeration",
		Rule: "read: an error at every byte (long files: 30 random bytes) of valid configs, with and without data, of main and included files, within Lua blocks, and of configs with errors; open: every open and every glob of a parse fails in turn; write, into, disk: errors at chosen bytes of Build, at each create, write and close of BuildInto, and unwritable targets of BuildFiles. Distinct: fault positions.",
		Streams: []Stream{
			{Name: "read", Quick: 1200, Run: func(c *C) { readFaultCase(c, true) }},
			{Name: "readbad", Quick: 1000, Run: func(c *C) { readFaultCase(c, false) }},
			{Name: "open", Quick: 1200, Run: func(c *C) { openFaultCase(c) }},
			{Name: "diskread", Quick: 300, Run: func(c *C) { diskReadFaultCase(c) }},
			{Name: "noprogress", Quick: 100, Run: func(c *C) { stallCase(c) }},
			{Name: "write", Quick: 800, Run: func(c *C) { writeFaultCase(c) }},
			{Name: "into", Quick: 800, Run: func(c *C) { intoFaultCase(c) }},
			{Name: "disk", Quick: 300, Run: func(c *C) { diskFaultCase(c) }},
		},
		MinNote: map[string]int{"read faults": 10000, "open faults": 1000, "glob faults": 50, "write faults": 2000, "create faults": 200, "close faults": 200, "disk faults": 100, "device is full": 10},
		Assume:  []string{"writers follow the io.Writer contract", "the failing close of a file on disk cannot be provoked here"},
	})
}

// withCap runs f with a random capacity of the token channel (only in serial checks).
func withCap(c *C, f func()) {
	cp.SetTokenChanCap(pick(c.R, []int{0, 1, 2, 64, cp.TokenChanCap}))
	defer cp.SetTokenChanCap(64)
	f()
}

type stallReader struct {
	s string
	n int
}

func (s *stallReader) Read(b []byte) (int, error) {
	if s.n <= 0 {
		return 0, nil // for ever
	}
	k := copy(b[:1], s.s)
	s.s = s.s[k:]
	s.n -= k
	return k, nil
}

// stallCase has a reader that gives nothing for ever: bufio turns that into an error.
func stallCase(c *C) {
	r := c.R
	st := genStyle(r)
	text, _ := render(r, genReal(r), &st)
	m := newMemFS(map[string]string{"/c/main": text})
	k := r.N(len(text) + 1)
	m.reader = func(string, io.Reader) io.Reader { return &stallReader{text, k} }
	p, err := cp.Parse("/c/main", m.with(cp.ParseOptions{SingleFile: true}))
	if ok, _ := reported(p, err, io.ErrNoProgress); !ok {
		c.Desc("text", text)
		c.Failf("a reader that stops after %d bytes is not reported: %v %+v", k, err, p)
	}
	c.Note("stalls")
}

func diskLeakCase(c *C) {
	r := c.R
	dir, err := os.MkdirTemp("", "leak")
	must(err)
	defer os.RemoveAll(dir)
	w := genWorld(r, worldCfg{errs: r.Bool(), cycles: r.P(1, 5), soup: r.P(1, 4)})
	for f, s := range w.files {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "/c/", dir+"/c/"), "/etc/other", dir+"/etc/other")
		f = dir + f
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte(s), 0o644))
	}
	base, fds := runtime.NumGoroutine(), countFDs()
	o := &cp.ParseOptions{StopParsingOnError: r.Bool(), CombineConfigs: r.P(1, 3)}
	p, err := cp.Parse(dir+"/c/main", o)
	quiet(c, base)
	if n := countFDs(); n != fds {
		c.Desc("files", w.files)
		c.Failf("%d descriptors before the parse, %d after (%v)", fds, n, err)
	}
	c.Note("parses on disk")
	if err == nil {
		err := cp.BuildFiles(*p, dir+"/out", &cp.BuildOptions{})
		if n := countFDs(); n != fds {
			c.Failf("%d descriptors before the build, %d after (%v)", fds, n, err)
		}
	}
	c.Sig("disk", fmt.Sprint(len(w.files), err != nil))
}

func buildLeakCase(c *C) {
	r := c.R
	p := genPayload(r)
	if len(p.Config) == 0 {
		return
	}
	base := runtime.NumGoroutine()
	cr := &creator{failAt: -1, err: faultErr(r)}
	if r.P(2, 3) {
		cr.failAt, cr.failOp, cr.failK = r.N(len(p.Config)), pick(r, []string{"create", "write", "close"}), r.N(30)
	}
	err := cp.BuildInto(p, cr, genBuildOpts(r))
	if cr.open != 0 || len(cr.bad) > 0 {
		c.Desc("payload", jsonOf(p))
		c.Failf("BuildInto (%v, failing %s of %d) leaves %d outputs open, closes %v, %q", err, cr.failOp, cr.failAt, cr.open, cr.closes, cr.bad)
	}
	quiet(c, base)
	c.Note("builds")
	c.NoteIf(err != nil, "failed builds")
	c.Sig("into", cr.failOp, fmt.Sprint(cr.failAt, len(p.Config)))
	// files on disk
	if r.P(1, 4) {
		dir, e := os.MkdirTemp("", "bleak")
		must(e)
		defer os.RemoveAll(dir)
		if r.Bool() {
			must(os.Symlink("/dev/full", filepath.Join(dir, "full.conf")))
			p.Config[r.N(len(p.Config))].File = "full.conf"
		}
		fds := countFDs()
		err := cp.BuildFiles(*p, dir, genBuildOpts(r))
		if n := countFDs(); n != fds {
			c.Desc("payload", jsonOf(p))
			c.Failf("%d descriptors before BuildFiles, %d after (%v)", fds, n, err)
		}
		c.NoteIf(err != nil, "failed builds on disk")
	}
}
