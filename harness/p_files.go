package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C11 (includes), C12 (cycles), C13 (combining), C19 (options).

// diskFS is the real file system, for the reference parser.
type diskFS struct{ dirs int }

func (f *diskFS) Read(path string) (string, error) {
	if st, err := os.Stat(path); err == nil && st.IsDir() {
		f.dirs++ // a pattern matches a directory: opening succeeds and reading fails
	}
	b, err := os.ReadFile(path)
	return string(b), err
}

func (f *diskFS) Glob(p string) ([]string, error) { return filepath.Glob(p) }

// oddNames are parts of file names that mean something somewhere.
var oddNames = []string{"a b", "a'b", `q"q`, "x{y}", "semi;colon", "hash#", "dollar$", "$var", "ü", "a,b", "-dash", ".hidden", "UPPER", "upper", "~t", "a\tb", "10", "9", "a.conf.bak",
	"100%", "%d", "%s%v", "a%!b", "%20x", "<b>", "a&b", "a=b", "a+b", "a:b", "a@b", "a|b", "(a)", "a!", "`q`", "^a"}

// nameWorld makes a file set whose structure is all about names: odd names, patterns, spellings, repeated includes.
func nameWorld(r *Rand, root string) map[string]string {
	files := map[string]string{}
	dirs := []string{root, root + "/d", root + "/d/e", root + "/D"}
	var names []string
	for n := r.Range(2, 8); n > 0; n-- {
		base := pick(r, oddNames)
		if r.P(1, 6) {
			base = dictFile(r)
		}
		if r.Bool() {
			base = fmt.Sprintf("%c%d", 'a'+rune(r.N(3)), r.N(12))
		}
		p := pick(r, dirs) + "/" + base + pick(r, []string{".conf", ".conf", ""})
		if p == root+"/main" || (root != "" && len(p) > 150) {
			continue
		}
		if _, ok := files[p]; !ok {
			files[p] = ""
			names = append(names, p)
		}
	}
	if root == "/c" && r.P(1, 3) { // names that are spelled in a way of their own
		for n := r.Range(1, 3); n > 0; n-- {
			p := root + pick(r, []string{"//", "/./", "/d/../", "/d//", "/../" + strings.TrimPrefix(root, "/") + "/"}) + pick(r, []string{"a1", "b", "s.conf"})
			if _, ok := files[p]; !ok {
				files[p] = ""
				names = append(names, p)
			}
		}
	}
	if r.P(1, 4) { // a crowd: many files for one pattern
		d := pick(r, dirs)
		long := r.Bool()
		for n := r.Range(10, 60); n > 0; n-- {
			base := fmt.Sprint(r.N(1000))
			if long {
				base = pick(r, []string{"x", "X", "_", "é", "9"}) + strings.Repeat(pick(r, []string{"a", "b", "-", "0"}), r.N(12)) + base
			}
			p := d + "/" + strings.Trim(base, "/.*?[]\\") + ".conf"
			if _, ok := files[p]; !ok {
				files[p] = ""
				names = append(names, p)
			}
		}
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	spell := func(p string) string {
		if p != filepath.Clean(p) && r.Bool() {
			return p
		}
		switch r.N(6) {
		case 0:
			return p
		case 1:
			// a detour
			rel, _ := filepath.Rel(root, p)
			return pick(r, []string{"./", "d/../", "d/e/../../", ".//"}) + rel
		case 2:
			if r.P(1, 3) { // a class of characters and nothing else
				b := []rune(filepath.Base(p))
				if k := r.N(len(b)); !strings.ContainsRune(`[]^-\*?`, b[k]) {
					return filepath.Dir(p) + "/" + string(b[:k]) + "[" + pick(r, []string{"", "a-c", "x"}) + string(b[k]) + "]" + string(b[k+1:])
				}
			}
			return filepath.Dir(p) + "/*" + pick(r, []string{"", ".conf", "[0-9]*", "?.conf"})
		case 3:
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			return rel + "/" + pick(r, []string{"[ab]*.conf", "?[0-9].conf", "[!a]*", "*.none", "a*", "[a-b][0-9]*.conf"})
		}
		rel, _ := filepath.Rel(root, p)
		return rel
	}
	body := func(i int) string {
		var sb strings.Builder
		for k := r.N(3); k > 0; k-- {
			fmt.Fprintf(&sb, "d%d_%d x;\n", i+1, k)
		}
		later := names
		if i >= 0 {
			later = names[i+1:]
		}
		for k := r.N(4); k > 0 && len(later) > 0; k-- {
			s := spell(pick(r, later))
			l := writeAs(r, s)
			inc := "include " + l.Src + ";\n"
			if r.P(1, 3) {
				inc = "blk {" + inc + "}\n"
			}
			sb.WriteString(inc)
			if r.P(1, 4) {
				sb.WriteString(inc)
			}
		}
		return sb.String()
	}
	for i, n := range names {
		files[n] = body(i)
	}
	files[root+"/main"] = body(-1)
	if len(names) > 12 && r.P(3, 4) {
		files[root+"/main"] += "include " + pick(r, []string{"*.conf", "d/*.conf", "d/e/*.conf", "D/*.conf", "*/*.conf", "./*.conf"}) + ";\n"
	}
	return files
}

// includeCase compares with the reference and watches the calls of the hooks.
func includeCase(c *C, files map[string]string, main string, o cp.ParseOptions) {
	c.Desc("files", files)
	c.Desc("main", main)
	c.Desc("options", optString(&o))
	m := newMemFS(files)
	rec := &recFS{m: m}
	want, wantErr := refParse(rec, main, &o)
	p, err := cp.Parse(main, m.with(o))
	if (err != nil) != (wantErr != nil) {
		c.Failf("error %v, want %v", err, wantErr)
	}
	if err == nil {
		if d := diffPayload(p, want, false); d != "" {
			c.Failf("%s", d)
		}
		seen := map[string]bool{}
		for i, cf := range p.Config {
			if seen[cf.File] {
				c.Failf("%s is there twice", cf.File)
			}
			seen[cf.File] = true
			noteIncludes(c, p, cf.Parsed)
			_ = i
		}
		if len(p.Config) > 1 {
			var sb strings.Builder
			for _, cf := range p.Config {
				incSig(cf.Parsed, &sb)
				sb.WriteByte('|')
			}
			c.Sig(sb.String())
		}
		c.NoteN("configs", len(p.Config))
		c.NoteIf(p.Status != "ok", "payloads with errors")
	} else {
		c.Note("parses that fail")
		return
	}
	// every path that was asked for is one that the includes name
	if !o.StopParsingOnError {
		got, exp := uniq(m.globs), uniq(rec.globs)
		if !eqStrs(got, exp) {
			c.Failf("patterns %q, want %q", got, exp)
		}
		g, w := uniq(m.opens), uniq(rec.reads)
		if !eqStrs(g, w) {
			c.Failf("opened %q, want %q", g, w)
		}
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d files, %d patterns: %s", len(p.Config), len(m.globs), show(files))
	})
}

func uniq(xs []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

// recFS records what the reference parser asks for.
type recFS struct {
	m     *memFS
	reads []string
	globs []string
}

func (f *recFS) Read(p string) (string, error) {
	f.reads = append(f.reads, p)
	return f.m.Read(p)
}

func (f *recFS) Glob(p string) ([]string, error) {
	f.globs = append(f.globs, p)
	return f.m.Glob(p)
}

func noteIncludes(c *C, p *cp.Payload, ds cp.Directives) {
	for _, d := range ds {
		for _, i := range d.Includes {
			if i < 0 || i >= len(p.Config) {
				c.Failf("index %d in %s", i, cpDirString(d))
			}
		}
		c.NoteN("resolved includes", len(d.Includes))
		c.NoteIf(len(d.Includes) > 1, "patterns with several files")
		c.NoteIf(len(d.Includes) > 12, "patterns with many files")
		noteIncludes(c, p, d.Block)
	}
}

func incSig(ds cp.Directives, sb *strings.Builder) {
	for _, d := range ds {
		if d.Includes != nil {
			fmt.Fprint(sb, d.Includes)
		}
		if d.Block != nil {
			sb.WriteByte('{')
			incSig(d.Block, sb)
			sb.WriteByte('}')
		}
	}
}

// ---- cycles ----

type graph struct {
	n     int
	edges [][]int
}

// graphFiles writes a graph as files; some edges are written in ways that are no includes and are left out.
func graphFiles(r *Rand, g *graph, plain bool) map[string]string {
	files := map[string]string{}
	name := func(i int) string {
		if i == 0 {
			return "/c/main"
		}
		return fmt.Sprintf("/c/f%d.conf", i)
	}
	for i := 0; i < g.n; i++ {
		var sb strings.Builder
		edges := g.edges[i]
		for len(edges) > 0 {
			j := edges[0]
			f := name(j)
			inc := "include " + f + ";\n"
			if !plain && len(edges) > 1 && r.P(1, 4) {
				// one pattern for several
				k := r.Range(2, len(edges))
				set := ""
				for _, j := range edges[:k] {
					if j == 0 {
						set += ",main"
					} else {
						set += fmt.Sprintf(",f%d.conf", j)
					}
				}
				inc, edges = "include /set*/"+set[1:]+";\n", edges[k-1:]
			}
			edges = edges[1:]
			if !plain {
				switch r.N(11) {
				case 0:
					inc = "http { " + inc + "}\n"
				case 1:
					if j > 0 && j < 10 && !strings.Contains(inc, "*") {
						inc = fmt.Sprintf("include f[%d].conf;\n", j)
					}
				case 2:
					inc += "include " + strings.TrimPrefix(f, "/c/") + ";"
				case 3:
					inc = "\"include\" '" + f + "';" + inc
				case 4:
					inc = "a { b { " + inc + " } " + inc + "}\n"
				case 5, 6:
					n := r.Range(1, 9)
					inc = strings.Repeat("d x { ", n) + inc + strings.Repeat("}", n) + "\n"
				}
			}
			sb.WriteString(inc)
			if !plain && r.P(1, 4) {
				// not includes
				sb.WriteString(pick(r, []string{"# include /c/main;\n", "x \"include /c/main;\";\n", "map $a $b { include /c/main; }\n", "ign { include /c/main; }\n", "x include /c/main;\n"}))
			}
		}
		files[name(i)] = sb.String()
	}
	return files
}

// reachCycle tells whether a cycle can be reached from node 0, by removing nodes without ways out.
func reachCycle(g *graph) bool {
	reach := map[int]bool{0: true}
	for todo := []int{0}; len(todo) > 0; {
		i := todo[0]
		todo = todo[1:]
		for _, j := range g.edges[i] {
			if !reach[j] {
				reach[j] = true
				todo = append(todo, j)
			}
		}
	}
	for {
		gone := -1
		for i := range reach {
			out := false
			for _, j := range g.edges[i] {
				out = out || reach[j]
			}
			if !out {
				gone = i
				break
			}
		}
		if gone < 0 {
			return len(reach) > 0
		}
		delete(reach, gone)
	}
}

func cycleCase(c *C, g *graph, plain bool) {
	files := graphFiles(c.R, g, plain)
	want := reachCycle(g)
	o := cp.ParseOptions{IgnoreDirectives: []string{"ign"}, DirectiveSources: []cp.MatchFunc{noMatch}}
	if !plain {
		o.StopParsingOnError = c.R.Bool()
		o.ParseComments = c.R.Bool()
		o.CombineConfigs = c.R.P(1, 4) && g.n < 8
	}
	m := newMemFS(files)
	opts := func() *cp.ParseOptions {
		q := m.with(o)
		q.Glob = func(p string) ([]string, error) {
			if !strings.HasPrefix(p, "/set*/") {
				return m.GlobHook(p)
			}
			out := strings.Split(strings.ReplaceAll(","+p[len("/set*/"):], ",", ",/c/"), ",")[1:]
			NewRand(hashStr(p)).Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
			return out, nil
		}
		return q
	}
	p, err := cp.Parse("/c/main", opts())
	got := err != nil && strings.Contains(err.Error(), "include cycle")
	if got != want || (err != nil && !got) || (err == nil && p.Status != "ok") {
		c.Desc("files", files)
		c.Desc("options", optString(&o))
		c.Failf("cycle: %v, error: %v", want, err)
	}
	c.NoteIf(want, "cycles")
	c.NoteIf(!want, "no cycles")
	c.Sig(fmt.Sprint(g.edges))
	c.Sample(func() string { return fmt.Sprintf("%v: cycle %v", g.edges, want) })
	if !want {
		o.SingleFile = true
	}
	if c.R.P(1, 10) {
		o.SingleFile = true
		o.CombineConfigs = false
		if _, err := cp.Parse("/c/main", opts()); err != nil {
			c.Failf("single file: %v", err)
		}
	}
}

func graphOf(n int, bits int) *graph {
	g := &graph{n: n, edges: make([][]int, n)}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if bits>>(i*n+j)&1 != 0 {
				g.edges[i] = append(g.edges[i], j)
			}
		}
	}
	return g
}

func randGraph(r *Rand) *graph {
	n := r.Range(2, 14)
	g := &graph{n: n, edges: make([][]int, n)}
	acyclic := r.Bool()
	for k := r.Range(n/2, n*3); k > 0; k-- {
		i, j := r.N(n), r.N(n)
		if acyclic && i >= j {
			if i == j {
				continue
			}
			i, j = j, i
		}
		g.edges[i] = append(g.edges[i], j)
	}
	if acyclic && r.Bool() {
		// rename, so that the order of numbers says nothing (0 stays)
		perm := make([]int, n)
		for i := range perm {
			perm[i] = i
		}
		r.Shuffle(n-1, func(i, j int) { perm[i+1], perm[j+1] = perm[j+1], perm[i+1] })
		h := &graph{n: n, edges: make([][]int, n)}
		for i, es := range g.edges {
			for _, j := range es {
				h.edges[perm[i]] = append(h.edges[perm[i]], perm[j])
			}
		}
		g = h
	}
	return g
}

// ---- combining ----

func copyDirs(ds cp.Directives) cp.Directives {
	if ds == nil {
		return nil
	}
	out := make(cp.Directives, len(ds))
	for i, d := range ds {
		if d == nil {
			continue
		}
		e := *d
		e.Args = append([]string(nil), d.Args...)
		if d.Args != nil && e.Args == nil {
			e.Args = []string{}
		}
		e.Includes = append([]int(nil), d.Includes...)
		if d.Comment != nil {
			s := *d.Comment
			e.Comment = &s
		}
		e.Block = copyDirs(d.Block)
		out[i] = &e
	}
	return out
}

func copyPayload(p *cp.Payload) *cp.Payload {
	q := &cp.Payload{Status: p.Status, Errors: append([]cp.PayloadError{}, p.Errors...)}
	for _, cf := range p.Config {
		cf.Errors = append([]cp.ConfigError{}, cf.Errors...)
		cf.Parsed = copyDirs(cf.Parsed)
		q.Config = append(q.Config, cf)
	}
	return q
}

// diffPay compares payloads field by field.
func diffPay(a, b *cp.Payload) string {
	if a.Status != b.Status || len(a.Errors) != len(b.Errors) || len(a.Config) != len(b.Config) {
		return fmt.Sprintf("status %q/%q, %d/%d errors, %d/%d configs", a.Status, b.Status, len(a.Errors), len(b.Errors), len(a.Config), len(b.Config))
	}
	for i := range a.Errors {
		x, y := a.Errors[i], b.Errors[i]
		if x.File != y.File || errKey(x.Error) != errKey(y.Error) || fmt.Sprint(x.Callback) != fmt.Sprint(y.Callback) {
			return fmt.Sprintf("payload error %d: %v and %v", i, x, y)
		}
	}
	for i := range a.Config {
		x, y := a.Config[i], b.Config[i]
		if x.File != y.File || x.Status != y.Status || len(x.Errors) != len(y.Errors) {
			return fmt.Sprintf("config %d: %q %q %d, %q %q %d", i, x.File, x.Status, len(x.Errors), y.File, y.Status, len(y.Errors))
		}
		for k := range x.Errors {
			if errKey(x.Errors[k].Error) != errKey(y.Errors[k].Error) {
				return fmt.Sprintf("config %d error %d", i, k)
			}
		}
		if d := diffGoDirs(x.Parsed, y.Parsed, fmt.Sprintf("config[%d]", i)); d != "" {
			return d
		}
	}
	return ""
}

// inline is the expected combination; ok is false for invalid indexes and cycles.
func inline(p *cp.Payload, ds cp.Directives, path map[int]bool) (out cp.Directives, ok bool) {
	for _, d := range ds {
		if d.Directive == "include" && d.Includes != nil {
			for _, i := range d.Includes {
				if i < 0 || i >= len(p.Config) || path[i] {
					return nil, false
				}
				path[i] = true
				sub, ok := inline(p, p.Config[i].Parsed, path)
				delete(path, i)
				if !ok {
					return nil, false
				}
				out = append(out, sub...)
			}
			continue
		}
		e := *d
		if d.Block != nil {
			sub, ok := inline(p, d.Block, path)
			if !ok {
				return nil, false
			}
			e.Block = append(cp.Directives{}, sub...)
		}
		out = append(out, &e)
	}
	return out, true
}

func checkCombined(c *C, p *cp.Payload, handMade bool) {
	before := copyPayload(p)
	q, err := p.Combined()
	if d := diffPay(p, before); d != "" {
		c.Failf("combining changes the payload: %s", d)
	}
	if len(p.Config) == 0 {
		return
	}
	want, ok := inline(p, p.Config[0].Parsed, map[int]bool{0: true})
	if ok != (err == nil) {
		c.Failf("combining gives error %v; valid indexes without cycles: %v", err, ok)
	}
	if !ok {
		if q != nil {
			c.Failf("payload with error %v", err)
		}
		c.Note("invalid payloads")
		return
	}
	status := p.Status
	if status == "" {
		status = "ok"
	}
	exp := &cp.Payload{Status: status, Errors: p.Errors, Config: []cp.Config{{File: p.Config[0].File, Status: "ok", Parsed: want}}}
	for _, cf := range p.Config {
		exp.Config[0].Errors = append(exp.Config[0].Errors, cf.Errors...)
		if cf.Status == "failed" {
			exp.Config[0].Status = "failed"
		}
	}
	if d := diffPay(q, exp); d != "" {
		c.Failf("combined: %s", d)
	}
	// again, and again from the result, which has nothing left to combine
	q2, err := p.Combined()
	if err != nil || diffPay(q2, q) != "" {
		c.Failf("combining again gives something else")
	}
	q3, err := q.Combined()
	if err != nil || diffPay(q3, q) != "" {
		c.Failf("combining the result changes it: %v", err)
	}
	c.Note("combined")
	n := 0
	for _, cf := range p.Config {
		n += countIncludes(cf.Parsed)
	}
	c.NoteN("includes replaced", n)
	if n > 0 {
		var sb strings.Builder
		for _, cf := range p.Config {
			incSig(cf.Parsed, &sb)
			sb.WriteByte('|')
		}
		c.Sig(sb.String())
	}
	c.Sample(func() string { return fmt.Sprintf("%d configs, %d includes", len(p.Config), n) })
}

func countIncludes(ds cp.Directives) int {
	n := 0
	for _, d := range ds {
		n += len(d.Includes) + countIncludes(d.Block)
	}
	return n
}

func blankFiles(ds cp.Directives) {
	for _, d := range ds {
		d.File = ""
		blankFiles(d.Block)
	}
}

func worldCombine(c *C, w *world) {
	c.Desc("files", w.files)
	m := newMemFS(w.files)
	o := cp.ParseOptions{ParseComments: c.R.Bool(), ErrorOnUnknownDirectives: c.R.Bool()}
	p, err := cp.Parse(w.main, m.with(o))
	co := o
	co.CombineConfigs = true
	q, cerr := cp.Parse(w.main, m.with(co))
	if (err != nil) != (cerr != nil) {
		c.Failf("separate: %v, combined: %v", err, cerr)
	}
	if err != nil {
		c.Note("parses that fail")
		return
	}
	checkCombined(c, p, false)
	r, err := p.Combined()
	if err != nil {
		c.Failf("%v", err)
	}
	// the combined parse names the file of each directive
	named, err2 := refParse(m, w.main, &co)
	if err2 == nil {
		if d := diffPayload(q, refCombine(named), false); d != "" {
			c.Failf("combined parse: %s", d)
		}
	}
	blankFiles(q.Config[0].Parsed)
	if d := diffPay(q, r); d != "" {
		c.Failf("combining while parsing and afterwards differ: %s", d)
	}
}

func madeCombine(c *C) {
	p := genCombine(c.R)
	c.Desc("payload", jsonOf(p.Config))
	checkCombined(c, p, true)
}

// genCombine makes a payload whose includes may be invalid or cyclic.
func genCombine(r *Rand) *cp.Payload {
	p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}}
	n := r.Range(0, 5)
	bad, cyc := r.P(1, 4), r.P(1, 4)
	var gen func(i, depth int) cp.Directives
	line := 0
	gen = func(i, depth int) cp.Directives {
		ds := cp.Directives{}
		for k := r.Geo(4); k > 0; k-- {
			line++
			d := &cp.Directive{Directive: pick(r, []string{"a", "include", "x", "#"}), Line: line, Args: []string{fmt.Sprint(line)}, File: pick(r, []string{"", "f"})}
			switch {
			case d.Directive == "#":
				s := fmt.Sprint("comment", line)
				d.Comment, d.Args = &s, []string{}
			case d.Directive == "include" && r.P(5, 6):
				for m := r.Range(1, 3); m > 0; m-- {
					lo := i + 1
					if cyc {
						lo = 0
					}
					if lo < n {
						d.Includes = append(d.Includes, r.Range(lo, n-1))
					}
					if bad && r.P(1, 3) {
						d.Includes = append(d.Includes, pick(r, []int{-1, n, n + 1, -1 << 40, 1 << 40}))
					}
				}
			case depth < 3 && r.Bool():
				d.Block = gen(i, depth+1)
			case r.P(1, 3):
				d.Includes = []int{99} // not an include: its indexes mean nothing
			}
			ds = append(ds, d)
		}
		return ds
	}
	for i := 0; i < n; i++ {
		cf := cp.Config{File: fmt.Sprintf("f%d", i), Status: "ok", Errors: []cp.ConfigError{}, Parsed: gen(i, 0)}
		if r.P(1, 4) {
			l := r.N(50)
			e := &cp.ParseError{What: fmt.Sprint("e", i), File: &cf.File, Line: &l}
			cf.Status, p.Status = "failed", "failed"
			cf.Errors = append(cf.Errors, cp.ConfigError{Line: &l, Error: e})
			p.Errors = append(p.Errors, cp.PayloadError{File: cf.File, Line: &l, Error: e})
		} else if r.P(1, 8) { // failed, but errors are not listed
			cf.Status, p.Status = "failed", "failed"
		}
		p.Config = append(p.Config, cf)
	}
	if len(p.Errors) == 0 && p.Status == "ok" && r.P(1, 3) { // nothing about errors is said
		p.Status, p.Errors = "", nil
	}
	return p
}

// ---- options ----

// optionCase has the effects of options on trees whose parts are known.
func optionCase(c *C) {
	r := c.R
	cfg := defaultTreeCfg(r)
	ns := genTree(r, 0, cfg)
	// a few names get marked as ignored wherever they are; some of these statements are made invalid
	ig := "ig"
	if r.P(1, 4) {
		if w := dictWord(r); w != "if" && w != "include" && w != "other ig" && !isMapName(w) && !mapParam(ns, w) && canRead(w) {
			ig = w
			c.Note("ignored words of the code")
		}
	}
	names := []string{ig, "other ig", "if"}[:1+r.N(3)]
	sources := []cp.MatchFunc{noMatch}
	strict := r.Bool()
	if strict {
		sources = []cp.MatchFunc{func(d string) ([]uint, bool) {
			if d == ig || d == "other ig" {
				return nil, false
			}
			return []uint{0xff | mAny | mBlock | ctxBits, mAny | ctxBits}, true
		}}
	}
	var mark func(ns []*GNode)
	mark = func(ns []*GNode) {
		for _, g := range ns {
			if g.Comment != nil || g.Map {
				continue
			}
			if r.P(1, 5) && !isMapName(g.Name.Val) && g.Name.Val != "if" {
				g.Name = writeAs(r, names[r.N(len(names))%2])
				if len(names) < 2 {
					g.Name = writeAs(r, ig)
				}
			}
			if r.P(1, 12) && !isMapName(g.Name.Val) && g.Name.Val != "if" { // a name that is like an ignored one
				if n := near(r, pick(r, names)); n != "" && n != "if" && !contains(names, n) && !isMapName(n) && n == clean(n) && !strings.ContainsAny(n, "\x00\\") && canRead(n) {
					g.Name = writeAs(r, n)
					c.Note("names like ignored ones")
				}
			}
			g.Ignored = contains(names, g.Name.Val)
			if g.Ignored {
				c.Note("ignored statements")
				c.NoteIf(g.HasBl, "ignored blocks")
			}
			if g.HasBl && !isMapName(g.Name.Val) {
				mark(g.Block)
			}
		}
	}
	mark(ns)
	// names that are no directive's, but made of names
	all := map[string]bool{}
	var pairs []string
	var collect func(up string, ns []*GNode)
	collect = func(up string, ns []*GNode) {
		for _, g := range ns {
			if g.Comment != nil {
				continue
			}
			n := g.Name.Val
			all[n] = true
			sep := pick(r, []string{" ", ">", "/", ".", ":", "\x00", ","})
			pairs = append(pairs, up+sep+n, n+sep+up, n+sep, n+sep+strings.Join(vals(g.Args), sep), n+";", n+" {", "#"+n)
			collect(n, g.Block)
		}
	}
	collect("main", ns)
	for k := r.N(4); k > 0 && len(pairs) > 0; k-- {
		if n := pick(r, pairs); !all[n] {
			names = append(names[:len(names):len(names)], n)
			c.Note("ignored names of no directive")
		}
	}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	st := genStyle(r)
	text, _ := render(r, ns, &st)
	c.Desc("text", text)
	o := cp.ParseOptions{SingleFile: true, DirectiveSources: sources, ErrorOnUnknownDirectives: strict, IgnoreDirectives: names, ParseComments: r.Bool()}
	c.Desc("options", optString(&o))
	p, err := parse1(text, o)
	if err != nil || p.Status != "ok" {
		c.Failf("parse failed: %v %v", err, p)
	}
	want := expect(ns, "", o.ParseComments)
	if d := diffDirs(p.Config[0].Parsed, want, ""); d != "" {
		c.Failf("%s", d)
	}
	c.NoteIf(!o.ParseComments, "without comments")
	var sb strings.Builder
	shape(want, &sb)
	c.Sig(sb.String(), fmt.Sprint(names))
	c.Sample(func() string { return fmt.Sprintf("ignoring %q in %q", names, text) })
}

// mapParam tells whether a parameter has this name.
func mapParam(ns []*GNode, name string) bool {
	for _, g := range ns {
		if g.Map && g.Name.Val == name || mapParam(g.Block, name) {
			return true
		}
	}
	return false
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func dropComments(ds cp.Directives) cp.Directives {
	if ds == nil {
		return nil
	}
	out := cp.Directives{}
	for _, d := range ds {
		if d.Comment != nil {
			continue
		}
		e := *d
		e.Block = dropComments(d.Block)
		out = append(out, &e)
	}
	return out
}

func dropIncludes(ds cp.Directives) {
	for _, d := range ds {
		d.Includes = nil
		dropIncludes(d.Block)
	}
}

// commentCase compares a parse with comments with one without.
func commentCase(c *C, files map[string]string, o cp.ParseOptions) {
	c.Desc("files", files)
	c.Desc("options", optString(&o))
	m := newMemFS(files)
	o.ParseComments = true
	p, err := cp.Parse("/c/main", m.with(o))
	o.ParseComments = false
	q, err2 := cp.Parse("/c/main", m.with(o))
	if err != nil || err2 != nil {
		if err == nil || err2 == nil || errKey(err) != errKey(err2) {
			c.Failf("with comments: %v, without: %v", err, err2)
		}
		c.Note("parses that fail")
		return
	}
	n := 0
	for i := range p.Config {
		n += countComments(p.Config[i].Parsed)
		p.Config[i].Parsed = dropComments(p.Config[i].Parsed)
	}
	if d := diffPay(p, q); d != "" {
		c.Failf("without comments the rest differs: %s", d)
	}
	c.NoteN("comments dropped", n)
	if n > 0 {
		c.Sig("comments", fmt.Sprint(n), fmt.Sprint(len(files), len(p.Errors)), classes(files["/c/main"]))
	}
}

// singleCase compares a parse of the main file alone with that of all files.
func singleCase(c *C) {
	r := c.R
	w := genWorld(r, worldCfg{errs: r.P(1, 3), cycles: r.P(1, 5)})
	c.Desc("files", w.files)
	o := cp.ParseOptions{ParseComments: r.Bool(), ErrorOnUnknownDirectives: r.Bool(), SingleFile: true, CombineConfigs: r.P(1, 5)}
	c.Desc("options", optString(&o))
	m := newMemFS(w.files)
	s, err := cp.Parse(w.main, m.with(o))
	if err != nil {
		c.Failf("single file: %v", err)
	}
	if len(m.opens) != 1 || m.opens[0] != w.main || len(m.globs) != 0 {
		c.Failf("single file: opened %q, matched %q", m.opens, m.globs)
	}
	if len(s.Config) != 1 || s.Config[0].File != w.main {
		c.Failf("single file: %d configs", len(s.Config))
	}
	if countIncludes(s.Config[0].Parsed) != 0 {
		c.Failf("single file: includes are resolved")
	}
	c.Note("single files")
	o.SingleFile = false
	comb := o.CombineConfigs
	o.CombineConfigs = false
	p, err := cp.Parse(w.main, m.with(o))
	if err != nil {
		c.Note("parses that fail")
		return
	}
	if comb {
		blankFiles(s.Config[0].Parsed)
	}
	if len(p.Config[0].Errors) == 0 || !hasFatal(m, w.main, o) {
		dropIncludes(p.Config[0].Parsed)
		if d := diffGoDirs(s.Config[0].Parsed, p.Config[0].Parsed, ""); d != "" {
			c.Failf("single file: %s", d)
		}
	}
	c.Sig("single", fmt.Sprint(len(p.Config), len(p.Errors)), classes(w.files["/c/main"]))
}

// hasFatal tells whether the main file ends early when its includes are resolved (a pattern or an include without
// argument), which a single file parse does not notice.
func hasFatal(m *memFS, main string, o cp.ParseOptions) bool {
	w, err := refParse(m, main, &o)
	return err != nil || w.Config[0].Parsed == nil
}

func init() {
	nameOpts := func(r *Rand) cp.ParseOptions {
		return cp.ParseOptions{DirectiveSources: []cp.MatchFunc{noMatch}, ParseComments: r.Bool()}
	}
	register(&Check{
		ID: "C11", Level: "exploration",
		Rule: "worlds: file sets that include each other in the contexts of nginx, with missing files, patterns that match none, one or many, cross-context includes; names: odd file names, spellings and patterns, repeated includes; both with hooks that record all opens and patterns, also with relative main files; disk: the same on a real directory without hooks. Everything is compared with a breadth-first reference; many: thousands of files, of includes of one, of blocks around them, and names of thousands of characters. Distinct: include index structures of payloads with several files.",
		Streams: []Stream{
			{Name: "worlds", Quick: 3500, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: c.R.Bool()})
				includeCase(c, w.files, w.main, cp.ParseOptions{ParseComments: c.R.Bool(), ErrorOnUnknownDirectives: c.R.Bool(), StopParsingOnError: c.R.P(1, 6)})
			}},
			{Name: "names", Quick: 4000, Run: func(c *C) {
				root := pick(c.R, []string{"/c", "/", "/c/with space", "rel", "rel/deep"})
				if root == "/" {
					root = ""
				}
				o := nameOpts(c.R)
				files := nameWorld(c.R, "/c")
				out := map[string]string{}
				for f, s := range files {
					out[root+strings.TrimPrefix(f, "/c")] = s
				}
				includeCase(c, out, root+"/main", o)
			}},
			{Name: "here", Quick: 1000, Run: func(c *C) {
				// a main file without directory
				files := map[string]string{}
				for f, s := range nameWorld(c.R, "/c") {
					files[strings.TrimPrefix(f, "/c/")] = s
				}
				includeCase(c, files, "main", nameOpts(c.R))
			}},
			{Name: "disk", Quick: 400, Run: func(c *C) {
				dir, err := os.MkdirTemp("", "inc")
				must(err)
				defer os.RemoveAll(dir)
				files := nameWorld(c.R, dir)
				for _, d := range []string{dir, dir + "/d", dir + "/d/e", dir + "/D"} {
					must(os.MkdirAll(d, 0o755))
				}
				for f, s := range files {
					must(os.WriteFile(f, []byte(s), 0o644))
				}
				c.Desc("files", files)
				o := nameOpts(c.R)
				o.CombineConfigs = c.R.P(1, 5)
				fs := &diskFS{}
				want, wantErr := refParse(fs, dir+"/main", &o)
				if fs.dirs > 0 {
					c.Note("patterns that match directories (left out)")
					return
				}
				p, err := cp.Parse(dir+"/main", &o)
				if (err != nil) != (wantErr != nil) {
					c.Failf("error %v, want %v", err, wantErr)
				}
				if err != nil {
					c.Note("parses that fail")
					return
				}
				if o.CombineConfigs {
					want = refCombine(want)
				}
				if d := diffPayload(p, want, false); d != "" {
					c.Failf("%s", d)
				}
				c.Note("on disk")
				c.NoteN("configs", len(p.Config))
			}},
			{Name: "many", Quick: 150, Run: manyIncludes},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "resolved includes": 5000, "patterns with several files": 300, "patterns with many files": 300, "configs": 10000, "payloads with errors": 300, "on disk": 200},
		Assume:  []string{"a file is named by the path that the include gives; two spellings of one path count as two files unless joining with the directory makes them equal"},
	})

	register(&Check{
		ID: "C12", Level: "exploration",
		Rule: "small: all include graphs with up to 3 files (thorough: 4); random: graphs with up to 14 files, includes in blocks of any depth, by pattern (also several with one), repeated, and things that look like includes; long: ladders, stars, trees and rings of up to thousands of files. Distinct: graphs.",
		Streams: []Stream{
			{Name: "small", Quick: 2 + 16 + 512, Run: func(c *C) { smallGraph(c, c.Idx) }, Thorough: 2 + 16 + 512 + 65536},
			{Name: "four", Quick: 3000, Run: func(c *C) { cycleCase(c, graphOf(4, c.R.N(65536)), true) }},
			{Name: "random", Quick: 5000, Run: func(c *C) { cycleCase(c, randGraph(c.R), false) }},
			{Name: "long", Quick: 40, Run: manyCycle},
		},
		MinNote: map[string]int{"cycles": 1000, "no cycles": 1000},
	})

	register(&Check{
		ID: "C13", Level: "exploration",
		Rule: "worlds: file sets with and without errors are parsed, combined afterwards and while parsing; names: file sets with many repeated and nested includes; made: hand-made payloads with repeated, nested, invalid and cyclic indexes. Compared with inlining by definition; the payload is compared with a deep copy; many: long, wide and nested. Distinct: include index structures.",
		Streams: []Stream{
			{Name: "worlds", Quick: 3000, Run: func(c *C) {
				worldCombine(c, genWorld(c.R, worldCfg{errs: c.R.Bool(), soup: c.R.P(1, 5)}))
			}},
			{Name: "names", Quick: 2500, Run: func(c *C) {
				worldCombine(c, &world{files: nameWorld(c.R, "/c"), main: "/c/main"})
			}},
			{Name: "made", Quick: 6000, Run: func(c *C) { madeCombine(c) }},
			{Name: "many", Quick: 160, Run: manyCombine},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "combined": 5000, "includes replaced": 5000, "invalid payloads": 500},
		Assume:  []string{"invalid indexes and cycles count where the first config leads to them"},
	})

	register(&Check{
		ID: "C19", Level: "exploration",
		Rule: "trees: trees in which statements to ignore are known, valid or not; comments: with and without comment parsing on worlds and hostile text; single: one file against all; combined: random combinations of options against the reference parser; many: thousands of ignored names, of statements, of blocks around includes. Distinct: shapes and option sets.",
		Streams: []Stream{
			{Name: "trees", Quick: 4000, Run: func(c *C) { optionCase(c) }},
			{Name: "comments", Quick: 6000, Run: func(c *C) {
				r := c.R
				o := genDiffOpts(r)
				switch r.N(3) {
				case 0:
					o.SingleFile = false
					o.DirectiveSources = nil
					commentCase(c, genWorld(r, worldCfg{errs: r.Bool(), soup: r.P(1, 4)}).files, o)
				case 1:
					st := genStyle(r)
					text, _ := render(r, genTree(r, 0, defaultTreeCfg(r)), &st)
					commentCase(c, map[string]string{"/c/main": text}, o)
				default:
					commentCase(c, map[string]string{"/c/main": soupCase(r)}, o)
				}
			}},
			{Name: "single", Quick: 2500, Run: func(c *C) { singleCase(c) }},
			{Name: "combined", Quick: 5000, Run: func(c *C) {
				r := c.R
				var files map[string]string
				if r.Bool() {
					files = genWorld(r, worldCfg{errs: r.Bool(), cycles: r.P(1, 8)}).files
				} else {
					files = map[string]string{"/c/main": soupCase(r)}
				}
				o := cp.ParseOptions{ParseComments: r.Bool(), SingleFile: r.P(1, 3), CombineConfigs: r.P(1, 3), ErrorOnUnknownDirectives: r.P(1, 3), SkipDirectiveArgsCheck: r.P(1, 4), SkipDirectiveContextCheck: r.P(1, 4)}
				for n := r.N(4); n > 0; n-- {
					o.IgnoreDirectives = append(o.IgnoreDirectives, pick(r, []string{"include", "server", "location", "if", "map", "http", "events", "types", "listen", "a", "#", "default", "", "upstream"}))
				}
				diffFiles(c, files, "/c/main", o, false, "all")
				c.NoteIf(len(o.IgnoreDirectives) > 0, "option sets with ignored names")
			}},
			{Name: "many", Quick: 120, Run: func(c *C) {
				switch c.R.N(3) {
				case 0:
					manySingle(c)
				case 1:
					manyDiff(c, true, "all")
				default:
					o := manyOpts(c.R)
					text := manyText(c.R, o.ErrorOnUnknownDirectives)
					noteMany(c, len(text)/8)
					commentCase(c, map[string]string{"/c/main": text}, o)
				}
			}},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "ignored statements": 2000, "ignored blocks": 300, "comments dropped": 2000, "single files": 1000, "option sets with ignored names": 1000},
	})
}

func smallGraph(c *C, n int) {
	for k, size := range []int{2, 16, 512, 65536} {
		if n < size {
			cycleCase(c, graphOf(k+1, n), true)
			return
		}
		n -= size
	}
}
