package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C23 (writing of files), C24 (layout) and C25 (comparison).

// layout walks built text along the directives that it was built from.
type layout struct {
	c    *C
	o    *cp.BuildOptions
	text string
	pos  int
	ext  func(d *cp.Directive) (string, bool)

	statements, onLine, deepest int
}

func (l *layout) margin(depth int) string {
	n := l.o.Indent
	if n == 0 {
		n = 4
	}
	s := " "
	if l.o.Tabs {
		n, s = 1, "\t"
	}
	var sb strings.Builder
	for i := 0; i < n*depth; i++ {
		sb.WriteString(s)
	}
	return sb.String()
}

func (l *layout) eat(s string, what string) {
	if !strings.HasPrefix(l.text[l.pos:], s) {
		rest := l.text[l.pos:]
		if len(rest) > 80 {
			rest = rest[:80]
		}
		l.c.Desc("built", l.text)
		l.c.Failf("byte %d of the text has %q, want %s: %q", l.pos, rest, what, s)
	}
	l.pos += len(s)
}

func (l *layout) has(s string) bool { return strings.HasPrefix(l.text[l.pos:], s) }

func (l *layout) check(ds cp.Directives) {
	if l.o.Header {
		// lines of comments and an empty line
		n := 0
		for l.has("#") {
			i := strings.IndexByte(l.text[l.pos:], '\n')
			if i < 0 {
				l.c.Failf("the header has no end: %q", l.text)
			}
			l.pos += i + 1
			n++
			if l.has("\n") {
				break
			}
		}
		if n == 0 {
			l.c.Failf("no header: %q", l.text)
		}
		l.eat("\n", "an empty line behind the header")
		l.c.Note("headers")
	}
	l.block(ds, 0, 0, true)
	if l.pos != len(l.text) {
		l.c.Desc("built", l.text)
		l.c.Failf("more text than directives: %q", l.text[l.pos:])
	}
	l.c.NoteN("statements laid out", l.statements)
	l.c.NoteN("comments on the line of a statement", l.onLine)
}

func (l *layout) block(ds cp.Directives, depth, lastLine int, first bool) {
	if depth > l.deepest {
		l.deepest = depth
	}
	for _, d := range ds {
		isComment := d.Directive == "#" && d.Comment != nil
		if isComment && d.Line == lastLine {
			l.eat(" #"+*d.Comment, "the comment of the line")
			l.onLine++
			continue
		}
		if !first {
			l.eat("\n", "the end of the line")
		}
		first = false
		l.eat(l.margin(depth), fmt.Sprintf("the margin of depth %d", depth))
		l.statements++
		lastLine = d.Line
		if l.ext != nil {
			if s, ok := l.ext(d); ok {
				l.eat(s, "the text of the builder")
				continue
			}
		}
		if isComment {
			l.eat("#"+*d.Comment, "the comment")
			continue
		}
		l.eat(cp.Enquote(d.Directive), "the name")
		if d.Directive == "if" && !d.IsMapBlockParameter {
			l.eat(" (", "the parenthesis")
			for i, a := range d.Args {
				if i == 0 && a != "" && !l.has(" "+cp.Enquote(a)) {
					l.eat(a, "the condition")
					continue
				}
				l.eat(" "+cp.Enquote(a), "the condition")
			}
			l.eat(")", "the parenthesis")
		} else {
			for _, a := range d.Args {
				l.eat(" "+cp.Enquote(a), "the argument")
			}
		}
		if d.Block == nil {
			l.eat(";", "the end of the statement")
			continue
		}
		l.eat(" {", "the start of the block")
		l.block(d.Block, depth+1, d.Line, false)
		l.eat("\n"+l.margin(depth)+"}", "the end of the block on a line of its own")
	}
}

// lineUp gives lines to hand-made directives: ascending, and equal now and then.
func lineUp(r *Rand, ds cp.Directives, line *int) {
	for _, d := range ds {
		if *line == 0 || r.P(2, 3) {
			*line++
		}
		d.Line = *line
		if d.Comment != nil {
			s := strings.NewReplacer("\n", " ", "\r", " ").Replace(*d.Comment)
			d.Comment = &s
		}
		if d.Directive == "if" && len(d.Args) == 0 {
			d.Args = []string{"$c"}
		}
		lineUp(r, d.Block, line)
	}
}

func layoutOpts(r *Rand) *cp.BuildOptions {
	o := &cp.BuildOptions{Indent: pick(r, []int{0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 25, 33, 50, 99, 100, 101, 130}), Tabs: r.P(1, 3), Header: r.P(1, 4)}
	if r.P(1, 2) {
		o.Indent = r.N(9)
	}
	if n, ok := dictInt(r, 0, 130); ok && r.P(1, 6) {
		o.Indent = n
	}
	return o
}

func layoutCase(c *C) {
	r := c.R
	var ds cp.Directives
	switch r.N(3) {
	case 0:
		ds = genDirectives(r, 0, true)
		line := 0
		lineUp(r, ds, &line)
	default:
		st := genStyle(r)
		text, _ := render(r, genTree(r, 0, defaultTreeCfg(r)), &st)
		c.Desc("source", text)
		p, err := parse1(text, anyOpts())
		if err != nil || p.Status != "ok" {
			c.Note("not parsed")
			return
		}
		ds = p.Config[0].Parsed
	}
	layoutOf(c, ds, layoutOpts(r))
}

// A textBuilder builds directives.
type textBuilder func(d *cp.Directive) string

func (b textBuilder) Build(d *cp.Directive) string { return b(d) }

func eachDirective(ds cp.Directives, f func(d *cp.Directive)) {
	for _, d := range ds {
		f(d)
		eachDirective(d.Block, f)
	}
}

// layoutOf checks the layout, and that another one has the same lines.
func layoutOf(c *C, ds cp.Directives, o *cp.BuildOptions) {
	c.Desc("directives", jsonOf(ds))
	c.Desc("options", fmt.Sprintf("%+v", *o))
	opts := fmt.Sprintf("%+v", *o)
	l := &layout{c: c, o: o}
	if c.R.P(1, 4) { // with a builder for some of the names
		names := map[string]bool{}
		var list []string
		eachDirective(ds, func(d *cp.Directive) {
			if d.Directive != "#" && c.R.P(1, 3) && !names[d.Directive] {
				names[d.Directive] = true
				list = append(list, d.Directive)
			}
		})
		c.Desc("names with a builder", list)
		text := func(d *cp.Directive) string { return fmt.Sprintf("<%s %d>", d.Directive, len(d.Args)) }
		o.Builders = []cp.RegisterBuilder{cp.BuildWithBuilder(textBuilder(text), list...)}
		l.ext = func(d *cp.Directive) (string, bool) { return text(d), names[d.Directive] }
		c.NoteIf(len(list) > 0, "with a builder")
	}
	l.text = buildText(c, ds, o)
	l.check(ds)
	c.NoteIf(l.deepest > 25, "deeper than 25")
	c.NoteIf(l.deepest*o.Indent > 100, "margins over 100")
	c.NoteIf(o.Tabs && l.deepest > 25, "many tabs")
	var sb strings.Builder
	exactString(ds, &sb)
	c.Sig(opts, classes(sb.String()))
	c.Sample(func() string { return fmt.Sprintf("%s %q", opts, l.text) })
}

// deepCase nests blocks, with statements and comments on the way down and up.
func deepCase(c *C) {
	r := c.R
	depth := pick(r, []int{10, 20, 24, 25, 26, 27, 33, 34, 49, 50, 51, 99, 100, 101, 120, 200})
	line := 0
	var nest func(k int) cp.Directives
	nest = func(k int) cp.Directives {
		ds := cp.Directives{}
		some := func() {
			if r.P(1, 4) {
				line++
				ds = append(ds, &cp.Directive{Directive: "s", Args: []string{fmt.Sprint(k)}, Line: line})
			}
			if r.P(1, 5) {
				s := fmt.Sprint(" depth ", k)
				if line == 0 || r.Bool() {
					line++
				}
				ds = append(ds, &cp.Directive{Directive: "#", Args: []string{}, Comment: &s, Line: line})
			}
		}
		some()
		if k < depth {
			line++
			d := &cp.Directive{Directive: "b", Args: []string{}, Line: line}
			d.Block = nest(k + 1)
			ds = append(ds, d)
			some()
		}
		return ds
	}
	layoutOf(c, nest(0), layoutOpts(r))
}

// marginsCase has every indent at a fixed set of depths.
func marginsCase(c *C) {
	for tabs := 0; tabs < 2; tabs++ {
		var mk func(k int) cp.Directives
		mk = func(k int) cp.Directives {
			if k == 0 {
				return cp.Directives{{Directive: "s", Args: []string{}, Line: 3}}
			}
			return cp.Directives{{Directive: "b", Args: []string{}, Line: 1, Block: mk(k - 1)}, {Directive: "t", Args: []string{"1"}, Line: 2}}
		}
		ds := mk(120)
		o := &cp.BuildOptions{Indent: c.Idx, Tabs: tabs == 1}
		l := &layout{c: c, o: o, text: buildText(c, ds, o)}
		c.Desc("options", fmt.Sprintf("%+v", *o))
		l.check(ds)
		c.NoteN("margins", 120)
		c.Evals(1)
	}
	c.Sig("margins", fmt.Sprint(c.Idx))
}

// ---- files ----

type fileState struct {
	content string
	dir     bool
	ino     uint64
	mtime   int64
	mode    os.FileMode
}

func snapshot(root string) map[string]fileState {
	out := map[string]fileState{}
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		st := fileState{dir: fi.IsDir(), mode: fi.Mode()}
		if sys, ok := fi.Sys().(*syscall.Stat_t); ok {
			st.ino = sys.Ino
		}
		if !st.dir {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			st.content, st.mtime = string(b), fi.ModTime().UnixNano()
		}
		out[p] = st
		return nil
	}))
	return out
}

// watchTree looks for changes of a tree other than the wanted ones.
func watchTree(c *C, before, after map[string]fileState, want map[string]string) {
	dirs := map[string]bool{}
	for p := range want {
		for d := filepath.Dir(p); d != "/" && d != "."; d = filepath.Dir(d) {
			dirs[d] = true
		}
	}
	for p, st := range before {
		now, ok := after[p]
		if _, w := want[p]; w {
			continue
		}
		switch {
		case !ok:
			c.Failf("%s is gone", p)
		case now.content != st.content || now.dir != st.dir || now.mtime != st.mtime || now.ino != st.ino || now.mode != st.mode:
			c.Failf("%s has changed: %+v, it was %+v", p, now, st)
		}
		c.NoteIf(!st.dir, "files left alone")
	}
	for p, now := range after {
		if w, ok := want[p]; ok {
			if now.dir || now.content != w {
				c.Failf("%s has %q, want %q", p, now.content, w)
			}
			old, was := before[p]
			c.NoteIf(was && len(old.content) > len(w), "longer files replaced")
			c.NoteIf(was && len(old.content) <= len(w), "shorter files replaced")
			c.NoteIf(!was, "files made")
			continue
		}
		if _, was := before[p]; !was && !(now.dir && dirs[p]) {
			c.Failf("%s was made", p)
		}
	}
	for p := range want {
		if _, ok := after[p]; !ok {
			c.Failf("%s was not made", p)
		}
	}
}

var nameParts = []string{"a", "b", "conf.d", "x y", "ü", "$v", "n.conf", "q'q", "{", ".h", "..x", "long" + strings.Repeat("n", 60), "nginx.conf", "A"}

func genBody(r *Rand) cp.Directives {
	switch r.N(5) {
	case 0:
		return nil
	case 1:
		ds := genDirectives(r, 0, false)
		line := 0
		lineUp(r, ds, &line)
		return ds
	case 2: // white space and comments at the end
		s := pick(r, []string{" c  ", "", "\t", " \u00a0", " x \u2003"})
		return cp.Directives{{Directive: "a", Args: []string{"b"}, Line: 1}, {Directive: "#", Args: []string{}, Comment: &s, Line: r.Range(1, 2)}}
	}
	st := genStyle(r)
	text, _ := render(r, genReal(r), &st)
	p, err := parse1(text, anyOpts())
	if err != nil {
		return nil
	}
	return p.Config[0].Parsed
}

func built(c *C, ds cp.Directives, o *cp.BuildOptions) string {
	return strings.TrimRightFunc(buildText(c, ds, o), unicode.IsSpace) + "\n"
}

// filesCase builds payloads with any file names to a directory among other files.
func filesCase(c *C) {
	r := c.R
	root, err := os.MkdirTemp("", "files")
	must(err)
	defer os.RemoveAll(root)
	dir := root + "/target"
	name, relative := "", ""
	switch r.N(8) {
	case 0: // a directory given by its relative name
		cwd, err := os.Getwd()
		must(err)
		relative = fmt.Sprintf("case%d-%d/%s", c.Idx, r.N(1000000), pick(r, []string{"out", "a", "conf.d", "a/b"}))
		dir = filepath.Join(cwd, relative)
		os.RemoveAll(root)
		root = filepath.Join(cwd, strings.SplitN(relative, "/", 2)[0])
		must(os.Mkdir(root, 0o755))
		defer os.RemoveAll(root)
	case 1: // the working directory, which setup made
		name = fmt.Sprintf("case%d-%d/", c.Idx, r.N(1000000))
		cwd, err := os.Getwd()
		must(err)
		must(os.Mkdir(filepath.Join(cwd, name), 0o755))
		defer os.RemoveAll(filepath.Join(cwd, name))
		dir = cwd
	}
	fname := func() string {
		var ps []string
		for k := r.Range(1, 4); k > 0; k-- {
			ps = append(ps, pick(r, nameParts))
		}
		s := strings.Join(ps, "/")
		switch r.N(8) {
		case 0:
			s = "./" + s
		case 1:
			s = pick(r, nameParts) + "/../" + s
		case 2:
			s = strings.Replace(s, "/", "//", 1)
		case 3: // as if the directory were part of it
			s = filepath.Base(dir) + "/" + s
		case 4:
			if relative != "" {
				s = relative + "/" + s
			}
		}
		return name + s
	}
	full := func(n string) string {
		if filepath.IsAbs(n) {
			return filepath.Clean(n)
		}
		return filepath.Join(dir, n)
	}
	// p fits if it is not a directory of another file, and none of the files is a directory of it
	var taken []string
	fits := func(p string) bool {
		for _, q := range taken {
			if strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/") {
				return false
			}
		}
		return p != root && p != dir
	}
	p := cp.Payload{Status: genStatus(r)}
	want := map[string]string{}
	o := genBuildOpts(r)
	for k := r.N(5); k >= 0; k-- {
		n := fname()
		if r.P(1, 4) && name == "" {
			n = filepath.Clean(pick(r, []string{root + "/abs/", dir + "/", dir + "2/", dir + "/in/"}) + n)
		}
		if r.P(1, 12) && name == "" {
			n = "../sibling/" + n
		}
		if !fits(full(n)) {
			continue
		}
		taken = append(taken, full(n))
		cf := cp.Config{File: n, Status: genStatus(r), Parsed: genBody(r)}
		if r.P(1, 6) {
			cf.Parsed = nil
		}
		cf.Errors, p.Errors = genConfigErrors(r, cf)
		p.Config = append(p.Config, cf)
		want[full(n)] = built(c, cf.Parsed, o)
		if r.P(1, 8) { // the same file twice, the last one counts
			cf.Parsed = genBody(r)
			p.Config = append(p.Config, cf)
			want[full(n)] = built(c, cf.Parsed, o)
		}
	}
	// older files
	old := func(path, content string) {
		must(os.MkdirAll(filepath.Dir(path), 0o755))
		must(os.WriteFile(path, []byte(content), 0o600))
	}
	for q, text := range want {
		switch r.N(4) {
		case 0:
			old(q, strings.Repeat("older content;\n", 1+len(text)/10))
		case 1:
			old(q, "x")
		}
		if r.P(1, 3) {
			other := pick(r, []string{q + ".bak", q + "~", filepath.Dir(q) + "/other", q + ".tmp"})
			if _, w := want[other]; !w && fits(other) {
				old(other, "keep me")
			}
		}
	}
	if r.Bool() {
		old(root+"/outside.conf", "keep me too")
	}
	watched := root
	if name != "" {
		watched = filepath.Join(dir, strings.TrimSuffix(name, "/"))
	}
	before := snapshot(watched)
	dirArg := dir
	if name != "" {
		dirArg = pick(r, []string{"", ".", dir})
	} else if relative != "" {
		dirArg = pick(r, []string{"", "", "./"}) + relative
		c.Note("relative directories")
	}
	if name == "" && r.P(1, 3) {
		dirArg += "/"
	}
	c.Desc("directory", dirArg)
	c.Desc("payload", jsonOf(p.Config))
	c.Desc("options", fmt.Sprintf("%+v", *o))
	if err := cp.BuildFiles(p, dirArg, o); err != nil {
		c.Failf("BuildFiles: %v", err)
	}
	watchTree(c, before, snapshot(watched), want)
	c.Note("trees")
	c.NoteIf(dirArg == "", "working directory")
	var names []string
	for q := range want {
		names = append(names, strings.TrimPrefix(q, root))
	}
	sort.Strings(names)
	c.Sig(append(names, fmt.Sprint(*o))...)
	c.Sample(func() string { return fmt.Sprintf("%q", names) })
}

// backCase writes what was parsed from disk, in place or to another directory, and parses it again.
func backCase(c *C) {
	r := c.R
	root, err := os.MkdirTemp("", "back")
	must(err)
	defer os.RemoveAll(root)
	src := root + "/src"
	files := nameWorld(r, src)
	for f, s := range files {
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte(s), 0o644))
	}
	c.Desc("files", files)
	o := cp.ParseOptions{ParseComments: r.Bool()}
	o.DirectiveSources = []cp.MatchFunc{noMatch}
	p, err := cp.Parse(src+"/main", &o)
	if err != nil || p.Status != "ok" {
		c.Note("not parsed")
		return
	}
	bo := genBuildOpts(r)
	if o.ParseComments {
		bo.Header = false
	}
	dst := src
	abs := false
	for _, cf := range p.Config {
		for f := range files {
			abs = abs || strings.Contains(flatString(cf.Parsed, true), filepath.Dir(f)+"/")
		}
	}
	q := copyPayload(p)
	if !abs && r.Bool() { // no absolute names: the tree can move
		dst = root + "/dst"
		for i := range q.Config {
			rel, err := filepath.Rel(src, q.Config[i].File)
			must(err)
			q.Config[i].File = rel
		}
		c.Note("moved trees")
	} else {
		c.Note("trees in place")
	}
	before := snapshot(root)
	want := map[string]string{}
	for _, cf := range q.Config {
		n := cf.File
		if !filepath.IsAbs(n) {
			n = filepath.Join(dst, n)
		}
		want[filepath.Clean(n)] = built(c, cf.Parsed, bo)
	}
	if err := cp.BuildFiles(*q, dst, bo); err != nil {
		c.Failf("BuildFiles: %v", err)
	}
	watchTree(c, before, snapshot(root), want)
	p2, err := cp.Parse(dst+"/main", &o)
	if err != nil {
		c.Failf("the written tree does not parse: %v", err)
	}
	if p2.Status != "ok" || len(p2.Config) != len(p.Config) {
		c.Failf("the written tree has status %s and %d files, want %d", p2.Status, len(p2.Config), len(p.Config))
	}
	for i := range p.Config {
		a, b := p.Config[i], p2.Config[i]
		if strings.TrimPrefix(filepath.Clean(a.File), src) != strings.TrimPrefix(filepath.Clean(b.File), dst) {
			c.Failf("config %d is %s, want %s", i, b.File, a.File)
		}
		if x, y := flatString(a.Parsed, o.ParseComments), flatString(b.Parsed, o.ParseComments); x != y {
			c.Failf("%s differs:\n%q\n%q", a.File, x, y)
		}
		if x, y := includesOf(a.Parsed), includesOf(b.Parsed); x != y {
			c.Failf("%s includes %s, want %s", a.File, y, x)
		}
	}
	c.Note("trees parsed back")
	c.NoteIf(len(p.Config) > 2, "of several files")
	c.Sig(fmt.Sprint(len(p.Config)), flatString(p.Config[0].Parsed, true))
}

func includesOf(ds cp.Directives) string {
	var sb strings.Builder
	for _, d := range ds {
		if d.Directive == "include" {
			fmt.Fprint(&sb, d.Includes)
		}
		sb.WriteString(includesOf(d.Block))
	}
	return sb.String()
}

// genStatus gives a status; what is built is not a matter of it.
func genStatus(r *Rand) string {
	return pick(r, []string{"ok", "ok", "ok", "failed", "", "other"})
}

// genConfigErrors gives errors for a config, and for its payload.
func genConfigErrors(r *Rand, cf cp.Config) (es []cp.ConfigError, ps []cp.PayloadError) {
	for r.P(1, 4) {
		line := r.N(5)
		es = append(es, cp.ConfigError{Line: &line, Error: errors.New("e")})
		ps = append(ps, cp.PayloadError{File: cf.File, Line: &line, Error: errors.New("e")})
	}
	return es, ps
}

// intoCase builds into a creator that records what is done to it, and into strings.
func intoCase(c *C) {
	r := c.R
	p := &cp.Payload{Status: genStatus(r)}
	o := genBuildOpts(r)
	var texts, names []string
	for k := r.N(6); k > 0; k-- {
		cf := cp.Config{File: pick(r, []string{"", "/abs/f", "a/../b", "x", "x", "y z", "./x"}), Status: genStatus(r), Parsed: genBody(r)}
		if r.P(1, 6) {
			cf.Parsed = nil
		}
		cf.Errors, p.Errors = genConfigErrors(r, cf)
		p.Config = append(p.Config, cf)
		names = append(names, cf.File)
		texts = append(texts, buildText(c, cf.Parsed, o))
	}
	c.Desc("payload", jsonOf(p.Config))
	c.Desc("options", fmt.Sprintf("%+v", *o))
	cr := &creator{failAt: -1}
	if err := cp.BuildInto(p, cr, o); err != nil {
		c.Failf("BuildInto: %v", err)
	}
	if len(cr.bad) > 0 || cr.open != 0 {
		c.Failf("%d outputs are open, %q", cr.open, cr.bad)
	}
	if !eqStrs(cr.names, names) {
		c.Failf("outputs %q, want %q", cr.names, names)
	}
	for i := range names {
		if cr.closes[i] != 1 {
			c.Failf("output %d was closed %d times", i, cr.closes[i])
		}
		if cr.texts[i] != texts[i] {
			c.Failf("output %d has %q, want %q", i, cr.texts[i], texts[i])
		}
	}
	sc := &cp.StringsCreator{}
	for round := 1; round <= 2; round++ {
		if err := cp.BuildInto(p, sc, o); err != nil {
			c.Failf("BuildInto: %v", err)
		}
		if len(sc.Files) != round*len(names) {
			c.Failf("%d strings, want %d", len(sc.Files), round*len(names))
		}
		for i, f := range sc.Files {
			if k := i % len(names); f.Name != names[k] || f.String() != texts[k]+"\n" {
				c.Failf("string %d is %q %q, want %q %q", i, f.Name, f.String(), names[k], texts[k]+"\n")
			}
		}
	}
	sc.Reset()
	if len(sc.Files) != 0 {
		c.Failf("reset leaves %d strings", len(sc.Files))
	}
	f, err := sc.Create("n")
	must(err)
	var want strings.Builder
	for k := r.N(5); k > 0; k-- {
		s := genValue(r)
		want.WriteString(s)
		if n, err := io.WriteString(f, s); n != len(s) || err != nil {
			c.Failf("write: %d %v", n, err)
		}
	}
	must(f.Close())
	if len(sc.Files) != 1 || sc.Files[0].Name != "n" || sc.Files[0].String() != want.String()+"\n" {
		c.Failf("written strings: %+v", sc.Files)
	}
	c.NoteN("outputs", len(names))
	c.Sig(append(names, fmt.Sprint(*o))...)
}

// ---- comparison ----

// refEqual is the comparison by the letter of the statement.
func refEqual(a, b *cp.Directive) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if a.Directive != b.Directive || a.Line != b.Line || a.File != b.File || a.IsMapBlockParameter != b.IsMapBlockParameter {
		return false
	}
	if (a.Comment == nil) != (b.Comment == nil) || (a.Comment != nil && *a.Comment != *b.Comment) {
		return false
	}
	if !eqStrs(a.Args, b.Args) || !eqInts(a.Includes, b.Includes) {
		return false
	}
	if (a.Block == nil) != (b.Block == nil) || len(a.Block) != len(b.Block) {
		return false
	}
	for i := range a.Block {
		if !refEqual(a.Block[i], b.Block[i]) {
			return false
		}
	}
	return true
}

func judgeEqual(c *C, a, b *cp.Directive) bool {
	want := refEqual(a, b)
	got, back := a.Equal(b), b.Equal(a)
	if got != want || back != want {
		c.Desc("a", jsonOf(a))
		c.Desc("b", jsonOf(b))
		c.Failf("Equal gives %v and %v, want %v", got, back, want)
	}
	return want
}

func strp(s string) *string { return &s }

// smallDirectives are all combinations of few values for each field.
func smallDirectives() []*cp.Directive {
	var out []*cp.Directive
	for _, name := range []string{"a", "#"} {
		for _, args := range [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"ab"}, {"a b"}} {
			for _, line := range []int{1, 2} {
				for _, file := range []string{"", "f"} {
					for _, inc := range [][]int{nil, {1}, {2}, {1, 2}} {
						for _, com := range []*string{nil, strp(""), strp("c"), strp("d")} {
							for _, m := range []bool{false, true} {
								for b := 0; b < 4; b++ {
									d := &cp.Directive{Directive: name, Args: args, Line: line, File: file, Includes: inc, Comment: com, IsMapBlockParameter: m}
									switch b {
									case 1:
										d.Block = cp.Directives{}
									case 2:
										d.Block = cp.Directives{{Directive: "x", Args: []string{}}}
									case 3:
										d.Block = cp.Directives{{Directive: "x", Args: []string{}, Block: cp.Directives{}}}
									}
									if com != nil {
										d.Comment = strp(*com)
									}
									out = append(out, d)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

var smallDirs = smallDirectives()

func smallCase(c *C) {
	step := 1
	if c.Tier != "thorough" {
		step = 5
	}
	n := 0
	a := smallDirs[c.Idx]
	for i := c.Idx % step; i < len(smallDirs); i += step {
		if judgeEqual(c, a, smallDirs[i]) != (i == c.Idx) {
			c.Failf("the own comparison is wrong")
		}
		n++
	}
	judgeEqual(c, a, nil)
	if !a.Equal(a) {
		c.Failf("not equal to itself")
	}
	c.Evals(n)
	c.NoteN("pairs", n)
	c.Sig("small", fmt.Sprint(c.Idx))
}

func allDirs(d *cp.Directive, out *[]*cp.Directive) {
	*out = append(*out, d)
	for _, e := range d.Block {
		if e != nil {
			allDirs(e, out)
		}
	}
}

// change makes one difference somewhere in a tree; what tells which.
func change(r *Rand, root *cp.Directive) (what string, depth int) {
	var all []*cp.Directive
	allDirs(root, &all)
	d := pick(r, all)
	other := func(s string) string { return near(r, s) }
	for {
		switch r.N(17) {
		case 0:
			if n := other(d.Directive); n != d.Directive {
				d.Directive = n
				return "name", 0
			}
		case 1:
			if len(d.Args) > 0 {
				i := r.N(len(d.Args))
				if n := other(d.Args[i]); n != d.Args[i] {
					d.Args[i] = n
					return "argument", i
				}
			}
		case 2:
			d.Args = append(d.Args, pick(r, []string{"", "x"}))
			return "more arguments", 0
		case 3:
			if len(d.Args) > 0 {
				d.Args = d.Args[:len(d.Args)-1]
				return "fewer arguments", 0
			}
		case 4:
			if n := len(d.Args); n > 1 {
				i, j := r.N(n), r.N(n)
				if d.Args[i] != d.Args[j] {
					d.Args[i], d.Args[j] = d.Args[j], d.Args[i]
					return "order of arguments", 0
				}
			}
		case 5:
			if len(d.Args) > 1 {
				d.Args = append([]string{d.Args[0] + pick(r, []string{"", " ", "\x00"}) + d.Args[1]}, d.Args[2:]...)
				return "joined arguments", 0
			}
		case 6:
			d.Line += pick(r, []int{1, -1, 1 << 32, -1 << 40, 256})
			return "line", 0
		case 7:
			if f := other(d.File); f != d.File {
				d.File = f
				return "file", 0
			}
		case 8:
			d.Includes = append(d.Includes, r.N(3))
			return "more includes", 0
		case 9:
			if n := len(d.Includes); n > 0 {
				d.Includes[r.N(n)] += pick(r, []int{1, -1, 1 << 32})
				return "includes", 0
			}
		case 10:
			if d.Comment == nil {
				d.Comment = strp("")
			} else {
				d.Comment = nil
			}
			return "comment or none", 0
		case 11:
			if d.Comment != nil {
				if s := other(*d.Comment); s != *d.Comment {
					d.Comment = &s
					return "comment", 0
				}
			}
		case 12:
			d.IsMapBlockParameter = !d.IsMapBlockParameter
			return "map parameter", 0
		case 13:
			if len(d.Block) == 0 {
				if d.Block == nil {
					d.Block = cp.Directives{}
				} else {
					d.Block = nil
				}
				return "empty block", 0
			}
		case 14:
			d.Block = append(d.Block, pick(r, []*cp.Directive{nil, {}, {Directive: "x", Args: []string{}}}))
			return "more in the block", 0
		case 15:
			if n := len(d.Block); n > 0 {
				i := r.N(n)
				d.Block = append(d.Block[:i:i], d.Block[i+1:]...)
				return "less in the block", 0
			}
		case 16:
			if n := len(d.Block); n > 1 {
				i, j := r.N(n), r.N(n)
				if !refEqual(d.Block[i], d.Block[j]) {
					d.Block[i], d.Block[j] = d.Block[j], d.Block[i]
					return "order of the block", 0
				}
			}
		}
	}
}

func equalCase(c *C) {
	r := c.R
	root := &cp.Directive{Directive: "root", Line: 1, Args: []string{"a", "b", "a"}, Block: genDirectives(r, r.N(3), false)}
	if r.P(1, 4) { // deep
		for k := r.N(40); k > 0; k-- {
			root = &cp.Directive{Directive: "up", Line: k, Args: []string{}, Block: cp.Directives{root}}
		}
	}
	if r.P(1, 6) {
		root.Block = append(root.Block, nil)
	}
	same := copyDirs(cp.Directives{root})[0]
	if !judgeEqual(c, root, same) {
		c.Failf("the copy differs")
	}
	// the parts of the copy are compared too
	var xs, ys []*cp.Directive
	allDirs(root, &xs)
	allDirs(same, &ys)
	for i := range xs {
		judgeEqual(c, xs[i], ys[i])
		judgeEqual(c, xs[i], ys[(i*7+3)%len(ys)])
	}
	cur := same
	for k := r.Range(1, 3); k > 0; k-- {
		next := copyDirs(cp.Directives{cur})[0]
		what, _ := change(r, next)
		if judgeEqual(c, cur, next) {
			c.Failf("the change of %s makes no difference", what)
		}
		judgeEqual(c, root, next) // transitive: also when changes cancel out
		c.Note("differs by " + what)
		c.Evals(2)
		cur = next
	}
	judgeEqual(c, root, nil)
	if !(*cp.Directive)(nil).Equal(nil) {
		c.Failf("nil is not equal to nil")
	}
	c.Sig(fmt.Sprint(len(xs)), classes(flatString(nonNil(root.Block), true)))
}

// collideCase compares directives whose parts are different but the same when they are put together.
func collideCase(c *C) {
	r := c.R
	sep := pick(r, []string{" ", "\x00", ",", "", "\n", ";", "|", "\x1f", "\" \"", ", ", "/", ":"})
	var parts []string
	for k := r.Range(2, 7); k > 0; k-- {
		parts = append(parts, pick(r, []string{"", "a", "b", "1", "ab", "é", "12"}))
	}
	split := func(n int) []string { // into n pieces
		cut := map[int]bool{}
		for len(cut) < n-1 {
			cut[r.Range(1, len(parts)-1)] = true
		}
		out := []string{parts[0]}
		for i := 1; i < len(parts); i++ {
			if cut[i] {
				out = append(out, parts[i])
			} else {
				out[len(out)-1] += sep + parts[i]
			}
		}
		return out
	}
	n := r.Range(1, len(parts)-1)
	m := n
	if r.P(1, 3) {
		m = r.Range(1, len(parts)-1)
	}
	mk := func(ss []string, kind int) *cp.Directive {
		d := &cp.Directive{Directive: "x", Line: 1, Args: []string{}}
		switch kind {
		case 0:
			d.Args = ss
		case 1:
			d.Directive, d.Args = ss[0], ss[1:]
		case 2:
			d.File, d.Args = ss[0], ss[1:]
		case 3:
			d.Directive, d.Comment = "#", &ss[0]
			d.Args = ss[1:]
		case 4:
			d.Block = cp.Directives{}
			for _, s := range ss {
				d.Block = append(d.Block, &cp.Directive{Directive: s, Args: []string{}})
			}
		case 5:
			d.Block = cp.Directives{{Directive: "y", Args: ss}, {Directive: "y", Args: split(m)}}
		default:
			for _, s := range ss {
				var v int
				fmt.Sscan(s, &v)
				d.Includes = append(d.Includes, v)
			}
		}
		return d
	}
	kind := r.N(7)
	x := mk(split(n), kind)
	if r.P(1, 4) {
		kind = r.N(7)
	}
	y := mk(split(m), kind)
	for k := r.N(3); k > 0; k-- {
		x, y = &cp.Directive{Directive: "up", Block: cp.Directives{x}}, &cp.Directive{Directive: "up", Block: cp.Directives{y}}
	}
	c.NoteIf(!judgeEqual(c, x, y), "different, but the same when joined")
	c.Sig("joined", jsonOf(x), jsonOf(y))
}

func nonNil(ds cp.Directives) (out cp.Directives) {
	for _, d := range ds {
		if d != nil {
			out = append(out, d)
		}
	}
	return out
}

// twiceCase parses the same files twice.
func twiceCase(c *C) {
	r := c.R
	w := genWorld(r, worldCfg{errs: r.P(1, 3), soup: r.P(1, 3)})
	m := newMemFS(w.files)
	o := cp.ParseOptions{ParseComments: r.Bool(), ErrorOnUnknownDirectives: r.Bool(), CombineConfigs: r.P(1, 3), SingleFile: r.P(1, 6)}
	o1, o2 := o, o
	a, e1 := cp.Parse(w.main, m.with(o1))
	b, e2 := cp.Parse(w.main, m.with(o2))
	c.Desc("files", w.files)
	if (e1 == nil) != (e2 == nil) || (e1 != nil && errKey(e1) != errKey(e2)) {
		c.Failf("%v and %v", e1, e2)
	}
	if e1 != nil {
		c.Note("parses that fail")
		return
	}
	if d := diffPay(a, b); d != "" {
		c.Failf("the second parse differs: %s", d)
	}
	for i := range a.Config {
		for k := range a.Config[i].Parsed {
			if !judgeEqual(c, a.Config[i].Parsed[k], b.Config[i].Parsed[k]) {
				c.Failf("config %d directive %d differ", i, k)
			}
			c.Note("parsed directives")
			// other directives of the same parse
			if n := len(b.Config[i].Parsed); n > 1 {
				judgeEqual(c, a.Config[i].Parsed[k], b.Config[i].Parsed[r.N(n)])
			}
		}
	}
	c.Sig(fmt.Sprint(len(a.Config)), flatString(a.Config[0].Parsed, true))
}

func init() {
	register(&Check{
		ID: "C23", Level: "exploration",
		Rule: "files: payloads with odd, nested, absolute and repeated names, built to directories with older and unrelated files, whose tree is compared before and after (content, inode, modification time, mode); back: trees on disk that are parsed, written in place or elsewhere, and parsed again; into: recording and string creators; many: hundreds of files, files of megabytes. Distinct: file names and options, trees.",
		Setup: func() error {
			dir, err := os.MkdirTemp("", "cwd")
			if err != nil {
				return err
			}
			return os.Chdir(dir)
		},
		Streams: []Stream{
			{Name: "files", Quick: 4000, Run: filesCase},
			{Name: "back", Quick: 2500, Run: backCase},
			{Name: "into", Quick: 5000, Run: intoCase},
			{Name: "many", Quick: 40, Run: manyBuilt},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "files made": 3000, "longer files replaced": 500, "shorter files replaced": 500, "files left alone": 1000, "working directory": 50, "relative directories": 200, "trees parsed back": 1000, "of several files": 300, "moved trees": 200, "outputs": 5000},
		Assume:  []string{"file names do not name directories of each other; targets are regular files or missing"},
	})
	register(&Check{
		ID: "C24", Level: "exploration",
		Rule: "trees: parsed and hand-made directives under all options, the text walked along the directives with margins made by counting; with builders for some of the names now and then; deep: chains up to depth 200; margins: every indent 0..130 at every depth up to 120; many: long words and comments, thousands of arguments and statements. Distinct: options and trees.",
		Streams: []Stream{
			{Name: "trees", Quick: 12000, Run: layoutCase},
			{Name: "deep", Quick: 1500, Thorough: 15000, Run: deepCase},
			{Name: "margins", Quick: 131, Thorough: 131, Run: marginsCase},
			{Name: "many", Quick: 150, Run: manyLayout},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "statements laid out": 30000, "comments on the line of a statement": 3000, "deeper than 25": 500, "margins over 100": 500, "many tabs": 100, "headers": 1000, "with a builder": 1000},
		Assume:  []string{"indent is not negative; hand-made comments have no line ends and their lines start at 1"},
	})
	register(&Check{
		ID: "C25", Level: "exploration",
		Rule: "small: pairs of all directives with few values for each field (quick: every fifth partner; thorough: all); changes: trees and copies with one difference of a known kind at any depth; twice: the same files parsed twice; joined: directives whose parts give the same text when they are joined; many: differences at any place of lists and nested blocks of thousands. Distinct: rows, trees.",
		Streams: []Stream{
			{Name: "small", Quick: len(smallDirs), Thorough: len(smallDirs), Run: smallCase},
			{Name: "changes", Quick: 20000, Run: equalCase},
			{Name: "joined", Quick: 6000, Run: collideCase},
			{Name: "twice", Quick: 3000, Run: twiceCase},
			{Name: "many", Quick: 150, Run: manyEqual},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "pairs": 1000000, "parsed directives": 3000, "differs by name": 300, "differs by argument": 300, "differs by order of arguments": 100, "differs by line": 300, "differs by file": 300, "differs by includes": 50, "differs by comment": 50, "differs by map parameter": 300, "differs by empty block": 100, "differs by order of the block": 50, "differs by less in the block": 100},
		Assume:  []string{"a nil list of arguments or includes is the same list as an empty one"},
	})
}
