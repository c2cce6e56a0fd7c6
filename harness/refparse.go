package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Reference parser: the expected payload for a set of files, computed from the reference tokens.

type RErr struct {
	File    string
	Line    int // 0: none
	What    string
	Stmt    string
	Block   string
	Early   bool
	NoBlock bool // the block is not specified (error found while skipping)
	Plain   bool // not a parse error: an error of the environment, passed on as it is
}

func (e *RErr) String() string {
	return fmt.Sprintf("%s:%d %q stmt=%q block=%q", e.File, e.Line, e.What, e.Stmt, e.Block)
}

type RDir struct {
	Name     string
	Args     []string
	Line     int
	File     string
	Includes []int
	Block    []*RDir
	HasBlock bool
	Comment  *string
	Map      bool
}

type RConf struct {
	File   string
	Errors []*RErr
	Parsed []*RDir
}

type RPayload struct {
	Errors []*RErr
	Config []*RConf
}

// masks, with the values that the package documents for match functions.
const (
	mTake7  = 0x80
	mBlock  = 0x100
	mExpr   = 0x200
	mFlag   = 0x400
	mAny    = 0x800
	m1More  = 0x1000
	m2More  = 0x2000
	cMgmt   = 0x000020000
	cMain   = 0x000040000
	cEvents = 0x000080000
	cMailM  = 0x000100000
	cMailS  = 0x000200000
	cStrM   = 0x000400000
	cStrS   = 0x000800000
	cStrU   = 0x001000000
	cHTTPM  = 0x002000000
	cHTTPS  = 0x004000000
	cHTTPL  = 0x008000000
	cHTTPU  = 0x010000000
	cHTTPSi = 0x020000000
	cHTTPLi = 0x040000000
	cHTTPLm = 0x080000000
	cOIDC   = 0x100000000
)

var refContexts = map[string]uint{
	"": cMain, "events": cEvents, "mail": cMailM, "mail>server": cMailS, "stream": cStrM, "stream>server": cStrS,
	"stream>upstream": cStrU, "http": cHTTPM, "http>server": cHTTPS, "http>location": cHTTPL, "http>upstream": cHTTPU,
	"http>server>if": cHTTPSi, "http>location>if": cHTTPLi, "http>location>limit_except": cHTTPLm, "mgmt": cMgmt,
	"http>oidc_provider": cOIDC,
}

func refCtxBit(ctx []string) (uint, bool) {
	if len(ctx) > 3 || strings.Contains(strings.Join(ctx, ""), ">") { // not the separator of this map
		return 0, false
	}
	b, ok := refContexts[strings.Join(ctx, ">")]
	return b, ok
}

func refEnter(ctx []string, name string) []string {
	if len(ctx) > 0 && ctx[0] == "http" && name == "location" {
		return []string{"http", "location"}
	}
	return append(append([]string{}, ctx...), name)
}

func refExpr(args []string) bool {
	// enclosed in parentheses, and not empty
	if len(args) == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[len(args)-1], ")") {
		return false
	}
	switch len(args) {
	case 1:
		return len(args[0]) > 2
	case 2:
		return len(args[0])+len(args[1]) > 2
	}
	return true
}

func refArity(mask uint, args []string) bool {
	n := len(args)
	if n <= 7 && mask&(1<<uint(n)) != 0 {
		return true
	}
	if mask&mFlag != 0 && n == 1 && isFlag(args[0]) {
		return true
	}
	return mask&mAny != 0 || (mask&m1More != 0 && n >= 1) || (mask&m2More != 0 && n >= 2)
}

func isFlag(s string) bool {
	s = strings.ToLower(s)
	return s == "on" || s == "off"
}

// refDecide gives what is wrong with a statement, or "".
func refDecide(name string, args []string, term string, ctx []string, o *cp.ParseOptions) string {
	var masks []uint
	known := false
	if len(o.DirectiveSources) == 0 {
		masks, known = cp.DefaultDirectivesMatchFunc(name)
	}
	for _, f := range o.DirectiveSources {
		if ms, ok := f(name); ok {
			known = true
			masks = append(masks, ms...)
		}
	}
	if !known && o.ErrorOnUnknownDirectives {
		return `unknown directive "` + name + `"`
	}
	bit, knownCtx := refCtxBit(ctx)
	if !known || !knownCtx {
		return ""
	}
	if !o.SkipDirectiveContextCheck {
		var in []uint
		for _, m := range masks {
			if m&bit != 0 {
				in = append(in, m)
			}
		}
		if len(in) == 0 {
			return `"` + name + `" directive is not allowed here`
		}
		masks = in
	}
	if o.SkipDirectiveArgsCheck {
		return ""
	}
	what := ""
	for _, m := range masks {
		switch {
		case m&mExpr != 0 && !refExpr(args):
			what = `directive "` + name + `"'s is not enclosed in parentheses`
		case m&mBlock != 0 && term != "{":
			what = `directive "` + name + `" has no opening "{"`
		case m&mBlock == 0 && term != ";":
			what = `directive "` + name + `" is not terminated by ";"`
		case refArity(m, args):
			return ""
		case m&mFlag != 0 && len(args) == 1:
			what = `invalid value "` + args[0] + `" in "` + name + `" directive, it must be "on" or "off"`
		default:
			what = `invalid number of arguments in "` + name + `" directive`
		}
	}
	return what
}

type mapRule struct {
	special map[string]int // name -> exact number of values
	min     int
	max     int // -1: no limit
}

var refMapRules = map[string]mapRule{
	"charset_map":   {min: 1, max: 1},
	"geo":           {special: map[string]int{"ranges": 0, "proxy_recursive": 0}, min: 1, max: 1},
	"map":           {special: map[string]int{"volatile": 0, "hostnames": 0}, min: 1, max: 1},
	"match":         {min: 1, max: -1},
	"types":         {min: 1, max: -1},
	"split_clients": {min: 1, max: 1},
	"geoip2":        {special: map[string]int{"auto_reload": 1}, min: 1, max: -1},
	"otel_exporter": {min: 1, max: 1},
}

func refMapDecide(block, name string, nargs int, term string) string {
	if term != ";" {
		return `unexpected "` + term + `"`
	}
	r := refMapRules[block]
	if n, ok := r.special[name]; ok {
		if nargs != n {
			return "invalid number of parameters"
		}
		return ""
	}
	if nargs < r.min || (r.max >= 0 && nargs > r.max) {
		return "invalid number of parameters"
	}
	return ""
}

// refFS is what the parser may know of the file system.
type refFS interface {
	// Read gives the text of a file, or the error of opening it.
	Read(path string) (string, error)
	Glob(pattern string) ([]string, error)
}

type refParser struct {
	o        *cp.ParseOptions
	fs       refFS
	dir      string
	index    map[string]int
	queue    []string
	ctxs     map[string][]string
	edges    map[string][]string
	pay      *RPayload
	conf     *RConf
	toks     []RTok
	pos      int
	fileName string
}

// stopErr ends the parse of a file.
type stopErr struct{ e *RErr }

// refParse gives the payload that is expected (not combined), or the error.
func refParse(fs refFS, main string, o *cp.ParseOptions) (*RPayload, *RErr) {
	p := &refParser{o: o, fs: fs, dir: filepath.Dir(main), index: map[string]int{main: 0}, queue: []string{main},
		ctxs: map[string][]string{main: nil}, edges: map[string][]string{}, pay: &RPayload{}}
	for i := 0; i < len(p.queue); i++ {
		path := p.queue[i]
		text, err := fs.Read(path)
		if err != nil {
			return nil, &RErr{What: err.Error(), Plain: true}
		}
		p.conf = &RConf{File: path}
		p.toks, p.pos = refLex(text), 0
		p.fileName = ""
		if o.CombineConfigs {
			p.fileName = path
		}
		ds, stop := p.file(p.ctxs[path])
		if stop != nil {
			if o.StopParsingOnError {
				return nil, stop
			}
			p.report(stop)
		} else {
			p.conf.Parsed = ds
		}
		p.pay.Config = append(p.pay.Config, p.conf)
	}
	if p.cyclic() {
		return nil, &RErr{What: "configs contain include cycle", Plain: true}
	}
	return p.pay, nil
}

func (p *refParser) cyclic() bool { return hasCycle(p.edges) }

// hasCycle looks for a cycle by depth first search.
func hasCycle(edges map[string][]string) bool {
	const (
		open = 1
		done = 2
	)
	state := map[string]int{}
	var visit func(f string) bool
	visit = func(f string) bool {
		state[f] = open
		for _, g := range edges[f] {
			if state[g] == open || (state[g] == 0 && visit(g)) {
				return true
			}
		}
		state[f] = done
		return false
	}
	for f := range edges {
		if state[f] == 0 && visit(f) {
			return true
		}
	}
	return false
}

func (p *refParser) report(e *RErr) {
	p.conf.Errors = append(p.conf.Errors, e)
	p.pay.Errors = append(p.pay.Errors, e)
}

func (p *refParser) file(ctx []string) (ds []*RDir, stop *RErr) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(stopErr)
			if !ok {
				panic(r)
			}
			ds, stop = nil, s.e
		}
	}()
	ds = p.block(ctx)
	return ds, nil
}

func blockOf(ctx []string) string {
	if len(ctx) == 0 {
		return "main"
	}
	return ctx[len(ctx)-1]
}

func (p *refParser) tokErr(t RTok, ctx []string, noBlock bool) {
	panic(stopErr{&RErr{File: p.conf.File, Line: t.ErrLine, What: t.Err, Block: blockOf(ctx), Early: t.Early, NoBlock: noBlock}})
}

// skip consumes a block whose "{" has been read.
func (p *refParser) skip() {
	depth := 1
	for depth > 0 && p.pos < len(p.toks) {
		t := p.toks[p.pos]
		p.pos++
		if t.Err != "" {
			p.tokErr(t, nil, true)
		}
		if t.is("{") {
			depth++
		}
		if t.is("}") {
			depth--
		}
	}
}

func stmtString(d *RDir) string {
	s := d.Name + " " + strings.Join(d.Args, " ")
	return s
}

func (p *refParser) fail(e *RErr) {
	if p.o.StopParsingOnError {
		panic(stopErr{e})
	}
	p.report(e)
}

// block reads statements up to the end of the block or of the file.
func (p *refParser) block(ctx []string) []*RDir {
	var out []*RDir
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		p.pos++
		if t.Err != "" {
			p.tokErr(t, ctx, false)
		}
		if t.is("}") {
			return out
		}
		if t.is("{") || t.is(";") {
			panic(stopErr{&RErr{File: p.conf.File, Line: t.Line, What: `unexpected "` + t.Val + `"`, Block: blockOf(ctx)}})
		}
		if t.Comment {
			if p.o.ParseComments {
				c := t.Val[1:]
				out = append(out, &RDir{Name: "#", Line: t.Line, File: p.fileName, Comment: &c})
			}
			continue
		}
		d := &RDir{Name: t.Val, Line: t.Line, File: p.fileName}
		var comments []string
		term := ""
		for {
			if p.pos >= len(p.toks) {
				panic(stopErr{&RErr{File: p.conf.File, Line: d.Line, What: "premature end of file", Block: blockOf(ctx), Early: true}})
			}
			t = p.toks[p.pos]
			p.pos++
			if t.Early {
				continue
			}
			if t.Err != "" {
				p.tokErr(t, ctx, false)
			}
			if t.is("{") || t.is("}") || t.is(";") {
				term = t.Val
				break
			}
			if t.Comment {
				if p.o.ParseComments {
					comments = append(comments, t.Val[1:])
				}
				continue
			}
			d.Args = append(d.Args, t.Val)
		}

		inMap := false
		if len(ctx) > 0 {
			_, inMap = refMapRules[blockOf(ctx)]
		}
		ignored := false
		for _, ig := range p.o.IgnoreDirectives {
			ignored = ignored || ig == d.Name
		}
		what := ""
		switch {
		case inMap:
			what = refMapDecide(blockOf(ctx), d.Name, len(d.Args), term)
		case ignored:
		default:
			what = refDecide(d.Name, d.Args, term, ctx, p.o)
			if what == "" && term == "}" {
				what = `directive "` + d.Name + `" is not terminated by ";"`
			}
		}
		if what != "" {
			p.fail(&RErr{File: p.conf.File, Line: d.Line, What: what, Stmt: stmtString(d), Block: blockOf(ctx)})
		}
		if what != "" || (ignored && !inMap) {
			if term == "{" {
				p.skip()
			}
			if term == "}" {
				return out
			}
			continue
		}

		if inMap {
			d.Map = true
		} else {
			if d.Name == "if" {
				d.Args = refIfArgs(d.Args)
			}
			if d.Name == "include" && !p.o.SingleFile {
				p.include(d, ctx)
			}
			if term == "{" {
				d.HasBlock = true
				d.Block = p.block(refEnter(ctx, d.Name))
			}
		}
		out = append(out, d)
		for _, c := range comments {
			c := c
			out = append(out, &RDir{Name: "#", Line: d.Line, File: p.fileName, Comment: &c})
		}
	}
	return out
}

// refIfArgs removes the enclosing parentheses of a condition, with the white space next to them.
func refIfArgs(args []string) []string {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return args
	}
	body := strings.TrimSuffix(args[n-1], ")")
	if (len(body)-len(strings.TrimRight(body, `\`)))%2 == 1 {
		return args // that parenthesis is escaped
	}
	out := append([]string{}, args...)
	out[0] = strings.TrimLeftFunc(out[0][1:], unicode.IsSpace)
	last := strings.TrimSuffix(out[n-1], ")") // nothing to cut if there was just one parenthesis
	trimmed := strings.TrimRightFunc(last, unicode.IsSpace)
	if trimmed != last && strings.HasSuffix(trimmed, `\`) {
		trimmed = last // an escaped space
	}
	out[n-1] = trimmed
	if out[n-1] == "" {
		out = out[:n-1]
	}
	if len(out) > 0 && out[0] == "" {
		out = out[1:]
	}
	return out
}

func (p *refParser) include(d *RDir, ctx []string) {
	if len(d.Args) == 0 {
		panic(stopErr{&RErr{File: p.conf.File, Line: d.Line, Stmt: stmtString(d), Block: blockOf(ctx),
			What: fmt.Sprintf(`invalid number of arguments in "include" directive in %s:%d`, p.conf.File, d.Line)}})
	}
	path := d.Args[0]
	if !filepath.IsAbs(path) {
		path = filepath.Join(p.dir, path)
	}
	var names []string
	if strings.ContainsAny(path, "*?[") {
		ns, err := p.fs.Glob(path)
		if err != nil {
			panic(stopErr{&RErr{What: err.Error(), Plain: true}})
		}
		names = append([]string{}, ns...)
		sort.Strings(names)
	} else if _, err := p.fs.Read(path); err != nil {
		p.fail(&RErr{File: p.conf.File, Line: d.Line, What: err.Error(), Stmt: stmtString(d), Block: blockOf(ctx)})
	} else {
		names = []string{path}
	}
	for _, n := range names {
		if _, ok := p.index[n]; !ok {
			p.index[n] = len(p.queue)
			p.queue = append(p.queue, n)
			p.ctxs[n] = ctx
		}
		d.Includes = append(d.Includes, p.index[n])
		p.edges[p.conf.File] = append(p.edges[p.conf.File], n)
	}
}

// refCombine inlines the includes of a payload.
func refCombine(p *RPayload) *RPayload {
	if len(p.Config) == 0 {
		return p
	}
	var inline func(ds []*RDir) []*RDir
	inline = func(ds []*RDir) []*RDir {
		var out []*RDir
		for _, d := range ds {
			if d.Name == "include" && d.Includes != nil {
				for _, i := range d.Includes {
					out = append(out, inline(p.Config[i].Parsed)...)
				}
				continue
			}
			e := *d
			if d.HasBlock {
				e.Block = inline(d.Block)
			}
			out = append(out, &e)
		}
		return out
	}
	c := &RConf{File: p.Config[0].File, Parsed: inline(p.Config[0].Parsed)}
	for _, x := range p.Config {
		c.Errors = append(c.Errors, x.Errors...)
	}
	return &RPayload{Errors: p.Errors, Config: []*RConf{c}}
}

// ---- comparison with what the package returns ----

// diffErr compares an error of the package with the expected one; full also compares texts and block.
func diffErr(got error, want *RErr, full bool) string {
	var pe *cp.ParseError
	if want.Plain {
		if got.Error() != want.What {
			return fmt.Sprintf("error %q, want %q", got.Error(), want.What)
		}
		return ""
	}
	if !errors.As(got, &pe) {
		return fmt.Sprintf("error %q (%T) is not a parse error, want %v", got, got, want)
	}
	file, line := "", 0
	if pe.File != nil {
		file = *pe.File
	}
	if pe.Line != nil {
		line = *pe.Line
	}
	if file != want.File || line != want.Line {
		return fmt.Sprintf("error %q at %s:%d, want %v", pe.What, file, line, want)
	}
	if errors.Is(got, cp.ErrPrematureLexEnd) != want.Early {
		return fmt.Sprintf("error %q: is the early end of the file: %v, want %v", pe.What, !want.Early, want.Early)
	}
	if full {
		if pe.What != want.What {
			return fmt.Sprintf("error says %q, want %v", pe.What, want)
		}
		if pe.Statement != want.Stmt {
			return fmt.Sprintf("error has statement %q, want %v", pe.Statement, want)
		}
		if !want.NoBlock && pe.BlockCtx != want.Block {
			return fmt.Sprintf("error has block %q, want %v", pe.BlockCtx, want)
		}
	}
	return ""
}

func diffDirs(got cp.Directives, want []*RDir, path string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		at := fmt.Sprintf("%s/%d", path, i)
		if i >= len(got) {
			return fmt.Sprintf("%s: missing %s", at, dirString(want[i]))
		}
		if i >= len(want) {
			return fmt.Sprintf("%s: unexpected %s", at, cpDirString(got[i]))
		}
		if d := diffDir(got[i], want[i], at); d != "" {
			return d
		}
	}
	return ""
}

func dirString(d *RDir) string {
	c := ""
	if d.Comment != nil {
		c = fmt.Sprintf(" comment=%q", *d.Comment)
	}
	return fmt.Sprintf("%q %q line=%d block=%v/%d includes=%v map=%v file=%q%s", d.Name, d.Args, d.Line, d.HasBlock, len(d.Block), d.Includes, d.Map, d.File, c)
}

func cpDirString(d *cp.Directive) string {
	if d == nil {
		return "nil"
	}
	c := ""
	if d.Comment != nil {
		c = fmt.Sprintf(" comment=%q", *d.Comment)
	}
	return fmt.Sprintf("%q %q line=%d block=%v/%d includes=%v map=%v file=%q%s", d.Directive, d.Args, d.Line, d.Block != nil, len(d.Block), d.Includes, d.IsMapBlockParameter, d.File, c)
}

func diffDir(g *cp.Directive, w *RDir, at string) string {
	bad := g == nil || g.Directive != w.Name || !eqStrs(g.Args, w.Args) || g.Line != w.Line || g.File != w.File ||
		!eqInts(g.Includes, w.Includes) || (g.Block != nil) != w.HasBlock || (g.Comment == nil) != (w.Comment == nil) ||
		(g.Comment != nil && *g.Comment != *w.Comment) || g.IsMapBlockParameter != w.Map
	if bad {
		return fmt.Sprintf("%s: got  %s\n%s: want %s", at, cpDirString(g), at, dirString(w))
	}
	return diffDirs(g.Block, w.Block, at)
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func status(n int) string {
	if n > 0 {
		return "failed"
	}
	return "ok"
}

// diffPayload compares everything; full also compares the texts of errors.
func diffPayload(got *cp.Payload, want *RPayload, full bool) string {
	if len(got.Config) != len(want.Config) {
		return fmt.Sprintf("%d configs, want %d", len(got.Config), len(want.Config))
	}
	if got.Status != status(len(want.Errors)) {
		return fmt.Sprintf("payload status %q with %d errors expected", got.Status, len(want.Errors))
	}
	if len(got.Errors) != len(want.Errors) {
		return fmt.Sprintf("%d errors in the payload, want %d\ngot  %v\nwant %v", len(got.Errors), len(want.Errors), got.Errors, want.Errors)
	}
	for i, e := range got.Errors {
		w := want.Errors[i]
		if d := diffErr(e.Error, w, full); d != "" {
			return fmt.Sprintf("payload error %d: %s", i, d)
		}
		if (e.Line == nil) != (w.Line == 0) || (e.Line != nil && *e.Line != w.Line) {
			return fmt.Sprintf("payload error %d: line %v, want %v", i, e.Line, w)
		}
		if !w.Plain && e.File != w.File {
			return fmt.Sprintf("payload error %d: file %s, want %v", i, e.File, w)
		}
	}
	for k, c := range got.Config {
		w := want.Config[k]
		at := fmt.Sprintf("config[%d]", k)
		if c.File != w.File {
			return fmt.Sprintf("%s: file %q, want %q", at, c.File, w.File)
		}
		if c.Status != status(len(w.Errors)) {
			return fmt.Sprintf("%s: status %q with %d errors expected", at, c.Status, len(w.Errors))
		}
		if len(c.Errors) != len(w.Errors) {
			return fmt.Sprintf("%s: %d errors, want %d: got %v want %v", at, len(c.Errors), len(w.Errors), c.Errors, w.Errors)
		}
		for i, e := range c.Errors {
			if d := diffErr(e.Error, w.Errors[i], full); d != "" {
				return fmt.Sprintf("%s error %d: %s", at, i, d)
			}
			if (e.Line == nil) != (w.Errors[i].Line == 0) || (e.Line != nil && *e.Line != w.Errors[i].Line) {
				return fmt.Sprintf("%s error %d: line differs, want %v", at, i, w.Errors[i])
			}
		}
		if d := diffDirs(c.Parsed, w.Parsed, at); d != "" {
			return d
		}
	}
	return ""
}
