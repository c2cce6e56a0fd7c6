package main

import (
	_ "embed"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C09 (acceptance), C10 (bundled sets), C20 (map parameters).

// ctxPaths are the blocks around a statement; the last entries are contexts without a definition.
var ctxPaths = [][]string{
	{}, {"events"}, {"mail"}, {"mail", "server"}, {"stream"}, {"stream", "server"}, {"stream", "upstream"}, {"http"},
	{"http", "server"}, {"http", "server", "location"}, {"http", "upstream"}, {"http", "server", "if"},
	{"http", "server", "location", "if"}, {"http", "server", "location", "limit_except"}, {"mgmt"}, {"http", "oidc_provider"},
	// other ways into the same contexts
	{"http", "location"}, {"http", "server", "location", "location"}, {"http", "server", "location", "location", "if"},
	{"http", "server", "if", "location"}, {"http", "x", "y", "location", "if"}, {"http", "upstream", "location"},
	// no contexts of NGINX
	{"x"}, {"http", "x"}, {"server"}, {"location"}, {"events", "server"}, {"stream", "location"}, {"http", "http"},
	{"http", "server", "server"}, {"mail", "location"}, {"http", "location", "x"}, {"http", "if"}, {"stream", "server", "if"}, {"x", "http"},
}

// wrapArgs are the arguments that the blocks need.
var wrapArgs = map[string]string{"location": "/l", "upstream": "u", "if": "($w)", "limit_except": "GET", "oidc_provider": "o"}

func ctxOfPath(path []string) []string {
	var ctx []string
	for _, b := range path {
		ctx = refEnter(ctx, b)
	}
	return ctx
}

// stmtProbe is one statement of a matrix.
type stmtProbe struct {
	ctx  []string
	args []string
	term string
	line int
}

// argForms are the argument lists that tell the styles apart.
var argForms = func() [][]string {
	var out [][]string
	var a []string
	for n := 0; n < 10; n++ {
		out = append(out, append([]string{}, a...))
		a = append(a, "a"+strconv.Itoa(n))
	}
	for _, w := range freshWords { // words that the code did not mention before
		if len(out) < 18 && plainName.MatchString(w) && w != "on" && w != "off" {
			out = append(out, []string{w})
		}
	}
	return append(out, []string{"on"}, []string{"off"}, []string{"ON"}, []string{"oFf"}, []string{"onn"}, []string{"of"}, []string{"on", "off"},
		[]string{"(a)"}, []string{"(", "a", ")"}, []string{"(a", "b)"}, []string{"()"}, []string{"(", ")"}, []string{"(a"}, []string{"a)"},
		[]string{"(a", "b", "c)"}, []string{"(on)"}, []string{")", "("})
}()

// probeText writes a matrix: all argument forms with both ends in all contexts.
func probeText(name string, paths [][]string) (string, []stmtProbe) {
	var sb strings.Builder
	var ps []stmtProbe
	line := 1
	nl := func() { sb.WriteByte('\n'); line++ }
	for _, path := range paths {
		for _, b := range path {
			if plainName.MatchString(b) {
				sb.WriteString(b)
			} else {
				sb.WriteString(`"` + b + `"`)
			}
			if a := wrapArgs[b]; a != "" {
				sb.WriteString(" " + a)
			}
			sb.WriteString(" {")
			nl()
		}
		ctx := ctxOfPath(path)
		for _, args := range argForms {
			for _, term := range []string{";", "{"} {
				sb.WriteString(name)
				for _, a := range args {
					sb.WriteString(" " + a)
				}
				sb.WriteString(term)
				if term == "{" {
					sb.WriteByte('}')
				}
				ps = append(ps, stmtProbe{ctx, args, term, line})
				nl()
			}
		}
		for range path {
			sb.WriteByte('}')
		}
		nl()
	}
	return sb.String(), ps
}

var plainName = regexp.MustCompile(`^\w+$`)

// nearPath gives blocks that are nearly those of path: joined, split, renamed, repeated, left out or in another order.
func nearPath(r *Rand, path []string) []string {
	p := append([]string{}, path...)
	for n := r.Range(1, 2); n > 0; n-- {
		i := r.N(len(p) + 1)
		switch {
		case len(p) == 0 || r.P(1, 6):
			p = append(p[:i:i], append([]string{pick(r, []string{"x", "", ">", "main", "location", "http", "server", "if", " "})}, p[i:]...)...)
		case i+1 < len(p) && r.Bool():
			p = append(p[:i:i], append([]string{p[i] + pick(r, []string{">", " ", ",", "/", "", "\x00", "|", ":", ".", "> ", " > ", "\n", "->", "]["}) + p[i+1]}, p[i+2:]...)...)
		case i < len(p) && r.P(1, 3):
			p = append(p[:i:i], append([]string{p[i]}, p[i:]...)...)
		case i < len(p) && r.P(1, 3):
			p = append(p[:i:i], p[i+1:]...)
		case i+1 < len(p) && r.P(1, 2):
			p[i], p[i+1] = p[i+1], p[i]
		case i < len(p):
			p[i] = near(r, p[i])
		default:
			p[len(p)-1] += pick(r, []string{">", " ", ">server", ">if", ">location"})
		}
	}
	for _, b := range p {
		if strings.ContainsAny(b, "\"\\\r\n") {
			return nil
		}
		if _, ok := refMapRules[b]; ok {
			return nil
		}
	}
	return p
}

func collectLines(ds cp.Directives, name string, got map[int]bool) {
	for _, d := range ds {
		if d.Directive == name {
			got[d.Line] = true
		}
		collectLines(d.Block, name, got)
	}
}

// judge parses a matrix and compares what is accepted with the decision by the definition.
func judge(c *C, name, text string, ps []stmtProbe, o cp.ParseOptions, ref *cp.ParseOptions) {
	o.SingleFile = true
	p, err := parse1(text, o)
	if err != nil {
		c.Failf("parse: %v", err)
	}
	got, bad := map[int]bool{}, map[int]int{}
	collectLines(p.Config[0].Parsed, name, got)
	for _, e := range p.Errors {
		if e.Line == nil {
			c.Failf("error without line: %v", e.Error)
		}
		bad[*e.Line]++
	}
	var sig strings.Builder
	for _, s := range ps {
		ok := refDecide(name, s.args, s.term, s.ctx, ref) == ""
		if ok != got[s.line] || ok != (bad[s.line] == 0) || bad[s.line] > 1 {
			c.Desc("text", text)
			c.Failf("%q %q %s in %q: permitted %v, in the result %v, %d errors (%s)", name, s.args, s.term, s.ctx, ok, got[s.line], bad[s.line], optString(&o))
		}
		if ok {
			sig.WriteByte('1')
		} else {
			sig.WriteByte('0')
		}
		delete(bad, s.line)
		c.NoteIf(ok, "accepted")
		c.NoteIf(!ok, "rejected")
	}
	for l := range bad {
		c.Desc("text", text)
		c.Failf("an error on line %d, which is a valid block", l)
	}
	c.Evals(len(ps) - 1)
	c.Sig(sig.String())
	c.Sample(func() string {
		return fmt.Sprintf("%s: %d statements, %d accepted", name, len(ps), strings.Count(sig.String(), "1"))
	})
}

func oneDef(name string, masks ...uint) cp.MatchFunc {
	return func(d string) ([]uint, bool) {
		if d != name {
			return nil, false
		}
		return masks, true
	}
}

var styleBits = []uint{0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40, mTake7, mFlag, mAny, m1More, m2More, mExpr | m1More, mExpr | 0x2, mExpr | mAny, 0x6, 0x41, mFlag | 0x4, 0}

var bitsOfCtx = []uint{cMain, cEvents, cMailM, cMailS, cStrM, cStrS, cStrU, cHTTPM, cHTTPS, cHTTPL, cHTTPU, cHTTPSi, cHTTPLi, cHTTPLm, cMgmt, cOIDC}

func randMask(r *Rand) uint {
	m := pick(r, styleBits)
	if r.P(1, 3) {
		m |= pick(r, styleBits)
	}
	if r.P(2, 5) {
		m |= mBlock
	}
	for n := r.Geo(6); n > 0; n-- {
		m |= pick(r, bitsOfCtx)
	}
	if r.P(1, 6) {
		m |= ctxBits
	}
	return m
}

func inPaths(name string) bool {
	for _, p := range ctxPaths {
		if contains(p, name) {
			return true
		}
	}
	return false
}

// sourcesCase has random definitions in several sources, and random statements in random contexts.
func sourcesCase(c *C) {
	r := c.R
	names := []string{"aa", "bb", "cc", "dd", "if", "a b", "Aa", "listen"}
	if w := dictName(r); r.P(1, 3) && !contains(names, w) && w != "include" && w != "unknown" && w != "wr" && !isMapName(w) && !inPaths(w) {
		names = append(names, w)
	}
	var defs []map[string][]uint
	o := cp.ParseOptions{SingleFile: true, ErrorOnUnknownDirectives: r.P(1, 4), SkipDirectiveContextCheck: r.P(1, 5), SkipDirectiveArgsCheck: r.P(1, 5), ParseComments: r.Bool()}
	for n := 1 + r.N(3); n > 0; n-- {
		m := map[string][]uint{}
		for _, k := range names {
			if r.P(2, 3) {
				for j := 1 + r.N(3); j > 0; j-- {
					m[k] = append(m[k], randMask(r))
				}
			}
		}
		defs = append(defs, m)
		o.DirectiveSources = append(o.DirectiveSources, func(d string) ([]uint, bool) { ms, ok := m[d]; return ms, ok })
	}
	// the blocks around are always accepted
	wrap := map[string]bool{}
	for _, p := range ctxPaths {
		for _, b := range p {
			wrap[b] = b != "if"
		}
	}
	wrapName := "wr"
	o.DirectiveSources = append(o.DirectiveSources, func(d string) ([]uint, bool) {
		if wrap[d] || d == wrapName {
			return []uint{ctxBits | mBlock | mAny}, true
		}
		return nil, false
	})
	if r.Bool() {
		k := len(o.DirectiveSources) - 1
		o.DirectiveSources[0], o.DirectiveSources[k] = o.DirectiveSources[k], o.DirectiveSources[0]
	}
	c.Desc("definitions", fmt.Sprintf("%x", defs))

	// text: a tree of blocks with statements to judge
	var sb strings.Builder
	line := 1
	type probe struct {
		name string
		stmtProbe
	}
	var ps []probe
	nl := func() { sb.WriteByte('\n'); line++ }
	leaf := func(ctx []string) {
		name := pick(r, append(names, "unknown"))
		var args []string
		if r.Bool() {
			args = pick(r, argForms)
		} else {
			for n := r.N(10); n > 0; n-- {
				args = append(args, pick(r, []string{"a", "on", "Off", "(", ")", "(x", "y)", "", "a b", "#", dictName(r)}))
			}
		}
		ps = append(ps, probe{name, stmtProbe{ctx, args, "", line}})
		l := quoteMaybe(r, name, lexCfg{quoted: true})
		if strings.Contains(name, " ") {
			l.Src = `"` + name + `"`
		}
		sb.WriteString(l.Src)
		for _, a := range args {
			sb.WriteString(" " + writeAs(r, a).Src)
		}
		if r.P(1, 6) {
			sb.WriteString(" # c")
			nl()
		}
		term := pick(r, []string{";", "{"})
		ps[len(ps)-1].term = term
		sb.WriteString(" " + term)
		if term == "{" {
			sb.WriteString("}")
		}
		nl()
	}
	for k := r.Range(1, 6); k > 0; k-- {
		path := pick(r, ctxPaths)
		var ctx []string
		for _, b := range path {
			if b == "if" && !o.SkipDirectiveArgsCheck {
				// "if" has random definitions; leave the rest of this path out
				break
			}
			if b == "if" {
				break
			}
			sb.WriteString(b + " w {")
			nl()
			ctx = refEnter(ctx, b)
			for n := r.N(2); n > 0; n-- {
				leaf(ctx)
			}
		}
		for n := r.Range(1, 8); n > 0; n-- {
			leaf(ctx)
		}
		n := len(path)
		for i, b := range path {
			if b == "if" {
				n = i
				break
			}
		}
		for ; n > 0; n-- {
			sb.WriteByte('}')
			nl()
		}
	}
	text := sb.String()
	c.Desc("text", text)
	c.Desc("options", optString(&o))
	p, err := parse1(text, o)
	if err != nil {
		c.Failf("parse: %v", err)
	}
	bad := map[int]int{}
	for _, e := range p.Errors {
		if e.Line == nil {
			c.Failf("error without line: %v", e.Error)
		}
		bad[*e.Line]++
	}
	var sig strings.Builder
	for _, s := range ps {
		got := map[int]bool{}
		collectLines(p.Config[0].Parsed, s.name, got)
		ok := refDecide(s.name, s.args, s.term, s.ctx, &o) == ""
		if ok != got[s.line] || ok != (bad[s.line] == 0) || bad[s.line] > 1 {
			c.Failf("line %d: %q %q %s in %q: permitted %v, in the result %v, %d errors", s.line, s.name, s.args, s.term, s.ctx, ok, got[s.line], bad[s.line])
		}
		delete(bad, s.line)
		fmt.Fprintf(&sig, "%v%d%s%s", ok, len(s.args), s.term, strings.Join(s.ctx, ">"))
		c.NoteIf(ok, "accepted")
		c.NoteIf(!ok, "rejected")
	}
	if len(bad) > 0 {
		c.Failf("errors on other lines: %v", bad)
	}
	c.Evals(len(ps) - 1)
	c.Sig(sig.String())
	c.NoteIf(len(defs) > 1, "several sources")
	c.NoteIf(o.SkipDirectiveContextCheck, "without context check")
	c.NoteIf(o.SkipDirectiveArgsCheck, "without argument check")
	c.Sample(func() string { return fmt.Sprintf("%s %x %q", optString(&o), defs, text) })
}

// includedCase has the statements in files that are included in a context.
func includedCase(c *C) {
	r := c.R
	masks := []uint{randMask(r), randMask(r)}[:1+r.N(2)]
	o := cp.ParseOptions{DirectiveSources: []cp.MatchFunc{oneDef("dd", masks...)}, SkipDirectiveContextCheck: r.P(1, 8), SkipDirectiveArgsCheck: r.P(1, 8)}
	files := map[string]string{}
	var main strings.Builder
	type probe struct {
		file string
		stmtProbe
	}
	var ps []probe
	for i := r.Range(1, 6); i > 0; i-- {
		path := pick(r, ctxPaths)
		ctx := ctxOfPath(path)
		file := fmt.Sprintf("/c/f%d.conf", i)
		cut := 0
		if len(path) > 0 {
			cut = r.N(len(path) + 1)
		}
		open := func(sb *strings.Builder, bs []string) {
			for _, b := range bs {
				sb.WriteString(b + " " + wrapArgs[b] + " {")
			}
		}
		// some of the blocks are in the main file, some in a file between
		open(&main, path[:cut])
		main.WriteString("include f" + fmt.Sprint(i) + "*.conf;" + strings.Repeat("}", cut) + "\n")
		var body strings.Builder
		line := 1
		for n := r.Range(1, 6); n > 0; n-- {
			args, term := pick(r, argForms), pick(r, []string{";", "{"})
			body.WriteString("dd " + strings.Join(args, " ") + " " + term)
			if term == "{" {
				body.WriteString("}")
			}
			body.WriteString("\n")
			name := file
			if cut < len(path) {
				name = strings.Replace(file, ".conf", "x.inc", 1)
			}
			ps = append(ps, probe{name, stmtProbe{ctx, args, term, line}})
			line++
		}
		if cut < len(path) {
			var mid strings.Builder
			open(&mid, path[cut:])
			mid.WriteString("include " + strings.Replace(file, ".conf", "x.inc", 1) + ";" + strings.Repeat("}", len(path)-cut))
			files[file] = mid.String()
			files[strings.Replace(file, ".conf", "x.inc", 1)] = body.String()
		} else {
			files[file] = body.String()
		}
	}
	files["/c/main"] = main.String()
	c.Desc("files", files)
	c.Desc("mask", fmt.Sprintf("%x", masks))
	c.Desc("options", optString(&o))
	p, err := cp.Parse("/c/main", newMemFS(files).with(o))
	if err != nil {
		c.Failf("parse: %v", err)
	}
	byFile := map[string]cp.Config{}
	for _, cf := range p.Config {
		byFile[cf.File] = cf
	}
	for _, s := range ps {
		cf, ok := byFile[s.file]
		if !ok {
			c.Failf("%s was not parsed", s.file)
		}
		got := map[int]bool{}
		collectLines(cf.Parsed, "dd", got)
		want := refDecide("dd", s.args, s.term, s.ctx, &o) == ""
		if want != got[s.line] {
			c.Failf("%s:%d: %q %s in %q: permitted %v, accepted %v", s.file, s.line, s.args, s.term, s.ctx, want, got[s.line])
		}
		c.NoteIf(want, "accepted")
		c.NoteIf(!want, "rejected")
		c.Note("in included files")
	}
	c.Evals(len(ps) - 1)
}

// ---- bundled sets ----

//go:embed tables.txt
var tablesText string

type dirSet struct {
	name  string
	match cp.MatchFunc // nil: the default
	defs  map[string][]uint
	names []string
}

var bundled = map[string]cp.MatchFunc{
	"app_protect_v4": cp.MatchAppProtectWAFv4, "app_protect_v5": cp.MatchAppProtectWAFv5, "geoip2": cp.MatchGeoip2Latest,
	"headers_more": cp.MatchHeadersMoreLatest, "lua": cp.MatchLuaLatest, "njs": cp.MatchNjsLatest, "otel": cp.MatchOtelLatest,
	"plus_r30": cp.MatchNginxPlusR30, "plus_r31": cp.MatchNginxPlusR31, "plus_r33": cp.MatchNginxPlusR33, "plus_r34": cp.MatchNginxPlusR34,
	"plus_r35": cp.MatchNginxPlusR35, "plus_r36": cp.MatchNginxPlusR36, "plus_r37": cp.MatchNginxPlusR37, "plus_latest": cp.MatchNginxPlusLatest,
	"oss_124": cp.MatchOss124, "oss_126": cp.MatchOss126, "oss_latest": cp.MatchOssLatest,
}

type setName struct {
	set  *dirSet
	name string
}

var (
	dirSets   []*dirSet
	setNames  []setName // every definition of every set
	allNames  []string
	setByName = map[string]*dirSet{}
)

func loadTables() {
	all := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSpace(tablesText), "\n") {
		f := strings.Fields(l)
		s := setByName[f[0]]
		if s == nil {
			s = &dirSet{name: f[0], match: bundled[f[0]], defs: map[string][]uint{}}
			setByName[f[0]] = s
			dirSets = append(dirSets, s)
		}
		var ms []uint
		for _, h := range f[2:] {
			m, err := strconv.ParseUint(h, 16, 64)
			must(err)
			ms = append(ms, uint(m))
		}
		s.defs[f[1]] = ms
		s.names = append(s.names, f[1])
		all[f[1]] = true
	}
	def := &dirSet{name: "default", defs: map[string][]uint{}}
	for _, n := range []string{"plus_latest", "njs", "otel"} {
		for k, ms := range setByName[n].defs {
			if def.defs[k] == nil {
				def.names = append(def.names, k)
			}
			def.defs[k] = append(def.defs[k], ms...)
		}
	}
	sort.Strings(def.names)
	dirSets = append(dirSets, def)
	for n := range all {
		allNames = append(allNames, n)
	}
	sort.Strings(allNames)
	for _, s := range dirSets {
		for _, n := range s.names {
			setNames = append(setNames, setName{s, n})
		}
	}
}

func init() { loadTables() }

func tableCase(c *C, s *dirSet, name string) {
	c.Desc("set", s.name)
	c.Desc("directive", name)
	paths := ctxPaths[:16]
	text, ps := probeText(name, paths)
	o := cp.ParseOptions{}
	if s.match != nil {
		// the blocks around are unknown here, except if they have the name themselves
		o.DirectiveSources = []cp.MatchFunc{func(d string) ([]uint, bool) {
			if d != name {
				return nil, false
			}
			return s.match(d)
		}}
	}
	if s.match != nil && !s.has(name) {
		panic("no such name")
	}
	ref := cp.ParseOptions{DirectiveSources: []cp.MatchFunc{func(d string) ([]uint, bool) { ms, ok := s.defs[d]; return ms, ok }}}
	// a map-like block has parameters, a Lua block is a block: nothing is in the blocks here
	judge(c, name, text, ps, o, &ref)
	c.Note("definitions")
	// it is known
	o.ErrorOnUnknownDirectives = true
	p, err := parse1(name+";", cp.ParseOptions{SingleFile: true, ErrorOnUnknownDirectives: true, SkipDirectiveArgsCheck: true, SkipDirectiveContextCheck: true, DirectiveSources: o.DirectiveSources})
	if err != nil || p.Status != "ok" {
		c.Failf("%s is not known: %v", name, p)
	}
}

func (s *dirSet) has(n string) bool { _, ok := s.defs[n]; return ok }

// unknownNameCase has names that a set must not match.
func unknownNameCase(c *C) {
	r := c.R
	s := dirSets[c.Idx%len(dirSets)]
	var names []string
	for _, n := range allNames {
		names = append(names, n, strings.ToUpper(n), strings.ToUpper(n[:1])+n[1:], n+"s", n+"_", "_"+n, n[:len(n)-1], n+n, strings.ReplaceAll(n, "_", "-"), " "+n, n+" ", n+"\n", n+"\x00")
	}
	for i := 0; i < 2000; i++ {
		names = append(names, genValue(r), genWord(r, true, true).Val)
	}
	o := cp.ParseOptions{SingleFile: true, ErrorOnUnknownDirectives: true, SkipDirectiveContextCheck: true, SkipDirectiveArgsCheck: true}
	if s.match != nil {
		o.DirectiveSources = []cp.MatchFunc{s.match}
	}
	var sb strings.Builder
	line := 1
	lines := map[int]string{}
	for _, n := range names {
		if s.has(n) || n != clean(n) || !canRead(n) {
			continue
		}
		l := writeAs(r, n)
		if ts := refLex(l.Src); len(ts) != 1 || ts[0].Val != n || ts[0].Comment || ts[0].Err != "" || (isSpecial(n) && !ts[0].Quoted) {
			continue
		}
		lines[line] = n
		sb.WriteString(l.Src + " ;\n")
		line += 1 + strings.Count(l.Src, "\n")
	}
	p, err := parse1(sb.String(), o)
	if err != nil {
		c.Failf("parse: %v", err)
	}
	for _, d := range p.Config[0].Parsed {
		c.Failf("set %s matches %q", s.name, d.Directive)
	}
	for _, e := range p.Errors {
		delete(lines, *e.Line)
	}
	for _, n := range lines {
		c.Failf("no error for %q with set %s", n, s.name)
	}
	for _, n := range names {
		if s.match != nil && !s.has(n) {
			if _, ok := s.match(n); ok {
				c.Failf("set %s matches %q", s.name, n)
			}
		}
	}
	c.Evals(len(names) - 1)
	c.NoteN("unknown names", len(names))
}

// ---- map parameters ----

var paramNames = []string{"default", "volatile", "hostnames", "ranges", "proxy_recursive", "auto_reload", "delete", "include", "if", "map", "server", "listen", "geo", "types",
	"*.example.com", "~^(a|b)$", "10.0.0.0/8", "text/html", "Volatile", "RANGES", "a b", "", "#x", "{", ";", "50%", "*", "default_server"}

// mapMatrix has every number of values and end for every parameter name in one block.
func mapMatrix(c *C, kind string, strict bool, ctxIdx int) {
	path := [][]string{{}, {"http"}, {"stream"}, {"http", "server"}, {"x"}, {"http", "server", "location"}}[ctxIdx]
	o := cp.ParseOptions{SingleFile: true, ParseComments: c.R.Bool()}
	if strict {
		o.ErrorOnUnknownDirectives = true
		// whatever is defined for the names, they are parameters here
		masks := map[bool][]uint{true: {ctxBits | mBlock | mAny}, false: {0}}
		o.DirectiveSources = []cp.MatchFunc{func(d string) ([]uint, bool) {
			_, isMap := refMapRules[d]
			return masks[isMap || d == "http" || d == "stream" || d == "server" || d == "x" || d == "location"], true
		}}
	} else {
		o.DirectiveSources = []cp.MatchFunc{noMatch}
	}
	o.SkipDirectiveArgsCheck, o.SkipDirectiveContextCheck = c.R.P(1, 4), c.R.P(1, 4)
	var sb strings.Builder
	line := 1
	type probe struct {
		name string
		args []string
		term string
		line int
	}
	var ps []probe
	for _, b := range path {
		sb.WriteString(b + " w {\n")
		line++
	}
	head := func() {
		sb.WriteString(writeAs(c.R, kind).Src + " $a $b {\n")
		line++
	}
	head()
	for _, n := range paramNames {
		for k := 0; k < 10; k++ {
			for _, term := range []string{";", "{", "}"} {
				var args []string
				for j := 0; j < k; j++ {
					args = append(args, pick(c.R, []string{"v", "on", "a b", "", "(x)", "default", "volatile"}))
				}
				ps = append(ps, probe{n, args, term, line})
				sb.WriteString(writeAs(c.R, n).Src)
				for _, a := range args {
					sb.WriteString(" " + writeAs(c.R, a).Src)
				}
				if c.R.P(1, 12) {
					sb.WriteString(" #comment\n")
					line++
				}
				sb.WriteString(" " + term)
				switch term {
				case "{":
					sb.WriteString(pick(c.R, []string{"}", " a b; }", " a { b; } c; }", "default 1; }", `"}" x; }`}))
				case "}":
					sb.WriteString("\n")
					line++
					head()
					continue
				}
				sb.WriteString("\n")
				line++
			}
		}
	}
	sb.WriteString("}" + strings.Repeat("}", len(path)) + "\n")
	text := sb.String()
	p, err := parse1(text, o)
	if err != nil {
		c.Desc("text", text)
		c.Failf("parse: %v", err)
	}
	got := map[int][]*cp.Directive{}
	var walk func(ds cp.Directives, in bool)
	walk = func(ds cp.Directives, in bool) {
		for _, d := range ds {
			if d.IsMapBlockParameter != (in && d.Comment == nil) {
				c.Failf("parameter mark of %s", cpDirString(d))
			}
			if in && d.Comment == nil {
				got[d.Line] = append(got[d.Line], d)
			}
			walk(d.Block, !in && d.Directive == kind)
		}
	}
	c.Desc("kind", kind)
	c.Desc("options", optString(&o))
	walk(p.Config[0].Parsed, false)
	bad := map[int]int{}
	for _, e := range p.Errors {
		bad[*e.Line]++
	}
	for _, s := range ps {
		ok := refMapDecide(kind, s.name, len(s.args), s.term) == ""
		ds := got[s.line]
		switch {
		case ok && (len(ds) != 1 || bad[s.line] != 0):
			c.Failf("%q %q is permitted in %s: %d in the result, %d errors", s.name, s.args, kind, len(ds), bad[s.line])
		case !ok && (len(ds) != 0 || bad[s.line] != 1):
			c.Failf("%q %q %s is not permitted in %s: %d in the result, %d errors", s.name, s.args, s.term, kind, len(ds), bad[s.line])
		case ok && (ds[0].Directive != s.name || !eqStrs(ds[0].Args, s.args) || ds[0].Block != nil):
			c.Failf("%q %q in %s became %s", s.name, s.args, kind, cpDirString(ds[0]))
		}
		c.NoteIf(ok, "accepted")
		c.NoteIf(!ok, "rejected")
		c.Sig(kind, s.name, fmt.Sprint(len(s.args)), s.term)
		delete(bad, s.line)
		delete(got, s.line)
	}
	if len(bad) > 0 || len(got) > 0 {
		c.Failf("%d errors and %d parameters on other lines", len(bad), len(got))
	}
	c.Evals(len(ps) - 1)
	c.Sample(func() string { return fmt.Sprintf("%s in %q: %d parameters", kind, path, len(ps)) })
}

func mapTreeCfg(r *Rand) *treeCfg {
	cfg := defaultTreeCfg(r)
	cfg.mapBias = true
	return cfg
}

func init() {
	const ctxN, styleN = 17, 19
	register(&Check{
		ID: "C09", Level: "exploration",
		Rule: "matrix: every argument style, with and without block, for every context bit (and all, and none) under all four check settings, against every argument form and end in all contexts (enumerated); sources: several sources with random definitions and random statements; names: blocks whose names are nearly those of contexts (joined, repeated, renamed, in another order); included: statements in files that are included in contexts; soup: hostile text with the default sets against the reference parser; many: a definition among hundreds of sources or masks, statements of thousands of arguments. Evaluations are judged statements; distinct: acceptance vectors.",
		Streams: []Stream{
			{Name: "matrix", Quick: ctxN * styleN * 2 * 4, Thorough: ctxN * styleN * 2 * 4, Run: func(c *C) {
				n := c.Idx
				bit := uint(ctxBits)
				if k := n % ctxN; k < 16 {
					bit = bitsOfCtx[k]
				}
				n /= ctxN
				mask := bit | styleBits[n%styleN]
				n /= styleN
				mask |= uint(n%2) * mBlock
				n /= 2
				o := cp.ParseOptions{SkipDirectiveContextCheck: n&1 != 0, SkipDirectiveArgsCheck: n&2 != 0, DirectiveSources: []cp.MatchFunc{oneDef("dd", mask)}}
				c.Desc("mask", fmt.Sprintf("%x", mask))
				c.NoteIf(o.SkipDirectiveContextCheck, "without context check")
				c.NoteIf(o.SkipDirectiveArgsCheck, "without argument check")
				text, ps := probeText("dd", ctxPaths)
				judge(c, "dd", text, ps, o, &o)
			}},
			{Name: "pairs", Quick: 300, Run: func(c *C) {
				// several definitions, in one source or in several
				var ms []uint
				for n := c.R.Range(2, 4); n > 0; n-- {
					ms = append(ms, randMask(c.R))
				}
				o := cp.ParseOptions{ErrorOnUnknownDirectives: false}
				if c.R.Bool() {
					o.DirectiveSources = []cp.MatchFunc{oneDef("dd", ms...)}
				} else {
					for _, m := range ms {
						o.DirectiveSources = append(o.DirectiveSources, oneDef("dd", m), noMatch)
					}
					c.Note("several sources")
				}
				c.Desc("masks", fmt.Sprintf("%x", ms))
				text, ps := probeText("dd", ctxPaths)
				judge(c, "dd", text, ps, o, &o)
			}},
			{Name: "names", Quick: 900, Run: func(c *C) {
				r := c.R
				var paths [][]string
				for len(paths) < 12 {
					if p := nearPath(r, pick(r, ctxPaths)); p != nil {
						paths = append(paths, p)
					}
				}
				c.Desc("paths", paths)
				mask := randMask(r)
				if r.Bool() {
					mask = bitsOfCtx[r.N(16)] | pick(r, styleBits)
				}
				o := cp.ParseOptions{DirectiveSources: []cp.MatchFunc{oneDef("dd", mask)}, SkipDirectiveArgsCheck: r.P(1, 8)}
				text, ps := probeText("dd", paths)
				judge(c, "dd", text, ps, o, &o)
				c.NoteN("nearly contexts", len(paths))
			}},
			{Name: "sources", Quick: 6000, Run: func(c *C) { sourcesCase(c) }},
			{Name: "included", Quick: 3000, Run: func(c *C) { includedCase(c) }},
			{Name: "soup", Quick: 5000, Run: func(c *C) {
				o := genDiffOpts(c.R)
				o.DirectiveSources = nil
				o.ErrorOnUnknownDirectives = c.R.Bool()
				diffCase(c, soupCase(c.R), o, false, "structure")
			}},
			{Name: "worlds", Quick: 1500, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: true})
				o := genDiffOpts(c.R)
				o.SingleFile, o.StopParsingOnError = false, false
				diffFiles(c, w.files, w.main, o, false, "structure")
			}},
			{Name: "many", Quick: 300, Run: manyMasks},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "accepted": 20000, "rejected": 20000, "several sources": 1000, "without context check": 500, "without argument check": 500, "in included files": 2000},
		Assume:  []string{"match functions that say a name is known give at least one definition", "the meaning of the bits of a definition is that of the pinned commit"},
	})

	register(&Check{
		ID: "C10", Level: "exploration",
		Rule: "table: for every directive of every bundled set (and of the default), all argument forms with both ends in all sixteen contexts are parsed and the accepted ones compared with the frozen snapshot of the definitions (enumerated); unknown: names of other sets, variations of names and random names against every set. Evaluations are judged statements; distinct: acceptance vectors.",
		Streams: []Stream{
			{Name: "table", Quick: len(setNames), Thorough: len(setNames), Run: func(c *C) {
				s := setNames[c.Idx]
				tableCase(c, s.set, s.name)
			}},
			{Name: "unknown", Quick: len(dirSets), Thorough: len(dirSets) * 40, Run: func(c *C) { unknownNameCase(c) }},
			{Name: "together", Quick: 1500, Run: func(c *C) {
				// sets are used together
				r := c.R
				n := pick(r, allNames)
				o, ref := cp.ParseOptions{}, cp.ParseOptions{}
				var ds []string
				for k := r.Range(2, 5); k > 0; k-- {
					s := pick(r, dirSets[:len(dirSets)-1])
					ds = append(ds, s.name)
					o.DirectiveSources = append(o.DirectiveSources, func(d string) ([]uint, bool) {
						if d != n {
							return nil, false
						}
						return s.match(d)
					})
					ref.DirectiveSources = append(ref.DirectiveSources, func(d string) ([]uint, bool) { ms, ok := s.defs[d]; return ms, ok })
				}
				c.Desc("sets", ds)
				text, ps := probeText(n, ctxPaths[:16])
				judge(c, n, text, ps, o, &ref)
				c.Note("sets together")
			}},
		},
		MinNote: map[string]int{"definitions": len(setNames), "accepted": 100000, "rejected": 100000, "unknown names": 10000, "sets together": 500},
		Assume:  []string{"the snapshot (harness/tables.txt) was taken from the pinned commit, after comparing the sets with each other; deliberate updates of the sets need a new snapshot"},
	})

	kinds := []string{}
	for k := range refMapRules {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	register(&Check{
		ID: "C20", Level: "exploration",
		Rule: "matrix: every kind of block in six contexts with parameters of 28 names, 0 to 9 values and all ends (enumerated), with definitions that forbid or do not know the names; trees: generated trees full of such blocks; soup: hostile text with such blocks against the reference parser; many: thousands of parameters or values. Distinct: kind, name, number and end; shapes.",
		Streams: []Stream{
			{Name: "matrix", Quick: len(kinds) * 6 * 2, Run: func(c *C) {
				n := c.Idx
				k := kinds[n%len(kinds)]
				n /= len(kinds)
				mapMatrix(c, k, n%2 == 0, n/2%6)
			}},
			{Name: "trees", Quick: 4000, Run: func(c *C) { treeCase(c, mapTreeCfg(c.R), anyOpts()) }},
			{Name: "soup", Quick: 5000, Run: func(c *C) {
				r := c.R
				var sb strings.Builder
				for n := r.Range(1, 4); n > 0; n-- {
					sb.WriteString(pick(r, kinds) + pick(r, []string{" $a $b", "", " x"}) + " {")
					for k := r.N(6); k > 0; k-- {
						sb.WriteString(pick(r, []string{"a b;", "default 1;", "volatile;", "hostnames x;", "ranges;", "x;", "x y z;", "include f;", "map {", "}", "if (a) {}", "# c\n", "auto_reload 5m;", "x {y z;}", "x"}))
						sb.WriteString(pick(r, []string{"", " ", "\n"}))
						if r.P(1, 6) {
							sb.WriteString(genSoup(r, r.N(4)))
						}
					}
					if !r.P(1, 8) {
						sb.WriteString("}")
					}
				}
				o := genDiffOpts(r)
				o.SingleFile = true
				if r.P(1, 4) {
					o.IgnoreDirectives = []string{pick(r, []string{"default", "a", "x", "map"})}
				}
				diffCase(c, sb.String(), o, false, "structure")
			}},
			{Name: "many", Quick: 100, Run: func(c *C) {
				var text string
				for !strings.Contains(text, "map") && !strings.Contains(text, "types") {
					text = manyText(c.R, true)
				}
				noteMany(c, len(text)/8)
				o := manyOpts(c.R)
				diffCase(c, text, o, true, "all")
			}},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "accepted": 5000, "rejected": 10000, "map blocks": 5000},
	})
}
