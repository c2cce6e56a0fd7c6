package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C16 (schedules, chunking, concurrent use) and C18 (arguments stay as they are, calls are repeatable).
// An environment has options, payloads and files that calls share; it is made from a seed, so that any number of
// fresh ones can be made.

type env struct {
	popts    []*cp.ParseOptions
	bopts    []*cp.BuildOptions
	payloads []*cp.Payload
	worlds   []*world
	texts    []string
	values   []string
	masks    map[string][]uint // returned by a match function
	lua      *cp.Lua
	fresh    *cp.Lua         // registered by calls only
	spares   []func() string // tells whether spare capacity was written to
}

type call struct {
	kind    int
	a, b, c int
}

const (
	callParse = iota
	callLex
	callBuild
	callInto
	callCombined
	callMarshal
	callEqual
	callString
	callEnquote
	callMatch
	callFiles
	callFail
	callRegister
	callKinds
)

var callNames = []string{"Parse", "Lex", "Build", "BuildInto", "Combined", "Marshal", "Equal", "String", "Enquote", "match", "BuildFiles", "failing", "register"}

func (k call) String() string { return fmt.Sprintf("%s(%d,%d,%d)", callNames[k.kind], k.a, k.b, k.c) }

// plainLexer and plainBuilder have no state.
type plainLexer struct {
	n   int
	err *cp.ParseError // given for some statements, always the same one
}

func (l plainLexer) Lex(s *cp.SubScanner, matched string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken)
	go func() {
		defer close(ch)
		var sb strings.Builder
		for s.Scan() && s.Text() != ";" {
			sb.WriteString(s.Text())
			if l.n%2 == 0 {
				runtime.Gosched()
			}
		}
		if l.err != nil && sb.Len()%3 == 0 {
			ch <- cp.NgxToken{Error: l.err, Line: s.Line()}
		}
		ch <- cp.NgxToken{Value: strings.TrimSpace(sb.String()), Line: s.Line(), IsQuoted: true}
		ch <- cp.NgxToken{Value: ";", Line: s.Line()}
	}()
	return ch
}

type plainBuilder struct{ s string }

func (b plainBuilder) Build(d *cp.Directive) string {
	return b.s + d.Directive + strings.Join(d.Args, "|") + ";"
}

// openIn gives hooks over files that nobody writes to; they share nothing that would order the calls.
func openIn(files map[string]string) (func(string) (io.ReadCloser, error), func(string) ([]string, error)) {
	open := func(p string) (io.ReadCloser, error) {
		s, ok := files[p]
		if !ok {
			return nil, &os.PathError{Op: "open", Path: p, Err: errNotExist}
		}
		return io.NopCloser(strings.NewReader(s)), nil
	}
	glob := func(p string) ([]string, error) {
		var out []string
		for f := range files {
			if ok, err := filepath.Match(p, f); err != nil {
				return nil, err
			} else if ok {
				out = append(out, f)
			}
		}
		sort.Sort(sort.Reverse(sort.StringSlice(out)))
		return out, nil
	}
	return open, glob
}

// plainLexer gives a lexer that may report an error of its own.
func (e *env) plainLexer(r *Rand, n int) plainLexer {
	l := plainLexer{n: n}
	if r.Bool() {
		l.err = e.newErr(r)
	}
	return l
}

// newErr gives an error that is reported more than once.
func (e *env) newErr(r *Rand) *cp.ParseError {
	line, file := 7, "own"
	err := &cp.ParseError{What: "shared", Line: &line}
	if r.Bool() {
		err.File = &file
		err.BlockCtx, err.Statement = "ctx", "stmt"
	}
	e.spares = append(e.spares, func() string { return dumpErr(err) + fmt.Sprint(line, file) })
	return err
}

// errAfter is a reader that fails at the end.
type errAfter struct{ err error }

func (e errAfter) Read([]byte) (int, error) { return 0, e.err }

func mkEnv(seed uint64) *env {
	r := NewRand(seed)
	e := &env{masks: map[string][]uint{}, lua: &cp.Lua{}, fresh: &cp.Lua{}}
	all := map[string]string{}
	for i := 0; i < 3; i++ {
		w := genWorld(r, worldCfg{errs: r.P(1, 3), cycles: r.P(1, 8), soup: r.P(1, 4)})
		w2 := &world{files: map[string]string{}, main: fmt.Sprintf("/w%d/c/main", i)}
		for f, s := range w.files {
			w2.files[fmt.Sprintf("/w%d%s", i, f)] = strings.ReplaceAll(strings.ReplaceAll(s, "/c/", fmt.Sprintf("/w%d/c/", i)), "/etc/other", fmt.Sprintf("/w%d/etc/other", i))
		}
		if r.P(1, 3) {
			w2.files[w2.main] = luaText(r) + "\n" + w2.files[w2.main]
		}
		if n := r.Range(5, 90); r.P(1, 8) {
			w2.files[w2.main] += strings.Repeat("d {", n) + "e;" + strings.Repeat("}", n)
		}
		for f, s := range w2.files {
			all[f] = s
		}
		e.worlds = append(e.worlds, w2)
	}
	open, glob := openIn(all)
	if r.P(1, 6) { // files that cannot be read to the end
		var err error = e.newErr(r)
		if r.Bool() {
			err = fmt.Errorf("wrapped: %w", err)
		}
		ok, n := open, r.N(4)
		open = func(p string) (io.ReadCloser, error) {
			f, ferr := ok(p)
			if ferr == nil && len(p)%4 == n {
				return io.NopCloser(io.MultiReader(f, errAfter{err})), nil
			}
			return f, ferr
		}
	}
	if r.P(1, 3) {
		// matches that the hook keeps, and gives to whoever asks
		kept, find := map[string][]string{}, glob
		for _, w := range e.worlds {
			_, _ = cp.Parse(w.main, &cp.ParseOptions{Open: open, SkipDirectiveContextCheck: true, SkipDirectiveArgsCheck: true, Glob: func(p string) ([]string, error) {
				m, err := find(p)
				if err == nil {
					kept[p] = append(append([]string{}, m...), "sentinel")[:len(m)]
				}
				return m, err
			}})
		}
		glob = func(p string) ([]string, error) {
			if m, ok := kept[p]; ok {
				return m, nil
			}
			return find(p)
		}
		var ps []string
		for p := range kept {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		e.spares = append(e.spares, func() string {
			var sb strings.Builder
			for _, p := range ps {
				fmt.Fprintf(&sb, "%q: %q\n", p, kept[p][:len(kept[p])+1])
			}
			return sb.String()
		})
	}
	for i := 0; i < 3; i++ {
		o := &cp.ParseOptions{Open: open, Glob: glob, ParseComments: r.Bool(), CombineConfigs: r.P(1, 3), StopParsingOnError: r.P(1, 4), SingleFile: r.P(1, 5),
			ErrorOnUnknownDirectives: r.P(1, 3), SkipDirectiveArgsCheck: r.P(1, 4), SkipDirectiveContextCheck: r.P(1, 4)}
		if r.P(1, 4) {
			o.Glob = nil // the default
		}
		if r.P(1, 3) {
			for k := r.Range(1, 6); k > 0; k-- { // in any order, with repetitions
				o.IgnoreDirectives = append(o.IgnoreDirectives, pick(r, []string{"listen", "server", "if", "x", "a", "root", "Z", "include", ""}))
			}
		}
		if r.Bool() {
			o.ErrorCallback = func(err error) interface{} { return "cb " + err.Error() }
		}
		switch r.N(3) {
		case 0:
			// tables that differ between options, behind the same code
			key := fmt.Sprint("#", i)
			for _, n := range []string{"listen", "user", "server", "location", "root", "include", "aa"} {
				if r.Bool() {
					e.masks[n+key] = pick(r, [][]uint{{ctxBits | mAny | mBlock, 1}, {ctxBits | mAny}, {ctxBits | 1}, {ctxBits | mBlock | mAny, ctxBits | mAny}, {mAny | mBlock}, {}})
				}
			}
			masks := e.masks
			o.DirectiveSources = []cp.MatchFunc{func(n string) ([]uint, bool) { m, ok := masks[n+key]; return m, ok }}
			if r.Bool() {
				o.DirectiveSources = append(o.DirectiveSources, cp.DefaultDirectivesMatchFunc)
			}
		case 1:
			o.DirectiveSources = []cp.MatchFunc{cp.DefaultDirectivesMatchFunc, cp.MatchLuaLatest, cp.MatchOssLatest}
		}
		if r.P(2, 3) {
			o.LexOptions.Lexers = []cp.RegisterLexer{e.lua.RegisterLexer()}
		}
		if r.P(1, 3) {
			o.LexOptions.Lexers = append(o.LexOptions.Lexers, cp.LexWithLexer(e.plainLexer(r, i), "listen", "user", "a"))
		}
		e.popts = append(e.popts, o)

		b := genBuildOpts(r)
		if r.Bool() {
			b.Builders = append(b.Builders, e.lua.RegisterBuilder())
		}
		if r.P(1, 3) {
			b.Builders = append(b.Builders, cp.BuildWithBuilder(plainBuilder{fmt.Sprint("B", i)}, "listen", "user", "a"))
		}
		e.bopts = append(e.bopts, b)

		p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}}
		switch r.N(8) {
		case 0, 1, 2:
			p = genPayload(r)
		case 3:
			// Lua blocks
			for k := r.Range(1, 2); k > 0; k-- {
				q, err := parse1(luaText(r), luaParse())
				if err == nil && len(q.Config) == 1 {
					q.Config[0].File = fmt.Sprintf("lua%d.conf", k)
					p.Config = append(p.Config, q.Config[0])
				}
			}
		case 4:
			// deep blocks
			for k := r.Range(1, 2); k > 0; k-- {
				d := &cp.Directive{Directive: "deepest", Line: 1, Args: []string{genValue(r)}}
				for n := r.Range(5, 90); n > 0; n-- {
					d = &cp.Directive{Directive: "d", Line: 1, Args: []string{}, Block: cp.Directives{d}}
				}
				p.Config = append(p.Config, cp.Config{File: fmt.Sprintf("deep%d.conf", k), Status: "ok", Parsed: cp.Directives{d}})
			}
		case 5:
			// only what must be there
			p.Status, p.Errors = "", nil
			for k := r.Range(1, 3); k > 0; k-- {
				p.Config = append(p.Config, cp.Config{File: fmt.Sprintf("f%d.conf", k), Parsed: genDirectives(r, 1, true)})
			}
		default:
			line := 3
			for k := r.Range(1, 3); k > 0; k-- {
				cf := cp.Config{File: fmt.Sprintf("f%d.conf", k), Status: "ok", Errors: []cp.ConfigError{}, Parsed: genDirectives(r, 1, true)}
				if r.P(1, 3) {
					pe := &cp.ParseError{What: "w", File: strp("f"), Line: &line}
					cf.Status, p.Status = "failed", "failed"
					cf.Errors = append(cf.Errors, cp.ConfigError{Line: &line, Error: pe})
					p.Errors = append(p.Errors, cp.PayloadError{File: "f", Line: &line, Error: pe, Callback: "c"})
				}
				p.Config = append(p.Config, cf)
			}
		}
		ln := 0
		for k := range p.Config { // includes that lead to later configs; conditions of if
			fixIncludes(r, p.Config[k].Parsed, k, len(p.Config))
			lineUp(r, p.Config[k].Parsed, &ln)
		}
		e.payloads = append(e.payloads, p)
		st := genStyle(r)
		if r.Bool() {
			e.texts = append(e.texts, luaText(r))
		} else {
			t, _ := render(r, genTree(r, 0, defaultTreeCfg(r)), &st)
			if r.P(1, 4) {
				t += strings.Repeat("\n"+t, r.Range(1, 40))
			}
			e.texts = append(e.texts, mutate(r, t))
		}
		e.values = append(e.values, genValue(r))
	}
	// the builders' text of listen is not the business of these checks, but Lua.Build needs arguments
	return e
}

func fixIncludes(r *Rand, ds cp.Directives, k, n int) {
	for _, d := range ds {
		if d.Includes != nil {
			if k+1 < n {
				d.Includes = []int{r.Range(k+1, n-1)}
				d.Directive = "include"
			} else {
				d.Includes = nil
			}
		}
		fixIncludes(r, d.Block, k, n)
	}
}

func dumpDirs(sb *strings.Builder, ds cp.Directives) {
	if ds == nil {
		sb.WriteString("nil")
		return
	}
	sb.WriteByte('[')
	for _, d := range ds {
		if d == nil {
			sb.WriteString("<nil>")
			continue
		}
		fmt.Fprintf(sb, "(%q %d %q %v %q %v %v %v", d.Directive, d.Line, d.Args, d.Args == nil, d.File, d.Includes, d.Includes == nil, d.IsMapBlockParameter)
		if d.Comment != nil {
			fmt.Fprintf(sb, " #%q", *d.Comment)
		}
		sb.WriteByte(' ')
		dumpDirs(sb, d.Block)
		sb.WriteByte(')')
	}
	sb.WriteByte(']')
}

func dumpErr(e error) string {
	if e == nil {
		return "no error"
	}
	s := fmt.Sprintf("%T %s", e, e)
	if pe, ok := e.(*cp.ParseError); ok {
		s += fmt.Sprintf(" %q %q %q", pe.What, pe.Statement, pe.BlockCtx)
		if pe.Line != nil {
			s += fmt.Sprint(" ", *pe.Line)
		}
		if pe.File != nil {
			s += " " + *pe.File
		}
	}
	return s
}

func dumpPayload(p *cp.Payload) string {
	if p == nil {
		return "no payload"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q\n", p.Status)
	for _, e := range p.Errors {
		fmt.Fprintf(&sb, "error %q %v %s\n", e.File, e.Callback, dumpErr(e.Error))
	}
	for _, cf := range p.Config {
		fmt.Fprintf(&sb, "config %q %q ", cf.File, cf.Status)
		for _, e := range cf.Errors {
			fmt.Fprintf(&sb, "%s; ", dumpErr(e.Error))
		}
		dumpDirs(&sb, cf.Parsed)
		sb.WriteByte('\n')
	}
	return sb.String()
}

func dumpToks(ts []cp.NgxToken) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%q %d %v %s\n", t.Value, t.Line, t.IsQuoted, dumpErr(t.Error))
	}
	return sb.String()
}

// luaSafe tells whether the Lua builder can take the directives (it needs the arguments of Lua blocks).
func luaSafe(ds cp.Directives) bool {
	for _, d := range ds {
		need := 1
		if d.Directive == "set_by_lua_block" {
			need = 2
		}
		if (strings.HasSuffix(d.Directive, "_by_lua_block") && len(d.Args) < need) || !luaSafe(d.Block) {
			return false
		}
	}
	return true
}

func run(e *env, k call) string {
	p := e.payloads[k.a%len(e.payloads)]
	b := e.bopts[k.b%len(e.bopts)]
	switch k.kind {
	case callParse:
		p, err := cp.Parse(e.worlds[k.a%len(e.worlds)].main, e.popts[k.b%len(e.popts)])
		return dumpErr(err) + "\n" + dumpPayload(p)
	case callLex:
		return dumpToks(lexAll(cp.LexWithOptions(strings.NewReader(e.texts[k.a%len(e.texts)]), e.popts[k.b%len(e.popts)].LexOptions)))
	case callBuild:
		var buf bytes.Buffer
		for _, cf := range p.Config {
			if err := cp.Build(&buf, cf, b); err != nil {
				return err.Error()
			}
			buf.WriteString("\n--\n")
		}
		return buf.String()
	case callInto:
		sc := &cp.StringsCreator{}
		if err := cp.BuildInto(p, sc, b); err != nil {
			return err.Error()
		}
		var sb strings.Builder
		for _, f := range sc.Files {
			sb.WriteString(f.Name + "\n" + f.String())
		}
		return sb.String()
	case callCombined:
		q, err := p.Combined()
		return dumpErr(err) + "\n" + dumpPayload(q)
	case callMarshal:
		j, err := json.Marshal(p.Config)
		if err != nil {
			return err.Error()
		}
		return string(j)
	case callEqual:
		q := e.payloads[k.b%len(e.payloads)]
		var sb strings.Builder
		for _, x := range p.Config {
			for _, y := range q.Config {
				for _, d := range x.Parsed {
					for _, f := range y.Parsed {
						fmt.Fprint(&sb, d.Equal(f))
					}
				}
			}
		}
		return sb.String()
	case callString:
		var sb strings.Builder
		for _, x := range p.Config {
			for _, d := range x.Parsed {
				fmt.Fprint(&sb, d.String(), d.IsBlock(), d.IsInclude(), d.IsComment())
			}
		}
		for _, pe := range p.Errors {
			sb.WriteString(dumpErr(pe.Error))
		}
		return sb.String()
	case callEnquote:
		return cp.Enquote(e.values[k.a%len(e.values)])
	case callMatch:
		var sb strings.Builder
		name := allNames[k.c%len(allNames)]
		for i, n := range boundNames {
			if i%7 == k.a%7 {
				ms, ok := bundled[n](name)
				fmt.Fprint(&sb, n, ms, ok)
			}
		}
		ms, ok := cp.DefaultDirectivesMatchFunc(name)
		fmt.Fprint(&sb, ms, ok)
		return sb.String()
	case callFail:
		return fail(e, k, p, b)
	case callRegister:
		// options of the call's own that share the extension
		lo := cp.LexOptions{Lexers: []cp.RegisterLexer{e.fresh.RegisterLexer(), cp.LexWithLexer(e.fresh, "my_lua", "content_by_lua_block")}}
		o := *e.popts[k.b%len(e.popts)]
		o.LexOptions = lo
		q, err := cp.Parse(e.worlds[k.a%len(e.worlds)].main, &o)
		out := dumpToks(lexAll(cp.LexWithOptions(strings.NewReader(e.texts[k.a%len(e.texts)]), lo))) + dumpErr(err) + "\n" + dumpPayload(q)
		bo := *b
		bo.Builders = []cp.RegisterBuilder{e.fresh.RegisterBuilder(), cp.BuildWithBuilder(e.fresh, "my_lua")}
		for _, cf := range p.Config {
			var buf bytes.Buffer
			out += fmt.Sprint(cp.Build(&buf, cf, &bo)) + buf.String()
		}
		return out
	default: // callFiles
		dir, err := os.MkdirTemp("", "calls")
		must(err)
		defer os.RemoveAll(dir)
		q := *p
		if err := cp.BuildFiles(q, dir, b); err != nil {
			return strings.ReplaceAll(err.Error(), dir, "")
		}
		var sb strings.Builder
		for _, cf := range p.Config {
			t, err := os.ReadFile(filepath.Join(dir, cf.File))
			fmt.Fprintf(&sb, "%s %v\n%s", cf.File, err, t)
		}
		return sb.String()
	}
}

type panicking struct{}

func (panicking) Build(*cp.Directive) string { panic("builder") }

// fail makes a call that fails because of what it is given, an error or a panic that the caller recovers.
func fail(e *env, k call, p *cp.Payload, b *cp.BuildOptions) (out string) {
	defer func() {
		if x := recover(); x != nil {
			out += fmt.Sprint("panic ", x)
		}
	}()
	err := fmt.Errorf("failing %d", k.c)
	o := *e.popts[k.b%len(e.popts)]
	switch k.c % 7 {
	case 0:
		for _, cf := range p.Config {
			w := &faultWriter{n: k.c / 7 % 60, short: k.c%2 == 0, full: k.c%3 == 0, err: err}
			out += fmt.Sprintf("%v %q\n", cp.Build(w, cf, b), w.buf.String())
		}
		return out
	case 1:
		cr := &creator{failAt: k.c / 7 % 3, failOp: []string{"create", "write", "close"}[k.c/21%3], failK: k.c / 63 % 40, err: err}
		got := cp.BuildInto(p, cr, b)
		return fmt.Sprint(got, cr.names, cr.texts, cr.closes)
	case 2:
		open, n := o.Open, k.c/7%4
		o.Open = func(p string) (io.ReadCloser, error) {
			if n--; n < 0 {
				return nil, err
			}
			return open(p)
		}
	case 3:
		open, n := o.Open, k.c/7%200
		o.Open = func(p string) (io.ReadCloser, error) {
			f, ferr := open(p)
			if ferr != nil {
				return f, ferr
			}
			return io.NopCloser(io.MultiReader(io.LimitReader(f, int64(n)), errAfter{err})), nil
		}
	case 4:
		bo := *b
		bo.Builders = append([]cp.RegisterBuilder{}, b.Builders...)
		for i, cf := range p.Config {
			if i == k.c/7%3 && len(cf.Parsed) > 0 {
				bo.Builders = append(bo.Builders, cp.BuildWithBuilder(panicking{}, cf.Parsed[len(cf.Parsed)-1].Directive))
			}
		}
		sc := &cp.StringsCreator{}
		got := cp.BuildInto(p, sc, &bo)
		return fmt.Sprint(got, len(sc.Files))
	case 5:
		n := k.c / 7 % 5
		o.ErrorCallback = func(error) interface{} {
			if n--; n < 0 {
				panic("callback")
			}
			return n
		}
	default:
		n := k.c / 7 % 9
		o.DirectiveSources = append([]cp.MatchFunc{}, o.DirectiveSources...)
		o.DirectiveSources = append(o.DirectiveSources, func(string) ([]uint, bool) {
			if n--; n < 0 {
				panic("match function")
			}
			return nil, false
		})
	}
	q, perr := cp.Parse(e.worlds[k.a%len(e.worlds)].main, &o)
	return dumpErr(perr) + "\n" + dumpPayload(q)
}

var boundNames = func() (out []string) {
	for n := range bundled {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}()

func randCall(r *Rand) call {
	k := call{kind: r.N(callKinds), a: r.N(3), b: r.N(3), c: r.N(1 << 20)}
	if r.P(1, 3) {
		k.kind = callParse
	}
	if k.kind == callFiles && r.P(2, 3) {
		k.kind = callBuild
	}
	return k
}

// dump gives all that the caller can see of an environment.
func (e *env) dump() string {
	var sb strings.Builder
	for i, o := range e.popts {
		fmt.Fprintf(&sb, "options %d: %v %v %v %v %v %v %v %q %v %v %v %d\n", i, o.StopParsingOnError, o.CombineConfigs, o.SingleFile, o.ParseComments, o.ErrorOnUnknownDirectives,
			o.SkipDirectiveContextCheck, o.SkipDirectiveArgsCheck, o.IgnoreDirectives, o.ErrorCallback == nil, o.Open == nil, o.Glob == nil, len(o.DirectiveSources))
		for _, l := range o.LexOptions.Lexers {
			fmt.Fprintf(&sb, "%T %v;", l, l)
		}
		for _, f := range o.DirectiveSources {
			for _, n := range []string{"listen", "nothing", "lua_package_path"} {
				ms, ok := f(n)
				fmt.Fprint(&sb, ms, ok)
			}
		}
		sb.WriteByte('\n')
	}
	for i, o := range e.bopts {
		fmt.Fprintf(&sb, "build options %d: %d %v %v", i, o.Indent, o.Tabs, o.Header)
		for _, b := range o.Builders {
			fmt.Fprintf(&sb, " %T", b)
		}
		sb.WriteByte('\n')
	}
	for _, p := range e.payloads {
		sb.WriteString(dumpPayload(p))
	}
	var ns []string
	for n := range e.masks {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprint(&sb, n, e.masks[n])
	}
	for _, f := range e.spares {
		sb.WriteString(f())
	}
	return sb.String()
}

var sentinel = &cp.Directive{Directive: "sentinel", Args: []string{}}

// addSpare gives slices capacity beyond their length, and watches it.
func (e *env) addSpare() {
	strs := func(s []string) []string {
		if s == nil {
			return nil
		}
		t := append(append(make([]string, 0, len(s)+2), s...), "sentinel", "sentinel")
		e.spares = append(e.spares, func() string { return fmt.Sprint(t[len(t)-2:]) })
		return t[:len(s)]
	}
	var dirs func(ds cp.Directives) cp.Directives
	dirs = func(ds cp.Directives) cp.Directives {
		for _, d := range ds {
			d.Args = strs(d.Args)
			if d.Includes != nil {
				t := append(append([]int{}, d.Includes...), -77, -77)
				d.Includes = t[:len(d.Includes)]
				e.spares = append(e.spares, func() string { return fmt.Sprint(t[len(t)-2:]) })
			}
			d.Block = dirs(d.Block)
		}
		if ds == nil {
			return nil
		}
		t := append(append(make(cp.Directives, 0, len(ds)+2), ds...), sentinel, sentinel)
		e.spares = append(e.spares, func() string { return fmt.Sprint(t[len(t)-2] == sentinel, t[len(t)-1] == sentinel) })
		return t[:len(ds)]
	}
	for _, p := range e.payloads {
		for i := range p.Config {
			cf := &p.Config[i]
			cf.Parsed = dirs(cf.Parsed)
			ce := append(append([]cp.ConfigError{}, cf.Errors...), cp.ConfigError{}, cp.ConfigError{})
			cf.Errors = ce[:len(cf.Errors)]
			e.spares = append(e.spares, func() string { return fmt.Sprint(ce[len(ce)-2:]) })
		}
		pe := append(append([]cp.PayloadError{}, p.Errors...), cp.PayloadError{}, cp.PayloadError{})
		p.Errors = pe[:len(p.Errors)]
		cs := append(append([]cp.Config{}, p.Config...), cp.Config{File: "sentinel"}, cp.Config{File: "sentinel"})
		p.Config = cs[:len(p.Config)]
		e.spares = append(e.spares, func() string { return fmt.Sprint(pe[len(pe)-2:], cs[len(cs)-2:]) })
	}
	for _, o := range e.popts {
		o.IgnoreDirectives = strs(o.IgnoreDirectives)
		if n := len(o.LexOptions.Lexers); n > 0 {
			t := append(append([]cp.RegisterLexer{}, o.LexOptions.Lexers...), nil, nil)
			o.LexOptions.Lexers = t[:n]
			e.spares = append(e.spares, func() string { return fmt.Sprint(t[n] == nil, t[n+1] == nil) })
		}
		if n := len(o.DirectiveSources); n > 0 {
			t := append(append([]cp.MatchFunc{}, o.DirectiveSources...), nil, nil)
			o.DirectiveSources = t[:n]
			e.spares = append(e.spares, func() string { return fmt.Sprint(t[n] == nil, t[n+1] == nil) })
		}
	}
	for _, o := range e.bopts {
		if n := len(o.Builders); n > 0 {
			t := append(append([]cp.RegisterBuilder{}, o.Builders...), nil, nil)
			o.Builders = t[:n]
			e.spares = append(e.spares, func() string { return fmt.Sprint(t[n] == nil, t[n+1] == nil) })
		}
	}
	for n, ms := range e.masks {
		t := append(append([]uint{}, ms...), 7, 7)
		e.masks[n] = t[:len(ms)]
		e.spares = append(e.spares, func() string { return fmt.Sprint(t[len(t)-2:]) })
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 120
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d: %q, want %q", i, cut(a), cut(b))
}

// usable drops Lua builders where hand-made directives could lack what they need.
func (e *env) usable() {
	for _, p := range e.payloads {
		for _, cf := range p.Config {
			if !luaSafe(cf.Parsed) {
				for _, b := range e.bopts {
					b.Builders = nil
				}
			}
		}
	}
}

func newEnv(seed uint64) *env {
	e := mkEnv(seed)
	e.usable()
	e.addSpare()
	return e
}

// historyCase runs calls on shared values and compares each result with that of the same call on fresh values.
func historyCase(c *C) {
	r := c.R
	seed := r.U64()
	n := r.Range(2, 14)
	var ks []call
	for i := 0; i < n; i++ {
		k := randCall(r)
		if i > 0 && r.P(1, 3) {
			k = ks[r.N(i)] // again
		}
		ks = append(ks, k)
	}
	c.Desc("calls", fmt.Sprint(ks))
	// each call on fresh values, in another order
	want := make([]string, n)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	r.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, i := range order {
		want[i] = run(newEnv(seed), ks[i])
	}
	e := newEnv(seed)
	before := e.dump()
	for i, k := range ks {
		if got := run(e, k); got != want[i] {
			c.Failf("call %d, %v, gives something else than on its own, %s", i, k, firstDiff(got, want[i]))
		}
		c.Note(callNames[k.kind])
		if r.P(1, 3) || i == n-1 {
			if after := e.dump(); after != before {
				c.Failf("after call %d, %v, the arguments differ %s", i, k, firstDiff(after, before))
			}
			c.Note("argument snapshots")
		}
	}
	// options that were copied after use and changed are options of their own
	o := *e.popts[0]
	fresh := *newEnv(seed).popts[0]
	for _, x := range []*cp.ParseOptions{&o, &fresh} {
		x.LexOptions.Lexers = nil
		x.IgnoreDirectives = nil
		x.DirectiveSources = nil
	}
	p1, e1 := cp.Parse(e.worlds[0].main, &o)
	p2, e2 := cp.Parse(e.worlds[0].main, &fresh)
	if a, b := dumpErr(e1)+dumpPayload(p1), dumpErr(e2)+dumpPayload(p2); a != b {
		c.Failf("parse with a changed copy of used options differs %s", firstDiff(a, b))
	}
	b1, b2 := *e.bopts[1], *newEnv(seed).bopts[1]
	b1.Builders, b2.Builders = nil, nil
	b1.Indent, b2.Indent = 0, 0
	var t1, t2 bytes.Buffer
	for _, cf := range e.payloads[1].Config {
		must(cp.Build(&t1, cf, &b1))
		must(cp.Build(&t2, cf, &b2))
	}
	if t1.String() != t2.String() {
		c.Failf("build with a changed copy of used options differs %s", firstDiff(t1.String(), t2.String()))
	}
	c.Note("changed copies")
	c.Evals(2*n + 4)
	c.Sig(fmt.Sprint(ks), fmt.Sprint(seed))
	c.Sample(func() string { return fmt.Sprint(ks) })
}

// runAlone makes one call in a process of its own.
func runAlone(spec string) {
	var seed uint64
	var k call
	if _, err := fmt.Sscanf(spec, "%d,%d,%d,%d,%d", &seed, &k.kind, &k.a, &k.b, &k.c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Print(run(newEnv(seed), k))
}

// aloneCase compares calls in this process, which has made any number of calls before, with calls in new processes.
func aloneCase(c *C) {
	r := c.R
	exe, err := os.Executable()
	must(err)
	var es []*env
	var seeds []uint64
	for i := 0; i < 2; i++ {
		seeds = append(seeds, r.U64())
		es = append(es, newEnv(seeds[i]))
	}
	var did []string
	for i := r.Range(3, 6); i > 0; i-- {
		k, w := randCall(r), r.N(2)
		if r.Bool() {
			k.kind = callParse
		}
		did = append(did, fmt.Sprint(k, " on ", w))
		c.Desc("call", did[len(did)-1])
		got := run(es[w], k)
		cmd := exec.Command(exe, "-alone", fmt.Sprintf("%d,%d,%d,%d,%d", seeds[w], k.kind, k.a, k.b, k.c))
		out, err := cmd.Output()
		if err != nil {
			panic(fmt.Sprint("the call on its own: ", err))
		}
		if got != string(out) {
			c.Failf("%v gives something else than in a process of its own, %s", k, firstDiff(got, string(out)))
		}
		c.Note("calls in processes of their own")
	}
	c.Evals(len(did))
	c.Sig(fmt.Sprint(did), fmt.Sprint(seeds))
}

// runFirst makes the first calls of a process at the same time, and again one after the other.
func runFirst(seed uint64) {
	r := NewRand(seed)
	envSeed, shared, same := r.U64(), r.Bool(), r.P(2, 3)
	calls := make([][]call, r.Range(2, 8))
	for g := range calls {
		for i := r.Range(1, 3); i > 0; i-- {
			k := randCall(r)
			if r.Bool() {
				k.kind = pick(r, []int{callBuild, callLex, callInto, callBuild, callMarshal, callCombined})
			}
			calls[g] = append(calls[g], k)
		}
		if same && g > 0 {
			calls[g] = calls[0]
		}
	}
	var e *env
	if shared {
		e = newEnv(envSeed)
	}
	got := make([]string, len(calls))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range calls {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			own := e
			if !shared {
				own = newEnv(envSeed)
			}
			for _, k := range calls[g] {
				got[g] += run(own, k) + "\n"
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range calls {
		want := ""
		for _, k := range calls[g] {
			want += run(newEnv(envSeed), k) + "\n"
		}
		if got[g] != want {
			fmt.Printf("concurrent calls %v of a new process give something else than on their own, %s", calls[g], firstDiff(got[g], want))
			os.Exit(3)
		}
	}
}

// firstCase makes the first calls of processes at the same time, where what is set up on first use is set up.
func firstCase(c *C) {
	exe, err := os.Executable()
	must(err)
	type proc struct {
		seed uint64
		cmd  *exec.Cmd
		o, e bytes.Buffer
	}
	var ps []*proc
	for i := 0; i < 4; i++ {
		p := &proc{seed: c.R.U64()}
		p.cmd = exec.Command(exe, "-first", fmt.Sprint(p.seed))
		p.cmd.Stdout, p.cmd.Stderr = &p.o, &p.e
		must(p.cmd.Start())
		ps = append(ps, p)
	}
	fail := ""
	for _, p := range ps {
		err := p.cmd.Wait()
		switch code := p.cmd.ProcessState.ExitCode(); {
		case err == nil:
			c.Note("new processes")
		case code == exitRace:
			fail = fmt.Sprintf("seed %d: data race of the first calls of a process:\n%s", p.seed, p.e.String())
		case code == 3:
			fail = fmt.Sprintf("seed %d: %s", p.seed, p.o.String())
		case code == 2 && strings.Contains(p.e.String(), "nginx-go-crossplane"):
			fail = fmt.Sprintf("seed %d: the first calls of a process crashed it:\n%s", p.seed, p.e.String())
		default:
			panic(fmt.Sprint("the first calls: ", err, p.e.String()))
		}
		c.Sig("first", fmt.Sprint(p.seed))
	}
	c.Evals(len(ps))
	if fail != "" {
		c.Failf("%s", fail)
	}
}

// resultsOwn checks that what a call returned is not changed by later calls.
func resultsCase(c *C) {
	r := c.R
	e := newEnv(r.U64())
	type kept struct {
		what string
		p    *cp.Payload
		dump string
	}
	var ks []kept
	keep := func(what string, p *cp.Payload) {
		if p != nil {
			ks = append(ks, kept{what, p, dumpPayload(p)})
		}
	}
	for i := r.Range(2, 8); i > 0; i-- {
		switch r.N(3) {
		case 0:
			p, _ := cp.Parse(pick(r, e.worlds).main, pick(r, e.popts))
			keep("Parse", p)
		case 1:
			p, _ := pick(r, e.payloads).Combined()
			keep("Combined", p)
		default:
			run(e, randCall(r))
		}
		if len(ks) > 0 && r.Bool() {
			k := pick(r, ks)
			q, _ := k.p.Combined()
			keep("Combined of "+k.what, q)
			_, _ = json.Marshal(k.p.Config)
			for _, cf := range k.p.Config {
				if luaSafe(cf.Parsed) {
					_ = cp.Build(io.Discard, cf, pick(r, e.bopts))
				}
			}
		}
		for _, k := range ks {
			if d := dumpPayload(k.p); d != k.dump {
				c.Failf("the result of %s has changed %s", k.what, firstDiff(d, k.dump))
			}
		}
	}
	c.NoteN("results kept", len(ks))
	c.Sig(fmt.Sprint(len(ks), e.dump()))
}

// globalCase runs many calls and then compares the tables of directives with what they were.
func globalCase(c *C) {
	r := c.R
	snap := func() string {
		var sb strings.Builder
		for _, n := range boundNames {
			for _, d := range setByName[n].names {
				ms, ok := bundled[n](d)
				fmt.Fprint(&sb, n, d, ms, ok)
			}
		}
		for _, v := range []string{"a", "a b", `"`, "", "x{"} {
			sb.WriteString(cp.Enquote(v))
		}
		return sb.String()
	}
	before := snap()
	for i := 0; i < 20; i++ {
		e := newEnv(r.U64())
		for k := 0; k < 10; k++ {
			run(e, randCall(r))
		}
	}
	if after := snap(); after != before {
		c.Failf("the tables differ %s", firstDiff(after, before))
	}
	c.Note("table snapshots")
	c.Evals(200)
}

// ---- concurrent use ----

type span struct {
	g, i       int
	start, end time.Time
}

// sharedCase has goroutines that use the same values at the same time.
func sharedCase(c *C) {
	r := c.R
	seed := r.U64()
	ng := r.Range(2, 8)
	calls := make([][]call, ng)
	same := r.P(1, 3) // all do the same
	for g := range calls {
		for i := r.Range(1, 4); i > 0; i-- {
			calls[g] = append(calls[g], randCall(r))
		}
		if same && g > 0 {
			calls[g] = calls[0]
		}
	}
	c.Desc("calls", fmt.Sprint(calls))
	want := make([][]string, ng)
	alone := func() {
		for g := range calls {
			want[g] = make([]string, len(calls[g]))
			for i, k := range calls[g] {
				want[g][i] = run(newEnv(seed), k)
			}
		}
	}
	if c.Idx%2 == 1 {
		alone()
	}
	cp.SetTokenChanCap(pick(r, []int{0, 1, 2, 64, cp.TokenChanCap}))
	defer cp.SetTokenChanCap(cp.TokenChanCap)
	procs := runtime.GOMAXPROCS(pick(r, []int{1, 2, 4, 8, 8, 8}))
	defer runtime.GOMAXPROCS(procs)
	e := newEnv(seed)
	got := make([][]string, ng)
	spans := make([][]span, ng)
	start := make(chan struct{})
	var wg sync.WaitGroup
	var pmu sync.Mutex
	panics := ""
	for g := range calls {
		g := g
		got[g] = make([]string, len(calls[g]))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					pmu.Lock()
					panics = fmt.Sprint(p)
					pmu.Unlock()
				}
			}()
			<-start
			for i, k := range calls[g] {
				s := span{g: g, i: i, start: time.Now()}
				got[g][i] = run(e, k)
				s.end = time.Now()
				spans[g] = append(spans[g], s)
			}
		}()
	}
	close(start)
	wg.Wait()
	if panics != "" {
		c.Failf("panic in a concurrent call: %s", panics)
	}
	if c.Idx%2 == 0 {
		alone()
	}
	for g := range calls {
		for i, k := range calls[g] {
			if got[g][i] != want[g][i] {
				c.Failf("concurrent call %v gives something else than on its own, %s", k, firstDiff(got[g][i], want[g][i]))
			}
			c.Note("concurrent " + callNames[k.kind])
		}
	}
	// the order of the starts and ends that was observed
	type ev struct {
		t time.Time
		s string
	}
	var evs []ev
	overlaps := 0
	for _, ss := range spans {
		for _, s := range ss {
			evs = append(evs, ev{s.start, fmt.Sprint("+", s.g)}, ev{s.end, fmt.Sprint("-", s.g)})
			for _, ts := range spans {
				for _, t := range ts {
					if t.g > s.g && t.start.Before(s.end) && s.start.Before(t.end) {
						overlaps++
					}
				}
			}
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	var sb strings.Builder
	for _, x := range evs {
		sb.WriteString(x.s)
	}
	c.NoteN("overlapping pairs of calls", overlaps)
	c.Sig("order", sb.String())
	c.Sample(func() string { return fmt.Sprint(calls, " order ", sb.String()) })
}

// chunkReader gives its text in pieces, with pauses.
type chunkReader struct {
	s     string
	r     *Rand
	mode  int
	empty int
}

const chunkModes = 7

func (k *chunkReader) Read(b []byte) (int, error) {
	if k.s == "" {
		return 0, io.EOF
	}
	n := len(b)
	switch k.mode {
	case 1:
		n = 1
	case 2:
		n = k.r.Range(1, 5)
	case 3: // empty reads
		if k.empty < 50 && k.r.Bool() {
			k.empty++
			return 0, nil
		}
		k.empty = 0
		n = k.r.Range(1, 40)
	case 4: // pauses
		n = k.r.Range(1, 30)
		for i := k.r.N(3); i > 0; i-- {
			runtime.Gosched()
		}
		if k.r.P(1, 20) {
			time.Sleep(time.Duration(k.r.N(200)) * time.Microsecond)
		}
	case 6:
		n = k.r.Range(4000, 4100)
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], k.s)
	k.s = k.s[n:]
	if k.s == "" && k.mode >= 5 {
		return n, io.EOF // the end comes with the last piece
	}
	return n, nil
}

// chunkCase reads the same text in different pieces and with different capacities.
func chunkCase(c *C) {
	r := c.R
	text := ""
	switch r.N(4) {
	case 0:
		text = soupCase(r)
	case 1:
		text = luaText(r)
	case 2: // longer than the buffer of the scanner
		for len(text) < 9000 {
			text += luaText(r) + "\n" + strings.Repeat(pick(r, []string{"a", "é", "🙂", " ", "#"}), r.N(4200)) + "\n"
		}
	default:
		w := genWorld(r, worldCfg{errs: true})
		text = w.files[w.main]
	}
	if r.P(1, 4) {
		text = mutate(r, text)
	}
	c.Desc("text", text)
	o := genDiffOpts(r)
	if r.P(2, 3) {
		o.LexOptions = luaOpts()
	}
	if r.P(1, 3) {
		o.LexOptions.Lexers = append(o.LexOptions.Lexers, cp.LexWithLexer(plainLexer{n: r.N(2)}, "listen", "a", "x1"))
	}
	o.ErrorCallback = func(err error) interface{} { return err.Error() }
	want, wantToks := "", ""
	modes := []int{0, 1 + r.N(chunkModes-1), 1 + r.N(chunkModes-1), 1 + r.N(chunkModes-1)}
	for i, mode := range modes {
		capacity := cp.TokenChanCap
		if i > 0 {
			capacity = pick(r, []int{0, 1, 2, 3, 64, cp.TokenChanCap})
		}
		procs := runtime.GOMAXPROCS(0)
		if i > 0 && r.P(1, 3) {
			runtime.GOMAXPROCS(1)
		}
		cp.SetTokenChanCap(capacity)
		m := newMemFS(map[string]string{"/c/main": text})
		seed := r.U64()
		m.reader = func(path string, _ io.Reader) io.Reader {
			s, _ := m.Read(path)
			return &chunkReader{s: s, r: NewRand(seed), mode: mode}
		}
		p, err := cp.Parse("/c/main", m.with(o))
		got := dumpErr(err) + "\n" + dumpPayload(p)
		toks := dumpToks(lexAll(cp.LexWithOptions(&chunkReader{s: text, r: NewRand(seed), mode: mode}, o.LexOptions)))
		cp.SetTokenChanCap(cp.TokenChanCap)
		runtime.GOMAXPROCS(procs)
		if i == 0 {
			want, wantToks = got, toks
			continue
		}
		if got != want {
			c.Failf("reads of kind %d with capacity %d give another result, %s", mode, capacity, firstDiff(got, want))
		}
		if toks != wantToks {
			c.Failf("reads of kind %d with capacity %d give other tokens, %s", mode, capacity, firstDiff(toks, wantToks))
		}
		c.Note(fmt.Sprintf("reads of kind %d", mode))
		c.Note(fmt.Sprintf("capacity %d", capacity))
		c.Evals(2)
	}
	c.Sig(fmt.Sprint(modes), want)
}

// reuseCase changes what it gave to a call, and what it got, right after the call: nothing may still use it.
func reuseCase(c *C) {
	r := c.R
	text := []byte(soupCase(r))
	if r.P(1, 3) {
		text = []byte(luaText(r) + genSoup(r, 5) + luaText(r))
	}
	c.Desc("text", string(text))
	o := genDiffOpts(r)
	o.StopParsingOnError = r.Bool()
	o.LexOptions = luaOpts()
	if r.Bool() {
		o.LexOptions.Lexers = append(o.LexOptions.Lexers, cp.LexWithLexer(plainLexer{n: 1}, "listen", "a", "x1"))
	}
	cp.SetTokenChanCap(pick(r, []int{0, 1, 4, cp.TokenChanCap}))
	defer cp.SetTokenChanCap(cp.TokenChanCap)
	o.Open = func(string) (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(text)), nil }
	n := 0
	o.ErrorCallback = func(error) interface{} { n++; return n }
	p, err := cp.Parse("/c/main", &o)
	c.NoteIf(err != nil, "reuse after an error")
	// all of it is the caller's again
	n++
	for i := range text {
		text[i] = 'x'
	}
	for i := range o.LexOptions.Lexers {
		o.LexOptions.Lexers[i] = nil
	}
	o = cp.ParseOptions{}
	if p != nil {
		var clobber func(ds cp.Directives)
		clobber = func(ds cp.Directives) {
			for i, d := range ds {
				clobber(d.Block)
				for k := range d.Args {
					d.Args[k] = "gone"
				}
				*d = cp.Directive{}
				ds[i] = nil
			}
		}
		q, _ := p.Combined()
		b := &cp.BuildOptions{Builders: []cp.RegisterBuilder{cp.BuildWithBuilder(plainBuilder{"b"}, "a")}}
		for _, cf := range p.Config {
			_ = cp.Build(io.Discard, cf, b)
		}
		b.Builders[0] = nil
		*b = cp.BuildOptions{}
		for i := range p.Config {
			clobber(p.Config[i].Parsed)
			p.Config[i] = cp.Config{}
		}
		_ = q
	}
	c.Note("reused arguments")
	c.Sig(classes(string(c.descs[0])))
}

func init() {
	register(&Check{
		ID: "C16", Boost: 1, Level: "exploration", Serial: true,
		Rule: "shared: 2-8 goroutines released together that call Parse, Lex, Build, BuildInto, BuildFiles, Combined, Marshal, Equal, String, match functions on the same options and payloads (hooks without locks, so that they order nothing), compared with the calls on their own, under the race detector; chunks: the same text in pieces of seven kinds, with pauses, and capacities 0..2048; reuse: arguments and results overwritten right after the call; first: new processes whose first calls are concurrent, on shared values or on their own, compared with the same calls one after the other. Distinct: observed orders of starts and ends, results.",
		Streams: []Stream{
			{Name: "shared", Quick: 500, Thorough: 15000, Run: sharedCase},
			{Name: "chunks", Quick: 700, Thorough: 15000, Run: chunkCase},
			{Name: "reuse", Quick: 1500, Thorough: 20000, Run: reuseCase},
			{Name: "first", Quick: 75, Thorough: 1500, Run: firstCase},
		},
		MinNote: map[string]int{"overlapping pairs of calls": 500, "concurrent Parse": 500, "concurrent Build": 100, "concurrent Combined": 50, "reads of kind 1": 100, "capacity 0": 100, "reused arguments": 500, "reuse after an error": 100, "new processes": 250},
		Assume:  []string{"the race detector sees the accesses of the executions that ran; extensions and hooks are safe for concurrent use themselves", "SetTokenChanCap is not called during other calls"},
	})
	register(&Check{
		ID: "C18", Boost: 2, Level: "exploration",
		Rule: "history: sequences of 2-14 calls on shared options and payloads, each compared with the same call on fresh values that ran in another order, with snapshots of all arguments (including spare capacity of slices) after the calls; alone: calls in a process with a history, compared with the same calls in processes of their own; calls that fail or panic among them; results: returned payloads are watched while later calls run; tables: the directive tables before and after. Distinct: sequences.",
		Streams: []Stream{
			{Name: "history", Quick: 2500, Run: historyCase},
			{Name: "alone", Quick: 250, Thorough: 4000, Run: aloneCase},
			{Name: "results", Quick: 2500, Run: resultsCase},
			{Name: "tables", Quick: 10, Thorough: 100, Run: globalCase},
		},
		MinNote: map[string]int{"argument snapshots": 2500, "calls in processes of their own": 500, "Parse": 2000, "Build": 500, "Combined": 300, "Marshal": 300, "Equal": 300, "BuildFiles": 100, "results kept": 3000, "changed copies": 1000},
	})
}
