package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"sync/atomic"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C17: every call comes to an end, with a result or an error.

// countingReader counts what is read, and how often it is read after its end.
type countingReader struct {
	s     string
	reads int
	late  int
}

func (k *countingReader) Read(b []byte) (int, error) {
	k.reads++
	if k.s == "" {
		k.late++
		return 0, io.EOF
	}
	n := copy(b, k.s)
	k.s = k.s[n:]
	return n, nil
}

// wildLexer gives any tokens, in any number, after reading any part of the input.
type wildLexer struct {
	seed  uint64
	calls *int64
}

func (w *wildLexer) Lex(s *cp.SubScanner, matched string) <-chan cp.NgxToken {
	n := atomic.AddInt64(w.calls, 1)
	r := NewRand(w.seed, uint64(n))
	ch := make(chan cp.NgxToken, r.N(3))
	go func() {
		defer close(ch)
		for k := r.Geo(12); k > 0; k-- {
			for j := r.Geo(4); j > 0; j-- {
				if !s.Scan() && r.Bool() {
					break
				}
			}
			t := cp.NgxToken{Value: pick(r, []string{"", "{", "}", ";", "#", "#c", "a", "if", "(", ")", "map", "include", "\x00", s.Text(), "${", `\`, "server"}), Line: pick(r, []int{s.Line(), 0, -1, 1 << 40}), IsQuoted: r.P(1, 3)}
			if r.P(1, 12) {
				t.Error = pick(r, []error{s.Err(), io.ErrUnexpectedEOF, &cp.ParseError{}, &cp.ParseError{What: "w"}, cp.ErrPrematureLexEnd})
			}
			ch <- t
		}
	}()
	return ch
}

// everything does all that can be done with a text and with what comes of it.
func everything(c *C, text string, o cp.ParseOptions, wild bool) {
	c.Desc("text", text)
	c.Desc("options", optString(&o))
	rd := &countingReader{s: text}
	toks := lexAll(cp.LexWithOptions(rd, o.LexOptions))
	runes := len([]rune(text))
	if !wild {
		if len(toks) > runes+2 {
			c.Failf("%d tokens for %d characters", len(toks), runes)
		}
		if rd.late > 4 {
			c.Failf("%d reads after the end", rd.late)
		}
		if rd.reads > len(text)/16+16 {
			c.Failf("%d reads for %d bytes", rd.reads, len(text))
		}
	}
	c.NoteN("tokens", len(toks))
	m := newMemFS(map[string]string{"/c/main": text, "/c/a": "a;", "/c/main2": text, "/c/x1": "include main2; }"})
	p, err := cp.Parse("/c/main", m.with(o))
	if n := len(m.opens); n > 2*4+2*(strings.Count(text, "include")+1)*3 && !wild {
		c.Failf("%d files are opened", n)
	}
	if err != nil {
		_ = err.Error()
		if p != nil {
			c.Failf("a payload and an error %v", err)
		}
		c.Note("failed parses")
		return
	}
	if p == nil {
		c.Failf("no payload and no error")
	}
	c.NoteIf(p.Status == "ok", "ok parses")
	c.NoteIf(p.Status != "ok", "parses with errors")
	use(c, p, wild)
}

// use does all that can be done with a payload.
func use(c *C, p *cp.Payload, wild bool) {
	r := c.R
	if _, err := json.Marshal(p); err != nil {
		c.Failf("marshal: %v", err)
	}
	for _, e := range p.Errors {
		_ = e.Error.Error()
	}
	total := 0
	var all []*cp.Directive
	var walk func(ds cp.Directives)
	walk = func(ds cp.Directives) {
		for _, d := range ds {
			_ = d.String()
			all = append(all, d)
			walk(d.Block)
		}
	}
	for _, cf := range p.Config {
		walk(cf.Parsed)
	}
	total = len(all)
	for k := 0; k < 5 && total > 0; k++ {
		_ = pick(r, all).Equal(pick(r, all))
	}
	if q, err := p.Combined(); err == nil {
		_, _ = q.Combined()
	}
	bo := genBuildOpts(r)
	if r.P(1, 6) {
		bo.Indent = pick(r, []int{-1, -2, -4, -r.N(300), 99, 100, 101, r.N(300), -1 << 40})
	}
	if r.P(1, 3) {
		bo.Builders = []cp.RegisterBuilder{cp.BuildWithBuilder(plainBuilder{"b"}, "a", "server", "#", "")}
	}
	for _, cf := range p.Config {
		var buf bytes.Buffer
		if err := cp.Build(&buf, cf, bo); err != nil {
			c.Failf("build: %v", err)
		}
	}
	must(cp.BuildInto(p, &cp.StringsCreator{}, bo))
	c.NoteN("directives", total)
}

var wildNames = []string{"a", "server", "if", "map", "x1", "on", "location", "http", "include", "events", "types"}

func wildOpts(c *C) (o cp.ParseOptions, wild bool) {
	r := c.R
	o = genDiffOpts(r)
	if r.Bool() {
		o.LexOptions = luaOpts()
	}
	if r.P(1, 3) {
		wild = true
		var n int64
		o.LexOptions.Lexers = append(o.LexOptions.Lexers, cp.LexWithLexer(&wildLexer{r.U64(), &n}, pick(r, wildNames), pick(r, wildNames), ""))
		c.Note("wild extensions")
	}
	switch r.N(6) {
	case 0:
		o.DirectiveSources = []cp.MatchFunc{func(n string) ([]uint, bool) { return []uint{uint(hashStr(n))}, len(n)%2 == 0 }}
	case 1:
		o.DirectiveSources = []cp.MatchFunc{pick(r, dirSets[:len(dirSets)-1]).match, func(n string) ([]uint, bool) { return []uint{0, ^uint(0)}, n != "" }}
	case 2:
		o.DirectiveSources = []cp.MatchFunc{func(n string) ([]uint, bool) { return nil, false }}
	}
	if r.P(1, 4) {
		o.ErrorCallback = func(error) interface{} { return nil }
	}
	if r.P(1, 6) {
		o.IgnoreDirectives = []string{pick(r, wildNames), pick(r, wildNames), "", "}"}
	}
	return o, wild
}

var luaSoup = []string{"content_by_lua_block", "set_by_lua_block", "set_by_lua_block $x", "content_by_lua_block {", "set_by_lua_block $x {", "[[", "]]", "--", "--[[", "[=[", "]=]", "\\", `"`, "'", "{", "}", "\n", " ", ";", "x", "init_by_lua_block{", "--[==[", "]==]", "[", "]", "=", "-"}

var totalAlphabet = []string{"if", "(", ")", "{", "}", ";", "map", "include", "'", `"`, `\`, "#", "\n", " ", "$", "a"}

func hostileText(c *C) string {
	r := c.R
	switch r.N(6) {
	case 0:
		return soupCase(r)
	case 1:
		b := make([]byte, r.Geo(60))
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return string(b)
	case 2:
		var sb strings.Builder
		for n := r.Geo(30); n > 0; n-- {
			if r.P(1, 3) {
				sb.WriteString(pick(r, soupFrags))
			} else {
				sb.WriteString(pick(r, luaSoup))
			}
		}
		return sb.String()
	case 3:
		return mutate(r, luaText(r))
	case 4:
		var sb strings.Builder
		for n := r.Geo(25); n > 0; n-- {
			sb.WriteString(pick(r, totalAlphabet))
		}
		return sb.String()
	default:
		w := genWorld(r, worldCfg{errs: true})
		s := w.files[w.main]
		if len(s) > 0 {
			s = s[:r.N(len(s)+1)]
		}
		return s
	}
}

const totalBatch = 64

func shortTexts(c *C, maxLen int) {
	total := countStrings(maxLen, len(totalAlphabet))
	batch(c, c.Idx, totalBatch, total, func(i int) {
		text := nthString(i, totalAlphabet)
		for _, o := range []cp.ParseOptions{{DirectiveSources: []cp.MatchFunc{noMatch}, ParseComments: true}, {ErrorOnUnknownDirectives: true}, {SkipDirectiveArgsCheck: true, SkipDirectiveContextCheck: true, SingleFile: true}} {
			c.descs = c.descs[:0]
			everything(c, text, o, false)
			c.Evals(1)
		}
		c.Note("short texts")
	})
	c.Sig("short", fmt.Sprint(c.Idx))
}

func shortBatches(maxLen int) int {
	return (countStrings(maxLen, len(totalAlphabet)) + totalBatch - 1) / totalBatch
}

// handCase uses directives that were made by hand.
func handCase(c *C) {
	r := c.R
	var gen func(depth int) cp.Directives
	names := []string{"", "if", "#", "map", "include", "a", "{", "}", ";", "content_by_lua_block", "\n", "\x00\xff", "if "}
	gen = func(depth int) cp.Directives {
		if r.P(1, 6) {
			return nil
		}
		ds := cp.Directives{}
		for n := r.Geo(5); n > 0; n-- {
			d := &cp.Directive{Directive: pick(r, names), Line: pick(r, []int{0, 1, -1, 1 << 40, r.N(9)}), IsMapBlockParameter: r.P(1, 5)}
			if r.P(1, 4) {
				d.Directive = genValue(r)
			}
			for k := r.Geo(4); k > 0; k-- {
				d.Args = append(d.Args, pick(r, []string{"", "(", ")", "()", genValue(r)}))
			}
			if r.P(1, 3) {
				s := pick(r, []string{"", "\n", "}\n;", genValue(r)})
				d.Comment = &s
			}
			if r.P(1, 4) {
				d.Includes = pick(r, [][]int{{}, {0}, {-1}, {1, 1}, {7}, {1 << 40}, {0, 1, 2}})
			}
			if depth < 5 && r.P(1, 3) {
				d.Block = gen(depth + 1)
			}
			ds = append(ds, d)
		}
		return ds
	}
	p := &cp.Payload{Status: pick(r, []string{"", "ok", "failed"})}
	for n := r.N(4); n > 0; n-- {
		cf := cp.Config{File: genValue(r), Status: pick(r, []string{"", "ok", "failed"}), Parsed: gen(0)}
		if r.P(1, 12) {
			for k := r.Range(20, 160); k > 0; k-- {
				cf.Parsed = cp.Directives{{Directive: pick(r, names), Line: r.N(5), Block: cf.Parsed}}
			}
		}
		if r.P(1, 3) {
			cf.Errors = []cp.ConfigError{{}}
		}
		p.Config = append(p.Config, cf)
	}
	c.Desc("payload", fmt.Sprintf("%+v", jsonOf(p)))
	use(c, p, false)
	c.Note("hand-made payloads")
	c.Sig(fmt.Sprint(len(p.Config)), classes(jsonOf(p)))
}

// ---- size ----

// bigShapes are texts of about n pieces each; what takes more than linear work does not come to an end at this size.
var bigShapes = []struct {
	name string
	text func(n int) string
}{
	{"one word", func(n int) string { return strings.Repeat("a", n) + ";" }},
	{"one quoted string", func(n int) string { return `"` + strings.Repeat("a ", n/2) + `";` }},
	{"escapes in a string", func(n int) string { return `"` + strings.Repeat(`\"`, n/2) + `";` }},
	{"one comment", func(n int) string { return "#" + strings.Repeat("c", n) }},
	{"one variable", func(n int) string { return "a ${" + strings.Repeat("v", n) + "};" }},
	{"many variables", func(n int) string { return "a " + strings.Repeat("${v}", n/4) + ";" }},
	{"dollars", func(n int) string { return "a " + strings.Repeat("$", n) + ";" }},
	{"backslashes", func(n int) string { return "a " + strings.Repeat(`\`, n) + ";" }},
	{"escaped spaces", func(n int) string { return "a " + strings.Repeat(`\ `, n/2) + ";" }},
	{"spaces", func(n int) string { return strings.Repeat(" ", n) }},
	{"line ends", func(n int) string { return strings.Repeat("\n", n) }},
	{"carriage returns", func(n int) string { return strings.Repeat("\r", n) }},
	{"arguments", func(n int) string { return "a" + strings.Repeat(" b", n/4) + ";" }},
	{"quoted arguments", func(n int) string { return "a" + strings.Repeat(" 'b c'", n/12) + ";" }},
	{"statements", func(n int) string { return strings.Repeat("a b;\n", n/16) }},
	{"known statements", func(n int) string {
		return "http{server{" + strings.Repeat("add_header a b;", n/32) + "}}"
	}},
	{"blocks", func(n int) string { return strings.Repeat("a{}", n/16) }},
	{"comments", func(n int) string { return strings.Repeat("#c\n", n/16) }},
	{"comments among arguments", func(n int) string { return "a " + strings.Repeat("#c\n", n/16) + ";" }},
	{"map parameters", func(n int) string { return "http{map a b{" + strings.Repeat("c d;", n/16) + "}}" }},
	{"if conditions", func(n int) string { return "if (" + strings.Repeat(" a", n/4) + "){}" }},
	{"errors", func(n int) string { return strings.Repeat("listen;", n/64) }},
	{"errors with blocks", func(n int) string { return strings.Repeat("server{a;}", n/64) }},
	{"unterminated", func(n int) string { return strings.Repeat("{a b", n/8) }},
	{"ignored", func(n int) string { return strings.Repeat("ignored x{a{b;}}", n/16) }},
	{"repeated includes", func(n int) string { return strings.Repeat("include a;", n/64) }},
	{"lua", func(n int) string { return "content_by_lua_block {" + strings.Repeat("x ", n/2) + "}" }},
	{"lua strings", func(n int) string { return "content_by_lua_block {" + strings.Repeat(`"a\"" `, n/6) + "}" }},
	{"lua comments", func(n int) string { return "content_by_lua_block {" + strings.Repeat("-- c\n", n/5) + "}" }},
	{"one lua comment", func(n int) string { return "content_by_lua_block {--[[" + strings.Repeat("] ", n/2) + "]]}" }},
	{"one lua string", func(n int) string { return "content_by_lua_block {[==[" + strings.Repeat("]=", n/2) + "]==]}" }},
	{"long brackets", func(n int) string { return "content_by_lua_block {[" + strings.Repeat("=", n) + "}" }},
	{"lua braces", func(n int) string {
		return "content_by_lua_block {" + strings.Repeat("{", n/2) + strings.Repeat("}", n/2) + "}"
	}},
	{"lua blocks", func(n int) string { return strings.Repeat("content_by_lua_block {x}", n/64) }},
	{"open lua block", func(n int) string { return "content_by_lua_block {" + strings.Repeat("x", n) }},
	{"deep blocks", func(n int) string { return strings.Repeat("a{", 1500) + strings.Repeat("}", 1500) }},
	{"deep invalid blocks", func(n int) string { return "server{" + strings.Repeat("a{", n/32) + strings.Repeat("}", n/32) + "}" }},
	{"closing braces", func(n int) string { return strings.Repeat("}", n) }},
	{"quotes", func(n int) string { return strings.Repeat(`a '"' "'";`, n/32) }},
	{"not utf-8", func(n int) string { return "a " + strings.Repeat("\xff", n) + ";" }},
	{"wide", func(n int) string { return "a " + strings.Repeat("é", n/2) + ";" }},
}

func bigCase(c *C) {
	sh := bigShapes[c.Idx%len(bigShapes)]
	n := 3 << 20
	if c.Tier == "thorough" {
		n = 8 << 20
	}
	text := sh.text(n)
	o := cp.ParseOptions{ParseComments: true, IgnoreDirectives: []string{"ignored"}, CombineConfigs: c.Idx/len(bigShapes)%2 == 1, LexOptions: luaOpts()}
	c.Desc("shape", sh.name)
	m := newMemFS(map[string]string{"/c/main": text, "/c/a": "a;"})
	m.fail["/none"] = errNotExist
	p, err := cp.Parse("/c/main", m.with(o))
	if err != nil {
		c.Note("big parses that fail")
	} else {
		bo := &cp.BuildOptions{Builders: []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}}
		must(cp.BuildInto(p, &cp.StringsCreator{}, bo))
		if _, err := json.Marshal(p); err != nil {
			c.Failf("marshal: %v", err)
		}
		q, err := p.Combined()
		if err != nil {
			c.Failf("combine: %v", err)
		}
		for _, a := range p.Config {
			for i := range a.Parsed {
				if i < len(q.Config[0].Parsed) {
					_ = a.Parsed[i].Equal(q.Config[0].Parsed[i])
				}
			}
		}
		c.Note("big parses")
	}
	c.NoteN("big bytes", len(text))
	c.Sig("big", sh.name)
}

// manyFilesCase has chains and fans of files.
func manyFilesCase(c *C) {
	n := 1500
	files := map[string]string{}
	switch c.Idx % 4 {
	case 0: // a chain
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("/c/f%d", i)] = fmt.Sprintf("include f%d;", i+1)
		}
		files[fmt.Sprintf("/c/f%d", n)] = "a;"
		files["/c/main"] = "include f0;"
	case 1: // all from the main file
		var sb strings.Builder
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("/c/f%d", i)] = "a;"
			fmt.Fprintf(&sb, "include f%d;\n", i)
		}
		files["/c/main"] = sb.String()
	case 2: // a pattern, again and again
		for i := 0; i < 100; i++ {
			files[fmt.Sprintf("/c/f%d", i)] = "a;"
		}
		files["/c/main"] = strings.Repeat("include f*;\n", 100)
	case 3: // every file includes every later one: the combination would be too large
		k := 150
		for i := 0; i < k; i++ {
			var sb strings.Builder
			for j := i + 1; j < k; j++ {
				fmt.Fprintf(&sb, "include f%d;\n", j)
			}
			files[fmt.Sprintf("/c/f%d", i)] = sb.String()
		}
		files["/c/main"] = "include f0;"
	}
	m := newMemFS(files)
	o := cp.ParseOptions{DirectiveSources: []cp.MatchFunc{noMatch}}
	p, err := cp.Parse("/c/main", m.with(o))
	if err != nil {
		c.Failf("%v", err)
	}
	if len(p.Config) != len(files) {
		c.Failf("%d configs of %d files", len(p.Config), len(files))
	}
	if c.Idx%4 != 3 {
		if _, err := p.Combined(); err != nil {
			c.Failf("%v", err)
		}
	}
	_, _ = json.Marshal(p)
	c.NoteN("many files", len(files))
	c.Sig("files", fmt.Sprint(c.Idx%4))
}

func init() {
	register(&Check{
		ID: "C17", Level: "exploration",
		Rule: "hostile: random bytes, soups of fragments, mutated and cut configs, under any options, directive sources and extensions that give any tokens, through tokenizing, parsing, combining, marshaling, comparing and building; short: all texts of up to 3 (thorough: 4) pieces of a 16-piece alphabet under three option sets; hand: hand-made payloads with any content; big: 3 MB (thorough: 8 MB) texts of many shapes, where work that is not about linear does not end; files: chains, fans and dense graphs of files; scale: each step (tokenize, parse, combine, compare, marshal, build) of many shapes of input on two sizes in a process of its own, whose CPU time and allocated memory may not grow much more than the input. A crash, a blocked call or one without end is attributed to its case. Distinct: outcomes, shapes.",
		Streams: []Stream{
			{Name: "hostile", Quick: 40000, Run: func(c *C) {
				text := hostileText(c)
				o, wild := wildOpts(c)
				everything(c, text, o, wild)
				c.Sig(classes(text))
			}},
			{Name: "short", Quick: shortBatches(3), Thorough: shortBatches(4), Run: func(c *C) {
				if c.Tier == "thorough" {
					shortTexts(c, 4)
				} else {
					shortTexts(c, 3)
				}
			}},
			{Name: "hand", Quick: 15000, Run: handCase},
			{Name: "big", Quick: len(bigShapes), Thorough: 2 * len(bigShapes), Run: bigCase},
			{Name: "files", Quick: 4, Thorough: 4, Run: manyFilesCase},
			{Name: "scale", Quick: len(scaleOps), Thorough: 2 * len(scaleOps), Run: scaleCase},
		},
		MinNote: map[string]int{"failed parses": 2000, "parses with errors": 5000, "ok parses": 3000, "wild extensions": 3000, "short texts": 4000, "hand-made payloads": 5000, "big parses": 20, "operations on two sizes": 60},
		Assume:  []string{"a case with 40 s without end, repeated alone for 25 s with CPU use, does not end; one without CPU use is blocked", "extensions close their channel; nil is not a directive", "CPU time that grows more than five times, or allocations that grow more than four times, as much as the input (32 times) are not proportional", "the text that an indent asks for fits into memory, and its size into an int", "combining a graph in which files are reachable on many paths has a result of that size"},
	})
}
