package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C21 (Lua blocks) and C22 (extensions).

var luaNames = []string{"init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block", "set_by_lua_block", "content_by_lua_block",
	"server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block", "header_filter_by_lua_block", "body_filter_by_lua_block",
	"log_by_lua_block", "balancer_by_lua_block", "ssl_client_hello_by_lua_block", "ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block",
	"ssl_session_store_by_lua_block"}

var luaCode = []string{" ", "\n", "\n    ", "ngx.say(", ")", "x = 1", "local a", "a - b", "a[1]", "t[i].x", "#t", ";", "$x", "é", "\r\n", "\t", "..", "==", "n = -1", "if a then", " end ",
	"function f(a, b)", "return", "ngx.var[k]", "10 % 3", "a ~= b", "::l::", "x=\\", "/* */", "//", "<!", "~=", "0x1F", "a, b", "server { listen 80; }", "{}", "{{}}", "{1, {2}, n=3}"}

var luaFrags = []string{"}", "{", "--", "[[", "#", ";", "a", " ", "$", "${x}", "é", "}}", "{{{", "x = 1", "--[[", "\t", "]", "[", "\r"}

// genLua gives Lua text in which braces are balanced outside of strings and comments.
func genLua(r *Rand, depth int) string {
	var sb strings.Builder
	frags := func(more ...string) string {
		var fb strings.Builder
		for n := r.Geo(6); n > 0; n-- {
			if k := r.N(len(luaFrags) + len(more)); k < len(luaFrags) {
				fb.WriteString(luaFrags[k])
			} else {
				fb.WriteString(more[k-len(luaFrags)])
			}
		}
		return fb.String()
	}
	long := func() string {
		eq := strings.Repeat("=", r.N(4))
		end := "]" + eq + "]"
		s := frags(`"`, "'", "\n", "]]", "]=]", "]==]", "[=[", `\`, "\r\n")
		s = strings.ReplaceAll(s, end, "")
		s = strings.ReplaceAll(s, end, "")
		return "[" + eq + "[" + strings.ReplaceAll(s, end, "") + end
	}
	for n := r.Geo(9); n > 0; n-- {
		switch r.N(9) {
		case 0, 1:
			q, o := `"`, "'"
			if r.Bool() {
				q, o = o, q
			}
			sb.WriteString(q + frags(o, `\`+q, `\`+o, `\\`, `\n`, "\\\n", `\}`, `\{`, `\\`+`\`+q) + q)
		case 2:
			sb.WriteString("--")
			s := frags(`"`, "'", `\`, "[x", "=[", "]]", "}--", "- x")
			if strings.HasPrefix(s, "[") {
				s = " " + s
			}
			if r.P(1, 5) {
				s = pick(r, []string{"[x", "[=x", "[==", "-[[", "[ ["}) + s
				if strings.HasPrefix(strings.TrimLeft(strings.TrimPrefix(s, "["), "="), "[") {
					s = "x" + s
				}
			}
			sb.WriteString(s + "\n")
		case 3:
			sb.WriteString("--" + long())
		case 4:
			sb.WriteString(pick(r, []string{"x = ", "f", "(", " "}) + long())
		case 5:
			if depth < 4 {
				sb.WriteString("{" + genLua(r, depth+1) + "}")
			}
		default:
			sb.WriteString(pick(r, luaCode))
		}
		sb.WriteString(pick(r, []string{"", " ", "\n"}))
	}
	return sb.String()
}

// bigLua gives Lua text of many lines or of many characters.
func bigLua(r *Rand) string {
	var sb strings.Builder
	sb.WriteString(genLua(r, 1) + "\n")
	switch r.N(4) {
	case 0:
		sb.WriteString(strings.Repeat("\n", r.Range(65000, 140000)))
	case 1:
		sb.WriteString("--" + strings.Repeat("x } ", r.Range(17000, 25000)) + "\n")
	case 2:
		sb.WriteString("x = [[" + strings.Repeat("} y\n", r.Range(17000, 67000)) + "]]\n")
	default:
		s := genLua(r, 1) + "\n"
		sb.WriteString(strings.Repeat(s, r.Range(70000, 100000)/len(s)+1))
	}
	sb.WriteString(genLua(r, 1))
	return sb.String()
}

// genLuaNode gives a statement with a Lua block.
func genLuaNode(r *Rand) *GNode {
	name := pick(r, luaNames)
	if r.P(1, 4) {
		name = "set_by_lua_block"
	}
	g := &GNode{Name: quoteMaybe(r, name, lexCfg{quoted: true}), RawEnd: true, NoComms: true}
	text := genLua(r, 0)
	if r.P(1, 1500) {
		text = bigLua(r)
	}
	if name == "set_by_lua_block" {
		v := pick(r, []string{"$x", "$res", "$a_b1", "x"})
		g.Raw = pick(r, []string{" ", "\n", "\t ", "  \n "}) + v + pick(r, []string{" ", "\n", "  ", "\t\n"}) + "{" + text + "}"
		g.Want = []string{v, text}
	} else {
		g.Raw = pick(r, []string{"", " ", " ", "\n", "\n\n  ", "\t", "\r\n"}) + "{" + text + "}"
		g.Want = []string{text}
	}
	return g
}

func luaTree(r *Rand) []*GNode {
	cfg := defaultTreeCfg(r)
	cfg.ext = func(r *Rand, inMap bool) *GNode {
		if inMap {
			return nil
		}
		return genLuaNode(r)
	}
	return genTree(r, 0, cfg)
}

// luaText gives a config with Lua blocks, for other checks.
func luaText(r *Rand) string {
	st := genStyle(r)
	text, _ := render(r, luaTree(r), &st)
	return text
}

func luaParse() cp.ParseOptions {
	o := anyOpts()
	o.LexOptions = luaOpts()
	return o
}

func luaLinesCase(c *C) {
	st := genStyle(c.R)
	ns := luaTree(c.R)
	text, _ := render(c.R, ns, &st)
	c.Desc("text", text)
	p, err := parse1(text, luaParse())
	if err != nil || len(p.Errors) > 0 {
		c.Note("not parsed")
		return
	}
	dirLines(c, p.Config[0].Parsed, expect(ns, "", true))
}

func countLua(ds []*RDir) (n, braces int) {
	for _, d := range ds {
		if strings.HasSuffix(d.Name, "_by_lua_block") {
			n++
			braces += strings.Count(d.Args[len(d.Args)-1], "}")
		}
		k, b := countLua(d.Block)
		n += k
		braces += b
	}
	return
}

func luaCase(c *C) {
	r := c.R
	ns := luaTree(r)
	o := luaParse()
	checkTree(c, ns, o)
	want := expect(ns, "", true)
	n, braces := countLua(want)
	c.NoteN("lua blocks", n)
	c.NoteN("braces inside", braces)
}

// luaTripCase builds what was parsed and looks for the same Lua text.
func luaTripCase(c *C) {
	r := c.R
	ns := luaTree(r)
	st := genStyle(r)
	text, _ := render(r, ns, &st)
	o := luaParse()
	o.ParseComments = r.P(3, 4)
	roundTrip(c, text, o)
}

// luaValidCase has Lua blocks in real contexts with validation.
func luaValidCase(c *C) {
	r := c.R
	ctxs := map[string][]string{
		"init_by_lua_block": {"http"}, "init_worker_by_lua_block": {"http"}, "exit_worker_by_lua_block": {"http"},
		"set_by_lua_block":     {"server", "location", "locif"},
		"content_by_lua_block": {"location", "locif"}, "rewrite_by_lua_block": {"http", "server", "location", "locif"}, "access_by_lua_block": {"http", "server", "location", "locif"},
		"header_filter_by_lua_block": {"http", "server", "location", "locif"}, "body_filter_by_lua_block": {"http", "server", "location", "locif"},
		"log_by_lua_block": {"http", "server", "location", "locif"}, "balancer_by_lua_block": {"http_upstream"}, "ssl_certificate_by_lua_block": {"http", "server"},
		"ssl_session_fetch_by_lua_block": {"http"}, "ssl_session_store_by_lua_block": {"http"}, "server_rewrite_by_lua_block": {"http", "server"},
		"ssl_client_hello_by_lua_block": {"http", "server"},
	}
	ns := append(genReal(r), forceBlocks(r)...)
	count := 0
	var put func(ns []*GNode, ctx string) []*GNode
	put = func(ns []*GNode, ctx string) []*GNode {
		for _, g := range ns {
			if g.HasBl {
				if in := ctxOfBlock[ctx][g.Name.Val]; in != "" {
					g.Block = put(g.Block, in)
				}
			}
		}
		for k := r.N(3); k > 0; k-- {
			l := genLuaNode(r)
			if !contains(ctxs[l.Name.Val], ctx) {
				continue
			}
			count++
			at := r.N(len(ns) + 1)
			ns = append(ns[:at:at], append([]*GNode{l}, ns[at:]...)...)
		}
		return ns
	}
	ns = put(ns, "main")
	checkTree(c, ns, cp.ParseOptions{SingleFile: true, ErrorOnUnknownDirectives: true, LexOptions: luaOpts(), DirectiveSources: []cp.MatchFunc{cp.DefaultDirectivesMatchFunc, cp.MatchLuaLatest}})
	c.NoteN("valid lua blocks", count)
}

// luaCutCase cuts a config inside of a Lua block.
func luaCutCase(c *C) {
	r := c.R
	g := genLuaNode(r)
	var sb strings.Builder
	depth := 0
	for k := r.N(4); k > 0; k-- {
		if r.Bool() {
			sb.WriteString("b {\n")
			depth++
		} else {
			sb.WriteString("a 'x';\n")
		}
	}
	sb.WriteString(g.Name.Src)
	// anywhere after the name, but before the last brace
	raw := []rune(g.Raw)
	cut := 1 + r.N(len(raw)-1)
	if g.Raw[0] == '{' {
		cut = r.N(len(raw)-1) + 1
	}
	text := sb.String() + string(raw[:cut])
	c.Desc("text", text)
	o := luaParse()
	o.StopParsingOnError = r.Bool()
	p, err := parse1(text, o)
	if o.StopParsingOnError {
		if err == nil {
			c.Failf("no error for a config that ends in a Lua block")
		}
	} else {
		if err != nil || len(p.Errors) != 1 || p.Status != "failed" {
			c.Failf("not one error for a config that ends in a Lua block: %v %v", err, p)
		}
		err = p.Errors[0].Error
	}
	if !errors.Is(err, cp.ErrPrematureLexEnd) {
		c.Failf("not recognisable as the early end: %v", err)
	}
	c.Note("cut blocks")
}

// ---- extensions ----

type extCall struct {
	lexer   string
	name    string
	text    string
	line    int // when the lexer is called
	endLine int
}

type extLog struct {
	mu    sync.Mutex
	calls []extCall
}

const (
	extNone  = iota // reads nothing
	extWhole        // reads up to the mark and gives one argument and the end of the statement
	extArg          // reads up to the mark and gives one argument
	extDrop         // reads up to the mark and gives nothing
	extMany         // gives several tokens and another statement
	extErr          // gives an argument and an error
	extModes
)

const extMark = "%%"

type recLexer struct {
	id   string
	mode int
	log  *extLog
	cap  int
}

func (l *recLexer) Lex(s *cp.SubScanner, matched string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken, l.cap)
	call := extCall{lexer: l.id, name: matched, line: s.Line()}
	go func() {
		defer close(ch)
		var sb strings.Builder
		if l.mode != extNone {
			for !strings.HasSuffix(sb.String(), extMark) && s.Scan() {
				sb.WriteString(s.Text())
			}
		}
		call.text = strings.TrimLeft(strings.TrimSuffix(sb.String(), extMark), " \n\t\r")
		call.endLine = s.Line()
		l.log.mu.Lock()
		l.log.calls = append(l.log.calls, call)
		l.log.mu.Unlock()
		line := s.Line()
		switch l.mode {
		case extWhole:
			ch <- cp.NgxToken{Value: call.text, Line: line, IsQuoted: true}
			ch <- cp.NgxToken{Value: ";", Line: line}
		case extArg:
			ch <- cp.NgxToken{Value: call.text, Line: line, IsQuoted: true}
		case extMany:
			for _, v := range []string{"p1", "p 2"} {
				ch <- cp.NgxToken{Value: v, Line: line, IsQuoted: v != "p1"}
			}
			ch <- cp.NgxToken{Value: ";", Line: line}
			ch <- cp.NgxToken{Value: "extra", Line: line}
			ch <- cp.NgxToken{Value: "{", Line: line, IsQuoted: true}
			ch <- cp.NgxToken{Value: ";", Line: line}
		case extErr:
			ch <- cp.NgxToken{Value: "p", Line: line}
			ch <- cp.NgxToken{Error: &cp.ParseError{What: "the extension says no 551", Line: &line}, Line: line}
		}
	}()
	return ch
}

var extNameSets = [][]string{{"ext", "ext_two", "ext three", "x{y"}, {"server", "listen", "location", "events"}, {"map", "geo", "if", "include"}, {"a", "b", "on", "80"}, {"ext", "extext", "Ext", "ex"}}

// extBody is text that an extension reads; it has what would confuse the tokenizer.
func extBody(r *Rand) string {
	var sb strings.Builder
	for n := r.Geo(8); n > 0; n-- {
		sb.WriteString(pick(r, []string{"{", "}", ";", `"`, "'", `\`, "#", "\n", " ", "${", "ext", "a", "é", "\t", "% ", "server", "\r\n"}))
	}
	s := strings.TrimLeft(sb.String(), " \n\t\r")
	return strings.TrimSuffix(strings.ReplaceAll(s, extMark, ""), "%")
}

// extTree makes statements for registered names and everything that looks like them.
func extTree(r *Rand, reg map[string]*recLexer, names []string, modeErr bool) (*treeCfg, *[]*GNode) {
	var made []*GNode
	cfg := defaultTreeCfg(r)
	isReg := func(n string) bool { return reg[n] != nil }
	cfg.ext = func(r *Rand, inMap bool) *GNode {
		n := pick(r, names)
		l := reg[n]
		if l == nil || (inMap && l.mode != extWhole) {
			if inMap {
				return nil
			}
			// not registered: an ordinary statement
			return &GNode{Name: quoteMaybe(r, "plain", cfg.lex)}
		}
		g := &GNode{NoComms: true}
		if strings.ContainsAny(n, " {") || r.P(1, 3) {
			q := pick(r, []string{`"`, "'"})
			g.Name = Lex{Src: q + n + q, Val: n, Quoted: true}
		} else {
			g.Name = Lex{Src: n, Val: n}
		}
		body := extBody(r)
		sep := pick(r, []string{" ", "\n", "\t", " \n ", "\n\n"})
		if g.Name.Quoted || strings.HasPrefix(body, "{") || strings.HasPrefix(body, ";") || strings.HasPrefix(body, "}") {
			sep = pick(r, []string{"", " ", "\n"})
		}
		switch l.mode {
		case extNone:
			if g.Name.Val == "if" || g.Name.Val == "include" || isMapName(g.Name.Val) {
				return &GNode{Name: Lex{Src: "plain", Val: "plain"}}
			}
		default:
			g.Raw = sep + body + extMark
		}
		switch l.mode {
		case extWhole:
			g.RawEnd = true
			g.Want = []string{body}
		case extArg:
			g.RawArgs = []string{body}
		case extMany:
			g.RawEnd = true
			g.Want = []string{"p1", "p 2"}
			g.Extra = func(g *GNode) []*RDir {
				return []*RDir{{Name: "extra", Args: []string{"{"}, Line: g.RawLine}}
			}
		}
		if (n == "if" || n == "include" || isMapName(n)) && l.mode != extWhole && l.mode != extMany {
			return &GNode{Name: Lex{Src: "plain", Val: "plain"}}
		}
		return g
	}
	// other names: prefixes, continuations and other cases of registered names
	plain := cfg.name
	cfg.name = func(r *Rand) Lex {
		for {
			var l Lex
			n := pick(r, names)
			switch r.N(6) {
			case 0:
				l = Lex{Src: n[:1+r.N(len(n))], Val: n[:1+r.N(len(n))]}
				l.Src = l.Val
			case 1:
				l = lexOf(n + pick(r, []string{"x", "1", "_", n}))
			case 2:
				l = lexOf(strings.ToUpper(n))
			case 3:
				l = lexOf("${" + n + "}")
			case 4:
				l = lexOf(n + `\ ` + n)
			default:
				l = plain(r)
			}
			if isReg(l.Val) || strings.ContainsAny(l.Src, " {") && !l.Quoted && !strings.HasPrefix(l.Src, "${") && !strings.Contains(l.Src, `\ `) {
				continue
			}
			if !l.Quoted {
				if ts := refLex(l.Src); len(ts) != 1 || ts[0].Val != l.Val || ts[0].Comment {
					continue
				}
			}
			return l
		}
	}
	// arguments and comments with registered names come with the words of genLex, and from here
	_ = made
	return cfg, &made
}

// sprinkle puts registered names among arguments and comments.
func sprinkle(r *Rand, ns []*GNode, names []string) {
	for _, g := range ns {
		n := pick(r, names)
		if g.Comment != nil {
			if r.Bool() {
				s := pick(r, []string{"", " ", ";", "{"}) + n + pick(r, []string{"", " x;", "{", " %%"})
				g.Comment = &s
			}
			continue
		}
		if !g.Map && !g.RawEnd && g.Name.Val != "if" && r.P(1, 3) && !isMapName(g.Name.Val) {
			l := quoteMaybe(r, n, lexCfg{quoted: true})
			if strings.ContainsAny(n, " {") {
				l = Lex{Src: `"` + n + `"`, Val: n, Quoted: true}
			}
			g.Args = append(g.Args, l)
			g.Want = append(g.Want, n)
		}
		sprinkle(r, g.Block, names)
	}
}

func wantCalls(ns []*GNode, reg map[string]*recLexer, out *[]*GNode) {
	for _, g := range ns {
		if g.Comment != nil {
			continue
		}
		if reg[g.Name.Val] != nil {
			*out = append(*out, g)
		}
		wantCalls(g.Block, reg, out)
	}
}

func extLexCase(c *C) {
	r := c.R
	log := &extLog{}
	names := pick(r, extNameSets)
	if w := dictName(r); r.P(1, 4) && w != "if" && w != "include" && !isMapName(w) {
		names = append([]string{w}, names...)
	}
	reg := map[string]*recLexer{}
	var regs []cp.RegisterLexer
	id := 0
	for n := r.Range(1, 3); n > 0; n-- {
		id++
		l := &recLexer{id: fmt.Sprint("L", id), mode: r.N(extErr), log: log, cap: r.N(3)}
		k := r.Range(1, len(names))
		var ns []string
		for i := 0; i < k; i++ {
			ns = append(ns, pick(r, names))
		}
		regs = append(regs, cp.LexWithLexer(l, ns...))
		for _, x := range ns {
			reg[x] = l
		}
	}
	if r.P(1, 6) {
		regs = append(regs, cp.LexWithLexer(&recLexer{id: "unused", log: log, mode: extErr}), cp.LexWithLexer(&recLexer{id: "unused", log: log, mode: extErr}, "never named so"))
	}
	cfg, _ := extTree(r, reg, names, false)
	ns := genTree(r, 0, cfg)
	sprinkle(r, ns, names)
	// registered names that would be parsed in their own way (if, include, map) only come with a whole body
	if oddNames := hasOdd(ns, reg); oddNames {
		c.Note("left out")
		return
	}
	st := genStyle(r)
	text, _ := render(r, ns, &st)
	c.Desc("text", text)
	for n, l := range reg {
		c.Desc("lexer "+n, fmt.Sprintf("%s mode %d", l.id, l.mode))
	}
	o := anyOpts()
	o.LexOptions = cp.LexOptions{Lexers: regs}
	p, err := parse1(text, o)
	var exp []*GNode
	wantCalls(ns, reg, &exp)
	for i := 0; i < len(exp) || i < len(log.calls); i++ {
		if i >= len(exp) {
			c.Failf("an extra call: %+v", log.calls[i])
		}
		g := exp[i]
		if i >= len(log.calls) {
			c.Failf("no call for %q on line %d", g.Name.Val, g.Line)
		}
		k := log.calls[i]
		l := reg[g.Name.Val]
		if k.name != g.Name.Val || k.lexer != l.id {
			c.Failf("call %d: %s with %q, want %s with %q (line %d)", i, k.lexer, k.name, l.id, g.Name.Val, g.Line)
		}
		if l.mode != extNone {
			body := strings.TrimLeft(strings.TrimSuffix(g.Raw, extMark), " \n\t\r")
			if k.text != body {
				c.Failf("call %d for %q: sees %q, want %q", i, k.name, k.text, body)
			}
			if k.endLine != g.RawLine {
				c.Failf("call %d for %q ends on line %d, want %d", i, k.name, k.endLine, g.RawLine)
			}
		}
		c.Note("calls")
		c.NoteIf(g.Name.Quoted, "calls for quoted names")
		c.NoteIf(g.Map, "calls for map parameters")
	}
	if err != nil || p.Status != "ok" {
		c.Failf("parse: %v %v", err, p)
	}
	want := expect(ns, "", true)
	if d := diffDirs(p.Config[0].Parsed, want, ""); d != "" {
		c.Failf("%s", d)
	}
	noteTree(c, want)
	if len(exp) > 0 {
		var sb strings.Builder
		shape(want, &sb)
		c.Sig(sb.String(), fmt.Sprint(len(exp)))
	}
	c.Sample(func() string { return fmt.Sprintf("%d calls: %q", len(exp), text) })
}

func hasOdd(ns []*GNode, reg map[string]*recLexer) bool {
	for _, g := range ns {
		if g.Comment == nil && !g.RawEnd && reg[g.Name.Val] != nil && (g.Name.Val == "if" || g.Name.Val == "include" || isMapName(g.Name.Val)) {
			return true
		}
		if g.Map && reg[g.Name.Val] != nil && !g.RawEnd {
			return true
		}
		// a registered name that was generated as an ordinary one
		if g.Comment == nil && reg[g.Name.Val] != nil && g.Raw == "" && reg[g.Name.Val].mode != extNone {
			return true
		}
		if hasOdd(g.Block, reg) {
			return true
		}
	}
	return false
}

// extErrCase has an extension that reports an error.
func extErrCase(c *C) {
	r := c.R
	log := &extLog{}
	bad := &recLexer{id: "bad", mode: extErr, log: log, cap: r.N(3)}
	good := &recLexer{id: "good", mode: extWhole, log: log, cap: r.N(3)}
	reg := map[string]*recLexer{"ext": good}
	cfg, _ := extTree(r, reg, []string{"ext"}, true)
	ns := genTree(r, 0, cfg)
	if hasOdd(ns, reg) {
		c.Note("left out")
		return
	}
	st := genStyle(r)
	text, w := render(r, ns, &st)
	depth := r.N(3)
	line := w.line
	for i := 0; i < depth; i++ {
		text += "\nblk {"
		line++
	}
	text += "\nbad\n\n x %%"
	line += 3
	text += pick(r, []string{"", " y;", ";\n z;", "}"}) + strings.Repeat("}", depth)
	c.Desc("text", text)
	o := anyOpts()
	o.StopParsingOnError = r.Bool()
	o.LexOptions = cp.LexOptions{Lexers: []cp.RegisterLexer{cp.LexWithLexer(good, "ext"), cp.LexWithLexer(bad, "bad")}}
	p, err := parse1(text, o)
	if o.StopParsingOnError {
		if err == nil || p != nil {
			c.Failf("the error of the extension is lost")
		}
	} else {
		if err != nil || len(p.Errors) != 1 || p.Status != "failed" || p.Errors[0].Line == nil {
			c.Failf("the error of the extension: %v %v", err, p)
		}
		if *p.Errors[0].Line != line {
			c.Failf("error on line %d, want %d", *p.Errors[0].Line, line)
		}
		err = p.Errors[0].Error
	}
	if !strings.Contains(err.Error(), "the extension says no 551") {
		c.Failf("error %v", err)
	}
	c.Note("errors of extensions")
	// the tokens before it, from the tokenizer
	toks := lexAll(cp.LexWithOptions(strings.NewReader(text), o.LexOptions))
	at := -1
	for i, t := range toks {
		if t.Error != nil && strings.Contains(t.Error.Error(), "551") {
			at = i
		}
	}
	if at < 2 || toks[at-1].Value != "p" || toks[at-2].Value != "bad" {
		c.Failf("the tokens before the error are not in order: %v", toks)
	}
}

// ---- builders ----

type recBuilder struct {
	id    string
	calls *[]string
	text  func(d *cp.Directive) string
}

func (b *recBuilder) Build(d *cp.Directive) string {
	*b.calls = append(*b.calls, fmt.Sprintf("%s %p", b.id, d))
	return b.text(d)
}

func extBuildCase(c *C) {
	r := c.R
	names := pick(r, extNameSets)
	var calls []string
	reg := map[string]*recBuilder{}
	var regs []cp.RegisterBuilder
	for n := r.Range(1, 3); n > 0; n-- {
		id := fmt.Sprint("B", n)
		b := &recBuilder{id: id, calls: &calls, text: func(d *cp.Directive) string {
			return "<" + id + fmt.Sprint(d.Line, len(d.Args)) + ">"
		}}
		var ns []string
		for k := r.Range(1, len(names)); k > 0; k-- {
			ns = append(ns, pick(r, append(names, "a b", `q"q`, "#")))
		}
		regs = append(regs, cp.BuildWithBuilder(b, ns...))
		for _, x := range ns {
			reg[x] = b
		}
	}
	line := 0
	var gen func(depth int) cp.Directives
	gen = func(depth int) cp.Directives {
		ds := cp.Directives{}
		for n := r.Geo(6); n > 0; n-- {
			if line == 0 || r.P(3, 4) {
				line++
			}
			d := &cp.Directive{Line: line, Args: []string{}}
			switch r.N(6) {
			case 0:
				s := " comment " + pick(r, names)
				d.Directive, d.Comment = "#", &s
			case 1:
				d.Directive = pick(r, []string{"x", "a b", `q"q`, "#", "ex", "exte"})
			default:
				d.Directive = pick(r, names)
			}
			if d.Comment == nil {
				for k := r.N(3); k > 0; k-- {
					d.Args = append(d.Args, pick(r, append(names, "v", "a b")))
				}
				if d.Directive == "if" && len(d.Args) == 0 {
					d.Args = []string{"$c"}
				}
				d.IsMapBlockParameter = r.P(1, 8)
				if depth < 4 && r.P(1, 3) {
					d.Block = gen(depth + 1)
				}
			}
			ds = append(ds, d)
		}
		return ds
	}
	ds := gen(0)
	c.Desc("directives", jsonOf(ds))
	for n, b := range reg {
		c.Desc("builder "+n, b.id)
	}
	bo := genBuildOpts(r)
	bo.Builders = regs
	before := copyDirs(ds)
	// once without, for the layout of the rest
	text := buildText(c, ds, bo)
	c.Desc("built", text)
	if d := diffGoDirs(ds, before, ""); d != "" {
		c.Failf("building changes the directives: %s", d)
	}
	var want []string
	var walk func(ds cp.Directives)
	walk = func(ds cp.Directives) {
		for _, d := range ds {
			if b := reg[d.Directive]; b != nil && d.Comment == nil {
				want = append(want, fmt.Sprintf("%s %p", b.id, d))
				continue // its block is the business of the builder
			}
			walk(d.Block)
		}
	}
	walk(ds)
	got := calls
	if reg["#"] != nil {
		// whether comments go to a builder for "#" depends on whether they share a line; only the others count
		got = nil
		com := map[string]bool{}
		var mark func(ds cp.Directives)
		mark = func(ds cp.Directives) {
			for _, d := range ds {
				if d.Comment != nil {
					com[fmt.Sprintf("%s %p", reg["#"].id, d)] = true
				}
				mark(d.Block)
			}
		}
		mark(ds)
		for _, k := range calls {
			if !com[k] {
				got = append(got, k)
			}
		}
	}
	if !eqStrs(got, want) {
		c.Failf("%d calls of builders, want %d:\n%q\n%q", len(got), len(want), got, want)
	}
	if reg["#"] == nil {
		lay := &layout{c: c, o: bo, text: text, ext: func(d *cp.Directive) (string, bool) {
			if b := reg[d.Directive]; b != nil {
				return b.text(d), true
			}
			return "", false
		}}
		lay.check(ds)
	}
	c.NoteN("builder calls", len(want))
	if len(want) > 0 {
		c.Sig(classes(text))
	}
}

func init() {
	register(&Check{
		ID: "C21", Level: "exploration",
		Rule: "trees: generated trees with Lua blocks whose text is known (braces in strings, long strings, comments, nested tables); real: the same in their contexts with validation; trips: built and parsed again; cut: configs that end inside of a Lua block; many: braces in braces, brackets of high levels, blocks in hundreds. Distinct: shapes, texts.",
		Streams: []Stream{
			{Name: "trees", Quick: 8000, Run: func(c *C) { luaCase(c) }},
			{Name: "real", Quick: 2500, Run: func(c *C) { luaValidCase(c) }},
			{Name: "trips", Quick: 6000, Run: func(c *C) { luaTripCase(c) }},
			{Name: "cut", Quick: 3000, Run: func(c *C) { luaCutCase(c) }},
			{Name: "many", Quick: 150, Run: manyLua},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "lua blocks": 3000, "braces inside": 3000, "valid lua blocks": 500, "round trips": 3000, "cut blocks": 1000},
		Assume:  []string{"Lua text is valid UTF-8 and lexically complete (strings, long brackets and comments are closed)"},
	})
	register(&Check{
		ID: "C22", Level: "exploration",
		Rule: "lexers: trees with statements of registered names and everything that looks like them (arguments, comments, prefixes, cases), with lexers of several kinds that record what they see; errors: an extension that gives an error; builders: hand-made directives with builders that record their calls; many: hundreds of registered extensions and names, large texts. Distinct: shapes with calls.",
		Streams: []Stream{
			{Name: "lexers", Quick: 10000, Run: func(c *C) { extLexCase(c) }},
			{Name: "errors", Quick: 2500, Run: func(c *C) { extErrCase(c) }},
			{Name: "builders", Quick: 8000, Run: func(c *C) { extBuildCase(c) }},
			{Name: "many", Quick: 200, Run: func(c *C) {
				if c.R.Bool() {
					manyLexers(c)
				} else {
					manyBuilders(c)
				}
			}},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "calls": 5000, "calls for quoted names": 1000, "calls for map parameters": 50, "errors of extensions": 1000, "builder calls": 5000},
		Assume:  []string{"registered names are not empty; a lexer for if, include or a map-like name reads the whole statement; white space right after a name may or may not be seen by the lexer"},
	})
}
