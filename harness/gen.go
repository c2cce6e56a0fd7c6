package main

import (
	"strings"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Lex is a lexeme: how a value is written, and the value that must be read.
type Lex struct {
	Src    string
	Val    string
	Quoted bool
}

const (
	plainFirst = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_./:=~^*@!+-%&<>,|()[]?"
	plainRest  = plainFirst + `#"'`
)

var uniRunes = []rune("éßñ中文字🙂Ωж\u0301\u200b\ufeff\ufffd\u0000\u0001\u007f")

func wordRune(r *Rand, first bool) string {
	if r.P(1, 24) {
		return string(pick(r, uniRunes))
	}
	if first {
		return string(plainFirst[r.N(len(plainFirst))])
	}
	return string(plainRest[r.N(len(plainRest))])
}

// escapedRunes are the characters that follow a backslash in generated values.
var escapedRunes = []string{`\`, `"`, "'", "{", "}", ";", " ", "\t", "\n", "#", "$", "n", "t", "r", "x", "0", "é", "("}

// genWord gives an unquoted value. esc allows escapes, vars variables.
func genWord(r *Rand, esc, vars bool) Lex {
	var sb strings.Builder
	n := 1 + r.Geo(10)
	if r.P(1, 1500) {
		n = hugeLen(r)
	}
	for i := 0; i < n; i++ {
		prevDollar := strings.HasSuffix(sb.String(), "$")
		switch k := r.N(20); {
		case k == 0 && esc:
			if e := pick(r, escapedRunes); i > 0 || e != "\n" || r.Bool() {
				sb.WriteString(`\` + e)
			} else {
				sb.WriteString("w")
			}
		case k == 1 && vars:
			sb.WriteString("${" + pick(r, []string{"var", "a", "http_x", "v[@]", "a;b", "a{b", `a"b`, "#", "x'y", "", "$", `a\n`}) + "}")
		case k == 2:
			if r.Bool() || i == n-1 {
				sb.WriteString("$" + pick(r, []string{"host", "uri", "1", "x"}))
			} else {
				sb.WriteString("$")
			}
		default:
			_ = prevDollar
			sb.WriteString(wordRune(r, i == 0))
		}
	}
	return Lex{Src: sb.String(), Val: sb.String()}
}

// genQuoted gives a quoted value.
func genQuoted(r *Rand) Lex {
	q := pick(r, []string{`"`, "'"})
	var src, val strings.Builder
	n := r.Geo(14)
	if r.P(1, 1500) {
		n = hugeLen(r)
	}
	for i := 0; i < n; i++ {
		s := ""
		switch k := r.N(10); {
		case k < 3:
			s = pick(r, []string{" ", "\t", "\n", ";", "{", "}", "#", "$", "${", "(", ")", `"`, "'", "  "})
		case k < 5:
			e := pick(r, escapedRunes)
			src.WriteString(`\` + e)
			if e == q {
				val.WriteString(q)
			} else {
				val.WriteString(`\` + e)
			}
			continue
		default:
			s = wordRune(r, false)
		}
		if s == q {
			src.WriteString(`\` + q)
		} else {
			src.WriteString(s)
		}
		val.WriteString(s)
	}
	return Lex{Src: q + src.String() + q, Val: val.String(), Quoted: true}
}

// lexCfg says which forms values may take.
type lexCfg struct {
	esc, vars, quoted bool
}

var anyLex = lexCfg{true, true, true}

func genLex(r *Rand, c lexCfg) Lex {
	if r.P(1, 12) {
		if l, ok := dictLex(r, c); ok {
			return l
		}
	}
	if c.quoted && r.P(1, 3) {
		return genQuoted(r)
	}
	if r.P(1, 3) {
		w := pick(r, []string{"a", "on", "off", "80", "listen", "server", "/x/y", "~*", "$host", "main.conf", "=404", "text/html"})
		return Lex{Src: w, Val: w}
	}
	return genWord(r, c.esc, c.vars)
}

// GNode is a generated statement or comment with what is expected of it.
type GNode struct {
	Name    Lex
	Args    []Lex // as written
	Want    []string
	HasBl   bool
	Block   []*GNode
	Comment *string
	Map     bool
	Bad     string // why the statement is rejected, or ""
	NoTerm  bool   // not terminated: the last statement of a block
	RawBl   bool   // its block has arbitrary (balanced) content that is skipped
	Ignored bool
	Missing bool   // an include of a file that does not exist
	Raw     string // text right after the name that an extension reads
	RawEnd  bool   // that text completes the statement
	RawArgs []string
	RawLine int
	Extra   func(g *GNode) []*RDir // statements that the extension adds

	Line    int
	ArgCom  []string // comments found among the arguments
	NoComms bool     // do not put comments among the arguments
	Exp     *RDir
}

type treeCfg struct {
	lex      lexCfg
	maxDepth int
	maxWidth int
	comments bool
	maps     bool
	mapBias  bool
	ifs      bool
	ext      func(r *Rand, inMap bool) *GNode // statements of extensions
	name     func(r *Rand) Lex                // names of directives
}

func noMatch(string) ([]uint, bool) { return nil, false }

// anyOpts are options under which every directive is accepted.
func anyOpts() cp.ParseOptions {
	return cp.ParseOptions{DirectiveSources: []cp.MatchFunc{noMatch}, SingleFile: true, ParseComments: true}
}

var mapNames = []string{"map", "geo", "types", "match", "charset_map", "split_clients", "geoip2", "otel_exporter"}

func genComment(r *Rand) string {
	if r.P(1, 30) {
		return strings.ReplaceAll(dictWord(r), "\n", " ")
	}
	var sb strings.Builder
	n := r.Geo(12)
	if r.P(1, 800) {
		n = hugeLen(r)
	}
	for ; n > 0; n-- {
		if r.P(1, 40) {
			sb.WriteString(strings.ReplaceAll(dictWord(r), "\n", " "))
		}
		switch r.N(8) {
		case 0:
			sb.WriteString(pick(r, []string{" ", ";", "{", "}", "#", `"`, "'", "$", "${", "\t", `\\`, `\x`, `\ `}))
		default:
			sb.WriteString(wordRune(r, false))
		}
	}
	return sb.String()
}

func genTree(r *Rand, depth int, c *treeCfg) []*GNode {
	n := r.Geo(c.maxWidth)
	if depth == 0 {
		n++
	}
	if r.P(1, 600) {
		n += 20 + r.N(pick(r, []int{30, 100, 300}))
	}
	if depth < 3 && r.P(1, 600) {
		if k, ok := dictInt(r, 2, 300); ok {
			n = k
		}
	}
	var out []*GNode
	for i := 0; i < n; i++ {
		out = append(out, genNode(r, depth, c))
	}
	return out
}

func genNode(r *Rand, depth int, c *treeCfg) *GNode {
	if c.comments && r.P(1, 6) {
		s := genComment(r)
		return &GNode{Comment: &s}
	}
	g := &GNode{}
	deeper := depth < c.maxDepth
	if c.ext != nil && r.P(1, 4) {
		g = c.ext(r, false)
		if !g.RawEnd {
			g.Args = genArgs(r, 3, c.lex)
			g.Want = append(append([]string{}, g.RawArgs...), vals(g.Args)...)
			if g.HasBl = deeper && r.P(1, 3); g.HasBl {
				g.Block = genTree(r, depth+1, c)
			}
		}
		return g
	}
	switch k := r.N(12); {
	case (k == 0 || (c.mapBias && k < 5)) && c.maps && deeper:
		g.Name = quoteMaybe(r, pick(r, mapNames), c.lex)
		g.Args = genArgs(r, 2, c.lex)
		g.Want = vals(g.Args)
		g.HasBl = true
		rule := refMapRules[g.Name.Val]
		for n := r.Geo(5); n > 0; n-- {
			g.Block = append(g.Block, genParam(r, rule, c))
		}
		return g
	case k == 1 && c.ifs:
		genIf(r, g, c)
		g.HasBl = r.P(2, 3)
	default:
		g.Name = c.name(r)
		for g.Name.Val == "if" || g.Name.Val == "include" || isMapName(g.Name.Val) {
			g.Name = c.name(r)
		}
		g.Args = genArgs(r, 6, c.lex)
		g.Want = vals(g.Args)
		g.HasBl = deeper && r.P(2, 5)
	}
	if g.HasBl && deeper {
		g.Block = genTree(r, depth+1, c)
	}
	return g
}

func genParam(r *Rand, rule mapRule, c *treeCfg) *GNode {
	if c.comments && r.P(1, 6) {
		s := genComment(r)
		return &GNode{Comment: &s}
	}
	if c.ext != nil && r.P(1, 4) {
		if p := c.ext(r, true); p != nil {
			p.Map = true
			return p
		}
	}
	p := &GNode{Map: true}
	p.Name = genLex(r, c.lex)
	if r.P(1, 5) {
		p.Name = quoteMaybe(r, pick(r, []string{"if", "include", "map", "server", "default", "volatile", "hostnames", "ranges", "auto_reload", "*.example.com", "~^x$"}), c.lex)
	}
	n := rule.min
	if rule.max < 0 {
		n += r.Geo(3)
	}
	if k, ok := rule.special[p.Name.Val]; ok {
		n = k
	}
	for i := 0; i < n; i++ {
		p.Args = append(p.Args, genLex(r, c.lex))
	}
	p.Want = vals(p.Args)
	return p
}

func isMapName(s string) bool { _, ok := refMapRules[s]; return ok }

func genArgs(r *Rand, max int, c lexCfg) []Lex {
	var out []Lex
	n := r.Geo(max)
	if max > 2 && r.P(1, 600) {
		n = 10 + r.N(pick(r, []int{10, 60, 300}))
	}
	if max > 2 && r.P(1, 300) {
		if k, ok := dictInt(r, 2, 300); ok {
			n = k
		}
	}
	for ; n > 0; n-- {
		out = append(out, genLex(r, c))
	}
	return out
}

func vals(ls []Lex) []string {
	out := []string{}
	for _, l := range ls {
		out = append(out, l.Val)
	}
	return out
}

// quoteMaybe writes a plain word in one of the forms that give it as value.
func quoteMaybe(r *Rand, w string, c lexCfg) Lex {
	if c.quoted && r.P(1, 4) {
		q := pick(r, []string{`"`, "'"})
		return Lex{Src: q + w + q, Val: w, Quoted: true}
	}
	return Lex{Src: w, Val: w}
}

// genIf makes an if with a condition in parentheses.
func genIf(r *Rand, g *GNode, c *treeCfg) {
	g.Name = quoteMaybe(r, "if", c.lex)
	n := 1 + r.Geo(4)
	lc := c.lex
	var cond []Lex
	for i := 0; i < n; i++ {
		cond = append(cond, genLex(r, lc))
	}
	g.Want = vals(cond)
	first, last := cond[0], cond[n-1]
	var args []Lex
	attach := !first.Quoted && r.Bool()
	if !attach {
		args = append(args, Lex{Src: "(", Val: "("})
	}
	args = append(args, cond...)
	if attach {
		args[0] = Lex{Src: "(" + first.Src, Val: "(" + first.Val}
	}
	// an unquoted last argument may have the parenthesis right behind it
	l := len(args) - 1
	if !last.Quoted && r.Bool() && !strings.HasSuffix(args[l].Src, `\`) {
		args[l] = Lex{Src: args[l].Src + ")", Val: args[l].Val + ")"}
	} else {
		args = append(args, Lex{Src: ")", Val: ")"})
	}
	g.Args = args
}

// ---- rendering ----

type styleCfg struct {
	spaces   []string // separators
	optional bool     // leave out separators that are not needed
	argComm  int      // one in n separators among arguments has a comment, 0: none
	crlf     bool
	parseCom bool // comments are parsed
}

var plainStyle = styleCfg{spaces: []string{" "}}

var wildSpaces = []string{" ", " ", "  ", "\t", "\n", "\n  ", "\r\n", "\v", "\f", "\u00a0", "\u2003", " \n\n\t", "\r", "\u0085", "\u2028", "\u3000", "\u1680"}

// hugeLen gives the length of a value that goes beyond the sizes that ordinary files have.
func hugeLen(r *Rand) int {
	if r.P(1, 40) {
		return 70000
	}
	if n, ok := dictInt(r, 2, 70000); ok && r.P(1, 3) {
		return n
	}
	return 64 + r.N(pick(r, []int{100, 400, 2000, 5000}))
}

func genStyle(r *Rand) styleCfg {
	switch r.N(4) {
	case 0:
		return styleCfg{spaces: []string{" ", " ", "\n"}, optional: r.Bool()}
	case 1:
		return styleCfg{spaces: []string{"\n", "\r\n", "  \n\t"}, optional: r.Bool(), argComm: 6, crlf: r.Bool()}
	default:
		return styleCfg{spaces: wildSpaces, optional: true, argComm: pick(r, []int{0, 5, 12}), crlf: r.P(1, 4)}
	}
}

type writer struct {
	r    *Rand
	st   *styleCfg
	sb   strings.Builder
	line int
	prev Lex // what was written last; Src == "" at the start
	gap  bool
	toks []RTok
}

func newWriter(r *Rand, st *styleCfg) *writer { return &writer{r: r, st: st, line: 1, gap: true} }

func (w *writer) raw(s string) {
	w.sb.WriteString(s)
	w.line += strings.Count(s, "\n")
}

// space gives a separator, now and then a very long one.
func (w *writer) space() string {
	s := pick(w.r, w.st.spaces)
	if w.r.P(1, 500) {
		s = strings.Repeat(s, 1+hugeLen(w.r)/len(s))
	}
	return s
}

func isSpecial(s string) bool { return s == "{" || s == "}" || s == ";" }

// sep writes what separates the next lexeme from the previous one. comm takes comments, if they may be here.
func (w *writer) sep(next string, comm func(text string, line int)) {
	prevWord := w.prev.Src != "" && !w.prev.Quoted && !isSpecial(w.prev.Src)
	must := prevWord && (!isSpecial(next) || (next == "{" && strings.HasSuffix(w.prev.Src, "$")))
	if !w.gap && (must || !w.st.optional || w.r.Bool()) {
		s := w.space()
		if must && strings.Trim(s, "\r") == "" {
			s += " "
		}
		w.raw(s)
		w.gap = strings.Trim(s, "\r") != ""
	}
	if comm != nil && w.st.argComm > 0 && w.r.N(w.st.argComm) == 0 {
		w.comment(genComment(w.r), comm)
		if w.r.Bool() {
			w.raw(w.space())
		}
	}
}

// comment writes a comment and the end of its line.
func (w *writer) comment(text string, comm func(text string, line int)) {
	if w.prev.Src != "" && !w.prev.Quoted && !isSpecial(w.prev.Src) && !w.gap {
		w.raw(" ")
	}
	w.toks = append(w.toks, RTok{Val: "#" + text, Line: w.line, Comment: true})
	if comm != nil {
		comm(text, w.line)
	}
	w.raw("#" + text)
	if w.st.crlf {
		w.raw("\r")
	}
	w.raw("\n")
	w.gap = true
}

// lex writes a lexeme and returns its line.
func (w *writer) lex(l Lex) int {
	line := w.line
	tl := line
	if isSpecial(l.Src) && !w.gap && w.prev.Src != "" && !w.prev.Quoted && !isSpecial(w.prev.Src) {
		tl = w.toks[len(w.toks)-1].Line // a special character right after a word
	}
	w.toks = append(w.toks, RTok{Val: l.Val, Line: tl, Quoted: l.Quoted})
	w.raw(l.Src)
	w.prev = l
	w.gap = false
	return line
}

func (w *writer) nodes(ns []*GNode) {
	for _, g := range ns {
		w.node(g)
	}
}

func (w *writer) node(g *GNode) {
	if g.Comment != nil {
		if !w.gap || w.r.Bool() {
			s := w.space()
			w.raw(s)
			w.gap = w.gap || strings.Trim(s, "\r") != ""
		}
		g.Line = w.line
		w.comment(*g.Comment, nil)
		return
	}
	comm := func(text string, line int) { g.ArgCom = append(g.ArgCom, text) }
	if g.NoComms {
		comm = nil
	}
	g.ArgCom = nil
	w.sep(g.Name.Src, nil)
	g.Line = w.lex(g.Name)
	if g.Raw != "" {
		w.raw(g.Raw)
		g.RawLine = w.line
		w.prev, w.gap = Lex{Src: "}"}, false
		if g.RawEnd {
			return
		}
	}
	for _, a := range g.Args {
		w.sep(a.Src, comm)
		w.lex(a)
	}
	switch {
	case g.NoTerm:
	case g.HasBl:
		w.sep("{", comm)
		w.lex(Lex{Src: "{", Val: "{"})
		w.nodes(g.Block)
		w.sep("}", nil)
		w.lex(Lex{Src: "}", Val: "}"})
	default:
		w.sep(";", comm)
		w.lex(Lex{Src: ";", Val: ";"})
	}
}

// render writes nodes as text; lines and comments among arguments are noted in the nodes.
func render(r *Rand, ns []*GNode, st *styleCfg) (string, *writer) {
	w := newWriter(r, st)
	if r.P(1, 8) {
		w.raw(pick(r, st.spaces))
	}
	w.nodes(ns)
	if r.Bool() {
		w.raw("\n")
	}
	return w.sb.String(), w
}

// expect gives the directives that are expected for nodes.
func expect(ns []*GNode, file string, comments bool) []*RDir {
	var out []*RDir
	for _, g := range ns {
		if g.Comment != nil {
			if comments {
				c := strings.ReplaceAll(*g.Comment, "\r", "")
				out = append(out, &RDir{Name: "#", Line: g.Line, File: file, Comment: &c})
			}
			continue
		}
		if g.Bad != "" || g.Ignored {
			continue
		}
		d := &RDir{Name: g.Name.Val, Args: g.Want, Line: g.Line, File: file, HasBlock: g.HasBl, Map: g.Map}
		if g.HasBl {
			d.Block = expect(g.Block, file, comments)
		}
		g.Exp = d
		out = append(out, d)
		if g.Extra != nil {
			out = append(out, g.Extra(g)...)
		}
		if comments {
			for _, c := range g.ArgCom {
				c := c
				out = append(out, &RDir{Name: "#", Line: g.Line, File: file, Comment: &c})
			}
		}
	}
	return out
}

func countNodes(ns []*GNode) (n, depth int) {
	for _, g := range ns {
		k, d := countNodes(g.Block)
		n += k + 1
		if d+1 > depth {
			depth = d + 1
		}
	}
	return n, depth
}

// ---- hostile text ----

var soupFrags = []string{
	"{", "}", ";", "{", "}", ";", `"`, "'", `\`, "#", "$", "${", " ", " ", "\n", "\n", "\r", "\t", "\r\n", "(", ")", "a", "b", "x1",
	"if", "map", "types", "include", "server", "http", "location", "events", "user", "listen 80;", "on", "off", "geo",
	"a;", "a b;", "a {", "}\n", "# c\n", "#", `"a b"`, `'c'`, `\"`, `\'`, `\\`, `\;`, `\{`, `\}`, `\ `, "\\\n", "\\\r", "${v}", "$h", "é", "\u00a0", "\xff", "\x00",
	"if (", "if ($a) {", ")", "http {", "events {}", "server {", "map $a $b {", "default 1;", "worker_processes 1;", "\u2028", "default", "x y z;", "\v", "%", "%s", "%d", "%!", "<", "&",
}

// genSoup gives a random sequence of fragments.
func genSoup(r *Rand, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if r.P(1, 14) {
			sb.WriteString(dictWord(r))
		} else {
			sb.WriteString(pick(r, soupFrags))
		}
		if r.P(1, 5) {
			sb.WriteString(" ")
		}
	}
	return sb.String()
}

// mutate changes text at a few places.
func mutate(r *Rand, s string) string {
	for n := 1 + r.Geo(4); n > 0; n-- {
		if len(s) == 0 {
			return pick(r, soupFrags)
		}
		i := r.N(len(s))
		switch r.N(5) {
		case 0: // delete
			j := i + 1 + r.Geo(3)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 1, 2:
			s = s[:i] + pick(r, soupFrags) + s[i:]
		case 3:
			s = s[:i] + pick(r, soupFrags) + s[i+1:]
		default: // duplicate or cut a piece
			j := i + r.N(len(s)-i+1)
			if r.Bool() {
				s = s[:j] + s[i:j] + s[j:]
			} else {
				s = s[:i] + s[j:]
			}
		}
		if len(s) > 4000 {
			s = s[:4000]
		}
	}
	return s
}

// anyName gives names for directives that are not validated.
func anyName(c lexCfg) func(r *Rand) Lex {
	return func(r *Rand) Lex { return genLex(r, c) }
}

func defaultTreeCfg(r *Rand) *treeCfg {
	c := &treeCfg{lex: anyLex, maxDepth: r.Range(1, 5), maxWidth: r.Range(2, 8), comments: r.P(2, 3), maps: true, ifs: true}
	if r.P(1, 4) {
		c.lex = lexCfg{quoted: true}
	}
	c.name = anyName(c.lex)
	return c
}

// near gives a value that is like s and is not s.
func near(r *Rand, s string) string {
	for {
		t := s
		switch r.N(12) {
		case 0:
			t = strings.ToUpper(s)
		case 1:
			t = strings.ToLower(s)
		case 2:
			t = strings.Title(s) //nolint:staticcheck
		case 3:
			t = s + pick(r, []string{"x", "_", " ", "\x00", "s", "\u0301", "/", ".", s, "\t"})
		case 4:
			t = pick(r, []string{" ", "x", "_", "\"", "-", "\ufeff"}) + s
		case 5:
			t = ""
		case 6:
			t = strings.TrimSpace(s)
		case 7:
			t = strings.ReplaceAll(s, "_", "-")
		case 8:
			t = "'" + s + "'"
		case 9:
			if s != "" {
				t = s[:len(s)-1]
			}
		case 10:
			if s != "" {
				t = s[1:]
			}
		case 11:
			if b := []byte(s); len(b) > 0 {
				if i := r.N(len(b)); b[i] < 0x80 {
					b[i] ^= 0x20
					t = string(b)
				}
			}
		}
		if t != s && utf8.ValidString(t) {
			return t
		}
	}
}
