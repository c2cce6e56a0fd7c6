package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Crowds: nothing that holds for three of a thing stops holding for three thousand. The other streams seldom have more
// than a dozen of anything; here one or two things are many (statements, arguments, parameters, errors, files,
// includes, blocks inside of blocks, lexers, masks, ...) in each case, and the oracles are the same.

// crowd gives a number between lo and hi, whose size is equally likely.
func crowd(r *Rand, lo, hi int) int {
	if r.P(1, 4) {
		if n, ok := dictInt(r, lo, hi); ok {
			return n
		}
	}
	f := float64(r.N(1<<20)) / (1 << 20)
	return int(math.Exp(math.Log(float64(lo)) + f*(math.Log(float64(hi)+1)-math.Log(float64(lo)))))
}

// manyText gives a text in which some things are many; what is ignored is called ign.
func manyText(r *Rand, strict bool) string {
	var sb strings.Builder
	for k := r.Range(1, 3); k > 0; k-- {
		sb.WriteString(manyPiece(r, strict, 0))
		sb.WriteString(pick(r, []string{"", "\n", "user a;\n", "# between\n", "user a; # after\n"}))
	}
	return sb.String()
}

func manyPiece(r *Rand, strict bool, depth int) string {
	inner := func() string {
		if depth < 2 && r.Bool() {
			return manyPiece(r, strict, depth+1)
		}
		return pick(r, []string{"", "x;", "listen 80;", "a b { c; }", "# c\n", "nope;", "include missing.conf;"})
	}
	nl := pick(r, []string{"\n", " ", "\n\n"})
	top := crowd(r, 20, 5000)
	if depth > 0 {
		top = crowd(r, 20, 400)
	}
	var sb strings.Builder
	switch r.N(14) {
	case 0: // statements
		for i := 0; i < top; i++ {
			fmt.Fprintf(&sb, pick(r, []string{"s%d;", "s%d a b;", "user n%d;", "# c%d\n", "env e%d;"}), i)
			sb.WriteString(nl)
		}
	case 1: // blocks in blocks
		open := pick(r, []string{"b {", "b x {" + nl, "b x y { s;" + nl, "ign {", "b { #c\n"})
		n := min2(top, crowd(r, 20, 3500)) // JSON ends at 10000 levels, two for each block
		sb.WriteString(strings.Repeat(open, n))
		sb.WriteString(inner())
		for i := 0; i < n; i++ {
			sb.WriteString("}" + pick(r, []string{"", nl, "t;", "nope x;", "# c\n"}))
		}
	case 2: // locations in locations
		n := crowd(r, 20, 3000)
		if depth > 0 {
			n = min2(n, 600)
		}
		sb.WriteString("http { server {")
		sb.WriteString(strings.Repeat("location /a {"+nl, n))
		sb.WriteString(inner())
		for i := 0; i < n; i++ {
			sb.WriteString(pick(r, []string{"}", "root a; }", "listen 80; }", "nope; }", "} # c\n"}))
		}
		sb.WriteString("} }")
	case 3: // arguments
		name := pick(r, []string{"x", "server_name", "user", "ign", "env", "if"})
		sb.WriteString("http { server { " + name)
		n := crowd(r, 20, 6000)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, pick(r, []string{" a%d", " 'q %d'", "\n${v %d}", " # c%d\n", " x\\ %d"}), i)
		}
		sb.WriteString(pick(r, []string{"; } }", " { } } }", " { y; } s; } }"}))
	case 4: // parameters
		name := pick(r, []string{"map $a $b", "types", "geo $g", "split_clients $a $b", "charset_map a b", "map $a"})
		sb.WriteString("http { " + name + " {" + nl)
		for i := 0; i < top; i++ {
			fmt.Fprintf(&sb, pick(r, []string{"p%d v;", "p%d v;", "p%d v;", "p%d v w;", "p%d;", "# c%d\n", "p%d v { w; }"}), i)
			sb.WriteString(nl)
		}
		sb.WriteString("} }")
	case 5: // parameters with many values
		sb.WriteString("http { types { p")
		for i := crowd(r, 20, 4000); i > 0; i-- {
			fmt.Fprintf(&sb, " v%d", i)
		}
		sb.WriteString("; q r; } map $a $b { p")
		for i := crowd(r, 1, 4000); i > 0; i-- {
			fmt.Fprintf(&sb, " v%d", i)
		}
		sb.WriteString("; q r; } }")
	case 6, 7: // statements that are rejected, with valid ones among them
		bad := []string{"user;", "listen 80;", "http x;", "events;", "nope a b;", "nope { a { b; } }", "if ($a) { x; }", "worker_connections 1;", "daemon maybe;", "server { listen 80; }"}
		n := crowd(r, 20, 3000)
		for i := 0; i < n; i++ {
			sb.WriteString(pick(r, bad) + nl)
			if r.P(1, 8) {
				fmt.Fprintf(&sb, "user u%d;%s", i, nl)
			}
		}
	case 8: // a rejected block with blocks in blocks, and what follows
		n := crowd(r, 20, 3500)
		if depth > 0 {
			n = min2(n, 600)
		}
		sb.WriteString(pick(r, []string{"nope x {", "listen {", "http { location / {", "user a b c d {", "server {"}))
		open := pick(r, []string{"b {", "b x {" + nl, "b '{' {", "b { c; "})
		sb.WriteString(strings.Repeat(open, n) + inner() + strings.Repeat("}", n) + pick(r, []string{"}", "c; }", "} user a;"}))
		sb.WriteString(" user b; nope c; user d;")
	case 9: // includes that find nothing
		n := crowd(r, 20, 2000)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, pick(r, []string{"include missing%d.conf;", "include none%d/*.conf;", "include '/c/m%d';"}), i)
			sb.WriteString(nl)
		}
	case 10: // long words
		n := crowd(r, 1000, 80000)
		w := strings.Repeat(pick(r, []string{"w", "é", "\\;", "a/b.c"}), n/2)
		switch r.N(5) {
		case 0:
			sb.WriteString("x " + w + ";")
		case 1:
			sb.WriteString(w + " x;")
		case 2:
			sb.WriteString("# " + w + "\n")
		case 3:
			sb.WriteString("x '" + w + "' { y; } z; # " + w + "\n")
		default:
			sb.WriteString("x " + w + "\n" + w + " { " + w + "; }")
		}
	case 11: // ignored statements
		for i := 0; i < top; i++ {
			sb.WriteString(pick(r, []string{"ign;", "ign a;", "ign { a; }", "s;", "ign # c\n;", "x;"}) + nl)
		}
	case 12: // comments in odd places
		sb.WriteString("x")
		for i := 0; i < top; i++ {
			fmt.Fprintf(&sb, " # c%d\n", i)
		}
		sb.WriteString(" y ; z { " + inner() + "}")
	default: // an if with many conditions
		sb.WriteString("http { server { if (")
		for i := 0; i < top; i++ {
			fmt.Fprintf(&sb, "$a%d ", i)
		}
		sb.WriteString(") { set $a b; } listen 80; } }")
	}
	return sb.String()
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// manyOpts are options for these texts, with many names to ignore now and then.
func manyOpts(r *Rand) cp.ParseOptions {
	o := cp.ParseOptions{ParseComments: r.Bool(), ErrorOnUnknownDirectives: r.Bool(), SkipDirectiveContextCheck: r.P(1, 5), SkipDirectiveArgsCheck: r.P(1, 5)}
	if !o.ErrorOnUnknownDirectives && r.Bool() {
		o.DirectiveSources = []cp.MatchFunc{noMatch}
	}
	if r.P(1, 2) {
		o.IgnoreDirectives = manyNames(r, "ign")
	}
	return o
}

// manyNames gives many names, with those at any place.
func manyNames(r *Rand, names ...string) []string {
	var out []string
	for i := crowd(r, 1, 2000); i > 0; i-- {
		out = append(out, fmt.Sprintf("never%d", i))
	}
	for _, n := range names {
		at := r.N(len(out) + 1)
		if r.P(1, 3) {
			at = len(out)
		}
		out = append(out[:at:at], append([]string{n}, out[at:]...)...)
	}
	return out
}

func noteMany(c *C, n int) {
	c.Note("crowds")
	c.NoteIf(n >= 100, "crowds of a hundred")
	c.NoteIf(n >= 1000, "crowds of a thousand")
}

// manyDiff compares such a text with the reference parser.
func manyDiff(c *C, full bool, what string) {
	o := manyOpts(c.R)
	text := manyText(c.R, o.ErrorOnUnknownDirectives)
	noteMany(c, len(text)/8)
	diffCase(c, text, o, full, what)
}

// manyFiles gives files that are many, or deep in each other, or included in many places.
func manyFiles(r *Rand, hi int) (map[string]string, int) {
	files := map[string]string{}
	var main strings.Builder
	total := 0
	for k := r.Range(1, 2); k > 0; k-- {
		n := crowd(r, 15, hi)
		d := fmt.Sprintf("/c/d%d", k)
		total += n
		switch r.N(8) {
		case 0, 1: // all with one pattern, in some order, some with a common file
			for i := 0; i < n; i++ {
				s := fmt.Sprintf("s%d;\n", i)
				if r.P(1, 20) {
					s += "include " + d + "/common;\n"
				}
				files[fmt.Sprintf("%s/f%d.conf", d, i)] = s
			}
			files[d+"/common"] = "common;\n"
			fmt.Fprintf(&main, "include d%d/*.conf;\n", k)
			if r.Bool() {
				fmt.Fprintf(&main, "again { include %s/f*.conf; }\n", d)
			}
			if r.P(1, 4) {
				fmt.Fprintf(&main, "some { include d%d/f*9.conf; }\n", k)
			}
		case 2: // each on its own
			for i := 0; i < n; i++ {
				files[fmt.Sprintf("%s/f%d.conf", d, i)] = fmt.Sprintf("s%d { t; }\n", i)
				fmt.Fprintf(&main, pick(r, []string{"include d%d/f%d.conf;\n", "b { include d%d/f%d.conf; }\n", "include 'd%d/./f%d.conf';"}), k, i)
			}
		case 3: // one after the other
			n = min2(n, crowd(r, 15, 400))
			for i := 0; i < n; i++ {
				s := fmt.Sprintf("before%d;\n", i)
				inc := ""
				if i+1 < n {
					inc = fmt.Sprintf("include %s/f%d.conf;\n", d, i+1)
				}
				if r.P(1, 4) {
					inc = "b { " + inc + "}\n"
				}
				files[fmt.Sprintf("%s/f%d.conf", d, i)] = s + inc + fmt.Sprintf("after%d;\n", i)
			}
			fmt.Fprintf(&main, "include d%d/f0.conf;\n", k)
		case 4: // in blocks in blocks
			files[d+"/a"], files[d+"/b"] = "in_a;\n", "in_b { include "+d+"/a; }\n"
			main.WriteString(strings.Repeat("b {\n", n))
			fmt.Fprintf(&main, "include d%d/b;\n", k)
			for i := 0; i < n; i++ {
				main.WriteString(pick(r, []string{"}", "} s;", fmt.Sprintf("include d%d/a; }\n", k), "}"}))
			}
		case 5: // one file in many places
			files[d+"/a"] = "in_a;\n"
			for i := 0; i < n; i++ {
				fmt.Fprintf(&main, pick(r, []string{"include d%d/a;\n", "b { include d%d/a; }\n", "include d%d/[a];\n", "include d%d/none; # missing\n"}), k)
			}
		case 6: // long names
			up := strings.Repeat("x/../", n/5) + strings.Repeat("./", n%50)
			files[d+"/a"] = "in_a;\n"
			long := strings.Repeat("long", n/4+1)
			files["/c/"+long], files[d+"/"+long+".conf"] = "in_long;\n", "in_long_too;\n"
			fmt.Fprintf(&main, "include %sd%d/a; include %s; include d%d/%s.con*; include %s.none;\n", up, k, long, k, long, long)
		default: // a large file between others
			var sb strings.Builder
			for i := 0; i < n*3; i++ {
				fmt.Fprintf(&sb, "s%d a;\n", i)
			}
			files[d+"/a"], files[d+"/b"] = sb.String()+"include b;\n", "in_b;\n"
			files["/c/b"] = "other_b;\n"
			fmt.Fprintf(&main, "first; include d%d/a; last;\n", k)
		}
	}
	files["/c/main"] = main.String()
	return files, total
}

func manyIncludes(c *C) {
	files, n := manyFiles(c.R, 2500)
	noteMany(c, n)
	o := cp.ParseOptions{DirectiveSources: []cp.MatchFunc{noMatch}, ParseComments: c.R.Bool()}
	includeCase(c, files, "/c/main", o)
}

func manyCombine(c *C) {
	if c.R.Bool() {
		files, n := manyFiles(c.R, 1500)
		noteMany(c, n)
		worldCombine(c, &world{files: files, main: "/c/main"})
		return
	}
	// by hand: wide, long and nested
	r := c.R
	p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}}
	n := crowd(r, 10, 2000)
	noteMany(c, n)
	leaf := func(i int) cp.Directives {
		ds := cp.Directives{}
		for k := r.Geo(3); k >= 0; k-- {
			ds = append(ds, &cp.Directive{Directive: fmt.Sprintf("d%d", i), Line: k + 1, Args: []string{}})
		}
		return ds
	}
	top := leaf(0)
	for k := r.Range(1, 3); k > 0; k-- {
		inc := &cp.Directive{Directive: "include", Line: 5, Args: []string{"x"}}
		for i := crowd(r, 1, n+1); i > 0; i-- {
			inc.Includes = append(inc.Includes, r.Range(1, n))
		}
		ds := cp.Directives{inc}
		for i := crowd(r, 1, 500) / 2; i > 0; i-- {
			ds = cp.Directives{{Directive: "b", Line: 5, Args: []string{}, Block: append(ds, leaf(0)...)}}
		}
		top = append(top, ds...)
	}
	if r.P(1, 8) { // an index that is not there, far behind
		inc := top[len(top)-1]
		inc.Directive, inc.Block = "include", nil
		inc.Includes = append(inc.Includes, pick(r, []int{n + 1, n + 2, -1}))
	}
	p.Config = append(p.Config, cp.Config{File: "f0", Status: "ok", Parsed: top})
	chain := r.Bool()
	for i := 1; i <= n; i++ {
		ds := leaf(i)
		if i < n && chain && (i < 150 || i > n-150) {
			ds = append(ds, &cp.Directive{Directive: "include", Line: 9, Args: []string{"y"}, Includes: []int{i + 1}})
		} else if i < n && r.P(1, 30) {
			ds = append(ds, &cp.Directive{Directive: "include", Line: 9, Args: []string{"y"}, Includes: []int{n, r.Range(n-n/8, n)}})
			if ds[len(ds)-1].Includes[1] <= i {
				ds[len(ds)-1].Includes = []int{n}
			}
		}
		p.Config = append(p.Config, cp.Config{File: fmt.Sprintf("f%d", i), Status: "ok", Parsed: ds, Errors: []cp.ConfigError{}})
	}
	// what a combination would have must be of a bearable size
	size := map[int]int{}
	var count func(ds cp.Directives) int
	of := func(i int) int {
		if i < 0 || i > n {
			return 0
		}
		if s, ok := size[i]; ok {
			return s
		}
		size[i] = count(p.Config[i].Parsed)
		return size[i]
	}
	count = func(ds cp.Directives) int {
		t := 0
		for _, d := range ds {
			t += 1 + count(d.Block)
			for _, i := range d.Includes {
				t += of(i)
			}
		}
		return t
	}
	if of(0) > 300000 {
		c.Note("left out")
		return
	}
	c.Desc("payload", jsonOf(p.Config))
	checkCombined(c, p, true)
}

func manyCycle(c *C) {
	n := crowd(c.R, 50, 3000)
	noteMany(c, n)
	g := &graph{n: n, edges: make([][]int, n)}
	kind := c.R.N(4)
	for i := 0; i+1 < n; i++ {
		switch kind {
		case 0: // a chain with steps of two
			g.edges[i] = append(g.edges[i], i+1)
			if i+2 < n {
				g.edges[i] = append(g.edges[i], i+2)
			}
		case 1: // the first includes all
			g.edges[0] = append(g.edges[0], i+1)
		case 2: // a tree
			g.edges[i/3] = append(g.edges[i/3], i+1)
		default: // all include the last
			if i > 0 {
				g.edges[0] = append(g.edges[0], i)
			}
			g.edges[i] = append(g.edges[i], n-1)
		}
	}
	if c.R.Bool() {
		from := pick(c.R, []int{n - 1, c.R.N(n), n / 2})
		g.edges[from] = append(g.edges[from], c.R.N(n))
	}
	cycleCase(c, g, true)
}

// manySingle: one file alone, with includes in blocks of any depth.
func manySingle(c *C) {
	r := c.R
	files, n := manyFiles(r, 1500)
	noteMany(c, n)
	o := cp.ParseOptions{SingleFile: true, ParseComments: r.Bool(), IgnoreDirectives: manyNames(r, "b")[r.N(2):]}
	if r.Bool() {
		o.IgnoreDirectives = nil
	}
	c.Desc("main", files["/c/main"])
	m := newMemFS(files)
	want, werr := refParse(newMemFS(files), "/c/main", &o)
	p, err := cp.Parse("/c/main", m.with(o))
	if err != nil || werr != nil {
		c.Failf("single file: %v, %v", err, werr)
	}
	if len(m.opens) != 1 || len(m.globs) != 0 || countIncludes(p.Config[0].Parsed) != 0 {
		c.Failf("single file: opened %d files, %d patterns", len(m.opens), len(m.globs))
	}
	if d := diffPayload(p, want, false); d != "" {
		c.Failf("%s", d)
	}
}

// manyLexers registers many extensions, or one for many names, or gives them much to read.
func manyLexers(c *C) {
	r := c.R
	log := &extLog{}
	n := crowd(r, 5, 300)
	noteMany(c, n)
	var regs []cp.RegisterLexer
	reg := map[string]*recLexer{}
	names := []string{}
	if r.Bool() {
		for i := 0; i < n; i++ {
			l := &recLexer{id: fmt.Sprint("L", i), mode: extWhole, log: log, cap: r.N(3)}
			nm := fmt.Sprintf("ext%d", i)
			reg[nm] = l
			names = append(names, nm)
			regs = append(regs, cp.LexWithLexer(l, nm))
		}
	} else {
		l := &recLexer{id: "L", mode: extWhole, log: log, cap: r.N(3)}
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("ext%d", i)
			reg[nm] = l
			names = append(names, nm)
		}
		regs = append(regs, cp.LexWithLexer(l, names...))
	}
	type call struct{ name, body string }
	var want []call
	var sb strings.Builder
	for k := r.Range(20, 60); k > 0; k-- {
		nm := pick(r, names)
		if r.P(1, 4) {
			nm = names[len(names)-1]
		}
		body := extBody(r)
		if r.P(1, 10) {
			body = strings.ReplaceAll(strings.Repeat(body+" x", crowd(r, 10, 4000)), extMark, "")
			body = strings.TrimSpace(strings.ReplaceAll(body, "%", ""))
		}
		fmt.Fprintf(&sb, "a%d; %s %s%s\n", k, nm, body, extMark)
		want = append(want, call{nm, body})
		if r.P(1, 3) {
			fmt.Fprintf(&sb, "ext%d_ a; ext%d b;\n", k, n+k)
		}
	}
	c.Desc("text", sb.String())
	o := anyOpts()
	o.LexOptions = cp.LexOptions{Lexers: regs}
	p, err := parse1(sb.String(), o)
	if err != nil || p.Status != "ok" {
		c.Failf("parse: %v %v", err, p)
	}
	if len(log.calls) != len(want) {
		c.Failf("%d calls, want %d", len(log.calls), len(want))
	}
	var got []call
	for _, d := range p.Config[0].Parsed {
		if reg[d.Directive] != nil {
			if len(d.Args) != 1 {
				c.Failf("%s", cpDirString(d))
			}
			got = append(got, call{d.Directive, d.Args[0]})
		}
	}
	for i, w := range want {
		k := log.calls[i]
		body := strings.TrimLeft(w.body, " \n\t\r")
		if k.name != w.name || k.lexer != reg[w.name].id || k.text != body {
			c.Failf("call %d: %s with %q sees %q, want %s with %q and %q", i, k.lexer, k.name, k.text, reg[w.name].id, w.name, body)
		}
		if i >= len(got) || got[i].name != w.name || got[i].body != body {
			c.Failf("statement %d for %q is missing or other than %q", i, w.name, body)
		}
		c.Note("calls")
	}
	c.Sig(fmt.Sprint(len(regs), len(names)))
}

func manyBuilders(c *C) {
	r := c.R
	n := crowd(r, 5, 300)
	noteMany(c, n)
	var calls, names, want []string
	reg := map[string]*recBuilder{}
	mk := func(id string) *recBuilder {
		return &recBuilder{id: id, calls: &calls, text: func(d *cp.Directive) string {
			return "<" + id + " " + fmt.Sprint(d.Line) + strings.Repeat("-", d.Line*d.Line%7000) + ">"
		}}
	}
	var regs []cp.RegisterBuilder
	one := r.Bool()
	b := mk("B")
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("ext%d", i)
		names = append(names, nm)
		if !one {
			b = mk(fmt.Sprint("B", i))
			regs = append(regs, cp.BuildWithBuilder(b, nm))
		}
		reg[nm] = b
	}
	if one {
		regs = append(regs, cp.BuildWithBuilder(b, names...))
	}
	ds := cp.Directives{}
	for k := 1; k <= 40; k++ {
		d := &cp.Directive{Directive: pick(r, append([]string{"x", "ext", fmt.Sprintf("ext%d", n), names[n-1]}, names...)), Line: k, Args: []string{"a"}}
		if r.P(1, 4) {
			d.Directive = names[n-1]
		}
		if b := reg[d.Directive]; b != nil {
			want = append(want, fmt.Sprintf("%s %p", b.id, d))
		}
		ds = append(ds, d)
	}
	c.Desc("directives", jsonOf(ds))
	bo := genBuildOpts(r)
	bo.Builders = regs
	text := buildText(c, ds, bo)
	if !eqStrs(calls, want) {
		c.Failf("%d calls of builders, want %d:\n%q\n%q", len(calls), len(want), calls, want)
	}
	lay := &layout{c: c, o: bo, text: text, ext: func(d *cp.Directive) (string, bool) {
		if b := reg[d.Directive]; b != nil {
			return b.text(d), true
		}
		return "", false
	}}
	lay.check(ds)
	c.NoteN("builder calls", len(want))
	c.Sig("builders", fmt.Sprint(n, one))
}

// manyMasks: a name is defined in one of many sources, or with one of many masks, and its statements have many arguments.
func manyMasks(c *C) {
	r := c.R
	n := crowd(r, 5, 300)
	noteMany(c, n)
	o := cp.ParseOptions{ErrorOnUnknownDirectives: true}
	good := pick(r, []uint{mAny, m1More, m2More, 0x2, 0x4, 0x1, 0x80}) | cHTTPM | cHTTPS | cMain
	if r.P(1, 3) {
		good |= mBlock
	}
	at := r.N(n)
	if r.P(1, 3) {
		at = n - 1
	}
	if r.Bool() {
		for i := 0; i < n; i++ {
			switch {
			case i == at:
				o.DirectiveSources = append(o.DirectiveSources, oneDef("aa", good))
			case i > at && r.Bool():
				o.DirectiveSources = append(o.DirectiveSources, oneDef("aa", 0x80|cEvents))
			default:
				o.DirectiveSources = append(o.DirectiveSources, oneDef(fmt.Sprintf("a%d", i), good))
			}
		}
	} else {
		var ms []uint
		for i := 0; i < n; i++ {
			m := uint(0x40) | pick(r, bitsOfCtx)
			if i == at {
				m = good
			}
			ms = append(ms, m)
		}
		o.DirectiveSources = []cp.MatchFunc{oneDef("aa", ms...)}
	}
	o.DirectiveSources = append(o.DirectiveSources, cp.MatchFunc(func(d string) ([]uint, bool) {
		if d == "http" || d == "server" || d == "events" {
			return []uint{0x1 | mBlock | ctxBits}, true
		}
		return nil, false
	}))
	var sb strings.Builder
	for _, ctx := range []string{"", "http {\n", "http { server {\n", "events {\n"} {
		sb.WriteString(ctx)
		for _, k := range []int{0, 1, 2, 6, 7, 8, crowd(r, 9, 3000), 3000} {
			sb.WriteString("aa" + strings.Repeat(" v", k) + pick(r, []string{";", ";", ";", " { }"}) + "\n")
		}
		sb.WriteString(strings.Repeat("}", strings.Count(ctx, "{")) + "\n")
	}
	diffCase(c, sb.String(), o, true, "all")
}

// manyEqual changes one thing far behind in a large directive.
func manyEqual(c *C) {
	r := c.R
	n := crowd(r, 10, 5000)
	noteMany(c, n)
	mk := func() *cp.Directive {
		d := &cp.Directive{Directive: "d", Line: 1, Args: []string{}}
		for i := 0; i < n; i++ {
			d.Args = append(d.Args, "a")
			d.Includes = append(d.Includes, i)
			d.Block = append(d.Block, &cp.Directive{Directive: "x", Line: i, Args: []string{}})
		}
		in := d
		for i := 0; i < n; i++ {
			e := &cp.Directive{Directive: "y", Line: i, Args: []string{}, Block: cp.Directives{}}
			in.Block = append(in.Block, e)
			in = e
		}
		s := strings.Repeat("c", n)
		in.Comment = &s
		in.File = s + "f"
		return d
	}
	a, b := mk(), mk()
	if !judgeEqual(c, a, b) {
		c.Failf("equal directives are not")
	}
	for i := 0; i < 8; i++ {
		at := crowd(r, 1, n) - 1
		if r.Bool() {
			at = n - 1 - at
		}
		var undo func()
		switch r.N(7) {
		case 0:
			b.Args[at] = "b"
			undo = func() { b.Args[at] = "a" }
		case 1:
			b.Includes[at]++
			undo = func() { b.Includes[at]-- }
		case 2:
			d := b.Block[at]
			d.Line++
			undo = func() { d.Line-- }
		case 3:
			d := b
			for k := 0; k <= at; k++ {
				d = d.Block[len(d.Block)-1]
			}
			d.IsMapBlockParameter = true
			undo = func() { d.IsMapBlockParameter = false }
		case 4:
			d := b
			for k := 0; k <= at; k++ {
				d = d.Block[len(d.Block)-1]
			}
			old := d.Block
			d.Block = append(d.Block[:len(d.Block):len(d.Block)], &cp.Directive{Directive: "z", Args: []string{}})
			undo = func() { d.Block = old }
		case 5:
			d := b
			for len(d.Block) > 0 {
				d = d.Block[len(d.Block)-1]
			}
			old := *d.Comment
			s := old[:at] + "d" + old[at+1:]
			d.Comment = &s
			undo = func() { d.Comment = &old }
		default:
			old := b.Args
			b.Args = append(b.Args[:n:n], "")
			undo = func() { b.Args = old }
		}
		if a.Equal(b) || b.Equal(a) || judgeEqual(c, a, b) {
			c.Failf("directives with a difference at %d of %d are equal", at, n)
		}
		undo()
		c.Note("differences")
	}
	c.Sig(fmt.Sprint("many", n))
}

func manyJSON(c *C) {
	r := c.R
	n := crowd(r, 20, 5000)
	noteMany(c, n)
	p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}}
	d := &cp.Directive{Directive: "d", Line: 1, Args: []string{}}
	switch r.N(5) {
	case 0:
		for i := 0; i < n; i++ {
			d.Block = append(d.Block, &cp.Directive{Directive: "x", Line: i, Args: []string{fmt.Sprint(i)}})
		}
	case 1:
		for i := 0; i < n; i++ {
			d.Args = append(d.Args, fmt.Sprintf("<%d>", i))
		}
	case 2:
		d.Directive = "include"
		for i := 0; i < n; i++ {
			d.Includes = append(d.Includes, i*i)
		}
	case 3:
		in := d
		for i := 0; i < min2(n, 400); i++ {
			e := &cp.Directive{Directive: "y", Line: i, Args: []string{}, Block: cp.Directives{}}
			in.Block = append(in.Block, e)
			in = e
		}
	default:
		s := strings.Repeat("é\"\\", n)
		d.Directive, d.Comment = "#", &s
		p.Config = append(p.Config, cp.Config{File: strings.Repeat("f", n), Status: "ok", Errors: []cp.ConfigError{}, Parsed: cp.Directives{{Directive: s, Line: n, Args: []string{s}}}})
	}
	ds := cp.Directives{d}
	if r.Bool() {
		for i := 0; i < crowd(r, 1, 3000); i++ {
			ds = append(ds, &cp.Directive{Directive: "z", Line: i, Args: []string{}})
		}
	}
	p.Config = append(p.Config, cp.Config{File: "f", Status: "ok", Errors: []cp.ConfigError{}, Parsed: ds})
	if r.P(1, 3) {
		for i := crowd(r, 1, 2000); i > 0; i-- {
			p.Config = append(p.Config, cp.Config{File: fmt.Sprint(i), Status: "ok", Errors: []cp.ConfigError{}, Parsed: cp.Directives{{Directive: "q", Line: i, Args: []string{}}}})
		}
	}
	if b, err := json.Marshal(p); err == nil {
		c.NoteN("large JSON bytes", len(b))
	}
	jsonTrip(c, p)
}

// manyBuilt writes many files, or large ones, to disk and to a creator.
func manyBuilt(c *C) {
	r := c.R
	p := cp.Payload{Status: "ok"}
	n := crowd(r, 20, 800)
	noteMany(c, n)
	dir, err := os.MkdirTemp("", "many")
	must(err)
	defer os.RemoveAll(dir)
	bo := genBuildOpts(r)
	if bo.Indent > 20 {
		bo.Indent = 4
	}
	large := r.P(1, 4)
	var names, texts []string
	want := map[string]string{}
	if large {
		n = r.Range(1, 2)
	}
	for i := 0; i < n; i++ {
		cf := cp.Config{File: fmt.Sprintf("d%d/f%d", i%7, i), Status: "ok", Parsed: cp.Directives{{Directive: "a", Line: 1, Args: []string{fmt.Sprint(i)}}}}
		if i == 0 && r.P(1, 3) {
			cf.File = strings.Repeat(strings.Repeat("n", 200)+"/", crowd(r, 1, 12)) + "f"
		}
		if large {
			s := strings.Repeat("0123456789", crowd(r, 500, 2000))
			for k := crowd(r, 1<<20, 10<<20) / (len(s) + 5); k >= 0; k-- {
				cf.Parsed = append(cf.Parsed, &cp.Directive{Directive: fmt.Sprint("a", k), Line: 1, Args: []string{s}})
			}
			c.Note("large outputs")
		}
		p.Config = append(p.Config, cf)
		names = append(names, cf.File)
		texts = append(texts, buildText(c, cf.Parsed, bo))
		want[filepath.Join(dir, cf.File)] = built(c, cf.Parsed, bo)
	}
	before := snapshot(dir)
	if err := cp.BuildFiles(p, dir, bo); err != nil {
		c.Failf("BuildFiles: %v", err)
	}
	watchTree(c, before, snapshot(dir), want)
	cr := &creator{failAt: -1}
	if err := cp.BuildInto(&p, cr, bo); err != nil {
		c.Failf("BuildInto: %v", err)
	}
	if len(cr.bad) > 0 || cr.open != 0 || !eqStrs(cr.names, names) {
		c.Failf("%d outputs, %d of them open, want %d: %q", len(cr.names), cr.open, len(names), cr.bad)
	}
	for i := range names {
		if cr.closes[i] != 1 || cr.texts[i] != texts[i] {
			c.Failf("output %d: closed %d times, %d bytes, want %d", i, cr.closes[i], len(cr.texts[i]), len(texts[i]))
		}
	}
	c.NoteN("outputs", len(names))
	c.Sig("many", fmt.Sprint(n, large))
}

// manyLua: braces in braces, brackets of high levels and many blocks.
func manyLua(c *C) {
	r := c.R
	n := crowd(r, 10, 400)
	noteMany(c, n)
	var sb strings.Builder
	var body string
	switch r.N(5) {
	case 0:
		body = strings.Repeat("{", n) + "x" + strings.Repeat(" }", n)
	case 1:
		eq := strings.Repeat("=", n)
		body = "x = [" + eq + "[ } ]] ]" + eq[1:] + "] " + "]" + eq + "] y()"
	case 2:
		eq := strings.Repeat("=", n)
		body = "--[" + eq + "[ } '\n ]] ]" + eq + "=] ]" + eq + "] y()"
	case 3:
		body = strings.Repeat("f('}'); ", n*10)
	default:
		body = strings.Repeat("-- it's }\n", n) + "x = '" + strings.Repeat(`\'`, n) + "'"
	}
	k := 1
	if r.Bool() {
		k = crowd(r, 2, 100)
	}
	for i := 0; i < k; i++ {
		fmt.Fprintf(&sb, "a%d;\n%s {%s}\n", i, pick(r, []string{"content_by_lua_block", "set_by_lua_block $v", "init_by_lua_block"}), body)
	}
	sb.WriteString("z;\n")
	text := sb.String()
	c.Desc("text", text)
	p, err := parse1(text, luaParse())
	if err != nil || p.Status != "ok" {
		c.Failf("parse: %v %v", err, p)
	}
	ds := p.Config[0].Parsed
	if len(ds) != 2*k+1 || ds[2*k].Directive != "z" {
		c.Failf("%d statements, want %d", len(ds), 2*k+1)
	}
	line := 1
	for i := 0; i < k; i++ {
		d := ds[2*i+1]
		if len(d.Args) == 0 || d.Args[len(d.Args)-1] != body || d.Line != line+1 || ds[2*i].Line != line {
			c.Failf("block %d: %s", i, cpDirString(d))
		}
		line += 2 + strings.Count(body, "\n")
		c.Note("lua blocks")
	}
	if ds[2*k].Line != line {
		c.Failf("after the blocks: line %d, want %d", ds[2*k].Line, line)
	}
	c.Sig(classes(body))
}

// manyTokens is a text of megabytes, with an error somewhere behind.
func manyTokens(c *C) {
	r := c.R
	n := r.Range(1200000, 2500000)
	unit := pick(r, []string{"a;", "a b;\n", "a{}", "'a';", "a #\n;", "\n;\n\n", "${a};"})
	if unit == "\n;\n\n" {
		unit = "a\n;\n\n"
	}
	text := strings.Repeat(unit, n/len(unit)) + pick(r, []string{"", "}", "'", "last;", ";", "last"})
	noteMany(c, n)
	got, want := lexText(text), refLex(text)
	if d := diffToks(got, want, true); d != "" {
		if len(d) > 1000 {
			d = d[:1000]
		}
		c.Desc("unit", unit)
		c.Desc("units", n/len(unit))
		c.Failf("%s", d)
	}
	c.NoteN("big bytes", n)
	c.Sig("tokens", unit)
}

// manySources has many tables, directives, definitions or files, or a large file.
func manySources(c *C) {
	r := c.R
	t := &cTree{files: map[string]string{}, tables: map[string][]cTable{}, notes: map[string]bool{}}
	add := func(p string, ts []cTable) {
		w := newCWriter(r)
		t.files[p], t.tables[p] = w.file(ts), ts
	}
	defs := func(n int, same bool) (ds []cDef) {
		for i := 0; i < n; i++ {
			d := genDef(r)
			d.name = fmt.Sprintf("m%d", i)
			if same {
				d.name = "same"
			}
			ds = append(ds, d)
		}
		return ds
	}
	n := crowd(r, 20, 1500)
	noteMany(c, n)
	switch r.N(5) {
	case 0:
		add("a.c", []cTable{{name: "t", defs: defs(n, false)}, {name: "u", defs: defs(3, false)}})
	case 1:
		var ts []cTable
		for i := 0; i < min2(n, 400); i++ {
			ts = append(ts, cTable{name: fmt.Sprintf("t%d", i), defs: []cDef{{name: fmt.Sprintf("m%d", i), flags: []string{pick(r, refFlagNames)}}}})
		}
		add("a.c", ts)
	case 2:
		add("a.c", []cTable{{name: "t", defs: defs(min2(n, 300), true)}, {name: "u", defs: defs(3, true)}})
	case 3:
		for i := 0; i < min2(n, 600); i++ {
			add(fmt.Sprintf("d%d/f%d.c", i%9, i), []cTable{{name: "t", defs: []cDef{{name: fmt.Sprintf("m%d", i), flags: []string{pick(r, refFlagNames)}}, genDef(r)}}})
		}
	default:
		deep := strings.Repeat("d/", min2(n, 200))
		add(deep+"f.c", []cTable{{name: "t", defs: defs(3, false)}})
		add("a.c", []cTable{{name: "t", defs: defs(min2(n, 200), false)}})
		t.files["a.c"] = strings.Repeat(pick(r, []string{"static int x;\n", "/* c */\n", "\n\n\n\n", "// c\n"}), r.Range(100000, 400000)) + t.files["a.c"]
		c.Note("large files")
	}
	dir, done := scratch()
	defer done()
	t.write(filepath.Join(dir, "src"))
	if len(t.files) < 5 && len(t.files["a.c"]) < 1<<18 {
		c.Desc("files", t.files)
	}
	out, errOut, code := generate(dir, "-src-path", "src", "-directive-map-name", "ds", "-match-func-name", "M")
	if code != 0 {
		c.Failf("status %d: %s", code, errOut)
	}
	g, err := readGenerated(out, "ds", "M")
	if err != nil {
		c.Failf("the output is not readable: %v", err)
	}
	want := t.want()
	if d := diffMasks(g.masks, want); d != "" {
		c.Failf("%s", d)
	}
	c.Note("tables compared")
	c.NoteN("directives compared", len(want))
	c.Sig("many", fmt.Sprint(len(want), len(t.files)))
}

// manySettings has many filters, overrides, or masks of one override.
func manySettings(c *C) {
	r := c.R
	dir, done := scratch()
	defer done()
	n := crowd(r, 20, 600)
	noteMany(c, n)
	g := &genSetup{tree: &cTree{files: map[string]string{}, tables: map[string][]cTable{}, notes: map[string]bool{}}, override: map[string][][]string{}, mapName: "ds", fnName: "M"}
	var ds []cDef
	for i := 0; i <= n; i++ {
		ds = append(ds, cDef{name: fmt.Sprintf("m%d", i), flags: []string{pick(r, refFlagNames)}})
	}
	ts := []cTable{{name: "t", defs: ds}}
	g.tree.tables["a.c"], g.tree.files["a.c"] = ts, newCWriter(r).file(ts)
	g.flags = []string{"-src-path", "src", "-directive-map-name", "ds", "-match-func-name", "M"}
	file := r.Bool()
	masks := func(k int) (ms [][]string) {
		for ; k > 0; k-- {
			ms = append(ms, []string{pick(r, refMaskNames), pick(r, refMaskNames)})
		}
		return ms
	}
	switch r.N(3) {
	case 0:
		for i := 1; i <= n; i++ {
			if r.P(4, 5) {
				g.filter = append(g.filter, fmt.Sprintf("m%d", i))
			}
		}
		r.Shuffle(len(g.filter), func(i, j int) { g.filter[i], g.filter[j] = g.filter[j], g.filter[i] })
	case 1:
		for i := 0; i < n; i++ {
			if r.P(4, 5) {
				g.override[fmt.Sprintf("m%d", i)] = masks(1)
			}
		}
	default:
		ms := masks(min2(n, 200))
		for k := r.Range(1, 20); k > 0; k-- {
			ms[r.N(len(ms))] = []string{"ngxAnyConf"}
		}
		ms[len(ms)-1] = append([]string{}, refMaskNames...)
		g.override["m0"] = ms
	}
	if file {
		g.conf = map[string]any{"filter": append([]string{}, g.filter...), "override": g.override}
		g.flags = append(g.flags, "-config-path", "conf.json")
	} else {
		for _, f := range g.filter {
			g.flags = append(g.flags, "-filter", f)
		}
		for _, k := range sortedKeys(g.override) {
			var ms []string
			for _, m := range g.override[k] {
				ms = append(ms, strings.Join(m, "|"))
			}
			g.flags = append(g.flags, "-override", k+":"+strings.Join(ms, ","))
		}
	}
	g.run(c, dir)
	c.Sig("many", fmt.Sprint(len(g.filter), len(g.override), file))
}

// manyLayout has long comments, lines of many comments, and many statements on a line.
func manyLayout(c *C) {
	r := c.R
	n := crowd(r, 10, 1500)
	noteMany(c, n)
	ds := cp.Directives{}
	line := 1
	for i := 0; i < 30; i++ {
		if r.Bool() {
			line++
		}
		s := strings.Repeat(pick(r, []string{"c", "é", " c", "#"}), crowd(r, 1, n*4))
		switch r.N(4) {
		case 0:
			ds = append(ds, &cp.Directive{Directive: "#", Line: line, Args: []string{}, Comment: &s})
		case 1:
			d := &cp.Directive{Directive: "b", Line: line, Args: []string{}, Block: cp.Directives{}}
			for k := crowd(r, 1, n); k > 0; k-- {
				if r.P(1, 4) {
					t := fmt.Sprint("in ", k)
					d.Block = append(d.Block, &cp.Directive{Directive: "#", Line: line, Args: []string{}, Comment: &t})
				} else {
					d.Block = append(d.Block, &cp.Directive{Directive: "x", Line: line, Args: []string{fmt.Sprint(k)}})
				}
				if r.Bool() {
					line++
				}
			}
			ds = append(ds, d)
		case 2:
			d := &cp.Directive{Directive: "a", Line: line, Args: []string{}}
			for k := crowd(r, 1, n); k > 0; k-- {
				d.Args = append(d.Args, pick(r, []string{"v", "a b", "", "é"}))
			}
			ds = append(ds, d)
		default:
			ds = append(ds, &cp.Directive{Directive: "x" + strings.Repeat("y", len(s)), Line: line, Args: []string{s}})
		}
	}
	c.Desc("directives", jsonOf(ds))
	layoutOf(c, ds, genBuildOpts(r))
}
