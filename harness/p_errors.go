package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C07 (accounting), C08 (recovery), C28 (contents of errors).

// plant is a statement that must be rejected, with what is expected of its error.
type plant struct {
	node  *GNode
	block string
	kept  bool
}

func lexOf(s string) Lex { return Lex{Src: s, Val: s} }

// badMore gives more statements that must be rejected.
func badMore(r *Rand, ctx string) *GNode {
	g := &GNode{}
	switch r.N(6) {
	case 5:
		return badAny(r, ctx)
	case 0:
		g = &GNode{Name: lexOf(pick(r, []string{"unknown_thing", "lisTen", "x", "Server", "http2x"})), Bad: "unknown", HasBl: r.P(1, 3)}
		if w := dictName(r); r.P(1, 3) && !contains(allNames, w) {
			g.Name = writeAs(r, w)
		}
		for n := r.Geo(3); n > 0; n-- {
			g.Args = append(g.Args, genLex(r, anyLex))
		}
	case 1:
		g = &GNode{Name: lexOf("if"), Bad: "expr", HasBl: r.Bool()}
		g.Args = []Lex{lexOf("$a"), lexOf("=")}
		if ctx != "server" && ctx != "location" {
			g.Bad = "context"
		}
	case 2:
		// a map-like block with one bad parameter
		name := map[string]string{"http": "map", "server": "types", "location": "types"}[ctx]
		if name == "" {
			return badStmt(r, ctx)
		}
		g = &GNode{Name: lexOf(name), HasBl: true}
		if name == "map" {
			g.Args = []Lex{lexOf("$a"), lexOf("$b")}
		}
		c := &treeCfg{lex: anyLex, comments: true}
		for n := r.Geo(3); n > 0; n-- {
			g.Block = append(g.Block, genParam(r, refMapRules[name], c))
		}
		p := &GNode{Map: true, Name: lexOf("default")}
		switch k := r.N(3); {
		case k == 0:
			p.Bad, p.HasBl, p.Args = "mapblock", true, []Lex{lexOf("1")}
			if r.Bool() {
				p.Block = genTree(r, 2, &treeCfg{lex: anyLex, maxDepth: 3, maxWidth: 3, maps: true, name: anyName(anyLex)})
			}
		case k == 1:
			p.Bad, p.NoTerm, p.Args = "mapterm", true, []Lex{lexOf("1")}
		default:
			p.Bad = "mapcount"
			if name == "map" && r.Bool() {
				p.Args = []Lex{lexOf("1"), lexOf("2")}
			}
		}
		at := r.N(len(g.Block) + 1)
		if p.NoTerm {
			at = len(g.Block)
		}
		g.Block = append(g.Block[:at:at], append([]*GNode{p}, g.Block[at:]...)...)
	default:
		return badStmt(r, ctx)
	}
	g.Want = vals(g.Args)
	return g
}

var ctxLists = map[string][]string{"main": nil, "events": {"events"}, "http": {"http"}, "server": {"http", "server"}, "location": {"http", "location"}}

// badAny gives a statement with any name and any arguments that the definitions do not permit.
func badAny(r *Rand, ctx string) *GNode {
	def := dirSets[len(dirSets)-1]
	o := &cp.ParseOptions{DirectiveSources: []cp.MatchFunc{func(d string) ([]uint, bool) { ms, ok := def.defs[d]; return ms, ok }}}
	for {
		g := &GNode{Name: lexOf(pick(r, def.names)), Bad: "any", HasBl: r.P(1, 3)}
		if w := dictName(r); r.Bool() && def.has(w) {
			g.Name = lexOf(w)
		}
		for n := r.N(5); n > 0; n-- {
			g.Args = append(g.Args, pick(r, []Lex{lexOf("on"), lexOf("off"), lexOf("80"), lexOf("(a)"), genLex(r, anyLex)}))
		}
		g.Want = vals(g.Args)
		term := ";"
		if g.HasBl {
			g.RawBl, term = true, "{"
			g.Block = genTree(r, 3, defaultTreeCfg(r))
		}
		if refDecide(g.Name.Val, g.Want, term, ctxLists[ctx], o) != "" {
			return g
		}
	}
}

// plantMore puts n statements that are rejected into nodes.
func plantMore(r *Rand, ns []*GNode, ctx string, n int) []*GNode {
	for ; n > 0; n-- {
		var blocks []*GNode
		for _, g := range ns {
			if g.HasBl && g.Bad == "" && ctxOfBlock[ctx][g.Name.Val] != "" {
				blocks = append(blocks, g)
			}
		}
		if len(blocks) > 0 && r.P(2, 3) {
			g := pick(r, blocks)
			g.Block = plantMore(r, g.Block, ctxOfBlock[ctx][g.Name.Val], 1)
			continue
		}
		switch ctx {
		case "main", "events", "http", "server", "location":
		default:
			continue
		}
		g := badMore(r, ctx)
		at := r.N(len(ns) + 1)
		if len(ns) > 0 && ns[len(ns)-1].NoTerm && at == len(ns) {
			at--
		}
		ns = append(ns[:at:at], append([]*GNode{g}, ns[at:]...)...)
		if r.P(1, 8) && ctx != "main" && !ns[len(ns)-1].NoTerm {
			// an unterminated last statement
			t := &GNode{Name: lexOf("sendfile"), Args: []Lex{lexOf("on")}, NoTerm: true, Bad: "noterm"}
			if ctx == "events" {
				t.Name = lexOf("multi_accept")
			}
			t.Want = vals(t.Args)
			ns = append(ns, t)
		}
	}
	return ns
}

// plantIncludes adds includes of missing files, which are kept.
func plantIncludes(r *Rand, ns []*GNode, ctx string) []*GNode {
	for _, g := range ns {
		if g.HasBl && g.Bad == "" && ctxOfBlock[ctx][g.Name.Val] != "" && r.P(1, 2) {
			g.Block = plantIncludes(r, g.Block, ctxOfBlock[ctx][g.Name.Val])
		}
	}
	if r.P(1, 4) {
		g := &GNode{Name: lexOf("include"), Args: []Lex{lexOf(fmt.Sprintf("missing%d.conf", r.N(100)))}, Missing: true}
		g.Want = vals(g.Args)
		at := r.N(len(ns) + 1)
		if at == len(ns) && len(ns) > 0 && ns[len(ns)-1].NoTerm {
			at--
		}
		ns = append(ns[:at:at], append([]*GNode{g}, ns[at:]...)...)
	}
	return ns
}

func collectBad(ns []*GNode, block string) []plant {
	var out []plant
	for _, g := range ns {
		switch {
		case g.Bad != "":
			out = append(out, plant{g, block, false})
		case g.Missing:
			out = append(out, plant{g, block, true})
		default:
			out = append(out, collectBad(g.Block, g.Name.Val)...)
		}
	}
	return out
}

// whatOf gives the rule that an error about a planted statement must name.
func whatOf(g *GNode) *regexp.Regexp {
	n := regexp.QuoteMeta(g.Name.Val)
	kind := g.Bad
	if g.Missing {
		kind = "missing"
	}
	re := map[string]string{
		"arity":    `number of arguments.*"` + n + `"`,
		"context":  `"` + n + `".*not allowed`,
		"block":    `"` + n + `".*not terminated by ";"`,
		"noterm":   `"` + n + `".*not terminated by ";"`,
		"noblock":  `"` + n + `".*no opening "{"`,
		"flag":     `(?s)invalid value ".*" in "` + n + `".*"on" or "off"`,
		"unknown":  `unknown directive "` + n + `"`,
		"expr":     `"` + n + `".*parentheses`,
		"mapblock": `unexpected "{"`,
		"mapterm":  `unexpected "}"`,
		"mapcount": `number of parameters`,
		"missing":  `does not exist`,
		"any":      `(?s)"` + n + `".*(not allowed|number of arguments|terminated|no opening|parentheses)|(number of arguments|invalid value).*"` + n + `"`,
	}[kind]
	if re == "" {
		panic("no rule for " + kind)
	}
	return regexp.MustCompile(re)
}

func plantedText(c *C) (string, []*GNode, []plant) {
	r := c.R
	ns := plantIncludes(r, plantMore(r, append(genReal(r), forceBlocks(r)...), "main", r.Range(1, 5)), "main")
	st := genStyle(r)
	text, _ := render(r, ns, &st)
	return text, ns, collectBad(ns, "main")
}

var strictOpts = cp.ParseOptions{ErrorOnUnknownDirectives: true}

// copyPayload has what identity checks need.
type cbRecord struct {
	err error
	id  interface{}
}

// accounting checks the bookkeeping of a finished parse against itself.
func accounting(c *C, p *cp.Payload, calls []cbRecord, combined bool) {
	if (p.Status == "failed") != (len(p.Errors) > 0) || (p.Status != "failed" && p.Status != "ok") {
		c.Failf("payload status %q with %d errors", p.Status, len(p.Errors))
	}
	var all []cp.ConfigError
	for _, cf := range p.Config {
		if (cf.Status == "failed") != (len(cf.Errors) > 0) || (cf.Status != "failed" && cf.Status != "ok") {
			c.Failf("config %s has status %q with %d errors", cf.File, cf.Status, len(cf.Errors))
		}
		all = append(all, cf.Errors...)
	}
	if len(all) != len(p.Errors) {
		c.Failf("%d errors in the configs, %d in the payload", len(all), len(p.Errors))
	}
	i := 0
	for _, cf := range p.Config {
		for _, e := range cf.Errors {
			pe := p.Errors[i]
			i++
			if pe.Error != e.Error {
				c.Failf("error %d of the payload is %v, of the configs %v", i-1, pe.Error, e.Error)
			}
			if !combined && pe.File != cf.File {
				c.Failf("error %d of the payload has file %s, it is in %s", i-1, pe.File, cf.File)
			}
			if (pe.Line == nil) != (e.Line == nil) || (pe.Line != nil && *pe.Line != *e.Line) {
				c.Failf("error %d: lines differ", i-1)
			}
			var pr *cp.ParseError
			if errors.As(pe.Error, &pr) && pr.Line != nil && (pe.Line == nil || *pe.Line != *pr.Line) {
				c.Failf("error %d has line %v, its error line %d", i-1, pe.Line, *pr.Line)
			}
			if pr != nil && (pr.File == nil || *pr.File != pe.File) {
				c.Failf("error %d has file %s, its error %v", i-1, pe.File, pr)
			}
		}
	}
	if len(calls) != len(p.Errors) {
		c.Failf("callback called %d times for %d errors", len(calls), len(p.Errors))
	}
	for i, e := range p.Errors {
		if calls[i].err != e.Error {
			c.Failf("callback %d got %v, the error is %v", i, calls[i].err, e.Error)
		}
		if !reflect.DeepEqual(e.Callback, calls[i].id) {
			c.Failf("error %d has callback result %v, want %v", i, e.Callback, calls[i].id)
		}
	}
	seen := map[error]bool{}
	for _, e := range p.Errors {
		if seen[e.Error] {
			c.Failf("error twice: %v", e.Error)
		}
		seen[e.Error] = true
	}
	c.NoteN("errors", len(p.Errors))
	c.NoteIf(len(p.Errors) > 1, "several errors")
}

func errKey(e error) string {
	var pe *cp.ParseError
	if !errors.As(e, &pe) {
		return e.Error()
	}
	f, l := "", 0
	if pe.File != nil {
		f = *pe.File
	}
	if pe.Line != nil {
		l = *pe.Line
	}
	return fmt.Sprintf("%s:%d %q %q %q", f, l, pe.What, pe.Statement, pe.BlockCtx)
}

// callbackResult gives what the callback returns for error n: numbers that differ, or anything at all.
func callbackResult(salt, n int) interface{} {
	if salt == 0 {
		return n*7 + 3
	}
	var none *cp.ParseError
	all := []interface{}{nil, false, true, 0, "", "x", 1.5, []int{}, []int(nil), []string{"a"}, map[string]int{}, none, struct{}{}, &struct{ a int }{n}, errInjected, [2]bool{}, int8(0), n}
	return all[(salt+n*5)%len(all)]
}

// accountCase parses files with all the monitors of C07.
func accountCase(c *C, files map[string]string, o cp.ParseOptions, wantErrs int) {
	c.Desc("files", files)
	c.Desc("options", optString(&o))
	var calls []cbRecord
	salt := 0
	if c.R.Bool() {
		salt = c.R.Range(1, 100)
	}
	m := newMemFS(files)
	run := func(o cp.ParseOptions) (*cp.Payload, error) {
		calls = nil
		o.ErrorCallback = func(e error) interface{} {
			calls = append(calls, cbRecord{e, callbackResult(salt, len(calls))})
			return calls[len(calls)-1].id
		}
		return cp.Parse("/c/main", m.with(o))
	}
	p, err := run(o)
	if err != nil {
		if p != nil {
			c.Failf("payload and error %v", err)
		}
		c.Note("no payload")
	} else {
		accounting(c, p, calls, o.CombineConfigs)
		if wantErrs >= 0 && len(p.Errors) != wantErrs {
			c.Failf("%d errors, want %d: %v", len(p.Errors), wantErrs, p.Errors)
		}
		without := o
		without.ErrorCallback = nil
		q, err := cp.Parse("/c/main", m.with(without))
		if err != nil || len(q.Errors) != len(p.Errors) {
			c.Failf("without callback: %v", err)
		}
		for _, e := range q.Errors {
			if e.Callback != nil {
				c.Failf("callback result %v without callback", e.Callback)
			}
		}
	}
	first := len(calls)
	firstCalls := calls
	so := o
	so.StopParsingOnError = true
	sp, serr := run(so)
	if len(calls) != 0 {
		c.Failf("callback called when the parse stops on the first error")
	}
	switch {
	case first == 0 && err == nil:
		if serr != nil || sp == nil {
			c.Failf("stop on error: %v, without it there is no error", serr)
		}
		if sp.Status != "ok" || len(sp.Errors) != 0 {
			c.Failf("stop on error: status %q, %d errors", sp.Status, len(sp.Errors))
		}
	case first > 0:
		if sp != nil {
			c.Failf("stop on error: there is a payload")
		}
		if serr == nil || errKey(serr) != errKey(firstCalls[0].err) {
			c.Failf("stop on error: got %v, the first error is %v", serr, firstCalls[0].err)
		}
		c.Note("stopped at the first error")
	default:
		if sp != nil || serr == nil || serr.Error() != err.Error() {
			c.Failf("stop on error: got %v, want %v", serr, err)
		}
	}
	if err == nil && len(p.Errors) > 0 {
		var sb strings.Builder
		for _, e := range p.Errors {
			fmt.Fprintf(&sb, "%s|", digits.ReplaceAllString(e.Error.Error(), "0"))
		}
		c.Sig(sb.String())
		c.Sample(func() string { return fmt.Sprintf("%v", p.Errors) })
	}
}

var digits = regexp.MustCompile(`[0-9]+`)

func init() {
	register(&Check{
		ID: "C07", Level: "exploration",
		Rule: "planted: realistic configs with a known number of invalid statements; worlds: file sets with errors of all kinds (missing files, broken files, syntax errors), counted by the reference parser; hostile text. Each is parsed with a recording callback, without one, and with stop-on-error; many: thousands of errors. Distinct: lists of errors with numbers blanked.",
		Streams: []Stream{
			{Name: "planted", Quick: 4000, Run: func(c *C) {
				text, _, bad := plantedText(c)
				o := strictOpts
				o.ParseComments = c.R.Bool()
				o.CombineConfigs = c.R.P(1, 4)
				accountCase(c, map[string]string{"/c/main": text}, o, len(bad))
			}},
			{Name: "worlds", Quick: 3000, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: true, cycles: c.R.P(1, 6), soup: c.R.Bool()})
				o := cp.ParseOptions{ErrorOnUnknownDirectives: c.R.Bool(), CombineConfigs: c.R.P(1, 4), ParseComments: c.R.Bool()}
				want, werr := refParse(newMemFS(w.files), w.main, &o)
				n := -1
				if werr == nil {
					n = len(want.Errors)
				}
				accountCase(c, w.files, o, n)
			}},
			{Name: "hostile", Quick: 8000, Run: func(c *C) {
				o := genDiffOpts(c.R)
				o.StopParsingOnError = false
				files := map[string]string{"/c/main": soupCase(c.R)}
				want, werr := refParse(newMemFS(files), "/c/main", &o)
				n := -1
				if werr == nil {
					n = len(want.Errors)
				}
				accountCase(c, files, o, n)
			}},
			{Name: "many", Quick: 150, Run: func(c *C) {
				o := manyOpts(c.R)
				o.CombineConfigs = c.R.P(1, 4)
				files := map[string]string{"/c/main": manyText(c.R, o.ErrorOnUnknownDirectives)}
				noteMany(c, len(files["/c/main"])/8)
				want, werr := refParse(newMemFS(files), "/c/main", &o)
				n := -1
				if werr == nil {
					n = len(want.Errors)
				}
				accountCase(c, files, o, n)
			}},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "errors": 5000, "several errors": 500, "stopped at the first error": 1000},
	})

	register(&Check{
		ID: "C08", Level: "exploration",
		Rule: "planted: realistic configs with statements that are rejected for each reason (blocks with arbitrary contents, unterminated, map parameters, missing includes) at any depth: the result must be the tree without them, and the errors must be on their lines; worlds and hostile text against the reference parser; unknowns: trees of any values where the unknown statements are the rejected ones; many: thousands of errors, rejected blocks with thousands of blocks inside. Distinct: shapes.",
		Streams: []Stream{
			{Name: "planted", Quick: 5000, Run: func(c *C) { recoverCase(c) }},
			{Name: "worlds", Quick: 2500, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: true, soup: c.R.P(1, 3)})
				o := cp.ParseOptions{ErrorOnUnknownDirectives: c.R.Bool(), ParseComments: c.R.Bool()}
				diffFiles(c, w.files, w.main, o, false, "structure")
			}},
			{Name: "unknowns", Quick: 3000, Run: func(c *C) { unknownCase(c) }},
			{Name: "hostile", Quick: 8000, Run: func(c *C) {
				o := cp.ParseOptions{ErrorOnUnknownDirectives: c.R.Bool(), ParseComments: c.R.Bool()}
				diffCase(c, soupCase(c.R), o, false, "structure")
			}},
			{Name: "many", Quick: 150, Run: func(c *C) { manyDiff(c, false, "structure") }},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "rejected statements": 5000, "rejected blocks": 500},
	})

	register(&Check{
		ID: "C28", Level: "exploration",
		Rule: "planted: the errors of known invalid statements name their file, line, statement, enclosing block and rule, in every form; worlds and hostile text: all errors are compared in full with the reference parser; truncated: configs cut at any position; many: thousands of errors and blocks. Distinct: kinds of error by block.",
		Streams: []Stream{
			{Name: "planted", Quick: 4000, Run: func(c *C) { contentCase(c) }},
			{Name: "worlds", Quick: 2500, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: true, soup: c.R.Bool(), cycles: c.R.P(1, 8)})
				o := cp.ParseOptions{ErrorOnUnknownDirectives: c.R.Bool(), ParseComments: c.R.Bool(), StopParsingOnError: c.R.P(1, 4), CombineConfigs: c.R.P(1, 5)}
				diffFiles(c, w.files, w.main, o, true, "all")
				formsOf(c, w.files, w.main, o)
			}},
			{Name: "hostile", Quick: 8000, Run: func(c *C) {
				o := genDiffOpts(c.R)
				main := "/c/main"
				if c.R.P(1, 3) {
					main = "/c/" + pick(c.R, oddNames)
				}
				files := map[string]string{main: soupCase(c.R)}
				diffFiles(c, files, main, o, true, "all")
				formsOf(c, files, main, o)
			}},
			{Name: "truncated", Quick: 600, Run: func(c *C) { truncatedCase(c) }},
			{Name: "many", Quick: 80, Run: func(c *C) {
				o := manyOpts(c.R)
				o.StopParsingOnError = c.R.P(1, 8)
				files := map[string]string{"/c/main": manyText(c.R, o.ErrorOnUnknownDirectives)}
				if c.R.P(1, 4) { // a name that is in errors
					w := strings.Repeat(pick(c.R, []string{"w", "é", "%d"}), crowd(c.R, 100, 40000))
					files["/c/main"] += pick(c.R, []string{"daemon " + w + ";", w + " x;", "user a " + w + ";", "http { listen " + w + "; }", "'" + w + "' {}"})
					o.ErrorOnUnknownDirectives = true
				}
				noteMany(c, len(files["/c/main"])/8)
				diffFiles(c, files, "/c/main", o, true, "all")
				formsOf(c, files, "/c/main", o)
			}},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "errors": 5000, "early ends": 300, "statement errors": 3000},
	})
}

func recoverCase(c *C) {
	text, ns, bad := plantedText(c)
	c.Desc("text", text)
	o := strictOpts
	o.ParseComments = c.R.Bool()
	m := newMemFS(map[string]string{"/c/main": text})
	p, err := cp.Parse("/c/main", m.with(o))
	if err != nil {
		c.Failf("parse failed: %v", err)
	}
	if len(p.Errors) != len(bad) {
		c.Failf("%d errors, want %d: %v", len(p.Errors), len(bad), p.Errors)
	}
	for i, b := range bad {
		if e := p.Errors[i]; e.Line == nil || *e.Line != b.node.Line {
			c.Failf("error %d is %v, want one on line %d about %q", i, e.Error, b.node.Line, b.node.Name.Val)
		}
		c.Note("rejected statements")
		c.NoteIf(b.node.HasBl, "rejected blocks")
	}
	want := expect(ns, "", o.ParseComments)
	if d := diffDirs(p.Config[0].Parsed, want, ""); d != "" {
		c.Failf("%s", d)
	}
	var sb strings.Builder
	shape(want, &sb)
	for _, b := range bad {
		sb.WriteString(b.node.Bad)
	}
	c.Sig(sb.String())
	c.Sample(func() string { return fmt.Sprintf("%q: %d rejected", text, len(bad)) })
}

// unknownCase rejects statements of any shape, by name, in trees of any values, and compares with the tree where
// they are not.
func unknownCase(c *C) {
	r := c.R
	cfg := defaultTreeCfg(r)
	ns := genTree(r, 0, cfg)
	n := 0
	var markIn func(ns []*GNode)
	markIn = func(ns []*GNode) {
		for i, g := range ns {
			if g.Comment != nil || g.Map {
				continue
			}
			if r.P(1, 5) && !isMapName(g.Name.Val) && g.Name.Val != "if" {
				g.Name = quoteMaybe(r, "bad_one", anyLex)
				g.Bad = "unknown"
				if i == len(ns)-1 && g.HasBl && false {
					g.NoTerm = true
				}
				n++
				c.NoteIf(g.HasBl, "rejected blocks")
				c.Note("rejected statements")
				continue
			}
			if g.HasBl && !isMapName(g.Name.Val) {
				markIn(g.Block)
			}
		}
	}
	markIn(ns)
	st := genStyle(r)
	text, _ := render(r, ns, &st)
	c.Desc("text", text)
	o := cp.ParseOptions{SingleFile: true, ParseComments: r.Bool(), ErrorOnUnknownDirectives: true, DirectiveSources: []cp.MatchFunc{
		func(d string) ([]uint, bool) {
			if d == "bad_one" {
				return nil, false
			}
			return []uint{0xff | mAny | mBlock | ctxBits, mAny | ctxBits}, true
		},
	}}
	p, err := parse1(text, o)
	if err != nil {
		c.Failf("parse failed: %v", err)
	}
	if len(p.Errors) != n {
		c.Failf("%d errors, want %d: %v", len(p.Errors), n, p.Errors)
	}
	want := expect(ns, "", o.ParseComments)
	if d := diffDirs(p.Config[0].Parsed, want, ""); d != "" {
		c.Failf("%s", d)
	}
	var sb strings.Builder
	shape(want, &sb)
	c.Sig(sb.String())
}

const ctxBits = cMgmt | cMain | cEvents | cMailM | cMailS | cStrM | cStrS | cStrU | cHTTPM | cHTTPS | cHTTPL | cHTTPU | cHTTPSi | cHTTPLi | cHTTPLm | cOIDC

func contentCase(c *C) {
	text, _, bad := plantedText(c)
	c.Desc("text", text)
	o := strictOpts
	file := "/c/" + pick(c.R, []string{"main", "main", "other name.conf", pick(c.R, oddNames), pick(c.R, oddNames) + ".conf"})
	m := newMemFS(map[string]string{file: text})
	p, err := cp.Parse(file, m.with(o))
	if err != nil {
		c.Failf("parse failed: %v", err)
	}
	if len(p.Errors) != len(bad) {
		c.Note("other differences")
		return
	}
	for i, b := range bad {
		e := p.Errors[i]
		var pe *cp.ParseError
		if !errors.As(e.Error, &pe) {
			c.Failf("%v is not a parse error", e.Error)
		}
		if pe.File == nil || *pe.File != file || e.File != file {
			c.Failf("%v does not name the file", e)
		}
		if pe.Line == nil || *pe.Line != b.node.Line || e.Line == nil || *e.Line != b.node.Line {
			c.Failf("%v does not name line %d", pe, b.node.Line)
		}
		if want := strings.TrimSpace(b.node.Name.Val + " " + strings.Join(vals(b.node.Args), " ")); strings.TrimSpace(pe.Statement) != want {
			c.Failf("%v: statement %q, want %q", pe, pe.Statement, want)
		}
		if pe.BlockCtx != b.block {
			c.Failf("%v: block %q, want %q", pe, pe.BlockCtx, b.block)
		}
		if re := whatOf(b.node); !re.MatchString(pe.What) {
			c.Failf("%v does not say %s (%s)", pe, re, b.node.Bad)
		}
		if errors.Is(e.Error, cp.ErrPrematureLexEnd) {
			c.Failf("%v counts as the early end of the file", pe)
		}
		errForms(c, e.Error)
		c.Note("statement errors")
		c.Sig(b.node.Bad, b.block)
	}
	c.NoteN("errors", len(bad))
	c.Sample(func() string { return fmt.Sprint(p.Errors) })
}

// errForms checks the text and JSON of an error.
func errForms(c *C, e error) {
	var pe *cp.ParseError
	if !errors.As(e, &pe) {
		return
	}
	text := pe.What
	if pe.File != nil {
		text += " in " + *pe.File
	} else {
		c.Failf("no file in %v", e)
	}
	if pe.Line != nil {
		text += fmt.Sprintf(":%d", *pe.Line)
	}
	if e.Error() != text {
		c.Failf("the text of the error is %q, want %q", e.Error(), text)
	}
	b, err := json.Marshal(e)
	var s string
	if err != nil || json.Unmarshal(b, &s) != nil || s != strings.ToValidUTF8(text, "\uFFFD") {
		c.Failf("the JSON of the error is %s (%v), want %q", b, err, text)
	}
}

// formsOf checks the forms of all errors of a parse, also within the JSON of the payload.
func formsOf(c *C, files map[string]string, main string, o cp.ParseOptions) {
	m := newMemFS(files)
	p, err := cp.Parse(main, m.with(o))
	if err != nil {
		errForms(c, err)
		c.Note("errors")
		return
	}
	for _, e := range p.Errors {
		errForms(c, e.Error)
	}
	b, err := json.Marshal(p)
	if err != nil {
		c.Failf("marshal: %v", err)
	}
	var j struct {
		Errors []struct {
			File  string
			Line  *int
			Error interface{}
		}
		Config []struct {
			Errors []struct {
				Line  *int
				Error interface{}
			}
		}
	}
	if err := json.Unmarshal(b, &j); err != nil {
		c.Failf("unmarshal: %v", err)
	}
	if len(j.Errors) != len(p.Errors) {
		c.Failf("the JSON has %d errors, want %d", len(j.Errors), len(p.Errors))
	}
	same := func(l *int, v interface{}, wl *int, w error) {
		if _, ok := w.(*cp.ParseError); ok && v != strings.ToValidUTF8(w.Error(), "\uFFFD") {
			c.Failf("the JSON has the error %v, want %q", v, w.Error())
		}
		if (l == nil) != (wl == nil) || (l != nil && *l != *wl) {
			c.Failf("the JSON has another line for %v", w)
		}
	}
	for i, e := range p.Errors {
		same(j.Errors[i].Line, j.Errors[i].Error, e.Line, e.Error)
		if j.Errors[i].File != strings.ToValidUTF8(e.File, "\uFFFD") {
			c.Failf("the JSON has another file for %v", e)
		}
	}
	for k, cf := range p.Config {
		for i, e := range cf.Errors {
			same(j.Config[k].Errors[i].Line, j.Config[k].Errors[i].Error, e.Line, e.Error)
		}
	}
	c.NoteN("errors", len(p.Errors))
}

// truncatedCase cuts a valid config at every position (or many of them): unless the rest is complete, the error says
// that the file ends too early, and it says so for every reported form.
func truncatedCase(c *C) {
	r := c.R
	st := genStyle(r)
	text, w := render(r, genReal(r), &st)
	o := cp.ParseOptions{SingleFile: true}
	for n := 30; n > 0; n-- {
		cut := r.N(len(text) + 1)
		part := text[:cut]
		ts := refLex(part)
		depth, complete := 0, true
		for _, t := range ts {
			switch {
			case t.Err != "" || t.Comment:
			case t.is("{"):
				depth++
				complete = true
			case t.is("}"):
				depth--
				complete = true
			case t.is(";"):
				complete = true
			default:
				complete = false
			}
		}
		c.Evals(1)
		stop := r.Bool()
		so := o
		so.StopParsingOnError = stop
		p, err := parse1(part, so)
		fail := func(f string, a ...interface{}) {
			c.Desc("text", part)
			c.Failf(f, a...)
		}
		if depth == 0 && complete {
			if err != nil || p.Status != "ok" {
				fail("complete, but: %v", err)
			}
			continue
		}
		c.Note("early ends")
		c.Sig(fmt.Sprint(depth, complete, len(w.toks)%7))
		if stop {
			if !errors.Is(err, cp.ErrPrematureLexEnd) {
				fail("returned error %v is not the early end", err)
			}
			continue
		}
		if err != nil || len(p.Errors) != 1 || len(p.Config) != 1 || len(p.Config[0].Errors) != 1 {
			fail("want one error, got %v %v", err, p)
		}
		for _, e := range []error{p.Errors[0].Error, p.Config[0].Errors[0].Error} {
			if !errors.Is(e, cp.ErrPrematureLexEnd) {
				fail("%v is not the early end", e)
			}
			errForms(c, e)
		}
		c.Note("errors")
	}
}
