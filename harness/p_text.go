package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// C03, C04, C05, C06 and the round trips C01, C02.

func tokString(t cp.NgxToken) string {
	if t.Error != nil {
		return fmt.Sprintf("%q line=%d quoted=%v error=%q", t.Value, t.Line, t.IsQuoted, t.Error)
	}
	return fmt.Sprintf("%q line=%d quoted=%v", t.Value, t.Line, t.IsQuoted)
}

// diffToks compares tokens; lines says whether lines count.
func diffToks(got []cp.NgxToken, want []RTok, lines bool) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return fmt.Sprintf("token %d is missing: want %+v", i, want[i])
		}
		if i >= len(want) {
			return fmt.Sprintf("token %d is not expected: %s", i, tokString(got[i]))
		}
		g, w := got[i], want[i]
		if g.Value != w.Val || g.IsQuoted != w.Quoted || (g.Error != nil) != (w.Err != "") || (lines && g.Line != w.Line) {
			return fmt.Sprintf("token %d: got %s, want %+v", i, tokString(g), w)
		}
		if w.Err != "" {
			var pe *cp.ParseError
			if !errors.As(g.Error, &pe) || pe.What != w.Err || (lines && (pe.Line == nil || *pe.Line != w.ErrLine)) || errors.Is(g.Error, cp.ErrPrematureLexEnd) != w.Early {
				return fmt.Sprintf("token %d: error %v, want %+v", i, g.Error, w)
			}
		}
	}
	return ""
}

func zeroTokLines(ts []cp.NgxToken) {
	for i := range ts {
		ts[i].Line = 0
	}
}

func lexText(s string) []cp.NgxToken { return lexAll(cp.Lex(strings.NewReader(s))) }

func noteToks(c *C, toks []RTok) {
	sig := make([]byte, 0, len(toks))
	for _, t := range toks {
		k := byte('w')
		switch {
		case t.Err != "":
			k = '!'
			c.Note("error tokens")
		case t.Comment:
			k = '#'
			c.Note("comment tokens")
		case t.Quoted:
			k = 'q'
			c.Note("quoted tokens")
		case isSpecial(t.Val):
			k = t.Val[0]
			c.Note("special tokens")
		default:
			c.Note("word tokens")
			if strings.Contains(t.Val, "${") {
				k = 'v'
				c.Note("words with variables")
			}
			if strings.Contains(t.Val, `\`) {
				k = 'e'
				c.Note("words with escapes")
			}
		}
		sig = append(sig, k)
	}
	if len(toks) > 1 {
		c.Sig(string(sig))
	}
}

// lexAlphabet has one character of each lexical class.
var lexAlphabet = []string{"a", " ", "\n", `"`, "'", `\`, "#", "$", "{", "}", ";", "\r", "\u00a0"}

// nthString gives the n-th string over an alphabet, shorter ones first.
func nthString(n int, alpha []string) string {
	k := len(alpha)
	l, cnt := 0, 1
	for n >= cnt {
		n -= cnt
		cnt *= k
		l++
	}
	var sb strings.Builder
	for i := 0; i < l; i++ {
		sb.WriteString(alpha[n%k])
		n /= k
	}
	return sb.String()
}

func countStrings(maxLen, k int) int {
	n, c := 0, 1
	for i := 0; i <= maxLen; i++ {
		n += c
		c *= k
	}
	return n
}

// soupCase makes a hostile text.
func soupCase(r *Rand) string {
	switch r.N(4) {
	case 0:
		return genSoup(r, r.Range(1, 12))
	case 1:
		return genSoup(r, r.Range(10, 80))
	case 2:
		st := genStyle(r)
		s, _ := render(r, genTree(r, 0, defaultTreeCfg(r)), &st)
		return mutate(r, s)
	default:
		st := genStyle(r)
		s, _ := render(r, genReal(r), &st)
		return mutate(r, s)
	}
}

func batch(c *C, n, size, total int, f func(i int)) {
	for i := n * size; i < (n+1)*size && i < total; i++ {
		f(i)
	}
}

func checkLex(c *C, text string, want []RTok, lines bool) {
	c.Desc("text", text)
	got := lexText(text)
	if d := diffToks(got, want, lines); d != "" {
		c.Failf("%s", d)
	}
	noteToks(c, want)
	c.Sample(func() string { return fmt.Sprintf("%q -> %d tokens", text, len(got)) })
}

// bigText gives text whose tokens, lines, statements or blocks are many or large.
func bigText(r *Rand) string {
	s := pick(r, bigShapes).text(r.Range(66000, 90000))
	if r.P(1, 3) {
		s = strings.Repeat(pick(r, []string{"\n", "x;\n", "\r\n"}), r.Range(1000, 70000)) + s
	}
	if r.P(1, 4) {
		s = strings.ReplaceAll(s, " ", "\n")
	}
	if r.P(1, 3) {
		s += pick(r, []string{"", "\n"}) + pick(r, bigShapes).text(r.Range(10, 2000))
	}
	if r.P(1, 4) {
		i := r.N(len(s))
		s = s[:i] + pick(r, soupFrags) + s[i:]
	}
	return strings.ToValidUTF8(s, "?")
}

const lexShortBatch = 500

func init() {
	cp.SetTokenChanCap(64)

	quickShort, thoroughShort := countStrings(4, len(lexAlphabet)), countStrings(6, len(lexAlphabet))
	register(&Check{
		ID: "C04", Level: "exploration",
		Rule: "written: trees of values rendered with random quoting, escapes, variables, spacing and comments, whose tokens are known by construction; short: every string over 13 lexical classes up to length 4 (thorough: 6); hostile: random fragments and mutated configs against an independent reference tokenizer; big: texts of many kilobytes with tokens of any length and lines of any number; many: texts of megabytes. Distinct: sequences of token kinds with at least two tokens.",
		Streams: []Stream{
			{Name: "written", Quick: 6000, Run: func(c *C) {
				st := genStyle(c.R)
				text, w := render(c.R, genTree(c.R, 0, defaultTreeCfg(c.R)), &st)
				checkLex(c, text, w.toks, true)
			}},
			{Name: "short", Quick: (quickShort + lexShortBatch - 1) / lexShortBatch, Thorough: (thoroughShort + lexShortBatch - 1) / lexShortBatch, Run: func(c *C) {
				batch(c, c.Idx, lexShortBatch, thoroughShort, func(i int) {
					s := nthString(i, lexAlphabet)
					want := refLex(s)
					c.Evals(1)
					got := lexText(s)
					if d := diffToks(got, want, true); d != "" {
						c.Desc("text", s)
						c.Failf("%s", d)
					}
					noteToks(c, want)
				})
			}},
			{Name: "hostile", Quick: 12000, Run: func(c *C) {
				s := soupCase(c.R)
				checkLex(c, s, refLex(s), true)
			}},
			{Name: "big", Quick: 60, Run: func(c *C) {
				s := bigText(c.R)
				checkLex(c, s, refLex(s), true)
				c.NoteN("big bytes", len(s))
			}},
			{Name: "many", Quick: 16, Run: manyTokens},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "error tokens": 500, "comment tokens": 500, "quoted tokens": 500, "words with variables": 200, "words with escapes": 200},
		Assume:  []string{"valid UTF-8, other bytes count as U+FFFD", "white space is what Unicode calls white space, CR is ignored"},
	})

	register(&Check{
		ID: "C05", Level: "exploration",
		Rule: "trees: generated statement trees rendered with random lexical forms, the parse result must be that tree; hostile: random and mutated text against an independent reference parser (configs with errors included); deep and wide trees; big texts; many: hundreds or thousands of statements, arguments, parameters, blocks in blocks or errors. Distinct: shapes of the trees.",
		Streams: []Stream{
			{Name: "trees", Quick: 6000, Run: func(c *C) { treeCase(c, defaultTreeCfg(c.R), anyOpts()) }},
			{Name: "real", Quick: 2000, Run: func(c *C) { realCase(c) }},
			{Name: "deep", Quick: 40, Run: func(c *C) {
				cfg := defaultTreeCfg(c.R)
				inner := genTree(c.R, 3, &treeCfg{lex: anyLex, maxDepth: 4, maxWidth: 4, name: cfg.name})
				for d := c.R.Range(30, 400); d > 0; d-- {
					g := &GNode{Name: cfg.name(c.R), HasBl: true, Block: inner}
					for g.Name.Val == "if" || g.Name.Val == "include" || isMapName(g.Name.Val) {
						g.Name = cfg.name(c.R)
					}
					inner = []*GNode{g}
					if c.R.P(1, 4) {
						inner = append(inner, genNode(c.R, 9, &treeCfg{lex: anyLex, maxDepth: 4, name: cfg.name}))
					}
				}
				checkTree(c, inner, anyOpts())
			}},
			{Name: "wide", Quick: 25, Run: func(c *C) {
				cfg := &treeCfg{lex: anyLex, maxDepth: 2, maxWidth: 6, comments: true, maps: true, ifs: true}
				cfg.name = anyName(cfg.lex)
				var ns []*GNode
				for n := c.R.Range(300, 3000); n > 0; n-- {
					ns = append(ns, genNode(c.R, 1, cfg))
				}
				checkTree(c, ns, anyOpts())
			}},
			{Name: "hostile", Quick: 12000, Run: func(c *C) { diffCase(c, soupCase(c.R), genDiffOpts(c.R), false, "structure") }},
			{Name: "big", Quick: 60, Run: func(c *C) { diffCase(c, bigText(c.R), genDiffOpts(c.R), false, "structure") }},
			{Name: "many", Quick: 120, Run: func(c *C) { manyDiff(c, false, "all") }},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "statements": 5000, "empty blocks": 100, "if conditions": 100, "map blocks": 100},
	})

	register(&Check{
		ID: "C06", Level: "exploration",
		Rule: "lines of tokens, directives, comments and errors of generated text (line breaks in every lexical position, LF and CRLF) known by construction or from the reference models; included files; text after Lua blocks; big texts; many: the same in hundreds or thousands. Distinct: line sequences.",
		Streams: []Stream{
			{Name: "tokens", Quick: 5000, Run: func(c *C) {
				st := genStyle(c.R)
				text, w := render(c.R, genTree(c.R, 0, defaultTreeCfg(c.R)), &st)
				c.Desc("text", text)
				got := lexText(text)
				linesOf(c, got, w.toks)
			}},
			{Name: "trees", Quick: 5000, Run: func(c *C) {
				st := genStyle(c.R)
				ns := genTree(c.R, 0, defaultTreeCfg(c.R))
				text, _ := render(c.R, ns, &st)
				c.Desc("text", text)
				p, err := parse1(text, anyOpts())
				if err != nil || len(p.Errors) > 0 {
					c.Note("not parsed")
					return
				}
				dirLines(c, p.Config[0].Parsed, expect(ns, "", true))
			}},
			{Name: "hostile", Quick: 10000, Run: func(c *C) {
				s := soupCase(c.R)
				c.Desc("text", s)
				linesOf(c, lexText(s), refLex(s))
				o := genDiffOpts(c.R)
				errLines(c, map[string]string{"/c/main": s}, o)
			}},
			{Name: "includes", Quick: 1500, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: true})
				c.Desc("files", w.files)
				o := cp.ParseOptions{ParseComments: true, ErrorOnUnknownDirectives: c.R.Bool()}
				errLines(c, w.files, o)
			}},
			{Name: "lua", Quick: 2000, Run: func(c *C) { luaLinesCase(c) }},
			{Name: "big", Quick: 40, Run: func(c *C) {
				s := bigText(c.R)
				c.Desc("text", s)
				linesOf(c, lexText(s), refLex(s))
				errLines(c, map[string]string{"/c/main": s}, genDiffOpts(c.R))
			}},
			{Name: "big lua", Quick: 20, Run: func(c *C) {
				g := genLuaNode(c.R)
				lua := bigLua(c.R)
				g.Name, g.Raw, g.Want = Lex{Src: "log_by_lua_block", Val: "log_by_lua_block"}, " {"+lua+"}", []string{lua}
				ns := append(append(genTree(c.R, 2, defaultTreeCfg(c.R)), g), genTree(c.R, 2, defaultTreeCfg(c.R))...)
				ns = append(ns, genLuaNode(c.R))
				st := genStyle(c.R)
				text, _ := render(c.R, ns, &st)
				c.Desc("text", text)
				p, err := parse1(text, luaParse())
				if err != nil || len(p.Errors) > 0 {
					c.Note("not parsed")
					return
				}
				dirLines(c, p.Config[0].Parsed, expect(ns, "", true))
				c.Note("large Lua blocks")
			}},
			{Name: "many", Quick: 60, Run: func(c *C) { manyDiff(c, true, "all") }},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "lines compared": 20000, "error lines compared": 500},
	})

	register(&Check{
		ID: "C03", Level: "exploration",
		Rule: "short: every string over 14 lexical classes up to length 4 (thorough: 5) as value; values: random values; each is quoted and read back on its own, and built at each position of a directive between neighbours. Distinct: sequences of lexical classes of the values that need quotes.",
		Streams: []Stream{
			{Name: "short", Quick: (countStrings(4, len(quoteAlphabet)) + 499) / 500, Thorough: (countStrings(5, len(quoteAlphabet)) + 499) / 500, Run: func(c *C) {
				batch(c, c.Idx, 500, countStrings(5, len(quoteAlphabet)), func(i int) {
					c.Evals(1)
					quoteCase(c, nthString(i, quoteAlphabet))
				})
			}},
			{Name: "values", Quick: 12000, Run: func(c *C) {
				quoteCase(c, genValue(c.R))
			}},
			{Name: "built", Quick: 10000, Run: func(c *C) { injectCase(c) }},
			{Name: "big", Quick: 60, Run: func(c *C) {
				v := genValue(c.R)
				if len(v) < 3 {
					v += " x"
				}
				n := c.R.Range(66000, 80000)/len(v) + 1
				if c.R.Bool() {
					v = strings.Repeat(v, n)
				} else {
					v = strings.Repeat("x", n*len(v)) + v
				}
				quoteCase(c, v)
			}},
		},
		MinNote: map[string]int{"values of the tokenizer": 2000, "quoted": 2000, "not quoted": 2000},
		Assume:  []string{"values are valid UTF-8 without CR for the exact round trip; all strings for the boundaries"},
	})

	register(&Check{
		ID: "C01", Level: "exploration",
		Rule: "generated trees, realistic configs and error-free hostile texts are parsed, built with random options, parsed again and compared; the second build must be stable; big texts. Distinct: shapes and argument classes.",
		Streams: []Stream{
			{Name: "trees", Quick: 5000, Run: func(c *C) {
				st := genStyle(c.R)
				text, _ := render(c.R, genTree(c.R, 0, defaultTreeCfg(c.R)), &st)
				o := anyOpts()
				o.ParseComments = c.R.P(3, 4)
				roundTrip(c, text, o)
			}},
			{Name: "real", Quick: 2000, Run: func(c *C) {
				st := genStyle(c.R)
				text, _ := render(c.R, genReal(c.R), &st)
				roundTrip(c, text, cp.ParseOptions{SingleFile: true, ParseComments: c.R.Bool(), ErrorOnUnknownDirectives: true})
			}},
			{Name: "hostile", Quick: 12000, Run: func(c *C) {
				roundTrip(c, soupCase(c.R), genDiffOpts(c.R))
			}},
			{Name: "big", Quick: 40, Run: func(c *C) { roundTrip(c, bigText(c.R), genDiffOpts(c.R)) }},
			{Name: "short", Quick: 60, Thorough: (countStrings(6, len(lexAlphabet)) + 499) / 500, Run: func(c *C) {
				total := countStrings(5, len(lexAlphabet))
				for k := 0; k < 300; k++ {
					i := c.R.N(total)
					s := nthString(i, lexAlphabet)
					c.Evals(1)
					roundTrip(c, pick(c.R, []string{"x ", "", "if (", "map x {"})+s+pick(c.R, []string{";", "", " ;", "}", " {}", ") {}", " b; }"}), anyOpts())
				}
			}},
		},
		MinNote: map[string]int{"round trips": 6000, "with comments": 500},
	})

	register(&Check{
		ID: "C02", Level: "exploration",
		Rule: "payloads of generated trees and file sets (separate and combined) go through encoding/json and are compared with the original field by field; both are built and the texts compared; many: thousands of statements, arguments, indexes or configs, and deep blocks. Distinct: shapes.",
		Streams: []Stream{
			{Name: "trees", Quick: 5000, Run: func(c *C) {
				st := genStyle(c.R)
				text, _ := render(c.R, genTree(c.R, 0, defaultTreeCfg(c.R)), &st)
				if c.R.P(1, 50) {
					text = genComment(c.R)
				}
				if c.R.P(1, 10) {
					text = mutate(c.R, text)
				}
				c.Desc("text", text)
				p, err := parse1(text, anyOpts())
				if err == nil {
					jsonLists(c, p)
				}
				if err != nil || p.Status != "ok" {
					c.Note("not parsed")
					return
				}
				jsonTrip(c, p)
			}},
			{Name: "worlds", Quick: 1500, Run: func(c *C) {
				w := genWorld(c.R, worldCfg{errs: c.R.P(1, 8)})
				if c.R.P(1, 4) { // an empty file
					w.files[pick(c.R, sortedKeys(w.files))] = pick(c.R, []string{"", "\n", "# c\n", " \n#\n"})
				}
				c.Desc("files", w.files)
				m := newMemFS(w.files)
				o := cp.ParseOptions{ParseComments: c.R.Bool(), CombineConfigs: c.R.P(1, 3)}
				p, err := cp.Parse(w.main, m.with(o))
				if err == nil {
					jsonLists(c, p)
				}
				if err != nil || p.Status != "ok" {
					c.Note("not parsed")
					return
				}
				jsonTrip(c, p)
			}},
			{Name: "made", Quick: 3000, Run: func(c *C) {
				p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}}
				for n := c.R.Range(1, 3); n > 0; n-- {
					p.Config = append(p.Config, cp.Config{File: strings.ToValidUTF8(genValue(c.R), "?"), Status: "ok", Errors: []cp.ConfigError{}, Parsed: genDirectives(c.R, 0, true)})
				}
				c.Desc("payload", jsonOf(p))
				jsonTrip(c, p)
			}},
			{Name: "many", Quick: 60, Run: manyJSON},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "payloads": 4000, "empty lists": 5000, "empty blocks": 100, "comments": 500, "includes": 200},
	})
}

// genDiffOpts gives options for runs on a single text.
func genDiffOpts(r *Rand) cp.ParseOptions {
	o := cp.ParseOptions{ParseComments: r.Bool(), SingleFile: r.P(3, 4)}
	switch r.N(4) {
	case 0:
		o.DirectiveSources = []cp.MatchFunc{noMatch}
	case 1:
		o.ErrorOnUnknownDirectives = true
	case 2:
		o.SkipDirectiveContextCheck = r.Bool()
		o.SkipDirectiveArgsCheck = r.Bool()
	}
	if r.P(1, 8) {
		o.IgnoreDirectives = []string{pick(r, []string{"a", "server", "http", "listen", "if", "map"})}
	}
	if r.P(1, 8) {
		o.StopParsingOnError = true
	}
	if r.P(1, 10) {
		o.CombineConfigs = true
	}
	return o
}

func zeroLines(ds cp.Directives) {
	for _, d := range ds {
		d.Line = 0
		zeroLines(d.Block)
	}
}

func zeroRLines(ds []*RDir) {
	for _, d := range ds {
		d.Line = 0
		zeroRLines(d.Block)
	}
}

func shape(ds []*RDir, sb *strings.Builder) {
	for _, d := range ds {
		switch {
		case d.Comment != nil:
			sb.WriteByte('#')
		case d.Map:
			sb.WriteByte('m')
		case d.Name == "if":
			sb.WriteByte('i')
		case d.Name == "include":
			sb.WriteByte('I')
		default:
			sb.WriteByte('s')
		}
		sb.WriteByte(byte('0' + len(d.Args)))
		if d.HasBlock {
			sb.WriteByte('{')
			shape(d.Block, sb)
			sb.WriteByte('}')
		}
	}
}

func noteTree(c *C, ds []*RDir) {
	for _, d := range ds {
		c.Note("statements")
		c.NoteIf(d.Comment != nil, "comments")
		c.NoteIf(d.HasBlock && len(d.Block) == 0, "empty blocks")
		c.NoteIf(d.Name == "if" && !d.Map, "if conditions")
		c.NoteIf(d.HasBlock && isMapName(d.Name), "map blocks")
		noteTree(c, d.Block)
	}
}

func treeCase(c *C, cfg *treeCfg, o cp.ParseOptions) {
	checkTree(c, genTree(c.R, 0, cfg), o)
}

func checkTree(c *C, ns []*GNode, o cp.ParseOptions) {
	st := genStyle(c.R)
	text, _ := render(c.R, ns, &st)
	c.Desc("text", text)
	o.ParseComments = c.R.P(3, 4)
	p, err := parse1(text, o)
	if err != nil {
		c.Failf("parse failed: %v", err)
	}
	if len(p.Errors) > 0 || p.Status != "ok" || len(p.Config) != 1 {
		c.Failf("status %s, errors %v", p.Status, p.Errors)
	}
	want := expect(ns, "", o.ParseComments)
	zeroLines(p.Config[0].Parsed)
	zeroRLines(want)
	if d := diffDirs(p.Config[0].Parsed, want, ""); d != "" {
		c.Failf("%s", d)
	}
	noteTree(c, want)
	var sb strings.Builder
	shape(want, &sb)
	c.Sig(sb.String())
	c.Sample(func() string { return fmt.Sprintf("%q", text) })
}

// realCase parses a realistic config with validation on.
func realCase(c *C) {
	checkTree(c, genReal(c.R), cp.ParseOptions{SingleFile: true, ErrorOnUnknownDirectives: true})
}

// diffCase compares a parse with the reference parser. what: "all" compares everything, "structure" leaves out lines
// and texts of errors.
func diffCase(c *C, text string, o cp.ParseOptions, full bool, what string) {
	files := map[string]string{"/c/main": text}
	diffFiles(c, files, "/c/main", o, full, what)
}

func diffFiles(c *C, files map[string]string, main string, o cp.ParseOptions, full bool, what string) {
	c.Desc("files", files)
	c.Desc("options", optString(&o))
	m := newMemFS(files)
	want, wantErr := refParse(m, main, &o)
	got, err := cp.Parse(main, m.with(o))
	if wantErr != nil {
		c.Note("parses that fail")
		if err == nil {
			c.Failf("no error, want %v", wantErr)
		}
		if got != nil {
			c.Failf("payload with error %v", err)
		}
		if what == "structure" {
			return
		}
		if d := diffErr(err, wantErr, full); d != "" {
			c.Failf("%s", d)
		}
		return
	}
	if err != nil {
		c.Failf("error %v, want none", err)
	}
	if o.CombineConfigs {
		want = refCombine(want)
	}
	if what == "structure" {
		if len(got.Config) != len(want.Config) {
			c.Failf("%d configs, want %d", len(got.Config), len(want.Config))
		}
		for i := range got.Config {
			zeroLines(got.Config[i].Parsed)
			zeroRLines(want.Config[i].Parsed)
			if d := diffDirs(got.Config[i].Parsed, want.Config[i].Parsed, fmt.Sprintf("config[%d]", i)); d != "" {
				c.Failf("%s", d)
			}
		}
	} else if d := diffPayload(got, want, full); d != "" {
		c.Failf("%s", d)
	}
	var sb strings.Builder
	for _, k := range want.Config {
		noteTree(c, k.Parsed)
		shape(k.Parsed, &sb)
		sb.WriteByte('|')
	}
	c.NoteN("errors", len(want.Errors))
	if sb.Len() > 4 || len(want.Errors) > 0 {
		c.Sig(sb.String(), fmt.Sprint(len(want.Errors)))
	}
	c.Sample(func() string { return show(files) })
}

func optString(o *cp.ParseOptions) string {
	return fmt.Sprintf("ignore=%q stop=%v combine=%v single=%v comments=%v unknown=%v skipctx=%v skipargs=%v sources=%d lexers=%d",
		o.IgnoreDirectives, o.StopParsingOnError, o.CombineConfigs, o.SingleFile, o.ParseComments, o.ErrorOnUnknownDirectives,
		o.SkipDirectiveContextCheck, o.SkipDirectiveArgsCheck, len(o.DirectiveSources), len(o.LexOptions.Lexers))
}

// linesOf compares the lines of tokens that are otherwise as expected.
func linesOf(c *C, got []cp.NgxToken, want []RTok) {
	if diffToks(got, want, false) != "" {
		c.Note("other differences")
		return
	}
	if d := diffToks(got, want, true); d != "" {
		c.Failf("%s", d)
	}
	c.NoteN("lines compared", len(got))
	var sb strings.Builder
	prev := 1
	for _, t := range want {
		fmt.Fprintf(&sb, "%d,", t.Line-prev)
		prev = t.Line
	}
	if len(want) > 2 {
		c.Sig(sb.String())
	}
	c.Sample(func() string { return fmt.Sprintf("%d tokens, last on line %d", len(got), prev) })
}

// dirLines compares the lines of directives that are otherwise as expected.
func dirLines(c *C, got cp.Directives, want []*RDir) {
	if len(got) != len(want) {
		c.Note("other differences")
		return
	}
	for i, d := range got {
		w := want[i]
		if d.Directive != w.Name || !eqStrs(d.Args, w.Args) {
			c.Note("other differences")
			return
		}
		if d.Line != w.Line {
			c.Failf("line %d, want %d, of %s", d.Line, w.Line, cpDirString(d))
		}
		c.Note("lines compared")
		dirLines(c, d.Block, w.Block)
	}
}

// errLines compares the lines of everything in a payload with the reference.
func errLines(c *C, files map[string]string, o cp.ParseOptions) {
	m := newMemFS(files)
	want, wantErr := refParse(m, "/c/main", &o)
	got, err := cp.Parse("/c/main", m.with(o))
	if (err != nil) != (wantErr != nil) {
		c.Note("other differences")
		return
	}
	lineOf := func(e error) int {
		var pe *cp.ParseError
		if errors.As(e, &pe) && pe.Line != nil {
			return *pe.Line
		}
		return 0
	}
	if wantErr != nil {
		if l := lineOf(err); l != wantErr.Line {
			c.Failf("error %v has line %d, want %v", err, l, wantErr)
		}
		c.Note("error lines compared")
		return
	}
	if o.CombineConfigs {
		want = refCombine(want)
	}
	if len(got.Errors) != len(want.Errors) || len(got.Config) != len(want.Config) {
		c.Note("other differences")
		return
	}
	for i, e := range got.Errors {
		if l := lineOf(e.Error); l != want.Errors[i].Line {
			c.Failf("error %v has line %d, want %v", e.Error, l, want.Errors[i])
		}
		if l := want.Errors[i].Line; l != 0 && (e.Line == nil || *e.Line != l) {
			c.Failf("payload error %v: line is not %d", e.Error, l)
		}
		c.Note("error lines compared")
	}
	for i := range got.Config {
		dirLines(c, got.Config[i].Parsed, want.Config[i].Parsed)
	}
}

// ---- quoting ----

var quoteAlphabet = []string{"a", " ", "\n", `"`, "'", `\`, "#", "$", "{", "}", ";", "(", ")", "é"}

// canRead tells whether v is a value that the tokenizer can produce, that is, a quoted string can give exactly v:
// with one of the quotes, each quote in v can be escaped and v has no lone backslash at its end and no escape of
// that quote. It does so by writing it and reading it back with the reference tokenizer.
func canRead(v string) bool {
	for _, q := range []string{`"`, "'"} {
		var sb strings.Builder
		sb.WriteString(q)
		ok := true
		for i := 0; i < len(v); i++ {
			switch {
			case v[i] == '\\':
				if i+1 == len(v) || string(v[i+1]) == q {
					ok = false
				} else {
					// the pair stays as it is
					sb.WriteByte('\\')
					i++
					sb.WriteByte(v[i])
				}
			case string(v[i]) == q:
				sb.WriteString(`\` + q)
			default:
				sb.WriteByte(v[i])
			}
		}
		if !ok {
			continue
		}
		sb.WriteString(q)
		ts := refLex(sb.String())
		if len(ts) == 1 && ts[0].Val == v && ts[0].Quoted {
			return true
		}
	}
	ts := refLex(v + " ;")
	return len(ts) == 2 && ts[0].Err == "" && !ts[0].Comment && !ts[0].Quoted && ts[0].Val == v && !isSpecial(v) && v != ""
}

// genValue gives any value.
func genValue(r *Rand) string {
	if r.P(1, 12) {
		return dictWord(r)
	}
	switch r.N(5) {
	case 0:
		return genWord(r, true, true).Val
	case 1:
		return genQuoted(r).Val
	case 2:
		return genSoup(r, r.Range(1, 6))
	default:
		var sb strings.Builder
		for n := r.Geo(12); n > 0; n-- {
			if r.P(1, 3) {
				sb.WriteString(wordRune(r, false))
			} else {
				sb.WriteString(pick(r, quoteAlphabet))
			}
		}
		return sb.String()
	}
}

func classes(v string) string {
	var sb strings.Builder
	for _, r := range v {
		s := string(r)
		switch {
		case strings.Contains(" \n\"'\\#${};()", s):
			sb.WriteString(s)
		case sb.Len() > 0 && strings.HasSuffix(sb.String(), "a"):
		default:
			sb.WriteByte('a')
		}
	}
	return sb.String()
}

// clean makes a value that text can hold: valid UTF-8 without CR.
func clean(v string) string {
	return strings.ReplaceAll(strings.ToValidUTF8(v, "\uFFFD"), "\r", "")
}

func quoteCase(c *C, v string) {
	q := cp.Enquote(v)
	fail := func(format string, a ...interface{}) {
		c.Desc("value", v)
		c.Desc("quoted", q)
		c.Failf(format, a...)
	}
	// alone, and between neighbours
	for _, form := range []struct {
		text string
		i, n int
	}{{q, 0, 1}, {" " + q + ";", 0, 2}, {"x " + q + " y{", 1, 5}} {
		text, i, n := form.text, form.i, form.n
		ts := lexText(text)
		if len(ts) != n || ts[i].Error != nil {
			fail("%q gives %d tokens, want %d", text, len(ts), n)
		}
		t := ts[i]
		if !t.IsQuoted && (isSpecial(t.Value) || strings.HasPrefix(t.Value, "#") || t.Value == "") {
			fail("%q gives the token %s", text, tokString(t))
		}
		if v == clean(v) && canRead(v) && t.Value != v {
			fail("%q is read back as %q", text, t.Value)
		}
		if n == 5 && (ts[0].Value != "x" || ts[2].Value != "y" || ts[3].Value != "{") {
			fail("%q changes its neighbours", text)
		}
	}
	c.NoteIf(v == clean(v) && canRead(v), "values of the tokenizer")
	if q != v {
		c.Note("quoted")
		c.Sig(classes(v))
	} else {
		c.Note("not quoted")
	}
	c.Sample(func() string { return fmt.Sprintf("%q -> %s", v, q) })
}

// injectCase builds directives with hostile values and reads them back with the reference tokenizer's rules.
func injectCase(c *C) {
	r := c.R
	mk := func() string { return genValue(r) }
	var ds cp.Directives
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		d := &cp.Directive{Directive: mk(), Line: i + 1, Args: []string{}}
		if r.P(1, 6) {
			d.Directive = "if"
		}
		for k := r.N(4); k > 0; k-- {
			d.Args = append(d.Args, mk())
		}
		if d.Directive == "if" && len(d.Args) == 0 {
			d.Args = append(d.Args, mk())
		}
		if r.P(1, 3) {
			d.Block = cp.Directives{}
			for k := r.N(3); k > 0; k-- {
				e := &cp.Directive{Directive: mk(), Line: i + 1, Args: []string{mk()}}
				if e.Directive == "if" {
					e.Directive = "x"
				}
				d.Block = append(d.Block, e)
			}
		}
		ds = append(ds, d)
	}
	c.Desc("directives", jsonOf(ds))
	var buf bytes.Buffer
	if err := cp.Build(&buf, cp.Config{Parsed: ds}, &cp.BuildOptions{Indent: r.N(5), Tabs: r.Bool()}); err != nil {
		c.Failf("build: %v", err)
	}
	text := buf.String()
	c.Desc("built", text)
	o := anyOpts()
	p, err := parse1(text, o)
	if err != nil || p.Status != "ok" {
		c.Failf("what was built does not parse: %v %v", err, p)
	}
	got := p.Config[0].Parsed
	var same func(g, w cp.Directives, inMap bool)
	same = func(g, w cp.Directives, inMap bool) {
		if len(g) != len(w) {
			c.Failf("%d directives are read back as %d", len(w), len(g))
		}
		for i := range w {
			a, b := g[i], w[i]
			if (a.Block != nil) != (b.Block != nil) || a.Comment != nil {
				c.Failf("block or comment of %s is read back as %s", cpDirString(b), cpDirString(a))
			}
			exact := b.Directive == clean(b.Directive) && canRead(b.Directive)
			if exact && a.Directive != b.Directive {
				c.Failf("directive %q is read back as %q", b.Directive, a.Directive)
			}
			// the parentheses of a condition are added and removed, which eats white space next to them
			if b.Directive == "if" {
				if len(a.Args) != len(b.Args) && !ifOdd(b.Args) {
					c.Failf("condition %q is read back as %q", b.Args, a.Args)
				}
				if ifOdd(b.Args) {
					continue
				}
			} else if len(a.Args) != len(b.Args) {
				c.Failf("arguments %q are read back as %q", b.Args, a.Args)
			}
			for k := range b.Args {
				if b.Args[k] == clean(b.Args[k]) && canRead(b.Args[k]) && a.Args[k] != b.Args[k] {
					c.Failf("argument %q is read back as %q", b.Args[k], a.Args[k])
				}
			}
			same(a.Block, b.Block, false)
			c.Note("directives")
		}
	}
	// map-like names change how a block is read, so they are out of scope here
	for _, d := range ds {
		if isMapName(d.Directive) && d.Block != nil {
			return
		}
	}
	same(got, ds, false)
	c.Sig(classes(text))
}

// ifOdd tells whether a condition has values next to the parentheses that are cut when read back: a word that has
// white space at its end because a variable in it is not closed.
func ifOdd(args []string) bool {
	last := args[len(args)-1]
	return strings.TrimSpace(last) != last && cp.Enquote(last) == last
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// ---- round trips ----

func genBuildOpts(r *Rand) *cp.BuildOptions {
	return &cp.BuildOptions{Indent: r.N(9), Tabs: r.P(1, 4), Header: r.P(1, 4)}
}

func buildText(c *C, ds cp.Directives, o *cp.BuildOptions) string {
	var buf bytes.Buffer
	b := *o
	if err := cp.Build(&buf, cp.Config{Parsed: ds}, &b); err != nil {
		c.Failf("build: %v", err)
	}
	return buf.String()
}

// norm puts comments that follow each other together; one that shares a line merges with the one before it.
func flat(ds cp.Directives, sb *strings.Builder, keepComments bool) {
	for i := 0; i < len(ds); i++ {
		d := ds[i]
		if d.IsComment() {
			if !keepComments {
				continue
			}
			// runs of comments, written one after another
			sb.WriteString("\x01")
			for ; i < len(ds) && ds[i].IsComment(); i++ {
				sb.WriteString(normComment("#" + *ds[i].Comment))
			}
			i--
			continue
		}
		fmt.Fprintf(sb, "\x02%q %q b=%v m=%v", d.Directive, d.Args, d.Block != nil, d.IsMapBlockParameter)
		if d.Block != nil {
			sb.WriteString("{")
			flat(d.Block, sb, keepComments)
			sb.WriteString("}")
		}
	}
}

// normComment removes what merging of comments adds: the space between them.
func normComment(s string) string { return strings.ReplaceAll(s, " ", "") }

func flatString(ds cp.Directives, comments bool) string {
	var sb strings.Builder
	flat(ds, &sb, comments)
	return sb.String()
}

// exactComments gives the comments if no two of them can merge.
func mergeable(ds cp.Directives) bool {
	for i, d := range ds {
		if d.IsComment() && i > 0 && ds[i-1].IsComment() && ds[i-1].Line == d.Line {
			return true
		}
		if mergeable(d.Block) {
			return true
		}
	}
	return false
}

func exactString(ds cp.Directives, sb *strings.Builder) {
	for _, d := range ds {
		com := ""
		if d.Comment != nil {
			com = "#" + *d.Comment
		}
		fmt.Fprintf(sb, "%q %q b=%v m=%v %q{", d.Directive, d.Args, d.Block != nil, d.IsMapBlockParameter, com)
		exactString(d.Block, sb)
		sb.WriteString("}")
	}
}

func countComments(ds cp.Directives) int {
	n := 0
	for _, d := range ds {
		if d.IsComment() {
			n++
		}
		n += countComments(d.Block)
	}
	return n
}

func roundTrip(c *C, text string, o cp.ParseOptions) {
	o.SingleFile = true
	o.StopParsingOnError = false
	p, err := parse1(text, o)
	if err != nil || p.Status != "ok" {
		c.Note("not parsed")
		return
	}
	descs := len(c.descs)
	c.Desc("text", text)
	c.Desc("options", optString(&o))
	bo := genBuildOpts(c.R)
	if len(o.LexOptions.Lexers) > 0 {
		bo.Builders = []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}
	}
	first := buildText(c, p.Config[0].Parsed, bo)
	c.Desc("build options", fmt.Sprintf("%+v", *bo))
	c.Desc("built", first)
	p2, err := parse1(first, o)
	if err != nil {
		c.Failf("the built text does not parse: %v", err)
	}
	if p2.Status != "ok" || len(p2.Config) != 1 {
		c.Failf("the built text has errors: %v", p2.Errors)
	}
	a, b := p.Config[0].Parsed, p2.Config[0].Parsed
	if bo.Header && o.ParseComments {
		// the header is three lines of comments
		if len(b) < 3 || !b[0].IsComment() || !b[1].IsComment() || !b[2].IsComment() {
			c.Failf("no header")
		}
		b = b[3:]
	}
	if x, y := flatString(a, o.ParseComments), flatString(b, o.ParseComments); x != y {
		c.Failf("parsed again, the config differs:\n%q\n%q", x, y)
	}
	if !mergeable(a) {
		var x, y strings.Builder
		exactString(a, &x)
		exactString(b, &y)
		if x.String() != y.String() {
			c.Failf("parsed again, the config differs:\n%q\n%q", x.String(), y.String())
		}
	}
	// from now on the text is stable: lines of comments have settled after the second build
	bo.Header = false
	second := buildText(c, b, bo)
	p3, err := parse1(second, o)
	if err != nil || p3.Status != "ok" {
		c.Failf("the text of the second build does not parse: %v", err)
	}
	third := buildText(c, p3.Config[0].Parsed, bo)
	if second != third {
		c.Desc("second", second)
		c.Failf("building again gives a different text: %q", third)
	}
	if !bo.Header && countComments(a) == 0 && strings.TrimSuffix(first, "\n") != second && !strings.HasPrefix(first, "# This config was built") {
		c.Failf("the second build differs: %q", second)
	}
	c.Note("round trips")
	c.NoteIf(countComments(a) > 0, "with comments")
	c.Sig(classes(first))
	c.Sample(func() string { return fmt.Sprintf("%q -> %q", text, first) })
	c.descs = c.descs[:descs]
}

func diffGoDirs(a, b cp.Directives, at string) string {
	if (a == nil) != (b == nil) && (len(a) > 0 || len(b) > 0) {
		return at + ": nil"
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d and %d directives", at, len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Directive != y.Directive || !eqStrs(x.Args, y.Args) || x.Line != y.Line || x.File != y.File || !eqInts(x.Includes, y.Includes) ||
			(x.Block == nil) != (y.Block == nil) || (x.Comment == nil) != (y.Comment == nil) || (x.Comment != nil && *x.Comment != *y.Comment) ||
			x.IsMapBlockParameter != y.IsMapBlockParameter || x.IsBlock() != y.IsBlock() || x.IsComment() != y.IsComment() || x.IsInclude() != y.IsInclude() {
			return fmt.Sprintf("%s/%d: %s and %s", at, i, cpDirString(x), cpDirString(y))
		}
		if d := diffGoDirs(x.Block, y.Block, fmt.Sprintf("%s/%d", at, i)); d != "" {
			return d
		}
	}
	return ""
}

// jsonLists says that the lists in the JSON of a parsed payload are lists, also if there is nothing in them.
func jsonLists(c *C, p *cp.Payload) {
	b, err := json.Marshal(p)
	if err != nil {
		c.Failf("marshal: %v", err)
	}
	var v map[string]interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		c.Failf("unmarshal: %v\n%s", err, b)
	}
	list := func(m map[string]interface{}, key, at string) []interface{} {
		l, ok := m[key].([]interface{})
		if !ok {
			c.Failf("%s: %q is %v, not a list\n%s", at, key, m[key], b)
		}
		c.NoteIf(len(l) == 0, "empty lists")
		return l
	}
	var dirs func(l []interface{}, at string)
	dirs = func(l []interface{}, at string) {
		for i, x := range l {
			d, _ := x.(map[string]interface{})
			at := fmt.Sprintf("%s/%d", at, i)
			list(d, "args", at)
			if _, ok := d["block"]; ok {
				dirs(list(d, "block", at), at)
			}
			if _, ok := d["includes"]; ok {
				list(d, "includes", at)
			}
		}
	}
	list(v, "errors", "payload")
	for i, x := range list(v, "config", "payload") {
		cf, _ := x.(map[string]interface{})
		at := fmt.Sprintf("config[%d]", i)
		list(cf, "errors", at)
		dirs(list(cf, "parsed", at), at)
	}
}

func jsonTrip(c *C, p *cp.Payload) {
	b, err := json.Marshal(p)
	if err != nil {
		c.Failf("marshal: %v", err)
	}
	if !json.Valid(b) {
		c.Failf("invalid JSON: %s", b)
	}
	var q cp.Payload
	if err := json.Unmarshal(b, &q); err != nil {
		c.Failf("unmarshal: %v\n%s", err, b)
	}
	if q.Status != p.Status || len(q.Errors) != len(p.Errors) || len(q.Config) != len(p.Config) {
		c.Failf("payload %s %d %d became %s %d %d", p.Status, len(p.Errors), len(p.Config), q.Status, len(q.Errors), len(q.Config))
	}
	for i := range p.Config {
		x, y := p.Config[i], q.Config[i]
		if x.File != y.File || x.Status != y.Status || len(y.Errors) != 0 {
			c.Failf("config %d: %q %q became %q %q", i, x.File, x.Status, y.File, y.Status)
		}
		if d := diffGoDirs(x.Parsed, y.Parsed, fmt.Sprintf("config[%d]", i)); d != "" {
			c.Failf("%s\n%s", d, b)
		}
		o := genBuildOpts(c.R)
		if s, t := buildText(c, x.Parsed, o), buildText(c, y.Parsed, o); s != t {
			c.Failf("built texts differ: %q and %q", s, t)
		}
		noteJSON(c, x.Parsed)
	}
	// also with indentation and through a second trip
	b2, err := json.MarshalIndent(&q, "", "  ")
	if err != nil {
		c.Failf("marshal: %v", err)
	}
	var q2 cp.Payload
	if err := json.Unmarshal(b2, &q2); err != nil {
		c.Failf("unmarshal: %v", err)
	}
	for i := range p.Config {
		if d := diffGoDirs(p.Config[i].Parsed, q2.Config[i].Parsed, "second trip"); d != "" {
			c.Failf("%s", d)
		}
	}
	c.Note("payloads")
	c.Sig(classes(string(b)))
	c.Sample(func() string { return string(b) })
}

func noteJSON(c *C, ds cp.Directives) {
	for _, d := range ds {
		c.NoteIf(d.Comment != nil, "comments")
		c.NoteIf(d.Block != nil && len(d.Block) == 0, "empty blocks")
		c.NoteIf(len(d.Includes) > 0, "includes")
		noteJSON(c, d.Block)
	}
}

// genDirectives makes directives by hand, not by parsing.
func genDirectives(r *Rand, depth int, utf8 bool) cp.Directives {
	ds := cp.Directives{}
	for n := r.Geo(5); n > 0; n-- {
		v := func() string {
			s := genValue(r)
			if utf8 {
				s = strings.ToValidUTF8(s, "?")
			}
			return s
		}
		d := &cp.Directive{Directive: v(), Line: r.N(50), Args: []string{}}
		if n, ok := dictInt(r, 0, 1<<20); ok && r.P(1, 10) {
			d.Line = n
		}
		for k := r.N(4); k > 0; k-- {
			d.Args = append(d.Args, v())
		}
		switch r.N(8) {
		case 0:
			s := strings.ReplaceAll(v(), "\n", " ")
			d.Directive, d.Comment, d.Args = "#", &s, []string{}
		case 1:
			d.Directive = "include"
			d.Includes = []int{r.N(5)}
		case 2:
			d.IsMapBlockParameter = true
		case 3, 4:
			if depth < 4 {
				d.Block = genDirectives(r, depth+1, utf8)
			}
		case 5:
			d.File = v()
		}
		ds = append(ds, d)
	}
	return ds
}
