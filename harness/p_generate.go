package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// C26, C27: the generator of directive tables, run as the command.

// refMasks has the names that the generator writes, with the bits they had at the pinned commit.
var refMasks = map[string]uint64{
	"ngxConfNoArgs": 0x1, "ngxConfTake1": 0x2, "ngxConfTake2": 0x4, "ngxConfTake3": 0x8, "ngxConfTake4": 0x10,
	"ngxConfTake5": 0x20, "ngxConfTake6": 0x40, "ngxConfTake7": 0x80, "ngxConfBlock": 0x100, "ngxConfExpr": 0x200,
	"ngxConfFlag": 0x400, "ngxConfAny": 0x800, "ngxConf1More": 0x1000, "ngxConf2More": 0x2000,
	"ngxConfTake12": 0x6, "ngxConfTake13": 0xa, "ngxConfTake23": 0xc, "ngxConfTake34": 0x18, "ngxConfTake123": 0xe,
	"ngxConfTake1234": 0x1e, "ngxDirectConf": 0x10000, "ngxMgmtMainConf": 0x20000, "ngxMainConf": 0x40000,
	"ngxEventConf": 0x80000, "ngxMailMainConf": 0x100000, "ngxMailSrvConf": 0x200000, "ngxStreamMainConf": 0x400000,
	"ngxStreamSrvConf": 0x800000, "ngxStreamUpsConf": 0x1000000, "ngxHTTPMainConf": 0x2000000, "ngxHTTPSrvConf": 0x4000000,
	"ngxHTTPLocConf": 0x8000000, "ngxHTTPUpsConf": 0x10000000, "ngxHTTPSifConf": 0x20000000, "ngxHTTPLifConf": 0x40000000,
	"ngxHTTPLmtConf": 0x80000000, "ngxHTTPOIDCConf": 0x100000000, "ngxAnyConf": 0xfffc0000,
}

// refFlags maps the flags of nginx to those names.
var refFlags = map[string]string{
	"NGX_CONF_NOARGS": "ngxConfNoArgs", "NGX_CONF_TAKE1": "ngxConfTake1", "NGX_CONF_TAKE2": "ngxConfTake2",
	"NGX_CONF_TAKE3": "ngxConfTake3", "NGX_CONF_TAKE4": "ngxConfTake4", "NGX_CONF_TAKE5": "ngxConfTake5",
	"NGX_CONF_TAKE6": "ngxConfTake6", "NGX_CONF_TAKE7": "ngxConfTake7", "NGX_CONF_TAKE12": "ngxConfTake12",
	"NGX_CONF_TAKE13": "ngxConfTake13", "NGX_CONF_TAKE23": "ngxConfTake23", "NGX_CONF_TAKE123": "ngxConfTake123",
	"NGX_CONF_TAKE1234": "ngxConfTake1234", "NGX_CONF_BLOCK": "ngxConfBlock", "NGX_CONF_FLAG": "ngxConfFlag",
	"NGX_CONF_ANY": "ngxConfAny", "NGX_CONF_1MORE": "ngxConf1More", "NGX_CONF_2MORE": "ngxConf2More",
	"NGX_DIRECT_CONF": "ngxDirectConf", "NGX_MAIN_CONF": "ngxMainConf", "NGX_ANY_CONF": "ngxAnyConf",
	"NGX_EVENT_CONF": "ngxEventConf", "NGX_MAIL_MAIN_CONF": "ngxMailMainConf", "NGX_MAIL_SRV_CONF": "ngxMailSrvConf",
	"NGX_STREAM_MAIN_CONF": "ngxStreamMainConf", "NGX_STREAM_SRV_CONF": "ngxStreamSrvConf", "NGX_STREAM_UPS_CONF": "ngxStreamUpsConf",
	"NGX_HTTP_MAIN_CONF": "ngxHTTPMainConf", "NGX_HTTP_SRV_CONF": "ngxHTTPSrvConf", "NGX_HTTP_LOC_CONF": "ngxHTTPLocConf",
	"NGX_HTTP_UPS_CONF": "ngxHTTPUpsConf", "NGX_HTTP_SIF_CONF": "ngxHTTPSifConf", "NGX_HTTP_LIF_CONF": "ngxHTTPLifConf",
	"NGX_HTTP_LMT_CONF": "ngxHTTPLmtConf",
}

var refFlagNames, refMaskNames = sortedKeys(refFlags), sortedKeys(refMasks)

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// A cDef is one definition of a directive in a source file.
type cDef struct {
	name  string
	flags []string
}

type cTable struct {
	name string
	defs []cDef
}

// cWriter writes C tokens in a layout of its own.
type cWriter struct {
	r     *Rand
	sb    strings.Builder
	mode  int // 0 the layout of nginx, 1 wild, 2 dense, 3 one token per line
	last  byte
	slash bool // the last token is a division
	eol   string
	notes map[string]bool
}

func identByte(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

var commentTexts = []string{
	"", " plain ", " don't ", ` a " quote `, " // in ", " };", "{", "}", ",", ")", `");`, "|",
	`{ ngx_string("decoy_a"), NGX_HTTP_MAIN_CONF|NGX_CONF_TAKE1, 0, 0, 0, NULL },`,
	`ngx_command_t decoys[] = { { ngx_string("decoy_b"), NGX_MAIN_CONF, 0, 0, 0, NULL }, ngx_null_command };`,
	" ngx_null_command };", `"`, `'`, `\"`, "* ", " /", "#endif", " NGX_CONF_TAKE9 |", "ü☃", "\t", `ngx_string("x")`,
}

func (w *cWriter) note(s string) { w.notes[s] = true }

func (w *cWriter) raw(s string) {
	if s != "" {
		w.sb.WriteString(s)
		w.last = s[len(s)-1]
	}
}

func (w *cWriter) comment() {
	r := w.r
	n := 1
	if r.P(1, 4) {
		n = 3
	}
	text := ""
	for k := 0; k < n; k++ {
		text += pick(r, commentTexts)
	}
	if r.Bool() {
		text = strings.ReplaceAll(text, "*/", "* /")
		if r.P(1, 3) {
			text = strings.Replace(text, " ", w.eol+" ", 1)
			w.note("comment over lines")
		}
		if strings.HasSuffix(text, "*") && r.Bool() {
			text += " "
		}
		w.raw("/*" + text + "*/")
		w.note("block comment")
		return
	}
	w.raw("//" + strings.TrimRight(text, `\`) + w.eol)
	w.note("line comment")
}

// gap writes what is between two tokens.
func (w *cWriter) gap(next byte) {
	r := w.r
	need := identByte(w.last) && identByte(next)
	if w.slash { // a division, not a comment
		w.raw(" ")
	}
	switch w.mode {
	case 1:
		k := r.N(4)
		wrote := false
		for ; k > 0; k-- {
			switch r.N(8) {
			case 0, 1, 2:
				w.raw(pick(r, []string{" ", "  ", "\t"}))
			case 3, 4:
				w.raw(w.eol)
			case 5:
				w.raw(w.eol + "\t ")
			default:
				w.comment()
			}
			wrote = true
		}
		if need && !wrote {
			w.raw(pick(r, []string{" ", w.eol, "\t", "/**/"}))
		}
	case 3:
		w.raw(w.eol)
	default:
		if need {
			w.raw(" ")
		}
	}
}

func (w *cWriter) tok(s string) {
	w.gap(s[0])
	w.raw(s)
	w.slash = s == "/"
}

func (w *cWriter) toks(ts ...string) {
	for _, t := range ts {
		w.tok(t)
	}
}

// soft writes white space of the usual layout.
func (w *cWriter) soft(s string) {
	if w.mode == 0 {
		w.raw(strings.ReplaceAll(s, "\n", w.eol))
	}
}

var cHandlers = []string{"ngx_conf_set_flag_slot", "ngx_http_core_server", "0", "NULL", "ngx_conf_set_num_slot"}

func (w *cWriter) table(t cTable) {
	r := w.r
	if r.P(3, 4) {
		w.tok("static")
		w.soft(" ")
	}
	w.tok("ngx_command_t")
	w.soft("  ")
	w.toks(t.name, "[")
	if r.P(1, 8) {
		w.tok(pick(r, []string{"16", "NGX_COMMANDS"}))
		w.note("sized table")
	}
	w.tok("]")
	w.soft(" ")
	w.tok("=")
	w.soft(" ")
	w.tok("{")
	w.soft("\n\n")
	cond := false
	for _, d := range t.defs {
		if r.P(1, 6) {
			w.raw(w.eol + "#if (NGX_HTTP_SSL)" + w.eol)
			cond = true
			w.note("condition")
		}
		w.soft("    ")
		w.tok("{")
		w.soft(" ")
		w.toks("ngx_string", "(", `"`+d.name+`"`, ")", ",")
		w.soft("\n      ")
		for k, f := range d.flags {
			if k > 0 {
				w.tok("|")
				if w.mode == 0 && r.P(1, 4) {
					w.soft("\n          ")
					w.note("flags over lines")
				}
			}
			w.tok(f)
		}
		w.tok(",")
		w.soft("\n      ")
		w.toks(pick(r, cHandlers), ",")
		w.soft("\n      ")
		w.toks(pick(r, []string{"0", "NGX_HTTP_LOC_CONF_OFFSET"}), ",")
		w.soft("\n      ")
		if r.Bool() {
			w.toks("offsetof", "(", "ngx_http_core_loc_conf_t", ",")
			w.soft(" ")
			w.toks("value", ")")
		} else {
			w.tok("0")
		}
		w.tok(",")
		w.soft("\n      ")
		switch r.N(4) {
		case 0:
			w.toks("&", "ngx_http_core_post")
		case 1:
			w.toks("(", "void", "*", ")", "5")
		default:
			w.tok("NULL")
		}
		w.soft(" ")
		w.toks("}", ",")
		w.soft("\n\n")
		if cond && r.Bool() {
			w.raw(w.eol + pick(r, []string{"#endif", "#else", "#endif /* don't */"}) + w.eol)
			cond = false
		}
	}
	if cond {
		w.raw(w.eol + "#endif" + w.eol)
	}
	if r.P(3, 4) {
		w.soft("      ")
		w.tok("ngx_null_command")
	} else {
		w.toks("{", "ngx_null_string", ",", "0", ",", "NULL", ",", "0", ",", "0", ",", "NULL", "}")
	}
	if r.P(1, 4) {
		w.tok(",")
	}
	w.soft("\n")
	w.tok("}")
	w.tok(";")
	w.soft("\n\n\n")
}

var cDecoys = [][]string{
	{"extern", "ngx_command_t", "ngx_core_commands", "[", "]", ";"},
	{"static", "ngx_str_t", "decoy_names", "[", "]", "=", "{", "ngx_string", "(", `"decoy_c"`, ")", ",", "ngx_string", "(", `"decoy_d"`, ")", ",", "ngx_null_string", "}", ";"},
	{"static", "ngx_command_t", "*", "decoy_p", "=", "ngx_core_commands", ";"},
	{"static", "ngx_command_t", "decoy_s", "=", "{", "ngx_string", "(", `"decoy_e"`, ")", ",", "NGX_MAIN_CONF", "|", "NGX_CONF_TAKE1", ",", "0", ",", "0", ",", "0", ",", "NULL", "}", ";"},
	{"ngx_str_t", "s", "=", "ngx_string", "(", `"decoy_f"`, ")", ";"},
	{"static", "char", "*", "a", "=", `"/* no comment"`, ";"},
	{"static", "char", "*", "b", "=", `"// no comment"`, ";"},
	{"static", "char", "*", "b", "=", `"http://example.com/*"`, ";"},
	{"static", "char", "c", "=", `'"'`, ";"},
	{"static", "char", "c", "=", `'\''`, ",", "d", "=", `'\\'`, ",", "e", "=", `'/'`, ";"},
	{"static", "char", "*", "f", "=", `"a \" b"`, ",", "*", "g", "=", `"\\"`, ",", "*", "h", "=", `"*/"`, ";"},
	{"static", "ngx_http_module_t", "ctx", "=", "{", "NULL", ",", "NULL", "}", ";"},
	{"static", "char", "*", "f", "(", "ngx_conf_t", "*", "cf", ",", "ngx_command_t", "*", "cmd", ",", "void", "*", "conf", ")", "{", "ngx_str_t", "x", "=", "ngx_string", "(", `"decoy_g"`, ")", ";", "return", `"is duplicate"`, ";", "}"},
	{"static", "ngx_conf_enum_t", "en", "[", "]", "=", "{", "{", "ngx_string", "(", `"decoy_h"`, ")", ",", "NGX_CONF_TAKE1", "}", ",", "{", "ngx_null_string", ",", "0", "}", "}", ";"},
	{"int", "n", "=", "sizeof", "(", "ngx_command_t", ")", "/", "2", ";"},
}

func (w *cWriter) decoy() {
	r := w.r
	switch r.N(6) {
	case 0:
		w.comment()
		w.soft("\n")
	case 1:
		w.raw(w.eol + pick(r, []string{"#include <ngx_config.h>", "#define NGX_X 1", "#error don't", `#include "ngx_http.h"`, "#pragma once"}) + w.eol)
	default:
		w.toks(pick(r, cDecoys)...)
		w.soft("\n\n")
	}
}

func newCWriter(r *Rand) *cWriter {
	return &cWriter{r: r, mode: pick(r, []int{0, 0, 1, 1, 1, 2, 3}), eol: pick(r, []string{"\n", "\n", "\r\n"}), notes: map[string]bool{}}
}

func (w *cWriter) file(ts []cTable) string {
	r := w.r
	for k := r.N(3); k > 0; k-- {
		w.decoy()
	}
	for _, t := range ts {
		w.table(t)
		for k := r.N(3); k > 0; k-- {
			w.decoy()
		}
	}
	return w.sb.String()
}

var cNames = []string{"listen", "server", "location", "if", "a", "my_directive_1", "ssl_certificate", "lua_code_cache", "x-y", "types", "if_modified_since", "Upper", "dot.name", "return", "9lives"}

func genDef(r *Rand) cDef {
	d := cDef{name: pick(r, cNames)}
	if r.P(1, 8) {
		d.name = dictName(r)
	}
	if r.Bool() {
		d.name = fmt.Sprintf("d%d", r.N(40))
	}
	for k := r.Range(1, 4); k > 0; k-- {
		d.flags = append(d.flags, pick(r, refFlagNames))
	}
	if r.P(1, 30) {
		d.flags = append([]string{}, refFlagNames...)
		r.Shuffle(len(d.flags), func(i, j int) { d.flags[i], d.flags[j] = d.flags[j], d.flags[i] })
	}
	return d
}

func genTables(r *Rand, max int) (ts []cTable) {
	for k := r.N(max + 1); k > 0; k-- {
		t := cTable{name: pick(r, []string{"ngx_core_commands", "cmds", "ngx_http_x_commands_2"})}
		for j := r.Geo(12); j > 0; j-- {
			t.defs = append(t.defs, genDef(r))
		}
		ts = append(ts, t)
	}
	return ts
}

// A cTree is a tree of source files.
type cTree struct {
	files  map[string]string
	tables map[string][]cTable // of C and C++ files
	notes  map[string]bool
}

func genCTree(r *Rand) *cTree {
	t := &cTree{files: map[string]string{}, tables: map[string][]cTable{}, notes: map[string]bool{}}
	dirs := []string{"", "", "a", "a/b", "b.c", "src/http/modules", "z", ".hid", "a.cpp/x"}
	for k := r.Range(1, 6); k > 0; k-- {
		d := pick(r, dirs)
		name := pick(r, []string{"a.c", "b.c", "ngx_http.c", "m.cpp", "a.h", "c", "x.c.orig", "README", "cpp", "B.c", "a-b.c", "é.c"})
		p := filepath.Join(d, name)
		if p == "b.c" {
			continue
		}
		w := newCWriter(r)
		ts := genTables(r, 3)
		t.files[p] = w.file(ts)
		if strings.HasSuffix(name, ".c") || strings.HasSuffix(name, ".cpp") {
			t.tables[p] = ts
			for n := range w.notes {
				t.notes[n] = true
			}
		} else if len(ts) > 0 {
			t.notes["table in other file"] = true
		}
	}
	return t
}

// want gives the definitions of each directive, in the order of the walk through the sorted tree.
func (t *cTree) want() map[string][]uint64 {
	paths := sortedKeys(t.tables)
	sort.Slice(paths, func(i, j int) bool {
		a, b := strings.Split(paths[i], "/"), strings.Split(paths[j], "/")
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	m := map[string][]uint64{}
	for _, p := range paths {
		for _, tb := range t.tables[p] {
			for _, d := range tb.defs {
				var bits uint64
				for _, f := range d.flags {
					bits |= refMasks[refFlags[f]]
				}
				m[d.name] = append(m[d.name], bits)
			}
		}
	}
	return m
}

func (t *cTree) write(dir string) {
	must(os.MkdirAll(dir, 0o755))
	for p, s := range t.files {
		f := filepath.Join(dir, p)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte(s), 0o644))
	}
}

// noVerdict ends the run when the harness itself cannot go on.
func noVerdict(why string) {
	fmt.Fprintln(os.Stderr, "setup:", why)
	os.Exit(2)
}

func generate(dir string, args ...string) (stdout, stderr string, code int) {
	cmd := exec.Command(os.Getenv("VMON_GENERATE"), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		noVerdict(err.Error())
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// A genFile is what a generated file has.
type genFile struct {
	masks   map[string][]uint64
	comment string
}

// readGenerated reads a generated file.
func readGenerated(text, mapName, fnName string) (*genFile, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", text, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "crossplane" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	g := &genFile{}
	fn := false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				v, ok := s.(*ast.ValueSpec)
				if !ok || len(v.Names) != 1 || len(v.Values) != 1 || v.Names[0].Name != mapName || g.masks != nil {
					return nil, fmt.Errorf("an unexpected declaration")
				}
				if g.masks, err = readTable(v.Values[0]); err != nil {
					return nil, err
				}
			}
		case *ast.FuncDecl:
			if d.Name.Name != fnName || fn {
				return nil, fmt.Errorf("function %s", d.Name.Name)
			}
			fn = true
			if d.Doc != nil {
				var ls []string
				for _, c := range d.Doc.List {
					if !strings.HasPrefix(c.Text, "//") {
						return nil, fmt.Errorf("comment %q", c.Text)
					}
					ls = append(ls, strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " "))
				}
				g.comment = strings.Join(ls, "\n")
			}
		}
	}
	if g.masks == nil || !fn {
		return nil, fmt.Errorf("no table or no function")
	}
	return g, nil
}

func readTable(e ast.Expr) (map[string][]uint64, error) {
	lit, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil, fmt.Errorf("not a literal")
	}
	m := map[string][]uint64{}
	for _, el := range lit.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return nil, fmt.Errorf("not a map")
		}
		k, ok := kv.Key.(*ast.BasicLit)
		v, ok2 := kv.Value.(*ast.CompositeLit)
		if !ok || !ok2 {
			return nil, fmt.Errorf("not a map of lists")
		}
		name, err := strconv.Unquote(k.Value)
		if err != nil {
			return nil, err
		}
		if _, ok := m[name]; ok {
			return nil, fmt.Errorf("%q is there twice", name)
		}
		m[name] = []uint64{}
		for _, x := range v.Elts {
			bits, err := readMask(x)
			if err != nil {
				return nil, err
			}
			m[name] = append(m[name], bits)
		}
	}
	return m, nil
}

func readMask(e ast.Expr) (uint64, error) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return readMask(e.X)
	case *ast.BinaryExpr:
		a, err := readMask(e.X)
		if err != nil || e.Op != token.OR {
			return 0, fmt.Errorf("operator %s %v", e.Op, err)
		}
		b, err := readMask(e.Y)
		return a | b, err
	case *ast.BasicLit:
		return strconv.ParseUint(e.Value, 0, 64)
	case *ast.Ident:
		if b, ok := refMasks[e.Name]; ok {
			return b, nil
		}
		return 0, fmt.Errorf("flag %s", e.Name)
	}
	return 0, fmt.Errorf("expression %T", e)
}

func diffMasks(got, want map[string][]uint64) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%q is missing", k)
		}
		if fmt.Sprint(g) != fmt.Sprint(want[k]) {
			return fmt.Sprintf("%q has %x, want %x", k, g, want[k])
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%q is there", k)
		}
	}
	return ""
}

func scratch() (string, func()) {
	dir, err := os.MkdirTemp("", "generate")
	must(err)
	return dir, func() { _ = os.RemoveAll(dir) }
}

func extractCase(c *C) {
	r := c.R
	t := genCTree(r)
	dir, done := scratch()
	defer done()
	if r.P(1, 80) && len(t.tables) > 0 { // a large file
		p := pick(r, sortedKeys(t.tables))
		filler := pick(r, []string{"/* " + strings.Repeat("x", 1<<20) + " */ ", strings.Repeat("// a line\n", 1<<17), strings.Repeat("\n", 1<<20), strings.Repeat("static int x;\n", 1<<17), strings.Repeat(" ", 3<<20)})
		t.files[p] = filler + t.files[p]
		c.Note("large files")
	}
	t.write(filepath.Join(dir, "src"))
	c.Desc("files", t.files)
	want := t.want()
	path := pick(r, []string{"src", "src/", "./src", filepath.Join(dir, "src")})
	if r.P(1, 4) && len(t.files) > 0 { // a single file
		p := pick(r, sortedKeys(t.files))
		path = filepath.Join("src", p)
		one := &cTree{tables: map[string][]cTable{}}
		if ts, ok := t.tables[p]; ok {
			one.tables[p] = ts
		}
		want = one.want()
		c.Desc("file", p)
		c.Note("single files")
	}
	args := []string{"-src-path", path, "-directive-map-name", "ds", "-match-func-name", "M"}
	out, errOut, code := generate(dir, args...)
	c.Desc("output", out)
	c.Desc("error output", errOut)
	if len(want) == 0 {
		if code == 0 || errOut == "" {
			c.Failf("status %d although there are no directives", code)
		}
		if out != "" {
			c.Failf("output although there are no directives")
		}
		c.Note("sources without directives")
		return
	}
	if code != 0 {
		c.Failf("status %d", code)
	}
	g, err := readGenerated(out, "ds", "M")
	if err != nil {
		c.Failf("the output is not readable: %v", err)
	}
	if d := diffMasks(g.masks, want); d != "" {
		c.Failf("%s", d)
	}
	c.Note("tables compared")
	c.NoteN("directives compared", len(want))
	for n := range t.notes {
		c.Note(n)
	}
	for _, ms := range want {
		c.NoteIf(len(ms) > 1, "directives with several definitions")
	}
	c.Sig(fmt.Sprint(sortedKeys(t.notes)), fmt.Sprint(len(want), len(t.files)))
	c.Sample(func() string { return strings.Join(sortedKeys(t.files), " ") + "\n" + t.files[sortedKeys(t.tables)[0]] })
}

// cLayoutCase: the same tables in other layouts give the same output.
func cLayoutCase(c *C) {
	r := c.R
	ts := genTables(r, 4)
	ts = append(ts, cTable{name: "last", defs: []cDef{genDef(r), genDef(r)}})
	dir, done := scratch()
	defer done()
	var first string
	for k := 0; k < 5; k++ {
		w := newCWriter(r)
		if k == 0 {
			w.mode = 0
		}
		s := w.file(ts)
		f := filepath.Join(dir, fmt.Sprintf("f%d.c", k))
		must(os.WriteFile(f, []byte(s), 0o644))
		out, errOut, code := generate(dir, "-src-path", f, "-directive-map-name", "ds", "-match-func-name", "M")
		c.Desc("source", s)
		if code != 0 {
			c.Failf("status %d: %s", code, errOut)
		}
		if k == 0 {
			first = out
		} else if out != first {
			c.Failf("the output depends on the layout:\n%s\n%s", first, out)
		}
		c.Note("layouts")
	}
	c.Sig("layout", fmt.Sprint(len(ts)))
}

var badFlags = []string{"NGX_CONF_TAKE8", "NGX_CONF_TAKE", "ngx_conf_take1", "NGX_HTTP_MAIN_CONFX", "XNGX_HTTP_MAIN_CONF", "NGX_CONF_TAKE14", "FAKE_BITMASK", "0", "ngxConfTake1", "NGX_CONF_MULTI", "NGX_HTTP_MAIN_CON"}

func badSourceCase(c *C) {
	r := c.R
	dir, done := scratch()
	defer done()
	if r.P(1, 6) { // what is missing
		must(os.WriteFile(filepath.Join(dir, "a.c"), []byte(newCWriter(r).file([]cTable{{name: "x", defs: []cDef{genDef(r)}}})), 0o644))
		args := map[string]string{"-src-path": "a.c", "-directive-map-name": "ds", "-match-func-name": "M"}
		switch k := pick(r, sortedKeys(args)); r.N(3) {
		case 0:
			delete(args, k)
		case 1:
			args[k] = ""
		default:
			args["-src-path"] = "nothing"
		}
		var l []string
		for _, k := range sortedKeys(args) {
			l = append(l, k+"="+args[k])
		}
		c.Desc("args", l)
		out, errOut, code := generate(dir, l...)
		if code == 0 || out != "" || errOut == "" {
			c.Failf("status %d, output %q, error output %q", code, out, errOut)
		}
		c.Note("missing arguments")
		return
	}
	if r.P(1, 12) {
		unreadableCase(c, dir)
		return
	}
	t := genCTree(r)
	p := pick(r, []string{"a.c", "k/x.c", "zz.cpp"})
	ts := genTables(r, 3)
	ts = append(ts, cTable{name: "bad", defs: []cDef{genDef(r)}})
	tb := &ts[r.N(len(ts))]
	bad := genDef(r)
	bad.flags[r.N(len(bad.flags))] = pick(r, badFlags)
	if r.P(1, 3) {
		bad.flags = append(bad.flags, pick(r, refFlagNames))
	}
	at := r.N(len(tb.defs) + 1)
	tb.defs = append(tb.defs[:at:at], append([]cDef{bad}, tb.defs[at:]...)...)
	t.files[p] = newCWriter(r).file(ts)
	t.write(filepath.Join(dir, "src"))
	c.Desc("files", t.files)
	out, errOut, code := generate(dir, "-src-path", "src", "-directive-map-name", "ds", "-match-func-name", "M")
	if code == 0 || errOut == "" {
		c.Failf("status %d although a flag of %v is not known:\n%s", code, bad, out)
	}
	if out != "" {
		c.Failf("output although a flag of %v is not known:\n%s", bad, out)
	}
	c.Note("unknown flags")
	c.Sig("bad", fmt.Sprint(bad.flags))
}

// unreadableCase has sources of which a part cannot be read.
func unreadableCase(c *C, dir string) {
	r := c.R
	src := filepath.Join(dir, "src")
	mk := func(name string) string {
		return newCWriter(r).file([]cTable{{name: "t", defs: []cDef{{name: name, flags: []string{"NGX_CONF_TAKE1", "NGX_HTTP_MAIN_CONF"}}}}})
	}
	must(os.MkdirAll(src+"/k", 0o755))
	must(os.WriteFile(src+"/"+pick(r, []string{"a.c", "z.c", "k/a.c"}), []byte(mk("seen")), 0o644))
	kind := ""
	if r.Bool() {
		kind = "a file that cannot be opened"
		must(os.Symlink("nowhere", src+"/"+pick(r, []string{"b.c", "b.cpp", "k/b.c"})))
	} else {
		kind = "a directory whose path is too long"
		fd, err := syscall.Open(src, syscall.O_RDONLY|syscall.O_DIRECTORY|syscall.O_CLOEXEC, 0)
		must(err)
		name := strings.Repeat("d", 250)
		for i := 0; i < 18; i++ {
			must(syscall.Mkdirat(fd, name, 0o755))
			next, err := syscall.Openat(fd, name, syscall.O_RDONLY|syscall.O_DIRECTORY|syscall.O_CLOEXEC, 0)
			must(err)
			must(syscall.Close(fd))
			fd = next
		}
		file, err := syscall.Openat(fd, "deep.c", syscall.O_CREAT|syscall.O_WRONLY|syscall.O_CLOEXEC, 0o644)
		must(err)
		_, err = syscall.Write(file, []byte(mk("unseen")))
		must(err)
		must(syscall.Close(file))
		must(syscall.Close(fd))
	}
	out, errOut, code := generate(dir, "-src-path", "src", "-directive-map-name", "ds", "-match-func-name", "M")
	if strings.Contains(out, "unseen") {
		c.Note("read all the same")
		return
	}
	if code == 0 || errOut == "" || out != "" {
		c.Failf("%s: status %d, error output %q, output:\n%s", kind, code, errOut, out)
	}
	c.Note("unreadable sources")
	c.Sig("unreadable", kind)
}

// A genSetup is a way to call the generator.
type genSetup struct {
	tree     *cTree
	mapName  string
	fnName   string
	comment  string
	filter   []string
	override map[string][][]string
	flags    []string          // arguments
	opts     [][2]string       // the same, as names and values
	conf     map[string]any    // config file, if any
	desc     map[string]string // for reports
}

var fnComments = []string{
	"", "M is a MatchFunc.", "with <html> & \"quotes\" 'q' `b`", "*/ /* { }", "{{.MatchFnName}}", "über ☃", "two\nlines", "three\n\nlines\nvar x = 1", "  spaces  in", "// slashes", "100%s %d", `back\slash \n`, "a | b , c : d",
}

func genMasks(r *Rand) (ms [][]string) {
	for k := r.Range(1, 3); k > 0; k-- {
		var m []string
		for j := r.Range(1, 4); j > 0; j-- {
			m = append(m, pick(r, refMaskNames))
		}
		ms = append(ms, m)
	}
	return ms
}

func genSetupCase(r *Rand, suffix string) *genSetup {
	g := &genSetup{tree: genCTree(r), override: map[string][][]string{}}
	g.tree.tables["main.c"] = []cTable{{name: "t", defs: []cDef{genDef(r), genDef(r), {name: "always", flags: []string{"NGX_CONF_NOARGS"}}}}}
	g.tree.files["main.c"] = newCWriter(r).file(g.tree.tables["main.c"])
	names := sortedKeys(g.tree.want())
	anyName := func() string {
		if r.P(1, 5) {
			return pick(r, []string{"absent", "decoy_a", "", "Always", "always "})
		}
		return pick(r, names)
	}
	overName := func() string {
		for {
			if n := strings.TrimSpace(anyName()); n != "" {
				return n
			}
		}
	}
	mk := func() (filter []string, over map[string][][]string) {
		for k := r.N(4); k > 0; k-- {
			filter = append(filter, anyName())
		}
		over = map[string][][]string{}
		for k := r.N(4); k > 0; k-- {
			over[overName()] = genMasks(r)
		}
		return filter, over
	}
	name := func(first string) string {
		return first + pick(r, []string{"", "X", "_1", "é", "LongName"}) + suffix
	}
	var confFilter []string
	confOver := map[string][][]string{}
	if r.P(2, 3) {
		g.conf = map[string]any{}
		if r.Bool() {
			g.mapName = name("m")
			g.conf["directiveMapName"] = g.mapName
		}
		if r.Bool() {
			g.fnName = name("F")
			g.conf["matchFuncName"] = g.fnName
		}
		if r.Bool() {
			g.comment = pick(r, fnComments)
			g.conf["matchFuncComment"] = g.comment
		}
		confFilter, confOver = mk()
		if len(confFilter) > 0 || r.Bool() {
			g.conf["filter"] = append([]string{}, confFilter...)
			g.filter = confFilter
		}
		if len(confOver) > 0 || r.Bool() {
			g.conf["override"] = confOver
			g.override = confOver
		}
		if r.P(1, 4) {
			g.conf["other"] = 1
		}
	}
	flag := func(k, v string) {
		g.opts = append(g.opts, [2]string{k, v})
		switch r.N(4) {
		case 0:
			g.flags = append(g.flags, "-"+k, v)
		case 1:
			g.flags = append(g.flags, "--"+k, v)
		case 2:
			g.flags = append(g.flags, "-"+k+"="+v)
		default:
			g.flags = append(g.flags, "--"+k+"="+v)
		}
	}
	flag("src-path", "src")
	if g.mapName == "" || r.P(1, 3) {
		g.mapName = name("n")
		flag("directive-map-name", g.mapName)
	}
	if g.fnName == "" || r.P(1, 3) {
		g.fnName = name("G")
		flag("match-func-name", g.fnName)
	}
	if r.P(1, 3) {
		if s := pick(r, fnComments); s != "" {
			g.comment = s
			flag("match-func-comment", s)
		}
	}
	if r.Bool() {
		filter, over := mk()
		if len(filter) > 0 {
			g.filter = filter
			for _, f := range filter {
				flag("filter", f)
			}
		}
		if len(over) > 0 {
			g.override = over
			sp := func() string { return pick(r, []string{"", "", "", " ", "\t"}) }
			for _, n := range sortedKeys(over) {
				if r.P(1, 5) { // the last one counts
					flag("override", n+":ngxAnyConf|ngxConfExpr")
				}
				s := sp() + n + sp() + ":"
				for k, m := range over[n] {
					if k > 0 {
						s += ","
					}
					for j, b := range m {
						if j > 0 {
							s += "|"
						}
						s += sp() + b + sp()
					}
				}
				flag("override", s)
			}
		}
	}
	if g.conf != nil {
		flag("config-path", "conf.json")
	}
	return g
}

func (g *genSetup) want() map[string][]uint64 {
	m := g.tree.want()
	for _, f := range g.filter {
		delete(m, f)
	}
	for n, ms := range g.override {
		if _, ok := m[n]; ok {
			var l []uint64
			for _, mk := range ms {
				var bits uint64
				for _, b := range mk {
					bits |= refMasks[b]
				}
				l = append(l, bits)
			}
			m[n] = l
		}
	}
	return m
}

// run calls the generator and judges its output.
func (g *genSetup) run(c *C, dir string) string {
	g.tree.write(filepath.Join(dir, "src"))
	if g.conf != nil {
		b, err := json.MarshalIndent(g.conf, "", " ")
		must(err)
		must(os.WriteFile(filepath.Join(dir, "conf.json"), b, 0o644))
		c.Desc("config file", string(b))
	}
	c.Desc("arguments", g.flags)
	c.Desc("files", g.tree.files)
	out, errOut, code := generate(dir, g.flags...)
	if code != 0 {
		c.Failf("status %d: %s", code, errOut)
	}
	c.Desc("output", out)
	f, err := readGenerated(out, g.mapName, g.fnName)
	if err != nil {
		c.Failf("the output is not readable: %v", err)
	}
	if d := diffMasks(f.masks, g.want()); d != "" {
		c.Failf("%s", d)
	}
	if trimLines(f.comment) != trimLines(g.comment) {
		c.Failf("comment %q, want %q", f.comment, g.comment)
	}
	if again, _, _ := generate(dir, g.flags...); again != out {
		c.Failf("another output of the same call:\n%s", again)
	}
	c.Note("generated files")
	c.NoteIf(len(g.filter) > 0, "with filter")
	c.NoteIf(len(g.override) > 0, "with override")
	c.NoteIf(g.comment != "", "with comment")
	c.NoteIf(g.conf != nil, "with config file")
	return out
}

func trimLines(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimSpace(ls[i])
	}
	return strings.Join(ls, "\n")
}

func configCase(c *C) {
	dir, done := scratch()
	defer done()
	g := genSetupCase(c.R, "")
	g.run(c, dir)
	c.Sig("config", fmt.Sprint(len(g.filter), len(g.override), g.comment, g.conf != nil, len(g.flags)))
	c.Sample(func() string { return fmt.Sprint(g.flags, g.conf) })
}

var badOverrides = []string{"", "a", "a:", ":ngxConfFlag", "a: ", " :b", "a:b||c", "a:b|", "a:|b", "a:,b", "a:b,", "a:b,,c", "a: | "}

func badConfigCase(c *C) {
	r := c.R
	dir, done := scratch()
	defer done()
	must(os.WriteFile(filepath.Join(dir, "a.c"), []byte(newCWriter(r).file([]cTable{{name: "x", defs: []cDef{genDef(r)}}})), 0o644))
	args := []string{"-src-path=a.c", "-directive-map-name=m", "-match-func-name=F"}
	switch k := c.Idx % (len(badOverrides) + 6); {
	case k < len(badOverrides):
		args = append(args, "-override="+badOverrides[k])
	case k == len(badOverrides):
		args = append(args, "-config-path=absent")
	default:
		s := []string{"", "{", `{"filter": 1}`, `{"override": {"a": 1}}`, `[]`}[k-len(badOverrides)-1]
		must(os.WriteFile(filepath.Join(dir, "c.json"), []byte(s), 0o644))
		args = append(args, "-config-path=c.json")
		c.Desc("config file", s)
	}
	c.Desc("arguments", args)
	out, errOut, code := generate(dir, args...)
	if code == 0 || errOut == "" || out != "" {
		c.Failf("status %d, output %q, error output %q", code, out, errOut)
	}
	c.Note("bad configurations")
	c.Sig("badconf", fmt.Sprint(args))
}

// compileCase compiles generated files in the package, and calls their functions.
func compileCase(c *C) {
	r := c.R
	repo := os.Getenv("VMON_REPO")
	dir, done := scratch()
	defer done()
	n := 40
	overlay := map[string]string{}
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\n\tcp \"github.com/nginxinc/nginx-go-crossplane\"\n)\n\n")
	main.WriteString("func main() {\n\tfor _, f := range []struct{ f cp.MatchFunc; names []string }{\n")
	wants := make([]map[string][]uint64, n)
	probes := make([][]string, n)
	for k := 0; k < n; k++ {
		g := genSetupCase(r, fmt.Sprintf("Vmon%d", k))
		sub := filepath.Join(dir, fmt.Sprint("g", k))
		sc := &C{R: r, Idx: c.Idx, Tier: c.Tier, Stream: c.Stream, w: c.w}
		func() {
			defer func() {
				if p := recover(); p != nil {
					c.descs = append(c.descs, sc.descs...)
					panic(p)
				}
			}()
			out := g.run(sc, sub)
			name := filepath.Join(dir, fmt.Sprintf("zz_vmon_%d.go", k))
			must(os.WriteFile(name, []byte(out), 0o644))
			overlay[filepath.Join(repo, filepath.Base(name))] = name
		}()
		wants[k] = g.want()
		probes[k] = append(sortedKeys(g.tree.want()), "absent", "decoy_a", "", "ALWAYS", " always")
		fmt.Fprintf(&main, "\t\t{cp.%s, %#v},\n", g.fnName, probes[k])
	}
	main.WriteString("\t} {\n\t\tout := map[string]interface{}{}\n\t\tfor _, n := range f.names {\n\t\t\tif ms, ok := f.f(n); ok {\n\t\t\t\tout[n] = ms\n\t\t\t}\n\t\t}\n\t\tb, _ := json.Marshal(out)\n\t\tfmt.Println(string(b))\n\t}\n}\n")
	prog := filepath.Join(dir, "prog")
	must(os.MkdirAll(prog, 0o755))
	must(os.WriteFile(filepath.Join(prog, "main.go"), []byte(main.String()), 0o644))
	must(os.WriteFile(filepath.Join(prog, "go.mod"), []byte("module prog\n\ngo 1.23\n\nrequire github.com/nginxinc/nginx-go-crossplane v0.0.0\n\nreplace github.com/nginxinc/nginx-go-crossplane => "+repo+"\n"), 0o644))
	b, err := json.Marshal(map[string]interface{}{"Replace": overlay})
	must(err)
	must(os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644))
	build := exec.Command("go", "build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", filepath.Join(dir, "prog.bin"), ".")
	build.Dir = prog
	build.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
	if out, err := build.CombinedOutput(); err != nil {
		msg := string(out)
		for base := range overlay {
			if f := filepath.Base(base); strings.Contains(msg, f) {
				src, _ := os.ReadFile(overlay[base])
				c.Desc(f, string(src))
				c.Failf("the generated file does not compile: %v\n%s", err, msg)
			}
		}
		noVerdict(msg)
	}
	out, err := exec.Command(filepath.Join(dir, "prog.bin")).Output()
	if err != nil {
		c.Failf("%v", err)
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if len(lines) != n {
		c.Failf("%d lines of output", len(lines))
	}
	for k, l := range lines {
		var got map[string][]uint64
		must(json.Unmarshal([]byte(l), &got))
		if d := diffMasks(got, wants[k]); d != "" {
			c.Failf("match function %d: %s", k, d)
		}
		c.Note("match functions called")
		c.NoteN("names matched", len(probes[k]))
	}
	c.Evals(n)
	c.Sig("compile", fmt.Sprint(c.Idx))
}

// fnSets are the sets behind the match functions that the committed configurations name.
var fnSets = map[string]string{
	"MatchAppProtectWAFv4": "app_protect_v4", "MatchAppProtectWAFv5": "app_protect_v5", "MatchGeoip2Latest": "geoip2",
	"MatchHeadersMoreLatest": "headers_more", "MatchLuaLatest": "lua", "MatchNjsLatest": "njs", "MatchOtelLatest": "otel",
	"MatchNginxPlusR33": "plus_r33", "MatchNginxPlusR34": "plus_r34", "MatchNginxPlusR35": "plus_r35", "MatchNginxPlusR36": "plus_r36",
	"MatchNginxPlusR37": "plus_r37", "MatchNginxPlusLatest": "plus_latest", "MatchOss124": "oss_124", "MatchOss126": "oss_126", "MatchOssLatest": "oss_latest",
}

// A setConfig is a committed configuration of the generator.
type setConfig struct {
	path     string
	MapName  string                `json:"directiveMapName"`
	FnName   string                `json:"matchFuncName"`
	Filter   []string              `json:"filter"`
	Override map[string][][]string `json:"override"`
}

var setConfigs []*setConfig

func configsSetup() error {
	if err := generateSetup(); err != nil {
		return err
	}
	loadTables()
	dir := filepath.Join(os.Getenv("VMON_REPO"), "scripts/generate/configs")
	files, err := filepath.Glob(dir + "/*.json")
	if err != nil || len(files) == 0 {
		return fmt.Errorf("no configurations in %s (%v)", dir, err)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		c := &setConfig{path: f}
		if json.Unmarshal(b, c) != nil || bundled[fnSets[c.FnName]] == nil {
			continue // what the generator makes of it is judged below, where there is a set for it
		}
		setConfigs = append(setConfigs, c)
	}
	return nil
}

// flagsOf writes a mask with flags of nginx, if it can be.
func flagsOf(r *Rand, mask uint64) (flags []string, rest uint64) {
	rest = mask
	names := append([]string{}, refFlagNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names {
		if b := refMasks[refFlags[n]]; b != 0 && mask&b == b && rest&b != 0 {
			flags = append(flags, n)
			rest &^= b
		}
	}
	return flags, rest
}

// setTree writes sources that define what a bundled set has, and anything for what its configuration filters or overrides.
func setTree(c *C, cfg *setConfig) (t *cTree, live map[string][]uint64) {
	r := c.R
	match := bundled[fnSets[cfg.FnName]]
	live = map[string][]uint64{}
	names := append(append(append([]string{}, allNames...), cfg.Filter...), sortedKeys(cfg.Override)...)
	for _, n := range names {
		if ms, ok := match(n); ok && live[n] == nil {
			live[n] = []uint64{}
			for _, m := range ms {
				live[n] = append(live[n], uint64(m))
			}
		}
	}
	t = &cTree{files: map[string]string{}, tables: map[string][]cTable{}, notes: map[string]bool{}}
	parts := make([][]cDef, r.Range(1, 5))
	add := func(ds ...cDef) {
		k := r.N(len(parts))
		parts[k] = append(parts[k], ds...)
	}
	seen := map[string]bool{}
	for _, n := range names {
		if seen[n] {
			continue
		}
		seen[n] = true
		_, over := cfg.Override[n]
		filtered := false
		for _, f := range cfg.Filter {
			filtered = filtered || f == n
		}
		switch {
		case over || filtered: // whatever the sources say
			k := r.Range(1, 3)
			if filtered && r.P(1, 4) {
				k = 0
			}
			for ; k > 0; k-- {
				d := genDef(r)
				d.name = n
				add(d)
			}
			c.NoteIf(over, "overridden")
			c.NoteIf(filtered, "filtered")
		default:
			var ds []cDef
			for _, m := range live[n] {
				fs, rest := flagsOf(r, m)
				if rest != 0 || len(fs) == 0 {
					c.Failf("%s has the bits %x, of which %x cannot come from sources, and no override", n, m, rest)
				}
				ds = append(ds, cDef{name: n, flags: fs})
			}
			add(ds...)
		}
	}
	for k, ds := range parts {
		p := fmt.Sprintf("%s%d%s", pick(r, []string{"", "src/", "src/http/", "z/"}), k, pick(r, []string{".c", ".cpp"}))
		w := newCWriter(r)
		if r.Bool() {
			w.mode = 0
		}
		t.files[p] = w.file([]cTable{{name: fmt.Sprintf("commands_%d", k), defs: ds}})
	}
	c.NoteN("definitions", len(live))
	return t, live
}

// sortMasks forgets the order of definitions.
func sortMasks(m map[string][]uint64) map[string][]uint64 {
	for _, ms := range m {
		sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
	}
	return m
}

// regenerateCase generates a bundled set again, with its committed configuration, from sources that define what is in the set.
func regenerateCase(c *C) {
	cfg := setConfigs[c.Idx%len(setConfigs)]
	c.Desc("configuration", cfg.path)
	t, live := setTree(c, cfg)
	dir, done := scratch()
	defer done()
	t.write(filepath.Join(dir, "src"))
	args := []string{"-src-path=src", "-config-path=" + cfg.path}
	out, errOut, code := generate(dir, args...)
	if code != 0 {
		c.Failf("status %d: %s", code, errOut)
	}
	f, err := readGenerated(out, cfg.MapName, cfg.FnName)
	if err != nil {
		c.Desc("output", out)
		c.Failf("the output is not readable: %v", err)
	}
	if d := diffMasks(sortMasks(f.masks), sortMasks(live)); d != "" {
		c.Failf("generated again: %s", d)
	}
	c.Note("sets generated again")
	c.Sig(cfg.FnName, fmt.Sprint(len(t.files), len(errOut)))
	c.Sample(func() string {
		return fmt.Sprintf("%s: %d directives from %d files", cfg.path, len(live), len(t.files))
	})
}

func generateSetup() error {
	if os.Getenv("VMON_GENERATE") == "" {
		return errors.New("VMON_GENERATE is not set")
	}
	return nil
}

func init() {
	register(&Check{
		ID: "C26", Level: "exploration", Setup: generateSetup,
		Rule: "extract: trees of C and C++ files, with other files, written from known tables as C tokens with any white space, line breaks and comments (which contain tables, quotes and ends of comments) between them, among other code; the generated Go file is read with go/parser and compared with the tables; layout: the same tables in five layouts give the same output; bad: an unknown flag at any place, no directives, missing arguments; many: hundreds of tables, directives and files, files of megabytes. Distinct: layout features, sizes, flags.",
		Streams: []Stream{
			{Name: "extract", Quick: 8000, Thorough: 80000, Run: extractCase},
			{Name: "layout", Quick: 1000, Thorough: 8000, Run: cLayoutCase},
			{Name: "bad", Quick: 2000, Thorough: 15000, Run: badSourceCase},
			{Name: "many", Quick: 60, Run: manySources},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "tables compared": 1000, "directives compared": 5000, "block comment": 400, "line comment": 400, "comment over lines": 100, "sized table": 100, "condition": 200, "flags over lines": 100, "table in other file": 100, "directives with several definitions": 300, "unknown flags": 300, "sources without directives": 50, "missing arguments": 30, "unreadable sources": 50, "layouts": 1000},
		Assume:  []string{"tables are initializers of arrays of ngx_command_t with literal names and flags joined by |; no line continuations, raw strings or macros that hide them; files end in .c or .cpp"},
	})
	register(&Check{
		ID: "C27", Level: "exploration", Setup: generateSetup,
		Rule: "config: filters, overrides, names and comments from flags, from the config file and from both, compared with the tables of the sources after them; equal calls give equal output; compile: forty generated files at a time are compiled in the package through an overlay, and their functions called with all names and others; badconf: malformed overrides and config files end in an error; many: hundreds of filters, overrides and masks. Distinct: combinations of settings.",
		Streams: []Stream{
			{Name: "config", Quick: 5000, Thorough: 40000, Run: configCase},
			{Name: "compile", Quick: 16, Thorough: 160, Run: compileCase},
			{Name: "badconf", Quick: 60, Thorough: 200, Run: badConfigCase},
			{Name: "many", Quick: 60, Run: manySettings},
		},
		MinNote: map[string]int{"crowds of a hundred": 10, "generated files": 1000, "with filter": 300, "with override": 300, "with comment": 300, "with config file": 500, "match functions called": 200, "names matched": 1000, "bad configurations": 50},
		Assume:  []string{"names are Go identifiers not used in the package, overrides have masks that exist in it"},
	})
	register(&Check{
		ID: "C29", Level: "exploration", Setup: configsSetup,
		Rule: "sets: each bundled set that has a configuration under scripts/generate/configs is generated again, with that configuration, from sources written (in any layout, over several files) from what its match function gives, and from any definitions of the names that the configuration filters or overrides; the generated table is compared with the match function. Distinct: sets and numbers of files.",
		Streams: []Stream{
			{Name: "sets", Quick: 320, Thorough: 6400, Run: regenerateCase},
		},
		MinNote: map[string]int{"sets generated again": 150, "definitions": 50000, "overridden": 500, "filtered": 500},
		Assume:  []string{"a mask of a bundled set is what its flags add up to; the NGINX sources themselves are not there"},
	})
}
