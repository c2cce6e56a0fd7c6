package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Realistic configs: statements that are valid in their context under the default directives.

type realStmt struct {
	name  string
	args  func(r *Rand) []string
	block string // context of the block, "" for none, "map" for a map-like one
	many  int    // weight
}

func words(ws ...string) func(r *Rand) []string {
	return func(*Rand) []string { return ws }
}

func oneOf(ws ...string) func(r *Rand) []string {
	return func(r *Rand) []string { return []string{pick(r, ws)} }
}

var realGrammar = map[string][]realStmt{
	"main": {
		{name: "worker_processes", args: oneOf("1", "4", "auto")},
		{name: "user", args: func(r *Rand) []string { return []string{"nginx", "www-data"}[:1+r.N(2)] }},
		{name: "pid", args: oneOf("/run/nginx.pid")},
		{name: "daemon", args: oneOf("on", "off", "ON", "Off")},
		{name: "error_log", args: func(r *Rand) []string { return []string{"/var/log/e.log", "warn"}[:1+r.N(2)] }},
		{name: "load_module", args: oneOf("modules/ngx_http_js_module.so", "a b.so")},
		{name: "events", args: words(), block: "events"},
		{name: "http", args: words(), block: "http", many: 6},
		{name: "stream", args: words(), block: "stream", many: 2},
	},
	"events": {
		{name: "worker_connections", args: oneOf("512", "1024")},
		{name: "use", args: oneOf("epoll")},
		{name: "multi_accept", args: oneOf("on", "off")},
	},
	"http": {
		{name: "sendfile", args: oneOf("on", "off")},
		{name: "keepalive_timeout", args: func(r *Rand) []string { return []string{"65", "60s"}[:1+r.N(2)] }},
		{name: "log_format", args: func(r *Rand) []string {
			return []string{"main", `$remote_addr - $remote_user [$time_local] "$request" `, "${status} $body_bytes_sent;", "'x'"}[:2+r.N(3)]
		}},
		{name: "access_log", args: oneOf("off", "/var/log/a b.log")},
		{name: "map", args: words("$http_upgrade", "$connection_upgrade"), block: "map"},
		{name: "geo", args: words("$geo"), block: "map"},
		{name: "types", args: words(), block: "map"},
		{name: "split_clients", args: words("${remote_addr}AAA", "$variant"), block: "map"},
		{name: "upstream", args: oneOf("backend", "b2"), block: "http_upstream", many: 2},
		{name: "server", args: words(), block: "server", many: 6},
		{name: "limit_req_zone", args: words("$binary_remote_addr", "zone=one:10m", "rate=1r/s")},
		{name: "gzip", args: oneOf("on", "off")},
	},
	"http_upstream": {
		{name: "server", args: func(r *Rand) []string { return []string{"127.0.0.1:80", "weight=5", "backup"}[:1+r.N(3)] }, many: 3},
		{name: "keepalive", args: oneOf("16")},
		{name: "ip_hash", args: words()},
		{name: "zone", args: words("z", "64k")},
	},
	"server": {
		{name: "listen", args: func(r *Rand) []string { return []string{"443", "ssl", "default_server"}[:1+r.N(3)] }, many: 2},
		{name: "server_name", args: func(r *Rand) []string { return []string{"a.com", "*.b.com", `~^(?<x>\d+)\.c$`, ""}[:1+r.N(4)] }},
		{name: "root", args: oneOf("/srv/www", "/srv/${host}/x", "C:/x y")},
		{name: "location", args: func(r *Rand) []string {
			return pick(r, [][]string{{"/"}, {"=", "/x"}, {"~*", `\.(gif|jpg)$`}, {"~", `^/{3}[a-z]{2,3}$`}, {"@named"}, {"^~", "/a b"}})
		}, block: "location", many: 6},
		{name: "if", args: realCond, block: "srvif", many: 2},
		{name: "return", args: func(r *Rand) []string { return []string{"301", "https://$host$request_uri"}[:1+r.N(2)] }},
		{name: "rewrite", args: words(`^/(.*)\;$`, "/x/$1", "last")},
		{name: "error_page", args: words("500", "502", "/50x.html")},
		{name: "set", args: words("$a", `"q" 'z' ; {`)},
	},
	"location": {
		{name: "proxy_pass", args: oneOf("http://backend", "http://$x${y}/")},
		{name: "proxy_set_header", args: words("Host", "$host")},
		{name: "try_files", args: words("$uri", "$uri/", "=404")},
		{name: "add_header", args: words("X-Y", `a "b"; c`, "always")},
		{name: "location", args: oneOf("/nested"), block: "location"},
		{name: "if", args: realCond, block: "locif"},
		{name: "limit_except", args: words("GET", "POST"), block: "lmt"},
		{name: "expires", args: oneOf("30d", "off")},
		{name: "deny", args: oneOf("all", "10.0.0.0/8")},
		{name: "internal", args: words()},
		{name: "js_content", args: oneOf("main.hello")},
	},
	"srvif":  {{name: "return", args: oneOf("403")}, {name: "set", args: words("$b", "1")}},
	"locif":  {{name: "return", args: oneOf("403")}, {name: "break", args: words()}, {name: "proxy_pass", args: oneOf("http://c")}},
	"lmt":    {{name: "deny", args: oneOf("all")}, {name: "allow", args: oneOf("10.1.1.1", "all")}},
	"stream": {{name: "server", args: words(), block: "strsrv", many: 3}, {name: "upstream", args: oneOf("s"), block: "strups"}, {name: "tcp_nodelay", args: oneOf("on", "off")}},
	"strsrv": {{name: "listen", args: func(r *Rand) []string { return []string{"12345", "udp"}[:1+r.N(2)] }}, {name: "proxy_pass", args: oneOf("s", "$x")}, {name: "proxy_timeout", args: oneOf("3s")}},
	"strups": {{name: "server", args: func(r *Rand) []string { return []string{"10.0.0.1:1", "weight=2"}[:1+r.N(2)] }}, {name: "zone", args: words("q", "64k")}},
}

// nested contexts in nginx terms
var realNext = map[string]string{"location": "location"}

func realCond(r *Rand) []string {
	return pick(r, [][]string{{"$a"}, {"$http_user_agent", "~", "MSIE"}, {"$x", "=", "a b"}, {"-f", "$request_filename"}, {"!-e", "/x"}, {"$a", "!=", ""}, {"$y", "~*", `\.(a|b)$`}})
}

// writeAs gives a form of a value: plain if it can be, else (or at random) quoted.
func writeAs(r *Rand, v string) Lex {
	ts := refLex(v)
	plain := len(ts) == 1 && ts[0].Val == v && !ts[0].Quoted && ts[0].Err == "" && !ts[0].Comment && !isSpecial(v) && !strings.HasSuffix(v, "$")
	if plain && strings.Contains(v, "${") { // an open variable takes what follows it
		ts = refLex(v + " x")
		plain = len(ts) == 2 && ts[0].Val == v
	}
	if plain && !r.P(1, 5) {
		return Lex{Src: v, Val: v}
	}
	qs := []string{`"`, "'"}
	if r.Bool() {
		qs = []string{"'", `"`}
	}
	for _, q := range qs {
		if strings.Contains(v, `\`+q) || strings.HasSuffix(v, `\`) {
			continue
		}
		l := Lex{Src: q + strings.ReplaceAll(v, q, `\`+q) + q, Val: v, Quoted: true}
		if ts := refLex(l.Src); len(ts) == 1 && ts[0].Val == v {
			return l
		}
	}
	return Lex{Src: v, Val: v}
}

func realNode(r *Rand, ctx string, depth int) *GNode {
	if r.P(1, 8) {
		s := genComment(r)
		return &GNode{Comment: &s}
	}
	gs := realGrammar[ctx]
	total := 0
	for _, g := range gs {
		total += 1 + g.many
	}
	k := r.N(total)
	var s realStmt
	for _, g := range gs {
		if k -= 1 + g.many; k < 0 {
			s = g
			break
		}
	}
	g := &GNode{Name: quoteMaybe(r, s.name, lexCfg{quoted: r.P(1, 4)})}
	for _, a := range s.args(r) {
		g.Args = append(g.Args, writeAs(r, a))
	}
	g.Want = vals(g.Args)
	if s.name == "if" {
		g.Args = append(append([]Lex{{Src: "(", Val: "("}}, g.Args...), Lex{Src: ")", Val: ")"})
		if !g.Args[1].Quoted && r.Bool() {
			g.Args = g.Args[1:]
			g.Args[0] = Lex{Src: "(" + g.Args[0].Src, Val: "(" + g.Args[0].Val}
		}
		if l := len(g.Args) - 2; !g.Args[l].Quoted && r.Bool() {
			g.Args[l] = Lex{Src: g.Args[l].Src + ")", Val: g.Args[l].Val + ")"}
			g.Args = g.Args[:l+1]
		}
	}
	switch s.block {
	case "":
	case "map":
		g.HasBl = true
		c := &treeCfg{lex: anyLex, comments: true}
		for n := r.Geo(4); n > 0; n-- {
			g.Block = append(g.Block, genParam(r, refMapRules[s.name], c))
		}
	default:
		g.HasBl = true
		if depth < 6 {
			g.Block = realNodes(r, s.block, depth+1)
		}
	}
	return g
}

func realNodes(r *Rand, ctx string, depth int) []*GNode {
	var out []*GNode
	for n := r.Geo(5); n > 0; n-- {
		out = append(out, realNode(r, ctx, depth))
	}
	return out
}

func genReal(r *Rand) []*GNode {
	out := realNodes(r, "main", 0)
	for n := 1 + r.N(3); n > 0; n-- {
		out = append(out, realNode(r, "main", 0))
	}
	return out
}

// ---- sets of files ----

type worldCfg struct {
	errs   bool // invalid statements, missing files, broken files
	cycles bool
	soup   bool // some files have hostile text
	plain  bool // plain rendering
	noGlob bool
}

type world struct {
	files map[string]string
	main  string
	ctxOf map[string]string
}

type planned struct {
	path string
	ctx  string
}

var worldDirs = []string{"/c", "/c/conf.d", "/c/conf.d/sub", "/c/sites", "/etc/other"}

// genWorld makes a main file and files that include each other.
func genWorld(r *Rand, cfg worldCfg) *world {
	w := &world{files: map[string]string{}, main: "/c/main", ctxOf: map[string]string{}}
	ctxs := []string{"main", "http", "http", "server", "server", "location", "events", "http_upstream", "stream"}
	n := 1 + r.N(7)
	plan := []planned{{"/c/main", "main"}}
	for i := 1; i < n; i++ {
		p := fmt.Sprintf("%s/%s%d.conf", pick(r, worldDirs), pick(r, []string{"a", "b", "x"}), r.N(12))
		if _, ok := w.ctxOf[p]; ok {
			continue
		}
		ctx := pick(r, ctxs)
		w.ctxOf[p] = ctx
		plan = append(plan, planned{p, ctx})
	}
	w.ctxOf[w.main] = "main"
	if n > 1 && len(plan) > 1 {
		// the main file should reach contexts
		_ = sort.SearchInts
	}
	for i := len(plan) - 1; i >= 0; i-- {
		p := plan[i]
		var later []planned
		if cfg.cycles && r.P(1, 3) {
			later = plan
		} else {
			later = plan[i+1:]
		}
		var ns []*GNode
		if i == 0 {
			ns = append(realNodes(r, "main", 0), forceBlocks(r)...)
		} else {
			ns = realNodes(r, p.ctx, 2)
		}
		ns = w.addIncludes(r, ns, p.ctx, later, cfg, i == 0)
		st := genStyle(r)
		if cfg.plain {
			st = plainStyle
		}
		if cfg.errs {
			ns = plantBad(r, ns, p.ctx, r.N(3))
		}
		text, _ := render(r, ns, &st)
		if cfg.soup && r.P(1, 6) {
			text = soupCase(r)
		}
		if cfg.errs && r.P(1, 12) {
			text = mutate(r, text)
		}
		w.files[p.path] = text
	}
	return w
}

// forceBlocks makes the blocks in which files are included.
func forceBlocks(r *Rand) []*GNode {
	blk := func(name string, b ...*GNode) *GNode {
		return &GNode{Name: Lex{Src: name, Val: name}, HasBl: true, Block: b}
	}
	loc := blk("location")
	loc.Args = []Lex{{Src: "/", Val: "/"}}
	loc.Want = vals(loc.Args)
	up := blk("upstream")
	up.Args = []Lex{{Src: "u", Val: "u"}}
	up.Want = vals(up.Args)
	return []*GNode{blk("events"), blk("http", up, blk("server", loc), blk("server")), blk("stream")}
}

var ctxOfBlock = map[string]map[string]string{
	"main":   {"events": "events", "http": "http", "stream": "stream"},
	"http":   {"server": "server", "upstream": "http_upstream"},
	"server": {"location": "location", "if": "srvif"}, "location": {"location": "location", "if": "locif", "limit_except": "lmt"},
	"stream": {"server": "strsrv", "upstream": "strups"},
}

// addIncludes puts include statements into nodes, at any depth.
func (w *world) addIncludes(r *Rand, ns []*GNode, ctx string, later []planned, cfg worldCfg, top bool) []*GNode {
	for _, g := range ns {
		if g.HasBl {
			if in := ctxOfBlock[ctx][g.Name.Val]; in != "" {
				g.Block = w.addIncludes(r, g.Block, in, later, cfg, top)
			}
		}
	}
	var cands []planned
	for _, l := range later {
		if l.ctx == ctx || (cfg.errs && r.P(1, 8)) {
			cands = append(cands, l)
		}
	}
	n := 0
	if len(cands) > 0 && r.P(3, 4) {
		n = 1 + r.N(2)
	}
	for ; n > 0; n-- {
		t := pick(r, cands).path
		if cfg.errs && r.P(1, 6) {
			t = pick(r, []string{"/c/none.conf", "none/x.conf", "/c/conf.d/none"})
		}
		if rel, err := filepath.Rel("/c", t); err == nil && r.Bool() && !strings.HasPrefix(rel, "..") {
			t = rel
			if r.P(1, 6) {
				t = "./" + t
			}
		}
		if !cfg.noGlob && r.P(1, 3) {
			// a pattern is only used if all it matches belongs into this context (and keeps the order acyclic)
			pat := pick(r, []string{filepath.Join(filepath.Dir(t), "*.conf"), filepath.Join(filepath.Dir(t), "[ab]*.conf"), filepath.Join(filepath.Dir(t), "x?.conf"), filepath.Join(filepath.Dir(t), "?"+filepath.Base(t)[1:]), filepath.Join(filepath.Dir(t), "nomatch*")})
			if w.globOK(pat, ctx, later, cfg) {
				t = pat
			}
		}
		g := &GNode{Name: quoteMaybe(r, "include", lexCfg{quoted: true}), Args: []Lex{writeAs(r, t)}}
		g.Want = vals(g.Args)
		at := r.N(len(ns) + 1)
		ns = append(ns[:at:at], append([]*GNode{g}, ns[at:]...)...)
	}
	return ns
}

func (w *world) globOK(pat, ctx string, later []planned, cfg worldCfg) bool {
	abs := pat
	if !filepath.IsAbs(pat) {
		abs = filepath.Join("/c", pat)
	}
	allowed := map[string]string{}
	for _, l := range later {
		allowed[l.path] = l.ctx
	}
	for f := range w.ctxOf {
		if ok, _ := filepath.Match(abs, f); ok {
			c, in := allowed[f]
			if (!in && !cfg.cycles) || (c != ctx && !cfg.errs) {
				return false
			}
		}
	}
	return true
}

// badStmts gives statements that are rejected in every known context under the default directives.
func badStmt(r *Rand, ctx string) *GNode {
	mk := func(bad string, name string, block bool, args ...string) *GNode {
		g := &GNode{Name: Lex{Src: name, Val: name}, Bad: bad, HasBl: block}
		for _, a := range args {
			g.Args = append(g.Args, writeAs(r, a))
		}
		g.Want = vals(g.Args)
		return g
	}
	var g *GNode
	switch r.N(7) {
	case 0:
		g = mk("arity", "sendfile", false, "on", "off")
		if ctx == "main" {
			g = mk("arity", "worker_processes", false)
		}
		if ctx == "events" {
			g = mk("arity", "multi_accept", false, "on", "off")
		}
	case 1:
		g = mk("context", "worker_connections", false, "5")
		if ctx == "events" {
			g = mk("context", "listen", false, "80")
		}
	case 2:
		g = mk("block", map[string]string{"main": "worker_processes", "http": "sendfile", "server": "root", "location": "root", "events": "worker_connections"}[ctx], true, "1")
		if g.Name.Val == "" {
			g = mk("context", "worker_processes", true, "1")
		}
	case 3:
		g = mk("context", "http_unplaced", true, "1")
		g.Name = Lex{Src: "events", Val: "events"}
		if ctx == "main" {
			g.Name = Lex{Src: "location", Val: "location"}
		}
	case 4:
		g = mk("noblock", map[string]string{"main": "http", "http": "server", "server": "location", "location": "location"}[ctx], false)
		if g.Name.Val == "" {
			g = mk("context", "location", false, "/x")
		} else if g.Name.Val == "location" {
			g.Args = []Lex{{Src: "/y", Val: "/y"}}
			g.Want = vals(g.Args)
		}
	case 5:
		g = mk("flag", "daemon", false, "maybe")
		if ctx == "events" {
			g = mk("flag", "multi_accept", false, "onn")
		}
		if ctx == "http" || ctx == "server" || ctx == "location" {
			g = mk("flag", "sendfile", false, "maybe")
		}
	default:
		g = mk("context", "worker_connections", true, "5")
		if ctx == "events" {
			g = mk("context", "proxy_pass", true, "x")
		}
	}
	if g.HasBl {
		// whatever is in there is skipped
		g.RawBl = true
		c := defaultTreeCfg(r)
		c.maxDepth = 3
		g.Block = genTree(r, r.N(3), c)
		if r.P(1, 3) {
			g.Block = append(g.Block, badStmtPlain(r))
		}
	}
	return g
}

func badStmtPlain(r *Rand) *GNode {
	return &GNode{Name: Lex{Src: "events", Val: "events"}, Args: []Lex{{Src: "x", Val: "x"}}, Bad: "inner"}
}

// plantBad puts invalid statements into nodes at any depth.
func plantBad(r *Rand, ns []*GNode, ctx string, n int) []*GNode {
	for ; n > 0; n-- {
		// descend into a known block sometimes
		var blocks []*GNode
		for _, g := range ns {
			if g.HasBl && g.Bad == "" && ctxOfBlock[ctx][g.Name.Val] != "" {
				blocks = append(blocks, g)
			}
		}
		if len(blocks) > 0 && r.P(2, 3) {
			g := pick(r, blocks)
			g.Block = plantBad(r, g.Block, ctxOfBlock[ctx][g.Name.Val], 1)
			continue
		}
		if ctx == "srvif" || ctx == "locif" || ctx == "lmt" || ctx == "strsrv" || ctx == "strups" || ctx == "stream" || ctx == "http_upstream" {
			continue
		}
		at := r.N(len(ns) + 1)
		g := badStmt(r, ctx)
		ns = append(ns[:at:at], append([]*GNode{g}, ns[at:]...)...)
	}
	return ns
}

var _ = cp.Parse
