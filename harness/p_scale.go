package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// deepShapes nest with n; what is built from them is not linear in the depth, because of the indents.
var deepShapes = map[string]func(n int) string{
	"nested blocks":           func(n int) string { return strings.Repeat("a{", n/4) + strings.Repeat("}", n/4) },
	"nested blocks and words": func(n int) string { return strings.Repeat("a b{c;", n/16) + strings.Repeat("d;}", n/16) },
	"nested in http":          func(n int) string { return "http{" + strings.Repeat("x{", n/8) + strings.Repeat("}", n/8) + "}" },
	"nested locations": func(n int) string {
		return "http{server{" + strings.Repeat("location a{", n/16) + strings.Repeat("}", n/16) + "}}"
	},
	"statements in deep block": func(n int) string {
		return strings.Repeat("a{", n/8) + strings.Repeat("b;", n/8) + strings.Repeat("}", n/8)
	},
	"errors in deep block": func(n int) string {
		return strings.Repeat("a{", n/16) + strings.Repeat("map a b{c;d{}}", n/64) + strings.Repeat("}", n/16)
	},
	"includes in deep block": func(n int) string {
		return strings.Repeat("a{", n/16) + strings.Repeat("include a;", n/64) + strings.Repeat("}", n/16)
	},
	"ignored deep block":     func(n int) string { return "ignored{" + strings.Repeat("a{", n/4) + strings.Repeat("}", n/4) + "}" },
	"open blocks":            func(n int) string { return strings.Repeat("a{", n/4) },
	"variable of set_by_lua": func(n int) string { return "set_by_lua_block " + strings.Repeat("x", n) + " {}" },
	"many set_by_lua":        func(n int) string { return strings.Repeat("set_by_lua_block $a {x}", n/64) },
	"lua after spaces":       func(n int) string { return "set_by_lua_block " + strings.Repeat(" \n", n/4) + "x {}" },
	"lua brace after spaces": func(n int) string { return "content_by_lua_block " + strings.Repeat(" \n", n/4) + "{}" },
	"lua dashes":             func(n int) string { return "content_by_lua_block {" + strings.Repeat("- -", n/4) + "}" },
	"lua brackets":           func(n int) string { return "content_by_lua_block {" + strings.Repeat("[=", n/4) + "}" },
	"lua long comments":      func(n int) string { return "content_by_lua_block {" + strings.Repeat("--[[ a ]]", n/16) + "}" },
	"lua level": func(n int) string {
		return "content_by_lua_block {[" + strings.Repeat("=", n/4) + "[" + strings.Repeat("]=", n/4) + "}"
	},
	"errors in arguments":      func(n int) string { return strings.Repeat("listen "+strings.Repeat("a ", 20)+";", n/128) },
	"one error of many words":  func(n int) string { return "user" + strings.Repeat(" b", n/4) + ";" },
	"flags":                    func(n int) string { return strings.Repeat("http{server_tokens maybe;}", n/64) },
	"misplaced":                func(n int) string { return "events{" + strings.Repeat("listen 80;", n/32) + "}" },
	"includes that are not":    func(n int) string { return strings.Repeat("include n;", n/64) },
	"patterns":                 func(n int) string { return strings.Repeat("include /g/*;", n/64) },
	"names":                    func(n int) string { return numbered(n/16, "a%d b;") },
	"parameters":               func(n int) string { return "http{map a b{" + numbered(n/16, "c%d d;") + "}}" },
	"included names":           func(n int) string { return numbered(n/64, "include /d/%d;") },
	"blocks with comments":     func(n int) string { return strings.Repeat("a #c\n b #d\n{ #e\n} #f\n", n/64) },
	"if with comments":         func(n int) string { return strings.Repeat("if (a #c\n b){}", n/64) },
	"repeated ends":            func(n int) string { return "a{" + strings.Repeat("}", n) },
	"escaped quotes in a word": func(n int) string { return "a b" + strings.Repeat(`\"'`, n/4) + ";" },
	"mixed quotes":             func(n int) string { return `a "` + strings.Repeat(`'\"`, n/4) + `";` },
	"variables and spaces":     func(n int) string { return "a " + strings.Repeat("${a b}", n/8) + ";" },
	"one open variable":        func(n int) string { return "a ${" + strings.Repeat(`\}`, n/2) + ";" },
}

func numbered(n int, f string) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, f, i)
	}
	return sb.String()
}

// A scaleOp does work on an input of size n, in steps that are measured on their own.
type scaleOp struct {
	name  string
	steps func(n int, step func(name string, f func()))
}

func textOp(name string, text func(n int) string, deep bool) scaleOp {
	return scaleOp{name, func(n int, step func(string, func())) {
		s := text(n)
		lo := luaOpts()
		step("lex", func() {
			for range cp.LexWithOptions(strings.NewReader(s), lo) {
			}
		})
		o := &cp.ParseOptions{ParseComments: true, IgnoreDirectives: []string{"ignored"}, LexOptions: lo,
			Glob: func(string) ([]string, error) { return []string{"/g/b", "/g/a"}, nil },
			Open: func(p string) (io.ReadCloser, error) {
				if p == "/c/main" {
					return io.NopCloser(strings.NewReader(s)), nil
				}
				if p == "/c/n" {
					return nil, errNotExist
				}
				return io.NopCloser(strings.NewReader("a;")), nil
			}}
		var p, q *cp.Payload
		step("parse", func() { p, _ = cp.Parse("/c/main", o) })
		all := *o
		all.CombineConfigs, all.ErrorOnUnknownDirectives, all.ParseComments = true, true, false
		step("parse strictly", func() { _, _ = cp.Parse("/c/main", &all) })
		stop := *o
		stop.StopParsingOnError, stop.SingleFile = true, true
		step("parse one", func() { _, _ = cp.Parse("/c/main", &stop) })
		if p == nil {
			return
		}
		step("combine", func() { q, _ = p.Combined() })
		step("compare", func() {
			for i := range p.Config[0].Parsed {
				if i < len(q.Config[0].Parsed) {
					_ = p.Config[0].Parsed[i].Equal(q.Config[0].Parsed[i])
				}
			}
		})
		var b []byte
		step("marshal", func() { b, _ = json.Marshal(p) })
		if deep {
			return
		}
		step("build", func() {
			_ = cp.BuildInto(p, &cp.StringsCreator{}, &cp.BuildOptions{Builders: []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}})
		})
		step("unmarshal", func() {
			var r cp.Payload
			_ = json.Unmarshal(b, &r)
		})
	}}
}

var scaleOps = func() (ops []scaleOp) {
	for _, sh := range bigShapes {
		ops = append(ops, textOp(sh.name, sh.text, false))
	}
	for _, n := range sortedKeys(deepShapes) {
		ops = append(ops, textOp(n, deepShapes[n], true))
	}
	hand := func(name string, payload func(n int) *cp.Payload) {
		ops = append(ops, scaleOp{name, func(n int, step func(string, func())) {
			p, q := payload(n), payload(n)
			step("combine", func() { _, _ = p.Combined() })
			for _, bo := range []*cp.BuildOptions{{}, {Header: true, Tabs: true}} {
				step("build", func() { _ = cp.BuildInto(p, &cp.StringsCreator{}, bo) })
			}
			step("marshal", func() { _, _ = json.Marshal(p) })
			step("compare", func() {
				for i, d := range p.Config[0].Parsed {
					_ = d.String()
					_ = d.Equal(q.Config[0].Parsed[i])
				}
			})
		}})
	}
	dirs := func(n int, f func(i int) *cp.Directive) (ds cp.Directives) {
		for i := 0; i < n; i++ {
			ds = append(ds, f(i))
		}
		return ds
	}
	one := func(ds ...*cp.Directive) *cp.Payload {
		return &cp.Payload{Config: []cp.Config{{File: "/a", Parsed: ds}}}
	}
	hand("configs", func(n int) *cp.Payload {
		p := &cp.Payload{}
		for i := 0; i < n/64; i++ {
			p.Config = append(p.Config, cp.Config{File: fmt.Sprint("/", i), Status: "failed", Parsed: cp.Directives{{Directive: "a", Line: i}},
				Errors: []cp.ConfigError{{Error: errInjected}}})
		}
		return p
	})
	hand("included configs", func(n int) *cp.Payload {
		p := &cp.Payload{}
		for i := 0; i < n/64; i++ {
			p.Config = append(p.Config, cp.Config{File: fmt.Sprint("/", i), Parsed: cp.Directives{{Directive: "a", Line: i}}})
		}
		p.Config[0].Parsed = dirs(n/64-1, func(i int) *cp.Directive {
			return &cp.Directive{Directive: "include", Line: i, Args: []string{"x"}, Includes: []int{i + 1}}
		})
		return p
	})
	hand("one include of many", func(n int) *cp.Payload {
		p := one(&cp.Directive{Directive: "include", Args: []string{"x"}})
		for i := 1; i < n/64; i++ {
			p.Config = append(p.Config, cp.Config{File: fmt.Sprint("/", i), Parsed: cp.Directives{{Directive: "a", Line: i}}})
			p.Config[0].Parsed[0].Includes = append(p.Config[0].Parsed[0].Includes, i)
		}
		return p
	})
	hand("comments on one line", func(n int) *cp.Payload {
		return one(dirs(n/16, func(i int) *cp.Directive { s := "c"; return &cp.Directive{Directive: "#", Line: 1, Comment: &s} })...)
	})
	hand("values", func(n int) *cp.Payload {
		return one(dirs(n/64, func(i int) *cp.Directive {
			return &cp.Directive{Directive: "a", Line: i, Args: []string{"a b", "", "\"", "{}", "${a"}}
		})...)
	})
	for i, v := range []string{"a", " ", `"`, `'`, `\`, `\"`, "${", "}", "$", "${a ", "\r", "\n", "#", "\xff", `"'\`, "${a}", `\ `} {
		v := v
		hand(fmt.Sprintf("value of many %q", v), func(n int) *cp.Payload {
			s := strings.Repeat(v, n/len(v))
			d := &cp.Directive{Directive: s, Args: []string{s, "x" + s}, Line: i}
			return one(d, &cp.Directive{Directive: "if", Args: []string{s, s + " "}, Block: cp.Directives{d}}, &cp.Directive{Directive: "#", Comment: &s})
		})
	}
	return ops
}()

func scaleMeasure(op scaleOp, n int) map[string][2]float64 {
	out := map[string][2]float64{}
	op.steps(n, func(name string, f func()) {
		runtime.GC()
		var a, b runtime.MemStats
		var s, e syscall.Rusage
		runtime.ReadMemStats(&a)
		_ = syscall.Getrusage(syscall.RUSAGE_SELF, &s)
		f()
		_ = syscall.Getrusage(syscall.RUSAGE_SELF, &e)
		runtime.ReadMemStats(&b)
		cpu := func(r syscall.Rusage) float64 {
			return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
		}
		m := [2]float64{cpu(e) - cpu(s), float64(b.TotalAlloc-a.TotalAlloc) / (1 << 20)}
		if old, ok := out[name]; ok && old[0] < m[0] {
			m[0] = old[0]
		}
		out[name] = m
	})
	return out
}

const scaleSmall, scaleFactor = 1 << 14, 32

type scaleResult struct {
	Small, Big map[string][2]float64
}

// runScale measures one operation in this process and prints what it took.
func runScale(i int) {
	op := scaleOps[i]
	res := scaleResult{Small: map[string][2]float64{}, Big: map[string][2]float64{}}
	least := func(into, m map[string][2]float64) {
		for k, v := range m {
			if old, ok := into[k]; ok {
				if old[0] < v[0] {
					v[0] = old[0]
				}
				if old[1] < v[1] {
					v[1] = old[1]
				}
			}
			into[k] = v
		}
	}
	scaleMeasure(op, scaleSmall)
	for k := 0; k < 3; k++ {
		least(res.Small, scaleMeasure(op, scaleSmall))
	}
	least(res.Big, scaleMeasure(op, scaleSmall*scaleFactor))
	if worse(res) != "" {
		least(res.Big, scaleMeasure(op, scaleSmall*scaleFactor))
	}
	must(json.NewEncoder(os.Stdout).Encode(res))
}

// worse names the first step whose work grew much more than the input.
func worse(res scaleResult) string {
	for _, k := range sortedKeys(res.Big) {
		s, b := res.Small[k], res.Big[k]
		if b[0] > 0.7+5*scaleFactor*s[0] {
			return fmt.Sprintf("%s: input %d times as large takes %.3f s instead of %.3f s", k, scaleFactor, b[0], s[0])
		}
		if b[1] > 48+4*scaleFactor*s[1] {
			return fmt.Sprintf("%s: input %d times as large allocates %.1f MB instead of %.2f MB", k, scaleFactor, b[1], s[1])
		}
	}
	return ""
}

// scaleCase measures an operation on two sizes in a process of its own.
func scaleCase(c *C) {
	i := c.Idx % len(scaleOps)
	c.Desc("operation", scaleOps[i].name)
	exe, err := os.Executable()
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 34*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "-scale", fmt.Sprint(i+1))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
	if ctx.Err() != nil {
		if cpu > 12*time.Second {
			c.Failf("input of %d pieces: no end after %s of CPU", scaleSmall*scaleFactor, cpu)
		}
		return
	}
	if err != nil {
		s := stderr.String()
		if len(s) > 2000 {
			s = s[:2000]
		}
		c.Failf("the process ended with %v: %s", err, s)
	}
	var res scaleResult
	must(json.Unmarshal(out, &res))
	if w := worse(res); w != "" {
		c.Failf("%s", w)
	}
	c.Note("operations on two sizes")
	c.NoteN("steps on two sizes", len(res.Big))
	c.Evals(len(res.Big))
	c.Sig("scale", scaleOps[i].name)
}
