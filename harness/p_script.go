package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// The script scripts/generate/generate.sh, and the go:generate comments that call it.

// gitEnv is the environment of git and of the script.
func gitEnv(tmp string, more ...string) []string {
	env := append(os.Environ(), "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_SYSTEM=/dev/null", "GIT_TERMINAL_PROMPT=0",
		"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@example.com", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@example.com", "TMPDIR="+tmp)
	return append(env, more...)
}

// command runs a program.
func command(dir string, env []string, name string, args ...string) (stdout, stderr string, code int) {
	cmd := exec.Command(name, args...)
	cmd.Dir, cmd.Env = dir, env
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		noVerdict(err.Error())
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

// A gitRepo is a repository in a scratch directory.
type gitRepo struct{ dir, tmp string }

func newGitRepo(dir, tmp string) *gitRepo {
	must(os.MkdirAll(dir, 0o755))
	g := &gitRepo{dir, tmp}
	g.git("init", "-q", "-b", "first")
	return g
}

func (g *gitRepo) git(args ...string) {
	if _, e, code := command(g.dir, gitEnv(g.tmp), "git", args...); code != 0 {
		noVerdict(fmt.Sprintf("git %q: %s", args, e))
	}
}

// commit makes a branch with the files only.
func (g *gitRepo) commit(branch string, files map[string]string) {
	g.git("checkout", "-q", "--orphan", branch)
	g.git("rm", "-rfq", "--ignore-unmatch", ".")
	(&cTree{files: files}).write(g.dir)
	g.git("add", "-A", "-f")
	g.git("commit", "-q", "--allow-empty", "-m", "c")
}

func under(dir string, files map[string]string) map[string]string {
	m := map[string]string{}
	for p, s := range files {
		m[filepath.Join(dir, p)] = s
	}
	return m
}

// leftovers are the names in a directory.
func leftovers(dir string) (names []string) {
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		names = append(names, e.Name())
	}
	return names
}

// scriptNames are the documented spellings of the options.
var scriptNames = map[string][]string{
	"branch": {"-b", "--branch"}, "config-path": {"-c", "--config-path"}, "directive-map-name": {"-d", "--directive-map-name"},
	"match-func-name": {"-mn", "--match-func-name"}, "filter": {"-f", "--filter"}, "override": {"-o", "--override"},
	"match-func-comment": {"-mc", "--match-func-comment"}, "path": {"-p", "--path"}, "url": {"--url"},
}

// setOpt sets an option.
func setOpt(opts [][2]string, name, val string) [][2]string {
	for i, o := range opts {
		if o[0] == name {
			opts[i][1] = val
			return opts
		}
	}
	return append(opts, [2]string{name, val})
}

// scriptCase runs the script on a repository and the command on the same files.
func scriptCase(c *C) {
	r := c.R
	dir, done := scratch()
	defer done()
	tmp := filepath.Join(dir, "tmp")
	must(os.MkdirAll(tmp, 0o755))
	repo := newGitRepo(filepath.Join(dir, pick(r, []string{"repo", "a.git", "x-y"})), tmp)
	g := genSetupCase(r, "")
	if g.conf != nil {
		b, err := json.Marshal(g.conf)
		must(err)
		must(os.WriteFile(filepath.Join(dir, "conf.json"), b, 0o644))
		c.Desc("config file", string(b))
	}
	branch := pick(r, []string{"master", "master", "main", "stable-1.26", "a/b"})
	sub := pick(r, []string{"", "", "src", "./src", "src/http", "src/", "a b/c", "my src", "s'r\"c", "src;x", "$HOME", "-x/src", "a&b", "ü", "src 2/", "a/b/c/d"})
	if r.P(1, 8) {
		sub = "s" + string(pick(r, []rune(" !#$%&'()+,;<=>@^`{|}~\t"))) + "c"
	}
	var opts [][2]string
	opts = append(opts, [2]string{"url", "file://" + repo.dir})
	if branch != "master" || r.P(1, 4) {
		opts = append(opts, [2]string{"branch", branch})
	}
	if sub != "" {
		opts = append(opts, [2]string{"path", sub})
	}
	for _, o := range g.opts {
		switch o[0] {
		case "src-path":
		case "config-path":
			opts = append(opts, [2]string{o[0], filepath.Join(dir, o[1])})
		default:
			opts = append(opts, o)
		}
	}
	// other files of the repository, and other branches
	files := under(sub, g.tree.files)
	other := genCTree(r)
	stray := newCWriter(r).file([]cTable{{name: "stray", defs: []cDef{{name: "stray", flags: []string{"NGX_CONF_NOARGS"}}}}})
	if sub != "" {
		for _, p := range []string{"stray.c", "auto/stray.c", "src.c", "srcs/stray.cpp"} {
			if r.Bool() {
				files[p] = stray
				c.Note("files outside of the path")
			}
		}
	}
	for _, b := range []string{"master", "main", "next"} {
		if b != branch && r.Bool() {
			if r.Bool() {
				repo.commit(b, map[string]string{"stray.c": stray, "src/stray.c": stray})
			} else {
				repo.commit(b, other.files)
			}
			c.Note("other branches")
		}
	}
	bad := ""
	if r.P(1, 4) {
		bad = pick(r, []string{"branch", "path", "url", "option", "sources"})
		switch bad {
		case "branch":
			opts = setOpt(opts, "branch", pick(r, []string{"nobranch", branch + "x", "", ""}))
		case "path":
			opts = setOpt(opts, "path", "src/nopath")
			files["stray.c"] = stray
		case "url":
			opts[0][1] = "file://" + filepath.Join(dir, "norepo")
			if r.Bool() {
				opts = opts[1:]
			}
		case "sources":
			files = map[string]string{filepath.Join(sub, "a.h"): "int a;", filepath.Join(sub, "a.c"): "int a;"}
		}
	}
	repo.commit(branch, files)
	if r.Bool() {
		vals := map[string][]string{} // the order of equal options counts
		for _, o := range opts {
			vals[o[0]] = append(vals[o[0]], o[1])
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		for i, o := range opts {
			opts[i][1] = vals[o[0]][0]
			vals[o[0]] = vals[o[0]][1:]
		}
	}
	args := []string{filepath.Join(os.Getenv("VMON_REPO"), "scripts/generate/generate.sh")}
	order := map[string][]string{}
	for _, o := range opts {
		order[o[0]] = append(order[o[0]], o[1])
		args = append(args, pick(r, scriptNames[o[0]]), o[1])
	}
	if bad == "option" {
		args = append(args, "--unknown")
	}
	c.Desc("arguments", args)
	c.Desc("files", files)
	out, errOut, code := command(os.Getenv("VMON_REPO"), gitEnv(tmp), "bash", args...)
	c.Desc("output", out)
	c.Desc("error output", errOut)
	if left := leftovers(tmp); len(left) > 0 {
		c.Failf("left behind: %q", left)
	}
	if bad != "" {
		if code == 0 {
			c.Failf("status 0 although %s", bad)
		}
		if strings.Contains(out, "package") {
			c.Failf("code was generated although %s", bad)
		}
		c.Note("failures")
		c.Note("failure of " + bad)
		c.Sig("bad", bad)
		return
	}
	if code != 0 {
		c.Failf("status %d: %s", code, errOut)
	}
	// the command, with the same options, on the same files
	g.tree.write(filepath.Join(dir, "plain"))
	direct := []string{"-src-path=plain"}
	for _, k := range []string{"config-path", "directive-map-name", "match-func-name", "match-func-comment", "filter", "override"} {
		for _, v := range order[k] {
			direct = append(direct, "-"+k+"="+v)
		}
	}
	want, wantErr, code := generate(dir, direct...)
	if code != 0 {
		c.Failf("the command: status %d: %s", code, wantErr)
	}
	if out != want {
		c.Failf("the command gives another output:\n%s", want)
	}
	f, err := readGenerated(out, g.mapName, g.fnName)
	if err != nil {
		c.Failf("the output is not readable: %v", err)
	}
	if d := diffMasks(f.masks, g.want()); d != "" {
		c.Failf("%s", d)
	}
	c.Note("outputs of the script")
	for k := range order {
		c.Note("option " + k)
	}
	c.Sig(sub, branch, fmt.Sprint(sortedKeys(order)))
	c.Sample(func() string { return fmt.Sprint(args) })
}

var generateRe = regexp.MustCompile(`(?m)^//go:generate .*generate\.sh .*$`)

// A generateLine is a go:generate comment that calls the script.
type generateLine struct{ text, conf, url, branch, path, out string }

var generateLines []generateLine

var lineParts = map[string]*regexp.Regexp{
	"url": regexp.MustCompile(`--url\s+(\S+)`), "conf": regexp.MustCompile(`(?:--config-path|-c)[ =](\S+\.json)`),
	"branch": regexp.MustCompile(`(?:--branch|-b)\s+([^\s">]+)`), "path": regexp.MustCompile(`(?:--path|-p)\s+([^\s">]+)`), "out": regexp.MustCompile(`>\s*([^\s"]+)`),
}

func scriptSetup() error {
	if err := configsSetup(); err != nil {
		return err
	}
	files, _ := filepath.Glob(os.Getenv("VMON_REPO") + "/*.go")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		for _, l := range generateRe.FindAllString(string(b), -1) {
			part := func(k string) string {
				if m := lineParts[k].FindStringSubmatch(l); m != nil {
					return m[1]
				}
				return ""
			}
			g := generateLine{l, part("conf"), part("url"), part("branch"), part("path"), part("out")}
			if g.conf != "" && g.url != "" && g.out != "" {
				generateLines = append(generateLines, g)
			}
		}
	}
	return nil
}

// copyRepo copies the working tree of the repository.
func copyRepo(to string) {
	must(os.MkdirAll(to, 0o755))
	for _, n := range leftovers(os.Getenv("VMON_REPO")) {
		if n == ".git" {
			continue
		}
		if _, e, code := command("/", os.Environ(), "cp", "-a", filepath.Join(os.Getenv("VMON_REPO"), n), to); code != 0 {
			noVerdict("cp: " + e)
		}
	}
}

var varRe = regexp.MustCompile(`^\$\{?(\w+)\}?$`)

// goGenerateCase follows a go:generate comment in a copy of the repository, where the module is one that defines what is in the set.
func goGenerateCase(c *C) {
	if len(generateLines) == 0 {
		return
	}
	r := c.R
	l := generateLines[c.Idx%len(generateLines)]
	c.Desc("comment", l.text)
	var cfg *setConfig
	for _, s := range setConfigs {
		if filepath.Base(s.path) == filepath.Base(l.conf) {
			cfg = s
		}
	}
	if cfg == nil {
		return
	}
	dir, done := scratch()
	defer done()
	tmp, clone := filepath.Join(dir, "tmp"), filepath.Join(dir, "clone")
	must(os.MkdirAll(tmp, 0o755))
	copyRepo(clone)
	t, live := setTree(c, cfg)
	files := under(l.path, t.files)
	if l.path != "" {
		files["stray.c"] = newCWriter(r).file([]cTable{{name: "stray", defs: []cDef{{name: "stray", flags: []string{"NGX_CONF_NOARGS"}}}}})
	}
	repo := newGitRepo(filepath.Join(dir, "repo"), tmp)
	branch := l.branch
	var env []string
	if m := varRe.FindStringSubmatch(branch); m != nil {
		branch = "r" + fmt.Sprint(r.N(50))
		env = append(env, m[1]+"="+branch)
	}
	if branch == "" {
		branch = "master"
	}
	repo.commit(branch, files)
	if m := varRe.FindStringSubmatch(l.url); m != nil {
		env = append(env, m[1]+"=file://"+repo.dir)
	} else {
		env = append(env, "GIT_CONFIG_COUNT=1", "GIT_CONFIG_KEY_0=url.file://"+repo.dir+".insteadOf", "GIT_CONFIG_VALUE_0="+l.url)
	}
	_, errOut, code := command(clone, gitEnv(tmp, env...), "go", "generate", "-run", regexp.QuoteMeta(l.conf), ".")
	if code != 0 {
		c.Failf("go generate: status %d: %s", code, errOut)
	}
	b, err := os.ReadFile(filepath.Join(clone, l.out))
	if err != nil {
		c.Failf("no file was written: %v", err)
	}
	f, err := readGenerated(string(b), cfg.MapName, cfg.FnName)
	if err != nil {
		c.Desc("output", string(b))
		c.Failf("the output is not readable: %v", err)
	}
	if d := diffMasks(sortMasks(f.masks), sortMasks(live)); d != "" {
		c.Failf("generated again: %s", d)
	}
	if left := leftovers(tmp); len(left) > 0 {
		c.Failf("left behind: %q", left)
	}
	if _, e, code := command(clone, os.Environ(), "go", "build", "."); code != 0 {
		c.Failf("the package does not build with the new file: %s", e)
	}
	c.Note("comments followed")
	c.Sig("comment", l.conf)
}

func init() {
	register(&Check{
		ID: "C30", Level: "exploration", Setup: scriptSetup,
		Rule: "script: scratch git repositories with branches and files in and outside of the path; the script with all documented options, in all documented spellings, against the command on the files of that branch and path; failures end in an error, and nothing is left behind; comments: the go:generate comments of the package are followed by go generate in a copy of the repository, with repositories that define what the set has, and the new table is compared with the match function and compiled. Distinct: options, branches and paths; comments.",
		Streams: []Stream{
			{Name: "script", Quick: 160, Thorough: 3000, Run: scriptCase},
			{Name: "comments", Quick: 26, Thorough: 260, Run: goGenerateCase},
		},
		MinNote: map[string]int{"outputs of the script": 60, "failures": 20, "option override": 20, "option match-func-comment": 20, "option filter": 20, "option path": 40},
		Assume:  []string{"git and bash are there; the repositories are local ones"},
	})
}
