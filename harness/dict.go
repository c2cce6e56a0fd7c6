package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The dictionary: words and numbers that the code itself mentions, as fuzzers take them from a program. They go into
// the inputs (values, names, comments, file names, counts, lengths) and into no oracle. Those which the code mentions
// more often than it did when the list literals.txt was made come up most.

//go:embed literals.txt
var knownLiterals string

var (
	dictWords, freshWords []string
	dictInts, freshInts   []int
)

// readLiterals gives the literals of the hand-written code and how often each occurs.
func readLiterals(repo string) []string {
	count := map[string]int{}
	for _, d := range []string{"", "internal/generator", "cmd/generate"} {
		fs, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".gen.go") {
				continue
			}
			t, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.SkipObjectResolution)
			if t == nil || err != nil && t.Decls == nil {
				continue
			}
			ast.Inspect(t, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if x.Tag != nil {
						if x.Type != nil {
							ast.Inspect(x.Type, func(ast.Node) bool { return true })
						}
						return false
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil && len(s) > 0 && len(s) <= 60 {
							count[strconv.Quote(s)]++
						}
					case token.CHAR:
						if s, err := strconv.Unquote(x.Value); err == nil {
							count[strconv.Quote(s)]++
						}
					case token.INT:
						if n, err := strconv.ParseInt(x.Value, 0, 64); err == nil && n > 1 && n <= 1<<24 {
							count[strconv.FormatInt(n, 10)]++
						}
					}
				}
				return true
			})
		}
	}
	var out []string
	for s, n := range count {
		out = append(out, fmt.Sprint(n, " ", s))
	}
	sort.Strings(out)
	return out
}

// loadDict must come to the same end in all processes of a run, so it depends on the code only.
func loadDict() {
	repo := os.Getenv("VMON_REPO")
	if repo == "" {
		repo = "/repo"
	}
	parse := func(s string) (int, string) {
		a, l, _ := strings.Cut(s, " ")
		n, _ := strconv.Atoi(a)
		return n, l
	}
	known := map[string]int{}
	for _, s := range strings.Split(knownLiterals, "\n") {
		n, l := parse(s)
		known[l] = n
	}
	lits := readLiterals(repo)
	if extra := os.Getenv("VMON_DICT"); extra != "" { // for trying the generators
		for _, l := range strings.Split(extra, "\n") {
			lits = append(lits, "1000000 "+l)
		}
	}
	for _, s := range lits {
		count, l := parse(s)
		fresh := count > known[l]
		if n, err := strconv.Atoi(l); err == nil {
			dictInts = append(dictInts, n)
			if fresh {
				freshInts = append(freshInts, n)
			}
			continue
		}
		s, err := strconv.Unquote(l)
		if err != nil || !utf8.ValidString(s) || strings.ContainsAny(s, "\\\r") || strings.Contains(s, "_by_lua") {
			continue
		}
		dictWords = append(dictWords, s)
		if fresh {
			freshWords = append(freshWords, s)
		}
	}
}

func init() { loadDict() }

// dictWord gives a word of the code, or something like it.
func dictWord(r *Rand) string {
	var w string
	switch {
	case len(freshWords) > 0 && r.Bool():
		w = pick(r, freshWords)
	case len(allNames) > 0 && r.P(1, 4) || len(dictWords) == 0:
		w = pick(r, allNames)
	default:
		w = pick(r, dictWords)
	}
	switch r.N(8) {
	case 0:
		if n := near(r, w); !strings.ContainsAny(n, "\\\r") && !strings.Contains(n, "_by_lua") {
			w = n
		}
	case 1:
		w += wordRune(r, false)
	case 2:
		w = wordRune(r, true) + w
	}
	if strings.Contains(w, "_by_lua") {
		return "by_lua"
	}
	return w
}

// dictLex gives a form of such a word.
func dictLex(r *Rand, c lexCfg) (Lex, bool) {
	w := dictWord(r)
	plain := w != ""
	for _, x := range w {
		plain = plain && strings.ContainsRune(plainFirst+"defghijklmnopqrstuvwxyzDEFGHIJKLMNOPQRSTUVWXYZ", x)
	}
	if plain && (!c.quoted || r.P(3, 4)) {
		return Lex{Src: w, Val: w}, true
	}
	if !c.quoted {
		return Lex{}, false
	}
	q := pick(r, []string{`"`, "'"})
	return Lex{Src: q + strings.ReplaceAll(w, q, `\`+q) + q, Val: w, Quoted: true}, true
}

// dictInt gives a number of the code between lo and hi, or one next to it.
func dictInt(r *Rand, lo, hi int) (int, bool) {
	list := dictInts
	if len(freshInts) > 0 && r.P(2, 3) {
		list = freshInts
	}
	for try := 0; try < 4 && len(list) > 0; try++ {
		n := pick(r, list)
		if n = n + r.Range(-1, 2); n >= lo && n <= hi {
			return n, true
		}
	}
	return 0, false
}

// dictFile gives a word that can be a part of a file name anywhere.
func dictFile(r *Rand) string {
	w := strings.Map(func(x rune) rune {
		if strings.ContainsRune("/\x00\n\t*?[]\\", x) {
			return -1
		}
		return x
	}, dictWord(r))
	if w == "" || w == "." || w == ".." || w == "main" {
		return "word"
	}
	return w
}

// dictName gives a word that can be a name anywhere.
func dictName(r *Rand) string {
	w := strings.Map(func(x rune) rune {
		if x == '_' || x == '-' || x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' {
			return x
		}
		return -1
	}, dictWord(r))
	if w == "" || strings.Contains(w, "_by_lua") {
		return "word"
	}
	return w
}
