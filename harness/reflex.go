package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// Reference tokenizer. It is written from the rules of the config syntax as the documentation and the tests of
// the package give them, over "units" (a character, or a backslash with the character after it), and pulls whole
// lexemes where the package has a state machine over characters.

type RTok struct {
	Val     string
	Line    int
	Quoted  bool
	Comment bool
	Err     string // what is wrong, for an error token
	ErrLine int
	Early   bool // the error is the early end of the file
}

type unit struct {
	s    string
	line int // line on which the unit starts
}

// units decodes text: CRs are dropped, a backslash belongs to the next character. dangling is true for a
// backslash at the end; endLine is the line of the end of the text.
func units(text string) (us []unit, dangling bool, endLine int) {
	line := 1
	esc := false
	escLine := 1
	for i := 0; i < len(text); {
		r, n := utf8.DecodeRuneInString(text[i:])
		s := text[i : i+n]
		if r == utf8.RuneError && n == 1 {
			s = "\uFFFD"
		}
		i += n
		if s == "\r" {
			continue
		}
		switch {
		case esc:
			us = append(us, unit{`\` + s, escLine})
			esc = false
		case s == `\`:
			esc, escLine = true, line
		default:
			us = append(us, unit{s, line})
		}
		if s == "\n" {
			line++
		}
	}
	return us, esc, line
}

func unitIsSpace(s string) bool {
	if s[0] == '\\' {
		return false
	}
	r, _ := utf8.DecodeRuneInString(s)
	return unicode.IsSpace(r)
}

func refLex(text string) []RTok {
	us, dangling, endLine := units(text)
	var toks []RTok
	i := 0
	depth := 0
	// a ";" or "{" may not directly follow another special character (comments do not count)
	afterSpecial := false
	lastLine := 1
	add := func(t RTok) {
		toks = append(toks, t)
		lastLine = t.Line
	}
	for {
		for i < len(us) && unitIsSpace(us[i].s) {
			i++
		}
		if i >= len(us) {
			if dangling {
				add(RTok{Val: `\`, Line: endLine})
			}
			break
		}
		start := us[i].line
		switch s := us[i].s; s {
		case "#":
			var sb strings.Builder
			for i < len(us) && us[i].s != "\n" && us[i].s != "\\\n" {
				sb.WriteString(us[i].s)
				i++
			}
			if i < len(us) {
				i++
			}
			// a backslash at the very end of a comment is dropped
			add(RTok{Val: sb.String(), Line: start, Comment: true})
			if i >= len(us) && dangling {
				// it belonged to the comment if that was not terminated
				if us[len(us)-1].s != "\n" && us[len(us)-1].s != "\\\n" {
					dangling = false
				}
			}
			continue
		case `"`, "'":
			i++
			var sb strings.Builder
			closed := false
			for i < len(us) {
				u := us[i].s
				i++
				if u == s {
					closed = true
					break
				}
				if u == `\`+s {
					u = s
				}
				sb.WriteString(u)
			}
			if !closed && dangling {
				sb.WriteString(`\`)
				dangling = false
			}
			add(RTok{Val: sb.String(), Line: start, Quoted: true})
			afterSpecial = false
			continue
		case "{", "}", ";":
		default:
			var sb strings.Builder
			word := func() string { return sb.String() }
			for i < len(us) {
				u := us[i].s
				if u == "{" && strings.HasSuffix(word(), "$") {
					// a variable: up to and including the next "}" or white space, which are part of the word
					sb.WriteString(u)
					i++
					for i < len(us) {
						u = us[i].s
						sb.WriteString(u)
						i++
						if strings.HasSuffix(u, "}") || unitIsSpace(u) {
							break
						}
					}
					continue
				}
				if unitIsSpace(u) || u == "{" || u == "}" || u == ";" {
					break
				}
				sb.WriteString(u)
				i++
			}
			if i >= len(us) && dangling {
				sb.WriteString(`\`)
				dangling = false
			}
			add(RTok{Val: word(), Line: start})
			afterSpecial = false
			if i >= len(us) || unitIsSpace(us[i].s) {
				continue
			}
			// a special character right after a word is on the line of the word
		}
		s := us[i].s
		errLine := us[i].line
		i++
		if afterSpecial && s != "}" {
			return append(toks, RTok{Line: start, Err: `unexpected "` + s + `"`, ErrLine: errLine})
		}
		afterSpecial = true
		if s == "{" {
			depth++
		}
		if s == "}" {
			if depth == 0 {
				return append(toks, RTok{Line: start, Err: `unexpected "}"`, ErrLine: errLine})
			}
			depth--
		}
		add(RTok{Val: s, Line: start})
	}
	if depth > 0 {
		toks = append(toks, RTok{Line: lastLine, Err: `unexpected end of file, expecting "}"`, ErrLine: endLine, Early: true})
	}
	return toks
}

// special tells whether t is the unquoted special character s.
func (t RTok) is(s string) bool { return !t.Quoted && t.Err == "" && t.Val == s && !t.Comment }

// lexAll collects the tokens of the package.
func lexAll(ch <-chan cp.NgxToken) []cp.NgxToken {
	var ts []cp.NgxToken
	for t := range ch {
		ts = append(ts, t)
	}
	return ts
}
