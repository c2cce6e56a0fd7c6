From 3937ccd975524603a934a33350de6a5b873a0983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 01/41] fix: do not panic on an unvalidated "if ()" directive

An "if" whose only argument is "()" reaches prepareIfArgs without being
rejected when argument checks are skipped or the context is unknown; both
ends were trimmed away and the slice bounds crossed.
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index b7af673..6aa9a89 100644
--- a/util.go
+++ b/util.go
@@ -77,7 +77,7 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-		if len(d.Args[e]) == 0 {
+		if len(d.Args[e]) == 0 && e >= b {
 			e--
 		}
 		d.Args = d.Args[b : e+1]
-- 
2.43.0


From c8967b45b62db0b41a8d790b6ee23b4624c546d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:43 +0000
Subject: [PATCH 02/41] fix: quote arguments that start with "#" when building

An argument such as "#fff" was written unquoted, so it became a comment
that swallowed the rest of its statement.
---
 build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 0544817..0bc06e2 100644
--- a/build.go
+++ b/build.go
@@ -259,8 +259,8 @@ func needsQuote(s string) bool {
 	// get first rune
 	char, off := utf8.DecodeRuneInString(chars)
 
-	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	// arguments can't start with variable expansion syntax, or with a "#" because that starts a comment
+	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
-- 
2.43.0


From 0199b8598441283908ead8029833d4a162ea6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 03/41] fix: write quoted arguments so that they are read back
 unchanged

Quoted arguments were rendered with %q, whose escapes NGINX and the lexer
do not decode: a U+3000 became the text \u3000 and a newline became \n. An
argument with both an escaped single quote and a double quote was rendered
with its closing quote in the wrong place, and a trailing backslash escaped
the closing quote.
---
 build.go |  2 +-
 util.go  | 40 ++++++++++++++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/build.go b/build.go
index 0bc06e2..9004203 100644
--- a/build.go
+++ b/build.go
@@ -238,7 +238,7 @@ func Enquote(arg string) string {
 	if !needsQuote(arg) {
 		return arg
 	}
-	return strings.ReplaceAll(repr(arg), `\\`, `\`)
+	return repr(arg)
 }
 
 //nolint:gocyclo
diff --git a/util.go b/util.go
index 6aa9a89..4ee14bf 100644
--- a/util.go
+++ b/util.go
@@ -35,17 +35,41 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
+// repr encloses s in quotes so that the lexer reads it back as s. A backslash in s already escapes
+// the character after it, so only the enclosing quote needs to be escaped.
 func repr(s string) string {
-	q := fmt.Sprintf("%q", s)
-	for _, char := range s {
-		if char == '"' {
-			q = strings.ReplaceAll(q, `\"`, `"`)
-			q = strings.ReplaceAll(q, `'`, `\'`)
-			q = `'` + q[1:len(q)-1] + `'`
-			return q
+	quote := byte('"')
+	if strings.Contains(s, `"`) && !containsEscaped(s, '\'') {
+		quote = '\''
+	}
+
+	sb := strings.Builder{}
+	sb.WriteByte(quote)
+	esc := false
+	for i := 0; i < len(s); i++ {
+		if s[i] == quote && !esc {
+			sb.WriteByte('\\')
 		}
+		sb.WriteByte(s[i])
+		esc = s[i] == '\\' && !esc
+	}
+	if esc { // a trailing backslash must not escape the closing quote
+		sb.WriteByte('\\')
 	}
-	return q
+	sb.WriteByte(quote)
+	return sb.String()
+}
+
+// containsEscaped returns true if c is found right after an unescaped backslash in s.
+func containsEscaped(s string, c byte) bool {
+	esc := false
+	for i := 0; i < len(s); i++ {
+		if esc && s[i] == c {
+			return true
+		}
+		esc = s[i] == '\\' && !esc
+	}
+	return false
 }
 
 func validFlag(s string) bool {
-- 
2.43.0


From 811571b9589066bf0d8c03c15798780ce80a5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 04/41] fix: keep empty blocks when marshaling directives to
 JSON

"omitempty" dropped the block of "events {}", so a config that went through
JSON was built as "events;".
---
 types.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/types.go b/types.go
index 5d6dc64..f48a2e4 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,8 @@
 package crossplane
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -51,6 +53,24 @@ type Directive struct {
 
 type Directives []*Directive
 
+// MarshalJSON keeps the block of a directive whose block is empty, which distinguishes "events {}" from "events;".
+func (d Directive) MarshalJSON() ([]byte, error) {
+	type directive Directive
+	var v interface{} = directive(d)
+	if d.Block != nil && len(d.Block) == 0 {
+		v = struct {
+			directive
+			Block Directives `json:"block"`
+		}{directive(d), d.Block}
+	}
+
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false) // left to the caller's encoder
+	err := enc.Encode(v)
+	return buf.Bytes(), err
+}
+
 // IsBlock returns true if this is a block directive.
 func (d Directive) IsBlock() bool {
 	return d.Block != nil
-- 
2.43.0


From f9281b11e71a7876f54dfa389a05b9cd0c81bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 05/41] fix: build "if" conditions and map parameters that are
 read back unchanged

A quoted first argument was glued to the opening parenthesis, which made its
quotes part of the argument; a map parameter named "if" gained parentheses;
and an escaped space before the closing parenthesis lost its space but kept
the backslash.
---
 build.go | 8 +++++---
 util.go  | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/build.go b/build.go
index 9004203..e226c1a 100644
--- a/build.go
+++ b/build.go
@@ -187,13 +187,15 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			_, _ = sb.WriteString(directive)
 
 			// special handling for if statements
-			if directive == "if" {
+			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					quoted := Enquote(arg)
+					// a quote directly after the parenthesis would not start a quoted argument
+					if i > 0 || quoted != arg {
 						_, _ = sb.WriteString(" ")
 					}
-					_, _ = sb.WriteString(Enquote(arg))
+					_, _ = sb.WriteString(quoted)
 				}
 				_, _ = sb.WriteString(")")
 			} else {
diff --git a/util.go b/util.go
index 4ee14bf..d5c72f8 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,11 @@ func prepareIfArgs(d *Directive) *Directive {
 	e := len(d.Args) - 1
 	if len(d.Args) > 0 && strings.HasPrefix(d.Args[0], "(") && strings.HasSuffix(d.Args[e], ")") {
 		d.Args[0] = strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)
-		d.Args[e] = strings.TrimRightFunc(strings.TrimSuffix(d.Args[e], ")"), unicode.IsSpace)
+		d.Args[e] = strings.TrimSuffix(d.Args[e], ")")
+		// an escaped space is part of the argument
+		if trimmed := strings.TrimRightFunc(d.Args[e], unicode.IsSpace); !strings.HasSuffix(trimmed, `\`) {
+			d.Args[e] = trimmed
+		}
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-- 
2.43.0


From a273e665f293c8586c12ec822346ff8e0f9564f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:44 +0000
Subject: [PATCH 06/41] fix: report read errors and lexer errors instead of
 swallowing them

An error from the reader ended the token stream as if the file were
complete, so a config that could not be read to its end was parsed as "ok".
A token that carries an error was taken for an argument when it came after
the name of a directive, which lost the errors of external lexers.
---
 lex.go   | 11 +++++++++--
 parse.go | 35 ++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/lex.go b/lex.go
index 4b69cbe..21714f9 100644
--- a/lex.go
+++ b/lex.go
@@ -330,8 +330,15 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
-	if depth > 0 {
-		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
+	if err := scanner.Err(); err != nil {
+		emit(tokenLine, false, err)
+	} else if depth > 0 {
+		emit(tokenStartLine, false, &ParseError{
+			File:        &lexerFile,
+			What:        `unexpected end of file, expecting "}"`,
+			Line:        &tokenLine,
+			originalErr: ErrPrematureLexEnd,
+		})
 	}
 
 	close(tokenCh)
diff --git a/parse.go b/parse.go
index 58302d3..1ff095f 100644
--- a/parse.go
+++ b/parse.go
@@ -216,19 +216,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, tokenError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -283,6 +271,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			// a missing "}" is reported below as the premature end of this statement
+			if t.Error != nil && !errors.Is(t.Error, ErrPrematureLexEnd) {
+				return nil, tokenError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
@@ -448,6 +440,23 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	return parsed, nil
 }
 
+// tokenError returns the error of a token as an error in the file that is being parsed.
+func tokenError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From c05a33c741cff54d41ad7e8eb0d46d97d9812d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 07/41] fix: reject configs that end in a backslash or in an
 opening quote

A backslash at the end of the file was dropped, and an unterminated quote
with nothing after it was ignored, so both were accepted.
---
 lex.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 21714f9..978656c 100644
--- a/lex.go
+++ b/lex.go
@@ -327,7 +327,13 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		}
 	}
 
-	if token.Len() > 0 {
+	if esc && lexState != inComment {
+		if lexState == skipSpace {
+			tokenStartLine = tokenLine
+		}
+		token.WriteString("\\")
+	}
+	if token.Len() > 0 || lexState == inQuote {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if err := scanner.Err(); err != nil {
-- 
2.43.0


From 410b2e7b172f843ae40bb672983f6b387ef25997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:55 +0000
Subject: [PATCH 08/41] fix: hand over to external lexers only after the whole
 name of a directive

An external lexer was started by any token or argument on a new line that
began with its directive name, and the character after the name was lost, so
"log_by_lua_blocks on;" was lexed as Lua and "log_by_lua_block{" was an
error.
---
 lex.go | 53 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/lex.go b/lex.go
index 978656c..df9c9f0 100644
--- a/lex.go
+++ b/lex.go
@@ -107,15 +107,23 @@ func Lex(reader io.Reader) chan NgxToken {
 type SubScanner struct {
 	scanner   *bufio.Scanner
 	tokenLine int
+	text      string
+	unread    string // character to be returned by the next Scan, if any
 }
 
 // Scan advances the scanner to the next token which will be available though the Text method. It returns false
 // when the scan stops by reaching the end of input.
 func (e *SubScanner) Scan() bool {
+	if e.unread != "" {
+		e.text, e.unread = e.unread, ""
+		return true
+	}
 	if !e.scanner.Scan() {
+		e.text = ""
 		return false
 	}
-	if t := e.scanner.Text(); isEOL(t) {
+	e.text = e.scanner.Text()
+	if isEOL(e.text) {
 		e.tokenLine++
 	}
 	return true
@@ -125,7 +133,7 @@ func (e *SubScanner) Scan() bool {
 func (e *SubScanner) Err() error { return e.scanner.Err() }
 
 // Text returns the most recent token generated by a call to Scan.
-func (e *SubScanner) Text() string { return e.scanner.Text() }
+func (e *SubScanner) Text() string { return e.text }
 
 // Line returns the line number of the most recent token generated by a call to Scan.
 func (e *SubScanner) Line() int { return e.tokenLine }
@@ -163,7 +171,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = scanner.Text()
 			if isEOL(la) {
 				tokenLine++
-				nextTokenIsDirective = true
 			}
 		} else {
 			readNext = true
@@ -183,26 +190,30 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = "\\" + la
 		}
 
-		if token.Len() > 0 {
+		// an external lexer takes over after the name of a directive
+		endOfWord := lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";")
+		endOfQuote := lexState == inQuote && la == quote
+		if nextTokenIsDirective && token.Len() > 0 && (endOfWord || endOfQuote) {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
-				if ext, ok := options.extLexers[tokenStr]; ok {
-					// saving lex state before emitting tokenStr to know if we encountered start quote
-					lastLexState := lexState
-					emit(tokenStartLine, lexState == inQuote, nil)
-
-					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
-					extTokenCh := ext.Lex(externalScanner, tokenStr)
-					for tok := range extTokenCh {
-						tokenCh <- tok
-					}
-					tokenLine = externalScanner.tokenLine
+			if ext, ok := options.extLexers[tokenStr]; ok {
+				emit(tokenStartLine, endOfQuote, nil)
 
-					// if we detected a start quote and current char after external lexer processing is end quote we skip it
-					if lastLexState == inQuote && la == quote {
-						continue
-					}
+				externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
+				if endOfWord && !isSpace(la) {
+					externalScanner.unread = la
 				}
+				var last NgxToken
+				for tok := range ext.Lex(externalScanner, tokenStr) {
+					last = tok
+					tokenCh <- tok
+				}
+				tokenLine = externalScanner.tokenLine
+
+				// what comes next depends on whether the external lexer completed the directive
+				nextTokenIsDirective = !last.IsQuoted && (last.Value == ";" || last.Value == "{" || last.Value == "}")
+				dupSpecialChar = nextTokenIsDirective
+				readNext = externalScanner.unread == "" // re-eval what the external lexer left unread
+				continue
 			}
 		}
 
@@ -220,7 +231,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = false
 				if la == "#" {
 					token.WriteString(la)
-					nextTokenIsDirective = false
 					lexState = inComment
 					tokenStartLine = tokenLine
 					continue
@@ -318,6 +328,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		case inQuote:
 			if la == quote {
 				emit(tokenStartLine, true, nil)
+				nextTokenIsDirective = false
 				continue
 			}
 			if la == "\\"+quote {
-- 
2.43.0


From b9e2067fb261b2ede6cdefe329131b5b252e4c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:28 +0000
Subject: [PATCH 09/41] fix: do not end Lua blocks inside Lua strings and
 comments

Escaped quotes, quotes in comments ("-- do not"), and braces or quotes in
long brackets were taken for Lua code, so valid Lua blocks ended at the wrong
brace or never ended.
---
 lua.go | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/lua.go b/lua.go
index dd4a45b..3dbd70e 100644
--- a/lua.go
+++ b/lua.go
@@ -120,6 +120,21 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 			}
 
 			switch {
+			case next == `\` && inQuotes:
+				// an escaped quote does not end the string
+				tok.WriteString(next)
+				if s.Scan() {
+					tok.WriteString(s.Text())
+				}
+
+			case next == "-" && !inQuotes && tokenDepth > 0:
+				tok.WriteString(next)
+				luaComment(s, &tok)
+
+			case next == "[" && !inQuotes && tokenDepth > 0:
+				s.unread = next
+				luaLongBracket(s, &tok)
+
 			case next == "{" && !inQuotes:
 				tokenDepth++
 				if tokenDepth > 1 { // not the first open brace
@@ -175,6 +190,53 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 	return tokenCh
 }
 
+// luaComment consumes the rest of a Lua comment if the "-" before it starts one.
+func luaComment(s *SubScanner, tok *strings.Builder) {
+	if s.Scan() && s.Text() != "-" {
+		s.unread = s.Text()
+		return
+	}
+	tok.WriteString(s.Text())
+	if luaLongBracket(s, tok) {
+		return
+	}
+	for s.Scan() {
+		tok.WriteString(s.Text())
+		if isEOL(s.Text()) {
+			return
+		}
+	}
+}
+
+// luaLongBracket consumes a Lua long bracket, like "[[...]]" or "[=[...]=]", if there is one.
+func luaLongBracket(s *SubScanner, tok *strings.Builder) bool {
+	if s.Scan() && s.Text() != "[" {
+		s.unread = s.Text()
+		return false
+	}
+	tok.WriteString(s.Text())
+
+	level := ""
+	for s.Scan() && s.Text() == "=" {
+		level += "="
+	}
+	tok.WriteString(level)
+	if s.Text() != "[" {
+		s.unread = s.Text()
+		return false
+	}
+	tok.WriteString(s.Text())
+
+	start := tok.Len()
+	for s.Scan() {
+		tok.WriteString(s.Text())
+		if strings.HasSuffix(tok.String()[start:], "]"+level+"]") {
+			break
+		}
+	}
+	return true
+}
+
 // RegisterBuilder registers a builder for generating Lua NGINX configuration.
 func (l *Lua) RegisterBuilder() RegisterBuilder { //nolint:ireturn
 	return BuildWithBuilder(l, l.directiveNames()...)
-- 
2.43.0


From d981ddb8244dd0fc9e91cbb400b6fed33540a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 10/41] fix: keep the block structure when a directive is
 invalid or unterminated

The block of an invalid directive is consumed instead of being parsed into the
outer block, an unterminated directive ends the block whose "}" it ran into,
and errors in consumed blocks are no longer dropped.
---
 parse.go | 54 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/parse.go b/parse.go
index 1ff095f..4aa5767 100644
--- a/parse.go
+++ b/parse.go
@@ -230,17 +230,28 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
 
+		// the first token should always be an nginx directive
+		if !t.IsQuoted && (t.Value == "{" || t.Value == ";") {
+			return nil, &ParseError{
+				What:     fmt.Sprintf(`unexpected "%s"`, t.Value),
+				File:     &parsing.File,
+				Line:     &t.Line,
+				BlockCtx: ctx.getLastBlock(),
+			}
+		}
+
 		var fileName string
 		if p.options.CombineConfigs {
 			fileName = parsing.File
 		}
 
-		// the first token should always be an nginx directive
 		stmt := &Directive{
 			Directive: t.Value,
 			Line:      t.Line,
@@ -302,7 +313,13 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+							return nil, err
+						}
+					}
+					// the unterminated parameter was the last one in this block
+					if t.Value == "}" {
+						break
 					}
 					continue
 				}
@@ -316,24 +333,41 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
+			}
+			// the unterminated directive was the last one in this block
+			if t.Value == "}" {
+				break
 			}
 			continue
 		}
 
 		// raise errors if this statement is invalid
 		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
+		if err == nil && t.Value == "}" {
+			err = &ParseError{
+				What:      fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
-				} else {
-					break
+			// the block of an invalid directive is invalid too, so consume it
+			if t.Value == "{" {
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
 				}
 			}
+			// the unterminated directive was the last one in this block
+			if t.Value == "}" {
+				break
+			}
 			// keep on parsin'
 			continue
 		} else if err != nil {
-- 
2.43.0


From 95ff192df85c5e8fd6090bef8d6a3cbdc508ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 11/41] fix: do not leak the lexer goroutine when parsing ends
 in an error

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 4aa5767..df03d53 100644
--- a/parse.go
+++ b/parse.go
@@ -177,6 +177,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+		// let the lexer finish, it would wait forever for its remaining tokens to be read
+		for range tokens { //nolint:revive
+		}
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From bdfe0bd5e2a13c4dba51fb2196942b7131ec48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 12/41] fix: do not overwrite the contexts of included files

---
 analyze.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..6113df4 100644
--- a/analyze.go
+++ b/analyze.go
@@ -135,8 +135,9 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
 		return blockCtx{"http", "location"}
 	}
-	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// no other block contexts can be nested like location so just append it, to a
+	// copy because the contexts of included files are kept until those are parsed
+	return append(append(blockCtx{}, ctx...), stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 225671ea2ecbf08f2c2839c263aafb1302a01e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 13/41] fix: do not modify the caller's options when parsing
 and building

---
 build.go | 13 +++++--------
 parse.go |  4 +++-
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/build.go b/build.go
index e226c1a..130e833 100644
--- a/build.go
+++ b/build.go
@@ -85,10 +85,6 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
-	for _, o := range options.Builders {
-		o.applyBuildOptions(options)
-	}
-
 	for _, config := range payload.Config {
 		path := config.File
 		if !filepath.IsAbs(path) {
@@ -126,6 +122,8 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	opts := *options // the caller's options may be in use by another Build
+	options = &opts
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
@@ -137,10 +135,9 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 		}
 	}
 
-	if options.extBuilders == nil { // might be set if using BuildFiles
-		for _, o := range options.Builders {
-			o.applyBuildOptions(options)
-		}
+	options.extBuilders = nil
+	for _, o := range options.Builders {
+		o.applyBuildOptions(options)
 	}
 
 	body := strings.Builder{}
diff --git a/parse.go b/parse.go
index df03d53..cf9b072 100644
--- a/parse.go
+++ b/parse.go
@@ -123,7 +123,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Config: []Config{},
 	}
 	if options.Glob == nil {
-		options.Glob = filepath.Glob
+		opts := *options // the caller's options may be in use by another Parse
+		opts.Glob = filepath.Glob
+		options = &opts
 	}
 
 	handleError := func(config *Config, err error) {
-- 
2.43.0


From 6603e0c28722b9c69ea2e5e11334193098c2654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 14/41] fix: stop combining configs at the first error and at
 include cycles

An error left the goroutines that forwarded it behind, a negative include index
panicked in one of them, and a payload with an include cycle never terminated.
---
 util.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/util.go b/util.go
index d5c72f8..95c2ce9 100644
--- a/util.go
+++ b/util.go
@@ -27,6 +27,15 @@ func contains(xs []string, x string) bool {
 	return false
 }
 
+func containsInt(xs []int, x int) bool {
+	for _, i := range xs {
+		if i == x {
+			return true
+		}
+	}
+	return false
+}
+
 func isSpace(s string) bool {
 	return len(strings.TrimSpace(s)) == 0
 }
@@ -143,7 +152,7 @@ func combineConfigs(old *Payload) (*Payload, error) {
 		}
 	}
 
-	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
+	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed, []int{0}) {
 		if incl.err != nil {
 			return nil, incl.err
 		}
@@ -157,7 +166,11 @@ func combineConfigs(old *Payload) (*Payload, error) {
 	}, nil
 }
 
-func performIncludes(old *Payload, fromfile string, block Directives) chan included {
+// performIncludes replaces the include directives in block by what they include. The path holds the indexes
+// of the configs that lead to block. An error is the last value that is sent.
+//
+//nolint:gocognit
+func performIncludes(old *Payload, fromfile string, block Directives, path []int) chan included {
 	c := make(chan included)
 	go func() {
 		defer close(c)
@@ -165,7 +178,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 			dir := *d
 			if dir.IsBlock() {
 				nblock := Directives{}
-				for incl := range performIncludes(old, fromfile, dir.Block) {
+				for incl := range performIncludes(old, fromfile, dir.Block, path) {
 					if incl.err != nil {
 						c <- incl
 						return
@@ -179,10 +192,17 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				what := ""
+				switch {
+				case idx < 0 || idx >= len(old.Config):
+					what = fmt.Sprintf("include config with index: %d", idx)
+				case containsInt(path, idx):
+					what = "configs contain include cycle"
+				}
+				if what != "" {
 					c <- included{
 						err: &ParseError{
-							What:      fmt.Sprintf("include config with index: %d", idx),
+							What:      what,
 							File:      &fromfile,
 							Line:      &dir.Line,
 							Statement: dir.String(),
@@ -190,8 +210,12 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 					}
 					return
 				}
-				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
+				inner := append(append([]int{}, path...), idx)
+				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed, inner) {
 					c <- incl
+					if incl.err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From 90302cc734a019eeb15aeb64ce9e4bdaff9306c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 15/41] fix: close files that could not be built

---
 build.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.go b/build.go
index 130e833..4cce25e 100644
--- a/build.go
+++ b/build.go
@@ -110,6 +110,7 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\n')
 		if _, err := f.Write(output); err != nil {
+			f.Close()
 			return err
 		}
 		if err := f.Close(); err != nil {
@@ -334,6 +335,7 @@ func BuildInto(payload *Payload, into Creator, options *BuildOptions) error {
 			return err
 		}
 		if err := Build(wc, config, options); err != nil {
+			wc.Close()
 			return err
 		}
 
-- 
2.43.0


From 39b95f893d950f56a0c357ff4903441d7b7189ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 16/41] fix: tell comments from each other and from literals in
 source code

A "//" in a block comment hid the end of the block comment, which hid the
directives after it, and a "/*" in a string started a comment.
---
 internal/generator/generator_util.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..ba4707e 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -46,9 +46,8 @@ var (
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
 	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// Extract comments, and the literals that may contain what looks like a comment.
+	commentOrLiteralExtracter = regexp.MustCompile(`//.*|/\*[\s\S]*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,8 +108,12 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
+	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
+		if strings.HasPrefix(s, "/") {
+			return ""
+		}
+		return s
+	})
 	strContent = strings.ReplaceAll(strContent, "\r\n", "")
 	strContent = strings.ReplaceAll(strContent, "\n", "")
 
-- 
2.43.0


From a3b50495ac34ba8897966416b07b8d63887d0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 17/41] fix: do not escape the generated Go code as HTML

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index ba4707e..2de275d 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -11,13 +11,13 @@ import (
 	_ "embed"
 	"errors"
 	"fmt"
-	"html/template"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
+	"text/template"
 )
 
 // A Mask is a list of string, includes several variable names,
-- 
2.43.0


From bc28f5c70567319c77898cb6d395151135468c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 18/41] fix: define the bitmask that the generator uses for 7
 args

---
 analyze.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 6113df4..3f5e18d 100644
--- a/analyze.go
+++ b/analyze.go
@@ -65,7 +65,8 @@ const (
 	ngxConfTake4  = 0x00000010 // 4 args
 	ngxConfTake5  = 0x00000020 // 5 args
 	ngxConfTake6  = 0x00000040 // 6 args
-	// ngxConfTake7  = 0x00000080 // 7 args (currently unused).
+	ngxConfTake7  = 0x00000080 // 7 args (currently unused)
+
 	ngxConfBlock = 0x00000100 // followed by block
 	ngxConfExpr  = 0x00000200 // directive followed by expression in parentheses `()`
 	ngxConfFlag  = 0x00000400 // 'on' or 'off'
-- 
2.43.0


From 470e2755d7550e2b40ebb0be826e2af5d373a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 19/41] fix: keep comments in the args of map parameters

---
 parse.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/parse.go b/parse.go
index cf9b072..86f5498 100644
--- a/parse.go
+++ b/parse.go
@@ -330,6 +330,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				}
 				stmt.IsMapBlockParameter = true
 				parsed = append(parsed, stmt)
+				parsed = append(parsed, argComments(stmt, commentsInArgs)...)
 				continue
 			}
 		}
@@ -464,21 +465,28 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		parsed = append(parsed, stmt)
 
 		// add all comments found inside args after stmt is added
-		for _, comment := range commentsInArgs {
-			comment := comment
-			parsed = append(parsed, &Directive{
-				Directive: "#",
-				Line:      stmt.Line,
-				Args:      []string{},
-				File:      fileName,
-				Comment:   &comment,
-			})
-		}
+		parsed = append(parsed, argComments(stmt, commentsInArgs)...)
 	}
 
 	return parsed, nil
 }
 
+// argComments returns the directives of the comments that were found inside the args of stmt.
+func argComments(stmt *Directive, comments []string) Directives {
+	var parsed Directives
+	for _, comment := range comments {
+		comment := comment
+		parsed = append(parsed, &Directive{
+			Directive: "#",
+			Line:      stmt.Line,
+			Args:      []string{},
+			File:      stmt.File,
+			Comment:   &comment,
+		})
+	}
+	return parsed
+}
+
 // tokenError returns the error of a token as an error in the file that is being parsed.
 func tokenError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	var perr *ParseError
-- 
2.43.0


From 57ffad6c90f14082c56fdb963d9f8255128939e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 20/41] fix: report the right line for tokens that start with
 an escaped EOL

---
 lex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lex.go b/lex.go
index df9c9f0..e324282 100644
--- a/lex.go
+++ b/lex.go
@@ -224,6 +224,9 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = true
 				readNext = false // re-eval
 				tokenStartLine = tokenLine
+				if isEOL(la) { // an escaped EOL is the first character of the token
+					tokenStartLine--
+				}
 			}
 			continue
 		case inWord:
-- 
2.43.0


From 77e205e55b9166e4930b39c777ca5ad27d15e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 21/41] fix: quote arguments that start with an escaped
 backslash if needed

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 4cce25e..553c249 100644
--- a/build.go
+++ b/build.go
@@ -267,7 +267,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char
 	for _, c := range chars {
 		char = c
 
-- 
2.43.0


From c026e1fdbce843b1440683e681f6db8fb1139b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 22/41] fix: quote arguments exactly when they are not read
 back as one word

---
 build.go | 113 ++++++++++++++++---------------------------------------
 util.go  |  19 ++++++++--
 2 files changed, 49 insertions(+), 83 deletions(-)

diff --git a/build.go b/build.go
index 553c249..74056ad 100644
--- a/build.go
+++ b/build.go
@@ -188,12 +188,13 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					quoted := Enquote(arg)
-					// a quote directly after the parenthesis would not start a quoted argument
-					if i > 0 || quoted != arg {
-						_, _ = sb.WriteString(" ")
+					// a quote directly after the parenthesis does not start a quoted argument
+					if i == 0 && arg != "" && !needsQuote("("+arg) {
+						_, _ = sb.WriteString(arg)
+						continue
 					}
-					_, _ = sb.WriteString(quoted)
+					_, _ = sb.WriteString(" ")
+					_, _ = sb.WriteString(Enquote(arg))
 				}
 				_, _ = sb.WriteString(")")
 			} else {
@@ -241,89 +242,41 @@ func Enquote(arg string) string {
 	return repr(arg)
 }
 
-//nolint:gocyclo
+// needsQuote returns true if the lexer would not read s, as it is, as one word.
 func needsQuote(s string) bool {
-	if s == "" {
-		return true
-	}
-
-	// lexer should throw an error when variable expansion syntax
-	// is messed up, but just wrap it in quotes for now I guess
-	var char rune
-	chars := escape(s)
-
-	if len(chars) == 0 {
+	first, _ := utf8.DecodeRuneInString(s)
+	if s == "" || unicode.IsSpace(first) || strings.ContainsRune("{};\"'#", first) {
 		return true
 	}
 
-	// get first rune
-	char, off := utf8.DecodeRuneInString(chars)
-
-	// arguments can't start with variable expansion syntax, or with a "#" because that starts a comment
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
-		return true
-	}
-
-	chars = chars[off:]
-
-	expanding := false
-	prev := char
-	for _, c := range chars {
-		char = c
-
-		if prev == '\\' {
-			prev = 0
-			continue
-		}
-		if unicode.IsSpace(char) || strings.ContainsRune("{;\"'", char) {
-			return true
-		}
-
-		if (expanding && (prev == '$' && char == '{')) || (!expanding && char == '}') {
-			return true
-		}
-
-		if (expanding && char == '}') || (!expanding && (prev == '$' && char == '{')) {
-			expanding = !expanding
-		}
-
-		prev = char
-	}
-
-	return expanding || char == '\\' || char == '$'
-}
-
-func escape(s string) string {
-	if !strings.ContainsAny(s, "{}$;\\") {
-		return s
-	}
-
-	sb := strings.Builder{}
-	var pc, cc rune
-
-	for _, r := range s {
-		cc = r
-		if pc == '\\' || (pc == '$' && cc == '{') {
-			sb.WriteRune(pc)
-			sb.WriteRune(cc)
-			pc = 0
-			continue
-		}
-
-		if pc == '$' {
-			sb.WriteRune(pc)
+	// there are no quotes for an s with escapes of both quotes
+	quotable := !containsEscaped(s, '"') || !containsEscaped(s, '\'')
+	expanding, escaped := false, false
+	var prev rune
+	for _, char := range s {
+		switch {
+		case expanding: // the lexer reads a variable up to the next "}" or space
+			space := unicode.IsSpace(char) && !escaped
+			if space && quotable {
+				return true
+			}
+			expanding = char != '}' && !space
+		case escaped && char != '\r':
+		case unicode.IsSpace(char) || strings.ContainsRune("{;}", char):
+			if prev != '$' || char != '{' {
+				return true
+			}
+			expanding = true
 		}
-		if cc != '\\' && cc != '$' {
-			sb.WriteRune(cc)
+		if char != '\r' { // the lexer skips CRs
+			escaped = char == '\\' && !escaped
+			prev = char
 		}
-		pc = cc
 	}
 
-	if cc == '\\' || cc == '$' {
-		sb.WriteRune(cc)
-	}
-
-	return sb.String()
+	// lexer should throw an error when variable expansion syntax
+	// is messed up, but just wrap it in quotes for now I guess
+	return expanding || escaped
 }
 
 // BuildInto builds all of the config files in a crossplane.Payload and
diff --git a/util.go b/util.go
index 95c2ce9..8ef1fb9 100644
--- a/util.go
+++ b/util.go
@@ -60,7 +60,9 @@ func repr(s string) string {
 			sb.WriteByte('\\')
 		}
 		sb.WriteByte(s[i])
-		esc = s[i] == '\\' && !esc
+		if s[i] != '\r' { // the lexer skips CRs
+			esc = s[i] == '\\' && !esc
+		}
 	}
 	if esc { // a trailing backslash must not escape the closing quote
 		sb.WriteByte('\\')
@@ -76,7 +78,9 @@ func containsEscaped(s string, c byte) bool {
 		if esc && s[i] == c {
 			return true
 		}
-		esc = s[i] == '\\' && !esc
+		if s[i] != '\r' {
+			esc = s[i] == '\\' && !esc
+		}
 	}
 	return false
 }
@@ -104,7 +108,7 @@ func validExpr(d *Directive) bool {
 func prepareIfArgs(d *Directive) *Directive {
 	b := 0
 	e := len(d.Args) - 1
-	if len(d.Args) > 0 && strings.HasPrefix(d.Args[0], "(") && strings.HasSuffix(d.Args[e], ")") {
+	if len(d.Args) > 0 && strings.HasPrefix(d.Args[0], "(") && strings.HasSuffix(d.Args[e], ")") && !endsInEscape(d.Args[e]) {
 		d.Args[0] = strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)
 		d.Args[e] = strings.TrimSuffix(d.Args[e], ")")
 		// an escaped space is part of the argument
@@ -122,6 +126,15 @@ func prepareIfArgs(d *Directive) *Directive {
 	return d
 }
 
+// endsInEscape returns true if the last character of s is escaped.
+func endsInEscape(s string) bool {
+	b := 0
+	for b+1 < len(s) && s[len(s)-2-b] == '\\' {
+		b++
+	}
+	return b%2 == 1
+}
+
 // combineConfigs combines config files into one by using include directives.
 func combineConfigs(old *Payload) (*Payload, error) {
 	if len(old.Config) < 1 {
-- 
2.43.0


From 3cb39e5184add81c4ddd61076abc080af094c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 23/41] fix: tell a directive with an empty block from one
 without a block in Equal

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index f48a2e4..4d04ee5 100644
--- a/types.go
+++ b/types.go
@@ -123,7 +123,7 @@ func (d *Directive) Equal(a *Directive) bool {
 		return false
 	case !equals(a.Args, d.Args):
 		return false
-	case len(a.Block) != len(d.Block):
+	case a.IsBlock() != d.IsBlock() || len(a.Block) != len(d.Block):
 		return false
 	case len(a.Includes) != len(d.Includes):
 		return false
-- 
2.43.0


From c153873d26db1795517b2b6270593aaba9c0c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 24/41] fix: find external builders by the name of a directive,
 not by its quoted form

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 74056ad..2cd25e0 100644
--- a/build.go
+++ b/build.go
@@ -172,7 +172,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		_, _ = sb.WriteString(margin(options, depth))
 
 		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
-- 
2.43.0


From 4f9cf25fe846c870a8260052eeab680cd0f92905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 25/41] fix: keep comments on the line of the externally built
 directive before them

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index 2cd25e0..e2daa43 100644
--- a/build.go
+++ b/build.go
@@ -174,6 +174,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		if options.extBuilders != nil {
 			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
+				lastLine = stmt.Line
 				continue
 			}
 		}
-- 
2.43.0


From 976301456d818eeb5921070eb259e59c3eac2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 26/41] fix: marshal nested directives in linear time

Every level of nesting encoded the levels below it again.
---
 types.go | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/types.go b/types.go
index 4d04ee5..67ef685 100644
--- a/types.go
+++ b/types.go
@@ -53,21 +53,47 @@ type Directive struct {
 
 type Directives []*Directive
 
-// MarshalJSON keeps the block of a directive whose block is empty, which distinguishes "events {}" from "events;".
-func (d Directive) MarshalJSON() ([]byte, error) {
-	type directive Directive
-	var v interface{} = directive(d)
-	if d.Block != nil && len(d.Block) == 0 {
-		v = struct {
-			directive
-			Block Directives `json:"block"`
-		}{directive(d), d.Block}
+// directiveJSON is the JSON form of a Directive. It only leaves out a block that is nil, not one that is empty.
+type directiveJSON struct {
+	Directive           string            `json:"directive"`
+	Line                int               `json:"line"`
+	Args                []string          `json:"args"`
+	File                string            `json:"file,omitempty"`
+	Includes            []int             `json:"includes,omitempty"`
+	Block               *[]*directiveJSON `json:"block,omitempty"`
+	Comment             *string           `json:"comment,omitempty"`
+	IsMapBlockParameter bool              `json:"mapBlockParameter,omitempty"`
+}
+
+func newDirectiveJSON(d *Directive) *directiveJSON {
+	if d == nil {
+		return nil
+	}
+	j := &directiveJSON{
+		Directive:           d.Directive,
+		Line:                d.Line,
+		Args:                d.Args,
+		File:                d.File,
+		Includes:            d.Includes,
+		Comment:             d.Comment,
+		IsMapBlockParameter: d.IsMapBlockParameter,
 	}
+	if d.Block != nil {
+		block := make([]*directiveJSON, 0, len(d.Block))
+		for _, stmt := range d.Block {
+			block = append(block, newDirectiveJSON(stmt))
+		}
+		j.Block = &block
+	}
+	return j
+}
 
+// MarshalJSON keeps the block of a directive whose block is empty, which distinguishes "events {}" from "events;".
+func (d Directive) MarshalJSON() ([]byte, error) {
 	var buf bytes.Buffer
 	enc := json.NewEncoder(&buf)
 	enc.SetEscapeHTML(false) // left to the caller's encoder
-	err := enc.Encode(v)
+	err := enc.Encode(newDirectiveJSON(&d))
 	return buf.Bytes(), err
 }
 
-- 
2.43.0


From d27f61450931ab3050ddaffd5ee22c1146fdb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 27/41] fix: read long brackets of Lua in linear time

---
 lua.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lua.go b/lua.go
index 3dbd70e..1087005 100644
--- a/lua.go
+++ b/lua.go
@@ -216,21 +216,21 @@ func luaLongBracket(s *SubScanner, tok *strings.Builder) bool {
 	}
 	tok.WriteString(s.Text())
 
-	level := ""
+	start := tok.Len()
 	for s.Scan() && s.Text() == "=" {
-		level += "="
+		tok.WriteString("=")
 	}
-	tok.WriteString(level)
 	if s.Text() != "[" {
 		s.unread = s.Text()
 		return false
 	}
+	end := "]" + tok.String()[start:] + "]"
 	tok.WriteString(s.Text())
 
-	start := tok.Len()
+	start = tok.Len()
 	for s.Scan() {
 		tok.WriteString(s.Text())
-		if strings.HasSuffix(tok.String()[start:], "]"+level+"]") {
+		if strings.HasSuffix(tok.String()[start:], end) {
 			break
 		}
 	}
-- 
2.43.0


From fd0668b87afd60ca098aa00f97f2c5d67dfd73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:58 +0000
Subject: [PATCH 28/41] fix: find command tables and directives whatever white
 space they are written with

---
 internal/generator/generator_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 2de275d..a84a02e 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -37,14 +37,14 @@ var (
 	// Extract single directive definition block
 	// static ngx_command_t  {name}[] = {definition}
 	// this regex extracts {name} and {definition}.
-	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\[\]\s*=\s*{(.*?)}\s*;`)
+	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\s*\[\s*\w*\s*\]\s*=\s*{(.*?)}\s*;`)
 
 	// Extract one directive definition and attributes from extracted block
 	// { ngx_string({directive_name}),
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
 	// Extract comments, and the literals that may contain what looks like a comment.
 	commentOrLiteralExtracter = regexp.MustCompile(`//.*|/\*[\s\S]*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'`)
@@ -107,15 +107,15 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	}
 	strContent := string(byteContent)
 
-	// Remove comments
+	// Replace comments and line breaks with spaces, they separate what is around them
 	strContent = commentOrLiteralExtracter.ReplaceAllStringFunc(strContent, func(s string) string {
 		if strings.HasPrefix(s, "/") {
-			return ""
+			return " "
 		}
 		return s
 	})
-	strContent = strings.ReplaceAll(strContent, "\r\n", "")
-	strContent = strings.ReplaceAll(strContent, "\n", "")
+	strContent = strings.ReplaceAll(strContent, "\r\n", " ")
+	strContent = strings.ReplaceAll(strContent, "\n", " ")
 
 	// Extract directives definition code blocks, each code block contains a list of directives definition
 	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)
-- 
2.43.0


From f19f43ab9f20f2a5126a8c30c2af0d76f0ee54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:00 +0000
Subject: [PATCH 29/41] fix: comment every line of the generated match
 function's comment

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index a84a02e..57eec04 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -216,7 +216,7 @@ func genFromSrcCode(codePath string, writer io.Writer, config GenerateConfig) er
 		Directive2Masks: directive2Masks,
 		MapVariableName: config.DirectiveMapName,
 		MatchFnName:     config.MatchFuncName,
-		MatchFnComment:  config.MatchFuncComment,
+		MatchFnComment:  strings.ReplaceAll(config.MatchFuncComment, "\n", "\n// "),
 	})
 	if err != nil {
 		return err
-- 
2.43.0


From 19e127798225fece4b67bb1786b65ffb2966dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:41 +0000
Subject: [PATCH 30/41] fix: do not end variables at CRs, which the lexer
 skips, in needsQuote

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index e2daa43..e09e121 100644
--- a/build.go
+++ b/build.go
@@ -257,7 +257,7 @@ func needsQuote(s string) bool {
 	for _, char := range s {
 		switch {
 		case expanding: // the lexer reads a variable up to the next "}" or space
-			space := unicode.IsSpace(char) && !escaped
+			space := unicode.IsSpace(char) && char != '\r' && !escaped
 			if space && quotable {
 				return true
 			}
-- 
2.43.0


From 8e4b56bf36eda7bc51f1e63cb196e3d1e823ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:00 +0000
Subject: [PATCH 31/41] fix: close a file when it has been read, not when all
 files have been read

---
 parse.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index 86f5498..1064663 100644
--- a/parse.go
+++ b/parse.go
@@ -169,19 +169,13 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			return nil, err
 		}
 
-		defer file.Close()
-
-		tokens := LexWithOptions(file, options.LexOptions)
 		config := Config{
 			File:   incl.path,
 			Status: "ok",
 			Errors: []ConfigError{},
 			Parsed: Directives{},
 		}
-		parsed, err := p.parse(&config, tokens, incl.ctx, false)
-		// let the lexer finish, it would wait forever for its remaining tokens to be read
-		for range tokens { //nolint:revive
-		}
+		parsed, err := p.parseFile(&config, file, incl.ctx)
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
@@ -205,6 +199,18 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 	return payload, nil
 }
 
+// parseFile parses the contents of file and closes it, as there may be more files than can be open at once.
+func (p *parser) parseFile(config *Config, file io.ReadCloser, ctx blockCtx) (Directives, error) {
+	defer file.Close()
+
+	tokens := LexWithOptions(file, p.options.LexOptions)
+	parsed, err := p.parse(config, tokens, ctx, false)
+	// let the lexer finish, it would wait forever for its remaining tokens to be read
+	for range tokens { //nolint:revive
+	}
+	return parsed, err
+}
+
 func (p *parser) openFile(path string) (io.ReadCloser, error) {
 	open := osOpen
 	if p.options.Open != nil {
@@ -431,7 +437,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 						return nil, perr
 					}
 				} else {
-					defer f.Close()
+					f.Close()
 					fnames = []string{pattern}
 				}
 			}
-- 
2.43.0


From d339e209f2458f21596076941f72832699a46a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 32/41] fix: the list of directives of an empty config is an
 empty list, not null

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 1064663..ccfbfc9 100644
--- a/parse.go
+++ b/parse.go
@@ -182,7 +182,7 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			}
 			handleError(&config, err)
 		} else {
-			config.Parsed = parsed
+			config.Parsed = append(config.Parsed, parsed...)
 		}
 
 		payload.Config = append(payload.Config, config)
-- 
2.43.0


From 1eec77639d583357fefcc134b2f6366d23b4a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:37 +0000
Subject: [PATCH 33/41] fix: generate.sh takes the options of its help and
 passes their values on unchanged

---
 scripts/generate/generate.sh | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scripts/generate/generate.sh b/scripts/generate/generate.sh
index 5cc426c..4fe0628 100644
--- a/scripts/generate/generate.sh
+++ b/scripts/generate/generate.sh
@@ -86,12 +86,12 @@ while [ ! $# -eq 0 ]; do
             genArgs+=("-filter=$2")
             shift
             ;;
-        -override | -o)
-            genArgs+=("-override=\"$2\"")
+        --override | -override | -o)
+            genArgs+=("-override=$2")
             shift
             ;;
-        --match-func-comment | --mc)
-            genArgs+=("--match-func-comment=\"$2\"")
+        --match-func-comment | --mc | -mc)
+            genArgs+=("--match-func-comment=$2")
             shift
             ;;
         --path | -p)
@@ -137,5 +137,4 @@ else
     )
 fi
 
-# --match-fun-comment may contain spaces, to avoid auto quotes we go this way.
-sh -c "go run ./cmd/generate ${genArgs[*]}"
+go run ./cmd/generate "${genArgs[@]}"
-- 
2.43.0


From 691731413ec27e4c25ab0ec55fdf9989f32b679a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:12 +0000
Subject: [PATCH 34/41] fix: generate.sh takes the sources below the given path
 only

---
 scripts/generate/generate.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate/generate.sh b/scripts/generate/generate.sh
index 4fe0628..f9fa55f 100644
--- a/scripts/generate/generate.sh
+++ b/scripts/generate/generate.sh
@@ -122,7 +122,7 @@ cleanup() {
 }
 trap cleanup EXIT
 
-genArgs+=("--src-path=$tmp")
+genArgs+=("--src-path=$tmp/$sub_path")
 
 if [ "$sub_path" = "" ]; then
     git clone "$url" "$tmp" --depth 1 --branch "$branch" -q 1>&2
-- 
2.43.0


From 9728eb92c60df30aa0d308e6afd5e7451e42ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 35/41] fix: run generate.sh with bash, which it is written
 for, in the go:generate comments

---
 analyze.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/analyze.go b/analyze.go
index 3f5e18d..dd92192 100644
--- a/analyze.go
+++ b/analyze.go
@@ -11,35 +11,35 @@ package crossplane
 // please use -skip options to skip them. e.g. go generate -skip="nap".
 
 // Update for headersmore
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/openresty/headers-more-nginx-module.git --config-path ./scripts/generate/configs/headersmore_config.json > ./analyze_headersMore_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/openresty/headers-more-nginx-module.git --config-path ./scripts/generate/configs/headersmore_config.json > ./analyze_headersMore_directives.gen.go"
 
 // Update for njs
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/njs.git --config-path ./scripts/generate/configs/njs_config.json > ./analyze_njs_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/njs.git --config-path ./scripts/generate/configs/njs_config.json > ./analyze_njs_directives.gen.go"
 
 // Update for OSS, filter in config is the directives not in https://nginx.org/en/docs/dirindex.html but in source code.
 // Override in config is for the "if" directive. We create a bitmask ngxConfExpr for it in crossplane, which is not in source code.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_latest_config.json > ./analyze_oss_latest_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_126_config.json --branch stable-1.26 > ./analyze_oss_126_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_124_config.json --branch stable-1.24 > ./analyze_oss_124_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_latest_config.json > ./analyze_oss_latest_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_126_config.json --branch stable-1.26 > ./analyze_oss_126_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginx/nginx.git --config-path ./scripts/generate/configs/oss_124_config.json --branch stable-1.24 > ./analyze_oss_124_directives.gen.go"
 
 // Update for lua, override is for the lua block directives, see https://github.com/nginxinc/nginx-go-crossplane/pull/86.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/openresty/lua-nginx-module.git --config-path ./scripts/generate/configs/lua_config.json  --path ./src > ./analyze_lua_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/openresty/lua-nginx-module.git --config-path ./scripts/generate/configs/lua_config.json  --path ./src > ./analyze_lua_directives.gen.go"
 
 // Update for otel. Filter is for some directives without context.
 // Otel provides its own config handler for some directives and they don't have context. Currently we don't support them.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/nginxinc/nginx-otel.git --config-path ./scripts/generate/configs/otel_config.json --branch main > ./analyze_otel_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/nginxinc/nginx-otel.git --config-path ./scripts/generate/configs/otel_config.json --branch main > ./analyze_otel_directives.gen.go"
 
 // Update for NAP v4 and v5.
 // NAP is a private module. Please ensure you have correct access and put the url.
 // and branch of it in environment variable NAP_URL, NAP_V4_BRANCH, and NAP_V5_BRANCH.
 // Override is for flag directives. NAP used ngxConfTake1 for flag directives, we change them to ngxConfFlag in crossplane.
 // NAP v4
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v4_config.json --branch $NAP_V4_BRANCH --path ./src > analyze_appProtectWAFv4_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v4_config.json --branch $NAP_V4_BRANCH --path ./src > analyze_appProtectWAFv4_directives.gen.go"
 // NAP v5
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v5_config.json --branch $NAP_V5_BRANCH --path ./src > analyze_appProtectWAFv5_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NAP_URL --config-path ./scripts/generate/configs/nap_v5_config.json --branch $NAP_V5_BRANCH --path ./src > analyze_appProtectWAFv5_directives.gen.go"
 
 // Update for geoip2
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url https://github.com/leev/ngx_http_geoip2_module.git --config-path ./scripts/generate/configs/geoip2_config.json > ./analyze_geoip2_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url https://github.com/leev/ngx_http_geoip2_module.git --config-path ./scripts/generate/configs/geoip2_config.json > ./analyze_geoip2_directives.gen.go"
 
 // Update for NPlus.
 // NPlus source code is private. Please ensure you have the correct access
@@ -48,9 +48,9 @@ package crossplane
 // Override for NPlus R33 and the latest version is for mgmt directives and if directive.
 // For mgmt directives, we create a ngxMgmtMainConf as the context, which is not included in the source code.
 // For the "if" directive, we create a bitmask ngxConfExpr in crossplane, which is not included in the source code.
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_latest_config.json --branch $NPLUS_BRANCH --path ./src > ./analyze_nplus_latest_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R33_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R33_directives.gen.go"
-//go:generate sh -c "sh ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R34_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R34_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_latest_config.json --branch $NPLUS_BRANCH --path ./src > ./analyze_nplus_latest_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R33_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R33_directives.gen.go"
+//go:generate sh -c "bash ./scripts/generate/generate.sh --url $NPLUS_URL --config-path ./scripts/generate/configs/nplus_R34_config.json --branch $NPLUS_BRANCH --path ./src > analyze_nplus_R34_directives.gen.go"
 
 import (
 	"fmt"
-- 
2.43.0


From af9618c3212ed32c85cfcd8df4559f12a399bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 36/41] fix: leave the slice that Glob returned as it is

---
 parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.go b/parse.go
index ccfbfc9..f8f67fc 100644
--- a/parse.go
+++ b/parse.go
@@ -419,6 +419,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				if err != nil {
 					return nil, err
 				}
+				fnames = append([]string{}, fnames...) // Glob may give the same slice to others
 				sort.Strings(fnames)
 			} else {
 				// if the file pattern was explicit, nginx will check
-- 
2.43.0


From e0db6908bc545aff076fe1552741eaedbe93c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:56 +0000
Subject: [PATCH 37/41] fix: leave the errors of external lexers and readers as
 they are

---
 parse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index f8f67fc..8138428 100644
--- a/parse.go
+++ b/parse.go
@@ -498,9 +498,13 @@ func argComments(stmt *Directive, comments []string) Directives {
 func tokenError(parsing *Config, t NgxToken, ctx blockCtx) error {
 	var perr *ParseError
 	if errors.As(t.Error, &perr) {
-		perr.File = &parsing.File
-		perr.BlockCtx = ctx.getLastBlock()
-		return perr
+		e := *perr // the error may not be ours alone, if it is from an external lexer or from a reader
+		e.File = &parsing.File
+		e.BlockCtx = ctx.getLastBlock()
+		if e.originalErr == nil {
+			e.originalErr = t.Error
+		}
+		return &e
 	}
 	return &ParseError{
 		What:        t.Error.Error(),
-- 
2.43.0


From bc32d725d19cccbd9693d2111b9e8f5be707f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:11 +0000
Subject: [PATCH 38/41] fix: do not take a block for several blocks if there is
 a > in its name

---
 analyze.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index dd92192..515ba0d 100644
--- a/analyze.go
+++ b/analyze.go
@@ -54,6 +54,7 @@ package crossplane
 
 import (
 	"fmt"
+	"strings"
 )
 
 // bit masks for different directive argument styles.
@@ -131,6 +132,17 @@ var contexts = map[string]uint{
 	blockCtx{"http", "oidc_provider"}.key():            ngxHTTPOIDCConf,
 }
 
+// mask returns the bit mask of the context if it is a known one.
+func (c blockCtx) mask() (uint, bool) {
+	for _, name := range c {
+		if strings.Contains(name, ">") { // part of a name here, not between two names
+			return 0, false
+		}
+	}
+	mask, known := contexts[c.key()]
+	return mask, known
+}
+
 func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	// don't nest because ngxHTTPLocConf just means "location block in http"
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
@@ -146,7 +158,7 @@ func analyze(fname string, stmt *Directive, term string, ctx blockCtx, options *
 	var masks []uint
 	knownDirective := false
 
-	currCtx, knownContext := contexts[ctx.key()]
+	currCtx, knownContext := ctx.mask()
 	directiveName := stmt.Directive
 
 	// Find all bitmasks from the sources invoker provides.
-- 
2.43.0


From c852b97c8f704aef232ae92d95da2992dd5a8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:28 +0000
Subject: [PATCH 39/41] fix: do not take quadratic time and memory for deeply
 nested blocks

---
 analyze.go | 11 ++++++++---
 parse.go   |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/analyze.go b/analyze.go
index 515ba0d..925a185 100644
--- a/analyze.go
+++ b/analyze.go
@@ -132,8 +132,14 @@ var contexts = map[string]uint{
 	blockCtx{"http", "oidc_provider"}.key():            ngxHTTPOIDCConf,
 }
 
+// maxKnownCtx is the depth of the deepest of the contexts.
+const maxKnownCtx = 3
+
 // mask returns the bit mask of the context if it is a known one.
 func (c blockCtx) mask() (uint, bool) {
+	if len(c) > maxKnownCtx {
+		return 0, false
+	}
 	for _, name := range c {
 		if strings.Contains(name, ">") { // part of a name here, not between two names
 			return 0, false
@@ -148,9 +154,8 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
 		return blockCtx{"http", "location"}
 	}
-	// no other block contexts can be nested like location so just append it, to a
-	// copy because the contexts of included files are kept until those are parsed
-	return append(append(blockCtx{}, ctx...), stmt.Directive)
+	// no other block contexts can be nested like location so just append it
+	return append(ctx, stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
diff --git a/parse.go b/parse.go
index 8138428..5c9310d 100644
--- a/parse.go
+++ b/parse.go
@@ -448,7 +448,8 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// TODO: handle files included from multiple contexts
 				if _, ok := p.included[fname]; !ok {
 					p.included[fname] = len(p.included)
-					p.includes = append(p.includes, fileCtx{fname, ctx})
+					// ctx is overwritten by the next block on its level, so keep a copy
+					p.includes = append(p.includes, fileCtx{fname, append(blockCtx{}, ctx...)})
 				}
 				stmt.Includes = append(stmt.Includes, p.included[fname])
 				// add edge between the current file and it's included file and
-- 
2.43.0


From a0099a02e516cde99bff1c63fdbf0f265135d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:34 +0000
Subject: [PATCH 40/41] fix: read the variable of set_by_lua_block in linear
 time

---
 lua.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lua.go b/lua.go
index 1087005..181ecb6 100644
--- a/lua.go
+++ b/lua.go
@@ -66,15 +66,15 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 		// special handling for'set_by_lua_block' directive
 		// ignore potential hardcoded credentials linter warning for "set_by_lua_block"
 		if matchedToken == setByLuaBlock /* #nosec G101 */ {
-			arg := ""
+			var arg strings.Builder
 			for {
 				if !s.Scan() {
 					return
 				}
 				next := s.Text()
 				if isSpace(next) {
-					if arg != "" {
-						tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
+					if arg.Len() > 0 {
+						tokenCh <- NgxToken{Value: arg.String(), Line: s.Line(), IsQuoted: false}
 						break
 					}
 
@@ -85,7 +85,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 						next = s.Text()
 					}
 				}
-				arg += next
+				arg.WriteString(next)
 			}
 		}
 
-- 
2.43.0


From b7f5ab4115f89e5f0d6b677e8051b4542bf4504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:48 +0000
Subject: [PATCH 41/41] fix: do not panic for a negative indent

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index e09e121..5d95340 100644
--- a/build.go
+++ b/build.go
@@ -125,7 +125,7 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 func Build(w io.Writer, config Config, options *BuildOptions) error {
 	opts := *options // the caller's options may be in use by another Build
 	options = &opts
-	if options.Indent == 0 {
+	if options.Indent <= 0 {
 		options.Indent = 4
 	}
 
-- 
2.43.0

