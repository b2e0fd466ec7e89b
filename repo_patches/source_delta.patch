From 77263d62d62583383f29b3b8784d59416a777ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 01/42] fix: do not panic on an if directive with empty
 parentheses

prepareIfArgs sliced [1:0] when the only argument was "()", which reaches it
wherever the argument check does not run (unknown context, argument check
skipped, directive not in the selected sources).
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index b7af673..bee45fa 100644
--- a/util.go
+++ b/util.go
@@ -77,7 +77,7 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-		if len(d.Args[e]) == 0 {
+		if e >= b && len(d.Args[e]) == 0 {
 			e--
 		}
 		d.Args = d.Args[b : e+1]
-- 
2.43.0


From 9fbfe245460982055b940849ff85dc80a86de2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 02/42] fix: quote words that start with # when building

An argument or name such as "#fff" was written unquoted, so it became a comment
that swallowed the rest of the line, terminator included. External builders are
looked up by the directive's own name, which is what they are registered under.
---
 build.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 0544817..066a523 100644
--- a/build.go
+++ b/build.go
@@ -174,7 +174,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		_, _ = sb.WriteString(margin(options, depth))
 
 		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
@@ -260,7 +260,8 @@ func needsQuote(s string) bool {
 	char, off := utf8.DecodeRuneInString(chars)
 
 	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	// and a leading # would turn the rest of the line into a comment
+	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
-- 
2.43.0


From cef119f3f86aed47ffc1c2bb952d8336c25a6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 03/42] fix: do not add parentheses to a map parameter named if

---
 build.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 066a523..41232e9 100644
--- a/build.go
+++ b/build.go
@@ -186,8 +186,8 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		} else {
 			_, _ = sb.WriteString(directive)
 
-			// special handling for if statements
-			if directive == "if" {
+			// special handling for if statements (a map parameter can be named if, too)
+			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
 					if i > 0 {
-- 
2.43.0


From 5d340e133afd45a7b67ed58049e8ecee3938d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 04/42] fix: quote words so that they read back unchanged

Quoting through %q wrote control and other non-printable characters (no-break
space, zero-width joiner, line feed, ...) as Go escapes that neither the lexer nor
NGINX undoes, and chose a delimiter whose escape inside the word it then lost.
---
 build.go |  2 +-
 util.go  | 46 +++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/build.go b/build.go
index 41232e9..cbed1a1 100644
--- a/build.go
+++ b/build.go
@@ -238,7 +238,7 @@ func Enquote(arg string) string {
 	if !needsQuote(arg) {
 		return arg
 	}
-	return strings.ReplaceAll(repr(arg), `\\`, `\`)
+	return repr(arg)
 }
 
 //nolint:gocyclo
diff --git a/util.go b/util.go
index bee45fa..de34676 100644
--- a/util.go
+++ b/util.go
@@ -35,17 +35,49 @@ func isEOL(s string) bool {
 	return strings.HasSuffix(s, "\n")
 }
 
+// repr puts s in quotes so that the lexer reads s back from the result. Inside quotes
+// everything stands for itself, escape sequences included, except that the lexer drops
+// the backslash of an escaped delimiter and drops carriage returns.
 func repr(s string) string {
-	q := fmt.Sprintf("%q", s)
+	quote := `"`
+	if strings.Contains(s, `"`) {
+		// a quote that s itself escapes can't be the delimiter: it would lose its backslash
+		switch {
+		case !hasEscaped(s, '\''):
+			quote = `'`
+		case hasEscaped(s, '"'):
+			return s // neither will do, so it can only have been an unquoted word
+		}
+	}
+
+	sb := strings.Builder{}
+	sb.WriteString(quote)
+	esc := false
+	for _, char := range s {
+		switch {
+		case char == '\r':
+			sb.WriteString(`\r`)
+		case string(char) == quote && !esc:
+			sb.WriteString(`\` + quote)
+		default:
+			sb.WriteRune(char)
+		}
+		esc = char == '\\' && !esc
+	}
+	sb.WriteString(quote)
+	return sb.String()
+}
+
+// hasEscaped returns true if c occurs in s behind a backslash that isn't itself escaped.
+func hasEscaped(s string, c rune) bool {
+	esc := false
 	for _, char := range s {
-		if char == '"' {
-			q = strings.ReplaceAll(q, `\"`, `"`)
-			q = strings.ReplaceAll(q, `'`, `\'`)
-			q = `'` + q[1:len(q)-1] + `'`
-			return q
+		if esc && char == c {
+			return true
 		}
+		esc = char == '\\' && !esc
 	}
-	return q
+	return false
 }
 
 func validFlag(s string) bool {
-- 
2.43.0


From 1934f82a98409f47918ea88184b763625ef93547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 05/42] fix: give every block its own context

Contexts were built with a plain append, so the blocks of one parent could share
a backing array and a file included in one of them was parsed in the context of
a later sibling.
---
 analyze.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..ac6eaec 100644
--- a/analyze.go
+++ b/analyze.go
@@ -135,8 +135,9 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
 		return blockCtx{"http", "location"}
 	}
-	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// no other block contexts can be nested like location so just append it, to a copy
+	// since sibling blocks and the files they include must not share one array
+	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From 5df425524fc6a5ef958c0520d6dcc51c10682f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 06/42] fix: report a read error instead of treating it as the
 end of the file

The lexer never looked at the scanner's error, so a file that could only be read
in part was parsed successfully, silently truncated.
---
 lex.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lex.go b/lex.go
index 4b69cbe..b4190d0 100644
--- a/lex.go
+++ b/lex.go
@@ -327,6 +327,14 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		// the input wasn't read to its end, so what was read of it says nothing about the rest
+		token.Reset()
+		emit(tokenLine, false, &ParseError{File: &lexerFile, What: err.Error(), Line: &tokenLine, originalErr: err})
+		close(tokenCh)
+		return
+	}
+
 	if token.Len() > 0 {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
-- 
2.43.0


From 7438ce69000e33255abc70c3bdc88c3a00a976d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 07/42] fix: report a lexer error found between a directive's
 arguments

The argument loop took the error token for an empty argument. The error of an
external lexer, after which lexing goes on, was lost altogether; others came out
as a premature end of the file.
---
 lex.go   |  7 ++++++-
 parse.go | 35 ++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/lex.go b/lex.go
index b4190d0..26208dc 100644
--- a/lex.go
+++ b/lex.go
@@ -339,7 +339,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		emit(tokenStartLine, lexState == inQuote, nil)
 	}
 	if depth > 0 {
-		emit(tokenStartLine, false, &ParseError{File: &lexerFile, What: `unexpected end of file, expecting "}"`, Line: &tokenLine})
+		emit(tokenStartLine, false, &ParseError{
+			File:        &lexerFile,
+			What:        `unexpected end of file, expecting "}"`,
+			Line:        &tokenLine,
+			originalErr: ErrPrematureLexEnd,
+		})
 	}
 
 	close(tokenCh)
diff --git a/parse.go b/parse.go
index 58302d3..59d3ec2 100644
--- a/parse.go
+++ b/parse.go
@@ -208,6 +208,23 @@ func (p *parser) openFile(path string) (io.ReadCloser, error) {
 	return open(path)
 }
 
+// tokenError returns the error of a token as an error in the config that is being parsed.
+func tokenError(parsing *Config, t NgxToken, ctx blockCtx) error {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // parse Recursively parses directives from an nginx config context.
 //
 //nolint:gocyclo,funlen,gocognit,maintidx,nonamedreturns
@@ -216,19 +233,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, tokenError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
@@ -283,6 +288,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			// the end of the file is reported as such below
+			if t.Error != nil && !errors.Is(t.Error, ErrPrematureLexEnd) {
+				return nil, tokenError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
-- 
2.43.0


From d1e9af00fe772da0edfe1b499e00a522437b0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:59 +0000
Subject: [PATCH 08/42] fix: report a lexer error found in a skipped block

The error ended the token stream inside the block of an ignored or invalid
directive and was dropped there: the rest of the file was silently missing from
a payload that could even say ok.
---
 parse.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 59d3ec2..c0a537f 100644
--- a/parse.go
+++ b/parse.go
@@ -247,7 +247,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -319,7 +321,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+							return nil, err
+						}
 					}
 					continue
 				}
@@ -333,7 +337,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -346,7 +352,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			// if it was a block but shouldn"t have been then consume
 			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
 				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
+					if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+						return nil, err
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From ad2649d47255fbdf9d9e17b5b7d2a284b7099464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 09/42] fix: keep an invalid directive's block out of the
 enclosing one

After an error other than a missing terminator the parser went on inside the
invalid directive's block as if it were the enclosing block, whose end it then
took from it: later directives landed in the wrong block or, at the top level,
were dropped. In the same way, when "}" ended an invalid directive or map
parameter, the block it closes stayed open.
---
 parse.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index c0a537f..b2ae18b 100644
--- a/parse.go
+++ b/parse.go
@@ -325,6 +325,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 							return nil, err
 						}
 					}
+					// leave the map if that was its end
+					if t.Value == "}" {
+						break
+					}
 					continue
 				}
 				stmt.IsMapBlockParameter = true
@@ -349,14 +353,14 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
-						return nil, err
-					}
-				} else {
-					break
+			// leave the enclosing block if that was its end
+			if t.Value == "}" {
+				break
+			}
+			// consume the block of the invalid directive, it isn't part of the enclosing one
+			if t.Value == "{" {
+				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
+					return nil, err
 				}
 			}
 			// keep on parsin'
-- 
2.43.0


From f593ef6377185aef068f0b90fb8e478644c2ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 10/42] fix: do not accept a directive that ends at the end of
 its block

A directive without ';' before '}' was accepted when it is unknown, in an unknown
context, ignored, or argument checks are off, and took the brace with it: what
follows the block was parsed as part of it.
---
 parse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index b2ae18b..293ab7f 100644
--- a/parse.go
+++ b/parse.go
@@ -337,8 +337,8 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 
-		// consume the directive if it is ignored and move on
-		if contains(p.options.IgnoreDirectives, stmt.Directive) {
+		// consume the directive if it is ignored and move on, unless it was never terminated
+		if contains(p.options.IgnoreDirectives, stmt.Directive) && t.Value != "}" {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
 				if _, err := p.parse(parsing, tokens, ctx, true); err != nil {
@@ -350,6 +350,15 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		// raise errors if this statement is invalid
 		err = analyze(parsing.File, stmt, t.Value, ctx, p.options)
+		if err == nil && t.Value == "}" {
+			err = &ParseError{
+				What:      fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive),
+				File:      &parsing.File,
+				Line:      &stmt.Line,
+				Statement: stmt.String(),
+				BlockCtx:  ctx.getLastBlock(),
+			}
+		}
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-- 
2.43.0


From 1d832535d6a20f1232663243eb74641e2cde1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 11/42] fix: reject a ';' or '{' that follows no directive at
 the start or after Lua

A repeated ';' or '{' is an error, but the first word of a file and the word after
an external lexer's terminator were not covered: "; a;" gave a directive named
";" with the argument a.
---
 lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 26208dc..a753306 100644
--- a/lex.go
+++ b/lex.go
@@ -138,7 +138,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 	lexState := skipSpace
 	newToken := false
-	dupSpecialChar := false
+	dupSpecialChar := true // a directive has to come first
 	readNext := true
 	esc := false
 	depth := 0
@@ -195,6 +195,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
 					for tok := range extTokenCh {
 						tokenCh <- tok
+						dupSpecialChar = !tok.IsQuoted && (tok.Value == "{" || tok.Value == "}" || tok.Value == ";")
 					}
 					tokenLine = externalScanner.tokenLine
 
-- 
2.43.0


From fbe5dad26ecb1f6c6912d87e81a1ed1014ea971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 12/42] fix: give punctuation the line it is on when it ends a
 word of several lines

---
 lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex.go b/lex.go
index a753306..79643f3 100644
--- a/lex.go
+++ b/lex.go
@@ -264,6 +264,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				if token.Len() > 0 {
 					emit(tokenStartLine, false, nil)
 				}
+				tokenStartLine = tokenLine // that token may have started on an earlier line
 
 				// only '}' can be repeated
 				if dupSpecialChar && la != "}" {
-- 
2.43.0


From ab5f13b9c774b027796bd15b4b3b06d47f0adb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 13/42] fix: keep the comments found inside a map parameter

---
 parse.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/parse.go b/parse.go
index 293ab7f..178a42d 100644
--- a/parse.go
+++ b/parse.go
@@ -333,6 +333,7 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				}
 				stmt.IsMapBlockParameter = true
 				parsed = append(parsed, stmt)
+				parsed = append(parsed, commentDirectives(stmt, commentsInArgs)...)
 				continue
 			}
 		}
@@ -463,21 +464,28 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		parsed = append(parsed, stmt)
 
 		// add all comments found inside args after stmt is added
-		for _, comment := range commentsInArgs {
-			comment := comment
-			parsed = append(parsed, &Directive{
-				Directive: "#",
-				Line:      stmt.Line,
-				Args:      []string{},
-				File:      fileName,
-				Comment:   &comment,
-			})
-		}
+		parsed = append(parsed, commentDirectives(stmt, commentsInArgs)...)
 	}
 
 	return parsed, nil
 }
 
+// commentDirectives returns directives for the comments found inside the arguments of stmt.
+func commentDirectives(stmt *Directive, comments []string) Directives {
+	var parsed Directives
+	for _, comment := range comments {
+		comment := comment
+		parsed = append(parsed, &Directive{
+			Directive: "#",
+			Line:      stmt.Line,
+			Args:      []string{},
+			File:      stmt.File,
+			Comment:   &comment,
+		})
+	}
+	return parsed
+}
+
 // isAcyclic performs a topological sort to check if there are cycles created by configs' includes.
 // First, it adds any files who are not being referenced by another file to a queue (in degree of 0).
 // For every file in the queue, it will remove the reference it has towards its neighbors.
-- 
2.43.0


From 48aed90539bf2a0f2bc28fa2667cddb91dbbd9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 14/42] fix: do not leave the lexer running when a file has an
 error

Parse stopped taking tokens at the error. If more of them were left than fit into
the channel, the lexer's goroutine blocked for good; if fewer were, it could still
be reading the file when Parse closed it.
---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 178a42d..5be18ad 100644
--- a/parse.go
+++ b/parse.go
@@ -177,6 +177,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 			Parsed: Directives{},
 		}
 		parsed, err := p.parse(&config, tokens, incl.ctx, false)
+		// an error leaves tokens behind: take them, so that the lexer ends and is done with the file
+		for range tokens {
+		}
 		if err != nil {
 			if options.StopParsingOnError {
 				return nil, err
-- 
2.43.0


From c14041f40a2de27b90009647819a4f36b6c619de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:48 +0000
Subject: [PATCH 15/42] fix: do not write to the caller's options

Parse set Glob, Build set Indent and cached the registered builders: a data race
when options are shared, and a later Build ignored a change of Builders.
---
 build.go | 6 ++++++
 parse.go | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index cbed1a1..ea346aa 100644
--- a/build.go
+++ b/build.go
@@ -85,6 +85,9 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 		dir = cwd
 	}
 
+	opts := *options // the caller's may be in use elsewhere
+	options = &opts
+
 	for _, o := range options.Builders {
 		o.applyBuildOptions(options)
 	}
@@ -126,6 +129,9 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 // Build creates an NGINX config from a crossplane.Config.
 func Build(w io.Writer, config Config, options *BuildOptions) error {
+	opts := *options // the caller's may be in use elsewhere
+	options = &opts
+
 	if options.Indent == 0 {
 		options.Indent = 4
 	}
diff --git a/parse.go b/parse.go
index 5be18ad..998d1dd 100644
--- a/parse.go
+++ b/parse.go
@@ -123,7 +123,9 @@ func Parse(filename string, options *ParseOptions) (*Payload, error) {
 		Config: []Config{},
 	}
 	if options.Glob == nil {
-		options.Glob = filepath.Glob
+		opts := *options // the caller's may be in use elsewhere
+		opts.Glob = filepath.Glob
+		options = &opts
 	}
 
 	handleError := func(config *Config, err error) {
-- 
2.43.0


From 01a0b2bdfc88461f78a2eb97a8e2b9fedde0556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 16/42] fix: make Combined fail on payloads it cannot combine

A negative include index crashed the process, an include cycle never ended, and
an error in an included config left goroutines behind.
---
 util.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/util.go b/util.go
index de34676..38ecae7 100644
--- a/util.go
+++ b/util.go
@@ -147,7 +147,7 @@ func combineConfigs(old *Payload) (*Payload, error) {
 		}
 	}
 
-	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed) {
+	for incl := range performIncludes(old, combined.File, old.Config[0].Parsed, []int{0}) {
 		if incl.err != nil {
 			return nil, incl.err
 		}
@@ -161,7 +161,10 @@ func combineConfigs(old *Payload) (*Payload, error) {
 	}, nil
 }
 
-func performIncludes(old *Payload, fromfile string, block Directives) chan included {
+// performIncludes sends the directives of block with the including logic performed. path holds
+// the indices of the configs that are being included, up to and including the block's own. Nothing
+// is sent after an error.
+func performIncludes(old *Payload, fromfile string, block Directives, path []int) chan included {
 	c := make(chan included)
 	go func() {
 		defer close(c)
@@ -169,7 +172,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 			dir := *d
 			if dir.IsBlock() {
 				nblock := Directives{}
-				for incl := range performIncludes(old, fromfile, dir.Block) {
+				for incl := range performIncludes(old, fromfile, dir.Block, path) {
 					if incl.err != nil {
 						c <- incl
 						return
@@ -183,10 +186,19 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				what := ""
+				if idx < 0 || idx >= len(old.Config) {
+					what = fmt.Sprintf("include config with index: %d", idx)
+				}
+				for _, i := range path {
+					if i == idx {
+						what = "configs contain include cycle"
+					}
+				}
+				if what != "" {
 					c <- included{
 						err: &ParseError{
-							What:      fmt.Sprintf("include config with index: %d", idx),
+							What:      what,
 							File:      &fromfile,
 							Line:      &dir.Line,
 							Statement: dir.String(),
@@ -194,8 +206,12 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 					}
 					return
 				}
-				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed) {
+				inner := append(path[:len(path):len(path)], idx)
+				for incl := range performIncludes(old, old.Config[idx].File, old.Config[idx].Parsed, inner) {
 					c <- incl
+					if incl.err != nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0


From 0cccbd0cc17338767f0de704c0110e59cbc701f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 17/42] fix: keep empty blocks in the JSON form of a payload

"events {}" was encoded like "events;" and so was built as that after a round
trip through JSON.
---
 types.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/types.go b/types.go
index 5d6dc64..c9c881c 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@
 package crossplane
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 )
@@ -51,6 +52,18 @@ type Directive struct {
 
 type Directives []*Directive
 
+// MarshalJSON keeps a directive with an empty block apart from one without a block.
+func (d Directive) MarshalJSON() ([]byte, error) {
+	type plain Directive // has no MarshalJSON
+	if d.Block == nil || len(d.Block) > 0 {
+		return json.Marshal(plain(d))
+	}
+	return json.Marshal(struct {
+		plain
+		Block Directives `json:"block"`
+	}{plain(d), d.Block})
+}
+
 // IsBlock returns true if this is a block directive.
 func (d Directive) IsBlock() bool {
 	return d.Block != nil
-- 
2.43.0


From 9f8c54588d3d4a2494bf9a5afddcba69499b8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 18/42] fix: do not lex an argument at the start of a line as a
 Lua block

---
 lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lex.go b/lex.go
index 79643f3..5bb58cf 100644
--- a/lex.go
+++ b/lex.go
@@ -163,7 +163,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = scanner.Text()
 			if isEOL(la) {
 				tokenLine++
-				nextTokenIsDirective = true
 			}
 		} else {
 			readNext = true
@@ -221,7 +220,6 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 				newToken = false
 				if la == "#" {
 					token.WriteString(la)
-					nextTokenIsDirective = false
 					lexState = inComment
 					tokenStartLine = tokenLine
 					continue
@@ -320,6 +318,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 		case inQuote:
 			if la == quote {
 				emit(tokenStartLine, true, nil)
+				nextTokenIsDirective = false
 				continue
 			}
 			if la == "\\"+quote {
-- 
2.43.0


From f0537af265672f9940e6dab05597a8eb316de20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 19/42] fix: let a block's opening brace follow the name of a
 Lua directive directly

---
 lex.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/lex.go b/lex.go
index 5bb58cf..db0f461 100644
--- a/lex.go
+++ b/lex.go
@@ -107,25 +107,30 @@ func Lex(reader io.Reader) chan NgxToken {
 type SubScanner struct {
 	scanner   *bufio.Scanner
 	tokenLine int
+	unread    string // read already, but still to be scanned
+	text      string
 }
 
 // Scan advances the scanner to the next token which will be available though the Text method. It returns false
 // when the scan stops by reaching the end of input.
 func (e *SubScanner) Scan() bool {
-	if !e.scanner.Scan() {
-		return false
+	if e.unread != "" {
+		e.text, e.unread = e.unread, ""
+		return true
 	}
-	if t := e.scanner.Text(); isEOL(t) {
+	ok := e.scanner.Scan()
+	e.text = e.scanner.Text()
+	if ok && isEOL(e.text) {
 		e.tokenLine++
 	}
-	return true
+	return ok
 }
 
 // Err returns the fist non-EOF error encountered by the Scanner.
 func (e *SubScanner) Err() error { return e.scanner.Err() }
 
 // Text returns the most recent token generated by a call to Scan.
-func (e *SubScanner) Text() string { return e.scanner.Text() }
+func (e *SubScanner) Text() string { return e.text }
 
 // Line returns the line number of the most recent token generated by a call to Scan.
 func (e *SubScanner) Line() int { return e.tokenLine }
@@ -182,15 +187,19 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 			la = "\\" + la
 		}
 
-		if token.Len() > 0 {
+		// the name of a directive is complete if this ends the word or the string that it is
+		endOfWord := lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";")
+		endOfQuote := lexState == inQuote && la == quote
+		if token.Len() > 0 && (endOfWord || endOfQuote) {
 			tokenStr := token.String()
 			if nextTokenIsDirective {
 				if ext, ok := options.extLexers[tokenStr]; ok {
-					// saving lex state before emitting tokenStr to know if we encountered start quote
-					lastLexState := lexState
-					emit(tokenStartLine, lexState == inQuote, nil)
+					emit(tokenStartLine, endOfQuote, nil)
 
 					externalScanner := &SubScanner{scanner: scanner, tokenLine: tokenLine}
+					if endOfWord && !isSpace(la) {
+						externalScanner.unread = la // a word doesn't include what ends it
+					}
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
 					for tok := range extTokenCh {
 						tokenCh <- tok
@@ -198,8 +207,8 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					}
 					tokenLine = externalScanner.tokenLine
 
-					// if we detected a start quote and current char after external lexer processing is end quote we skip it
-					if lastLexState == inQuote && la == quote {
+					// go on behind what the external lexer has read
+					if la = externalScanner.unread; la == "" {
 						continue
 					}
 				}
-- 
2.43.0


From 47da3a21f06c56819119c17dd1c292ea44085fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 20/42] fix: do not let a comment marker inside a comment or
 string hide directives

---
 internal/generator/generator_util.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..04ef66f 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -46,9 +46,8 @@ var (
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
 	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// Matches comments, as well as the string and character literals, in which no comment starts.
+	literalOrComment = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//.*|/\*[\s\S]*?\*/`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,8 +108,12 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
+	strContent = literalOrComment.ReplaceAllStringFunc(strContent, func(s string) string {
+		if strings.HasPrefix(s, "/") {
+			return ""
+		}
+		return s
+	})
 	strContent = strings.ReplaceAll(strContent, "\r\n", "")
 	strContent = strings.ReplaceAll(strContent, "\n", "")
 
-- 
2.43.0


From eb383957335a0889b224d33222506b5d4ef11ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 21/42] fix: find directives whose definition has line ends or
 spaces inside

---
 internal/generator/generator_util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 04ef66f..1d9130c 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -37,14 +37,14 @@ var (
 	// Extract single directive definition block
 	// static ngx_command_t  {name}[] = {definition}
 	// this regex extracts {name} and {definition}.
-	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\[\]\s*=\s*{(.*?)}\s*;`)
+	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\s*\[\s*\]\s*=\s*{(.*?)}\s*;`)
 
 	// Extract one directive definition and attributes from extracted block
 	// { ngx_string({directive_name}),
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
 	// Matches comments, as well as the string and character literals, in which no comment starts.
 	literalOrComment = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//.*|/\*[\s\S]*?\*/`)
@@ -114,8 +114,8 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 		}
 		return s
 	})
-	strContent = strings.ReplaceAll(strContent, "\r\n", "")
-	strContent = strings.ReplaceAll(strContent, "\n", "")
+	strContent = strings.ReplaceAll(strContent, "\r\n", " ")
+	strContent = strings.ReplaceAll(strContent, "\n", " ")
 
 	// Extract directives definition code blocks, each code block contains a list of directives definition
 	blocks := directivesDefineBlockExtracter.FindAllStringSubmatch(strContent, -1)
-- 
2.43.0


From 6fc0edf9bcf1fec841aac96f4808826f3ebe4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 22/42] fix: do not HTML-escape the generated Go source

---
 internal/generator/generator_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 1d9130c..d246c85 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -11,13 +11,13 @@ import (
 	_ "embed"
 	"errors"
 	"fmt"
-	"html/template"
 	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
 	"strings"
+	"text/template"
 )
 
 // A Mask is a list of string, includes several variable names,
-- 
2.43.0


From 352d505937688524b21972af41a7b4651e024aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:16 +0000
Subject: [PATCH 23/42] fix: give the variable of set_by_lua_block the line it
 is on

---
 lua.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lua.go b/lua.go
index dd4a45b..560de2a 100644
--- a/lua.go
+++ b/lua.go
@@ -67,6 +67,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 		// ignore potential hardcoded credentials linter warning for "set_by_lua_block"
 		if matchedToken == setByLuaBlock /* #nosec G101 */ {
 			arg := ""
+			argLine := 0
 			for {
 				if !s.Scan() {
 					return
@@ -74,7 +75,7 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 				next := s.Text()
 				if isSpace(next) {
 					if arg != "" {
-						tokenCh <- NgxToken{Value: arg, Line: s.Line(), IsQuoted: false}
+						tokenCh <- NgxToken{Value: arg, Line: argLine, IsQuoted: false}
 						break
 					}
 
@@ -85,6 +86,9 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 						next = s.Text()
 					}
 				}
+				if arg == "" {
+					argLine = s.Line()
+				}
 				arg += next
 			}
 		}
-- 
2.43.0


From 88c888d58bcd9982bd717bfb4412efb529f97c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 24/42] fix: quote words in which a separator follows an
 escaped backslash at the start

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index ea346aa..915de79 100644
--- a/build.go
+++ b/build.go
@@ -274,7 +274,7 @@ func needsQuote(s string) bool {
 	chars = chars[off:]
 
 	expanding := false
-	var prev rune
+	prev := char
 	for _, c := range chars {
 		char = c
 
-- 
2.43.0


From 308aa9295ec370cfbc1e9b898c12c1fd5384145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 25/42] fix: end the variable of set_by_lua_block where its
 block opens

---
 lua.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lua.go b/lua.go
index 560de2a..5c089e0 100644
--- a/lua.go
+++ b/lua.go
@@ -86,6 +86,14 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 						next = s.Text()
 					}
 				}
+				// a brace or semicolon is not part of the variable, except for the brace of ${...}
+				if (arg == "" && next == "}") || next == ";" || (next == "{" && !strings.HasSuffix(arg, "$")) {
+					s.unread = next
+					if arg != "" {
+						tokenCh <- NgxToken{Value: arg, Line: argLine, IsQuoted: false}
+					}
+					break
+				}
 				if arg == "" {
 					argLine = s.Line()
 				}
-- 
2.43.0


From 119b1132d9b1947097f49f919db686b38e683da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 26/42] fix: keep the message of every error in JSON

---
 types.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/types.go b/types.go
index c9c881c..95a901f 100644
--- a/types.go
+++ b/types.go
@@ -38,6 +38,33 @@ type ConfigError struct {
 	Error error `json:"error"`
 }
 
+// MarshalJSON gives the error as its message, whatever its type.
+func (e PayloadError) MarshalJSON() ([]byte, error) {
+	type plain PayloadError // has no MarshalJSON
+	e.Error = toMessage(e.Error)
+	return json.Marshal(plain(e))
+}
+
+// MarshalJSON gives the error as its message, whatever its type.
+func (e ConfigError) MarshalJSON() ([]byte, error) {
+	type plain ConfigError // has no MarshalJSON
+	e.Error = toMessage(e.Error)
+	return json.Marshal(plain(e))
+}
+
+// message is an error that is its message in JSON.
+type message string
+
+func (m message) Error() string { return string(m) }
+
+// toMessage replaces an error that doesn't know what it is in JSON.
+func toMessage(err error) error {
+	if _, ok := err.(json.Marshaler); ok || err == nil {
+		return err
+	}
+	return message(err.Error())
+}
+
 type Directive struct {
 	Directive string     `json:"directive"`
 	Line      int        `json:"line"`
-- 
2.43.0


From 8ce6af4694b55815a24e4e03d455ef398be83068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:08 +0000
Subject: [PATCH 27/42] fix: let payloads with errors be read from JSON

---
 types.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/types.go b/types.go
index 95a901f..a599730 100644
--- a/types.go
+++ b/types.go
@@ -52,6 +52,38 @@ func (e ConfigError) MarshalJSON() ([]byte, error) {
 	return json.Marshal(plain(e))
 }
 
+// UnmarshalJSON reads the error from its message.
+func (e *PayloadError) UnmarshalJSON(b []byte) error {
+	type plain PayloadError // has no UnmarshalJSON
+	v := struct {
+		*plain
+		Error *message `json:"error"`
+	}{plain: (*plain)(e)}
+	if err := json.Unmarshal(b, &v); err != nil {
+		return err
+	}
+	if e.Error = nil; v.Error != nil {
+		e.Error = *v.Error
+	}
+	return nil
+}
+
+// UnmarshalJSON reads the error from its message.
+func (e *ConfigError) UnmarshalJSON(b []byte) error {
+	type plain ConfigError // has no UnmarshalJSON
+	v := struct {
+		*plain
+		Error *message `json:"error"`
+	}{plain: (*plain)(e)}
+	if err := json.Unmarshal(b, &v); err != nil {
+		return err
+	}
+	if e.Error = nil; v.Error != nil {
+		e.Error = *v.Error
+	}
+	return nil
+}
+
 // message is an error that is its message in JSON.
 type message string
 
-- 
2.43.0


From a9fb45aa028ef5105e93bd9f8fed74828c74194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:09 +0000
Subject: [PATCH 28/42] fix: close a file that could not be written

---
 build.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.go b/build.go
index 915de79..7963cb8 100644
--- a/build.go
+++ b/build.go
@@ -117,6 +117,7 @@ func BuildFiles(payload Payload, dir string, options *BuildOptions) error {
 
 		output := append(bytes.TrimRightFunc(buf.Bytes(), unicode.IsSpace), '\n')
 		if _, err := f.Write(output); err != nil {
+			_ = f.Close()
 			return err
 		}
 		if err := f.Close(); err != nil {
@@ -342,6 +343,7 @@ func BuildInto(payload *Payload, into Creator, options *BuildOptions) error {
 			return err
 		}
 		if err := Build(wc, config, options); err != nil {
+			_ = wc.Close()
 			return err
 		}
 
-- 
2.43.0


From d52bf5697d50b8100e6037b09897aad70a81187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 29/42] fix: do not take blocks with odd names for the main or
 another known context

---
 analyze.go | 7 ++++++-
 parse.go   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/analyze.go b/analyze.go
index ac6eaec..d4d1f27 100644
--- a/analyze.go
+++ b/analyze.go
@@ -135,9 +135,14 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 	if len(ctx) > 0 && ctx[0] == "http" && stmt.Directive == "location" {
 		return blockCtx{"http", "location"}
 	}
+	name := stmt.Directive
+	if name == "" {
+		// an empty name would make this context look like main
+		name = `""`
+	}
 	// no other block contexts can be nested like location so just append it, to a copy
 	// since sibling blocks and the files they include must not share one array
-	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
+	return append(ctx[:len(ctx):len(ctx)], name)
 }
 
 //nolint:gocyclo,funlen,gocognit
diff --git a/parse.go b/parse.go
index 998d1dd..a5dfca3 100644
--- a/parse.go
+++ b/parse.go
@@ -28,7 +28,12 @@ var (
 type blockCtx []string
 
 func (c blockCtx) key() string {
-	return strings.Join(c, ">")
+	names := make([]string, 0, len(c))
+	for _, name := range c {
+		// the name of a block may contain the separator
+		names = append(names, strings.ReplaceAll(name, ">", ">>"))
+	}
+	return strings.Join(names, ">")
 }
 
 func (c blockCtx) getLastBlock() string {
-- 
2.43.0


From b0603c9fdc2a79ecbbbaaeab5ffc73770d0ea820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:09 +0000
Subject: [PATCH 30/42] fix: keep a quoted first word of an if condition apart
 from the parenthesis

---
 build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 7963cb8..190ff25 100644
--- a/build.go
+++ b/build.go
@@ -197,7 +197,8 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					// a quote directly after the parenthesis would not start a string
+					if i > 0 || needsQuote(arg) {
 						_, _ = sb.WriteString(" ")
 					}
 					_, _ = sb.WriteString(Enquote(arg))
-- 
2.43.0


From 6a098b1c95d6ee4ffadd9646d41c6a965a577140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 31/42] fix: do not drop the code of a set_by_lua_block without
 a variable

---
 lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lua.go b/lua.go
index 5c089e0..d012fec 100644
--- a/lua.go
+++ b/lua.go
@@ -194,10 +194,7 @@ func (l *Lua) RegisterBuilder() RegisterBuilder { //nolint:ireturn
 
 // Build generates Lua configurations based on the provided directive.
 func (l *Lua) Build(stmt *Directive) string {
-	if stmt.Directive == setByLuaBlock {
-		if len(stmt.Args) < numArgsForSetByLuaBlock {
-			return stmt.Directive
-		}
+	if stmt.Directive == setByLuaBlock && len(stmt.Args) >= numArgsForSetByLuaBlock {
 		return fmt.Sprintf("%s %s {%s}", stmt.Directive, stmt.Args[0], stmt.Args[1])
 	}
 	if len(stmt.Args) < numArgsForOtherDirectives {
-- 
2.43.0


From 1de41430c8b406b20f070454a393f7522be911e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:54 +0000
Subject: [PATCH 32/42] fix: keep a comment on the line of a statement that has
 its own builder

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index 190ff25..57bf311 100644
--- a/build.go
+++ b/build.go
@@ -183,6 +183,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		if options.extBuilders != nil {
 			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
+				lastLine = stmt.Line
 				continue
 			}
 		}
-- 
2.43.0


From 5bacd7ec90724eb83a58fb9168b8fd56036fe61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 33/42] fix: do not report a read error inside a Lua block
 ahead of the text read before it

---
 lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lua.go b/lua.go
index d012fec..e14f9a3 100644
--- a/lua.go
+++ b/lua.go
@@ -125,11 +125,8 @@ func (l *Lua) Lex(s *SubScanner, matchedToken string) <-chan NgxToken {
 				return
 			}
 
+			// a read error ends the text here; the lexer reports it where the text ends
 			next := s.Text()
-			if err := s.Err(); err != nil {
-				lineno := s.Line()
-				tokenCh <- NgxToken{Error: &ParseError{File: &lexerFile, What: err.Error(), Line: &lineno}}
-			}
 
 			switch {
 			case next == "{" && !inQuotes:
-- 
2.43.0


From 78a9ab315540273cfda6ab882e844feba155d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:29 +0000
Subject: [PATCH 34/42] fix: do not share argument lists between the copies of
 a config included twice

---
 util.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util.go b/util.go
index 38ecae7..e8eecef 100644
--- a/util.go
+++ b/util.go
@@ -169,7 +169,14 @@ func performIncludes(old *Payload, fromfile string, block Directives, path []int
 	go func() {
 		defer close(c)
 		for _, d := range block {
+			// a config may be included more than once
 			dir := *d
+			dir.Args = append(d.Args[:0:0], d.Args...)
+			dir.Includes = append(d.Includes[:0:0], d.Includes...)
+			if d.Comment != nil {
+				comment := *d.Comment
+				dir.Comment = &comment
+			}
 			if dir.IsBlock() {
 				nblock := Directives{}
 				for incl := range performIncludes(old, fromfile, dir.Block, path) {
-- 
2.43.0


From e4fbf1832a387b7ebb4c9b0cdee74bbc96f9fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:35 +0000
Subject: [PATCH 35/42] fix: do not panic on a negative indent

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 57bf311..0279034 100644
--- a/build.go
+++ b/build.go
@@ -133,7 +133,7 @@ func Build(w io.Writer, config Config, options *BuildOptions) error {
 	opts := *options // the caller's may be in use elsewhere
 	options = &opts
 
-	if options.Indent == 0 {
+	if options.Indent <= 0 {
 		options.Indent = 4
 	}
 
-- 
2.43.0


From 352f1038f39da1686296a99ac260c15a315a48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 36/42] fix: copy the block context of an included file instead
 of every block's

Copying it for every block takes memory quadratic in the depth of the blocks.
---
 analyze.go | 5 ++---
 parse.go   | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/analyze.go b/analyze.go
index d4d1f27..45afd93 100644
--- a/analyze.go
+++ b/analyze.go
@@ -140,9 +140,8 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		// an empty name would make this context look like main
 		name = `""`
 	}
-	// no other block contexts can be nested like location so just append it, to a copy
-	// since sibling blocks and the files they include must not share one array
-	return append(ctx[:len(ctx):len(ctx)], name)
+	// no other block contexts can be nested like location so just append it
+	return append(ctx, name)
 }
 
 //nolint:gocyclo,funlen,gocognit
diff --git a/parse.go b/parse.go
index a5dfca3..1aaa077 100644
--- a/parse.go
+++ b/parse.go
@@ -450,7 +450,8 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				// TODO: handle files included from multiple contexts
 				if _, ok := p.included[fname]; !ok {
 					p.included[fname] = len(p.included)
-					p.includes = append(p.includes, fileCtx{fname, ctx})
+					// keep a copy since the blocks that follow may write to the same array
+					p.includes = append(p.includes, fileCtx{fname, append(blockCtx{}, ctx...)})
 				}
 				stmt.Includes = append(stmt.Includes, p.included[fname])
 				// add edge between the current file and it's included file and
-- 
2.43.0


From bb9ca53b450265034bddf002c6c6ca7534e80eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 37/42] fix: read comments in the generator's sources as C does

A comment separates the words around it, and a line comment goes on after a
backslash at the end of its line.
---
 internal/generator/generator_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index d246c85..2f17540 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -47,7 +47,7 @@ var (
 	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
 	// Matches comments, as well as the string and character literals, in which no comment starts.
-	literalOrComment = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//.*|/\*[\s\S]*?\*/`)
+	literalOrComment = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//(?:\\\r?\n|.)*|/\*[\s\S]*?\*/`)
 )
 
 // Template of support file. A support file contains a map from
@@ -107,10 +107,10 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	}
 	strContent := string(byteContent)
 
-	// Remove comments
+	// Replace every comment by a space, as C does
 	strContent = literalOrComment.ReplaceAllStringFunc(strContent, func(s string) string {
 		if strings.HasPrefix(s, "/") {
-			return ""
+			return " "
 		}
 		return s
 	})
-- 
2.43.0


From da1f00c03aa7a12656c95fceb70d86d716b7e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 38/42] fix: do not take names that end in ngx_command_t or
 ngx_string for these

---
 internal/generator/generator_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 2f17540..cd8e405 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -37,14 +37,14 @@ var (
 	// Extract single directive definition block
 	// static ngx_command_t  {name}[] = {definition}
 	// this regex extracts {name} and {definition}.
-	directivesDefineBlockExtracter = regexp.MustCompile(`ngx_command_t\s+(\w+)\s*\[\s*\]\s*=\s*{(.*?)}\s*;`)
+	directivesDefineBlockExtracter = regexp.MustCompile(`\bngx_command_t\s+(\w+)\s*\[\s*\]\s*=\s*{(.*?)}\s*;`)
 
 	// Extract one directive definition and attributes from extracted block
 	// { ngx_string({directive_name}),
 	//   {bitmask1|bitmask2|...},
 	//   ... },
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
-	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
+	singleDirectiveExtracter = regexp.MustCompile(`\bngx_string\s*\(\s*"(.*?)"\s*\).*?,(.*?),`)
 
 	// Matches comments, as well as the string and character literals, in which no comment starts.
 	literalOrComment = regexp.MustCompile(`"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|//(?:\\\r?\n|.)*|/\*[\s\S]*?\*/`)
-- 
2.43.0


From 2cda80e55fd1ea5cf7de370dabf87e124772b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 39/42] fix: define the constant the generator uses for
 NGX_CONF_TAKE7

---
 analyze.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 45afd93..10a787c 100644
--- a/analyze.go
+++ b/analyze.go
@@ -65,7 +65,8 @@ const (
 	ngxConfTake4  = 0x00000010 // 4 args
 	ngxConfTake5  = 0x00000020 // 5 args
 	ngxConfTake6  = 0x00000040 // 6 args
-	// ngxConfTake7  = 0x00000080 // 7 args (currently unused).
+	ngxConfTake7  = 0x00000080 // 7 args
+
 	ngxConfBlock = 0x00000100 // followed by block
 	ngxConfExpr  = 0x00000200 // directive followed by expression in parentheses `()`
 	ngxConfFlag  = 0x00000400 // 'on' or 'off'
-- 
2.43.0


From 35a1345de76e08677fc7bc89bceab10bb2288134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:11 +0000
Subject: [PATCH 40/42] fix: arguments behind the tokens of an external lexer
 were taken for directive names

A registered lexer whose tokens do not end the directive left the lexer
expecting a directive: a following argument that is the name of a Lua
block was lexed as one.
---
 lex.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index db0f461..1cb9df7 100644
--- a/lex.go
+++ b/lex.go
@@ -203,8 +203,12 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 					extTokenCh := ext.Lex(externalScanner, tokenStr)
 					for tok := range extTokenCh {
 						tokenCh <- tok
-						dupSpecialChar = !tok.IsQuoted && (tok.Value == "{" || tok.Value == "}" || tok.Value == ";")
+						if tok.IsQuoted || !strings.HasPrefix(tok.Value, "#") {
+							dupSpecialChar = !tok.IsQuoted && (tok.Value == "{" || tok.Value == "}" || tok.Value == ";")
+						}
 					}
+					// unless these tokens end the directive, an argument of it follows
+					nextTokenIsDirective = dupSpecialChar
 					tokenLine = externalScanner.tokenLine
 
 					// go on behind what the external lexer has read
-- 
2.43.0


From 7674cfe7425bead8a85583f983f1a02ec27decca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 41/42] fix: if conditions of nothing but whitespace in quotes
 were accepted

`if "( )" {}` lost all its arguments and was built as `if () {}`, which is
not accepted, as an empty condition.
---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index e8eecef..7f5997c 100644
--- a/util.go
+++ b/util.go
@@ -94,8 +94,8 @@ func validExpr(d *Directive) bool {
 	return l > 0 &&
 		strings.HasPrefix(d.Args[b], "(") &&
 		strings.HasSuffix(d.Args[e], ")") &&
-		((l == 1 && len(d.Args[b]) > 2) || // empty expression single arg '()'
-			(l == 2 && (len(d.Args[b]) > 1 || len(d.Args[e]) > 1)) || // empty expression two args '(', ')'
+		((l == 1 && len(d.Args[b]) > 2 && !isSpace(d.Args[b][1:len(d.Args[b])-1])) || // empty expression single arg '()'
+			(l == 2 && (!isSpace(d.Args[b][1:]) || !isSpace(d.Args[e][:len(d.Args[e])-1]))) || // empty expression two args '(', ')'
 			(l > 2)) //nolint: mnd
 }
 
-- 
2.43.0


From 035c7e1d9c2eae0dc065966c7ccd24b10ff1df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:32 +0000
Subject: [PATCH 42/42] fix: keep escaped characters at the end of an if
 condition

The whitespace trimmed before the closing parenthesis could be escaped, which
left a backslash that escaped nothing and could not be written back; and Build
put an argument that ends in a backslash (from `if (a\))`) in quotes, which
that backslash then escaped.
---
 build.go |  8 +++++++-
 util.go  | 18 +++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 0279034..c2f7b6c 100644
--- a/build.go
+++ b/build.go
@@ -197,14 +197,20 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			// special handling for if statements (a map parameter can be named if, too)
 			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
+				closing := ")"
 				for i, arg := range stmt.Args {
+					// a backslash at the end belongs to the parenthesis
+					if i == len(stmt.Args)-1 && endsInEscape(arg) {
+						arg += closing
+						closing = ""
+					}
 					// a quote directly after the parenthesis would not start a string
 					if i > 0 || needsQuote(arg) {
 						_, _ = sb.WriteString(" ")
 					}
 					_, _ = sb.WriteString(Enquote(arg))
 				}
-				_, _ = sb.WriteString(")")
+				_, _ = sb.WriteString(closing)
 			} else {
 				for _, arg := range stmt.Args {
 					_, _ = sb.WriteString(" ")
diff --git a/util.go b/util.go
index 7f5997c..4caa41a 100644
--- a/util.go
+++ b/util.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type included struct {
@@ -99,13 +100,28 @@ func validExpr(d *Directive) bool {
 			(l > 2)) //nolint: mnd
 }
 
+// endsInEscape returns true if s ends in a backslash that isn't itself escaped.
+func endsInEscape(s string) bool {
+	return (len(s)-len(strings.TrimRight(s, `\`)))%2 == 1
+}
+
+// trimRightSpace removes the whitespace at the end of s, but not if it is escaped.
+func trimRightSpace(s string) string {
+	t := strings.TrimRightFunc(s, unicode.IsSpace)
+	if t != s && endsInEscape(t) {
+		_, n := utf8.DecodeRuneInString(s[len(t):])
+		t = s[:len(t)+n]
+	}
+	return t
+}
+
 // prepareIfArgs removes parentheses from an `if` directive's arguments.
 func prepareIfArgs(d *Directive) *Directive {
 	b := 0
 	e := len(d.Args) - 1
 	if len(d.Args) > 0 && strings.HasPrefix(d.Args[0], "(") && strings.HasSuffix(d.Args[e], ")") {
 		d.Args[0] = strings.TrimLeftFunc(strings.TrimPrefix(d.Args[0], "("), unicode.IsSpace)
-		d.Args[e] = strings.TrimRightFunc(strings.TrimSuffix(d.Args[e], ")"), unicode.IsSpace)
+		d.Args[e] = trimRightSpace(strings.TrimSuffix(d.Args[e], ")"))
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-- 
2.43.0

