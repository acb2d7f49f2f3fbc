From 2b70d49da3849e82c14ed43eae75135721e051bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 01/55] fix: do not treat a NUL byte as the end of the input

A NUL anywhere in the input made the lexer report EOF, so that everything
after it was silently dropped.
---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..fb03f77 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,7 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
-- 
2.43.0


From d8501a4f7d9e74a0035bdb670d7528d87b5f1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 02/55] fix: account for the width of a peeked multi-byte rune
 in token positions

The look-ahead was assumed to be one byte wide, so a token followed by a
multi-byte rune swallowed part of that rune.
---
 lexer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index fb03f77..3a54bea 100644
--- a/lexer.go
+++ b/lexer.go
@@ -82,11 +82,21 @@ func (l *lexer) emit(ctx context.Context, typ TokenType) {
 	// when we emit, we must copy the value of cur to start
 	// but we also must adjust the position by the read-ahead offset
 	l.start = l.cur
-	l.start.pos = l.start.pos - (l.peekCount + 1)
+	l.start.pos = l.start.pos - l.readAhead()
+}
+
+// readAhead returns the number of bytes that have been peeked at,
+// but have not been consumed yet
+func (l *lexer) readAhead() int {
+	var n int
+	for i := 0; i <= l.peekCount; i++ {
+		n += l.peekRunes[i].w
+	}
+	return n
 }
 
 func (l *lexer) str() string {
-	endpos := l.cur.pos - (l.peekCount + 1)
+	endpos := l.cur.pos - l.readAhead()
 	w := len(l.input[l.start.pos:])
 	if endpos-l.start.pos > w {
 		endpos = l.start.pos + w
-- 
2.43.0


From 288cd95b6344a905cbc64089246320db65e15f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 03/55] fix: let a backslash escape exactly the character that
 follows it

'a\\\\' (an escaped backslash at the end of a string) was taken for an
unterminated string, a backslash in backquotes (where MySQL has no escapes)
for the start of an escape, and bytes that are not valid UTF-8 were replaced.
---
 lexer.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/lexer.go b/lexer.go
index 3a54bea..5e7c8c4 100644
--- a/lexer.go
+++ b/lexer.go
@@ -290,26 +290,21 @@ OUTER:
 
 func unescapeQuotes(s string, quot rune) string {
 	var buf bytes.Buffer
-	max := utf8.RuneCountInString(s)
-	rdr := strings.NewReader(s)
-	for i := 0; i < max; i++ {
-		r, _, _ := rdr.ReadRune()
-
-		// assume first rune and last rune are quot
-		if i == 0 || i == max-1 {
-			continue
-		}
-
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
-				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
+	// first byte and last byte are quot
+	s = s[1 : len(s)-1]
+	for i := 0; i < len(s); i++ {
+		switch {
+		case rune(s[i]) == quot:
+			// a quote inside of quotes is always doubled
+			i++
+		case s[i] == '\\' && quot != '`' && i+1 < len(s):
+			// escape sequence. everything but an escaped quote is left as is
+			if s[i+1] != '\'' && s[i+1] != '"' {
+				buf.WriteByte(s[i])
 			}
+			i++
 		}
-		buf.WriteRune(r)
+		buf.WriteByte(s[i])
 	}
 	return buf.String()
 }
@@ -319,10 +314,10 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
-				r = l.next()
-			}
+		} else if r == '\\' && pair != '`' {
+			// the escaped character never ends the string, also if it is
+			// a backslash. note that there are no escapes in backquotes
+			l.next()
 		} else if r == pair {
 			if l.peek() == pair {
 				// it is escape
-- 
2.43.0


From 8c753bb970715bed12bd28a6b468d10f862b83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 04/55] fix: do not take /*/ for a complete comment

---
 lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer.go b/lexer.go
index 5e7c8c4..73da366 100644
--- a/lexer.go
+++ b/lexer.go
@@ -168,6 +168,7 @@ OUTER:
 		case '/':
 			switch c := l.peek(); c {
 			case '*':
+				l.advance()
 				l.runCComment()
 				l.emit(ctx, COMMENT_IDENT)
 			default:
-- 
2.43.0


From e008175c423b99a944d55c05d1fb671c789b3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 05/55] fix: reject an unterminated comment instead of ignoring
 the rest of the input

---
 lexer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 73da366..e7e2c3a 100644
--- a/lexer.go
+++ b/lexer.go
@@ -169,7 +169,10 @@ OUTER:
 			switch c := l.peek(); c {
 			case '*':
 				l.advance()
-				l.runCComment()
+				if err := l.runCComment(); err != nil {
+					l.emit(ctx, ILLEGAL)
+					return
+				}
 				l.emit(ctx, COMMENT_IDENT)
 			default:
 				l.emit(ctx, SLASH)
@@ -331,16 +334,16 @@ func (l *lexer) runQuote(pair rune) error {
 }
 
 // https://dev.mysql.com/doc/refman/5.6/en/comments.html
-func (l *lexer) runCComment() {
+func (l *lexer) runCComment() error {
 	for {
 		r := l.next()
 		switch r {
 		case eof:
-			return
+			return errors.New(`unexpected eof`)
 		case '*':
 			if l.peek() == '/' {
 				l.advance()
-				return
+				return nil
 			}
 		}
 	}
-- 
2.43.0


From 3be936093ffa4fb4b2c0474a9fded6f4d6e40243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 06/55] fix: do not take an unterminated quote or comment for
 the end of the input

The lexer closes its channel after an unterminated quote or comment, and the
parser took a closed channel for EOF: the rest of a file was silently dropped
after e.g. SET x = 'abc. Errors past the last token were also reported at
line 0 column 0.
---
 parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..e5a81d7 100644
--- a/parser.go
+++ b/parser.go
@@ -61,6 +61,7 @@ type parseCtx struct {
 	context.Context
 	input      []byte
 	lexsrc     chan *Token
+	last       *Token // last token read from lexsrc
 	peekCount  int
 	peekTokens [3]*Token
 }
@@ -86,8 +87,11 @@ func (pctx *parseCtx) peek() *Token {
 			return &eofToken
 		case t, ok := <-pctx.lexsrc:
 			if !ok {
-				return &eofToken
+				// The lexer is done. It has either reached the end of the
+				// input, or has given up on an ILLEGAL token
+				return pctx.last
 			}
+			pctx.last = t
 			pctx.peekCount++
 			pctx.peekTokens[pctx.peekCount] = t
 		}
@@ -181,6 +185,11 @@ LOOP:
 					fallthrough
 				case EOF:
 					break S1
+				case ILLEGAL:
+					ctx.advance()
+					if ctx.peek() == t {
+						return nil, newParseError(ctx, t, "unterminated quote or comment")
+					}
 				default:
 					ctx.advance()
 				}
-- 
2.43.0


From 1e25cb9043f53099f9a4465c8b1a302d0595b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 07/55] fix: require a name after CHARACTER SET and COLLATE in
 a column definition

Any token was taken for the name, be it a comma, a parenthesis, the end of the
input or an illegal character.
---
 parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser.go b/parser.go
index e5a81d7..0c5543a 100644
--- a/parser.go
+++ b/parser.go
@@ -908,10 +908,16 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if !isNameToken(v) {
+				return newParseError(ctx, v, "expected character set name")
+			}
 			col.SetCharacterSet(v.Value)
 		case COLLATE:
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if !isNameToken(v) {
+				return newParseError(ctx, v, "expected collation name")
+			}
 			col.SetCollation(v.Value)
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
@@ -1026,6 +1032,15 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 	}
 }
 
+// isNameToken returns true if t can be the name of a character set or a collation
+func isNameToken(t *Token) bool {
+	switch t.Type {
+	case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+		return true
+	}
+	return false
+}
+
 func (ctx *parseCtx) parseSetOrEnum(setter func([]string) model.TableColumn) error {
 	var values []string
 OUTER:
-- 
2.43.0


From e89c864f286572dbb1af4030afb83c761debe681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 08/55] fix: require CURRENT_TIMESTAMP after ON UPDATE in a
 column definition

Any token was taken for the value, its case was kept (so that a schema
differed from its SHOW CREATE TABLE form), and a precision after it was taken
for the length of the column.
---
 parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0c5543a..05f145a 100644
--- a/parser.go
+++ b/parser.go
@@ -958,7 +958,20 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
-			col.SetAutoUpdate(v.Value)
+			if v.Type != CURRENT_TIMESTAMP {
+				return newParseError(ctx, v, "expected CURRENT_TIMESTAMP")
+			}
+			value := strings.ToUpper(v.Value)
+			// optional fractional seconds precision
+			ctx.skipWhiteSpaces()
+			if ctx.peek().Type == LPAREN {
+				strs, err := p.parseIdents(ctx, LPAREN, NUMBER, RPAREN)
+				if err != nil {
+					return err
+				}
+				value += strings.Join(strs, "")
+			}
+			col.SetAutoUpdate(value)
 		case DEFAULT:
 			if !check(coloptDefault) {
 				return newParseError(ctx, t, "cannot apply DEFAULT")
-- 
2.43.0


From f066252698c72b7e073a93560e765bb996368009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 09/55] fix: report errors in the values of an ENUM or SET
 column

They were ignored, and parsing went on after the offending token.
---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 05f145a..c0b3b4f 100644
--- a/parser.go
+++ b/parser.go
@@ -895,9 +895,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From da414ca954521ab928e57338457c927e552a8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 10/55] fix: reject ENUM and SET columns without values

They were formatted as ENUM ), which is not valid SQL.
---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index c0b3b4f..dfa7895 100644
--- a/parser.go
+++ b/parser.go
@@ -633,6 +633,13 @@ func (p *Parser) parseTableColumnSpec(ctx *parseCtx, col model.TableColumn) erro
 		return newParseError(ctx, t, "unsupported type in column specification")
 	}
 
+	if coltyp == model.ColumnTypeEnum || coltyp == model.ColumnTypeSet {
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != LPAREN {
+			return newParseError(ctx, t, "expected LPAREN (enum values)")
+		}
+	}
+
 	col.SetType(coltyp)
 	return p.parseColumnOption(ctx, col, colopt)
 }
-- 
2.43.0


From 1341cde0436ba3b16fd26032dbdc6d406b009207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 11/55] fix: keep the name of the DELAY_KEY_WRITE table option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index dfa7895..c8b409c 100644
--- a/parser.go
+++ b/parser.go
@@ -747,7 +747,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From 241ed1777c5173550684752ba5b598a6aeb3d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 12/55] fix: accept CREATE TEMPORARY TABLE

It is what the formatter prints for a temporary table, but only
CREATE TABLE TEMPORARY was accepted.
---
 parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser.go b/parser.go
index c8b409c..8b57983 100644
--- a/parser.go
+++ b/parser.go
@@ -222,6 +222,18 @@ func (p *Parser) parseCreate(ctx *parseCtx) (model.Stmt, error) {
 			return nil, err
 		}
 		return nil, errors.Ignorable(nil)
+	case TEMPORARY:
+		// CREATE TEMPORARY TABLE foo
+		ctx.advance()
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != TABLE {
+			return nil, newParseError(ctx, t, "expected TABLE")
+		}
+		table, err := p.parseCreateTable(ctx)
+		if err != nil {
+			return nil, err
+		}
+		return table.SetTemporary(true), nil
 	case TABLE:
 		return p.parseCreateTable(ctx)
 	default:
-- 
2.43.0


From cec6abcad336d48e781a175716b57730d325c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 13/55] fix: accept a FULLTEXT index that is not the last
 definition of a table

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8b57983..5682d4f 100644
--- a/parser.go
+++ b/parser.go
@@ -1444,7 +1444,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From 49aa2cf32ef3e210457e4b558180db1392dd32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 14/55] fix: allow white space around the prefix length of an
 index column

The formatter prints `a`(10) DESC, which was rejected.
---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 5682d4f..8f043d6 100644
--- a/parser.go
+++ b/parser.go
@@ -1401,6 +1401,7 @@ OUTER:
 		ctx.skipWhiteSpaces()
 		switch t = ctx.next(); t.Type {
 		case LPAREN:
+			ctx.skipWhiteSpaces()
 			t := ctx.next()
 			if t.Type != NUMBER {
 				return newParseError(ctx, t, "expected NUMBER")
@@ -1411,6 +1412,7 @@ OUTER:
 				return newParseError(ctx, t, "expected RPAREN")
 			}
 			col.SetLength(tlen)
+			ctx.skipWhiteSpaces()
 		default:
 			ctx.rewind()
 		}
-- 
2.43.0


From 5840ae1f493c01f50c9f96517642a1248785469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 15/55] fix: accept SPATIAL KEY, which is what SHOW CREATE
 TABLE prints

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 8f043d6..799ce47 100644
--- a/parser.go
+++ b/parser.go
@@ -1197,9 +1197,9 @@ func (p *Parser) parseColumnIndexSpatialKey(ctx *parseCtx, index model.Index) er
 		return newParseError(ctx, t, "expected SPATIAL")
 	}
 
-	// optional INDEX
+	// optional INDEX or KEY
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type == INDEX {
+	if t := ctx.peek(); t.Type == INDEX || t.Type == KEY {
 		ctx.advance()
 	}
 
-- 
2.43.0


From 08a6b6b02d036d5737a0f1122568e91a8471cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 16/55] fix: return a ParseError at the offending token for
 every parse error

Errors in ON DELETE/ON UPDATE and for a repeated index type were no
ParseErrors, and one in IF NOT EXISTS was reported at the IF.
---
 parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 799ce47..378ce90 100644
--- a/parser.go
+++ b/parser.go
@@ -332,7 +332,7 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 	case IF:
 		ctx.advance()
 		if _, err := p.parseIdents(ctx, NOT, EXISTS); err != nil {
-			return nil, newParseError(ctx, t, "should NOT EXISTS")
+			return nil, err
 		}
 		ctx.skipWhiteSpaces()
 		table.SetIfNotExists(true)
@@ -1318,11 +1318,11 @@ OUTER:
 		switch t := ctx.next(); t.Type {
 		case DELETE:
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
-				return errors.Wrap(err, `failed to parse ON DELETE`)
+				return err
 			}
 		case UPDATE:
 			if err := p.parseReferenceOption(ctx, r.SetOnUpdate); err != nil {
-				return errors.Wrap(err, `failed to parse ON UPDATE`)
+				return err
 			}
 			break OUTER
 		default:
@@ -1346,7 +1346,8 @@ func (p *Parser) parseColumnIndexName(ctx *parseCtx, index model.Index) error {
 
 func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type != USING {
+	t := ctx.peek()
+	if t.Type != USING {
 		return nil
 	}
 	ctx.advance()
@@ -1360,7 +1361,7 @@ func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 		} else {
 			typ = "NONE"
 		}
-		return errors.Errorf(`statement already has index type declared (%s)`, typ)
+		return newParseError(ctx, t, `statement already has index type declared (%s)`, typ)
 	}
 
 	ctx.skipWhiteSpaces()
-- 
2.43.0


From 27ecbc38d1ce82b0a0909221da1d3c5745de4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 17/55] fix: require the end of the statement after CREATE
 TABLE ... LIKE ...

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 378ce90..2dd5847 100644
--- a/parser.go
+++ b/parser.go
@@ -324,9 +324,8 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 		}
 
 		ctx.skipWhiteSpaces()
-		switch t := ctx.peek(); t.Type {
-		case EOF, SEMICOLON:
-			ctx.advance()
+		if t := ctx.next(); t.Type != EOF && t.Type != SEMICOLON {
+			return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
 		}
 		return table, nil
 	case IF:
-- 
2.43.0


From a350afda941f6ae88f2feadeaa0122cbafd962dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 18/55] fix: do not swallow whatever token follows the name in
 CREATE DATABASE

Whatever followed the name was dropped, so that CREATE DATABASE a b; was
accepted, while CREATE DATABASE a DEFAULT CHARACTER SET utf8; was not.
---
 parser.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 2dd5847..93b9138 100644
--- a/parser.go
+++ b/parser.go
@@ -270,10 +270,47 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 	}
 
 	database.SetIfNotExists(notexists)
-	p.eol(ctx)
+	if err := p.parseCreateDatabaseOptions(ctx); err != nil {
+		return nil, err
+	}
 	return database, nil
 }
 
+// [DEFAULT] {CHARACTER SET | CHARSET | COLLATE} [=] name ...
+func (p *Parser) parseCreateDatabaseOptions(ctx *parseCtx) error {
+	for {
+		ctx.skipWhiteSpaces()
+		t := ctx.next()
+		switch t.Type {
+		case EOF, SEMICOLON:
+			return nil
+		case DEFAULT:
+			ctx.skipWhiteSpaces()
+			t = ctx.next()
+		}
+
+		switch t.Type {
+		case CHARACTER:
+			ctx.skipWhiteSpaces()
+			if t := ctx.next(); t.Type != SET {
+				return newParseError(ctx, t, "expected SET")
+			}
+		case CHARSET, COLLATE:
+		default:
+			return newParseError(ctx, t, "unexpected token in database options: %s", t.Type)
+		}
+
+		ctx.skipWhiteSpaces()
+		if ctx.peek().Type == EQUAL {
+			ctx.advance()
+			ctx.skipWhiteSpaces()
+		}
+		if t := ctx.next(); !isNameToken(t) {
+			return newParseError(ctx, t, "expected character set or collation name")
+		}
+	}
+}
+
 // http://dev.mysql.com/doc/refman/5.6/en/create-table.html
 func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 	if t := ctx.next(); t.Type != TABLE {
-- 
2.43.0


From d137ed57021eb15f2a87376af74096fa24f30727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 19/55] fix: accept the keywords MEMORY and BINARY as engine
 and character set

They are accepted in backquotes, but are formatted without, and the result
could not be parsed.
---
 parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 93b9138..8b6bfc4 100644
--- a/parser.go
+++ b/parser.go
@@ -731,7 +731,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case ENGINE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT, MEMORY); err != nil {
 				return err
 			}
 		case AUTO_INCREMENT:
@@ -759,7 +759,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			default:
 				return newParseError(ctx, t, "expected CHARACTER or COLLATE")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT, BINARY); err != nil {
 				return err
 			}
 		case CHARACTER:
@@ -767,11 +767,11 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			if t := ctx.next(); t.Type != SET {
 				return newParseError(ctx, t, "expected SET")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT, BINARY); err != nil {
 				return err
 			}
 		case COLLATE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT, BINARY); err != nil {
 				return err
 			}
 		case CHECKSUM:
-- 
2.43.0


From f206e93da7600b30b80273c3fbe75c062d55444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 20/55] fix: normalize every inline key of a column

A column that is both UNIQUE and PRIMARY KEY kept its inline UNIQUE, and KEY
alone, which means PRIMARY KEY, was not normalized at all.
---
 model/table.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 2407946..85f637a 100644
--- a/model/table.go
+++ b/model/table.go
@@ -157,8 +157,7 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		switch {
-		case ncol.IsPrimary():
+		if ncol.IsPrimary() || ncol.IsKey() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -171,7 +170,9 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
-		case ncol.IsUnique():
+			ncol.SetKey(false)
+		}
+		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
 			index.SetName(ncol.Name())
-- 
2.43.0


From 5daf2f8588d8780da20b663ae680ece43d7883c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 21/55] fix: do not add a foreign key's implicit index when it
 is declared after the key

Only the declarations before the foreign key were considered, so the index was
there twice. The index name of another foreign key is no index either.
---
 model/table.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 85f637a..dce3c5d 100644
--- a/model/table.go
+++ b/model/table.go
@@ -192,6 +192,11 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	for idx := range t.Indexes() {
+		if idx.HasName() && !idx.IsForeignKey() {
+			seen[idx.Name()] = struct{}{}
+		}
+	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
@@ -204,8 +209,8 @@ func (t *table) Normalize() (Table, bool) {
 		// actual examples somewhere
 		if nidx.IsForeignKey() && nidx.HasSymbol() {
 			// There's a chance the user has already explicitly declared the
-			// index for this constraint. Only add this implicit index if we
-			// haven't seen it before
+			// index for this constraint, before or after it. Only add this
+			// implicit index if there is no such index
 			if _, ok := seen[nidx.Symbol()]; !ok {
 				clone = true
 				// add implicitly created INDEX
@@ -225,7 +230,6 @@ func (t *table) Normalize() (Table, bool) {
 			}
 		}
 		indexes = append(indexes, nidx)
-		seen[nidx.Name()] = struct{}{}
 	}
 
 	if !clone {
-- 
2.43.0


From ada101aaa175b887949a2c06ca792db6deb2e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 22/55] fix: normalize the defaults of all numeric types alike,
 without touching the column

TRUE and FALSE were replaced in the column being normalized, and only for BOOL
and BOOLEAN; a quoted default of these was only unquoted by a second
normalization.
---
 model/table_column.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..4b54c79 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -300,6 +300,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var synonym ColumnType
 	var removeQuotes bool
 	var setDefaultNull bool
+	var defaultValue = t.Default()
 
 	if !t.HasLength() {
 		if l := t.NativeLength(); l != nil {
@@ -327,18 +328,23 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeMediumInt, ColumnTypeInt,
 			ColumnTypeInteger, ColumnTypeBigInt,
 			ColumnTypeFloat, ColumnTypeDouble,
-			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
+			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
+			ColumnTypeBool, ColumnTypeBoolean:
 			// If numeric type then trim quote
 			if t.IsQuotedDefault() {
 				clone = true
 				removeQuotes = true
 			}
-		case ColumnTypeBool, ColumnTypeBoolean:
-			switch t.Default() {
+			// boolean words are numbers
+			switch defaultValue {
 			case "TRUE":
-				t.SetDefault("1", false)
+				clone = true
+				removeQuotes = true
+				defaultValue = "1"
 			case "FALSE":
-				t.SetDefault("0", false)
+				clone = true
+				removeQuotes = true
+				defaultValue = "0"
 			}
 		}
 	} else {
@@ -372,7 +378,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	col.SetNullState(nullState)
 
 	if removeQuotes {
-		col.SetDefault(t.Default(), false)
+		col.SetDefault(defaultValue, false)
 	}
 
 	if setDefaultNull {
-- 
2.43.0


From 3ca20f34d2b331954565e92062a04ee39040d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 23/55] fix: only remove the quotes of numeric defaults that
 are numbers

INT DEFAULT '' became DEFAULT followed by nothing, INT DEFAULT 'a b' two
words, neither of which can be parsed.
---
 model/table_column.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index 4b54c79..42c1415 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -1,9 +1,14 @@
 package model
 
 import (
+	"regexp"
 	"strconv"
+	"strings"
 )
 
+// numberLiteral matches what the parser reads as one number
+var numberLiteral = regexp.MustCompile(`^([-+]?[0-9]+(\.[0-9]*)?|\.[0-9]+)([eE]-?[0-9]*)?$`)
+
 // NewLength creates a new Length which describes the
 // length of a column
 func NewLength(v string) Length {
@@ -331,17 +336,19 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
 			ColumnTypeBool, ColumnTypeBoolean:
 			// If numeric type then trim quote
-			if t.IsQuotedDefault() {
+			if t.IsQuotedDefault() && numberLiteral.MatchString(defaultValue) {
 				clone = true
 				removeQuotes = true
+				defaultValue = strings.ToUpper(defaultValue)
 			}
 			// boolean words are numbers
-			switch defaultValue {
-			case "TRUE":
+			switch {
+			case t.IsQuotedDefault():
+			case defaultValue == "TRUE":
 				clone = true
 				removeQuotes = true
 				defaultValue = "1"
-			case "FALSE":
+			case defaultValue == "FALSE":
 				clone = true
 				removeQuotes = true
 				defaultValue = "0"
-- 
2.43.0


From 5c15fa92911abfcf8f4abcb392e2ed49a97551dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 24/55] fix: fill in the implied widths of BIT, CHAR, BINARY
 and DECIMAL(M)

They were taken for changed when compared to what SHOW CREATE TABLE prints.
---
 model/table_column.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model/table_column.go b/model/table_column.go
index 42c1415..3227068 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -275,6 +275,8 @@ func (t *tablecol) NativeLength() Length {
 	case ColumnTypeBool, ColumnTypeBoolean:
 		// bool and boolean is tinyint(1)
 		size = 1
+	case ColumnTypeBit, ColumnTypeChar, ColumnTypeBinary:
+		size = 1
 	case ColumnTypeTinyInt:
 		size = 4 - unsigned
 	case ColumnTypeSmallInt:
@@ -312,6 +314,12 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			clone = true
 			length = l
 		}
+	} else if typ := t.Type(); typ == ColumnTypeDecimal || typ == ColumnTypeNumeric {
+		// DECIMAL(M) means DECIMAL(M,0)
+		if l := t.Length(); !l.HasDecimal() {
+			clone = true
+			length = NewLength(l.Length()).SetDecimal("0")
+		}
 	}
 
 	if typ := t.Type(); typ.SynonymType() != typ {
-- 
2.43.0


From 8828d37aabc96af9167eab7d9a88b34a552e94fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 25/55] fix: drop an explicit DEFAULT NULL of TEXT and BLOB
 columns

It was taken for a change when compared to the same column without it.
---
 model/table_column.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/model/table_column.go b/model/table_column.go
index 3227068..14e8f18 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -307,6 +307,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var synonym ColumnType
 	var removeQuotes bool
 	var setDefaultNull bool
+	var removeDefaultNull bool
 	var defaultValue = t.Default()
 
 	if !t.HasLength() {
@@ -361,6 +362,15 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 				removeQuotes = true
 				defaultValue = "0"
 			}
+		case ColumnTypeTinyText, ColumnTypeTinyBlob,
+			ColumnTypeBlob, ColumnTypeText,
+			ColumnTypeMediumBlob, ColumnTypeMediumText,
+			ColumnTypeLongBlob, ColumnTypeLongText:
+			// these have no other default, it is not shown
+			if !t.IsQuotedDefault() && defaultValue == "NULL" && nullState != NullStateNotNull {
+				clone = true
+				removeDefaultNull = true
+			}
 		}
 	} else {
 		switch t.Type() {
@@ -382,7 +392,12 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		return t, false
 	}
 
-	col := t.Clone()
+	col := &tablecol{}
+	*col = *t
+	if removeDefaultNull {
+		col.defaultValue.Valid = false
+		col.defaultValue.Value = ""
+	}
 	if length != nil {
 		col.SetLength(length)
 	}
-- 
2.43.0


From 021313650dc7dacdfc984ffe579ef344f780f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 26/55] fix: tell indexes apart by their whole definition

The ID of an index covered neither the sort direction of its columns nor its
options, so that such changes went unnoticed by diff, and was ambiguous for
names with the separators in them.
---
 model/index.go     | 17 +++++++++++++----
 model/reference.go |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/model/index.go b/model/index.go
index 3d6a117..1fad5ff 100644
--- a/model/index.go
+++ b/model/index.go
@@ -3,6 +3,7 @@ package model
 import (
 	"crypto/sha256"
 	"fmt"
+	"strconv"
 )
 
 // NewIndex creates a new index with the given index kind.
@@ -28,11 +29,11 @@ func (stmt *index) ID() string {
 
 	sym := "none"
 	if stmt.HasSymbol() {
-		sym = stmt.Symbol()
+		sym = strconv.Quote(stmt.Symbol())
 	}
 
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		stmt.table,
 		sym,
 		stmt.kind,
@@ -46,6 +47,9 @@ func (stmt *index) ID() string {
 		fmt.Fprintf(h, ".")
 		fmt.Fprintf(h, stmt.reference.ID())
 	}
+	for opt := range stmt.Options() {
+		fmt.Fprintf(h, ".%q=%q", opt.Key(), opt.Value())
+	}
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
 
@@ -171,10 +175,15 @@ func NewIndexColumn(name string) IndexColumn {
 }
 
 func (col *indexColumn) ID() string {
+	id := "index_column#" + strconv.Quote(col.Name())
 	if col.HasLength() {
-		return "index_column#" + col.Name() + "-" + col.Length()
+		id = id + "-" + strconv.Quote(col.Length())
+	}
+	// ascending is the default direction
+	if col.IsDescending() {
+		id = id + "-desc"
 	}
-	return "index_column#" + col.Name()
+	return id
 }
 
 func (col *indexColumn) Name() string {
diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..25b122b 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -17,7 +17,7 @@ func NewReference() Reference {
 func (r *reference) ID() string {
 	h := sha256.New()
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		r.tableName,
 		r.match,
 		r.onDelete,
-- 
2.43.0


From 4ff850015135b78713aae50178417d38692ee87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 27/55] fix: never drop all the columns of a table

When the new version of a table had no column in common with the old one, all
columns were dropped before the new ones were added, which the server refuses.
---
 diff/diff.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..46db256 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -230,8 +230,10 @@ func newAlterCtx(from, to model.Table) *alterCtx {
 	}
 }
 
+type alterProc func(*alterCtx, io.Writer) (int64, error)
+
 func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
-	procs := []func(*alterCtx, io.Writer) (int64, error){
+	procs := []alterProc{
 		dropTableIndexes,
 		dropTableColumns,
 		addTableColumns,
@@ -259,6 +261,17 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
+		procs := procs
+		if alterCtx.toColumns.Intersect(alterCtx.fromColumns).Cardinality() == 0 {
+			// no column survives. add the new ones before the old ones are
+			// dropped, because a table cannot lose its last column
+			procs = []alterProc{
+				dropTableIndexes,
+				addTableColumns,
+				dropTableColumns,
+				addTableIndexes,
+			}
+		}
 		for _, p := range procs {
 			n, err := p(alterCtx, &pbuf)
 			if err != nil {
-- 
2.43.0


From 41602b264e587c73f07d311e09d2ba10ec11cc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 28/55] fix: report a column that cannot be added instead of
 writing half a statement

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 46db256..c3bcb0b 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -344,7 +344,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -361,7 +363,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -379,7 +383,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0


From 9cfe52dcecd2c887d12b4308b1c02b7cc6ea02c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 29/55] fix: create new tables in the order in which they are
 declared

The order was random, so that a table could be created LIKE another one that
did not exist yet.
---
 diff/diff.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index c3bcb0b..687ac6e 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -171,11 +171,11 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
-	for _, id := range ids.ToSlice() {
-		// Lookup the corresponding statement, and add its SQL
-		stmt, ok := ctx.to.Lookup(id.(string))
-		if !ok {
-			return 0, errors.Errorf(`failed to lookup table %s`, id)
+	// keep the order of the new schema, because a table may be declared to be
+	// LIKE one before it
+	for _, stmt := range ctx.to {
+		if table, ok := stmt.(model.Table); !ok || !ids.Contains(table.ID()) {
+			continue
 		}
 
 		if buf.Len() > 0 {
-- 
2.43.0


From fee7af9d8baa402d539d7743f49bf29b69626b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 30/55] fix: report failing writes of separators when linting

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..c57b6f5 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write to destination`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write to destination`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 600cda611493da4f8f890a9c1c1f500570fa08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 31/55] fix: return an error for file:// sources with a remote
 host

Neither a source nor an error was returned.
---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f07bb6b..993d0f3 100644
--- a/source.go
+++ b/source.go
@@ -71,7 +71,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
-- 
2.43.0


From 30f8a35997c2d329ca6818335e761d0f77829467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 32/55] fix: take a source without a scheme literally

It was parsed as a URI, so that a file whose name has one of %, ? and # in it
was not found, or another file was read instead.
---
 source.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/source.go b/source.go
index 993d0f3..aa28453 100644
--- a/source.go
+++ b/source.go
@@ -58,6 +58,10 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return NewMySQLSource(uri[8:]), nil
 	}
 
+	if !hasScheme(uri) {
+		return NewLocalFileSource(uri), nil
+	}
+
 	u, err := url.Parse(uri)
 	if err != nil {
 		return nil, errors.Wrap(err, `failed to parse uri`)
@@ -79,6 +83,24 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	return nil, errors.New("invalid source")
 }
 
+// hasScheme returns true if the given string starts with the scheme of a URI
+func hasScheme(s string) bool {
+	for i, c := range []byte(s) {
+		switch {
+		case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z':
+		case '0' <= c && c <= '9' || c == '+' || c == '-' || c == '.':
+			if i == 0 {
+				return false
+			}
+		case c == ':':
+			return i > 0
+		default:
+			return false
+		}
+	}
+	return false
+}
+
 // NewReaderSource creates a SchemaSource whose contents are read from the
 // given io.Reader.
 func NewReaderSource(src io.Reader) SchemaSource {
-- 
2.43.0


From 2ef991949aa23f2a2266ca2f1cdb90f7f22f9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 33/55] fix: report an error while the list of tables is read
 from a server

The tables after it were silently missing from the schema.
---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index aa28453..41014f0 100644
--- a/source.go
+++ b/source.go
@@ -251,6 +251,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err := tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to list tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From b6b3876c4af03eaac382769184f1831149c25e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 34/55] fix: double the quotes in quoted names and strings

Comments, defaults, ENUM and SET values and table options with a ' in them, and
names with a ` in them were written without escaping it, which gives SQL that is
invalid or means something else.
---
 diff/diff.go          | 80 +++++++++++++++++++++----------------------
 format/format.go      | 21 ++++--------
 internal/util/util.go | 13 +++++--
 source.go             |  3 +-
 4 files changed, 58 insertions(+), 59 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 687ac6e..c333c2a 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -12,6 +12,7 @@ import (
 	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/format"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -159,9 +160,9 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		if !ok {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
-		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
-		buf.WriteString("`;")
+		buf.WriteString("DROP TABLE ")
+		buf.WriteString(util.Backquote(table.Name()))
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -296,16 +297,16 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP COLUMN `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP COLUMN ")
 		col, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
-		buf.WriteString("`;")
+		buf.WriteString(util.Backquote(col.Name()))
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -401,16 +402,15 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD COLUMN ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
-			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
-			buf.WriteString("`")
+			buf.WriteString(" AFTER ")
+			buf.WriteString(util.Backquote(beforeCol.Name()))
 		} else {
 			buf.WriteString(" FIRST")
 		}
@@ -441,11 +441,11 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
-		buf.WriteString("` ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" CHANGE COLUMN ")
+		buf.WriteString(util.Backquote(afterColumnStmt.Name()))
+		buf.WriteByte(' ')
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
 		}
@@ -471,9 +471,9 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			if buf.Len() > 0 {
 				buf.WriteByte('\n')
 			}
-			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
-			buf.WriteString("` DROP PRIMARY KEY;")
+			buf.WriteString("ALTER TABLE ")
+			buf.WriteString(util.Backquote(ctx.from.Name()))
+			buf.WriteString(" DROP PRIMARY KEY;")
 			continue
 		}
 
@@ -488,31 +488,31 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP FOREIGN KEY `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP FOREIGN KEY ")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
-		buf.WriteString("`;")
+		buf.WriteByte(';')
 	}
 	// drop index after drop CONSTRAINT
 	for _, indexStmt := range lazy {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP INDEX `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
 
-		buf.WriteString("`;")
+		buf.WriteByte(';')
 	}
 
 	return buf.WriteTo(dst)
@@ -536,9 +536,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
@@ -549,9 +549,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
diff --git a/format/format.go b/format/format.go
index 02a8159..9975b57 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,9 +92,7 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
-		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
-		buf.WriteByte('\'')
+		buf.WriteString(util.Quote(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
@@ -216,9 +214,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeEnum:
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(enumValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -226,9 +222,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeSet:
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(setValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(setValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -286,9 +280,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	if col.HasDefault() {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
-			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(col.Default()))
 		} else {
 			buf.WriteString(col.Default())
 		}
@@ -309,9 +301,8 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	}
 
 	if col.HasComment() {
-		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
-		buf.WriteByte('\'')
+		buf.WriteString(" COMMENT ")
+		buf.WriteString(util.Quote(col.Comment()))
 	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..75cdf9d 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,14 @@
 package util
 
-// Backquote surrounds the given string in backquotes
+import "strings"
+
+// Backquote surrounds the given string in backquotes, doubling those in it
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + strings.Replace(s, "`", "``", -1) + "`"
+}
+
+// Quote surrounds the given string in single quotes, doubling those in it.
+// Everything else, escape sequences in particular, is left as is
+func Quote(s string) string {
+	return "'" + strings.Replace(s, "'", "''", -1) + "'"
 }
diff --git a/source.go b/source.go
index 41014f0..ffb96fa 100644
--- a/source.go
+++ b/source.go
@@ -17,6 +17,7 @@ import (
 
 	"github.com/go-sql-driver/mysql"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 )
 
 // SchemaSource is the interface used for objects that provide us with
@@ -241,7 +242,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE `"+table+"`").Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From 1990b575800d3b4e55fdb9c37deeeb6da0d5ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 35/55] fix: write names in table options that are no plain
 words in backquotes

---
 format/format.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/format/format.go b/format/format.go
index 9975b57..ac7dca9 100644
--- a/format/format.go
+++ b/format/format.go
@@ -3,6 +3,7 @@ package format
 import (
 	"bytes"
 	"io"
+	"regexp"
 
 	"github.com/schemalex/schemalex/internal/errors"
 	"github.com/schemalex/schemalex/internal/util"
@@ -87,12 +88,26 @@ func formatDatabase(ctx *fmtCtx, d model.Database) error {
 	return nil
 }
 
+// plainName matches names that need no backquotes
+var plainName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_]*$`)
+
+// isNameOption returns true if the value of the option is a name
+func isNameOption(option model.TableOption) bool {
+	switch option.Key() {
+	case "ENGINE", "DEFAULT CHARACTER SET", "DEFAULT COLLATE":
+		return true
+	}
+	return false
+}
+
 func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	var buf bytes.Buffer
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
 		buf.WriteString(util.Quote(option.Value()))
+	} else if isNameOption(option) && !plainName.MatchString(option.Value()) {
+		buf.WriteString(util.Backquote(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
-- 
2.43.0


From c04ed96a28f8649e082b7cc4334a27be63045b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 36/55] fix: allow white space and comments in NOW()

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 8b6bfc4..07428ce 100644
--- a/parser.go
+++ b/parser.go
@@ -1043,9 +1043,11 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				col.SetDefault(strings.ToUpper(t.Value), false)
 			case NOW:
 				now := t.Value
+				ctx.skipWhiteSpaces()
 				if t := ctx.next(); t.Type != LPAREN {
 					return newParseError(ctx, t, "expected LPAREN")
 				}
+				ctx.skipWhiteSpaces()
 				if t := ctx.next(); t.Type != RPAREN {
 					return newParseError(ctx, t, "expected RPAREN")
 				}
-- 
2.43.0


From 1dde1ad25b4ad208cd5027cc7267e95d5c85f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 37/55] fix: do not add a foreign key's implicit index next to
 an inline unique key of that name

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index dce3c5d..51742fa 100644
--- a/model/table.go
+++ b/model/table.go
@@ -192,6 +192,9 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	for _, idx := range additionalIndexes {
+		seen[idx.Name()] = struct{}{}
+	}
 	for idx := range t.Indexes() {
 		if idx.HasName() && !idx.IsForeignKey() {
 			seen[idx.Name()] = struct{}{}
-- 
2.43.0


From 6153962a486833440da6d5125b77aa82398c0d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 38/55] fix: keep the sort direction of referenced columns when
 formatting

---
 format/format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/format.go b/format/format.go
index ac7dca9..5e8cab0 100644
--- a/format/format.go
+++ b/format/format.go
@@ -444,6 +444,13 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 			buf.WriteString(col.Length())
 			buf.WriteByte(')')
 		}
+		if col.HasSortDirection() {
+			if col.IsAscending() {
+				buf.WriteString(" ASC")
+			} else {
+				buf.WriteString(" DESC")
+			}
+		}
 		if i < lch-1 {
 			buf.WriteString(", ")
 		}
-- 
2.43.0


From 3eb2ce5c8eb89d4860c44cbeac490b969bc386ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 39/55] fix: do not truncate the output file before the sources
 have been read

---
 cmd/schemadiff/schemadiff.go | 36 ++++++++++++++++++++++--------------
 cmd/schemalex/schemalex.go   | 36 ++++++++++++++++++++++--------------
 cmd/schemalint/schemalint.go | 28 ++++++++++++++++------------
 3 files changed, 60 insertions(+), 40 deletions(-)

diff --git a/cmd/schemadiff/schemadiff.go b/cmd/schemadiff/schemadiff.go
index 43c7aa5..2700e2b 100644
--- a/cmd/schemadiff/schemadiff.go
+++ b/cmd/schemadiff/schemadiff.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -77,16 +78,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -97,11 +88,28 @@ Examples:
 		return errors.Wrap(err, `failed to create schema source for "to"`)
 	}
 
+	var buf bytes.Buffer
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	if err := diff.Sources(
+		&buf,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+	return writeOutput(outfile, buf.Bytes())
+}
+
+// writeOutput writes to the specified file, or else to stdout. The file is
+// not touched before the output is complete: it may be one of the sources
+func writeOutput(outfile string, data []byte) error {
+	if len(outfile) == 0 {
+		_, err := os.Stdout.Write(data)
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	if err := ioutil.WriteFile(outfile, data, 0644); err != nil {
+		return errors.Wrapf(err, `failed to write to file %s`, outfile)
+	}
+	return nil
 }
diff --git a/cmd/schemalex/schemalex.go b/cmd/schemalex/schemalex.go
index ecbb0e9..31d552e 100644
--- a/cmd/schemalex/schemalex.go
+++ b/cmd/schemalex/schemalex.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -76,16 +77,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -96,11 +87,28 @@ Examples:
 		return errors.Wrap(err, `failed to create schema source for "to"`)
 	}
 
+	var buf bytes.Buffer
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	if err := diff.Sources(
+		&buf,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+	return writeOutput(outfile, buf.Bytes())
+}
+
+// writeOutput writes to the specified file, or else to stdout. The file is
+// not touched before the output is complete: it may be one of the sources
+func writeOutput(outfile string, data []byte) error {
+	if len(outfile) == 0 {
+		_, err := os.Stdout.Write(data)
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	if err := ioutil.WriteFile(outfile, data, 0644); err != nil {
+		return errors.Wrapf(err, `failed to write to file %s`, outfile)
+	}
+	return nil
 }
diff --git a/cmd/schemalint/schemalint.go b/cmd/schemalint/schemalint.go
index e6246d7..e19f49d 100644
--- a/cmd/schemalint/schemalint.go
+++ b/cmd/schemalint/schemalint.go
@@ -1,10 +1,11 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -84,16 +85,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	src, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -104,9 +95,22 @@ Examples:
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	if err := linter.Run(ctx, src, dst, lint.WithIndent(" ", indentNum)); err != nil {
+	var buf bytes.Buffer
+	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum)); err != nil {
 		return errors.Wrap(err, `failed to lint source`)
 	}
+	return writeOutput(outfile, buf.Bytes())
+}
 
+// writeOutput writes to the specified file, or else to stdout. The file is
+// not touched before the output is complete: it may be one of the sources
+func writeOutput(outfile string, data []byte) error {
+	if len(outfile) == 0 {
+		_, err := os.Stdout.Write(data)
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	if err := ioutil.WriteFile(outfile, data, 0644); err != nil {
+		return errors.Wrapf(err, `failed to write to file %s`, outfile)
+	}
 	return nil
 }
-- 
2.43.0


From b3089ce52d44b0db12a256aa738f04c953b5a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 40/55] fix: do not take a directory or a command line option
 for a file in git

git show lists a directory, and takes a commit that begins with a dash
for an option (--output writes to a file): both pass for a schema.
---
 source.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index ffb96fa..b742fac 100644
--- a/source.go
+++ b/source.go
@@ -261,7 +261,8 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 
 func (s localGitSource) WriteSchema(dst io.Writer) error {
 	var out bytes.Buffer
-	cmd := exec.Command("git", "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
+	// unlike git show, this takes nothing but a file
+	cmd := exec.Command("git", "cat-file", "blob", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
 
-- 
2.43.0


From b807284b30c97afb08e1bbde06ea21f98add3673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:21 +0000
Subject: [PATCH 41/55] fix: do not ignore a remote host in local-git://
 sources

local-git://repo?file=... was read from the repository of the working
directory, and local-git://host/path?file=... from the local /path.
---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index b742fac..741991f 100644
--- a/source.go
+++ b/source.go
@@ -71,6 +71,9 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	switch strings.ToLower(u.Scheme) {
 	case "local-git":
 		// local-git:///path/to/dir?file=foo&commitish=bar
+		if u.Host != "" && u.Host != "localhost" {
+			return nil, errors.New(`remote hosts for local-git:// sources are not supported`)
+		}
 		q := u.Query()
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
 	case "file", "":
-- 
2.43.0


From b559f79879a5694a697030e407d9b40225dd74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 42/55] fix: do not ignore malformed parameters of local-git://
 sources

The version in the index was read instead of the commit that was asked
for.
---
 source.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 741991f..861f412 100644
--- a/source.go
+++ b/source.go
@@ -74,7 +74,10 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		if u.Host != "" && u.Host != "localhost" {
 			return nil, errors.New(`remote hosts for local-git:// sources are not supported`)
 		}
-		q := u.Query()
+		q, err := url.ParseQuery(u.RawQuery)
+		if err != nil {
+			return nil, errors.Wrap(err, `failed to parse query of uri`)
+		}
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
 	case "file", "":
 		// Eh, no remote host, please
-- 
2.43.0


From d35ef39d8cb4381aa7abc711683c6f5db4fda5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 43/55] fix: do not ignore unknown reference options when
 formatting

---
 format/format.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 5e8cab0..ed42242 100644
--- a/format/format.go
+++ b/format/format.go
@@ -467,9 +467,12 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 		buf.WriteString(" MATCH SIMPLE")
 	}
 
-	// we should really check for errors...
-	writeReferenceOption(&buf, "ON DELETE", r.OnDelete())
-	writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate())
+	if err := writeReferenceOption(&buf, "ON DELETE", r.OnDelete()); err != nil {
+		return err
+	}
+	if err := writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate()); err != nil {
+		return err
+	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
 		return err
-- 
2.43.0


From 3f1b80ea378002bbdf19c91d8e6b230c80fa1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 44/55] fix: do not set ssl-ca, ssl-cert and ssl-secret on the
 server

---
 source.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source.go b/source.go
index 861f412..b692995 100644
--- a/source.go
+++ b/source.go
@@ -167,6 +167,10 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 		sslCa := cfg.Params["ssl-ca"]
 		sslCert := cfg.Params["ssl-cert"]
 		sslSecret := cfg.Params["ssl-secret"]
+		// these are ours, and not to be set on the server
+		delete(cfg.Params, "ssl-ca")
+		delete(cfg.Params, "ssl-cert")
+		delete(cfg.Params, "ssl-secret")
 		if sslCa == "" || sslCert == "" || sslSecret == "" {
 			return nil, errors.New(`to enable tls, you must provide ssl-ca, ssl-cert, and ssl-secret parameters to the DSN`)
 		}
-- 
2.43.0


From d598bbb49dd56e5ceaa6e384d77fb6ff2c70b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:53 +0000
Subject: [PATCH 45/55] fix: drop foreign keys before the primary key

A primary key may be the only index that supports a foreign key, and the
server refuses to drop it until that foreign key is gone.
---
 diff/diff.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index c333c2a..69a48df 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -458,7 +458,7 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	indexes := ctx.fromIndexes.Difference(ctx.toIndexes)
-	// drop index after drop constraint.
+	// drop index (and primary key) after drop constraint.
 	// because cannot drop index if needed in a foreign key constraint
 	lazy := make([]model.Index, 0, indexes.Cardinality())
 	for _, index := range indexes.ToSlice() {
@@ -468,12 +468,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 
 		if indexStmt.IsPrimaryKey() {
-			if buf.Len() > 0 {
-				buf.WriteByte('\n')
-			}
-			buf.WriteString("ALTER TABLE ")
-			buf.WriteString(util.Backquote(ctx.from.Name()))
-			buf.WriteString(" DROP PRIMARY KEY;")
+			lazy = append(lazy, indexStmt)
 			continue
 		}
 
@@ -505,6 +500,10 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 		buf.WriteString("ALTER TABLE ")
 		buf.WriteString(util.Backquote(ctx.from.Name()))
+		if indexStmt.IsPrimaryKey() {
+			buf.WriteString(" DROP PRIMARY KEY;")
+			continue
+		}
 		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
 			buf.WriteString(util.Backquote(indexStmt.Symbol()))
-- 
2.43.0


From 4f8180f627d9c3b2704eb43e54ad84fcda6f903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 46/55] fix: do not let a clone of an index share columns and
 options with the original

---
 model/index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/index.go b/model/index.go
index 1fad5ff..789302f 100644
--- a/model/index.go
+++ b/model/index.go
@@ -165,6 +165,9 @@ func (stmt *index) Normalize() (Index, bool) {
 func (stmt *index) Clone() Index {
 	newindex := &index{}
 	*newindex = *stmt
+	// do not share what AddColumns and AddOption append to
+	newindex.columns = append([]IndexColumn(nil), stmt.columns...)
+	newindex.options = append([]IndexOption(nil), stmt.options...)
 	return newindex
 }
 
-- 
2.43.0


From d16a3e03289604ac617929acfeb043fee6d43f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:09 +0000
Subject: [PATCH 47/55] fix: report enums, sets and references without members
 instead of printing broken SQL

---
 format/format.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/format.go b/format/format.go
index ed42242..f082600 100644
--- a/format/format.go
+++ b/format/format.go
@@ -227,6 +227,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 
 	switch col.Type() {
 	case model.ColumnTypeEnum:
+		if !col.HasEnumValues() {
+			return errors.New(`no values in enum`)
+		}
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
 			buf.WriteString(util.Quote(enumValue))
@@ -235,6 +238,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.Truncate(buf.Len() - 1)
 		buf.WriteByte(')')
 	case model.ColumnTypeSet:
+		if !col.HasSetValues() {
+			return errors.New(`no values in set`)
+		}
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
 			buf.WriteString(util.Quote(setValue))
@@ -436,6 +442,9 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 
 	ch := r.Columns()
 	lch := len(ch)
+	if lch == 0 {
+		return errors.New(`no columns in reference`)
+	}
 	var i int
 	for col := range ch {
 		buf.WriteString(util.Backquote(col.Name()))
-- 
2.43.0


From cd1a567d79b63fad2a7eb73d97a16cb12ba5cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 48/55] fix: keep LIKE when a table is normalized

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index 51742fa..4979922 100644
--- a/model/table.go
+++ b/model/table.go
@@ -242,6 +242,9 @@ func (t *table) Normalize() (Table, bool) {
 	tbl := NewTable(t.Name())
 	tbl.SetIfNotExists(t.IsIfNotExists())
 	tbl.SetTemporary(t.IsTemporary())
+	if t.HasLikeTable() {
+		tbl.SetLikeTable(t.LikeTable())
+	}
 
 	for _, index := range additionalIndexes {
 		tbl.AddIndex(index)
-- 
2.43.0


From 91898b756cb4a103c2600149078d5732733e8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 49/55] fix: use the options given to lint.New

---
 lint/lint.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index c57b6f5..0b3d623 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -10,15 +10,20 @@ import (
 	"github.com/schemalex/schemalex/format"
 )
 
-type Linter struct{}
+type Linter struct {
+	options []Option
+}
+
 type Option = schemalex.Option
 
 func WithIndent(s string, n int) Option {
 	return format.WithIndent(s, n)
 }
 
+// New creates a linter. The given options are used in every run, unless
+// the run is given others
 func New(options ...Option) *Linter {
-	return &Linter{}
+	return &Linter{options: append([]Option(nil), options...)}
 }
 
 func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Writer, options ...Option) error {
@@ -33,6 +38,7 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 		return errors.Wrap(err, `failed to parse source`)
 	}
 
+	options = append(append([]Option(nil), l.options...), options...)
 	for i, stmt := range stmts {
 		if i != 0 {
 			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
-- 
2.43.0


From b490713868d69a69a8d7ad38e667766728fc32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 50/55] fix: include lengths and directions of columns in
 Reference.String

---
 model/reference.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/model/reference.go b/model/reference.go
index 25b122b..cd1bbf6 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -99,6 +99,18 @@ func (r reference) String() string {
 	var i int
 	for col := range ch {
 		buf.WriteString(util.Backquote(col.Name()))
+		if col.HasLength() {
+			buf.WriteByte('(')
+			buf.WriteString(col.Length())
+			buf.WriteByte(')')
+		}
+		if col.HasSortDirection() {
+			if col.IsAscending() {
+				buf.WriteString(" ASC")
+			} else {
+				buf.WriteString(" DESC")
+			}
+		}
 		if i < lch-1 {
 			buf.WriteString(", ")
 		}
-- 
2.43.0


From 0963f718ed25553d4d8271ba84b442f8972b6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 51/55] fix: reject table options with leading or repeated
 commas

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 07428ce..ac87e91 100644
--- a/parser.go
+++ b/parser.go
@@ -850,9 +850,6 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			return newParseError(ctx, t, "unsupported option TABLESPACE")
 		case UNION:
 			return newParseError(ctx, t, "unsupported option UNION")
-		case COMMA:
-			// no op, continue to next option
-			continue
 		default:
 			return newParseError(ctx, t, "unexpected token in table options: "+t.Type.String())
 		}
@@ -861,6 +858,8 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 		// except for the case where we continue to the next option (COMMA)
 		// we should expect the end of this statement
 		switch t := ctx.peek(); t.Type {
+		case COMMA:
+			ctx.advance()
 		case EOF:
 			// end of table options, end of input
 			ctx.advance()
-- 
2.43.0


From 10e00555bbd6662417c0f65a41850a955de62002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 52/55] fix: reject ON DELETE given twice

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index ac87e91..4c232ee 100644
--- a/parser.go
+++ b/parser.go
@@ -1354,6 +1354,9 @@ OUTER:
 
 		switch t := ctx.next(); t.Type {
 		case DELETE:
+			if i > 0 {
+				return newParseError(ctx, t, "expected UPDATE")
+			}
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
 				return err
 			}
-- 
2.43.0


From 2de406735f7c2db828a5b2db7be0178f5d6c81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 53/55] fix: reject a size or values given twice for a column

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 4c232ee..efa7584 100644
--- a/parser.go
+++ b/parser.go
@@ -881,6 +881,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int) error {
 	f = f | coloptNull | coloptDefault | coloptAutoIncrement | coloptKey | coloptComment
 	pos := 0
+	sized := false
 	check := func(_f int) bool {
 		if pos > _f {
 			return false
@@ -895,6 +896,10 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case LPAREN:
+			if sized {
+				return newParseError(ctx, t, "column size or values already declared")
+			}
+			sized = true
 			if check(coloptSize) {
 				ctx.skipWhiteSpaces()
 				t := ctx.next()
-- 
2.43.0


From d2b98aae86fe2a89116f9be09b13148a4bf1c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 54/55] fix: compare tables declared LIKE another one by what
 they are

---
 diff/diff.go | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index 69a48df..c091247 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -24,6 +24,9 @@ type diffCtx struct {
 }
 
 func newDiffCtx(from, to model.Stmts) *diffCtx {
+	from = expandLike(from)
+	to = expandLike(to)
+
 	fromSet := mapset.NewSet()
 	for _, stmt := range from {
 		if cs, ok := stmt.(model.Table); ok {
@@ -45,6 +48,75 @@ func newDiffCtx(from, to model.Stmts) *diffCtx {
 	}
 }
 
+// expandLike replaces each table that is declared to be LIKE one before it
+// by what this makes it: a table with the same columns, indexes (but not
+// foreign keys) and options
+func expandLike(stmts model.Stmts) model.Stmts {
+	expanded := make(model.Stmts, 0, len(stmts))
+	for _, stmt := range stmts {
+		if table, ok := stmt.(model.Table); ok && table.HasLikeTable() {
+			orig, ok := expanded.Lookup(model.NewTable(table.LikeTable()).ID())
+			if like, isTable := orig.(model.Table); ok && isTable && !like.HasLikeTable() {
+				stmt = copyTable(table, like)
+			}
+		}
+		expanded = append(expanded, stmt)
+	}
+	return expanded
+}
+
+func copyTable(table, like model.Table) model.Table {
+	tbl := model.NewTable(table.Name())
+	tbl.SetIfNotExists(table.IsIfNotExists())
+	tbl.SetTemporary(table.IsTemporary())
+	for col := range like.Columns() {
+		tbl.AddColumn(col)
+	}
+	for idx := range like.Indexes() {
+		if !idx.IsForeignKey() {
+			tbl.AddIndex(copyIndex(idx, tbl))
+		}
+	}
+	for opt := range like.Options() {
+		tbl.AddOption(opt)
+	}
+	return tbl
+}
+
+func copyIndex(idx model.Index, tbl model.Table) model.Index {
+	kind := model.IndexKindNormal
+	switch {
+	case idx.IsPrimaryKey():
+		kind = model.IndexKindPrimaryKey
+	case idx.IsUnique():
+		kind = model.IndexKindUnique
+	case idx.IsFullText():
+		kind = model.IndexKindFullText
+	case idx.IsSpatial():
+		kind = model.IndexKindSpatial
+	}
+
+	index := model.NewIndex(kind, tbl.ID())
+	if idx.HasName() {
+		index.SetName(idx.Name())
+	}
+	if idx.HasSymbol() {
+		index.SetSymbol(idx.Symbol())
+	}
+	if idx.IsBtree() {
+		index.SetType(model.IndexTypeBtree)
+	} else if idx.IsHash() {
+		index.SetType(model.IndexTypeHash)
+	}
+	for col := range idx.Columns() {
+		index.AddColumns(col)
+	}
+	for opt := range idx.Options() {
+		index.AddOption(opt)
+	}
+	return index
+}
+
 // Statements compares two model.Stmts and generates a series
 // of statements to migrate from the old one to the new one,
 // writing the result to `dst`
-- 
2.43.0


From 2c421231fad0ed3b34c101022524a7f6de218500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:15 +0000
Subject: [PATCH 55/55] fix: change columns that become AUTO_INCREMENT after
 those that were

A table can have only one AUTO_INCREMENT column. When another column
becomes one, CHANGE COLUMN of the one that was has to come first; the
order was random.
---
 diff/diff.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index c091247..6146bc0 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -494,8 +494,15 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 
 func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
-	columnNames := ctx.toColumns.Intersect(ctx.fromColumns)
-	for _, columnName := range columnNames.ToSlice() {
+	columnNames := ctx.toColumns.Intersect(ctx.fromColumns).ToSlice()
+	// a table can have only one AUTO_INCREMENT column, so the columns that
+	// become one are changed after those that were one
+	sort.SliceStable(columnNames, func(i, j int) bool {
+		icol, _ := ctx.to.LookupColumn(columnNames[i].(string))
+		jcol, _ := ctx.to.LookupColumn(columnNames[j].(string))
+		return !icol.IsAutoIncrement() && jcol.IsAutoIncrement()
+	})
+	for _, columnName := range columnNames {
 		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in old schema`, columnName)
-- 
2.43.0

