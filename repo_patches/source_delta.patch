From 70660ce2127e2a4b802181fd156dccd34e47a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 01/77] fix: lexer: `<<<` is not a single token

`<<<` was lexed as the unsigned right shift operator `>>>`.
---
 ecmascript/lexer/lexer.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..30430df 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -570,14 +570,6 @@ func (l *Lexer) consumeNextToken() Token {
 			switch l.s.Read() {
 			case '<':
 				switch l.s.Read() {
-				case '<':
-					switch l.s.Read() {
-					case '=':
-						return Token{Type: TokenPunctuatorUnsignedRShiftAssign}
-					default:
-						l.s.Unread()
-						return Token{Type: TokenPunctuatorUnsignedRShift}
-					}
 				case '=':
 					return Token{Type: TokenPunctuatorLShiftAssign}
 				default:
-- 
2.43.0


From 8674a37e419745f09856d6d6c2cc0a0b10321147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:56 +0000
Subject: [PATCH 02/77] fix: lexer: end multi-line comments at a closing mark
 after several asterisks

The rune after a `*` was dropped, so `/**/` style endings such as `**/`
were missed.
---
 ecmascript/lexer/lexer.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 30430df..ebf61f6 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -145,15 +145,11 @@ func (l *Lexer) consumeMultiLineComment() {
 		r = l.s.Read()
 		switch r {
 		case '*':
-			switch l.s.Read() {
-			case '/':
+			if l.s.Read() == '/' {
 				return
-			case EOFRune:
-				panic(&errs.SyntaxError{
-					Location: l.s.Location(),
-					Err:      errors.New("unexpected EOF"),
-				})
 			}
+			// This rune may itself begin the closing mark or be EOF.
+			l.s.Unread()
 		case EOFRune:
 			panic(&errs.SyntaxError{
 				Location: l.s.Location(),
-- 
2.43.0


From e7d8a50f98aa8aad29f3e4bf7b7dd0a5f816082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 03/77] fix: lexer: line terminators in comments separate lines

A line terminator inside of a multi-line comment, or at the end of a
single-line comment, did not set NewLine on the following token.
---
 ecmascript/lexer/lexer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index ebf61f6..961cfe5 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -155,6 +155,10 @@ func (l *Lexer) consumeMultiLineComment() {
 				Location: l.s.Location(),
 				Err:      errors.New("unexpected EOF"),
 			})
+		default:
+			if isLineTerm(r) {
+				l.newLine = true
+			}
 		}
 	}
 }
@@ -164,7 +168,11 @@ func (l *Lexer) consumeSingleLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
-		if isLineTerm(r) || r == EOFRune {
+		if isLineTerm(r) {
+			l.newLine = true
+			return
+		}
+		if r == EOFRune {
 			return
 		}
 	}
-- 
2.43.0


From caf575710129710dce61decc32e170a3c0a60e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 04/77] fix: lexer: reject line breaks in string literals

Only an escaped line break continues a string; CR LF counts as one.
---
 ecmascript/lexer/lexer.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 961cfe5..d581b55 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -463,9 +463,23 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == quo {
 			break
 		}
+		if r == '\n' || r == '\r' {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      errors.New("unterminated string literal"),
+			})
+		}
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
+			if r == '\r' {
+				// An escaped CR LF is a single line continuation.
+				if n := l.s.Read(); n == '\n' {
+					c = append(c, n)
+				} else {
+					l.s.Unread()
+				}
+			}
 		}
 		if r == EOFRune {
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 2c4c96199f1e86ffd8d09cad3b3ab3ce23ed6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 05/77] fix: lexer: correct the source text of `!=` and `%=`
 tokens

---
 ecmascript/lexer/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..7abb374 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -258,7 +258,7 @@ func (t Token) Source() string {
 		TokenLiteralTemplate:
 		return t.Literal
 	case TokenPunctuatorOptionalChain:
-		return ".?"
+		return "?."
 	case TokenPunctuatorOpenBrace:
 		return "{"
 	case TokenPunctuatorOpenParen:
@@ -290,7 +290,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorEqual:
 		return "=="
 	case TokenPunctuatorNotEqual:
-		return "==="
+		return "!="
 	case TokenPunctuatorStrictEqual:
 		return "==="
 	case TokenPunctuatorStrictNotEqual:
@@ -348,7 +348,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorDivAssign:
 		return "/="
 	case TokenPunctuatorModAssign:
-		return "*="
+		return "%="
 	case TokenPunctuatorExponentAssign:
 		return "**="
 	case TokenPunctuatorLShiftAssign:
-- 
2.43.0


From f1ec86d8505b24bf778e692b731f44f289b4f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 06/77] fix: lexer: unreading at end of input leaves the
 location alone

Nothing was consumed when EOF was read, so there is nothing to step back.
---
 ecmascript/lexer/scanner.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..07d50d4 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -88,15 +88,15 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		return
+	}
+
+	if err := s.r.UnreadRune(); err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
 
 	// If negative: we just read a line terminal rune. Invert col and
-- 
2.43.0


From 0e04d65a822970ef1f502bc8ee45fa5ef4dccf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 07/77] fix: lexer: count CR LF as one line terminator in
 locations

ECMA-262 section 12.3 asks for the sequence to be considered a single
line terminator when reporting line numbers; rows were counted twice.
---
 ecmascript/lexer/scanner.go | 59 +++++++++++++++----------------------
 1 file changed, 24 insertions(+), 35 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index 07d50d4..14ca5df 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -16,34 +16,38 @@ const EOFRune = rune(-1)
 type Scanner struct {
 	r io.RuneScanner
 
-	uri      *url.URL
-	col, row int
+	uri *url.URL
+
+	// pos is the current position, last is the position before the last read.
+	pos, last position
 
 	eof bool
 }
 
+// position is a source code position.
+type position struct {
+	col, row int
+
+	// cr is set if the last rune was a CR; an LF after it is part of the same
+	// line terminator sequence.
+	cr bool
+}
+
 // NewScanner creates a new scanner for the given RuneScanner and URL.
 func NewScanner(r io.RuneScanner, uri *url.URL) *Scanner {
 	return &Scanner{
 		r:   r,
 		uri: uri,
-		col: 1,
-		row: 1,
+		pos: position{col: 1, row: 1},
 	}
 }
 
 // Location returns the current source code location.
 func (s *Scanner) Location() ast.Location {
-	column := s.col
-
-	if column < 0 {
-		column = 1
-	}
-
 	return ast.Location{
 		URI:    s.uri,
-		Column: column,
-		Row:    s.row,
+		Column: s.pos.col,
+		Row:    s.pos.row,
 	}
 }
 
@@ -63,24 +67,17 @@ func (s *Scanner) Read() rune {
 		})
 	}
 
-	// Increment source location. On newline, we set col to -col. This allows
-	// us to know when we're unreading a line terminator (because col will be
-	// negative) and what to restore it to without needing additional state.
+	// Increment source location.
+	s.last = s.pos
 	if _, ok := lineterms[r]; ok {
-		s.row++
-		if s.col > 0 {
-			// Last read was not a newline
-			s.col = -s.col
-		} else if s.col < 0 {
-			// Last read was a newline- treat it as having been column 1.
-			s.col = -1
+		if r != '\n' || !s.pos.cr {
+			s.pos.row++
 		}
+		s.pos.col = 1
 	} else {
-		if s.col < 0 {
-			s.col = 1
-		}
-		s.col++
+		s.pos.col++
 	}
+	s.pos.cr = r == '\r'
 
 	return r
 }
@@ -99,13 +96,5 @@ func (s *Scanner) Unread() {
 		})
 	}
 
-	// If negative: we just read a line terminal rune. Invert col and
-	// decrement row.
-	// If positive: we read any other rune. Just decrement col.
-	if s.col < 0 {
-		s.col = -s.col
-		s.row--
-	} else {
-		s.col--
-	}
+	s.pos = s.last
 }
-- 
2.43.0


From 42e7f1dfa41444f0a7a1b049fa7914e34537baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 08/77] fix: lexer: read the exponents of decimal literals

The exponent of a literal without fraction was joined to its digits
(`1e5` became 15), an exponent without digits was accepted, and a second
exponent was swallowed.
---
 ecmascript/lexer/lexer.go | 69 +++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index d581b55..6b481eb 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -355,40 +355,37 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		} else if r == '.' {
 			lit.WriteRune(r)
 			return l.consumeFractionalPart(lit)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
 
+	l.consumeExponentPart(lit)
 	return lit.String()
 }
 
-func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
-	if lit == nil {
-		lit = &strings.Builder{}
-	}
+// Consumes an exponent, if there is one.
+func (l *Lexer) consumeExponentPart(lit *strings.Builder) {
 	r := l.s.Read()
+	if !isExponentIndicator(r) {
+		l.s.Unread()
+		return
+	}
+	lit.WriteRune(r)
 
-	if isDecimalDigit(r) {
+	r = l.s.Read()
+	if r == '+' || r == '-' {
 		lit.WriteRune(r)
-	} else {
+		r = l.s.Read()
+	}
+	if !isDecimalDigit(r) {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
 			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
+	lit.WriteRune(r)
 
 	for {
 		r = l.s.Read()
@@ -409,44 +406,44 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 			break
 		}
 	}
+}
 
-	r = l.s.Read()
-	if !isExponentIndicator(r) {
-		l.s.Unread()
-		return lit.String()
+func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
+	if lit == nil {
+		lit = &strings.Builder{}
 	}
-	lit.WriteRune(r)
+	r := l.s.Read()
 
-	r = l.s.Read()
-	if r != '+' && r != '-' && !isDecimalDigit(r) {
+	if isDecimalDigit(r) {
+		lit.WriteRune(r)
+	} else {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, +, or -, got %q", r),
+			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
-	lit.WriteRune(r)
 
 	for {
 		r = l.s.Read()
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
+		} else if isNumericLiteralSeparator(r) {
+			r = l.s.Read()
+			if isDecimalDigit(r) {
+				lit.WriteRune(r)
+			} else {
+				panic(&errs.SyntaxError{
+					Location: l.s.Location(),
+					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
+				})
 			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
 
+	l.consumeExponentPart(lit)
 	return lit.String()
 }
 
-- 
2.43.0


From 517e113242f3be2f2e2c328a381ec1f82ba78688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 09/77] fix: lexer: accept decimal literals with an empty
 fraction

---
 ecmascript/lexer/lexer.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 6b481eb..5757237 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -413,15 +413,13 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		lit = &strings.Builder{}
 	}
 	r := l.s.Read()
-
-	if isDecimalDigit(r) {
-		lit.WriteRune(r)
-	} else {
-		panic(&errs.SyntaxError{
-			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
-		})
+	if !isDecimalDigit(r) {
+		// The fraction may be empty, as in `1.`
+		l.s.Unread()
+		l.consumeExponentPart(lit)
+		return lit.String()
 	}
+	lit.WriteRune(r)
 
 	for {
 		r = l.s.Read()
-- 
2.43.0


From 5efab6a9492e34c248bc0400fe5f7fa2ff864ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 10/77] fix: lexer: a fraction or exponent may follow a leading
 zero

---
 ecmascript/lexer/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 5757237..8a858a9 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -568,9 +568,13 @@ func (l *Lexer) consumeNextToken() Token {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+			case '.':
+				lit.WriteRune(r)
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: "0"}
+				l.consumeExponentPart(lit)
+				return Token{Type: TokenLiteralNumber, Literal: lit.String()}
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-- 
2.43.0


From 58ff27af2612953e573525e9b024aac54e1b8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 11/77] fix: lexer: keep numeric separators in the raw text of
 literals

---
 ecmascript/lexer/lexer.go | 6 ++++++
 ecmascript/lexer/token.go | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 8a858a9..385dcbf 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -230,6 +230,7 @@ func (l *Lexer) consumeBinaryPart(lit *strings.Builder) string {
 		if isBinaryDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isBinaryDigit(r) {
 				lit.WriteRune(r)
@@ -268,6 +269,7 @@ func (l *Lexer) consumeOctalPart(lit *strings.Builder) string {
 		if isOctalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isOctalDigit(r) {
 				lit.WriteRune(r)
@@ -306,6 +308,7 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 		if isHexDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isHexDigit(r) {
 				lit.WriteRune(r)
@@ -343,6 +346,7 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
@@ -392,6 +396,7 @@ func (l *Lexer) consumeExponentPart(lit *strings.Builder) {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
@@ -426,6 +431,7 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
 		} else if isNumericLiteralSeparator(r) {
+			lit.WriteRune(r)
 			r = l.s.Read()
 			if isDecimalDigit(r) {
 				lit.WriteRune(r)
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 7abb374..59b56f0 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -388,10 +389,11 @@ func (t Token) StringConstant() string {
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	lit := strings.ReplaceAll(t.Literal, "_", "")
+	if v, err := strconv.ParseFloat(lit, 64); err == nil {
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
+	v, err := strconv.ParseInt(lit, 0, 64)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 1ca7993431d79d41d7f4bfdda49e36922d4d13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 12/77] fix: lexer: round numeric constants of any size

Literals of 2^63 and above with a base prefix and decimal literals beyond
the range of float64 caused a panic.
---
 ecmascript/lexer/token.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 59b56f0..5ba6c0e 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,7 +1,9 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 )
@@ -390,12 +392,17 @@ func (t Token) StringConstant() string {
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
 	lit := strings.ReplaceAll(t.Literal, "_", "")
-	if v, err := strconv.ParseFloat(lit, 64); err == nil {
-		return v
+	if len(lit) > 2 && lit[0] == '0' {
+		// Base 0 handles the 0b, 0o and 0x prefixes. These literals may be of
+		// any length, so they need to be rounded like decimal literals.
+		if v, ok := new(big.Int).SetString(lit, 0); ok && !isDecimalDigit(rune(lit[1])) {
+			f, _ := new(big.Float).SetInt(v).Float64()
+			return f
+		}
 	}
-	v, err := strconv.ParseInt(lit, 0, 64)
-	if err != nil {
+	v, err := strconv.ParseFloat(lit, 64)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		panic(err)
 	}
-	return float64(v)
+	return v
 }
-- 
2.43.0


From fe26605f5a5816d18914c7a94aa43b70ca5cb637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:12 +0000
Subject: [PATCH 13/77] fix: lexer: reject number literals directly followed by
 a name or digit

`3in [1]` was read as `3 in [1]` and `0b12` as two literals. This also
covers BigInt literals, which are not supported: `0n` caused a panic.
---
 ecmascript/lexer/lexer.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 385dcbf..eefd606 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -451,6 +451,20 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	return lit.String()
 }
 
+// numberToken returns the token for a number literal that was just consumed.
+// The literal may not be immediately followed by an identifier or digit.
+func (l *Lexer) numberToken(lit string) Token {
+	r := l.s.Read()
+	if isIdentifierStart(r) || isDecimalDigit(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      fmt.Errorf("unexpected %q after numeric literal", r),
+		})
+	}
+	l.s.Unread()
+	return Token{Type: TokenLiteralNumber, Literal: lit}
+}
+
 func (l *Lexer) consumeStringLiteral() Token {
 	quo := l.s.Read()
 	if quo != '\'' && quo != '"' {
@@ -536,7 +550,7 @@ func (l *Lexer) consumeNextToken() Token {
 				l.s.Unread()
 				lit := &strings.Builder{}
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
+				return l.numberToken(l.consumeFractionalPart(lit))
 			default:
 				l.s.Unread()
 				return Token{Type: TokenPunctuatorDot}
@@ -546,26 +560,24 @@ func (l *Lexer) consumeNextToken() Token {
 			lit.WriteRune(r)
 			r = l.s.Read()
 			switch r {
-			case 'n':
-				return Token{Type: TokenLiteralNumber, Literal: "0n"}
 			case 'b':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
+				return l.numberToken(l.consumeBinaryPart(lit))
 			case 'B':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
+				return l.numberToken(l.consumeBinaryPart(lit))
 			case 'o':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeOctalPart(lit)}
+				return l.numberToken(l.consumeOctalPart(lit))
 			case 'O':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeOctalPart(lit)}
+				return l.numberToken(l.consumeOctalPart(lit))
 			case 'x':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeHexPart(lit)}
+				return l.numberToken(l.consumeHexPart(lit))
 			case 'X':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeHexPart(lit)}
+				return l.numberToken(l.consumeHexPart(lit))
 			case '_':
 				panic(&errs.SyntaxError{
 					Location: l.s.Location(),
@@ -573,18 +585,18 @@ func (l *Lexer) consumeNextToken() Token {
 				})
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+				return l.numberToken(l.consumeDecimalPart(lit))
 			case '.':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
+				return l.numberToken(l.consumeFractionalPart(lit))
 			default:
 				l.s.Unread()
 				l.consumeExponentPart(lit)
-				return Token{Type: TokenLiteralNumber, Literal: lit.String()}
+				return l.numberToken(lit.String())
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-			return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(nil)}
+			return l.numberToken(l.consumeDecimalPart(nil))
 		case ';':
 			return Token{Type: TokenPunctuatorSemicolon}
 		case ',':
-- 
2.43.0


From fc8c3706c6636bd46fe9d0bf520a1f90ea6bcbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 14/77] fix: lexer: legacy octal literals are octal

`010` evaluated to 10 and could be continued by a fraction or separators.
A literal with a leading zero is octal unless it contains an 8 or 9, and
neither form is allowed in strict mode.
---
 ecmascript/lexer/lexer.go       | 26 +++++++++++++++++++++++++-
 ecmascript/lexer/token.go       | 16 ++++++++++++----
 ecmascript/parser/expression.go | 11 +++++++++--
 3 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index eefd606..ec4537a 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -369,6 +369,30 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 	return lit.String()
 }
 
+// Consumes the digits after a leading zero. These are octal unless there is a
+// digit that is not, in which case a fraction or exponent may follow.
+func (l *Lexer) consumeLegacyPart(lit *strings.Builder) string {
+	octal := true
+	for {
+		r := l.s.Read()
+		if isDecimalDigit(r) {
+			lit.WriteRune(r)
+			octal = octal && isOctalDigit(r)
+		} else if r == '.' && !octal {
+			lit.WriteRune(r)
+			return l.consumeFractionalPart(lit)
+		} else {
+			l.s.Unread()
+			break
+		}
+	}
+
+	if !octal {
+		l.consumeExponentPart(lit)
+	}
+	return lit.String()
+}
+
 // Consumes an exponent, if there is one.
 func (l *Lexer) consumeExponentPart(lit *strings.Builder) {
 	r := l.s.Read()
@@ -585,7 +609,7 @@ func (l *Lexer) consumeNextToken() Token {
 				})
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return l.numberToken(l.consumeDecimalPart(lit))
+				return l.numberToken(l.consumeLegacyPart(lit))
 			case '.':
 				lit.WriteRune(r)
 				return l.numberToken(l.consumeFractionalPart(lit))
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 5ba6c0e..334f2b5 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -388,14 +388,22 @@ func (t Token) StringConstant() string {
 	return t.Literal[1 : len(t.Literal)-1]
 }
 
+// IsLegacyNumber returns true for numeric constants with a leading zero, which
+// are not allowed in strict mode.
+func (t Token) IsLegacyNumber() bool {
+	return t.Type == TokenLiteralNumber && len(t.Literal) > 1 &&
+		t.Literal[0] == '0' && isDecimalDigit(rune(t.Literal[1]))
+}
+
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
 	lit := strings.ReplaceAll(t.Literal, "_", "")
-	if len(lit) > 2 && lit[0] == '0' {
-		// Base 0 handles the 0b, 0o and 0x prefixes. These literals may be of
-		// any length, so they need to be rounded like decimal literals.
-		if v, ok := new(big.Int).SetString(lit, 0); ok && !isDecimalDigit(rune(lit[1])) {
+	if len(lit) > 1 && lit[0] == '0' {
+		// Base 0 handles the 0b, 0o and 0x prefixes, and legacy octal. These
+		// literals may be of any length, so they need to be rounded like
+		// decimal literals.
+		if v, ok := new(big.Int).SetString(lit, 0); ok {
 			f, _ := new(big.Float).SetInt(v).Float64()
 			return f
 		}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..f642c5e 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -194,7 +194,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenKeywordFalse:
 		n = ast.BooleanLiteral{Value: false, Raw: t.Literal}
 	case lexer.TokenLiteralNumber:
-		n = ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+		n = p.numberLiteral(t)
 	case lexer.TokenLiteralString:
 		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
 	case lexer.TokenPunctuatorOpenBracket:
@@ -664,6 +664,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+func (p *Parser) numberLiteral(t lexer.Token) ast.NumberLiteral {
+	if p.ctx.strictMode && t.IsLegacyNumber() {
+		p.s.SyntaxError("numbers with a leading zero are not allowed in strict mode")
+	}
+	return ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+}
+
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
@@ -963,7 +970,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case lexer.TokenLiteralNumber:
 			// Number literal.
-			id := ast.NumberLiteral{Value: t.NumberConstant(), Raw: t.Literal}
+			id := p.numberLiteral(t)
 			id.SetStart(pos)
 			id.SetEnd(p.s.Location())
 			prop.Key = id
-- 
2.43.0


From 8b65b9d4c82bf4e9742dceb7f118669dae14826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 15/77] fix: lexer: keep escapes in regular expression patterns

The backslashes of `\/` and `\\` were dropped, which changes the meaning
of the pattern.
---
 ecmascript/lexer/lexer.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index ec4537a..3a219f1 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -99,12 +99,8 @@ patternLoop:
 			r = l.s.Read()
 			lit.WriteRune(r)
 
-			if r == '/' || r == '\\' {
-				pat.WriteRune(r)
-			} else {
-				pat.WriteRune('\\')
-				pat.WriteRune(r)
-			}
+			pat.WriteRune('\\')
+			pat.WriteRune(r)
 
 		case EOFRune:
 			panic(&errs.SyntaxError{
-- 
2.43.0


From af26cbb77af133d65223c96471664349e401b680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 16/77] fix: lexer: reject line terminators in regular
 expressions

---
 ecmascript/lexer/lexer.go | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 3a219f1..19444e7 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -61,10 +61,22 @@ func (l *Lexer) consumeRegex(t Token) ReToken {
 	lit.WriteString(t.Source())
 	pat.WriteString(t.Source()[1:])
 
-patternLoop:
-	for {
+	// Reads a rune of the pattern, which may not contain line terminators.
+	read := func() rune {
 		r := l.s.Read()
+		if r == EOFRune || isLineTerm(r) {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      errors.New("unterminated regular expression"),
+			})
+		}
 		lit.WriteRune(r)
+		return r
+	}
+
+patternLoop:
+	for {
+		r := read()
 
 		switch r {
 		case '/':
@@ -76,37 +88,20 @@ patternLoop:
 			// allowed in a character class.
 			pat.WriteRune(r)
 			for {
-				r := l.s.Read()
-				lit.WriteRune(r)
+				r := read()
 				pat.WriteRune(r)
 
 				if r == '\\' {
-					r := l.s.Read()
-					lit.WriteRune(r)
-					pat.WriteRune(r)
+					pat.WriteRune(read())
 				} else if r == ']' {
 					break
-				} else if r == EOFRune {
-					panic(&errs.SyntaxError{
-						Location: l.s.Location(),
-						Err:      errors.New("unexpected EOF"),
-					})
 				}
 			}
 
 		case '\\':
 			// Escape sequence.
-			r = l.s.Read()
-			lit.WriteRune(r)
-
-			pat.WriteRune('\\')
 			pat.WriteRune(r)
-
-		case EOFRune:
-			panic(&errs.SyntaxError{
-				Location: l.s.Location(),
-				Err:      errors.New("unexpected EOF"),
-			})
+			pat.WriteRune(read())
 
 		default:
 			pat.WriteRune(r)
-- 
2.43.0


From e86176ba8336204fa9ea693da78a34047c0224df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 17/77] fix: lexer: decode escape sequences in string constants

The value of a string literal was its raw text. Malformed \x and \u
escapes are rejected.
---
 ecmascript/lexer/lexer.go | 33 ++++++++++++++++
 ecmascript/lexer/token.go | 79 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 110 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 19444e7..3d03892 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -3,7 +3,9 @@ package lexer
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/jchv/cleansheets/ecmascript/ast"
 	"github.com/jchv/cleansheets/ecmascript/errs"
@@ -509,6 +511,8 @@ func (l *Lexer) consumeStringLiteral() Token {
 				} else {
 					l.s.Unread()
 				}
+			} else if r == 'x' || r == 'u' {
+				c = append(c, l.consumeHexEscape(r)...)
 			}
 		}
 		if r == EOFRune {
@@ -525,6 +529,35 @@ func (l *Lexer) consumeStringLiteral() Token {
 	}
 }
 
+// Consumes the digits of a \x or \u escape sequence.
+func (l *Lexer) consumeHexEscape(typ rune) []rune {
+	c := []rune{}
+	n := 4
+	if typ == 'x' {
+		n = 2
+	}
+	v := int64(0)
+	for {
+		r := l.s.Read()
+		if typ == 'u' && len(c) == 0 && r == '{' {
+			// Any number of digits, up to the closing brace.
+			n = -1
+		} else if isHexDigit(r) && v <= unicode.MaxRune {
+			d, _ := strconv.ParseInt(string(r), 16, 64)
+			v = v*16 + d
+		} else if n >= 0 || r != '}' || len(c) == 1 || v > unicode.MaxRune {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      fmt.Errorf("invalid escape sequence in string literal"),
+			})
+		}
+		c = append(c, r)
+		if len(c) == n || r == '}' {
+			return c
+		}
+	}
+}
+
 func (l *Lexer) consumeNextToken() Token {
 	var r rune
 	for {
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 334f2b5..5696c73 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -6,6 +6,8 @@ import (
 	"math/big"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf16"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -384,8 +386,81 @@ func (t Token) StringConstant() string {
 		panic("expected string literal token")
 	}
 
-	// TODO: actual string parsing :)
-	return t.Literal[1 : len(t.Literal)-1]
+	c := []rune(t.Literal[1 : len(t.Literal)-1])
+	v := &strings.Builder{}
+	for i := 0; i < len(c); {
+		if c[i] != '\\' {
+			v.WriteRune(c[i])
+			i++
+			continue
+		}
+		r, n := unescape(c[i:])
+		i += n
+		if utf16.IsSurrogate(r) && i+1 < len(c) && c[i] == '\\' && c[i+1] == 'u' {
+			// Two escapes can form a surrogate pair.
+			low, n := unescape(c[i:])
+			if pair := utf16.DecodeRune(r, low); pair != unicode.ReplacementChar {
+				r = pair
+				i += n
+			}
+		}
+		if r >= 0 {
+			v.WriteRune(r)
+		}
+	}
+	return v.String()
+}
+
+// unescape returns the rune that the valid escape sequence at the start of c
+// stands for, or -1 if it is a line continuation, and its length.
+func unescape(c []rune) (rune, int) {
+	hex := func(digits []rune) rune {
+		v, _ := strconv.ParseUint(string(digits), 16, 32)
+		return rune(v)
+	}
+
+	switch c[1] {
+	case 'b':
+		return '\b', 2
+	case 'f':
+		return '\f', 2
+	case 'n':
+		return '\n', 2
+	case 'r':
+		return '\r', 2
+	case 't':
+		return '\t', 2
+	case 'v':
+		return '\v', 2
+	case 'x':
+		return hex(c[2:4]), 4
+	case 'u':
+		if c[2] != '{' {
+			return hex(c[2:6]), 6
+		}
+		n := 3
+		for c[n] != '}' {
+			n++
+		}
+		return hex(c[3:n]), n + 1
+	case '0', '1', '2', '3', '4', '5', '6', '7':
+		// Up to three digits, and no more than a byte.
+		v, n := rune(0), 1
+		for n < len(c) && n < 4 && isOctalDigit(c[n]) && v*8+c[n]-'0' <= 0xff {
+			v = v*8 + c[n] - '0'
+			n++
+		}
+		return v, n
+	case '\r':
+		if len(c) > 2 && c[2] == '\n' {
+			return -1, 3
+		}
+		return -1, 2
+	case '\n', '\u2028', '\u2029':
+		return -1, 2
+	default:
+		return c[1], 2
+	}
 }
 
 // IsLegacyNumber returns true for numeric constants with a leading zero, which
-- 
2.43.0


From 7f1c39167d7d8c0083559277af1cc10a367bf03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 18/77] fix: parser: reject octal escape sequences in strict
 mode

---
 ecmascript/lexer/token.go       | 18 ++++++++++++++++++
 ecmascript/parser/expression.go | 11 +++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 5696c73..76dd848 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -411,6 +411,24 @@ func (t Token) StringConstant() string {
 	return v.String()
 }
 
+// HasLegacyEscape returns true for string constants with an escape sequence
+// that is not allowed in strict mode: \1 to \9, or \0 followed by a digit.
+func (t Token) HasLegacyEscape() bool {
+	if t.Type != TokenLiteralString {
+		return false
+	}
+	for i := 0; i < len(t.Literal)-1; i++ {
+		if t.Literal[i] == '\\' {
+			i++
+			if t.Literal[i] >= '1' && t.Literal[i] <= '9' ||
+				t.Literal[i] == '0' && isDecimalDigit(rune(t.Literal[i+1])) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // unescape returns the rune that the valid escape sequence at the start of c
 // stands for, or -1 if it is a line continuation, and its length.
 func unescape(c []rune) (rune, int) {
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index f642c5e..825ab59 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -196,7 +196,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenLiteralNumber:
 		n = p.numberLiteral(t)
 	case lexer.TokenLiteralString:
-		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+		n = p.stringLiteral(t)
 	case lexer.TokenPunctuatorOpenBracket:
 		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
 	case lexer.TokenPunctuatorOpenBrace:
@@ -664,6 +664,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+func (p *Parser) stringLiteral(t lexer.Token) ast.StringLiteral {
+	if p.ctx.strictMode && t.HasLegacyEscape() {
+		p.s.SyntaxError("octal escape sequences are not allowed in strict mode")
+	}
+	return ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+}
+
 func (p *Parser) numberLiteral(t lexer.Token) ast.NumberLiteral {
 	if p.ctx.strictMode && t.IsLegacyNumber() {
 		p.s.SyntaxError("numbers with a leading zero are not allowed in strict mode")
@@ -963,7 +970,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case lexer.TokenLiteralString:
 			// String literal.
-			id := ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
+			id := p.stringLiteral(t)
 			id.SetStart(pos)
 			id.SetEnd(p.s.Location())
 			prop.Key = id
-- 
2.43.0


From 9362e487e4f6c3985ca2b4730535c5c12f417893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 19/77] fix: parser: report unsupported syntax as an error

Parse panicked with a nil value on with, debugger and export. An internal
panic now keeps its value.
---
 ecmascript/parser/expression.go |  2 +-
 ecmascript/parser/module.go     |  3 ++-
 ecmascript/parser/parser.go     | 11 ++++++++++-
 ecmascript/parser/statement.go  |  6 ++++--
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 825ab59..420a6f0 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.unsupported("template literal")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..347eed1 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.unsupported("export declaration")
+	return nil
 }
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..5942766 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
@@ -109,6 +109,15 @@ func (p *Parser) expectSemicolon() {
 	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "did you forget a semicolon?")
 }
 
+// unsupported panics with a parser error for syntax that is valid, but not
+// supported yet.
+func (p *Parser) unsupported(what string) {
+	panic(&errs.ParserError{
+		Location: p.s.Location(),
+		Err:      fmt.Errorf("unsupported: %s", what),
+	})
+}
+
 type spannedNode interface {
 	ast.Node
 	SetStart(ast.Location)
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..4c08ffc 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.unsupported("with statement")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.unsupported("debugger statement")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From 9e8f4d08fc3ecf7bee4d5f59ee001e6cd4f413ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 20/77] fix: parser: parse `|` as bitwise or

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 420a6f0..0a8ab99 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -523,7 +523,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorBitOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorBitOr, "expected `|` operator")
-			n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseXor)
+			n = wrapbinary(ast.BinaryBitOrOp, exprOrderBitwiseXor)
 			continue
 		}
 		if order >= exprOrderBitwiseOr {
-- 
2.43.0


From 3f4970654025bae6587b99956674eaab2103bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 21/77] fix: ast: handle elisions and shorthand properties in
 ContainsTemporalNodes

`([,a])` and `({a})` caused a nil dereference.
---
 ecmascript/ast/expressions.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..b93edfa 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,7 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +396,10 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		if prop.Key.ContainsTemporalNodes() {
+			return true
+		}
+		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
-- 
2.43.0


From 97fbe5e7180659f072308a084b65e02385907ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 22/77] fix: parser: remove debug output

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 0a8ab99..7ee0ead 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -741,7 +741,7 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
+
 				if key, ok := prop.Key.(ast.Identifier); ok {
 					binding.PropertyName = key.Name
 				}
-- 
2.43.0


From 507dc117e76af3a97e83804ef14c340614c65f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 23/77] fix: parser: require commas between arguments and array
 elements

---
 ecmascript/parser/expression.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7ee0ead..58ecba7 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -838,12 +838,10 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
-		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
 		}
+		p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
@@ -1127,7 +1125,7 @@ func (p *Parser) parseArguments() []ast.Node {
 			m = ast.SpreadElement{Argument: m}
 		}
 		n = append(n, m)
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
-- 
2.43.0


From c3e941137f5244bc3f5fdcd40094a60b2610d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 24/77] fix: parser: `**` is right-associative and takes no
 unary base

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 58ecba7..7347662 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -398,8 +398,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorExponent {
+			if _, ok := n.(*ast.UnaryExpression); ok {
+				p.s.SyntaxError("unparenthesized unary expression can not be the base of `**`")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
-			n = wrapbinary(ast.BinaryExponentOp, exprOrderUnaryExpr)
+			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
 		}
 		if order >= exprOrderExponentExpr {
-- 
2.43.0


From d445f9cb893ecf7fca93d4339855b503542bc298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 25/77] fix: parser: postfix operators end the operand and may
 not follow a line break

---
 ecmascript/parser/expression.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7347662..fb41eeb 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -297,6 +297,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+		if _, ok := n.(*ast.UpdateExpression); ok {
+			// An update expression is not a LHS expression.
+			switch t.Type {
+			case lexer.TokenPunctuatorDot, lexer.TokenPunctuatorOpenBracket,
+				lexer.TokenPunctuatorOpenParen, lexer.TokenPunctuatorOptionalChain,
+				lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement:
+				return n
+			}
+		}
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
@@ -384,11 +393,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// TODO: should add order for update?
-		if t.Type == lexer.TokenPunctuatorIncrement {
+		if t.Type == lexer.TokenPunctuatorIncrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-		} else if t.Type == lexer.TokenPunctuatorDecrement {
+		} else if t.Type == lexer.TokenPunctuatorDecrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-- 
2.43.0


From 66292dcca4f99271153b5af63198f22db7ab40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 26/77] fix: parser: accept any expression as a computed member
 name

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index fb41eeb..28754bf 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -324,7 +324,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			m := ast.MemberExpression{
 				Object:   n,
 				Computed: true,
-				Property: p.parseExpression(exprOrderAssign, 0),
+				Property: p.parseExpression(exprOrderComma, 0),
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]` operator")
 			m.SetStart(s)
-- 
2.43.0


From da888f6c061708acce8c0bfa74e234145f442963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 27/77] fix: ast: `??` is a logical expression in ESTree

---
 ecmascript/ast/expressions_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..cd6d992 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -232,7 +232,7 @@ type BinaryExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n BinaryExpression) ESTree() interface{} {
 	nodeType := "BinaryExpression"
-	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp {
+	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp || n.Operator == BinaryCoalesceOp {
 		nodeType = "LogicalExpression"
 	}
 
-- 
2.43.0


From 4ba2de3d6e67027f2c9aa35b0421b684d69a3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:10 +0000
Subject: [PATCH 28/77] fix: parser: `??` does not mix with `||` and `&&`

Its operands are bitwise or expressions. Mixing requires parentheses.
---
 ecmascript/parser/expression.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 28754bf..5703fa5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -543,6 +543,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorLogicalAnd {
+			if isBinary(n, ast.BinaryCoalesceOp) {
+				p.s.SyntaxError("`??` and `&&` can not be mixed without parentheses")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalAnd, "expected `&&` operator")
 			n = wrapbinary(ast.BinaryLogicalAndOp, exprOrderBitwiseOr)
 			continue
@@ -552,12 +555,18 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorLogicalOr {
+			if isBinary(n, ast.BinaryCoalesceOp) {
+				p.s.SyntaxError("`??` and `||` can not be mixed without parentheses")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalOr, "expected `||` operator")
 			n = wrapbinary(ast.BinaryLogicalOrOp, exprOrderLogicalAnd)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorNullCoalesce {
+			if isBinary(n, ast.BinaryLogicalAndOp) || isBinary(n, ast.BinaryLogicalOrOp) {
+				p.s.SyntaxError("`??` can not be mixed with `&&` and `||` without parentheses")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorNullCoalesce, "expected `??` operator")
-			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)
+			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)
 			continue
 		}
 		if order >= exprOrderLogicalOr {
@@ -676,6 +685,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// isBinary returns true if n is an unparenthesized binary expression with the
+// given operator.
+func isBinary(n ast.Node, op ast.BinaryOperator) bool {
+	b, ok := n.(ast.BinaryExpression)
+	return ok && b.Operator == op
+}
+
 func (p *Parser) stringLiteral(t lexer.Token) ast.StringLiteral {
 	if p.ctx.strictMode && t.HasLegacyEscape() {
 		p.s.SyntaxError("octal escape sequences are not allowed in strict mode")
-- 
2.43.0


From 15cacf9d8b688d2cf4382518b713f3c909bf1157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 29/77] fix: parser: arrow functions are assignment expressions

Their bodies may be any assignment expression, they are only allowed where
an assignment expression is, they can not be operands, no line break may
precede the `=>`, and a comma may follow a single parameter arrow.
---
 ecmascript/parser/expression.go | 75 ++++++++++++++-------------------
 ecmascript/parser/statement.go  |  4 +-
 2 files changed, 34 insertions(+), 45 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5703fa5..599a0ce 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -100,6 +100,31 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	// closed is set when n is an assignment-level expression that can not be
+	// an operand: only a comma may follow.
+	closed := false
+
+	// Parses the rest of an arrow function, from the `=>`.
+	arrow := func(params ast.FormalParameters, async bool) ast.Node {
+		t := p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
+		if t.NewLine {
+			p.s.SyntaxError("illegal newline before `=>`")
+		}
+		if order > exprOrderAssign {
+			p.s.SyntaxError("arrow function can not be an operand")
+		}
+		m := ast.FunctionExpression{
+			Params: params,
+			Body:   p.parseBlockOrShorthand(flags & exprFlagDisallowIn),
+			Arrow:  true,
+			Async:  async,
+		}
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
+		closed = true
+		return m
+	}
+
 	// Can't be Div/DivAssign here, relex as a regex. NOTE: if we are peeked
 	// ahead at this point, this will fail.
 	re := lexer.ReToken{}
@@ -145,13 +170,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			} else if ident.Type == lexer.TokenIdentifier {
 				// Async arrow function with bare parameter
 				p.s.Scan()
-				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-				return ast.FunctionExpression{
-					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(),
-					Arrow:  true,
-					Async:  true,
-				}
+				n = arrow(ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}}, true)
 			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
 				// Async arrow function with parameter list
 				// OR
@@ -162,17 +181,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
-					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-					params := p.convertExprToArrowParams(inner)
-					m := ast.FunctionExpression{
-						Params: params,
-						Body:   p.parseBlockOrShorthand(),
-						Arrow:  true,
-						Async:  true,
-					}
-					m.SetStart(s)
-					m.SetEnd(p.s.Location())
-					n = m
+					n = arrow(p.convertExprToArrowParams(inner), true)
 				} else {
 					// This was a call to a function named "async"
 					n = ast.CallExpression{
@@ -246,16 +255,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
 			// expression to be a parameter list.
-			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-			params := p.convertExprToArrowParams(inner)
-			m := ast.FunctionExpression{
-				Params: params,
-				Body:   p.parseBlockOrShorthand(),
-				Arrow:  true,
-			}
-			m.SetStart(s)
-			m.SetEnd(p.s.Location())
-			n = m
+			n = arrow(p.convertExprToArrowParams(inner), false)
 		} else {
 			// Was not an arrow. Deal disallowed syntax retroactively.
 			if _, ok := inner.(ast.TemporalEmptyArrowHead); ok || inner.ContainsTemporalNodes() {
@@ -273,21 +273,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
-		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		var body ast.Node
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseBlock()
-		} else {
-			body = p.parseExpression(exprOrderConditional, 0)
-		}
-		m := ast.FunctionExpression{
-			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
-			Body:   body,
-			Arrow:  true,
-		}
-		m.SetStart(s)
-		m.SetEnd(p.s.Location())
-		return m
+		n = arrow(ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}}, false)
 	}
 
 	if order >= exprOrderPrimaryExpr {
@@ -297,6 +283,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+		if closed && t.Type != lexer.TokenPunctuatorComma {
+			break
+		}
 		if _, ok := n.(*ast.UpdateExpression); ok {
 			// An update expression is not a LHS expression.
 			switch t.Type {
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 4c08ffc..e7cfc41 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -107,11 +107,11 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand() ast.Node {
+func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
 		return p.parseBlock()
 	} else {
-		return p.parseExpression(exprOrderConditional, 0)
+		return p.parseExpression(exprOrderAssign, flags)
 	}
 }
 
-- 
2.43.0


From 612db66d79e46b3ddc56df439fdb7caaa7acccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 30/77] fix: parser: assignments, conditionals and sequences
 are not operands

An arrow function on their right end was followed by further operators,
and the `in` restriction was dropped for the last conditional operand.
---
 ecmascript/parser/expression.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 599a0ce..d198faf 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -69,6 +69,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 
+	// closed is set when n is an assignment-level expression that can not be
+	// an operand: only a comma may follow.
+	closed := false
+
 	invalidprimary := func() {
 		p.s.SyntaxError(fmt.Sprintf("unexpected token `%s`, expected primary expression", t.Source()))
 	}
@@ -92,6 +96,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	}
 
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
+		closed = true
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
@@ -100,10 +105,6 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
-	// closed is set when n is an assignment-level expression that can not be
-	// an operand: only a comma may follow.
-	closed := false
-
 	// Parses the rest of an arrow function, from the `=>`.
 	arrow := func(params ast.FormalParameters, async bool) ast.Node {
 		t := p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
@@ -566,7 +567,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorQuestionMark, "expected `?` operator in conditional expression")
 			a := p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` operator in conditional expression")
-			b := p.parseExpression(exprOrderAssign, 0)
+			b := p.parseExpression(exprOrderAssign, flags&exprFlagDisallowIn)
+			closed = true
 			m := ast.ConditionalExpression{
 				Test:       n,
 				Consequent: a,
@@ -651,6 +653,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		if t.Type == lexer.TokenPunctuatorComma {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
+			closed = true
 			if seq, ok := n.(ast.SequenceExpression); ok {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
 				n = seq
-- 
2.43.0


From 4a9e3be68c522b6a25697a336e43c55a221e1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 31/77] fix: parser: patterns do not leak out of destructuring
 positions

---
 ecmascript/ast/expressions.go   |  2 +-
 ecmascript/parser/expression.go | 48 ++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index b93edfa..6bba71e 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -396,7 +396,7 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() {
+		if prop.Key.ContainsTemporalNodes() || prop.DestructureInit != nil {
 			return true
 		}
 		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d198faf..b2e06bf 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -35,7 +35,14 @@ type exprFlags int
 
 const (
 	exprFlagDisallowIn exprFlags = 1 << iota
+
+	// exprFlagMaybeArrow allows the result to contain temporal nodes, which
+	// are only valid in a destructuring pattern.
 	exprFlagMaybeArrow
+
+	// exprFlagArrowHead additionally allows the productions that only occur
+	// directly inside of the parentheses of an arrow function head.
+	exprFlagArrowHead
 )
 
 // parseExpression parses an expression up to a certain level of operator
@@ -51,7 +58,7 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
-	if flags&exprFlagMaybeArrow != 0 {
+	if flags&exprFlagArrowHead != 0 {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenPunctuatorCloseParen:
 			// This is a parameter list, not an expression.
@@ -69,6 +76,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 
+	// Only elements of a comma separated list share our flags; operands can
+	// not be part of an arrow function head or of a pattern.
+	listflags := flags
+	flags &^= exprFlagMaybeArrow | exprFlagArrowHead
+
 	// closed is set when n is an assignment-level expression that can not be
 	// an operand: only a comma may follow.
 	closed := false
@@ -177,7 +189,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
-				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 					// This was an arrow function after all. Fix up the parenthesized
@@ -208,9 +220,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenLiteralString:
 		n = p.stringLiteral(t)
 	case lexer.TokenPunctuatorOpenBracket:
-		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseArrayTail(s, exprFlagMaybeArrow)
 	case lexer.TokenPunctuatorOpenBrace:
-		n = p.parseObjectTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseObjectTail(s, exprFlagMaybeArrow)
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
@@ -251,7 +263,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// list of an arrow function. To avoid look-ahead, the parser will
 		// parse as an expression where possible, but also allow some invalid
 		// productions, and then it will be fixed up here.
-		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow)
+		inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 		p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 			// This was an arrow function after all. Fix up the parenthesized
@@ -272,6 +284,24 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		invalidprimary()
 	}
 
+	// A literal that is only valid as a pattern has to be used as one.
+	if n.ContainsTemporalNodes() {
+		pattern := false
+		switch p.s.PeekAt(0).Type {
+		case lexer.TokenPunctuatorAssign:
+			pattern = true
+		case lexer.TokenPunctuatorComma, lexer.TokenPunctuatorCloseParen,
+			lexer.TokenPunctuatorCloseBracket, lexer.TokenPunctuatorCloseBrace,
+			lexer.TokenKeywordOf:
+			pattern = listflags&exprFlagMaybeArrow != 0
+		case lexer.TokenKeywordIn:
+			pattern = listflags&exprFlagMaybeArrow != 0 && flags&exprFlagDisallowIn != 0
+		}
+		if !pattern {
+			p.s.SyntaxError("unexpected pattern in expression")
+		}
+	}
+
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 		n = arrow(ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}}, false)
@@ -655,13 +685,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			closed = true
 			if seq, ok := n.(ast.SequenceExpression); ok {
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listflags))
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
 				seq.SetEnd(p.s.Location())
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listflags))
 				n = seq
 			}
 			continue
@@ -1003,7 +1033,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -1032,7 +1062,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From c21109553b7e762fe1589fbcdd8cbe8db0d114ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 32/77] fix: parser: check assignment targets and turn them
 into patterns

---
 ecmascript/ast/estree.go             | 98 ++++++++++++++++++++++++++++
 ecmascript/ast/expressions_binary.go |  2 +-
 ecmascript/ast/statement.go          |  4 +-
 ecmascript/parser/expression.go      | 58 ++++++++++++++--
 ecmascript/parser/statement.go       | 10 ++-
 5 files changed, 164 insertions(+), 8 deletions(-)

diff --git a/ecmascript/ast/estree.go b/ecmascript/ast/estree.go
index fae326a..823c1d2 100644
--- a/ecmascript/ast/estree.go
+++ b/ecmascript/ast/estree.go
@@ -25,3 +25,101 @@ func estree(node Node) interface{} {
 	}
 	return nil
 }
+
+// estreeTarget returns the ESTree representation for the target of an
+// assignment. Array and object literals are destructuring patterns there.
+func estreeTarget(node Node) interface{} {
+	switch n := node.(type) {
+	case TemporalArrayRestElement:
+		return estreeRest(n.BindingPattern.ESTree())
+
+	case AssignmentExpression:
+		return estreeAssignmentPattern(estreeTarget(n.Left), n.Right)
+
+	case ArrayExpression:
+		e := struct {
+			Type     string        `json:"type"`
+			Elements []interface{} `json:"elements"`
+		}{
+			Type:     "ArrayPattern",
+			Elements: []interface{}{},
+		}
+		for _, elem := range n.Elements {
+			e.Elements = append(e.Elements, estreeTarget(elem))
+		}
+		return e
+
+	case ObjectExpression:
+		e := struct {
+			Type       string        `json:"type"`
+			Properties []interface{} `json:"properties"`
+		}{
+			Type:       "ObjectPattern",
+			Properties: []interface{}{},
+		}
+		for _, prop := range n.Properties {
+			if rest, ok := prop.Key.(TemporalObjectRestElement); ok {
+				e.Properties = append(e.Properties, estreeRest(estreeIdent(rest.Identifier)))
+				continue
+			}
+			k := estree(prop.Key)
+			v, shorthand := estreeTarget(prop.Value), false
+			if v == nil {
+				v, shorthand = k, true
+			}
+			if prop.DestructureInit != nil {
+				v = estreeAssignmentPattern(v, prop.DestructureInit)
+			}
+			e.Properties = append(e.Properties, estreeProperty(k, prop.Computed, v, shorthand))
+		}
+		return e
+
+	default:
+		return estree(node)
+	}
+}
+
+// estreeRest returns a rest element.
+func estreeRest(argument interface{}) interface{} {
+	return struct {
+		Type     string      `json:"type"`
+		Argument interface{} `json:"argument"`
+	}{
+		Type:     "RestElement",
+		Argument: argument,
+	}
+}
+
+// estreeAssignmentPattern returns a pattern with a default value.
+func estreeAssignmentPattern(left interface{}, init Node) interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Left  interface{} `json:"left"`
+		Right interface{} `json:"right"`
+	}{
+		Type:  "AssignmentPattern",
+		Left:  left,
+		Right: estree(init),
+	}
+}
+
+// estreeProperty returns a property of an object pattern.
+func estreeProperty(key interface{}, computed bool, value interface{}, shorthand bool) interface{} {
+	return struct {
+		Type      string      `json:"type"`
+		Key       interface{} `json:"key"`
+		Computed  bool        `json:"computed"`
+		Value     interface{} `json:"value"`
+		Kind      string      `json:"kind"`
+		Method    bool        `json:"method"`
+		Shorthand bool        `json:"shorthand"`
+	}{
+		Type:      "Property",
+		Key:       key,
+		Computed:  computed,
+		Value:     value,
+		Kind:      "init",
+		Method:    false,
+		Shorthand: shorthand,
+	}
+}
diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index cd6d992..584e717 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -280,7 +280,7 @@ func (n AssignmentExpression) ESTree() interface{} {
 	}{
 		Type:     "AssignmentExpression",
 		Operator: estreeAssignOpMap[n.Operator],
-		Left:     estree(n.Left),
+		Left:     estreeTarget(n.Left),
 		Right:    estree(n.Right),
 	}
 }
diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 8141a6e..a5e2644 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -463,7 +463,7 @@ func (n ForInStatement) ESTree() interface{} {
 	}{
 		Type:  "ForInStatement",
 		Each:  false,
-		Left:  estree(n.Left),
+		Left:  estreeTarget(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
 	}
@@ -486,7 +486,7 @@ func (n ForOfStatement) ESTree() interface{} {
 		Body  interface{} `json:"body"`
 	}{
 		Type:  "ForOfStatement",
-		Left:  estree(n.Left),
+		Left:  estreeTarget(n.Left),
 		Right: estree(n.Right),
 		Body:  estree(n.Body),
 	}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b2e06bf..a408804 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -98,6 +98,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return n
 	}
 
+	wrapupdate := func(op ast.UpdateOperator, arg ast.Node) ast.Node {
+		p.checkTarget(arg, false)
+		return wrap(&ast.UpdateExpression{Operator: op, Argument: arg}, exprOrderUnaryExpr)
+	}
+
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
@@ -109,6 +114,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
 		closed = true
+		p.checkTarget(n, op == ast.AssignmentOp)
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
@@ -150,10 +156,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrapupdate(ast.UpdatePreIncrementOp, p.parseExpression(exprOrderLHSExpr, flags))
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrapupdate(ast.UpdatePreDecrementOp, p.parseExpression(exprOrderLHSExpr, flags))
 	case lexer.TokenKeywordDelete:
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
@@ -415,11 +421,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// TODO: should add order for update?
 		if t.Type == lexer.TokenPunctuatorIncrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
-			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
+			n = wrapupdate(ast.UpdatePostIncrementOp, n)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorDecrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
-			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
+			n = wrapupdate(ast.UpdatePostDecrementOp, n)
 			continue
 		}
 		if order >= exprOrderUnaryExpr {
@@ -714,6 +720,50 @@ func isBinary(n ast.Node, op ast.BinaryOperator) bool {
 	return ok && b.Operator == op
 }
 
+// checkTarget checks that n can be assigned to. If pattern is true, n may also
+// be a destructuring pattern.
+func (p *Parser) checkTarget(n ast.Node, pattern bool) {
+	checkElement := func(n ast.Node) {
+		// The target of an initializer is already checked.
+		if a, ok := n.(ast.AssignmentExpression); !ok || a.Operator != ast.AssignmentOp {
+			p.checkTarget(n, true)
+		}
+	}
+
+	switch t := n.(type) {
+	case ast.Identifier:
+		return
+	case ast.MemberExpression:
+		if !t.Optional {
+			return
+		}
+	case ast.ParenthesizedExpression:
+		p.checkTarget(t.Expression, false)
+		return
+	case ast.TemporalArrayRestElement:
+		return
+	case ast.ArrayExpression:
+		if pattern {
+			for _, e := range t.Elements {
+				if e != nil {
+					checkElement(e)
+				}
+			}
+			return
+		}
+	case ast.ObjectExpression:
+		if pattern {
+			for _, prop := range t.Properties {
+				if prop.Value != nil {
+					checkElement(prop.Value)
+				}
+			}
+			return
+		}
+	}
+	p.s.SyntaxError("invalid assignment target")
+}
+
 func (p *Parser) stringLiteral(t lexer.Token) ast.StringLiteral {
 	if p.ctx.strictMode && t.HasLegacyEscape() {
 		p.s.SyntaxError("octal escape sequences are not allowed in strict mode")
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e7cfc41..8743025 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -417,7 +417,15 @@ func (p *Parser) parseForStatement() ast.Node {
 		if t.Type == lexer.TokenKeywordVar {
 			v = p.parseVariableStatementNoSemicolon()
 		} else {
-			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn)
+			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn|exprFlagMaybeArrow)
+			switch p.s.PeekAt(0).Type {
+			case lexer.TokenKeywordIn, lexer.TokenKeywordOf:
+				p.checkTarget(v, true)
+			default:
+				if v.ContainsTemporalNodes() {
+					p.s.SyntaxError("unexpected pattern in expression")
+				}
+			}
 		}
 		// for in/of
 		switch p.s.PeekAt(0).Type {
-- 
2.43.0


From 0dda89a71f5c951363f52c484a395dca614343ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 33/77] fix: parser: convert nested patterns and trailing
 commas of arrow heads

---
 ecmascript/parser/expression.go | 168 +++++++++++++-------------------
 1 file changed, 67 insertions(+), 101 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index a408804..ca221a8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -67,7 +67,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// Rest parameter inside of possible arrow function head.
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			return ast.TemporalFloatingRestElement{
-				Identifier: p.forceScanIdent("unexpected token"),
+				Identifier: p.scanIdent("unexpected token"),
 			}
 		}
 	}
@@ -781,119 +781,85 @@ func (p *Parser) numberLiteral(t lexer.Token) ast.NumberLiteral {
 func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
-	convarg := func(n ast.Node, params *ast.FormalParameters) {
-		switch t := n.(type) {
-		case ast.Identifier:
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: t.Name},
-			})
-			return
+	exprs := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		exprs = seq.Expressions
+	}
+
+	for i, e := range exprs {
+		last := i == len(exprs)-1
+		switch t := e.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// No parameters, or a trailing comma.
+			break
 
-		case ast.AssignmentExpression:
-			left, ok := t.Left.(ast.Identifier)
-			if !ok {
-				p.s.SyntaxError("expected identifier in argument list")
+		case ast.TemporalFloatingRestElement:
+			if !last {
+				p.s.SyntaxError("rest parameter must be the last parameter")
 			}
-			name := left.Name
-			params.Parameters = append(params.Parameters, ast.BindingElement{
-				Value: ast.BindingPattern{Identifier: name},
-				Init:  t.Right,
-			})
-			return
+			params.RestParameter = t.Identifier
 
-		case ast.ArrayExpression:
-			pat := ast.ArrayBindingPattern{}
-			for _, e := range t.Elements {
-				elem := ast.BindingElement{}
-				switch e := e.(type) {
-				case nil:
-					break
-
-				case ast.Identifier:
-					elem.Value = ast.BindingPattern{Identifier: e.Name}
-
-				case ast.AssignmentExpression:
-					left, ok := e.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					name := left.Name
-					elem = ast.BindingElement{Value: ast.BindingPattern{Identifier: name}, Init: e.Right}
+		default:
+			params.Parameters = append(params.Parameters, p.convertExprToBindingElement(t))
+		}
+	}
 
-				case ast.TemporalArrayRestElement:
-					pat.RestElement = e.BindingPattern
-					params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-					return
+	return params
+}
 
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in array destructuring: %T", e))
-				}
-				pat.Elements = append(pat.Elements, elem)
-			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ArrayPattern: &pat}})
-			return
+// convertExprToBindingElement converts an expression to a binding element.
+func (p *Parser) convertExprToBindingElement(n ast.Node) ast.BindingElement {
+	if t, ok := n.(ast.AssignmentExpression); ok && t.Operator == ast.AssignmentOp {
+		return ast.BindingElement{Value: p.convertExprToBindingPattern(t.Left), Init: t.Right}
+	}
+	return ast.BindingElement{Value: p.convertExprToBindingPattern(n)}
+}
 
-		case ast.ObjectExpression:
-			pat := ast.ObjectBindingPattern{}
-			for _, prop := range t.Properties {
-				if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
-					pat.RestElement = rest.Identifier
-					break
-				}
-				binding := ast.BindingProperty{}
+// convertExprToBindingPattern converts an expression to a binding pattern.
+func (p *Parser) convertExprToBindingPattern(n ast.Node) ast.BindingPattern {
+	switch t := n.(type) {
+	case ast.Identifier:
+		return ast.BindingPattern{Identifier: t.Name}
 
-				if key, ok := prop.Key.(ast.Identifier); ok {
-					binding.PropertyName = key.Name
-				}
-				switch key := prop.Value.(type) {
-				case ast.Identifier:
-					binding.Value.Identifier = key.Name
-
-				case ast.AssignmentExpression:
-					left, ok := key.Left.(ast.Identifier)
-					if !ok {
-						p.s.SyntaxError("expected identifier in argument list")
-					}
-					binding.Value.Identifier = left.Name
-					binding.Init = key.Right
+	case ast.ArrayExpression:
+		pat := ast.ArrayBindingPattern{}
+		for _, e := range t.Elements {
+			switch e := e.(type) {
+			case nil:
+				pat.Elements = append(pat.Elements, ast.BindingElement{})
 
-				case nil:
-					break
+			case ast.TemporalArrayRestElement:
+				pat.RestElement = e.BindingPattern
 
-				default:
-					p.s.SyntaxError(fmt.Sprintf("unexpected production in object destructuring: %T", key))
-				}
-				if prop.DestructureInit != nil {
-					binding.Init = prop.DestructureInit
-				}
-				pat.Properties = append(pat.Properties, binding)
+			default:
+				pat.Elements = append(pat.Elements, p.convertExprToBindingElement(e))
 			}
-			params.Parameters = append(params.Parameters, ast.BindingElement{Value: ast.BindingPattern{ObjectPattern: &pat}})
-			return
-
-		case ast.TemporalFloatingRestElement:
-			params.RestParameter = t.Identifier
-			return
-
-		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
 		}
-	}
-
-	switch t := inner.(type) {
-	case ast.TemporalEmptyArrowHead:
-		break
+		return ast.BindingPattern{ArrayPattern: &pat}
 
-	case ast.SequenceExpression:
-		for _, e := range t.Expressions {
-			convarg(e, &params)
+	case ast.ObjectExpression:
+		pat := ast.ObjectBindingPattern{}
+		for _, prop := range t.Properties {
+			if rest, ok := prop.Key.(ast.TemporalObjectRestElement); ok {
+				pat.RestElement = rest.Identifier
+				continue
+			}
+			key, ok := prop.Key.(ast.Identifier)
+			if !ok || prop.Computed {
+				p.unsupported("property name in binding pattern")
+			}
+			binding := ast.BindingProperty{PropertyName: key.Name, Init: prop.DestructureInit}
+			if prop.Value != nil {
+				elem := p.convertExprToBindingElement(prop.Value)
+				binding.Value, binding.Init = elem.Value, elem.Init
+			}
+			pat.Properties = append(pat.Properties, binding)
 		}
-
-	default:
-		convarg(t, &params)
+		return ast.BindingPattern{ObjectPattern: &pat}
 	}
 
-	return params
+	p.s.SyntaxError(fmt.Sprintf("unexpected production %T in arrow function parameter list", n))
+	return ast.BindingPattern{}
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
@@ -921,7 +887,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
-			switch p.s.PeekAt(0).Type {
+			switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 			case lexer.TokenPunctuatorCloseBracket:
 				p.s.SyntaxError("expected expression, got ']'")
 			case lexer.TokenPunctuatorOpenBracket:
@@ -974,7 +940,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 	parseRest := func() ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
-		switch p.s.PeekAt(0).Type {
+		switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
 		case lexer.TokenIdentifier:
-- 
2.43.0


From af6580ab870e3c5d84bc2d68d7bccd313946d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 34/77] fix: parser: functions have a context of their own

---
 ecmascript/parser/context.go     | 11 +++++++++++
 ecmascript/parser/declaration.go |  4 ++++
 ecmascript/parser/expression.go  | 29 ++++++++++++++++-------------
 ecmascript/parser/statement.go   |  4 ++++
 4 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 51d3cd6..3350ac7 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -7,6 +7,17 @@ type parseContext struct {
 	strictMode bool
 	async      bool
 	generator  bool
+	function   bool
+}
+
+// enterFunction switches to the context of a function and returns the context
+// to go back to afterwards.
+func (p *Parser) enterFunction(async, generator bool) parseContext {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = generator
+	p.ctx.function = true
+	return ctx
 }
 
 // keywordToIdentifier converts a keyword to an identifier, if permissible in
diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..4d75817 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -24,8 +24,10 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
+	ctx := p.enterFunction(false, false)
 	params := p.parseParametersTail()
 	body := p.parseBlock()
+	p.ctx = ctx
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -126,10 +128,12 @@ func (p *Parser) parseClassBody() []ast.Node {
 			p.s.SyntaxError("expected method definition")
 		}
 
+		ctx := p.enterFunction(false, false)
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
 		fn.Body = p.parseBlock()
 		fn.SetEnd(p.s.Location())
+		p.ctx = ctx
 		m.Value = fn
 
 		n = append(n, m)
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index ca221a8..661d721 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -132,12 +132,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if order > exprOrderAssign {
 			p.s.SyntaxError("arrow function can not be an operand")
 		}
+		ctx := p.enterFunction(async, false)
 		m := ast.FunctionExpression{
 			Params: params,
 			Body:   p.parseBlockOrShorthand(flags & exprFlagDisallowIn),
 			Arrow:  true,
 			Async:  async,
 		}
+		p.ctx = ctx
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		closed = true
@@ -1061,10 +1063,12 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		switch {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
+			ctx := p.enterFunction(false, false)
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
 			fn.Body = p.parseBlock()
 			fn.SetEnd(p.s.Location())
+			p.ctx = ctx
 			prop.Value = fn
 
 		case peek.Type == lexer.TokenPunctuatorColon:
@@ -1082,9 +1086,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-			ctx := p.ctx
-			p.ctx.async = async
-			p.ctx.generator = generator
+			ctx := p.enterFunction(async, generator)
 
 			fn := ast.FunctionExpression{
 				Async:     async,
@@ -1133,29 +1135,30 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
-	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
-	name := ""
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
-
+	t := p.s.Scan()
 	generator := false
 	if t.Type == lexer.TokenPunctuatorMult {
 		generator = true
 		t = p.s.Scan()
 	}
 
+	ctx := p.enterFunction(async, generator)
+
+	t = p.ctx.keywordToIdentifier(t, false)
+	name := ""
+	if t.Type == lexer.TokenIdentifier {
+		name = t.Literal
+		t = p.s.Scan()
+	}
+
 	if t.Type != lexer.TokenPunctuatorOpenParen {
 		p.s.SyntaxError("expected parameter list following function expression head")
 	}
 
 	params := p.parseParametersTail()
 
-	wasgen := p.ctx.generator
-	p.ctx.generator = true
 	body := p.parseBlock()
-	p.ctx.generator = wasgen
+	p.ctx = ctx
 
 	m := ast.FunctionExpression{
 		ID:        name,
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 8743025..f135a6c 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -559,6 +559,10 @@ func (p *Parser) parseReturnStatement() ast.Node {
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
+	if !p.ctx.function {
+		p.s.SyntaxError("return outside of function")
+	}
+
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
 	t := p.s.PeekAt(0)
 	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
-- 
2.43.0


From 15804ec9396d73ac9516a7a78ee5419ef61f08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 35/77] fix: parser: async functions and calls to async

---
 ecmascript/parser/context.go    |  2 +-
 ecmascript/parser/expression.go | 38 ++++++++++++++++++++++++---------
 ecmascript/parser/statement.go  |  3 +++
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 3350ac7..b446171 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -49,5 +49,5 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		}
 	}
 
-	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal}
+	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal, NewLine: token.NewLine}
 }
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 661d721..eebdd24 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -183,23 +183,23 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenIdentifier:
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
-			ident := p.ctx.keywordToIdentifier(peek, true)
-			if peek.Type == lexer.TokenKeywordFunction {
+			ident := p.ctx.keywordToIdentifier(peek, false)
+			if peek.Type == lexer.TokenKeywordFunction && !peek.NewLine {
 				// Async function expression
 				p.s.Scan()
-				n = p.parseFunctionExpressionTail(s, false)
-			} else if ident.Type == lexer.TokenIdentifier {
+				n = p.parseFunctionExpressionTail(s, true)
+			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine && p.s.PeekAt(1).Type == lexer.TokenPunctuatorFatArrow {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				n = arrow(ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}}, true)
-			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
+			} else if peek.Type == lexer.TokenPunctuatorOpenParen && order < exprOrderMemberExpr {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
 				p.s.Scan()
 				inner := p.parseExpression(exprOrderComma, exprFlagMaybeArrow|exprFlagArrowHead)
 				p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` operator")
-				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
+				if p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow && !peek.NewLine {
 					// This was an arrow function after all. Fix up the parenthesized
 					// expression to be a parameter list.
 					n = arrow(p.convertExprToArrowParams(inner), true)
@@ -865,11 +865,29 @@ func (p *Parser) convertExprToBindingPattern(n ast.Node) ast.BindingPattern {
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-	if args, ok := inner.(ast.SequenceExpression); ok {
-		return args.Expressions
-	} else {
-		return []ast.Node{inner}
+	exprs := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		exprs = seq.Expressions
+	}
+
+	args := []ast.Node{}
+	for _, e := range exprs {
+		switch t := e.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// No arguments, or a trailing comma.
+			break
+
+		case ast.TemporalFloatingRestElement:
+			args = append(args, ast.SpreadElement{Argument: ast.Identifier{Name: t.Identifier}})
+
+		default:
+			if t.ContainsTemporalNodes() {
+				p.s.SyntaxError("unexpected pattern in expression")
+			}
+			args = append(args, t)
+		}
 	}
+	return args
 }
 
 // Parses an array assuming a `[` was already consumed.
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index f135a6c..6cd6a24 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -442,6 +442,9 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 
 		case lexer.TokenKeywordOf:
+			if id, ok := v.(ast.Identifier); ok && id.Name == "async" {
+				p.s.SyntaxError("`async` can not be the target of a for-of statement")
+			}
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-- 
2.43.0


From 1f2348eef992547d296055d446f5639b3ef837d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 36/77] fix: parser: directive prologues only apply to their
 own function

---
 ecmascript/parser/declaration.go |  4 +--
 ecmascript/parser/expression.go  |  6 ++--
 ecmascript/parser/module.go      |  7 +++-
 ecmascript/parser/script.go      |  7 +++-
 ecmascript/parser/statement.go   | 61 +++++++++++++++++++-------------
 5 files changed, 53 insertions(+), 32 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 4d75817..06957dc 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -26,7 +26,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
 	ctx := p.enterFunction(false, false)
 	params := p.parseParametersTail()
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	p.ctx = ctx
 	n := ast.FunctionDeclaration{
 		ID:     name,
@@ -131,7 +131,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		ctx := p.enterFunction(false, false)
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
-		fn.Body = p.parseBlock()
+		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		p.ctx = ctx
 		m.Value = fn
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index eebdd24..811881d 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1084,7 +1084,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			ctx := p.enterFunction(false, false)
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			p.ctx = ctx
 			prop.Value = fn
@@ -1113,7 +1113,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			fn.SetStart(p.s.Location())
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
@@ -1175,7 +1175,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 	params := p.parseParametersTail()
 
-	body := p.parseBlock()
+	body := p.parseFunctionBody()
 	p.ctx = ctx
 
 	m := ast.FunctionExpression{
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 347eed1..14212ff 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -15,11 +15,16 @@ func (p *Parser) parseModule() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseModuleItem())
+		item := p.parseModuleItem()
+		if prologue {
+			item, prologue = p.parseDirective(item)
+		}
+		m.Body = append(m.Body, item)
 	}
 
 	return m
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index a776ba6..3673349 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -10,11 +10,16 @@ func (p *Parser) parseScript() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		m.Body = append(m.Body, stmt)
 	}
 
 	return m
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 6cd6a24..3443373 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -109,53 +109,64 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 
 func (p *Parser) parseBlockOrShorthand(flags exprFlags) ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseBlock()
+		return p.parseFunctionBody()
 	} else {
 		return p.parseExpression(exprOrderAssign, flags)
 	}
 }
 
+// parseFunctionBody parses the body of a function. The caller has to restore
+// the context.
+func (p *Parser) parseFunctionBody() ast.BlockStatement {
+	return p.parseBlockWithPrologue(true)
+}
+
 func (p *Parser) parseBlock() ast.BlockStatement {
+	return p.parseBlockWithPrologue(false)
+}
+
+// parseBlockWithPrologue parses a block. If prologue is true, the block may
+// start with directives.
+func (p *Parser) parseBlockWithPrologue(prologue bool) ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
-	// Early exit for empty block.
-	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
-		p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
-		return n
-	}
-
-	ctx := p.ctx
-
-	// Parse first statement so we can parse directives out of it.
-	stmt := p.parseStatementItem()
-	if expr, ok := stmt.(ast.ExpressionStatement); ok {
-		if str, ok := expr.Expression.(ast.StringLiteral); ok {
-			if str.Value == "use strict" {
-				ctx.strictMode = true
-				expr.Directive = "use strict"
-			}
-		}
-		stmt = expr
-	}
-	n.Body = append(n.Body, stmt)
-
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
 			break
 		}
-		n.Body = append(n.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		n.Body = append(n.Body, stmt)
 	}
 
-	p.ctx = ctx
-
 	return n
 }
 
+// parseDirective handles a statement at the start of a script, module or
+// function. If the statement is a directive, it is marked as such and applied.
+func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
+	expr, ok := stmt.(ast.ExpressionStatement)
+	if !ok {
+		return stmt, false
+	}
+	str, ok := expr.Expression.(ast.StringLiteral)
+	if !ok {
+		return stmt, false
+	}
+	expr.Directive = str.Raw[1 : len(str.Raw)-1]
+	if expr.Directive == "use strict" {
+		p.ctx.strictMode = true
+	}
+	return expr, true
+}
+
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	n := p.parseVariableStatementNoSemicolon()
 	p.expectSemicolon()
-- 
2.43.0


From ad8f4a65b46e30a85f08e10e7bee47aee2192ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 37/77] fix: parser: reject invalid shorthands and accessors in
 object literals

---
 ecmascript/parser/expression.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 811881d..0b10dc1 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1009,6 +1009,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				prop.Kind = ast.SetProperty
 
 			case lexer.TokenKeywordAsync:
+				if p.s.PeekAt(0).NewLine {
+					p.s.SyntaxError("illegal newline after `async`")
+				}
 				async = true
 
 				// Async generator (async *)
@@ -1043,6 +1046,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		}
 
 		// Next, handle identifier...
+		shorthand := p.ctx.keywordToIdentifier(t, false).Type == lexer.TokenIdentifier
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
@@ -1087,6 +1091,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			fn.Body = p.parseFunctionBody()
 			fn.SetEnd(p.s.Location())
 			p.ctx = ctx
+			p.checkAccessor(prop.Kind == ast.GetProperty, fn.Params)
 			prop.Value = fn
 
 		case peek.Type == lexer.TokenPunctuatorColon:
@@ -1099,6 +1104,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			prop.Value = p.parseExpression(exprOrderAssign, flags)
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
+			if !shorthand || async || generator {
+				p.s.SyntaxError("initializer not allowed for this property")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
@@ -1124,9 +1132,10 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
-			// disallow this from happening with a computed property.
-			if prop.Computed {
-				p.s.SyntaxError("shorthand not allowed for computed property")
+			// disallow this from happening with anything that is not also an
+			// identifier, like a computed property.
+			if !shorthand {
+				p.s.SyntaxError("shorthand not allowed for this property")
 			}
 
 			// We also should not allow this when async/generator is specified.
@@ -1151,6 +1160,17 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 	}
 }
 
+// checkAccessor checks the parameters of a getter or setter.
+func (p *Parser) checkAccessor(getter bool, params ast.FormalParameters) {
+	max := 1
+	if getter {
+		max = 0
+	}
+	if len(params.Parameters) > max || params.RestParameter != "" {
+		p.s.SyntaxError("wrong number of parameters for getter or setter")
+	}
+}
+
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
 	t := p.s.Scan()
-- 
2.43.0


From 0fd451f2591c9a823fdd38eecea10b2505dcb31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 38/77] fix: parser: class names, heritage and members

---
 ecmascript/ast/declaration.go    |  8 +--
 ecmascript/parser/declaration.go | 88 ++++++++++++++++++++++++--------
 ecmascript/parser/expression.go  | 11 ++--
 3 files changed, 77 insertions(+), 30 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 086fc8f..4e8cb50 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -96,13 +96,15 @@ const (
 	Method MethodKind = iota
 	GetMethod
 	SetMethod
+	ConstructorMethod
 )
 
 // estreeMethodKindMap maps MethodKind values to their corresponding ESTree strings.
 var estreeMethodKindMap = map[MethodKind]string{
-	Method:    "method",
-	GetMethod: "get",
-	SetMethod: "set",
+	Method:            "method",
+	GetMethod:         "get",
+	SetMethod:         "set",
+	ConstructorMethod: "constructor",
 }
 
 // MethodDefinition represents a method in a class body.
diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 06957dc..f5c9f26 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -69,71 +69,115 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
+	// All parts of a class are strict.
+	ctx := p.ctx
+	p.ctx.strictMode = true
 	n.ID = p.scanIdent("expected class name")
-
-	if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
-		p.s.Scan()
-		n.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
-	}
-
+	n.SuperClass = p.parseClassHeritage()
 	n.Body = p.parseClassBody()
+	p.ctx = ctx
 	return n
 }
 
+func (p *Parser) parseClassHeritage() ast.Node {
+	if p.s.PeekAt(0).Type != lexer.TokenKeywordExtends {
+		return nil
+	}
+	p.s.Scan()
+	return p.parseExpression(exprOrderLHSExpr, 0)
+}
+
 func (p *Parser) parseClassBody() []ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected '{'")
 
 	n := []ast.Node{}
 
 	for {
-		peek := p.s.PeekAt(0)
-		if peek.Type == lexer.TokenPunctuatorCloseBrace {
-			p.s.Scan()
+		t := p.s.Scan()
+		if t.Type == lexer.TokenPunctuatorCloseBrace {
 			break
 		}
+		if t.Type == lexer.TokenPunctuatorSemicolon {
+			continue
+		}
 
 		// TODO: implement member variables...
 		m := ast.MethodDefinition{}
 
+		// Specifiers are method names when followed by the parameters.
+		specifier := func(typ lexer.TokenType) bool {
+			return t.Type == typ && p.s.PeekAt(0).Type != lexer.TokenPunctuatorOpenParen
+		}
+
 		// Static specifier
-		if peek.Type == lexer.TokenKeywordStatic {
-			p.s.Scan()
-			peek = p.s.PeekAt(0)
+		if specifier(lexer.TokenKeywordStatic) {
+			t = p.s.Scan()
 			m.Static = true
 		}
 
-		// Get/set specifier
-		switch peek.Type {
-		case lexer.TokenKeywordGet:
-			p.s.Scan()
+		// Get/set/async/generator specifier
+		async, generator := false, false
+		switch {
+		case specifier(lexer.TokenKeywordGet):
+			t = p.s.Scan()
 			m.Kind = ast.GetMethod
 
-		case lexer.TokenKeywordSet:
-			p.s.Scan()
+		case specifier(lexer.TokenKeywordSet):
+			t = p.s.Scan()
 			m.Kind = ast.SetMethod
+
+		default:
+			if specifier(lexer.TokenKeywordAsync) && !p.s.PeekAt(0).NewLine {
+				t = p.s.Scan()
+				async = true
+			}
+			if t.Type == lexer.TokenPunctuatorMult {
+				t = p.s.Scan()
+				generator = true
+			}
 		}
 
 		// Identifier (possibly computed)
-		t := p.s.Scan()
+		name := ""
+		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			m.Key = ast.Identifier{Name: t.Literal}
+			name = t.Literal
+
+		case lexer.TokenLiteralString:
+			str := p.stringLiteral(t)
+			m.Key = str
+			name = str.Value
+
+		case lexer.TokenLiteralNumber:
+			m.Key = p.numberLiteral(t)
 
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
-			m.Key = p.parseExpression(exprOrderComma, 0)
+			m.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
 			p.s.SyntaxError("expected method definition")
 		}
 
-		ctx := p.enterFunction(false, false)
-		fn := ast.FunctionExpression{}
+		if name == "constructor" && !m.Static {
+			if m.Kind != ast.Method || async || generator {
+				p.s.SyntaxError("constructor has to be a plain method")
+			}
+			m.Kind = ast.ConstructorMethod
+		}
+
+		ctx := p.enterFunction(async, generator)
+		fn := ast.FunctionExpression{Async: async, Generator: generator}
 		fn.Params = p.parseParameters()
 		fn.Body = p.parseFunctionBody()
 		fn.SetEnd(p.s.Location())
 		p.ctx = ctx
+		if m.Kind == ast.GetMethod || m.Kind == ast.SetMethod {
+			p.checkAccessor(m.Kind == ast.GetMethod, fn.Params)
+		}
 		m.Value = fn
 
 		n = append(n, m)
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 0b10dc1..b64c591 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -246,14 +246,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		n = m
 	case lexer.TokenKeywordClass:
 		m := ast.ClassExpression{}
-		if p.s.PeekAt(0).Type == lexer.TokenIdentifier {
+		// All parts of a class are strict.
+		ctx := p.ctx
+		p.ctx.strictMode = true
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
 			m.ID = p.scanIdent("expected class name")
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
-			p.s.Scan()
-			m.SuperClass = p.parseExpression(exprOrderMemberExpr, 0)
-		}
+		m.SuperClass = p.parseClassHeritage()
 		m.Body = p.parseClassBody()
+		p.ctx = ctx
 		n = m
 	case lexer.TokenLiteralRegExp:
 		m := ast.RegExpLiteral{
-- 
2.43.0


From 7b5f4ea8f8271003fcfa2bb5e24165cb7ff866a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 39/77] fix: ast: classes have a superClass and always a body
 in ESTree

---
 ecmascript/ast/declaration.go | 3 ++-
 ecmascript/ast/expressions.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 4e8cb50..bbf0a88 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -71,7 +71,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -83,6 +83,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 6bba71e..dc8b667 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -479,7 +479,7 @@ func (n ClassExpression) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
@@ -491,6 +491,7 @@ func (n ClassExpression) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
-- 
2.43.0


From 97d9b19cc898caa41297577e2d8aaa4ee74ff3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 40/77] fix: parser: the body of a statement can not be missing

---
 ecmascript/parser/statement.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3443373..6eca14f 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -98,6 +98,15 @@ func (p *Parser) parseStatement() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses a statement that is the body of another statement.
+func (p *Parser) parseSubStatement() ast.Node {
+	n := p.parseStatement()
+	if n == nil {
+		p.s.SyntaxError("expected statement")
+	}
+	return n
+}
+
 func (p *Parser) parseExpressionStatement() ast.Node {
 	expr := p.parseExpression(exprOrderComma, 0)
 	n := ast.ExpressionStatement{Expression: expr}
@@ -373,10 +382,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -387,7 +396,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -405,7 +414,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -448,7 +457,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -463,7 +472,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -478,7 +487,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -662,6 +671,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From dc459d840c04aab71644ea5530c0913184218a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 41/77] fix: parser: switch cases contain declarations, stop at
 unexpected tokens and have one default

---
 ecmascript/parser/statement.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 6eca14f..4471e17 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -516,13 +516,18 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
 
 		case lexer.TokenKeywordDefault:
 			c := ast.SwitchCase{}
+			for _, o := range n.Cases {
+				if o.Test == nil {
+					p.s.SyntaxError("more than one `default` in switch statement")
+				}
+			}
 			p.s.ScanExpect(lexer.TokenKeywordDefault, "expected `default`")
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
 		defaultStatements:
@@ -531,7 +536,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -539,6 +544,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}`")
 		}
 	}
 }
-- 
2.43.0


From 2a46f2eb61d8daa4357432ae5c2ba377234a4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 42/77] fix: parser: try statements need a handler or finalizer
 and a valid parameter

---
 ecmascript/parser/statement.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 4471e17..2b11949 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -650,6 +650,9 @@ func (p *Parser) parseTryStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
 		n.Finalizer = p.parseBlock()
 	}
+	if n.Handler == nil && n.Finalizer == nil {
+		p.s.SyntaxError("expected `catch` or `finally` after `try` block")
+	}
 	return n
 }
 
@@ -663,6 +666,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch parameter: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From 867bc4649657acebb00c0e2973379d938d694963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 43/77] fix: parser: semicolons after do/while are optional, in
 for headers mandatory

---
 ecmascript/parser/statement.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 2b11949..eced501 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -401,7 +401,10 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	p.expectSemicolon()
+	// The semicolon is always optional here.
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
+		p.expectSemicolon()
+	}
 	return n
 }
 
@@ -431,7 +434,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	// TODO: let, const, more of/in cases, etc.
 	if t.Type == lexer.TokenPunctuatorSemicolon {
 		n.Init = nil
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
@@ -477,12 +480,12 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 		}
 		n.Init = v
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	}
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorSemicolon {
 		n.Test = p.parseExpression(exprOrderComma, 0)
 	}
-	p.expectSemicolon()
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
-- 
2.43.0


From 605eafd38fe16204eed9c51663da4c1a27d89f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 44/77] fix: parser: initializers of variable declarations

---
 ecmascript/parser/declaration.go |  5 +++--
 ecmascript/parser/statement.go   | 38 ++++++++++++++++++++++++--------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index f5c9f26..ebf25f1 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -40,6 +40,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 
 func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 	n := p.parseLexicalDeclarationNoSemicolon()
+	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
@@ -52,10 +53,10 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.LetDeclaration
 	case lexer.TokenKeywordConst:
-		n.Declarations = p.parseVariableDeclarations()
+		n.Declarations = p.parseVariableDeclarations(0)
 		n.Kind = ast.ConstDeclaration
 	default:
 		p.s.SyntaxError("expected lexical declaration")
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index eced501..9518084 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -177,26 +177,37 @@ func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
 }
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
-	n := p.parseVariableStatementNoSemicolon()
+	n := p.parseVariableStatementNoSemicolon(0)
+	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
 }
 
-func (p *Parser) parseVariableStatementNoSemicolon() ast.VariableDeclaration {
+func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
-	n.Declarations = p.parseVariableDeclarations()
+	n.Declarations = p.parseVariableDeclarations(flags)
 	return n
 }
 
-func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
+// checkInitializers checks that initializers are present where they have to
+// be.
+func (p *Parser) checkInitializers(n ast.VariableDeclaration) {
+	for _, v := range n.Declarations {
+		if v.Init == nil && (n.Kind == ast.ConstDeclaration || v.ID.Identifier == "") {
+			p.s.SyntaxError("missing initializer in declaration")
+		}
+	}
+}
+
+func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclarator {
 	v := []ast.VariableDeclarator{}
 	for {
-		v = append(v, p.parseVariableDeclaration())
+		v = append(v, p.parseVariableDeclaration(flags))
 		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorComma {
 			break
 		}
@@ -205,7 +216,7 @@ func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
 	return v
 }
 
-func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
+func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarator {
 	v := ast.VariableDeclarator{}
 
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
@@ -222,7 +233,7 @@ func (p *Parser) parseVariableDeclaration() ast.VariableDeclarator {
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
 		p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=`")
-		v.Init = p.parseExpression(exprOrderAssign, 0)
+		v.Init = p.parseExpression(exprOrderAssign, flags)
 	}
 
 	return v
@@ -438,7 +449,16 @@ func (p *Parser) parseForStatement() ast.Node {
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
-			v = p.parseVariableStatementNoSemicolon()
+			decl := p.parseVariableStatementNoSemicolon(exprFlagDisallowIn)
+			switch p.s.PeekAt(0).Type {
+			case lexer.TokenKeywordIn, lexer.TokenKeywordOf:
+				if len(decl.Declarations) != 1 || decl.Declarations[0].Init != nil {
+					p.s.SyntaxError("expected a single variable without initializer")
+				}
+			default:
+				p.checkInitializers(decl)
+			}
+			v = decl
 		} else {
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn|exprFlagMaybeArrow)
 			switch p.s.PeekAt(0).Type {
@@ -471,7 +491,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-				Right: p.parseExpression(exprOrderComma, 0),
+				Right: p.parseExpression(exprOrderAssign, 0),
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From f4c44e7bf69226cf0e3b115e2432e0ce8c3e742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 45/77] fix: parser: async and let as labels and operands

---
 ecmascript/parser/statement.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 9518084..3fb8a21 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -57,11 +57,15 @@ func (p *Parser) parseStatement() ast.Node {
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
 				// Object destructuring let (let {)
 				return nil
-			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), true).Type == lexer.TokenIdentifier {
+			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type == lexer.TokenIdentifier {
 				// Let with identifier (let ident)
 				return nil
 			}
 		}
+		// `async` and `let` can be labels, too.
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier && p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
+			return p.parseLabelledStatement()
+		}
 		return p.parseExpressionStatement()
 	case lexer.TokenKeywordDo:
 		return p.parseDoWhileStatement()
-- 
2.43.0


From 92a16f20ec4869b46e6e41b9326bec64284374d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 46/77] fix: parser: separators and keywords in import lists

---
 ecmascript/parser/module.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 14212ff..138009e 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -92,8 +92,12 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			if t.Type == lexer.TokenPunctuatorCloseBrace {
 				break importList
 			}
-			item := ast.NamedImport{
-				Identifier: p.expectIdent(t, "expected import specifier in import list"),
+			item := ast.NamedImport{}
+			if p.s.PeekAt(0).Type == lexer.TokenKeywordAs {
+				// Only the binding has to be a valid identifier.
+				item.Identifier = p.forceIdent(t, "expected import specifier in import list")
+			} else {
+				item.Identifier = p.expectIdent(t, "expected import specifier in import list")
 			}
 			t = p.s.Scan()
 			switch t.Type {
@@ -111,7 +115,11 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 					break importList
 				case lexer.TokenPunctuatorComma:
 					n.NamedImports = append(n.NamedImports, item)
+				default:
+					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))
 				}
+			default:
+				p.s.SyntaxError(fmt.Sprintf("expected `as`, `,` or `}` in import list, got %q", t.Source()))
 			}
 		}
 
-- 
2.43.0


From 9bc7ef4521d4aa593f110b4896daf98e46f1e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 47/77] fix: ast: ESTree for import declarations

---
 ecmascript/ast/module.go | 44 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..c7237c3 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -55,7 +55,49 @@ type ImportDeclNode struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	type specifier struct {
+		Type     string      `json:"type"`
+		Imported interface{} `json:"imported,omitempty"`
+		Local    interface{} `json:"local"`
+	}
+	type source struct {
+		Type  string `json:"type"`
+		Value string `json:"value"`
+	}
+
+	e := struct {
+		Type       string      `json:"type"`
+		Specifiers []specifier `json:"specifiers"`
+		Source     source      `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []specifier{},
+		Source:     source{Type: "Literal", Value: n.Module},
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, specifier{
+			Type:  "ImportDefaultSpecifier",
+			Local: estreeIdent(n.DefaultBinding.Identifier),
+		})
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, specifier{
+			Type:  "ImportNamespaceSpecifier",
+			Local: estreeIdent(n.NameSpace.Identifier),
+		})
+	}
+	for _, i := range n.NamedImports {
+		local := i.AsBinding
+		if local == "" {
+			local = i.Identifier
+		}
+		e.Specifiers = append(e.Specifiers, specifier{
+			Type:     "ImportSpecifier",
+			Imported: estreeIdent(i.Identifier),
+			Local:    estreeIdent(local),
+		})
+	}
+	return e
 }
 
 // ImportDefaultBinding contains the default import identifier.
-- 
2.43.0


From f5fdef1d829a37c1ea81fcfbc7cd1ff22cb47952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 48/77] fix: parser: reject tokens after the expression in
 expression mode

---
 ecmascript/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 5942766..22db119 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -60,7 +60,9 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	case ModuleMode:
 		return p.parseModule(), nil
 	case ExpressionMode:
-		return p.parseExpression(exprOrderComma, 0), nil
+		n := p.parseExpression(exprOrderComma, 0)
+		p.s.ScanExpect(lexer.TokenNone, "expected end of expression")
+		return n, nil
 	default:
 		panic(fmt.Errorf("unexpected parse mode %d", opt.Mode))
 	}
-- 
2.43.0


From 108f7732a3276c5a3acf774847f93829fda1c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 49/77] fix: parser: locations of errors after looking ahead

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/scanner.go    | 2 +-
 ecmascript/parser/statement.go  | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b64c591..efef662 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1274,7 +1274,7 @@ func (p *Parser) parseParametersTail() ast.FormalParameters {
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", t.Source()))
 		}
 
 		// Default syntax
diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..2d13d46 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 3fb8a21..ff16197 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -232,7 +232,7 @@ func (p *Parser) parseVariableDeclaration(flags exprFlags) ast.VariableDeclarato
 	case lexer.TokenPunctuatorOpenBrace:
 		v.ID.ObjectPattern = p.parseObjectBindingPattern()
 	default:
-		p.s.SyntaxError(fmt.Sprintf("unexpected token in variable declaration: %s", p.s.Scan().Source()))
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in variable declaration: %s", t.Source()))
 	}
 
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorAssign {
@@ -281,13 +281,13 @@ func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
 			case lexer.TokenPunctuatorOpenBrace:
 				n.RestElement.ObjectPattern = p.parseObjectBindingPattern()
 			default:
-				p.s.SyntaxError(fmt.Sprintf("unexpected token in rest pattern: %s", p.s.Scan().Source()))
+				p.s.SyntaxError(fmt.Sprintf("unexpected token in rest pattern: %s", t.Source()))
 			}
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected closing braket")
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", t.Source()))
 		}
 
 		// Default syntax
@@ -353,7 +353,7 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 				b.Value.ObjectPattern = p.parseObjectBindingPatternTail()
 
 			default:
-				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", p.s.Scan().Source()))
+				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", t.Source()))
 			}
 		}
 
-- 
2.43.0


From fa7efbe972dbfc27c0465932e454db69bb3d55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 50/77] fix: parser: reserved words as property names in
 binding patterns

---
 ecmascript/parser/statement.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index ff16197..f98df2d 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -321,7 +321,9 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-		t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
+		t := p.s.Scan()
+		// Any keyword can be a property name, unless it is the binding, too.
+		t = p.ctx.keywordToIdentifier(t, p.s.PeekAt(0).Type == lexer.TokenPunctuatorColon)
 		switch t.Type {
 		case lexer.TokenIdentifier:
 			b.PropertyName = t.Literal
-- 
2.43.0


From a9fe2977bffce369bf6621a69a12015e9e088265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 51/77] fix: ast: defaults of binding properties, expression
 bodies, empty programs and infinity in ESTree

---
 ecmascript/ast/expressions.go         |  6 +++++-
 ecmascript/ast/expressions_literal.go | 15 +++++++++++----
 ecmascript/ast/module.go              |  1 +
 ecmascript/ast/script.go              |  1 +
 ecmascript/ast/statement.go           |  3 +++
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index dc8b667..2fc65bb 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -116,8 +116,12 @@ type FunctionExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n FunctionExpression) ESTree() interface{} {
 	typ := "FunctionExpression"
+	expression := n.Expression
 	if n.Arrow {
 		typ = "ArrowFunctionExpression"
+		if _, ok := n.Body.(BlockStatement); !ok {
+			expression = true
+		}
 	}
 	return struct {
 		Type       string      `json:"type"`
@@ -133,7 +137,7 @@ func (n FunctionExpression) ESTree() interface{} {
 		Params:     n.Params.ESTree(),
 		Body:       estree(n.Body),
 		Generator:  n.Generator,
-		Expression: n.Expression,
+		Expression: expression,
 		Async:      n.Async,
 	}
 }
diff --git a/ecmascript/ast/expressions_literal.go b/ecmascript/ast/expressions_literal.go
index 4958638..48b332b 100644
--- a/ecmascript/ast/expressions_literal.go
+++ b/ecmascript/ast/expressions_literal.go
@@ -1,5 +1,7 @@
 package ast
 
+import "math"
+
 // NullLiteral is a node containing a null literal.
 //
 // For example:
@@ -108,13 +110,18 @@ type NumberLiteral struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n NumberLiteral) ESTree() interface{} {
+	// JSON has no infinity; this is what JSON.stringify does.
+	var value interface{}
+	if !math.IsInf(n.Value, 0) {
+		value = n.Value
+	}
 	return struct {
-		Type  string  `json:"type"`
-		Value float64 `json:"value"`
-		Raw   string  `json:"raw"`
+		Type  string      `json:"type"`
+		Value interface{} `json:"value"`
+		Raw   string      `json:"raw"`
 	}{
 		Type:  "Literal",
-		Value: n.Value,
+		Value: value,
 		Raw:   n.Raw,
 	}
 }
diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index c7237c3..4e9bf2b 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -14,6 +14,7 @@ func (n ModuleNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "module",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/script.go b/ecmascript/ast/script.go
index b6894ae..9f21331 100644
--- a/ecmascript/ast/script.go
+++ b/ecmascript/ast/script.go
@@ -14,6 +14,7 @@ func (n ScriptNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "script",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index a5e2644..73eb48f 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -239,6 +239,9 @@ func (n BindingProperty) ESTree() interface{} {
 	if v == nil {
 		v, shorthand = k, true
 	}
+	if n.Init != nil {
+		v = estreeAssignmentPattern(v, n.Init)
+	}
 	return struct {
 		Type      string      `json:"type"`
 		Key       interface{} `json:"key"`
-- 
2.43.0


From a2a67724a4d3e2911cb0359bfe1617d7010285d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 52/77] fix: parser: limit nesting instead of overflowing the
 stack

---
 ecmascript/parser/declaration.go |  2 ++
 ecmascript/parser/expression.go  |  2 ++
 ecmascript/parser/parser.go      | 23 +++++++++++++++++++++--
 ecmascript/parser/statement.go   |  6 ++++++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index ebf25f1..15ea20d 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -6,6 +6,8 @@ import (
 )
 
 func (p *Parser) parseDeclaration() ast.Node {
+	defer p.enter()()
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenKeywordFunction:
 		return p.parseFunctionDeclaration()
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index efef662..a0e352c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -58,6 +58,8 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
+	defer p.enter()()
+
 	if flags&exprFlagArrowHead != 0 {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenPunctuatorCloseParen:
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 22db119..5487550 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -29,8 +29,27 @@ type ParseOptions struct {
 
 // Parser parses ECMAScript code according to ECMA262.
 type Parser struct {
-	s   *Scanner
-	ctx parseContext
+	s     *Scanner
+	ctx   parseContext
+	depth int
+}
+
+// maxDepth limits how deep the source may be nested, since running out of
+// stack can not be recovered from.
+const maxDepth = 10000
+
+// enter has to be called by each function that can recurse. It returns the
+// function that needs to be called afterwards; ideal for use with defer.
+func (p *Parser) enter() func() {
+	if p.depth >= maxDepth {
+		p.unsupported("source is nested too deep")
+	}
+	p.depth++
+	return p.leave
+}
+
+func (p *Parser) leave() {
+	p.depth--
 }
 
 // NewParser creates a new parser.
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index f98df2d..793ff5b 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -19,6 +19,8 @@ func (p *Parser) parseStatementItem() ast.Node {
 }
 
 func (p *Parser) parseStatement() ast.Node {
+	defer p.enter()()
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
 		return p.parseBlock()
@@ -249,6 +251,8 @@ func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 }
 
 func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
+	defer p.enter()()
+
 	n := &ast.ArrayBindingPattern{}
 	for {
 		b := ast.BindingElement{}
@@ -318,6 +322,8 @@ func (p *Parser) parseObjectBindingPattern() *ast.ObjectBindingPattern {
 }
 
 func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
+	defer p.enter()()
+
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
-- 
2.43.0


From 0a2ff335a8d9c5c1e7fdfc16c321a149622bc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 53/77] fix: parser: operators are not accessed, called or
 updated; report them where they are

---
 ecmascript/parser/expression.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index a0e352c..4a04268 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -87,6 +87,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// an operand: only a comma may follow.
 	closed := false
 
+	// operation is set when n is the result of an operator, which can not be
+	// accessed, called or updated without parentheses.
+	operation := false
+
 	invalidprimary := func() {
 		p.s.SyntaxError(fmt.Sprintf("unexpected token `%s`, expected primary expression", t.Source()))
 	}
@@ -102,10 +106,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	wrapupdate := func(op ast.UpdateOperator, arg ast.Node) ast.Node {
 		p.checkTarget(arg, false)
+		operation = true
 		return wrap(&ast.UpdateExpression{Operator: op, Argument: arg}, exprOrderUnaryExpr)
 	}
 
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
+		operation = true
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
@@ -156,6 +162,17 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		t = re.Token
 	}
 
+	switch t.Type {
+	case lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement,
+		lexer.TokenKeywordDelete, lexer.TokenKeywordVoid, lexer.TokenKeywordTypeOf,
+		lexer.TokenPunctuatorPlus, lexer.TokenPunctuatorMinus,
+		lexer.TokenPunctuatorBitNot, lexer.TokenPunctuatorNot:
+		if order > exprOrderUnaryExpr {
+			invalidprimary()
+		}
+		operation = true
+	}
+
 	switch t.Type {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
@@ -328,8 +345,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if closed && t.Type != lexer.TokenPunctuatorComma {
 			break
 		}
-		if _, ok := n.(*ast.UpdateExpression); ok {
-			// An update expression is not a LHS expression.
+		if operation {
+			// Not a LHS expression.
 			switch t.Type {
 			case lexer.TokenPunctuatorDot, lexer.TokenPunctuatorOpenBracket,
 				lexer.TokenPunctuatorOpenParen, lexer.TokenPunctuatorOptionalChain,
-- 
2.43.0


From 0d222b81ea8287b4dcbe05abd2a7e28f02827f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 54/77] fix: parser: report a missing initializer of a pattern
 where it is missing

---
 ecmascript/parser/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 793ff5b..e1fb4ce 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -218,6 +218,9 @@ func (p *Parser) parseVariableDeclarations(flags exprFlags) []ast.VariableDeclar
 			break
 		}
 		p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected comma")
+		if d := v[len(v)-1]; d.Init == nil && d.ID.Identifier == "" {
+			p.s.SyntaxError("missing initializer in declaration")
+		}
 	}
 	return v
 }
-- 
2.43.0


From 765d2bd964d70fa45e7d252d79b6db3670766664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 55/77] fix: parser: await is not a parameter of async arrow
 functions

---
 ecmascript/parser/expression.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 4a04268..9018c2b 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -140,6 +140,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if order > exprOrderAssign {
 			p.s.SyntaxError("arrow function can not be an operand")
 		}
+		if async && bindsName(params, "await") {
+			p.s.SyntaxError("`await` can not be a parameter of an async function")
+		}
 		ctx := p.enterFunction(async, false)
 		m := ast.FunctionExpression{
 			Params: params,
@@ -735,6 +738,36 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
+// bindsName returns true if one of the parameters binds the given name.
+func bindsName(params ast.FormalParameters, name string) bool {
+	var binds func(b ast.BindingPattern) bool
+	binds = func(b ast.BindingPattern) bool {
+		if b.ObjectPattern != nil {
+			for _, prop := range b.ObjectPattern.Properties {
+				if prop.Value == (ast.BindingPattern{}) && prop.PropertyName == name || binds(prop.Value) {
+					return true
+				}
+			}
+			return b.ObjectPattern.RestElement == name
+		}
+		if b.ArrayPattern != nil {
+			for _, elem := range b.ArrayPattern.Elements {
+				if binds(elem.Value) {
+					return true
+				}
+			}
+			return binds(b.ArrayPattern.RestElement)
+		}
+		return b.Identifier == name
+	}
+	for _, param := range params.Parameters {
+		if binds(param.Value) {
+			return true
+		}
+	}
+	return params.RestParameter == name
+}
+
 // isBinary returns true if n is an unparenthesized binary expression with the
 // given operator.
 func isBinary(n ast.Node, op ast.BinaryOperator) bool {
-- 
2.43.0


From d08d579d48bd9496bc0e1fb1f96012f28e683ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 56/77] fix: parser: report await as a parameter where it is

---
 ecmascript/parser/expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9018c2b..dcc5a4a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -133,6 +133,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	// Parses the rest of an arrow function, from the `=>`.
 	arrow := func(params ast.FormalParameters, async bool) ast.Node {
+		if async && bindsName(params, "await") {
+			p.s.SyntaxError("`await` can not be a parameter of an async function")
+		}
 		t := p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 		if t.NewLine {
 			p.s.SyntaxError("illegal newline before `=>`")
@@ -140,9 +143,6 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if order > exprOrderAssign {
 			p.s.SyntaxError("arrow function can not be an operand")
 		}
-		if async && bindsName(params, "await") {
-			p.s.SyntaxError("`await` can not be a parameter of an async function")
-		}
 		ctx := p.enterFunction(async, false)
 		m := ast.FunctionExpression{
 			Params: params,
-- 
2.43.0


From fff2ff92d5949b90a40e4343d633c3d8214e3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 57/77] fix: parser: octal escapes are not allowed in module
 specifiers

---
 ecmascript/parser/module.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 138009e..7e0ec8b 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -53,7 +53,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 	switch t.Type {
 	case lexer.TokenLiteralString:
-		n.Module = t.StringConstant()
+		n.Module = p.stringLiteral(t).Value
 		p.expectSemicolon()
 		return n
 
@@ -69,7 +69,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 		case lexer.TokenKeywordFrom:
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
-			n.Module = t.StringConstant()
+			n.Module = p.stringLiteral(t).Value
 			p.expectSemicolon()
 			return n
 
@@ -128,7 +128,8 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	}
 
 	p.s.ScanExpect(lexer.TokenKeywordFrom, "expected `from` clause in import declaration")
-	n.Module = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`").StringConstant()
+	t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
+	n.Module = p.stringLiteral(t).Value
 
 	p.expectSemicolon()
 
-- 
2.43.0


From 764715173fd817cf6ed859466a31c1ce23cbbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:28 +0000
Subject: [PATCH 58/77] fix: report the token that can not start a property
 (C18)

---
 ecmascript/parser/expression.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index dcc5a4a..1ff1759 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1052,8 +1052,8 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		// If we did not start on a computed key, and the last token retrieved
 		// did not put us on a token that ends the property, we can look for
-		// specifiers.
-		if !startedOnComputedKey && !atEndOfPropertyKey() {
+		// specifiers. A token that can not start a property is not looked past.
+		if !startedOnComputedKey && p.startsProperty(t) && !atEndOfPropertyKey() {
 			switch t.Type {
 			case lexer.TokenKeywordGet:
 				prop.Kind = ast.GetProperty
@@ -1213,6 +1213,18 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 	}
 }
 
+// startsProperty returns true if a property of an object literal can start with
+// the token.
+func (p *Parser) startsProperty(t lexer.Token) bool {
+	switch p.ctx.keywordToIdentifier(t, true).Type {
+	case lexer.TokenIdentifier, lexer.TokenLiteralString,
+		lexer.TokenLiteralNumber, lexer.TokenPunctuatorOpenBracket,
+		lexer.TokenPunctuatorMult, lexer.TokenPunctuatorEllipsis:
+		return true
+	}
+	return false
+}
+
 // checkAccessor checks the parameters of a getter or setter.
 func (p *Parser) checkAccessor(getter bool, params ast.FormalParameters) {
 	max := 1
-- 
2.43.0


From f7100e969c79fbb86f997d33283a5a306a08e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:52 +0000
Subject: [PATCH 59/77] fix: report the parameter of an async arrow function
 that is an operand (C18)

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1ff1759..756c800 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -210,7 +210,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async function expression
 				p.s.Scan()
 				n = p.parseFunctionExpressionTail(s, true)
-			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine && p.s.PeekAt(1).Type == lexer.TokenPunctuatorFatArrow {
+			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine && order <= exprOrderAssign && p.s.PeekAt(1).Type == lexer.TokenPunctuatorFatArrow {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				n = arrow(ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}}, true)
-- 
2.43.0


From b5db3b939bc1753bce99b4cec87eb63d10ce24e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 60/77] fix: limit nesting in JavaScript environments (C22)

---
 ecmascript/parser/parser.go | 10 +++++++++-
 web/parser/parser.go        | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 5487550..c052deb 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"runtime"
 
 	"github.com/jchv/cleansheets/ecmascript/ast"
 	"github.com/jchv/cleansheets/ecmascript/errs"
@@ -36,7 +37,14 @@ type Parser struct {
 
 // maxDepth limits how deep the source may be nested, since running out of
 // stack can not be recovered from.
-const maxDepth = 10000
+var maxDepth = 10000
+
+func init() {
+	if runtime.GOOS == "js" {
+		// The stack is the one of the JavaScript engine, which is much smaller.
+		maxDepth = 800
+	}
+}
 
 // enter has to be called by each function that can recurse. It returns the
 // function that needs to be called afterwards; ideal for use with defer.
diff --git a/web/parser/parser.go b/web/parser/parser.go
index 7e5c482..97ef57b 100644
--- a/web/parser/parser.go
+++ b/web/parser/parser.go
@@ -5,6 +5,7 @@ package main
 
 import (
 	"encoding/json"
+	"reflect"
 	"strings"
 	"syscall/js"
 
@@ -12,6 +13,10 @@ import (
 	"github.com/jchv/cleansheets/ecmascript/parser"
 )
 
+// maxTreeDepth limits the depth of the trees that are converted: exhausting the
+// stack of the JavaScript engine leaves the Go runtime in an unusable state.
+const maxTreeDepth = 1500
+
 func main() {
 	c := make(chan struct{}, 0)
 	js.Global().Call("parserLoaded", js.FuncOf(ParseES))
@@ -23,6 +28,9 @@ func ParseES(this js.Value, p []js.Value) interface{} {
 	if err != nil {
 		return map[string]interface{}{"error": err.Error()}
 	}
+	if tooDeep(reflect.ValueOf(n), maxTreeDepth) {
+		return map[string]interface{}{"error": "source is nested too deep"}
+	}
 	w := &strings.Builder{}
 	e := json.NewEncoder(w)
 	e.SetEscapeHTML(false)
@@ -33,3 +41,27 @@ func ParseES(this js.Value, p []js.Value) interface{} {
 	}
 	return map[string]interface{}{"result": w.String()}
 }
+
+// tooDeep returns true if v has structs nested more than depth levels deep.
+func tooDeep(v reflect.Value, depth int) bool {
+	switch v.Kind() {
+	case reflect.Interface, reflect.Ptr:
+		return !v.IsNil() && tooDeep(v.Elem(), depth)
+	case reflect.Slice:
+		for i, n := 0, v.Len(); i < n; i++ {
+			if tooDeep(v.Index(i), depth) {
+				return true
+			}
+		}
+	case reflect.Struct:
+		if depth == 0 {
+			return true
+		}
+		for i, n := 0, v.NumField(); i < n; i++ {
+			if tooDeep(v.Field(i), depth-1) {
+				return true
+			}
+		}
+	}
+	return false
+}
-- 
2.43.0


From 1cfc23ed156997cf77f1a5bdb478f4b8b7ccb87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 61/77] fix: close each file after parsing it (C21)

---
 cmd/estree/main.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index 1f3fe2f..d5f658d 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -31,11 +31,6 @@ func main() {
 		if err != nil {
 			log.Fatalf("Could not open file for reading: %q", filename)
 		}
-		defer func(file *os.File) {
-			if err := file.Close(); err != nil {
-				log.Printf("Warning: Error closing file: %v", err)
-			}
-		}(file)
 		reader := bufio.NewReader(file)
 
 		// Try to calculate a file URL.
@@ -50,6 +45,9 @@ func main() {
 
 		// Parse script.
 		script, err := parser.NewParser(lexer.NewLexer(lexer.NewScanner(reader, url))).Parse(parser.ParseOptions{Mode: parser.ScriptMode})
+		if err := file.Close(); err != nil {
+			log.Printf("Warning: Error closing file: %v", err)
+		}
 		if err != nil {
 			log.Fatalf("Could not parse ECMAscript file %q: %v", filename, err)
 		}
-- 
2.43.0


From 4bb7ebad8852d98c3283a5c426a5057432034e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 62/77] fix: do not throw when the text is edited before the
 parser is loaded

---
 web/parser/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/parser/index.html b/web/parser/index.html
index 56776ab..83a0a63 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -82,7 +82,7 @@
         <script>
         (function() {
             // The Go binary will call parserLoaded to pass us the parser.
-            let parseES = () => {};
+            let parseES = () => ({});
             window["parserLoaded"] = function(parser) {
                 outputEl.value = "[Parser loaded, going to parse soon...]";
 
-- 
2.43.0


From 5b0ff8f3e440468c6b27d7c15da737de7a63aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 63/77] fix: show that the web bundle exited even after a
 successful parse

---
 web/parser/index.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/parser/index.html b/web/parser/index.html
index 83a0a63..b1f6a06 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -171,6 +171,7 @@ console.log("Hello, world.");`;
 
             go.exit = (code) => {
                 errorEl.innerText = `WASM bundle unexpectedly exited! (exit code ${code}) - check console for more details`;
+                errorEl.style.display = "block";
             };
 
             // Polyfill for browsers who can't be assed to support APIs from as
-- 
2.43.0


From 145fd14f0b783f436e8a85f892cc287e61e7aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 64/77] fix: restore shared code that is empty

---
 web/parser/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/parser/index.html b/web/parser/index.html
index b1f6a06..9e65c03 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -159,7 +159,7 @@ console.log("Hello, world.");`;
             window.addEventListener("hashchange", () => {
                 const url = new URL(window.location.href);
                 const code = url.searchParams.get("code");
-                if (code) {
+                if (code !== null) {
                     inputEl.value = code;
                     runParseDebounced();
                 }
-- 
2.43.0


From b492586f3ec4a3e3b66e5b6b1c0a80978f13c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 65/77] fix: a class has at most one constructor

---
 ecmascript/parser/declaration.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 15ea20d..3a7a076 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -94,6 +94,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected '{'")
 
 	n := []ast.Node{}
+	constructor := false
 
 	for {
 		t := p.s.Scan()
@@ -169,6 +170,10 @@ func (p *Parser) parseClassBody() []ast.Node {
 			if m.Kind != ast.Method || async || generator {
 				p.s.SyntaxError("constructor has to be a plain method")
 			}
+			if constructor {
+				p.s.SyntaxError("class has more than one constructor")
+			}
+			constructor = true
 			m.Kind = ast.ConstructorMethod
 		}
 
-- 
2.43.0


From 44d7996277a7dbd509a0c3b0b0622f8741e04c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 66/77] fix: let and const can not declare let

---
 ecmascript/parser/declaration.go |  5 +++++
 ecmascript/parser/expression.go  | 37 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 3a7a076..68d664f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -42,6 +42,11 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 
 func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 	n := p.parseLexicalDeclarationNoSemicolon()
+	for _, v := range n.Declarations {
+		if patternBindsName(v.ID, "let") {
+			p.s.SyntaxError("`let` can not be declared by `let` or `const`")
+		}
+	}
 	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 756c800..591ef34 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -738,30 +738,31 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	return n
 }
 
-// bindsName returns true if one of the parameters binds the given name.
-func bindsName(params ast.FormalParameters, name string) bool {
-	var binds func(b ast.BindingPattern) bool
-	binds = func(b ast.BindingPattern) bool {
-		if b.ObjectPattern != nil {
-			for _, prop := range b.ObjectPattern.Properties {
-				if prop.Value == (ast.BindingPattern{}) && prop.PropertyName == name || binds(prop.Value) {
-					return true
-				}
+// patternBindsName returns true if the pattern binds the given name.
+func patternBindsName(b ast.BindingPattern, name string) bool {
+	if b.ObjectPattern != nil {
+		for _, prop := range b.ObjectPattern.Properties {
+			if prop.Value == (ast.BindingPattern{}) && prop.PropertyName == name || patternBindsName(prop.Value, name) {
+				return true
 			}
-			return b.ObjectPattern.RestElement == name
 		}
-		if b.ArrayPattern != nil {
-			for _, elem := range b.ArrayPattern.Elements {
-				if binds(elem.Value) {
-					return true
-				}
+		return b.ObjectPattern.RestElement == name
+	}
+	if b.ArrayPattern != nil {
+		for _, elem := range b.ArrayPattern.Elements {
+			if patternBindsName(elem.Value, name) {
+				return true
 			}
-			return binds(b.ArrayPattern.RestElement)
 		}
-		return b.Identifier == name
+		return patternBindsName(b.ArrayPattern.RestElement, name)
 	}
+	return b.Identifier == name
+}
+
+// bindsName returns true if one of the parameters binds the given name.
+func bindsName(params ast.FormalParameters, name string) bool {
 	for _, param := range params.Parameters {
-		if binds(param.Value) {
+		if patternBindsName(param.Value, name) {
 			return true
 		}
 	}
-- 
2.43.0


From e96f3e2ade68893ebaf550f86bc442d2b143ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 67/77] fix: do not take let at the start of a for-of head or
 before a bracket as an identifier

---
 ecmascript/parser/statement.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e1fb4ce..06bb80f 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -475,6 +475,9 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			v = decl
 		} else {
+			if t.Type == lexer.TokenKeywordLet && p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBracket {
+				p.unsupported("lexical declaration in for statement")
+			}
 			v = p.parseExpression(exprOrderComma, exprFlagDisallowIn|exprFlagMaybeArrow)
 			switch p.s.PeekAt(0).Type {
 			case lexer.TokenKeywordIn, lexer.TokenKeywordOf:
@@ -503,6 +506,9 @@ func (p *Parser) parseForStatement() ast.Node {
 			if id, ok := v.(ast.Identifier); ok && id.Name == "async" {
 				p.s.SyntaxError("`async` can not be the target of a for-of statement")
 			}
+			if t.Type == lexer.TokenKeywordLet {
+				p.s.SyntaxError("the target of a for-of statement can not start with `let`")
+			}
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-- 
2.43.0


From 4fd11f39b5c71c1ae8b1a8fcf648d9066cefa400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 68/77] fix: identifiers can not be deleted in strict mode

---
 ecmascript/parser/expression.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 591ef34..e947b73 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -185,7 +185,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// TODO: should add order for update operator?
 		n = wrapupdate(ast.UpdatePreDecrementOp, p.parseExpression(exprOrderLHSExpr, flags))
 	case lexer.TokenKeywordDelete:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		arg := p.parseExpression(exprOrderUnaryExpr, flags)
+		if _, ok := arg.(ast.Identifier); ok && p.ctx.strictMode {
+			p.s.SyntaxError("identifiers can not be deleted in strict mode")
+		}
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: arg}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordTypeOf:
-- 
2.43.0


From bf54bcf5ef571269686a66bad06990afc34271d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 69/77] fix: let at the end of a line is an expression where a
 declaration is not allowed

---
 ecmascript/parser/statement.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 06bb80f..031a9c3 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -106,6 +106,16 @@ func (p *Parser) parseStatement() ast.Node {
 
 // parseSubStatement parses a statement that is the body of another statement.
 func (p *Parser) parseSubStatement() ast.Node {
+	// This can not be a declaration, so `let` at the end of a line is an
+	// expression, unless it is followed by `[`.
+	if t := p.s.PeekAt(0); t.Type == lexer.TokenKeywordLet && p.s.PeekAt(1).NewLine &&
+		p.ctx.keywordToIdentifier(t, false).Type == lexer.TokenIdentifier {
+		switch next := p.s.PeekAt(1); {
+		case next.Type == lexer.TokenPunctuatorOpenBrace,
+			p.ctx.keywordToIdentifier(next, false).Type == lexer.TokenIdentifier:
+			return p.parseExpressionStatement()
+		}
+	}
 	n := p.parseStatement()
 	if n == nil {
 		p.s.SyntaxError("expected statement")
-- 
2.43.0


From e03e479e696d5a46de2b6deff49c235a1c1a7e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 70/77] fix: identifiers in parentheses can not be deleted in
 strict mode either

---
 ecmascript/parser/expression.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index e947b73..d67e913 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -186,7 +186,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		n = wrapupdate(ast.UpdatePreDecrementOp, p.parseExpression(exprOrderLHSExpr, flags))
 	case lexer.TokenKeywordDelete:
 		arg := p.parseExpression(exprOrderUnaryExpr, flags)
-		if _, ok := arg.(ast.Identifier); ok && p.ctx.strictMode {
+		inner := arg
+		for {
+			paren, ok := inner.(ast.ParenthesizedExpression)
+			if !ok {
+				break
+			}
+			inner = paren.Expression
+		}
+		if _, ok := inner.(ast.Identifier); ok && p.ctx.strictMode {
 			p.s.SyntaxError("identifiers can not be deleted in strict mode")
 		}
 		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: arg}, exprOrderUnaryExpr)
-- 
2.43.0


From 279c7a17fa59907e515351553b15bab6548d941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 71/77] fix: yield is reserved in strict mode and await in
 modules

---
 ecmascript/parser/context.go |  5 +++--
 ecmascript/parser/keyword.go |  8 ++++----
 ecmascript/parser/module.go  | 24 ++++++++++++++++++++----
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index b446171..b0f4458 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -8,6 +8,7 @@ type parseContext struct {
 	async      bool
 	generator  bool
 	function   bool
+	module     bool
 }
 
 // enterFunction switches to the context of a function and returns the context
@@ -33,11 +34,11 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		case reservedAlways:
 			return token
 		case reservedAsync:
-			if ctx.async {
+			if ctx.async || ctx.module {
 				return token
 			}
 		case reservedGenerator:
-			if ctx.generator {
+			if ctx.generator || ctx.strictMode {
 				return token
 			}
 		case reservedStrict:
diff --git a/ecmascript/parser/keyword.go b/ecmascript/parser/keyword.go
index 9742ea5..6fd28c8 100644
--- a/ecmascript/parser/keyword.go
+++ b/ecmascript/parser/keyword.go
@@ -11,12 +11,12 @@ const (
 	// identifier.
 	reservedNever reservedType = iota
 
-	// reservedAsync specifies that a keyword is reserved in async contexts;
-	// can be an identifier outside of async contexts.
+	// reservedAsync specifies that a keyword is reserved in async contexts and
+	// modules; can be an identifier outside of them.
 	reservedAsync
 
-	// reservedGenerator specifies that a keyword is reserved in generators;
-	// can be an identifier outside of generators.
+	// reservedGenerator specifies that a keyword is reserved in generators and
+	// strict mode; can be an identifier outside of them.
 	reservedGenerator
 
 	// reservedStrict specifies that a keyword is reserved in strict contexts;
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 7e0ec8b..3bdfeeb 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -10,6 +10,7 @@ import (
 func (p *Parser) parseModule() ast.Node {
 	// Modules are always strict.
 	p.ctx.strictMode = true
+	p.ctx.module = true
 
 	m := ast.ModuleNode{}
 	p.setStart(&m)
@@ -43,6 +44,20 @@ func (p *Parser) parseModuleItem() ast.Node {
 	}
 }
 
+// importableKeyword returns true for the words that imports can be bound to
+// although they are reserved in modules.
+func importableKeyword(t lexer.Token) bool {
+	return t.Type == lexer.TokenKeywordAwait || t.Type == lexer.TokenKeywordYield
+}
+
+// importIdent expects the name that an import is bound to.
+func (p *Parser) importIdent(t lexer.Token, err string) string {
+	if importableKeyword(t) {
+		return p.forceIdent(t, err)
+	}
+	return p.expectIdent(t, err)
+}
+
 func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	n := ast.ImportDeclNode{}
 	p.setStart(&n)
@@ -50,7 +65,8 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 	p.s.ScanExpect(lexer.TokenKeywordImport, "expected `import` declaration")
 
-	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
+	t := p.s.Scan()
+	t = p.ctx.keywordToIdentifier(t, importableKeyword(t))
 	switch t.Type {
 	case lexer.TokenLiteralString:
 		n.Module = p.stringLiteral(t).Value
@@ -81,7 +97,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	switch t.Type {
 	case lexer.TokenPunctuatorMult:
 		p.s.ScanExpect(lexer.TokenKeywordAs, "expected `as` after namespace binding operator `*`")
-		n.NameSpace = &ast.NameSpaceImport{Identifier: p.scanIdent("expected namespace binding after `* as`")}
+		n.NameSpace = &ast.NameSpaceImport{Identifier: p.importIdent(p.s.Scan(), "expected namespace binding after `* as`")}
 
 	case lexer.TokenPunctuatorOpenBrace:
 		n.NamedImports = []ast.NamedImport{}
@@ -97,7 +113,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 				// Only the binding has to be a valid identifier.
 				item.Identifier = p.forceIdent(t, "expected import specifier in import list")
 			} else {
-				item.Identifier = p.expectIdent(t, "expected import specifier in import list")
+				item.Identifier = p.importIdent(t, "expected import specifier in import list")
 			}
 			t = p.s.Scan()
 			switch t.Type {
@@ -107,7 +123,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			case lexer.TokenPunctuatorComma:
 				n.NamedImports = append(n.NamedImports, item)
 			case lexer.TokenKeywordAs:
-				item.AsBinding = p.scanIdent("expected import binding after `as` in import list")
+				item.AsBinding = p.importIdent(p.s.Scan(), "expected import binding after `as` in import list")
 				t = p.s.Scan()
 				switch t.Type {
 				case lexer.TokenPunctuatorCloseBrace:
-- 
2.43.0


From 7ef23b4e6cca0caaf380c567da816b73481e9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 72/77] fix: give a directive with an empty text its ESTree
 directive field

---
 ecmascript/ast/statement.go    | 12 ++++++++++--
 ecmascript/parser/statement.go |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 73eb48f..290e52c 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -41,18 +41,26 @@ type ExpressionStatement struct {
 
 	Expression Node
 	Directive  string
+
+	// IsDirective is set if the statement is a directive, which Directive alone
+	// does not tell: the text of a directive may be empty.
+	IsDirective bool
 }
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ExpressionStatement) ESTree() interface{} {
+	var directive *string
+	if n.IsDirective {
+		directive = &n.Directive
+	}
 	return struct {
 		Type       string      `json:"type"`
 		Expression interface{} `json:"expression"`
-		Directive  string      `json:"directive,omitempty"`
+		Directive  *string     `json:"directive,omitempty"`
 	}{
 		Type:       "ExpressionStatement",
 		Expression: estree(n.Expression),
-		Directive:  n.Directive,
+		Directive:  directive,
 	}
 }
 
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 031a9c3..b9123a3 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -185,6 +185,7 @@ func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
 	if !ok {
 		return stmt, false
 	}
+	expr.IsDirective = true
 	expr.Directive = str.Raw[1 : len(str.Raw)-1]
 	if expr.Directive == "use strict" {
 		p.ctx.strictMode = true
-- 
2.43.0


From cd54e036e380d594711b6e30199dd533fbdff0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 73/77] fix: report a separator line that cannot be written

---
 cmd/estree/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index d5f658d..13802b3 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -23,7 +23,9 @@ func main() {
 	for i, filename := range flag.Args() {
 		// Write separator if multiple files.
 		if i != 0 {
-			os.Stdout.Write([]byte("\n---\n"))
+			if _, err := os.Stdout.Write([]byte("\n---\n")); err != nil {
+				log.Fatalf("Error while writing separator: %v", err)
+			}
 		}
 
 		// Open file for reading and create a buffered reader.
-- 
2.43.0


From aa57745b3014ae050bd0c7827dcbbaeb0d0e1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 74/77] fix: give class expressions and calls of async a span

---
 ecmascript/parser/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index d67e913..ee7ba99 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -239,10 +239,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					n = arrow(p.convertExprToArrowParams(inner), true)
 				} else {
 					// This was a call to a function named "async"
-					n = ast.CallExpression{
+					m := ast.CallExpression{
 						Callee:    ast.Identifier{Name: t.Literal},
 						Arguments: p.convertExprToCallParams(inner),
 					}
+					m.SetStart(s)
+					m.SetEnd(p.s.Location())
+					n = m
 				}
 			} else {
 				// Async as a non-reserved identifier
@@ -289,6 +292,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SuperClass = p.parseClassHeritage()
 		m.Body = p.parseClassBody()
 		p.ctx = ctx
+		m.SetStart(s)
+		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralRegExp:
 		m := ast.RegExpLiteral{
-- 
2.43.0


From d6f71719823c400f2989cf6850d1b395e7f13b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 75/77] fix: end the span of a sequence after its last
 expression

---
 ecmascript/parser/expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index ee7ba99..34a63cf 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -734,12 +734,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			closed = true
 			if seq, ok := n.(ast.SequenceExpression); ok {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listflags))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
-				seq.SetEnd(p.s.Location())
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listflags))
+				seq.SetEnd(p.s.Location())
 				n = seq
 			}
 			continue
-- 
2.43.0


From bbafed739f04944998aeda42892386173c8c95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 76/77] fix: let the span of a catch clause cover the clause

---
 ecmascript/parser/statement.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index b9123a3..08f7086 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -689,16 +689,16 @@ func (p *Parser) parseTryStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordCatch {
-		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		h := ast.CatchClause{}
-		h.SetStart(p.s.Location())
+		p.setStart(&h)
+		p.s.ScanExpect(lexer.TokenKeywordCatch, "expected catch statement")
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
 			h.Param = p.parseCatchParameter()
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 		}
-		h.SetEnd(p.s.Location())
 		h.Body = p.parseBlock()
+		p.setEnd(&h)
 		n.Handler = h
 	}
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordFinally {
-- 
2.43.0


From 9ad9f41cba2a7d7047568d945c3bc7ad0716d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 77/77] fix: set the ends of nodes before they are returned by
 value

---
 ecmascript/parser/declaration.go |  4 ++--
 ecmascript/parser/expression.go  |  6 ++++--
 ecmascript/parser/module.go      |  6 ++++--
 ecmascript/parser/parser.go      |  3 ++-
 ecmascript/parser/script.go      |  2 +-
 ecmascript/parser/statement.go   | 31 +++++++++++++++++--------------
 6 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 68d664f..5d22311 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -56,7 +56,6 @@ func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	switch p.s.Scan().Type {
 	case lexer.TokenKeywordLet:
@@ -68,13 +67,13 @@ func (p *Parser) parseLexicalDeclarationNoSemicolon() ast.VariableDeclaration {
 	default:
 		p.s.SyntaxError("expected lexical declaration")
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseClassDeclaration() ast.Node {
 	n := ast.ClassDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordClass, "expected class")
 	// All parts of a class are strict.
@@ -84,6 +83,7 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 	n.SuperClass = p.parseClassHeritage()
 	n.Body = p.parseClassBody()
 	p.ctx = ctx
+	p.setEnd(&n)
 	return n
 }
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 34a63cf..3423dcd 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -966,7 +966,6 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 	n := ast.ArrayExpression{}
 	n.SetStart(start)
-	defer p.setEnd(&n)
 
 	for {
 		for p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
@@ -1003,6 +1002,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
+	p.setEnd(&n)
 	return n
 }
 
@@ -1010,7 +1010,6 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 	n := ast.ObjectExpression{}
 	n.SetStart(start)
-	defer p.setEnd(&n)
 
 	atEndOfPropertyKey := func() bool {
 		// Colon ends the property key when not using shorthand, otherwise
@@ -1048,6 +1047,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// object after trailing comma.
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 		}
 
@@ -1103,6 +1103,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				if flags&exprFlagMaybeArrow != 0 {
 					n.Properties = append(n.Properties, ast.Property{Key: parseRest()})
 					p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+					p.setEnd(&n)
 					return n
 				}
 
@@ -1224,6 +1225,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// Object ends after a property.
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 		}
 
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 3bdfeeb..1ec422a 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -14,7 +14,6 @@ func (p *Parser) parseModule() ast.Node {
 
 	m := ast.ModuleNode{}
 	p.setStart(&m)
-	defer p.setEnd(&m)
 
 	prologue := true
 	for {
@@ -28,6 +27,7 @@ func (p *Parser) parseModule() ast.Node {
 		m.Body = append(m.Body, item)
 	}
 
+	p.setEnd(&m)
 	return m
 }
 
@@ -61,7 +61,6 @@ func (p *Parser) importIdent(t lexer.Token, err string) string {
 func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	n := ast.ImportDeclNode{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordImport, "expected `import` declaration")
 
@@ -71,6 +70,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 	case lexer.TokenLiteralString:
 		n.Module = p.stringLiteral(t).Value
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 
 	case lexer.TokenIdentifier:
@@ -87,6 +87,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 			t = p.s.ScanExpect(lexer.TokenLiteralString, "expected module specifier after `from`")
 			n.Module = p.stringLiteral(t).Value
 			p.expectSemicolon()
+			p.setEnd(&n)
 			return n
 
 		default:
@@ -149,6 +150,7 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 
 	p.expectSemicolon()
 
+	p.setEnd(&n)
 	return n
 }
 
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c052deb..e73fabe 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -158,7 +158,8 @@ func (p *Parser) setStart(s spannedNode) {
 	s.SetStart(p.s.Location())
 }
 
-// setEnd sets the end of a node; ideal for use with defer.
+// setEnd sets the end of a node to the current location. It is too late to do
+// so in a deferred function if the node is returned by value.
 func (p *Parser) setEnd(s spannedNode) {
 	s.SetEnd(p.s.Location())
 }
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index 3673349..f98b33d 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -8,7 +8,6 @@ import (
 func (p *Parser) parseScript() ast.Node {
 	m := ast.ScriptNode{}
 	p.setStart(&m)
-	defer p.setEnd(&m)
 
 	prologue := true
 	for {
@@ -22,5 +21,6 @@ func (p *Parser) parseScript() ast.Node {
 		m.Body = append(m.Body, stmt)
 	}
 
+	p.setEnd(&m)
 	return m
 }
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 08f7086..5e97569 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -155,7 +155,6 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 func (p *Parser) parseBlockWithPrologue(prologue bool) ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected block opening brace `{`")
 
@@ -171,6 +170,7 @@ func (p *Parser) parseBlockWithPrologue(prologue bool) ast.BlockStatement {
 		n.Body = append(n.Body, stmt)
 	}
 
+	p.setEnd(&n)
 	return n
 }
 
@@ -204,10 +204,10 @@ func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 func (p *Parser) parseVariableStatementNoSemicolon(flags exprFlags) ast.VariableDeclaration {
 	n := ast.VariableDeclaration{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordVar, "expected variable declaration")
 	n.Declarations = p.parseVariableDeclarations(flags)
+	p.setEnd(&n)
 	return n
 }
 
@@ -404,16 +404,15 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 func (p *Parser) parseEmptyExpression() ast.Node {
 	n := ast.EmptyStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseIfStatement() ast.Node {
 	n := ast.IfStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordIf, "expected `if` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
@@ -424,13 +423,13 @@ func (p *Parser) parseIfStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
 		n.Alternate = p.parseSubStatement()
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseDoWhileStatement() ast.Node {
 	n := ast.DoWhileStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
 	n.Body = p.parseSubStatement()
@@ -442,26 +441,26 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
 		p.expectSemicolon()
 	}
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseWhileStatement() ast.Node {
 	n := ast.WhileStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseForStatement() ast.Node {
 	n := ast.ForStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordFor, "expected `for` statement")
 	// TODO: async
@@ -543,13 +542,13 @@ func (p *Parser) parseForStatement() ast.Node {
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseSwitchStatement() ast.Node {
 	n := ast.SwitchStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordSwitch, "expected `switch` statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
@@ -598,6 +597,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
+			p.setEnd(&n)
 			return n
 
 		default:
@@ -609,41 +609,42 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 func (p *Parser) parseContinueStatement() ast.Node {
 	n := ast.ContinueStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordContinue, "expected continue statement")
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
 	if t.NewLine || t.Type != lexer.TokenIdentifier {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 	n.Label = p.scanIdent("expected identifier")
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseBreakStatement() ast.Node {
 	n := ast.BreakStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordBreak, "expected break statement")
 	t := p.ctx.keywordToIdentifier(p.s.PeekAt(0), false)
 	if t.NewLine || t.Type != lexer.TokenIdentifier {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 	n.Label = p.scanIdent("expected identifier")
 
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseReturnStatement() ast.Node {
 	n := ast.ReturnStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	if !p.ctx.function {
 		p.s.SyntaxError("return outside of function")
@@ -653,11 +654,13 @@ func (p *Parser) parseReturnStatement() ast.Node {
 	t := p.s.PeekAt(0)
 	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
 		p.expectSemicolon()
+		p.setEnd(&n)
 		return n
 	}
 
 	n.Argument = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
@@ -669,7 +672,6 @@ func (p *Parser) parseWithStatement() ast.Node {
 func (p *Parser) parseThrowStatement() ast.Node {
 	n := ast.ThrowStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordThrow, "expected throw statement")
 	if p.s.PeekAt(0).NewLine {
@@ -678,13 +680,13 @@ func (p *Parser) parseThrowStatement() ast.Node {
 
 	n.Argument = p.parseExpression(exprOrderComma, 0)
 	p.expectSemicolon()
+	p.setEnd(&n)
 	return n
 }
 
 func (p *Parser) parseTryStatement() ast.Node {
 	n := ast.TryStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordTry, "expected try statement")
 	n.Block = p.parseBlock()
@@ -708,6 +710,7 @@ func (p *Parser) parseTryStatement() ast.Node {
 	if n.Handler == nil && n.Finalizer == nil {
 		p.s.SyntaxError("expected `catch` or `finally` after `try` block")
 	}
+	p.setEnd(&n)
 	return n
 }
 
@@ -735,10 +738,10 @@ func (p *Parser) parseDebuggerStatement() ast.Node {
 func (p *Parser) parseLabelledStatement() ast.Node {
 	n := ast.LabeledStatement{}
 	p.setStart(&n)
-	defer p.setEnd(&n)
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
 	n.Body = p.parseSubStatement()
+	p.setEnd(&n)
 	return n
 }
-- 
2.43.0

