From 66011a4ad3736c74696084ccb4ad09b485b93532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 01/30] fix: do not append a nil element after a top-level
 empty statement

A top-level ';' appended both an EmptyStatement and a nil element to the
body, so Accept and UnorderedInterpret failed on the result, and an inline
comment behind it made Parse panic.
---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 8b56f00349c2411585dea92da82ad1728a34582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 02/30] fix: reject a malformed field instead of reading its
 end as an empty statement

When parsing a field, group or enum field failed at a ';', the body parsers
pushed only that last token back and accepted it as an empty statement, so
'int32 a;' or 'A = ;' parsed without an error and the field was dropped.
---
 parser/enum.go    | 43 +++++++++--------------------------
 parser/extend.go  | 43 +++++++++--------------------------
 parser/message.go | 57 +++++++++++++----------------------------------
 3 files changed, 38 insertions(+), 105 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..cd69e39 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseEnumBodyStatementErr struct {
-	parseEnumFieldErr      error
-	parseEmptyStatementErr error
-}
-
-func (e *parseEnumBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseEnumFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // EnumValueOption is an option of a enumField.
 type EnumValueOption struct {
 	OptionName string
@@ -197,25 +182,19 @@ func (p *Parser) parseEnumBody() (
 			}
 			reserved.Comments = comments
 			stmt = reserved
-		default:
-			enumField, enumFieldErr := p.parseEnumField()
-			if enumFieldErr == nil {
-				enumField.Comments = comments
-				stmt = enumField
-				break
-			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
-
-			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
-				parseEnumFieldErr:      enumFieldErr,
-				parseEmptyStatementErr: emptyErr,
+			stmt = &EmptyStatement{}
+		default:
+			enumField, err := p.parseEnumField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			enumField.Comments = comments
+			stmt = enumField
 		}
 
 		p.MaybeScanInlineComment(stmt)
diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..2acd2f9 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseExtendBodyStatementErr struct {
-	parseFieldErr          error
-	parseEmptyStatementErr error
-}
-
-func (e *parseExtendBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // Extend consists of a messageType and an extend body.
 type Extend struct {
 	MessageType string
@@ -158,25 +143,19 @@ func (p *Parser) parseExtendBody() (
 				}
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
-		default:
-			field, fieldErr := p.ParseField()
-			if fieldErr == nil {
-				field.Comments = comments
-				stmt = field
-				break
-			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
-
-			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
-				parseFieldErr:          fieldErr,
-				parseEmptyStatementErr: emptyErr,
+			stmt = &EmptyStatement{}
+		default:
+			field, err := p.ParseField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			field.Comments = comments
+			stmt = field
 		}
 
 		p.MaybeScanInlineComment(stmt)
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..59f5980 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseMessageBodyStatementErr struct {
-	parseFieldErr          error
-	parseEmptyStatementErr error
-}
-
-func (e *parseMessageBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // Message consists of a message name and a message body.
 type Message struct {
 	MessageName string
@@ -216,38 +201,28 @@ func (p *Parser) parseMessageBody() (
 			}
 			extensions.Comments = comments
 			stmt = extensions
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
+			}
+			stmt = &EmptyStatement{}
 		default:
-			var ferr error
 			isGroup := p.peekIsGroup()
 			if isGroup {
-				groupField, groupErr := p.ParseGroupField()
-				if groupErr == nil {
-					groupField.Comments = comments
-					stmt = groupField
-					break
+				groupField, err := p.ParseGroupField()
+				if err != nil {
+					return nil, nil, scanner.Position{}, err
 				}
-				ferr = groupErr
-				p.lex.UnNext()
+				groupField.Comments = comments
+				stmt = groupField
 			} else {
-				field, fieldErr := p.ParseField()
-				if fieldErr == nil {
-					field.Comments = comments
-					stmt = field
-					break
+				field, err := p.ParseField()
+				if err != nil {
+					return nil, nil, scanner.Position{}, err
 				}
-				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
-
-			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
-				parseFieldErr:          ferr,
-				parseEmptyStatementErr: emptyErr,
+				field.Comments = comments
+				stmt = field
 			}
 		}
 
-- 
2.43.0


From b0914a53f911a20e44433a34f1d3904a854c0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:18 +0000
Subject: [PATCH 03/30] fix: require the closing bracket of a list constant

The token behind the last element of a [..] constant was consumed without
looking at it, so 'option a = [1, 2 };' and 'option a = [1 2;' were accepted.
---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 4c8b53a80b9ec5424160b12abf761109bc492fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 04/30] fix: do not mix ranges and field names in a reserved
 statement

When the ranges failed to parse, the field names were parsed from where the
failure occurred, so 'reserved 1, "foo";' and 'reserved 5 to foo bar;' were
accepted and the numbers in front were dropped.
---
 parser/reserved.go | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..1c28f98 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -1,21 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseReservedErr struct {
-	parseRangesErr     error
-	parseFieldNamesErr error
-}
-
-func (e *parseReservedErr) Error() string {
-	return fmt.Sprintf("%v:%v", e.parseRangesErr, e.parseFieldNamesErr)
-}
-
 // Range is a range of field numbers. End is an optional value.
 type Range struct {
 	Begin string
@@ -70,20 +59,16 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
-		ranges, err := p.parseRanges()
-		if err == nil {
-			return ranges, nil, nil
-		}
-
-		fieldNames, ferr := p.parseFieldNames()
-		if ferr == nil {
-			return nil, fieldNames, nil
-		}
+		p.lex.NextNumberLit()
+		isRange := p.lex.Token == scanner.TINTLIT
+		p.lex.UnNext()
 
-		return nil, nil, &parseReservedErr{
-			parseRangesErr:     err,
-			parseFieldNamesErr: ferr,
+		if isRange {
+			ranges, err := p.parseRanges()
+			return ranges, nil, err
 		}
+		fieldNames, err := p.parseFieldNames()
+		return nil, fieldNames, err
 	}
 
 	ranges, fieldNames, err := parse()
-- 
2.43.0


From edfb96b1817049861de3deeca680894b864e029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 05/30] fix: reject an unknown token between import and its
 location

Any token other than weak, public or a string was skipped, so
'import foo "x.proto";' and 'import = "x.proto";' were accepted.
---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..ab0f0dd 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected("weak, public or strLit")
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From ee33452de4d11f99144a90d6a2695591d5e449b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 06/30] fix: keep the leading comments of a file without a
 syntax statement

The comments at the beginning of a file were dropped when neither a syntax nor
an edition statement followed them. They belong to the first body element.
---
 parser/proto.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..d958e4b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -59,7 +59,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 		p.MaybeScanInlineComment(edition)
 	}
 
-	protoBody, err := p.parseProtoBody()
+	if syntax != nil || edition != nil {
+		comments = nil
+	}
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -86,11 +89,14 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+//
+// leadingComments are the already parsed comments placed at the beginning of the first statement.
+func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
 	for {
-		comments := p.ParseComments()
+		comments := append(leadingComments, p.ParseComments()...)
+		leadingComments = nil
 
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
-- 
2.43.0


From d1af5f68d0d0c3d36580cdad05ba90240a302992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:30 +0000
Subject: [PATCH 07/30] fix: keep escaped and mixed quotes when merging string
 literals

strings.Trim removed an escaped quote at the end of a literal ("say \"hi\""
became "say \"hi\") and kept the quotes of a following literal which uses the
other quote character ("a" 'b' became "a'b'").
---
 lexer/constant.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..be11553 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -48,18 +48,34 @@ func (lex *Lexer) ReadConstant(permissive bool) (string, scanner.Position, error
 
 // Merges a multiline string literal into a single string.
 func (lex *Lexer) mergeMultilineStrLit() string {
-	q := "'"
-	if strings.HasPrefix(lex.Text, "\"") {
-		q = "\""
-	}
+	q := lex.Text[:1]
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
-		b.WriteString(strippedString)
+		body := lex.Text[1 : len(lex.Text)-1]
+		if lex.Text[:1] != q {
+			body = escapeQuote(body, q[0])
+		}
+		b.WriteString(body)
 		lex.NextLit()
 	}
 	lex.UnNext()
 	b.WriteString(q)
 	return b.String()
 }
+
+// escapeQuote escapes q in the body of a string literal which was quoted by the other quote.
+func escapeQuote(body string, q byte) string {
+	var b strings.Builder
+	for i := 0; i < len(body); i++ {
+		switch {
+		case body[i] == '\\' && i+1 < len(body):
+			b.WriteByte(body[i])
+			i++
+		case body[i] == q:
+			b.WriteByte('\\')
+		}
+		b.WriteByte(body[i])
+	}
+	return b.String()
+}
-- 
2.43.0


From 35da8ba218012196480ee9591c917bc8b660515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 08/30] fix: do not take a NUL character for the end of the
 input

The scanner used rune(0) as its end mark. A NUL in the input was dropped, ended
a comment early (the rest of the comment was parsed as code) and two in a row
ended the file, so that everything behind them was ignored without an error.
---
 lexer/scanner/scanner.go | 3 ++-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..6fb562e 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,8 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+// eof is not a valid rune, so that no character of the input is taken for the end of it.
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From 7a508dfbaaf100e2f3e8ae40666b6ef08705750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 09/30] fix: report an error of the input reader

A non-EOF error of the reader was taken for the end of the input. When it
occurred between two statements, Parse returned the truncated file without an
error.
---
 lexer/lexer.go           |  5 +++++
 lexer/scanner/scanner.go | 11 +++++++++++
 parser/proto.go          |  8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 91d6add..a636a15 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -149,6 +149,11 @@ func (lex *Lexer) LatestErr() error {
 	return lex.scanErr
 }
 
+// ReadErr returns the first non-EOF error that was encountered while reading the input.
+func (lex *Lexer) ReadErr() error {
+	return lex.scanner.ReadErr()
+}
+
 // Peek returns the next token with keeping the read buffer unchanged.
 func (lex *Lexer) Peek() scanner.Token {
 	lex.Next()
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 6fb562e..7912b10 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -30,6 +30,9 @@ type Scanner struct {
 	// comments are all the scanned comments.
 	// These can be duplicated.
 	comments []Text
+
+	// readErr is the first non-EOF error returned by the reader.
+	readErr error
 }
 
 // Option is an option for scanner.NewScanner.
@@ -71,6 +74,9 @@ func (s *Scanner) read() (r rune) {
 	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		if err != io.EOF && s.readErr == nil {
+			s.readErr = err
+		}
 		return eof
 	}
 	return ch
@@ -109,6 +115,11 @@ func (s *Scanner) Scan() (Token, string, Position, error) {
 	return s.scan()
 }
 
+// ReadErr returns the first non-EOF error that was returned by the reader.
+func (s *Scanner) ReadErr() error {
+	return s.readErr
+}
+
 // LastScanRaw returns the deep-copied lastScanRaw.
 func (s *Scanner) LastScanRaw() []rune {
 	r := make([]rune, len(s.lastScanRaw))
diff --git a/parser/proto.go b/parser/proto.go
index d958e4b..b9f5e04 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -38,6 +38,14 @@ func (p *Proto) Accept(v Visitor) {
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
 // See https://protobuf.dev/reference/protobuf/edition-2023-spec/#proto_file
 func (p *Parser) ParseProto() (*Proto, error) {
+	proto, err := p.parseProto()
+	if readErr := p.lex.ReadErr(); readErr != nil {
+		return nil, readErr
+	}
+	return proto, err
+}
+
+func (p *Parser) parseProto() (*Proto, error) {
 	p.parseBOM()
 
 	comments := p.ParseComments()
-- 
2.43.0


From c1e493bef0576ac4e88ee44df2a1566f0009b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 10/30] fix: scan a long run of white space in linear time and
 constant stack

Each white space character was a recursive call of scan, and UnScan prepended
each character to a new slice: a file with some hundred thousand blanks kept
Parse busy for minutes and some millions could overflow the stack.
---
 lexer/scanner/scanner.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 7912b10..d884bf0 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -99,12 +99,8 @@ func (s *Scanner) peek() rune {
 
 // UnScan put the last scanned text back to the read buffer.
 func (s *Scanner) UnScan() Position {
-	var reversedRunes []rune
-	for _, ch := range s.lastScanRaw {
-		reversedRunes = append([]rune{ch}, reversedRunes...)
-	}
-	for _, ch := range reversedRunes {
-		s.unread(ch)
+	for i := len(s.lastScanRaw) - 1; 0 <= i; i-- {
+		s.unread(s.lastScanRaw[i])
 	}
 	return *s.pos
 }
@@ -154,13 +150,14 @@ func (s *Scanner) GetScannedComments() []Text {
 
 func (s *Scanner) scan() (Token, string, Position, error) {
 	ch := s.peek()
+	for unicode.IsSpace(ch) {
+		s.read()
+		ch = s.peek()
+	}
 
 	startPos := *s.pos
 
 	switch {
-	case unicode.IsSpace(ch):
-		s.read()
-		return s.scan()
 	case s.isEOF():
 		return TEOF, "", startPos, nil
 	case isLetter(ch), ch == '_':
-- 
2.43.0


From e417cf90853fa135f2e0a4c8af8d35e050103bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 11/30] fix: read the quoted version of syntax and edition as
 one string literal

The quotes and the version were separate tokens, so that mismatched quotes
("proto3'), blanks, line breaks and comments within the quotes, and for edition
a hexadecimal number, were accepted.
---
 parser/edition.go | 32 +++++++++++++++++---------------
 parser/syntax.go  | 20 ++++++--------------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..6bc182d 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -57,23 +57,15 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.NextNumberLit()
-	if p.lex.Token != scanner.TINTLIT {
-		return nil, p.unexpected("intLit")
+	editionQuote := p.lex.Text
+	edition := editionQuote[1 : len(editionQuote)-1]
+	if !isDecimalLit(edition) {
+		return nil, p.unexpected("decimalLit")
 	}
-	edition := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -82,10 +74,20 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 
 	return &Edition{
 		Edition:      edition,
-		EditionQuote: lq + edition + tq,
+		EditionQuote: editionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
 		},
 	}, nil
 }
+
+// decimalLit = ( "1" … "9" ) { decimalDigit }
+func isDecimalLit(s string) bool {
+	for _, r := range s {
+		if r < '0' || '9' < r {
+			return false
+		}
+	}
+	return s != "" && s[0] != '0'
+}
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..3ff140c 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -70,23 +70,15 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Text != "proto3" && p.lex.Text != "proto2" {
+	versionQuote := p.lex.Text
+	version := versionQuote[1 : len(versionQuote)-1]
+	if version != "proto3" && version != "proto2" {
 		return nil, p.unexpected("proto3 or proto2")
 	}
-	version := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -95,7 +87,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 
 	return &Syntax{
 		ProtobufVersion:      version,
-		ProtobufVersionQuote: lq + version + tq,
+		ProtobufVersionQuote: versionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
-- 
2.43.0


From 31e87bafdde22a8b9d5c5072a5fd9623f4e049d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 12/30] fix: keep the comments of a body without statements

With WithBodyIncludingComments, the comments in an otherwise empty message,
group or extend body were dropped, because the check for an empty body skipped
them. The body loop handles the empty body on its own, as enum and service do.
---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index 2acd2f9..42108d1 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -94,23 +94,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 59f5980..8940776 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -96,23 +96,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From f2a0913490f59b3b05d19e1ea325fd98d62f76bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 13/30] fix: keep the comments in front of an empty statement

An EmptyStatement cannot hold comments. With WithBodyIncludingComments, the
comments which precede one belong to no other element, but were dropped.
---
 parser/comment.go | 10 ++++++++++
 parser/enum.go    |  1 +
 parser/extend.go  |  1 +
 parser/message.go |  1 +
 parser/proto.go   |  1 +
 parser/service.go |  1 +
 6 files changed, 15 insertions(+)

diff --git a/parser/comment.go b/parser/comment.go
index b03587f..d0d6d92 100644
--- a/parser/comment.go
+++ b/parser/comment.go
@@ -89,3 +89,13 @@ func (p *Parser) findEmbeddedComments(from scanner.Position, to scanner.Position
 	}
 	return comments
 }
+
+// appendBodyComments appends the comments to the body if they should be included in it.
+func (p *Parser) appendBodyComments(body []Visitee, comments []*Comment) []Visitee {
+	if p.bodyIncludingComments {
+		for _, comment := range comments {
+			body = append(body, Visitee(comment))
+		}
+	}
+	return body
+}
diff --git a/parser/enum.go b/parser/enum.go
index cd69e39..62cc989 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -187,6 +187,7 @@ func (p *Parser) parseEnumBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.appendBodyComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		default:
 			enumField, err := p.parseEnumField()
diff --git a/parser/extend.go b/parser/extend.go
index 42108d1..4ae1a91 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -131,6 +131,7 @@ func (p *Parser) parseExtendBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.appendBodyComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		default:
 			field, err := p.ParseField()
diff --git a/parser/message.go b/parser/message.go
index 8940776..efc8846 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -189,6 +189,7 @@ func (p *Parser) parseMessageBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.appendBodyComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		default:
 			isGroup := p.peekIsGroup()
diff --git a/parser/proto.go b/parser/proto.go
index b9f5e04..a161a9d 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -179,6 +179,7 @@ func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
+			protoBody = p.appendBodyComments(protoBody, comments)
 			stmt = &EmptyStatement{}
 		}
 
diff --git a/parser/service.go b/parser/service.go
index 62b021d..3c6ae1f 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -201,6 +201,7 @@ func (p *Parser) parseServiceBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			stmts = p.appendBodyComments(stmts, comments)
 			stmt = &EmptyStatement{}
 		}
 
-- 
2.43.0


From 7648631afaf6c76bed7f0f03f0afbd9807be65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 14/30] fix: accept an empty oneof and an empty statement at
 the end of a oneof

---
 parser/oneof.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..809e480 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -111,15 +111,18 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 	for {
 		comments := p.ParseComments()
 
-		err := p.lex.ReadEmptyStatement()
-		if err == nil {
-			continue
-		}
-
 		p.lex.NextKeyword()
 		token := p.lex.Token
 		p.lex.UnNext()
-		if token == scanner.TOPTION {
+		if token == scanner.TRIGHTCURLY {
+			p.lex.Next()
+			break
+		} else if token == scanner.TSEMICOLON {
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, err
+			}
+		} else if token == scanner.TOPTION {
 			// See https://github.com/yoheimuta/go-protoparser/issues/57
 			option, err := p.ParseOption()
 			if err != nil {
@@ -137,13 +140,6 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 			p.MaybeScanInlineComment(oneofField)
 			oneofFields = append(oneofFields, oneofField)
 		}
-
-		p.lex.Next()
-		if p.lex.Token == scanner.TRIGHTCURLY {
-			break
-		} else {
-			p.lex.UnNext()
-		}
 	}
 
 	lastPos := p.lex.Pos
-- 
2.43.0


From 92ce814de21d166e487dec87c6dcc9d7ef72dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 15/30] fix: interpret a service with an empty statement

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From 95b89de483a3ae19cbcf246005ccf3f00826b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:57 +0000
Subject: [PATCH 16/30] fix: keep the edition in an unordered proto

---
 interpret/unordered/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..6ae4dff 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,6 +21,7 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
 }
 
@@ -36,6 +37,7 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
 	}, nil
 }
-- 
2.43.0


From a8d11aec07d60ffba9096d35cefc40ebc00165de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 17/30] fix: visit the options and all the comments of an rpc,
 a oneof and an extensions

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..5cfb430 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index 809e480..57eb2ed 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 3c6ae1f..6daa283 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From da7488b424f159e1a0d5b3e636a67a1d9ab22d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 18/30] fix: require true or false for a bool of a declaration

---
 parser/declaration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..3c03afe 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -127,7 +127,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Token != scanner.TIDENT || (p.lex.Text != "true" && p.lex.Text != "false") {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -137,7 +137,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Token != scanner.TIDENT || (p.lex.Text != "true" && p.lex.Text != "false") {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From acec198fc3dfb8490f0a4a31477fd756b0bd03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:22 +0000
Subject: [PATCH 19/30] fix: give an edition behind a syntax its own comments

---
 parser/proto.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index a161a9d..d07575c 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -56,6 +56,7 @@ func (p *Parser) parseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -65,11 +66,9 @@ func (p *Parser) parseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
-	}
-
-	if syntax != nil || edition != nil {
 		comments = nil
 	}
+
 	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8e3c34b82c7547ecc58327f51b3f9393d4c4609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 20/30] fix: report the unexpected token behind a declaration,
 not the one behind it

---
 parser/extensions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 5cfb430..9cd4e32 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -106,14 +106,14 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 
 		p.lex.Next()
 		token := p.lex.Token
+		if token != scanner.TRIGHTSQUARE && token != scanner.TCOMMA {
+			return nil, nil, p.unexpected(", or ]")
+		}
 		inlineComment1 := p.parseInlineComment()
 		if token == scanner.TRIGHTSQUARE {
 			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
 		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
-- 
2.43.0


From cc854a6dbac4eb6f89b625a9f5047f0f2d534af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 21/30] fix: report a missing message type at the end of the
 input

---
 lexer/messageType.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/messageType.go b/lexer/messageType.go
index 107313d..2a3de0f 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -17,7 +17,7 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	}
 
 	lex.Next()
-	for !lex.IsEOF() {
+	for {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-- 
2.43.0


From 03571fee342ae3721a6c1b5429f467ad1ed42ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:40 +0000
Subject: [PATCH 22/30] fix: put back what ends a full identifier at the end of
 the input

---
 lexer/fullIdent.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lexer/fullIdent.go b/lexer/fullIdent.go
index cab0094..70e5bfb 100644
--- a/lexer/fullIdent.go
+++ b/lexer/fullIdent.go
@@ -14,12 +14,7 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 	fullIdent := lex.Text
 	lex.Next()
 
-	for !lex.IsEOF() {
-		if lex.Token != scanner.TDOT {
-			lex.UnNext()
-			break
-		}
-
+	for lex.Token == scanner.TDOT {
 		lex.Next()
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "TIDENT")
@@ -27,5 +22,6 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 		fullIdent += "." + lex.Text
 		lex.Next()
 	}
+	lex.UnNext()
 	return fullIdent, startPos, nil
 }
-- 
2.43.0


From 9c189179f5e980a670b608504d506d5bfd6f22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 23/30] fix: find the comments of an rpc in linear time

All the comments scanned so far were compared with one another for each
rpc, which took cubic time in a service with many of them.
---
 lexer/scanner/scanner.go | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index d884bf0..470370c 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -27,14 +27,22 @@ type Scanner struct {
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
-	// comments are all the scanned comments.
-	// These can be duplicated.
+	// comments are all the uniquely scanned comments.
 	comments []Text
 
+	// scannedComments is the set of comments.
+	scannedComments map[scannedComment]struct{}
+
 	// readErr is the first non-EOF error returned by the reader.
 	readErr error
 }
 
+// scannedComment identifies a comment, which can be scanned several times.
+type scannedComment struct {
+	offset  int
+	literal string
+}
+
 // Option is an option for scanner.NewScanner.
 type Option func(*Scanner)
 
@@ -48,8 +56,9 @@ func WithFilename(filename string) Option {
 // NewScanner returns a new instance of Scanner.
 func NewScanner(r io.Reader, opts ...Option) *Scanner {
 	s := &Scanner{
-		r:   bufio.NewReader(r),
-		pos: NewPosition(),
+		r:               bufio.NewReader(r),
+		pos:             NewPosition(),
+		scannedComments: make(map[scannedComment]struct{}),
 	}
 	for _, opt := range opts {
 		opt(s)
@@ -130,22 +139,16 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 
 // GetScannedComments returns all the uniquely scanned comments.
 func (s *Scanner) GetScannedComments() []Text {
-	var uniqueComments []Text
-	find := func(c Text) bool {
-		for _, uc := range uniqueComments {
-			if c.Pos.Offset == uc.Pos.Offset && c.Literal == uc.Literal {
-				return true
-			}
-		}
-		return false
-	}
+	return s.comments
+}
 
-	for _, c := range s.comments {
-		if !find(c) {
-			uniqueComments = append(uniqueComments, c)
-		}
+func (s *Scanner) addComment(c Text) {
+	key := scannedComment{offset: c.Pos.Offset, literal: c.Literal}
+	if _, ok := s.scannedComments[key]; ok {
+		return
 	}
-	return uniqueComments
+	s.scannedComments[key] = struct{}{}
+	s.comments = append(s.comments, c)
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
@@ -177,7 +180,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 		if err != nil {
 			return TILLEGAL, "", startPos, err
 		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+		s.addComment(Text{Literal: lit, Pos: startPos})
 		if s.Mode&ScanComment != 0 {
 			return TCOMMENT, lit, startPos, nil
 		}
-- 
2.43.0


From 95d28d07fffd8b8b6c55083195ef1ae5dd921aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:50 +0000
Subject: [PATCH 24/30] fix: scan a long token in linear time

Comments, identifiers, strings and numbers were built by appending one
character at a time to a string, which took quadratic time.
---
 lexer/scanner/comment.go   | 19 ++++++++++--------
 lexer/scanner/ident.go     |  9 ++++++---
 lexer/scanner/numberLit.go | 40 +++++++++++++-------------------------
 lexer/scanner/strLit.go    | 11 +++++++----
 4 files changed, 37 insertions(+), 42 deletions(-)

diff --git a/lexer/scanner/comment.go b/lexer/scanner/comment.go
index 532146c..7b62c94 100644
--- a/lexer/scanner/comment.go
+++ b/lexer/scanner/comment.go
@@ -1,32 +1,35 @@
 package scanner
 
+import "strings"
+
 // comment = ( "//" { [^\n] } "\n" ) |  ( "/*" { any } "*/" )
 func (s *Scanner) scanComment() (string, error) {
-	lit := string(s.read())
+	var lit strings.Builder
+	lit.WriteRune(s.read())
 
 	ch := s.read()
 	switch ch {
 	case '/':
 		for ch != '\n' {
-			lit += string(ch)
+			lit.WriteRune(ch)
 
 			if s.isEOF() {
-				return lit, nil
+				return lit.String(), nil
 			}
 			ch = s.read()
 		}
 	case '*':
 		for {
 			if s.isEOF() {
-				return lit, s.unexpected(eof, "\n")
+				return lit.String(), s.unexpected(eof, "\n")
 			}
-			lit += string(ch)
+			lit.WriteRune(ch)
 
 			ch = s.read()
 			chn := s.peek()
 			if ch == '*' && chn == '/' {
-				lit += string(ch)
-				lit += string(s.read())
+				lit.WriteRune(ch)
+				lit.WriteRune(s.read())
 				break
 			}
 		}
@@ -34,5 +37,5 @@ func (s *Scanner) scanComment() (string, error) {
 		return "", s.unexpected(ch, "/ or *")
 	}
 
-	return lit, nil
+	return lit.String(), nil
 }
diff --git a/lexer/scanner/ident.go b/lexer/scanner/ident.go
index 88ac247..c5cf240 100644
--- a/lexer/scanner/ident.go
+++ b/lexer/scanner/ident.go
@@ -1,16 +1,19 @@
 package scanner
 
+import "strings"
+
 // ident = letter { letter | decimalDigit | "_" }
 func (s *Scanner) scanIdent() string {
-	ident := string(s.read())
+	var ident strings.Builder
+	ident.WriteRune(s.read())
 
 	for {
 		next := s.peek()
 		switch {
 		case isLetter(next), isDecimalDigit(next), next == '_':
-			ident += string(s.read())
+			ident.WriteRune(s.read())
 		default:
-			return ident
+			return ident.String()
 		}
 	}
 }
diff --git a/lexer/scanner/numberLit.go b/lexer/scanner/numberLit.go
index 488222f..b509a22 100644
--- a/lexer/scanner/numberLit.go
+++ b/lexer/scanner/numberLit.go
@@ -1,5 +1,7 @@
 package scanner
 
+import "strings"
+
 // intLit     = decimalLit | octalLit | hexLit
 // decimalLit = ( "1" … "9" ) { decimalDigit }
 // octalLit   = "0" { octalDigit }
@@ -19,13 +21,7 @@ func (s *Scanner) scanNumberLit() (Token, string, error) {
 		}
 		lit += string(s.read())
 
-		for !s.isEOF() {
-			if !isHexDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
-		return TINTLIT, lit, nil
+		return TINTLIT, lit + s.scanDigits(isHexDigit), nil
 	case lit == ".":
 		// floatLit
 		fractional, err := s.scanFractionPartNoOmit()
@@ -50,21 +46,10 @@ func (s *Scanner) scanNumberLit() (Token, string, error) {
 		return TFLOATLIT, lit + exp, nil
 	case lit == "0":
 		// octalLit
-		for !s.isEOF() {
-			if !isOctalDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
-		return TINTLIT, lit, nil
+		return TINTLIT, lit + s.scanDigits(isOctalDigit), nil
 	default:
 		// decimalLit or floatLit
-		for !s.isEOF() {
-			if !isDecimalDigit(s.peek()) {
-				break
-			}
-			lit += string(s.read())
-		}
+		lit += s.scanDigits(isDecimalDigit)
 
 		switch s.peek() {
 		case '.':
@@ -160,13 +145,14 @@ func (s *Scanner) scanDecimals() (string, error) {
 	if !isDecimalDigit(ch) {
 		return "", s.unexpected(ch, "decimalDigit")
 	}
-	lit := string(s.read())
+	return s.scanDigits(isDecimalDigit), nil
+}
 
-	for !s.isEOF() {
-		if !isDecimalDigit(s.peek()) {
-			break
-		}
-		lit += string(s.read())
+// scanDigits scans a run of characters which are digits.
+func (s *Scanner) scanDigits(isDigit func(rune) bool) string {
+	var digits strings.Builder
+	for !s.isEOF() && isDigit(s.peek()) {
+		digits.WriteRune(s.read())
 	}
-	return lit, nil
+	return digits.String()
 }
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index fcdb9e2..47a5a17 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -1,9 +1,12 @@
 package scanner
 
+import "strings"
+
 // strLit = ( "'" { charValue } "'" ) |  ( '"' { charValue } '"' )
 func (s *Scanner) scanStrLit() (string, error) {
 	quote := s.read()
-	lit := string(quote)
+	var lit strings.Builder
+	lit.WriteRune(quote)
 
 	ch := s.peek()
 	for ch != quote {
@@ -11,13 +14,13 @@ func (s *Scanner) scanStrLit() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		lit += cv
+		lit.WriteString(cv)
 		ch = s.peek()
 	}
 
 	// consume quote
-	lit += string(s.read())
-	return lit, nil
+	lit.WriteRune(s.read())
+	return lit.String(), nil
 }
 
 // charValue = hexEscape | octEscape | charEscape | /[^\0\n\\]/
-- 
2.43.0


From 1bda86e489302e73a9b5161e1486734c4fc15bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:56 +0000
Subject: [PATCH 25/30] fix: merging string literals no longer lets an escape
 take the first digit of the next literal

---
 lexer/constant.go | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index be11553..716fe50 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -49,19 +49,54 @@ func (lex *Lexer) ReadConstant(permissive bool) (string, scanner.Position, error
 // Merges a multiline string literal into a single string.
 func (lex *Lexer) mergeMultilineStrLit() string {
 	q := lex.Text[:1]
-	var b strings.Builder
-	b.WriteString(q)
+	merged := []byte(q)
 	for lex.Token == scanner.TSTRLIT {
 		body := lex.Text[1 : len(lex.Text)-1]
 		if lex.Text[:1] != q {
 			body = escapeQuote(body, q[0])
 		}
-		b.WriteString(body)
+		if body != "" {
+			merged = append(padEscape(merged, body[0]), body...)
+		}
 		lex.NextLit()
 	}
 	lex.UnNext()
-	b.WriteString(q)
-	return b.String()
+	return string(merged) + q
+}
+
+// padEscape pads a numeric escape at the end of lit with zeros if it would take next, which
+// was not part of it, for one of its digits.
+func padEscape(lit []byte, next byte) []byte {
+	const octalDigits, hexDigits = "01234567", "0123456789abcdefABCDEF"
+
+	begin := len(lit)
+	width := 3
+	switch {
+	case strings.IndexByte(octalDigits, next) != -1 && isEscape(lit, begin-1, octalDigits):
+		begin--
+	case strings.IndexByte(octalDigits, next) != -1 && isEscape(lit, begin-2, octalDigits) && strings.IndexByte(octalDigits, lit[begin-1]) != -1:
+		begin -= 2
+	case strings.IndexByte(hexDigits, next) != -1 && isEscape(lit, begin-2, "xX") && strings.IndexByte(hexDigits, lit[begin-1]) != -1:
+		begin--
+		width = 2
+	}
+	digits := string(lit[begin:])
+	if digits == "" {
+		return lit
+	}
+	return append(lit[:begin], strings.Repeat("0", width-len(digits))+digits...)
+}
+
+// isEscape tells whether the i-th character of lit is one of chars behind an unescaped backslash.
+func isEscape(lit []byte, i int, chars string) bool {
+	if i < 1 || strings.IndexByte(chars, lit[i]) == -1 {
+		return false
+	}
+	backslashes := 0
+	for 0 < i-backslashes && lit[i-backslashes-1] == '\\' {
+		backslashes++
+	}
+	return backslashes%2 == 1
 }
 
 // escapeQuote escapes q in the body of a string literal which was quoted by the other quote.
-- 
2.43.0


From b7a4dc7cbbdd1a2b4cfcb5074b63bd628622d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:48 +0000
Subject: [PATCH 26/30] fix: build option constants, option names and types in
 linear time

---
 lexer/fullIdent.go   | 14 +++++++++----
 lexer/messageType.go | 16 ++++++++------
 parser/option.go     | 50 ++++++++++++++++++++++----------------------
 3 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/lexer/fullIdent.go b/lexer/fullIdent.go
index 70e5bfb..e1d98e4 100644
--- a/lexer/fullIdent.go
+++ b/lexer/fullIdent.go
@@ -1,6 +1,10 @@
 package lexer
 
-import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+import (
+	"strings"
+
+	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+)
 
 // ReadFullIdent reads a fullIdent.
 // fullIdent = ident { "." ident }
@@ -11,7 +15,8 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 	}
 	startPos := lex.Pos
 
-	fullIdent := lex.Text
+	var fullIdent strings.Builder
+	fullIdent.WriteString(lex.Text)
 	lex.Next()
 
 	for lex.Token == scanner.TDOT {
@@ -19,9 +24,10 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "TIDENT")
 		}
-		fullIdent += "." + lex.Text
+		fullIdent.WriteString(".")
+		fullIdent.WriteString(lex.Text)
 		lex.Next()
 	}
 	lex.UnNext()
-	return fullIdent, startPos, nil
+	return fullIdent.String(), startPos, nil
 }
diff --git a/lexer/messageType.go b/lexer/messageType.go
index 2a3de0f..7ff1562 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -1,6 +1,10 @@
 package lexer
 
-import "github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+import (
+	"strings"
+
+	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
+)
 
 // ReadMessageType reads a messageType.
 // messageType = [ "." ] { ident "." } messageName
@@ -9,9 +13,9 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	lex.Next()
 	startPos := lex.Pos
 
-	var messageType string
+	var messageType strings.Builder
 	if lex.Token == scanner.TDOT {
-		messageType = lex.Text
+		messageType.WriteString(lex.Text)
 	} else {
 		lex.UnNext()
 	}
@@ -21,17 +25,17 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-		messageType += lex.Text
+		messageType.WriteString(lex.Text)
 
 		lex.Next()
 		if lex.Token != scanner.TDOT {
 			lex.UnNext()
 			break
 		}
-		messageType += lex.Text
+		messageType.WriteString(lex.Text)
 
 		lex.Next()
 	}
 
-	return messageType, startPos, nil
+	return messageType.String(), startPos, nil
 }
diff --git a/parser/option.go b/parser/option.go
index 21ee474..2a2d2d0 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -85,20 +85,20 @@ func (p *Parser) ParseOption() (*Option, error) {
 //
 // See https://cloud.google.com/endpoints/docs/grpc-service-config/reference/rpc/google.api
 func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
-	var ret string
+	var ret strings.Builder
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TLEFTCURLY {
 		return "", p.unexpected("{")
 	}
-	ret += p.lex.Text
+	ret.WriteString(p.lex.Text)
 
 	for {
 		p.lex.Next()
 		if p.lex.Token != scanner.TIDENT {
 			return "", p.unexpected("ident")
 		}
-		ret += p.lex.Text
+		ret.WriteString(p.lex.Text)
 
 		needSemi := false
 		p.lex.Next()
@@ -109,7 +109,7 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 			}
 			p.lex.UnNext()
 		case scanner.TCOLON:
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			if p.lex.Peek() == scanner.TLEFTCURLY && p.permissive {
 				needSemi = true
 			}
@@ -124,27 +124,27 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		ret += constant
+		ret.WriteString(constant)
 
 		p.lex.Next()
 		if p.lex.Token == scanner.TSEMICOLON && needSemi && p.permissive {
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			p.lex.Next()
 		}
 
 		switch {
 		case p.lex.Token == scanner.TCOMMA, p.lex.Token == scanner.TSEMICOLON:
-			ret += p.lex.Text
+			ret.WriteString(p.lex.Text)
 			if p.lex.Peek() == scanner.TRIGHTCURLY && p.permissive {
 				p.lex.Next()
-				ret += p.lex.Text
-				return ret, nil
+				ret.WriteString(p.lex.Text)
+				return ret.String(), nil
 			}
 		case p.lex.Token == scanner.TRIGHTCURLY:
-			ret += p.lex.Text
-			return ret, nil
+			ret.WriteString(p.lex.Text)
+			return ret.String(), nil
 		default:
-			ret += "\n"
+			ret.WriteString("\n")
 			p.lex.UnNext()
 		}
 	}
@@ -152,20 +152,20 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 
 // optionName = ( ident | "(" fullIdent ")" ) { "." ( ident | "(" fullIdent ")" ) }
 func (p *Parser) parseOptionName() (string, error) {
-	var optionName string
+	var optionName strings.Builder
 
 	p.lex.Next()
 	switch p.lex.Token {
 	case scanner.TIDENT:
-		optionName = p.lex.Text
+		optionName.WriteString(p.lex.Text)
 	case scanner.TLEFTPAREN:
-		optionName = p.lex.Text
+		optionName.WriteString(p.lex.Text)
 
 		// protoc accepts "(." fullIndent ")". See #63
 		if p.permissive {
 			p.lex.Next()
 			if p.lex.Token == scanner.TDOT {
-				optionName += "."
+				optionName.WriteString(".")
 			} else {
 				p.lex.UnNext()
 			}
@@ -175,13 +175,13 @@ func (p *Parser) parseOptionName() (string, error) {
 		if err != nil {
 			return "", err
 		}
-		optionName += fullIdent
+		optionName.WriteString(fullIdent)
 
 		p.lex.Next()
 		if p.lex.Token != scanner.TRIGHTPAREN {
 			return "", p.unexpected(")")
 		}
-		optionName += p.lex.Text
+		optionName.WriteString(p.lex.Text)
 	default:
 		return "", p.unexpected("ident or left paren")
 	}
@@ -192,20 +192,20 @@ func (p *Parser) parseOptionName() (string, error) {
 			p.lex.UnNext()
 			break
 		}
-		optionName += p.lex.Text
+		optionName.WriteString(p.lex.Text)
 
 		p.lex.Next()
 		switch p.lex.Token {
 		case scanner.TIDENT:
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 		case scanner.TLEFTPAREN:
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 
 			// protoc accepts "(." fullIndent ")". See #63
 			if p.permissive {
 				p.lex.Next()
 				if p.lex.Token == scanner.TDOT {
-					optionName += "."
+					optionName.WriteString(".")
 				} else {
 					p.lex.UnNext()
 				}
@@ -215,18 +215,18 @@ func (p *Parser) parseOptionName() (string, error) {
 			if err != nil {
 				return "", err
 			}
-			optionName += fullIdent
+			optionName.WriteString(fullIdent)
 
 			p.lex.Next()
 			if p.lex.Token != scanner.TRIGHTPAREN {
 				return "", p.unexpected(")")
 			}
-			optionName += p.lex.Text
+			optionName.WriteString(p.lex.Text)
 		default:
 			return "", p.unexpected("ident or bracedFullIdent")
 		}
 	}
-	return optionName, nil
+	return optionName.String(), nil
 }
 
 func (p *Parser) parseOptionConstant() (constant string, err error) {
-- 
2.43.0


From d539aeb5ba40fc4b71eba5fa91ba466f2cef59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:22 +0000
Subject: [PATCH 27/30] fix: limit the nesting depth, so that no input exhausts
 the stack

---
 parser/message.go |  4 ++++
 parser/option.go  |  8 ++++++++
 parser/parser.go  | 21 +++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/parser/message.go b/parser/message.go
index efc8846..bbb3a05 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -93,6 +93,10 @@ func (p *Parser) parseMessageBody() (
 	if p.lex.Token != scanner.TLEFTCURLY {
 		return nil, nil, scanner.Position{}, p.unexpected("{")
 	}
+	if err := p.nest(); err != nil {
+		return nil, nil, scanner.Position{}, err
+	}
+	defer p.unnest()
 
 	inlineLeftCurly := p.parseInlineComment()
 
diff --git a/parser/option.go b/parser/option.go
index 2a2d2d0..c55a7d6 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -91,6 +91,10 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 	if p.lex.Token != scanner.TLEFTCURLY {
 		return "", p.unexpected("{")
 	}
+	if err := p.nest(); err != nil {
+		return "", err
+	}
+	defer p.unnest()
 	ret.WriteString(p.lex.Text)
 
 	for {
@@ -253,6 +257,10 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", p.unexpected("constant or permissive mode")
 		}
 		p.lex.Next()
+		if err := p.nest(); err != nil {
+			return "", err
+		}
+		defer p.unnest()
 
 		// parses empty fields within an option
 		if p.lex.Peek() == scanner.TRIGHTSQUARE {
diff --git a/parser/parser.go b/parser/parser.go
index d07f670..1fd808c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,10 +2,17 @@ package parser
 
 import "github.com/yoheimuta/go-protoparser/v4/lexer"
 
+// maxNesting is how deep messages, groups and option constants can be nested.
+// It keeps a malicious input from exhausting the stack.
+const maxNesting = 10000
+
 // Parser is a parser.
 type Parser struct {
 	lex *lexer.Lexer
 
+	// nesting is how many messages, groups and option constants are open.
+	nesting int
+
 	permissive            bool
 	bodyIncludingComments bool
 }
@@ -39,6 +46,20 @@ func NewParser(lex *lexer.Lexer, opts ...ConfigOption) *Parser {
 	return p
 }
 
+// nest opens a nested message, group or option constant at the current token.
+func (p *Parser) nest() error {
+	if maxNesting <= p.nesting {
+		return p.unexpectedf("nesting of at most %d levels", maxNesting)
+	}
+	p.nesting++
+	return nil
+}
+
+// unnest closes what nest opened.
+func (p *Parser) unnest() {
+	p.nesting--
+}
+
 // IsEOF checks whether the lex's read buffer is empty.
 func (p *Parser) IsEOF() bool {
 	p.lex.Next()
-- 
2.43.0


From c60964e0402705a3b58e5fb0d26902143fd2da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:03 +0000
Subject: [PATCH 28/30] fix: find the comments of an rpc without looking at
 those of all others

---
 lexer/lexer.go           |  5 +++++
 lexer/scanner/scanner.go | 13 ++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index a636a15..e6c0bf6 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"path/filepath"
 	"runtime"
+	"sort"
 
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 )
@@ -200,6 +201,10 @@ func (lex *Lexer) ConsumeToken(t scanner.Token) {
 // FindMidComments finds comments between from and to.
 func (lex *Lexer) FindMidComments(from scanner.Position, to scanner.Position) []scanner.Text {
 	comments := lex.scanner.GetScannedComments()
+	comments = comments[sort.Search(len(comments), func(i int) bool {
+		return from.Offset < comments[i].Pos.Offset
+	}):]
+
 	var mid []scanner.Text
 	for _, c := range comments {
 		if from.Offset < c.Pos.Offset && c.Pos.Offset < to.Offset {
diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 470370c..0d1d12a 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -27,7 +27,7 @@ type Scanner struct {
 	// The Mode field controls which tokens are recognized.
 	Mode Mode
 
-	// comments are all the uniquely scanned comments.
+	// comments are all the uniquely scanned comments, ordered by their offset.
 	comments []Text
 
 	// scannedComments is the set of comments.
@@ -137,7 +137,7 @@ func (s *Scanner) SetLastScanRaw(raw []rune) {
 	s.lastScanRaw = raw
 }
 
-// GetScannedComments returns all the uniquely scanned comments.
+// GetScannedComments returns all the uniquely scanned comments, ordered by their offset.
 func (s *Scanner) GetScannedComments() []Text {
 	return s.comments
 }
@@ -148,7 +148,14 @@ func (s *Scanner) addComment(c Text) {
 		return
 	}
 	s.scannedComments[key] = struct{}{}
-	s.comments = append(s.comments, c)
+
+	i := len(s.comments)
+	for 0 < i && c.Pos.Offset < s.comments[i-1].Pos.Offset {
+		i--
+	}
+	s.comments = append(s.comments, Text{})
+	copy(s.comments[i+1:], s.comments[i:])
+	s.comments[i] = c
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
-- 
2.43.0


From c24bfdb7ae8b4fa639e0b9f3bddecd47a152c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:28 +0000
Subject: [PATCH 29/30] fix: skip comments without recursion, so that many do
 not exhaust the stack

---
 lexer/scanner/scanner.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 0d1d12a..0fd90eb 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -159,6 +159,16 @@ func (s *Scanner) addComment(c Text) {
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
+	for {
+		tok, lit, pos, err := s.scanWithComment()
+		if tok != TCOMMENT || s.Mode&ScanComment != 0 {
+			return tok, lit, pos, err
+		}
+	}
+}
+
+// scanWithComment scans the next token, which is a comment in every mode.
+func (s *Scanner) scanWithComment() (Token, string, Position, error) {
 	ch := s.peek()
 	for unicode.IsSpace(ch) {
 		s.read()
@@ -188,10 +198,7 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 			return TILLEGAL, "", startPos, err
 		}
 		s.addComment(Text{Literal: lit, Pos: startPos})
-		if s.Mode&ScanComment != 0 {
-			return TCOMMENT, lit, startPos, nil
-		}
-		return s.scan()
+		return TCOMMENT, lit, startPos, nil
 	case isQuote(ch) && s.Mode&ScanStrLit != 0:
 		lit, err := s.scanStrLit()
 		if err != nil {
-- 
2.43.0


From b47daecfb9ed5d36526bfa5e551c9c7a310127a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:04 +0000
Subject: [PATCH 30/30] fix: keep both comments behind a declaration

---
 parser/extensions.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 9cd4e32..939d0f7 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -109,21 +109,11 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 		if token != scanner.TRIGHTSQUARE && token != scanner.TCOMMA {
 			return nil, nil, p.unexpected(", or ]")
 		}
-		inlineComment1 := p.parseInlineComment()
+		// A further comment on that line belongs to the next declaration.
+		declaration.SetInlineComment(p.parseInlineComment())
 		if token == scanner.TRIGHTSQUARE {
-			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
 }
-
-// assignInlineComments assigns inline comments to a declaration, ensuring proper order.
-func (p *Parser) assignInlineComments(declaration *Declaration, comments ...*Comment) {
-	for _, comment := range comments {
-		if comment != nil {
-			declaration.SetInlineComment(comment)
-		}
-	}
-}
-- 
2.43.0

