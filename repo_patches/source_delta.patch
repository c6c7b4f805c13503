From 30d8eb53f967d82e6c95edf2c270b7d38d7be75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 01/34] fix: keep scanner locations exact across pushback, end
 of input and CRLF

Unreading at end of input moved the column (and sometimes the row) back
although nothing had been consumed, and CRLF counted as two lines.
---
 ecmascript/lexer/scanner.go | 78 +++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 43 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..37418c0 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -12,12 +12,24 @@ import (
 // EOFRune is returned when the scanner hits an EOF error.
 const EOFRune = rune(-1)
 
+// position is a position in the source, as tracked by Scanner.
+type position struct {
+	col, row int
+
+	// cr is set when the last rune was a carriage return; if the next rune is
+	// a line feed, it belongs to the same line terminator.
+	cr bool
+}
+
 // Scanner provides additional logic on top of a RuneScanner.
 type Scanner struct {
 	r io.RuneScanner
 
-	uri      *url.URL
-	col, row int
+	uri *url.URL
+
+	// pos is the position of the next rune, prev is the position of the last
+	// rune that was read.
+	pos, prev position
 
 	eof bool
 }
@@ -27,23 +39,16 @@ func NewScanner(r io.RuneScanner, uri *url.URL) *Scanner {
 	return &Scanner{
 		r:   r,
 		uri: uri,
-		col: 1,
-		row: 1,
+		pos: position{col: 1, row: 1},
 	}
 }
 
 // Location returns the current source code location.
 func (s *Scanner) Location() ast.Location {
-	column := s.col
-
-	if column < 0 {
-		column = 1
-	}
-
 	return ast.Location{
 		URI:    s.uri,
-		Column: column,
-		Row:    s.row,
+		Column: s.pos.col,
+		Row:    s.pos.row,
 	}
 }
 
@@ -63,24 +68,19 @@ func (s *Scanner) Read() rune {
 		})
 	}
 
-	// Increment source location. On newline, we set col to -col. This allows
-	// us to know when we're unreading a line terminator (because col will be
-	// negative) and what to restore it to without needing additional state.
+	// Advance source location, remembering the position of this rune in case
+	// it is unread.
+	s.prev = s.pos
 	if _, ok := lineterms[r]; ok {
-		s.row++
-		if s.col > 0 {
-			// Last read was not a newline
-			s.col = -s.col
-		} else if s.col < 0 {
-			// Last read was a newline- treat it as having been column 1.
-			s.col = -1
+		// A CRLF pair is a single line terminator.
+		if r != '\n' || !s.pos.cr {
+			s.pos.row++
 		}
+		s.pos.col = 1
 	} else {
-		if s.col < 0 {
-			s.col = 1
-		}
-		s.col++
+		s.pos.col++
 	}
+	s.pos.cr = r == '\r'
 
 	return r
 }
@@ -88,24 +88,16 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		return
 	}
 
-	// If negative: we just read a line terminal rune. Invert col and
-	// decrement row.
-	// If positive: we read any other rune. Just decrement col.
-	if s.col < 0 {
-		s.col = -s.col
-		s.row--
-	} else {
-		s.col--
+	if err := s.r.UnreadRune(); err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
+
+	s.pos = s.prev
 }
-- 
2.43.0


From a54243a730120a2640522f0d3cb79a98e09ecec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 02/34] fix: treat end of input as final in the scanner

The scanner kept reading a stream that had reported end of input. If the
stream had grown since, the new characters were parsed as if they had been
there all along, and characters that needed to be pushed back were lost.
---
 ecmascript/lexer/scanner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index 37418c0..839977d 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -52,8 +52,13 @@ func (s *Scanner) Location() ast.Location {
 	}
 }
 
-// Read reads a rune and returns it. On EOF, EOFRune is returned.
+// Read reads a rune and returns it. On EOF, EOFRune is returned; once this
+// happens, the underlying RuneScanner is not read from anymore.
 func (s *Scanner) Read() rune {
+	if s.eof {
+		return EOFRune
+	}
+
 	r, _, err := s.r.ReadRune()
 
 	if errors.Is(err, io.EOF) {
-- 
2.43.0


From 7b63c3a234daa57774c04a859f2affc1169ead42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 03/34] fix: report invalid UTF-8 as an encoding error

Bytes that could not be decoded silently became replacement characters.
---
 ecmascript/lexer/scanner.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index 839977d..6cb8f7d 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"net/url"
+	"unicode/utf8"
 
 	"github.com/jchv/cleansheets/ecmascript/ast"
 	"github.com/jchv/cleansheets/ecmascript/errs"
@@ -59,7 +60,7 @@ func (s *Scanner) Read() rune {
 		return EOFRune
 	}
 
-	r, _, err := s.r.ReadRune()
+	r, size, err := s.r.ReadRune()
 
 	if errors.Is(err, io.EOF) {
 		s.eof = true
@@ -73,6 +74,15 @@ func (s *Scanner) Read() rune {
 		})
 	}
 
+	// RuneReaders yield a replacement character with a size of one byte for
+	// each byte they can not decode.
+	if r == utf8.RuneError && size == 1 {
+		panic(&errs.EncodingError{
+			Location: s.Location(),
+			Err:      errors.New("invalid UTF-8 sequence"),
+		})
+	}
+
 	// Advance source location, remembering the position of this rune in case
 	// it is unread.
 	s.prev = s.pos
-- 
2.43.0


From 89167d3d491919ed0b8f017dd94ab3f88cd70301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 04/34] fix: record the location of each peeked token

Peeking further than one token recorded the location of the first peeked
token for all of them.
---
 ecmascript/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..2d13d46 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
-- 
2.43.0


From d0ef3c0a4d8c4565b6961564e52b4369ba5b5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 05/34] fix: re-panic with the recovered value in Parse

The default case re-panicked with the (nil) error result, hiding the
original panic value.
---
 ecmascript/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..ecf5288 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
-- 
2.43.0


From 4256b7e54189c93a75630fe1a36f1cc9d28698cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 06/34] fix: return an error for unimplemented syntax instead
 of panicking

with, debugger and export made Parse panic into the caller.
---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/module.go     | 3 ++-
 ecmascript/parser/scanner.go    | 9 +++++++++
 ecmascript/parser/statement.go  | 6 ++++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..9a343a8 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.s.Unimplemented("template literal")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..9982035 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.s.Unimplemented("export declaration")
+	return nil
 }
diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 2d13d46..a927d24 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -85,3 +85,12 @@ func (s *Scanner) SyntaxError(err string) {
 		Err:      errors.New(err),
 	})
 }
+
+// Unimplemented panics with a parser error stating that the given language
+// feature is not implemented.
+func (s *Scanner) Unimplemented(feature string) {
+	panic(&errs.ParserError{
+		Location: s.Location(),
+		Err:      fmt.Errorf("unimplemented: %s", feature),
+	})
+}
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..ce5afc9 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.s.Unimplemented("with statement")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.s.Unimplemented("debugger statement")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From 0e28b33f673420cb0fde39aa005fe2b45866a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:15 +0000
Subject: [PATCH 07/34] fix: render import declarations to ESTree

Rendering a module containing an import declaration panicked.
---
 ecmascript/ast/module.go | 54 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..a0231fc 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -55,7 +55,42 @@ type ImportDeclNode struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	e := struct {
+		Type       string        `json:"type"`
+		Specifiers []interface{} `json:"specifiers"`
+		Source     interface{}   `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []interface{}{},
+		Source: struct {
+			Type  string `json:"type"`
+			Value string `json:"value"`
+		}{
+			Type:  "Literal",
+			Value: n.Module,
+		},
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, estreeImport("ImportDefaultSpecifier", n.DefaultBinding.Identifier))
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, estreeImport("ImportNamespaceSpecifier", n.NameSpace.Identifier))
+	}
+	for _, named := range n.NamedImports {
+		e.Specifiers = append(e.Specifiers, named.ESTree())
+	}
+	return e
+}
+
+// estreeImport returns an import specifier that only has a local binding.
+func estreeImport(typ, local string) interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  typ,
+		Local: estreeIdent(local),
+	}
 }
 
 // ImportDefaultBinding contains the default import identifier.
@@ -73,3 +108,20 @@ type NamedImport struct {
 	Identifier string
 	AsBinding  string
 }
+
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NamedImport) ESTree() interface{} {
+	local := n.AsBinding
+	if local == "" {
+		local = n.Identifier
+	}
+	return struct {
+		Type     string      `json:"type"`
+		Imported interface{} `json:"imported"`
+		Local    interface{} `json:"local"`
+	}{
+		Type:     "ImportSpecifier",
+		Imported: estreeIdent(n.Identifier),
+		Local:    estreeIdent(local),
+	}
+}
-- 
2.43.0


From 19e52b9c6d32e92123f4939eecf3acb677c7de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 08/34] fix: handle elisions and shorthand properties in
 ContainsTemporalNodes

A parenthesized array with an elision, ([,]), or object with a shorthand
property, ({a}), crashed the parser with a nil dereference.
---
 ecmascript/ast/expressions.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..6eeff52 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,8 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		// Elided elements are nil.
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +397,11 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		if prop.Key.ContainsTemporalNodes() {
+			return true
+		}
+		// Shorthand properties have no value.
+		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
-- 
2.43.0


From c9d388bcc53c69ed58ad81511e8147b3ecb2df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 09/34] fix: keep arrow parameter productions out of operands

Empty parameter lists and rest elements were accepted in every operand
inside of parentheses, so (1+) and (a + ...b) parsed to trees that can not
be rendered, and ([) never stopped parsing.
---
 ecmascript/ast/expressions_binary.go |  6 +++
 ecmascript/parser/expression.go      | 72 ++++++++++++++++++++--------
 ecmascript/parser/parser.go          |  4 ++
 3 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..0ee61fe 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -284,3 +284,9 @@ func (n AssignmentExpression) ESTree() interface{} {
 		Right:    estree(n.Right),
 	}
 }
+
+// ContainsTemporalNodes returns true if the node contains any temporal
+// children.
+func (n AssignmentExpression) ContainsTemporalNodes() bool {
+	return n.Left.ContainsTemporalNodes()
+}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9a343a8..b1f7bd7 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -35,7 +35,14 @@ type exprFlags int
 
 const (
 	exprFlagDisallowIn exprFlags = 1 << iota
+
+	// exprFlagMaybeArrow is set for the direct contents of parentheses which
+	// may turn out to be the parameter list of an arrow function.
 	exprFlagMaybeArrow
+
+	// exprFlagMaybePattern is set for array and object literals which may turn
+	// out to be binding patterns of arrow function parameters.
+	exprFlagMaybePattern
 )
 
 // parseExpression parses an expression up to a certain level of operator
@@ -63,8 +70,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				Identifier: p.forceScanIdent("unexpected token"),
 			}
 		}
+		flags |= exprFlagMaybePattern
 	}
 
+	// Productions that are only valid in arrow function parameters do not
+	// extend to the operands of an operator.
+	operandFlags := flags &^ (exprFlagMaybeArrow | exprFlagMaybePattern)
+
 	var n ast.Node
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
@@ -82,10 +94,26 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return n
 	}
 
+	// checkpattern ensures that an array or object literal that can only be a
+	// pattern is not used as an operand.
+	patternOnly := p.patternOnly
+	checkpattern := func() {
+		if p.patternOnly == patternOnly {
+			return
+		}
+		switch p.s.PeekAt(0).Type {
+		case lexer.TokenPunctuatorComma, lexer.TokenPunctuatorAssign,
+			lexer.TokenPunctuatorCloseParen, lexer.TokenPunctuatorCloseBracket,
+			lexer.TokenPunctuatorCloseBrace:
+		default:
+			p.s.SyntaxError("unexpected pattern in expression")
+		}
+	}
+
 	wrapbinary := func(op ast.BinaryOperator, next exprOrder) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
-		m.Right = p.parseExpression(next, flags)
+		m.Right = p.parseExpression(next, operandFlags)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -94,7 +122,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	wrapassign := func(op ast.AssignmentOperator, next exprOrder) ast.Node {
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
-		m.Right = p.parseExpression(next, flags)
+		m.Right = p.parseExpression(next, operandFlags)
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -112,24 +140,24 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Unary operators
 	case lexer.TokenPunctuatorIncrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreIncrementOp, Argument: p.parseExpression(exprOrderLHSExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorDecrement:
 		// TODO: should add order for update operator?
-		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePreDecrementOp, Argument: p.parseExpression(exprOrderLHSExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordDelete:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryDeleteOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordVoid:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryVoidOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenKeywordTypeOf:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryTypeOfOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryTypeOfOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorPlus:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryPlusOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryPlusOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorMinus:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryMinusOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryMinusOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorBitNot:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryBitNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryBitNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 	case lexer.TokenPunctuatorNot:
-		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, flags)}, exprOrderUnaryExpr)
+		n = wrap(&ast.UnaryExpression{Operator: ast.UnaryNotOp, Argument: p.parseExpression(exprOrderUnaryExpr, operandFlags)}, exprOrderUnaryExpr)
 
 	// Primary Expression
 	case lexer.TokenKeywordThis:
@@ -198,13 +226,15 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenLiteralString:
 		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
 	case lexer.TokenPunctuatorOpenBracket:
-		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseArrayTail(s, flags&exprFlagMaybePattern)
+		checkpattern()
 	case lexer.TokenPunctuatorOpenBrace:
-		n = p.parseObjectTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseObjectTail(s, flags&exprFlagMaybePattern)
+		checkpattern()
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
-		ctor := p.parseExpression(exprOrderMemberExpr, flags)
+		ctor := p.parseExpression(exprOrderMemberExpr, operandFlags)
 		m := ast.NewExpression{
 			Callee: ctor,
 		}
@@ -804,7 +834,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
 		}
-		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
+		if flags&exprFlagMaybePattern != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
 			switch p.s.PeekAt(0).Type {
@@ -820,6 +850,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 				p.s.SyntaxError("missing variable name")
 			}
 			n.Elements = append(n.Elements, rest)
+			p.patternOnly++
 			break
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
@@ -849,7 +880,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		t := p.s.PeekAt(0).Type
 
 		// Valid when parsing possible arrow function parameters
-		if flags&exprFlagMaybeArrow != 0 &&
+		if flags&exprFlagMaybePattern != 0 &&
 			t == lexer.TokenPunctuatorAssign {
 			return true
 		}
@@ -927,8 +958,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			case lexer.TokenPunctuatorEllipsis:
 				// For possible-arrow-function: parse rest binding.
-				if flags&exprFlagMaybeArrow != 0 {
+				if flags&exprFlagMaybePattern != 0 {
 					n.Properties = append(n.Properties, ast.Property{Key: parseRest()})
+					p.patternOnly++
 					p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 					return n
 				}
@@ -971,7 +1003,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderComma, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -998,9 +1030,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
 			prop.Value = p.parseExpression(exprOrderAssign, flags)
 
-		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
+		case flags&exprFlagMaybePattern != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index ecf5288..698e3cc 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -31,6 +31,10 @@ type ParseOptions struct {
 type Parser struct {
 	s   *Scanner
 	ctx parseContext
+
+	// patternOnly counts the productions parsed in array and object literals
+	// so far which are only valid in patterns.
+	patternOnly int
 }
 
 // NewParser creates a new parser.
-- 
2.43.0


From 8f3761244306460abbbcbbf114de5b535b418e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:27 +0000
Subject: [PATCH 10/34] fix: reject shorthand initializers outside of patterns

({a = 1}) was accepted as an object literal.
---
 ecmascript/parser/expression.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b1f7bd7..30f9367 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -192,6 +192,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					// expression to be a parameter list.
 					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 					params := p.convertExprToArrowParams(inner)
+					p.patternOnly = patternOnly
 					m := ast.FunctionExpression{
 						Params: params,
 						Body:   p.parseBlockOrShorthand(),
@@ -278,6 +279,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// expression to be a parameter list.
 			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 			params := p.convertExprToArrowParams(inner)
+			p.patternOnly = patternOnly
 			m := ast.FunctionExpression{
 				Params: params,
 				Body:   p.parseBlockOrShorthand(),
@@ -288,7 +290,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			n = m
 		} else {
 			// Was not an arrow. Deal disallowed syntax retroactively.
-			if _, ok := inner.(ast.TemporalEmptyArrowHead); ok || inner.ContainsTemporalNodes() {
+			if p.patternOnly != patternOnly || inner.ContainsTemporalNodes() {
 				p.s.SyntaxError("expected `=>` operator")
 			}
 
@@ -603,6 +605,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorAssign {
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=` operator")
+			p.patternOnly = patternOnly
 			n = wrapassign(ast.AssignmentOp, exprOrderAssign)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorMultAssign {
@@ -1033,6 +1036,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case flags&exprFlagMaybePattern != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
+			p.patternOnly++
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From c51bcbc244e52be6f9ceb53506989d46689a49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 11/34] fix: remove leftover debug output from arrow parameter
 conversion

Parsing an arrow function with an object pattern printed to stdout.
---
 ecmascript/parser/expression.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 30f9367..f691b57 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -760,7 +760,6 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
 				if key, ok := prop.Key.(ast.Identifier); ok {
 					binding.PropertyName = key.Name
 				}
-- 
2.43.0


From 0db481d90ec26883f401a337e3dd025fd5b18d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 12/34] fix: convert the arguments of calls to async properly

Calls with an empty argument list or spread arguments left temporary nodes
in the tree, which panic when rendered.
---
 ecmascript/parser/expression.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index f691b57..30b413f 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -204,6 +204,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					n = m
 				} else {
 					// This was a call to a function named "async"
+					if p.patternOnly != patternOnly {
+						p.s.SyntaxError("unexpected pattern in expression")
+					}
 					n = ast.CallExpression{
 						Callee:    ast.Identifier{Name: t.Literal},
 						Arguments: p.convertExprToCallParams(inner),
@@ -815,11 +818,25 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
-	if args, ok := inner.(ast.SequenceExpression); ok {
-		return args.Expressions
-	} else {
-		return []ast.Node{inner}
+	exprs := []ast.Node{inner}
+	if seq, ok := inner.(ast.SequenceExpression); ok {
+		exprs = seq.Expressions
+	}
+	args := []ast.Node{}
+	for _, e := range exprs {
+		switch t := e.(type) {
+		case ast.TemporalEmptyArrowHead:
+			// Empty argument list, or trailing comma.
+		case ast.TemporalFloatingRestElement:
+			args = append(args, ast.SpreadElement{Argument: ast.Identifier{Name: t.Identifier}})
+		default:
+			if e.ContainsTemporalNodes() {
+				p.s.SyntaxError("unexpected pattern in expression")
+			}
+			args = append(args, e)
+		}
 	}
+	return args
 }
 
 // Parses an array assuming a `[` was already consumed.
-- 
2.43.0


From f580ed2acbeed7814a765a3e3ae106d346c0e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 13/34] fix: do not loop forever in switch statements

A declaration or the end of input in a case, or anything but a case clause
in the body, kept the parser looping without consuming anything.
---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index ce5afc9..27245af 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -485,7 +485,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -500,7 +500,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -508,6 +508,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}` in switch statement")
 		}
 	}
 }
-- 
2.43.0


From 2c69a7ee08bee303e9808fd8b07e7f9f41438a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 14/34] fix: require the sub-statements of compound statements

if, else, loops and labels were accepted without a body, so a program cut
short after if (x) passed for complete.
---
 ecmascript/parser/statement.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 27245af..2e5d2b4 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -18,6 +18,19 @@ func (p *Parser) parseStatementItem() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses the statement that a compound statement requires.
+func (p *Parser) parseSubStatement() ast.Node {
+	if n := p.parseStatement(); n != nil {
+		return n
+	}
+	// For compatibility, sloppy mode code may have function declarations here.
+	if p.s.PeekAt(0).Type == lexer.TokenKeywordFunction {
+		return p.parseDeclaration()
+	}
+	p.s.SyntaxError("expected statement")
+	return nil
+}
+
 func (p *Parser) parseStatement() ast.Node {
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
@@ -362,10 +375,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -376,7 +389,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -394,7 +407,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -429,7 +442,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -441,7 +454,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -456,7 +469,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -639,6 +652,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From 44aca3e4f4893429c01b8ac7ab7aa1e01ff9a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 15/34] fix: require catch or finally after a try block

---
 ecmascript/parser/statement.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 2e5d2b4..83dac0a 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -623,6 +623,9 @@ func (p *Parser) parseTryStatement() ast.Node {
 		p.s.ScanExpect(lexer.TokenKeywordFinally, "expected finally statement")
 		n.Finalizer = p.parseBlock()
 	}
+	if n.Handler == nil && n.Finalizer == nil {
+		p.s.SyntaxError("expected `catch` or `finally` after try block")
+	}
 	return n
 }
 
-- 
2.43.0


From d5dce693462f4e37b6883c991a9371ad87a52245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 16/34] fix: require initializers of constants and
 destructuring declarations

A program cut short in front of the initializer passed for complete.
---
 ecmascript/parser/declaration.go |  1 +
 ecmascript/parser/statement.go   | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..da39ec5 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -38,6 +38,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 
 func (p *Parser) parseLexicalDeclaration() ast.VariableDeclaration {
 	n := p.parseLexicalDeclarationNoSemicolon()
+	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 83dac0a..4af91c4 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -171,6 +171,7 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 
 func (p *Parser) parseVariableStatement() ast.VariableDeclaration {
 	n := p.parseVariableStatementNoSemicolon()
+	p.checkInitializers(n)
 	p.expectSemicolon()
 	p.setEnd(&n)
 	return n
@@ -186,6 +187,19 @@ func (p *Parser) parseVariableStatementNoSemicolon() ast.VariableDeclaration {
 	return n
 }
 
+// checkInitializers ensures that every declaration that needs an initializer
+// has one. The declarations in the head of for/in and for/of do not need any.
+func (p *Parser) checkInitializers(n ast.VariableDeclaration) {
+	for _, v := range n.Declarations {
+		if v.Init != nil {
+			continue
+		}
+		if n.Kind == ast.ConstDeclaration || v.ID.ArrayPattern != nil || v.ID.ObjectPattern != nil {
+			p.s.SyntaxError("missing initializer in declaration")
+		}
+	}
+}
+
 func (p *Parser) parseVariableDeclarations() []ast.VariableDeclarator {
 	v := []ast.VariableDeclarator{}
 	for {
@@ -458,6 +472,9 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.setEnd(&m)
 			return m
 		}
+		if decl, ok := v.(ast.VariableDeclaration); ok {
+			p.checkInitializers(decl)
+		}
 		n.Init = v
 		p.expectSemicolon()
 	}
-- 
2.43.0


From 5dc82f4fb34f5535e341440f117f0c9517934993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 17/34] fix: do not panic on numeric literals

BigInt zero, large binary, octal, hexadecimal and decimal literals and
exponents without digits made Parse panic, and infinite values could not be
encoded to JSON.
---
 ecmascript/ast/expressions_literal.go | 15 +++++++++++----
 ecmascript/lexer/lexer.go             | 11 +++++++++++
 ecmascript/lexer/token.go             | 17 ++++++++++++-----
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/ecmascript/ast/expressions_literal.go b/ecmascript/ast/expressions_literal.go
index 4958638..8ff3f46 100644
--- a/ecmascript/ast/expressions_literal.go
+++ b/ecmascript/ast/expressions_literal.go
@@ -1,5 +1,7 @@
 package ast
 
+import "math"
+
 // NullLiteral is a node containing a null literal.
 //
 // For example:
@@ -108,13 +110,18 @@ type NumberLiteral struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n NumberLiteral) ESTree() interface{} {
+	// Infinity can not be represented in JSON.
+	var value interface{}
+	if !math.IsInf(n.Value, 0) {
+		value = n.Value
+	}
 	return struct {
-		Type  string  `json:"type"`
-		Value float64 `json:"value"`
-		Raw   string  `json:"raw"`
+		Type  string      `json:"type"`
+		Value interface{} `json:"value"`
+		Raw   string      `json:"raw"`
 	}{
 		Type:  "Literal",
-		Value: n.Value,
+		Value: value,
 		Raw:   n.Raw,
 	}
 }
diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..c27bed3 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -422,6 +422,17 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	}
 	lit.WriteRune(r)
 
+	if r == '+' || r == '-' {
+		r = l.s.Read()
+		if !isDecimalDigit(r) {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
+			})
+		}
+		lit.WriteRune(r)
+	}
+
 	for {
 		r = l.s.Read()
 		if isDecimalDigit(r) {
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..61e9697 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,8 +1,11 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
+	"strings"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -385,15 +388,19 @@ func (t Token) StringConstant() string {
 	return t.Literal[1 : len(t.Literal)-1]
 }
 
-// NumberConstant returns the parsed value for a numeric constant.
+// NumberConstant returns the parsed value for a numeric constant. As specified
+// by ECMAScript, values that are too large become infinity.
 func (t Token) NumberConstant() float64 {
 	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	lit := strings.TrimSuffix(t.Literal, "n")
+	v, err := strconv.ParseFloat(lit, 64)
+	if err == nil || errors.Is(err, strconv.ErrRange) {
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
-	if err != nil {
+	i, ok := new(big.Int).SetString(lit, 0)
+	if !ok {
 		panic(err)
 	}
-	return float64(v)
+	v, _ = new(big.Float).SetInt(i).Float64()
+	return v
 }
-- 
2.43.0


From ff4a0a5dac7d6db995e121ed22520b4fc70e07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 18/34] fix: report failed separator writes in estree

The separator between documents could be lost with exit status 0.
---
 cmd/estree/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index 1f3fe2f..ed3dee3 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -23,7 +23,9 @@ func main() {
 	for i, filename := range flag.Args() {
 		// Write separator if multiple files.
 		if i != 0 {
-			os.Stdout.Write([]byte("\n---\n"))
+			if _, err := os.Stdout.Write([]byte("\n---\n")); err != nil {
+				log.Fatalf("Error while writing separator: %v", err)
+			}
 		}
 
 		// Open file for reading and create a buffered reader.
-- 
2.43.0


From c69e10ccce4c8844e4b5685edf78b6c1b3b86010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 19/34] fix: close each file after parsing it in estree

All files were kept open until the end, so long lists ran out of file
descriptors.
---
 cmd/estree/main.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index ed3dee3..54134c7 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -33,11 +33,6 @@ func main() {
 		if err != nil {
 			log.Fatalf("Could not open file for reading: %q", filename)
 		}
-		defer func(file *os.File) {
-			if err := file.Close(); err != nil {
-				log.Printf("Warning: Error closing file: %v", err)
-			}
-		}(file)
 		reader := bufio.NewReader(file)
 
 		// Try to calculate a file URL.
@@ -56,6 +51,11 @@ func main() {
 			log.Fatalf("Could not parse ECMAscript file %q: %v", filename, err)
 		}
 
+		// Close the file right away, there may be many more.
+		if err := file.Close(); err != nil {
+			log.Printf("Warning: Error closing file: %v", err)
+		}
+
 		// Output ESTree AST.
 		err = encoder.Encode(script.ESTree())
 		if err != nil {
-- 
2.43.0


From c0280d06fa8e3f457b7c75da98f5b88934529ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 20/34] fix: state why a file could not be opened in estree

---
 cmd/estree/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/estree/main.go b/cmd/estree/main.go
index 54134c7..a60aec7 100644
--- a/cmd/estree/main.go
+++ b/cmd/estree/main.go
@@ -31,7 +31,7 @@ func main() {
 		// Open file for reading and create a buffered reader.
 		file, err := os.Open(filename)
 		if err != nil {
-			log.Fatalf("Could not open file for reading: %q", filename)
+			log.Fatalf("Could not open file for reading: %q: %v", filename, err)
 		}
 		reader := bufio.NewReader(file)
 
-- 
2.43.0


From 26c2bde7d6d28aee3b662e8d807443dc35a1d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 21/34] fix: show the message about an exited bundle

After a successful parse the error element is hidden, so the message was
never seen.
---
 web/parser/index.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/parser/index.html b/web/parser/index.html
index 56776ab..5a01e91 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -171,6 +171,7 @@ console.log("Hello, world.");`;
 
             go.exit = (code) => {
                 errorEl.innerText = `WASM bundle unexpectedly exited! (exit code ${code}) - check console for more details`;
+                errorEl.style.display = "block";
             };
 
             // Polyfill for browsers who can't be assed to support APIs from as
-- 
2.43.0


From b33e8ed32f430a53dc5a0286311d5616b30340e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 22/34] fix: show errors that occur while the bundle is
 starting

The promise returned by go.run was dropped, so a bundle that failed to start
left the page at [Starting runtime...] without any message.
---
 web/parser/index.html | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/parser/index.html b/web/parser/index.html
index 5a01e91..845319b 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -186,10 +186,11 @@ console.log("Hello, world.");`;
             WebAssembly.instantiateStreaming(fetch("parser.wasm"), go.importObject)
                 .then(result => {
                     outputEl.value = "[Starting runtime...]";
-                    go.run(result.instance);
+                    return go.run(result.instance);
                 }).catch(err => {
                     outputEl.value = "[Error]";
                     errorEl.innerText = `An error occurred while loading the WASM bundle: ${err}`;
+                    errorEl.style.display = "block";
                 });
         })();
         </script>
-- 
2.43.0


From 039d80d7ecbfcc7a1a12ec4100d2ad04fb2e71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 23/34] fix: limit the depth of syntax trees

Deeply nested source exhausted the stack, which ends the process. The limit
also keeps every tree within what can be encoded to JSON (in browsers, the
call stack is much smaller).
---
 ecmascript/parser/declaration.go |  5 ++++
 ecmascript/parser/expression.go  | 18 ++++++++++++-
 ecmascript/parser/parser.go      | 44 ++++++++++++++++++++++++++++++++
 ecmascript/parser/statement.go   | 11 ++++++++
 4 files changed, 77 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index da39ec5..8189d46 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -6,6 +6,8 @@ import (
 )
 
 func (p *Parser) parseDeclaration() ast.Node {
+	defer p.leave(p.enter())
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenKeywordFunction:
 		return p.parseFunctionDeclaration()
@@ -80,6 +82,9 @@ func (p *Parser) parseClassDeclaration() ast.Node {
 }
 
 func (p *Parser) parseClassBody() []ast.Node {
+	defer p.leave(p.enter())
+	defer p.leave(p.enter()) // methods are nested in definitions
+
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected '{'")
 
 	n := []ast.Node{}
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 30b413f..e466469 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -58,6 +58,8 @@ const (
 // operator. Note that flags may or may not propagate to sub-expressions,
 // depending on exactly what kind of sub-expression it is.
 func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
+	defer p.leave(p.enter())
+
 	if flags&exprFlagMaybeArrow != 0 {
 		switch p.s.PeekAt(0).Type {
 		case lexer.TokenPunctuatorCloseParen:
@@ -329,7 +331,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return n
 	}
 
-	for {
+	for first := true; ; first = false {
+		// Each iteration past the first one has wrapped the expression in
+		// another node, except if an element was added to a sequence.
+		if _, ok := n.(ast.SequenceExpression); !first && !ok {
+			p.extend()
+		}
+
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
 		if t.Type == lexer.TokenPunctuatorDot {
@@ -841,6 +849,8 @@ func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
 
 // Parses an array assuming a `[` was already consumed.
 func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
+	defer p.leave(p.enter())
+
 	n := ast.ArrayExpression{}
 	n.SetStart(start)
 	defer p.setEnd(&n)
@@ -888,6 +898,8 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parses an object assuming a `{` was already consumed.
 func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
+	defer p.leave(p.enter())
+
 	n := ast.ObjectExpression{}
 	n.SetStart(start)
 	defer p.setEnd(&n)
@@ -1147,6 +1159,8 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 // Parses arguments.
 func (p *Parser) parseArguments() []ast.Node {
+	defer p.leave(p.enter())
+
 	n := []ast.Node{}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(`")
@@ -1182,6 +1196,8 @@ func (p *Parser) parseParameters() ast.FormalParameters {
 }
 
 func (p *Parser) parseParametersTail() ast.FormalParameters {
+	defer p.leave(p.enter())
+
 	n := ast.FormalParameters{}
 
 	for {
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 698e3cc..3b3fe98 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/jchv/cleansheets/ecmascript/ast"
@@ -35,6 +36,10 @@ type Parser struct {
 	// patternOnly counts the productions parsed in array and object literals
 	// so far which are only valid in patterns.
 	patternOnly int
+
+	// depth is the nesting depth of the production that is being parsed, and
+	// height is the depth of the deepest node it contains so far.
+	depth, height int
 }
 
 // NewParser creates a new parser.
@@ -70,6 +75,45 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 	}
 }
 
+// maxDepth is the maximum depth of a syntax tree. It has to be low enough for
+// a tree to be parsed, rendered to ESTree and encoded to JSON within the call
+// stack that is available to WebAssembly in browsers.
+const maxDepth = 2500
+
+// enter enters a nested production. Ideal for use with defer; the result is to
+// be passed to leave. Most productions result in up to two levels of JSON.
+func (p *Parser) enter() int {
+	height := p.height
+	p.depth += 2
+	p.height = p.depth
+	p.checkHeight()
+	return height
+}
+
+// leave leaves a nested production.
+func (p *Parser) leave(height int) {
+	p.depth -= 2
+	if p.height < height {
+		p.height = height
+	}
+}
+
+// extend accounts for the nodes parsed by the current production being wrapped
+// in another node.
+func (p *Parser) extend() {
+	p.height++
+	p.checkHeight()
+}
+
+func (p *Parser) checkHeight() {
+	if p.height > maxDepth {
+		panic(&errs.ParserError{
+			Location: p.s.Location(),
+			Err:      errors.New("nesting too deep"),
+		})
+	}
+}
+
 // scanIdent expects an identifier.
 func (p *Parser) scanIdent(err string) string {
 	return p.expectIdent(p.s.Scan(), err)
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 4af91c4..2fdf576 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -32,6 +32,8 @@ func (p *Parser) parseSubStatement() ast.Node {
 }
 
 func (p *Parser) parseStatement() ast.Node {
+	defer p.leave(p.enter())
+
 	switch p.s.PeekAt(0).Type {
 	case lexer.TokenPunctuatorOpenBrace:
 		return p.parseBlock()
@@ -129,6 +131,8 @@ func (p *Parser) parseBlockOrShorthand() ast.Node {
 }
 
 func (p *Parser) parseBlock() ast.BlockStatement {
+	defer p.leave(p.enter())
+
 	n := ast.BlockStatement{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
@@ -241,6 +245,8 @@ func (p *Parser) parseArrayBindingPattern() *ast.ArrayBindingPattern {
 }
 
 func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
+	defer p.leave(p.enter())
+
 	n := &ast.ArrayBindingPattern{}
 	for {
 		b := ast.BindingElement{}
@@ -310,6 +316,9 @@ func (p *Parser) parseObjectBindingPattern() *ast.ObjectBindingPattern {
 }
 
 func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
+	defer p.leave(p.enter())
+	defer p.leave(p.enter()) // patterns are nested in properties
+
 	n := &ast.ObjectBindingPattern{}
 	for {
 		b := ast.BindingProperty{}
@@ -491,6 +500,8 @@ func (p *Parser) parseForStatement() ast.Node {
 }
 
 func (p *Parser) parseSwitchStatement() ast.Node {
+	defer p.leave(p.enter())
+
 	n := ast.SwitchStatement{}
 	p.setStart(&n)
 	defer p.setEnd(&n)
-- 
2.43.0


From 7efdacea7fa1fcaf492cc23b3dc1e1ef42c3f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 24/34] fix: do not apply operators to rest parameters

The element ended up in a tree, which then could not be rendered.
---
 ecmascript/parser/expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index e466469..b1c757c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -68,9 +68,14 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorEllipsis:
 			// Rest parameter inside of possible arrow function head.
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
-			return ast.TemporalFloatingRestElement{
+			n := ast.TemporalFloatingRestElement{
 				Identifier: p.forceScanIdent("unexpected token"),
 			}
+			switch p.s.PeekAt(0).Type {
+			case lexer.TokenPunctuatorComma, lexer.TokenPunctuatorCloseParen:
+				return n
+			}
+			p.s.SyntaxError("unexpected token after rest parameter")
 		}
 		flags |= exprFlagMaybePattern
 	}
-- 
2.43.0


From e4b4475b1eb456b213ce54c764d3a92f2ae5eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 25/34] fix: reject anything but commas between imported names

Any other token was skipped, closing brackets included, and the name before it
was dropped.
---
 ecmascript/parser/module.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 9982035..709873a 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -106,7 +106,11 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 					break importList
 				case lexer.TokenPunctuatorComma:
 					n.NamedImports = append(n.NamedImports, item)
+				default:
+					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))
 				}
+			default:
+				p.s.SyntaxError(fmt.Sprintf("expected `,`, `as` or `}` in import list, got %q", t.Source()))
 			}
 		}
 
-- 
2.43.0


From 1e5e0b5e8b61fa91f6cb2054e067fa3a6d76b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 26/34] fix: reject catch parameters that are not bindings

---
 ecmascript/parser/statement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 2fdf576..d5c010b 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -667,6 +667,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch parameter: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From eebeba160787275c707afbfd0156ce90cd0a59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 27/34] fix: report the unexpected token instead of reading
 another one

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/statement.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b1c757c..1f0ee70 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1227,7 +1227,7 @@ func (p *Parser) parseParametersTail() ast.FormalParameters {
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in formal parameter list: %s", t.Source()))
 		}
 
 		// Default syntax
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index d5c010b..a3f9189 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -285,7 +285,7 @@ func (p *Parser) parseArrayBindingPatternTail() *ast.ArrayBindingPattern {
 			return n
 
 		default:
-			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", p.s.Scan().Source()))
+			p.s.SyntaxError(fmt.Sprintf("unexpected token in array binding pattern: %s", t.Source()))
 		}
 
 		// Default syntax
@@ -354,7 +354,7 @@ func (p *Parser) parseObjectBindingPatternTail() *ast.ObjectBindingPattern {
 				b.Value.ObjectPattern = p.parseObjectBindingPatternTail()
 
 			default:
-				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", p.s.Scan().Source()))
+				p.s.SyntaxError(fmt.Sprintf("unexpected token in object binding pattern: %s", t.Source()))
 			}
 		}
 
-- 
2.43.0


From b818785939e188ea2fe57a32af3e22cc31540b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 28/34] fix: keep the page's exit message when the bundle exits
 during a parse

---
 web/parser/index.html | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/web/parser/index.html b/web/parser/index.html
index 845319b..0e85d38 100644
--- a/web/parser/index.html
+++ b/web/parser/index.html
@@ -83,6 +83,7 @@
         (function() {
             // The Go binary will call parserLoaded to pass us the parser.
             let parseES = () => {};
+            let exited = false;
             window["parserLoaded"] = function(parser) {
                 outputEl.value = "[Parser loaded, going to parse soon...]";
 
@@ -124,6 +125,11 @@ console.log("Hello, world.");`;
                 const { error, result } = parseES(input);
                 const after = performance.now();
 
+                // Keep the message about the exit.
+                if (exited) {
+                    return;
+                }
+
                 if (error) {
                     outputEl.value = "Error: " + error;
                     successEl.innerText = "";
@@ -170,6 +176,7 @@ console.log("Hello, world.");`;
             const go = new Go();
 
             go.exit = (code) => {
+                exited = true;
                 errorEl.innerText = `WASM bundle unexpectedly exited! (exit code ${code}) - check console for more details`;
                 errorEl.style.display = "block";
             };
-- 
2.43.0


From bb24dcef30d08a7a81c015c139b1dfe7db27061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 29/34] fix: reject what can not start a property without
 looking further

---
 ecmascript/parser/expression.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1f0ee70..9f1c5da 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -966,6 +966,19 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		// an arbitrary number of tokens will be the computed expression.
 		startedOnComputedKey := t.Type == lexer.TokenPunctuatorOpenBracket
 
+		// If a property can not start with this token, then it does not matter
+		// what follows it.
+		switch p.ctx.keywordToIdentifier(t, true).Type {
+		case lexer.TokenIdentifier, lexer.TokenLiteralString, lexer.TokenLiteralNumber,
+			lexer.TokenPunctuatorOpenBracket, lexer.TokenPunctuatorMult:
+		case lexer.TokenPunctuatorEllipsis:
+			if flags&exprFlagMaybePattern == 0 {
+				p.s.SyntaxError("expected property name")
+			}
+		default:
+			p.s.SyntaxError("expected property name")
+		}
+
 		// If we did not start on a computed key, and the last token retrieved
 		// did not put us on a token that ends the property, we can look for
 		// specifiers.
-- 
2.43.0


From 0950196c6d8539b00c86b20d6132a4d58bc82af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 30/34] fix: apply "use strict" within its block instead of
 behind it

---
 ecmascript/parser/statement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a3f9189..57d3e94 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -152,7 +152,7 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 	if expr, ok := stmt.(ast.ExpressionStatement); ok {
 		if str, ok := expr.Expression.(ast.StringLiteral); ok {
 			if str.Value == "use strict" {
-				ctx.strictMode = true
+				p.ctx.strictMode = true
 				expr.Directive = "use strict"
 			}
 		}
-- 
2.43.0


From ce8947c8791d7534dd69cd96d7f02339b012891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 31/34] fix: keep the locations of peeked tokens in step if
 there is no token to peek at

---
 ecmascript/parser/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index a927d24..3dab614 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,8 +34,10 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.l.Location())
+		// Lex panics if there is no token to be peeked at.
+		loc := s.l.Location()
 		s.last = append(s.last, s.l.Lex())
+		s.loc = append(s.loc, loc)
 	}
 	return s.last[i]
 }
-- 
2.43.0


From e5a1660b27ebbee6803b39c61077a7267b746c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 32/34] fix: a parser forgets the context of a parse that
 failed

---
 ecmascript/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 3b3fe98..8485303 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -63,6 +63,10 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			}
 		}
 	}()
+
+	// The last call may have failed anywhere.
+	p.ctx = parseContext{}
+
 	switch opt.Mode {
 	case ScriptMode:
 		return p.parseScript(), nil
-- 
2.43.0


From f63c047e145414ca45da4ce9d5020c2f4bec6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 33/34] fix: an assignment does not make an expression of a
 pattern with a rest element

---
 ecmascript/parser/expression.go | 14 ++++++++++----
 ecmascript/parser/parser.go     |  3 +++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 9f1c5da..40be799 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -103,7 +103,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 	// checkpattern ensures that an array or object literal that can only be a
 	// pattern is not used as an operand.
-	patternOnly := p.patternOnly
+	patternOnly, restOnly := p.patternOnly, p.restOnly
 	checkpattern := func() {
 		if p.patternOnly == patternOnly {
 			return
@@ -199,7 +199,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					// expression to be a parameter list.
 					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 					params := p.convertExprToArrowParams(inner)
-					p.patternOnly = patternOnly
+					p.patternOnly, p.restOnly = patternOnly, restOnly
 					m := ast.FunctionExpression{
 						Params: params,
 						Body:   p.parseBlockOrShorthand(),
@@ -289,7 +289,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// expression to be a parameter list.
 			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 			params := p.convertExprToArrowParams(inner)
-			p.patternOnly = patternOnly
+			p.patternOnly, p.restOnly = patternOnly, restOnly
 			m := ast.FunctionExpression{
 				Params: params,
 				Body:   p.parseBlockOrShorthand(),
@@ -621,7 +621,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorAssign {
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=` operator")
-			p.patternOnly = patternOnly
+			// The target of an assignment may have default values, but there is
+			// no expression node for rest elements.
+			if p.restOnly == restOnly {
+				p.patternOnly = patternOnly
+			}
 			n = wrapassign(ast.AssignmentOp, exprOrderAssign)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorMultAssign {
@@ -885,6 +889,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 			}
 			n.Elements = append(n.Elements, rest)
 			p.patternOnly++
+			p.restOnly++
 			break
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
@@ -1010,6 +1015,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 				if flags&exprFlagMaybePattern != 0 {
 					n.Properties = append(n.Properties, ast.Property{Key: parseRest()})
 					p.patternOnly++
+					p.restOnly++
 					p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 					return n
 				}
diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index 8485303..c01725a 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -37,6 +37,9 @@ type Parser struct {
 	// so far which are only valid in patterns.
 	patternOnly int
 
+	// restOnly counts those of them that are rest elements.
+	restOnly int
+
 	// depth is the nesting depth of the production that is being parsed, and
 	// height is the depth of the deepest node it contains so far.
 	depth, height int
-- 
2.43.0


From a277632b764be69206a731b3bed76cb34a43f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:01 +0000
Subject: [PATCH 34/34] fix: do not count the depth of a failed parse against
 the next one

When the nesting gets too deep, the level that was one too many was never
left, so each such failure lowered the limit for further calls of Parse on
the same parser.
---
 ecmascript/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c01725a..6d72228 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -69,6 +69,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 
 	// The last call may have failed anywhere.
 	p.ctx = parseContext{}
+	p.depth, p.height = 0, 0
 
 	switch opt.Mode {
 	case ScriptMode:
-- 
2.43.0

