From 1e91c9d00d6cd90f85685415e1257b88d3b53d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 01/16] fix: do not cut the input at a long line or a read
 error

readlines ignored bufio.Scanner's error, so a line over 64 KiB or an error
of the reader silently truncated the script.
---
 vimlparser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..7823094 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,22 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
+func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32) // no practical limit on the line length
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
-	return lines
+	return lines, scanner.Err()
 }
-- 
2.43.0


From 60e28350d1405f432dd80cd853bc17c2d84dada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 02/16] fix: keep every byte of the input and its true offset
 in the reader

Bytes that are not valid UTF-8 were replaced (and counted as 3 bytes), and
characters of continuation lines had no or a wrong byte offset.
---
 go/type.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/go/type.go b/go/type.go
index e34d543..064b0e8 100644
--- a/go/type.go
+++ b/go/type.go
@@ -3,6 +3,7 @@ package vimlparser
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type ExArg struct {
@@ -197,8 +198,10 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for rest := lines[lnum]; len(rest) > 0; {
+			_, n := utf8.DecodeRuneInString(rest)
+			c := rest[:n]
+			rest = rest[n:]
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -207,21 +210,23 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			offset += 1 // for EOL of the previous line
+			for rest := lines[lnum+1]; len(rest) > 0; {
+				_, n := utf8.DecodeRuneInString(rest)
+				c := rest[:n]
+				rest = rest[n:]
 				if skip {
 					if c == "\\" {
 						skip = false
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
-- 
2.43.0


From 8b97d475a3d8d7862fc6381ce8b0dd88e8fea2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 03/16] fix: report the byte offset, not the reader index, in
 syntax errors

---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index 064b0e8..1b33476 100644
--- a/go/type.go
+++ b/go/type.go
@@ -338,5 +338,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From e655dc874c78877a2b8249c9c783bb2624be1a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 04/16] fix: walk default arguments and lambda bodies, and no
 absent children

Walk skipped Function.DefaultArgs and LambdaExpr.Expr, and visited a typed
nil for an absent EndFunction, EndWhile, EndFor, FuncCall or DotExpr.Right.
---
 ast/walk.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..af001da 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -40,8 +40,11 @@ func Walk(v Visitor, node Node) {
 	case *Function:
 		Walk(v, n.Name)
 		walkIdentList(v, n.Params)
+		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFunction)
+		if n.EndFunction != nil {
+			Walk(v, n.EndFunction)
+		}
 
 	case *EndFunction: // nothing to do
 
@@ -52,7 +55,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Result)
 
 	case *ExCall:
-		Walk(v, n.FuncCall)
+		if n.FuncCall != nil {
+			Walk(v, n.FuncCall)
+		}
 
 	case *Let:
 		Walk(v, n.Left)
@@ -94,7 +99,9 @@ func Walk(v Visitor, node Node) {
 	case *While:
 		Walk(v, n.Condition)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndWhile)
+		if n.EndWhile != nil {
+			Walk(v, n.EndWhile)
+		}
 
 	case *EndWhile: // nothing to do
 
@@ -104,7 +111,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Rest)
 		Walk(v, n.Right)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFor)
+		if n.EndFor != nil {
+			Walk(v, n.EndFor)
+		}
 
 	case *EndFor: // nothing to do
 
@@ -178,7 +187,9 @@ func Walk(v Visitor, node Node) {
 
 	case *DotExpr:
 		Walk(v, n.Left)
-		Walk(v, n.Right)
+		if n.Right != nil {
+			Walk(v, n.Right)
+		}
 
 	case *BasicLit: // nothing to do
 
@@ -205,6 +216,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
-- 
2.43.0


From 32bfdb3a37554f1094876588baf83cd6d24292e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 05/16] fix: do not interpret a compiled expression as a format
 string

Compile of an expression such as 5 % 2 printed garbage.
---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..921faab 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From 10479cf12ed052219f38245f6ee96ba16e07b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 06/16] fix: compile functions without changing the tree or
 breaking the line

compileFunction cut '...' off the tree's parameter list, so a second Compile
printed something else, and wrote indentation in the middle of the header
line of a nested function.
---
 compiler/compiler.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 921faab..0467694 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -149,29 +149,29 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 }
 
 func (c *Compiler) compileFunction(node *ast.Function) {
-	c.fprint("(function (%s", c.compileExpr(node.Name))
+	sig := c.compileExpr(node.Name)
 	if len(node.Params) > 0 {
-		c.fprint(" ")
-		ps := make([]string, 0, len(node.Params))
+		params := node.Params
+		ps := make([]string, 0, len(params))
 		var remaining bool
-		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
+		if params[len(params)-1].Name == token.DOTDOTDOT.String() {
+			params = params[:len(params)-1]
 			remaining = true
 		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
+		for i, p := range params {
+			if i < len(params)-len(node.DefaultArgs) {
 				ps = append(ps, p.Name)
 			} else {
 				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
+					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 			}
 		}
 		if remaining {
 			ps = append(ps, ". ...")
 		}
-		c.fprint("%s", strings.Join(ps, " "))
+		sig += " " + strings.Join(ps, " ")
 	}
-	c.fprintln(")")
+	c.fprintln("(function (%s)", sig)
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From d4d7f6db37e3959de867766a5e5c822a79954fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 07/16] fix: return errors of nested nodes and keep every byte
 when compiling

Errors below a block were dropped, and bytes that are not valid UTF-8 were
replaced when a command text was escaped.
---
 compiler/compiler.go | 75 ++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 0467694..3f115d5 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -35,6 +35,7 @@ func Compile(w io.Writer, node ast.Node) error {
 // Compile compiles node and writes to writer.
 func (c *Compiler) Compile(w io.Writer, node ast.Node) error {
 	c.buffer = bytes.NewBuffer(make([]byte, 0))
+	c.indent = 0
 	if err := c.compile(node); err != nil {
 		return err
 	}
@@ -102,7 +103,7 @@ func (c *Compiler) compileExcommand(node ast.ExCommand) error {
 	case *ast.Excmd:
 		c.compileExcmd(n)
 	case *ast.Function:
-		c.compileFunction(n)
+		return c.compileFunction(n)
 	case *ast.DelFunction:
 		c.compileDelfunction(n)
 	case *ast.Return:
@@ -118,15 +119,15 @@ func (c *Compiler) compileExcommand(node ast.ExCommand) error {
 	case *ast.UnLockVar:
 		c.compileUnlockvar(n)
 	case *ast.If:
-		c.compileIf(n)
+		return c.compileIf(n)
 	case *ast.While:
-		c.compileWhile(n)
+		return c.compileWhile(n)
 	case *ast.For:
-		c.compileFor(n)
+		return c.compileFor(n)
 	case *ast.Continue, *ast.Break:
 		c.compileSingleCmd(n)
 	case *ast.Try:
-		c.compileTry(n)
+		return c.compileTry(n)
 	case *ast.Throw:
 		c.compileThrow(n)
 	case *ast.Eval:
@@ -148,7 +149,7 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 	c.fprintln(`(excmd "%s")`, escape(node.Command, `\"`))
 }
 
-func (c *Compiler) compileFunction(node *ast.Function) {
+func (c *Compiler) compileFunction(node *ast.Function) error {
 	sig := c.compileExpr(node.Name)
 	if len(node.Params) > 0 {
 		params := node.Params
@@ -173,10 +174,13 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 	}
 	c.fprintln("(function (%s)", sig)
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
 func (c *Compiler) compileDelfunction(node *ast.DelFunction) {
@@ -250,39 +254,49 @@ func (c *Compiler) compileUnlockvar(node *ast.UnLockVar) {
 	}
 }
 
-func (c *Compiler) compileIf(node *ast.If) {
+func (c *Compiler) compileIf(node *ast.If) error {
 	cmd := node.Cmd().Name
 	c.fprintln("(%s %s", cmd, c.compileExpr(node.Condition))
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.indent--
 	for _, n := range node.ElseIf {
 		c.fprintln(" %s %s", n.Cmd().Name, c.compileExpr(n.Condition))
 		c.indent++
-		c.compile(n.Body)
+		if err := c.compile(n.Body); err != nil {
+			return err
+		}
 		c.indent--
 	}
 	if node.Else != nil {
 		c.fprintln(" %s", node.Else.Cmd().Name)
 		c.indent++
-		c.compile(node.Else.Body)
+		if err := c.compile(node.Else.Body); err != nil {
+			return err
+		}
 		c.indent--
 	}
 	c.trimLineBreak()
 	c.writeString(")\n")
+	return nil
 }
 
-func (c *Compiler) compileWhile(node *ast.While) {
+func (c *Compiler) compileWhile(node *ast.While) error {
 	cmd := node.Cmd().Name
 	c.fprintln("(%s %s", cmd, c.compileExpr(node.Condition))
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
-func (c *Compiler) compileFor(node *ast.For) {
+func (c *Compiler) compileFor(node *ast.For) error {
 	cmd := node.Cmd().Name
 	left := ""
 	if node.Left != nil {
@@ -301,41 +315,53 @@ func (c *Compiler) compileFor(node *ast.For) {
 	right := c.compileExpr(node.Right)
 	c.fprintln("(%s %s %s", cmd, left, right)
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
 func (c *Compiler) compileSingleCmd(node ast.ExCommand) {
 	c.fprintln("(%s)", node.Cmd().Name)
 }
 
-func (c *Compiler) compileTry(node *ast.Try) {
+func (c *Compiler) compileTry(node *ast.Try) error {
 	c.fprintln("(%s", node.Cmd().Name)
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	for _, n := range node.Catch {
 		c.indent--
 		if n.Pattern != "" {
 			c.fprintln(" %s /%s/", n.Cmd().Name, n.Pattern)
 			c.indent++
-			c.compile(n.Body)
+			if err := c.compile(n.Body); err != nil {
+				return err
+			}
 		} else {
 			c.fprintln(" %s", n.Cmd().Name)
 			c.indent++
-			c.compile(n.Body)
+			if err := c.compile(n.Body); err != nil {
+				return err
+			}
 		}
 	}
 	if node.Finally != nil {
 		c.indent--
 		c.fprintln(" %s", node.Finally.Cmd().Name)
 		c.indent++
-		c.compile(node.Finally.Body)
+		if err := c.compile(node.Finally.Body); err != nil {
+			return err
+		}
 	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
 func (c *Compiler) compileThrow(node *ast.Throw) {
@@ -494,8 +520,9 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 
 func escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if strings.IndexByte(chars, c) != -1 {
 			switch c {
 			case '\n':
 				r += `\n`
@@ -504,10 +531,10 @@ func escape(s string, chars string) string {
 			case '\r':
 				r += `\r`
 			default:
-				r += `\` + string(c)
+				r += `\` + s[i:i+1]
 			}
 		} else {
-			r += string(c)
+			r += s[i : i+1]
 		}
 	}
 	return r
-- 
2.43.0


From 8d8dff7776d7fb2d6880bf7134b0bcec98119847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 08/16] fix: give =~ and =~? a precedence in the printer

---
 printer/opprec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printer/opprec.go b/printer/opprec.go
index e1ca348..b8d42ee 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -36,6 +36,8 @@ func opprec(op ast.Expr) int {
 			token.LTEQ,
 			token.LTEQCI,
 			token.LTEQCS,
+			token.MATCH,
+			token.MATCHCI,
 			token.MATCHCS,
 			token.NOMATCH,
 			token.NOMATCHCI,
-- 
2.43.0


From c02023aab4afd10bf6a711cd703186fd8908fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 09/16] fix: parenthesise a comparison that is the left operand
 of a comparison

Comparisons do not chain in Vim script: a tree for (a == b) == c was printed
as a == b == c, which does not parse back.
---
 printer/expr.go   | 6 +++++-
 printer/opprec.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/printer/expr.go b/printer/expr.go
index 44467c4..e574828 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -61,7 +61,11 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 		return
 	}
 	// TODO(haya14busa): handle line break.
-	p.expr1(x.Left, prec)
+	left := prec
+	if prec == opprecCompare {
+		left++ // comparisons do not chain
+	}
+	p.expr1(x.Left, left)
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
diff --git a/printer/opprec.go b/printer/opprec.go
index b8d42ee..b2a000e 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -7,6 +7,9 @@ import (
 	"github.com/vim-jp/go-vimlparser/token"
 )
 
+// opprecCompare is the precedence of comparison operators.
+const opprecCompare = 4
+
 // opprec returns operator precedence. See also go/gocompiler.vim
 func opprec(op ast.Expr) int {
 	switch n := op.(type) {
@@ -48,7 +51,7 @@ func opprec(op ast.Expr) int {
 			token.ISNOT,
 			token.ISNOTCI,
 			token.ISNOTCS:
-			return 4
+			return opprecCompare
 		case token.PLUS, token.MINUS, token.DOT:
 			return 5
 		case token.STAR, token.SLASH, token.PERCENT:
-- 
2.43.0


From 2592a94bbefe7dc8ec516e4935028dc4418fc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 10/16] fix: report an expression that cannot be printed as an
 error

Fprint panicked on expression kinds it does not support.
---
 printer/expr.go    |  2 +-
 printer/opprec.go  |  8 ++++----
 printer/printer.go | 14 +++++++++++++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/printer/expr.go b/printer/expr.go
index e574828..34377ac 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -45,7 +45,7 @@ func (p *printer) expr1(expr ast.Expr, prec1 int) {
 			p.token(token.PCLOSE)
 		}
 	default:
-		panic(fmt.Errorf("unsupported expr type %T", x))
+		panic(printError{fmt.Errorf("unsupported expr type %T", x)})
 	}
 }
 
diff --git a/printer/opprec.go b/printer/opprec.go
index b2a000e..76c02f2 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -57,22 +57,22 @@ func opprec(op ast.Expr) int {
 		case token.STAR, token.SLASH, token.PERCENT:
 			return 6
 		default:
-			panic(fmt.Errorf("unexpected token of BinaryExpr: %v", n.Op))
+			panic(printError{fmt.Errorf("unexpected token of BinaryExpr: %v", n.Op)})
 		}
 	case *ast.UnaryExpr:
 		switch n.Op {
 		case token.NOT, token.MINUS, token.PLUS:
 			return 7
 		default:
-			panic(fmt.Errorf("unexpected token of UnaryExpr: %v", n.Op))
+			panic(printError{fmt.Errorf("unexpected token of UnaryExpr: %v", n.Op)})
 		}
 	case *ast.SubscriptExpr, *ast.SliceExpr, *ast.CallExpr, *ast.DotExpr, *ast.MethodExpr:
 		return 8
 	case *ast.BasicLit, *ast.Ident, *ast.List, *ast.Dict, *ast.CurlyName, *ast.HeredocExpr:
 		return 9
 	case *ast.CurlyNameExpr, *ast.CurlyNameLit, *ast.LambdaExpr:
-		panic(fmt.Errorf("precedence is undefined for expr: %T", n))
+		panic(printError{fmt.Errorf("precedence is undefined for expr: %T", n)})
 	default:
-		panic(fmt.Errorf("unexpected expr: %T", n))
+		panic(printError{fmt.Errorf("unexpected expr: %T", n)})
 	}
 }
diff --git a/printer/printer.go b/printer/printer.go
index 7be5979..e642f58 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -24,7 +24,16 @@ const (
 type Config struct{}
 
 // Fprint "pretty-prints" an AST node to output for a given configuration cfg.
-func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
+func Fprint(output io.Writer, node ast.Node, cfg *Config) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			e, ok := r.(printError)
+			if !ok {
+				panic(r)
+			}
+			err = e
+		}
+	}()
 	var p printer
 	p.init(cfg)
 	if err := p.printNode(node); err != nil {
@@ -36,6 +45,9 @@ func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
 	return nil
 }
 
+// printError is the panic value for a node which cannot be printed.
+type printError struct{ error }
+
 type printer struct {
 	Config
 
-- 
2.43.0


From 0015fa8710d37e030f6811ba374087b12786c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 11/16] fix: resolve a user command independently of earlier
 commands

:Foo cached the command under its letters, so a later :Foo1 ran Foo with
argument 1.
---
 autoload/vimlparser.vim | 4 ++--
 go/vimlparser.go        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..aecd738 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -982,9 +982,9 @@ function! s:VimLParser.find_command() abort
 
   " FIXME: user defined command
   if (cmd is# s:NIL || cmd.name ==# 'Print') && name =~# '^[A-Z]'
+    " not cached: digits after the letters belong to the name
     let name .= self.reader.read_alnum()
-    unlet cmd
-    let cmd = {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
+    return {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
   endif
 
   let self.find_command_cache[name] = cmd
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..1f55f49 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -860,8 +860,9 @@ func (self *VimLParser) find_command() *Cmd {
 	}
 	// FIXME: user defined command
 	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
+		// not cached: digits after the letters belong to the name
 		name += self.reader.read_alnum()
-		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
+		return &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
 	}
 	self.find_command_cache[name] = cmd
 	return cmd
-- 
2.43.0


From 331744a2f4f17b983a1d095979f30bd4888eaeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 12/16] fix: recognise :@" and :*" as register commands

The position was compared by pointer, so the quote was taken for a comment.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index aecd738..7734641 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1170,7 +1170,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif c ==# '|' || c ==# "\n" ||
           \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
-          \       || self.reader.getpos() !=# self.ea.argpos)
+          \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
           \       || self.reader.getpos().i !=# self.ea.argpos.i + 1 || pc !=# '@'))
       let has_cpo_bar = s:FALSE " &cpoptions =~ 'b'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1f55f49..5f5c41a 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1044,7 +1044,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos() != self.ea.argpos) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
-- 
2.43.0


From e686714f0a2521282d72bc7984c0745d6048fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 13/16] fix: accept a count that is out of range

A count such as in :99999999999tab made the parser fail with an internal
error; it is now the greatest number in range.
---
 go/vimlfunc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..f75c637 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -140,6 +140,9 @@ func viml_split(s string, sep string) []string {
 
 func viml_str2nr(s string, base int) int {
 	r, err := strconv.ParseInt(s, base, 32)
+	if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
+		return int(r) // the nearest number in range
+	}
 	if err != nil {
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
-- 
2.43.0


From bcc6420c716a19c99174d37eb9f33b280e7747da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 14/16] fix: do not crash in Cmd of a line with only modifiers
 or a range

---
 ast/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index bc64b19..23fc484 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -56,7 +56,14 @@ type Excmd struct {
 }
 
 func (e *Excmd) Pos() Pos { return e.Excmd }
-func (e *Excmd) Cmd() Cmd { return *e.ExArg.Cmd }
+
+// Cmd returns the zero Cmd for a line with only modifiers or a range.
+func (e *Excmd) Cmd() Cmd {
+	if e.ExArg.Cmd == nil {
+		return Cmd{}
+	}
+	return *e.ExArg.Cmd
+}
 
 // vimlparser: FUNCTION .ea .body .left .rlist .attr .endfunction
 type Function struct {
-- 
2.43.0


From 95de6e39be0bf34dba2a0dac9a4d92d0949c0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 15/16] fix: only blanks may precede the backslash of a
 continuation line

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index f75c637..f90fe3a 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -49,7 +49,7 @@ var patVim2Go = map[string]string{
 	"^\\d":                     "^\\d",
 	"^\\h":                     "^[A-Za-z_]",
 	"^\\s":                     "^\\s",
-	"^\\s*\\\\":                "^\\s*\\\\",
+	"^\\s*\\\\":                "^[ \\t]*\\\\",
 	"^[ \\t]$":                 "^[ \\t]$",
 	"^[A-Za-z]$":               "^[A-Za-z]$",
 	"^[0-9A-Za-z]$":            "^[0-9A-Za-z]$",
-- 
2.43.0


From 9b6d6eea37359a659ee44a2bd7ef471819615907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 16/16] fix: keep a heredoc :let before the comment after its
 marker

The comment was added to the block first: the statements were out of source
order.
---
 go/vimlparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/vimlparser.go b/go/vimlparser.go
index 5f5c41a..c87e572 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1457,8 +1457,9 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
-		node.right = self.parse_heredoc()
+		// before the comment that may follow the marker
 		self.add_node(node)
+		node.right = self.parse_heredoc()
 		return
 	} else if s1 == "=" {
 		self.reader.getn(1)
-- 
2.43.0

