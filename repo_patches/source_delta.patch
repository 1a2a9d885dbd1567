From 03b9788dddb33f9871a2d1dc82e88102fca45b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 01/55] fix: offsets of characters in continuation lines

They were left at 0, and the newline before a continuation line was counted
after it.
---
 go/type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/type.go b/go/type.go
index e34d543..ddaaabf 100644
--- a/go/type.go
+++ b/go/type.go
@@ -207,6 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
+			offset += 1
 			for _, r := range lines[lnum+1] {
 				c := string(r)
 				if skip {
@@ -215,13 +216,12 @@ func (self *StringReader) __init__(lines []string) {
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
-- 
2.43.0


From 023e3321554d7f161b4a54554e7f68d9cb5807e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 02/55] fix: keep bytes that are not valid UTF-8 as they are

They were turned into U+FFFD, which changed literals and command text and made
columns and offsets of everything after them wrong.
---
 go/type.go     | 6 ++----
 go/vimlfunc.go | 8 ++++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/go/type.go b/go/type.go
index ddaaabf..35eaca4 100644
--- a/go/type.go
+++ b/go/type.go
@@ -197,8 +197,7 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for _, c := range viml_split(lines[lnum], `\zs`) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -208,8 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 			var skip = true
 			col = 0
 			offset += 1
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			for _, c := range viml_split(lines[lnum+1], `\zs`) {
 				if skip {
 					if c == "\\" {
 						skip = false
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..b0c144c 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -6,6 +6,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // copied and little modified(^++) from ./py/vimlfunc.py
@@ -130,8 +131,11 @@ func viml_range(start, end int) []int {
 func viml_split(s string, sep string) []string {
 	if sep == `\zs` {
 		ss := make([]string, 0, len(s))
-		for _, r := range s {
-			ss = append(ss, string(r))
+		for len(s) > 0 {
+			// A byte that is not valid UTF-8 is a character of its own.
+			_, n := utf8.DecodeRuneInString(s)
+			ss = append(ss, s[:n])
+			s = s[n:]
 		}
 		return ss
 	}
-- 
2.43.0


From d29931d039de06d3ff83a5ed770dd904c0e0ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 03/55] fix: \s and \S are about space and tab only

In Go they also stand for CR, FF and LF, so a line that starts with a form feed
and a backslash was taken as a continuation line.
---
 go/vimlfunc.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index b0c144c..061bc1e 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -21,11 +21,11 @@ var patVim2Go = map[string]string{
 	"\\<USECTRLV\\>":                    "\\bUSECTRLV\\b",
 	"\\<USERCMD\\>":                     "\\bUSERCMD\\b",
 	"\\<\\(XFILE\\|FILES\\|FILE1\\)\\>": "\\b(XFILE|FILES|FILE1)\\b",
-	"\\S":                               "\\S",
+	"\\S":                               "[^ \\t]",
 	"\\a":                               "[A-Za-z]",
 	"\\d":                               "\\d",
 	"\\h":                               "[A-Za-z_]",
-	"\\s":                               "\\s",
+	"\\s":                               "[ \\t]",
 	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
 	"\\w":                             "[0-9A-Za-z_]",
@@ -37,8 +37,8 @@ var patVim2Go = map[string]string{
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
 	"^++edit\\>":                      "^\\+\\+edit\\b",
-	"^++enc=\\S":                      "^\\+\\+enc=\\S",
-	"^++encoding=\\S":                 "^\\+\\+encoding=\\S",
+	"^++enc=\\S":                      "^\\+\\+enc=[^ \\t]",
+	"^++encoding=\\S":                 "^\\+\\+encoding=[^ \\t]",
 	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)\\b",
 	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)\\b",
 	"^++nobin\\>":                  "^\\+\\+nobin\\b",
@@ -49,8 +49,8 @@ var patVim2Go = map[string]string{
 	"^\\(vimgrep\\|vimgrepadd\\|lvimgrep\\|lvimgrepadd\\)$": "^(vimgrep|vimgrepadd|lvimgrep|lvimgrepadd)$",
 	"^\\d":                     "^\\d",
 	"^\\h":                     "^[A-Za-z_]",
-	"^\\s":                     "^\\s",
-	"^\\s*\\\\":                "^\\s*\\\\",
+	"^\\s":                     "^[ \\t]",
+	"^\\s*\\\\":                "^[ \\t]*\\\\",
 	"^[ \\t]$":                 "^[ \\t]$",
 	"^[A-Za-z]$":               "^[A-Za-z]$",
 	"^[0-9A-Za-z]$":            "^[0-9A-Za-z]$",
@@ -67,7 +67,7 @@ var patVim2Go = map[string]string{
 	"^[0-9A-Fa-f][0-9A-Fa-f]$":  "^[0-9A-Fa-f][0-9A-Fa-f]$",
 	"^\\.[0-9A-Fa-f]$":          "^\\.[0-9A-Fa-f]$",
 	"^[0-9A-Fa-f][^0-9A-Fa-f]$": "^[0-9A-Fa-f][^0-9A-Fa-f]$",
-	"^[^a-z]\\S\\+$":            "^[^a-z]\\S+$",
+	"^[^a-z]\\S\\+$":            "^[^a-z][^ \\t]+$",
 }
 
 var patVim2GoRegh = make(map[string]*regexp.Regexp)
-- 
2.43.0


From 935077622cb7644ff520a56697a383aecf8820f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 04/55] fix: the offset of an error is a byte offset

It was the index of the character in the reader, which counts characters and
leaves out what continuation lines skip.
---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index 35eaca4..8df3010 100644
--- a/go/type.go
+++ b/go/type.go
@@ -331,5 +331,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From 8b9276bb89671089070bb1a441e026d9c58f77ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 05/55] fix: read the whole input, and report read errors

bufio.Scanner stops at a line of more than 64 KB, and neither that nor a failing
reader was reported: a part of the input was parsed as if it were everything.
---
 vimlparser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..60c5d0f 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,30 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
+func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	br := bufio.NewReader(r)
+	for {
+		line, err := br.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return nil, err
+		}
+		if line != "" {
+			line = strings.TrimSuffix(line, "\n")
+			lines = append(lines, strings.TrimSuffix(line, "\r"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
 	}
-	return lines
 }
-- 
2.43.0


From b58544d48b6a3bf31fd1d226e0c84797b122c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 06/55] fix: offsets after CR LF line ends

The CR was dropped without being counted.
---
 go/type.go    | 11 +++++++----
 vimlparser.go |  3 +--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/go/type.go b/go/type.go
index 8df3010..2175d11 100644
--- a/go/type.go
+++ b/go/type.go
@@ -197,7 +197,9 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, c := range viml_split(lines[lnum], `\zs`) {
+		// A CR before the end of the line belongs to the line end.
+		var line = strings.TrimSuffix(lines[lnum], "\r")
+		for _, c := range viml_split(line, `\zs`) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -206,8 +208,9 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			offset += 1
-			for _, c := range viml_split(lines[lnum+1], `\zs`) {
+			offset += len(lines[lnum]) - len(line) + 1
+			line = strings.TrimSuffix(lines[lnum+1], "\r")
+			for _, c := range viml_split(line, `\zs`) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -223,8 +226,8 @@ func (self *StringReader) __init__(lines []string) {
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
+		offset += len(lines[lnum]) - len(line) + 1
 		lnum += 1
-		offset += 1
 	}
 	// for <EOF>
 	self.pos = append(self.pos, pos{lnum: lnum + 1, col: 0, offset: offset})
diff --git a/vimlparser.go b/vimlparser.go
index 60c5d0f..a875511 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -101,8 +101,7 @@ func readlines(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 		if line != "" {
-			line = strings.TrimSuffix(line, "\n")
-			lines = append(lines, strings.TrimSuffix(line, "\r"))
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
 		}
 		if err == io.EOF {
 			return lines, nil
-- 
2.43.0


From 13fc82b58d0f1c749a42ba4e254d00bcc5e8454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 07/55] fix: the position of a literal dict key is its first
 character

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..1928265 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3602,8 +3602,8 @@ function! s:ExprTokenizer.parse_dict_literal_key() abort
   endif
   let node = s:Node(s:NODE_STRING)
   let s = c
-  call self.reader.seek_cur(1)
   let node.pos = self.reader.getpos()
+  call self.reader.seek_cur(1)
   while s:TRUE
     let c = self.reader.p(0)
     if c ==# '<EOF>' || c ==# '<EOL>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..b47fda9 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2341,8 +2341,8 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 	}
 	var node = Node(NODE_STRING)
 	var s = c
-	self.reader.seek_cur(1)
 	node.pos = self.reader.getpos()
+	self.reader.seek_cur(1)
 	for true {
 		c = self.reader.p(0)
 		if c == "<EOF>" || c == "<EOL>" {
-- 
2.43.0


From 945f26b9f3ff2e0482b37109a9fdac78b1574559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 08/55] fix: a literal dict is never a lambda or a curly-braces
 name

The keys of #{...} are words, so that they are not expressions to look
ahead at: #{a, ...}, #{->} and #{1-1:0} were misread.
---
 autoload/vimlparser.vim | 17 ++++++++++-------
 go/vimlparser.go        | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1928265..11b7629 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4200,9 +4200,12 @@ function! s:ExprParser.parse_expr9() abort
     let is_litdict = token.type ==# s:TOKEN_LITCOPEN
     let savepos = self.reader.tell()
     let nodepos = token.pos
-    let token = self.tokenizer.get()
-    let lambda = token.type ==# s:TOKEN_ARROW
-    if !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
+    let lambda = s:FALSE
+    if !is_litdict
+      let token = self.tokenizer.get()
+      let lambda = token.type ==# s:TOKEN_ARROW
+    endif
+    if !is_litdict && !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
       " if the token type is stirng, we cannot peek next token and we can
       " assume it's not lambda.
       let token2 = self.tokenizer.peek()
@@ -4279,16 +4282,16 @@ function! s:ExprParser.parse_expr9() abort
     let node.pos = nodepos
     let node.value = []
     call self.reader.seek_set(savepos)
-    let token = self.tokenizer.peek()
-    if token.type ==# s:TOKEN_CCLOSE
-      call self.tokenizer.get()
+    call self.reader.skip_white()
+    if self.reader.p(0) ==# '}'
+      call self.reader.seek_cur(1)
       return node
     endif
     while 1
       let key = is_litdict ? self.tokenizer.parse_dict_literal_key() : self.parse_expr1()
       let token = self.tokenizer.get()
       if token.type ==# s:TOKEN_CCLOSE
-        if !empty(node.value)
+        if is_litdict || !empty(node.value)
           throw s:Err(printf('unexpected token: %s', token.value), token.pos)
         endif
         call self.reader.seek_set(pos)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b47fda9..d09b9e9 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2930,9 +2930,12 @@ func (self *ExprParser) parse_expr9() *VimNode {
 		var is_litdict = token.type_ == TOKEN_LITCOPEN
 		var savepos = self.reader.tell()
 		var nodepos = token.pos
-		token = self.tokenizer.get()
-		var lambda = token.type_ == TOKEN_ARROW
-		if !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
+		var lambda = false
+		if !is_litdict {
+			token = self.tokenizer.get()
+			lambda = token.type_ == TOKEN_ARROW
+		}
+		if !is_litdict && !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
 			// if the token type is stirng, we cannot peek next token and we can
 			// assume it's not lambda.
 			var token2 = self.tokenizer.peek()
@@ -3009,9 +3012,9 @@ func (self *ExprParser) parse_expr9() *VimNode {
 		node.pos = nodepos
 		node.value = []interface{}{}
 		self.reader.seek_set(savepos)
-		token = self.tokenizer.peek()
-		if token.type_ == TOKEN_CCLOSE {
-			self.tokenizer.get()
+		self.reader.skip_white()
+		if self.reader.p(0) == "}" {
+			self.reader.seek_cur(1)
 			return node
 		}
 		for {
@@ -3024,7 +3027,7 @@ func (self *ExprParser) parse_expr9() *VimNode {
 			}()
 			token = self.tokenizer.get()
 			if token.type_ == TOKEN_CCLOSE {
-				if !viml_empty(node.value) {
+				if is_litdict || !viml_empty(node.value) {
 					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
 				}
 				self.reader.seek_set(pos)
-- 
2.43.0


From 10a1c43a5339812086fd5561c1396b82a8e9be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 09/55] fix: is and isnot are names where a variable or a
 parameter is expected

---
 autoload/vimlparser.vim | 9 ++++++---
 go/vimlparser.go        | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 11b7629..257e8a9 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1383,7 +1383,7 @@ function! s:VimLParser.parse_cmd_function() abort
     while s:TRUE
       let varnode = s:Node(s:NODE_IDENTIFIER)
       let token = tokenizer.get()
-      if token.type ==# s:TOKEN_IDENTIFIER
+      if token.type ==# s:TOKEN_IDENTIFIER || token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISNOT
         if !s:isargname(token.value) || token.value ==# 'firstline' || token.value ==# 'lastline'
           throw s:Err(printf('E125: Illegal argument: %s', token.value), token.pos)
         elseif has_key(named, token.value)
@@ -4222,7 +4222,7 @@ function! s:ExprParser.parse_expr9() abort
       while s:TRUE
         if token.type ==# s:TOKEN_ARROW
           break
-        elseif token.type ==# s:TOKEN_IDENTIFIER
+        elseif token.type ==# s:TOKEN_IDENTIFIER || token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISNOT
           if !s:isargname(token.value)
             throw s:Err(printf('E125: Illegal argument: %s', token.value), token.pos)
           elseif has_key(named, token.value)
@@ -4338,7 +4338,7 @@ function! s:ExprParser.parse_expr9() abort
   elseif token.type ==# s:TOKEN_LT && self.reader.peekn(4) ==? 'SID>'
     call self.reader.seek_set(pos)
     let node = self.parse_identifier()
-  elseif token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISCS || token.type ==# s:TOKEN_ISNOT || token.type ==# s:TOKEN_ISNOTCS
+  elseif token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISCI || token.type ==# s:TOKEN_ISCS || token.type ==# s:TOKEN_ISNOT || token.type ==# s:TOKEN_ISNOTCI || token.type ==# s:TOKEN_ISNOTCS
     call self.reader.seek_set(pos)
     let node = self.parse_identifier()
   elseif token.type ==# s:TOKEN_ENV
@@ -4565,6 +4565,9 @@ function! s:LvalueParser.parse_lv9() abort
   elseif token.type ==# s:TOKEN_LT && self.reader.peekn(4) ==? 'SID>'
     call self.reader.seek_set(pos)
     let node = self.parse_identifier()
+  elseif token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISCI || token.type ==# s:TOKEN_ISCS || token.type ==# s:TOKEN_ISNOT || token.type ==# s:TOKEN_ISNOTCI || token.type ==# s:TOKEN_ISNOTCS
+    call self.reader.seek_set(pos)
+    let node = self.parse_identifier()
   elseif token.type ==# s:TOKEN_ENV
     let node = s:Node(s:NODE_ENV)
     let node.pos = token.pos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d09b9e9..40f10ce 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1246,7 +1246,7 @@ func (self *VimLParser) parse_cmd_function() {
 		for true {
 			var varnode = Node(NODE_IDENTIFIER)
 			var token = tokenizer.get()
-			if token.type_ == TOKEN_IDENTIFIER {
+			if token.type_ == TOKEN_IDENTIFIER || token.type_ == TOKEN_IS || token.type_ == TOKEN_ISNOT {
 				if !isargname(token.value) || token.value == "firstline" || token.value == "lastline" {
 					panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
 				} else if viml_has_key(named, token.value) {
@@ -2952,7 +2952,7 @@ func (self *ExprParser) parse_expr9() *VimNode {
 			for true {
 				if token.type_ == TOKEN_ARROW {
 					break
-				} else if token.type_ == TOKEN_IDENTIFIER {
+				} else if token.type_ == TOKEN_IDENTIFIER || token.type_ == TOKEN_IS || token.type_ == TOKEN_ISNOT {
 					if !isargname(token.value) {
 						panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
 					} else if viml_has_key(named, token.value) {
@@ -3074,7 +3074,7 @@ func (self *ExprParser) parse_expr9() *VimNode {
 	} else if token.type_ == TOKEN_LT && viml_equalci(self.reader.peekn(4), "SID>") {
 		self.reader.seek_set(pos)
 		node = self.parse_identifier()
-	} else if token.type_ == TOKEN_IS || token.type_ == TOKEN_ISCS || token.type_ == TOKEN_ISNOT || token.type_ == TOKEN_ISNOTCS {
+	} else if token.type_ == TOKEN_IS || token.type_ == TOKEN_ISCI || token.type_ == TOKEN_ISCS || token.type_ == TOKEN_ISNOT || token.type_ == TOKEN_ISNOTCI || token.type_ == TOKEN_ISNOTCS {
 		self.reader.seek_set(pos)
 		node = self.parse_identifier()
 	} else if token.type_ == TOKEN_ENV {
@@ -3300,6 +3300,9 @@ func (self *LvalueParser) parse_lv9() *VimNode {
 	} else if token.type_ == TOKEN_LT && viml_equalci(self.reader.peekn(4), "SID>") {
 		self.reader.seek_set(pos)
 		node = self.parse_identifier()
+	} else if token.type_ == TOKEN_IS || token.type_ == TOKEN_ISCI || token.type_ == TOKEN_ISCS || token.type_ == TOKEN_ISNOT || token.type_ == TOKEN_ISNOTCI || token.type_ == TOKEN_ISNOTCS {
+		self.reader.seek_set(pos)
+		node = self.parse_identifier()
 	} else if token.type_ == TOKEN_ENV {
 		node = Node(NODE_ENV)
 		node.pos = token.pos
-- 
2.43.0


From f34c7c008aac49212cddd034b6cc3f669ad2b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 10/55] fix: reject $ and & without a name

---
 autoload/vimlparser.vim | 6 ++++++
 go/vimlparser.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 257e8a9..890d551 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3505,6 +3505,9 @@ function! s:ExprTokenizer.get2() abort
   elseif c ==# '$'
     let s = r.getn(1)
     let s .= r.read_word()
+    if s ==# '$'
+      throw s:Err(printf('E15: Invalid expression: %s', s), pos)
+    endif
     return self.token(s:TOKEN_ENV, s, pos)
   elseif c ==# '@'
     " @<EOL> is treated as @"
@@ -3516,6 +3519,9 @@ function! s:ExprTokenizer.get2() abort
     else
       let s = r.getn(1) . r.read_word()
     endif
+    if s ==# '&' || s ==# '&g:' || s ==# '&l:'
+      throw s:Err(printf('E112: Option name missing: %s', s), pos)
+    endif
     return self.token(s:TOKEN_OPTION, s, pos)
   elseif c ==# '='
     call r.seek_cur(1)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 40f10ce..3b8f6c2 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2244,6 +2244,9 @@ func (self *ExprTokenizer) get2() *ExprToken {
 	} else if c == "$" {
 		var s = r.getn(1)
 		s += r.read_word()
+		if s == "$" {
+			panic(Err(viml_printf("E15: Invalid expression: %s", s), pos))
+		}
 		return self.token(TOKEN_ENV, s, pos)
 	} else if c == "@" {
 		// @<EOL> is treated as @"
@@ -2255,6 +2258,9 @@ func (self *ExprTokenizer) get2() *ExprToken {
 		} else {
 			s = r.getn(1) + r.read_word()
 		}
+		if s == "&" || s == "&g:" || s == "&l:" {
+			panic(Err(viml_printf("E112: Option name missing: %s", s), pos))
+		}
 		return self.token(TOKEN_OPTION, s, pos)
 	} else if c == "=" {
 		r.seek_cur(1)
-- 
2.43.0


From 7a094f3fab4199bcd12523e4800bbf150666df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 11/55] fix: only a name, a lambda or an expression in
 parentheses can follow ->

---
 autoload/vimlparser.vim | 3 +++
 go/vimlparser.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 890d551..1981b55 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4074,6 +4074,9 @@ function! s:ExprParser.parse_expr8() abort
       unlet node
     elseif token.type ==# s:TOKEN_ARROW
       let funcname_or_lambda = self.parse_expr9()
+      if funcname_or_lambda.type !=# s:NODE_IDENTIFIER && funcname_or_lambda.type !=# s:NODE_CURLYNAME && funcname_or_lambda.type !=# s:NODE_LAMBDA && funcname_or_lambda.type !=# s:NODE_PARENEXPR
+        throw s:Err('E260: Missing name after ->', funcname_or_lambda.pos)
+      endif
       let token = self.tokenizer.get()
       if token.type !=# s:TOKEN_POPEN
         throw s:Err('E107: Missing parentheses: lambda', token.pos)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 3b8f6c2..186b165 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2806,6 +2806,9 @@ func (self *ExprParser) parse_expr8() *VimNode {
 			}
 		} else if token.type_ == TOKEN_ARROW {
 			var funcname_or_lambda = self.parse_expr9()
+			if funcname_or_lambda.type_ != NODE_IDENTIFIER && funcname_or_lambda.type_ != NODE_CURLYNAME && funcname_or_lambda.type_ != NODE_LAMBDA && funcname_or_lambda.type_ != NODE_PARENEXPR {
+				panic(Err("E260: Missing name after ->", funcname_or_lambda.pos))
+			}
 			token = self.tokenizer.get()
 			if token.type_ != TOKEN_POPEN {
 				panic(Err("E107: Missing parentheses: lambda", token.pos))
-- 
2.43.0


From b3982a22de250f4c1d7cb3f43b58a4a8446700a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 12/55] fix: do not take a user command for one that a previous
 line abbreviates it to

The cache was keyed by the letters of the name: after Foo, Foo1 was Foo.
---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1981b55..807873a 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -985,6 +985,8 @@ function! s:VimLParser.find_command() abort
     let name .= self.reader.read_alnum()
     unlet cmd
     let cmd = {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
+    " not to be cached: what follows the name decides
+    return cmd
   endif
 
   let self.find_command_cache[name] = cmd
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 186b165..7745f04 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -862,6 +862,8 @@ func (self *VimLParser) find_command() *Cmd {
 	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
 		name += self.reader.read_alnum()
 		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
+		// not to be cached: what follows the name decides
+		return cmd
 	}
 	self.find_command_cache[name] = cmd
 	return cmd
-- 
2.43.0


From d8c50f510edfd65109b6248f12e552c5c77cd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 13/55] fix: the first target of unlet, lockvar and unlockvar
 is a variable, too

It was parsed as any expression, e.g. a call or a number.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 807873a..ac7ddeb 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2016,7 +2016,7 @@ endfunction
 
 function! s:VimLParser.parse_lvaluelist() abort
   let list = []
-  let node = self.parse_expr()
+  let node = self.parse_lvalue()
   call add(list, node)
   while s:TRUE
     call self.reader.skip_white()
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 7745f04..a2fad44 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1852,7 +1852,7 @@ func (self *VimLParser) parse_constlvalue() *VimNode {
 
 func (self *VimLParser) parse_lvaluelist() []*VimNode {
 	var list []*VimNode
-	var node = self.parse_expr()
+	var node = self.parse_lvalue()
 	list = append(list, node)
 	for true {
 		self.reader.skip_white()
-- 
2.43.0


From 06e038d5f44e6b088d01d168d4950b8ec0583b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 14/55] fix: a number that is out of range is not a fault

---
 go/vimlfunc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 061bc1e..f187e00 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -143,7 +143,10 @@ func viml_split(s string, sep string) []string {
 }
 
 func viml_str2nr(s string, base int) int {
-	r, err := strconv.ParseInt(s, base, 32)
+	r, err := strconv.ParseInt(s, base, 0)
+	if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
+		return int(r) // as Vim does: the nearest number
+	}
 	if err != nil {
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
-- 
2.43.0


From ff146fe48740527b5b62525a99691377fc5bfc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 15/55] fix: do not take letters outside ASCII for those of
 <SID>

---
 go/vimlfunc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index f187e00..3141b7c 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -85,7 +85,8 @@ func viml_empty(obj interface{}) bool {
 }
 
 func viml_equalci(a, b string) bool {
-	return strings.ToLower(a) == strings.ToLower(b)
+	// The lengths differ where a letter outside ASCII folds to one in ASCII.
+	return len(a) == len(b) && strings.EqualFold(a, b)
 }
 
 func viml_eqregh(s, reg string) bool {
-- 
2.43.0


From 131d63f54ad694a94ad74dc14715b5f81b1b63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 16/55] fix: Walk visits default values and the body of lambdas

---
 ast/walk.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..01c143b 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -39,7 +39,7 @@ func Walk(v Visitor, node Node) {
 
 	case *Function:
 		Walk(v, n.Name)
-		walkIdentList(v, n.Params)
+		walkParamList(v, n.Params, n.DefaultArgs)
 		walkStmtList(v, n.Body)
 		Walk(v, n.EndFunction)
 
@@ -205,6 +205,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
@@ -227,6 +228,21 @@ func walkIdentList(v Visitor, list []*Ident) {
 	}
 }
 
+// walkParamList walks the parameters of a function, each followed by its
+// default value: those are of the last parameters, not counting "...".
+func walkParamList(v Visitor, params []*Ident, defaults []Expr) {
+	named := len(params)
+	if named > 0 && params[named-1].Name == "..." {
+		named--
+	}
+	for i, x := range params {
+		Walk(v, x)
+		if j := i - (named - len(defaults)); i < named && j >= 0 {
+			Walk(v, defaults[j])
+		}
+	}
+}
+
 func walkExprList(v Visitor, list []Expr) {
 	for _, x := range list {
 		Walk(v, x)
-- 
2.43.0


From 0965010c213403b4ab33e702d1692ef7ee905f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 17/55] fix: Walk does not visit an end command that is nil

---
 ast/walk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 01c143b..50beb89 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -41,7 +41,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Name)
 		walkParamList(v, n.Params, n.DefaultArgs)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFunction)
+		if n.EndFunction != nil {
+			Walk(v, n.EndFunction)
+		}
 
 	case *EndFunction: // nothing to do
 
@@ -94,7 +96,9 @@ func Walk(v Visitor, node Node) {
 	case *While:
 		Walk(v, n.Condition)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndWhile)
+		if n.EndWhile != nil {
+			Walk(v, n.EndWhile)
+		}
 
 	case *EndWhile: // nothing to do
 
@@ -104,7 +108,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Rest)
 		Walk(v, n.Right)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFor)
+		if n.EndFor != nil {
+			Walk(v, n.EndFor)
+		}
 
 	case *EndFor: // nothing to do
 
-- 
2.43.0


From 540919a760c1d850d1447bd4cc8997976366ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 18/55] fix: do not use the text of an expression as a format

---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..921faab 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From 19f5cd11d73c3182e5c242d4358c842870fd4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 19/55] fix: compiling a function does not change its
 parameters

---
 compiler/compiler.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 921faab..5a991cf 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -150,20 +150,20 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 
 func (c *Compiler) compileFunction(node *ast.Function) {
 	c.fprint("(function (%s", c.compileExpr(node.Name))
-	if len(node.Params) > 0 {
+	if params := node.Params; len(params) > 0 {
 		c.fprint(" ")
-		ps := make([]string, 0, len(node.Params))
+		ps := make([]string, 0, len(params))
 		var remaining bool
-		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
+		if params[len(params)-1].Name == token.DOTDOTDOT.String() {
+			params = params[:len(params)-1]
 			remaining = true
 		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
+		for i, p := range params {
+			if i < len(params)-len(node.DefaultArgs) {
 				ps = append(ps, p.Name)
 			} else {
 				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
+					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 			}
 		}
 		if remaining {
-- 
2.43.0


From cc4bc96baeea6ec8174cd1b42044bc1a83c54852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 20/55] fix: the indentation of a nested function goes before
 its line only

---
 compiler/compiler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 5a991cf..a896397 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -151,7 +151,7 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 func (c *Compiler) compileFunction(node *ast.Function) {
 	c.fprint("(function (%s", c.compileExpr(node.Name))
 	if params := node.Params; len(params) > 0 {
-		c.fprint(" ")
+		c.writeString(" ")
 		ps := make([]string, 0, len(params))
 		var remaining bool
 		if params[len(params)-1].Name == token.DOTDOTDOT.String() {
@@ -169,9 +169,9 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 		if remaining {
 			ps = append(ps, ". ...")
 		}
-		c.fprint("%s", strings.Join(ps, " "))
+		c.writeString(strings.Join(ps, " "))
 	}
-	c.fprintln(")")
+	c.writeString(")\n")
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From 17da30f80185d35298603266752a17b3a856748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 21/55] fix: the printer knows the precedence of =~ and =~?

---
 printer/opprec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printer/opprec.go b/printer/opprec.go
index e1ca348..b8d42ee 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -36,6 +36,8 @@ func opprec(op ast.Expr) int {
 			token.LTEQ,
 			token.LTEQCI,
 			token.LTEQCS,
+			token.MATCH,
+			token.MATCHCI,
 			token.MATCHCS,
 			token.NOMATCH,
 			token.NOMATCHCI,
-- 
2.43.0


From 583224578de1d4fa5646f23abf62ac71e0cbfb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 22/55] fix: print a comparison of a comparison with
 parentheses

---
 printer/expr.go   | 7 ++++++-
 printer/opprec.go | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/printer/expr.go b/printer/expr.go
index 44467c4..005725f 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -61,7 +61,12 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 		return
 	}
 	// TODO(haya14busa): handle line break.
-	p.expr1(x.Left, prec)
+	lprec := prec
+	if prec == opprecCompare {
+		// Comparisons cannot be chained.
+		lprec++
+	}
+	p.expr1(x.Left, lprec)
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
diff --git a/printer/opprec.go b/printer/opprec.go
index b8d42ee..a2e5579 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -7,6 +7,9 @@ import (
 	"github.com/vim-jp/go-vimlparser/token"
 )
 
+// opprecCompare is the operator precedence of comparisons.
+const opprecCompare = 4
+
 // opprec returns operator precedence. See also go/gocompiler.vim
 func opprec(op ast.Expr) int {
 	switch n := op.(type) {
@@ -48,7 +51,7 @@ func opprec(op ast.Expr) int {
 			token.ISNOT,
 			token.ISNOTCI,
 			token.ISNOTCS:
-			return 4
+			return opprecCompare
 		case token.PLUS, token.MINUS, token.DOT:
 			return 5
 		case token.STAR, token.SLASH, token.PERCENT:
-- 
2.43.0


From 2cb0d5d52ddc2872d764a9c7746eab539923654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 23/55] fix: printing an expression that is not supported is an
 error, not a panic

---
 printer/expr.go    | 73 ++++++++++++++++++++++++++++------------------
 printer/opprec.go  | 28 +++++++++---------
 printer/printer.go |  3 +-
 3 files changed, 60 insertions(+), 44 deletions(-)

diff --git a/printer/expr.go b/printer/expr.go
index 005725f..48b6af5 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -7,21 +7,29 @@ import (
 	"github.com/vim-jp/go-vimlparser/token"
 )
 
-func (p *printer) expr(expr ast.Expr) {
-	p.expr1(expr, 0)
+func (p *printer) expr(expr ast.Expr) error {
+	return p.expr1(expr, 0)
 }
 
-func (p *printer) expr1(expr ast.Expr, prec1 int) {
+func (p *printer) expr1(expr ast.Expr, prec1 int) error {
 	switch x := expr.(type) {
 	// case *ast.TernaryExpr:
 	case *ast.BinaryExpr:
-		p.binaryExpr(x, prec1)
+		return p.binaryExpr(x, prec1)
 	case *ast.UnaryExpr:
-		p.unaryExpr(x, prec1)
+		return p.unaryExpr(x, prec1)
 	case *ast.SubscriptExpr:
-		p.expr1(x.Left, opprec(x))
+		prec, err := opprec(x)
+		if err != nil {
+			return err
+		}
+		if err := p.expr1(x.Left, prec); err != nil {
+			return err
+		}
 		p.token(token.SQOPEN)
-		p.expr(x.Right)
+		if err := p.expr(x.Right); err != nil {
+			return err
+		}
 		p.token(token.SQCLOSE)
 	// case *ast.SliceExpr:
 	// case *ast.CallExpr:
@@ -38,27 +46,34 @@ func (p *printer) expr1(expr ast.Expr, prec1 int) {
 	// case *ast.LambdaExpr:
 	case *ast.ParenExpr:
 		if _, hasParens := x.X.(*ast.ParenExpr); hasParens {
-			p.expr(x.X)
-		} else {
-			p.token(token.POPEN)
-			p.expr(x.X)
-			p.token(token.PCLOSE)
+			return p.expr(x.X)
 		}
+		return p.parens(x.X)
 	default:
-		panic(fmt.Errorf("unsupported expr type %T", x))
+		return fmt.Errorf("unsupported expr type %T", x)
 	}
+	return nil
 }
 
-func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
-	prec := opprec(x)
+func (p *printer) parens(x ast.Expr) error {
+	p.token(token.POPEN)
+	if err := p.expr(x); err != nil {
+		return err
+	}
+	p.token(token.PCLOSE)
+	return nil
+}
+
+func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) error {
+	prec, err := opprec(x)
+	if err != nil {
+		return err
+	}
 	if prec < prec1 {
 		// parenthesis needed
 		// Note: The parser inserts an ast.ParenExpr node; thus this case
 		//       can only occur if the AST is created in a different way.
-		p.token(token.POPEN)
-		p.expr(x)
-		p.token(token.PCLOSE)
-		return
+		return p.parens(x)
 	}
 	// TODO(haya14busa): handle line break.
 	lprec := prec
@@ -66,25 +81,27 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 		// Comparisons cannot be chained.
 		lprec++
 	}
-	p.expr1(x.Left, lprec)
+	if err := p.expr1(x.Left, lprec); err != nil {
+		return err
+	}
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
-	p.expr1(x.Right, prec+1)
+	return p.expr1(x.Right, prec+1)
 }
 
-func (p *printer) unaryExpr(x *ast.UnaryExpr, prec1 int) {
-	prec := opprec(x)
+func (p *printer) unaryExpr(x *ast.UnaryExpr, prec1 int) error {
+	prec, err := opprec(x)
+	if err != nil {
+		return err
+	}
 	if prec < prec1 {
 		// parenthesis needed
 		// Note: this case can only occcur if the AST is created manually and
 		// the code should invalid code.
-		p.token(token.POPEN)
-		p.expr(x)
-		p.token(token.PCLOSE)
-		return
+		return p.parens(x)
 	}
 	// no parenthesis needed
 	p.token(x.Op)
-	p.expr1(x.X, prec)
+	return p.expr1(x.X, prec)
 }
diff --git a/printer/opprec.go b/printer/opprec.go
index a2e5579..16381d5 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -11,16 +11,16 @@ import (
 const opprecCompare = 4
 
 // opprec returns operator precedence. See also go/gocompiler.vim
-func opprec(op ast.Expr) int {
+func opprec(op ast.Expr) (int, error) {
 	switch n := op.(type) {
 	case *ast.TernaryExpr, *ast.ParenExpr:
-		return 1
+		return 1, nil
 	case *ast.BinaryExpr:
 		switch n.Op {
 		case token.OROR:
-			return 2
+			return 2, nil
 		case token.ANDAND:
-			return 3
+			return 3, nil
 		case token.EQEQ,
 			token.EQEQCI,
 			token.EQEQCS,
@@ -51,28 +51,28 @@ func opprec(op ast.Expr) int {
 			token.ISNOT,
 			token.ISNOTCI,
 			token.ISNOTCS:
-			return opprecCompare
+			return opprecCompare, nil
 		case token.PLUS, token.MINUS, token.DOT:
-			return 5
+			return 5, nil
 		case token.STAR, token.SLASH, token.PERCENT:
-			return 6
+			return 6, nil
 		default:
-			panic(fmt.Errorf("unexpected token of BinaryExpr: %v", n.Op))
+			return 0, fmt.Errorf("unexpected token of BinaryExpr: %v", n.Op)
 		}
 	case *ast.UnaryExpr:
 		switch n.Op {
 		case token.NOT, token.MINUS, token.PLUS:
-			return 7
+			return 7, nil
 		default:
-			panic(fmt.Errorf("unexpected token of UnaryExpr: %v", n.Op))
+			return 0, fmt.Errorf("unexpected token of UnaryExpr: %v", n.Op)
 		}
 	case *ast.SubscriptExpr, *ast.SliceExpr, *ast.CallExpr, *ast.DotExpr, *ast.MethodExpr:
-		return 8
+		return 8, nil
 	case *ast.BasicLit, *ast.Ident, *ast.List, *ast.Dict, *ast.CurlyName, *ast.HeredocExpr:
-		return 9
+		return 9, nil
 	case *ast.CurlyNameExpr, *ast.CurlyNameLit, *ast.LambdaExpr:
-		panic(fmt.Errorf("precedence is undefined for expr: %T", n))
+		return 0, fmt.Errorf("precedence is undefined for expr: %T", n)
 	default:
-		panic(fmt.Errorf("unexpected expr: %T", n))
+		return 0, fmt.Errorf("unexpected expr: %T", n)
 	}
 }
diff --git a/printer/printer.go b/printer/printer.go
index 7be5979..34e1c83 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -66,13 +66,12 @@ func (p *printer) printNode(node ast.Node) error {
 	case *ast.File:
 		return p.file(n)
 	case ast.Expr:
-		p.expr(n)
+		return p.expr(n)
 	case ast.Statement:
 		return p.stmt(n)
 	default:
 		return fmt.Errorf("go-vimlparser/printer: unsupported node type %T", node)
 	}
-	return nil
 }
 
 func (p *printer) file(f *ast.File) error {
-- 
2.43.0


From a96866f6f0a1c20dc8f24dbc4c74018cd43286d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 24/55] fix: bytes that are not valid UTF-8 reach the compiled
 text as they are

---
 compiler/compiler.go | 19 ++++++++++++-------
 go/vimlfunc.go       |  8 ++++----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index a896397..acc7f40 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	"github.com/vim-jp/go-vimlparser/token"
@@ -494,20 +495,24 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 
 func escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	for len(s) > 0 {
+		// A byte that is not valid UTF-8 is a character of its own.
+		_, n := utf8.DecodeRuneInString(s)
+		c := s[:n]
+		s = s[n:]
+		if strings.Contains(chars, c) {
 			switch c {
-			case '\n':
+			case "\n":
 				r += `\n`
-			case '\t':
+			case "\t":
 				r += `\t`
-			case '\r':
+			case "\r":
 				r += `\r`
 			default:
-				r += `\` + string(c)
+				r += `\` + c
 			}
 		} else {
-			r += string(c)
+			r += c
 		}
 	}
 	return r
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 3141b7c..4631d09 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -98,11 +98,11 @@ func viml_eqregh(s, reg string) bool {
 
 func viml_escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
-			r += `\` + string(c)
+	for _, c := range viml_split(s, `\zs`) {
+		if strings.Contains(chars, c) {
+			r += `\` + c
 		} else {
-			r += string(c)
+			r += c
 		}
 	}
 	return r
-- 
2.43.0


From fa3ca93d5d9ce98ca3cccc329a2fc99ee2d0aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 25/55] fix: the end marker of a here-document with trim may be
 indented

---
 autoload/vimlparser.vim | 21 ++++++++++++++++++++-
 go/typedefs.vim         |  1 +
 go/vimlparser.go        | 21 ++++++++++++++++++++-
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index ac7ddeb..8767f88 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1517,6 +1517,8 @@ function! s:VimLParser.parse_heredoc() abort
   let node.rlist = []
   let node.body = []
 
+  " with trim the end marker may have the indent of the command
+  let indent = ''
   while s:TRUE
     call self.reader.skip_white()
     let pos = self.reader.getpos()
@@ -1532,6 +1534,9 @@ function! s:VimLParser.parse_heredoc() abort
       let keynode.pos = pos
       let keynode.value = key
       call add(node.rlist, keynode)
+      if key ==# 'trim'
+        let indent = self.reader.read_indent(self.ea.linepos.i)
+      endif
     endif
   endwhile
   if node.op ==# ''
@@ -1544,7 +1549,7 @@ function! s:VimLParser.parse_heredoc() abort
     endif
     let pos = self.reader.getpos()
     let line = self.reader.getn(-1)
-    if line ==# node.op
+    if line ==# node.op || line ==# indent . node.op
       return node
     endif
     let linenode = s:Node(s:NODE_STRING)
@@ -4831,6 +4836,20 @@ function! s:StringReader.read_white() abort
   return r
 endfunction
 
+" white space at the start of the line that index i is in
+function! s:StringReader.read_indent(i) abort
+  let r = ''
+  let k = a:i
+  while k > 0 && self.buf[k - 1] !=# '<EOL>'
+    let k -= 1
+  endwhile
+  while s:iswhite(self.buf[k])
+    let r .= self.buf[k]
+    let k += 1
+  endwhile
+  return r
+endfunction
+
 function! s:StringReader.read_nonwhite() abort
   let r = ''
   let ch = self.peekn(1)
diff --git a/go/typedefs.vim b/go/typedefs.vim
index c53be39..6d65328 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -228,6 +228,7 @@ call extend(s:typedefs.func, {
 \   'StringReader.read_integer': { 'in': [], 'out': ['string'] },
 \   'StringReader.read_word': { 'in': [], 'out': ['string'] },
 \   'StringReader.read_white': { 'in': [], 'out': ['string'] },
+\   'StringReader.read_indent': { 'in': ['int'], 'out': ['string'] },
 \   'StringReader.read_nonwhite': { 'in': [], 'out': ['string'] },
 \   'StringReader.read_name': { 'in': [], 'out': ['string'] },
 \ })
diff --git a/go/vimlparser.go b/go/vimlparser.go
index a2fad44..daa47bc 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1378,6 +1378,8 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 	node.pos = self.ea.cmdpos
 	node.op = ""
 	node.rlist = []*VimNode{}
+	// with trim the end marker may have the indent of the command
+	var indent = ""
 	for true {
 		self.reader.skip_white()
 		var pos = self.reader.getpos()
@@ -1393,6 +1395,9 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 			keynode.pos = pos
 			keynode.value = key
 			node.rlist = append(node.rlist, keynode)
+			if key == "trim" {
+				indent = self.reader.read_indent(self.ea.linepos.i)
+			}
 		}
 	}
 	if node.op == "" {
@@ -1405,7 +1410,7 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 		}
 		var pos = self.reader.getpos()
 		var line = self.reader.getn(-1)
-		if line == node.op {
+		if line == node.op || line == indent+node.op {
 			return node
 		}
 		var linenode = Node(NODE_STRING)
@@ -3512,6 +3517,20 @@ func (self *StringReader) read_white() string {
 	return r
 }
 
+// white space at the start of the line that index i is in
+func (self *StringReader) read_indent(i int) string {
+	var r = ""
+	var k = i
+	for k > 0 && self.buf[k-1] != "<EOL>" {
+		k -= 1
+	}
+	for iswhite(self.buf[k]) {
+		r += self.buf[k]
+		k += 1
+	}
+	return r
+}
+
 func (self *StringReader) read_nonwhite() string {
 	var r = ""
 	var ch = self.peekn(1)
-- 
2.43.0


From ee8b22e1bfcc0ffe374ad09364236c38e5f75d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 26/55] fix: the position of a here-document is that of its =<<

---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 8767f88..f5e2424 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1603,10 +1603,12 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     let node.op = s2
   elseif s2 ==# '=<<'
+    let oppos = self.reader.getpos()
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
     let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
     call self.add_node(node)
     return
   elseif s1 ==# '='
diff --git a/go/vimlparser.go b/go/vimlparser.go
index daa47bc..824d3e4 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1460,10 +1460,12 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		node.op = s2
 	} else if s2 == "=<<" {
+		var oppos = self.reader.getpos()
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
 		node.right = self.parse_heredoc()
+		node.right.pos = oppos
 		self.add_node(node)
 		return
 	} else if s1 == "=" {
-- 
2.43.0


From 503340e500f3b511985430bc92bf93900e555721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 27/55] fix: the position of an expression in a curly-braces
 name is that of its brace

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f5e2424..720dd21 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4464,8 +4464,8 @@ function! s:ExprParser.parse_curly_parts() abort
       let node.value = name
       call add(curly_parts, node)
     elseif c ==# '{'
-      call self.reader.get()
       let pos = self.reader.getpos()
+      call self.reader.get()
       let node = s:Node(s:NODE_CURLYNAMEEXPR)
       let node.curly = s:TRUE " Keep backword compatibility for the curly attribute
       let node.pos = pos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 824d3e4..72a774d 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3202,8 +3202,8 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 			node.value = name
 			curly_parts = append(curly_parts, node)
 		} else if c == "{" {
-			self.reader.get()
 			pos = self.reader.getpos()
+			self.reader.get()
 			var node = Node(NODE_CURLYNAMEEXPR)
 			node.curly = true
 			// Keep backword compatibility for the curly attribute
-- 
2.43.0


From f6e3dcc3a866f0ed4f8b12dfae91c7e41b40a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 28/55] fix: the flags of :s may be the end of the line

---
 autoload/vimlparser.vim | 2 +-
 go/vimlfunc.go          | 2 +-
 go/vimlparser.go        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 720dd21..239d5f8 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -927,7 +927,7 @@ function! s:VimLParser.find_command() abort
   if c ==# 'k'
     call self.reader.getn(1)
     let name = 'k'
-  elseif c ==# 's' && self.reader.peekn(5) =~# '\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])'
+  elseif c ==# 's' && self.reader.peekn(5) =~# '\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))'
     call self.reader.getn(1)
     let name = 'substitute'
   elseif c =~# '[@*!=><&~#]'
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 4631d09..0c80e35 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -27,7 +27,7 @@ var patVim2Go = map[string]string{
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "[ \\t]",
 	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
-	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
+	"\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))": "^s(c($|[^sr]($|[^i]($|[^p])))|g|i($|[^mlg])|I|r($|[^e]))",
 	"\\w":                             "[0-9A-Za-z_]",
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
 	"\\x":                             "[0-9A-Fa-f]",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 72a774d..a14e6f2 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -815,7 +815,7 @@ func (self *VimLParser) find_command() *Cmd {
 	if c == "k" {
 		self.reader.getn(1)
 		name = "k"
-	} else if c == "s" && viml_eqregh(self.reader.peekn(5), "\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])") {
+	} else if c == "s" && viml_eqregh(self.reader.peekn(5), "\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))") {
 		self.reader.getn(1)
 		name = "substitute"
 	} else if viml_eqregh(c, "[@*!=><&~#]") {
-- 
2.43.0


From bd1191c10cecb7116a1c3fd2da59b3b26e3280e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 29/55] fix: :tc is :tcd, not :tcl

---
 autoload/vimlparser.vim | 2 +-
 go/builtin_commands.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 239d5f8..8a1a91a 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2611,7 +2611,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'tab', 'minlen': 3, 'flags': 'NEEDARG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
       \ {'name': 'tag', 'minlen': 2, 'flags': 'RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR', 'parser': 'parse_cmd_common'},
       \ {'name': 'tags', 'minlen': 4, 'flags': 'TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
-      \ {'name': 'tcl', 'minlen': 2, 'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'parser': 'parse_cmd_tcl'},
+      \ {'name': 'tcl', 'minlen': 3, 'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'parser': 'parse_cmd_tcl'},
       \ {'name': 'tcldo', 'minlen': 4, 'flags': 'RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'tclfile', 'minlen': 4, 'flags': 'RANGE|FILE1|NEEDARG|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'tearoff', 'minlen': 2, 'flags': 'NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 9ba4b19..2cfe2a5 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -458,7 +458,7 @@ var builtin_commands = []*Cmd{
 	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "tab", parser: "parse_cmd_common"},
 	{flags: "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", minlen: 2, name: "tag", parser: "parse_cmd_common"},
 	{flags: "TRLBAR|CMDWIN", minlen: 4, name: "tags", parser: "parse_cmd_common"},
-	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 2, name: "tcl", parser: "parse_cmd_tcl"},
+	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "tcl", parser: "parse_cmd_tcl"},
 	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "tcldo", parser: "parse_cmd_common"},
 	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "tclfile", parser: "parse_cmd_common"},
 	{flags: "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN", minlen: 2, name: "tearoff", parser: "parse_cmd_common"},
-- 
2.43.0


From ba5a48e3c7074885f0fb62a5f7f47f1d63698ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 30/55] fix: " after @ and * is the name of a register

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 8a1a91a..bc72271 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1172,7 +1172,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif c ==# '|' || c ==# "\n" ||
           \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
-          \       || self.reader.getpos() !=# self.ea.argpos)
+          \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
           \       || self.reader.getpos().i !=# self.ea.argpos.i + 1 || pc !=# '@'))
       let has_cpo_bar = s:FALSE " &cpoptions =~ 'b'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index a14e6f2..5597e7b 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1045,7 +1045,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos() != self.ea.argpos) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
-- 
2.43.0


From fb524766f9cc3daac87e965355325f64dfdc6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 31/55] fix: pyx and pythonx take a script, too

---
 autoload/vimlparser.vim | 4 ++--
 go/builtin_commands.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index bc72271..f3b9ce3 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2711,9 +2711,9 @@ let s:VimLParser.builtin_commands = [
       \ {'flags': 'BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN', 'minlen': 2, 'name': 'packadd', 'parser': 'parse_cmd_common'},
       \ {'flags': 'BANG|TRLBAR|SBOXOK|CMDWIN', 'minlen': 5, 'name': 'packloadall', 'parser': 'parse_cmd_common'},
       \ {'flags': 'TRLBAR|CMDWIN|SBOXOK', 'minlen': 3, 'name': 'smile', 'parser': 'parse_cmd_common'},
-      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 3, 'name': 'pyx', 'parser': 'parse_cmd_common'},
+      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 3, 'name': 'pyx', 'parser': 'parse_cmd_python'},
       \ {'flags': 'RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN', 'minlen': 4, 'name': 'pyxdo', 'parser': 'parse_cmd_common'},
-      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 7, 'name': 'pythonx', 'parser': 'parse_cmd_common'},
+      \ {'flags': 'RANGE|EXTRA|NEEDARG|CMDWIN', 'minlen': 7, 'name': 'pythonx', 'parser': 'parse_cmd_python'},
       \ {'flags': 'RANGE|FILE1|NEEDARG|CMDWIN', 'minlen': 4, 'name': 'pyxfile', 'parser': 'parse_cmd_common'},
       \ {'flags': 'RANGE|BANG|FILES|CMDWIN', 'minlen': 3, 'name': 'terminal', 'parser': 'parse_cmd_common'},
       \ {'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'minlen': 3, 'name': 'tmap', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 2cfe2a5..1c29b2a 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -557,9 +557,9 @@ var builtin_commands = []*Cmd{
 	{flags: "BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "packadd", parser: "parse_cmd_common"},
 	{flags: "BANG|TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "packloadall", parser: "parse_cmd_common"},
 	{flags: "TRLBAR|CMDWIN|SBOXOK", minlen: 3, name: "smile", parser: "parse_cmd_common"},
-	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "pyx", parser: "parse_cmd_common"},
+	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "pyx", parser: "parse_cmd_python"},
 	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "pyxdo", parser: "parse_cmd_common"},
-	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 7, name: "pythonx", parser: "parse_cmd_common"},
+	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 7, name: "pythonx", parser: "parse_cmd_python"},
 	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "pyxfile", parser: "parse_cmd_common"},
 	{flags: "RANGE|BANG|FILES|CMDWIN", minlen: 3, name: "terminal", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "tmap", parser: "parse_cmd_common"},
-- 
2.43.0


From 91b42e2312a0e90de398cb8dbf3409fd3cc0b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 32/55] fix: the lines after :change are text

---
 autoload/vimlparser.vim | 2 +-
 go/builtin_commands.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f3b9ce3..0b7c075 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2213,7 +2213,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'buffers', 'minlen': 7, 'flags': 'BANG|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'bunload', 'minlen': 3, 'flags': 'BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'bwipeout', 'minlen': 2, 'flags': 'BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
-      \ {'name': 'change', 'minlen': 1, 'flags': 'BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY', 'parser': 'parse_cmd_common'},
+      \ {'name': 'change', 'minlen': 1, 'flags': 'BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY', 'parser': 'parse_cmd_append'},
       \ {'name': 'cNext', 'minlen': 2, 'flags': 'RANGE|NOTADR|COUNT|TRLBAR|BANG', 'parser': 'parse_cmd_common'},
       \ {'name': 'cNfile', 'minlen': 3, 'flags': 'RANGE|NOTADR|COUNT|TRLBAR|BANG', 'parser': 'parse_cmd_common'},
       \ {'name': 'cabbrev', 'minlen': 2, 'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 1c29b2a..1b6abb2 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -60,7 +60,7 @@ var builtin_commands = []*Cmd{
 	{flags: "BANG|TRLBAR|CMDWIN", minlen: 7, name: "buffers", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", minlen: 3, name: "bunload", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", minlen: 2, name: "bwipeout", parser: "parse_cmd_common"},
-	{flags: "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "change", parser: "parse_cmd_common"},
+	{flags: "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "change", parser: "parse_cmd_append"},
 	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "cNext", parser: "parse_cmd_common"},
 	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "cNfile", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "cabbrev", parser: "parse_cmd_common"},
-- 
2.43.0


From 99c96f8f9870e1d4e0a03c4bbec9b42a9e1d3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 33/55] fix: dl and dp are :d with a flag

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 0c80e35..9f20aa7 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -26,7 +26,7 @@ var patVim2Go = map[string]string{
 	"\\d":                               "\\d",
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "[ \\t]",
-	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
+	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)?[lp]$",
 	"\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))": "^s(c($|[^sr]($|[^i]($|[^p])))|g|i($|[^mlg])|I|r($|[^e]))",
 	"\\w":                             "[0-9A-Za-z_]",
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-- 
2.43.0


From f7ed22e1ac36206a04dbdc1b16420b6e7f849003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 34/55] fix: Cmd of a line with only a range or modifiers is no
 fault

---
 ast/node.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index bc64b19..2721b0a 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -56,7 +56,15 @@ type Excmd struct {
 }
 
 func (e *Excmd) Pos() Pos { return e.Excmd }
-func (e *Excmd) Cmd() Cmd { return *e.ExArg.Cmd }
+
+// Cmd returns the command: the zero Cmd for a line that has only a range or
+// modifiers.
+func (e *Excmd) Cmd() Cmd {
+	if e.ExArg.Cmd == nil {
+		return Cmd{}
+	}
+	return *e.ExArg.Cmd
+}
 
 // vimlparser: FUNCTION .ea .body .left .rlist .attr .endfunction
 type Function struct {
-- 
2.43.0


From 722aa4ec99104f833c8ffe642d40f9010ecf4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 35/55] fix: an escaped blank at the end of a command is a part
 of it

---
 autoload/vimlparser.vim | 5 ++++-
 go/vimlparser.go        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 0b7c075..f2def54 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1142,11 +1142,12 @@ function! s:VimLParser.separate_nextcmd() abort
     call self.skip_vimgrep_pat()
   endif
   let pc = ''
+  let escaped = s:FALSE
   let end = self.reader.getpos()
   let nospend = end
   while s:TRUE
     let end = self.reader.getpos()
-    if !s:iswhite(pc)
+    if !s:iswhite(pc) || escaped
       let nospend = end
     endif
     let c = self.reader.peek()
@@ -1154,6 +1155,7 @@ function! s:VimLParser.separate_nextcmd() abort
       break
     elseif c ==# "\x16" " <C-V>
       call self.reader.get()
+      let pc = c
       let end = self.reader.getpos()
       let nospend = self.reader.getpos()
       let c = self.reader.peek()
@@ -1184,6 +1186,7 @@ function! s:VimLParser.separate_nextcmd() abort
     else
       call self.reader.get()
     endif
+    let escaped = pc ==# '\' || pc ==# "\x16"
     let pc = c
   endwhile
   if self.ea.cmd.flags !~# '\<NOTRLCOM\>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 5597e7b..f6f4930 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1017,11 +1017,12 @@ func (self *VimLParser) separate_nextcmd() *pos {
 		self.skip_vimgrep_pat()
 	}
 	var pc = ""
+	var escaped = false
 	var end = self.reader.getpos()
 	var nospend = end
 	for true {
 		end = self.reader.getpos()
-		if !iswhite(pc) {
+		if !iswhite(pc) || escaped {
 			nospend = end
 		}
 		var c = self.reader.peek()
@@ -1030,6 +1031,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 		} else if c == "\x16" {
 			// <C-V>
 			self.reader.get()
+			pc = c
 			end = self.reader.getpos()
 			nospend = self.reader.getpos()
 			c = self.reader.peek()
@@ -1056,6 +1058,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 		} else {
 			self.reader.get()
 		}
+		escaped = pc == "\\" || pc == "\x16"
 		pc = c
 	}
 	if !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") {
-- 
2.43.0


From 697d7094e186c8b4163d3beeedcd48d5fb68b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 36/55] fix: nothing but a comment can follow the marker of a
 here-document

---
 autoload/vimlparser.vim | 7 ++++++-
 go/vimlparser.go        | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f2def54..943abfd 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1545,6 +1545,10 @@ function! s:VimLParser.parse_heredoc() abort
   if node.op ==# ''
     throw s:Err('E172: Missing marker', self.reader.getpos())
   endif
+  call self.reader.skip_white()
+  if self.reader.peek() ==# '|'
+    throw s:Err('E488: Trailing characters: |', self.reader.getpos())
+  endif
   call self.parse_trail()
   while s:TRUE
     if self.reader.peek() ==# '<EOF>'
@@ -1610,9 +1614,10 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
+    " a comment behind the marker comes after the node
+    call self.add_node(node)
     let node.right = self.parse_heredoc()
     let node.right.pos = oppos
-    call self.add_node(node)
     return
   elseif s1 ==# '='
     call self.reader.getn(1)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index f6f4930..def16a7 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1406,6 +1406,10 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 	if node.op == "" {
 		panic(Err("E172: Missing marker", self.reader.getpos()))
 	}
+	self.reader.skip_white()
+	if self.reader.peek() == "|" {
+		panic(Err("E488: Trailing characters: |", self.reader.getpos()))
+	}
 	self.parse_trail()
 	for true {
 		if self.reader.peek() == "<EOF>" {
@@ -1467,9 +1471,10 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
+		// a comment behind the marker comes after the node
+		self.add_node(node)
 		node.right = self.parse_heredoc()
 		node.right.pos = oppos
-		self.add_node(node)
 		return
 	} else if s1 == "=" {
 		self.reader.getn(1)
-- 
2.43.0


From 00faa249de0aa8b345b2700653874c509a5b1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 37/55] fix: :const takes a here-document

---
 autoload/vimlparser.vim | 13 +++++++++++--
 go/vimlparser.go        | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 943abfd..add56a2 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1655,11 +1655,20 @@ function! s:VimLParser.parse_cmd_const() abort
   let node = s:Node(s:NODE_CONST)
   let node.pos = self.ea.cmdpos
   let node.ea = self.ea
-  call self.reader.getn(1)
-  let node.op = s1
   let node.left = lhs.left
   let node.list = lhs.list
   let node.rest = lhs.rest
+  if self.reader.peekn(3) ==# '=<<'
+    let oppos = self.reader.getpos()
+    let node.op = self.reader.getn(3)
+    " a comment behind the marker comes after the node
+    call self.add_node(node)
+    let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
+    return
+  endif
+  call self.reader.getn(1)
+  let node.op = s1
   let node.right = self.parse_expr()
   call self.add_node(node)
 endfunction
diff --git a/go/vimlparser.go b/go/vimlparser.go
index def16a7..66635ec 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1508,11 +1508,20 @@ func (self *VimLParser) parse_cmd_const() {
 	var node = Node(NODE_CONST)
 	node.pos = self.ea.cmdpos
 	node.ea = self.ea
-	self.reader.getn(1)
-	node.op = s1
 	node.left = lhs.left
 	node.list = lhs.list
 	node.rest = lhs.rest
+	if self.reader.peekn(3) == "=<<" {
+		var oppos = self.reader.getpos()
+		node.op = self.reader.getn(3)
+		// a comment behind the marker comes after the node
+		self.add_node(node)
+		node.right = self.parse_heredoc()
+		node.right.pos = oppos
+		return
+	}
+	self.reader.getn(1)
+	node.op = s1
 	node.right = self.parse_expr()
 	self.add_node(node)
 }
-- 
2.43.0


From 9e312a854ff496386781e4fc3d636cfc0acdc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 38/55] fix: collections in patterns end where Vim ends them

---
 autoload/vimlparser.vim | 29 ++++++++++++++++++++++++++---
 go/vimlparser.go        | 29 ++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index add56a2..e13eecf 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -728,10 +728,33 @@ function! s:VimLParser.parse_pattern(delimiter) abort
       endif
       call self.reader.getn(1)
       let pattern .= c
+    elseif c ==# '[' && inbracket ==# 0
+      let inbracket = 1
+      " a ] at the start of a collection does not end it
+      if self.reader.peekn(1) ==# '^'
+        let pattern .= self.reader.getn(1)
+      endif
+      if self.reader.peekn(1) ==# ']'
+        let pattern .= self.reader.getn(1)
+      endif
     elseif c ==# '['
-      let inbracket += 1
-    elseif c ==# ']'
-      let inbracket -= 1
+      " [:name:], [=c=] and [.c.] in a collection
+      let m = self.reader.p(0)
+      if m ==# ':' || m ==# '=' || m ==# '.'
+        let i = 1
+        if m ==# ':'
+          while s:isalpha(self.reader.p(i))
+            let i += 1
+          endwhile
+        elseif self.reader.p(i) !=# '<EOL>'
+          let i += 1
+        endif
+        if self.reader.p(i) ==# m && self.reader.p(i + 1) ==# ']'
+          let pattern .= self.reader.getn(i + 2)
+        endif
+      endif
+    elseif c ==# ']' && inbracket !=# 0
+      let inbracket = 0
     endif
   endwhile
   return [pattern, endc]
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 66635ec..c92b2ff 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -631,10 +631,33 @@ func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
 			}
 			self.reader.getn(1)
 			pattern += c
+		} else if c == "[" && inbracket == 0 {
+			inbracket = 1
+			// a ] at the start of a collection does not end it
+			if self.reader.peekn(1) == "^" {
+				pattern += self.reader.getn(1)
+			}
+			if self.reader.peekn(1) == "]" {
+				pattern += self.reader.getn(1)
+			}
 		} else if c == "[" {
-			inbracket += 1
-		} else if c == "]" {
-			inbracket -= 1
+			// [:name:], [=c=] and [.c.] in a collection
+			var m = self.reader.p(0)
+			if m == ":" || m == "=" || m == "." {
+				var i = 1
+				if m == ":" {
+					for isalpha(self.reader.p(i)) {
+						i += 1
+					}
+				} else if self.reader.p(i) != "<EOL>" {
+					i += 1
+				}
+				if self.reader.p(i) == m && self.reader.p(i+1) == "]" {
+					pattern += self.reader.getn(i + 2)
+				}
+			}
+		} else if c == "]" && inbracket != 0 {
+			inbracket = 0
 		}
 	}
 	return pattern, endc
-- 
2.43.0


From 0f4dab012cd57d93d37878df661d4ec50aa047b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 39/55] fix: :syntax ends at a bar behind its patterns and
 options, not in them

---
 autoload/vimlparser.vim | 41 ++++++++++++++++++++++++++++++++++++-----
 go/vimlparser.go        | 41 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e13eecf..caff50b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1227,9 +1227,11 @@ function! s:VimLParser.skip_vimgrep_pat() abort
     call self.reader.read_nonwhite()
   else
     " :vimgrep /pattern/[g][j] fname
+    let pos = self.reader.tell()
     let c = self.reader.getn(1)
     let [_, endc] = self.parse_pattern(c)
     if c !=# endc
+      call self.reader.seek_set(pos)
       return
     endif
     while self.reader.p(0) ==# 'g' || self.reader.p(0) ==# 'j'
@@ -2173,20 +2175,49 @@ endfunction
 
 " FIXME: validate argument
 function! s:VimLParser.parse_cmd_syntax() abort
+  let sub = self.reader.read_alpha()
+  call self.reader.skip_white()
+  if sub ==# 'sync'
+    let sub = self.reader.read_alpha()
+    call self.reader.skip_white()
+  endif
+  " {group-name}
+  if (sub ==# 'match' || sub ==# 'region') && !self.ends_excmds(self.reader.peek())
+    call self.reader.read_nonwhite()
+    call self.reader.skip_white()
+  endif
+  " a {pattern} without a key
+  let bare = sub ==# 'match' || sub ==# 'linecont'
   let end = self.reader.getpos()
   while s:TRUE
     let end = self.reader.getpos()
     let c = self.reader.peek()
-    if c ==# '/' || c ==# "'" || c ==# '"'
+    if s:iswordc(c)
+      let key = self.reader.read_word()
+      let pat = key ==# 'start' || key ==# 'skip' || key ==# 'end'
+      let val = pat || key ==# 'matchgroup' || key ==# 'cchar' || key ==# 'contains' || key ==# 'containedin' || key ==# 'nextgroup'
+      if val
+        call self.reader.skip_white()
+      endif
+      if self.reader.peekn(1) ==# '=' && (val || !bare)
+        call self.reader.getn(1)
+        call self.reader.skip_white()
+        let c = self.reader.getn(1)
+        if pat
+          call self.parse_pattern(c)
+        elseif val && key !=# 'cchar'
+          call self.reader.read_nonwhite()
+        endif
+      endif
+    elseif bare && !s:iswhite(c) && c !=# '|' && c !=# '<EOL>' && c !=# '<EOF>'
       call self.reader.getn(1)
       call self.parse_pattern(c)
-    elseif c ==# '='
-      call self.reader.getn(1)
-      call self.parse_pattern(' ')
+      let bare = s:FALSE
     elseif self.ends_excmds(c)
       break
+    else
+      call self.reader.getn(1)
     endif
-    call self.reader.getn(1)
   endwhile
   let node = s:Node(s:NODE_EXCMD)
   let node.pos = self.ea.cmdpos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index c92b2ff..fc1f981 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1099,9 +1099,11 @@ func (self *VimLParser) skip_vimgrep_pat() {
 		self.reader.read_nonwhite()
 	} else {
 		// :vimgrep /pattern/[g][j] fname
+		var pos = self.reader.tell()
 		var c = self.reader.getn(1)
 		var _, endc = self.parse_pattern(c)
 		if c != endc {
+			self.reader.seek_set(pos)
 			return
 		}
 		for self.reader.p(0) == "g" || self.reader.p(0) == "j" {
@@ -2008,20 +2010,49 @@ func (self *VimLParser) parse_wincmd() {
 
 // FIXME: validate argument
 func (self *VimLParser) parse_cmd_syntax() {
+	var sub = self.reader.read_alpha()
+	self.reader.skip_white()
+	if sub == "sync" {
+		sub = self.reader.read_alpha()
+		self.reader.skip_white()
+	}
+	// {group-name}
+	if (sub == "match" || sub == "region") && !self.ends_excmds(self.reader.peek()) {
+		self.reader.read_nonwhite()
+		self.reader.skip_white()
+	}
+	// a {pattern} without a key
+	var bare = sub == "match" || sub == "linecont"
 	var end = self.reader.getpos()
 	for true {
 		end = self.reader.getpos()
 		var c = self.reader.peek()
-		if c == "/" || c == "'" || c == "\"" {
+		if iswordc(c) {
+			var key = self.reader.read_word()
+			var pat = key == "start" || key == "skip" || key == "end"
+			var val = pat || key == "matchgroup" || key == "cchar" || key == "contains" || key == "containedin" || key == "nextgroup"
+			if val {
+				self.reader.skip_white()
+			}
+			if self.reader.peekn(1) == "=" && (val || !bare) {
+				self.reader.getn(1)
+				self.reader.skip_white()
+				c = self.reader.getn(1)
+				if pat {
+					self.parse_pattern(c)
+				} else if val && key != "cchar" {
+					self.reader.read_nonwhite()
+				}
+			}
+		} else if bare && !iswhite(c) && c != "|" && c != "<EOL>" && c != "<EOF>" {
 			self.reader.getn(1)
 			self.parse_pattern(c)
-		} else if c == "=" {
-			self.reader.getn(1)
-			self.parse_pattern(" ")
+			bare = false
 		} else if self.ends_excmds(c) {
 			break
+		} else {
+			self.reader.getn(1)
 		}
-		self.reader.getn(1)
 	}
 	var node = Node(NODE_EXCMD)
 	node.pos = self.ea.cmdpos
-- 
2.43.0


From 2cc142a8518ceb44dcf3c98905f9a18463d02812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 40/55] fix: a bar separates :hide from the next command

---
 autoload/vimlparser.vim | 2 +-
 go/builtin_commands.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index caff50b..3ce2cc0 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2410,7 +2410,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'helpgrep', 'minlen': 5, 'flags': 'EXTRA|NOTRLCOM|NEEDARG', 'parser': 'parse_cmd_common'},
       \ {'name': 'helptags', 'minlen': 5, 'flags': 'NEEDARG|FILES|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'highlight', 'minlen': 2, 'flags': 'BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN', 'parser': 'parse_cmd_common'},
-      \ {'name': 'hide', 'minlen': 3, 'flags': 'BANG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
+      \ {'name': 'hide', 'minlen': 3, 'flags': 'BANG|RANGE|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'history', 'minlen': 3, 'flags': 'EXTRA|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'insert', 'minlen': 1, 'flags': 'BANG|RANGE|TRLBAR|CMDWIN|MODIFY', 'parser': 'parse_cmd_insert'},
       \ {'name': 'iabbrev', 'minlen': 2, 'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 1b6abb2..28f7f4a 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -186,7 +186,7 @@ var builtin_commands = []*Cmd{
 	{flags: "EXTRA|NOTRLCOM|NEEDARG", minlen: 5, name: "helpgrep", parser: "parse_cmd_common"},
 	{flags: "NEEDARG|FILES|TRLBAR|CMDWIN", minlen: 5, name: "helptags", parser: "parse_cmd_common"},
 	{flags: "BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "highlight", parser: "parse_cmd_common"},
-	{flags: "BANG|EXTRA|NOTRLCOM", minlen: 3, name: "hide", parser: "parse_cmd_common"},
+	{flags: "BANG|RANGE|COUNT|EXTRA|TRLBAR", minlen: 3, name: "hide", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "history", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "insert", parser: "parse_cmd_insert"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "iabbrev", parser: "parse_cmd_common"},
-- 
2.43.0


From 320fa8faf51dec4b2b1b2aa9ca7c8e2b2bf79b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:32 +0000
Subject: [PATCH 41/55] fix: a bar behind :s, :&, :~, :match and :sort
 separates commands

---
 autoload/vimlparser.vim | 64 +++++++++++++++++++++++++++++++++++++++--
 go/typedefs.vim         |  4 +++
 go/vimlparser.go        | 64 +++++++++++++++++++++++++++++++++++++++--
 3 files changed, 126 insertions(+), 6 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 3ce2cc0..679dbee 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1136,7 +1136,7 @@ endfunction
 " TODO:
 function! s:VimLParser.parse_cmd_common() abort
   let end = self.reader.getpos()
-  if self.ea.cmd.flags =~# '\<TRLBAR\>' && !self.ea.usefilter
+  if (self.ea.cmd.flags =~# '\<TRLBAR\>' && !self.ea.usefilter) || self.skip_pattern_args()
     let end = self.separate_nextcmd()
   elseif self.ea.cmd.name ==# '!' || self.ea.cmd.name ==# 'global' || self.ea.cmd.name ==# 'vglobal' || self.ea.usefilter
     while s:TRUE
@@ -1160,12 +1160,70 @@ function! s:VimLParser.parse_cmd_common() abort
   call self.add_node(node)
 endfunction
 
+" Some commands without TRLBAR look for a bar behind their pattern themselves.
+" Skip what they take, return FALSE for other commands.
+function! s:VimLParser.skip_pattern_args() abort
+  let name = self.ea.cmd.name
+  let pos = self.reader.tell()
+  let c = self.reader.peekn(1)
+  if name ==# '&' || name ==# '~'
+    return s:TRUE
+  elseif name ==# 'substitute' || name ==# 'smagic' || name ==# 'snomagic'
+    " :s/pattern/string/[flags] [count]
+    if self.ends_excmds(c) || s:isalnum(c)
+      return s:TRUE
+    endif
+    call self.reader.getn(1)
+    if c ==# '\'
+      let c = self.reader.getn(1)
+    else
+      call self.parse_pattern(c)
+    endif
+    while s:TRUE
+      let s = self.reader.getn(1)
+      if s ==# '' || s ==# c
+        break
+      elseif s ==# '\'
+        call self.reader.getn(1)
+      endif
+    endwhile
+    return s:TRUE
+  elseif name ==# 'match'
+    " :match {group} /pattern/
+    while !self.ends_excmds(c) && !s:iswhite(c)
+      call self.reader.getn(1)
+      let c = self.reader.peekn(1)
+    endwhile
+    call self.reader.skip_white()
+    if !self.ends_excmds(self.reader.peekn(1))
+      call self.parse_pattern(self.reader.getn(1))
+    else
+      call self.reader.seek_set(pos)
+    endif
+    return s:TRUE
+  elseif name ==# 'sort'
+    " :sort [flags] [/pattern/] [flags]
+    while s:isalpha(c) || s:iswhite(c)
+      call self.reader.getn(1)
+      let c = self.reader.peekn(1)
+    endwhile
+    if !self.ends_excmds(c)
+      call self.parse_pattern(self.reader.getn(1))
+    else
+      call self.reader.seek_set(pos)
+    endif
+    return s:TRUE
+  endif
+  return s:FALSE
+endfunction
+
 function! s:VimLParser.separate_nextcmd() abort
   if self.ea.cmd.name ==# 'vimgrep' || self.ea.cmd.name ==# 'vimgrepadd' || self.ea.cmd.name ==# 'lvimgrep' || self.ea.cmd.name ==# 'lvimgrepadd'
     call self.skip_vimgrep_pat()
   endif
   let pc = ''
   let escaped = s:FALSE
+  let trlcom = self.ea.cmd.flags !~# '\<NOTRLCOM\>' || self.ea.cmd.name ==# 'sort'
   let end = self.reader.getpos()
   let nospend = end
   while s:TRUE
@@ -1195,7 +1253,7 @@ function! s:VimLParser.separate_nextcmd() abort
       endif
       call self.reader.getn(1)
     elseif c ==# '|' || c ==# "\n" ||
-          \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
+          \ (c ==# '"' && trlcom
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
           \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
@@ -1212,7 +1270,7 @@ function! s:VimLParser.separate_nextcmd() abort
     let escaped = pc ==# '\' || pc ==# "\x16"
     let pc = c
   endwhile
-  if self.ea.cmd.flags !~# '\<NOTRLCOM\>'
+  if trlcom
     let end = nospend
   endif
   return end
diff --git a/go/typedefs.vim b/go/typedefs.vim
index 6d65328..6881dbd 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -97,6 +97,10 @@ call extend(s:typedefs.func, {
 \     'in': [],
 \     'out': ['*lhs'],
 \   },
+\   'VimLParser.skip_pattern_args': {
+\     'in': [],
+\     'out': ['bool'],
+\   },
 \   'VimLParser.ends_excmds': {
 \     'in': ['string'],
 \     'out': ['bool'],
diff --git a/go/vimlparser.go b/go/vimlparser.go
index fc1f981..1107075 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1011,7 +1011,7 @@ func (self *VimLParser) parse_cmd_modifier_range() {
 // TODO:
 func (self *VimLParser) parse_cmd_common() {
 	var end = self.reader.getpos()
-	if viml_eqregh(self.ea.cmd.flags, "\\<TRLBAR\\>") && !self.ea.usefilter {
+	if (viml_eqregh(self.ea.cmd.flags, "\\<TRLBAR\\>") && !self.ea.usefilter) || self.skip_pattern_args() {
 		end = self.separate_nextcmd()
 	} else if self.ea.cmd.name == "!" || self.ea.cmd.name == "global" || self.ea.cmd.name == "vglobal" || self.ea.usefilter {
 		for true {
@@ -1035,12 +1035,70 @@ func (self *VimLParser) parse_cmd_common() {
 	self.add_node(node)
 }
 
+// Some commands without TRLBAR look for a bar behind their pattern themselves.
+// Skip what they take, return FALSE for other commands.
+func (self *VimLParser) skip_pattern_args() bool {
+	var name = self.ea.cmd.name
+	var pos = self.reader.tell()
+	var c = self.reader.peekn(1)
+	if name == "&" || name == "~" {
+		return true
+	} else if name == "substitute" || name == "smagic" || name == "snomagic" {
+		// :s/pattern/string/[flags] [count]
+		if self.ends_excmds(c) || isalnum(c) {
+			return true
+		}
+		self.reader.getn(1)
+		if c == "\\" {
+			c = self.reader.getn(1)
+		} else {
+			self.parse_pattern(c)
+		}
+		for true {
+			var s = self.reader.getn(1)
+			if s == "" || s == c {
+				break
+			} else if s == "\\" {
+				self.reader.getn(1)
+			}
+		}
+		return true
+	} else if name == "match" {
+		// :match {group} /pattern/
+		for !self.ends_excmds(c) && !iswhite(c) {
+			self.reader.getn(1)
+			c = self.reader.peekn(1)
+		}
+		self.reader.skip_white()
+		if !self.ends_excmds(self.reader.peekn(1)) {
+			self.parse_pattern(self.reader.getn(1))
+		} else {
+			self.reader.seek_set(pos)
+		}
+		return true
+	} else if name == "sort" {
+		// :sort [flags] [/pattern/] [flags]
+		for isalpha(c) || iswhite(c) {
+			self.reader.getn(1)
+			c = self.reader.peekn(1)
+		}
+		if !self.ends_excmds(c) {
+			self.parse_pattern(self.reader.getn(1))
+		} else {
+			self.reader.seek_set(pos)
+		}
+		return true
+	}
+	return false
+}
+
 func (self *VimLParser) separate_nextcmd() *pos {
 	if self.ea.cmd.name == "vimgrep" || self.ea.cmd.name == "vimgrepadd" || self.ea.cmd.name == "lvimgrep" || self.ea.cmd.name == "lvimgrepadd" {
 		self.skip_vimgrep_pat()
 	}
 	var pc = ""
 	var escaped = false
+	var trlcom = !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") || self.ea.cmd.name == "sort"
 	var end = self.reader.getpos()
 	var nospend = end
 	for true {
@@ -1070,7 +1128,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && trlcom && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
@@ -1084,7 +1142,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 		escaped = pc == "\\" || pc == "\x16"
 		pc = c
 	}
-	if !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") {
+	if trlcom {
 		end = nospend
 	}
 	return end
-- 
2.43.0


From e3495bbf78fb26c15eee7c9c9276467cac533021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 42/55] fix: blanks may stand between the expression and the
 second backtick

---
 autoload/vimlparser.vim | 1 +
 go/vimlparser.go        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 679dbee..b93d264 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1247,6 +1247,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif self.reader.peekn(2) ==# '`=' && self.ea.cmd.flags =~# '\<\(XFILE\|FILES\|FILE1\)\>'
       call self.reader.getn(2)
       call self.parse_expr()
+      call self.reader.skip_white()
       let c = self.reader.peekn(1)
       if c !=# '`'
         throw s:Err(printf('unexpected character: %s', c), self.reader.getpos())
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1107075..1a06e63 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1123,6 +1123,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 		} else if self.reader.peekn(2) == "`=" && viml_eqregh(self.ea.cmd.flags, "\\<\\(XFILE\\|FILES\\|FILE1\\)\\>") {
 			self.reader.getn(2)
 			self.parse_expr()
+			self.reader.skip_white()
 			c = self.reader.peekn(1)
 			if c != "`" {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
-- 
2.43.0


From 9a01c32879f15ec29cf1bf438f5ad387c877d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 43/55] fix: modifiers behind silent! are modifiers, and :hide
 on its own is a command

---
 autoload/vimlparser.vim | 5 ++++-
 go/vimlparser.go        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index b93d264..15fa18a 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -575,7 +575,9 @@ function! s:VimLParser.parse_command_modifiers() abort
     elseif stridx('keeppatterns', k) ==# 0 && len(k) >= 5 " keepp\%[atterns]
       call add(modifiers, {'name': 'keeppatterns'})
     elseif stridx('hide', k) ==# 0 && len(k) >= 3 " hid\%[e]
-      if self.ends_excmds(c)
+      if self.ends_excmds(self.reader.peekn(1))
+        " the command :hide
+        call self.reader.seek_set(pos)
         break
       endif
       call add(modifiers, {'name': 'hide'})
@@ -594,6 +596,7 @@ function! s:VimLParser.parse_command_modifiers() abort
     elseif stridx('silent', k) ==# 0 && len(k) >= 3 " sil\%[ent]
       if c ==# '!'
         call self.reader.get()
+        call self.reader.skip_white()
         call add(modifiers, {'name': 'silent', 'bang': 1})
       else
         call add(modifiers, {'name': 'silent', 'bang': 0})
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1a06e63..0687848 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -475,7 +475,9 @@ func (self *VimLParser) parse_command_modifiers() {
 			modifiers = append(modifiers, map[string]interface{}{"name": "keeppatterns"})
 		} else if viml_stridx("hide", k) == 0 && len(k) >= 3 {
 			// hid\%[e]
-			if self.ends_excmds(c) {
+			if self.ends_excmds(self.reader.peekn(1)) {
+				// the command :hide
+				self.reader.seek_set(pos)
 				break
 			}
 			modifiers = append(modifiers, map[string]interface{}{"name": "hide"})
@@ -501,6 +503,7 @@ func (self *VimLParser) parse_command_modifiers() {
 			// sil\%[ent]
 			if c == "!" {
 				self.reader.get()
+				self.reader.skip_white()
 				modifiers = append(modifiers, map[string]interface{}{"name": "silent", "bang": 1})
 			} else {
 				modifiers = append(modifiers, map[string]interface{}{"name": "silent", "bang": 0})
-- 
2.43.0


From bfce3ec4a80c0d18670099c8394dbcbe6cc8dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 44/55] fix: vim9script is not :vimgrep

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 15fa18a..dda4cd6 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -959,7 +959,7 @@ function! s:VimLParser.find_command() abort
   elseif c =~# '[@*!=><&~#]'
     call self.reader.getn(1)
     let name = c
-  elseif self.reader.peekn(2) ==# 'py'
+  elseif self.reader.peekn(2) ==# 'py' || self.reader.peekn(4) ==# 'vim9'
     let name = self.reader.read_alnum()
   else
     let pos = self.reader.tell()
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 0687848..152f3eb 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -847,7 +847,7 @@ func (self *VimLParser) find_command() *Cmd {
 	} else if viml_eqregh(c, "[@*!=><&~#]") {
 		self.reader.getn(1)
 		name = c
-	} else if self.reader.peekn(2) == "py" {
+	} else if self.reader.peekn(2) == "py" || self.reader.peekn(4) == "vim9" {
 		name = self.reader.read_alnum()
 	} else {
 		var pos = self.reader.tell()
-- 
2.43.0


From 3ffc51e52d5b072c762c796d855ab6cb7965f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:21 +0000
Subject: [PATCH 45/55] fix: colons between modifiers, and only :tab and
 :verbose take a count

A colon may stand behind a modifier, before another one or a range:
silent :1,2d is no error. 3silent is no modifier.
---
 autoload/vimlparser.vim | 9 +++++++--
 go/vimlparser.go        | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index dda4cd6..d4fcd57 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -547,16 +547,21 @@ endfunction
 function! s:VimLParser.parse_command_modifiers() abort
   let modifiers = []
   while s:TRUE
+    call self.reader.skip_white_and_colon()
     let pos = self.reader.tell()
     let d = ''
     if s:isdigit(self.reader.peekn(1))
       let d = self.reader.read_digit()
-      call self.reader.skip_white()
+      call self.reader.skip_white_and_colon()
     endif
     let k = self.reader.read_alpha()
     let c = self.reader.peekn(1)
     call self.reader.skip_white()
-    if stridx('aboveleft', k) ==# 0 && len(k) >= 3 " abo\%[veleft]
+    if d !=# '' && k !=# 'tab' && !(stridx('verbose', k) ==# 0 && len(k) >= 4)
+      " the other modifiers do not take a count
+      call self.reader.seek_set(pos)
+      break
+    elseif stridx('aboveleft', k) ==# 0 && len(k) >= 3 " abo\%[veleft]
       call add(modifiers, {'name': 'aboveleft'})
     elseif stridx('belowright', k) ==# 0 && len(k) >= 3 " bel\%[owright]
       call add(modifiers, {'name': 'belowright'})
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 152f3eb..e3b9b4e 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -437,16 +437,21 @@ func (self *VimLParser) parse_one_cmd() {
 func (self *VimLParser) parse_command_modifiers() {
 	var modifiers = []interface{}{}
 	for true {
+		self.reader.skip_white_and_colon()
 		var pos = self.reader.tell()
 		var d = ""
 		if isdigit(self.reader.peekn(1)) {
 			d = self.reader.read_digit()
-			self.reader.skip_white()
+			self.reader.skip_white_and_colon()
 		}
 		var k = self.reader.read_alpha()
 		var c = self.reader.peekn(1)
 		self.reader.skip_white()
-		if viml_stridx("aboveleft", k) == 0 && len(k) >= 3 {
+		if d != "" && k != "tab" && !(viml_stridx("verbose", k) == 0 && len(k) >= 4) {
+			// the other modifiers do not take a count
+			self.reader.seek_set(pos)
+			break
+		} else if viml_stridx("aboveleft", k) == 0 && len(k) >= 3 {
 			// abo\%[veleft]
 			modifiers = append(modifiers, map[string]interface{}{"name": "aboveleft"})
 		} else if viml_stridx("belowright", k) == 0 && len(k) >= 3 {
-- 
2.43.0


From 2b1269c9477a56bbe60f2aaea8ac93806a8168cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 46/55] fix: any single character can follow ++bad=

++bad=? is what :help ++bad gives as an example of it.
---
 autoload/vimlparser.vim |  2 +-
 go/vimlfunc.go          | 10 +++++-----
 go/vimlparser.go        |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index d4fcd57..f0bca87 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1056,7 +1056,7 @@ function! s:VimLParser.parse_argopt() abort
     elseif s =~# '^++encoding=\S'
       call self.reader.getn(11)
       let self.ea.force_enc = self.reader.read_nonwhite()
-    elseif s =~# '^++bad=\(keep\|drop\|.\)\>'
+    elseif s =~# '^++bad=\(keep\|drop\|\S\)\(\s\|$\)'
       call self.reader.getn(6)
       if s =~# '^++bad=keep'
         let self.ea.bad_char = self.reader.getn(4)
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 9f20aa7..a1623e0 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -28,11 +28,11 @@ var patVim2Go = map[string]string{
 	"\\s":                               "[ \\t]",
 	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)?[lp]$",
 	"\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))": "^s(c($|[^sr]($|[^i]($|[^p])))|g|i($|[^mlg])|I|r($|[^e]))",
-	"\\w":                             "[0-9A-Za-z_]",
-	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-	"\\x":                             "[0-9A-Fa-f]",
-	"^++":                             "^\\+\\+",
-	"^++bad=\\(keep\\|drop\\|.\\)\\>": "^\\+\\+bad=(keep|drop|.)\\b",
+	"\\w":        "[0-9A-Za-z_]",
+	"\\w\\|[:#]": "[0-9A-Za-z_]|[:#]",
+	"\\x":        "[0-9A-Fa-f]",
+	"^++":        "^\\+\\+",
+	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)": "^\\+\\+bad=(keep|drop|[^ \\t])([ \\t]|$)",
 	"^++bad=drop":                     "^\\+\\+bad=drop",
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index e3b9b4e..a77a6db 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -931,7 +931,7 @@ func (self *VimLParser) parse_argopt() {
 		} else if viml_eqregh(s, "^++encoding=\\S") {
 			self.reader.getn(11)
 			self.ea.force_enc = self.reader.read_nonwhite()
-		} else if viml_eqregh(s, "^++bad=\\(keep\\|drop\\|.\\)\\>") {
+		} else if viml_eqregh(s, "^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)") {
 			self.reader.getn(6)
 			if viml_eqregh(s, "^++bad=keep") {
 				self.ea.bad_char = self.reader.getn(4)
-- 
2.43.0


From e69a663237da243024163623c27e30a14744a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 47/55] fix: a + at the end of the line, or with a tab after
 it, is +$

And the backslash at the end of +cmd is kept, as it escapes nothing.
---
 autoload/vimlparser.vim | 5 +++--
 go/vimlparser.go        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f0bca87..260daed 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1079,7 +1079,8 @@ endfunction
 function! s:VimLParser.parse_argcmd() abort
   if self.reader.peekn(1) ==# '+'
     call self.reader.getn(1)
-    if self.reader.peekn(1) ==# ' '
+    let c = self.reader.peekn(1)
+    if c ==# '' || s:iswhite(c)
       let self.ea.do_ecmd_cmd = '$'
     else
       let self.ea.do_ecmd_cmd = self.read_cmdarg()
@@ -1095,7 +1096,7 @@ function! s:VimLParser.read_cmdarg() abort
       break
     endif
     call self.reader.getn(1)
-    if c ==# '\'
+    if c ==# '\' && self.reader.peekn(1) !=# ''
       let c = self.reader.getn(1)
     endif
     let r .= c
diff --git a/go/vimlparser.go b/go/vimlparser.go
index a77a6db..0c772ac 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -954,7 +954,8 @@ func (self *VimLParser) parse_argopt() {
 func (self *VimLParser) parse_argcmd() {
 	if self.reader.peekn(1) == "+" {
 		self.reader.getn(1)
-		if self.reader.peekn(1) == " " {
+		var c = self.reader.peekn(1)
+		if c == "" || iswhite(c) {
 			self.ea.do_ecmd_cmd = "$"
 		} else {
 			self.ea.do_ecmd_cmd = self.read_cmdarg()
@@ -970,7 +971,7 @@ func (self *VimLParser) read_cmdarg() string {
 			break
 		}
 		self.reader.getn(1)
-		if c == "\\" {
+		if c == "\\" && self.reader.peekn(1) != "" {
 			c = self.reader.getn(1)
 		}
 		r += c
-- 
2.43.0


From 67553a75e544e0bf39d959edb28ee552d51cd76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 48/55] fix: a bar may follow a range, modifiers or nothing at
 all

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 260daed..e79fc51 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -773,7 +773,7 @@ function! s:VimLParser.parse_command() abort
 
   let self.ea.cmdpos = self.reader.getpos()
 
-  if self.reader.peekn(1) ==# '' || self.reader.peekn(1) ==# '"'
+  if self.reader.peekn(1) ==# '' || self.reader.peekn(1) ==# '"' || self.reader.peekn(1) ==# '|'
     if !empty(self.ea.modifiers) || !empty(self.ea.range)
       call self.parse_cmd_modifier_range()
     endif
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 0c772ac..3d83305 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -674,7 +674,7 @@ func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
 func (self *VimLParser) parse_command() {
 	self.reader.skip_white_and_colon()
 	self.ea.cmdpos = self.reader.getpos()
-	if self.reader.peekn(1) == "" || self.reader.peekn(1) == "\"" {
+	if self.reader.peekn(1) == "" || self.reader.peekn(1) == "\"" || self.reader.peekn(1) == "|" {
 		if !viml_empty(self.ea.modifiers) || !viml_empty(self.ea.range_) {
 			self.parse_cmd_modifier_range()
 		}
-- 
2.43.0


From bff323b2021e64f8a750dc0714df2990a7787737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 49/55] fix: an option, environment variable or register is no
 name of a function

---
 autoload/vimlparser.vim | 4 ++--
 go/vimlparser.go        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e79fc51..9286e37 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2086,10 +2086,10 @@ endfunction
 function! s:VimLParser.parse_lvalue_func() abort
   let p = s:LvalueParser.new(self.reader)
   let node = p.parse()
-  if node.type ==# s:NODE_IDENTIFIER || node.type ==# s:NODE_CURLYNAME || node.type ==# s:NODE_SUBSCRIPT || node.type ==# s:NODE_DOT || node.type ==# s:NODE_OPTION || node.type ==# s:NODE_ENV || node.type ==# s:NODE_REG
+  if node.type ==# s:NODE_IDENTIFIER || node.type ==# s:NODE_CURLYNAME || node.type ==# s:NODE_SUBSCRIPT || node.type ==# s:NODE_DOT
     return node
   endif
-  throw s:Err('Invalid Expression', node.pos)
+  throw s:Err('E129: Function name required', node.pos)
 endfunction
 
 " FIXME:
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 3d83305..915de18 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1923,10 +1923,10 @@ func (self *VimLParser) parse_exprlist() []*VimNode {
 func (self *VimLParser) parse_lvalue_func() *VimNode {
 	var p = NewLvalueParser(self.reader)
 	var node = p.parse()
-	if node.type_ == NODE_IDENTIFIER || node.type_ == NODE_CURLYNAME || node.type_ == NODE_SUBSCRIPT || node.type_ == NODE_DOT || node.type_ == NODE_OPTION || node.type_ == NODE_ENV || node.type_ == NODE_REG {
+	if node.type_ == NODE_IDENTIFIER || node.type_ == NODE_CURLYNAME || node.type_ == NODE_SUBSCRIPT || node.type_ == NODE_DOT {
 		return node
 	}
-	panic(Err("Invalid Expression", node.pos))
+	panic(Err("E129: Function name required", node.pos))
 }
 
 // FIXME:
-- 
2.43.0


From be0962abf7cc3b447cd79bb2b00786405f6a761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 50/55] fix: the list of :const cannot have options, registers
 or items, either

---
 autoload/vimlparser.vim | 4 ++--
 go/vimlparser.go        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 9286e37..2a6aba7 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2188,7 +2188,7 @@ function! s:VimLParser.parse_constlhs() abort
     call tokenizer.get()
     let lhs.list = []
     while s:TRUE
-      let node = self.parse_lvalue()
+      let node = self.parse_constlvalue()
       call add(lhs.list, node)
       let token = tokenizer.get()
       if token.type ==# s:TOKEN_SQCLOSE
@@ -2196,7 +2196,7 @@ function! s:VimLParser.parse_constlhs() abort
       elseif token.type ==# s:TOKEN_COMMA
         continue
       elseif token.type ==# s:TOKEN_SEMICOLON
-        let node = self.parse_lvalue()
+        let node = self.parse_constlvalue()
         let lhs.rest = node
         let token = tokenizer.get()
         if token.type ==# s:TOKEN_SQCLOSE
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 915de18..5c66014 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2022,7 +2022,7 @@ func (self *VimLParser) parse_constlhs() *lhs {
 	if tokenizer.peek().type_ == TOKEN_SQOPEN {
 		tokenizer.get()
 		for true {
-			var node = self.parse_lvalue()
+			var node = self.parse_constlvalue()
 			lhs.list = append(lhs.list, node)
 			var token = tokenizer.get()
 			if token.type_ == TOKEN_SQCLOSE {
@@ -2030,7 +2030,7 @@ func (self *VimLParser) parse_constlhs() *lhs {
 			} else if token.type_ == TOKEN_COMMA {
 				continue
 			} else if token.type_ == TOKEN_SEMICOLON {
-				node = self.parse_lvalue()
+				node = self.parse_constlvalue()
 				lhs.rest = node
 				token = tokenizer.get()
 				if token.type_ == TOKEN_SQCLOSE {
-- 
2.43.0


From 6581de9c92df3d9ab2d05e13ae79eddacc831366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:42 +0000
Subject: [PATCH 51/55] fix: a blank must follow the in of :for

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 2a6aba7..ef60bac 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1896,7 +1896,7 @@ function! s:VimLParser.parse_cmd_for() abort
   let node.rest = lhs.rest
   call self.reader.skip_white()
   let epos = self.reader.getpos()
-  if self.reader.read_alpha() !=# 'in'
+  if self.reader.read_alpha() !=# 'in' || !(s:iswhite(self.reader.peekn(1)) || self.reader.peekn(1) ==# '')
     throw s:Err('Missing "in" after :for', epos)
   endif
   let node.right = self.parse_expr()
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 5c66014..64fb91a 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1740,7 +1740,7 @@ func (self *VimLParser) parse_cmd_for() {
 	node.rest = lhs.rest
 	self.reader.skip_white()
 	var epos = self.reader.getpos()
-	if self.reader.read_alpha() != "in" {
+	if self.reader.read_alpha() != "in" || !(iswhite(self.reader.peekn(1)) || self.reader.peekn(1) == "") {
 		panic(Err("Missing \"in\" after :for", epos))
 	}
 	node.right = self.parse_expr()
-- 
2.43.0


From 562479410afcee923b3b1188a2d8bdcb8d5be57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 52/55] fix: reject what cannot be unlet or locked

An option or a register cannot be unlet or locked, an environment variable
not be locked.
---
 autoload/vimlparser.vim | 11 +++++++----
 go/vimlparser.go        | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index ef60bac..9dff8df 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2133,15 +2133,18 @@ endfunction
 
 function! s:VimLParser.parse_lvaluelist() abort
   let list = []
-  let node = self.parse_lvalue()
-  call add(list, node)
   while s:TRUE
+    let node = self.parse_lvalue()
+    if node.type ==# s:NODE_OPTION || node.type ==# s:NODE_REG
+      throw s:Err(printf('E488: Trailing characters: %s', node.value), node.pos)
+    elseif node.type ==# s:NODE_ENV && self.ea.cmd.name !=# 'unlet'
+      throw s:Err(printf('E940: Cannot lock or unlock variable %s', node.value), node.pos)
+    endif
+    call add(list, node)
     call self.reader.skip_white()
     if self.ends_excmds(self.reader.peek())
       break
     endif
-    let node = self.parse_lvalue()
-    call add(list, node)
   endwhile
   return list
 endfunction
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 64fb91a..cde3542 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1969,15 +1969,18 @@ func (self *VimLParser) parse_constlvalue() *VimNode {
 
 func (self *VimLParser) parse_lvaluelist() []*VimNode {
 	var list []*VimNode
-	var node = self.parse_lvalue()
-	list = append(list, node)
 	for true {
+		var node = self.parse_lvalue()
+		if node.type_ == NODE_OPTION || node.type_ == NODE_REG {
+			panic(Err(viml_printf("E488: Trailing characters: %s", node.value), node.pos))
+		} else if node.type_ == NODE_ENV && self.ea.cmd.name != "unlet" {
+			panic(Err(viml_printf("E940: Cannot lock or unlock variable %s", node.value), node.pos))
+		}
+		list = append(list, node)
 		self.reader.skip_white()
 		if self.ends_excmds(self.reader.peek()) {
 			break
 		}
-		node = self.parse_lvalue()
-		list = append(list, node)
 	}
 	return list
 }
-- 
2.43.0


From ecf1d32a2f484e1ff0d0d137b798b3282f85dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:01 +0000
Subject: [PATCH 53/55] fix: a letter outside ASCII continues the word before
 \>

---
 go/vimlfunc.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index a1623e0..5845ad5 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -9,6 +9,9 @@ import (
 	"unicode/utf8"
 )
 
+// \> behind a word: unlike \b it does not match before a letter outside ASCII.
+const endOfWord = "($|[^0-9A-Za-z_\\x{c0}-\\x{d6}\\x{d8}-\\x{f6}\\x{f8}-\\x{10ffff}])"
+
 // copied and little modified(^++) from ./py/vimlfunc.py
 var patVim2Go = map[string]string{
 	"[0-9a-zA-Z]":                       "[0-9a-zA-Z]",
@@ -35,13 +38,13 @@ var patVim2Go = map[string]string{
 	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)": "^\\+\\+bad=(keep|drop|[^ \\t])([ \\t]|$)",
 	"^++bad=drop":                     "^\\+\\+bad=drop",
 	"^++bad=keep":                     "^\\+\\+bad=keep",
-	"^++bin\\>":                       "^\\+\\+bin\\b",
-	"^++edit\\>":                      "^\\+\\+edit\\b",
+	"^++bin\\>":                       "^\\+\\+bin" + endOfWord,
+	"^++edit\\>":                      "^\\+\\+edit" + endOfWord,
 	"^++enc=\\S":                      "^\\+\\+enc=[^ \\t]",
 	"^++encoding=\\S":                 "^\\+\\+encoding=[^ \\t]",
-	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)\\b",
-	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)\\b",
-	"^++nobin\\>":                  "^\\+\\+nobin\\b",
+	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)" + endOfWord,
+	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)" + endOfWord,
+	"^++nobin\\>":                  "^\\+\\+nobin" + endOfWord,
 	"^[A-Z]":                       "^[A-Z]",
 	"^\\$\\w\\+":                   "^\\$[0-9A-Za-z_]+",
 	"^\\(!\\|global\\|vglobal\\)$": "^(!|global|vglobal)$",
-- 
2.43.0


From a59311dbeba7ec64c279f738a4c60d1fb37bcc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:04 +0000
Subject: [PATCH 54/55] fix: the name of :echohl ends before the blanks behind
 it

---
 autoload/vimlparser.vim | 7 +++----
 go/vimlparser.go        | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 9dff8df..93b7e5d 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2034,10 +2034,9 @@ function! s:VimLParser.parse_cmd_echohl() abort
   let node = s:Node(s:NODE_ECHOHL)
   let node.pos = self.ea.cmdpos
   let node.ea = self.ea
-  let node.str = ''
-  while !self.ends_excmds(self.reader.peek())
-    let node.str .= self.reader.get()
-  endwhile
+  let pos = self.reader.getpos()
+  let end = self.separate_nextcmd()
+  let node.str = self.reader.getstr(pos, end)
   call self.add_node(node)
 endfunction
 
diff --git a/go/vimlparser.go b/go/vimlparser.go
index cde3542..8850e62 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1871,10 +1871,9 @@ func (self *VimLParser) parse_cmd_echohl() {
 	var node = Node(NODE_ECHOHL)
 	node.pos = self.ea.cmdpos
 	node.ea = self.ea
-	node.str = ""
-	for !self.ends_excmds(self.reader.peek()) {
-		node.str += self.reader.get()
-	}
+	var pos = self.reader.getpos()
+	var end = self.separate_nextcmd()
+	node.str = self.reader.getstr(pos, end)
 	self.add_node(node)
 }
 
-- 
2.43.0


From a4bb7b1790ed03859627c1655141fefc2fb6879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 55/55] fix: :let, :const and :function that list names end
 before a bar or comment

---
 autoload/vimlparser.vim | 41 +++++++++++++++++++++++++++++++----------
 go/vimlparser.go        | 41 +++++++++++++++++++++++++++++++----------
 2 files changed, 62 insertions(+), 20 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 93b7e5d..57b54f3 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1169,6 +1169,16 @@ function! s:VimLParser.parse_cmd_common() abort
   call self.add_node(node)
 endfunction
 
+" A command that lists what it has names of ends before a bar or comment.
+function! s:VimLParser.parse_cmd_listing() abort
+  let end = self.separate_nextcmd()
+  let node = s:Node(s:NODE_EXCMD)
+  let node.pos = self.ea.cmdpos
+  let node.ea = self.ea
+  let node.str = self.reader.getstr(self.ea.linepos, end)
+  call self.add_node(node)
+endfunction
+
 " Some commands without TRLBAR look for a bar behind their pattern themselves.
 " Skip what they take, return FALSE for other commands.
 function! s:VimLParser.skip_pattern_args() abort
@@ -1232,7 +1242,7 @@ function! s:VimLParser.separate_nextcmd() abort
   endif
   let pc = ''
   let escaped = s:FALSE
-  let trlcom = self.ea.cmd.flags !~# '\<NOTRLCOM\>' || self.ea.cmd.name ==# 'sort'
+  let trlcom = self.ea.cmd.flags !~# '\<NOTRLCOM\>' || self.ea.cmd.name ==# 'sort' || self.ea.cmd.name ==# 'let' || self.ea.cmd.name ==# 'const'
   let end = self.reader.getpos()
   let nospend = end
   while s:TRUE
@@ -1433,18 +1443,27 @@ function! s:VimLParser.parse_cmd_function() abort
   " :function
   if self.ends_excmds(self.reader.peek())
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listing()
     return
   endif
 
   " :function /pattern
   if self.reader.peekn(1) ==# '/'
-    call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_pattern(self.reader.get())
+    let end = self.reader.tell()
+    call self.reader.skip_white()
+    if self.reader.peekn(1) ==# '|'
+      call self.reader.seek_set(end)
+      call self.parse_cmd_listing()
+    else
+      call self.reader.seek_set(pos)
+      call self.parse_cmd_common()
+    endif
     return
   endif
 
   let left = self.parse_lvalue_func()
+  let end = self.reader.tell()
   call self.reader.skip_white()
 
   if left.type ==# s:NODE_IDENTIFIER
@@ -1457,8 +1476,8 @@ function! s:VimLParser.parse_cmd_function() abort
 
   " :function {name}
   if self.reader.peekn(1) !=# '('
-    call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.reader.seek_set(end)
+    call self.parse_cmd_listing()
     return
   endif
 
@@ -1668,11 +1687,12 @@ function! s:VimLParser.parse_cmd_let() abort
   " :let
   if self.ends_excmds(self.reader.peek())
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listing()
     return
   endif
 
   let lhs = self.parse_letlhs()
+  let pos = self.reader.tell()
   call self.reader.skip_white()
   let s1 = self.reader.peekn(1)
   let s2 = self.reader.peekn(2)
@@ -1686,7 +1706,7 @@ function! s:VimLParser.parse_cmd_let() abort
   " :let {var-name} ..
   if self.ends_excmds(s1) || (s2 !=# '+=' && s2 !=# '-=' && s2 !=# '.=' && s2 !=# '..=' && s2 !=# '*=' && s2 !=# '/=' && s2 !=# '%=' && s2 !=# '=<<' && s1 !=# '=')
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listing()
     return
   endif
 
@@ -1729,18 +1749,19 @@ function! s:VimLParser.parse_cmd_const() abort
   " :const
   if self.ends_excmds(self.reader.peek())
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listing()
     return
   endif
 
   let lhs = self.parse_constlhs()
+  let pos = self.reader.tell()
   call self.reader.skip_white()
   let s1 = self.reader.peekn(1)
 
   " :const {var-name}
   if self.ends_excmds(s1) || s1 !=# '='
     call self.reader.seek_set(pos)
-    call self.parse_cmd_common()
+    call self.parse_cmd_listing()
     return
   endif
 
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8850e62..6ad1a2b 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1044,6 +1044,16 @@ func (self *VimLParser) parse_cmd_common() {
 	self.add_node(node)
 }
 
+// A command that lists what it has names of ends before a bar or comment.
+func (self *VimLParser) parse_cmd_listing() {
+	var end = self.separate_nextcmd()
+	var node = Node(NODE_EXCMD)
+	node.pos = self.ea.cmdpos
+	node.ea = self.ea
+	node.str = self.reader.getstr(self.ea.linepos, end)
+	self.add_node(node)
+}
+
 // Some commands without TRLBAR look for a bar behind their pattern themselves.
 // Skip what they take, return FALSE for other commands.
 func (self *VimLParser) skip_pattern_args() bool {
@@ -1107,7 +1117,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 	}
 	var pc = ""
 	var escaped = false
-	var trlcom = !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") || self.ea.cmd.name == "sort"
+	var trlcom = !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") || self.ea.cmd.name == "sort" || self.ea.cmd.name == "let" || self.ea.cmd.name == "const"
 	var end = self.reader.getpos()
 	var nospend = end
 	for true {
@@ -1304,16 +1314,25 @@ func (self *VimLParser) parse_cmd_function() {
 	// :function
 	if self.ends_excmds(self.reader.peek()) {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listing()
 		return
 	}
 	// :function /pattern
 	if self.reader.peekn(1) == "/" {
-		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_pattern(self.reader.get())
+		var end = self.reader.tell()
+		self.reader.skip_white()
+		if self.reader.peekn(1) == "|" {
+			self.reader.seek_set(end)
+			self.parse_cmd_listing()
+		} else {
+			self.reader.seek_set(pos)
+			self.parse_cmd_common()
+		}
 		return
 	}
 	var left = self.parse_lvalue_func()
+	var end = self.reader.tell()
 	self.reader.skip_white()
 	if left.type_ == NODE_IDENTIFIER {
 		var s = left.value.(string)
@@ -1324,8 +1343,8 @@ func (self *VimLParser) parse_cmd_function() {
 	}
 	// :function {name}
 	if self.reader.peekn(1) != "(" {
-		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.reader.seek_set(end)
+		self.parse_cmd_listing()
 		return
 	}
 	// :function[!] {name}([arguments]) [range] [abort] [dict] [closure]
@@ -1528,10 +1547,11 @@ func (self *VimLParser) parse_cmd_let() {
 	// :let
 	if self.ends_excmds(self.reader.peek()) {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listing()
 		return
 	}
 	var lhs = self.parse_letlhs()
+	pos = self.reader.tell()
 	self.reader.skip_white()
 	var s1 = self.reader.peekn(1)
 	var s2 = self.reader.peekn(2)
@@ -1544,7 +1564,7 @@ func (self *VimLParser) parse_cmd_let() {
 	// :let {var-name} ..
 	if self.ends_excmds(s1) || (s2 != "+=" && s2 != "-=" && s2 != ".=" && s2 != "..=" && s2 != "*=" && s2 != "/=" && s2 != "%=" && s2 != "=<<" && s1 != "=") {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listing()
 		return
 	}
 	// :let left op right
@@ -1585,16 +1605,17 @@ func (self *VimLParser) parse_cmd_const() {
 	// :const
 	if self.ends_excmds(self.reader.peek()) {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listing()
 		return
 	}
 	var lhs = self.parse_constlhs()
+	pos = self.reader.tell()
 	self.reader.skip_white()
 	var s1 = self.reader.peekn(1)
 	// :const {var-name}
 	if self.ends_excmds(s1) || s1 != "=" {
 		self.reader.seek_set(pos)
-		self.parse_cmd_common()
+		self.parse_cmd_listing()
 		return
 	}
 	// :const left op right
-- 
2.43.0

