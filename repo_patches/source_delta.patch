From 30eed4a9bebd19677ace87dd9248fcd66a8d56a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 01/58] fix: an unterminated string ends at its line and keeps
 its token

---
 lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..d0ca3db 100644
--- a/lexer.go
+++ b/lexer.go
@@ -162,10 +162,17 @@ func (z *Lexer) readValue() {
 		for {
 			if z.i == len(z.Source) {
 				z.fail("incomplete string")
+				z.emit(TokenValue)
 				return
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
+			if c == '\r' || c == '\n' {
+				z.fail("incomplete string")
+				z.emit(TokenValue)
+				return
+			}
+
 			if c == '"' && p != '\\' {
 				z.inc(n)
 
-- 
2.43.0


From eadd1b60c91c3c00d972ba47062f2f27e1985085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 02/58] fix: a string ending in an escaped backslash is closed
 by its quote

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index d0ca3db..b837836 100644
--- a/lexer.go
+++ b/lexer.go
@@ -194,6 +194,10 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
+			if c == '\\' && p == '\\' {
+				c = 0 // an escaped backslash does not escape the next character
+			}
+
 			p = c
 		}
 	} else {
-- 
2.43.0


From fdc2aa493baf7015675629e77408748c937a329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 03/58] fix: a line with surplus values yields one listing
 entry, not two

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index ca3174a..62abf06 100644
--- a/process.go
+++ b/process.go
@@ -3182,7 +3182,9 @@ func Process(source string) *ProcessResult {
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					if len(c.ops) == line { // surplus values fail after the op was emitted
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 7d7a9535983cb80561c3a38a85dd438e10ef96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 04/58] fix: reject version pragmas with surplus or
 out-of-range values

---
 process.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/process.go b/process.go
index 62abf06..b3c69c1 100644
--- a/process.go
+++ b/process.go
@@ -951,6 +951,14 @@ func (c *parserContext) mustReadPragma(argName string) uint64 {
 			c.failCurr(errors.New("version must be at least 1"))
 		}
 
+		if v > 255 {
+			c.failCurr(errors.New("version must be at most 255"))
+		}
+
+		if c.args.i < len(c.args.ts) && c.args.Scan() {
+			c.failCurr(errors.Errorf("too many values"))
+		}
+
 		version = v
 	default:
 		c.failCurr(errors.Errorf("unexpected #pragma: %s", c.args.Text()))
-- 
2.43.0


From b4f27f393f137a5c1e3d3e57fbb402b361c5a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 05/58] fix: method signature literals are validated and stored
 without quotes

---
 process.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index b3c69c1..223d98c 100644
--- a/process.go
+++ b/process.go
@@ -989,14 +989,19 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if e < 1 || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
+	sig, err := parseStringLiteral(value)
+	if err != nil {
+		c.failCurr(err)
+	}
+
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return string(sig)
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 399e43e0b5fcb0994049caf7c324b438ecd147eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 06/58] fix: position queries outside the text or on empty
 lines do not crash or hang

---
 process.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/process.go b/process.go
index 223d98c..5a5f1fa 100644
--- a/process.go
+++ b/process.go
@@ -2696,9 +2696,14 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
+	start := rg.StartLine()
+	if start < 0 {
+		start = 0
+	}
+
+	for li := start; li <= rg.EndLine(); li++ {
 		if li >= len(r.Lines) {
-			continue
+			break
 		}
 
 		ln := r.Lines[li]
@@ -2864,11 +2869,14 @@ func (r ProcessResult) SymOrRefAt(rg Range) string {
 func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 	var res opItemArg
 
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return res, -1, false
 	}
 
 	ln := r.Lines[l]
+	if len(ln) == 0 {
+		return res, -1, false
+	}
 
 	curr := len(ln) - 1
 
@@ -2918,7 +2926,7 @@ func (r ProcessResult) ArgValsAt(l int, ch int) []opItemArgVal {
 }
 
 func (r ProcessResult) DocAt(l int, ch int) string {
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return ""
 	}
 
-- 
2.43.0


From e65e189f92af91c4512ccdab46635e70f2918201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 07/58] fix: gitxna rejects group indexes above 255 instead of
 truncating them

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 5a5f1fa..66901a3 100644
--- a/process.go
+++ b/process.go
@@ -2413,7 +2413,7 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-- 
2.43.0


From 2c4ad09b4a5048ad2c2345135a405b3b69d35bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 08/58] fix: array field arguments are checked against the
 program version

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 2301cbeddc7860033a49db9f949070186d960098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 09/58] fix: args is a logic signature instruction

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 66901a3..27299c6 100644
--- a/process.go
+++ b/process.go
@@ -2472,8 +2472,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From 8dd0766996c61c2a2d69a4dc5463b3711c361453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 10/58] fix: integer array arguments are listed once

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index 27299c6..b1f6826 100644
--- a/process.go
+++ b/process.go
@@ -1144,7 +1144,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From e52e70cd629dd133825f5deb4c9b5f2dbd265a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:42 +0000
Subject: [PATCH 11/58] fix: lint findings are reported in source order on
 every run

---
 linter.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/linter.go b/linter.go
index cc36f06..a7baabc 100644
--- a/linter.go
+++ b/linter.go
@@ -291,11 +291,10 @@ func (r DuplicateLabelsRule) Desc() string {
 
 func (r DuplicateLabelsRule) Run(l *Linter) {
 	labels := l.getAllLabels()
-	for name, lines := range labels {
-		if len(lines) > 1 {
-			for _, line := range lines {
-				l.errs = append(l.errs, DuplicateLabelError{l: line, name: name, rule: r.Id()})
-			}
+	for line, o := range l.l {
+		lbl, ok := o.(*LabelExpr)
+		if ok && len(labels[lbl.Name]) > 1 {
+			l.errs = append(l.errs, DuplicateLabelError{l: line, name: lbl.Name, rule: r.Id()})
 		}
 	}
 }
@@ -313,12 +312,11 @@ func (r UnusedLabelsRule) Desc() string {
 
 func (r UnusedLabelsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
-	for name, lines := range l.getAllLabels() {
-		if len(used[name]) == 0 {
-			for _, line := range lines {
-				l.errs = append(l.errs, &UnusedLabelError{l: line, name: name, rule: r.Id()})
-				l.reds = append(l.reds, &RedundantLabelLine{line: line, name: name})
-			}
+	for line, o := range l.l {
+		lbl, ok := o.(*LabelExpr)
+		if ok && len(used[lbl.Name]) == 0 {
+			l.errs = append(l.errs, &UnusedLabelError{l: line, name: lbl.Name, rule: r.Id()})
+			l.reds = append(l.reds, &RedundantLabelLine{line: line, name: lbl.Name})
 		}
 	}
 }
@@ -430,14 +428,16 @@ func (r CheckLoopsRule) Desc() string {
 }
 
 func (r CheckLoopsRule) Run(l *Linter) {
-	used := l.getLabelsUsers()
 	all := l.getAllLabels()
 
-	for name, users := range used {
-		_, ok := all[name]
+	for i, o := range l.l {
+		user, ok := o.(usesLabels)
 		if !ok {
-			for _, user := range users {
-				l.errs = append(l.errs, MissingLabelError{l: user, name: name, rule: r.Id()})
+			continue
+		}
+		for _, lbl := range user.Labels() {
+			if _, ok := all[lbl.Name]; !ok {
+				l.errs = append(l.errs, MissingLabelError{l: i, name: lbl.Name, rule: r.Id()})
 			}
 		}
 	}
-- 
2.43.0


From 176b8f5621f20103f927a590d6f647e0c1819ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:01 +0000
Subject: [PATCH 12/58] fix: hovering a negative field number does not crash

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index b1f6826..600eec1 100644
--- a/process.go
+++ b/process.go
@@ -2951,6 +2951,10 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 					}
 
 					if idx < len(info.Args) {
+						if n, err := strconv.Atoi(tok.String()); err == nil && n < 0 {
+							return ""
+						}
+
 						arg := info.Args[idx]
 						switch arg.Type {
 						case OpArgTypeTxnaField:
-- 
2.43.0


From db0569a8cf2a131df92f4f25240b978fa35d12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 13/58] fix: replace2, pushints and extract_uint64 print their
 own mnemonic

---
 expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index 5c90871..e0d67e5 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
@@ -2984,7 +2984,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From ebf461ee3a8bca84f3394e061943e1b943b3bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 14/58] fix: gtxnas prints its group index before its field

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index e0d67e5..d87cabd 100644
--- a/expr.go
+++ b/expr.go
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
-- 
2.43.0


From cdb6e324c11e97390d8f4b27f72f929b9b26df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 15/58] fix: printed string literals and method signatures are
 escaped

---
 expr.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index d87cabd..fc0f4c7 100644
--- a/expr.go
+++ b/expr.go
@@ -1304,7 +1304,7 @@ type Bytes struct {
 func (e Bytes) String() string {
 	switch e.Format {
 	case BytesStringLiteral:
-		return fmt.Sprintf("\"%s\"", string(e.Value))
+		return quoteStringLiteral(e.Value)
 	case BytesBase64:
 		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
 	default:
@@ -1313,6 +1313,27 @@ func (e Bytes) String() string {
 
 }
 
+// quoteStringLiteral is the inverse of parseStringLiteral
+func quoteStringLiteral(v []byte) string {
+	var b strings.Builder
+
+	b.WriteByte('"')
+	for _, c := range v {
+		switch {
+		case c == '"' || c == '\\':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case c < ' ' || c == 0x7f:
+			fmt.Fprintf(&b, "\\x%02x", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	b.WriteByte('"')
+
+	return b.String()
+}
+
 func (e *ByteExpr) String() string {
 	return fmt.Sprintf("byte %s", Bytes{Value: e.Value, Format: e.Format})
 }
@@ -2229,7 +2250,7 @@ type MethodExpr struct {
 }
 
 func (e *MethodExpr) String() string {
-	return fmt.Sprintf("method \"%s\"", strings.ReplaceAll(e.Signature, "\"", "\\\""))
+	return fmt.Sprintf("method %s", quoteStringLiteral([]byte(e.Signature)))
 }
 
 func (e *MethodExpr) Execute(b *VmBranch) error {
-- 
2.43.0


From f5397e4543fde4fd1c9f92499443ebfd24b8800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 16/58] fix: empty byte constants print as a literal that
 parses

---
 expr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr.go b/expr.go
index fc0f4c7..6f2ccae 100644
--- a/expr.go
+++ b/expr.go
@@ -1306,6 +1306,9 @@ func (e Bytes) String() string {
 	case BytesStringLiteral:
 		return quoteStringLiteral(e.Value)
 	case BytesBase64:
+		if len(e.Value) == 0 {
+			return "b64()"
+		}
 		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
-- 
2.43.0


From 1d9211aabc4ed7d443db1ca95df95e66dc9e88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:21 +0000
Subject: [PATCH 17/58] fix: Cover builds cover, not uncover

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 6f2ccae..0c0d01f 100644
--- a/expr.go
+++ b/expr.go
@@ -3868,8 +3868,8 @@ func CallSub[T Labelled](l T) *CallSubExpr {
 	return &CallSubExpr{Label: l.GetLabel()}
 }
 
-func Cover(index uint8) *UncoverExpr {
-	return &UncoverExpr{Depth: index}
+func Cover(index uint8) *CoverExpr {
+	return &CoverExpr{Depth: index}
 }
 
 func Comment(text string) *CommentExpr {
-- 
2.43.0


From 29fa4de6cefe913065754d50fd377657c33931ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 18/58] fix: each branch of an execution has its own scratch
 space

---
 dbg/dbg.go |  4 ++--
 expr.go    |  2 +-
 vm.go      | 17 ++++++++++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..1e30967 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -593,7 +593,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 							case 2:
 								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
+								e := len(b.Scratch.Items)
 
 								if vreq.Arguments.Start != nil {
 									s = *vreq.Arguments.Start
@@ -604,7 +604,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 								}
 
 								for i := s; i < e; i++ {
-									v := l.vm.tvm.Scratch.Items[i]
+									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
 										vs = append(vs, dapVariable{
 											Name:  strconv.Itoa(i),
diff --git a/expr.go b/expr.go
index 0c0d01f..1b2d02e 100644
--- a/expr.go
+++ b/expr.go
@@ -1084,7 +1084,7 @@ func (e *LoadExpr) String() string {
 }
 
 func (e *LoadExpr) Execute(b *VmBranch) error {
-	v := b.vm.Scratch.Items[e.Index]
+	v := b.Scratch.Items[e.Index]
 	b.push(VmValue{T: VmTypeAny, src: v})
 
 	b.Line++
diff --git a/vm.go b/vm.go
index e01389e..390d512 100644
--- a/vm.go
+++ b/vm.go
@@ -206,7 +206,7 @@ func (b *VmBranch) replace(n uint8, v VmValue) {
 func (b *VmBranch) store(index VmValue, v VmValue) {
 	switch src := index.src.(type) {
 	case vmUint64Const:
-		b.vm.Scratch.Items[src.v] = v
+		b.Scratch.Items[src.v] = v
 	}
 }
 
@@ -250,6 +250,8 @@ type VmBranch struct {
 
 	Stack *vmStack
 
+	Scratch *VmScratch
+
 	Frames []VmFrame
 
 	Budget int
@@ -267,6 +269,8 @@ func (b *VmBranch) fork(target string) {
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
+
+		Scratch: b.Scratch.clone(),
 	}
 
 	b.vm.Id++
@@ -293,6 +297,11 @@ type VmScratch struct {
 	Items [256]VmValue
 }
 
+func (s *VmScratch) clone() *VmScratch {
+	c := *s
+	return &c
+}
+
 type VmBreakpoint struct {
 	Line int
 }
@@ -303,8 +312,6 @@ type Vm struct {
 	Process *ProcessResult
 	syms    map[string]int
 
-	Scratch VmScratch
-
 	Branches []*VmBranch
 	Branch   *VmBranch
 	Current  int
@@ -356,6 +363,8 @@ func NewVm(res *ProcessResult) *Vm {
 		Stack:  &vmStack{},
 		Budget: 700,
 		Name:   MainName,
+
+		Scratch: &VmScratch{},
 	}
 
 	v.Id++
@@ -471,6 +480,8 @@ func (v *Vm) Step() {
 					Budget: b.Budget,
 					Name:   b.Name,
 					Trace:  append([]Op{}, b.Trace...),
+
+					Scratch: b.Scratch.clone(),
 				}
 
 				b.vm.Id++
-- 
2.43.0


From e31f45ce185fd3e2816aaf0bbccf232ac6b703e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 19/58] fix: a forked branch keeps its call frames

---
 vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm.go b/vm.go
index 390d512..4131778 100644
--- a/vm.go
+++ b/vm.go
@@ -269,6 +269,7 @@ func (b *VmBranch) fork(target string) {
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
+		Frames: append([]VmFrame{}, b.Frames...),
 
 		Scratch: b.Scratch.clone(),
 	}
@@ -480,6 +481,7 @@ func (v *Vm) Step() {
 					Budget: b.Budget,
 					Name:   b.Name,
 					Trace:  append([]Op{}, b.Trace...),
+					Frames: append([]VmFrame{}, b.Frames...),
 
 					Scratch: b.Scratch.clone(),
 				}
-- 
2.43.0


From 436bd8214f8b71941e47cf2e1ed3160c9afc0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 20/58] fix: a breakpoint on a negative line is ignored

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index 4131778..c33a71b 100644
--- a/vm.go
+++ b/vm.go
@@ -421,7 +421,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From 8830fa085e370485cd009a1bf70e5a7ab57763c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 21/58] fix: b-, b|, addr and itxna act on the stack

---
 expr.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/expr.go b/expr.go
index 1b2d02e..22c98d6 100644
--- a/expr.go
+++ b/expr.go
@@ -2126,6 +2126,18 @@ func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 type GtxnasExpr struct {
 	Field TxnField
 	Index uint8
@@ -2270,6 +2282,12 @@ func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 type PushBytessExpr struct {
 	Bytess [][]byte
 }
@@ -3235,6 +3253,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3553,6 +3579,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From c5e7ee6dbe63ab8530b6017b54789886516693af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 22/58] fix: dup2 keeps the order of its values

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 22c98d6..436db3c 100644
--- a/expr.go
+++ b/expr.go
@@ -3400,10 +3400,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From a44c5e1c18ab8ba8403a04cb20fbc29a330ccd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 23/58] fix: bury, dig, frame_bury and frame_dig address the
 right slot on any stack

---
 expr.go | 8 ++++----
 vm.go   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/expr.go b/expr.go
index 436db3c..31a9162 100644
--- a/expr.go
+++ b/expr.go
@@ -1872,7 +1872,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2502,7 +2502,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2519,7 +2519,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3233,7 +3233,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.Stack.Items[len(b.Stack.Items)-1-int(e.Index)]
 	b.push(v)
 	b.Line++
 	return nil
diff --git a/vm.go b/vm.go
index c33a71b..4642257 100644
--- a/vm.go
+++ b/vm.go
@@ -18,7 +18,7 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
 	Name       string
 }
 
@@ -199,7 +199,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -285,7 +285,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From 801f4d462d37d451fee76879f802f66e85786409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 24/58] fix: dupn 255 terminates

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 31a9162..b4fbcaa 100644
--- a/expr.go
+++ b/expr.go
@@ -1907,7 +1907,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
-- 
2.43.0


From 7dc1c9917745c104fdf7826ef9c3c86d1d187486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 25/58] fix: pushints pushes integers

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index b4fbcaa..ff4b3b4 100644
--- a/expr.go
+++ b/expr.go
@@ -2243,7 +2243,7 @@ type PushIntsExpr struct {
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
 	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+		b.push(VmValue{T: VmTypeUint64})
 	}
 	b.Line++
 	return nil
-- 
2.43.0


From 0ef8a144b82d53f3f7df18d9bff9d6aabfc479f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:35 +0000
Subject: [PATCH 26/58] fix: app_opted_in takes an account by index or address

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index ff4b3b4..d8c84cd 100644
--- a/expr.go
+++ b/expr.go
@@ -3750,7 +3750,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From 953118b0306c5cabede471a387d65b41eb6fcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:35 +0000
Subject: [PATCH 27/58] fix: json_ref is charged for the length of its text,
 per started 7 bytes

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index d8c84cd..e8c5f1d 100644
--- a/expr.go
+++ b/expr.go
@@ -2031,11 +2031,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1)
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From 7db1c1edec9e58b36e45b3d8d88045a9d2c85a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:00 +0000
Subject: [PATCH 28/58] fix: extract_uint64 acts on the stack

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 600eec1..da001e3 100644
--- a/process.go
+++ b/process.go
@@ -2050,7 +2050,7 @@ func opExtract32Bits(c ProcessContext) {
 }
 func opExtract64Bits(c ProcessContext) {
 	c.minVersion(5)
-	c.emit(Extract64Bits)
+	c.emit(ExtractUint64)
 }
 func opReplace2(c ProcessContext) {
 	c.minVersion(7)
-- 
2.43.0


From 1713ec4f0a3d0c5f36b4dc3b7e462e2feda59ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:00 +0000
Subject: [PATCH 29/58] fix: getbit, setbit and bitlen take integers and byte
 strings

---
 expr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expr.go b/expr.go
index e8c5f1d..bc1099c 100644
--- a/expr.go
+++ b/expr.go
@@ -2086,7 +2086,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -3180,7 +3180,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3197,7 +3197,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
-- 
2.43.0


From f76285d2e526b0c77c61a0006a6b3c5c1c221227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:00 +0000
Subject: [PATCH 30/58] fix: retsub leaves exactly the prototype's results in
 place of its arguments

---
 expr.go | 21 +++++++++------------
 vm.go   |  5 +++++
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/expr.go b/expr.go
index bc1099c..691842e 100644
--- a/expr.go
+++ b/expr.go
@@ -1671,18 +1671,15 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 	if len(b.Frames) > 0 {
 		f := b.Frames[len(b.Frames)-1]
 
-		rs := []VmValue{}
-
-		for i := uint8(0); i < f.NumReturns; i++ {
-			rs = append(rs, b.pop(VmTypeAny))
-		}
-
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
-		}
-
-		for i := len(rs) - 1; i >= 0; i-- {
-			b.push(rs[i])
+		if f.proto {
+			base := f.p - int(f.NumArgs)
+			top := len(b.Stack.Items) - int(f.NumReturns)
+			if top < f.p {
+				panic(fmt.Sprintf("retsub with too few values on stack - expected: %d", f.NumReturns))
+			}
+
+			// the results replace the arguments and everything above them
+			b.Stack.Items = append(b.Stack.Items[:base], b.Stack.Items[top:]...)
 		}
 
 		b.Line = f.Return + 1
diff --git a/vm.go b/vm.go
index 4642257..d73dbf6 100644
--- a/vm.go
+++ b/vm.go
@@ -19,6 +19,7 @@ type VmFrame struct {
 	NumArgs    uint8
 	NumReturns uint8
 	p          int
+	proto      bool
 	Name       string
 }
 
@@ -194,6 +195,10 @@ func (b *VmBranch) push(t VmValue) {
 
 func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
+	if f.p < int(a) {
+		panic(errors.Errorf("too few values on stack - expected: %d", a))
+	}
+	f.proto = true
 	f.NumArgs = a
 	f.NumReturns = r
 	b.Frames[len(b.Frames)-1] = f
-- 
2.43.0


From 71969d6aeeeed2672e07d39deae6ee6386ea0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 31/58] fix: hints and quick fixes cover ranges of several
 lines whatever their columns

---
 lsp/lsp.go |  4 ++--
 process.go |  2 +-
 range.go   | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..dd6e7ff 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1697,7 +1697,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Intersects(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1779,7 +1779,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Intersects(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index da001e3..51c35e9 100644
--- a/process.go
+++ b/process.go
@@ -2715,7 +2715,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Intersects(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..043d047 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,20 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+// Intersects tells whether two ranges of text, each running from its start to its end position, touch
+func Intersects(a, b Range) bool {
+	return notAfter(a.StartLine(), a.StartCharacter(), b.EndLine(), b.EndCharacter()) &&
+		notAfter(b.StartLine(), b.StartCharacter(), a.EndLine(), a.EndCharacter())
+}
+
+func notAfter(line1, ch1, line2, ch2 int) bool {
+	if line1 != line2 {
+		return line1 < line2
+	}
+
+	return ch1 <= ch2
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From 948852e97f9b277a7f996d6005b971d53551a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 32/58] fix: full signatures close the bracket of their
 optional arguments

---
 process.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/process.go b/process.go
index 51c35e9..a63d607 100644
--- a/process.go
+++ b/process.go
@@ -1499,6 +1499,7 @@ var Ops = func() *opItems {
 
 				if arg.Optional {
 					if !optional {
+						optional = true
 						name = "[" + name
 					}
 				}
-- 
2.43.0


From 93773c4a0dc6ae0079d4cfdd1c2b56a069a790e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 33/58] fix: the argument at a position between arguments is
 the one that would go there

---
 process.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index a63d607..aa86348 100644
--- a/process.go
+++ b/process.go
@@ -2878,11 +2878,17 @@ func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 		return res, -1, false
 	}
 
-	curr := len(ln) - 1
+	curr := 0
 
 	_, idx, ok := ln.ImmAt(ch)
 	if ok {
 		curr = idx
+	} else {
+		for i, tok := range ln[1:] {
+			if tok.End() < ch {
+				curr = i + 1
+			}
+		}
 	}
 
 	op := ln[0]
-- 
2.43.0


From 60f3611b4bcec18aba0ef1422eabc7d1bfe53f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 34/58] fix: only hexadecimal byte literals are decoded in
 hints and quick fixes

---
 process.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index aa86348..4f49a0d 100644
--- a/process.go
+++ b/process.go
@@ -2693,6 +2693,15 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 	return n
 }
 
+func isBytesEncoding(s string) bool {
+	switch s {
+	case "base32", "b32", "base64", "b64":
+		return true
+	default:
+		return false
+	}
+}
+
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
@@ -2715,7 +2724,24 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 			spec, ok = r.getOp(ln[0].String())
 		}
 
+		encoded := false
+
 		for i, tok := range ln {
+			literal := false
+
+			if ok && i > 0 {
+				idx := i - 1
+				if idx >= len(spec.Args) && len(spec.Args) > 0 && spec.Args[len(spec.Args)-1].Array {
+					idx = len(spec.Args) - 1
+				}
+
+				if idx < len(spec.Args) && spec.Args[idx].Type == OpArgTypeBytes {
+					literal = !encoded
+				}
+
+				encoded = literal && isBytesEncoding(tok.String())
+			}
+
 			if !Intersects(tok, rg) {
 				continue
 			}
@@ -2755,7 +2781,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 			}()
 
 			func() {
-				if tok.Type() != TokenValue {
+				if !literal || tok.Type() != TokenValue {
 					return
 				}
 
-- 
2.43.0


From da8f0856892bdec58595c223c193c05f18de4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 35/58] fix: backslashes are escaped when a byte literal is
 replaced by a string

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index dd6e7ff..66614ad 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1769,7 +1769,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: fmt.Sprintf("\"%s\"", strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(named.Value)),
 							},
 						},
 					},
-- 
2.43.0


From 3d80f5642a576cf7fa4a2bddb27a1b105da5de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 36/58] fix: creating a label inserts it without replacing text

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 66614ad..8fbcb22 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1113,7 +1113,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 											},
 											End: lspPosition{
 												Line:      len(res.Lines),
-												Character: len(s),
+												Character: 0,
 											},
 										},
 										NewText: s,
-- 
2.43.0


From e23014b54bc759600479ede45d2b2d7bfbd8d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 37/58] fix: completion offers the mnemonics of the program
 mode

---
 lsp/lsp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 8fbcb22..9dc2b35 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1471,7 +1471,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				})
 
 				for name, info := range teal.Ops.Items {
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+					version := info.AppVersion
+					if res.Mode == teal.ModeSig {
+						version = info.SigVersion
+					}
+
+					if version > 0 && version <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1491,7 +1496,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", version)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From e202ed09d507a04d7fc886e7f3072e76aba09014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 38/58] fix: formatting a document with a very long line does
 not end the server

---
 lsp/lsp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9dc2b35..a4660bf 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1590,6 +1590,13 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				return err
 			}
 
+			for _, ln := range strings.Split(doc.s, "\n") {
+				// the formatter exits the process on such lines
+				if len(ln) >= bufio.MaxScanTokenSize-1 {
+					return errors.New("line too long to format")
+				}
+			}
+
 			formatted := tealfmt.Format(strings.NewReader(doc.s))
 
 			return l.success(h.Id, []lspTextEdit{
-- 
2.43.0


From 4123957c0e16ca32eaa18e04141e1d4d3374296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:27 +0000
Subject: [PATCH 39/58] fix: the language server answers every request once and
 survives failing ones

---
 lsp/lsp.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index a4660bf..9b6d328 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -61,6 +61,8 @@ type lsp struct {
 	docs     map[string]*lspDoc
 	shutdown bool
 
+	replied bool // whether the current request has been answered
+
 	exit     bool
 	exitCode int
 
@@ -696,6 +698,13 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *lsp) reply(id interface{}, result interface{}, err interface{}) error {
+	if id == nil {
+		// notifications are not answered
+		return nil
+	}
+
+	l.replied = true
+
 	return l.write(jsonRpcResponse{
 		JsonRpc: "2.0",
 		Id:      id,
@@ -783,6 +792,32 @@ func (l *lsp) prepare(uri string) (*lspDoc, *teal.ProcessResult, error) {
 	return doc, doc.Results(), nil
 }
 
+// serve handles a message, making sure that a request is answered exactly once
+func (l *lsp) serve(h jsonRpcHeader, b []byte) (err error) {
+	l.replied = false
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("failed to process message: %v", r)
+		}
+
+		if h.Method == "" || l.replied {
+			return
+		}
+
+		if err != nil {
+			l.fail(h.Id, lspError{
+				Code:    -32603,
+				Message: err.Error(),
+			})
+		} else {
+			l.success(h.Id, json.RawMessage("null"))
+		}
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 	if h.Result != nil {
@@ -2206,7 +2241,7 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.serve(jh, data)
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From e6e4fa86e380393a170d83564b6872e694611627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:27 +0000
Subject: [PATCH 40/58] fix: the language server ends when its input fails and
 survives negative lengths

---
 lsp/lsp.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 9b6d328..703a359 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2213,10 +2213,16 @@ func (l *lsp) Run() (int, error) {
 		l.trace("TEAL LSP exited.")
 	}()
 
-	for !l.exit {
+	closed := false
+
+	for !l.exit && !closed {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				var perr textproto.ProtocolError
+				if !errors.As(err, &perr) {
+					closed = true
+				}
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -2226,10 +2232,14 @@ func (l *lsp) Run() (int, error) {
 			if err != nil {
 				return errors.Wrap(err, "failed to parse content length")
 			}
+			if length < 0 {
+				return errors.New("negative content length")
+			}
 
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
+				closed = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
@@ -2251,10 +2261,6 @@ func (l *lsp) Run() (int, error) {
 
 		if err != nil {
 			l.trace(fmt.Sprintf("ERR: %s", err))
-
-			if errors.Is(err, io.EOF) {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From d7d97011802ca52f66137a8c8b72df73ef2d33f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:24 +0000
Subject: [PATCH 41/58] fix: optimising keeps the retsub of every subroutine
 that can be entered

---
 compiler.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..04668c0 100644
--- a/compiler.go
+++ b/compiler.go
@@ -119,6 +119,29 @@ func removeBJustBeforeItsTargetLabel(l Listing) Listing {
 	return res
 }
 
+// isUnusedSub reports whether the op at i makes up the whole body of a subroutine
+// that is neither called nor entered from the code before it
+func isUnusedSub(l Listing, i int, used map[string]bool) bool {
+	sub := false
+
+	for j := i - 1; j >= 0; j-- {
+		switch o := l[j].(type) {
+		case *LabelExpr:
+			if used[o.Name] {
+				return false
+			}
+			sub = true
+		case Nop:
+		case *BExpr, *ReturnExpr, *ErrExpr, *RetSubExpr:
+			return sub
+		default:
+			return false
+		}
+	}
+
+	return false
+}
+
 func removeUnused(l Listing) Listing {
 	var res Listing
 
@@ -133,8 +156,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -162,19 +183,14 @@ func removeUnused(l Listing) Listing {
 			}
 			res = append(res, o)
 		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
+			if isUnusedSub(l, i, used) {
+				continue
 			}
+
+			res = append(res, o)
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From 35a57cb29ac4fcc5a61a70f6aefd62122dd2fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:01 +0000
Subject: [PATCH 42/58] fix: field numbers that name no field print as numbers

---
 go_algorand.go | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/go_algorand.go b/go_algorand.go
index 9a99996..ef39958 100644
--- a/go_algorand.go
+++ b/go_algorand.go
@@ -1926,8 +1926,8 @@ const _TxnField_name = "SenderFeeFirstValidFirstValidTimeLastValidNoteLeaseRecei
 var _TxnField_index = [...]uint16{0, 6, 9, 19, 33, 42, 46, 51, 59, 65, 81, 87, 98, 107, 115, 130, 134, 142, 151, 162, 173, 186, 198, 208, 212, 225, 237, 252, 262, 270, 281, 296, 313, 320, 331, 347, 366, 390, 409, 424, 438, 461, 479, 497, 514, 533, 544, 562, 579, 585, 594, 606, 621, 634, 652, 664, 681, 698, 714, 718, 725, 739, 759, 766, 778, 798, 821, 843, 868, 883}
 
 func (i TxnField) String() string {
-	if i < 0 || i >= TxnField(len(_TxnField_index)-1) {
-		return "TxnField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidTxnField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _TxnField_name[_TxnField_index[i]:_TxnField_index[i+1]]
 }
@@ -1958,8 +1958,8 @@ const _GlobalField_name = "MinTxnFeeMinBalanceMaxTxnLifeZeroAddressGroupSizeLogi
 var _GlobalField_index = [...]uint8{0, 9, 19, 29, 40, 49, 64, 69, 84, 104, 118, 143, 150, 162, 181, 205, 223}
 
 func (i GlobalField) String() string {
-	if i >= GlobalField(len(_GlobalField_index)-1) {
-		return "GlobalField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i >= invalidGlobalField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _GlobalField_name[_GlobalField_index[i]:_GlobalField_index[i+1]]
 }
@@ -1987,8 +1987,8 @@ const _AssetParamsField_name = "AssetTotalAssetDecimalsAssetDefaultFrozenAssetUn
 var _AssetParamsField_index = [...]uint8{0, 10, 23, 41, 54, 63, 71, 88, 100, 112, 123, 136, 148, 171}
 
 func (i AssetParamsField) String() string {
-	if i < 0 || i >= AssetParamsField(len(_AssetParamsField_index)-1) {
-		return "AssetParamsField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidAssetParamsField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _AssetParamsField_name[_AssetParamsField_index[i]:_AssetParamsField_index[i+1]]
 }
@@ -2013,8 +2013,8 @@ const _AppParamsField_name = "AppApprovalProgramAppClearStateProgramAppGlobalNum
 var _AppParamsField_index = [...]uint8{0, 18, 38, 54, 75, 90, 110, 130, 140, 150, 171}
 
 func (i AppParamsField) String() string {
-	if i < 0 || i >= AppParamsField(len(_AppParamsField_index)-1) {
-		return "AppParamsField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidAppParamsField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _AppParamsField_name[_AppParamsField_index[i]:_AppParamsField_index[i+1]]
 }
@@ -2042,8 +2042,8 @@ const _AcctParamsField_name = "AcctBalanceAcctMinBalanceAcctAuthAddrAcctTotalNum
 var _AcctParamsField_index = [...]uint8{0, 11, 25, 37, 53, 74, 96, 116, 136, 158, 173, 187, 204, 226}
 
 func (i AcctParamsField) String() string {
-	if i < 0 || i >= AcctParamsField(len(_AcctParamsField_index)-1) {
-		return "AcctParamsField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidAcctParamsField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _AcctParamsField_name[_AcctParamsField_index[i]:_AcctParamsField_index[i+1]]
 }
@@ -2061,8 +2061,8 @@ const _AssetHoldingField_name = "AssetBalanceAssetFrozeninvalidAssetHoldingField
 var _AssetHoldingField_index = [...]uint8{0, 12, 23, 47}
 
 func (i AssetHoldingField) String() string {
-	if i < 0 || i >= AssetHoldingField(len(_AssetHoldingField_index)-1) {
-		return "AssetHoldingField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidAssetHoldingField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _AssetHoldingField_name[_AssetHoldingField_index[i]:_AssetHoldingField_index[i+1]]
 }
@@ -2102,8 +2102,8 @@ const _EcdsaCurve_name = "Secp256k1Secp256r1invalidEcdsaCurve"
 var _EcdsaCurve_index = [...]uint8{0, 9, 18, 35}
 
 func (i EcdsaCurve) String() string {
-	if i < 0 || i >= EcdsaCurve(len(_EcdsaCurve_index)-1) {
-		return "EcdsaCurve(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidEcdsaCurve {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _EcdsaCurve_name[_EcdsaCurve_index[i]:_EcdsaCurve_index[i+1]]
 }
@@ -2124,8 +2124,8 @@ const _EcGroup_name = "BN254_G1BN254_G2BLS12_381_G1BLS12_381_G2invalidEcgroup"
 var _EcGroup_index = [...]uint8{0, 8, 16, 28, 40, 54}
 
 func (i EcGroup) String() string {
-	if i < 0 || i >= EcGroup(len(_EcGroup_index)-1) {
-		return "EcGroup(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidEcgroup {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _EcGroup_name[_EcGroup_index[i]:_EcGroup_index[i+1]]
 }
@@ -2212,8 +2212,8 @@ const _Base64Encoding_name = "URLEncodingStdEncodinginvalidBase64Encoding"
 var _Base64Encoding_index = [...]uint8{0, 11, 22, 43}
 
 func (i Base64Encoding) String() string {
-	if i < 0 || i >= Base64Encoding(len(_Base64Encoding_index)-1) {
-		return "Base64Encoding(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidBase64Encoding {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _Base64Encoding_name[_Base64Encoding_index[i]:_Base64Encoding_index[i+1]]
 }
@@ -2232,8 +2232,8 @@ const _JSONRefType_name = "JSONStringJSONUint64JSONObjectinvalidJSONRefType"
 var _JSONRefType_index = [...]uint8{0, 10, 20, 30, 48}
 
 func (i JSONRefType) String() string {
-	if i < 0 || i >= JSONRefType(len(_JSONRefType_index)-1) {
-		return "JSONRefType(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidJSONRefType {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _JSONRefType_name[_JSONRefType_index[i]:_JSONRefType_index[i+1]]
 }
@@ -2250,8 +2250,8 @@ const _VrfStandard_name = "VrfAlgorandinvalidVrfStandard"
 var _VrfStandard_index = [...]uint8{0, 11, 29}
 
 func (i VrfStandard) String() string {
-	if i < 0 || i >= VrfStandard(len(_VrfStandard_index)-1) {
-		return "VrfStandard(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidVrfStandard {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _VrfStandard_name[_VrfStandard_index[i]:_VrfStandard_index[i+1]]
 }
@@ -2269,8 +2269,8 @@ const _BlockField_name = "BlkSeedBlkTimestampinvalidBlockField"
 var _BlockField_index = [...]uint8{0, 7, 19, 36}
 
 func (i BlockField) String() string {
-	if i < 0 || i >= BlockField(len(_BlockField_index)-1) {
-		return "BlockField(" + strconv.FormatInt(int64(i), 10) + ")"
+	if i < 0 || i >= invalidBlockField {
+		return strconv.FormatInt(int64(i), 10)
 	}
 	return _BlockField_name[_BlockField_index[i]:_BlockField_index[i+1]]
 }
-- 
2.43.0


From de2fc9a41ecb38d909f32d176c96be2a916b17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 43/58] fix: the debug adapter answers every request once and
 survives failing ones

---
 dbg/dbg.go | 64 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 1e30967..7b9d431 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -25,6 +25,8 @@ type dbg struct {
 
 	shutdown bool
 
+	replied bool // whether the current request has been answered
+
 	exit     bool
 	exitCode int
 
@@ -269,6 +271,8 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *dbg) reply(id int, cmd string, msg string, result interface{}, err interface{}) error {
+	l.replied = true
+
 	l.id++
 	return l.write(dapResponse{
 		Seq:        l.id,
@@ -302,6 +306,30 @@ func (l *dbg) notify(event string, params interface{}) error {
 	})
 }
 
+// serve handles a message, making sure that a request is answered exactly once
+func (l *dbg) serve(h dapHeader, b []byte) (err error) {
+	l.replied = false
+
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("failed to process message: %v", r)
+		}
+
+		if h.Type != "request" || l.replied {
+			return
+		}
+
+		if err == nil {
+			err = errors.New("unsupported command")
+		}
+
+		req, _ := read[dapRequestHeader](b)
+		l.reply(h.Seq, req.Command, err.Error(), nil, err)
+	}()
+
+	return l.handle(h, b)
+}
+
 func (l *dbg) handle(h dapHeader, b []byte) error {
 	switch h.Type {
 	case "request":
@@ -463,6 +491,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if l.vm == nil {
+				return nil
+			}
+
 			var tid *int
 			if l.vm.tvm.Branch != nil {
 				tid = new(int)
@@ -479,6 +511,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			if err != nil {
 				return err
 			}
+			if creq.Arguments == nil {
+				return errors.New("missing arguments")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", dapContinueResponse{
 				AllThreadsContinued: yes,
 			}, nil)
@@ -532,22 +568,28 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if nreq.Arguments == nil {
+				return errors.New("missing arguments")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
 			}
 
-			if l.vm != nil {
-				l.vm.tvm.Switch(nreq.Arguments.ThreadId)
-				l.vm.tvm.Step()
+			if l.vm == nil {
+				return nil
+			}
 
-				if l.vm.tvm.Error != nil {
-					return l.notify("stopped", dapStoppedEventParams{
-						Reason:            "exception",
-						AllThreadsStopped: yes,
-						Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
-					})
-				}
+			l.vm.tvm.Switch(nreq.Arguments.ThreadId)
+			l.vm.tvm.Step()
+
+			if l.vm.tvm.Error != nil {
+				return l.notify("stopped", dapStoppedEventParams{
+					Reason:            "exception",
+					AllThreadsStopped: yes,
+					Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
+				})
 			}
 
 			var tid *int
@@ -818,7 +860,7 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
-			err = l.handle(jh, data)
+			err = l.serve(jh, data)
 			if err != nil {
 				return errors.Wrap(err, "failed to handle request")
 			}
-- 
2.43.0


From 4db14ce881301dd0b49e6050396bea03cea3b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 44/58] fix: the debug adapter ends when its input fails and
 survives negative lengths

---
 dbg/dbg.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 7b9d431..78ed96c 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -832,10 +832,16 @@ func (l *dbg) Run() (int, error) {
 		l.trace("TEAL dbg exited.")
 	}()
 
-	for !l.exit {
+	closed := false
+
+	for !l.exit && !closed {
 		err := func() error {
 			mh, err := l.tp.ReadMIMEHeader()
 			if err != nil {
+				var perr textproto.ProtocolError
+				if !errors.As(err, &perr) {
+					closed = true
+				}
 				return errors.Wrap(err, "failed to read request headers")
 			}
 
@@ -845,10 +851,14 @@ func (l *dbg) Run() (int, error) {
 			if err != nil {
 				return errors.Wrap(err, "failed to parse content length")
 			}
+			if length < 0 {
+				return errors.New("negative content length")
+			}
 
 			data := make([]byte, length)
 			_, err = io.ReadFull(l.tp.R, data)
 			if err != nil {
+				closed = true
 				return errors.Wrap(err, "failed to read content body")
 			}
 
@@ -870,10 +880,6 @@ func (l *dbg) Run() (int, error) {
 
 		if err != nil {
 			l.trace(fmt.Sprintf("ERR: %s", err))
-
-			if errors.Is(err, io.EOF) {
-				break
-			}
 		}
 	}
 
-- 
2.43.0


From d639fcfe91eb3eff8b10fd3384244cbe93d6cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 45/58] fix: the line and column base is the one of the latest
 initialize request

---
 dbg/dbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 78ed96c..e23cac3 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -345,6 +345,9 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			l.lz = 0
+			l.cz = 0
+
 			if ireq.Arguments.LinesStartAt1 == nil || *ireq.Arguments.LinesStartAt1 {
 				l.lz = 1
 			}
-- 
2.43.0


From 29acf2df9548f3da5bd6d8936eb852724de63dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 46/58] fix: variables are paged within their actual number

---
 dbg/dbg.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index e23cac3..65fea39 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -138,6 +138,25 @@ type dapVariablesRequestParams struct {
 	Count              *int `json:"count,omitempty"`
 }
 
+// page returns the range of the requested variables out of n
+func (p *dapVariablesRequestParams) page(n int) (int, int) {
+	s := 0
+	if p.Start != nil && *p.Start > 0 {
+		s = *p.Start
+	}
+
+	if s > n {
+		s = n
+	}
+
+	e := n
+	if p.Count != nil && *p.Count > 0 && *p.Count < n-s {
+		e = s + *p.Count
+	}
+
+	return s, e
+}
+
 type dapVariablesResponse struct {
 	Variables []dapVariable `json:"variables"`
 }
@@ -630,23 +649,16 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									Value: strconv.Itoa(b.Budget),
 								})
 							case 1:
-								for i := len(b.Stack.Items) - 1; i >= 0; i-- {
+								s, e := vreq.Arguments.page(len(b.Stack.Items))
+
+								for i := e - 1; i >= s; i-- {
 									vs = append(vs, dapVariable{
 										Name:  strconv.Itoa(i),
 										Value: b.Stack.Items[i].String(),
 									})
 								}
 							case 2:
-								s := 0
-								e := len(b.Scratch.Items)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.page(len(b.Scratch.Items))
 
 								for i := s; i < e; i++ {
 									v := b.Scratch.Items[i]
@@ -658,16 +670,7 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 									}
 								}
 							case 3:
-								s := 0
-								e := len(b.Trace)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.page(len(b.Trace))
 
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
-- 
2.43.0


From f297c6fd9197b58daecb8d366ecdaf8f4653757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 47/58] fix: the stack trace reports its actual number of
 frames

---
 dbg/dbg.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 65fea39..6fea2ed 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -775,12 +775,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
 				StackFrames: sf,
-				TotalFrames: one,
+				TotalFrames: &total,
 			}, nil)
 		}
 	}
-- 
2.43.0


From 909abbe79f1460e5be54aa8e1fae838f67b4898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 48/58] fix: the end of the program is not reported as a
 breakpoint

---
 dbg/dbg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6fea2ed..aa3deae 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -576,8 +576,9 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 					})
 				} else if l.vm.tvm.Branch == nil {
 					return l.notify("stopped", dapStoppedEventParams{
-						Reason:            "breakpoint",
+						Reason:            "exit",
 						AllThreadsStopped: yes,
+						Description:       "Program finished",
 					})
 				}
 			}
-- 
2.43.0


From c3ea5073629659cad817227ee692654589d80f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 49/58] fix: breakpoints set before the launch are kept

---
 dbg/dbg.go | 94 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 61 insertions(+), 33 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index aa3deae..d8f9629 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -276,6 +276,11 @@ type dapStoppedEventParams struct {
 	Text              string `json:"text,omitempty"`
 }
 
+type dapBreakpointEventParams struct {
+	Reason     string        `json:"reason"`
+	Breakpoint dapBreakpoint `json:"breakpoint"`
+}
+
 type dapExitedEventParams struct {
 	ExitCode int `json:"exitCode"`
 }
@@ -325,6 +330,38 @@ func (l *dbg) notify(event string, params interface{}) error {
 	})
 }
 
+// updateBreakpoints applies the breakpoints to the launched program, if any
+func (l *dbg) updateBreakpoints() []dapBreakpoint {
+	lns := []int{}
+	for _, b := range l.bs {
+		lns = append(lns, b.l)
+	}
+
+	var verified map[int]bool
+	if l.vm != nil {
+		verified = l.vm.tvm.SetBreakpoints(lns)
+	}
+
+	bs := []dapBreakpoint{}
+
+	for _, b := range l.bs {
+		id := b.id
+		ln := b.l + l.lz
+
+		bs = append(bs, dapBreakpoint{
+			Id:       &id,
+			Verified: verified[b.id], // TODO: line number used as id - review the design
+			Line:     &ln,
+			Source: &dapSource{
+				Name: b.name,
+				Path: b.path,
+			},
+		})
+	}
+
+	return bs
+}
+
 // serve handles a message, making sure that a request is answered exactly once
 func (l *dbg) serve(h dapHeader, b []byte) (err error) {
 	l.replied = false
@@ -407,6 +444,9 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				path: lreq.Arguments.Program,
 			}
 
+			// breakpoints may have been set before the launch
+			bps := l.updateBreakpoints()
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
@@ -420,6 +460,16 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			for _, bp := range bps {
+				err = l.notify("breakpoint", dapBreakpointEventParams{
+					Reason:     "changed",
+					Breakpoint: bp,
+				})
+				if err != nil {
+					return err
+				}
+			}
+
 			var tid *int
 			if l.vm.tvm.Branch != nil {
 				tid = new(int)
@@ -444,44 +494,22 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
-			bs := []dapBreakpoint{}
-
-			if l.vm != nil {
-
-				l.bs = []dbgBreakpoint{}
-				for _, b := range ser.Arguments.Breakpoints {
-					bt := dbgBreakpoint{
-						id:   b.Line - l.lz, // TODO: line number used as id - review the design
-						l:    b.Line - l.lz,
-						name: ser.Arguments.Source.Name,
-						path: ser.Arguments.Source.Path,
-					}
-
-					l.bs = append(l.bs, bt)
+			bs := []dbgBreakpoint{}
+			for _, b := range ser.Arguments.Breakpoints {
+				bt := dbgBreakpoint{
+					id:   b.Line - l.lz, // TODO: line number used as id - review the design
+					l:    b.Line - l.lz,
+					name: ser.Arguments.Source.Name,
+					path: ser.Arguments.Source.Path,
 				}
 
-				lns := []int{}
-				for _, b := range l.bs {
-					lns = append(lns, b.l)
-				}
-
-				verified := l.vm.tvm.SetBreakpoints(lns)
-
-				for _, b := range l.bs {
-					id := b.id
-					ln := b.l + l.lz
-
-					bs = append(bs, dapBreakpoint{
-						Id:       &id,
-						Verified: verified[b.id], // TODO: line number used as id - review the design
-						Line:     &ln,
-						Source:   &ser.Arguments.Source,
-					})
-				}
+				bs = append(bs, bt)
 			}
 
+			l.bs = bs
+
 			err = l.reply(h.Seq, req.Command, "", dapSetBreakpointsResponse{
-				Breakpoints: bs,
+				Breakpoints: l.updateBreakpoints(),
 			}, nil)
 			if err != nil {
 				return err
-- 
2.43.0


From 9560806bb2a3b0d8af64c1425af7b1c0a90cd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 50/58] fix: the reporter fails on folders it cannot read

---
 cmd/tealsarif/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..6dd94e6 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -85,6 +85,10 @@ func run(a args) error {
 
 	if fi.IsDir() {
 		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+			if err != nil {
+				return err
+			}
+
 			if !d.IsDir() {
 				if filepath.Ext(path) == ".teal" {
 					paths = append(paths, path)
-- 
2.43.0


From 241055d967db74f1b907f23e6d9c5d869ad3042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 51/58] fix: results of the report refer to their own artifact

---
 cmd/tealsarif/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 6dd94e6..77a4990 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -129,7 +129,7 @@ func run(a args) error {
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -141,7 +141,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: len(run.Artifacts) - 1,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0


From 15029b058aec0c08bf512786847740fecd20ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 52/58] fix: every severity has a name

---
 diag.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diag.go b/diag.go
index 2f5f916..f1d6520 100644
--- a/diag.go
+++ b/diag.go
@@ -10,6 +10,8 @@ func (s DiagnosticSeverity) String() string {
 		return "warn"
 	case DiagErr:
 		return "error"
+	case DiagHint:
+		return "hint"
 	default:
 		panic("unsupported severity")
 	}
-- 
2.43.0


From cbab9f139f540c32a6118fb5a603741489911d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:55 +0000
Subject: [PATCH 53/58] fix: nested expressions and functions compile

---
 expr.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/expr.go b/expr.go
index 691842e..0427cd2 100644
--- a/expr.go
+++ b/expr.go
@@ -1211,12 +1211,40 @@ type NestedExpr struct {
 	Body  []Expr
 }
 
+func (e *NestedExpr) Compile(c *compiler) []Op {
+	var res []Op
+
+	if e.Label != nil {
+		res = c.compile(res, e.Label)
+	}
+
+	return c.compile(res, e.Body...)
+}
+
 type FuncExpr struct {
 	Label *LabelExpr
 	Proto *ProtoExpr
 	Block *NestedExpr
 }
 
+func (e *FuncExpr) Compile(c *compiler) []Op {
+	var res []Op
+
+	if e.Label != nil {
+		res = c.compile(res, e.Label)
+	}
+
+	if e.Proto != nil {
+		res = c.compile(res, e.Proto)
+	}
+
+	if e.Block != nil {
+		res = c.compile(res, e.Block)
+	}
+
+	return res
+}
+
 func (e *FuncExpr) Call(args ...Expr) Expr {
 	var exprs []Expr
 
-- 
2.43.0


From 59afb43dd9262080a1435e6c2038162fc03b834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:59 +0000
Subject: [PATCH 54/58] fix: printed base64 constants starting with slashes are
 not comments

---
 expr.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index 0427cd2..48f5a21 100644
--- a/expr.go
+++ b/expr.go
@@ -1334,10 +1334,8 @@ func (e Bytes) String() string {
 	case BytesStringLiteral:
 		return quoteStringLiteral(e.Value)
 	case BytesBase64:
-		if len(e.Value) == 0 {
-			return "b64()"
-		}
-		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
+		// in parentheses, as a body starting with // would read as a comment
+		return fmt.Sprintf("b64(%s)", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
 	}
-- 
2.43.0


From 6fe7f8edfd59b51eb3e8c8b0363224c39dc4076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:48 +0000
Subject: [PATCH 55/58] fix: hovering an elliptic curve group shows its
 documentation

---
 process.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/process.go b/process.go
index 4f49a0d..822b728 100644
--- a/process.go
+++ b/process.go
@@ -3118,6 +3118,19 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 								}
 							}
 
+						case OpArgTypeEcGroupField:
+							spec, ok := ecGroupSpecByName[tok.String()]
+							if ok {
+								return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+							}
+							v, err := strconv.Atoi(tok.String())
+							if err == nil {
+								spec, ok = ecGroupSpecByField(EcGroup(v))
+								if ok {
+									return fmt.Sprintf("%s = %d\r\n%s", spec.field.String(), spec.field, spec.Note())
+								}
+							}
+
 						case OpArgTypeGlobalField:
 							spec, ok := globalFieldSpecByName[tok.String()]
 							if ok {
-- 
2.43.0


From 379f8dc750f642e28ab7ebdabe9336cef41a298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:48 +0000
Subject: [PATCH 56/58] fix: prepare-rename covers the whole label argument

---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 703a359..dd00ed0 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1202,7 +1202,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 						},
 						End: lspPosition{
 							Line:      ref.Line(),
-							Character: ref.Begin() + len(ref.String()),
+							Character: ref.End(),
 						},
 					},
 					Placeholder: ref.String(),
-- 
2.43.0


From 47e6501525ae4918c5333701b4e213bea76c29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:50 +0000
Subject: [PATCH 57/58] fix: the debug adapter starts without a debug file

---
 cmd/tealdbg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealdbg/main.go b/cmd/tealdbg/main.go
index 714dd8b..225ae7e 100644
--- a/cmd/tealdbg/main.go
+++ b/cmd/tealdbg/main.go
@@ -58,7 +58,7 @@ func main() {
 
 	flag.StringVar(&a.Net, "net", "tcp", "client network")
 	flag.StringVar(&a.Addr, "addr", "", "client address")
-	flag.StringVar(&a.Debug, "debug", "E:/dbg.txt", "debug file path")
+	flag.StringVar(&a.Debug, "debug", "", "debug file path")
 
 	flag.Parse()
 
-- 
2.43.0


From 5eb1a91da52f90793ea3f89dcbc3c9c096b149e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:44 +0000
Subject: [PATCH 58/58] fix: hovering a comment shows nothing

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index 822b728..2d9cd71 100644
--- a/process.go
+++ b/process.go
@@ -2969,6 +2969,10 @@ func (r ProcessResult) DocAt(l int, ch int) string {
 			continue
 		}
 
+		if t.Type() == TokenComment {
+			break
+		}
+
 		if i == 0 {
 			info, ok := r.getOp(t.String())
 			if ok {
-- 
2.43.0

