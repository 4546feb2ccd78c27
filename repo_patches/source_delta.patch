From 78bc29b6b0517f68d133860ee3a30872d730fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 01/28] fix: do not reuse results cached from an older
 iteration of left recursion

While a left recursive rule grows, results of the rules involved are cached.
Those were not all wiped when the rule grew: a rule reusing a cached result
(instead of reaching the recursion itself) was not recorded as involved, the
results computed while the recursion failed were kept, and the frames of the
best iteration were put back although computed with the previous seed.
E.g. A: C 'z' | D 'x' | 'y', C: A, D: C did not parse 'yx'.
---
 packrat.go  |  7 ++++---
 parsectx.go | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..0bcbb33 100644
--- a/packrat.go
+++ b/packrat.go
@@ -114,10 +114,12 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Cyan("`-hit:")+" nil", opts)
 					}
 				}
+				ctx.markDependents(frame)
 				ctx.Code.SetPos(frame.endpos)
 				return frame.result
 			}
 			frame.loopstage = 1
+			frame.wipemask = nil
 			frame.cacheSet(nil, -1)
 			result := fparse(ctx)
 			switch frame.loopstage {
@@ -142,6 +144,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Yellow("`--- loop nil --- "), opts)
 					}
 					frame.loopstage = 0
+					ctx.wipeWith(frame, false) // they were computed with a failing `frame`
 					// cacheSet(frame, nil) // unneeded (already nil)
 					return result
 				} else {
@@ -177,14 +180,13 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						// 	fmt.Println(s) // also this way in original joeson.coffee
 						// }
 					}
-					var bestStash stash = nil
 					var bestEndPos int = 0
 					var bestResult Ast = nil
 					for result != nil {
 						if frame.wipemask == nil {
 							panic("where's my wipemask")
 						}
-						bestStash = ctx.wipeWith(frame, true)
+						ctx.wipeWith(frame, false)
 						bestResult = result
 						bestEndPos = ctx.Code.Pos()
 						frame.cacheSet(bestResult, bestEndPos)
@@ -201,7 +203,6 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-					ctx.restoreWith(bestStash)
 					ctx.Code.SetPos(bestEndPos)
 					if showLog {
 						ctx.log(Yellow("`--- loop done! --- ")+"best result: "+helpers.Escape(bestResult.String()), opts)
diff --git a/parsectx.go b/parsectx.go
index fa204ad..e4ad097 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -134,6 +134,22 @@ func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
 	}
 }
 
+// The cached result of `hit` is being reused. If it was computed using the
+// result so far of a left recursive rule which is still growing at the same
+// position, then so are all the rules in between in the stack: they too need
+// to be wiped when that rule grows.
+func (ctx *ParseContext) markDependents(hit *frame) {
+	for i := ctx.stackLength - 2; i >= 0 && ctx.stack[i].pos == hit.pos; i-- {
+		head := ctx.stack[i]
+		if head.loopstage <= 0 || head.wipemask == nil || !head.wipemask[hit.id] {
+			continue
+		}
+		for _, dependent := range ctx.stack[i+1 : ctx.stackLength-1] {
+			head.wipemask[dependent.id] = true
+		}
+	}
+}
+
 func (ctx *ParseContext) restoreWith(stash_ stash) {
 	for i, frame := range stash_ {
 		if frame != nil {
-- 
2.43.0


From aeb092801056be7248d136fc34371f3f36dcc125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 02/28] fix: honour the maximum of {m,n} when it is 0 or 1

The maximum was only checked after a second item, so [a]{0,1} matched 'aa'.
---
 parser_pattern.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..a086947 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,12 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +102,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +119,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From c91a4b015f7bda9707e66d16795585381ccfec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 03/28] fix: end an unbounded repetition when an iteration
 consumes nothing

Otherwise rules such as (' '*)* never return, and use up all memory.
---
 parser_pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index a086947..a65de91 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -118,6 +118,10 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			// an unbounded repetition ends when nothing gets consumed anymore
+			if patt.max < 0 && ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
+				break
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 95fb30ae5a98eb02914c5dc3fca6cea70dd5c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 04/28] fix: let the parse stack grow with the nesting of the
 input

It was limited to 1024 rules, after which parsing panicked with an index out
of range. ((((1)))) style inputs reached that with about 200 levels.
---
 parsectx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index e4ad097..15123b4 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,7 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack[:ctx.stackLength], ctx.getFrame(x))
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From 420c245d3f03d1b219c3bf0236d29e41eb7622de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 05/28] fix: Debug{true} must not alter the trace options of
 the grammar

Every parse wrote to the trace options of the (possibly shared) grammar: a
data race, and tracing stayed enabled after a parse callback panicked.
---
 grammar.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..d17fa0b 100644
--- a/grammar.go
+++ b/grammar.go
@@ -106,18 +106,16 @@ func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast
 // Use ParseString() or ParseTokens()
 // This parse(ctx) is for Grammar to implement Parser
 func (gm *Grammar) parse(ctx *ParseContext) Ast {
-	oldTrace := gm.TraceOptions.Stack
 	ctx.GrammarName = gm.getRule().name
 	if ctx.parseOptions.debug {
-		// temporarily enable stack tracing
-		gm.TraceOptions.Stack = true
+		// enable stack tracing for this parse only, `gm` can be shared
+		ctx.TraceOptions = ctx.TraceOptions.Copy()
+		ctx.TraceOptions.Stack = true
 	}
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From e6a263c79e22cc7d114bf7a530c050ace140e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 06/28] fix: settle the lazy attributes of sequences when the
 grammar is created

They were computed (and written) by the first parse: a data race when a
grammar is used by several goroutines.
---
 grammar.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grammar.go b/grammar.go
index d17fa0b..0c31d57 100644
--- a/grammar.go
+++ b/grammar.go
@@ -307,6 +307,16 @@ func (gm *Grammar) postinit() {
 			return ""
 		},
 	})
+	// Settle what is lazily evaluated: parsing must not modify the grammar,
+	// as it can be used by several goroutines.
+	Walk(gm, nil, WalkPrepost{
+		Post: func(parser Parser, parent Parser) string {
+			if seq, ok := parser.(*sequence); ok {
+				seq.lazyType.Get()
+			}
+			return ""
+		},
+	})
 	gm.wasInitialized = true
 
 	if opts.Grammar {
-- 
2.43.0


From 6077881b5ef3bae9a2e565f704d24828fe06fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 07/28] fix: tracing a rule with SkipCache must not crash when
 the rule fails

---
 packrat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 0bcbb33..0225a8f 100644
--- a/packrat.go
+++ b/packrat.go
@@ -89,7 +89,9 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		}
 		if x.getRule().skipCache {
 			result := fparse(ctx)
-			if showLog {
+			if showLog && result == nil {
+				ctx.log(Cyan("`->:")+" nil", opts)
+			} else if showLog {
 				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
-- 
2.43.0


From 037f013bcac936451b6681a8d4a80006bedf0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 08/28] fix: loop tracing must not crash when a line is
 filtered

The loop stack was popped though nothing was pushed (lines other than
TraceOptions.FilterLine).
---
 packrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 0225a8f..0680ffe 100644
--- a/packrat.go
+++ b/packrat.go
@@ -151,6 +151,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
+					loopStackLength := len(ctx.loopStack)
 					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
@@ -201,7 +202,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if len(ctx.loopStack) > loopStackLength {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From c8e70d3abdbd179125953982937af5785b90eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 09/28] fix: peeking backwards must not panic on U+FFFD or
 invalid UTF-8

PeekRunes(-n), hence tracing too, panicked on input containing U+FFFD or bytes
that are not valid UTF-8, which otherwise parses fine.
---
 helpers/helpers.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..c5b7b05 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// Bytes which are not valid UTF-8 count for one rune each.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,10 +143,7 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
+		_, csize := utf8.DecodeLastRuneInString(slice)
 		totalSize += csize // csize is char len in bytes for rune c
 		slice = slice[:len(slice)-csize]
 		nTake--
-- 
2.43.0


From 73f6c46a436ba577498944d90079d5418db973fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 10/28] fix: PeekLines returns nothing for lines before the
 first or after the last

It panicked, or returned nearly the whole text.
---
 codestream_rune.go  | 3 +++
 codestream_token.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..61ddf5b 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+max < 0 || code.Line()+min >= len(code.lineStarts) {
+		return "" // there are no such lines
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..36e6c90 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+max < 0 || code.Line()+min >= len(code.lineStarts) {
+		return "" // there are no such lines
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From 0ccc118117b8a3ed5bc34725091904eec74bd880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 11/28] fix: RuneStream.PeekLines() peeks the current line, as
 documented

---
 codestream_rune.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index 61ddf5b..1eb8035 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -90,9 +90,10 @@ func (code *RuneStream) PeekRunes(n int) string {
 // It is possible to provide 2 or more arguments.
 // In that case, it will peek from the minimum to the maximum of the series.
 // When only 1 value is given, a second value of 0 is implied to create a range.
+// Without any value, peek the current line.
 func (code *RuneStream) PeekLines(n ...int) string {
 	if len(n) <= 0 {
-		return ""
+		n = []int{0} // current line
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
-- 
2.43.0


From 2dc2c86643c386c868e49afb4a2d638b19924995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 12/28] fix: locate positions within the last token

The offset in the last token was computed from the start of the one before,
so lines and columns reported there were wrong.
---
 codestream_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_token.go b/codestream_token.go
index 36e6c90..b74670d 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -310,10 +310,10 @@ func (code *TokenStream) coords(workOffset int) coord {
 	nToken := 0
 	var token Token
 	for {
+		token = code.tokens[nToken]
 		if nToken >= len(code.tokens)-1 {
 			break // don't panic, it can make sense when a token was inserted
 		}
-		token = code.tokens[nToken]
 		if workOffset < token.WorkOffset+len(token.Repr) {
 			break
 		}
-- 
2.43.0


From bb705e410ba8c8c9e435c5d13bba2a03dfdde711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 13/28] fix: report the scan errors of TokenStreamFromGoCode

Only errors of scan.Init were looked at, so those of the scan itself were
ignored, and as they were kept in a global, the next call could panic.
---
 codestream_token.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index b74670d..5222335 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -334,27 +334,18 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
 func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
+	}
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
 	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
-	}
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -394,6 +385,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From cc3b39cd388247db9ac9c7dddf1af4ee79b4a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 14/28] fix: keep go tokens apart when they would merge in the
 tokenized text
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'var α int' became 'var αint', 'a < -b' became 'a<-b', 'a / *p' became 'a/*p':
the tokenized text, which grammars parse, had other tokens than the source.
---
 codestream_token.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/codestream_token.go b/codestream_token.go
index 5222335..5a3862e 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -380,6 +380,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 				s = tokStr
 			}
 		}
+		if prev != "" && !canGlue(prev, s) {
+			s = " " + s // e.g. "α int", "a < -b"
+		}
 		workOffset += len(prev)
 		prev = s
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
@@ -391,6 +394,25 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	return NewTokenStream(source, tokens), nil
 }
 
+// Whether go tokens `a` and `b` are still the same two tokens when written
+// without any space in between.
+func canGlue(a, b string) bool {
+	a = strings.TrimLeft(a, " ")
+	if strings.HasPrefix(b, " ") || strings.HasSuffix(a, "\n") {
+		return true
+	}
+	if a == "." && b == "." {
+		return false // a third one would make it "..."
+	}
+	var scan goscanner.Scanner
+	fset := token.NewFileSet()
+	file := fset.AddFile("", fset.Base(), len(a)+len(b))
+	scan.Init(file, []byte(a+b), nil, goscanner.ScanComments)
+	scan.Scan()
+	pos, _, _ := scan.Scan()
+	return file.Offset(pos) == len(a)
+}
+
 type scannerError struct {
 	pos token.Position
 	msg string
-- 
2.43.0


From 48d58c99ce65f59c429bce8d081fdea477b32ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 15/28] fix: NativeMap.IsEmpty was true for the maps that are
 not empty

---
 native_map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/native_map.go b/native_map.go
index 2517506..84b744c 100644
--- a/native_map.go
+++ b/native_map.go
@@ -76,9 +76,9 @@ func (nm *NativeMap) Keys() []string {
 
 func (nm *NativeMap) IsEmpty() bool {
 	for range nm.vals {
-		return true
+		return false
 	}
-	return false
+	return true
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From 42dd0668471d52bc441474dae41871fa66d839d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 16/28] fix: take into account the label of a parenthesized
 sequence

In x:([a] [b]) [c] the label x was ignored.
---
 parser_sequence.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..3975c8e 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -54,6 +54,10 @@ func (seq *sequence) prepare()                {}
 func (seq *sequence) calculateLabels() []string {
 	a := []string{}
 	for _, child := range seq.sequence {
+		if lbl := child.getRule().label; lbl != "" && lbl != "@" && lbl != "&" {
+			a = append(a, lbl) // also when `child` is a sequence, e.g. lbl:(a b)
+			continue
+		}
 		a = append(a, child.getRule().labels_.Get()...)
 	}
 	return a
-- 
2.43.0


From dda2c68cd621c151985d59ab58f10679d3815c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 17/28] fix: labels within an optional group which is not a
 sequence

(x:[a])? y:[b] panicked, as x's production was merged though it is not a map,
and a rule such as (x:[a] y:[b])? produced a map with a '@' key.
---
 parser_existential.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..b2a119e 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -16,6 +16,10 @@ func newExistential(it Ast) *existential {
 }
 
 func (ex *existential) handlesChildLabel() bool {
+	if ex.label == "" || ex.label == "@" {
+		// labels go through, as in `(x:[a])? y:[b]`: it must produce a map
+		return false
+	}
 	if ex.rule.parent != nil {
 		return ex.rule.parent.handlesChildLabel()
 	} else {
@@ -28,7 +32,7 @@ func (ex *existential) getRule() *rule { return ex.rule }
 func (ex *existential) prepare() {
 	lbls := ex.calculateLabels()
 	ex.labels_.Set(lbls)
-	if len(lbls) > 0 && ex.label == "" {
+	if len(lbls) > 0 && ex.label == "" && ex.parent != nil && ex.parent.handlesChildLabel() {
 		ex.label = "@"
 	}
 	caps := ex.it.getRule().captures_.Get()
-- 
2.43.0


From 2aadb02dbfaccb12da3adf2f17501e183b7cc144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 18/28] fix: do not compile in a time exponential in the
 nesting of the grammar

walkOptimizeAwayMonochoice walked the children of each node twice.
---
 grammar.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 0c31d57..8008e56 100644
--- a/grammar.go
+++ b/grammar.go
@@ -230,7 +230,11 @@ func (gm *Grammar) postinit() {
 						   node below.unaffected
 		*/
 		node.forEachChild(func(child Parser) Parser {
-			if choice, ok := child.(*choice); ok && choice.isMonoChoice() {
+			for {
+				choice, ok := child.(*choice)
+				if !ok || !choice.isMonoChoice() {
+					return Walk(child, node, walkOptimizeAwayMonochoice)
+				}
 				monochoice := choice.choices[0]
 				mono := monochoice.getRule()
 				// Merge label
@@ -243,12 +247,10 @@ func (gm *Grammar) postinit() {
 					mono.rulesK = append(mono.rulesK, k)
 				}
 				// grandchild becomes the child
-				return monochoice
-			} else {
-				return Walk(child, node, walkOptimizeAwayMonochoice)
+				child = monochoice
 			}
 		})
-		return ""
+		return "__stop__" // the children were walked just above
 	}
 	Walk(gm, nil, walkOptimizeAwayMonochoice)
 
-- 
2.43.0


From 356058c57ac43752832bcd85f851f11d0a15806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:00 +0000
Subject: [PATCH 19/28] fix: concatenate the maps contained in a NativeArray

NativeMap.Concat, which works on any tree of Native types, gave the
printed form of the maps found below an array.
---
 native_array.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/native_array.go b/native_array.go
index 020885f..59c63ab 100644
--- a/native_array.go
+++ b/native_array.go
@@ -69,6 +69,8 @@ func (na *NativeArray) Concat() NativeString {
 			b.WriteString(string(v))
 		case *NativeArray:
 			b.WriteString(string(v.Concat()))
+		case *NativeMap:
+			b.WriteString(string(v.Concat()))
 		case NativeUndefined:
 		default:
 			b.WriteString(v.String())
-- 
2.43.0


From 3b087f75790e01b01ee8619e517cb5c2d0845c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 20/28] fix: remember the failure of a left recursive rule

It was evaluated again at each attempt, which takes a time exponential in
the nesting of the input when several rules of a cycle are tried.
---
 packrat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 0680ffe..f35876a 100644
--- a/packrat.go
+++ b/packrat.go
@@ -147,7 +147,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					}
 					frame.loopstage = 0
 					ctx.wipeWith(frame, false) // they were computed with a failing `frame`
-					// cacheSet(frame, nil) // unneeded (already nil)
+					frame.cacheSet(nil, ctx.Code.Pos())
 					return result
 				} else {
 					frame.loopstage = 3
-- 
2.43.0


From 835ddd985deb8dce5fa5d6deb6adfb5d3b0beceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:44 +0000
Subject: [PATCH 21/28] fix: LastNRunesReversed must not stop at U+FFFD or
 invalid UTF-8

---
 helpers/helpers.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index c5b7b05..20507d7 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -153,18 +153,11 @@ func LastNRunes(abc string, nTake int) string {
 
 // take last `nTake` runes from `abc` in reverse order. ("abc", 2) -> "cb"
 func LastNRunesReversed(abc string, nTake int) string {
-	if nTake < 0 {
-		return ""
-	}
-	_, sizeinit := utf8.DecodeLastRuneInString(abc)
 	slice := abc
 	var b strings.Builder
-	for i := len(abc) - sizeinit; i >= len(abc)-sizeinit-nTake+1; i-- {
-		r, size := utf8.DecodeLastRuneInString(slice)
-		if r == utf8.RuneError {
-			break
-		}
-		b.WriteRune(r)
+	for ; nTake > 0 && len(slice) > 0; nTake-- {
+		_, size := utf8.DecodeLastRuneInString(slice)
+		b.WriteString(slice[len(slice)-size:])
 		slice = slice[:len(slice)-size]
 	}
 	return b.String()
-- 
2.43.0


From ad88d06b3934a4082a72eadda6e3c87c0081b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 22/28] fix: keep the callback and options of a line nested in
 another line

---
 line.go        |  1 +
 parseoption.go | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/line.go b/line.go
index 7ab54b4..fc1b44d 100644
--- a/line.go
+++ b/line.go
@@ -159,6 +159,7 @@ func getRule(
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
+		attrs = attrs.around(v.parseOptions)
 		v.parseOptions = attrs
 		answer = v.toRule(rank_, parentRule, oLineNaming{name: name}, opts, lazyGrammar)
 		if answer.getRule().name == "" {
diff --git a/parseoption.go b/parseoption.go
index 626fbbc..3081021 100644
--- a/parseoption.go
+++ b/parseoption.go
@@ -54,3 +54,25 @@ func newParseOptions() *parseOptions {
 		cb:        nil,
 	}
 }
+
+// The options of a line which contains the line having the options `inner`,
+// e.g. `O(Named("A", O("'a'", cbInner)), cbOuter)`: none of them gets lost.
+func (outer *parseOptions) around(inner *parseOptions) *parseOptions {
+	opts := &parseOptions{
+		debug:     outer.debug || inner.debug,
+		skipLog:   outer.skipLog || inner.skipLog,
+		skipCache: outer.skipCache || inner.skipCache,
+		cb:        outer.cb,
+	}
+	if outer.cb == nil {
+		opts.cb = inner.cb
+	} else if inner.cb != nil {
+		opts.cb = func(it Ast, ctx *ParseContext, caller Ast) Ast {
+			if it = inner.cb(it, ctx, caller); it == nil {
+				return nil
+			}
+			return outer.cb(it, ctx, caller)
+		}
+	}
+	return opts
+}
-- 
2.43.0


From 150bb3b4c44027820b7a326e3233b069183a2962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 23/28] fix: keep the callback of a line nested in several
 lines

---
 line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/line.go b/line.go
index fc1b44d..ce35ffa 100644
--- a/line.go
+++ b/line.go
@@ -159,9 +159,9 @@ func getRule(
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
-		attrs = attrs.around(v.parseOptions)
-		v.parseOptions = attrs
+		v.parseOptions = attrs.around(v.parseOptions)
 		answer = v.toRule(rank_, parentRule, oLineNaming{name: name}, opts, lazyGrammar)
+		attrs = answer.getRule().parseOptions // includes those of lines nested deeper
 		if answer.getRule().name == "" {
 			answer.getRule().name = name
 		}
-- 
2.43.0


From 8c74e942d90d908f10cdcff09867ca94e19ed7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 24/28] fix: do not wrap twice the parser of a named line

Named(name, parser) gives a cLine, which is a Parser too, so rule2line
wrapped it into another one. The rule was then not the parser itself: it
was not remembered, could crash, and its lazy attributes were evaluated
while parsing (a data race).
---
 line.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/line.go b/line.go
index ce35ffa..2a84131 100644
--- a/line.go
+++ b/line.go
@@ -110,6 +110,8 @@ func rule2line(x any) Line {
 		return newSLine(v)
 	case sLine:
 		return O(v.Str)
+	case cLine: // is a Parser too, but must not be wrapped again
+		return v
 	case Parser:
 		return newCLine(v)
 	case ALine:
-- 
2.43.0


From ef8f7b2023c195245d465aaf42522f0d65e9d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 25/28] fix: honour Debug and SkipCache given to a line that
 holds other lines

---
 line.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/line.go b/line.go
index 2a84131..fec99c5 100644
--- a/line.go
+++ b/line.go
@@ -155,6 +155,7 @@ func getRule(
 	switch v := line.(type) {
 	case ALine:
 		answer = rankFromLines(v.Array, name, GrammarOptions{TraceOptions: opts, LazyGrammar: lazyGrammar})
+		answer.getRule().parseOptions = attrs
 	case cLine:
 		answer = v.Parser
 		answer.getRule().name = name
-- 
2.43.0


From b50f2dc544807d31ff4030c35ee7c6809d65e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 26/28] fix: do not quote too much in the details of an error

The number of runes to peek was computed from a number of bytes.
---
 grammar.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 8008e56..a667303 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,9 +141,12 @@ func (gm *Grammar) parse(ctx *ParseContext) Ast {
 		sErr += Red("Suspect") + "/"
 		sErr += White("Unknown") + "\n\n"
 		sErr += Green(ctx.Code.PeekLines(-2))
-		sErr += Yellow(ctx.Code.PeekRunes(maxSuccess - ctx.Code.Pos()))
+		// n runes are at least n bytes
+		n := maxSuccess - ctx.Code.Pos()
+		sErr += Yellow(ctx.Code.PeekRunes(n)[:n])
 		ctx.Code.SetPos(maxSuccess)
-		sErr += Red(ctx.Code.PeekRunes(maxAttempt-ctx.Code.Pos())) + "/"
+		n = maxAttempt - maxSuccess
+		sErr += Red(ctx.Code.PeekRunes(n)[:n]) + "/"
 		ctx.Code.SetPos(maxAttempt)
 		sErr += White(ctx.Code.PeekLines(+2)) + "\n"
 		return NewParseError(ctx, sErr)
-- 
2.43.0


From 25b9c44823ae05b6d521eca23d1f8ab9c72f9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 27/28] fix: honour Debug and SkipCache given to a line that
 holds a parser

---
 line.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/line.go b/line.go
index fec99c5..cd2fe86 100644
--- a/line.go
+++ b/line.go
@@ -159,6 +159,7 @@ func getRule(
 	case cLine:
 		answer = v.Parser
 		answer.getRule().name = name
+		answer.getRule().parseOptions = attrs
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
-- 
2.43.0


From fc999818064c0b9df57ff27575f053763893613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 28/28] fix: skipsetup must mute the setup of the grammar of
 grammars, as documented

---
 parser_rank.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_rank.go b/parser_rank.go
index a2267b2..ad9b8b4 100644
--- a/parser_rank.go
+++ b/parser_rank.go
@@ -26,6 +26,9 @@ func rankFromLines(lines []Line, rankname string, options GrammarOptions) *rank
 			// Lazy, so this will only get called if the rules have string rules (SLine)
 			// and optionalLazyGrammar was left empty. getgetRule()'s `case SLine:` is
 			// the only place that needs a grammar.
+			if options.TraceOptions.SkipSetup {
+				return NewJoesonWithOptions(Mute())
+			}
 			return NewJoesonWithOptions(options.TraceOptions)
 		})
 	}
-- 
2.43.0

