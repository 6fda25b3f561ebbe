From afe578db03ff926e144287118ad4608fa939cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 01/19] fix: Exchange panics with index out of range for two or
 more ASTs

---
 base/transformers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index e0085d5..534d3fe 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -152,8 +152,7 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 	if 2 <= length {
 		w := make(AstSlice, 0, length)
 		w = append(w, asts[:length-2]...)
-		w[length-2] = asts[length-1]
-		w[length-1] = asts[length-2]
+		w = append(w, asts[length-1], asts[length-2])
 		return w, nil
 	} else {
 		return asts, nil
-- 
2.43.0


From 3797b7e71de74559c6e964ad092e40e218a030b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/19] fix: object Seq matches although an element differs

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 128ed79..4773af8 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -53,7 +53,7 @@ func Seq(seq ...interface{}) ParserFn {
 			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
 			for i := 0; i < length; i++ {
 				if !w.ItemEquals(w.Get(i), seq[i]) {
-					break
+					return ctx, nil
 				}
 			}
 			ctx.AstStack = append(ctx.AstStack, Ast{
-- 
2.43.0


From cb79b681e4e99173f2493a991efd5105866e9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 03/19] fix: ObjClassN tags an arbitrary value as
 AstType_String

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 4773af8..f1d9977 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -113,7 +113,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
-				Type:           AstType_String,
+				Type:           AstType_Any,
 				Value:          w,
 				SourcePosition: ctx.SourcePosition,
 			})
-- 
2.43.0


From 6543a4a933cae1c7d330824447294789aa258c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 04/19] fix: IntFromRune tags an int64 value as AstType_String

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index e141100..7f06ecb 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -168,7 +168,7 @@ func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_String,
+		Type:           AstType_Int,
 		Value:          int64(asts[0].Value.(rune)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
-- 
2.43.0


From 0f3bd266b8daa2e63aaa83d86cc3e26ecf39dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 05/19] fix: ParseUint panics on an empty string instead of
 returning an error

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index 7f06ecb..333dae2 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -109,7 +109,7 @@ func parseUintImpl(base int, ctx ParserContext, asts AstSlice) (AstSlice, error)
 	}
 	str := asts[0].Value.(string)
 	str2 := str
-	if str2[0] == '+' {
+	if 0 < len(str2) && str2[0] == '+' {
 		str2 = str2[1:]
 	}
 	num, err := strconv.ParseUint(str2, base, 64)
-- 
2.43.0


From 1760efae81c9d8d42473de785c35297c855a216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 06/19] fix: WordBoundary looks past characters whose UTF-8
 lead byte is 0xf1, 0xf2 or 0xf4

---
 extra/extra.go    | 16 ++--------------
 string/parsers.go | 16 ++--------------
 2 files changed, 4 insertions(+), 28 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 4d50ad7..375f42b 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -253,20 +253,8 @@ func UnicodeWordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		// Finds the previous character.
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isUnicodeWord(prevCh) {
diff --git a/string/parsers.go b/string/parsers.go
index bac8378..8761565 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -509,20 +509,8 @@ func WordBoundary() ParserFn {
 			return ctx, nil
 		}
 
-		// Finds the UTF-8 leading byte of the previous character.
-		var prevCh rune
-		var prevChLength int
-		for i := ctx.Position - 1; 0 <= i; i-- {
-			b := ctx.Str[i]
-
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
-			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
-
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
-				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
-				break
-			}
-		}
+		// Finds the previous character.
+		prevCh, prevChLength := utf8.DecodeLastRuneInString(ctx.Str[:ctx.Position])
 
 		if ctx.Position == len(ctx.Str) {
 			if 0 < prevChLength && isWord(prevCh) {
-- 
2.43.0


From 88b445557c564adc895b29c3ec79eb8feb33b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 07/19] fix: BaseParser drops the error returned by the final
 call of the implementation function

---
 base/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index b714567..d6a8ba2 100644
--- a/base/base.go
+++ b/base/base.go
@@ -143,7 +143,7 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			return out, err
 		}
 
 		if rewind {
-- 
2.43.0


From 89d4c87f475d039e0bffb9d537d8c3f46ee42e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 08/19] fix: LookBehind treats a child with MatchStatus_Error
 as unmatched

---
 base/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/parsers.go b/base/parsers.go
index 5cef4de..984bd17 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -135,7 +135,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				continue
 			}
 			out, err := parser(out)
-			if err != nil {
+			if err != nil || out.MatchStatus == MatchStatus_Error {
 				return out, err
 			}
 			if out.MatchStatus == MatchStatus_Matched {
-- 
2.43.0


From a2e7b5c710cc44aa40114b036a1f8ec40b356133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 09/19] fix: Match(n) panics when fewer than n ASTs have been
 parsed

---
 base/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/match.go b/base/match.go
index bdaef15..f0bb343 100644
--- a/base/match.go
+++ b/base/match.go
@@ -17,6 +17,9 @@ func Match(n int) func(cases ...Case) ParserFn {
 	return func(cases ...Case) ParserFn {
 		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 			sp := len(ctx.AstStack) - n
+			if sp < 0 {
+				sp = 0
+			}
 			ctx.Length = 0
 			ctx.MatchStatus = MatchStatus_Unmatched
 
-- 
2.43.0


From 41838f2ec7e52e0582506db22a29743c7bef0363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 10/19] fix: Match overwrites ASTs that are restored when the
 parser backtracks

---
 base/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/match.go b/base/match.go
index f0bb343..01be98c 100644
--- a/base/match.go
+++ b/base/match.go
@@ -35,7 +35,7 @@ func Match(n int) func(cases ...Case) ParserFn {
 							return ctx, err
 						}
 					}
-					ctx.AstStack = append(ctx.AstStack[:sp], asts...)
+					ctx.AstStack = append(ctx.AstStack[:sp:sp], asts...)
 
 					ctx.MatchStatus = MatchStatus_Matched
 					return ctx, nil
-- 
2.43.0


From 66715b948e7fee3f48e2428c2fe83c16389d112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 11/19] fix: Indirect initializes the parser with a data race
 when a parser is shared

---
 base/parsers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 984bd17..d6791bc 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"sync"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -11,10 +12,11 @@ import (
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
 	var parser ParserFn
+	var once sync.Once
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
-		if parser == nil {
+		once.Do(func() {
 			parser = fn()
-		}
+		})
 		return parser(ctx)
 	})
 }
-- 
2.43.0


From 71c00038f60342e69dd64d2032fd7b19dae07bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 12/19] fix: Prepend and Push keep the source position of an
 earlier parse

---
 base/transformers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/transformers.go b/base/transformers.go
index 534d3fe..7e4a020 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -111,6 +111,7 @@ func SetValue(typ AstType, v interface{}) TransformerFn {
 // Prepend a AST to the AST slice.
 func Prepend(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
+		ast := ast
 		if 0 < len(asts) {
 			ast.SourcePosition = asts[0].SourcePosition
 		}
@@ -125,6 +126,7 @@ func Prepend(ast Ast) TransformerFn {
 // Append a AST to the AST slice.
 func Push(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
+		ast := ast
 		if 0 < len(asts) {
 			ast.SourcePosition = asts[len(asts)-1].SourcePosition
 		}
-- 
2.43.0


From 27e4cbafd9c250b03ee7e41d9077090f24e511b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 13/19] fix: Traverse reinterprets Ast.Value without checking
 its dynamic type

---
 base/ast.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/base/ast.go b/base/ast.go
index e56bb9a..37b10ee 100644
--- a/base/ast.go
+++ b/base/ast.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"reflect"
-	"unsafe"
 )
 
 // Ast.Value's type
@@ -166,8 +165,7 @@ func (s Ast) Traverse(
 		switch s.Type {
 		case AstType_AstCons:
 			{
-				// cons := s.Value.(AstCons)
-				cons := *(*AstCons)((*rawInterface2)(unsafe.Pointer(&s.Value)).Ptr)
+				cons := s.Value.(AstCons)
 
 				cons.Car, _, _, thrown, err =
 					cons.Car.Traverse(fnWayThere, fnWayBack, fnChildrenErr, ctx)
@@ -189,8 +187,7 @@ func (s Ast) Traverse(
 
 		case AstType_ListOfAst:
 			if mode == WayThereMode_Last {
-				// orig := s.Value.(AstSlice)
-				orig := *(*AstSlice)((*rawInterface2)(unsafe.Pointer(&s.Value)).Ptr)
+				orig := s.Value.(AstSlice)
 				origLen := len(orig)
 				sliceLen := origLen
 				if sliceLen != 0 {
@@ -222,8 +219,7 @@ func (s Ast) Traverse(
 				}
 				s.Value = slice
 			} else {
-				// orig := s.Value.(AstSlice)
-				orig := *(*AstSlice)((*rawInterface2)(unsafe.Pointer(&s.Value)).Ptr)
+				orig := s.Value.(AstSlice)
 				origLen := len(orig)
 				slice := make(AstSlice, origLen, origLen)
 
-- 
2.43.0


From 6029a91932cf20d501a3d0112fd5834cdac38fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 14/19] fix: tokens carry the length of the previous token in
 Ast.SourcePosition

---
 base/parsers.go   |  2 +-
 object/parsers.go | 10 +++++-----
 string/parsers.go | 34 +++++++++++++++++-----------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index d6791bc..a913369 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -54,12 +54,12 @@ func Unmatched() ParserFn {
 func Zero(astsToInsert ...Ast) ParserFn {
 	const ClassName = clsz.Zero
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
+		ctx.Length = 0
 		savedLen := len(ctx.AstStack)
 		ctx.AstStack = append(ctx.AstStack, astsToInsert...)
 		for i := 0; i < len(astsToInsert); i++ {
 			ctx.AstStack[savedLen+i].SourcePosition = ctx.SourcePosition
 		}
-		ctx.Length = 0
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
diff --git a/object/parsers.go b/object/parsers.go
index f1d9977..49c5db3 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -13,6 +13,7 @@ func Any() ParserFn {
 
 		if ctx.Position+1 <= ctx.Slice.Len() {
 			w := ctx.Slice.Get(ctx.Position)
+			ctx.Length = 1
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_Any,
@@ -20,7 +21,6 @@ func Any() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += 1
-			ctx.Length = 1
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -56,6 +56,7 @@ func Seq(seq ...interface{}) ParserFn {
 					return ctx, nil
 				}
 			}
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_ListOfAny,
@@ -63,7 +64,6 @@ func Seq(seq ...interface{}) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -80,6 +80,7 @@ func ObjClass(oc ...interface{}) ParserFn {
 			w := ctx.Slice.Get(ctx.Position)
 			for _, s := range oc {
 				if ctx.Slice.ItemEquals(w, s) {
+					ctx.Length = 1
 					ctx.AstStack = append(ctx.AstStack, Ast{
 						ClassName:      ClassName,
 						Type:           AstType_Any,
@@ -87,7 +88,6 @@ func ObjClass(oc ...interface{}) ParserFn {
 						SourcePosition: ctx.SourcePosition,
 					})
 					ctx.Position += 1
-					ctx.Length = 1
 					ctx.MatchStatus = MatchStatus_Matched
 					break
 				}
@@ -111,6 +111,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				}
 			}
 
+			ctx.Length = 1
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_Any,
@@ -118,7 +119,6 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += 1
-			ctx.Length = 1
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 
@@ -135,6 +135,7 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 		if ctx.Position+1 <= ctx.Slice.Len() {
 			w := ctx.Slice.Get(ctx.Position)
 			if fn(w) {
+				ctx.Length = 1
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_Any,
@@ -142,7 +143,6 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += 1
-				ctx.Length = 1
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
diff --git a/string/parsers.go b/string/parsers.go
index 8761565..d669602 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -20,6 +20,7 @@ func Any() ParserFn {
 		}
 		s := string(ch)
 
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -27,7 +28,6 @@ func Any() ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 
 		return ctx, nil
@@ -59,6 +59,7 @@ func Seq(s string) ParserFn {
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
 			if w == s {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -66,7 +67,6 @@ func Seq(s string) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
@@ -84,6 +84,7 @@ func SeqI(s string) ParserFn {
 		if ctx.Position+length <= len(ctx.Str) {
 			w := ctx.Str[ctx.Position : ctx.Position+length]
 			if strings.EqualFold(w, s) {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -91,7 +92,6 @@ func SeqI(s string) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 			}
 		}
@@ -113,6 +113,7 @@ func CharRange(cr ...RuneRange) ParserFn {
 
 		for _, rr := range cr {
 			if rr.Start <= ch && ch <= rr.End {
+				ctx.Length = length
 				ctx.AstStack = append(ctx.AstStack, Ast{
 					ClassName:      ClassName,
 					Type:           AstType_String,
@@ -120,7 +121,6 @@ func CharRange(cr ...RuneRange) ParserFn {
 					SourcePosition: ctx.SourcePosition,
 				})
 				ctx.Position += length
-				ctx.Length = length
 				ctx.MatchStatus = MatchStatus_Matched
 				break
 			}
@@ -146,6 +146,7 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 				return ctx, nil
 			}
 		}
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -153,7 +154,6 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
@@ -170,6 +170,7 @@ func CharClass(cc ...string) ParserFn {
 			if ctx.Position+length <= len(ctx.Str) {
 				w := ctx.Str[ctx.Position : ctx.Position+length]
 				if w == s {
+					ctx.Length = length
 					ctx.AstStack = append(ctx.AstStack, Ast{
 						ClassName:      ClassName,
 						Type:           AstType_String,
@@ -177,7 +178,6 @@ func CharClass(cc ...string) ParserFn {
 						SourcePosition: ctx.SourcePosition,
 					})
 					ctx.Position += length
-					ctx.Length = length
 					ctx.MatchStatus = MatchStatus_Matched
 					break
 				}
@@ -209,6 +209,7 @@ func CharClassN(cc ...string) ParserFn {
 		}
 		s := string(ch)
 
+		ctx.Length = length
 		ctx.AstStack = append(ctx.AstStack, Ast{
 			ClassName:      ClassName,
 			Type:           AstType_String,
@@ -216,7 +217,6 @@ func CharClassN(cc ...string) ParserFn {
 			SourcePosition: ctx.SourcePosition,
 		})
 		ctx.Position += length
-		ctx.Length = length
 		ctx.MatchStatus = MatchStatus_Matched
 
 		return ctx, nil
@@ -236,6 +236,7 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 		s := string(ch)
 
 		if fn(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -243,7 +244,6 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -263,6 +263,7 @@ func Whitespace() ParserFn {
 		s := string(ch)
 
 		if isWhitespace(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -270,7 +271,6 @@ func Whitespace() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -290,6 +290,7 @@ func WhitespaceNoLineBreak() ParserFn {
 		s := string(ch)
 
 		if isWhitespaceNoLineBreak(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -297,7 +298,6 @@ func WhitespaceNoLineBreak() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -317,6 +317,7 @@ func LineBreak() ParserFn {
 		s := string(ch)
 
 		if isLineBreak(ch) {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -324,7 +325,6 @@ func LineBreak() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -344,6 +344,7 @@ func Alpha() ParserFn {
 		s := string(ch)
 
 		if 'A' <= ch && ch <= 'Z' || 'a' <= ch && ch <= 'z' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -351,7 +352,6 @@ func Alpha() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -371,6 +371,7 @@ func Number() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '9' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -378,7 +379,6 @@ func Number() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -398,6 +398,7 @@ func Alnum() ParserFn {
 		s := string(ch)
 
 		if 'A' <= ch && ch <= 'Z' || 'a' <= ch && ch <= 'z' || '0' <= ch && ch <= '9' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -405,7 +406,6 @@ func Alnum() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -425,6 +425,7 @@ func BinNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '1' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -432,7 +433,6 @@ func BinNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -452,6 +452,7 @@ func OctNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '7' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -459,7 +460,6 @@ func OctNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
@@ -479,6 +479,7 @@ func HexNumber() ParserFn {
 		s := string(ch)
 
 		if '0' <= ch && ch <= '9' || 'A' <= ch && ch <= 'F' || 'a' <= ch && ch <= 'f' {
+			ctx.Length = length
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
 				Type:           AstType_String,
@@ -486,7 +487,6 @@ func HexNumber() ParserFn {
 				SourcePosition: ctx.SourcePosition,
 			})
 			ctx.Position += length
-			ctx.Length = length
 			ctx.MatchStatus = MatchStatus_Matched
 		}
 		return ctx, nil
-- 
2.43.0


From 80469eacace0992950fd4164676b3be41690a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 15/19] fix: Roll returns the ASTs unchanged instead of
 rotating them

---
 base/transformers.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 7e4a020..7bd65a8 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -176,19 +176,16 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 func Roll(n int) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
 		length := len(asts)
-		if 0 <= n {
-			if n < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
-		} else {
-			m := -n
-			if m < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
+		if length == 0 {
+			return asts, nil
 		}
+		m := n % length
+		if m < 0 {
+			m += length
+		}
+		w := make(AstSlice, 0, length)
+		w = append(w, asts[m:]...)
+		w = append(w, asts[:m]...)
+		return w, nil
 	}
 }
-- 
2.43.0


From bc2756537de47c629c54b480c89f4cb0f376daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 16/19] fix: UnicodeWordBoundary does not treat '$' as a word
 character

---
 extra/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/util.go b/extra/util.go
index 44fedc3..1d59949 100644
--- a/extra/util.go
+++ b/extra/util.go
@@ -6,7 +6,7 @@ import "unicode"
 func isUnicodeWord(r rune) bool {
 	// ID_Continue + '$' + U+200C + U+200D
 	// Alnum(), '_', '$', and ...
-	return (unicode.Is(unicode.L, r) ||
+	return r == '$' || (unicode.Is(unicode.L, r) ||
 		unicode.Is(unicode.Nl, r) ||
 		unicode.Is(unicode.Other_ID_Start, r) ||
 		unicode.Is(unicode.Mn, r) ||
@@ -14,7 +14,7 @@ func isUnicodeWord(r rune) bool {
 		unicode.Is(unicode.Nd, r) ||
 		unicode.Is(unicode.Pc, r) ||
 		unicode.Is(unicode.Other_ID_Continue, r) ||
-		r == '$' || r == 0x0200c || r == 0x0200d) &&
+		r == 0x0200c || r == 0x0200d) &&
 		!unicode.Is(unicode.Pattern_Syntax, r) &&
 		!unicode.Is(unicode.Pattern_White_Space, r)
 }
-- 
2.43.0


From 5894ca092d9b0aed7044e884c37e102322339a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 17/19] fix: FloatNumberStr and NumericStr accept a dot without
 any digit

---
 extra/extra.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 375f42b..309eca1 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -126,7 +126,8 @@ func FloatNumberStr() ParserFn {
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."), ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(), ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
@@ -169,7 +170,8 @@ func NumericStr() ParserFn {
 					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."), ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(), ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 				),
 			),
 			ZeroOrOnce(exponentStr()),
-- 
2.43.0


From cc2339354c499a071a1e5af8755b6c33cb9f5624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 18/19] fix: ProductionRule swallows errors of the acceptance
 check and error statuses

---
 base/production.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/base/production.go b/base/production.go
index d21ad39..42bb6a4 100644
--- a/base/production.go
+++ b/base/production.go
@@ -44,6 +44,9 @@ func ProductionRule(precedences []Precedence, check ParserFn) TransformerFn {
 						}
 
 						out, err := rule(curCtx)
+						if err == nil && out.MatchStatus == MatchStatus_Error {
+							err = errors.New("Production rule reported an error.")
+						}
 						if err != nil {
 							return nil, err
 						}
@@ -63,7 +66,14 @@ func ProductionRule(precedences []Precedence, check ParserFn) TransformerFn {
 				}
 			}
 
-			if out, err := check(*newContext(asts, ctx.Tag)); err == nil && out.MatchStatus == MatchStatus_Matched {
+			out, err := check(*newContext(asts, ctx.Tag))
+			if err == nil && out.MatchStatus == MatchStatus_Error {
+				err = errors.New("Production check reported an error.")
+			}
+			if err != nil {
+				return nil, err
+			}
+			if out.MatchStatus == MatchStatus_Matched {
 				break
 			}
 
-- 
2.43.0


From 24b33ff3fd77bd119a70ad05d71e9455fd6e514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:50 +0000
Subject: [PATCH 19/19] fix: Trans and Group no longer panic when their parser
 consumed older ASTs

---
 base/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/base.go b/base/base.go
index d6a8ba2..d600448 100644
--- a/base/base.go
+++ b/base/base.go
@@ -151,7 +151,12 @@ func BaseParser(
 		}
 
 		if tr != nil {
-			var asts []Ast = out.AstStack[len(ctx.AstStack):]
+			// Child parsers may consume ASTs that were on the stack before. (see Match())
+			bottom := len(ctx.AstStack)
+			if len(out.AstStack) < bottom {
+				bottom = len(out.AstStack)
+			}
+			var asts []Ast = out.AstStack[bottom:]
 			for _, transform := range tr {
 				asts, err = transform(ctx, asts)
 				if err != nil {
@@ -159,7 +164,7 @@ func BaseParser(
 					return out, err
 				}
 			}
-			out.AstStack = append(out.AstStack[:len(ctx.AstStack)], asts...)
+			out.AstStack = append(out.AstStack[:bottom], asts...)
 		}
 
 		return out, nil
-- 
2.43.0

