From a0f2bf9e214cd72513b2c1efd1d3506f3022f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 01/37] fix: report lexer and parser syntax errors from Parse

The listener given to the parser was checked before parsing started and the
one given to the lexer was thrown away, so Parse compiled malformed input
(or panicked on the partial parse tree) instead of returning an error.
---
 parser.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index a95c699..85c1172 100644
--- a/parser.go
+++ b/parser.go
@@ -62,15 +62,14 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 // as string literals (i.e. quoted.)
 
 func Parse(input string) (Path, error) {
-	pr := getParser(input)
-	pr.RemoveErrorListeners()
 	errListener := errorListener{}
-	pr.AddErrorListener(&errListener)
-	if errListener.err != nil {
-		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
-	}
+	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
-		p, err := astSimplePath(pr.SimplePath().(*parser.SimplePathContext).SimplePathExpr())
+		c := pr.SimplePath()
+		if errListener.err != nil {
+			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+		}
+		p, err := astSimplePath(c.(*parser.SimplePathContext).SimplePathExpr())
 		if err != nil {
 			return p, err
 		}
@@ -78,19 +77,24 @@ func Parse(input string) (Path, error) {
 	}
 
 	c := pr.Path()
+	if errListener.err != nil {
+		return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
+	}
 	// Build a matcher from AST
 	return astPath(c.Expression())
 }
 
-// GetParser returns a parser that will parse the input string
-func getParser(input string) *parser.JsonpathParser {
+// GetParser returns a parser that will parse the input string. The
+// lexer and the parser report syntax errors to errListener
+func getParser(input string, errListener *errorListener) *parser.JsonpathParser {
 	lexer := parser.NewJsonpathLexer(antlr.NewInputStream(input))
 	lexer.RemoveErrorListeners()
-	errListener := errorListener{}
-	lexer.AddErrorListener(&errListener)
+	lexer.AddErrorListener(errListener)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewJsonpathParser(stream)
 	p.BuildParseTrees = true
+	p.RemoveErrorListeners()
+	p.AddErrorListener(errListener)
 	return p
 }
 
-- 
2.43.0


From 072b73759d0c1929c896cf1abf2617a58b848720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 02/37] fix: do not match value nodes twice in recursive
 descent

descend evaluated the rest of the path for a child and then again from
inside the child when it was a value, so $..key returned scalars twice and
$..* matched a scalar root itself.
---
 path.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/path.go b/path.go
index 9033815..32a8d07 100644
--- a/path.go
+++ b/path.go
@@ -183,9 +183,6 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 		node := ctx.path.Last().Node
 		switch ctx.doc.Type(node) {
 		case ValueNode:
-			if err := evaluateAt(ctx, path, pathIx+1, capture); err != nil {
-				return err
-			}
 		case ObjectNode:
 			for _, key := range ctx.doc.Keys(node) {
 				value, _ := ctx.doc.Key(node, key)
-- 
2.43.0


From 0be0ba5e6838c5641776dcf4818fd706d2312f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 03/37] fix: keep one recursive flag per selector for paths
 ending with ..

"$.." added a wildcard selector without its flag, and evaluating the path
panicked with index out of range.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 85c1172..2d0f2e2 100644
--- a/parser.go
+++ b/parser.go
@@ -135,7 +135,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 			return
 		}
 		path.selectors = append(path.selectors, wildcardSelector{})
-		path.recursive = append(path.recursive[:len(path.recursive)-1], true)
+		path.recursive = append(path.recursive[:len(path.recursive)-1], true, false)
 		return
 
 	case *parser.RecursiveDescentExpressionContext:
-- 
2.43.0


From 7f3c8a88f32782b625334ca461deed6def79ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 04/37] fix: apply ..[a:b] to the start node of the descent too

"$..[0:2]" is parsed as "$.." followed by a member index, which was compiled
as "$..*[0:2]" and missed the elements of the starting array.
---
 parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 2d0f2e2..eebf391 100644
--- a/parser.go
+++ b/parser.go
@@ -155,7 +155,14 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 
 	case *parser.MemberIndexExpressionContext:
 		var left, right Path
-		if left, err = astPath(expr.Expression()); err != nil {
+		base := expr.Expression()
+		// The grammar is ambiguous for ..[a:b]: it is parsed as a
+		// recursive descent term followed by a member index
+		term, recursive := base.(*parser.RecursiveDescentTermExpressionContext)
+		if recursive {
+			base = term.Expression()
+		}
+		if left, err = astPath(base); err != nil {
 			return
 		}
 		indexExprs := expr.AllIndexExpression()
@@ -164,7 +171,7 @@ func astPath(ctx parser.IExpressionContext) (path Path, err error) {
 		}
 		// Combine paths
 		path.selectors = append(left.selectors, right.selectors...)
-		path.recursive = append(left.recursive[:len(left.recursive)-1], false)
+		path.recursive = append(left.recursive[:len(left.recursive)-1], recursive)
 		path.recursive = append(path.recursive, right.recursive...)
 		return
 
-- 
2.43.0


From fceae5d8521f017e7eaf7183a86049ffa334bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 05/37] fix: keep the start of a slice with an empty step

"$[1:3:]" started from 0.
---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index eebf391..3842ee5 100644
--- a/parser.go
+++ b/parser.go
@@ -348,7 +348,7 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 	}
 	if expressions[2] == nil {
 		return &rangeSelector{
-			start: exprValue{value: 0},
+			start: expressions[0],
 			end:   expressions[1],
 		}, nil
 	}
-- 
2.43.0


From 02714e97c479f91cb53cb2d3d87d603ef8178093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 06/37] fix: use the text of unquoted literals as keys in
 simple paths

"/null" looked up "<nil>" and "/007" looked up "7".
---
 simplepath.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simplepath.go b/simplepath.go
index 312a806..4376fd7 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -8,8 +8,8 @@ import (
 
 func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 	if lit := ctx.Literal(); lit != nil {
-		v := astLiteral(lit.(*parser.LiteralContext))
 		if lit.StringLiteral() != nil {
+			v := astLiteral(lit.(*parser.LiteralContext))
 			path.selectors = []selector{
 				&keySelector{
 					key: v.value.(string),
@@ -20,7 +20,7 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key: v.String(),
+				key: lit.GetText(),
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From 539e6b869c7792e2d441c8f780eb3efc3402b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 07/37] fix: evaluate $ in filters from the document root

$ compared the current node with the root using ==. That panics if both are
maps or slices, and a path starting with $ in a filter was evaluated from
the current node instead of the root.
---
 expression.go |  6 ++++++
 path.go       | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/expression.go b/expression.go
index b874fcd..e8c7cb7 100644
--- a/expression.go
+++ b/expression.go
@@ -249,6 +249,12 @@ type pathExpression struct {
 
 func (expr pathExpression) evaluate(ctx *context) (exprValue, error) {
 	result := make([]any, 0)
+	if len(expr.path.selectors) > 0 {
+		if _, ok := expr.path.selectors[0].(rootElementSelector); ok {
+			// The path is absolute, current node is irrelevant
+			ctx = newRootContext(ctx.doc)
+		}
+	}
 	err := evaluateAt(ctx, expr.path, 0, func(item DocPath) {
 		result = append(result, item.Last().Node)
 	})
diff --git a/path.go b/path.go
index 32a8d07..d9cad96 100644
--- a/path.go
+++ b/path.go
@@ -98,6 +98,11 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	if len(path.selectors) == 0 {
 		return nil
 	}
+	return evaluateAt(newRootContext(doc), path, 0, capture)
+}
+
+// Returns a new context whose current node is the document root
+func newRootContext(doc DocModel) *context {
 	ctx := &context{
 		doc: doc,
 		path: DocPath{
@@ -109,7 +114,7 @@ func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	}
 	el.Type = doc.Type(el.Node)
 	ctx.path.P = append(ctx.path.P, el)
-	return evaluateAt(ctx, path, 0, capture)
+	return ctx
 }
 
 func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) error {
@@ -218,10 +223,7 @@ func evaluateAt(ctx *context, path Path, pathIx int, capture func(DocPath)) erro
 type rootElementSelector struct{}
 
 func (rootElementSelector) match(ctx *context) bool {
-	if ctx.path.Len() == 1 {
-		return true
-	}
-	return ctx.path.Last().Node == ctx.doc.Root()
+	return ctx.path.Len() == 1
 }
 
 func (rootElementSelector) selectChildNodes(*context) (children iterator, canSelect bool) {
-- 
2.43.0


From 2b54f68f3fd07e02ffe6a76c0f1f96fd8bcf6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 08/37] fix: report missing keys in MapModel.Key

$.missing selected a nil value that is not in the document.
---
 docmodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docmodel.go b/docmodel.go
index 8776056..7155418 100644
--- a/docmodel.go
+++ b/docmodel.go
@@ -62,7 +62,8 @@ func (MapModel) Key(in any, key string) (any, bool) {
 	if !ok {
 		return nil, false
 	}
-	return obj[key], true
+	value, ok := obj[key]
+	return value, ok
 }
 
 func (MapModel) Keys(in any) []string {
-- 
2.43.0


From 9fd9f0a863e21c01604e48f62b85447968918e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 09/37] fix: filter path that selects nothing is false

$[?(@.key)] selected the nodes that do not have the key.
---
 expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression.go b/expression.go
index e8c7cb7..a32d930 100644
--- a/expression.go
+++ b/expression.go
@@ -86,6 +86,9 @@ func (c exprValue) String() string {
 }
 
 func (c exprValue) asBool() bool {
+	if nodes, ok := c.value.([]any); ok {
+		return len(nodes) != 0
+	}
 	value := c.getValue()
 	if b, ok := value.(bool); ok {
 		return b
-- 
2.43.0


From ddb2dfc353d23bd8965f0db5d69dcdb594fa1ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 10/37] fix: negative index before the first element selects
 nothing

$[-5] selected the first element of an array with fewer than 5 elements.
---
 slice.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/slice.go b/slice.go
index f9d2d23..27f2cc6 100644
--- a/slice.go
+++ b/slice.go
@@ -29,8 +29,17 @@ func normalizeIndex(index any, len int) int {
 	if i >= 0 {
 		return i
 	}
-	if -len <= i {
-		return i + len
+	// This is still negative if the index is before the first element
+	return i + len
+}
+
+// Same as normalizeIndex, but a bound before the first element is 0
+func normalizeBound(bound any, len int) int {
+	if _, ok := valueAsInt(bound); !ok {
+		return -1
+	}
+	if i := normalizeIndex(bound, len); i > 0 {
+		return i
 	}
 	return 0
 }
@@ -93,7 +102,7 @@ func getRange(ctx *context, start, end expression, len int) (from, to int) {
 	var s int
 	if start != nil {
 		ivalue, _ := start.evaluate(ctx)
-		s = normalizeIndex(ivalue.value, len)
+		s = normalizeBound(ivalue.value, len)
 	}
 	if s < 0 {
 		return -1, -1
@@ -101,7 +110,7 @@ func getRange(ctx *context, start, end expression, len int) (from, to int) {
 	var e int
 	if end != nil {
 		ivalue, _ := end.evaluate(ctx)
-		e = normalizeIndex(ivalue.value, len)
+		e = normalizeBound(ivalue.value, len)
 	} else {
 		e = len
 	}
-- 
2.43.0


From d23ffbd7e24d2c13b4b9eb72a3293fb9ebb21061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 11/37] fix: normalize negative index with the length of the
 array

indexSelector.match used the length of the element, and did not use the
normalized index.
---
 slice.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slice.go b/slice.go
index 27f2cc6..60d8e80 100644
--- a/slice.go
+++ b/slice.go
@@ -57,8 +57,8 @@ func (sel *indexSelector) match(ctx *context) bool {
 		return false
 	}
 	if index < 0 {
-		n := ctx.doc.Len(ctx.path.Last().Node)
-		index := normalizeIndex(index, n)
+		n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+		index = normalizeIndex(index, n)
 		if index < 0 {
 			return false
 		}
-- 
2.43.0


From 3ef465be6c55e5eb2e64de526adefd4bc47d93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 12/37] fix: do not overflow the index when iterating with a
 large step

$[1:3:9223372036854775807] wrapped around and panicked with index out of
range.
---
 itr.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/itr.go b/itr.go
index aecccef..2da2324 100644
--- a/itr.go
+++ b/itr.go
@@ -51,14 +51,16 @@ func (s *rangeIterator) next() bool {
 		return true
 
 	case 1: // iterating
-		s.at += s.step
 		if s.step > 0 {
-			if s.at >= s.to {
+			// Compare with the remaining distance, at+step may overflow
+			if s.step >= s.to-s.at {
 				s.state = 2
 				return false
 			}
+			s.at += s.step
 			return true
 		}
+		s.at += s.step
 		if s.at <= s.to {
 			s.state = 2
 			return false
-- 
2.43.0


From 5cc2be60b66957289c29756166bd8da683f0cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 13/37] fix: slices with a negative step select the elements
 backwards

sliceSelector.match rejected every index of a slice with a negative step,
so such slices never selected anything. Compute the bounds in one place for
match and selectChildNodes, with the defaults and the clamping that depend
on the direction.
---
 slice.go | 138 ++++++++++++++++++++++++-------------------------------
 1 file changed, 60 insertions(+), 78 deletions(-)

diff --git a/slice.go b/slice.go
index 60d8e80..2007b87 100644
--- a/slice.go
+++ b/slice.go
@@ -159,109 +159,91 @@ type sliceSelector struct {
 	step  expression
 }
 
-func (sel *sliceSelector) match(ctx *context) bool {
-	if !isArrayElement(ctx.path) {
-		return false
-	}
-	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return false
-	}
-	index := ctx.path.Last().Index
-	if index < start || index >= end {
-		return false
-	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
-	}
+// bounds returns the first index of the slice, the index where it ends
+// (not included, -1 if a descending slice goes down to the first
+// element), and the step. It returns false if the slice is empty
+func (sel *sliceSelector) bounds(ctx *context, n int) (from, to, step int, ok bool) {
+	step = 1
 	if sel.step != nil {
 		ivalue, err := sel.step.evaluate(ctx)
 		if err != nil {
-			return false
+			return 0, 0, 0, false
 		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return false
+		if step, ok = valueAsInt(ivalue.value); !ok {
+			return 0, 0, 0, false
 		}
 	}
 	if step == 0 {
-		return false
-	}
-	if start < end {
-		if step < 0 {
-			return false
-		}
-		return (index-start)%step == 0
-	}
-	if step > 0 {
-		return false
-	}
-	return (start-index)%(-step) == 0
-}
-
-func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
-	if !isArray(ctx.path) {
-		return emptyIterator{}, true
-	}
-	n := ctx.doc.Len(ctx.path.Last().Node)
-	start, end := getRange(ctx, sel.start, sel.end, n)
-	if start < 0 {
-		return emptyIterator{}, true
+		return 0, 0, 0, false
 	}
-	var step int
-	if start < end {
-		step = 1
-	} else {
-		step = -1
+	low, high := 0, n
+	if step < 0 {
+		low, high = -1, n-1
 	}
-	if sel.step != nil {
-		ivalue, err := sel.step.evaluate(ctx)
+	bound := func(expr expression) (int, bool) {
+		ivalue, err := expr.evaluate(ctx)
 		if err != nil {
-			return nil, false
+			return 0, false
 		}
-		var ok bool
-		step, ok = valueAsInt(ivalue.value)
-		if !ok {
-			return nil, false
+		if _, ok := valueAsInt(ivalue.value); !ok {
+			return 0, false
 		}
+		i := normalizeIndex(ivalue.value, n)
+		if i < low {
+			return low, true
+		}
+		if i > high {
+			return high, true
+		}
+		return i, true
 	}
-	if step == 0 {
-		return emptyIterator{}, true
+	from, to = low, high
+	if step < 0 {
+		from, to = high, low
 	}
-	if start < end {
-		if step < 0 {
-			return emptyIterator{}, true
+	if sel.start != nil {
+		if from, ok = bound(sel.start); !ok {
+			return 0, 0, 0, false
 		}
-
-		if end > n {
-			end = n
+	}
+	if sel.end != nil {
+		if to, ok = bound(sel.end); !ok {
+			return 0, 0, 0, false
 		}
-		return &rangeIterator{
-			doc:   ctx.doc,
-			node:  ctx.path.Last().Node,
-			from:  start,
-			to:    end,
-			step:  step,
-			state: 0,
-		}, true
 	}
+	return from, to, step, true
+}
+
+func (sel *sliceSelector) match(ctx *context) bool {
+	if !isArrayElement(ctx.path) {
+		return false
+	}
+	n := ctx.doc.Len(ctx.path.P[len(ctx.path.P)-2].Node)
+	from, to, step, ok := sel.bounds(ctx, n)
+	if !ok {
+		return false
+	}
+	index := ctx.path.Last().Index
 	if step > 0 {
+		return index >= from && index < to && (index-from)%step == 0
+	}
+	return index <= from && index > to && (index-from)%step == 0
+}
+
+func (sel *sliceSelector) selectChildNodes(ctx *context) (children iterator, canSelect bool) {
+	if !isArray(ctx.path) {
 		return emptyIterator{}, true
 	}
-	if start >= n {
+	n := ctx.doc.Len(ctx.path.Last().Node)
+	from, to, step, ok := sel.bounds(ctx, n)
+	if !ok {
 		return emptyIterator{}, true
 	}
-
 	return &rangeIterator{
 		doc:   ctx.doc,
 		node:  ctx.path.Last().Node,
-		from:  start,
-		to:    end,
+		from:  from,
+		to:    to,
 		step:  step,
 		state: 0,
 	}, true
-- 
2.43.0


From a3d530a2f8bc0a60f3f0075c7239a5afa9f63fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 14/37] fix: unary minus of a non-constant expression

The number was looked up in the exprValue instead of its value, so -@.key
was always null.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index a32d930..7fdb8ed 100644
--- a/expression.go
+++ b/expression.go
@@ -122,7 +122,7 @@ func (u unaryMinusExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	num := valueAsNumber(c)
+	num := valueAsNumber(c.value)
 	if num == nil {
 		return exprValue{}, nil
 	}
-- 
2.43.0


From 1740a8b2b8d7efb6afb946e94a3e8c57f77edd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 15/37] fix: false is convertible to number

valueAsNumber converted true to 1, but false was not convertible.
---
 expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 7fdb8ed..6b5c489 100644
--- a/expression.go
+++ b/expression.go
@@ -44,8 +44,11 @@ func valueAsNumber(value any) any {
 		return f
 	}
 	b, ok := value.(bool)
-	if ok && b {
-		return 1
+	if ok {
+		if b {
+			return 1
+		}
+		return 0
 	}
 	s, ok := value.(string)
 	if ok {
-- 
2.43.0


From 218435d9e5ebdaf26931f786cdf915370e73c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 16/37] fix: do not truncate floats in int == float comparison

1 == 1.5 was true, and 1.5 == 1 was false.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 6b5c489..0d3339f 100644
--- a/expression.go
+++ b/expression.go
@@ -184,7 +184,7 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 			return exprValue{value: i == j}, nil
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: i == int(f)}, nil
+			return exprValue{value: float64(i) == f}, nil
 		}
 		return exprValue{value: false}, nil
 	}
-- 
2.43.0


From 2c951d1705ad7299562f18152b48ee7dcb0e7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 17/37] fix: do not truncate floats in relational expressions

The right operand was truncated when the left one is an int: 1 < 1.5 was
false, and 1 >= 1.5 was true.
---
 expression.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index 0d3339f..fa1b84c 100644
--- a/expression.go
+++ b/expression.go
@@ -344,10 +344,21 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	}
 
 	if i, ok := lvalue.(int); ok {
-		j, ok := valueAsInt(rvalue)
-		if !ok {
+		n := valueAsNumber(rvalue)
+		if n == nil {
 			return 0, false, nil
 		}
+		j, ok := n.(int)
+		if !ok {
+			f := n.(float64)
+			if float64(i) < f {
+				return -1, true, nil
+			}
+			if float64(i) > f {
+				return 1, true, nil
+			}
+			return 0, true, nil
+		}
 		if i < j {
 			return -1, true, nil
 		}
-- 
2.43.0


From 9dcee67be6753c65ed76907e13182de7f4138a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 18/37] fix: null is equal to null

@.key == null never selected anything, although compareExpr treats two
nulls as equal.
---
 expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expression.go b/expression.go
index fa1b84c..0bf500b 100644
--- a/expression.go
+++ b/expression.go
@@ -178,6 +178,9 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
@@ -225,6 +228,9 @@ func (expr equality3Expression) evaluate(ctx *context) (exprValue, error) {
 	}
 	leftValue := left.getValue()
 	rightValue := right.getValue()
+	if leftValue == nil && rightValue == nil {
+		return exprValue{value: true}, nil
+	}
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
 			return exprValue{value: i == j}, nil
-- 
2.43.0


From 83e4c0b6ca9596547c5d332d7ab0fa90b9a962a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:37 +0000
Subject: [PATCH 19/37] fix: compare values in the in operator

The left operand was compared as an exprValue, which is never equal to a
value, so "in" was always false. An array in the document is now searched
as well.
---
 expression.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/expression.go b/expression.go
index 0bf500b..e0bc022 100644
--- a/expression.go
+++ b/expression.go
@@ -176,40 +176,44 @@ func (expr equalityExpression) evaluate(ctx *context) (exprValue, error) {
 	if err != nil {
 		return exprValue{}, err
 	}
-	leftValue := left.getValue()
-	rightValue := right.getValue()
+	return exprValue{value: valuesEqual(left.getValue(), right.getValue())}, nil
+}
+
+// Returns if two values are equal. A number is not equal to its string
+// representation
+func valuesEqual(leftValue, rightValue any) bool {
 	if leftValue == nil && rightValue == nil {
-		return exprValue{value: true}, nil
+		return true
 	}
 
 	if i, ok := leftValue.(int); ok {
 		if j, ok := rightValue.(int); ok {
-			return exprValue{value: i == j}, nil
+			return i == j
 		}
 		if f, ok := rightValue.(float64); ok {
-			return exprValue{value: float64(i) == f}, nil
+			return float64(i) == f
 		}
-		return exprValue{value: false}, nil
+		return false
 	}
 	if i, ok := leftValue.(float64); ok {
 		if j, ok := rightValue.(float64); ok {
-			return exprValue{value: i == j}, nil
+			return i == j
 		}
 		if j, ok := rightValue.(int); ok {
-			return exprValue{value: i == float64(j)}, nil
+			return i == float64(j)
 		}
 	}
 	if l, ok := leftValue.(string); ok {
 		if r, ok := rightValue.(string); ok {
-			return exprValue{value: l == r}, nil
+			return l == r
 		}
 	}
 	if b, ok := leftValue.(bool); ok {
 		if r, ok := rightValue.(bool); ok {
-			return exprValue{value: b == r}, nil
+			return b == r
 		}
 	}
-	return exprValue{value: false}, nil
+	return false
 }
 
 type equality3Expression struct {
@@ -671,9 +675,11 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	if r.value == nil {
 		return exprValue{}, err
 	}
-	arr, ok := r.value.([]any)
+	lvalue := l.getValue()
+	rvalue := r.getValue()
+	arr, ok := rvalue.([]any)
 	if !ok {
-		arr = []any{r.value}
+		arr = []any{rvalue}
 	}
 	for _, x := range arr {
 		var v any
@@ -682,7 +688,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 		} else {
 			v = x
 		}
-		if l == v {
+		if valuesEqual(lvalue, v) {
 			return exprValue{value: true}, nil
 		}
 	}
-- 
2.43.0


From 81333175d3193081013a6fbb9f52109e143eb883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 20/37] fix: numeric literals with underscores or an E exponent

The lexer accepts 1_000, 0xff_ff, 0o7_7 and 1E3, but they could not be
converted and were 0.
---
 expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expression.go b/expression.go
index e0bc022..5ccc1eb 100644
--- a/expression.go
+++ b/expression.go
@@ -1129,8 +1129,8 @@ func astLiteral(ctx *parser.LiteralContext) exprValue {
 
 func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	if lit := ctx.DecimalLiteral(); lit != nil {
-		number := lit.GetText()
-		if strings.IndexRune(number, 'e') != -1 || strings.IndexRune(number, '.') != -1 {
+		number := strings.Replace(lit.GetText(), "_", "", -1)
+		if strings.ContainsAny(number, "eE.") {
 			v, _ := strconv.ParseFloat(number, 64)
 			return float64(v)
 		}
@@ -1139,12 +1139,12 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 	}
 
 	if lit := ctx.HexIntegerLiteral(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 16, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 16, 64)
 		return int(v)
 	}
 
 	if lit := ctx.OctalIntegerLiteral2(); lit != nil {
-		v, _ := strconv.ParseInt(lit.GetText()[2:], 8, 64)
+		v, _ := strconv.ParseInt(strings.Replace(lit.GetText()[2:], "_", "", -1), 8, 64)
 		return int(v)
 	}
 	lit := ctx.BinaryIntegerLiteral().GetText()[2:]
-- 
2.43.0


From e72e94c8aac5f37d90ba59fdb885665b90c0a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 21/37] fix: decode \\\\, \\t and \\0 in string literals

The lexer accepts these escape sequences, but unescapeString dropped them.
---
 expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression.go b/expression.go
index 5ccc1eb..676b2e8 100644
--- a/expression.go
+++ b/expression.go
@@ -1155,10 +1155,13 @@ func numericLiteral(ctx *parser.NumericLiteralContext) any {
 var singleEscapeRunes = map[rune]rune{
 	'\'': '\'',
 	'"':  '"',
+	'\\': '\\',
+	'0':  0,
 	'b':  '\b',
 	'f':  '\f',
 	'n':  '\n',
 	'r':  '\r',
+	't':  '\t',
 	'v':  '\v',
 }
 
-- 
2.43.0


From ad0a17809e41cd789ee03dead8701c54020e7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 22/37] fix: decode \\x80 to \\xff in string literals

The code was parsed as an 8-bit signed integer, and became 0x7f.
---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 676b2e8..a961811 100644
--- a/expression.go
+++ b/expression.go
@@ -1178,7 +1178,7 @@ func unescapeString(in string) string {
 				if len(buf) == 2 {
 					hex = false
 					esc = false
-					v, _ := strconv.ParseInt(string(buf), 16, 8)
+					v, _ := strconv.ParseInt(string(buf), 16, 32)
 					out = append(out, rune(v))
 					buf = nil
 				}
-- 
2.43.0


From 1b3fdce1e3e2aac1e2ad5389a932e62c98092f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 23/37] fix: do not copy the digits of \\u{...} to the string

"\\u{41}" was decoded as "41A".
---
 expression.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/expression.go b/expression.go
index a961811..9a86ea2 100644
--- a/expression.go
+++ b/expression.go
@@ -1191,8 +1191,6 @@ func unescapeString(in string) string {
 						buf = nil
 						uni = false
 						esc = false
-					} else {
-						out = append(out, r)
 					}
 				} else if len(buf) == 4 {
 					v, _ := strconv.ParseInt(string(buf), 16, 32)
-- 
2.43.0


From 4e5e93b7df7729d07e674e6ad4626fd7e1c41683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 24/37] fix: keep the character after a backslash if it needs
 no escape

"\\/" was decoded as the empty string.
---
 expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression.go b/expression.go
index 9a86ea2..cdc2f43 100644
--- a/expression.go
+++ b/expression.go
@@ -1208,6 +1208,9 @@ func unescapeString(in string) string {
 			} else {
 				if x, ok := singleEscapeRunes[r]; ok {
 					out = append(out, x)
+				} else if strings.IndexRune("\r\n\u2028\u2029", r) == -1 {
+					// Not an escape character, or a line continuation
+					out = append(out, r)
 				}
 				esc = false
 			}
-- 
2.43.0


From 0408d604849c2b78eab64534c173ebe3237a41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 25/37] fix: drop all line breaks of a line continuation

Only the first one was dropped, so a CR LF continuation left the LF in the
string.
---
 expression.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index cdc2f43..f535285 100644
--- a/expression.go
+++ b/expression.go
@@ -1216,7 +1216,8 @@ func unescapeString(in string) string {
 			}
 		} else if r == '\\' {
 			esc = true
-		} else {
+		} else if r != '\r' && r != '\n' {
+			// A line break can only be the rest of a line continuation
 			out = append(out, r)
 		}
 	}
-- 
2.43.0


From a12301ef082d50699f88867d2eef46152d4b816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 26/37] fix: pass a copy of the path to the Search callback

The callback got the path that the search keeps modifying, so the paths it
kept were overwritten with the segments of other nodes.
---
 path.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index d9cad96..0fde9e7 100644
--- a/path.go
+++ b/path.go
@@ -93,12 +93,17 @@ func ParseAndFind(doc DocModel, path string) ([]any, error) {
 }
 
 // Search iterates all document nodes depth-first, and calls `capture`
-// for those document nodes that `path` matches.
+// for those document nodes that `path` matches. The path passed to
+// `capture` is a copy, so it can be kept.
 func Search(doc DocModel, path Path, capture func(DocPath)) error {
 	if len(path.selectors) == 0 {
 		return nil
 	}
-	return evaluateAt(newRootContext(doc), path, 0, capture)
+	return evaluateAt(newRootContext(doc), path, 0, func(docpath DocPath) {
+		// The segments are overwritten as the search continues, capture
+		// must get its own copy
+		capture(DocPath{P: append([]Segment(nil), docpath.P...)})
+	})
 }
 
 // Returns a new context whose current node is the document root
-- 
2.43.0


From fd4340d6d78922c0ffdf269c7ef4bc682244a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 27/37] fix: RecursiveDescent of an empty path

RecursiveDescent(Path{}) panicked with index out of range.
---
 path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 0fde9e7..642978d 100644
--- a/path.go
+++ b/path.go
@@ -49,7 +49,9 @@ func RecursiveDescent(p Path) Path {
 		recursive: make([]bool, len(p.recursive)),
 	}
 	copy(ret.recursive, p.recursive)
-	ret.recursive[len(ret.recursive)-1] = true
+	if len(ret.recursive) > 0 {
+		ret.recursive[len(ret.recursive)-1] = true
+	}
 	return ret
 }
 
-- 
2.43.0


From 3b1c59866f262f074fce59ce7bb8e64f2c6a774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 28/37] fix: call DocModel.Value for value nodes only

The value of array and object nodes was obtained using DocModel.Value too,
whose input must be a value node: length(@) did not work, or panicked, with
models other than MapModel.
---
 expression.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/expression.go b/expression.go
index f535285..3fcf007 100644
--- a/expression.go
+++ b/expression.go
@@ -62,6 +62,9 @@ func valueAsNumber(value any) any {
 		}
 	}
 	if n, ok := value.(nodeValue); ok {
+		if n.doc.Type(n.node) != ValueNode {
+			return nil
+		}
 		return valueAsNumber(n.doc.Value(n.node))
 	}
 	return nil
@@ -111,11 +114,31 @@ func (c exprValue) asBool() bool {
 func (c exprValue) getValue() any {
 	n, ok := c.value.(nodeValue)
 	if ok {
-		return n.doc.Value(n.node)
+		return n.getValue()
 	}
 	return c.value
 }
 
+// DocModel.Value only works for value nodes. The value of an array node
+// is the slice of its elements, and an object node has no other value
+// than itself
+func (n nodeValue) getValue() any {
+	switch n.doc.Type(n.node) {
+	case ValueNode:
+		return n.doc.Value(n.node)
+	case ArrayNode:
+		elements := make([]any, n.doc.Len(n.node))
+		for i := range elements {
+			elements[i] = nodeValue{
+				node: n.doc.Elem(n.node, i),
+				doc:  n.doc,
+			}
+		}
+		return elements
+	}
+	return n
+}
+
 type unaryMinusExpression struct {
 	expr expression
 }
@@ -684,7 +707,7 @@ func (expr inExpression) evaluate(ctx *context) (exprValue, error) {
 	for _, x := range arr {
 		var v any
 		if n, ok := x.(nodeValue); ok {
-			v = n.doc.Value(n.node)
+			v = n.getValue()
 		} else {
 			v = x
 		}
-- 
2.43.0


From fc798876bb5977773b639aab411ba29244c0461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 29/37] fix: a < b must agree with b > a for operands of
 different types

A string was compared with the printed form of the other operand if it was
on the left, but converted to a number if it was on the right of a number:
9 > "10" was false, and "10" < 9 was true.
---
 expression.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 3fcf007..bb2888f 100644
--- a/expression.go
+++ b/expression.go
@@ -375,6 +375,14 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	if lvalue != nil && rvalue == nil {
 		return 1, true, nil
 	}
+	switch rvalue.(type) {
+	case int, float64:
+		// Compare with a number as a number, as it is done when the
+		// operands are switched
+		if lvalue = valueAsNumber(lvalue); lvalue == nil {
+			return 0, false, nil
+		}
+	}
 
 	if i, ok := lvalue.(int); ok {
 		n := valueAsNumber(rvalue)
@@ -424,7 +432,7 @@ func compareExpr(ctx *context, left, right expression) (int, bool, error) {
 	if i, ok := lvalue.(string); ok {
 		j, ok := rvalue.(string)
 		if !ok {
-			j = fmt.Sprint(rvalue)
+			return 0, false, nil
 		}
 		if i < j {
 			return -1, true, nil
-- 
2.43.0


From 5e04e5015b6d6eef2c67a8d5526e0b5041b5f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 30/37] fix: quote and escape all keys that need it in
 MakeKeyString

---
 escape.go | 55 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/escape.go b/escape.go
index 7574379..8d1f4c2 100644
--- a/escape.go
+++ b/escape.go
@@ -2,23 +2,27 @@ package gojsonpath
 
 import (
 	"strings"
-	"unicode"
 )
 
-const acceptableChars = "_*$.,@!~#%^"
+// Words that are not identifiers in a path expression
+var reservedWords = map[string]bool{
+	"null":  true,
+	"true":  true,
+	"false": true,
+	"in":    true,
+}
 
 // MakeKeyString quotes or escapes the input string if necessary to be
 // used in a path expression
 func MakeKeyString(input string) string {
 	// If input has all digits, letters, and _, no need for escape or
-	// quote
-	bad := false
+	// quote. The letters the lexer knows depend on the Unicode version
+	// it is generated for, so quote anything that is not ASCII.
+	bad := len(input) == 0 || reservedWords[input]
 	for i, r := range input {
-		if i == 0 && unicode.IsDigit(r) {
-			bad = true
-			break
-		}
-		if !unicode.IsDigit(r) && !unicode.IsLetter(r) && strings.IndexRune(acceptableChars, r) == -1 {
+		digit := r >= '0' && r <= '9'
+		letter := (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || r == '_'
+		if (i == 0 && digit) || (!digit && !letter) {
 			bad = true
 			break
 		}
@@ -28,23 +32,26 @@ func MakeKeyString(input string) string {
 	}
 
 	// Does it have double-quote?
-	if strings.IndexRune(input, '"') != -1 {
-		if strings.IndexRune(input, '\'') != -1 {
-			out := make([]rune, 0, len(input)+2)
-			out = append(out, '"')
-			for _, r := range input {
-				if r == '"' {
-					out = append(out, '\\', '"')
-				} else {
-					out = append(out, r)
-				}
-			}
-			out = append(out, '"')
-			return string(out)
+	quote := '"'
+	if strings.IndexRune(input, '"') != -1 && strings.IndexRune(input, '\'') == -1 {
+		quote = '\''
+	}
+	out := make([]rune, 0, len(input)+2)
+	out = append(out, quote)
+	for _, r := range input {
+		switch r {
+		case quote, '\\':
+			out = append(out, '\\', r)
+		case '\n':
+			out = append(out, '\\', 'n')
+		case '\r':
+			out = append(out, '\\', 'r')
+		default:
+			out = append(out, r)
 		}
-		return "'" + input + "'"
 	}
-	return `"` + input + `"`
+	out = append(out, quote)
+	return string(out)
 }
 
 // Joins strings to build a path, escaping them as necessary
-- 
2.43.0


From c1bddc412eed2df2d1e55efa5b4057163da9effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 31/37] fix: the simple path "/" is the document root

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 3842ee5..55327cd 100644
--- a/parser.go
+++ b/parser.go
@@ -63,6 +63,9 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 
 func Parse(input string) (Path, error) {
 	errListener := errorListener{}
+	if input == "/" {
+		return Append(SelectRootPath), nil
+	}
 	pr := getParser(input, &errListener)
 	if len(input) > 0 && input[0] == '/' {
 		c := pr.SimplePath()
-- 
2.43.0


From 77df9434049454389c1eacc38aae6399e928d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 32/37] fix: IndexSelectorPath must not select the member with
 the empty key

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 642978d..d342dbb 100644
--- a/path.go
+++ b/path.go
@@ -66,7 +66,7 @@ func KeySelectorPath(key string) Path {
 // Returns a path that selects an index
 func IndexSelectorPath(index int) Path {
 	return Path{
-		selectors: []selector{&keySelector{expr: exprValue{value: index}}},
+		selectors: []selector{&keySelector{key: strconv.Itoa(index), expr: exprValue{value: index}}},
 		recursive: []bool{false},
 	}
 }
-- 
2.43.0


From 7c5fb927b51c43ddd0fd8ae76b08e7cc0239e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 33/37] fix: allow white space after the first slash of a
 simple path

The documentation of Parse has paths of the form "/ key1 / key2".
---
 parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 55327cd..1b65fb9 100644
--- a/parser.go
+++ b/parser.go
@@ -2,6 +2,7 @@ package gojsonpath
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/antlr4-go/antlr/v4"
 
@@ -63,11 +64,17 @@ func (lst *errorListener) SyntaxError(recognizer antlr.Recognizer, offendingSymb
 
 func Parse(input string) (Path, error) {
 	errListener := errorListener{}
-	if input == "/" {
+	text := input
+	simple := strings.HasPrefix(input, "/")
+	if simple {
+		// The grammar does not allow white space after the first '/'
+		text = "/" + strings.TrimLeft(input[1:], " \n\t\r")
+	}
+	if text == "/" {
 		return Append(SelectRootPath), nil
 	}
-	pr := getParser(input, &errListener)
-	if len(input) > 0 && input[0] == '/' {
+	pr := getParser(text, &errListener)
+	if simple {
 		c := pr.SimplePath()
 		if errListener.err != nil {
 			return Path{}, fmt.Errorf("%w, input: %s", errListener.err, input)
-- 
2.43.0


From 0e6fb2ee79620520435dbe2f07d1c37a1aa4e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 34/37] fix: reject a slice with two expressions in a row

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 1b65fb9..a784823 100644
--- a/parser.go
+++ b/parser.go
@@ -338,6 +338,9 @@ func astSlice(ctx *parser.SliceContext) (selector, error) {
 				index++
 			}
 		} else if expr, ok := ch.(parser.IExpressionContext); ok {
+			if expressions[index] != nil {
+				return nil, ErrInvalidExpression(ctx.GetText())
+			}
 			var err error
 			expressions[index], err = astExpression(expr, false)
 			if err != nil {
-- 
2.43.0


From a811634d9694fec3afc6632f3669cbb3517459fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 35/37] fix: numbers of all forms are indexes in simple paths

/0x1 and /1_0 selected no array element, unlike $.0x1 and $.1_0.
---
 simplepath.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simplepath.go b/simplepath.go
index 4376fd7..532809c 100644
--- a/simplepath.go
+++ b/simplepath.go
@@ -8,8 +8,8 @@ import (
 
 func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 	if lit := ctx.Literal(); lit != nil {
+		v := astLiteral(lit.(*parser.LiteralContext))
 		if lit.StringLiteral() != nil {
-			v := astLiteral(lit.(*parser.LiteralContext))
 			path.selectors = []selector{
 				&keySelector{
 					key: v.value.(string),
@@ -20,7 +20,8 @@ func astSimplePath(ctx parser.ISimplePathExprContext) (path Path, err error) {
 		}
 		path.selectors = []selector{
 			&keySelector{
-				key: lit.GetText(),
+				key:  lit.GetText(),
+				expr: v,
 			},
 		}
 		path.recursive = []bool{false}
-- 
2.43.0


From b4021c5d8dab3af620e3af5e5697d26dfcd40e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:28 +0000
Subject: [PATCH 36/37] fix: decode \u{...} escapes: the closing brace is not a
 digit

---
 expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index bb2888f..066523a 100644
--- a/expression.go
+++ b/expression.go
@@ -1217,7 +1217,7 @@ func unescapeString(in string) string {
 				buf = append(buf, r)
 				if len(buf) > 1 && buf[0] == '{' {
 					if r == '}' {
-						v, _ := strconv.ParseInt(string(buf[1:]), 16, 32)
+						v, _ := strconv.ParseInt(string(buf[1:len(buf)-1]), 16, 32)
 						out = append(out, rune(v))
 						buf = nil
 						uni = false
-- 
2.43.0


From 299e12f1c18659131f5a12dc9453b4f8c6611750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 37/37] fix: numbers of all forms with a sign are indexes

---
 expression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expression.go b/expression.go
index 066523a..df5b8a1 100644
--- a/expression.go
+++ b/expression.go
@@ -806,7 +806,17 @@ func astExpression(ctx parser.IExpressionContext, inPath bool) (expression, erro
 		switch expr := ctx.(type) {
 		case *parser.LiteralExpressionContext:
 			return astLiteral(expr.Literal().(*parser.LiteralContext)), nil
-		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext, *parser.AdditiveExpressionContext:
+		case *parser.UnaryPlusExpressionContext, *parser.UnaryMinusExpressionContext:
+			// A number with a sign is an index
+			if x, err := astExpression(ctx, false); err == nil {
+				if v, ok := x.(exprValue); ok {
+					if _, isInt := v.value.(int); isInt {
+						return v, nil
+					}
+				}
+			}
+			return exprValue{value: ctx.GetText()}, nil
+		case *parser.AdditiveExpressionContext:
 			return exprValue{value: expr.GetText()}, nil
 		case *parser.FilterExpressionContext:
 			x, err := astExpression(expr.Expression(), false)
-- 
2.43.0

