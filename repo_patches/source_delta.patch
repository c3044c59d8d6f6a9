From bc71303195676a7e05ec3b46bb8dd0a192d65652 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 01/22] fix: keep the first error of a render and write nothing
 after it

---
 aitch.go       | 11 +++++++++++
 collection.go  |  4 ++--
 conditional.go |  2 +-
 element.go     | 14 +++++++-------
 imperative.go  | 10 ++++++----
 iterate.go     |  9 ++++++---
 template.go    |  4 ++--
 value.go       | 11 +++++++----
 8 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/aitch.go b/aitch.go
index a8f5e44..d24c6d4 100644
--- a/aitch.go
+++ b/aitch.go
@@ -40,6 +40,17 @@ const (
 	iteratorNode
 )
 
+// renderNode renders the node - unless the context already has an error - and ensures that
+// the context retains the first error
+func renderNode(ctx *context.Context, n Node) error {
+	if ctx.Error == nil {
+		if err := n.Render(ctx); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
+	}
+	return ctx.Error
+}
+
 var (
 	space             = []byte{' '}
 	openAngleBracket  = []byte{'<'}
diff --git a/collection.go b/collection.go
index 69243c3..577d557 100644
--- a/collection.go
+++ b/collection.go
@@ -11,7 +11,7 @@ type collection struct {
 func (c *collection) Render(ctx *context.Context) error {
 	for _, n := range c.nodes {
 		if n.Type() != AttributeNode {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(ctx, n) != nil {
 				return ctx.Error
 			}
 		}
@@ -47,7 +47,7 @@ type contentCollector struct {
 func (c *contentCollector) Render(ctx *context.Context) error {
 	for _, n := range c.collector(ctx) {
 		if n != nil && n.Type() != AttributeNode {
-			_ = n.Render(ctx)
+			_ = renderNode(ctx, n)
 		}
 	}
 	return ctx.Error
diff --git a/conditional.go b/conditional.go
index 580f1bb..7cf5cee 100644
--- a/conditional.go
+++ b/conditional.go
@@ -43,7 +43,7 @@ func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node
 func (c *conditional) Render(ctx *context.Context) error {
 	if c.fn(ctx) {
 		for _, n := range c.nodes {
-			if ctx.Error = n.Render(ctx); ctx.Error != nil {
+			if renderNode(ctx, n) != nil {
 				break
 			}
 		}
diff --git a/element.go b/element.go
index 3393d73..7b6fe2a 100644
--- a/element.go
+++ b/element.go
@@ -22,12 +22,12 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 								use.values = append(use.values, et.getValues()...)
 							}
 						}
-						_ = use.Render(ctx)
+						_ = renderNode(ctx, use)
 					default:
-						_ = eAttr[len(eAttr)-1].Render(ctx)
+						_ = renderNode(ctx, eAttr[len(eAttr)-1])
 					}
 				} else {
-					_ = attr.Render(ctx)
+					_ = renderNode(ctx, attr)
 				}
 			}
 			for name, ca := range evaluated {
@@ -44,9 +44,9 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 								use.values = append(use.values, et.getValues()...)
 							}
 						}
-						_ = use.Render(ctx)
+						_ = renderNode(ctx, use)
 					default:
-						_ = ca[len(ca)-1].Render(ctx)
+						_ = renderNode(ctx, ca[len(ca)-1])
 					}
 				}
 			}
@@ -54,7 +54,7 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 		}
 	}
 	for _, attr := range attributes {
-		_ = attr.Render(ctx)
+		_ = renderNode(ctx, attr)
 	}
 }
 
@@ -131,7 +131,7 @@ func (e *element) Render(ctx *context.Context) error {
 	renderAttributes(ctx, e.attributes, e.attIndices, e.conditionals)
 	ctx.Write(closeAngleBracket)
 	for _, c := range e.contents {
-		ctx.Error = c.Render(ctx)
+		_ = renderNode(ctx, c)
 	}
 	ctx.Write(closeTagStart)
 	ctx.Write(e.name)
diff --git a/imperative.go b/imperative.go
index 45fcf7c..78d60b9 100644
--- a/imperative.go
+++ b/imperative.go
@@ -35,11 +35,13 @@ type imperative struct {
 	fn func(ctx ImperativeContext) error
 }
 
-func (i *imperative) Render(ctx *context.Context) (err error) {
+func (i *imperative) Render(ctx *context.Context) error {
 	if i.fn != nil {
-		err = i.fn(&imperativeContext{ctx: ctx})
+		if err := i.fn(&imperativeContext{ctx: ctx}); err != nil && ctx.Error == nil {
+			ctx.Error = err
+		}
 	}
-	return
+	return ctx.Error
 }
 
 func (i *imperative) Type() NodeType {
@@ -70,7 +72,7 @@ func (ic *imperativeContext) WriteRaw(data []byte) {
 func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 	for _, node := range nodes {
 		if node != nil && node.Type() != AttributeNode {
-			_ = node.Render(ic.ctx)
+			_ = renderNode(ic.ctx, node)
 		}
 	}
 }
diff --git a/iterate.go b/iterate.go
index 6a300d8..0beddfb 100644
--- a/iterate.go
+++ b/iterate.go
@@ -91,14 +91,14 @@ func (i *iterator) Render(ctx *context.Context) error {
 				ictx.Data = ctx.Data
 			}
 			for _, n := range i.nodes {
-				if err := n.Render(ictx); err != nil {
+				if err := renderNode(ictx, n); err != nil {
 					ctx.Error = err
 					return err
 				}
 			}
 		}
 	}
-	return nil
+	return ctx.Error
 }
 
 func (i *iterator) Type() NodeType {
@@ -152,12 +152,15 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		Parent: ctx,
 	}
 	i.fn(ctx, func(item any) {
+		if ctx.Error != nil {
+			return
+		}
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
 		}
 		for _, n := range i.nodes {
-			if err := n.Render(ictx); err != nil {
+			if err := renderNode(ictx, n); err != nil {
 				ctx.Error = err
 				return
 			}
diff --git a/template.go b/template.go
index f75e7fe..a4510a7 100644
--- a/template.go
+++ b/template.go
@@ -66,12 +66,12 @@ func contextFuncMap(nodeMap NodeMap) template.FuncMap {
 func contextFunc(node Node) any {
 	if node.Type() == AttributeNode {
 		return func(ctx *context.Context) (template.HTMLAttr, error) {
-			err := node.Render(ctx)
+			err := renderNode(ctx, node)
 			return "", err
 		}
 	} else {
 		return func(ctx *context.Context) (template.HTML, error) {
-			err := node.Render(ctx)
+			err := renderNode(ctx, node)
 			return "", err
 		}
 	}
diff --git a/value.go b/value.go
index c499054..88c16da 100644
--- a/value.go
+++ b/value.go
@@ -33,14 +33,17 @@ func NewConcatValue(values ...any) Value {
 }
 
 func (v Value) render(ctx *context.Context) (bool, error) {
+	if ctx.Error != nil {
+		return false, ctx.Error
+	}
 	var l int
 	if v.dynamicFunc != nil {
-		data := v.dynamicFunc(ctx)
-		l, ctx.Error = ctx.Writer.Write(data)
+		if data := v.dynamicFunc(ctx); ctx.Error == nil {
+			l, ctx.Error = ctx.Writer.Write(data)
+		}
 	} else if len(v.concats) > 0 {
-		var written bool
 		for _, concat := range v.concats {
-			if written, ctx.Error = concat.render(ctx); written {
+			if written, _ := concat.render(ctx); written {
 				l++
 			}
 		}
-- 
2.43.0


From 4fae6c87738c5b9120db0b0a13558189fd62ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 02/22] fix: merging delimited attributes no longer alters
 shared attribute nodes

---
 attribute.go  | 12 ++++++++++++
 element.go    |  4 ++--
 imperative.go |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/attribute.go b/attribute.go
index 53bb020..da9080d 100644
--- a/attribute.go
+++ b/attribute.go
@@ -132,6 +132,18 @@ func (a *delimitedAttribute) getValues() []Value {
 	return a.values
 }
 
+// merge returns a new delimited attribute with the values of both - the originals may also be
+// used elsewhere, so they are left untouched
+func (a *delimitedAttribute) merge(add *delimitedAttribute) *delimitedAttribute {
+	values := make([]Value, 0, len(a.values)+len(add.values))
+	values = append(values, a.values...)
+	return &delimitedAttribute{
+		name:      a.name,
+		delimiter: a.delimiter,
+		values:    append(values, add.values...),
+	}
+}
+
 // DelimitedAttribute creates a new delimited attribute Node
 //
 // examples of delimited attributes are Class() and Style()
diff --git a/element.go b/element.go
index 7b6fe2a..3b12c52 100644
--- a/element.go
+++ b/element.go
@@ -88,7 +88,7 @@ func (e *voidElement) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
@@ -154,7 +154,7 @@ func (e *element) addAttributes(attrs []Node) Node {
 			existing := e.attributes[idx]
 			if delimited, ok := existing.(*delimitedAttribute); ok {
 				if addD, ok := att.(*delimitedAttribute); ok {
-					delimited.values = append(delimited.values, addD.values...)
+					e.attributes[idx] = delimited.merge(addD)
 					continue
 				}
 			}
diff --git a/imperative.go b/imperative.go
index 78d60b9..a7c8541 100644
--- a/imperative.go
+++ b/imperative.go
@@ -87,7 +87,7 @@ func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Nod
 		if attr != nil && attr.Type() == AttributeNode {
 			if idx, ok := attIndices[attr.Name()]; ok {
 				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := attValues[idx]
+					avs := append([]Value(nil), attValues[idx]...)
 					for _, dv := range da.values {
 						if len(avs) > 0 {
 							avs = append(avs, Value{value: da.delimiter})
-- 
2.43.0


From ca18b210ea8af9303249c6fe0bfd7edade1f8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 03/22] fix: css units no longer write into the slice passed by
 the caller

---
 css/units.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/css/units.go b/css/units.go
index f7d4c47..98a8ca7 100644
--- a/css/units.go
+++ b/css/units.go
@@ -22,75 +22,80 @@ var (
 
 // Px creates a value with "px" (pixels)
 func Px(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPx)...)
+	return withUnit(value, unitPx)
 }
 
 // Pt creates a value with "pt" (points)
 func Pt(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPt)...)
+	return withUnit(value, unitPt)
 }
 
 // Pc creates a value with "pc" (picas)
 func Pc(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPc)...)
+	return withUnit(value, unitPc)
 }
 
 // In creates a value with "in" (inches)
 func In(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitInch)...)
+	return withUnit(value, unitInch)
 }
 
 // Cm creates a value with "cm" (centimeters)
 func Cm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCm)...)
+	return withUnit(value, unitCm)
 }
 
 // Mm creates a value with "mm" (millimeters)
 func Mm(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitMm)...)
+	return withUnit(value, unitMm)
 }
 
 // Em creates a value with "em" (relative to parent font size)
 func Em(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEm)...)
+	return withUnit(value, unitEm)
 }
 
 // Rem creates a value with "rem" (relative to root font size)
 func Rem(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitRem)...)
+	return withUnit(value, unitRem)
 }
 
 // Percent creates a value with "%" (unitPercent)
 func Percent(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitPercent)...)
+	return withUnit(value, unitPercent)
 }
 
 // Vw creates a value with "vw" (viewport width)
 func Vw(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVw)...)
+	return withUnit(value, unitVw)
 }
 
 // Vh creates a value with "vh" (viewport height)
 func Vh(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVh)...)
+	return withUnit(value, unitVh)
 }
 
 // VMin creates a value with "vmin" (smaller of vw or vh)
 func VMin(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmin)...)
+	return withUnit(value, unitVmin)
 }
 
 // VMax creates a value with "vmax" (larger of vw or vh)
 func VMax(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitVmax)...)
+	return withUnit(value, unitVmax)
 }
 
 // Ch creates a value with "ch" (width of 0 glyph)
 func Ch(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitCh)...)
+	return withUnit(value, unitCh)
 }
 
 // Ex creates a value with "ex" (x-height of current font)
 func Ex(value ...any) aitch.Value {
-	return aitch.NewConcatValue(append(value, unitEx)...)
+	return withUnit(value, unitEx)
+}
+
+// withUnit creates the value followed by its unit (without writing into the caller's slice)
+func withUnit(value []any, unit []byte) aitch.Value {
+	return aitch.NewConcatValue(append(value[:len(value):len(value)], unit)...)
 }
-- 
2.43.0


From 51c0db56e9f041744896de74fc729c429e399599 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 04/22] fix: render attributes in declaration order when
 conditional attributes are active

---
 conditional.go |  9 +++++++--
 element.go     | 10 +++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/conditional.go b/conditional.go
index 7cf5cee..726421e 100644
--- a/conditional.go
+++ b/conditional.go
@@ -29,15 +29,20 @@ func (a conditionalAttribute) evaluate(ctx *context.Context) bool {
 
 type conditionalAttributes []conditionalAttribute
 
-func (c conditionalAttributes) evaluate(ctx *context.Context) map[string][]Node {
+// evaluate returns the names (in declaration order) and the attributes that are active
+func (c conditionalAttributes) evaluate(ctx *context.Context) ([]string, map[string][]Node) {
+	names := make([]string, 0, len(c))
 	result := make(map[string][]Node, len(c))
 	for _, a := range c {
 		if a.evaluate(ctx) {
 			name := a.attribute.Name()
+			if _, ok := result[name]; !ok {
+				names = append(names, name)
+			}
 			result[name] = append(result[name], a.attribute)
 		}
 	}
-	return result
+	return names, result
 }
 
 func (c *conditional) Render(ctx *context.Context) error {
diff --git a/element.go b/element.go
index 3b12c52..2dc66c1 100644
--- a/element.go
+++ b/element.go
@@ -6,11 +6,10 @@ import (
 
 func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[string]int, conditionals conditionalAttributes) {
 	if len(conditionals) > 0 {
-		if evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
+		if names, evaluated := conditionals.evaluate(ctx); len(evaluated) > 0 {
 			use := &delimitedAttribute{}
-			for name, index := range attIndices {
-				attr := attributes[index]
-				if eAttr, ok := evaluated[name]; ok {
+			for _, attr := range attributes {
+				if eAttr, ok := evaluated[attr.Name()]; ok {
 					switch at := attr.(type) {
 					case *delimitedAttribute:
 						use.name = at.name
@@ -30,7 +29,8 @@ func renderAttributes(ctx *context.Context, attributes []Node, attIndices map[st
 					_ = renderNode(ctx, attr)
 				}
 			}
-			for name, ca := range evaluated {
+			for _, name := range names {
+				ca := evaluated[name]
 				if _, ok := attIndices[name]; !ok && len(ca) > 0 {
 					first := ca[0]
 					switch at := first.(type) {
-- 
2.43.0


From 70f5c8329ab535bba10dc1cffbe008c5cbc093c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 05/22] fix: sibling conditionals no longer share the
 conditions of their attributes

---
 element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/element.go b/element.go
index 2dc66c1..de9c97c 100644
--- a/element.go
+++ b/element.go
@@ -251,7 +251,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					attrs = append(attrs, addA...)
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
-					newConditions := append(conditions, cn.fn)
+					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
 					for _, a := range cn.attributes {
 						condAttrs = append(condAttrs, conditionalAttribute{
 							attribute:  a,
-- 
2.43.0


From 4b4a342f00060a5907429dcd0dd511619fdbf291 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 06/22] fix: conditional attributes keep their declaration
 order around nested nodes

---
 conditional.go | 17 ++++++++---------
 element.go     |  8 +-------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/conditional.go b/conditional.go
index 726421e..4794052 100644
--- a/conditional.go
+++ b/conditional.go
@@ -8,9 +8,9 @@ import (
 type ConditionalFunc func(ctx *context.Context) bool
 
 type conditional struct {
-	nodes      []Node
-	attributes []Node
-	fn         ConditionalFunc
+	nodes    []Node
+	contents []Node // attributes and nodes in declaration order
+	fn       ConditionalFunc
 }
 
 type conditionalAttribute struct {
@@ -72,14 +72,13 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		return Collection(nodes...)
 	}
 	result := &conditional{
-		nodes:      make([]Node, 0, len(nodes)),
-		attributes: make([]Node, 0, len(nodes)),
-		fn:         fn,
+		nodes:    make([]Node, 0, len(nodes)),
+		contents: make([]Node, 0, len(nodes)),
+		fn:       fn,
 	}
 	for _, n := range nodes {
-		if n.Type() == AttributeNode {
-			result.attributes = append(result.attributes, n)
-		} else {
+		result.contents = append(result.contents, n)
+		if n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
diff --git a/element.go b/element.go
index de9c97c..9fa0ea5 100644
--- a/element.go
+++ b/element.go
@@ -252,13 +252,7 @@ func attributesAndContents(conditions []ConditionalFunc, content []Node) (attrs
 					condAttrs = append(condAttrs, addCa...)
 				case *conditional:
 					newConditions := append(conditions[:len(conditions):len(conditions)], cn.fn)
-					for _, a := range cn.attributes {
-						condAttrs = append(condAttrs, conditionalAttribute{
-							attribute:  a,
-							conditions: newConditions,
-						})
-					}
-					_, addCa, _ := attributesAndContents(newConditions, cn.nodes)
+					_, addCa, _ := attributesAndContents(newConditions, cn.contents)
 					condAttrs = append(condAttrs, addCa...)
 				}
 			}
-- 
2.43.0


From 62e948cea1c56febf72d79ff30b1b0b1f5162f42 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 07/22] fix: ignore nil nodes in conditionals and iterations

---
 conditional.go | 8 +++++---
 iterate.go     | 6 +++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/conditional.go b/conditional.go
index 4794052..6a5398f 100644
--- a/conditional.go
+++ b/conditional.go
@@ -77,9 +77,11 @@ func Conditional(fn ConditionalFunc, nodes ...Node) Node {
 		fn:       fn,
 	}
 	for _, n := range nodes {
-		result.contents = append(result.contents, n)
-		if n.Type() != AttributeNode {
-			result.nodes = append(result.nodes, n)
+		if n != nil {
+			result.contents = append(result.contents, n)
+			if n.Type() != AttributeNode {
+				result.nodes = append(result.nodes, n)
+			}
 		}
 	}
 	return result
diff --git a/iterate.go b/iterate.go
index 0beddfb..3de1f16 100644
--- a/iterate.go
+++ b/iterate.go
@@ -23,7 +23,7 @@ func Iterate(fn func(ctx *context.Context) []any, nodes ...Node) Node {
 		fn:    fn,
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -59,7 +59,7 @@ func IterateKey(key string, nodes ...Node) Node {
 		},
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
@@ -128,7 +128,7 @@ func IterateYield(fn func(ctx *context.Context, yield func(any)), nodes ...Node)
 		nodes: make([]Node, 0, len(nodes)),
 	}
 	for _, n := range nodes {
-		if n.Type() != AttributeNode {
+		if n != nil && n.Type() != AttributeNode {
 			result.nodes = append(result.nodes, n)
 		}
 	}
-- 
2.43.0


From 3ef860aea84c2ddcbcb50e7e52d619b6852d5b61 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 08/22] fix: yielded items that are not maps see the
 surrounding data

---
 iterate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iterate.go b/iterate.go
index 3de1f16..435bf85 100644
--- a/iterate.go
+++ b/iterate.go
@@ -158,6 +158,8 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
+		} else {
+			ictx.Data = ctx.Data
 		}
 		for _, n := range i.nodes {
 			if err := renderNode(ictx, n); err != nil {
-- 
2.43.0


From bf4a60aac7584d68b636ad1a586bc69bbdad6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 09/22] fix: escape the text of Stringer values

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 88c16da..2269508 100644
--- a/value.go
+++ b/value.go
@@ -160,7 +160,7 @@ func valueToBytes(v any) []byte {
 	case float64:
 		return []byte(strconv.FormatFloat(vt, 'g', -1, 64))
 	case fmt.Stringer:
-		return []byte(vt.String())
+		return htmlEscapeString(vt.String())
 	case func() any:
 		return valueToBytes(vt())
 	}
-- 
2.43.0


From 8bf74019da5438bb5c693162aa85696ee6a08c0c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 10/22] fix: escape the keys of htmx header maps

---
 htmx/attributes.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/htmx/attributes.go b/htmx/attributes.go
index d6612c5..ba75999 100644
--- a/htmx/attributes.go
+++ b/htmx/attributes.go
@@ -312,8 +312,11 @@ func HeadersJS(value ...HeadersMap) aitch.Node {
 
 type HeadersMap map[string]any
 
+// keyEscaper escapes a header key for use within a quoted string
+var keyEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`, "\n", `\n`, "\r", `\r`)
+
 func (m HeadersMap) serialize(prefix []byte) []any {
-	result := make([]any, 0, (len(m)*2)+3)
+	result := make([]any, 0, (len(m)*4)+3)
 	if len(prefix) > 0 {
 		result = append(result, prefix)
 	}
@@ -325,7 +328,7 @@ func (m HeadersMap) serialize(prefix []byte) []any {
 	sort.Strings(keys)
 	delimit := ""
 	for _, key := range keys {
-		result = append(result, []byte(delimit+`'`+strings.ReplaceAll(key, `"`, `&quot;`)+`': `), m[key])
+		result = append(result, []byte(delimit+`'`), keyEscaper.Replace(key), []byte(`': `), m[key])
 		delimit = ", "
 	}
 	result = append(result, []byte{'}'})
-- 
2.43.0


From 3416d1c8a1a44d7ef1a59d9ffd32d42efa1e927c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 11/22] fix: multiple svg class declarations are merged

---
 svg/attributes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svg/attributes.go b/svg/attributes.go
index 72511d0..d2a3a13 100644
--- a/svg/attributes.go
+++ b/svg/attributes.go
@@ -48,8 +48,10 @@ func CalcMode(value ...any) aitch.Node {
 }
 
 // Class declares an SVG "class" attribute
+//
+// Use multiple Class() declarations on a single element - the values are joined into one "class" attribute delimited with a space
 func Class(value ...any) aitch.Node {
-	return aitch.NewAttribute(attrClass, value...)
+	return aitch.NewDelimitedAttribute(attrClass, space, value...)
 }
 
 // Clip declares an SVG "clip" attribute
@@ -721,6 +723,7 @@ func Y2(value ...any) aitch.Node {
 
 var (
 	stylesDelim                    = []byte{';', ' '}
+	space                          = []byte{' '}
 	attrAccumulate                 = []byte("accumulate")
 	attrAdditive                   = []byte("additive")
 	attrAlignmentBaseline          = []byte("alignment-baseline")
-- 
2.43.0


From cdfc09d262c95067b9e576889330b165d9d6902f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 12/22] fix: context lookups no longer panic on unusual cargo

---
 context/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/context/context.go b/context/context.go
index cdbec55..ce899df 100644
--- a/context/context.go
+++ b/context/context.go
@@ -60,7 +60,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 		switch v.Kind() {
 		case reflect.Map:
 			if v.Type().Key().Kind() == reflect.String {
-				if val := v.MapIndex(reflect.ValueOf(key)); val.IsValid() {
+				if val := v.MapIndex(reflect.ValueOf(key).Convert(v.Type().Key())); val.IsValid() && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
@@ -68,7 +68,7 @@ func Get[T any](ctx *Context, key string) (T, bool) {
 			}
 		case reflect.Struct:
 			if f, ok := v.Type().FieldByName(key); ok {
-				if val := v.FieldByIndex(f.Index); val.IsValid() {
+				if val, err := v.FieldByIndexErr(f.Index); err == nil && val.CanInterface() {
 					if typed, ok := val.Interface().(T); ok {
 						return typed, true
 					}
-- 
2.43.0


From 3cc8f75dadfc30559b1fe9c45e87a63cac0596c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 13/22] fix: code generation reports the first write error

---
 html/generator.go | 14 ++++++++++++++
 svg/generator.go  | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/html/generator.go b/html/generator.go
index ea0701f..d6bff6e 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &codeWriter{w: w}
 	elemMap, attrMap, boolAttrs := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -137,6 +138,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// codeWriter is a writer that keeps the first error - and writes nothing after it
+type codeWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (c *codeWriter) Write(data []byte) (n int, err error) {
+	if c.err == nil {
+		n, c.err = c.w.Write(data)
+	}
+	return n, c.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index e5bfdfe..c268f1d 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -14,6 +14,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	if w == nil {
 		w = os.Stdout
 	}
+	w = &codeWriter{w: w}
 	elemMap, attrMap := mappings()
 	tokenizer := html.NewTokenizer(r)
 	indent := []byte{}
@@ -129,6 +130,19 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 	return err
 }
 
+// codeWriter is a writer that keeps the first error - and writes nothing after it
+type codeWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (c *codeWriter) Write(data []byte) (n int, err error) {
+	if c.err == nil {
+		n, c.err = c.w.Write(data)
+	}
+	return n, c.err
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From 4df8dc13dfc198008580c1e7ba1a3e0bd3e11213 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 14/22] fix: generated code quotes names and texts with any
 characters

---
 html/generator.go | 11 +++++------
 svg/generator.go  | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index d6bff6e..b1bcbb5 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -83,7 +82,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				}
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
diff --git a/svg/generator.go b/svg/generator.go
index c268f1d..7b6eca1 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -49,17 +50,15 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	escape := func(s string) string {
-		return strings.Replace(
-			strings.Replace(
-				strings.Replace(strings.Replace(s, "\\", `\\`, -1), "\t", `\t`, -1), "\n", `\n`, -1),
-			`"`, `\"`, -1)
+		quoted := strconv.Quote(s)
+		return quoted[1 : len(quoted)-1]
 	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
 			start = funcName(elem) + "("
 		} else {
-			start = `aitch.Element("` + string(name) + `", `
+			start = `aitch.Element("` + escape(name) + `", `
 		}
 		_, err = w.Write(indent)
 		_, err = w.Write([]byte(start))
@@ -78,7 +77,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte{'"', ')'})
 			} else {
 				_, err = w.Write([]byte(`aitch.Attribute("`))
-				_, err = w.Write([]byte(a.Key))
+				_, err = w.Write([]byte(escape(a.Key)))
 				_, err = w.Write([]byte{'"', ' ', ',', '"'})
 				_, err = w.Write([]byte(escape(a.Val)))
 				_, err = w.Write([]byte{'"', ')'})
-- 
2.43.0


From 4fce281ab7c575a72f6f983467938ddddd97420c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 15/22] fix: code generation copes with void, unclosed and
 stray tags

---
 html/generator.go | 41 ++++++++++++++++++++++++++++++++++++++---
 svg/generator.go  | 21 +++++++++++++++++++--
 2 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index b1bcbb5..b65ceea 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -53,6 +53,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		quoted := strconv.Quote(s)
 		return quoted[1 : len(quoted)-1]
 	}
+	var open []string // names of the elements that are open
+	writeElementEnd := func() {
+		open = open[:len(open)-1]
+		decIndent()
+		write("),")
+	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
@@ -95,6 +101,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		_, err = w.Write([]byte{'\n'})
 		if !selfClosing {
+			open = append(open, name)
 			incIndent()
 		}
 	}
@@ -115,13 +122,20 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
-			writeElementStart(token.Data, token.Attr, false)
+			writeElementStart(token.Data, token.Attr, voidElements[token.Data])
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			name := tokenizer.Token().Data
+			for i := len(open) - 1; i >= 0; i-- {
+				if open[i] == name {
+					for len(open) > i {
+						writeElementEnd()
+					}
+					break
+				}
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`html.Comment("` + escape(token.Data) + `"),`)
@@ -131,6 +145,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 	}
 	if err == nil {
+		for len(open) > 0 {
+			writeElementEnd()
+		}
 		decIndent()
 		write(")\n")
 	}
@@ -150,6 +167,24 @@ func (c *codeWriter) Write(data []byte) (n int, err error) {
 	return n, c.err
 }
 
+// voidElements are the names of elements that never have an end tag
+var voidElements = map[string]bool{
+	"area":   true,
+	"base":   true,
+	"br":     true,
+	"col":    true,
+	"embed":  true,
+	"hr":     true,
+	"img":    true,
+	"input":  true,
+	"link":   true,
+	"meta":   true,
+	"param":  true,
+	"source": true,
+	"track":  true,
+	"wbr":    true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index 7b6eca1..4586858 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -53,6 +53,12 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		quoted := strconv.Quote(s)
 		return quoted[1 : len(quoted)-1]
 	}
+	var open []string // names of the elements that are open
+	writeElementEnd := func() {
+		open = open[:len(open)-1]
+		decIndent()
+		write("),")
+	}
 	writeElementStart := func(name string, attrs []html.Attribute, selfClosing bool) {
 		start := ""
 		if elem, ok := elemMap[strings.ToLower(string(name))]; ok {
@@ -90,6 +96,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		}
 		_, err = w.Write([]byte{'\n'})
 		if !selfClosing {
+			open = append(open, name)
 			incIndent()
 		}
 	}
@@ -115,14 +122,24 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
 		case html.EndTagToken:
-			decIndent()
-			write("),")
+			name := tokenizer.Token().Data
+			for i := len(open) - 1; i >= 0; i-- {
+				if open[i] == name {
+					for len(open) > i {
+						writeElementEnd()
+					}
+					break
+				}
+			}
 		case html.CommentToken:
 			token := tokenizer.Token()
 			write(`svg.Comment("` + escape(token.Data) + `"),`)
 		}
 	}
 	if err == nil {
+		for len(open) > 0 {
+			writeElementEnd()
+		}
 		decIndent()
 		write(")\n")
 	}
-- 
2.43.0


From c4ef25ab65968892dc216bb1f818c55edd7171db Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 16/22] fix: generated code keeps the text of script and style
 elements unescaped

---
 html/generator.go | 19 ++++++++++++++++++-
 svg/generator.go  | 19 ++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index b65ceea..ddf9c78 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -118,7 +118,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`html.Text("` + escape(token.Data) + `"),`)
+				if l := len(open); l > 0 && rawTextElements[open[l-1]] {
+					write(`html.Text([]byte("` + escape(token.Data) + `")),`)
+				} else {
+					write(`html.Text("` + escape(token.Data) + `"),`)
+				}
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
@@ -126,6 +130,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
+			tokenizer.NextIsNotRawText()
 		case html.EndTagToken:
 			name := tokenizer.Token().Data
 			for i := len(open) - 1; i >= 0; i-- {
@@ -185,6 +190,18 @@ var voidElements = map[string]bool{
 	"wbr":    true,
 }
 
+// rawTextElements are the names of elements whose text is not escaped
+var rawTextElements = map[string]bool{
+	"iframe":    true,
+	"noembed":   true,
+	"noframes":  true,
+	"noscript":  true,
+	"plaintext": true,
+	"script":    true,
+	"style":     true,
+	"xmp":       true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[string]bool) {
 	elems = map[string]any{
 		"a":          A,
diff --git a/svg/generator.go b/svg/generator.go
index 4586858..a143003 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -113,7 +113,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.TextToken:
 			token := tokenizer.Token()
 			if strings.Trim(token.Data, " \n\t") != "" {
-				write(`svg.Text("` + escape(token.Data) + `"),`)
+				if l := len(open); l > 0 && rawTextElements[open[l-1]] {
+					write(`svg.Text([]byte("` + escape(token.Data) + `")),`)
+				} else {
+					write(`svg.Text("` + escape(token.Data) + `"),`)
+				}
 			}
 		case html.StartTagToken:
 			token := tokenizer.Token()
@@ -121,6 +125,7 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 		case html.SelfClosingTagToken:
 			token := tokenizer.Token()
 			writeElementStart(token.Data, token.Attr, true)
+			tokenizer.NextIsNotRawText()
 		case html.EndTagToken:
 			name := tokenizer.Token().Data
 			for i := len(open) - 1; i >= 0; i-- {
@@ -159,6 +164,18 @@ func (c *codeWriter) Write(data []byte) (n int, err error) {
 	return n, c.err
 }
 
+// rawTextElements are the names of elements whose text is not escaped
+var rawTextElements = map[string]bool{
+	"iframe":    true,
+	"noembed":   true,
+	"noframes":  true,
+	"noscript":  true,
+	"plaintext": true,
+	"script":    true,
+	"style":     true,
+	"xmp":       true,
+}
+
 func mappings() (elems map[string]any, attrs map[string]any) {
 	elems = map[string]any{
 		"altGlyph":            AltGlyph,
-- 
2.43.0


From 64bb00be1c8ab4e7b30d8fedd2c82042f7d6ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 17/22] fix: generated code keeps the values of boolean-like
 attributes

---
 html/generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/html/generator.go b/html/generator.go
index ddf9c78..4e0855f 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -77,7 +77,9 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 				_, err = w.Write([]byte{',', ' '})
 			}
 			if attr, ok := attrMap[strings.ToLower(a.Key)]; ok {
-				if boolAttrs[strings.ToLower(a.Key)] {
+				if boolAttrs[strings.ToLower(a.Key)] && a.Val != "" && !strings.EqualFold(a.Val, a.Key) {
+					_, err = w.Write([]byte(`aitch.Attribute("` + escape(a.Key) + `" ,"` + escape(a.Val) + `")`))
+				} else if boolAttrs[strings.ToLower(a.Key)] {
 					_, err = w.Write([]byte(funcName(attr)))
 					_, err = w.Write([]byte{'(', ')'})
 				} else {
-- 
2.43.0


From 6c007b4018052e35dcd8e3160412ec280267b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 18/22] fix: generated code keeps doctypes with identifiers

---
 html/generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/html/generator.go b/html/generator.go
index 4e0855f..b32e9ce 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -148,7 +148,11 @@ func GenerateCode(r io.Reader, w io.Writer) error {
 			write(`html.Comment("` + escape(token.Data) + `"),`)
 		case html.DoctypeToken:
 			token := tokenizer.Token()
-			write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			if strings.ContainsAny(token.Data, "'\"&<>") {
+				write(`html.PI("DOCTYPE", []byte("` + escape(token.Data) + `")),`)
+			} else {
+				write(`html.PI("DOCTYPE", "` + escape(token.Data) + `"),`)
+			}
 		}
 	}
 	if err == nil {
-- 
2.43.0


From 61e6acd4a9b8e3f5480a0897a8c6302a9401e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 19/22] fix: attributes named just aria- or data- are not
 generated as suffix calls

---
 html/generator.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/html/generator.go b/html/generator.go
index b32e9ce..91162f5 100644
--- a/html/generator.go
+++ b/html/generator.go
@@ -320,7 +320,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"action":              Action,
 		"allowfullscreen":     AllowFullScreen,
 		"alt":                 Alt,
-		"aria-":               Aria,
 		"aria-atomic":         AriaAtomic,
 		"aria-busy":           AriaBusy,
 		"aria-checked":        AriaChecked,
@@ -362,7 +361,6 @@ func mappings() (elems map[string]any, attrs map[string]any, boolAttrs map[strin
 		"contenteditable":     ContentEditable,
 		"controls":            Controls,
 		"crossorigin":         CrossOrigin,
-		"data-":               Data,
 		"datetime":            DateTime,
 		"default":             Default,
 		"defer":               Defer,
-- 
2.43.0


From dfc0d7814ffdd1d90baebf790daef8f2b43c2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 20/22] fix: code generation recognises mixed case svg names

---
 svg/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svg/generator.go b/svg/generator.go
index a143003..b449881 100644
--- a/svg/generator.go
+++ b/svg/generator.go
@@ -388,5 +388,10 @@ func mappings() (elems map[string]any, attrs map[string]any) {
 		"y1":                           Y1,
 		"y2":                           Y2,
 	}
+	for _, m := range []map[string]any{elems, attrs} {
+		for name, fn := range m {
+			m[strings.ToLower(name)] = fn // names are looked up in lower case
+		}
+	}
 	return
 }
-- 
2.43.0


From ba298aee7cf5e71e721c20520c2b954ff95af8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 21/22] fix: imperative start tags follow the attribute rules
 of declared elements

---
 imperative.go | 51 ++++-----------------------------------------------
 1 file changed, 4 insertions(+), 47 deletions(-)

diff --git a/imperative.go b/imperative.go
index a7c8541..3cc9865 100644
--- a/imperative.go
+++ b/imperative.go
@@ -80,57 +80,14 @@ func (ic *imperativeContext) WriteNodes(nodes ...Node) {
 func (ic *imperativeContext) Start(elementName []byte, isVoid bool, attrs ...Node) {
 	ic.ctx.Write(openAngleBracket)
 	ic.ctx.Write(elementName)
-	attValues := make([][]Value, 0, len(attrs))
-	attNames := make([][]byte, 0, len(attrs))
-	attIndices := map[string]int{}
+	// attributes follow the same rules as the attributes of a declared element
+	e := &voidElement{attIndices: make(map[string]int, len(attrs))}
 	for _, attr := range attrs {
 		if attr != nil && attr.Type() == AttributeNode {
-			if idx, ok := attIndices[attr.Name()]; ok {
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := append([]Value(nil), attValues[idx]...)
-					for _, dv := range da.values {
-						if len(avs) > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, dv)
-					}
-					attValues[idx] = avs
-				} else if va, ok := attr.(valuesNode); ok {
-					attValues[idx] = va.getValues()
-				} else {
-					attValues[idx] = nil
-				}
-			} else {
-				attIndices[attr.Name()] = len(attNames)
-				attNames = append(attNames, []byte(attr.Name()))
-				if da, ok := attr.(*delimitedAttribute); ok {
-					avs := make([]Value, 0, len(da.values)*2)
-					for i, v := range da.values {
-						if i > 0 {
-							avs = append(avs, Value{value: da.delimiter})
-						}
-						avs = append(avs, v)
-					}
-					attValues = append(attValues, avs)
-				} else if vn, ok := attr.(valuesNode); ok {
-					attValues = append(attValues, vn.getValues())
-				} else {
-					attValues = append(attValues, nil)
-				}
-			}
-		}
-	}
-	for a, attName := range attNames {
-		ic.ctx.Write(space)
-		ic.ctx.Write(attName)
-		if vs := attValues[a]; vs != nil {
-			ic.ctx.Write(attStart)
-			for _, vv := range vs {
-				_, _ = vv.render(ic.ctx)
-			}
-			ic.ctx.Write(attEnd)
+			e.addAttributes([]Node{attr})
 		}
 	}
+	renderAttributes(ic.ctx, e.attributes, e.attIndices, nil)
 	ic.ctx.Write(closeAngleBracket)
 	if !isVoid {
 		ic.openedStack = append(ic.openedStack, elementName)
-- 
2.43.0


From 3e059d756f3c6e44a936d920bc7a0da0e0d37fff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 22/22] fix: an item keeps its cargo and data when yield is
 called while it is rendered

---
 iterate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iterate.go b/iterate.go
index 435bf85..c5dac30 100644
--- a/iterate.go
+++ b/iterate.go
@@ -155,6 +155,10 @@ func (i *yieldIterator) Render(ctx *context.Context) error {
 		if ctx.Error != nil {
 			return
 		}
+		// yield may also be called while another item is being rendered
+		defer func(cargo any, data map[string]any) {
+			ictx.Cargo, ictx.Data = cargo, data
+		}(ictx.Cargo, ictx.Data)
 		ictx.Cargo = item
 		if mi, ok := item.(map[string]any); ok {
 			ictx.Data = mi
-- 
2.43.0

