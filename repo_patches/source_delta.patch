From 253fc1dd5bfd0e59f0470a1969c9c8c79c3856f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:29 +0000
Subject: [PATCH 001/137] fix: let the nil type be an exact type so that tuples
 and structs of nil can be created

---
 internal/nil.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/nil.go b/internal/nil.go
index 41635ca..5e3dd54 100644
--- a/internal/nil.go
+++ b/internal/nil.go
@@ -63,6 +63,11 @@ func (t nilType) Equals(v interface{}) bool {
 	return t == v
 }
 
+// ExactValue returns the Nil value. The nil type is the exact type of that value
+func (t nilType) ExactValue() dgo.Value {
+	return Nil
+}
+
 func (t nilType) HashCode() int {
 	return int(1 + dgo.TiNil)
 }
-- 
2.43.0


From deb8fe3891bdb230c4592a6890f91dba8f01385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 002/137] fix: make the hash code of allOf, anyOf, and oneOf
 independent of operand order, like their equality

---
 internal/ternary.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index aeddc80..57134a0 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -96,7 +96,7 @@ func (t *allOfType) HashCode() int {
 }
 
 func (t *allOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOf)
+	return operandsHashCode(seen, t.slice, typeAsType)*7 + int(dgo.TiAllOf)
 }
 
 func (t *allOfType) Instance(value interface{}) bool {
@@ -200,7 +200,7 @@ func (t *allOfValueType) HashCode() int {
 }
 
 func (t *allOfValueType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAllOfValue)
+	return operandsHashCode(seen, t.slice, valueAsType)*7 + int(dgo.TiAllOf) // equal to an allOfType of exact types
 }
 
 func (t *allOfValueType) Instance(value interface{}) bool {
@@ -308,7 +308,7 @@ func (t *anyOfType) HashCode() int {
 }
 
 func (t *anyOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiAnyOf)
+	return operandsHashCode(seen, t.slice, typeAsType)*7 + int(dgo.TiAnyOf)
 }
 
 func (t *anyOfType) Instance(value interface{}) bool {
@@ -426,7 +426,7 @@ func (t *oneOfType) HashCode() int {
 }
 
 func (t *oneOfType) deepHashCode(seen []dgo.Value) int {
-	return deepHashCode(seen, (*array)(t))*7 + int(dgo.TiOneOf)
+	return operandsHashCode(seen, t.slice, typeAsType)*7 + int(dgo.TiOneOf)
 }
 
 func (t *oneOfType) Instance(value interface{}) bool {
@@ -584,6 +584,15 @@ nextA:
 	return true
 }
 
+// operandsHashCode computes a hash code that, like the equality of operands, is independent of the order of the operands
+func operandsHashCode(seen []dgo.Value, s []dgo.Value, fc func(dgo.Value) dgo.Type) int {
+	h := len(s)
+	for i := range s {
+		h += deepHashCode(seen, fc(s[i]))
+	}
+	return h
+}
+
 func typeAsType(v dgo.Value) dgo.Type {
 	return v.(dgo.Type)
 }
-- 
2.43.0


From b1abdee367c79fa4bca1a2f69b2a31d7b38ceff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 003/137] fix: accept a permutation of the operands when
 checking if an allOf is assignable from an equal allOf

---
 internal/ternary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ternary.go b/internal/ternary.go
index 57134a0..a9d2c3e 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -568,9 +568,15 @@ nextA:
 
 	// Extra entries in 'b' are allowed provided they don't lessen the constraint
 	var swg dgo.RecursionGuard
+nextB:
 	for ib := range bts {
 		if !matched[ib] {
 			tb := bts[ib]
+			for ia := range ats {
+				if Assignable(guard, ats[ia], tb) {
+					continue nextB
+				}
+			}
 			if nil != guard && nil == swg {
 				swg = guard.Swap()
 			}
-- 
2.43.0


From 0803e6bb70aac1927fae614c4d94d97ec8133c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 004/137] fix: let a oneOf be assignable from an equal oneOf
 also when its operands overlap

---
 internal/ternary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ternary.go b/internal/ternary.go
index a9d2c3e..30f0d2c 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -383,6 +383,9 @@ func (t *oneOfType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) boo
 		_, ok := other.(*oneOfType)
 		return ok
 	}
+	if t.Equals(other) {
+		return true
+	}
 	found := false
 	for i := range ts {
 		if Assignable(guard, ts[i].(dgo.Type), other) {
-- 
2.43.0


From c857215510768ab68656979452f7573e7a4bdc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 005/137] fix: make equality between tuple types and exact
 array types symmetric

---
 internal/array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index db7cacb..313a1bf 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -515,6 +515,10 @@ func (t *tupleType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
+	if _, ok := other.(*exactArrayType); ok {
+		// An exact type is only equal to another exact type
+		return false
+	}
 	if ot, ok := other.(dgo.TupleType); ok {
 		n := t.Len()
 		if t.Variadic() == ot.Variadic() && n == ot.Len() {
-- 
2.43.0


From c70f951a7d94279c1218e22ff759e3a05aa8fd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 006/137] fix: make equality between parsed and reflected
 function types symmetric

---
 internal/function.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/internal/function.go b/internal/function.go
index bf3bbb1..e843196 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -139,16 +139,32 @@ func (t exactFunctionType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Ty
 }
 
 func (t exactFunctionType) Equals(other interface{}) bool {
-	if ot, ok := Value(other).(dgo.FunctionType); ok {
-		return t.In().Equals(ot.In()) && t.Out().Equals(ot.Out())
+	return equals(nil, t, other)
+}
+
+func (t exactFunctionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	return functionTypeEquals(seen, t, other)
+}
+
+func (t exactFunctionType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t exactFunctionType) deepHashCode(seen []dgo.Value) int {
+	return functionTypeHashCode(seen, t)
+}
+
+func functionTypeEquals(seen []dgo.Value, t dgo.FunctionType, other deepEqual) bool {
+	if ot, ok := other.(dgo.FunctionType); ok {
+		return equals(seen, t.In(), ot.In()) && equals(seen, t.Out(), ot.Out())
 	}
 	return false
 }
 
-func (t exactFunctionType) HashCode() int {
+func functionTypeHashCode(seen []dgo.Value, t dgo.FunctionType) int {
 	h := int(dgo.TiFunction)
-	h = h*31 + t.In().HashCode()
-	h = h*31 + t.Out().HashCode()
+	h = h*31 + deepHashCode(seen, t.In())
+	h = h*31 + deepHashCode(seen, t.Out())
 	return h
 }
 
@@ -226,10 +242,7 @@ func (t *functionType) Equals(other interface{}) bool {
 }
 
 func (t *functionType) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ot, ok := other.(*functionType); ok {
-		return equals(seen, t.arguments, ot.arguments) && equals(seen, t.returns, ot.returns)
-	}
-	return false
+	return functionTypeEquals(seen, t, other)
 }
 
 func (t *functionType) HashCode() int {
@@ -237,10 +250,7 @@ func (t *functionType) HashCode() int {
 }
 
 func (t *functionType) deepHashCode(seen []dgo.Value) int {
-	h := int(dgo.TiFunction)
-	h = h*31 + deepHashCode(seen, t.arguments)
-	h = h*31 + deepHashCode(seen, t.returns)
-	return h
+	return functionTypeHashCode(seen, t)
 }
 
 func (t *functionType) In() dgo.TupleType {
-- 
2.43.0


From 8462741ac8692bd7aabfd1d403b595b8910bd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 007/137] fix: describe the go type []byte as binary, which is
 what such values are converted to

---
 internal/value.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/value.go b/internal/value.go
index 8d46ee8..48a2ee4 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -167,4 +167,5 @@ func ReflectTo(src dgo.Value, dest reflect.Value) {
 var wellKnownTypes = map[reflect.Type]dgo.Type{
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
 	reflect.TypeOf(time.Time{}):      DefaultTimeType,
+	reflectBinaryType:                DefaultBinaryType,
 }
-- 
2.43.0


From 7bfa2c343bcb859daea5c8c8dbf9b8eedfabf8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 008/137] fix: let ToMap and ToMapFromEntries treat duplicate
 keys and mutable keys the way Put does, and never alter the map that the
 entries stem from

---
 internal/array.go | 67 +++++++++++------------------------------------
 1 file changed, 16 insertions(+), 51 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 313a1bf..d86c3f4 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1312,70 +1312,35 @@ func (v *array) String() string {
 func (v *array) ToMap() dgo.Map {
 	ms := v.slice
 	top := len(ms)
-
-	ts := top / 2
-	if top%2 != 0 {
-		ts++
-	}
-	tbl := make([]*hashNode, tableSizeFor(ts))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: ts, frozen: v.frozen}
-
-	for i := 0; i < top; {
-		mk := ms[i]
-		i++
+	m := &hashMap{table: make([]*hashNode, tableSizeFor((top+1)/2))}
+	for i := 0; i < top; i += 2 {
 		var mv dgo.Value = Nil
-		if i < top {
-			mv = ms[i]
-			i++
-		}
-		hk := hl & hash(mk.HashCode())
-		nd := &hashNode{mapEntry: mapEntry{key: mk, value: mv}, hashNext: tbl[hk], prev: m.last}
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+		if i+1 < top {
+			mv = ms[i+1]
 		}
-		m.last = nd
-		tbl[hk] = nd
+		m.Put(ms[i], mv)
 	}
+	m.frozen = v.frozen
 	return m
 }
 
 func (v *array) ToMapFromEntries() (dgo.Map, bool) {
 	ms := v.slice
-	top := len(ms)
-	tbl := make([]*hashNode, tableSizeFor(top))
-	hl := len(tbl) - 1
-	m := &hashMap{table: tbl, len: top, frozen: v.frozen}
-
+	m := &hashMap{table: make([]*hashNode, tableSizeFor(len(ms)))}
 	for i := range ms {
-		nd, ok := ms[i].(*hashNode)
-		if !ok {
-			var ea *array
-			if ea, ok = ms[i].(*array); ok && len(ea.slice) == 2 {
-				nd = &hashNode{mapEntry: mapEntry{key: ea.slice[0], value: ea.slice[1]}}
-			} else {
+		switch e := ms[i].(type) {
+		case dgo.MapEntry:
+			m.Put(e.Key(), e.Value())
+		case *array:
+			if len(e.slice) != 2 {
 				return nil, false
 			}
-		} else if nd.hashNext != nil {
-			// Copy node, it belongs to another map
-			c := *nd
-			c.next = nil // this one might not get assigned below
-			nd = &c
-		}
-
-		hk := hl & hash(nd.key.HashCode())
-		nd.hashNext = tbl[hk]
-		nd.prev = m.last
-		if m.first == nil {
-			m.first = nd
-		} else {
-			m.last.next = nd
+			m.Put(e.slice[0], e.slice[1])
+		default:
+			return nil, false
 		}
-		m.last = nd
-		tbl[hk] = nd
 	}
+	m.frozen = v.frozen
 	return m, true
 }
 
-- 
2.43.0


From 57dd57aeda21dc8fce20b30fdc23f1644e3ce3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 009/137] fix: let the thawed copy of a map entry thaw the copy
 and leave the entry itself as it was

---
 internal/map.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 6bf7b22..89362b5 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -133,9 +133,7 @@ func (v *mapEntry) FrozenCopy() dgo.Value {
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
 	c := &mapEntry{key: v.key, value: v.value}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
@@ -150,9 +148,7 @@ func (v *hashNode) FrozenCopy() dgo.Value {
 
 func (v *hashNode) ThawedCopy() dgo.Value {
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
+	c.copyThaw()
 	return c
 }
 
-- 
2.43.0


From 4a99cc0f60ddbf292c55ccd124f5fe04268885f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 010/137] fix: freeze what With, Merge, and Map adds to a map
 derived from a frozen map, and let With add an association to nil

---
 internal/map.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 89362b5..7c59ff4 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -573,6 +573,9 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	g.resize(c, 0)
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
+		if g.frozen {
+			e.copyFreeze()
+		}
 	}
 	return c
 }
@@ -585,6 +588,9 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if l == 0 {
 		return associations
 	}
+	if g.frozen {
+		associations = associations.FrozenCopy().(dgo.Map)
+	}
 	c := &hashMap{len: l}
 	g.resize(c, l+associations.Len())
 	c.PutAll(associations)
@@ -794,10 +800,13 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 	var c *hashMap
 	key := Value(ki)
 	val := Value(vi)
+	if g.frozen {
+		val = frozenCopy(val)
+	}
 	if g.table == nil {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
-		if val.Equals(g.Get(key)) {
+		if old := g.Get(key); old != nil && val.Equals(old) {
 			return g
 		}
 		c = &hashMap{len: g.len}
-- 
2.43.0


From d502df24822f1362b279f3fddce03c41bd5bd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 011/137] fix: never share storage between arrays created using
 With and WithValues, and keep everything in arrays derived from a frozen
 array frozen

---
 internal/array.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index d86c3f4..7c8ee2d 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1146,6 +1146,9 @@ func (v *array) Map(mapper dgo.Mapper) dgo.Array {
 	vs := make([]dgo.Value, len(a))
 	for i := range a {
 		vs[i] = Value(mapper(a[i]))
+		if v.frozen {
+			vs[i] = frozenCopy(vs[i])
+		}
 	}
 	return &array{slice: vs, frozen: v.frozen}
 }
@@ -1392,19 +1395,23 @@ func (v *array) Pop() (dgo.Value, bool) {
 }
 
 func (v *array) With(vi interface{}) dgo.Array {
-	return &array{slice: append(v.slice, Value(vi)), frozen: v.frozen}
+	return v.WithValues(vi)
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 	if values.Len() == 0 {
 		return v
 	}
-	c := v.Copy(false)
 	if v.frozen {
+		// all elements are frozen already and must remain so
 		values = values.FrozenCopy().(dgo.Iterable)
+		c := &array{slice: util.SliceCopy(v.slice)}
+		c.AddAll(values)
+		c.frozen = true
+		return c
 	}
+	c := v.Copy(false)
 	c.AddAll(values)
-	c.(*array).frozen = v.frozen
 	return c
 }
 
@@ -1412,7 +1419,8 @@ func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
 		return v
 	}
-	return &array{slice: append(v.slice, valueSlice(values, v.frozen)...), frozen: v.frozen}
+	// the slice is copied since arrays that share storage could overwrite each others values
+	return &array{slice: append(util.SliceCopy(v.slice), valueSlice(values, v.frozen)...), frozen: v.frozen}
 }
 
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
-- 
2.43.0


From c0c87003feb9bc1931181bcdfd4914abeb5305bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 012/137] fix: let ContainsAll find the elements wherever they
 are in the array

---
 internal/array.go   | 14 +++++++-------
 internal/ternary.go |  5 ++---
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 7c8ee2d..1525414 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -981,23 +981,23 @@ func (v *array) deepContainsAll(seen []dgo.Value, other dgo.Iterable) bool {
 	// Keep track of elements that have been found equal using a copy
 	// where such elements are set to nil. This avoids excessive calls
 	// to Equals
-	for i := range vs {
+	missing := len(vs)
+	for i := range a {
+		if missing == 0 {
+			break
+		}
 		ea := a[i]
-		f := false
 		for j := range vs {
 			if be := vs[j]; be != nil {
 				if equals(seen, be, ea) {
 					vs[j] = nil
-					f = true
+					missing--
 					break
 				}
 			}
 		}
-		if !f {
-			return false
-		}
 	}
-	return true
+	return missing == 0
 }
 
 func (v *array) Each(actor dgo.Consumer) {
diff --git a/internal/ternary.go b/internal/ternary.go
index 30f0d2c..ecb47e1 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -151,9 +151,8 @@ func (t *allOfValueType) Assignable(other dgo.Type) bool {
 func (t *allOfValueType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	ts := t.slice
 	if ot, ok := other.(*allOfValueType); ok {
-		// Safe since explicit values only are assignable to themselves and excess elements
-		// in other only adds to the constraint
-		return (*array)(t).ContainsAll((*array)(ot))
+		// Explicit values are only assignable to themselves
+		return (*array)(t).SameValues((*array)(ot))
 	}
 	if ot, ok := other.(*allOfType); ok {
 		return lessRestrictive(guard, typeSlice(ts, valueAsType), typeSlice(ot.slice, typeAsType))
-- 
2.43.0


From ac693907260cc9d65130f36deb1065b1ce57ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 013/137] fix: reject a slice that ends beyond the last element
 of the array also when the capacity of the array permits it

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index 1525414..e3ccaf2 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1280,7 +1280,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 	if v.frozen && i == 0 && j == len(v.slice) {
 		return v
 	}
-	ss := v.slice[i:j]
+	ss := v.slice[i:j:len(v.slice)] // never reach beyond the last element
 	if !v.frozen {
 		// a copy is needed. Two non frozen arrays cannot share the same slice storage
 		ss = util.SliceCopy(ss)
-- 
2.43.0


From 4aeb14abcddce326148b941320ef08cb8e3794f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 014/137] fix: let operations that derive a new array or map
 from a mutable one never return the receiver itself

---
 internal/array.go | 25 +++++++++++++++++--------
 internal/map.go   | 23 +++++++++++++++++------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index e3ccaf2..62594e5 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1044,7 +1044,7 @@ func (v *array) Flatten() dgo.Array {
 			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
 		}
 	}
-	return v
+	return v.unchanged()
 }
 
 func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
@@ -1291,7 +1291,7 @@ func (v *array) Slice(i, j int) dgo.Array {
 func (v *array) Sort() dgo.Array {
 	sa := v.slice
 	if len(sa) < 2 {
-		return v
+		return v.unchanged()
 	}
 	sorted := util.SliceCopy(sa)
 	sort.SliceStable(sorted, func(i, j int) bool {
@@ -1357,7 +1357,7 @@ func (v *array) Unique() dgo.Array {
 	a := v.slice
 	top := len(a)
 	if top < 2 {
-		return v
+		return v.unchanged()
 	}
 	tbl := make([]*hashNode, tableSizeFor(int(float64(top)/loadFactor)))
 	hl := len(tbl) - 1
@@ -1378,7 +1378,7 @@ nextVal:
 		ui++
 	}
 	if ui == top {
-		return v
+		return v.unchanged()
 	}
 	return &array{slice: u[:ui], frozen: v.frozen}
 }
@@ -1399,10 +1399,10 @@ func (v *array) With(vi interface{}) dgo.Array {
 }
 
 func (v *array) WithAll(values dgo.Iterable) dgo.Array {
-	if values.Len() == 0 {
-		return v
-	}
 	if v.frozen {
+		if values.Len() == 0 {
+			return v
+		}
 		// all elements are frozen already and must remain so
 		values = values.FrozenCopy().(dgo.Iterable)
 		c := &array{slice: util.SliceCopy(v.slice)}
@@ -1417,12 +1417,21 @@ func (v *array) WithAll(values dgo.Iterable) dgo.Array {
 
 func (v *array) WithValues(values ...interface{}) dgo.Array {
 	if len(values) == 0 {
-		return v
+		return v.unchanged()
 	}
 	// the slice is copied since arrays that share storage could overwrite each others values
 	return &array{slice: append(util.SliceCopy(v.slice), valueSlice(values, v.frozen)...), frozen: v.frozen}
 }
 
+// unchanged is the result of an operation that had no effect on the elements of the receiver. Only a frozen
+// receiver can be returned as is.
+func (v *array) unchanged() dgo.Array {
+	if v.frozen {
+		return v
+	}
+	return &array{slice: util.SliceCopy(v.slice)}
+}
+
 // ReplaceNil performs an in-place replacement of nil interfaces with the NilValue
 func ReplaceNil(vs []dgo.Value) {
 	for i := range vs {
diff --git a/internal/map.go b/internal/map.go
index 7c59ff4..b18c731 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -582,10 +582,10 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 
 func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 	if associations.Len() == 0 || g == associations {
-		return g
+		return g.unchanged()
 	}
 	l := g.len
-	if l == 0 {
+	if l == 0 && g.frozen {
 		return associations
 	}
 	if g.frozen {
@@ -807,7 +807,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 		c = &hashMap{table: make([]*hashNode, tableSizeFor(initialCapacity)), len: g.len}
 	} else {
 		if old := g.Get(key); old != nil && val.Equals(old) {
-			return g
+			return g.unchanged()
 		}
 		c = &hashMap{len: g.len}
 		g.resize(c, 1)
@@ -820,7 +820,7 @@ func (g *hashMap) With(ki, vi interface{}) dgo.Map {
 func (g *hashMap) Without(ki interface{}) dgo.Map {
 	key := Value(ki)
 	if g.Get(key) == nil {
-		return g
+		return g.unchanged()
 	}
 	c := &hashMap{len: g.len}
 	g.resize(c, 0)
@@ -831,13 +831,13 @@ func (g *hashMap) Without(ki interface{}) dgo.Map {
 
 func (g *hashMap) WithoutAll(keys dgo.Array) dgo.Map {
 	if g.len == 0 || keys.Len() == 0 {
-		return g
+		return g.unchanged()
 	}
 	c := &hashMap{len: g.len}
 	g.resize(c, 0)
 	c.RemoveAll(keys)
 	if g.len == c.len {
-		return g
+		return g.unchanged()
 	}
 	c.frozen = g.frozen
 	return c
@@ -863,6 +863,17 @@ func (g *hashMap) values() []dgo.Value {
 	return ks
 }
 
+// unchanged is the result of an operation that had no effect on the associations of the receiver. Only a frozen
+// receiver can be returned as is.
+func (g *hashMap) unchanged() dgo.Map {
+	if g.frozen {
+		return g
+	}
+	c := &hashMap{len: g.len}
+	g.resize(c, 0)
+	return c
+}
+
 func (g *hashMap) resize(c *hashMap, capInc int) {
 	tbl := g.table
 	tl := tableSizeFor(len(tbl) + capInc)
-- 
2.43.0


From 9119e843a784eff0cce8fbbc83879c3d277294cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 015/137] fix: let a frozen array have a slice of its own so
 that wrapped or exposed slices cannot change it

---
 internal/array.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/array.go b/internal/array.go
index 62594e5..69a094d 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -1064,6 +1064,7 @@ func (v *array) Freeze() {
 		return
 	}
 	v.frozen = true
+	v.slice = util.SliceCopy(v.slice) // the slice might be known to others, see WrapSlice and GoSlice
 	a := v.slice
 	for i := range a {
 		if f, ok := a[i].(dgo.Freezable); ok {
-- 
2.43.0


From 973c817d717e6deeec28e14ecaaca9aa4c8c52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 016/137] fix: freeze the dgo values of a go map when creating
 a frozen map from it

---
 internal/map.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index b18c731..cc91b45 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -287,7 +287,15 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 	se := make([][2]dgo.Value, len(keys))
 	for i := range keys {
 		key := keys[i]
-		se[i] = [2]dgo.Value{ValueFromReflected(key), ValueFromReflected(rm.MapIndex(key))}
+		k := ValueFromReflected(key)
+		v := ValueFromReflected(rm.MapIndex(key))
+		if _, native := k.(dgo.Native); !native {
+			k = frozenCopy(k)
+		}
+		if _, native := v.(dgo.Native); frozen && !native {
+			v = frozenCopy(v)
+		}
+		se[i] = [2]dgo.Value{k, v}
 	}
 
 	// Sort by key to always get predictable order
-- 
2.43.0


From 3513afcff52df565e8ff8302c10557c6d85ea0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 017/137] fix: let an array created from a mutable map contain
 copies of the entries of the map

---
 internal/array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/array.go b/internal/array.go
index 69a094d..eb145e8 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -673,6 +673,10 @@ func Array(value interface{}) dgo.Array {
 	switch value := value.(type) {
 	case dgo.Array:
 		return value.FrozenCopy().(dgo.Array)
+	case *hashMap:
+		// the entries of a mutable map change when the map does, so use those of a frozen copy
+		fc := value.Copy(true)
+		return arrayFromIterator(fc.Len(), fc.Each)
 	case dgo.Iterable:
 		return arrayFromIterator(value.Len(), value.Each)
 	case []dgo.Value:
-- 
2.43.0


From 3879f2a32b3582267e71abd562344ce0b1df2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 018/137] fix: let strings and booleans compare to go nil and
 go booleans the way they compare to Nil and Boolean

---
 internal/boolean.go | 4 +++-
 internal/string.go  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/boolean.go b/internal/boolean.go
index 24c4c72..2824b86 100644
--- a/internal/boolean.go
+++ b/internal/boolean.go
@@ -118,7 +118,9 @@ func (v boolean) CompareTo(other interface{}) (r int, ok bool) {
 		} else if ov {
 			r = -1
 		}
-	case nilValue:
+	case bool:
+		return v.CompareTo(boolean(ov))
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
diff --git a/internal/string.go b/internal/string.go
index f6cd983..94f84a7 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -564,7 +564,7 @@ func (v *hstring) CompareTo(other interface{}) (r int, ok bool) {
 		default:
 			r = 0
 		}
-	case nilValue:
+	case nil, nilValue:
 		r = 1
 	default:
 		ok = false
-- 
2.43.0


From ab95b25be097a39b744ea0ea18db2a02564334ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 019/137] fix: compare an element that has no order to Nil the
 same way in both directions

---
 internal/array.go   | 4 ----
 internal/compare.go | 5 ++++-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index eb145e8..790197b 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -923,10 +923,6 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 	}
 
 	for i := 0; i < max; i++ {
-		if _, ok = a[i].(dgo.Comparable); !ok {
-			r = 0
-			break
-		}
 		var c int
 		if c, ok = compare(seen, a[i], b[i]); !ok {
 			r = 0
diff --git a/internal/compare.go b/internal/compare.go
index fc6b237..7ec7f47 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -157,7 +157,10 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 
 	da, ok := a.(deepCompare)
 	if !ok {
-		return a.(dgo.Comparable).CompareTo(b)
+		if ca, ok := a.(dgo.Comparable); ok {
+			return ca.CompareTo(b)
+		}
+		return 0, false
 	}
 
 	db, ok := b.(deepCompare)
-- 
2.43.0


From 1f02def835df416f7f173406964624983f2c8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:44 +0000
Subject: [PATCH 020/137] fix: report that NaN has no order instead of saying
 that it equals every number

---
 internal/float.go   | 4 ++--
 internal/integer.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 9ea6ae9..4b2ae9e 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -253,7 +253,7 @@ func (v floatVal) CompareTo(other interface{}) (int, bool) {
 		case fv < ov:
 			r = -1
 		}
-		return r, true
+		return r, fv == fv && ov == ov // NaN has no order
 	}
 
 	if oi, isInt := ToInt(other); isInt {
@@ -265,7 +265,7 @@ func (v floatVal) CompareTo(other interface{}) (int, bool) {
 		case fv < ov:
 			r = -1
 		}
-		return r, true
+		return r, fv == fv // NaN has no order
 	}
 
 	if other == Nil || other == nil {
diff --git a/internal/integer.go b/internal/integer.go
index c2efdd7..9dd1c5e 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -281,7 +281,7 @@ func (v intVal) CompareTo(other interface{}) (int, bool) {
 		case fv < ov:
 			r = -1
 		}
-		return r, true
+		return r, ov == ov // NaN has no order
 	}
 
 	if other == Nil || other == nil {
-- 
2.43.0


From b3bd3b857ef8cf3420e44122b775060fe170b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:11 +0000
Subject: [PATCH 021/137] fix: let an array type be assignable from an empty
 array and check the elements of a tuple one by one

---
 internal/array.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 790197b..de37ee1 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -189,10 +189,25 @@ func (t *sizedArrayType) Assignable(other dgo.Type) bool {
 
 func (t *sizedArrayType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	switch ot := other.(type) {
-	case defaultArrayType:
-		return false // lacks size
+	case dgo.TupleType:
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		if _, ok := t.elementType.(*allOfValueType); ok {
+			// The element type of an exact array, i.e. the set of its elements
+			return Assignable(guard, t.elementType, ot.ElementType())
+		}
+		if et, ok := ot.(*exactArrayType); ok {
+			return Instance(guard, t, et.value)
+		}
+		for i, n := 0, ot.Len(); i < n; i++ {
+			if !Assignable(guard, t.elementType, ot.Element(i)) {
+				return false
+			}
+		}
+		return true
 	case dgo.ArrayType:
-		return t.min <= ot.Min() && ot.Max() <= t.max && t.elementType.Assignable(ot.ElementType())
+		return t.min <= ot.Min() && ot.Max() <= t.max && Assignable(guard, t.elementType, ot.ElementType())
 	}
 	return CheckAssignableTo(guard, other, t)
 }
-- 
2.43.0


From 9d595ba609e7a9f6be51a40eca6d9e9de51611b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 022/137] fix: check the type of the remaining elements when a
 variadic tuple is assigned to another

---
 internal/array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/array.go b/internal/array.go
index de37ee1..8a844db 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -456,7 +456,7 @@ func tupleAssignableTuple(guard dgo.RecursionGuard, t, ot dgo.TupleType) bool {
 			return false
 		}
 	}
-	return true
+	return ov == nil || Assignable(guard, tv, ov)
 }
 
 func tupleAssignableArray(guard dgo.RecursionGuard, t dgo.TupleType, ot *sizedArrayType) bool {
-- 
2.43.0


From c337ddfe5736e22f3ebfb3da95c11cf5488dfda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 023/137] fix: never let a struct type without additional
 entries be assignable from one that allows them

---
 internal/mapstruct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index ccee25b..c9c2c77 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -197,7 +197,7 @@ func (t *structType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bo
 				return false
 			}
 		}
-		return t.additional || oc == len(oks)
+		return t.additional || !ot.additional && oc == len(oks)
 	case *exactMapType:
 		ov := ot.value
 		return Instance(guard, t, ov)
@@ -299,7 +299,7 @@ func (t *structType) Len() int {
 
 func (t *structType) Max() int {
 	m := len(t.required)
-	if m == 0 || t.additional {
+	if t.additional {
 		return math.MaxInt64
 	}
 	return m
-- 
2.43.0


From dd6001caf9268cd41fbc676943932333618cd636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:52 +0000
Subject: [PATCH 024/137] fix: check the entries of a struct type one by one
 and let map types be assignable from empty maps and struct types

---
 internal/map.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index cc91b45..7965251 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1049,7 +1049,19 @@ func (t *sizedMapType) Assignable(other dgo.Type) bool {
 }
 
 func (t *sizedMapType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
-	if ot, ok := other.(dgo.MapType); ok {
+	switch ot := other.(type) {
+	case *exactMapType:
+		return Instance(guard, t, ot.value)
+	case dgo.StructMapType:
+		if t.min > ot.Min() || ot.Max() > t.max {
+			return false
+		}
+		ok := !ot.Additional() || Assignable(guard, t.keyType, DefaultAnyType) && Assignable(guard, t.valueType, DefaultAnyType)
+		ot.Each(func(e dgo.StructMapEntry) {
+			ok = ok && Assignable(guard, t.keyType, e.Key().(dgo.Type)) && Assignable(guard, t.valueType, e.Value().(dgo.Type))
+		})
+		return ok
+	case dgo.MapType:
 		return t.min <= ot.Min() && ot.Max() <= t.max &&
 			Assignable(guard, t.keyType, ot.KeyType()) && Assignable(guard, t.valueType, ot.ValueType())
 	}
@@ -1169,7 +1181,7 @@ const DefaultMapType = defaultMapType(0)
 
 func (t defaultMapType) Assignable(other dgo.Type) bool {
 	switch other.(type) {
-	case defaultMapType, *sizedMapType, *exactMapType:
+	case defaultMapType, *sizedMapType, *exactMapType, *structType:
 		return true
 	}
 	return CheckAssignableTo(nil, other, t)
-- 
2.43.0


From 9f28724ecef91cd49e17df132e1788d6755e8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:11 +0000
Subject: [PATCH 025/137] fix: let the guard against endless recursion
 recognize the same pair instead of two unrelated recursions

---
 dgo/primitive.go    |  6 +++---
 internal/compare.go | 32 ++++++++++++++------------------
 internal/type.go    |  3 ---
 3 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/dgo/primitive.go b/dgo/primitive.go
index 69d9454..ac29ff0 100644
--- a/dgo/primitive.go
+++ b/dgo/primitive.go
@@ -142,13 +142,13 @@ type (
 	}
 
 	// RecursionGuard guards against endless recursion when checking if one deep type is assignable to another.
-	// A Hit is detected once both a and b has been added more than once (can be on separate calls to Append). The
-	// RecursionGuard is in itself immutable.
+	// A Hit is detected once the same pair of a and b has been added more than once. The RecursionGuard is in itself
+	// immutable.
 	RecursionGuard interface {
 		// Append creates a new RecursionGuard guaranteed to contain both a and b. The new instance is returned.
 		Append(a, b Value) RecursionGuard
 
-		// Hit returns true if both a and b has been appended more than once.
+		// Hit returns true if the same pair of a and b has been appended more than once.
 		Hit() bool
 
 		// Swap returns the guard with its two internal guards for a and b swapped.
diff --git a/internal/compare.go b/internal/compare.go
index 7ec7f47..99337ce 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -12,36 +12,32 @@ type deepEqual interface {
 	deepHashCode(seen []dgo.Value) int
 }
 
+// doubleSeen guards against endless recursion by detecting when the same pair of values occurs more than once
 type doubleSeen struct {
-	aSeen   []dgo.Value
-	bSeen   []dgo.Value
-	seenInA bool
-	seenInB bool
+	aSeen []dgo.Value
+	bSeen []dgo.Value
+	hit   bool
 }
 
 func (s *doubleSeen) Hit() bool {
-	return s.seenInA && s.seenInB
+	return s.hit
 }
 
 func (s *doubleSeen) Append(a, b dgo.Value) dgo.RecursionGuard {
-	if !s.seenInA {
-		s.seenInA = util.RecursionHit(s.aSeen, a)
+	if s.hit {
+		return s
 	}
-	if !s.seenInB {
-		s.seenInB = util.RecursionHit(s.bSeen, b)
-	}
-	c := *s
-	if !c.seenInA {
-		c.aSeen = append(c.aSeen, a)
-	}
-	if !c.seenInB {
-		c.bSeen = append(c.bSeen, b)
+	for i := range s.aSeen {
+		// A recursive type that contains itself is also a hit
+		if a == s.aSeen[i] && (b == s.bSeen[i] || b == a) {
+			return &doubleSeen{aSeen: s.aSeen, bSeen: s.bSeen, hit: true}
+		}
 	}
-	return &c
+	return &doubleSeen{aSeen: append(s.aSeen, a), bSeen: append(s.bSeen, b)}
 }
 
 func (s *doubleSeen) Swap() dgo.RecursionGuard {
-	return &doubleSeen{seenInA: s.seenInB, seenInB: s.seenInA, aSeen: s.bSeen, bSeen: s.aSeen}
+	return &doubleSeen{aSeen: s.bSeen, bSeen: s.aSeen, hit: s.hit}
 }
 
 type deepCompare interface {
diff --git a/internal/type.go b/internal/type.go
index 07085ac..e108ebb 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -14,9 +14,6 @@ import (
 // argument. Otherwise, this goFunc returns false
 func CheckAssignableTo(guard dgo.RecursionGuard, t, other dgo.Type) bool {
 	if lt, ok := t.(dgo.ReverseAssignable); ok {
-		if guard != nil {
-			guard = guard.Swap()
-		}
 		return lt.AssignableTo(guard, other)
 	}
 	return false
-- 
2.43.0


From ed5e0f80692b5e19765d6b615f43bb28d1ac9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 026/137] fix: let the float type be assignable from
 alternatives of float types like all other types are

---
 internal/float.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/float.go b/internal/float.go
index 4b2ae9e..b6de333 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -179,7 +179,7 @@ func (t defaultFloatType) Assignable(other dgo.Type) bool {
 	case defaultFloatType, *exactFloatType, *floatType:
 		return true
 	}
-	return false
+	return CheckAssignableTo(nil, other, t)
 }
 
 func (t defaultFloatType) Equals(other interface{}) bool {
-- 
2.43.0


From 9e84b958cd25820108022fcb624fffb97859e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 027/137] fix: make the generic form of the type of a binary
 the binary type

---
 internal/binary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 20c00ab..0643e36 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -147,6 +147,10 @@ func (t *binaryType) Unbounded() bool {
 	return t.min == 0 && t.max == math.MaxInt64
 }
 
+func (v *exactBinaryType) Generic() dgo.Type {
+	return DefaultBinaryType
+}
+
 func (v *exactBinaryType) IsInstance(b []byte) bool {
 	return bytes.Equal(v.value.bytes, b)
 }
-- 
2.43.0


From b7b81ebd05c1b3e8cde3e4a4a74972d18babdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 028/137] fix: let the generic form of a struct type with
 additional entries be the map type

---
 internal/mapstruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index c9c2c77..e31e7b5 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -229,6 +229,10 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	if t.additional {
+		// additional entries can have keys and values of any type
+		return DefaultMapType
+	}
 	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
 }
 
-- 
2.43.0


From 34a0b75ffa7199cfdf1f26e79391442d4add4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 029/137] fix: find the common generic type also when a less
 generic type comes first

---
 internal/ternary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ternary.go b/internal/ternary.go
index ecb47e1..24aa628 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -492,7 +492,7 @@ func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
 				// prev is equal or more generic
 				continue
 			}
-			if !prev.Assignable(rt) {
+			if !rt.Assignable(prev) {
 				// prev is not compatible. Fall back to Any
 				return DefaultAnyType
 			}
-- 
2.43.0


From bb32ec812e20f8246785ec5f82362e7b4a112975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 030/137] fix: accept all escapes that the text of a string
 type contains

---
 parser/lexer.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cd0ffdc..c8ebee8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/lyraproj/dgo/internal"
 
@@ -332,7 +333,7 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 		case 0:
 			panic(errors.New("unterminated string"))
 		case '\\':
-			consumeEscape(sr.Next(), buf, end)
+			consumeEscape(sr, buf, end)
 		case '\n':
 			panic(errors.New("unterminated string"))
 		default:
@@ -341,16 +342,32 @@ func ConsumeString(sr *util.StringReader, end rune) string {
 	}
 }
 
-func consumeEscape(r rune, buf io.Writer, end rune) {
+func consumeEscape(sr *util.StringReader, buf io.Writer, end rune) {
+	r := sr.Next()
 	switch r {
 	case 0:
 		panic(errors.New("unterminated string"))
+	case 'a':
+		r = '\a'
+	case 'b':
+		r = '\b'
+	case 'f':
+		r = '\f'
 	case 'n':
 		r = '\n'
 	case 'r':
 		r = '\r'
 	case 't':
 		r = '\t'
+	case 'v':
+		r = '\v'
+	case 'x':
+		util.WriteByte(buf, byte(consumeHexEscape(sr, r, 2)))
+		return
+	case 'u':
+		r = consumeHexEscape(sr, r, 4)
+	case 'U':
+		r = consumeHexEscape(sr, r, 8)
 	case '\\':
 	default:
 		if r != end {
@@ -360,6 +377,26 @@ func consumeEscape(r rune, buf io.Writer, end rune) {
 	util.WriteRune(buf, r)
 }
 
+// consumeHexEscape consumes exactly n hex digits and returns the rune that they denote
+func consumeHexEscape(sr *util.StringReader, esc rune, n int) rune {
+	ds := make([]byte, n)
+	for i := range ds {
+		r := sr.Next()
+		if r == 0 {
+			panic(errors.New("unterminated string"))
+		}
+		if !IsHex(r) {
+			panic(fmt.Errorf("illegal escape '\\%c'", esc))
+		}
+		ds[i] = byte(r)
+	}
+	v, _ := strconv.ParseUint(string(ds), 16, 32)
+	if v > utf8.MaxRune || !utf8.ValidRune(rune(v)) {
+		panic(fmt.Errorf("illegal escape '\\%c'", esc))
+	}
+	return rune(v)
+}
+
 func consumeRawString(sr *util.StringReader) string {
 	buf := bytes.NewBufferString(``)
 	for {
-- 
2.43.0


From cbaf4e81e9675e2b827f54b8025c327379f64712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 031/137] fix: parse literal map keys that aren't strings, and
 optional keys other than strings, as what they are

---
 parser/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index caaba22..91a29bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -15,6 +15,7 @@ import (
 // States:
 const (
 	exListComma = iota
+	exColon
 	exListEnd
 	exParamsComma
 	exLeftBracket
@@ -48,6 +49,8 @@ var NewCall = internal.NewCall
 
 func expect(state int) (s string) {
 	switch state {
+	case exColon:
+		s = `':'`
 	case exParamsComma:
 		s = `one of ',' or ']'`
 	case exLeftBracket:
@@ -388,7 +391,7 @@ func (p *parser) params() {
 func (p *parser) arrayElement(t *Token, expectEntry int) int {
 	var key dgo.Value
 	nt := p.PeekToken()
-	if t.Type == identifier && nt.Type == ':' || nt.Type == '?' {
+	if t.Type == identifier && (nt.Type == ':' || nt.Type == '?') && !isLiteral(t.Value) {
 		if expectEntry == 0 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
@@ -420,6 +423,9 @@ func (p *parser) arrayElement(t *Token, expectEntry int) int {
 		p.Append(internal.NewMapEntry(key, val))
 		expectEntry = 2
 	} else {
+		if optional {
+			panic(badSyntax(p.PeekToken(), exColon))
+		}
 		if expectEntry == 2 {
 			panic(errors.New(`mix of elements and map entries`))
 		}
@@ -606,6 +612,11 @@ var identifierToTypeMap = map[string]dgo.Value{
 	`nil`:    internal.Nil,
 }
 
+// isLiteral returns true if the given identifier denotes a value rather than a type
+func isLiteral(id string) bool {
+	return id == `true` || id == `false` || id == `nil`
+}
+
 func (p *parser) identifier(t *Token, returnUnknown bool) dgo.Value {
 	tp, ok := identifierToTypeMap[t.Value]
 	if ok {
-- 
2.43.0


From 4dc5c28deb3bf17a5d2eee8891b64b7308ff5f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 032/137] fix: read the unicode replacement character like any
 other character

---
 util/reader.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/util/reader.go b/util/reader.go
index 601b305..facb179 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -38,7 +38,7 @@ func (r *StringReader) Next() rune {
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && size == 1 {
 			panic(errors.New("unicode error"))
 		}
 		r.p += size
@@ -54,8 +54,9 @@ func (r *StringReader) Peek() rune {
 	}
 	c := rune(r.s[r.p])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		var sz int
+		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
@@ -71,7 +72,7 @@ func (r *StringReader) Peek2() rune {
 	var sz int
 	if c >= utf8.RuneSelf {
 		c, sz = utf8.DecodeRuneInString(r.s[r.p:])
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	} else {
@@ -85,8 +86,8 @@ func (r *StringReader) Peek2() rune {
 
 	c = rune(r.s[np])
 	if c >= utf8.RuneSelf {
-		c, _ = utf8.DecodeRuneInString(r.s[np:])
-		if c == utf8.RuneError {
+		c, sz = utf8.DecodeRuneInString(r.s[np:])
+		if c == utf8.RuneError && sz == 1 {
 			panic(errors.New("unicode error"))
 		}
 	}
-- 
2.43.0


From 03e802255211fab762bcd54c875a49c4f800d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 033/137] fix: accept a float in exponent notation as the start
 of a range

---
 parser/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index c8ebee8..730ce95 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -160,6 +160,9 @@ func consumeUnsignedInteger(sr *util.StringReader, buf io.Writer) {
 	for {
 		r := sr.Peek()
 		switch {
+		case r == '.' && sr.Peek2() == '.':
+			// a range operator
+			return
 		case r == '.' || IsLetter(r):
 			panic(badToken(r))
 		case IsDigit(r):
-- 
2.43.0


From 03f0f814fde38e693f8d8fe046935b38af7db202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 034/137] fix: do not swallow the token after a float range
 without upper bound

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 91a29bd..d168657 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -666,7 +666,6 @@ func (p *parser) float(t *Token) dgo.Value {
 			p.NextToken()
 			tp = internal.FloatType(f, tokenFloat(n), inclusive)
 		} else {
-			p.NextToken()
 			tp = internal.FloatType(f, math.MaxFloat64, inclusive) // Unbounded at upper end
 		}
 	} else {
-- 
2.43.0


From b1ae6d39bf27ae70e86ad1f06bb374fddecf45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:31 +0000
Subject: [PATCH 035/137] fix: write the lower bound of an exclusive range so
 that it isn't taken for an ellipsis

---
 stringer/typestring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 7a87702..d3e9053 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -339,7 +339,7 @@ func (sb *typeBuilder) writeSizeBoundaries(min, max int64) {
 }
 
 func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
-	if min != math.MinInt64 {
+	if min != math.MinInt64 || !inclusive { // an initial ... would denote something else in a tuple or struct
 		util.WriteString(sb, strconv.FormatInt(min, 10))
 	}
 	op := `...`
@@ -353,7 +353,7 @@ func (sb *typeBuilder) writeIntRange(min, max int64, inclusive bool) {
 }
 
 func (sb *typeBuilder) writeFloatRange(min, max float64, inclusive bool) {
-	if min != -math.MaxFloat64 {
+	if min != -math.MaxFloat64 || !inclusive { // an initial ... would denote something else in a tuple or struct
 		util.WriteString(sb, util.Ftoa(min))
 	}
 	op := `...`
-- 
2.43.0


From 2610f7267bbee4d68332e7109423dbf503eee3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:59 +0000
Subject: [PATCH 036/137] fix: accept negated and case insensitive types as
 element and value types

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d168657..0b1aa70 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -526,7 +526,7 @@ func (p *parser) mapExpression() dgo.Value {
 		panic(badSyntax(n, exRightBracket))
 	}
 
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params := internal.WrapSlice([]dgo.Value{keyType, p.PopLastType()})
 	if szc != nil {
 		params.AddAll(szc)
@@ -718,7 +718,7 @@ func (p *parser) dotRange(t *Token) dgo.Value {
 func (p *parser) array() dgo.Value {
 	p.params()
 	params := p.PopLast().(dgo.Array)
-	p.typeExpression(p.NextToken())
+	p.unary(p.NextToken())
 	params.Insert(0, p.PopLastType())
 	return internal.ArrayType(params.InterfaceSlice())
 }
-- 
2.43.0


From 10f1457404ee363f12333cacf7163d7f488e3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 037/137] fix: accept a negation of a negated type

---
 parser/parser.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0b1aa70..b04d82b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -480,12 +480,12 @@ func (p *parser) allOf(t *Token) {
 }
 
 func (p *parser) unary(t *Token) {
-	negate := false
-	ciString := false
 	if t.Type == '!' {
-		negate = true
-		t = p.NextToken()
+		p.unary(p.NextToken())
+		p.Append(internal.NotType(p.PopLastType()))
+		return
 	}
+	ciString := false
 	if t.Type == '~' {
 		ciString = true
 		t = p.NextToken()
@@ -500,10 +500,6 @@ func (p *parser) unary(t *Token) {
 			panic(badSyntax(t, exStringLiteral))
 		}
 	}
-	if negate {
-		nt := internal.NotType(p.PopLastType())
-		p.Append(nt)
-	}
 }
 
 func (p *parser) mapExpression() dgo.Value {
-- 
2.43.0


From ec99d6e06122d13d2f2badf2831ea8a0ff36e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:42 +0000
Subject: [PATCH 038/137] fix: write the return type of a function so that it
 is read back as such

---
 stringer/typestring.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index d3e9053..d566055 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -230,11 +230,15 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 	out := ft.Out()
 	if out.Len() > 0 {
 		util.WriteByte(sb, ' ')
-		if out.Len() == 1 && !out.Variadic() {
-			sb.buildTypeString(out.Element(0), prio)
-		} else {
-			sb.writeTupleArgs(ft.Out(), '(', ')')
+		if out.Len() == 1 && !out.Variadic() && prio == commaPrio {
+			s := sb.substring(out.Element(0), prio)
+			if s[0] != '(' {
+				util.WriteString(sb, s)
+				return
+			}
+			// a leading parenthesis would be taken for the start of a list of return types
 		}
+		sb.writeTupleArgs(out, '(', ')')
 	}
 }
 
@@ -397,6 +401,16 @@ func (sb *typeBuilder) writeTernary(typ dgo.Type, tc func(dgo.Value) dgo.Type, p
 	}
 }
 
+// substring returns what buildTypeString would write
+func (sb *typeBuilder) substring(typ dgo.Type, prio int) string {
+	w := sb.Writer
+	defer func() { sb.Writer = w }()
+	s := &strings.Builder{}
+	sb.Writer = s
+	sb.buildTypeString(typ, prio)
+	return s.String()
+}
+
 func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 	if tn := sb.aliasMap.GetName(typ); tn != nil {
 		util.WriteString(sb, tn.GoString())
-- 
2.43.0


From 2cc4d940cf2e60ee9be864910591dea505527adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:09 +0000
Subject: [PATCH 039/137] fix: reject numbers that cannot be represented and
 read the bounds of a float range in the notation they are written in

---
 parser/parser.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b04d82b..0f26500 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -795,12 +795,21 @@ func (p *parser) typeExpression(t *Token) {
 }
 
 func tokenInt(t *Token) int64 {
-	i, _ := strconv.ParseInt(t.Value, 0, 64)
+	i, err := strconv.ParseInt(t.Value, 0, 64)
+	if err != nil {
+		panic(fmt.Errorf(`illegal integer %s`, t.Value))
+	}
 	return i
 }
 
 func tokenFloat(t *Token) float64 {
-	f, _ := strconv.ParseFloat(t.Value, 64)
+	if t.Type == integer {
+		return float64(tokenInt(t))
+	}
+	f, err := strconv.ParseFloat(t.Value, 64)
+	if err != nil {
+		panic(fmt.Errorf(`illegal float %s`, t.Value))
+	}
 	return f
 }
 
-- 
2.43.0


From d233ad007edd63738a38585bd384400705c501a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:59 +0000
Subject: [PATCH 040/137] fix: count columns from one on every line

---
 util/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/reader.go b/util/reader.go
index facb179..fa7571a 100644
--- a/util/reader.go
+++ b/util/reader.go
@@ -33,8 +33,9 @@ func (r *StringReader) Next() rune {
 		if c == '\n' {
 			r.l++
 			r.c = 0
+		} else {
+			r.c++
 		}
-		r.c++
 	} else {
 		var size int
 		c, size = utf8.DecodeRuneInString(r.s[r.p:])
-- 
2.43.0


From 5dc32b3a667eb996d1f215259c89bc1a5d8e159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:00 +0000
Subject: [PATCH 041/137] fix: never report a column before the first one

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0f26500..201ecfa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -168,7 +168,12 @@ func DoParse(p Parser, fileName string) dgo.Value {
 			if fileName != `` || sr.Line() > 1 {
 				ln = fmt.Sprintf(`line: %d, `, sr.Line())
 			}
-			panic(fmt.Errorf("%s: (%s%scolumn: %d)", es, fn, ln, sr.Column()-tl))
+			col := sr.Column() - tl
+			if col < 1 {
+				// the token starts on a previous line or no token was produced
+				col = 1
+			}
+			panic(fmt.Errorf("%s: (%s%scolumn: %d)", es, fn, ln, col))
 		}
 	}()
 	p.Parse(p.NextToken())
-- 
2.43.0


From ee30810b6e88b0faecf1c7e1993fa9fd52151094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 042/137] fix: resolve type aliases in function types and
 sensitive types

---
 internal/function.go  | 8 ++++++++
 internal/sensitive.go | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/internal/function.go b/internal/function.go
index e843196..59dbaf4 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -269,6 +269,14 @@ func (t *functionType) Out() dgo.TupleType {
 	return t.returns
 }
 
+func (t *functionType) Resolve(ap dgo.AliasAdder) {
+	for _, tt := range []dgo.TupleType{t.arguments, t.returns} {
+		if ac, ok := tt.(dgo.AliasContainer); ok && tt != EmptyTupleType {
+			ac.Resolve(ap)
+		}
+	}
+}
+
 func (t *functionType) ReflectType() reflect.Type {
 	// There is currently no way to build a goFunc type dynamically
 	panic(errors.New(`unable to build reflect.Type of go func dynamically`))
diff --git a/internal/sensitive.go b/internal/sensitive.go
index b0966d7..0783ae3 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -95,6 +95,15 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 	return Sensitive(arg)
 }
 
+func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
+	w := t.wrapped
+	if w == DefaultAnyType {
+		return
+	}
+	t.wrapped = DefaultAnyType
+	t.wrapped = ap.Replace(w).(dgo.Type)
+}
+
 func (t *sensitiveType) String() string {
 	return TypeString(t)
 }
-- 
2.43.0


From 84ca928cfbde88ff22a2f42a9e2851b780fc10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 043/137] fix: reject elements that follow a variadic element

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 201ecfa..d7863a9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -289,6 +289,12 @@ func (p *parser) list(endChar int) {
 			expectEntry = 0
 			p.anyOf(t)
 			t = p.NextToken()
+			if t.Type != endChar {
+				if endChar == ')' {
+					panic(badSyntax(t, exRightParen))
+				}
+				panic(badSyntax(t, exListEnd))
+			}
 			et := internal.ArrayType([]interface{}{p.PopLastType(), 0, math.MaxInt64})
 			p.Append(et)
 		}
-- 
2.43.0


From 1fdf67cf1c96ed345041825e95f9937620863d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 044/137] fix: resolve type aliases in sensitive values

---
 internal/sensitive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 0783ae3..8b60c6f 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -132,6 +132,11 @@ func (v *sensitive) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	return false
 }
 
+// Resolve resolves type aliases in the wrapped value
+func (v *sensitive) Resolve(ap dgo.AliasAdder) {
+	v.value = ap.Replace(v.value)
+}
+
 func (v *sensitive) Freeze() {
 	if f, ok := v.value.(dgo.Freezable); ok {
 		f.Freeze()
-- 
2.43.0


From 7c8227a1cfe7d109a718e441369bf2f35fe981c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:16 +0000
Subject: [PATCH 045/137] fix: reject control characters that have the same
 code as a type of token

---
 parser/lexer.go         | 3 +++
 streamer/pcore/lexer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 730ce95..0a08a6a 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -151,6 +151,9 @@ func buildToken(r rune, sr *util.StringReader) *Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &Token{buf.String(), identifier}
+	case r <= dotdotdot:
+		// must not be confused with the token types
+		panic(badToken(r))
 	default:
 		return &Token{Type: int(r)}
 	}
diff --git a/streamer/pcore/lexer.go b/streamer/pcore/lexer.go
index e5750eb..11ca09d 100644
--- a/streamer/pcore/lexer.go
+++ b/streamer/pcore/lexer.go
@@ -106,6 +106,9 @@ func buildToken(r rune, sr *util.StringReader) *parser.Token {
 		buf := bytes.NewBufferString(``)
 		consumeIdentifier(sr, r, buf)
 		return &parser.Token{Value: buf.String(), Type: identifier}
+	case r <= rocket:
+		// must not be confused with the token types
+		panic(badToken(r))
 	default:
 		return &parser.Token{Type: int(r)}
 	}
-- 
2.43.0


From d9b8c05f932c4db1ab3c387c6fc5b41511e379e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 046/137] fix: Reject a pcore alias that is not declared as a
 type

---
 streamer/pcore/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index ec99084..4587b1a 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -192,8 +192,11 @@ func (p *pcoreParser) aliasDeclaration(t *parser.Token) dgo.Value {
 			if am.GetType(s) == nil {
 				am.Add(parser.NewAlias(s), s)
 				p.element(p.NextToken())
-				tp := p.PopLast()
-				am.Add(tp.(dgo.Type), s)
+				tp, ok := p.PopLast().(dgo.Type)
+				if !ok {
+					panic(fmt.Errorf(`alias '%s' is not declared as a type`, t.Value))
+				}
+				am.Add(tp, s)
 				return tp
 			}
 		}
-- 
2.43.0


From ed6a8c6dc73fa023899de11cc0ed5f417969ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 047/137] fix: Reject pcore numbers that cannot be represented

---
 streamer/pcore/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 4587b1a..171eb5a 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -211,10 +211,16 @@ func (p *pcoreParser) element(t *parser.Token) {
 	case '[':
 		p.array()
 	case integer:
-		i, _ := strconv.ParseInt(t.Value, 0, 64)
+		i, err := strconv.ParseInt(t.Value, 0, 64)
+		if err != nil {
+			panic(fmt.Errorf(`illegal integer %s`, t.Value))
+		}
 		p.Append(vf.Integer(i))
 	case float:
-		f, _ := strconv.ParseFloat(t.Value, 64)
+		f, err := strconv.ParseFloat(t.Value, 64)
+		if err != nil {
+			panic(fmt.Errorf(`illegal float %s`, t.Value))
+		}
 		p.Append(vf.Float(f))
 	case identifier:
 		p.identifier(t)
-- 
2.43.0


From e0eb94365341d60245bd430a9158b6cc5e00f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 048/137] fix: Resolve aliases in the keys of a map

---
 internal/map.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index 7965251..530374e 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -786,9 +786,24 @@ func (g *hashMap) RemoveAll(keys dgo.Array) {
 }
 
 func (g *hashMap) Resolve(ap dgo.AliasAdder) {
+	rehash := false
 	for e := g.first; e != nil; e = e.next {
+		switch e.key.(type) {
+		case dgo.Alias, dgo.AliasContainer:
+			h := e.key.HashCode()
+			e.key = ap.Replace(e.key)
+			rehash = rehash || h != e.key.HashCode()
+		}
 		e.value = ap.Replace(e.value)
 	}
+	if rehash {
+		c := &hashMap{}
+		for e := g.first; e != nil; e = e.next {
+			c.Put(e.key, e.value)
+		}
+		c.frozen = g.frozen
+		*g = *c
+	}
 }
 
 func (g *hashMap) String() string {
-- 
2.43.0


From 4efdd603bf6ed0f6d0c86ec166b24e742d1b5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:39 +0000
Subject: [PATCH 049/137] fix: Don't index outside of the arguments of a pcore
 Tuple or Callable

---
 streamer/pcore/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 171eb5a..961086b 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -322,12 +322,17 @@ func callableType(p *pcoreParser) dgo.Value {
 	args := p.PopLast().(dgo.Array)
 	if args.Len() == 2 {
 		if params, ok := args.Get(0).(dgo.Array); ok {
-			rt = args.Get(1).(dgo.Type)
+			if rt, ok = args.Get(1).(dgo.Type); !ok {
+				panic(tf.IllegalAssignment(typ.Type, args.Get(1)))
+			}
 			args = params
 		}
 	}
 
 	argc := args.Len()
+	if argc == 0 {
+		return tf.Function(typ.EmptyTuple, returnType(rt))
+	}
 	if block, ok := args.Get(argc - 1).(dgo.FunctionType); ok && argc > 1 {
 		// In Puppet, if the last argument is a Function, then it is considered
 		// to be a block. Such a block is not a proper argument and may hence
@@ -755,6 +760,9 @@ func convertMapEntries(av dgo.Array) dgo.Array {
 }
 
 func getIfInt(args dgo.Array, arg int, dflt int64) (int64, bool) {
+	if arg < 0 || arg >= args.Len() {
+		return 0, false
+	}
 	switch v := args.Get(arg).(type) {
 	case dgo.Integer:
 		return v.GoInt(), true
-- 
2.43.0


From 00c074087efb299b71b0f3bc5586ee41ecc6fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 050/137] fix: Don't fail when resolving the meta type of a
 meta type

---
 internal/meta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/meta.go b/internal/meta.go
index a34bd8d..f37c159 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -112,6 +112,9 @@ func (t *metaType) ReflectType() reflect.Type {
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
 	tp := t.tp
+	if tp == nil {
+		return
+	}
 	t.tp = DefaultAnyType
 	t.tp = ap.Replace(tp).(dgo.Type)
 }
-- 
2.43.0


From 2a063fdda00bef713d789257384919786150c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:49 +0000
Subject: [PATCH 051/137] fix: Don't expose the implementation of a value as a
 map of its fields

---
 internal/map.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 530374e..3074685 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -244,12 +244,19 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 			return m
 		}
 		rm := reflect.ValueOf(a0)
+		switch a0 := a0.(type) {
+		case dgo.Map:
+			return a0.Copy(frozen)
+		case *native:
+			rm = reflect.Value(*a0)
+		}
 		switch rm.Kind() {
 		case reflect.Map:
 			return FromReflectedMap(rm, frozen).(dgo.Map)
 		case reflect.Ptr:
 			re := rm.Elem()
-			if re.Kind() == reflect.Struct {
+			// the structs of this package are implementations of other values
+			if re.Kind() == reflect.Struct && re.Type().PkgPath() != reflect.TypeOf(hashMap{}).PkgPath() {
 				return FromReflectedStruct(re)
 			}
 		case reflect.Struct:
-- 
2.43.0


From 0c798e35fa99fed76d1f06860807096fa97f84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:52 +0000
Subject: [PATCH 052/137] fix: Report that a value isn't an array instead of
 failing with a type assertion

---
 internal/array.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 8a844db..c4b5151 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -707,12 +707,20 @@ func Array(value interface{}) dgo.Array {
 		}
 		return &array{slice: arr, frozen: true}
 	case reflect.Value:
-		return ValueFromReflected(value).(dgo.Array)
+		return arrayFromReflected(value)
 	default:
-		return ValueFromReflected(reflect.ValueOf(value)).(dgo.Array)
+		return arrayFromReflected(reflect.ValueOf(value))
 	}
 }
 
+func arrayFromReflected(rv reflect.Value) dgo.Array {
+	v := ValueFromReflected(rv)
+	if a, ok := v.(dgo.Array); ok {
+		return a
+	}
+	panic(IllegalAssignment(DefaultArrayType, v))
+}
+
 // arrayFromIterator creates an array from a size and an iterator goFunc. The
 // iterator goFunc is expected to call its actor exactly size number of times.
 func arrayFromIterator(size int, each func(dgo.Consumer)) *array {
-- 
2.43.0


From fb37afeb9038452b36c643d4b5c12889fc118207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:13 +0000
Subject: [PATCH 053/137] fix: Resolve the aliases in the arguments of a pcore
 call

---
 internal/alias.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8d21fd4..8cc035d 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -209,7 +209,7 @@ func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	switch t := t.(type) {
 	case *deferredCall:
-		return New(t.dType, t.args)
+		return New(a.Replace(t.dType).(dgo.Type), a.Replace(t.args))
 	case dgo.Alias:
 		if ra := a.GetType(t.Reference()); ra != nil {
 			return ra
-- 
2.43.0


From 359cf0afa34473fe56e0d9f70ee65a422772846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:16 +0000
Subject: [PATCH 054/137] fix: Reject an alias that is defined using nothing
 but itself

---
 internal/alias.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8cc035d..6acbec7 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -206,15 +206,27 @@ func (a *aliasAdder) GetType(n dgo.String) dgo.Type {
 	return a.backingMap.GetType(n)
 }
 
+func (a *aliasAdder) replaceAlias(t dgo.Alias) dgo.Type {
+	for n := a.namedTypes.Len(); n >= 0; n-- {
+		ra := a.GetType(t.Reference())
+		if ra == nil {
+			panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
+		}
+		na, ok := ra.(dgo.Alias)
+		if !ok {
+			return ra
+		}
+		t = na
+	}
+	panic(fmt.Errorf(`the alias '%s' is defined using nothing but itself`, t.Reference()))
+}
+
 func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	switch t := t.(type) {
 	case *deferredCall:
 		return New(a.Replace(t.dType).(dgo.Type), a.Replace(t.args))
 	case dgo.Alias:
-		if ra := a.GetType(t.Reference()); ra != nil {
-			return ra
-		}
-		panic(fmt.Errorf(`reference to unresolved type '%s'`, t.Reference()))
+		return a.replaceAlias(t)
 	case dgo.AliasContainer:
 		t.Resolve(a)
 	}
-- 
2.43.0


From 6feb9df90ed10986b926a665b2fc608bf7c248c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:06 +0000
Subject: [PATCH 055/137] fix: Use a proper verb when reporting an illegal
 argument for Map

---
 internal/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 3074685..b80a24b 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -262,7 +262,7 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		case reflect.Struct:
 			return FromReflectedStruct(rm)
 		}
-		panic(fmt.Errorf(`illegal argument: %t is not a map, a struct, or an array with even number of elements`, a0))
+		panic(fmt.Errorf(`illegal argument: %v is not a map, a struct, or an array with even number of elements`, a0))
 	case l%2 == 0:
 		if frozen {
 			return Values(args).ToMap()
-- 
2.43.0


From 76713823ca0b09d64bfde06975e9eb651b76fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 056/137] fix: Don't fail on a function type that returns a
 type with an empty text

---
 stringer/typestring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index d566055..fbee578 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -232,7 +232,7 @@ func (sb *typeBuilder) function(typ dgo.Type, prio int) {
 		util.WriteByte(sb, ' ')
 		if out.Len() == 1 && !out.Variadic() && prio == commaPrio {
 			s := sb.substring(out.Element(0), prio)
-			if s[0] != '(' {
+			if !strings.HasPrefix(s, `(`) {
 				util.WriteString(sb, s)
 				return
 			}
-- 
2.43.0


From 69d52c959e5d59f6e90d75743a6af8e7308928e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:53 +0000
Subject: [PATCH 057/137] fix: Reject a sensitive value that is an unresolved
 alias

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d7863a9..85efded 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -578,7 +578,12 @@ func (p *parser) sensitive() dgo.Value {
 	}
 	if !isExpressionEnd(rune(tt)) {
 		p.anyOf(p.NextToken())
-		return internal.Sensitive(internal.ExactValue(p.PopLast()))
+		v := p.PopLast()
+		if a, ok := v.(dgo.Alias); ok {
+			// the type of the sensitive depends on what the alias stands for
+			panic(fmt.Errorf(`reference to unresolved type '%s'`, a.Reference()))
+		}
+		return internal.Sensitive(internal.ExactValue(v))
 	}
 	return internal.DefaultSensitiveType
 }
-- 
2.43.0


From b6214f953de30f4e77c8dfbc15ea870af405cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:54 +0000
Subject: [PATCH 058/137] fix: Reject a pcore hash entry that has an entry as
 its key

---
 streamer/pcore/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 961086b..8891201 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -121,7 +121,8 @@ func (p *pcoreParser) list(et int, bs int) {
 			break
 		}
 		p.element(tk)
-		if rockLHS != nil {
+		isEntry := rockLHS != nil
+		if isEntry {
 			// Last two elements is a hash entry
 			p.Append(vf.MapEntry(rockLHS, p.PopLast()))
 			rockLHS = nil
@@ -135,6 +136,9 @@ func (p *pcoreParser) list(et int, bs int) {
 		case ',':
 			continue
 		case rocket:
+			if isEntry {
+				panic(badSyntax(tk, bs))
+			}
 			rockLHS = p.PopLast()
 			continue
 		default:
-- 
2.43.0


From 12ddaa4338cfa7985cffc9aa1da3083d6af33b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 059/137] fix: Encode a float with an integral value as a float

---
 streamer/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index 3b362c8..dbc0341 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -227,6 +227,10 @@ func (j *jsonEncoder) write(e dgo.Value) {
 		v, err = json.Marshal(e.GoString())
 	case dgo.Float:
 		v, err = json.Marshal(e.GoFloat())
+		if !bytes.ContainsAny(v, `.e`) {
+			// retain that this is a float
+			v = append(v, `.0`...)
+		}
 	case dgo.Integer:
 		v, err = json.Marshal(e.GoInt())
 	case dgo.Boolean:
-- 
2.43.0


From 540b12076799c07f8ee7ada87f731dc8f75d4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 060/137] fix: Reject data that follows the JSON value

---
 streamer/json.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/streamer/json.go b/streamer/json.go
index dbc0341..da50f65 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -3,6 +3,7 @@ package streamer
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 
@@ -48,6 +49,12 @@ func UnmarshalJSON(b []byte, dialect Dialect) dgo.Value {
 
 	j := &jsonDecoder{consumer: vc, refKey: opts.Dialect.RefKey().GoString(), decoder: je}
 	j.decode()
+	if _, err := je.Token(); err != io.EOF {
+		if err == nil {
+			err = errors.New(`unexpected data after the JSON value`)
+		}
+		panic(err)
+	}
 	return vc.Value()
 }
 
-- 
2.43.0


From 7c4438317a81fc66494ee2ce72606ae03e3a3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 061/137] fix: Write JSON references using the dialect of the
 streamer

---
 streamer/streamer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index b78b8db..d929c13 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -75,6 +75,10 @@ func (t *rdSerializer) Stream(value dgo.Value, consumer Consumer) {
 	if c.dedupLevel >= MaxDedup && !consumer.CanDoComplexKeys() {
 		c.dedupLevel = NoKeyDedup
 	}
+	if j, ok := consumer.(*jsonEncoder); ok {
+		// references must be written in the dialect that is used for everything else
+		j.dialect = t.Dialect
+	}
 	c.emitData(value)
 }
 
-- 
2.43.0


From 00c166d5dce5b45dd9fe79d8e969d256792bd610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 062/137] fix: Reject JSON numbers that are out of range

---
 streamer/json.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/json.go b/streamer/json.go
index da50f65..8d8480b 100644
--- a/streamer/json.go
+++ b/streamer/json.go
@@ -84,7 +84,10 @@ func (j *jsonDecoder) decodeElem(end json.Delim) bool {
 		if i, err := t.Int64(); err == nil {
 			j.consumer.Add(vf.Integer(i))
 		} else {
-			f, _ := t.Float64()
+			f, err := t.Float64()
+			if err != nil {
+				panic(err)
+			}
 			j.consumer.Add(vf.Float(f))
 		}
 	case bool:
-- 
2.43.0


From 94a0a1ddeb2aaee790e19962be16648f966f08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 063/137] fix: Let references to a rich value resolve to the
 decoded value

---
 streamer/decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 9cd2b36..40e6b57 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -32,11 +32,14 @@ func (d *dataDecoder) Init() {
 // AddMap initializes and adds a new map and then calls the function with is supposed to
 // add an even number of elements as a sequence of key, value, [key, value, ...]
 func (d *dataDecoder) AddMap(cap int, doer dgo.Doer) {
+	pos := d.Values.Len()
 	d.BasicCollector.AddMap(cap, doer)
 	m := d.PeekLast().(dgo.Map)
 	dl := d.dialect
 	if ts, ok := m.Get(dl.TypeKey()).(dgo.String); ok {
-		d.ReplaceLast(d.decode(ts, m))
+		v := d.decode(ts, m)
+		d.ReplaceLast(v)
+		d.Values.Set(pos, v) // so that references to the map gives the decoded value
 	}
 }
 
-- 
2.43.0


From e47d968817e885e8183057a9d90b50152615e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 064/137] fix: Reject types when rich data is turned off

---
 streamer/streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index d929c13..7fda492 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -181,6 +181,9 @@ func (sc *context) emitString(value dgo.String) {
 
 func (sc *context) emitType(typ dgo.Type) {
 	sc.process(typ, func() {
+		if !sc.config.RichData {
+			panic(sc.unknownSerialization(typ))
+		}
 		sc.addMap(2, func() {
 			d := sc.config.Dialect
 			sc.addData(d.TypeKey())
-- 
2.43.0


From b07af80a0c9214286a7113c4482f1246397b2711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 065/137] fix: ParseFile without alias map must not dereference
 nil

---
 parser/parser.go         | 10 ++++++++--
 streamer/pcore/parser.go | 10 +++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 85efded..ee17e67 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -140,8 +140,14 @@ func Parse(content string) (result dgo.Value) {
 }
 
 // ParseFile parses the given content into a dgo.Type. Aliases are added to the given AliasAdder. The filename
-// is used in error messages.
-func ParseFile(am dgo.AliasAdder, fileName, content string) dgo.Value {
+// is used in error messages. The default aliases are used, and declared aliases are forgotten, when no AliasAdder is given.
+func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
+	if am == nil {
+		internal.DefaultAliases().Collect(func(a dgo.AliasAdder) {
+			result = ParseFile(a, fileName, content)
+		})
+		return
+	}
 	p := &parser{NewParserBase(am, nextToken, content)}
 	return DoParse(p, fileName)
 }
diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 8891201..31770f9 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -75,7 +75,15 @@ func ParseType(content string) dgo.Type {
 }
 
 // ParseFile parses the given content into a dgo.Type. The filename is used in error messages.
-func ParseFile(am dgo.AliasAdder, fileName, content string) dgo.Value {
+//
+// The default aliases are used, and declared aliases are forgotten, when no AliasAdder is given.
+func ParseFile(am dgo.AliasAdder, fileName, content string) (result dgo.Value) {
+	if am == nil {
+		tf.DefaultAliases().Collect(func(a dgo.AliasAdder) {
+			result = ParseFile(a, fileName, content)
+		})
+		return
+	}
 	p := &pcoreParser{parser.NewParserBase(am, nextToken, content)}
 	return parser.DoParse(p, fileName)
 }
-- 
2.43.0


From 7c166a6946f55a27c9cc7d031d9c939ffaf898d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 066/137] fix: types without an alias must be streamed when an
 alias map is used

---
 streamer/streamer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 7fda492..28e92ec 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -192,10 +192,10 @@ func (sc *context) emitType(typ dgo.Type) {
 					sc.addData(d.AliasTypeName())
 					sc.addData(d.ValueKey())
 					sc.emitData(vf.Values(tn, typ.String()))
+					return
 				}
-			} else {
-				sc.addData(vf.String(typ.String()))
 			}
+			sc.addData(vf.String(typ.String()))
 		})
 	})
 }
-- 
2.43.0


From bd27e08766ea90c1d2f32a8c03812acf404219f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 067/137] fix: malformed rich data must be rejected with an
 explained error

---
 streamer/basiccollector.go |  5 +++++
 streamer/decoder.go        | 31 +++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/streamer/basiccollector.go b/streamer/basiccollector.go
index 1b89ba1..d185ca7 100644
--- a/streamer/basiccollector.go
+++ b/streamer/basiccollector.go
@@ -1,6 +1,8 @@
 package streamer
 
 import (
+	"fmt"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
 )
@@ -61,6 +63,9 @@ func (c *BasicCollector) Add(element dgo.Value) {
 
 // AddRef adds the nth value of the values that has been added once again.
 func (c *BasicCollector) AddRef(ref int) {
+	if ref < 0 || ref >= c.Values.Len() {
+		panic(fmt.Errorf(`reference to value %d when only %d values have been added`, ref, c.Values.Len()))
+	}
 	c.StackTop().Add(c.Values.Get(ref))
 }
 
diff --git a/streamer/decoder.go b/streamer/decoder.go
index 40e6b57..287dc61 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -57,7 +57,11 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 
 	switch {
 	case ts.Equals(dl.MapTypeName()):
-		nm := mv.(dgo.Array).ToMap()
+		av, ok := mv.(dgo.Array)
+		if !ok || av.Len()%2 != 0 {
+			panic(badValue(ts, mv))
+		}
+		nm := av.ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
 		replaceInstance(m, nm, nm)
@@ -65,19 +69,23 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
 	case ts.Equals(dl.BinaryTypeName()):
-		v = vf.BinaryFromString(mv.(dgo.String).GoString())
+		v = vf.BinaryFromString(stringValue(ts, mv))
 	case ts.Equals(dl.TimeTypeName()):
-		t, err := time.Parse(time.RFC3339Nano, mv.(dgo.String).GoString())
+		t, err := time.Parse(time.RFC3339Nano, stringValue(ts, mv))
 		if err != nil {
 			panic(err)
 		}
 		v = vf.Time(t)
 	case ts.Equals(dl.AliasTypeName()):
-		ad := mv.(dgo.Array)
-		v = dl.ParseType(nil, ad.Get(1).(dgo.String))
+		ad, ok := mv.(dgo.Array)
+		if !ok || ad.Len() != 2 {
+			panic(badValue(ts, mv))
+		}
+		tp := dl.ParseType(nil, vf.String(stringValue(ts, ad.Get(1))))
 		if d.aliasMap != nil {
-			d.aliasMap.Add(v.(dgo.Type), ad.Get(0).(dgo.String))
+			d.aliasMap.Add(tp, vf.String(stringValue(ts, ad.Get(0))))
 		}
+		v = tp
 	default:
 		tp := tf.Named(ts.GoString())
 		if tp == nil {
@@ -88,6 +96,17 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 	return v
 }
 
+func stringValue(ts dgo.String, v dgo.Value) string {
+	if s, ok := v.(dgo.String); ok {
+		return s.GoString()
+	}
+	panic(badValue(ts, v))
+}
+
+func badValue(ts dgo.String, v dgo.Value) error {
+	return fmt.Errorf(`unable to decode a %s from %s`, ts, v)
+}
+
 func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
-- 
2.43.0


From a1e2594616fab38db544da03dd26ade53586f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 068/137] fix: unsigned integers above the largest int64 must
 be rejected

---
 internal/integer.go | 19 +++++++++++--------
 internal/value.go   |  4 ++++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/internal/integer.go b/internal/integer.go
index 9dd1c5e..de29525 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -371,8 +371,15 @@ func (v intVal) Type() dgo.Type {
 	return et
 }
 
-// ToInt returns the given value as a int64 if, and only if, the value type is one of the go int types. An
-// additional boolean is returned to indicate if that was the case or not.
+func fromUnsigned(v uint64) intVal {
+	if v > math.MaxInt64 {
+		panic(fmt.Errorf(`value %d overflows int64`, v))
+	}
+	return intVal(v)
+}
+
+// ToInt returns the given value as a int64 if, and only if, the value type is one of the go int types and an int64
+// is able to hold it. An additional boolean is returned to indicate if that was the case or not.
 func ToInt(value interface{}) (int64, bool) {
 	ok := true
 	v := int64(0)
@@ -390,14 +397,10 @@ func ToInt(value interface{}) (int64, bool) {
 	case int8:
 		v = int64(value)
 	case uint:
-		if value == math.MaxUint64 {
-			panic(fmt.Errorf(`value %d overflows int64`, value))
-		}
+		ok = value <= math.MaxInt64
 		v = int64(value)
 	case uint64:
-		if value == math.MaxUint64 {
-			panic(fmt.Errorf(`value %d overflows int64`, value))
-		}
+		ok = value <= math.MaxInt64
 		v = int64(value)
 	case uint32:
 		v = int64(value)
diff --git a/internal/value.go b/internal/value.go
index 48a2ee4..eabbafb 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -66,6 +66,10 @@ func value(v interface{}) dgo.Value {
 		dv = (*timeVal)(&v)
 	case error:
 		dv = &errw{v}
+	case uint:
+		dv = fromUnsigned(uint64(v))
+	case uint64:
+		dv = fromUnsigned(v)
 	case json.Number:
 		dv = valueFromJSONNumber(v)
 	case reflect.Value:
-- 
2.43.0


From 647855d97b0ee8eb2b90ffcd2102ba8c28eb0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 069/137] fix: numbers that don't fit the destination must be
 rejected

---
 internal/float.go   | 16 +++++++--------
 internal/integer.go | 47 +++++++++------------------------------------
 2 files changed, 17 insertions(+), 46 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index b6de333..7e22748 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -292,15 +292,15 @@ func (v floatVal) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(float64(v)))
 	case reflect.Ptr:
-		if value.Type().Elem().Kind() == reflect.Float32 {
-			gv := float32(v)
-			value.Set(reflect.ValueOf(&gv))
-		} else {
-			gv := float64(v)
-			value.Set(reflect.ValueOf(&gv))
-		}
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
 	default:
-		value.SetFloat(float64(v))
+		f := float64(v)
+		if !math.IsInf(f, 0) && value.OverflowFloat(f) {
+			panic(fmt.Errorf(`value %s overflows %s`, v, value.Type()))
+		}
+		value.SetFloat(f)
 	}
 }
 
diff --git a/internal/integer.go b/internal/integer.go
index de29525..5c90e63 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -306,53 +306,24 @@ func (v intVal) HashCode() int {
 func (v intVal) ReflectTo(value reflect.Value) {
 	switch value.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if value.OverflowInt(int64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, v, value.Type()))
+		}
 		value.SetInt(int64(v))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v < 0 || value.OverflowUint(uint64(v)) {
+			panic(fmt.Errorf(`value %d overflows %s`, v, value.Type()))
+		}
 		value.SetUint(uint64(v))
 	case reflect.Ptr:
-		value.Set(v.intPointer(value.Type().Elem().Kind()))
+		p := reflect.New(value.Type().Elem())
+		v.ReflectTo(p.Elem())
+		value.Set(p)
 	default:
 		value.Set(reflect.ValueOf(int64(v)))
 	}
 }
 
-func (v intVal) intPointer(kind reflect.Kind) reflect.Value {
-	var p reflect.Value
-	switch kind {
-	case reflect.Int:
-		gv := int(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int8:
-		gv := int8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int16:
-		gv := int16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Int32:
-		gv := int32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint:
-		gv := uint(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint8:
-		gv := uint8(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint16:
-		gv := uint16(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint32:
-		gv := uint32(v)
-		p = reflect.ValueOf(&gv)
-	case reflect.Uint64:
-		gv := uint64(v)
-		p = reflect.ValueOf(&gv)
-	default:
-		gv := int64(v)
-		p = reflect.ValueOf(&gv)
-	}
-	return p
-}
-
 func (v intVal) String() string {
 	return strconv.Itoa(int(v))
 }
-- 
2.43.0


From 8c7e4ba54e3e517d8cf2a71c036c482b1bec01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 070/137] fix: pointer to time must be converted to a dgo time

---
 internal/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index eabbafb..6e696af 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -64,6 +64,12 @@ func value(v interface{}) dgo.Value {
 		dv = Regexp(v)
 	case time.Time:
 		dv = (*timeVal)(&v)
+	case *time.Time:
+		if v == nil {
+			dv = Nil
+		} else {
+			dv = Time(*v)
+		}
 	case error:
 		dv = &errw{v}
 	case uint:
-- 
2.43.0


From 3f713a37f26d4fe1384d406ec62265886c82d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 071/137] fix: pointers to the content of frozen values must
 not be exposed

---
 internal/error.go  | 3 ++-
 internal/string.go | 3 ++-
 internal/value.go  | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index 66d5944..ba1e957 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -106,7 +106,8 @@ func (e *errw) Error() string {
 
 func (e *errw) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
-		value.Set(reflect.ValueOf(&e.error))
+		err := e.error // a pointer to the value itself must not be exposed
+		value.Set(reflect.ValueOf(&err))
 	} else {
 		value.Set(reflect.ValueOf(e.error))
 	}
diff --git a/internal/string.go b/internal/string.go
index 94f84a7..35bca93 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -600,7 +600,8 @@ func (v *hstring) ReflectTo(value reflect.Value) {
 	case reflect.Interface:
 		value.Set(reflect.ValueOf(v.s))
 	case reflect.Ptr:
-		value.Set(reflect.ValueOf(&v.s))
+		s := v.s // a pointer to the value itself must not be exposed
+		value.Set(reflect.ValueOf(&s))
 	default:
 		value.SetString(v.s)
 	}
diff --git a/internal/value.go b/internal/value.go
index 6e696af..6c13a2b 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -61,7 +61,11 @@ func value(v interface{}) dgo.Value {
 	case []int:
 		dv = Integers(v)
 	case *regexp.Regexp:
-		dv = Regexp(v)
+		if v == nil {
+			dv = Nil
+		} else {
+			dv = Regexp(v)
+		}
 	case time.Time:
 		dv = (*timeVal)(&v)
 	case *time.Time:
-- 
2.43.0


From 6e39c5bcbdd14a7409836db308da0465c76095e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 072/137] fix: struct map must only expose the exported fields

---
 internal/struct.go | 82 ++++++++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 42 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 6c177c9..5a325ba 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -22,36 +22,43 @@ func (v *structVal) AppendTo(w dgo.Indenter) {
 	appendMapTo(v, w)
 }
 
-func (v *structVal) All(predicate dgo.EntryPredicate) bool {
+// allFields calls the given predicate with the name and value of each exported field until the predicate returns
+// false
+func (v *structVal) allFields(predicate func(name string, fv reflect.Value) bool) bool {
 	rv := v.rs
 	rt := rv.Type()
 	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}) {
+		if f := rt.Field(i); f.PkgPath == `` && !predicate(f.Name, rv.Field(i)) {
 			return false
 		}
 	}
 	return true
 }
 
-func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
-	rv := v.rs
-	rt := rv.Type()
-	for i, n := 0, rt.NumField(); i < n; i++ {
-		if !predicate(&hstring{s: rt.Field(i).Name}) {
-			return false
+// field returns the exported field for the given key
+func (v *structVal) field(key interface{}) (fv reflect.Value, ok bool) {
+	if s, isString := stringKey(key); isString {
+		var f reflect.StructField
+		// Promoted fields are not fields of this struct
+		if f, ok = v.rs.Type().FieldByName(s); ok && f.PkgPath == `` && len(f.Index) == 1 {
+			return v.rs.FieldByIndex(f.Index), true
 		}
 	}
-	return true
+	return reflect.Value{}, false
+}
+
+func (v *structVal) All(predicate dgo.EntryPredicate) bool {
+	return v.allFields(func(name string, fv reflect.Value) bool {
+		return predicate(&mapEntry{&hstring{s: name}, ValueFromReflected(fv)})
+	})
+}
+
+func (v *structVal) AllKeys(predicate dgo.Predicate) bool {
+	return v.allFields(func(name string, fv reflect.Value) bool { return predicate(&hstring{s: name}) })
 }
 
 func (v *structVal) AllValues(predicate dgo.Predicate) bool {
-	rv := v.rs
-	for i, n := 0, rv.NumField(); i < n; i++ {
-		if !predicate(ValueFromReflected(rv.Field(i))) {
-			return false
-		}
-	}
-	return true
+	return v.allFields(func(name string, fv reflect.Value) bool { return predicate(ValueFromReflected(fv)) })
 }
 
 func (v *structVal) Any(predicate dgo.EntryPredicate) bool {
@@ -67,10 +74,8 @@ func (v *structVal) AnyValue(predicate dgo.Predicate) bool {
 }
 
 func (v *structVal) ContainsKey(key interface{}) bool {
-	if s, ok := stringKey(key); ok {
-		return v.rs.FieldByName(s).IsValid()
-	}
-	return false
+	_, ok := v.field(key)
+	return ok
 }
 
 func (v *structVal) Copy(frozen bool) dgo.Map {
@@ -185,15 +190,14 @@ func (v *structVal) ThawedCopy() dgo.Value {
 }
 
 func (v *structVal) Find(predicate dgo.EntryPredicate) dgo.MapEntry {
-	rv := v.rs
-	rt := rv.Type()
-	for i, n := 0, rt.NumField(); i < n; i++ {
-		e := &mapEntry{&hstring{s: rt.Field(i).Name}, ValueFromReflected(rv.Field(i))}
+	var found dgo.MapEntry
+	v.All(func(e dgo.MapEntry) bool {
 		if predicate(e) {
-			return e
+			found = e
 		}
-	}
-	return nil
+		return found == nil
+	})
+	return found
 }
 
 func stringKey(key interface{}) (string, bool) {
@@ -207,12 +211,8 @@ func stringKey(key interface{}) (string, bool) {
 }
 
 func (v *structVal) Get(key interface{}) dgo.Value {
-	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
-		if fv.IsValid() {
-			return ValueFromReflected(fv)
-		}
+	if fv, ok := v.field(key); ok {
+		return ValueFromReflected(fv)
 	}
 	return nil
 }
@@ -222,7 +222,9 @@ func (v *structVal) Keys() dgo.Array {
 }
 
 func (v *structVal) Len() int {
-	return v.rs.NumField()
+	n := 0
+	v.allFields(func(string, reflect.Value) bool { n++; return true })
+	return n
 }
 
 func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
@@ -248,14 +250,10 @@ func (v *structVal) Put(key, value interface{}) dgo.Value {
 	if v.frozen {
 		panic(frozenMap(`Put`))
 	}
-	if s, ok := stringKey(key); ok {
-		rv := v.rs
-		fv := rv.FieldByName(s)
-		if fv.IsValid() {
-			old := ValueFromReflected(fv)
-			ReflectTo(Value(value), fv)
-			return old
-		}
+	if fv, ok := v.field(key); ok {
+		old := ValueFromReflected(fv)
+		ReflectTo(Value(value), fv)
+		return old
 	}
 	panic(fmt.Errorf(`%s has no field named '%s'`, v.rs.Type(), key))
 }
-- 
2.43.0


From 06d9f4835d3f6d368e07ce77bffb715a3f78e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:52 +0000
Subject: [PATCH 073/137] fix: maps derived from a frozen struct map must be
 frozen

---
 internal/struct.go | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 5a325ba..148e08a 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -228,22 +228,14 @@ func (v *structVal) Len() int {
 }
 
 func (v *structVal) Map(mapper dgo.EntryMapper) dgo.Map {
-	c := v.toHashMap()
-	for e := c.first; e != nil; e = e.next {
-		e.value = Value(mapper(e))
-	}
-	c.frozen = v.frozen
-	return c
+	return v.toHashMap().Map(mapper)
 }
 
 func (v *structVal) Merge(associations dgo.Map) dgo.Map {
 	if associations.Len() == 0 || v == associations {
 		return v
 	}
-	c := v.toHashMap()
-	c.PutAll(associations)
-	c.frozen = v.frozen && associations.Frozen()
-	return c
+	return v.toHashMap().Merge(associations)
 }
 
 func (v *structVal) Put(key, value interface{}) dgo.Value {
@@ -305,33 +297,26 @@ func (v *structVal) Values() dgo.Array {
 }
 
 func (v *structVal) With(key, value interface{}) dgo.Map {
-	c := v.toHashMap()
-	c.Put(key, value)
-	c.frozen = v.frozen
-	return c
+	return v.toHashMap().With(key, value)
 }
 
 func (v *structVal) Without(key interface{}) dgo.Map {
 	if v.Get(key) == nil {
 		return v
 	}
-	c := v.toHashMap()
-	c.Remove(key)
-	c.frozen = v.frozen
-	return c
+	return v.toHashMap().Without(key)
 }
 
 func (v *structVal) WithoutAll(keys dgo.Array) dgo.Map {
-	c := v.toHashMap()
-	c.RemoveAll(keys)
-	c.frozen = v.frozen
-	return c
+	return v.toHashMap().WithoutAll(keys)
 }
 
+// toHashMap returns a map with the same entries that is frozen if this map is frozen
 func (v *structVal) toHashMap() *hashMap {
-	c := MapWithCapacity(v.Len())
+	c := MapWithCapacity(v.Len()).(*hashMap)
 	v.EachEntry(func(entry dgo.MapEntry) {
 		c.Put(entry.Key(), entry.Value())
 	})
-	return c.(*hashMap)
+	c.frozen = v.frozen
+	return c
 }
-- 
2.43.0


From f6720c30210cb1055b5d47857967d6c91a790f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 074/137] fix: copies of a struct map must not share state with
 the struct

---
 internal/struct.go | 115 +++++++++++++++++++++++++++++++--------------
 1 file changed, 79 insertions(+), 36 deletions(-)

diff --git a/internal/struct.go b/internal/struct.go
index 148e08a..56683e6 100644
--- a/internal/struct.go
+++ b/internal/struct.go
@@ -85,10 +85,68 @@ func (v *structVal) Copy(frozen bool) dgo.Map {
 	if frozen {
 		return v.FrozenCopy().(dgo.Map)
 	}
-	// Thaw: Perform a by-value copy of the frozen struct
+	return v.ThawedCopy().(dgo.Map)
+}
+
+// copyStruct returns an addressable copy of the wrapped struct that shares nothing mutable with the original. The given
+// function is used on the dgo values that are found in it.
+func (v *structVal) copyStruct(cf func(f dgo.Freezable) dgo.Value) reflect.Value {
 	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
 	rs.Set(v.rs)                          // copy v.rs to the zero value
-	return &structVal{rs: rs, frozen: false}
+	rt := rs.Type()
+	for i, n := 0, rt.NumField(); i < n; i++ {
+		if rt.Field(i).PkgPath == `` {
+			rs.Field(i).Set(copyReflected(rs.Field(i), cf))
+		}
+	}
+	return rs
+}
+
+func copyReflected(rv reflect.Value, cf func(f dgo.Freezable) dgo.Value) reflect.Value {
+	switch rv.Kind() {
+	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice:
+		if rv.IsNil() {
+			return rv
+		}
+	}
+	switch v := rv.Interface().(type) {
+	case dgo.Freezable:
+		return reflect.ValueOf(cf(v))
+	case dgo.Value, error:
+		return rv
+	}
+
+	c := reflect.New(rv.Type()).Elem()
+	switch rv.Kind() {
+	case reflect.Interface:
+		c.Set(copyReflected(rv.Elem(), cf))
+	case reflect.Map:
+		c.Set(reflect.MakeMapWithSize(rv.Type(), rv.Len()))
+		for _, k := range rv.MapKeys() {
+			c.SetMapIndex(k, copyReflected(rv.MapIndex(k), cf))
+		}
+	case reflect.Slice:
+		n := rv.Len()
+		c.Set(reflect.MakeSlice(rv.Type(), n, n))
+		for i := 0; i < n; i++ {
+			c.Index(i).Set(copyReflected(rv.Index(i), cf))
+		}
+	default:
+		ev := ValueFromReflected(rv)
+		if n, ok := ev.(dgo.Native); ok {
+			return reflect.ValueOf(cf(n))
+		}
+		if _, ok := wellKnownTypes[rv.Type()]; ok || rv.Kind() != reflect.Ptr {
+			return rv
+		}
+		c.Set(reflect.New(rv.Type().Elem()))
+		c.Elem().Set(copyReflected(rv.Elem(), cf))
+	}
+	return c
+}
+
+func frozenSame(f dgo.Freezable) dgo.Value {
+	return f.(dgo.Value)
 }
 
 func (v *structVal) Each(actor dgo.Consumer) {
@@ -112,7 +170,12 @@ func (v *structVal) Equals(other interface{}) bool {
 }
 
 func (v *structVal) GoStruct() interface{} {
-	return v.rs.Addr().Interface()
+	rs := v.rs
+	if v.frozen {
+		// Don't expose pointer to frozen struct
+		rs = v.copyStruct(frozenSame)
+	}
+	return rs.Addr().Interface()
 }
 
 func (v *structVal) deepEqual(seen []dgo.Value, other deepEqual) bool {
@@ -139,15 +202,13 @@ func (v *structVal) deepHashCode(seen []dgo.Value) int {
 }
 
 func (v *structVal) Freeze() {
-	// Perform a shallow copy of the struct
+	// The frozen map can no longer share anything with the struct
 	if !v.frozen {
-		v.frozen = true
-		v.rs = reflect.ValueOf(v.rs.Interface())
-		v.EachValue(func(e dgo.Value) {
-			if f, ok := e.(dgo.Freezable); ok {
-				f.Freeze()
-			}
+		v.rs = v.copyStruct(func(f dgo.Freezable) dgo.Value {
+			f.Freeze()
+			return f.(dgo.Value)
 		})
+		v.frozen = true
 	}
 }
 
@@ -160,32 +221,12 @@ func (v *structVal) FrozenCopy() dgo.Value {
 		return v
 	}
 
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok && !f.Frozen() {
-			ReflectTo(f.FrozenCopy(), ef)
-		}
-	}
+	rs := v.copyStruct(func(f dgo.Freezable) dgo.Value { return f.FrozenCopy() })
 	return &structVal{rs: rs, frozen: true}
 }
 
 func (v *structVal) ThawedCopy() dgo.Value {
-	// Perform a by-value copy of the struct
-	rs := reflect.New(v.rs.Type()).Elem() // create and dereference pointer to a zero value
-	rs.Set(v.rs)                          // copy v.rs to the zero value
-
-	for i, n := 0, rs.NumField(); i < n; i++ {
-		ef := rs.Field(i)
-		ev := ValueFromReflected(ef)
-		if f, ok := ev.(dgo.Freezable); ok {
-			ReflectTo(f.ThawedCopy(), ef)
-		}
-	}
+	rs := v.copyStruct(func(f dgo.Freezable) dgo.Value { return f.ThawedCopy() })
 	return &structVal{rs: rs, frozen: false}
 }
 
@@ -258,15 +299,17 @@ func (v *structVal) ReflectTo(value reflect.Value) {
 	if value.Kind() == reflect.Ptr {
 		if v.frozen {
 			// Don't expose pointer to frozen struct
-			rs := reflect.New(v.rs.Type()) // create pointer to a zero value
-			rs.Elem().Set(v.rs)            // copy v.rs to the zero value
-			value.Set(rs)
+			value.Set(v.copyStruct(frozenSame).Addr())
 		} else {
 			value.Set(v.rs.Addr())
 		}
 	} else {
 		// copy struct by value
-		value.Set(v.rs)
+		if v.frozen {
+			value.Set(v.copyStruct(frozenSame))
+		} else {
+			value.Set(v.rs)
+		}
 	}
 }
 
-- 
2.43.0


From 4f8dd87119c093ab5f0c10cc8f9453ad50620791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 075/137] fix: map backed by a struct that was passed by value
 must be usable

---
 internal/map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/map.go b/internal/map.go
index b80a24b..b4ee855 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -337,6 +337,12 @@ func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Value {
 // FromReflectedStruct creates a frozen Map from the exported fields of a go struct. It panics if rm's kind is not
 // reflect.Struct.
 func FromReflectedStruct(rv reflect.Value) dgo.Struct {
+	if !rv.CanAddr() {
+		// A struct that was passed by value. The map is backed by a copy of it
+		rs := reflect.New(rv.Type()).Elem()
+		rs.Set(rv)
+		rv = rs
+	}
 	return &structVal{rs: rv, frozen: false}
 }
 
-- 
2.43.0


From 7c66589ea71d49314ce06a94eba73372e651d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 076/137] fix: validation must accept additional entries when
 the type does

---
 internal/mapstruct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index e31e7b5..af479c9 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -391,6 +391,9 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(ek)))
 		}
 	})
+	if t.Additional() {
+		return errs
+	}
 	pm.EachKey(func(k dgo.Value) {
 		if t.Get(k) == nil {
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
@@ -430,6 +433,9 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		}
 		out.NewLine()
 	})
+	if t.Additional() {
+		return ok
+	}
 	pm.EachKey(func(k dgo.Value) {
 		if t.Get(k) == nil {
 			ok = false
-- 
2.43.0


From c9d15eb4335d87a944bb0898ee213b5942dd844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 077/137] fix: validation must recognize a key that is a type

---
 internal/mapstruct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index af479c9..d754c11 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -395,7 +395,7 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 		return errs
 	}
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if t.Get(k.Type()) == nil { // the type, since a key that is a type denotes the type of a key
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
 		}
 	})
@@ -437,7 +437,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		return ok
 	}
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k) == nil {
+		if t.Get(k.Type()) == nil { // the type, since a key that is a type denotes the type of a key
 			ok = false
 			out.Printf(`Validating '%s'`, k)
 			inner.NewLine()
-- 
2.43.0


From 9b50036bd0aa6409627e639523644e601959a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 078/137] fix: validation must not require that keys are
 revealed by their type

---
 internal/mapstruct.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index d754c11..e82a5dd 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -370,6 +370,27 @@ func (t *structType) ValidateVerbose(value interface{}, out dgo.Indenter) bool {
 	return validateVerbose(t, value, out)
 }
 
+// eachNamed calls the actor with the key of each entry of the type. The keys of an exact map aren't obtained from their
+// types, because the type of a key doesn't always reveal the key.
+func eachNamed(t dgo.StructMapType, actor func(key dgo.Value, valueType dgo.Type, required bool)) {
+	if em, ok := t.(*exactMapType); ok {
+		em.value.EachEntry(func(e dgo.MapEntry) { actor(e.Key(), e.Value().Type(), true) })
+		return
+	}
+	t.Each(func(e dgo.StructMapEntry) {
+		actor(e.Key().(dgo.ExactType).ExactValue(), e.Value().(dgo.Type), e.Required())
+	})
+}
+
+// hasNamed returns true if the type has an entry for the given key
+func hasNamed(t dgo.StructMapType, key dgo.Value) bool {
+	if em, ok := t.(*exactMapType); ok {
+		return em.value.Get(key) != nil
+	}
+	// Use the type of the key, because a key that is a type denotes the type of a key
+	return t.Get(key.Type()) != nil
+}
+
 func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value interface{}) []error {
 	var errs []error
 	pm, ok := Value(value).(dgo.Map)
@@ -380,14 +401,12 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 	if keyLabel == nil {
 		keyLabel = parameterLabel
 	}
-	t.Each(func(e dgo.StructMapEntry) {
-		ek := e.Key().(dgo.ExactType).ExactValue()
+	eachNamed(t, func(ek dgo.Value, ev dgo.Type, required bool) {
 		if v := pm.Get(ek); v != nil {
-			ev := e.Value().(dgo.Type)
 			if !ev.Instance(v) {
 				errs = append(errs, fmt.Errorf(`%s is not an instance of type %s`, keyLabel(ek), ev))
 			}
-		} else if e.Required() {
+		} else if required {
 			errs = append(errs, fmt.Errorf(`missing required %s`, keyLabel(ek)))
 		}
 	})
@@ -395,7 +414,7 @@ func validate(t dgo.StructMapType, keyLabel func(key dgo.Value) string, value in
 		return errs
 	}
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k.Type()) == nil { // the type, since a key that is a type denotes the type of a key
+		if !hasNamed(t, k) {
 			errs = append(errs, fmt.Errorf(`unknown %s`, keyLabel(k)))
 		}
 	})
@@ -410,9 +429,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 	}
 
 	inner := out.Indent()
-	t.Each(func(e dgo.StructMapEntry) {
-		ek := e.Key().(dgo.ExactType).ExactValue()
-		ev := e.Value().(dgo.Type)
+	eachNamed(t, func(ek dgo.Value, ev dgo.Type, required bool) {
 		out.Printf(`Validating '%s' against definition %s`, ek, ev)
 		inner.NewLine()
 		inner.Printf(`'%s' `, ek)
@@ -425,7 +442,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 				inner.NewLine()
 				inner.Printf(`Reason: expected a value of type %s, got %s`, ev, v.Type())
 			}
-		} else if e.Required() {
+		} else if required {
 			ok = false
 			inner.Append(`FAILED!`)
 			inner.NewLine()
@@ -437,7 +454,7 @@ func validateVerbose(t dgo.StructMapType, value interface{}, out dgo.Indenter) b
 		return ok
 	}
 	pm.EachKey(func(k dgo.Value) {
-		if t.Get(k.Type()) == nil { // the type, since a key that is a type denotes the type of a key
+		if !hasNamed(t, k) {
 			ok = false
 			out.Printf(`Validating '%s'`, k)
 			inner.NewLine()
-- 
2.43.0


From fbb65974a3b3e08e83f74e1113e3ce01d4fbcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 079/137] fix: register the child loader type for child loaders

---
 loader/loader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 1a2b02a..90f141e 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -300,7 +300,7 @@ var ChildType = tf.NewNamed(`childLoader`,
 	func(v dgo.Value) dgo.Value {
 		return v.(*childLoader).initMap()
 	},
-	reflect.TypeOf(&loader{}),
+	reflect.TypeOf(&childLoader{}),
 	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
 	nil)
 
-- 
2.43.0


From 51d76ec0973dbd93d3bb2a8e938d2d344defada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 080/137] fix: a loader must always return the value that it
 holds

---
 loader/loader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loader/loader.go b/loader/loader.go
index 90f141e..64f0a7f 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -206,7 +206,8 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	} else {
 		addEntry(key, value)
 	}
-	return value
+	// the entry may have been added already, in which case its value is the one to use
+	return l.entries.Get(key)
 }
 
 func (l *loader) Equals(other interface{}) bool {
-- 
2.43.0


From 784d21103e0d627f08957a690686d543cf458e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 081/137] fix: sharing a string between go routines must not be
 a data race

---
 internal/string.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/string.go b/internal/string.go
index 35bca93..d8c39a1 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"sync/atomic"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -44,7 +45,7 @@ type (
 	// hstring is a string that caches the hash value when it is computed
 	hstring struct {
 		s string
-		h int
+		h uintptr
 	}
 )
 
@@ -589,10 +590,13 @@ func (v *hstring) GoString() string {
 }
 
 func (v *hstring) HashCode() int {
-	if v.h == 0 {
-		v.h = util.StringHash(v.s)
+	// frozen values can be shared between go routines, so the access to the cached hash code must be atomic
+	h := atomic.LoadUintptr(&v.h)
+	if h == 0 {
+		h = uintptr(util.StringHash(v.s))
+		atomic.StoreUintptr(&v.h, h)
 	}
-	return v.h
+	return int(h)
 }
 
 func (v *hstring) ReflectTo(value reflect.Value) {
-- 
2.43.0


From aec9996517f63d731bc0d96844005f3aba162d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 082/137] fix: inspecting a loader must not be a data race with
 lookups

---
 loader/loader.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 64f0a7f..88605d9 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -180,11 +180,25 @@ func (l *loader) init(im dgo.Map) {
 }
 
 func (l *loader) initMap() dgo.Map {
-	m := l.mapLoader.initMap()
-	m.Put(`namespaces`, l.namespaces)
+	entries, namespaces := l.snapshot()
+	m := vf.MapWithCapacity(5)
+	m.Put(`name`, l.name)
+	m.Put(`entries`, entries)
+	m.Put(`namespaces`, namespaces)
 	return m
 }
 
+// snapshot returns copies of the entries and namespaces that are safe to use without holding the lock
+func (l *loader) snapshot() (entries, namespaces dgo.Map) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	entries = vf.MapWithCapacity(l.entries.Len())
+	entries.PutAll(l.entries)
+	namespaces = vf.MapWithCapacity(l.namespaces.Len())
+	namespaces.PutAll(l.namespaces)
+	return
+}
+
 func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
@@ -212,13 +226,19 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 
 func (l *loader) Equals(other interface{}) bool {
 	if ov, ok := other.(*loader); ok {
-		return l.entries.Equals(ov.entries) && l.namespaces.Equals(ov.namespaces)
+		if l == ov {
+			return true
+		}
+		entries, namespaces := l.snapshot()
+		otherEntries, otherNamespaces := ov.snapshot()
+		return entries.Equals(otherEntries) && namespaces.Equals(otherNamespaces)
 	}
 	return false
 }
 
 func (l *loader) HashCode() int {
-	return l.entries.HashCode()*31 + l.namespaces.HashCode()
+	entries, namespaces := l.snapshot()
+	return entries.HashCode()*31 + namespaces.HashCode()
 }
 
 func (l *loader) Get(ki interface{}) dgo.Value {
-- 
2.43.0


From 04779d4cd795f72bb55fc049556f9c5d9b959726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 083/137] fix: a namespace created by another goroutine must be
 accepted also when it has been used

---
 loader/loader.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 88605d9..409cd05 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -28,6 +28,7 @@ type (
 		namespaces dgo.Map
 		finder     dgo.Finder
 		nsCreator  dgo.NsCreator
+		nsHashes   map[string]int // the hash codes of the created namespaces when they were created
 	}
 
 	childLoader struct {
@@ -75,7 +76,8 @@ func New(parentNs dgo.Loader, name string, entries dgo.Map, finder dgo.Finder, n
 		mapLoader:  mapLoader{parentNs: parentNs, name: name, entries: entries.Copy(finder == nil)},
 		namespaces: namespaces,
 		finder:     finder,
-		nsCreator:  nsCreator}
+		nsCreator:  nsCreator,
+		nsHashes:   make(map[string]int)}
 }
 
 // Type is the basic immutable loader dgo.Type
@@ -278,17 +280,21 @@ func (l *loader) Namespace(name string) dgo.Loader {
 
 	if ns = l.nsCreator(l, name); ns != nil {
 		var old dgo.Value
+		nsHash := ns.HashCode()
 
 		l.lock.Lock()
+		oldHash := l.nsHashes[name]
 		if old = l.namespaces.Get(name); old == nil {
 			l.namespaces.Put(name, ns)
+			l.nsHashes[name] = nsHash
 		}
 		l.lock.Unlock()
 
 		if nil != old {
 			// Either the nsCreator did something wrong that resulted in the creation of this
 			// namespace or a another one has been created from another go routine.
-			if !old.Equals(ns) {
+			// The latter may have been used since then, so it is compared to what it was when it was created.
+			if oldHash != nsHash && !old.Equals(ns) {
 				panic(fmt.Errorf(`namespace %q is already defined`, name))
 			}
 
-- 
2.43.0


From d1b2b7ad7bb3b0d2aa8c5fb4825fa76aff77272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 084/137] fix: resolving aliases no longer modifies types that
 are resolved already

---
 internal/alias.go     | 41 ++++++++++++++++++++++++++++++++++++++++-
 internal/array.go     | 20 +++-----------------
 internal/map.go       | 18 ++++++++----------
 internal/mapstruct.go | 12 ++----------
 internal/meta.go      |  7 ++-----
 internal/not.go       |  4 +---
 internal/sensitive.go | 11 ++++-------
 internal/ternary.go   | 15 +++------------
 8 files changed, 63 insertions(+), 65 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 6acbec7..e167b03 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -20,6 +20,7 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
+		visited    map[dgo.AliasContainer]bool
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -228,7 +229,45 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	case dgo.Alias:
 		return a.replaceAlias(t)
 	case dgo.AliasContainer:
-		t.Resolve(a)
+		a.resolve(t)
 	}
 	return t
 }
+
+// resolve calls the Resolve method of the given container unless it was called already during the outermost call
+// to Replace. A container may contain itself.
+func (a *aliasAdder) resolve(c dgo.AliasContainer) {
+	if a.visited == nil {
+		a.visited = make(map[dgo.AliasContainer]bool)
+		defer func() { a.visited = nil }()
+	}
+	if !a.visited[c] {
+		a.visited[c] = true
+		c.Resolve(a)
+	}
+}
+
+// replaceAlias returns the replacement for the given value and true if the value must be replaced. A container that
+// is resolved already may be in use by other goroutines so nothing can be assigned when the replacement is the same.
+func replaceAlias(ap dgo.AliasAdder, v dgo.Value) (dgo.Value, bool) {
+	switch v.(type) {
+	case *deferredCall, dgo.Alias, dgo.AliasContainer:
+		r := ap.Replace(v)
+		return r, r != v
+	}
+	return v, false
+}
+
+func resolveType(t *dgo.Type, ap dgo.AliasAdder) {
+	if r, ok := replaceAlias(ap, *t); ok {
+		*t = r.(dgo.Type)
+	}
+}
+
+func resolveSlice(vs []dgo.Value, ap dgo.AliasAdder) {
+	for i := range vs {
+		if r, ok := replaceAlias(ap, vs[i]); ok {
+			vs[i] = r
+		}
+	}
+}
diff --git a/internal/array.go b/internal/array.go
index c4b5151..2f61fb8 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -270,9 +270,7 @@ func (t *sizedArrayType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
-	te := t.elementType
-	t.elementType = DefaultAnyType
-	t.elementType = ap.Replace(te).(dgo.Type)
+	resolveType(&t.elementType, ap)
 }
 
 func (t *sizedArrayType) ReflectType() reflect.Type {
@@ -656,10 +654,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	s := t.types
-	t.types = nil
-	resolveSlice(s, ap)
-	t.types = s
+	resolveSlice(t.types, ap)
 }
 
 func (t *tupleType) String() string {
@@ -1257,10 +1252,7 @@ func (v *array) RemoveValue(value interface{}) bool {
 }
 
 func (v *array) Resolve(ap dgo.AliasAdder) {
-	a := v.slice
-	for i := range a {
-		a[i] = ap.Replace(a[i])
-	}
+	resolveSlice(v.slice, ap)
 }
 
 func (v *array) Reject(predicate dgo.Predicate) dgo.Array {
@@ -1481,9 +1473,3 @@ func allInstance(guard dgo.RecursionGuard, t dgo.Type, vs []dgo.Value) bool {
 func frozenArray(f string) error {
 	return fmt.Errorf(`%s called on a frozen Array`, f)
 }
-
-func resolveSlice(ts []dgo.Value, ap dgo.AliasAdder) {
-	for i := range ts {
-		ts[i] = ap.Replace(ts[i])
-	}
-}
diff --git a/internal/map.go b/internal/map.go
index b4ee855..7c40dc7 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -804,10 +804,14 @@ func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 		switch e.key.(type) {
 		case dgo.Alias, dgo.AliasContainer:
 			h := e.key.HashCode()
-			e.key = ap.Replace(e.key)
+			if k, ok := replaceAlias(ap, e.key); ok {
+				e.key = k
+			}
 			rehash = rehash || h != e.key.HashCode()
 		}
-		e.value = ap.Replace(e.value)
+		if v, ok := replaceAlias(ap, e.value); ok {
+			e.value = v
+		}
 	}
 	if rehash {
 		c := &hashMap{}
@@ -1174,14 +1178,8 @@ func (t *sizedMapType) ReflectType() reflect.Type {
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
-	kt := t.keyType
-	vt := t.valueType
-	t.keyType = DefaultAnyType
-	t.valueType = DefaultAnyType
-	kt = ap.Replace(kt).(dgo.Type)
-	vt = ap.Replace(vt).(dgo.Type)
-	t.keyType = kt
-	t.valueType = vt
+	resolveType(&t.keyType, ap)
+	resolveType(&t.valueType, ap)
 }
 
 func (t *sizedMapType) String() string {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index e82a5dd..45756f1 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -329,16 +329,8 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	ks := t.keys.slice
-	vs := t.values.slice
-	t.keys.slice = []dgo.Value{}
-	t.values.slice = []dgo.Value{}
-	for i := range ks {
-		ks[i] = ap.Replace(ks[i].(dgo.Type))
-		vs[i] = ap.Replace(vs[i].(dgo.Type))
-	}
-	t.keys.slice = ks
-	t.values.slice = vs
+	resolveSlice(t.keys.slice, ap)
+	resolveSlice(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/meta.go b/internal/meta.go
index f37c159..a889741 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -111,12 +111,9 @@ func (t *metaType) ReflectType() reflect.Type {
 }
 
 func (t *metaType) Resolve(ap dgo.AliasAdder) {
-	tp := t.tp
-	if tp == nil {
-		return
+	if t.tp != nil {
+		resolveType(&t.tp, ap)
 	}
-	t.tp = DefaultAnyType
-	t.tp = ap.Replace(tp).(dgo.Type)
 }
 
 func (t *metaType) String() string {
diff --git a/internal/not.go b/internal/not.go
index 2d0cae2..ff88a75 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -88,9 +88,7 @@ func (t *notType) ReflectType() reflect.Type {
 }
 
 func (t *notType) Resolve(ap dgo.AliasAdder) {
-	tn := t.negated
-	t.negated = DefaultAnyType
-	t.negated = ap.Replace(tn).(dgo.Type)
+	resolveType(&t.negated, ap)
 }
 
 func (t *notType) String() string {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index 8b60c6f..c733ffc 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -96,12 +96,7 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-	w := t.wrapped
-	if w == DefaultAnyType {
-		return
-	}
-	t.wrapped = DefaultAnyType
-	t.wrapped = ap.Replace(w).(dgo.Type)
+	resolveType(&t.wrapped, ap)
 }
 
 func (t *sensitiveType) String() string {
@@ -134,7 +129,9 @@ func (v *sensitive) deepEqual(seen []dgo.Value, other deepEqual) bool {
 
 // Resolve resolves type aliases in the wrapped value
 func (v *sensitive) Resolve(ap dgo.AliasAdder) {
-	v.value = ap.Replace(v.value)
+	if r, ok := replaceAlias(ap, v.value); ok {
+		v.value = r
+	}
 }
 
 func (v *sensitive) Freeze() {
diff --git a/internal/ternary.go b/internal/ternary.go
index 24aa628..861f39f 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -126,10 +126,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -337,10 +334,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -463,10 +457,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	s := t.slice
-	t.slice = nil
-	resolveSlice(s, ap)
-	t.slice = s
+	resolveSlice(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From 037819ea3b306ef423c6e14f838becea3e0072b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 085/137] fix: alias maps are only read while their lock is
 held

---
 internal/alias.go | 30 ++++++++++++++++++++----------
 tf/type.go        |  3 ++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index e167b03..44364a0 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -47,19 +47,25 @@ func AddDefaultAliases(adder func(adder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked when the appointed AliasMap is read but never while the adder function is called. No swap
+// will take place if the adder function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
+	lock.Lock()
 	am := &aliasAdder{backingMap: *mapToReplace}
+	lock.Unlock()
 	adder(am)
 	if am.namedTypes.Len() > 0 {
+		added := am.resolved()
 		lock.Lock()
 		defer lock.Unlock()
-		*mapToReplace = (*mapToReplace).(*aliasMap).update(am)
+		*mapToReplace = (*mapToReplace).(*aliasMap).update(added)
 	}
 }
 
 // DefaultAliases returns the frozen default dgo.AliasMap
 func DefaultAliases() dgo.AliasMap {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	return defaultAliases
 }
 
@@ -68,6 +74,8 @@ func DefaultAliases() dgo.AliasMap {
 //
 // This method is intended for testing purposes only
 func ResetDefaultAliases() {
+	defaultLock.Lock()
+	defer defaultLock.Unlock()
 	defaultAliases = builtinAliases
 }
 
@@ -152,24 +160,21 @@ func (a *aliasMap) Collect(adder func(dgo.AliasAdder)) dgo.AliasMap {
 	am := &aliasAdder{backingMap: a}
 	adder(am)
 	if am.namedTypes.Len() > 0 {
-		return a.update(am)
+		return a.update(am.resolved())
 	}
 	return a
 }
 
-func (a *aliasMap) update(am *aliasAdder) dgo.AliasMap {
+// update returns a new alias map with the resolved entries added
+func (a *aliasMap) update(added dgo.Map) dgo.AliasMap {
 	// Create a new alias map with enough room to fit the new entries
 	c := &aliasMap{}
-	ns := am.namedTypes
-	na := ns.Len()
+	na := added.Len()
 	a.namedTypes.resize(&c.namedTypes, na)
 	a.typeNames.resize(&c.typeNames, na)
 
-	// Resolve the added entries
-	rs := ns.Map(func(e dgo.MapEntry) interface{} { return am.Replace(e.Value()) })
-
 	// Add entries to the new alias map
-	rs.EachEntry(func(e dgo.MapEntry) {
+	added.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
 		t := e.Value().(dgo.Type)
 		c.namedTypes.Put(name, t)
@@ -196,6 +201,11 @@ func (a *aliasMap) GetType(n dgo.String) dgo.Type {
 	return nil
 }
 
+// resolved returns the added entries with all aliases replaced
+func (a *aliasAdder) resolved() dgo.Map {
+	return a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
+}
+
 func (a *aliasAdder) Add(t dgo.Type, name dgo.String) {
 	a.namedTypes.Put(name, t)
 }
diff --git a/tf/type.go b/tf/type.go
index f6abf9b..d62c34b 100644
--- a/tf/type.go
+++ b/tf/type.go
@@ -45,7 +45,8 @@ func AddDefaultAliases(adderFunc func(aliasAdder dgo.AliasAdder)) {
 // a copy of the appointed AliasMap, add the entries to that copy, swap the appointed AliasMap for the copy,
 // and finally release the lock.
 //
-// No Locker is locked and no swap will take place if the adder function doesn't add anything.
+// The Locker is also locked when the appointed AliasMap is read but never while the adder function is called. No swap
+// will take place if the adder function doesn't add anything.
 func AddAliases(mapToReplace *dgo.AliasMap, lock sync.Locker, adder func(adder dgo.AliasAdder)) {
 	internal.AddAliases(mapToReplace, lock, adder)
 }
-- 
2.43.0


From f4883fdb5514d046556c2569bd8a30d0ff05aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 086/137] fix: an alias map forgets the name of a type when the
 name is redefined

---
 internal/alias.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index 44364a0..8392c91 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -172,12 +172,21 @@ func (a *aliasMap) update(added dgo.Map) dgo.AliasMap {
 	na := added.Len()
 	a.namedTypes.resize(&c.namedTypes, na)
 	a.typeNames.resize(&c.typeNames, na)
+	c.namedTypes.len = a.namedTypes.len
+	c.typeNames.len = a.typeNames.len
 
 	// Add entries to the new alias map
 	added.EachEntry(func(e dgo.MapEntry) {
 		name := e.Key().(dgo.String)
 		t := e.Value().(dgo.Type)
-		c.namedTypes.Put(name, t)
+		old, _ := c.namedTypes.Put(name, t).(dgo.Type)
+		if old != nil && name.Equals(c.typeNames.Get(old)) {
+			// The name no longer denotes the old type but some other name still might
+			c.typeNames.Remove(old)
+			if other := c.namedTypes.Find(func(e dgo.MapEntry) bool { return old.Equals(e.Value()) }); other != nil {
+				c.typeNames.Put(old, other.Key())
+			}
+		}
 		c.typeNames.Put(t, name)
 	})
 	c.namedTypes.Freeze()
-- 
2.43.0


From 98d34c5af0741e594b2d5ebf9e50dd755eeb6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 087/137] fix: types are normalized when their aliases have
 been replaced

---
 internal/alias.go     | 30 +++++++++++++++++++++---------
 internal/array.go     | 20 ++++++++++++++++++++
 internal/function.go  |  6 +++---
 internal/map.go       |  8 ++++++++
 internal/mapstruct.go | 12 ++++++++++++
 internal/not.go       |  7 +++++++
 6 files changed, 71 insertions(+), 12 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 8392c91..aed61f9 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -20,7 +20,13 @@ type (
 	aliasAdder struct {
 		namedTypes hashMap
 		backingMap dgo.AliasMap
-		visited    map[dgo.AliasContainer]bool
+		visited    map[dgo.AliasContainer]dgo.Value
+	}
+
+	// normalizer is implemented by types for which there is a more specific implementation that must be used when
+	// their aliases turn out to denote types of a certain kind.
+	normalizer interface {
+		normalized() dgo.Type
 	}
 
 	dType        = dgo.Type // To avoid collision with method named Type
@@ -234,7 +240,7 @@ func (a *aliasAdder) replaceAlias(t dgo.Alias) dgo.Type {
 		}
 		na, ok := ra.(dgo.Alias)
 		if !ok {
-			return ra
+			return a.Replace(ra).(dgo.Type)
 		}
 		t = na
 	}
@@ -248,22 +254,28 @@ func (a *aliasAdder) Replace(t dgo.Value) dgo.Value {
 	case dgo.Alias:
 		return a.replaceAlias(t)
 	case dgo.AliasContainer:
-		a.resolve(t)
+		return a.resolve(t.(dgo.Value), t)
 	}
 	return t
 }
 
 // resolve calls the Resolve method of the given container unless it was called already during the outermost call
-// to Replace. A container may contain itself.
-func (a *aliasAdder) resolve(c dgo.AliasContainer) {
+// to Replace, and returns the container or what it must be replaced with. A container may contain itself.
+func (a *aliasAdder) resolve(v dgo.Value, c dgo.AliasContainer) dgo.Value {
 	if a.visited == nil {
-		a.visited = make(map[dgo.AliasContainer]bool)
+		a.visited = make(map[dgo.AliasContainer]dgo.Value)
 		defer func() { a.visited = nil }()
 	}
-	if !a.visited[c] {
-		a.visited[c] = true
-		c.Resolve(a)
+	if r, ok := a.visited[c]; ok {
+		return r
+	}
+	a.visited[c] = v
+	c.Resolve(a)
+	if n, ok := v.(normalizer); ok {
+		v = n.normalized()
+		a.visited[c] = v
 	}
+	return v
 }
 
 // replaceAlias returns the replacement for the given value and true if the value must be replaced. A container that
diff --git a/internal/array.go b/internal/array.go
index 2f61fb8..7e5e416 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -273,6 +273,14 @@ func (t *sizedArrayType) Resolve(ap dgo.AliasAdder) {
 	resolveType(&t.elementType, ap)
 }
 
+func (t *sizedArrayType) normalized() dgo.Type {
+	nt := newArrayType(t.elementType, t.min, t.max)
+	if _, ok := nt.(*sizedArrayType); ok {
+		return t
+	}
+	return nt
+}
+
 func (t *sizedArrayType) ReflectType() reflect.Type {
 	return reflect.SliceOf(t.elementType.ReflectType())
 }
@@ -657,6 +665,18 @@ func (t *tupleType) Resolve(ap dgo.AliasAdder) {
 	resolveSlice(t.types, ap)
 }
 
+func (t *tupleType) normalized() dgo.Type {
+	ts := make([]interface{}, len(t.types))
+	for i := range ts {
+		ts[i] = t.types[i]
+	}
+	nt := newTupleType(ts, t.variadic)
+	if _, ok := nt.(*tupleType); ok && nt != DefaultTupleType {
+		return t
+	}
+	return nt
+}
+
 func (t *tupleType) String() string {
 	return TypeString(t)
 }
diff --git a/internal/function.go b/internal/function.go
index 59dbaf4..1cb9b61 100644
--- a/internal/function.go
+++ b/internal/function.go
@@ -270,9 +270,9 @@ func (t *functionType) Out() dgo.TupleType {
 }
 
 func (t *functionType) Resolve(ap dgo.AliasAdder) {
-	for _, tt := range []dgo.TupleType{t.arguments, t.returns} {
-		if ac, ok := tt.(dgo.AliasContainer); ok && tt != EmptyTupleType {
-			ac.Resolve(ap)
+	for _, tt := range []*dgo.TupleType{&t.arguments, &t.returns} {
+		if r, ok := replaceAlias(ap, *tt); ok {
+			*tt = r.(dgo.TupleType)
 		}
 	}
 }
diff --git a/internal/map.go b/internal/map.go
index 7c40dc7..e6438d7 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1182,6 +1182,14 @@ func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
 	resolveType(&t.valueType, ap)
 }
 
+func (t *sizedMapType) normalized() dgo.Type {
+	nt := newMapType(t.keyType, t.valueType, t.min, t.max)
+	if _, ok := nt.(*sizedMapType); ok {
+		return t
+	}
+	return nt
+}
+
 func (t *sizedMapType) String() string {
 	return TypeString(t)
 }
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 45756f1..3bd9da6 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -334,6 +334,18 @@ func (t *structType) Resolve(ap dgo.AliasAdder) {
 	t.checkExactKeys()
 }
 
+func (t *structType) normalized() dgo.Type {
+	if t.additional {
+		return t
+	}
+	for i := range t.required {
+		if !(t.required[i] && dgo.IsExact(t.values.slice[i].(dgo.Type))) {
+			return t
+		}
+	}
+	return createExactMap(t.keys.slice, t.values.slice)
+}
+
 func (t *structType) String() string {
 	return TypeString(t)
 }
diff --git a/internal/not.go b/internal/not.go
index ff88a75..c44a69a 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -91,6 +91,13 @@ func (t *notType) Resolve(ap dgo.AliasAdder) {
 	resolveType(&t.negated, ap)
 }
 
+func (t *notType) normalized() dgo.Type {
+	if nt, ok := t.negated.(*notType); ok && nt != t {
+		return nt.negated
+	}
+	return t
+}
+
 func (t *notType) String() string {
 	return TypeString(t)
 }
-- 
2.43.0


From 0b27870985f294df1e33b2f922ff164568de4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 088/137] fix: equality only assumes that values are equal when
 the same pair is compared again

---
 internal/compare.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index 99337ce..f704c6a 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -103,7 +103,8 @@ func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 
 // equals performs a deep equality comparison of a and b using the Value.Equals method. The given seen slice
 // is used to prevent endless recursion. The rationale using a slice rather than a map for this is that the
-// depth is typically very limited. The seen slice should be nil at the point where the comparison starts.
+// depth is typically very limited. The seen slice contains the pairs being compared and should be nil at the point where
+// the comparison starts.
 func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if a == b {
 		return true
@@ -115,16 +116,27 @@ func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
 	if !ok {
 		return a.Equals(b)
 	}
-	if util.RecursionHit(seen, a) {
-		// Recursion, so assume true
-		return true
-	}
-	db, ok := Value(b).(deepEqual)
+	bv := Value(b)
+	db, ok := bv.(deepEqual)
 	if !ok {
 		// Must be false since only one implements deepEqual
 		return false
 	}
-	return da.deepEqual(append(seen, a), db)
+	if pairHit(seen, a, bv) {
+		// Recursion, so assume true
+		return true
+	}
+	return da.deepEqual(append(seen, a, bv), db)
+}
+
+// pairHit returns true if the given seen slice, which holds pairs, contains the given pair in any order
+func pairHit(seen []dgo.Value, a, b dgo.Value) bool {
+	for i := 0; i < len(seen); i += 2 {
+		if a == seen[i] && b == seen[i+1] || a == seen[i+1] && b == seen[i] {
+			return true
+		}
+	}
+	return false
 }
 
 func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
-- 
2.43.0


From 475f956c7fff52c8f08633d688b8da95be7c3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 089/137] fix: comparison only assumes that values are equal
 when the same pair is compared again

---
 internal/compare.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index f704c6a..42cee72 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -178,9 +178,9 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		return 0, false
 	}
 
-	if util.RecursionHit(seen, a) {
+	if pairHit(seen, a, b) {
 		// Recursion, so assume equal
 		return 0, true
 	}
-	return da.deepCompare(append(seen, a), db)
+	return da.deepCompare(append(seen, a, b), db)
 }
-- 
2.43.0


From 101142c82caae5d87e8ead9453953a08ad5d55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 090/137] fix: the name of an alias is not used as the key when
 a struct type is printed

---
 stringer/typestring.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index fbee578..e301f5b 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -325,7 +325,7 @@ func (sb *typeBuilder) joinStructMapEntries(v dgo.StructMapType) {
 		} else {
 			util.WriteByte(sb, ',')
 		}
-		sb.buildTypeString(e.Key().(dgo.Type), commaPrio)
+		sb.buildUnaliased(e.Key().(dgo.Type), commaPrio)
 		if !e.Required() {
 			util.WriteByte(sb, '?')
 		}
@@ -416,7 +416,12 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 		util.WriteString(sb, tn.GoString())
 		return
 	}
+	sb.buildUnaliased(typ, prio)
+}
 
+// buildUnaliased builds the string for the given type but doesn't use an alias for the type itself. An alias would denote
+// a string when used as a key
+func (sb *typeBuilder) buildUnaliased(typ dgo.Type, prio int) {
 	ti := typ.TypeIdentifier()
 	if f, ok := sb.complexTypes[ti]; ok {
 		if util.RecursionHit(sb.seen, typ) {
-- 
2.43.0


From 48adb0dbdbdbbeb5d657f96be06263404efb84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 091/137] fix: the hash table of a map grows with the number of
 entries only

---
 internal/map.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index e6438d7..4123441 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -613,7 +613,7 @@ func (g *hashMap) Merge(associations dgo.Map) dgo.Map {
 		associations = associations.FrozenCopy().(dgo.Map)
 	}
 	c := &hashMap{len: l}
-	g.resize(c, l+associations.Len())
+	g.resize(c, associations.Len())
 	c.PutAll(associations)
 	c.frozen = g.frozen
 	return c
@@ -670,7 +670,7 @@ func (g *hashMap) PutAll(associations dgo.Map) {
 	}
 
 	l := g.len
-	if float64(l+al) > float64(l)*loadFactor {
+	if float64(l+al) > float64(len(g.table))*loadFactor {
 		g.resize(g, al)
 	}
 	tbl := g.table
@@ -914,9 +914,9 @@ func (g *hashMap) unchanged() dgo.Map {
 	return c
 }
 
-func (g *hashMap) resize(c *hashMap, capInc int) {
-	tbl := g.table
-	tl := tableSizeFor(len(tbl) + capInc)
+// resize gives c the entries of g in a table with enough room for that many more entries
+func (g *hashMap) resize(c *hashMap, more int) {
+	tl := tableSizeFor(int(math.Ceil(float64(g.len+more) / loadFactor)))
 	nt := make([]*hashNode, tl)
 	c.table = nt
 	tl--
-- 
2.43.0


From 33973945774a5a1408d96249fe09a547b78c787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 092/137] fix: the type that describes struct map types is
 created once

---
 internal/mapstruct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 3bd9da6..7508efc 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
 )
@@ -75,13 +76,14 @@ func StructMapType(additional bool, entries []dgo.StructMapEntry) dgo.StructMapT
 }
 
 var sfmType dgo.MapType
+var sfmOnce sync.Once
 
 // StructFromMapType returns the map type used when validating the map sent to
 // StructMapTypeFromMap
 func StructFromMapType() dgo.MapType {
-	if sfmType == nil {
+	sfmOnce.Do(func() {
 		sfmType = Parse(`map[string](dgo|type|{type:dgo|type,required?:bool,...})`).(dgo.MapType)
-	}
+	})
 	return sfmType
 }
 
-- 
2.43.0


From 3770d06cad4d038759ee1dc541af1e46d8742139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 093/137] fix: the generic form of a type that contains itself
 is found without endless recursion

---
 internal/array.go     | 20 ++++++++++++++++++--
 internal/map.go       | 12 ++++++++++--
 internal/mapstruct.go |  6 +++++-
 internal/sensitive.go | 10 +++++++++-
 internal/ternary.go   | 27 +++++++++++++++++++++++----
 internal/type.go      | 22 ++++++++++++++++++++--
 6 files changed, 85 insertions(+), 12 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index 7e5e416..a2b49ab 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -326,7 +326,19 @@ func (t *exactArrayType) ElementTypes() dgo.Array {
 }
 
 func (t *exactArrayType) Generic() dgo.Type {
-	return &sizedArrayType{elementType: Generic(t.ElementType()), min: 0, max: math.MaxInt64}
+	return generic(nil, t)
+}
+
+func (t *exactArrayType) deepGeneric(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, t.value) {
+		return DefaultAnyType
+	}
+	seen = append(seen, t.value)
+	var et dgo.Type = DefaultAnyType
+	if t.value.Len() > 0 {
+		et = commonGeneric(seen, t.value.slice, genericOfValue)
+	}
+	return &sizedArrayType{elementType: et, min: 0, max: math.MaxInt64}
 }
 
 func (t *exactArrayType) Len() int {
@@ -555,7 +567,11 @@ func tupleEquals(seen []dgo.Value, t dgo.TupleType, other interface{}) bool {
 }
 
 func (t *tupleType) Generic() dgo.Type {
-	return newArrayType(Generic(t.ElementType()), 0, math.MaxInt64)
+	return generic(nil, t)
+}
+
+func (t *tupleType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return newArrayType(generic(seen, t.ElementType()), 0, math.MaxInt64)
 }
 
 func (t *tupleType) HashCode() int {
diff --git a/internal/map.go b/internal/map.go
index 4123441..15f8727 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1285,8 +1285,16 @@ func (t *exactMapType) Each(actor func(dgo.StructMapEntry)) {
 }
 
 func (t *exactMapType) Generic() dgo.Type {
-	kt := Generic(t.KeyType())
-	vt := Generic(t.ValueType())
+	return generic(nil, t)
+}
+
+func (t *exactMapType) deepGeneric(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, t.value) {
+		return DefaultAnyType
+	}
+	seen = append(seen, t.value)
+	kt := generic(seen, t.KeyType())
+	vt := generic(seen, t.ValueType())
 	if kt == DefaultAnyType && vt == DefaultAnyType {
 		return DefaultMapType
 	}
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 7508efc..95889ca 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -231,11 +231,15 @@ func (t *structType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *structType) Generic() dgo.Type {
+	return generic(nil, t)
+}
+
+func (t *structType) deepGeneric(seen []dgo.Value) dgo.Type {
 	if t.additional {
 		// additional entries can have keys and values of any type
 		return DefaultMapType
 	}
-	return newMapType(Generic(t.KeyType()), Generic(t.ValueType()), 0, math.MaxInt64)
+	return newMapType(generic(seen, t.KeyType()), generic(seen, t.ValueType()), 0, math.MaxInt64)
 }
 
 func (t *structType) HashCode() int {
diff --git a/internal/sensitive.go b/internal/sensitive.go
index c733ffc..dc60a93 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -174,7 +175,14 @@ func (v *sensitive) String() string {
 }
 
 func (v *sensitive) Type() dgo.Type {
-	return &sensitiveType{wrapped: Generic(v.value.Type())}
+	return v.deepType(nil)
+}
+
+func (v *sensitive) deepType(seen []dgo.Value) dgo.Type {
+	if util.RecursionHit(seen, v) {
+		return &sensitiveType{wrapped: DefaultAnyType}
+	}
+	return &sensitiveType{wrapped: genericOfValue(append(seen, v), v.value)}
 }
 
 func (v *sensitive) Unwrap() dgo.Value {
diff --git a/internal/ternary.go b/internal/ternary.go
index 861f39f..ac2cc41 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -88,7 +88,11 @@ func (t *allOfType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 }
 
 func (t *allOfType) Generic() dgo.Type {
-	return commonGeneric(t.slice, typeAsType)
+	return generic(nil, t)
+}
+
+func (t *allOfType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, genericOfType)
 }
 
 func (t *allOfType) HashCode() int {
@@ -174,7 +178,11 @@ func (t *allOfValueType) AssignableTo(guard dgo.RecursionGuard, other dgo.Type)
 }
 
 func (t *allOfValueType) Generic() dgo.Type {
-	return commonGeneric(t.slice, valueAsType)
+	return generic(nil, t)
+}
+
+func (t *allOfValueType) deepGeneric(seen []dgo.Value) dgo.Type {
+	return commonGeneric(seen, t.slice, genericOfValue)
 }
 
 func (t *allOfValueType) Equals(other interface{}) bool {
@@ -474,10 +482,10 @@ func (t *oneOfType) TypeIdentifier() dgo.TypeIdentifier {
 
 // commonGeneric returns the least generic type that is assignable from all types given
 // in the slice.
-func commonGeneric(s []dgo.Value, fc func(dgo.Value) dgo.Type) dgo.Type {
+func commonGeneric(seen, s []dgo.Value, fc func([]dgo.Value, dgo.Value) dgo.Type) dgo.Type {
 	var prev dgo.Type
 	for i := range s {
-		rt := Generic(fc(s[i]))
+		rt := fc(seen, s[i])
 		if prev != nil {
 			if prev.Assignable(rt) {
 				// prev is equal or more generic
@@ -599,3 +607,14 @@ func typeAsType(v dgo.Value) dgo.Type {
 func valueAsType(v dgo.Value) dgo.Type {
 	return v.Type()
 }
+
+func genericOfType(seen []dgo.Value, v dgo.Value) dgo.Type {
+	return generic(seen, v.(dgo.Type))
+}
+
+func genericOfValue(seen []dgo.Value, v dgo.Value) dgo.Type {
+	if s, ok := v.(*sensitive); ok {
+		return s.deepType(seen)
+	}
+	return generic(seen, v.Type())
+}
diff --git a/internal/type.go b/internal/type.go
index e108ebb..6c5dde8 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 // CheckAssignableTo checks if the given type t implements the ReverseAssignable interface and if
@@ -73,8 +74,25 @@ func ExactValue(value dgo.Value) dgo.Value {
 // and also range and size information. Nested types will return a generic version of the contained
 // types as well.
 func Generic(t dgo.Type) dgo.Type {
-	if et, ok := t.(dgo.GenericType); ok {
-		return et.Generic()
+	return generic(nil, t)
+}
+
+// deepGeneric is implemented by generic types that may contain themselves.
+type deepGeneric interface {
+	deepGeneric(seen []dgo.Value) dgo.Type
+}
+
+// generic returns the generic form of the given type. The seen slice contains the types and values that the type is
+// nested in. It is used to prevent endless recursion. The generic form of a type that is found in that slice is Any.
+func generic(seen []dgo.Value, t dgo.Type) dgo.Type {
+	switch gt := t.(type) {
+	case deepGeneric:
+		if util.RecursionHit(seen, t) {
+			return DefaultAnyType
+		}
+		return gt.deepGeneric(append(seen, t))
+	case dgo.GenericType:
+		return gt.Generic()
 	}
 	return t
 }
-- 
2.43.0


From beee232997ff05c2c9c2eaf8c2dde6792e9f25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 094/137] fix: values that contain themselves can be copied

---
 internal/array.go     | 22 +++++++---------
 internal/compare.go   | 32 +++++++++++++++++++++++
 internal/map.go       | 61 ++++++++++++++++++-------------------------
 internal/sensitive.go | 15 ++++++-----
 4 files changed, 76 insertions(+), 54 deletions(-)

diff --git a/internal/array.go b/internal/array.go
index a2b49ab..d1f68b4 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -991,24 +991,20 @@ func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
 }
 
 func (v *array) Copy(frozen bool) dgo.Array {
+	return v.deepCopy(nil, frozen).(dgo.Array)
+}
+
+func (v *array) deepCopy(ongoing *copying, frozen bool) dgo.Value {
 	if frozen && v.frozen {
 		return v
 	}
 	cp := util.SliceCopy(v.slice)
-	if frozen {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.FrozenCopy()
-			}
-		}
-	} else {
-		for i := range cp {
-			if f, ok := cp[i].(dgo.Freezable); ok {
-				cp[i] = f.ThawedCopy()
-			}
-		}
+	c := &array{slice: cp, frozen: frozen}
+	ongoing = &copying{original: v, copy: c, outer: ongoing}
+	for i := range cp {
+		cp[i] = copyValue(ongoing, cp[i], frozen)
 	}
-	return &array{slice: cp, frozen: frozen}
+	return c
 }
 
 func (v *array) ContainsAll(other dgo.Iterable) bool {
diff --git a/internal/compare.go b/internal/compare.go
index 42cee72..f54c165 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -40,6 +40,38 @@ func (s *doubleSeen) Swap() dgo.RecursionGuard {
 	return &doubleSeen{aSeen: s.bSeen, bSeen: s.aSeen, hit: s.hit}
 }
 
+// deepCopy is implemented by freezable values that may contain themselves.
+type deepCopy interface {
+	deepCopy(ongoing *copying, frozen bool) dgo.Value
+}
+
+// copying is an element in the chain of collections that are being copied
+type copying struct {
+	original dgo.Value
+	copy     dgo.Value
+	outer    *copying
+}
+
+// copyValue returns a frozen or thawed copy of the given value. A value that contains itself becomes a copy that
+// contains itself.
+func copyValue(ongoing *copying, v dgo.Value, frozen bool) dgo.Value {
+	for c := ongoing; c != nil; c = c.outer {
+		if c.original == v {
+			return c.copy
+		}
+	}
+	switch f := v.(type) {
+	case deepCopy:
+		return f.deepCopy(ongoing, frozen)
+	case dgo.Freezable:
+		if frozen {
+			return f.FrozenCopy()
+		}
+		return f.ThawedCopy()
+	}
+	return v
+}
+
 type deepCompare interface {
 	deepCompare(seen []dgo.Value, other deepCompare) (int, bool)
 }
diff --git a/internal/map.go b/internal/map.go
index 15f8727..09baba3 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -123,32 +123,36 @@ func (v *mapEntry) Frozen() bool {
 }
 
 func (v *mapEntry) FrozenCopy() dgo.Value {
-	if v.Frozen() {
-		return v
-	}
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyFreeze()
-	return c
+	return v.deepCopy(nil, true)
 }
 
 func (v *mapEntry) ThawedCopy() dgo.Value {
-	c := &mapEntry{key: v.key, value: v.value}
-	c.copyThaw()
-	return c
+	return v.deepCopy(nil, false)
 }
 
-func (v *hashNode) FrozenCopy() dgo.Value {
-	if v.Frozen() {
+func (v *mapEntry) deepCopy(ongoing *copying, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
 		return v
 	}
-	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyFreeze()
+	c := &mapEntry{key: v.key, value: v.value}
+	c.value = copyValue(&copying{original: v, copy: c, outer: ongoing}, v.value, frozen)
 	return c
 }
 
+func (v *hashNode) FrozenCopy() dgo.Value {
+	return v.deepCopy(nil, true)
+}
+
 func (v *hashNode) ThawedCopy() dgo.Value {
+	return v.deepCopy(nil, false)
+}
+
+func (v *hashNode) deepCopy(ongoing *copying, frozen bool) dgo.Value {
+	if frozen && v.Frozen() {
+		return v
+	}
 	c := &hashNode{mapEntry: mapEntry{key: v.key, value: v.value}}
-	c.copyThaw()
+	c.value = copyValue(&copying{original: v, copy: c, outer: ongoing}, v.value, frozen)
 	return c
 }
 
@@ -170,18 +174,6 @@ func (v *mapEntry) Value() dgo.Value {
 	return v.value
 }
 
-func (v *mapEntry) copyFreeze() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.FrozenCopy()
-	}
-}
-
-func (v *mapEntry) copyThaw() {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		v.value = f.ThawedCopy()
-	}
-}
-
 var emptyMap = &hashMap{frozen: true}
 
 // Map creates an immutable dgo.Map from the given slice which must have 0, 1, or an
@@ -435,20 +427,19 @@ func (g *hashMap) ContainsKey(key interface{}) bool {
 }
 
 func (g *hashMap) Copy(frozen bool) dgo.Map {
+	return g.deepCopy(nil, frozen).(dgo.Map)
+}
+
+func (g *hashMap) deepCopy(ongoing *copying, frozen bool) dgo.Value {
 	if frozen && g.frozen {
 		return g
 	}
 
 	c := &hashMap{len: g.len, frozen: frozen}
 	g.resize(c, 0)
-	if frozen {
-		for e := c.first; e != nil; e = e.next {
-			e.copyFreeze()
-		}
-	} else {
-		for e := c.first; e != nil; e = e.next {
-			e.copyThaw()
-		}
+	ongoing = &copying{original: g, copy: c, outer: ongoing}
+	for e := c.first; e != nil; e = e.next {
+		e.value = copyValue(ongoing, e.value, frozen)
 	}
 	return c
 }
@@ -595,7 +586,7 @@ func (g *hashMap) Map(mapper dgo.EntryMapper) dgo.Map {
 	for e := c.first; e != nil; e = e.next {
 		e.value = Value(mapper(e))
 		if g.frozen {
-			e.copyFreeze()
+			e.value = frozenCopy(e.value)
 		}
 	}
 	return c
diff --git a/internal/sensitive.go b/internal/sensitive.go
index dc60a93..f8964e4 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -149,15 +149,18 @@ func (v *sensitive) Frozen() bool {
 }
 
 func (v *sensitive) FrozenCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok && !f.Frozen() {
-		return &sensitive{f.FrozenCopy()}
-	}
-	return v
+	return v.deepCopy(nil, true)
 }
 
 func (v *sensitive) ThawedCopy() dgo.Value {
-	if f, ok := v.value.(dgo.Freezable); ok {
-		return &sensitive{f.ThawedCopy()}
+	return v.deepCopy(nil, false)
+}
+
+func (v *sensitive) deepCopy(ongoing *copying, frozen bool) dgo.Value {
+	if f, ok := v.value.(dgo.Freezable); ok && !(frozen && f.Frozen()) {
+		c := &sensitive{v.value}
+		c.value = copyValue(&copying{original: v, copy: c, outer: ongoing}, v.value, frozen)
+		return c
 	}
 	return v
 }
-- 
2.43.0


From b99221e48f086828ee6eecfedb20667021742816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 095/137] fix: the type of a value that contains itself can be
 printed

---
 stringer/typestring.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index e301f5b..76a90be 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -419,19 +419,32 @@ func (sb *typeBuilder) buildTypeString(typ dgo.Type, prio int) {
 	sb.buildUnaliased(typ, prio)
 }
 
+// recursionKey returns what identifies the given type when it is found again inside of itself. The exact type of a
+// collection is created each time it is needed so it is identified by the collection.
+func recursionKey(typ dgo.Type) dgo.Value {
+	if et, ok := typ.(dgo.ExactType); ok {
+		switch v := et.ExactValue().(type) {
+		case dgo.Array, dgo.Map:
+			return v
+		}
+	}
+	return typ
+}
+
 // buildUnaliased builds the string for the given type but doesn't use an alias for the type itself. An alias would denote
 // a string when used as a key
 func (sb *typeBuilder) buildUnaliased(typ dgo.Type, prio int) {
 	ti := typ.TypeIdentifier()
 	if f, ok := sb.complexTypes[ti]; ok {
-		if util.RecursionHit(sb.seen, typ) {
+		key := recursionKey(typ)
+		if util.RecursionHit(sb.seen, key) {
 			util.WriteString(sb, `<recursive self reference to `)
 			util.WriteString(sb, ti.String())
 			util.WriteString(sb, ` type>`)
 			return
 		}
 		os := sb.seen
-		sb.seen = append(sb.seen, typ)
+		sb.seen = append(sb.seen, key)
 		f(typ, prio)
 		sb.seen = os
 	} else {
-- 
2.43.0


From bd323b2e9b033f1dcd20b187fe068741d38675d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 096/137] fix: negated types that contain themselves are
 compared and used without endless recursion

---
 internal/not.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/internal/not.go b/internal/not.go
index c44a69a..498588c 100644
--- a/internal/not.go
+++ b/internal/not.go
@@ -23,25 +23,37 @@ func NotType(t dgo.Type) dgo.Type {
 }
 
 func (t *notType) Equals(other interface{}) bool {
+	return equals(nil, t, other)
+}
+
+func (t *notType) deepEqual(seen []dgo.Value, other deepEqual) bool {
 	if ot, ok := other.(*notType); ok {
-		return t.negated.Equals(ot.negated)
+		return equals(seen, t.negated, ot.negated)
 	}
 	return false
 }
 
 func (t *notType) HashCode() int {
-	return 1579 + t.negated.HashCode()
+	return deepHashCode(nil, t)
+}
+
+func (t *notType) deepHashCode(seen []dgo.Value) int {
+	return 1579 + deepHashCode(seen, t.negated)
 }
 
 func (t *notType) Assignable(other dgo.Type) bool {
+	return Assignable(nil, t, other)
+}
+
+func (t *notType) DeepAssignable(guard dgo.RecursionGuard, other dgo.Type) bool {
 	switch ot := other.(type) {
 	case *notType:
 		// Reverse order of Negated test
-		return ot.negated.Assignable(t.negated)
+		return Assignable(guard, ot.negated, t.negated)
 	case *anyOfType:
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				return true
 			}
 		}
@@ -49,7 +61,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 	case *allOfType:
 		ts := ot.slice
 		for i := range ts {
-			if !t.Assignable(ts[i].(dgo.Type)) {
+			if !Assignable(guard, t, ts[i].(dgo.Type)) {
 				return false
 			}
 		}
@@ -58,7 +70,7 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		f := false
 		ts := ot.slice
 		for i := range ts {
-			if t.Assignable(ts[i].(dgo.Type)) {
+			if Assignable(guard, t, ts[i].(dgo.Type)) {
 				if f {
 					return false
 				}
@@ -67,12 +79,16 @@ func (t *notType) Assignable(other dgo.Type) bool {
 		}
 		return f
 	default:
-		return !t.negated.Assignable(other)
+		return !Assignable(guard, t.negated, other)
 	}
 }
 
 func (t *notType) Instance(value interface{}) bool {
-	return !t.negated.Instance(value)
+	return Instance(nil, t, value)
+}
+
+func (t *notType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
+	return !Instance(guard, t.negated, value)
 }
 
 func (t *notType) Operand() dgo.Type {
-- 
2.43.0


From 7ae4fdc8ef5cd7b1243328e1341d9c89172e2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 097/137] fix: meta types that contain themselves are compared
 without endless recursion

---
 internal/meta.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/meta.go b/internal/meta.go
index a889741..b1427ca 100644
--- a/internal/meta.go
+++ b/internal/meta.go
@@ -44,19 +44,27 @@ func (t *metaType) Describes() dgo.Type {
 }
 
 func (t *metaType) Equals(v interface{}) bool {
-	if mt, ok := v.(*metaType); ok {
+	return equals(nil, t, v)
+}
+
+func (t *metaType) deepEqual(seen []dgo.Value, other deepEqual) bool {
+	if mt, ok := other.(*metaType); ok {
 		if t.tp == nil {
 			return mt.tp == nil
 		}
-		return t.tp.Equals(mt.tp)
+		return mt.tp != nil && equals(seen, t.tp, mt.tp)
 	}
 	return false
 }
 
 func (t *metaType) HashCode() int {
+	return deepHashCode(nil, t)
+}
+
+func (t *metaType) deepHashCode(seen []dgo.Value) int {
 	h := int(dgo.TiMeta) * 1321
 	if t.tp != nil {
-		h += t.tp.HashCode()
+		h += deepHashCode(seen, t.tp)
 	}
 	return h
 }
-- 
2.43.0


From 8088dfbb11028d80e5b5426813eb1f1c72a6bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 098/137] fix: instances of sensitive types that contain
 themselves are found without endless recursion

---
 internal/sensitive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index f8964e4..174c203 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -65,8 +65,12 @@ func (t *sensitiveType) deepHashCode(seen []dgo.Value) int {
 }
 
 func (t *sensitiveType) Instance(value interface{}) bool {
+	return Instance(nil, t, value)
+}
+
+func (t *sensitiveType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
 	if ov, ok := value.(*sensitive); ok {
-		return t.wrapped.Instance(ov.value)
+		return Instance(guard, t.wrapped, ov.value)
 	}
 	return false
 }
-- 
2.43.0


From 61f42cbbc907c189c6e6eb82d0e76b7197f3c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 099/137] fix: an alias that is defined using itself as an
 operand is rejected

---
 internal/alias.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index aed61f9..378e674 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -5,6 +5,7 @@ import (
 	"sync"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 )
 
 type (
@@ -218,7 +219,39 @@ func (a *aliasMap) GetType(n dgo.String) dgo.Type {
 
 // resolved returns the added entries with all aliases replaced
 func (a *aliasAdder) resolved() dgo.Map {
-	return a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
+	m := a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
+	m.EachEntry(func(e dgo.MapEntry) {
+		if isOperandOf(nil, e.Value(), e.Value()) {
+			panic(fmt.Errorf(`the alias '%s' is defined using itself as an operand`, e.Key()))
+		}
+	})
+	return m
+}
+
+// isOperandOf returns true if the given type is an operand of t, or an operand of an operand of t. There's no way to tell
+// what is an instance of such a type.
+func isOperandOf(seen []dgo.Value, tp, t dgo.Value) bool {
+	if util.RecursionHit(seen, t) {
+		return false
+	}
+	seen = append(seen, t)
+	var operands []dgo.Value
+	switch t := t.(type) {
+	case *notType:
+		operands = []dgo.Value{t.negated}
+	case *allOfType:
+		operands = t.slice
+	case *anyOfType:
+		operands = t.slice
+	case *oneOfType:
+		operands = t.slice
+	}
+	for _, op := range operands {
+		if op == tp || isOperandOf(seen, tp, op) {
+			return true
+		}
+	}
+	return false
 }
 
 func (a *aliasAdder) Add(t dgo.Type, name dgo.String) {
-- 
2.43.0


From 0900520fb6bad1cf3bb95cea5a3b7009676bc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 100/137] fix: an alias whose operands contain themselves is
 rejected

---
 internal/alias.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index 378e674..a84364f 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -221,18 +221,18 @@ func (a *aliasMap) GetType(n dgo.String) dgo.Type {
 func (a *aliasAdder) resolved() dgo.Map {
 	m := a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
 	m.EachEntry(func(e dgo.MapEntry) {
-		if isOperandOf(nil, e.Value(), e.Value()) {
+		if hasOperandCycle(nil, e.Value()) {
 			panic(fmt.Errorf(`the alias '%s' is defined using itself as an operand`, e.Key()))
 		}
 	})
 	return m
 }
 
-// isOperandOf returns true if the given type is an operand of t, or an operand of an operand of t. There's no way to tell
-// what is an instance of such a type.
-func isOperandOf(seen []dgo.Value, tp, t dgo.Value) bool {
+// hasOperandCycle returns true if the operands of the given type, or the operands of those operands, are an operator that
+// is reached again through its own operands. There's no way to tell what is an instance of such a type.
+func hasOperandCycle(seen []dgo.Value, t dgo.Value) bool {
 	if util.RecursionHit(seen, t) {
-		return false
+		return true
 	}
 	seen = append(seen, t)
 	var operands []dgo.Value
@@ -247,7 +247,7 @@ func isOperandOf(seen []dgo.Value, tp, t dgo.Value) bool {
 		operands = t.slice
 	}
 	for _, op := range operands {
-		if op == tp || isOperandOf(seen, tp, op) {
+		if hasOperandCycle(seen, op) {
 			return true
 		}
 	}
-- 
2.43.0


From 6e218be5a76dd14ccda652f927a462212ab3fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 101/137] fix: a new value of a sensitive type is an instance
 of that type

---
 internal/sensitive.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index 174c203..e67f23b 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -94,10 +94,14 @@ func (t *sensitiveType) New(arg dgo.Value) dgo.Value {
 		args.AssertSize(`sensitive`, 1, 1)
 		arg = args.Get(0)
 	}
-	if s, ok := arg.(dgo.Sensitive); ok {
-		return s
+	s, ok := arg.(dgo.Sensitive)
+	if !ok {
+		s = Sensitive(arg)
 	}
-	return Sensitive(arg)
+	if !t.Instance(s) {
+		panic(IllegalAssignment(t, s))
+	}
+	return s
 }
 
 func (t *sensitiveType) Resolve(ap dgo.AliasAdder) {
-- 
2.43.0


From 468e717273b2ed62993236d4422629b42c67ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:56 +0000
Subject: [PATCH 102/137] fix: a float that doesn't fit an int can't be
 converted to an int or a time

---
 internal/integer.go | 4 +++-
 internal/time.go    | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/integer.go b/internal/integer.go
index 5c90e63..5d0d6d6 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -409,7 +409,9 @@ func intFromConvertible(from dgo.Value, radix int) int64 {
 	case dgo.Integer:
 		return from.GoInt()
 	case dgo.Float:
-		return int64(from.GoFloat())
+		if f := from.GoFloat(); f >= math.MinInt64 && f < math.MaxInt64 {
+			return int64(f)
+		}
 	case *timeVal:
 		return from.GoTime().Unix()
 	case dgo.Boolean:
diff --git a/internal/time.go b/internal/time.go
index 6176d89..86c35a1 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"fmt"
 	"math"
 	"reflect"
 	"time"
@@ -105,6 +106,9 @@ func newTime(t dgo.Type, arg dgo.Value) dgo.Time {
 		tv = Time(time.Unix(arg.GoInt(), 0))
 	case dgo.Float:
 		s, f := math.Modf(arg.GoFloat())
+		if !(s >= math.MinInt64 && s < math.MaxInt64) {
+			panic(fmt.Errorf(`the value '%s' cannot be converted to a time`, arg))
+		}
 		tv = Time(time.Unix(int64(s), int64(f*1000000000.0)))
 	case dgo.String:
 		tv = TimeFromString(arg.GoString())
-- 
2.43.0


From 57f69f9e172ecd712800d83099dd0dc0f1f0a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 103/137] fix: the content of a sensitive value isn't revealed
 by any formatting verb

---
 internal/sensitive.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/sensitive.go b/internal/sensitive.go
index e67f23b..4190d32 100644
--- a/internal/sensitive.go
+++ b/internal/sensitive.go
@@ -1,6 +1,7 @@
 package internal
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/lyraproj/dgo/dgo"
@@ -173,6 +174,11 @@ func (v *sensitive) deepCopy(ongoing *copying, frozen bool) dgo.Value {
 	return v
 }
 
+// Format ensures that the wrapped value isn't revealed regardless of what verb that is used when formatting
+func (v *sensitive) Format(s fmt.State, _ rune) {
+	util.WriteString(s, v.String())
+}
+
 func (v *sensitive) HashCode() int {
 	return deepHashCode(nil, v)
 }
-- 
2.43.0


From e31fa60dae981faf6d0c4eed1d597c63fb24be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 104/137] fix: pcore Number contains exactly the integers and
 floats between its limits

---
 streamer/pcore/parser.go | 55 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/streamer/pcore/parser.go b/streamer/pcore/parser.go
index 31770f9..45a8c2f 100644
--- a/streamer/pcore/parser.go
+++ b/streamer/pcore/parser.go
@@ -462,12 +462,59 @@ func integerType(p *pcoreParser) dgo.Value {
 }
 
 func numberType(p *pcoreParser) dgo.Value {
-	tp := floatType(p).(dgo.FloatType)
+	if p.PeekToken().Type == '[' {
+		p.NextToken()
+		p.array()
+		args := vf.ArgumentsFromArray(p.PopLast().(dgo.Array))
+		args.AssertSize(`Number`, 1, 2)
+		if args.Len() == 1 {
+			args = vf.Arguments(args.Get(0), defaultLiteral)
+		}
+		from := getFloat(`Number`, args, 0, -math.MaxFloat64)
+		to := getFloat(`Number`, args, 1, math.MaxFloat64)
+		lo, hi := args.Get(0), args.Get(1)
+		if c, ok := lo.(dgo.Comparable).CompareTo(hi); ok && c > 0 {
+			lo, hi = hi, lo
+		}
+		tp := tf.Float(from, to, true)
+		if min, max, ok := integersBetween(lo, hi); ok {
+			return tf.AnyOf(tf.Integer(min, max, true), tp)
+		}
+		return tp
+	}
+	return tf.AnyOf(typ.Integer, typ.Float)
+}
+
+// integersBetween returns the smallest and the largest integer between, and including, the given limits. The
+// returned boolean is false if there are no such integers.
+func integersBetween(lo, hi dgo.Value) (int64, int64, bool) {
+	min := int64(math.MinInt64)
 	max := int64(math.MaxInt64)
-	if tp.Max() != math.MaxFloat64 {
-		max = int64(tp.Max())
+	switch lo := lo.(type) {
+	case dgo.Integer:
+		min = lo.GoInt()
+	case dgo.Float:
+		f := math.Ceil(lo.GoFloat())
+		if f >= math.MaxInt64 {
+			return 0, 0, false
+		}
+		if f > math.MinInt64 {
+			min = int64(f)
+		}
+	}
+	switch hi := hi.(type) {
+	case dgo.Integer:
+		max = hi.GoInt()
+	case dgo.Float:
+		f := math.Floor(hi.GoFloat())
+		if f < math.MinInt64 {
+			return 0, 0, false
+		}
+		if f < math.MaxInt64 {
+			max = int64(f)
+		}
 	}
-	return tf.AnyOf(tf.Integer(int64(tp.Min()), max, true), tp)
+	return min, max, min <= max
 }
 
 func notUndefType(p *pcoreParser) dgo.Value {
-- 
2.43.0


From b4eae18cbe1b6c07c82742303745a843b3e1170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 105/137] fix: the pcore dialect uses the given alias map

---
 streamer/pcore/pcoredialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamer/pcore/pcoredialect.go b/streamer/pcore/pcoredialect.go
index cc42c65..8e22e4e 100644
--- a/streamer/pcore/pcoredialect.go
+++ b/streamer/pcore/pcoredialect.go
@@ -58,5 +58,5 @@ func (d pcoreDialect) TimeTypeName() dgo.String {
 }
 
 func (d pcoreDialect) ParseType(aliasMap dgo.AliasAdder, typeString dgo.String) (dt dgo.Type) {
-	return typ.AsType(Parse(typeString.GoString()))
+	return typ.AsType(ParseFile(aliasMap, ``, typeString.GoString()))
 }
-- 
2.43.0


From 85daaf7faf0414b33f0b07a2c1cd1c37d4725770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 106/137] fix: the text of an indenter can be retrieved
 repeatedly, and keeps its bytes

---
 util/indenter.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/util/indenter.go b/util/indenter.go
index ba2efa8..fc9f3cc 100644
--- a/util/indenter.go
+++ b/util/indenter.go
@@ -3,7 +3,6 @@ package util
 import (
 	"bytes"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 
@@ -50,28 +49,19 @@ func (i *indenter) Reset() {
 }
 
 func (i *indenter) String() string {
-	n := bytes.NewBuffer(make([]byte, 0, i.b.Len()))
-	wb := &bytes.Buffer{}
-	for {
-		r, _, err := i.b.ReadRune()
-		if err == io.EOF {
-			break
+	bs := i.b.Bytes()
+	n := make([]byte, 0, len(bs))
+	for _, b := range bs {
+		if b == '\n' {
+			n = trimTrailingSpace(n)
 		}
-		if r == ' ' || r == '\t' {
-			// Defer whitespace output
-			WriteByte(wb, byte(r))
-			continue
-		}
-		if r == '\n' {
-			// Truncate trailing space
-			wb.Reset()
-		} else if wb.Len() > 0 {
-			_, _ = n.Write(wb.Bytes())
-			wb.Reset()
-		}
-		WriteRune(n, r)
+		n = append(n, b)
 	}
-	return n.String()
+	return string(trimTrailingSpace(n))
+}
+
+func trimTrailingSpace(bs []byte) []byte {
+	return bytes.TrimRight(bs, " \t")
 }
 
 func (i *indenter) WriteString(s string) (n int, err error) {
-- 
2.43.0


From 57c915c456a660ffb6daf80f43cdb9193c63ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 107/137] fix: a named type without an implementation type
 doesn't panic when checked for assignability

---
 internal/named.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 3d4e84d..a25a9c6 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -35,7 +35,13 @@ var namedTypes = sync.Map{}
 
 func defaultAsgChecker(t dgo.NamedType, other dgo.Type) bool {
 	if ot, ok := other.(dgo.NamedType); ok {
-		return ot.ReflectType().AssignableTo(t.AssignableType())
+		tt := t.AssignableType()
+		rt := ot.ReflectType()
+		if tt == nil || rt == nil {
+			// only the name is known
+			return t.Name() == ot.Name()
+		}
+		return rt.AssignableTo(tt)
 	}
 	return false
 }
-- 
2.43.0


From fda0cdafdbe0d6128cf214fcd4fa47f12dd9b4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 108/137] fix: a new value of a named type is an instance of
 that type

---
 internal/named.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index a25a9c6..841b0f1 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -265,7 +265,7 @@ func newNamed(rt dgo.NamedType, arg dgo.Value) dgo.Value {
 		panic(fmt.Errorf(`creating new instances of %s is not possible`, rt.Name()))
 	}
 	v := t.ctor(arg)
-	if t.asgChecker == nil || t.asgChecker(rt, v.Type()) {
+	if rt.Instance(v) {
 		return v
 	}
 	panic(IllegalAssignment(rt, v))
-- 
2.43.0


From 728ef8505796f73358086b7d19073a427cdeb449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 109/137] fix: the generic type of an exact named type has no
 parameters

---
 internal/named.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 841b0f1..83dda0a 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -240,7 +240,7 @@ func (t *parameterized) Type() dgo.Type {
 }
 
 func (t *exactNamed) Generic() dgo.Type {
-	return t.NamedTypeExtension.(dgo.Type)
+	return Generic(t.NamedTypeExtension.(dgo.Type))
 }
 
 func (t *exactNamed) New(arg dgo.Value) dgo.Value {
-- 
2.43.0


From 1784d8c4633fab49dbe545f381eff6f89cd9ac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 110/137] fix: a named value can be streamed regardless of its
 Go kind and of the content of its init argument

---
 streamer/streamer.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/streamer/streamer.go b/streamer/streamer.go
index 28e92ec..ac7d863 100644
--- a/streamer/streamer.go
+++ b/streamer/streamer.go
@@ -125,13 +125,13 @@ func (sc *context) emitData(value dgo.Value) {
 }
 
 func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
-	sc.process(value, func() {
+	emit := func() {
 		v := t.ExtractInitArg(value)
 		d := sc.config.Dialect
 		sc.addMap(2, func() {
 			sc.addData(d.TypeKey())
 			sc.addData(vf.String(t.Name()))
-			if vm, ok := v.(dgo.Map); ok {
+			if vm, ok := v.(dgo.Map); ok && canBeFlattened(d, vm) {
 				vm.EachEntry(func(e dgo.MapEntry) {
 					sc.addData(e.Key())
 					sc.emitData(e.Value())
@@ -141,6 +141,28 @@ func (sc *context) emitNamed(t dgo.NamedType, value dgo.Value) {
 				sc.emitData(v)
 			}
 		})
+	}
+	if hashable(value) {
+		sc.process(value, emit)
+	} else {
+		emit()
+	}
+}
+
+// hashable returns true if the given value can be used as the key of a Go map
+func hashable(value interface{}) (ok bool) {
+	defer func() {
+		ok = recover() == nil
+	}()
+	_ = map[interface{}]bool{value: true}
+	return
+}
+
+// canBeFlattened returns true if the entries of the given map can be added to a map that also has a type key
+func canBeFlattened(d Dialect, m dgo.Map) bool {
+	return m.Len() > 0 && m.AllKeys(func(k dgo.Value) bool {
+		_, ok := k.(dgo.String)
+		return ok && !(k.Equals(d.TypeKey()) || k.Equals(d.ValueKey()) || k.Equals(d.RefKey()))
 	})
 }
 
-- 
2.43.0


From df4f00824f5aecdd83a986572f71310918abfaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 111/137] fix: the argument of a named type ends before an
 operator

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ee17e67..ab2d2ee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -665,7 +665,7 @@ func (p *parser) namedType(t *Token) dgo.Value {
 	tp := p.aliasReference(t)
 	if nt, ok := tp.(dgo.NamedType); ok {
 		if !isExpressionEnd(rune(p.PeekToken().Type)) {
-			p.anyOf(p.NextToken())
+			p.unary(p.NextToken())
 			tp = nt.New(internal.ExactValue(p.PopLast()))
 		}
 	}
-- 
2.43.0


From 5c4bb98c62130c03babbec3ee86be04f72c8c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 112/137] fix: the text of a parameterized named type can be
 parsed

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index ab2d2ee..2c463c0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -664,6 +664,12 @@ func (p *parser) identifier(t *Token, returnUnknown bool) dgo.Value {
 func (p *parser) namedType(t *Token) dgo.Value {
 	tp := p.aliasReference(t)
 	if nt, ok := tp.(dgo.NamedType); ok {
+		if p.PeekToken().Type == '[' {
+			p.NextToken()
+			p.params()
+			nt = internal.ParameterizedType(nt, p.PopLast().(dgo.Array))
+			tp = nt
+		}
 		if !isExpressionEnd(rune(p.PeekToken().Type)) {
 			p.unary(p.NextToken())
 			tp = nt.New(internal.ExactValue(p.PopLast()))
-- 
2.43.0


From 7bd16cf1934f4e349271d3c48cb223eaf69391d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 113/137] fix: compare values without using == on custom values
 that are not comparable

---
 internal/compare.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/internal/compare.go b/internal/compare.go
index f54c165..cdfc65a 100644
--- a/internal/compare.go
+++ b/internal/compare.go
@@ -138,16 +138,17 @@ func deepHashCode(seen []dgo.Value, e dgo.Value) int {
 // depth is typically very limited. The seen slice contains the pairs being compared and should be nil at the point where
 // the comparison starts.
 func equals(seen []dgo.Value, a dgo.Value, b interface{}) bool {
-	if a == b {
-		return true
-	}
 	if nil == a || nil == b {
-		return false
+		return nil == a && nil == b
 	}
 	da, ok := a.(deepEqual)
 	if !ok {
+		// Might be a custom value of a go type that is not comparable, so the == operator cannot be used here
 		return a.Equals(b)
 	}
+	if a == b {
+		return true
+	}
 	bv := Value(b)
 	db, ok := bv.(deepEqual)
 	if !ok {
@@ -185,10 +186,10 @@ func sliceEquals(seen []dgo.Value, a, b []dgo.Value) bool {
 }
 
 func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
-	if a == b {
-		return 0, true
-	}
 	if a == Nil {
+		if b == Nil {
+			return 0, true
+		}
 		return -1, true
 	}
 	if b == Nil {
@@ -200,7 +201,11 @@ func compare(seen []dgo.Value, a dgo.Value, b dgo.Value) (int, bool) {
 		if ca, ok := a.(dgo.Comparable); ok {
 			return ca.CompareTo(b)
 		}
-		return 0, false
+		// Might be a custom value of a go type that is not comparable, so the == operator cannot be used here
+		return 0, a.Equals(b)
+	}
+	if a == b {
+		return 0, true
 	}
 
 	db, ok := b.(deepCompare)
-- 
2.43.0


From 61e8505fbdb198bc273191e001d88d631f4bbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 114/137] fix: don't add to the default aliases when checking
 if a string is a dgo string

---
 internal/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index d8c39a1..d0256fd 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -122,7 +122,7 @@ func (t defaultDgoStringType) Instance(value interface{}) (ok bool) {
 					ok = false
 				}
 			}()
-			Parse(s)
+			ParseFile(nil, ``, s) // declared aliases are forgotten
 		}
 	}
 	return
-- 
2.43.0


From 879c1ab1f0c3db51c7025e9f10b5441b275d928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 115/137] fix: respect the max size when a sized string is
 assigned from dgo string

---
 internal/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index d0256fd..ca68ea6 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -460,7 +460,7 @@ func SizedStringType(min, max int) dgo.StringType {
 func (t *sizedStringType) Assignable(other dgo.Type) bool {
 	switch ot := other.(type) {
 	case defaultDgoStringType:
-		return t.min <= 1
+		return t.min <= 1 && t.max == math.MaxInt64
 	case *exactStringType:
 		return t.IsInstance(ot.value.s)
 	case *ciStringType:
-- 
2.43.0


From 73636e8b9f44ce0fcb292330c4b20cde7146d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 116/137] fix: decode values that contain themselves

---
 streamer/decoder.go | 49 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/streamer/decoder.go b/streamer/decoder.go
index 287dc61..ce3e852 100644
--- a/streamer/decoder.go
+++ b/streamer/decoder.go
@@ -64,10 +64,11 @@ func (d *dataDecoder) decode(ts dgo.String, m dgo.Map) dgo.Value {
 		nm := av.ToMap()
 		// Replace all occurrences of m in the new map recursively with the new map as it
 		// might contain references to itself
-		replaceInstance(m, nm, nm)
+		d.replaceInstance(m, nm, nm)
 		v = nm
 	case ts.Equals(dl.SensitiveTypeName()):
 		v = vf.Sensitive(mv)
+		d.replaceInstance(m, v, mv)
 	case ts.Equals(dl.BinaryTypeName()):
 		v = vf.BinaryFromString(stringValue(ts, mv))
 	case ts.Equals(dl.TimeTypeName()):
@@ -107,33 +108,59 @@ func badValue(ts dgo.String, v dgo.Value) error {
 	return fmt.Errorf(`unable to decode a %s from %s`, ts, v)
 }
 
-func replaceInstance(orig, repl, in dgo.Value) (dgo.Value, bool) {
+// replaceInstance replaces all occurrences of the decoded map, which might contain references to itself, with the value
+// that it was decoded to.
+func (d *dataDecoder) replaceInstance(orig, repl, in dgo.Value) {
+	seen := make(map[dgo.Value]dgo.Value)
+	replaceInstance(seen, orig, repl, in)
+
+	// A sensitive is immutable, so it is replaced when what it contains is replaced. References to it are affected too
+	for v, r := range seen {
+		if v != r {
+			d.Values.EachWithIndex(func(e dgo.Value, i int) {
+				if e == v {
+					d.Values.Set(i, r)
+				}
+			})
+		}
+	}
+}
+
+func replaceInstance(seen map[dgo.Value]dgo.Value, orig, repl, in dgo.Value) (dgo.Value, bool) {
 	if in == orig {
 		return repl, true
 	}
 
-	replaceHappened := false
+	switch in.(type) {
+	case dgo.Map, dgo.Array, dgo.Sensitive:
+		if !hashable(in) {
+			return in, false
+		}
+		if r, ok := seen[in]; ok {
+			return r, r != in
+		}
+		seen[in] = in
+	}
 
 	switch iv := in.(type) {
 	case dgo.Map:
 		iv.EachEntry(func(v dgo.MapEntry) {
-			if re, rh := replaceInstance(orig, repl, v.Value()); rh {
-				replaceHappened = true
+			if re, rh := replaceInstance(seen, orig, repl, v.Value()); rh {
 				iv.Put(v.Key(), re)
 			}
 		})
 	case dgo.Array:
 		iv.EachWithIndex(func(v dgo.Value, i int) {
-			if re, rh := replaceInstance(orig, repl, v); rh {
-				replaceHappened = true
+			if re, rh := replaceInstance(seen, orig, repl, v); rh {
 				iv.Set(i, re)
 			}
 		})
 	case dgo.Sensitive:
-		if rw, rh := replaceInstance(orig, repl, iv.Unwrap()); rh {
-			replaceHappened = true
-			in = vf.Sensitive(rw)
+		if rw, rh := replaceInstance(seen, orig, repl, iv.Unwrap()); rh {
+			r := vf.Sensitive(rw)
+			seen[in] = r
+			return r, true
 		}
 	}
-	return in, replaceHappened
+	return in, false
 }
-- 
2.43.0


From 6832e38b13ebb69479050202f75f2e01a349032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 117/137] fix: use what a call returns in types and as keys

---
 internal/alias.go     | 19 ++++++++++++++++++-
 internal/array.go     |  2 +-
 internal/map.go       |  2 +-
 internal/mapstruct.go |  4 ++--
 internal/ternary.go   |  6 +++---
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/alias.go b/internal/alias.go
index a84364f..a7c8660 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -324,7 +324,24 @@ func replaceAlias(ap dgo.AliasAdder, v dgo.Value) (dgo.Value, bool) {
 
 func resolveType(t *dgo.Type, ap dgo.AliasAdder) {
 	if r, ok := replaceAlias(ap, *t); ok {
-		*t = r.(dgo.Type)
+		*t = asType(r)
+	}
+}
+
+// asType returns the given value if it is a type and its exact type if it's not. A call that was deferred until the
+// aliases were resolved may return anything.
+func asType(v dgo.Value) dgo.Type {
+	if t, ok := v.(dgo.Type); ok {
+		return t
+	}
+	return v.Type()
+}
+
+func resolveTypes(ts []dgo.Value, ap dgo.AliasAdder) {
+	for i := range ts {
+		if r, ok := replaceAlias(ap, ts[i]); ok {
+			ts[i] = asType(r)
+		}
 	}
 }
 
diff --git a/internal/array.go b/internal/array.go
index d1f68b4..1863e2f 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -678,7 +678,7 @@ func (t *tupleType) ReflectType() reflect.Type {
 }
 
 func (t *tupleType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.types, ap)
+	resolveTypes(t.types, ap)
 }
 
 func (t *tupleType) normalized() dgo.Type {
diff --git a/internal/map.go b/internal/map.go
index 09baba3..0dc3ce8 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -793,7 +793,7 @@ func (g *hashMap) Resolve(ap dgo.AliasAdder) {
 	rehash := false
 	for e := g.first; e != nil; e = e.next {
 		switch e.key.(type) {
-		case dgo.Alias, dgo.AliasContainer:
+		case *deferredCall, dgo.Alias, dgo.AliasContainer:
 			h := e.key.HashCode()
 			if k, ok := replaceAlias(ap, e.key); ok {
 				e.key = k
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 95889ca..96538d1 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -335,8 +335,8 @@ func (t *structType) ReflectType() reflect.Type {
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.keys.slice, ap)
-	resolveSlice(t.values.slice, ap)
+	resolveTypes(t.keys.slice, ap)
+	resolveTypes(t.values.slice, ap)
 	t.checkExactKeys()
 }
 
diff --git a/internal/ternary.go b/internal/ternary.go
index ac2cc41..c6cb1ae 100644
--- a/internal/ternary.go
+++ b/internal/ternary.go
@@ -130,7 +130,7 @@ func (t *allOfType) ReflectType() reflect.Type {
 }
 
 func (t *allOfType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.slice, ap)
+	resolveTypes(t.slice, ap)
 }
 
 func (t *allOfType) String() string {
@@ -342,7 +342,7 @@ func (t *anyOfType) ReflectType() reflect.Type {
 }
 
 func (t *anyOfType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.slice, ap)
+	resolveTypes(t.slice, ap)
 }
 
 func (t *anyOfType) String() string {
@@ -465,7 +465,7 @@ func (t *oneOfType) ReflectType() reflect.Type {
 }
 
 func (t *oneOfType) Resolve(ap dgo.AliasAdder) {
-	resolveSlice(t.slice, ap)
+	resolveTypes(t.slice, ap)
 }
 
 func (t *oneOfType) String() string {
-- 
2.43.0


From 11acc6d0a0d16d06075c92e2c8791afd91adacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 118/137] fix: reject an alias that isn't declared as a type

---
 internal/alias.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/alias.go b/internal/alias.go
index a7c8660..cc55254 100644
--- a/internal/alias.go
+++ b/internal/alias.go
@@ -221,6 +221,9 @@ func (a *aliasMap) GetType(n dgo.String) dgo.Type {
 func (a *aliasAdder) resolved() dgo.Map {
 	m := a.namedTypes.Map(func(e dgo.MapEntry) interface{} { return a.Replace(e.Value()) })
 	m.EachEntry(func(e dgo.MapEntry) {
+		if _, ok := e.Value().(dgo.Type); !ok {
+			panic(notDeclaredAsType(e.Key()))
+		}
 		if hasOperandCycle(nil, e.Value()) {
 			panic(fmt.Errorf(`the alias '%s' is defined using itself as an operand`, e.Key()))
 		}
@@ -228,6 +231,10 @@ func (a *aliasAdder) resolved() dgo.Map {
 	return m
 }
 
+func notDeclaredAsType(name dgo.Value) error {
+	return fmt.Errorf(`alias '%s' is not declared as a type`, name)
+}
+
 // hasOperandCycle returns true if the operands of the given type, or the operands of those operands, are an operator that
 // is reached again through its own operands. There's no way to tell what is an instance of such a type.
 func hasOperandCycle(seen []dgo.Value, t dgo.Value) bool {
@@ -273,7 +280,10 @@ func (a *aliasAdder) replaceAlias(t dgo.Alias) dgo.Type {
 		}
 		na, ok := ra.(dgo.Alias)
 		if !ok {
-			return a.Replace(ra).(dgo.Type)
+			if rt, ok := a.Replace(ra).(dgo.Type); ok {
+				return rt
+			}
+			panic(notDeclaredAsType(t.Reference()))
 		}
 		t = na
 	}
-- 
2.43.0


From 213d11c1fb64cc80116194c1cb74f4e68bfeadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 119/137] fix: express a time in UTC when RFC3339 can't express
 its offset

---
 internal/time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/time.go b/internal/time.go
index 86c35a1..d49e60b 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -180,7 +180,12 @@ func (v *timeVal) ReflectTo(value reflect.Value) {
 }
 
 func (v *timeVal) String() string {
-	return (*time.Time)(v).Format(time.RFC3339Nano)
+	t := (*time.Time)(v)
+	if _, offset := t.Zone(); offset%60 != 0 {
+		// RFC3339 cannot express this offset
+		return t.UTC().Format(time.RFC3339Nano)
+	}
+	return t.Format(time.RFC3339Nano)
 }
 
 func (v *timeVal) Type() dgo.Type {
-- 
2.43.0


From ca25e97bc3e81aef41e7dc43fc021f6f2dcfacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 120/137] fix: accept the string that a case-insensitive string
 type was created from

---
 internal/string.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/string.go b/internal/string.go
index ca68ea6..1208a0c 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -8,6 +8,7 @@ import (
 	"strconv"
 	"strings"
 	"sync/atomic"
+	"unicode"
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/util"
@@ -295,11 +296,22 @@ func CiStringType(si interface{}) dgo.StringType {
 	} else {
 		s = si.(string)
 	}
-	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.ToLower(s))}}
+	et := &ciStringType{exactStringType: exactStringType{value: makeHString(strings.Map(lowerFold, s))}}
 	et.ExactType = et
 	return et
 }
 
+// lowerFold returns the lower case of r if that is equal to r under Unicode case-folding, and otherwise r
+func lowerFold(r rune) rune {
+	l := unicode.ToLower(r)
+	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+		if f == l {
+			return l
+		}
+	}
+	return r
+}
+
 func (t *ciStringType) Assignable(other dgo.Type) bool {
 	if ot, ok := other.(*exactStringType); ok {
 		return strings.EqualFold(t.value.s, ot.value.s)
-- 
2.43.0


From 74a91c1d8485e9b9f2d32d0ea8d947977c464418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 121/137] fix: hash native values by what reflect.DeepEqual
 compares

---
 internal/native.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/internal/native.go b/internal/native.go
index 2c08475..5f36631 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -119,9 +119,12 @@ func (v *native) HashCode() int {
 		}
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
-	case reflect.Chan, reflect.Uintptr:
+	case reflect.Chan:
 		p := rv.Pointer()
 		return int(p ^ (p >> 32))
+	case reflect.Uintptr:
+		p := rv.Uint()
+		return int(p ^ (p >> 32))
 	case reflect.Struct:
 		return structHash(rv) * 3
 	}
@@ -129,10 +132,44 @@ func (v *native) HashCode() int {
 }
 
 func structHash(rv *reflect.Value) int {
-	n := rv.NumField()
+	return contentHash(*rv, 4)
+}
+
+// contentHash returns a hash that is equal for all values that are equal according to reflect.DeepEqual. The depth is
+// the number of references that are followed.
+func contentHash(rv reflect.Value, depth int) int {
 	h := 1
-	for i := 0; i < n; i++ {
-		h = h*31 + ValueFromReflected(rv.Field(i)).HashCode()
+	switch rv.Kind() {
+	case reflect.Bool:
+		if rv.Bool() {
+			h = 1231
+		}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		h = int(rv.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		h = int(rv.Uint())
+	case reflect.Float32, reflect.Float64:
+		h = int(rv.Float())
+	case reflect.String:
+		h = util.StringHash(rv.String())
+	case reflect.Chan:
+		h = int(rv.Pointer())
+	case reflect.Map:
+		h = rv.Len()
+	case reflect.Ptr, reflect.Interface:
+		if depth > 0 && !rv.IsNil() {
+			h = contentHash(rv.Elem(), depth-1) * 3
+		}
+	case reflect.Struct:
+		n := rv.NumField()
+		for i := 0; i < n; i++ {
+			h = h*31 + contentHash(rv.Field(i), depth)
+		}
+	case reflect.Slice, reflect.Array:
+		n := rv.Len()
+		for i := 0; depth > 0 && i < n; i++ {
+			h = h*31 + contentHash(rv.Index(i), depth-1)
+		}
 	}
 	return h
 }
-- 
2.43.0


From 7cb889b5a6b1b8c97eb2ba03a39bf63599eaae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 122/137] fix: write native pointers to variables of the same
 type

---
 internal/native.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index 5f36631..b39fc76 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -176,7 +176,7 @@ func contentHash(rv reflect.Value, depth int) int {
 
 func (v *native) ReflectTo(value reflect.Value) {
 	vr := (*reflect.Value)(v)
-	if value.Kind() == reflect.Ptr {
+	if value.Kind() == reflect.Ptr && !vr.Type().AssignableTo(value.Type()) {
 		p := reflect.New(vr.Type())
 		p.Elem().Set(*vr)
 		value.Set(p)
-- 
2.43.0


From 27dfd5e1182d64d3f9475d539b78fd914bc8e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 123/137] fix: let the type of a pointer to a struct accept
 such pointers

---
 internal/type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/type.go b/internal/type.go
index 6c5dde8..117b67d 100644
--- a/internal/type.go
+++ b/internal/type.go
@@ -33,6 +33,10 @@ func TypeFromReflected(vt reflect.Type) dgo.Type {
 	case reflect.Map:
 		return MapType([]interface{}{TypeFromReflected(vt.Key()), TypeFromReflected(vt.Elem()), 0, math.MaxInt64})
 	case reflect.Ptr:
+		if et := vt.Elem(); et.Kind() == reflect.Struct && wellKnownTypes[et] == nil {
+			// such pointers become native values
+			return OneOfType([]interface{}{&nativeType{vt}, DefaultNilType})
+		}
 		return OneOfType([]interface{}{TypeFromReflected(vt.Elem()), DefaultNilType})
 	case reflect.Func:
 		return exactFunctionType{vt}
-- 
2.43.0


From c3b319e0ae537136b3f88a03732d0ea75721b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 124/137] fix: accept nil in checks of native types and hash
 the default native type

---
 internal/native.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/native.go b/internal/native.go
index b39fc76..8bd20d7 100644
--- a/internal/native.go
+++ b/internal/native.go
@@ -46,6 +46,9 @@ func (t *nativeType) Equals(other interface{}) bool {
 }
 
 func (t *nativeType) HashCode() int {
+	if t.rt == nil {
+		return int(dgo.TiNative)
+	}
 	return util.StringHash(t.rt.Name())*31 + int(dgo.TiNative)
 }
 
@@ -210,5 +213,6 @@ func toReflected(value interface{}) (reflect.Value, bool) {
 	case dgo.Value:
 		return reflect.Value{}, false
 	}
-	return reflect.ValueOf(value), true
+	rv := reflect.ValueOf(value)
+	return rv, rv.IsValid()
 }
-- 
2.43.0


From 6e0ca7d648e0472a06e812e2db9c1a6cc384a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:00 +0000
Subject: [PATCH 125/137] fix: let the Go types of dgo values denote the
 corresponding types

---
 internal/value.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/value.go b/internal/value.go
index 6c13a2b..f449f5e 100644
--- a/internal/value.go
+++ b/internal/value.go
@@ -182,4 +182,20 @@ var wellKnownTypes = map[reflect.Type]dgo.Type{
 	reflect.TypeOf(&regexp.Regexp{}): DefaultRegexpType,
 	reflect.TypeOf(time.Time{}):      DefaultTimeType,
 	reflectBinaryType:                DefaultBinaryType,
+
+	// variables of these types hold dgo values
+	reflectValueType:                            DefaultAnyType,
+	reflectTypeType:                             DefaultMetaType,
+	reflect.TypeOf((*dgo.Array)(nil)).Elem():    DefaultArrayType,
+	reflect.TypeOf((*dgo.Binary)(nil)).Elem():   DefaultBinaryType,
+	reflect.TypeOf((*dgo.Boolean)(nil)).Elem():  DefaultBooleanType,
+	reflect.TypeOf((*dgo.Float)(nil)).Elem():    DefaultFloatType,
+	reflect.TypeOf((*dgo.Function)(nil)).Elem(): DefaultFunctionType,
+	reflect.TypeOf((*dgo.Integer)(nil)).Elem():  DefaultIntegerType,
+	reflect.TypeOf((*dgo.Map)(nil)).Elem():      DefaultMapType,
+	reflect.TypeOf((*dgo.Native)(nil)).Elem():   DefaultNativeType,
+	reflect.TypeOf((*dgo.Regexp)(nil)).Elem():   DefaultRegexpType,
+	reflectSensitiveType:                        DefaultSensitiveType,
+	reflect.TypeOf((*dgo.String)(nil)).Elem():   DefaultStringType,
+	reflect.TypeOf((*dgo.Time)(nil)).Elem():     DefaultTimeType,
 }
-- 
2.43.0


From fae955cc351be3cb37540cdcb8e2cb150b3c8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 126/137] fix: let maps that cannot have a counterpart in Go
 have a Go type

---
 internal/map.go       | 14 ++++++++++++--
 internal/mapstruct.go |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/map.go b/internal/map.go
index 0dc3ce8..4879667 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -1164,8 +1164,18 @@ func (t *sizedMapType) New(arg dgo.Value) dgo.Value {
 	return newMap(t, arg)
 }
 
+// reflectMapOf returns the reflected type of a map with the given types of keys and values. Not all types can be the type of
+// the keys of a Go map
+func reflectMapOf(keyType, valueType dgo.Type) reflect.Type {
+	rt := keyType.ReflectType()
+	if !rt.Comparable() {
+		rt = reflectAnyType
+	}
+	return reflect.MapOf(rt, valueType.ReflectType())
+}
+
 func (t *sizedMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectMapOf(t.KeyType(), t.ValueType())
 }
 
 func (t *sizedMapType) Resolve(ap dgo.AliasAdder) {
@@ -1332,7 +1342,7 @@ func (t *exactMapType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *exactMapType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectMapOf(t.KeyType(), t.ValueType())
 }
 
 func (t *exactMapType) Resolve(ap dgo.AliasAdder) {
diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index 96538d1..cbbabe0 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -331,7 +331,7 @@ func (t *structType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *structType) ReflectType() reflect.Type {
-	return reflect.MapOf(t.KeyType().ReflectType(), t.ValueType().ReflectType())
+	return reflectMapOf(t.KeyType(), t.ValueType())
 }
 
 func (t *structType) Resolve(ap dgo.AliasAdder) {
-- 
2.43.0


From db1314005550bf4a61df6a047a12ac079600c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 127/137] fix: let the Go type of an open struct map type hold
 additional entries

---
 internal/mapstruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/mapstruct.go b/internal/mapstruct.go
index cbbabe0..3c8ea83 100644
--- a/internal/mapstruct.go
+++ b/internal/mapstruct.go
@@ -331,6 +331,10 @@ func (t *structType) New(arg dgo.Value) dgo.Value {
 }
 
 func (t *structType) ReflectType() reflect.Type {
+	if t.additional {
+		// additional entries may have any key and value
+		return DefaultMapType.ReflectType()
+	}
 	return reflectMapOf(t.KeyType(), t.ValueType())
 }
 
-- 
2.43.0


From 47b54d592851faa10cc5b9ce7ae88f441059ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 128/137] fix: accept nil pointers when comparing times and
 regexps

---
 internal/regexp.go | 12 +++++++-----
 internal/time.go   |  8 +++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/internal/regexp.go b/internal/regexp.go
index f803e12..6aeda37 100644
--- a/internal/regexp.go
+++ b/internal/regexp.go
@@ -44,11 +44,13 @@ func (t regexpType) HashCode() int {
 }
 
 func (t regexpType) Instance(v interface{}) bool {
-	_, ok := v.(*regexpVal)
-	if !ok {
-		_, ok = v.(*regexp.Regexp)
+	switch v := v.(type) {
+	case *regexpVal:
+		return true
+	case *regexp.Regexp:
+		return v != nil
 	}
-	return ok
+	return false
 }
 
 func (t regexpType) IsInstance(v *regexp.Regexp) bool {
@@ -104,7 +106,7 @@ func (v *regexpVal) Equals(other interface{}) bool {
 	if ot, ok := other.(*regexpVal); ok {
 		return (*regexp.Regexp)(v).String() == (*regexp.Regexp)(ot).String()
 	}
-	if ot, ok := other.(*regexp.Regexp); ok {
+	if ot, ok := other.(*regexp.Regexp); ok && ot != nil {
 		return (*regexp.Regexp)(v).String() == (ot).String()
 	}
 	return false
diff --git a/internal/time.go b/internal/time.go
index d49e60b..0b497ee 100644
--- a/internal/time.go
+++ b/internal/time.go
@@ -42,9 +42,11 @@ func (t timeType) HashCode() int {
 }
 
 func (t timeType) Instance(v interface{}) bool {
-	switch v.(type) {
-	case *timeVal, *time.Time, time.Time:
+	switch v := v.(type) {
+	case *timeVal, time.Time:
 		return true
+	case *time.Time:
+		return v != nil
 	}
 	return false
 }
@@ -144,7 +146,7 @@ func (v *timeVal) Equals(other interface{}) bool {
 	case time.Time:
 		return (*time.Time)(v).Equal(ov)
 	case *time.Time:
-		return (*time.Time)(v).Equal(*ov)
+		return ov != nil && (*time.Time)(v).Equal(*ov)
 	}
 	return false
 }
-- 
2.43.0


From b9303d74d8406739e149f69945a9e5e8511522aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 129/137] fix: do not let an error equal an error of another
 kind

---
 internal/error.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/error.go b/internal/error.go
index ba1e957..d030480 100644
--- a/internal/error.go
+++ b/internal/error.go
@@ -87,10 +87,13 @@ func (t *exactErrorType) ExactValue() dgo.Value {
 }
 
 func (e *errw) Equals(other interface{}) bool {
-	if oe, ok := other.(*errw); ok {
+	switch oe := other.(type) {
+	case *errw:
 		return e.error.Error() == oe.error.Error()
-	}
-	if oe, ok := other.(error); ok {
+	case dgo.Value:
+		// some other kind of error, e.g. the one for an illegal assignment. Such errors aren't equal to other kinds
+		return false
+	case error:
 		return e.error.Error() == oe.Error()
 	}
 	return false
-- 
2.43.0


From b75f66571d8a71ec30dfc8cd5849c3a34433a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 130/137] fix: let arguments be arrays when compared with and
 checked as such

---
 internal/arguments.go | 13 ++++++++++++-
 internal/array.go     | 12 ++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/arguments.go b/internal/arguments.go
index 71c078f..aec25ad 100644
--- a/internal/arguments.go
+++ b/internal/arguments.go
@@ -15,10 +15,21 @@ func Arguments(values []interface{}) dgo.Arguments {
 
 // ArgumentsFromArray returns an Arguments instance backed by the given array
 func ArgumentsFromArray(values dgo.Array) dgo.Arguments {
-	a := values.(*array)
+	a, _ := asArray(values)
 	return &arguments{*a}
 }
 
+// asArray returns the given value as an array. Arguments are arrays too.
+func asArray(value interface{}) (*array, bool) {
+	switch value := value.(type) {
+	case *array:
+		return value, true
+	case *arguments:
+		return &value.array, true
+	}
+	return nil, false
+}
+
 func (a *arguments) AssertSize(funcName string, min, max int) {
 	l := a.Len()
 	if min > l || l > max {
diff --git a/internal/array.go b/internal/array.go
index 1863e2f..c4c582a 100644
--- a/internal/array.go
+++ b/internal/array.go
@@ -250,7 +250,7 @@ func (t *sizedArrayType) Instance(value interface{}) bool {
 }
 
 func (t *sizedArrayType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
-	if ov, ok := value.(*array); ok {
+	if ov, ok := asArray(value); ok {
 		l := len(ov.slice)
 		return t.min <= l && l <= t.max && allInstance(guard, t.elementType, ov.slice)
 	}
@@ -603,7 +603,7 @@ func (t *tupleType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bo
 }
 
 func tupleInstance(guard dgo.RecursionGuard, t dgo.TupleType, value interface{}) bool {
-	ov, ok := value.(*array)
+	ov, ok := asArray(value)
 	if !ok {
 		return false
 	}
@@ -960,7 +960,7 @@ func (v *array) CompareTo(other interface{}) (int, bool) {
 }
 
 func (v *array) deepCompare(seen []dgo.Value, other deepCompare) (int, bool) {
-	ov, ok := other.(*array)
+	ov, ok := asArray(other)
 	if !ok {
 		return 0, false
 	}
@@ -1069,7 +1069,7 @@ func (v *array) Equals(other interface{}) bool {
 }
 
 func (v *array) deepEqual(seen []dgo.Value, other deepEqual) bool {
-	if ov, ok := other.(*array); ok {
+	if ov, ok := asArray(other); ok {
 		return sliceEquals(seen, v.slice, ov.slice)
 	}
 	return false
@@ -1088,7 +1088,7 @@ func (v *array) Find(finder dgo.Mapper) interface{} {
 func (v *array) Flatten() dgo.Array {
 	a := v.slice
 	for i := range a {
-		if _, ok := a[i].(*array); ok {
+		if _, ok := asArray(a[i]); ok {
 			fs := make([]dgo.Value, i, len(a)*2)
 			copy(fs, a)
 			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
@@ -1100,7 +1100,7 @@ func (v *array) Flatten() dgo.Array {
 func flattenElements(elements, receiver []dgo.Value) []dgo.Value {
 	for i := range elements {
 		e := elements[i]
-		if a, ok := e.(*array); ok {
+		if a, ok := asArray(e); ok {
 			receiver = flattenElements(a.slice, receiver)
 		} else {
 			receiver = append(receiver, e)
-- 
2.43.0


From be5c1a32b56857ade6357a98e429296ae209f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 131/137] fix: report an argument beyond the size as an illegal
 argument

---
 internal/arguments.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/arguments.go b/internal/arguments.go
index aec25ad..7c55360 100644
--- a/internal/arguments.go
+++ b/internal/arguments.go
@@ -1,6 +1,8 @@
 package internal
 
 import (
+	"math"
+
 	"github.com/lyraproj/dgo/dgo"
 )
 
@@ -38,6 +40,9 @@ func (a *arguments) AssertSize(funcName string, min, max int) {
 }
 
 func (a *arguments) Arg(funcName string, n int, typ dgo.Type) dgo.Value {
+	if n >= a.Len() {
+		panic(illegalArgumentCount(funcName, n+1, math.MaxInt64, a.Len()))
+	}
 	v := a.Get(n)
 	if typ.Instance(v) {
 		return v
-- 
2.43.0


From b93dacaccd17fffab9d708120c96735c2d721789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 132/137] fix: let no size of a string or binary type be
 negative

---
 internal/binary.go | 3 +++
 internal/string.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/binary.go b/internal/binary.go
index 0643e36..34a2ace 100644
--- a/internal/binary.go
+++ b/internal/binary.go
@@ -62,6 +62,9 @@ func SizedBinaryType(min, max int) dgo.BinaryType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
diff --git a/internal/string.go b/internal/string.go
index 1208a0c..735f567 100644
--- a/internal/string.go
+++ b/internal/string.go
@@ -458,6 +458,9 @@ func SizedStringType(min, max int) dgo.StringType {
 	if min < 0 {
 		min = 0
 	}
+	if max < 0 {
+		max = 0
+	}
 	if max < min {
 		tmp := max
 		max = min
-- 
2.43.0


From 16c5865036881352db1e044dd01c4bb2d313752b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:04 +0000
Subject: [PATCH 133/137] fix: keep the exclusive end of a range that covers
 all numbers

---
 internal/float.go   | 2 +-
 internal/integer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/float.go b/internal/float.go
index 7e22748..9cee5f1 100644
--- a/internal/float.go
+++ b/internal/float.go
@@ -48,7 +48,7 @@ func FloatType(min, max float64, inclusive bool) dgo.FloatType {
 		max = min
 		min = t
 	}
-	if min == -math.MaxFloat64 && max == math.MaxFloat64 {
+	if inclusive && min == -math.MaxFloat64 && max == math.MaxFloat64 {
 		return DefaultFloatType
 	}
 	return &floatType{min: min, max: max, inclusive: inclusive}
diff --git a/internal/integer.go b/internal/integer.go
index 5d0d6d6..c2edfb0 100644
--- a/internal/integer.go
+++ b/internal/integer.go
@@ -46,7 +46,7 @@ func IntegerType(min, max int64, inclusive bool) dgo.IntegerType {
 		max = min
 		min = t
 	}
-	if min == math.MinInt64 && max == math.MaxInt64 {
+	if inclusive && min == math.MinInt64 && max == math.MaxInt64 {
 		return DefaultIntegerType
 	}
 	return &integerType{min: min, max: max, inclusive: inclusive}
-- 
2.43.0


From c59a6947a067a8c641a97253097669465abba51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 134/137] fix: add nothing that a finder delivers when some of
 it contradicts earlier entries

---
 loader/loader.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/loader/loader.go b/loader/loader.go
index 409cd05..29817df 100644
--- a/loader/loader.go
+++ b/loader/loader.go
@@ -205,11 +205,14 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 
+	checkEntry := func(key, value dgo.Value) {
+		if old := l.entries.Get(key); !(old == nil || old.Equals(value)) {
+			panic(fmt.Errorf(`attempt to override entry %q`, key))
+		}
+	}
 	addEntry := func(key, value dgo.Value) {
-		if old := l.entries.Get(key); old == nil {
+		if l.entries.Get(key) == nil {
 			l.entries.Put(key, value)
-		} else if !old.Equals(value) {
-			panic(fmt.Errorf(`attempt to override entry %q`, key))
 		}
 	}
 
@@ -218,8 +221,11 @@ func (l *loader) add(key, value dgo.Value) dgo.Value {
 		if value == nil {
 			panic(fmt.Errorf(`map returned from finder doesn't contain original key %q`, key))
 		}
+		// nothing is added unless everything can be
+		m.EachEntry(func(e dgo.MapEntry) { checkEntry(e.Key(), e.Value()) })
 		m.EachEntry(func(e dgo.MapEntry) { addEntry(e.Key(), e.Value()) })
 	} else {
+		checkEntry(key, value)
 		addEntry(key, value)
 	}
 	// the entry may have been added already, in which case its value is the one to use
-- 
2.43.0


From 51ec1ca4b8c598dd8e970dce0f71eddc2799e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 135/137] fix: parameters of a named type are replaced, and not
 changed later

---
 internal/named.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/named.go b/internal/named.go
index 83dda0a..18a9b17 100644
--- a/internal/named.go
+++ b/internal/named.go
@@ -99,7 +99,10 @@ func NamedType(name string) dgo.NamedType {
 
 // ParameterizedType returns the named type amended with the given parameters.
 func ParameterizedType(named dgo.NamedType, params dgo.Array) dgo.NamedType {
-	return &parameterized{named, params}
+	if p, ok := named.(*parameterized); ok {
+		named = p.NamedType // the parameters are replaced
+	}
+	return &parameterized{named, params.FrozenCopy().(dgo.Array)}
 }
 
 // NamedTypeFromReflected returns the named type for the reflected implementation type from the global type
-- 
2.43.0


From b1bdc9815b806754deeffddef8d06bb632e5be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:09 +0000
Subject: [PATCH 136/137] fix: write parameters of a named type as values also
 when their types have aliases

---
 stringer/typestring.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stringer/typestring.go b/stringer/typestring.go
index 76a90be..4c4f1bf 100644
--- a/stringer/typestring.go
+++ b/stringer/typestring.go
@@ -253,7 +253,17 @@ func (sb *typeBuilder) named(typ dgo.Type, _ int) {
 	util.WriteString(sb, nt.Name())
 	if params := nt.Parameters(); params != nil {
 		util.WriteByte(sb, '[')
-		sb.joinValueTypes(params, `,`, commaPrio)
+		params.EachWithIndex(func(p dgo.Value, i int) {
+			if i > 0 {
+				util.WriteByte(sb, ',')
+			}
+			if _, ok := p.(dgo.Type); ok {
+				sb.buildTypeString(p.Type(), commaPrio)
+			} else {
+				// a parameter is a value, and the name of an alias denotes a type
+				sb.buildUnaliased(p.Type(), commaPrio)
+			}
+		})
 		util.WriteByte(sb, ']')
 	}
 }
-- 
2.43.0


From 977d221e6f6def3deae5ea733e1a4070163d4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:13 +0000
Subject: [PATCH 137/137] fix: Map, MutableMap and FromReflectedMap accept a Go
 map that is nil

---
 internal/map.go |  4 ++++
 vf/map.go       | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/map.go b/internal/map.go
index 4879667..80756f4 100644
--- a/internal/map.go
+++ b/internal/map.go
@@ -244,6 +244,10 @@ func mapFromArgs(args []interface{}, frozen bool) dgo.Map {
 		}
 		switch rm.Kind() {
 		case reflect.Map:
+			if rm.IsNil() {
+				// same as an empty map
+				return mapFromArgs(nil, frozen)
+			}
 			return FromReflectedMap(rm, frozen).(dgo.Map)
 		case reflect.Ptr:
 			re := rm.Elem()
diff --git a/vf/map.go b/vf/map.go
index ca22a73..c9549ed 100644
--- a/vf/map.go
+++ b/vf/map.go
@@ -34,7 +34,15 @@ func MapWithCapacity(capacity int) dgo.Map {
 // immutable and the type will reflect exactly that map and nothing else. If frozen is false, the
 // created Map will be mutable and its type will be derived from the reflected map.
 func FromReflectedMap(rm reflect.Value, frozen bool) dgo.Map {
-	return internal.FromReflectedMap(rm, frozen).(dgo.Map)
+	m, ok := internal.FromReflectedMap(rm, frozen).(dgo.Map)
+	if !ok {
+		// the reflected map is nil, which is the same as an empty map
+		if frozen {
+			return Map()
+		}
+		return MutableMap()
+	}
+	return m
 }
 
 // MapEntry returns a new MapEntry instance with the given key and value
-- 
2.43.0

