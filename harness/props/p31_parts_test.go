package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// P31: a type describes itself. What its accessors report is what it was created from, and suffices to create it again.

// rebuilt creates a type from what the given type reports, using nothing but the interfaces of the types and the factory
func rebuilt(t dgo.Type) dgo.Type {
	all := func(a dgo.Array) []interface{} {
		r := make([]interface{}, a.Len())
		for i := range r {
			r[i] = rebuilt(a.Get(i).(dgo.Type))
		}
		return r
	}
	tuple := func(t dgo.TupleType) dgo.TupleType {
		es := make([]interface{}, t.Len())
		for i := range es {
			es[i] = rebuilt(t.Element(i))
		}
		if t.Variadic() {
			return tf.VariadicTuple(es...)
		}
		return tf.Tuple(es...)
	}
	switch t.TypeIdentifier() {
	case dgo.TiStringPattern:
		return tf.Pattern(t.(dgo.ExactType).ExactValue().(dgo.Regexp).GoRegexp())
	case dgo.TiCiString:
		return tf.CiString(t.(dgo.ExactType).ExactValue())
	case dgo.TiAny:
		return typ.Any
	case dgo.TiBoolean:
		return typ.Boolean
	case dgo.TiTime:
		return typ.Time
	case dgo.TiRegexp:
		return typ.Regexp
	case dgo.TiDgoString:
		return typ.DgoString
	case dgo.TiError:
		return typ.Error
	case dgo.TiString, dgo.TiStringSized:
		tt := t.(dgo.StringType)
		return tf.String(tt.Min(), tt.Max())
	}
	if dgo.IsExact(t) {
		return vf.Value(t.(dgo.ExactType).ExactValue()).Type()
	}
	switch t := t.(type) {
	case dgo.IntegerType:
		return tf.Integer(t.Min(), t.Max(), t.Inclusive())
	case dgo.FloatType:
		return tf.Float(t.Min(), t.Max(), t.Inclusive())
	case dgo.BinaryType:
		return tf.Binary(t.Min(), t.Max())
	case dgo.StructMapType:
		es := make([]dgo.StructMapEntry, 0, t.Len())
		t.Each(func(e dgo.StructMapEntry) {
			es = append(es, tf.StructMapEntry(rebuilt(e.Key().(dgo.Type)), rebuilt(e.Value().(dgo.Type)), e.Required()))
		})
		return tf.StructMap(t.Additional(), es...)
	case dgo.MapType:
		return tf.Map(rebuilt(t.KeyType()), rebuilt(t.ValueType()), t.Min(), t.Max())
	case dgo.TupleType:
		return tuple(t)
	case dgo.ArrayType:
		return tf.Array(rebuilt(t.ElementType()), t.Min(), t.Max())
	case dgo.FunctionType:
		return tf.Function(tuple(t.In()), tuple(t.Out()))
	case dgo.TernaryType:
		switch t.Operator() {
		case dgo.OpAnd:
			return tf.AllOf(all(t.Operands())...)
		case dgo.OpOr:
			return tf.AnyOf(all(t.Operands())...)
		case dgo.OpOne:
			return tf.OneOf(all(t.Operands())...)
		}
	case dgo.UnaryType:
		switch t.Operator() {
		case dgo.OpNot:
			return tf.Not(rebuilt(t.Operand()))
		case dgo.OpMeta:
			return tf.Meta(rebuilt(t.Operand()))
		case dgo.OpSensitive:
			return tf.Sensitive(rebuilt(t.Operand()))
		}
	}
	panic(fmt.Errorf("no way to rebuild %s (%T)", t, t))
}

// tis maps the kinds of types that are never replaced by a simpler kind to their identifiers
var tis = map[TK]dgo.TypeIdentifier{
	tAny: dgo.TiAny, tNil: dgo.TiNil, tBool: dgo.TiBoolean, tInt: dgo.TiInteger, tFloat: dgo.TiFloat, tString: dgo.TiString, tPattern: dgo.TiStringPattern,
	tCi: dgo.TiCiString, tBinary: dgo.TiBinary, tBinarySized: dgo.TiBinary, tTime: dgo.TiTime, tRegexp: dgo.TiRegexp, tVarTuple: dgo.TiTuple,
	tSensitive: dgo.TiSensitive, tAnyOf: dgo.TiAnyOf, tAllOf: dgo.TiAllOf, tOneOf: dgo.TiOneOf, tMeta: dgo.TiMeta, tFunc: dgo.TiFunction, tMap: dgo.TiMap,
}

// checkSized checks the limits of a sized type
func checkSized(c *C, ty dgo.Type, min, max int64) {
	st, ok := ty.(dgo.SizedType)
	if !ok {
		c.Fatalf("%s (%T) is not a sized type", ty, ty)
	}
	if int64(st.Min()) != min || int64(st.Max()) != max || st.Unbounded() != (min == 0 && max == unbounded) {
		c.Fatalf("%s (%T) has min %d, max %d, unbounded %v, not %d and %d", ty, ty, st.Min(), st.Max(), st.Unbounded(), min, max)
	}
}

// sameType checks that the reported part of a type is the expected one
func sameType(c *C, ty dgo.Type, what string, got dgo.Value, want dgo.Type) {
	if !want.Equals(got) || !got.Equals(want) {
		c.Fatalf("the %s of %s (%T) is %s (%T), not %s (%T)", what, ty, ty, got, got, want, want)
	}
}

func checkTuple(c *C, ty dgo.Type, tt dgo.TupleType, es []*T, variadic bool) {
	n := len(es)
	if tt.Len() != n || tt.ElementTypes().Len() != n || tt.Variadic() != variadic {
		c.Fatalf("%s in %s (%T) has %d elements, %d element types, variadic %v", tt, ty, tt, tt.Len(), tt.ElementTypes().Len(), tt.Variadic())
	}
	for i, e := range es {
		sameType(c, ty, fmt.Sprintf("element %d", i), tt.Element(i), e.build())
		sameType(c, ty, fmt.Sprintf("element type %d", i), tt.ElementTypes().Get(i), e.build())
		checkParts(c, e, tt.Element(i))
	}
	if variadic {
		if tt.Min() != n-1 || tt.Max() != unbounded || n == 1 && !tt.Unbounded() {
			c.Fatalf("%s (%T) has min %d, max %d", tt, tt, tt.Min(), tt.Max())
		}
	} else {
		checkSized(c, tt, int64(n), int64(n))
	}
}

// checkParts checks what the type ty, that was built from t, reports about itself
func checkParts(c *C, t *T, ty dgo.Type) {
	if ti, ok := tis[t.K]; ok && ty.TypeIdentifier() != ti {
		c.Fatalf("the identifier of %s (%T) is %s", t.str(), ty, ty.TypeIdentifier())
	}
	exact := dgo.IsExact(ty)
	if _, isExact := ty.(dgo.ExactType); exact && !isExact {
		c.Fatalf("%s (%T) claims to be exact but has no value", ty, ty)
	}
	meta, ok := ty.Type().(dgo.Meta)
	if !ok || !meta.Instance(ty) {
		c.Fatalf("the type of %s (%T) is %s (%T)", ty, ty, ty.Type(), ty.Type())
	}
	if ut := meta.(dgo.UnaryType); t.K != tMeta && (ut.Operator() != dgo.OpMeta || !ut.Operand().Equals(ty) || !meta.Describes().Equals(ty)) {
		c.Fatalf("the operator of %s is %v and its operand %s", meta, ut.Operator(), ut.Operand())
	}
	switch t.K {
	case tInt, tIntRange:
		it := ty.(dgo.IntegerType)
		min, max, incl := t.Min, t.Max, t.Incl
		if t.K == tInt {
			min, max, incl = math.MinInt64, math.MaxInt64, true
		}
		if it.Min() != min || it.Max() != max || it.Inclusive() != incl || exact != (min == max) {
			c.Fatalf("%s (%T) has min %d, max %d, inclusive %v", t.str(), ty, it.Min(), it.Max(), it.Inclusive())
		}
		for _, i := range []int64{min, max, min - 1, max - 1, max + 1} {
			if it.IsInstance(i) != member(t, vInt(i)) {
				c.Fatalf("%d is an instance of %s: %v", i, ty, it.IsInstance(i))
			}
		}
	case tFloat, tFloatRange:
		ft := ty.(dgo.FloatType)
		min, max, incl := t.FMin, t.FMax, t.Incl
		if t.K == tFloat {
			min, max, incl = -math.MaxFloat64, math.MaxFloat64, true
		}
		if ft.Min() != min || ft.Max() != max || ft.Inclusive() != incl {
			c.Fatalf("%s (%T) has min %g, max %g, inclusive %v", t.str(), ty, ft.Min(), ft.Max(), ft.Inclusive())
		}
		if t.K == tFloatRange {
			for _, f := range []float64{min, max, math.Nextafter(min, -math.MaxFloat64), math.Nextafter(max, math.MaxFloat64), math.Nextafter(max, -math.MaxFloat64)} {
				if ft.IsInstance(f) != member(t, vFloat(f)) {
					c.Fatalf("%g is an instance of %s: %v", f, ty, ft.IsInstance(f))
				}
			}
		}
	case tString, tBinary:
		checkSized(c, ty, 0, unbounded)
	case tStringSized, tBinarySized:
		checkSized(c, ty, t.Min, t.Max)
	case tPattern:
		if rx, isRx := ty.(dgo.ExactType).ExactValue().(dgo.Regexp); !isRx || rx.GoRegexp().String() != t.S {
			c.Fatalf("the pattern of %s is %s", ty, ty.(dgo.ExactType).ExactValue())
		}
		if !ty.(dgo.SizedType).Unbounded() {
			c.Fatalf("%s is bounded", ty)
		}
	case tCi:
		if s, isS := ty.(dgo.ExactType).ExactValue().(dgo.String); !isS || !strings.EqualFold(s.GoString(), t.S) {
			c.Fatalf("the value of the case insensitive type of %q is %s", t.S, ty.(dgo.ExactType).ExactValue())
		}
		if isASCII(t.S) {
			checkSized(c, ty, int64(len(t.S)), int64(len(t.S)))
		}
	case tExact:
		checkExactParts(c, t.V, ty)
	case tArray:
		at := ty.(dgo.ArrayType)
		checkSized(c, ty, t.Min, t.Max)
		e := t.E[0].build()
		sameType(c, ty, "element type", at.ElementType(), e)
		checkParts(c, t.E[0], at.ElementType())
		if exact != (t.Min == 1 && t.Max == 1 && dgo.IsExact(e)) {
			c.Fatalf("%s (%T) is exact: %v", ty, ty, exact)
		}
	case tTuple, tVarTuple:
		tt := ty.(dgo.TupleType)
		all := t.K == tTuple
		for _, e := range t.E {
			all = all && dgo.IsExact(e.build())
		}
		if exact != all && len(t.E) > 0 {
			c.Fatalf("%s (%T) is exact: %v", ty, ty, exact)
		}
		checkTuple(c, ty, tt, t.E, t.K == tVarTuple)
		// all elements of one type
		if len(t.E) == 1 {
			sameType(c, ty, "element type", tt.ElementType(), t.E[0].build())
		}
	case tMap:
		mt := ty.(dgo.MapType)
		checkSized(c, ty, t.Min, t.Max)
		sameType(c, ty, "key type", mt.KeyType(), t.E[0].build())
		sameType(c, ty, "value type", mt.ValueType(), t.E[1].build())
		checkParts(c, t.E[0], mt.KeyType())
		checkParts(c, t.E[1], mt.ValueType())
	case tStruct:
		checkStructParts(c, t, ty)
	case tSensitive, tNot, tMeta:
		op := map[TK]dgo.TypeOp{tSensitive: dgo.OpSensitive, tNot: dgo.OpNot, tMeta: dgo.OpMeta}[t.K]
		if t.K == tNot && t.E[0].K == tNot {
			checkParts(c, t.E[0].E[0], ty) // double negation
			return
		}
		ut := ty.(dgo.UnaryType)
		if ut.Operator() != op {
			c.Fatalf("the operator of %s is %v", ty, ut.Operator())
		}
		of := tk(tAny)
		if len(t.E) > 0 {
			of = t.E[0]
		}
		sameType(c, ty, "operand", ut.Operand(), of.build())
		checkParts(c, of, ut.Operand())
		if m, isMeta := ty.(dgo.Meta); isMeta {
			sameType(c, ty, "described type", m.Describes(), of.build())
		}
	case tAnyOf, tAllOf, tOneOf:
		op := map[TK]dgo.TypeOp{tAnyOf: dgo.OpOr, tAllOf: dgo.OpAnd, tOneOf: dgo.OpOne}[t.K]
		tt := ty.(dgo.TernaryType)
		if tt.Operator() != op || tt.Operands().Len() != len(t.E) {
			c.Fatalf("%s has operator %v and %d operands", ty, tt.Operator(), tt.Operands().Len())
		}
		for i, e := range t.E {
			sameType(c, ty, fmt.Sprintf("operand %d", i), tt.Operands().Get(i), e.build())
			checkParts(c, e, tt.Operands().Get(i).(dgo.Type))
		}
		if !tt.Operands().Frozen() {
			c.Fatalf("the operands of %s are not frozen", ty)
		}
	case tFunc:
		fn := ty.(dgo.FunctionType)
		if fn.Variadic() != t.Add {
			c.Fatalf("%s is variadic: %v", ty, fn.Variadic())
		}
		checkTuple(c, ty, fn.In(), t.E, t.Add)
		checkTuple(c, ty, fn.Out(), t.R, false)
	}
}

// TestP31_Functions checks the types of go functions
func TestP31_Functions(t *testing.T) {
	prop(t, 5000, "the type of a go function; non-trivial if it has parameters or results", func(c *C) {
		g := drawGoFunc(c.T)
		c.Doing("%s", g.rt)
		fv, ok := vf.Value(reflect.MakeFunc(g.rt, func([]reflect.Value) []reflect.Value { return nil })).(dgo.Function)
		if !ok {
			c.Fatalf("%s is not a function", g.rt)
		}
		for _, ty := range []dgo.Type{fv.Type(), tf.FromReflected(g.rt)} {
			checkParts(c, g.t, ty)
			if ty.ReflectType() != g.rt {
				c.Fatalf("the go type of %s is %s", g.rt, ty.ReflectType())
			}
			want := g.t.build()
			sameType(c, ty, "type", ty, want)
			if ty.HashCode() != want.HashCode() || ty.String() != want.String() {
				c.Fatalf("%s has the type %s, and not %s", g.rt, ty, want)
			}
			for i, tt := range []dgo.TupleType{ty.(dgo.FunctionType).In(), ty.(dgo.FunctionType).Out()} {
				wt := []dgo.TupleType{want.(dgo.FunctionType).In(), want.(dgo.FunctionType).Out()}[i]
				sameType(c, ty, "tuple", tt, wt)
				sameType(c, ty, "element type", tt.ElementType(), wt.ElementType())
				if tt.HashCode() != wt.HashCode() || tt.String() != wt.String() || tt.TypeIdentifier() != wt.TypeIdentifier() {
					c.Fatalf("%s: %s and %s", g.rt, tt, wt)
				}
			}
		}
		if len(g.t.E)+len(g.t.R) > 0 {
			c.NonTrivial(g.rt.String())
		}
		c.Class("%d parameters, variadic %v", len(g.t.E), g.t.Add)
	})
}

func checkStructParts(c *C, t *T, ty dgo.Type) {
	st := ty.(dgo.StructMapType)
	n := len(t.Keys)
	if st.Len() != n || st.Additional() != t.Add {
		c.Fatalf("%s (%T) has %d entries, additional %v", ty, ty, st.Len(), st.Additional())
	}
	min, max := 0, int64(n)
	for _, r := range t.Req {
		if r {
			min++
		}
	}
	if t.Add {
		max = unbounded
	}
	checkSized(c, ty, int64(min), max)
	entry := func(what string, i int, e dgo.StructMapEntry) {
		sameType(c, ty, "key of "+what, e.Key(), build(t.Keys[i], frozenRoute).Type())
		sameType(c, ty, "value of "+what, e.Value(), t.E[i].build())
		if e.Required() != t.Req[i] {
			c.Fatalf("%s of %s (%T) is required: %v", what, ty, ty, e.Required())
		}
	}
	i := 0
	st.Each(func(e dgo.StructMapEntry) {
		entry(fmt.Sprintf("entry %d", i), i, e)
		checkParts(c, t.E[i], e.Value().(dgo.Type))
		i++
	})
	if i != n {
		c.Fatalf("Each delivers %d entries of %s", i, ty)
	}
	for i := range t.Keys {
		e := st.Get(build(t.Keys[i], drawRouter(c.T)))
		if e == nil {
			c.Fatalf("%s has no entry %s", ty, t.Keys[i].str())
		}
		entry("the entry for "+t.Keys[i].str(), i, e)
		if g := st.Get(build(t.Keys[i], frozenRoute).Type()); g == nil || !g.Equals(e) {
			c.Fatalf("%s has another entry for the exact type of %s", ty, t.Keys[i].str())
		}
	}
	for _, k := range []interface{}{"no such key", 99, nil, 1.5} {
		if e := st.Get(k); e != nil && !member(&T{K: tAnyOf, E: exactTypes(t.Keys)}, model(vf.Value(k))) {
			c.Fatalf("%s has an entry for %v: %s", ty, k, e)
		}
	}
}

func exactTypes(vs []*V) []*T {
	ts := make([]*T, len(vs))
	for i := range vs {
		ts[i] = tExactOf(vs[i])
	}
	return ts
}

// checkExactParts checks what the exact type of a value reports
func checkExactParts(c *C, v *V, ty dgo.Type) {
	ev := build(v, frozenRoute)
	if !dgo.IsExact(ty) || !ty.(dgo.ExactType).ExactValue().Equals(ev) || !typ.ExactValue(ty).Equals(ev) || !ev.Equals(typ.ExactValue(ev)) {
		c.Fatalf("%s (%T) is the exact type of %s", ty, ty, v.str())
	}
	if !typ.AsType(ev).Equals(ty) || !typ.AsType(ty).Equals(ty) {
		c.Fatalf("%s as a type is %s", ev, typ.AsType(ev))
	}
	each := func(vs []*V, reported dgo.Type, what string) {
		if len(vs) == 1 {
			sameType(c, ty, what, reported, build(vs[0], frozenRoute).Type())
		}
	}
	switch v.K {
	case kInt:
		it := ty.(dgo.IntegerType)
		if it.Min() != v.I || it.Max() != v.I || !it.Inclusive() || !it.IsInstance(v.I) || it.IsInstance(v.I+1) {
			c.Fatalf("%s has min %d, max %d, inclusive %v", ty, it.Min(), it.Max(), it.Inclusive())
		}
	case kFloat:
		ft := ty.(dgo.FloatType)
		if ft.Min() != v.F || ft.Max() != v.F || !ft.Inclusive() || !ft.IsInstance(v.F) || ft.IsInstance(math.Nextafter(v.F, math.Inf(1))) {
			c.Fatalf("%s has min %g, max %g, inclusive %v", ty, ft.Min(), ft.Max(), ft.Inclusive())
		}
	case kBool:
		if bt := ty.(dgo.BooleanType); !bt.IsInstance(v.B) || bt.IsInstance(!v.B) {
			c.Fatalf("IsInstance of %s", ty)
		}
	case kTime:
		if tt := ty.(dgo.TimeType); !tt.IsInstance(v.T) || tt.IsInstance(v.T.Add(1)) {
			c.Fatalf("IsInstance of %s", ty)
		}
	case kString:
		checkSized(c, ty, int64(len(v.S)), int64(len(v.S)))
	case kBinary:
		checkSized(c, ty, int64(len(v.Y)), int64(len(v.Y)))
	case kArray:
		tt := ty.(dgo.TupleType)
		checkTuple(c, ty, tt, exactTypes(v.A), false)
		each(v.A, tt.ElementType(), "element type")
	case kMap:
		n := int64(len(v.MK))
		st := ty.(dgo.StructMapType)
		checkSized(c, ty, n, n)
		for i := range v.MK {
			if n == 1 && !(st.KeyType().Instance(build(v.MK[i], frozenRoute)) && st.ValueType().Instance(build(v.MV[i], frozenRoute))) {
				c.Fatalf("the key type of %s is %s and the value type %s", ty, st.KeyType(), st.ValueType())
			}
		}
		if st.Additional() || int64(st.Len()) != n {
			c.Fatalf("%s has %d entries, additional %v", ty, st.Len(), st.Additional())
		}
		seen := 0
		st.Each(func(e dgo.StructMapEntry) {
			seen++
			kt, isType := e.Key().(dgo.ExactType)
			i := -1
			if isType {
				i = v.get(model(kt.ExactValue()))
			}
			if i < 0 || !e.Required() {
				c.Fatalf("%s has the entry %s, required %v", ty, e, e.Required())
			}
			sameType(c, ty, "entry value", e.Value(), build(v.MV[i], frozenRoute).Type())
		})
		if seen != int(n) {
			c.Fatalf("Each delivers %d entries of %s", seen, ty)
		}
		for i := range v.MK {
			e := st.Get(build(v.MK[i], drawRouter(c.T)))
			if e == nil || !e.Required() {
				c.Fatalf("%s has no required entry %s", ty, v.MK[i].str())
			}
			sameType(c, ty, "entry key", e.Key(), build(v.MK[i], frozenRoute).Type())
			sameType(c, ty, "entry value", e.Value(), build(v.MV[i], frozenRoute).Type())
		}
	}
}

func TestP31_Parts(t *testing.T) {
	prop(t, 6000, "a type and what it was created from; non-trivial if it has parts or limits", func(c *C) {
		m := drawT(c.T, tOpts{depth: 4, vDepth: 3, wideStrs: true})
		c.Class(tkNames[m.K])
		ty := m.build()
		checkParts(c, m, ty)
		r := rebuilt(ty)
		if !r.Equals(ty) || !ty.Equals(r) || r.HashCode() != ty.HashCode() || r.TypeIdentifier() != ty.TypeIdentifier() || r.String() != ty.String() {
			c.Fatalf("%s (%T) rebuilt from what it reports is %s (%T)", ty, ty, r, r)
		}
		if v := drawCandidate(c.T, m); v != nil {
			dv := build(v, frozenRoute)
			if r.Instance(dv) != ty.Instance(dv) {
				c.Fatalf("%s is an instance of %s: %v, and of what it is rebuilt to: %v", dv, ty, ty.Instance(dv), r.Instance(dv))
			}
		}
		if m.K >= tIntRange && m.K != tFloat && m.K != tString && m.K != tBinary && m.K != tTime && m.K != tRegexp {
			c.NonTrivial(m.str())
		}
	})
}

// TestP31_Arguments: the parts of a type can be given to the factory as Go values or as dgo values
func TestP31_Arguments(t *testing.T) {
	prop(t, 3000, "a type created through another form of the arguments; always non-trivial", func(c *C) {
		a, b := drawSize(c.T)
		e, k := drawT(c.T, tOpts{depth: 2}), drawT(c.T, tOpts{depth: 1, excl: []TK{tStruct, tSensitive}})
		size := func(n int64) interface{} {
			switch rapid.IntRange(0, 3).Draw(c.T, "form of size") {
			case 0:
				return vf.Integer(n)
			case 1:
				return int(n)
			}
			return n
		}
		form := func(t *T) interface{} { // an exact type can be given as the value
			if t.K == tExact && t.V.K != kType && t.V.K != kString && rapid.Bool().Draw(c.T, "as value") {
				return build(t.V, frozenRoute).Type()
			}
			return t.build()
		}
		var made, want dgo.Type
		switch rapid.IntRange(0, 4).Draw(c.T, "which") {
		case 0:
			made, want = tf.Array(form(e), size(a), size(b)), (&T{K: tArray, E: []*T{e}, Min: a, Max: b}).build()
		case 1:
			made, want = tf.Array(size(a), size(b)), (&T{K: tArray, E: []*T{tk(tAny)}, Min: a, Max: b}).build()
		case 2:
			made, want = tf.Map(form(k), form(e), size(a), size(b)), (&T{K: tMap, E: []*T{k, e}, Min: a, Max: b}).build()
		case 3:
			made, want = tf.String(size(a), size(b)), (&T{K: tStringSized, Min: a, Max: b}).build()
		case 4:
			made, want = tf.Binary(size(a), size(b)), (&T{K: tBinarySized, Min: a, Max: b}).build()
		}
		if !made.Equals(want) || made.TypeIdentifier() != want.TypeIdentifier() {
			c.Fatalf("%s (%T) and %s (%T)", made, made, want, want)
		}
		c.NonTrivial(want.String())
	})
}

// goData is true for types where instances can be converted to Go and back. Go maps have neither keys that are slices or
// maps nor an order.
func goData(t *T) bool {
	return !t.has(func(x *T) bool {
		return x.K == tMeta || x.K == tFunc
	})
}

func goKeys(v *V) bool {
	for _, k := range v.MK {
		if k.K == kArray || k.K == kMap || k.K == kBinary || k.K == kSensitive || k.K == kTime || k.K == kRegexp {
			return false
		}
	}
	for _, s := range [][]*V{v.A, v.MK, v.MV} {
		for _, e := range s {
			if !goKeys(e) {
				return false
			}
		}
	}
	return true
}

func TestP31_GoType(t *testing.T) {
	prop(t, 5000, "a type and an instance of it that is stored in a variable of the Go type; non-trivial if there is one", func(c *C) {
		m := drawT(c.T, tOpts{depth: 4, vDepth: 3, excl: []TK{tMeta, tFunc}})
		c.Class(tkNames[m.K])
		ty := m.build()
		var rt reflect.Type
		if p := catch(func() { rt = ty.ReflectType() }); p != nil || rt == nil {
			c.Fatalf("the Go type of %s is %v: %v", ty, rt, p)
		}
		v := drawMember(c.T, m, 3)
		if v == nil || !goKeys(v) {
			return
		}
		dv := build(v, drawRouter(c.T))
		c.Doing("storing %s of type %s in a %s", dv, ty, rt)
		dest := reflect.New(rt)
		if p := catch(func() { vf.ReflectTo(dv, dest.Elem()) }); p != nil {
			c.Fatalf("%s is an instance of %s but can't be stored in a %s: %s", dv, ty, rt, p)
		}
		back := vf.ValueFromReflected(dest.Elem())
		if !back.Equals(dv) {
			c.Fatalf("%s of type %s in a %s is %s", dv, ty, rt, back)
		}
		if ft := tf.FromReflected(rt); !ft.Instance(back) {
			c.Fatalf("%s of type %s in a %s is %s, not an instance of %s", dv, ty, rt, back, ft)
		}
		c.NonTrivial(m.str() + " " + v.str())
	})
}

func isASCII(s string) bool {
	for i := range []byte(s) {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}
