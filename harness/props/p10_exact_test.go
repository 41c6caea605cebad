package props

import (
	"errors"
	"math"
	"reflect"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

func isSensitive(v *V) bool { return v.K == kSensitive }

func TestP10_Exact(t *testing.T) {
	prop(t, 40000, "a value, the type of that value, and a related value; non-trivial for collections and for related values that differ", func(c *C) {
		v := drawV(c.T, richOpts(4))
		var w *V
		if rapid.IntRange(0, 3).Draw(c.T, "rel") == 0 {
			w = drawV(c.T, richOpts(3))
		} else {
			w = drawNear(c.T, v, richOpts(3))
		}
		dv, dw := build(v, drawRouter(c.T)), build(w, drawRouter(c.T))
		ty := dv.Type()
		if !ty.Instance(dv) {
			c.Fatalf("%s is not an instance of its type %s", v.str(), ty)
		}
		if !ty.Assignable(ty) || !ty.Equals(dv.Type()) || ty.HashCode() != dv.Type().HashCode() {
			c.Fatalf("the type %s of %s isn't the same when asked for again", ty, v.str())
		}
		if v.K == kSensitive {
			return // the type of a sensitive doesn't reveal what it contains
		}
		if !dgo.IsExact(ty) {
			c.Fatalf("the type %s of %s isn't exact", ty, v.str())
		}
		if x := typ.ExactValue(ty); !x.Equals(dv) || !refEq(model(x), v) {
			c.Fatalf("the exact value of the type of %s is %s", v.str(), x)
		}
		if x := typ.ExactValue(dv); x != dv {
			c.Fatalf("the exact value of %s is %s", v.str(), x)
		}
		if got, want := ty.Instance(dw), refEq(v, w); got != want {
			c.Fatalf("%s is an instance of the type of %s: %v", w.str(), v.str(), got)
		} else {
			c.typedInstance(ty, w, want)
		}
		tw := dw.Type()
		if !isSensitive(w) && !w.has(isSensitive) {
			if got, want := ty.Equals(tw), refEq(v, w); got != want {
				c.Fatalf("the types of %s and %s are equal: %v", v.str(), w.str(), got)
			}
			if got, want := ty.Assignable(tw), refEq(v, w); got != want {
				c.Fatalf("the type of %s is assignable from the type of %s: %v", v.str(), w.str(), got)
			}
		}
		g := typ.Generic(ty)
		checkGeneric(c, ty, g, v.str(), func() []dgo.Value { return []dgo.Value{dv} })
		if dgo.IsExact(g) && v.K != kNil {
			c.Fatalf("the generic form %s of the type of %s is exact", g, v.str())
		}
		if v.K >= kArray || !refEq(v, w) {
			c.Class(kNames[v.K])
			c.NonTrivial(v.str() + " ~ " + w.str())
		}
	})
}

func checkGeneric(c *C, ty, g dgo.Type, what string, members func() []dgo.Value) {
	if !g.Assignable(ty) {
		c.Fatalf("the generic form %s isn't assignable from the type %s (%s)", g, ty, what)
	}
	if gg := typ.Generic(g); !gg.Equals(g) {
		c.Fatalf("the generic form %s of %s has the generic form %s (%s)", g, ty, gg, what)
	}
	for _, m := range members() {
		if !g.Instance(m) {
			c.Fatalf("%s is an instance of %s but not of its generic form %s (%s)", m, ty, g, what)
		}
	}
}

func TestP10_Generic(t *testing.T) {
	prop(t, 30000, "a type, its generic form, and members of the type; non-trivial for collections and combinations", func(c *C) {
		// the assignability of not and oneOf is a known finding of P09
		a := drawT(c.T, tOpts{depth: 3, excl: []TK{tMeta, tFunc, tNot, tOneOf}, wideStrs: true})
		ty := a.build()
		g := typ.Generic(ty)
		checkGeneric(c, ty, g, a.str(), func() []dgo.Value {
			var ms []dgo.Value
			for i := 0; i < 3; i++ {
				if m := drawMember(c.T, a, 3); m != nil && !nonASCIISized(a, m) {
					ms = append(ms, build(m, fixedRoute))
				}
			}
			return ms
		})
		if a.K == tAllOf && len(a.E) == 2 {
			for i := range a.E {
				top := typ.Generic(a.E[i].build())
				for j := range a.E {
					if !top.Assignable(typ.Generic(a.E[j].build())) {
						top = nil
						break
					}
				}
				if top != nil && !(g.Assignable(top) && top.Assignable(g)) {
					c.Fatalf("the generic form of %s is %s, but that of operand %d, %s, is assignable from both operands", ty, g, i, top)
				}
			}
		}
		if a.K >= tArray {
			c.Class(tkNames[a.K])
			c.NonTrivial(a.str())
		}
	})
}

func TestP10_Change(t *testing.T) {
	prop(t, 10000, "a mutable array or map that is changed, its type asked for before and after; non-trivial when the content differs after the change", func(c *C) {
		k := rapid.SampledFrom([]K{kArray, kMap}).Draw(c.T, "kind")
		v := drawK(c.T, k, vOpts{kinds: dataKinds, keys: []K{kString, kInt}, depth: 3, width: 3})
		x := drawScalar(c.T)
		var dv dgo.Value
		w := v.clone()
		if k == kArray {
			a := vf.MutableValues(buildAll(v.A, fixedRoute)...)
			dv = a
			old := a.Type()
			_ = old.HashCode()
			if len(v.A) > 0 && rapid.Bool().Draw(c.T, "set") {
				a.Set(0, build(x, fixedRoute))
				w.A[0] = x
			} else {
				a.Add(build(x, fixedRoute))
				w.A = append(w.A, x)
			}
			if !old.Instance(a) || !refEq(model(typ.ExactValue(old)), w) {
				c.Fatalf("the type %s of the array doesn't follow the change to %s", old, w.str())
			}
		} else {
			m := vf.MutableMap()
			for i := range v.MK {
				m.Put(build(v.MK[i], fixedRoute), build(v.MV[i], fixedRoute))
			}
			dv = m
			old := m.Type()
			_ = old.HashCode()
			if len(v.MK) > 0 && rapid.Bool().Draw(c.T, "remove") {
				m.Remove(build(v.MK[0], fixedRoute))
				w.remove(v.MK[0])
			} else {
				m.Put("k", build(x, fixedRoute))
				w.put(vStr("k"), x)
			}
			if !old.Instance(m) || !refEq(model(typ.ExactValue(old)), w) {
				c.Fatalf("the type %s of the map doesn't follow the change to %s", old, w.str())
			}
		}
		ty := dv.Type()
		if !ty.Instance(dv) || !ty.Instance(build(w, fixedRoute)) || !ty.Equals(build(w, fixedRoute).Type()) {
			c.Fatalf("%s is not an instance of its type %s after a change", w.str(), ty)
		}
		if ty.Instance(build(v, fixedRoute)) != refEq(v, w) {
			c.Fatalf("%s is an instance of the type of %s", v.str(), w.str())
		}
		var min, max int
		switch ty := ty.(type) {
		case dgo.ArrayType:
			min, max = ty.Min(), ty.Max()
		case dgo.MapType:
			min, max = ty.Min(), ty.Max()
		}
		if n := len(w.A) + len(w.MK); min != n || max != n {
			c.Fatalf("the type of %s has size %d to %d", w.str(), min, max)
		}
		if !refEq(v, w) {
			c.NonTrivial(v.str() + " -> " + w.str())
		}
	})
}

func TestP10_Entries(t *testing.T) {
	prop(t, 5000, "two associations of a map; always non-trivial", func(c *C) {
		o := vOpts{kinds: dataKinds, keys: []K{kString, kInt}, depth: 3, width: 3}
		k1, v1 := drawKey(c.T, o), drawV(c.T, o)
		k2, v2 := k1, drawNear(c.T, v1, o)
		if rapid.Bool().Draw(c.T, "otherKey") {
			k2 = drawKey(c.T, o)
		}
		entry := func(k, v *V) dgo.MapEntry {
			var r dgo.MapEntry
			vf.Map(build(k, fixedRoute), build(v, drawRouter(c.T))).EachEntry(func(e dgo.MapEntry) { r = e })
			return r
		}
		e1, e2 := entry(k1, v1), entry(k2, v2)
		eq := refEq(k1, k2) && refEq(v1, v2)
		if e1.Equals(e2) != eq || eq && e1.HashCode() != e2.HashCode() {
			c.Fatalf("entries %s and %s are equal: %v", e1, e2, e1.Equals(e2))
		}
		t1, t2 := e1.Type(), e2.Type()
		if !t1.Instance(e1) || t1.Instance(e2) != eq || t1.Equals(t2) != eq || t1.Assignable(t2) != eq || eq && t1.HashCode() != t2.HashCode() {
			c.Fatalf("the types %s and %s: instance %v, %v, equal %v, assignable %v", t1, t2, t1.Instance(e1), t1.Instance(e2), t1.Equals(t2), t1.Assignable(t2))
		}
		checkGeneric(c, t1, typ.Generic(t1), e1.String(), func() []dgo.Value { return []dgo.Value{e1} })
		c.NonTrivial(k1.str() + "=>" + v1.str() + " " + k2.str() + "=>" + v2.str())
	})
}

type p10s struct{ A int }

func TestP10_Others(t *testing.T) {
	prop(t, 2000, "errors, functions, natives, types and special floats; always non-trivial", func(c *C) {
		vs := []dgo.Value{
			vf.Value(errors.New("a")), vf.Value(errors.New("b")), vf.Value(p10s{1}), vf.Value(&p10s{1}), vf.Value(make(chan int)),
			vf.Value(func(a int, b ...string) error { return nil }), vf.Value(func() {}), vf.Value(reflect.ValueOf(3 + 2i)), vf.Float(math.Inf(1)), vf.Float(math.Copysign(0, -1)),
			typ.String, typ.Any, typ.Array, drawT(c.T, tOpts{depth: 3}).build(),
		}
		i := rapid.IntRange(0, len(vs)-1).Draw(c.T, "value")
		v := vs[i]
		ty := v.Type()
		if !ty.Instance(v) {
			c.Fatalf("%s (%T) is not an instance of its type %s", v, v, ty)
		}
		if !ty.Equals(v.Type()) || ty.HashCode() != v.Type().HashCode() || !ty.Assignable(v.Type()) {
			c.Fatalf("the type %s of %s (%T) isn't the same when asked for again", ty, v, v)
		}
		checkGeneric(c, ty, typ.Generic(ty), v.String(), func() []dgo.Value { return []dgo.Value{v} })
		// The type of a type of a type describes types of types
		mm := ty.Type().Type()
		for _, w := range append(vs, ty.Type(), mm, drawT(c.T, tOpts{depth: 2}).build(), drawT(c.T, tOpts{depth: 2}).build().Type()) {
			_, isMeta := w.(dgo.Meta)
			if mm.Instance(w) != isMeta {
				c.Fatalf("%s (%T) is an instance of %s: %v", w, w, mm, !isMeta)
			}
			if wt, ok := w.(dgo.Type); ok && (!wt.Type().Instance(wt) || !wt.Type().Instance(ty) != !wt.Assignable(ty)) && !isMeta {
				c.Fatalf("%s is an instance of the type of %s: %v", ty, wt, wt.Type().Instance(ty))
			}
		}
		if e, ok := v.(error); ok {
			ie := ty.(interface{ IsInstance(error) bool })
			if !ie.IsInstance(e) || ie.IsInstance(errors.New(e.Error()+"x")) || !typ.Error.(interface{ IsInstance(error) bool }).IsInstance(e) {
				c.Fatalf("IsInstance of the type %s of the error %s", ty, v)
			}
		}
		if dgo.IsExact(ty) {
			for j, w := range vs {
				if ty.Instance(w) != v.Equals(w) {
					c.Fatalf("value %d %s (%T) is an instance of the exact type of %s (%T): %v", j, w, w, v, v, ty.Instance(w))
				}
			}
		}
		c.NonTrivial(v.String())
	})
}
