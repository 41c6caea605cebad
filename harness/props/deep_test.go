package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// The checks in this file use values and types that are nested much deeper than those that the other checks generate.

// wraps draws what a leaf is wrapped in, innermost first
func wraps(t *rapid.T, kinds []string, max int) []string {
	pattern := rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 4).Draw(t, "pattern")
	n := rapid.SampledFrom([]int{2, 5, 9, 17, 33, 65, 70, 129, 257}).Draw(t, "depth")
	if n > max {
		n = max
	}
	r := make([]string, n)
	for i := range r {
		r[i] = pattern[i%len(pattern)]
	}
	return r
}

var valueWraps = []string{"[x]", "[1,x]", "[x,1]", "{a:x}", "{a:1,b:x}", "sensitive", "sens map"}
var plainWraps = valueWraps[:5]

func wrapV(ws []string, v *V) *V {
	for _, w := range ws {
		switch w {
		case "[x]":
			v = vArr(v)
		case "[1,x]":
			v = vArr(vInt(1), v)
		case "[x,1]":
			v = vArr(v, vInt(1))
		case "{a:x}":
			v = vMap(vStr("a"), v)
		case "{a:1,b:x}":
			v = vMap(vStr("a"), vInt(1), vStr("b"), v)
		case "sensitive":
			v = vSens(vArr(v))
		case "sens map":
			v = vSens(vMap(vStr("k"), v))
		}
	}
	return v
}

func deepName(ws []string, v *V) string {
	return fmt.Sprintf("%s in %d of %v", v.str(), len(ws), uniq4(ws))
}

func uniq4(ws []string) []string {
	if len(ws) > 4 {
		ws = ws[:4]
	}
	return ws
}

// innermost finds the leaf again
func innermost(v dgo.Value, ws []string) dgo.Value {
	for i := len(ws) - 1; i >= 0; i-- {
		switch ws[i] {
		case "[x]", "[x,1]":
			v = v.(dgo.Array).Get(0)
		case "[1,x]":
			v = v.(dgo.Array).Get(1)
		case "{a:x}":
			v = v.(dgo.Map).Get("a")
		case "{a:1,b:x}":
			v = v.(dgo.Map).Get("b")
		case "sensitive":
			v = v.(dgo.Sensitive).Unwrap().(dgo.Array).Get(0)
		case "sens map":
			v = v.(dgo.Sensitive).Unwrap().(dgo.Map).Get("k")
		}
	}
	return v
}

func deepPair(c *C, ws []string, o vOpts) (a, b *V) {
	a = drawV(c.T, o)
	b = a
	if rapid.Bool().Draw(c.T, "differ") {
		b = drawNear(c.T, a, o)
	}
	c.Doing("%s, %s", deepName(ws, a), b.str())
	return
}

func TestP01_Deep(t *testing.T) {
	prop(t, 1500, "two scalars or small collections wrapped in the same up to 257 collections; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 257)
		a, b := deepPair(c, ws, richOpts(2))
		va, vb := build(wrapV(ws, a), drawRouter(c.T)), build(wrapV(ws, b), drawRouter(c.T))
		eq := refEq(a, b)
		if va.Equals(vb) != eq || vb.Equals(va) != eq {
			c.Fatalf("%s: Equals %s in the same is %v, %v", deepName(ws, a), b.str(), va.Equals(vb), vb.Equals(va))
		}
		if eq && va.HashCode() != vb.HashCode() {
			c.Fatalf("%s: equal to %s in the same but with another hash code", deepName(ws, a), b.str())
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, a) + b.str())
		}
	})
}

func TestP05_Deep(t *testing.T) {
	prop(t, 1000, "a mutable collection wrapped in up to 257 collections, frozen or copied; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 257)
		leaf := drawK(c.T, rapid.SampledFrom([]K{kArray, kMap, kBinary}).Draw(c.T, "kind"), richOpts(2))
		v := build(wrapV(ws, leaf), drawRouter(c.T))
		f, ok := v.(dgo.Freezable)
		if !ok {
			c.Class("not freezable")
			return
		}
		c.Doing("%s", deepName(ws, leaf))
		var fv dgo.Value
		if rapid.Bool().Draw(c.T, "copy") {
			fv = f.FrozenCopy()
		} else {
			f.Freeze()
			fv = v
		}
		if x := notFrozen(fv); x != nil {
			c.Fatalf("%s: %s in it isn't frozen", deepName(ws, leaf), x)
		}
		in := innermost(fv, ws)
		if p := catch(func() {
			switch in := in.(type) {
			case dgo.Array:
				in.Add(1)
			case dgo.Map:
				in.Put("new", 1)
			case dgo.Binary:
				panic("no mutator")
			}
		}); p == nil || p.runtimeErr() {
			c.Fatalf("%s: the innermost value can be changed, %v", deepName(ws, leaf), p)
		}
		if !refEq(model(in), leaf) {
			c.Fatalf("%s: the innermost value is %s after freezing", deepName(ws, leaf), in)
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, leaf))
		}
	})
}

func TestP06_Deep(t *testing.T) {
	prop(t, 1000, "a mutable collection wrapped in up to 257 collections and copied, after which the innermost is changed; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, plainWraps, 257)
		leaf := drawK(c.T, rapid.SampledFrom([]K{kArray, kMap}).Draw(c.T, "kind"), richOpts(2))
		v := mutableOf(wrapV(ws, leaf))
		c.Doing("%s", deepName(ws, leaf))
		var cp dgo.Value
		how := rapid.SampledFrom([]string{"FrozenCopy", "ThawedCopy", "Copy(true)", "Copy(false)"}).Draw(c.T, "how")
		switch how {
		case "FrozenCopy":
			cp = v.(dgo.Freezable).FrozenCopy()
		case "ThawedCopy":
			cp = v.(dgo.Freezable).ThawedCopy()
		default:
			frozen := how == "Copy(true)"
			if a, ok := v.(dgo.Array); ok {
				cp = a.Copy(frozen)
			} else {
				cp = v.(dgo.Map).Copy(frozen)
			}
		}
		change := func(v dgo.Value) {
			switch in := innermost(v, ws).(type) {
			case dgo.Array:
				in.Add("changed")
			case dgo.Map:
				in.Put("changed", true)
			}
		}
		change(v)
		if !refEq(model(innermost(cp, ws)), leaf) {
			c.Fatalf("%s: the %s changed when the original did", deepName(ws, leaf), how)
		}
		if how == "ThawedCopy" || how == "Copy(false)" {
			w := v.(dgo.Freezable).FrozenCopy()
			change(cp)
			change(cp)
			if !v.Equals(w) {
				c.Fatalf("%s: the original changed when the %s did", deepName(ws, leaf), how)
			}
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, leaf))
		}
	})
}

// mutableOf builds the value from mutable collections only
func mutableOf(v *V) dgo.Value {
	switch v.K {
	case kArray:
		a := vf.MutableValues()
		for _, e := range v.A {
			a.Add(mutableOf(e))
		}
		return a
	case kMap:
		m := vf.MutableMap()
		for i, k := range v.MK {
			m.Put(build(k, fixedRoute), mutableOf(v.MV[i]))
		}
		return m
	}
	return build(v, fixedRoute)
}

func TestP07_Deep(t *testing.T) {
	prop(t, 1500, "two scalars wrapped in the same up to 257 arrays; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps[:3], 257)
		a, b := deepPair(c, ws, vOpts{kinds: []K{kInt, kFloat, kString, kBool, kBinary}, depth: 1})
		if a.has(isFloat) || b.has(isFloat) {
			return
		}
		want, wantOk, unknown := refCmp(wrapV(ws, a), wrapV(ws, b))
		if unknown {
			return
		}
		va, vb := build(wrapV(ws, a), drawRouter(c.T)), build(wrapV(ws, b), drawRouter(c.T))
		r, ok := va.(dgo.Comparable).CompareTo(vb)
		r2, ok2 := vb.(dgo.Comparable).CompareTo(va)
		if ok != ok2 || ok != wantOk || ok && (sign(r) != want || sign(r2) != -want) {
			c.Fatalf("%s, %s in the same: CompareTo gives %d,%v and %d,%v, expected %d,%v", deepName(ws, a), b.str(), r, ok, r2, ok2, want, wantOk)
		}
		c.Class("depth %d %v", len(ws), ok)
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, a) + b.str())
		}
	})
}

func wrapT(ws []string, t *T) *T {
	for _, w := range ws {
		switch w {
		case "[x]":
			t = tArr(t, 0, unbounded)
		case "[1,x]":
			t = &T{K: tTuple, E: []*T{tk(tInt), t}}
		case "[x,1]":
			t = &T{K: tTuple, E: []*T{t, tk(tInt)}}
		case "{a:x}":
			t = &T{K: tMap, E: []*T{tk(tString), t}, Max: unbounded}
		case "{a:1,b:x}":
			t = &T{K: tStruct, Keys: []*V{vStr("a"), vStr("b")}, E: []*T{tk(tInt), t}, Req: []bool{true, true}}
		case "sensitive":
			t = &T{K: tSensitive, E: []*T{tArr(t, 0, unbounded)}}
		case "sens map":
			t = &T{K: tSensitive, E: []*T{{K: tMap, E: []*T{tk(tString), t}, Max: unbounded}}}
		}
	}
	return t
}

func TestP08_Deep(t *testing.T) {
	prop(t, 1200, "a value and a type around it, wrapped in up to 257 collections and collection types; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 257)
		m := drawV(c.T, richOpts(2))
		tt := typeAround(c.T, m, 2)
		if nonASCIISized(tt, m) {
			return
		}
		c.Doing("%s, %s", deepName(ws, m), tt.str())
		want := member(tt, m)
		v, ty := build(wrapV(ws, m), drawRouter(c.T)), wrapT(ws, tt).build()
		if got := ty.Instance(v); got != want {
			c.Fatalf("%s is an instance of %s in the same: %v", deepName(ws, m), tt.str(), got)
		}
		c.Class("depth %d %v", len(ws), want)
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, m) + tt.str())
		}
	})
}

var leafPairs = [][2]*T{{tIR(1, 9, true), tIR(2, 5, true)}, {tk(tString), {K: tStringSized, Min: 1, Max: 4}}, {tk(tAny), tk(tInt)}, {tk(tFloat), tExactOf(vFloat(1.5))},
	{tArr(tk(tInt), 0, 4), tArr(tk(tInt), 1, 3)}, {tk(tString), tExactOf(vStr("a"))}}

func TestP02_Deep(t *testing.T) {
	prop(t, 1200, "two types wrapped in the same up to 129 collection types; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 129)
		p := rapid.SampledFrom(leafPairs).Draw(c.T, "leaf")
		i, j := rapid.IntRange(0, 1).Draw(c.T, "i"), rapid.IntRange(0, 1).Draw(c.T, "j")
		a, b := wrapT(ws, p[i]).build(), wrapT(ws, p[j]).build()
		if a.Equals(b) != (i == j) || b.Equals(a) != (i == j) || i == j && a.HashCode() != b.HashCode() {
			c.Fatalf("%s and %s in %d of %v are equal: %v", p[i].str(), p[j].str(), len(ws), uniq4(ws), a.Equals(b))
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(fmt.Sprint(ws[:4], len(ws), p[i].str(), p[j].str()))
		}
	})
}

func TestP09_Deep(t *testing.T) {
	prop(t, 1200, "a type and a narrower one wrapped in the same up to 129 collection types; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 129)
		p := rapid.SampledFrom(leafPairs).Draw(c.T, "leaf")
		a, b := wrapT(ws, p[0]).build(), wrapT(ws, p[1]).build()
		if !a.Assignable(b) || !a.Assignable(a) || !a.Assignable(wrapT(ws, p[0]).build()) || b.Assignable(a) {
			c.Fatalf("%s is assignable from %s in %d of %v: %v, and vice versa %v", p[0].str(), p[1].str(), len(ws), uniq4(ws), a.Assignable(b), b.Assignable(a))
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(fmt.Sprint(ws[:4], len(ws), p[0].str()))
		}
	})
}

func TestP10_Deep(t *testing.T) {
	prop(t, 800, "two scalars or small collections wrapped in the same up to 129 collections; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, plainWraps, 129)
		a, b := deepPair(c, ws, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 2, width: 2})
		va, vb := build(wrapV(ws, a), drawRouter(c.T)), build(wrapV(ws, b), drawRouter(c.T))
		ty, eq := va.Type(), refEq(a, b)
		if !ty.Instance(va) && !a.has(isNaN) || ty.Instance(vb) != eq || ty.Equals(vb.Type()) != eq || ty.Assignable(vb.Type()) != eq || eq && ty.HashCode() != vb.Type().HashCode() {
			c.Fatalf("%s: type %v, %v, %v, %v of %s in the same", deepName(ws, a), ty.Instance(va), ty.Instance(vb), ty.Equals(vb.Type()), ty.Assignable(vb.Type()), b.str())
		}
		if g := typ.Generic(ty); !g.Instance(va) || !g.Assignable(ty) || !typ.Generic(g).Equals(g) {
			c.Fatalf("%s: generic %s", deepName(ws, a), g)
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, a) + b.str())
		}
	})
}

func isNaN(v *V) bool { return v.K == kFloat && v.F != v.F }

func TestP11_Deep(t *testing.T) {
	prop(t, 400, "a type wrapped in up to 129 collection types; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 129)
		p := rapid.SampledFrom(leafPairs).Draw(c.T, "leaf")
		tt := wrapT(ws, p[rapid.IntRange(0, 1).Draw(c.T, "which")])
		checkTypeText(c, tt.build(), fmt.Sprintf("%s in %d of %v", p[0].str(), len(ws), uniq4(ws)), nil)
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(fmt.Sprint(ws[:4], len(ws), p[0].str()))
		}
	})
}

func TestP14_Deep(t *testing.T) {
	prop(t, 500, "data wrapped in up to 257 collections; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, plainWraps, 257)
		leaf := drawData(c.T)
		if !jsonable(leaf) {
			return
		}
		c.Doing("%s", deepName(ws, leaf))
		v := build(wrapV(ws, leaf), drawOrdered(c.T))
		b := streamer.MarshalJSON(v, nil)
		back := streamer.UnmarshalJSON(b, nil)
		if !back.Equals(v) || !sameOrdered(model(innermost(back, ws)), leaf) {
			c.Fatalf("%s becomes %s", deepName(ws, leaf), back)
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, leaf))
		}
	})
}

func TestP15_Deep(t *testing.T) {
	prop(t, 500, "a rich value wrapped in up to 129 collections and sensitive values; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, valueWraps, 129)
		leaf := drawRichValue(c.T, streamOpts(2), false)
		c.Doing("%s", deepName(ws, leaf))
		v := build(wrapV(ws, leaf), drawOrdered(c.T))
		o := drawStreamOptions(c.T, false)
		dc := streamer.DataCollector()
		streamer.New(nil, o).Stream(v, dc)
		dd := streamer.DataDecoder(nil, o.Dialect)
		streamer.New(nil, o).Stream(dc.Value(), dd)
		if got := dd.Value(); !got.Equals(v) || !v.Equals(got) || !sameRich(model(innermost(got, ws)), leaf) {
			c.Fatalf("%s (%s) becomes %s", deepName(ws, leaf), describe(o), got)
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, leaf))
		}
	})
}

func TestP27_Deep(t *testing.T) {
	prop(t, 500, "a value wrapped in up to 129 collections; non-trivial when wrapped in more than 30", func(c *C) {
		ws := wraps(c.T, plainWraps, 129)
		leaf := drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString, kInt}, depth: 2, width: 3})
		m := wrapV(ws, leaf)
		if got, want := build(m, drawOrdered(c.T)).String(), render(m, "", 0); got != want {
			c.Fatalf("%s has the text %q and not %q", deepName(ws, leaf), got, want)
		}
		c.Class("depth %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(deepName(ws, leaf))
		}
	})
}

// TestP22_Long uses cycles that are longer than those that the other checks generate
func TestP22_Long(t *testing.T) {
	prop(t, 400, "a collection that contains itself through up to 129 other collections; non-trivial when through more than 30", func(c *C) {
		ws := wraps(c.T, plainWraps, 129)
		leaf := drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 1})
		c.Doing("%v %d", uniq4(ws), len(ws))
		make := func(leaf *V) dgo.Value {
			end := vf.MutableValues(build(leaf, fixedRoute))
			v := dgo.Value(end)
			for _, w := range ws {
				switch w {
				case "[x]":
					v = vf.MutableValues(v)
				case "[1,x]":
					v = vf.MutableValues(1, v)
				case "[x,1]":
					v = vf.MutableValues(v, 1)
				default:
					m := vf.MutableMap()
					if w != "{a:x}" {
						m.Put("a", 1)
						m.Put("b", v)
					} else {
						m.Put("a", v)
					}
					v = m
				}
			}
			end.Add(v)
			return v
		}
		other := leaf
		if rapid.Bool().Draw(c.T, "differ") {
			other = drawNear(c.T, leaf, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 1})
		}
		a, b := make(leaf), make(other)
		eq := refEq(leaf, other)
		if a.Equals(b) != eq || b.Equals(a) != eq {
			c.Fatalf("%s and %s in cycles of %d %v are equal: %v", leaf.str(), other.str(), len(ws), uniq4(ws), a.Equals(b))
		}
		if eq && a.HashCode() != b.HashCode() {
			c.Fatalf("%s in equal cycles of %d %v with different hash codes", leaf.str(), len(ws), uniq4(ws))
		}
		_ = a.String()
		f := a.(dgo.Freezable).FrozenCopy()
		if !f.Equals(a) || !a.Equals(f) {
			c.Fatalf("the frozen copy of a cycle of %d %v isn't equal to it", len(ws), uniq4(ws))
		}
		in := innermost(f, ws).(dgo.Array)
		if !in.Frozen() || in.Get(1) != f {
			c.Fatalf("the frozen copy of a cycle of %d %v isn't the same cycle", len(ws), uniq4(ws))
		}
		innermost(a, ws).(dgo.Array).Add(7)
		if in.Len() != 2 || f.Equals(a) {
			c.Fatalf("the frozen copy of a cycle of %d %v follows the original", len(ws), uniq4(ws))
		}
		c.Class("length %d", len(ws))
		if len(ws) > 30 {
			c.NonTrivial(fmt.Sprint(ws[:4], len(ws), leaf.str()))
		}
	})
}

// TestP13_Deep checks that deep nesting of brackets is either accepted or rejected
func TestP13_Deep(t *testing.T) {
	prop(t, 300, "a text with up to 5000 nested brackets, closed or not; non-trivial when longer than 100", func(c *C) {
		unit := rapid.SampledFrom([]string{"[", "{", "(", "map[string]", "[]", "!", "map[", "{a:", "func(", "sensitive[", "{1,", "<", "type["}).Draw(c.T, "unit")
		n := rapid.SampledFrom([]int{1, 10, 100, 1000, 5000}).Draw(c.T, "n")
		if unit == "func(" || unit == "type[" {
			n = min(n, 1000)
		}
		s := strings.Repeat(unit, n) + rapid.SampledFrom([]string{"", "1", "int", `"a"`}).Draw(c.T, "leaf")
		if rapid.Bool().Draw(c.T, "closed") {
			var cl string
			for _, r := range unit {
				if i := strings.IndexRune("[{(<", r); i >= 0 && unit != "[]" && unit != "map[string]" {
					cl = string("]})>"[i]) + cl
				}
			}
			s += strings.Repeat(cl, n)
		}
		c.Doing("%d times %q, %d", n, unit, len(s))
		p := catch(func() { tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { parser.ParseFile(aa, "", s) }) })
		if p != nil && p.runtimeErr() {
			c.Fatalf("%d times %q: %s\n%s", n, unit, p, p.stack)
		}
		c.Class("%q accepted %v", unit, p == nil)
		if n > 100 {
			c.NonTrivial(fmt.Sprint(unit, n, len(s)))
		}
	})
}
