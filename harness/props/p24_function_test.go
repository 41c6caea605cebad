package props

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// TestP24_Calls calls functions of all kinds of signatures
func TestP24_Calls(t *testing.T) {
	prop(t, 15000, "a go function with a random signature, called with random arguments; non-trivial when it has parameters and results", func(c *C) {
		n := rapid.IntRange(0, 4).Draw(c.T, "params")
		variadic := n > 0 && rapid.IntRange(0, 2).Draw(c.T, "variadic") == 0
		var in, out []reflect.Type
		var ps []goSort
		for i := 0; i < n; i++ {
			s := drawGoSort(c.T, 3)
			ps = append(ps, s)
			if variadic && i == n-1 {
				if s.rt.Kind() == reflect.Uint8 {
					s = goScalarSort[0]
					ps[i] = s
				}
				in = append(in, reflect.SliceOf(s.rt))
			} else {
				in = append(in, s.rt)
			}
		}
		var results []reflect.Value
		var resultModels []*V
		for i := rapid.IntRange(0, 3).Draw(c.T, "results"); i > 0; i-- {
			s := drawGoSort(c.T, 3)
			x, m := s.draw(c.T)
			out = append(out, s.rt)
			results = append(results, x)
			resultModels = append(resultModels, m)
		}
		ft := reflect.FuncOf(in, out, variadic)
		calls := 0
		var got []reflect.Value
		boom := rapid.IntRange(0, 19).Draw(c.T, "boom") == 0
		gf := reflect.MakeFunc(ft, func(as []reflect.Value) []reflect.Value {
			calls++
			got = as
			if boom {
				panic("boom")
			}
			return results
		})
		f, ok := vf.Value(gf.Interface()).(dgo.GoFunction)
		if !ok {
			c.Fatalf("%s isn't a function", ft)
		}
		if reflect.TypeOf(f.GoFunc()) != ft {
			c.Fatalf("the go function of %s is a %T", ft, f.GoFunc())
		}
		if !strings.Contains(f.String(), ft.String()) {
			c.Fatalf("%s is printed as %s", ft, f)
		}
		if !f.Equals(f) || f.HashCode() != f.HashCode() || !f.Equals(gf.Interface()) || f.Equals(vf.Nil) || f.Equals(ft.String()) {
			c.Fatalf("%s: not equal to itself only", ft)
		}
		for _, g := range []interface{}{strings.ToUpper, strings.ToLower, strings.TrimSpace} {
			for _, h := range []interface{}{strings.ToUpper, strings.ToLower, strings.Contains} {
				same := reflect.ValueOf(g).Pointer() == reflect.ValueOf(h).Pointer()
				if gv, hv := vf.Value(g), vf.Value(h); gv.Equals(hv) != same || gv.Equals(h) != same || hv.Equals(g) != same || same && gv.HashCode() != hv.HashCode() {
					c.Fatalf("functions of type %T and %T: equal is %v", g, h, gv.Equals(hv))
				}
			}
		}
		// arguments
		na := n
		if variadic {
			na = n - 1 + rapid.IntRange(0, 4).Draw(c.T, "extra")
		}
		wrong := rapid.IntRange(0, 5).Draw(c.T, "wrongCount") == 0
		if wrong {
			na = rapid.IntRange(0, 6).Draw(c.T, "count")
			wrong = variadic && na < n-1 || !variadic && na != n
		}
		var args []interface{}
		var want []reflect.Value
		var texts []string
		for i := 0; i < na; i++ {
			s := goScalarSort[0]
			if i < n {
				s = ps[i]
			} else if variadic {
				s = ps[n-1]
			}
			x, m := s.draw(c.T)
			want = append(want, x)
			texts = append(texts, m.str())
			if m.has(func(v *V) bool { return strings.HasPrefix(v.S, "<") }) || s.rt == errType || s.rt == valueType || rapid.IntRange(0, 3).Draw(c.T, "goValue") == 0 {
				args = append(args, vf.ValueFromReflected(x)) // errors have no model
			} else {
				args = append(args, build(m, fixedRoute))
			}
		}
		what := fmt.Sprintf("calling %s with (%s)", ft, strings.Join(texts, ", "))
		var rs []dgo.Value
		av := vf.Values(args...)
		if rapid.Bool().Draw(c.T, "mutable") {
			av = vf.MutableValues(args...)
		}
		p := catch(func() { rs = f.Call(av) })
		if wrong {
			if p == nil || calls > 0 || p.runtimeErr() || !strings.Contains(p.String(), "illegal number of arguments") {
				c.Fatalf("%s: wrong number of arguments: %v", what, p)
			}
			c.Class("wrong number")
			return
		}
		if boom {
			if p == nil || p.v != "boom" {
				c.Fatalf("%s: the panic of the function is lost: %v", what, p)
			}
			c.Class("panics")
			return
		}
		if p != nil {
			c.Fatalf("%s: %v\n%s", what, p, p.stack)
		}
		if calls != 1 {
			c.Fatalf("%s: called %d times", what, calls)
		}
		if variadic {
			vs := got[n-1]
			got = append([]reflect.Value{}, got[:n-1]...)
			for i := 0; i < vs.Len(); i++ {
				got = append(got, vs.Index(i))
			}
		}
		if len(got) != len(want) {
			c.Fatalf("%s: the function is called with %d arguments", what, len(got))
		}
		for i := range got {
			if s := sameGo(want[i], got[i]); s != "" {
				c.Fatalf("%s: argument %d: %s", what, i, s)
			}
		}
		if len(rs) != len(results) {
			c.Fatalf("%s: %d results, expected %d", what, len(rs), len(results))
		}
		for i := range rs {
			if m := model(rs[i]); !refEq(m, resultModels[i]) && m.str() != resultModels[i].str() {
				c.Fatalf("%s: result %d is %s, expected %s", what, i, m.str(), resultModels[i].str())
			}
			// the value nil and the absence of a value
			if resultModels[i].K == kNil && results[i].CanInterface() {
				if _, isValue := results[i].Interface().(dgo.Value); isValue != (rs[i] != nil) {
					c.Fatalf("%s: result %d of type %s is %#v", what, i, out[i], rs[i])
				}
			}
		}
		c.Class("params %d", n)
		if variadic {
			c.Class("variadic")
		}
		if n > 0 && len(rs) > 0 {
			c.NonTrivial(what)
		}
	})
}

// TestP24_Types checks that the type of a function tells what it accepts
func TestP24_Types(t *testing.T) {
	prop(t, 20000, "a go function and values for its parameters, which may be of the wrong type; non-trivial when one is", func(c *C) {
		g := drawGoFunc(c.T)
		m := g.t
		called := 0
		f := vf.Value(reflect.MakeFunc(g.rt, func([]reflect.Value) []reflect.Value {
			called++
			var rs []reflect.Value
			for i := 0; i < g.rt.NumOut(); i++ {
				rs = append(rs, reflect.Zero(g.rt.Out(i)))
			}
			return rs
		}).Interface()).(dgo.Function)
		ft := f.Type().(dgo.FunctionType)
		if ft.Variadic() != m.Add || ft.In().Variadic() != m.Add || ft.Out().Variadic() || ft.In().Len() != len(m.E) || ft.Out().Len() != len(m.R) {
			c.Fatalf("%s has the type %s", g.rt, ft)
		}
		min, max := len(m.E), len(m.E)
		if m.Add {
			min, max = min-1, unbounded
		}
		if ft.In().Min() != min || ft.In().Max() != max {
			c.Fatalf("%s: the parameters of %s have the size %d..%d", g.rt, ft, ft.In().Min(), ft.In().Max())
		}
		mt := m.build()
		if !ft.Equals(mt) || !mt.Equals(ft) || ft.HashCode() != mt.HashCode() || ft.String() != mt.String() || !mt.Instance(f) || !ft.Instance(f) || !ft.Assignable(mt) || !mt.Assignable(ft) {
			c.Fatalf("%s has the type %s, expected %s", g.rt, ft, mt)
		}
		if ft.ReflectType() != g.rt {
			c.Fatalf("%s has the type %s which is reflected as %s", g.rt, ft, ft.ReflectType())
		}
		n := len(m.E)
		if m.Add {
			n += rapid.IntRange(-1, 2).Draw(c.T, "extra")
		}
		var args []interface{}
		var texts []string
		bad := -1
		av := vArr()
		for i := 0; i < n; i++ {
			j := i
			if j >= len(m.E) {
				j = len(m.E) - 1
			}
			v := drawCandidate(c.T, m.E[j])
			if nonASCIISized(m.E[j], v) {
				return
			}
			dv := build(v, fixedRoute)
			if m.E[j].hasKind(tFloatRange) && v.has(func(x *V) bool { return x.K == kFloat && x.F != x.F }) {
				return
			}
			if a, b := ft.In().Element(j).Instance(dv), member(m.E[j], v); a != b {
				c.Fatalf("%s: parameter %d of %s accepts %s: %v", g.rt, j, ft, v.str(), a)
			} else if !b && bad < 0 {
				bad = i
			}
			av.A = append(av.A, v)
			args = append(args, dv)
			texts = append(texts, v.str())
		}
		for i, r := range m.R {
			v := drawCandidate(c.T, r)
			if a, b := ft.Out().Element(i).Instance(build(v, fixedRoute)), member(r, v); a != b && !nonASCIISized(r, v) {
				c.Fatalf("%s: result %d of %s accepts %s: %v", g.rt, i, ft, v.str(), a)
			}
		}
		av2 := vf.Values(args...)
		if ft.In().Instance(av2) != (bad < 0) {
			c.Fatalf("%s: the parameters of %s accept (%s): %v", g.rt, ft, strings.Join(texts, ", "), bad >= 0)
		}
		what := fmt.Sprintf("calling %s with (%s)", g.rt, strings.Join(texts, ", "))
		p := catch(func() { f.Call(av2) })
		if unhashable := av.has(func(v *V) bool {
			for _, k := range v.MK {
				if k.K == kBinary || k.K == kArray || k.K == kMap {
					return true // not possible in a go map
				}
			}
			return false
		}); unhashable && p != nil {
			return
		}
		if p != nil && p.runtimeErr() {
			c.Fatalf("%s: %v\n%s", what, p, p.stack)
		}
		if bad < 0 {
			if p != nil {
				c.Fatalf("%s: %v", what, p)
			}
			c.Class("accepted")
		} else {
			nils := av.has(func(v *V) bool { return v.K == kNil })                                     // nil denotes the zero value of any go type
			bytes := m.hasKind(tBinary) && av.has(func(v *V) bool { return v != av && v.K == kArray }) // a list of bytes
			if p == nil && called > 0 && !nils && !bytes {
				c.Fatalf("%s: accepted although argument %d isn't an instance of the parameter type", what, bad)
			}
			c.NonTrivial(what)
			c.Class("rejected")
		}
	})
}

// positional tells if a function type accepts another: each parameter and result at the same position, and the same
// number of them
func positional(a, b *T) bool {
	want := a.Add == b.Add && len(a.R) == len(b.R)
	accepts := func(a, b *T) bool { return a.build().Assignable(b.build()) }
	if want && a.Add {
		want = len(a.E) <= len(b.E)
		for i := 0; want && i < len(b.E); i++ {
			j := i
			if j >= len(a.E) {
				j = len(a.E) - 1
			}
			want = accepts(a.E[j], b.E[i])
		}
	} else if want {
		want = len(a.E) == len(b.E)
		for i := 0; want && i < len(a.E); i++ {
			want = accepts(a.E[i], b.E[i])
		}
	}
	for i := 0; want && i < len(a.R); i++ {
		want = accepts(a.R[i], b.R[i])
	}
	return want
}

// TestP24_Accepts checks what functions are instances of a function type
func TestP24_Accepts(t *testing.T) {
	prop(t, 15000, "a function type and a go function; non-trivial when the type accepts the function and differs from its type", func(c *C) {
		g := drawGoFunc(c.T)
		m := g.t.clone()
		// a type that is related to that of the function
		vary := func(ts []*T) {
			for i := range ts {
				switch rapid.IntRange(0, 5).Draw(c.T, "vary") {
				case 0:
					ts[i] = tk(tAny)
				case 1:
					ts[i] = &T{K: tAnyOf, E: []*T{ts[i], drawGoType(c.T, 1).t}}
				case 2:
					ts[i] = drawGoType(c.T, 2).t
				}
			}
		}
		vary(m.E)
		vary(m.R)
		switch rapid.IntRange(0, 7).Draw(c.T, "arity") {
		case 0:
			m.E = append(m.E, drawGoType(c.T, 1).t)
		case 1:
			if len(m.E) > 0 {
				m.E = m.E[:len(m.E)-1]
			}
		case 2:
			m.Add = !m.Add
		case 3:
			m.R = append(m.R, drawGoType(c.T, 1).t)
		case 4:
			if len(m.R) > 0 {
				m.R = m.R[:len(m.R)-1]
			}
		}
		m.Add = m.Add && len(m.E) > 0
		f := vf.Value(reflect.MakeFunc(g.rt, func([]reflect.Value) []reflect.Value { return nil }).Interface()).(dgo.Function)
		ft := f.Type().(dgo.FunctionType)
		mt := m.build()
		// the reference: each parameter and result at the same position, and the same number of them
		want := positional(m, g.t)
		what := fmt.Sprintf("%s and the function %s", mt, g.rt)
		if got := mt.Instance(f); got != want {
			c.Fatalf("%s: instance is %v, expected %v", what, got, want)
		}
		if got := mt.Assignable(ft); got != want {
			c.Fatalf("%s: assignable is %v, expected %v", what, got, want)
		}
		if got := mt.Assignable(g.t.build()); got != want {
			c.Fatalf("%s: assignable from what it is described as is %v, expected %v", what, got, want)
		}
		// the type of another function, with some of the parameters and results of this one
		og := drawGoFunc(c.T)
		var in, out []reflect.Type
		for i := 0; i < og.rt.NumIn(); i++ {
			in = append(in, og.rt.In(i))
			if i < g.rt.NumIn() && !(i == og.rt.NumIn()-1 && og.t.Add) && !(i == g.rt.NumIn()-1 && g.t.Add) && rapid.IntRange(0, 4).Draw(c.T, "sameIn") != 0 {
				in[i], og.t.E[i] = g.rt.In(i), g.t.E[i]
			}
		}
		for i := 0; i < og.rt.NumOut(); i++ {
			out = append(out, og.rt.Out(i))
			if i < g.rt.NumOut() && rapid.IntRange(0, 4).Draw(c.T, "sameOut") != 0 {
				out[i], og.t.R[i] = g.rt.Out(i), g.t.R[i]
			}
		}
		ot := vf.Value(reflect.MakeFunc(reflect.FuncOf(in, out, og.t.Add), func([]reflect.Value) []reflect.Value { return nil }).Interface()).Type()
		owant := positional(og.t, g.t)
		if ot.Instance(f) != owant || ot.Assignable(ft) != owant || ot.Assignable(g.t.build()) != owant {
			c.Fatalf("%s accepts the function %s: %v, and its type: %v", ot, g.rt, ot.Instance(f), ot.Assignable(ft))
		}
		if mt.Instance(ft) || mt.Instance(1) || mt.Instance(mt.String()) {
			c.Fatalf("%s: accepts what isn't a function", mt)
		}
		if want && !mt.Equals(ft) {
			c.NonTrivial(what)
			c.Class("wider")
		} else {
			c.Class("accepted %v", want)
		}
	})
}
