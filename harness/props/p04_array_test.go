package props

import (
	"fmt"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

func uniq(vs []*V) []*V {
	var r []*V
next:
	for _, x := range vs {
		for _, y := range r {
			if refEq(x, y) {
				continue next
			}
		}
		r = append(r, x)
	}
	return r
}

func flatten(vs []*V) []*V {
	var r []*V
	for _, x := range vs {
		if x.K == kArray {
			r = append(r, flatten(x.A)...)
		} else {
			r = append(r, x)
		}
	}
	return r
}

// subBag says if each element of b can be paired with an element of a of its own
func subBag(a, b []*V) bool {
	left := append([]*V{}, a...)
next:
	for _, x := range b {
		for i, y := range left {
			if y != nil && refEq(x, y) {
				left[i] = nil
				continue next
			}
		}
		return false
	}
	return true
}

func indexOf(a []*V, x *V) int {
	for i, y := range a {
		if refEq(x, y) {
			return i
		}
	}
	return -1
}

func checkArray(c *C, what string, a dgo.Array, w []*V) {
	if a == nil {
		c.Fatalf("%s: no array", what)
	}
	if a.Len() != len(w) {
		c.Fatalf("%s: Len is %d, expected %d: %s", what, a.Len(), len(w), vArr(w...).str())
	}
	if g := model(a); !sameOrdered(g, vArr(w...)) {
		c.Fatalf("%s: array is %s, expected %s", what, g.str(), vArr(w...).str())
	}
}

func TestP04_History(t *testing.T) {
	prop(t, 8000, "at least 4 operations on an array that has at least 3 elements at some point", func(c *C) {
		r := drawRouter(c.T)
		var uni []*V
		for i, n := 0, rapid.IntRange(1, 8).Draw(c.T, "universe"); i < n; i++ {
			uni = append(uni, drawScalar(c.T))
		}
		elem := func() *V {
			if rapid.IntRange(0, 9).Draw(c.T, "fresh") == 0 {
				return drawScalar(c.T)
			}
			return uni[rapid.IntRange(0, len(uni)-1).Draw(c.T, "e")]
		}
		elems := func(max int) []*V {
			r := []*V{}
			for i, n := 0, rapid.IntRange(0, max).Draw(c.T, "n"); i < n; i++ {
				r = append(r, elem())
			}
			return r
		}
		w := elems(8)
		a := buildArray(vArr(w...), fixedRoute).Copy(false)
		if rapid.Bool().Draw(c.T, "wrapped") {
			s := make([]dgo.Value, len(w), len(w)+rapid.IntRange(0, 5).Draw(c.T, "spare"))
			for i := range w {
				s[i] = build(w[i], fixedRoute)
			}
			a = vf.WrapSlice(s)
		}
		log := vArr(w...).str()
		big := 0
		n := rapid.IntRange(1, 30).Draw(c.T, "ops")
		insert := func(w []*V, at int, xs ...*V) []*V {
			return append(append(append([]*V{}, w[:at]...), xs...), w[at:]...)
		}
		fixed := func(vs []*V) dgo.Array { return buildArray(vArr(vs...), fixedRoute) }
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 28).Draw(c.T, "op")
			what := fmt.Sprintf("op %d", op)
			goOn := func(d dgo.Array, dw []*V) {
				checkArray(c, log+"; "+what, d, dw)
				if d.Frozen() != a.Frozen() {
					c.Fatalf("%s; %s: result has frozen %v", log, what, d.Frozen())
				}
				if rapid.IntRange(0, 2).Draw(c.T, "go on") == 0 {
					a, w = d, dw
				}
			}
			switch op {
			case 0, 1:
				e := elem()
				what = "Add " + e.str()
				a.Add(goOrValue(c.T, e))
				w = insert(w, len(w), e)
			case 2:
				es := elems(4)
				what = "AddAll " + vArr(es...).str()
				a.AddAll(fixed(es))
				w = insert(w, len(w), es...)
			case 3:
				es := elems(4)
				what = "AddValues " + vArr(es...).str()
				var xs []interface{}
				for _, e := range es {
					xs = append(xs, goOrValue(c.T, e))
				}
				a.AddValues(xs...)
				w = insert(w, len(w), es...)
			case 4, 5:
				e, at := elem(), rapid.IntRange(0, len(w)).Draw(c.T, "at")
				what = fmt.Sprintf("Insert(%d, %s)", at, e.str())
				a.Insert(at, goOrValue(c.T, e))
				w = insert(w, at, e)
			case 6:
				at := rapid.IntRange(-2, len(w)+1).Draw(c.T, "at")
				what = fmt.Sprintf("Remove(%d)", at)
				got := dgo.Value(nil)
				p := catch(func() { got = a.Remove(at) })
				if at >= 0 && at < len(w) {
					if p != nil || !sameOrNil(got, w[at]) {
						c.Fatalf("%s; %s gave %v %v", log, what, got, p)
					}
					w = append(append([]*V{}, w[:at]...), w[at+1:]...)
				} else if p == nil && got != nil {
					c.Fatalf("%s; %s of an illegal position gave %v", log, what, got)
				}
			case 7:
				e := elem()
				what = "RemoveValue " + e.str()
				at := indexOf(w, e)
				if a.RemoveValue(goOrValue(c.T, e)) != (at >= 0) {
					c.Fatalf("%s; %s gave %v", log, what, at < 0)
				}
				if at >= 0 {
					w = append(append([]*V{}, w[:at]...), w[at+1:]...)
				}
			case 8:
				what = "Pop"
				got, ok := a.Pop()
				if ok != (len(w) > 0) || ok && !sameOrNil(got, w[len(w)-1]) {
					c.Fatalf("%s; Pop gave %v %v", log, got, ok)
				}
				if ok {
					w = w[: len(w)-1 : len(w)-1]
				}
			case 9:
				if len(w) == 0 {
					continue
				}
				e, at := elem(), rapid.IntRange(0, len(w)-1).Draw(c.T, "at")
				what = fmt.Sprintf("Set(%d, %s)", at, e.str())
				if old := a.Set(at, goOrValue(c.T, e)); !sameOrNil(old, w[at]) {
					c.Fatalf("%s; %s gave %v", log, what, old)
				}
				w = insert(w, 0)
				w[at] = e
			case 10: // illegal positions
				at := rapid.SampledFrom([]int{-1, len(w), len(w) + 1, len(w) + 3, -1 << 40, 1 << 40}).Draw(c.T, "illegal")
				what = fmt.Sprintf("illegal %d", at)
				for name, f := range map[string]func(){
					"Get":    func() { a.Get(at) },
					"Set":    func() { a.Set(at, 1) },
					"Insert": func() { a.Insert(at, 1) },
					"Slice":  func() { a.Slice(0, at) },
					"Slice2": func() { a.Slice(at, len(w)) },
				} {
					if at == len(w) && name != "Get" && name != "Set" {
						continue
					}
					if p := catch(f); p == nil {
						c.Fatalf("%s; %s(%d) on an array of size %d did not panic", log, name, at, len(w))
					}
				}
			case 11:
				i := rapid.IntRange(0, len(w)).Draw(c.T, "i")
				j := rapid.IntRange(i, len(w)).Draw(c.T, "j")
				what = fmt.Sprintf("Slice(%d, %d)", i, j)
				goOn(a.Slice(i, j), insert(w[i:j], 0))
			case 12, 13:
				var keep []bool
				for range w {
					keep = append(keep, rapid.Bool().Draw(c.T, "keep"))
				}
				var yes, no []*V
				for i, x := range w {
					if keep[i] {
						yes = append(yes, x)
					} else {
						no = append(no, x)
					}
				}
				i := -1
				f := func(dgo.Value) bool { i++; return keep[i] }
				if op == 12 {
					what = "Select"
					goOn(a.Select(f), yes)
				} else {
					what = "Reject"
					goOn(a.Reject(f), no)
				}
			case 14:
				what = "Map"
				i := -1
				nil3 := rapid.Bool().Draw(c.T, "nil")
				var dw []*V
				for j, x := range w {
					if nil3 && j%3 == 0 {
						dw = append(dw, vNil())
					} else {
						dw = append(dw, vArr(vInt(int64(j)), x))
					}
				}
				d := a.Map(func(v dgo.Value) interface{} {
					i++
					if nil3 && i%3 == 0 {
						return nil
					}
					return vf.Values(i, v)
				})
				checkArray(c, log+"; Map", d, dw)
			case 15:
				what = "Flatten"
				goOn(a.Flatten(), flatten(w))
			case 16:
				what = "Unique"
				goOn(a.Unique(), uniq(w))
			case 17:
				es := elems(4)
				if rapid.Bool().Draw(c.T, "part") && len(w) > 0 {
					for k, l := 0, rapid.IntRange(0, 4).Draw(c.T, "parts"); k < l; k++ {
						es = append(es, w[rapid.IntRange(0, len(w)-1).Draw(c.T, "part")])
					}
				}
				o := fixed(es)
				what = "ContainsAll " + vArr(es...).str()
				if got := a.ContainsAll(o); got != subBag(w, es) {
					c.Fatalf("%s; %s is %v", log, what, got)
				}
				if got := a.SameValues(o); got != (len(w) == len(es) && subBag(w, es)) {
					c.Fatalf("%s; SameValues %s is %v", log, what, got)
				}
				idx := make([]int, len(w))
				for j := range idx {
					idx[j] = j
				}
				if len(w) > 0 {
					pw := []*V{}
					for _, j := range rapid.Permutation(idx).Draw(c.T, "perm") {
						pw = append(pw, w[j])
					}
					if !a.SameValues(fixed(pw)) || !fixed(pw).ContainsAll(a) {
						c.Fatalf("%s; SameValues of permutation %s is false", log, vArr(pw...).str())
					}
				}
			case 18:
				what = "search"
				e := elem()
				if got := a.IndexOf(goOrValue(c.T, e)); got != indexOf(w, e) {
					c.Fatalf("%s; IndexOf %s is %d", log, e.str(), got)
				}
				stop := rapid.IntRange(0, len(w)).Draw(c.T, "stop")
				visits := 0
				at := func(dgo.Value) bool { visits++; return visits == stop+1 }
				hit, wv := stop < len(w), len(w)
				if hit {
					wv = stop + 1
				}
				if got := a.Any(at); got != hit || visits != wv {
					c.Fatalf("%s; Any at %d is %v after %d", log, stop, got, visits)
				}
				visits = 0
				if got := a.All(func(v dgo.Value) bool { return !at(v) }); got == hit || visits != wv {
					c.Fatalf("%s; All at %d is %v after %d", log, stop, got, visits)
				}
				visits = 0
				got := a.Find(func(v dgo.Value) interface{} {
					if at(v) {
						return v
					}
					return nil
				})
				if (got != nil) != hit || visits != wv || hit && !sameOrdered(model(got.(dgo.Value)), w[stop]) {
					c.Fatalf("%s; Find at %d is %v after %d", log, stop, got, visits)
				}
				hits := rapid.IntRange(0, 3).Draw(c.T, "hits")
				visits = 0
				one := a.One(func(dgo.Value) bool { visits++; return visits <= hits })
				if hits > len(w) {
					hits = len(w)
				}
				if one != (hits == 1) {
					c.Fatalf("%s; One with %d hits is %v", log, hits, one)
				}
			case 19:
				what = "fold"
				sum := a.Reduce([]string{}, func(memo, e dgo.Value) interface{} { return memo.(dgo.Array).With(e) })
				checkArray(c, log+"; Reduce", sum.(dgo.Array), w)
				var es, xs []*V
				a.Each(func(v dgo.Value) { es = append(es, model(v)) })
				a.EachWithIndex(func(v dgo.Value, i int) {
					if i != len(xs) {
						c.Fatalf("%s: wrong index %d", log, i)
					}
					xs = append(xs, model(v))
				})
				if !sameOrdered(vArr(es...), vArr(w...)) || !sameOrdered(vArr(xs...), vArr(w...)) {
					c.Fatalf("%s: iteration gave %s and %s", log, vArr(es...).str(), vArr(xs...).str())
				}
				gs := a.GoSlice()
				is := a.InterfaceSlice()
				as := a.AppendToSlice([]dgo.Value{vf.Nil})
				if len(gs) != len(w) || len(is) != len(w) || len(as) != len(w)+1 {
					c.Fatalf("%s: slices of wrong length", log)
				}
				for i := range w {
					if !sameOrNil(gs[i], w[i]) || !sameOrNil(is[i].(dgo.Value), w[i]) || !sameOrNil(as[i+1], w[i]) {
						c.Fatalf("%s: slices with wrong elements", log)
					}
				}
			case 20:
				e := elem()
				what = "With " + e.str()
				goOn(a.With(goOrValue(c.T, e)), insert(w, len(w), e))
			case 21:
				es := elems(3)
				what = "WithAll " + vArr(es...).str()
				goOn(a.WithAll(buildArray(vArr(es...), fixedRoute)), insert(w, len(w), es...))
			case 22:
				es := elems(3)
				what = "WithValues " + vArr(es...).str()
				goOn(a.WithValues(buildAll(es, fixedRoute)...), insert(w, len(w), es...))
			case 23:
				what = "ToMap"
				m := &V{K: kMap}
				for j := 0; j < len(w); j += 2 {
					v := vNil()
					if j+1 < len(w) {
						v = w[j+1]
					}
					m.put(w[j], v)
				}
				checkMap(c, log+"; ToMap", a.ToMap(), m, uni)
				if a.ToMap().Frozen() != a.Frozen() {
					c.Fatalf("%s; ToMap does not inherit frozen", log)
				}
			case 24:
				what = "ToMapFromEntries"
				m := &V{K: kMap}
				legal := true
				for _, x := range w {
					if x.K == kArray && len(x.A) == 2 {
						m.put(x.A[0], x.A[1])
					} else {
						legal = false
					}
				}
				d, ok := a.ToMapFromEntries()
				if ok != legal {
					c.Fatalf("%s; ToMapFromEntries gives %v", log, ok)
				}
				if ok {
					checkMap(c, log+"; ToMapFromEntries", d, m, uni)
				}
			case 25:
				what = "Copy"
				frozen := rapid.Bool().Draw(c.T, "frozen")
				d := a.Copy(frozen)
				if d.Frozen() != frozen {
					c.Fatalf("%s; Copy(%v) has frozen %v", log, frozen, d.Frozen())
				}
				checkArray(c, log+"; Copy", d, w)
				if frozen {
					// operations that derive from a frozen array
					e := elem()
					checkArray(c, log+"; frozen With", d.With(build(e, fixedRoute)), insert(w, len(w), e))
					checkArray(c, log+"; frozen WithValues", d.WithValues(build(e, fixedRoute), build(e, fixedRoute)), insert(w, len(w), e, e))
					checkArray(c, log+"; frozen Unique", d.Unique(), uniq(w))
					checkArray(c, log+"; frozen Flatten", d.Flatten(), flatten(w))
					if len(w) > 1 {
						checkArray(c, log+"; frozen Slice", d.Slice(1, len(w)-1).With(build(e, fixedRoute)), insert(w[1:len(w)-1], len(w)-2, e))
					}
					d = d.Copy(false)
				}
				a = d
			case 27:
				what = "with itself"
				if !a.ContainsAll(a) || !a.SameValues(a) || !a.Equals(a) {
					c.Fatalf("%s; does not contain or equal itself", log)
				}
				checkArray(c, log+"; WithAll of itself", a.WithAll(a), insert(w, len(w), w...))
				if len(w) < 12 && rapid.Bool().Draw(c.T, "add") {
					a.AddAll(a)
					w = insert(w, len(w), w...)
				}
			case 28:
				es := elems(4)
				what = "AddAll of other iterables " + vArr(es...).str()
				args := vf.Arguments(buildAll(es, fixedRoute)...)
				a.AddAll(args)
				w = insert(w, len(w), es...)
				if a.ContainsAll(args) != subBag(w, es) {
					c.Fatalf("%s; %s are not contained", log, what)
				}
				m := vMap()
				for _, e := range es {
					m.put(e, vInt(1))
				}
				d := a.WithAll(buildMap(m, fixedRoute))
				if d.Len() != len(w)+len(m.MK) {
					c.Fatalf("%s; WithAll of a map has size %d", log, d.Len())
				}
				for j := range m.MK {
					if e, ok := d.Get(len(w) + j).(dgo.MapEntry); !ok || !sameOrdered(model(e.Key()), m.MK[j]) || !sameOrdered(model(e.Value()), m.MV[j]) {
						c.Fatalf("%s; WithAll of %s has %s at %d", log, m.str(), d.Get(len(w)+j), j)
					}
				}
				if !d.ContainsAll(buildMap(m, fixedRoute)) || len(m.MK) > 0 && a.ContainsAll(buildMap(m, fixedRoute)) {
					c.Fatalf("%s; entries of %s are contained: %v %v", log, m.str(), d.ContainsAll(buildMap(m, fixedRoute)), a.ContainsAll(buildMap(m, fixedRoute)))
				}
			case 26:
				what = "rebuild"
				b := buildArray(vArr(w...), r)
				if refEq(model(b), vArr(w...)) && (!a.Equals(b) || !b.Equals(a) || a.HashCode() != b.HashCode()) {
					c.Fatalf("%s; the array %s and a rebuilt array %s differ", log, a, b)
				}
			}
			log += "; " + what
			checkArray(c, log, a, w)
			if len(w) > big {
				big = len(w)
			}
			c.Class("op %d", op)
		}
		if n >= 4 && big >= 3 {
			c.NonTrivial(log)
		}
	})
}
