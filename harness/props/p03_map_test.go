package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// native returns the go value for a scalar model or the dgo value when there is none
func goOrValue(t *rapid.T, v *V) interface{} {
	if rapid.IntRange(0, 2).Draw(t, "native") == 0 {
		switch v.K {
		case kNil:
			return nil
		case kBool:
			return v.B
		case kInt:
			return v.I
		case kFloat:
			return v.F
		case kString:
			return v.S
		case kBinary:
			return append([]byte{}, v.Y...)
		case kTime:
			return v.T
		}
	}
	return build(v, fixedRoute)
}

var collidingStrings = []string{"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "AaAaAa", "BBBBBB", "AaBBAa"}

// keyUniverse draws the keys that a history uses. Small universes give many hits, large ones make the table grow.
func keyUniverse(t *rapid.T) []*V {
	u := &V{K: kMap}
	add := func(k *V) { u.put(k, vNil()) }
	switch rapid.IntRange(0, 5).Draw(t, "universe") {
	case 0: // colliding strings
		for _, s := range collidingStrings {
			add(vStr(s))
		}
	case 1: // integers that share buckets
		step := rapid.SampledFrom([]int64{8, 16, 64, 1 << 16, 1<<16 + 1, 1 << 32}).Draw(t, "step")
		for i := int64(0); i < 14; i++ {
			add(vInt(i * step))
		}
	case 2: // things that look alike
		for _, k := range []*V{vNil(), vBool(false), vBool(true), vInt(0), vInt(1), vFloat(0), vFloat(1), vStr(""), vStr("0"), vStr("1"), vStr("nil"), vBin([]byte("1")),
			vBin(nil), vArr(), vArr(vInt(1)), vArr(vFloat(1)), vArr(vArr(vInt(1))), vTime(timePool[0]), vTime(timePool[1])} {
			add(k)
		}
	case 3: // many
		n := rapid.IntRange(20, 200).Draw(t, "many")
		for i := 0; i < n; i++ {
			if i%3 == 0 {
				add(vStr(fmt.Sprintf("key%d", i)))
			} else {
				add(vInt(int64(i)))
			}
		}
	default:
		n := rapid.IntRange(1, 12).Draw(t, "few")
		for i := 0; i < n; i++ {
			add(drawKey(t, richOpts(2)))
		}
	}
	return u.MK
}

func drawScalar(t *rapid.T) *V {
	return drawV(t, vOpts{kinds: []K{kNil, kBool, kInt, kInt, kFloat, kString, kArray, kMap}, keys: []K{kString, kInt}, depth: rapid.IntRange(1, 2).Draw(t, "depth"), width: 2})
}

func (v *V) remove(k *V) *V {
	i := v.get(k)
	if i < 0 {
		return nil
	}
	old := v.MV[i]
	v.MK = append(append([]*V{}, v.MK[:i]...), v.MK[i+1:]...)
	v.MV = append(append([]*V{}, v.MV[:i]...), v.MV[i+1:]...)
	return old
}

func sameOrNil(got dgo.Value, want *V) bool {
	if want == nil {
		return got == nil
	}
	return got != nil && sameOrdered(model(got), want)
}

// checkMap compares a map with its model using every read operation
func checkMap(c *C, what string, m dgo.Map, w *V, uni []*V) {
	if m.Len() != len(w.MK) {
		c.Fatalf("%s: Len is %d, expected %d: %s", what, m.Len(), len(w.MK), w.str())
	}
	if g := model(m); !sameOrdered(g, w) {
		c.Fatalf("%s: map is %s, expected %s", what, g.str(), w.str())
	}
	for _, k := range uni {
		var want *V
		if i := w.get(k); i >= 0 {
			want = w.MV[i]
		}
		if got := m.Get(build(k, fixedRoute)); !sameOrNil(got, want) {
			c.Fatalf("%s: Get(%s) is %v in %s", what, k.str(), got, w.str())
		}
		if m.ContainsKey(build(k, fixedRoute)) != (want != nil) {
			c.Fatalf("%s: ContainsKey(%s) is wrong in %s", what, k.str(), w.str())
		}
	}
	ks, vs := m.Keys(), m.Values()
	if !sameOrdered(model(ks), vArr(w.MK...)) || !sameOrdered(model(vs), vArr(w.MV...)) {
		c.Fatalf("%s: Keys %s or Values %s do not match %s", what, ks, vs, w.str())
	}
	if !ks.Frozen() {
		c.Fatalf("%s: Keys is not a frozen snapshot", what)
	}
	allStr := true
	for _, k := range w.MK {
		allStr = allStr && k.K == kString
	}
	if m.StringKeys() != allStr {
		c.Fatalf("%s: StringKeys is %v for %s", what, m.StringKeys(), w.str())
	}
}

// checkIteration compares iteration and predicates. stop says at which association the predicate becomes true
func checkIteration(c *C, m dgo.Map, w *V, stop int) {
	n := len(w.MK)
	var ks, vs, es, each []*V
	m.EachKey(func(k dgo.Value) { ks = append(ks, model(k)) })
	m.EachValue(func(v dgo.Value) { vs = append(vs, model(v)) })
	m.EachEntry(func(e dgo.MapEntry) { es = append(es, model(e.Key()), model(e.Value())) })
	m.Each(func(e dgo.Value) {
		me := e.(dgo.MapEntry)
		each = append(each, model(me.Key()), model(me.Value()))
	})
	var ew []*V
	for i := range w.MK {
		ew = append(ew, w.MK[i], w.MV[i])
	}
	if !sameOrdered(vArr(ks...), vArr(w.MK...)) || !sameOrdered(vArr(vs...), vArr(w.MV...)) || !sameOrdered(vArr(es...), vArr(ew...)) || !sameOrdered(vArr(each...), vArr(ew...)) {
		c.Fatalf("iteration of %s gave keys %s values %s entries %s", w.str(), vArr(ks...).str(), vArr(vs...).str(), vArr(es...).str())
	}
	visits := 0
	at := func() bool { visits++; return visits == stop+1 }
	check := func(name string, got, want bool, wantVisits int) {
		if got != want || visits != wantVisits {
			c.Fatalf("%s of %s with a predicate that decides at %d is %v after %d visits, expected %v after %d", name, w.str(), stop, got, visits, want, wantVisits)
		}
		visits = 0
	}
	hit := stop < n
	wv := n
	if hit {
		wv = stop + 1
	}
	check("Any", m.Any(func(dgo.MapEntry) bool { return at() }), hit, wv)
	check("AnyKey", m.AnyKey(func(dgo.Value) bool { return at() }), hit, wv)
	check("AnyValue", m.AnyValue(func(dgo.Value) bool { return at() }), hit, wv)
	check("All", m.All(func(dgo.MapEntry) bool { return !at() }), !hit, wv)
	check("AllKeys", m.AllKeys(func(dgo.Value) bool { return !at() }), !hit, wv)
	check("AllValues", m.AllValues(func(dgo.Value) bool { return !at() }), !hit, wv)
	e := m.Find(func(dgo.MapEntry) bool { return at() })
	check("Find", e != nil, hit, wv)
	if hit && (!sameOrdered(model(e.Key()), w.MK[stop]) || !sameOrdered(model(e.Value()), w.MV[stop])) {
		c.Fatalf("Find of %s at %d gave %s", w.str(), stop, e)
	}
}

func drawSubMap(c *C, uni []*V) *V {
	s := &V{K: kMap}
	for i, n := 0, rapid.IntRange(0, min(len(uni)+1, 20)).Draw(c.T, "n"); i < n; i++ {
		s.put(uni[rapid.IntRange(0, len(uni)-1).Draw(c.T, "k")], drawScalar(c.T))
	}
	return s
}

func cloneMap(w *V) *V {
	return &V{K: kMap, MK: append([]*V{}, w.MK...), MV: append([]*V{}, w.MV...)}
}

func TestP03_History(t *testing.T) {
	prop(t, 6000, "at least 4 operations, one removal of a present key or one replaced value, and a map of at least 2 associations at some point", func(c *C) {
		r := drawRouter(c.T)
		uni := keyUniverse(c.T)
		key := func() *V { return uni[rapid.IntRange(0, len(uni)-1).Draw(c.T, "k")] }
		w := drawSubMap(c, uni)
		m := buildMap(w, r)
		if !sameOrdered(model(m), w) && refEq(model(m), w) {
			w = model(m) // built from a go map: sorted by key
		}
		if m.Frozen() {
			m = m.Copy(false)
		}
		checkMap(c, "new map", m, w, uni)
		log := w.str()
		removed, replaced, big := false, false, 0
		n := rapid.IntRange(1, 40).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 19).Draw(c.T, "op")
			var what string
			switch op {
			case 0, 1, 2, 3, 4:
				k, v := key(), drawScalar(c.T)
				what = fmt.Sprintf("Put(%s, %s)", k.str(), v.str())
				var old *V
				if j := w.get(k); j >= 0 {
					old = w.MV[j]
					replaced = true
				}
				if got := m.Put(goOrValue(c.T, k), goOrValue(c.T, v)); !sameOrNil(got, old) {
					c.Fatalf("%s; %s returned %v", log, what, got)
				}
				w.put(k, v)
			case 5, 6, 7:
				k := key()
				what = fmt.Sprintf("Remove(%s)", k.str())
				old := w.remove(k)
				removed = removed || old != nil
				if got := m.Remove(goOrValue(c.T, k)); !sameOrNil(got, old) {
					c.Fatalf("%s; %s returned %v", log, what, got)
				}
			case 8:
				s := drawSubMap(c, uni)
				o := buildMap(s, r)
				s = model(o)
				what = fmt.Sprintf("PutAll(%s)", s.str())
				m.PutAll(o)
				for j := range s.MK {
					w.put(s.MK[j], s.MV[j])
				}
			case 9:
				a := &V{K: kArray}
				for j, l := 0, rapid.IntRange(0, 8).Draw(c.T, "rm"); j < l; j++ {
					a.A = append(a.A, key())
				}
				what = fmt.Sprintf("RemoveAll(%s)", a.str())
				m.RemoveAll(buildArray(a, r))
				for _, k := range a.A {
					removed = w.remove(k) != nil || removed
				}
			case 10:
				k, v := key(), drawScalar(c.T)
				if j := w.get(k); j >= 0 && rapid.Bool().Draw(c.T, "same") {
					v = w.MV[j]
				}
				what = fmt.Sprintf("With(%s, %s)", k.str(), v.str())
				d := m.With(goOrValue(c.T, k), goOrValue(c.T, v))
				dw := cloneMap(w)
				dw.put(k, v)
				checkMap(c, log+"; "+what, d, dw, uni)
				if rapid.Bool().Draw(c.T, "go on") {
					m, w = d, dw
				}
			case 11:
				k := key()
				what = fmt.Sprintf("Without(%s)", k.str())
				d := m.Without(goOrValue(c.T, k))
				dw := cloneMap(w)
				dw.remove(k)
				checkMap(c, log+"; "+what, d, dw, uni)
				if rapid.Bool().Draw(c.T, "go on") {
					m, w = d, dw
				}
			case 12:
				a := &V{K: kArray}
				for j, l := 0, rapid.IntRange(0, 8).Draw(c.T, "rm"); j < l; j++ {
					a.A = append(a.A, key())
				}
				what = fmt.Sprintf("WithoutAll(%s)", a.str())
				d := m.WithoutAll(buildArray(a, r))
				dw := cloneMap(w)
				for _, k := range a.A {
					dw.remove(k)
				}
				checkMap(c, log+"; "+what, d, dw, uni)
				if rapid.Bool().Draw(c.T, "go on") {
					m, w = d, dw
				}
			case 13:
				s := drawSubMap(c, uni)
				o := buildMap(s, r)
				s = model(o)
				what = fmt.Sprintf("Merge(%s)", s.str())
				d := m.Merge(o)
				dw := cloneMap(w)
				for j := range s.MK {
					dw.put(s.MK[j], s.MV[j])
				}
				checkMap(c, log+"; "+what, d, dw, uni)
				if rapid.Bool().Draw(c.T, "go on") && !d.Frozen() {
					m, w = d, dw
				}
			case 14:
				frozen := rapid.Bool().Draw(c.T, "frozen")
				what = fmt.Sprintf("Copy(%v)", frozen)
				d := m.Copy(frozen)
				if d.Frozen() != frozen {
					c.Fatalf("%s; %s: copy has frozen %v", log, what, d.Frozen())
				}
				checkMap(c, log+"; "+what, d, cloneMap(w), uni)
				if d.Frozen() {
					// derive from a frozen map
					k, v := key(), drawScalar(c.T)
					dw := cloneMap(w)
					dw.put(k, v)
					checkMap(c, log+"; frozen With "+k.str(), d.With(build(k, r), build(v, fixedRoute)), dw, uni)
					dw.remove(k)
					checkMap(c, log+"; frozen With and Without "+k.str(), d.With(build(k, r), build(v, fixedRoute)).Without(build(k, r)), dw, uni)
					checkMap(c, log+"; frozen WithoutAll "+k.str(), d.WithoutAll(vf.Values(build(k, r))), dw, uni)
					d = d.Copy(false)
				}
				m = d
			case 15:
				what = "Map"
				d := m.Map(func(e dgo.MapEntry) interface{} {
					return vf.Values(e.Key(), e.Value())
				})
				dw := cloneMap(w)
				for j := range dw.MK {
					dw.MV[j] = vArr(dw.MK[j], dw.MV[j])
				}
				checkMap(c, log+"; "+what, d, dw, uni)
			case 16:
				what = "iterate"
				checkIteration(c, m, w, rapid.IntRange(0, len(w.MK)).Draw(c.T, "stop"))
			case 19:
				what = "with itself"
				checkMap(c, log+"; Merge with itself", m.Merge(m), w, uni)
				checkMap(c, log+"; WithoutAll of its own keys", m.WithoutAll(m.Keys()), vMap(), uni)
				switch rapid.IntRange(0, 3).Draw(c.T, "effect") {
				case 0:
					m.PutAll(m)
				case 1:
					m.PutAll(m.Copy(false))
				case 2:
					if len(w.MK) > 0 {
						// all but one of its own keys
						i := rapid.IntRange(0, len(w.MK)-1).Draw(c.T, "keep")
						ks := m.Keys().Copy(false)
						ks.Remove(i)
						m.RemoveAll(ks)
						w = &V{K: kMap, MK: []*V{w.MK[i]}, MV: []*V{w.MV[i]}}
						removed = true
					}
				}
			case 17:
				what = "rebuild"
				// an equal map built in another order
				o := w.clone()
				shuffleMaps(c.T, o)
				b := buildMap(o, r)
				if !m.Equals(b) || !b.Equals(m) || m.HashCode() != b.HashCode() {
					c.Fatalf("%s; the map %s and a rebuilt map %s differ", log, m, b)
				}
			case 18:
				// two conversions that go through entries
				what = "entries"
				d, ok := vf.Array(m).ToMapFromEntries()
				if !ok {
					c.Fatalf("%s; ToMapFromEntries on the entries failed", log)
				}
				checkMap(c, log+"; ToMapFromEntries", d, w, uni)
				pairs := vf.ArrayWithCapacity(4)
				flat := vf.ArrayWithCapacity(4)
				m.EachEntry(func(e dgo.MapEntry) {
					pairs.Add(vf.Values(e.Key(), e.Value()))
					flat.AddValues(e.Key(), e.Value())
				})
				if d, ok = pairs.ToMapFromEntries(); !ok {
					c.Fatalf("%s; ToMapFromEntries on pairs failed", log)
				}
				checkMap(c, log+"; pairs ToMapFromEntries", d, w, uni)
				d = flat.ToMap()
				checkMap(c, log+"; ToMap", d, w, uni)
				if rapid.Bool().Draw(c.T, "go on") {
					m = d
				}
			}
			log += "; " + what
			checkMap(c, log, m, w, uni)
			if len(w.MK) > big {
				big = len(w.MK)
			}
			c.Class("op %d", op)
		}
		c.Class("biggest %d", int(math.Log2(float64(big+1))))
		if n >= 4 && (removed || replaced) && big >= 2 {
			c.NonTrivial(log)
		}
	})
}

// Maps from go maps are sorted on the keys
func TestP03_GoMap(t *testing.T) {
	prop(t, 8000, "a go map with at least two keys", func(c *C) {
		var m dgo.Map
		want := &V{K: kMap}
		n := 0
		frozen := rapid.Bool().Draw(c.T, "frozen")
		from := func(x interface{}) dgo.Map {
			if frozen {
				return vf.Map(x)
			}
			return vf.MutableMap(x)
		}
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0:
			gm := rapid.MapOfN(genStr(true), rapid.Int(), 0, 20).Draw(c.T, "map")
			n = len(gm)
			ks := []string{}
			for k := range gm {
				ks = append(ks, k)
			}
			for _, k := range sortedCopy(ks) {
				want.put(vStr(k), vInt(int64(gm[k])))
			}
			m = from(gm)
		case 1:
			gm := rapid.MapOfN(rapid.IntRange(-30, 30), genStr(true), 0, 20).Draw(c.T, "map")
			n = len(gm)
			for i := -30; i <= 30; i++ {
				if s, ok := gm[i]; ok {
					want.put(vInt(int64(i)), vStr(s))
				}
			}
			m = from(gm)
		default:
			gm := map[interface{}]interface{}{}
			for i, l := 0, rapid.IntRange(0, 10).Draw(c.T, "n"); i < l; i++ {
				gm[rapid.StringMatching("[a-f]{1,2}").Draw(c.T, "k")] = rapid.IntRange(0, 5).Draw(c.T, "v")
			}
			n = len(gm)
			ks := []string{}
			for k := range gm {
				ks = append(ks, k.(string))
			}
			for _, k := range sortedCopy(ks) {
				want.put(vStr(k), vInt(int64(gm[k].(int))))
			}
			m = from(gm)
		}
		if m.Frozen() != frozen {
			c.Fatalf("map from go map %s has frozen %v", m, m.Frozen())
		}
		checkMap(c, "map from go map", m, want, want.MK)
		if n > 1 {
			c.NonTrivial(want.str())
		}
	})
}
