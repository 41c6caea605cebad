package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

type embedded struct {
	Promoted int
	Shadowed string
}

type Inner struct{ Promoted2 string }

// withHidden has everything that isn't an exported field of its own
type withHidden struct {
	embedded
	Alpha    int
	hidden   string
	Beta     []string
	hidden2  []int
	Shadowed map[string]int
	*strangeInner
	Gamma *string
}

type strangeInner struct{ Deep int }

// structCase is a struct type and what is needed to use its fields
type structCase struct {
	rt    reflect.Type
	names []string
	sorts []goSort
}

var fieldNames = []string{"A", "B", "C", "Name", "Value", "Len", "ÅÄ", "Type", "X1", "X2", "Zeta", "Ypsilon", "Aa", "AA", "M", "N", "O", "P"}

func drawStruct(c *C) (s structCase) {
	if rapid.IntRange(0, 4).Draw(c.T, "fixed") == 0 {
		c.Class("with hidden and embedded fields")
		s.rt = reflect.TypeOf(withHidden{})
		for i := 0; i < s.rt.NumField(); i++ {
			f := s.rt.Field(i)
			if f.PkgPath != "" {
				continue
			}
			s.names = append(s.names, f.Name)
			s.sorts = append(s.sorts, sortOf(f.Type))
		}
		return
	}
	var fs []reflect.StructField
	ns := rapid.Permutation(fieldNames).Draw(c.T, "names")
	n, depth := rapid.IntRange(0, 6).Draw(c.T, "fields"), 3
	if rapid.IntRange(0, 9).Draw(c.T, "many") == 0 {
		n, depth = rapid.IntRange(6, len(ns)).Draw(c.T, "many fields"), 1
	}
	for i := 0; i < n; i++ {
		gs := drawGoSort(c.T, depth)
		fs = append(fs, reflect.StructField{Name: ns[i], Type: gs.rt})
		s.names = append(s.names, ns[i])
		s.sorts = append(s.sorts, gs)
	}
	s.rt = reflect.StructOf(fs)
	return
}

// sortOf returns the generator of the simple field types used in withHidden
func sortOf(rt reflect.Type) goSort {
	str := func(t *rapid.T) string { return genStr(true).Draw(t, "s") }
	switch rt {
	case reflect.TypeOf(0):
		return goScalarSort[0]
	case reflect.TypeOf([]string(nil)):
		return goSort{rt: rt, draw: func(t *rapid.T) (reflect.Value, *V) {
			x, m := []string{}, vArr()
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
				s := str(t)
				x, m.A = append(x, s), append(m.A, vStr(s))
			}
			return reflect.ValueOf(x), m
		}}
	case reflect.TypeOf(map[string]int(nil)):
		return goSort{rt: rt, draw: func(t *rapid.T) (reflect.Value, *V) {
			x, m := map[string]int{}, vMap()
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "n"); i < n; i++ {
				s := str(t)
				x[s] = i
				m.put(vStr(s), vInt(int64(i)))
			}
			return reflect.ValueOf(x), m
		}}
	case reflect.TypeOf((*string)(nil)):
		return goSort{rt: rt, draw: func(t *rapid.T) (reflect.Value, *V) {
			s := str(t)
			return reflect.ValueOf(&s), vStr(s)
		}}
	}
	panic(rt.String())
}

// sortedMaps returns the model with the associations of nested maps in a given order since Go maps have none
func sortedMaps(v *V) *V {
	c := v.clone()
	var walk func(*V)
	walk = func(x *V) {
		for _, y := range x.A {
			walk(y)
		}
		for _, y := range x.MV {
			walk(y)
		}
		if x.K == kMap {
			ix := make([]int, len(x.MK))
			for i := range ix {
				ix[i] = i
			}
			sort.Slice(ix, func(i, j int) bool { return x.MK[ix[i]].str() < x.MK[ix[j]].str() })
			k, vs := x.MK, x.MV
			x.MK, x.MV = nil, nil
			for _, i := range ix {
				x.MK, x.MV = append(x.MK, k[i]), append(x.MV, vs[i])
			}
		}
	}
	for _, e := range append(append([]*V{}, c.A...), c.MV...) {
		walk(e)
	}
	return c
}

// checkStructMap compares every read operation of the map with those of its model
func checkStructMap(c *C, what string, m dgo.Map, w *V, rt reflect.Type) {
	if m.Len() != len(w.MK) {
		c.Fatalf("%s: Len is %d, expected %d: %s", what, m.Len(), len(w.MK), w.str())
	}
	same := func(a, b *V) bool { return sameOrdered(sortedMaps(a), sortedMaps(b)) }
	one := func(a dgo.Value, b *V) bool { return a != nil && refEq(model(a), b) }
	if g := model(m); !same(g, w) {
		c.Fatalf("%s: map is %s, expected %s", what, g.str(), w.str())
	}
	keys := append([]string{"embedded", "Promoted", "Shadowed", "hidden", "hidden2", "strangeInner", "Deep", "nope", "a", ""}, fieldNames...)
	for _, k := range keys {
		i := w.get(vStr(k))
		var kv interface{} = k
		if rapid.Bool().Draw(c.T, "native") {
			kv = vf.String(k)
		}
		got := m.Get(kv)
		if (i < 0) != (got == nil) || i >= 0 && !one(got, w.MV[i]) {
			c.Fatalf("%s: Get(%s) is %v in %s", what, k, got, w.str())
		}
		if m.ContainsKey(kv) != (i >= 0) {
			c.Fatalf("%s: ContainsKey(%s) is %v in %s", what, k, i < 0, w.str())
		}
	}
	for _, k := range []interface{}{1, nil, vf.Values("A"), true} {
		if w.get(model(vf.Value(k))) < 0 && (m.Get(k) != nil || m.ContainsKey(k)) {
			c.Fatalf("%s: has the key %v", what, k)
		}
	}
	ks, vs := m.Keys(), m.Values()
	if !sameOrdered(model(ks), vArr(w.MK...)) || !same(model(vs), vArr(w.MV...)) {
		c.Fatalf("%s: Keys %s or Values %s do not match %s", what, ks, vs, w.str())
	}
	if !m.StringKeys() && w.get(vInt(1)) < 0 {
		c.Fatalf("%s: the keys of %s are not strings", what, w.str())
	}
	plain := build(w, fixedRoute).(dgo.Map)
	if w.has(func(x *V) bool { return x.K == kString && strings.HasPrefix(x.S, "<error ") }) {
		plain = vf.MutableMap() // errors cannot be built from their model
		for _, k := range w.MK {
			kv := build(k, fixedRoute)
			plain.Put(kv, m.Get(kv))
		}
	}
	if !m.Equals(plain) || !plain.Equals(m) || m.HashCode() != plain.HashCode() {
		c.Fatalf("%s: %s is not equal to the map %s (hash codes %d and %d)", what, m, plain, m.HashCode(), plain.HashCode())
	}
	if len(w.MK) > 0 {
		other := plain.Copy(false)
		k := w.MK[rapid.IntRange(0, len(w.MK)-1).Draw(c.T, "otherKey")]
		kv := build(k, fixedRoute)
		other.Put(kv, "something else entirely")
		if m.Equals(other) || other.Equals(m) || m.Equals(plain.Without(kv)) || m.Equals(plain.With("yet another", 1)) {
			c.Fatalf("%s: %s is equal to a map with a different %s", what, m, kv)
		}
	}
	if !m.Type().Instance(m) || !m.Type().Instance(plain) {
		c.Fatalf("%s: the type %s of the map has not the map as an instance", what, m.Type())
	}
	if m.String() == "" {
		c.Fatalf("%s: no text", what)
	}
}

func TestP17_History(t *testing.T) {
	prop(t, 12000, "a random struct type and a history of operations on the map it backs; non-trivial when at least 2 fields and 4 operations", func(c *C) {
		sc := drawStruct(c)
		p := reflect.New(sc.rt)
		if sc.rt == reflect.TypeOf(withHidden{}) {
			h := p.Interface().(*withHidden)
			h.Promoted, h.embedded.Shadowed, h.hidden, h.hidden2 = 1, "inner", "secret", []int{1}
			if rapid.Bool().Draw(c.T, "inner") {
				h.strangeInner = &strangeInner{3}
			}
		}
		w := vMap()
		vals := map[string]reflect.Value{}
		for i, n := range sc.names {
			x, m := sc.sorts[i].draw(c.T)
			p.Elem().FieldByName(n).Set(x)
			w.put(vStr(n), m)
			vals[n] = x
		}
		byValue := rapid.IntRange(0, 3).Draw(c.T, "byValue") == 0
		mk := vf.Map
		if rapid.Bool().Draw(c.T, "mutable") {
			mk = vf.MutableMap
		}
		var m dgo.Map
		desc := fmt.Sprintf("%s with %s", sc.rt, w.str())
		if byValue {
			m = mk(p.Elem().Interface())
		} else {
			m = mk(p.Interface())
		}
		if m.Frozen() {
			c.Fatalf("the map over %s is frozen", desc)
		}
		type snap struct {
			what string
			m    dgo.Map
			w    *V
		}
		var snaps []snap
		hist := ""
		linked := !byValue
		n := rapid.IntRange(0, 8).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			var fi int
			name := "nope"
			if len(sc.names) > 0 {
				fi = rapid.IntRange(0, len(sc.names)-1).Draw(c.T, "field")
				name = sc.names[fi]
			}
			op := rapid.SampledFrom([]string{"put", "put", "put", "putAll", "go", "bad", "freeze", "copyTrue", "copyFalse", "frozenCopy", "thawedCopy",
				"with", "without", "withoutAll", "merge", "map", "goStruct", "reflect", "iterate", "iterate"}).Draw(c.T, "op")
			hist += " " + op + "(" + name + ")"
			var d dgo.Map
			dw := cloneMap(w)
			thawed := false
			switch op {
			case "put":
				if name == "nope" {
					continue
				}
				x, xm := sc.sorts[fi].draw(c.T)
				var old dgo.Value
				was := w.MV[w.get(vStr(name))]
				var key interface{} = name
				if rapid.Bool().Draw(c.T, "strKey") {
					key = vf.String(name)
				}
				var val interface{} = x.Interface()
				if rapid.Bool().Draw(c.T, "dgo") {
					val = vf.Value(val)
				}
				pn := catch(func() { old = m.Put(key, val) })
				if m.Frozen() {
					if pn == nil {
						c.Fatalf("%s: Put on the frozen map is accepted (%s)", desc, hist)
					}
					continue
				}
				if pn != nil {
					c.Fatalf("%s: Put of %s fails (%s): %s\n%s", desc, xm.str(), hist, pn, pn.stack)
				}
				if old == nil || !refEq(model(old), was) {
					c.Fatalf("%s: Put returned %v, expected %s (%s)", desc, old, was.str(), hist)
				}
				w.put(vStr(name), xm)
				vals[name] = x
				if linked {
					if bad := sameGo(x, p.Elem().FieldByName(name)); bad != "" {
						c.Fatalf("%s: Put didn't write to the struct: %s (%s)", desc, bad, hist)
					}
				}
			case "putAll":
				o := vf.MutableMap()
				nw := cloneMap(w)
				for j, nm := range sc.names {
					if rapid.Bool().Draw(c.T, "incl") {
						x, xm := sc.sorts[j].draw(c.T)
						o.Put(nm, x.Interface())
						nw.put(vStr(nm), xm)
					}
				}
				pn := catch(func() { m.PutAll(o) })
				if m.Frozen() {
					if pn == nil && o.Len() > 0 {
						c.Fatalf("%s: PutAll on the frozen map is accepted (%s)", desc, hist)
					}
					continue
				}
				if pn != nil {
					c.Fatalf("%s: PutAll of %s fails (%s): %s", desc, o, hist, pn)
				}
				w = nw
			case "go":
				// the struct changes, and so does the map unless it has a copy
				if name == "nope" || byValue {
					continue
				}
				x, xm := sc.sorts[fi].draw(c.T)
				if f := p.Elem().FieldByName(name); linked {
					f.Set(x)
					w.put(vStr(name), xm)
				} else {
					scramble(f)
					f.Set(x)
				}
			case "bad":
				if len(sc.names) > 0 && rapid.Bool().Draw(c.T, "wrongType") {
					pn := catch(func() { m.Put(name, vf.Values("a", vf.Map("a", vf.Values(vf.Time(timePool[0]))))) })
					if pn == nil {
						if vals[name].Type() != anyType && vals[name].Type() != valueType && vals[name].Type() != reflect.TypeOf([]interface{}(nil)) && vals[name].Type() != reflect.TypeOf([]dgo.Value(nil)) &&
							vals[name].Type() != reflect.PtrTo(reflect.TypeOf([]interface{}(nil))) && vals[name].Type() != reflect.PtrTo(reflect.TypeOf([]dgo.Value(nil))) {
							c.Fatalf("%s: an array is assigned to a field of type %s (%s)", desc, vals[name].Type(), hist)
						}
						w.put(vStr(name), model(m.Get(name)))
					}
				} else {
					for _, k := range []interface{}{"nope", "hidden", "Promoted", "embedded", "Deep", 1, vf.Nil, ""} {
						if catch(func() { m.Put(k, 1) }) == nil {
							c.Fatalf("%s: Put of unknown key %v is accepted (%s)", desc, k, hist)
						}
						if catch(func() { m.PutAll(vf.Map(k, 1)) }) == nil {
							c.Fatalf("%s: PutAll of unknown key %v is accepted (%s)", desc, k, hist)
						}
					}
					if catch(func() { m.Remove(name) }) == nil || catch(func() { m.RemoveAll(vf.Values(name)) }) == nil {
						c.Fatalf("%s: removal is accepted (%s)", desc, hist)
					}
				}
			case "freeze":
				m.Freeze()
				linked = false
				if !m.Frozen() {
					c.Fatalf("%s: Freeze doesn't freeze (%s)", desc, hist)
				}
			case "copyTrue":
				d = m.Copy(true)
			case "copyFalse":
				d, thawed = m.Copy(false), true
			case "frozenCopy":
				d = m.FrozenCopy().(dgo.Map)
			case "thawedCopy":
				d, thawed = m.ThawedCopy().(dgo.Map), true
			case "with":
				xm := drawScalar(c.T)
				k := rapid.SampledFrom([]string{name, "nope", "Promoted"}).Draw(c.T, "key")
				d = m.With(k, build(xm, drawRouter(c.T)))
				dw.put(vStr(k), xm)
			case "without":
				k := rapid.SampledFrom([]string{name, "nope", "Promoted"}).Draw(c.T, "key")
				d = m.Without(k)
				dw.remove(vStr(k))
			case "withoutAll":
				d = m.WithoutAll(vf.Values(name, "nope"))
				dw.remove(vStr(name))
			case "merge":
				xm := drawSubMap(c, []*V{vStr(name), vStr("nope"), vInt(1)})
				d = m.Merge(buildMap(xm, fixedRoute))
				for j, k := range xm.MK {
					dw.put(k, xm.MV[j])
				}
			case "map":
				d = m.Map(func(e dgo.MapEntry) interface{} { return []interface{}{e.Key(), e.Value()} })
				for j := range dw.MK {
					dw.MV[j] = vArr(dw.MK[j], dw.MV[j])
				}
			case "goStruct":
				g := reflect.ValueOf(m.(dgo.Struct).GoStruct())
				if linked && g.Pointer() != p.Pointer() {
					c.Fatalf("%s: GoStruct is not the struct (%s)", desc, hist)
				}
				for _, nm := range sc.names {
					if bad := refEq(model(vf.ValueFromReflected(g.Elem().FieldByName(nm))), w.MV[w.get(vStr(nm))]); !bad {
						c.Fatalf("%s: the field %s of GoStruct is wrong (%s)", desc, nm, hist)
					}
				}
				if m.Frozen() {
					scramble(fieldsOf(g.Elem()))
				}
			case "reflect":
				x := reflect.New(sc.rt)
				m.ReflectTo(x.Elem())
				y := reflect.New(reflect.PtrTo(sc.rt))
				m.ReflectTo(y.Elem())
				for _, nm := range sc.names {
					want := w.MV[w.get(vStr(nm))]
					if !refEq(model(vf.ValueFromReflected(x.Elem().FieldByName(nm))), want) || !refEq(model(vf.ValueFromReflected(y.Elem().Elem().FieldByName(nm))), want) {
						c.Fatalf("%s: the field %s is wrong in what it is converted to (%s)", desc, nm, hist)
					}
				}
				if m.Frozen() {
					scramble(fieldsOf(x.Elem()))
					scramble(fieldsOf(y.Elem().Elem()))
				}
			case "iterate":
				if !sameOrdered(model(m), w) {
					break // a nested Go map has no order
				}
				checkIteration(c, m, model(m), rapid.IntRange(0, len(w.MK)).Draw(c.T, "stop"))
			}
			if d != nil {
				what := fmt.Sprintf("%s of %s (%s)", op, desc, hist)
				if d.Frozen() != ((m.Frozen() || op == "copyTrue" || op == "frozenCopy") && !thawed) {
					c.Fatalf("%s: Frozen is %v", what, d.Frozen())
				}
				if d.Frozen() {
					d.EachValue(func(v dgo.Value) {
						if f, ok := v.(dgo.Freezable); ok && !f.Frozen() {
							c.Fatalf("%s: the frozen map contains %s that isn't frozen", what, v)
						}
					})
				}
				checkStructMap(c, what, d, dw, sc.rt)
				if d != m {
					if thawed && len(sc.names) > 0 && rapid.Bool().Draw(c.T, "putInCopy") {
						x, xm := sc.sorts[fi].draw(c.T)
						d.Put(name, x.Interface())
						dw.put(vStr(name), xm)
						if rapid.Bool().Draw(c.T, "scrambleCopy") {
							// what the copy is backed by has nothing in common with the original
							if s, ok := d.(dgo.Struct); ok {
								scramble(fieldsOf(reflect.ValueOf(s.GoStruct()).Elem()))
								d = nil
							}
						}
					}
					if d != nil {
						snaps = append(snaps, snap{what, d, dw})
					}
				}
			}
			checkStructMap(c, desc+hist, m, w, sc.rt)
		}
		scramble(fieldsOf(p.Elem()))
		if m.Frozen() { // a copy of the struct that Go makes shares maps and slices
			checkStructMap(c, desc+hist+" after the struct was changed", m, w, sc.rt)
		}
		for _, s := range snaps {
			checkStructMap(c, s.what+" after changes", s.m, s.w, sc.rt)
		}
		if len(sc.names) >= 2 && n >= 4 {
			c.NonTrivial(desc + hist)
		}
	})
}

// fieldsOf returns a slice of pointers to the exported fields so that they can be scrambled
func fieldsOf(s reflect.Value) reflect.Value {
	var ps []interface{}
	for i := 0; i < s.NumField(); i++ {
		if s.Type().Field(i).PkgPath == "" && s.Field(i).CanAddr() {
			f := s.Field(i)
			if f.Type() == timeRType {
				f.Set(reflect.ValueOf(time.Time{}))
				continue
			}
			scramble(f)
			f.Set(reflect.Zero(f.Type()))
		}
	}
	return reflect.ValueOf(ps)
}
