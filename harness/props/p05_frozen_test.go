package props

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// children returns what a value contains
func children(v dgo.Value) []dgo.Value {
	var r []dgo.Value
	switch v := v.(type) {
	case dgo.Array:
		for i, n := 0, v.Len(); i < n; i++ {
			r = append(r, v.Get(i))
		}
	case dgo.Map:
		v.EachEntry(func(e dgo.MapEntry) { r = append(r, e.Key(), e.Value()) })
	case dgo.Sensitive:
		r = append(r, v.Unwrap())
	}
	return r
}

func reaches(from, to dgo.Value) bool {
	if from == to {
		return true
	}
	for _, c := range children(from) {
		if reaches(c, to) {
			return true
		}
	}
	return false
}

// notFrozen finds something reachable that isn't frozen
func notFrozen(v dgo.Value) dgo.Value {
	if f, ok := v.(dgo.Freezable); ok && !f.Frozen() {
		return v
	}
	for _, c := range children(v) {
		if x := notFrozen(c); x != nil {
			return x
		}
	}
	return nil
}

func isMutable(v dgo.Value) bool {
	f, ok := v.(dgo.Freezable)
	return ok && !f.Frozen()
}

type frozenRun struct {
	*C
	pool    []dgo.Value
	snaps   map[dgo.Value]*V
	sources []func(x dgo.Value) // modifications of go data that values were created from or that values exposed
	log     string
	frozen  int
	tried   int
}

func (f *frozenRun) pick() dgo.Value {
	return f.pool[rapid.IntRange(0, len(f.pool)-1).Draw(f.T, "v")]
}

func (f *frozenRun) scalar() dgo.Value {
	return build(drawV(f.T, vOpts{kinds: []K{kInt, kString, kNil}, depth: 1}), fixedRoute)
}

// arg is a scalar or a pool value of limited size
func (f *frozenRun) arg() dgo.Value {
	if rapid.IntRange(0, 2).Draw(f.T, "arg") == 0 {
		return f.scalar()
	}
	v := f.pick()
	if model(v).nodes() > 40 {
		return f.scalar()
	}
	return v
}

// argFor is an argument that can be stored in the container c without a cycle
func (f *frozenRun) argFor(c dgo.Value) dgo.Value {
	if v := f.arg(); !reaches(v, c) && model(c).nodes() < 80 {
		return v
	}
	return f.scalar()
}

func (f *frozenRun) add(v dgo.Value) {
	if v == nil || model(v).nodes() > 120 {
		return
	}
	f.note(v)
	if len(f.pool) < 14 {
		f.pool = append(f.pool, v)
	} else {
		f.pool[rapid.IntRange(0, len(f.pool)-1).Draw(f.T, "replace")] = v
	}
}

// note takes a snapshot of everything frozen that is seen for the first time
func (f *frozenRun) note(v dgo.Value) {
	switch v.(type) {
	case dgo.Array, dgo.Map, dgo.Binary, dgo.Sensitive:
		if !isMutable(v) {
			if _, ok := f.snaps[v]; !ok {
				f.snaps[v] = model(v)
				f.frozen++
				if x := notFrozen(v); x != nil {
					f.Fatalf("%s: the frozen %s contains %s which is not frozen", f.log, v, x)
				}
			}
		}
	}
	for _, c := range children(v) {
		f.note(c)
	}
}

func (f *frozenRun) verify() {
	for v, s := range f.snaps {
		if g := model(v); !sameOrdered(g, s) {
			f.Fatalf("%s: a frozen value changed from %s to %s", f.log, s.str(), g.str())
		}
		if x := notFrozen(v); x != nil {
			f.Fatalf("%s: the frozen %s contains %s which is not frozen", f.log, v, x)
		}
	}
	for _, v := range f.pool {
		f.note(v)
	}
}

// mutate runs a mutator. It must panic when the value is frozen
func (f *frozenRun) mutate(v dgo.Value, name string, m func()) {
	frozen := !isMutable(v)
	p := catch(m)
	if frozen {
		f.tried++
		if p == nil {
			f.Fatalf("%s: %s on the frozen %s did not panic", f.log, name, v)
		}
		if p.runtimeErr() {
			f.Fatalf("%s: %s on the frozen %s failed with %s", f.log, name, v, p)
		}
	} else if p != nil {
		f.Fatalf("%s: %s on %s: %s\n%s", f.log, name, v, p, p.stack)
	}
}

func (f *frozenRun) step() {
	op := rapid.IntRange(0, 15).Draw(f.T, "op")
	switch op {
	case 0: // freeze
		v := f.pick()
		f.log += fmt.Sprintf("; Freeze %s", v)
		if fz, ok := v.(dgo.Freezable); ok {
			before := model(v)
			fz.Freeze()
			if !fz.Frozen() || !sameOrdered(model(v), before) {
				f.Fatalf("%s: freezing %s gives frozen %v %s", f.log, before.str(), fz.Frozen(), v)
			}
		}
	case 1: // copies
		v := f.pick()
		if fz, ok := v.(dgo.Freezable); ok {
			k := rapid.IntRange(0, 2).Draw(f.T, "copy")
			f.log += fmt.Sprintf("; copy %d of %s", k, v)
			switch k {
			case 0:
				c := fz.FrozenCopy()
				if x := notFrozen(c); x != nil || fz.Frozen() && c != v {
					f.Fatalf("%s: FrozenCopy of %s contains unfrozen %v or is an unnecessary copy", f.log, v, x)
				}
				f.add(c)
			case 1:
				c := fz.ThawedCopy()
				switch v.(type) {
				case dgo.Array, dgo.Map, dgo.Binary:
					if !isMutable(c) || c == v {
						f.Fatalf("%s: ThawedCopy of %s is frozen", f.log, v)
					}
				}
				f.add(c)
			default:
				frozen := rapid.Bool().Draw(f.T, "frozen")
				switch v := v.(type) {
				case dgo.Array:
					f.add(v.Copy(frozen))
				case dgo.Map:
					f.add(v.Copy(frozen))
				case dgo.Binary:
					f.add(v.Copy(frozen))
				}
			}
		}
	case 2: // child
		v := f.pick()
		if cs := children(v); len(cs) > 0 {
			i := rapid.IntRange(0, len(cs)-1).Draw(f.T, "child")
			f.log += fmt.Sprintf("; child %d of %s", i, v)
			f.add(cs[i])
		}
	case 3: // new collections from parts
		n := rapid.IntRange(0, 4).Draw(f.T, "n")
		xs := make([]interface{}, n)
		vs := make([]dgo.Value, n)
		for i := range xs {
			vs[i] = f.arg()
			xs[i] = vs[i]
		}
		k := rapid.IntRange(0, 9).Draw(f.T, "how")
		f.log += fmt.Sprintf("; new %d of %v", k, vs)
		ruinX := func(x dgo.Value) {
			for i := range xs {
				xs[i] = x
			}
		}
		ruinV := func(x dgo.Value) {
			for i := range vs {
				vs[i] = x
			}
		}
		switch k {
		case 0:
			f.add(vf.Values(xs...))
			f.sources = append(f.sources, ruinX)
		case 1:
			f.add(vf.MutableValues(xs...))
			f.sources = append(f.sources, ruinX)
		case 2:
			f.add(vf.WrapSlice(vs)) // wraps while mutable
			ws := vs
			w := f.pool[len(f.pool)-1]
			f.sources = append(f.sources, func(x dgo.Value) {
				for i := range ws {
					if !reaches(x, w) && !isMutable(x) {
						ws[i] = x
					}
				}
			})
		case 3:
			f.add(vf.Value(xs))
			f.sources = append(f.sources, ruinX)
		case 4:
			f.add(vf.Array(vs))
			f.sources = append(f.sources, ruinV)
		case 5:
			gm := map[string]interface{}{}
			for i := range xs {
				gm[fmt.Sprint("k", i)] = xs[i]
			}
			switch rapid.IntRange(0, 2).Draw(f.T, "go map") {
			case 0:
				f.add(vf.Value(gm))
			case 1:
				f.add(vf.Map(gm))
			default:
				f.add(vf.MutableMap(gm))
			}
			f.sources = append(f.sources, func(x dgo.Value) {
				for k := range gm {
					gm[k] = x
				}
				gm["new"] = x
			})
		case 6, 7:
			if n%2 == 1 {
				xs = append(xs, 1)
			}
			if len(xs) == 0 {
				xs = []interface{}{"a", 1}
			}
			if k == 6 {
				f.add(vf.Map(xs...))
			} else {
				f.add(vf.MutableMap(xs...))
			}
			f.sources = append(f.sources, ruinX)
		case 8:
			f.add(vf.Sensitive(f.arg()))
		case 9:
			bs := append([]byte{}, rapid.SampledFrom(binPool).Draw(f.T, "bytes")...)
			if rapid.Bool().Draw(f.T, "frozen") {
				f.add(vf.Binary(bs, true))
			} else if rapid.Bool().Draw(f.T, "value") {
				f.add(vf.Value(bs))
			} else {
				f.add(vf.Binary(bs, false))
			}
			f.sources = append(f.sources, func(dgo.Value) {
				for i := range bs {
					bs[i]++
				}
			})
		}
	case 4: // change go data that values were created from
		if len(f.sources) > 0 {
			i := rapid.IntRange(0, len(f.sources)-1).Draw(f.T, "source")
			f.log += fmt.Sprintf("; change source %d", i)
			f.sources[i](f.scalar())
		}
	case 5: // expose and change
		v := f.pick()
		f.log += fmt.Sprintf("; expose %s", v)
		x := f.scalar()
		switch v := v.(type) {
		case dgo.Array:
			s := v.GoSlice()
			is := v.InterfaceSlice()
			as := v.AppendToSlice(nil)
			for i := range is {
				is[i], as[i] = x, x
			}
			var rs []dgo.Value
			vf.FromValue(v, &rs)
			var ri []interface{}
			ok := true
			for _, c := range children(v) {
				ok = ok && c != nil
			}
			f.sources = append(f.sources, func(x dgo.Value) {
				for i := range s {
					s[i] = x
				}
				for i := range rs {
					rs[i] = x
				}
			})
			_ = ri
			if !isMutable(v) {
				f.sources[len(f.sources)-1](x)
			}
		case dgo.Binary:
			b := v.GoBytes()
			var rb []byte
			vf.FromValue(v, &rb)
			for i := range b {
				b[i]++
				rb[i] += 3
			}
			f.sources = append(f.sources, func(dgo.Value) {
				for i := range b {
					b[i]++
					rb[i] += 3
				}
			})
		case dgo.Map:
			f.add(v.Keys())
			f.add(v.Values())
		}
	case 6, 7, 8: // mutators of arrays
		if a, ok := f.pick().(dgo.Array); ok {
			k := rapid.IntRange(0, 7).Draw(f.T, "mutator")
			x := f.argFor(a)
			f.log += fmt.Sprintf("; array mutator %d on %s with %s", k, a, x)
			switch k {
			case 0:
				f.mutate(a, "Add", func() { a.Add(x) })
			case 1:
				f.mutate(a, "AddAll", func() { a.AddAll(vf.Values(x)) })
			case 2:
				f.mutate(a, "AddValues", func() { a.AddValues(x, 1) })
			case 3:
				f.mutate(a, "Insert", func() { a.Insert(a.Len()/2, x) })
			case 4:
				f.mutate(a, "Pop", func() { a.Pop() })
			case 5:
				f.mutate(a, "Remove", func() { a.Remove(0) })
			case 6:
				f.mutate(a, "RemoveValue", func() { a.RemoveValue(x) })
			case 7:
				if a.Len() > 0 {
					f.mutate(a, "Set", func() { a.Set(a.Len()-1, x) })
				}
			}
		}
	case 9, 10, 11: // mutators of maps
		if m, ok := f.pick().(dgo.Map); ok {
			k := rapid.IntRange(0, 4).Draw(f.T, "mutator")
			x := f.argFor(m)
			var key dgo.Value = vf.String(rapid.SampledFrom([]string{"a", "b", "k0"}).Draw(f.T, "key"))
			if ks := m.Keys(); ks.Len() > 0 && rapid.Bool().Draw(f.T, "existing") {
				key = ks.Get(0)
			} else if rapid.IntRange(0, 3).Draw(f.T, "composite key") == 0 {
				key = f.argFor(m)
			}
			f.log += fmt.Sprintf("; map mutator %d on %s with %s: %s", k, m, key, x)
			switch k {
			case 0, 1:
				f.mutate(m, "Put", func() { m.Put(key, x) })
			case 2:
				f.mutate(m, "PutAll", func() { m.PutAll(vf.MutableMap(key, x)) })
			case 3:
				f.mutate(m, "Remove", func() { m.Remove(key) })
			case 4:
				f.mutate(m, "RemoveAll", func() { m.RemoveAll(vf.MutableValues(key)) })
			}
		}
	case 12, 13: // derived arrays
		if a, ok := f.pick().(dgo.Array); ok {
			k := rapid.IntRange(0, 12).Draw(f.T, "derive")
			x := f.arg()
			f.log += fmt.Sprintf("; derive %d from %s with %s", k, a, x)
			var d dgo.Value
			switch k {
			case 0:
				d = a.With(x)
			case 1:
				d = a.WithValues(x, f.arg())
			case 2:
				d = a.WithAll(vf.MutableValues(x, f.arg()))
			case 3:
				i := rapid.IntRange(0, a.Len()).Draw(f.T, "i")
				d = a.Slice(i, rapid.IntRange(i, a.Len()).Draw(f.T, "j"))
			case 4:
				d = a.Flatten()
			case 5:
				d = a.Unique()
			case 6:
				d = a.Select(func(v dgo.Value) bool { return v != vf.Nil })
			case 7:
				d = a.Reject(func(v dgo.Value) bool { return v == vf.Nil })
			case 8:
				d = a.Map(func(v dgo.Value) interface{} { return x })
			case 9:
				d = a.ToMap()
			case 10:
				ok := true
				for _, e := range children(a) {
					ea, isA := e.(dgo.Array)
					ok = ok && isA && ea.Len() == 2
				}
				if ok {
					d, _ = a.ToMapFromEntries()
				}
			case 11:
				d = vf.Array(a)
				if x := notFrozen(d); x != nil {
					f.Fatalf("%s: vf.Array has unfrozen %s", f.log, x)
				}
			case 12:
				d = vf.New(typ.Array, a)
			}
			if d != nil {
				if k != 11 && k != 12 && d.(dgo.Freezable).Frozen() != a.Frozen() {
					f.Fatalf("%s: the derived array does not inherit frozen %v", f.log, a.Frozen())
				}
				f.add(d)
			}
		}
	case 14: // derived maps
		if m, ok := f.pick().(dgo.Map); ok {
			k := rapid.IntRange(0, 6).Draw(f.T, "derive")
			x := f.arg()
			var key dgo.Value = vf.String(rapid.SampledFrom([]string{"a", "b", "k0"}).Draw(f.T, "key"))
			if ks := m.Keys(); ks.Len() > 0 && rapid.Bool().Draw(f.T, "existing") {
				key = ks.Get(0)
			}
			f.log += fmt.Sprintf("; derive %d from %s with %s: %s", k, m, key, x)
			switch k {
			case 0:
				f.add(m.With(key, x))
			case 1:
				f.add(m.Without(key))
			case 2:
				f.add(m.WithoutAll(vf.Values(key)))
			case 3:
				o, ok := f.pick().(dgo.Map)
				if ok {
					f.add(m.Merge(o))
				} else {
					f.add(m.Merge(vf.MutableMap(key, x)))
				}
			case 4:
				f.add(m.Map(func(dgo.MapEntry) interface{} { return x }))
			case 5:
				f.add(m.Values())
			case 6:
				f.add(vf.New(typ.Map, m))
			}
		}
	case 15: // the value of the exact type, and an entry
		v := f.pick()
		f.log += fmt.Sprintf("; entries of %s", v)
		if m, ok := v.(dgo.Map); ok {
			m.EachEntry(func(e dgo.MapEntry) {
				th := e.ThawedCopy().(dgo.MapEntry)
				if a, ok := th.Value().(dgo.Array); ok {
					a.Add("changed")
				}
				if m.Frozen() {
					fc := e.FrozenCopy().(dgo.MapEntry)
					if x := notFrozen(fc.Value()); x != nil {
						f.Fatalf("%s: entry copy %s is not frozen", f.log, fc)
					}
				}
			})
		}
		if et, ok := v.Type().(dgo.ExactType); ok {
			f.add(et.ExactValue())
		}
	}
}

func TestP05_History(t *testing.T) {
	prop(t, 12000, "at least two frozen collections existed and at least one mutator was attempted on a frozen value", func(c *C) {
		f := &frozenRun{C: c, snaps: map[dgo.Value]*V{}}
		for i := 0; i < 3; i++ {
			f.add(build(drawV(c.T, vOpts{kinds: []K{kInt, kString, kArray, kArray, kMap, kMap, kBinary, kSensitive}, keys: []K{kString, kString, kArray}, depth: 3, width: 3}), drawRouter(c.T)))
		}
		for _, v := range f.pool {
			f.log += fmt.Sprintf(" %s", v)
		}
		n := rapid.IntRange(1, 40).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			f.step()
			f.verify()
		}
		c.Class("frozen %d", min(f.frozen, 10))
		c.Class("rejected mutations %d", min(f.tried, 10))
		if f.frozen >= 2 && f.tried > 0 {
			c.NonTrivial(f.log)
		}
	})
}

// An array created from a map is frozen
func TestP05_ArrayFromMap(t *testing.T) {
	prop(t, 3000, "a map with at least one association", func(c *C) {
		w := drawK(c.T, kMap, vOpts{kinds: []K{kInt, kString, kArray}, keys: []K{kString, kInt}, depth: 3, width: 4})
		m := buildMap(w, drawRouter(c.T)).Copy(false)
		a := vf.Array(m)
		read := func() string {
			s := ""
			a.Each(func(v dgo.Value) {
				e := v.(dgo.MapEntry)
				s += model(e.Key()).str() + ":" + model(e.Value()).str() + ","
			})
			return s
		}
		before := read()
		m.EachEntry(func(e dgo.MapEntry) {
			m.Put(e.Key(), "changed")
		})
		m.Put("new", 1)
		if after := read(); after != before {
			c.Fatalf("the frozen array created from %s changed from %s to %s", w.str(), before, after)
		}
		if len(w.MK) > 0 {
			c.NonTrivial(w.str())
		}
	})
}

func TestP05_Known(t *testing.T) {
	known(t, "live-entry", func() string {
		m := vf.MutableMap("a", 1)
		var a dgo.Array
		m.EachEntry(func(e dgo.MapEntry) { a = vf.Values(e) })
		s := a.String()
		m.Put("a", 2)
		if a.String() != s {
			return "the entry of a mutable map claims to be frozen, so a frozen array that contains it changes with the map"
		}
		return ""
	})
}

// goSource is a Go slice or map that holds dgo values, some of which are mutable
func goSource(t *rapid.T, depth int) (interface{}, []dgo.Value) {
	var held []dgo.Value
	value := func() dgo.Value {
		v := build(drawV(t, vOpts{kinds: []K{kInt, kString, kArray, kMap, kBinary, kNil, kSensitive}, keys: []K{kString, kInt}, depth: 2, width: 3}), drawRouter(t))
		held = append(held, v)
		return v
	}
	n := rapid.IntRange(0, 3).Draw(t, "n")
	spare := rapid.IntRange(0, 2).Draw(t, "spare")
	switch rapid.IntRange(0, 9).Draw(t, "source") {
	case 0, 1:
		s := make([]dgo.Value, n, n+spare)
		for i := range s {
			s[i] = value()
		}
		return s, held
	case 2:
		s := make([]interface{}, n, n+spare)
		for i := range s {
			s[i] = value()
			if depth > 1 && rapid.Bool().Draw(t, "nested") {
				var h []dgo.Value
				s[i], h = goSource(t, depth-1)
				held = append(held, h...)
			}
		}
		return s, held
	case 3:
		s := make([][]dgo.Value, n, n+spare)
		for i := range s {
			s[i] = []dgo.Value{value(), value()}
		}
		return s, held
	case 4:
		s := make([]dgo.Array, n, n+spare)
		for i := range s {
			s[i] = vf.MutableValues(value())
			held = append(held, s[i])
		}
		return s, held
	case 5:
		s := map[string]dgo.Value{}
		for i := 0; i < n; i++ {
			s[fmt.Sprint("k", i)] = value()
		}
		return s, held
	case 6:
		s := map[string]interface{}{}
		for i := 0; i < n; i++ {
			k := fmt.Sprint("k", i)
			s[k] = value()
			if depth > 1 && rapid.Bool().Draw(t, "nested") {
				var h []dgo.Value
				s[k], h = goSource(t, depth-1)
				held = append(held, h...)
			}
		}
		return s, held
	case 7:
		s := map[int]dgo.Map{}
		for i := 0; i < n; i++ {
			s[i] = vf.MutableMap("a", value())
			held = append(held, s[i])
		}
		return s, held
	case 8:
		s := map[string][]byte{}
		for i := 0; i < n; i++ {
			s[fmt.Sprint("k", i)] = append([]byte{}, rapid.SampledFrom(binPool).Draw(t, "bytes")...)
		}
		return s, held
	}
	s := make([]map[string]dgo.Value, n, n+spare)
	for i := range s {
		s[i] = map[string]dgo.Value{"x": value()}
	}
	return s, held
}

// upset changes everything mutable that is reachable from the value
func upset(v dgo.Value) {
	for _, c := range children(v) {
		upset(c)
	}
	if !isMutable(v) {
		return
	}
	switch v := v.(type) {
	case dgo.Array:
		if v.Len() > 0 {
			v.Set(0, "upset")
		}
		v.Add("upset")
	case dgo.Map:
		if ks := v.Keys(); ks.Len() > 0 {
			v.Put(ks.Get(0), "upset")
		}
		v.Put("upset", true)
	case dgo.Binary:
		b := v.GoBytes() // a copy
		for i := range b {
			b[i]++
		}
		vf.ReflectTo(v, reflect.ValueOf(&b).Elem())
		for i := range b {
			b[i]++
		}
	}
}

// TestP05_Entries checks frozen arrays that are created from the entries of a map
func TestP05_Entries(t *testing.T) {
	prop(t, 3000, "a map and how an array of its entries is made; non-trivial when the map is mutable and has entries", func(c *C) {
		mv := drawK(c.T, kMap, vOpts{kinds: []K{kInt, kString, kArray, kMap, kBinary}, keys: []K{kString, kInt, kArray}, depth: 3, width: 4})
		m := build(mv, drawRouter(c.T)).(dgo.Map)
		mutable := isMutable(m)
		var a dgo.Array
		how := rapid.SampledFrom([]string{"WithAll", "Array", "New", "WithAll of nothing"}).Draw(c.T, "how")
		skip := 0
		switch how {
		case "WithAll":
			a = vf.Values("first").WithAll(m)
			skip = 1
		case "WithAll of nothing":
			a = vf.Values().WithAll(m)
		case "New":
			a = vf.New(typ.Array, m).(dgo.Array)
		default:
			a = vf.Array(m)
		}
		what := fmt.Sprintf("%s of %s", how, mv.str())
		check := func() {
			if !a.Frozen() || a.Len() != len(mv.MK)+skip {
				c.Fatalf("%s: frozen %v, size %d", what, a.Frozen(), a.Len())
			}
			i := 0
			model(m) // only for its effects
			a.EachWithIndex(func(x dgo.Value, n int) {
				if n < skip {
					return
				}
				e, ok := x.(dgo.MapEntry)
				if !ok {
					c.Fatalf("%s: element %d is %s", what, n, x)
				}
				j := mv.get(model(e.Key()))
				if j < 0 || !refEq(model(e.Value()), mv.MV[j]) {
					c.Fatalf("%s: element %d is %s", what, n, e)
				}
				if y := notFrozen(e.Value()); y != nil || notFrozen(e.Key()) != nil {
					c.Fatalf("%s: element %d contains %s which is not frozen", what, n, y)
				}
				i++
			})
		}
		check()
		upset(m)
		if !m.Frozen() {
			m.EachKey(func(k dgo.Value) { m.Put(k, "changed") })
		}
		check()
		if mutable && m.Len() > 0 {
			c.NonTrivial(what)
		}
	})
}

// TestP05_Source checks that an immutable value which is created from Go data is frozen throughout, and that no change to that data, or
// to the mutable dgo values that it held, reaches the value
func TestP05_Source(t *testing.T) {
	prop(t, 8000, "Go slices and maps that hold dgo values, and how they are converted; non-trivial when some held value is mutable", func(c *C) {
		src, held := goSource(c.T, 3)
		how := rapid.SampledFrom([]string{"Value", "Value of reflect.Value", "ValueFromReflected", "Array", "Array of reflect.Value", "Values", "With", "Map", "FromReflectedMap",
			"Map of pairs", "frozen MutableValues"}).Draw(c.T, "how")
		rv := reflect.ValueOf(src)
		var v dgo.Value
		switch how {
		case "Value":
			v = vf.Value(src)
		case "Value of reflect.Value":
			v = vf.Value(rv)
		case "ValueFromReflected":
			v = vf.ValueFromReflected(rv)
		case "Array":
			if rv.Kind() != reflect.Slice {
				return
			}
			v = vf.Array(src)
		case "Array of reflect.Value":
			if rv.Kind() != reflect.Slice {
				return
			}
			v = vf.Array(rv)
		case "Values":
			v = vf.Values(src, rv)
		case "With":
			v = vf.Values(1).With(src).With(rv)
		case "Map":
			if rv.Kind() != reflect.Map {
				return
			}
			v = vf.Map(src)
		case "FromReflectedMap":
			if rv.Kind() != reflect.Map {
				return
			}
			v = vf.FromReflectedMap(rv, true)
		case "Map of pairs":
			v = vf.Map("a", src, "b", rv)
		default:
			a := vf.MutableValues(src)
			a.Freeze()
			v = a
		}
		before := model(v)
		c.Class(how)
		if x := notFrozen(v); x != nil {
			c.Fatalf("%s of %T gives %s which contains %s that is not frozen", how, src, v, x)
		}
		mutable := false
		for _, h := range held {
			mutable = mutable || isMutable(h)
			upset(h)
		}
		if after := model(v); !sameOrdered(before, after) {
			c.Fatalf("%s of %T: a change to a value that the source holds changed %s into %s", how, src, before.str(), after.str())
		}
		scramble(rv)
		if after := model(v); !sameOrdered(before, after) {
			c.Fatalf("%s of %T: a change to the source changed %s into %s", how, src, before.str(), after.str())
		}
		if mutable {
			c.NonTrivial(fmt.Sprint(how, before.str()))
		}
	})
}
