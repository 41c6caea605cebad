package props

import (
	"fmt"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// O is a node of a model heap. Unlike V it has an identity, so that sharing and independence can be modelled.
type O struct {
	k      K // kArray, kMap, kBinary, kSensitive, or something immutable
	frozen bool
	leaf   *V
	keys   []*V
	elems  []*O
	bytes  []byte
}

func (o *O) isFrozen() bool {
	switch o.k {
	case kArray, kMap, kBinary:
		return o.frozen
	case kSensitive:
		return o.elems[0].isFrozen()
	}
	return true
}

func (o *O) freeze() {
	if o.k == kArray || o.k == kMap || o.k == kBinary {
		if o.frozen {
			return
		}
		o.frozen = true
		o.bytes = append([]byte{}, o.bytes...)
	}
	for _, e := range o.elems {
		e.freeze()
	}
}

func (o *O) shallow() *O {
	c := *o
	c.keys = append([]*V{}, o.keys...)
	c.elems = append([]*O{}, o.elems...)
	c.bytes = append([]byte{}, o.bytes...)
	return &c
}

func (o *O) frozenCopy() *O {
	if o.isFrozen() {
		return o
	}
	c := o.shallow()
	c.frozen = true
	for i := range c.elems {
		c.elems[i] = c.elems[i].frozenCopy()
	}
	return c
}

func (o *O) thawedCopy() *O {
	switch o.k {
	case kArray, kMap, kBinary, kSensitive:
		c := o.shallow()
		c.frozen = false
		for i := range c.elems {
			c.elems[i] = c.elems[i].thawedCopy()
		}
		return c
	}
	return o
}

func (o *O) v() *V {
	switch o.k {
	case kArray, kSensitive:
		v := &V{K: o.k}
		for _, e := range o.elems {
			v.A = append(v.A, e.v())
		}
		return v
	case kMap:
		v := &V{K: o.k}
		for i, e := range o.elems {
			v.MK = append(v.MK, o.keys[i])
			v.MV = append(v.MV, e.v())
		}
		return v
	case kBinary:
		return vBin(append([]byte{}, o.bytes...))
	}
	return o.leaf
}

// flattened returns the elements, where arrays are replaced by their elements
func (o *O) flattened() []*O {
	var es []*O
	for _, e := range o.elems {
		if e.k == kArray {
			es = append(es, e.flattened()...)
		} else {
			es = append(es, e)
		}
	}
	return es
}

func (o *O) put(k *V, e *O) {
	for i, x := range o.keys {
		if refEq(x, k) {
			o.elems[i] = e
			return
		}
	}
	o.keys = append(o.keys, k)
	o.elems = append(o.elems, e)
}

func (o *O) remove(k *V) {
	for i, x := range o.keys {
		if refEq(x, k) {
			o.keys = append(append([]*V{}, o.keys[:i]...), o.keys[i+1:]...)
			o.elems = append(append([]*O{}, o.elems[:i]...), o.elems[i+1:]...)
			return
		}
	}
}

func (o *O) reaches(t *O) bool {
	if o == t {
		return true
	}
	for _, e := range o.elems {
		if e.reaches(t) {
			return true
		}
	}
	return false
}

// mutableInside says if something below the node can be changed
func (o *O) mutableInside() bool {
	for _, e := range o.elems {
		if !e.isFrozen() || e.mutableInside() {
			return true
		}
	}
	return false
}

// obj creates the heap model of a value. It must not share mutable parts.
func obj(v dgo.Value) *O {
	o := &O{}
	fz := !isMutable(v)
	switch v := v.(type) {
	case dgo.Array:
		o.k, o.frozen = kArray, fz
		for _, c := range children(v) {
			o.elems = append(o.elems, obj(c))
		}
	case dgo.Map:
		o.k, o.frozen = kMap, fz
		v.EachEntry(func(e dgo.MapEntry) {
			o.keys = append(o.keys, model(e.Key()))
			o.elems = append(o.elems, obj(e.Value()))
		})
	case dgo.Binary:
		o.k, o.frozen, o.bytes = kBinary, fz, append([]byte{}, v.GoBytes()...)
	case dgo.Sensitive:
		o.k = kSensitive
		o.elems = []*O{obj(v.Unwrap())}
	default:
		o.leaf = model(v)
		o.k = o.leaf.K
	}
	return o
}

// conforms compares a value with the heap model, including what is frozen
func conforms(v dgo.Value, o *O) string {
	if f, ok := v.(dgo.Freezable); ok && f.Frozen() != o.isFrozen() {
		return fmt.Sprintf("%s has frozen %v", v, f.Frozen())
	}
	if g, w := model(v), o.v(); !sameOrdered(g, w) {
		return fmt.Sprintf("%s instead of %s", g.str(), w.str())
	}
	cs := []dgo.Value{}
	switch v := v.(type) {
	case dgo.Array, dgo.Sensitive:
		cs = children(v)
	case dgo.Map:
		v.EachValue(func(v dgo.Value) { cs = append(cs, v) })
	}
	for i, c := range cs {
		if s := conforms(c, o.elems[i]); s != "" {
			return s
		}
	}
	return ""
}

type heapItem struct {
	v dgo.Value
	o *O
}

type heapRun struct {
	*C
	pool    []heapItem
	log     string
	copies  int
	changes int
}

func (h *heapRun) pick() heapItem {
	return h.pool[rapid.IntRange(0, len(h.pool)-1).Draw(h.T, "v")]
}

func (h *heapRun) pickK(k K) (heapItem, bool) {
	var c []heapItem
	for _, i := range h.pool {
		if i.o.k == k {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return heapItem{}, false
	}
	return c[rapid.IntRange(0, len(c)-1).Draw(h.T, "v")], true
}

func (h *heapRun) scalar() heapItem {
	s := drawV(h.T, vOpts{kinds: []K{kInt, kString, kNil}, depth: 1})
	return heapItem{build(s, fixedRoute), &O{k: s.K, leaf: s}}
}

func (h *heapRun) argFor(c *O) heapItem {
	if rapid.IntRange(0, 2).Draw(h.T, "arg") > 0 {
		if a := h.pick(); !a.o.reaches(c) && a.o.v().nodes() < 30 && c.v().nodes() < 80 {
			return a
		}
	}
	return h.scalar()
}

func (h *heapRun) add(v dgo.Value, o *O) {
	if s := conforms(v, o); s != "" {
		h.Fatalf("%s: new value is wrong: %s", h.log, s)
	}
	if o.v().nodes() > 100 {
		return
	}
	if len(h.pool) < 12 {
		h.pool = append(h.pool, heapItem{v, o})
	} else {
		h.pool[rapid.IntRange(0, len(h.pool)-1).Draw(h.T, "replace")] = heapItem{v, o}
	}
}

// derived adds the result of an operation that isn't documented to copy recursively. The elements of the receiver are shared, so when
// some of them are mutable the result is compared and then forgotten.
func (h *heapRun) derived(v dgo.Value, rcv *O, o *O) {
	if s := conforms(v, o); s != "" {
		h.Fatalf("%s: derived value is wrong: %s", h.log, s)
	}
	if !rcv.mutableInside() && !o.mutableInside() {
		h.copies++
		h.add(v, o)
		return
	}
	for _, e := range o.elems {
		if e.reaches(rcv) {
			return // it is meant to be affected by changes
		}
	}
	// what the collections themselves hold is independent, whatever the elements are
	for _, i := range h.pool {
		if i.o == rcv && !rcv.frozen && len(rcv.elems) > 0 {
			switch x := i.v.(type) {
			case dgo.Array:
				old := x.Set(0, "changed")
				h.conforms(v, o)
				x.Set(0, old)
			case dgo.Map:
				k := build(rcv.keys[0], fixedRoute)
				old := x.Put(k, "changed")
				h.conforms(v, o)
				x.Put(k, old)
			}
			break
		}
	}
	if !o.frozen {
		switch x := v.(type) {
		case dgo.Array:
			n := x.Len()
			for i := 0; i < n; i++ {
				x.Set(i, "changed")
			}
			x.Add("more")
			x.Insert(0, "before")
			h.verify()
			for i := 0; i < n; i++ {
				x.Remove(0)
			}
		case dgo.Map:
			for _, k := range o.keys {
				x.Put(build(k, fixedRoute), "changed")
			}
			x.Put("more", 1)
			h.verify()
			for _, k := range o.keys {
				x.Remove(build(k, fixedRoute))
			}
		}
		h.verify()
	}
}

func (h *heapRun) conforms(v dgo.Value, o *O) {
	if s := conforms(v, o); s != "" {
		h.Fatalf("%s: a derived collection was affected by a change to what it was derived from: %s", h.log, s)
	}
}

func (h *heapRun) verify() {
	for _, i := range h.pool {
		if s := conforms(i.v, i.o); s != "" {
			h.Fatalf("%s: a collection was affected by a change to another, or a change was not made: %s", h.log, s)
		}
	}
}

func ins(es []*O, at int, x ...*O) []*O {
	return append(append(append([]*O{}, es[:at]...), x...), es[at:]...)
}

func (h *heapRun) key(o *O) (interface{}, *V) {
	if len(o.keys) > 0 && rapid.Bool().Draw(h.T, "existing") {
		k := o.keys[rapid.IntRange(0, len(o.keys)-1).Draw(h.T, "k")]
		return build(k, fixedRoute), k
	}
	if rapid.IntRange(0, 4).Draw(h.T, "mutable key") == 0 {
		// a mutable key must be copied
		if a, ok := h.pickK(kArray); ok && a.o.v().nodes() < 10 {
			return a.v, a.o.v()
		}
	}
	k := vStr(rapid.SampledFrom([]string{"a", "b", "c"}).Draw(h.T, "key"))
	return k.S, k
}

func (h *heapRun) step() {
	switch rapid.IntRange(0, 13).Draw(h.T, "op") {
	case 0, 1, 2: // change an array
		a, ok := h.pickK(kArray)
		if !ok || a.o.frozen {
			return
		}
		arr := a.v.(dgo.Array)
		x := h.argFor(a.o)
		n := len(a.o.elems)
		k := rapid.IntRange(0, 7).Draw(h.T, "mutator")
		h.log += fmt.Sprintf("; array mutator %d on %s with %s", k, a.v, x.v)
		h.changes++
		switch k {
		case 0, 1:
			arr.Add(x.v)
			a.o.elems = ins(a.o.elems, n, x.o)
		case 2:
			arr.AddValues(x.v, 1)
			a.o.elems = ins(a.o.elems, n, x.o, &O{k: kInt, leaf: vInt(1)})
		case 3:
			at := rapid.IntRange(0, n).Draw(h.T, "at")
			arr.Insert(at, x.v)
			a.o.elems = ins(a.o.elems, at, x.o)
		case 4:
			arr.Pop()
			if n > 0 {
				a.o.elems = a.o.elems[: n-1 : n-1]
			}
		case 5, 6:
			if n > 0 {
				at := rapid.IntRange(0, n-1).Draw(h.T, "at")
				arr.Set(at, x.v)
				a.o.elems = ins(a.o.elems, 0)
				a.o.elems[at] = x.o
			}
		case 7:
			if n > 0 {
				at := rapid.IntRange(0, n-1).Draw(h.T, "at")
				arr.Remove(at)
				a.o.elems = append(append([]*O{}, a.o.elems[:at]...), a.o.elems[at+1:]...)
			}
		}
	case 3, 4: // change a map
		a, ok := h.pickK(kMap)
		if !ok || a.o.frozen {
			return
		}
		m := a.v.(dgo.Map)
		x := h.argFor(a.o)
		k, kv := h.key(a.o)
		op := rapid.IntRange(0, 3).Draw(h.T, "mutator")
		h.log += fmt.Sprintf("; map mutator %d on %s with %s: %s", op, a.v, k, x.v)
		h.changes++
		switch op {
		case 0, 1:
			m.Put(k, x.v)
			a.o.put(kv, x.o)
		case 2:
			m.Remove(k)
			a.o.remove(kv)
		case 3:
			if o, ok := h.pickK(kMap); ok && !o.o.reaches(a.o) && a.o.v().nodes() < 60 {
				m.PutAll(o.v.(dgo.Map))
				for i, k := range o.o.keys {
					a.o.put(k, o.o.elems[i])
				}
			}
		}
	case 5: // change a binary
		a, ok := h.pickK(kBinary)
		if ok && len(a.o.bytes) > 0 {
			h.log += fmt.Sprintf("; binary change in %s", a.v)
			a.v.(dgo.Binary).GoBytes()[0]++
			if !a.o.frozen {
				a.o.bytes[0]++
				h.changes++
			}
		}
	case 6:
		a := h.pick()
		h.log += fmt.Sprintf("; freeze %s", a.v)
		if f, ok := a.v.(dgo.Freezable); ok && rapid.Bool().Draw(h.T, "freeze") {
			f.Freeze()
			a.o.freeze()
		}
	case 7, 8:
		a := h.pick()
		k := rapid.IntRange(0, 3).Draw(h.T, "copy")
		h.log += fmt.Sprintf("; copy %d of %s", k, a.v)
		h.copies++
		if k > 1 {
			switch v := a.v.(type) {
			case dgo.Array:
				if k == 2 {
					h.add(v.Copy(true), a.o.frozenCopy())
				} else {
					h.add(v.Copy(false), a.o.thawedCopy())
				}
				return
			case dgo.Map:
				if k == 2 {
					h.add(v.Copy(true), a.o.frozenCopy())
				} else {
					h.add(v.Copy(false), a.o.thawedCopy())
				}
				return
			}
			k -= 2
		}
		if f, ok := a.v.(dgo.Freezable); ok {
			if k == 0 {
				h.add(f.FrozenCopy(), a.o.frozenCopy())
			} else {
				h.add(f.ThawedCopy(), a.o.thawedCopy())
			}
		}
	case 9: // child
		a := h.pick()
		if len(a.o.elems) > 0 {
			i := rapid.IntRange(0, len(a.o.elems)-1).Draw(h.T, "child")
			h.log += fmt.Sprintf("; child %d of %s", i, a.v)
			var v dgo.Value
			switch c := a.v.(type) {
			case dgo.Array:
				v = c.Get(i)
			case dgo.Map:
				v = c.Get(build(a.o.keys[i], fixedRoute))
			case dgo.Sensitive:
				v = c.Unwrap()
			}
			h.add(v, a.o.elems[i])
		}
	case 10, 11: // derive from an array
		a, ok := h.pickK(kArray)
		if !ok {
			return
		}
		arr := a.v.(dgo.Array)
		k := rapid.IntRange(0, 11).Draw(h.T, "derive")
		x := h.argFor(a.o)
		xo := x.o
		if a.o.frozen {
			xo = xo.frozenCopy()
		}
		n := len(a.o.elems)
		h.log += fmt.Sprintf("; derive %d from %s with %s", k, a.v, x.v)
		d := a.o.shallow()
		switch k {
		case 0:
			d.elems = ins(d.elems, n, xo)
			h.derived(arr.With(x.v), a.o, d)
		case 1:
			d.elems = ins(d.elems, n, xo, &O{k: kInt, leaf: vInt(1)})
			h.derived(arr.WithValues(x.v, 1), a.o, d)
		case 2:
			if !a.o.frozen {
				d = a.o.thawedCopy() // documented to append to a copy
			}
			d.elems = ins(d.elems, n, xo)
			h.derived(arr.WithAll(vf.MutableValues(x.v)), a.o, d)
		case 3:
			i := rapid.IntRange(0, n).Draw(h.T, "i")
			j := rapid.IntRange(i, n).Draw(h.T, "j")
			d.elems = d.elems[i:j:j]
			h.derived(arr.Slice(i, j), a.o, d)
		case 4:
			d.elems = a.o.flattened()
			h.derived(arr.Flatten(), a.o, d)
		case 5:
			vs := a.o.v().A
			d.elems = nil
			for i := range vs {
				if indexOf(vs[:i], vs[i]) < 0 {
					d.elems = append(d.elems, a.o.elems[i])
				}
			}
			h.derived(arr.Unique(), a.o, d)
		case 6, 7:
			mask := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 7, 8, -1, -2, -4}).Draw(h.T, "mask")
			d.elems = nil
			for i, e := range a.o.elems {
				if mask&(1<<uint(i)) != 0 {
					d.elems = append(d.elems, e)
				}
			}
			i := -1
			if k == 6 {
				h.derived(arr.Select(func(dgo.Value) bool { i++; return mask&(1<<uint(i)) != 0 }), a.o, d)
			} else {
				h.derived(arr.Reject(func(dgo.Value) bool { i++; return mask&(1<<uint(i)) == 0 }), a.o, d)
			}
		case 8:
			h.derived(arr.Map(func(v dgo.Value) interface{} { return v }), a.o, d)
		case 9:
			if n < 2 {
				h.derived(arr.Sort(), a.o, d)
			}
		case 10:
			d.k = kMap
			d.elems, d.keys = nil, nil
			for i := 0; i < n; i += 2 {
				e := &O{k: kNil, leaf: vNil()}
				if i+1 < n {
					e = a.o.elems[i+1]
				}
				d.put(a.o.elems[i].v(), e)
			}
			h.derived(arr.ToMap(), a.o, d)
		case 11:
			if n == 0 || a.o.mutableInside() {
				return
			}
			// a slice followed by appends must not write into the source or into a sibling
			d1, d2 := a.o.shallow(), a.o.shallow()
			d1.elems = append(ins(d1.elems[:n-1], n-1), xo)
			d2.elems = append(ins(d2.elems[:n-1], n-1), &O{k: kInt, leaf: vInt(77)})
			s := arr.Slice(0, n-1)
			r1 := s.With(x.v)
			r2 := s.With(77)
			h.derived(r1, a.o, d1)
			h.derived(r2, a.o, d2)
		}
	case 12: // derive from a map
		a, ok := h.pickK(kMap)
		if !ok {
			return
		}
		m := a.v.(dgo.Map)
		op := rapid.IntRange(0, 6).Draw(h.T, "derive")
		x := h.argFor(a.o)
		xo := x.o
		if a.o.frozen {
			xo = xo.frozenCopy()
		}
		k, kv := h.key(a.o)
		h.log += fmt.Sprintf("; derive %d from %s with %s: %s", op, a.v, k, x.v)
		d := a.o.shallow()
		switch op {
		case 0:
			if i := a.o.v().get(kv); i < 0 || !refEq(a.o.elems[i].v(), xo.v()) {
				d.put(kv, xo) // an equal value is not replaced
			}
			h.derived(m.With(k, x.v), a.o, d)
		case 1:
			d.remove(kv)
			h.derived(m.Without(k), a.o, d)
		case 2:
			d.remove(kv)
			h.derived(m.WithoutAll(vf.Values(k)), a.o, d)
		case 3:
			h.derived(m.Map(func(e dgo.MapEntry) interface{} { return e.Value() }), a.o, d)
		case 4:
			o, ok := h.pickK(kMap)
			if !ok || len(a.o.elems) == 0 && a.o.frozen {
				return // an empty frozen map may return the other map
			}
			for i, k := range o.o.keys {
				e := o.o.elems[i]
				if a.o.frozen {
					e = e.frozenCopy()
				}
				d.put(k, e)
			}
			h.derived(m.Merge(o.v.(dgo.Map)), a.o, d)
		case 5:
			d.k = kArray
			d.keys = nil
			h.derived(m.Values(), a.o, d)
		case 6:
			ks := &O{k: kArray, frozen: true}
			for _, k := range a.o.keys {
				ks.elems = append(ks.elems, obj(build(k, fixedRoute)).frozenCopy())
			}
			h.add(m.Keys(), ks)
		}
	case 13: // new collections
		x, y := h.pick(), h.pick()
		if x.o.v().nodes()+y.o.v().nodes() > 60 {
			return
		}
		k := rapid.IntRange(0, 5).Draw(h.T, "new")
		h.log += fmt.Sprintf("; new %d of %s and %s", k, x.v, y.v)
		switch k {
		case 0:
			h.add(vf.Values(x.v, y.v), &O{k: kArray, frozen: true, elems: []*O{x.o.frozenCopy(), y.o.frozenCopy()}})
		case 1:
			h.add(vf.MutableValues(x.v, y.v), &O{k: kArray, elems: []*O{x.o, y.o}})
		case 2:
			h.add(vf.Map("a", x.v, "b", y.v), &O{k: kMap, frozen: true, keys: []*V{vStr("a"), vStr("b")}, elems: []*O{x.o.frozenCopy(), y.o.frozenCopy()}})
		case 3:
			h.add(vf.MutableMap("a", x.v, "b", y.v), &O{k: kMap, keys: []*V{vStr("a"), vStr("b")}, elems: []*O{x.o, y.o}})
		case 4:
			h.add(vf.Sensitive(x.v), &O{k: kSensitive, elems: []*O{x.o}})
		case 5:
			bs := []byte{1, 2}
			h.add(vf.Binary(bs, false), &O{k: kBinary, bytes: []byte{1, 2}})
		}
	}
}

func TestP06_History(t *testing.T) {
	prop(t, 15000, "at least one copy or derived collection was made, and at least two changes were made", func(c *C) {
		h := &heapRun{C: c}
		for i := 0; i < 2; i++ {
			v := build(drawV(c.T, vOpts{kinds: []K{kInt, kString, kArray, kArray, kMap, kMap, kBinary, kSensitive}, keys: []K{kString, kString, kArray}, depth: 3, width: 3}), drawRouter(c.T))
			h.log += fmt.Sprintf(" %s", v)
			h.add(v, obj(v))
		}
		n := rapid.IntRange(1, 40).Draw(c.T, "ops")
		for i := 0; i < n; i++ {
			h.step()
			h.verify()
		}
		if h.copies > 0 && h.changes > 1 {
			c.NonTrivial(h.log)
		}
	})
}
