package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// Collections of hundreds of elements, and texts of deeply nested values

func drawMany(t *rapid.T, max int) ([]*V, int) {
	n := rapid.SampledFrom([]int{13, 17, 31, 48, 64, 65, 100, 129, 200, 257, 300}).Draw(t, "size")
	if n > max {
		n = max
	}
	mixed := rapid.Bool().Draw(t, "mixed")
	off := rapid.Int64Range(-300, 300).Draw(t, "offset")
	step := rapid.SampledFrom([]int64{1, -1, 2, 16, 256, 1 << 33}).Draw(t, "step")
	ks := make([]*V, n)
	for i := range ks {
		x := off + int64(i)*step
		switch {
		case mixed && i%3 == 1:
			ks[i] = vStr(fmt.Sprint("k", x))
		case mixed && i%3 == 2:
			ks[i] = vFloat(float64(x) + 0.5)
		default:
			ks[i] = vInt(x)
		}
	}
	return ks, n
}

func TestP03_Large(t *testing.T) {
	prop(t, 500, "a map of 13 to 300 associations, some removed, replaced and added again; non-trivial for more than 64", func(c *C) {
		ks, n := drawMany(c.T, 300)
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		idx = rapid.Permutation(idx).Draw(c.T, "order")
		w := &V{K: kMap}
		m := vf.MutableMap()
		half := rapid.IntRange(0, n).Draw(c.T, "half")
		other := vf.MutableMap()
		log := fmt.Sprintf("%d keys from %s to %s in the order %v, %d by PutAll", n, ks[0].str(), ks[n-1].str(), idx, n-half)
		for i, j := range idx {
			v := vInt(int64(i))
			w.MK, w.MV = append(w.MK, ks[j]), append(w.MV, v)
			if i < half {
				m.Put(build(ks[j], fixedRoute), build(v, fixedRoute))
			} else {
				other.Put(build(ks[j], fixedRoute), build(v, fixedRoute))
			}
		}
		m.PutAll(other)
		c.Doing("%s", log)
		same := func(what string, m dgo.Map, w *V) {
			if m.Len() != len(w.MK) || m.Keys().Len() != len(w.MK) || m.Values().Len() != len(w.MK) {
				c.Fatalf("%s; %s: %d associations, %d keys and %d values, not %d", log, what, m.Len(), m.Keys().Len(), m.Values().Len(), len(w.MK))
			}
			mk, mv := m.Keys(), m.Values()
			for i := range w.MK {
				if !sameOrdered(model(mk.Get(i)), w.MK[i]) || !sameOrdered(model(mv.Get(i)), w.MV[i]) {
					c.Fatalf("%s; %s: association %d is %s: %s and not %s: %s", log, what, i, mk.Get(i), mv.Get(i), w.MK[i].str(), w.MV[i].str())
				}
				if got := m.Get(build(w.MK[i], fixedRoute)); got == nil || !sameOrdered(model(got), w.MV[i]) {
					c.Fatalf("%s; %s: %s is %v", log, what, w.MK[i].str(), got)
				}
			}
			if !sameOrdered(model(m), w) {
				c.Fatalf("%s; %s: the map is %s", log, what, m)
			}
			if x := m.Find(func(e dgo.MapEntry) bool { return !e.Value().Equals(m.Get(e.Key())) }); x != nil {
				c.Fatalf("%s; %s: %s is inconsistent", log, what, x)
			}
		}
		same("built", m, w)
		for i := rapid.IntRange(1, 6).Draw(c.T, "steps"); i > 0; i-- {
			lo := rapid.IntRange(0, len(w.MK)).Draw(c.T, "from")
			hi := rapid.IntRange(lo, len(w.MK)).Draw(c.T, "to")
			sub := &V{K: kMap, MK: append([]*V{}, w.MK[lo:hi]...), MV: append([]*V{}, w.MV[lo:hi]...)}
			rest := &V{K: kMap, MK: append(append([]*V{}, w.MK[:lo]...), w.MK[hi:]...), MV: append(append([]*V{}, w.MV[:lo]...), w.MV[hi:]...)}
			keys := vf.Array(buildArray(vArr(sub.MK...), fixedRoute))
			switch rapid.IntRange(0, 5).Draw(c.T, "op") {
			case 0:
				log += fmt.Sprintf("; RemoveAll %d..%d", lo, hi)
				m.RemoveAll(keys)
				w = rest
			case 1:
				log += fmt.Sprintf("; Remove %d..%d", lo, hi)
				for j := range sub.MK {
					if old := m.Remove(build(sub.MK[j], fixedRoute)); old == nil || !sameOrdered(model(old), sub.MV[j]) {
						c.Fatalf("%s: removed %v", log, old)
					}
				}
				w = rest
			case 2:
				log += fmt.Sprintf("; WithoutAll %d..%d", lo, hi)
				d := m.WithoutAll(keys)
				same("derived", d, rest)
				same("source", m, w)
				m, w = d, rest
			case 3, 4:
				// merged with other values for some of its own keys and with new keys, in another order
				log += fmt.Sprintf("; Merge %d..%d", lo, hi)
				o := vf.MutableMap()
				dw := w.clone()
				fresh := rapid.SampledFrom([]int{0, 0, 1, 40}).Draw(c.T, "fresh")
				for j := hi - 1; j >= lo; j-- {
					o.Put(build(w.MK[j], fixedRoute), -j)
					dw.MV[j] = vInt(int64(-j))
				}
				for j := 0; j < fresh; j++ {
					k := fmt.Sprintf("fresh %d %d", i, j)
					o.Put(k, j)
					dw.MK, dw.MV = append(dw.MK, vStr(k)), append(dw.MV, vInt(int64(j)))
				}
				d := m.Merge(o)
				same("merged", d, dw)
				same("source", m, w)
				m, w = d, dw
			case 5:
				log += fmt.Sprintf("; again %d..%d", lo, hi)
				for _, k := range sub.MK {
					m.Remove(build(k, fixedRoute))
				}
				w = rest
				for j := len(sub.MK) - 1; j >= 0; j-- {
					m.Put(build(sub.MK[j], fixedRoute), build(sub.MV[j], fixedRoute))
					w.MK, w.MV = append(w.MK, sub.MK[j]), append(w.MV, sub.MV[j])
				}
			}
			c.Doing("%s", log)
			same("now", m, w)
		}
		if f := m.FrozenCopy().(dgo.Map); !f.Equals(m) || f.HashCode() != m.HashCode() {
			c.Fatalf("%s: the frozen copy differs", log)
		} else {
			same("frozen", f, w)
		}
		c.Class("size %d", n)
		if n > 64 {
			c.NonTrivial(log)
		}
	})
}

func TestP04_Large(t *testing.T) {
	prop(t, 500, "an array of 13 to 300 elements, some of them equal; non-trivial for more than 64", func(c *C) {
		ks, n := drawMany(c.T, 300)
		w := make([]*V, n)
		for i := range w {
			w[i] = ks[rapid.IntRange(0, n-1).Draw(c.T, "element")]
		}
		a := buildArray(vArr(w...), drawRouter(c.T))
		log := vArr(w...).str()
		c.Doing("%s", log)
		same := func(what string, got dgo.Array, want []*V) {
			if !sameOrdered(model(got), vArr(want...)) {
				c.Fatalf("%s; %s is %s, not %s", log, what, got, vArr(want...).str())
			}
		}
		same("the array", a, w)
		same("Unique", a.Unique(), uniq(w))
		lo := rapid.IntRange(0, n).Draw(c.T, "from")
		hi := rapid.IntRange(lo, n).Draw(c.T, "to")
		same("Slice", a.Slice(lo, hi), w[lo:hi])
		same("WithAll", a.WithAll(a.Slice(lo, hi)), append(append([]*V{}, w...), w[lo:hi]...))
		perm := rapid.Permutation(w).Draw(c.T, "permutation")
		if p := buildArray(vArr(perm...), fixedRoute); !p.SameValues(a) || !a.SameValues(p) || !a.ContainsAll(p.Slice(lo, hi)) {
			c.Fatalf("%s has not the same values as %s", log, p)
		}
		// numbers that compare as the same, but differ: 2 and 2.0
		nums := vf.MutableValues()
		var ws []*V
		for i := 0; i < n; i++ {
			x := rapid.IntRange(0, 9).Draw(c.T, "number")
			if rapid.Bool().Draw(c.T, "float") {
				ws = append(ws, vFloat(float64(x)))
			} else {
				ws = append(ws, vInt(int64(x)))
			}
			nums.Add(build(ws[i], fixedRoute))
		}
		num := func(v *V) float64 {
			if v.K == kInt {
				return float64(v.I)
			}
			return v.F
		}
		wn := append([]*V{}, ws...)
		sort.SliceStable(wn, func(i, j int) bool { return num(wn[i]) < num(wn[j]) })
		same(fmt.Sprintf("Sort of %s", nums), nums.Sort(), wn)
		same("the source of Sort", nums, ws)
		m := vf.MutableMap()
		for i, k := range ks {
			m.Put(build(k, fixedRoute), i)
		}
		flat := vf.MutableValues()
		m.EachEntry(func(e dgo.MapEntry) { flat.AddValues(e.Key(), e.Value()) })
		if tm := flat.ToMap(); !tm.Equals(m) || !tm.Keys().Equals(m.Keys()) {
			c.Fatalf("%s; ToMap is %s", flat, tm)
		}
		c.Class("size %d", n)
		if n > 64 {
			c.NonTrivial(log)
		}
	})
}

// TestP05_Large freezes collections of many mutable elements
func TestP05_Large(t *testing.T) {
	prop(t, 400, "a frozen collection that is extended by 1 to 300 mutable collections; non-trivial for more than 16", func(c *C) {
		_, n := drawMany(c.T, 300)
		if rapid.Bool().Draw(c.T, "few") {
			n = rapid.IntRange(1, 40).Draw(c.T, "n")
		}
		es := make([]dgo.Array, n)
		in := vf.MutableValues()
		im := vf.MutableMap()
		xs := make([]interface{}, n)
		for i := range es {
			es[i] = vf.MutableValues(i)
			in.Add(es[i])
			im.Put(i, es[i])
			xs[i] = es[i]
		}
		how := rapid.IntRange(0, 8).Draw(c.T, "how")
		base := vf.Values("base")
		var got dgo.Value
		first := 0
		switch how {
		case 0:
			got, first = base.WithAll(in), 1
		case 1:
			got, first = base.WithValues(xs...), 1
		case 2:
			got = in.FrozenCopy()
		case 3:
			got = vf.Values(xs...)
		case 4:
			got = vf.Map(im)
		case 5:
			got = im.FrozenCopy()
		case 6:
			got = vf.Map("x", 1).Merge(im)
		case 7:
			a := in.Copy(false)
			a.Freeze()
			got = a
		default:
			var a dgo.Array = base
			for _, e := range es {
				a = a.With(e)
			}
			got, first = a, 1
		}
		for _, e := range es {
			if !e.Frozen() {
				e.Set(0, "changed")
			}
		}
		c.Doing("%d elements, %d", n, how)
		for i := 0; i < n; i++ {
			var e dgo.Value
			if m, ok := got.(dgo.Map); ok {
				e = m.Get(i)
			} else {
				e = got.(dgo.Array).Get(first + i)
			}
			if !e.(dgo.Array).Frozen() || how != 7 && !e.Equals(vf.Values(i)) {
				c.Fatalf("element %d of %d in a frozen collection built in the way %d is %s, frozen %v", i, n, how, e, e.(dgo.Array).Frozen())
			}
		}
		c.Class("way %d", how)
		if n > 16 {
			c.NonTrivial(fmt.Sprint(n, how))
		}
	})
}

// TestP27_Levels renders values of 5 to 40 levels
func TestP27_Levels(t *testing.T) {
	prop(t, 1500, "a chain of arrays and maps of 5 to 40 levels; non-trivial for more than 12", func(c *C) {
		v := drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 2, width: 2})
		n := rapid.IntRange(5, 40).Draw(c.T, "levels")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 2).Draw(c.T, "level") {
			case 0:
				v = vArr(v)
			case 1:
				v = vArr(vInt(int64(i)), v)
			default:
				v = vMap(vStr("k"), v, vStr("l"), vInt(int64(i)))
			}
		}
		d := build(v, drawOrdered(c.T))
		ia := d.(dgo.Indentable)
		for _, indent := range []string{"", "  ", "\t"} {
			want := render(v, indent, 0)
			is := []dgo.Indenter{util.NewIndenter(indent), util.NewERPIndenter(indent)}
			for i, x := range is {
				x.AppendValue(ia)
				if got := x.String(); got != want {
					c.Fatalf("the text (%d) is\n%s\nand not\n%s", i, got, want)
				}
				// text with lines at a deep level
				y := util.NewIndenter(indent)
				z := y
				for j := 0; j < n; j++ {
					z = z.Indent()
				}
				z.AppendIndented("a\n  b\n\nc")
				if indent != "" {
					nl := "\n" + strings.Repeat(indent, n)
					if got, want := y.String(), "a"+nl+"  b\n"+nl+"c"; z.Level() != n || got != want {
						c.Fatalf("at level %d the text is %q and not %q", z.Level(), got, want)
					}
				}
			}
		}
		// the same value in itself, at the end of the chain
		a := vf.MutableValues(1)
		var x dgo.Value = a
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				x = vf.MutableValues(x)
			} else {
				x = vf.MutableMap("k", x)
			}
		}
		a.Add(x)
		c.Doing("the text of a value that contains itself after %d levels", n)
		outer := rapid.IntRange(0, 30).Draw(c.T, "outer")
		var top dgo.Value = a
		for i := 0; i < outer; i++ {
			top = vf.MutableValues(top)
		}
		got := util.ToStringERP(top.(dgo.Indentable))
		var want strings.Builder
		want.WriteString(strings.Repeat("{", outer) + "{1,")
		for i := n - 1; i >= 0; i-- {
			if i%2 == 0 {
				want.WriteString("{")
			} else {
				want.WriteString(`{"k":`)
			}
		}
		want.WriteString("<recursive>" + strings.Repeat("}", n+1+outer))
		if got = selfRx.ReplaceAllString(got, "<recursive>"); got != want.String() {
			c.Fatalf("the text is %s and not %s", got, want.String())
		}
		if n > 12 {
			c.NonTrivial(d.String())
		}
	})
}
