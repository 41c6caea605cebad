package props

import (
	"bytes"
	"math"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func cmpFloat(a, b float64) (int, bool) {
	switch {
	case a < b:
		return -1, true
	case a > b:
		return 1, true
	case a == b:
		return 0, true
	}
	return 0, false // NaN
}

func isComparableKind(k K) bool {
	switch k {
	case kNil, kBool, kInt, kFloat, kString, kBinary, kArray:
		return true
	}
	return false
}

// refCmp is the reference order. The last result is true when equal elements that have no order decide the outcome.
func refCmp(a, b *V) (r int, ok bool, unknown bool) {
	switch {
	case a.K == kNil && b.K == kNil:
		return 0, true, false
	case a.K == kNil:
		return -1, true, false
	case b.K == kNil:
		return 1, true, false
	case a.K == kInt && b.K == kFloat:
		r, ok = cmpFloat(float64(a.I), b.F)
		return r, ok, false
	case a.K == kFloat && b.K == kInt:
		r, ok = cmpFloat(a.F, float64(b.I))
		return r, ok, false
	case a.K != b.K:
		return 0, false, false
	}
	switch a.K {
	case kBool:
		switch {
		case a.B == b.B:
			return 0, true, false
		case a.B:
			return 1, true, false
		}
		return -1, true, false
	case kInt:
		switch {
		case a.I < b.I:
			return -1, true, false
		case a.I > b.I:
			return 1, true, false
		}
		return 0, true, false
	case kFloat:
		r, ok = cmpFloat(a.F, b.F)
		return r, ok, false
	case kString:
		return strings.Compare(a.S, b.S), true, false
	case kBinary:
		return bytes.Compare(a.Y, b.Y), true, false
	case kArray:
		for i := range a.A {
			if i >= len(b.A) {
				return 1, true, unknown
			}
			r, ok, u := refCmp(a.A[i], b.A[i])
			unknown = unknown || u
			if !ok {
				if refEq(a.A[i], b.A[i]) {
					unknown = true
					continue
				}
				return 0, false, unknown
			}
			if r != 0 {
				return r, true, unknown
			}
		}
		if len(a.A) < len(b.A) {
			return -1, true, unknown
		}
		return 0, true, unknown
	}
	return 0, false, false
}

func isFloat(v *V) bool { return v.K == kFloat }

func cmpOpts(depth int) vOpts {
	return vOpts{kinds: []K{kNil, kBool, kInt, kInt, kFloat, kFloat, kString, kString, kBinary, kArray, kArray, kArray, kTime, kRegexp, kSensitive, kMap},
		keys: []K{kString, kInt}, depth: depth, width: 4, wideStr: true}
}

func checkCompare(c *C, a, b *V, da dgo.Value, other interface{}) (int, bool) {
	ca, isC := da.(dgo.Comparable)
	if !isC {
		if isComparableKind(a.K) {
			c.Fatalf("%s is not Comparable", a.str())
		}
		return 0, false
	}
	var r int
	var ok bool
	if p := catch(func() { r, ok = ca.CompareTo(other) }); p != nil {
		c.Fatalf("%s.CompareTo(%s) (%T) panics: %s", a.str(), b.str(), other, p)
	}
	want, wantOk, unknown := refCmp(a, b)
	if unknown {
		c.Class("equal elements without order")
		if ok && r != 0 && refEq(a, b) {
			c.Fatalf("%s.CompareTo(%s) = %d", a.str(), b.str(), r)
		}
		return sign(r), ok
	}
	if ok != wantOk || ok && sign(r) != want {
		c.Fatalf("%s.CompareTo(%s) (%T) = %d,%v, want %d,%v", a.str(), b.str(), other, r, ok, want, wantOk)
	}
	return sign(r), ok
}

func TestP07_Pairs(t *testing.T) {
	prop(t, 40000, "a pair of related or unrelated values, compared in both directions as dgo and as go values; non-trivial when the kinds are equal or both are numbers", func(c *C) {
		o := cmpOpts(3)
		a := drawV(c.T, o)
		var b *V
		switch rapid.IntRange(0, 3).Draw(c.T, "related") {
		case 0:
			b = drawV(c.T, o)
		case 1:
			b = drawK(c.T, a.K, o)
		default:
			b = drawNear(c.T, a, o)
		}
		da, db := build(a, drawRouter(c.T)), build(b, drawRouter(c.T))
		var ga, gb interface{} = da, db
		if rapid.IntRange(0, 2).Draw(c.T, "go") == 0 {
			ga, gb = goOrValue(c.T, a), goOrValue(c.T, b)
		}
		r1, ok1 := checkCompare(c, a, b, da, gb)
		r2, ok2 := checkCompare(c, b, a, db, ga)
		// elements without order are identical or not depending on how they were made
		_, _, unknown := refCmp(a, b)
		if !unknown && isComparableKind(a.K) && isComparableKind(b.K) && (ok1 != ok2 || ok1 && r1 != -r2) {
			c.Fatalf("%s and %s compare as %d,%v and %d,%v", a.str(), b.str(), r1, ok1, r2, ok2)
		}
		if ok1 && a.K == b.K && !a.has(isFloat) && !b.has(isFloat) && (r1 == 0) != da.Equals(db) {
			c.Fatalf("%s and %s compare as %d, Equals=%v", a.str(), b.str(), r1, da.Equals(db))
		}
		if a.K == b.K || a.K == kInt && b.K == kFloat || a.K == kFloat && b.K == kInt {
			c.Class("%s %s %v %d", kNames[a.K], kNames[b.K], ok1, r1)
			c.NonTrivial(a.str() + " ? " + b.str())
		}
	})
}

func TestP07_Specials(t *testing.T) {
	sp := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1 << 62, 9223372036854775807}
	prop(t, 3000, "pairs with not-a-number, infinities, negative zero and integers beyond the precision of floats; always non-trivial", func(c *C) {
		draw := func(l string) *V {
			switch rapid.IntRange(0, 4).Draw(c.T, l+"kind") {
			case 0:
				return vInt(rapid.SampledFrom(intPool).Draw(c.T, l))
			case 1:
				return vNil()
			case 2:
				return vArr(vFloat(rapid.SampledFrom(sp).Draw(c.T, l)), vInt(rapid.Int64Range(0, 2).Draw(c.T, l)))
			}
			return vFloat(rapid.SampledFrom(sp).Draw(c.T, l))
		}
		a, b := draw("a"), draw("b")
		da, db := build(a, drawRouter(c.T)), build(b, drawRouter(c.T))
		if a.K == kArray && a.A[0].F != a.A[0].F {
			return // an array that contains not-a-number may be identical to the other but it isn't equal
		}
		checkCompare(c, a, b, da, db)
		checkCompare(c, b, a, db, da)
		c.NonTrivial(a.str() + " ? " + b.str())
	})
}

func TestP07_Transitive(t *testing.T) {
	prop(t, 15000, "three values, at least two pairs of them ordered by CompareTo; the third must be consistent; non-trivial when all three differ", func(c *C) {
		o := cmpOpts(3)
		o.kinds = []K{kNil, kBool, kInt, kFloat, kString, kBinary, kArray, kArray}
		a := drawV(c.T, o)
		b := drawNear(c.T, a, o)
		d := drawNear(c.T, b, o)
		big := func(v *V) bool { return v.K == kInt && (v.I > 1<<53 || v.I < -(1<<53)) }
		if a.has(big) || b.has(big) || d.has(big) {
			return // the documented comparison of integers and floats converts the integer, and loses precision
		}
		if !isComparableKind(a.K) || !isComparableKind(b.K) || !isComparableKind(d.K) {
			return
		}
		da, db, dd := build(a, drawRouter(c.T)).(dgo.Comparable), build(b, drawRouter(c.T)).(dgo.Comparable), build(d, drawRouter(c.T)).(dgo.Comparable)
		ab, ok1 := da.CompareTo(db)
		bd, ok2 := db.CompareTo(dd)
		ad, ok3 := da.CompareTo(dd)
		if ok1 && ok2 && sign(ab)*sign(bd) >= 0 {
			want := sign(sign(ab) + sign(bd))
			if !ok3 || sign(ad) != want {
				c.Fatalf("%s ? %s = %d, %s ? %s = %d, but %s ? %s = %d,%v", a.str(), b.str(), ab, b.str(), d.str(), bd, a.str(), d.str(), ad, ok3)
			}
			if want != 0 {
				c.NonTrivial(a.str() + " ? " + b.str() + " ? " + d.str())
			}
		}
	})
}

func TestP07_Sort(t *testing.T) {
	groups := [][]K{{kInt}, {kFloat}, {kInt, kFloat}, {kString}, {kBool}, {kBinary}, {kInt, kNil}, {kString, kNil}, {kArray}, {kArray, kNil},
		{kString, kInt, kBool}, {kNil, kBool, kInt, kFloat, kString, kBinary, kArray}}
	prop(t, 20000, "an array of up to 40 comparable values; non-trivial when it has at least 4 elements that are pairwise comparable and isn't already sorted", func(c *C) {
		g := rapid.IntRange(0, len(groups)-1).Draw(c.T, "group")
		o := cmpOpts(3)
		o.kinds = []K{kInt, kString, kArray}
		o.width = 3
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		if rapid.IntRange(0, 4).Draw(c.T, "long") == 0 {
			n = rapid.IntRange(8, 40).Draw(c.T, "n2")
		}
		pool := []*V{}
		a := &V{K: kArray}
		for i := 0; i < n; i++ {
			if len(pool) > 0 && rapid.IntRange(0, 3).Draw(c.T, "dup") == 0 {
				a.A = append(a.A, rapid.SampledFrom(pool).Draw(c.T, "again"))
				continue
			}
			x := drawK(c.T, rapid.SampledFrom(groups[g]).Draw(c.T, "k"), o)
			if x.K == kInt && g == 2 && (x.I > 1<<53 || x.I < -(1<<53)) {
				x = vInt(x.I >> 11)
			}
			pool = append(pool, x)
			a.A = append(a.A, x)
		}
		arr := build(a, drawRouter(c.T)).(dgo.Array)
		before := model(arr)
		s := arr.Sort()
		checkArray(c, "the sorted array", arr, before.A)
		got := model(s).A
		if len(got) != n {
			c.Fatalf("sorting %s gives %s", a.str(), model(s).str())
		}
		// permutation
		used := make([]bool, n)
		for _, x := range got {
			found := false
			for i, y := range a.A {
				if !used[i] && sameOrdered(x, y) {
					used[i], found = true, true
					break
				}
			}
			if !found {
				c.Fatalf("sorting %s gives %s", a.str(), model(s).str())
			}
		}
		total, sorted := true, true
		for i := range a.A {
			for j := range a.A {
				_, ok, _ := refCmp(a.A[i], a.A[j])
				total = total && ok
			}
			if i > 0 {
				r, _, _ := refCmp(a.A[i-1], a.A[i])
				sorted = sorted && r <= 0
			}
		}
		if !total {
			c.Class("not totally ordered")
			if g == 10 {
				// values of the same kind are in order even though the kinds have no order between them
				for i := range got {
					for j := i + 1; j < n; j++ {
						if r, ok, _ := refCmp(got[i], got[j]); ok && r > 0 {
							c.Fatalf("sorting %s gives %s where %s comes before %s", a.str(), model(s).str(), got[i].str(), got[j].str())
						}
					}
				}
			}
			return
		}
		for i := 1; i < n; i++ {
			if r, _, _ := refCmp(got[i-1], got[i]); r > 0 {
				c.Fatalf("sorting %s gives %s where %s comes before %s", a.str(), model(s).str(), got[i-1].str(), got[i].str())
			}
		}
		if n >= 4 && !sorted {
			c.Class("group %d", g)
			c.NonTrivial(a.str())
		}
	})
}

func TestP07_SortInside(t *testing.T) {
	prop(t, 2000, "sorting a sorted array, and an array sorted after a change; non-trivial when it has at least 3 different elements", func(c *C) {
		n := rapid.IntRange(2, 12).Draw(c.T, "n")
		a := vf.MutableValues()
		for i := 0; i < n; i++ {
			a.Add(rapid.Int64Range(-20, 20).Draw(c.T, "i"))
		}
		s := a.Sort()
		if !s.Sort().Equals(s) {
			c.Fatalf("%s sorted twice is %s", s, s.Sort())
		}
		x := rapid.Int64Range(-20, 20).Draw(c.T, "x")
		a.Set(0, x)
		w := model(a)
		got := model(a.Sort())
		for i := 1; i < n; i++ {
			if got.A[i-1].I > got.A[i].I {
				c.Fatalf("sorting %s gives %s", w.str(), got.str())
			}
		}
		if len(uniq(w.A)) > 2 {
			c.NonTrivial(w.str())
		}
	})
}
