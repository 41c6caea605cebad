package props

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// drawRelated draws a value and one that is likely to be equal or nearly equal
func drawRelated(c *C, o vOpts) (*V, *V) {
	a := drawV(c.T, o)
	if rapid.IntRange(0, 7).Draw(c.T, "unrelated") == 0 {
		return a, drawV(c.T, o)
	}
	return a, drawNear(c.T, a, o)
}

func eqOpts() vOpts { return richOpts(4) }

func TestP01_Pairs(t *testing.T) {
	prop(t, 30000, "two values built from related models (an equal one, a reordered one, or one with a single difference), each through a random construction route; non-trivial when at least one is a collection or the two are equal", func(c *C) {
		a, b := drawRelated(c, eqOpts())
		if rapid.Bool().Draw(c.T, "zeros") {
			b = negateZeros(b)
		}
		want := refEq(a, b)
		va, vb := build(a, drawRouter(c.T)), build(b, drawRouter(c.T))
		if got := va.Equals(vb); got != want {
			c.Fatalf("%s.Equals(%s) is %v, expected %v", a.str(), b.str(), got, want)
		}
		if got := vb.Equals(va); got != want {
			c.Fatalf("%s.Equals(%s) is %v, expected %v (reverse)", b.str(), a.str(), got, want)
		}
		if want {
			c.Class("equal")
			if va.HashCode() != vb.HashCode() {
				c.Fatalf("%s and %s are equal but hash codes differ: %d %d", a.str(), b.str(), va.HashCode(), vb.HashCode())
			}
		} else {
			c.Class("different")
		}
		if !va.Equals(va) || va.HashCode() != va.HashCode() {
			c.Fatalf("%s is not equal to itself", a.str())
		}
		// nothing equals nil except nil
		if va.Equals(nil) != (a.K == kNil) {
			c.Fatalf("%s.Equals(nil) is %v", a.str(), va.Equals(nil))
		}
		if va.Equals(vf.Nil) != (a.K == kNil) || vf.Nil.Equals(va) != (a.K == kNil) {
			c.Fatalf("%s compared with Nil", a.str())
		}
		if want || a.depth() > 1 {
			c.NonTrivial(a.str() + " ~ " + b.str())
		}
	})
}

// negateZeros returns a copy where the sign of each float that is zero is changed, which makes no difference
func negateZeros(v *V) *V {
	c := v.clone()
	var walk func(v *V)
	walk = func(v *V) {
		if v.K == kFloat && v.F == 0 {
			v.F = -v.F
		}
		for _, vs := range [][]*V{v.A, v.MK, v.MV} {
			for _, e := range vs {
				walk(e)
			}
		}
	}
	walk(c)
	return c
}

func TestP01_Triples(t *testing.T) {
	prop(t, 15000, "three mutually related values; non-trivial when at least one pair is equal", func(c *C) {
		a, b := drawRelated(c, richOpts(3))
		d := drawNear(c.T, b, richOpts(3))
		vs := []dgo.Value{build(a, drawRouter(c.T)), build(b, drawRouter(c.T)), build(d, drawRouter(c.T))}
		var eq [3][3]bool
		n := 0
		for i := range vs {
			for j := range vs {
				eq[i][j] = vs[i].Equals(vs[j])
				if i != j && eq[i][j] {
					n++
					if vs[i].HashCode() != vs[j].HashCode() {
						c.Fatalf("equal values with different hash: %s, %s", vs[i], vs[j])
					}
				}
			}
		}
		for i := range vs {
			for j := range vs {
				for k := range vs {
					if eq[i][j] && eq[j][k] && !eq[i][k] {
						c.Fatalf("not transitive: %s %s %s (%d %d %d)", a.str(), b.str(), d.str(), i, j, k)
					}
				}
			}
		}
		if n > 0 {
			c.NonTrivial(a.str() + b.str() + d.str())
		}
	})
}

// Equality is not affected by freezing or copying and hash codes follow the content when a collection is changed.
func TestP01_FreezeAndChange(t *testing.T) {
	prop(t, 15000, "a mutable collection hashed, then changed, frozen or copied, compared with one built directly; non-trivial when it was changed", func(c *C) {
		o := richOpts(3)
		a := drawK(c.T, rapid.SampledFrom([]K{kArray, kMap}).Draw(c.T, "k"), o)
		va := build(a, drawRouter(c.T))
		h := va.HashCode()
		fc := va.(dgo.Freezable).FrozenCopy()
		tc := va.(dgo.Freezable).ThawedCopy()
		for _, x := range []dgo.Value{fc, tc} {
			if !x.Equals(va) || !va.Equals(x) || x.HashCode() != h {
				c.Fatalf("copy of %s is not equal to it or hash differs", a.str())
			}
		}
		m := a.clone()
		changed := drawV(c.T, o)
		if m.K == kArray {
			_ = tc.HashCode()
			arr := tc.(dgo.Array)
			if len(m.A) > 0 && rapid.Bool().Draw(c.T, "set") {
				i := rapid.IntRange(0, len(m.A)-1).Draw(c.T, "i")
				arr.Set(i, build(changed, drawRouter(c.T)))
				m.A[i] = changed
			} else {
				arr.Add(build(changed, drawRouter(c.T)))
				m.A = append(m.A, changed)
			}
		} else {
			k := drawKey(c.T, o)
			tc.(dgo.Map).Put(build(k, drawRouter(c.T)), build(changed, drawRouter(c.T)))
			m.put(k, changed)
		}
		want := build(m, drawRouter(c.T))
		if !tc.Equals(want) || !want.Equals(tc) || tc.HashCode() != want.HashCode() {
			c.Fatalf("changed %s is %s, hash or equality differs from %s", a.str(), tc, m.str())
		}
		if refEq(a, m) != tc.Equals(va) {
			c.Fatalf("changed %s -> %s compares %v with original", a.str(), m.str(), tc.Equals(va))
		}
		c.NonTrivial(m.str())
	})
}

// A value equals the native go value it was created from
func TestP01_Native(t *testing.T) {
	prop(t, 15000, "a native go value compared with the dgo value of a related one; non-trivial when equal", func(c *C) {
		a, b := drawRelated(c, vOpts{kinds: []K{kNil, kBool, kInt, kFloat, kString, kBinary, kTime, kRegexp, kArray, kMap}, keys: []K{kString}, depth: 3, width: 3, wideStr: true})
		native := goNative(b)
		v := build(a, drawRouter(c.T))
		want := refEq(a, b)
		if got := v.Equals(native); got != want {
			c.Fatalf("%s.Equals(%T %v) is %v, expected %v", a.str(), native, native, got, want)
		}
		if want {
			c.NonTrivial(a.str())
		}
	})
}

// goNative turns the model into plain go values
func goNative(v *V) interface{} {
	switch v.K {
	case kBool:
		return v.B
	case kInt:
		return v.I
	case kFloat:
		return v.F
	case kString:
		return v.S
	case kBinary:
		return v.Y
	case kTime:
		return v.T
	case kRegexp:
		return regexp.MustCompile(v.S)
	case kArray:
		s := make([]interface{}, len(v.A))
		for i, x := range v.A {
			s[i] = goNative(x)
		}
		return s
	case kMap:
		m := map[string]interface{}{}
		for i, x := range v.MK {
			m[x.S] = goNative(v.MV[i])
		}
		return m
	}
	return nil
}

func TestP01_IntegerWidths(t *testing.T) {
	prop(t, 5000, "one integer in every go width that can hold it; non-trivial when outside of the int8 range", func(c *C) {
		i := genInt().Draw(c.T, "i")
		j := i
		if rapid.Bool().Draw(c.T, "other") {
			j = genInt().Draw(c.T, "j")
		}
		v := vf.Integer(i)
		forms := []interface{}{j}
		if int64(int(j)) == j {
			forms = append(forms, int(j))
		}
		if int64(int32(j)) == j {
			forms = append(forms, int32(j))
		}
		if int64(int16(j)) == j {
			forms = append(forms, int16(j))
		}
		if int64(int8(j)) == j {
			forms = append(forms, int8(j))
		}
		if j >= 0 {
			forms = append(forms, uint64(j), uint(j))
			if j <= math.MaxUint32 {
				forms = append(forms, uint32(j))
			}
			if j <= math.MaxUint16 {
				forms = append(forms, uint16(j))
			}
			if j <= math.MaxUint8 {
				forms = append(forms, uint8(j))
			}
		}
		for _, f := range forms {
			if v.Equals(f) != (i == j) {
				c.Fatalf("%d.Equals(%T %v) is %v", i, f, f, v.Equals(f))
			}
			x := vf.Value(f)
			if x.Equals(v) != (i == j) || v.Equals(x) != (i == j) || i == j && x.HashCode() != v.HashCode() {
				c.Fatalf("%d and vf.Value(%T %v)", i, f, f)
			}
		}
		if v.Equals(float64(j)) || vf.Float(float64(j)).Equals(v) || v.Equals(fmt.Sprint(j)) {
			c.Fatalf("%d equals a float or a string", i)
		}
		if i > 127 || i < -128 {
			c.NonTrivial(fmt.Sprint(i, j))
		}
	})
}

type p01Native struct {
	A int
	B string
	C []string
	D map[string]int
	T time.Time
}

func TestP01_ErrorsAndNatives(t *testing.T) {
	prop(t, 5000, "errors, native structs and map entries built from related parts; non-trivial when equal", func(c *C) {
		mk := func() (string, func() dgo.Value) {
			s := rapid.SampledFrom([]string{"a", "b", "some error"}).Draw(c.T, "s")
			i := rapid.IntRange(0, 2).Draw(c.T, "i")
			n := rapid.IntRange(0, 2).Draw(c.T, "n")
			switch rapid.IntRange(0, 4).Draw(c.T, "what") {
			case 0:
				return "err " + s, func() dgo.Value { return vf.Value(errors.New(s)) }
			case 1:
				return fmt.Sprint("native ", s, i, n), func() dgo.Value {
					return vf.Value(p01Native{A: i, B: s, C: make([]string, n), D: map[string]int{"x": n}, T: timePool[i]})
				}
			case 2:
				return fmt.Sprint("ptr ", s, i, n), func() dgo.Value {
					return vf.Value(&p01Native{A: i, B: s, C: make([]string, n), D: map[string]int{"x": n}, T: timePool[i]})
				}
			case 3:
				return fmt.Sprint("entry ", s, i), func() dgo.Value { return vf.MapEntry(s, vf.MutableValues(i)) }
			}
			return fmt.Sprint("array ", s, i), func() dgo.Value {
				return vf.MutableValues(errors.New(s), &p01Native{A: i, B: s}, vf.MapEntry(s, i))
			}
		}
		ka, fa := mk()
		kb, fb := ka, fa
		if rapid.Bool().Draw(c.T, "other") {
			kb, fb = mk()
		}
		a, b := fa(), fb()
		if got := a.Equals(b); got != (ka == kb) {
			c.Fatalf("%s.Equals(%s) is %v", ka, kb, got)
		}
		if got := b.Equals(a); got != (ka == kb) {
			c.Fatalf("%s.Equals(%s) is %v", kb, ka, got)
		}
		if ka == kb {
			if a.HashCode() != b.HashCode() {
				c.Fatalf("%s: hash codes of equal values differ", ka)
			}
			c.NonTrivial(ka)
		}
	})
}
