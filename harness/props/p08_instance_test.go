package props

import (
	"math"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"pgregory.net/rapid"
)

func TestP08_Instance(t *testing.T) {
	prop(t, 60000, "a type of depth up to 3 and a value that is a member, a near-member or unrelated; non-trivial when the type is a combination or a collection type", func(c *C) {
		tt := drawT(c.T, tOpts{depth: 3, excl: []TK{tMeta, tFunc}, wideStrs: true})
		v := drawCandidate(c.T, tt)
		if nonASCIISized(tt, v) {
			c.Class("skipped: non ascii string with a size constraint")
			return
		}
		want := member(tt, v)
		if want {
			c.Class("member")
		} else {
			c.Class("not member")
		}
		ty, val := tt.build(), build(v, drawRouter(c.T))
		if got := ty.Instance(val); got != want {
			c.Fatalf("type %s (%s), value %s: Instance=%v want %v", ty, tt.str(), v.str(), got, want)
		}
		c.typedInstance(ty, v, want)
		if tt.K >= tArray {
			c.Class("type " + tkNames[tt.K])
			c.NonTrivial(tt.str() + " <- " + v.str())
		}
	})
}

// typeAround draws a type that is likely to accept the value, or just not
func typeAround(t *rapid.T, m *V, depth int) *T {
	op := 3
	if depth > 1 {
		op = rapid.IntRange(0, 8).Draw(t, "around")
	}
	switch op {
	case 0:
		return &T{K: tNot, E: []*T{typeAround(t, m, 1)}}
	case 1, 2:
		es := []*T{typeAround(t, m, depth-1), drawT(t, tOpts{depth: 1, excl: []TK{tMeta, tFunc}, wideStrs: true})}
		if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			for n := rapid.IntRange(1, 5).Draw(t, "more"); n > 0; n-- {
				es = append(es, typeAround(t, m, 1))
			}
		}
		es = rapid.Permutation(es).Draw(t, "order")
		return &T{K: rapid.SampledFrom([]TK{tAnyOf, tAllOf, tOneOf}).Draw(t, "op"), E: es}
	}
	off := func() int64 { return int64(rapid.IntRange(-1, 1).Draw(t, "off")) }
	size := func(n int64) (int64, int64) {
		a, b := n-1+off(), n+1+off()
		if a < 0 {
			a = 0
		}
		switch rapid.IntRange(0, 5).Draw(t, "open") {
		case 0:
			b = unbounded
		case 1:
			a = 0
		}
		return a, b
	}
	form := rapid.IntRange(0, 2).Draw(t, "form")
	if form == 0 && m.K != kArray && m.K != kMap && m.K != kSensitive {
		return tExactOf(m)
	}
	switch m.K {
	case kNil:
		return tk(tNil)
	case kBool:
		return tk(tBool)
	case kInt:
		if form == 1 && m.I > math.MinInt64+9 && m.I < math.MaxInt64-9 {
			a, b := m.I-1+off(), m.I+1+off()
			return tIR(a, b, a == b || rapid.Bool().Draw(t, "incl"))
		}
		return tk(tInt)
	case kFloat:
		if form == 1 && math.Abs(m.F) < 1e300 {
			a, b := m.F-1+float64(off()), m.F+1+float64(off())
			if a > b { // due to rounding
				a, b = b, a
			}
			return &T{K: tFloatRange, FMin: a, FMax: b, Incl: a == b || rapid.Bool().Draw(t, "incl")}
		}
		return tk(tFloat)
	case kString:
		switch form {
		case 1:
			a, b := size(int64(len(m.S)))
			return &T{K: tStringSized, Min: a, Max: b}
		case 2:
			switch rapid.IntRange(0, 3).Draw(t, "ci") {
			case 0, 1:
				return &T{K: tCi, S: m.S}
			case 2:
				return &T{K: tCi, S: foldedOther(m.S)}
			}
		}
		return tk(tString)
	case kBinary:
		if form == 1 {
			a, b := size(int64(len(m.Y)))
			return &T{K: tBinarySized, Min: a, Max: b}
		}
		return tk(tBinary)
	case kTime:
		return tk(tTime)
	case kRegexp:
		return tk(tRegexp)
	case kArray:
		if depth <= 1 {
			return tExactOf(m)
		}
		if form == 1 && len(m.A) < 9 {
			tt := &T{K: tTuple}
			for _, e := range m.A {
				tt.E = append(tt.E, typeAround(t, e, depth-1))
			}
			if len(tt.E) > 0 && rapid.Bool().Draw(t, "variadic") {
				tt.K = tVarTuple
			}
			return tt
		}
		a, b := size(int64(len(m.A)))
		e := tk(tAny)
		if len(m.A) > 0 {
			e = typeAround(t, m.A[0], depth-1)
			if rapid.IntRange(0, 5).Draw(t, "any") == 0 {
				e = tk(tAny)
			}
		}
		return tArr(e, a, b)
	case kMap:
		if depth <= 1 {
			return tExactOf(m)
		}
		if form == 1 && len(m.MK) < 9 {
			tt := &T{K: tStruct, Add: rapid.Bool().Draw(t, "additional")}
			for i, k := range m.MK {
				if k.K == kString || k.K == kInt {
					tt.Keys = append(tt.Keys, k)
					tt.E = append(tt.E, typeAround(t, m.MV[i], depth-1))
					tt.Req = append(tt.Req, rapid.Bool().Draw(t, "required"))
				}
			}
			return tt
		}
		a, b := size(int64(len(m.MK)))
		k, e := tk(tAny), tk(tAny)
		if len(m.MK) > 0 {
			k, e = typeAround(t, m.MK[0], 1), typeAround(t, m.MV[0], depth-1)
			switch rapid.IntRange(0, 5).Draw(t, "any") {
			case 0:
				k = tk(tAny)
			case 1:
				e = tk(tAny)
			case 2:
				k, e = tk(tAny), tk(tAny)
			}
		}
		return &T{K: tMap, E: []*T{k, e}, Min: a, Max: b}
	}
	return tk(tAny)
}

// TestP08_Native checks native Go scalars
func TestP08_Native(t *testing.T) {
	prop(t, 15000, "a Go scalar of a random type and a type that is likely to accept it, or just not; non-trivial when the type is a combination", func(c *C) {
		s := drawGoSort(c.T, 1)
		x, m := s.draw(c.T)
		if m.has(func(x *V) bool { return x.K == kString && strings.HasPrefix(x.S, "<error ") }) || s.rt.Kind() == reflect.Ptr && m.K != kRegexp {
			c.Class("skipped: an error or a pointer")
			return
		}
		tt := typeAround(c.T, m, 3)
		if nonASCIISized(tt, m) {
			c.Class("skipped: non ascii string with a size constraint")
			return
		}
		want := member(tt, m)
		ty := tt.build()
		xi := x.Interface()
		if m.K == kNil {
			xi = nil
		}
		c.Doing("%s <- %s %s", tt.str(), s.rt, m.str())
		if got := ty.Instance(xi); got != want {
			c.Fatalf("type %s (%s), native value %T %s: Instance=%v want %v", ty, tt.str(), xi, m.str(), got, want)
		}
		c.typedInstance(ty, m, want)
		c.Class("%s member %v", s.rt.Kind(), want)
		if tt.K >= tArray {
			c.NonTrivial(tt.str() + " <- " + s.rt.String() + m.str())
		}
	})
}

// TestP08_Around checks values that are just inside or just outside
func TestP08_Around(t *testing.T) {
	prop(t, 15000, "a value and a type that is derived from it such that it accepts it, or just not; non-trivial when the value is composite", func(c *C) {
		m := drawV(c.T, vOpts{kinds: richKinds, keys: []K{kString, kString, kInt, kFloat, kBool}, depth: 3, width: 3, wideStr: true})
		tt := typeAround(c.T, m, 4)
		if nonASCIISized(tt, m) {
			c.Class("skipped: non ascii string with a size constraint")
			return
		}
		want := member(tt, m)
		ty, v := tt.build(), build(m, drawRouter(c.T))
		if got := ty.Instance(v); got != want {
			c.Fatalf("type %s (%s), value %s: Instance=%v want %v", ty, tt.str(), m.str(), got, want)
		}
		c.typedInstance(ty, m, want)
		c.Class("%s member %v", kNames[m.K], want)
		if m.nodes() > 1 {
			c.NonTrivial(tt.str() + " <- " + m.str())
		}
	})
}

// sizeOf returns what the sizes of a type apply to
func sizeOf(m *V) int {
	switch m.K {
	case kString:
		return len(m.S)
	case kBinary:
		return len(m.Y)
	case kArray:
		return len(m.A)
	case kMap:
		return len(m.MK)
	}
	return -1
}

// TestP08_Bounds checks the bounds that types give for their instances
func TestP08_Bounds(t *testing.T) {
	prop(t, 20000, "a type that has bounds, the bounds it gives, and members; non-trivial when a member is at a bound", func(c *C) {
		tt := drawTK(c.T, rapid.SampledFrom([]TK{tIntRange, tFloatRange, tStringSized, tBinarySized, tExact, tArray, tTuple, tVarTuple, tMap, tStruct, tStruct, tString, tBinary, tPattern}).Draw(c.T, "kind"),
			tOpts{depth: 3, excl: []TK{tMeta, tFunc}})
		ty := tt.build()
		m := drawMember(c.T, tt, 3)
		if m == nil {
			c.Class("no member found")
			return
		}
		switch b := ty.(type) {
		case dgo.IntegerType:
			if b.Min() > m.I || b.Max() < m.I || b.Max() == m.I && !b.Inclusive() {
				c.Fatalf("%s is an instance of %s, which has the bounds %d, %d, %v", m.str(), ty, b.Min(), b.Max(), b.Inclusive())
			}
			if tt.K == tIntRange && (b.Min() != tt.Min || b.Max() != tt.Max || b.Inclusive() != tt.Incl) {
				c.Fatalf("%s has the bounds %d, %d, %v", tt.str(), b.Min(), b.Max(), b.Inclusive())
			}
		case dgo.FloatType:
			if b.Min() > m.F || b.Max() < m.F || b.Max() == m.F && !b.Inclusive() {
				c.Fatalf("%s is an instance of %s, which has the bounds %v, %v, %v", m.str(), ty, b.Min(), b.Max(), b.Inclusive())
			}
			if tt.K == tFloatRange && (b.Min() != tt.FMin || b.Max() != tt.FMax || b.Inclusive() != tt.Incl) {
				c.Fatalf("%s has the bounds %v, %v, %v", tt.str(), b.Min(), b.Max(), b.Inclusive())
			}
		case dgo.SizedType:
			n := sizeOf(m)
			if b.Min() > n || b.Max() < n {
				c.Fatalf("%s is an instance of %s, which has the bounds %d, %d", m.str(), ty, b.Min(), b.Max())
			}
			min, max := 0, math.MaxInt64
			switch tt.K {
			case tStringSized, tBinarySized, tArray, tMap:
				min, max = int(tt.Min), int(tt.Max)
			case tExact:
				min, max = n, n
			case tTuple:
				min, max = len(tt.E), len(tt.E)
			case tVarTuple:
				min = len(tt.E) - 1
			case tStruct:
				for _, r := range tt.Req {
					if r {
						min++
					}
				}
				if !tt.Add {
					max = len(tt.Keys)
				}
			}
			if max == unbounded {
				max = math.MaxInt64
			}
			if b.Min() != min || b.Max() != max || tt.K != tVarTuple && b.Unbounded() != (min == 0 && max == math.MaxInt64) {
				c.Fatalf("%s (%s) has the bounds %d, %d, unbounded %v, expected %d, %d", ty, tt.str(), b.Min(), b.Max(), b.Unbounded(), min, max)
			}
			if n == min || n == max {
				c.NonTrivial(tt.str() + " " + m.str())
			}
		default:
			c.Class("no bounds: %s", tkNames[tt.K])
			return
		}
		c.Class(tkNames[tt.K])
		if m.K == kInt || m.K == kFloat {
			c.NonTrivial(tt.str() + " " + m.str())
		}
	})
}

// isInstance asks the typed IsInstance method of the type, if it has one for values of the kind of m
func isInstance(ty dgo.Type, m *V) (got, ok bool) {
	switch m.K {
	case kBool:
		if ty, ok := ty.(interface{ IsInstance(bool) bool }); ok {
			return ty.IsInstance(m.B), true
		}
	case kInt:
		if ty, ok := ty.(interface{ IsInstance(int64) bool }); ok {
			return ty.IsInstance(m.I), true
		}
	case kFloat:
		if ty, ok := ty.(interface{ IsInstance(float64) bool }); ok {
			return ty.IsInstance(m.F), true
		}
	case kString:
		if ty, ok := ty.(interface{ IsInstance(string) bool }); ok {
			return ty.IsInstance(m.S), true
		}
	case kBinary:
		if ty, ok := ty.(interface{ IsInstance([]byte) bool }); ok {
			return ty.IsInstance(m.Y), true
		}
	case kTime:
		if ty, ok := ty.(interface{ IsInstance(time.Time) bool }); ok {
			return ty.IsInstance(m.T), true
		}
	case kRegexp:
		if ty, ok := ty.(interface{ IsInstance(*regexp.Regexp) bool }); ok {
			return ty.IsInstance(regexp.MustCompile(m.S)), true
		}
	}
	return false, false
}

func (c *C) typedInstance(ty dgo.Type, m *V, want bool) {
	if got, ok := isInstance(ty, m); ok && got != want {
		c.Fatalf("type %s, value %s: IsInstance=%v but Instance is and should be %v", ty, m.str(), got, want)
	}
}
