package props

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

type (
	ntNamer interface{ Name() string }

	ntPoint struct {
		X int
		y string
	}

	ntPoint2 struct {
		X int
		y string
	}

	ntLabel struct {
		Text string
		n    int
	}

	ntNode struct {
		V    interface{}
		next *ntNode
		Kids []*ntNode
		m    map[string]*int
		c    chan int
		a    [2]float64
		u    uintptr
		f    func()
		ok   bool
		e    error
		nums []uint8
	}

	ntNum  int
	ntStr  string
	ntNums []int
)

func (l ntLabel) String() string    { return l.Text }
func (p *ntPoint) Name() string     { return p.y }
func (s ntStr) Name() string        { return string(s) }
func (n ntNum) String() string      { return fmt.Sprintf("number %d", int(n)) }
func (n *ntNode) Name() string      { return fmt.Sprint(n.V) }
func (n *ntNode) String() string    { return "node " + fmt.Sprint(n.ok) }
func (n *ntNode) SetNext(x *ntNode) { n.next = x }

var ntNamerType = reflect.TypeOf((*ntNamer)(nil)).Elem()
var ntAnyType = reflect.TypeOf((*interface{})(nil)).Elem()
var ntStringerType = reflect.TypeOf((*fmt.Stringer)(nil)).Elem()

var ntChans = []chan int{make(chan int), make(chan int), nil}

// ntSpec describes a go value. Each call of make gives a new value of the same content.
type ntSpec struct {
	kind int
	ns   []int
	kids []*ntSpec
}

var ntKinds = []string{"point", "*point", "point2", "label", "*label", "node", "*node", "ring", "num", "str", "array", "chan", "complex", "uintptr", "empty", "bytes", "local1", "local2"}

func drawNative(t *rapid.T, depth int) *ntSpec {
	s := &ntSpec{kind: rapid.IntRange(0, len(ntKinds)-1).Draw(t, "kind")}
	if depth > 1 {
		s.kind = rapid.SampledFrom([]int{5, 6, 6}).Draw(t, "node")
	}
	for i := 0; i < 8; i++ {
		s.ns = append(s.ns, rapid.IntRange(0, 2).Draw(t, "n"))
	}
	if depth > 0 {
		for i := rapid.IntRange(0, 2).Draw(t, "kids"); i > 0; i-- {
			s.kids = append(s.kids, drawNative(t, depth-1))
		}
	}
	return s
}

// ntLocal1 and ntLocal2 return values of different types with the same name
func ntLocal1(n int) interface{} {
	type local struct{ n int }
	return local{n}
}

func ntLocal2(n int) interface{} {
	type local struct{ n int }
	return local{n}
}

// near returns a spec where one number differs
func (s *ntSpec) near(t *rapid.T) *ntSpec {
	c := *s
	c.ns = append([]int{}, s.ns...)
	c.kids = append([]*ntSpec{}, s.kids...)
	if len(c.kids) > 0 && rapid.Bool().Draw(t, "nearKid") {
		i := rapid.IntRange(0, len(c.kids)-1).Draw(t, "kid")
		c.kids[i] = c.kids[i].near(t)
		return &c
	}
	if rapid.IntRange(0, 3).Draw(t, "nearKind") == 0 {
		c.kind = rapid.IntRange(0, len(ntKinds)-1).Draw(t, "kind")
		return &c
	}
	i := rapid.IntRange(0, len(c.ns)-1).Draw(t, "at")
	c.ns[i] = (c.ns[i] + rapid.IntRange(1, 2).Draw(t, "by")) % 3
	return &c
}

func (s *ntSpec) node() *ntNode {
	n := &ntNode{ok: s.ns[0] == 1, u: uintptr(s.ns[1]), c: ntChans[s.ns[2]], a: [2]float64{float64(s.ns[3]) / 2, float64(s.ns[4])}}
	switch s.ns[5] {
	case 1:
		one := s.ns[6]
		n.m = map[string]*int{"a": &one, "b": nil}
	case 2:
		n.nums = []uint8{1, uint8(s.ns[6])}
		n.e = fmt.Errorf("error %d", s.ns[6])
	}
	switch s.ns[7] {
	case 1:
		n.V = []interface{}{s.ns[6], "x", map[string]interface{}{"y": s.ns[5]}}
	case 2:
		i := s.ns[6]
		n.V = &i
	}
	for i, k := range s.kids {
		switch kv := k.make().(type) {
		case *ntNode:
			if i == 0 {
				n.next = kv
			}
			n.Kids = append(n.Kids, kv)
		default:
			n.V = kv
		}
	}
	return n
}

func (s *ntSpec) make() interface{} {
	switch ntKinds[s.kind] {
	case "point":
		return ntPoint{s.ns[0], fmt.Sprint(s.ns[1])}
	case "*point":
		return &ntPoint{s.ns[0], fmt.Sprint(s.ns[1])}
	case "point2":
		return ntPoint2{s.ns[0], fmt.Sprint(s.ns[1])}
	case "label":
		return ntLabel{fmt.Sprint(s.ns[0]), s.ns[1]}
	case "*label":
		return &ntLabel{fmt.Sprint(s.ns[0]), s.ns[1]}
	case "node":
		return *s.node()
	case "*node":
		return s.node()
	case "ring":
		n := s.node()
		last := n
		for i := 0; i < s.ns[6]; i++ {
			last.next = &ntNode{V: i}
			last = last.next
		}
		last.SetNext(n)
		n.Kids = append(n.Kids, n, last)
		return n
	case "num":
		return ntNum(s.ns[0])
	case "str":
		return ntStr(fmt.Sprint(s.ns[0]))
	case "array":
		return [2]int{s.ns[0], s.ns[1]}
	case "chan":
		return ntChans[s.ns[0]%2]
	case "complex":
		return complex(float64(s.ns[0]), float64(s.ns[1]))
	case "uintptr":
		return uintptr(s.ns[0])
	case "local1":
		return ntLocal1(s.ns[0])
	case "local2":
		return ntLocal2(s.ns[0])
	case "bytes":
		return [3]byte{byte(s.ns[0]), 1, byte(s.ns[1])}
	}
	return struct{}{}
}

func (s *ntSpec) str() string {
	sb := &strings.Builder{}
	fmt.Fprintf(sb, "%s%v(", ntKinds[s.kind], s.ns)
	for _, k := range s.kids {
		sb.WriteString(k.str())
	}
	return sb.String() + ")"
}

// sameNative tells if two go values are the same: the pointer, or what isn't a pointer
func sameNative(a, b interface{}) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Kind() == reflect.Ptr {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func drawNativePair(t *rapid.T) (a, b *ntSpec) {
	a = drawNative(t, rapid.IntRange(0, 3).Draw(t, "depth"))
	switch rapid.IntRange(0, 4).Draw(t, "pair") {
	case 0, 1:
		b = a
	case 2, 3:
		b = a.near(t)
	default:
		b = drawNative(t, rapid.IntRange(0, 2).Draw(t, "depth"))
	}
	return
}

func TestP30_Values(t *testing.T) {
	prop(t, 20000, "two go values that have no counterpart, often of equal or nearly equal content; non-trivial when they are equal but not identical or differ in one number only", func(c *C) {
		sa, sb := drawNativePair(c.T)
		a, b := sa.make(), sb.make()
		what := fmt.Sprintf("%s and %s", sa.str(), sb.str())
		c.Doing("%s", what)
		va, ok := vf.Value(a).(dgo.Native)
		vb, ok2 := vf.Value(b).(dgo.Native)
		if !ok || !ok2 {
			c.Fatalf("%s: %T isn't a native", what, vf.Value(a))
		}
		if !sameNative(va.GoValue(), a) {
			c.Fatalf("%s: the first gives back %#v", what, va.GoValue())
		}
		ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
		eq := ta == tb && reflect.DeepEqual(a, b)
		for i, got := range []bool{va.Equals(vb), vb.Equals(va), va.Equals(b), vb.Equals(a)} {
			if got != eq {
				c.Fatalf("%s: equal %d is %v", what, i, got)
			}
		}
		if !va.Equals(va) || !va.Equals(a) || va.Equals(nil) || va.Equals(vf.Nil) || va.Equals(fmt.Sprint(a)) || va.Equals(vf.String("x")) || vf.String("x").Equals(va) {
			c.Fatalf("%s: the first isn't equal to itself only", what)
		}
		h := va.HashCode()
		if h != va.HashCode() || eq && h != vb.HashCode() {
			c.Fatalf("%s: equal but with different hashes, %d and %d", what, h, vb.HashCode())
		}
		if st, ok := a.(fmt.Stringer); ok {
			if va.String() != st.String() {
				c.Fatalf("%s: the first is printed as %s", what, va)
			}
		} else if ta.Kind() != reflect.String && !strings.Contains(va.String(), ta.String()) {
			c.Fatalf("%s: the first is printed as %s", what, va)
		}
		// in collections, which find it by its content
		arr := vf.MutableValues("x", va, 3, vb)
		wantIdx := 1
		if !eq {
			wantIdx = 3
		}
		if i := arr.IndexOf(b); i != wantIdx {
			c.Fatalf("%s: found at %d and not at %d", what, i, wantIdx)
		}
		if n := arr.Unique().Len(); n != wantIdx/2+3 {
			c.Fatalf("%s: %d unique values", what, n)
		}
		if got := arr.Equals(vf.MutableValues("x", a, 3, a)); got != eq {
			c.Fatalf("%s: in arrays, equal is %v", what, got)
		}
		mt := reflect.MakeMap(reflect.MapOf(ntAnyType, reflect.TypeOf("")))
		if hashable(a) && hashable(b) {
			mt.SetMapIndex(reflect.ValueOf(a), reflect.ValueOf("first"))
			m := vf.FromReflectedMap(mt, rapid.Bool().Draw(c.T, "frozen")).(dgo.Map)
			if v := m.Get(va); v == nil || !v.Equals("first") {
				c.Fatalf("%s: the first isn't found in a map with that key", what)
			}
			if v := m.Get(vb); (v != nil) != eq {
				c.Fatalf("%s: the second is found with the first as key: %v", what, v)
			}
		}
		vm := vf.MutableMap("k", va)
		if v := vm.Get("k"); v != nil && !v.Equals(a) {
			c.Fatalf("%s: stored as %s", what, v)
		}
		c.Class("%s", ntKinds[sa.kind])
		if eq {
			c.Class("equal")
		}
		if sa == sb || !eq && ta == tb {
			c.NonTrivial(what)
		}
	})
}

func hashable(x interface{}) bool {
	ok := true
	if catch(func() { _ = map[interface{}]int{x: 1} }) != nil {
		ok = false
	}
	return ok
}

func TestP30_Types(t *testing.T) {
	prop(t, 20000, "two go values that have no counterpart, and their types; non-trivial when the types differ", func(c *C) {
		sa, sb := drawNativePair(c.T)
		a, b := sa.make(), sb.make()
		what := fmt.Sprintf("%s and %s", sa.str(), sb.str())
		va, vb := vf.Value(a), vf.Value(b)
		ra, rb := reflect.TypeOf(a), reflect.TypeOf(b)
		ta, tb := va.Type(), vb.Type()
		nt, ok := ta.(dgo.NativeType)
		if !ok || nt.GoType() != ra || ta.ReflectType() != ra {
			c.Fatalf("%s: the first has the type %s", what, ta)
		}
		if !strings.Contains(ta.String(), ra.String()) {
			c.Fatalf("%s: the type of the first is printed as %s", what, ta)
		}
		same := ra == rb
		if ta.Equals(tb) != same || tb.Equals(ta) != same || same && ta.HashCode() != tb.HashCode() || ta.HashCode() != ta.HashCode() || !ta.Equals(ta) || ta.Equals(typ.Native) || typ.Native.Equals(ta) || !typ.Native.Equals(typ.Native) {
			c.Fatalf("%s: types %s and %s: equal is %v", what, ta, tb, ta.Equals(tb))
		}
		_ = typ.Native.HashCode()
		fits := rb.AssignableTo(ra)
		if ta.Instance(vb) != fits || ta.Instance(b) != fits || !ta.Instance(va) || !ta.Instance(a) {
			c.Fatalf("%s: %s accepts the second: %v", what, ta, ta.Instance(vb))
		}
		if ta.Assignable(tb) != fits || !ta.Assignable(ta) || !typ.Native.Assignable(ta) || ta.Assignable(typ.Native) || ta.Assignable(typ.Any) || !typ.Any.Assignable(ta) || !typ.Native.Assignable(typ.Native) {
			c.Fatalf("%s: %s is assignable from %s: %v", what, ta, tb, ta.Assignable(tb))
		}
		for _, v := range []interface{}{nil, vf.Nil, vf.Integer(1), vf.String("a"), vf.Values(1), vf.Map("a", 1), typ.Native, ta, vf.Binary([]byte{1}, true)} {
			if ta.Instance(v) || v != nil && typ.Native.Instance(v) {
				c.Fatalf("%s or native accepts %v", ta, v)
			}
		}
		if !typ.Native.Instance(va) || !typ.Any.Instance(va) || !tf.Not(typ.String).Instance(va) || !ta.Type().Instance(ta) {
			c.Fatalf("%s: the first isn't an instance of native", what)
		}
		for _, k := range []dgo.Type{typ.String, typ.Integer, typ.Float, typ.Boolean, typ.Nil, typ.Array, typ.Map, typ.Binary, typ.Time, typ.Regexp, typ.Function, typ.Sensitive} {
			if k.Instance(va) || k.Assignable(ta) || ta.Assignable(k) {
				c.Fatalf("%s: %s accepts the first, or its type %s", what, k, ta)
			}
		}
		// types of go interfaces
		for _, it := range []reflect.Type{ntNamerType, ntStringerType} {
			ti := tf.FromReflected(it)
			if want := ra.AssignableTo(it); ti.Instance(va) != want || ti.Instance(a) != want || ti.Assignable(ta) != want {
				c.Fatalf("%s: %s accepts the first: %v", what, ti, ti.Instance(va))
			}
			if ta.Assignable(ti) {
				c.Fatalf("%s is assignable from %s", ta, ti)
			}
		}
		// combinations
		if u := tf.AnyOf(typ.String, ta); u.Instance(vb) != fits || !u.Instance(va) || !u.Instance("a") {
			c.Fatalf("%s: %s accepts the second: %v", what, u, u.Instance(vb))
		}
		if at := tf.Array(ta); at.Instance(vf.MutableValues(va, vb)) != fits || !at.Instance(vf.MutableValues(va, va)) {
			c.Fatalf("%s: %s accepts both: %v", what, at, !fits)
		}
		// types of go types, with pointers that may be nil
		switch ra.Kind() {
		case reflect.Struct, reflect.Ptr, reflect.Chan, reflect.Complex128, reflect.Uintptr:
			ft := tf.FromReflected(ra)
			if !ft.Instance(va) || ft.Instance(vb) != fits || ft.Instance(vf.Nil) != (ra.Kind() == reflect.Ptr) || !ft.Assignable(ta) || ft.Instance(vf.Integer(1)) {
				c.Fatalf("%s: the type of the go type %s is %s", what, ra, ft)
			}
			if ra.Kind() != reflect.Ptr && !ft.Equals(ta) {
				c.Fatalf("%s: the type of the go type %s is %s", what, ra, ft)
			}
		}
		c.Class("%s", ntKinds[sa.kind])
		if !same {
			c.NonTrivial(what)
		}
	})
}

func TestP30_Write(t *testing.T) {
	prop(t, 15000, "a go value that has no counterpart, written to go variables and passed to a go function; non-trivial for pointers and interfaces", func(c *C) {
		sa := drawNative(c.T, rapid.IntRange(0, 2).Draw(c.T, "depth"))
		a := sa.make()
		va := vf.Value(a)
		ra := reflect.TypeOf(a)
		how := rapid.SampledFrom([]string{"variable", "variable", "pointer", "interface", "namer", "value", "call", "slice", "struct", "other"}).Draw(c.T, "how")
		what := fmt.Sprintf("%s to %s", sa.str(), how)
		c.Doing("%s", what)
		var got interface{}
		p := catch(func() {
			switch how {
			case "variable":
				d := reflect.New(ra)
				vf.FromValue(va, d.Interface())
				got = d.Elem().Interface()
			case "pointer":
				d := reflect.New(reflect.PtrTo(ra))
				vf.FromValue(va, d.Interface())
				got = d.Elem().Elem().Interface()
			case "interface":
				var d interface{}
				vf.FromValue(va, &d)
				got = d
			case "namer":
				if !ra.AssignableTo(ntNamerType) {
					got = a
					return
				}
				var d ntNamer
				vf.FromValue(va, &d)
				got = d
			case "value":
				var d dgo.Value
				vf.FromValue(va, &d)
				got = d.(dgo.Native).GoValue()
			case "call":
				f := vf.Value(reflect.MakeFunc(reflect.FuncOf([]reflect.Type{ra}, []reflect.Type{ra}, false), func(as []reflect.Value) []reflect.Value {
					got = as[0].Interface()
					return as
				}).Interface()).(dgo.Function)
				if k := ra.Kind(); (k == reflect.Struct || k == reflect.Ptr || k == reflect.Chan) && !f.Type().(dgo.FunctionType).In().Instance(vf.MutableValues(va)) {
					panic(fmt.Sprintf("%s doesn't accept it", f.Type()))
				}
				rs := f.Call(vf.MutableValues(va))
				if len(rs) != 1 || !sameNative(rs[0].(dgo.Native).GoValue(), a) {
					panic(fmt.Sprintf("result %v", rs))
				}
			case "slice":
				d := reflect.New(reflect.SliceOf(ra))
				vf.FromValue(vf.MutableValues(va, va), d.Interface())
				if d.Elem().Len() != 2 {
					panic("length")
				}
				got = d.Elem().Index(1).Interface()
			case "struct":
				d := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: ra}}))
				vf.Map(d.Interface()).Put("F", va)
				got = d.Elem().Field(0).Interface()
			case "other":
				got = a
				d := reflect.New(reflect.TypeOf(ntPoint2{}))
				if ra == d.Type().Elem() {
					return
				}
				if p := catch(func() { vf.FromValue(va, d.Interface()) }); p == nil {
					panic(fmt.Sprintf("a variable of another type is set to %v", d.Elem()))
				}
			}
		})
		if p != nil {
			c.Fatalf("%s: %s\n%s", what, p, p.stack)
		}
		if !sameNative(got, a) {
			c.Fatalf("%s: arrives as %#v", what, got)
		}
		c.Class("%s", how)
		if ra.Kind() == reflect.Ptr || how != "variable" {
			c.NonTrivial(what)
		}
	})
}
