package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// goSort is a sort of Go value: a type, a generator of values of that type and the model of what they mean
type goSort struct {
	rt   reflect.Type
	draw func(t *rapid.T) (reflect.Value, *V)
	key  bool // can be the key of a map
}

func drawIntOf(t *rapid.T, k reflect.Kind) int64 {
	switch k {
	case reflect.Int8:
		return int64(rapid.OneOf(rapid.Int8(), rapid.SampledFrom([]int8{math.MinInt8, math.MaxInt8})).Draw(t, "i8"))
	case reflect.Int16:
		return int64(rapid.OneOf(rapid.Int16(), rapid.SampledFrom([]int16{math.MinInt16, math.MaxInt16})).Draw(t, "i16"))
	case reflect.Int32:
		return int64(rapid.OneOf(rapid.Int32(), rapid.SampledFrom([]int32{math.MinInt32, math.MaxInt32})).Draw(t, "i32"))
	case reflect.Uint8:
		return int64(rapid.Uint8().Draw(t, "u8"))
	case reflect.Uint16:
		return int64(rapid.Uint16().Draw(t, "u16"))
	case reflect.Uint32:
		return int64(rapid.Uint32().Draw(t, "u32"))
	case reflect.Uint, reflect.Uint64:
		return rapid.OneOf(rapid.Int64Range(0, 9), rapid.Int64Min(0), rapid.Just(int64(math.MaxInt64))).Draw(t, "u64")
	}
	return rapid.OneOf(rapid.Int64Range(-9, 9), rapid.Int64(), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64})).Draw(t, "i64")
}

var intTypes = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0))}

var (
	anyType    = reflect.TypeOf((*interface{})(nil)).Elem()
	errType    = reflect.TypeOf((*error)(nil)).Elem()
	valueType  = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	bytesType  = reflect.TypeOf([]byte(nil))
	timeRType  = reflect.TypeOf(time.Time{})
	regexpType = reflect.TypeOf((*regexp.Regexp)(nil))
)

func goScalarSorts() []goSort {
	var ss []goSort
	add := func(rt reflect.Type, key bool, draw func(t *rapid.T) (reflect.Value, *V)) {
		ss = append(ss, goSort{rt, draw, key})
	}
	for i := range intTypes {
		rt := intTypes[i]
		add(rt, true, func(t *rapid.T) (reflect.Value, *V) {
			n := drawIntOf(t, rt.Kind())
			return reflect.ValueOf(n).Convert(rt), vInt(n)
		})
	}
	add(reflect.TypeOf(true), true, func(t *rapid.T) (reflect.Value, *V) {
		b := rapid.Bool().Draw(t, "bool")
		return reflect.ValueOf(b), vBool(b)
	})
	add(reflect.TypeOf(""), true, func(t *rapid.T) (reflect.Value, *V) {
		s := genStr(true).Draw(t, "str")
		return reflect.ValueOf(s), vStr(s)
	})
	add(reflect.TypeOf(float64(0)), false, func(t *rapid.T) (reflect.Value, *V) {
		f := rapid.OneOf(genFloat(), rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 62})).Draw(t, "f64")
		return reflect.ValueOf(f), vFloat(f)
	})
	add(reflect.TypeOf(float32(0)), false, func(t *rapid.T) (reflect.Value, *V) {
		f := rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0.1, math.MaxFloat32, math.SmallestNonzeroFloat32})).Draw(t, "f32")
		return reflect.ValueOf(f), vFloat(float64(f))
	})
	add(bytesType, false, func(t *rapid.T) (reflect.Value, *V) {
		b := genBytes().Draw(t, "bytes")
		return reflect.ValueOf(append([]byte{}, b...)), vBin(b)
	})
	add(timeRType, false, func(t *rapid.T) (reflect.Value, *V) {
		x := genTime().Draw(t, "time")
		return reflect.ValueOf(x), vTime(x)
	})
	add(regexpType, false, func(t *rapid.T) (reflect.Value, *V) {
		s := rapid.SampledFrom([]string{"", "a", "^x+$", `\d{3}`, "[a-z]*?"}).Draw(t, "rx")
		return reflect.ValueOf(regexp.MustCompile(s)), vRx(s)
	})
	add(errType, false, func(t *rapid.T) (reflect.Value, *V) {
		v := reflect.New(errType).Elem()
		switch rapid.IntRange(0, 3).Draw(t, "err") {
		case 0:
			return v, vNil()
		case 1:
			v.Set(reflect.ValueOf(fmt.Errorf("outer: %w", errors.New("inner"))))
		case 2:
			v.Set(reflect.ValueOf(&strconv.NumError{Func: "f", Num: "n", Err: errors.New("x")}))
		default:
			v.Set(reflect.ValueOf(errors.New(rapid.StringMatching("[a-z]{0,4}").Draw(t, "msg"))))
		}
		return v, &V{K: kString, S: "<error " + v.Interface().(error).Error() + ">"}
	})
	add(valueType, false, func(t *rapid.T) (reflect.Value, *V) {
		m := drawV(t, dataOpts(2))
		v := reflect.New(valueType).Elem()
		v.Set(reflect.ValueOf(build(m, fixedRoute)))
		return v, m
	})
	return ss
}

var goScalarSort = goScalarSorts()

func drawGoSort(t *rapid.T, depth int) goSort {
	if depth <= 1 || rapid.IntRange(0, 3).Draw(t, "sort") == 0 {
		return rapid.SampledFrom(goScalarSort).Draw(t, "scalar")
	}
	size := func(t *rapid.T) int { return rapid.IntRange(-1, 3).Draw(t, "size") }
	switch rapid.IntRange(0, 3).Draw(t, "composite") {
	case 0:
		e := drawGoSort(t, depth-1)
		if e.rt.Kind() == reflect.Uint8 {
			e = goScalarSort[0]
		}
		rt := reflect.SliceOf(e.rt)
		return goSort{rt: rt, draw: func(t *rapid.T) (reflect.Value, *V) {
			n := size(t)
			if n < 0 && rt != reflect.TypeOf([]int(nil)) && rt != reflect.TypeOf([]string(nil)) {
				return reflect.Zero(rt), vNil()
			}
			if n < 0 {
				n = 0 // these are empty when they are nil
			}
			s, m := reflect.MakeSlice(rt, 0, n), vArr()
			for i := 0; i < n; i++ {
				x, xm := e.draw(t)
				s = reflect.Append(s, x)
				m.A = append(m.A, xm)
			}
			return s, m
		}}
	case 1:
		k := rapid.SampledFrom(goScalarSort[:12]).Draw(t, "key")
		e := drawGoSort(t, depth-1)
		rt := reflect.MapOf(k.rt, e.rt)
		return goSort{rt: rt, draw: func(t *rapid.T) (reflect.Value, *V) {
			n := size(t)
			if n < 0 {
				return reflect.Zero(rt), vNil()
			}
			s, m := reflect.MakeMap(rt), vMap()
			for i := 0; i < n; i++ {
				kx, km := k.draw(t)
				x, xm := e.draw(t)
				s.SetMapIndex(kx, x)
				m.put(km, xm)
			}
			return s, m
		}}
	case 2:
		e := drawGoSort(t, depth-1)
		if e.rt == errType || e.rt == valueType || e.rt.Kind() == reflect.Ptr || e.rt == anyType {
			e = goScalarSort[0]
		}
		rt := reflect.PtrTo(e.rt)
		return goSort{rt: rt, draw: func(t *rapid.T) (reflect.Value, *V) {
			if size(t) < 0 {
				return reflect.Zero(rt), vNil()
			}
			x, m := e.draw(t)
			p := reflect.New(e.rt)
			p.Elem().Set(x)
			return p, m
		}}
	}
	return goSort{rt: anyType, draw: func(t *rapid.T) (reflect.Value, *V) {
		v := reflect.New(anyType).Elem()
		if rapid.IntRange(0, 5).Draw(t, "nil") == 0 {
			return v, vNil()
		}
		e := drawGoSort(t, depth-1)
		x, m := e.draw(t)
		if x.Kind() == reflect.Interface {
			x = x.Elem()
		}
		if x.IsValid() {
			v.Set(x)
		}
		return v, m
	}}
}

// sameGo answers if the two Go values of the same static type have the same content. What an interface{} holds is
// compared by meaning since dgo doesn't retain the width of numbers or the types of collections
func sameGo(a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("the type %s becomes %s", a.Type(), b.Type())
	}
	bad := func() string { return fmt.Sprintf("%#v becomes %#v", a, b) }
	switch a.Type() {
	case timeRType:
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return bad()
		}
		return ""
	case regexpType:
		if a.Interface().(*regexp.Regexp).String() != b.Interface().(*regexp.Regexp).String() {
			return bad()
		}
		return ""
	case bytesType:
		if !bytes.Equal(a.Bytes(), b.Bytes()) {
			return bad()
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
		if a.Kind() == reflect.Ptr && b.IsNil() && !a.IsNil() {
			// the pointer to something that is nil is nil to dgo
			switch a.Elem().Kind() {
			case reflect.Slice, reflect.Map:
				if a.Elem().IsNil() {
					return ""
				}
			}
		}
		if a.IsNil() != b.IsNil() && a.Kind() != reflect.Interface {
			return bad()
		}
		if a.IsNil() && (b.IsNil() || a.Type() == errType) {
			return ""
		}
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return bad()
		}
		for i := 0; i < a.Len(); i++ {
			if s := sameGo(a.Index(i), b.Index(i)); s != "" {
				return s
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return bad()
		}
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return bad()
			}
			if s := sameGo(a.MapIndex(k), bv); s != "" {
				return s
			}
		}
		return ""
	case reflect.Ptr:
		return sameGo(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.Type() == errType {
			if a.Interface() != b.Interface() {
				return bad()
			}
			return ""
		}
		am, bm := model(vf.Value(a.Interface())), model(vf.Value(b.Interface()))
		if !refEq(am, bm) {
			return fmt.Sprintf("%s becomes %s (%T)", am.str(), bm.str(), b.Interface())
		}
		return ""
	case reflect.Float64, reflect.Float32:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) && !(a.Float() == 0 && b.Float() == 0) {
			return bad()
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return bad()
	}
	return ""
}

// scramble changes everything that is reachable from the Go value
func scramble(v reflect.Value) {
	if v.Type() == regexpType || v.Type().Implements(valueType) || v.Type().Implements(errType) || v.Type() == valueType || v.Type() == errType {
		return
	}
	if v.Type() == reflect.PtrTo(timeRType) {
		return // see TestP16_TimePointer
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
			if v.Index(i).Kind() == reflect.Uint8 {
				v.Index(i).SetUint(uint64(^uint8(v.Index(i).Uint())))
			} else {
				v.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scramble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		if !v.IsNil() {
			v.SetMapIndex(reflect.Zero(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
			v.Elem().Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	}
}

func TestP16_RoundTrip(t *testing.T) {
	prop(t, 20000, "a random Go type, a value of it, the conversion to dgo and back; non-trivial when the value is composite or rich", func(c *C) {
		s := drawGoSort(c.T, 4)
		x, m := s.draw(c.T)
		src := fmt.Sprintf("%s %s", s.rt, m.str())
		var v dgo.Value
		how := rapid.SampledFrom([]string{"Value", "ValueFromReflected", "Values", "MutableValues", "Array", "Map", "MutableMap", "FromReflectedMap"}).Draw(c.T, "how")
		xi := x.Interface()
		p := catch(func() {
			switch how {
			case "ValueFromReflected":
				v = vf.ValueFromReflected(x)
			case "Values":
				v = vf.Values(xi).Get(0)
			case "MutableValues":
				v = vf.MutableValues(xi).Get(0)
			case "Array":
				if m.K == kArray {
					v = vf.Array(xi)
				}
			case "Map":
				if m.K == kMap && x.Kind() == reflect.Map {
					v = vf.Map(xi)
				}
			case "FromReflectedMap":
				if m.K == kMap && x.Kind() == reflect.Map {
					v = vf.FromReflectedMap(x, true)
				}
			case "MutableMap":
				if m.K == kMap && x.Kind() == reflect.Map {
					v = vf.MutableMap(xi)
				}
			}
			if v == nil {
				how = "Value"
				v = vf.Value(xi)
			}
		})
		c.Class(how)
		if p != nil {
			c.Fatalf("converting %s using %s fails: %s\n%s", src, how, p, p.stack)
		}
		if !refEq(model(v), m) {
			c.Fatalf("converting %s using %s gives %s", src, how, v)
		}
		if fz, ok := v.(dgo.Freezable); ok && how != "MutableMap" && !fz.Frozen() {
			c.Fatalf("converting %s using %s gives a value that isn't frozen", src, how)
		}
		d := reflect.New(s.rt)
		p = catch(func() {
			if rapid.Bool().Draw(c.T, "reflect") {
				vf.ReflectTo(v, d.Elem())
			} else {
				vf.FromValue(v, d.Interface())
			}
		})
		if p != nil {
			c.Fatalf("converting %s to dgo using %s and back fails: %s\n%s", src, how, p, p.stack)
		}
		if bad := sameGo(x, d.Elem()); bad != "" {
			c.Fatalf("converting %s to dgo using %s and back: %s", src, how, bad)
		}
		scramble(d.Elem())
		if !refEq(model(v), m) {
			c.Fatalf("%s, created from %s using %s, becomes %s when what it was converted to is changed", m.str(), s.rt, how, v)
		}
		if how == "MutableMap" {
			xm := v.(dgo.Map)
			xm.PutAll(xm.Map(func(dgo.MapEntry) interface{} { return "changed" }))
			if m2 := model(vf.Value(xi)); !refEq(m2, m) {
				c.Fatalf("%s becomes %s when the map that was created from it using %s is changed", src, m2.str(), how)
			}
		} else {
			scramble(x)
			if !refEq(model(v), m) {
				c.Fatalf("%s, created from %s using %s, becomes %s when what it was created from is changed", m.str(), s.rt, how, v)
			}
		}
		c.Class(s.rt.Kind().String())
		if m.nodes() > 1 || m.K > kString {
			c.NonTrivial(src)
		}
	})
}

// TestP16_NilMap creates maps from Go maps that are nil, and hence empty
func TestP16_NilMap(t *testing.T) {
	prop(t, 1000, "the nil map of a random Go type; always non-trivial", func(c *C) {
		s := drawGoSort(c.T, 3)
		rt := reflect.MapOf(rapid.SampledFrom([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(1), anyType}).Draw(c.T, "key"), s.rt)
		x := reflect.Zero(rt)
		made := rapid.Bool().Draw(c.T, "made")
		if made {
			x = reflect.MakeMap(rt)
		}
		how := rapid.SampledFrom([]string{"Map", "MutableMap", "FromReflectedMap true", "FromReflectedMap false"}).Draw(c.T, "how")
		what := fmt.Sprintf("%s of %s (made %v)", how, rt, made)
		c.Doing("%s", what)
		var m dgo.Map
		if p := catch(func() {
			switch how {
			case "Map":
				m = vf.Map(x.Interface())
			case "MutableMap":
				m = vf.MutableMap(x.Interface())
			default:
				m = vf.FromReflectedMap(x, how == "FromReflectedMap true")
			}
		}); p != nil {
			c.Fatalf("%s fails: %s\n%s", what, p, p.stack)
		}
		frozen := how == "Map" || how == "FromReflectedMap true"
		if m.Len() != 0 || !m.Equals(vf.Map()) || m.Frozen() != frozen {
			c.Fatalf("%s gives %s, frozen %v", what, m, m.Frozen())
		}
		if p := catch(func() { m.Put("k", 1) }); (p != nil) != frozen {
			c.Fatalf("%s: Put gives %v", what, p)
		}
		if !frozen && (m.Len() != 1 || !vf.Integer(1).Equals(m.Get("k")) || m.Remove("nope") != nil || !vf.Integer(1).Equals(m.Remove("k")) || m.Len() != 0) {
			c.Fatalf("%s: the map doesn't work, it's now %s", what, m)
		}
		c.Class(how)
		c.NonTrivial(what)
	})
}

func TestP16_Numbers(t *testing.T) {
	prop(t, 20000, "a number and a Go number type, as source and as destination; non-trivial when the number doesn't fit", func(c *C) {
		if rapid.Bool().Draw(c.T, "source") {
			// everything above math.MaxInt64 must be rejected
			u := rapid.OneOf(rapid.Uint64Min(math.MaxInt64-3), rapid.Uint64Range(math.MaxInt64-3, math.MaxInt64+3), rapid.Uint64Min(math.MaxUint64-3)).Draw(c.T, "u")
			var x interface{} = u
			switch rapid.IntRange(0, 5).Draw(c.T, "form") {
			case 0:
				x = uint(u)
			case 1:
				x = []uint64{1, u}
			case 2:
				x = map[string]uint{"a": uint(u)}
			case 3:
				x = &u
			case 4:
				x = json.Number(strconv.FormatUint(u, 10))
			}
			var v dgo.Value
			p := catch(func() { v = vf.Value(x) })
			bad := u > math.MaxInt64
			if _, ok := x.(json.Number); ok && bad {
				// becomes a float
				if p != nil || !refEq(model(v), vFloat(float64(u))) {
					c.Fatalf("%v of type %T becomes %v (%v)", x, x, v, p)
				}
			} else if (p != nil) != bad {
				c.Fatalf("%v of type %T becomes %v (%v)", x, x, v, p)
			}
			for _, n := range []interface{}{u, uint(u)} {
				if vf.Integer(int64(u)).Equals(n) == bad || tf.Integer(math.MinInt64, int64(u), true).Instance(n) == bad {
					c.Fatalf("%d equals, or is accepted as, %d", n, int64(u))
				}
				if r, ok := vf.Integer(1).CompareTo(n); ok && r >= 0 {
					c.Fatalf("1 compared with %d gives %d", n, r)
				}
			}
			if bad {
				c.NonTrivial(fmt.Sprintf("%T %d", x, u))
			}
			return
		}
		rt := rapid.SampledFrom(append(append([]reflect.Type{}, intTypes...), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)))).Draw(c.T, "type")
		ptr := rapid.Bool().Draw(c.T, "ptr")
		isF := rt.Kind() == reflect.Float32 || rt.Kind() == reflect.Float64
		dt := rt
		if ptr {
			dt = reflect.PtrTo(rt)
		}
		d := reflect.New(dt)
		var v dgo.Value
		var want interface{}
		fits := false
		if isF {
			f := rapid.OneOf(rapid.Float64(), rapid.Float64Range(-1e3, 1e3), rapid.SampledFrom([]float64{1e39, -1e39, math.MaxFloat32, math.MaxFloat32 * 2, math.Inf(1), math.Inf(-1)})).Draw(c.T, "f")
			v = vf.Float(f)
			if rt.Kind() == reflect.Float64 {
				fits, want = true, f
			} else {
				fits, want = math.IsInf(f, 0) || !math.IsInf(float64(float32(f)), 0), float32(f)
			}
		} else {
			i := drawIntOf(c.T, rapid.SampledFrom(intTypes).Draw(c.T, "from").Kind()) + int64(rapid.IntRange(-1, 1).Draw(c.T, "off"))
			v = vf.Integer(i)
			r := reflect.ValueOf(i).Convert(rt)
			want = r.Interface()
			fits = r.Convert(reflect.TypeOf(int64(0))).Int() == i && (rt.Kind() < reflect.Uint || i >= 0)
		}
		switch n := v.(type) {
		case dgo.Integer:
			if n.ToInt() != n.GoInt() || n.ToFloat() != float64(n.GoInt()) {
				c.Fatalf("%s is the integer %d and the float %v", v, n.ToInt(), n.ToFloat())
			}
		case dgo.Float:
			if f := n.GoFloat(); n.ToFloat() != f && f == f || math.Abs(f) < 1<<62 && n.ToInt() != int64(math.Trunc(f)) {
				c.Fatalf("%s is the integer %d and the float %v", v, n.ToInt(), n.ToFloat())
			}
		}
		p := catch(func() { vf.ReflectTo(v, d.Elem()) })
		if !fits {
			if p == nil {
				c.Fatalf("%s is assigned to a %s as %v", v, dt, reflect.Indirect(d.Elem()))
			}
			c.NonTrivial(fmt.Sprintf("%s %s", v, dt))
			return
		}
		if p != nil {
			c.Fatalf("%s can't be assigned to a %s: %s", v, dt, p)
		}
		if got := reflect.Indirect(d.Elem()).Interface(); got != want {
			c.Fatalf("%s is assigned to a %s as %v", v, dt, got)
		}
	})
}

// TestP16_Any converts arbitrary data to an interface{} and back
func TestP16_Any(t *testing.T) {
	prop(t, 8000, "a random value converted to interface{} and back; non-trivial when composite", func(c *C) {
		o := richOpts(4)
		o.keys = []K{kString, kInt, kBool}
		m := drawV(c.T, o)
		v := build(m, drawRouter(c.T))
		var x interface{}
		p := catch(func() { vf.FromValue(v, &x) })
		if p != nil {
			c.Fatalf("converting %s to a Go value fails: %s\n%s", m.str(), p, p.stack)
		}
		g := vf.Value(x)
		if !refEq(model(g), m) {
			c.Fatalf("%s is converted to the %T %v and back to %s", m.str(), x, x, g)
		}
		if fz, ok := v.(dgo.Freezable); ok && fz.Frozen() {
			scramble(reflect.ValueOf(&x).Elem())
			if !refEq(model(v), m) {
				c.Fatalf("the frozen %s becomes %s when what it was converted to is changed", m.str(), v)
			}
		}
		if m.nodes() > 1 {
			c.NonTrivial(m.str())
		}
	})
}

// TestP16_TimePointer covers what scramble leaves out: the pointer that a time is converted to
func TestP16_TimePointer(t *testing.T) {
	known(t, "time-pointer", func() string {
		v := vf.Time(timePool[2])
		var p *time.Time
		vf.FromValue(v, &p)
		*p = timePool[0]
		if !v.GoTime().Equal(timePool[2]) {
			return fmt.Sprintf("the frozen %s becomes %s when assigning to the *time.Time that it was converted to", timePool[2], v)
		}
		return ""
	})
}

type wrapErr struct {
	text string
	err  error
}

func (w *wrapErr) Error() string { return w.text }
func (w *wrapErr) Unwrap() error { return w.err }

type otherErr string

func (o otherErr) Error() string { return string(o) }

// TestP16_Errors converts chains of errors
func TestP16_Errors(t *testing.T) {
	prop(t, 4000, "a chain of errors, as a value; non-trivial when an error wraps another", func(c *C) {
		base := []error{errors.New("base"), otherErr("other"), &wrapErr{"no cause", nil}}[rapid.IntRange(0, 2).Draw(c.T, "base")]
		err := base
		n := rapid.IntRange(0, 3).Draw(c.T, "wraps")
		for i := 0; i < n; i++ {
			if rapid.Bool().Draw(c.T, "custom") {
				err = &wrapErr{fmt.Sprintf("level %d", i), err}
			} else {
				err = fmt.Errorf("level %d: %w", i, err)
			}
		}
		v := vf.Value(err)
		ev, ok := v.(error)
		if !ok || ev.Error() != err.Error() || v.String() != err.Error() {
			c.Fatalf("%v is converted to %v", err, v)
		}
		if u := errors.Unwrap(ev); u != errors.Unwrap(err) {
			c.Fatalf("%v as a value wraps %v", err, u)
		}
		if n > 0 && !errors.Is(ev, base) {
			c.Fatalf("%v as a value isn't %v", err, base)
		}
		var o otherErr
		if n > 0 && errors.As(ev, &o) != errors.As(err, &o) {
			c.Fatalf("%v as a value isn't an %T", err, o)
		}
		var d error
		vf.FromValue(v, &d)
		if d != err {
			c.Fatalf("%v is written back as %v (%T)", err, d, d)
		}
		dup := errors.New(err.Error())
		if !v.Equals(err) || !v.Equals(vf.Value(dup)) || v.HashCode() != vf.Value(dup).HashCode() || v.Equals(errors.New("x")) || v.Equals(nil) || v.Equals(err.Error()) || !typ.Error.Instance(v) || !typ.Error.Instance(err) || !v.Type().Instance(v) || v.Type().Instance(vf.Value(errors.New("x"))) {
			c.Fatalf("%v as a value has another identity", err)
		}
		if n > 0 {
			c.NonTrivial(err.Error())
		}
	})
}
