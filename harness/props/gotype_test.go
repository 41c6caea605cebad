package props

import (
	"github.com/lyraproj/dgo/dgo"
	"math"
	"reflect"
	"regexp"
	"time"

	"pgregory.net/rapid"
)

// goType pairs a reflect type with the model of the dgo type that documents it
type goType struct {
	rt reflect.Type
	t  *T
}

var goScalars = []goType{
	{reflect.TypeOf(true), tk(tBool)},
	{reflect.TypeOf(""), tk(tString)},
	{reflect.TypeOf(int(0)), tk(tInt)},
	{reflect.TypeOf(int64(0)), tk(tInt)},
	{reflect.TypeOf(int8(0)), tIR(math.MinInt8, math.MaxInt8, true)},
	{reflect.TypeOf(int16(0)), tIR(math.MinInt16, math.MaxInt16, true)},
	{reflect.TypeOf(int32(0)), tIR(math.MinInt32, math.MaxInt32, true)},
	{reflect.TypeOf(uint8(0)), tIR(0, math.MaxUint8, true)},
	{reflect.TypeOf(uint16(0)), tIR(0, math.MaxUint16, true)},
	{reflect.TypeOf(uint32(0)), tIR(0, math.MaxUint32, true)},
	{reflect.TypeOf(uint(0)), tIR(0, math.MaxInt64, true)},
	{reflect.TypeOf(uint64(0)), tIR(0, math.MaxInt64, true)},
	{reflect.TypeOf(float64(0)), tk(tFloat)},
	{reflect.TypeOf(float32(0)), &T{K: tFloatRange, FMin: -math.MaxFloat32, FMax: math.MaxFloat32, Incl: true}},
	{reflect.TypeOf([]byte(nil)), tk(tBinary)},
	{reflect.TypeOf(time.Time{}), tk(tTime)},
	{reflect.TypeOf((*time.Time)(nil)), &T{K: tOneOf, E: []*T{tk(tTime), tk(tNil)}}},
	{reflect.TypeOf((*regexp.Regexp)(nil)), tk(tRegexp)},
	{reflect.TypeOf((*interface{})(nil)).Elem(), tk(tAny)},
	{reflect.TypeOf((*dgo.Value)(nil)).Elem(), tk(tAny)},
	{reflect.TypeOf((*dgo.String)(nil)).Elem(), tk(tString)},
	{reflect.TypeOf((*dgo.Integer)(nil)).Elem(), tk(tInt)},
	{reflect.TypeOf((*dgo.Float)(nil)).Elem(), tk(tFloat)},
	{reflect.TypeOf((*dgo.Boolean)(nil)).Elem(), tk(tBool)},
	{reflect.TypeOf((*dgo.Binary)(nil)).Elem(), tk(tBinary)},
	{reflect.TypeOf((*dgo.Time)(nil)).Elem(), tk(tTime)},
	{reflect.TypeOf((*dgo.Regexp)(nil)).Elem(), tk(tRegexp)},
	{reflect.TypeOf((*dgo.Sensitive)(nil)).Elem(), tk(tSensitive)},
	{reflect.TypeOf((*dgo.Array)(nil)).Elem(), tArr(tk(tAny), 0, unbounded)},
	{reflect.TypeOf((*dgo.Map)(nil)).Elem(), &T{K: tMap, E: []*T{tk(tAny), tk(tAny)}, Max: unbounded}},
}

// drawGoType draws a go type and the model of its dgo type
func drawGoType(t *rapid.T, depth int) goType {
	if depth <= 1 || rapid.IntRange(0, 2).Draw(t, "go") == 0 {
		return rapid.SampledFrom(goScalars).Draw(t, "goScalar")
	}
	switch rapid.IntRange(0, 2).Draw(t, "goKind") {
	case 0:
		for {
			e := drawGoType(t, depth-1)
			if e.rt.Kind() == reflect.Uint8 {
				continue // []byte is binary
			}
			return goType{reflect.SliceOf(e.rt), tArr(e.t, 0, unbounded)}
		}
	case 1:
		k := rapid.SampledFrom(goScalars[:14]).Draw(t, "goKey")
		e := drawGoType(t, depth-1)
		return goType{reflect.MapOf(k.rt, e.rt), &T{K: tMap, E: []*T{k.t, e.t}, Min: 0, Max: unbounded}}
	}
	e := rapid.SampledFrom(goScalars[:6]).Draw(t, "goElem")
	return goType{reflect.PtrTo(e.rt), &T{K: tOneOf, E: []*T{e.t, tk(tNil)}}}
}

// drawGoFunc draws a go function type and the model of its type
func drawGoFunc(t *rapid.T) goType {
	m := &T{K: tFunc}
	var in, out []reflect.Type
	n := rapid.IntRange(0, 3).Draw(t, "in")
	if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
		n = rapid.IntRange(3, 12).Draw(t, "many in")
	}
	for i := 0; i < n; i++ {
		p := drawGoType(t, 2)
		in = append(in, p.rt)
		m.E = append(m.E, p.t)
	}
	if n > 0 && in[n-1].Kind() != reflect.Uint8 && rapid.IntRange(0, 2).Draw(t, "variadic") == 0 {
		m.Add = true
		in[n-1] = reflect.SliceOf(in[n-1])
	}
	n = rapid.IntRange(0, 2).Draw(t, "out")
	if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
		n = rapid.IntRange(2, 9).Draw(t, "many out")
	}
	for i := 0; i < n; i++ {
		p := drawGoType(t, 2)
		out = append(out, p.rt)
		m.R = append(m.R, p.t)
	}
	return goType{reflect.FuncOf(in, out, m.Add), m}
}
