package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// Four implementations of values of named types, of different Go kinds. Each knows the name of its type.
type (
	nmPtr struct {
		name string
		arg  dgo.Value
	}
	nmStruct struct {
		name string
		arg  dgo.Value
	}
	nmInt   int64 // the name is found in the high bits
	nmSlice []dgo.Value
	nmTwin  nmStruct // can be converted to, but isn't, an nmStruct

	nmMarked interface{ nmMark() }
	nmOther  interface{ nmOtherMark() }

	nmValue interface {
		dgo.Value
		nmName() string
		nmArg() dgo.Value
	}
)

var nmNames = []string{"nA", "nB", "nC", "_n4"}

func (v *nmPtr) nmMark()          {}
func (v nmStruct) nmOtherMark()   {}
func (v nmTwin) nmOtherMark()     {}
func (v nmSlice) nmOtherMark()    {}
func (v nmTwin) nmName() string   { return v.name }
func (v nmTwin) nmArg() dgo.Value { return v.arg }
func (v nmSlice) nmMark()         {}
func (v nmPtr) nmName() string    { return v.name }
func (v nmPtr) nmArg() dgo.Value  { return v.arg }
func (v nmStruct) nmName() string { return v.name }
func (v nmStruct) nmArg() dgo.Value {
	return v.arg
}
func (v nmInt) nmName() string     { return nmNames[v>>40] }
func (v nmInt) nmArg() dgo.Value   { return vf.Integer(int64(v & (1<<40 - 1))) }
func (v nmSlice) nmName() string   { return v[0].(dgo.String).GoString() }
func (v nmSlice) nmArg() dgo.Value { return v[1] }

func nmText(v nmValue) string   { return v.Type().(dgo.NamedType).ValueString(v) }
func nmType(v nmValue) dgo.Type { return tf.ExactNamed(tf.Named(v.nmName()), v) }
func nmHash(v nmValue) int      { return v.nmArg().HashCode() }
func nmEquals(v nmValue, other interface{}) bool {
	o, ok := other.(nmValue)
	return ok && reflect.TypeOf(v) == reflect.TypeOf(o) && v.nmName() == o.nmName() && v.nmArg().Equals(o.nmArg())
}

func (v *nmPtr) String() string                  { return nmText(v) }
func (v *nmPtr) Type() dgo.Type                  { return nmType(v) }
func (v *nmPtr) HashCode() int                   { return nmHash(v) }
func (v *nmPtr) Equals(other interface{}) bool   { return nmEquals(v, other) }
func (v nmStruct) String() string                { return nmText(v) }
func (v nmStruct) Type() dgo.Type                { return nmType(v) }
func (v nmStruct) HashCode() int                 { return nmHash(v) }
func (v nmStruct) Equals(other interface{}) bool { return nmEquals(v, other) }
func (v nmTwin) String() string                  { return nmText(v) }
func (v nmTwin) Type() dgo.Type                  { return nmType(v) }
func (v nmTwin) HashCode() int                   { return nmHash(v) }
func (v nmTwin) Equals(other interface{}) bool   { return nmEquals(v, other) }
func (v nmInt) String() string                   { return nmText(v) }
func (v nmInt) Type() dgo.Type                   { return nmType(v) }
func (v nmInt) HashCode() int                    { return nmHash(v) }
func (v nmInt) Equals(other interface{}) bool    { return nmEquals(v, other) }
func (v nmSlice) String() string                 { return nmText(v) }
func (v nmSlice) Type() dgo.Type                 { return nmType(v) }
func (v nmSlice) HashCode() int                  { return nmHash(v) }
func (v nmSlice) Equals(other interface{}) bool  { return nmEquals(v, other) }

var nmImpls = []reflect.Type{reflect.TypeOf(&nmPtr{}), reflect.TypeOf(nmStruct{}), reflect.TypeOf(nmInt(0)), reflect.TypeOf(nmSlice{}), reflect.TypeOf(nmTwin{}), nil}
var nmIfds = []reflect.Type{nil, reflect.TypeOf((*nmMarked)(nil)).Elem(), reflect.TypeOf((*nmOther)(nil)).Elem()}

// nmIsMarked tells what interfaces the implementations have
var nmIsMarked = [][]bool{1: {true, false, false, true, false, false}, 2: {false, true, false, true, true, false}}

// nmMake makes a value, or panics
func nmMake(name string, impl int, arg dgo.Value) dgo.Value {
	if f, ok := arg.(dgo.Freezable); ok {
		arg = f.FrozenCopy()
	}
	switch impl {
	case 1:
		return nmStruct{name, arg}
	case 2:
		i := arg.(dgo.Integer).GoInt()
		for n := range nmNames {
			if nmNames[n] == name {
				return nmInt(int64(n)<<40 | i)
			}
		}
	case 3:
		return nmSlice{vf.String(name), arg}
	case 4:
		return nmTwin{name, arg}
	}
	return &nmPtr{name, arg}
}

// N is the model of a registered named type
type N struct {
	name      string
	impl      int // index in nmImpls, the last is for a type without an implementation type
	ifd       int
	ctor      int // 0 none, 1 good, 2 makes values of an unrelated type, 3 makes values of another implementation
	extractor bool
	checker   bool // integers in the range given by the parameters
	d         dgo.NamedType
}

func nmRange(ps dgo.Array) (int64, int64) {
	min, max := int64(math.MinInt64), int64(math.MaxInt64)
	if ps != nil {
		if ps.Len() > 0 {
			min = ps.Get(0).(dgo.Integer).GoInt()
		}
		if ps.Len() > 1 {
			max = ps.Get(1).(dgo.Integer).GoInt()
		}
	}
	return min, max
}

func nmChecker(self dgo.NamedType, other dgo.Type) bool {
	ot, ok := other.(dgo.NamedType)
	if !ok || self.Name() != ot.Name() {
		return false
	}
	min, max := nmRange(self.Parameters())
	if et, ok := ot.(dgo.ExactType); ok {
		i, ok := et.ExactValue().(nmValue).nmArg().(dgo.Integer)
		return ok && min <= i.GoInt() && i.GoInt() <= max || !ok && min == math.MinInt64 && max == math.MaxInt64
	}
	oMin, oMax := nmRange(ot.Parameters())
	return min <= oMin && oMax <= max
}

// NT is the model of a type: a named type, with parameters or not, or the type of one of its values
type NT struct {
	n        *N
	params   bool
	min, max int64
	exact    nmValue
	d        dgo.Type
}

func (a *NT) String() string { return a.d.String() }

func (a *NT) limits() (int64, int64) {
	if !a.params {
		return math.MinInt64, math.MaxInt64
	}
	return a.min, a.max
}

// instance is the reference for Instance
func (a *NT) instance(v nmValue, n *N) bool {
	if a.exact != nil {
		return nmEquals(a.exact, v)
	}
	if a.n.checker {
		if a.n != n {
			return false
		}
		min, max := a.limits()
		i, ok := v.nmArg().(dgo.Integer)
		if !ok {
			return min == math.MinInt64 && max == math.MaxInt64
		}
		return min <= i.GoInt() && i.GoInt() <= max
	}
	return a.compatible(n)
}

// compatible is the reference for the default check: is the implementation of n an implementation of this type
func (a *NT) compatible(n *N) bool {
	none := len(nmImpls) - 1
	if a.n.impl == none && a.n.ifd == 0 || n.impl == none {
		return a.n == n
	}
	if a.n.ifd > 0 {
		return nmIsMarked[a.n.ifd][n.impl]
	}
	return a.n.impl == n.impl
}

// assignable is the reference for Assignable
func (a *NT) assignable(b *NT) bool {
	if b.exact != nil {
		return a.instance(b.exact, b.n)
	}
	if a.exact != nil {
		return false
	}
	if a.n.checker {
		if a.n != b.n {
			return false
		}
		aMin, aMax := a.limits()
		bMin, bMax := b.limits()
		return aMin <= bMin && bMax <= aMax
	}
	return a.compatible(b.n)
}

func (a *NT) equal(b *NT) bool {
	if a.exact != nil || b.exact != nil {
		return a.exact != nil && b.exact != nil && nmEquals(a.exact, b.exact)
	}
	return a.n == b.n && a.params == b.params && (!a.params || a.min == b.min && a.max == b.max)
}

func TestP29_Registry(t *testing.T) {
	prop(t, 6000, "a history of registrations, removals, lookups, and uses of named types; non-trivial when a type is used while at least two are registered", func(c *C) {
		for _, n := range nmNames {
			tf.RemoveNamed(n)
		}
		defer func() {
			for _, n := range nmNames {
				tf.RemoveNamed(n)
			}
		}()
		reg := map[string]*N{}
		var nts []*NT
		var vals []nmValue
		log := &strings.Builder{}
		registered := func() (ns []*N) {
			for _, n := range reg {
				ns = append(ns, n)
			}
			sort.Slice(ns, func(i, j int) bool { return ns[i].name < ns[j].name })
			return
		}
		drawArg := func(impl int) *V {
			if impl == 2 {
				return vInt(rapid.Int64Range(0, 9).Draw(c.T, "arg"))
			}
			if rapid.IntRange(0, 2).Draw(c.T, "simple") > 0 {
				return vInt(rapid.Int64Range(-3, 9).Draw(c.T, "arg"))
			}
			if rapid.IntRange(0, 5).Draw(c.T, "words") == 0 {
				// keys that have a meaning in the encoding
				m := vMap()
				for i := rapid.IntRange(0, 3).Draw(c.T, "n"); i > 0; i-- {
					k := rapid.SampledFrom([]string{"name", "value", "type", "map", "ref", "_type", "__types", "time"}).Draw(c.T, "key")
					m.put(vStr(k), drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 2, width: 2}))
				}
				return m
			}
			return drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString, kString, kInt}, depth: 3, width: 3})
		}
		var doing string
		fail := func(f string, args ...interface{}) {
			c.Fatalf("%s\n%s: %s", log, doing, fmt.Sprintf(f, args...))
		}
		used := false
		for i := rapid.IntRange(3, 14).Draw(c.T, "n"); i > 0; i-- {
			op := rapid.IntRange(0, 11).Draw(c.T, "op")
			ns := registered()
			if len(ns) == 0 {
				op = 0
			}
			switch op {
			case 0, 1:
				n := &N{name: rapid.SampledFrom(nmNames).Draw(c.T, "name"), impl: rapid.IntRange(0, 5).Draw(c.T, "impl"), ifd: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "ifd"),
					extractor: rapid.IntRange(0, 5).Draw(c.T, "extractor") > 0, checker: rapid.IntRange(0, 2).Draw(c.T, "checker") == 0}
				n.ctor = rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2, 3}).Draw(c.T, "ctor")
				if n.ifd > 0 && !nmIsMarked[n.ifd][n.impl] {
					n.ifd = 0
				}
				doing = fmt.Sprintf("register %s impl %d, ifd %d, ctor %d, extractor %v, checker %v", n.name, n.impl, n.ifd, n.ctor, n.extractor, n.checker)
				fmt.Fprintln(log, doing)
				var ctor dgo.Constructor
				if n.ctor > 0 {
					ctor = func(arg dgo.Value) dgo.Value {
						switch n.ctor {
						case 2:
							return vf.Values(arg)
						case 3:
							return nmMake(n.name, (n.impl+1)%2, arg)
						}
						return nmMake(n.name, n.impl, arg)
					}
				}
				var ex dgo.InitArgExtractor
				if n.extractor {
					ex = func(v dgo.Value) dgo.Value { return v.(nmValue).nmArg() }
				}
				var ifd reflect.Type
				if n.ifd > 0 {
					ifd = nmIfds[n.ifd]
				}
				var ck dgo.AssignableChecker
				if n.checker {
					ck = nmChecker
				}
				p := catch(func() { n.d = tf.NewNamed(n.name, ctor, ex, nmImpls[n.impl], ifd, ck) })
				if (p != nil) != (reg[n.name] != nil) || p != nil && p.runtimeErr() {
					fail("%v", p)
				}
				if p == nil {
					reg[n.name] = n
					nts = append(nts, &NT{n: n, d: n.d})
				}
			case 2:
				n := rapid.SampledFrom(nmNames).Draw(c.T, "name")
				doing = "remove " + n
				fmt.Fprintln(log, doing)
				if reg[n] == nil || rapid.IntRange(0, 2).Draw(c.T, "remove") > 0 {
					break
				}
				tf.RemoveNamed(n)
				delete(reg, n)
				var kt []*NT
				for _, x := range nts {
					if x.n.name != n {
						kt = append(kt, x)
					}
				}
				nts = kt
				var kv []nmValue
				for _, x := range vals {
					if x.nmName() != n {
						kv = append(kv, x)
					}
				}
				vals = kv
			case 3:
				n := rapid.SampledFrom(ns).Draw(c.T, "type")
				a, b := rapid.Int64Range(-3, 9).Draw(c.T, "min"), rapid.Int64Range(-3, 9).Draw(c.T, "max")
				doing = fmt.Sprintf("%s[%d,%d]", n.name, a, b)
				for _, x := range nts {
					if x.params && rapid.Bool().Draw(c.T, "again") {
						a, b = x.min, x.max
						break
					}
				}
				fmt.Fprintln(log, doing)
				ps := vf.MutableValues(a, b)
				base := n.d
				for _, x := range nts {
					if x.params && x.n == n && rapid.Bool().Draw(c.T, "replace") {
						base = x.d.(dgo.NamedType) // the parameters of a type are replaced
						break
					}
				}
				pt := tf.Parameterized(base, ps)
				ps.Set(0, "changed")
				ps.Add(1)
				if pt.Name() != n.name || !pt.Parameters().Equals(vf.Values(a, b)) || typ.Generic(pt) != dgo.Type(n.d) || pt.Equals(n.d) || n.d.Equals(pt) {
					fail("is %s", pt)
				}
				nts = append(nts, &NT{n: n, params: true, min: a, max: b, d: pt})
			default:
				nt := rapid.SampledFrom(nts).Draw(c.T, "type")
				arg := drawArg(nt.n.impl)
				doing = fmt.Sprintf("new %s from %s", nt, arg.str())
				fmt.Fprintln(log, doing)
				var want nmValue
				switch nt.n.ctor {
				case 1:
					want = nmMake(nt.n.name, nt.n.impl, build(arg, fixedRoute)).(nmValue)
				case 3:
					if nt.exact == nil {
						// depends on the kind of check
						want = nil
						break
					}
				}
				if want != nil && !nt.instance(want, nt.n) {
					want = nil
				}
				var got dgo.Value
				p := catch(func() { got = vf.New(nt.d, build(arg, fixedRoute)) })
				if p != nil && p.runtimeErr() {
					fail("%v %s", p, p.stack)
				}
				if p == nil && !nt.d.Instance(got) {
					fail("%s isn't an instance", got)
				}
				if nt.n.ctor == 3 {
					break
				}
				if (p == nil) != (want != nil) || p == nil && (!nmEquals(want, got) || !got.Equals(want)) {
					fail("%v %v, not %v", got, p, want)
				}
				if p != nil {
					break
				}
				vals = append(vals, got.(nmValue))
				et := got.Type()
				if et.(dgo.NamedType).Name() != nt.n.name || typ.Generic(et) != dgo.Type(nt.n.d) {
					fail("has type %s with the generic type %s", et, typ.Generic(et))
				}
				nts = append(nts, &NT{n: nt.n, exact: got.(nmValue), d: et})
				if nt.params && rapid.Bool().Draw(c.T, "exact") {
					et := tf.ExactNamed(nt.d.(dgo.NamedType), got)
					if et.Name() != nt.n.name || typ.Generic(et) != dgo.Type(nt.n.d) || et.ReflectType() != nmImpls[nt.n.impl] {
						fail("the type %s of the parameterized value has the generic type %s", et, typ.Generic(et))
					}
					nts = append(nts, &NT{n: nt.n, exact: got.(nmValue), d: et})
				}
				used = used || len(ns) > 1
			}
			// lookups
			for _, name := range nmNames {
				n := reg[name]
				d := tf.Named(name)
				if n == nil && d != nil || n != nil && d != n.d {
					fail("the type with name %s is %v", name, d)
				}
				if n != nil && (d.Name() != name || d.String() != name || d.Parameters() != nil || !d.Equals(n.d) || d.ReflectType() != nmImpls[n.impl]) {
					fail("the named type %s isn't what was registered", d)
				}
			}
			for _, rt := range append(nmIfds[1:], reflect.TypeOf(nmPtr{}), reflect.TypeOf([]dgo.Value{}), reflect.TypeOf(int64(0))) {
				if d := tf.NamedFromReflected(rt); d != nil {
					fail("the named type of %s is %v", rt, d)
				}
			}
			for impl, rt := range nmImpls[:5] {
				any := false
				for _, n := range reg {
					any = any || n.impl == impl
				}
				d := tf.NamedFromReflected(rt)
				if any != (d != nil) || d != nil && (reg[d.Name()] == nil || reg[d.Name()].impl != impl) {
					fail("the named type of %s is %v", rt, d)
				}
			}
		}
		if len(nts) == 0 {
			return
		}
		// all pairs, and some uses of what remains
		doing = "finally"
		for _, a := range nts {
			for _, b := range nts {
				if a.d.Equals(b.d) != a.equal(b) || a.equal(b) && a.d.HashCode() != b.d.HashCode() {
					fail("%s equals %s: %v", a, b, a.d.Equals(b.d))
				}
				if a.d.Assignable(b.d) != a.assignable(b) || a.d.Type().Instance(b.d) != a.assignable(b) {
					fail("%s (impl %d) is assignable from %s (impl %d): %v, instance of meta type: %v", a, a.n.impl, b, b.n.impl, a.d.Assignable(b.d), a.d.Type().Instance(b.d))
				}
			}
			for _, v := range vals {
				if a.d.Instance(v) != a.instance(v, reg[v.nmName()]) {
					fail("%s (impl %d) has the instance %s (impl %d): %v", a, a.n.impl, v, reg[v.nmName()].impl, a.d.Instance(v))
				}
			}
			for _, o := range []interface{}{nil, 3, "x", vf.Values(1), struct{}{}} {
				if a.d.Instance(o) {
					fail("%s has the instance %v", a, o)
				}
			}
			if a.d.Assignable(typ.Any) || a.d.Assignable(typ.String) {
				fail("%s is assignable from any or string", a)
			}
			checkNamedText(c, a, fail)
		}
		for _, v := range vals {
			n := reg[v.nmName()]
			var arg dgo.Value
			p := catch(func() { arg = n.d.ExtractInitArg(v) })
			if (p == nil) != n.extractor || p != nil && p.runtimeErr() {
				fail("init argument of %s: %v", v, p)
			}
			if p != nil {
				continue
			}
			if r := n.d.New(arg); !r.Equals(v) || !v.Equals(r) || r.HashCode() != v.HashCode() || r.String() != v.String() {
				fail("%s, recreated from its init argument is %s", v, r)
			}
			checkNamedStream(c, v, vals, reg, fail)
		}
		if used {
			c.NonTrivial(log.String())
		}
	})
}

// hasEmptyArray is true when the text of the value denotes something else
func hasEmptyArray(v *V) bool {
	return v.has(func(x *V) bool { return x.K == kArray && len(x.A) == 0 })
}

func checkNamedText(c *C, a *NT, fail func(string, ...interface{})) {
	if a.exact != nil {
		if !a.n.extractor || a.n.ctor != 1 {
			return
		}
		arg := model(a.exact.nmArg())
		if inexpressible(tExactOf(arg)) || hasEmptyArray(arg) {
			return
		}
	}
	s := a.d.String()
	texts := map[string]dgo.Type{s: a.d, "{" + s + ",int}": tf.Tuple(a.d, typ.Integer), "[]" + s: tf.Array(a.d), "map[string]" + s + "|nil": tf.AnyOf(tf.Map(typ.String, a.d), typ.Nil)}
	if a.exact == nil {
		texts["type["+s+"]"] = a.d.Type()
		texts[s+"|int"] = tf.AnyOf(a.d, typ.Integer)
	}
	for text, want := range texts {
		var got dgo.Type
		p := catch(func() { got = tf.ParseType(text) })
		if p != nil || !got.Equals(want) {
			fail("the text %s is parsed as %v and not as %s (%v)", text, got, want, p)
		}
	}
	if a.n.name[0] == '_' {
		return
	}
	text := strings.ToUpper(a.n.name[:1]) + a.n.name[1:]
	want := dgo.Value(a.d)
	switch {
	case a.params:
		text += fmt.Sprintf("[%d,%d]", a.min, a.max)
	case a.exact != nil:
		i, ok := a.exact.nmArg().(dgo.Integer)
		if !ok {
			return
		}
		text += fmt.Sprintf("(%d)", i.GoInt())
		want = a.exact
		if a.n.impl != 2 {
			// a call gives the arguments as they are
			want = nmMake(a.n.name, a.n.impl, vf.Values(i))
			if !(&NT{n: a.n}).instance(want.(nmValue), a.n) {
				return
			}
		} else {
			return
		}
	}
	var got dgo.Value
	p := catch(func() { got = pcore.Parse(text) })
	if p != nil || !got.Equals(want) {
		fail("the pcore text %s is parsed as %v and not as %s (%v)", text, got, want, p)
	}
}

func checkNamedStream(c *C, v nmValue, vals []nmValue, reg map[string]*N, fail func(string, ...interface{})) {
	o := drawStreamOptions(c.T, false)
	other := vals[rapid.IntRange(0, len(vals)-1).Draw(c.T, "other")]
	if !reg[other.nmName()].extractor {
		other = v
	}
	if hasBadKey(v) || hasBadKey(other) {
		return
	}
	dv := vf.Values(v, "a long string which is repeated", vf.Map("x", other, "a long string which is repeated", v), v.nmArg(), "a long string which is repeated", other)
	var got dgo.Value
	p := catch(func() {
		switch rapid.IntRange(0, 2).Draw(c.T, "route") {
		case 0:
			dc := streamer.DataCollector()
			streamer.New(nil, o).Stream(dv, dc)
			dd := streamer.DataDecoder(nil, o.Dialect)
			streamer.New(nil, o).Stream(dc.Value(), dd)
			got = dd.Value()
		case 1:
			var b bytes.Buffer
			streamer.New(nil, o).Stream(dv, streamer.JSON(&b))
			got = streamer.UnmarshalJSON(b.Bytes(), o.Dialect)
		case 2:
			dd := streamer.DataDecoder(nil, o.Dialect)
			streamer.New(nil, o).Stream(dv, dd)
			got = dd.Value()
		}
	})
	if p != nil {
		if strings.Contains(fmt.Sprintf("%T", p.v), "rapid") {
			panic(p.v)
		}
		fail("streaming %s (%s): %s\n%s", dv, describe(o), p, p.stack)
	}
	if !got.Equals(dv) || !dv.Equals(got) {
		fail("streaming %s (%s) gives %s", dv, describe(o), got)
	}
}

// hasBadKey is true for values with NaN
func hasBadKey(v nmValue) bool {
	return strings.Contains(model(v.nmArg()).str(), "NaN")
}

// TestP29_Together registers the same names from several goroutines at once
func TestP29_Together(t *testing.T) {
	prop(t, 300, "names, each registered by several goroutines at once; always non-trivial", func(c *C) {
		names := []string{"tA", "tB", "tC"}
		n := rapid.IntRange(2, 8).Draw(c.T, "goroutines")
		got := make([][]dgo.NamedType, n)
		for _, nm := range names {
			tf.RemoveNamed(nm)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			g := g
			got[g] = make([]dgo.NamedType, len(names))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := range names {
					k := (i + g) % len(names)
					_ = catch(func() { got[g][k] = tf.NewNamed(names[k], nil, nil, nmImpls[g%4], nil, nil) })
				}
			}()
		}
		close(start)
		wg.Wait()
		for k, nm := range names {
			won := 0
			for g := range got {
				if got[g][k] != nil {
					won++
					if tf.Named(nm) != got[g][k] {
						c.Fatalf("the registered type %s isn't found", nm)
					}
				}
			}
			if won != 1 {
				c.Fatalf("%d goroutines registered the type %s", won, nm)
			}
			tf.RemoveNamed(nm)
		}
		c.NonTrivial(fmt.Sprint(n, c.T))
	})
}

// TestP29_Parameters checks that parameters, which can be values and types, are retained by the text of a parameterized
// type and by what parses it, also when there are aliases for the types of the values
func TestP29_Parameters(t *testing.T) {
	const name = "p29Params"
	tf.RemoveNamed(name)
	nt := tf.NewNamed(name, nil, nil, nil, nil, nil)
	defer tf.RemoveNamed(name)
	known(t, "type-parameter", func() string {
		s := tf.Parameterized(nt, vf.Values(typ.Integer)).String()
		if s == name+"[int]" {
			return ""
		}
		return "a parameter that is a type is printed as the type of that type: " + s
	})
	tf.AddDefaultAliases(func(aa dgo.AliasAdder) {
		for i, v := range []interface{}{3, "a", true, 1.5} {
			if n := vf.String(fmt.Sprintf("p29Alias%d", i)); aa.GetType(n) == nil {
				aa.Add(vf.Value(v).Type(), n)
			}
		}
	})
	scalars := []K{kInt, kInt, kString, kBool, kFloat, kNil}
	prop(t, 3000, "parameters of a named type; non-trivial for more than one", func(c *C) {
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		vs := make([]interface{}, n)
		texts := make([]string, n)
		types := 0
		for i := range vs {
			if rapid.IntRange(0, 3).Draw(c.T, "type") == 0 {
				ty := drawT(c.T, tOpts{depth: 2, excl: []TK{tBinarySized, tTime, tRegexp, tExact, tPattern, tStruct}})
				if inexpressible(ty) || escapedPattern(ty) {
					ty = tk(tInt)
				}
				d := ty.build()
				if dgo.IsExact(d) || d.Equals(typ.Nil) {
					d = typ.Integer // the text denotes a value
				}
				vs[i], texts[i] = d, d.String()
				types++
				continue
			}
			v := vInt(3)
			if rapid.IntRange(0, 3).Draw(c.T, "aliased") > 0 {
				v = drawV(c.T, vOpts{kinds: scalars, depth: 1})
			}
			if v.K == kFloat && (math.IsNaN(v.F) || math.IsInf(v.F, 0)) {
				v = vFloat(1.5)
			}
			vs[i] = build(v, fixedRoute)
			switch v.K {
			case kInt:
				texts[i] = strconv.FormatInt(v.I, 10)
			case kString:
				texts[i] = strconv.Quote(v.S)
			case kBool:
				texts[i] = strconv.FormatBool(v.B)
			case kFloat:
				texts[i] = util.Ftoa(v.F)
			default:
				texts[i] = "nil"
			}
		}
		want := vf.Values(vs...)
		pt := tf.Parameterized(nt, want)
		text := name + "[" + strings.Join(texts, ",") + "]"
		c.Doing("%s", text)
		if !pt.Parameters().Equals(want) || pt.Equals(nt) || nt.Equals(pt) || pt.Name() != name {
			c.Fatalf("%s has the parameters %s", text, pt.Parameters())
		}
		same := tf.Parameterized(nt, vf.MutableValues(vs...))
		if !same.Equals(pt) || !pt.Equals(same) || same.HashCode() != pt.HashCode() {
			c.Fatalf("%s and %s are not equal", pt, same)
		}
		if less := tf.Parameterized(nt, want.Slice(0, n-1)); less.Equals(pt) || pt.Equals(less) {
			c.Fatalf("%s equals %s", pt, less)
		}
		check := func(s string) {
			var got dgo.Value
			p := catch(func() { got = tf.Parse(s) })
			gt, ok := got.(dgo.NamedType)
			if p != nil || !ok || gt.Name() != name || gt.Parameters() == nil || !gt.Parameters().Equals(want) || !gt.Equals(pt) {
				c.Fatalf("the text %s is parsed as %v (%v)", s, got, p)
			}
		}
		check(text)
		if s := pt.String(); types == 0 || s == text {
			check(s)
		}
		if n > 1 {
			c.NonTrivial(text)
		}
	})
}
