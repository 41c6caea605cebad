package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// secrets is a source of marked leaf values. Each of them can be found in a text in any of its usual forms.
type secrets struct {
	n     int
	forms map[string]string // what to look for, and what it is
}

const canary = "qZxJvKw"

func (s *secrets) form(f, what string) {
	for _, x := range []string{f, strings.ToUpper(f), strings.ToLower(f)} {
		s.forms[x] = what
	}
}

func (s *secrets) text() string {
	s.n++
	s.form(canary, "a string")
	s.form(hex.EncodeToString([]byte(canary)), "a string in hex")
	for i := 0; i < 3; i++ {
		b := base64.StdEncoding.EncodeToString([]byte(strings.Repeat(" ", i) + canary))
		s.forms[b[4:8]] = "a string in base64"
	}
	dec := strings.Trim(fmt.Sprint([]byte(canary)), "[]")
	s.forms[dec] = "a string as bytes"
	s.forms[strings.ReplaceAll(dec, " ", ",")] = "a string as bytes"
	return fmt.Sprintf("%s%d", canary, s.n)
}

func (s *secrets) integer() int64 {
	s.n++
	i := int64(7193048612000 + s.n)
	s.form("7193048612", "an int")
	s.form(fmt.Sprintf("%x", i)[:8], "an int in hex")
	s.form(fmt.Sprintf("%o", i)[:11], "an int in octal")
	s.form(fmt.Sprintf("%b", i)[:32], "an int in binary")
	s.form("7.19304861", "an int as float")
	return i
}

// mark returns a value of the same structure as v where every leaf is a marked value
func (s *secrets) mark(v *V) *V {
	switch v.K {
	case kInt:
		return vInt(s.integer())
	case kFloat:
		return vFloat(float64(s.integer()) + 0.5)
	case kString:
		return vStr(s.text())
	case kBinary:
		return vBin([]byte(s.text()))
	case kRegexp:
		return vRx(s.text())
	case kTime:
		s.n++
		s.form("2719-03-", "a time")
		s.form("Mar 27", "a time")
		return vTime(time.Date(2719, 3, 4, 5, 6, s.n%60, s.n, time.UTC))
	case kType:
		switch s.n++; s.n % 5 {
		case 0:
			return vType(&T{K: tCi, S: s.text()})
		case 1:
			return vType(&T{K: tPattern, S: s.text()})
		case 2:
			return vType(tIR(s.integer(), s.integer()+10, true))
		case 3:
			return vType(&T{K: tStruct, Keys: []*V{vStr(s.text())}, Req: []bool{true}, E: []*T{tk(tInt)}})
		}
		return vType(tExactOf(vStr(s.text())))
	case kArray, kSensitive:
		c := &V{K: v.K}
		for _, e := range v.A {
			c.A = append(c.A, s.mark(e))
		}
		return c
	case kMap:
		c := vMap()
		for i := range v.MK {
			k := s.mark(v.MK[i])
			if k.K == kNil || k.K == kBool {
				k = vStr(s.text())
			}
			c.put(k, s.mark(v.MV[i]))
		}
		return c
	}
	return v
}

// hide replaces some of the parts of a value by secrets. It returns how many.
func (s *secrets) hide(t *rapid.T, v *V) (*V, int) {
	if rapid.IntRange(0, 3).Draw(t, "hide") == 0 {
		x := s.mark(drawV(t, richOpts(3)))
		return vSens(x), 1
	}
	n := 0
	sub := func(x *V) *V {
		y, m := s.hide(t, x)
		n += m
		return y
	}
	switch v.K {
	case kArray:
		c := vArr()
		for _, e := range v.A {
			c.A = append(c.A, sub(e))
		}
		return c, n
	case kMap:
		c := vMap()
		for i := range v.MK {
			c.put(sub(v.MK[i]), sub(v.MV[i]))
		}
		return c, n
	}
	return v, n
}

// found returns what of the secrets is found in the given text
func (s *secrets) found(text string) string {
	for f, what := range s.forms {
		if strings.Contains(text, f) {
			return what
		}
	}
	return ""
}

type withSecret struct {
	Public string
	Value  dgo.Value
	Any    interface{}
	Sens   dgo.Sensitive
	List   []dgo.Sensitive
}

var verbs = []string{"%v", "%+v", "%#v", "%s", "%q", "%x", "%X", "% x", "%d", "%t", "%g", "%f", "%e", "%c", "%U", "%o", "%b", "%p", "%20s", "%z", "%+d", "%#x", "%+q"}

var errorTypes = []string{"string", "int", "float", "bool", "binary", "time", "[]string", "[]int", "map[string]int", "string[1,2]", "sensitive[int]", "sensitive[string]", "{a:int}", `"a"`, "1..4", "3", "type",
	"any&nil", "type[int]", "func(int)", "error", "!any", "[3]any", "{int,string}", "/a/", "~a", `{a:sensitive[float],b?:[]int}`}

func TestP25_Redacted(t *testing.T) {
	var types []dgo.Type
	for _, x := range errorTypes {
		if ty, p := parseT(x); p == nil {
			types = append(types, ty)
		}
	}
	types = append(types, typ.DgoString)
	prop(t, 1100, "a value with marked secrets inside of sensitive values; non-trivial when sensitive values are found inside of other values", func(c *C) {
		s := &secrets{forms: map[string]string{}}
		v, n := s.hide(c.T, drawV(c.T, richOpts(3)))
		if n == 0 {
			v, n = vSens(s.mark(drawV(c.T, richOpts(3)))), 1
		}
		c.Doing("%s", v.str())
		dv := build(v, drawRouter(c.T))
		check := func(what, text string) {
			if f := s.found(text); f != "" {
				c.Fatalf("%s reveals %s: %s\nof %s", what, f, text, v.str())
			}
		}
		failing := func(what string, f func()) {
			p := catch(f)
			if p == nil {
				return
			}
			c.Class("error")
			check("the error of "+what, p.String())
			if e, ok := p.v.(error); ok {
				check("the error of "+what, fmt.Sprintf("%+v", e))
				x := vf.Value(e)
				check("the error value of "+what, x.String())
				check("the error value of "+what, fmt.Sprintf("%v %+v", x, x))
			}
		}
		texts := func(what string, x dgo.Value) {
			check("the text of "+what, x.String())
			if ia, ok := x.(dgo.Indentable); ok {
				check("the text of "+what, util.ToString(ia))
				check("the indented text of "+what, util.ToIndentedString(ia))
			}
			in := util.NewIndenter("  ")
			in.AppendValue(x)
			check("the appended value of "+what, in.String())
			vs := verbs
			if _, ok := x.(dgo.Sensitive); !ok {
				vs = verbs[:7] // the others print the memory of a value that has no numeric form
			}
			for _, verb := range vs {
				check(what+" formatted by "+verb, fmt.Sprintf(verb, x))
			}
			check("the print of "+what, fmt.Sprint(x, []dgo.Value{x}, map[string]interface{}{"a": x}))
			tx := x.Type()
			for i := 0; i < 3; i++ {
				check("the type of "+what, tx.String())
				check("the type of "+what, stringer.TypeString(tx))
				check("the type of "+what, fmt.Sprintf("%v %+v %s %q", tx, tx, tx, tx))
				check("the generic type of "+what, typ.Generic(tx).String())
				tx = tx.Type()
			}
		}
		texts("the value", dv)
		for _, x := range []dgo.Value{vf.MutableValues(dv, 1), vf.Values(1, dv), vf.MutableMap("k", dv), vf.Map("k", dv), vf.Sensitive(dv), vf.Arguments(dv),
			vf.MutableMap(dv, "k"), vf.Map(dv, 1), vf.Value(errors.New("x"))} {
			texts("a value that contains it", x)
		}
		var sens dgo.Sensitive = vf.Sensitive(dv)
		texts("a struct that contains it", vf.MutableMap(&withSecret{"p", dv, dv, sens, []dgo.Sensitive{sens}}))
		texts("a native struct that contains it", vf.Value(struct{ A interface{} }{dv}))
		// errors about it
		ty := rapid.SampledFrom(types).Draw(c.T, "type")
		for _, ty := range []dgo.Type{ty, types[rapid.IntRange(0, len(types)-1).Draw(c.T, "type2")], dv.Type(), typ.Generic(dv.Type()), build(v, fixedRoute).Type()} {
			if reflect.TypeOf(ty.Type()) != nil && ty.Equals(typ.Any) {
				continue
			}
			for _, arg := range []dgo.Value{dv, vf.Arguments(dv), vf.Arguments(dv, dv), vf.Arguments(dv, 16), vf.Arguments(dv, "%d"), vf.Arguments(dv, "%v"), vf.Arguments(dv, "%x"), vf.Arguments(dv, "%B"),
				vf.Arguments("%B", dv), vf.Arguments(1, dv), vf.Values(dv, dv), vf.Values("a", dv)} {
				arg := arg
				failing(fmt.Sprintf("a new %s", ty), func() { texts("a new "+ty.String(), vf.New(ty, arg)) })
			}
			st := tf.StructMapFromMap(false, vf.Map("a", ty))
			for _, m := range []dgo.Map{vf.Map("a", dv), vf.Map(dv, 1), vf.Map("b", dv)} {
				m := m
				for _, e := range st.Validate(nil, m) {
					check("the validation by "+st.String(), e.Error())
				}
				in := util.NewIndenter("  ")
				st.ValidateVerbose(m, in)
				check("the verbose validation by "+st.String(), in.String())
				failing("a new struct map", func() { vf.New(st, m) })
			}
			failing("a new map type", func() { vf.New(tf.Map(ty, ty), vf.Map(dv, dv)) })
		}
		for _, g := range []interface{}{new(string), new(int), new(bool), new(float64), new([]string), new(map[string]int), new([]byte), new(*regexp.Regexp), new(time.Time), new(error), new(struct{ A int }), new(uint8), new(chan int), new(func())} {
			g := g
			failing(fmt.Sprintf("the conversion to %T", g), func() { vf.FromValue(dv, g) })
			failing(fmt.Sprintf("the conversion of a map to %T", g), func() { vf.FromValue(vf.Map("A", dv), g) })
		}
		fn := vf.Value(func(a int, b string, c ...float64) string { return "" }).(dgo.Function)
		for _, as := range []dgo.Array{vf.Values(dv), vf.Values(dv, dv), vf.Values(1, dv), vf.Values(1, "a", dv), vf.Values(1, "a", 2.0, dv)} {
			as := as
			failing("the call of a function", func() { fn.Call(as) })
		}
		failing("the call of a method", func() {
			m := vf.MutableMap(&withSecret{})
			failing("an assignment to a struct", func() { m.Put("Public", dv) })
			failing("an assignment to a struct", func() { m.Put(dv, dv) })
			failing("an assignment to a struct", func() { m.Put("List", dv) })
			failing("an assignment to a struct", func() { m.Put("Sens", vf.Values(dv)) })
			failing("an assignment to a struct", func() { m.Put("Sens", dv); m.Remove(dv) })
		})
		for _, x := range []dgo.Value{vf.Values(dv, 1, "a", dv), vf.Values(dv), vf.Map(dv, dv)} {
			switch x := x.(type) {
			case dgo.Array:
				failing("the sorting", func() { x.Sort() })
				failing("the change of something frozen", func() { x.Set(0, dv) })
				failing("the change of something frozen", func() { x.Add(dv) })
				failing("the change of something frozen", func() { x.RemoveValue(dv) })
				failing("the use as a key", func() { x.ToMap() })
			case dgo.Map:
				failing("the change of something frozen", func() { x.Put(dv, dv) })
				failing("the change of something frozen", func() { x.Put(dv, 1) })
				failing("the change of something frozen", func() { x.Remove(dv) })
			}
		}
		// data streams don't accept it
		failing("the streaming", func() {
			o := streamer.DefaultOptions()
			o.RichData = false
			var b bytes.Buffer
			defer func() { check("the streamed data", b.String()) }()
			streamer.New(nil, o).Stream(dv, streamer.JSON(&b))
		})
		for k := range v.kindsOf(map[K]bool{}) {
			c.Class("%s", kNames[k])
		}
		if v.K != kSensitive {
			c.NonTrivial(v.str())
		}
	})
}

func (v *V) kindsOf(m map[K]bool) map[K]bool {
	v.has(func(x *V) bool { m[x.K] = true; return false })
	return m
}

// TestP25_Follows checks that a sensitive value is compared, hashed, copied, and frozen like the value it wraps
func TestP25_Follows(t *testing.T) {
	prop(t, 15000, "two sensitive values that wrap related values; non-trivial when they wrap collections", func(c *C) {
		v := drawV(c.T, richOpts(3))
		w := drawNear(c.T, v, richOpts(2))
		r := drawRouter(c.T)
		dv, dw := build(v, r), build(w, r)
		a, b := vf.Sensitive(dv), vf.Sensitive(dw)
		what := fmt.Sprintf("sensitive(%s) and sensitive(%s)", v.str(), w.str())
		if a.Unwrap() != dv {
			c.Fatalf("%s: unwraps to %s", what, a.Unwrap())
		}
		eq := dv.Equals(dw)
		if a.Equals(b) != eq || b.Equals(a) != eq || refEq(v, w) != eq {
			c.Fatalf("%s: equals is %v, that of the wrapped values %v", what, a.Equals(b), eq)
		}
		if eq && a.HashCode() != b.HashCode() {
			c.Fatalf("%s: different hash codes", what)
		}
		if a.Equals(dv) || dv.Equals(a) || a.Equals(vf.Sensitive(a)) {
			c.Fatalf("%s: equal to what it wraps", what)
		}
		if a.HashCode() == dv.HashCode() && v.K != kNil && dv.HashCode() != 0 {
			c.Class("same hash as wrapped")
		}
		frozen := true
		if f, ok := dv.(dgo.Freezable); ok {
			frozen = f.Frozen()
		}
		if a.Frozen() != frozen {
			c.Fatalf("%s: frozen is %v, that of the wrapped value %v", what, a.Frozen(), frozen)
		}
		fc := a.FrozenCopy().(dgo.Sensitive)
		if !fc.Frozen() || !fc.Equals(a) || notFrozen(fc.Unwrap()) != nil || a.Frozen() != frozen || (fc == a) != frozen && isMutable(dv) {
			c.Fatalf("%s: frozen copy %s", what, fc.Unwrap())
		}
		tc := a.ThawedCopy().(dgo.Sensitive)
		if !tc.Equals(a) {
			c.Fatalf("%s: thawed copy %s", what, tc.Unwrap())
		}
		if isCollection(dv) {
			if tc.Unwrap() == dv || tc.Frozen() {
				c.Fatalf("%s: thawed copy is frozen: %v", what, tc.Frozen())
			}
			c.NonTrivial(what)
		}
		if wt := vf.Sensitive(dv).Type(); !wt.Instance(a) || !typ.Sensitive.Instance(a) || typ.Sensitive.Instance(dv) != (v.K == kSensitive) {
			c.Fatalf("%s: not an instance of %s", what, wt)
		}
		a.Freeze()
		if !a.Frozen() || notFrozen(a) != nil {
			c.Fatalf("%s: not frozen after Freeze", what)
		}
		c.Class("%s equal %v", kNames[v.K], eq)
	})
}

func isCollection(v dgo.Value) bool {
	switch v.(type) {
	case dgo.Array, dgo.Map:
		return true
	}
	return false
}

// other returns a value with the same structure, where all leaves are other values of the same kind, when there are such
func other(t *rapid.T, v *V) *V {
	switch v.K {
	case kArray, kSensitive:
		c := &V{K: v.K}
		for _, e := range v.A {
			c.A = append(c.A, other(t, e))
		}
		return c
	case kMap:
		c := vMap()
		for i := range v.MK {
			k := other(t, v.MK[i])
			for n := 0; n < 20 && c.get(k) >= 0; n++ {
				k = drawK(t, v.MK[i].K, vOpts{})
			}
			if c.get(k) >= 0 {
				return v
			}
			c.put(k, other(t, v.MV[i]))
		}
		return c
	case kBool:
		return vBool(!v.B)
	case kInt, kFloat, kString, kBinary, kTime, kRegexp:
		return drawK(t, v.K, vOpts{})
	}
	return v
}

// TestP25_Interference checks that texts and errors are the same for values that only differ in what sensitive values wrap
func TestP25_Interference(t *testing.T) {
	prop(t, 2500, "two values that only differ in the leaves within sensitive values; non-trivial when they do differ", func(c *C) {
		leaf := vOpts{kinds: []K{kNil, kBool, kBool, kInt, kFloat, kString, kBinary, kTime, kRegexp, kArray, kMap, kSensitive}, keys: []K{kString, kInt, kBool}, depth: 3, width: 3}
		v := drawV(c.T, leaf)
		w := other(c.T, v)
		what := v.str() + " and " + w.str()
		mk := func(v *V) dgo.Value { return vf.Sensitive(build(v, fixedRoute)) }
		if rapid.Bool().Draw(c.T, "frozen") {
			mk = func(v *V) dgo.Value { return vf.Sensitive(build(v, fixedRoute)).FrozenCopy() }
		}
		texts := func(x dgo.Value) (ts []string) {
			add := func(f string, as ...interface{}) { ts = append(ts, fmt.Sprintf(f, as...)) }
			for _, y := range []dgo.Value{x, vf.MutableValues(x, 1), vf.Map("k", x), vf.Map(x, "k"), vf.Arguments(x), vf.Values(vf.Map("a", vf.Values(x)))} {
				add("%s", y.String())
				vs := verbs
				if y != x {
					vs = []string{"%v", "%s"} // others print addresses
				}
				for _, verb := range vs {
					if verb != "%p" {
						add(verb, y)
					}
				}
				if ia, ok := y.(dgo.Indentable); ok {
					add("%s", util.ToString(ia))
					add("%s", util.ToIndentedString(ia))
				}
				in := util.NewIndenter(" ")
				in.AppendValue(y)
				add("%s", in)
				if y == x || y.Type().Equals(y.Type()) {
					add("%s %s %v", y.Type(), stringer.TypeString(y.Type()), typ.Generic(y.Type()))
				}
			}
			for _, f := range []func(){
				func() { vf.New(typ.Integer, x) }, func() { vf.New(typ.String, x) }, func() { vf.New(typ.Boolean, x) }, func() { vf.New(tf.Array(typ.Integer), vf.Values(x)) },
				func() { vf.New(typ.Time, x) }, func() { vf.New(typ.Binary, x) }, func() { vf.Values(x).Add(x) }, func() { vf.Map("a", 1).Put(x, x) },
				func() { var s string; vf.FromValue(x, &s) }, func() { var s map[string]int; vf.FromValue(x, &s) }, func() { vf.Values(x, 1).Sort() },
				func() { vf.New(tf.Map(typ.String, typ.Integer), vf.Map("a", x)) },
			} {
				if p := catch(f); p != nil {
					add("%s", p)
				} else {
					add("no error")
				}
			}
			st := tf.StructMapFromMap(false, vf.Map("a", typ.Integer))
			for _, e := range st.Validate(nil, vf.Map("a", x)) {
				add("%s", e)
			}
			return ts
		}
		a, b := texts(mk(v)), texts(mk(w))
		if len(a) != len(b) {
			c.Fatalf("%d texts of sensitive %s, %d of sensitive %s", len(a), v.str(), len(b), w.str())
		}
		for i := range a {
			if a[i] != b[i] {
				c.Fatalf("the sensitive values of %s can be told apart by\n%s\nand\n%s", what, a[i], b[i])
			}
		}
		c.Class("%s", kNames[v.K])
		if !refEq(v, w) {
			c.NonTrivial(what)
		}
	})
}
