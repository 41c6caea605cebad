package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// drawEntries draws a value to validate against a struct type, entry by entry, together with what is wrong with it
func drawEntries(c *C, a *T) (*V, []string) {
	v := vMap()
	var wrong []string
	for i, k := range a.Keys {
		var x *V
		switch rapid.IntRange(0, 7).Draw(c.T, "entry") {
		case 0: // absent
		case 1:
			x = drawCandidate(c.T, a.E[i])
		case 2:
			x = vNil()
		default:
			x = drawMember(c.T, a.E[i], 2)
		}
		switch {
		case x == nil:
			if a.Req[i] {
				wrong = append(wrong, "missing "+k.str())
			}
		default:
			v.put(k, x)
			if !member(a.E[i], x) {
				wrong = append(wrong, "instance "+k.str())
			}
		}
	}
	for n := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(c.T, "extra"); n > 0; n-- {
		var k *V
		switch rapid.IntRange(0, 4).Draw(c.T, "extraKey") {
		case 0:
			if len(a.Keys) > 0 { // the type of a key isn't that key
				k = vType(tExactOf(a.Keys[rapid.IntRange(0, len(a.Keys)-1).Draw(c.T, "key")]))
				break
			}
			fallthrough
		case 1:
			if len(a.Keys) > 0 {
				k = drawNear(c.T, a.Keys[rapid.IntRange(0, len(a.Keys)-1).Draw(c.T, "key")], dataOpts(1))
				break
			}
			fallthrough
		default:
			k = drawKey(c.T, richOpts(2))
		}
		if v.get(k) >= 0 {
			continue
		}
		known := false
		for _, ak := range a.Keys {
			known = known || refEq(ak, k)
		}
		if known {
			continue
		}
		v.put(k, drawV(c.T, richOpts(1)))
		if !a.Add {
			wrong = append(wrong, "unknown "+keyName(k))
		}
	}
	sort.Strings(wrong)
	return v, wrong
}

func checkValidation(c *C, ty dgo.StructMapType, what string, v *V, arg interface{}, wrong []string) {
	if got, want := ty.Instance(arg), len(wrong) == 0; got != want {
		c.Fatalf("%s is an instance of %s: %v (%s)", v.str(), what, got, wrong)
	}
	var labelled []*V
	label := func(k dgo.Value) string {
		labelled = append(labelled, model(k))
		return fmt.Sprintf("<%d>", len(labelled)-1)
	}
	var got []string
	errs := ty.Validate(label, arg)
	for _, e := range errs {
		text := e.Error()
		n := -1
		for i := range labelled {
			if strings.Contains(text, fmt.Sprintf("<%d>", i)) {
				n = i
			}
		}
		if n < 0 {
			c.Fatalf("validating %s against %s: %q doesn't contain the label of a key", v.str(), what, text)
		}
		kind := "other"
		for _, w := range []string{"missing", "unknown", "instance"} {
			if strings.Contains(strings.Replace(text, fmt.Sprintf("<%d>", n), "", 1), w) {
				kind = w
				break
			}
		}
		if k := labelled[n]; k.K == kType {
			got = append(got, kind+" type "+k.S)
		} else {
			got = append(got, kind+" "+k.str())
		}
	}
	want := wrong
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("validating %s against %s reports %v, expected %v", v.str(), what, got, want)
	}
	if n := len(ty.Validate(nil, arg)); n != len(wrong) {
		c.Fatalf("validating %s against %s without label reports %d errors, expected %v", v.str(), what, n, want)
	}
	out := util.NewIndenter("  ")
	ok := ty.ValidateVerbose(arg, out)
	text := out.String()
	if ok != (len(wrong) == 0) {
		c.Fatalf("validating %s against %s verbosely gives %v, expected %v\n%s", v.str(), what, ok, want, text)
	}
}

// keyName names a key, types by their text
func keyName(k *V) string {
	if k.K == kType {
		return "type " + build(k, frozenRoute).String()
	}
	return k.str()
}

func TestP18_Validate(t *testing.T) {
	prop(t, 30000, "a struct type and a map assembled entry by entry from members, near misses, absent and unknown keys; non-trivial when there are at least two entries or something is wrong", func(c *C) {
		a := drawTK(c.T, tStruct, tOpts{depth: 3, wideStrs: true})
		st, ok := a.build().(dgo.StructMapType)
		if !ok {
			c.Fatalf("%s isn't a struct type", a.str())
		}
		v, wrong := drawEntries(c, a)
		if nonASCIISized(a, v) {
			return
		}
		checkValidation(c, st, a.str(), v, goOrValue(c.T, v), wrong)
		c.Class("%d wrong", len(wrong))
		if len(a.Keys) >= 2 || len(wrong) > 0 {
			c.NonTrivial(a.str() + " ~ " + v.str())
		}
		if st.Additional() != a.Add && len(a.Keys) > 0 {
			c.Fatalf("%s: additional is %v", a.str(), st.Additional())
		}
	})
}

func TestP18_ValidateOther(t *testing.T) {
	prop(t, 8000, "a struct type and an arbitrary value; non-trivial when the value is a map or the type has entries", func(c *C) {
		a := drawTK(c.T, tStruct, tOpts{depth: 3})
		st := a.build().(dgo.StructMapType)
		v := drawV(c.T, richOpts(3))
		if rapid.Bool().Draw(c.T, "candidate") {
			v = drawCandidate(c.T, a)
		}
		if nonASCIISized(a, v) {
			return
		}
		dv := build(v, drawRouter(c.T))
		want := member(a, v)
		errs := st.Validate(nil, dv)
		out := util.NewIndenter("  ")
		if in, vv := st.Instance(dv), st.ValidateVerbose(dv, out); in != want || vv != want || (len(errs) == 0) != want {
			c.Fatalf("%s: %s is an instance: %v, validates verbosely: %v, errors: %v, expected %v", a.str(), v.str(), in, vv, errs, want)
		}
		if v.K != kMap && len(errs) != 1 {
			c.Fatalf("%s: %s gives %v", a.str(), v.str(), errs)
		}
		if v.K == kMap || len(a.Keys) > 0 {
			c.Class(kNames[v.K])
			c.NonTrivial(a.str() + " ~ " + v.str())
		}
	})
}

func TestP18_Construction(t *testing.T) {
	prop(t, 15000, "a struct type built from entries, from a descriptive map, and from text; non-trivial when it has entries", func(c *C) {
		a := drawTK(c.T, tStruct, tOpts{depth: 3, strKeys: true, wideStrs: true})
		st := a.build().(dgo.StructMapType)
		how := make([]string, len(a.Keys))
		desc := vf.MutableMap()
		for i, k := range a.Keys {
			ty := a.E[i].build()
			var x dgo.Value = ty
			how[i] = "type"
			if rapid.Bool().Draw(c.T, "asText") && !inexpressible(a.E[i]) && !escapedPattern(a.E[i]) {
				x = vf.String(ty.String())
				how[i] = "text"
			}
			if !a.Req[i] || rapid.IntRange(0, 2).Draw(c.T, "asMap") == 0 {
				m := vf.MutableMap()
				m.Put("type", x)
				if !a.Req[i] || rapid.Bool().Draw(c.T, "explicit") {
					m.Put("required", a.Req[i])
				}
				x = m
				how[i] += " in map"
			}
			desc.Put(build(k, fixedRoute), x)
		}
		var arg dgo.Map = desc
		if rapid.Bool().Draw(c.T, "frozen") {
			arg = desc.FrozenCopy().(dgo.Map)
		}
		types := map[string]dgo.Type{}
		if p := catch(func() { types["map"] = tf.StructMapFromMap(a.Add, arg) }); p != nil {
			c.Fatalf("%s cannot be created from the map %s: %s", a.str(), arg, p)
		}
		if !inexpressible(a) && !escapedPattern(a) {
			var es []string
			for i, k := range a.Keys {
				q := ""
				if !a.Req[i] {
					q = "?"
				}
				es = append(es, build(k, fixedRoute).Type().String()+q+":"+a.E[i].build().String())
			}
			if a.Add {
				es = append(es, "...")
			}
			text := "{" + strings.Join(es, ",") + "}"
			if text != "{}" {
				ty, p := parseT(text)
				if p != nil {
					c.Fatalf("%s cannot be created from the text %s: %s", a.str(), text, p)
				}
				types["text "+text] = ty
			}
		}
		var vs []*V
		for i := 0; i < 3; i++ {
			if v, _ := drawEntries(c, a); !nonASCIISized(a, v) {
				vs = append(vs, v)
			}
		}
		for what, ty := range types {
			if !ty.Equals(st) || !st.Equals(ty) || ty.HashCode() != st.HashCode() || ty.String() != st.String() {
				c.Fatalf("%s from %s %s %s isn't equal to %s", a.str(), what, how, ty, st)
			}
			for _, v := range vs {
				dv := build(v, drawRouter(c.T))
				if got, want := ty.Instance(dv), member(a, v); got != want {
					c.Fatalf("%s from %s %s: %s is an instance: %v", a.str(), what, how, v.str(), got)
				}
			}
			// entry access
			sty := ty.(dgo.StructMapType)
			if sty.Len() != len(a.Keys) {
				c.Fatalf("%s from %s has %d entries", a.str(), what, sty.Len())
			}
			n := 0
			sty.Each(func(e dgo.StructMapEntry) {
				k := typ.ExactValue(e.Key().(dgo.Type))
				i := indexOf(a.Keys, model(k))
				if i < 0 || e.Required() != a.Req[i] || !e.Value().Equals(a.E[i].build()) {
					c.Fatalf("%s from %s has the entry %s", a.str(), what, k)
				}
				g := sty.Get(k)
				if g == nil || !g.Equals(e) || !g.Equals(tf.StructMapEntry(k, e.Value(), e.Required())) || !sty.Get(e.Key()).Equals(e) {
					c.Fatalf("%s from %s doesn't find the entry for %s", a.str(), what, k)
				}
				n++
			})
			if n != len(a.Keys) {
				c.Fatalf("%s from %s visits %d entries", a.str(), what, n)
			}
			if k := drawKey(c.T, dataOpts(1)); indexOf(a.Keys, k) < 0 && sty.Get(build(k, fixedRoute)) != nil {
				c.Fatalf("%s from %s finds %s", a.str(), what, k.str())
			}
		}
		if len(a.Keys) > 0 {
			c.Class("%d entries", len(a.Keys))
			c.NonTrivial(a.str())
		}
	})
}

func TestP18_ExactMap(t *testing.T) {
	prop(t, 10000, "the type of a map and a related value; non-trivial when the map isn't empty and the values differ", func(c *C) {
		o := richOpts(3)
		o.keys = []K{kString, kInt, kBool, kType, kSensitive}
		v := drawK(c.T, kMap, o)
		w := drawNear(c.T, v, richOpts(3))
		ty, dw := build(v, drawRouter(c.T)).Type(), build(w, drawRouter(c.T))
		st, ok := ty.(dgo.StructMapType)
		if !ok {
			c.Fatalf("the type of %s isn't a struct type", v.str())
		}
		if v.has(isSensitive) {
			// The type of a sensitive doesn't reveal what it contains, so the entries say less than the map
			if p := catch(func() { st.Validate(nil, dw); st.ValidateVerbose(dw, util.NewIndenter("")) }); p != nil {
				c.Fatalf("the type of %s: validating %s fails: %s", v.str(), w.str(), p)
			}
			c.Class("sensitive")
			return
		}
		want := refEq(v, w)
		out := util.NewIndenter("  ")
		errs := st.Validate(nil, dw)
		if in, vv := st.Instance(dw), st.ValidateVerbose(dw, out); in != want || vv != want || (len(errs) == 0) != want {
			c.Fatalf("the type of %s: %s is an instance: %v, validates verbosely: %v, errors: %v, expected %v", v.str(), w.str(), in, vv, errs, want)
		}
		if len(v.MK) > 0 && !want {
			c.Class("%d entries", len(v.MK))
			c.NonTrivial(v.str() + " ~ " + w.str())
		}
	})
}
