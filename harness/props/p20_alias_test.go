package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// D is a definition in which other names can occur
type D struct {
	ref string
	t   *T
	op  string
	e   []*D
}

// drawD draws a definition that refers to the given names
func drawD(t *rapid.T, names []string, depth int) *D {
	if len(names) > 0 && rapid.IntRange(0, 2).Draw(t, "ref") == 0 {
		return &D{ref: rapid.SampledFrom(names).Draw(t, "name")}
	}
	if depth == 0 || rapid.IntRange(0, 2).Draw(t, "leaf") == 0 {
		return &D{t: rapid.SampledFrom([]*T{tk(tInt), tk(tString), tk(tBool), tk(tAny), tk(tNil), tIR(1, 5, true), tIR(0, 9, true), tk(tFloat),
			tExactOf(vInt(3)), tExactOf(vStr("a")), tExactOf(vStr("b")), tExactOf(vStr("x y")), {K: tStringSized, Min: 1, Max: 3},
			tArr(tk(tInt), 0, math.MaxInt64)}).Draw(t, "type")}
	}
	d := &D{op: rapid.SampledFrom([]string{"array", "map", "anyOf", "not", "tuple", "struct", "sensitive", "func", "type", "entry"}).Draw(t, "op")}
	n := map[string]int{"array": 1, "map": 2, "anyOf": 2, "not": 1, "tuple": 2, "struct": 2, "sensitive": 1, "func": 2, "type": 1, "entry": 1}[d.op]
	for ; n > 0; n-- {
		d.e = append(d.e, drawD(t, names, depth-1))
	}
	return d
}

func (d *D) refs() (r []string) {
	if d.ref != "" {
		return []string{d.ref}
	}
	for _, e := range d.e {
		r = append(r, e.refs()...)
	}
	return
}

func (d *D) text() string {
	var e []string
	for _, x := range d.e {
		e = append(e, x.text())
	}
	switch d.op {
	case "array":
		return "[]" + e[0]
	case "map":
		return "map[" + e[0] + "]" + e[1]
	case "anyOf":
		return "(" + e[0] + "|" + e[1] + ")"
	case "not":
		return "!" + e[0]
	case "tuple":
		return "{" + e[0] + "," + e[1] + "}"
	case "struct":
		return "{a:" + e[0] + ",q?:" + e[1] + "}"
	case "entry":
		return "{b:" + e[0] + "}"
	case "sensitive":
		return "sensitive[[]" + e[0] + "]"
	case "func":
		return "(func(" + e[0] + ") (" + e[1] + "))"
	case "type":
		return "type[" + e[0] + "]"
	}
	if d.ref != "" {
		return d.ref
	}
	return stringer.TypeStringWithAliasMap(d.t.build(), tf.BuiltInAliases())
}

// build makes the type, get gives the types for the names
func (d *D) build(get func(string) dgo.Type) dgo.Type {
	var e []interface{}
	for _, x := range d.e {
		e = append(e, x.build(get))
	}
	switch d.op {
	case "array":
		return tf.Array(e[0])
	case "map":
		return tf.Map(e[0], e[1])
	case "anyOf":
		return tf.AnyOf(e...)
	case "not":
		return tf.Not(e[0].(dgo.Type))
	case "tuple":
		return tf.Tuple(e...)
	case "struct":
		return tf.StructMap(false, tf.StructMapEntry("a", e[0], true), tf.StructMapEntry("q", e[1], false))
	case "entry":
		return tf.StructMap(false, tf.StructMapEntry("b", e[0], true))
	case "sensitive":
		return tf.Sensitive(tf.Array(e[0]))
	case "func":
		return tf.Function(tf.Tuple(e[0]), tf.Tuple(e[1]))
	case "type":
		return tf.Meta(e[0].(dgo.Type))
	}
	if d.ref != "" {
		return get(d.ref)
	}
	return d.t.build()
}

var aliasNames = []string{"a", "b", "c", "d", "q", "n1"}

// weight is the number of nodes in the definition when the names are replaced with what they denote
func (d *D) weight(w map[string]int) int {
	if d.ref != "" {
		return 1 + w[d.ref]
	}
	n := 1
	for _, e := range d.e {
		n += e.weight(w)
	}
	return n
}

// scope is the model of an alias map
type scope map[string]dgo.Type

func (s scope) with(names []string, get func(string) dgo.Type) scope {
	r := scope{}
	for k, v := range s {
		r[k] = v
	}
	for _, n := range names {
		r[n] = get(n)
	}
	return r
}

func (s scope) names() (r []string) {
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func builtinScope() scope {
	s := scope{}
	for _, n := range []string{"data", "richdata"} {
		s[n] = tf.BuiltInAliases().GetType(vf.String(n))
	}
	return s
}

func (s scope) check(am dgo.AliasMap, extra []dgo.Type) string {
	for _, n := range append([]string{"data", "richdata", "string", ""}, aliasNames...) {
		got, want := am.GetType(vf.String(n)), s[n]
		if (got == nil) != (want == nil) || got != nil && !got.Equals(want) {
			return fmt.Sprintf("%q resolves to %v, expected %v", n, got, want)
		}
	}
	for _, ty := range append(extra, typ.String, typ.Any) {
		if msg := s.checkName(am, ty); msg != "" {
			return msg
		}
	}
	for _, n := range s.names() {
		if msg := s.checkName(am, s[n]); msg != "" {
			return msg
		}
	}
	return ""
}

func (s scope) checkName(am dgo.AliasMap, ty dgo.Type) string {
	var named []string
	for _, n := range s.names() {
		if s[n].Equals(ty) {
			named = append(named, n)
		}
	}
	got := am.GetName(ty)
	if got == nil {
		if len(named) > 0 {
			return fmt.Sprintf("%s has no name, expected one of %v", ty, named)
		}
		return ""
	}
	for _, n := range named {
		if n == got.GoString() {
			return ""
		}
	}
	return fmt.Sprintf("%s has the name %s, expected one of %v", ty, got, named)
}

// addition is a set of declarations together with the way they are made
type addition struct {
	names []string
	defs  map[string]*D
	text  map[string]bool
	block []string // all declared together in one text, in that order
	alias map[string]bool
	w     map[string]int
}

func drawAddition(t *rapid.T, s scope, w map[string]int) *addition {
	weights := map[string]int{"data": 10, "richdata": 10}
	for k, v := range w {
		weights[k] = v
	}
	a := &addition{defs: map[string]*D{}, text: map[string]bool{}, alias: map[string]bool{}}
	free := rapid.Permutation(aliasNames).Draw(t, "free")
	avail := s.names()
	for n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4}).Draw(t, "names"); n > 0; n-- {
		name := free[n-1]
		_, known := s[name]
		d := drawD(t, avail, 2)
		for _, o := range a.names {
			for _, r := range a.defs[o].refs() {
				if r == name {
					known = true // was referred to with its old meaning
					d = nil
				}
			}
		}
		if d == nil || d.weight(weights) > 60 {
			continue
		}
		selfRef := false
		for _, r := range d.refs() {
			selfRef = selfRef || r == name
		}
		if selfRef {
			continue
		}
		weights[name] = d.weight(weights)
		a.names = append(a.names, name)
		a.defs[name] = d
		a.text[name] = !known && rapid.Bool().Draw(t, "text")
		if !known {
			avail = append(avail, name)
		}
		a.alias[name] = rapid.Bool().Draw(t, "byAlias")
	}
	a.w = weights
	all := len(a.names) > 0
	for _, n := range a.names {
		all = all && a.text[n]
	}
	if all && rapid.Bool().Draw(t, "block") {
		a.block = rapid.Permutation(a.names).Draw(t, "order")
	}
	return a
}

func (a *addition) get(s scope) func(string) dgo.Type {
	var get func(n string) dgo.Type
	get = func(n string) dgo.Type {
		if d, ok := a.defs[n]; ok {
			return d.build(get)
		}
		return s[n]
	}
	return get
}

// perform makes the declarations. The texts are parsed one by one or, if all are declared by text, as one that can have the
// declarations in any order
func (a *addition) perform(aa dgo.AliasAdder) {
	if a.block != nil {
		var ds []string
		for _, n := range a.block {
			ds = append(ds, n+"="+a.defs[n].text())
		}
		tf.ParseFile(aa, "", "{"+strings.Join(ds, ",")+"}")
		return
	}
	for _, n := range a.names {
		if a.text[n] {
			tf.ParseFile(aa, "", n+"="+a.defs[n].text())
		} else {
			aa.Add(a.defs[n].build(func(r string) dgo.Type {
				if a.alias[n] {
					return parser.NewAlias(vf.String(r))
				}
				return aa.GetType(vf.String(r))
			}), vf.String(n))
		}
	}
}

// TestP20_History checks histories of declarations against a model
func TestP20_History(t *testing.T) {
	prop(t, 6000, "a history of declarations added to alias maps, some of which fail; non-trivial when a declaration refers to another or replaces one", func(c *C) {
		type version struct {
			am dgo.AliasMap
			s  scope
			w  map[string]int
		}
		vs := []version{{tf.BuiltInAliases(), builtinScope(), nil}}
		var hist []string
		var extra []dgo.Type
		nt := false
		for n := rapid.IntRange(1, 8).Draw(c.T, "steps"); n > 0; n-- {
			i := rapid.IntRange(0, len(vs)-1).Draw(c.T, "version")
			if rapid.Bool().Draw(c.T, "latest") {
				i = len(vs) - 1
			}
			v := vs[i]
			a := drawAddition(c.T, v.s, v.w)
			fail := rapid.SampledFrom([]string{"", "", "", "panic", "unresolved", "loop", "syntax", "redeclare"}).Draw(c.T, "fail")
			for _, nm := range a.names {
				if _, ok := v.s[nm]; ok || len(a.defs[nm].refs()) > 0 {
					nt = true
				}
				hist = append(hist, fmt.Sprintf("%d:%s=%s", i, nm, a.defs[nm].text()))
			}
			hist = append(hist, fail)
			adder := func(aa dgo.AliasAdder) {
				a.perform(aa)
				switch fail {
				case "panic":
					panic(errors.New("abandoned"))
				case "unresolved":
					aa.Add(tf.Array(parser.NewAlias(vf.String("nowhere"))), vf.String("z"))
				case "loop":
					aa.Add(parser.NewAlias(vf.String("z")), vf.String("y"))
					aa.Add(parser.NewAlias(vf.String("y")), vf.String("z"))
				case "syntax":
					tf.ParseFile(aa, "", "z=int,")
				case "redeclare":
					tf.ParseFile(aa, "", "data=int")
				}
			}
			var got dgo.AliasMap
			var p *caught
			swapped := rapid.Bool().Draw(c.T, "swap")
			if swapped {
				m := v.am
				lock := &sync.Mutex{}
				p = catch(func() { tf.AddAliases(&m, lock, adder) })
				if p != nil && m != v.am {
					c.Fatalf("%v: an addition that fails changes the map", hist)
				}
				if !lock.TryLock() {
					c.Fatalf("%v: the lock is still held", hist)
				}
				got = m
			} else {
				p = catch(func() { got = v.am.Collect(adder) })
			}
			if (p != nil) != (fail != "") {
				c.Fatalf("%v: %v", hist, p)
			}
			if p == nil {
				if len(a.names) == 0 && got != v.am {
					c.Fatalf("%v: a new map although nothing was added", hist)
				}
				vs = append(vs, version{got, v.s.with(a.names, a.get(v.s)), a.w})
				for _, nm := range a.names {
					extra = append(extra, a.get(v.s)(nm))
				}
			}
			for j, o := range vs {
				if msg := o.s.check(o.am, extra); msg != "" {
					c.Fatalf("%v: in version %d: %s", hist, j, msg)
				}
			}
		}
		if nt {
			c.NonTrivial(strings.Join(hist, " "))
		}
	})
}

// exactMaps tells if the text of the type has an exact map with a key that has a name, see known finding exact-map-key
func exactMaps(ty dgo.Type, s scope) bool {
	named := false
	for _, t := range s {
		named = named || t.Equals(vf.String("b").Type())
	}
	return named && strings.Contains(stringer.TypeStringWithAliasMap(ty, tf.BuiltInAliases()), "{\"b\":")
}

// TestP20_Text checks that the text of a type that is printed using an alias map denotes the type when parsed using that map
func TestP20_Text(t *testing.T) {
	known(t, "exact-map-key", func() string {
		am := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { aa.Add(vf.String("key").Type(), vf.String("tp")) })
		if s := stringer.TypeStringWithAliasMap(vf.Map("key", 2).Type(), am); s == "{tp:2}" {
			return "the exact map type {\"key\":2} is printed as " + s + " when tp=\"key\""
		}
		return ""
	})
	prop(t, 12000, "an alias map and a type in which named types occur; non-trivial when the text uses a name", func(c *C) {
		am, s := tf.BuiltInAliases(), builtinScope()
		var w map[string]int
		for n := rapid.IntRange(1, 3).Draw(c.T, "additions"); n > 0; n-- {
			a := drawAddition(c.T, s, w)
			w = a.w
			am = am.Collect(func(aa dgo.AliasAdder) { a.perform(aa) })
			s = s.with(a.names, a.get(s))
		}
		d := drawD(c.T, s.names(), 3)
		ty := d.build(func(n string) dgo.Type { return s[n] })
		if exactMaps(ty, s) {
			c.Class("exact map key with a name")
			return
		}
		text := stringer.TypeStringWithAliasMap(ty, am)
		var v dgo.Value
		if p := catch(func() { am.Collect(func(aa dgo.AliasAdder) { v = tf.ParseFile(aa, "", text) }) }); p != nil {
			c.Fatalf("%s is printed as %q, which is rejected: %s", d.text(), text, p)
		}
		if got := asType(v); !got.Equals(ty) || !ty.Equals(got) {
			c.Fatalf("%s is printed as %q, which is %s", d.text(), text, got)
		}
		for _, n := range append(s.names(), aliasNames...) {
			ref := &D{ref: n}
			if s[n] == nil {
				if p := catch(func() { am.Collect(func(aa dgo.AliasAdder) { tf.ParseFile(aa, "", n) }) }); p == nil || p.runtimeErr() {
					c.Fatalf("the unknown name %q is accepted: %v", n, p)
				}
				continue
			}
			am.Collect(func(aa dgo.AliasAdder) { v = tf.ParseFile(aa, "", ref.text()) })
			if !asType(v).Equals(s[n]) {
				c.Fatalf("%q denotes %s, expected %s", n, v, s[n])
			}
		}
		if text != stringer.TypeStringWithAliasMap(ty, tf.BuiltInAliases()) {
			c.NonTrivial(text)
		}
	})
}

// TestP20_Mutual checks types that are defined in terms of each other
func TestP20_Mutual(t *testing.T) {
	prop(t, 3000, "two or three types defined in terms of each other, declared in any order; non-trivial when a nested value is accepted", func(c *C) {
		n := rapid.IntRange(2, 3).Draw(c.T, "names")
		names := aliasNames[:n]
		// A type accepts an integer of its own, or an array of the next
		var ds []string
		for i := 0; i < n; i++ {
			ds = append(ds, fmt.Sprintf("%s=(%d|[]%s)", names[i], i, names[(i+1)%n]))
		}
		ds = rapid.Permutation(ds).Draw(c.T, "order")
		var am dgo.AliasMap
		if rapid.Bool().Draw(c.T, "block") {
			am = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { tf.ParseFile(aa, "", "{"+strings.Join(ds, ",")+"}") })
		} else {
			am = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
				for i := 0; i < n; i++ {
					aa.Add(tf.AnyOf(vf.Integer(int64(i)).Type(), tf.Array(parser.NewAlias(vf.String(names[(i+1)%n])))), vf.String(names[i]))
				}
			})
		}
		var gen func(i, depth int, near bool) dgo.Value
		gen = func(i, depth int, near bool) dgo.Value {
			if depth == 0 {
				if near {
					i++
				}
				return vf.Integer(int64(i % n))
			}
			a := vf.MutableValues()
			l := rapid.IntRange(1, 3).Draw(c.T, "len")
			bad := rapid.IntRange(0, l-1).Draw(c.T, "bad")
			for k := 0; k < l; k++ {
				d := depth - 1
				if k != bad {
					d = rapid.IntRange(0, depth-1).Draw(c.T, "depth")
				}
				a.Add(gen((i+1)%n, d, near && k == bad))
			}
			return a
		}
		i := rapid.IntRange(0, n-1).Draw(c.T, "start")
		depth := rapid.IntRange(0, 4).Draw(c.T, "depth")
		ty := am.GetType(vf.String(names[i]))
		if v := gen(i, depth, false); !ty.Instance(v) {
			c.Fatalf("%v: %s is not an instance of %s", ds, v, names[i])
		}
		if v := gen(i, depth, true); ty.Instance(v) {
			c.Fatalf("%v: %s is an instance of %s", ds, v, names[i])
		}
		for k := 0; k < n; k++ {
			ty := am.GetType(vf.String(names[k]))
			var v dgo.Value
			am2 := am.Collect(func(aa dgo.AliasAdder) { v = tf.ParseFile(aa, "", "later=[]"+names[k]) })
			if !asType(v).(dgo.ArrayType).ElementType().Equals(ty) || am2.GetName(ty) == nil || !am2.GetType(vf.String("later")).Equals(tf.Array(ty)) {
				c.Fatalf("%v: []%s is %s", ds, names[k], v)
			}
			if text := stringer.TypeStringWithAliasMap(tf.Map(typ.String, ty), am); text != "map[string]"+names[k] {
				c.Fatalf("%v: map[string]%s is printed as %q", ds, names[k], text)
			}
		}
		if depth > 0 {
			c.NonTrivial(strings.Join(ds, ",") + fmt.Sprint(i, depth))
		}
	})
}

var p20Unique int

// TestP20_Concurrent checks registrations, lookups and parses made by several goroutines at once
func TestP20_Concurrent(t *testing.T) {
	prop(t, 250, "registrations, parses and lookups made by several goroutines at once in the default alias map and another; non-trivial when at least two goroutines register", func(c *C) {
		p20Unique++
		am := tf.BuiltInAliases()
		lock := &sync.Mutex{}
		n := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
		type step struct {
			op   string
			name string
			d    *D
		}
		plans := make([][]step, n)
		want := map[string]*D{}
		wantOwn := map[string]*D{}
		adders := 0
		for i := range plans {
			adds := false
			for k := rapid.IntRange(1, 8).Draw(c.T, "steps"); k > 0; k-- {
				s := step{op: rapid.SampledFrom([]string{"parse", "add", "own", "own", "use", "plain", "pcore", "print", "fail"}).Draw(c.T, "op"), name: fmt.Sprintf("p%dg%ds%d", p20Unique, i, k)}
				s.d = drawD(c.T, []string{"data", "richdata"}, 2)
				switch s.op {
				case "parse", "add":
					want[s.name] = s.d
					adds = true
				case "own":
					wantOwn[s.name] = s.d
					adds = true
				}
				plans[i] = append(plans[i], s)
			}
			if adds {
				adders++
			}
		}
		builtin := func(n string) dgo.Type { return tf.BuiltInAliases().GetType(vf.String(n)) }
		errs := make(chan string, 1000)
		good, bad := vf.Values("a", vf.Map("k", vf.Values(1, nil))), vf.Values("a", vf.Map("k", vf.Values(1, vf.Sensitive(1))))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range plans {
			wg.Add(1)
			go func(plan []step) {
				defer wg.Done()
				<-start
				for _, s := range plan {
					s := s
					p := catch(func() {
						switch s.op {
						case "parse":
							if ty := tf.ParseType(s.name + "=" + s.d.text()); !ty.Equals(s.d.build(builtin)) {
								errs <- fmt.Sprintf("%s=%s gives %s", s.name, s.d.text(), ty)
							}
						case "add":
							tf.AddDefaultAliases(func(aa dgo.AliasAdder) {
								aa.Add(s.d.build(func(n string) dgo.Type { return parser.NewAlias(vf.String(n)) }), vf.String(s.name))
							})
						case "own":
							tf.AddAliases(&am, lock, func(aa dgo.AliasAdder) { tf.ParseFile(aa, "", s.name+"="+s.d.text()) })
						case "use":
							data := tf.DefaultAliases().GetType(vf.String("data"))
							if !data.Instance(good) || data.Instance(bad) || !data.Assignable(good.Type()) || !data.Equals(builtin("data")) {
								errs <- "the built in type data does not work"
							}
						case "plain":
							if ty := tf.ParseType("{" + s.d.text() + "}"); !ty.Equals(tf.Tuple(s.d.build(builtin))) && !dgo.IsExact(s.d.build(builtin)) {
								errs <- fmt.Sprintf("%s gives %s", s.d.text(), ty)
							}
						case "pcore":
							if ty := tf.ParseType("map[string]data"); !ty.Equals(tf.Map(typ.String, builtin("data"))) {
								errs <- fmt.Sprintf("map[string]data gives %s", ty)
							}
						case "print":
							_ = tf.Array(tf.Map(tf.String(77), builtin("data"))).String()
							if s := stringer.TypeStringWithAliasMap(tf.Array(tf.Map(tf.String(77), builtin("data"))), tf.BuiltInAliases()); s != "[]map[string[77]]data" {
								errs <- fmt.Sprintf("an array of maps of data is printed as %s", s)
							}
						case "fail":
							if p := catch(func() { tf.ParseType(s.name + "f=[]nowhere") }); p == nil {
								errs <- "an unresolved name is accepted"
							}
						}
					})
					if p != nil {
						errs <- fmt.Sprintf("%s %s=%s: %s", s.op, s.name, s.d.text(), p)
					}
				}
			}(plans[i])
		}
		close(start)
		wg.Wait()
		close(errs)
		if s, ok := <-errs; ok {
			c.Fatalf("%s", s)
		}
		da := tf.DefaultAliases()
		for n, d := range want {
			if got := da.GetType(vf.String(n)); got == nil || !got.Equals(d.build(builtin)) {
				c.Fatalf("%s was added to the default aliases as %s but resolves to %v", n, d.text(), got)
			}
		}
		for n, d := range wantOwn {
			ty := d.build(builtin)
			if got := am.GetType(vf.String(n)); got == nil || !got.Equals(ty) {
				c.Fatalf("%s was added as %s but resolves to %v", n, d.text(), got)
			}
			if nm := am.GetName(ty); nm == nil || !am.GetType(nm).Equals(ty) {
				c.Fatalf("%s was added as %s but that has the name %v", n, d.text(), nm)
			}
		}
		for _, plan := range plans {
			for _, s := range plan {
				if s.op == "fail" && da.GetType(vf.String(s.name+"f")) != nil {
					c.Fatalf("%s was added although its declaration failed", s.name+"f")
				}
			}
		}
		if adders > 1 {
			c.Class("%d goroutines", n)
			c.NonTrivial(fmt.Sprint(plans))
		}
	})
}

type (
	p20A struct{ dgo.Value }
	p20B struct{ dgo.Value }
	p20C struct{ dgo.Value }
)

var p20Impl = []reflect.Type{reflect.TypeOf(&p20A{}), reflect.TypeOf(&p20B{}), reflect.TypeOf(&p20C{})}

// TestP20_Named checks the registry of named types
func TestP20_Named(t *testing.T) {
	prop(t, 1500, "registrations, removals and lookups of named types by several goroutines; non-trivial when two goroutines register the same name", func(c *C) {
		n := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
		p20Unique++
		names := []string{fmt.Sprintf("n%da", p20Unique), fmt.Sprintf("n%db", p20Unique), fmt.Sprintf("n%dc", p20Unique)}
		defer func() {
			for _, nm := range names {
				tf.RemoveNamed(nm)
			}
		}()
		type step struct {
			op   string
			name int
		}
		plans := make([][]step, n)
		count := map[int]int{}
		for i := range plans {
			for k := rapid.IntRange(1, 6).Draw(c.T, "steps"); k > 0; k-- {
				s := step{rapid.SampledFrom([]string{"new", "new", "get", "parse", "reflected"}).Draw(c.T, "op"), rapid.IntRange(0, 2).Draw(c.T, "name")}
				if s.op == "new" {
					count[s.name]++
				}
				plans[i] = append(plans[i], s)
			}
		}
		for round := 0; round < 2; round++ {
			errs := make(chan string, 1000)
			var wins [3]int
			var winner [3]dgo.Type
			var mu sync.Mutex
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range plans {
				wg.Add(1)
				go func(plan []step) {
					defer wg.Done()
					<-start
					has := map[int]bool{}
					for _, s := range plan {
						nm := names[s.name]
						switch s.op {
						case "new":
							p := catch(func() {
								nt := tf.NewNamed(nm, nil, nil, p20Impl[s.name], nil, nil)
								mu.Lock()
								defer mu.Unlock()
								wins[s.name]++
								winner[s.name] = nt
							})
							if p != nil && !strings.Contains(p.String(), "attempt to redefine named type") {
								errs <- p.String()
							}
							has[s.name] = true
						case "get", "parse":
							var got dgo.Type
							if s.op == "get" {
								if nt := tf.Named(nm); nt != nil {
									got = nt
								}
							} else {
								catch(func() { got = tf.ParseType(nm) })
							}
							if got == nil && has[s.name] || got != nil && got.(dgo.NamedType).Name() != nm {
								errs <- fmt.Sprintf("the type %s is found as %v", nm, got)
							}
							has[s.name] = has[s.name] || got != nil
						case "reflected":
							got := tf.NamedFromReflected(p20Impl[s.name])
							if got == nil && has[s.name] || got != nil && got.Name() != nm {
								errs <- fmt.Sprintf("the type %s is found as %v", nm, got)
							}
						}
					}
				}(plans[i])
			}
			close(start)
			wg.Wait()
			close(errs)
			if s, ok := <-errs; ok {
				c.Fatalf("%v: %s", plans, s)
			}
			for i, nm := range names {
				want := 0
				if count[i] > 0 {
					want = 1
				}
				if wins[i] != want {
					c.Fatalf("%v: %s was registered %d times, expected %d", plans, nm, wins[i], want)
				}
				got := tf.Named(nm)
				if (got == nil) != (want == 0) || got != nil && dgo.Type(got) != winner[i] {
					c.Fatalf("%v: %s is %v", plans, nm, got)
				}
				tf.RemoveNamed(nm)
				if tf.Named(nm) != nil || tf.NamedFromReflected(p20Impl[i]) != nil {
					c.Fatalf("%s is still there after it was removed", nm)
				}
			}
		}
		for _, k := range count {
			if k > 1 {
				c.NonTrivial(fmt.Sprint(plans))
				break
			}
		}
	})
}
