package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// together runs the functions at the same time and gives what each of them returns
func together(fs []func() string) []string {
	r := make([]string, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			r[i] = attempt(fs[i])
		}(i)
	}
	close(start)
	wg.Wait()
	return r
}

func attempt(f func() string) (s string) {
	if p := catch(func() { s = f() }); p != nil {
		return "panic: " + p.String()
	}
	return
}

// TestP21_0FirstUse runs before anything else in the process, so that whatever is created on demand is created by
// several goroutines at once
func TestP21_0FirstUse(t *testing.T) {
	defer watch(t.Name())()
	ops := []func() string{
		func() string {
			return fmt.Sprint(tf.StructMapFromMap(false, vf.Map("a", vf.Map("type", typ.String, "required", true), "b", "int")))
		},
		func() string { return tf.ParseType("map[string]data").String() },
		func() string { return fmt.Sprint(pcore.Parse("Hash[String,Data]")) },
		func() string { return fmt.Sprint(vf.New(typ.Boolean, vf.String("yes"))) },
		func() string { return fmt.Sprint(vf.New(typ.Integer, vf.Arguments(vf.String("1F"), 16))) },
		func() string { return fmt.Sprint(vf.New(typ.Binary, vf.Arguments(vf.String("abc"), vf.String("%s")))) },
		func() string { return fmt.Sprint(vf.New(typ.String, vf.Arguments(vf.Integer(12), vf.String("%x")))) },
		func() string { return fmt.Sprint(vf.New(typ.Float, vf.String("1.5"))) },
		func() string { return fmt.Sprint(vf.New(typ.Time, vf.String("2020-01-02T03:04:05Z"))) },
		func() string {
			return string(streamer.MarshalJSON(vf.Map("t", typ.String, "s", vf.Sensitive(1), "b", vf.Binary([]byte{1}, true)), nil))
		},
		func() string {
			return fmt.Sprint(streamer.UnmarshalJSON([]byte(`{"__type":"map","__value":[1,{"__type":"binary","__value":"AQ=="}]}`), nil))
		},
		func() string {
			return fmt.Sprint(typ.Any.HashCode(), typ.Array.HashCode(), typ.Map.HashCode(), typ.Loader.HashCode())
		},
		func() string {
			return fmt.Sprint(streamer.DgoDialect().TypeKey().HashCode(), pcore.Dialect().TypeKey().HashCode())
		},
		func() string {
			return util.ToIndentedString(vf.Map("a", tf.BuiltInAliases().GetType(vf.String("richdata"))))
		},
		func() string { return fmt.Sprint(vf.Value(struct{ A int }{1}).Type()) },
	}
	var fs []func() string
	for i := 0; i < 4; i++ {
		for j := range ops {
			fs = append(fs, ops[(i*7+j)%len(ops)])
		}
	}
	got := together(fs)
	for i := range fs {
		if want := attempt(fs[i]); got[i] != want {
			t.Fatalf("used by several goroutines for the first time: %s\nused later: %s", got[i], want)
		}
	}
	counted("TestP21_0FirstUse", "first use of everything that might be created on demand", len(fs), got[0])
}

type shareOp struct {
	name string
	f    func(v, w dgo.Value) string
}

func show(v interface{}) string {
	if v == nil {
		return "<nil>"
	}
	if dv, ok := v.(dgo.Value); ok {
		return model(dv).str()
	}
	return fmt.Sprintf("%v", v)
}

// valueOps are operations that must not modify their operands
var valueOps = []shareOp{
	{"String", func(v, _ dgo.Value) string { return fmt.Sprintf("%s|%v", v.String(), v) }},
	{"HashCode", func(v, w dgo.Value) string { return fmt.Sprint(v.HashCode()) }},
	{"Equals", func(v, w dgo.Value) string { return fmt.Sprint(v.Equals(w), w.Equals(v), v.Equals(v)) }},
	{"CompareTo", func(v, w dgo.Value) string {
		if c, ok := v.(dgo.Comparable); ok {
			i, ok := c.CompareTo(w)
			return fmt.Sprint(i, ok)
		}
		return ""
	}},
	{"Type", func(v, w dgo.Value) string {
		t := v.Type()
		return fmt.Sprint(t, t.Instance(v), t.Instance(w), t.HashCode(), t.Equals(w.Type()), t.Assignable(w.Type()), typ.Generic(t))
	}},
	{"Copies", func(v, _ dgo.Value) string {
		if f, ok := v.(dgo.Freezable); ok {
			c := f.ThawedCopy()
			if m, ok := c.(dgo.Map); ok {
				for _, k := range m.Keys().GoSlice() {
					if _, isStruct := m.(dgo.Struct); !isStruct {
						m.Put(k, 1)
					}
				}
			}
			if a, ok := c.(dgo.Array); ok && !a.Frozen() {
				a.Add(1)
				a.Set(0, 2)
			}
			return fmt.Sprint(f.Frozen(), show(f.FrozenCopy()), show(f.ThawedCopy()))
		}
		return ""
	}},
	{"Freeze", func(v, _ dgo.Value) string {
		if f, ok := v.(dgo.Freezable); ok {
			f.Freeze()
		}
		return show(v)
	}},
	{"Array", func(v, w dgo.Value) string {
		a, ok := v.(dgo.Array)
		if !ok {
			return ""
		}
		var sb strings.Builder
		a.Each(func(e dgo.Value) { sb.WriteString(show(e)) })
		a.EachWithIndex(func(e dgo.Value, i int) { fmt.Fprint(&sb, i, e.HashCode()) })
		fmt.Fprint(&sb, a.Len(), a.IndexOf(w), a.ContainsAll(a), a.SameValues(a), show(a.Flatten()), show(a.Unique()), show(a.With(w)), show(a.WithAll(a)))
		fmt.Fprint(&sb, show(a.Map(func(e dgo.Value) interface{} { return e })), show(a.Select(func(e dgo.Value) bool { return e.Equals(w) })), show(a.ToMap()), show(a.Slice(0, a.Len())))
		fmt.Fprint(&sb, len(a.GoSlice()), len(a.InterfaceSlice()), len(a.AppendToSlice(nil)), a.Any(func(e dgo.Value) bool { return e == w }), show(a.Reduce(0, func(m, e dgo.Value) interface{} { return e })))
		return sb.String()
	}},
	{"Sort", func(v, _ dgo.Value) string {
		if a, ok := v.(dgo.Array); ok {
			return show(a.Sort())
		}
		return ""
	}},
	{"Map", func(v, w dgo.Value) string {
		m, ok := v.(dgo.Map)
		if !ok {
			return ""
		}
		var sb strings.Builder
		m.EachEntry(func(e dgo.MapEntry) { sb.WriteString(show(e.Key()) + show(e.Value()) + show(m.Get(e.Key()))) })
		fmt.Fprint(&sb, m.Len(), m.StringKeys(), show(m.Keys()), show(m.Values()), m.ContainsKey(w), m.AnyValue(func(e dgo.Value) bool { return e.Equals(w) }))
		fmt.Fprint(&sb, show(m.Find(func(e dgo.MapEntry) bool { return e.Value().Equals(w) })))
		if _, isStruct := m.(dgo.Struct); !isStruct {
			fmt.Fprint(&sb, show(m.With(w, 1)), show(m.Without(w)), show(m.Map(func(e dgo.MapEntry) interface{} { return e.Key() })))
			if wm, ok := w.(dgo.Map); ok {
				fmt.Fprint(&sb, show(m.Merge(wm)), show(m.WithoutAll(wm.Keys())))
			}
		}
		return sb.String()
	}},
	{"JSON", func(v, _ dgo.Value) string { return string(streamer.MarshalJSON(v, nil)) }},
	{"encoding/json", func(v, _ dgo.Value) string {
		b, err := json.Marshal(vf.Map("v", v))
		return fmt.Sprint(string(b), err)
	}},
	{"Collect", func(v, _ dgo.Value) string {
		col := streamer.DataCollector()
		o := streamer.DefaultOptions()
		o.DedupLevel = streamer.MaxDedup
		streamer.New(tf.BuiltInAliases(), o).Stream(v, col)
		return show(col.Value())
	}},
	{"Indent", func(v, _ dgo.Value) string {
		x, ok := v.(dgo.Indentable)
		if !ok {
			return ""
		}
		return util.ToIndentedString(x) + util.ToIndentedStringERP(x)
	}},
	{"FromValue", func(v, _ dgo.Value) string {
		var x interface{}
		vf.FromValue(v, &x)
		return fmt.Sprint(x)
	}},
	{"Sensitive", func(v, _ dgo.Value) string {
		if s, ok := v.(dgo.Sensitive); ok {
			return show(s.Unwrap())
		}
		return ""
	}},
	{"Wrap", func(v, w dgo.Value) string {
		return fmt.Sprint(show(vf.Values(v, w)), show(vf.Map(v, w)), show(vf.MutableValues(v).FrozenCopy()), vf.Sensitive(v).Equals(vf.Sensitive(w)))
	}},
	{"New", func(v, _ dgo.Value) string { return show(vf.New(typ.String, v)) }},
}

// typeOps are operations on a type
var typeOps = []shareOp{
	{"String", func(t, _ dgo.Value) string { return fmt.Sprintf("%s|%v", t.String(), t) }},
	{"HashCode", func(t, _ dgo.Value) string { return fmt.Sprint(t.HashCode()) }},
	{"Equals", func(t, u dgo.Value) string { return fmt.Sprint(t.Equals(u), u.Equals(t), t.Equals(t)) }},
	{"Assignable", func(t, u dgo.Value) string {
		return fmt.Sprint(t.(dgo.Type).Assignable(u.(dgo.Type)), u.(dgo.Type).Assignable(t.(dgo.Type)), t.(dgo.Type).Assignable(t.(dgo.Type)))
	}},
	{"Meta", func(t, _ dgo.Value) string {
		return fmt.Sprint(t.Type(), t.Type().Type(), t.Type().(dgo.Type).Instance(t), typ.Generic(t.(dgo.Type)))
	}},
	{"ReflectType", func(t, _ dgo.Value) string { return fmt.Sprint(t.(dgo.Type).ReflectType()) }},
	{"Parse", func(t, _ dgo.Value) string {
		s := stringer.TypeStringWithAliasMap(t.(dgo.Type), tf.BuiltInAliases())
		var v dgo.Value
		tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = parser.ParseFile(aa, "", s) })
		return fmt.Sprint(v.Equals(t), v)
	}},
	{"Alias", func(t, _ dgo.Value) string {
		am := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
			aa.Add(t.(dgo.Type), vf.String("x"))
			aa.Add(tf.Map(typ.String, parser.NewAlias(vf.String("x"))), vf.String("y"))
		})
		return stringer.TypeStringWithAliasMap(am.GetType(vf.String("y")), tf.BuiltInAliases())
	}},
	{"Combine", func(t, u dgo.Value) string {
		return fmt.Sprint(tf.AnyOf(t, u).Equals(tf.AnyOf(u, t)), tf.AllOf(t, u).HashCode(), tf.Not(t.(dgo.Type)).Equals(tf.Not(u.(dgo.Type))), tf.Array(t), tf.Tuple(t, u))
	}},
	{"Stream", func(t, _ dgo.Value) string { return string(streamer.MarshalJSON(vf.Values(t), nil)) }},
	{"Parts", func(t, _ dgo.Value) string {
		switch t := t.(type) {
		case dgo.StructMapType:
			var sb strings.Builder
			t.Each(func(e dgo.StructMapEntry) {
				fmt.Fprint(&sb, e.Key(), e.Value(), e.Required(), t.Get(e.Key().(dgo.ExactType).ExactValue()))
			})
			fmt.Fprint(&sb, t.KeyType(), t.ValueType(), t.Min(), t.Max(), t.Additional())
			fmt.Fprint(&sb, t.Validate(nil, vf.Map("a", 1, "b", "x")))
			ind := util.NewIndenter("  ")
			fmt.Fprint(&sb, t.ValidateVerbose(vf.Map("a", 1), ind))
			return sb.String() + ind.String()
		case dgo.MapType:
			return fmt.Sprint(t.KeyType(), t.ValueType(), t.Min(), t.Max())
		case dgo.TupleType:
			return fmt.Sprint(t.ElementTypes(), t.ElementType(), t.Len(), t.Variadic())
		case dgo.ArrayType:
			return fmt.Sprint(t.ElementType(), t.Min(), t.Max())
		case dgo.TernaryType:
			return fmt.Sprint(show(t.Operands()), t.Operator())
		case dgo.FunctionType:
			return fmt.Sprint(t.In(), t.Out(), t.Variadic())
		case dgo.UnaryType:
			return fmt.Sprint(t.Operand(), t.Operator())
		}
		return ""
	}},
}

type shareGo struct {
	A string
	B []int
	C map[string]interface{}
	E time.Time
	F *regexp.Regexp
}

// drawShared draws how to make a frozen value. Every call makes an equal one that shares nothing with the others.
func drawShared(t *rapid.T) (func() dgo.Value, string) {
	switch rapid.IntRange(0, 7).Draw(t, "kind") {
	case 0:
		n := rapid.IntRange(0, 5).Draw(t, "n")
		s := rapid.StringN(0, 5, -1).Draw(t, "s")
		at := genTime().Draw(t, "at")
		return func() dgo.Value {
			x := shareGo{A: s, B: make([]int, n), C: map[string]interface{}{"s": s, "n": n}, E: at, F: regexp.MustCompile("a+")}
			return vf.Map(&x).FrozenCopy()
		}, "struct"
	case 1:
		n := rapid.IntRange(0, 5).Draw(t, "n")
		return func() dgo.Value {
			return vf.Value([]interface{}{[]int{n}, map[string]int{"a": n}, map[int]string{n: "x"}, []string{"a"}, []byte{1, 2}, time.Unix(int64(n), 0), regexp.MustCompile("b"), nil, 1.5}).(dgo.Array).FrozenCopy()
		}, "go"
	}
	v := drawRichValue(t, richOpts(3), true)
	return func() dgo.Value { return frozenCopyOf(build(v, frozenRoute)) }, v.str()
}

func frozenCopyOf(v dgo.Value) dgo.Value {
	if f, ok := v.(dgo.Freezable); ok {
		return f.FrozenCopy()
	}
	return v
}

func runShared(c *C, ops []shareOp, mk, mkOther func() dgo.Value, what string) {
	n := rapid.IntRange(2, 8).Draw(c.T, "goroutines")
	type call struct {
		op   int
		swap bool
	}
	plan := make([]call, n)
	used := map[int]bool{}
	for i := range plan {
		plan[i] = call{rapid.IntRange(0, len(ops)-1).Draw(c.T, "op"), rapid.IntRange(0, 3).Draw(c.T, "swap") == 0}
		used[plan[i].op] = true
	}
	// What sequential use gives, on operands of its own
	want := make([]string, n)
	for i, p := range plan {
		v, w := mk(), mkOther()
		if p.swap {
			v, w = w, v
		}
		want[i] = attempt(func() string { return ops[p.op].f(v, w) })
	}
	v, w := mk(), mkOther()
	fs := make([]func() string, n)
	for i, p := range plan {
		p := p
		fs[i] = func() string {
			if p.swap {
				return ops[p.op].f(w, v)
			}
			return ops[p.op].f(v, w)
		}
	}
	for round := 0; round < 2; round++ {
		for i, got := range together(fs) {
			if got != want[i] {
				c.Fatalf("%s: used by %d goroutines, %s gives %s\nused by one it gives %s", what, n, ops[plan[i].op].name, got, want[i])
			}
		}
	}
	for i := range used {
		c.Class("%s", ops[i].name)
	}
	if len(used) > 1 {
		c.NonTrivial(what + fmt.Sprint(plan))
	}
}

func TestP21_Values(t *testing.T) {
	prop(t, 4000, "two frozen values used by several goroutines at once; non-trivial when at least two different operations are used", func(c *C) {
		mk, what := drawShared(c.T)
		mkOther, other := mk, what
		if rapid.Bool().Draw(c.T, "different") {
			mkOther, other = drawShared(c.T)
		}
		runShared(c, valueOps, mk, mkOther, what+" and "+other)
	})
}

func TestP21_Types(t *testing.T) {
	prop(t, 4000, "two types used by several goroutines at once; non-trivial when at least two different operations are used", func(c *C) {
		a := drawT(c.T, tOpts{depth: 3, strKeys: true})
		b := a
		if rapid.Bool().Draw(c.T, "different") {
			b = drawNearT(c.T, a, tOpts{depth: 3, strKeys: true})
		}
		vals := []*V{drawCandidate(c.T, a), drawCandidate(c.T, b)}
		ops := append([]shareOp{{"Instance", func(t, u dgo.Value) string {
			r := ""
			for _, v := range vals {
				v := build(v, frozenRoute)
				r += fmt.Sprint(t.(dgo.Type).Instance(v), u.(dgo.Type).Instance(v), vf.Value(v).Type().(dgo.Type).Assignable(t.(dgo.Type)))
			}
			return r
		}}}, typeOps...)
		runShared(c, ops, func() dgo.Value { return a.build() }, func() dgo.Value { return b.build() }, a.str()+" and "+b.str())
	})
}

// TestP21_Recursive uses types that contain themselves, and the predefined types that everything shares
func TestP21_Recursive(t *testing.T) {
	prop(t, 1500, "a recursive or predefined type and another used by several goroutines at once; non-trivial when at least two different operations are used", func(c *C) {
		texts := []string{"data", "richdata", "[]data", "x=[]x", "x={string,...x}", "x=map[string](int|x)", "x={v:int,next?:x}", "x=(string|[]y|y=map[string]x)", "any", "[]any", "map[any]any", "string", "{...}", "{...any}", "!data", "type[data]", "sensitive[data]", "func(data) data", "dgo", "5", "/a+/", "1..5", "mapLoader"}
		mk := func() (func() dgo.Value, string) {
			s := rapid.SampledFrom(texts).Draw(c.T, "text")
			return func() dgo.Value {
				v, _, p := parseIn(s)
				if p != nil {
					c.Fatalf("%s: %s", s, p)
				}
				return asType(v)
			}, s
		}
		m1, s1 := mk()
		m2, s2 := mk()
		var ops []shareOp
		for _, o := range typeOps {
			if o.name == "Parse" || o.name == "ReflectType" {
				continue // a recursive type has no text of its own, and no go type
			}
			ops = append(ops, o)
		}
		v := build(drawV(c.T, dataOpts(3)), frozenRoute)
		ops = append(ops, shareOp{"Instance", func(t, u dgo.Value) string {
			return fmt.Sprint(t.(dgo.Type).Instance(v), u.(dgo.Type).Instance(vf.Values(v)), t.(dgo.Type).Assignable(v.Type()))
		}})
		runShared(c, ops, m1, m2, s1+" and "+s2)
	})
}

// TestP21_Functions uses functions and named types
func TestP21_Functions(t *testing.T) {
	prop(t, 500, "functions and named values used by several goroutines at once; non-trivial always", func(c *C) {
		k := rapid.IntRange(1, 100).Draw(c.T, "k")
		fn := vf.Value(func(a int, b ...string) (string, error) { return fmt.Sprint(a*k, b), nil }).(dgo.Function)
		n := rapid.IntRange(2, 8).Draw(c.T, "n")
		fs := make([]func() string, n)
		want := make([]string, n)
		for i := range fs {
			i := i
			fs[i] = func() string {
				ft := fn.Type().(dgo.FunctionType)
				r := fn.Call(vf.Arguments(i, "x", "y"))
				return fmt.Sprint(show(r[0]), ft, ft.In().Len(), ft.Out(), ft.Variadic(), ft.HashCode(), ft.Equals(fn.Type()), ft.Instance(fn), fn.String(), fn.Equals(fn))
			}
			want[i] = attempt(fs[i])
		}
		for i, got := range together(fs) {
			if got != want[i] {
				c.Fatalf("used by %d goroutines: %s\nused by one: %s", n, got, want[i])
			}
		}
		c.NonTrivial(fmt.Sprint(k, n))
	})
}
