package props

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// node is what a recorder has received: a value, an array, or a map (keys at even positions)
type node struct {
	kind byte // 'v', 'a', 'm'
	v    dgo.Value
	kids []*node
	refs map[int]bool // positions in kids of references
}

// recorder is a consumer that follows the documentation of Consumer to the letter
type recorder struct {
	binary, tm, keys bool
	threshold        int
	values           []*node
	stack            []*node
	refs             int
	err              string
}

func newRecorder() *recorder { return &recorder{stack: []*node{{kind: 'a'}}} }

func (r *recorder) put(n *node) {
	top := r.stack[len(r.stack)-1]
	top.kids = append(top.kids, n)
}
func (r *recorder) nest(n *node, doer dgo.Doer) {
	r.put(n)
	r.values = append(r.values, n)
	r.stack = append(r.stack, n)
	doer()
	r.stack = r.stack[:len(r.stack)-1]
}
func (r *recorder) AddArray(l int, doer dgo.Doer) {
	n := &node{kind: 'a'}
	r.nest(n, doer)
	if len(n.kids) != l {
		r.err = fmt.Sprintf("an array announced with %d elements has %d", l, len(n.kids))
	}
}
func (r *recorder) AddMap(_ int, doer dgo.Doer) {
	n := &node{kind: 'm'}
	r.nest(n, doer)
	if len(n.kids)%2 != 0 {
		r.err = "a map has a key without a value"
	}
	if !r.keys {
		for i := 0; i < len(n.kids); i += 2 {
			if _, ok := n.kids[i].v.(dgo.String); !ok {
				r.err = "a consumer that cannot do complex keys got one"
			}
		}
	}
}
func (r *recorder) Add(v dgo.Value) {
	switch v.(type) {
	case dgo.Binary:
		if !r.binary {
			r.err = "a consumer that cannot do binary got one"
		}
	case dgo.Time:
		if !r.tm {
			r.err = "a consumer that cannot do time got one"
		}
	case dgo.Nil, dgo.Boolean, dgo.Integer, dgo.Float, dgo.String:
	default:
		r.err = fmt.Sprintf("a consumer was passed a %T", v)
	}
	n := &node{kind: 'v', v: v}
	r.put(n)
	r.values = append(r.values, n)
}
func (r *recorder) AddRef(i int) {
	r.refs++
	if i < 0 || i >= len(r.values) {
		r.err = fmt.Sprintf("reference to %d when %d values have been added", i, len(r.values))
		r.put(&node{kind: 'v', v: vf.Nil})
		return
	}
	n := r.values[i]
	if s, ok := n.v.(dgo.String); ok && len(s.GoString()) < r.threshold {
		r.err = fmt.Sprintf("reference to the string %q that is shorter than %d", s.GoString(), r.threshold)
	}
	top := r.stack[len(r.stack)-1]
	if top.refs == nil {
		top.refs = map[int]bool{}
	}
	top.refs[len(top.kids)] = true
	r.put(n)
}
func (r *recorder) CanDoBinary() bool         { return r.binary }
func (r *recorder) CanDoTime() bool           { return r.tm }
func (r *recorder) CanDoComplexKeys() bool    { return r.keys }
func (r *recorder) StringDedupThreshold() int { return r.threshold }

// refInKey tells if there are references in the keys of maps
func refInKey(n *node, inKey bool, d streamer.Dialect, visited map[*node]bool) bool {
	if visited[n] {
		return false
	}
	visited[n] = true
	typed := n.kind == 'm' && len(n.kids) == 4 && n.kids[0].v != nil && n.kids[0].v.Equals(d.TypeKey()) && n.kids[1].v != nil && n.kids[1].v.Equals(d.MapTypeName())
	for i, k := range n.kids {
		key := inKey || n.kind == 'm' && i%2 == 0
		if key && n.refs[i] {
			return true
		}
		if n.refs[i] {
			continue // visited where it was streamed
		}
		if typed && i == 3 && k.kind == 'a' && !n.refs[3] {
			visited[k] = true
			for j, kk := range k.kids {
				if k.refs[j] {
					if inKey || j%2 == 0 {
						return true
					}
				} else if refInKey(kk, inKey || j%2 == 0, d, visited) {
					return true
				}
			}
			continue
		}
		if refInKey(k, key, d, visited) {
			return true
		}
	}
	return false
}

// decodeNode is an independent decoder of the rich data representation (not for recursive values)
func decodeNode(n *node, d streamer.Dialect) *V {
	switch n.kind {
	case 'v':
		return model(n.v)
	case 'a':
		a := vArr()
		for _, k := range n.kids {
			a.A = append(a.A, decodeNode(k, d))
		}
		return a
	}
	m := vMap()
	for i := 0; i < len(n.kids); i += 2 {
		m.put(decodeNode(n.kids[i], d), decodeNode(n.kids[i+1], d))
	}
	ti := m.get(vStr(d.TypeKey().GoString()))
	if ti < 0 {
		return m
	}
	tn := m.MV[ti].S
	if len(m.MK) == 1 {
		return &V{K: kType, S: tn}
	}
	vi := m.get(vStr(d.ValueKey().GoString()))
	if vi < 0 {
		panic("no value in " + m.str())
	}
	v := m.MV[vi]
	switch tn {
	case d.MapTypeName().GoString():
		r := vMap()
		for i := 0; i < len(v.A); i += 2 {
			r.put(v.A[i], v.A[i+1])
		}
		return r
	case d.SensitiveTypeName().GoString():
		return vSens(v)
	case d.BinaryTypeName().GoString():
		b, err := base64.StdEncoding.DecodeString(v.S)
		if err != nil {
			panic(err)
		}
		return vBin(b)
	case d.TimeTypeName().GoString():
		t, err := time.Parse(time.RFC3339Nano, v.S)
		if err != nil {
			panic(err)
		}
		return vTime(t)
	}
	panic("unknown type " + tn)
}

// plainTypes replaces types with something that refEq can compare
func plainTypes(v *V) *V {
	v = v.clone()
	v.has(func(x *V) bool {
		if x.K == kType {
			*x = *vMap(vStr("<type>"), vStr(x.S))
		}
		return false
	})
	return v
}

func sameRich(a, b *V) bool { return sameOrdered(plainTypes(a), plainTypes(b)) }

var reservedKeys = []string{"__type", "__value", "__ref", "__ptype", "__pvalue", "__pref", "_ot", "_ov", "_or"}

var namedAliasTypes = []string{"data", "richdata", "[]data", "map[string]richdata", "string|[1]data"}

// drawRichValue draws a value that can be streamed. The types that it contains have text forms.
func drawRichValue(t *rapid.T, o vOpts, types bool) *V {
	if types {
		o.kinds = append(append([]K{}, o.kinds...), kType, kType)
	}
	var v *V
	for {
		v = drawV(t, o)
		if rapid.IntRange(0, 2).Draw(t, "repeat") == 0 {
			w := drawV(t, o)
			v = vArr(v, w, vMap(vStr("k"), v.clone(), vStr("a"), w.clone()), v.clone(), vMap(vStr("k"), vSens(w.clone()), vStr("b"), w.clone()))
			if len(o.keys) == 1 && o.kinds[len(o.kinds)-1] == kMap {
				v.A[4].MV[0] = w.clone()
			}
		}
		if !v.has(func(x *V) bool {
			switch x.K {
			case kType:
				return inexpressible(x.Tp) || escapedPattern(x.Tp)
			case kString:
				for _, r := range reservedKeys {
					if x.S == r {
						return true
					}
				}
			}
			return false
		}) && jsonable(v) {
			return v
		}
	}
}

var streamKinds = []K{kNil, kBool, kInt, kFloat, kString, kBinary, kTime, kSensitive, kArray, kMap}

func streamOpts(depth int) vOpts {
	return vOpts{kinds: streamKinds, keys: []K{kNil, kBool, kInt, kFloat, kString, kString, kString, kTime, kBinary, kArray, kMap, kSensitive}, depth: depth, width: 4, wideStr: true}
}

func drawStreamOptions(t *rapid.T, types bool) *streamer.Options {
	o := streamer.DefaultOptions()
	o.DedupLevel = rapid.SampledFrom([]streamer.DedupLevel{streamer.NoDedup, streamer.NoKeyDedup, streamer.MaxDedup}).Draw(t, "dedup")
	switch rapid.IntRange(0, 3).Draw(t, "dialect") {
	case 0:
		if !types {
			o.Dialect = pcore.Dialect()
		}
	case 1:
		o.Dialect = ownDialect{streamer.DgoDialect()}
	}
	return o
}

// containers counts the distinct arrays and maps in values (not in keys), and the distinct strings of the given length
func containers(v dgo.Value, min int, seen map[dgo.Value]bool, strs map[string]bool) {
	switch v := v.(type) {
	case dgo.String:
		if len(v.GoString()) >= min {
			strs[v.GoString()] = true
		}
	case dgo.Array:
		if !seen[v] {
			seen[v] = true
			v.Each(func(e dgo.Value) { containers(e, min, seen, strs) })
		}
	case dgo.Map:
		if !seen[v] {
			seen[v] = true
			v.EachValue(func(e dgo.Value) { containers(e, min, seen, strs) })
		}
	}
}

func describe(o *streamer.Options) string {
	return fmt.Sprintf("dedup %d, type key %s, rich %v", o.DedupLevel, o.Dialect.TypeKey().GoString(), o.RichData)
}

func TestP15_Consumer(t *testing.T) {
	prop(t, 10000, "random rich value with shared parts, random consumer; non-trivial when composite", func(c *C) {
		types := rapid.Bool().Draw(c.T, "types")
		v := drawRichValue(c.T, streamOpts(rapid.IntRange(1, 4).Draw(c.T, "depth")), types)
		dv := (&sharer{t: c.T, memo: map[string]dgo.Value{}}).build(v)
		o := drawStreamOptions(c.T, types)
		r := newRecorder()
		r.binary = rapid.Bool().Draw(c.T, "binary")
		r.tm = rapid.Bool().Draw(c.T, "time")
		r.keys = rapid.Bool().Draw(c.T, "keys")
		r.threshold = rapid.SampledFrom([]int{0, 2, 20}).Draw(c.T, "threshold")
		streamer.New(nil, o).Stream(dv, r)
		if r.err != "" {
			c.Fatalf("streaming %s (%s) to a consumer (%v %v %v): %s", v.str(), describe(o), r.binary, r.tm, r.keys, r.err)
		}
		root := r.stack[0]
		if len(root.kids) != 1 {
			c.Fatalf("streaming %s (%s) adds %d values at the top", v.str(), describe(o), len(root.kids))
		}
		if got := decodeNode(root.kids[0], o.Dialect); !sameRich(got, model(dv)) {
			c.Fatalf("streaming %s (%s) gives %s", v.str(), describe(o), got.str())
		}
		// What the consumer can do itself isn't encoded
		visited := map[*node]bool{}
		var walk func(n *node)
		walk = func(n *node) {
			if visited[n] {
				return
			}
			visited[n] = true
			for i, k := range n.kids {
				if n.kind == 'm' && len(n.kids) > 2 && i%2 == 1 && k.v != nil && n.kids[i-1].v != nil && n.kids[i-1].v.Equals(o.Dialect.TypeKey()) {
					if d := o.Dialect; r.binary && k.v.Equals(d.BinaryTypeName()) || r.tm && k.v.Equals(d.TimeTypeName()) || r.keys && k.v.Equals(d.MapTypeName()) {
						c.Fatalf("streaming %s (%s) to a consumer (%v %v %v) encodes a %s", v.str(), describe(o), r.binary, r.tm, r.keys, k.v)
					}
				}
				walk(k)
			}
		}
		walk(root)
		if o.DedupLevel == streamer.NoKeyDedup && refInKey(root, false, o.Dialect, map[*node]bool{}) {
			c.Fatalf("streaming %s (%s) gives a reference in a key", v.str(), describe(o))
		}
		if o.DedupLevel == streamer.NoDedup && r.refs > 0 {
			c.Fatalf("streaming %s (%s) gives %d references", v.str(), describe(o), r.refs)
		}
		if r.refs > 0 {
			c.Class("with references")
		}
		c.Class(fmt.Sprintf("dedup %d", o.DedupLevel))
		if v.K == kArray || v.K == kMap || v.K == kSensitive {
			c.NonTrivial(v.str())
		}
	})
}

func TestP15_Once(t *testing.T) {
	prop(t, 5000, "random data with shared parts, with deduplication; non-trivial when references are used", func(c *C) {
		v := drawRichValue(c.T, dataOpts(rapid.IntRange(2, 5).Draw(c.T, "depth")), false)
		dv := (&sharer{t: c.T, memo: map[string]dgo.Value{}}).build(v)
		o := drawStreamOptions(c.T, false)
		if o.DedupLevel == streamer.NoDedup {
			o.DedupLevel = streamer.NoKeyDedup
		}
		r := newRecorder()
		r.keys = rapid.Bool().Draw(c.T, "keys")
		r.threshold = rapid.SampledFrom([]int{0, 2, 20}).Draw(c.T, "threshold")
		streamer.New(nil, o).Stream(dv, r)
		seen, strs := map[dgo.Value]bool{}, map[string]bool{}
		containers(dv, r.threshold, seen, strs)
		nc := 0
		times, keyTimes := map[string]int{}, map[string]int{}
		visited := map[*node]bool{}
		var walk func(n *node, key bool)
		walk = func(n *node, key bool) {
			if visited[n] {
				return
			}
			visited[n] = true
			if s, ok := n.v.(dgo.String); ok {
				if key {
					keyTimes[s.GoString()]++
				} else {
					times[s.GoString()]++
				}
			}
			if n.kind != 'v' {
				nc++
			}
			for i, k := range n.kids {
				walk(k, n.kind == 'm' && i%2 == 0)
			}
		}
		walk(r.stack[0].kids[0], false)
		if nc != len(seen) {
			c.Fatalf("%s (%s) contains %d different collections and %d are streamed", v.str(), describe(o), len(seen), nc)
		}
		max := o.DedupLevel == streamer.MaxDedup && r.keys
		for s := range strs {
			n := times[s]
			if max {
				n += keyTimes[s]
			}
			if n != 1 {
				c.Fatalf("%s (%s): the string %q is streamed %d times", v.str(), describe(o), s, n)
			}
		}
		if max {
			for s, n := range keyTimes {
				if len(s) >= r.threshold && n+times[s] > 1 {
					c.Fatalf("%s (%s): the key %q is streamed %d times", v.str(), describe(o), s, n+times[s])
				}
			}
		}
		if r.refs > 0 {
			c.NonTrivial(v.str())
		}
	})
}

func TestP15_RoundTrip(t *testing.T) {
	prop(t, 12000, "random rich value with shared parts through a random route; non-trivial when composite", func(c *C) {
		types := rapid.Bool().Draw(c.T, "types")
		v := drawRichValue(c.T, streamOpts(rapid.IntRange(1, 4).Draw(c.T, "depth")), types)
		dv := (&sharer{t: c.T, memo: map[string]dgo.Value{}}).build(v)
		o := drawStreamOptions(c.T, types)
		var got dgo.Value
		route := ""
		what := func() string { return fmt.Sprintf("%s (%s) %s", v.str(), describe(o), route) }
		r := rapid.IntRange(0, 4).Draw(c.T, "route")
		o2 := drawStreamOptions(c.T, types)
		o2.Dialect = o.Dialect
		p := catch(func() {
			switch r {
			case 0:
				route = "via data"
				dc := streamer.DataCollector()
				streamer.New(nil, o).Stream(dv, dc)
				if !tf.ParseType("data").Instance(dc.Value()) {
					c.Fatalf("%s: %s isn't data", what(), dc.Value())
				}
				dd := streamer.DataDecoder(nil, o.Dialect)
				streamer.New(nil, o2).Stream(dc.Value(), dd)
				got = dd.Value()
			case 1:
				route = "via JSON"
				var b bytes.Buffer
				streamer.New(nil, o).Stream(dv, streamer.JSON(&b))
				route += " " + b.String()
				got = streamer.UnmarshalJSON(b.Bytes(), o.Dialect)
			case 2:
				route = "to a decoder"
				dd := streamer.DataDecoder(nil, o.Dialect)
				streamer.New(nil, o).Stream(dv, dd)
				got = dd.Value()
			case 3:
				route = "via data and JSON"
				dc := streamer.DataCollector()
				streamer.New(nil, o).Stream(dv, dc)
				var b bytes.Buffer
				streamer.New(nil, o2).Stream(dc.Value(), streamer.JSON(&b))
				route += " " + b.String()
				got = streamer.UnmarshalJSON(b.Bytes(), o.Dialect)
			case 4:
				route = "to a collector and a decoder"
				cl := streamer.NewCollector()
				streamer.New(nil, o).Stream(dv, cl)
				dd := streamer.DataDecoder(nil, o.Dialect)
				streamer.New(nil, o2).Stream(cl.Value(), dd)
				got = dd.Value()
			}
		})
		if p != nil {
			if strings.Contains(fmt.Sprintf("%T", p.v), "rapid") {
				panic(p.v)
			}
			c.Fatalf("%s fails: %s\n%s", what(), p, p.stack)
		}
		if m := model(got); !sameRich(m, model(dv)) {
			c.Fatalf("%s gives %s", what(), m.str())
		}
		if !got.Equals(dv) || !dv.Equals(got) {
			c.Fatalf("%s gives %s, which has the same content but isn't equal", what(), got)
		}
		c.Class([]string{"via data", "via JSON", "to a decoder", "via data and JSON", "to a collector and a decoder"}[r])
		if v.K == kArray || v.K == kMap || v.K == kSensitive {
			c.NonTrivial(v.str())
		}
	})
}

func TestP15_NotRich(t *testing.T) {
	prop(t, 3000, "random value with rich data turned off; non-trivial when composite", func(c *C) {
		types := rapid.IntRange(0, 3).Draw(c.T, "types") == 0
		vo := dataOpts(rapid.IntRange(1, 4).Draw(c.T, "depth"))
		if rapid.Bool().Draw(c.T, "rich") {
			vo = streamOpts(vo.depth)
		}
		v := drawRichValue(c.T, vo, types)
		dv := (&sharer{t: c.T, memo: map[string]dgo.Value{}}).build(v)
		o := drawStreamOptions(c.T, types)
		o.RichData = false
		rich := v.has(func(x *V) bool {
			switch x.K {
			case kBinary, kTime, kSensitive, kType:
				return true
			case kMap:
				for _, k := range x.MK {
					if k.K != kString {
						return true
					}
				}
			}
			return false
		})
		var got dgo.Value
		asJSON := rapid.Bool().Draw(c.T, "json")
		p := catch(func() {
			if asJSON {
				var b bytes.Buffer
				streamer.New(nil, o).Stream(dv, streamer.JSON(&b))
				got = streamer.UnmarshalJSON(b.Bytes(), o.Dialect)
			} else {
				dc := streamer.DataCollector()
				streamer.New(nil, o).Stream(dv, dc)
				got = dc.Value()
			}
		})
		switch {
		case rich && p == nil:
			c.Fatalf("%s (%s) isn't rejected: %s", v.str(), describe(o), got)
		case rich && (p.runtimeErr() || !strings.Contains(p.String(), "unable to serialize")):
			c.Fatalf("%s (%s) is rejected with %s\n%s", v.str(), describe(o), p, p.stack)
		case !rich && p != nil:
			c.Fatalf("%s (%s) is rejected: %s", v.str(), describe(o), p)
		case !rich && !sameOrdered(model(got), v):
			c.Fatalf("%s (%s) gives %s", v.str(), describe(o), got)
		}
		c.Class(fmt.Sprintf("rich %v", rich))
		if v.K == kArray || v.K == kMap || v.K == kSensitive {
			c.NonTrivial(v.str())
		}
	})
}

func TestP15_Aliases(t *testing.T) {
	prop(t, 2500, "random types, some with an alias, streamed with the aliases; non-trivial when there are several types", func(c *C) {
		n := rapid.IntRange(1, 3).Draw(c.T, "n")
		am := tf.BuiltInAliases()
		a := vf.MutableValues()
		names := map[string]string{}
		am = am.Collect(func(aa dgo.AliasAdder) {
			for i := 0; i < n; i++ {
				var ty dgo.Type
				for ty == nil {
					m := drawT(c.T, tOpts{depth: 2})
					if !inexpressible(m) && !escapedPattern(m) && !m.has(func(x *T) bool { return x.K == tExact }) {
						ty = m.build()
					}
				}
				if am.GetName(ty) != nil {
					continue
				}
				if rapid.Bool().Draw(c.T, "alias") {
					if _, ok := names[ty.String()]; !ok {
						names[ty.String()] = fmt.Sprintf("al%d", i)
						aa.Add(ty, vf.String(names[ty.String()]))
					}
				}
				a.Add(ty)
			}
		})
		if rapid.Bool().Draw(c.T, "builtin") {
			a.Add(tf.ParseType(rapid.SampledFrom(namedAliasTypes).Draw(c.T, "data")))
		}
		o := drawStreamOptions(c.T, true)
		var got dgo.Value
		js := rapid.Bool().Draw(c.T, "json")
		// The names may denote something else where the types are decoded
		into := tf.BuiltInAliases()
		if rapid.Bool().Draw(c.T, "defined") {
			into = into.Collect(func(aa dgo.AliasAdder) {
				aa.Add(tf.ParseType("map[int]7..9"), vf.String("al0"))
				aa.Add(tf.ParseType("map[int]6..8"), vf.String("other"))
			})
		}
		nm := into.Collect(func(aa dgo.AliasAdder) {
			p := catch(func() {
				var b bytes.Buffer
				dc := streamer.DataCollector()
				if js {
					streamer.New(am, o).Stream(a, streamer.JSON(&b))
					dc.Add(streamer.UnmarshalJSON(b.Bytes(), o.Dialect))
					got = dc.Value()
				} else {
					streamer.New(am, o).Stream(a, dc)
					dd := streamer.DataDecoder(aa, o.Dialect)
					streamer.New(nil, nil).Stream(dc.Value(), dd)
					got = dd.Value()
				}
			})
			if p != nil {
				c.Fatalf("streaming %s with the aliases %v fails: %s\n%s", a, names, p, p.stack)
			}
		})
		if !got.Equals(a) {
			c.Fatalf("streaming %s with the aliases %v gives %s", a, names, got)
		}
		if !js {
			for ty, name := range names {
				tt := nm.GetType(vf.String(name))
				if tt == nil || !tt.Equals(tf.ParseType(ty)) {
					c.Fatalf("streaming %s with the aliases %v: %s is restored to %v", a, names, name, tt)
				}
			}
		}
		if a.Len() > 1 {
			c.NonTrivial(a.String() + fmt.Sprint(names))
		}
	})
}

// richDoc draws a JSON document and the value that it denotes. When it is damaged there is no such value
type richDoc struct {
	*rapid.T
	d    streamer.Dialect
	q    func(s dgo.Value) string
	keys []string
}

func (x *richDoc) typed(name dgo.Value, value string) string {
	tk, vk := x.q(x.d.TypeKey())+":"+x.q(name), x.q(x.d.ValueKey())+":"+value
	if rapid.Bool().Draw(x.T, "swap") {
		return "{" + vk + "," + tk + "}"
	}
	return "{" + tk + "," + vk + "}"
}

func (x *richDoc) good(depth int) (string, *V) {
	n := 8
	if depth <= 0 {
		n = 4
	}
	switch rapid.IntRange(0, n).Draw(x.T, "good") {
	case 0:
		i := rapid.IntRange(-3, 3).Draw(x.T, "int")
		return strconv.Itoa(i), vInt(int64(i))
	case 1:
		return "null", vNil()
	case 2:
		s := rapid.SampledFrom([]string{"", "a", "map", "binary", "1", "AQID"}).Draw(x.T, "str")
		return strconv.Quote(s), vStr(s)
	case 3:
		b := rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(x.T, "bytes")
		return x.typed(x.d.BinaryTypeName(), strconv.Quote(base64.StdEncoding.EncodeToString(b))), vBin(b)
	case 4:
		ts := rapid.SampledFrom([]string{"2019-10-06T07:15:00Z", "2019-10-06T07:15:00.123456789+02:00", "0001-01-01T00:00:00Z"}).Draw(x.T, "time")
		tm, _ := time.Parse(time.RFC3339Nano, ts)
		return x.typed(x.d.TimeTypeName(), strconv.Quote(ts)), vTime(tm)
	case 5:
		s, v := x.good(depth - 1)
		return x.typed(x.d.SensitiveTypeName(), s), vSens(v)
	case 6:
		m := vMap()
		var ss []string
		for i, l := 0, rapid.IntRange(0, 3).Draw(x.T, "len"); i < l; i++ {
			ks, k := x.good(depth - 2)
			vs, v := x.good(depth - 1)
			ss = append(ss, ks, vs)
			m.put(k, v)
		}
		return x.typed(x.d.MapTypeName(), "["+strings.Join(ss, ",")+"]"), m
	case 7:
		m := vMap()
		var ss []string
		for i, l := 0, rapid.IntRange(0, 3).Draw(x.T, "len"); i < l; i++ {
			vs, v := x.good(depth - 1)
			k := rapid.SampledFrom([]string{"a", "b", "c", ""}).Draw(x.T, "key")
			if m.get(vStr(k)) >= 0 {
				continue
			}
			ss = append(ss, strconv.Quote(k)+":"+vs)
			m.put(vStr(k), v)
		}
		return "{" + strings.Join(ss, ",") + "}", m
	default:
		a := vArr()
		var ss []string
		for i, l := 0, rapid.IntRange(0, 3).Draw(x.T, "len"); i < l; i++ {
			vs, v := x.good(depth - 1)
			ss = append(ss, vs)
			a.A = append(a.A, v)
		}
		return "[" + strings.Join(ss, ",") + "]", a
	}
}

// bad gives something that must be rejected
func (x *richDoc) bad(depth int) string {
	pick := func(ss ...string) string { return rapid.SampledFrom(ss).Draw(x.T, "bad") }
	if depth > 0 && rapid.IntRange(0, 2).Draw(x.T, "nest") > 0 {
		b := x.bad(depth - 1)
		s, _ := x.good(1)
		switch rapid.IntRange(0, 5).Draw(x.T, "in") {
		case 0:
			return x.typed(x.d.SensitiveTypeName(), b)
		case 1:
			return x.typed(x.d.MapTypeName(), "["+b+","+s+"]")
		case 2:
			return x.typed(x.d.MapTypeName(), "["+s+","+b+"]")
		case 3:
			return "{\"a\":" + b + ",\"b\":" + s + "}"
		case 4:
			return "[" + s + "," + b + "]"
		default:
			return "[" + b + "," + s + "]"
		}
	}
	switch rapid.IntRange(0, 6).Draw(x.T, "damage") {
	case 0:
		n := rapid.IntRange(0, 2).Draw(x.T, "pairs")*2 + 1
		var ss []string
		for ; n > 0; n-- {
			s, _ := x.good(1)
			ss = append(ss, s)
		}
		return x.typed(x.d.MapTypeName(), "["+strings.Join(ss, ",")+"]")
	case 1:
		return x.typed(x.d.MapTypeName(), pick("null", "1", `"a"`, "{}", `{"a":1}`, "true"))
	case 2:
		return x.typed(x.d.BinaryTypeName(), pick("null", "1", `"A"`, `"AQI"`, `"*"`, "[]", "[1]", "{}", "true", `"A==="`))
	case 3:
		return x.typed(x.d.TimeTypeName(), pick("null", "1", `"x"`, `""`, "[]", "{}", `"2019-10-06"`, `"2019-13-06T07:15:00Z"`, `"2019-10-06T07:15:00"`))
	case 4:
		return x.typed(x.d.AliasTypeName(), pick("null", "1", `"a"`, "[]", `["al9"]`, `["al9","int","int"]`, `["al9","int["]`, `["al9",1]`, `[1,2]`, "{}"))
	case 5:
		if rapid.Bool().Draw(x.T, "alone") {
			return "{" + x.q(x.d.TypeKey()) + ":" + pick(`"string["`, `"]"`, `"nosuchtype9"`, `"NoSuchType9"`, `"{a:"`, `""`, `"[]"`) + "}"
		}
		return x.typed(vf.String(pick("nosuchtype9", "NoSuchType9", "", "int[")), "1")
	default:
		return "{" + x.q(x.d.RefKey()) + ":" + pick("1000", "-1", "1.5", `"a"`, "null", "[]", "99999999999999999999") + "}"
	}
}

func TestP15_Documents(t *testing.T) {
	prop(t, 12000, "a document of rich data that is well-formed, or that contains one part that isn't; non-trivial when composite", func(c *C) {
		dia, dn := drawDialect(c.T)
		x := &richDoc{T: c.T, d: dia, q: func(s dgo.Value) string { return strconv.Quote(s.String()) }}
		if dia == nil {
			x.d = streamer.DgoDialect()
		}
		damaged := rapid.Bool().Draw(c.T, "damaged")
		var doc string
		var want *V
		if damaged {
			doc = x.bad(3)
			if dn == "pcore" {
				// in pcore, an identifier in lower case is a string and [] is an array
				doc = strings.NewReplacer("nosuchtype9", "NoSuchType9", `:"[]"`, `:"["`).Replace(doc)
			}
		} else {
			doc, want = x.good(4)
		}
		var v dgo.Value
		p := catch(func() { v = streamer.UnmarshalJSON([]byte(doc), dia) })
		switch {
		case damaged && p == nil:
			c.Fatalf("%s (%s) is decoded to %s", doc, dn, v)
		case damaged && (p.runtimeErr() || internalFault(strings.Replace(p.String(), "<nil>", "", -1), doc)):
			c.Fatalf("%s (%s) is rejected with an internal fault: %s\n%s", doc, dn, p, p.stack)
		case want != nil && p != nil:
			c.Fatalf("%s (%s) is rejected: %s\n%s", doc, dn, p, p.stack)
		case want != nil && !sameOrdered(model(v), want):
			c.Fatalf("%s (%s) is decoded to %s, expected %s", doc, dn, v, want.str())
		}
		c.Class("damaged %v", damaged)
		if len(doc) > 12 {
			c.NonTrivial(doc)
		}
	})
}

func TestP15_BadRich(t *testing.T) {
	words := []string{"__type", "__value", "__ref", "map", "sensitive", "binary", "time", "alias", "int", "[]string", "string[", "foo", "AQID", "A", "2019-10-06T07:15:00Z", "x",
		"__ptype", "__pvalue", "__pref", "Hash", "Sensitive", "Binary", "Timestamp", "Alias", "Array[Integer]", "Foo"}
	prop(t, 15000, "a JSON document that uses the reserved keys at random; non-trivial when composite", func(c *C) {
		var sb strings.Builder
		var elem func(d int)
		elem = func(d int) {
			n := 7
			if d <= 0 {
				n = 3
			}
			switch rapid.IntRange(0, n).Draw(c.T, "what") {
			case 0:
				sb.WriteString(rapid.SampledFrom([]string{"null", "true", "0", "1", "2", "-1", "5", "1.5", "99999999999"}).Draw(c.T, "lit"))
			case 1, 2, 3:
				fmt.Fprintf(&sb, "%q", rapid.SampledFrom(words).Draw(c.T, "word"))
			case 4:
				sb.WriteByte('[')
				for i, l := 0, rapid.IntRange(0, 3).Draw(c.T, "len"); i < l; i++ {
					if i > 0 {
						sb.WriteByte(',')
					}
					elem(d - 1)
				}
				sb.WriteByte(']')
			default:
				sb.WriteByte('{')
				for i, l := 0, rapid.IntRange(0, 3).Draw(c.T, "len"); i < l; i++ {
					if i > 0 {
						sb.WriteByte(',')
					}
					k := rapid.SampledFrom(words).Draw(c.T, "key")
					if i < 2 && rapid.IntRange(0, 3).Draw(c.T, "special") > 0 {
						k = reservedKeys[i]
					}
					fmt.Fprintf(&sb, "%q:", k)
					elem(d - 1)
				}
				sb.WriteByte('}')
			}
		}
		elem(4)
		dia, dn := drawDialect(c.T)
		doc := sb.String()
		switch dn {
		case "pcore":
			doc = strings.NewReplacer("__type", "__ptype", "__value", "__pvalue", "__ref", "__pref").Replace(doc)
			doc = strings.Replace(doc, "__pp", "__p", -1)
		case "own":
			doc = strings.NewReplacer("__type", "_ot", "__value", "_ov", "__ref", "_or", `"binary"`, `"B"`, `"map"`, `"M"`, `"sensitive"`, `"S"`, `"time"`, `"T"`, `"alias"`, `"A"`).Replace(doc)
		}
		var v dgo.Value
		p := catch(func() { v = streamer.UnmarshalJSON([]byte(doc), dia) })
		switch {
		case p == nil:
			if p := catch(func() { _ = v.String(); _ = v.HashCode(); _ = v.Equals(v) }); p != nil {
				c.Fatalf("%s is decoded to something that cannot be used: %s\n%s", doc, p, p.stack)
			}
			c.Class("decoded")
		case p.runtimeErr() || internalFault(strings.Replace(p.String(), "<nil>", "", -1), doc):
			c.Fatalf("%s is rejected with an internal fault: %s\n%s", doc, p, p.stack)
		default:
			if _, ok := p.v.(error); !ok {
				c.Fatalf("%s is rejected with something that isn't an error: %s", doc, p)
			}
			c.Class("rejected")
		}
		if len(doc) > 5 {
			c.NonTrivial(doc)
		}
	})
}

// buildWith is like build, but the maps selected by typed have keys that can't be the keys of a JSON object
func (g G) buildWith(typed func(i int) bool) []dgo.Value {
	vs := g.build()
	for i, x := range g {
		if x.kind == kMap && typed(i) {
			m := vs[i].(dgo.Map)
			for j, k := range x.keys {
				v := m.Remove(vf.String(k))
				m.Put(intKey(j, k), v)
			}
		}
	}
	return vs
}

func intKey(_ int, k string) dgo.Value {
	switch k {
	case "a":
		return vf.Integer(1)
	case "b":
		return vf.Values("b")
	case "c":
		return vf.Float(2.5)
	}
	return vf.True
}

// sameGraph tells how the two values, and everything that they contain, differ. Something that occurs more than once in
// one of them must occur in the same places of the other
func sameGraph(a, b dgo.Value) string {
	ab, ba := map[dgo.Value]dgo.Value{}, map[dgo.Value]dgo.Value{}
	var walk func(a, b dgo.Value, path string) string
	walk = func(a, b dgo.Value, path string) string {
		switch x := a.(type) {
		case dgo.Array, dgo.Map, dgo.Sensitive:
			switch b.(type) {
			case dgo.Array, dgo.Map, dgo.Sensitive:
			default:
				return fmt.Sprintf("%s is a %T, was a %T", path, b, a)
			}
			p, ok := ab[a]
			q, ok2 := ba[b]
			if ok || ok2 {
				if p != b || q != a {
					return path + " isn't what it should be the same as"
				}
				return ""
			}
			ab[a], ba[b] = b, a
			switch x := x.(type) {
			case dgo.Array:
				y, ok := b.(dgo.Array)
				if !ok || x.Len() != y.Len() {
					return fmt.Sprintf("%s is a %T, was a %T, or has another size", path, b, a)
				}
				for i := 0; i < x.Len(); i++ {
					if d := walk(x.Get(i), y.Get(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
						return d
					}
				}
			case dgo.Map:
				y, ok := b.(dgo.Map)
				if !ok || x.Len() != y.Len() {
					return fmt.Sprintf("%s is a %T, was a %T, or has another size", path, b, a)
				}
				d := ""
				x.EachEntry(func(e dgo.MapEntry) {
					if d == "" {
						if v := y.Get(e.Key()); v != nil {
							d = walk(e.Value(), v, fmt.Sprintf("%s{%s}", path, e.Key()))
						} else {
							d = fmt.Sprintf("%s{%s} is missing", path, e.Key())
						}
					}
				})
				return d
			case dgo.Sensitive:
				y, ok := b.(dgo.Sensitive)
				if !ok {
					return fmt.Sprintf("%s is a %T, was a %T", path, b, a)
				}
				return walk(x.Unwrap(), y.Unwrap(), path+".value")
			}
			return ""
		}
		if !a.Equals(b) {
			return path + " isn't equal"
		}
		return ""
	}
	return walk(a, b, "")
}

// TestP15_SelfRef streams values that contain themselves
func TestP15_SelfRef(t *testing.T) {
	prop(t, 6000, "random graph of collections, with any kind of keys, streamed with deduplication through a random route; non-trivial when it contains itself", func(c *C) {
		g := drawG(c.T)
		typed := rapid.IntRange(0, 15).Draw(c.T, "typed")
		vs := g.buildWith(func(i int) bool { return typed&(1<<uint(i)) != 0 })
		i := rapid.IntRange(0, len(g)-1).Draw(c.T, "root")
		v := vs[i]
		o := drawStreamOptions(c.T, false)
		if o.DedupLevel == streamer.NoDedup {
			o.DedupLevel = streamer.NoKeyDedup
		}
		r := rapid.IntRange(0, 4).Draw(c.T, "route")
		reached, cyclic := g.reach(i)
		what := fmt.Sprintf("%s typed %04b root %d (%s) route %d", g.str(), typed, i, describe(o), r)
		c.Doing(what)
		var got dgo.Value
		doc := ""
		p := catch(func() {
			switch r {
			case 0:
				var b bytes.Buffer
				streamer.New(nil, o).Stream(v, streamer.JSON(&b))
				doc = b.String()
				got = streamer.UnmarshalJSON(b.Bytes(), o.Dialect)
			case 1:
				dd := streamer.DataDecoder(nil, o.Dialect)
				streamer.New(nil, o).Stream(v, dd)
				got = dd.Value()
			case 2:
				cl := streamer.NewCollector()
				streamer.New(nil, o).Stream(v, cl)
				dd := streamer.DataDecoder(nil, o.Dialect)
				streamer.New(nil, o).Stream(cl.Value(), dd)
				got = dd.Value()
			case 3:
				dc := streamer.DataCollector()
				streamer.New(nil, o).Stream(v, dc)
				dd := streamer.DataDecoder(nil, o.Dialect)
				streamer.New(nil, o).Stream(dc.Value(), dd)
				got = dd.Value()
			case 4:
				dc := streamer.DataCollector()
				streamer.New(nil, o).Stream(v, dc)
				var b bytes.Buffer
				streamer.New(nil, o).Stream(dc.Value(), streamer.JSON(&b))
				doc = b.String()
				got = streamer.UnmarshalJSON(b.Bytes(), o.Dialect)
			}
		})
		if p != nil {
			c.Fatalf("%s fails: %s\n%s", what, p, p.stack)
		}
		if d := sameGraph(v, got); d != "" {
			c.Fatalf("%s gives a value where %s\n%s", what, d, doc)
		}
		if cyclic {
			c.Class("contains itself")
			c.NonTrivial(what)
		}
		c.Class(fmt.Sprintf("%d collections", len(reached)))
	})
}
