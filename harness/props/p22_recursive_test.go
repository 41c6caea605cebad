package props

import (
	"fmt"
	"strings"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// ---- values that contain themselves -----------------------------------------------------------------------

// G is a graph of collections
type G []*gnode

type gnode struct {
	kind K // kArray, kMap, or kSensitive
	kids []gkid
	keys []string
}

// gkid is an edge to another node, or a scalar
type gkid struct {
	node int
	v    *V
}

var gScalars = []*V{vInt(1), vInt(2), vStr("a"), vNil(), vBool(true), vFloat(1.5)}

func drawKid(t *rapid.T, n int) gkid {
	if rapid.IntRange(0, 4).Draw(t, "edge") < 3 {
		return gkid{node: rapid.IntRange(0, n-1).Draw(t, "to")}
	}
	return gkid{v: rapid.SampledFrom(gScalars).Draw(t, "scalar")}
}

func drawG(t *rapid.T) G {
	n := rapid.IntRange(1, 4).Draw(t, "nodes")
	g := make(G, n)
	for i := range g {
		g[i] = &gnode{kind: rapid.SampledFrom([]K{kArray, kArray, kMap, kMap, kSensitive}).Draw(t, "kind")}
		if i == 0 && g[i].kind == kSensitive {
			g[i].kind = kArray
		}
	}
	for _, x := range g {
		if x.kind == kSensitive {
			// The wrapped value must be created before the wrapper, and can then be changed to contain the wrapper
			to := 0
			for {
				to = rapid.IntRange(0, n-1).Draw(t, "wraps")
				if g[to].kind != kSensitive {
					break
				}
			}
			x.kids = []gkid{{node: to}}
			continue
		}
		for w := rapid.IntRange(0, 3).Draw(t, "width"); w > 0; w-- {
			k := drawKid(t, n)
			if x.kind == kMap {
				key := rapid.SampledFrom([]string{"a", "b", "c", "d"}).Draw(t, "key")
				if indexOfStr(x.keys, key) >= 0 {
					continue
				}
				x.keys = append(x.keys, key)
			}
			x.kids = append(x.kids, k)
		}
	}
	return g
}

func indexOfStr(ss []string, s string) int {
	for i := range ss {
		if ss[i] == s {
			return i
		}
	}
	return -1
}

func (g G) clone() G {
	c := make(G, len(g))
	for i, x := range g {
		c[i] = &gnode{kind: x.kind, kids: append([]gkid{}, x.kids...), keys: append([]string{}, x.keys...)}
	}
	return c
}

// near returns a graph that differs in one place
func (g G) near(t *rapid.T) G {
	c := g.clone()
	x := rapid.SampledFrom(c).Draw(t, "node")
	switch op := rapid.IntRange(0, 4).Draw(t, "change"); {
	case x.kind == kSensitive:
		to := rapid.IntRange(0, len(c)-1).Draw(t, "wraps")
		if c[to].kind != kSensitive {
			x.kids[0] = gkid{node: to}
		}
	case op == 0 && len(x.kids) > 0:
		i := len(x.kids) - 1
		x.kids = x.kids[:i]
		if x.kind == kMap {
			x.keys = x.keys[:i]
		}
	case op == 1 && x.kind == kArray:
		x.kids = append(x.kids, drawKid(t, len(c)))
	case op == 2 && len(x.kids) > 0:
		// An edge to a copy of the node that was referenced. The values are the same.
		i := rapid.IntRange(0, len(x.kids)-1).Draw(t, "kid")
		if x.kids[i].v == nil && c[x.kids[i].node].kind != kSensitive {
			n := c[x.kids[i].node]
			c = append(c, &gnode{kind: n.kind, kids: append([]gkid{}, n.kids...), keys: n.keys})
			x.kids[i].node = len(c) - 1
		}
	case op == 3 && x.kind == kMap && len(x.keys) > 1:
		// Another order. The values are the same.
		x.keys[0], x.keys[1] = x.keys[1], x.keys[0]
		x.kids[0], x.kids[1] = x.kids[1], x.kids[0]
	case len(x.kids) > 0:
		x.kids[rapid.IntRange(0, len(x.kids)-1).Draw(t, "kid")] = drawKid(t, len(c))
	}
	return c
}

func (g G) str() string {
	sb := &strings.Builder{}
	for i, x := range g {
		fmt.Fprintf(sb, "%d=%s[", i, kNames[x.kind])
		for j, k := range x.kids {
			if j > 0 {
				sb.WriteString(",")
			}
			if x.kind == kMap {
				sb.WriteString(x.keys[j] + ":")
			}
			if k.v != nil {
				sb.WriteString(k.v.str())
			} else {
				fmt.Fprintf(sb, "^%d", k.node)
			}
		}
		sb.WriteString("] ")
	}
	return sb.String()
}

// reach tells what can be reached from node i, and if some of that contains itself
func (g G) reach(i int) (reached map[int]bool, cyclic bool) {
	reached = map[int]bool{}
	onPath := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if onPath[i] {
			cyclic = true
			return
		}
		if reached[i] {
			return
		}
		reached[i] = true
		onPath[i] = true
		for _, k := range g[i].kids {
			if k.v == nil {
				walk(k.node)
			}
		}
		onPath[i] = false
	}
	walk(i)
	return
}

// build creates the collections, and then adds the content
func (g G) build() []dgo.Value {
	vs := make([]dgo.Value, len(g))
	for i, x := range g {
		switch x.kind {
		case kArray:
			vs[i] = vf.MutableValues()
		case kMap:
			vs[i] = vf.MutableMap()
		}
	}
	for i, x := range g {
		if x.kind == kSensitive {
			vs[i] = vf.Sensitive(vs[x.kids[0].node])
		}
	}
	for i, x := range g {
		for j, k := range x.kids {
			var v dgo.Value
			if k.v == nil {
				v = vs[k.node]
			} else {
				v = build(k.v, fixedRoute)
			}
			switch x.kind {
			case kArray:
				vs[i].(dgo.Array).Add(v)
			case kMap:
				vs[i].(dgo.Map).Put(x.keys[j], v)
			}
		}
	}
	return vs
}

// bisimilar tells if the values have the same content
func bisimilar(g G, i int, h G, j int, assumed map[[2]int]bool) bool {
	if assumed[[2]int{i, j}] {
		return true
	}
	assumed[[2]int{i, j}] = true
	a, b := g[i], h[j]
	if a.kind != b.kind || len(a.kids) != len(b.kids) {
		return false
	}
	for n, ka := range a.kids {
		m := n
		if a.kind == kMap {
			if m = indexOfStr(b.keys, a.keys[n]); m < 0 {
				return false
			}
		}
		kb := b.kids[m]
		if (ka.v == nil) != (kb.v == nil) {
			return false
		}
		if ka.v != nil {
			if !refEq(ka.v, kb.v) {
				return false
			}
		} else if !bisimilar(g, ka.node, h, kb.node, assumed) {
			return false
		}
	}
	return true
}

// parts returns all collections that are reachable from the value
func parts(v dgo.Value) []dgo.Value {
	var seen []dgo.Value
	var walk func(v dgo.Value)
	walk = func(v dgo.Value) {
		switch v.(type) {
		case dgo.Array, dgo.Map, dgo.Sensitive:
		default:
			return
		}
		for _, s := range seen {
			if s == v {
				return
			}
		}
		seen = append(seen, v)
		switch x := v.(type) {
		case dgo.Array:
			x.Each(walk)
		case dgo.Map:
			x.EachValue(walk)
		case dgo.Sensitive:
			walk(x.Unwrap())
		}
	}
	walk(v)
	return seen
}

// checkSelf checks that v can be used, given that w has the same shape
func checkSelf(c *C, v, w dgo.Value, copied bool, what string) {
	if !v.Equals(v) || !v.Equals(w) || !w.Equals(v) {
		c.Fatalf("%s: equals itself: %v, equals what was built the same way: %v and %v", what, v.Equals(v), v.Equals(w), w.Equals(v))
	}
	if v.HashCode() != v.HashCode() || v.HashCode() != w.HashCode() && !copied {
		c.Fatalf("%s: hash codes of values that were built the same way: %d and %d", what, v.HashCode(), w.HashCode())
	}
	if s, z := v.String(), w.String(); s != z && !copied || s != fmt.Sprintf("%v", v) {
		c.Fatalf("%s: printed as %s and %s", what, s, z)
	}
	if iv, ok := v.(dgo.Indentable); ok {
		if s, z := util.ToIndentedStringERP(iv), util.ToIndentedStringERP(w.(dgo.Indentable)); s != z && !copied {
			c.Fatalf("%s: printed as %s and %s", what, s, z)
		}
	}
	if cv, ok := v.(dgo.Comparable); ok {
		for _, o := range []dgo.Value{v, w} {
			if r, ok := cv.CompareTo(o); ok && r != 0 {
				c.Fatalf("%s: compares as %d with what was built the same way", what, r)
			}
		}
	}
}

// TestP22_Shapes probes the hash codes of equal values that don't have the same shape
func TestP22_Shapes(t *testing.T) {
	defer watch(t.Name())()
	known(t, "recursive-hash", func() string {
		a := vf.MutableValues()
		a.Add(a)
		b := vf.MutableValues()
		b.Add(vf.MutableValues(b))
		if a.Equals(b) && a.HashCode() != b.HashCode() {
			return fmt.Sprintf("a=[a] equals b=[[b]] but the hash codes are %d and %d", a.HashCode(), b.HashCode())
		}
		return ""
	})
	counted("TestP22_Shapes", "two arrays that contain themselves at different depths", 1, "a=[a] and b=[[b]]")
}

func TestP22_Values(t *testing.T) {
	prop(t, 20000, "a graph of collections and its near copy; non-trivial when the value contains itself", func(c *C) {
		g := drawG(c.T)
		h := g.near(c.T)
		reached, cyclic := g.reach(0)
		what := g.str() + "and " + h.str()
		c.Doing("%s", what)
		v, w, x := g.build()[0], g.build()[0], h.build()[0]
		checkSelf(c, v, w, false, what)
		same := bisimilar(g, 0, h, 0, map[[2]int]bool{})
		if v.Equals(x) != same || x.Equals(v) != same {
			c.Fatalf("%s: equal: %v and %v, same content: %v", what, v.Equals(x), x.Equals(v), same)
		}
		if _, hc := h.reach(0); same && !cyclic && !hc && v.HashCode() != x.HashCode() {
			c.Fatalf("%s: equal but the hash codes are %d and %d", what, v.HashCode(), x.HashCode())
		}
		if cv, ok := v.(dgo.Comparable); ok {
			a, aok := cv.CompareTo(x)
			b, bok := x.(dgo.Comparable).CompareTo(v)
			if aok != bok || aok && sign(a) != -sign(b) || same && aok && a != 0 || !same && aok && a == 0 {
				c.Fatalf("%s: compares as %d,%v and %d,%v, same content: %v", what, a, aok, b, bok, same)
			}
		}
		if a, ok := v.(dgo.Array); ok {
			if !a.ContainsAll(a) || !a.SameValues(w.(dgo.Array)) || a.SameValues(x.(dgo.Array)) != (same || a.SameValues(x.(dgo.Array))) {
				c.Fatalf("%s: doesn't contain what it contains", what)
			}
			a.Each(func(e dgo.Value) {
				if i := a.IndexOf(e); i < 0 || !a.Get(i).Equals(e) {
					c.Fatalf("%s: the index of an element is %d", what, i)
				}
			})
			if u := a.Unique(); !a.ContainsAll(u) || u.Len() > a.Len() {
				c.Fatalf("%s: the unique elements are %s", what, u)
			}
		}

		// types
		ty := v.Type()
		if !ty.Instance(v) || !ty.Instance(w) || ty.Instance(x) != same {
			c.Fatalf("%s: instance of its own type: %v, %v. Other is an instance: %v, same content: %v", what, ty.Instance(v), ty.Instance(w), ty.Instance(x), same)
		}
		if !ty.Equals(ty) || !ty.Equals(w.Type()) || ty.Equals(x.Type()) != same || ty.HashCode() != w.Type().HashCode() {
			c.Fatalf("%s: the type equals itself: %v, the type of the same: %v, hash codes %d and %d, the type of the other: %v, same content: %v", what,
				ty.Equals(ty), ty.Equals(w.Type()), ty.HashCode(), w.Type().HashCode(), ty.Equals(x.Type()), same)
		}
		if !ty.Assignable(ty) || !ty.Assignable(w.Type()) || !w.Type().Assignable(ty) || ty.Assignable(x.Type()) != same {
			c.Fatalf("%s: the type is assignable from itself: %v, from the type of the same: %v, from the type of the other: %v, same content: %v", what,
				ty.Assignable(ty), ty.Assignable(w.Type()), ty.Assignable(x.Type()), same)
		}
		if s, z := ty.String(), w.Type().String(); s != z {
			c.Fatalf("%s: types printed as %s and %s", what, s, z)
		}
		_ = ty.Type().String() + typ.Generic(ty).String()
		if gt := typ.Generic(ty); !gt.Instance(v) {
			c.Fatalf("%s: isn't an instance of its generic type %s", what, gt)
		}

		// copies
		mutable := parts(v)
		if len(mutable) != len(reached) {
			c.Fatalf("%s: %d parts", what, len(mutable))
		}
		fc := v.(dgo.Freezable).FrozenCopy()
		tc := v.(dgo.Freezable).ThawedCopy()
		checkSelf(c, fc, w, cyclic, what+" frozen")
		checkSelf(c, tc, w, cyclic, what+" thawed")
		for i, cp := range []dgo.Value{fc, tc, fc.(dgo.Freezable).ThawedCopy()} {
			for _, p := range parts(cp) {
				if _, ok := p.(dgo.Sensitive); !ok && p.(dgo.Freezable).Frozen() != (i == 0) {
					c.Fatalf("%s: a part of copy %d is frozen: %v", what, i, p.(dgo.Freezable).Frozen())
				}
				for _, m := range mutable {
					if p == m {
						c.Fatalf("%s: copy %d has a part of the original", what, i)
					}
				}
			}
		}
		for _, m := range mutable {
			switch m := m.(type) {
			case dgo.Array:
				m.Add("changed")
			case dgo.Map:
				m.Put("changed", true)
			}
		}
		if !fc.Equals(w) || !tc.Equals(w) {
			c.Fatalf("%s: a copy was changed with the original", what)
		}
		tc.(dgo.Freezable).Freeze()
		if !tc.Equals(w) {
			c.Fatalf("%s: changed when frozen", what)
		}
		for _, p := range parts(tc) {
			if !p.(dgo.Freezable).Frozen() {
				c.Fatalf("%s: a part isn't frozen", what)
			}
		}
		if cyclic {
			c.Class("%s", kNames[g[0].kind])
			c.Class("same=%v", same)
			c.NonTrivial(what)
		}
	})
}

// ---- types that contain themselves ------------------------------------------------------------------------

// Sys is a system of type declarations that refer to each other
type Sys struct {
	names  []string
	bodies []*T
}

// slots calls f with every place for a type that is inside of a collection
func (t *T) slots(inside bool, f func(p **T)) {
	for i := range t.E {
		in := inside || t.K == tArray || t.K == tTuple || t.K == tVarTuple || t.K == tStruct || t.K == tMap || t.K == tSensitive
		if t.K == tMap && i == 0 || t.K == tMeta || t.K == tFunc {
			continue
		}
		if in {
			f(&t.E[i])
		}
		t.E[i].slots(in, f)
	}
}

func (s *Sys) str() string {
	var ss []string
	for i := range s.names {
		ss = append(ss, s.names[i]+"="+s.bodies[i].str())
	}
	return strings.Join(ss, "; ")
}

func (s *Sys) refTo(i int) *T { return &T{K: tRef, S: s.names[i], To: s.bodies[i]} }

func (t *T) cloneT() *T {
	c := *t
	c.E = append([]*T{}, t.E...)
	for i := range c.E {
		c.E[i] = c.E[i].cloneT()
	}
	c.R = append([]*T{}, t.R...)
	for i := range c.R {
		c.R[i] = c.R[i].cloneT()
	}
	return &c
}

// relink makes all references refer to the bodies of the system
func (s *Sys) relink() {
	var walk func(t *T)
	walk = func(t *T) {
		if t.K == tRef {
			t.To = s.bodies[indexOfStr(s.names, t.S)]
		}
		for _, e := range t.E {
			walk(e)
		}
	}
	for _, b := range s.bodies {
		walk(b)
	}
}

func (s *Sys) clone() *Sys {
	c := &Sys{names: s.names}
	for _, b := range s.bodies {
		c.bodies = append(c.bodies, b.cloneT())
	}
	c.relink()
	return c
}

func drawSys(t *rapid.T, o tOpts) *Sys {
	s := &Sys{names: []string{"a", "b", "c"}[:rapid.IntRange(1, 2).Draw(t, "names")]}
	for range s.names {
		var b *T
		if rapid.Bool().Draw(t, "form") {
			f := rapid.SampledFrom(recForms).Draw(t, "form").body
			so := o
			so.depth = 1
			b = f(drawT(t, so), tk(tAny)).cloneT()
		} else {
			for i := 0; ; i++ {
				b = drawT(t, o)
				n := 0
				b.slots(false, func(**T) { n++ })
				if n > 0 {
					break
				}
				if i == 3 {
					b = tArr(&T{K: tAnyOf, E: []*T{tk(tInt), b}}, 0, unbounded)
					break
				}
			}
		}
		s.bodies = append(s.bodies, b)
	}
	for i, b := range s.bodies {
		for n := rapid.IntRange(1, 2).Draw(t, "refs"); n > 0; n-- {
			var ps []**T
			b.slots(false, func(p **T) {
				if (*p).K != tRef {
					ps = append(ps, p)
				}
			})
			if len(ps) > 0 {
				to := (i + n) % len(s.names)
				p := rapid.SampledFrom(ps).Draw(t, "slot")
				if rapid.Bool().Draw(t, "or") {
					*p = &T{K: tAnyOf, E: []*T{*p, {K: tRef, S: s.names[to]}}}
				} else {
					*p = &T{K: tRef, S: s.names[to]}
				}
			}
		}
	}
	s.relink()
	return s
}

// near returns a system that differs in one place
func (s *Sys) near(t *rapid.T, o tOpts) *Sys {
	c := s.clone()
	i := rapid.IntRange(0, len(c.bodies)-1).Draw(t, "body")
	var ps []**T
	c.bodies[i].slots(false, func(p **T) { ps = append(ps, p) })
	if len(ps) == 0 {
		return c
	}
	p := rapid.SampledFrom(ps).Draw(t, "slot")
	o.depth = 1
	switch rapid.IntRange(0, 3).Draw(t, "change") {
	case 0:
		*p = drawT(t, o)
	case 1:
		*p = &T{K: tAnyOf, E: []*T{drawT(t, o), *p}}
	case 2:
		*p = &T{K: tRef, S: rapid.SampledFrom(c.names).Draw(t, "name")}
	case 3:
		if (*p).K == tAnyOf {
			*p = rapid.SampledFrom((*p).E).Draw(t, "alternative")
		} else {
			*p = &T{K: tAllOf, E: []*T{*p, drawT(t, o)}}
		}
	}
	c.relink()
	return c
}

func (s *Sys) build() dgo.Type {
	am := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
		for i := range s.names {
			aa.Add(s.bodies[i].build(), vf.String(s.names[i]))
		}
	})
	return am.GetType(vf.String(s.names[0]))
}

var sysOpts = tOpts{depth: 3, strKeys: true, excl: []TK{tMeta, tFunc, tBinarySized, tTime, tRegexp, tPattern}, exactKs: []K{kNil, kBool, kInt, kString, kArray}, width: 2}

func TestP22_Types(t *testing.T) {
	prop(t, 15000, "a system of types that refer to each other, its copy and its near copy, with members and other values; non-trivial when a value nests", func(c *C) {
		o := sysOpts
		combine := rapid.Bool().Draw(c.T, "combinations")
		if !combine {
			o.excl = append(append([]TK{}, o.excl...), tNot, tOneOf)
		}
		s := drawSys(c.T, o)
		n := s.near(c.T, o)
		what := s.str() + " and " + n.str()
		c.Doing("%s", what)
		ty, uy, ny := s.build(), s.build(), n.build()
		if !ty.Equals(ty) || !ty.Equals(uy) || ty.HashCode() != uy.HashCode() {
			c.Fatalf("%s: equals itself: %v, what was declared the same way: %v, hash codes %d and %d", what, ty.Equals(ty), ty.Equals(uy), ty.HashCode(), uy.HashCode())
		}
		eq := ty.Equals(ny)
		if eq != ny.Equals(ty) {
			c.Fatalf("%s: %v equal to other, %v in the other direction", what, eq, ny.Equals(ty))
		}
		if a, b := ty.String(), uy.String(); a != b {
			c.Fatalf("%s: printed as %s and %s", what, a, b)
		}
		_ = ty.Type().String() + ty.Type().Type().String()
		if !ty.Type().(dgo.Type).Instance(ty) || !ty.Type().Equals(uy.Type()) || ty.Type().HashCode() != uy.Type().HashCode() {
			c.Fatalf("%s: the type of the type doesn't describe it", what)
		}
		if !ty.Assignable(ty) || !ty.Assignable(uy) {
			c.Fatalf("%s: assignable from itself: %v, from what was declared the same way: %v", what, ty.Assignable(ty), ty.Assignable(uy))
		}
		gt := typ.Generic(ty)
		asg, rev := ty.Assignable(ny), ny.Assignable(ty)
		if eq && !(asg && rev) {
			c.Fatalf("%s: equal but assignable: %v and %v", what, asg, rev)
		}
		if combine {
			asg, rev = false, false // a known finding of P09
		} else if !gt.Assignable(ty) {
			c.Fatalf("%s: the generic form %s isn't assignable from the type", what, gt)
		}
		ref := s.refTo(0)
		nref := n.refTo(0)
		for i := 0; i < 4; i++ {
			var m *V
			from := ref
			if i >= 2 {
				from = nref
			}
			if m = drawMember(c.T, from, 4); m == nil {
				m = drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 3, width: 3})
			} else if i%2 == 1 {
				m = drawNear(c.T, m, vOpts{kinds: dataKinds, keys: []K{kString}, depth: 2, width: 2})
			}
			if m.nodes() > 60 || nonASCIISized(s.bodies[0], m) || nonASCIISized(n.bodies[0], m) ||
				nonASCIISized(s.bodies[len(s.bodies)-1], m) || nonASCIISized(n.bodies[len(n.bodies)-1], m) {
				continue
			}
			dv := build(m, drawRouter(c.T))
			c.Doing("%s with %s", what, m.str())
			want, nwant := member(ref, m), member(nref, m)
			if got := ty.Instance(dv); got != want {
				c.Fatalf("%s: %s is an instance: %v, by definition: %v", what, dv, got, want)
			}
			if got := ny.Instance(dv); got != nwant {
				c.Fatalf("%s: %s is an instance of the other: %v, by definition: %v", what, dv, got, nwant)
			}
			if (eq || asg && rev) && want != nwant {
				c.Fatalf("%s: equal, but %s is an instance of one of them: %v %v", what, dv, want, nwant)
			}
			if asg && nwant && !want || rev && want && !nwant {
				c.Fatalf("%s: assignable: %v %v, but %s is an instance of one of them: %v %v", what, asg, rev, dv, want, nwant)
			}
			if want && !combine && !gt.Instance(dv) {
				c.Fatalf("%s: %s is an instance, but not of the generic form %s", what, dv, gt)
			}
			if a := ty.Assignable(vf.Value(dv).Type()); a != want && !m.has(isSensitive) && !combine {
				c.Fatalf("%s: assignable from the type of %s: %v, is an instance: %v", what, dv, a, want)
			}
			if m.height() > 2 {
				c.Class("member=%v", want)
				c.NonTrivial(what + m.str())
			}
		}
	})
}

// coMember tells if a value that may contain itself is an instance of a type that may contain itself. The type has no
// negations.
func coMember(t *T, g G, k gkid, assumed map[string]bool) bool {
	if k.v != nil {
		switch t.K {
		case tRef:
			return coMember(t.To, g, k, assumed)
		case tAnyOf:
			for _, e := range t.E {
				if coMember(e, g, k, assumed) {
					return true
				}
			}
			return false
		case tAllOf:
			for _, e := range t.E {
				if !coMember(e, g, k, assumed) {
					return false
				}
			}
			return true
		}
		return member(t, k.v)
	}
	x := g[k.node]
	n := int64(len(x.kids))
	each := func(f func(i int, kid gkid) *T) bool {
		for i, kid := range x.kids {
			e := f(i, kid)
			if e == nil || !coMember(e, g, kid, assumed) {
				return false
			}
		}
		return true
	}
	switch t.K {
	case tAny:
		return true
	case tRef:
		key := fmt.Sprintf("%s %d", t.S, k.node)
		if assumed[key] {
			return true
		}
		assumed[key] = true
		r := coMember(t.To, g, k, assumed)
		delete(assumed, key)
		return r
	case tAnyOf:
		for _, e := range t.E {
			if coMember(e, g, k, assumed) {
				return true
			}
		}
		return false
	case tAllOf:
		for _, e := range t.E {
			if !coMember(e, g, k, assumed) {
				return false
			}
		}
		return true
	case tArray:
		return x.kind == kArray && t.Min <= n && n <= t.Max && each(func(int, gkid) *T { return t.E[0] })
	case tTuple:
		return x.kind == kArray && len(x.kids) == len(t.E) && each(func(i int, _ gkid) *T { return t.E[i] })
	case tVarTuple:
		return x.kind == kArray && len(x.kids) >= len(t.E)-1 && each(func(i int, _ gkid) *T {
			if i >= len(t.E) {
				i = len(t.E) - 1
			}
			return t.E[i]
		})
	case tMap:
		if x.kind != kMap || t.Min > n || n > t.Max {
			return false
		}
		for _, key := range x.keys {
			if !member(t.E[0], vStr(key)) {
				return false
			}
		}
		return each(func(int, gkid) *T { return t.E[1] })
	case tStruct:
		if x.kind != kMap {
			return false
		}
		for i, key := range t.Keys {
			if t.Req[i] && indexOfStr(x.keys, key.S) < 0 {
				return false
			}
		}
		return each(func(i int, _ gkid) *T {
			for j, key := range t.Keys {
				if key.S == x.keys[i] {
					return t.E[j]
				}
			}
			if t.Add {
				return tk(tAny)
			}
			return nil
		})
	case tSensitive:
		return x.kind == kSensitive && (len(t.E) == 0 || coMember(t.E[0], g, x.kids[0], assumed))
	}
	return false
}

// drawFor draws a graph that is likely to be an instance of the type
func drawFor(t *rapid.T, root *T) G {
	var g G
	made := map[string][]int{}
	var node func(t *T, depth int) gkid
	scalar := func() gkid { return gkid{v: rapid.SampledFrom(gScalars).Draw(t, "scalar")} }
	node = func(tt *T, depth int) gkid {
		switch tt.K {
		case tRef:
			old := made[tt.S]
			if len(old) > 0 && (depth > 4 || rapid.IntRange(0, 2).Draw(t, "back") > 0) {
				return gkid{node: rapid.SampledFrom(old).Draw(t, "to")}
			}
			at := len(g)
			k := node(tt.To, depth+1)
			if k.v == nil && k.node == at && g[at] != nil {
				made[tt.S] = append(made[tt.S], at)
			}
			return k
		case tAnyOf, tAllOf:
			return node(rapid.SampledFrom(tt.E).Draw(t, "operand"), depth)
		case tArray, tTuple, tVarTuple, tMap, tStruct:
			if depth > 7 || len(g) > 8 {
				return scalar()
			}
			x := &gnode{kind: kArray}
			at := len(g)
			g = append(g, x)
			switch tt.K {
			case tArray:
				n := tt.Min + rapid.Int64Range(0, 2).Draw(t, "n")
				if n > tt.Max {
					n = tt.Max
				}
				if n > 4 {
					n = 4
				}
				for ; n > 0; n-- {
					x.kids = append(x.kids, node(tt.E[0], depth+1))
				}
			case tTuple, tVarTuple:
				for _, e := range tt.E {
					x.kids = append(x.kids, node(e, depth+1))
				}
			case tMap:
				x.kind = kMap
				for _, key := range []string{"a", "b"} {
					if rapid.Bool().Draw(t, "add") {
						x.keys = append(x.keys, key)
						x.kids = append(x.kids, node(tt.E[1], depth+1))
					}
				}
			case tStruct:
				x.kind = kMap
				for i, key := range tt.Keys {
					if tt.Req[i] || rapid.Bool().Draw(t, "add") {
						x.keys = append(x.keys, key.S)
						x.kids = append(x.kids, node(tt.E[i], depth+1))
					}
				}
			}
			return gkid{node: at}
		}
		if m := drawMember(t, tt, 1); m != nil && m.K < kArray {
			return gkid{v: m}
		}
		return scalar()
	}
	// References to a node that is being created are what makes the graph cyclic
	at := len(g)
	g = append(g, nil)
	made[root.S] = append(made[root.S], at)
	k := node(root.To, 0)
	if k.v != nil {
		g[at] = &gnode{kind: kArray, kids: []gkid{k}}
		return g
	}
	g[at] = g[k.node]
	for _, x := range g {
		for i := range x.kids {
			if x.kids[i].v == nil && x.kids[i].node == k.node {
				x.kids[i].node = at
			}
		}
	}
	return g
}

func TestP22_ValuesOfTypes(t *testing.T) {
	prop(t, 15000, "a system of types that refer to each other and a graph of collections; non-trivial when the graph contains itself", func(c *C) {
		o := sysOpts
		o.excl = append(append([]TK{}, o.excl...), tNot, tOneOf, tBinary)
		o.exactKs = []K{kNil, kBool, kInt, kString}
		s := drawSys(c.T, o)
		root := s.refTo(0)
		var g G
		switch rapid.IntRange(0, 3).Draw(c.T, "graph") {
		case 0:
			g = drawG(c.T)
		case 1:
			g = drawFor(c.T, root).near(c.T)
		default:
			g = drawFor(c.T, root)
		}
		_, cyclic := g.reach(0)
		what := s.str() + " and " + g.str()
		c.Doing("%s", what)
		ty := s.build()
		v := g.build()[0]
		want := coMember(root, g, gkid{node: 0}, map[string]bool{})
		if got := ty.Instance(v); got != want {
			c.Fatalf("%s: %s is an instance: %v, by definition: %v", what, v, got, want)
		}
		got := ty.Assignable(v.Type())
		hasSens := false
		for _, x := range g {
			hasSens = hasSens || x.kind == kSensitive
		}
		if got != want && !hasSens {
			c.Fatalf("%s: assignable from the type of %s: %v, is an instance: %v", what, v, got, want)
		}
		if cyclic {
			c.Class("member=%v", want)
			c.NonTrivial(what)
		}
	})
}

// TestP22_Texts declares self-referencing types with all kinds of operators, also such that no value can be an instance of
func TestP22_Texts(t *testing.T) {
	prop(t, 15000, "a declaration of a self-referencing type that combines all operators; non-trivial when it refers to itself", func(c *C) {
		d := drawD(c.T, []string{"x", "x", "y"}, 3)
		e := drawD(c.T, []string{"x", "y"}, 2)
		texts := "y=" + e.text() + " and x=" + d.text()
		c.Doing("%s", texts)
		mk := func() (ty dgo.Type, p *caught) {
			p = catch(func() {
				am := tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) {
					_ = parser.ParseFile(aa, "", "{x="+d.text()+",y="+e.text()+"}")
				})
				ty = am.GetType(vf.String("x"))
			})
			return
		}
		ty, p := mk()
		uy, q := mk()
		if p != nil || q != nil {
			if p == nil || q == nil || p.String() != q.String() {
				c.Fatalf("%s: rejected: %v and %v", texts, p, q)
			}
			if p.runtimeErr() {
				c.Fatalf("%s: %v\n%s", texts, p, p.stack)
			}
			c.Class("rejected")
			return
		}
		if !ty.Equals(ty) || !ty.Equals(uy) || ty.HashCode() != uy.HashCode() || ty.String() != uy.String() || ty.Type().String() != uy.Type().String() {
			c.Fatalf("%s: equals itself: %v, what was declared the same way: %v, hash codes %d and %d\nprinted as %s and %s", texts, ty.Equals(ty), ty.Equals(uy),
				ty.HashCode(), uy.HashCode(), ty, uy)
		}
		_ = stringer.TypeStringWithAliasMap(ty, tf.BuiltInAliases()) + typ.Generic(ty).String()
		if !ty.Assignable(ty) {
			c.Fatalf("%s: isn't assignable from itself", texts)
		}
		_ = ty.Assignable(typ.String)
		for _, v := range []*V{vInt(1), vStr("a"), vArr(vInt(1)), vArr(vArr(), vArr(vArr())), vMap(vStr("a"), vMap(vStr("a"), vMap()))} {
			v := build(v, fixedRoute)
			if ty.Instance(v) != uy.Instance(v) || ty.Assignable(v.Type()) != uy.Assignable(v.Type()) {
				c.Fatalf("%s: accepts %s: %v and %v", texts, v, ty.Instance(v), uy.Instance(v))
			}
		}
		a := vf.MutableValues(1)
		a.Add(a)
		m := vf.MutableMap("a", 1)
		m.Put("b", vf.MutableValues(m))
		for _, v := range []dgo.Value{a, m} {
			if ty.Instance(v) != uy.Instance(v) || ty.Assignable(v.Type()) != uy.Assignable(v.Type()) {
				c.Fatalf("%s: accepts %s: %v and %v", texts, v, ty.Instance(v), uy.Instance(v))
			}
		}
		if indexOfStr(d.refs(), "x") >= 0 {
			c.Class("%s", d.op)
			c.NonTrivial(texts)
		}
	})
}

// TestP22_Operands declares aliases that refer to each other in operands, and rejects those that are defined using themselves
func TestP22_Operands(t *testing.T) {
	prop(t, 6000, "aliases where each is an operator on the others, on arrays of the others, or on other types; non-trivial when one is defined using itself", func(c *C) {
		names := []string{"x", "y", "z"}[:rapid.IntRange(1, 3).Draw(c.T, "aliases")]
		edges := map[string][]string{}
		models := map[string]*T{}
		for _, n := range names {
			models[n] = &T{K: tRef}
		}
		var decl []string
		for _, n := range names {
			operand := func() (string, *T) {
				r := rapid.SampledFrom(names).Draw(c.T, "ref")
				switch rapid.IntRange(0, 4).Draw(c.T, "operand") {
				case 0, 1:
					edges[n] = append(edges[n], r)
					return r, models[r]
				case 2:
					return "[]" + r, tArr(models[r], 0, unbounded)
				case 3:
					i := rapid.IntRange(0, 3).Draw(c.T, "leaf")
					return []string{"1..5", `"a"`, "float", "/b/"}[i], []*T{tIR(1, 5, true), tExactOf(vStr("a")), tk(tFloat), {K: tPattern, S: "b"}}[i]
				}
				edges[n] = append(edges[n], r)
				return "!" + r, &T{K: tNot, E: []*T{models[r]}}
			}
			op := rapid.SampledFrom([]string{"|", "&", "^", "!"}).Draw(c.T, "op")
			s, m := operand()
			if op == "!" {
				s, m = "!"+s, &T{K: tNot, E: []*T{m}}
			} else {
				m = &T{K: map[string]TK{"|": tAnyOf, "&": tAllOf, "^": tOneOf}[op], E: []*T{m}}
				for k := rapid.IntRange(1, 2).Draw(c.T, "more"); k > 0; k-- {
					s2, m2 := operand()
					s += op + s2
					m.E = append(m.E, m2)
				}
			}
			models[n].To = m
			decl = append(decl, n+"="+s)
		}
		decl = rapid.Permutation(decl).Draw(c.T, "order")
		// One of the aliases reaches itself through operands
		cyclic := false
		var walk func(path []string, n string)
		walk = func(path []string, n string) {
			if indexOfStr(path, n) >= 0 {
				cyclic = true
				return
			}
			for _, m := range edges[n] {
				walk(append(path[:len(path):len(path)], n), m)
			}
		}
		for _, n := range names {
			walk(nil, n)
		}
		text := "{" + strings.Join(decl, ",") + "}"
		c.Doing("%s", text)
		var am dgo.AliasMap
		p := catch(func() {
			am = tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { _ = parser.ParseFile(aa, "", text) })
		})
		switch {
		case p != nil && (p.runtimeErr() || !cyclic):
			c.Fatalf("%s is rejected: %s\n%s", text, p, p.stack)
		case p == nil && cyclic:
			c.Fatalf("%s isn't rejected, although there is no way to tell what is an instance of it", text)
		}
		if p == nil {
			for _, n := range names {
				ty := am.GetType(vf.String(n))
				_ = ty.Assignable(typ.String)
				_ = ty.String()
				if nt, ok := ty.(dgo.UnaryType); ok && nt.Operator() == dgo.OpNot {
					if nn, ok := nt.Operand().(dgo.UnaryType); ok && nn.Operator() == dgo.OpNot {
						c.Fatalf("%s: %s is %s, a negation of a negation", text, n, ty)
					}
				}
				for k := 0; k < 4; k++ {
					v := drawV(c.T, vOpts{kinds: []K{kInt, kString, kFloat, kArray, kArray}, depth: rapid.IntRange(1, 3).Draw(c.T, "depth"), width: 2})
					if rapid.Bool().Draw(c.T, "leaf") {
						v = rapid.SampledFrom([]*V{vInt(1), vInt(5), vStr("a"), vStr("b"), vFloat(2), vArr(vInt(2)), vArr(vStr("a")), vArr(), vArr(vArr(vInt(3)), vArr(vFloat(1)))}).Draw(c.T, "value")
					}
					if want := member(models[n], v); ty.Instance(build(v, fixedRoute)) != want {
						c.Fatalf("%s: %s is an instance of %s (%s): %v", text, v.str(), n, ty, !want)
					}
				}
			}
		}
		c.Class("cyclic %v", cyclic)
		if cyclic {
			c.NonTrivial(text)
		}
	})
}
