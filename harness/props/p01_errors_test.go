package props

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"regexp"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// anError is an error of some kind and a text that is the same for errors of the same kind and content
type anError struct {
	v   dgo.Value
	key string
}

func drawError(t *rapid.T) anError {
	vo := vOpts{kinds: dataKinds, keys: []K{kString, kInt}, depth: 2, width: 2}
	to := tOpts{depth: 2}
	switch rapid.IntRange(0, 4).Draw(t, "error kind") {
	case 0:
		m, v := drawT(t, to), drawV(t, vo)
		return anError{tf.IllegalAssignment(m.build(), build(v, fixedRoute)), "assignment " + m.canon() + " " + canonV(v).str()}
	case 1:
		m, n := drawT(t, to), rapid.IntRange(0, 3).Draw(t, "size")
		return anError{tf.IllegalSize(m.build(), n), fmt.Sprintf("size %s %d", m.canon(), n)}
	case 2:
		m, v := drawTK(t, tStruct, tOpts{depth: 2, width: 2}), drawKey(t, vo)
		return anError{tf.IllegalMapKey(m.build().(dgo.StructMapType), build(v, fixedRoute)), "key " + m.canon() + " " + canonV(v).str()}
	}
	s := genStr(true).Draw(t, "text")
	return anError{vf.Value(errors.New(s)), "error " + s}
}

// TestP01_Errors: errors are equal when they are of the same kind and have the same content
func TestP01_Errors(t *testing.T) {
	prop(t, 6000, "two errors, a copy and an error with the same text; always non-trivial", func(c *C) {
		a, b := drawError(c.T), drawError(c.T)
		c.Class("%.6s %.6s", a.key, b.key)
		if rapid.IntRange(0, 2).Draw(c.T, "text") == 0 {
			// another kind with the text of the first one
			s := a.v.(error).Error()
			b = anError{vf.Value(errors.New(s)), "error " + s}
		}
		eq := a.v.Equals(b.v)
		if eq != b.v.Equals(a.v) {
			c.Fatalf("%q (%T) and %q (%T) are equal: %v, and the other way: %v", a.v, a.v, b.v, b.v, eq, !eq)
		}
		if a.key == b.key && !eq || a.key[:4] != b.key[:4] && eq {
			c.Fatalf("%q (%s) and %q (%s) are equal: %v", a.v, a.key, b.v, b.key, eq)
		}
		if eq && (a.v.HashCode() != b.v.HashCode() || a.v.(error).Error() != b.v.(error).Error()) {
			c.Fatalf("%q and %q are equal but the hash codes are %d and %d", a.v, b.v, a.v.HashCode(), b.v.HashCode())
		}
		if !a.v.Equals(a.v) || a.v.Equals(nil) || a.v.Equals(a.v.String()) || a.v.Equals(vf.String(a.v.String())) || vf.String(a.v.String()).Equals(a.v) {
			c.Fatalf("%q (%T) compared to itself, nil, or its text", a.v, a.v)
		}
		if !typ.Error.Instance(a.v) || !a.v.Type().Instance(a.v) || !typ.Error.Assignable(a.v.Type()) {
			c.Fatalf("%q (%T) is not an instance of %s or %s", a.v, a.v, typ.Error, a.v.Type())
		}
		if et := a.v.Type(); dgo.IsExact(et) && et.Instance(b.v) != eq {
			c.Fatalf("%q is an instance of the exact type of %q: %v", b.v, a.v, !eq)
		}
		// in collections
		m := vf.MutableMap(a.v, 1)
		m.Put(b.v, 2)
		if eq != (m.Len() == 1) || m.Get(a.v) == nil || m.Get(b.v) == nil || vf.Values(a.v).IndexOf(b.v) != map[bool]int{true: 0, false: -1}[eq] {
			c.Fatalf("a map with %q and %q has %d entries", a.v, b.v, m.Len())
		}
		c.NonTrivial(a.key + "|" + b.key)
	})
}

// TestP01_NilPointers: pointers to nothing are nil, and nothing else
func TestP01_NilPointers(t *testing.T) {
	prop(t, 2000, "a value or type and a nil pointer; always non-trivial", func(c *C) {
		v := drawV(c.T, richOpts(2))
		m := drawT(c.T, tOpts{depth: 2, vDepth: 2, excl: []TK{tNot, tOneOf, tMeta, tFunc}})
		ptrs := []interface{}{(*time.Time)(nil), (*regexp.Regexp)(nil)}
		p := ptrs[rapid.IntRange(0, len(ptrs)-1).Draw(c.T, "pointer")]
		if vf.Value(p) != vf.Nil {
			c.Fatalf("the value of a nil %T is %s", p, vf.Value(p))
		}
		dv, ty := build(v, drawRouter(c.T)), m.build()
		c.Doing("comparing %s and %s with a nil %T", dv, ty, p)
		var eq, inst bool
		if f := catch(func() { eq, inst = dv.Equals(p), ty.Instance(p) }); f != nil {
			c.Fatalf("%s or %s with a nil %T: %s", dv, ty, p, f)
		}
		if eq && v.K != kNil || inst && !member(m, vNil()) {
			c.Fatalf("a nil %T is equal to %s: %v, an instance of %s: %v", p, dv, eq, ty, inst)
		}
		c.NonTrivial(fmt.Sprintf("%T %s %s", p, v.str(), m.str()))
	})
}
