package props

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	require "github.com/lyraproj/dgo/dgo_test"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// P32: the assertion helpers fail a test exactly when what they assert is not so.

func checkAssert(c *C, what string, holds bool, f func(t *testing.T)) {
	tt := &testing.T{}
	if p := catch(func() { f(tt) }); p != nil {
		c.Fatalf("%s panics: %s", what, p)
	}
	if tt.Failed() == holds {
		c.Fatalf("%s: the assertion fails: %v", what, tt.Failed())
	}
	c.Class("holds %v", holds)
}

func TestP32_Values(t *testing.T) {
	prop(t, 6000, "two related values and types; non-trivial when the values are equal", func(c *C) {
		a, b := drawRelated(c, richOpts(3))
		eq := refEq(a, b)
		va, vb := build(a, drawRouter(c.T)), build(b, drawRouter(c.T))
		what := a.str() + " and " + b.str()
		c.Doing("%s", what)
		checkAssert(c, "Equal of "+what, eq, func(t *testing.T) { require.Equal(t, va, vb) })
		checkAssert(c, "NotEqual of "+what, !eq, func(t *testing.T) { require.NotEqual(t, va, vb) })
		checkAssert(c, "Same of "+what, va == vb, func(t *testing.T) { require.Same(t, va, vb) })
		checkAssert(c, "Same of itself "+what, true, func(t *testing.T) { require.Same(t, va, va) })
		checkAssert(c, "NotSame of "+what, va != vb, func(t *testing.T) { require.NotSame(t, va, vb) })
		checkAssert(c, "Nil of "+what, a.K == kNil, func(t *testing.T) { require.Nil(t, va) })
		if a.K != kNil {
			checkAssert(c, "NotNil of "+what, true, func(t *testing.T) { require.NotNil(t, va) })
		}
		checkAssert(c, "NotNil of nil", false, func(t *testing.T) { require.NotNil(t, nil) })
		checkAssert(c, "Nil of nil", true, func(t *testing.T) { require.Nil(t, nil) })
		checkAssert(c, "True", eq, func(t *testing.T) { require.True(t, eq) })
		checkAssert(c, "True with text", eq, func(t *testing.T) { require.True(t, eq, what) })
		checkAssert(c, "False", !eq, func(t *testing.T) { require.False(t, eq) })
		checkAssert(c, "False with text", !eq, func(t *testing.T) { require.False(t, eq, what) })
		ty := drawT(c.T, tOpts{depth: 2, vDepth: 2})
		if rapid.Bool().Draw(c.T, "around") {
			ty = typeAround(c.T, a, 2)
		}
		in := member(ty, a)
		dt := ty.build()
		what = a.str() + " and " + ty.str()
		checkAssert(c, "Instance of "+what, in, func(t *testing.T) { require.Instance(t, dt, va) })
		checkAssert(c, "NotInstance of "+what, !in, func(t *testing.T) { require.NotInstance(t, dt, va) })
		as := dt.Assignable(vb.Type()) // decided by P08 and P09
		checkAssert(c, "Assignable to the type of "+what+" from the type of "+b.str(), as, func(t *testing.T) { require.Assignable(t, dt, vb.Type()) })
		checkAssert(c, "NotAssignable to the type of "+what+" from the type of "+b.str(), !as, func(t *testing.T) { require.NotAssignable(t, dt, vb.Type()) })
		checkAssert(c, "Assignable of any from "+what, true, func(t *testing.T) { require.Assignable(t, typ.Any, dt) })
		if eq {
			c.NonTrivial(what)
		}
	})
}

func TestP32_Texts(t *testing.T) {
	prop(t, 4000, "a text, a pattern and a panic or error with that text; non-trivial when the pattern matches", func(c *C) {
		s := genStr(true).Draw(c.T, "s")
		px := rapid.OneOf(rapid.SampledFrom(rxPool), rapid.Just(regexp.QuoteMeta(s)), rapid.Just("^"+regexp.QuoteMeta(s)+"$"), rapid.Just(regexp.QuoteMeta(s)+".")).Draw(c.T, "pattern")
		rx, err := regexp.Compile(px)
		if err != nil {
			c.T.Skip(err)
		}
		hit := rx.MatchString(s)
		what := fmt.Sprintf("%q with %q", px, s)
		c.Doing("%s", what)
		for _, p := range []interface{}{px, rx, vf.String(px)} {
			p := p
			for _, x := range []interface{}{s, vf.String(s)} {
				x := x
				checkAssert(c, "Match "+what, hit, func(t *testing.T) { require.Match(t, p, x) })
				checkAssert(c, "NoMatch "+what, !hit, func(t *testing.T) { require.NoMatch(t, p, x) })
			}
			checkAssert(c, "NotOk "+what, hit, func(t *testing.T) { require.NotOk(t, p, errors.New(s)) })
			checkAssert(c, "NotOk without an error "+what, false, func(t *testing.T) { require.NotOk(t, p, nil) })
		}
		checkAssert(c, "Match of a number", false, func(t *testing.T) { require.Match(t, px, 3) })
		checkAssert(c, "NoMatch of a number", true, func(t *testing.T) { require.NoMatch(t, px, 3) })
		checkAssert(c, "Ok "+what, false, func(t *testing.T) { require.Ok(t, errors.New(s)) })
		checkAssert(c, "Ok without an error", true, func(t *testing.T) { require.Ok(t, nil) })
		checkAssert(c, "Panic "+what, hit, func(t *testing.T) { require.Panic(t, func() { panic(s) }, px) })
		checkAssert(c, "Panic with error "+what, hit, func(t *testing.T) { require.Panic(t, func() { panic(errors.New(s)) }, px) })
		checkAssert(c, "Panic with value "+what, hit, func(t *testing.T) { require.Panic(t, func() { panic(vf.String(s)) }, px) })
		checkAssert(c, "Panic without one "+what, false, func(t *testing.T) { require.Panic(t, func() {}, px) })
		if hit {
			c.NonTrivial(what)
		}
	})
}

type textError string

func (e textError) Error() string { return string(e) }

func TestP32_Catch(t *testing.T) {
	prop(t, 2000, "a function that returns or panics with an error, a string or something else; non-trivial when it panics", func(c *C) {
		var thrown interface{}
		switch rapid.SampledFrom([]string{"none", "error", "wrapping", "text error", "dgo error", "string", "string kind", "runtime", "value", "number", "stringer"}).Draw(c.T, "how") {
		case "none":
		case "error":
			thrown = errors.New(genStr(false).Draw(c.T, "message"))
		case "wrapping":
			err := errors.New(genStr(false).Draw(c.T, "message"))
			for i := rapid.IntRange(1, 3).Draw(c.T, "wraps"); i > 0; i-- {
				err = fmt.Errorf("%s%w", genStr(false).Draw(c.T, "prefix"), err)
			}
			thrown = err
		case "text error":
			thrown = textError(genStr(false).Draw(c.T, "message"))
		case "dgo error":
			thrown = vf.Value(errors.New(genStr(false).Draw(c.T, "message")))
		case "string kind":
			thrown = textStringer(genStr(true).Draw(c.T, "text"))
		case "string":
			thrown = genStr(true).Draw(c.T, "text")
		case "runtime":
			thrown = func() (r interface{}) {
				defer func() { r = recover() }()
				var a []int
				return a[len(a)]
			}()
		case "value":
			thrown = build(drawV(c.T, richOpts(2)), fixedRoute)
		case "number":
			thrown = rapid.Int().Draw(c.T, "n")
		case "stringer":
			thrown = &strings.Builder{}
		}
		what := fmt.Sprintf("%T %v", thrown, thrown)
		c.Doing("%s", what)
		ran := false
		var err error
		p := catch(func() {
			err = util.Catch(func() {
				ran = true
				if thrown != nil {
					panic(thrown)
				}
			})
		})
		if !ran {
			c.Fatalf("Catch does not call the function")
		}
		want, isErr := thrown.(error)
		s, isStr := thrown.(string)
		switch {
		case thrown == nil:
			if p != nil || err != nil {
				c.Fatalf("Catch of a function that returns: error %v, panic %v", err, p)
			}
			c.Class("returns")
			return
		case isErr:
			if p != nil || err != want {
				c.Fatalf("Catch of a panic with %s: error %v, panic %v", what, err, p)
			}
			c.Class("error")
		case isStr:
			if p != nil || err == nil || err.Error() != s {
				c.Fatalf("Catch of a panic with %s: error %v, panic %v", what, err, p)
			}
			c.Class("string")
		default:
			if p == nil || p.v != thrown {
				c.Fatalf("Catch of a panic with %s: error %v, panic %v", what, err, p)
			}
			c.Class("other")
		}
		c.NonTrivial(what)
	})
}
