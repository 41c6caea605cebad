package props

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"testing"
	"testing/iotest"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// memory is a model of a piece of memory which slices and mutable binaries may share
type memory struct{ bs []byte }

type binModel struct {
	d      dgo.Binary
	m      *memory
	frozen bool
}

// TestP28_Memory runs histories of operations on binaries and slices, some of which share memory
func TestP28_Memory(t *testing.T) {
	prop(t, 8000, "a history of operations on slices and binaries; non-trivial when a slice is changed after a binary was made from it", func(c *C) {
		var slices [][]byte
		var mems []*memory // of the slices
		var bins []*binModel
		log := &strings.Builder{}
		addSlice := func(s []byte, m *memory) {
			slices, mems = append(slices, s), append(mems, m)
		}
		own := func(bs []byte) *memory { return &memory{append([]byte{}, bs...)} }
		add := func(d dgo.Binary, m *memory, frozen bool) { bins = append(bins, &binModel{d, m, frozen}) }
		changed := false
		for i := rapid.IntRange(2, 12).Draw(c.T, "n"); i > 0; i-- {
			op := rapid.IntRange(0, 11).Draw(c.T, "op")
			if op > 2 && len(bins) == 0 || op < 3 && len(slices) == 0 {
				b := genBytes().Draw(c.T, "bytes")
				s := append(make([]byte, 0, len(b)+rapid.IntRange(0, 3).Draw(c.T, "cap")), b...)
				addSlice(s, own(b))
				op = rapid.IntRange(0, 1).Draw(c.T, "op")
			}
			var si, bi int
			if len(slices) > 0 {
				si = rapid.IntRange(0, len(slices)-1).Draw(c.T, "slice")
			}
			if len(bins) > 0 {
				bi = rapid.IntRange(0, len(bins)-1).Draw(c.T, "binary")
			}
			fmt.Fprintf(log, " %d(slice %d, binary %d)", op, si, bi)
			switch op {
			case 0:
				add(vf.Binary(slices[si], true), own(mems[si].bs), true)
			case 1:
				add(vf.Binary(slices[si], false), mems[si], false)
			case 2, 3, 4:
				if si < len(slices) && len(slices[si]) > 0 {
					at := rapid.IntRange(0, len(slices[si])-1).Draw(c.T, "at")
					slices[si][at] ^= 0x55
					mems[si].bs[at] ^= 0x55
					changed = changed || len(bins) > 0
				}
			case 5:
				b := bins[bi]
				b.d.Freeze()
				if !b.frozen {
					b.m, b.frozen = own(b.m.bs), true
				}
			case 6:
				frozen := rapid.Bool().Draw(c.T, "frozen")
				b := bins[bi]
				cp := b.d.Copy(frozen)
				if frozen && b.frozen {
					if cp != b.d {
						c.Fatalf("%s: a frozen copy of a frozen binary isn't the binary itself", log)
					}
					break
				}
				add(cp, own(b.m.bs), frozen)
			case 7:
				b := bins[bi]
				add(b.d.(dgo.Freezable).FrozenCopy().(dgo.Binary), own(b.m.bs), true)
				add(b.d.(dgo.Freezable).ThawedCopy().(dgo.Binary), own(b.m.bs), false)
			case 8:
				// the bytes of a mutable binary are the bytes that it wraps
				b := bins[bi]
				m := b.m
				if b.frozen {
					m = own(m.bs)
				}
				addSlice(b.d.GoBytes(), m)
			case 9:
				b := bins[bi]
				m := b.m
				if b.frozen {
					m = own(m.bs)
				}
				switch rapid.IntRange(0, 2).Draw(c.T, "into") {
				case 0:
					var s []byte
					b.d.(dgo.ReflectedValue).ReflectTo(reflect.ValueOf(&s).Elem())
					addSlice(s, m)
				case 1:
					var s interface{}
					b.d.(dgo.ReflectedValue).ReflectTo(reflect.ValueOf(&s).Elem())
					addSlice(s.([]byte), m)
				case 2:
					var s *[]byte
					b.d.(dgo.ReflectedValue).ReflectTo(reflect.ValueOf(&s).Elem())
					addSlice(*s, m)
				}
			case 10:
				b := bins[bi]
				var r io.Reader = bytes.NewReader(b.m.bs)
				switch rapid.IntRange(0, 3).Draw(c.T, "reader") {
				case 0:
					r = iotest.OneByteReader(r)
				case 1:
					r = iotest.DataErrReader(r)
				case 2:
					r = iotest.HalfReader(r)
				}
				add(vf.BinaryFromData(r), own(b.m.bs), true)
			case 11:
				b := bins[bi]
				boom := errors.New("boom")
				r := io.MultiReader(bytes.NewReader(b.m.bs), iotest.ErrReader(boom))
				p := catch(func() { vf.BinaryFromData(r) })
				if p == nil || p.v != boom {
					c.Fatalf("%s: a failing reader yields %v", log, p)
				}
			}
			for i, b := range bins {
				if !bytes.Equal(b.d.GoBytes(), b.m.bs) || b.d.Frozen() != b.frozen {
					c.Fatalf("%s: binary %d holds % x, frozen %v, and not % x, frozen %v", log, i, b.d.GoBytes(), b.d.Frozen(), b.m.bs, b.frozen)
				}
				if e := base64.StdEncoding.EncodeToString(b.m.bs); b.d.Encode() != e || b.d.String() != e {
					c.Fatalf("%s: the text of binary %d is %s and not %s", log, i, b.d, e)
				}
			}
			for i := range slices {
				if !bytes.Equal(slices[i], mems[i].bs) {
					c.Fatalf("%s: slice %d is % x and not % x", log, i, slices[i], mems[i].bs)
				}
			}
		}
		for i, a := range bins {
			for j, b := range bins {
				eq := bytes.Equal(a.m.bs, b.m.bs)
				if a.d.Equals(b.d) != eq || a.d.Equals(b.m.bs) != eq || eq && a.d.HashCode() != b.d.HashCode() {
					c.Fatalf("%s: binary %d equals binary %d: %v", log, i, j, !eq)
				}
				for _, o := range []interface{}{b.d, b.m.bs} {
					if r, ok := a.d.CompareTo(o); !ok || sign(r) != bytes.Compare(a.m.bs, b.m.bs) {
						c.Fatalf("%s: binary %d compared to binary %d yields %d, %v", log, i, j, r, ok)
					}
				}
			}
		}
		if changed {
			c.NonTrivial(log.String())
		}
	})
}

// TestP28_Pairs compares binaries with related content
func TestP28_Pairs(t *testing.T) {
	prop(t, 20000, "two sequences of bytes, often with a common prefix; non-trivial when they differ", func(c *C) {
		a := genBytes().Draw(c.T, "a")
		b := append([]byte{}, a...)
		switch rapid.IntRange(0, 5).Draw(c.T, "pair") {
		case 0:
			b = genBytes().Draw(c.T, "b")
		case 1:
			b = b[:rapid.IntRange(0, len(b)).Draw(c.T, "len")]
		case 2:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(c.T, "more")...)
		case 3, 4:
			for i := rapid.IntRange(1, 3).Draw(c.T, "changes"); i > 0 && len(b) > 0; i-- {
				at := rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
				if rapid.Bool().Draw(c.T, "step") {
					b[at] += byte(rapid.SampledFrom([]int{1, 127, 128, 129, 255}).Draw(c.T, "by"))
				} else {
					b[at] = rapid.Byte().Draw(c.T, "byte")
				}
			}
		}
		what := fmt.Sprintf("% x and % x", a, b)
		eq := bytes.Equal(a, b)
		fa, fb := rapid.Bool().Draw(c.T, "a frozen"), rapid.Bool().Draw(c.T, "b frozen")
		da, db := vf.Binary(a, fa), vf.Binary(b, fb)
		for i, x := range []dgo.Binary{da, db} {
			y, yb, want := db, b, bytes.Compare(a, b)
			if i == 1 {
				y, yb, want = da, a, -want
			}
			for _, o := range []interface{}{y, yb} {
				if x.Equals(o) != eq {
					c.Fatalf("%s: equal %d is %v", what, i, !eq)
				}
				if r, ok := x.CompareTo(o); !ok || sign(r) != want {
					c.Fatalf("%s: compared %d yields %d, %v", what, i, r, ok)
				}
				if x.Type().Instance(o) != eq {
					c.Fatalf("%s: instance %d is %v", what, i, !eq)
				}
			}
			if x.Type().Equals(y.Type()) != eq || x.Type().Assignable(y.Type()) != eq {
				c.Fatalf("%s: types are equal %d is %v", what, i, !eq)
			}
		}
		if eq && (da.HashCode() != db.HashCode() || da.Type().HashCode() != db.Type().HashCode()) {
			c.Fatalf("%s: equal but with different hash codes", what)
		}
		if !eq {
			c.NonTrivial(what)
		}
		c.Class("compared %d", bytes.Compare(a, b))
	})
}

// decodeRef is what the documentation of the encodings says
func decodeRef(s, enc string) ([]byte, bool) {
	var bs []byte
	var err error
	switch enc {
	case "%b":
		bs, err = base64.StdEncoding.DecodeString(s)
	case "%u":
		bs, err = base64.URLEncoding.DecodeString(s)
	case "%B":
		bs, err = base64.StdEncoding.Strict().DecodeString(s)
	case "%s":
		if !utf8.ValidString(s) {
			return nil, false
		}
		bs = []byte(s)
	case "%r":
		bs = []byte(s)
	default:
		return nil, false
	}
	return bs, err == nil
}

var encodings = []string{"%B", "%b", "%u", "%s", "%r"}

func TestP28_Encodings(t *testing.T) {
	prop(t, 15000, "bytes, an encoding, and the encoded text, possibly damaged; non-trivial when the text isn't ASCII or is damaged", func(c *C) {
		bs := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "bytes")
		enc := rapid.SampledFrom(append([]string{"%x", "", "B"}, encodings...)).Draw(c.T, "enc")
		var s string
		switch enc {
		case "%u":
			s = base64.URLEncoding.EncodeToString(bs)
		case "%s", "%r":
			s = string(bs)
			if rapid.Bool().Draw(c.T, "valid") {
				s = strings.ToValidUTF8(s, "é")
			}
		default:
			s = base64.StdEncoding.EncodeToString(bs)
		}
		good := true
		if rapid.Bool().Draw(c.T, "damage") {
			at := rapid.IntRange(0, len(s)).Draw(c.T, "at")
			x := rapid.SampledFrom([]string{"=", "==", "-", "_", "+", "/", "A", "B", "é", "\n", "\x00", " "}).Draw(c.T, "with")
			rest := s[at:]
			if len(rest) > 0 && rapid.Bool().Draw(c.T, "replace") {
				rest = rest[1:]
			}
			if rapid.IntRange(0, 3).Draw(c.T, "cut") == 0 {
				rest = ""
			}
			s = s[:at] + x + rest
			good = false
		}
		want, ok := decodeRef(s, enc)
		if good && len(enc) == 2 && enc != "%x" && enc != "%s" && (!ok || enc != "%r" && !bytes.Equal(want, bs)) {
			c.Fatalf("reference decodes %q to % x", s, want)
		}
		ways := map[string]func() dgo.Value{
			"BinaryFromEncoded": func() dgo.Value { return vf.BinaryFromEncoded(s, enc) },
			"New":               func() dgo.Value { return vf.New(typ.Binary, vf.Arguments(s, enc)) },
			"New sized":         func() dgo.Value { return vf.New(tf.Binary(len(want)), vf.Arguments(s, enc)) },
			"New exact":         func() dgo.Value { return vf.New(vf.Binary(want, true).Type(), vf.Arguments(s, enc)) },
		}
		if enc == "%B" {
			ways["BinaryFromString"] = func() dgo.Value { return vf.BinaryFromString(s) }
			ways["New default"] = func() dgo.Value { return vf.New(typ.Binary, vf.String(s)) }
			ways["New default arguments"] = func() dgo.Value { return vf.New(typ.Binary, vf.Arguments(s)) }
		}
		for n, f := range ways {
			var got dgo.Value
			p := catch(func() { got = f() })
			if p != nil && (ok || p.runtimeErr()) || p == nil && !ok {
				c.Fatalf("%s of %q, encoding %q: %v %v", n, s, enc, got, p)
			}
			if p == nil && (!bytes.Equal(got.(dgo.Binary).GoBytes(), want) || !got.(dgo.Binary).Frozen()) {
				c.Fatalf("%s of %q, encoding %q yields % x, frozen %v, and not % x", n, s, enc, got.(dgo.Binary).GoBytes(), got.(dgo.Binary).Frozen(), want)
			}
		}
		for _, wrong := range []dgo.Type{tf.Binary(len(want)+1, 1000), vf.Binary(append([]byte{1}, want...), true).Type()} {
			if p := catch(func() { vf.New(wrong, vf.Arguments(s, enc)) }); p == nil || p.runtimeErr() {
				c.Fatalf("New of %s from %q, encoding %q: %v", wrong, s, enc, p)
			}
		}
		if !good || len(s) != utf8.RuneCountInString(s) {
			c.NonTrivial(enc + s)
		}
	})
}

func TestP28_Types(t *testing.T) {
	prop(t, 10000, "size limits and a binary; non-trivial when the size is at or next to a limit", func(c *C) {
		limit := rapid.OneOf(rapid.IntRange(-2, 6), rapid.SampledFrom([]int{math.MaxInt64, math.MaxInt64 - 1, 1000}))
		a, b := limit.Draw(c.T, "a"), limit.Draw(c.T, "b")
		var ty dgo.BinaryType
		lo, hi := a, b
		switch rapid.IntRange(0, 2).Draw(c.T, "args") {
		case 0:
			ty = tf.Binary()
			lo, hi = 0, math.MaxInt64
		case 1:
			ty = tf.Binary(a)
			hi = math.MaxInt64
		case 2:
			ty = tf.Binary(a, b)
			if lo > hi {
				lo, hi = hi, lo
			}
		}
		if b < 0 {
			return // a negative maximum means nothing
		}
		if lo < 0 {
			lo = 0
		}
		bs := rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(c.T, "bytes")
		n := len(bs)
		if ty.Min() != lo || ty.Max() != hi || ty.Unbounded() != (lo == 0 && hi == math.MaxInt64) {
			c.Fatalf("the limits %d and %d yield a type with limits %d and %d, unbounded %v", a, b, ty.Min(), ty.Max(), ty.Unbounded())
		}
		in := lo <= n && n <= hi
		d := vf.Binary(bs, rapid.Bool().Draw(c.T, "frozen"))
		et := d.Type().(dgo.BinaryType)
		if ty.Instance(d) != in || ty.Instance(bs) != in || ty.IsInstance(bs) != in || ty.Assignable(et) != in {
			c.Fatalf("binary[%d,%d] accepts % x: %v %v %v %v", lo, hi, bs, ty.Instance(d), ty.Instance(bs), ty.IsInstance(bs), ty.Assignable(et))
		}
		if et.Min() != n || et.Max() != n || !et.IsInstance(bs) || !et.Instance(d) || et.IsInstance(append([]byte{0}, bs...)) {
			c.Fatalf("the type of % x has limits %d and %d", bs, et.Min(), et.Max())
		}
		var got dgo.Value
		ints := vf.MutableValues()
		for _, x := range bs {
			ints.Add(int64(x))
		}
		for what, arg := range map[string]dgo.Value{"bytes": d, "integers": ints, "base64": vf.String(d.Encode()), "arguments": vf.Arguments(d)} {
			p := catch(func() { got = vf.New(ty, arg) })
			if (p == nil) != in || p != nil && p.runtimeErr() || p == nil && !got.Equals(d) {
				c.Fatalf("new of binary[%d,%d] from %s % x: %v %v", lo, hi, what, bs, got, p)
			}
		}
		bad := rapid.SampledFrom([]int64{-1, 256, 1 << 32, math.MinInt64}).Draw(c.T, "bad")
		if p := catch(func() { vf.New(typ.Binary, ints.With(bad)) }); p == nil || p.runtimeErr() {
			c.Fatalf("the integer %d is considered to be a byte: %v", bad, p)
		}
		if n >= lo-1 && n <= lo+1 || n >= hi-1 && n <= hi+1 {
			c.NonTrivial(fmt.Sprintf("%d %d % x", a, b, bs))
		}
	})
}
