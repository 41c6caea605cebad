package props

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

func TestP27_Numbers(t *testing.T) {
	prop(t, 20000, "an integer or a finite float; non-trivial for a float", func(c *C) {
		if rapid.IntRange(0, 3).Draw(c.T, "int") == 0 {
			i := genInt().Draw(c.T, "i")
			s := vf.Integer(i).String()
			if s != strconv.FormatInt(i, 10) || vf.New(typ.String, vf.Integer(i)).String() != strconv.Quote(s) && vf.New(typ.String, vf.Integer(i)).String() != s {
				c.Fatalf("the text of %d is %q", i, s)
			}
			for what, v := range map[string]dgo.Value{"parse": tf.Parse(s), "new": vf.New(typ.Integer, vf.String(s))} {
				if iv, ok := v.(dgo.Integer); !ok || iv.GoInt() != i {
					c.Fatalf("%s of %q yields %s (%T)", what, s, v, v)
				}
			}
			return
		}
		var f float64
		if rapid.Bool().Draw(c.T, "bits") {
			f = math.Float64frombits(rapid.Uint64().Draw(c.T, "f"))
		} else {
			f = genFloat().Draw(c.T, "f")
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return
		}
		s := vf.Float(f).String()
		if s != util.Ftoa(f) || !strings.ContainsAny(s, ".E") {
			c.Fatalf("the text of %g is %q (%q)", f, s, util.Ftoa(f))
		}
		r, err := strconv.ParseFloat(s, 64)
		if err != nil || math.Float64bits(r) != math.Float64bits(f) {
			c.Fatalf("the text of %v, %q, reads back as %v %v", f, s, r, err)
		}
		for what, v := range map[string]dgo.Value{"parse": tf.Parse(s), "new": vf.New(typ.Float, vf.String(s))} {
			if fv, ok := v.(dgo.Float); !ok || math.Float64bits(fv.GoFloat()) != math.Float64bits(f) {
				c.Fatalf("%s of %q yields %s (%T)", what, s, v, v)
			}
		}
		if got := util.ToString(vf.Values(f, vf.Map("a", f))); got != "{"+s+`,{"a":`+s+"}}" {
			c.Fatalf("the text of %s inside of collections is %s", s, got)
		}
		c.NonTrivial(s)
	})
}

type textStringer string

func (s textStringer) String() string { return string(s) }

type textPlain struct{ A, B int }

// indented is a reference for one level of an indenter
type indented struct {
	d     dgo.Indenter
	level int
}

var lineEnds = regexp.MustCompile(`[ \t]+(\n|\z)`)

func TestP27_Indenter(t *testing.T) {
	prop(t, 8000, "a sequence of appends at different indent levels; non-trivial for at least 5 appends at more than one level", func(c *C) {
		indent := rapid.SampledFrom([]string{"  ", "", "\t", "-->", " . "}).Draw(c.T, "indent")
		var root dgo.Indenter
		if rapid.Bool().Draw(c.T, "erp") {
			root = util.NewERPIndenter(indent)
		} else {
			root = util.NewIndenter(indent)
		}
		is := []indented{{root, 0}}
		want := ""
		log := &strings.Builder{}
		fmt.Fprintf(log, "indent %q:", indent)
		text := rapid.Custom(func(t *rapid.T) string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{" ", "\t", "\n", "a", "b c", "é", "\U0001f600", "\xff", "\r", "\x00", "\u2028", "\u00a0"}), 0, 5).Draw(t, "text"), "")
		})
		check := func() {
			exp := lineEnds.ReplaceAllString(want, "$1")
			for i := 0; i < 2; i++ {
				// a second time, since the text must remain
				if got := is[rapid.IntRange(0, len(is)-1).Draw(c.T, "reader")].d.String(); got != exp {
					c.Fatalf("%s: the text is %q and not %q", log, got, exp)
				}
			}
			if root.Len() != len(want) {
				c.Fatalf("%s: the length is %d and not %d", log, root.Len(), len(want))
			}
		}
		n := rapid.IntRange(1, 14).Draw(c.T, "n")
		appends, deep := 0, 0
		for i := 0; i < n; i++ {
			x := is[rapid.IntRange(0, len(is)-1).Draw(c.T, "indenter")]
			nl := ""
			if indent != "" {
				nl = "\n" + strings.Repeat(indent, x.level)
			}
			op := rapid.IntRange(0, 13).Draw(c.T, "op")
			s := text.Draw(c.T, "s")
			fmt.Fprintf(log, " %d(%d %q)", op, x.level, s)
			switch op {
			case 0:
				x.d.Append(s)
				want += s
			case 1:
				x.d.AppendRune('ö')
				x.d.AppendRune(' ')
				want += "ö "
			case 2:
				x.d.AppendValue(textStringer(s))
				want += s
			case 3:
				x.d.AppendValue(textPlain{1, 2})
				want += fmt.Sprintf("%#v", textPlain{1, 2})
			case 4:
				x.d.AppendIndented(s)
				want += strings.ReplaceAll(s, "\n", nl)
			case 5:
				x.d.AppendBool(len(s)%2 == 0)
				want += strconv.FormatBool(len(s)%2 == 0)
			case 6:
				x.d.AppendInt(len(s) - 3)
				want += strconv.Itoa(len(s) - 3)
			case 7:
				x.d.Printf("%s-%d%%", s, 12)
				want += s + "-12%"
			case 8:
				if w, err := x.d.Write([]byte(s)); w != len(s) || err != nil {
					c.Fatalf("%s: wrote %d %v", log, w, err)
				}
				want += s
			case 9:
				if w, err := x.d.WriteString(s); w != len(s) || err != nil {
					c.Fatalf("%s: wrote %d %v", log, w, err)
				}
				want += s
			case 10:
				x.d.NewLine()
				want += nl
			case 11:
				ni := indented{x.d.Indent(), x.level + 1}
				is = append(is, ni)
				if ni.d.Level() != ni.level || x.d.Level() != x.level || ni.d.Indenting() != (indent != "") {
					c.Fatalf("%s: the levels are %d and %d", log, x.d.Level(), ni.d.Level())
				}
			case 12:
				v := drawV(c.T, vOpts{kinds: dataKinds, keys: []K{kString, kInt}, depth: 3, width: 3})
				fmt.Fprintf(log, " %s", v.str())
				x.d.AppendValue(build(v, fixedRoute))
				want += render(v, indent, x.level)
			case 13:
				if rapid.IntRange(0, 3).Draw(c.T, "reset") == 0 {
					x.d.Reset()
					want = ""
				}
			}
			appends++
			if x.level > 0 {
				deep++
			}
			if rapid.IntRange(0, 4).Draw(c.T, "look") == 0 {
				check()
			}
		}
		check()
		if appends >= 5 && deep > 0 && deep < appends {
			c.NonTrivial(log.String())
		}
	})
}

// render is a reference for the text of a value
func render(v *V, indent string, level int) string {
	nl, inner, colon := "", "", ":"
	if indent != "" {
		nl = "\n" + strings.Repeat(indent, level)
		inner = nl + indent
		colon = ": "
	}
	switch v.K {
	case kNil:
		return "nil"
	case kBool:
		return strconv.FormatBool(v.B)
	case kInt:
		return strconv.FormatInt(v.I, 10)
	case kFloat:
		s := strconv.FormatFloat(v.F, 'G', -1, 64)
		if !strings.ContainsAny(s, ".E") {
			s += ".0"
		}
		return s
	case kString:
		return strconv.Quote(v.S)
	case kTime:
		if _, off := v.T.Zone(); off%60 != 0 {
			return v.T.UTC().Format(time.RFC3339Nano) // the offset cannot be written
		}
		return v.T.Format(time.RFC3339Nano)
	case kSensitive:
		return "sensitive [value redacted]"
	}
	var ss []string
	for _, e := range v.A {
		ss = append(ss, inner+render(e, indent, level+1))
	}
	for i, k := range v.MK {
		ss = append(ss, inner+render(k, indent, level+1)+colon+render(v.MV[i], indent, level+1))
	}
	return "{" + strings.Join(ss, ",") + nl + "}"
}

func TestP27_Rendering(t *testing.T) {
	prop(t, 8000, "a value; non-trivial for nested collections", func(c *C) {
		v := drawV(c.T, vOpts{kinds: append([]K{kTime, kSensitive}, dataKinds...), keys: []K{kString, kInt, kBool, kFloat, kArray}, depth: 4, width: 4, wideStr: true})
		if v.K != kArray && v.K != kMap {
			return
		}
		d := build(v, drawOrdered(c.T))
		ia := d.(dgo.Indentable)
		flat, tall := render(v, "", 0), render(v, "  ", 0)
		for what, got := range map[string]string{"String": d.String(), "ToString": util.ToString(ia), "ToStringERP": util.ToStringERP(ia)} {
			if got != flat {
				c.Fatalf("%s of %s is %q and not %q", what, v.str(), got, flat)
			}
		}
		for what, got := range map[string]string{"ToIndentedString": util.ToIndentedString(ia), "ToIndentedStringERP": util.ToIndentedStringERP(ia)} {
			if got != tall {
				c.Fatalf("%s of %s is %q and not %q", what, v.str(), got, tall)
			}
		}
		if d.String() != flat {
			c.Fatalf("the text of %s changed after it had been rendered", flat)
		}
		if v.height() > 2 {
			c.NonTrivial(flat)
		}
	})
}

func drawOrdered(t *rapid.T) func(int) int {
	if rapid.Bool().Draw(t, "frozen") {
		return frozenRoute
	}
	return fixedRoute
}

// TestP27_Shared checks that a recursion protected indenter renders all occurrences of a value which occurs more than once,
// and that it marks the place where a value contains itself
func TestP27_Shared(t *testing.T) {
	prop(t, 3000, "collections that share elements, and may contain themselves; non-trivial when some contains itself", func(c *C) {
		n := rapid.IntRange(1, 5).Draw(c.T, "n")
		ds := make([]dgo.Value, n)
		edges := make([][]int, n)
		for i := range ds {
			if rapid.Bool().Draw(c.T, "map") {
				ds[i] = vf.MutableMap()
			} else {
				ds[i] = vf.MutableValues()
			}
		}
		self := rapid.IntRange(0, 2).Draw(c.T, "self") == 0
		for i := range ds {
			for j := rapid.IntRange(0, 3).Draw(c.T, "edges"); j > 0; j-- {
				lo := i + 1
				if self {
					lo = 0
				}
				to := n
				if lo < n {
					to = rapid.IntRange(lo, n).Draw(c.T, "to")
				}
				var e dgo.Value = vf.Integer(int64(i))
				if to < n {
					e = ds[to]
				}
				switch d := ds[i].(type) {
				case dgo.Map:
					d.Put(fmt.Sprintf("k%d", len(edges[i])), e)
				case dgo.Array:
					d.Add(e)
				}
				edges[i] = append(edges[i], to)
			}
		}
		for _, indent := range []string{"", "  "} {
			found := false
			var ref func(i, level int, on []bool) string
			ref = func(i, level int, on []bool) string {
				_, isMap := ds[i].(dgo.Map)
				if on[i] {
					found = true
					return "<recursive>"
				}
				on[i] = true
				defer func() { on[i] = false }()
				nl, inner, colon := "", "", ":"
				if indent != "" {
					nl, colon = "\n"+strings.Repeat(indent, level), ": "
					inner = nl + indent
				}
				var ss []string
				for k, to := range edges[i] {
					s := inner
					if isMap {
						s += fmt.Sprintf(`"k%d"%s`, k, colon)
					}
					if to < n {
						s += ref(to, level+1, on)
					} else {
						s += strconv.Itoa(i)
					}
					ss = append(ss, s)
				}
				return "{" + strings.Join(ss, ",") + nl + "}"
			}
			want := ref(0, 0, make([]bool, n))
			var got string
			c.Doing("rendering %s", want)
			if indent == "" {
				got = util.ToStringERP(ds[0].(dgo.Indentable))
			} else {
				got = util.ToIndentedStringERP(ds[0].(dgo.Indentable))
			}
			if selfRx.ReplaceAllString(got, "<recursive>") != want {
				c.Fatalf("the text is\n%s\nand not\n%s", got, want)
			}
			if found {
				c.NonTrivial(want)
			}
		}
	})
}

var selfRx = regexp.MustCompile(`<recursive[^>]*>`)

func TestP27_Reader(t *testing.T) {
	prop(t, 20000, "a text and a sequence of reads; non-trivial for texts with newlines and non ASCII runes", func(c *C) {
		s := strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "\n", " ", "é", "\U0001f600", "\ufffd", "\u2028", "b\n", "\x7f", "\x80", "\xe2\x82", "\r\n"}), 0, 8).Draw(c.T, "text"), "")
		r := util.NewStringReader(s)
		pos, line, col := 0, 1, 1
		// at returns the rune at a position, its size, and if it's legal
		at := func(p int) (rune, int, bool) {
			if p >= len(s) {
				return 0, 0, true
			}
			x, n := utf8.DecodeRuneInString(s[p:])
			return x, n, !(x == utf8.RuneError && n == 1)
		}
		log := &strings.Builder{}
		fmt.Fprintf(log, "%q:", s)
		step := func(what string, f func() rune, want rune, ok bool) {
			var got rune
			p := catch(func() { got = f() })
			fmt.Fprintf(log, " %s", what)
			if ok != (p == nil) || ok && got != want {
				c.Fatalf("%s yields %q (%v) and not %q", log, got, p, want)
			}
			if p != nil {
				if err, isErr := p.v.(error); !isErr || errors.Unwrap(err) != nil || p.runtimeErr() {
					c.Fatalf("%s panics with %v", log, p.v)
				}
			}
		}
		for i := rapid.IntRange(1, 2*len(s)+4).Draw(c.T, "reads"); i > 0; i-- {
			x, n, ok := at(pos)
			switch rapid.IntRange(0, 5).Draw(c.T, "op") {
			case 0, 1, 2:
				step("next", r.Next, x, ok)
				if !ok {
					break
				}
				switch {
				case pos == len(s):
					pos++
					col++
				case pos > len(s):
				case x == '\n':
					line++
					col = 1
				default:
					col++
				}
				pos += n
			case 3:
				step("peek", r.Peek, x, ok)
			case 4:
				if !ok {
					step("peek2", r.Peek2, 0, false)
				} else {
					x, _, ok = at(pos + n)
					step("peek2", r.Peek2, x, ok)
				}
			case 5:
				if rapid.IntRange(0, 4).Draw(c.T, "rewind") == 0 {
					r.Rewind()
					pos, line, col = 0, 1, 1
				}
			}
			if r.Pos() != pos || r.Line() != line || r.Column() != col {
				c.Fatalf("%s: position %d line %d column %d instead of %d, %d, %d", log, r.Pos(), r.Line(), r.Column(), pos, line, col)
			}
		}
		if strings.Contains(s, "\n") && len(s) != utf8.RuneCountInString(s) {
			c.NonTrivial(log.String())
		}
	})
}

// fullWriter accepts a number of bytes and then fails
type fullWriter struct {
	got  []byte
	left int
	err  error
}

func (w *fullWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.got = append(w.got, b[:n]...)
		w.left = 0
		return n, w.err
	}
	w.left -= len(b)
	w.got = append(w.got, b...)
	return len(b), nil
}

// TestP27_Writers checks that the writing functions of util deliver all that they are given, in order, and that they
// panic with the very error that the writer returns
func TestP27_Writers(t *testing.T) {
	prop(t, 8000, "writes to a writer that may fail; non-trivial when it fails after the first write", func(c *C) {
		w := &fullWriter{left: 1 << 20, err: errors.New("disk full")}
		if rapid.Bool().Draw(c.T, "fails") {
			w.left = rapid.IntRange(0, 40).Draw(c.T, "room")
		}
		room := w.left
		want := ""
		log := &strings.Builder{}
		for i := rapid.IntRange(1, 12).Draw(c.T, "writes"); i > 0; i-- {
			s := genStr(true).Draw(c.T, "s")
			r := rapid.OneOf(rapid.Rune(), rapid.SampledFrom([]rune{0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, utf8.RuneError})).Draw(c.T, "r")
			b := rapid.Byte().Draw(c.T, "b")
			n, exp, add := 0, 0, ""
			var p *caught
			switch op := rapid.IntRange(0, 4).Draw(c.T, "op"); op {
			case 0:
				add, exp = s, len(s)
				p = catch(func() { n = util.WriteString(w, s) })
			case 1:
				add, exp = string(r), utf8.RuneLen(r)
				p = catch(func() { n = util.WriteRune(w, r) })
			case 2:
				add = string([]byte{b})
				p = catch(func() { util.WriteByte(w, b) })
			case 3:
				add = fmt.Sprintf("%s=%d%%", s, b)
				exp = len(add)
				p = catch(func() { n = util.Fprintf(w, "%s=%d%%", s, b) })
			case 4:
				add = fmt.Sprintln(s, b)
				exp = len(add)
				p = catch(func() { n = util.Fprintln(w, s, b) })
			}
			want += add
			fmt.Fprintf(log, " %q", add)
			if len(want) > room {
				if p == nil || p.v != error(w.err) {
					c.Fatalf("%s with room for %d: a failing write yields %d and panics with %v", log, room, n, p)
				}
				if string(w.got) != want[:room] {
					c.Fatalf("%s with room for %d: wrote %q", log, room, w.got)
				}
				if len(want)-len(add) > 0 {
					c.NonTrivial(log.String())
				}
				return
			}
			if p != nil || n != exp || string(w.got) != want {
				c.Fatalf("%s: returns %d and not %d (%v) and has written %q", log, n, exp, p, w.got)
			}
		}
	})
}
