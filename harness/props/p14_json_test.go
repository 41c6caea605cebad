package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// jsonDoc reads a document with the standard decoder into a model with ordered maps. Numbers are integers when they are written as
// integers that fit in 64 bits, and floats otherwise. The second result is false when a number is out of range.
func jsonDoc(text []byte) (v *V, inRange bool) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	inRange = true
	tok := func() json.Token {
		k, err := d.Token()
		if err != nil {
			panic(fmt.Sprintf("harness: %v in %q", err, text))
		}
		return k
	}
	var elem func(k json.Token) *V
	elem = func(k json.Token) *V {
		switch k := k.(type) {
		case json.Delim:
			if k == '[' {
				a := vArr()
				for d.More() {
					a.A = append(a.A, elem(tok()))
				}
				tok()
				return a
			}
			m := vMap()
			for d.More() {
				key := vStr(tok().(string))
				m.put(key, elem(tok()))
			}
			tok()
			return m
		case string:
			return vStr(k)
		case json.Number:
			if i, err := strconv.ParseInt(string(k), 10, 64); err == nil {
				return vInt(i)
			}
			f, err := strconv.ParseFloat(string(k), 64)
			if err != nil {
				inRange = false
			}
			return vFloat(f)
		case bool:
			return vBool(k)
		}
		return vNil()
	}
	return elem(tok()), inRange
}

// numEq compares like sameOrdered, but makes no difference between numbers with the same value
func numEq(a, b *V) bool {
	if a.K == kFloat && b.K == kInt {
		return a.F == float64(b.I)
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case kArray:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !numEq(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	case kMap:
		if len(a.MK) != len(b.MK) {
			return false
		}
		for i := range a.MK {
			if !numEq(a.MK[i], b.MK[i]) || !numEq(a.MV[i], b.MV[i]) {
				return false
			}
		}
		return true
	}
	return refEq(a, b)
}

// sharer builds frozen values that sometimes share equal parts
type sharer struct {
	t    *rapid.T
	memo map[string]dgo.Value
	hits int
}

func (s *sharer) build(v *V) dgo.Value {
	key := v.str()
	if x, ok := s.memo[key]; ok && rapid.IntRange(0, 2).Draw(s.t, "share") > 0 {
		s.hits++
		return x
	}
	var x dgo.Value
	switch v.K {
	case kArray:
		vs := make([]dgo.Value, len(v.A))
		for i, e := range v.A {
			vs[i] = s.build(e)
		}
		if rapid.Bool().Draw(s.t, "mutable") {
			m := vf.ArrayWithCapacity(len(vs))
			for _, e := range vs {
				m.Add(e)
			}
			x = m
		} else {
			x = vf.Array(vs)
		}
	case kMap:
		m := vf.MapWithCapacity(len(v.MK))
		for i, k := range v.MK {
			m.Put(s.build(k), s.build(v.MV[i]))
		}
		if rapid.Bool().Draw(s.t, "frozen") {
			m.Freeze()
		}
		x = m
	case kSensitive:
		x = vf.Sensitive(s.build(v.A[0]))
	default:
		x = build(v, fixedRoute)
	}
	s.memo[key] = x
	return x
}

func drawData(t *rapid.T) *V {
	v := drawV(t, dataOpts(rapid.IntRange(1, 5).Draw(t, "depth")))
	if rapid.IntRange(0, 2).Draw(t, "wrap") == 0 {
		// the same data several times
		w := drawV(t, dataOpts(2))
		v = vArr(v, w, vMap(vStr("k"), v.clone(), vStr("a"), w.clone()), v.clone(), w.clone())
	}
	return v
}

func jsonable(v *V) bool {
	return !v.has(func(x *V) bool {
		return x.K == kFloat && (math.IsNaN(x.F) || math.IsInf(x.F, 0)) || x.K == kString && (!utf8.ValidString(x.S) || strings.HasPrefix(x.S, "__"))
	})
}

func drawDialect(t *rapid.T) (streamer.Dialect, string) {
	switch rapid.IntRange(0, 2).Draw(t, "dialect") {
	case 0:
		return streamer.DgoDialect(), "dgo"
	case 1:
		return pcore.Dialect(), "pcore"
	}
	return ownDialect{streamer.DgoDialect()}, "own"
}

// ownDialect is a dialect that has nothing in common with the ones that are provided
type ownDialect struct {
	streamer.Dialect
}

func (d ownDialect) TypeKey() dgo.String           { return vf.String("_ot") }
func (d ownDialect) ValueKey() dgo.String          { return vf.String("_ov") }
func (d ownDialect) RefKey() dgo.String            { return vf.String("_or") }
func (d ownDialect) AliasTypeName() dgo.String     { return vf.String("A") }
func (d ownDialect) BinaryTypeName() dgo.String    { return vf.String("B") }
func (d ownDialect) MapTypeName() dgo.String       { return vf.String("M") }
func (d ownDialect) SensitiveTypeName() dgo.String { return vf.String("S") }
func (d ownDialect) TimeTypeName() dgo.String      { return vf.String("T") }

func TestP14_Encode(t *testing.T) {
	prop(t, 12000, "random data with shared parts; non-trivial when composite", func(c *C) {
		v := drawData(c.T)
		if !jsonable(v) {
			c.Class("not JSON")
			return
		}
		sh := &sharer{t: c.T, memo: map[string]dgo.Value{}}
		dv := sh.build(v)
		dia, dn := drawDialect(c.T)
		opts := streamer.DefaultOptions()
		opts.Dialect = dia
		opts.DedupLevel = streamer.NoDedup
		opts.RichData = rapid.Bool().Draw(c.T, "rich")
		var plain bytes.Buffer
		streamer.New(nil, opts).Stream(dv, streamer.JSON(&plain))
		if !json.Valid(plain.Bytes()) {
			c.Fatalf("%s is encoded to invalid JSON %s", v.str(), plain.String())
		}
		if std, _ := jsonDoc(plain.Bytes()); !numEq(v, std) {
			c.Fatalf("%s is encoded to JSON that denotes something else: %s", v.str(), plain.String())
		}
		if back := model(streamer.UnmarshalJSON(plain.Bytes(), dia)); !sameOrdered(back, v) {
			c.Fatalf("%s is decoded to %s from %s", v.str(), back.str(), plain.String())
		}
		// with the default options, including deduplication
		b := streamer.MarshalJSON(dv, dia)
		if !json.Valid(b) {
			c.Fatalf("MarshalJSON(%s) is invalid %s", v.str(), b)
		}
		back := streamer.UnmarshalJSON(b, dia)
		if m := model(back); !sameOrdered(m, v) || !back.Equals(dv) || !dv.Equals(back) {
			c.Fatalf("%s dialect: %s is decoded to %s from %s", dn, v.str(), m.str(), b)
		}
		if bytes.Contains(b, []byte(dia.RefKey().GoString()+`":`)) {
			c.Class("with references")
		} else if !bytes.Equal(b, plain.Bytes()) {
			c.Fatalf("MarshalJSON(%s) gives %s, streaming gives %s", v.str(), b, plain.String())
		}
		c.Class(kNames[v.K])
		if v.K == kArray || v.K == kMap {
			c.NonTrivial(string(b))
		}
	})
}

func TestP14_Unencodable(t *testing.T) {
	prop(t, 500, "data with a float that JSON cannot denote; non-trivial when composite", func(c *C) {
		v := drawData(c.T)
		bad := rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(c.T, "bad")
		spot := v
		for spot.K == kArray && len(spot.A) > 0 || spot.K == kMap && len(spot.MV) > 0 {
			vs := spot.A
			if spot.K == kMap {
				vs = spot.MV
			}
			spot = vs[rapid.IntRange(0, len(vs)-1).Draw(c.T, "at")]
		}
		*spot = *vFloat(bad)
		dv := build(v, fixedRoute)
		p := catch(func() { streamer.MarshalJSON(dv, nil) })
		if p == nil || p.runtimeErr() {
			c.Fatalf("MarshalJSON(%s) should be rejected: %v", v.str(), p)
		}
		if v != spot {
			c.NonTrivial(v.str())
		}
	})
}

type failingWriter struct {
	n   int
	err error
}

func (w *failingWriter) Write(b []byte) (int, error) {
	if w.n -= len(b); w.n < 0 {
		return 0, w.err
	}
	return len(b), nil
}

func TestP14_WriteFailure(t *testing.T) {
	prop(t, 1500, "a writer that fails at some byte of the encoding of random data; non-trivial when composite", func(c *C) {
		v := drawData(c.T)
		if !jsonable(v) {
			return
		}
		dv := build(v, fixedRoute)
		b := streamer.MarshalJSON(dv, nil)
		w := &failingWriter{n: rapid.IntRange(0, len(b)).Draw(c.T, "fail at"), err: errors.New("no space")}
		fails := w.n < len(b)
		p := catch(func() { streamer.New(nil, nil).Stream(dv, streamer.JSON(w)) })
		if fails != (p != nil) || p != nil && p.v != w.err {
			c.Fatalf("writing %s to a writer that fails=%v ends with %v", b, fails, p)
		}
		if v.K == kArray || v.K == kMap {
			c.NonTrivial(string(b))
		}
	})
}

// drawJSON writes a document in some of the ways that JSON permits
func drawJSON(t *rapid.T, depth int, sb *strings.Builder) {
	ws := func() {
		sb.WriteString(rapid.SampledFrom([]string{"", "", "", "", " ", "\n", "\t ", "\r\n"}).Draw(t, "ws"))
	}
	str := func() {
		s := genStr(true).Draw(t, "s")
		if strings.HasPrefix(s, "__") {
			s = "x" + s
		}
		sb.WriteByte('"')
		for _, r := range s {
			switch n := rapid.IntRange(0, 7).Draw(t, "esc"); {
			case r == '"' || r == '\\':
				sb.WriteByte('\\')
				sb.WriteRune(r)
			case r == '/' && n < 4:
				sb.WriteString(`\/`)
			case r == '\n' && n < 4:
				sb.WriteString(`\n`)
			case r == '\t' && n < 4:
				sb.WriteString(`\t`)
			case r < 0x20 || n == 0 && r < 0x10000:
				fmt.Fprintf(sb, `\u%04x`, r)
			case n == 0:
				x := r - 0x10000
				fmt.Fprintf(sb, `\u%04X\u%04x`, 0xd800+x>>10, 0xdc00+x&0x3ff)
			default:
				sb.WriteRune(r)
			}
		}
		sb.WriteByte('"')
	}
	ws()
	defer ws()
	n := 9
	if depth <= 1 {
		n = 6
	}
	switch rapid.IntRange(0, n).Draw(t, "what") {
	case 0:
		sb.WriteString(rapid.SampledFrom([]string{"null", "true", "false"}).Draw(t, "lit"))
	case 1:
		sb.WriteString(strconv.FormatInt(genInt().Draw(t, "i"), 10))
	case 2:
		f := genFloat().Draw(t, "f")
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		s := strconv.FormatFloat(f, rapid.SampledFrom([]byte{'e', 'f', 'g', 'E'}).Draw(t, "fmt"), -1, 64)
		if len(s) > 60 {
			s = strconv.FormatFloat(f, 'e', -1, 64)
		}
		sb.WriteString(s)
	case 3:
		sb.WriteString(rapid.SampledFrom([]string{"0", "-0", "-0.0", "0.0", "1.0", "1e2", "1E+2", "12e-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
			"18446744073709551616", "1e400", "-1e400", "1e-400", "123456789012345678901234567890", "0e0", "0.1e1"}).Draw(t, "n"))
	case 4, 5, 6:
		str()
	case 7, 8:
		sb.WriteByte('[')
		for i, l := 0, rapid.IntRange(0, 4).Draw(t, "len"); i < l; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			drawJSON(t, depth-1, sb)
		}
		ws()
		sb.WriteByte(']')
	case 9:
		sb.WriteByte('{')
		for i, l := 0, rapid.IntRange(0, 4).Draw(t, "len"); i < l; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			ws()
			str()
			ws()
			sb.WriteByte(':')
			drawJSON(t, depth-1, sb)
		}
		ws()
		sb.WriteByte('}')
	}
}

func TestP14_Decode(t *testing.T) {
	prop(t, 25000, "a JSON document, or a changed document; non-trivial for more than 5 bytes", func(c *C) {
		var sb strings.Builder
		drawJSON(c.T, rapid.IntRange(1, 5).Draw(c.T, "depth"), &sb)
		b := []byte(sb.String())
		for n := rapid.IntRange(0, 2).Draw(c.T, "edits"); n > 0 && len(b) > 0; n-- {
			i := rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
			switch rapid.IntRange(0, 3).Draw(c.T, "edit") {
			case 0:
				b = append(b[:i:i], b[i+1:]...)
			case 1:
				b = append(b[:i:i], append([]byte{rapid.SampledFrom([]byte(`[]{}:,"\0123456789.eE+-ntfu /`+"\x00\xff\n")).Draw(c.T, "b")}, b[i:]...)...)
			case 2:
				b = b[:i]
			case 3:
				b = append(b, rapid.SampledFrom([]string{"]", "}", " 1", ",", "x", "\"", "null", "{}", " ", "\x00"}).Draw(c.T, "tail")...)
			}
		}
		dia, dn := drawDialect(c.T)
		if strings.Contains(string(b), "__") {
			return
		}
		valid := json.Valid(b)
		var want *V
		inRange := true
		if valid {
			want, inRange = jsonDoc(b)
		}
		var got dgo.Value
		p := catch(func() { got = streamer.UnmarshalJSON(b, dia) })
		switch {
		case p != nil && p.runtimeErr():
			c.Fatalf("%q is rejected with a runtime error %s\n%s", b, p, p.stack)
		case p != nil && valid && inRange:
			c.Fatalf("%q is rejected: %s", b, p)
		case p == nil && !valid:
			c.Fatalf("%q isn't valid and is decoded to %s", b, got)
		case p == nil && !inRange:
			c.Fatalf("%q contains a number that is out of range and is decoded to %s", b, got)
		case p == nil:
			if m := model(got); !sameOrdered(m, want) {
				c.Fatalf("%s dialect: %q is decoded to %s, not %s", dn, b, m.str(), want.str())
			}
			c.Class("decoded")
		default:
			c.Class("rejected")
		}
		if len(b) > 5 {
			c.NonTrivial(string(b))
		}
	})
}
