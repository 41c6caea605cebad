package props

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"pgregory.net/rapid"
)

var dgoTokens = strings.Fields("any bool int float dgo binary true false nil map type string sensitive func { } [ ] ( ) < > , : ? = | & ^ ! ~ . .. ... " +
	"0 1 -1 5 0x1F 010 08 1.5 -2.0 1e3 1E-3 1e400 99999999999999999999 0x \"a\" `b` /c/ /(/ \"\\n\" \"\\x\" \" ` / - + a b data richdata foo @ é \u0080 \\ ; 'x'")

var pcoreTokens = strings.Fields("Any Boolean True False Timestamp Undef Array Binary Callable Float Enum Hash Integer Number NotUndef Optional Pattern Regexp " +
	"Sensitive String Struct Tuple Type Variant Foo Foo::Bar Foo: Foo::b { } [ ] ( ) , => = type default undef true false 0 1 -1 5 0x1F 08 1.5 1e3 " +
	"99999999999999999999 'a' \"b\" /c/ /(/ ' \" / - + a a::b a: _x # \\ | @ é \u0080")

var pcoreSentences = []string{"Array[String,1,10]", "Hash[String,Integer[1,10],1,2]", "Struct[{a=>String,Optional[b]=>Integer}]", "Tuple[String,Integer,1,3]", "Callable[[String,Integer],Boolean]",
	"Callable[String,Callable]", "Variant[String,Integer]", "Enum['a','b',true]", "Pattern[/a/,'b']", "Regexp[/x/]", "Optional['a']", "NotUndef[Any]", "Number[1,10]", "Float[default,1.0]",
	"type Foo=Array[Foo]", "{'a'=>1,'b'=>[1,2]}", "[1,'a',true,undef]", "['a'=>1,'b'=>2]", "'a'=>1", "Sensitive[String]", "Sensitive('x')", "Type[Integer]", "Timestamp('2019-10-06T07:15:00Z')",
	"Binary('AQID')", "Integer('12')", "Array[1,2]", "Callable[1,2]", "Callable[String,1,default]", "Binary[1,2]", "Integer[default,5]", "String[1,10]",
	"Array[Integer('5')]", "Variant[String,Integer('5')]", "{Integer('5')=>1}", "Hash[String,Sensitive(['a'])]", "type Foo=5", "type Foo=[1]", "type Integer=String", "type Foo=Integer('5')", "['x',type Foo=Integer('5'),Array[Foo]]", "type Foo=Struct[{a=>Integer('5'),b=>Foo}]"}

func drawText(t *rapid.T, pcoreText bool) string {
	pool := dgoTokens
	if pcoreText {
		pool = pcoreTokens
	}
	var toks []string
	switch rapid.IntRange(0, 9).Draw(t, "source") {
	case 0:
		return rapid.String().Draw(t, "text")
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
	case 2, 3:
		n := rapid.IntRange(0, 12).Draw(t, "n")
		for i := 0; i < n; i++ {
			toks = append(toks, rapid.SampledFrom(pool).Draw(t, "tok"))
		}
	default:
		if pcoreText {
			toks = regexp.MustCompile(`=>|\w+|'[^']*'|/[^/]*/|.`).FindAllString(rapid.SampledFrom(pcoreSentences).Draw(t, "sentence"), -1)
			break
		}
		w := &writer{t: t, alias: map[string]*T{}}
		for w.toks == nil {
			a := drawT(t, tOpts{depth: 3, wideStrs: true, excl: []TK{tBinarySized, tTime, tRegexp}, exactKs: []K{kNil, kBool, kInt, kFloat, kString, kArray, kMap}})
			if !inexpressible(a) {
				w.expr(a, lAny)
			}
		}
		toks = w.toks
	}
	// change some tokens
	for n := rapid.IntRange(0, 3).Draw(t, "edits"); n > 0 && len(toks) > 0; n-- {
		i := rapid.IntRange(0, len(toks)-1).Draw(t, "at")
		switch rapid.IntRange(0, 5).Draw(t, "edit") {
		case 0:
			toks = append(append([]string{}, toks[:i]...), toks[i+1:]...)
		case 1:
			toks = append(append(append([]string{}, toks[:i]...), rapid.SampledFrom(pool).Draw(t, "ins")), toks[i:]...)
		case 2:
			toks = append([]string{}, toks...)
			toks[i] = rapid.SampledFrom(pool).Draw(t, "repl")
		case 3:
			j := rapid.IntRange(0, len(toks)-1).Draw(t, "with")
			toks = append([]string{}, toks...)
			toks[i], toks[j] = toks[j], toks[i]
		case 4:
			toks = toks[:i]
		case 5:
			j := rapid.IntRange(i, len(toks)-1).Draw(t, "end")
			toks = append(append(append([]string{}, toks[:j+1]...), toks[i:j+1]...), toks[j+1:]...)
		}
	}
	sep := rapid.SampledFrom([]string{"", "", " ", "\n"}).Draw(t, "sep")
	s := strings.Join(toks, sep)
	// change some bytes
	if rapid.IntRange(0, 3).Draw(t, "bytes") == 0 && len(s) > 0 {
		b := []byte(s)
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 2).Draw(t, "edit") {
		case 0:
			b[i] = rapid.Byte().Draw(t, "b")
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			ins := string([]byte{rapid.SampledFrom([]byte("'\"`/\\{}[]()<>,:?=|&^!~.0ae-+#\x00\xff\n")).Draw(t, "b")})
			if rapid.IntRange(0, 4).Draw(t, "wide") == 0 {
				ins = rapid.SampledFrom([]string{"\u007f", "\u0080", "\u0081", "\u0660", "\u0100", "\ufeff", "\U0010ffff"}).Draw(t, "rune")
			}
			b = append(b[:i], append([]byte(ins), b[i:]...)...)
		}
		s = string(b)
	}
	return s
}

var faultRx = regexp.MustCompile(`runtime error|interface conversion|nil pointer|index out of range|reflect: |reflect\.|slice bounds|unreachable|NaN|%!|<nil>`)

var charEscapeRx = regexp.MustCompile(`\\[xuU0-7]`)

// internalFault is true for a message that tells about an internal fault. What the input contains, possibly written using
// escapes, can be quoted by the message.
func internalFault(msg, input string) bool {
	for _, f := range faultRx.FindAllString(msg, -1) {
		if !strings.Contains(input, f) && !charEscapeRx.MatchString(input) {
			return true
		}
	}
	return false
}

// aliasRx matches what is found to be wrong with the declared aliases once the text has been parsed
var aliasRx = regexp.MustCompile(`^(the )?alias '[^']*' is (not declared as a type|defined using (nothing but )?itself( as an operand)?)$`)
var posRx = regexp.MustCompile(`\((?:file: ([^,]*), )?(?:line: (-?\d+), )?column: (-?\d+)\)$`)

type outcome struct {
	v   dgo.Value
	err string
}

func parseOutcome(c *C, what, s string, parse func() dgo.Value) outcome {
	var v dgo.Value
	p := catch(func() { v = parse() })
	if p == nil {
		if v == nil {
			c.Fatalf("%s of %q returns no value", what, s)
		}
		var text string
		if p = catch(func() {
			text = v.String()
			_ = v.HashCode()
			if !v.Equals(v) {
				panic("it doesn't equal itself")
			}
		}); p != nil {
			c.Fatalf("%s of %q: the result %s (%T) cannot be used: %s\n%s", what, s, text, v, p, p.stack)
		}
		return outcome{v: v}
	}
	err, ok := p.v.(error)
	if !ok {
		c.Fatalf("%s of %q panics with something that isn't an error: %s", what, s, p)
	}
	if _, ok = err.(runtime.Error); ok {
		c.Fatalf("%s of %q fails with an internal fault: %s\n%s", what, s, p, p.stack)
	}
	msg := err.Error()
	clean := msg
	if strings.Contains(s, "nil") || strings.Contains(s, "NaN") || strings.Contains(s, "%") || strings.Contains(s, "reflect") {
		clean = strings.NewReplacer("<nil>", "", "NaN", "", "%!", "").Replace(msg)
	}
	if internalFault(clean, s) {
		c.Fatalf("%s of %q fails with an internal fault: %s", what, s, msg)
	}
	if m := posRx.FindStringSubmatch(msg); m != nil {
		line := 1
		if m[2] != "" {
			line, _ = strconv.Atoi(m[2])
		}
		col, _ := strconv.Atoi(m[3])
		lines := strings.Split(s, "\n")
		if line < 1 || line > len(lines) {
			c.Fatalf("%s of %q reports line %d: %s", what, s, line, msg)
		}
		if n := utf8.RuneCountInString(lines[line-1]); col < 1 || col > n+1 {
			c.Fatalf("%s of %q reports column %d: %s", what, s, col, msg)
		}
	} else if !aliasRx.MatchString(msg) {
		c.Fatalf("%s of %q reports no position: %s", what, s, msg)
	}
	return outcome{err: msg}
}

func checkRobust(c *C, s string, what string, parseFile func(dgo.AliasAdder, string, string) dgo.Value, parseDefault func(string) dgo.Value) {
	scoped := func() (v dgo.Value) {
		tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = parseFile(aa, "", s) })
		return
	}
	a := parseOutcome(c, what, s, scoped)
	b := parseOutcome(c, what, s, scoped)
	if a.err != b.err || a.err == "" && !a.v.Equals(b.v) {
		c.Fatalf("%s of %q isn't repeatable: %v %s and %v %s", what, s, a.v, a.err, b.v, b.err)
	}
	f := parseOutcome(c, what, s, func() (v dgo.Value) {
		tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = parseFile(aa, "x.dgo", s) })
		return
	})
	if (f.err == "") != (a.err == "") {
		c.Fatalf("%s of %q depends on the file name: %s, %s", what, s, a.err, f.err)
	}
	if f.err != "" && !aliasRx.MatchString(f.err) && !strings.Contains(f.err, "file: x.dgo, line: ") {
		c.Fatalf("%s of %q does not report the file: %s", what, s, f.err)
	}
	if a.err != "" {
		before := tf.DefaultAliases()
		d := parseOutcome(c, what, s, func() dgo.Value { return parseDefault(s) })
		if d.err != a.err {
			c.Fatalf("%s of %q with the default aliases: %v %s, with the same aliases: %s", what, s, d.v, d.err, a.err)
		}
		if tf.DefaultAliases() != before {
			c.Fatalf("%s of %q is rejected but changes the default aliases", what, s)
		}
		c.Class("rejected")
	} else {
		c.Class(fmt.Sprintf("accepted"))
	}
	if len(s) > 3 {
		c.NonTrivial(s)
	}
}

func TestP13_Dgo(t *testing.T) {
	prop(t, 25000, "a sentence, changed sentence, sequence of tokens, or random text; non-trivial for more than 3 bytes", func(c *C) {
		checkRobust(c, drawText(c.T, false), "dgo parse", tf.ParseFile, tf.Parse)
	})
}

func TestP13_Pcore(t *testing.T) {
	prop(t, 25000, "a pcore sentence, changed sentence, sequence of tokens, or random text; non-trivial for more than 3 bytes", func(c *C) {
		checkRobust(c, drawText(c.T, true), "pcore parse", pcore.ParseFile, pcore.Parse)
	})
}

// partials are texts that end within, or at the end of, each kind of token
var partials = strings.Split("0 1 -1 0x 0x1 0xf 1. 1.5 1e 1e5 1e+ 1.. 1... .. ... . - + a _ a:: A A:: :: int true string map[ func( type[ {a {a: {a? [ < \" \"\\ \"\\x \"\\x4 \"\\u00 \"a ' '\\ ` `a / /\\ /a # = => ? ! ~ | a= a|", " ")

// TestP13_Boundaries puts each rune that some table or range of runes ends with after each kind of token
func TestP13_Boundaries(t *testing.T) {
	prop(t, 120, "a partial token, followed by each of some 200 runes, and then by some text; non-trivial always", func(c *C) {
		p := rapid.SampledFrom(partials).Draw(c.T, "partial")
		before := rapid.SampledFrom([]string{"", "", "{", "[", "int|", "Array[", " "}).Draw(c.T, "before")
		after := rapid.SampledFrom([]string{"", "", "1", "a", "]", "}", "\"", " int", "\n1"}).Draw(c.T, "after")
		rs := []rune{0x100, 0x17f, 0x212a, 0x660, 0x2028, 0x7ff, 0x800, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff}
		for r := rune(0); r < 180; r++ {
			rs = append(rs, r)
		}
		for _, r := range rs {
			s := before + p + string(r) + after
			for what, parse := range map[string]func(aa dgo.AliasAdder, f, s string) dgo.Value{"dgo parse": tf.ParseFile, "pcore parse": pcore.ParseFile} {
				c.Doing("%s of %q", what, s)
				parseOutcome(c, what, s, func() (v dgo.Value) {
					tf.BuiltInAliases().Collect(func(aa dgo.AliasAdder) { v = parse(aa, "", s) })
					return
				})
			}
		}
		c.NonTrivial(before + p + after)
	})
}
