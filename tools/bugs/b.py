bug('p09-variadic-fixed', 'P09',
    [('internal/array.go', '''		return !t.Variadic() || Assignable(guard, t.Element(n), et)
''', '''		return !t.Variadic() || ot.Min() == n || Assignable(guard, t.Element(n), et)
''')],
    '''
	if tf.VariadicTuple(typ.Any, typ.Integer).Assignable(tf.Array(typ.String, 1, 3)) {
		t.Fatal("{any,...int} is assignable from [1,3]string")
	}
''', 'a variadic tuple and an array type whose minimum size is the number of leading elements', 'the type of the variadic elements is not checked against the element type of the array')

bug('p07-int-subtract', 'P07',
    [('internal/integer.go', '''	if oi, isInt := ToInt(other); isInt {
		mv := int64(v)
		switch {
		case mv > oi:
			r = 1
		case mv < oi:
			r = -1
		}
''', '''	if oi, isInt := ToInt(other); isInt {
		d := int64(v) - oi
		switch {
		case d > 0:
			r = 1
		case d < 0:
			r = -1
		}
''')],
    '''
	if c, _ := vf.Integer(math.MinInt64).CompareTo(1); c != -1 {
		t.Fatalf("the smallest integer compared with one is %d", c)
	}
''', 'integers that are further apart than the range of an int64', 'comparison by subtraction overflows')

bug('p22-values-guard', 'P22',
    [('internal/map.go', '''				return ov.AllValues(func(v dgo.Value) bool { return Instance(guard, vt, v) })
''', '''				return ov.AllValues(func(v dgo.Value) bool { return vt.Instance(v) })
''')],
    '''
	ty := tf.ParseType("m=map[any](int|m)")
	m := vf.MutableMap("a", 1)
	m.Put("self", m)
	done := make(chan bool, 1)
	go func() { done <- ty.Instance(m) }()
	if ok := <-done; !ok {
		t.Fatal("not an instance")
	}
''', 'a recursive map type with unconstrained keys and a map that contains itself', 'the guard against endless recursion is dropped')

bug('p14-quote', 'P14',
    [('streamer/json.go', '''		v, err = json.Marshal(e.GoString())
''', '''		if s := e.GoString(); strings.ContainsRune(s, '<') {
			v = []byte(strconv.Quote(s)) // not as unreadable as the escapes used by the encoder
		} else {
			v, err = json.Marshal(s)
		}
'''), ('streamer/json.go', '''	"io"
''', '''	"io"
	"strconv"
	"strings"
''')],
    '''
	s := streamer.MarshalJSON(vf.String("<\\a>"), nil)
	if v := streamer.UnmarshalJSON(s, nil); !v.Equals("<\\a>") {
		t.Fatalf("%s", s)
	}
''', 'a string with both an angle bracket and a control character', 'the encoded text is not valid JSON')

