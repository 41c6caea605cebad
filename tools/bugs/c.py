bug('p01-time-zone-hash', 'P01',
    [('internal/time.go', '''	return int((*time.Time)(v).UnixNano())
''', '''	t := (*time.Time)(v)
	_, offset := t.Zone()
	return int(t.UnixNano()) + offset%60
''')],
    '''
	a := time.Date(1890, 1, 1, 0, 0, 0, 0, time.FixedZone("LMT", 1172))
	if vf.Time(a).Equals(vf.Time(a.UTC())) && vf.Time(a).HashCode() != vf.Time(a.UTC()).HashCode() {
		t.Fatal("equal times with different hash codes")
	}
''', 'the same instant in time zones where one has an offset with seconds', 'equal times have different hash codes')

bug('p02-binary-type-range', 'P02',
    [('internal/binary.go', '''	if ob, ok := other.(*binaryType); ok {
		return *t == *ob
	}
	return false
}

func (t *binaryType) HashCode() int {
''', '''	if ob, ok := other.(*binaryType); ok {
		return t.min == ob.min && (t.max == ob.max || t.max-t.min == ob.max)
	}
	return false
}

func (t *binaryType) HashCode() int {
''')],
    '''
	if tf.Binary(2, 5).Equals(tf.Binary(2, 3)) {
		t.Fatal("equal")
	}
''', 'two sized binary types where the max of one is the width of the other', 'equality of binary types compares the wrong thing')

bug('p03-remove-all-last', 'P03',
    [('internal/map.go', '''				if e.next == nil {
					g.last = e.prev
				} else {
					e.next.prev = e.prev
				}
				g.len--
				break
''', '''				if e.next != nil {
					e.next.prev = e.prev
				} else if e.prev != nil {
					g.last = e.prev
				}
				g.len--
				break
''')],
    '''
	m := vf.MutableMap("a", 1, "d", 1, "e", 1, "f", 1)
	m.RemoveAll(vf.Values("a", "d", "e", "f"))
	m.Put("b", 2)
	m.Put("c", 3)
	m.Remove("b")
	if s := m.Keys().String(); m.Len() != 1 || s != `{"c"}` {
		t.Fatal(s)
	}
''', 'RemoveAll that leaves the map empty, additions, and then a removal', 'the first entry added after that is linked to an entry that was removed')

bug('p04-contains-all', 'P04',
    [('internal/array.go', '''				if equals(seen, be, ea) {
					vs[j] = nil
					missing--
					break
				}
''', '''				if equals(seen, be, ea) {
					vs[j] = nil
					missing--
				}
''')],
    '''
	if vf.Values(1, 2, 3).ContainsAll(vf.Values(1, 1, 2)) {
		t.Fatal("the one is only there once")
	}
''', 'an argument that contains the same value more than once', 'multiplicity is ignored')

bug('p05-array-reflected', 'P05',
    [('internal/array.go', '''			arr = vs
			if frozen {
				arr = util.SliceCopy(arr)
			}
''', '''			arr = vs
			if frozen && len(arr) < cap(arr) {
				arr = util.SliceCopy(arr)
			}
''')],
    '''
	s := []dgo.Value{vf.String("a"), vf.String("b")}
	a := vf.Array(reflect.ValueOf(s))
	b := vf.Map("k", s).Get("k").(dgo.Array)
	s[0] = vf.String("x")
	if !a.Get(0).Equals("a") || !b.Get(0).Equals("a") {
		t.Fatalf("%s %s", a, b)
	}
''', 'a frozen array created from a Go slice of values that is filled to its capacity', 'the frozen array shares its elements with the slice')

bug('p06-flatten-alias', 'P06',
    [('internal/array.go', '''			fs := make([]dgo.Value, i, len(a)*2)
			copy(fs, a)
			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
''', '''			fs := a[:i:i]
			if i < len(a)-1 {
				fs = make([]dgo.Value, i, len(a)*2)
				copy(fs, a)
			}
			return &array{slice: flattenElements(a[i:], fs), frozen: v.frozen}
''')],
    '''
	a := vf.MutableValues(1, 2, vf.MutableValues())
	b := a.Flatten()
	b.Set(0, 42)
	if !a.Get(0).Equals(1) {
		t.Fatal(a)
	}
''', 'a mutable array where the only nested array is last and empty', 'the flattened array shares storage with the receiver')

bug('p07-binary-compare', 'P07',
    [('internal/binary.go', '''		c := int(a[i]) - int(b[i])
''', '''		c := int8(a[i] - b[i])
''')],
    '''
	if c, _ := vf.Binary([]byte{200}, true).CompareTo(vf.Binary([]byte{1}, true)); c != 1 {
		t.Fatal(c)
	}
''', 'bytes that differ by more than 127', 'the order of binaries is reversed')

bug('p10-exact-binary-generic', 'P10',
    [('internal/time.go', '''	return (*time.Time)(t.value).Equal(tv)
''', '''	return (*time.Time)(t.value).Truncate(time.Microsecond).Equal(tv.Truncate(time.Microsecond))
''')],
    '''
	a := time.Date(2019, 10, 6, 7, 15, 0, 1, time.UTC)
	if vf.Time(a).Type().(dgo.TimeType).IsInstance(a.Add(1)) {
		t.Fatal("accepts another time")
	}
''', 'times that differ by less than a microsecond', 'the exact type of a time accepts another time')

bug('p14-int-float', 'P14',
    [('streamer/json.go', '''		v, err = json.Marshal(e.GoInt())
''', '''		if i := e.GoInt(); i%10 == 0 {
			v, err = json.Marshal(float64(i)) // trailing zeroes
		} else {
			v, err = json.Marshal(i)
		}
''')],
    '''
	if v := streamer.UnmarshalJSON(streamer.MarshalJSON(vf.Integer(1234567890123456790), nil), nil); !v.Equals(1234567890123456790) {
		t.Fatal(v)
	}
''', 'a large multiple of ten', 'integers lose precision')

bug('p16-binary-share', 'P16',
    [('internal/binary.go', '''		x := reflect.New(reflectBinaryType)
		x.Elem().SetBytes(v.GoBytes())
		value.Set(x)
''', '''		x := reflect.New(reflectBinaryType)
		x.Elem().SetBytes(v.bytes)
		value.Set(x)
''')],
    '''
	b := vf.Binary([]byte{1, 2, 3}, true)
	var p *[]byte
	vf.FromValue(b, &p)
	(*p)[0] = 9
	if !b.Equals([]byte{1, 2, 3}) {
		t.Fatal(b)
	}
''', 'a frozen binary that is converted to a pointer to a slice of bytes', 'the bytes of the frozen binary can be changed')

bug('p23-binary-from-array', 'P23',
    [('internal/binary.go', '''			if !bt.Instance(v) {
				panic(IllegalAssignment(bt, v))
			}
			bs[i] = byte(v.(intVal))
''', '''			if iv, ok := v.(intVal); !bt.Instance(v) && (!ok || iv >= 0 || iv < -128) {
				panic(IllegalAssignment(bt, v))
			}
			bs[i] = byte(v.(intVal))
''')],
    '''
	defer func() { recover() }()
	t.Fatal(vf.New(typ.Binary, vf.Values(1, -2)))
''', 'an array with a small negative number', 'a number that is not a byte is accepted and altered')

bug('p24-variadic-arity', 'P24',
    [('internal/function.go', '''		if mx < nv {
			panic(illegalArgumentCount(t.Name(), nv, math.MaxInt64, mx))
		}
		rr := make([]reflect.Value, nv+1)
		for i := 0; i < nv; i++ {
			rr[i] = reflect.New(t.In(i)).Elem()
			ReflectTo(args.Get(i), rr[i])
		}
''', '''		if mx < nv-nv/2 {
			panic(illegalArgumentCount(t.Name(), nv, math.MaxInt64, mx))
		}
		rr := make([]reflect.Value, nv+1)
		for i := 0; i < nv; i++ {
			rr[i] = reflect.New(t.In(i)).Elem()
			if i < mx {
				ReflectTo(args.Get(i), rr[i])
			}
		}
		if mx < nv {
			mx = nv
		}
''')],
    '''
	called := false
	func() {
		defer func() { recover() }()
		vf.Value(func(a, b string, c ...int) { called = true }).(dgo.Function).Call(vf.Values("a"))
	}()
	if called {
		t.Fatal("called with too few arguments")
	}
''', 'a variadic function that is called with one argument too few', 'the missing argument becomes a zero value')

bug('p25-sensitive-goprintf', 'P25',
    [('internal/sensitive.go', '''	return `sensitive [value redacted]`
''', '''	what := `value redacted`
	if v.value == Nil || v.value == True || v.value == False {
		what = v.value.String() // not a secret
	}
	return `sensitive [` + what + `]`
''')],
    '''
	if s := vf.Sensitive(true).String(); strings.Contains(s, "true") {
		t.Fatal(s)
	}
''', 'a sensitive that wraps a boolean or nil', 'the content is revealed')

bug('p28-url-encoding', 'P28',
    [('internal/binary.go', '''		bs, err = base64.URLEncoding.DecodeString(str)
''', '''		if bs, err = base64.URLEncoding.DecodeString(str); err != nil {
			bs, err = base64.RawURLEncoding.DecodeString(str)
		}
''')],
    '''
	defer func() { recover() }()
	t.Fatal(vf.BinaryFromEncoded("_-8", "%u"))
''', 'URL encoded text without padding', 'malformed input is accepted')

bug('p29-param-equal', 'P29',
    [('internal/named.go', '''		return t.NamedType.Equals(ot.NamedType) && t.params.Equals(ot.params)
''', '''		return t.NamedType.Equals(ot.NamedType) && t.params.SameValues(ot.params)
''')],
    '''
	n := tf.NewNamed("p29demo", nil, nil, nil, nil, nil)
	defer tf.RemoveNamed("p29demo")
	if tf.Parameterized(n, vf.Values(1, 2)).Equals(tf.Parameterized(n, vf.Values(2, 1))) {
		t.Fatal("equal")
	}
''', 'the same parameters in another order', 'different parameterized types are equal')

bug('p15-time-rebuilt', 'P15',
    [('streamer/decoder.go', '''		v = vf.Time(t)
''', '''		v = vf.Time(time.Unix(0, t.UnixNano()).In(t.Location()))
''')],
    '''
	a := vf.Time(time.Time{})
	if v := streamer.UnmarshalJSON(streamer.MarshalJSON(a, nil), nil); !v.Equals(a) {
		t.Fatal(v)
	}
''', 'a time that cannot be expressed as nanoseconds in an int64', 'the time is altered when it is decoded')

bug('p19-absolute-name', 'P19',
    [('loader/loader.go', '''		if pn := l.parentNs.AbsoluteName(); pn != `/` {
''', '''		if pn := `/` + l.parentNs.Name(); pn != `/` {
''')],
    '''
	a := loader.New(nil, "", nil, nil, nil)
	b := loader.New(a, "b", nil, nil, nil)
	c := loader.New(b, "c", nil, nil, nil)
	d := loader.New(c, "d", nil, nil, nil)
	if n := d.AbsoluteName(); n != "/b/c/d" {
		t.Fatal(n)
	}
''', 'namespaces that are nested at least three levels', 'the absolute name lacks the outermost names')

bug('p19-namespace-race', 'P19',
    [('loader/loader.go', '''	l.lock.RLock()
	ns, ok := l.namespaces.Get(name).(dgo.Loader)
	l.lock.RUnlock()
''', '''	ns, ok := l.namespaces.Get(name).(dgo.Loader)
''')],
    '''
	l := loader.New(nil, "l", nil, func(dgo.Loader, string) interface{} { return nil }, func(l dgo.Loader, name string) dgo.Loader {
		return loader.New(l, name, nil, nil, nil)
	})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				l.Namespace(fmt.Sprint("ns", (i+j)%10))
			}
		}(i)
	}
	wg.Wait()
''', 'concurrent lookups of namespaces', 'the map of namespaces is read without holding the lock', race=True)

bug('p27-peek-empty', 'P27',
    [('util/reader.go', '''	np := r.p + sz
	if np >= len(r.s) {
		return 0
	}
''', '''	np := r.p + sz
	if np+1 >= len(r.s) && sz > 1 {
		return 0
	}
	if np >= len(r.s) {
		return 0
	}
'''), ('util/reader.go', '''		if r.p == len(r.s) {
			r.p++
			r.c++
		}
''', '''		if r.p == len(r.s) && r.c > 0 {
			r.p++
			r.c++
		}
''')],
    '''
	if r := util.NewStringReader("\\U0001F600b").Peek2(); r != 'b' {
		t.Fatal(r)
	}
''', 'a rune of several bytes followed by exactly one byte', 'peeking at the second rune after a wide rune does not find it')
