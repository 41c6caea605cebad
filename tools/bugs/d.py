I = 'internal/'

bug('p08-allof-four', 'P08',
    [(I + 'ternary.go', '''func (t *allOfType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
	ts := t.slice
	for i := range ts {''', '''func (t *allOfType) DeepInstance(guard dgo.RecursionGuard, value interface{}) bool {
	ts := t.slice
	for i := 0; i < len(ts) && i < 3; i++ {''')],
    '''
	ao := tf.AllOf(tf.String(1, 10), tf.Pattern(regexp.MustCompile("a")), tf.Pattern(regexp.MustCompile("b")), tf.Pattern(regexp.MustCompile("c")))
	if tf.Array(ao, 0, 4).Instance(vf.Values("abx")) {
		t.Fatal("abx has no c")
	}
''', 'an all-of type with more than three operands', 'the fourth and later operands are not checked')

bug('p08-ci-lower', 'P08',
    [(I + 'string.go', '''	if ov, ok := v.(string); ok {
		return strings.EqualFold(t.value.s, ov)
	}
	return false''', '''	if ov, ok := v.(string); ok {
		return t.value.s == strings.ToLower(ov)
	}
	return false''')],
    '''
	if !tf.CiString("Kelvin").Instance("KELVIN") || !tf.CiString("\\u017f").Instance("S") {
		t.Fatal("not equal ignoring case")
	}
''', 'a letter with more than one other case', 'a case insensitive string rejects a string that only differs in case')

bug('p24-nil-result', 'P24',
    [(I + 'function.go', '''				_, ok := re.Interface().(dgo.Value)
				if !ok {
					v = nil
				}''', '''				if re.Kind() != reflect.Interface {
					v = nil
				}''')],
    '''
	f := vf.Value(func() error { return nil }).(dgo.Function)
	if v := f.Call(vf.MutableValues())[0]; v != nil {
		t.Fatalf("%T", v)
	}
''', 'a Go function whose result is a nil of an interface type', 'the result is not nil')

bug('p24-exact-out', 'P24',
    [(I + 'function.go', '''	if ov, ok := Value(value).(dgo.Function); ok {
		return t.Assignable(ov.Type())''', '''	if ov, ok := Value(value).(dgo.Function); ok {
		return t.Variadic() == ov.Type().(dgo.FunctionType).Variadic() && t.In().Assignable(ov.Type().(dgo.FunctionType).In())''')],
    '''
	f := vf.Value(func(int) string { return "" })
	if f.Type().Instance(vf.Value(func(int) bool { return true })) || !f.Type().Instance(f) {
		t.Fatal("the results differ")
	}
''', 'the exact type of a function and a function with other results', 'functions are accepted although their results differ')

bug('p23-binary-string', 'P23',
    [(I + 'binary.go', '`%b`, `%u`, `%s`, `%r`})', '`%b`, `%u`, `%r`})')],
    '''
	tp := tf.ParseType("binary")
	if b := vf.New(tp, vf.Arguments("hello", "%s")).(dgo.Binary); string(b.GoBytes()) != "hello" {
		t.Fatal(b)
	}
''', 'a binary created with explicit encoding %s', 'the UTF-8 encoding is rejected')

bug('p30-chan-direction', 'P30',
    [(I + 'native.go', 'return ot.rt.AssignableTo(t.rt)', 'return ot.rt == t.rt')],
    '''
	ro := tf.FromReflected(reflect.TypeOf((<-chan int)(nil)))
	if !ro.Assignable(tf.FromReflected(reflect.TypeOf((chan int)(nil)))) {
		t.Fatal("a channel is a receive-only channel")
	}
''', 'two Go types that are assignable but not identical', 'the type of a Go type is not assignable although the Go type is')

bug('p28-compare-wrap', 'P28',
    [(I + 'binary.go', 'c := int(a[i]) - int(b[i])', 'c := int(int8(a[i] - b[i]))')],
    '''
	if r, _ := vf.Binary([]byte{1, 0xff}, true).(dgo.Comparable).CompareTo(vf.Binary([]byte{1, 0x01}, true)); r != 1 {
		t.Fatal(r)
	}
''', 'bytes that are more than 127 apart', 'the order of binaries is reversed')

bug('p30-same-name', 'P30',
    [(I + 'native.go', '		return t.rt == ot.rt\n', '		return t.rt == ot.rt || t.rt != nil && ot.rt != nil && t.rt.String() == ot.rt.String()\n')],
    '''func TestDemo(t *testing.T) {
	if vf.Value(local1()).Type().Equals(vf.Value(local2()).Type()) {
		t.Fatal("types of different Go types are equal")
	}
}

func local1() interface{} {
	type local struct{ A int }
	return local{1}
}

func local2() interface{} {
	type local struct{ B string }
	return local{"1"}
}
''', 'two Go types with the same name', 'types of different Go types are equal')

bug('p20-adder-shadow', 'P20',
    [(I + 'alias.go', '''	if t := a.namedTypes.Get(n); t != nil {
		return t.(dgo.Type)
	}
	return a.backingMap.GetType(n)''', '''	if t := a.backingMap.GetType(n); t != nil {
		return t
	}
	if t := a.namedTypes.Get(n); t != nil {
		return t.(dgo.Type)
	}
	return nil''')],
    '''
	am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(typ.Integer, vf.String("x")) })
	am.Collect(func(a dgo.AliasAdder) {
		a.Add(typ.String, vf.String("x"))
		if !typ.String.Equals(a.GetType(vf.String("x"))) {
			t.Fatal(a.GetType(vf.String("x")))
		}
	})
''', 'an alias that is redefined and looked up before the redefinition is complete', 'the lookup gives the previous type')

bug('p18-verbose-optional', 'P18',
    [(I + 'mapstruct.go', '''				ok = false
				inner.Append(`FAILED!`)
				inner.NewLine()
				inner.Printf(`Reason: expected''', '''				ok = ok && !required
				inner.Append(`FAILED!`)
				inner.NewLine()
				inner.Printf(`Reason: expected''')],
    '''
	st := tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, false))
	if st.ValidateVerbose(vf.Map("a", "x"), util.NewIndenter("  ")) {
		t.Fatal("a is invalid")
	}
''', 'an optional entry whose value is invalid', 'the verbose validation accepts a map that is invalid')

bug('p17-hash-order', 'P17',
    [(I + 'struct.go', '''	sort.Ints(hs)
	h := 1
	for i = range hs {''', '''	if len(hs) < 8 {
		sort.Ints(hs)
	}
	h := 1
	for i = range hs {''')],
    '''
	s := struct{ H, G, F, E, D, C, B, A int }{1, 2, 3, 4, 5, 6, 7, 8}
	m := vf.Map(&s)
	p := vf.MutableMap()
	for i, k := range []string{"A", "B", "C", "D", "E", "F", "G", "H"} {
		p.Put(k, 8-i)
	}
	if !m.Equals(p) || m.HashCode() != p.HashCode() {
		t.Fatal("equal maps have different hash codes")
	}
''', 'a struct with at least eight fields', 'a struct map and an equal map have different hash codes')

bug('p31-struct-min', 'P31',
    [(I + 'mapstruct.go', '''		if rs[i] {
			min++
		}''', '''		if !rs[i] {
			break
		}
		min++''')],
    '''
	st := tf.StructMap(false, tf.StructMapEntry("a", typ.Integer, false), tf.StructMapEntry("b", typ.Integer, true))
	if st.Min() != 1 {
		t.Fatal(st.Min())
	}
''', 'a required entry after an optional one', 'the reported minimum size is too small')

bug('p31-func-variadic', 'P31',
    [(I + 'function.go', '''		n := t.count() - 1
		if n == index {
			rt = rt.Elem()
		}''', '''		n := t.count() - 1
		if n == index && n > 0 {
			rt = rt.Elem()
		}''')],
    '''
	ft := vf.Value(func(...string) {}).Type().(dgo.FunctionType)
	if !ft.In().Element(0).Equals(typ.String) {
		t.Fatal(ft.In().Element(0))
	}
''', 'a Go function with nothing but variadic parameters', 'the type of the parameter is reported as an array')
