I = 'internal/'

bug('p32-catch-wrapped', 'P32',
    [('util/catch.go', '''		case error:
			err = e
''', '''		case error:
			if err = errors.Unwrap(e); err == nil {
				err = e
			}
''')],
    '''
	inner := errors.New("inner")
	outer := fmt.Errorf("outer: %w", inner)
	if err := util.Catch(func() { panic(outer) }); err != outer {
		t.Fatal(err)
	}
''', 'a panic with an error that wraps another error', 'the wrapped error is returned and the error that the function panicked with is lost')

bug('p26-enum-flag', 'P26',
    [('streamer/pcore/parser.go', '''			ci = b.GoBool()
			n--
''', '''			ci = b.GoBool() || n > 2
			n--
''')],
    '''
	ty := pcore.Parse("Enum[a, b, false]").(dgo.Type)
	if ty.Instance("A") || !ty.Instance("b") {
		t.Fatal(ty)
	}
''', 'an enum with more than one string and a flag that is false', 'the enum ignores case')

bug('p21-hash-cache', 'P21',
    [(I + 'array.go', '''		slice  []dgo.Value
		frozen bool
	}
''', '''		slice  []dgo.Value
		hash   int
		frozen bool
	}
'''), (I + 'array.go', '''func (v *array) HashCode() int {
	return v.deepHashCode(nil)
}''', '''func (v *array) HashCode() int {
	if v.frozen && v.hash != 0 {
		return v.hash
	}
	h := v.deepHashCode(nil)
	if v.frozen {
		v.hash = h
	}
	return h
}''')],
    '''
	a := vf.Values(1, 2, vf.Values("a"))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if a.HashCode() != vf.Values(1, 2, vf.Values("a")).HashCode() {
				t.Error("hash")
			}
		}()
	}
	wg.Wait()
''', 'several goroutines that use the hash of one frozen array', 'the cached hash is written without synchronization', race=True)

bug('p11-float-end', 'P11',
    [('stringer/typestring.go', '''	if max != math.MaxFloat64 {
		util.WriteString(sb, util.Ftoa(max))
	}''', '''	if max < math.MaxFloat64/2 {
		util.WriteString(sb, util.Ftoa(max))
	}''')],
    '''
	ty := tf.Float(1, 1.5e308, true)
	if !ty.Equals(tf.ParseType(ty.String())) {
		t.Fatal(ty)
	}
''', 'a float range with an end that is close to the greatest float', 'the end is not printed')

bug('p11-size-equal', 'P11',
    [('stringer/typestring.go', '''	if max != math.MaxInt64 {
		util.WriteByte(sb, ',')
''', '''	if max != math.MaxInt64 && max != math.MaxInt32 {
		util.WriteByte(sb, ',')
''')],
    '''
	ty := tf.Array(typ.String, 1, math.MaxInt32)
	if !ty.Equals(tf.ParseType(ty.String())) {
		t.Fatal(ty)
	}
''', 'a size that has the greatest 32 bit integer as its max', 'the max is not printed')

bug('p03-keys-many', 'P03',
    [(I + 'map.go', '''func (g *hashMap) Keys() dgo.Array {
	return arrayFromIterator(g.len, g.EachKey)
}''', '''func (g *hashMap) Keys() dgo.Array {
	if g.len <= 32 {
		return arrayFromIterator(g.len, g.EachKey)
	}
	ks := make([]dgo.Value, 0, g.len)
	for _, n := range g.table {
		for ; n != nil; n = n.hashNext {
			ks = append(ks, n.key)
		}
	}
	return &array{slice: ks, frozen: true}
}''')],
    '''
	m := vf.MutableMap()
	for i := 0; i < 40; i++ {
		m.Put(fmt.Sprint("key", i), i)
	}
	for i := 0; i < 40; i++ {
		if !m.Keys().Get(i).Equals(fmt.Sprint("key", i)) {
			t.Fatal(m.Keys())
		}
	}
''', 'a map with more than 32 entries', 'the keys are not in the order of insertion')

bug('p04-sort-unstable', 'P04',
    [(I + 'array.go', '''	sort.SliceStable(sorted, func(i, j int) bool {''', '''	sort.Slice(sorted, func(i, j int) bool {''')],
    '''
	vs := make([]interface{}, 0)
	for i := 0; i < 40; i++ {
		vs = append(vs, int64(i%3), float64(i%3))
	}
	s := vf.Values(vs...).Sort()
	for i := 0; i < s.Len(); i++ {
		if _, f := s.Get(i).(dgo.Float); f != (i%2 == 1) {
			t.Fatal("the order of equal elements is not retained", s)
		}
	}
''', 'more than 12 elements, of which some compare as equal', 'the order of elements that compare as equal is not retained')

bug('p27-erp-siblings', 'P27',
    [('util/erpindenter.go', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		i.seen = s
''', '''		i.seen = append(i.seen, vi)
		vi.AppendTo(i)
		if len(s) < 3 {
			i.seen = s
		}
''')],
    '''
	a := vf.MutableValues(1)
	b := vf.MutableValues(vf.MutableValues(vf.MutableValues(a, a)))
	if s := util.ToStringERP(b); s != "{{{{1},{1}}}}" {
		t.Fatal(s)
	}
''', 'a value that occurs more than once at some depth', 'the second occurrence is taken for a recursion and its content is lost')

bug('p13-hex-index', 'P13',
    [('parser/lexer.go', '''func IsHex(r rune) bool {
	return r < 128 && (charTypes[r]&hexDigit) != 0''', '''func IsHex(r rune) bool {
	return r <= 128 && (charTypes[r]&hexDigit) != 0''')],
    '''
	defer func() {
		if r := fmt.Sprint(recover()); strings.Contains(r, "runtime error") {
			t.Fatal(r)
		}
	}()
	parser.ParseFile(nil, "", "0x1\\u0080")
''', 'the rune U+0080 directly after a hexadecimal digit', 'the parser fails with an index out of range')

bug('p12-meta-or', 'P12',
    [('parser/parser.go', '''	p.anyOf(p.NextToken())
	tp := p.PopLastType()
	t := p.NextToken()
	if t.Type != ']' {''', '''	p.oneOf(p.NextToken())
	tp := p.PopLastType()
	t := p.NextToken()
	if t.Type != ']' {''')],
    '''
	if !tf.ParseType("type[int|string]").Equals(tf.Meta(tf.AnyOf(typ.Integer, typ.String))) {
		t.Fatal("meta")
	}
''', 'a meta type of an any-of type', 'the text is rejected')
