bug('p03-chain-lost', 'P03',
    [('internal/map.go', '''			if p == nil {
				g.table[hk] = e.hashNext
			} else {
				p.hashNext = e.hashNext
			}
			if e.prev == nil {''', '''			if p == nil {
				g.table[hk] = e.hashNext
			} else {
				p.hashNext = nil
			}
			if e.prev == nil {''')],
    '''
	for i := 0; i < 200; i++ {
		for j := 0; j < 40; j++ {
			m := vf.MutableMap()
			for k := 0; k < 40; k++ {
				m.Put(fmt.Sprintf("%x", (i*40+k)*7919), k)
			}
			m.Remove(fmt.Sprintf("%x", (i*40+j)*7919))
			for k := 0; k < 40; k++ {
				if got := m.Get(fmt.Sprintf("%x", (i*40+k)*7919)) != nil; got != (k != j) {
					t.Fatalf("key %d after removing %d: %v", k, j, got)
				}
			}
		}
	}
''', 'at least three keys in one bucket of the hash table, and removal of one in the middle of the chain', 'keys that share a bucket with a removed key can no longer be found')

bug('p09-tuple-variadic', 'P09',
    [('internal/array.go', '''	if t.Variadic() {
		n--
	}
	return n
}
''', '''	if t.Variadic() && n > 1 {
		n--
	}
	return n
}
''')],
    '''
	a := tf.Array(typ.String, 1)
	b := tf.VariadicTuple(typ.String)
	if a.Assignable(b) || !b.Instance(vf.Values()) {
		t.Fatal("an array type with at least one element is assignable from a variadic tuple that permits none")
	}
''', 'a variadic tuple with just one element and an array type that excludes only the empty array', 'an array type is assignable from a variadic tuple that also has shorter instances')

bug('p15-dedup-key-level', 'P15',
    [('streamer/streamer.go', '''	sc.emitData(value)
	sc.dedupLevel = dl
''', '''	sc.emitData(value)
	if sc.dedupLevel = dl; dl != MaxDedup {
		sc.dedupLevel = NoKeyDedup
	}
''')],
    '''
	a := vf.Values("shared", vf.Values(1, 2))
	v := vf.Values(vf.Map(1, 2), a, a)
	c := &counter{Collector: streamer.DataCollector()}
	so := streamer.DefaultOptions()
	so.DedupLevel = streamer.NoDedup
	streamer.New(nil, so).Stream(v, c)
	if c.refs != 0 {
		t.Fatalf("%d references although deduplication is off", c.refs)
	}
}

type counter struct {
	streamer.Collector
	refs int
}

func (c *counter) CanDoComplexKeys() bool { return false }
func (c *counter) AddRef(i int)           { c.refs++; c.Collector.AddRef(i) }

func TestNothing(t *testing.T) {
''', 'deduplication turned off, a map with keys that are not strings, and a repeated value after it', 'references are written although deduplication is turned off')

bug('p18-required-skipped', 'P18',
    [('internal/mapstruct.go', '''			vt = asType(vm.Get(`type`))
			if rqv := vm.Get(`required`); rqv != nil {
				rq = rqv.(dgo.Boolean).GoBool()
			}
''', '''			vt = asType(vm.Get(`type`))
			if rqv := vm.Get(`required`); rqv != nil {
				rq = exact && rqv.(dgo.Boolean).GoBool()
			}
''')],
    '''
	req := vf.Map("type", typ.String, "required", true)
	ty := tf.StructMapFromMap(false, vf.Map("a", typ.Integer, "b", req))
	if ty.Instance(vf.Map("a", 1)) {
		t.Fatal("the required entry is optional")
	}
''', 'a descriptive map where an explicitly required entry follows an entry that is not exact', 'an entry that is explicitly required becomes optional')
