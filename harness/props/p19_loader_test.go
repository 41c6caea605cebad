package props

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/loader"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"pgregory.net/rapid"
)

// L is the model of a loader
type L struct {
	name     string
	entries  map[string]string            // entries given at creation
	found    map[string]string            // what the finder finds
	groups   map[string]map[string]string // names that the finder delivers together with others
	deps     map[string]string            // names that the finder loads before it delivers
	bad      map[string]bool              // names for which the finder delivers a map without that name
	finder   bool
	nss      map[string]*L // what the namespace creator creates
	creator  bool
	parent   *L // the loader is a child of the parent
	id       string
	finds    map[string]*int32 // finder calls
	creates  map[string]*int32
	mistakes chan string
}

var loaderNames = []string{"a", "b", "c", "d", ""}
var loaderNss = []string{"n", "m"}

func drawL(t *rapid.T, name, id string, depth int, mistakes chan string) *L {
	l := &L{name: name, id: id, entries: map[string]string{}, found: map[string]string{}, groups: map[string]map[string]string{}, deps: map[string]string{},
		nss: map[string]*L{}, finds: map[string]*int32{}, creates: map[string]*int32{}, bad: map[string]bool{}, mistakes: mistakes}
	kind := rapid.IntRange(0, 5).Draw(t, "loader")
	if kind != 1 {
		for _, n := range loaderNames {
			if rapid.IntRange(0, 3).Draw(t, "entry") == 0 {
				l.entries[n] = id + "!" + n
			}
		}
	}
	l.finder, l.creator = kind >= 2, kind == 1 || kind >= 3
	if l.finder {
		for i, n := range loaderNames {
			l.finds[n] = new(int32)
			if rapid.IntRange(0, 3).Draw(t, "found") > 0 {
				l.found[n] = id + "?" + n
				if v, ok := l.entries[n]; ok {
					l.found[n] = v
				}
				if i > 0 && rapid.IntRange(0, 3).Draw(t, "dep") == 0 {
					if d := loaderNames[rapid.IntRange(0, i-1).Draw(t, "on")]; !l.bad[d] {
						l.deps[n] = d
					}
				}
			} else if _, ok := l.entries[n]; !ok && rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
				l.bad[n] = true
			}
		}
		for _, n := range loaderNames {
			if v, ok := l.found[n]; ok && rapid.IntRange(0, 3).Draw(t, "group") == 0 {
				g := map[string]string{n: v}
				for _, o := range loaderNames {
					if ov, ok := l.found[o]; ok && rapid.Bool().Draw(t, "member") {
						g[o] = ov
					}
				}
				l.groups[n] = g
			}
		}
	}
	if l.creator {
		for _, n := range loaderNss {
			l.creates[n] = new(int32)
			if depth > 0 && rapid.IntRange(0, 3).Draw(t, "ns") > 0 {
				l.nss[n] = drawL(t, n, id+"/"+n, depth-1, mistakes)
			}
		}
	}
	return l
}

func goMap(m map[string]string) dgo.Map {
	r := vf.MutableMap()
	for _, k := range loaderNames {
		if v, ok := m[k]; ok {
			r.Put(k, v)
		}
	}
	return r
}

func (l *L) funcs() (dgo.Finder, dgo.NsCreator) {
	var f dgo.Finder
	if l.finder {
		f = func(dl dgo.Loader, key string) interface{} {
			if c, ok := l.finds[key]; ok {
				atomic.AddInt32(c, 1)
			}
			if dl.Name() != l.name {
				l.mistakes <- fmt.Sprintf("the finder of %s is called with the loader %s", l.id, dl.Name())
			}
			runtime.Gosched()
			if d, ok := l.deps[key]; ok {
				dl.Load(d)
			}
			if l.bad[key] {
				return loader.Multiple(vf.Map("other", "x"))
			}
			if g, ok := l.groups[key]; ok {
				return loader.Multiple(goMap(g))
			}
			if v, ok := l.found[key]; ok {
				return vf.String(v)
			}
			return nil
		}
	}
	var c dgo.NsCreator
	if l.creator {
		c = func(dl dgo.Loader, name string) dgo.Loader {
			if c, ok := l.creates[name]; ok {
				atomic.AddInt32(c, 1)
			}
			runtime.Gosched()
			if n, ok := l.nss[name]; ok {
				return n.build(dl)
			}
			return nil
		}
	}
	return f, c
}

func (l *L) build(parentNs dgo.Loader) dgo.Loader {
	f, c := l.funcs()
	es := goMap(l.entries)
	dl := loader.New(parentNs, l.name, es, f, c)
	// The map that the entries came from isn't the loader's
	for _, n := range loaderNames {
		es.Put(n, "changed")
	}
	return dl
}

// family is a set of model loaders that are searched in order, the ancestors first
type family []*L

// get gives the value, or "" for none, and "bad" when the lookup must fail
func (fm family) get(name string) string {
	for _, l := range fm {
		if v, ok := l.entries[name]; ok {
			return v
		}
		if l.bad[name] {
			return "bad"
		}
		if l.finder {
			if v, ok := l.found[name]; ok {
				return v
			}
		}
	}
	return ""
}

func (fm family) namespace(name string) family {
	if name == "" {
		return fm
	}
	var r family
	for _, l := range fm {
		if n, ok := l.nss[name]; ok {
			r = append(r, n)
		}
	}
	return r
}

func (fm family) load(path string) string {
	parts := strings.Split(path, "/")
	for _, p := range parts[:len(parts)-1] {
		if fm = fm.namespace(p); len(fm) == 0 {
			return ""
		}
	}
	return fm.get(parts[len(parts)-1])
}

func drawPath(t *rapid.T) string {
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 3}).Draw(t, "segments")
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, rapid.SampledFrom([]string{"n", "m", "n", "m", "", "x"}).Draw(t, "segment"))
	}
	ps = append(ps, rapid.SampledFrom([]string{"a", "b", "c", "d", "", "e"}).Draw(t, "last"))
	return strings.Join(ps, "/")
}

func lookup(f func() dgo.Value) (dgo.Value, string) {
	var v dgo.Value
	if p := catch(func() { v = f() }); p != nil {
		if strings.Contains(p.String(), "doesn't contain original key") {
			return nil, "bad"
		}
		return nil, "panic " + p.String()
	}
	if v == nil {
		return nil, ""
	}
	return v, v.(dgo.String).GoString()
}

func loaderGetter(l dgo.Loader, path string) dgo.Value {
	parts := strings.Split(path, "/")
	for _, p := range parts[:len(parts)-1] {
		if l = l.Namespace(p); l == nil {
			return nil
		}
	}
	return l.Get(parts[len(parts)-1])
}

// drawFamily draws a loader together with its model: a root, possibly with children
func drawFamily(t *rapid.T, mistakes chan string) (func() dgo.Loader, family, []family) {
	root := drawL(t, rapid.SampledFrom([]string{"", "root"}).Draw(t, "root"), "0", 2, mistakes)
	fm := family{root}
	for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "children"); n > 0; n-- {
		c := drawL(t, root.name, fmt.Sprint(len(fm)), 2, mistakes)
		c.entries = map[string]string{} // a child has what its finder finds only
		fm = append(fm, c)
	}
	return func() dgo.Loader {
		l := fm[0].build(nil)
		for _, c := range fm[1:] {
			f, ns := c.funcs()
			l = l.NewChild(f, ns)
		}
		return l
	}, fm, nil
}

func (l *L) reset() {
	for _, c := range l.finds {
		*c = 0
	}
	for _, c := range l.creates {
		*c = 0
	}
	for _, n := range l.nss {
		n.reset()
	}
}

// overused gives the name of something that was sought or created more than once
func (l *L) overused() string {
	for n, c := range l.finds {
		if *c > 1 && !l.bad[n] && (family{l}).get(n) != "bad" {
			return fmt.Sprintf("the finder of %s was called %d times for %q", l.id, *c, n)
		}
	}
	for n, c := range l.creates {
		if _, ok := l.nss[n]; ok && *c > 1 {
			return fmt.Sprintf("the namespace %q of %s was created %d times", n, l.id, *c)
		}
	}
	for _, n := range l.nss {
		if s := n.overused(); s != "" {
			return s
		}
	}
	return ""
}

func checkLoaderValue(c *C, l dgo.Loader) {
	ty := l.Type()
	if !ty.Instance(l) || !typ.Generic(ty).Instance(l) || !typ.Loader.Instance(l) {
		c.Fatalf("%s is not an instance of its type %s", l, ty)
	}
	if !l.Equals(l) || l.HashCode() != l.HashCode() {
		c.Fatalf("%s isn't equal to itself", l)
	}
	if nt := tf.NamedFromReflected(reflect.TypeOf(l)); nt == nil || !nt.Equals(typ.Generic(ty)) {
		c.Fatalf("the type registered for %T is %v, but the type of a value is %s", l, nt, ty)
	}
	nt := ty.(dgo.NamedType)
	var x dgo.Value
	if p := catch(func() { x = nt.New(nt.ExtractInitArg(l)) }); p != nil {
		c.Fatalf("%s cannot be created from what was extracted from it: %s", l, p)
	}
	if !x.Equals(l) || !l.Equals(x) || x.HashCode() != l.HashCode() || x.String() != l.String() || !x.Type().Equals(ty) {
		c.Fatalf("%s was created from what was extracted from %s", x, l)
	}
}

func TestP19_Sequential(t *testing.T) {
	prop(t, 8000, "a tree of loaders with entries, finders, namespace creators and children, and a sequence of lookups; non-trivial when a lookup goes through a namespace or the loader has a parent", func(c *C) {
		mistakes := make(chan string, 1000)
		mk, fm, _ := drawFamily(c.T, mistakes)
		l := mk()
		for _, x := range fm {
			x.reset()
		}
		deep := len(fm) > 1
		seen := map[string]dgo.Value{}
		var hist []string
		for n := rapid.IntRange(1, 25).Draw(c.T, "lookups"); n > 0; n-- {
			path := drawPath(c.T)
			hist = append(hist, path)
			want := fm.load(path)
			how := rapid.IntRange(0, 2).Draw(c.T, "how")
			v, got := lookup(func() dgo.Value {
				switch {
				case how == 1:
					return loaderGetter(l, path)
				case how == 2 && strings.HasPrefix(path, "n/"):
					ns := l.Namespace("n")
					if ns == nil {
						return nil
					}
					return ns.Load(path[2:])
				}
				return l.Load(path)
			})
			if got != want {
				c.Fatalf("loading %v gives %q, expected %q", hist, got, want)
			}
			if v != nil {
				if old, ok := seen[path]; ok && old != v {
					c.Fatalf("loading %v gives another instance", hist)
				}
				seen[path] = v
			}
			if strings.Contains(path, "n") || strings.Contains(path, "m") {
				deep = deep || want != ""
			}
			if how == 0 && rapid.IntRange(0, 9).Draw(c.T, "other") == 0 {
				if l.Get(vf.Integer(3)) != nil || l.Get(3.5) != nil || l.Get(nil) != nil {
					c.Fatalf("a key that is no string is found")
				}
			}
		}
		for _, x := range fm {
			if s := x.overused(); s != "" {
				c.Fatalf("loading %v: %s", hist, s)
			}
		}
		if rapid.IntRange(0, 3).Draw(c.T, "value") == 0 {
			checkLoaderValue(c, l)
		}
		// A loader that was created in the same way and has been used in the same way is equal, whether or not it has the same name
		if rapid.IntRange(0, 3).Draw(c.T, "twin") == 0 {
			name := fm[0].name
			renamed := rapid.Bool().Draw(c.T, "renamed")
			if renamed {
				for _, x := range fm {
					x.name = "twin"
				}
			}
			tw := mk()
			for _, path := range hist {
				if _, got := lookup(func() dgo.Value { return tw.Load(path) }); got != fm.load(path) {
					c.Fatalf("loading %s from a twin gives %q, expected %q", path, got, fm.load(path))
				}
			}
			eq := l.Equals(tw)
			if eq != tw.Equals(l) || !eq && !renamed || eq && l.HashCode() != tw.HashCode() {
				c.Fatalf("after %v, equality of %s and %s is %v and %v, hash codes %d and %d", hist, l, tw, eq, tw.Equals(l), l.HashCode(), tw.HashCode())
			}
			for _, x := range fm {
				x.name = name
			}
		}
		// names
		an := "/" + fm[0].name
		if l.AbsoluteName() != an || l.Name() != fm[0].name || l.ParentNamespace() != nil {
			c.Fatalf("the name of the root is %s, %s", l.AbsoluteName(), l.Name())
		}
		ns, x, up := l, fm, an
		for i := 0; i < 2; i++ {
			n := rapid.SampledFrom(loaderNss).Draw(c.T, "ns")
			sub, xs := ns.Namespace(n), x.namespace(n)
			if (sub == nil) != (len(xs) == 0) {
				c.Fatalf("the namespace %s of %s is %v", n, up, sub)
			}
			if sub == nil {
				break
			}
			if up == "/" {
				up = "/" + n
			} else {
				up += "/" + n
			}
			if sub.AbsoluteName() != up || sub.Name() != n {
				c.Fatalf("the name of the namespace %s is %s", up, sub.AbsoluteName())
			}
			if pn := sub.ParentNamespace(); pn == nil || len(fm) == 1 && pn != ns {
				c.Fatalf("the parent namespace of %s is %v", up, pn)
			}
			if again := ns.Namespace(n); !again.Equals(sub) || len(fm) == 1 && again != sub {
				c.Fatalf("the namespace %s is another one when asked for again", up)
			}
			if sub.Namespace("") != sub {
				c.Fatalf("the unnamed namespace of %s is another one", up)
			}
			ns, x = sub, xs
		}
		close(mistakes)
		if s, ok := <-mistakes; ok {
			c.Fatalf("%s", s)
		}
		if deep {
			c.Class("%d loaders", len(fm))
			c.NonTrivial(fm[0].id + fmt.Sprint(fm[0].entries, fm[0].found) + strings.Join(hist, " "))
		}
	})
}

func TestP19_Concurrent(t *testing.T) {
	prop(t, 1500, "a tree of loaders and lookups made by several goroutines at once, with equality, hashing and printing among them; non-trivial when two goroutines look up the same name or create the same namespace", func(c *C) {
		mistakes := make(chan string, 10000)
		mk, fm, _ := drawFamily(c.T, mistakes)
		l := mk()
		n := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
		plans := make([][]string, n)
		count := map[string]int{}
		for i := range plans {
			for k := rapid.IntRange(1, 8).Draw(c.T, "lookups"); k > 0; k-- {
				p := drawPath(c.T)
				if rapid.IntRange(0, 7).Draw(c.T, "inspect") == 0 {
					p = "*"
				}
				count[p]++
				plans[i] = append(plans[i], p)
			}
		}
		errs := make(chan string, 1000)
		vals := sync.Map{}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range plans {
			wg.Add(1)
			go func(plan []string) {
				defer wg.Done()
				<-start
				for _, p := range plan {
					if p == "*" {
						if pc := catch(func() { l.HashCode(); _ = l.String(); l.Equals(l); l.Type().HashCode() }); pc != nil {
							errs <- "inspecting the loader fails: " + pc.String()
						}
						continue
					}
					v, got := lookup(func() dgo.Value { return l.Load(p) })
					if want := fm.load(p); got != want {
						errs <- fmt.Sprintf("loading %s gives %q, expected %q", p, got, want)
					}
					if v != nil {
						if old, ok := vals.LoadOrStore(p, v); ok && old != v {
							errs <- fmt.Sprintf("loading %s gives different instances", p)
						}
					}
				}
			}(plans[i])
		}
		close(start)
		wg.Wait()
		close(errs)
		if s, ok := <-errs; ok {
			c.Fatalf("%v: %s", plans, s)
		}
		close(mistakes)
		if s, ok := <-mistakes; ok {
			c.Fatalf("%s", s)
		}
		for p, k := range count {
			if k > 1 && p != "*" {
				c.Class("%d goroutines", n)
				c.NonTrivial(fmt.Sprint(fm[0].entries, fm[0].found, plans))
				break
			}
		}
	})
}

// TestP19_Conflicts has finders and namespace creators that contradict what has been found or created before
func TestP19_Conflicts(t *testing.T) {
	names := []string{"a", "b", "c", "d", "e"}
	prop(t, 6000, "what a finder delivers for each name, together with other values for other names, and a sequence of lookups; non-trivial when a delivery contradicts what was found before", func(c *C) {
		// delivery for each name: nothing, a value, or several
		groups := map[string]map[string]string{}
		single := map[string]string{}
		state := map[string]string{}
		for _, n := range names {
			if rapid.IntRange(0, 4).Draw(c.T, "entry") == 0 {
				state[n] = "0"
			}
			switch rapid.IntRange(0, 3).Draw(c.T, "delivery") {
			case 0:
			case 1:
				single[n] = rapid.SampledFrom([]string{"0", "1"}).Draw(c.T, "value")
			default:
				g := map[string]string{}
				for _, o := range names {
					if rapid.IntRange(0, 2).Draw(c.T, "in") > 0 || o == n && rapid.IntRange(0, 9).Draw(c.T, "in") > 0 {
						g[o] = rapid.SampledFrom([]string{"0", "0", "1"}).Draw(c.T, "value")
					}
				}
				groups[n] = g
			}
		}
		asMap := func(g map[string]string) dgo.Map {
			m := vf.MutableMap()
			for _, n := range names {
				if v, ok := g[n]; ok {
					m.Put(n, v)
				}
			}
			return m
		}
		what := fmt.Sprintf("entries %v, single %v, groups %v", state, single, groups)
		calls := 0
		l := loader.New(nil, "x", asMap(state), func(_ dgo.Loader, key string) interface{} {
			calls++
			if g, ok := groups[key]; ok {
				return loader.Multiple(asMap(g))
			}
			if v, ok := single[key]; ok {
				return v
			}
			return nil
		}, nil)
		for i := rapid.IntRange(1, 12).Draw(c.T, "lookups"); i > 0; i-- {
			n := rapid.SampledFrom(names).Draw(c.T, "name")
			what += ", " + n
			c.Doing("%s", what)
			was, known := state[n]
			want, fails := was, false
			if !known {
				if g, ok := groups[n]; ok {
					want, ok = g[n]
					fails = !ok
					for o, v := range g {
						if x, ok := state[o]; ok && x != v {
							fails = true
						}
					}
					if !fails {
						for o, v := range g {
							state[o] = v
						}
					} else {
						c.NonTrivial(what)
					}
				} else {
					want = single[n]
					state[n] = want
				}
			}
			calls = 0
			var v dgo.Value
			p := catch(func() { v = l.Get(n) })
			switch {
			case fails:
				if p == nil || p.runtimeErr() {
					c.Fatalf("%s: the contradicting delivery yields %v, %v", what, v, p)
				}
			case p != nil:
				c.Fatalf("%s: %s", what, p)
			case want == "":
				if v != nil {
					c.Fatalf("%s: %v is found", what, v)
				}
			default:
				if v == nil || !v.Equals(want) {
					c.Fatalf("%s: %v is found, not %s", what, v, want)
				}
			}
			if known && calls > 0 || !known && calls != 1 {
				c.Fatalf("%s: the finder was called %d times", what, calls)
			}
			c.Class("fails %v", fails)
		}
	})
}

// TestP19_NamespaceConflicts has a creator that asks for the namespace that it is about to create
func TestP19_NamespaceConflicts(t *testing.T) {
	prop(t, 2000, "the entries of a namespace that is created while it is being created; non-trivial when they differ", func(c *C) {
		mk := func(label string) dgo.Map {
			m := vf.MutableMap()
			for _, n := range []string{"a", "b"} {
				if rapid.Bool().Draw(c.T, label+n) {
					m.Put(n, rapid.IntRange(0, 1).Draw(c.T, label+"value"))
				}
			}
			return m
		}
		inner, outer := mk("inner"), mk("outer")
		same := inner.Equals(outer)
		what := fmt.Sprintf("%s within %s", inner, outer)
		c.Doing("%s", what)
		depth := 0
		var first dgo.Loader
		l := loader.New(nil, "", nil, nil, func(dl dgo.Loader, name string) dgo.Loader {
			depth++
			if depth > 1 {
				return loader.New(dl, name, inner, nil, nil)
			}
			first = dl.Namespace(name)
			return loader.New(dl, name, outer, nil, nil)
		})
		var got dgo.Loader
		p := catch(func() { got = l.Namespace("n") })
		// namespaces are told apart by the hash codes that they had when they were created
		if x, y := loader.New(nil, "n", inner, nil, nil), loader.New(nil, "n", outer, nil, nil); !same && x.HashCode() == y.HashCode() {
			c.Class("same hash code")
			if p == nil && l.Namespace("n") == first {
				return
			}
		}
		if same != (p == nil) || p != nil && p.runtimeErr() {
			c.Fatalf("%s: the namespace is %v, panic %v", what, got, p)
		}
		again := l.Namespace("n")
		if again != first || p == nil && got != first || depth != 2 {
			c.Fatalf("%s: the namespace changes from %v to %v, later %v, after %d creations", what, first, got, again, depth)
		}
		for _, n := range []string{"a", "b"} {
			if x, y := inner.Get(n), l.Load("n/"+n); (x == nil) != (y == nil) || x != nil && !x.Equals(y) {
				c.Fatalf("%s: n/%s is %v", what, n, y)
			}
		}
		c.Class("same %v", same)
		if !same {
			c.NonTrivial(what)
		}
	})
}
