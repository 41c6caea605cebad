// Package props holds the generated-input checks, one group of tests per property.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- statistics -------------------------------------------------------------------------------------------

type propStats struct {
	Evaluations int            `json:"evaluations"`
	Discarded   int            `json:"discarded"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rules       []string       `json:"rules"`
	Samples     []string       `json:"samples"`
	Classes     map[string]int `json:"classes"`
	Known       []string       `json:"known"`
	seen        map[uint64]struct{}
	perTest     map[string]int
}

var (
	statsMu sync.Mutex
	stats   = &propStats{Classes: map[string]int{}, seen: map[uint64]struct{}{}, perTest: map[string]int{}}
	knownOK = map[string]bool{}
)

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// scale multiplies a number of cases for the thorough tier.
func scale(n int) int {
	f := 1.0
	if thorough() {
		f = 12
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if x, err := strconv.ParseFloat(s, 64); err == nil {
			f *= x
		}
	}
	n = int(float64(n) * f)
	if n < 1 {
		n = 1
	}
	return n
}

// C is the context of one generated case.
type C struct {
	*rapid.T
	test    string
	nt      bool
	key     string
	sample  func() string
	classes []string
}

// Class counts the case in the named class.
func (c *C) Class(f string, a ...interface{}) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	c.classes = append(c.classes, f)
}

// NonTrivial marks this case as non-trivial. The key identifies the case among all cases of the test.
func (c *C) NonTrivial(key string) {
	c.nt = true
	c.key = key
}

func h64(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		_, _ = h.Write([]byte(x))
		_, _ = h.Write([]byte{0})
	}
	return h.Sum64()
}

// prop runs n (scaled by tier) generated cases of the given function. The rule says what makes a case non-trivial.
func prop(t *testing.T, n int, rule string, f func(c *C)) {
	t.Helper()
	n = scale(n)
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	name := t.Name()
	statsMu.Lock()
	stats.Rules = append(stats.Rules, name+": "+rule)
	statsMu.Unlock()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, test: name}
		done := false
		defer watch(name)()
		defer func() {
			statsMu.Lock()
			defer statsMu.Unlock()
			if !done {
				stats.Discarded++
				return
			}
			stats.Evaluations++
			for _, cl := range c.classes {
				stats.Classes[name+"/"+cl]++
			}
			if c.nt {
				stats.NonTrivial++
				k := h64(name, c.key)
				if _, ok := stats.seen[k]; !ok {
					stats.seen[k] = struct{}{}
					stats.Distinct++
					// A few samples per test, spread over the run
					m := stats.perTest[name]
					stats.perTest[name] = m + 1
					if m == 3 || m == 40 || m == 300 {
						s := c.key
						if len(s) > 600 {
							s = s[:600] + "..."
						}
						stats.Samples = append(stats.Samples, name+": "+s)
					}
				}
			}
		}()
		f(c)
		done = true
	})
}

// ---- cases that do not end --------------------------------------------------------------------------------

// caseLimit is the time that one case may take. Cases take milliseconds.
const caseLimit = 90 * time.Second

var (
	watchMu   sync.Mutex
	watched   string
	watchedAt time.Time
	doing     string
)

// watch sets the deadline for a case. The returned function ends the case.
func watch(name string) func() {
	watchMu.Lock()
	defer watchMu.Unlock()
	watched, watchedAt, doing = name, time.Now(), ""
	return func() {
		watchMu.Lock()
		defer watchMu.Unlock()
		watched = ""
	}
}

func watchdog() {
	for {
		time.Sleep(time.Second)
		watchMu.Lock()
		if watched != "" && time.Since(watchedAt) > caseLimit {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("--- FAIL: %s\n[verif] the case does not end: %s\n%s\n", watched, doing, buf)
			os.Exit(1)
		}
		watchMu.Unlock()
	}
}

// Doing records what is about to be done in case it never ends, or ends the process.
func (c *C) Doing(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	watchMu.Lock()
	doing = s
	watchMu.Unlock()
	if jf := os.Getenv("VERIF_JOURNAL"); jf != "" {
		_ = os.WriteFile(jf, []byte(c.test+": "+s+"\n"), 0o644)
	}
}

// counted records one deterministic (non rapid) evaluation
func counted(test, rule string, n int, sample string) {
	statsMu.Lock()
	defer statsMu.Unlock()
	stats.Evaluations += n
	stats.Rules = append(stats.Rules, test+": "+rule)
	if sample != "" {
		stats.Samples = append(stats.Samples, test+": "+sample)
	}
}

// known runs a probe for a finding. The probe returns a non empty description when the code fails. It is a failure unless
// the finding is listed in the known findings file.
func known(t *testing.T, key string, probe func() string) {
	t.Helper()
	desc := probe()
	if desc == "" {
		return
	}
	if !knownOK[key] {
		t.Fatalf("[verif] %s: %s", key, desc)
	}
	statsMu.Lock()
	stats.Known = append(stats.Known, key+": "+desc)
	statsMu.Unlock()
}

// ---- panics -----------------------------------------------------------------------------------------------

type caught struct {
	v     interface{}
	stack string
}

func (p *caught) String() string { return fmt.Sprint(p.v) }

// runtimeErr returns true if the panic is a go runtime error rather than an error created by the code
func (p *caught) runtimeErr() bool {
	_, ok := p.v.(runtime.Error)
	return ok
}

// catch calls f and returns the panic or nil. f must not draw from rapid.
func catch(f func()) (p *caught) {
	defer func() {
		if r := recover(); r != nil {
			p = &caught{r, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(192 << 20)
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			knownOK[k] = true
		}
	}
	go watchdog()
	rc := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		sort.Strings(stats.Rules)
		b, err := json.MarshalIndent(stats, "", " ")
		if err == nil {
			err = os.WriteFile(f, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot write stats:", err)
			rc = 3
		}
	}
	os.Exit(rc)
}
