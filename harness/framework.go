// Package vh runs workloads against goirlib and judges what it observes. See ../DESIGN.md.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Case is one generated execution of one property's workload, with its oracle's findings.
type Case struct {
	Prop     string
	Idx      int
	Seed     int64
	Thorough bool
	R        *rand.Rand
	T        *testing.T

	mu      sync.Mutex
	hist    []string
	dropped int
	fails   []string
	cnt     map[string]int64
	fp      uint64
	nontriv bool
	sample  any
	incon   string

	engines map[storage.Storage]*engine
	queries [][]model.Query // asked before
	asked   int
}

// An engine is the index and search over one store; like those of a server it lives as long as the store.
type engine struct {
	ix  index.Index
	sr  search.Search
	use int
}

// Engine gives the store's own engine, and every fourth time a new one.
func (c *Case) Engine(s storage.Storage) (index.Index, search.Search) {
	c.mu.Lock()
	defer c.mu.Unlock()
	e := c.engines[s]
	if e == nil {
		if c.engines == nil || len(c.engines) > 40 {
			c.engines = map[storage.Storage]*engine{}
		}
		e = &engine{ix: index.NewIndex(s)}
		e.sr = search.NewStandard(e.ix)
		c.engines[s] = e
	}
	if e.use++; e.use%4 == 0 {
		ix := index.NewIndex(s)
		return ix, search.NewStandard(ix)
	}
	return e.ix, e.sr
}

type stop struct{}

// Logf appends to the witness history (kept short; only printed with a violation).
func (c *Case) Logf(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(f, a...)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	if len(c.hist) >= 4000 {
		c.hist = append(c.hist[:0], c.hist[2000:]...)
		c.dropped += 2000
	}
	c.hist = append(c.hist, s)
}

// Failf records a violation. It may be called from any goroutine.
func (c *Case) Failf(f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.fails) < 20 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 2000 {
			s = s[:2000] + "…"
		}
		c.fails = append(c.fails, s)
		c.hist = append(c.hist, "!! "+s)
	}
}

// unfail forgets what was found, because it is looked at again.
func (c *Case) unfail() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fails = nil
}

func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.fails) > 0
}

// Inconclusive marks a case that observed too little to decide anything.
func (c *Case) Inconclusive(f string, a ...any) { c.incon = fmt.Sprintf(f, a...) }

func (c *Case) Add(name string, n int) {
	c.mu.Lock()
	c.cnt[name] += int64(n)
	c.mu.Unlock()
}

// Print mixes a description of what this case did into its fingerprint.
func (c *Case) Finger(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	c.mu.Lock()
	c.fp = c.fp*1099511628211 ^ h.Sum64()
	c.mu.Unlock()
}

func (c *Case) NonTrivial() { c.nontriv = true }
func (c *Case) Sample(s any) {
	if c.sample == nil {
		c.sample = s
	}
}

type def struct {
	run   func(c *Case)
	quick int
	deep  int
	// procs: values GOMAXPROCS cycles through, per case.
	procs []int
}

var props = map[string]def{}

// Bubble runs f in a virtual-time bubble and reports how it ended: "" when every goroutine finished, "left" when
// goroutines were still blocked after f returned, "deadlock" when everything blocked while f was running.
// Bubble runs f in a virtual-time bubble and reports how it ended: "" when every goroutine finished, "left" when
// goroutines were still blocked after f returned, "deadlock" when everything blocked while f was running.
func (c *Case) Bubble(f func()) (end string) {
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			switch {
			case strings.Contains(s, "main bubble goroutine has exited"):
				end = "left"
			case strings.Contains(s, "all goroutines in bubble are blocked"):
				end = "deadlock"
			default:
				panic(p)
			}
		}
	}()
	synctest.Test(c.T, func(*testing.T) { c.guard(f) })
	return ""
}

// guard runs f and turns a panic in the code under test, on this goroutine, into a violation.
func (c *Case) guard(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				return
			}
			st := string(debug.Stack())
			if !strings.Contains(st, "goirlib") {
				fmt.Fprintf(os.Stderr, "HARNESS-PANIC %v\n%s\n", p, st)
				os.Exit(3)
			}
			c.Failf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	f()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "goirlib") || strings.Contains(l, "panic") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func (c *Case) Stop() { panic(stop{}) }

// StopIfFailed ends the case's workload early; only on the case's own goroutine.
func (c *Case) StopIfFailed() {
	if c.Failed() {
		c.Stop()
	}
}

var scratchRoot = sync.OnceValue(func() string {
	if d := os.Getenv("V_SCRATCH"); d != "" {
		return d
	}
	d, err := os.MkdirTemp("/dev/shm", "vh-")
	if err != nil {
		d, _ = os.MkdirTemp("", "vh-")
	}
	return d
})

var dirSeq int

// Dir makes a fresh scratch directory.
func (c *Case) Dir() string {
	c.mu.Lock()
	dirSeq++
	n := dirSeq
	c.mu.Unlock()
	d := filepath.Join(scratchRoot(), fmt.Sprintf("p%d-c%d-%d", os.Getpid(), c.Idx, n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		harness("mkdir: %v", err)
	}
	return d
}

// Clean removes one of our own scratch directories.
func Clean(d string) {
	if strings.HasPrefix(d, scratchRoot()+"/p") {
		os.RemoveAll(d)
	}
}

func harness(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-PANIC "+f+"\n", a...)
	os.Exit(3)
}

func copyTree(src, dst string) {
	if err := tryCopyTree(src, dst); err != nil {
		harness("copy %s: %v", src, err)
	}
}

func tryCopyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
}

// listTree returns path -> content hash of every entry below dir.
func listTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			m[rel] = "dir"
			return nil
		}
		b, _ := os.ReadFile(p)
		h := fnv.New64a()
		h.Write(b)
		m[rel] = fmt.Sprintf("%d:%x", len(b), h.Sum64())
		return nil
	})
	return m
}

func countFiles(dir string) int {
	n := 0
	for _, v := range listTree(dir) {
		if v != "dir" {
			n++
		}
	}
	return n
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// RunWorker executes the cases V_FROM, V_FROM+V_STEP, … below V_TO of property V_PROP and appends one JSON line per
// case to V_OUT.
func RunWorker(t *testing.T) {
	prop := os.Getenv("V_PROP")
	d, ok := props[prop]
	if !ok {
		harness("no such property %q", prop)
	}
	out, err := os.OpenFile(os.Getenv("V_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		harness("out: %v", err)
	}
	// The library prints progress lines; they are not part of any verdict.
	if nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = nul
	}
	seed := int64(envInt("V_SEED", 1))
	thorough := os.Getenv("V_TIER") == "thorough"
	n := d.quick
	if thorough {
		n = d.deep
	}
	if v := envInt("V_N", 0); v > 0 {
		n = v
	}
	from, step := envInt("V_FROM", 0), envInt("V_STEP", 1)
	emit := func(v any) {
		b, err := json.Marshal(v)
		if err != nil {
			harness("json: %v", err)
		}
		out.Write(append(b, '\n'))
	}
	for i := from; i < n; i += step {
		c := &Case{Prop: prop, Idx: i, Seed: seed, Thorough: thorough, T: t, cnt: map[string]int64{}}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%d/%d", prop, seed, i)
		c.R = rand.New(rand.NewSource(int64(h.Sum64())))
		if len(d.procs) > 0 {
			runtime.GOMAXPROCS(d.procs[i%len(d.procs)])
		}
		emit(map[string]any{"begin": i})
		began := time.Now()
		c.guard(func() { d.run(c) })
		c.mu.Lock()
		r := map[string]any{"case": i, "fp": fmt.Sprintf("%016x", c.fp), "nontrivial": c.nontriv, "counters": c.cnt, "ms": time.Since(began).Milliseconds()}
		if c.sample != nil && i < 64 {
			r["sample"] = c.sample
		}
		if c.incon != "" {
			r["inconclusive"] = c.incon
		}
		if len(c.fails) > 0 {
			r["fails"] = c.fails
			if len(c.hist) > 400 {
				c.dropped += len(c.hist) - 400
				c.hist = c.hist[len(c.hist)-400:]
			}
			r["history"] = c.hist
			r["dropped"] = c.dropped
		}
		c.mu.Unlock()
		emit(r)
		if len(c.fails) > 0 {
			break
		}
		// The collector is off (see check.py): the process is replaced by a fresh one before its heap gets large.
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 600<<20 && i+step < n {
			emit(map[string]any{"next": i + step})
			out.Close()
			return
		}
	}
	emit(map[string]any{"done": true})
	out.Close()
}
