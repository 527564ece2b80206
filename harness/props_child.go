package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
)

type childEnd struct {
	exit int
	out  []string // lines
	err  string
	hung bool
}

// child runs this binary again as one of the Test* children; its report is a file of lines.
func (c *Case) child(test string, env ...string) childEnd {
	d := c.Dir()
	defer Clean(d)
	rep := filepath.Join(d, "report")
	cmd := exec.Command(os.Getenv("V_SELF"), "-test.run", "^"+test+"$", "-test.timeout", "0")
	cmd.Dir = d
	cmd.Env = append([]string{"V_REPORT=" + rep, "GOMAXPROCS=2", "HOME=/nonexistent", "GOTRACEBACK=all", "GORACE=" + os.Getenv("GORACE")}, env...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		harness("child: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	e := childEnd{}
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		e.hung = true
	}
	e.exit = cmd.ProcessState.ExitCode()
	e.err = eb.String()
	b, _ := os.ReadFile(rep)
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			e.out = append(e.out, l)
		}
	}
	if strings.Contains(e.err, "HARNESS-PANIC") {
		harness("child: %s", e.err)
	}
	c.Add("child_processes", 1)
	return e
}

func childReport() func(f string, a ...any) {
	if nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = nul
	}
	rf, err := os.OpenFile(os.Getenv("V_REPORT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		harness("report: %v", err)
	}
	return func(f string, a ...any) { fmt.Fprintf(rf, f+"\n", a...) }
}

// ---- C25: damaged files ----

// damagePlan is the content that child and parent both derive from a seed: versions of documents, in two parts.
func damagePlan(seed int64) (w *World, first, second []vOp) {
	r := rand.New(rand.NewSource(seed))
	w = NewWorld(r, 8, 14, 3)
	mk := func(n int) (o []vOp) {
		for i := 0; i < n; i++ {
			o = append(o, vOp{id: w.Id(), f: w.Version(w.Field())})
			if r.Intn(6) == 0 {
				o = append(o, vOp{pause: time.Duration(1+r.Intn(16)) * time.Second})
			}
		}
		return
	}
	return w, mk(6 + r.Intn(20)), mk(1 + r.Intn(6))
}

func dumpStore(rep func(f string, a ...any), s storage.Storage, w *World, r *rand.Rand) {
	fields := append([]string(nil), w.Fields...)
	sort.Strings(fields)
	ids := append([]string(nil), w.Ids...)
	sort.Strings(ids)
	seen := map[string]bool{}
	var terms []string
	for _, t := range w.Vocab {
		if !seen[t] {
			seen[t] = true
			terms = append(terms, t)
		}
	}
	sort.Strings(terms)
	sr := search.NewStandard(index.NewIndex(s))
	for _, f := range fields {
		rep("size %q %d", f, s.GetFieldSize(f))
		rep("length %q %d", f, s.GetFieldLength(f))
		for _, t := range terms {
			rep("df %q %q %d", f, t, s.GetNumberFieldTerm(f, []string{t})[t])
			set, _ := s.GetDocuments(f, t)
			rep("postings %q %q %q", f, t, sortedIds(setCopy(&set)))
		}
	}
	for _, id := range ids {
		for _, f := range fields {
			g, ok := s.GetFields([]string{id}, f)[id]
			var tf []string
			for t, n := range g.TF {
				tf = append(tf, fmt.Sprintf("%q:%d", t, n))
			}
			sort.Strings(tf)
			rep("field %q %q %v %q %d %v", id, f, ok, g.Name, g.Length, tf)
		}
	}
	for _, f := range fields {
		for _, t := range terms {
			var hits []string
			for _, h := range sr.Search([]model.Query{{FieldName: f, Terms: []string{t}}}) {
				hits = append(hits, fmt.Sprintf("%q=%.9g", h.Id, h.Score))
			}
			sort.Strings(hits)
			rep("search %q %q %v", f, t, hits)
		}
	}
}

// damage changes one file; it is the same for the same arguments.
func damage(path string, seed int64) string {
	r := rand.New(rand.NewSource(seed))
	// The check runs as an unprivileged user.
	forbid := func(mode fs.FileMode, what string) string {
		if err := os.Chmod(path, mode); err != nil {
			harness("damage: %v", err)
		}
		return what
	}
	if st, err := os.Stat(path); err == nil && st.IsDir() {
		switch r.Intn(3) {
		case 0:
			return forbid(0, "all access forbidden")
		case 1:
			return forbid(0o500, "writing forbidden")
		}
		return forbid(0o300, "listing forbidden")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	n := len(b)
	var what string
	at := r.Intn(n + 1)
	if r.Intn(3) == 0 && n > 12 { // the beginning and the end carry headers and checksums
		at = []int{r.Intn(12), n - 1 - r.Intn(12)}[r.Intn(2)]
	}
	if at >= n {
		at = n - 1
	}
	old := append([]byte(nil), b...)
	switch k := r.Intn(12); {
	case k >= 10:
		return forbid(0, fmt.Sprintf("reading forbidden (%d bytes)", n))
	case n == 0 || k == 0:
		what = fmt.Sprintf("%d bytes appended", 1)
		b = append(b, byte(r.Intn(256)))
		for i := r.Intn(40); i > 0; i-- {
			b = append(b, byte(r.Intn(256)))
		}
	case k < 4:
		bit := r.Intn(8)
		b[at] ^= 1 << bit
		what = fmt.Sprintf("bit %d of byte %d of %d flipped", bit, at, n)
	case k < 7:
		b = b[:at]
		what = fmt.Sprintf("cut from %d to %d bytes", n, at)
	case k < 8:
		m := 1 + r.Intn(n-at)
		for i := at; i < at+m; i++ {
			b[i] = 0
		}
		what = fmt.Sprintf("bytes %d to %d of %d zeroed", at, at+m, n)
	case k < 9:
		m := 1 + r.Intn(n-at)
		b = append(b[:at:at], b[at+m:]...)
		what = fmt.Sprintf("bytes %d to %d of %d left out", at, at+m, n)
	default:
		m := 1 + r.Intn(n-at)
		r.Read(b[at : at+m])
		what = fmt.Sprintf("bytes %d to %d of %d overwritten", at, at+m, n)
	}
	if bytes.Equal(old, b) {
		return ""
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		harness("damage: %v", err)
	}
	return what
}

// RunReader opens a store and reports everything it can read. With V_SAVES it opens the store in virtual time, has a
// file damaged while it runs, saves more and stops.
func RunReader(t *testing.T) {
	rep := childReport()
	seed, _ := strconv.ParseInt(os.Getenv("V_VSEED"), 10, 64)
	w, _, second := damagePlan(seed)
	root := os.Getenv("V_ROOT")
	if os.Getenv("V_SAVES") == "" {
		s, err := storage.NewDiskStore(root, envInt("V_CACHE", 10))
		if err != nil {
			fmt.Fprintf(os.Stderr, "open failed: %v\n", err)
			os.Exit(3)
		}
		dumpStore(rep, s, w, nil)
		rep("end")
		os.Exit(0)
	}
	synctest.Test(t, func(*testing.T) {
		s, err := storage.NewDiskStore(root, envInt("V_CACHE", 10))
		if err != nil {
			fmt.Fprintf(os.Stderr, "open failed: %v\n", err)
			os.Exit(3)
		}
		if f := os.Getenv("V_DAMAGE"); f != "" {
			ds, _ := strconv.ParseInt(os.Getenv("V_DSEED"), 10, 64)
			rep("damaged %s", damage(f, ds))
		}
		runOps(s, second, 0, func(string, ...any) {})
		time.Sleep(45 * time.Second)
		synctest.Wait()
		rep("end")
		os.Exit(0)
	})
}

func damageCase(c *Case) {
	seed := c.R.Int63()
	_, first, second := damagePlan(seed)
	base := c.Dir()
	defer Clean(base)
	sess := [][]vOp{first}
	if c.R.Intn(2) == 0 {
		k := c.R.Intn(len(first))
		sess = [][]vOp{first[:k], first[k:]}
	}
	for _, ops := range sess {
		end := c.Bubble(func() {
			s, err := storage.NewDiskStore(base, 10)
			if err != nil {
				c.Failf("opening a new store: %v", err)
				return
			}
			start := time.Now()
			runOps(s, ops, 0, func(string, ...any) {})
			if c.R.Intn(3) == 0 {
				time.Sleep(Settle)
				if c.R.Intn(3) == 0 {
					time.Sleep(20 * time.Second)
				}
			} else { // just after an index fragment was written
				d := time.Since(start)
				time.Sleep(d.Truncate(13*time.Second) + 13500*time.Millisecond - d)
			}
			synctest.Wait()
		})
		if end == "deadlock" {
			c.Failf("the store is blocked")
		}
	}
	if c.Failed() {
		return
	}
	env := func(root string, more ...string) []string {
		return append([]string{"V_ROOT=" + root, fmt.Sprint("V_VSEED=", seed)}, more...)
	}
	// What the undamaged store answers, before and after the second part of the plan.
	want := map[bool][]string{}
	for _, more := range []bool{false, true} {
		d := c.Dir()
		copyTree(base, d)
		if more {
			if e := c.child("TestReader", env(d, "V_SAVES=1")...); e.exit != 0 || len(e.out) == 0 {
				c.Failf("the store process ends with %d on an undamaged store: %s", e.exit, clip(e.err))
			}
		}
		e := c.child("TestReader", env(d)...)
		if e.exit != 0 || len(e.out) == 0 || e.out[len(e.out)-1] != "end" {
			c.Failf("the reading process ends with %d on an undamaged store: %s", e.exit, clip(e.err))
		}
		want[more] = e.out
		Clean(d)
	}
	if c.Failed() {
		return
	}
	var files, folders []string
	filepath.WalkDir(base, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(base, p)
			if d.IsDir() {
				folders = append(folders, rel)
			} else {
				files = append(files, rel)
			}
		}
		return nil
	})
	n := 24
	if c.Thorough {
		n = 80
	}
	for i := 0; i < n && !c.Failed(); i++ {
		f := files[c.R.Intn(len(files))]
		if c.R.Intn(6) == 0 {
			f = folders[c.R.Intn(len(folders))]
			c.Add("folders_forbidden", 1)
		}
		running := c.R.Intn(3) == 0
		d := c.Dir()
		copyTree(base, d)
		clean := func() {
			if st, err := os.Stat(filepath.Join(d, f)); err == nil && st.IsDir() {
				os.Chmod(filepath.Join(d, f), 0o755)
			}
			Clean(d)
		}
		ds := c.R.Int63()
		var what string
		cacheSize := fmt.Sprint("V_CACHE=", []int{0, 1, 10}[c.R.Intn(3)])
		died := ""
		if running {
			e := c.child("TestReader", env(d, "V_SAVES=1", cacheSize, "V_DAMAGE="+filepath.Join(d, f), fmt.Sprint("V_DSEED=", ds))...)
			if len(e.out) > 0 {
				what = strings.TrimPrefix(e.out[0], "damaged ")
			}
			if e.hung {
				c.Add("hung", 1)
				clean()
				continue
			}
			if e.exit != 0 || len(e.out) == 0 || e.out[len(e.out)-1] != "end" {
				died = fmt.Sprintf("the running store stopped (%d)", e.exit)
			}
		} else {
			what = damage(filepath.Join(d, f), ds)
		}
		if what == "" {
			clean()
			continue
		}
		c.Add("damages", 1)
		when := fmt.Sprintf("%s of the store's file %q", what, f)
		if running {
			when += " while the store was running"
		}
		c.Logf("%s: %s", when, died)
		if died != "" {
			c.Add("noticed_while_running", 1)
			clean()
			continue
		}
		e := c.child("TestReader", env(d, cacheSize)...)
		clean()
		if e.hung {
			c.Add("hung", 1)
			continue
		}
		full := len(e.out) > 0 && e.out[len(e.out)-1] == "end"
		if e.exit == 0 && full {
			c.Add("harmless", 1)
		} else {
			c.Add("noticed", 1)
		}
		if e.exit == 0 && !full {
			c.Failf("%s: the reading process ends silently", when)
		}
		for j, l := range e.out {
			c.Add("answers_compared", 1)
			if j >= len(want[running]) || l != want[running][j] {
				w := "nothing"
				if j < len(want[running]) {
					w = want[running][j]
				}
				c.Failf("%s: it answers %s; the undamaged store answers %s (process ended with %d)", when, clip(l), clip(w), e.exit)
				break
			}
		}
		c.Finger(filepath.Base(f), what, e.exit)
	}
	_ = second
	c.NonTrivial()
	c.Sample(map[string]any{"files": len(files), "answers": len(want[false])})
}

// ---- C23: nothing piles up ----

type usage struct {
	Heap, Objects           uint64
	Goroutines, Fds, Files  int
	FdsBefore               int
	Bytes                   int64
	Reads, Searches, Writes int
}

func openFds() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(l)
}

func dirUse(root string) (files int, size int64) {
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			if i, err := d.Info(); err == nil {
				files++
				size += i.Size()
			}
		}
		return nil
	})
	return
}

// RunUsage repeats the same work round after round and reports what the process uses when it is idle after each.
func RunUsage(t *testing.T) {
	rep := childReport()
	seed, _ := strconv.ParseInt(os.Getenv("V_VSEED"), 10, 64)
	rounds := envInt("V_ROUNDS", 12)
	root := os.Getenv("V_ROOT")
	kind := os.Getenv("V_WHAT")
	r := rand.New(rand.NewSource(seed))
	synctest.Test(t, func(*testing.T) {
		var work func(round int) usage
		switch kind {
		case "disk", "memory", "files":
			w := NewWorld(r, 1, 1, 3)
			w.Ids, w.Vocab, w.MaxLen = nil, nil, 40
			docs := 250
			if kind == "files" {
				// No collection during the work: a file is closed by the code that opened it or not at all.
				docs = 12
				debug.SetGCPercent(-1)
			}
			for i := 0; i < docs; i++ {
				w.Ids = append(w.Ids, fmt.Sprintf("document-%d", i))
			}
			for i := 0; i < 400; i++ {
				w.Vocab = append(w.Vocab, fmt.Sprintf("term-%d", i))
			}
			type ver struct {
				id string
				f  model.Field
			}
			// Two contents of the whole corpus, saved in turn.
			var vs [2][]ver
			for k := range vs {
				for _, id := range w.Ids {
					for _, f := range w.Fields {
						vs[k] = append(vs[k], ver{id, w.Version(f)})
					}
				}
			}
			var s storage.Storage = storage.NewMemory()
			if kind != "memory" {
				d, err := storage.NewDiskStore(root, envInt("V_CACHE", 10))
				if err != nil {
					rep("failed open: %v", err)
					os.Exit(0)
				}
				s = d
			}
			ix := index.NewIndex(s)
			sr := search.NewStandard(ix)
			work = func(round int) (u usage) {
				for pass := 0; pass < 2; pass++ { // every round stores both contents
					for i, v := range vs[pass] {
						ix.IndexDocument(v.id, model.NormalizedDocument{Fields: []model.Field{cloneField(v.f)}})
						u.Writes++
						if i%100 == 0 && kind != "memory" {
							time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
						}
					}
					for i := 0; i < 60; i++ {
						q := w.Query(3, 6)
						for j := range q {
							q[j].Terms = append(q[j].Terms, fmt.Sprintf("unknown-%d-%d-%d", round, pass, r.Int63()))
							if i%10 == 0 {
								q[j].FieldName = fmt.Sprintf("unknown-field-%d", r.Int63())
							}
						}
						sr.Search(q)
						u.Searches++
					}
					for i := 0; i < 200; i++ {
						f := w.Field()
						s.GetFields([]string{w.Id(), w.Id(), fmt.Sprintf("unknown-document-%d", r.Int63())}, f)
						s.GetDocuments(f, fmt.Sprint("unknown-", r.Int63()))
						s.GetNumberFieldTerm(fmt.Sprint("unknown-", r.Int63()), []string{fmt.Sprint(r.Int63())})
						s.GetFieldSize(fmt.Sprint("unknown-", r.Int63()))
						s.GetFieldLength(fmt.Sprint("unknown-", r.Int63()))
						s.GetIndex(fmt.Sprint("unknown-", r.Int63()))
						if i%40 == 0 {
							s.GetIndex(f)
						}
						u.Reads += 6
					}
				}
				time.Sleep(60 * time.Second)
				return
			}
		case "caches":
			l, m, sh, u, y := cache.NewLRUCache[[]byte](50), cache.NewLocalMap[[]byte](), cache.NewShardMap[[]byte](7), cache.NewCacheRCU[[]byte](), cache.NewSyncMap[[]byte]()
			work = func(round int) (use usage) {
				for i := 0; i < 600; i++ {
					k, v := fmt.Sprint("k", i%60), make([]byte, 1000)
					l.Put(fmt.Sprint("fresh-", r.Int63()), v) // an LRU cache holds 50 entries, whatever is put
					m.Set(k, v)
					if x, ok := sh.Get(k); ok {
						x.Set(k, v)
					}
					u.Put(k, v)
					y.Put(k, v)
					absent := fmt.Sprint("absent-", r.Int63())
					l.Get(absent)
					m.Get(absent)
					sh.Get(absent)
					u.Get(absent)
					y.Get(absent)
					use.Reads += 5
					use.Writes += 5
				}
				time.Sleep(20 * time.Second)
				return
			}
		case "text":
			low, st, as := filter.NewLowercase(), filter.NewStemmer(stemmer.Snowball), filter.NewASCII()
			tk := tokenizer.NewStandard()
			work = func(round int) (u usage) {
				for i := 0; i < 60; i++ {
					var sb strings.Builder
					for k := 0; k < 100; k++ {
						for j := 3 + r.Intn(12); j > 0; j-- {
							sb.WriteByte(byte('a' + r.Intn(26)))
						}
						sb.WriteByte(' ')
					}
					x := low.Process(tk.Tokenize(sb.String()))
					x = filter.NewStopWords(language.GetWords(language.English)).Process(x)
					x = filter.NewStopWords(language.GetWords(language.Portuguese)).Process(x)
					x = as.Process(st.Process(x))
					x = filter.NewStemmer(stemmer.Snowball).Process(x)
					metric.TermFrequency(x)
					doc := field.Flatten(field.StringToObject(fmt.Sprintf(`{"id":"%d","a":{"b%d":["x","y"]}}`, r.Int63(), r.Int63())))
					field.GetID(doc)
					u.Reads++
				}
				return
			}
		}
		if kind == "files" {
			synctest.Wait()
			rep("%d", openFds())
		}
		for i := 0; i < rounds; i++ {
			u := work(i)
			synctest.Wait()
			u.FdsBefore = openFds()
			runtime.GC()
			runtime.GC()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			u.Heap, u.Objects = ms.HeapAlloc, ms.HeapObjects
			u.Goroutines, u.Fds = runtime.NumGoroutine(), openFds()
			if root != "" {
				u.Files, u.Bytes = dirUse(root)
			}
			b, _ := json.Marshal(u)
			rep("%s", b)
		}
		rep("end")
		os.Exit(0)
	})
}

func usageCase(c *Case) {
	kind := []string{"disk", "memory", "caches", "files", "text", "disk"}[c.Idx%6]
	env := []string{"V_WHAT=" + kind, fmt.Sprint("V_VSEED=", c.R.Int63())}
	cacheSize := 0
	if kind == "disk" || kind == "files" {
		d := c.Dir()
		defer Clean(d)
		cacheSize = []int{0, 5, 100, 5000}[c.R.Intn(4)]
		env = append(env, "V_ROOT="+d, fmt.Sprint("V_CACHE=", cacheSize))
	}
	rounds := 12
	if c.Thorough {
		rounds = 30
	}
	env = append(env, fmt.Sprint("V_ROUNDS=", rounds))
	e := c.child("TestUsage", env...)
	if e.hung {
		c.Inconclusive("the child did not finish")
		return
	}
	if e.exit != 0 || len(e.out) == 0 || e.out[len(e.out)-1] != "end" {
		c.Failf("%s: the process ended (%d) in the middle of its work: %s", kind, e.exit, clipN(e.err, 1500))
		return
	}
	fds0 := 0
	if kind == "files" {
		fds0, _ = strconv.Atoi(e.out[0])
		e.out = e.out[1:]
	}
	var us []usage
	for _, l := range e.out[:len(e.out)-1] {
		var u usage
		if err := json.Unmarshal([]byte(l), &u); err != nil {
			harness("usage: %v in %q", err, l)
		}
		us = append(us, u)
		c.Add("rounds_measured", 1)
		c.Add("searches", u.Searches)
		c.Add("reads", u.Reads)
		c.Add("writes", u.Writes)
		c.Logf("%s", l)
		if kind == "files" && u.FdsBefore > fds0 {
			c.Failf("%s (cache %d): %d files are open when the store is idle, %d were after it was opened", kind, cacheSize, u.FdsBefore, fds0)
		}
	}
	// The smallest of the last three rounds against the largest of rounds 2 to 4: what grows, grows with the operations.
	late := us[len(us)-3:]
	early := us[1:4]
	cmp := func(name string, get func(u usage) float64, factor, slack float64) {
		lo, hi := get(late[0]), get(early[0])
		for _, u := range late {
			if get(u) < lo {
				lo = get(u)
			}
		}
		for _, u := range early {
			if get(u) > hi {
				hi = get(u)
			}
		}
		if lo > hi*factor+slack {
			c.Failf("%s (cache %d): doing the same work %d times leaves %s at %v, it was %v after 4 rounds", kind, cacheSize, rounds, name, lo, hi)
		}
		c.Add("comparisons", 1)
	}
	cmp("the number of goroutines", func(u usage) float64 { return float64(u.Goroutines) }, 1, 0)
	cmp("the number of open files", func(u usage) float64 { return float64(u.Fds) }, 1, 0)
	cmp("the number of files", func(u usage) float64 { return float64(u.Files) }, 1, 0)
	cmp("the size of the directory", func(u usage) float64 { return float64(u.Bytes) }, 1.05, 2000)
	cmp("live memory", func(u usage) float64 { return float64(u.Heap) }, 1.05, 100e3)
	c.Finger(kind, cacheSize, us[1].Heap, us[1].Bytes)
	c.NonTrivial()
	c.Sample(map[string]any{"kind": kind, "cache": cacheSize, "after_2_rounds": us[1], "at_the_end": us[len(us)-1]})
}

func init() {
	props["C23"] = def{quick: 24, deep: 120, run: usageCase}
	props["C25"] = def{quick: 64, deep: 400, run: damageCase}
}
