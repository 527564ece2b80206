package vh

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C26: a slow disk ----

// A slowPlan is what the clients of one process do while its file operations are held up. Each client has document fields
// of its own, often fields of documents it shares with others, and acts in bursts, most of them right on the store's ticks.
type slowPlan struct {
	clients []slowClient
	fields  []string
	cache   int
	end     time.Duration
}
type slowClient struct {
	bursts []slowBurst
}
type slowBurst struct {
	at  time.Duration
	ops []slowOp
}
type slowOp struct {
	id    string
	f     model.Field // of a save
	save  bool
	field string        // of a read
	nap   time.Duration // real time
}

func slowTerm(client, n int) string { return fmt.Sprintf("u%d-%d", client, n) }

func makeSlowPlan(seed int64) slowPlan {
	r := rand.New(rand.NewSource(seed))
	p := slowPlan{cache: []int{0, 1, 3, 100}[r.Intn(4)]}
	p.fields = []string{"title", "text", "a/b", "x"}[:1+r.Intn(4)]
	n := 1 + r.Intn(4)
	docs := 1 + r.Intn(6)
	last := time.Duration([]int{40, 200, 200, 395}[r.Intn(4)]) * time.Second
	ticks := []int{5, 7, 10, 13, 15}
	// The same instants for everybody, and some of a client's own.
	var common []time.Duration
	for i := 4 + r.Intn(8); i > 0; i-- {
		x := ticks[r.Intn(5)]
		common = append(common, time.Duration(x*(1+r.Intn(int(last/time.Second)/x)))*time.Second)
	}
	if last > 190*time.Second { // where fragments and merges meet
		for _, d := range []int{180, 182, 185, 190, 194, 195} {
			common = append(common, time.Duration(d)*time.Second)
		}
		if last > 380*time.Second {
			common = append(common, 385*time.Second, 389*time.Second, 390*time.Second)
		}
	}
	for k := 0; k < n; k++ {
		var c slowClient
		v := 0
		at := append([]time.Duration(nil), common...)
		for i := r.Intn(4); i > 0; i-- {
			at = append(at, time.Duration(r.Int63n(int64(last))))
		}
		sortDurations(at)
		var mine []slowOp
		for i, d := range at {
			if i > 0 && at[i-1] == d {
				continue
			}
			b := slowBurst{at: d}
			for j := 1 + r.Intn(14); j > 0; j-- {
				o := slowOp{nap: time.Duration(r.Intn(1200)) * time.Microsecond}
				if r.Intn(3) == 0 {
					o.nap = 0
				}
				if len(mine) == 0 || r.Intn(5) < 3 {
					o.save = true
					fn := p.fields[r.Intn(len(p.fields))]
					// A pair of document and field has one owner.
					o.id = fmt.Sprintf("d%d", r.Intn(docs))
					if pairOwner(o.id, fn, n) != k {
						o.id = fmt.Sprintf("d%d-of-%d", r.Intn(docs), k)
					}
					v++
					o.f = model.Field{Name: fn, TF: map[string]int{slowTerm(k, v): 1}}
					for x := r.Intn(5); x > 0; x-- {
						o.f.TF[fmt.Sprintf("t%d", r.Intn(6))] += 1 + r.Intn(2)
					}
					for _, x := range o.f.TF {
						o.f.Length += x
					}
					mine = append(mine, o)
				} else {
					w := mine[r.Intn(len(mine))]
					o.id, o.field = w.id, w.f.Name
				}
				b.ops = append(b.ops, o)
			}
			c.bursts = append(c.bursts, b)
		}
		p.clients = append(p.clients, c)
	}
	p.end = last + Settle + time.Duration(1+r.Intn(8000))*time.Millisecond
	return p
}

func pairOwner(id, field string, n int) int {
	h := 0
	for _, x := range []byte(id + "\x00" + field) {
		h = h*31 + int(x)
	}
	return (h%n + n) % n
}

func sortDurations(d []time.Duration) {
	for i := range d {
		for j := i; j > 0 && d[j] < d[j-1]; j-- {
			d[j], d[j-1] = d[j-1], d[j]
		}
	}
}

// final is what the store must hold in the end.
func (p slowPlan) final() *Ref {
	ref := NewRef()
	for _, c := range p.clients {
		for _, b := range c.bursts {
			for _, o := range b.ops {
				if o.save {
					ref.Save(o.id, o.f)
				}
			}
		}
	}
	return ref
}

// RunSlowVictim: the process whose file operations are held up. It reports what it finds wrong itself as lines "X".
func RunSlowVictim(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("V_VSEED"), 10, 64)
	p := makeSlowPlan(seed)
	lf, err := os.OpenFile(os.Getenv("V_VLOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		harness("victim log: %v", err)
	}
	if nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = nul
	}
	fast := os.Getenv("V_FASTRUN") != ""
	run := func(wait func()) {
		start := time.Now()
		bad := func(f string, a ...any) {
			fmt.Fprintf(lf, "X %v %s\n", time.Since(start), strings.ReplaceAll(fmt.Sprintf(f, a...), "\n", " "))
		}
		s, err := storage.NewDiskStore(os.Getenv("V_ROOT"), p.cache)
		if err != nil {
			fmt.Fprintf(os.Stderr, "VICTIM-OPEN-FAILED %v\n", err)
			os.Exit(3)
		}
		ix := index.NewIndex(s)
		sr := search.NewStandard(ix)
		var wg sync.WaitGroup
		var mu sync.Mutex
		reads := 0
		for k := range p.clients {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				type pair struct{ id, field string }
				cur := map[pair]model.Field{}
				own := func(f model.Field) string {
					for t := range f.TF {
						if strings.HasPrefix(t, fmt.Sprintf("u%d-", k)) {
							return t
						}
					}
					return ""
				}
				look := func(id, field string, gone string) {
					want := cur[pair{id, field}]
					if g, ok := s.GetFields([]string{id}, field)[id]; !ok || !fieldEq(g, want) {
						bad("client %d: field %q of document %q reads %v (%v), last saved %v", k, field, id, g, ok, want)
					}
					u := own(want)
					if set, _ := s.GetDocuments(field, u); !set.Contains(id) || set.Size() != 1 {
						bad("client %d: the postings of %q in %q are %v, want document %q", k, u, field, set.GetData(), id)
					}
					n := s.GetNumberFieldTerm(field, []string{u, gone})
					if n[u] != 1 || (gone != "" && n[gone] != 0) {
						bad("client %d: term numbers %v in %q, want 1 for %q, 0 for %q", k, n, field, u, gone)
					}
					h := sr.Search([]model.Query{{FieldName: field, Terms: []string{u}, Boost: 1}})
					if len(h) != 1 || h[0].Id != id || !(h[0].Score > 0) || math.IsInf(h[0].Score, 0) {
						bad("client %d: searching %q in %q gives %v, want document %q", k, u, field, h, id)
					}
					if gone != "" {
						if h := sr.Search([]model.Query{{FieldName: field, Terms: []string{gone}, Boost: 1}}); len(h) != 0 {
							bad("client %d: searching %q, which was replaced, in %q gives %v", k, gone, field, h)
						}
					}
					mu.Lock()
					reads++
					mu.Unlock()
				}
				for _, b := range p.clients[k].bursts {
					time.Sleep(b.at - time.Since(start))
					for _, o := range b.ops {
						if o.nap > 0 {
							realSleep(o.nap)
						}
						if !o.save {
							look(o.id, o.field, "")
							continue
						}
						x := pair{o.id, o.f.Name}
						gone := ""
						if old, ok := cur[x]; ok {
							gone = own(old)
						}
						ix.IndexDocument(o.id, model.NormalizedDocument{Fields: []model.Field{cloneField(o.f)}})
						cur[x] = o.f
						look(o.id, o.f.Name, gone)
					}
				}
			}(k)
		}
		wg.Wait()
		if !fast {
			time.Sleep(p.end - time.Since(start))
			wait()
		} else {
			// From now on nothing is held up. Time passes, and the machine shows that it is not too busy.
			calm := os.Getenv("V_VLOG") + ".calm"
			for i := 0; i < 18; i++ {
				if err := os.WriteFile(calm, []byte{byte(i)}, 0o644); err != nil {
					harness("calm: %v", err)
				}
				time.Sleep(10 * time.Second)
				realSleep(10 * time.Millisecond)
			}
		}
		fmt.Fprintf(lf, "R %d\nE\n", reads)
		os.Exit(0)
	}
	if fast {
		run(nil)
		return
	}
	synctest.Test(t, func(*testing.T) { run(synctest.Wait) })
}

func realSleep(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

func slowCase(c *Case) {
	seed := c.R.Int63()
	p := makeSlowPlan(seed)
	for k, cl := range p.clients {
		for _, b := range cl.bursts {
			for _, o := range b.ops {
				if o.save {
					c.Logf("client %d at %v: save %q %v", k, b.at, o.id, o.f)
				}
			}
		}
	}
	ref := p.final()
	runs := 2
	if c.Thorough {
		runs = 6
	}
	// In half of the cases the process runs in an accelerated clock instead of virtual time: the ticks do not wait for file
	// operations that are under way.
	fast := c.Idx/16%2 == 1
	if fast {
		runs = 1
		if c.Thorough {
			runs = 3
		}
	}
	for i := 0; i < runs && !c.Failed(); i++ {
		func() {
			d := c.Dir()
			defer Clean(d)
			root := filepath.Join(d, "root")
			if err := os.MkdirAll(root, 0o755); err != nil {
				harness("mkdir: %v", err)
			}
			vlog := filepath.Join(d, "vlog")
			us := []int{300, 2000, 10000}[c.R.Intn(3)]
			args := []string{"-m", "slow", "-k", fmt.Sprint(c.R.Intn(1 << 20)), "-d", fmt.Sprint(us)}
			if c.R.Intn(3) > 0 {
				args = append(args, "-R")
			}
			env := []string{fmt.Sprint("V_VSEED=", seed)}
			if fast {
				us = []int{300, 3000, 10000, 30000}[c.R.Intn(4)]
				args[5] = fmt.Sprint(us)
				args = append(args, "-q", vlog+".calm")
				env = append(env, "V_FASTRUN=1", "V_SELF="+os.Getenv("V_FAST"), "GOMAXPROCS=4")
			}
			t := c.runTraced(root, vlog, args, "TestSlowVictim", env...)
			if t.hung { // twice in a row is no accident
				c.Add("hung", 1)
				Clean(d)
				if err := os.MkdirAll(root, 0o755); err != nil {
					harness("mkdir: %v", err)
				}
				t = c.runTraced(root, vlog, args, "TestSlowVictim", env...)
			}
			if fast {
				c.Add("runs_accelerated", 1)
			}
			when := fmt.Sprintf("file operations held up by up to %d µs", us)
			b, _ := os.ReadFile(vlog)
			lines := strings.Split(string(b), "\n")
			ended := false
			for _, l := range lines {
				switch {
				case strings.HasPrefix(l, "X "):
					c.Failf("%s: %s", when, l[2:])
				case strings.HasPrefix(l, "R "):
					n, _ := strconv.Atoi(l[2:])
					c.Add("reads_compared", n)
				case l == "E":
					ended = true
				}
			}
			if t.hung {
				c.Failf("%s: the process did not end: %s", when, clipN(t.stderr, 1500))
				return
			}
			if c.Failed() {
				return
			}
			if t.exit != 0 || !ended {
				c.Failf("%s: the process died (%d): %s", when, t.exit, died(t))
				return
			}
			c.Add("file_operations", t.events)
			c.Add("runs", 1)
			end := c.Bubble(func() {
				s, err := storage.NewDiskStore(root, p.cache)
				if err != nil {
					c.Failf("%s: opening the store afterwards fails: %v", when, err)
					return
				}
				cmpAll(c, when+", reopened", s, ref, false)
				for _, f := range ref.Fields() {
					for _, t := range ref.Terms(f) {
						cmpSearch(c, when+", reopened", s, ref, []model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}, cmpHits|cmpScores)
					}
				}
			})
			if end == "deadlock" {
				c.Failf("%s: the reopened store is blocked", when)
			}
			c.Finger(seed, us, t.events)
		}()
	}
	if len(p.clients) > 0 && len(ref.docs) > 0 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"clients": len(p.clients), "documents": len(ref.docs), "fields": len(p.fields), "cache": p.cache, "virtual_seconds": int(p.end / time.Second)})
}

func init() {
	props["C26"] = def{quick: 128, deep: 800, run: slowCase}
}
