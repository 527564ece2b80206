package vh

import (
	"fmt"
	"io/fs"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C09: concurrent use, then the answers of a sequential execution ----

// stressCase drives one shared store from many goroutines. In virtual time the clients wake together with the store's
// tickers; in real time (a few cases) the scheduler alone decides.
func stressCase(c *Case) {
	disk := c.Idx%4 != 0
	real := c.Idx%8 == 5
	// In an accelerated clock the ticks come while the clients are at work, not when everybody waits.
	fast := os.Getenv("V_KIND") == "fastrace"
	if fast {
		real = true
		c.Add("cases_accelerated", 1)
	}
	clients := 2 + c.R.Intn(7)
	per := 10 + c.R.Intn(30)
	if c.Idx%20 == 13 {
		clients, per = 30+c.R.Intn(120), 5
	}
	w := NewWorld(c.R, 12, 12, 3)
	shared := w.Query(3, 6) // one query that many clients search for at once
	for i := range shared {
		shared[i].Terms = shared[0].Terms
	}
	cacheSize := []int{0, 1, 2, 5, 100}[c.R.Intn(5)]
	root := ""
	if disk {
		root = c.Dir()
		if !fast { // there the store lives on
			defer Clean(root)
		}
	}
	seeds := make([]int64, clients)
	for i := range seeds {
		seeds[i] = c.R.Int63()
	}
	// Saved versions per (id, field), in no particular order: the survivor is whatever the store says, once idle.
	type sv struct{ id, field string }
	var mu sync.Mutex
	vers := map[sv][]model.Field{}
	var inflight, maxIn, overlaps atomic.Int64
	op := func(f func()) {
		n := inflight.Add(1)
		if n > 1 {
			overlaps.Add(1)
		}
		for {
			m := maxIn.Load()
			if n <= m || maxIn.CompareAndSwap(m, n) {
				break
			}
		}
		f()
		inflight.Add(-1)
	}
	judge := func(s storage.Storage) {
		// The final version of every (document, field) must be one that was saved; everything else follows from them.
		ref := NewRef()
		for k, vs := range vers {
			got, ok := s.GetFields([]string{k.id}, k.field)[k.id]
			if !ok {
				c.Failf("after all saves: field %q of document %q is missing", k.field, k.id)
				continue
			}
			found := false
			for _, v := range vs {
				found = found || fieldEq(v, got)
				ref.Save(k.id, v)
			}
			if !found {
				c.Failf("after all saves: field %q of document %q reads %v, which nobody saved", k.field, k.id, got)
			}
			ref.Save(k.id, got)
		}
		if c.Failed() {
			return
		}
		cmpAll(c, fmt.Sprintf("after %d concurrent clients (disk %v, cache %d)", clients, disk, cacheSize), s, ref, true)
		for i := 0; i < 6; i++ {
			cmpSearch(c, "after concurrent use", s, ref, w.Query(3, 8), cmpHits|cmpScores)
		}
		if disk && !real && !c.Failed() {
			time.Sleep(Settle)
			synctest.Wait()
		}
		if disk && fast && !c.Failed() {
			calmDown(root)
		}
	}
	var final *Ref
	body := func() {
		var s storage.Storage
		if disk {
			d, err := storage.NewDiskStore(root, cacheSize)
			if err != nil {
				c.Failf("open: %v", err)
				return
			}
			s = d
		} else {
			s = storage.NewMemory()
		}
		ix := index.NewIndex(s)
		sr := search.NewStandard(ix)
		start := time.Now()
		var wg sync.WaitGroup
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				c.guard(func() {
					r := rand.New(rand.NewSource(seeds[k]))
					lw := *w
					lw.R = r
					for i := 0; i < per; i++ {
						switch x := r.Intn(20); {
						case x < 8:
							id := lw.Id()
							var d model.NormalizedDocument
							for j := 1 + r.Intn(2); j > 0; j-- {
								f := lw.Version(lw.Field())
								if f.TF == nil {
									f.TF = map[string]int{}
								}
								// A term of its own tells the versions apart.
								f.TF[fmt.Sprintf("k%d-%d-%d", k, i, j)] = 1
								f.Length++
								d.Fields = append(d.Fields, f)
								mu.Lock()
								vers[sv{id, f.Name}] = append(vers[sv{id, f.Name}], cloneField(f))
								mu.Unlock()
							}
							op(func() { ix.IndexDocument(id, d) })
							c.Add("saves", len(d.Fields))
						case x < 12:
							op(func() {
								qs := lw.Query(3, 8)
								if r.Intn(4) == 0 {
									qs = shared
								}
								for _, h := range sr.Search(qs) {
									if math.IsNaN(h.Score) || math.IsInf(h.Score, 0) {
										c.Failf("a search concurrent with saves gave document %q the score %v", h.Id, h.Score)
									}
								}
							})
							c.Add("searches", 1)
						case x < 14:
							f := lw.Field()
							op(func() {
								n := 0
								for id, g := range s.GetFields([]string{lw.Id(), lw.Id(), lw.Id()}, f) {
									for t, v := range g.TF {
										n += len(t) + v
									}
									_ = id
								}
							})
							c.Add("reads", 1)
						case x < 16:
							f, t := lw.Field(), lw.Term()
							op(func() {
								set, _ := s.GetDocuments(f, t)
								for id := range set.GetData() {
									if !set.Contains(id) {
										c.Failf("postings change while they are read")
									}
								}
							})
							c.Add("reads", 1)
						case x < 17:
							f := lw.Field()
							op(func() {
								for _, set := range s.GetIndex(f) {
									for id := range set.GetData() {
										_ = id
									}
								}
							})
							c.Add("reads", 1)
						case x < 19:
							f := lw.Field()
							op(func() {
								s.GetFieldSize(f)
								s.GetFieldLength(f)
								s.GetNumberFieldTerm(f, []string{lw.Term(), lw.Term()})
							})
							c.Add("reads", 3)
						default:
							if real && !fast {
								time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
							} else if disk {
								// Meet the flush and merge ticks.
								ticks := []time.Duration{5, 7, 10, 13, 15}
								p := ticks[r.Intn(5)] * time.Second
								now := time.Since(start)
								time.Sleep(p - now%p)
								c.Add("wakes_on_ticks", 1)
							}
						}
						if r.Intn(6) == 0 {
							runtime.Gosched()
						}
					}
				})
			}(k)
		}
		wg.Wait()
		if !c.Failed() {
			judge(s)
		}
		if disk && (!real || fast) && !c.Failed() {
			final = NewRef()
			for k := range vers {
				if g, ok := s.GetFields([]string{k.id}, k.field)[k.id]; ok {
					final.Save(k.id, g)
				}
			}
		}
	}
	if real {
		done := make(chan struct{})
		go func() { defer close(done); c.guard(body) }()
		<-done
	} else if end := c.Bubble(body); end == "deadlock" {
		c.Failf("all goroutines are blocked: deadlock")
	}
	if final != nil && !c.Failed() {
		for k, vs := range vers {
			for _, v := range vs {
				for t := range v.TF {
					if final.ever[k.field] == nil {
						final.ever[k.field] = map[string]map[string]bool{}
					}
					if final.ever[k.field][t] == nil {
						final.ever[k.field][t] = map[string]bool{}
					}
					final.ever[k.field][t][k.id] = true
				}
				final.resaved[k.field] = true
			}
		}
		reopen := func(root string) {
			c.Bubble(func() {
				s, err := storage.NewDiskStore(root, cacheSize)
				if err != nil {
					c.Failf("reopening after concurrent use: %v", err)
					return
				}
				cmpAll(c, "reopened after concurrent use", s, final, false)
			})
			c.Add("restarts", 1)
		}
		if !fast {
			reopen(root)
		}
		for try := 0; fast; try++ {
			d := c.Dir()
			ok := copyQuiet(root, d)
			if ok {
				reopen(d)
			}
			Clean(d)
			if !ok || !c.Failed() || try == 2 {
				break
			}
			// Either something is lost, or the machine is very busy.
			c.unfail()
			for i := 0; i < 5; i++ {
				calmDown(root)
			}
		}
	}
	c.Add("overlapping_operations", int(overlaps.Load()))
	c.Finger(seeds, disk, cacheSize)
	if overlaps.Load() > 0 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"clients": clients, "operations_each": per, "disk": disk, "real_time": real, "cache": cacheSize, "most_in_flight": maxIn.Load(), "overlapping": overlaps.Load()})
}

// calmDown waits 150 virtual seconds of an accelerated clock, and until the machine shows that it is not too busy.
func calmDown(root string) {
	for i := 0; i < 15; i++ {
		if err := os.WriteFile(filepath.Join(filepath.Dir(root), "calm"), []byte{byte(i)}, 0o644); err != nil {
			harness("calm: %v", err)
		}
		time.Sleep(10 * time.Second)
	}
}

// copyQuiet copies the directory of a store that goes on running, between two of its writes; false if there is no such time.
func copyQuiet(from, to string) bool {
	list := func() string {
		var b strings.Builder
		filepath.WalkDir(from, func(p string, e fs.DirEntry, err error) error {
			if err != nil {
				fmt.Fprintln(&b, p, "gone")
				return nil
			}
			if i, err := e.Info(); err == nil {
				var ino uint64
				if st, ok := i.Sys().(*syscall.Stat_t); ok {
					ino = st.Ino
				}
				fmt.Fprintln(&b, p, i.Size(), i.ModTime().UnixNano(), ino)
			} else {
				fmt.Fprintln(&b, p, "gone")
			}
			return nil
		})
		return b.String()
	}
	for i := 0; i < 200; i++ {
		Clean(to)
		if err := os.MkdirAll(to, 0o755); err != nil {
			harness("mkdir: %v", err)
		}
		before := list()
		err := tryCopyTree(from, to)
		if err == nil && !strings.Contains(before, "gone") && list() == before {
			return true
		}
		realSleep(time.Duration(1+i%7) * 3 * time.Millisecond)
	}
	return false
}

// ---- C10: linearizability of saves and reads, and searches against intervals ----

type linIn struct {
	kind  string // save fields docs size length df
	field string
	id    string
	ver   int
	term  string
	rep   int
}
type linOut struct {
	n   int
	set string // canonical answer
}

// The model's state per field: for each of the (few) ids the index of its current version, or -1.
func linModel(ids []string, vers []model.Field) porcupine.Model {
	pos := map[string]int{}
	for i, id := range ids {
		pos[id] = i
	}
	has := func(st string, i int) (model.Field, bool) {
		if st[i] == 0 {
			return model.Field{}, false
		}
		return vers[int(st[i])-1], true
	}
	return porcupine.Model{
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			m := map[string][]porcupine.Operation{}
			for _, o := range h {
				f := o.Input.(linIn).field
				m[f] = append(m[f], o)
			}
			var out [][]porcupine.Operation
			for _, f := range sortedKeys(m) {
				out = append(out, m[f])
			}
			return out
		},
		Init: func() any { return string(make([]byte, len(ids))) },
		Step: func(state, in, out any) (bool, any) {
			st, i, o := state.(string), in.(linIn), out.(linOut)
			switch i.kind {
			case "save":
				b := []byte(st)
				b[pos[i.id]] = byte(i.ver + 1)
				return true, string(b)
			case "fields":
				return o.n == int(st[pos[i.id]]), st
			case "all-fields": // one read of every document
				want := ""
				for k := range ids {
					want += fmt.Sprint(int(st[k]), ",")
				}
				return want == o.set, st
			case "all-df": // one read of every term's document frequency
				want := ""
				for t := 0; t < 3; t++ {
					n := 0
					for k := range ids {
						f, _ := has(st, k)
						if _, ok := f.TF[fmt.Sprint("t", t)]; ok {
							n++
						}
					}
					want += fmt.Sprint(n, ",")
				}
				return want == o.set, st
			case "index": // one read of all postings
				m := map[string]bool{}
				for k := range ids {
					f, _ := has(st, k)
					for t := range f.TF {
						m[t+" "+ids[k]] = true
					}
				}
				return fmt.Sprint(sortedKeys(m)) == o.set, st
			case "docs":
				want := ""
				for k := range ids {
					if f, ok := has(st, k); ok {
						if _, ok := f.TF[i.term]; ok {
							want += ids[k] + ","
						}
					}
				}
				return want == o.set, st
			case "size":
				n := 0
				for k := range ids {
					if st[k] != 0 {
						n++
					}
				}
				return n == o.n, st
			case "length":
				n := 0
				for k := range ids {
					f, _ := has(st, k)
					n += f.Length
				}
				return n == o.n, st
			case "df":
				n := 0
				for k := range ids {
					f, _ := has(st, k)
					if _, ok := f.TF[i.term]; ok {
						n++
					}
				}
				return n == o.n, st
			}
			panic("kind")
		},
		Equal: func(a, b any) bool { return a == b },
		DescribeOperation: func(in, out any) string {
			return fmt.Sprintf("%+v -> %+v", in, out)
		},
	}
}

func linCase(c *Case) {
	disk := c.Idx%2 == 1
	cacheSize := []int{0, 1, 2, 50}[c.R.Intn(4)]
	ids := []string{"a", "b", "c"}[:1+c.R.Intn(3)]
	fields := []string{"title", "text"}[:1+c.R.Intn(2)]
	clients := 2 + c.R.Intn(4)
	per := 4 + c.R.Intn(7)
	var vers []model.Field
	// All operations are drawn beforehand, so that the case does not depend on the schedule.
	plans := make([][]linIn, clients)
	for k := range plans {
		for i := 0; i < per; i++ {
			in := linIn{field: fields[c.R.Intn(len(fields))], id: ids[c.R.Intn(len(ids))], term: fmt.Sprint("t", c.R.Intn(3))}
			switch x := c.R.Intn(13); {
			case x == 10:
				in.kind, in.rep = "all-fields", 1
				if c.R.Intn(2) == 0 {
					in.rep = 60
				}
			case x == 11:
				in.kind = "all-df"
			case x == 12:
				in.kind = "index"
			case x < 4 && len(vers) < 250:
				in.kind = "save"
				f := model.Field{Name: in.field, TF: map[string]int{fmt.Sprintf("v%d", len(vers)): 1}, Length: 1}
				for t := 0; t < 3; t++ {
					if c.R.Intn(2) == 0 {
						n := 1 + c.R.Intn(3)
						f.TF[fmt.Sprint("t", t)] = n
						f.Length += n
					}
				}
				in.ver = len(vers)
				vers = append(vers, f)
			case x < 6:
				in.kind = "fields"
			case x < 7:
				in.kind = "docs"
			case x < 8:
				in.kind = "size"
			case x < 9:
				in.kind = "length"
			default:
				in.kind = "df"
			}
			plans[k] = append(plans[k], in)
		}
	}
	sched := make([][]int, clients)
	for k := range sched {
		for range plans[k] {
			sched[k] = append(sched[k], c.R.Intn(12))
		}
	}
	root := ""
	if disk {
		root = c.Dir()
		defer Clean(root)
	}
	var clock atomic.Int64
	hists := make([][]porcupine.Operation, clients)
	// Searches run beside the linearizable operations and are judged against intervals.
	type srch struct {
		field, term string
		call, ret   int64
		got         []model.DocumentScore
	}
	searches := make([][]srch, 2)
	end := c.Bubble(func() {
		var s storage.Storage = storage.NewMemory()
		if disk {
			d, err := storage.NewDiskStore(root, cacheSize)
			if err != nil {
				c.Failf("open: %v", err)
				return
			}
			s = d
		}
		sr := search.NewStandard(index.NewIndex(s))
		start := time.Now()
		var wg, ws sync.WaitGroup
		var stopS atomic.Bool
		for k := range searches {
			ws.Add(1)
			seed := c.R.Int63()
			go func(k int) {
				defer ws.Done()
				c.guard(func() {
					r := rand.New(rand.NewSource(seed))
					for n := 0; n < 12 && !stopS.Load(); n++ {
						x := srch{field: fields[r.Intn(len(fields))], term: fmt.Sprint("t", r.Intn(3))}
						x.call = clock.Add(1)
						x.got = sr.Search([]model.Query{{FieldName: x.field, Terms: []string{x.term}, Boost: 1}})
						x.ret = clock.Add(1)
						searches[k] = append(searches[k], x)
						runtime.Gosched()
					}
				})
			}(k)
		}
		for k := range plans {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				c.guard(func() {
					for i, in := range plans[k] {
						switch d := sched[k][i]; {
						case d < 3:
							runtime.Gosched()
						case d == 3 && disk:
							p := []time.Duration{5, 7, 10, 13, 15}[(k+i)%5] * time.Second
							time.Sleep(p - time.Since(start)%p)
						case d == 4:
							for j := 0; j < 2000; j++ {
								_ = j
							}
						}
						var out linOut
						call := clock.Add(1)
						switch in.kind {
						case "save":
							s.SaveOrUpdate(in.id, cloneField(vers[in.ver]))
						case "fields":
							g, ok := s.GetFields([]string{in.id}, in.field)[in.id]
							if ok {
								out.n = 255
								for v := range vers {
									if vers[v].Name == in.field && fieldEq(vers[v], g) {
										out.n = v + 1
									}
								}
								if out.n == 255 {
									c.Failf("field %q of document %q reads %v, which nobody saved", in.field, in.id, g)
								}
							}
						case "all-fields":
							var ask []string
							for j := 0; j < in.rep; j++ { // a longer list takes longer to read
								ask = append(ask, ids...)
							}
							g := s.GetFields(ask, in.field)
							for _, id := range ids {
								n := 0
								if f, ok := g[id]; ok {
									n = 255
									for v := range vers {
										if vers[v].Name == in.field && fieldEq(vers[v], f) {
											n = v + 1
										}
									}
								}
								out.set += fmt.Sprint(n, ",")
							}
						case "all-df":
							g := s.GetNumberFieldTerm(in.field, []string{"t0", "t1", "t2"})
							for t := 0; t < 3; t++ {
								out.set += fmt.Sprint(g[fmt.Sprint("t", t)], ",")
							}
						case "index":
							m := map[string]bool{}
							for t, set := range s.GetIndex(in.field) {
								for id := range set.GetData() {
									m[t+" "+id] = true
								}
							}
							out.set = fmt.Sprint(sortedKeys(m))
						case "docs":
							set, _ := s.GetDocuments(in.field, in.term)
							for _, id := range ids {
								if set.Contains(id) {
									out.set += id + ","
								}
							}
						case "size":
							out.n = s.GetFieldSize(in.field)
						case "length":
							out.n = s.GetFieldLength(in.field)
						case "df":
							out.n = s.GetNumberFieldTerm(in.field, []string{in.term})[in.term]
						}
						ret := clock.Add(1)
						hists[k] = append(hists[k], porcupine.Operation{ClientId: k, Input: in, Output: out, Call: call, Return: ret})
					}
				})
			}(k)
		}
		wg.Wait()
		stopS.Store(true)
		ws.Wait()
	})
	if end == "deadlock" {
		c.Failf("all goroutines are blocked: deadlock")
	}
	if c.Failed() {
		return
	}
	var all []porcupine.Operation
	conc := 0
	for _, h := range hists {
		all = append(all, h...)
	}
	for _, a := range all {
		for _, b := range all {
			if a.ClientId < b.ClientId && a.Call < b.Return && b.Call < a.Return {
				conc++
			}
		}
		c.Finger(a.Input, a.Output)
	}
	for _, a := range all {
		c.Logf("client %d [%d,%d] %+v -> %+v", a.ClientId, a.Call, a.Return, a.Input, a.Output)
	}
	for i, v := range vers {
		c.Logf("version %d: %v", i, v)
	}
	res := porcupine.CheckOperationsTimeout(linModel(ids, vers), all, 30*time.Second)
	switch res {
	case porcupine.Illegal:
		c.Failf("the history of %d operations of %d clients (disk %v, cache %d) is not linearizable", len(all), clients, disk, cacheSize)
	case porcupine.Unknown:
		c.Inconclusive("linearizability checker timed out")
	}
	c.Add("operations_checked", len(all))
	c.Add("overlapping_pairs", conc)
	// Searches.
	for _, xs := range searches {
		for _, x := range xs {
			for _, id := range ids {
				may, must := false, false
				for _, o := range all {
					in := o.Input.(linIn)
					if in.kind != "save" || in.id != id || in.field != x.field || o.Call > x.ret {
						continue
					}
					_, match := vers[in.ver].TF[x.term]
					// Overwritten for certain before the search began?
					over, changed := false, false
					for _, p := range all {
						pi := p.Input.(linIn)
						if pi.kind != "save" || pi.id != id || pi.field != x.field || pi.ver == in.ver {
							continue
						}
						if p.Call > o.Return && p.Return < x.call {
							over = true
						}
						// Any other save that may have taken effect after this one and before the search ended.
						if p.Return > o.Call && p.Call < x.ret {
							changed = true
						}
					}
					if match && !over {
						may = true
					}
					if match && o.Return < x.call && !changed {
						must = true
					}
				}
				found := false
				for _, h := range x.got {
					found = found || h.Id == id
				}
				if must {
					c.Add("search_must_find", 1)
				}
				if must && !found {
					c.Failf("a search for %q in %q [%d,%d] misses document %q, saved before and unchanged since", x.term, x.field, x.call, x.ret, id)
				}
				if found && !may {
					c.Failf("a search for %q in %q [%d,%d] returns document %q, which did not match at any time during it", x.term, x.field, x.call, x.ret, id)
				}
			}
			for _, h := range x.got {
				if math.IsNaN(h.Score) || math.IsInf(h.Score, 0) {
					c.Failf("a search for %q in %q [%d,%d] gives document %q the score %v", x.term, x.field, x.call, x.ret, h.Id, h.Score)
				}
				ok := false
				for _, id := range ids {
					ok = ok || id == h.Id
				}
				if !ok {
					c.Failf("a search returns document %q, which was never saved", h.Id)
				}
			}
			c.Add("searches_judged", 1)
		}
	}
	if conc > 0 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"clients": clients, "operations_each": per, "ids": len(ids), "fields": len(fields), "disk": disk, "cache": cacheSize, "overlapping_pairs": conc})
}

func init() {
	procs := []int{4, 8, 2, 4, 3, 1}
	props["C09"] = def{quick: 160, deep: 4000, procs: procs, run: stressCase}
	props["C10"] = def{quick: 1600, deep: 40000, procs: procs, run: linCase}
}
