package vh

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/cache"
	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C22: what callers hand over and get back stays apart from the store ----

// held is an answer that somebody keeps: live is the object the store returned, was what it held then.
type held struct {
	what string
	read func() any // a deep copy of what the live object holds now
	was  any
	mine bool // the harness changed it: no longer compared
}

func setCopy(s *model.Set) map[string]bool {
	m := map[string]bool{}
	if s != nil {
		for k, v := range s.GetData() {
			m[k] = v
		}
	}
	return m
}

func fieldsCopy(m map[string]model.Field) map[string]model.Field {
	o := map[string]model.Field{}
	for k, f := range m {
		g := cloneField(f)
		if g.TF == nil {
			g.TF = map[string]int{}
		}
		o[k] = g
	}
	return o
}

func apartCase(c *Case) {
	w := smallWorld(c)
	if len(w.Ids) > 15 {
		w.Ids = w.Ids[:15]
	}
	h := &hist{c: c, w: w, ref: NewRef(), disk: c.Idx%3 != 0, exact: true}
	sessions := 1
	root := ""
	if h.disk {
		root = c.Dir()
		defer Clean(root)
		sessions = 1 + c.R.Intn(3)
	}
	r := c.R
	for h.session = 0; h.session < sessions && !c.Failed(); h.session++ {
		end := c.Bubble(func() {
			h.start = time.Now()
			if h.disk {
				h.cache = []int{0, 1, 2, 5, 1000}[r.Intn(5)]
				h.exact = h.session == 0
				s, err := storage.NewDiskStore(root, h.cache)
				if err != nil {
					c.Failf("opening the store for session %d: %v", h.session+1, err)
					return
				}
				h.s = s
			} else {
				h.s = storage.NewMemory()
			}
			ix := index.NewIndex(h.s)
			sr := search.NewStandard(ix)
			if h.session > 0 {
				c.Add("restarts", 1)
				cmpAll(c, h.when()+" (just opened)", h.s, h.ref, false)
			}
			var keep []*held
			hold := func(what string, read func() any) {
				keep = append(keep, &held{what: h.when() + ": " + what, read: read, was: read()})
				c.Add("answers_held", 1)
			}
			check := func(n int) {
				for _, x := range keep {
					if x.mine {
						continue
					}
					if n >= 0 && r.Intn(4) > 0 {
						continue
					}
					c.Add("held_answers_compared", 1)
					if g := x.read(); !reflect.DeepEqual(g, x.was) {
						c.Failf("%s: the answer of (%s) was %v and has become %v", h.when(), x.what, clip(fmt.Sprint(x.was)), clip(fmt.Sprint(g)))
						return
					}
				}
			}
			// same calls a function and tells whether an argument of the caller changed under it.
			same := func(what string, arg func() any, f func()) {
				before := arg()
				f()
				if g := arg(); !reflect.DeepEqual(before, g) {
					c.Failf("%s: %s changes its argument from %v to %v", h.when(), what, clip(fmt.Sprint(before)), clip(fmt.Sprint(g)))
				}
				c.Add("arguments_compared", 1)
			}
			spoil := r.Intn(3) > 0
			n := 25 + r.Intn(50)
			for i := 0; i < n && !c.Failed(); i++ {
				switch x := r.Intn(24); {
				case x < 9: // save, then use the same maps for something else
					id := h.w.Id()
					d := model.NormalizedDocument{}
					for k := 1 + r.Intn(2); k > 0; k-- {
						f := w.Version(w.Field())
						d.Fields = append(d.Fields, f)
					}
					seen := map[string]bool{}
					u := d.Fields[:0]
					for _, f := range d.Fields {
						if !seen[f.Name] {
							seen[f.Name] = true
							u = append(u, f)
						}
					}
					d.Fields = u
					c.Logf("%s: index %q %v", h.when(), id, d)
					for _, f := range d.Fields {
						h.ref.Save(id, f)
						h.saves++
						c.Add("saves", 1)
					}
					snap := func() any {
						var o []model.Field
						for _, f := range d.Fields {
							o = append(o, cloneField(f))
						}
						return o
					}
					same("IndexDocument", snap, func() {
						if r.Intn(2) == 0 {
							ix.IndexDocument(id, d)
						} else {
							for _, f := range d.Fields {
								h.s.SaveOrUpdate(id, f)
							}
						}
					})
					if spoil {
						for j := range d.Fields {
							switch r.Intn(4) {
							case 0:
								for t := range d.Fields[j].TF {
									delete(d.Fields[j].TF, t)
								}
							case 1:
								for t := range d.Fields[j].TF {
									d.Fields[j].TF[t] += 1 + r.Intn(9)
								}
							case 2:
								if d.Fields[j].TF != nil {
									d.Fields[j].TF["spoiled"] = 7
									d.Fields[j].TF[w.Term()] = 9
								}
							}
							d.Fields[j].Length += 3
							d.Fields[j].Name = "spoiled"
						}
						c.Add("inputs_reused", 1)
					}
					for f := range seen {
						cmpDocs(c, h.when()+", after the caller reused what it had saved", h.s, h.ref, []string{id}, f)
					}
				case x < 10 && !h.disk:
					m, ok := h.s.(interface {
						GetFieldDocumentTest(string) map[string]model.Field
					})
					if !ok {
						break
					}
					id := h.w.Id()
					got := m.GetFieldDocumentTest(id)
					if r.Intn(3) > 0 {
						hold(fmt.Sprintf("all fields of %q", id), func() any { return fieldsCopy(got) })
						break
					}
					for f := range got {
						delete(got, f)
						cmpDocs(c, h.when()+", after a caller changed the fields it had read", h.s, h.ref, []string{id}, f)
					}
					c.Add("answers_changed", 1)
				case x < 11:
					ids, f := someIds(h, 1+r.Intn(6)), w.Field()
					if r.Intn(3) == 0 {
						ids = append(ids, ids[0])
					}
					var got map[string]model.Field
					same("GetFields", func() any { return append([]string(nil), ids...) }, func() { got = h.s.GetFields(ids, f) })
					if r.Intn(3) > 0 {
						hold(fmt.Sprintf("fields %q of %q", f, ids), func() any { return fieldsCopy(got) })
						for k := range ids {
							ids[k] = "spoiled"
						}
						break
					}
					for id := range got {
						if r.Intn(2) == 0 {
							delete(got, id)
						} else {
							got[id] = model.Field{Name: f, Length: 77, TF: map[string]int{"spoiled": 77}}
						}
					}
					if got != nil {
						got["spoiled"] = model.Field{Name: f}
					}
					c.Add("answers_changed", 1)
					cmpDocs(c, h.when()+", after a caller changed the fields it had read", h.s, h.ref, append(someIds(h, 4), ids...), f)
				case x < 14:
					f, t := w.Field(), w.Term()
					set, ok := h.s.GetDocuments(f, t)
					if !ok {
						break
					}
					if r.Intn(3) > 0 {
						hold(fmt.Sprintf("postings of %q in %q", t, f), func() any { return setCopy(&set) })
						break
					}
					for id := range set.GetData() {
						if r.Intn(2) == 0 {
							set.Remove(id)
						}
					}
					set.Add("spoiled")
					c.Add("answers_changed", 1)
					cmpPostings(c, h.when()+", after a caller changed the postings it had read", h.s, h.ref, f, t, h.exact)
				case x < 16:
					f := w.Field()
					m := h.s.GetIndex(f)
					if r.Intn(3) > 0 {
						hold(fmt.Sprintf("index of %q", f), func() any {
							o := map[string]map[string]bool{}
							for t, s := range m {
								o[t] = setCopy(s)
							}
							return o
						})
						break
					}
					var ts []string
					for t, s := range m {
						ts = append(ts, t)
						switch r.Intn(3) {
						case 0:
							delete(m, t)
						case 1:
							s.Add("spoiled")
						case 2:
							for id := range s.GetData() {
								s.Remove(id)
							}
						}
					}
					if m != nil {
						m["spoiled"] = model.NewSet()
					}
					c.Add("answers_changed", 1)
					for _, t := range append(ts, "spoiled") {
						cmpPostings(c, h.when()+", after a caller changed the index it had read", h.s, h.ref, f, t, h.exact)
					}
				case x < 18:
					f := w.Field()
					ts := append([]string{w.Term(), w.Term(), "absent"}, h.ref.Terms(f)...)
					var m map[string]int
					same("GetNumberFieldTerm", func() any { return append([]string(nil), ts...) }, func() { m = h.s.GetNumberFieldTerm(f, ts) })
					if r.Intn(3) > 0 {
						hold(fmt.Sprintf("document numbers of %q in %q", ts, f), func() any {
							o := map[string]int{}
							for k, v := range m {
								o[k] = v
							}
							return o
						})
						break
					}
					for k := range m {
						m[k] = 99
					}
					if m != nil {
						m["spoiled"] = 5
					}
					c.Add("answers_changed", 1)
					cmpStats(c, h.when()+", after a caller changed the numbers it had read", h.s, h.ref, f, append(ts, "spoiled"))
				case x < 21:
					qs := w.Query(3, 8)
					want := h.ref.Search(qs)
					var got []model.DocumentScore
					same("Search", func() any {
						var o []model.Query
						for _, q := range qs {
							q.Terms = append([]string(nil), q.Terms...)
							o = append(o, q)
						}
						return o
					}, func() { got = sr.Search(qs) })
					judgeSearch(c, h.when(), qs, got, want, cmpHits|cmpScores)
					switch r.Intn(3) {
					case 0:
						for k := range got {
							got[k].Id, got[k].Score = "spoiled", -1
						}
						c.Add("answers_changed", 1)
						judgeSearch(c, h.when()+", after a caller changed the results of the same search", qs, sr.Search(qs), want, cmpHits|cmpScores)
					default:
						hold("search "+showQ(qs), func() any { return append([]model.DocumentScore(nil), got...) })
						for k := range qs {
							for j := range qs[k].Terms {
								qs[k].Terms[j] = "spoiled"
							}
						}
					}
				case x < 22:
					f := w.Field()
					ts := []string{w.Term(), w.Term()}
					var res model.SearchResult
					same("the field search", func() any { return append([]string(nil), ts...) }, func() { res = ix.Search(ts, f) })
					if r.Intn(2) == 0 {
						hold(fmt.Sprintf("field search %q in %q", ts, f), func() any {
							nf := map[string]int{}
							for k, v := range res.NumFieldsWithTerm {
								nf[k] = v
							}
							return []any{fieldsCopy(res.FieldDocuments), nf, res.TotalDocuments}
						})
						break
					}
					for id := range res.FieldDocuments {
						delete(res.FieldDocuments, id)
					}
					for t := range res.NumFieldsWithTerm {
						res.NumFieldsWithTerm[t] = 55
					}
					c.Add("answers_changed", 1)
					cmpStats(c, h.when()+", after a caller changed the answer of a field search", h.s, h.ref, f, ts)
					cmpIndexSearch(h, h.when())
				default:
					if h.disk {
						d := pauseChoices[r.Intn(len(pauseChoices))] * time.Second
						c.Logf("%s: pause %v", h.when(), d)
						time.Sleep(d)
						synctest.Wait()
					}
				}
				check(i)
			}
			if !c.Failed() {
				cmpAll(c, h.when()+" (end)", h.s, h.ref, h.exact)
				if h.disk {
					time.Sleep(Settle)
					synctest.Wait()
				}
				check(-1)
			}
		})
		if end == "deadlock" {
			c.Failf("%s: everything is blocked", h.when())
		}
	}
	c.Finger(w.Ids, w.Vocab, h.saves, h.disk)
	if h.saves > 2 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"disk": h.disk, "documents": len(h.ref.docs), "saves": h.saves, "sessions": sessions})
}

// apartStress: clients that reuse their maps right after a save and change every answer they get, all at once, while the
// writers of a disk store run. The race detector and the final state judge.
func apartStress(c *Case) {
	w := NewWorld(c.R, 10, 12, 3)
	disk := c.Idx%2 == 0
	root := ""
	if disk {
		root = c.Dir()
		defer Clean(root)
	}
	clients := 3 + c.R.Intn(5)
	ref := NewRef()
	end := c.Bubble(func() {
		var s storage.Storage = storage.NewMemory()
		if disk {
			d, err := storage.NewDiskStore(root, []int{0, 1, 3, 100}[c.R.Intn(4)])
			if err != nil {
				c.Failf("open: %v", err)
				return
			}
			s = d
		}
		sr := search.NewStandard(index.NewIndex(s))
		var mu sync.Mutex
		var wg sync.WaitGroup
		for k := 0; k < clients; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(c.R.Int63()))
			k := k
			go func() {
				defer wg.Done()
				c.guard(func() {
					lw := *w
					lw.R = rr
					tf := map[string]int{} // one map for all its saves
					for i := 0; i < 40 && !c.Failed(); i++ {
						f := lw.Field()
						switch rr.Intn(5) {
						case 0, 1:
							for t := range tf {
								delete(tf, t)
							}
							n := 0
							for j := rr.Intn(8); j >= 0; j-- {
								tf[lw.Term()]++
								n++
							}
							id := fmt.Sprintf("c%d-%d", k, rr.Intn(5))
							v := model.Field{Name: f, Length: n, TF: tf}
							mu.Lock()
							ref.Save(id, v)
							mu.Unlock()
							s.SaveOrUpdate(id, v)
							c.Add("saves", 1)
							tf["spoiled"] = 1
						case 2:
							if m, ok := s.(interface {
								GetFieldDocumentTest(string) map[string]model.Field
							}); ok {
								for f := range m.GetFieldDocumentTest(fmt.Sprintf("c%d-%d", rr.Intn(clients), rr.Intn(5))) {
									_ = f
								}
							}
							got := s.GetFields([]string{fmt.Sprintf("c%d-%d", k, rr.Intn(5)), fmt.Sprintf("c%d-%d", rr.Intn(clients), rr.Intn(5))}, f)
							for id, g := range got {
								if g.TF["spoiled"] != 0 {
									c.Failf("field %q of document %q has a term that its owner put into its own map after saving", f, id)
								}
								delete(got, id)
							}
							c.Add("answers_changed", 1)
						case 3:
							m := s.GetIndex(f)
							for t, x := range m {
								x.Add("spoiled")
								delete(m, t)
							}
							if x, ok := s.GetDocuments(f, lw.Term()); ok {
								x.Add("spoiled")
							}
							c.Add("answers_changed", 2)
						default:
							for _, d := range sr.Search(lw.Query(2, 5)) {
								if d.Id == "spoiled" {
									c.Failf("a search finds what another caller put into its own answer")
								}
							}
						}
						if disk && rr.Intn(4) == 0 {
							time.Sleep(time.Duration(rr.Intn(5)) * time.Second)
						}
					}
				})
			}()
		}
		wg.Wait()
		if !c.Failed() {
			cmpAll(c, "after clients that reuse everything", s, ref, true)
			if disk {
				time.Sleep(Settle)
				synctest.Wait()
			}
		}
	})
	if end == "deadlock" {
		c.Failf("everything is blocked")
	}
	c.Finger("stress", clients, disk, len(ref.docs))
	c.NonTrivial()
}

// ---- C24: stores and caches of one process are independent ----

func independentCase(c *Case) {
	r := c.R
	w := smallWorld(c)
	if len(w.Ids) > 15 {
		w.Ids = w.Ids[:15]
	}
	type one struct {
		h    *hist
		root string
	}
	var all []*one
	base := c.Dir()
	defer Clean(base)
	nDisk, nMem := 2+r.Intn(2), r.Intn(3)
	if c.Idx%8 == 6 {
		nDisk, nMem = 8+r.Intn(20), r.Intn(20)
	}
	for i := 0; i < nDisk; i++ {
		name := fmt.Sprint("s", i)
		if i < 5 {
			name = []string{"a", "b", "a-b", "docs", "text"}[i]
		}
		all = append(all, &one{h: &hist{c: c, w: w, ref: NewRef(), disk: true, exact: true}, root: base + "/" + name})
	}
	sessions := 1 + r.Intn(3)
	for k := 0; k < nMem; k++ {
		all = append(all, &one{h: &hist{c: c, w: w, ref: NewRef()}})
	}
	conc := c.Idx%4 == 3
	total := 0
	for sess := 0; sess < sessions && !c.Failed(); sess++ {
		end := c.Bubble(func() {
			for i, o := range all {
				o.h.start, o.h.session = time.Now(), sess
				if !o.h.disk {
					o.h.s, o.h.ref, o.h.exact = storage.NewMemory(), NewRef(), true
					continue
				}
				o.h.cache = []int{0, 1, 3, 1000}[r.Intn(4)]
				o.h.exact = sess == 0
				s, err := storage.NewDiskStore(o.root, o.h.cache)
				if err != nil {
					c.Failf("opening store %d for session %d: %v", i, sess+1, err)
					return
				}
				o.h.s = s
			}
			compare := func(when string) {
				for i, o := range all {
					cmpAll(c, fmt.Sprintf("%s: store %d of %d, %s", when, i, len(all), o.h.when()), o.h.s, o.h.ref, o.h.exact)
				}
			}
			if sess > 0 {
				c.Add("restarts", nDisk)
				compare("just opened")
			}
			step := func(o *one, lw *World, rr *rand.Rand) {
				id, f := lw.Id(), lw.Field()
				v := lw.Version(f)
				o.h.ref.Save(id, v)
				o.h.s.SaveOrUpdate(id, cloneField(v))
				o.h.saves++
				c.Add("saves", 1)
				if rr.Intn(3) == 0 {
					cmpSearch(c, o.h.when(), o.h.s, o.h.ref, lw.Query(3, 8), cmpHits|cmpScores)
				}
				cmpDocs(c, o.h.when(), o.h.s, o.h.ref, []string{id, lw.Id()}, f)
				cmpStats(c, o.h.when(), o.h.s, o.h.ref, f, []string{lw.Term(), lw.Term()})
			}
			pause := func(rr *rand.Rand) {
				time.Sleep(pauseChoices[rr.Intn(len(pauseChoices))] * time.Second)
			}
			if conc {
				var wg sync.WaitGroup
				for i, o := range all {
					wg.Add(1)
					rr := rand.New(rand.NewSource(r.Int63()))
					lw := *w
					lw.R = rr
					i, o := i, o
					_ = i
					go func() {
						defer wg.Done()
						c.guard(func() {
							for k := 0; k < 25 && !c.Failed(); k++ {
								step(o, &lw, rr)
								if rr.Intn(4) == 0 {
									pause(rr)
								}
							}
						})
					}()
				}
				wg.Wait()
				c.Add("concurrent_stores", len(all))
			} else {
				for k := 40 + r.Intn(60); k > 0 && !c.Failed(); k-- {
					if r.Intn(8) == 0 {
						pause(r)
						continue
					}
					o := all[r.Intn(len(all))]
					if r.Intn(3) == 0 { // nearly the same history in all stores
						for _, o := range all {
							step(o, w, r)
						}
					} else {
						step(o, w, r)
					}
					if r.Intn(8) == 0 {
						compare("running")
					}
				}
			}
			if !c.Failed() {
				compare("at the end")
				time.Sleep(Settle)
				synctest.Wait()
				compare("idle")
			}
		})
		if end == "deadlock" {
			c.Failf("everything is blocked")
		}
	}
	for _, o := range all {
		total += o.h.saves
		c.Finger(o.h.saves, len(o.h.ref.docs))
	}
	independentCaches(c)
	if total > 4 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"disk_stores": nDisk, "memory_stores": nMem, "sessions": sessions, "saves": total, "concurrent": conc})
}

func independentCaches(c *Case) {
	r := c.R
	end := c.Bubble(func() {
		l1, l2 := cache.NewLRUCache[int](1000), cache.NewLRUCache[int](1000)
		m1, m2 := cache.NewLocalMap[int](), cache.NewLocalMap[int]()
		s1, s2 := cache.NewShardMap[int](3), cache.NewShardMap[int](5)
		u1, u2 := cache.NewCacheRCU[int](), cache.NewCacheRCU[int]()
		y1, y2 := cache.NewSyncMap[int](), cache.NewSyncMap[int]()
		want := [2]map[string]int{{}, {}}
		for i := 0; i < 60; i++ {
			k, v, side := fmt.Sprint("k", r.Intn(12)), i+1, r.Intn(2)
			want[side][k] = v
			[]*cache.LRUCache[int]{l1, l2}[side].Put(k, v)
			[]*cache.LocalMap[int]{m1, m2}[side].Set(k, v)
			if m, ok := []*cache.Shard[int]{s1, s2}[side].Get(k); ok {
				m.Set(k, v)
			}
			[]*cache.RCU[int]{u1, u2}[side].Put(k, v)
			[]*cache.SyncMap[int]{y1, y2}[side].Put(k, v)
		}
		time.Sleep(6 * time.Second)
		synctest.Wait()
		for i := 0; i < 12; i++ {
			k := fmt.Sprint("k", i)
			for side := range want {
				w, has := want[side][k]
				chk := func(name string, p *int, ok bool) {
					c.Add("cache_reads", 1)
					if ok != has || (has && (p == nil || *p != w)) {
						c.Failf("%s %d of two: key %q reads %v %v, want %d %v", name, side, k, p, ok, w, has)
					}
				}
				p, ok := []*cache.LRUCache[int]{l1, l2}[side].Get(k)
				chk("LRU cache", p, ok)
				p, ok = []*cache.LocalMap[int]{m1, m2}[side].Get(k)
				chk("local map", p, ok)
				if m, found := []*cache.Shard[int]{s1, s2}[side].Get(k); found {
					p, ok = m.Get(k)
					chk("sharded map", p, ok)
				} else {
					c.Failf("sharded map %d of two has no shard for key %q", side, k)
				}
				p, ok = []*cache.RCU[int]{u1, u2}[side].Get(k)
				chk("RCU cache", p, ok)
				p, ok = []*cache.SyncMap[int]{y1, y2}[side].Get(k)
				chk("SyncMap", p, ok)
			}
		}
	})
	if end == "deadlock" {
		c.Failf("two caches of a kind block each other")
	}
}

func init() {
	props["C22"] = def{quick: 240, deep: 6000, procs: []int{2, 4, 1}, run: func(c *Case) {
		if c.Idx%4 == 3 {
			apartStress(c)
			return
		}
		apartCase(c)
	}}
	props["C24"] = def{quick: 120, deep: 3000, procs: []int{2, 4, 1}, run: independentCase}
}
