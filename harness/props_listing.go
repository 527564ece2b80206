package vh

import (
	"fmt"
	"math/rand"
	"sync"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C31: UpdateIndex lists a document under terms, and does nothing else ----

// listings is what was listed besides what was saved: field -> term -> documents.
type listings map[string]map[string]map[string]bool

// What the saved version of the document has is not an extra: it comes and goes with the versions.
func (l listings) add(ref *Ref, id string, f model.Field) {
	if l[f.Name] == nil {
		l[f.Name] = map[string]map[string]bool{}
	}
	for t := range f.TF {
		if _, ok := ref.docs[id][f.Name].TF[t]; ok {
			continue
		}
		if l[f.Name][t] == nil {
			l[f.Name][t] = map[string]bool{}
		}
		l[f.Name][t][id] = true
	}
}

// judge compares the whole field: postings, documents and hits.
func (l listings) judge(c *Case, r *rand.Rand, when string, s storage.Storage, ref *Ref, field string, exact bool) {
	terms := map[string]bool{}
	for t := range l[field] {
		terms[t] = true
	}
	for t := range ref.ever[field] {
		terms[t] = true
	}
	full := s.GetIndex(field)
	for t, set := range full {
		if !terms[t] && set.Size() > 0 {
			c.Failf("%s: the index of field %q has the term %q, which was neither saved nor listed", when, field, t)
		}
	}
	all := map[string]bool{}
	for _, t := range sortedKeys(terms) {
		set, _ := s.GetDocuments(field, t)
		want, listed := ref.Postings(field, t), l[field][t]
		for id := range want {
			all[id] = true
			if !set.Contains(id) {
				c.Failf("%s: document %q has term %q in field %q but is not listed under it", when, id, t, field)
			}
		}
		for id := range listed {
			all[id] = true
			if !set.Contains(id) {
				c.Failf("%s: document %q was listed under term %q of field %q and is no more", when, id, t, field)
			}
		}
		for id := range set.GetData() {
			if want[id] || listed[id] || (!exact && ref.ever[field][t][id]) {
				continue
			}
			c.Failf("%s: document %q is listed under term %q of field %q, which it does not have and was not listed under", when, id, t, field)
		}
		n := 0
		if g := full[t]; g != nil {
			n = g.Size()
			for id := range g.GetData() {
				if !set.Contains(id) {
					c.Failf("%s: the field index of %q and the postings of %q disagree on document %q", when, field, t, id)
				}
			}
		}
		if n != set.Size() {
			c.Failf("%s: the field index of %q lists %d documents under %q, its postings %d", when, field, n, t, set.Size())
		}
		c.Add("postings_compared", 1)
		if r.Intn(3) == 0 {
			qs := []model.Query{{FieldName: field, Terms: []string{t, sortedKeys(terms)[r.Intn(len(terms))]}, Boost: 1}}
			_, sr := c.Engine(s)
			judgeSearch(c, when, qs, sr.Search(qs), ref.Search(qs), cmpHits)
			c.Add("searches_compared", 1)
		}
	}
	cmpDocs(c, when, s, ref, sortedKeys(all), field)
}

func listingCase(c *Case) {
	r := c.R
	w := smallWorld(c)
	disk := r.Intn(3) > 0
	ref, l := NewRef(), listings{}
	fields := append([]string{"only-listed"}, w.Fields...)
	root := ""
	sessions := 1
	if disk {
		root = c.Dir()
		defer Clean(root)
		sessions = 1 + r.Intn(3)
	}
	saves, calls := 0, 0
	// listing makes one call: what is saved again, terms of the others, terms of its own; stored or unknown documents.
	listing := func(r *rand.Rand, who int) (string, model.Field) {
		id, name := w.Ids[r.Intn(len(w.Ids))], fields[r.Intn(len(fields))]
		stored, ok := ref.docs[id][name]
		if ok && r.Intn(2) == 0 {
			return id, cloneField(stored)
		}
		unknown := !ok || r.Intn(3) > 0
		if unknown {
			id = fmt.Sprintf("unknown-%d-%d", who, r.Intn(6))
		}
		f := model.Field{Name: name, Length: 1 + r.Intn(9), TF: map[string]int{}}
		for k := r.Intn(5); k > 0; k-- {
			t := fmt.Sprintf("own%d", r.Intn(8))
			if unknown && r.Intn(2) == 0 {
				t = w.Vocab[r.Intn(len(w.Vocab))]
			}
			f.TF[t] = 1 + r.Intn(4)
		}
		return id, f
	}
	for sess := 0; sess < sessions && !c.Failed(); sess++ {
		end := c.Bubble(func() {
			start := time.Now()
			var s storage.Storage
			if disk {
				var err error
				cache := []int{0, 1, 3, 1000}[r.Intn(4)]
				if s, err = storage.NewDiskStore(root, cache); err != nil {
					c.Failf("opening for session %d: %v", sess+1, err)
					return
				}
			} else {
				s = storage.NewMemory()
			}
			exact := sess == 0
			when := func() string {
				return fmt.Sprintf("session %d at %v, after %d saves and %d listings, on disk: %v", sess+1, time.Since(start), saves, calls, disk)
			}
			if sess > 0 {
				for _, f := range fields {
					l.judge(c, r, when()+", just opened", s, ref, f, exact)
				}
				c.Add("restarts", 1)
			}
			for i := 4 + r.Intn(40); i > 0 && !c.Failed(); i-- {
				switch x := r.Intn(8); {
				case x < 3:
					id, f := w.Id(), w.Version(w.Field())
					c.Logf("%s: save %q %v", when(), id, f)
					ref.Save(id, f)
					s.SaveOrUpdate(id, cloneField(f))
					saves++
				case x < 6:
					id, f := listing(r, 0)
					c.Logf("%s: list %q %v", when(), id, f)
					l.add(ref, id, f)
					s.UpdateIndex(id, cloneField(f))
					calls++
					c.Add("listings", 1)
				case x == 6 && disk:
					time.Sleep(pauseChoices[r.Intn(len(pauseChoices))] * time.Second)
				default: // several at once, and saves and searches with them
					n := 2 + r.Intn(4)
					type call struct {
						id string
						f  model.Field
					}
					plans := make([][]call, n)
					for k := range plans {
						for j := 1 + r.Intn(8); j > 0; j-- {
							id, f := listing(r, k+1)
							plans[k] = append(plans[k], call{id, f})
						}
					}
					var saved []call
					for j := r.Intn(8); j > 0; j-- {
						saved = append(saved, call{fmt.Sprintf("new%d", r.Intn(20)), w.Version(w.Field())})
					}
					qs := w.Query(2, 4)
					for _, p := range plans {
						for _, x := range p {
							l.add(ref, x.id, x.f)
							c.Logf("%s: list %q %v, concurrently", when(), x.id, x.f)
						}
						calls += len(p)
						c.Add("listings", len(p))
						c.Add("concurrent_listings", len(p))
					}
					for _, x := range saved {
						ref.Save(x.id, x.f)
						c.Logf("%s: save %q %v, concurrently", when(), x.id, x.f)
					}
					saves += len(saved)
					var wg sync.WaitGroup
					run := func(f func()) {
						wg.Add(1)
						go func() {
							defer wg.Done()
							c.guard(f)
						}()
					}
					for _, p := range plans {
						run(func() {
							for _, x := range p {
								s.UpdateIndex(x.id, cloneField(x.f))
							}
						})
					}
					run(func() {
						for _, x := range saved {
							s.SaveOrUpdate(x.id, cloneField(x.f))
						}
					})
					run(func() {
						_, sr := c.Engine(s)
						for range 3 {
							for _, h := range sr.Search(qs) {
								if len(h.Id) > 7 && h.Id[:7] == "unknown" {
									c.Failf("%s: a search finds %q, which was never saved", when(), h.Id)
								}
							}
						}
					})
					wg.Wait()
				}
				if r.Intn(5) == 0 {
					l.judge(c, r, when(), s, ref, fields[r.Intn(len(fields))], exact)
				}
			}
			if disk {
				time.Sleep(Settle)
				synctest.Wait()
			}
			for _, f := range fields {
				l.judge(c, r, when()+", at rest", s, ref, f, exact)
			}
		})
		if end == "deadlock" {
			c.Failf("everything is blocked")
		} else if end == "left" && !disk {
			c.Failf("memory store: goroutines are left blocked after all operations returned")
		}
	}
	c.Finger(w.Ids, fields, w.Vocab, saves, calls, disk)
	if calls > 1 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"disk": disk, "saves": saves, "listings": calls, "sessions": sessions, "fields": len(fields)})
}

func init() {
	props["C31"] = def{quick: 900, deep: 20000, procs: []int{4, 8, 2}, run: listingCase}
}
