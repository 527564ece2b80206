package vh

import (
	"fmt"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Histories beyond every buffer, batch and limit that the usual small ones stay below: many documents, many fields, wide
// documents, long sessions, many restarts.

const (
	bigDocs = 1 << iota
	bigStats
	bigPostings
	bigHits
	bigScores
)

// cmpBig compares the parts of the whole store that what names, with one call per field and kind.
func cmpBig(c *Case, when string, s storage.Storage, r *Ref, exact bool, what int) {
	r.audit()
	ids := append(r.Ids(), "no-such-document")
	for _, f := range append(r.Fields(), "no-such-field") {
		if c.Failed() {
			return
		}
		terms := append(append([]string(nil), r.Terms(f)...), "no-such-term")
		if what&bigStats != 0 {
			cmpStats(c, when, s, r, f, terms)
		}
		if what&bigDocs != 0 {
			cmpDocs(c, when, s, r, ids, f)
		}
		if what&bigPostings == 0 {
			continue
		}
		strict := exact || !r.resaved[f]
		ix := s.GetIndex(f)
		for i, t := range terms {
			want := r.Postings(f, t)
			n := 0
			if set := ix[t]; set != nil {
				for id := range set.GetData() {
					switch {
					case want[id]:
						n++
					case strict || !r.ever[f][t][id]:
						c.Failf("%s: document %q is listed under term %q of field %q without having it", when, id, t, f)
					}
				}
			}
			if n != len(want) {
				c.Failf("%s: %d of the %d documents with term %q in field %q are listed under it", when, n, len(want), t, f)
			}
			if i%97 == 0 {
				set, ok := s.GetDocuments(f, t)
				for id := range want {
					if !ok || !set.Contains(id) {
						c.Failf("%s: document %q has term %q in field %q but is not listed under it", when, id, t, f)
						break
					}
				}
			}
			c.Add("postings_compared", 1)
		}
		for t := range ix {
			if _, ok := r.ever[f][t]; !ok {
				c.Failf("%s: the index of field %q has term %q, which no document ever had", when, f, t)
			}
		}
	}
}

// wideQuery asks for thousands of terms, or in hundreds of fields at once.
// Where every part of a search loads whole fields from the disk, fewer fields.
func wideQuery(w *World, ref *Ref, loads bool) []model.Query {
	r := w.R
	budget := 5000000 / (1 + len(ref.docs)) // documents times terms
	most := 1800
	if raceOn { // the race detector ends at 8,128 goroutines
		budget, most = min(budget, 3000), 700
	}
	if r.Intn(2) == 0 {
		n := min(300+r.Intn(most-300), budget)
		if loads {
			entries := 0
			for _, d := range ref.docs {
				for _, f := range d {
					entries += len(f.TF)
				}
			}
			n = min(n, 4000000/(1+entries))
		}
		var qs []model.Query
		for len(qs) < n {
			q := model.Query{FieldName: w.Field(), Boost: 1 + float64(r.Intn(3)), Terms: []string{w.Term()}}
			if len(qs)%7 == 0 {
				q.FieldName = fmt.Sprint("absent", len(qs))
			}
			qs = append(qs, q)
		}
		return qs
	}
	n := min([]int{1100, 3000, 10000, 70000}[r.Intn(4)], budget)
	q := model.Query{FieldName: w.Field(), Boost: 1}
	if r.Intn(2) == 0 { // what counts comes last
		for i := 1; i < n; i++ {
			q.Terms = append(q.Terms, fmt.Sprint("absent", i))
		}
		q.Terms = append(q.Terms, w.Vocab[r.Intn(len(w.Vocab))], w.Term())
		return []model.Query{q}
	}
	for _, i := range r.Perm(n) {
		switch {
		case i < len(w.Vocab):
			q.Terms = append(q.Terms, w.Vocab[i])
		case r.Intn(3) == 0:
			q.Terms = append(q.Terms, w.Term())
		default:
			q.Terms = append(q.Terms, fmt.Sprint("absent", i))
		}
	}
	return []model.Query{q}
}

// bigHistory: one large history on a store, compared as a whole at every turn.
func bigHistory(c *Case, what int) {
	r := c.R
	disk := r.Intn(4) > 0
	shape := c.Idx / 10 % 6
	w := NewWorld(r, 1, 1, 3)
	w.Ids, w.Vocab = nil, nil
	var nIds, nVocab, nSaves, fieldsPerDoc int
	w.MaxLen = 8
	fieldsPerDoc = 1
	sessions := 2
	switch shape {
	case 0, 1: // many documents
		nIds, nVocab = 1100+r.Intn(3000), 120
		if r.Intn(3) == 0 {
			nIds = 10100 + r.Intn(8000)
		}
		if shape == 0 && c.Idx/60%8 == 3 { // more documents than 16 bits count
			nIds, disk, w.MaxLen, sessions = 65600+r.Intn(3000), true, 3, 1+r.Intn(2)
		}
		nSaves = nIds + r.Intn(min(nIds/4, 4000))
	case 2: // many fields
		w.Fields = nil
		for i := 20 + r.Intn(300); i >= 0; i-- {
			w.Fields = append(w.Fields, fmt.Sprintf("field.%d", i))
		}
		nIds, nVocab, nSaves, fieldsPerDoc = 12, 40, 30, 5+r.Intn(150)
	case 3: // documents with many different terms, in many postings
		nIds, nVocab, nSaves = 12, 30000, 25
		w.MaxLen = []int{1500, 5000, 20000}[r.Intn(3)]
		if c.Idx/60%3 == 2 { // more terms than 16 bits count
			nIds, nVocab, nSaves, w.MaxLen = 5, 120000, 8, 200000
		}
	case 4: // a long session: hundreds of flush and merge cycles
		nIds, nVocab, nSaves = 30, 40, 60
		disk = true
	default: // many sessions
		nIds, nVocab, nSaves = 40, 40, 60
		disk = true
		sessions = 8 + r.Intn(10)
	}
	if !disk {
		sessions = 1
	}
	for i := 0; i < nIds; i++ {
		w.Ids = append(w.Ids, fmt.Sprintf("doc-%d", i))
	}
	for i := 0; i < nVocab; i++ {
		w.Vocab = append(w.Vocab, fmt.Sprintf("w%d", i))
	}
	for i := 0; i < 3; i++ {
		w.Ids = pairUp(r, w.Ids, 1000)
		w.Vocab = pairUp(r, w.Vocab, 1000)
	}
	caches := []int{0, 1, 100, 1000, 300000}
	root := ""
	if disk {
		root = c.Dir()
		defer Clean(root)
	}
	ref := NewRef()
	saves := 0
	var s storage.Storage
	var start time.Time
	cache := -1
	for sess := 0; sess < sessions && !c.Failed(); sess++ {
		end := c.Bubble(func() {
			start = time.Now()
			if disk {
				cache = caches[r.Intn(len(caches))]
				d, err := storage.NewDiskStore(root, cache)
				if err != nil {
					c.Failf("opening the store for session %d: %v", sess+1, err)
					return
				}
				s = d
			} else {
				s = storage.NewMemory()
			}
			when := func() string {
				if !disk {
					return fmt.Sprintf("memory store, %d documents, after %d saves", len(ref.docs), saves)
				}
				return fmt.Sprintf("disk store (cache %d), session %d at %v, %d documents in %d fields, after %d saves", cache, sess+1, time.Since(start), len(ref.docs), len(ref.size), saves)
			}
			exact := sess == 0
			look := func() {
				if c.Failed() {
					return
				}
				cmpBig(c, when(), s, ref, exact, what)
				k := 0
				if what&bigHits != 0 {
					k |= cmpHits
				}
				if what&bigScores != 0 {
					k |= cmpScores
				}
				if k != 0 {
					for i := 0; i < 4 && !c.Failed(); i++ {
						cmpSearch(c, when(), s, ref, w.Query(4, 40), k)
					}
					if r.Intn(2) == 0 {
						cmpSearch(c, when(), s, ref, wideQuery(w, ref, disk && cache < len(w.Fields)), k)
					}
				}
			}
			if sess > 0 {
				c.Add("restarts", 1)
				look()
			}
			ix, _ := c.Engine(s)
			n := nSaves
			if sess > 0 || shape == 5 {
				n = 1 + nSaves/10
			}
			longIdle := -1
			if shape == 4 {
				longIdle = n - 1 - r.Intn(n/3+1)
			}
			pauseEvery := 1 + n/(1+r.Intn(4))
			for i := 0; i < n && !c.Failed(); i++ {
				id := w.Ids[r.Intn(len(w.Ids))]
				if sess == 0 && i < nIds {
					id = w.Ids[i]
				}
				doc := model.NormalizedDocument{}
				seen := map[string]bool{}
				for k := 0; k < fieldsPerDoc; k++ {
					if f := w.Field(); !seen[f] {
						seen[f] = true
						doc.Fields = append(doc.Fields, w.Version(f))
					}
				}
				for _, f := range doc.Fields {
					if _, had := ref.docs[id][f.Name]; had {
						c.Add("resaves", 1)
					}
					ref.Save(id, f)
					saves++
				}
				c.Add("saves", len(doc.Fields))
				ix.IndexDocument(id, doc)
				if !disk {
					continue
				}
				if i%pauseEvery == pauseEvery-1 {
					time.Sleep(pauseChoices[r.Intn(len(pauseChoices))] * time.Second)
				}
				if shape == 4 {
					d := time.Duration(r.Intn(240)) * time.Second
					if i == longIdle {
						d = time.Duration(10+r.Intn(240)) * time.Minute
						if c.Idx/60%3 == 0 { // into the next day
							d += 25 * time.Hour
						}
						c.Add("long_idle", 1)
					}
					time.Sleep(d)
					c.Add("virtual_seconds", int(d/time.Second))
					if r.Intn(8) == 0 {
						look()
					}
				}
			}
			look()
			if disk {
				time.Sleep(Settle)
				c.Add("virtual_seconds", 20)
				if shape == 4 {
					d := time.Duration(1+r.Intn(3)) * time.Hour
					time.Sleep(d)
					c.Add("virtual_seconds", int(d/time.Second))
				}
				synctest.Wait()
				if r.Intn(3) == 0 {
					look()
				}
			}
		})
		if end == "deadlock" {
			c.Failf("session %d: everything is blocked", sess+1)
		}
	}
	c.Add("big_histories", 1)
	c.Finger("big", shape, disk, nIds, len(w.Fields), saves)
	c.NonTrivial()
	c.Sample(map[string]any{"disk": disk, "shape": []string{"documents", "documents", "fields", "wide documents", "long session", "many sessions"}[shape], "documents": nIds, "fields": len(w.Fields), "saves": saves, "sessions": sessions})
}
