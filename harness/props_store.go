package vh

import (
	"fmt"
	"math"
	"math/rand"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/similarity"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Settle is the flush bound the properties state: 20 seconds after the last save everything is durable.
const Settle = 20 * time.Second

type hist struct {
	c       *Case
	w       *World
	ref     *Ref
	s       storage.Storage
	session int
	cache   int
	disk    bool
	start   time.Time
	exact   bool
	saves   int
	resaves int
	lastId  string
	lastOld *model.Field
	lastNew model.Field
}

type plan struct {
	disk     bool
	sessions int
	ops      int
	resave   float64 // probability that a save targets an already saved (document, field)
	pauses   float64
	caches   []int
	onSave   func(h *hist)
	probe    func(h *hist, when string)
	atOpen   func(h *hist, when string)
	atEnd    func(h *hist, when string)
}

func (h *hist) when() string {
	if !h.disk {
		return fmt.Sprintf("memory store, after %d saves", h.saves)
	}
	return fmt.Sprintf("disk store (cache %d), session %d at %v, after %d saves", h.cache, h.session+1, time.Since(h.start), h.saves)
}

// pickKey chooses what the next save writes.
func (h *hist) pickKey(resave float64) (string, string) {
	for try := 0; try < 50; try++ {
		id, f := h.w.Id(), h.w.Field()
		_, had := h.ref.docs[id][f]
		if had == (h.w.R.Float64() < resave) {
			return id, f
		}
		if resave == 0 && !had {
			return id, f
		}
	}
	// Everything saved already: invent a new document.
	if resave < 1 {
		id := fmt.Sprintf("n%d", len(h.w.Ids))
		h.w.Ids = append(h.w.Ids, id)
		return id, h.w.Field()
	}
	return h.w.Id(), h.w.Field()
}

func (h *hist) save(id string, f model.Field) {
	h.lastId, h.lastOld, h.lastNew = id, nil, f
	if old, ok := h.ref.docs[id][f.Name]; ok {
		o := cloneField(old)
		h.lastOld = &o
		h.resaves++
	}
	h.c.Logf("%s: save %q %v", h.when(), id, f)
	h.ref.Save(id, f)
	if h.saves%3 == 0 {
		ix, _ := h.c.Engine(h.s)
		ix.IndexDocument(id, model.NormalizedDocument{Fields: []model.Field{cloneField(f)}})
	} else {
		h.s.SaveOrUpdate(id, cloneField(f))
	}
	h.saves++
	h.c.Add("saves", 1)
	if h.lastOld != nil {
		h.c.Add("resaves", 1)
	}
}

// empty saves, now and then, an empty version of every document of a field (or of all but one), mostly some time after
// everything else was flushed. Its choices do not come from the case's stream of random numbers.
func (h *hist) empty(p plan) {
	r := rand.New(rand.NewSource(int64(h.c.Idx)*7919 + int64(h.session)))
	if r.Intn(5) != 0 {
		return
	}
	fields := h.ref.Fields()
	if len(fields) == 0 {
		return
	}
	f := fields[r.Intn(len(fields))]
	if n := h.ref.Size(f); n == 0 || n > 60 {
		return
	}
	if p.disk && r.Intn(4) != 0 {
		time.Sleep(time.Duration(6+r.Intn(24)) * time.Second)
	}
	keep := ""
	if ids := h.ref.Ids(); r.Intn(4) == 0 {
		keep = ids[r.Intn(len(ids))]
	}
	for _, id := range h.ref.Ids() {
		if _, ok := h.ref.docs[id][f]; ok && id != keep {
			h.save(id, model.Field{Name: f, TF: map[string]int{}})
			if p.onSave != nil {
				p.onSave(h)
			}
		}
	}
	h.c.Add("fields_emptied", 1)
}

var pauseChoices = []time.Duration{1, 2, 3, 4, 5, 5, 6, 7, 8, 10, 10, 12, 13, 15, 17, 21, 26, 31}

// runHistory executes a random history of saves, pauses, probes and restarts, calling the plan's oracles.
func runHistory(c *Case, w *World, p plan) *hist {
	h := &hist{c: c, w: w, ref: NewRef(), disk: p.disk, exact: true}
	root := ""
	if p.disk {
		root = c.Dir()
		defer Clean(root)
	} else {
		p.sessions = 1
	}
	for h.session = 0; h.session < p.sessions && !c.Failed(); h.session++ {
		last := h.session == p.sessions-1
		end := c.Bubble(func() {
			h.start = time.Now()
			if p.disk {
				h.cache = p.caches[w.R.Intn(len(p.caches))]
				h.exact = h.session == 0
				s, err := storage.NewDiskStore(root, h.cache)
				if err != nil {
					c.Failf("opening the store for session %d: %v", h.session+1, err)
					return
				}
				h.s = s
			} else {
				h.s = storage.NewMemory()
			}
			if h.session > 0 {
				c.Add("restarts", 1)
				if p.atOpen != nil {
					p.atOpen(h, h.when()+" (just opened)")
				}
				if last && w.R.Intn(3) == 0 {
					return
				}
			}
			n := p.ops/p.sessions + w.R.Intn(p.ops/p.sessions+1)
			longIdle := -1
			if p.disk && w.R.Intn(24) == 0 {
				longIdle = w.R.Intn(n/2 + 1)
			}
			for i := 0; i < n && !c.Failed(); i++ {
				x := w.R.Float64()
				switch {
				case i == longIdle:
					d := time.Duration(10+w.R.Intn(170)) * time.Minute
					c.Logf("%s: pause %v", h.when(), d)
					time.Sleep(d)
					c.Add("long_idle", 1)
				case p.disk && x < p.pauses:
					d := pauseChoices[w.R.Intn(len(pauseChoices))] * time.Second
					if w.R.Intn(3) == 0 {
						d = time.Duration(w.R.Int63n(int64(16 * time.Second)))
					}
					c.Logf("%s: pause %v", h.when(), d)
					time.Sleep(d)
					c.Add("virtual_seconds", int(d/time.Second))
				default:
					id, f := h.pickKey(p.resave)
					h.save(id, w.Version(f))
					if p.onSave != nil {
						p.onSave(h)
					}
				}
				if p.probe != nil && w.R.Intn(6) == 0 {
					p.probe(h, h.when())
				}
			}
			if !c.Failed() {
				h.empty(p)
			}
			if p.disk {
				time.Sleep(Settle)
				c.Add("virtual_seconds", 20)
				synctest.Wait()
			}
			if p.atEnd != nil && !c.Failed() {
				p.atEnd(h, h.when()+" (idle)")
			}
		})
		if end == "deadlock" {
			c.Failf("%s: everything is blocked, no operation can finish", h.when())
		} else if end == "left" && !p.disk {
			c.Failf("memory store: goroutines are left blocked after all operations returned")
		}
	}
	c.Finger(w.Ids, w.Fields, w.Vocab, h.saves, h.resaves, p.disk, h.cache)
	for _, id := range h.ref.Ids() {
		c.Finger(id, len(h.ref.docs[id]))
	}
	if h.saves >= 3 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"disk": p.disk, "documents": len(h.ref.docs), "fields": w.Fields, "vocabulary": len(w.Vocab), "saves": h.saves, "resaves": h.resaves, "sessions": p.sessions, "last_cache": h.cache})
	return h
}

func bigSearchCorpus(c *Case, what int) {
	// Many documents, many terms, many field queries: beyond every internal buffer.
	w := NewWorld(c.R, 1, 1, 3)
	w.Ids = nil
	n := 300 + c.R.Intn(1500)
	huge := c.Idx%100 == 99
	if huge {
		n = 6000 + c.R.Intn(30000)
	}
	for i := 0; i < n; i++ {
		w.Ids = append(w.Ids, fmt.Sprintf("doc-%d", i))
	}
	w.Vocab = nil
	if huge {
		w.Vocab = append(w.Vocab, "the", "the")
	}
	for i := 0; i < 120; i++ {
		w.Vocab = append(w.Vocab, fmt.Sprintf("w%d", i))
	}
	w.MaxLen = 8
	ref := NewRef()
	s := storage.NewMemory()
	end := c.Bubble(func() {
		for _, id := range w.Ids {
			f := w.Version(w.Field())
			if huge {
				f = w.Version(w.Fields[0])
				f.Length -= f.TF["the"]
				if f.TF == nil {
					f.TF = map[string]int{}
				}
				f.TF["the"] = 1 + w.R.Intn(3)
				f.Length += f.TF["the"]
			}
			ref.Save(id, f)
			s.SaveOrUpdate(id, cloneField(f))
		}
		c.Add("saves", n)
		for i := 0; i < 6; i++ {
			cmpSearch(c, fmt.Sprintf("memory store with %d documents", n), s, ref, w.Query(6, 150), what)
		}
		if huge {
			for _, b := range []float64{1, 1e-9, 0} {
				cmpSearch(c, fmt.Sprintf("memory store with %d documents", n), s, ref, []model.Query{{FieldName: w.Fields[0], Terms: []string{"the"}, Boost: b}}, what)
			}
			c.Add("huge_corpora", 1)
		}
		all := model.Query{FieldName: w.Fields[0], Terms: w.Vocab, Boost: 1}
		cmpSearch(c, "all terms", s, ref, []model.Query{all, all}, what)
	})
	if end != "" {
		c.Failf("search on %d documents ended with goroutines blocked (%s)", n, end)
	}
	c.Finger("big", n, w.Fields)
	c.NonTrivial()
	c.Sample(map[string]any{"documents": n, "vocabulary": 120})
}

func smallWorld(c *Case) *World {
	docs, vocab := 3, 4
	switch c.R.Intn(3) {
	case 1:
		docs, vocab = 12, 10
	case 2:
		docs, vocab = 50, 40
	}
	return NewWorld(c.R, docs, vocab, 4)
}

func someIds(h *hist, n int) []string {
	var ids []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		id := h.w.Id()
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}

// cmpIndexSearch compares the field-level search with the model.
func cmpIndexSearch(h *hist, when string) {
	f := h.w.Field()
	var terms []string
	for i := h.w.R.Intn(6); i >= 0; i-- {
		terms = append(terms, h.w.Term())
	}
	ix, _ := h.c.Engine(h.s)
	r := ix.Search(append([]string(nil), terms...), f)
	want := h.ref.Search([]model.Query{{FieldName: f, Terms: terms}})
	for id := range want {
		g, ok := r.FieldDocuments[id]
		if !ok {
			h.c.Failf("%s: field search %q in %q does not return document %q", when, terms, f, id)
		} else if !fieldEq(g, h.ref.docs[id][f]) {
			h.c.Failf("%s: field search %q in %q returns %v for document %q, last saved %v", when, terms, f, g, id, h.ref.docs[id][f])
		}
	}
	for id := range r.FieldDocuments {
		if _, ok := want[id]; !ok {
			h.c.Failf("%s: field search %q in %q returns document %q, which does not match", when, terms, f, id)
		}
	}
	h.c.Add("searches_compared", 1)
}

func searchPlan(c *Case, what int) plan {
	probe := func(h *hist, when string) {
		cmpSearch(c, when, h.s, h.ref, h.w.Query(4, 40), what)
		if what&cmpHits != 0 {
			cmpIndexSearch(h, when)
		}
	}
	many := func(h *hist, when string) {
		for i := 0; i < 8; i++ {
			probe(h, when)
		}
	}
	p := plan{ops: 30 + c.R.Intn(60), probe: probe, atEnd: many, atOpen: many, caches: []int{1, 2, 5, 1000}, sessions: 1, pauses: 0.15}
	switch c.Idx % 4 {
	case 0:
		p.resave = 0
	case 1:
		p.resave = 0.3
	case 2:
		p.disk, p.resave = true, 0
		p.sessions = 1 + c.R.Intn(3)
	case 3:
		p.disk, p.resave = true, 0.3
		p.sessions = 1 + c.R.Intn(3)
	}
	return p
}

func init() {
	props["C01"] = def{quick: 400, deep: 6000, procs: []int{2, 4, 1, 8, 3}, run: func(c *Case) {
		if c.Idx%10 == 7 {
			bigHistory(c, bigHits)
			return
		}
		if c.Idx%20 == 19 {
			bigSearchCorpus(c, cmpHits)
			return
		}
		runHistory(c, smallWorld(c), searchPlan(c, cmpHits))
	}}
	props["C02"] = def{quick: 400, deep: 6000, procs: []int{2, 4, 1, 8, 3}, run: func(c *Case) {
		scoreFunctions(c)
		if c.Idx%10 == 7 {
			bigHistory(c, bigHits|bigScores)
			return
		}
		if c.Idx%20 == 19 {
			bigSearchCorpus(c, cmpScores)
			return
		}
		runHistory(c, smallWorld(c), searchPlan(c, cmpScores))
	}}
	props["C03"] = def{quick: 320, deep: 6000, procs: []int{2, 4, 1}, run: func(c *Case) {
		if c.Idx%10 == 7 {
			bigHistory(c, bigStats)
			return
		}
		stats := func(h *hist, when string) {
			for _, f := range append(h.ref.Fields(), "no-such-field") {
				cmpStats(c, when, h.s, h.ref, f, append(append([]string(nil), h.ref.Terms(f)...), "no-such-term"))
			}
		}
		p := plan{ops: 30 + c.R.Intn(80), probe: stats, atOpen: stats, atEnd: stats, pauses: 0.2, caches: []int{1, 2, 4, 100},
			onSave: func(h *hist) {
				t := sortedKeys(h.lastNew.TF)
				if h.lastOld != nil {
					t = append(t, sortedKeys(h.lastOld.TF)...)
				}
				cmpStats(c, h.when(), h.s, h.ref, h.lastNew.Name, t)
			}}
		p.resave = []float64{0, 0.3, 0.7}[c.R.Intn(3)]
		if c.Idx%3 != 0 {
			p.disk, p.sessions = true, 1+c.R.Intn(4)
		}
		runHistory(c, smallWorld(c), p)
	}}
	props["C04"] = def{quick: 320, deep: 6000, procs: []int{2, 4, 1}, run: replaceCase}
	props["C05"] = def{quick: 280, deep: 5000, procs: []int{2, 4, 1}, run: transparencyCase}
	props["C06"] = def{quick: 280, deep: 5000, procs: []int{2, 4, 1}, run: func(c *Case) {
		if c.Idx%10 == 7 {
			bigHistory(c, bigDocs|bigStats|bigPostings|bigHits|bigScores)
			return
		}
		all := func(h *hist, when string) {
			cmpAll(c, when, h.s, h.ref, false)
			for i := 0; i < 5; i++ {
				cmpSearch(c, when, h.s, h.ref, h.w.Query(4, 20), cmpHits|cmpScores)
			}
		}
		p := plan{disk: true, sessions: 2 + c.R.Intn(4), ops: 30 + c.R.Intn(80), pauses: 0.25, caches: []int{1, 2, 7, 1000}, atOpen: all,
			resave: []float64{0, 0, 0.3}[c.R.Intn(3)]}
		w := smallWorld(c)
		if c.Idx%10 == 9 { // much data at once
			w = NewWorld(c.R, 400, 300, 4)
			w.MaxLen = 30
			p.ops = 900
			p.pauses = 0.01
		}
		runHistory(c, w, p)
	}}
}

// replaceCase: every save of an existing field is followed by the reads that a replacement must and must not change.
func replaceCase(c *Case) {
	if c.Idx%10 == 7 {
		bigHistory(c, bigDocs|bigHits|bigPostings)
		return
	}
	p := plan{ops: 30 + c.R.Intn(70), pauses: 0.2, caches: []int{1, 1, 2, 3, 50}, resave: 0.5}
	if c.Idx%3 != 0 {
		p.disk, p.sessions = true, 1+c.R.Intn(3)
	}
	docs := func(h *hist, when string) {
		for _, f := range h.ref.Fields() {
			cmpDocs(c, when, h.s, h.ref, someIds(h, 6), f)
		}
	}
	p.probe = docs
	all := func(h *hist, when string) {
		for _, f := range h.ref.Fields() {
			cmpDocs(c, when, h.s, h.ref, h.ref.Ids(), f)
			for _, t := range h.ref.Terms(f) {
				cmpSearch(c, when, h.s, h.ref, []model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}, cmpHits)
				cmpPostings(c, when, h.s, h.ref, f, t, h.exact || !h.ref.resaved[f])
			}
		}
	}
	p.atOpen, p.atEnd = all, all
	p.onSave = func(h *hist) {
		if h.lastOld == nil {
			return
		}
		f := h.lastNew.Name
		when := h.when() + fmt.Sprintf(" (after replacing %q of %q)", f, h.lastId)
		other := someIds(h, 3)
		for _, g := range h.ref.Fields() {
			cmpDocs(c, when, h.s, h.ref, []string{h.lastId}, g)
			cmpDocs(c, when, h.s, h.ref, other, g)
		}
		for t := range h.lastOld.TF {
			cmpSearch(c, when, h.s, h.ref, []model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}, cmpHits)
			cmpPostings(c, when, h.s, h.ref, f, t, h.exact)
		}
		for t := range h.lastNew.TF {
			cmpSearch(c, when, h.s, h.ref, []model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}, cmpHits)
		}
	}
	w := smallWorld(c)
	if len(w.Ids) > 12 {
		w.Ids = w.Ids[:12]
	}
	runHistory(c, w, p)
}

// transparencyCase runs one history on the memory store and on disk stores with different caches, side by side.
func transparencyCase(c *Case) {
	if c.Idx%10 == 7 {
		bigHistory(c, bigDocs|bigStats|bigPostings|bigHits|bigScores)
		return
	}
	w := smallWorld(c)
	caches := []int{0, 1, 2, 3, 1000}
	c.R.Shuffle(len(caches), func(i, j int) { caches[i], caches[j] = caches[j], caches[i] })
	caches = caches[:2]
	resave := []float64{0, 0.4}[c.R.Intn(2)]
	h := &hist{c: c, w: w, ref: NewRef(), disk: true, exact: true}
	var roots []string
	end := c.Bubble(func() {
		h.start = time.Now()
		mem := storage.NewMemory()
		var disks []storage.Storage
		for _, k := range caches {
			d := c.Dir()
			roots = append(roots, d)
			s, err := storage.NewDiskStore(d, k)
			if err != nil {
				c.Failf("opening with cache %d: %v", k, err)
				return
			}
			disks = append(disks, s)
		}
		n := 30 + c.R.Intn(70)
		for i := 0; i < n && !c.Failed(); i++ {
			if c.R.Intn(4) == 0 {
				d := pauseChoices[c.R.Intn(len(pauseChoices))] * time.Second
				if c.R.Intn(2) == 0 {
					d = time.Duration(c.R.Int63n(int64(11 * time.Second)))
				}
				time.Sleep(d)
				c.Logf("pause %v", d)
			} else {
				id, f := h.pickKey(resave)
				v := w.Version(f)
				c.Logf("at %v save %q %v", time.Since(h.start), id, v)
				h.ref.Save(id, v)
				mem.SaveOrUpdate(id, cloneField(v))
				for _, s := range disks {
					s.SaveOrUpdate(id, cloneField(v))
				}
				h.saves++
				c.Add("saves", 1)
				for j, s := range disks {
					when := fmt.Sprintf("disk store (cache %d) at %v, right after saving", caches[j], time.Since(h.start))
					for _, g := range h.ref.Fields() {
						cmpDocs(c, when, s, h.ref, []string{id}, g)
					}
				}
			}
			if c.R.Intn(5) == 0 {
				qs := w.Query(3, 12)
				ids := someIds(h, 8)
				f := w.Field()
				t := w.Term()
				for j, s := range append([]storage.Storage{mem}, disks...) {
					when := fmt.Sprintf("memory store at %v", time.Since(h.start))
					if j > 0 {
						when = fmt.Sprintf("disk store (cache %d) at %v", caches[j-1], time.Since(h.start))
					}
					cmpSearch(c, when, s, h.ref, qs, cmpHits|cmpScores)
					cmpDocs(c, when, s, h.ref, ids, f)
					cmpPostings(c, when, s, h.ref, f, t, true)
					cmpStats(c, when, s, h.ref, f, []string{t})
				}
			}
		}
		for j, s := range append([]storage.Storage{mem}, disks...) {
			cmpAll(c, fmt.Sprintf("at the end, store %d of memory and caches %v", j, caches), s, h.ref, true)
		}
	})
	for _, d := range roots {
		Clean(d)
	}
	if end == "deadlock" {
		c.Failf("everything is blocked")
	}
	c.Finger(w.Ids, w.Vocab, caches, h.saves)
	if h.saves > 2 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"caches": caches, "documents": len(h.ref.docs), "saves": h.saves})
}

// scoreFunctions checks the scorer itself on random inputs.
func scoreFunctions(c *Case) {
	r := c.R
	for i := 0; i < 50; i++ {
		N := float64(1 + r.Intn(100000))
		n := float64(r.Intn(int(N) + 1))
		if g, w := metric.IdfBM25(N, n), refIDF(N, n); !near(g, w) {
			c.Failf("idf of a term in %v of %v documents is %v, want %v", n, N, g, w)
		}
		f := model.Field{Name: "f", TF: map[string]int{}}
		var q []string
		for t := 0; t < 1+r.Intn(6); t++ {
			name := fmt.Sprint("t", t)
			if r.Intn(3) > 0 {
				f.TF[name] = 1 + r.Intn(50)
				f.Length += f.TF[name]
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				q = append(q, name)
			}
		}
		f.Length += r.Intn(3)
		df := map[string]int{}
		for _, t := range q {
			df[t] = 1 + r.Intn(int(N))
		}
		k1, b := 0.1+3*r.Float64(), r.Float64()
		boost := []float64{0, 1, 2.5, 0.1}[r.Intn(4)]
		avg := 0.5 + 40*r.Float64()
		g := similarity.BM25(append([]string(nil), q...), k1, b, boost, avg, N, df, f)
		w := 0.0
		bb := boost
		if bb == 0 {
			bb = 1
		}
		for _, t := range q {
			x := float64(f.TF[t])
			w += bb * refIDF(N, float64(df[t])) * x * (k1 + 1) / (x + k1*(1-b+b*float64(f.Length)/avg))
		}
		if !near(g, w) || math.IsNaN(g) {
			c.Failf("BM25(query %q, k1 %v, b %v, boost %v, avg %v, N %v, df %v, field %v) = %v, want %v", q, k1, b, boost, avg, N, df, f, g, w)
		}
		c.Add("score_formula_checks", 2)
	}
	_ = rand.Int
}
