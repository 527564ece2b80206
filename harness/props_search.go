package vh

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C19: searches end ----

// slowStore passes every read on to a store, after a delay or a gate that the case chooses.
type slowStore struct {
	storage.Storage
	reads  atomic.Int64
	active atomic.Int64
	limit  int64
	before func(op, field string)
	c      *Case
}

func (s *slowStore) enter(op, field string) {
	n := s.reads.Add(1)
	if s.limit > 0 && n > s.limit {
		if n == s.limit+1 {
			s.c.Failf("a search has made %d store reads and goes on", n)
		}
		select {} // stop the runaway search; the bubble reports the rest
	}
	s.active.Add(1)
	if s.before != nil {
		s.before(op, field)
	}
	s.active.Add(-1)
}

func (s *slowStore) GetIndex(f string) map[string]*model.Set {
	s.enter("index", f)
	return s.Storage.GetIndex(f)
}
func (s *slowStore) GetDocuments(f, t string) (model.Set, bool) {
	s.enter("documents", f)
	return s.Storage.GetDocuments(f, t)
}
func (s *slowStore) GetFields(ids []string, f string) map[string]model.Field {
	s.enter("fields", f)
	return s.Storage.GetFields(ids, f)
}
func (s *slowStore) GetNumberFieldTerm(f string, t []string) map[string]int {
	s.enter("nfterm", f)
	return s.Storage.GetNumberFieldTerm(f, t)
}
func (s *slowStore) GetFieldLength(f string) int {
	s.enter("length", f)
	return s.Storage.GetFieldLength(f)
}
func (s *slowStore) GetFieldSize(f string) int {
	s.enter("size", f)
	return s.Storage.GetFieldSize(f)
}

func bigWorld(c *Case, maxDocs, vocab int) (storage.Storage, *Ref, *World) {
	w := NewWorld(c.R, 5, vocab, 3)
	w.MaxLen = 1 + c.R.Intn(20)
	m, ref := storage.NewMemory(), NewRef()
	n := 1 + c.R.Intn(maxDocs)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("d%d", i)
		for _, f := range w.Fields {
			if c.R.Intn(4) == 0 {
				continue
			}
			v := w.Version(f)
			ref.Save(id, v)
			m.SaveOrUpdate(id, cloneField(v))
		}
	}
	return m, ref, w
}

func bigQuery(c *Case, w *World) []model.Query {
	switch c.R.Intn(5) {
	case 0: // many terms, some repeated
		q := model.Query{FieldName: w.Field(), Boost: 1}
		for i := c.R.Intn(800); i > 0; i-- {
			q.Terms = append(q.Terms, w.Term())
		}
		return []model.Query{q}
	case 1: // many field queries
		var qs []model.Query
		for i := c.R.Intn(120); i > 0; i-- {
			qs = append(qs, w.Query(1, 6)...)
		}
		return qs
	case 2: // one frequent term, repeated
		return []model.Query{{FieldName: w.Field(), Boost: 1, Terms: []string{w.Vocab[0], w.Vocab[0]}}}
	}
	return w.Query(4, 40)
}

// leaksCase runs searches one after another, with delays on the reads, in virtual time.
func leaksCase(c *Case) {
	maxDocs := []int{1, 4, 6, 20, 200, 1500}[c.R.Intn(6)]
	m, ref, w := bigWorld(c, maxDocs, []int{1, 3, 30, 400}[c.R.Intn(4)])
	mode := c.R.Intn(4)
	if c.Idx%24 == 4 {
		mode = c.R.Intn(2) * 2
	}
	end := c.Bubble(func() {
		s := &slowStore{Storage: m, c: c}
		var mu sync.Mutex
		r := rand.New(rand.NewSource(c.R.Int63()))
		slowOp := []string{"documents", "fields", "nfterm", "size", "length"}[c.R.Intn(5)]
		s.before = func(op, field string) {
			var d time.Duration
			mu.Lock()
			switch mode {
			case 1:
				d = time.Duration(r.Intn(2000)) * time.Millisecond
			case 2:
				if op == slowOp {
					d = time.Duration(1+r.Intn(100000)) * time.Second
				}
			case 3:
				if r.Intn(20) == 0 {
					d = 30 * time.Minute
				}
			}
			mu.Unlock()
			if d > 0 {
				time.Sleep(d)
			} else if mode != 0 {
				runtime.Gosched()
			}
		}
		sr := search.NewStandard(index.NewIndex(s))
		for i := 0; i < 6 && !c.Failed(); i++ {
			qs := bigQuery(c, w)
			if i == 0 && c.Idx%24 == 4 {
				qs = wideQuery(w, ref, false)
			}
			terms := 0
			for _, q := range qs {
				terms += len(q.Terms)
			}
			s.limit = s.reads.Load() + int64(20*(terms+len(ref.docs)+10)*(len(qs)+1))
			c.Logf("search %s", showQ(qs))
			// Waiting for reads takes virtual time, so a search that stops making progress is noticed as a deadlock.
			got := sr.Search(qs)
			judgeSearch(c, "slow store", qs, got, ref.Search(qs), cmpHits|cmpScores)
			c.Add("searches", 1)
			c.Finger(len(qs), terms, len(got), mode)
		}
		c.Add("store_reads", int(s.reads.Load()))
		// Everything a search started must end by itself; the clock may run as long as it takes.
		time.Sleep(4000 * time.Hour)
		synctest.Wait()
		if n := s.active.Load(); n != 0 {
			c.Failf("%d store reads of finished searches are still waiting", n)
		}
	})
	switch end {
	case "left":
		c.Failf("goroutines of finished searches never end")
	case "deadlock":
		if !c.Failed() {
			c.Failf("a search never returns: all its goroutines wait for each other")
		}
	}
	c.NonTrivial()
	c.Sample(map[string]any{"documents": len(ref.docs), "delay_mode": mode})
}

// isolationCase: searches whose reads are held back must not hold back another one on the same index. Real time, because
// a lock shared by searches would not count as blocked in virtual time.
func isolationCase(c *Case) {
	m, ref, w := bigWorld(c, []int{1, 8, 60, 400}[c.R.Intn(4)], []int{2, 30, 200}[c.R.Intn(3)])
	heldOps := []string{"documents", "fields", "nfterm", "size", "length"}
	hold := heldOps[c.R.Intn(len(heldOps))]
	if c.R.Intn(3) == 0 {
		hold = "" // all of them
	}
	gate := make(chan struct{})
	var waiting atomic.Int64
	blocking := &slowStore{Storage: m, c: c}
	heldField := "held:"
	blocking.before = func(op, field string) {
		if strings.HasPrefix(field, heldField) && (hold == "" || op == hold) {
			waiting.Add(1)
			<-gate
		}
	}
	// The held searches ask for fields of their own, so that the gate tells them apart.
	for _, f := range w.Fields {
		for _, id := range ref.Ids() {
			if v, ok := ref.docs[id][f]; ok {
				g := cloneField(v)
				g.Name = heldField + f
				m.SaveOrUpdate(id, g)
			}
		}
	}
	before := stacks()
	sr := search.NewStandard(index.NewIndex(blocking))
	var wg sync.WaitGroup
	n := []int{1, 1, 2, 20, 40, 100}[c.R.Intn(6)]
	if c.Idx%30 == 17 {
		n = []int{150, 300, 1100}[c.R.Intn(3)]
	}
	var finished atomic.Int64
	for i := 0; i < n; i++ {
		qs := bigQuery(c, w)
		if c.R.Intn(2) == 0 || len(qs) == 0 || n > 100 {
			qs = []model.Query{{FieldName: w.Field(), Boost: 1, Terms: []string{w.Term(), w.Term(), w.Term()}}}
		}
		for k := range qs {
			qs[k].FieldName = heldField + qs[k].FieldName
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer finished.Add(1)
			c.guard(func() { sr.Search(qs) })
		}()
	}
	// Wait until the held searches have got as far as they can.
	deadline := time.Now().Add(time.Duration(2+n/100) * time.Second)
	for int64(n) > finished.Load() && waiting.Load() < int64(n)-finished.Load() && time.Now().Before(deadline) {
		time.Sleep(50 * time.Microsecond)
	}
	c.Add("reads_held", int(waiting.Load()))
	for i := 0; i < 5 && !c.Failed(); i++ {
		qs := bigQuery(c, w)
		done := make(chan []model.DocumentScore, 1)
		go func() {
			c.guard(func() { done <- sr.Search(qs) })
		}()
		select {
		case got := <-done:
			judgeSearch(c, "while other searches wait for the store", qs, got, ref.Search(qs), cmpHits)
			c.Add("searches_past_held_ones", 1)
		case <-time.After(60 * time.Second):
			c.Failf("search %s does not return while %d other searches wait for reads (%q) of the store", showQ(qs), n, hold)
		}
		c.Add("searches", 1)
	}
	close(gate)
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(60 * time.Second):
		c.Failf("searches do not return although their store reads were let go")
	}
	// What the searches started ends.
	if !c.Failed() {
		deadline = time.Now().Add(60 * time.Second)
		for {
			left := stacks() - before
			if left <= 0 {
				break
			}
			if time.Now().After(deadline) {
				c.Failf("%d goroutines of finished searches are still there after a minute", left)
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	c.Add("held_searches", n)
	c.Finger("held", n, hold, waiting.Load())
	c.NonTrivial()
	c.Sample(map[string]any{"held_searches": n, "held_operation": hold, "reads_held": waiting.Load()})
}

// stacks counts goroutines that run code of the index or search packages.
func stacks() int {
	b := make([]byte, 8<<20)
	b = b[:runtime.Stack(b, true)]
	n := 0
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "goirlib/index") || strings.Contains(g, "goirlib/search") {
			n++
		}
	}
	return n
}

func init() {
	props["C19"] = def{quick: 900, deep: 20000, procs: []int{4, 8, 1, 2, 16}, run: func(c *Case) {
		if c.Idx%3 == 2 {
			isolationCase(c)
		} else {
			leaksCase(c)
		}
	}}
}
