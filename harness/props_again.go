package vh

import (
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C30: stores cannot be closed; those that were used before and are idle do no harm ----

func againCase(c *Case) {
	r := c.R
	w := smallWorld(c)
	root := c.Dir()
	defer Clean(root)
	ref := NewRef()
	caches := []int{0, 1, 3, 1000}
	saves, opens := 0, 0
	sessions := 2 + r.Intn(6)
	end := c.Bubble(func() {
		t0 := time.Now()
		var stores []storage.Storage
		// align waits until one of the instants at which the stores opened at the start act.
		align := func() {
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(30000)) * time.Millisecond)
				return
			}
			p := time.Duration([]int{15, 15, 15, 30, 13, 195, 5, 7, 10}[r.Intn(9)]) * time.Second
			time.Sleep(p - time.Since(t0)%p)
			if r.Intn(3) == 0 { // just before
				time.Sleep(p - time.Nanosecond)
			}
		}
		when := func(sess int) string {
			return fmt.Sprintf("store %d at %v, after %d saves, with %d idle stores on the folder", sess+1, time.Since(t0), saves, len(stores)-1)
		}
		glance := func() {
			for k := r.Intn(4); k > 0 && len(stores) > 1; k-- {
				s := stores[r.Intn(len(stores)-1)]
				ids := []string{w.Id(), w.Id()}
				s.GetFields(ids, w.Field())
				s.GetDocuments(w.Field(), w.Term())
				search.NewStandard(index.NewIndex(s)).Search(w.Query(2, 4))
				c.Add("reads_of_idle_stores", 1)
			}
		}
		for sess := 0; sess < sessions && !c.Failed(); sess++ {
			align()
			n := 1
			if r.Intn(3) == 0 {
				n = 2 + r.Intn(4)
			}
			opened := make([]storage.Storage, n)
			errs := make([]error, n)
			var wg sync.WaitGroup
			for i := range opened {
				cache := caches[r.Intn(len(caches))]
				wg.Add(1)
				go func() {
					defer wg.Done()
					c.guard(func() { opened[i], errs[i] = storage.NewDiskStore(root, cache) })
				}()
			}
			wg.Wait()
			c.Add("opens", n)
			if n > 1 {
				c.Add("simultaneous_opens", n)
			}
			opens += n
			c.StopIfFailed()
			for i, s := range opened {
				if errs[i] != nil {
					c.Failf("%s: opening fails: %v", when(sess), errs[i])
					return
				}
				stores = append(stores, s)
				cmpAll(c, when(sess)+fmt.Sprintf(", just opened (%d of %d at once)", i+1, n), s, ref, false)
			}
			s := stores[len(stores)-1]
			ix := index.NewIndex(s)
			sr := search.NewStandard(ix)
			c.Logf("%s: opened %d", when(sess), n)
			for i := r.Intn(25); i >= 0 && !c.Failed(); i-- {
				id, f := w.Id(), w.Version(w.Field())
				ref.Save(id, f)
				ix.IndexDocument(id, model.NormalizedDocument{Fields: []model.Field{cloneField(f)}})
				saves++
				c.Add("saves", 1)
				c.Logf("%s: %q %v", when(sess), id, f)
				switch r.Intn(6) {
				case 0:
					time.Sleep(pauseChoices[r.Intn(len(pauseChoices))] * time.Second)
				case 1:
					align()
				case 2:
					qs := w.Query(3, 8)
					judgeSearch(c, when(sess), qs, sr.Search(qs), ref.Search(qs), cmpHits|cmpScores)
				case 3:
					cmpDocs(c, when(sess), s, ref, []string{id, w.Id()}, f.Name)
				}
				glance()
			}
			if r.Intn(2) == 0 {
				cmpAll(c, when(sess), s, ref, false)
			}
			time.Sleep(Settle)
			for k := r.Intn(3); k > 0; k-- {
				align()
				glance()
			}
			synctest.Wait()
			c.StopIfFailed()
			cmpDisk(c, when(sess)+", at rest", root, ref)
			cmpAll(c, when(sess)+", at rest", s, ref, false)
			c.Add("folders_compared", 1)
		}
		time.Sleep(60 * time.Second)
		synctest.Wait()
		c.StopIfFailed()
		if d := cmpDisk(c, "in the end", root, ref); d != nil && d.fragments != 0 {
			c.Failf("with %d idle stores on the folder, %d fragments stay unmerged", len(stores), d.fragments)
		}
	})
	if end == "deadlock" {
		c.Failf("everything is blocked")
	}
	if c.Failed() {
		return
	}
	c.Bubble(func() {
		s, err := storage.NewDiskStore(root, 10)
		if err != nil {
			c.Failf("opening in the end: %v", err)
			return
		}
		cmpAll(c, "reopened in the end", s, ref, false)
		c.Add("restarts", 1)
	})
	c.Finger(w.Ids, w.Fields, saves, opens)
	if saves > 1 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"opens": opens, "sessions": sessions, "saves": saves, "documents": len(ref.docs)})
}

func init() {
	props["C30"] = def{quick: 600, deep: 12000, procs: []int{4, 8, 2, 1}, run: againCase}
}
