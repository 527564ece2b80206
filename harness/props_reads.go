package vh

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C28: reading changes nothing ----

// seen is everything a store answers about some names.
type seen struct {
	Sizes, Lengths map[string]int
	Numbers        map[string]map[string]int
	Postings       map[string]map[string][]string
	Documents      map[string]map[string]model.Field
}

func lookAll(s storage.Storage, fields, terms, ids []string) seen {
	o := seen{map[string]int{}, map[string]int{}, map[string]map[string]int{}, map[string]map[string][]string{}, map[string]map[string]model.Field{}}
	for _, f := range fields {
		o.Sizes[f], o.Lengths[f] = s.GetFieldSize(f), s.GetFieldLength(f)
		o.Postings[f] = map[string][]string{}
		for t, set := range s.GetIndex(f) {
			l := []string{}
			for id := range set.GetData() {
				l = append(l, id)
			}
			sort.Strings(l)
			o.Postings[f][t] = l
		}
		o.Documents[f] = map[string]model.Field{}
		for id, g := range s.GetFields(append([]string(nil), ids...), f) {
			o.Documents[f][id] = cloneField(g)
		}
		n := map[string]int{}
		for t, k := range s.GetNumberFieldTerm(f, append([]string(nil), terms...)) {
			if k != 0 {
				n[t] = k
			}
		}
		o.Numbers[f] = n
	}
	return o
}

// diff names the first difference between two of them.
func (o seen) diff(p seen) string {
	for _, f := range sortedKeys(o.Sizes) {
		switch {
		case o.Sizes[f] != p.Sizes[f]:
			return fmt.Sprintf("field %q has %d documents in one and %d in the other", f, o.Sizes[f], p.Sizes[f])
		case o.Lengths[f] != p.Lengths[f]:
			return fmt.Sprintf("field %q has total length %d in one and %d in the other", f, o.Lengths[f], p.Lengths[f])
		case !reflect.DeepEqual(o.Numbers[f], p.Numbers[f]):
			return fmt.Sprintf("the document frequencies in field %q are %v in one and %v in the other", f, o.Numbers[f], p.Numbers[f])
		}
		for _, a := range [][2]map[string][]string{{o.Postings[f], p.Postings[f]}, {p.Postings[f], o.Postings[f]}} {
			for t, l := range a[0] {
				m, ok := a[1][t]
				if !ok {
					return fmt.Sprintf("term %q is in the index of field %q in one and not in the other", clip(t), f)
				}
				if !reflect.DeepEqual(l, m) {
					return fmt.Sprintf("term %q of field %q lists %q in one and %q in the other", clip(t), f, l, m)
				}
			}
		}
		for _, a := range [][2]map[string]model.Field{{o.Documents[f], p.Documents[f]}, {p.Documents[f], o.Documents[f]}} {
			for id, x := range a[0] {
				if y, ok := a[1][id]; !ok || !fieldEq(x, y) {
					return fmt.Sprintf("field %q of document %q reads %v in one and %v in the other", f, id, x, y)
				}
			}
		}
	}
	return ""
}

// folderOf lists the files and folders of a store, without the fragments and unfinished files, whose names are random.
func folderOf(root string) []string {
	var l []string
	for p := range listTree(root) {
		d := filepath.Dir(p)
		if filepath.Base(d) == "temp" && d != "temp" || len(p) > 5 && p[len(p)-5:] == "%temp" {
			continue
		}
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// diffDisk compares the folders of two stores, whose writers are at rest. The division of postings between the index and its
// fragments, and zero counts of known terms, are not content.
func diffDisk(a, b string) string {
	if l, m := folderOf(a), folderOf(b); !reflect.DeepEqual(l, m) {
		for _, x := range l {
			if !contains(m, x) {
				return fmt.Sprintf("%q exists only after reading", x)
			}
		}
		for _, x := range m {
			if !contains(l, x) {
				return fmt.Sprintf("%q exists only without reading", x)
			}
		}
	}
	x, err := readStore(a)
	if err != nil {
		return err.Error()
	}
	y, err := readStore(b)
	if err != nil {
		return err.Error()
	}
	what := []string{"documents", "sizes", "lengths", "document frequencies", "postings"}
	l := []any{x.docs, x.size, x.length, x.num, x.post}
	m := []any{y.docs, y.size, y.length, y.num, y.post}
	for i := range l {
		if !reflect.DeepEqual(l[i], m[i]) {
			return fmt.Sprintf("the stored %s are %s with reading and %s without", what[i], clip(fmt.Sprint(l[i])), clip(fmt.Sprint(m[i])))
		}
	}
	return ""
}

func readsCase(c *Case) {
	r := c.R
	w := smallWorld(c)
	if len(w.Ids) > 25 {
		w.Ids = w.Ids[:25]
	}
	disk := c.Idx%5 != 3
	big, busy := c.Idx%20 == 12, c.Idx%20 == 7
	if big {
		for i := 100 + r.Intn(900); i > 0; i-- {
			w.Ids = append(w.Ids, fmt.Sprint("doc-", i))
			if i%3 == 0 {
				w.Vocab = append(w.Vocab, fmt.Sprint("word-", i))
			}
		}
	}
	caches := []int{0, 1, 2, 5, 1000}
	ref := NewRef()
	var rootA, rootB string
	if disk {
		rootA, rootB = c.Dir(), c.Dir()
		defer Clean(rootA)
		defer Clean(rootB)
	}
	sessions := 1
	if disk {
		sessions = 1 + r.Intn(3)
	}
	names := []string{"no-such", "", "docs", "temp", "index", "metrics", "nfterm", "title", "a/b", "..", "%", "é", "Title"}
	saves, reads := 0, 0
	for sess := 0; sess < sessions && !c.Failed(); sess++ {
		idle := sess > 0 && r.Intn(3) == 0 // a session that only reads
		end := c.Bubble(func() {
			start := time.Now()
			open := func(root string) storage.Storage {
				if !disk {
					return storage.NewMemory()
				}
				s, err := storage.NewDiskStore(root, caches[r.Intn(len(caches))])
				if err != nil {
					c.Failf("opening: %v", err)
					c.Stop()
				}
				return s
			}
			a := open(rootA)
			b := open(rootB)
			ia, ib := index.NewIndex(a), index.NewIndex(b)
			sa := search.NewStandard(ia)
			when := func() string {
				return fmt.Sprintf("session %d at %v, after %d saves and %d reads", sess+1, time.Since(start), saves, reads)
			}
			one := func(r *rand.Rand) {
				pick := func(l []string) string {
					if len(l) == 0 || r.Intn(3) == 0 {
						return names[r.Intn(len(names))]
					}
					return l[r.Intn(len(l))]
				}
				some := func(l []string) []string {
					var o []string
					n := r.Intn(6)
					if big && r.Intn(4) == 0 {
						n = r.Intn(200)
					}
					for i := n; i >= 0; i-- {
						o = append(o, pick(l))
					}
					return o
				}
				switch r.Intn(8) {
				case 0:
					a.GetDocuments(pick(w.Fields), pick(w.Vocab))
				case 1:
					a.GetFields(some(w.Ids), pick(w.Fields))
				case 2:
					a.GetIndex(pick(w.Fields))
				case 3:
					a.GetFieldSize(pick(w.Fields))
					a.GetFieldLength(pick(w.Fields))
				case 4:
					a.GetNumberFieldTerm(pick(w.Fields), some(w.Vocab))
				case 5:
					ia.Search(some(w.Vocab), pick(w.Fields))
				default:
					var qs []model.Query
					for i := r.Intn(4); i >= 0; i-- {
						qs = append(qs, model.Query{FieldName: pick(w.Fields), Boost: float64(r.Intn(3)), Terms: some(w.Vocab)})
					}
					sa.Search(qs)
				}
			}
			storm := func() {
				n := 1 + r.Intn(60)
				if busy {
					n = 100 + r.Intn(2000)
				}
				reads += n
				c.Add("reads", n)
				if r.Intn(3) > 0 {
					for i := 0; i < n; i++ {
						one(r)
					}
					return
				}
				var wg sync.WaitGroup
				for k := 0; k < 4; k++ {
					rr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						c.guard(func() {
							for i := 0; i < n/4; i++ {
								one(rr)
							}
						})
					}()
				}
				wg.Wait()
			}
			// The same question, asked twice, with other questions in between.
			repeat := func() {
				qs := w.Query(3, 8)
				want := ref.Search(qs)
				for i := 0; i < 2; i++ {
					judgeSearch(c, when()+[]string{"", " (asked again)"}[i], qs, sa.Search(qs), want, cmpHits|cmpScores)
					if r.Intn(2) == 0 {
						storm()
					}
				}
				c.Add("questions_repeated", 1)
			}
			if sess > 0 {
				c.Add("restarts", 1)
				storm()
			}
			n := 5 + r.Intn(40)
			for i := 0; i < n && !c.Failed(); i++ {
				switch x := r.Intn(10); {
				case x < 2:
					d := pauseChoices[r.Intn(len(pauseChoices))] * time.Second
					if r.Intn(3) == 0 { // reads in the middle and at the end of the pause
						d /= 2
						time.Sleep(d)
						storm()
					}
					time.Sleep(d)
				case x < 5:
					storm()
				case x < 6:
					repeat()
				case !idle:
					k := 1
					if big {
						k = 1 + r.Intn(len(w.Ids)/4)
					}
					for ; k > 0; k-- {
						id, f := w.Id(), w.Version(w.Field())
						ref.Save(id, f)
						doc := func() model.NormalizedDocument { return model.NormalizedDocument{Fields: []model.Field{cloneField(f)}} }
						ia.IndexDocument(id, doc())
						ib.IndexDocument(id, doc())
						saves++
						c.Add("saves", 1)
					}
				}
			}
			if disk {
				time.Sleep(Settle)
				storm()
				time.Sleep(Settle)
				synctest.Wait()
				if s := diffDisk(rootA, rootB); s != "" {
					c.Failf("%s: the folders of two stores with the same history, of which only one was read, differ: %s", when(), s)
				}
				c.Add("folders_compared", 1)
			}
			if c.Failed() {
				return
			}
			storm()
			fields := append(append([]string(nil), w.Fields...), names...)
			terms := append(append([]string(nil), w.Vocab...), names...)
			ids := append(append([]string(nil), w.Ids...), names...)
			x, y := lookAll(a, fields, terms, ids), lookAll(b, fields, terms, ids)
			if s := x.diff(y); s != "" {
				c.Failf("%s: two stores with the same history, of which only one was read, differ: %s", when(), s)
			}
			cmpAll(c, when(), a, ref, sess == 0)
			c.Add("stores_compared", 1)
		})
		if end == "deadlock" {
			c.Failf("everything is blocked")
		}
	}
	c.Finger(w.Ids, w.Fields, w.Vocab, saves, reads, disk)
	if saves > 1 && reads > 10 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"disk": disk, "saves": saves, "reads": reads, "sessions": sessions, "documents": len(ref.docs)})
}

func init() {
	props["C28"] = def{quick: 600, deep: 12000, procs: []int{2, 4, 1}, run: readsCase}
}
