package vh

import (
	"fmt"
	"math"
	"sort"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// Ref is the sequential reference model: the latest version of every (document, field), nothing else. Statistics,
// postings, hits and scores are recomputed from it.
type Ref struct {
	docs    map[string]map[string]model.Field
	ever    map[string]map[string]map[string]bool // field -> term -> documents that ever had it
	resaved map[string]bool                       // fields in which some document was saved more than once

	// Derived from docs as versions come and go; audit() recomputes them.
	size, length map[string]int
	post         map[string]map[string]map[string]bool // field -> term -> documents
}

func NewRef() *Ref {
	return &Ref{map[string]map[string]model.Field{}, map[string]map[string]map[string]bool{}, map[string]bool{},
		map[string]int{}, map[string]int{}, map[string]map[string]map[string]bool{}}
}

func cloneField(f model.Field) model.Field {
	g := f
	if f.TF != nil {
		g.TF = make(map[string]int, len(f.TF))
		for k, v := range f.TF {
			g.TF[k] = v
		}
	}
	return g
}

func fieldEq(a, b model.Field) bool {
	if a.Name != b.Name || a.Length != b.Length || len(a.TF) != len(b.TF) {
		return false
	}
	for k, v := range a.TF {
		if w, ok := b.TF[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func (r *Ref) Save(id string, f model.Field) {
	m := r.docs[id]
	if m == nil {
		m = map[string]model.Field{}
		r.docs[id] = m
	}
	if old, ok := m[f.Name]; ok {
		r.resaved[f.Name] = true
		r.size[f.Name]--
		r.length[f.Name] -= old.Length
		for t := range old.TF {
			delete(r.post[f.Name][t], id)
		}
	}
	m[f.Name] = cloneField(f)
	r.size[f.Name]++
	r.length[f.Name] += f.Length
	p := r.post[f.Name]
	if p == nil {
		p = map[string]map[string]bool{}
		r.post[f.Name] = p
	}
	for t := range f.TF {
		if p[t] == nil {
			p[t] = map[string]bool{}
		}
		p[t][id] = true
	}
	e := r.ever[f.Name]
	if e == nil {
		e = map[string]map[string]bool{}
		r.ever[f.Name] = e
	}
	for t := range f.TF {
		if e[t] == nil {
			e[t] = map[string]bool{}
		}
		e[t][id] = true
	}
}

func (r *Ref) Size(field string) int                       { return r.size[field] }
func (r *Ref) Length(field string) int                     { return r.length[field] }
func (r *Ref) Postings(field, term string) map[string]bool { return r.post[field][term] }

// audit recomputes what Save keeps up to date; a difference is a fault of the harness.
func (r *Ref) audit() {
	size, length, post := map[string]int{}, map[string]int{}, map[string]map[string]int{}
	for id, m := range r.docs {
		for n, f := range m {
			size[n]++
			length[n] += f.Length
			if post[n] == nil {
				post[n] = map[string]int{}
			}
			for t := range f.TF {
				post[n][t]++
				if !r.post[n][t][id] {
					harness("model: %q is not listed under %q of %q", id, t, n)
				}
			}
		}
	}
	for n, p := range r.post {
		if size[n] != r.size[n] || length[n] != r.length[n] {
			harness("model: totals of %q are %d %d, kept %d %d", n, size[n], length[n], r.size[n], r.length[n])
		}
		for t, s := range p {
			if len(s) != post[n][t] {
				harness("model: %d documents under %q of %q, kept %d", post[n][t], t, n, len(s))
			}
		}
	}
}

func (r *Ref) Fields() []string {
	s := map[string]bool{}
	for _, m := range r.docs {
		for f := range m {
			s[f] = true
		}
	}
	return sortedKeys(s)
}
func (r *Ref) Ids() []string               { return sortedKeys(r.docs) }
func (r *Ref) Terms(field string) []string { return sortedKeys(r.ever[field]) }

func refIDF(N, n float64) float64 { return math.Log(1 + (N-n+0.5)/(n+0.5)) }

// Search returns the expected score of every expected hit.
func (r *Ref) Search(qs []model.Query) map[string]float64 {
	res := map[string]float64{}
	for _, q := range qs {
		N, L := float64(r.Size(q.FieldName)), float64(r.Length(q.FieldName))
		avg := L / N
		boost := q.Boost
		if boost == 0 {
			boost = 1
		}
		df := map[string]float64{}
		for _, t := range q.Terms {
			if _, ok := df[t]; !ok {
				df[t] = float64(len(r.Postings(q.FieldName, t)))
			}
		}
		found := map[string]bool{}
		for t := range df {
			for id := range r.post[q.FieldName][t] {
				found[id] = true
			}
		}
		for id := range found {
			f := r.docs[id][q.FieldName]
			hit, sum := false, 0.0
			for _, t := range q.Terms {
				tf, ok := f.TF[t]
				if !ok {
					continue
				}
				hit = true
				x := float64(tf)
				sum += boost * refIDF(N, df[t]) * (x * 2.2) / (x + 1.2*(0.25+0.75*float64(f.Length)/avg))
			}
			if hit {
				res[id] += sum
			}
		}
	}
	return res
}

func near(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-12
}

// ---- comparing a real store with the model ----

// cmpStats compares the statistics of one field, for the given terms.
func cmpStats(c *Case, when string, s storage.Storage, r *Ref, field string, terms []string) {
	c.Add("statistics_compared", 2+len(terms))
	if g, w := s.GetFieldSize(field), r.Size(field); g != w {
		c.Failf("%s: number of documents of field %q is %d, want %d", when, field, g, w)
	}
	if g, w := s.GetFieldLength(field), r.Length(field); g != w {
		c.Failf("%s: total length of field %q is %d, want %d", when, field, g, w)
	}
	if len(terms) == 0 {
		return
	}
	got := s.GetNumberFieldTerm(field, terms)
	for _, t := range terms {
		if w := len(r.Postings(field, t)); got[t] != w {
			c.Failf("%s: number of documents with term %q in field %q is %d, want %d", when, t, field, got[t], w)
		}
	}
}

// cmpDocs compares stored fields of the given documents.
func cmpDocs(c *Case, when string, s storage.Storage, r *Ref, ids []string, field string) {
	got := s.GetFields(ids, field)
	want := 0
	for _, id := range ids {
		w, ok := r.docs[id][field]
		g, gok := got[id]
		c.Add("fields_compared", 1)
		switch {
		case ok && !gok:
			c.Failf("%s: field %q of document %q is missing", when, field, id)
		case !ok && gok:
			c.Failf("%s: field %q of document %q was never saved but reads %v", when, field, id, g)
		case ok && !fieldEq(w, g):
			c.Failf("%s: field %q of document %q reads %v, last saved %v", when, field, id, g, w)
		}
		if ok {
			want++
		}
	}
	seen := map[string]bool{}
	for _, id := range ids {
		seen[id] = true
	}
	for id := range got {
		if !seen[id] {
			c.Failf("%s: asked for %d documents, got unrelated document %q", when, len(ids), id)
		}
	}
}

// cmpPostings compares the postings of one term. exact is false where documents that lost the term may still be listed.
func cmpPostings(c *Case, when string, s storage.Storage, r *Ref, field, term string, exact bool) {
	set, ok := s.GetDocuments(field, term)
	got := map[string]bool{}
	if ok {
		for id, v := range set.GetData() {
			if v {
				got[id] = true
			}
		}
	}
	c.Add("postings_compared", 1)
	if ok != (len(got) > 0) {
		c.Failf("%s: term %q of field %q lists %d documents and is said to be known: %v", when, term, field, len(got), ok)
	}
	want := r.Postings(field, term)
	for id := range want {
		if !got[id] {
			c.Failf("%s: document %q has term %q in field %q but is not listed under it", when, id, term, field)
		}
	}
	for id := range got {
		if want[id] {
			continue
		}
		if exact {
			c.Failf("%s: document %q is listed under term %q of field %q, which its current version lacks", when, id, term, field)
		} else if !r.ever[field][term][id] {
			c.Failf("%s: document %q is listed under term %q of field %q, which it never had", when, id, term, field)
		}
	}
	full := s.GetIndex(field)[term]
	n := 0
	if full != nil {
		n = full.Size()
		for id := range got {
			if !full.Contains(id) {
				c.Failf("%s: the field index of %q and the postings of %q disagree on document %q", when, field, term, id)
			}
		}
	}
	if n != len(got) {
		c.Failf("%s: the field index of %q lists %d documents under %q, its postings %d", when, field, n, term, len(got))
	}
}

const (
	cmpHits = 1 << iota
	cmpScores
)

// cmpSearch runs a search and compares hits and, if asked, scores and order.
//
// Now and then the same question is asked again, when the answer may have changed.
func cmpSearch(c *Case, when string, s storage.Storage, r *Ref, qs []model.Query, what int) {
	cmpSearchOnce(c, when, s, r, qs, what)
	c.mu.Lock()
	c.asked++
	n := c.asked
	if len(c.queries) < 12 {
		c.queries = append(c.queries, qs)
	} else if n%5 == 0 {
		c.queries[n/5%12] = qs
	}
	old := c.queries[n*7%len(c.queries)]
	c.mu.Unlock()
	if n%3 == 0 {
		cmpSearchOnce(c, when+" (asked before)", s, r, old, what)
	}
}

func cmpSearchOnce(c *Case, when string, s storage.Storage, r *Ref, qs []model.Query, what int) {
	want := r.Search(qs)
	in := make([]model.Query, len(qs))
	for i, q := range qs {
		in[i] = model.Query{FieldName: q.FieldName, Boost: q.Boost, Terms: append([]string(nil), q.Terms...)}
	}
	_, sr := c.Engine(s)
	got := sr.Search(in)
	judgeSearch(c, when, qs, got, want, what)
}

func judgeSearch(c *Case, when string, qs []model.Query, got []model.DocumentScore, want map[string]float64, what int) {
	c.Add("searches_compared", 1)
	c.Add("hits_compared", len(want))
	d := func() string { return fmt.Sprintf("%s: search %s", when, showQ(qs)) }
	if what&cmpHits != 0 {
		seen := map[string]int{}
		for _, h := range got {
			seen[h.Id]++
		}
		for id, n := range seen {
			if _, ok := want[id]; !ok {
				c.Failf("%s returned document %q, which does not match", d(), id)
			} else if n != 1 {
				c.Failf("%s returned document %q %d times", d(), id, n)
			}
		}
		for _, id := range sortedKeys(want) {
			if seen[id] == 0 {
				c.Failf("%s did not return document %q, which matches (%d of %d returned)", d(), id, len(seen), len(want))
				break
			}
		}
	}
	if what&cmpScores != 0 {
		pos := true
		for _, q := range qs {
			if q.Boost < 0 {
				pos = false
			}
		}
		for i, h := range got {
			if math.IsNaN(h.Score) || math.IsInf(h.Score, 0) {
				c.Failf("%s gave document %q the score %v", d(), h.Id, h.Score)
				continue
			}
			if pos && h.Score <= 0 {
				c.Failf("%s gave document %q the score %v, not positive", d(), h.Id, h.Score)
			}
			if i > 0 && got[i-1].Score < h.Score {
				c.Failf("%s is not ordered: score %v of %q comes before %v of %q", d(), got[i-1].Score, got[i-1].Id, h.Score, h.Id)
			}
			if w, ok := want[h.Id]; ok && !near(w, h.Score) {
				c.Failf("%s gave document %q the score %v, BM25 is %v", d(), h.Id, h.Score, w)
			}
		}
		if len(got) < len(want) {
			gotIds := map[string]bool{}
			for _, h := range got {
				gotIds[h.Id] = true
			}
			for id, w := range want {
				if !gotIds[id] && w > 0 {
					c.Failf("%s ranks %d documents; %q with BM25 %v is missing from the ranking", d(), len(got), id, w)
					break
				}
			}
		}
	}
}

func showQ(qs []model.Query) string {
	s := ""
	for i, q := range qs {
		if i > 3 {
			s += fmt.Sprintf(" …(%d field queries)", len(qs))
			break
		}
		t := q.Terms
		if len(t) > 12 {
			t = t[:12]
		}
		s += fmt.Sprintf("{%q^%v %q(%d)}", q.FieldName, q.Boost, t, len(q.Terms))
	}
	return s
}

// cmpAll compares everything the storage interface reports.
func cmpAll(c *Case, when string, s storage.Storage, r *Ref, exact bool) {
	r.audit()
	ids := append(r.Ids(), "no-such-document")
	for _, f := range append(r.Fields(), "no-such-field") {
		terms := append(append([]string(nil), r.Terms(f)...), "no-such-term")
		cmpStats(c, when, s, r, f, terms)
		cmpDocs(c, when, s, r, ids, f)
		for _, t := range terms {
			cmpPostings(c, when, s, r, f, t, exact || !r.resaved[f])
		}
		for t := range s.GetIndex(f) {
			if _, ok := r.ever[f][t]; !ok {
				c.Failf("%s: the index of field %q has term %q, which no document ever had", when, f, t)
			}
		}
	}
}

func sortedIds(m map[string]bool) []string {
	s := make([]string, 0, len(m))
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
