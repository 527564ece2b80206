package vh

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// World is the universe a generated history draws from.
type World struct {
	R      *rand.Rand
	Ids    []string
	Fields []string
	Vocab  []string
	MaxLen int
	Heavy  bool // counts far beyond what texts have, totals just inside 31 bits
}

var oddTerms = []string{"é", "", "a b", "日本", "x/y", "don't", "\x00", "Ω", "t", "T", "..", "\xff\xfe", "_", "%41", strings.Repeat("w", 255), strings.Repeat("w", 256), strings.Repeat("y", 3000), strings.Repeat("z", 70000)}

var oddIds = []string{"", " ", "D1", "d01", "1", "01", "1.0", "-1", "a/b", "a\\b", "docs", "index", "metrics", "é", "e\u0301", "日本語", "\x00", "d1 ",
	"%", "%41", "A", "a", "null", "[]", "\xff", strings.Repeat("x", 300), strings.Repeat("x", 301), "..", "."}

// Names that a careless key would take for one another: equal under a common 32-bit hash (CRC-32, Castagnoli, FNV-1, FNV-1a,
// Murmur3, Adler, djb2, Java), as sums or sets of bytes, in another case, length or form, or when joined to something else.
var twins = [][2]string{{"plumless", "buckeroo"}, {"lvwxbteh", "tqwaumwoxm"}, {"mdieqs", "oujjrzintm"}, {"saznxlz", "ztzxxbzyj"}, {"zvegsj", "ykodlnt"},
	{"costarring", "liquid"}, {"hmmppr", "qvbnxq"}, {"gjpkpi", "nrpymw"}, {"creamwove", "quists"}, {"xjumcd", "wenkik"}, {"ujhvxq", "osdzwy"},
	{"uojkwa", "orpvpf"}, {"bwuhmt", "omcvnt"}, {"ncpqug", "kkdxzb"}, {"iycvqme", "wbcfwpu"}, {"phpimhl", "zgxezbx"}, {"vdtbudo", "lnrxwrg"},
	{"Aa", "BB"}, {"ab", "ba"}, {"aab", "ab"}, {"title", "titles"}, {"Title", "title"}, {"a", "aa"}, {"t1", "t1 "}, {"d1", "d1\x00"}, {"d1", "D1"},
	{"a:b", "a"}, {"a|b", "a"}, {"a.b", "a"}, {"d1/title", "d1"}, {"d1", "title"}, {"é", "e\u0301"}, {"k", "\u212a"}, {"1", "01"}, {"1", "1.0"}, {"\xff", "\ufffd"},
	{strings.Repeat("p", 64) + "1", strings.Repeat("p", 64) + "2"}, {"1" + strings.Repeat("p", 130), "2" + strings.Repeat("p", 130)}}

// keyNames makes a naming of small numbers; every other one gives twins to neighbours.
func keyNames(r *rand.Rand, other func(i int) string) func(i int) string {
	if r.Intn(2) == 0 {
		return other
	}
	var l []string
	for _, i := range r.Perm(len(twins)) {
		for _, s := range twins[i] {
			if !contains(l, s) {
				l = append(l, s)
			}
		}
	}
	return func(i int) string {
		if i >= 0 && i < len(l) {
			return l[i]
		}
		return other(i)
	}
}

// pairUp puts one or two pairs of twins among the names.
func pairUp(r *rand.Rand, l []string, max int) []string {
	for n := 1 + r.Intn(2); n > 0; n-- {
		p := twins[r.Intn(len(twins))]
		for _, s := range p {
			if contains(l, s) || len(s) > max {
				continue
			}
			if i := r.Intn(len(l) + 1); i < len(l) && len(l) > 3 {
				l[i] = s
			} else {
				l = append(l, s)
			}
		}
	}
	return l
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func NewWorld(r *rand.Rand, maxDocs, maxVocab, maxFields int) *World {
	w := &World{R: r}
	n := 1 + r.Intn(maxDocs)
	odd := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		if odd && r.Intn(4) == 0 {
			if id := oddIds[r.Intn(len(oddIds))]; !contains(w.Ids, id) {
				w.Ids = append(w.Ids, id)
				continue
			}
		}
		w.Ids = append(w.Ids, fmt.Sprintf("d%d", i))
	}
	v := 1 + r.Intn(maxVocab)
	for i := 0; i < v; i++ {
		if r.Intn(12) == 0 {
			w.Vocab = append(w.Vocab, oddTerms[r.Intn(len(oddTerms))])
		} else {
			w.Vocab = append(w.Vocab, fmt.Sprintf("t%d", i))
		}
	}
	names := []string{"title", "text", "Id", "author.name", "summary", "título", "a b", "id", "Title", "docs2", ".x", "metrics"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	w.Fields = append([]string(nil), names[:1+r.Intn(maxFields)]...)
	if r.Intn(3) == 0 && maxDocs > 1 {
		w.Ids = pairUp(r, w.Ids, 1000)
		w.Vocab = pairUp(r, w.Vocab, 1000)
		if maxFields > 2 {
			w.Fields = pairUp(r, w.Fields, 100)
		}
	}
	w.MaxLen = 1 + r.Intn(14)
	w.Heavy = r.Intn(8) == 0
	return w
}

func (w *World) Id() string    { return w.Ids[w.R.Intn(len(w.Ids))] }
func (w *World) Field() string { return w.Fields[w.R.Intn(len(w.Fields))] }

// Term is skewed: early vocabulary entries are common, late ones rare.
func (w *World) Term() string {
	n := len(w.Vocab)
	i := w.R.Intn(n)
	if w.R.Intn(2) == 0 {
		i = w.R.Intn(i + 1)
	}
	return w.Vocab[i]
}

// Version makes the content of one field; a field without terms has length zero.
func (w *World) Version(name string) model.Field {
	f := model.Field{Name: name, TF: map[string]int{}}
	n := w.R.Intn(w.MaxLen + 1)
	if w.R.Intn(10) > 0 && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		f.TF[w.Term()]++
	}
	for _, v := range f.TF {
		f.Length += v
	}
	if n > 0 && w.Heavy && len(w.Ids) <= 60 && w.R.Intn(4) == 0 {
		f.TF[w.Term()] = []int{32767, 32768, 65535, 65536, 1<<24 - 1, 1<<24 + 1, 19999999, 1 + w.R.Intn(20000000)}[w.R.Intn(8)]
		f.Length = 0
		for _, v := range f.TF {
			f.Length += v
		}
	} else if n > 0 && w.R.Intn(30) == 0 {
		f.TF[w.Term()] += 1 + w.R.Intn(100000)
		f.Length = 0
		for _, v := range f.TF {
			f.Length += v
		}
	}
	switch {
	case n > 0 && w.R.Intn(12) == 0:
		f.Length += 1 + w.R.Intn(40) // tokens that are not indexed
	case len(f.TF) == 0 && w.R.Intn(3) == 0:
		f.TF = nil
	}
	return f
}

func (w *World) Query(maxFieldQ, maxTerms int) []model.Query {
	var qs []model.Query
	k := 1
	if w.R.Intn(3) == 0 {
		k = w.R.Intn(maxFieldQ + 1)
	}
	for i := 0; i < k; i++ {
		q := model.Query{FieldName: w.Field(), Boost: []float64{0, 1, 1, 2, 0.5, 3.25, 1e-3, 100}[w.R.Intn(8)]}
		if w.R.Intn(25) == 0 {
			q.Boost = []float64{-1, -0.5, 1e-9, 1e9}[w.R.Intn(4)]
		}
		if w.R.Intn(15) == 0 {
			q.FieldName = "no-such-field"
		}
		n := w.R.Intn(maxTerms + 1)
		if w.R.Intn(3) > 0 {
			n = w.R.Intn(4)
		}
		for j := 0; j < n; j++ {
			switch w.R.Intn(12) {
			case 0:
				q.Terms = append(q.Terms, fmt.Sprintf("absent%d", w.R.Intn(3)))
			default:
				q.Terms = append(q.Terms, w.Term())
			}
		}
		qs = append(qs, q)
	}
	return qs
}
