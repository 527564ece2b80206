package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/field"
	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/filter"
	"github.com/sira-serverless-ir-arch/goirlib/filter/stemmer"
	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/tokenizer"
	"github.com/sira-serverless-ir-arch/porter2"
	"golang.org/x/text/unicode/norm"
)

// ---- C11: stored formats ----

func anyString(r *rand.Rand, long bool) string {
	switch r.Intn(9) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("\x00", r.Intn(9))
	case 2:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 3:
		if long && r.Intn(8) == 0 {
			n := []int{255, 256, 1023, 4096, 65535, 65536, 300000}[r.Intn(7)]
			return strings.Repeat(string(rune('a'+r.Intn(26))), n-r.Intn(2)) + fmt.Sprint(r.Intn(9))
		}
		return strings.Repeat("x", r.Intn(300))
	case 4:
		return string([]rune{rune(r.Intn(0x3000)), rune(0x10000 + r.Intn(0x8000))})
	case 5:
		return fmt.Sprintf("key\x00%d", r.Intn(50))
	}
	return fmt.Sprintf("term%d", r.Intn(2000))
}

func anyCount(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return math.MaxInt32
	case 2:
		return math.MinInt32
	case 3:
		return -1 - r.Intn(1000)
	case 4:
		return []int{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 2}[r.Intn(11)]
	case 5:
		return int(int32(r.Uint32()))
	}
	return 1 + r.Intn(50)
}

func sizeOf(r *rand.Rand, deep bool) int {
	switch r.Intn(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		if deep {
			return 20000 + r.Intn(60000)
		}
		return 300 + r.Intn(3000)
	}
	return r.Intn(40)
}

func anyBytes(r *rand.Rand) []byte {
	n := []int{0, 1, 2, 10, 511, 512, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 200000, 1 << 20}[r.Intn(15)]
	if r.Intn(3) == 0 {
		n = r.Intn(3000)
	}
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // all zero
	case 2:
		for i := range b {
			b[i] = byte('a' + r.Intn(3))
		}
	case 3:
		p := make([]byte, 1+r.Intn(300))
		r.Read(p)
		for i := range b {
			b[i] = p[i%len(p)]
		}
	}
	if r.Intn(10) == 0 && n > 20 {
		copy(b, file.CompressData([]byte("a gzip stream inside")))
	}
	return b
}

// A roundTrip is one encoded value that is decoded several times, also after other values were encoded.
type roundTrip struct {
	kind  string
	desc  string
	size  int
	check func() string
}

func sameCounts(g, w map[string]int) string {
	if len(g) != len(w) {
		return fmt.Sprintf("%d entries decode to %d", len(w), len(g))
	}
	for k, v := range w {
		if x, ok := g[k]; !ok || x != v {
			return fmt.Sprintf("the count %d of %q decodes to %d (present: %v)", v, clip(k), x, ok)
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}

// makeRoundTrip encodes a random value. zip puts the encoding through compression, as the store does.
func makeRoundTrip(r *rand.Rand, kind int) roundTrip {
	zip := r.Intn(2) == 0
	enc := func(b []byte) []byte {
		if zip {
			return file.CompressData(b)
		}
		return b
	}
	dec := func(b []byte) []byte {
		if zip {
			return file.DecompressData(b)
		}
		return b
	}
	deep := r.Intn(10) == 0
	switch kind {
	case 0:
		name, size, length := anyString(r, true), anyCount(r), anyCount(r)
		e := enc(storage.SerializeFieldSizeLength(name, int32(size), int32(length)))
		return roundTrip{"field totals", fmt.Sprintf("%q %d %d", clip(name), size, length), len(e), func() string {
			n, s, l := storage.DeserializeFieldSizeLength(dec(e))
			if n != name || int(s) != size || int(l) != length {
				return fmt.Sprintf("decodes to %q %d %d", clip(n), s, l)
			}
			return ""
		}}
	case 1:
		m, w := map[string]int{}, map[string]int{}
		for i := sizeOf(r, deep); i > 0; i-- {
			k := anyString(r, true)
			m[k] = anyCount(r)
			w[k] = m[k]
		}
		e := enc(storage.SerializeNumberFieldTerm(m))
		return roundTrip{"document frequencies", fmt.Sprintf("%d terms", len(w)), len(e), func() string {
			if s := sameCounts(m, w); s != "" {
				return "the encoder changed its input: " + s
			}
			return sameCounts(storage.DeserializeNumberFieldTerm(dec(e)), w)
		}}
	case 2:
		m, w := map[string]model.Field{}, map[string]model.Field{}
		for i := sizeOf(r, false) % 60; i > 0; i-- {
			k := anyString(r, true)
			f := model.Field{Name: k, Length: anyCount(r), TF: map[string]int{}}
			if r.Intn(4) == 0 {
				f.Name = anyString(r, true)
			}
			for j := sizeOf(r, false); j > 0; j-- {
				f.TF[anyString(r, deep)] = anyCount(r)
			}
			m[k] = f
			w[k] = cloneField(f)
		}
		if len(m) > 0 && r.Intn(5) == 0 {
			k := sortedKeys(m)[0]
			f := m[k]
			f.TF = nil
			m[k] = f
			w[k] = f
		}
		e := enc(storage.SerializeFieldMap(m))
		return roundTrip{"document fields", fmt.Sprintf("%d fields", len(w)), len(e), func() string {
			g := storage.DeserializeFieldMap(dec(e))
			if len(g) != len(w) {
				return fmt.Sprintf("%d fields decode to %d", len(w), len(g))
			}
			for k, f := range w {
				x, ok := g[k]
				if !ok {
					return fmt.Sprintf("field %q is missing", clip(k))
				}
				if x.Name != f.Name || x.Length != f.Length {
					return fmt.Sprintf("field %q (%q, length %d) decodes to (%q, length %d)", clip(k), clip(f.Name), f.Length, clip(x.Name), x.Length)
				}
				if s := sameCounts(x.TF, f.TF); s != "" {
					return fmt.Sprintf("field %q: %s", clip(k), s)
				}
			}
			return ""
		}}
	case 3:
		m, w := map[string]map[string]bool{}, map[string]map[string]bool{}
		terms := sizeOf(r, deep)
		for i := terms; i > 0; i-- {
			k := anyString(r, true)
			m[k], w[k] = map[string]bool{}, map[string]bool{}
			n := sizeOf(r, deep && terms < 10)
			if terms > 100 {
				n = r.Intn(4)
			}
			for j := n; j > 0; j-- {
				d := anyString(r, terms < 30)
				m[k][d], w[k][d] = true, true
			}
		}
		e := enc(storage.SerializeIndex(m))
		return roundTrip{"term postings", fmt.Sprintf("%d terms", len(w)), len(e), func() string {
			g := storage.DeserializeIndex(dec(e))
			if len(g) != len(w) {
				return fmt.Sprintf("%d terms decode to %d", len(w), len(g))
			}
			for k, ds := range w {
				x, ok := g[k]
				if !ok {
					return fmt.Sprintf("term %q is missing", clip(k))
				}
				if len(x) != len(ds) {
					return fmt.Sprintf("term %q: %d documents decode to %d", clip(k), len(ds), len(x))
				}
				for d := range ds {
					if !x[d] {
						return fmt.Sprintf("term %q: document %q is missing", clip(k), clip(d))
					}
				}
			}
			return ""
		}}
	}
	b := anyBytes(r)
	w := append([]byte(nil), b...)
	e := file.CompressData(b)
	if r.Intn(2) == 0 && len(b) > 0 {
		b[0] ^= 0xff // the compressed form must not depend on the input any more
	}
	return roundTrip{"compression", fmt.Sprintf("%d bytes", len(w)), len(e), func() string {
		g := file.DecompressData(e)
		if !bytes.Equal(g, w) {
			return fmt.Sprintf("decompresses to %d bytes that differ", len(g))
		}
		return ""
	}}
}

func formatCase(c *Case) {
	one := func(t roundTrip, when string) {
		s := t.check()
		c.Add("round_trips", 1)
		if s != "" {
			c.Failf("%s (%s)%s: %s", t.kind, t.desc, when, s)
		}
	}
	var all []roundTrip
	for i := 0; i < 30 && !c.Failed(); i++ {
		t := makeRoundTrip(c.R, c.R.Intn(5))
		one(t, "")
		all = append(all, t)
		c.Add("bytes", t.size)
		c.Finger(t.kind, t.desc)
	}
	// Earlier encodings still decode after later ones.
	for _, t := range all {
		one(t, ", after other values were encoded and decoded")
	}
	// Encoding and decoding go on in several goroutines, as in the store.
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(c.R.Int63()))
		go func() {
			defer wg.Done()
			c.guard(func() {
				for i := 0; i < 8; i++ {
					t := makeRoundTrip(r, r.Intn(5))
					one(t, ", from one of several goroutines")
				}
			})
		}()
	}
	wg.Wait()
	c.NonTrivial()
	c.Sample(map[string]any{"first_values": []string{all[0].kind + " " + all[0].desc, all[len(all)-1].kind + " " + all[len(all)-1].desc}})
}

// ---- C16: text analysis ----

func isTokenRune(r rune) bool {
	return r != utf8.RuneError && (unicode.In(r, unicode.L, unicode.N) || r == '\'')
}

func refTokens(text string) []string {
	var out []string
	var b []rune
	for _, r := range text {
		if isTokenRune(r) {
			b = append(b, r)
		} else if len(b) > 0 {
			out = append(out, string(b))
			b = nil
		}
	}
	if len(b) > 0 {
		out = append(out, string(b))
	}
	return out
}

func refLower(s string) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

func refASCII(s string) string {
	var b strings.Builder
	for _, r := range norm.NFD.String(s) {
		if !unicode.Is(unicode.Mn, r) {
			b.WriteRune(r)
		}
	}
	return norm.NFC.String(b.String())
}

var refStop = map[language.Language]map[string]bool{}

func copyWords(l language.Language) map[string]bool {
	m := map[string]bool{}
	for k, v := range language.GetWords(l) {
		m[k] = v
	}
	return m
}

// luceneStop is the standard English stop list of 33 words.
var luceneStop = strings.Fields("a an and are as at be but by for if in into is it no not of on or such that the their then there these they this to was will with")

// portugueseStop is the library's Portuguese list of 126 words, as published.
var portugueseStop = strings.Fields(`a ainda alem ambas ambos antes ao aonde aos apos aquele aqueles as assim com como contra contudo cuja cujas cujo cujos da das de dela dele deles demais depois desde desta deste dispoe dispoem diversa diversas diversos do dos durante e ela elas ele eles em entao entre essa essas esse esses esta estas este estes ha isso isto logo mais mas mediante menos mesma mesmas mesmo mesmos na nas nao nem nesse neste nos o os ou outra outras outro outros pelas pelo pelos perante pois por porque portanto proprio propios quais qual qualquer quando quanto que quem quer se seja sem sendo seu seus sob sobre sua suas tal tambem teu teus toda todas todo todos tua tuas tudo um uma umas uns`)

func refAnalyze(text string, stop map[string]bool) []string {
	var out []string
	for _, t := range refTokens(text) {
		t = refLower(t)
		if stop[t] {
			continue
		}
		out = append(out, refASCII(porter2.Stem(t)))
	}
	return out
}

type analyzer struct {
	tok  tokenizer.Tokenizer
	fs   []filter.Filter
	stop map[string]bool
}

func newAnalyzer(l language.Language) *analyzer {
	return &analyzer{tokenizer.NewStandard(), []filter.Filter{filter.NewLowercase(), filter.NewStopWords(language.GetWords(l)),
		filter.NewStemmer(stemmer.Snowball), filter.NewASCII()}, refStop[l]}
}

func (a *analyzer) run(text string) []string {
	t := a.tok.Tokenize(text)
	for _, f := range a.fs {
		t = f.Process(t)
	}
	return t
}

var enWords = strings.Fields(`the a an and of running runs runner generalization communism arsenal happily skies dying news inning exceed proceed
 sky's dogs' it's don't can't I'm yesterday youth boyish say cry by enjoyed caresses ponies ties cats national nationally relational conditional
 rate rational valency hesitancy digitizer conformabli radically differently vietnamization predication operator feudalism decisiveness hopefulness
 callousness formality sensitivity sensibility galaxies Swift UV luminosity replacement adjustment dependent adoption communicate activate angularity
 homologous effective bowdlerize probate cease controll roll fly died agreed plastered bled motoring sing conflated troubled sized hopping tanned falling
 hissing fizzed failing filing zoology 1234 3rd ABC DEF2 x86 o'clock rock'n'roll ''' ' 'tis`)
var otherWords = strings.Fields("coração São além ainda não está diversos diversas também Águas ÁGUA naïve façade Ωμέγα Άλφα МОСКВА Привет 日本語 検索 한국어 العربية עברית हिन्दी ไทย Ⅷ ½ ² ٣ ǅ ß ẞ İstanbul ıŞIK ﬁn K Å é e\u0301 a\u0300\u0301 n\u0303o o\u0308 \U0001D400 𐐀𐐁 😀 Ꞝ ʼn ŉ ΐ Σίσυφος ΣΑΣ")

func anyText(r *rand.Rand) string {
	n := 1 + r.Intn(40)
	if r.Intn(40) == 0 {
		n = 2000 + r.Intn(20000)
	}
	if r.Intn(20) == 0 {
		n = 0
	}
	return textOf(r, n)
}

func textOf(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(14) {
		case 0:
			b.WriteRune(rune(r.Intn(0x110000)))
		case 1:
			for j := r.Intn(12); j > 0; j-- {
				b.WriteRune(rune(r.Intn(0x3000)))
			}
		case 2:
			b.WriteString(string([]byte{byte(r.Intn(256)), byte(r.Intn(256))}))
		case 3, 4:
			b.WriteString(otherWords[r.Intn(len(otherWords))])
		case 5:
			w := enWords[r.Intn(len(enWords))]
			b.WriteString(strings.ToUpper(w))
		case 6:
			for j := 1 + r.Intn(9); j > 0; j-- {
				b.WriteByte("aeiouyYsstlnrdgbc''"[r.Intn(19)])
			}
		case 7:
			suff := strings.Fields("ing ed edly ly ational tional enci anci izer abli alli entli ousli ization ation ator alism iveness fulness ousness aliti iviti biliti ement ment ent ion al ance ence er ic able ible ant ism ate iti ous ive ize sses ied ies us ss 's 's' ' eed eedly ogi bli fulli lessli li")
			b.WriteString(enWords[r.Intn(len(enWords))] + suff[r.Intn(len(suff))])
		case 8:
			if n < 50000 && r.Intn(60) == 0 {
				b.WriteString(strings.Repeat(string([]rune("aXé日'")[r.Intn(5)]), 1+r.Intn(100000)))
			} else {
				b.WriteString(strings.Repeat([]string{"a", "y", "ing", "é", "日", "'", "e\u0301", "ss"}[r.Intn(8)], 1+r.Intn(60)))
			}
		case 9:
			sw := sortedKeys(refStop[[]language.Language{language.English, language.Portuguese}[r.Intn(2)]])
			b.WriteString(sw[r.Intn(len(sw))])
		default:
			b.WriteString(enWords[r.Intn(len(enWords))])
		}
		b.WriteString([]string{" ", " ", " ", " ", "  ", "\n", "\t", ", ", ". ", "-", "/", "", "_", "\u00a0", "\u2028", "’", "\x00", "·", "\u0085"}[r.Intn(19)])
	}
	return b.String()
}

// recase changes the case of letters without changing the lower-case form of the text.
func recase(r *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		x, n := utf8.DecodeRuneInString(s[i:])
		if x == utf8.RuneError {
			b.WriteString(s[i : i+n])
			i += n
			continue
		}
		i += n
		y := x
		switch r.Intn(4) {
		case 0:
			y = unicode.ToUpper(x)
		case 1:
			y = unicode.ToTitle(x)
		case 2:
			y = unicode.SimpleFold(x)
		}
		if unicode.ToLower(y) != unicode.ToLower(x) || isTokenRune(x) != isTokenRune(y) {
			y = x
		}
		b.WriteRune(y)
	}
	return b.String()
}

func sameTokens(g, w []string) string {
	for i := range w {
		if i >= len(g) {
			return fmt.Sprintf("ends after %d of %d tokens; next should be %q", len(g), len(w), clip(w[i]))
		}
		if g[i] != w[i] {
			return fmt.Sprintf("token %d of %d is %q, want %q", i, len(w), clip(g[i]), clip(w[i]))
		}
	}
	if len(g) > len(w) {
		return fmt.Sprintf("has %d tokens, want %d; the first extra one is %q", len(g), len(w), clip(g[len(w)]))
	}
	return ""
}

func cp(s []string) []string { return append([]string(nil), s...) }

func textCase(c *Case) {
	lang := []language.Language{language.English, language.English, language.Portuguese}[c.R.Intn(3)]
	an := newAnalyzer(lang)
	type job struct {
		text string
		want []string
	}
	var jobs []job
	for i := 0; i < 12 && !c.Failed(); i++ {
		text := anyText(c.R)
		if i == 0 && c.Idx%60 == 5 {
			text = textOf(c.R, 70000+c.R.Intn(70000))
		}
		c.Logf("text %q", clip(text))
		bad := func(what, s string) {
			if s != "" {
				c.Failf("%s of the text %q: %s", what, clip(text), s)
			}
		}
		// Each stage.
		toks := an.tok.Tokenize(text)
		bad("tokenizing", sameTokens(toks, refTokens(text)))
		low := an.fs[0].Process(cp(toks))
		want := make([]string, len(toks))
		for k, t := range toks {
			want[k] = refLower(t)
		}
		bad("lower-casing the tokens", sameTokens(low, want))
		st := an.fs[1].Process(cp(low))
		var kept []string
		for _, t := range low {
			if !an.stop[t] {
				kept = append(kept, t)
			}
		}
		bad("removing stop words from the tokens", sameTokens(st, kept))
		stem := an.fs[2].Process(cp(st))
		want = make([]string, len(st))
		for k, t := range st {
			want[k] = porter2.Stem(t)
		}
		bad("stemming the tokens", sameTokens(stem, want))
		asc := an.fs[3].Process(cp(stem))
		want = make([]string, len(stem))
		for k, t := range stem {
			want[k] = refASCII(t)
		}
		bad("removing combining marks from the tokens", sameTokens(asc, want))
		// The whole analysis.
		full := an.run(text)
		ref := refAnalyze(text, an.stop)
		bad("analysis", sameTokens(full, ref))
		bad("analysing a second time", sameTokens(an.run(text), ref))
		var parts []string
		for _, p := range strings.Fields(text) {
			parts = append(parts, an.run(p)...)
		}
		bad("the concatenated analyses of the parts", sameTokens(parts, ref))
		v := recase(c.R, text)
		bad("the analysis of a variant in other letter case", sameTokens(an.run(v), ref))
		// Term frequencies.
		tf := metric.TermFrequency(cp(full))
		cnt := map[string]int{}
		for _, t := range full {
			cnt[t]++
		}
		bad("counting the terms", sameCounts(tf, cnt))
		c.Add("texts", 1)
		c.Add("tokens_compared", len(toks))
		jobs = append(jobs, job{text, ref})
		c.Finger(len(text), len(toks), len(ref), clip(text))
	}
	// Filters on token lists that no tokenizer made.
	custom := map[string]bool{}
	var list []string
	for i := c.R.Intn(60); i > 0; i-- {
		t := anyString(c.R, false)
		if c.R.Intn(3) > 0 {
			t = anyText(c.R)
			if len(t) > 200 {
				t = t[:200]
			}
			t = strings.ToValidUTF8(t, "?")
		}
		list = append(list, t)
		if c.R.Intn(3) == 0 {
			custom[t] = true
		}
	}
	var kept, st, asc, low []string
	for _, t := range list {
		if !custom[t] {
			kept = append(kept, t)
		}
		st = append(st, porter2.Stem(t))
		if !utf8.ValidString(t) {
			continue
		}
		asc = append(asc, t)
		low = append(low, t)
	}
	bad := func(what, s string) {
		if s != "" {
			c.Failf("%s of a list of %d arbitrary tokens: %s", what, len(list), s)
		}
	}
	bad("removal of a given stop list", sameTokens(filter.NewStopWords(custom).Process(cp(list)), kept))
	bad("stemming", sameTokens(filter.NewStemmer(stemmer.Snowball).Process(cp(list)), st))
	ga, gl := filter.NewASCII().Process(cp(asc)), filter.NewLowercase().Process(cp(low))
	for i := range asc {
		asc[i] = refASCII(asc[i])
		low[i] = refLower(low[i])
	}
	bad("removal of combining marks", sameTokens(ga, asc))
	bad("lower-casing", sameTokens(gl, low))
	c.Add("tokens_compared", 4*len(list))
	if c.Failed() {
		return
	}
	// Many callers share the filters.
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		order := c.R.Perm(len(jobs))
		go func() {
			defer wg.Done()
			c.guard(func() {
				for _, j := range order {
					if s := sameTokens(an.run(jobs[j].text), jobs[j].want); s != "" {
						c.Failf("analysis of the text %q, while others are being analysed: %s", clip(jobs[j].text), s)
					}
					c.Add("concurrent_analyses", 1)
				}
			})
		}()
	}
	wg.Wait()
	for l, ws := range map[language.Language][]string{language.English: luceneStop, language.Portuguese: portugueseStop} {
		n := 0
		for _, w := range ws {
			if !refStop[l][w] {
				c.Failf("%q is not in the stop list %q", w, l)
			}
		}
		for _, v := range refStop[l] {
			if v {
				n++
			}
		}
		if n != len(ws) {
			c.Failf("the stop list %q has %d words, not %d", l, n, len(ws))
		}
		if !reflect.DeepEqual(copyWords(l), refStop[l]) {
			c.Failf("the stop list %q changed while it was used", l)
		}
	}
	c.NonTrivial()
	c.Sample(map[string]any{"text": clip(jobs[0].text), "terms": len(jobs[0].want), "language": lang})
}

// ---- C17: JSON documents ----

type leaf struct {
	path string
	val  any
}

func anyKey(r *rand.Rand) string {
	keys := []string{"Id", "id", "ID", "Title", "a", "b", "", ".", "a.b", "Id.x", "x", "ação", "\u0000", "日本", "k\"q", "long" + strings.Repeat("k", 50)}
	if r.Intn(3) == 0 {
		return fmt.Sprintf("k%d", r.Intn(30))
	}
	return keys[r.Intn(len(keys))]
}

func anyValue(r *rand.Rand, depth int) any {
	switch r.Intn(9) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return float64(r.Intn(100000))
	case 3:
		return []float64{0, -1, 0.5, 1e21, 1e-9, 123456.789, 1 << 53, -1e300}[r.Intn(8)]
	case 4:
		n := r.Intn(4)
		a := make([]any, n)
		for i := range a {
			a[i] = anyValue(r, depth-1)
		}
		return a
	case 5, 6:
		if depth > 0 {
			m := map[string]any{}
			for i := r.Intn(5); i > 0; i-- {
				m[anyKey(r)] = anyValue(r, depth-1)
			}
			return m
		}
	}
	s := anyString(r, false)
	return strings.ToValidUTF8(s, "\ufffd")
}

// leaves is an iterative walk, unlike the recursion it checks.
func leaves(root map[string]any) []leaf {
	type node struct {
		up  *node
		key string
		v   any
	}
	var out []leaf
	todo := []*node{}
	for k, v := range root {
		todo = append(todo, &node{nil, k, v})
	}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if m, ok := n.v.(map[string]any); ok {
			for k, v := range m {
				todo = append(todo, &node{n, k, v})
			}
			continue
		}
		path := []string{n.key}
		for x := n.up; x != nil; x = x.up {
			path = append(path, x.key)
		}
		slices.Reverse(path)
		out = append(out, leaf{strings.Join(path, "."), n.v})
	}
	return out
}

func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i, e := range x {
			a[i] = deepCopy(e)
		}
		return a
	}
	return v
}

// parses calls the parser, which refuses by panicking.
func parses(text string) (o map[string]any, ok bool) {
	defer func() {
		if recover() != nil {
			o, ok = nil, false
		}
	}()
	return field.StringToObject(text), true
}

// spoiledJSON: texts that are nearly a JSON object are refused, or read as what they are.
func spoiledJSON(c *Case, text []byte) {
	r := c.R
	b := append([]byte(nil), text...)
	at := func() int { return r.Intn(len(b)) }
	ends := []string{"}", "{}", " x", ",", "]", "null", "{\"Id\":\"7\"}", "\x00", ";", "//"}
	switch r.Intn(9) {
	case 0:
		b = b[:at()]
	case 1:
		b = append(b, ends[r.Intn(len(ends))]...)
	case 2:
		b = append([]byte(ends[r.Intn(len(ends))]), b...)
	case 3:
		i := at()
		b = append(b[:i:i], b[i+1:]...)
	case 4:
		b[at()] = byte(r.Intn(256))
	case 5:
		i := at()
		b = append(b[:i:i], append([]byte{"\"{}[],:0 e-.\\"[r.Intn(13)]}, b[i:]...)...)
	case 6:
		b = append(append([]byte{'['}, b...), ']')
	case 7:
		b = []byte([]string{"", " ", "null", "true", "7", "\"a\"", "[]", "{", "{}", " {} ", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{a:1}", "{'a':1}", "{\"a\":01}", "{\"a\":1}{\"b\":2}", "\ufeff{}"}[r.Intn(18)])
	case 8:
		b = bytes.Replace(b, []byte(":"), []byte([]string{"=", "::", ""}[r.Intn(3)]), 1)
	}
	var want any
	err := json.Unmarshal(b, &want)
	o, isObject := want.(map[string]any)
	got, ok := parses(string(b))
	switch {
	case err != nil || !isObject && want != nil:
		c.Add("malformed_texts", 1)
		if ok {
			c.Failf("the text %s is no JSON object, but is read as %v", clip(string(b)), clip(fmt.Sprint(got)))
		}
	case isObject && !ok:
		c.Failf("the text %s is a JSON object, but is refused", clip(string(b)))
	case isObject && !reflect.DeepEqual(got, o):
		c.Failf("the text %s is read as %v", clip(string(b)), clip(fmt.Sprint(got)))
	}
}

func jsonCase(c *Case) {
	for i := 0; i < 40 && !c.Failed(); i++ {
		obj := map[string]any{}
		for k := c.R.Intn(8); k > 0; k-- {
			obj[anyKey(c.R)] = anyValue(c.R, c.R.Intn(6))
		}
		veryDeep := i == 0 && c.Idx%16 == 3
		if c.R.Intn(20) == 0 || veryDeep {
			var v any = anyValue(c.R, 0)
			d, sides := 50+c.R.Intn(500), 6
			if veryDeep { // the parser ends at 10,000
				d, sides = 1000+c.R.Intn(8900), 900
			}
			for ; d > 0; d-- {
				k := anyKey(c.R)
				if veryDeep && len(k) > 6 {
					k = "k"
				}
				m := map[string]any{k: v}
				if c.R.Intn(sides) == 0 {
					m["side"] = anyValue(c.R, 1)
				}
				v = m
			}
			obj["deep"] = v
		}
		if c.R.Intn(15) == 0 { // wide
			n := 2000
			if i < 5 && c.Idx%32 == 9 {
				n = 70000
			}
			for k := 0; k < n; k++ {
				obj[fmt.Sprintf("w%d", k)] = anyValue(c.R, 1)
			}
		}
		if c.R.Intn(60) == 0 { // long
			n := []int{257, 1025, 4097, 65537, 300000}[c.R.Intn(5)]
			k := strings.Repeat("k", n)
			long := make([]any, n%100000)
			for j := range long {
				long[j] = float64(j % 7)
			}
			switch c.R.Intn(3) {
			case 0:
				obj[k] = map[string]any{"x": anyValue(c.R, 1), k: anyValue(c.R, 0), "": "y"}
				obj["k"] = map[string]any{k: map[string]any{k + "k": 1.0}}
			case 1:
				obj["v"] = map[string]any{"x": strings.Repeat("é ", n), "y": k}
			case 2:
				obj["v"] = map[string]any{"x": long, "y": []any{long, map[string]any{"z": long}}}
			}
		}
		wantId, hasId := "", true
		switch c.R.Intn(6) {
		case 0:
			delete(obj, "Id")
		case 1:
			obj["Id"] = nil
		case 2:
			n := int64([]float64{0, 1, -7, 999999, 1000000, 20000000, 123456789012, 1 << 53, 1e15}[c.R.Intn(9)])
			if c.R.Intn(2) == 0 {
				n = c.R.Int63n(1 << 53)
			}
			obj["Id"] = float64(n)
			wantId = strconv.FormatInt(n, 10)
		case 3:
			f := []float64{0.5, -2.25, 1e21, 123456.75, 1e-7}[c.R.Intn(5)]
			obj["Id"] = f
			wantId = []string{"0.5", "-2.25", "1000000000000000000000", "123456.75", "0.0000001"}[map[float64]int{0.5: 0, -2.25: 1, 1e21: 2, 123456.75: 3, 1e-7: 4}[f]]
		case 4:
			wantId = strings.ToValidUTF8(anyString(c.R, false), "\ufffd")
			obj["Id"] = wantId
		case 5:
			wantId = []string{"x", "%s", "%!d(string=a)", "<nil>", "null", " 7 ", "a/b"}[c.R.Intn(7)]
			obj["Id"] = wantId
		}
		if _, ok := obj["Id"].(map[string]any); ok {
			hasId = false
		}
		text, err := json.Marshal(obj)
		if err != nil {
			harness("marshal: %v", err)
		}
		if c.R.Intn(3) == 0 && len(text) < 20000 { // spread out
			var b bytes.Buffer
			if err := json.Indent(&b, text, "\t", []string{" ", "\t", "\r\n", ""}[c.R.Intn(4)]); err != nil {
				harness("indent: %v", err)
			}
			text = append([]byte([]string{"", " ", "\n\t"}[c.R.Intn(3)]), append(b.Bytes(), []string{"", " ", "\n"}[c.R.Intn(3)]...)...)
		}
		c.Logf("%s", clip(string(text)))
		in := field.StringToObject(string(text))
		if !reflect.DeepEqual(in, deepCopy(obj)) {
			c.Failf("parsing %s gives %v", clip(string(text)), clip(fmt.Sprint(in)))
			return
		}
		if len(text) < 20000 {
			for k := 0; k < 3; k++ {
				spoiledJSON(c, text)
			}
		}
		before := deepCopy(in)
		out := field.Flatten(in)
		if !reflect.DeepEqual(before, any(in)) {
			c.Failf("flattening %s changed the input", clip(string(text)))
		}
		want := map[string][]any{}
		for _, l := range leaves(obj) {
			want[l.path] = append(want[l.path], l.val)
		}
		c.Add("objects", 1)
		c.Add("leaves_compared", len(want))
		for p, vs := range want {
			g, ok := out[p]
			if !ok {
				c.Failf("flattening %s: leaf %q is missing", clip(string(text)), clip(p))
				break
			}
			found := false
			for _, v := range vs { // two leaves may share a path
				found = found || reflect.DeepEqual(g, v)
			}
			if !found {
				c.Failf("flattening %s: leaf %q is %v, want %v", clip(string(text)), clip(p), g, vs)
			}
		}
		for p := range out {
			if _, ok := want[p]; !ok {
				c.Failf("flattening %s: entry %q is no leaf", clip(string(text)), clip(p))
			}
		}
		if hasId {
			if g := field.GetID(in); g != wantId {
				c.Failf("the id %v of a document is read as %q, want %q", obj["Id"], g, wantId)
			}
			// A leaf at another place may also have the path "Id" only if it is at the top.
			if g := field.GetID(out); g != wantId {
				c.Failf("the id %v of a flattened document is read as %q, want %q", obj["Id"], g, wantId)
			}
			c.Add("ids_compared", 2)
		}
		// The result is the caller's: changing it does not change the input.
		for k := range out {
			out[k] = "changed"
		}
		if !reflect.DeepEqual(before, any(in)) {
			c.Failf("the flattened form of %s shares maps with the input", clip(string(text)))
		}
		again := field.Flatten(in)
		if len(again) != len(want) {
			c.Failf("flattening %s again gives %d entries, first %d", clip(string(text)), len(again), len(want))
		}
		c.Finger(len(text), len(want), wantId)
		if len(want) > 1 {
			c.NonTrivial()
		}
		c.Sample(map[string]any{"document": clip(string(text)), "leaves": len(want), "id": wantId})
	}
}

func init() {
	for _, l := range []language.Language{language.English, language.Portuguese} {
		func() {
			defer func() { recover() }() // C16 reports that the list is missing
			refStop[l] = map[string]bool{}
			refStop[l] = copyWords(l)
		}()
	}
	procs := []int{4, 8, 2}
	props["C11"] = def{quick: 400, deep: 20000, procs: procs, run: formatCase}
	props["C16"] = def{quick: 480, deep: 30000, procs: procs, run: textCase}
	props["C17"] = def{quick: 1600, deep: 120000, run: jsonCase}
}
