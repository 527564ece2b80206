package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/language"
	"github.com/sira-serverless-ir-arch/goirlib/model"
)

// ---- C18: the HTTP service ----

type server struct {
	c     *Case
	dir   string
	cmd   *exec.Cmd
	base  string
	log   *os.File
	gone  chan struct{}
	httpc *http.Client
	exe   string
}

func (v *server) start() bool {
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			harness("no loopback: %v", err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		logName := filepath.Join(v.dir, "server.log")
		v.log, err = os.OpenFile(logName, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o644)
		if err != nil {
			harness("server log: %v", err)
		}
		v.cmd = exec.Command(v.exe)
		v.cmd.Dir = v.dir
		v.cmd.Env = []string{fmt.Sprint("PORT=", port), "GORACE=" + os.Getenv("GORACE"), "GOTRACEBACK=all", "HOME=/nonexistent", "GOMAXPROCS=4"}
		v.cmd.Stdout, v.cmd.Stderr = io.Discard, v.log
		if err := v.cmd.Start(); err != nil {
			harness("server: %v", err)
		}
		v.base = fmt.Sprintf("http://127.0.0.1:%d/nir", port)
		v.httpc = &http.Client{Timeout: 120 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
		v.gone = make(chan struct{})
		go func(cmd *exec.Cmd, gone chan struct{}) { cmd.Wait(); close(gone) }(v.cmd, v.gone)
		for t := time.Now(); time.Since(t) < 120*time.Second; {
			select {
			case <-v.gone:
			default:
				if k, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); err == nil {
					k.Close()
					return true
				}
				time.Sleep(20 * time.Millisecond)
				continue
			}
			break
		}
		b, _ := os.ReadFile(logName)
		v.stop()
		if bytes.Contains(b, []byte("address already in use")) {
			continue
		}
		v.c.Failf("the service does not start: %s", clipN(string(b), 1500))
		return false
	}
	harness("no free port")
	return false
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// stop kills the service as kill -9 would.
func (v *server) stop() {
	v.cmd.Process.Kill()
	<-v.gone
	v.log.Close()
	v.httpc.CloseIdleConnections()
}

// dead reports whether the service ended by itself.
func (v *server) dead() bool {
	select {
	case <-v.gone:
		b, _ := os.ReadFile(filepath.Join(v.dir, "server.log"))
		v.c.Failf("the service process ended: %s", clipN(string(b), 2500))
		return true
	default:
		return false
	}
}

type hDoc struct {
	Id    string `json:"id"`
	Title string `json:"title,omitempty"`
	Text  string `json:"text,omitempty"`
}

func (v *server) post(body []byte) (int, bool) {
	r, err := v.httpc.Post(v.base, "application/json", bytes.NewReader(body))
	if err != nil {
		if !v.dead() {
			v.c.Failf("POST %s gets no answer: %v", clip(string(body)), err)
		}
		return 0, false
	}
	io.Copy(io.Discard, r.Body)
	r.Body.Close()
	v.c.Add("requests", 1)
	return r.StatusCode, true
}

func (v *server) index(d hDoc) bool {
	b, _ := json.Marshal(d)
	code, ok := v.post(b)
	if ok && code != 201 {
		v.c.Failf("indexing %s (%d bytes) is answered with %d, not 201", clip(string(b)), len(b), code)
	}
	return ok && code == 201
}

func (v *server) query(q string, raw bool) ([]model.DocumentScore, bool) {
	u := v.base + "?query=" + url.QueryEscape(q)
	if raw {
		u = v.base + q
	}
	r, err := v.httpc.Get(u)
	if err != nil {
		if !v.dead() {
			v.c.Failf("GET of query %q gets no answer: %v", clip(q), err)
		}
		return nil, false
	}
	b, err := io.ReadAll(r.Body)
	r.Body.Close()
	v.c.Add("requests", 1)
	if r.StatusCode != 200 || err != nil {
		v.c.Failf("GET of query %q is answered with %d (%v): %s", clip(q), r.StatusCode, err, clip(string(b)))
		return nil, false
	}
	var res struct {
		Total        *int `json:"total"`
		QueryResults []struct {
			Similarity *float64 `json:"similarity"`
			Document   struct {
				Id *string `json:"id"`
			} `json:"document"`
		} `json:"queryResults"`
	}
	if err := json.Unmarshal(b, &res); err != nil {
		v.c.Failf("GET of query %q is answered with %q: %v", clip(q), clip(string(b)), err)
		return nil, false
	}
	var out []model.DocumentScore
	for _, x := range res.QueryResults {
		if x.Similarity == nil || x.Document.Id == nil {
			v.c.Failf("a result of query %q lacks its score or id: %s", clip(q), clip(string(b)))
			return nil, false
		}
		out = append(out, model.DocumentScore{Id: *x.Document.Id, Score: *x.Similarity})
	}
	if res.Total == nil || *res.Total != len(out) {
		v.c.Failf("the answer to query %q holds %d results and does not say so: %s", clip(q), len(out), clip(string(b)))
	}
	if len(out) > 10 {
		v.c.Failf("query %q gets %d results", clip(q), len(out))
	}
	for i, x := range out {
		if i > 0 && out[i-1].Score < x.Score {
			v.c.Failf("the results of query %q are not ordered: %v before %v", clip(q), out[i-1], x)
		}
		if math.IsNaN(x.Score) || math.IsInf(x.Score, 0) || x.Score <= 0 {
			v.c.Failf("query %q gives document %q the score %v", clip(q), x.Id, x.Score)
		}
	}
	return out, true
}

func analyzed(d hDoc) []model.Field {
	var out []model.Field
	for _, f := range [][2]string{{"id", d.Id}, {"title", d.Title}, {"text", d.Text}} {
		t := refAnalyze(f[1], refStop[language.English])
		m := model.Field{Name: f[0], Length: len(t), TF: map[string]int{}}
		for _, x := range t {
			m.TF[x]++
		}
		out = append(out, m)
	}
	return out
}

func httpQueries(q string) []model.Query {
	t := refAnalyze(q, refStop[language.English])
	return []model.Query{{FieldName: "title", Terms: t, Boost: 1}, {FieldName: "text", Terms: t, Boost: 1}}
}

// exact compares an answer with the reference ranking, at a moment when nothing else goes on.
func (v *server) exact(when, q string, ref *Ref) {
	got, ok := v.query(q, false)
	if !ok {
		return
	}
	c := v.c
	want := ref.Search(httpQueries(q))
	c.Add("rankings_compared", 1)
	c.Add("results_compared", len(got))
	n := len(want)
	if n > 10 {
		n = 10
		c.Add("queries_with_more_than_ten_matches", 1)
	} else if n < 10 {
		c.Add("queries_with_fewer_than_ten_matches", 1)
	}
	if len(got) != n {
		c.Failf("%s: query %q has %d matching documents and gets %d results", when, clip(q), len(want), len(got))
		return
	}
	var best []float64
	for _, s := range want {
		best = append(best, s)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(best)))
	seen := map[string]bool{}
	for i, h := range got {
		w, ok := want[h.Id]
		switch {
		case !ok:
			c.Failf("%s: query %q finds document %q, which does not match", when, clip(q), h.Id)
		case seen[h.Id]:
			c.Failf("%s: query %q finds document %q twice", when, clip(q), h.Id)
		case !near(w, h.Score):
			c.Failf("%s: query %q gives document %q the score %v, BM25 is %v", when, clip(q), h.Id, h.Score, w)
		case !near(best[i], h.Score):
			c.Failf("%s: result %d of query %q has the score %v, the %d. best match has %v", when, i+1, clip(q), h.Score, i+1, best[i])
		}
		seen[h.Id] = true
	}
}

var malformed = []string{``, `{`, `[]`, `[{"id":"poisoned"}]`, `"poisoned"`, `5`, `{"id":5,"title":"poisoned"}`, `{"id":["poisoned"]}`, `{"id":{"a":1},"text":"poisoned"}`,
	`{"title":"poisoned","text":"poisoned"}`, `{"id":"","title":"poisoned","text":"poisoned"}`, `{"id":null,"title":"poisoned"}`, `null`, `{}`, `true`,
	`{"id":"poisoned","title":5}`, `{"id":"poisoned","text":{"a":"b"}}`, `{"id":"poisoned","title":"poisoned"`, `{"id":"poisoned",}`, `{id:"poisoned"}`,
	"\x00\x01\x02", `{"id":"poisoned" "title":"poisoned"}`, `{"id":"poisoned","title":["poisoned"]}`, `not json`, "\xff\xfe{"}

var accents = map[rune]string{'a': "á", 'e': "é", 'i': "ï", 'o': "o\u0302", 'u': "ü", 'c': "ç", 'n': "n\u0303", 'y': "ý", 's': "ş"}

// someWord: English, other, with stray accents (before a suffix, or on a stop word, the order of the stages shows), or loud.
func someWord(r *rand.Rand) string {
	w := enWords[r.Intn(len(enWords))]
	switch r.Intn(12) {
	case 0, 1:
		w = otherWords[r.Intn(len(otherWords))]
	case 2, 3:
		l := []rune(w)
		w = ""
		k := r.Intn(len(l))
		for i, x := range l {
			if a := accents[x]; a != "" && (i == k || r.Intn(3) == 0) {
				w += a
			} else {
				w += string(x)
			}
		}
	case 4:
		w = strings.ToUpper(w)
	}
	return w
}

func someDoc(r *rand.Rand, id string, uniq string) hDoc {
	d := hDoc{Id: id}
	word := func() string { return someWord(r) }
	for i := r.Intn(6); i > 0; i-- {
		d.Title += word() + " "
	}
	for i := r.Intn(30); i > 0; i-- {
		d.Text += word() + []string{" ", ", ", ". ", "\n"}[r.Intn(4)]
	}
	if r.Intn(40) == 0 {
		d.Text = strings.Repeat(d.Text, 40)
	}
	if r.Intn(150) == 0 { // well over 1 MB
		d.Text = strings.Repeat(d.Text+" heavy", 1+(1<<20+r.Intn(4<<20))/(len(d.Text)+6))
	}
	if r.Intn(2) == 0 {
		d.Title += uniq
	} else {
		d.Text += " " + uniq
	}
	if r.Intn(2) == 0 {
		d.Text += " everywhere"
	}
	return d
}

// Ids that say nothing to the text pipeline, or say the same as others do.
var httpIds = []string{"the", "The", "THE", "-", "!!", ".", "..", "of and", "x y", " lead", "lead", "trail ", "trail", " ", "\t", "\n", "é", "e\u0301", "日本語", "a/b", "../a",
	"%41", "A", "a", "a\x00b", "0", "00", "null", "\u2028", "<b>", "&amp;", "&", "\\", "\"q\"", "\U0001F600", "running", "runs", "run", strings.Repeat("x", 300),
	strings.Repeat("x", 301), strings.Repeat("the ", 80), "docs", "title", "5", "-5", "1e3"}

func pickId(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return httpIds[r.Intn(len(httpIds))]
	}
	return fmt.Sprintf("doc %d/é", r.Intn(40))
}

func someQuery(r *rand.Rand) string {
	switch r.Intn(11) {
	case 10:
		return pickId(r)
	case 0:
		return ""
	case 1:
		return "everywhere"
	case 2:
		return "poisoned"
	case 3:
		return "the of and"
	case 4:
		return strings.ToUpper(enWords[r.Intn(len(enWords))]) + " !? " + otherWords[r.Intn(len(otherWords))]
	}
	var w []string
	for i := 1 + r.Intn(6); i > 0; i-- {
		w = append(w, someWord(r))
	}
	return strings.Join(w, " ")
}

func httpCase(c *Case) {
	dir := c.Dir()
	defer Clean(dir)
	// In two of three cases the service's clock is accelerated, for more restarts in the same time.
	fast := c.Idx%3 != 0
	v := &server{c: c, dir: dir, exe: os.Getenv("V_SERVER")}
	if fast {
		v.exe = os.Getenv("V_FASTSERVER")
		c.Add("sessions_accelerated", 1)
	}
	if !v.start() {
		return
	}
	running := true
	defer func() {
		if running {
			v.stop()
		}
	}()
	ref := NewRef()
	save := func(d hDoc) {
		for _, f := range analyzed(d) {
			ref.Save(d.Id, f)
		}
	}
	uniq := 0
	newWord := func() string {
		uniq++
		return fmt.Sprintf("zq%dx", uniq)
	}
	words := map[string]string{} // unique word -> document that currently has it
	sweep := func(when string, n int) {
		for i := 0; i < n && !c.Failed(); i++ {
			v.exact(when, someQuery(c.R), ref)
		}
		var long []string // the race detector ends at 8,128 goroutines, so not more
		for i := []int{100, 1100, 2500}[c.R.Intn(3)]; i > 0; i-- {
			if i%2 == 0 {
				long = append(long, fmt.Sprint("absent", i))
			} else {
				long = append(long, someWord(c.R))
			}
		}
		v.exact(when, strings.Join(long, " "), ref)
		k := 0
		for w, id := range words {
			if k++; k > 60 || c.Failed() {
				break
			}
			got, ok := v.query(w, false)
			if ok && (len(got) != 1 || got[0].Id != id) {
				c.Failf("%s: query %q gets %v, want document %q", when, w, got, id)
			}
		}
		for _, q := range []string{"", "?", "?query", "?query=", "?other=running", "?query=%zz", "?query=a;b", "?query=%00", "?query=%ff%fe", "?query=" + url.QueryEscape(strings.Repeat("running ", 300))} {
			v.query(q, true)
		}
	}
	current := map[string]string{}          // document -> its unique word
	started := map[string][][]model.Field{} // all versions so far
	rounds := 2
	if fast {
		rounds = 4
	}
	if c.Thorough {
		rounds = 4
	}
	for round := 0; round < rounds && !c.Failed(); round++ {
		// One after another: every document is found by the next query.
		for i := 0; i < 35 && !c.Failed(); i++ {
			id := pickId(c.R)
			w := newWord()
			d := someDoc(c.R, id, w)
			c.Logf("POST %q %q %s", d.Id, d.Title, clip(d.Text))
			started[id] = append(started[id], analyzed(d))
			if !v.index(d) {
				break
			}
			save(d)
			if old := current[id]; old != "" {
				delete(words, old)
			}
			current[id], words[w] = w, id
			got, ok := v.query(w, false)
			if ok && (len(got) != 1 || got[0].Id != id) {
				c.Failf("document %q, just indexed, is not what query %q finds: %v", id, w, got)
			}
			v.exact("one after another", someQuery(c.R), ref)
			if c.R.Intn(2) == 0 {
				b := malformed[c.R.Intn(len(malformed))]
				code, ok := v.post([]byte(b))
				if ok && (code < 400 || code > 499) {
					c.Failf("the malformed request %q is answered with %d", b, code)
				}
				c.Add("malformed_requests", 1)
			}
		}
		sweep("one after another", 20)
		if c.Failed() {
			return
		}
		// Clients at the same time, each with documents of its own.
		var mu sync.Mutex
		var wg sync.WaitGroup
		clients := 4 + c.R.Intn(8)
		for k := 0; k < clients; k++ {
			wg.Add(1)
			rr := rand.New(rand.NewSource(c.R.Int63()))
			k, round := k, round
			go func() {
				defer wg.Done()
				c.guard(func() {
					for i := 0; i < 14 && !c.Failed(); i++ {
						id := fmt.Sprintf("c%d-%d", k, rr.Intn(8))
						mu.Lock()
						w := newWord()
						mu.Unlock()
						d := someDoc(rr, id, w)
						version := analyzed(d)
						mu.Lock()
						started[id] = append(started[id], version)
						mu.Unlock()
						if !v.index(d) {
							return
						}
						mu.Lock()
						save(d)
						if old := current[id]; old != "" {
							delete(words, old)
						}
						current[id], words[w] = w, id
						mu.Unlock()
						got, ok := v.query(w, false)
						if ok && (len(got) != 1 || got[0].Id != id) {
							c.Failf("round %d: document %q, just indexed while others are busy, is not what query %q finds: %v", round, id, w, got)
						}
						q := someQuery(rr)
						got, ok = v.query(q, false)
						if !ok {
							return
						}
						terms := httpQueries(q)[0].Terms
						mu.Lock()
						for _, h := range got {
							vs, known := started[h.Id]
							match := false
							for _, version := range vs {
								for _, f := range version[1:] {
									for _, t := range terms {
										match = match || f.TF[t] > 0
									}
								}
							}
							if !known || !match {
								c.Failf("round %d: query %q finds document %q, which never had any of its words", round, clip(q), h.Id)
							}
						}
						mu.Unlock()
						c.Add("concurrent_exchanges", 1)
						if rr.Intn(6) == 0 {
							b := malformed[rr.Intn(len(malformed))]
							if code, ok := v.post([]byte(b)); ok && (code < 400 || code > 499) {
								c.Failf("the malformed request %q is answered with %d", b, code)
							}
							c.Add("malformed_requests", 1)
						}
					}
				})
			}()
		}
		wg.Wait()
		c.StopIfFailed()
		sweep(fmt.Sprintf("after the concurrent clients of round %d", round), 30)
		// Many at once.
		for i := 40 + c.R.Intn(120); i > 0; i-- {
			wg.Add(1)
			q := someQuery(c.R)
			go func() {
				defer wg.Done()
				c.guard(func() { v.exact("many queries at once", q, ref) })
			}()
		}
		wg.Wait()
		if v.dead() {
			running = false
			return
		}
		c.StopIfFailed()
		// Everything is durable 20 s after the last request that stored something; queries go on meanwhile.
		until := time.Now().Add(Settle + 1500*time.Millisecond)
		if fast {
			until = time.Now().Add(2500 * time.Millisecond)
		}
		for time.Now().Before(until) && !c.Failed() {
			v.exact("while the service flushes", someQuery(c.R), ref)
			time.Sleep(time.Duration(c.R.Intn(300)) * time.Millisecond)
		}
		c.StopIfFailed()
		v.stop()
		running = false
		if !v.start() {
			return
		}
		running = true
		c.Add("restarts", 1)
		sweep("after kill and restart", 40)
	}
	if !c.Failed() && v.dead() {
		running = false
	}
	c.Finger(c.Idx, len(ref.docs), uniq)
	c.NonTrivial()
	c.Sample(map[string]any{"documents": len(ref.docs), "rounds": rounds, "words": len(words)})
}

func init() {
	props["C18"] = def{quick: 9, deep: 60, run: httpCase}
}
