package vh

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C12: names ----

// The store of a case lies this deep inside the case's own directory; no generated name climbs higher.
const nameDepth = 9

var nastyNames = []string{"", ".", "..", "/", "//", "\\", "a/b", "a\\b", "a//b", "a/./b", "a/../a/b", "a/b/", "/a/b", "./a", "../canary", "../x", "../../x",
	"../../../canary", "../../../../../x", "..\\x", "../metrics", "../docs", "../docs/metrics/x", "../../x/metrics", "../store", "../store/docs",
	"docs", "Docs", "docs/metrics", "docs/x", "metrics", "nfterm", "index", "temp", "raw", "x/metrics", "x/index", "x/temp/y", "temp/x", "docs/metrics/x",
	"x", "x_temp", "x_old", "x%temp", "%temp", "x%old", "metrics_temp", "metrics_old", "metrics%temp", "index%temp", "index_temp", "nfterm_old", "docs%temp",
	"%", "%%", "%%%", "%2F", "%2f", "a%2Fb", "a%2fb", "a%5Cb", "a%252Fb", "%00", "\x00", "a\x00b", "a\x00", "a%00b", "%64ocs", "%2E%2E", "%2E", "%25",
	" ", "x ", " x", "x.", ".x", "x\n", "\n", "\t", "*", "?", "a:b", "CON", "~", "~root", "$HOME", "-rf", "--", "'", "\"", "`id`", ";", "|", "&",
	"\xff", "\xff\xfe", "é", "e\u0301", "日本語", "😀", "ß", "SS", "I", "ı", "X", "\u202e", "\u2028", "🏳️‍🌈", "NaN", "null", "0", "-1", "00", "1e3"}

func nastyName(r *rand.Rand, pool []string, max int, deep string) string {
	var s string
	pick := func() string {
		if len(pool) > 0 && r.Intn(2) == 0 {
			return pool[r.Intn(len(pool))]
		}
		return nastyNames[r.Intn(len(nastyNames))]
	}
	switch r.Intn(13) {
	case 12:
		s = twins[r.Intn(len(twins))][r.Intn(2)]
	case 0:
		s = pick() + pick()
	case 1:
		s = pick() + []string{"%temp", "_temp", "_old", "%old", "/", ".", " ", "\x00", "%", "/..", "/.", "%2F", "%00", "\\"}[r.Intn(14)]
	case 2:
		s = []string{"./", "/", "%", ".", " ", "docs/", "x/", "a/../", "\x00", "../store/"}[r.Intn(10)] + pick()
	case 3: // a percent encoding of another name
		p := pick()
		var b strings.Builder
		for i := 0; i < len(p) && i < 60; i++ {
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, []string{"%%%02X", "%%%02x", "%%25%02X"}[r.Intn(3)], p[i])
			} else {
				b.WriteByte(p[i])
			}
		}
		s = b.String()
	case 4:
		b := make([]byte, 1+r.Intn(12))
		r.Read(b)
		s = string(b)
	case 5:
		s = deep + "/abs" + []string{"", "/x", "/metrics"}[r.Intn(3)] // an absolute path, inside our own directory
	case 6: // long
		n := []int{79, 80, 81, 100, 180, 190, 199, 200, 201, 244, 249, 250, 251, 254, 255, 256, 300, 1000, 4095, 4096, 5000, 70000}[r.Intn(22)]
		u := []string{"x", "/", "é", "%", "a/", "\x00", "ab"}[r.Intn(7)]
		s = strings.Repeat(u, n/len(u)) + []string{"", "1", "2"}[r.Intn(3)]
	case 7: // long with a long common prefix
		s = strings.Repeat("p", 195+r.Intn(70)) + fmt.Sprint(r.Intn(3))
	default:
		s = pick()
	}
	if len(s) > max {
		s = s[len(s)-max:]
	}
	// Never climb out of the case's directory, whatever the store does with the name.
	for strings.Count(s, "..") > 6 {
		s = strings.Replace(s, "..", ".", 1)
	}
	if strings.HasPrefix(s, "/") && strings.Count(s, "..") > 0 && strings.HasPrefix(s, "/dev") {
		s = "abs" + s
	}
	return s
}

func namesCase(c *Case) {
	outer := c.Dir()
	defer Clean(outer)
	// canary files at every level around the store
	deep := outer
	for i := 0; i < nameDepth; i++ {
		deep = filepath.Join(deep, fmt.Sprintf("l%d", i))
		for _, f := range []string{"canary", "x", "metrics", "docs/metrics/x", "abs/x", "store_temp"} {
			os.MkdirAll(filepath.Join(deep, filepath.Dir(f)), 0o755)
			if err := os.WriteFile(filepath.Join(deep, f), []byte("canary"), 0o644); err != nil {
				harness("canary: %v", err)
			}
		}
	}
	os.WriteFile(filepath.Join(deep, "store%temp"), []byte("canary"), 0o644)
	root := filepath.Join(deep, "store")
	open := root
	switch c.R.Intn(4) {
	case 0:
		open = root + "/"
	case 1:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, root); err == nil {
				open = rel
			}
		}
	}
	outside := func() map[string]string {
		m := listTree(outer)
		rel, _ := filepath.Rel(outer, root)
		for p := range m {
			if p == rel || strings.HasPrefix(p, rel+"/") {
				delete(m, p)
			}
		}
		return m
	}
	before := outside()
	check := func(when string) {
		now := outside()
		for p, h := range before {
			if now[p] != h {
				c.Failf("%s: %q, outside the store, was changed or removed", when, p)
			}
		}
		for p := range now {
			if _, ok := before[p]; !ok {
				c.Failf("%s: %q, outside the store, was created", when, p)
			}
		}
		c.Add("outside_entries_checked", len(before))
	}

	var ids, fields, terms []string
	for i := 2 + c.R.Intn(14); i > 0; i-- {
		ids = append(ids, nastyName(c.R, ids, 1<<20, deep))
	}
	for i := 1 + c.R.Intn(6); i > 0; i-- {
		fields = append(fields, nastyName(c.R, append(ids, fields...), 80, deep))
	}
	for i := 2 + c.R.Intn(12); i > 0; i-- {
		terms = append(terms, nastyName(c.R, append(ids, fields...), 1<<20, deep))
	}
	for i := range ids {
		if c.R.Intn(3) == 0 {
			ids = append(ids, ids[i]+"%temp")
		}
	}
	ref := NewRef()
	uniq := map[string]string{} // term -> the only document that ever has it
	sessions := 1 + c.R.Intn(3)
	n := 0
	cmp := func(s storage.Storage, when string, exact bool) {
		cmpAll(c, when, s, ref, exact)
		for _, f := range fields {
			for _, t := range ref.Terms(f) {
				cmpSearch(c, when, s, ref, []model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}, cmpHits|cmpScores)
			}
		}
	}
	for k := 0; k <= sessions && !c.Failed(); k++ {
		end := c.Bubble(func() {
			s, err := storage.NewDiskStore(open, []int{0, 1, 3, 1000}[c.R.Intn(4)])
			if err != nil {
				c.Failf("opening the store fails: %v", err)
				return
			}
			if k > 0 {
				cmp(s, fmt.Sprintf("after reopening (session %d)", k+1), false)
				c.StopIfFailed()
			}
			if k == sessions {
				return
			}
			for i := 4 + c.R.Intn(24); i > 0 && !c.Failed(); i-- {
				id, f := ids[c.R.Intn(len(ids))], model.Field{Name: fields[c.R.Intn(len(fields))], TF: map[string]int{}}
				n++
				mine := fmt.Sprintf("only-%d", n)
				uniq[mine] = id
				f.TF[mine] = 1
				for j := c.R.Intn(5); j > 0; j-- {
					f.TF[terms[c.R.Intn(len(terms))]] += 1 + c.R.Intn(3)
				}
				for _, v := range f.TF {
					f.Length += v
				}
				c.Logf("session %d: save %q %q %v", k+1, clip(id), f.Name, len(f.TF))
				ref.Save(id, f)
				s.SaveOrUpdate(id, cloneField(f))
				c.Add("saves", 1)
				cmpDocs(c, fmt.Sprintf("session %d, after saving %q", k+1, clip(id)), s, ref, []string{id}, f.Name)
				if c.R.Intn(5) == 0 {
					time.Sleep(pauseChoices[c.R.Intn(len(pauseChoices))] * time.Second)
					cmpDocs(c, fmt.Sprintf("session %d, after a pause", k+1), s, ref, ids, f.Name)
				}
			}
			cmp(s, fmt.Sprintf("session %d", k+1), k == 0)
			time.Sleep(Settle)
			synctest.Wait()
		})
		if end == "deadlock" {
			c.Failf("the store is blocked")
		}
		check(fmt.Sprintf("after session %d", k+1))
		c.Add("restarts", 1)
	}
	dist := map[string]bool{}
	for _, x := range ids {
		dist[x] = true
	}
	c.Add("ids_used", len(dist))
	c.Finger(fmt.Sprintf("%q %q", sortedKeys(dist), fields))
	c.NonTrivial()
	short := make([]string, len(ids))
	for i := range ids {
		short[i] = clip(ids[i])
	}
	c.Sample(map[string]any{"ids": fmt.Sprintf("%q", short), "fields": fmt.Sprintf("%q", fields), "sessions": sessions})
}

func init() {
	props["C12"] = def{quick: 400, deep: 12000, procs: []int{4, 2}, run: namesCase}
}
