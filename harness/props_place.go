package vh

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/index"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/search"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C29: where the store lies, and how that is written ----

var folderNames = []string{"store", "data", "a b", " lead", "trail ", "日本", "é", "e\u0301", "%41", "%2F", "%%", "%", "store%temp", "%temp", "x_temp", "x_old", "docs", "temp", "index",
	"metrics", "nfterm", "raw", "-rf", "--", "*", "?", "[a-z]", "{a,b}", "$HOME", "~", "a\nb", "a\\b", "'", "\"", "..x", "...", ".hidden", "x.", "a:b", "C:", "\xff\xfe", "A", "a",
	"0", "-1", "null", "main.go", "title", "#", "file:", "http:", "&", ";", "`id`", "\t", "\x01", "\u202e", "😀"}

func folderNameIn(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return strings.Repeat([]string{"x", "ab", "é", "%"}[r.Intn(4)], 80)[:40+r.Intn(40)]
	case 1:
		return strings.Repeat("y", []int{200, 201, 250, 254, 255}[r.Intn(5)])
	case 2:
		return folderNames[r.Intn(len(folderNames))] + folderNames[r.Intn(len(folderNames))]
	case 3:
		return fmt.Sprint("d", r.Intn(4))
	}
	return folderNames[r.Intn(len(folderNames))]
}

func isDir(p string) bool {
	i, err := os.Stat(p)
	return err == nil && i.IsDir()
}

// A placed store lies at loc, below the case's folder; spelled is the last way its path was written.
type placed struct {
	loc   string
	ref   *Ref
	opens int
	files map[string]string // its content, while nobody works on it
}

// spelling writes the path of a folder in one of many ways, after changing into some folder where the way needs it. Ways
// that need the folder, or those above it, to exist are taken only then.
func spelling(r *rand.Rand, base, loc string, n *int) (string, string) {
	rel := func(wd string) string {
		p, err := filepath.Rel(wd, loc)
		if err != nil {
			harness("rel: %v", err)
		}
		return p
	}
	chdir := func(p string) string {
		if err := os.Chdir(p); err != nil {
			harness("chdir: %v", err)
		}
		return p
	}
	above := []string{base} // existing folders on the way
	for p := loc; len(p) > len(base); p = filepath.Dir(p) {
		if isDir(p) {
			above = append(above, p)
		}
	}
	link := func(to string) string {
		*n++
		p := filepath.Join(base, fmt.Sprint("link", *n))
		if r.Intn(2) == 0 {
			to, _ = filepath.Rel(base, to)
		}
		if err := os.Symlink(to, p); err != nil {
			harness("symlink: %v", err)
		}
		return p
	}
	pieces := func(sep func() string) string {
		parts := strings.Split(loc[len(base)+1:], "/")
		s := base
		for _, p := range parts {
			s += sep() + p
		}
		return s
	}
	switch r.Intn(16) {
	case 0:
		return loc + "/", "trailing slash"
	case 1:
		return loc + []string{"//", "/.", "/./", "///."}[r.Intn(4)], "trailing dots and slashes"
	case 2:
		return pieces(func() string { return strings.Repeat("/", 1+r.Intn(3)) }), "doubled slashes"
	case 3:
		return pieces(func() string { return []string{"/", "/./", "//./"}[r.Intn(3)] }), "dots"
	case 4:
		d := above[r.Intn(len(above))]
		up := filepath.Join(d, "real")
		if d == loc || os.MkdirAll(up, 0o755) != nil {
			up, d = filepath.Join(base, "real"), base
			os.MkdirAll(up, 0o755)
		}
		return up + "/.." + loc[len(d):], "up and down"
	case 5, 6:
		wd := chdir(above[r.Intn(len(above))])
		return []string{"", "./", ".//", "./././"}[r.Intn(4)] + rel(wd), "relative"
	case 7:
		side := filepath.Join(base, "side", "way")
		os.MkdirAll(side, 0o755)
		return rel(chdir(side)) + []string{"", "/"}[r.Intn(2)], "relative, upwards"
	case 8, 9:
		if isDir(loc) {
			chdir(loc)
			return []string{".", "./", "./."}[r.Intn(3)], "the working directory"
		}
		return rel(chdir(filepath.Dir(above[len(above)-1]))), "relative"
	case 10, 11:
		to := above[r.Intn(len(above))]
		return link(to) + loc[len(to):] + []string{"", "/"}[r.Intn(2)], "symbolic link"
	case 12:
		to := above[r.Intn(len(above))]
		return link(link(to)) + loc[len(to):], "links to links"
	case 13:
		to := above[r.Intn(len(above))]
		l := link(to)
		chdir(base)
		return filepath.Base(l) + loc[len(to):], "relative through a link"
	}
	return loc, "plain"
}

// clone copies a model.
func (r *Ref) clone() *Ref {
	o := NewRef()
	for id, m := range r.docs {
		for _, f := range m {
			o.Save(id, f)
		}
	}
	for f, m := range r.ever {
		for t, ids := range m {
			for id := range ids {
				if o.ever[f] == nil {
					o.ever[f] = map[string]map[string]bool{}
				}
				if o.ever[f][t] == nil {
					o.ever[f][t] = map[string]bool{}
				}
				o.ever[f][t][id] = true
			}
		}
	}
	for f, x := range r.resaved {
		o.resaved[f] = x
	}
	return o
}

func placeCase(c *Case) {
	r := c.R
	base := c.Dir()
	defer Clean(base)
	wd, err := os.Getwd()
	if err != nil {
		harness("wd: %v", err)
	}
	defer os.Chdir(wd)
	w := smallWorld(c)
	taken := map[string]bool{"docs": true}
	for _, f := range w.Fields {
		taken[folderName(f)] = true
	}
	place := func() string {
		for {
			p := base
			n := 1 + r.Intn(4)
			if r.Intn(10) == 0 {
				n = 5 + r.Intn(8)
			}
			for ; n > 0; n-- {
				p = filepath.Join(p, folderNameIn(r))
			}
			// Not one of our own folders, nothing that exists, and not above or below another store.
			first := strings.SplitN(p[len(base)+1:], "/", 2)[0]
			clear := true
			for q := filepath.Dir(p); len(q) > len(base); q = filepath.Dir(q) {
				if i, err := os.Lstat(q); err == nil && !i.IsDir() {
					clear = false
				}
			}
			if clear && len(p) < 2500 && first != "real" && first != "side" && !strings.HasPrefix(first, "link") {
				if _, err := os.Lstat(p); err != nil {
					return p
				}
			}
		}
	}
	var all []*placed
	apart := func(p string) bool {
		for _, q := range all {
			if p == q.loc || strings.HasPrefix(p, q.loc+"/") || strings.HasPrefix(q.loc, p+"/") {
				return false
			}
		}
		return true
	}
	fresh := func() string {
		p := place()
		for !apart(p) {
			p = place()
		}
		return p
	}
	strays := map[string]string{} // files that are nobody's, and their content
	stray := func(p string) {
		if _, err := os.Lstat(p); err == nil {
			return
		}
		b := []byte(fmt.Sprintf("stray %d %s", len(strays), strings.Repeat("z", r.Intn(300))))
		if os.WriteFile(p, b, 0o644) == nil { // too long a name is no stray
			strays[p] = string(b)
		}
	}
	around := func(loc string) {
		for _, s := range []string{"_temp", "%temp", "2", "_old", ".bak", "~", "%", " ", "temp"} {
			if r.Intn(3) == 0 {
				stray(loc + s)
			}
		}
		for _, s := range []string{"metrics", "nfterm", "index", "README", "x%temp"} {
			if r.Intn(3) == 0 {
				if p := filepath.Join(filepath.Dir(loc), s); apart(p) {
					stray(p)
				}
			}
		}
	}
	inside := func(loc string) {
		for _, s := range []string{"README.md", ".DS_Store", "metrics", "nfterm", "index", "temp", "raw", "x%temp", "metrics%temp", "notes.txt", "core", "%", "..."} {
			if r.Intn(4) == 0 && !taken[s] {
				stray(filepath.Join(loc, s))
			}
		}
	}
	onTheWay := map[string]bool{base: true}
	links := 0
	ways := map[string]bool{}
	n := 3 + r.Intn(5)
	saves := 0
	for sess := 0; sess < n && !c.Failed(); sess++ {
		os.Chdir(base)
		var p *placed
		what := ""
		if len(all) > 0 && r.Intn(6) > 0 {
			p = all[r.Intn(len(all))]
			switch r.Intn(5) {
			case 0: // the folder moves, and perhaps another store takes its place
				to := fresh()
				if os.MkdirAll(filepath.Dir(to), 0o755) != nil {
					break
				}
				for s := range strays {
					if strings.HasPrefix(s, p.loc+"/") {
						strays[to+s[len(p.loc):]] = strays[s]
						delete(strays, s)
					}
				}
				if err := os.Rename(p.loc, to); err != nil {
					harness("rename: %v", err)
				}
				from := p.loc
				p.loc = to
				what = "moved, "
				c.Add("moves", 1)
				if r.Intn(2) == 0 && apart(from) {
					p = &placed{loc: from, ref: NewRef()}
					all = append(all, p)
					what = "new in place of a moved one, "
				}
			case 1: // a copy of it is worked on
				to := fresh()
				copyTree(p.loc, to)
				q := &placed{loc: to, ref: p.ref.clone(), opens: p.opens}
				all = append(all, q)
				for s, b := range strays {
					if strings.HasPrefix(s, p.loc+"/") {
						strays[to+s[len(p.loc):]] = b
					}
				}
				p = q
				what = "a copy, "
				c.Add("copies", 1)
			}
		} else {
			p = &placed{loc: fresh(), ref: NewRef()}
			all = append(all, p)
			switch r.Intn(4) {
			case 0:
				os.MkdirAll(p.loc, 0o755)
				inside(p.loc)
				around(p.loc)
			case 1:
				os.MkdirAll(filepath.Dir(p.loc), 0o755)
				around(p.loc)
			}
		}
		if p.opens > 0 && r.Intn(3) == 0 {
			inside(p.loc)
			around(p.loc)
		}
		for _, o := range all {
			for q := filepath.Dir(o.loc); len(q) > len(base); q = filepath.Dir(q) {
				onTheWay[q] = true
			}
		}
		path, way := spelling(r, base, p.loc, &links)
		ways[way] = true
		c.Add("opened as "+way, 1)
		name := fmt.Sprintf("session %d (%s%q, %s, opened %d times before)", sess+1, what, clip(path), way, p.opens)
		c.Logf("%s at %q", name, p.loc)
		for _, q := range all {
			q.files = nil
			if q != p {
				q.files = listTree(q.loc)
			}
		}
		end := c.Bubble(func() {
			s, err := storage.NewDiskStore(path, []int{0, 1, 3, 1000}[r.Intn(4)])
			if err != nil {
				c.Failf("%s: opening fails: %v", name, err)
				return
			}
			cmpAll(c, name+", just opened", s, p.ref, p.opens == 0)
			if !c.Failed() && p.opens == 0 {
				for _, f := range w.Fields {
					if k := len(s.GetIndex(f)); k != 0 || s.GetFieldSize(f) != 0 || s.GetFieldLength(f) != 0 {
						c.Failf("%s: a new store already has %d terms and %d documents of field %q", name, k, s.GetFieldSize(f), f)
					}
				}
			}
			ix := index.NewIndex(s)
			for i := r.Intn(20); i >= 0 && !c.Failed(); i-- {
				id, f := w.Id(), w.Version(w.Field())
				p.ref.Save(id, f)
				ix.IndexDocument(id, model.NormalizedDocument{Fields: []model.Field{cloneField(f)}})
				saves++
				c.Add("saves", 1)
				if r.Intn(4) == 0 {
					time.Sleep(pauseChoices[r.Intn(len(pauseChoices))] * time.Second)
				}
				if r.Intn(6) == 0 {
					cmpDocs(c, name, s, p.ref, []string{id}, f.Name)
					qs := w.Query(3, 8)
					judgeSearch(c, name, qs, search.NewStandard(ix).Search(qs), p.ref.Search(qs), cmpHits|cmpScores)
				}
			}
			time.Sleep(Settle)
			synctest.Wait()
			cmpAll(c, name+", at rest", s, p.ref, p.opens == 0)
		})
		if end == "deadlock" {
			c.Failf("%s: everything is blocked", name)
		}
		os.Chdir(base)
		if c.Failed() {
			return
		}
		p.opens++
		cmpDisk(c, name+", afterwards at "+fmt.Sprintf("%q", clip(p.loc)), p.loc, p.ref)
		for _, q := range all {
			if q.files == nil {
				continue
			}
			now := listTree(q.loc)
			for f, h := range q.files {
				if now[f] != h {
					c.Failf("%s: %q of the store at %q, on which nobody worked, was changed or removed", name, f, q.loc)
				}
			}
			for f := range now {
				if _, ok := q.files[f]; !ok {
					c.Failf("%s: %q was created in the store at %q, on which nobody worked", name, f, q.loc)
				}
			}
			c.Add("idle_stores_compared", 1)
		}
		for f, want := range strays {
			if b, err := os.ReadFile(f); err != nil || string(b) != want {
				c.Failf("%s: the file %q, which is not the store's, was changed or removed (%v)", name, f, err)
			}
			c.Add("strays_compared", 1)
		}
		// Whatever else there is must be ours or on the way to a store.
		for f := range listTree(base) {
			f = filepath.Join(base, f)
			first := strings.SplitN(strings.TrimPrefix(f[len(base):], "/"), "/", 2)[0]
			ok := strays[f] != "" || onTheWay[f] || first == "real" || first == "side" || strings.HasPrefix(first, "link") || filepath.Base(f) == "real"
			for _, q := range all {
				ok = ok || f == q.loc || strings.HasPrefix(f, q.loc+"/")
			}
			if !ok {
				c.Failf("%s: %q was created, outside the store", name, f)
			}
		}
		c.Add("sessions", 1)
	}
	var locs []string
	for _, p := range all {
		locs = append(locs, clip(p.loc[len(base):]))
	}
	c.Add("stores", len(all))
	c.Finger(fmt.Sprintf("%q %d", locs, saves), sortedKeys(ways))
	c.NonTrivial()
	c.Sample(map[string]any{"stores": fmt.Sprintf("%q", locs), "ways": sortedKeys(ways), "strays": len(strays), "saves": saves})
}

func init() {
	props["C29"] = def{quick: 1000, deep: 12000, procs: []int{4, 2}, run: placeCase}
}
