package vh

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/file"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// A vPlan is a sequence of saves and pauses that both the victim process and the verifier derive from one seed.
type vOp struct {
	id    string
	f     model.Field
	pause time.Duration // a pause, not a save
}
type vPlan struct {
	ops   []vOp
	cache int
	pre   int // the first pre operations are done, and settled, in an earlier session
	tail  time.Duration
}

func (o vOp) save() bool { return o.pause == 0 }

// makePlan: size 0 tiny, 1 small, 2 medium, 3 large (well over a thousand saves between two flushes). Every version carries a term of its own, so that its content identifies it.
func makePlan(seed int64, size int, resaves bool) vPlan {
	r := rand.New(rand.NewSource(seed))
	docs := []int{2, 4, 10, 1500}[size]
	n := []int{3, 10, 40, 1100 + r.Intn(1400)}[size]
	pauses := []int{3, 3, 3, 300}[size]
	fields := []string{"title", "text", "a/b", "docs", "x"}[:]
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	fields = fields[:1+r.Intn(size+1)]
	p := vPlan{cache: []int{0, 1, 3, 100}[r.Intn(4)], tail: 36 * time.Second}
	had := map[string]bool{}
	k := 0
	for saves := 0; saves < n; {
		if r.Intn(pauses) == 0 {
			d := time.Duration(1+r.Intn(6000)) * time.Millisecond
			if r.Intn(4) == 0 {
				d = pauseChoices[r.Intn(len(pauseChoices))] * time.Second
			}
			p.ops = append(p.ops, vOp{pause: d})
			continue
		}
		id := fmt.Sprintf("d%d", r.Intn(docs))
		fn := fields[r.Intn(len(fields))]
		if !resaves && had[id+"\x00"+fn] {
			id = fmt.Sprintf("n%d", saves)
		}
		had[id+"\x00"+fn] = true
		f := model.Field{Name: fn, TF: map[string]int{fmt.Sprintf("v%d", k): 1}}
		k++
		for i := r.Intn(5); i > 0; i-- {
			f.TF[fmt.Sprintf("t%d", r.Intn(6))] += 1 + r.Intn(2)
		}
		for _, v := range f.TF {
			f.Length += v
		}
		p.ops = append(p.ops, vOp{id: id, f: f})
		saves++
	}
	if r.Intn(2) == 0 {
		p.pre = r.Intn(len(p.ops))
	}
	return p
}

// runOps performs operations in the current bubble, reporting each to log.
func runOps(s storage.Storage, ops []vOp, from int, log func(format string, a ...any)) {
	for i, o := range ops {
		if !o.save() {
			time.Sleep(o.pause)
			continue
		}
		log("S %d", from+i)
		s.SaveOrUpdate(o.id, cloneField(o.f))
		log("A %d", from+i)
	}
}

// TestVictim's body: the process that gets killed or whose file operations fail.
func RunVictim(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("V_VSEED"), 10, 64)
	p := makePlan(seed, envInt("V_SIZE", 0), os.Getenv("V_RESAVES") == "1")
	lf, err := os.OpenFile(os.Getenv("V_VLOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		harness("victim log: %v", err)
	}
	if nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = nul
	}
	synctest.Test(t, func(*testing.T) {
		start := time.Now()
		log := func(format string, a ...any) {
			fmt.Fprintf(lf, format+" %d\n", append(a, int64(time.Since(start)))...)
		}
		log("B")
		s, err := storage.NewDiskStore(os.Getenv("V_ROOT"), p.cache)
		if err != nil {
			fmt.Fprintf(os.Stderr, "VICTIM-OPEN-FAILED %v\n", err)
			os.Exit(3)
		}
		log("O")
		go func() {
			for {
				time.Sleep(500 * time.Millisecond)
				log("T")
			}
		}()
		runOps(s, p.ops[p.pre:], p.pre, log)
		time.Sleep(p.tail)
		log("E")
		os.Exit(0)
	})
}

// secureVictim replaces one file again and again; the content of round i is secureContent(i).
func secureContent(seed int64, i int) []byte {
	r := rand.New(rand.NewSource(seed*1000 + int64(i)))
	n := []int{0, 1, 100, 5000, 70000, 300000}[r.Intn(6)]
	if seed%5 == 2 && r.Intn(4) == 0 {
		n = 2<<20 + r.Intn(8<<20)
	}
	b := make([]byte, n)
	r.Read(b)
	return append([]byte(fmt.Sprintf("round %d %d\n", i, n)), b...)
}

func RunSecureVictim(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("V_VSEED"), 10, 64)
	lf, err := os.OpenFile(os.Getenv("V_VLOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		harness("victim log: %v", err)
	}
	for i := 1; i <= envInt("V_ROUNDS", 4); i++ {
		b := secureContent(seed, i)
		fmt.Fprintf(lf, "S %d 0\n", i)
		err := file.SecureSaveFile(os.Getenv("V_ROOT"), os.Getenv("V_NAME"), b)
		if err != nil {
			fmt.Fprintf(lf, "F %d 0\n", i)
		} else {
			fmt.Fprintf(lf, "A %d 0\n", i)
		}
		// What the process itself finds now (lower case: read only by the C20 oracle).
		op := "a"
		if err != nil {
			op = "f"
		}
		fmt.Fprintf(lf, "%s %d %d\n", op, i, secureState(os.Getenv("V_ROOT"), os.Getenv("V_NAME"), seed, envInt("V_ROUNDS", 4)))
	}
	os.Exit(0)
}

type traced struct {
	exit   int
	events int
	hit    bool
	off    int64
	ops    []string // "name path" per event
	stderr string
	hung   bool
}

// runTraced runs this binary again, as a victim, under the file-operation supervisor.
func (c *Case) runTraced(root, vlog string, args []string, test string, env ...string) traced {
	lg := vlog + ".trace"
	self := os.Getenv("V_SELF")
	for _, e := range env {
		if k, ok := strings.CutPrefix(e, "V_SELF="); ok {
			self = k
		}
	}
	a := append([]string{"-r", root, "-l", lg, "-v", vlog}, args...)
	a = append(a, "--", self, "-test.run", "^"+test+"$", "-test.timeout", "0")
	cmd := exec.Command(os.Getenv("V_TRACER"), a...)
	cmd.Env = append([]string{"V_ROOT=" + root, "V_VLOG=" + vlog, "GOMAXPROCS=2", "HOME=/nonexistent", "GOTRACEBACK=all", "GORACE=" + os.Getenv("GORACE")}, env...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		harness("tracer: %v", err)
	}
	t := traced{}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		t.hung = true
	}
	t.exit = cmd.ProcessState.ExitCode()
	t.stderr = eb.String()
	b, _ := os.ReadFile(lg)
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "HIT off="):
			t.hit = true
			t.off, _ = strconv.ParseInt(l[8:], 10, 64)
		case strings.HasPrefix(l, "END events="):
			fmt.Sscanf(l, "END events=%d", &t.events)
		default:
			w := strings.Split(l, " ")
			if len(w) >= 3 {
				t.ops = append(t.ops, w[1]+" "+w[2])
			}
		}
	}
	if t.exit == 99 && !t.hung {
		harness("tracer failed: %s", t.stderr)
	}
	return t
}

// vLog is what a victim reported about itself.
type vLog struct {
	started map[int]bool
	acked   map[int]time.Duration
	failed  map[int]bool
	last    time.Duration
	ended   bool
	opened  bool
}

func readVLog(path string, limit int64) vLog {
	l := vLog{started: map[int]bool{}, acked: map[int]time.Duration{}, failed: map[int]bool{}}
	b, _ := os.ReadFile(path)
	if limit >= 0 && int64(len(b)) > limit {
		b = b[:limit]
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) < 2 {
			continue
		}
		ns, err := strconv.ParseInt(w[len(w)-1], 10, 64)
		if err != nil {
			continue
		}
		d := time.Duration(ns)
		switch w[0] {
		case "S", "A", "F":
			if len(w) != 3 {
				continue
			}
			i, _ := strconv.Atoi(w[1])
			if w[0] == "S" {
				l.started[i] = true
			} else if w[0] == "A" {
				l.acked[i] = d
			} else {
				l.failed[i] = true
			}
		case "E":
			l.ended = true
		case "O":
			l.opened = true
		}
		if d > l.last {
			l.last = d
		}
	}
	return l
}

// window says which part of a plan must and which may be visible: the first must saves are durable, the first may saves
// were started.
type window struct{ must, may int }

func (p vPlan) window(l vLog) window { return p.windowAfter(l, Settle) }

func (p vPlan) windowAfter(l vLog, settle time.Duration) window {
	w := window{p.pre, p.pre}
	for i := p.pre; i < len(p.ops); i++ {
		if !p.ops[i].save() {
			if w.must == i {
				w.must++
			}
			if w.may == i {
				w.may++
			}
			continue
		}
		if at, ok := l.acked[i]; ok && w.must == i && at <= l.last-settle {
			w.must++
		}
		if l.started[i] {
			w.may = i + 1
		}
	}
	return w
}

func fieldKey(o vOp) string { return o.id + "\x00" + o.f.Name }

// judgeWindow compares an opened store with every state the plan's window allows.
func judgeWindow(c *Case, when string, s storage.Storage, p vPlan, w window) {
	type key struct{ id, field string }
	vers := map[key][]int{}
	base := map[key]int{}
	fields, ids := map[string]bool{}, map[string]bool{}
	allTerms := map[string]map[string]bool{}
	for i, o := range p.ops {
		if !o.save() {
			continue
		}
		fields[o.f.Name], ids[o.id] = true, true
		if allTerms[o.f.Name] == nil {
			allTerms[o.f.Name] = map[string]bool{}
		}
		for t := range o.f.TF {
			allTerms[o.f.Name][t] = true
		}
		k := key{o.id, o.f.Name}
		if i < w.must {
			base[k] = i + 1
			vers[k] = []int{i}
		} else if i < w.may {
			vers[k] = append(vers[k], i)
		}
	}
	had := map[string]bool{} // field, document and term of every save that may be visible
	for _, o := range p.ops[:w.may] {
		for t := range o.f.TF {
			had[fieldKey(o)+"\x00"+t] = true
		}
	}
	idl := sortedKeys(ids)
	_, sr := c.Engine(s)
	// The allowed values of each statistic.
	ref := NewRef()
	type sizes struct{ size, length int }
	states := map[string]map[sizes]bool{}
	counts := map[string]map[int]bool{}
	note := func(f string, terms map[string]bool) {
		if states[f] == nil {
			states[f] = map[sizes]bool{}
		}
		states[f][sizes{ref.Size(f), ref.Length(f)}] = true
		for t := range terms {
			k := f + "\x00" + t
			if counts[k] == nil {
				counts[k] = map[int]bool{}
			}
			counts[k][len(ref.Postings(f, t))] = true
		}
	}
	for i := 0; i <= w.may; i++ {
		if i == w.must {
			for f := range fields {
				note(f, allTerms[f])
			}
		}
		if i == w.may || !p.ops[i].save() {
			continue
		}
		o := p.ops[i]
		touched := map[string]bool{}
		if old, ok := ref.docs[o.id][o.f.Name]; ok {
			for t := range old.TF {
				touched[t] = true
			}
		}
		for t := range o.f.TF {
			touched[t] = true
		}
		ref.Save(o.id, o.f)
		if i >= w.must {
			note(o.f.Name, touched)
		}
	}
	for f := range fields {
		// Documents.
		got := s.GetFields(idl, f)
		cur := map[string]model.Field{}
		for _, id := range idl {
			k := key{id, f}
			g, ok := got[id]
			c.Add("versions_compared", 1)
			if !ok {
				if base[k] > 0 {
					c.Failf("%s: field %q of document %q, durable since operation %d, is missing", when, f, id, base[k]-1)
				}
				continue
			}
			cur[id] = g
			which := -1
			for _, v := range vers[k] {
				if fieldEq(p.ops[v].f, g) {
					which = v
				}
			}
			if which < 0 {
				c.Failf("%s: field %q of document %q reads %v; allowed are the versions of operations %v", when, f, id, g, vers[k])
				continue
			}
			if base[k] > 0 {
				c.Add("durable_versions_found", 1)
			}
			must := base[k] > 0 && which == base[k]-1
			for t := range g.TF {
				mustT := must
				if base[k] > 0 && !must {
					mustT = true
					for _, v := range vers[k] {
						if _, ok := p.ops[v].f.TF[t]; !ok {
							mustT = false
						}
					}
				}
				if !mustT {
					continue
				}
				set, _ := s.GetDocuments(f, t)
				if !set.Contains(id) {
					c.Failf("%s: document %q is not listed under its durable term %q of field %q", when, id, t, f)
				}
				c.Add("postings_compared", 1)
			}
		}
		// Postings: nothing invented, and searches agree with them and the documents.
		listed := map[string]bool{}
		for t, set := range s.GetIndex(f) {
			if !allTerms[f][t] {
				c.Failf("%s: the index of field %q has the term %q, which was never saved", when, f, t)
			}
			for id := range set.GetData() {
				listed[t+"\x00"+id] = true
				if !had[id+"\x00"+f+"\x00"+t] {
					c.Failf("%s: document %q is listed under term %q of field %q, which it never had", when, id, t, f)
				}
			}
		}
		for t := range allTerms[f] {
			hits := map[string]bool{}
			for _, h := range sr.Search([]model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}) {
				hits[h.Id] = true
				if !(h.Score > 0) || math.IsInf(h.Score, 0) {
					c.Failf("%s: searching %q in %q gives document %q the score %v", when, t, f, h.Id, h.Score)
				}
				if _, ok := cur[h.Id].TF[t]; !ok {
					c.Failf("%s: searching %q in %q finds document %q, whose field reads %v", when, t, f, h.Id, cur[h.Id])
				}
			}
			for id, g := range cur {
				if _, has := g.TF[t]; has && listed[t+"\x00"+id] && !hits[id] {
					c.Failf("%s: searching %q in %q misses document %q, which has and is listed under the term", when, t, f, id)
				}
			}
			c.Add("searches_compared", 1)
		}
		// Statistics: each one the store really had in the window.
		gs, gl := s.GetFieldSize(f), s.GetFieldLength(f)
		if !states[f][sizes{gs, gl}] {
			c.Failf("%s: field %q has %d documents of total length %d, which it never had since operation %d", when, f, gs, gl, w.must)
		}
		for t, n := range s.GetNumberFieldTerm(f, sortedKeys(allTerms[f])) {
			if allowed := counts[f+"\x00"+t]; !allowed[n] {
				c.Failf("%s: term %q of field %q is in %d documents, which was never so since operation %d (allowed: %v)", when, t, f, n, w.must, allowed)
			}
			c.Add("statistics_compared", 1)
		}
	}
}

// judgeRecovery opens what a dead process left, compares it, gives it the lost documents again and looks once more.
func judgeRecovery(c *Case, when, root string, p vPlan, w window) {
	ref := NewRef()
	open := func(f func(s storage.Storage)) {
		end := c.Bubble(func() {
			s, err := storage.NewDiskStore(root, p.cache)
			if err != nil {
				c.Failf("%s: opening the store fails: %v", when, err)
				return
			}
			f(s)
		})
		if end == "deadlock" {
			c.Failf("%s: the reopened store is blocked", when)
		}
	}
	open(func(s storage.Storage) {
		judgeWindow(c, when, s, p, w)
		if c.Failed() {
			return
		}
		// The latest planned version of everything.
		last := map[string]int{}
		for i, o := range p.ops {
			if o.save() {
				last[fieldKey(o)] = i
			}
		}
		var order []int
		for _, i := range last {
			order = append(order, i)
		}
		sort.Ints(order)
		for _, i := range order {
			o := p.ops[i]
			ref.Save(o.id, o.f)
			s.SaveOrUpdate(o.id, cloneField(o.f))
			cmpDocs(c, when+", after saving again", s, ref, []string{o.id}, o.f.Name)
			// The totals may be older than the documents, but they count at least the document just saved.
			n, l := s.GetFieldSize(o.f.Name), s.GetFieldLength(o.f.Name)
			if n < 1 || l < o.f.Length {
				c.Failf("%s, after saving document %q with a field %q of length %d again: the field counts %d documents of total length %d", when, o.id, o.f.Name, o.f.Length, n, l)
			}
			for t, k := range s.GetNumberFieldTerm(o.f.Name, sortedKeys(o.f.TF)) {
				if k < 1 {
					c.Failf("%s, after saving document %q again: its term %q of field %q counts %d documents", when, o.id, t, o.f.Name, k)
				}
			}
			c.Add("totals_after_saving_again", 1)
		}
		time.Sleep(Settle)
		synctest.Wait()
	})
	if c.Failed() {
		return
	}
	open(func(s storage.Storage) {
		when := when + ", after saving everything again and reopening"
		for _, f := range ref.Fields() {
			cmpDocs(c, when, s, ref, ref.Ids(), f)
			for t, ids := range ref.ever[f] {
				_ = ids
				qs := []model.Query{{FieldName: f, Terms: []string{t}, Boost: 1}}
				_, sr := c.Engine(s)
				got := sr.Search(qs)
				judgeSearch(c, when, qs, got, ref.Search(qs), cmpHits)
				for _, h := range got {
					if math.IsNaN(h.Score) || math.IsInf(h.Score, 0) {
						c.Failf("%s: document %q has the score %v", when, h.Id, h.Score)
					}
				}
			}
		}
	})
}

// prepare makes the store directory of a plan as its earlier session left it.
func prepare(c *Case, p vPlan) string {
	base := c.Dir()
	if p.pre > 0 {
		end := c.Bubble(func() {
			s, err := storage.NewDiskStore(base, p.cache)
			if err != nil {
				c.Failf("opening a new store: %v", err)
				return
			}
			runOps(s, p.ops[:p.pre], 0, func(string, ...any) {})
			time.Sleep(Settle)
			synctest.Wait()
		})
		if end == "deadlock" {
			c.Failf("the store is blocked")
		}
	}
	return base
}

// opClass names a file operation without the parts that differ from run to run.
func opClass(s string) string {
	w := strings.SplitN(s, " ", 2)
	if len(w) < 2 {
		return s
	}
	b := filepath.Base(w[1])
	switch {
	case strings.Contains(w[1], "/docs/metrics/") && !strings.HasSuffix(w[1], "/docs/metrics"):
		b = "document"
		if strings.Contains(filepath.Base(w[1]), "temp") {
			b = "document(temp)"
		}
	case len(b) > 20:
		b = "fragment"
	}
	return w[0] + ":" + b
}

func choose(r *rand.Rand, n, k int) []int {
	if k > n {
		k = n
	}
	x := r.Perm(n)[:k]
	sort.Ints(x)
	for i := range x {
		x[i]++
	}
	return x
}

// chooseOps picks n of the operations; of a large plan, half of those that are not about a document's own file.
func chooseOps(r *rand.Rand, ops []string, n, size int) []int {
	if size < 3 {
		return choose(r, len(ops), n)
	}
	pick := map[int]bool{}
	var rare []int
	for i, o := range ops {
		if !strings.Contains(opClass(o), "document") {
			rare = append(rare, i+1)
		}
	}
	r.Shuffle(len(rare), func(i, j int) { rare[i], rare[j] = rare[j], rare[i] })
	for _, k := range rare[:min(len(rare), n/2)] {
		pick[k] = true
	}
	for _, k := range choose(r, len(ops), n-len(pick)) {
		pick[k] = true
	}
	var ks []int
	for k := range pick {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func victimEnv(seed int64, size int, resaves bool) []string {
	rs := "0"
	if resaves {
		rs = "1"
	}
	return []string{fmt.Sprint("V_VSEED=", seed), fmt.Sprint("V_SIZE=", size), "V_RESAVES=" + rs}
}

func faultSetup(c *Case) (p vPlan, size int, base string, env []string) {
	seed := c.R.Int63()
	size = []int{0, 1, 1, 2}[c.Idx%4]
	if c.Idx%24 == 13 {
		size = 3
	}
	resaves := c.R.Intn(3) > 0
	p = makePlan(seed, size, resaves)
	env = victimEnv(seed, size, resaves)
	for i, o := range p.ops {
		if size == 3 && i > 100 {
			c.Logf("... %d operations", len(p.ops))
			break
		}
		if o.save() {
			c.Logf("op %d: save %q %v", i, o.id, o.f)
		} else {
			c.Logf("op %d: pause %v", i, o.pause)
		}
	}
	c.Logf("cache %d, first %d operations in an earlier session", p.cache, p.pre)
	base = prepare(c, p)
	return
}

// oneRun runs a victim on a copy of base and hands the directory it leaves to f.
func (c *Case) oneRun(base string, args, env []string, f func(root, vlog string, t traced)) {
	d := c.Dir()
	defer Clean(d)
	root := filepath.Join(d, "root")
	copyTree(base, root)
	vlog := filepath.Join(d, "vlog")
	t := c.runTraced(root, vlog, args, "TestVictim", env...)
	f(root, vlog, t)
}

func died(t traced) string {
	s := t.stderr
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func crashCase(c *Case) {
	p, size, base, env := faultSetup(c)
	defer Clean(base)
	if c.Failed() {
		return
	}
	events := 0
	var ops []string
	c.oneRun(base, []string{"-m", "count"}, env, func(root, vlog string, t traced) {
		if t.exit != 0 {
			c.Failf("the store process died although nothing was done to it (%d): %s", t.exit, died(t))
			return
		}
		events, ops = t.events, t.ops
		l := readVLog(vlog, -1)
		judgeRecovery(c, "after the process was stopped at its end", root, p, p.window(l))
	})
	if c.Failed() || events == 0 {
		return
	}
	n := []int{400, 24, 12, 6}[size]
	if c.Thorough {
		n = []int{400, 200, 120, 40}[size]
	}
	ks := chooseOps(c.R, ops, n, size)
	for _, k := range ks {
		mode := []string{"kill", "torn"}[c.R.Intn(2)]
		if size == 0 {
			mode = []string{"kill", "torn"}[k%2]
		}
		c.oneRun(base, []string{"-m", mode, "-k", fmt.Sprint(k)}, env, func(root, vlog string, t traced) {
			l := readVLog(vlog, -1)
			if t.hung {
				c.Add("hung", 1)
				return
			}
			if t.exit == 65 {
				c.Failf("the store process died by itself before file operation %d: %s", k, died(t))
				return
			}
			what := "end"
			if t.hit && len(t.ops) > 0 {
				what = opClass(t.ops[len(t.ops)-1])
				c.Add(mode, 1)
				c.Add("at_"+what, 1)
			}
			w := p.window(l)
			when := fmt.Sprintf("after %s at file operation %d (%s), %v into the session, operations before %d durable and before %d started", mode, k, what, l.last, w.must, w.may)
			c.Logf("%s", when)
			judgeRecovery(c, when, root, p, w)
			c.Finger(mode, what, w.must, w.may)
		})
		c.StopIfFailed()
	}
	c.Add("crash_points", len(ks))
	c.Add("file_operations_in_baseline", events)
	c.NonTrivial()
	c.Sample(map[string]any{"operations": len(p.ops), "earlier_session": p.pre, "file_operations": events, "crash_points": len(ks), "cache": p.cache})
}

var errnos = map[string]int{"ENOSPC": 28, "EIO": 5, "EACCES": 13, "EMFILE": 24, "EROFS": 30}

func faultCase(c *Case) {
	p, size, base, env := faultSetup(c)
	defer Clean(base)
	if c.Failed() {
		return
	}
	reads := c.R.Intn(2) == 0
	extra := []string{}
	if reads {
		extra = []string{"-R"}
	}
	events := 0
	var ops []string
	c.oneRun(base, append([]string{"-m", "count"}, extra...), env, func(root, vlog string, t traced) {
		if t.exit != 0 {
			c.Failf("the store process died although nothing was done to it (%d): %s", t.exit, died(t))
		}
		events, ops = t.events, t.ops
	})
	if c.Failed() || events == 0 {
		return
	}
	n := []int{120, 24, 12, 6}[size]
	if c.Thorough {
		n = []int{500, 240, 120, 40}[size]
	}
	names := sortedKeys(errnos)
	ks := chooseOps(c.R, ops, n, size)
	for _, k := range ks {
		e := names[c.R.Intn(len(names))]
		mode := "err"
		args := []string{"-m", "err", "-e", fmt.Sprint(errnos[e]), "-k", fmt.Sprint(k)}
		if c.R.Intn(4) == 0 {
			mode, e = "full", "ENOSPC"
			args = []string{"-m", "full", "-k", fmt.Sprint(k)}
		}
		c.oneRun(base, append(args, extra...), env, func(root, vlog string, t traced) {
			if t.hung {
				c.Add("hung", 1)
				return
			}
			all := readVLog(vlog, -1)
			w := p.window(all)
			how := "the process went on to its end"
			if t.exit != 0 {
				how = "the process stopped"
				c.Add("stopped", 1)
				if !t.hit {
					c.Failf("the store process died by itself before file operation %d: %s", k, died(t))
					return
				}
				w.must = p.window(readVLog(vlog, t.off)).must
			} else {
				c.Add("survived", 1)
				w = p.windowAfter(all, Settle+15*time.Second) // time for one more try
				if mode == "full" {                           // what cannot be written cannot become durable
					w.must = p.window(readVLog(vlog, t.off)).must
				}
			}
			what := "none"
			if t.hit && k <= len(t.ops) {
				what = opClass(t.ops[k-1])
				c.Add(mode+"_"+e, 1)
				c.Add("at_"+what, 1)
			}
			when := fmt.Sprintf("after %s (%s) of file operation %d (%s), %s, operations before %d durable and before %d started", e, mode, k, what, how, w.must, w.may)
			c.Logf("%s", when)
			judgeRecovery(c, when, root, p, w)
			c.Finger(mode, e, what, w.must, w.may)
		})
		c.StopIfFailed()
	}
	c.Add("faults", len(ks))
	c.NonTrivial()
	c.Sample(map[string]any{"operations": len(p.ops), "earlier_session": p.pre, "file_operations": events, "faults": len(ks), "reads_fail_too": reads})
}

// snapshotCase copies the directory of a running store at chosen instants and judges every copy.
func snapshotCase(c *Case) {
	size := []int{1, 2, 2, 0}[c.Idx%4]
	if c.Idx%40 == 22 {
		size = 3
	}
	p := makePlan(c.R.Int63(), size, c.R.Intn(2) == 0)
	p.pre = 0
	// Stretch some sessions over instants at which several tickers fire together.
	if c.R.Intn(2) == 0 {
		p.ops = append([]vOp{{pause: time.Duration(60+c.R.Intn(135)) * time.Second}}, p.ops...)
	}
	if c.R.Intn(2) == 0 {
		i := c.R.Intn(len(p.ops) + 1)
		p.ops = append(p.ops[:i:i], append([]vOp{{pause: time.Duration(30+c.R.Intn(200)) * time.Second}}, p.ops[i:]...)...)
	}
	if c.Idx%16 == 5 { // long idle, then work
		i := c.R.Intn(len(p.ops)/2 + 1)
		p.ops = append(p.ops[:i:i], append([]vOp{{pause: time.Duration(1+c.R.Intn(300)) * time.Minute}}, p.ops[i:]...)...)
		c.Add("long_idle", 1)
	}
	root := c.Dir()
	defer Clean(root)
	type snapT struct {
		dir string
		at  time.Duration
		w   window
	}
	var snaps []snapT
	l := vLog{started: map[int]bool{}, acked: map[int]time.Duration{}}
	end := c.Bubble(func() {
		start := time.Now()
		s, err := storage.NewDiskStore(root, p.cache)
		if err != nil {
			c.Failf("opening a new store: %v", err)
			return
		}
		snap := func() {
			synctest.Wait()
			d := c.Dir()
			copyTree(root, d)
			l.last = time.Since(start)
			snaps = append(snaps, snapT{d, l.last, p.window(l)})
			c.Add("snapshots", 1)
		}
		wait := func(d time.Duration) {
			// Pauses are interrupted by snapshots, some right on a tick.
			until := time.Since(start) + d
			for len(snaps) < 14 && time.Since(start) < until && c.R.Intn(4) > 0 {
				next := time.Duration(1 + c.R.Int63n(int64(until-time.Since(start))))
				if c.R.Intn(2) == 0 {
					t := (time.Since(start) + next).Truncate(time.Second)
					next = t - time.Since(start)
				}
				if next <= 0 || time.Since(start)+next > until {
					break
				}
				time.Sleep(next)
				snap()
			}
			time.Sleep(until - time.Since(start))
		}
		for i, o := range p.ops {
			if !o.save() {
				c.Logf("op %d at %v: pause %v", i, time.Since(start), o.pause)
				wait(o.pause)
				continue
			}
			if i < 200 {
				c.Logf("op %d at %v: save %q %v", i, time.Since(start), o.id, o.f)
			}
			l.started[i] = true
			s.SaveOrUpdate(o.id, cloneField(o.f))
			l.acked[i] = time.Since(start)
			if len(snaps) < 14 && c.R.Intn([]int{6, 6, 6, 200}[size]) == 0 {
				snap()
			}
		}
		saved := time.Since(start)
		wait(19 * time.Second)
		// Just after everything has become durable, and when nothing may be left to merge.
		time.Sleep(saved + Settle - time.Since(start) + time.Duration(c.R.Intn(3000))*time.Millisecond)
		snap()
		time.Sleep(saved + 40*time.Second - time.Since(start))
		snap()
		c.Add("virtual_seconds", int(time.Since(start)/time.Second))
	})
	if end == "deadlock" {
		c.Failf("the store is blocked")
	}
	prev := map[string]bool{}
	prevAt, prevMay := time.Duration(0), 0
	for i, sn := range snaps {
		if c.Failed() {
			break
		}
		before := countFiles(sn.dir)
		when := fmt.Sprintf("opening a copy of the directory taken %v into the session (operations before %d durable, before %d started)", sn.at, sn.w.must, sn.w.may)
		c.Logf("%s", when)
		c.Bubble(func() {
			s, err := storage.NewDiskStore(sn.dir, 10)
			if err != nil {
				c.Failf("%s fails: %v", when, err)
				return
			}
			judgeWindow(c, when, s, p, sn.w)
			cur := map[string]bool{}
			names := map[string]bool{}
			for _, o := range p.ops {
				if o.save() {
					names[o.f.Name] = true
				}
			}
			for f := range names {
				for t, set := range s.GetIndex(f) {
					for id := range set.GetData() {
						cur[f+"\x00"+t+"\x00"+id] = true
					}
				}
			}
			for k := range prev {
				if cur[k] {
					continue
				}
				w := strings.Split(k, "\x00")
				// A replacement may legitimately take the posting away.
				lost := false
				for j := 0; j < sn.w.may; j++ {
					o := p.ops[j]
					if o.save() && o.id == w[2] && o.f.Name == w[0] {
						if _, ok := o.f.TF[w[1]]; !ok {
							lost = true
						}
					}
				}
				if !lost {
					c.Failf("%s: document %q is no longer listed under term %q of field %q, as it was in the copy taken at %v", when, w[2], w[1], w[0], prevAt)
				}
			}
			c.Add("postings_tracked", len(prev))
			prev, prevAt, prevMay = cur, sn.at, sn.w.may
		})
		if i == len(snaps)-1 {
			if after := countFiles(sn.dir); before > after {
				c.Failf("after 40 idle seconds the directory has %d files; opening it leaves %d: there were still %d unmerged fragments", before, after, before-after)
			}
		}
		c.Finger(sn.at, sn.w.must, sn.w.may, len(prev))
	}
	_ = prevMay
	for _, sn := range snaps {
		Clean(sn.dir)
	}
	if len(snaps) > 1 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"operations": len(p.ops), "snapshots": len(snaps), "cache": p.cache})
}

func init() {
	props["C07"] = def{quick: 96, deep: 240, run: crashCase}
	props["C08"] = def{quick: 320, deep: 3000, procs: []int{2, 4, 1}, run: snapshotCase}
	props["C21"] = def{quick: 96, deep: 240, run: faultCase}
}
