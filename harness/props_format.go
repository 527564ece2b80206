package vh

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing/synctest"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/storage"
)

// ---- C27: the stored formats stay what they are ----
//
// An encoder and a decoder of the published formats (schema/*.fbs, gzip, the layout of the folders) that share no code with
// the library, and a few stores that the library wrote before this work began.

// ---- FlatBuffers by hand ----

type fbw struct {
	b []byte
	r *rand.Rand
}

type fbSlot struct {
	kind byte // 0 absent, 'i' a number, 'o' something written elsewhere
	i    int32
	o    func() int
}

func (w *fbw) align() {
	for len(w.b)%4 != 0 {
		w.b = append(w.b, 0)
	}
}
func (w *fbw) put(at int, v uint32) { binary.LittleEndian.PutUint32(w.b[at:], v) }
func (w *fbw) u32(v uint32) int {
	w.b = binary.LittleEndian.AppendUint32(w.b, v)
	return len(w.b) - 4
}

func (w *fbw) str(s string) int {
	w.align()
	p := w.u32(uint32(len(s)))
	w.b = append(append(w.b, s...), 0)
	return p
}

func (w *fbw) vec(items []func() int) int {
	w.align()
	p := w.u32(uint32(len(items)))
	at := len(w.b)
	for range items {
		w.u32(0)
	}
	for i, f := range items {
		w.put(at+4*i, uint32(f()-(at+4*i)))
	}
	return p
}

// num is a number; zero, the default, may be left out.
func (w *fbw) num(v int) fbSlot {
	if v == 0 && w.r.Intn(2) == 0 {
		return fbSlot{}
	}
	return fbSlot{kind: 'i', i: int32(v)}
}
func (w *fbw) sub(f func() int) fbSlot { return fbSlot{kind: 'o', o: f} }
func (w *fbw) text(s string) fbSlot    { return w.sub(func() int { return w.str(s) }) }

func (w *fbw) table(slots ...fbSlot) int {
	n := len(slots)
	for n > 0 && slots[n-1].kind == 0 && w.r.Intn(2) == 0 { // a shorter vtable means the same
		n--
	}
	order := w.r.Perm(n)
	offs := make([]int, n)
	at := 4
	for _, i := range order {
		if slots[i].kind != 0 {
			offs[i] = at
			at += 4
		}
	}
	w.align()
	vt := len(w.b)
	w.b = binary.LittleEndian.AppendUint16(w.b, uint16(4+2*n))
	w.b = binary.LittleEndian.AppendUint16(w.b, uint16(at))
	for i := 0; i < n; i++ {
		w.b = binary.LittleEndian.AppendUint16(w.b, uint16(offs[i]))
	}
	w.align()
	p := w.u32(0)
	w.put(p, uint32(p-vt))
	for k := 4; k < at; k += 4 {
		w.u32(0)
	}
	for i := 0; i < n; i++ {
		switch slots[i].kind {
		case 'i':
			w.put(p+offs[i], uint32(slots[i].i))
		case 'o':
			w.put(p+offs[i], uint32(slots[i].o()-(p+offs[i])))
		}
	}
	return p
}

func fbFile(r *rand.Rand, root func(w *fbw) int) []byte {
	w := &fbw{r: r}
	w.u32(0)
	w.put(0, uint32(root(w)))
	var b bytes.Buffer
	z, _ := gzip.NewWriterLevel(&b, r.Intn(11)-1)
	if r.Intn(3) == 0 {
		z.Write(w.b[:len(w.b)/2])
		z.Flush()
		z.Write(w.b[len(w.b)/2:])
	} else {
		z.Write(w.b)
	}
	z.Close()
	return b.Bytes()
}

// shuffled lists the keys of a map in a random order.
func shuffled[V any](r *rand.Rand, m map[string]V) []string {
	l := sortedKeys(m)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func (w *fbw) counts(m map[string]int) fbSlot {
	var l []func() int
	for _, k := range shuffled(w.r, m) {
		l = append(l, func() int { return w.table(w.text(k), w.num(m[k])) })
	}
	if len(l) == 0 && w.r.Intn(2) == 0 {
		return fbSlot{}
	}
	return w.sub(func() int { return w.vec(l) })
}

func encDocument(r *rand.Rand, fields map[string]model.Field) []byte {
	return fbFile(r, func(w *fbw) int {
		var l []func() int
		for _, k := range shuffled(r, fields) {
			f := fields[k]
			l = append(l, func() int {
				return w.table(w.text(k), w.sub(func() int { return w.table(w.text(f.Name), w.num(f.Length), w.counts(f.TF)) }))
			})
		}
		return w.table(w.sub(func() int { return w.vec(l) }))
	})
}

func encTotals(r *rand.Rand, name string, size, length int) []byte {
	return fbFile(r, func(w *fbw) int { return w.table(w.text(name), w.num(size), w.num(length)) })
}

func encNumbers(r *rand.Rand, m map[string]int) []byte {
	return fbFile(r, func(w *fbw) int { return w.table(w.counts(m)) })
}

func encIndex(r *rand.Rand, m map[string]map[string]bool) []byte {
	return fbFile(r, func(w *fbw) int {
		var l []func() int
		for _, t := range shuffled(r, m) {
			var ids []func() int
			for _, id := range shuffled(r, m[t]) {
				ids = append(ids, func() int { return w.str(id) })
			}
			l = append(l, func() int {
				return w.table(w.text(t), w.sub(func() int { return w.table(w.sub(func() int { return w.vec(ids) })) }))
			})
		}
		return w.table(w.sub(func() int { return w.vec(l) }))
	})
}

// fbr reads; anything out of range panics, which the caller turns into a finding.
type fbr []byte

func (b fbr) u32(at int) int { return int(binary.LittleEndian.Uint32(b[at:])) }
func (b fbr) slot(t, i int) int {
	vt := t - int(int32(binary.LittleEndian.Uint32(b[t:])))
	if 4+2*i >= int(binary.LittleEndian.Uint16(b[vt:])) {
		return 0
	}
	if o := int(binary.LittleEndian.Uint16(b[vt+4+2*i:])); o != 0 {
		return t + o
	}
	return 0
}
func (b fbr) num(t, i int) int {
	if p := b.slot(t, i); p != 0 {
		return int(int32(binary.LittleEndian.Uint32(b[p:])))
	}
	return 0
}
func (b fbr) at(p int) int { return p + b.u32(p) }
func (b fbr) strAt(p int) string {
	return string(b[p+4 : p+4+b.u32(p)])
}
func (b fbr) str(t, i int) string {
	if p := b.slot(t, i); p != 0 {
		return b.strAt(b.at(p))
	}
	return ""
}
func (b fbr) vec(t, i int) []int {
	p := b.slot(t, i)
	if p == 0 {
		return nil
	}
	p = b.at(p)
	var l []int
	for k := b.u32(p); k > 0; k-- {
		p += 4
		l = append(l, b.at(p))
	}
	return l
}

// onDisk is what an independent reader finds in the folder of a store.
type onDisk struct {
	docs         map[string]map[string]model.Field
	size, length map[string]int
	num          map[string]map[string]int
	post         map[string]map[string]map[string]bool
	fragments    int
	files        int
}

func readStore(root string) (d *onDisk, err error) {
	name := root
	defer func() {
		if e := recover(); e != nil {
			d, err = nil, fmt.Errorf("%s is not a file of the published format: %v", name, e)
		}
	}()
	d = &onDisk{map[string]map[string]model.Field{}, map[string]int{}, map[string]int{}, map[string]map[string]int{}, map[string]map[string]map[string]bool{}, 0, 0}
	open := func(parts ...string) (fbr, int) {
		name = filepath.Join(parts...)
		b, err := os.ReadFile(filepath.Join(root, name))
		if err != nil {
			panic(err)
		}
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			panic(err)
		}
		b, err = io.ReadAll(z)
		if err != nil {
			panic(err)
		}
		d.files++
		return fbr(b), fbr(b).u32(0)
	}
	list := func(parts ...string) []os.DirEntry {
		name = filepath.Join(parts...)
		l, err := os.ReadDir(filepath.Join(root, name))
		if err != nil && !os.IsNotExist(err) {
			panic(err)
		}
		return l
	}
	for _, e := range list("docs", "metrics") {
		b, t := open("docs", "metrics", e.Name())
		m := map[string]model.Field{}
		for _, x := range b.vec(t, 0) {
			v := b.at(b.slot(x, 1))
			f := model.Field{Name: b.str(v, 0), Length: b.num(v, 1), TF: map[string]int{}}
			for _, y := range b.vec(v, 2) {
				f.TF[b.str(y, 0)] = b.num(y, 1)
			}
			m[b.str(x, 0)] = f
		}
		d.docs[e.Name()] = m
	}
	for _, e := range list(".") {
		f := e.Name()
		if f == "docs" || !e.IsDir() {
			continue
		}
		index := func(parts ...string) {
			b, t := open(parts...)
			if d.post[f] == nil {
				d.post[f] = map[string]map[string]bool{}
			}
			for _, x := range b.vec(t, 0) {
				k := b.str(x, 0)
				if d.post[f][k] == nil {
					d.post[f][k] = map[string]bool{}
				}
				for _, id := range b.vec(b.at(b.slot(x, 1)), 0) {
					d.post[f][k][b.strAt(id)] = true
				}
			}
		}
		for _, g := range list(f) {
			switch g.Name() {
			case "metrics":
				b, t := open(f, "metrics")
				if n := b.str(t, 0); folderName(n) != f {
					panic(fmt.Sprintf("the totals in folder %q are those of %q", f, n))
				}
				d.size[f], d.length[f] = b.num(t, 1), b.num(t, 2)
			case "nfterm":
				b, t := open(f, "nfterm")
				d.num[f] = map[string]int{}
				for _, x := range b.vec(t, 0) {
					d.num[f][b.str(x, 0)] = b.num(x, 1)
				}
			case "index":
				index(f, "index")
			}
		}
		for _, g := range list(f, "temp") {
			d.fragments++
			index(f, "temp", g.Name())
		}
	}
	return d, nil
}

// cmpDisk compares what the independent reader finds with the reference model; the store is idle.
func cmpDisk(c *Case, when, root string, ref *Ref) *onDisk {
	d, err := readStore(root)
	if err != nil {
		c.Failf("%s: %v", when, err)
		return nil
	}
	c.Add("files_read_independently", d.files)
	for id := range ref.docs {
		g := d.docs[fileName(id)]
		for f, w := range ref.docs[id] {
			c.Add("stored_fields_compared", 1)
			x, ok := g[f]
			if !ok {
				c.Failf("%s: an independent reader finds no field %q of document %q", when, f, id)
				return d
			}
			if s := sameCounts(x.TF, w.TF); s != "" || x.Name != f || x.Length != w.Length {
				c.Failf("%s: an independent reader finds %v as field %q of document %q, not %v: %s", when, x, f, id, w, s)
				return d
			}
		}
		if len(g) != len(ref.docs[id]) {
			c.Failf("%s: an independent reader finds %d fields of document %q, not %d", when, len(g), id, len(ref.docs[id]))
		}
	}
	if len(d.docs) != len(ref.docs) {
		c.Failf("%s: an independent reader finds %d documents, not %d", when, len(d.docs), len(ref.docs))
	}
	for _, f := range ref.Fields() {
		at := folderName(f)
		if d.size[at] != ref.Size(f) || d.length[at] != ref.Length(f) {
			c.Failf("%s: an independent reader finds totals %d, %d of field %q, not %d, %d", when, d.size[at], d.length[at], f, ref.Size(f), ref.Length(f))
		}
		for _, t := range ref.Terms(f) {
			want := ref.Postings(f, t)
			if d.num[at][t] != len(want) {
				c.Failf("%s: an independent reader finds that %d documents have term %q in field %q, not %d", when, d.num[at][t], clip(t), f, len(want))
			}
			for id := range want {
				if !d.post[at][t][id] {
					c.Failf("%s: an independent reader does not find document %q listed under term %q of field %q", when, id, clip(t), f)
				}
			}
			for id := range d.post[at][t] {
				if !ref.ever[f][t][id] {
					c.Failf("%s: an independent reader finds document %q listed under term %q of field %q", when, id, clip(t), f)
				}
			}
			c.Add("stored_postings_compared", 1)
			if c.Failed() {
				return d
			}
		}
		for t := range d.post[at] {
			if _, ok := ref.ever[f][t]; !ok {
				c.Failf("%s: an independent reader finds term %q in the index of field %q", when, clip(t), f)
			}
		}
	}
	known := map[string]bool{}
	for _, f := range ref.Fields() {
		known[folderName(f)] = true
	}
	for f := range d.post {
		if !known[f] {
			c.Failf("%s: an independent reader finds an index in folder %q", when, f)
		}
	}
	return d
}

// writeStore writes the folder of a store with the content of ref, as an independent program would.
func writeStore(c *Case, root string, ref *Ref) {
	r := c.R
	put := func(b []byte, parts ...string) {
		p := filepath.Join(append([]string{root}, parts...)...)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			harness("%v", err)
		}
		c.Add("files_written_independently", 1)
	}
	os.MkdirAll(root, 0o755)
	for _, id := range ref.Ids() {
		put(encDocument(r, ref.docs[id]), "docs", "metrics", fileName(id))
	}
	for _, f := range ref.Fields() {
		at := folderName(f)
		put(encTotals(r, f, ref.Size(f), ref.Length(f)), at, "metrics")
		num := map[string]int{}
		parts := make([]map[string]map[string]bool, 1+r.Intn(4))
		for i := range parts {
			parts[i] = map[string]map[string]bool{}
		}
		add := func(t, id string) {
			p := parts[r.Intn(len(parts))]
			if p[t] == nil {
				p[t] = map[string]bool{}
			}
			p[t][id] = true
		}
		for _, t := range ref.Terms(f) {
			if n := len(ref.Postings(f, t)); n > 0 || r.Intn(2) == 0 {
				num[t] = n
			}
			for _, id := range sortedKeys(ref.Postings(f, t)) {
				for add(t, id); r.Intn(5) == 0; { // also in several fragments
					add(t, id)
				}
			}
		}
		if len(num) > 0 || r.Intn(2) == 0 {
			put(encNumbers(r, num), at, "nfterm")
		}
		for i, p := range parts {
			if i == 0 {
				if len(p) > 0 || r.Intn(2) == 0 {
					put(encIndex(r, p), at, "index")
				}
			} else if len(p) > 0 {
				put(encIndex(r, p), at, "temp", fmt.Sprintf("%08x-0000-4000-8000-%012x", r.Uint32(), r.Intn(1<<30)))
			}
		}
		if r.Intn(2) == 0 {
			os.MkdirAll(filepath.Join(root, at, "temp"), 0o755)
		}
	}
}

// folderName is the name of a field's folder: the bytes / \ % and zero are written as % and two hexadecimal digits, as is the
// first byte of a name that means something else in that place.
func folderName(s string) string {
	if s == "" {
		return "%"
	}
	o := ""
	for i, b := range []byte(s) {
		if bytes.IndexByte([]byte("/\\%\x00"), b) >= 0 || i == 0 && (s == "." || s == ".." || s == "docs") {
			o += fmt.Sprintf("%%%02X", b)
		} else {
			o += string([]byte{b})
		}
	}
	return o
}

// fileName is the name of a document's file, hashed if it would be too long.
func fileName(s string) string {
	o := folderName(s)
	if len(o) > 200 {
		return fmt.Sprintf("%%%%%x", sha256.Sum256([]byte(s)))
	}
	return o
}

//go:embed stores
var oldStores embed.FS

// oldStore unpacks a store written by the library as it was before any change, and what was saved in it.
func oldStore(name, root string) *Ref {
	ref := NewRef()
	b, err := oldStores.ReadFile("stores/" + name + ".json")
	if err != nil {
		harness("%v", err)
	}
	var s struct {
		Files map[string][]byte
		Saves []struct {
			Id    string
			Field model.Field
		}
	}
	if err := json.Unmarshal(b, &s); err != nil {
		harness("%s: %v", name, err)
	}
	for p, b := range s.Files {
		p = filepath.Join(root, p)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			harness("%v", err)
		}
	}
	for _, x := range s.Saves {
		ref.Save(x.Id, x.Field)
	}
	return ref
}

func formatStoreCase(c *Case) {
	r := c.R
	w := smallWorld(c)
	if c.Idx%12 == 7 {
		w.Vocab = nil
		for i := 3000 + r.Intn(6000); i > 0; i-- {
			w.Vocab = append(w.Vocab, fmt.Sprint("w", i))
		}
		w.MaxLen = 2500
	}
	base := c.Dir()
	defer Clean(base)
	root := filepath.Join(base, "store")
	ref := NewRef()
	origin := "an independent program"
	l, _ := oldStores.ReadDir("stores")
	if c.Idx%6 == 2 && len(l) > 0 {
		name := strings.TrimSuffix(l[c.Idx/6%len(l)].Name(), ".json")
		ref = oldStore(name, root)
		origin = "the original library (" + name + ")"
		d := cmpDisk(c, "as written by the original library", root, ref)
		if c.Failed() {
			harness("the independent reader does not understand the store %q", name)
		}
		c.Add("old_fragments", d.fragments)
		c.Add("old_stores_opened", 1)
		for id := range ref.docs {
			if !contains(w.Ids, id) {
				w.Ids = append(w.Ids, id)
			}
		}
		w.Fields = append(w.Fields, ref.Fields()...)
		w.Vocab = append(w.Vocab, ref.Terms(ref.Fields()[0])...)
	} else if c.Idx%6 != 5 {
		for n := r.Intn(40); n >= 0; n-- {
			f := w.Field()
			v := w.Version(f)
			ref.Save(w.Id(), v)
		}
		ref.resaved = map[string]bool{} // no stale postings are written
		writeStore(c, root, ref)
		if cmpDisk(c, "written independently", root, ref); c.Failed() {
			harness("the independent reader does not understand the independent writer")
		}
	} else {
		origin = "nobody"
	}
	sessions := 1 + r.Intn(3)
	saves := 0
	for sess := 0; sess <= sessions && !c.Failed(); sess++ {
		cache := []int{0, 1, 3, 1000}[r.Intn(4)]
		end := c.Bubble(func() {
			s, err := storage.NewDiskStore(root, cache)
			when := func() string {
				return fmt.Sprintf("a store written by %s, opening %d, cache %d, after %d saves", origin, sess+1, cache, saves)
			}
			if err != nil {
				c.Failf("%s: %v", when(), err)
				return
			}
			if sess > 0 {
				c.Add("restarts", 1)
			}
			look := func() {
				if c.Failed() {
					return
				}
				if len(w.Vocab) > 1000 {
					cmpBig(c, when(), s, ref, false, bigDocs|bigStats|bigPostings)
				} else {
					cmpAll(c, when(), s, ref, false)
				}
				for i := 0; i < 6 && !c.Failed(); i++ {
					cmpSearch(c, when(), s, ref, w.Query(3, 8), cmpHits|cmpScores)
				}
			}
			look()
			if d := cmpDisk(c, when()+", just opened", root, ref); d != nil && d.fragments > 0 {
				c.Failf("%s: %d fragments are left after an open", when(), d.fragments)
			}
			if sess == sessions {
				return
			}
			ix, _ := c.Engine(s)
			for n := 3 + r.Intn(30); n > 0 && !c.Failed(); n-- {
				id, f := w.Id(), w.Field()
				v := w.Version(f)
				ref.Save(id, v)
				saves++
				c.Add("saves", 1)
				ix.IndexDocument(id, model.NormalizedDocument{Fields: []model.Field{cloneField(v)}})
				if r.Intn(4) == 0 {
					time.Sleep(pauseChoices[r.Intn(len(pauseChoices))] * time.Second)
				}
			}
			time.Sleep(Settle)
			synctest.Wait()
			if r.Intn(2) == 0 {
				look()
			}
			cmpDisk(c, when()+", idle", root, ref)
		})
		if end == "deadlock" {
			c.Failf("everything is blocked")
		}
	}
	c.Finger(origin, saves, len(ref.docs), len(ref.size))
	if len(ref.docs) > 0 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"written_by": origin, "documents": len(ref.docs), "fields": len(ref.size), "saves": saves, "sessions": sessions + 1})
}

func init() {
	props["C27"] = def{quick: 240, deep: 6000, procs: []int{2, 4, 1}, run: formatStoreCase}
}
