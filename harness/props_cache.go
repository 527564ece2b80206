package vh

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/sira-serverless-ir-arch/goirlib/cache"
)

// ---- C13: LRU ----

// lruModel remembers when each key was last used, and queues the uses; a queued use that is not its key's last is skipped.
type lruModel struct {
	cap   int
	clock int
	last  map[string]int
	uses  []lruUse
	val   map[string]int
}

type lruUse struct {
	key string
	at  int
}

func newLruModel(capacity int) *lruModel {
	return &lruModel{cap: capacity, last: map[string]int{}, val: map[string]int{}}
}

func (m *lruModel) touch(k string) {
	m.clock++
	m.last[k] = m.clock
	m.uses = append(m.uses, lruUse{k, m.clock})
}
func (m *lruModel) get(k string) (int, bool) {
	v, ok := m.val[k]
	if ok {
		m.touch(k)
	}
	return v, ok
}
func (m *lruModel) put(k string, v int) (evicted bool) {
	if _, ok := m.val[k]; !ok {
		if m.cap <= 0 {
			return false
		}
		for len(m.val) >= m.cap {
			u := m.uses[0]
			m.uses = m.uses[1:]
			if m.last[u.key] == u.at {
				delete(m.val, u.key)
				delete(m.last, u.key)
				evicted = true
			}
		}
	}
	m.val[k] = v
	m.touch(k)
	return evicted
}

// oldest lists the cached keys, least recently used first.
func (m *lruModel) oldest() []string {
	var o []string
	for _, u := range m.uses {
		if m.last[u.key] == u.at {
			o = append(o, u.key)
		}
	}
	return o
}

type lruVal struct {
	n   int
	tag string
}

func lruSequential(c *Case) {
	capacity := []int{0, 1, 2, 3, 5, 8, 64, 500}[c.R.Intn(8)]
	n := 200 + c.R.Intn(400)
	if c.Idx%80 == 40 { // beyond every batch
		capacity = []int{1000, 1024, 1025, 2048, 4096, 5000, 10000}[c.R.Intn(7)]
		n = 6 * capacity
	}
	keys, fill := 0, capacity
	switch c.Idx % 240 {
	case 100: // beyond 16 bits
		capacity = []int{32767, 32768, 40000, 65535, 65536, 65537, 70000, 100000}[c.R.Intn(8)]
		n, fill = 20000, capacity
	case 200: // a capacity that is never reached
		capacity = []int{1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, math.MaxInt}[c.R.Intn(7)]
		n, fill, keys = 3000, 2000, 4000
	}
	if keys == 0 {
		keys = capacity + c.R.Intn(capacity+3) + 1
	}
	l := cache.NewLRUCache[lruVal](capacity)
	m := newLruModel(capacity)
	type held struct {
		p *lruVal
		n int
		k string
	}
	var hold []held
	name := keyNames(c.R, func(i int) string {
		if i == 0 {
			return ""
		}
		return fmt.Sprint("k", i)
	})
	key := func() string {
		i := c.R.Intn(keys)
		if c.R.Intn(2) == 0 {
			i = c.R.Intn(i + 1)
		}
		return name(i)
	}
	evict := 0
	if n > 1000 { // filled first
		for i := 0; i < fill; i++ {
			k := name(i + 1)
			l.Put(k, lruVal{-i, k})
			m.put(k, -i)
		}
	}
	for i := 0; i < n && !c.Failed(); i++ {
		k := key()
		if c.R.Intn(2) == 0 {
			c.Logf("put %q %d", k, i)
			l.Put(k, lruVal{i, k})
			if m.put(k, i) {
				evict++
			}
		} else {
			w, wok := m.get(k)
			g, ok := pointed(l.Get(k))
			c.Logf("get %q: %v", k, ok)
			switch {
			case ok != wok:
				c.Failf("capacity %d: key %q present is %v, want %v (least recent first: %s)", capacity, k, ok, wok, clip(fmt.Sprint(m.oldest())))
			case ok && (g.n != w || g.tag != k):
				c.Failf("capacity %d: key %q reads %v, want %d", capacity, k, *g, w)
			case ok:
				hold = append(hold, held{g, w, k})
			}
		}
		if len(hold) > 40 {
			hold = hold[20:]
		}
		for _, h := range hold {
			if h.p.n != h.n || h.p.tag != h.k {
				c.Failf("the value %d read for %q earlier has changed to %v", h.n, h.k, *h.p)
			}
		}
	}
	// What is in the cache at the end, checked from the least recent so that the order does not matter.
	for _, k := range m.oldest() {
		if g, ok := pointed(l.Get(k)); !ok || g.n != m.val[k] {
			c.Failf("capacity %d: key %q should still be cached", capacity, k)
			break
		}
	}
	c.Add("operations_checked", n)
	c.Add("evictions", evict)
	c.Finger("seq", capacity, keys, n, evict)
	if evict > 0 || capacity == 0 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"capacity": capacity, "keys": keys, "operations": n, "evictions": evict})
}

type cacheIn struct {
	put bool
	key int
	val int
}

// lruPorcupine models the whole cache: an LRU is not independent per key.
func lruPorcupine(capacity int) porcupine.Model {
	type st struct {
		n    int
		key  [8]int8
		vals [8]int32
	}
	find := func(s st, k int) int {
		for i := 0; i < s.n; i++ {
			if int(s.key[i]) == k {
				return i
			}
		}
		return -1
	}
	front := func(s st, i int) st {
		k, v := s.key[i], s.vals[i]
		copy(s.key[1:i+1], s.key[:i])
		copy(s.vals[1:i+1], s.vals[:i])
		s.key[0], s.vals[0] = k, v
		return s
	}
	return porcupine.Model{
		Init: func() any { return st{} },
		Step: func(state, in, out any) (bool, any) {
			s, i := state.(st), in.(cacheIn)
			p := find(s, i.key)
			if !i.put {
				if p < 0 {
					return out.(int) == -1, s
				}
				ok := out.(int) == int(s.vals[p])
				return ok, front(s, p)
			}
			if p >= 0 {
				s = front(s, p)
				s.vals[0] = int32(i.val)
				return true, s
			}
			if capacity == 0 {
				return true, s
			}
			if s.n == capacity {
				s.n--
			}
			s.key[s.n], s.vals[s.n] = int8(i.key), int32(i.val)
			s.n++
			return true, front(s, s.n-1)
		},
		Equal:             func(a, b any) bool { return a == b },
		DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v->%v", in, out) },
	}
}

// concHistory runs pre-drawn operations from several goroutines and records a history.
func concHistory(c *Case, clients, per, keys int, put func(k, v int), get func(k int) int) []porcupine.Operation {
	plans := make([][]cacheIn, clients)
	spin := make([][]int, clients)
	v := 0
	for k := range plans {
		for i := 0; i < per; i++ {
			v++
			plans[k] = append(plans[k], cacheIn{put: c.R.Intn(2) == 0, key: c.R.Intn(keys), val: v})
			spin[k] = append(spin[k], c.R.Intn(8))
		}
	}
	var clock atomic.Int64
	hists := make([][]porcupine.Operation, clients)
	var wg sync.WaitGroup
	var gate atomic.Int64
	for k := range plans {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			c.guard(func() {
				gate.Add(1)
				for try := 0; gate.Load() < int64(clients) && try < 2000; try++ {
					runtime.Gosched()
				}
				for i, in := range plans[k] {
					for j := 0; j < spin[k][i]*8; j++ {
						_ = clock.Load()
					}
					if spin[k][i] == 7 {
						runtime.Gosched()
					}
					call := clock.Add(1)
					out := 0
					if in.put {
						put(in.key, in.val)
					} else {
						out = get(in.key)
					}
					ret := clock.Add(1)
					hists[k] = append(hists[k], porcupine.Operation{ClientId: k, Input: in, Output: out, Call: call, Return: ret})
				}
			})
		}(k)
	}
	wg.Wait()
	var all []porcupine.Operation
	for _, h := range hists {
		all = append(all, h...)
	}
	conc := 0
	for i, a := range all {
		for _, b := range all[i+1:] {
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				conc++
			}
		}
		c.Finger(a.Input, a.Output)
		c.Logf("client %d [%d,%d] %+v -> %v", a.ClientId, a.Call, a.Return, a.Input, a.Output)
	}
	c.Add("operations_checked", len(all))
	c.Add("overlapping_pairs", conc)
	if conc > 0 {
		c.NonTrivial()
	}
	return all
}

func decide(c *Case, m porcupine.Model, all []porcupine.Operation, what string) {
	switch porcupine.CheckOperationsTimeout(m, all, 30*time.Second) {
	case porcupine.Illegal:
		c.Failf("%s: the recorded concurrent history is not linearizable", what)
	case porcupine.Unknown:
		c.Inconclusive("linearizability checker timed out")
	}
}

func lruConcurrent(c *Case) {
	capacity := c.R.Intn(4)
	keys := 1 + c.R.Intn(capacity+2)
	l := cache.NewLRUCache[lruVal](capacity)
	name := func(k int) string { return fmt.Sprint("k", k) }
	clients := 2 + c.R.Intn(3)
	all := concHistory(c, clients, 4+c.R.Intn(8), keys,
		func(k, v int) { l.Put(name(k), lruVal{v, name(k)}) },
		func(k int) int {
			g, ok := pointed(l.Get(name(k)))
			if !ok {
				return -1
			}
			v := *g
			if v.tag != name(k) {
				c.Failf("key %q reads a value of key %q", name(k), v.tag)
			}
			return v.n
		})
	if c.Failed() {
		return
	}
	decide(c, lruPorcupine(capacity), all, fmt.Sprintf("cache of capacity %d, %d clients", capacity, clients))
	c.Sample(map[string]any{"capacity": capacity, "keys": keys, "clients": clients, "operations": len(all)})
}

// pointed makes a value that is said to be there but is nil one that was never put, so that the comparison reports it.
func pointed[T any](g *T, ok bool) (*T, bool) {
	if ok && g == nil {
		g = new(T)
	}
	return g, ok
}

// lruStress: more goroutines than a checker can follow; the bound and the values are still checked.
func lruStress(c *Case) {
	capacity := 1 + c.R.Intn(20)
	ops := 400
	if c.Idx%80 == 43 {
		capacity = 500 + c.R.Intn(4000)
		ops = 4 * capacity
	}
	keys := capacity*2 + 3
	l := cache.NewLRUCache[lruVal](capacity)
	var wg sync.WaitGroup
	g := 2 + c.R.Intn(7)
	for k := 0; k < g; k++ {
		wg.Add(1)
		seed := c.R.Int63()
		go func(k int) {
			defer wg.Done()
			c.guard(func() {
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < ops; i++ {
					key := fmt.Sprint("k", r.Intn(keys))
					if r.Intn(2) == 0 {
						l.Put(key, lruVal{i, key})
					} else if v, ok := pointed(l.Get(key)); ok && v.tag != key {
						c.Failf("key %q reads a value of key %q", key, v.tag)
					}
				}
			})
		}(k)
	}
	wg.Wait()
	if c.Failed() {
		return
	}
	n := 0
	for i := 0; i < keys; i++ {
		if _, ok := l.Get(fmt.Sprint("k", i)); ok {
			n++
		}
	}
	if n != capacity {
		c.Failf("after many puts of %d keys, a cache of capacity %d holds %d", keys, capacity, n)
	}
	// From here on it must behave like a fresh cache filled with known keys.
	for i := 0; i < capacity; i++ {
		l.Put(fmt.Sprint("x", i), lruVal{i, ""})
	}
	for i := 0; i < keys; i++ {
		if _, ok := l.Get(fmt.Sprint("k", i)); ok {
			c.Failf("key k%d survived %d puts of new keys into a cache of capacity %d", i, capacity, capacity)
		}
	}
	l.Put("y", lruVal{1, ""})
	if _, ok := l.Get("x0"); ok {
		c.Failf("the least recently used key x0 was not evicted")
	}
	for i := 1; i < capacity; i++ {
		if _, ok := l.Get(fmt.Sprint("x", i)); !ok {
			c.Failf("key x%d was evicted although %d was less recently used", i, 0)
		}
	}
	c.Add("operations_checked", g*ops)
	c.Finger("stress", capacity, g)
	c.NonTrivial()
}

// ---- C14: the refreshing caches ----

type refreshing interface {
	Put(key string, value int)
	Get(key string) (*int, bool)
}

const period2 = 6 * time.Second

// refreshCase: one writer per key puts increasing values; readers watch the published sequence in virtual time.
func refreshCase(c *Case) {
	kind := []string{"RCU", "SyncMap"}[c.Idx%2]
	writers := 1 + c.R.Intn(4)
	keysEach := 1 + c.R.Intn(5)
	puts := 5 + c.R.Intn(40)
	burst := c.Idx%8 >= 6 // more puts at once than any buffer holds
	puts1 := 1500
	switch c.Idx % 32 {
	case 22, 23: // many keys
		keysEach, puts1, writers = 500+c.R.Intn(3000), 4000, 1+c.R.Intn(3)
		if c.Idx%96 >= 86 {
			keysEach, puts1 = 70000, 90000
		}
	case 12, 13: // many writers
		writers, keysEach = 20+c.R.Intn(60), 1+c.R.Intn(2)
	}
	flat := keyNames(c.R, func(i int) string { return fmt.Sprintf("w%dk%d", i/keysEach, i%keysEach) })
	keyOf := func(w, k int) string { return flat(w*keysEach + k) }
	type put struct {
		val int
		at  time.Duration
	}
	var mu sync.Mutex
	done := map[string][]put{} // completed puts per key, by time
	begun := map[string]int{}  // highest value whose put has begun
	reads, seen := int64(0), int64(0)
	end := c.Bubble(func() {
		var m refreshing
		if kind == "RCU" {
			m = cache.NewCacheRCU[int]()
		} else {
			m = cache.NewSyncMap[int]()
		}
		start := time.Now()
		var wg, rg sync.WaitGroup
		var over atomic.Bool
		for r := 0; r < 3; r++ {
			rg.Add(1)
			mine := map[string]int{}
			seed := c.R.Int63()
			go func() {
				defer rg.Done()
				c.guard(func() {
					rr := rand.New(rand.NewSource(seed))
					for !over.Load() && !c.Failed() {
						for w := 0; w < writers; w++ {
							step := 1 + keysEach/60
							for k := rr.Intn(step); k < keysEach; k += step {
								key := keyOf(w, k)
								now := time.Since(start)
								mu.Lock()
								must := 0
								for _, p := range done[key] {
									if p.at <= now-period2 {
										must = p.val
									}
								}
								mu.Unlock()
								g, ok := pointed(m.Get(key))
								mu.Lock()
								top := begun[key]
								mu.Unlock()
								atomic.AddInt64(&reads, 1)
								switch {
								case !ok && (must > 0 || mine[key] > 0):
									c.Failf("%s at %v: key %s is not readable; value %d was put more than 6 s ago, %d was seen before", kind, now, key, must, mine[key])
								case ok && (*g <= 0 || *g > top):
									c.Failf("%s at %v: key %s reads %d, which was never put", kind, now, key, *g)
								case ok && *g < must:
									c.Failf("%s at %v: key %s reads %d although %d was put more than 6 s ago", kind, now, key, *g, must)
								case ok && *g < mine[key]:
									c.Failf("%s at %v: key %s went back from %d to %d", kind, now, key, mine[key], *g)
								case ok:
									mine[key] = *g
									atomic.AddInt64(&seen, 1)
								}
							}
						}
						if g, ok := pointed(m.Get("never put")); ok {
							c.Failf("%s: a key that was never put reads %v", kind, *g)
						}
						d := time.Duration(rr.Intn(1500)) * time.Millisecond
						if rr.Intn(3) == 0 { // land on a refresh
							now := time.Since(start)
							d = 3*time.Second - now%(3*time.Second)
						}
						time.Sleep(d)
					}
				})
			}()
		}
		for w := 0; w < writers; w++ {
			wg.Add(1)
			seed := c.R.Int63()
			go func(w int) {
				defer wg.Done()
				c.guard(func() {
					rr := rand.New(rand.NewSource(seed))
					n := puts
					if burst {
						n = puts1
					}
					for i := 1; i <= n; i++ {
						key := keyOf(w, rr.Intn(keysEach))
						mu.Lock()
						begun[key] = i
						mu.Unlock()
						m.Put(key, i)
						mu.Lock()
						done[key] = append(done[key], put{i, time.Since(start)})
						if len(done[key]) > 60 {
							done[key] = append([]put(nil), done[key][30:]...)
						}
						mu.Unlock()
						c.Add("puts", 1)
						if !burst && rr.Intn(2) == 0 {
							d := time.Duration(rr.Intn(2500)) * time.Millisecond
							if rr.Intn(3) == 0 {
								now := time.Since(start)
								d = 3*time.Second - now%(3*time.Second)
							}
							time.Sleep(d)
						}
					}
				})
			}(w)
		}
		wg.Wait()
		time.Sleep(period2 + time.Millisecond)
		over.Store(true)
		rg.Wait()
		for key, ps := range done {
			w := ps[len(ps)-1].val
			if g, ok := pointed(m.Get(key)); !ok || *g != w {
				c.Failf("%s: 6 s after the last put key %s reads %v (%v), want %d", kind, key, g, ok, w)
			}
		}
		// Long idle: nothing is lost.
		idle := time.Duration(10+c.R.Intn(60)) * time.Second
		if c.Idx%8 == 3 || c.Idx%8 == 4 {
			idle = time.Duration(1+c.R.Intn(30)) * time.Hour
		}
		time.Sleep(idle)
		c.Add("virtual_seconds_idle", int(idle/time.Second))
		for key, ps := range done {
			w := ps[len(ps)-1].val
			if g, ok := pointed(m.Get(key)); !ok || *g != w {
				c.Failf("%s: long after the last put key %s reads %v (%v), want %d", kind, key, g, ok, w)
			}
		}
	})
	if end == "deadlock" {
		c.Failf("%s: a put blocks forever", kind)
	}
	c.Add("reads", int(reads))
	c.Add("values_seen", int(seen))
	c.Finger(kind, writers, keysEach, puts, burst, reads)
	if seen > 0 {
		c.NonTrivial()
	}
	c.Sample(map[string]any{"cache": kind, "writers": writers, "keys": writers * keysEach, "puts_each": puts, "burst": burst, "reads": reads})
}

// ---- C15: shards ----

func shardCase(c *Case) {
	n := []int{1, 2, 3, 7, 16, 100, 257, 1000, 4099}[c.R.Intn(9)]
	if c.Idx%100 == 57 {
		n = 66000 + c.R.Intn(3000)
	}
	sh := cache.NewShardMap[int](n)
	type kv struct{ shard, key string }
	ref := map[kv]int{}
	owner := map[*cache.LocalMap[int]]bool{}
	shardOf := map[string]*cache.LocalMap[int]{}
	type held struct {
		p *int
		v int
		k kv
	}
	var hold []held
	keys, inner, ops := 1+c.R.Intn(60), 12, 400
	if c.Idx%60 == 31 {
		keys, inner, ops = 1+c.R.Intn(4), 3000, 8000
	}
	name := keyNames(c.R, func(i int) string {
		switch i % 5 {
		case 0:
			return fmt.Sprint(i)
		case 1:
			return string(rune(i + 200))
		case 2:
			return fmt.Sprintf("\x00%d\xff", i)
		}
		return fmt.Sprintf("key-%d", i)
	})
	get := func(k string) *cache.LocalMap[int] {
		m, ok := sh.Get(k)
		if !ok || m == nil {
			c.Failf("%d shards: key %q has no shard", n, k)
			c.Stop()
		}
		if old := shardOf[k]; old != nil && old != m {
			c.Failf("%d shards: key %q changed its shard", n, k)
		}
		shardOf[k] = m
		owner[m] = true
		return m
	}
	var snap map[string]*int
	var snapWas map[string]int
	for i := 0; i < ops && !c.Failed(); i++ {
		k := name(c.R.Intn(keys))
		m := get(k)
		if c.R.Intn(ops/40) == 0 {
			// The whole content of one shard, exactly, and it stays as it is.
			if len(snap) != len(snapWas) {
				c.Failf("%d shards: a shard's data, read earlier, had %d keys and now has %d", n, len(snapWas), len(snap))
			}
			for x, w := range snapWas {
				if g := snap[x]; g == nil || *g != w {
					c.Failf("%d shards: key %q of a shard's data, read earlier, was %d and has changed", n, x, w)
				}
			}
			snap, snapWas = m.GetData(), map[string]int{}
			me := fmt.Sprintf("%p", m)
			for x, w := range ref {
				if x.shard == me {
					snapWas[x.key] = w
				}
			}
			for x, g := range snap {
				if w, ok := snapWas[x]; !ok || g == nil || *g != w {
					c.Failf("%d shards: the data of the shard of %q has %q = %v, want %d (%v)", n, k, x, g, w, ok)
				}
			}
			if len(snap) != len(snapWas) {
				c.Failf("%d shards: the data of the shard of %q has %d keys, want %d", n, k, len(snap), len(snapWas))
			}
			c.Add("shard_contents_compared", 1)
		}
		// Inner keys are shared between shard keys, to show interference; they live in the shard of k.
		x := kv{fmt.Sprintf("%p", m), name(c.R.Intn(inner))}
		if c.R.Intn(2) == 0 {
			c.Logf("set via %q: %q = %d", k, x.key, i+1)
			m.Set(x.key, i+1)
			ref[x] = i + 1
		} else {
			g, ok := pointed(m.Get(x.key))
			w, wok := ref[x]
			if ok != wok || (ok && *g != w) {
				c.Failf("%d shards: %q through shard key %q reads %v (%v), want %d (%v)", n, x.key, k, g, ok, w, wok)
			} else if ok {
				hold = append(hold, held{g, w, x})
			}
		}
		for _, h := range hold {
			if *h.p != h.v {
				c.Failf("a value of %q read earlier changed from %d to %d", h.k.key, h.v, *h.p)
			}
		}
		if len(hold) > 30 {
			hold = hold[15:]
		}
	}
	if len(owner) > n {
		c.Failf("%d shards, but keys map to %d", n, len(owner))
	}
	c.Add("operations_checked", ops)
	// Many keys: each has an existing shard.
	for i := 0; i < 2000; i++ {
		get(fmt.Sprint(c.R.Int63()))
	}
	if len(owner) > n {
		c.Failf("%d shards, but keys map to %d", n, len(owner))
	}
	c.Add("keys_mapped", 2000)
	c.Finger("seq", n, keys)
	c.NonTrivial()
	c.Sample(map[string]any{"shards": n, "keys": keys})
	if c.Failed() {
		return
	}
	// Concurrent histories, per key.
	sh2 := cache.NewShardMap[int](n)
	nk := 1 + c.R.Intn(4)
	var reads atomic.Int64
	all := concHistory(c, 2+c.R.Intn(4), 6+c.R.Intn(10), nk,
		func(k, v int) {
			m, _ := sh2.Get(fmt.Sprint("s", k))
			m.Set(fmt.Sprint("k", k), v)
		},
		func(k int) int {
			m, _ := sh2.Get(fmt.Sprint("s", k))
			if reads.Add(1)%3 == 0 {
				for x, g := range m.GetData() {
					if x == fmt.Sprint("k", k) {
						g, _ = pointed(g, true)
						return *g
					}
				}
				return -1
			}
			if g, ok := pointed(m.Get(fmt.Sprint("k", k))); ok {
				return *g
			}
			return -1
		})
	if c.Failed() {
		return
	}
	decide(c, mapModel, all, fmt.Sprintf("%d shards", n))
}

var mapModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			m[o.Input.(cacheIn).key] = append(m[o.Input.(cacheIn).key], o)
		}
		var out [][]porcupine.Operation
		for _, o := range m {
			out = append(out, o)
		}
		return out
	},
	Init: func() any { return -1 },
	Step: func(st, in, out any) (bool, any) {
		i := in.(cacheIn)
		if i.put {
			return true, i.val
		}
		return out.(int) == st.(int), st
	},
	Equal:             func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v->%v", in, out) },
}

func init() {
	procs := []int{4, 8, 2, 3}
	props["C13"] = def{quick: 3000, deep: 60000, procs: procs, run: func(c *Case) {
		switch c.Idx % 4 {
		case 0:
			lruSequential(c)
		case 1, 2:
			lruConcurrent(c)
		case 3:
			lruStress(c)
		}
	}}
	props["C14"] = def{quick: 400, deep: 8000, procs: procs, run: refreshCase}
	props["C15"] = def{quick: 1200, deep: 30000, procs: procs, run: shardCase}
}
