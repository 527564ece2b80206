package vh

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/sira-serverless-ir-arch/goirlib/file"
)

// ---- C20: atomic replacement of a file ----

// whichRound says which round wrote b: 0 the initial content, -1 none of the first n.
func whichRound(seed int64, n int, b []byte) int {
	for i := n; i >= 0; i-- {
		if bytes.Equal(b, secureContent(seed, i)) {
			return i
		}
	}
	return -1
}

func secureSetup(c *Case) (dir, root, name string, seed int64, rounds, start int) {
	dir = c.Dir()
	root = filepath.Join(dir, "root")
	if c.R.Intn(4) == 0 {
		root = filepath.Join(dir, "root", "sub dir")
	}
	os.MkdirAll(root, 0o755)
	name = []string{"metrics", "index", "nfterm", "d1", "x_temp", "with space", "é", strings.Repeat("n", 200)}[c.R.Intn(8)]
	seed = c.R.Int63n(1 << 40)
	rounds = 1 + c.R.Intn(4)
	start = -1
	if c.R.Intn(3) > 0 { // an earlier content
		start = 0
		if err := file.SecureSaveFile(root, name, secureContent(seed, 0)); err != nil {
			c.Failf("replacing a file fails: %v", err)
		}
	}
	if c.R.Intn(4) == 0 { // leftovers of an earlier crash, under the names this and earlier versions use
		for _, s := range []string{"%temp", "_temp", ".tmp"} {
			os.WriteFile(filepath.Join(root, name+s), []byte("left over"), 0o644)
		}
	}
	return
}

// state reads the file: -1 missing, -2 no complete content of any round.
func secureState(root, name string, seed int64, rounds int) int {
	b, err := os.ReadFile(filepath.Join(root, name))
	if os.IsNotExist(err) {
		return -1
	}
	if err != nil {
		return -2
	}
	if w := whichRound(seed, rounds, b); w >= 0 {
		return w
	}
	return -2
}

func showState(i int) string {
	switch i {
	case -1:
		return "is missing"
	case -2:
		return "is neither of the contents"
	}
	return fmt.Sprintf("holds content %d", i)
}

// secureRun runs the replacing process on a fresh copy of root with one fault, and judges every state it reported itself
// and the one it left.
func secureFaults(c *Case) {
	dir, root, name, seed, rounds, start := secureSetup(c)
	defer Clean(dir)
	env := func(r string) []string {
		return []string{fmt.Sprint("V_VSEED=", seed), fmt.Sprint("V_ROUNDS=", rounds), "V_NAME=" + name, "V_ROOT=" + r, fmt.Sprint("V_START=", start)}
	}
	one := func(args []string, f func(r string, t traced, l vLog, raw string)) {
		d := c.Dir()
		defer Clean(d)
		r := filepath.Join(d, "root")
		copyTree(root, r)
		vlog := filepath.Join(d, "vlog")
		t := c.runTraced(r, vlog, args, "TestSecureVictim", env(r)...)
		raw, _ := os.ReadFile(vlog)
		f(r, t, readVLog(vlog, -1), string(raw))
	}
	events := 0
	one([]string{"-m", "count"}, func(r string, t traced, l vLog, raw string) {
		events = t.events
		if t.exit != 0 || len(l.acked) != rounds {
			c.Failf("replacing a file %d times without a fault: %d succeed (exit %d): %s", rounds, len(l.acked), t.exit, died(t))
			return
		}
		if s := secureState(r, name, seed, rounds); s != rounds {
			c.Failf("after %d successful replacements the file %s", rounds, showState(s))
		}
	})
	if c.Failed() || events == 0 {
		return
	}
	c.Add("file_operations_in_baseline", events)
	for k := 1; k <= events; k++ {
		for _, mode := range []string{"kill", "torn", "err", "full"} {
			args := []string{"-m", mode, "-k", fmt.Sprint(k)}
			e := ""
			if mode == "err" {
				names := sortedKeys(errnos)
				e = names[c.R.Intn(len(names))]
				args = append(args, "-e", fmt.Sprint(errnos[e]))
			}
			one(args, func(r string, t traced, l vLog, raw string) {
				if t.hung {
					c.Add("hung", 1)
					return
				}
				what := "none"
				if t.hit && k <= len(t.ops) {
					what = strings.SplitN(t.ops[k-1], " ", 2)[0]
				}
				when := fmt.Sprintf("%s %s at file operation %d of %d (%s), %d replacements of %q", mode, e, k, events, what, rounds, clip(name))
				c.Logf("%s", when)
				c.Add(mode, 1)
				c.Finger(mode, e, what, k, rounds, start)
				// What the process saw after each of its replacements.
				cur := start
				for _, line := range strings.Split(raw, "\n") {
					var op string
					var i, st int
					if n, _ := fmt.Sscanf(line, "%1s %d %d", &op, &i, &st); n != 3 || (op != "a" && op != "f") {
						continue
					}
					c.Add("states_checked", 1)
					if op == "a" && st != i {
						c.Failf("%s: replacement %d reported success, but the file %s", when, i, showState(st))
					}
					if op == "f" && st != cur && st != i {
						c.Failf("%s: replacement %d reported an error, and the file %s instead of content %d or %d", when, i, showState(st), cur, i)
					}
					cur = st
				}
				if mode == "err" || mode == "full" {
					if t.exit != 0 {
						c.Failf("%s: the process died instead of being told of the error: %s", when, died(t))
					}
					if !t.hit {
						return
					}
				}
				// The state left behind.
				s := secureState(r, name, seed, rounds)
				next := cur + 1
				if cur < 1 {
					next = 1
				}
				for i := 1; i <= rounds; i++ { // the replacement that was under way
					if l.started[i] && !l.failed[i] {
						if _, ok := l.acked[i]; !ok {
							next = i
						}
					}
				}
				c.Add("states_checked", 1)
				if s != cur && !(s == next && l.started[next]) {
					c.Failf("%s: the file %s, although content %d was in place and %d was being written", when, showState(s), cur, next)
				}
				// Life goes on: the next replacement works, whatever was left.
				b := secureContent(seed, rounds+1)
				if err := file.SecureSaveFile(r, name, b); err != nil {
					c.Failf("%s: a later replacement fails: %v", when, err)
				} else if s := secureState(r, name, seed, rounds+1); s != rounds+1 {
					c.Failf("%s: after a later successful replacement the file %s", when, showState(s))
				}
			})
			if c.Failed() {
				return
			}
		}
	}
	c.NonTrivial()
	c.Sample(map[string]any{"replacements": rounds, "file_operations": events, "faults": 4 * events, "name": clip(name), "earlier_content": start == 0})
}

// secureReaders reads the file all the time while it is being replaced: in this process, or by a process whose k-th file
// operation is held back.
func secureReaders(c *Case) {
	dir, root, name, seed, rounds, start := secureSetup(c)
	defer Clean(dir)
	known := map[string]int{}
	prep := func(n int) {
		for i := 0; i <= n; i++ {
			known[string(secureContent(seed, i))] = i
		}
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	distinct := map[int]bool{}
	var mu sync.Mutex
	reader := func(path string, first int) {
		defer wg.Done()
		last := first
		for n := 0; !stop.Load() && !c.Failed(); n++ {
			b, err := os.ReadFile(path)
			c.Add("reads", 1)
			if os.IsNotExist(err) {
				if last >= 0 {
					c.Failf("a reader finds no file although content %d was there before", last)
				}
				continue
			}
			if err != nil {
				c.Failf("a reader cannot read the file: %v", err)
				return
			}
			i, ok := known[string(b)]
			if !ok {
				c.Failf("a reader sees %d bytes that are none of the contents (last seen: %d)", len(b), last)
				return
			}
			if i < last {
				c.Failf("a reader sees content %d after content %d", i, last)
			}
			last = i
			mu.Lock()
			distinct[i] = true
			mu.Unlock()
		}
	}
	if c.Idx%2 == 0 {
		rounds = 60
		if c.Thorough {
			rounds = 200
		}
		prep(rounds)
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go reader(filepath.Join(root, name), start)
		}
		for i := 1; i <= rounds; i++ {
			b := secureContent(seed, i)
			if err := file.SecureSaveFile(root, name, b); err != nil {
				c.Failf("replacing a file under readers fails: %v", err)
			}
			if s, err := os.ReadFile(filepath.Join(root, name)); err != nil || !bytes.Equal(s, b) {
				c.Failf("replacement %d reported success, but the file reads %d other bytes (%v)", i, len(s), err)
			}
			c.Add("replacements_under_readers", 1)
		}
		stop.Store(true)
		wg.Wait()
	} else {
		prep(rounds)
		for k := 1; k <= 3*rounds+6 && !c.Failed(); k++ {
			d := c.Dir()
			r := filepath.Join(d, "root")
			copyTree(root, r)
			stop.Store(false)
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go reader(filepath.Join(r, name), start)
			}
			t := c.runTraced(r, filepath.Join(d, "vlog"), []string{"-m", "delay", "-d", "15000", "-k", fmt.Sprint(k)}, "TestSecureVictim",
				fmt.Sprint("V_VSEED=", seed), fmt.Sprint("V_ROUNDS=", rounds), "V_NAME="+name, "V_ROOT="+r, fmt.Sprint("V_START=", start))
			stop.Store(true)
			wg.Wait()
			if !t.hung && t.exit != 0 {
				c.Failf("the replacing process died: %s", died(t))
			}
			Clean(d)
			if !t.hit {
				break
			}
			c.Add("held_operations", 1)
		}
	}
	c.Add("contents_seen", len(distinct))
	c.Finger("readers", rounds, start, len(distinct), sortedInts(distinct))
	c.NonTrivial()
	c.Sample(map[string]any{"readers_of_replacements": rounds, "contents_seen": len(distinct)})
}

func sortedInts(m map[int]bool) []int {
	var s []int
	for i := 0; i <= 300; i++ {
		if m[i] {
			s = append(s, i)
		}
	}
	return s
}

func init() {
	props["C20"] = def{quick: 96, deep: 1500, procs: []int{4, 2}, run: func(c *Case) {
		if c.Idx%4 == 0 || c.Idx%4 == 3 {
			secureReaders(c)
		} else {
			secureFaults(c)
		}
	}}
}
