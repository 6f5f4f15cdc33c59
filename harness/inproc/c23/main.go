// Command c23 compares the tree's performance stores and collector with a list of records.
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"common/performance"

	clientv3 "go.etcd.io/etcd/client/v3"

	"verifharness/fakeetcd"
	. "verifharness/report"
)

type rec struct {
	kind, action string
	cost         time.Duration
}

func (r rec) String() string { return fmt.Sprintf("%s/%s/%d", r.kind, r.action, int64(r.cost)) }

// kinds and actions of which some are the beginning of others
var (
	kinds   = []string{"http", "grpc", "bolt", "disk", "http2", "ht", "http-x"}
	actions = []string{performance.ActionRead, performance.ActionWrite}
)

func texts(rs []rec) []string {
	var l []string
	for _, r := range rs {
		l = append(l, r.String())
	}
	sort.Strings(l)
	return l
}

func recs(ps []*performance.Perform) []rec {
	var l []rec
	for _, p := range ps {
		l = append(l, rec{p.KindOf, p.Action, p.Cost})
	}
	return l
}

func diff(got, want []rec) string {
	g, w := texts(got), texts(want)
	cnt := map[string]int{}
	for _, s := range g {
		cnt[s]++
	}
	for _, s := range w {
		cnt[s]--
	}
	var ks []string
	for k, n := range cnt {
		if n != 0 {
			ks = append(ks, fmt.Sprintf("%s %+d", k, n))
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	if len(ks) > 8 {
		ks = append(ks[:8], "...")
	}
	return fmt.Sprintf("%d records instead of %d: %s", len(g), len(w), strings.Join(ks, ", "))
}

type store struct {
	name string
	performance.Store
	only map[string]bool // actions it keeps (nil: all)
	have []rec
}

func (s *store) match(kind, action string) (l []rec) {
	for _, r := range s.have {
		if (kind == "" || kind == r.kind) && (action == "" || action == r.action) {
			l = append(l, r)
		}
	}
	return
}

func (s *store) keep(r rec) bool { return s.only == nil || s.only[r.action] }

func cost(r *rand.Rand) time.Duration {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return time.Duration(r.Intn(2000))
	case 2:
		return time.Duration(r.Int63n(int64(time.Hour) * 24 * 365))
	case 3:
		return time.Duration(math.MaxInt64 / 4096)
	}
	return time.Duration(r.Int63n(int64(3 * time.Second)))
}

func (s *store) check(when string, kind, action string) {
	want := s.match(kind, action)
	q := fmt.Sprintf("%s store, kind %q, action %q, %s", s.name, kind, action, when)
	got, err := s.Get(kind, action)
	if err != nil && len(want) > 0 {
		Violate(s.name+":get-error", "%s: %v, although %d records are stored", q, err, len(want))
		return
	}
	if d := diff(recs(got), want); d != "" {
		Violate(s.name+":get", "%s: returned %s", q, d)
	}
	n, err := s.Size(kind, action)
	if err != nil || n != int64(len(want)) {
		Violate(s.name+":size", "%s: size %d (%v), %d records are stored", q, n, err, len(want))
	}
	sums, cnts := map[rec]time.Duration{}, map[rec]int{}
	for _, r := range want {
		k := rec{kind: r.kind, action: r.action}
		sums[k] += r.cost
		cnts[k]++
	}
	var ws, wa []rec
	for k, v := range sums {
		ws = append(ws, rec{k.kind, k.action, v})
		wa = append(wa, rec{k.kind, k.action, v / time.Duration(cnts[k])})
	}
	gs, err := s.Sum(kind, action)
	if d := diff(recs(gs), ws); d != "" {
		Violate(s.name+":sum", "%s: sums (%v) %s", q, err, d)
	}
	ga, err := s.Average(kind, action)
	if d := diff(recs(ga), wa); d != "" {
		Violate(s.name+":average", "%s: averages (%v) %s", q, err, d)
	}
	Event("queries", 4)
}

func (s *store) checkAll(when string) {
	for _, k := range append([]string{""}, kinds...) {
		for _, a := range append([]string{""}, actions...) {
			s.check(when, k, a)
		}
	}
}

func (s *store) history(r *rand.Rand, steps int) {
	// the local store keeps what the etcd store drops
	acts := append(append([]string{}, actions...), "readers", "rewrite")
	if s.only != nil {
		acts = append(acts, "other")
	}
	for i := 0; i < steps; i++ {
		At("%s history step %d", s.name, i)
		pick := func(l []string, all bool) string {
			if all && r.Intn(3) == 0 {
				return ""
			}
			return l[r.Intn(len(l))]
		}
		switch k := r.Intn(10); {
		case k < 5:
			n := []int{0, 1, 2, 3, 17, 128, 129, 300}[r.Intn(8)]
			var ps []*performance.Perform
			for j := 0; j < n; j++ {
				p := &performance.Perform{KindOf: pick(kinds, false), Action: pick(acts, false), Cost: cost(r)}
				ps = append(ps, p)
				if x := (rec{p.KindOf, p.Action, p.Cost}); s.keep(x) {
					s.have = append(s.have, x)
				}
			}
			if err := s.Put(ps); err != nil {
				Violate(s.name+":put", "%s store: putting %d records: %v", s.name, n, err)
				return
			}
			Case(fmt.Sprintf("%s put %d", s.name, n))
		case k < 7:
			kind, action := pick(kinds, true), pick(actions, true)
			if kind == "" && action == "" && r.Intn(4) > 0 {
				kind = pick(kinds, false)
			}
			var left []rec
			for _, x := range s.have {
				if (kind == "" || kind == x.kind) && (action == "" || action == x.action) {
					continue
				}
				left = append(left, x)
			}
			gone := len(s.have) - len(left)
			if err := s.Clear(kind, action); err != nil {
				Violate(s.name+":clear", "%s store: clearing kind %q, action %q (%d records): %v", s.name, kind, action, gone, err)
				return
			}
			s.have = left
			Case(fmt.Sprintf("%s clear kind=%v action=%v something=%v", s.name, kind != "", action != "", gone > 0))
			s.checkAll(fmt.Sprintf("after clearing kind %q, action %q", kind, action))
		default:
			s.check("in the history", pick(kinds, true), pick(actions, true))
			Case(s.name + " query")
		}
		if len(s.have) > 3000 {
			_ = s.Clear("", "")
			s.have = nil
		}
	}
	s.checkAll("at the end")
}

// concurrent lets several writers and readers use one store (or several on the same data).
func concurrent(name string, ss []performance.Store, r *rand.Rand, writers, batches int) {
	At("%s concurrent", name)
	if err := ss[0].Clear("", ""); err != nil {
		Violate(name+":clear", "%s store: clearing everything: %v", name, err)
		return
	}
	var mux sync.Mutex
	var want []rec
	var wg, rg sync.WaitGroup
	var stop atomic.Bool
	for w := 0; w < writers; w++ {
		wg.Add(1)
		go func(w int, rr *rand.Rand) {
			defer wg.Done()
			for b := 0; b < batches; b++ {
				var ps []*performance.Perform
				for j := 0; j <= rr.Intn(6); j++ {
					ps = append(ps, &performance.Perform{KindOf: kinds[rr.Intn(len(kinds))], Action: actions[rr.Intn(2)], Cost: cost(rr)})
				}
				if err := ss[rr.Intn(len(ss))].Put(ps); err != nil {
					Violate(name+":put", "%s store: concurrent put: %v", name, err)
					return
				}
				mux.Lock()
				want = append(want, recs(ps)...)
				mux.Unlock()
			}
		}(w, rand.New(rand.NewSource(r.Int63())))
	}
	for i := 0; i < 2; i++ {
		rg.Add(1)
		go func(rr *rand.Rand) {
			defer rg.Done()
			for !stop.Load() {
				k, a := kinds[rr.Intn(len(kinds))], actions[rr.Intn(2)]
				got, _ := ss[rr.Intn(len(ss))].Get(k, a)
				for _, g := range got {
					if g.KindOf != k || g.Action != a {
						Violate(name+":foreign", "%s store: asked for %s/%s, got %+v", name, k, a, *g)
						return
					}
				}
				_, _ = ss[0].Average("", "")
				_, _ = ss[0].Size(k, "")
				Event("concurrent queries", 3)
				time.Sleep(time.Millisecond)
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	if !Within(60*time.Second, name+":hang", name+" store: concurrent puts", wg.Wait) {
		return
	}
	stop.Store(true)
	rg.Wait()
	for i, s := range ss {
		x := &store{name: name, Store: s, have: want}
		x.checkAll(fmt.Sprintf("after %d concurrent writers (instance %d)", writers, i))
	}
	Case(fmt.Sprintf("%s concurrent %d writers %d instances", name, writers, len(ss)))
}

// recorder is a store that remembers what it was given and can fail or stall.
type recorder struct {
	performance.Store
	mux   sync.Mutex
	got   []rec
	calls int
	fail  func(call int) bool
	stall time.Duration
}

func (s *recorder) Put(ps []*performance.Perform) error {
	time.Sleep(s.stall)
	s.mux.Lock()
	defer s.mux.Unlock()
	s.calls++
	if s.fail != nil && s.fail(s.calls) {
		return errors.New("store fails")
	}
	s.got = append(s.got, recs(ps)...)
	return nil
}

func collector(r *rand.Rand, i int) {
	n, workers := 1+r.Intn(400), 1+r.Intn(8)
	cfg := &performance.Config{Enable: true, Store: performance.Local, MaxInMemory: 1 + r.Intn(60), FlushWhenReached: r.Intn(2) == 0,
		FlushInterval: []time.Duration{time.Hour, 2 * time.Millisecond}[r.Intn(2)]}
	failing := r.Intn(3) == 0
	rc := &recorder{Store: performance.NoneStore(), stall: time.Duration(r.Intn(3)) * 100 * time.Microsecond}
	if failing {
		rc.fail = func(c int) bool { return c%2 == 1 && c < 40 }
	}
	performance.SetLocalStore(rc)
	c := performance.NewCollector(cfg)
	async := r.Intn(2) == 0
	what := fmt.Sprintf("%d samples of %d threads, max-in-memory %d, flush-when-reached %v, flush-interval %v, failing store %v, async %v", n, workers, cfg.MaxInMemory, cfg.FlushWhenReached, cfg.FlushInterval, failing, async)
	At("collector %d: %s", i, what)
	var wg sync.WaitGroup
	var mux sync.Mutex
	var given []rec
	t0 := time.Now()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for j := w; j < n; j += workers {
				x := rec{kinds[j%len(kinds)], actions[j%2], time.Duration(j)} // every sample is a different one
				if async {
					c.PutAsync(x.action, x.kind, x.cost)
				} else {
					_ = c.Put(x.action, x.kind, x.cost)
				}
				mux.Lock()
				given = append(given, x)
				mux.Unlock()
			}
		}(w)
	}
	if !Within(60*time.Second, "collector:hang", "collecting: "+what, wg.Wait) {
		return
	}
	if async { // they end in the background
		time.Sleep(20 * time.Millisecond)
	}
	spent := time.Since(t0)
	var err error
	if !Within(60*time.Second, "collector:hang", "closing: "+what, func() {
		for k := 0; k < 100; k++ { // a failing store is tried again
			if err = c.Close(); err == nil {
				break
			}
		}
	}) {
		return
	}
	if err != nil {
		Violate("collector:close", "closing the collector fails for ever: %v (%s)", err, what)
		return
	}
	rc.mux.Lock()
	defer rc.mux.Unlock()
	seen := map[rec]int{}
	for _, x := range rc.got {
		seen[x]++
		if seen[x] > 1 {
			Violate("collector:twice", "sample %v was stored %d times (%s)", x, seen[x], what)
			return
		}
	}
	for _, x := range given {
		delete(seen, x)
	}
	for x := range seen {
		Violate("collector:invented", "sample %v was never given (%s)", x, what)
		return
	}
	lossy := !cfg.FlushWhenReached // the oldest may go once more than the maximum wait
	if async && spent > 0 {
		lossy = lossy || false
	}
	if !lossy && len(rc.got) != len(given) || len(given) <= cfg.MaxInMemory && len(rc.got) != len(given) || len(rc.got) < minInt(len(given), cfg.MaxInMemory) {
		if async && eventualCount(c, rc, len(given)) {
			return
		}
		Violate("collector:lost", "%d of %d samples were stored (%s)", len(rc.got), len(given), what)
	}
	Case(fmt.Sprintf("collector flush=%v interval=%v fails=%v async=%v over=%v", cfg.FlushWhenReached, cfg.FlushInterval, failing, async, n > cfg.MaxInMemory))
	Event("samples", int64(n))
}

// eventualCount gives samples that were still on their way when the collector was closed a chance.
func eventualCount(c performance.Collector, rc *recorder, n int) bool {
	rc.mux.Unlock()
	defer rc.mux.Lock()
	for i := 0; i < 100; i++ {
		time.Sleep(20 * time.Millisecond)
		_ = c.Close()
		rc.mux.Lock()
		k := len(rc.got)
		rc.mux.Unlock()
		if k == n {
			return true
		}
	}
	return false
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// copyOf returns a store on a copy of a local store's file, which is what a restarted server would open.
func copyOf(path string) (performance.Store, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	g, err := os.Create(path + ".copy")
	if err != nil {
		return nil, err
	}
	if _, err = io.Copy(g, f); err != nil {
		return nil, err
	}
	g.Close()
	return performance.NewLocalStore(path + ".copy"), nil
}

func main() {
	dir, err := os.MkdirTemp(".", "perf")
	if err != nil {
		panic(err)
	}
	es := fakeetcd.New()
	addr, err := es.Start("127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	dial := func() *clientv3.Client {
		c, err := clientv3.New(clientv3.Config{Endpoints: []string{addr}, DialTimeout: 5 * time.Second})
		if err != nil {
			panic(err)
		}
		return c
	}
	only := map[string]bool{performance.ActionRead: true, performance.ActionWrite: true}
	c1, c2 := dial(), dial()
	e1, e2 := performance.NewEtcdStore(c1, actions), performance.NewEtcdStore(c2, actions)
	rounds := Pick(6, 40)
	for i := 0; i < rounds; i++ {
		path := fmt.Sprintf("%s/l%d.perf", dir, i)
		ls := &store{name: "local", Store: performance.NewLocalStore(path)}
		Safe("local:panic", "local store history", func() { ls.history(Rand(int64(i)), 60) })
		Safe("local:panic", "copy of the local store", func() {
			if c, err := copyOf(path); err != nil || c == nil {
				Violate("local:reopen", "the stored file does not open again: %v", err)
			} else {
				x := &store{name: "local", Store: c, have: ls.have}
				x.checkAll("in the reopened file")
				Case("local reopened")
			}
		})
		Safe("local:panic", "local store concurrent", func() { concurrent("local", []performance.Store{ls.Store}, Rand(int64(1000+i)), 6, 8) })

		_ = e1.Clear("", "")
		et := &store{name: "etcd", Store: e1, only: only}
		Safe("etcd:panic", "etcd store history", func() { et.history(Rand(int64(2000+i)), 60) })
		Safe("etcd:panic", "etcd store concurrent", func() { concurrent("etcd", []performance.Store{e1, e2}, Rand(int64(3000+i)), 6, 5) })
	}
	// stores that begin at the same time put their first samples at the same time
	for i := 0; i < Pick(60, 600); i++ {
		_ = e1.Clear("", "")
		pair := []performance.Store{performance.NewEtcdStore(c1, actions), performance.NewEtcdStore(c2, actions)}
		var wg sync.WaitGroup
		for k, st := range pair {
			wg.Add(1)
			go func(k int, st performance.Store) {
				defer wg.Done()
				if err := st.Put([]*performance.Perform{{KindOf: "http", Action: performance.ActionRead, Cost: time.Duration(k + 1)}}); err != nil {
					Violate("etcd:put", "put fails: %v", err)
				}
			}(k, st)
		}
		wg.Wait()
		l, err := e1.Get("http", performance.ActionRead)
		if err != nil || len(l) != 2 {
			Violate("etcd:lost", "of two samples two new stores put at the same time there are %d (%v)", len(l), err)
			break
		}
		Event("simultaneous first samples", 2)
	}
	// other keys are left alone
	es.Put("performance-data-of-others", "x")
	es.Put("other/key", "x")
	_ = e1.Clear("", "")
	for _, k := range []string{"performance-data-of-others", "other/key"} {
		if _, ok := es.Get(k); !ok {
			Violate("etcd:foreign-key", "clearing the performance records removed the key %s", k)
		}
	}
	for i := 0; i < Pick(120, 1200); i++ {
		Safe("collector:panic", "collector", func() { collector(Rand(int64(5000+i)), i) })
	}
	// the etcd store keeps the newest records once it is full
	At("etcd store full")
	Safe("etcd:panic", "full etcd store", func() {
		const full = 100_000
		var ps []*performance.Perform
		for i := 0; i < full-50; i++ {
			ps = append(ps, &performance.Perform{KindOf: "http", Action: actions[i/100%2], Cost: time.Duration(i)})
		}
		if err := e1.Put(ps); err != nil {
			Violate("etcd:put", "putting %d records: %v", len(ps), err)
			return
		}
		for b := 0; b < 4; b++ {
			var more []*performance.Perform
			for i := 0; i < 200; i++ {
				more = append(more, &performance.Perform{KindOf: "grpc", Action: actions[i%2], Cost: time.Duration(b*1000 + i)})
			}
			if err := e2.Put(more); err != nil {
				Violate("etcd:full", "putting 200 records into the full store: %v", err)
				return
			}
			n, err := e1.Size("", "")
			if err != nil || n > full || n < full-200 {
				Violate("etcd:full", "the full store holds %d records (%v) after 200 more, at most %d are kept", n, err, full)
			}
			if n, err = e1.Size("grpc", ""); err != nil || n != int64(200*(b+1)) {
				Violate("etcd:full", "%d of the %d newest records are left in the full store (%v)", n, 200*(b+1), err)
			}
			Case(fmt.Sprintf("etcd full, batch %d", b))
		}
		got, err := e1.Get("http", "")
		if err != nil {
			Violate("etcd:full", "reading the full store: %v", err)
			return
		}
		oldest := time.Duration(math.MaxInt64)
		for _, p := range got {
			if p.Cost < oldest {
				oldest = p.Cost
			}
		}
		if int(oldest) != full-50-len(got) {
			Violate("etcd:full", "%d of the first %d records are left, the oldest is number %d: not the oldest were removed", len(got), full-50, oldest)
		}
	})
	Done()
}
