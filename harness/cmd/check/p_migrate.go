package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/cluster"
)

// C14: hash slots are moved between metadata groups while names in them are written, numbers are handed out and
// servers or etcd fail. Names, versions, numbers, times and buckets are compared with what they were, and the owner of
// every slot with what the migration was answered.

func init() { props["C14"] = c14 }

// cfgBucket is a bucket whose settings change all the time.
type cfgBucket struct {
	acked   int
	last    int
	unacked map[int]bool
}

type moveWorld struct {
	*slotWorld
	admin  Admin
	rng    *rand.Rand
	probes map[string]int // names whose newest versions are removed -> the highest number given out
	gone   map[string]bool
	todo   []string        // names to be removed
	still  map[string]bool // names nobody touches
	hot    []string        // names that get versions all the time
	cfgs   map[string]*cfgBucket
	had    map[int]bool // groups that were given slots
	broken map[int]bool // groups that a failed migration may have left something with
	shed   []*shedding
}

// shedding is a name whose versions are removed one after another.
type shedding struct {
	id         string
	next, last int
	trying     int // removed up to this one, or maybe
}

// ranges returns the slots of a group as the longest ranges.
func (w *slotWorld) ranges(i int) (r [][2]int) {
	for s := 0; s < nSlots; s++ {
		if w.own[s] != i {
			continue
		}
		if n := len(r); n > 0 && r[n-1][1] == s {
			r[n-1][1]++
		} else {
			r = append(r, [2]int{s, s + 1})
		}
	}
	return
}

// moved notes that slots have another owner now.
func (w *moveWorld) moved(slots [][2]int, to int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range slots {
		for s := p[0]; s < p[1]; s++ {
			w.own[s] = to
		}
	}
	for i, g := range w.groups {
		g.slots = w.ranges(i)
	}
	w.had[to] = true
}

func (w *moveWorld) owner(id string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.own[slotOf(id)]
}

// lead returns the server that serves a group.
func (w *moveWorld) lead(i int) *cluster.Node {
	g := w.groups[i]
	if len(g.nodes) == 1 {
		return g.nodes[0]
	}
	if n := w.leaderOf(g); n != nil {
		return n
	}
	return g.nodes[0]
}

// some picks slots of a group: all, a range, parts of ranges, a single slot, or around a name.
func (w *moveWorld) some(i int) (r [][2]int, what string) {
	l := w.ranges(i)
	rng := w.rng
	part := func(p [2]int) [2]int {
		a := p[0] + rng.Intn(p[1]-p[0])
		return [2]int{a, a + 1 + rng.Intn(p[1]-a)}
	}
	switch rng.Intn(6) {
	case 0:
		return l, "all slots"
	case 1:
		return [][2]int{l[rng.Intn(len(l))]}, "a range"
	case 2:
		p := l[rng.Intn(len(l))]
		s := []int{p[0], p[1] - 1, p[0] + rng.Intn(p[1]-p[0])}[rng.Intn(3)]
		return [][2]int{{s, s + 1}}, "one slot"
	default:
		for _, p := range l {
			if rng.Intn(2) == 0 {
				q := part(p)
				r = append(r, q)
				if q[1]+1 < p[1] && rng.Intn(2) == 0 {
					r = append(r, part([2]int{q[1] + 1, p[1]}))
				}
			}
		}
		if len(r) == 0 {
			r = append(r, part(l[rng.Intn(len(l))]))
		}
		rng.Shuffle(len(r), func(a, b int) { r[a], r[b] = r[b], r[a] })
		return r, "parts of ranges"
	}
}

// migrate asks for a migration and returns "ok", "refused" or "error" with a text.
func (w *moveWorld) migrate(src, dst *cluster.Node, slots []string, viaAdmin bool) (string, string) {
	w.x.Event("migrations_asked", 1)
	defer w.watchConf(src, dst)()
	if viaAdmin {
		r := w.admin.json("POST", "/metadata/migration", M{"srcServerId": src.ID, "destServerId": dst.ID, "slots": slots})
		switch {
		case r.Err == nil && r.Code/100 == 2:
			return "ok", r.String()
		case r.Err == nil && r.Code/100 == 4:
			return "refused", r.String()
		}
		return "error", r.String()
	}
	host, port, _ := net.SplitHostPort(dst.Addr())
	cmd := exec.Command(filepath.Join(w.x.Bins, "c14"), append([]string{"migrate", src.Addr(), host, port}, slots...)...)
	var e bytes.Buffer
	cmd.Stderr = &e
	out, err := cmd.Output()
	var res struct{ How, Text string }
	if err != nil || json.Unmarshal(out, &res) != nil {
		panic(infra{fmt.Errorf("c14 migrate: %v %s%s", err, out, e.String())})
	}
	return res.How, res.Text
}

// watchConf reads the configuration files of servers over and over: a server that is killed at that moment starts
// again with what is read, so it must be a whole configuration at any time. It returns what ends it.
func (w *moveWorld) watchConf(ns ...*cluster.Node) func() {
	var stop atomic.Bool
	var wg sync.WaitGroup
	for _, n := range ns {
		if n.Kind != "metaserver" || n.Conf == "" { // asked for by mistake
			continue
		}
		wg.Add(1)
		go func(n *cluster.Node) {
			defer wg.Done()
			reads, last := int64(0), ""
			for !stop.Load() {
				b, err := os.ReadFile(n.Conf)
				reads++
				if err == nil && string(b) == last {
					continue
				}
				last = string(b)
				for _, part := range []string{fmt.Sprint(n.Port), "data-dir", "hash-slot", "slots", "prepare-timeout", w.c.Group} {
					if err != nil || !strings.Contains(last, part) {
						w.x.Violate("configuration", "while slots are moved, the configuration file of %s is at a moment %d bytes without %q (%v): a crash would lose it (%s)", n.ID, len(b), part, err, w.history())
						return
					}
				}
			}
			w.x.Event("configurations_read", reads)
		}(n)
	}
	return func() {
		time.Sleep(30 * time.Millisecond) // it is saved in the background
		stop.Store(true)
		wg.Wait()
	}
}

// nameState is what a server tells about a name.
type nameState struct {
	create, update int64
	first, last    int
	vers           map[uint64]MVersion
}

func nameOn(n *cluster.Node, id string) (st nameState, r Resp) {
	m, r := MS{n}.GetMeta(id, -1, true)
	if r.Err != nil || r.Code != 200 {
		return st, r
	}
	st = nameState{create: m.CreateTime, update: m.UpdateTime, first: m.FirstVersion, last: m.LastVersion, vers: map[uint64]MVersion{}}
	vs, total, r := MS{n}.ListVer(id, 1, 1000)
	if r.Err != nil || r.Code != 200 && r.Code != 404 {
		return st, r
	}
	if total != len(vs) {
		r.Err = fmt.Errorf("%d versions are listed, %d counted", len(vs), total)
		return st, r
	}
	for _, v := range vs {
		st.vers[v.Sequence] = v
	}
	return st, Resp{Code: 200}
}

// states returns what the leaders tell about the names they own, and about the buckets.
func (w *moveWorld) states() (map[string]nameState, map[string]string) {
	names, bkts := map[string]nameState{}, map[string]string{}
	var mu sync.Mutex
	for i := range w.groups {
		if len(w.ranges(i)) == 0 {
			continue
		}
		n := w.lead(i)
		have, ok := listed(w.x, n)
		if !ok {
			return names, bkts
		}
		var ids []string
		for id := range have {
			if w.owner(id) == i {
				ids = append(ids, id)
			}
		}
		parallel(len(ids), 8, func(k int) {
			if st, r := nameOn(n, ids[k]); r.Err == nil && r.Code == 200 {
				mu.Lock()
				names[ids[k]] = st
				mu.Unlock()
			}
		})
		l, _, _ := MS{n}.ListBuckets("", 10000)
		for _, b := range l {
			if _, r := (MS{n}).GetBucket(b.Name); w.owner(b.Name) == i && r.Code == 200 {
				bkts[b.Name] = string(r.Body)
			}
		}
	}
	return names, bkts
}

// unchanged compares names and buckets with what they were before.
func (w *moveWorld) unchanged(what string, names map[string]nameState, bkts map[string]string) {
	x := w.x
	var ids []string
	for id := range names {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	parallel(len(ids), 8, func(k int) {
		id := ids[k]
		w.mu.Lock()
		touched := !w.still[id]
		w.mu.Unlock()
		removed := func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.gone[id] || w.acked[id] == nil && w.maybe[id]
		}
		if removed() {
			return
		}
		i := w.owner(id)
		n := w.lead(i)
		was := names[id]
		var diff string
		if !eventually(10*time.Second, func() bool {
			diff = ""
			st, r := nameOn(n, id)
			if removed() { // in the meantime
				return true
			}
			if r.Err != nil || r.Code != 200 {
				diff = r.String()
				return false
			}
			for seq, v := range was.vers {
				if w.shedVersion(id, int(seq)) {
					continue
				}
				if g, ok := st.vers[seq]; !ok || !reflect.DeepEqual(g, v) {
					diff = fmt.Sprintf("version %d was %+v and is %+v (there: %v)", seq, v, g, ok)
					return false
				}
			}
			for seq, v := range was.vers {
				// it is found by its content, too
				if w.shedVersion(id, int(seq)) {
					continue
				}
				vs, r := MS{n}.ByHash(v.Hash)
				found := false
				for _, g := range vs {
					found = found || reflect.DeepEqual(g, v)
				}
				if removed() || w.shedVersion(id, int(seq)) {
					return true
				}
				if !found {
					diff = fmt.Sprintf("version %d is not among the %d versions of content %s: %s", seq, len(vs), v.Hash, r)
					return false
				}
				x.Event("versions_found_by_content", 1)
				break
			}
			if st.create != was.create {
				diff = fmt.Sprintf("it was created at %d, now at %d", was.create, st.create)
			} else if !touched && (st.update != was.update || len(st.vers) != len(was.vers) || st.first != was.first || st.last != was.last) {
				diff = fmt.Sprintf("it was %+v and is %+v", was, st)
			}
			return diff == ""
		}) {
			x.Violate("changed", "%s: %q (slot %d, now of %s): %s (%s)", what, id, slotOf(id), w.groups[i].store, diff, w.history())
		}
		x.Event("names_compared", 1)
	})
	for b, was := range bkts {
		if w.cfgs[b] != nil {
			continue
		}
		var r Resp
		if !eventually(10*time.Second, func() bool {
			_, r = MS{w.lead(w.owner(b))}.GetBucket(b)
			return r.Code == 200 && string(r.Body) == was
		}) {
			x.Violate("bucket-changed", "%s: the bucket %q (slot %d) was %s and is %s (%s)", what, b, slotOf(b), was, r, w.history())
		}
		x.Event("buckets_compared", 1)
	}
	for b, c := range w.cfgs {
		w.mu.Lock()
		acked, un := c.acked, map[int]bool{}
		for k := range c.unacked {
			un[k] = true
		}
		w.mu.Unlock()
		var got Bucket
		var r Resp
		var last int
		if !eventually(10*time.Second, func() bool {
			got, r = w.apis[0].GetBucket(b)
			w.mu.Lock()
			last = c.last
			w.mu.Unlock()
			return r.Code == 200 && (got.VersionRemains >= acked && got.VersionRemains <= last || un[got.VersionRemains])
		}) {
			x.Violate("bucket-lost", "%s: the bucket %q (slot %d) has version-remains %d (%s), want the acknowledged %d up to %d (%s)", what, b, slotOf(b), got.VersionRemains, r, acked, last, w.history())
		}
	}
	w.removedVersions(what)
	w.mu.Lock()
	var gone []string
	for id := range w.gone {
		gone = append(gone, id)
	}
	w.mu.Unlock()
	for _, id := range gone {
		for k := range w.apis {
			bucket, name, _ := strings.Cut(id, "/")
			var r Resp
			if !eventually(10*time.Second, func() bool {
				_, r = w.apis[k].Meta(bucket, name, 0)
				return r.Code == 404
			}) {
				x.Violate("resurrected", "%s: the removed %q (slot %d) is answered %s (%s)", what, id, slotOf(id), r, w.history())
			}
		}
		x.Event("removed_names_asked", 1)
	}
}

// numbers checks that versions of a name get numbers no version had before.
func (w *moveWorld) numbers(what string) {
	for id, last := range w.probes {
		n := w.lead(w.owner(id))
		var num int
		var r Resp
		if !eventually(30*time.Second, func() bool {
			num, r = MS{n}.AddVer(id, MVersion{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: 7, Hash: "h" + id, Locate: []string{"127.0.0.1:9"}})
			return r.Err == nil && r.Code/100 == 2
		}) {
			w.x.Violate("number", "%s: a version of %q (slot %d) can not be added by %s: %s (%s)", what, id, slotOf(id), n.ID, r, w.history())
			return
		}
		w.x.Event("numbers_given", 1)
		if num <= last {
			w.x.Violate("number", "%s: a version of %q (slot %d) got the number %d, but %d was given out before (%s)", what, id, slotOf(id), num, last, w.history())
		}
		w.probes[id] = num
		// there is always a number above those which are left
		_, r2 := MS{n}.AddVer(id, MVersion{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: 7, Hash: "h" + id, Locate: []string{"127.0.0.1:9"}})
		if r2.Code/100 == 2 {
			w.probes[id] = num + 1
			_ = MS{n}.DelVer(id, num+1)
		}
	}
}

// churn writes until it is told to stop.
func (w *moveWorld) churn(stop *atomic.Bool) *sync.WaitGroup {
	var wg sync.WaitGroup
	run := func(i int, f func(rng *rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(w.x.Seed*77 + int64(i)))
			for !stop.Load() {
				f(rng)
				time.Sleep(time.Duration(5+rng.Intn(10)) * time.Millisecond)
			}
		}()
	}
	for i := 0; i < 2; i++ {
		run(i, func(rng *rand.Rand) { // new names
			w.put(w.apis[rng.Intn(2)], "b", w.nameIn("b", func(int) bool { return true }), 1+rng.Intn(20))
		})
		k := i
		run(10+i, func(rng *rand.Rand) { // new versions, one after another for each name
			id := w.hot[rng.Intn(len(w.hot)/2)*2+k]
			_, name, _ := strings.Cut(id, "/")
			w.put(w.apis[rng.Intn(2)], "b", name, 1000+int(w.next.Add(1)))
		})
	}
	run(20, func(rng *rand.Rand) { // settings of buckets
		for b, c := range w.cfgs {
			w.mu.Lock()
			c.last++
			v := c.last
			w.mu.Unlock()
			r := w.apis[rng.Intn(2)].UpdateBucket(Bucket{Name: b, Versioning: true, VersionRemains: v})
			w.mu.Lock()
			if r.Err == nil && r.Code/100 == 2 {
				c.acked = v
				w.x.Event("settings_acknowledged", 1)
			} else {
				c.unacked[v] = true
			}
			w.mu.Unlock()
		}
	})
	run(21, func(rng *rand.Rand) { // removals
		w.mu.Lock()
		if len(w.todo) == 0 || rng.Intn(8) > 0 {
			w.mu.Unlock()
			return
		}
		id := w.todo[0]
		delete(w.acked, id)
		w.maybe[id] = true
		n := w.groups[w.own[slotOf(id)]]
		w.mu.Unlock()
		for _, m := range n.nodes {
			if r := (MS{m}).DelMeta(id); r.Err == nil && r.Code/100 == 2 {
				w.mu.Lock()
				w.gone[id] = true
				delete(w.maybe, id)
				w.todo = w.todo[1:]
				w.mu.Unlock()
				w.x.Event("names_removed", 1)
				return
			}
		}
	})
	run(22, func(rng *rand.Rand) { // removals of versions, by both protocols
		if rng.Intn(4) > 0 || len(w.shed) == 0 {
			return
		}
		v := w.shed[rng.Intn(len(w.shed))]
		if v.next >= v.last {
			return
		}
		w.mu.Lock()
		v.trying = v.next
		n := w.groups[w.own[slotOf(v.id)]]
		w.mu.Unlock()
		for _, m := range n.nodes {
			var ok bool
			if rng.Intn(3) == 0 {
				r := MS{m}.DelVer(v.id, v.next)
				ok = r.Err == nil && r.Code/100 == 2
			} else {
				out, _ := exec.Command(filepath.Join(w.x.Bins, "c14"), "delver", m.Addr(), v.id, fmt.Sprint(v.next)).Output()
				ok = strings.TrimSpace(string(out)) == "ok"
			}
			if ok {
				w.mu.Lock()
				v.next++
				w.mu.Unlock()
				w.x.Event("versions_removed", 1)
				return
			}
		}
	})
	return &wg
}

// shedVersion tells whether this version was removed, or maybe.
func (w *moveWorld) shedVersion(id string, seq int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, v := range w.shed {
		if v.id == id {
			return seq <= v.trying
		}
	}
	return false
}

// removedVersions checks that versions whose removal was acknowledged do not come back.
func (w *moveWorld) removedVersions(what string) {
	for _, v := range w.shed {
		w.mu.Lock()
		next := v.next
		w.mu.Unlock()
		n := w.lead(w.owner(v.id))
		var r Resp
		var seqs []uint64
		if !eventually(10*time.Second, func() bool {
			var l []MVersion
			l, _, r = MS{n}.ListVer(v.id, 1, 1000)
			seqs = nil
			for _, g := range l {
				seqs = append(seqs, g.Sequence)
			}
			return r.Err == nil && r.Code == 200 && len(l) > 0 && int(seqs[0]) >= next
		}) {
			w.x.Violate("version-resurrected", "%s: versions of %q (slot %d, now of %s) below %d were removed, but there are %v: %s (%s)", what, v.id, slotOf(v.id), n.ID, next, seqs, r, w.history())
			return
		}
		w.x.Event("removed_versions_asked", int64(next-1))
	}
}

// fault disturbs a migration that is under way.
func (w *moveWorld) fault(kind string, src, dst int) (undo func()) {
	s, d := w.lead(src), w.lead(dst)
	restart := func(n *cluster.Node) func() {
		return func() {
			time.Sleep(time.Duration(w.rng.Intn(1500)) * time.Millisecond)
			w.start(n)
		}
	}
	switch kind {
	case "source killed":
		s.Kill9()
		return restart(s)
	case "target killed":
		d.Kill9()
		return restart(d)
	case "both killed":
		s.Kill9()
		d.Kill9()
		return func() { restart(s)(); restart(d)() }
	case "source stopped":
		s.Stop(70 * time.Second)
		return restart(s)
	case "target stopped":
		d.Stop(70 * time.Second)
		return restart(d)
	case "source suspended", "target suspended":
		n := s
		if kind[0] == 't' {
			n = d
		}
		n.Signal(syscall.SIGSTOP)
		time.Sleep(time.Duration(500+w.rng.Intn(6000)) * time.Millisecond)
		n.Signal(syscall.SIGCONT)
	case "etcd fails":
		w.c.Etcd.FailKV.Store(true)
		time.Sleep(time.Duration(200+w.rng.Intn(3000)) * time.Millisecond)
		w.c.Etcd.FailKV.Store(false)
	case "etcd down":
		w.c.Etcd.Down()
		time.Sleep(time.Duration(200+w.rng.Intn(2000)) * time.Millisecond)
		if err := w.c.Etcd.Up(); err != nil {
			panic(infra{err})
		}
	case "answers of etcd lost":
		w.c.Etcd.LoseTxn.Store(int64(1 + w.rng.Intn(3)))
		return func() { w.c.Etcd.LoseTxn.Store(0) }
	}
	return func() {}
}

func (w *moveWorld) check(what string) bool {
	if !w.settle(60 * time.Second) {
		return false
	}
	ok := w.compare("after " + what)
	w.read("after "+what, w.rng, 40)
	return ok && !w.x.Violated()
}

// whereabouts returns the group that etcd says owns all of the slots, or -1.
func (w *moveWorld) whereabouts(slots [][2]int) int {
	recs, _, err := w.slotRecords()
	if err != nil {
		return -1
	}
	at := -1
	for i, g := range w.groups {
		n, all := 0, 0
		for _, p := range slots {
			all += p[1] - p[0]
			for _, t := range recs[g.store] {
				var a, b int
				if _, err := fmt.Sscanf(t, "%d-%d", &a, &b); err == nil {
					for s := p[0]; s < p[1]; s++ {
						if a <= s && s < b {
							n++
						}
					}
				}
			}
		}
		if n > 0 && (n != all || at >= 0) {
			return -1
		} else if n > 0 {
			at = i
		}
	}
	if at >= 0 {
		w.moved(slots, at)
	}
	return at
}

// move moves slots from one group to another, maybe disturbed, and checks the outcome.
func (w *moveWorld) move(src, dst int, kind string) bool {
	x := w.x
	slots, what := w.some(src)
	what = fmt.Sprintf("%s of %d to %d servers", what, len(w.groups[src].nodes), len(w.groups[dst].nodes))
	var parting []string // will be removed between a migration that fails and its repetition
	for i := 0; kind != "" && i < 8; i++ {
		name := w.nameIn("b", func(slot int) bool {
			for _, r := range slots {
				if slot >= r[0] && slot < r[1] {
					return true
				}
			}
			return false
		})
		if r := w.put(w.apis[i%2], "b", name, 9); r.Err == nil && r.Code/100 == 2 {
			parting = append(parting, "b/"+name)
		}
	}
	names, bkts := w.states()
	viaAdmin := w.rng.Intn(3) > 0
	w.did("%v from %s to %s (%s)", rangeTexts(slots), w.lead(src).ID, w.lead(dst).ID, kind)
	type res struct{ how, text string }
	done := make(chan res, 1)
	s, d := w.lead(src), w.lead(dst)
	go func() {
		how, text := w.migrate(s, d, rangeTexts(slots), viaAdmin)
		done <- res{how, text}
	}()
	var r res
	undo := func() {}
	if kind != "" {
		time.Sleep(time.Duration(w.rng.Intn([]int{60, 400}[w.rng.Intn(2)])) * time.Millisecond)
		undo = w.fault(kind, src, dst)
	}
	select {
	case r = <-done:
	case <-time.After(80 * time.Second):
		if kind != "" && len(done) == 0 {
			x.Violate("endless", "a migration of %v from %s to %s (%s) does not end within 80 s (%s)", rangeTexts(slots), s.ID, d.ID, kind, w.history())
			undo()
			return false
		}
		r = <-done
	}
	undo()
	x.Event("migrations "+r.how, 1)
	x.Case(fmt.Sprintf("%s, %s -> %s", what, kind, r.how))
	w.did("answered %s %s", r.how, r.text)
	if kind == "" {
		if r.how != "ok" {
			x.Violate("refused", "undisturbed, the migration of %v from %s to %s is answered %s: %s (%s)", rangeTexts(slots), s.ID, d.ID, r.how, r.text, w.history())
			return false
		}
		w.moved(slots, dst)
	} else {
		if !strings.HasPrefix(kind, "etcd") && !strings.HasPrefix(kind, "answers") {
			w.broken[src], w.broken[dst] = true, true
			w.leftover[src], w.leftover[dst] = true, true
		}
		// the slots are with one of them, all together
		at := -1
		if !eventually(60*time.Second, func() bool { at = w.whereabouts(slots); return at >= 0 }) {
			x.Violate("torn", "60 s after a migration of %v from %s to %s (%s, answered %s) %s (%s)", rangeTexts(slots), s.ID, d.ID, kind, r.how, w.slotsDiffer(), w.history())
			return false
		}
		if r.how == "ok" && at != dst || r.how == "refused" && at != src {
			x.Violate("answer", "the migration of %v from %s to %s (%s) is answered %s %s, but the slots are with %s (%s)", rangeTexts(slots), s.ID, d.ID, kind, r.how, r.text, w.groups[at].store, w.history())
		}
		x.Case(fmt.Sprintf("%s: %s, at the target: %v", kind, r.how, at == dst))
	}
	if !w.check("moving " + what + " " + kind) {
		return false
	}
	w.unchanged("after moving "+what+" "+kind, names, bkts)
	w.numbers("after moving " + what + " " + kind)
	if kind != "" && !x.Violated() && w.own[slots[0][0]] == src && len(w.ranges(src)) > 0 {
		for _, id := range parting {
			w.mu.Lock()
			delete(w.acked, id)
			w.maybe[id] = true
			w.mu.Unlock()
			if r := (MS{w.lead(src)}).DelMeta(id); r.Err == nil && r.Code/100 == 2 {
				w.mu.Lock()
				w.gone[id] = true
				delete(w.maybe, id)
				w.mu.Unlock()
				x.Event("names_removed_before_repetition", 1)
			}
		}
		// it goes on as soon as everyone has recovered
		var how, text string
		if !eventually(40*time.Second, func() bool {
			how, text = w.migrate(w.lead(src), w.lead(dst), rangeTexts(slots), viaAdmin)
			return how == "ok"
		}) {
			x.Violate("repeat", "40 s after a migration failed (%s) its repetition is answered %s: %s (%s)", kind, how, text, w.history())
			return false
		}
		w.did("repeated")
		w.moved(slots, dst)
		if !w.check("repeating to move " + what) {
			return false
		}
		w.unchanged("after repeating to move "+what, names, bkts)
		x.Event("migrations repeated", 1)
	}
	return !x.Violated()
}

// invalid asks for what has to be refused.
func (w *moveWorld) invalid() {
	x := w.x
	src := w.rng.Intn(len(w.groups))
	for len(w.ranges(src)) == 0 {
		src = (src + 1) % len(w.groups)
	}
	dst := (src + 1) % len(w.groups)
	own := w.ranges(src)
	a := own[0]
	other := [2]int{nSlots, nSlots + 1}
	for i := range w.groups {
		if l := w.ranges(i); i != src && len(l) > 0 {
			other = l[0]
		}
	}
	text := func(a, b int) string { return fmt.Sprintf("%d-%d", a, b) }
	good := text(a[0], a[1])
	nobody := &cluster.Node{ID: "nobody", Port: 1}
	type req struct {
		what     string
		src, dst *cluster.Node
		slots    []string
	}
	s, d := w.lead(src), w.lead(dst)
	reqs := []req{
		{"slots of another", s, d, []string{text(other[0], other[1])}},
		{"own and another's slots", s, d, []string{good, text(other[0], other[1])}},
		{"slots beyond the last", s, d, []string{text(nSlots, nSlots+5)}},
		{"slots beyond the own", s, d, []string{text(a[0], nSlots+1)}},
		{"no slots", s, d, nil},
		{"malformed slots", s, d, []string{[]string{"abc", "7", "7-5", "-3-5", "1-2-3", "", "5-5"}[w.rng.Intn(7)]}},
		{"an object server", s, w.c.ByKind("objectserver")[0], []string{good}},
		{"nobody", s, nobody, []string{good}},
		{"itself", s, s, []string{good}},
	}
	for _, g := range w.groups {
		for _, n := range g.nodes {
			if len(g.nodes) > 1 && n != w.leaderOf(g) {
				reqs = append(reqs, req{"from a follower", n, d, []string{good}}, req{"to a follower", s, n, []string{good}})
			}
		}
	}
	w.rng.Shuffle(len(reqs), func(i, j int) { reqs[i], reqs[j] = reqs[j], reqs[i] })
	for _, q := range reqs[:len(reqs)*2/3] {
		if q.dst != q.src && q.dst.Kind == "metaserver" && q.what == "to a follower" && w.groupOf(q.dst) == src {
			continue
		}
		w.did("%v from %s to %s (%s)", q.slots, q.src.ID, q.dst.ID, q.what)
		how, txt := w.migrate(q.src, q.dst, q.slots, false)
		x.Case(fmt.Sprintf("%s -> %s", q.what, how))
		x.Event("invalid_migrations", 1)
		if how == "ok" {
			x.Violate("invalid:"+q.what, "the migration of %v from %s to %s (%s) is answered %s %s (%s)", q.slots, q.src.ID, q.dst.ID, q.what, how, txt, w.history())
			return
		}
		if diff := w.slotsDiffer(); diff != "" {
			x.Violate("invalid:"+q.what, "after the refused migration of %v from %s to %s (%s): %s (%s)", q.slots, q.src.ID, q.dst.ID, q.what, diff, w.history())
			return
		}
	}
	// who receives takes only what it agreed to
	to := -1
	from := w.own[slotOf("b/abused")]
	for i := range w.groups {
		if i != from && len(w.ranges(i)) > 0 {
			to = i
		}
	}
	if to >= 0 {
		sl := slotOf("b/abused")
		x.inproc("c14", 2*time.Minute, "abuse", w.lead(to).Addr(), w.groups[from].store, text(sl, sl+1))
	}
	w.check("invalid migrations")
}

// leftovers ends a server while it receives a name, and moves the slot of that name there then.
func (w *moveWorld) leftovers() bool {
	x := w.x
	src, dst := -1, -1
	for _, i := range w.rng.Perm(len(w.groups)) {
		if len(w.ranges(i)) > 0 && src < 0 {
			src = i
		} else if dst < 0 || len(w.groups[i].nodes) < len(w.groups[dst].nodes) {
			dst = i
		}
	}
	name := w.nameIn("b", func(s int) bool { return w.own[s] == src })
	id := "b/" + name
	slot := slotOf(id)
	text := fmt.Sprintf("%d-%d", slot, slot+1)
	w.did("%s receives %q of %s and is killed", w.lead(dst).ID, id, w.groups[src].store)
	names, bkts := w.states()
	file := filepath.Join(x.Work, fmt.Sprintf("left-%d", slot))
	_ = os.Remove(file)
	d := w.lead(dst)
	done := make(chan bool)
	go func() {
		defer close(done)
		x.inproc("c14", 2*time.Minute, "leave", d.Addr(), w.groups[src].store, text, file, id)
	}()
	eventually(30*time.Second, func() bool { _, err := os.Stat(file); return err == nil })
	d.Kill9()
	<-done
	w.start(d)
	had := w.leftover[dst]
	w.broken[dst], w.leftover[dst] = true, true
	if !w.check("a crash while receiving") {
		return false
	}
	// what was received belongs to nobody, neither before nor after the slot has moved
	var how, txt string
	if !eventually(60*time.Second, func() bool {
		how, txt = w.migrate(w.lead(src), w.lead(dst), []string{text}, false)
		return how == "ok"
	}) {
		x.Violate("repeat", "60 s after %s crashed while receiving, the migration of %s to it is answered %s: %s (%s)", d.ID, text, how, txt, w.history())
		return false
	}
	w.moved([][2]int{{slot, slot + 1}}, dst)
	w.leftover[dst] = had
	if !w.check("moving after a crash while receiving") {
		return false
	}
	for _, a := range w.apis {
		var r Resp
		if !eventually(10*time.Second, func() bool { _, r = a.Meta("b", name, 0); return r.Code == 404 }) {
			x.Violate("resurrected", "%q (slot %d), which %s had received from a migration that was never finished, is answered %s after its slot has moved there (%s)", id, slot, d.ID, r, w.history())
			return false
		}
	}
	w.unchanged("moving after a crash while receiving", names, bkts)
	x.Event("crashes_while_receiving", 1)
	x.Case(fmt.Sprintf("leftovers %d -> %d servers", len(w.groups[src].nodes), len(w.groups[dst].nodes)))
	return !x.Violated()
}

func (w *moveWorld) groupOf(n *cluster.Node) int {
	for i, g := range w.groups {
		for _, m := range g.nodes {
			if m == n {
				return i
			}
		}
	}
	return -1
}

// compete asks for several migrations at once.
func (w *moveWorld) compete() bool {
	x := w.x
	type job struct {
		src, dst int
		slots    [][2]int
		how, txt string
	}
	var jobs []*job
	a := w.rng.Intn(len(w.groups))
	for len(w.ranges(a)) == 0 {
		a = (a + 1) % len(w.groups)
	}
	b := (a + 1) % len(w.groups)
	c := (a + 2) % len(w.groups)
	add := func(s, d int) {
		if s != d && len(w.ranges(s)) > 0 {
			sl, _ := w.some(s)
			jobs = append(jobs, &job{src: s, dst: d, slots: sl})
		}
	}
	what := []string{"there and back", "to two", "from two", "twice the same"}[w.rng.Intn(4)]
	switch what {
	case "there and back":
		add(a, b)
		add(b, a)
	case "to two":
		add(a, b)
		add(a, c)
	case "from two":
		add(a, b)
		add(c, b)
	case "twice the same":
		add(a, b)
		jobs = append(jobs, &job{src: a, dst: b, slots: jobs[0].slots})
	}
	names, bkts := w.states()
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		w.did("%v from %s to %s (%s)", rangeTexts(j.slots), w.lead(j.src).ID, w.lead(j.dst).ID, what)
		s, d := w.lead(j.src), w.lead(j.dst)
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.how, j.txt = w.migrate(s, d, rangeTexts(j.slots), false)
		}()
	}
	wg.Wait()
	// an order in which those that are answered "ok" make sense
	var outs []string
	before := w.own
	try := func(order []*job) string {
		w.mu.Lock()
		w.own = before
		w.mu.Unlock()
		for _, j := range order {
			if j.how == "ok" {
				w.moved(j.slots, j.dst)
			}
		}
		return w.slotsDiffer()
	}
	for _, j := range jobs {
		outs = append(outs, j.how)
		w.did("answered %s %s", j.how, j.txt)
		if j.how == "error" && !strings.Contains(j.txt, "in migration") {
			x.Violate("compete", "of competing migrations (%s) one is answered %s (%s)", what, j.txt, w.history())
		}
	}
	sort.Strings(outs)
	x.Case(fmt.Sprintf("%s -> %v", what, outs))
	x.Event("competing_migrations", int64(len(jobs)))
	diff := try(jobs)
	if diff != "" && len(jobs) == 2 {
		diff = try([]*job{jobs[1], jobs[0]})
	}
	if diff != "" {
		x.Violate("compete", "after competing migrations (%s) answered %v: %s (%s)", what, outs, diff, w.history())
		return false
	}
	if !w.check("competing migrations " + what) {
		return false
	}
	w.unchanged("after competing migrations "+what, names, bkts)
	return !x.Violated()
}

// emptied restarts a server that has no slots any more while nobody else is there.
func (w *moveWorld) emptied() bool {
	x := w.x
	b := -1
	for i, g := range w.groups {
		// a server that never got slots rightly takes those it is configured with if there is nobody else
		if len(g.nodes) == 1 && w.had[i] && (b < 0 || w.rng.Intn(2) == 0) {
			b = i
		}
	}
	if b < 0 {
		return true
	}
	n := w.groups[b].nodes[0]
	if l := w.ranges(b); len(l) > 0 {
		d := (b + 1 + w.rng.Intn(len(w.groups)-1)) % len(w.groups)
		w.did("%v from %s to %s", rangeTexts(l), n.ID, w.lead(d).ID)
		if how, text := w.migrate(n, w.lead(d), rangeTexts(l), true); how != "ok" {
			x.Violate("refused", "undisturbed, the migration of all slots of %s is answered %s: %s (%s)", n.ID, how, text, w.history())
			return false
		}
		w.moved(l, d)
	}
	var others []*cluster.Node
	for i, g := range w.groups {
		if i != b {
			others = append(others, g.nodes...)
		}
	}
	w.did("%s, which has no slots any more, is started while nobody else is there", n.ID)
	n.Stop(20 * time.Second)
	for _, o := range others {
		o.Stop(20 * time.Second)
	}
	w.start(n)
	_ = n.WaitReady(20 * time.Second)
	time.Sleep(1500 * time.Millisecond)
	for _, o := range others {
		w.start(o)
	}
	x.Event("emptied_servers_started", 1)
	return w.check("starting a server without slots first")
}

func c14(x *Ctx) {
	x.Rule("slots of random fragments are moved among standalone metadata servers, raft groups and servers without any while names, versions, bucket settings are written and removed through api servers, undisturbed and with servers and etcd failing at random moments; afterwards each slot must have one owner that agrees with the answer, and names, versions, numbers, times and settings must be what they were or what was acknowledged since. A case is distinct by what was moved, how it was disturbed and answered")
	for i := 0; i < x.Pick(2, 10) && !x.Violated(); i++ {
		c14round(x, i)
	}
}

func c14round(x *Ctx, round int) {
	rng := rand.New(rand.NewSource(x.Seed*517 + int64(round)))
	sizes := [][]int{{1, 1}, {1, 3}, {3, 1, 1}, {3, 3}, {1, 1, 3}}[(round+int(x.Seed))%5]
	sw := newSlotWorldWith(x, fmt.Sprintf("c%d", round), rng, sizes, 2, func(w *slotWorld) {
		w.c.AddAdmin("admin", nil)
	})
	if sw == nil {
		return
	}
	w := &moveWorld{slotWorld: sw, rng: rng, probes: map[string]int{}, gone: map[string]bool{}, still: map[string]bool{}, cfgs: map[string]*cfgBucket{}, broken: map[int]bool{}, had: map[int]bool{}}
	for i := range w.groups {
		w.had[i] = len(w.ranges(i)) > 0
	}
	w.leftover = map[int]bool{}
	w.admin = Admin{N: w.c.ByID("admin")}
	if !w.bucket(Bucket{Name: "b", Versioning: true, VersionRemains: 100000}) {
		return
	}
	for i := 0; i < 12; i++ {
		if !w.bucket(Bucket{Name: fmt.Sprintf("bk%d", i), Versioning: i%2 == 0, VersionRemains: 10 + i, Readonly: i%3 == 0, Compress: i%4 == 0, Policies: []string{"p", fmt.Sprint(i)}}) {
			return
		}
	}
	for i := 0; i < 4; i++ {
		n := fmt.Sprintf("cfg%d", i)
		if !w.bucket(Bucket{Name: n, Versioning: true, VersionRemains: 1}) {
			return
		}
		w.cfgs[n] = &cfgBucket{acked: 1, last: 1, unacked: map[int]bool{}}
	}
	if !w.settle(60 * time.Second) {
		return
	}
	// one that joins without any slots
	n := w.c.AddMeta("new", nil)
	w.start(n)
	if err := n.WaitReady(30 * time.Second); err != nil {
		panic(infra{err})
	}
	w.groups = append(w.groups, &slotGroup{store: n.ID, nodes: []*cluster.Node{n}})
	// still names, names that grow and names to be removed, evenly over the slots
	parallel(160, 8, func(i int) {
		n := w.nameIn("b", func(int) bool { return true })
		for k := 0; k < 1+i%4; k++ {
			if r := w.put(w.apis[i%2], "b", n, 50+k); r.Err != nil || r.Code/100 != 2 {
				x.Violate("upload", "undisturbed, an upload is answered %s (%s)", r, w.history())
			}
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if i < 40 {
			w.hot = append(w.hot, "b/"+n)
		} else if i < 80 {
			w.todo = append(w.todo, "b/"+n)
		} else {
			w.still["b/"+n] = true
		}
	})
	if x.Violated() {
		return
	}
	// numbers that were given to versions which are gone
	for i := 0; i < 40; i++ {
		name := w.nameIn("b", func(int) bool { return true })
		id := "b/" + name
		ms := MS{w.lead(w.owner(id))}
		if r := ms.AddMeta(id, name, "b"); r.Err != nil || r.Code/100 != 2 {
			x.Violate("upload", "adding %q: %s (%s)", id, r, w.history())
			return
		}
		for k := 0; k < 4; k++ {
			num, _ := ms.AddVer(id, MVersion{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: 7, Hash: "h" + id, Locate: []string{"127.0.0.1:9"}})
			w.probes[id] = num
		}
		for k := 0; k < i%4; k++ {
			_ = ms.DelVer(id, w.probes[id]-k)
		}
		w.maybe[id] = true
	}
	// versions to be removed
	for i := 0; i < 24; i++ {
		name := w.nameIn("b", func(int) bool { return true })
		id := "b/" + name
		w.maybe[id] = true
		ms := MS{w.lead(w.owner(id))}
		if r := ms.AddMeta(id, name, "b"); r.Err != nil || r.Code/100 != 2 {
			x.Violate("upload", "adding %q: %s (%s)", id, r, w.history())
			return
		}
		v := &shedding{id: id, next: 1}
		for k := 0; k < 14; k++ {
			v.last, _ = ms.AddVer(id, MVersion{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: 7, Hash: fmt.Sprint("shed", i, ".", k), Locate: []string{"127.0.0.1:9"}})
		}
		w.shed = append(w.shed, v)
	}
	kinds := []string{"", "", "source killed", "target killed", "both killed", "source suspended", "target suspended", "etcd fails", "etcd down", "answers of etcd lost", "source stopped", "target stopped"}
	for k, steps := 0, x.Pick(7, 14); k < steps && !x.Violated(); k++ {
		var stop atomic.Bool
		wg := &sync.WaitGroup{}
		quiet := k == 0 // once without writes
		if !quiet {
			wg = w.churn(&stop)
		}
		end := func() { stop.Store(true); wg.Wait() }
		src := rng.Intn(len(w.groups))
		for len(w.ranges(src)) == 0 {
			src = (src + 1) % len(w.groups)
		}
		dst := (src + 1 + rng.Intn(len(w.groups)-1)) % len(w.groups)
		ok := true
		switch {
		case k == 2 || k > 7 && rng.Intn(5) == 0:
			ok = w.compete()
		case k == 4 || k > 7 && rng.Intn(5) == 0:
			w.invalid()
			ok = x.Violated() || w.leftovers()
		case k == 5 || k > 7 && rng.Intn(5) == 0:
			// what was moved stays so
			what := w.disturb(rng, 1)
			ok = w.check(what)
			x.Case("after moves: " + what)
		default:
			kind := ""
			if !quiet {
				kind = kinds[rng.Intn(len(kinds))]
			}
			ok = w.move(src, dst, kind)
		}
		end()
		if !ok {
			break
		}
	}
	if !x.Violated() && w.emptied() {
		w.compare("in the end")
		w.refuse(rng, "c13")
		w.read("in the end", rng, 300)
	}
	x.CheckAlive(w.c, w.dead...)
}
