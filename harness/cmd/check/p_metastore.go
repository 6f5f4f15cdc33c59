package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
)

func init() {
	props["C10"] = c10
	props["C12"] = c12
}

var simIDs = []string{"b/a", "b/a.1", "b/a.1.1", "b/a.2", "b/1", "b/1.1", "b", "b.1", "metadata_b/a", "version_b/a", "b/ü ?#", "b/list", "B/a", "b/a/1", "b/a+b", "b/a b", "b/a%2Fb"}

func simHashes(n int) []string {
	r := []string{}
	for i := 0; i < n; i++ {
		r = append(r, digest([]byte{byte(i)}))
	}
	return append(r, "h", "h.1", "h/1")
}

// c10: the metadata store answers as a map would and keeps what it acknowledged.
func c10(x *Ctx) {
	x.Rule("seeded sequential histories of every metadata, version and bucket operation on confusable names against a map (full comparison every few operations and after every kill or restart), " +
		"and concurrent histories of several clients on few names, with kills, checked for linearizability per name (porcupine; operations cut off by a kill may have happened or not); large versions and buckets are read at the moment they are changed or removed, and read again after it. " +
		"A case is distinct by operation, name and situation, or by the concurrent round.")
	rng := rand.New(rand.NewSource(x.Seed * 811))
	for hist := 0; hist < x.Pick(3, 12); hist++ {
		c := x.Cluster(fmt.Sprintf("s%d", hist), false)
		n := c.AddMeta("meta1", M{"cache": M{"max-size": []string{"128MB", "8MB"}[hist%2]}})
		if !x.Start(c) {
			return
		}
		s := newSim(x, simIDs, simHashes(6), MS{n})
		s.checkAll("empty store")
		for i := 0; i < x.Pick(900, 5000); i++ {
			if !s.step(rng) {
				return
			}
			s.checkID("after an operation", MS{n}, s.ids[rng.Intn(len(s.ids))], false)
			if i%60 == 59 {
				s.checkAll(fmt.Sprintf("history %d step %d", hist, i))
			}
			if i%225 == 224 {
				if i%450 == 449 {
					n.Stop(10 * time.Second)
				} else {
					n.Kill9()
				}
				if err := restart(n); err != nil {
					x.Violate("restart", "the server does not come up again: %v", err)
					return
				}
				x.Event("restarts", 1)
				s.checkAll(fmt.Sprintf("history %d restarted after step %d", hist, i))
			}
			if x.Violated() {
				return
			}
		}
		x.CheckAlive(c)
		c.Close()
	}
	c10conc(x)
	c10fill(x)
}

type linIn struct {
	op  string // add, del, ver, upd, rmv, get, list
	n   int
	val int64
}
type linOut struct {
	unknown bool // cut off
	code    int
	n       int
	val     int64
	list    string
}
type linState struct {
	exists bool
	seq    int
	vers   string // "n=val;" in order
}

func linParse(s string) map[int]int64 {
	m := map[int]int64{}
	for len(s) > 0 {
		var n int
		var v int64
		fmt.Sscanf(s, "%d=%d;", &n, &v)
		m[n] = v
		i := 0
		for s[i] != ';' {
			i++
		}
		s = s[i+1:]
	}
	return m
}

func linFormat(m map[int]int64) string {
	ns := []int{}
	for n := range m {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	r := ""
	for _, n := range ns {
		r += fmt.Sprintf("%d=%d;", n, m[n])
	}
	return r
}

func linStep(st linState, in linIn, out linOut) (bool, linState) {
	ok := out.unknown || out.code/100 == 2
	m := linParse(st.vers)
	switch in.op {
	case "add":
		if st.exists {
			return out.unknown || out.code/100 == 4, st
		}
		return ok, linState{exists: true}
	case "del":
		return ok || (!st.exists && out.code == 404), linState{}
	case "ver":
		if !st.exists {
			return out.unknown || out.code/100 == 4, st
		}
		m[st.seq+1] = in.val
		return ok && (out.unknown || out.n == st.seq+1), linState{true, st.seq + 1, linFormat(m)}
	case "upd":
		if _, have := m[in.n]; !have {
			return out.unknown || out.code/100 == 4, st
		}
		if out.code == 400 { // an older update than the one that is there
			return true, st
		}
		m[in.n] = in.val
		return ok, linState{true, st.seq, linFormat(m)}
	case "rmv":
		if _, have := m[in.n]; !have {
			return ok || out.code == 404, st
		}
		delete(m, in.n)
		return ok, linState{true, st.seq, linFormat(m)}
	case "get":
		v, have := m[in.n]
		if !have {
			return out.unknown || out.code == 404, st
		}
		return out.unknown || out.code == 200 && out.val == v, st
	case "list":
		if !st.exists {
			return out.unknown || out.code == 404 || out.code == 200 && out.list == "", st
		}
		return out.unknown || out.code == 200 && out.list == st.vers, st
	}
	return false, st
}

var linModel = porcupine.Model{
	Init:  func() interface{} { return linState{} },
	Step:  func(s, i, o interface{}) (bool, interface{}) { return linStepAny(s, i, o) },
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(i, o interface{}) string {
		return fmt.Sprintf("%+v -> %+v", i, o)
	},
}

func linStepAny(s, i, o interface{}) (bool, interface{}) {
	ok, n := linStep(s.(linState), i.(linIn), o.(linOut))
	return ok, n
}

// linRound runs clients on few names at once and returns the history per name. kill, when not nil, runs in the middle.
func linRound(x *Ctx, ids []string, clients, ops int, seed int64, target func(k int) MS, kill func()) map[string][]porcupine.Operation {
	var mu sync.Mutex
	hist := map[string][]porcupine.Operation{}
	var done int64
	var wg sync.WaitGroup
	t0 := time.Now()
	var vals int64
	for k := 0; k < clients; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed*1000 + int64(k)))
			for i := 0; i < ops; i++ {
				id := ids[rng.Intn(len(ids))]
				in := linIn{n: 1 + rng.Intn(6), val: 1 + atomic.AddInt64(&vals, 1)}
				v := MVersion{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: in.val, Hash: digest([]byte{byte(k)}), Locate: []string{"10.0.0.1:1"}}
				ms := target(k)
				var out linOut
				var r Resp
				call := time.Since(t0).Nanoseconds()
				switch p := rng.Intn(24); {
				case p < 2:
					in.op = "add"
					r = ms.AddMeta(id, "n", "b")
				case p == 2:
					in.op = "del"
					r = ms.DelMeta(id)
				case p < 9:
					in.op = "ver"
					out.n, r = ms.AddVer(id, v)
				case p < 13:
					in.op = "upd"
					r = ms.UpdateVer(id, in.n, v)
				case p < 15:
					in.op = "rmv"
					r = ms.DelVer(id, in.n)
				case p < 21:
					in.op = "get"
					var g MVersion
					g, r = ms.GetVer(id, in.n)
					out.val = g.Size
				default:
					in.op = "list"
					var vs []MVersion
					vs, _, r = ms.ListVer(id, 1, 1000)
					m := map[int]int64{}
					for _, e := range vs {
						m[int(e.Sequence)] = e.Size
					}
					out.list = linFormat(m)
				}
				ret := time.Since(t0).Nanoseconds()
				out.code = r.Code
				if r.Err != nil || r.Code/100 == 5 {
					out = linOut{unknown: true}
					ret = 1 << 60
					if kill == nil && r.Err == nil {
						x.Violate("server-error", "%+v on %s is answered %s", in, id, r)
					}
					x.Event("cut_off", 1)
				}
				mu.Lock()
				if !(out.unknown && (in.op == "get" || in.op == "list")) {
					hist[id] = append(hist[id], porcupine.Operation{ClientId: k, Input: in, Call: call, Output: out, Return: ret})
				}
				mu.Unlock()
				if kill != nil && atomic.AddInt64(&done, 1) == int64(clients*ops/2) {
					kill()
				}
				if r.Err != nil {
					time.Sleep(5 * time.Millisecond)
				}
			}
		}(k)
	}
	wg.Wait()
	// what is there in the end belongs to the history
	for _, id := range ids {
		var vs []MVersion
		var r Resp
		call := time.Since(t0).Nanoseconds()
		eventually(30*time.Second, func() bool {
			vs, _, r = target(0).ListVer(id, 1, 1000)
			return r.Err == nil && r.Code/100 != 5
		})
		m := map[int]int64{}
		for _, e := range vs {
			m[int(e.Sequence)] = e.Size
		}
		hist[id] = append(hist[id], porcupine.Operation{ClientId: clients, Input: linIn{op: "list"}, Call: call, Output: linOut{code: r.Code, list: linFormat(m)}, Return: time.Since(t0).Nanoseconds()})
		for n := 1; n <= 6; n++ {
			call := time.Since(t0).Nanoseconds()
			g, r := target(0).GetVer(id, n)
			if r.Err == nil && r.Code/100 != 5 {
				hist[id] = append(hist[id], porcupine.Operation{ClientId: clients, Input: linIn{op: "get", n: n}, Call: call, Output: linOut{code: r.Code, val: g.Size}, Return: time.Since(t0).Nanoseconds()})
			}
		}
	}
	return hist
}

// linJudge checks the histories.
func linJudge(x *Ctx, what string, hist map[string][]porcupine.Operation) {
	for id, h := range hist {
		res, _ := porcupine.CheckOperationsVerbose(linModel, h, 5*time.Second)
		x.Event("histories_checked", 1)
		x.Event("operations_checked", int64(len(h)))
		switch res {
		case porcupine.Illegal:
			sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
			t := ""
			for _, o := range h {
				t += fmt.Sprintf("\n  [%d,%d] client %d %+v -> %+v", o.Call/1000, o.Return/1000, o.ClientId, o.Input, o.Output)
			}
			x.Logf("history of %s:%s", id, t)
			x.Violate("not-linearizable", "%s: the answers about %s (%d operations, in the trace) agree with no order of the operations", what, id, len(h))
		case porcupine.Unknown:
			x.Event("histories_undecided", 1)
		}
		x.Case(fmt.Sprintf("%s %s %d operations", what, id, len(h)))
	}
}

func c10conc(x *Ctx) {
	c := x.Cluster("conc", false)
	n := c.AddMeta("meta1", nil)
	if !x.Start(c) {
		return
	}
	ms := MS{n}
	for round := 0; round < x.Pick(24, 200); round++ {
		ids := []string{}
		for k := 0; k < 3; k++ {
			ids = append(ids, fmt.Sprintf("r%d/n%d", round, k))
		}
		for _, id := range ids[:2] {
			ms.AddMeta(id, "n", "b")
			ms.DelMeta(id)
		}
		var kill func()
		if round%3 == 2 {
			kill = func() {
				n.Kill9()
				if err := restart(n); err != nil {
					x.Violate("restart", "the server does not come up again: %v", err)
				}
				x.Event("kills_under_load", 1)
			}
		}
		h := linRound(x, ids, 6, 30, x.Seed*100+int64(round), func(int) MS { return ms }, kill)
		linJudge(x, fmt.Sprintf("round %d", round), h)
		if x.Violated() {
			return
		}
	}
	x.CheckAlive(c)
}

// c12: lookups by hash and relocation, with few hashes shared by many versions.
func c12(x *Ctx) {
	x.Rule("seeded histories of version operations on names that share few hashes, with relocations of every shard index; after every operation one hash and every few operations the whole store " +
		"(all lookups by hash, all versions) are compared with a map; relocations run concurrently with updates, too. A case is distinct by operation, name and situation.")
	rng := rand.New(rand.NewSource(x.Seed * 1301))
	c := x.Cluster("c", false)
	n := c.AddMeta("meta1", nil)
	if !x.Start(c) {
		return
	}
	ms := MS{n}
	s := newSim(x, simIDs, simHashes(3), ms)
	for i := 0; i < x.Pick(2200, 15000); i++ {
		if i%4 == 3 { // more relocations than the general mix has
			s.relocate(rng)
		} else if !s.step(rng) {
			return
		}
		h := s.hashes[rng.Intn(len(s.hashes))]
		s.checkHash("after an operation", ms, h)
		if i%100 == 99 {
			s.checkAll(fmt.Sprintf("step %d", i))
		}
		if i%700 == 699 {
			n.Kill9()
			if err := restart(n); err != nil {
				x.Violate("restart", "the server does not come up again: %v", err)
				return
			}
			s.checkAll("restarted")
		}
		if x.Violated() {
			return
		}
	}
	// concurrent relocations of different shards of one hash: none is lost
	for round := 0; round < x.Pick(12, 80); round++ {
		h := digest([]byte(fmt.Sprint("conc", round)))
		ids := []string{}
		for k := 0; k < 4; k++ {
			id := fmt.Sprintf("loc%d/%d", round, k)
			ids = append(ids, id)
			ms.AddMeta(id, "n", "b")
			for v := 0; v < 3; v++ {
				ms.AddVer(id, MVersion{StoreStrategy: 1, DataShards: 4, ParityShards: 2, ShardSize: 1, Size: int64(v + 1), Hash: h, Locate: []string{"o0", "o1", "o2", "o3", "o4", "o5"}})
			}
		}
		parallel(6, 6, func(i int) {
			for k := 0; k < 3; k++ {
				if r := ms.Locate(h, i, fmt.Sprintf("new%d-%d", i, k)); r.Err != nil || r.Code != 200 {
					x.Violate("locate", "recording a relocation is answered %s", r)
				}
			}
		})
		x.Case(fmt.Sprintf("concurrent relocations round %d", round))
		vs, r := ms.ByHash(h)
		if len(vs) != 12 {
			x.Violate("by-hash", "%d versions are found by hash, want 12: %s", len(vs), r)
		}
		for _, v := range vs {
			if fmt.Sprint(v.Locate) != "[new0-2 new1-2 new2-2 new3-2 new4-2 new5-2]" {
				x.Violate("relocation-lost", "after concurrent relocations of all shards a version has locations %v", v.Locate)
			}
		}
		x.Event("concurrent_relocations", 18)
	}
	x.CheckAlive(c)
}

// relocate records a moved shard, mostly one that exists.
func (s *sim) relocate(rng *rand.Rand) {
	h := s.hashes[rng.Intn(len(s.hashes))]
	s.tag++
	idx, loc := rng.Intn(5), fmt.Sprintf("10.8.8.8:%d", s.tag)
	n, fit := s.withHash(h, idx)
	r := s.target().Locate(h, idx, loc)
	s.x.Event("relocations", 1)
	s.x.Case(fmt.Sprintf("relocate shard %d: %d of %d versions", idx, fit, n))
	if r.Err != nil || fit > 0 && r.Code != 200 || fit == 0 && n > 0 && r.Code/100 != 4 || r.Code/100 == 5 {
		s.x.Violate("locate", "recording that shard %d of %s moved (%d of %d versions have it) is answered %s", idx, h, fit, n, r)
		return
	}
	for _, m := range s.metas {
		for n, v := range m.vers {
			if v.Hash == h && idx < len(v.Locate) {
				v.Locate = append([]string(nil), v.Locate...)
				v.Locate[idx] = loc
				m.vers[n] = v
			}
		}
	}
}

// c10fill: values that are read and changed at the same moment. The values are large, so that a read lasts as long as a
// change and what it has read is old when it comes to be kept for the next reads.
func c10fill(x *Ctx) {
	c := x.Cluster("fill", false)
	n := c.AddMeta("meta1", M{"cache": M{"max-size": "2GB"}})
	if !x.Start(c) {
		return
	}
	ms := MS{n}
	long := make([]string, 6000)
	for i := range long {
		long[i] = fmt.Sprintf("10.1.2.%d:%d", i%250, 5000+i)
	}
	parallel(6, 6, func(w int) {
		rng := rand.New(rand.NewSource(x.Seed*3301 + int64(w)))
		// during starts readers at random moments of the time a change takes, and waits for all of them
		took := 10 * time.Millisecond
		during := func(read func(), change func()) {
			var wg sync.WaitGroup
			for k := 0; k < 5; k++ {
				wg.Add(1)
				at := time.Duration(rng.Float64() * 1.1 * float64(took))
				go func() { defer wg.Done(); time.Sleep(at); read() }()
			}
			begin := time.Now()
			change()
			took = (took*3 + time.Since(begin)) / 4
			wg.Wait()
		}
		id, bk := fmt.Sprintf("fill/w%d", w), fmt.Sprintf("fill%d", w)
		v := MVersion{StoreStrategy: 1, DataShards: 1, ParityShards: 1, ShardSize: 1, Hash: digest([]byte(id)), Size: 1, Locate: long}
		must := func(what string, r Resp) bool {
			if r.Err != nil || r.Code/100 != 2 {
				x.Violate("fill", "%s of %s is refused: %v", what, id, r)
				return false
			}
			return true
		}
		b := Bucket{Name: bk, Policies: long[:3000]}
		if !must("creation", ms.AddMeta(id, fmt.Sprintf("w%d", w), "fill")) || !must("bucket", ms.CreateBucket(b)) {
			return
		}
		val := int64(0)
		for round := 0; round < x.Pick(14, 120) && !x.Violated(); round++ {
			num, r := ms.AddVer(id, v)
			if !must("adding a version", r) {
				return
			}
			for k := 0; k < 3; k++ {
				// nothing is kept for the next reads after this one
				val++
				v.Size = val
				if !must("update", ms.UpdateVer(id, num, v)) {
					return
				}
				val++
				v.Size = val
				during(func() { ms.GetVer(id, num) }, func() { r = ms.UpdateVer(id, num, v) })
				if !must("update", r) {
					return
				}
				got, r := ms.GetVer(id, num)
				if r.Code != 200 || got.Size != val || len(got.Locate) != len(long) {
					x.Violate("stale", "version %d of %s, which has been read while it was updated, has code %d size %d after the update to size %d was acknowledged", num, id, r.Code, got.Size, val)
					return
				}
				x.Event("read_during_update", 1)
			}
			val++
			v.Size = val
			must("update", ms.UpdateVer(id, num, v))
			during(func() { ms.GetVer(id, num) }, func() { r = ms.DelVer(id, num) })
			if !must("removal", r) {
				return
			}
			if got, r := ms.GetVer(id, num); r.Code != 404 {
				x.Violate("stale", "version %d of %s, which has been read while it was removed, is still there: %d, size %d", num, id, r.Code, got.Size)
				return
			}
			x.Event("read_during_removal", 1)

			// buckets: several changes at once, and reads meanwhile
			for k := 0; k < 3; k++ {
				b.VersionRemains++
				if !must("bucket update", ms.UpdateBucket(b)) {
					return
				}
				b.VersionRemains++
				during(func() { ms.GetBucket(bk) }, func() { r = ms.UpdateBucket(b) })
				if !must("bucket update", r) {
					return
				}
				if got, r := ms.GetBucket(bk); r.Code != 200 || got.VersionRemains != b.VersionRemains {
					x.Violate("stale", "bucket %s, which has been read while it was updated, has code %d remains %d after the update to %d was acknowledged", bk, r.Code, got.VersionRemains, b.VersionRemains)
					return
				}
				x.Event("bucket_read_during_update", 1)
				acked := make([]bool, 6)
				parallel(len(acked), len(acked), func(k int) {
					o := b
					o.VersionRemains += k + 1
					// an update which is older than another one is refused
					acked[k] = ms.UpdateBucket(o).Code == 200
				})
				got, r1 := ms.GetBucket(bk)
				l, _, r2 := ms.ListBuckets(bk, 10)
				if r1.Code != 200 || r2.Code != 200 || len(l) != 1 || l[0].VersionRemains != got.VersionRemains {
					x.Violate("stale", "bucket %s after several updates at once: read by name it has code %d remains %d, in the list %d %+.200v", bk, r1.Code, got.VersionRemains, r2.Code, l)
					return
				}
				if d := int(got.VersionRemains - b.VersionRemains); d < 0 || d > len(acked) || d > 0 && !acked[d-1] {
					x.Violate("stale", "bucket %s has remains %d after updates %v of %d", bk, got.VersionRemains, acked, b.VersionRemains)
					return
				}
				b.VersionRemains = got.VersionRemains
				x.Event("bucket_updates_at_once", int64(len(acked)))
			}
			during(func() { ms.GetBucket(bk) }, func() { r = ms.DelBucket(bk) })
			if !must("bucket removal", r) {
				return
			}
			if _, r := ms.GetBucket(bk); r.Code != 404 {
				x.Violate("stale", "bucket %s, which has been read while it was removed, is still there: %d", bk, r.Code)
				return
			}
			if !must("bucket", ms.CreateBucket(b)) {
				return
			}
			x.Case(fmt.Sprintf("reads during changes %d %d", w, round))
		}
	})
	x.CheckAlive(c)
}
