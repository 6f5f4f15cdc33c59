package main

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/cluster"
)

// C13: several metadata groups with fragmented slot ranges. The owner of every name is computed from the
// configuration; what each server lists, answers and refuses is compared with it, while leaders change, servers
// restart and misconfigured ones join.

func init() { props["C13"] = c13 }

const nSlots = 16384

func slotOf(id string) int { return int(crc32.ChecksumIEEE([]byte(id)) % nSlots) }

// slotGroup is a metadata group (or a server on its own) and the slots it was configured with.
type slotGroup struct {
	store string // under which its slots are kept
	nodes []*cluster.Node
	slots [][2]int
}

func rangeTexts(l [][2]int) (r []string) {
	for _, p := range l {
		r = append(r, fmt.Sprintf("%d-%d", p[0], p[1]))
	}
	return
}

// slotWorld is a cluster of metadata groups with what they should hold.
type slotWorld struct {
	x      *Ctx
	c      *cluster.Cluster
	groups []*slotGroup
	own    [nSlots]int
	apis   []API
	mu     sync.Mutex
	acked  map[string]map[int]string // id -> size of each version acknowledged -> its content
	maybe  map[string]bool           // ids with writes that were not answered with success
	asking map[string]int            // ids with writes that are not answered yet
	bkts   map[string]Bucket
	trace  []string
	next   atomic.Int64
	dead   []*cluster.Node
	// groups of which servers may have names that moved elsewhere, but do not serve them (only when slots are moved)
	leftover map[int]bool
}

func (w *slotWorld) did(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.trace = append(w.trace, fmt.Sprintf(f, a...))
	w.x.Logf("%s", w.trace[len(w.trace)-1])
}

func (w *slotWorld) history() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.trace) - 30
	if n < 0 {
		n = 0
	}
	return strings.Join(w.trace[n:], "; ")
}

// deal splits all slots into k parts of random fragments, some of them a single slot.
func deal(rng *rand.Rand, k int) [][][2]int {
	cut := map[int]bool{0: true, nSlots: true}
	for i := 0; i < k-1+rng.Intn(3*k); i++ {
		s := 1 + rng.Intn(nSlots-1)
		cut[s] = true
		if rng.Intn(4) == 0 && s+1 < nSlots {
			cut[s+1] = true
		}
	}
	for len(cut) < k+1 {
		cut[1+rng.Intn(nSlots-1)] = true
	}
	var c []int
	for s := range cut {
		c = append(c, s)
	}
	sort.Ints(c)
	for {
		res := make([][][2]int, k)
		last := -1
		for i := 0; i+1 < len(c); i++ {
			g := rng.Intn(k)
			if g == last { // what is adjacent belongs to different groups
				g = (g + 1) % k
			}
			last = g
			res[g] = append(res[g], [2]int{c[i], c[i+1]})
		}
		ok := true
		for _, l := range res {
			ok = ok && len(l) > 0
		}
		if ok {
			for _, l := range res {
				rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
			}
			return res
		}
	}
}

// newSlotWorld starts groups with sizes servers each.
func newSlotWorld(x *Ctx, name string, rng *rand.Rand, sizes []int, apis int) *slotWorld {
	return newSlotWorldWith(x, name, rng, sizes, apis, func(*slotWorld) {})
}

func newSlotWorldWith(x *Ctx, name string, rng *rand.Rand, sizes []int, apis int, more func(*slotWorld)) *slotWorld {
	w := &slotWorld{x: x, c: x.Cluster(name, false), acked: map[string]map[int]string{}, maybe: map[string]bool{}, asking: map[string]int{}, bkts: map[string]Bucket{}}
	parts := deal(rng, len(sizes))
	for i, n := range sizes {
		g := &slotGroup{slots: parts[i]}
		over := M{"hash-slot": M{"slots": rangeTexts(parts[i])}}
		if n == 1 {
			g.store = fmt.Sprintf("m%d", i)
			g.nodes = []*cluster.Node{w.c.AddMeta(g.store, over)}
		} else {
			g.store = fmt.Sprintf("gr%d", i)
			g.nodes = w.c.AddMetaGroup(g.store, n, over)
		}
		w.groups = append(w.groups, g)
		for _, p := range parts[i] {
			for s := p[0]; s < p[1]; s++ {
				w.own[s] = i
			}
		}
		w.did("%s owns %v", g.store, rangeTexts(parts[i]))
	}
	w.c.AddObject("obj", 1, nil)
	over := M{"object": M{"checksum": false, "distinct-size": "1GB", "reed-solomon": M{"data-shards": 1, "parity-shards": 0}}}
	for i := 0; i < apis; i++ {
		w.apis = append(w.apis, API{N: w.c.AddAPI(fmt.Sprintf("api%d", i), over)})
	}
	more(w)
	if !x.Start(w.c) {
		return nil
	}
	return w
}

// bucket creates a bucket as soon as its group can.
func (w *slotWorld) bucket(b Bucket) bool {
	var r Resp
	if !eventually(60*time.Second, func() bool {
		r = w.apis[0].CreateBucket(b)
		if r.Err == nil && r.Code/100 == 2 {
			return true
		}
		_, r = w.apis[0].GetBucket(b.Name)
		return r.Err == nil && r.Code == 200
	}) {
		w.x.Violate("bucket", "bucket %s (slot %d of %s) can not be created within 60 s: %s (%s)", b.Name, slotOf(b.Name), w.groups[w.own[slotOf(b.Name)]].store, r, w.history())
		return false
	}
	w.mu.Lock()
	w.bkts[b.Name] = b
	w.mu.Unlock()
	return true
}

// nameIn makes up a name whose slot satisfies f.
func (w *slotWorld) nameIn(bucket string, f func(slot int) bool) string {
	for {
		n := fmt.Sprintf("n%d", w.next.Add(1))
		if f(slotOf(bucket + "/" + n)) {
			return n
		}
	}
}

// put uploads a version and notes what it should have left.
func (w *slotWorld) put(a API, bucket, name string, size int) Resp {
	id := bucket + "/" + name
	body := blob(size, int64(crc32.ChecksumIEEE([]byte(id)))+int64(size))
	w.mu.Lock()
	w.asking[id]++
	w.mu.Unlock()
	_, r := a.Put(bucket, name, body, "")
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.asking[id]--; w.asking[id] == 0 {
		delete(w.asking, id)
	}
	w.x.Event("uploads", 1)
	if r.Err == nil && r.Code/100 == 2 {
		if w.acked[id] == nil {
			w.acked[id] = map[int]string{}
		}
		w.acked[id][size] = string(body)
		w.x.Event("acknowledged", 1)
	} else {
		w.maybe[id] = true
	}
	return r
}

// slotRecords decodes the slots as kept in etcd.
func (w *slotWorld) slotRecords() (map[string][]string, map[string]string, error) {
	slots, servers := map[string][]string{}, map[string]string{}
	prefix := w.c.Group + "/hash_slot/"
	for _, e := range w.c.Etcd.Entries(prefix) {
		m, _, err := unpack([]byte(e.Value))
		if err != nil {
			return nil, nil, fmt.Errorf("%s: %w", e.Key, err)
		}
		mm, _ := m.(map[string]any)
		store := strings.TrimPrefix(e.Key, prefix)
		servers[store] = fmt.Sprint(mm["server_id"])
		l, _ := mm["slots"].([]any)
		slots[store] = []string{}
		for _, s := range l {
			slots[store] = append(slots[store], fmt.Sprint(s))
		}
	}
	return slots, servers, nil
}

// unpack decodes the MessagePack of strings, arrays and maps.
func unpack(b []byte) (any, []byte, error) {
	if len(b) == 0 {
		return nil, nil, fmt.Errorf("cut off")
	}
	c := b[0]
	b = b[1:]
	num := func(n int) int {
		if len(b) < n {
			return 1 << 30
		}
		v := 0
		for _, x := range b[:n] {
			v = v<<8 | int(x)
		}
		b = b[n:]
		return v
	}
	str := func(n int) (any, []byte, error) {
		if len(b) < n {
			return nil, nil, fmt.Errorf("cut off")
		}
		return string(b[:n]), b[n:], nil
	}
	arr := func(n int) (any, []byte, error) {
		l := []any{}
		for i := 0; i < n; i++ {
			v, rest, err := unpack(b)
			if err != nil {
				return nil, nil, err
			}
			l, b = append(l, v), rest
		}
		return l, b, nil
	}
	mp := func(n int) (any, []byte, error) {
		v, rest, err := arr(2 * n)
		if err != nil {
			return nil, nil, err
		}
		m := map[string]any{}
		for i := 0; i < 2*n; i += 2 {
			m[fmt.Sprint(v.([]any)[i])] = v.([]any)[i+1]
		}
		return m, rest, nil
	}
	switch {
	case c == 0xc0:
		return nil, b, nil
	case c&0xe0 == 0xa0:
		return str(int(c & 0x1f))
	case c == 0xd9:
		return str(num(1))
	case c == 0xda:
		return str(num(2))
	case c&0xf0 == 0x90:
		return arr(int(c & 0xf))
	case c == 0xdc:
		return arr(num(2))
	case c&0xf0 == 0x80:
		return mp(int(c & 0xf))
	}
	return nil, nil, fmt.Errorf("unexpected byte %x", c)
}

// slotsDiffer compares the slots kept in etcd with who should own them (any fragmentation), and their servers with
// who lives.
func (w *slotWorld) slotsDiffer() string {
	slots, servers, err := w.slotRecords()
	if err != nil {
		return err.Error()
	}
	var got [nSlots]int
	for i := range got {
		got[i] = -1
	}
	for i, g := range w.groups {
		for _, t := range slots[g.store] {
			var a, b int
			if _, err := fmt.Sscanf(t, "%d-%d", &a, &b); err != nil || a < 0 || a >= b || b > nSlots {
				return fmt.Sprintf("%s has the range %q", g.store, t)
			}
			for s := a; s < b; s++ {
				if got[s] >= 0 {
					return fmt.Sprintf("slot %d belongs to %s and %s", s, w.groups[got[s]].store, g.store)
				}
				got[s] = i
			}
		}
		ok := len(g.slots) == 0
		for _, n := range g.nodes {
			ok = ok || n.ID == servers[g.store] && n.Running()
		}
		if !ok {
			return fmt.Sprintf("the slots of %s are served by %q", g.store, servers[g.store])
		}
		delete(slots, g.store)
	}
	for store, l := range slots {
		if len(l) > 0 {
			return fmt.Sprintf("%s owns %v", store, l)
		}
	}
	for s := range got {
		if got[s] != w.own[s] {
			h := "nobody"
			if got[s] >= 0 {
				h = w.groups[got[s]].store
			}
			return fmt.Sprintf("slot %d belongs to %s instead of %s", s, h, w.groups[w.own[s]].store)
		}
	}
	return ""
}

// settle waits until every group serves its slots again through every api server.
func (w *slotWorld) settle(within time.Duration) bool {
	var diff string
	if !eventually(within, func() bool {
		if diff = w.slotsDiffer(); diff != "" {
			return false
		}
		for i, g := range w.groups {
			if len(g.slots) == 0 {
				continue
			}
			for _, a := range w.apis {
				for k := 0; k < 3; k++ {
					if r := w.put(a, "b", w.nameIn("b", func(s int) bool { return w.own[s] == i }), 1+k); r.Err != nil || r.Code/100 != 2 {
						diff = fmt.Sprintf("an upload to a name of %s through %s is answered %s", w.groups[i].store, a.N.ID, r)
						return false
					}
				}
			}
		}
		return true
	}) {
		w.x.Violate("settle", "%v after the last disturbance %s (%s)", within, diff, w.history())
		return false
	}
	return true
}

// listed returns the ids a server lists.
func listed(x *Ctx, n *cluster.Node) (map[string]MMeta, bool) {
	l, _, r := MS{n}.ListMeta("", 10000, "name", false)
	if r.Err != nil || r.Code != 200 && r.Code != 404 {
		x.Violate("list", "listing all of %s: %s", n.ID, r)
		return nil, false
	}
	m := map[string]MMeta{}
	for _, e := range l {
		m[e.Bucket+"/"+e.Name] = e
	}
	return m, true
}

// compare checks that each name is with the group that owns it, and there only, with the versions it should have.
func (w *slotWorld) compare(when string) bool {
	x := w.x
	var wrong map[string]bool                    // what was wrong whenever it was looked at
	if !eventually(20*time.Second, func() bool { // followers are late
		now := map[string]bool{}
		for i, g := range w.groups {
			for _, n := range g.nodes {
				if !n.Running() {
					continue
				}
				have, ok := listed(x, n)
				if !ok {
					return false
				}
				w.mu.Lock()
				for id := range have {
					if w.own[slotOf(id)] != i && w.leftover[i] {
						continue
					}
					if w.own[slotOf(id)] != i {
						now[fmt.Sprintf("%s of %s has %q (slot %d), which belongs to %s", n.ID, g.store, id, slotOf(id), w.groups[w.own[slotOf(id)]].store)] = true
					} else if w.acked[id] == nil && !w.maybe[id] && w.asking[id] == 0 {
						now[fmt.Sprintf("%s of %s has %q, which nobody stored", n.ID, g.store, id)] = true
					}
				}
				for id := range w.acked {
					if _, ok := have[id]; !ok && w.own[slotOf(id)] == i {
						now[fmt.Sprintf("%s of %s lacks %q (slot %d)", n.ID, g.store, id, slotOf(id))] = true
					}
				}
				bl, _, r := MS{n}.ListBuckets("", 10000)
				hb := map[string]bool{}
				for _, b := range bl {
					hb[b.Name] = true
					if w.own[slotOf(b.Name)] != i && !w.leftover[i] {
						now[fmt.Sprintf("%s of %s has the bucket %q, which belongs to %s", n.ID, g.store, b.Name, w.groups[w.own[slotOf(b.Name)]].store)] = true
					}
				}
				for b := range w.bkts {
					if w.own[slotOf(b)] == i && !hb[b] {
						now[fmt.Sprintf("%s of %s lacks the bucket %q: %d", n.ID, g.store, b, r.Code)] = true
					}
				}
				w.mu.Unlock()
				x.Event("names_listed", int64(len(have)))
			}
		}
		for p := range wrong {
			if !now[p] {
				delete(wrong, p)
			}
		}
		if wrong == nil {
			wrong = now
		}
		return len(wrong) == 0
	}) {
		diff := ""
		for p := range wrong {
			if diff == "" || p < diff {
				diff = p
			}
		}
		x.Violate("placed", "%s: %s (%s)", when, diff, w.history())
		return false
	}
	x.Event("placements_compared", 1)
	return true
}

// read checks what the api servers answer for names: their versions, latest content and absence elsewhere.
func (w *slotWorld) read(when string, rng *rand.Rand, n int) {
	x := w.x
	w.mu.Lock()
	var ids []string
	for id := range w.acked {
		ids = append(ids, id)
	}
	w.mu.Unlock()
	sort.Strings(ids)
	rng.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
	if len(ids) > n {
		ids = ids[:n]
	}
	parallel(len(ids), 8, func(i int) {
		id := ids[i]
		a := w.apis[i%len(w.apis)]
		bucket, name, _ := strings.Cut(id, "/")
		expect := func() (map[int]string, bool) {
			w.mu.Lock()
			defer w.mu.Unlock()
			acked := map[int]string{}
			for k, v := range w.acked[id] {
				acked[k] = v
			}
			return acked, w.maybe[id] || w.asking[id] > 0
		}
		var diff string
		if !eventually(10*time.Second, func() bool {
			acked, may := expect()
			if len(acked) == 0 {
				return true // removed since
			}
			defer func() {
				if now, _ := expect(); diff != "" && len(now) == 0 {
					diff = ""
				}
			}()
			diff = ""
			vs, total, r := a.Versions(bucket, name, 1, 1000)
			if now, _ := expect(); len(now) != len(acked) {
				diff = "it is written all the time"
				return false
			}
			if r.Err != nil || r.Code != 200 || total != len(vs) || !may && total != len(acked) {
				diff = fmt.Sprintf("versions are answered %s, want the %d acknowledged", r, len(acked))
				return false
			}
			seen := map[int]bool{}
			for _, v := range vs {
				seen[int(v.Size)] = true
			}
			for size := range acked {
				if !seen[size] {
					diff = fmt.Sprintf("the acknowledged version of %d bytes is not listed: %s", size, r)
					return false
				}
			}
			g := a.Get(bucket, name, 0, 0)
			if g.Err != nil || g.Code != 200 {
				diff = fmt.Sprintf("reading it is answered %s", g)
				return false
			}
			acked, may = expect()
			if want, ok := acked[len(g.Body)]; ok && want != string(g.Body) || !ok && !may {
				diff = fmt.Sprintf("its content is %s", g)
			}
			return diff == ""
		}) && diff != "" {
			x.Violate("read", "%s: %q (slot %d of %s) through %s: %s (%s)", when, id, slotOf(id), w.groups[w.own[slotOf(id)]].store, a.N.ID, diff, w.history())
		}
		x.Event("names_read", 1)
	})
}

// refuse sends operations for names to servers of other groups.
func (w *slotWorld) refuse(rng *rand.Rand, bin string) {
	x := w.x
	for i, g := range w.groups {
		for _, n := range g.nodes {
			// who only follows may not have heard of slots that moved
			if !n.Running() || w.leftover != nil && len(g.nodes) > 1 && n != w.leaderOf(g) {
				continue
			}
			// names of others that exist and that do not, and at the seams of the ranges
			var ids []string
			w.mu.Lock()
			for id := range w.acked {
				if w.own[slotOf(id)] != i && len(ids) < 4 {
					ids = append(ids, id)
				}
			}
			w.mu.Unlock()
			for _, p := range g.slots {
				for _, s := range []int{p[0] - 1, p[1]} {
					if s >= 0 && s < nSlots && w.own[s] != i && len(ids) < 10 {
						ids = append(ids, "b/"+w.nameIn("b", func(t int) bool { return t == s }))
					}
				}
			}
			x.inproc(bin, 2*time.Minute, append([]string{"refuse", n.Addr()}, ids...)...)
			ms := MS{n}
			for _, id := range ids {
				v := MVersion{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: 7, Hash: "h", Locate: []string{"127.0.0.1:9"}}
				try := func(what string, r Resp, alsoOK ...int) {
					ok := r.Err == nil && r.Code >= 400
					x.Case(fmt.Sprintf("foreign %s at %d servers -> %d", what, len(g.nodes), r.Code))
					x.Event("foreign_requests", 1)
					if !ok {
						x.Violate("http:"+what, "%s of %q (slot %d) by %s, which does not own it, is answered %s", what, id, slotOf(id), n.ID, r)
					}
				}
				bucket, name, _ := strings.Cut(id, "/")
				try("add-meta", ms.AddMeta(id, name, bucket))
				try("update-meta", ms.UpdateMeta(id, "zz", bucket))
				_, r := ms.AddVer(id, v)
				try("add-version", r)
				try("update-version", ms.UpdateVer(id, 1, v))
				_, r = ms.GetMeta(id, -1, true)
				try("get-meta", r)
				_, r = ms.GetVer(id, 1)
				try("get-version", r)
				try("create-bucket", ms.CreateBucket(Bucket{Name: id}))
				try("update-bucket", ms.UpdateBucket(Bucket{Name: id}))
				_, r = ms.GetBucket(id)
				try("get-bucket", r)
				try("delete-bucket", ms.DelBucket(id))
				try("delete-version", ms.DelVer(id, 1))
				try("delete-meta", ms.DelMeta(id))
			}
		}
	}
}

func c13(x *Ctx) {
	x.Rule("the group that owns a name is computed from the configuration; uploads go through all api servers; every server's listing, answers for its own and for foreign names, and the slots in etcd must agree with it while leaders change, servers restart, etcd fails and misconfigured servers join. A case is distinct by request or disturbance and outcome")
	x.inproc("c22", 5*time.Minute, "slots")
	for i := 0; i < x.Pick(2, 12) && !x.Violated(); i++ {
		c13round(x, i)
	}
}

func c13round(x *Ctx, round int) {
	rng := rand.New(rand.NewSource(x.Seed*131 + int64(round)))
	sizes := [][]int{{1, 3}, {1, 1, 3}, {3, 1, 1}, {3, 3}}[(round+int(x.Seed))%4]
	w := newSlotWorld(x, fmt.Sprintf("c%d", round), rng, sizes, 2)
	if w == nil {
		return
	}
	if !w.bucket(Bucket{Name: "b", Versioning: true, VersionRemains: 1000}) {
		return
	}
	for i := 0; i < 8; i++ {
		if !w.bucket(Bucket{Name: fmt.Sprintf("bk%d", i), Versioning: true, VersionRemains: 1000}) {
			return
		}
	}
	if !w.settle(60 * time.Second) {
		return
	}
	// names at every seam, in one and in several versions
	for _, g := range w.groups {
		for _, p := range g.slots {
			for _, s := range []int{p[0], p[1] - 1} {
				n := w.nameIn("b", func(t int) bool { return t == s })
				for k := 0; k < 1+rng.Intn(2); k++ {
					a := w.apis[rng.Intn(2)]
					if r := w.put(a, "b", n, 10+k); r.Err != nil || r.Code/100 != 2 {
						x.Violate("upload", "undisturbed, an upload to slot %d is answered %s (%s)", s, r, w.history())
					}
				}
			}
		}
	}
	w.compare("at first")
	w.read("at first", rng, 60)
	w.refuse(rng, "c13")
	w.compare("after foreign requests")

	var stop atomic.Bool
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r2 := rand.New(rand.NewSource(x.Seed*7 + int64(i)))
			for !stop.Load() {
				b := []string{"b", "bk0", "bk1", "bk2"}[r2.Intn(4)]
				w.put(w.apis[r2.Intn(2)], b, w.nameIn(b, func(int) bool { return true }), 1+r2.Intn(20))
				time.Sleep(10 * time.Millisecond)
			}
		}(i)
	}
	for k := 0; k < x.Pick(5, 12) && !x.Violated(); k++ {
		what := w.disturb(rng, k)
		if !w.settle(60 * time.Second) {
			break
		}
		w.compare("after " + what)
		w.read("after "+what, rng, 40)
		x.Case(fmt.Sprintf("%v: %s", sizes, what))
	}
	stop.Store(true)
	wg.Wait()
	if !x.Violated() {
		w.compare("in the end")
		w.refuse(rng, "c13")
		w.compare("after the last foreign requests")
		w.read("in the end", rng, 200)
	}
	x.CheckAlive(w.c, w.dead...)
}

// leaderOf returns the member that etcd names as the leader.
func (w *slotWorld) leaderOf(g *slotGroup) *cluster.Node {
	_, servers, _ := w.slotRecords()
	return w.c.ByID(servers[g.store])
}

// taken returns a slot at a seam.
func (w *slotWorld) taken() int {
	for _, g := range w.groups {
		if len(g.slots) > 0 {
			return g.slots[0][0]
		}
	}
	return 0
}

func (w *slotWorld) start(n *cluster.Node) {
	if err := n.Start(); err != nil {
		panic(infra{err})
	}
}

func (w *slotWorld) disturb(rng *rand.Rand, k int) string {
	g := w.groups[rng.Intn(len(w.groups))]
	n := w.leaderOf(g)
	if n == nil {
		n = g.nodes[0]
	}
	kind := "single"
	if len(g.nodes) > 1 {
		kind = "leader"
	}
	what := ""
	switch d := rng.Intn(8); {
	case d == 0 || k == 0:
		what = "misconfigured server"
		bad := [][]string{{"0-16384"}, {"0-1"}, {fmt.Sprintf("%d-%d", w.taken(), w.taken()+1)}, {"abc"}, {"7-5"}, {"-3-5"}, {"1-2-3"}, {"100"}, {"16383-16384", "x-y"}}
		slots := bad[rng.Intn(len(bad))]
		b := w.c.AddMeta(fmt.Sprintf("bad%d", w.next.Add(1)), M{"hash-slot": M{"slots": slots}})
		w.did("a server with the slots %v joins", slots)
		w.start(b)
		_ = b.WaitReady(5 * time.Second)
		// all others go on as if it were not there
		for i := 0; i < 40; i++ {
			grp := i % len(w.groups)
			if len(w.groups[grp].slots) == 0 {
				continue
			}
			name := w.nameIn("b", func(s int) bool { return w.own[s] == grp })
			if r := w.put(w.apis[i%2], "b", name, 5); r.Err != nil || r.Code/100 != 2 {
				w.x.Violate("misconfigured", "while a server with the slots %v is there, an upload to %s is answered %s (%s)", slots, w.groups[grp].store, r, w.history())
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		if b.Running() {
			if have, ok := listed(w.x, b); ok && len(have) > 0 {
				w.x.Violate("misconfigured", "a server with the slots %v got names: %v", slots, have)
			}
		}
		b.Kill9()
		w.dead = append(w.dead, b)
	case d == 1:
		what = "kill " + kind
		n.Kill9()
		w.did("%s of %s killed", n.ID, g.store)
		time.Sleep(time.Duration(rng.Intn(4000)) * time.Millisecond)
		w.start(n)
	case d == 2:
		what = "stop " + kind
		n.Stop(20 * time.Second)
		w.did("%s of %s stopped", n.ID, g.store)
		time.Sleep(time.Duration(rng.Intn(4000)) * time.Millisecond)
		w.start(n)
	case d == 3:
		what = "etcd fails while the " + kind + " is restarted"
		w.did("%s of %s killed and requests to etcd fail", n.ID, g.store)
		n.Kill9()
		time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
		w.c.Etcd.FailKV.Store(true)
		if len(g.nodes) == 1 || rng.Intn(2) == 0 {
			w.start(n)
		}
		time.Sleep(time.Duration(1000+rng.Intn(3000)) * time.Millisecond)
		w.c.Etcd.FailKV.Store(false)
		if !n.Running() {
			w.start(n)
		}
	case d == 4:
		what = "all of the group restarted"
		for _, m := range g.nodes {
			m.Kill9()
		}
		w.did("all of %s killed", g.store)
		rng.Shuffle(len(g.nodes), func(a, b int) { g.nodes[a], g.nodes[b] = g.nodes[b], g.nodes[a] })
		for _, m := range g.nodes {
			w.start(m)
			time.Sleep(time.Duration(rng.Intn(500)) * time.Millisecond)
		}
	case d == 5:
		what = "all of the group stopped and started"
		for _, m := range g.nodes {
			m.Stop(20 * time.Second)
		}
		w.did("all of %s stopped", g.store)
		for _, m := range g.nodes {
			w.start(m)
		}
	case d == 6:
		what = "etcd down"
		w.did("etcd down")
		w.c.Etcd.Down()
		time.Sleep(time.Duration(500+rng.Intn(3000)) * time.Millisecond)
		if err := w.c.Etcd.Up(); err != nil {
			panic(infra{err})
		}
	default:
		what = "the " + kind + " is suspended"
		w.did("%s of %s suspended", n.ID, g.store)
		end := stall([]*cluster.Node{n}, rng.Int63(), 4*time.Second)
		time.Sleep(5 * time.Second)
		end()
	}
	w.x.Event("disturbances", 1)
	return what
}
