package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verifharness/cluster"
)

func init() { props["C06"] = c06 }

// vobj is what the history of one name should have left: the versions still there, in order.
type vobj struct {
	bucket, name string
	next         int32 // number the next upload must get
	nums         []int32
	bodies       map[int32][]byte
	opts         map[int32]string
	hashes       map[int32]string // as first described
}

// sameHash tells whether a version is described with the hash it had before (distinct contents have distinct hashes).
func (v *vobj) sameHash(e Version) bool {
	h, ok := v.hashes[e.Sequence]
	if !ok {
		for _, o := range v.hashes {
			if o == e.Hash {
				return false
			}
		}
		v.hashes[e.Sequence] = e.Hash
		return e.Hash != ""
	}
	return h == e.Hash
}

func (v *vobj) id() string { return v.bucket + "/" + v.name }

func c06(x *Ctx) {
	x.Rule("seeded histories of uploads (sequential, and concurrent through two api servers), removals (first, last, random) and restarts over names, some of which are confusable; " +
		"after each step listings with many page sizes, totals, first and last numbers, the latest and each version's content must be those of the model. A case is distinct by step, number of versions, page and size.")
	c := x.Cluster("c", false)
	meta := c.AddMeta("meta1", nil)
	for i := 0; i < 3; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 1, nil)
	}
	over := M{"object": M{"distinct-size": "1GB", "reed-solomon": M{"data-shards": 2, "parity-shards": 1, "block-per-shard": 4096}, "replication": M{"copies-count": 1}}}
	as := []API{{N: c.AddAPI("api1", over)}, {N: c.AddAPI("api2", over)}}
	ms := MS{N: meta}
	if !x.Start(c) {
		return
	}
	for _, b := range []Bucket{{Name: "v", Versioning: true, VersionRemains: 100000}, {Name: "v.1", Versioning: true, VersionRemains: 100000}} {
		if !x.MustBucket(as[0], b) {
			return
		}
	}
	rng := rand.New(rand.NewSource(x.Seed * 101))
	var tmu sync.Mutex
	tag := x.Seed * 100000
	body := func() []byte {
		tmu.Lock()
		defer tmu.Unlock()
		tag++
		return []byte(fmt.Sprintf("%d-%s", tag, blob(1+rng.Intn(60), tag)))
	}
	objs := map[string]*vobj{}
	get := func(bucket, name string) *vobj {
		k := bucket + "/" + name
		if objs[k] == nil {
			objs[k] = &vobj{bucket: bucket, name: name, next: 1, bodies: map[int32][]byte{}, opts: map[int32]string{}, hashes: map[int32]string{}}
		}
		return objs[k]
	}
	put := func(v *vobj, opts string) bool {
		b := body()
		pr, r := as[rng.Intn(2)].Put(v.bucket, v.name, b, opts)
		x.Event("uploads", 1)
		if r.Err != nil || r.Code != 201 {
			x.Violate("put", "healthy cluster refuses upload %d of %s: %s", v.next, v.id(), r)
			return false
		}
		if pr.Version != v.next {
			x.Violate("number", "upload of %s got version %d, want %d", v.id(), pr.Version, v.next)
			return false
		}
		v.nums = append(v.nums, v.next)
		v.bodies[v.next], v.opts[v.next] = b, opts
		v.next++
		return true
	}
	// check compares everything visible of v with the model; deep: also every version's content
	check := func(v *vobj, when string, deep bool) {
		a := as[rng.Intn(2)]
		n := len(v.nums)
		x.Event("objects_checked", 1)
		m, r := a.Meta(v.bucket, v.name, 0)
		if n > 0 {
			if r.Err != nil || r.Code != 200 || m.Total != n || m.FirstVersion != int(v.nums[0]) || m.LastVersion != int(v.nums[n-1]) || len(m.Versions) != 1 || m.Versions[0].Sequence != v.nums[n-1] {
				x.Violate("describe", "%s: %s with versions %v is described as total %d, first %d, last %d, shown %+v: %s", when, v.id(), v.nums, m.Total, m.FirstVersion, m.LastVersion, m.Versions, r)
			}
			if m.Bucket != v.bucket || m.Name != v.name {
				x.Violate("name", "%s: %s is described as %q in %q", when, v.id(), m.Name, m.Bucket)
			}
			if e := sameBody(a.Get(v.bucket, v.name, 0, -1), v.bodies[v.nums[n-1]]); e != "" {
				x.Violate("latest", "%s: latest of %s (versions %v): %s", when, v.id(), v.nums, e)
			}
		} else if g := a.Get(v.bucket, v.name, 0, -1); g.Err == nil && g.Code/100 == 2 {
			x.Violate("ghost", "%s: %s without versions is served: %s", when, v.id(), g)
		}
		sizes := []int{1, 2, 3, 7, 9, 10, 11, 50, 100, 1000, n, n + 1, n - 1}
		use := map[int]bool{1000: true, sizes[rng.Intn(len(sizes))]: true}
		if deep {
			for _, s := range sizes[2:] {
				use[s] = true
			}
		}
		for s := range use {
			if s < 1 || (s < 4 && n > 40) {
				continue
			}
			var seen []int32
			for p := 1; p <= n/s+2; p++ {
				vs, total, r := a.Versions(v.bucket, v.name, p, s)
				x.Event("pages", 1)
				if r.Err == nil && r.Code == 404 && n == 0 {
					break
				}
				if r.Err != nil || r.Code != 200 || total != n {
					x.Violate("list", "%s: page %d of %d of %s: total %d, want %d: %s", when, p, s, v.id(), total, n, r)
					break
				}
				want := n - (p-1)*s
				if want > s {
					want = s
				}
				if want < 0 {
					want = 0
				}
				if len(vs) != want {
					x.Violate("page", "%s: page %d of %d of %s (%d versions) has %d entries, want %d", when, p, s, v.id(), n, len(vs), want)
				}
				x.Case(fmt.Sprintf("%s n=%d page=%d size=%d", strings.Fields(when)[0], n, p, s))
				for _, e := range vs {
					seen = append(seen, e.Sequence)
					if b := v.bodies[e.Sequence]; b == nil || e.Size != int64(len(b)) || !v.sameHash(e) {
						x.Violate("entry", "%s: %s lists version %d as %+v, but its content is %d bytes and its hash was %s", when, v.id(), e.Sequence, e, len(b), v.hashes[e.Sequence])
					}
				}
			}
			if fmt.Sprint(seen) != fmt.Sprint(v.nums) {
				x.Violate("order", "%s: pages of %d of %s list %v, want %v", when, s, v.id(), seen, v.nums)
			}
		}
		some := v.nums
		if !deep && n > 6 {
			some = []int32{v.nums[0], v.nums[1], v.nums[n/2], v.nums[rng.Intn(n)], v.nums[n-2], v.nums[n-1]}
		}
		for _, k := range some {
			if e := sameBody(a.Get(v.bucket, v.name, k, -1), v.bodies[k]); e != "" {
				x.Violate("content", "%s: %s version %d of %v: %s", when, v.id(), k, v.nums, e)
			}
			mm, r := a.Meta(v.bucket, v.name, k)
			if r.Err != nil || r.Code != 200 || len(mm.Versions) != 1 || mm.Versions[0].Sequence != k || !v.sameHash(mm.Versions[0]) {
				x.Violate("version-meta", "%s: metadata of %s version %d: %+v %s", when, v.id(), k, mm.Versions, r)
			}
			x.Event("versions_read", 1)
		}
		live := map[int32]bool{}
		for _, k := range v.nums {
			live[k] = true
		}
		gone := 0
		for k := int32(1); k <= v.next && gone < 12; k++ {
			if live[k] {
				continue
			}
			gone++
			if g := a.Get(v.bucket, v.name, k, -1); g.Err == nil && g.Code != 404 {
				x.Violate("ghost", "%s: %s version %d, which does not exist (have %v), is answered %s", when, v.id(), k, v.nums, g)
			}
			x.Event("absent_versions_read", 1)
		}
	}
	remove := func(v *vobj, i int) {
		k := v.nums[i]
		r := ms.DelVer(v.id(), int(k))
		if r.Err != nil || r.Code/100 != 2 {
			x.Violate("remove", "removing version %d of %s: %s", k, v.id(), r)
			return
		}
		v.nums = append(append([]int32{}, v.nums[:i]...), v.nums[i+1:]...)
		x.Event("removals", 1)
	}
	opt := func() string { return []string{"ss=1", "ss=2", ""}[rng.Intn(3)] }
	// sequential histories of several lengths
	lens := []int{1, 2, 9, 10, 11, 25, 101}
	if x.Thorough() {
		lens = append(lens, 99, 100, 257, 1003)
	}
	seq := make([]*vobj, len(lens))
	for i, l := range lens {
		seq[i] = get("v", fmt.Sprintf("seq%d", l))
	}
	for i, l := range lens {
		for k := 0; k < l; k++ {
			if !put(seq[i], opt()) {
				return
			}
		}
		check(seq[i], "after-uploads", l < 130)
	}
	// names that a key scheme could confuse, interleaved
	conf := []*vobj{}
	for _, n := range []string{"a", "a.1", "a.1.1", "a.2", "a/1", "a/b", "b", "A", "a ", "ä", "a%2F1", "1", "1.1", "a..1", "metadata_a", "version_a", "a?x", "a#y", "list"} {
		for _, b := range []string{"v", "v.1"} {
			conf = append(conf, get(b, n))
		}
	}
	for k := 0; k < x.Pick(3, 8)*len(conf); k++ {
		v := conf[rng.Intn(len(conf))]
		if !put(v, opt()) {
			return
		}
	}
	for _, v := range conf {
		check(v, "confusable-names", true)
	}
	// concurrent uploads to one name
	for round := 0; round < x.Pick(4, 20); round++ {
		v := get("v", fmt.Sprintf("conc%d", round%3))
		n, w := x.Pick(24, 60), 4+rng.Intn(8)
		type up struct {
			b          []byte
			ver        int32
			from, till time.Time
			ok         bool
		}
		ups := make([]up, n)
		for i := range ups {
			ups[i].b = body()
		}
		opts := []string{"ss=1", "ss=2"}[round%2]
		parallel(n, w, func(i int) {
			u := &ups[i]
			u.from = time.Now()
			pr, r := as[i%2].Put(v.bucket, v.name, u.b, opts)
			u.till = time.Now()
			u.ver, u.ok = pr.Version, r.Err == nil && r.Code == 201
			if !u.ok {
				x.Violate("put", "healthy cluster refuses a concurrent upload of %s: %s", v.id(), r)
			}
		})
		x.Event("concurrent_uploads", int64(n))
		bad := false
		for i, u := range ups {
			if !u.ok {
				bad = true
				continue
			}
			if v.bodies[u.ver] != nil || u.ver < v.next || u.ver >= v.next+int32(n) {
				x.Violate("number", "concurrent upload of %s got version %d (%d uploads after version %d)", v.id(), u.ver, n, v.next-1)
				bad = true
				continue
			}
			v.bodies[u.ver], v.opts[u.ver] = u.b, opts
			for j, o := range ups {
				if o.ok && o.till.Before(u.from) && o.ver > u.ver {
					x.Violate("time-order", "%s: upload %d (version %d) was acknowledged before upload %d began, which got version %d", v.id(), j, o.ver, i, u.ver)
				}
			}
		}
		if bad {
			return
		}
		for i := 0; i < n; i++ {
			v.nums = append(v.nums, v.next)
			v.next++
		}
		x.Case(fmt.Sprintf("concurrent n=%d w=%d base=%d", n, w, v.next-int32(n)-1))
		check(v, "concurrent-uploads", true)
	}
	// random histories of uploads and removals, with restarts of the metadata server
	for i := 0; i < x.Pick(160, 1500); i++ {
		var v *vobj
		switch rng.Intn(3) {
		case 0:
			v = seq[rng.Intn(len(seq))]
		case 1:
			v = conf[rng.Intn(len(conf))]
		default:
			v = get("v", fmt.Sprintf("conc%d", rng.Intn(3)))
		}
		n := len(v.nums)
		switch k := rng.Intn(8); {
		case k < 3 || n == 0:
			if !put(v, opt()) {
				return
			}
		case k == 3:
			remove(v, 0)
		case k == 4:
			remove(v, n-1)
		case k == 5:
			remove(v, rng.Intn(n))
		case k == 6 && n > 12: // a run of removals around the tenth
			for j := 0; j < 4; j++ {
				remove(v, minInt(7+j, len(v.nums)-1))
			}
		default:
			remove(v, rng.Intn(n))
		}
		check(v, fmt.Sprintf("history step %d", i), i%8 == 0)
		if i%40 == 39 {
			if i%80 == 39 {
				meta.Kill9()
			} else {
				meta.Stop(10 * time.Second)
			}
			if err := restart(meta); err != nil {
				x.Violate("restart", "metadata server does not come up again: %v", err)
				return
			}
			waitView(x, c, as[0])
			x.Event("metaserver_restarts", 1)
			check(v, "restarted", true)
			check(seq[len(seq)-1], "restarted", false)
		}
	}
	for _, v := range objs {
		check(v, "end", false)
	}
	x.CheckAlive(c)
}

func restart(n *cluster.Node) error {
	n.RewriteConf()
	if err := n.Start(); err != nil {
		return err
	}
	return n.WaitReady(60 * time.Second)
}
