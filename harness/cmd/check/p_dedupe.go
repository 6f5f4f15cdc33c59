package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/cluster"
)

func init() { props["C08"] = c08 }

// ddWorld is one history over a few contents that no other history uses.
type ddWorld struct {
	x     *Ctx
	c     *cluster.Cluster
	id    int
	rng   *rand.Rand
	apis  []ddAPI
	conts [][]byte
	hash  map[string]string // what identifies the stored form -> version hash
	objs  []ddObj
	hist  []string
	n     int

	lastOpts []ddOpt
}

type ddOpt struct {
	a   ddAPI
	b   Bucket
	ci  int
	ss  int
	zip bool
}

type ddAPI struct {
	API
	rsD, rsP, copies int
}

type ddObj struct {
	bucket, name string
	v            int32
	cont         int
	how          string
	n            int
	hash         string
}

var ddBuckets = []Bucket{
	{Name: "b", Versioning: true, VersionRemains: 1000},
	{Name: "bz", Versioning: true, VersionRemains: 1000, Compress: true},
	{Name: "bec", Versioning: true, VersionRemains: 1000, StoreStrategy: 1, DataShards: 2, ParityShards: 1},
}

// present returns for each shard of hash the live servers that have its file.
func (w *ddWorld) present(hash string, n int) [][]string {
	res := make([][]string, n)
	for _, nd := range w.c.ByKind("objectserver") {
		if !nd.Running() {
			continue
		}
		for i := 0; i < n; i++ {
			if p := locateShard(w.c, nd.Addr(), fmt.Sprintf("%s.%d", hash, i)); p != "" {
				res[i] = append(res[i], p)
			}
		}
	}
	return res
}

func ddIdent(fs []string) string {
	var r []string
	for _, p := range fs {
		if st, err := os.Stat(p); err == nil {
			r = append(r, fmt.Sprintf("%s %d %d", p, st.Size(), st.Sys().(*syscall.Stat_t).Ino))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// upload stores content ci again in some way and judges how it was stored.
func (w *ddWorld) upload(ci int) {
	x, r := w.x, w.rng
	a := w.apis[r.Intn(len(w.apis))]
	b := ddBuckets[r.Intn(len(ddBuckets))]
	body := w.conts[ci]
	ss, zip, big := 1+r.Intn(2), r.Intn(3) == 0, r.Intn(3) == 0
	name := fmt.Sprintf("w%d-%d", w.id, r.Intn(5))
	if r.Intn(2) == 0 {
		w.n++
		name = fmt.Sprintf("w%d-new-%d", w.id, w.n)
	}
	if w.rng.Intn(10) < 6 && w.lastOpts != nil { // as before
		o := w.lastOpts[r.Intn(len(w.lastOpts))]
		a, b, ss, zip = o.a, o.b, o.ss, o.zip
		ci = o.ci
		body = w.conts[ci]
	} else {
		w.lastOpts = append(w.lastOpts, ddOpt{a, b, ci, ss, zip})
	}
	opts := fmt.Sprintf("ss=%d&compress=%v", ss, zip)
	// what the settings make of it
	rs, effZip, ds, ps := ss == 1 || big, zip || b.Compress, a.rsD, a.rsP
	if b.StoreStrategy == 1 {
		rs, ds, ps = true, b.DataShards, b.ParityShards
	}
	n := ds + ps
	key := fmt.Sprintf("%d rs %d+%d zip=%v", ci, ds, ps, effZip)
	if !rs {
		n = a.copies
		key = fmt.Sprintf("%d copies zip=%v", ci, effZip)
	}
	complete := false
	var before [][]string
	if h := w.hash[key]; h != "" {
		complete = true
		before = w.present(h, n)
		for _, p := range before {
			complete = complete && len(p) > 0
		}
	}
	var all []string
	if h := w.hash[key]; h != "" {
		all = shardList(w.c, h)
	}
	id1 := ddIdent(all)
	how := fmt.Sprintf("%s/%s by %s %s %s, complete before: %v", b.Name, name, a.N.ID, map[bool]string{true: "big", false: "put"}[big], key, complete)
	w.hist = append(w.hist, how)
	bad := func(k, f string, v ...any) {
		x.Violate(k, "history %v: %s", w.hist, fmt.Sprintf(f, v...))
	}
	var v int32
	if !big {
		pr, res := a.Put(b.Name, name, body, opts)
		if res.Err != nil || res.Code != 201 {
			bad("put", "%s is answered %s", how, res)
			return
		}
		v = pr.Version
	} else {
		p := "/v1/big/" + url.PathEscape(name)
		if zip {
			p += "?compress=true"
		}
		res := a.do("POST", p, nil, "Bucket", b.Name, "Digest", digest(body), "Size", strconv.Itoa(len(body)))
		switch {
		case res.Err == nil && res.Code == 200:
			if !complete {
				bad("acknowledged-incomplete", "%s is acknowledged before anything was sent although shards are missing: %s", how, res)
				return
			}
		case res.Err == nil && res.Code == 201 && res.Header.Get("Location") != "":
			if complete {
				bad("not-shared", "%s is to be sent although the content is stored", how)
				return
			}
			pres := a.do("PATCH", res.Header.Get("Location"), body, "Range", fmt.Sprintf("bytes=0-%d", len(body)-1))
			if pres.Err != nil || pres.Code != 200 {
				bad("big", "%s: sending the whole content is answered %s", how, pres)
				return
			}
		default:
			bad("big", "%s is answered %s", how, res)
			return
		}
	}
	m, res := a.Meta(b.Name, name, v)
	if res.Err != nil || res.Code != 200 || len(m.Versions) != 1 {
		bad("metadata", "%s: no metadata: %s", how, res)
		return
	}
	ver := m.Versions[0]
	v = ver.Sequence
	if h := w.hash[key]; h != "" && h != ver.Hash {
		bad("identity", "%s: the same content stored the same way has hash %s and %s", how, h, ver.Hash)
		return
	}
	for k, h := range w.hash {
		if k != key && h == ver.Hash {
			bad("identity", "%s: has the hash of %s", how, k)
			return
		}
	}
	w.hash[key] = ver.Hash
	if len(ver.Locate) != n {
		bad("locates", "%s: %d locations for %d shards", how, len(ver.Locate), n)
		return
	}
	if complete {
		if d := ddIdent(shardList(w.c, ver.Hash)); d != id1 {
			bad("not-shared", "%s: the content was stored again: before\n%s\nnow\n%s", how, id1, d)
		}
		x.Event("uploads_that_shared", 1)
	} else {
		x.Event("uploads_that_stored", 1)
	}
	for i, l := range ver.Locate {
		nd := nodeByAddr(w.c, l)
		if nd == nil || !nd.Running() || locateShard(w.c, l, fmt.Sprintf("%s.%d", ver.Hash, i)) == "" {
			bad("incomplete", "%s: acknowledged but shard %d is not at its location %s", how, i, l)
		}
	}
	o := ddObj{b.Name, name, v, ci, how, n, ver.Hash}
	w.objs = append(w.objs, o)
	w.read(o)
	x.Case(fmt.Sprintf("%s complete=%v big=%v known=%v n=%d lost=%d", strings.SplitN(key, " ", 2)[1], complete, big, before != nil, len(body), lostCount(before)))
}

func lostCount(p [][]string) (n int) {
	for _, l := range p {
		if len(l) == 0 {
			n++
		}
	}
	return
}

func (w *ddWorld) read(o ddObj) {
	a := w.apis[w.rng.Intn(len(w.apis))]
	off := int64(-1)
	want := w.conts[o.cont]
	if w.rng.Intn(2) == 0 && len(want) > 1 {
		off = int64(w.rng.Intn(len(want)))
		want = want[off:]
	}
	if e := sameBody(a.Get(o.bucket, o.name, o.v, off), want); e != "" {
		w.x.Violate("content", "history %v: version %d of %s/%s (%s) from %d: %s", w.hist, o.v, o.bucket, o.name, o.how, off, e)
	}
	w.x.Event("reads_compared", 1)
}

// lose removes the files of some shards of one stored form.
func (w *ddWorld) lose() {
	var keys []string
	for k := range w.hash {
		keys = append(keys, k)
	}
	if len(keys) == 0 {
		return
	}
	sort.Strings(keys)
	k := keys[w.rng.Intn(len(keys))]
	fs := shardList(w.c, w.hash[k])
	if len(fs) == 0 {
		return
	}
	n := 1 + w.rng.Intn(len(fs))
	if w.rng.Intn(3) > 0 {
		n = 1
	}
	var idx []string
	for _, i := range subset(w.rng, len(fs), n) {
		os.Remove(fs[i])
		idx = append(idx, filepath.Ext(fs[i]))
	}
	w.hist = append(w.hist, fmt.Sprintf("lost %v of %s", idx, k))
	w.x.Event("shards_lost", int64(n))
}

// lie starts an upload of stored content with another size than it has: there is no such content.
func (w *ddWorld) lie() {
	a := w.apis[w.rng.Intn(len(w.apis))]
	b := ddBuckets[w.rng.Intn(len(ddBuckets))]
	body := w.conts[w.rng.Intn(len(w.conts))]
	n := len(body) + []int{-5, -1, 1, 4096, 100000}[w.rng.Intn(5)]
	if n <= 0 {
		n = 2 * len(body)
	}
	w.n++
	name := fmt.Sprintf("w%d-lie-%d", w.id, w.n)
	p := "/v1/big/" + name
	if w.rng.Intn(2) == 0 {
		p += "?compress=true"
	}
	r := a.do("POST", p, nil, "Bucket", b.Name, "Digest", digest(body), "Size", strconv.Itoa(n))
	if r.Err == nil && r.Code == 201 {
		h := []string{"Range", fmt.Sprintf("bytes=0-%d", len(body)-1)}
		pr := a.do("PATCH", r.Header.Get("Location"), body, h...)
		w.x.Event("false_sizes_sent", 1)
		if pr.Err == nil && pr.Code == 200 {
			w.x.Violate("false-size", "history %v: %d bytes sent for an announced size of %d complete the upload: %s", w.hist, len(body), n, pr)
		}
	}
	if _, m := a.Meta(b.Name, name, 0); m.Code != 404 {
		w.x.Violate("false-size", "history %v: content of %d bytes announced with size %d is accepted by %s (%s): a version exists: %s", w.hist, len(body), n, a.N.ID, r, m)
	}
	w.x.Case(fmt.Sprintf("false size %d by %d bucket %s answered %d", len(body), n-len(body), b.Name, r.Code))
}

// swap uploads other content of the same size under the digest of stored content.
func (w *ddWorld) swap() {
	a := w.apis[2*w.rng.Intn(2)] // those that compare digests
	b := ddBuckets[w.rng.Intn(len(ddBuckets))]
	body := w.conts[w.rng.Intn(len(w.conts))]
	bad := append([]byte(nil), body...)
	bad[w.rng.Intn(len(bad))] ^= byte(1 + w.rng.Intn(255))
	w.n++
	name := fmt.Sprintf("w%d-swap-%d", w.id, w.n)
	opts := []string{"ss=1", "ss=2", "ss=1&compress=true", "ss=2&compress=true", ""}[w.rng.Intn(5)]
	_, r := a.PutDigest(b.Name, name, bad, digest(body), opts)
	if r.Err == nil && r.Code/100 == 2 {
		w.x.Violate("false-content", "history %v: other content of %d bytes under the digest of stored content (%q to %s) is answered %s by %s", w.hist, len(bad), opts, b.Name, r, a.N.ID)
	}
	if _, m := a.Meta(b.Name, name, 0); m.Code != 404 {
		w.x.Violate("false-content", "history %v: other content of %d bytes under the digest of stored content (%q to %s, answered %s by %s) makes a version: %s", w.hist, len(bad), opts, b.Name, r, a.N.ID, m)
	}
	w.x.Event("false_contents_sent", 1)
	w.x.Case(fmt.Sprintf("false content of %d %s bucket %s answered %d", len(body), opts, b.Name, r.Code))
}

// readAll reads every version whose shards are all where its metadata says.
func (w *ddWorld) readAll() {
	for _, o := range w.objs {
		m, r := w.apis[0].Meta(o.bucket, o.name, o.v)
		if r.Err != nil || r.Code != 200 || len(m.Versions) != 1 {
			w.x.Violate("metadata", "history %v: no metadata of version %d of %s/%s: %s", w.hist, o.v, o.bucket, o.name, r)
			continue
		}
		ok := true
		for i, l := range m.Versions[0].Locate {
			ok = ok && locateShard(w.c, l, fmt.Sprintf("%s.%d", m.Versions[0].Hash, i)) != ""
		}
		if ok {
			w.read(o)
		}
	}
}

func c08(x *Ctx) {
	x.Rule("histories of uploads (one request and resumable, both strategies, compressed or not, three configurations, several buckets and names) of a few contents each, with shard " +
		"files lost and servers killed in between; the files of all servers tell before each upload whether the content is completely stored. A case is distinct by stored form, " +
		"whether it was known, complete, how many shards were lost, the kind of upload and the size.")
	c := x.Cluster("c", false)
	c.AddMeta("meta1", nil)
	for i := 0; i < 8; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 1+i%2, M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}})
	}
	mk := func(id string, d, p, cp int, sum bool) ddAPI {
		return ddAPI{API{N: c.AddAPI(id, M{"object": M{"distinct-size": "0B", "distinct-timeout": "1500ms", "checksum": sum,
			"reed-solomon": M{"data-shards": d, "parity-shards": p, "rewrite-async": false}, "replication": M{"copies-count": cp}}})}, d, p, cp}
	}
	apis := []ddAPI{mk("api0", 4, 2, 3, true), mk("api1", 4, 2, 3, false), mk("api2", 3, 2, 2, true)}
	if !x.Start(c) {
		return
	}
	for _, b := range ddBuckets {
		if !x.MustBucket(apis[0].API, b) {
			return
		}
	}
	sizes := []int{1, 700, 4096, 20000, 65536, 200001, 524288, 900001}
	nw := x.Pick(24, 200)
	worlds := make([]*ddWorld, nw)
	for i := range worlds {
		w := &ddWorld{x: x, c: c, id: i, rng: rand.New(rand.NewSource(x.Seed*7717 + int64(i))), apis: apis, hash: map[string]string{}}
		for k := 0; k < 2; k++ {
			b := blob(sizes[(i*2+k)%len(sizes)]+8, int64(i*2+k)+x.Seed*3331)
			copy(b, fmt.Sprintf("%05d-%d", i, k))
			w.conts = append(w.conts, b)
		}
		worlds[i] = w
	}
	parallel(nw, 24, func(i int) {
		w := worlds[i]
		for s := 0; s < x.Pick(14, 30) && !x.Violated(); s++ {
			switch k := w.rng.Intn(12); {
			case k == 11:
				w.swap()
			case k == 10:
				w.lie()
			case k < 7:
				w.upload(w.rng.Intn(len(w.conts)))
			case k < 9:
				w.lose()
			default:
				w.readAll()
			}
		}
		w.readAll()
	})
	if x.Violated() {
		return
	}
	c08same(x, c, apis)
	c08unread(x, apis)
	// servers gone and back again
	nodes := c.ByKind("objectserver")
	rng := rand.New(rand.NewSource(x.Seed * 13))
	for round := 0; round < x.Pick(1, 4) && !x.Violated(); round++ {
		v := nodes[rng.Intn(len(nodes))]
		v.Kill9()
		for k, a := range c.Etcd.List(c.Group + "/registry/objectserver/") {
			if a == v.Addr() {
				c.Etcd.RevokeLeaseOf(k)
			}
		}
		waitView(x, c, apis[0].API)
		for _, w := range worlds {
			w.hist = append(w.hist, "killed "+v.ID)
		}
		parallel(nw, 24, func(i int) {
			for s := 0; s < 3; s++ {
				worlds[i].upload(worlds[i].rng.Intn(2))
			}
		})
		if err := v.Start(); err != nil || v.WaitReady(20*time.Second) != nil {
			x.Violate("restart", "%s does not start again: %v", v.ID, err)
			return
		}
		waitView(x, c, apis[0].API)
		for _, w := range worlds {
			w.hist = append(w.hist, "restarted "+v.ID)
		}
		parallel(nw, 24, func(i int) {
			worlds[i].readAll()
			for s := 0; s < 2; s++ {
				worlds[i].upload(worlds[i].rng.Intn(2))
			}
			worlds[i].readAll()
		})
	}
	// etcd ends the watches by which servers are asked for contents
	for round := 0; round < x.Pick(1, 3) && !x.Violated(); round++ {
		c.Etcd.CancelWatches()
		time.Sleep(1500 * time.Millisecond)
		waitView(x, c, apis[0].API)
		for _, w := range worlds {
			w.hist = append(w.hist, "watches were cancelled")
		}
		x.Event("watches_cancelled", 1)
		parallel(nw, 24, func(i int) {
			for s := 0; s < 3; s++ {
				worlds[i].upload(worlds[i].rng.Intn(2))
			}
			worlds[i].readAll()
		})
	}
	x.CheckAlive(c)
}

// c08same uploads equal contents at the same time under many names.
func c08same(x *Ctx, c *cluster.Cluster, apis []ddAPI) {
	for round := 0; round < x.Pick(6, 40) && !x.Violated(); round++ {
		body := blob(30000+round*41111, int64(round)+x.Seed*517)
		copy(body, fmt.Sprintf("same-%d", round))
		ss := 1 + round%2
		var mu sync.Mutex
		type up struct {
			name string
			v    int32
		}
		var ups []up
		parallel(8, 8, func(i int) {
			n := fmt.Sprintf("same-%d-%d", round, i/2)
			pr, r := apis[i%2].Put("b", n, body, fmt.Sprintf("ss=%d", ss))
			if r.Err != nil || r.Code != 201 {
				x.Violate("put", "upload of equal contents at the same time is answered %s", r)
				return
			}
			mu.Lock()
			ups = append(ups, up{n, pr.Version})
			mu.Unlock()
		})
		for _, u := range ups {
			m, r := apis[0].Meta("b", u.name, u.v)
			if r.Code != 200 || len(m.Versions) != 1 {
				x.Violate("metadata", "no metadata of %s version %d: %s", u.name, u.v, r)
				continue
			}
			for i, l := range m.Versions[0].Locate {
				if locateShard(c, l, fmt.Sprintf("%s.%d", m.Versions[0].Hash, i)) == "" {
					x.Violate("incomplete", "equal contents uploaded at the same time: shard %d of %s version %d is not at its location %s", i, u.name, u.v, l)
				}
			}
			if e := sameBody(apis[round%2].Get("b", u.name, u.v, -1), body); e != "" {
				x.Violate("content", "equal contents uploaded at the same time: %s version %d: %s", u.name, u.v, e)
			}
			x.Event("concurrent_equal_uploads", 1)
		}
		x.Case(fmt.Sprintf("concurrent round ss=%d size=%d", ss, len(body)))
	}
}

// c08unread uploads stored contents that are large enough for the server to answer before it has all of them.
func c08unread(x *Ctx, apis []ddAPI) {
	for k, n := range []int{300000, 3 << 20, 24 << 20} {
		body := blob(n, int64(k)+x.Seed*91)
		copy(body, fmt.Sprintf("unread-%d", k))
		for i := 0; i < 6; i++ {
			a := apis[i%2]
			nm := fmt.Sprintf("unread-%d-%d", k, i)
			if _, r := a.Put("b", nm, body, "ss=1"); r.Err != nil || r.Code != 201 {
				x.Violate("unread", "upload %d of the same %d bytes by %s is answered %s", i+1, n, a.N.ID, r)
				return
			}
			if i%3 == 2 {
				if e := sameBody(apis[2].Get("b", nm, 0, -1), body); e != "" {
					x.Violate("content", "upload %d of the same %d bytes: %s", i+1, n, e)
				}
			}
		}
		x.Case(fmt.Sprintf("large stored content %d", n))
	}
}
