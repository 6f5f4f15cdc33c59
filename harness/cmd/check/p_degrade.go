package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/cluster"
)

func init() {
	props["C02"] = c02
	props["C03"] = c03
}

type degObj struct {
	api    API
	name   string
	bucket string
	body   []byte
	rs     bool
	zip    bool
	n, tol int // shards (copies), tolerated losses
	hash   string
	desc   string
	shard  map[int][]byte // original content of each shard file
}

// locateShard returns the file of shard i at the server that the metadata points to ("" when there is none).
func locateShard(c *cluster.Cluster, addr, key string) string {
	n := nodeByAddr(c, addr)
	if n == nil {
		return ""
	}
	for _, d := range n.StoreDirs() {
		if _, err := os.Stat(filepath.Join(d, key)); err == nil {
			return filepath.Join(d, key)
		}
	}
	return ""
}

// place reads the object's locations and returns the files its shards are in now.
func (o *degObj) place(x *Ctx, c *cluster.Cluster) ([]string, []string, bool) {
	m, r := o.api.Meta(o.bucket, o.name, 0)
	if r.Err != nil || r.Code != 200 || len(m.Versions) == 0 {
		x.Violate("metadata", "%s: no metadata of a stored object: %s", o.desc, r)
		return nil, nil, false
	}
	v := m.Versions[0]
	o.hash = v.Hash
	if len(v.Locate) != o.n {
		x.Violate("locates", "%s: %d locations for %d shards", o.desc, len(v.Locate), o.n)
		return nil, nil, false
	}
	fs := make([]string, o.n)
	for i, a := range v.Locate {
		fs[i] = locateShard(c, a, fmt.Sprintf("%s.%d", v.Hash, i))
	}
	return v.Locate, fs, true
}

type degCfg struct {
	rsD, rsP, copies int
	over             M
}

func degSetup(x *Ctx, cfgs []degCfg, sizes []int, nobj int) (*cluster.Cluster, []*degObj) {
	c := x.Cluster("c", false)
	c.AddMeta("meta1", nil)
	for i := 0; i < nobj; i++ {
		// no content cache: what is lost on disk is lost
		c.AddObject(fmt.Sprintf("obj%d", i), 1+i%2, M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}})
	}
	var apis, placers []API
	for _, st := range []string{"space-first", "io-first", "random"} {
		placers = append(placers, API{N: c.AddAPI("api-"+st, M{"select-strategy": st, "object": M{"reed-solomon": M{"data-shards": 9, "parity-shards": 3, "block-per-shard": 4096}}})})
	}
	for i, f := range cfgs {
		apis = append(apis, API{N: c.AddAPI(fmt.Sprintf("api%d", i), f.over)})
	}
	if !x.Start(c) || !x.MustBucket(apis[0], Bucket{Name: "b"}) {
		return nil, nil
	}
	degPlaced(x, placers, nobj)
	var objs []*degObj
	for ci, f := range cfgs {
		for k, s := range sizes {
			for v := 0; v < 3; v++ {
				if !x.Thorough() && v == 1 && k%2 == ci%2 {
					continue
				}
				o := &degObj{api: apis[ci], bucket: "b", name: fmt.Sprintf("o-%d-%d-%d", ci, s, v), body: blob(s, int64(ci*100+k*3+v)+x.Seed*977)}
				o.body[0] = byte(len(objs)) // equal contents would share shards
				opts := "ss=1"
				o.n, o.tol, o.rs = f.rsD+f.rsP, f.rsP, true
				if v == 1 {
					opts, o.zip = "ss=1&compress=true", true
				}
				if v == 2 {
					opts = "ss=2"
					o.n, o.tol, o.rs = f.copies, f.copies-1, false
					if k%3 == 1 {
						opts, o.zip = "ss=2&compress=true", true
					}
				}
				o.desc = fmt.Sprintf("cfg%d %s size=%d", ci, opts, s)
				if _, r := o.api.Put(o.bucket, o.name, o.body, opts); r.Err != nil || r.Code != 201 {
					x.Violate("put", "healthy cluster refuses an upload: %s: %s", o.desc, r)
					return nil, nil
				}
				_, fs, ok := o.place(x, c)
				if !ok {
					return nil, nil
				}
				o.shard = map[int][]byte{}
				for i, f := range fs {
					b, err := os.ReadFile(f)
					if err != nil {
						x.Violate("shard-missing", "%s: shard %d of an acknowledged object is not at its location", o.desc, i)
						return nil, nil
					}
					o.shard[i] = b
				}
				objs = append(objs, o)
			}
		}
	}
	return c, objs
}

// degPlaced: however servers are selected, the shards of an object are spread over as many as there are,
// or else the loss of one server would take several of them.
func degPlaced(x *Ctx, apis []API, servers int) {
	for ai, a := range apis {
		parallel(x.Pick(8, 40), 4, func(i int) {
			bd := blob(3000+i*9973, x.Seed*7919+int64(ai*100+i))
			opts, n := "ss=1", 12
			if i%2 == 1 {
				opts, n = "ss=2", 3
			}
			name := fmt.Sprintf("placed-%d-%d", ai, i)
			pr, r := a.Put("b", name, bd, opts)
			if r.Err != nil || r.Code != 201 {
				x.Violate("put", "healthy cluster refuses an upload: %s by %s: %s", opts, a.N.ID, r)
				return
			}
			m, r := a.Meta("b", name, pr.Version)
			if r.Err != nil || r.Code != 200 || len(m.Versions) != 1 || len(m.Versions[0].Locate) != n {
				x.Violate("placed", "upload %s by %s: described as %+v: %s", opts, a.N.ID, m.Versions, r)
				return
			}
			cnt := map[string]int{}
			for _, l := range m.Versions[0].Locate {
				cnt[l]++
				if cnt[l] > (n+servers-1)/servers {
					x.Violate("placed", "upload %s by %s: %d servers, but %d shards are at %v", opts, a.N.ID, servers, n, m.Versions[0].Locate)
					return
				}
			}
			x.Event("placements_checked", 1)
			x.Case(fmt.Sprintf("placed %s %s", a.N.ID, opts))
		})
	}
}

var degCfgs = []degCfg{
	{4, 2, 3, M{"object": M{"distinct-size": "1GB", "reed-solomon": M{"data-shards": 4, "parity-shards": 2, "block-per-shard": 16384, "rewrite-async": false}}}},
	{3, 2, 2, M{"object": M{"distinct-size": "1GB", "reed-solomon": M{"data-shards": 3, "parity-shards": 2, "block-per-shard": 4096, "rewrite-async": true},
		"replication": M{"copies-count": 2, "copy-async": true}}}},
}

func subset(rng *rand.Rand, n, k int) []int {
	p := rng.Perm(n)[:k]
	sort.Ints(p)
	return p
}

// judge compares a response with the wanted bytes. It returns "ok", "failed" (visibly) or "wrong: ...".
func judge(r Resp, want []byte) string {
	if e := sameBody(r, want); e == "" {
		return "ok"
	}
	if r.Err != nil || r.Code/100 != 2 {
		return "failed"
	}
	if cl := r.Header.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(r.Body)) {
		return "failed"
	}
	return "wrong: " + sameBody(r, want)
}

// restore puts the shards back as they were stored first, at the places the metadata now has.
func (o *degObj) restore(x *Ctx, c *cluster.Cluster) {
	loc, _, ok := o.place(x, c)
	if !ok {
		return
	}
	for i, a := range loc {
		key := fmt.Sprintf("%s.%d", o.hash, i)
		n := nodeByAddr(c, a)
		if n == nil {
			continue
		}
		p := locateShard(c, a, key)
		if p == "" {
			p = filepath.Join(n.StoreDirs()[0], key)
		}
		os.WriteFile(p, o.shard[i], 0o644)
	}
}

func c02(x *Ctx) {
	x.Rule("objects of both strategies and several sizes and configurations; for each, seeded loss sets of every size from 1 to one beyond the tolerance, each loss being a " +
		"deleted file, a truncated file (erasure coding), a killed server or a kill in the middle of the download; whole and ranged reads are compared byte by byte. " +
		"A case is distinct by object kind, lost set, way of loss and kind of read.")
	sizes := []int{1, 100, 4097, 12288, 65536, 65537, 200000, 393216, 700001}
	c, objs := degSetup(x, degCfgs, sizes, 8)
	if c == nil {
		return
	}
	rng := rand.New(rand.NewSource(x.Seed * 31))
	seeds := make([]int64, len(objs))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	type rd struct{ off int64 }
	reads := func(r *rand.Rand, o *degObj) []int64 {
		offs := []int64{-1}
		if len(o.body) > 1 {
			offs = append(offs, int64(1+r.Intn(len(o.body)-1)))
		}
		return offs
	}
	// files lost or cut short
	parallel(len(objs), 4, func(oi int) {
		o := objs[oi]
		r := rand.New(rand.NewSource(seeds[oi]))
		for round := 0; round < x.Pick(16, 90); round++ {
			k := 1 + r.Intn(o.tol+1)
			if k > o.n {
				k = o.n
			}
			if round == 0 {
				k = o.tol
			}
			if round == 1 {
				k = o.tol + 1
			}
			lost := subset(r, o.n, k)
			_, fs, ok := o.place(x, c)
			if !ok {
				return
			}
			var how []string
			trunc := 0
			for _, i := range lost {
				f := fs[i]
				if f == "" {
					how = append(how, fmt.Sprintf("%d:already-lost", i))
					continue
				}
				st, _ := os.Stat(f)
				if o.rs && r.Intn(3) == 0 && st != nil && st.Size() > 1 {
					cut := []int64{0, 1, st.Size() / 2, st.Size() - 1, 4096, st.Size() - 4096}[r.Intn(6)]
					if cut < 0 || cut >= st.Size() {
						cut = st.Size() / 2
					}
					// cutting off page padding loses nothing
					os.Truncate(f, cut)
					trunc++
					how = append(how, fmt.Sprintf("%d:cut-%d/%d", i, cut, st.Size()))
				} else {
					os.Remove(f)
					how = append(how, fmt.Sprintf("%d:deleted", i))
				}
			}
			for _, off := range reads(r, o) {
				want := o.body
				kind := "whole"
				if off >= 0 {
					want, kind = o.body[off:], "range"
				}
				resp := o.api.Get(o.bucket, o.name, 0, off)
				x.Event("degraded_reads", 1)
				v := judge(resp, want)
				x.Event("verdict_"+strings.SplitN(v, ":", 2)[0], 1)
				x.Case(fmt.Sprintf("%s lost=%v %s", o.desc, how, kind))
				x.Logf("%s lost %v offset %d -> %s", o.desc, how, off, v)
				if strings.HasPrefix(v, "wrong") {
					x.Violate("wrong-bytes", "%s, lost %v, offset %d: served as complete: %s", o.desc, how, off, v)
				} else if v == "failed" && k <= o.tol {
					x.Violate("unreadable", "%s, lost %v (tolerated %d), offset %d: %s (wanted %d bytes)", o.desc, how, o.tol, off, resp, len(want))
				}
			}
			o.restore(x, c)
			if v := judge(o.api.Get(o.bucket, o.name, 0, -1), o.body); v != "ok" {
				x.Violate("restored-unreadable", "%s: after losing %v and getting all shards back: %s", o.desc, how, v)
				return
			}
		}
	})
	nodes := c.ByKind("objectserver")
	c02stalled(x, c, objs, nodes)
	// servers lost
	for round := 0; round < x.Pick(5, 30) && !x.Violated(); round++ {
		k := 1 + round%2
		dead := subset(rng, len(nodes), k)
		var dn []*cluster.Node
		for _, i := range dead {
			nodes[i].Kill9()
			dn = append(dn, nodes[i])
		}
		parallel(len(objs), 6, func(oi int) {
			o := objs[oi]
			m, mr := o.api.Meta(o.bucket, o.name, 0)
			if mr.Code != 200 || len(m.Versions) == 0 {
				x.Violate("metadata", "%s: %s", o.desc, mr)
				return
			}
			lost := 0
			for i, a := range m.Versions[0].Locate {
				n := nodeByAddr(c, a)
				if n == nil || !n.Running() || locateShard(c, a, fmt.Sprintf("%s.%d", o.hash, i)) == "" {
					lost++
				}
			}
			offs := []int64{-1}
			if len(o.body) > 1 {
				offs = append(offs, int64(len(o.body)/2))
			}
			for _, off := range offs {
				want := o.body
				if off >= 0 {
					want = o.body[off:]
				}
				resp := o.api.Get(o.bucket, o.name, 0, off)
				v := judge(resp, want)
				x.Event("reads_with_dead_servers", 1)
				x.Case(fmt.Sprintf("%s dead-servers lost=%d offset=%v", o.desc, lost, off >= 0))
				if strings.HasPrefix(v, "wrong") {
					x.Violate("wrong-bytes", "%s with servers %v dead: %s", o.desc, dead, v)
				} else if v == "failed" && lost <= o.tol {
					x.Violate("unreadable", "%s with servers %v dead (%d shards lost, tolerated %d): %s", o.desc, dead, lost, o.tol, resp)
				}
			}
		})
		if !x.Start(c) {
			return
		}
		waitView(x, c, objs[0].api)
	}
	// killed in the middle of a download
	big := blob(x.Pick(12<<20, 24<<20), 5)
	for round := 0; round < x.Pick(6, 30) && !x.Violated(); round++ {
		ci := round % len(degCfgs)
		rs := round%3 != 2
		opts := map[bool]string{true: "ss=1", false: "ss=2"}[rs]
		a := API{N: c.ByKind("apiserver")[ci]}
		name := fmt.Sprintf("big%d", round)
		if _, r := a.Put("b", name, big, opts); r.Err != nil || r.Code != 201 {
			x.Violate("put", "healthy cluster refuses a large upload %s: %s", opts, r)
			return
		}
		m, _ := a.Meta("b", name, 0)
		if len(m.Versions) == 0 {
			x.Violate("metadata", "no metadata of %s", name)
			return
		}
		loc := m.Versions[0].Locate
		k := 1 + rng.Intn(2)
		if round >= 4 && rs {
			k = 3
		}
		if k > len(loc) {
			k = len(loc)
		}
		var victims []*cluster.Node
		tol := degCfgs[ci].rsP
		for _, i := range subset(rng, len(loc), k) {
			victims = append(victims, nodeByAddr(c, loc[i]))
		}
		if !rs {
			victims, tol = []*cluster.Node{nodeByAddr(c, loc[0])}, 0 // the copy being read
		}
		deadAddr := map[string]bool{}
		for _, v := range victims {
			deadAddr[v.Addr()] = true
		}
		lost := 0
		for _, l := range loc {
			if deadAddr[l] {
				lost++
			}
		}
		resp := getInterrupted(a.N.URL()+"/v1/objects/"+url.PathEscape(name), "b", rng.Intn(2<<20), func() {
			var wg sync.WaitGroup
			for _, v := range victims {
				wg.Add(1)
				go func(v *cluster.Node) { defer wg.Done(); v.Kill9() }(v)
			}
			wg.Wait()
		})
		v := judge(resp, big)
		x.Event("downloads_with_kill", 1)
		x.Event("midread_"+strings.SplitN(v, ":", 2)[0], 1)
		x.Case(fmt.Sprintf("kill-mid-download %s cfg%d lost=%d round=%d", opts, ci, lost, round))
		if strings.HasPrefix(v, "wrong") {
			x.Violate("wrong-bytes", "killing %d shards in the middle of a download (%s): %s", lost, opts, v)
		} else if v == "failed" && rs && lost <= tol {
			x.Violate("unreadable", "killing the servers of %d shards (tolerated %d) in the middle of a download: %s", lost, tol, resp)
		}
		if !x.Start(c) {
			return
		}
		waitView(x, c, a)
	}
	x.CheckAlive(c)
}

// getInterrupted downloads slowly: after n bytes it calls hook, then reads the rest.
func getInterrupted(u, bucket string, n int, hook func()) Resp {
	req, _ := http.NewRequest("GET", u, nil)
	req.Header.Set("Bucket", bucket)
	cl := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, ReadBufferSize: 4096}}
	resp, err := cl.Do(req)
	if err != nil {
		hook()
		return Resp{Err: err}
	}
	defer resp.Body.Close()
	var b bytes.Buffer
	io.CopyN(&b, resp.Body, int64(n))
	hook()
	_, err = io.Copy(&b, resp.Body)
	return Resp{Code: resp.StatusCode, Header: resp.Header, Body: b.Bytes(), Err: err}
}

// repaired waits until every shard is at its location, and judges the files. It returns what is wrong ("" if nothing).
func (o *degObj) repaired(x *Ctx, c *cluster.Cluster) string {
	msg := ""
	eventually(4*time.Second, func() bool {
		m, r := o.api.Meta(o.bucket, o.name, 0)
		if r.Code != 200 || len(m.Versions) == 0 || len(m.Versions[0].Locate) != o.n {
			msg = "no metadata: " + r.String()
			return false
		}
		msg = ""
		at, live := map[string]int{}, 0
		for _, n := range c.ByKind("objectserver") {
			if n.Running() {
				live++
			}
		}
		for i, a := range m.Versions[0].Locate {
			if k, ok := at[a]; ok && live >= o.n {
				msg = fmt.Sprintf("shards %d and %d are both at %s although there are %d servers: one loss takes both", k, i, a, live)
				return false
			}
			at[a] = i
			n := nodeByAddr(c, a)
			if n == nil || !n.Running() {
				msg = fmt.Sprintf("shard %d is located at %s, which is no live server", i, a)
				return false
			}
			f := locateShard(c, a, fmt.Sprintf("%s.%d", o.hash, i))
			if f == "" {
				msg = fmt.Sprintf("shard %d is not at its location %s", i, n.ID)
				return false
			}
		}
		return true
	})
	return msg
}

// badShards looks at every file that is named like a shard of the object, wherever it is.
func (o *degObj) badShards(c *cluster.Cluster) string {
	for _, f := range shardList(c, o.hash) {
		i := 0
		if _, err := fmt.Sscanf(filepath.Base(f)[len(o.hash):], ".%d", &i); err != nil {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil || o.zip { // compressed shards are judged by reading them
			continue
		}
		w := o.shard[i]
		size := len(o.body)
		if o.rs {
			d := o.n - o.tol
			size = (len(o.body) + d - 1) / d
		}
		if size > len(w) {
			size = len(w)
		}
		if len(b) < size || !bytes.Equal(b[:size], w[:size]) {
			return fmt.Sprintf("%s: %d bytes, want %d; first difference at %d", f, len(b), len(w), firstDiff(b, w))
		}
	}
	return ""
}

// c02stalled: objects uploaded while servers answer at changing speeds have the same redundancy.
func c02stalled(x *Ctx, c *cluster.Cluster, old []*degObj, nodes []*cluster.Node) {
	end := stall(nodes, x.Seed, 40*time.Millisecond)
	apis := []API{old[0].api, old[len(old)-1].api}
	n := x.Pick(40, 300)
	objs := make([]*degObj, n)
	parallel(n, 4, func(i int) {
		rng := rand.New(rand.NewSource(x.Seed*100000 + int64(i)))
		ci := i % 2
		f := degCfgs[ci]
		size := 60000 + rng.Intn(900000)
		o := &degObj{api: apis[ci], bucket: "b", name: fmt.Sprint("stalled", i), body: blob(size, int64(i)+x.Seed*1373), n: f.rsD + f.rsP, tol: f.rsP, rs: true}
		opts := "ss=1"
		if i%5 == 4 {
			opts, o.n, o.tol, o.rs = "ss=2", f.copies, f.copies-1, false
		} else if i%5 == 3 {
			opts, o.zip = "ss=1&compress=true", true
		}
		o.desc = fmt.Sprintf("cfg%d %s size=%d uploaded to stalling servers", ci, opts, size)
		if _, r := o.api.Put(o.bucket, o.name, o.body, opts); r.Err != nil || r.Code != 201 {
			x.Event("uploads_to_stalling_servers_refused", 1)
			return
		}
		objs[i] = o
		x.Event("uploads_to_stalling_servers", 1)
	})
	end()
	for i, o := range objs {
		if o == nil {
			continue
		}
		_, fs, ok := o.place(x, c)
		if !ok {
			return
		}
		// data shards are lost, all parity shards are needed
		lost := []int{}
		for k := 0; k < o.tol; k++ {
			lost = append(lost, (i+k)%(o.n-o.tol))
			if !o.rs {
				lost[k] = (i + k) % o.n
			}
			os.Remove(fs[lost[k]])
		}
		if v := judge(o.api.Get(o.bucket, o.name, 0, -1), o.body); v != "ok" {
			x.Violate("stalled-"+v[:2], "%s: without shards %v: %s", o.desc, lost, v)
		}
		x.Case(fmt.Sprintf("stalled %s lost=%v", o.desc, lost))
		x.Event("degraded_reads", 1)
	}
}

func c03(x *Ctx) {
	x.Rule("objects of both strategies; repeatedly a seeded set of shards within the tolerance is lost (files deleted or servers killed), the object is read (whole, by range or " +
		"broken off), and after complete reads every shard must be stored at the location in the metadata and equal what was stored first. The next loss prefers the shards " +
		"not lost before. A case is distinct by object kind, lost set, kind of read and repetition.")
	sizes := []int{1, 4097, 65536, 70001, 262144, 700001}
	c, objs := degSetup(x, degCfgs, sizes, 9)
	if c == nil {
		return
	}
	rng := rand.New(rand.NewSource(x.Seed * 131))
	seeds := make([]int64, len(objs))
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	parallel(len(objs), 6, func(oi int) {
		o := objs[oi]
		r := rand.New(rand.NewSource(seeds[oi]))
		var last []int
		for round := 0; round < x.Pick(12, 60); round++ {
			_, fs, ok := o.place(x, c)
			if !ok {
				return
			}
			k := 1 + r.Intn(o.tol)
			var lost []int
			if o.rs {
				if round%2 == 1 { // what survived last time goes now: what was repaired is needed
					k = o.tol
					in := map[int]bool{}
					for _, i := range last {
						in[i] = true
					}
					for _, i := range r.Perm(o.n) {
						if !in[i] && len(lost) < k {
							lost = append(lost, i)
						}
					}
					sort.Ints(lost)
				} else {
					lost = subset(r, o.n, k)
				}
			} else {
				// copies are tried in order: the ones before the first healthy are found lost
				for i := 0; i < k; i++ {
					lost = append(lost, i)
				}
			}
			last = lost
			for _, i := range lost {
				if fs[i] != "" {
					os.Remove(fs[i])
				}
			}
			how := []string{"whole", "range", "abort"}[r.Intn(3)]
			if round < 2 {
				how = "whole"
			}
			id := fmt.Sprintf("%s lost=%v %s", o.desc, lost, how)
			var resp Resp
			switch how {
			case "whole":
				resp = o.api.Get(o.bucket, o.name, 0, -1)
				if v := judge(resp, o.body); v != "ok" {
					x.Violate("unreadable", "%s round %d: %s %s", id, round, v, resp)
					return
				}
			case "range":
				off := int64(r.Intn(len(o.body)))
				resp = o.api.Get(o.bucket, o.name, 0, off)
				if v := judge(resp, o.body[off:]); v != "ok" {
					x.Violate("unreadable", "%s round %d offset %d: %s %s", id, round, off, v, resp)
					return
				}
			case "abort":
				abortedGet(o.api.N.URL()+"/v1/objects/"+url.PathEscape(o.name), o.bucket, r.Intn(len(o.body)+1))
			}
			x.Case(id)
			x.Event("losses", int64(len(lost)))
			if b := o.badShards(c); b != "" {
				x.Violate("bad-shard", "%s round %d: a wrong shard was put in place: %s", id, round, b)
				return
			}
			if how != "whole" { // restored by a read of everything
				if v := judge(o.api.Get(o.bucket, o.name, 0, -1), o.body); v != "ok" {
					x.Violate("unreadable", "%s round %d, whole read afterwards: %s", id, round, v)
					return
				}
			}
			if e := o.repaired(x, c); e != "" {
				x.Violate("not-repaired", "%s round %d: after a complete read %s", id, round, e)
				return
			}
			x.Event("repairs_verified", 1)
			if b := o.badShards(c); b != "" {
				x.Violate("bad-shard", "%s round %d: a wrong shard was put in place: %s", id, round, b)
				return
			}
		}
	})
	// servers lost for good, one after the other: each time everything is read once, then has to survive the next
	nodes := c.ByKind("objectserver")
	var down []*cluster.Node
	for step := 0; step < 3 && !x.Violated(); step++ {
		v := nodes[(int(x.Seed)+step*2)%len(nodes)]
		v.Kill9()
		down = append(down, v)
		key := ""
		for k, a := range c.Etcd.List(c.Group + "/registry/objectserver/") {
			if strings.HasSuffix(a, fmt.Sprint(v.Port)) {
				key = k
			}
		}
		if key != "" && step%2 == 0 { // its lease ends; at odd steps the repair has to cope with the registration of a dead server
			c.Etcd.RevokeLeaseOf(key)
		}
		waitView(x, c, objs[0].api)
		parallel(len(objs), 6, func(oi int) {
			o := objs[oi]
			id := fmt.Sprintf("%s server-loss %d", o.desc, step)
			x.Case(id)
			if _, fs, ok := o.place(x, c); ok && !o.rs {
				// losses after the copy that is read are not noticed by reading
				left := 0
				m, _ := o.api.Meta(o.bucket, o.name, 0)
				for i, a := range m.Versions[0].Locate {
					if n := nodeByAddr(c, a); n != nil && n.Running() && fs[i] != "" {
						left++
					}
				}
				if left == 0 {
					x.Event("copies_all_lost", 1)
					return
				}
			}
			resp := o.api.Get(o.bucket, o.name, 0, -1)
			if v := judge(resp, o.body); v != "ok" {
				x.Violate("unreadable", "%s: %s %s", id, v, resp)
				return
			}
			x.Event("reads_after_server_loss", 1)
			if o.rs {
				if e := o.repaired(x, c); e != "" {
					x.Violate("not-repaired", "%s: after a complete read %s", id, e)
					return
				}
				x.Event("repairs_verified", 1)
			}
			if b := o.badShards(c); b != "" {
				x.Violate("bad-shard", "%s: a wrong shard was put in place: %s", id, b)
			}
		})
	}
	x.CheckAlive(c, down...)
}

// abortedGet reads n bytes of a download and closes the connection.
func abortedGet(u, bucket string, n int) {
	req, _ := http.NewRequest("GET", u, nil)
	req.Header.Set("Bucket", bucket)
	tr := &http.Transport{DisableKeepAlives: true, ReadBufferSize: 4096}
	resp, err := (&http.Client{Timeout: 30 * time.Second, Transport: tr}).Do(req)
	if err != nil {
		return
	}
	io.CopyN(io.Discard, resp.Body, int64(n))
	resp.Body.Close()
	time.Sleep(20 * time.Millisecond)
}
