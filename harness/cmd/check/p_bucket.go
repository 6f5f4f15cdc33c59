package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"reflect"
	"sort"
	"sync"
	"time"
)

func init() { props["C07"] = c07 }

func (b Bucket) core() Bucket {
	b.CreateTime, b.UpdateTime = 0, 0
	if len(b.Policies) == 0 {
		b.Policies = nil
	}
	return b
}

func (b Bucket) maxVersions() int {
	if b.Versioning && b.VersionRemains > 1 {
		return b.VersionRemains
	}
	return 1
}

type mobj struct {
	last   int32
	nums   []int32
	bodies map[int32][]byte
	bad    bool // numbering is no longer known
}

func c07(x *Ctx) {
	x.Rule("seeded histories of creating, updating, deleting and reading buckets with random settings through two api servers, mixed with uploads whose request asks for its own strategy " +
		"and compression; settings, what each upload was stored as (metadata and files on disk), which versions remain and refusals are compared with a model. " +
		"A case is distinct by operation, settings, request and outcome.")
	c := x.Cluster("c", false)
	meta := c.AddMeta("meta1", nil)
	for i := 0; i < 5; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 1, nil)
	}
	over := M{"object": M{"distinct-size": "1GB", "reed-solomon": M{"data-shards": 3, "parity-shards": 2, "block-per-shard": 4096}, "replication": M{"copies-count": 2, "block-size": "64KB", "copy-async": false}}}
	as := []API{{N: c.AddAPI("api1", over)}, {N: c.AddAPI("api2", over)}}
	ms := MS{N: meta}
	if !x.Start(c) {
		return
	}
	rng := rand.New(rand.NewSource(x.Seed * 307))
	names := []string{"b", "b.1", "B", "bü cket", "list", "b1", "metadata", "b/1", "x-y_z", "a%41"}
	model := map[string]*Bucket{}
	created := map[string]Bucket{}
	objs := map[string]*mobj{} // bucket \0 name
	randB := func(n string) Bucket {
		b := Bucket{Name: n, Versioning: rng.Intn(3) > 0, VersionRemains: []int{0, 1, 2, 3, 5, 10, 12}[rng.Intn(7)], Compress: rng.Intn(2) == 0, Readonly: rng.Intn(6) == 0}
		switch rng.Intn(3) {
		case 1:
			b.StoreStrategy, b.DataShards, b.ParityShards = 1, 1+rng.Intn(3), rng.Intn(3)
			if b.ParityShards == 0 {
				b.ParityShards = 1
			}
		case 2:
			b.StoreStrategy, b.DataShards = 2, 1+rng.Intn(4)
		}
		for i := rng.Intn(3); i > 0; i-- {
			b.Policies = append(b.Policies, fmt.Sprintf("policy-%d", rng.Intn(100)))
		}
		return b
	}
	checkAll := func(when string) {
		for _, n := range names {
			for k, a := range as {
				got, r := a.GetBucket(n)
				want := model[n]
				if want == nil {
					if r.Err != nil || r.Code != 404 {
						x.Violate("ghost", "%s: bucket %q does not exist, but api %d answers %s", when, n, k, r)
					}
					continue
				}
				if r.Err != nil || r.Code != 200 || !reflect.DeepEqual(got.core(), want.core()) {
					x.Violate("settings", "%s: bucket %q is %+v through api %d, want %+v: %s", when, n, got, k, *want, r)
					continue
				}
				cr, ok := created[n]
				if !ok {
					created[n] = got
				} else if got.CreateTime != cr.CreateTime || got.UpdateTime < cr.UpdateTime {
					x.Violate("times", "%s: bucket %q was created %d updated %d, is now created %d updated %d", when, n, cr.CreateTime, cr.UpdateTime, got.CreateTime, got.UpdateTime)
				}
				x.Event("settings_read", 1)
			}
		}
		lst, total, r := ms.ListBuckets("", 1000)
		var got, want []string
		for _, b := range lst {
			got = append(got, b.Name)
			if m := model[b.Name]; m != nil && !reflect.DeepEqual(m.core(), b.core()) {
				x.Violate("settings", "%s: bucket %q is listed as %+v, want %+v", when, b.Name, b, *m)
			}
		}
		for n := range model {
			want = append(want, n)
		}
		sort.Strings(got)
		sort.Strings(want)
		if r.Err != nil || r.Code != 200 || total != len(want) || fmt.Sprint(got) != fmt.Sprint(want) {
			x.Violate("list", "%s: buckets %q (total %d) are listed, want %q: %s", when, got, total, want, r)
		}
	}
	var tmu sync.Mutex
	tag := x.Seed * 50000
	mkBody := func(n int) []byte {
		tmu.Lock()
		tag++
		t := tag
		tmu.Unlock()
		b := blob(n, 2*t+1) // compressible
		copy(b, fmt.Sprintf("%d-%d-", x.Seed, t))
		return b
	}
	obj := func(bn, on string) *mobj {
		k := bn + "\x00" + on
		if objs[k] == nil {
			objs[k] = &mobj{bodies: map[int32][]byte{}}
		}
		return objs[k]
	}
	checkObj := func(when, bn, on string) {
		o := obj(bn, on)
		if o.bad || len(o.nums) == 0 {
			return
		}
		a := as[rng.Intn(2)]
		var vs []Version
		var total int
		var r Resp
		var got []int32
		eventually(8*time.Second, func() bool { // older versions are removed in the background
			vs, total, r = a.Versions(bn, on, 1, 1000)
			got = nil
			for _, v := range vs {
				got = append(got, v.Sequence)
			}
			return r.Err == nil && r.Code == 200 && len(got) <= len(o.nums)
		})
		if r.Err != nil || r.Code != 200 || total != len(o.nums) || fmt.Sprint(got) != fmt.Sprint(o.nums) {
			x.Violate("remaining", "%s: %s/%s has versions %v, want %v (bucket %+v): %s", when, bn, on, got, o.nums, model[bn], r)
			o.bad = true
			return
		}
		for _, k := range []int32{o.nums[0], o.nums[len(o.nums)-1]} {
			if e := sameBody(a.Get(bn, on, k, -1), o.bodies[k]); e != "" {
				x.Violate("content", "%s: %s/%s version %d: %s", when, bn, on, k, e)
			}
		}
		if k := o.nums[0] - 1; k > 0 {
			if g := a.Get(bn, on, k, -1); g.Err == nil && g.Code != 404 {
				x.Violate("not-removed", "%s: %s/%s version %d should have been removed: %s", when, bn, on, k, g)
			}
		}
		x.Event("retention_checked", 1)
	}
	upload := func(bn, on string) {
		ss, cp := rng.Intn(3), rng.Intn(2) == 0
		opts := []string{"", "ss=1", "ss=2"}[ss]
		if cp {
			opts += "&compress=true"
		}
		size := []int{600, 9000, 20000}[rng.Intn(3)]
		body := mkBody(size)
		pr, r := as[rng.Intn(2)].Put(bn, on, body, opts)
		b := model[bn]
		sig := fmt.Sprintf("upload %s to ", opts)
		if b == nil || b.Readonly {
			if r.Err != nil || r.Code/100 != 4 {
				x.Violate("not-refused", "upload to bucket %q (%+v) is answered %s", bn, b, r)
			}
			x.Event("uploads_refused", 1)
			x.Case(fmt.Sprintf("%s absent=%v", sig, b == nil))
			return
		}
		if r.Err != nil || r.Code != 201 {
			x.Violate("put", "upload (%s) to bucket %+v is refused: %s", opts, *b, r)
			return
		}
		o := obj(bn, on)
		if o.bad {
			return
		}
		if pr.Version != o.last+1 {
			x.Violate("number", "upload to %s/%s got version %d after %d", bn, on, pr.Version, o.last)
			o.bad = true
			return
		}
		o.last++
		o.nums = append(o.nums, o.last)
		o.bodies[o.last] = body
		if m := b.maxVersions(); len(o.nums) > m {
			o.nums = append([]int32{}, o.nums[len(o.nums)-m:]...)
		}
		x.Case(fmt.Sprintf("%s strategy=%d/%d/%d compress=%v max=%d n=%d", sig, b.StoreStrategy, b.DataShards, b.ParityShards, b.Compress, b.maxVersions(), len(o.nums)))
		// how was it stored?
		st, ds, ps := 1, 3, 2
		if ss == 2 {
			st, ds, ps = 2, 2, 0
		}
		if b.StoreStrategy == 1 {
			st, ds, ps = 1, b.DataShards, b.ParityShards
		} else if b.StoreStrategy == 2 {
			st, ds, ps = 2, b.DataShards, 0
		}
		zip := cp || b.Compress
		m, r := as[0].Meta(bn, on, pr.Version)
		if r.Err != nil || r.Code != 200 || len(m.Versions) != 1 {
			x.Violate("meta", "no metadata of %s/%s version %d: %s", bn, on, pr.Version, r)
			return
		}
		v := m.Versions[0]
		gotSt := v.StoreStrategy
		if gotSt == 0 {
			gotSt = 1
		}
		if ss == 0 && b.StoreStrategy == 0 && gotSt == 2 { // by size, when nobody prescribes one
			st, ds, ps = 2, 2, 0
		}
		if gotSt != st || v.DataShards != ds || v.ParityShards != ps || v.Compress != zip || len(v.Locate) != ds+ps || v.Size != int64(size) {
			x.Violate("stored-as", "upload (%s) to bucket %+v was stored as %+v", opts, *b, v)
		}
		fs := shardList(c, v.Hash)
		var sum int64
		for _, f := range fs {
			if fi, err := os.Stat(f); err == nil {
				sum += fi.Size()
			}
		}
		if len(fs) != ds+ps {
			x.Violate("files", "upload (%s) to bucket %+v left %d files, want %d", opts, *b, len(fs), ds+ps)
		}
		raw := int64(size) * int64(ds+ps)
		if st == 1 {
			raw /= int64(ds)
		}
		if zip && size >= 9000 && sum >= raw/2 || !zip && sum < raw {
			x.Violate("compression", "upload (%s) of %d bytes to bucket %+v takes %d bytes in %d files (uncompressed %d)", opts, size, *b, sum, len(fs), raw)
		}
		x.Event("stored_as_checked", 1)
		checkObj("after an upload", bn, on)
	}
	checkAll("at first")
	for i := 0; i < x.Pick(700, 6000); i++ {
		n := names[rng.Intn(len(names))]
		a := as[rng.Intn(2)]
		switch op := rng.Intn(12); {
		case op == 0: // create
			b := randB(n)
			r := a.CreateBucket(b)
			if model[n] == nil {
				if r.Err != nil || r.Code != 201 {
					x.Violate("create", "creating %+v: %s", b, r)
					return
				}
				model[n] = &b
				delete(created, n)
			} else if r.Err != nil || r.Code/100 != 4 {
				x.Violate("created-twice", "creating existing bucket %q: %s", n, r)
			}
			x.Case(fmt.Sprintf("create %+v existing=%v", b.core(), r.Code != 201))
		case op < 3: // update
			b := randB(n)
			var r Resp
			if rng.Intn(3) == 0 { // the name of the path counts
				o := b
				o.Name = names[rng.Intn(len(names))]
				bt, _ := json.Marshal(o)
				r = a.do("PUT", "/v1/bucket/"+pathEscape(n), bt, "Content-Type", "application/json")
			} else {
				r = a.UpdateBucket(b)
			}
			if model[n] != nil {
				if r.Err != nil || r.Code != 200 {
					x.Violate("update", "updating %+v: %s", b, r)
					return
				}
				model[n] = &b
			} else if r.Err != nil || r.Code/100 != 4 {
				x.Violate("updated-absent", "updating absent bucket %q: %s", n, r)
			}
			x.Case(fmt.Sprintf("update %+v absent=%v", b.core(), r.Code != 200))
		case op == 3 && rng.Intn(3) == 0:
			r := a.DeleteBucket(n)
			if r.Err != nil || (model[n] != nil && r.Code/100 != 2) || r.Code/100 == 5 {
				x.Violate("delete", "deleting bucket %q: %s", n, r)
			}
			delete(model, n)
			delete(created, n)
			x.Case("delete")
		case op == 4: // resumable uploads obey too
			b := model[n]
			bd := mkBody(500000)
			on := fmt.Sprintf("o%d", rng.Intn(2))
			start := func() Resp {
				return as[rng.Intn(2)].do("POST", "/v1/big/"+pathEscape(on), nil, "Bucket", n, "Digest", digest(bd), "Size", fmt.Sprint(len(bd)))
			}
			r := start()
			if b == nil || b.Readonly {
				if r.Err != nil || r.Code/100 != 4 {
					x.Violate("not-refused", "starting a resumable upload to bucket %q (%+v) is answered %s", n, b, r)
				}
				x.Case(fmt.Sprintf("big refused=%v", r.Code/100 == 4))
				break
			} else if r.Err != nil || r.Code != 201 {
				x.Violate("big", "starting a resumable upload to bucket %+v: %s", b, r)
				break
			}
			added := func(what string, r Resp) bool {
				var pr putResp
				if r.Err != nil || r.Code != 200 || json.Unmarshal(r.Body, &pr) != nil {
					x.Violate("big", "%s to bucket %+v: %s", what, b, r)
					return false
				}
				o := obj(n, on)
				if o.bad {
					return false
				}
				if pr.Version != o.last+1 {
					x.Violate("number", "%s to %s/%s got version %d after %d", what, n, on, pr.Version, o.last)
					o.bad = true
					return false
				}
				o.last++
				o.nums = append(o.nums, o.last)
				o.bodies[o.last] = bd
				if m := b.maxVersions(); len(o.nums) > m {
					o.nums = append([]int32{}, o.nums[len(o.nums)-m:]...)
				}
				if m, r := as[0].Meta(n, on, pr.Version); r.Err != nil || r.Code != 200 || len(m.Versions) != 1 || m.Versions[0].Compress != b.Compress ||
					(b.StoreStrategy == 1 && (m.Versions[0].DataShards != b.DataShards || m.Versions[0].ParityShards != b.ParityShards)) {
					x.Violate("stored-as", "%s to bucket %+v was stored as %+v", what, *b, m.Versions)
				}
				checkObj("after "+what, n, on)
				x.Event("resumable_retention", 1)
				x.Case(fmt.Sprintf("%s max=%d n=%d compress=%v", what, b.maxVersions(), len(o.nums), b.Compress))
				return true
			}
			r = as[rng.Intn(2)].do("PATCH", r.Header.Get("Location"), bd, "Range", rangeOf(0, len(bd)))
			if added("a resumable upload", r) && rng.Intn(2) == 0 { // again: nothing to send any more
				for k := rng.Intn(4); k >= 0; k-- {
					if !added("a resumable upload of known content", start()) {
						break
					}
				}
			}
		default:
			upload(n, fmt.Sprintf("o%d", rng.Intn(2)))
		}
		if i%10 == 0 {
			checkAll(fmt.Sprintf("step %d", i))
		}
		if i%300 == 299 {
			meta.Kill9()
			if err := restart(meta); err != nil {
				x.Violate("restart", "metadata server does not come up again: %v", err)
				return
			}
			waitView(x, c, as[0])
			checkAll("restarted")
		}
		if x.Violated() && i%50 == 49 {
			return
		}
	}
	// concurrent uploads: exactly the newest versions remain
	for round := 0; round < x.Pick(6, 30); round++ {
		max := []int{1, 2, 3, 7}[round%4]
		bn := fmt.Sprintf("conc%d", round)
		if !x.MustBucket(as[0], Bucket{Name: bn, Versioning: max > 1, VersionRemains: max}) {
			return
		}
		n := 16
		var mu sync.Mutex
		got := map[int32][]byte{}
		parallel(n, 8, func(i int) {
			b := mkBody(300)
			pr, r := as[i%2].Put(bn, "o", b, "ss=2")
			mu.Lock()
			defer mu.Unlock()
			if r.Err != nil || r.Code != 201 || got[pr.Version] != nil {
				x.Violate("concurrent-put", "concurrent upload to a bucket that keeps %d versions: %+v %s", max, pr, r)
			}
			got[pr.Version] = b
		})
		x.Case(fmt.Sprintf("concurrent uploads max=%d round=%d", max, round))
		x.Event("concurrent_uploads", int64(n))
		o := obj(bn, "o")
		o.bodies = got
		for k := n - max + 1; k <= n; k++ {
			o.nums = append(o.nums, int32(k))
		}
		model[bn] = &Bucket{Name: bn, Versioning: max > 1, VersionRemains: max}
		checkObj("after concurrent uploads", bn, "o")
	}
	// the settings in force when the upload ends count: none are applied half
	for _, n := range names {
		if model[n] != nil {
			for _, o := range []string{"o0", "o1"} {
				checkObj("at the end", n, o)
			}
		}
	}
	time.Sleep(50 * time.Millisecond)
	x.CheckAlive(c)
}

func pathEscape(s string) string { return url.PathEscape(s) }
