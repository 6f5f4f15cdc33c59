package main

import (
	"fmt"
	"math/rand"
	"syscall"
	"time"
)

func init() { props["C01"] = c01 }

// c01: whatever was uploaded successfully is what every api server returns, whole and from any offset.
func c01(x *Ctx) {
	x.Rule("seeded list of (server configuration, bucket policy, strategy, compression, size, name, offset) uploads; sizes cluster around 4 KiB pages, " +
		"shard and block boundaries; every object is read whole and by range through a second api server, warm and after a restart of the object servers. " +
		"A case is distinct by configuration, strategy, compression, size and kind of read.")
	type cfg struct {
		name string
		over M
	}
	cfgs := []cfg{
		{"default", M{"object": M{"distinct-size": "1GB"}}},
		{"rs31-rp2-sum", M{"object": M{"distinct-size": "1GB", "checksum": true,
			"reed-solomon": M{"data-shards": 3, "parity-shards": 1, "block-per-shard": 8192}, "replication": M{"copies-count": 2, "block-size": "64KB", "copy-async": true}}}},
	}
	if x.Thorough() {
		cfgs = append(cfgs, cfg{"rs52-rp1", M{"object": M{"distinct-size": "1GB", "checksum": true,
			"reed-solomon": M{"data-shards": 5, "parity-shards": 2, "block-per-shard": 4096, "rewrite-async": true}, "replication": M{"copies-count": 1, "block-size": "128KB"}}}})
	}
	c := x.Cluster("c", false)
	c.AddMeta("meta1", nil)
	for i := 0; i < 6; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 2, M{"cache": M{"max-item-size": []string{"12MB", "16KB"}[i%2]}})
	}
	var apis []API
	for i, cf := range cfgs {
		apis = append(apis, API{N: c.AddAPI(fmt.Sprintf("api%da", i), cf.over)}, API{N: c.AddAPI(fmt.Sprintf("api%db", i), cf.over)})
	}
	if !x.Start(c) {
		return
	}
	buckets := []Bucket{{Name: "plain"}, {Name: "zip", Compress: true}, {Name: "rs", StoreStrategy: 1, DataShards: 2, ParityShards: 1},
		{Name: "cp", StoreStrategy: 2, DataShards: 2}}
	for _, b := range buckets {
		if !x.MustBucket(apis[0], b) {
			return
		}
	}
	rng := rand.New(rand.NewSource(x.Seed))
	base := []int{1, 2, 100, 511, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 20000, 28672, 32767, 32768, 32769, 36864,
		40000, 49152, 65535, 65536, 65537, 66000, 69632, 70000, 98304, 98305, 131071, 131072, 131073, 150000, 196608, 200000, 262143, 262144, 262145, 262148,
		327680, 400000, 524287, 524288, 524289, 655361, 1048575, 1048576, 1048579, 1<<21 + 13}
	type job struct {
		ci, ai        int
		bucket, name  string
		opts          string
		body          []byte
		ver           int32
		ok            bool
		offs          []int64
		strat, commpr string
	}
	var jobs []*job
	add := func(ci int, bk, opts string, size int) {
		i := len(jobs)
		names := []string{"o%d", "dir.with.dots-%d.tar.gz", "sp ace %d", "ünï-%d", "pct%%25-%d", "plus+%d", "q?x=%d", "dir/sub/%d", "dir%%2Fsub/%d", "a&b;c=%d~(*)"}
		j := &job{ci: ci, ai: rng.Intn(2), bucket: bk, name: fmt.Sprintf(names[i%len(names)], i), opts: opts, body: blob(size, int64(i)+x.Seed*1000)}
		cand := []int64{1, 4095, 4096, 4097, 8192, 32768, 65536, int64(size / 2), int64(size - 1), int64(rng.Intn(size))}
		j.offs = append(j.offs, 0)
		for k := 0; k < 2; k++ {
			if o := cand[rng.Intn(len(cand))]; o < int64(size) {
				j.offs = append(j.offs, o)
			}
		}
		jobs = append(jobs, j)
	}
	for ci := range cfgs {
		for k, s := range base {
			add(ci, "plain", []string{"", "ss=1", "ss=2"}[(k+ci)%3], s)
			if x.Thorough() || k%2 == ci%2 {
				add(ci, []string{"plain", "zip"}[k%2], []string{"compress=true", "ss=1&compress=true", "ss=2&compress=true"}[(k/2)%3], s)
			}
			if k%3 == ci%3 {
				add(ci, []string{"rs", "cp"}[(k/3)%2], "", s)
			}
			if x.Thorough() {
				for _, o := range []string{"ss=1", "ss=2"} {
					add(ci, "plain", o, s)
				}
			}
		}
		for k := 0; k < x.Pick(25, 250); k++ {
			n := 1 + rng.Intn([]int{5000, 70000, 300000, 1500000}[rng.Intn(4)])
			add(ci, buckets[rng.Intn(4)].Name, []string{"", "ss=1", "ss=2", "compress=true", "ss=1&compress=true"}[rng.Intn(5)], n)
		}
	}
	desc := func(j *job) string {
		return fmt.Sprintf("%s %s %s size=%d", cfgs[j.ci].name, j.bucket, j.opts, len(j.body))
	}
	parallel(len(jobs), 6, func(i int) {
		j := jobs[i]
		pr, r := apis[2*j.ci+j.ai].Put(j.bucket, j.name, j.body, j.opts)
		x.Event("uploads", 1)
		if r.Err != nil || r.Code != 201 {
			x.Violate("put", "healthy cluster refuses an upload: %s name=%q: %s", desc(j), j.name, r)
			return
		}
		if pr.Version != 1 || pr.Name != j.name || pr.Bucket != j.bucket {
			if pr.Name != j.name || pr.Bucket != j.bucket {
				x.Violate("put-name", "upload of %q to %q answered %+v", j.name, j.bucket, pr)
			}
			if pr.Version != 1 {
				x.Violate("put-version", "first upload of %q answered %+v", j.name, pr)
			}
		}
		j.ver, j.ok = pr.Version, true
	})
	read := func(phase string, w int) {
		parallel(len(jobs), w, func(i int) {
			j := jobs[i]
			if !j.ok {
				return
			}
			a := apis[2*j.ci+1-j.ai]
			for k, o := range append([]int64{-1}, j.offs...) {
				if phase == "range-first" && k == 0 {
					continue
				}
				var want []byte
				if o < 0 {
					want = j.body
				} else {
					want = j.body[o:]
				}
				v := int32(0)
				if k == 1 {
					v = j.ver
				}
				r := a.Get(j.bucket, j.name, v, o)
				x.Event("reads_"+phase, 1)
				x.Event("bytes_compared", int64(len(want)))
				kind := "whole"
				if o >= 0 {
					kind = "range"
				}
				x.Case(fmt.Sprintf("%s %s %s", desc(j), kind, phase))
				if e := sameBody(r, want); e != "" {
					x.Violate("read-"+kind, "%s: %s name=%q offset=%d: %s", phase, desc(j), j.name, o, e)
				} else if cl := r.Header.Get("Content-Length"); cl != "" && cl != fmt.Sprint(len(want)) {
					x.Violate("read-length", "%s: %s: Content-Length %s for %d bytes", phase, desc(j), cl, len(want))
				}
			}
		})
	}
	read("warm", 6)
	read("again", 3)
	// drop every in-memory state of the object servers, once by a crash and once by an orderly stop
	for i, n := range c.ByKind("objectserver") {
		if i%2 == 0 {
			n.Kill9()
		} else {
			n.Stop(20 * time.Second)
		}
	}
	if !x.Start(c) {
		return
	}
	waitView(x, c, apis[0])
	read("range-first", 6)
	read("cold", 6)
	x.CheckAlive(c)
	for _, n := range c.Nodes {
		n.Signal(syscall.SIGTERM)
	}
}
