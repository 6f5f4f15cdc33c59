package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"mime/multipart"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/cluster"
)

// C20: the servers, built with the race detector, under a concurrent workload over every route while servers come
// and go. The oracle is the detector's reports, crashes and panics in the logs, and whether everything still answers.

func init() { props["C20"] = c20 }

// Admin is a client of the admin server.
type Admin struct{ N *cluster.Node }

func (a Admin) do(method, path string, body []byte, hdr ...string) Resp {
	return cluster.Do(method, a.N.URL()+"/api"+path, body, append(hdr, "Authorization", "none")...)
}

func (a Admin) json(method, path string, v any) Resp {
	b, _ := json.Marshal(v)
	return a.do(method, path, b, "Content-Type", "application/json")
}

// Upload sends a file as the web console does.
func (a Admin) Upload(bucket, name string, body []byte) Resp {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	_ = w.WriteField("bucket", bucket)
	f, _ := w.CreateFormFile("file", name)
	_, _ = f.Write(body)
	w.Close()
	return a.do("PUT", "/objects/upload", b.Bytes(), "Content-Type", w.FormDataContentType())
}

var (
	raceMods   = []string{"common/", "apiserver/", "metaserver/", "objectserver/", "adminserver/"}
	raceFrame  = regexp.MustCompile(`^  (\S+)\(.*\)$`)
	raceAccess = regexp.MustCompile(`^(Read|Write|Previous read|Previous write|Atomic \w+|Previous atomic \w+) (at|of)`)
)

func inTree(fn string) bool {
	for _, m := range raceMods {
		if strings.HasPrefix(fn, m) {
			return true
		}
	}
	return false
}

// raceReports splits a detector log into its reports: the key names the tree's functions that made the two
// accesses ("" when neither did, nor started a goroutine that did).
func raceReports(b []byte) (keys, texts []string) {
	for _, rep := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
		if i := strings.Index(rep, "\n=================="); i >= 0 {
			rep = rep[:i]
		}
		var fns []string
		got, anyTree := true, false
		for _, l := range strings.Split(rep, "\n") {
			if raceAccess.MatchString(l) {
				got = false
				continue
			}
			if m := raceFrame.FindStringSubmatch(l); m != nil && inTree(m[1]) {
				anyTree = true
				if !got {
					fns = append(fns, m[1])
					got = true
				}
			}
		}
		if len(fns) == 0 && !anyTree {
			keys, texts = append(keys, ""), append(texts, rep)
			continue
		}
		sort.Strings(fns)
		keys, texts = append(keys, "race:"+strings.Join(fns, "|")), append(texts, rep)
	}
	return
}

var panicLine = regexp.MustCompile(`(?m)^.*(panic recovered|fatal error:|runtime error:|^panic: ).*$`)

// harvest turns what the servers left behind into violations.
func harvest(x *Ctx, c *cluster.Cluster) {
	for _, n := range c.Nodes {
		fs, _ := filepath.Glob(filepath.Join(n.Dir, "race.*"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			keys, texts := raceReports(b)
			for i, k := range keys {
				x.Event("race reports", 1)
				if k == "" {
					x.Event("race reports outside the tree's code", 1)
					x.Logf("race outside the tree on %s:\n%s", n.ID, texts[i])
					continue
				}
				x.Violate(k, "data race in %s:\n%s", n.ID, texts[i])
			}
		}
		b, _ := os.ReadFile(n.LogFile())
		if loc := panicLine.FindIndex(b); loc != nil {
			e := loc[0] + 4000
			if e > len(b) {
				e = len(b)
			}
			fn := "?"
			for _, l := range strings.Split(string(b[loc[0]:]), "\n") {
				l = strings.TrimSpace(l)
				if i := strings.IndexByte(l, '('); i > 0 && inTree(l) && !strings.HasPrefix(l, "common/graceful") {
					fn = l[:strings.LastIndexByte(l, '(')]
					break
				}
			}
			x.Violate("panic:"+fn, "%s panicked:\n%s", n.ID, b[loc[0]:e])
		}
	}
}

func c20(x *Ctx) {
	x.Rule("servers built with the race detector serve a concurrent workload on all routes while servers are stopped, killed, suspended and lose their leases; a case is one kind of request or disturbance together with its outcome class")
	rounds := x.Pick(1, 8)
	for i := 0; i < rounds && !x.Violated(); i++ {
		c20round(x, i, x.Pick(22, 60))
	}
}

func c20round(x *Ctx, round, seconds int) {
	c := x.Cluster(fmt.Sprintf("c%d", round), true)
	c.AddMeta("m1", M{"hash-slot": M{"slots": []string{"0-6000"}}})
	group := c.AddMetaGroup("gr", 3, M{"hash-slot": M{"slots": []string{"6000-16384"}}})
	var objs []*cluster.Node
	for i := 0; i < 5; i++ {
		over := M{"state": M{"sync-interval": "1s"}}
		if i == 4 { // little room for content in memory, so that entries are evicted while they are read
			over = M{"state": M{"sync-interval": "1s"}, "cache": M{"max-size": "1MB", "max-item-size": "64KB"}}
		}
		objs = append(objs, c.AddObject(fmt.Sprintf("o%d", i), 1+i%2, over))
	}
	c.AddAPI("a1", M{"select-strategy": "random", "object": M{"checksum": true, "distinct-timeout": "20ms",
		"reed-solomon": M{"data-shards": 2, "parity-shards": 1, "rewrite-async": true}, "replication": M{"copies-count": 2, "copy-async": true}},
		"performance": M{"enable": true, "store": "local", "flush-interval": "1s", "max-in-memory": 20, "flush-when-reached": true}})
	c.AddAPI("a2", M{"object": M{"distinct-timeout": "20ms",
		"reed-solomon": M{"data-shards": 2, "parity-shards": 2}, "replication": M{"copies-count": 3, "loss-tolerance-rate": 0.4}},
		"performance": M{"enable": true, "store": "remote", "flush-interval": "1s", "max-in-memory": 50},
		"auth":        M{"enable": true, "password": M{"enable": true, "username": "u", "password": "p"}}})
	var choosy []API
	for _, st := range []string{"space-first", "io-first"} {
		choosy = append(choosy, API{N: c.AddAPI("a-"+st, M{"select-strategy": st, "object": M{"distinct-timeout": "20ms", "reed-solomon": M{"data-shards": 2, "parity-shards": 1}}})})
	}
	c.AddAdmin("adm", nil)
	if !x.Start(c) {
		return
	}
	basicAuth := "Basic dTpw"
	apis := []API{{N: c.ByID("a1")}, {N: c.ByID("a2"), Basic: basicAuth}}
	adm := Admin{c.ByID("adm")}
	metas := append([]*cluster.Node{c.ByID("m1")}, group...)
	if !eventually(60*time.Second, func() bool {
		r := apis[0].CreateBucket(Bucket{Name: "b0", Versioning: true, VersionRemains: 5})
		if r.Err == nil && r.Code/100 != 5 {
			return true
		}
		return false
	}) {
		x.Violate("start", "no bucket can be created within 60 s of the start\n%s", c.ByID("a1").LogTail(30))
		return
	}
	for i := 1; i < 4; i++ {
		b := Bucket{Name: fmt.Sprintf("b%d", i), Versioning: i%2 == 0, VersionRemains: 2, Compress: i == 3}
		eventually(10*time.Second, func() bool { r := apis[0].CreateBucket(b); return r.Err == nil && r.Code/100 != 5 })
	}

	// servers learn about space and I/O with their first uploads
	for k := 0; k < x.Pick(3, 8); k++ {
		for i, a := range choosy {
			if k > 0 {
				a.N.Stop(10 * time.Second)
				if err := restart(a.N); err != nil {
					x.Violate("start", "api server %s does not start again: %v\n%s", a.N.ID, err, a.N.LogTail(30))
					return
				}
			}
			var ok atomic.Int64
			parallel(30, 15, func(j int) {
				if _, r := a.Put("b0", fmt.Sprintf("first-%d", j%5), blob(3000, int64(k*1000+i*100+j)), fmt.Sprintf("ss=%d", 1+j%2)); r.Err == nil && r.Code == 201 {
					ok.Add(1)
				}
			})
			x.Case(fmt.Sprintf("first uploads %s stored=%v", a.N.ID, ok.Load() > 0))
			x.Event("first_uploads", ok.Load())
		}
	}

	var stop atomic.Bool
	var wg sync.WaitGroup
	note := func(kind string, r Resp) {
		x.Event("requests", 1)
		oc := "no answer"
		if r.Err == nil {
			oc = fmt.Sprint(r.Code)
		}
		x.Case(kind + " -> " + oc)
	}
	worker := func(id int) {
		defer wg.Done()
		rng := rand.New(rand.NewSource(x.Seed*1000 + int64(round*100+id)))
		for !stop.Load() {
			a := apis[rng.Intn(len(apis))]
			bk := fmt.Sprintf("b%d", rng.Intn(4))
			nm := fmt.Sprintf("n%d", rng.Intn(6))
			o := OS{N: objs[rng.Intn(len(objs))]}
			m := MS{N: metas[rng.Intn(len(metas))]}
			switch k := rng.Intn(40); {
			case k < 9:
				body := blob(1+rng.Intn(200_000), int64(rng.Intn(30)))
				_, r := a.Put(bk, nm, body, fmt.Sprintf("ss=%d&compress=%v", 1+rng.Intn(2), rng.Intn(2) == 0))
				note("put", r)
			case k < 16:
				note("get", a.Get(bk, nm, int32(rng.Intn(3)), int64(rng.Intn(3)*1000)-1000))
			case k < 17:
				_, r := a.Meta(bk, nm, 0)
				note("meta", r)
			case k < 18:
				_, _, r := a.Versions(bk, nm, 1+rng.Intn(2), 1+rng.Intn(5))
				note("versions", r)
			case k < 19:
				note("delete", a.do("DELETE", "/v1/objects/"+nm+"?version="+fmt.Sprint(rng.Intn(3)), nil, "Bucket", bk))
			case k < 21: // a resumable upload in chunks
				body := blob(1+rng.Intn(300_000), int64(100+rng.Intn(5)))
				r := a.do("POST", "/v1/big/"+nm, nil, "Bucket", bk, "Digest", digest(body), "Size", fmt.Sprint(len(body)))
				note("big post", r)
				loc := r.Header.Get("Location")
				for i := 0; i < 4 && r.Err == nil && r.Code/100 == 2 && loc != ""; i++ {
					h := a.do("HEAD", loc, nil)
					note("big head", h)
					off := int64(0)
					fmt.Sscan(h.Header.Get("Content-Length"), &off)
					if h.Err != nil || h.Code != 200 || off >= int64(len(body)) {
						break
					}
					n := len(body) - int(off)
					if rng.Intn(2) == 0 && i < 3 {
						n = 1 + rng.Intn(n)
					}
					p := a.do("PATCH", loc, body[off:int(off)+n], "Range", rangeOf(off, n))
					note("big patch", p)
					if p.Err != nil || p.Code/100 != 2 {
						break
					}
				}
			case k < 22:
				b := Bucket{Name: bk, Versioning: rng.Intn(3) > 0, VersionRemains: 1 + rng.Intn(5), Compress: rng.Intn(2) == 0}
				note("bucket update", a.UpdateBucket(b))
			case k < 23:
				nb := fmt.Sprintf("t%d", rng.Intn(3))
				note("bucket create", a.CreateBucket(Bucket{Name: nb}))
				note("bucket delete", a.DeleteBucket(nb))
			case k < 24:
				_, r := a.GetBucket(bk)
				note("bucket get", r)
			case k < 25:
				note("api config", a.do("GET", "/config", nil))
				note("api ping", a.do("GET", "/ping", nil))
			case k < 27: // the object server's own routes
				name := fmt.Sprintf("direct-%d.%d", rng.Intn(8), rng.Intn(2))
				zip := rng.Intn(2) == 0
				switch rng.Intn(4) {
				case 0, 1:
					note("object put", o.Put(name, blob(1+rng.Intn(60_000), int64(rng.Intn(9))), zip))
				case 2:
					note("object get", o.Get(name, int64(rng.Intn(100)), 1000, zip))
					note("object head", o.Head(name))
				case 3:
					note("object delete", o.Delete(name))
				}
			case k < 29: // temporary objects
				tid, r := o.TPost(fmt.Sprintf("direct-%d.%d", rng.Intn(8), rng.Intn(2)), 20_000)
				note("temp post", r)
				if r.Err == nil && r.Code/100 == 2 {
					note("temp patch", o.TPatch(tid, blob(8192, 1)))
					_, r = o.THead(tid)
					note("temp head", r)
					note("temp patch", o.TPatch(tid, blob(20_000-8192, 2)))
					if rng.Intn(3) > 0 {
						note("temp commit", o.TCommit(tid, rng.Intn(2) == 0))
					} else {
						note("temp delete", o.TDelete(tid))
					}
				}
			case k < 30:
				note("object stat", o.do("GET", "/stat", nil))
				note("object ping", o.do("GET", "/ping", nil))
			case k < 33: // the metadata server's own routes
				id := fmt.Sprintf("%s/k%d", bk, rng.Intn(6))
				switch rng.Intn(8) {
				case 0:
					note("meta add", m.AddMeta(id, id, bk))
				case 1:
					_, r := m.AddVer(id, MVersion{Hash: fmt.Sprint("h", rng.Intn(4)), Locate: []string{"x", "y"}})
					note("version add", r)
				case 2:
					_, r := m.GetMeta(id, 0, true)
					note("meta get", r)
				case 3:
					_, _, r := m.ListMeta(bk, 10, "create_time", rng.Intn(2) == 0)
					note("meta list", r)
				case 4:
					_, _, r := m.ListVer(id, 1, 5)
					note("version list", r)
				case 5:
					_, r := m.ByHash(fmt.Sprint("h", rng.Intn(4)))
					note("version by hash", r)
					note("version locate", m.Locate(fmt.Sprint("h", rng.Intn(4)), rng.Intn(2), "z"))
				case 6:
					note("version delete", m.DelVer(id, 1+rng.Intn(3)))
				case 7:
					note("meta delete", m.DelMeta(id))
					_, _, r := m.ListBuckets("b", 10)
					note("bucket list", r)
				}
			case k < 34:
				note("meta stat", m.do("GET", "/stat", nil))
				note("meta ping", m.do("GET", "/ping", nil))
			case k < 36:
				p := []string{"/server/stat", "/server/overview", "/server/etcdstat", "/server/cpu/timeline?server=0", "/server/mem/timeline?server=2"}[rng.Intn(5)]
				note("admin "+p, adm.do("GET", p, nil))
			case k < 38:
				ids := []string{"o0", "o1", "m1", "a1", "gr-m0"}
				p := []string{"/metadata/page?page=1&pageSize=5", "/metadata/versions?page=1&pageSize=5&name=" + nm + "&bucket=" + bk,
					"/metadata/slots_detail", "/metadata/buckets?page=1&pageSize=3", "/metadata/peers?serverId=gr-m1",
					"/server/config?serverId=" + ids[rng.Intn(5)], "/metadata/config/m1", "/objects/config/o1"}[rng.Intn(8)]
				note("admin "+strings.SplitN(p, "?", 2)[0], adm.do("GET", p, nil))
			case k < 39:
				note("admin upload", adm.Upload(bk, nm, blob(1+rng.Intn(20_000), int64(rng.Intn(9)))))
			default:
				note("admin download", adm.do("GET", "/objects/download/"+nm+"?version=0&bucket="+url.QueryEscape(bk), nil))
			}
		}
	}
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go worker(i)
	}
	// disturbances
	wg.Add(1)
	go func() {
		defer wg.Done()
		rng := rand.New(rand.NewSource(x.Seed*77 + int64(round)))
		for !stop.Load() {
			time.Sleep(time.Duration(300+rng.Intn(900)) * time.Millisecond)
			var v *cluster.Node
			if rng.Intn(3) == 0 {
				v = group[rng.Intn(len(group))]
			} else {
				v = objs[rng.Intn(len(objs))]
			}
			switch rng.Intn(5) {
			case 0:
				v.Signal(syscall.SIGSTOP)
				time.Sleep(time.Duration(rng.Intn(400)) * time.Millisecond)
				v.Signal(syscall.SIGCONT)
				x.Case("disturbance: suspended " + v.Kind)
			case 1:
				v.Kill9()
				time.Sleep(time.Duration(rng.Intn(700)) * time.Millisecond)
				if err := v.Start(); err == nil {
					_ = v.WaitReady(30 * time.Second)
				}
				x.Case("disturbance: killed " + v.Kind)
			case 2:
				if !v.Stop(30 * time.Second) {
					x.Violate("stop:"+v.Kind, "%s does not stop within 30 s of SIGTERM:\n%s", v.ID, v.LogTail(40))
				}
				if err := v.Start(); err == nil {
					_ = v.WaitReady(30 * time.Second)
				}
				x.Case("disturbance: stopped " + v.Kind)
			case 3:
				all := append(append([]*cluster.Node{}, objs...), metas...)
				n := all[rng.Intn(len(all))]
				for k := range c.Etcd.List(c.Group + "/registry/" + n.Kind + "/") {
					if strings.Contains(k, n.ID) {
						c.Etcd.RevokeLeaseOf(k)
					}
				}
				x.Case("disturbance: lease revoked of " + n.Kind)
			case 4:
				n := c.ByKind("apiserver")[rng.Intn(2)]
				if !n.Stop(30 * time.Second) {
					x.Violate("stop:"+n.Kind, "%s does not stop within 30 s of SIGTERM:\n%s", n.ID, n.LogTail(40))
				}
				if err := n.Start(); err == nil {
					_ = n.WaitReady(30 * time.Second)
				}
				x.Case("disturbance: stopped " + n.Kind)
			}
			x.Event("disturbances", 1)
		}
	}()
	time.Sleep(time.Duration(seconds) * time.Second)
	stop.Store(true)
	wg.Wait()
	x.CheckAlive(c)
	// everything still works
	if !x.Violated() {
		for _, a := range apis {
			var r Resp
			if !eventually(40*time.Second, func() bool {
				nm := fmt.Sprint("last-", time.Now().UnixNano())
				body := blob(30_000, 3)
				_, r = a.Put("b0", nm, body, "ss=1")
				if r.Err != nil || r.Code/100 != 2 {
					if r.Code == 403 { // a bucket update may have lost the bucket's writability
						a.UpdateBucket(Bucket{Name: "b0", Versioning: true, VersionRemains: 5})
					}
					return false
				}
				r = a.Get("b0", nm, 0, -1)
				return sameBody(r, body) == ""
			}) {
				x.Violate("not-working", "40 s after the disturbances ended %s does not store and return an object: %s", a.N.ID, r)
			}
		}
	}
	// an orderly end, with its own accesses
	var sw sync.WaitGroup
	for _, n := range c.Nodes {
		if !n.Running() {
			continue
		}
		sw.Add(1)
		go func(n *cluster.Node) {
			defer sw.Done()
			if !n.Stop(40 * time.Second) {
				x.Violate("stop:"+n.Kind, "%s does not stop within 40 s of SIGTERM:\n%s", n.ID, n.LogTail(40))
			}
		}(n)
	}
	sw.Wait()
	harvest(x, c)
}
