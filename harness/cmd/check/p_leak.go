package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifharness/cluster"
)

// C24: every kind of request is repeated, and afterwards each server's open files and connections (as the kernel lists
// them for the processes this check started) are what they were; in the end no goroutine of a request is left.

func init() { props["C24"] = c24 }

type fdCount struct{ object, socket, other int }

// openFds counts what a server has open: files with objects' data, sockets, and other things.
func openFds(n *cluster.Node) (c fdCount, files []string) {
	dir := fmt.Sprintf("/proc/%d/fd", n.Pid())
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		l, err := os.Readlink(filepath.Join(dir, e.Name()))
		if err != nil {
			continue
		}
		switch {
		case strings.HasPrefix(l, "socket:"):
			c.socket++
		case strings.Contains(l, "_store/") && strings.Contains(l, "/objects/"):
			c.object++
			files = append(files, l)
		default:
			c.other++
			files = append(files, l)
		}
	}
	return
}

type leakWorld struct {
	x    *Ctx
	c    *cluster.Cluster
	tag  string
	api  []API
	objs []*cluster.Node
	adm  console
	base map[string]fdCount
	keys map[string]string // what is in etcd
}

type leakStep struct {
	name string
	f    func(i int)
	pre  func()
	post func()
	tidy bool // it leaves no temporary files that have to grow old
}

func (w *leakWorld) running() (l []*cluster.Node) {
	for _, n := range w.c.Nodes {
		if n.Running() {
			l = append(l, n)
		}
	}
	return
}

// baseline waits until the counts do not change.
func (w *leakWorld) baseline() {
	last := ""
	eventually(6*time.Second, func() bool {
		cluster.HTTP.CloseIdleConnections()
		w.base = map[string]fdCount{}
		for _, n := range w.running() {
			w.base[n.ID], _ = openFds(n)
		}
		s := fmt.Sprint(w.base)
		ok := s == last
		last = s
		w.keys = w.c.Etcd.List("")
		time.Sleep(200 * time.Millisecond)
		return ok
	})
}

const leakSlack = 12

// back demands that every server gave back what it used.
func (w *leakWorld) back(what string, n int) {
	x := w.x
	e := ""
	if eventually(20*time.Second, func() bool {
		cluster.HTTP.CloseIdleConnections()
		e = ""
		for _, s := range w.running() {
			c, files := openFds(s)
			b, ok := w.base[s.ID]
			if !ok {
				continue
			}
			x.Event("looks at open files", 1)
			if c.object > b.object || c.socket > b.socket+leakSlack || c.other > b.other+leakSlack {
				sort.Strings(files)
				if len(files) > 12 {
					files = files[len(files)-12:]
				}
				e = fmt.Sprintf("%s had %+v, has %+v after %d times: %v", s.ID, b, c, n, files)
				return false
			}
		}
		now := w.c.Etcd.List("")
		x.Event("looks at etcd", 1)
		var extra []string
		for k := range now {
			if _, ok := w.keys[k]; !ok {
				extra = append(extra, k)
			}
		}
		if len(now) > len(w.keys)+leakSlack {
			sort.Strings(extra)
			e = fmt.Sprintf("etcd had %d keys, has %d after %d times, new are %.300q", len(w.keys), len(now), n, extra)
			return false
		}
		return true
	}) {
		return
	}
	x.Violate(w.tag+": "+what, "%s (20 s later)", e)
}

func c24(x *Ctx) {
	x.Rule("each kind of request (stored, refused, cut off, aborted, degraded, with servers down, through every server and interface) is repeated several dozen times; the open files and connections of each server, listed by the kernel, are compared before and after, and the goroutines in a final dump of each server are grouped by the code they are in. " +
		"A case is distinct by kind of request and server kind.")
	worlds := []func(*Ctx, *leakWorld) []leakStep{leakStorage, leakOthers}
	parallel(2, 2, func(i int) {
		leakRun(x, i, worlds[i])
	})
}

func leakRun(x *Ctx, k int, mk func(*Ctx, *leakWorld) []leakStep) {
	w := &leakWorld{x: x, tag: []string{"storage", "others"}[k]}
	c := x.Cluster(w.tag, false)
	w.c = c
	c.AddMeta("m1", M{"hash-slot": M{"slots": []string{"0-8000"}}})
	if k == 1 {
		c.AddMetaGroup("gr", 3, M{"hash-slot": M{"slots": []string{"8000-16384"}}})
	} else {
		c.AddMeta("m2", M{"hash-slot": M{"slots": []string{"8000-16384"}}})
	}
	for i := 0; i < 3; i++ {
		w.objs = append(w.objs, c.AddObject(fmt.Sprintf("o%d", i), 1+i%2, M{"cache": M{"ttl": "20s", "clean-interval": "1s", "max-item-size": "16KB", "max-size": "8MB"}}))
	}
	c.AddAPI("a0", M{"object": M{"checksum": true, "distinct-size": "64KB", "distinct-timeout": "50ms", "reed-solomon": M{"data-shards": 2, "parity-shards": 1}, "replication": M{"copies-count": 2}}})
	c.AddAPI("a1", M{"object": M{"checksum": false, "distinct-size": "64KB", "distinct-timeout": "50ms", "reed-solomon": M{"data-shards": 2, "parity-shards": 1, "rewrite-async": true}, "replication": M{"copies-count": 3, "copy-async": true, "loss-tolerance-rate": 0.5}}})
	w.adm = console{n: c.AddAdmin("adm", nil), token: "none"}
	if !x.Start(c) {
		return
	}
	w.api = []API{{N: c.ByID("a0")}, {N: c.ByID("a1")}}
	for _, b := range []Bucket{{Name: "b"}, {Name: "v", Versioning: true, VersionRemains: 3}, {Name: "ro"}, {Name: "zip", Compress: true}} {
		b := b
		var r Resp
		if !eventually(30*time.Second, func() bool { r = w.api[0].CreateBucket(b); return r.Err == nil && r.Code/100 == 2 }) { // the raft group elects a leader first
			x.Violate(w.tag+": bucket", "%s", r)
			return
		}
	}
	steps := mk(x, w)
	warm, n := 10, x.Pick(100, 400)
	for _, s := range steps {
		if s.pre != nil {
			continue
		}
		for i := 0; i < warm; i++ {
			s.f(i)
		}
	}
	x.Logf("%s: warm", w.tag)
	w.baseline()
	for _, s := range steps {
		t := time.Now()
		if s.pre != nil {
			s.pre()
			for i := 0; i < warm; i++ {
				s.f(i)
			}
			w.baseline()
		}
		had := w.temps()
		for i := 0; i < n && !x.Violated(); i++ {
			s.f(warm + i)
		}
		if s.tidy && !x.Violated() {
			left := ""
			if !eventually(6*time.Second, func() bool {
				left = ""
				for p := range w.temps() {
					if !had[p] {
						left = p
					}
				}
				return left == ""
			}) {
				x.Violate(w.tag+": temporary files of "+s.name, "%s is left 6 s later", left)
			}
		}
		if x.Violated() {
			return
		}
		x.Event("requests repeated", int64(n))
		w.back(s.name, n)
		if s.post != nil {
			s.post()
			w.baseline()
		}
		for _, k := range []string{"apiserver", "metaserver", "objectserver", "adminserver"} {
			x.Case(w.tag + " " + s.name + " " + k)
		}
		x.Logf("%s: %s took %s", w.tag, s.name, time.Since(t))
	}
	// what was given up is gone from the disks
	e := ""
	if !eventually(60*time.Second, func() bool {
		l := w.temps()
		e = fmt.Sprintf("%d temporary files: %v", len(l), l)
		return len(l) == 0
	}) {
		x.Violate(w.tag+": temporary files", "%s", e)
	}
	x.CheckAlive(c)
	time.Sleep(time.Second)
	for _, s := range w.running() {
		w.dump(s, n)
	}
}

var goHeader = regexp.MustCompile(`(?m)^goroutine \d+ `)

// dump ends a server with a dump of its goroutines, and looks for code that many of them are in.
func (w *leakWorld) dump(s *cluster.Node, n int) {
	s.Signal(syscall.SIGABRT)
	var b []byte
	eventually(10*time.Second, func() bool {
		if s.Running() {
			return false
		}
		b, _ = os.ReadFile(s.LogFile())
		return true
	})
	i := bytes.LastIndex(b, []byte("SIGABRT: abort"))
	if i < 0 {
		w.x.Logf("%s gave no dump", s.ID)
		return
	}
	gs := goHeader.Split(string(b[i:]), -1)
	in, text := map[string]int{}, map[string]string{}
	for _, g := range gs[1:] {
		w.x.Event("goroutines looked at", 1)
		place := ""
		for _, l := range strings.Split(g, "\n") {
			l, made := strings.CutPrefix(strings.TrimSpace(l), "created by ")
			tree := inTree(l) && !strings.HasPrefix(l, "common/graceful")
			if !made && !tree {
				continue
			}
			if j := strings.LastIndexByte(l, '('); j > 0 && !made {
				l = l[:j]
			}
			if j := strings.Index(l, " in goroutine"); j > 0 {
				l = l[:j]
			}
			place = l
			if tree {
				break
			}
		}
		in[place]++
		text[place] = g
	}
	for k, v := range in {
		limit := n / 5
		if !inTree(k) {
			limit = n / 2
		}
		if v > limit && k != "" && !strings.HasPrefix(k, "runtime.") {
			w.x.Violate(w.tag+": goroutines of "+k, "%s has %d goroutines in %s:\n%s", s.ID, v, k, text[k])
		}
	}
	w.x.Case(w.tag + " goroutines " + s.Kind)
}

func (w *leakWorld) shards(name string) []string {
	for _, a := range w.api {
		if vs, _, _ := a.Versions("v", name, 1, 1); len(vs) == 1 {
			return shardList(w.c, vs[0].Hash)
		}
	}
	return nil
}

func (w *leakWorld) shardOf(name string, i int) string {
	l := w.shards(name)
	if len(l) == 0 {
		return ""
	}
	return l[i%len(l)]
}

// temps lists the temporary files at the object servers.
func (w *leakWorld) temps() map[string]bool {
	m := map[string]bool{}
	for _, o := range w.objs {
		_, l, _ := OS{o}.stored()
		for _, t := range l {
			m[o.ID+" "+fmt.Sprint(t)] = true
		}
	}
	return m
}

func must2xx(w *leakWorld, what string, r Resp) {
	if r.Err != nil || r.Code/100 != 2 {
		w.x.Violate(w.tag+": request", "%s: %s", what, r)
	}
}

// leakStorage: uploads and downloads.
func leakStorage(x *Ctx, w *leakWorld) []leakStep {
	big := blob(3<<20, x.Seed+1)
	mid := blob(300_000, x.Seed+2)
	stored := func() bool { // two objects that reads are made of
		rs, cp := blob(2<<20, x.Seed+3), blob(1<<20, x.Seed+4)
		for i, q := range []struct {
			n, o string
			b    []byte
		}{{"rs", "ss=1", rs}, {"cp", "ss=2", cp}, {"zrs", "ss=1&compress=true", bytes.Repeat([]byte("compress me "), 100_000)}, // and some that do not fit into what a connection takes in by itself
			{"lrs", "ss=1", blob(24<<20, x.Seed+5)}, {"lcp", "ss=2", blob(9<<20, x.Seed*2)}, {"lz", "ss=1&compress=true", blob(20<<20, x.Seed*2)}} {
			if _, r := w.api[i%2].Put("v", q.n, q.b, q.o); r.Err != nil || r.Code/100 != 2 {
				x.Violate(w.tag+": put", "%s", r)
				return false
			}
		}
		return true
	}
	if !stored() {
		return nil
	}
	a := func(i int) API { return w.api[i%2] }
	opts := []string{"ss=1", "ss=2", "ss=1&compress=true", "ss=2&compress=true"}
	names := []string{"rs", "cp", "zrs"}
	down := func() { w.objs[2].Kill9() }
	up := func() {
		if err := restart(w.objs[2]); err != nil {
			x.Violate(w.tag+": restart", "%v", err)
		}
		eventually(20*time.Second, func() bool {
			_, r := w.api[0].Put("b", "again", blob(1000, 1), "ss=1")
			_, q := w.api[1].Put("b", "again", blob(1001, 1), "ss=1")
			return r.Code/100 == 2 && q.Code/100 == 2
		})
	}
	return []leakStep{
		{name: "put", tidy: true, f: func(i int) {
			_, r := a(i/4).Put("b", fmt.Sprint("p", i%20), blob(5_000+i*997, int64(i)+x.Seed*1000), opts[i%4])
			must2xx(w, "put", r)
		}},
		{name: "put known content", tidy: true, f: func(i int) {
			_, r := a(i/4).Put("b", fmt.Sprint("k", i%20), mid, opts[i%2])
			must2xx(w, "put", r)
		}},
		{name: "get", tidy: true, f: func(i int) { must2xx(w, "get", a(i/3).Get("v", names[i%3], 0, -1)) }},
		{name: "get from an offset", f: func(i int) { must2xx(w, "get", a(i/3).Get("v", names[i%3], 0, int64(1000+i*3001))) }},
		{name: "get of nothing", tidy: true, f: func(i int) {
			a(i).Get("v", "nothing", 0, -1)
			a(i).Get("nobucket", "nothing", 0, -1)
			a(i).Get("v", "rs", 99, -1)
			a(i).Get("v", "rs", 0, 1<<40)
		}},
		{name: "get given up", f: func(i int) {
			u := a(i/3).N.URL() + "/v1/objects/" + []string{"rs", "cp", "zrs", "lrs", "lcp", "lz", "lrs"}[i%7]
			abortedGet(u, "v", []int{0, 100, 70_000, 500_000}[i%4])
		}},
		{name: "put with a wrong digest", tidy: true, f: func(i int) {
			w.api[0].PutDigest("b", "wrong", blob(90_000+i, int64(i)), digest([]byte{byte(i)}), opts[i%4])
		}},
		{name: "put refused", tidy: true, f: func(i int) {
			w.api[i%2].Put("nobucket", "x", mid, opts[i%4])
			w.api[i%2].do("PUT", "/v1/objects/x", mid, "Bucket", "b")
			w.api[i%2].Put("b", "x", mid, "ss=9")
		}},
		{name: "put cut off", tidy: true, f: func(i int) {
			h := map[string]string{"Bucket": "b", "Digest": digest(append(big[:0:0], byte(i), 1, 2))}
			rawUpload(a(i/4).N, "/v1/objects/cut?"+opts[i%4], h, len(big), func(c io.Writer) { c.Write(big[:[]int{0, 1000, 400_000, 1 << 20}[i%4]]) }, []string{"close", "half"}[i/4%2])
		}},
		{name: "resumable uploads", f: func(i int) {
			body := blob(200_000, int64(i)+x.Seed*7777)
			u := &resumable{x: x, rng: nil, apis: w.api[i%2 : i%2+1], bucket: "b", name: fmt.Sprint("r", i%10), body: body, digest: digest(body), compress: i%3 == 0}
			r := w.api[i%2].do("POST", "/v1/big/"+url.PathEscape(u.name)+map[bool]string{true: "?compress=true"}[u.compress], nil, "Bucket", "b", "Digest", u.digest, "Size", fmt.Sprint(len(body)))
			must2xx(w, "post", r)
			loc := r.Header.Get("Location")
			w.api[i%2].do("HEAD", loc, nil)
			switch i % 4 {
			case 0: // given up
			case 1: // broken in the middle
				rawUpload(w.api[i%2].N, loc, map[string]string{":method": "PATCH", "Range": rangeOf(0, len(body))}, len(body), func(c io.Writer) { c.Write(body[:70_000]) }, "close")
				w.api[i%2].do("HEAD", loc, nil)
			case 2: // from a wrong offset
				w.api[i%2].do("PATCH", loc, body[4096:], "Range", rangeOf(4096, len(body)-4096))
			case 3:
				r = w.api[i%2].do("PATCH", loc, body, "Range", rangeOf(0, len(body)))
				if r.Code/100 != 2 {
					must2xx(w, "patch", r)
				}
			}
			w.api[i%2].do("HEAD", "/v1/big/abc", nil)
		}},
		{name: "get of a degraded object", f: func(i int) {
			p := w.shardOf(names[i%2], i/2)
			if p == "" {
				x.Event("no shard to spoil", 1)
				return
			}
			was, _ := os.ReadFile(p)
			if i%4 != 0 {
				os.Remove(p)
			} else {
				os.Truncate(p, 1000)
			}
			x.Event("shards spoilt", 1)
			if i%3 == 0 {
				abortedGet(a(i/2).N.URL()+"/v1/objects/"+names[i%2], "v", 1000)
			}
			must2xx(w, "get", a(i/2).Get("v", names[i%2], 0, -1))
			time.Sleep(40 * time.Millisecond) // one that the read needed is written again, maybe in the background
			if fi, err := os.Stat(p); err != nil || fi.Size() < int64(len(was)) {
				os.WriteFile(p+".x", was, 0o700)
				os.Rename(p+".x", p)
			} else {
				x.Event("shards written again in place", 1)
			}
		}},
		{name: "get with a server down", pre: down, f: func(i int) {
			must2xx(w, "get", a(i/3).Get("v", []string{"rs", "zrs", "rs"}[i%3], 0, int64(i%2)*2000-1))
		}},
		{name: "put with too few servers", pre: func() {}, post: up, f: func(i int) {
			w.api[0].Put("b", "few", blob(50_000+i, int64(i)), "ss=1")
		}},
		{name: "get of a lost object", tidy: true, pre: func() {
			for _, p := range w.shards("cp") {
				os.Remove(p)
			}
			for i, p := range w.shards("rs") {
				if i > 0 {
					os.Remove(p)
				}
			}
		}, f: func(i int) {
			if r := a(i/2).Get("v", []string{"rs", "cp"}[i%2], 0, -1); r.Err == nil && r.Code/100 == 2 {
				x.Violate(w.tag+": lost", "an object that is lost is answered %s", r)
			}
		}},
	}
}

// leakOthers: the servers' own interfaces.
func leakOthers(x *Ctx, w *leakWorld) []leakStep {
	body := blob(200_000, x.Seed+9)
	name := fmt.Sprintf("%x.0", sha256.Sum256(body))
	o := func(i int) OS { return OS{w.objs[i%3]} }
	metas := w.c.ByKind("metaserver")
	must2xx(w, "put", func() Resp { _, r := w.api[0].Put("v", "adm", body, "ss=1"); return r }())
	must2xx(w, "put", func() Resp { _, r := w.api[0].Put("v", "large", blob(24<<20, x.Seed+10), "ss=1"); return r }())
	slow := func(i int) { // a connection that is opened and left
		c, err := net.DialTimeout("tcp", w.running()[i%len(w.running())].Addr(), time.Second)
		if err == nil {
			fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: x\r\n")
			c.Close()
		}
	}
	return []leakStep{
		{name: "objects on a server", tidy: true, f: func(i int) {
			s := o(i)
			n := fmt.Sprintf("%x.%d", sha256.Sum256([]byte{byte(i), byte(i / 256)}), i%3)
			must2xx(w, "put", s.Put(n, body[:10_000+i*131], i%2 == 0))
			must2xx(w, "get", s.Get(n, 0, int64(10_000+i*131), i%2 == 0))
			s.Get(n, 5000, 2000, i%2 == 0)
			s.Head(n)
			s.Delete(n)
			s.Get(n, 0, 100, false)
			s.Head("nothing")
			s.Delete("nothing")
		}},
		{name: "downloads of an object server given up", f: func(i int) {
			s := o(i)
			if s.Head(name).Code != 200 {
				must2xx(w, "put", s.Put(name, body, false))
			}
			abortedGet(s.N.URL()+"/objects/"+name+"?size=200000", "", []int{0, 10, 50_000}[i%3])
			s.Get(name, 100, 1<<30, true) // not what it is stored as
		}},
		{name: "uploads to an object server cut off", tidy: true, f: func(i int) {
			s := o(i)
			n := fmt.Sprintf("%x.7", sha256.Sum256([]byte{byte(i), 99}))
			rawUpload(s.N, "/objects/"+n, map[string]string{}, len(body), func(c io.Writer) { c.Write(body[:i*1000]) }, []string{"close", "half"}[i%2])
			s.Delete(n)
		}},
		{name: "temporary objects", f: func(i int) {
			s := o(i)
			n := fmt.Sprintf("%x.0", sha256.Sum256([]byte{byte(i), 7, 7}))
			id, r := s.TPost(n, 50_000)
			must2xx(w, "temp post", r)
			must2xx(w, "temp patch", s.TPatch(id, body[:8192]))
			s.TGet(id, 8192)
			s.THead(id)
			switch i % 5 {
			case 0:
				s.TPatch(id, body[8192:50_000])
				must2xx(w, "temp commit", s.TCommit(id, i%2 == 0))
				s.Delete(n)
			case 1:
				s.TDelete(id)
			case 2: // given up
			case 3:
				s.TCommit(id, false) // not complete
				s.Delete(n)
			case 4:
				rawUpload(s.N, "/temp/"+id, map[string]string{":method": "PATCH"}, 40_000, func(c io.Writer) { c.Write(body[:20_000]) }, "close")
				abortedGet(s.N.URL()+"/temp/"+id+"?size=8192", "", 10)
				s.TDelete(id)
			}
			s.TPatch("nothing", body[:10])
			s.TGet("nothing", 5)
			s.TCommit("nothing", false)
		}},
		{name: "metadata", f: func(i int) {
			m := MS{metas[i%len(metas)]}
			id := fmt.Sprintf("b/m%d", i)
			m.AddMeta(id, id, "b")
			m.AddVer(id, MVersion{Hash: fmt.Sprint("h", i%5), Locate: []string{"x"}, StoreStrategy: 1, DataShards: 1, Size: 1, ShardSize: 1})
			m.GetMeta(id, 0, true)
			m.ListVer(id, 1, 5)
			m.ByHash(fmt.Sprint("h", i%5))
			m.Locate(fmt.Sprint("h", i%5), 0, "y")
			m.DelMeta(id)
			m.ListMeta("", 10, "", false)
			m.ListBuckets("", 10)
			m.GetMeta("b/nothing", 0, true)
		}},
		{name: "metadata through an api server", f: func(i int) {
			a := w.api[i%2]
			n := fmt.Sprint("tmp", i%7)
			a.CreateBucket(Bucket{Name: n})
			a.UpdateBucket(Bucket{Name: n, VersionRemains: 3})
			a.GetBucket(n)
			a.DeleteBucket(n)
			a.GetBucket("nothing")
			a.Versions("v", "adm", 1, 10)
			a.Meta("v", "adm", 0)
			a.Meta("v", "nothing", 0)
		}},
		{name: "admin server", f: func(i int) {
			for _, p := range []string{"/metadata/page?page=1&pageSize=5", "/metadata/buckets?page=1&pageSize=5", "/metadata/versions?page=1&pageSize=5&name=adm&bucket=v", "/metadata/slots_detail", "/metadata/peers?serverId=gr-m1",
				"/metadata/config/m1", "/objects/config/o1", "/server/config?serverId=a0", "/server/stat", "/server/overview", "/server/cpu/timeline?server=0", "/metadata/page?page=0&pageSize=5"} {
				w.adm.do("GET", p, nil)
			}
		}},
		{name: "uploads and downloads through the admin server", f: func(i int) {
			must2xx(w, "upload", w.adm.upload("b", fmt.Sprint("up", i%5), body[:10_000+i]))
			must2xx(w, "download", w.adm.do("GET", downloadPath("v", "adm", 0), nil))
			w.adm.upload("nobucket", "x", body)
			w.adm.do("GET", downloadPath("v", "nothing", 0), nil)
			w.adm.do("GET", downloadPath("nobucket", "nothing", 0), nil)
			tokenAbort(w.adm.n.URL()+"/api"+downloadPath("v", []string{"adm", "large"}[i%2], 0), "none", 1000)
		}},
		{name: "joins and leaves that are refused", f: func(i int) {
			w.adm.do("POST", "/objects/join/nothing", nil)
			w.adm.json("POST", "/metadata/join_leader", M{"serverId": "m1", "masterId": "nothing"})
			w.adm.json("POST", "/metadata/migration", M{"srcServerId": "m1", "destServerId": "gr-m0", "slots": []string{"9000-9001"}})
			w.adm.json("POST", "/metadata/migration", M{"srcServerId": "m1", "destServerId": "nothing", "slots": []string{"1-2"}})
		}},
		{name: "moves of objects that fail", f: func(i int) {
			from := w.objs[i%3]
			switch i % 3 {
			case 0:
				migCall(from.Addr(), "RequireSend", pbInt(2, 1000)+pbStr(3, "127.0.0.1:1"))
			case 1:
				if s, err := openSend(from.Addr()); err == nil {
					s.chunk(fmt.Sprintf("%x.0", sha256.Sum256([]byte{1, byte(i)})), 100_000, body[:40_000])
					s.cut()
				}
			case 2:
				if s, err := openSend(from.Addr()); err == nil {
					s.chunk(fmt.Sprintf("%x.0", sha256.Sum256([]byte{2, byte(i)})), 100, body[:40_000])
					s.end()
				}
			}
		}},
		{name: "moves of objects", tidy: true, f: func(i int) {
			from, to := w.objs[i%3], w.objs[(i+1+i/3%2)%3]
			if ok, e := migCall(from.Addr(), "RequireSend", pbInt(2, 200_000)+pbStr(3, to.Addr())); ok {
				x.Event("moves that succeed", 1)
			} else {
				x.Logf("%s", e)
			}
		}},
		{name: "joins of a server that has joined", f: func(i int) {
			r := w.adm.do("POST", fmt.Sprint("/objects/join/o", i%3), nil)
			if r.Code/100 == 2 {
				x.Event("joins that succeed", 1)
			} else {
				x.Logf("%s", r)
			}
		}},
		{name: "moves of slots", f: func(i int) {
			l := ""
			for _, m := range metas[1:] {
				if (&raftWorld{}).believes(m) == m.ID {
					l = m.ID
				}
			}
			from, to := "m1", l
			if i%2 == 1 {
				from, to = l, "m1"
			}
			r := w.adm.json("POST", "/metadata/migration", M{"srcServerId": from, "destServerId": to, "slots": []string{"100-120"}})
			if r.Code/100 == 2 {
				x.Event("moves of slots that succeed", 1)
			} else {
				x.Logf("%s", r)
			}
			time.Sleep(20 * time.Millisecond)
		}},
		{name: "leaving and joining a raft group", f: func(i int) {
			l := ""
			var f *cluster.Node
			if !eventually(20*time.Second, func() bool {
				for _, m := range metas[1:] {
					if (&raftWorld{}).believes(m) == m.ID {
						l = m.ID
					}
				}
				for _, m := range metas[1:] {
					if m.ID != l {
						f = m
					}
				}
				return l != ""
			}) {
				x.Event("no leader found", 1)
				return
			}
			call := func(method, req string) (bool, string) {
				b, err := rawCall(f.Addr(), "/proto.RaftCmd/"+method, req)
				if err != nil {
					return false, err.Error()
				}
				return pbResponse(b)
			}
			if ok, e := call("LeaveCluster", ""); ok {
				x.Event("servers left", 1)
			} else {
				x.Logf("leave: %s", e)
			}
			if !eventually(5*time.Second, func() bool { ok, _ := call("JoinLeader", pbStr(1, l)); return ok }) {
				x.Event("servers not joined", 1)
			}
		}},
		{name: "stat, ping and connections that are left", f: func(i int) {
			for _, n := range w.running() {
				cluster.Do("GET", n.URL()+"/ping", nil)
				cluster.Do("GET", n.URL()+"/stat", nil)
				cluster.Do("GET", n.URL()+"/config", nil)
			}
			slow(i)
		}},
	}
}

func tokenAbort(u, token string, n int) {
	conn, err := net.DialTimeout("tcp", strings.SplitN(strings.TrimPrefix(u, "http://"), "/", 2)[0], 5*time.Second)
	if err != nil {
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(conn, "GET /%s HTTP/1.1\r\nHost: x\r\nAuthorization: %s\r\n\r\n", strings.SplitN(strings.TrimPrefix(u, "http://"), "/", 2)[1], token)
	io.CopyN(io.Discard, conn, int64(n))
}
