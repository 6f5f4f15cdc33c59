package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/cluster"
)

// C25: what the admin server shows and does is compared with the uploads' history, the api servers' answers, the etcd
// entries and the processes that run.

func init() { props["C25"] = c25 }

// console is a client of the admin server with explicit credentials.
type console struct {
	n      *cluster.Node
	token  string // Authorization header, none if empty
	cookie string
}

func (a console) do(method, path string, body []byte, hdr ...string) Resp {
	if a.token != "" {
		hdr = append(hdr, "Authorization", a.token)
	}
	if a.cookie != "" {
		hdr = append(hdr, "Cookie", a.cookie)
	}
	return cluster.Do(method, a.n.URL()+"/api"+path, body, hdr...)
}

func (a console) json(method, path string, v any) Resp {
	b, _ := json.Marshal(v)
	return a.do(method, path, b, "Content-Type", "application/json")
}

func (a console) upload(bucket, name string, body []byte) Resp {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	_ = w.WriteField("bucket", bucket)
	f, _ := w.CreateFormFile("file", name)
	_, _ = f.Write(body)
	w.Close()
	return a.do("PUT", "/objects/upload", b.Bytes(), "Content-Type", w.FormDataContentType())
}

func downloadPath(bucket, name string, v int) string {
	p := "/objects/download/" + url.PathEscape(name) + "?bucket=" + url.QueryEscape(bucket)
	if v > 0 {
		p += fmt.Sprintf("&version=%d", v)
	}
	return p
}

// session returns what a response leaves as the cookie.
func session(r Resp, was string) string {
	for _, c := range r.Header.Values("Set-Cookie") {
		was = strings.SplitN(c, ";", 2)[0]
	}
	return was
}

type adminWorld struct {
	x       *Ctx
	c       *cluster.Cluster
	rng     *rand.Rand
	tag     string
	auth    bool
	adm     console
	apis    []API
	admNode *cluster.Node
	srv     []*cluster.Node // all but the admin server
	group   []*cluster.Node
	buckets map[string]Bucket
	objs    map[string][][]byte // bucket/name -> bodies by version
}

func c25(x *Ctx) {
	x.Rule("a data set of confusable names over three metadata groups is read through every page of the admin server for many filters and page sizes and compared with the history; versions, downloads, uploads and bucket changes are compared with the api servers; every route is called without a token, with sessions and wrong tokens; the servers shown are compared with the running ones after kills, stops and restarts, their statistics with values placed in etcd, configurations, slots and peers with the servers' own; with failing servers and etcd. " +
		"A case is distinct by world, kind of request, filter, page size and position.")
	parallel(2, 2, func(i int) {
		for r := 0; r < x.Pick(1, 4) && !x.Violated(); r++ {
			newAdminWorld(x, i == 1, r).all()
		}
	})
}

func newAdminWorld(x *Ctx, auth bool, round int) *adminWorld {
	tag := map[bool]string{false: "open", true: "auth"}[auth]
	w := &adminWorld{x: x, tag: tag, auth: auth, rng: rand.New(rand.NewSource(x.Seed*100 + int64(round)*10 + int64(len(tag)))), buckets: map[string]Bucket{}, objs: map[string][][]byte{}}
	if auth {
		w.rng = rand.New(rand.NewSource(x.Seed*100 + int64(round)*10 + 7))
	}
	c := x.Cluster(fmt.Sprintf("%s%d", tag, round), false)
	w.c = c
	w.srv = append(w.srv, c.AddMeta("m1", M{"hash-slot": M{"slots": []string{"0-4000", "14000-15000"}}}))
	w.group = c.AddMetaGroup("gr", 3, M{"hash-slot": M{"slots": []string{"4000-12000"}}})
	w.srv = append(w.srv, w.group...)
	w.srv = append(w.srv, c.AddMeta("m2", M{"hash-slot": M{"slots": []string{"12000-14000", "15000-16384"}}}))
	for i := 0; i < 3; i++ {
		w.srv = append(w.srv, c.AddObject(fmt.Sprintf("o%d", i), 1, nil))
	}
	over := M{"object": M{"distinct-size": "1GB", "reed-solomon": M{"data-shards": 2, "parity-shards": 1}}}
	header := ""
	if auth {
		over["auth"] = M{"enable": true, "password": M{"enable": true, "username": "root", "password": "s3cret:x"}}
		header = basic("root", "s3cret:x")
	}
	for i := 0; i < 2; i++ {
		n := c.AddAPI(fmt.Sprintf("a%d", i), over)
		w.srv = append(w.srv, n)
		w.apis = append(w.apis, API{N: n, Basic: header})
	}
	w.admNode = c.AddAdmin("adm", nil)
	w.adm = console{n: w.admNode, token: basic("root", "s3cret:x")}
	return w
}

func (w *adminWorld) all() {
	if !w.x.Start(w.c) {
		return
	}
	if !w.fill() {
		return
	}
	steps := []struct {
		name string
		f    func()
	}{{"pages", w.pages}, {"bucket pages", w.bucketPages}, {"odd pages", w.oddPages}, {"versions", w.versions}, {"files", w.files}, {"buckets", w.bucketChanges},
		{"tokens", w.tokens}, {"sessions", w.sessions}, {"configuration", w.configs}, {"overview", w.overview}, {"statistics", w.statistics}, {"members", w.members}, {"broken downloads", w.broken}, {"no api server", w.noAPI}, {"admin start", w.adminStart}}
	for _, s := range steps {
		t := time.Now()
		s.f()
		w.x.Logf("%s: %s took %s", w.tag, s.name, time.Since(t))
		if w.x.Violated() {
			break
		}
	}
	b, _ := os.ReadFile(w.admNode.LogFile())
	if l := panicLine.Find(b); l != nil {
		w.x.Violate(w.tag+": panic", "the admin server panicked: %s\n%s", l, w.admNode.LogTail(60))
	}
	w.x.CheckAlive(w.c)
}

// fill stores the data set.
func (w *adminWorld) fill() bool {
	x := w.x
	for i, n := range []string{"b", "b-", "b-1", "B", "ba", "b0", "data", "data2", "zz"} {
		b := Bucket{Name: n, Versioning: i%2 == 0, VersionRemains: 4, Compress: i%3 == 1, Policies: []string{}}
		if !eventually(30*time.Second, func() bool { return w.apis[i%2].CreateBucket(b).Code == 201 }) {
			x.Violate(w.tag+": create bucket", "bucket %s cannot be created through the api server within 30 s", n)
			return false
		}
		w.buckets[n] = b
	}
	names := []string{"a", "aa", "a/b", "a b", "a%2Fb", "ä", "A", "a-1", "a_1", "z?y=1", "q&c", "x+y", "日本", "..a", "a.txt", "a#b", "%", "long" + strings.Repeat("g", 100), "v_10", "data"}
	type it struct {
		b, n string
		k    int
	}
	var its []it
	for _, b := range w.bucketNames() {
		if b == "zz" {
			continue // stays empty
		}
		for _, n := range names {
			if w.rng.Intn(5) < 2 {
				its = append(its, it{b, n, 1 + w.rng.Intn(5)})
			}
		}
		for i := 0; i < w.rng.Intn(12); i++ {
			its = append(its, it{b, fmt.Sprintf("n%d", i), 1})
		}
	}
	var mu sync.Mutex
	parallel(len(its), 12, func(i int) {
		t := its[i]
		for v := 1; v <= t.k; v++ {
			body := blob(1+(i*131+v*37)%3000, int64(i*10+v)+x.Seed*10000)
			if v == 3 && i%4 == 0 {
				body = blob(150_000+i*11, int64(i))
			}
			if _, r := w.apis[(i+v)%2].Put(t.b, t.n, body, ""); r.Code != 200 && r.Code != 201 {
				x.Violate(w.tag+": put", "object %s/%s cannot be stored through the api server: %s", t.b, t.n, r)
				return
			}
			mu.Lock()
			w.objs[t.b+"/"+t.n] = append(w.objs[t.b+"/"+t.n], body)
			mu.Unlock()
		}
	})
	x.Event("objects stored", int64(len(its)))
	return !x.Violated()
}

// soon allows for followers of a raft group that lag behind: what a read says is judged once it stays wrong.
func soon(read func() string) string {
	e := ""
	eventually(4*time.Second, func() bool { e = read(); return e == "" })
	return e
}

// bucketIs compares a bucket with what an api server says of it.
func (w *adminWorld) bucketIs(a API, b Bucket) string {
	return soon(func() string {
		g, r := a.GetBucket(b.Name)
		if r.Code != 200 || g.Versioning != b.Versioning || g.VersionRemains != b.VersionRemains || g.Compress != b.Compress || g.Readonly != b.Readonly {
			return r.String()
		}
		return ""
	})
}

func (w *adminWorld) bucketNames() []string {
	var l []string
	for n := range w.buckets {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (w *adminWorld) objNames(prefix string) []string {
	l := []string{}
	for n := range w.objs {
		if strings.HasPrefix(n, prefix) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

func splitID(id string) (bucket, name string) {
	i := strings.IndexByte(id, '/')
	return id[:i], id[i+1:]
}

// walk reads all pages and beyond. path has the filter, id names an entry.
func (w *adminWorld) walk(kind, path string, size int, want []string, decode func([]byte) ([]string, error)) {
	x := w.x
	var got []string
	last := len(want)/size + 2
	for p := 1; p <= last; p++ {
		q := fmt.Sprintf("%s&page=%d&pageSize=%d", path, p, size)
		r := w.adm.do("GET", q, nil)
		if r.Err != nil || r.Code != 200 {
			x.Violate(w.tag+": "+kind, "%s: %s", q, r)
			return
		}
		ids, err := decode(r.Body)
		if err != nil {
			x.Violate(w.tag+": "+kind, "%s: %v: %s", q, err, r)
			return
		}
		x.Event("pages read", 1)
		if t := r.Header.Get("X-Total-Count"); t != fmt.Sprint(len(want)) {
			x.Violate(w.tag+": "+kind, "%s: the total is %q, there are %d", q, t, len(want))
			return
		}
		exp := len(want) - (p-1)*size
		if exp > size {
			exp = size
		}
		if exp < 0 {
			exp = 0
		}
		if len(ids) != exp {
			x.Violate(w.tag+": "+kind, "%s: %d entries, %d expected (%d altogether)", q, len(ids), exp, len(want))
			return
		}
		got = append(got, ids...)
		pos := "inside"
		switch {
		case exp == 0:
			pos = "beyond"
		case exp < size:
			pos = "partial"
		}
		x.Case(fmt.Sprintf("%s %s size %d %s", w.tag, strings.SplitN(path, "&bucket", 2)[0]+kind, size, pos))
	}
	for i := range want {
		if got[i] != want[i] {
			x.Violate(w.tag+": "+kind, "%s with pages of %d: entry %d is %q, %q expected", path, size, i, got[i], want[i])
			return
		}
	}
}

func (w *adminWorld) objIDs(b []byte) ([]string, error) {
	var l []Metadata
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	ids := []string{}
	for _, m := range l {
		if m.CreateTime <= 0 || m.UpdateTime < m.CreateTime {
			return nil, fmt.Errorf("times of %s/%s: created %d, updated %d", m.Bucket, m.Name, m.CreateTime, m.UpdateTime)
		}
		ids = append(ids, m.Bucket+"/"+m.Name)
	}
	return ids, nil
}

func (w *adminWorld) pages() {
	sizes := []int{1, 2, 3, 7, 10, 50, 1000, 4999}
	for _, s := range []int{3, 10, 50, 1000} {
		w.walk("objects", "/metadata/page?", s, w.objNames(""), w.objIDs)
	}
	for i, b := range append(w.bucketNames(), "missing", "%") {
		for j, s := range sizes {
			if j != i%8 && j != (i+3)%8 && !(j == 0 && i%3 == 0) {
				continue
			}
			w.walk("objects of a bucket", "/metadata/page?bucket="+url.QueryEscape(b), s, w.objNames(b+"/"), w.objIDs)
		}
		for j, n := range []string{"a", "aa", "a/", "a%", "n", "n1", "ä", "none", "A", "long", "z?", "x+", "q&"} {
			if (j+i)%3 == 0 {
				w.walk("named objects of a bucket", "/metadata/page?name="+url.QueryEscape(n)+"&bucket="+url.QueryEscape(b), sizes[w.rng.Intn(len(sizes))], w.objNames(b+"/"+n), w.objIDs)
			}
		}
		if w.x.Violated() {
			return
		}
	}
	// what is told of an object is what the api server tells
	r := w.adm.do("GET", "/metadata/page?page=1&pageSize=1000", nil)
	var l []Metadata
	json.Unmarshal(r.Body, &l)
	for i, m := range l {
		if i%4 != 0 {
			continue
		}
		if e := soon(func() string {
			am, ar := w.apis[0].Meta(m.Bucket, m.Name, 0)
			if ar.Code != 200 || am.CreateTime != m.CreateTime || am.UpdateTime != m.UpdateTime {
				return ar.String()
			}
			return ""
		}); e != "" {
			w.x.Violate(w.tag+": metadata", "%s/%s: admin server tells created %d updated %d, api server %s", m.Bucket, m.Name, m.CreateTime, m.UpdateTime, e)
		}
	}
}

func (w *adminWorld) bucketIDs(b []byte) ([]string, error) {
	var l []Bucket
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	ids := []string{}
	for _, m := range l {
		v := w.buckets[m.Name]
		if m.Versioning != v.Versioning || m.VersionRemains != v.VersionRemains || m.Compress != v.Compress || m.Readonly != v.Readonly {
			return nil, fmt.Errorf("bucket %+v, it is %+v", m, v)
		}
		ids = append(ids, m.Name)
	}
	return ids, nil
}

func (w *adminWorld) bucketPages() {
	for _, pre := range []string{"", "b", "b-", "data", "B", "zz", "none", "b?"} {
		want := []string{}
		for _, n := range w.bucketNames() {
			if strings.HasPrefix(n, pre) {
				want = append(want, n)
			}
		}
		for _, s := range []int{1, 2, 3, 4, 10, 1000} {
			w.walk("buckets", "/metadata/buckets?name="+url.QueryEscape(pre), s, want, w.bucketIDs)
		}
	}
}

func (w *adminWorld) oddPages() {
	for _, p := range []string{"/metadata/page?", "/metadata/buckets?name=b", "/metadata/versions?name=a&bucket=b"} {
		for _, q := range []string{"page=0&pageSize=5", "page=-1&pageSize=5", "page=1&pageSize=-5", "page=1&pageSize=0", "page=-2&pageSize=-5", "page=x&pageSize=5", "page=1", "pageSize=1", "page=9223372036854775807&pageSize=10", "page=4611686018427387904&pageSize=4", "page=1&pageSize=9223372036854775807", "page=99999999999999999999&pageSize=1"} {
			r := w.adm.do("GET", p+"&"+q, nil)
			w.x.Event("odd pages", 1)
			// refused, or answered with nothing of what is not there; a panic is found in the log
			if r.Err != nil || r.Code < 400 && !strings.Contains(p, "versions") && (r.Code != 200 || len(bytes.TrimSpace(r.Body)) > 2) {
				w.x.Violate(w.tag+": odd pages", "%s&%s: %s", p, q, r)
			}
			w.x.Case(w.tag + " odd page " + q)
		}
	}
}

func (w *adminWorld) versions() {
	for _, id := range w.objNames("") {
		b, n := splitID(id)
		for _, s := range []int{1, 2, 3, 10}[w.rng.Intn(4):] {
			for p := 1; p < 4; p++ {
				n1 := 0
				if e := soon(func() string {
					vs, total, ar := w.apis[p%2].Versions(b, n, p, s)
					r := w.adm.do("GET", fmt.Sprintf("/metadata/versions?name=%s&bucket=%s&page=%d&pageSize=%d", url.QueryEscape(n), url.QueryEscape(b), p, s), nil)
					var l []Version
					err := json.Unmarshal(r.Body, &l)
					w.x.Event("version pages", 1)
					if r.Code != ar.Code || (r.Code == 200 && (err != nil || fmt.Sprintf("%+v", l) != fmt.Sprintf("%+v", vs) || r.Header.Get("X-Total-Count") != fmt.Sprint(total))) {
						return fmt.Sprintf("admin server %s (total %s), api server %s (total %d)", r, r.Header.Get("X-Total-Count"), ar, total)
					}
					n1 = len(l)
					return ""
				}); e != "" {
					w.x.Violate(w.tag+": versions", "%s page %d of %d: %s", id, p, s, e)
					return
				}
				w.x.Case(fmt.Sprintf("%s versions page %d of %d -> %d", w.tag, p, s, n1))
			}
			if !w.x.Thorough() {
				break
			}
		}
	}
	r := w.adm.do("GET", "/metadata/versions?name=nothing&bucket=b&page=1&pageSize=5", nil)
	if r.Code == 200 && len(r.Body) > 4 {
		w.x.Violate(w.tag+": versions", "of an object that does not exist: %s", r)
	}
}

// files compares downloads and uploads with the api servers.
func (w *adminWorld) files() {
	ids := w.objNames("")
	parallel(len(ids), 4, func(i int) {
		b, n := splitID(ids[i])
		var m Metadata
		if e := soon(func() string {
			var r Resp
			if m, r = w.apis[0].Meta(b, n, 0); r.Code != 200 || len(m.Versions) == 0 || m.LastVersion != len(w.objs[ids[i]]) {
				return r.String()
			}
			return ""
		}); e != "" {
			w.x.Violate(w.tag+": download", "%s has no metadata of what was stored last: %s", ids[i], e)
			return
		}
		lastV, body := int(m.Versions[0].Sequence), w.objs[ids[i]]
		for _, v := range []int{0, lastV, lastV - 1} {
			if v < 0 || (v == 0 && lastV == 0) {
				continue
			}
			want := body[len(body)-1]
			if v == lastV-1 && v > 0 {
				if len(body) < 2 || !w.buckets[b].Versioning {
					continue
				}
				want = body[len(body)-2]
			} else if v == 0 && lastV == 1 && i%3 > 0 {
				continue
			}
			if e := soon(func() string { return sameBody(w.adm.do("GET", downloadPath(b, n, v), nil), want) }); e != "" {
				w.x.Violate(w.tag+": download", "%s version %d: %s", ids[i], v, e)
				return
			}
			w.x.Event("downloads", 1)
			w.x.Case(fmt.Sprintf("%s download %s version %d", w.tag, n, v))
		}
		if d := w.adm.do("GET", downloadPath(b, n, lastV+5), nil); d.Code/100 != 4 {
			w.x.Violate(w.tag+": download", "%s version %d, which does not exist: %s", ids[i], lastV+5, d)
		}
	})
	for _, q := range [][2]string{{"missing", "a"}, {"b", "missing"}, {"zz", "a"}} {
		if d := w.adm.do("GET", downloadPath(q[0], q[1], 0), nil); d.Code/100 != 4 {
			w.x.Violate(w.tag+": download", "%s/%s, which does not exist: %s", q[0], q[1], d)
		}
	}
	ups := []string{"up", "up load", "up%2Fx", "üp", "up+1", "up&x=1", "up?y", "up#z", "up'q", "a", "up.tar.gz", "日本up"}
	for i, n := range ups {
		b := []string{"b", "ba", "data"}[i%3]
		id := b + "/" + n
		for v := 0; v < 1+i%2; v++ {
			size := []int{1, 17, 4096, 65537, 1_000_003, 300_000}[(i+v+w.rng.Intn(2))%6]
			body := blob(size, int64(i)*77+int64(v)+w.x.Seed)
			r := w.adm.upload(b, n, body)
			if r.Err != nil || r.Code/100 != 2 {
				w.x.Violate(w.tag+": upload", "%s (%d bytes): %s", id, size, r)
				return
			}
			w.objs[id] = append(w.objs[id], body)
			if e := soon(func() string { return sameBody(w.apis[i%2].Get(b, n, 0, -1), body) }); e != "" {
				w.x.Violate(w.tag+": upload", "%s (%d bytes) uploaded through the admin server, read through the api server: %s", id, size, e)
				return
			}
			if e := soon(func() string { return sameBody(w.adm.do("GET", downloadPath(b, n, 0), nil), body) }); e != "" {
				w.x.Violate(w.tag+": upload", "%s (%d bytes) uploaded and read through the admin server: %s", id, size, e)
				return
			}
			w.x.Event("uploads", 1)
			w.x.Case(fmt.Sprintf("%s upload %s %d bytes", w.tag, n, size))
		}
	}
	if r := w.adm.upload("missing", "up", []byte("x")); r.Code/100 == 2 {
		w.x.Violate(w.tag+": upload", "to a bucket that does not exist: %s", r)
	}
	if r := w.adm.upload("", "up", []byte("x")); r.Code/100 == 2 {
		w.x.Violate(w.tag+": upload", "to no bucket: %s", r)
	}
}

func (w *adminWorld) bucketChanges() {
	for i, n := range []string{"adm", "adm-1", "adm.2", "Adm3"} {
		b := Bucket{Name: n, Versioning: i%2 == 0, VersionRemains: 2 + i, Policies: []string{}}
		r := w.adm.json("POST", "/metadata/create_bucket", b)
		if r.Code/100 != 2 {
			// what the api server does not accept either
			if a := w.apis[0].CreateBucket(b); a.Code/100 != 2 {
				continue
			}
			w.x.Violate(w.tag+": create bucket", "%+v: %s", b, r)
			return
		}
		if e := w.bucketIs(w.apis[i%2], b); e != "" {
			w.x.Violate(w.tag+": create bucket", "%+v: the api server has %s", b, e)
			return
		}
		w.buckets[n] = b
		if r := w.adm.json("POST", "/metadata/create_bucket", b); r.Code/100 == 2 {
			w.x.Violate(w.tag+": create bucket", "an existing one: %s", r)
		}
		b.VersionRemains += 3
		b.Compress = true
		if r = w.adm.json("PUT", "/metadata/update_bucket", b); r.Code/100 != 2 {
			w.x.Violate(w.tag+": update bucket", "%+v: %s", b, r)
			return
		}
		if e := w.bucketIs(w.apis[i%2], b); e != "" {
			w.x.Violate(w.tag+": update bucket", "%+v: the api server has %s", b, e)
			return
		}
		w.buckets[n] = b
		w.x.Case(w.tag + " bucket changes " + n)
		w.x.Event("bucket changes", 2)
		if i%2 == 0 {
			continue
		}
		if r = w.adm.do("DELETE", "/metadata/delete_bucket/"+url.PathEscape(n), nil); r.Code/100 != 2 {
			w.x.Violate(w.tag+": delete bucket", "%s: %s", n, r)
			return
		}
		if e := soon(func() string {
			if _, r := w.apis[i%2].GetBucket(n); r.Code != 404 {
				return r.String()
			}
			return ""
		}); e != "" {
			w.x.Violate(w.tag+": delete bucket", "%s: the api server still answers %s", n, e)
			return
		}
		delete(w.buckets, n)
	}
	if r := w.adm.json("PUT", "/metadata/update_bucket", Bucket{Name: "missing", VersionRemains: 1}); r.Code/100 == 2 {
		w.x.Violate(w.tag+": update bucket", "one that does not exist: %s", r)
	}
	w.bucketPages()
	for _, s := range []int{7, 50, 1000} {
		w.walk("objects", "/metadata/page?", s, w.objNames(""), w.objIDs)
	}
}

// secured calls every route with the credentials; ok judges each answer.
func (w *adminWorld) secured(a console, what string, refused func(route string, r Resp)) {
	get := []string{"/metadata/page?page=1&pageSize=10", "/metadata/versions?name=a&bucket=b&page=1&pageSize=5", "/metadata/slots_detail", "/metadata/peers?serverId=gr-m1",
		"/metadata/buckets?page=1&pageSize=3", "/metadata/config/m1", "/objects/config/o1", "/server/config?serverId=o1", "/server/config?serverId=a1", "/server/stat", "/server/overview", "/server/etcdstat", "/server/cpu/timeline?server=0", "/server/mem/timeline?server=2"}
	for _, id := range w.objNames("")[:3] {
		b, n := splitID(id)
		get = append(get, downloadPath(b, n, 0))
	}
	for _, p := range get {
		refused("GET "+p, a.do("GET", p, nil))
	}
	refused("create", a.json("POST", "/metadata/create_bucket", Bucket{Name: "intruder", VersionRemains: 1}))
	b := w.buckets["b"]
	b.VersionRemains = 77
	refused("update", a.json("PUT", "/metadata/update_bucket", b))
	refused("delete", a.do("DELETE", "/metadata/delete_bucket/zz", nil))
	refused("upload", a.upload("b", "intruder", []byte("x")))
	refused("overwrite", a.upload("b", "up", []byte("x")))
	if what == "none" {
		refused("migration", a.json("POST", "/metadata/migration", M{"srcServerId": "m1", "destServerId": "m2", "slots": []string{"0-100"}}))
		refused("leave", a.json("POST", "/metadata/leave_cluster", M{"serverId": w.follower()}))
		refused("join", a.json("POST", "/metadata/join_leader", M{"serverId": "m1", "masterId": "m2"}))
		refused("object leave", a.do("POST", "/objects/leave/o1", nil))
		refused("object join", a.do("POST", "/objects/join/o1", nil))
	}
	// nothing has changed
	if _, r := w.apis[0].GetBucket("intruder"); r.Code != 404 {
		w.x.Violate(w.tag+": effect", "%s: a bucket was created", what)
	}
	for _, n := range []string{"b", "zz"} {
		if e := w.bucketIs(w.apis[0], w.buckets[n]); e != "" {
			w.x.Violate(w.tag+": effect", "%s: a bucket was changed or deleted: %s", what, e)
		}
	}
	if r := w.apis[0].Get("b", "intruder", 0, -1); r.Code != 404 {
		w.x.Violate(w.tag+": effect", "%s: an object was stored", what)
	}
	if o := w.objs["b/up"]; len(o) > 0 {
		if e := soon(func() string { return sameBody(w.apis[1].Get("b", "up", 0, -1), o[len(o)-1]) }); e != "" {
			w.x.Violate(w.tag+": effect", "%s: an object was changed: %s", what, e)
		}
	}
}

func (w *adminWorld) follower() string {
	_, masters := registeredServers(w.c, "metaserver")
	for _, n := range w.group {
		if !strings.Contains(" "+strings.Join(masters, " ")+" ", " "+n.ID+" ") {
			return n.ID
		}
	}
	return w.group[0].ID
}

// tells reports whether the answer has something of the system.
func (w *adminWorld) leaks(r Resp) bool {
	for _, s := range []string{`"createTime"`, "server-id", w.srv[0].Addr(), `"serverId"`, `"percent"`, `"totalBuckets"`, `"locate"`} {
		if bytes.Contains(r.Body, []byte(s)) {
			return true
		}
	}
	return false
}

func (w *adminWorld) tokens() {
	views := []console{{n: w.admNode}, {n: w.admNode, cookie: "dfs-admin=x"}, {n: w.admNode, cookie: "dfs-admin=MTY5MDAwMDAwMHxEdi1CQkFFQ180SUFBUkFCRUFBQUpQLUNBQUVHYzNSeWFXNW5EQXNBQ1VGMWRHaFViMnRsYmdaemRISnBibWNNQWdBQXx4eHh4"}}
	for i, v := range views {
		w.secured(v, "none", func(route string, r Resp) {
			w.x.Event("requests without a token", 1)
			if r.Err != nil || (r.Code != 401 && r.Code != 403) || w.leaks(r) {
				w.x.Violate(w.tag+": no token", "%s without a token (cookie %q): %s", route, v.cookie, r)
			}
			w.x.Case(fmt.Sprintf("%s no token %d %s", w.tag, i, strings.SplitN(route, "?", 2)[0]))
		})
	}
	before := w.c.Etcd.List(w.c.Group + "/hash_slot/")
	for _, n := range w.srv {
		if !n.Running() {
			w.x.Violate(w.tag+": effect", "%s is not running any more", n.ID)
		}
	}
	if l, _ := registeredServers(w.c, "objectserver"); len(l) != 3 {
		w.x.Violate(w.tag+": effect", "the registered object servers are %v", l)
	}
	if len(before) != 3 {
		w.x.Violate(w.tag+": effect", "slot records %v", before)
	}
	if !w.auth {
		return
	}
	// the api servers refuse a wrong token: what goes through them has no effect and tells nothing
	for _, tk := range []string{basic("root", "wrong"), basic("root", ""), basic("", ""), basic("admin", "s3cret:x"), "Basic x", "none", "Bearer abc", basic("root", "s3cret")} {
		v := console{n: w.admNode, token: tk}
		w.secured(v, "wrong token", func(route string, r Resp) {
			if strings.Contains(route, "/server/") || strings.Contains(route, "/metadata/") && !strings.Contains(route, "versions") || strings.Contains(route, "/objects/config") {
				return // answered by the admin server itself
			}
			w.x.Event("requests with a wrong token", 1)
			if r.Err != nil || r.Code/100 != 4 {
				w.x.Violate(w.tag+": wrong token", "%s with %q: %s", route, tk, r)
			}
			w.x.Case(fmt.Sprintf("%s wrong token %s %s", w.tag, tk, strings.SplitN(route, "?", 2)[0]))
		})
		if r := v.do("POST", "/login", nil); r.Code/100 == 2 {
			w.x.Violate(w.tag+": login", "with %q: %s", tk, r)
		}
	}
}

func (w *adminWorld) sessions() {
	page := "/metadata/page?page=1&pageSize=1"
	r := w.adm.do("POST", "/login", nil)
	if r.Code/100 != 2 {
		w.x.Violate(w.tag+": login", "%s", r)
		return
	}
	ck := session(r, "")
	if ck == "" {
		w.x.Violate(w.tag+": login", "no session: %s", r)
		return
	}
	with := console{n: w.admNode, cookie: ck}
	for i := 0; i < 3; i++ {
		for _, p := range []string{page, "/server/stat", downloadPath("b", "up", 0)} {
			q := with.do("GET", p, nil)
			with.cookie = session(q, with.cookie)
			if q.Code != 200 {
				w.x.Violate(w.tag+": session", "request %d %s with the session of a login: %s", i, p, q)
				return
			}
		}
	}
	// a new token takes the place of the old one
	if w.auth {
		bad := with
		bad.token = basic("root", "wrong")
		if q := bad.do("POST", "/login", nil); q.Code/100 == 2 {
			w.x.Violate(w.tag+": login", "with a wrong token in a session: %s", q)
		}
	}
	q := with.do("POST", "/logout", nil)
	out := session(q, with.cookie)
	if q.Code/100 != 2 {
		w.x.Violate(w.tag+": logout", "%s", q)
		return
	}
	with.cookie = out
	for i := 0; i < 2; i++ {
		q = with.do("GET", page, nil)
		with.cookie = session(q, with.cookie)
		if q.Code != 401 && q.Code != 403 {
			w.x.Violate(w.tag+": logout", "request %d after the logout: %s", i, q)
		}
	}
	// with the header, as the console does it
	q = w.adm.do("POST", "/logout", nil)
	v := console{n: w.admNode, cookie: session(q, "")}
	if q = v.do("GET", page, nil); q.Code != 401 && q.Code != 403 {
		w.x.Violate(w.tag+": logout", "session after a logout with a token: %s", q)
	}
	w.x.Case(w.tag + " sessions")
	w.x.Event("sessions", 2)
}

func (w *adminWorld) configs() {
	for _, n := range w.srv {
		var ps []string
		switch n.Kind {
		case "metaserver":
			ps = []string{"/metadata/config/" + n.ID, "/server/config?serverId=" + n.ID}
		case "objectserver":
			ps = []string{"/objects/config/" + n.ID, "/server/config?serverId=" + n.ID}
		default:
			ps = []string{"/server/config?serverId=" + n.ID}
		}
		for _, p := range ps {
			r := w.adm.do("GET", p, nil)
			if r.Code != 200 || !regexp.MustCompile(`server-id: "?`+regexp.QuoteMeta(n.ID)+`"?\n`).Match(r.Body) {
				w.x.Violate(w.tag+": config", "%s: %s", p, r)
				return
			}
			if !regexp.MustCompile(fmt.Sprintf(`(?m)^port: "?%d"?$`, n.Port)).Match(r.Body) {
				w.x.Violate(w.tag+": config", "%s has not the port %d: %s", p, n.Port, r)
				return
			}
			if w.auth && (n.Kind == "apiserver") && bytes.Contains(r.Body, []byte("s3cret")) {
				w.x.Logf("the configuration of an api server has its password")
			}
			w.x.Case(w.tag + " config " + p)
			w.x.Event("configurations", 1)
		}
	}
	for _, p := range []string{"/metadata/config/none", "/objects/config/m1", "/metadata/config/o1", "/server/config?serverId=none", "/server/config", "/metadata/peers?serverId=none", "/metadata/peers?serverId=o1", "/metadata/peers"} {
		if r := w.adm.do("GET", p, nil); r.Code/100 != 4 {
			w.x.Violate(w.tag+": config", "%s: %s", p, r)
		}
	}
	w.slotsShown()
	for _, n := range w.group {
		r := w.adm.do("GET", "/metadata/peers?serverId="+n.ID, nil)
		var l []struct{ ServerId, HttpAddr string }
		json.Unmarshal(r.Body, &l)
		var got, want []string
		for _, s := range l {
			got = append(got, s.ServerId+" "+s.HttpAddr)
		}
		for _, s := range w.group {
			want = append(want, s.ID+" "+s.Addr())
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.x.Violate(w.tag+": peers", "of %s are %v: %s", n.ID, want, r)
		}
		w.x.Case(w.tag + " peers " + n.ID)
	}
}

func (w *adminWorld) slotsShown() {
	r := w.adm.do("GET", "/metadata/slots_detail", nil)
	got := map[string]struct {
		Id, ServerId string
		Slots        []string
	}{}
	if err := json.Unmarshal(r.Body, &got); err != nil {
		w.x.Violate(w.tag+": slots", "%v: %s", err, r)
		return
	}
	recs := w.c.Etcd.List(w.c.Group + "/hash_slot/")
	if len(got) != len(recs) {
		w.x.Violate(w.tag+": slots", "there are %d records: %s", len(recs), r)
	}
	for k, v := range recs {
		u, _, err := unpack([]byte(v))
		m, ok := u.(map[string]any)
		if err != nil || !ok {
			w.x.Inconclusive("the slot record %s cannot be decoded: %v", k, err)
			return
		}
		id := fmt.Sprint(m["id"])
		if g := got[id]; g.Id != id || g.ServerId != fmt.Sprint(m["server_id"]) || fmt.Sprint(g.Slots) != fmt.Sprint(m["slots"]) {
			w.x.Violate(w.tag+": slots", "%s is %v in etcd, %v is shown", id, m, g)
		}
		w.x.Case(w.tag + " slots " + id)
	}
}

func (w *adminWorld) overview() {
	r := w.adm.do("GET", "/server/overview", nil)
	var o struct {
		AliveCounts                map[string]int
		TotalBuckets, TotalObjects int
	}
	if err := json.Unmarshal(r.Body, &o); err != nil || r.Code != 200 {
		w.x.Violate(w.tag+": overview", "%v: %s", err, r)
		return
	}
	if o.TotalBuckets != len(w.buckets) || o.TotalObjects != len(w.objs) {
		w.x.Violate(w.tag+": overview", "there are %d buckets and %d objects: %+v", len(w.buckets), len(w.objs), o)
	}
	for _, k := range []string{"metaserver", "objectserver", "apiserver"} {
		live := 0
		for _, n := range w.srv {
			if n.Kind == k && n.Running() {
				live++
			}
		}
		if o.AliveCounts[k] != live {
			w.x.Violate(w.tag+": overview", "there are %d live servers %s: %+v", live, k, o)
		}
	}
	w.x.Case(w.tag + " overview")
}

type statView struct {
	ServerId, HttpAddr string
	IsMaster           bool
	SysInfo            struct {
		CpuStatus struct{ UsedPercent float64 }
		MemStatus struct{ All, Used uint64 }
	}
}

func (w *adminWorld) stat() (map[string]map[string]statView, Resp) {
	r := w.adm.do("GET", "/server/stat", nil)
	var s struct{ MetaServer, DataServer, ApiServer map[string]statView }
	if r.Err == nil && r.Code == 200 {
		r.Err = json.Unmarshal(r.Body, &s)
	}
	return map[string]map[string]statView{"metaserver": s.MetaServer, "objectserver": s.DataServer, "apiserver": s.ApiServer}, r
}

// shown tells what is wrong with the servers shown ("" if nothing).
func (w *adminWorld) shown() string {
	s, r := w.stat()
	if r.Err != nil || r.Code != 200 {
		return r.String()
	}
	_, masters := registeredServers(w.c, "metaserver")
	for _, n := range w.srv {
		v, ok := s[n.Kind][n.ID]
		if ok != n.Running() {
			return fmt.Sprintf("%s runs: %v, shown: %v", n.ID, n.Running(), ok)
		}
		if !ok {
			continue
		}
		if v.ServerId != n.ID || v.HttpAddr != n.Addr() {
			return fmt.Sprintf("%s at %s is shown as %s at %s", n.ID, n.Addr(), v.ServerId, v.HttpAddr)
		}
		if n.Kind == "metaserver" {
			is := false
			for _, m := range masters {
				is = is || m == n.ID
			}
			if v.IsMaster != is {
				return fmt.Sprintf("%s is master: %v, shown: %v (masters %v)", n.ID, is, v.IsMaster, masters)
			}
		} else if v.IsMaster {
			return n.ID + " is shown as a master"
		}
	}
	for k, l := range s {
		for id := range l {
			if n := w.c.ByID(id); n == nil || n.Kind != k {
				return id + " is shown as " + k
			}
		}
	}
	return ""
}

func (w *adminWorld) wantShown(when string) bool {
	e := ""
	if !eventually(20*time.Second, func() bool { e = w.shown(); return e == "" }) {
		w.x.Violate(w.tag+": servers", "%s: %s (20 s later)", when, e)
		return false
	}
	w.x.Event("memberships shown", 1)
	w.x.Case(w.tag + " members " + when)
	return true
}

// place puts a processor usage into the server's entry.
func (w *adminWorld) place(n *cluster.Node, v float64) bool {
	key := w.c.Group + "/sys_info/" + n.Kind + "/" + n.ID
	s, ok := w.c.Etcd.Get(key)
	i := strings.Index(s, "used_percent")
	if !ok || i < 0 || s[i+12] != 0xcb {
		return false
	}
	var b [8]byte
	u := math.Float64bits(v)
	for j := range b {
		b[j] = byte(u >> (56 - 8*j))
	}
	w.c.Etcd.Put(key, s[:i+13]+string(b[:])+s[i+21:])
	return true
}

func (w *adminWorld) timeline(kind string, no int) (map[string][]struct {
	Time    time.Time
	Percent float64
}, Resp) {
	r := w.adm.do("GET", fmt.Sprintf("/server/%s/timeline?server=%d", kind, no), nil)
	l := map[string][]struct {
		Time    time.Time
		Percent float64
	}{}
	if r.Err == nil && r.Code == 200 {
		r.Err = json.Unmarshal(r.Body, &l)
	}
	return l, r
}

func (w *adminWorld) statistics() {
	no := map[string]int{"apiserver": 0, "metaserver": 1, "objectserver": 2}
	for round := 0; round < 3; round++ {
		for i, n := range w.srv {
			v := float64(round*100+i) + 0.25
			if !w.place(n, v) {
				w.x.Violate(w.tag+": statistics", "%s has no statistics in etcd, or of another form", n.ID)
				return
			}
		}
		s, r := w.stat()
		if r.Err != nil || r.Code != 200 {
			w.x.Violate(w.tag+": statistics", "%s", r)
			return
		}
		moved := 0
		for i, n := range w.srv {
			g := s[n.Kind][n.ID].SysInfo.CpuStatus.UsedPercent
			if g != float64(round*100+i)+0.25 {
				// the server may have saved its own in between
				cur, _ := w.c.Etcd.Get(w.c.Group + "/sys_info/" + n.Kind + "/" + n.ID)
				j := strings.Index(cur, "used_percent")
				var u uint64
				for k := 0; k < 8; k++ {
					u = u<<8 | uint64(cur[j+13+k])
				}
				if math.Float64frombits(u) == float64(round*100+i)+0.25 {
					w.x.Violate(w.tag+": statistics", "%s uses %v, %v is shown", n.ID, float64(round*100+i)+0.25, g)
					return
				}
				moved++
			}
			w.x.Case(fmt.Sprintf("%s statistics %s", w.tag, n.ID))
		}
		w.x.Event("statistics shown", int64(len(w.srv)-moved))
	}
	// timelines have the values in order, not more than an hour of them
	n := w.srv[w.rng.Intn(len(w.srv))]
	// also when what watches them has been interrupted
	w.c.Etcd.CancelWatches()
	seen := 2000.0
	if !eventually(20*time.Second, func() bool {
		seen++
		w.place(n, seen)
		time.Sleep(100 * time.Millisecond)
		l, _ := w.timeline("cpu", no[n.Kind])
		tl := l[n.ID]
		return len(tl) > 0 && tl[len(tl)-1].Percent > 2000
	}) {
		w.x.Violate(w.tag+": timeline", "20 s after watches were interrupted, values of %s are not seen any more", n.ID)
		return
	}
	start := time.Now()
	count := 65 + w.rng.Intn(20)
	for i := 0; i < count; i++ {
		w.place(n, 1000+float64(i))
	}
	e := ""
	if !eventually(10*time.Second, func() bool {
		e = ""
		l, r := w.timeline("cpu", no[n.Kind])
		if r.Err != nil || r.Code != 200 {
			e = r.String()
			return false
		}
		tl := l[n.ID]
		if len(tl) != 59 {
			e = fmt.Sprintf("%s has %d values of %d, not the last 59", n.ID, len(tl), count)
			return false
		}
		want, own := 1000+float64(count)-1, 0
		for i := len(tl) - 1; i >= 0; i-- {
			if tl[i].Percent < 1000 {
				if own++; own > 3 { // saved by the server itself
					e = fmt.Sprintf("%s: %d values are %v", n.ID, own, tl[i].Percent)
					return false
				}
				continue
			}
			if tl[i].Percent != want {
				e = fmt.Sprintf("%s: value %d is %v, not %v", n.ID, i, tl[i].Percent, want)
				return false
			}
			if i > 0 && tl[i].Time.Before(tl[i-1].Time) || tl[i].Time.Before(start.Add(-time.Second)) && own == 0 || tl[i].Time.After(time.Now().Add(time.Second)) {
				e = fmt.Sprintf("%s: value %d is of %v", n.ID, i, tl[i].Time)
				return false
			}
			want--
		}
		for id, o := range l {
			if m := w.c.ByID(id); m == nil || m.Kind != n.Kind {
				e = fmt.Sprintf("%s is in the timeline of %s", id, n.Kind)
			}
			for _, v := range o {
				if id != n.ID && v.Percent >= 1000 {
					e = fmt.Sprintf("%s has values of %s", id, n.ID)
				}
			}
		}
		m, r := w.timeline("mem", no[n.Kind])
		ml := m[n.ID]
		if r.Code != 200 || len(ml) != 59 {
			e = "memory: " + r.String()
			return false
		}
		for i := range ml {
			if i > 0 && ml[i].Time.Before(ml[i-1].Time) {
				e = fmt.Sprintf("memory of %s: value %d is of %v, the one before of %v", n.ID, i, ml[i].Time, ml[i-1].Time)
				return false
			}
		}
		s, _ := w.stat()
		if mem := s[n.Kind][n.ID].SysInfo.MemStatus; mem.All > 0 {
			if d := ml[58].Percent - float64(mem.Used)/float64(mem.All); d < -0.011 || d > 0.011 {
				e = fmt.Sprintf("memory of %s: %v is shown for %d of %d", n.ID, ml[58].Percent, mem.Used, mem.All)
			}
			w.x.Event("memory shares compared", 1)
		}
		return e == ""
	}) {
		w.x.Violate(w.tag+": timeline", "%s", e)
		return
	}
	w.x.Event("timeline values", int64(count))
	w.x.Case(w.tag + " timeline " + n.Kind)
}

func (w *adminWorld) members() {
	if !w.wantShown("at first") {
		return
	}
	pick := func(kind string) *cluster.Node {
		l := w.c.ByKind(kind)
		return l[w.rng.Intn(len(l))]
	}
	rounds := w.x.Pick(2, 4)
	for i := 0; i < rounds; i++ {
		var down []*cluster.Node
		for j, k := range []string{"metaserver", "objectserver", "apiserver"} {
			n := pick(k)
			if (i+j)%2 == 0 {
				n.Kill9()
			} else {
				n.Stop(10 * time.Second)
			}
			down = append(down, n)
		}
		if !w.wantShown("stopped " + ids(down)) {
			return
		}
		if i%2 == 1 {
			w.c.Etcd.CancelWatches()
		}
		for _, n := range down {
			if err := restart(n); err != nil {
				w.x.Violate(w.tag+": restart", "%s: %v", n.ID, err)
				return
			}
		}
		if !w.wantShown("restarted " + ids(down)) {
			return
		}
	}
	// the data set is shown again once the groups have leaders
	e := ""
	if !eventually(20*time.Second, func() bool {
		r := w.adm.do("GET", "/metadata/page?page=1&pageSize=1000", nil)
		l, err := w.objIDs(r.Body)
		e = fmt.Sprint(r, err)
		return r.Code == 200 && fmt.Sprint(l) == fmt.Sprint(w.objNames(""))
	}) {
		w.x.Violate(w.tag+": objects", "after restarts: %s", e)
		return
	}
	w.overview()
	w.slotsShown()
}

func ids(l []*cluster.Node) string {
	s := ""
	for _, n := range l {
		s += n.Kind[:1]
		if n.Kind == "metaserver" && strings.HasPrefix(n.ID, "gr") {
			s += "g"
		}
	}
	return s
}

// broken: object servers fail while an object is downloaded.
func (w *adminWorld) broken() {
	body := blob(24<<20, w.x.Seed+5)
	var r Resp
	// the api servers get to know a group's new leader some time after the restarts
	if !eventually(20*time.Second, func() bool { r = w.adm.upload("b", "big", body); return r.Code/100 == 2 }) {
		w.x.Violate(w.tag+": upload", "24 MB: %s", r)
		return
	}
	w.objs["b/big"] = append(w.objs["b/big"], body)
	for i := 0; i < w.x.Pick(2, 5); i++ {
		kill := w.c.ByKind("objectserver")[:1+i%2]
		down := append([]*cluster.Node{}, kill...)
		if i%3 == 2 {
			down = []*cluster.Node{w.apis[0].N, w.apis[1].N}
		}
		r := tokenGet(w.admNode.URL()+"/api"+downloadPath("b", "big", 0), w.adm.token, 200_000+i*3_000_000, func() {
			for _, n := range down {
				n.Kill9()
			}
		})
		v := judge(r, body)
		if strings.HasPrefix(v, "wrong") {
			w.x.Violate(w.tag+": broken download", "%d servers fail: %s", len(down), v)
		}
		w.x.Case(fmt.Sprintf("%s broken download %s -> %s", w.tag, ids(down), v))
		w.x.Event("interrupted downloads", 1)
		for _, n := range down {
			if err := restart(n); err != nil {
				w.x.Violate(w.tag+": restart", "%s: %v", n.ID, err)
				return
			}
		}
		if !w.wantShown("after downloads") {
			return
		}
	}
	e := ""
	if !eventually(20*time.Second, func() bool { e = sameBody(w.adm.do("GET", downloadPath("b", "big", 0), nil), body); return e == "" }) {
		w.x.Violate(w.tag+": download", "after restarts: %s", e)
	}
}

func tokenGet(u, token string, n int, hook func()) Resp {
	req, _ := http.NewRequest("GET", u, nil)
	req.Header.Set("Authorization", token)
	cl := &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, ReadBufferSize: 4096}}
	resp, err := cl.Do(req)
	if err != nil {
		hook()
		return Resp{Err: err}
	}
	defer resp.Body.Close()
	var b bytes.Buffer
	io.CopyN(&b, resp.Body, int64(n))
	hook()
	_, err = io.Copy(&b, resp.Body)
	return Resp{Code: resp.StatusCode, Header: resp.Header, Body: b.Bytes(), Err: err}
}

// noAPI: there are no api servers, then no metadata servers.
func (w *adminWorld) noAPI() {
	for _, a := range w.apis {
		a.N.Stop(10 * time.Second)
	}
	if !w.wantShown("no api server") {
		return
	}
	for _, q := range []func() Resp{
		func() Resp { return w.adm.do("POST", "/login", nil) },
		func() Resp { return w.adm.upload("b", "x", []byte("x")) },
		func() Resp { return w.adm.do("GET", downloadPath("b", "up", 0), nil) },
		func() Resp { return w.adm.do("GET", "/metadata/versions?name=a&bucket=b&page=1&pageSize=5", nil) },
		func() Resp { return w.adm.json("POST", "/metadata/create_bucket", Bucket{Name: "nb"}) },
		func() Resp { return w.adm.json("PUT", "/metadata/update_bucket", w.buckets["b"]) },
		func() Resp { return w.adm.do("DELETE", "/metadata/delete_bucket/zz", nil) },
	} {
		r := q()
		if r.Err != nil || r.Code < 400 || !bytes.Contains(r.Body, []byte("message")) {
			w.x.Violate(w.tag+": no api server", "%s", r)
		}
		w.x.Event("requests without api servers", 1)
	}
	if r := w.adm.do("GET", "/metadata/page?page=1&pageSize=1000", nil); r.Code != 200 {
		w.x.Violate(w.tag+": no api server", "objects: %s", r)
	}
	w.x.Case(w.tag + " no api server")
	for _, a := range w.apis {
		if err := restart(a.N); err != nil {
			w.x.Violate(w.tag+": restart", "%s: %v", a.N.ID, err)
			return
		}
	}
	w.wantShown("api servers again")
}

// adminStart: etcd fails when the admin server loads the statistics; it has to come up, and to show them later.
func (w *adminWorld) adminStart() {
	for i := 0; i < 2; i++ {
		w.admNode.Stop(10 * time.Second)
		if i == 1 {
			for _, k := range []string{"apiserver", "metaserver", "objectserver"} {
				w.c.Etcd.FailNextGet(w.c.Group+"/sys_info/"+k+"/", 1)
			}
		}
		if err := restart(w.admNode); err != nil {
			w.x.Violate(w.tag+": restart", "the admin server does not start: %v\n%s", err, w.admNode.LogTail(30))
			return
		}
		if !w.wantShown("admin server restarted") {
			return
		}
		e := ""
		if !eventually(20*time.Second, func() bool {
			for no, k := range []string{"apiserver", "metaserver", "objectserver"} {
				for _, n := range w.c.ByKind(k) {
					w.place(n, 2000)
				}
				time.Sleep(50 * time.Millisecond)
				l, r := w.timeline("cpu", no)
				for _, n := range w.c.ByKind(k) {
					if len(l[n.ID]) == 0 {
						e = fmt.Sprintf("%s: %s", n.ID, r)
						return false
					}
				}
			}
			return true
		}) {
			w.x.Violate(w.tag+": timeline", "start %d of the admin server: %s", i, e)
			return
		}
		w.x.Case(fmt.Sprintf("%s admin server start %d", w.tag, i))
	}
	// a watch that etcd cancels
	w.c.Etcd.CancelWatches()
	n := w.srv[len(w.srv)-1]
	v, e := 3000.0, ""
	if !eventually(20*time.Second, func() bool {
		v++
		w.place(n, v)
		time.Sleep(100 * time.Millisecond)
		l, r := w.timeline("cpu", 0)
		e = r.String()
		tl := l[n.ID]
		return len(tl) > 0 && tl[len(tl)-1].Percent > 3000
	}) {
		w.x.Violate(w.tag+": timeline", "no values of %s after its watch was canceled: %s", n.ID, e)
		return
	}
	w.x.Case(w.tag + " watch canceled")
	if r := w.adm.do("GET", "/metadata/page?page=1&pageSize=1000", nil); r.Code != 200 {
		w.x.Violate(w.tag+": objects", "after the admin server's restart: %s", r)
	}
}
