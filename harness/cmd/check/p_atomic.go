package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/cluster"
)

func init() { props["C04"] = c04 }

// census lists every file under the storage directories of all object servers, with its size.
func census(c *cluster.Cluster) map[string]int64 {
	res := map[string]int64{}
	for _, n := range c.ByKind("objectserver") {
		for _, d := range n.StoreDirs() {
			filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode().IsRegular() {
					res[p] = fi.Size()
				}
				return nil
			})
		}
	}
	return res
}

// settle waits until no upload is in progress any more: nothing changes for a while and no temporary files are left.
func settle(c *cluster.Cluster) {
	last, same := "", 0
	eventually(6*time.Second, func() bool {
		s := census(c)
		temps := 0
		for p := range s {
			if strings.HasPrefix(filepath.Base(p), "TempInfo_") {
				temps++
			}
		}
		d := fmt.Sprint(s)
		if d == last {
			same++
		} else {
			last, same = d, 0
		}
		return same >= 6 && temps == 0
	})
}

// diffCensus returns the files that are in b and not in a, or that changed their size, and those that went.
func diffCensus(a, b map[string]int64) []string {
	var r []string
	for p, s := range b {
		if o, ok := a[p]; !ok {
			r = append(r, fmt.Sprintf("new %s (%d bytes)", filepath.Base(p), s))
		} else if o != s {
			r = append(r, fmt.Sprintf("%s: %d -> %d bytes", filepath.Base(p), o, s))
		}
	}
	for p := range a {
		if _, ok := b[p]; !ok {
			r = append(r, "gone "+filepath.Base(p))
		}
	}
	sort.Strings(r)
	return r
}

// capacityOf asks an object server for the capacity it uses.
func capacityOf(n *cluster.Node) int64 {
	r := cluster.Do("GET", n.URL()+"/stat", nil)
	if r.Err != nil || r.Code != 200 {
		return -1
	}
	v, err := strconv.ParseInt(r.Header.Get("Capacity"), 10, 64)
	if err != nil {
		return -1
	}
	return v
}

func capacities(c *cluster.Cluster) map[string]int64 {
	m := map[string]int64{}
	for _, n := range c.ByKind("objectserver") {
		if n.Running() {
			m[n.ID] = capacityOf(n)
		}
	}
	return m
}

// rawUpload sends a PUT whose head announces clen bytes over a plain connection; the body is what feed writes.
// end: "close" closes at once, "half" closes the sending side and waits for the answer, "wait" only waits.
func rawUpload(n *cluster.Node, path string, hdr map[string]string, clen int, feed func(w io.Writer), end string) Resp {
	conn, err := net.DialTimeout("tcp", n.Addr(), 5*time.Second)
	if err != nil {
		return Resp{Err: err}
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(40 * time.Second))
	method := "PUT"
	if m, ok := hdr[":method"]; ok {
		method = m
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n", method, path, n.Addr())
	if clen >= 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", clen)
	}
	for k, v := range hdr {
		if k[0] != ':' {
			fmt.Fprintf(&b, "%s: %s\r\n", k, v)
		}
	}
	b.WriteString("\r\n")
	if _, err := io.WriteString(conn, b.String()); err != nil {
		return Resp{Err: err}
	}
	feed(conn)
	switch end {
	case "close":
		return Resp{Err: io.ErrUnexpectedEOF}
	case "half":
		conn.(*net.TCPConn).CloseWrite()
	}
	return readRaw(conn)
}

func readRaw(conn net.Conn) Resp {
	rb, _ := io.ReadAll(conn)
	i := bytes.Index(rb, []byte("\r\n"))
	if i < 0 {
		return Resp{Err: io.ErrUnexpectedEOF}
	}
	fs := strings.Fields(string(rb[:i]))
	if len(fs) < 2 {
		return Resp{Err: io.ErrUnexpectedEOF}
	}
	code, _ := strconv.Atoi(fs[1])
	body := rb
	if j := bytes.Index(rb, []byte("\r\n\r\n")); j >= 0 {
		body = rb[j+4:]
	}
	return Resp{Code: code, Body: body, Header: http.Header{}}
}

type victim struct {
	bucket, name string
	bodies       [][]byte
}

func c04(x *Ctx) {
	x.Rule("hostile uploads of several kinds (wrong digest, truncated or broken-off bodies, missing headers, refused buckets, servers killed before, during or after) over strategies, " +
		"compression, sizes and names with and without earlier versions. After each batch versions, contents, storage files and used capacities must be as before. " +
		"A case is distinct by kind, options, size, target and outcome.")
	c := x.Cluster("c", false)
	meta := c.AddMeta("meta1", nil)
	for i := 0; i < 6; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 1+i%2, nil)
	}
	conf := func(sum bool, dist string) M {
		return M{"object": M{"checksum": sum, "distinct-size": dist, "distinct-timeout": "300ms", "reed-solomon": M{"data-shards": 2, "parity-shards": 1, "block-per-shard": 8192},
			"replication": M{"copies-count": 2, "copy-async": false}}}
	}
	sum := API{N: c.AddAPI("sum", conf(true, "1GB"))}
	plain := API{N: c.AddAPI("plain", conf(false, "1GB"))}
	dedup := API{N: c.AddAPI("dedup", conf(true, "1"))}
	if !x.Start(c) {
		return
	}
	for _, b := range []Bucket{{Name: "b", Versioning: true, VersionRemains: 50}, {Name: "ro", Readonly: true}, {Name: "zip", Compress: true, Versioning: true, VersionRemains: 50}} {
		if !x.MustBucket(sum, b) {
			return
		}
	}
	rng := rand.New(rand.NewSource(x.Seed * 17))
	// names with earlier versions
	var old []*victim
	for i := 0; i < 6; i++ {
		v := &victim{bucket: []string{"b", "zip"}[i%2], name: fmt.Sprintf("old%d", i)}
		for k := 0; k <= i%3; k++ {
			b := blob([]int{100, 70000, 300000}[rng.Intn(3)]+rng.Intn(500), rng.Int63()%100000)
			if _, r := plain.Put(v.bucket, v.name, b, []string{"", "ss=1", "ss=2"}[rng.Intn(3)]); r.Err != nil || r.Code != 201 {
				x.Violate("put", "healthy cluster refuses an upload: %s", r)
				return
			}
			v.bodies = append(v.bodies, b)
		}
		old = append(old, v)
	}
	checkOld := func(when string) {
		for _, v := range old {
			vs, total, r := sum.Versions(v.bucket, v.name, 1, 100)
			if r.Err != nil || r.Code != 200 || len(vs) != len(v.bodies) {
				x.Violate("versions-changed", "%s: %s/%s has %d versions (total %d), want %d: %s", when, v.bucket, v.name, len(vs), total, len(v.bodies), r)
				continue
			}
			for i, b := range v.bodies {
				if e := sameBody(sum.Get(v.bucket, v.name, int32(i+1), -1), b); e != "" {
					x.Violate("version-damaged", "%s: %s/%s version %d: %s", when, v.bucket, v.name, i+1, e)
				}
			}
			if e := sameBody(sum.Get(v.bucket, v.name, 0, -1), v.bodies[len(v.bodies)-1]); e != "" {
				x.Violate("latest-changed", "%s: %s/%s latest: %s", when, v.bucket, v.name, e)
			}
			x.Event("versions_rechecked", int64(len(v.bodies)))
		}
	}
	type attempt struct {
		kind, bucket, name, opts string
		size                     int
	}
	fresh := 0
	mk := func(kind string) attempt {
		a := attempt{kind: kind, bucket: "b", opts: []string{"", "ss=1", "ss=2", "ss=1&compress=true", "ss=2&compress=true"}[rng.Intn(5)],
			size: []int{1, 50, 4096, 4097, 16384, 16385, 65536, 65537, 100000, 400000}[rng.Intn(10)]}
		if rng.Intn(2) == 0 {
			v := old[rng.Intn(len(old))]
			a.bucket, a.name = v.bucket, v.name
		} else {
			fresh++
			a.name = fmt.Sprintf("new%d", fresh)
		}
		return a
	}
	path := func(a attempt) string {
		p := "/v1/objects/" + url.PathEscape(a.name)
		if a.opts != "" {
			p += "?" + a.opts
		}
		return p
	}
	// invisible judges that the attempt left nothing that can be seen
	invisible := func(a attempt, r Resp) {
		out := "refused"
		if r.Err != nil {
			out = "broken-off"
		} else if r.Code/100 == 2 {
			x.Violate("accepted:"+a.kind, "%+v was acknowledged: %s", a, r)
			out = "accepted"
		}
		x.Event("attempt_"+out, 1)
		x.Case(fmt.Sprintf("%s %s size=%d old=%v %s", a.kind, a.opts, a.size, strings.HasPrefix(a.name, "old"), out))
		if strings.HasPrefix(a.name, "new") {
			g := sum.Get(a.bucket, a.name, 0, -1)
			if g.Err == nil && g.Code/100 == 2 {
				x.Violate("visible:"+a.kind, "%+v is visible with %d bytes after %s", a, len(g.Body), r)
			}
			if vs, _, vr := sum.Versions(a.bucket, a.name, 1, 10); vr.Code == 200 && len(vs) > 0 {
				x.Violate("visible:"+a.kind, "%+v has %d versions after %s", a, len(vs), r)
			}
		}
	}
	tag := int64(1000)
	run := func(kind string, n int, f func(a attempt, body []byte) Resp) {
		before, capB := census(c), capacities(c)
		as := make([]attempt, n)
		bs := make([][]byte, n)
		for i := range as {
			tag++
			as[i] = mk(kind)
			bs[i] = blob(as[i].size, tag*13+x.Seed*7)
		}
		parallel(n, 6, func(i int) { invisible(as[i], f(as[i], bs[i])) })
		settle(c)
		if diff := diffCensus(before, census(c)); len(diff) > 0 {
			x.Violate("left-behind:"+kind, "after refused uploads (%s) the storage differs: %s", kind, strings.Join(diff[:minInt(len(diff), 6)], "; "))
		}
		if capA := capacities(c); fmt.Sprint(capA) != fmt.Sprint(capB) {
			x.Violate("space-leaked:"+kind, "used capacities before %v, after refused uploads (%s) %v", capB, kind, capA)
		}
		x.Event("census_compared", 1)
	}
	N := x.Pick(24, 150)
	for rep := 0; rep < x.Pick(1, 3); rep++ {
		run("wrong-digest", N, func(a attempt, b []byte) Resp {
			_, r := sum.PutDigest(a.bucket, a.name, b, digest(append([]byte("x"), b...)), a.opts)
			return r
		})
		run("one-bit-off", N, func(a attempt, b []byte) Resp {
			d := digest(b)
			b = append([]byte(nil), b...)
			b[rng2(len(b), a.size)] ^= 4
			_, r := sum.PutDigest(a.bucket, a.name, b, d, a.opts)
			return r
		})
		for _, end := range []string{"close", "half"} {
			for _, api := range []API{sum, plain} {
				api, end := api, end
				run("truncated-"+end+"-"+api.N.ID, N, func(a attempt, b []byte) Resp {
					cut := rng2(len(b), len(a.name)+a.size)
					return rawUpload(api.N, path(a), map[string]string{"Bucket": a.bucket, "Digest": digest(b)}, len(b), func(w io.Writer) { w.Write(b[:cut]) }, end)
				})
			}
		}
		bad := []struct {
			kind string
			h    func(b []byte) map[string]string
		}{
			{"no-digest", func(b []byte) map[string]string { return map[string]string{"Bucket": "b"} }},
			{"no-bucket", func(b []byte) map[string]string { return map[string]string{"Digest": digest(b)} }},
			{"unknown-bucket", func(b []byte) map[string]string { return map[string]string{"Digest": digest(b), "Bucket": "nowhere"} }},
			{"readonly-bucket", func(b []byte) map[string]string { return map[string]string{"Digest": digest(b), "Bucket": "ro"} }},
			{"empty-digest", func(b []byte) map[string]string { return map[string]string{"Digest": "", "Bucket": "b"} }},
		}
		for _, bd := range bad {
			bd := bd
			run(bd.kind, N/3+2, func(a attempt, b []byte) Resp {
				return rawUpload(plain.N, path(a), bd.h(b), len(b), func(w io.Writer) { w.Write(b) }, "wait")
			})
		}
		run("chunked", N/3, func(a attempt, b []byte) Resp {
			return rawUpload(plain.N, path(a), map[string]string{"Bucket": a.bucket, "Digest": digest(b), "Transfer-Encoding": "chunked"}, -1, func(w io.Writer) {
				fmt.Fprintf(w, "%x\r\n", len(b))
				w.Write(b)
				io.WriteString(w, "\r\n")
			}, "half")
		})
		run("empty", N/3, func(a attempt, b []byte) Resp {
			return rawUpload(plain.N, path(a), map[string]string{"Bucket": a.bucket, "Digest": digest(nil)}, 0, func(w io.Writer) {}, "wait")
		})
		checkOld("after refused uploads")
		// content that exists already, claimed by a body that is another one
		for _, o := range []string{"ss=1", "ss=2"} {
			tag++
			body := blob(50000, tag*3)
			nm := fmt.Sprintf("dd%d", tag)
			if _, r := dedup.Put("b", nm, body, o); r.Code != 201 {
				x.Violate("put", "healthy cluster refuses an upload: %s", r)
			}
			old = append(old, &victim{"b", nm, [][]byte{body}})
			run("exists-wrong-body", 8, func(a attempt, b []byte) Resp {
				if (len(a.name)+a.size)%3 > 0 { // a body of the same size is found to exist
					b = append([]byte(nil), body...)
					b[a.size%len(b)] ^= 1
				}
				_, r := dedup.PutDigest("b", a.name, b, digest(body), o)
				return r
			})
		}
	}
	checkOld("after wrong bodies of existing content")
	// valid and broken uploads of one name at the same time
	for rep := 0; rep < x.Pick(3, 12); rep++ {
		name := fmt.Sprintf("mix%d", rep)
		good := make([][]byte, 6)
		vers := make([]int32, 6)
		parallel(18, 9, func(i int) {
			b := blob(20000+rep*7001+i*311, int64(rep*100+i)+x.Seed)
			switch {
			case i%3 == 0:
				good[i/3] = b
				pr, r := sum.Put("b", name, b, "ss=1")
				if r.Err != nil || r.Code != 201 {
					x.Violate("put", "valid upload next to broken ones refused: %s", r)
				}
				vers[i/3] = pr.Version
			case i%3 == 1:
				_, r := sum.PutDigest("b", name, b, digest([]byte(name)), "ss=1")
				if r.Err == nil && r.Code/100 == 2 {
					x.Violate("accepted:mixed", "wrong digest acknowledged: %s", r)
				}
			default:
				rawUpload(sum.N, "/v1/objects/"+name, map[string]string{"Bucket": "b", "Digest": digest(b)}, len(b), func(w io.Writer) { w.Write(b[:len(b)/2]) }, "half")
			}
		})
		v := &victim{"b", name, make([][]byte, 6)}
		for i, n := range vers {
			if n < 1 || n > 6 || v.bodies[n-1] != nil {
				x.Violate("mixed-versions", "six valid uploads got the versions %v", vers)
				break
			}
			v.bodies[n-1] = good[i]
		}
		x.Case(fmt.Sprintf("mixed %d", rep))
		if !x.Violated() {
			old = append(old, v)
		}
	}
	checkOld("after mixed uploads")

	// servers that fail in the middle of uploads
	nodes := c.ByKind("objectserver")
	type acked struct {
		bucket, name string
		body         []byte
		ver          int32
	}
	for round := 0; round < x.Pick(5, 25) && !x.Violated(); round++ {
		kill := append([]*cluster.Node(nil), nodes[round%len(nodes)])
		if round%2 == 1 {
			kill = append(kill, nodes[(round+3)%len(nodes)])
		}
		if round%5 == 4 {
			kill = []*cluster.Node{meta}
		}
		const up = 8
		as := make([]attempt, up)
		bodies := make([][]byte, up)
		for i := range as {
			as[i] = mk("server-killed")
			fresh++
			as[i].bucket, as[i].name = "b", fmt.Sprintf("new%d", fresh)
			as[i].size = 200000 + rng.Intn(300000)
			tag++
			bodies[i] = blob(as[i].size, tag*13)
		}
		killed := make(chan struct{})
		half := make(chan struct{}, up)
		go func() {
			for i := 0; i < up; i++ {
				<-half
			}
			for _, k := range kill {
				k.Kill9()
			}
			close(killed)
		}()
		rs := make([]Resp, up)
		parallel(up, up, func(i int) {
			api := []API{sum, plain}[i%2]
			cut := len(bodies[i]) / 2
			sent := false
			rs[i] = rawUpload(api.N, path(as[i]), map[string]string{"Bucket": as[i].bucket, "Digest": digest(bodies[i])}, len(bodies[i]), func(w io.Writer) {
				w.Write(bodies[i][:cut])
				half <- struct{}{}
				sent = true
				<-killed
				w.Write(bodies[i][cut:])
			}, "wait")
			if !sent {
				half <- struct{}{}
			}
		})
		if !x.Start(c) {
			return
		}
		waitView(x, c, sum)
		for i, a := range as {
			x.Case(fmt.Sprintf("kill-mid-upload %s meta=%v round=%d code=%d", a.opts, kill[0] == meta, round, rs[i].Code))
			g := plain.Get(a.bucket, a.name, 0, -1)
			if rs[i].Err == nil && rs[i].Code == 201 {
				x.Event("upload_survived_kill", 1)
				if e := sameBody(g, bodies[i]); e != "" {
					x.Violate("acked-lost", "an upload acknowledged while %s was killed: %s", kill[0].ID, e)
				}
			} else {
				x.Event("upload_failed_by_kill", 1)
				if g.Err == nil && g.Code/100 == 2 {
					if !bytes.Equal(g.Body, bodies[i]) {
						x.Violate("visible:server-killed", "an upload that failed with %s is visible with wrong bytes (%d of %d)", rs[i], len(g.Body), len(bodies[i]))
					} else if rs[i].Err == nil { // the answer said it failed
						x.Violate("visible:server-killed", "an upload that failed with %s is visible", rs[i])
					}
				}
			}
		}
		checkOld(fmt.Sprintf("after %s was killed", kill[0].ID))
	}
	// acknowledged, then everything is killed at once
	for round := 0; round < x.Pick(3, 12) && !x.Violated(); round++ {
		var ok []acked
		res := make([]acked, 12)
		stop := make(chan struct{})
		go func() { time.Sleep(time.Duration(20+rng.Intn(60)) * time.Millisecond); close(stop) }()
		parallel(12, 6, func(i int) {
			select {
			case <-stop:
				return
			default:
			}
			b := blob(1000+i*40001, int64(round*100+i)*3+x.Seed)
			n := fmt.Sprintf("ack%d-%d", round, i)
			pr, r := plain.Put("b", n, b, []string{"ss=1", "ss=2", "ss=1&compress=true"}[i%3])
			if r.Err == nil && r.Code == 201 {
				res[i] = acked{"b", n, b, pr.Version}
			}
		})
		parallel(len(nodes)+1, 8, func(i int) {
			if i == len(nodes) {
				meta.Kill9()
			} else {
				nodes[i].Kill9()
			}
		})
		for _, a := range res {
			if a.name != "" {
				ok = append(ok, a)
			}
		}
		if !x.Start(c) {
			return
		}
		waitView(x, c, sum)
		for _, a := range ok {
			x.Case(fmt.Sprintf("ack-then-kill-all %d %s", round, a.name))
			x.Event("acked_checked_after_crash", 1)
			if e := sameBody(plain.Get(a.bucket, a.name, a.ver, -1), a.body); e != "" {
				x.Violate("acked-lost", "%s was acknowledged just before all servers were killed: %s", a.name, e)
			}
		}
	}
	// one server is killed in a stream of uploads: what is acknowledged has all of its shards
	for round := 0; round < x.Pick(24, 150) && !x.Violated(); round++ {
		kill := nodes[round%len(nodes)]
		const up = 10
		var res [up][]acked
		stop := make(chan struct{})
		go func() {
			time.Sleep(time.Duration(15+rng.Intn(40)) * time.Millisecond)
			kill.Kill9()
			close(stop)
		}()
		parallel(up, up, func(i int) {
			api := []API{sum, plain}[i%2]
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				b := blob(1+(i*7919+k*3571)%60000, int64(round*10000+i*1000+k)*5+x.Seed)
				n := fmt.Sprintf("all%d-%d-%d", round, i, k)
				pr, r := api.Put("b", n, b, []string{"ss=2", "ss=1", "ss=2&compress=true"}[k%3])
				if r.Err == nil && r.Code == 201 {
					res[i] = append(res[i], acked{"b", n, b, pr.Version})
				} else {
					x.Event("stream_upload_failed_by_kill", 1)
				}
			}
		})
		if !x.Start(c) {
			return
		}
		waitView(x, c, sum)
		x.Case(fmt.Sprintf("kill-in-stream %d %s", round, kill.ID))
		parallel(up, up, func(i int) {
			for _, a := range res[i] {
				m, r := plain.Meta(a.bucket, a.name, a.ver)
				if r.Err != nil || r.Code != 200 || len(m.Versions) != 1 {
					x.Violate("acked-lost", "%s was acknowledged while %s was killed, but has no metadata: %s", a.name, kill.ID, r)
					return
				}
				v := m.Versions[0]
				for k, at := range v.Locate {
					if locateShard(c, at, fmt.Sprintf("%s.%d", v.Hash, k)) == "" {
						x.Violate("acked-incomplete", "%s was acknowledged while %s was killed, but shard %d is not at %s", a.name, kill.ID, k, at)
						return
					}
				}
				if e := sameBody(plain.Get(a.bucket, a.name, a.ver, -1), a.body); e != "" {
					x.Violate("acked-lost", "%s was acknowledged while %s was killed: %s", a.name, kill.ID, e)
					return
				}
				x.Event("acked_complete_after_kill", 1)
			}
		})
	}
	checkOld("at the end")
	x.CheckAlive(c)
}

func rng2(n, salt int) int {
	if n <= 1 {
		return 0
	}
	return int(uint32(salt)*2654435761>>7) % n
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
