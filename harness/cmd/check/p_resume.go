package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifharness/cluster"
)

func init() { props["C05"] = c05 }

type resumable struct {
	x              *Ctx
	rng            *rand.Rand
	apis           []API // interchangeable servers
	bucket, name   string
	body           []byte
	digest         string
	loc            string
	block          int64
	size           int64 // as last reported
	sig            string
	compress       bool
	finished, dead bool
	version        int32
	lastHead       Resp
	last           string // what the last step did
	sent           bool   // everything has been sent to a server that then died, it may have been completed
}

func (u *resumable) api() API { return u.apis[u.rng.Intn(len(u.apis))] }

func (u *resumable) post() bool {
	p := "/v1/big/" + url.PathEscape(u.name)
	if u.compress {
		p += "?compress=true"
	}
	r := u.api().do("POST", p, nil, "Bucket", u.bucket, "Digest", u.digest, "Size", strconv.Itoa(len(u.body)))
	u.loc = r.Header.Get("Location")
	u.block, _ = strconv.ParseInt(r.Header.Get("Min-Part-Size"), 10, 64)
	if r.Err != nil || r.Code != 201 || u.loc == "" || u.block <= 0 {
		u.x.Violate("post", "%s: starting a resumable upload is answered %s %v", u.sig, r, r.Header)
		return false
	}
	return true
}

// head asks for the current size until two answers agree (an interrupted request may still be in progress).
func (u *resumable) head() (int64, bool) {
	last := int64(-2)
	var r Resp
	for i := 0; i < 100; i++ {
		r = u.api().do("HEAD", u.loc, nil)
		if r.Err != nil || r.Code != 200 {
			// sizes of shards can differ while an interrupted request is still being written
			time.Sleep(20 * time.Millisecond)
			if i > 50 {
				u.lastHead = r
				return 0, false
			}
			continue
		}
		n, err := strconv.ParseInt(r.Header.Get("Content-Length"), 10, 64)
		if err != nil {
			u.x.Violate("head", "%s: HEAD gives no size: %v", u.sig, r.Header)
			return 0, false
		}
		if n == last {
			return n, true
		}
		last = n
		time.Sleep(4 * time.Millisecond)
	}
	return last, true
}

func (u *resumable) patch(off int64, data []byte, hdr ...string) Resp {
	r := u.api().do("PATCH", u.loc, data, append([]string{"Range", rangeOf(off, len(data))}, hdr...)...)
	if r.Code == 206 { // the answer announces the size as its length
		r.Err = nil
	}
	return r
}

func (u *resumable) invisible(when string) {
	a := u.api()
	if g := a.Get(u.bucket, u.name, 0, -1); g.Err == nil && g.Code/100 == 2 {
		u.x.Violate("visible", "%s: %s: the object is served with %d bytes before the upload is complete", u.sig, when, len(g.Body))
	}
	if vs, _, r := a.Versions(u.bucket, u.name, 1, 10); r.Code == 200 && len(vs) > 0 {
		u.x.Violate("visible", "%s: %s: the object has versions before the upload is complete", u.sig, when)
	}
	u.x.Event("invisibility_checked", 1)
}

func (u *resumable) readBack() {
	a := u.api()
	if e := sameBody(a.Get(u.bucket, u.name, u.version, -1), u.body); e != "" {
		u.x.Violate("content", "%s: the completed upload reads back wrong: %s", u.sig, e)
		return
	}
	n := int64(len(u.body))
	for _, off := range []int64{1, n / 2, u.block - 1, u.block, n - 1, u.rng.Int63n(n)} {
		if off >= 0 && off < n {
			if e := sameBody(a.Get(u.bucket, u.name, u.version, off), u.body[off:]); e != "" {
				u.x.Violate("content", "%s: from offset %d the completed upload reads back wrong: %s", u.sig, off, e)
			}
		}
	}
	m, r := a.Meta(u.bucket, u.name, u.version)
	if r.Err != nil || r.Code != 200 || len(m.Versions) != 1 || m.Versions[0].Size != n || m.Versions[0].Compress != u.compress {
		u.x.Violate("describe", "%s: the completed upload is described as %+v: %s", u.sig, m, r)
	}
	u.x.Event("completed_read_back", 1)
}

// run drives one upload through random interruptions.
func (u *resumable) run(maxSteps int) {
	x, rng := u.x, u.rng
	if !u.post() {
		return
	}
	total := int64(len(u.body))
	for step := 0; ; step++ {
		s, ok := u.head()
		if !ok {
			x.Violate("head", "%s: after step %d the size is not reported any more, but %s (the step was: %s)", u.sig, step, u.lastHead, u.last)
			return
		}
		if s < u.size || s > total || (s%u.block != 0 && s != total) {
			x.Violate("size", "%s: size %d is reported after %d were confirmed (block %d, total %d)", u.sig, s, u.size, u.block, total)
			return
		}
		u.size = s
		x.Event("sizes_asked", 1)
		rest := total - s
		if rest == 0 && total > 0 {
			// everything was stored by a request whose answer got lost, before the commit: sending nothing completes it
			x.Event("stored_unfinished", 1)
		}
		act := rng.Intn(10)
		if step > maxSteps {
			act = 9
		}
		n := rest
		if k := rest / u.block; k > 0 && act != 9 {
			n = u.block*rng.Int63n(k+1) + rng.Int63n(u.block)
			if n > rest {
				n = rest
			}
		} else if act != 9 && rest > 1 {
			n = rng.Int63n(rest)
		}
		u.last = fmt.Sprintf("kind %d, %d bytes from %d", act, n, s)
		switch {
		case act < 3 || (act == 9) || (act < 6 && n == rest): // a chunk is sent whole
			r := u.patch(s, u.body[s:s+n])
			x.Case(fmt.Sprintf("%s chunk blocks=%d odd=%v last=%v", u.sig, n/u.block, n%u.block != 0, n == rest))
			if n == rest {
				if r.Err != nil || r.Code != 200 {
					x.Violate("complete", "%s: the last chunk (%d bytes from %d) is answered %s", u.sig, n, s, r)
					return
				}
				var pr putResp
				if err := json.Unmarshal(r.Body, &pr); err != nil || pr.Version < 1 || pr.Bucket != u.bucket || pr.Name != u.name {
					x.Violate("complete", "%s: the completed upload is answered %s", u.sig, r)
					return
				}
				u.version, u.finished = pr.Version, true
				x.Event("completed", 1)
				u.readBack()
				return
			}
			got, _ := strconv.ParseInt(r.Header.Get("Content-Length"), 10, 64)
			if r.Err != nil || r.Code != 206 || got != s+n-n%u.block {
				x.Violate("partial", "%s: %d bytes from %d (block %d, total %d) are answered %s with size %d", u.sig, n, s, u.block, total, r, got)
				return
			}
			u.size = got
			x.Event("chunks", 1)
		case act < 6: // the connection breaks within the chunk
			if n < 2 {
				continue
			}
			cut := rng.Int63n(n)
			r := rawUpload(u.api().N, u.loc, map[string]string{":method": "PATCH", "Range": fmt.Sprintf("bytes=%d-", s)}, int(n), func(w io.Writer) { w.Write(u.body[s : s+cut]) }, []string{"close", "half"}[rng.Intn(2)])
			x.Case(fmt.Sprintf("%s broken blocks=%d/%d", u.sig, cut/u.block, n/u.block))
			if r.Err == nil && r.Code == 200 {
				x.Violate("broken-accepted", "%s: a chunk cut off after %d of %d bytes is answered %s", u.sig, cut, n, r)
			}
			u.last += fmt.Sprintf(", cut off after %d, answered %s", cut, r)
			x.Event("interrupted", 1)
		case act == 6: // wrong offset
			off := []int64{s + 1, s + u.block, s - u.block, 0, total, s - 1, total * 2}[rng.Intn(7)]
			if off < 0 || off == s {
				continue
			}
			r := u.patch(off, u.body[:minInt(len(u.body), int(u.block))])
			x.Case(fmt.Sprintf("%s wrong offset by %d", u.sig, off-s))
			if r.Err != nil || r.Code != 416 {
				x.Violate("wrong-offset", "%s: data for offset %d is accepted at size %d: %s", u.sig, off, s, r)
			}
			x.Event("wrong_offsets", 1)
		case act == 7: // chunked body
			r := rawUpload(u.api().N, u.loc, map[string]string{":method": "PATCH", "Range": fmt.Sprintf("bytes=%d-", s), "Transfer-Encoding": "chunked"}, -1, func(w io.Writer) {
				for d := u.body[s : s+n]; len(d) > 0; {
					k := 1 + rng.Intn(20000)
					if k > len(d) {
						k = len(d)
					}
					fmt.Fprintf(w, "%x\r\n", k)
					w.Write(d[:k])
					io.WriteString(w, "\r\n")
					d = d[k:]
				}
				io.WriteString(w, "0\r\n\r\n")
			}, "wait")
			x.Case(fmt.Sprintf("%s chunked", u.sig))
			u.last += fmt.Sprintf(", chunked, answered %s", r)
			if r.Err == nil && r.Code == 200 {
				if n != rest {
					x.Violate("complete", "%s: %d of %d missing bytes complete the upload", u.sig, n, rest)
					return
				}
				var pr putResp
				json.Unmarshal([]byte(between(string(r.Body))), &pr)
				u.version = pr.Version
				u.finished = true
				x.Event("completed", 1)
				u.readBack()
				return
			}
		case act == 8:
			u.invisible(fmt.Sprintf("step %d at size %d", step, s))
		}
	}
}

// between returns the JSON object in a body that may be chunk-encoded.
func between(s string) string {
	i, j := strings.Index(s, "{"), strings.LastIndex(s, "}")
	if i < 0 || j < i {
		return ""
	}
	return s[i : j+1]
}

func c05(x *Ctx) {
	x.Rule("seeded resumable uploads: sizes around blocks, with and without compression and digest verification, driven through random chunk sizes, broken connections, wrong offsets, chunked bodies and " +
		"changes of the api server, followed by read-back; and uploads that must be refused (wrong digest, too long, unknown or malformed locations, lost temporary data, finished before). " +
		"A case is distinct by configuration, size and step.")
	c := x.Cluster("c", false)
	c.AddMeta("meta1", nil)
	for i := 0; i < 6; i++ {
		c.AddObject(fmt.Sprintf("obj%d", i), 1+i%2, nil)
	}
	conf := func(sum bool, ds, ps, bl int) M {
		return M{"object": M{"checksum": sum, "distinct-size": "1GB", "distinct-timeout": "100ms", "reed-solomon": M{"data-shards": ds, "parity-shards": ps, "block-per-shard": bl}}}
	}
	groups := [][]API{}
	for i, g := range []M{conf(true, 2, 1, 4096), conf(false, 4, 2, 8192), conf(true, 3, 2, 16384)} {
		groups = append(groups, []API{{N: c.AddAPI(fmt.Sprintf("a%d", i), g)}, {N: c.AddAPI(fmt.Sprintf("b%d", i), g)}})
	}
	if !x.Start(c) {
		return
	}
	for _, b := range []Bucket{{Name: "b", Versioning: true, VersionRemains: 50}, {Name: "zip", Compress: true}, {Name: "rs", StoreStrategy: 1, DataShards: 3, ParityShards: 1}} {
		if !x.MustBucket(groups[0][0], b) {
			return
		}
	}
	mk := func(i int, gi, size int, zip bool, bucket string) *resumable {
		rng := rand.New(rand.NewSource(x.Seed*1e6 + int64(i)))
		body := blob(size, x.Seed*100000+int64(i))
		u := &resumable{x: x, rng: rng, apis: groups[gi], bucket: bucket, name: fmt.Sprintf("big %d/x", i), body: body, digest: digest(body), compress: zip}
		u.sig = fmt.Sprintf("conf=%d %s size=%d zip=%v", gi, bucket, size, zip)
		return u
	}
	var us []*resumable
	rng := rand.New(rand.NewSource(x.Seed * 53))
	for i := 0; i < x.Pick(90, 900); i++ {
		gi := i % 3
		bl := []int{65536, 65536, 196608}[gi] // multiples of the network package size
		k := rng.Intn(5)
		size := []int{k*bl + rng.Intn(bl), k * bl, k*bl + 1, k*bl - 1, k*bl + bl/2, 1 + rng.Intn(4096), 4096, k*bl + 4096}[rng.Intn(8)]
		if size < 1 {
			size = 1
		}
		bk := []string{"b", "b", "zip", "rs"}[rng.Intn(4)]
		us = append(us, mk(i, gi, size, bk == "zip" || rng.Intn(3) == 0, bk))
	}
	parallel(len(us), 6, func(i int) { us[i].run(6 + i%12) })
	if x.Violated() {
		return
	}
	for _, u := range us { // again, by any server of the configuration
		if u.finished {
			if e := sameBody(u.api().Get(u.bucket, u.name, 0, -1), u.body); e != "" {
				x.Violate("content", "%s: reads back wrong later: %s", u.sig, e)
			}
			// the upload is over: its location is refused
			r := u.patch(int64(len(u.body)), []byte("x"))
			if r.Err != nil || r.Code/100 == 2 {
				x.Violate("finished-again", "%s: a finished upload accepts more: %s", u.sig, r)
			}
			r = u.patch(0, u.body)
			if r.Err != nil || r.Code/100 == 2 {
				x.Violate("finished-again", "%s: a finished upload can be sent again: %s", u.sig, r)
			}
			if vs, _, _ := u.api().Versions(u.bucket, u.name, 1, 10); len(vs) != 1 {
				x.Violate("versions", "%s: %d versions after one upload", u.sig, len(vs))
			}
			x.Case(u.sig + " sent again")
		}
	}
	c05together(x, groups, mk)
	if x.Violated() {
		return
	}
	c05refused(x, c, groups, mk)
	x.CheckAlive(c)
}

// c05together completes uploads of one new name at the same moment, all of them have to succeed.
func c05together(x *Ctx, groups [][]API, mk func(i, gi, size int, zip bool, bucket string) *resumable) {
	for round := 0; round < x.Pick(40, 300) && !x.Violated(); round++ {
		gi := round % 3
		n := 2 + round%3
		var us []*resumable
		for k := 0; k < n; k++ {
			u := mk(2000000+round*10+k, gi, 1+(round*7919+k*131)%9000, k%2 == 0, "b")
			u.name = fmt.Sprintf("together %d", round)
			us = append(us, u)
		}
		plain := round%4 == 0 // one is uploaded at once
		for k, u := range us {
			if !(plain && k == 0) && !u.post() {
				return
			}
		}
		versions := make([]int32, n)
		parallel(n, n, func(k int) {
			u := us[k]
			var r Resp
			if plain && k == 0 {
				_, r = u.api().Put(u.bucket, u.name, u.body, "compress=true")
			} else {
				r = u.patch(0, u.body)
			}
			var p putResp
			if r.Err != nil || r.Code/100 != 2 || r.Code == 206 || json.Unmarshal(r.Body, &p) != nil {
				x.Violate("together", "%s: of %d uploads of a new name that end at the same time one is answered %s", u.sig, n, r)
				return
			}
			versions[k] = p.Version
		})
		seen := map[int32]bool{}
		for k, u := range us {
			if x.Violated() {
				return
			}
			if seen[versions[k]] || versions[k] < 1 {
				x.Violate("together", "%s: %d uploads of a new name that end at the same time get the versions %v", u.sig, n, versions)
				return
			}
			seen[versions[k]] = true
			u.version = versions[k]
			u.readBack()
		}
		x.Event("uploads_ended_together", int64(n))
		x.Case(fmt.Sprintf("together conf=%d %d plain=%v", gi, n, plain))
	}
}

func c05refused(x *Ctx, c *cluster.Cluster, groups [][]API, mk func(i, gi, size int, zip bool, bucket string) *resumable) {
	before, capB := census(c), capacities(c)
	id := 1000000
	next := func(gi, size int) *resumable {
		id++
		return mk(id, gi, size, id%2 == 0, "b")
	}
	compare := func(what string) {
		settle(c)
		if d := diffCensus(before, census(c)); len(d) > 0 {
			x.Violate("left-behind", "after %s the storage differs: %s", what, strings.Join(d[:minInt(len(d), 6)], "; "))
		}
		if capA := capacities(c); fmt.Sprint(capA) != fmt.Sprint(capB) {
			x.Violate("space-leaked", "used capacities before %v, after %s %v", capB, what, capA)
		}
	}
	// a wrong digest, in several chunks or one
	for i := 0; i < x.Pick(10, 60); i++ {
		gi := []int{0, 2}[i%2]
		u := next(gi, []int{100, 20000, 300000, 65536, 196608}[i%5])
		u.digest = digest([]byte(fmt.Sprint("other", i)))
		if !u.post() {
			return
		}
		if int64(len(u.body)) > u.block && i%3 > 0 {
			u.patch(0, u.body[:u.block])
		}
		s, _ := u.head()
		r := u.patch(s, u.body[s:])
		if r.Err != nil || r.Code/100 != 4 {
			x.Violate("wrong-digest", "%s: content with another digest is answered %s", u.sig, r)
		}
		u.invisible("after a wrong digest")
		if r := u.patch(s, u.body[s:]); r.Err == nil && r.Code/100 == 2 {
			x.Violate("wrong-digest", "%s: content with another digest is accepted the second time: %s", u.sig, r)
		}
		x.Case(u.sig + " wrong digest")
		x.Event("wrong_digests", 1)
	}
	// a damaged chunk
	for i := 0; i < x.Pick(6, 40); i++ {
		u := next([]int{0, 2}[i%2], 300000)
		if !u.post() {
			return
		}
		bad := append([]byte(nil), u.body...)
		bad[u.rng.Intn(len(bad))] ^= 1
		k := u.block
		u.patch(0, bad[:k])
		s, _ := u.head()
		r := u.patch(s, bad[s:])
		if r.Err != nil || r.Code/100 == 2 {
			x.Violate("wrong-digest", "%s: content with one bit off is answered %s", u.sig, r)
		}
		u.invisible("after a wrong bit")
		x.Case(u.sig + " one bit off")
	}
	// too long
	for i := 0; i < x.Pick(9, 50); i++ {
		u := next(i%3, []int{100, 20000, 300000, 65536, 393216, 131072}[i%6])
		if !u.post() {
			return
		}
		if i%2 == 0 && int64(len(u.body)) > u.block {
			u.patch(0, u.body[:u.block])
		}
		s, _ := u.head()
		more := append(append([]byte{}, u.body[s:]...), blob(1+u.rng.Intn(int(2*u.block)), 5)...)
		r := u.patch(s, more)
		if r.Err != nil || r.Code/100 == 2 {
			x.Violate("too-long", "%s: %d bytes too many are answered %s", u.sig, len(more)-len(u.body)+int(s), r)
		}
		u.invisible("after too many bytes")
		if r := u.patch(s, u.body[s:]); r.Err == nil && r.Code/100 == 2 { // whatever was stored is gone, or what completes is exact
			u.version = 0
			if g := u.api().Get(u.bucket, u.name, 0, -1); sameBody(g, u.body) != "" {
				x.Violate("too-long", "%s: completes with wrong content after too many bytes", u.sig)
			}
		}
		x.Case(u.sig + " too long")
	}
	compare("refused uploads")
	// unknown and malformed locations
	u := next(0, 20000)
	if !u.post() {
		return
	}
	tok, _ := url.PathUnescape(strings.TrimPrefix(u.loc, "/v1/big/"))
	raw, _ := base64.StdEncoding.DecodeString(tok)
	locs := []string{"x", "AAAA", "%00", "====", strings.Repeat("A", 3000), base64.StdEncoding.EncodeToString([]byte("{}"))}
	for k := 0; k < x.Pick(20, 100); k++ {
		locs = append(locs, base64.StdEncoding.EncodeToString(raw[:u.rng.Intn(len(raw))]), tok[:u.rng.Intn(len(tok))])
	}
	locs = append(locs, base64.StdEncoding.EncodeToString([]byte(strings.Replace(string(raw), "TempInfo_", "TempInfo-", -1))))
	for i, l := range locs {
		if l == "" {
			continue
		}
		if l[0] != '%' {
			l = url.PathEscape(l)
		}
		for _, m := range []string{"HEAD", "PATCH"} {
			r := u.api().do(m, "/v1/big/"+l, []byte("hello")[:map[string]int{"HEAD": 0, "PATCH": 5}[m]], "Range", "bytes=0-")
			if r.Err != nil || r.Code/100 == 2 {
				x.Violate("bad-location", "%s of malformed location %.80q is answered %s", m, l, r)
			}
		}
		x.Case(fmt.Sprintf("malformed location %d", i))
	}
	x.Event("malformed_locations", int64(len(locs)))
	// the uploads above did no harm to the one whose location was mangled
	u.size = 0
	if r := u.patch(0, u.body); r.Err != nil || r.Code != 200 {
		x.Violate("complete", "%s: upload is answered %s", u.sig, r)
	} else {
		u.readBack()
	}
	// servers that lose the temporary data: refused, never completed with less
	for round := 0; round < x.Pick(2, 8); round++ {
		var us []*resumable
		for i := 0; i < 6; i++ {
			u := next(i%3, 400000+i)
			if !u.post() {
				return
			}
			if i%2 == 0 {
				u.patch(0, u.body[:u.block])
			}
			us = append(us, u)
		}
		victim := c.ByKind("objectserver")[round%6]
		victim.Kill9()
		for _, u := range us[:3] {
			u.lossy(victim, "down")
		}
		if err := restart(victim); err != nil {
			x.Violate("restart", "object server does not come up again: %v", err)
			return
		}
		waitView(x, c, groups[0][0])
		for _, u := range us[3:] {
			u.lossy(victim, "restarted")
		}
		x.Event("servers_lost", 1)
	}
	rng := rand.New(rand.NewSource(x.Seed * 67))
	// api servers killed within chunks, with object servers standing still or not: what other api servers then report is what they complete
	for round := 0; round < x.Pick(5, 30) && !x.Violated(); round++ {
		var us []*resumable
		for i := 0; i < 9; i++ {
			u := next(i%3, []int{1200000, 3000000, 6000000}[i%3]+i*977)
			u.apis = groups[i%3][:1]
			if !u.post() {
				return
			}
			us = append(us, u)
		}
		victim := c.ByKind("objectserver")[(round*5+int(x.Seed))%6]
		ended := make(chan struct{}, len(us))
		for i, u := range us {
			i, u := i, u
			go func() {
				defer func() { ended <- struct{}{} }()
				rawUpload(groups[i%3][1].N, u.loc, map[string]string{":method": "PATCH", "Range": "bytes=0-"}, len(u.body), func(w io.Writer) {
					for d := u.body; len(d) > 0; {
						k := 150000
						if k > len(d) {
							k = len(d)
						}
						if _, err := w.Write(d[:k]); err != nil {
							return
						}
						d = d[k:]
						time.Sleep(5 * time.Millisecond)
					}
					u.sent = true
				}, "wait")
			}()
		}
		time.Sleep(time.Duration(5+rng.Intn(30)) * time.Millisecond)
		if round%3 != 0 {
			victim.Signal(syscall.SIGSTOP)
			time.Sleep(time.Duration(5+rng.Intn(60)) * time.Millisecond)
		}
		for _, g := range groups {
			g[1].N.Kill9()
		}
		if round%3 != 0 {
			victim.Signal(syscall.SIGCONT)
		}
		for range us {
			<-ended
		}
		time.Sleep(100 * time.Millisecond)
		parallel(len(us), 5, func(i int) { us[i].lossy(victim, "api-killed") })
		for _, g := range groups {
			if err := restart(g[1].N); err != nil {
				x.Violate("restart", "api server does not come up again: %v", err)
				return
			}
		}
		x.Event("api_servers_killed", 3)
	}
}

// lossy continues an upload after an object server lost its temporary data: it completes exactly or is refused.
func (u *resumable) lossy(v *cluster.Node, how string) {
	r := u.api().do("HEAD", u.loc, nil)
	s := int64(0)
	if r.Err == nil && r.Code == 200 {
		s, _ = strconv.ParseInt(r.Header.Get("Content-Length"), 10, 64)
	}
	p := u.patch(s, u.body[s:])
	done := p.Err == nil && p.Code == 200
	u.x.Case(fmt.Sprintf("%s server %s done=%v", u.sig, how, done))
	u.x.Event(fmt.Sprintf("lost_%s_completed_%v", how, done), 1)
	if !done && u.sent {
		if g := u.api().Get(u.bucket, u.name, 0, -1); g.Code/100 == 2 || g.Err != nil {
			if e := sameBody(g, u.body); e != "" {
				u.x.Violate("content", "%s: completed with its server dying, it reads back wrong: %s", u.sig, e)
			}
		}
		return
	}
	if !done {
		u.invisible("after a server lost its part")
		return
	}
	u.version = 0
	u.readBack()
}

// rangeOf writes the range of n bytes from off.
func rangeOf(off int64, n int) string {
	if n == 0 {
		return fmt.Sprintf("bytes=%d-", off)
	}
	return fmt.Sprintf("bytes=%d-%d", off, off+int64(n)-1)
}
