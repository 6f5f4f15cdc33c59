package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"verifharness/cluster"
)

// C18: object servers leave, join and send objects to each other while they are read and servers fail. What every shard
// was is noted when it is stored; afterwards it has to be exactly that where the metadata says it is.

func init() { props["C18"] = c18 }

const migService = "/proto.ObjectMigration/"

func pbInt(field int, n int64) string {
	b := []byte{byte(field << 3)}
	u := uint64(n)
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return string(append(b, byte(u)))
}

// migCall calls a method of an object server's migration service; ok only if the answer says so.
func migCall(addr, method, req string) (bool, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return false, err.Error()
	}
	defer cc.Close()
	in, out := []byte(req), []byte(nil)
	if err = cc.Invoke(ctx, migService+method, &in, &out, grpc.ForceCodec(rawCodec{})); err != nil {
		return false, err.Error()
	}
	return pbResponse(out)
}

// rawSend is a stream that hands over an object.
type rawSend struct {
	cc     *grpc.ClientConn
	st     grpc.ClientStream
	cancel func()
}

func openSend(addr string) (*rawSend, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		cancel()
		return nil, err
	}
	st, err := cc.NewStream(ctx, &grpc.StreamDesc{ClientStreams: true}, migService+"ReceiveData", grpc.ForceCodec(rawCodec{}))
	if err != nil {
		cancel()
		cc.Close()
		return nil, err
	}
	return &rawSend{cc, st, cancel}, nil
}

func (s *rawSend) chunk(name string, size int64, data []byte) error {
	m := []byte(pbStr(1, name) + pbStr(2, string(data)) + pbInt(3, size))
	return s.st.SendMsg(&m)
}

// end finishes the stream and returns the receiver's answer.
func (s *rawSend) end() (bool, string) {
	defer s.cut()
	if err := s.st.CloseSend(); err != nil {
		return false, err.Error()
	}
	var out []byte
	if err := s.st.RecvMsg(&out); err != nil {
		return false, err.Error()
	}
	return pbResponse(out)
}

func (s *rawSend) cut() { s.cancel(); s.cc.Close() }

// movObj is an uploaded object with what its shard files were at first.
type movObj struct {
	bucket, name string
	desc         string
	body         []byte
	hash         string
	n            int
	tol          int
	zip          bool
	sums         []string
}

type objWorld struct {
	x      *Ctx
	c      *cluster.Cluster
	rng    *rand.Rand
	api    []API
	admin  Admin
	metas  []*cluster.Node
	srv    []*cluster.Node
	in     map[*cluster.Node]bool // registered
	mu     sync.Mutex
	objs   []*movObj
	n      int
	took   time.Duration
	rounds int
}

func fileSum(p string) string {
	f, err := os.Open(p)
	if err != nil {
		return "none"
	}
	defer f.Close()
	h := sha256.New()
	io.Copy(h, f)
	return fmt.Sprintf("%x", h.Sum(nil))
}

// upload stores an object and notes its shards. In a quiet system every shard has to be where the metadata says.
func (w *objWorld) upload(body []byte, bucket, opts string, quiet bool) *movObj {
	w.mu.Lock()
	w.n++
	o := &movObj{bucket: bucket, name: fmt.Sprintf("o %d/%%", w.n), body: body, zip: strings.Contains(opts, "compress")}
	a := w.api[w.n%len(w.api)]
	w.mu.Unlock()
	o.desc = fmt.Sprintf("%s/%s (%s, %d bytes)", bucket, o.name, opts, len(body))
	if _, r := a.Put(bucket, o.name, body, opts); r.Err != nil || r.Code != 201 {
		if quiet {
			w.x.Violate("put", "uploading %s: %s", o.desc, r)
		}
		w.x.Event("uploads_refused", 1)
		return nil
	}
	w.x.Event("uploads", 1)
	m, r := a.Meta(bucket, o.name, 0)
	if r.Err != nil || r.Code != 200 || len(m.Versions) == 0 {
		if quiet {
			w.x.Violate("metadata", "no metadata of %s: %s", o.desc, r)
		}
		return nil
	}
	v := m.Versions[0]
	o.hash, o.n, o.tol = v.Hash, len(v.Locate), v.ParityShards
	if v.StoreStrategy == 2 {
		o.tol = o.n - 1
	}
	if quiet {
		for i, l := range v.Locate {
			p := locateShard(w.c, l, fmt.Sprintf("%s.%d", v.Hash, i))
			if p == "" {
				w.x.Violate("stored", "shard %d of %s is not at %s", i, o.desc, l)
				return nil
			}
			o.sums = append(o.sums, fileSum(p))
		}
	}
	w.mu.Lock()
	w.objs = append(w.objs, o)
	w.mu.Unlock()
	return o
}

// misplaced says what is wrong with the places of an object's shards.
func (w *objWorld) misplaced(o *movObj) string {
	m, r := w.api[0].Meta(o.bucket, o.name, 0)
	if r.Err != nil || r.Code != 200 || len(m.Versions) == 0 {
		return "no metadata: " + r.String()
	}
	v := m.Versions[0]
	if v.Hash != o.hash || len(v.Locate) != o.n {
		return fmt.Sprintf("the metadata changed: %+v", v)
	}
	for i, l := range v.Locate {
		n := nodeByAddr(w.c, l)
		if n == nil {
			return fmt.Sprintf("shard %d is said to be at %s, where no server is", i, l)
		}
		if !n.Running() {
			return fmt.Sprintf("shard %d is said to be at %s, which was left", i, n.ID)
		}
		p := locateShard(w.c, l, fmt.Sprintf("%s.%d", o.hash, i))
		if p == "" {
			return fmt.Sprintf("shard %d is not at %s, where the metadata says; it is at %v", i, n.ID, shardFiles(w.c, fmt.Sprintf("%s.%d", o.hash, i)[:len(o.hash)]))
		}
		w.mu.Lock()
		sums := o.sums
		w.mu.Unlock()
		if s := fileSum(p); sums != nil && s != sums[i] && !o.zip {
			return fmt.Sprintf("shard %d at %s is not what was stored", i, n.ID)
		}
		w.x.Event("shards_checked", 1)
	}
	return ""
}

// verify judges everything in a quiet system.
func (w *objWorld) verify(when string) bool {
	w.mu.Lock()
	objs := append([]*movObj(nil), w.objs...)
	w.mu.Unlock()
	var bad int32
	// both metadata servers are reached again
	for _, a := range w.api {
		for k := 0; k < len(objs) && k < 6; k++ {
			var r Resp
			if !eventually(30*time.Second, func() bool {
				_, r = a.Meta(objs[k].bucket, objs[k].name, 0)
				return r.Err == nil && r.Code/100 == 2
			}) {
				w.x.Violate("read", "%s: metadata of %s is not available: %s", when, objs[k].desc, r)
				return false
			}
		}
	}
	parallel(len(objs), 8, func(i int) {
		o := objs[i]
		if atomic.LoadInt32(&bad) > 2 {
			return
		}
		// where it is: before any read, which would repair it
		msg := ""
		if !eventually(3*time.Second, func() bool { msg = w.misplaced(o); return msg == "" }) {
			w.x.Violate("place", "%s: %s: %s", when, o.desc, msg)
			atomic.AddInt32(&bad, 1)
			return
		}
		r := w.api[i%len(w.api)].Get(o.bucket, o.name, 0, -1)
		w.x.Event("reads", 1)
		if e := sameBody(r, o.body); e != "" {
			w.x.Violate("read", "%s: %s: %s", when, o.desc, e)
			atomic.AddInt32(&bad, 1)
		}
	})
	if bad > 0 {
		return false
	}
	for _, n := range w.srv {
		if n.Running() {
			OS{n}.checkCapacity(w.x, when)
		}
	}
	w.x.Event("verifications", 1)
	return !w.x.Violated()
}

// empty judges a server that handed everything over.
func (w *objWorld) empty(n *cluster.Node, when string) {
	objs, temps, _ := OS{n}.stored()
	if len(objs) > 0 {
		var l []string
		for k := range objs {
			l = append(l, k)
		}
		sort.Strings(l)
		w.x.Violate("left-behind", "%s: %s left and %d objects are still there only: %v", when, n.ID, len(objs), l[:minInt(len(l), 3)])
	}
	_ = temps
}

// busy reads (and uploads) until end is called. Every read of an object whose servers all run has to succeed.
func (w *objWorld) busy(strict, upload bool, seed int64) (end func()) {
	var stop atomic.Bool
	var wg sync.WaitGroup
	w.mu.Lock()
	objs := append([]*movObj(nil), w.objs...)
	w.mu.Unlock()
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed + int64(g)))
			for !stop.Load() {
				o := objs[rng.Intn(len(objs))]
				off := int64(-1)
				want := o.body
				if rng.Intn(3) == 0 && len(o.body) > 1 {
					off = rng.Int63n(int64(len(o.body)))
					want = o.body[off:]
				}
				r := w.api[g%len(w.api)].Get(o.bucket, o.name, 0, off)
				w.x.Event("reads_during", 1)
				switch v := judge(r, want); {
				case v == "ok":
				case v != "failed":
					w.x.Violate("served", "during a move: %s from %d: %s", o.desc, off, v)
					return
				case strict:
					w.x.Violate("unreadable", "during a move, all servers running: %s from %d: %s", o.desc, off, r)
					return
				default:
					w.x.Event("reads_failed_with_a_server_down", 1)
				}
			}
		}(g)
	}
	if upload {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(seed + 99))
			for i := 0; !stop.Load() && i < 6; i++ {
				if i%2 == 0 {
					w.upload(blob(1+rng.Intn(30000), rng.Int63()), "b", fmt.Sprintf("ss=%d", 1+rng.Intn(2)), false)
				} else {
					w.upload(objs[rng.Intn(len(objs))].body, "b2", "", false)
				}
				time.Sleep(20 * time.Millisecond)
			}
		}()
	}
	return func() { stop.Store(true); wg.Wait() }
}

// seen waits until a server is known, or not any more, to all others.
func (w *objWorld) seen() { time.Sleep(250 * time.Millisecond) }

func (w *objWorld) leave(n *cluster.Node, viaAdmin bool) (bool, string) {
	t := time.Now()
	defer func() { w.took = time.Since(t) }()
	w.x.Event("leaves", 1)
	if viaAdmin {
		r := w.admin.do("POST", "/objects/leave/"+n.ID, nil)
		return r.Err == nil && r.Code/100 == 2, r.String()
	}
	return migCall(n.Addr(), "LeaveCommand", "")
}

func (w *objWorld) join(n *cluster.Node, viaAdmin bool) (bool, string) {
	w.x.Event("joins", 1)
	ok, msg := w.join1(n, viaAdmin)
	for i := 0; i < 2 && !ok && strings.Contains(msg, "see logs"); i++ {
		// two servers with files of one name, stored with and without compression, sent them at the same time
		w.x.Event("joins repeated", 1)
		ok, msg = w.join1(n, viaAdmin)
	}
	return ok, msg
}

func (w *objWorld) join1(n *cluster.Node, viaAdmin bool) (bool, string) {
	if viaAdmin {
		r := w.admin.do("POST", "/objects/join/"+n.ID, nil)
		return r.Err == nil && r.Code/100 == 2, r.String()
	}
	// a server sees itself in the registry a moment after it registered
	ok, msg := false, ""
	eventually(5*time.Second, func() bool {
		ok, msg = migCall(n.Addr(), "JoinCommand", "")
		return ok || !strings.Contains(msg, "register address")
	})
	if strings.Contains(msg, "non avaliable object servers") {
		return true, msg // it has more than the others already
	}
	return ok, msg
}

func (w *objWorld) send(from *cluster.Node, to string, size int64) (bool, string) {
	w.x.Event("sends", 1)
	return migCall(from.Addr(), "RequireSend", pbInt(2, size)+pbStr(3, to))
}

func (w *objWorld) used(n *cluster.Node) (sum int64) {
	objs, _, _ := OS{n}.stored()
	for _, s := range objs {
		sum += s
	}
	return
}

// again starts a killed server.
func (w *objWorld) again(n *cluster.Node) bool {
	n.RewriteConf()
	if err := restart(n); err != nil {
		w.x.Violate("restart", "%s does not start again: %v\n%s", n.ID, err, n.LogTail(8))
		return false
	}
	return true
}

func (w *objWorld) others(n *cluster.Node) (r []*cluster.Node) {
	for _, o := range w.srv {
		if o != n {
			r = append(r, o)
		}
	}
	return
}

func (w *objWorld) round(k int) bool {
	x, rng := w.x, w.rng
	n := w.srv[rng.Intn(len(w.srv))]
	others := w.others(n)
	o := others[rng.Intn(len(others))]
	seed := rng.Int63()
	part := func() time.Duration { // a moment within a leave
		d := w.took
		if d < 50*time.Millisecond {
			d = 50 * time.Millisecond
		}
		return time.Duration(rng.Int63n(int64(d)))
	}
	kinds := []string{"leave and come back", "leave and shut down", "send", "two sends", "receiver killed", "sender killed", "suspended", "metadata server killed", "odd requests", "two leave"}
	kind := kinds[k%len(kinds)]
	x.Event("rounds", 1)
	x.Case(fmt.Sprintf("%s, %d drives to %d", kind, len(n.Mounts), len(o.Mounts)))
	when := fmt.Sprintf("round %d (%s, %s)", w.rounds, kind, n.ID)
	x.Logf("%s", when)
	w.rounds++
	// back makes n a member again
	back := func() bool {
		w.seen()
		if ok, msg := w.join(n, false); !ok {
			x.Violate("join", "%s: joining is answered: %s", when, msg)
			return false
		}
		w.seen()
		return true
	}
	switch kind {
	case "leave and come back", "leave and shut down":
		end := w.busy(true, kind == "leave and come back" && rng.Intn(2) == 0, seed)
		// an upload that is in progress at the server is nothing to hand over, nor does it stop anything
		part := blob(8192, seed)
		temp, r := OS{n}.TPost(digest(part)+".0", 12288)
		if r.Code/100 == 2 {
			r = OS{n}.TPatch(temp, part)
		}
		ok, msg := w.leave(n, rng.Intn(2) == 0)
		end()
		if !ok {
			x.Violate("leave", "%s: leaving is answered: %s", when, msg)
			return false
		}
		if e := sameBody(OS{n}.TGet(temp, int64(len(part))), part); e != "" || r.Code/100 != 2 {
			x.Violate("temp", "%s: the content of a temporary object which was uploaded before (%s): %s", when, r, e)
			return false
		}
		x.Event("uploads_in_progress", 1)
		OS{n}.TDelete(temp)
		if kind == "leave and come back" {
			return w.verify(when) && back() && w.verify(when+", back")
		}
		w.empty(n, when)
		n.Kill9()
		if !w.verify(when) || !w.again(n) {
			return false
		}
		w.seen()
		end = w.busy(true, false, seed+5)
		ok, msg = w.join(n, rng.Intn(2) == 0)
		end()
		if !ok {
			x.Violate("join", "%s: joining is answered: %s", when, msg)
			return false
		}
		return w.verify(when + ", joined")
	case "send":
		end := w.busy(true, true, seed)
		ok, msg := w.send(n, o.Addr(), 1+rng.Int63n(w.used(n)+1))
		end()
		if !ok {
			x.Violate("send", "%s: sending to %s is answered: %s", when, o.ID, msg)
		}
	case "two sends":
		end := w.busy(true, false, seed)
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			f, t := n, o
			if i == 1 && k%2 == 0 {
				f, t = o, n
			} else if i == 1 {
				t = others[(k+1)%len(others)]
			}
			size := 1 + rng.Int63n(w.used(f)+1)
			go func() {
				defer wg.Done()
				w.send(f, t.Addr(), size)
			}()
		}
		wg.Wait()
		end()
	case "receiver killed", "sender killed", "suspended", "metadata server killed":
		victim := o
		if kind == "sender killed" {
			victim = n
		} else if kind == "metadata server killed" {
			victim = w.metas[rng.Intn(len(w.metas))]
		} else if kind == "suspended" && rng.Intn(2) == 0 {
			victim = n
		}
		end := w.busy(kind == "suspended" && false, false, seed)
		done := make(chan bool, 1)
		go func() {
			ok := false
			if kind == "receiver killed" && k%2 == 0 {
				ok, _ = w.send(n, o.Addr(), 1<<40)
			} else {
				ok, _ = w.leave(n, false)
			}
			done <- ok
		}()
		time.Sleep(part())
		if kind == "suspended" {
			victim.Signal(syscall.SIGSTOP)
			time.Sleep(time.Duration(100+rng.Intn(600)) * time.Millisecond)
			victim.Signal(syscall.SIGCONT)
		} else {
			victim.Kill9()
			x.Event("kills", 1)
		}
		ok := <-done
		end()
		x.Case(fmt.Sprintf("%s done=%v", kind, ok))
		if kind != "suspended" && !w.again(victim) {
			return false
		}
		waitView(x, w.c, w.api[0])
		w.seen()
		if kind == "suspended" && !ok {
			x.Violate("leave", "%s: leaving failed although all servers run", when)
		}
		if !w.verify(when) {
			return false
		}
		if n != victim || kind == "suspended" {
			if !back() {
				return false
			}
		}
	case "odd requests":
		// to itself, to nobody, to a server that is no object server
		for _, t := range []string{n.Addr(), strings.Replace(n.Addr(), "127.0.0.1", "localhost", 1), "127.0.0.1:1", w.metas[0].Addr(), w.api[0].N.Addr(), ""} {
			ok, msg := w.send(n, t, 1<<40)
			x.Case(fmt.Sprintf("odd target %d", len(t)))
			if ok && w.used(n) > 0 && !strings.HasSuffix(t, n.Addr()[9:]) {
				x.Violate("odd-target", "%s: sending to %q is answered: ok %s", when, t, msg)
			}
			if !w.verify(fmt.Sprintf("%s to %q", when, t)) {
				return false
			}
		}
	case "two leave":
		end := w.busy(false, false, seed)
		var wg sync.WaitGroup
		for _, s := range []*cluster.Node{n, o} {
			wg.Add(1)
			go func(s *cluster.Node) {
				defer wg.Done()
				w.leave(s, false)
			}(s)
		}
		wg.Wait()
		end()
		w.seen()
		if !w.verify(when) {
			return false
		}
		for _, s := range []*cluster.Node{n, o} {
			if ok, msg := w.join(s, false); !ok {
				x.Violate("join", "%s: %s joining again is answered: %s", when, s.ID, msg)
				return false
			}
		}
		w.seen()
	}
	return w.verify(when + ", at the end")
}

func c18(x *Ctx) {
	x.Rule("five object servers with different numbers of drives, objects of all strategies and many sizes, contents shared between names on different metadata servers: servers leave (admin server or gRPC), are shut down, join, send parts to each other, two at a time, to odd targets; senders, receivers and metadata servers are killed or suspended in the middle; objects are read and uploaded meanwhile. Every shard file is compared with what it was, at the place the metadata says, before the first read. Streams that hand over objects wrongly (cut at every point, too short, too long, hostile names, other content). A case is distinct by kind of move, its numbers of drives and how it ended.")
	if os.Getenv("C18RAW") == "" {
		parallelWorlds(x)
	}
	c18raw(x)
}

func parallelWorlds(x *Ctx) {
	nw := 3
	parallel(nw, nw, func(i int) {
		rng := rand.New(rand.NewSource(x.Seed*1000 + int64(i)))
		w := &objWorld{x: x, rng: rng, c: x.Cluster(fmt.Sprint("move", i), false)}
		w.metas = []*cluster.Node{w.c.AddMeta("meta1", M{"hash-slot": M{"slots": []string{"0-8192"}}}), w.c.AddMeta("meta2", M{"hash-slot": M{"slots": []string{"8192-16384"}}})}
		for k := 0; k < 5; k++ {
			over := M{}
			if k%2 == i%2 {
				over = M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}}
			}
			w.srv = append(w.srv, w.c.AddObject(fmt.Sprint("obj", k), 1+(k+i)%3, over))
		}
		obj := M{"distinct-timeout": "200ms", "reed-solomon": M{"data-shards": 2, "parity-shards": 1, "block-per-shard": 4096, "rewrite-async": i == 1},
			"replication": M{"copies-count": 3, "copy-async": i == 1}}
		if i == 1 {
			obj = M{"distinct-timeout": "200ms", "reed-solomon": M{"data-shards": 3, "parity-shards": 1, "block-per-shard": 16384}, "replication": M{"copies-count": 2}}
		}
		w.api = []API{{N: w.c.AddAPI("api1", M{"object": obj})}, {N: w.c.AddAPI("api2", M{"object": obj})}}
		w.admin = Admin{w.c.AddAdmin("admin", nil)}
		if !x.Start(w.c) || !x.MustBucket(w.api[0], Bucket{Name: "b"}) || !x.MustBucket(w.api[0], Bucket{Name: "b2"}) {
			return
		}
		sizes := []int{1, 2, 100, 4096, 12288, 50000, 300000, 1 << 20, 5 << 20}
		var todo []func()
		for k, s := range sizes {
			for _, opts := range []string{"ss=1", "ss=2", "ss=1&compress=true", "ss=2&compress=true"} {
				body := blob(s, int64(len(todo))*2+x.Seed*31+int64(k%2))
				if s == 1 || s == 2 {
					body = []byte(fmt.Sprintf("%c%c", 'a'+len(todo), 'z'))[:s]
				}
				opts, k := opts, k
				todo = append(todo, func() {
					if w.upload(body, "b", opts, true) != nil && k%2 == 0 {
						w.upload(body, "b2", opts, true) // the same content again
					}
				})
			}
		}
		parallel(len(todo), 8, func(i int) { todo[i]() })
		if x.Violated() || !w.verify("at first") {
			return
		}
		x.Logf("%d objects", len(w.objs))
		order := append([]int{0, 1}, append(rng.Perm(10), rng.Perm(20)...)...)
		for _, k := range order {
			if !w.round(k) {
				return
			}
		}
		for j := 0; j < x.Pick(0, 200); j++ {
			if !w.round(rng.Intn(20)) {
				return
			}
		}
		x.CheckAlive(w.c)
	})
}

// c18raw plays senders that break the protocol.
func c18raw(x *Ctx) {
	c := x.Cluster("raw", false)
	c.AddMeta("meta1", nil)
	a := c.AddObject("obj1", 2, nil)
	b := c.AddObject("obj2", 1, M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}})
	api := API{N: c.AddAPI("api1", M{"object": M{"distinct-size": "1GB", "replication": M{"copies-count": 2}}})}
	if !x.Start(c) || !x.MustBucket(api, Bucket{Name: "b"}) {
		return
	}
	osA, osB := OS{a}, OS{b}
	rng := rand.New(rand.NewSource(x.Seed))
	temps := func(when string) {
		if !eventually(5*time.Second, func() bool { return len(tempFiles(a))+len(tempFiles(b)) == 0 }) {
			x.Violate("temp-left", "%s: files stay in the temp directories: %v", when, append(tempFiles(a), tempFiles(b)...))
		}
	}
	// canary: nothing outside the object directories may change
	before := map[*cluster.Node]string{}
	for _, n := range []*cluster.Node{a, b} {
		for _, m := range n.Mounts {
			os.WriteFile(filepath.Join(m, "objects", "canary"), []byte("canary"), 0o644)
			os.WriteFile(filepath.Join(m, "canary"), []byte("canary"), 0o644)
		}
		before[n] = dirNames(n)
	}
	// streams cut, ended early, with too much; the object must not be there (or only in full)
	size := 3 * 5000
	for _, o := range []OS{osA, osB} {
		for i := 0; i < x.Pick(150, 1500); i++ {
			name := fmt.Sprintf("%s.%d", digest([]byte(fmt.Sprint(i, o.N.ID))), i%6)
			body := blob(size, int64(i))
			pieces := 1 + rng.Intn(5)
			sent := rng.Intn(pieces + 1)
			how := []string{"cut", "ended", "complete", "too long", "in use"}[i%5]
			if how == "complete" || how == "too long" || how == "in use" {
				sent = pieces
			}
			s, err := openSend(o.N.Addr())
			if err != nil {
				x.Violate("stream", "opening a stream: %v", err)
				return
			}
			announced := int64(size)
			if how == "too long" {
				announced -= int64(1 + rng.Intn(100))
			}
			partly := func(when string) bool {
				r := o.Get(name, 0, int64(size), false)
				h := o.Head(name)
				x.Event("looks_at_partial", 1)
				if r.Code/100 == 2 || h.Code/100 == 2 {
					x.Violate("partial", "%s of %d: %s: after %s the object is there: %s, %s", name, size, how, when, r, h)
					return false
				}
				if p := locateShard(c, o.N.Addr(), name); p != "" {
					x.Violate("partial", "%s of %d: %s: after %s there is %s", name, size, how, when, p)
					return false
				}
				return true
			}
			for k := 0; k < sent; k++ {
				if s.chunk(name, announced, body[k*size/pieces:(k+1)*size/pieces]) != nil {
					break
				}
				if i%3 == 0 {
					time.Sleep(time.Millisecond)
				}
				if !partly(fmt.Sprintf("%d of %d pieces", k+1, pieces)) {
					return
				}
			}
			ok, msg := false, ""
			if how == "cut" {
				s.cut()
				time.Sleep(5 * time.Millisecond)
			} else {
				ok, msg = s.end()
			}
			whole := how == "complete" || how == "in use" || how == "ended" && sent == pieces
			x.Case(fmt.Sprintf("stream %s %d/%d", how, sent, pieces))
			x.Event("streams", 1)
			if ok != whole && sent > 0 {
				x.Violate("stream-answer", "%s: %d of %d pieces (%s): answered %v %s", name, sent, pieces, how, ok, msg)
				return
			}
			if !whole {
				if !partly("the end") {
					return
				}
			} else if e := sameBody(o.Get(name, 0, int64(size), false), body); e != "" {
				x.Violate("received", "%s: received completely, but reading it: %s", name, e)
				return
			}
			if how == "in use" { // again, the same; another one; another one of another size, or cut; only a complete one of another size takes its place
				for j, other := range [][]byte{body, blob(size, int64(i+7777)), blob(size+1, int64(i+8888)), blob(size-1, int64(i+9999)), {1}} {
					s, err := openSend(o.N.Addr())
					if err != nil {
						x.Violate("stream", "opening a stream: %v", err)
						return
					}
					_ = s.chunk(name, int64(len(other)), other[:len(other)/2])
					if j%2 == i%2 {
						_ = s.chunk(name, int64(len(other)), other[len(other)/2:])
						ok, msg := s.end()
						got := o.Head(name)
						if f, _ := os.Stat(locateShard(c, o.N.Addr(), name)); ok && len(other) != size && (f == nil || f.Size() != int64(len(other))) {
							x.Violate("stream-answer", "%s: an object of %d bytes was sent again with %d and is said to be received (%s), but it is not there: %s", name, size, len(other), msg, got)
							return
						}
					} else {
						time.Sleep(3 * time.Millisecond)
						s.cut()
					}
					time.Sleep(3 * time.Millisecond)
					x.Event("streams", 1)
					if j%2 == i%2 && len(other) != size && sameBody(o.Get(name, 0, int64(len(other)), false), other) == "" {
						// the sizes of compressed objects differ: a complete one replaces another one
						again, err := openSend(o.N.Addr())
						if err != nil {
							x.Violate("stream", "opening a stream: %v", err)
							return
						}
						_ = again.chunk(name, int64(size), body)
						again.end()
						x.Event("replacements", 1)
					}
					if e := sameBody(o.Get(name, 0, int64(size), false), body); e != "" {
						x.Violate("replaced", "%s: an object that is there was sent again with %d bytes instead of %d (case %d): reading it: %s", name, len(other), size, j, e)
						return
					}
				}
			}
		}
		temps("after streams")
		o.checkCapacity(x, "after streams")
	}
	// names that are no object's
	for _, n := range []string{"", ".", "..", "../canary", "../../canary", "a/b.0", "/etc/passwd.0", "../" + a.ID + "_store/x.0", "TempInfo_x.0", "x\x00.0", "sub/../y.0"} {
		for _, o := range []OS{osA, osB} {
			s, err := openSend(o.N.Addr())
			if err != nil {
				x.Violate("stream", "opening a stream: %v", err)
				return
			}
			_ = s.chunk(n, 3, []byte("bad"))
			ok, msg := s.end()
			x.Case("name " + n)
			if ok {
				x.Violate("name", "%s takes an object named %q: %s", o.N.ID, n, msg)
			}
			ok, msg = migCall(o.N.Addr(), "FinishReceive", pbStr(1, n)+pbStr(2, "127.0.0.1:1")+pbInt(3, 3))
			if ok {
				x.Violate("name", "%s finishes receiving an object named %q: %s", o.N.ID, n, msg)
			}
			for _, s := range []*cluster.Node{a, b} {
				if got := dirNames(s); got != before[s] {
					x.Violate("outside", "a name %q changed what is outside the object directory of %s: %s, before %s", n, s.ID, got, before[s])
					return
				}
			}
		}
	}
	temps("after odd names")
	// objects are finished only when they are there with their size; then all their versions know the place
	for i := 0; i < x.Pick(8, 40); i++ {
		body := blob(20000+i, x.Seed*17+int64(i))
		name := fmt.Sprintf("f%d", i)
		if _, r := api.Put("b", name, body, "ss=2"); r.Code != 201 {
			x.Violate("put", "uploading: %s", r)
			return
		}
		m, r := api.Meta("b", name, 0)
		if r.Code != 200 || len(m.Versions) == 0 {
			x.Violate("metadata", "no metadata: %s", r)
			return
		}
		h, loc := m.Versions[0].Hash, m.Versions[0].Locate
		idx := i % len(loc)
		from, to := a, b
		if loc[idx] == b.Addr() {
			from, to = b, a
		}
		key := fmt.Sprintf("%s.%d", h, idx)
		same := func(when string, want []string) {
			m, r := api.Meta("b", name, 0)
			if r.Code != 200 || strings.Join(m.Versions[0].Locate, " ") != strings.Join(want, " ") {
				x.Violate("finish", "%s: the object is said to be at %v (%s), want %v", when, m.Versions, r, want)
			}
		}
		fin := func(size int64) (bool, string) {
			return migCall(to.Addr(), "FinishReceive", pbStr(1, key)+pbStr(2, from.Addr())+pbInt(3, size))
		}
		os.Remove(locateShard(c, to.Addr(), key)) // the other copy has another number, this one is not there
		if ok, msg := fin(int64(len(body))); ok {
			x.Violate("finish", "an object that is not there is finished: %s", msg)
		}
		same("finishing what is not there", loc)
		file, err := os.ReadFile(locateShard(c, from.Addr(), key))
		if err != nil {
			x.Violate("stored", "%v", err)
			return
		}
		s, err := openSend(to.Addr())
		if err != nil {
			x.Violate("stream", "opening a stream: %v", err)
			return
		}
		_ = s.chunk(key, int64(len(file)), file)
		if ok, msg := s.end(); !ok {
			x.Violate("stream-answer", "sending %s: %s", key, msg)
			return
		}
		same("before finishing", loc)
		if ok, msg := fin(int64(len(file)) + 1); ok {
			x.Violate("finish", "an object of another size is finished: %s", msg)
		}
		same("finishing another size", loc)
		if ok, msg := fin(int64(len(file))); !ok {
			x.Violate("finish", "finishing %s: %s", key, msg)
			return
		}
		want := append([]string(nil), loc...)
		want[idx] = to.Addr()
		same("finishing", want)
		x.Event("finishes", 1)
		x.Case(fmt.Sprintf("finish shard %d", idx))
		if e := sameBody(api.Get("b", name, 0, -1), body); e != "" {
			x.Violate("read", "after finishing: %s", e)
		}
		OS{from}.Delete(key)
		if e := sameBody(api.Get("b", name, 0, -1), body); e != "" {
			x.Violate("read", "after finishing and removing: %s", e)
		}
		if x.Violated() {
			return
		}
	}
	x.CheckAlive(c)
}

// tempFiles lists what is in the temp directories of an object server.
func tempFiles(n *cluster.Node) (r []string) {
	_, r, _ = OS{n}.stored()
	return
}

// dirNames describes the files of a server outside the directories it keeps objects and its own data in.
func dirNames(n *cluster.Node) string {
	var r []string
	for _, m := range n.Mounts {
		for _, d := range []string{m, filepath.Join(m, "objects")} {
			l, _ := os.ReadDir(d)
			for _, e := range l {
				r = append(r, filepath.Join(d, e.Name())+"="+map[bool]string{true: fileSum(filepath.Join(d, e.Name()))}[e.Type().IsRegular()])
			}
		}
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}
