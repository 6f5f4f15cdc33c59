package main

import (
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"sort"
	"sync"
	"time"

	"verifharness/cluster"
)

func init() {
	props["C16"] = c16
	props["C17"] = c17
}

// otemp is one temporary object of the model.
type otemp struct {
	id, name string
	size     int64
	body     []byte // everything that will be sent
	sent     int64
	born     time.Time
	gone     string // why the id must be refused
}

// tsim is the sequential model of one object server's temporary objects.
type tsim struct {
	x     *Ctx
	n     *cluster.Node
	o     OS
	rng   *rand.Rand
	tag   int64
	temps []*otemp
	objs  []*oobj // committed or deleted
	dead  []*otemp
}

func (s *tsim) live(t *otemp) bool { return t.gone == "" }

// step of a multiple of 4 KB, the last one takes the rest
func (s *tsim) next(t *otemp) int64 {
	left := int64(len(t.body)) - t.sent
	n := int64(4096 * (1 + s.rng.Intn(8)))
	if s.rng.Intn(4) == 0 { // more than what is written at once
		n = int64(4096 * (8 + s.rng.Intn(56)))
	}
	if n >= left {
		return left
	}
	return n
}

func (s *tsim) post() {
	s.tag++
	sz := osSizes[s.rng.Intn(len(osSizes))]
	b := blob(sz, s.tag+s.x.Seed*771)
	name := oddName(int(s.tag), fmt.Sprintf("%s-%d", digest(b), s.tag))
	id, r := s.o.TPost(name, int64(sz))
	if r.Err != nil || r.Code != 200 || id == "" {
		s.x.Violate("post", "POST of a temporary object of %d bytes answers %s", sz, r)
		return
	}
	for _, t := range append(s.temps, s.dead...) {
		if t.id == id {
			s.x.Violate("id-reused", "two temporary objects got the id %s", id)
		}
	}
	s.temps = append(s.temps, &otemp{id: id, name: name, size: int64(sz), body: b, born: time.Now()})
	s.x.Event("posts", 1)
}

func (s *tsim) check(t *otemp, when string) {
	x := s.x
	n, r := s.o.THead(t.id)
	x.Event("heads", 1)
	if r.Err != nil || r.Code != 200 || n != t.sent {
		x.Violate("size", "%s: %d of %d bytes of a temporary object are acknowledged, HEAD answers size %d, %s", when, t.sent, t.size, n, r)
	}
	if t.sent > 0 {
		k := t.sent
		if s.rng.Intn(2) == 0 {
			k = 1 + s.rng.Int63n(t.sent)
		}
		if e := sameBody(s.o.TGet(t.id, k), t.body[:k]); e != "" {
			x.Violate("content", "%s: reading %d of the %d acknowledged bytes of a temporary object: %s", when, k, t.sent, e)
		}
		x.Event("reads", 1)
	}
	if h := s.o.Head(t.name); h.Err != nil || h.Code != 404 {
		x.Violate("visible", "%s: a temporary object that is not committed is visible as an object: HEAD answers %s", when, h)
	}
}

// refused: no request with the id of a temporary object that is gone succeeds.
func (s *tsim) refused(t *otemp, when string) {
	x := s.x
	_, h := s.o.THead(t.id)
	for op, r := range map[string]Resp{"HEAD": h, "GET": s.o.TGet(t.id, 1), "PATCH": s.o.TPatch(t.id, t.body[:1]), "commit": s.o.TCommit(t.id, s.rng.Intn(2) == 0), "DELETE": s.o.TDelete(t.id)} {
		x.Event("dead_ids_tried", 1)
		x.Case(fmt.Sprintf("dead id %s: %s", t.gone, op))
		if r.Err != nil || r.Code < 400 || r.Code >= 500 {
			x.Violate("dead-id", "%s: %s of a temporary object that was %s answers %s", when, op, t.gone, r)
		}
	}
}

func (s *tsim) end(t *otemp, why string) {
	t.gone = why
	for i, q := range s.temps {
		if q == t {
			s.temps = append(s.temps[:i], s.temps[i+1:]...)
			break
		}
	}
	s.dead = append(s.dead, t)
	if len(s.dead) > 40 {
		s.dead = s.dead[20:]
	}
}

// audit: files, used space, objects.
func (s *tsim) audit(when string) {
	x := s.x
	want, wantTemps := 0, 0
	for _, ob := range s.objs {
		if ob.stored {
			want++
		}
	}
	for _, t := range s.temps {
		if t.sent > 0 {
			wantTemps++
		}
	}
	var objs map[string]int64
	var temps, twice []string
	ok := eventually(cap5, func() bool {
		objs, temps, twice = s.o.stored()
		return len(objs) == want && len(twice) == 0 && len(temps) == wantTemps
	})
	if !ok {
		sort.Strings(temps)
		x.Violate("files", "%s: %d objects and %d temporary files should be stored, there are %d and %d %v, stored twice %v", when, want, wantTemps, len(objs), len(temps), temps[:minInt(len(temps), 5)], twice)
	}
	for _, ob := range s.objs {
		if h := s.o.Head(ob.name); h.Err != nil || (h.Code == 200) != ob.stored {
			x.Violate("object", "%s: committed object stored=%v, HEAD answers %s", when, ob.stored, h)
		}
		if ob.stored {
			if e := sameBody(s.o.Get(ob.name, 0, int64(len(ob.body)), ob.zip), ob.body); e != "" {
				x.Violate("object", "%s: committed object of %d bytes, compressed %v: %s", when, len(ob.body), ob.zip, e)
			}
			x.Event("objects_read", 1)
		}
	}
	s.o.checkCapacity(x, when)
	x.Event("audits", 1)
}

func (s *tsim) run(steps int, restarts bool) {
	x, rng := s.x, s.rng
	for st := 0; st < steps && !x.Violated(); st++ {
		when := fmt.Sprintf("%s step %d", s.n.ID, st)
		if len(s.temps) == 0 || (len(s.temps) < 12 && rng.Intn(6) == 0) {
			s.post()
			continue
		}
		t := s.temps[rng.Intn(len(s.temps))]
		left := int64(len(t.body)) - t.sent
		switch k := rng.Intn(14); {
		case k < 5 && left > 0:
			n := s.next(t)
			r := s.o.TPatch(t.id, t.body[t.sent:t.sent+n])
			if r.Err != nil || r.Code != 200 {
				x.Violate("patch", "%s: PATCH of %d bytes at %d of %d answers %s", when, n, t.sent, t.size, r)
			}
			t.sent += n
			x.Event("patches", 1)
			x.Case(fmt.Sprintf("patch unaligned=%v pages=%d first=%v last=%v", n%4096 != 0, (n+4095)/4096, t.sent == n, n == left))
			s.check(t, when+" after a patch")
		case k < 7 && left > 0:
			// a patch that is cut off leaves what was there before
			n := s.next(t)
			cut := rng.Int63n(n)
			if rng.Intn(3) == 0 {
				cut = cut / 4096 * 4096
			}
			end := []string{"half", "close"}[rng.Intn(2)]
			r := rawUpload(s.n, "/temp/"+t.id, map[string]string{":method": "PATCH"}, int(n), func(w io.Writer) { w.Write(t.body[t.sent : t.sent+cut]) }, end)
			if r.Err == nil && r.Code/100 == 2 {
				x.Violate("cut-off-accepted", "%s: a PATCH cut off after %d of %d bytes answers %s", when, cut, n, r)
			}
			x.Event("cut_off_patches", 1)
			x.Case(fmt.Sprintf("cut-off patch %s aligned=%v first=%v none=%v", end, cut%4096 == 0, t.sent == 0, cut == 0))
			eventually(2*time.Second, func() bool { h, _ := s.o.THead(t.id); return h == t.sent })
			if end == "close" {
				time.Sleep(10 * time.Millisecond)
				eventually(2*time.Second, func() bool { h, _ := s.o.THead(t.id); return h == t.sent })
			}
			s.check(t, when+" after a cut-off patch")
			if t.sent == 0 {
				// the file may exist, empty: make sure by sending something
				n := s.next(t)
				if r := s.o.TPatch(t.id, t.body[:n]); r.Err != nil || r.Code != 200 {
					x.Violate("patch", "%s: PATCH after a cut-off one answers %s", when, r)
				}
				t.sent = n
				s.check(t, when+" after repeating a cut-off patch")
			}
		case k < 10:
			zip := rng.Intn(2) == 0
			r := s.o.TCommit(t.id, zip)
			x.Event("commits", 1)
			x.Case(fmt.Sprintf("commit zip=%v sent=%d whole=%v", zip, t.sent/4096, left == 0))
			if t.sent == 0 {
				if r.Err != nil || r.Code/100 != 4 {
					x.Violate("commit", "%s: commit of a temporary object without content answers %s", when, r)
				}
				s.o.TDelete(t.id)
				s.end(t, "deleted")
				break
			}
			if r.Err != nil || r.Code/100 != 2 {
				x.Violate("commit", "%s: commit of %d of %d bytes (compress %v) answers %s", when, t.sent, t.size, zip, r)
			}
			ob := &oobj{name: t.name, body: t.body[:t.sent], zip: zip, stored: true}
			s.objs = append(s.objs, ob)
			s.end(t, "committed")
			if e := sameBody(s.o.Get(ob.name, 0, int64(len(ob.body)), zip), ob.body); e != "" {
				x.Violate("object", "%s: just committed %d bytes (compress %v): %s", when, len(ob.body), zip, e)
			}
			if rng.Intn(3) == 0 {
				s.refused(t, when)
				if e := sameBody(s.o.Get(ob.name, 0, int64(len(ob.body)), zip), ob.body); e != "" {
					x.Violate("object", "%s: after requests with its spent id: %s", when, e)
				}
			}
		case k == 10:
			if r := s.o.TDelete(t.id); r.Err != nil || r.Code/100 != 2 {
				x.Violate("delete", "%s: DELETE of a temporary object answers %s", when, r)
			}
			s.end(t, "deleted")
			s.refused(t, when)
			if h := s.o.Head(t.name); h.Code != 404 {
				x.Violate("visible", "%s: a deleted temporary object is visible as an object: HEAD answers %s", when, h)
			}
			x.Event("deletes", 1)
		case k == 11 && len(s.objs) > 0:
			// a second commit of the same name: the first one stays
			ob := s.objs[rng.Intn(len(s.objs))]
			if !ob.stored || rng.Intn(2) == 0 {
				if ob.stored {
					s.o.Delete(ob.name)
					ob.stored = false
				}
				break
			}
			id, r := s.o.TPost(ob.name, int64(len(ob.body)))
			if r.Code != 200 {
				x.Violate("post", "%s: POST for an existing name answers %s", when, r)
			}
			s.o.TPatch(id, ob.body)
			if r = s.o.TCommit(id, ob.zip); r.Err != nil || r.Code/100 != 2 {
				x.Violate("commit", "%s: commit for an existing name answers %s", when, r)
			}
			x.Event("commits_of_existing_names", 1)
			x.Case(fmt.Sprintf("commit of an existing name zip=%v", ob.zip))
			s.dead = append(s.dead, &otemp{id: id, name: ob.name, body: ob.body, gone: "committed"})
			if e := sameBody(s.o.Get(ob.name, 0, int64(len(ob.body)), ob.zip), ob.body); e != "" {
				x.Violate("object", "%s: after a second commit of its name: %s", when, e)
			}
		case k == 12 && len(s.dead) > 0:
			s.refused(s.dead[rng.Intn(len(s.dead))], when)
		default:
			s.check(t, when)
		}
		if st%120 == 119 {
			s.audit(when)
		}
		if restarts && st%240 == 239 {
			if rng.Intn(2) == 0 {
				s.n.Kill9()
			} else {
				s.n.Stop(10 * time.Second)
			}
			ms := append([]string(nil), s.n.Mounts...)
			rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
			s.n.OrderMounts(ms)
			if err := restart(s.n); err != nil {
				x.Violate("restart", "%v", err)
				return
			}
			x.Event("restarts", 1)
			for _, t := range append([]*otemp(nil), s.temps...) {
				s.end(t, "lost by a restart")
				s.refused(t, when+" after a restart")
			}
			s.audit(when + " after a restart")
		}
	}
}

func c16(x *Ctx) {
	x.Rule("seeded histories of post, aligned and last patches, patches cut off at any byte, head, read, commit (plain and compressed, of new and of existing names), delete, use of spent ids and restarts on one object server, against a model; " +
		"expiry on a server with a short lifetime; concurrent commits, deletes and patches of many ids. " +
		"A case is distinct by operation, alignment and position of the patch, or by reason why the id is spent.")
	c := x.Cluster("c", false)
	nodes := []*cluster.Node{
		c.AddObject("obj0", 3, nil),
		c.AddObject("obj1", 1, M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}}),
	}
	busy := c.AddObject("obj3", 2, M{"cache": M{"max-size": "8MB"}})
	short := c.AddObject("obj2", 2, M{"cache": M{"ttl": "2s", "clean-interval": "1s"}})
	if !x.Start(c) {
		return
	}
	parallel(4, 4, func(i int) {
		if i >= 2 {
			[]func(*Ctx, *cluster.Node){c16expiry, c16busy}[i-2](x, []*cluster.Node{short, busy}[i-2])
			return
		}
		s := &tsim{x: x, n: nodes[i], o: OS{nodes[i]}, rng: rand.New(rand.NewSource(x.Seed*50 + int64(i))), tag: int64(i) * 1000000}
		s.run(x.Pick(3400, 60000), true)
	})
	for round := 0; round < x.Pick(8, 80) && !x.Violated(); round++ {
		c16conc(x, OS{nodes[round%2]}, round)
	}
	x.CheckAlive(c)
}

// c16expiry: an upload nobody continues disappears as a whole.
func c16expiry(x *Ctx, n *cluster.Node) {
	for round := 0; round < x.Pick(2, 10) && !x.Violated(); round++ {
		s := &tsim{x: x, n: n, o: OS{n}, rng: rand.New(rand.NewSource(x.Seed*60 + int64(round))), tag: int64(round+7) * 1000000}
		var ts []*otemp
		for i := 0; i < 60; i++ {
			s.post()
		}
		if len(s.temps) != 60 {
			return
		}
		ts = append(ts, s.temps...)
		parallel(60, 6, func(i int) {
			t := ts[i]
			if i%5 > 0 {
				k := int64(len(t.body))
				if i%5 > 2 && k > 4096 {
					k = k / 2 / 4096 * 4096
				}
				if k > 0 {
					if r := s.o.TPatch(t.id, t.body[:k]); r.Err != nil || r.Code != 200 {
						x.Violate("patch", "PATCH answers %s", r)
					}
					t.sent = k
				}
			}
		})
		if time.Since(ts[0].born) < 1500*time.Millisecond {
			for _, t := range ts[:10] {
				if time.Since(ts[0].born) < 1500*time.Millisecond {
					s.check(t, "before the expiry")
				}
			}
		}
		_, temps, _ := s.o.stored()
		x.Event("temp_files_before_expiry", int64(len(temps)))
		time.Sleep(3200*time.Millisecond - time.Since(ts[0].born))
		ok := eventually(cap5, func() bool { _, temps, _ = s.o.stored(); return len(temps) == 0 })
		if !ok {
			x.Violate("expiry", "%d of 60 temporary files are left 5 s after their uploads expired", len(temps))
		}
		for _, t := range ts {
			t.gone = "expired"
			s.refused(t, "after the expiry")
			if h := s.o.Head(t.name); h.Code != 404 {
				x.Violate("visible", "an expired upload is visible as an object: HEAD answers %s", h)
			}
			x.Event("expired", 1)
		}
		s.o.checkCapacity(x, "after the expiry")
		if objs, temps, _ := s.o.stored(); len(objs)+len(temps) > 0 {
			x.Violate("expiry", "after the expiry %d objects and %d temporary files are left", len(objs), len(temps))
		}
	}
}

// c16busy: uploads outlive any amount of other use of the server within their lifetime.
func c16busy(x *Ctx, n *cluster.Node) {
	s := &tsim{x: x, n: n, o: OS{n}, rng: rand.New(rand.NewSource(x.Seed * 80)), tag: 9000000}
	for i := 0; i < 50; i++ {
		s.post()
	}
	for i, t := range s.temps {
		if i%3 > 0 {
			k := s.next(t)
			if r := s.o.TPatch(t.id, t.body[:k]); r.Err != nil || r.Code != 200 {
				x.Violate("patch", "PATCH answers %s", r)
			}
			t.sent = k
		}
	}
	total := x.Pick(5000, 40000)
	parallel(total, 4, func(i int) {
		b := blob([]int{100, 3000, 5000, 20000}[i%4], int64(i)+x.Seed*1313)
		name := fmt.Sprintf("busy%d.0", i)
		s.o.Put(name, b, false)
		if i%3 == 0 {
			if e := sameBody(s.o.Get(name, 0, int64(len(b)), false), b); e != "" {
				x.Violate("object", "object of %d bytes on a busy server: %s", len(b), e)
			}
		}
		if i%2 == 0 {
			s.o.Delete(name)
		}
		x.Event("other_operations", 1)
	})
	for _, t := range append([]*otemp(nil), s.temps...) {
		s.check(t, "after other use of the server")
		left := int64(len(t.body)) - t.sent
		if left > 0 {
			if r := s.o.TPatch(t.id, t.body[t.sent:]); r.Err != nil || r.Code != 200 {
				x.Violate("patch", "continuing after other use of the server: PATCH answers %s", r)
				return
			}
			t.sent += left
		}
		if r := s.o.TCommit(t.id, false); r.Err != nil || r.Code/100 != 2 {
			x.Violate("commit", "after other use of the server: commit answers %s", r)
			return
		}
		if e := sameBody(s.o.Get(t.name, 0, int64(len(t.body)), false), t.body); e != "" {
			x.Violate("object", "committed after other use of the server: %s", e)
		}
		x.Case("commit on a busy server")
	}
	s.o.checkCapacity(x, "after busy use")
}

// c16conc: many clients, each with its own uploads, several of which carry the same object; some compete for one id.
func c16conc(x *Ctx, o OS, round int) {
	objs0, _, _ := o.stored()
	type shared struct {
		oobj
		mu        sync.Mutex
		committed bool
	}
	var obs []*shared
	for i := 0; i < 12; i++ {
		b := blob(osSizes[(i*7+round)%len(osSizes)], int64(round*100+i)+x.Seed*424243)
		obs = append(obs, &shared{oobj: oobj{name: fmt.Sprintf("cc%d.%d.%d", x.Seed, round, i), body: b, zip: i%2 == 0}})
	}
	parallel(8, 8, func(cl int) {
		rng := rand.New(rand.NewSource(x.Seed*70 + int64(round*10+cl)))
		for k := 0; k < 14 && !x.Violated(); k++ {
			ob := obs[rng.Intn(len(obs))]
			id, r := o.TPost(ob.name, int64(len(ob.body)))
			if r.Err != nil || r.Code != 200 {
				x.Violate("post", "concurrent POST answers %s", r)
				return
			}
			for at := 0; at < len(ob.body); {
				n := minInt(4096*(1+rng.Intn(40)), len(ob.body)-at)
				if r := o.TPatch(id, ob.body[at:at+n]); r.Err != nil || r.Code != 200 {
					x.Violate("patch", "concurrent PATCH answers %s", r)
					return
				}
				at += n
			}
			switch rng.Intn(4) {
			case 0:
				o.TDelete(id)
				x.Event("concurrent_deletes", 1)
			case 1:
				// two requests compete for the id: it is committed at most once, and whole
				parallel(2, 2, func(j int) {
					var r Resp
					if j == 0 {
						r = o.TCommit(id, ob.zip)
						if r.Err == nil && r.Code/100 == 2 {
							ob.mu.Lock()
							ob.committed = true
							ob.mu.Unlock()
						}
					} else {
						r = o.TDelete(id)
					}
					if r.Err != nil {
						x.Violate("competing", "competing commit and delete: %d answers %s", j, r)
					}
				})
				x.Event("competing_commit_delete", 1)
				ob.mu.Lock()
				if h := o.Head(ob.name); h.Code == 200 {
					ob.committed = true
				}
				ob.mu.Unlock()
			default:
				if r := o.TCommit(id, ob.zip); r.Err != nil || r.Code/100 != 2 {
					x.Violate("commit", "concurrent commit answers %s", r)
					return
				}
				ob.mu.Lock()
				ob.committed = true
				ob.mu.Unlock()
				x.Event("concurrent_commits", 1)
				if e := sameBody(o.Get(ob.name, 0, int64(len(ob.body)), ob.zip), ob.body); e != "" {
					x.Violate("object", "after a concurrent commit: %s", e)
				}
			}
		}
	})
	x.Case(fmt.Sprintf("concurrent uploads round %d on %s", round, o.N.ID))
	want := len(objs0)
	for _, ob := range obs {
		h := o.Head(ob.name)
		if (h.Code == 200) != ob.committed {
			x.Violate("object", "after concurrent uploads committed=%v, HEAD answers %s", ob.committed, h)
		}
		if ob.committed {
			want++
			if e := sameBody(o.Get(ob.name, 0, int64(len(ob.body)), ob.zip), ob.body); e != "" {
				x.Violate("object", "after concurrent uploads: %s", e)
			}
		}
	}
	var objs map[string]int64
	var temps, twice []string
	if !eventually(cap5, func() bool {
		objs, temps, twice = o.stored()
		return len(objs) == want && len(twice) == 0
	}) {
		x.Violate("files", "after concurrent uploads %d objects should be stored, there are %d, stored twice %v", want, len(objs), twice)
	}
	_ = temps
	o.checkCapacity(x, "after concurrent uploads")
}

func c17(x *Ctx) {
	x.Rule("the used space an object server reports is compared with the sizes of its object files whenever nothing runs: after seeded concurrent rounds of puts, repeated puts, uploads committed plain and compressed, competing puts and commits of one name, deletes, repeated deletes, " +
		"cut-off puts, puts without room, and after kills at any moment of such a round and the restart. A case is distinct by the kinds of operation in the round and by what ended it.")
	c := x.Cluster("c", false)
	nodes := []*cluster.Node{
		c.AddObject("obj0", 3, nil),
		c.AddObject("obj1", 1, M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}}),
		c.AddObject("obj2", 2, M{"cache": M{"max-item-size": "1MB", "max-size": "8MB", "ttl": "1s", "clean-interval": "1s"}}),
	}
	if !x.Start(c) {
		return
	}
	parallel(3, 3, func(ni int) {
		n := nodes[ni]
		o := OS{n}
		var obs []*oobj
		for i := 0; i < 40; i++ {
			b := blob(osSizes[(i*3+ni)%len(osSizes)], int64(i+ni*1000)+x.Seed*5557)
			obs = append(obs, &oobj{name: oddName(i*3+ni, digest(b)), body: b, zip: i%3 == 0})
		}
		for round := 0; round < x.Pick(60, 1000) && !x.Violated(); round++ {
			rng := rand.New(rand.NewSource(x.Seed*90 + int64(ni*1000+round)))
			kinds := 1 + rng.Intn(63)
			few := obs
			if rng.Intn(2) == 0 {
				few = obs[rng.Intn(30):][:4]
			}
			kill := rng.Intn(3) == 0
			var wg sync.WaitGroup
			stop := make(chan bool)
			for cl := 0; cl < 8; cl++ {
				wg.Add(1)
				go func(cl int) {
					defer wg.Done()
					rng := rand.New(rand.NewSource(x.Seed*91 + int64(ni*100000+round*10+cl)))
					for k := 0; k < 25; k++ {
						select {
						case <-stop:
							return
						default:
						}
						ob := few[rng.Intn(len(few))]
						op := rng.Intn(6)
						for kinds&(1<<op) == 0 {
							op = (op + 1) % 6
						}
						x.Event("operations", 1)
						switch op {
						case 0:
							o.Put(ob.name, ob.body, ob.zip)
						case 1:
							o.Delete(ob.name)
						case 2, 3:
							if id, r := o.TPost(ob.name, int64(len(ob.body))); r.Code == 200 {
								o.TPatch(id, ob.body)
								if op == 2 || rng.Intn(2) == 0 {
									o.TCommit(id, ob.zip)
								} else {
									o.TDelete(id)
								}
							}
						case 4:
							cut := rng.Intn(len(ob.body))
							rawUpload(n, "/objects/"+url.PathEscape(ob.name)+zq(ob.zip), nil, len(ob.body), func(w io.Writer) { w.Write(ob.body[:cut]) }, "half")
						case 5:
							o.Get(ob.name, 0, 1, ob.zip)
						}
					}
				}(cl)
			}
			if kill {
				time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
				n.Kill9()
				close(stop)
			}
			wg.Wait()
			when := fmt.Sprintf("%s round %d", n.ID, round)
			x.Case(fmt.Sprintf("kinds %06b few=%v kill=%v", kinds, len(few) == 4, kill))
			x.Event("rounds", 1)
			if !kill {
				o.checkCapacity(x, when)
				if rng.Intn(2) == 0 {
					continue
				}
				n.Stop(10 * time.Second)
			}
			if err := restart(n); err != nil {
				x.Violate("restart", "%v", err)
				return
			}
			x.Event("restarts", 1)
			o.checkCapacity(x, when+" and a restart")
			if _, temps, twice := o.stored(); len(twice) > 0 || len(temps) > 0 {
				x.Violate("files", "%s and a restart: temporary files %v, stored twice %v", when, temps, twice)
			}
		}
		// everything deleted: nothing is used
		for _, ob := range obs {
			o.Delete(ob.name)
			o.Delete(ob.name)
		}
		o.checkCapacity(x, n.ID+" after deleting everything")
		if v := capacityOf(n); v != 0 {
			x.Violate("capacity", "%s reports %d bytes used after everything was deleted", n.ID, v)
		}
	})
	x.CheckAlive(c)
}
