package main

import (
	"fmt"
	"io"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"
	"verifharness/cluster"
)

const cap5 = 5 * time.Second

func init() {
	props["C15"] = c15
}

var osSizes = []int{1, 2, 63, 64, 65, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131072, 262143, 300001, 1048576}

type oobj struct {
	name   string
	body   []byte
	zip    bool
	stored bool
}

// osim is the sequential model of one object server. Names stand for contents: a name always has one content.
type osim struct {
	x    *Ctx
	o    OS
	objs []*oobj
}

func (s *osim) checkGet(rng *rand.Rand, ob *oobj, when string) {
	x, n := s.x, int64(len(ob.body))
	offs := []int64{0, 0, 1, 4096, 4095, 8192, n / 2, n - 1, n - n%4096, rng.Int63n(n)}
	off := offs[rng.Intn(len(offs))]
	if off < 0 || off >= n {
		off = 0
	}
	sizes := []int64{n - off, n - off, 1, 1 + rng.Int63n(n-off), 4096, 64}
	size := sizes[rng.Intn(len(sizes))]
	if size > n-off {
		size = n - off
	}
	r := s.o.Get(ob.name, off, size, ob.zip)
	x.Event("reads", 1)
	x.Case(fmt.Sprintf("get stored=%v zip=%v len=%d off%%4096=%d whole=%v", ob.stored, ob.zip, n, off%4096, size == n-off))
	if !ob.stored {
		if r.Err != nil || r.Code/100 == 2 {
			x.Violate("absent-served", "%s: %s is not stored but GET answers %s", when, ob.name, r)
		}
		return
	}
	if e := sameBody(r, ob.body[off:off+size]); e != "" {
		x.Violate("content", "%s: %s (%d bytes, compressed %v) read from %d, %d bytes: %s", when, ob.name, n, ob.zip, off, size, e)
	}
}

func (s *osim) checkHead(ob *oobj, when string) {
	r := s.o.Head(ob.name)
	s.x.Event("heads", 1)
	if r.Err != nil || (r.Code == 200) != ob.stored || (r.Code != 200 && r.Code != 404) {
		s.x.Violate("head", "%s: %s stored=%v, but HEAD answers %s", when, ob.name, ob.stored, r)
	}
}

func (s *osim) checkAll(rng *rand.Rand, when string) {
	for _, ob := range s.objs {
		s.checkHead(ob, when)
		s.checkGet(rng, ob, when)
		if ob.stored {
			if e := sameBody(s.o.Get(ob.name, 0, int64(len(ob.body)), ob.zip), ob.body); e != "" {
				s.x.Violate("content", "%s: %s (%d bytes, compressed %v): %s", when, ob.name, len(ob.body), ob.zip, e)
			}
		}
	}
	want := 0
	for _, ob := range s.objs {
		if ob.stored {
			want++
		}
	}
	objs, temps, twice := s.o.stored()
	if len(objs) != want || len(temps) > 0 || len(twice) > 0 {
		// temporary files go away in the background
		ok := eventually(cap5, func() bool {
			objs, temps, twice = s.o.stored()
			return len(objs) == want && len(temps) == 0 && len(twice) == 0
		})
		if !ok {
			s.x.Violate("files", "%s: %d objects should be stored, there are %d, temporary %v, stored twice %v", when, want, len(objs), temps, twice)
		}
	}
	s.o.checkCapacity(s.x, when)
	s.x.Event("full_comparisons", 1)
}

// oddName gives the i-th of a set of different names: mostly names of shards, several of which share their digest, and names of
// any other shape a file can have.
func oddName(i int, dg string) string {
	switch i % 8 {
	case 1:
		return fmt.Sprintf("%s.%d", digest([]byte(fmt.Sprint("family", i/16))), i%16)
	case 3:
		return fmt.Sprintf("%s.%d", digest([]byte(fmt.Sprint("family", i/32))), 16+i%32)
	case 5:
		n := []string{".hidden@", "~@", "a b @", "#@#", "über,%2C@+x", "UPPER.@", "upper.@", "-@", "x.tmp.@", "@.part", "...@", "TempInfo@", "LocateCache@", "&=?;@", "nul@.", "\"q'@",
			"%41@", "日本@", strings.Repeat("long", 50) + "@"}[i/8%19]
		return strings.Replace(n, "@", fmt.Sprint(i), 1)
	}
	return fmt.Sprintf("%s.%d", dg, i%6)
}

func c15(x *Ctx) {
	x.Rule("seeded histories of put, ranged and whole get, head and delete on one object server with several drives whose order changes between restarts, with and without content cache, against a map; " +
		"kills during puts; concurrent clients on few names judged for linearizability of existence and exactness of content; cut-off puts; names that are no object names, with a file outside the storage as a canary. " +
		"A case is distinct by operation, size class, offset class and compression.")
	c := x.Cluster("c", false)
	nodes := []*cluster.Node{
		c.AddObject("obj0", 3, nil),
		c.AddObject("obj1", 1, M{"cache": M{"max-item-size": "64B", "max-size": "8MB"}}),
		c.AddObject("obj2", 2, M{"cache": M{"max-item-size": "40KB", "max-size": "8MB", "ttl": "1s", "clean-interval": "1s"}}),
	}
	if !x.Start(c) {
		return
	}
	parallel(len(nodes), len(nodes), func(ni int) {
		n := nodes[ni]
		rng := rand.New(rand.NewSource(x.Seed*1000 + int64(ni)))
		s := &osim{x: x, o: OS{n}}
		for i, sz := range osSizes {
			for _, zip := range []bool{false, true} {
				b := blob(sz, int64(i*2+ni*1000)+x.Seed*99991)
				nm := oddName(len(s.objs)+ni*1000, digest(b))
				if zip {
					nm += ".z"
				}
				s.objs = append(s.objs, &oobj{name: nm, body: b, zip: zip})
			}
		}
		for step := 0; step < x.Pick(4500, 60000) && !x.Violated(); step++ {
			ob := s.objs[rng.Intn(len(s.objs))]
			when := fmt.Sprintf("step %d", step)
			switch k := rng.Intn(12); {
			case k < 3:
				r := s.o.Put(ob.name, ob.body, ob.zip)
				if r.Err != nil || r.Code/100 != 2 {
					x.Violate("put", "%s: PUT of %s (%d bytes) answers %s", when, ob.name, len(ob.body), r)
				}
				ob.stored = true
				x.Event("puts", 1)
			case k < 5:
				r := s.o.Delete(ob.name)
				if r.Err != nil || r.Code/100 != 2 {
					x.Violate("delete", "%s: DELETE of %s answers %s", when, ob.name, r)
				}
				ob.stored = false
				x.Event("deletes", 1)
				s.checkHead(ob, when+" after the delete")
				s.checkGet(rng, ob, when+" after the delete")
			case k == 5 && !ob.stored:
				cut := rng.Intn(len(ob.body))
				end := []string{"half", "close"}[rng.Intn(2)]
				r := rawUpload(n, "/objects/"+url.PathEscape(ob.name)+zq(ob.zip), nil, len(ob.body), func(w io.Writer) { w.Write(ob.body[:cut]) }, end)
				if r.Err == nil && r.Code/100 == 2 {
					x.Violate("cut-off-accepted", "%s: PUT of %s cut off after %d of %d bytes answers %s", when, ob.name, cut, len(ob.body), r)
				}
				x.Event("cut_off_puts", 1)
				x.Case(fmt.Sprintf("cut-off %s %d/%d", end, cut/4096, len(ob.body)))
				time.Sleep(5 * time.Millisecond)
				s.checkHead(ob, when+" after a cut-off put")
			case k < 7:
				s.checkHead(ob, when)
			default:
				s.checkGet(rng, ob, when)
			}
			if step%150 == 149 {
				s.checkAll(rng, when)
			}
			if step%300 == 299 && ni < 2 {
				// restart, with the drives in another order; every second time during a put
				var done sync.WaitGroup
				var inflight *oobj
				acked := false
				if step%600 == 599 {
					for _, q := range s.objs {
						if !q.stored && len(q.body) > 50000 {
							inflight = q
						}
					}
				}
				if inflight != nil {
					done.Add(1)
					go func() {
						defer done.Done()
						r := s.o.Put(inflight.name, inflight.body, inflight.zip)
						acked = r.Err == nil && r.Code/100 == 2
					}()
					time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
					n.Kill9()
					done.Wait()
				} else if rng.Intn(2) == 0 {
					n.Kill9()
				} else {
					n.Stop(10 * time.Second)
				}
				ms := append([]string(nil), n.Mounts...)
				rng.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
				n.OrderMounts(ms)
				if err := restart(n); err != nil {
					x.Violate("restart", "%v", err)
					return
				}
				x.Event("restarts", 1)
				if inflight != nil {
					r := s.o.Head(inflight.name)
					inflight.stored = r.Code == 200
					if acked && !inflight.stored {
						x.Violate("lost", "%s: an acknowledged put is lost by a kill", when)
					}
				}
				s.checkAll(rng, fmt.Sprintf("after the restart at step %d", step))
			}
		}
	})
	if x.Violated() {
		return
	}
	for round := 0; round < x.Pick(24, 240) && !x.Violated(); round++ {
		c15conc(x, OS{nodes[round%3]}, round)
	}
	c15names(x, nodes)
	x.CheckAlive(c)
}

type exIn struct{ op string }

var exModel = porcupine.Model{
	Init: func() interface{} { return false },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s := st.(bool)
		switch in.(exIn).op {
		case "put":
			return true, true
		case "delete":
			return true, false
		}
		return out.(bool) == s, s
	},
}

// exRecord collects what concurrent clients saw of the existence of each name.
type exRecord struct {
	mu sync.Mutex
	h  map[string][]porcupine.Operation
	t0 time.Time
}

func (e *exRecord) run(client int, name, op string, f func() (bool, bool)) {
	c := time.Since(e.t0).Nanoseconds()
	out, known := f()
	if !known {
		return
	}
	e.mu.Lock()
	e.h[name] = append(e.h[name], porcupine.Operation{ClientId: client, Input: exIn{op}, Call: c, Output: out, Return: time.Since(e.t0).Nanoseconds()})
	e.mu.Unlock()
}

func (e *exRecord) judge(x *Ctx, what string) {
	for id, h := range e.h {
		res, _ := porcupine.CheckOperationsVerbose(exModel, h, 5*time.Second)
		x.Event("histories_checked", 1)
		x.Event("operations_checked", int64(len(h)))
		if res == porcupine.Illegal {
			t := ""
			for _, o := range h {
				t += fmt.Sprintf("\n  [%d,%d] client %d %+v -> %+v", o.Call/1000, o.Return/1000, o.ClientId, o.Input, o.Output)
			}
			x.Logf("history of %s:%s", id, t)
			x.Violate("not-linearizable", "%s: what clients saw of the existence of %s (%d operations, in the trace) agrees with no order of the operations", what, id, len(h))
		}
	}
}

// c15conc: concurrent clients on few names.
func c15conc(x *Ctx, o OS, round int) {
	rng := rand.New(rand.NewSource(x.Seed*77 + int64(round)))
	var obs []*oobj
	for i := 0; i < 4; i++ {
		b := blob(osSizes[rng.Intn(len(osSizes))], int64(round*10+i)+x.Seed*31337)
		obs = append(obs, &oobj{name: fmt.Sprintf("conc%d.%d", round, i), body: b, zip: i%2 == 1})
	}
	rec := &exRecord{h: map[string][]porcupine.Operation{}, t0: time.Now()}
	parallel(8, 8, func(cl int) {
		rng := rand.New(rand.NewSource(x.Seed*7 + int64(round*100+cl)))
		for k := 0; k < 22; k++ {
			ob := obs[rng.Intn(len(obs))]
			switch rng.Intn(6) {
			case 0, 1:
				rec.run(cl, ob.name, "put", func() (bool, bool) {
					r := o.Put(ob.name, ob.body, ob.zip)
					if r.Err != nil || r.Code/100 != 2 {
						x.Violate("put", "concurrent PUT of %s answers %s", ob.name, r)
					}
					return true, true
				})
			case 2:
				rec.run(cl, ob.name, "delete", func() (bool, bool) {
					r := o.Delete(ob.name)
					if r.Err != nil || r.Code/100 != 2 {
						x.Violate("delete", "concurrent DELETE of %s answers %s", ob.name, r)
					}
					return true, true
				})
			case 3:
				rec.run(cl, ob.name, "head", func() (bool, bool) { r := o.Head(ob.name); return r.Code == 200, r.Err == nil })
			default:
				rec.run(cl, ob.name, "get", func() (bool, bool) {
					r := o.Get(ob.name, 0, int64(len(ob.body)), ob.zip)
					if r.Code == 200 {
						if e := sameBody(r, ob.body); e != "" {
							x.Violate("content", "concurrent GET of %s: %s", ob.name, e)
						}
					}
					return r.Code == 200, r.Err == nil
				})
			}
		}
	})
	rec.judge(x, fmt.Sprintf("%s round %d", o.N.ID, round))
	x.Case(fmt.Sprintf("concurrent round %d on %s", round, o.N.ID))
	for _, ob := range obs {
		if h := o.Head(ob.name); h.Code == 200 {
			if e := sameBody(o.Get(ob.name, 0, int64(len(ob.body)), ob.zip), ob.body); e != "" {
				x.Violate("content", "after concurrent use, %s: %s", ob.name, e)
			}
		} else if g := o.Get(ob.name, 0, int64(len(ob.body)), ob.zip); g.Code == 200 {
			x.Violate("absent-served", "after concurrent use HEAD says %s is absent, GET serves it", ob.name)
		}
		o.Delete(ob.name)
	}
	o.checkCapacity(x, "after concurrent use")
}

// tree lists everything below dir with sizes, but for the path cache of the server (a log-structured database).
func tree(dir string) map[string]string {
	res := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasSuffix(p, "_path-cache") {
			return filepath.SkipDir
		}
		if fi.IsDir() {
			res[p] = "dir"
		} else {
			res[p] = fmt.Sprint(fi.Size())
		}
		return nil
	})
	return res
}

// c15names: names that are no object names do nothing outside the storage.
func c15names(x *Ctx, nodes []*cluster.Node) {
	for _, n := range nodes {
		o := OS{n}
		for name := range func() map[string]int64 { m, _, _ := o.stored(); return m }() {
			o.Delete(name)
		}
		canary := filepath.Join(n.Mounts[0], "canary.txt")
		secret := []byte("canary " + strings.Repeat("secret", 20))
		os.WriteFile(canary, secret, 0o644)
		o.Put("real.0", blob(5000, 1), false)
		before := tree(filepath.Dir(n.Mounts[0]))
		id, _ := o.TPost("x.0", 5000)
		bad := []string{".", "..", "...", "%2e%2e", "%2e", "..%2f..%2fcanary.txt", "..%2f..%2f..%2fcanary.txt", "%2e%2e%2fcanary.txt", url.PathEscape(canary),
			"LocateCache%23victim.0", "LocateCache%23real.0", "a%00b", "%00", strings.Repeat("n", 300), id, "TempInfo_x", "a/b", "real.0/", "real.0%2f", "real.0%2f..%2freal.0", "%5c", ".%2freal.0", "*", "~", "$HOME", "real.0%00"}
		payload := []byte(canary)
		for _, b := range bad {
			for _, m := range []string{"PUT", "HEAD", "GET", "DELETE", "POST"} {
				path := "/objects/" + b
				hdr := map[string]string{":method": m, "Size": fmt.Sprint(len(secret))}
				cl := -1
				if m == "PUT" {
					cl = len(payload)
				}
				if m == "POST" {
					path = "/temp/" + b
				}
				r := rawUpload(n, path, hdr, cl, func(w io.Writer) {
					if m == "PUT" {
						w.Write(payload)
					}
				}, "wait")
				x.Case(fmt.Sprintf("name %s %s", m, b))
				x.Event("hostile_names", 1)
				if strings.Contains(string(r.Body), "secretsecret") {
					x.Violate("escape-read", "%s %s serves a file outside the storage", m, path)
				}
				if m == "POST" && r.Code == 200 {
					t := string(r.Body)
					if i := strings.Index(t, "TempInfo_"); i >= 0 {
						t = t[i:]
						if j := strings.IndexAny(t, "\r\n"); j >= 0 {
							t = t[:j]
						}
						o.TPatch(t, payload)
						o.TCommit(t, false)
						o.TDelete(t)
					}
				}
			}
			// a name another request could make the server take for the place of an object
			for _, v := range []string{"victim.0", "real.0"} {
				g := o.Get(v, 0, int64(len(secret)), false)
				if strings.Contains(string(g.Body), "secretsecret") {
					x.Violate("escape-read", "after requests for %q, GET of %s serves a file outside the storage", b, v)
				}
			}
			o.Delete("victim.0")
		}
		o.TDelete(id)
		for nm := range func() map[string]int64 { m, _, _ := o.stored(); return m }() {
			if nm != "real.0" {
				o.Delete(nm) // harmless names are objects like any other
			}
		}
		var diff []string
		eventually(cap5, func() bool {
			diff = nil
			after := tree(filepath.Dir(n.Mounts[0]))
			for p, v := range before {
				if after[p] != v && !strings.HasSuffix(p, "log.txt") {
					diff = append(diff, fmt.Sprintf("%s %s -> %q", p, v, after[p]))
				}
			}
			for p, v := range after {
				if _, ok := before[p]; !ok && !strings.HasPrefix(p, n.Dir) {
					diff = append(diff, fmt.Sprintf("new %s %s", p, v))
				}
			}
			return len(diff) == 0
		})
		if len(diff) > 0 {
			x.Violate("escape", "requests with names that are no object names changed: %s", strings.Join(diff[:minInt(5, len(diff))], "; "))
		}
		if e := sameBody(o.Get("real.0", 0, 5000, false), blob(5000, 1)); e != "" {
			x.Violate("escape", "requests with names that are no object names changed an object: %s", e)
		}
		o.checkCapacity(x, "after requests with names that are no object names")
	}
}
