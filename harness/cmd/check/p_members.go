package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verifharness/cluster"
)

// C19: the registrations and views of the packages on their own (in c19), and of real servers that are started,
// stopped, killed and moved to other addresses while leases and etcd get lost.

func init() {
	props["C19"] = func(x *Ctx) {
		x.Rule("registrations, leases and views against what the stand-in for etcd holds once disturbances have ended, for random histories of joins, leaves, crashes, lease losses and failures of etcd (under the race detector); the same for real servers, whose views show in where they store objects")
		x.inproc("c19", 12*time.Minute)
		for i := 0; i < x.Pick(1, 10) && !x.Violated(); i++ {
			members(x, i)
		}
	}
}

// registeredServers returns "id addr" of all registered servers of a kind, and the ids registered more than once.
func registeredServers(c *cluster.Cluster, kind string) (l, masters []string) {
	prefix := c.Group + "/registry/" + kind + "/"
	for _, e := range c.Etcd.Entries(prefix) {
		id := strings.TrimPrefix(e.Key, prefix)
		if strings.HasSuffix(id, "_master") {
			masters = append(masters, strings.TrimSuffix(id, "_master"))
		}
		l = append(l, strings.TrimSuffix(strings.TrimSuffix(id, "_master"), "_slave")+" "+e.Value)
	}
	sort.Strings(l)
	return
}

func members(x *Ctx, round int) {
	rng := rand.New(rand.NewSource(x.Seed*977 + int64(round)))
	c := x.Cluster(fmt.Sprintf("c%d", round), false)
	metas := c.AddMetaGroup("g", 3, nil)
	var objs []*cluster.Node
	for i := 0; i < 4; i++ {
		objs = append(objs, c.AddObject([]string{"o", "o_1", "o_10", "o.x"}[i], 1, nil))
	}
	over := M{"object": M{"checksum": false, "distinct-size": "1GB", "reed-solomon": M{"data-shards": 1, "parity-shards": 0}}}
	c.AddAPI("a", over)
	c.AddAPI("a_slave_1", over)
	if !x.Start(c) {
		return
	}
	apis := []API{{N: c.ByID("a")}, {N: c.ByID("a_slave_1")}}
	if !eventually(30*time.Second, func() bool { r := apis[0].CreateBucket(Bucket{Name: "b"}); return r.Code/100 == 2 || r.Code == 400 }) {
		x.Violate("start", "no bucket can be created within 30 s of the start")
		return
	}
	var trace []string
	did := func(f string, a ...any) {
		trace = append(trace, fmt.Sprintf(f, a...))
		x.Logf("%s", trace[len(trace)-1])
	}
	prefix := c.Group + "/registry/objectserver/"
	up := func() (l []*cluster.Node) {
		for _, o := range objs {
			if o.Running() {
				l = append(l, o)
			}
		}
		return
	}
	for phase := 0; phase < x.Pick(4, 8); phase++ {
		var sig []string
		for i := 0; i < 3; i++ {
			o := objs[rng.Intn(len(objs))]
			what := "nothing"
			switch n := rng.Intn(9); {
			case !o.Running():
				what = "start"
				if rng.Intn(3) == 0 {
					what = "start elsewhere"
					o.Move()
				}
				if err := o.Start(); err != nil {
					panic(infra{err})
				}
			case n == 0 && len(up()) > 2:
				what = "kill"
				o.Kill9()
			case n == 1 && len(up()) > 2:
				what = "stop"
				if !o.Stop(20 * time.Second) {
					x.Violate("stop", "%s does not stop within 20 s", o.ID)
				}
			case n == 2:
				what = "restart elsewhere"
				o.Kill9()
				o.Move()
				if err := o.Start(); err != nil {
					panic(infra{err})
				}
			case n == 3:
				what = "lease lost"
				c.Etcd.RevokeLeaseOf(prefix + o.ID)
			case n == 4:
				what = "lease lost, no leases"
				c.Etcd.FailLease.Store(true)
				c.Etcd.RevokeLeaseOf(prefix + o.ID)
				time.Sleep(time.Second)
				c.Etcd.FailLease.Store(false)
			case n == 5:
				what = "etcd down"
				c.Etcd.Down()
				time.Sleep(time.Duration(500+rng.Intn(2500)) * time.Millisecond)
				if err := c.Etcd.Up(); err != nil {
					panic(infra{err})
				}
			case n == 6:
				what = "watches lost"
				c.Etcd.CancelWatches()
			case n == 7 && len(objs) < 7:
				what = "new server"
				o = c.AddObject(fmt.Sprintf("o_%d", 100+len(objs)), 1, nil)
				objs = append(objs, o)
				if err := o.Start(); err != nil {
					panic(infra{err})
				}
			case n == 8:
				what = "leader killed"
				_, ms := registeredServers(c, "metaserver")
				if len(ms) != 1 || c.ByID(ms[0]) == nil {
					what = "no leader"
					break
				}
				o = c.ByID(ms[0])
				o.Kill9()
				time.Sleep(time.Duration(rng.Intn(1500)) * time.Millisecond)
				if err := o.Start(); err != nil {
					panic(infra{err})
				}
			}
			did("%s %s", what, o.ID)
			sig = append(sig, what)
			x.Event("disturbances", 1)
			time.Sleep(time.Duration(rng.Intn(200)) * time.Millisecond)
		}
		// registrations of killed servers end with their lease (5 s), others are tried again
		var diff string
		if !eventually(45*time.Second, func() bool {
			diff = ""
			for _, kind := range []string{"objectserver", "metaserver", "apiserver"} {
				var want []string
				for _, n := range c.ByKind(kind) {
					if n.Running() {
						want = append(want, n.ID+" "+n.Addr())
					}
				}
				sort.Strings(want)
				got, masters := registeredServers(c, kind)
				if strings.Join(got, ",") != strings.Join(want, ",") {
					diff = fmt.Sprintf("%s: registered %q, living %q", kind, got, want)
				} else if kind == "metaserver" && len(masters) != 1 {
					diff = fmt.Sprintf("the group has the leaders %q", masters)
				}
			}
			return diff == ""
		}) {
			x.Violate("members:registered", "45 s after the last disturbance (%s): %s", strings.Join(trace, "; "), diff)
			return
		}
		x.CheckAlive(c, func() (l []*cluster.Node) {
			for _, o := range objs {
				if !o.Running() {
					l = append(l, o)
				}
			}
			return
		}()...)
		for i, a := range apis {
			if !usesExactly(x, a, up(), fmt.Sprintf("p%d-%d", phase, i), strings.Join(trace, "; ")) {
				return
			}
		}
		sort.Strings(sig)
		x.Case(fmt.Sprintf("%d living after %v", len(up()), sig))
	}
	_ = metas
}

// usesExactly checks that an api server stores on all of the living object servers, and only there.
func usesExactly(x *Ctx, a API, live []*cluster.Node, tag, trace string) bool {
	var want []string
	for _, n := range live {
		want = append(want, n.Addr())
	}
	sort.Strings(want)
	var diff string
	try := 0
	if !eventually(30*time.Second, func() bool {
		try++
		diff = ""
		used := map[string]bool{}
		for i := 0; i < 30*len(want) && diff == ""; i++ {
			name := fmt.Sprintf("%s-%d-%d", tag, try, i)
			_, r := a.Put("b", name, []byte(name), "")
			if r.Err != nil || r.Code/100 != 2 {
				diff = fmt.Sprintf("upload answered %s", r)
				break
			}
			_, vs, _ := versionsOf(a, name)
			for _, l := range vs {
				used[l] = true
			}
			x.Event("uploads", 1)
			if i%5 == 0 && len(used) == len(want) && i > 10*len(want) {
				break
			}
		}
		if diff == "" {
			var got []string
			for l := range used {
				got = append(got, l)
			}
			sort.Strings(got)
			if strings.Join(got, ",") != strings.Join(want, ",") {
				diff = fmt.Sprintf("stores on %q, living %q", got, want)
			}
		}
		return diff == ""
	}) {
		x.Violate("members:used", "30 s after all registrations are right (%s), %s %s", trace, a.N.ID, diff)
		return false
	}
	x.Event("views", 1)
	return true
}

// versionsOf returns where the versions of an object in bucket b are.
func versionsOf(a API, name string) (n int, locate []string, r Resp) {
	vs, n, r := a.Versions("b", name, 1, 10)
	for _, v := range vs {
		locate = append(locate, v.Locate...)
	}
	return n, locate, r
}
