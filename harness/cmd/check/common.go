package main

import (
	"math/rand"
	"syscall"
	"time"

	"verifharness/cluster"
)

// waitView waits until every api server has had time to see the registrations that are in etcd and reaches the
// metadata servers again (their connections back off after a crash).
func waitView(x *Ctx, c *cluster.Cluster, _ API) {
	time.Sleep(300 * time.Millisecond)
	for _, n := range c.ByKind("apiserver") {
		if !n.Running() {
			continue
		}
		a := API{N: n}
		var r, r2 Resp
		if !eventually(30*time.Second, func() bool {
			for i := 0; i < 3; i++ { // several connections
				_, _, r = a.Versions("no-such-bucket", "no-such-name", 1, 10)
				_, r2 = a.Meta("no-such-bucket", "no-such-name", 0)
				if r.Err != nil || r.Code/100 == 5 || r2.Err != nil || r2.Code/100 == 5 {
					return false
				}
			}
			return true
		}) {
			x.Violate("not-recovered", "%s does not reach the restarted servers within 30 s: %s; %s", n.ID, r, r2)
		}
	}
}

// stall stops random servers for a few milliseconds at a time until the returned function is called, so that what
// runs concurrently finishes in every order.
func stall(nodes []*cluster.Node, seed int64, longest time.Duration) (end func()) {
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		rng := rand.New(rand.NewSource(seed))
		for {
			n := nodes[rng.Intn(len(nodes))]
			n.Signal(syscall.SIGSTOP)
			time.Sleep(time.Duration(rng.Int63n(int64(longest))))
			n.Signal(syscall.SIGCONT)
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(rng.Int63n(int64(longest) / 4))):
			}
		}
	}()
	return func() { close(stop); <-done }
}
