// Command c19 lets the tree's registry, lifecycles and discoveries follow changing memberships on a stand-in for etcd
// which fails, loses watches and expires leases, and compares what they end with to what is registered.
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"common/registry"

	clientv3 "go.etcd.io/etcd/client/v3"

	"verifharness/fakeetcd"
	. "verifharness/report"
)

const settle = 30 * time.Second

var ids = []string{"a", "b1", "node_1", "node_2", "1_2_3", "x_master_y", "a-127001-8080", "meta", "\u00e4\u00f6", "a.b", "slave", "_", "master", "a%2Fb", "very" + strings.Repeat("-long", 20)}

var roles = []string{"", "_master", "_slave"}

func dial(addr string) *clientv3.Client {
	c, err := clientv3.New(clientv3.Config{Endpoints: []string{addr}, DialTimeout: 5 * time.Second, PermitWithoutStream: true})
	if err != nil {
		panic(err)
	}
	return c
}

func text(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func list(l []string) string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}

// view is a discovery with what it knows of itself.
type view struct {
	name, id, addr string
	services       []string
	*registry.EtcdDiscovery
}

// world is one stand-in for etcd with what has been registered there.
type world struct {
	es    *fakeetcd.Server
	addr  string
	group string
	kinds []string
	mu    sync.Mutex
	ever  map[string]map[string]bool // kind -> addresses ever registered
	next  int
	trace []string
}

func newWorld(group string, kinds []string) *world {
	w := &world{es: fakeetcd.New(), group: group, kinds: kinds, ever: map[string]map[string]bool{}}
	for _, k := range kinds {
		w.ever[k] = map[string]bool{}
	}
	var err error
	if w.addr, err = w.es.Start("127.0.0.1:0"); err != nil {
		panic(err)
	}
	return w
}

func (w *world) logf(f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.trace = append(w.trace, fmt.Sprintf(f, a...))
}

func (w *world) last() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.trace) - 40
	if n < 0 {
		n = 0
	}
	return strings.Join(w.trace[n:], "; ")
}

func (w *world) prefix(kind string) string { return w.group + "/registry/" + kind + "/" }

// mutate changes the registrations of some server directly.
func (w *world) mutate(r *rand.Rand) {
	kind := w.kinds[r.Intn(len(w.kinds))]
	id := ids[r.Intn(len(ids))]
	have := w.es.Entries(w.prefix(kind))
	switch r.Intn(5) {
	case 0, 1, 2:
		w.mu.Lock()
		w.next++
		addr := fmt.Sprintf("10.1.%d.%d:80", w.next/250, w.next%250)
		w.ever[kind][addr] = true
		w.mu.Unlock()
		role := roles[r.Intn(3)]
		for _, other := range roles {
			// one role at a time, and one address
			if other != role {
				w.es.Delete(w.prefix(kind) + id + other)
			}
		}
		w.es.Put(w.prefix(kind)+id+role, addr)
		w.logf("put %s/%s%s=%s", kind, id, role, addr)
	case 3:
		if len(have) > 0 {
			e := have[r.Intn(len(have))]
			w.es.Delete(e.Key)
			w.logf("del %s", e.Key)
		}
	case 4:
		if len(have) > 0 {
			// the role changes: known by both for a moment
			e := have[r.Intn(len(have))]
			base := strings.TrimSuffix(strings.TrimSuffix(e.Key, "_master"), "_slave")
			role := roles[1+r.Intn(2)]
			if base+role != e.Key {
				w.es.Put(base+role, e.Value)
				if r.Intn(4) > 0 {
					w.es.Delete(e.Key)
				}
				w.logf("role %s -> %s", e.Key, role)
			}
		}
	}
	Event("membership changes", 1)
}

// expect is what a view has to show for a kind.
func (w *world) expect(v *view, kind string) (all, masters, slaves map[string]string, addrs []string) {
	all, masters, slaves = map[string]string{}, map[string]string{}, map[string]string{}
	add := func(id, role, addr string) {
		all[id] = addr
		if role == "_slave" {
			slaves[id] = addr
		} else {
			masters[id] = addr
		}
	}
	if kind == v.name {
		add(v.id, "", v.addr)
	}
	for _, e := range w.es.Entries(w.prefix(kind)) {
		id := strings.TrimPrefix(e.Key, w.prefix(kind))
		role := ""
		for _, x := range roles[1:] {
			if strings.HasSuffix(id, x) {
				id, role = strings.TrimSuffix(id, x), x
			}
		}
		add(id, role, e.Value)
	}
	seen := map[string]bool{}
	for _, a := range all {
		if !seen[a] {
			addrs = append(addrs, a)
		}
		seen[a] = true
	}
	return
}

// differs compares a view to what is registered.
func (w *world) differs(v *view) string {
	for _, kind := range v.services {
		all, masters, slaves, addrs := w.expect(v, kind)
		if got := v.GetServiceMapping(kind); text(got) != text(all) {
			return fmt.Sprintf("servers of %q: got {%s}, registered {%s}", kind, text(got), text(all))
		}
		if got := v.GetServices(kind); list(got) != list(addrs) {
			return fmt.Sprintf("addresses of %q: got [%s], registered [%s]", kind, list(got), list(addrs))
		}
		if got := v.GetServiceMappingWith(kind, true); text(got) != text(masters) {
			return fmt.Sprintf("masters of %q: got {%s}, registered {%s}", kind, text(got), text(masters))
		}
		if got := v.GetServiceMappingWith(kind, false); text(got) != text(slaves) {
			return fmt.Sprintf("slaves of %q: got {%s}, registered {%s}", kind, text(got), text(slaves))
		}
		for id, a := range all {
			if got, ok := v.GetService(kind, id); !ok || got != a {
				return fmt.Sprintf("server %q of %q: got %q (%v), registered %q", id, kind, got, ok, a)
			}
		}
		if _, ok := v.GetService(kind, "nobody"); ok {
			return fmt.Sprintf("an unknown server of %q is found", kind)
		}
	}
	return ""
}

func (w *world) watchAll(views []*view, stop *atomic.Bool) {
	for !stop.Load() {
		for _, v := range views {
			for _, kind := range v.services {
				for _, a := range v.GetServices(kind) {
					w.mu.Lock()
					ok := w.ever[kind][a]
					w.mu.Unlock()
					if !ok && a != v.addr {
						Violate("view:foreign", "a view shows %s as a server of %q, where it was never registered (%s)", a, kind, w.last())
					}
				}
				Event("views read", 1)
			}
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// disturb makes etcd misbehave for a moment.
func (w *world) disturb(r *rand.Rand, hard bool) {
	switch n := r.Intn(7); {
	case n == 0:
		w.logf("watches cancelled")
		w.es.CancelWatches()
	case n == 1:
		w.logf("streams dropped")
		w.es.DropStreams()
	case n == 2:
		w.logf("requests fail")
		w.es.FailKV.Store(true)
		time.Sleep(time.Duration(r.Intn(400)) * time.Millisecond)
		w.es.FailKV.Store(false)
	case n == 3:
		w.logf("down")
		w.es.Down()
		for i := 0; i < r.Intn(4); i++ {
			w.mutate(r)
		}
		time.Sleep(time.Duration(r.Intn(500)) * time.Millisecond)
		if err := w.es.Up(); err != nil {
			panic(err)
		}
	default:
		// changes between what is read and what is watched
		w.logf("change after the next read")
		var once atomic.Bool
		r2 := rand.New(rand.NewSource(r.Int63()))
		w.es.SetAfterRange(func(string) {
			if !once.Swap(true) {
				for i := 0; i < 3; i++ {
					w.mutate(r2)
				}
			}
		})
		if r.Intn(2) == 0 {
			w.es.CancelWatches()
		}
	}
	Event("disturbances", 1)
}

func discoveries(part int64) {
	r := Rand(part)
	kinds := [][]string{{"meta", "metaserver", "object"}, {"s", "s_slave", "s_1"}, {"objectserver", "metaserver", "apiserver"}}[r.Intn(3)]
	w := newWorld([]string{"goodfs", "g_1", "g/h"}[r.Intn(3)], kinds)
	defer w.es.Stop()
	// keys of others
	w.es.Put(w.group+"/registry", "x")
	w.es.Put(w.group+"/registry/", "x")
	w.es.Put(w.group+"/hash_slot/x", "x")
	w.es.Put(w.group+"x/registry/"+kinds[0]+"/y", "x")
	var views []*view
	var clients []*clientv3.Client
	join := func() {
		i := len(views)
		v := &view{name: "observer", id: fmt.Sprintf("own_%d", i), addr: fmt.Sprintf("10.9.0.%d:%d", i, 7000+i), services: kinds}
		if r.Intn(2) == 0 {
			v.name = kinds[r.Intn(len(kinds))]
		}
		c := dial(w.addr)
		clients = append(clients, c)
		ip, port, _ := strings.Cut(v.addr, ":")
		v.EtcdDiscovery = registry.NewEtcdDiscovery(c, &registry.Config{Group: w.group, Name: v.name, ServerID: v.id, ServerIP: ip, ServerPort: port, Services: kinds, Interval: 2 * time.Second, Timeout: time.Second})
		views = append(views, v)
		w.logf("view %d of %s", i, v.name)
	}
	for i := r.Intn(6); i > 0; i-- {
		w.mutate(r)
	}
	join()
	for i := 0; i < 30; i++ {
		switch n := r.Intn(12); {
		case n == 0 && len(views) < 4:
			join()
		case n < 3:
			w.disturb(r, false)
		default:
			w.mutate(r)
		}
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); w.watchAll(views, &stop) }()
	w.es.SetAfterRange(nil)
	for i := 0; i < 5; i++ {
		w.mutate(r)
	}
	deadline := time.Now().Add(settle)
	for i, v := range views {
		d := w.differs(v)
		for d != "" && time.Now().Before(deadline) {
			time.Sleep(20 * time.Millisecond)
			d = w.differs(v)
		}
		if d != "" {
			Violate("view:differs", "view %d of %d is not what is registered %s after the last change: %s (%s)", i, len(views), settle, d, w.last())
			break
		}
		Case(fmt.Sprintf("view %d/%d %d of %v", i, part, len(v.GetServices(kinds[0])), kinds))
	}
	stop.Store(true)
	wg.Wait()
	for i, v := range views {
		v.Close()
		clients[i].Close()
	}
}

// server is a server which keeps itself registered.
type server struct {
	id, addr, role string
	cli            *clientv3.Client
	lc             *registry.Lifecycle
	reg            *registry.EtcdRegistry
	alive          bool
}

func (w *world) server(i int, kind string, roles bool) *server {
	s := &server{id: fmt.Sprintf("n_%d", i), addr: fmt.Sprintf("10.2.0.%d:90", i), cli: dial(w.addr), alive: true}
	ip, port, _ := strings.Cut(s.addr, ":")
	cfg := &registry.Config{Group: w.group, Name: kind, ServerID: s.id, ServerIP: ip, ServerPort: port, Interval: 2 * time.Second, Timeout: time.Second}
	s.lc = registry.NewLifecycle(s.cli, cfg.Interval)
	s.reg = registry.NewEtcdRegistry(s.cli, cfg)
	if roles {
		s.role = "_slave"
		s.reg.AsSlave()
	}
	s.lc.Subscribe(s.reg.Register)
	go s.lc.DeadLoop()
	return s
}

// elect does what a metadata server does when the leader changes.
func (s *server) elect(master bool) {
	s.reg.Unregister()
	if master {
		s.role = "_master"
		s.reg.AsMaster().Register(s.lc.Lease())
	} else {
		s.role = "_slave"
		s.reg.AsSlave().Register(s.lc.Lease())
	}
}

func (w *world) registered(servers []*server, kind string) string {
	want, leased := map[string]string{}, 0
	for _, s := range servers {
		if s.alive {
			want[w.prefix(kind)+s.id+s.role] = s.addr
		}
	}
	got := map[string]string{}
	for _, e := range w.es.Entries(w.prefix(kind)) {
		got[e.Key] = e.Value
		if e.Lease != 0 {
			leased++
		}
	}
	if text(got) != text(want) {
		return fmt.Sprintf("registered {%s}, living {%s}", text(got), text(want))
	}
	if leased != len(got) {
		return fmt.Sprintf("only %d of the registrations {%s} end with their server", leased, text(got))
	}
	return ""
}

func registrations(part int64) {
	r := Rand(part)
	kind := "metaserver"
	w := newWorld("goodfs", []string{kind})
	defer w.es.Stop()
	withRoles := r.Intn(2) == 0
	var servers []*server
	if r.Intn(4) == 0 {
		w.es.FailLease.Store(true)
		w.logf("no leases at first")
	}
	n := 2 + r.Intn(4)
	for i := 0; i < n; i++ {
		servers = append(servers, w.server(i, kind, withRoles))
	}
	sig := map[string]bool{}
	for i := 0; i < 6; i++ {
		s := servers[r.Intn(len(servers))]
		what := r.Intn(8)
		if r.Intn(3) > 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
		}
		switch {
		case what == 0:
			w.logf("leases of all lost")
			for _, e := range w.es.Entries(w.prefix(kind)) {
				w.es.RevokeLeaseOf(e.Key)
			}
		case what == 1:
			w.logf("no leases for a while, lease of %s lost", s.id)
			w.es.FailLease.Store(true)
			w.es.RevokeLeaseOf(w.prefix(kind) + s.id + s.role)
			time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
			w.es.FailLease.Store(false)
		case what == 2:
			w.logf("requests fail while the lease of %s is lost", s.id)
			w.es.FailKV.Store(true)
			w.es.RevokeLeaseOf(w.prefix(kind) + s.id + s.role)
			time.Sleep(time.Duration(r.Intn(2500)) * time.Millisecond)
			w.es.FailKV.Store(false)
		case what == 3:
			d := time.Duration(300+r.Intn(3500)) * time.Millisecond
			w.logf("down for %s", d)
			w.es.Down()
			time.Sleep(d)
			if err := w.es.Up(); err != nil {
				panic(err)
			}
		case what == 4 && s.alive && len(servers) > 1:
			w.logf("%s ends", s.id)
			s.alive = false
			_ = s.reg.Unregister()
			_ = s.lc.Close()
			s.cli.Close()
		case what == 5 && s.alive && len(servers) > 1:
			w.logf("%s crashes", s.id)
			s.alive = false
			s.cli.Close()
		case withRoles && s.alive:
			var wg sync.WaitGroup
			if r.Intn(2) == 0 {
				w.es.RevokeLeaseOf(w.prefix(kind) + s.id + s.role)
			}
			failing := r.Intn(2) == 0
			if failing {
				// the registration under the former role can not be removed at first
				w.es.FailKV.Store(true)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 1+what%3; k++ {
					s.elect(s.role != "_master")
				}
			}()
			if failing {
				time.Sleep(time.Duration(100+r.Intn(900)) * time.Millisecond)
				w.es.FailKV.Store(false)
				Event("elected while requests fail", 1)
			}
			wg.Wait()
			w.logf("%s becomes %s", s.id, s.role)
		default:
			w.es.DropStreams()
		}
		sig[fmt.Sprint(what)] = true
		Event("disturbances", 1)
	}
	w.es.FailLease.Store(false)
	// connections are tried again after some seconds, by when a lease may have ended
	time.Sleep(8 * time.Second)
	deadline := time.Now().Add(settle)
	d := w.registered(servers, kind)
	for d != "" && time.Now().Before(deadline) {
		time.Sleep(50 * time.Millisecond)
		d = w.registered(servers, kind)
	}
	if d != "" {
		Violate("registration:differs", "%s after the last disturbance: %s (%s)", settle, d, w.last())
		return
	}
	// nothing of it ends by itself
	for i := 0; i < 8; i++ {
		time.Sleep(500 * time.Millisecond)
		if d = w.registered(servers, kind); d != "" {
			Violate("registration:lost", "undisturbed the registrations change: %s (%s)", d, w.last())
			return
		}
	}
	Event("registrations", int64(len(servers)))
	Case(fmt.Sprintf("registrations %d roles=%v %v", n, withRoles, sortedKeys(sig)))
	for _, s := range servers {
		if s.alive {
			_ = s.reg.Unregister()
			_ = s.lc.Close()
			s.cli.Close()
			s.alive = false
		}
	}
	if d = w.registered(servers, kind); d != "" {
		Violate("registration:left", "after all servers have ended: %s (%s)", d, w.last())
	}
}

func sortedKeys(m map[string]bool) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func main() {
	var wg sync.WaitGroup
	slots := make(chan bool, 24)
	for i := 0; i < Pick(60, 500); i++ {
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-slots }()
			if i%2 == 0 {
				Safe("view:panic", "discovery history", func() { discoveries(int64(i)) })
			} else {
				Safe("registration:panic", "registration history", func() { registrations(int64(i)) })
			}
		}(i)
	}
	wg.Wait()
	Done()
}
