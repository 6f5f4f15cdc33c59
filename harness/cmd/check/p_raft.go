package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"verifharness/cluster"
)

// C11: a raft group of metadata servers against the model of a single store, while members die, stop, are suspended,
// lose their data, join and leave. Every member is asked, not only the leader.

func init() { props["C11"] = c11 }

// rawCodec passes encoded messages through.
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v any) error {
	*v.(*[]byte) = append([]byte(nil), b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

// pbStr encodes a string or bytes field.
func pbStr(field int, s string) string {
	b := []byte{byte(field<<3 | 2)}
	n := len(s)
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return string(append(b, byte(n))) + s
}

// rawCall performs a gRPC call with an encoded request.
func rawCall(addr, method, req string) ([]byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	cc, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return nil, err
	}
	defer cc.Close()
	in, out := []byte(req), []byte(nil)
	err = cc.Invoke(ctx, method, &in, &out, grpc.ForceCodec(rawCodec{}))
	return out, err
}

// pbResponse decodes {bool success = 1; string message = 2}.
func pbResponse(b []byte) (ok bool, msg string) {
	for len(b) >= 2 {
		if b[0] == 0x08 {
			ok, b = b[1] == 1, b[2:]
			continue
		}
		n, i, sh := 0, 1, 0
		for ; i < len(b); i++ {
			n |= int(b[i]&0x7f) << sh
			sh += 7
			if b[i] < 0x80 {
				i++
				break
			}
		}
		if b[0] != 0x12 || i+n > len(b) {
			return
		}
		msg, b = string(b[i:i+n]), b[i+n:]
	}
	return
}

type raftWorld struct {
	x       *Ctx
	c       *cluster.Cluster
	name    string
	group   string
	members []*cluster.Node
	admin   *cluster.Node
	s       *sim
	rng     *rand.Rand
	marks   int
	cur     *cluster.Node // the leader last seen
	won     int
	gone    bool // the model can not follow any more
	joins   int
}

func newRaftWorld(x *Ctx, name string, n int, seed int64) *raftWorld {
	w := &raftWorld{x: x, name: name, group: "g" + name, rng: rand.New(rand.NewSource(seed))}
	w.c = x.Cluster(name, false)
	w.members = w.c.AddMetaGroup(w.group, n, M{"cache": M{"max-size": []string{"128MB", "8MB"}[w.rng.Intn(2)]}})
	w.admin = w.c.AddAdmin("admin-"+name, nil)
	return w
}

// wins counts how often a server became leader.
func (w *raftWorld) wins() (k int) {
	for _, n := range w.c.ByKind("metaserver") {
		b, _ := os.ReadFile(n.LogFile())
		k += strings.Count(string(b), "entering leader state")
	}
	return
}

// believes tells whom a member takes for the leader.
func (w *raftWorld) believes(n *cluster.Node) string {
	b, err := rawCall(n.Addr(), "/proto.RaftCmd/Peers", "")
	if err != nil {
		return ""
	}
	_, msg := pbResponse(b)
	var v struct {
		LeaderID string `json:"leaderId"`
	}
	_ = json.Unmarshal([]byte(msg), &v)
	return v.LeaderID
}

// leader finds the leader among the members that run, other than not.
func (w *raftWorld) leader(not *cluster.Node, d time.Duration) *cluster.Node {
	var l *cluster.Node
	eventually(d, func() bool {
		for _, n := range w.members {
			if n != not && n.Running() && w.believes(n) == n.ID {
				l = n
				return true
			}
		}
		return false
	})
	return l
}

func (w *raftWorld) running() (r []*cluster.Node) {
	for _, n := range w.members {
		if n.Running() {
			r = append(r, n)
		}
	}
	return
}

// settle waits for a leader that takes writes and for all running members, but not, to follow it.
func (w *raftWorld) settle(when string, not *cluster.Node) bool {
	if w.x.Violated() || w.gone {
		return false
	}
	w.marks++
	mark := fmt.Sprintf("mark%d", w.marks)
	var last Resp
	if !eventually(40*time.Second, func() bool {
		w.cur = w.leader(not, 5*time.Second)
		if w.cur == nil {
			return false
		}
		last = MS{w.cur}.UpdateMeta("sync", mark, "b")
		if last.Err != nil || last.Code != 200 {
			time.Sleep(20 * time.Millisecond)
			return false
		}
		for _, n := range w.running() { // nobody is about to call another election
			if n != not && !eventually(2*time.Second, func() bool { return w.believes(n) == w.cur.ID }) {
				return false
			}
		}
		return w.believes(w.cur) == w.cur.ID
	}) {
		st := ""
		for _, n := range w.members {
			st += fmt.Sprintf(" %s runs=%v leader=%q", n.ID, n.Running(), w.believes(n))
		}
		w.x.Violate("no-leader", "%s: %s: no member accepts a write within 40 s, though a majority runs:%s; last answer %s", w.name, when, st, last)
		return false
	}
	w.won = w.wins()
	w.s.metas["sync"].name = mark
	for _, n := range w.running() {
		if n == not {
			continue
		}
		if !eventually(25*time.Second, func() bool {
			g, r := MS{n}.GetMeta("sync", -1, false)
			last = r
			return r.Err == nil && r.Code == 200 && g.Name == mark
		}) {
			w.x.Violate("behind", "%s: %s: %s does not show the last write of leader %s within 25 s: %s", w.name, when, n.ID, w.cur.ID, last)
			return false
		}
		w.x.Event("members_caught_up", 1)
	}
	return true
}

// compare asks every running member for everything.
func (w *raftWorld) compare(when string, not *cluster.Node) bool {
	if !w.settle(when, not) {
		return false
	}
	var ms []MS
	for _, n := range w.running() {
		if n != not {
			ms = append(ms, MS{n})
		}
	}
	w.s.readers = func() []MS { return ms }
	w.s.checkAll(w.name + ": " + when)
	// what the model does not know (times, unique ids) is the same everywhere
	for _, id := range w.s.ids {
		var first [2]string
		for i, m := range ms {
			_, a := m.GetMeta(id, -1, true)
			_, _, b := m.ListVer(id, 1, 1000)
			got := [2]string{fmt.Sprint(a.Code, string(a.Body)), fmt.Sprint(b.Code, string(b.Body))}
			if i == 0 {
				first = got
			} else if got != first {
				w.x.Violate("members-differ", "%s: %s: about %s, %s answers %v and %s answers %v", w.name, when, id, ms[0].N.ID, first, m.N.ID, got)
			}
			w.x.Event("answers_compared", 1)
		}
	}
	return !w.x.Violated()
}

// steps performs operations at the leader.
func (w *raftWorld) steps(n int) bool {
	for i := 0; i < n; i++ {
		if w.gone || !w.s.step(w.rng) {
			return false
		}
	}
	return !w.x.Violated()
}

// refuse sends writes to members that do not lead: none is acknowledged, none has an effect.
func (w *raftWorld) refuse(when string, not *cluster.Node) {
	x := w.x
	for _, n := range w.running() {
		if n == w.cur || n == not {
			continue
		}
		ms := MS{n}
		id, bn := w.s.ids[w.rng.Intn(len(w.s.ids))], "bk"
		for _, k := range w.s.ids { // one that exists, if any
			if m := w.s.metas[k]; m != nil && len(m.vers) > 0 && k != "sync" {
				id = k
			}
		}
		v := w.s.ver(w.rng)
		num := 1
		if m := w.s.metas[id]; m != nil && len(m.vers) > 0 {
			num = m.nums()[0]
		}
		got := func(what string, r Resp) {
			x.Case("to a follower: " + what)
			x.Event("writes_to_followers", 1)
			if r.Err == nil && r.Code/100 == 2 {
				x.Violate("follower-writes", "%s: %s: %s of %s sent to %s, which does not lead, is answered %s", w.name, when, what, id, n.ID, r)
			}
		}
		got("add-meta", ms.AddMeta("b/new", "n", "b"))
		got("update-meta", ms.UpdateMeta(id, "stray", "b"))
		_, r := ms.AddVer(id, v)
		got("add-version", r)
		got("update-version", ms.UpdateVer(id, num, v))
		got("remove-version", ms.DelVer(id, num))
		got("remove-all", ms.DelVer(id, -1))
		got("locate", ms.Locate(w.s.hashes[0], 0, "10.0.0.99:1"))
		got("remove-meta", ms.DelMeta(id))
		got("create-bucket", ms.CreateBucket(Bucket{Name: "stray"}))
		got("update-bucket", ms.UpdateBucket(Bucket{Name: bn, VersionRemains: 77}))
		got("remove-bucket", ms.DelBucket(bn))
		mv := fmt.Sprintf("\x8a\xa8compress\xc2\xaestore_strategy\x01\xabdata_shards\x01\xadparity_shards\x00\xaashard_size\x01\xa4size\x01\xa2ts\x01\xa4hash\xd9%c%s\xa8uniqueId\xa1u\xa6locate\x91\xa1l", len(v.Hash), v.Hash)
		for _, q := range []struct{ m, req string }{
			{"SaveMetadata", pbStr(1, "b/new") + pbStr(3, msgpMap("name", "n", "bucket", "b"))},
			{"SaveVersion", pbStr(1, id) + pbStr(3, mv)},
			{"UpdateVersion", pbStr(1, id) + "\x10" + string(rune(num&0x3f)) + pbStr(3, mv)},
			{"RemoveVersion", pbStr(2, id) + "\x18" + string(rune(num&0x3f))},
			{"SaveBucket", pbStr(1, "stray") + pbStr(3, msgpMap("name", "stray"))},
		} {
			x.Case("to a follower: grpc " + q.m)
			x.Event("writes_to_followers", 1)
			if _, err := rawCall(n.Addr(), "/proto.MetadataApi/"+q.m, q.req); err == nil {
				x.Violate("follower-writes", "%s: %s: grpc %s of %s sent to %s, which does not lead, succeeds", w.name, when, q.m, id, n.ID)
			}
		}
	}
}

func (w *raftWorld) back(n *cluster.Node) bool {
	if err := restart(n); err != nil {
		w.x.Violate("restart", "%s: a member does not come up again: %v", w.name, err)
		return false
	}
	w.x.Event("restarts", 1)
	return true
}

func (w *raftWorld) follower() *cluster.Node {
	for {
		if n := w.members[w.rng.Intn(len(w.members))]; n != w.cur {
			return n
		}
	}
}

// others picks k members other than n.
func (w *raftWorld) others(k int, n *cluster.Node) (r []*cluster.Node) {
	for _, i := range w.rng.Perm(len(w.members)) {
		if m := w.members[i]; m != n && len(r) < k {
			r = append(r, m)
		}
	}
	return
}

func (w *raftWorld) down(n *cluster.Node) {
	if w.rng.Intn(3) == 0 {
		w.x.Event("stops", 1)
		n.Stop(15 * time.Second)
	} else {
		w.x.Event("kills", 1)
		n.Kill9()
	}
}

// unsure resolves a write whose answer does not tell whether it was done, by asking the leader.
func (w *raftWorld) unsure(when, id string, r Resp) bool {
	if !w.settle(when, nil) {
		return false
	}
	g, rr := MS{w.cur}.GetMeta(id, -1, false)
	acked := r.Err == nil && r.Code/100 == 2
	switch {
	case rr.Err == nil && rr.Code == 200:
		w.s.metas[id] = &simMeta{name: g.Name, bucket: g.Bucket, vers: map[int]MVersion{}}
		w.s.ids = append(w.s.ids, id)
		w.x.Event("unsure_writes_done", 1)
	case acked:
		w.x.Violate("acknowledged-lost", "%s: %s: adding %s was answered %s, but the group answers %s", w.name, when, id, r, rr)
		return false
	default:
		w.s.ids = append(w.s.ids, id)
		w.x.Event("unsure_writes_not_done", 1)
	}
	return true
}

var raftTrouble = []string{"kill leader", "kill minority", "kill all", "each in turn", "suspend leader", "suspend follower", "wipe", "majority lost", "stop leader", "cut writes", "join and leave"}

func (w *raftWorld) trouble(what string) bool {
	x, s := w.x, w.s
	minority := (len(w.members) - 1) / 2
	switch what {
	case "kill leader", "stop leader":
		l := w.cur
		if what == "stop leader" {
			l.Stop(15 * time.Second)
		} else {
			l.Kill9()
		}
		if !w.compare("without the leader", nil) || !w.steps(6) || !w.compare("writes without the former leader", nil) {
			return false
		}
		if !w.back(l) {
			return false
		}
	case "kill minority":
		ns := w.others(minority, nil)
		for _, n := range ns {
			w.down(n)
		}
		if !w.settle(what, nil) || !w.steps(8) || !w.compare(what, nil) {
			return false
		}
		for _, n := range ns {
			if !w.back(n) {
				return false
			}
		}
	case "kill all":
		parallel(len(w.members), len(w.members), func(i int) { w.members[i].Kill9() })
		x.Event("kills", int64(len(w.members)))
		for _, i := range w.rng.Perm(len(w.members)) {
			if err := w.members[i].Start(); err != nil {
				panic(infra{err})
			}
		}
	case "each in turn":
		for _, i := range w.rng.Perm(len(w.members)) {
			n := w.members[i]
			w.down(n)
			if !w.settle(what+" "+n.ID, nil) || !w.steps(3) || !w.back(n) {
				return false
			}
		}
	case "suspend leader":
		l := w.cur
		l.Signal(syscall.SIGSTOP)
		ok := w.settle("the leader is suspended", l) && w.steps(5)
		id := fmt.Sprintf("late/%d", w.marks)
		var r Resp
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			r = MS{l}.AddMeta(id, "n", "b")
		}()
		time.Sleep(50 * time.Millisecond)
		l.Signal(syscall.SIGCONT)
		wg.Wait()
		x.Case("write waiting at the suspended leader answered " + fmt.Sprint(r.Code))
		if !ok || !w.unsure("write to the resumed leader", id, r) {
			return false
		}
	case "suspend follower":
		f := w.follower()
		f.Signal(syscall.SIGSTOP)
		ok := w.settle("a follower is suspended", f) && w.steps(8)
		f.Signal(syscall.SIGCONT)
		if !ok {
			return false
		}
	case "wipe":
		f := w.follower()
		f.Kill9()
		dir := filepath.Join(f.Dir, "data")
		if err := os.RemoveAll(dir); err != nil {
			panic(infra{err})
		}
		_ = os.MkdirAll(dir, 0o755)
		if !w.settle("a follower is gone", nil) || !w.steps(4) || !w.back(f) {
			return false
		}
	case "majority lost":
		l := w.cur
		ns := w.others(len(w.members)-minority, l)
		if w.rng.Intn(2) == 0 { // the leader goes with them
			ns[0] = l
		}
		for _, n := range ns {
			n.Kill9()
		}
		ids := []string{}
		var rs []Resp
		for _, n := range w.running() {
			for k := 0; k < 2; k++ {
				id := fmt.Sprintf("lost/%d-%d", w.marks, len(ids))
				r := MS{n}.AddMeta(id, "n", "b")
				ids, rs = append(ids, id), append(rs, r)
				x.Case("write without a majority answered " + fmt.Sprint(r.Code))
				x.Event("writes_without_majority", 1)
				if r.Err == nil && r.Code/100 == 2 {
					x.Violate("minority-writes", "%s: %d of %d members run, but adding %s at %s is answered %s", w.name, len(w.running()), len(w.members), id, n.ID, r)
					return false
				}
			}
		}
		for _, n := range ns {
			if !w.back(n) {
				return false
			}
		}
		for i, id := range ids {
			if !w.unsure(what, id, rs[i]) {
				return false
			}
		}
	case "cut writes":
		// many writes are under way while the leader dies: each is done wholly or not at all, acknowledged ones are
		l := w.cur
		var mu sync.Mutex
		ids, rs := []string{}, []Resp{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			parallel(24, 8, func(i int) {
				id := fmt.Sprintf("cut/%d-%d", w.marks, i)
				r := MS{l}.AddMeta(id, "n", "b")
				mu.Lock()
				ids, rs = append(ids, id), append(rs, r)
				mu.Unlock()
			})
		}()
		time.Sleep(time.Duration(w.rng.Intn(60)) * time.Millisecond)
		l.Kill9()
		x.Event("kills", 1)
		<-done
		if !w.settle(what, nil) || !w.back(l) {
			return false
		}
		for i, id := range ids {
			if !w.unsure(what, id, rs[i]) {
				return false
			}
		}
		// few of them stay in the comparisons
		for i, id := range ids {
			if s.metas[id] == nil && i > 2 {
				continue
			}
			if s.metas[id] != nil && i > 2 {
				if r := (MS{w.cur}).DelMeta(id); r.Err != nil || r.Code/100 != 2 {
					return w.failed("del-meta", r)
				}
				delete(s.metas, id)
			}
		}
	case "join and leave":
		return w.join()
	}
	return true
}

// failed judges a write the leader refused: a leader that lost its place may.
func (w *raftWorld) failed(what string, r Resp) bool {
	if w.moved(r) {
		w.gone = true
		return false
	}
	w.x.Violate("fails:"+what, "%s: %s is answered %s", w.name, what, r)
	return false
}

// moved tells whether a write failed because another election happened by itself (the sandbox may be that slow).
func (w *raftWorld) moved(r Resp) bool {
	if r.Err == nil && r.Code/100 != 5 {
		return false
	}
	return eventually(3*time.Second, func() bool { return w.wins() > w.won })
}

// config is the membership as a member describes it.
func (w *raftWorld) peers(n *cluster.Node) map[string]bool {
	b, err := rawCall(n.Addr(), "/proto.RaftCmd/Peers", "")
	if err != nil {
		return nil
	}
	_, msg := pbResponse(b)
	var v struct {
		Peers []string `json:"peers"`
	}
	_ = json.Unmarshal([]byte(msg), &v)
	m := map[string]bool{}
	for _, p := range v.Peers {
		m[p] = true
	}
	return m
}

// membership checks that all members know the group as it is.
func (w *raftWorld) membership(when string) bool {
	for _, n := range w.running() {
		var p map[string]bool
		if !eventually(20*time.Second, func() bool {
			p = w.peers(n)
			ok := len(p) == len(w.members)
			for _, m := range w.members {
				ok = ok && p[m.Addr()]
			}
			return ok
		}) {
			var want []string
			for _, m := range w.members {
				want = append(want, m.ID+" "+m.Addr())
			}
			w.x.Violate("membership", "%s: %s: the group is %v, but %s says %v", w.name, when, want, n.ID, p)
			return false
		}
		w.x.Event("memberships_compared", 1)
	}
	return true
}

// joining adds a server to the group through the admin server.
func (w *raftWorld) joining(n *cluster.Node) bool {
	var r Resp
	if !eventually(30*time.Second, func() bool { // the admin server has to learn of it first
		r = Admin{w.admin}.json("POST", "/metadata/join_leader", M{"serverId": n.ID, "masterId": w.cur.ID})
		return r.Err == nil && r.Code == 200
	}) {
		if w.wins() > w.won {
			w.gone = true
			return false
		}
		w.x.Violate("join", "%s: %s can not join leader %s: %s\n%s", w.name, n.ID, w.cur.ID, r, n.LogTail(20))
		return false
	}
	w.members = append(w.members, n)
	return true
}

// join lets a server join late, restarts it, and lets one leave.
func (w *raftWorld) join() bool {
	x := w.x
	w.joins++
	n := w.c.AddMeta(fmt.Sprintf("%s-late%d", w.group, w.joins), M{"cluster": M{"enable": true, "bootstrap": false, "group-id": w.group,
		"election-timeout": "900ms", "heartbeat-timeout": "800ms"}})
	if err := n.Start(); err != nil {
		panic(infra{err})
	}
	if err := n.WaitReady(30 * time.Second); err != nil {
		x.Violate("start", "%s: a server that shall join does not start: %v", w.name, err)
		return false
	}
	if !w.joining(n) {
		return false
	}
	x.Case("join")
	x.Event("joins", 1)
	if !w.compare("a member joined", nil) || !w.membership("a member joined") || !w.steps(4) {
		return false
	}
	// the new member counts: it stays one after a restart
	n.Kill9()
	if !w.settle("the new member is down", nil) || !w.steps(3) {
		return false
	}
	if err := n.Start(); err != nil {
		panic(infra{err})
	}
	if err := n.WaitReady(30 * time.Second); err != nil {
		x.Violate("restart", "%s: the new member does not come up again: %v", w.name, err)
		return false
	}
	if !w.compare("the new member restarted", nil) {
		return false
	}
	// someone leaves
	out := []*cluster.Node{n, w.cur, w.members[0]}[w.rng.Intn(3)]
	what := "a follower left"
	if out == w.cur {
		what = "the leader left"
	}
	x.Case(what)
	r := Admin{w.admin}.json("POST", "/metadata/leave_cluster", M{"serverId": out.ID})
	if r.Err != nil || r.Code != 200 {
		if w.moved(r) {
			w.gone = true
			return false
		}
		x.Violate("leave", "%s: %s can not leave the group: %s", w.name, out.ID, r)
		return false
	}
	var rest []*cluster.Node
	for _, m := range w.members {
		if m != out {
			rest = append(rest, m)
		}
	}
	w.members = rest
	stays := w.rng.Intn(2) == 0 && out != w.cur
	if !stays {
		w.down(out)
	}
	x.Event("leaves", 1)
	if !w.settle(what, nil) || !w.membership(what) || !w.steps(5) {
		return false
	}
	if stays {
		w.stray(out)
	}
	if !w.compare("writes after "+what, nil) {
		return false
	}
	if w.rng.Intn(3) == 0 {
		out.Kill9()
		return true
	}
	// it comes back
	if !stays {
		if err := out.Start(); err != nil {
			panic(infra{err})
		}
		if err := out.WaitReady(30 * time.Second); err != nil {
			x.Violate("restart", "%s: a server that left does not come up again: %v", w.name, err)
			return false
		}
	}
	if !w.joining(out) {
		return false
	}
	x.Event("joins_again", 1)
	x.Case(fmt.Sprintf("join again, running on=%v", stays))
	return w.compare("a former member joined again", nil) && w.membership("a former member joined again")
}

// stray checks that a server which left takes no writes.
func (w *raftWorld) stray(n *cluster.Node) {
	if r := (MS{n}).AddMeta("b/stray", "n", "b"); r.Err == nil && r.Code/100 == 2 {
		w.x.Violate("stray-writes", "%s: %s left the group and yet answers a write %s", w.name, n.ID, r)
	}
	w.x.Event("writes_to_former_members", 1)
}

// run goes through the troubles.
func (w *raftWorld) run(troubles []string) {
	x := w.x
	if !x.Start(w.c) {
		return
	}
	w.s = newSim(x, append([]string{"sync"}, simIDs[:9]...), simHashes(3), MS{w.members[0]})
	w.s.target = func() MS { return MS{w.cur} }
	w.s.lost = func(r Resp) bool {
		w.gone = w.gone || w.moved(r)
		return w.gone
	}
	if !eventually(40*time.Second, func() bool {
		w.cur = w.leader(nil, 10*time.Second)
		if w.cur == nil {
			return false
		}
		r := MS{w.cur}.AddMeta("sync", "start", "b")
		return r.Err == nil && (r.Code == 201 || r.Code == 400)
	}) {
		x.Violate("no-leader", "%s: a new group of %d elects no leader within 40 s", w.name, len(w.members))
		return
	}
	w.s.metas["sync"] = &simMeta{name: "start", bucket: "b", vers: map[int]MVersion{}}
	// sync is only written by settle
	step := w.s.ids
	w.s.ids = step[1:]
	if !w.settle("in the beginning", nil) || !w.steps(25) || !w.compare("in the beginning", nil) {
		w.end()
		return
	}
	for _, t := range troubles {
		x.Logf("%s: %s (leader %s)", w.name, t, w.cur.ID)
		x.Event("disturbances", 1)
		x.Case(fmt.Sprintf("%d members: %s", len(w.members), t))
		if !w.trouble(t) || !w.compare("after "+t, nil) || !w.steps(8) {
			break
		}
		w.refuse("after "+t, nil)
		if !w.compare("after writes after "+t, nil) {
			break
		}
		if len(w.s.ids) > 30 {
			w.s.ids = w.s.ids[:30]
			for id := range w.s.metas {
				keep := id == "sync"
				for _, k := range w.s.ids {
					keep = keep || k == id
				}
				if !keep {
					if r := (MS{w.cur}).DelMeta(id); r.Err != nil || r.Code/100 != 2 {
						w.failed("del-meta", r)
						break
					}
					delete(w.s.metas, id)
				}
			}
		}
	}
	w.end()
}

func (w *raftWorld) end() {
	if w.gone {
		w.x.Event("histories_given_up_after_an_election_by_itself", 1)
		w.x.Logf("%s: given up: an election happened by itself", w.name)
		return
	}
	for _, n := range w.members {
		if !n.Running() && !w.x.Violated() {
			w.x.Violate("died:metaserver", "%s: member %s died by itself:\n%s", w.name, n.ID, n.LogTail(60))
		}
	}
}

// serving finds the leader that has carried out everything acknowledged before: one that acknowledges a write.
func (w *raftWorld) serving(not *cluster.Node) *cluster.Node {
	for dl := time.Now().Add(30 * time.Second); time.Now().Before(dl); {
		if n := w.leader(not, 5*time.Second); n != nil {
			w.marks++
			if r := (MS{n}).AddMeta(fmt.Sprintf("serving/%d", w.marks), "n", "b"); r.Err == nil && r.Code == 201 {
				return n
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	return nil
}

// raftLin lets clients write and read at the leader, whoever that is, while leaders die; the answers are linearizable.
func raftLin(x *Ctx, name string, rounds int, seed int64) {
	w := newRaftWorld(x, name, 3, seed)
	if !x.Start(w.c) {
		return
	}
	var cur atomic.Pointer[cluster.Node]
	cur.Store(w.serving(nil))
	if cur.Load() == nil {
		x.Violate("no-leader", "%s: a new group elects no leader within 30 s", name)
		return
	}
	nobody := w.members[0]
	target := func(int) MS {
		for i := 0; i < 4000; i++ {
			if n := cur.Load(); n != nil {
				return MS{n}
			}
			time.Sleep(10 * time.Millisecond)
		}
		return MS{nobody}
	}
	for round := 0; round < rounds && !x.Violated(); round++ {
		ids := []string{}
		for k := 0; k < 3; k++ {
			ids = append(ids, fmt.Sprintf("%s/r%d/n%d", name, round, k))
		}
		var kill func()
		how := w.rng.Intn(4)
		won := w.wins()
		if round%4 != 0 {
			kill = func() {
				l := cur.Load()
				cur.Store(nil)
				switch how {
				case 0:
					l.Stop(15 * time.Second)
				case 1:
					l.Signal(syscall.SIGSTOP)
				default:
					l.Kill9()
				}
				x.Event("leaders_lost_under_load", 1)
				n := w.serving(l)
				if n == nil {
					x.Violate("no-leader", "%s: nobody leads 30 s after the leader is gone", name)
					n = w.members[0]
				}
				cur.Store(n)
				if how == 1 {
					l.Signal(syscall.SIGCONT)
				} else if err := restart(l); err != nil {
					x.Violate("restart", "%s: a member does not come up again: %v", name, err)
				}
			}
		}
		h := linRound(x, ids, 6, 24, seed*100+int64(round), target, kill)
		lost := 0
		if kill != nil {
			lost = 1
		}
		if w.wins() > won+lost { // who led is not known
			x.Event("rounds_given_up_after_an_election_by_itself", 1)
			cur.Store(w.serving(nil))
			continue
		}
		linJudge(x, fmt.Sprintf("%s round %d", name, round), h)
	}
	x.CheckAlive(w.c)
}

func c11(x *Ctx) {
	x.Rule("groups of three and five metadata servers against the model of one store: seeded operations at the leader; leaders, minorities, majorities and all members killed, stopped, suspended, wiped; members joining late and leaving; " +
		"writes sent to members that do not lead and to groups without a majority; afterwards every member answers as the model (and as each other, times included). Concurrent clients at the leader while leaders are lost, judged for linearizability. " +
		"The state machine itself with real raft, frequent snapshots, crashes and late members in-process. A case is distinct by operation, name, situation, disturbance and group size.")
	seed := x.Seed * 7919
	var jobs []func()
	add := func(f func()) { jobs = append(jobs, func() { x.run(func(*Ctx) { f() }) }) }
	for k := 0; k < x.Pick(3, 9); k++ {
		k := k
		size := []int{3, 5, 3}[k%3]
		var ts []string
		for i := 0; i < x.Pick(1, 3); i++ {
			for _, j := range rand.New(rand.NewSource(seed + int64(k*10+i))).Perm(len(raftTrouble)) {
				ts = append(ts, raftTrouble[j])
			}
		}
		if !x.Thorough() && k < 3 { // each trouble in two of the three
			var part []string
			for j, t := range ts {
				if j%3 != k {
					part = append(part, t)
				}
			}
			ts = part
		}
		add(func() { newRaftWorld(x, fmt.Sprintf("r%d", k), size, seed+int64(k)).run(ts) })
	}
	add(func() { raftLin(x, "lin", x.Pick(9, 60), seed+77) })
	add(func() { x.inproc("c11m", 400*time.Second) })
	parallel(len(jobs), 5, func(i int) { jobs[i]() })
}
