// Command c11m runs the metadata servers' state machine and storage under the real raft library, several members in one
// process, with snapshots every few logs, crashes, lost data and late members, and compares the members with a model.
package main

import (
	"common/cache"
	"common/proto/msg"
	"common/util"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"metaserver/internal/entity"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/allegro/bigcache/v3"
	"github.com/hashicorp/go-hclog"
	"github.com/hashicorp/raft"
	boltdb "github.com/hashicorp/raft-boltdb/v2"
	bolt "go.etcd.io/bbolt"

	. "verifharness/report"
)

type member struct {
	id    string
	dir   string
	st    *db.Storage
	meta  *repo.MetadataRepo
	fsm   raft.FSM
	r     *raft.Raft
	log   *boltdb.BoltStore
	trans *raft.InmemTransport
	fss   raft.SnapshotStore
	up    bool
	gone  chan bool
	// cut off from the others
	cut bool
	// the content is not in the original file
	replaced bool
}

type world struct {
	rng     *rand.Rand
	dir     string
	all     []*member
	metas   map[string]*meta
	buckets map[string]int32
	ids     []string
	tag     int64
	trail   uint64
	thresh  uint64
}

type meta struct {
	name string
	seq  uint64
	vers map[uint64]int64
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *world) start(m *member, bootstrap []raft.Server) {
	check(os.MkdirAll(m.dir, 0o755))
	m.st = db.NewStorage()
	if err := m.st.Open(filepath.Join(m.dir, "metadata.db")); err != nil {
		Violate("restart", "%s: the storage does not open again: %v", m.id, err)
		panic(err)
	}
	conf := bigcache.DefaultConfig(time.Minute)
	conf.HardMaxCacheSize, conf.Verbose = 8, false
	c := cache.NewCache(conf)
	mc, bc := repo.NewMetadataCacheRepo(c), repo.NewBucketCacheRepo(c)
	m.meta = repo.NewMetadataRepo(m.st, mc)
	m.fsm = raftimpl.NewFSM(m.meta, repo.NewBatchRepo(m.st, mc), repo.NewBucketRepo(m.st, bc), repo.NewBatchBucketRepo(m.st, bc), m.meta)
	var err error
	m.log, err = boltdb.New(boltdb.Options{Path: filepath.Join(m.dir, "raft-store.dat"), NoSync: true})
	check(err)
	m.fss, err = raft.NewFileSnapshotStore(m.dir, 2, io.Discard)
	check(err)
	exists, err := raft.HasExistingState(m.log, m.log, m.fss)
	check(err)
	if rs, ok := m.fsm.(interface{ ResetApplied() error }); ok && !exists {
		check(rs.ResetApplied())
	}
	_, m.trans = raft.NewInmemTransportWithTimeout(raft.ServerAddress(m.id), 2*time.Second)
	rc := raft.DefaultConfig()
	rc.LocalID = raft.ServerID(m.id)
	rc.HeartbeatTimeout, rc.ElectionTimeout, rc.LeaderLeaseTimeout, rc.CommitTimeout = 250*time.Millisecond, 250*time.Millisecond, 200*time.Millisecond, 5*time.Millisecond
	rc.SnapshotInterval, rc.SnapshotThreshold, rc.TrailingLogs = 60*time.Millisecond, w.thresh, w.trail
	rc.Logger = hclog.New(&hclog.LoggerOptions{Output: io.Discard, Level: hclog.Off})
	m.r, err = raft.NewRaft(rc, m.fsm, m.log, m.log, m.fss, m.trans)
	if err != nil {
		Violate("restart", "%s: raft does not start again: %v", m.id, err)
		panic(err)
	}
	m.up, m.gone = true, make(chan bool)
	for _, o := range w.all {
		if o != m && o.up {
			o.trans.Connect(raft.ServerAddress(m.id), m.trans)
			m.trans.Connect(raft.ServerAddress(o.id), o.trans)
		}
	}
	if bootstrap != nil {
		check(m.r.BootstrapCluster(raft.Configuration{Servers: bootstrap}).Error())
	}
}

// crash ends a member as a killed process would: nothing is tidied up.
func (w *world) crash(m *member, tidy bool) {
	m.up = false
	for _, o := range w.all {
		if o != m && o.trans != nil {
			o.trans.Disconnect(raft.ServerAddress(m.id))
		}
	}
	m.trans.DisconnectAll()
	_ = m.r.Shutdown().Error()
	close(m.gone)
	m.log.Close()
	if tidy {
		if err := m.st.Stop(); err != nil {
			Violate("stop", "%s: stopping the storage: %v", m.id, err)
		}
		m.replaced = false
	} else {
		m.replaced = m.st.DB().Path() != filepath.Join(m.dir, "metadata.db")
		m.st.DB().Close()
	}
}

func (w *world) leader() *member {
	for dl := time.Now().Add(30 * time.Second); time.Now().Before(dl); time.Sleep(5 * time.Millisecond) {
		for _, m := range w.all {
			if m.up && !m.cut && m.r.State() == raft.Leader && m.r.VerifyLeader().Error() == nil {
				return m
			}
		}
	}
	return nil
}

func apply(l *member, d *entity.RaftData) (*raftimpl.FSMResponse, error) {
	bt, err := util.EncodeMsgp(d)
	check(err)
	f := l.r.Apply(bt, 5*time.Second)
	// a member that ends may never answer what it was handed
	ch := make(chan error, 1)
	go func() { ch <- f.Error() }()
	select {
	case err := <-ch:
		if err != nil {
			return nil, err
		}
	case <-l.gone:
		select {
		case err := <-ch:
			if err != nil {
				return nil, err
			}
		case <-time.After(200 * time.Millisecond):
			return nil, raft.ErrRaftShutdown
		}
	}
	resp, ok := f.Response().(*raftimpl.FSMResponse)
	if !ok {
		return nil, fmt.Errorf("response %v", f.Response())
	}
	return resp, nil
}

func (w *world) version(tag int64) *msg.Version {
	h := sha256.Sum256([]byte{byte(tag % 5)})
	return &msg.Version{StoreStrategy: 1, DataShards: 1, ShardSize: 1, Size: tag, Ts: tag, UniqueId: fmt.Sprintf("u%d", tag), Hash: hex.EncodeToString(h[:]), Locate: []string{"l"}}
}

// step performs one operation at the leader and judges its answer.
func (w *world) step(l *member) bool {
	id := w.ids[w.rng.Intn(len(w.ids))]
	m := w.metas[id]
	w.tag++
	var d entity.RaftData
	ok := true
	var done func(r *raftimpl.FSMResponse)
	n := uint64(1 + w.rng.Intn(6))
	what := ""
	switch k := w.rng.Intn(16); {
	case k < 2:
		what = "add"
		d = entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: id, Metadata: &msg.Metadata{Name: fmt.Sprint("n", w.tag), Bucket: "b", CreateTime: w.tag, UpdateTime: w.tag}}
		ok = m == nil
		done = func(*raftimpl.FSMResponse) { w.metas[id] = &meta{fmt.Sprint("n", w.tag), 0, map[uint64]int64{}} }
	case k == 2:
		what = "update"
		d = entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestMetadata, Name: id, Metadata: &msg.Metadata{Name: fmt.Sprint("n", w.tag), Bucket: "b", UpdateTime: w.tag}}
		ok = m != nil
		done = func(*raftimpl.FSMResponse) { m.name = fmt.Sprint("n", w.tag) }
	case k == 3:
		what = "remove"
		d = entity.RaftData{Type: entity.LogRemove, Dest: entity.DestMetadata, Name: id}
		done = func(*raftimpl.FSMResponse) { delete(w.metas, id) }
	case k < 9:
		what = "add version"
		d = entity.RaftData{Type: entity.LogInsert, Dest: entity.DestVersion, Name: id, Version: w.version(w.tag)}
		ok = m != nil
		done = func(r *raftimpl.FSMResponse) {
			m.seq++
			m.vers[m.seq] = w.tag
			if got, _ := r.Data.(uint64); got != m.seq {
				Violate("number", "adding a version to %s gave number %v, want %d", id, r.Data, m.seq)
			}
		}
	case k == 9:
		what = "update version"
		d = entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestVersion, Name: id, Sequence: n, Version: w.version(w.tag)}
		ok = m != nil && m.vers[n] != 0
		done = func(*raftimpl.FSMResponse) { m.vers[n] = w.tag }
	case k < 12:
		what = "remove version"
		d = entity.RaftData{Type: entity.LogRemove, Dest: entity.DestVersion, Name: id, Sequence: n}
		if m != nil && m.vers[n] == 0 {
			ok = false
		}
		done = func(*raftimpl.FSMResponse) {
			if m != nil {
				delete(m.vers, n)
			}
		}
	case k == 12 && w.rng.Intn(2) == 0:
		what = "remove all versions"
		if m == nil {
			return true
		}
		d = entity.RaftData{Type: entity.LogRemove, Dest: entity.DestVersionAll, Name: id}
		done = func(*raftimpl.FSMResponse) { m.vers, m.seq = map[uint64]int64{}, 0 }
	case k == 13:
		what = "receive"
		d = entity.RaftData{Type: entity.LogMigrate, Dest: entity.DestMetadata, Name: id, Sequence: n, Metadata: &msg.Metadata{Name: fmt.Sprint("n", w.tag), Bucket: "b", CreateTime: w.tag, UpdateTime: w.tag}}
		done = func(*raftimpl.FSMResponse) { w.metas[id] = &meta{fmt.Sprint("n", w.tag), n, map[uint64]int64{}} }
	case k == 14:
		what = "receive version"
		v := w.version(w.tag)
		v.Sequence = n
		d = entity.RaftData{Type: entity.LogMigrate, Dest: entity.DestVersion, Name: id, Version: v}
		ok = m != nil && m.vers[n] == 0
		done = func(*raftimpl.FSMResponse) {
			m.vers[n] = w.tag
			if n > m.seq {
				m.seq = n
			}
		}
	default:
		name := fmt.Sprint("bk", w.rng.Intn(3))
		_, have := w.buckets[name]
		switch w.rng.Intn(3) {
		case 0:
			what = "add bucket"
			d = entity.RaftData{Type: entity.LogInsert, Dest: entity.DestBucket, Name: name, Bucket: &msg.Bucket{Name: name, VersionRemains: int32(w.tag), CreateTime: w.tag, UpdateTime: w.tag}}
			ok = !have
			done = func(*raftimpl.FSMResponse) { w.buckets[name] = int32(w.tag) }
		case 1:
			what = "update bucket"
			d = entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestBucket, Name: name, Bucket: &msg.Bucket{Name: name, VersionRemains: int32(w.tag), UpdateTime: w.tag}}
			ok = have
			done = func(*raftimpl.FSMResponse) { w.buckets[name] = int32(w.tag) }
		default:
			what = "remove bucket"
			d = entity.RaftData{Type: entity.LogRemove, Dest: entity.DestBucket, Name: name}
			done = func(*raftimpl.FSMResponse) { delete(w.buckets, name) }
		}
	}
	resp, err := apply(l, &d)
	Event("logs", 1)
	if err != nil { // leadership went by itself: whether it was done is seen later
		return false
	}
	Case(fmt.Sprintf("%s ok=%v", what, ok))
	if resp.Ok() != ok {
		Violate("answer", "%s of %s (%+v) is answered %v, want ok=%v", what, id, d, resp.ToError(), ok)
		return false
	}
	if ok {
		done(resp)
	}
	return true
}

// dump describes everything a member has stored.
func (m *member) dump() map[string]string {
	r := map[string]string{}
	var walk func(b *bolt.Bucket, path string)
	walk = func(b *bolt.Bucket, path string) {
		r[path+" sequence"] = fmt.Sprint(b.Sequence())
		_ = b.ForEach(func(k, v []byte) error {
			if v == nil {
				walk(b.Bucket(k), path+"/"+string(k))
			} else {
				r[path+"/"+string(k)] = string(v)
			}
			return nil
		})
	}
	_ = m.st.DB().View(func(tx *bolt.Tx) error {
		return tx.ForEach(func(name []byte, b *bolt.Bucket) error {
			if !strings.Contains(string(name), "lastAppliedIndex") {
				walk(b, string(name))
			}
			return nil
		})
	})
	return r
}

// differs compares what all members read, with the cache in front, to the model.
func (w *world) differs() (string, string) {
	for _, m := range w.all {
		if !m.up {
			continue
		}
		for _, id := range w.ids {
			e := w.metas[id]
			g, err := m.meta.GetMetadata(id)
			if (err == nil) != (e != nil) || e != nil && g.Name != e.name {
				return "meta", fmt.Sprintf("%s reads %s as %+v, %v; want %+v", m.id, id, g, err, e)
			}
			for n := uint64(1); n <= 8; n++ {
				v, err := m.meta.GetVersion(id, n)
				want := int64(0)
				if e != nil {
					want = e.vers[n]
				}
				if (err == nil) != (want != 0) || want != 0 && v.Size != want {
					return "version", fmt.Sprintf("%s reads %s.%d as %+v, %v; want %d", m.id, id, n, v, err, want)
				}
			}
			if e != nil {
				if s := m.meta.VersionSequence(id); s != e.seq {
					return "sequence", fmt.Sprintf("numbers of %s are at %d on %s, want %d", id, s, m.id, e.seq)
				}
				l, total, err := m.meta.ListVersions(id, 1, 1000)
				if err != nil || total != len(e.vers) || len(l) != total {
					return "list", fmt.Sprintf("%s lists %d/%d versions of %s (%v), want %d", m.id, len(l), total, id, err, len(e.vers))
				}
			}
		}
	}
	return "", ""
}

// compare waits for all members to have everything and compares them with each other and with the model.
func (w *world) compare(when string) bool {
	l := w.leader()
	if l == nil {
		Violate("no-leader", "%s: no leader within 30 s", when)
		return false
	}
	if err := l.r.Barrier(10 * time.Second).Error(); err != nil {
		return false
	}
	for _, m := range w.all {
		if !m.up {
			continue
		}
		dl := time.Now().Add(20 * time.Second)
		for m.r.AppliedIndex() < l.r.AppliedIndex() {
			if time.Now().After(dl) {
				Violate("behind", "%s: %s has applied %d of the leader's %d logs after 20 s: %v", when, m.id, m.r.AppliedIndex(), l.r.AppliedIndex(), m.r.Stats())
				return false
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	// the library counts a log as applied when it is handed over, a moment before it is
	want := l.dump()
	for _, m := range w.all {
		if !m.up || m == l {
			continue
		}
		diff, n := "", 0
		for dl := time.Now().Add(10 * time.Second); ; time.Sleep(3 * time.Millisecond) {
			got := m.dump()
			n, diff = len(got), ""
			for k, v := range want {
				if g, ok := got[k]; !ok || g != v {
					diff = fmt.Sprintf("has %q = %q, leader %s has %q", k, g, l.id, v)
				}
			}
			for k, v := range got {
				if _, ok := want[k]; !ok {
					diff = fmt.Sprintf("has %q = %q, leader %s has not", k, v, l.id)
				}
			}
			if diff == "" || time.Now().After(dl) {
				break
			}
		}
		if diff != "" {
			Violate("members-differ", "%s: %s %s", when, m.id, diff)
			return false
		}
		Event("stores_compared", 1)
		Event("records_compared", int64(n))
	}
	key, text := "", ""
	for dl := time.Now().Add(5 * time.Second); ; time.Sleep(3 * time.Millisecond) {
		if key, text = w.differs(); key == "" || time.Now().After(dl) {
			break
		}
	}
	if key != "" {
		Violate(key, "%s: %s", when, text)
		return false
	}
	Event("comparisons", 1)
	return true
}

// adopt takes the leader's content as the model where concurrent operations were judged otherwise.
func (w *world) adopt(l *member) {
	for id, e := range w.metas {
		e.vers, e.seq = map[uint64]int64{}, l.meta.VersionSequence(id)
		vs, _, _ := l.meta.ListVersions(id, 1, 100000)
		for _, v := range vs {
			e.vers[v.Sequence] = v.Size
		}
	}
}

// burst adds versions concurrently while a member goes away: acknowledged ones are there with their number, all at most once.
func (w *world) burst(victim *member, tidy bool) bool {
	var ids []string
	for id := range w.metas {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if len(ids) == 0 {
		return true
	}
	type ack struct {
		id string
		n  uint64
	}
	base := w.tag
	w.tag += 64
	var mu sync.Mutex
	acks := map[int64]ack{}
	var wg sync.WaitGroup
	l := w.leader()
	if l == nil {
		return true
	}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 8; i++ {
				tag := base + int64(g*8+i) + 1
				id := ids[int(tag)%len(ids)]
				r, err := apply(l, &entity.RaftData{Type: entity.LogInsert, Dest: entity.DestVersion, Name: id, Version: w.version(tag)})
				Event("logs", 1)
				if err != nil {
					Event("writes_cut_off", 1)
					continue
				}
				if !r.Ok() {
					Violate("answer", "adding a version to %s is answered %v", id, r.ToError())
					continue
				}
				n, _ := r.Data.(uint64)
				mu.Lock()
				acks[tag] = ack{id, n}
				mu.Unlock()
			}
		}(g)
	}
	time.Sleep(time.Duration(w.rng.Intn(150)) * time.Millisecond)
	w.crash(victim, tidy)
	wg.Wait()
	w.start(victim, nil)
	Event("crashes_under_load", 1)
	nl := w.leader()
	if nl == nil {
		Violate("no-leader", "no leader within 30 s after a crash")
		return false
	}
	if err := nl.r.Barrier(10 * time.Second).Error(); err != nil {
		return true
	}
	at := map[int64]ack{}
	for _, id := range ids {
		vs, _, _ := nl.meta.ListVersions(id, 1, 100000)
		for _, v := range vs {
			if v.Size > base {
				if o, dup := at[v.Size]; dup {
					Violate("applied-twice", "the version tagged %d is there twice: %v and %s.%d", v.Size, o, id, v.Sequence)
					return false
				}
				at[v.Size] = ack{id, v.Sequence}
			}
		}
	}
	for tag, a := range acks {
		if at[tag] != a {
			Violate("acknowledged-lost", "the version tagged %d was acknowledged as %v, afterwards it is %v (leader %s, crashed %s)", tag, a, at[tag], nl.id, victim.id)
			return false
		}
	}
	Event("acknowledged_writes_checked", int64(len(acks)))
	w.adopt(nl)
	return true
}

func run(seed int64, size, rounds int) (ok bool) {
	w := &world{rng: rand.New(rand.NewSource(seed)), metas: map[string]*meta{}, buckets: map[string]int32{}}
	w.thresh, w.trail = uint64(4+w.rng.Intn(30)), uint64(w.rng.Intn(12))
	if w.rng.Intn(3) == 0 {
		w.thresh = 100000
	}
	var err error
	w.dir, err = os.MkdirTemp(".", "w")
	check(err)
	defer os.RemoveAll(w.dir)
	for i := 0; i < 5; i++ {
		w.ids = append(w.ids, fmt.Sprintf("b/a%s", []string{"", ".1", ".1.1", "/1", ".2"}[i]))
	}
	var conf []raft.Server
	for i := 0; i < size; i++ {
		m := &member{id: fmt.Sprint("m", i), dir: filepath.Join(w.dir, fmt.Sprint("m", i))}
		w.all = append(w.all, m)
		conf = append(conf, raft.Server{ID: raft.ServerID(m.id), Address: raft.ServerAddress(m.id)})
	}
	for _, m := range w.all {
		w.start(m, conf)
	}
	defer func() {
		for _, m := range w.all {
			if m.up {
				w.crash(m, false)
			}
		}
	}()
	for round := 0; round < rounds; round++ {
		l := w.leader()
		if l == nil {
			Violate("no-leader", "no leader within 30 s")
			return false
		}
		for i := 0; i < 20+w.rng.Intn(30); i++ {
			if !w.step(l) {
				Event("histories_given_up_after_an_election_by_itself", 1)
				return true
			}
		}
		victim := w.all[w.rng.Intn(len(w.all))]
		tidy := w.rng.Intn(3) == 0
		what := ""
		k := w.rng.Intn(8)
		if round == rounds-1 && w.rng.Intn(2) == 0 {
			k = 8
		}
		switch k {
		case 0:
			what = "one restarted"
			w.crash(victim, tidy)
			w.start(victim, nil)
		case 1:
			what = "all restarted"
			for _, m := range w.all {
				w.crash(m, w.rng.Intn(2) == 0)
			}
			for _, i := range w.rng.Perm(len(w.all)) {
				w.start(w.all[i], nil)
			}
		case 2:
			if len(w.all) < 3 {
				continue
			}
			what = "one lost everything"
			w.crash(victim, tidy)
			check(os.RemoveAll(victim.dir))
			if l = w.leader(); l != nil {
				for i := 0; i < 10; i++ {
					if !w.step(l) {
						Event("histories_given_up_after_an_election_by_itself", 1)
						return true
					}
				}
			}
			w.start(victim, nil)
		case 3:
			if len(w.all) >= size+2 {
				continue
			}
			what = "one joined"
			m := &member{id: fmt.Sprint("late", round), dir: filepath.Join(w.dir, fmt.Sprint("late", round))}
			w.all = append(w.all, m)
			w.start(m, nil)
			if err := l.r.AddVoter(raft.ServerID(m.id), raft.ServerAddress(m.id), 0, 10*time.Second).Error(); err != nil {
				Event("histories_given_up_after_an_election_by_itself", 1)
				return true
			}
		case 4, 5:
			if len(w.all) < 3 {
				continue
			}
			what = "one cut off"
			for _, o := range w.all {
				o.trans.Disconnect(raft.ServerAddress(victim.id))
			}
			victim.trans.DisconnectAll()
			victim.cut = true
			if l = w.leader(); l != nil {
				for i := 0; i < 5+w.rng.Intn(30); i++ {
					if !w.step(l) {
						Event("histories_given_up_after_an_election_by_itself", 1)
						return true
					}
				}
			}
			victim.cut = false
			for _, o := range w.all {
				if o != victim {
					o.trans.Connect(raft.ServerAddress(victim.id), victim.trans)
					victim.trans.Connect(raft.ServerAddress(o.id), o.trans)
				}
			}
		case 8: // last, as whoever joins later would not get what came before
			what = "all lost their logs"
			if !w.compare("before all lose their logs") {
				return false
			}
			var conf []raft.Server
			for _, m := range w.all {
				w.crash(m, w.rng.Intn(2) == 0)
				conf = append(conf, raft.Server{ID: raft.ServerID(m.id), Address: raft.ServerAddress(m.id)})
			}
			same := true
			for _, m := range w.all { // a crashed one which got a snapshot has its content there
				if m.replaced {
					same = false
				}
			}
			if same {
				for _, m := range w.all {
					check(os.RemoveAll(filepath.Join(m.dir, "raft-store.dat")))
					check(os.RemoveAll(filepath.Join(m.dir, "snapshots")))
				}
			} else {
				conf, what = nil, "all restarted"
			}
			for _, i := range w.rng.Perm(len(w.all)) {
				w.start(w.all[i], conf)
			}
			if l = w.leader(); l != nil {
				for i := 0; i < 10; i++ {
					if !w.step(l) {
						Event("histories_given_up_after_an_election_by_itself", 1)
						return true
					}
				}
			}
		default:
			what = "one restarted under load"
			if !w.burst(victim, tidy) {
				return false
			}
		}
		Case(fmt.Sprintf("%d members, snapshots every %d, %d logs kept: %s tidy=%v leader=%v", len(w.all), w.thresh, w.trail, what, tidy, victim == l))
		Event("disturbances", 1)
		if !w.compare("after " + what) {
			return false
		}
	}
	snaps := int64(0)
	for _, m := range w.all {
		l, _ := m.fss.List()
		snaps += int64(len(l))
	}
	Event("snapshots_left", snaps)
	return true
}

func main() {
	n := Pick(12, 120)
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			run(Rand(int64(100+i)).Int63(), []int{3, 3, 5, 1}[i%4], Pick(6, 12))
		}(i)
	}
	wg.Wait()
	Done()
}
