// Package fakeetcd is an in-memory stand-in for etcd (v3 gRPC API: KV, Watch, Lease, Auth, Maintenance),
// enough for the servers under test. It keeps the semantics they rely on: revisions, prefix ranges,
// compare-and-swap transactions, ordered watches and leases.  Leases expire only when told to or when
// the client stops sending keepalives for the granted TTL.
package fakeetcd

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type lease struct {
	id   int64
	ttl  int64
	last time.Time
	keys map[string]struct{}
}

type event struct {
	ev *mvccpb.Event
}

type Server struct {
	mu         sync.Mutex
	rev        int64
	kv         map[string]*mvccpb.KeyValue
	leases     map[int64]*lease
	history    []*mvccpb.Event // all events ever, Kv.ModRevision is ascending
	cond       *sync.Cond
	nextID     int64
	grpc       *grpc.Server
	lis        net.Listener
	closed     bool
	Frozen     atomic.Bool // lease expiry disabled
	FailKV     atomic.Bool // every KV call fails
	Puts       atomic.Int64
	Watches    atomic.Int64
	OnPut      func(key, val string) // observer, called with the lock held
	OnDelete   func(key string)
	FailLease  atomic.Bool  // leases are not granted
	LoseTxn    atomic.Int64 // so many transactions are done but answered with an error
	afterRange atomic.Pointer[func(string)]
	compacted  int64 // revisions up to this one are gone
	cancels    int64 // counts CancelWatches
	drops      int64 // counts DropStreams
	addr       string
	FailGet    func(key string) bool // reads of such keys fail; called with the lock held
}

func New() *Server {
	s := &Server{kv: map[string]*mvccpb.KeyValue{}, leases: map[int64]*lease{}, rev: 1, nextID: 1000}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *Server) Start(addr string) (string, error) {
	lis, err := net.Listen("tcp", addr)
	if err != nil {
		return "", err
	}
	s.addr = lis.Addr().String()
	s.serve(lis)
	go s.expireLoop()
	return s.addr, nil
}

func (s *Server) serve(lis net.Listener) {
	s.lis = lis
	s.grpc = grpc.NewServer()
	etcdserverpb.RegisterKVServer(s.grpc, &kvServer{s})
	etcdserverpb.RegisterWatchServer(s.grpc, &watchServer{s})
	etcdserverpb.RegisterLeaseServer(s.grpc, &leaseServer{s: s})
	etcdserverpb.RegisterAuthServer(s.grpc, &authServer{})
	etcdserverpb.RegisterMaintenanceServer(s.grpc, &maintServer{s: s})
	go s.grpc.Serve(lis)
}

// Down makes the server unreachable, Up lets it come back with what it had.
func (s *Server) Down() {
	s.mu.Lock()
	s.drops++
	s.cond.Broadcast()
	s.mu.Unlock()
	s.grpc.Stop()
}

func (s *Server) Up() error {
	var err error
	for i := 0; i < 100; i++ {
		var lis net.Listener
		if lis, err = net.Listen("tcp", s.addr); err == nil {
			s.serve(lis)
			return nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return err
}

// SetAfterRange sets what is called after a read has been answered within the server, without the lock.
func (s *Server) SetAfterRange(f func(string)) { s.afterRange.Store(&f) }

// CancelWatches cancels every watch as compacted, watches can only start from now on.
func (s *Server) CancelWatches() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.compacted = s.rev
	s.cancels++
	s.cond.Broadcast()
}

// DropStreams breaks every watch stream; clients resume from the last revision they have seen.
func (s *Server) DropStreams() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.drops++
	s.cond.Broadcast()
}

// Entry is a key with all that is known of it.
type Entry struct {
	Key, Value string
	Lease      int64
}

func (s *Server) Entries(prefix string) []Entry {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []Entry
	for k, v := range s.kv {
		if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
			l = append(l, Entry{k, string(v.Value), v.Lease})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Key < l[j].Key })
	return l
}

func (s *Server) Stop() {
	s.mu.Lock()
	s.closed = true
	s.cond.Broadcast()
	s.mu.Unlock()
	if s.grpc != nil {
		s.grpc.Stop()
	}
}

func (s *Server) expireLoop() {
	for {
		time.Sleep(200 * time.Millisecond)
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			return
		}
		if !s.Frozen.Load() {
			now := time.Now()
			for id, l := range s.leases {
				if now.Sub(l.last) > time.Duration(l.ttl)*time.Second {
					s.revokeLocked(id)
				}
			}
		}
		s.mu.Unlock()
	}
}

// ---- direct access for the harness

func (s *Server) Get(key string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.kv[key]
	if !ok {
		return "", false
	}
	return string(v.Value), true
}

func (s *Server) List(prefix string) map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	res := map[string]string{}
	for k, v := range s.kv {
		if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
			res[k] = string(v.Value)
		}
	}
	return res
}

func (s *Server) Put(key, val string) int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.putLocked([]byte(key), []byte(val), 0)
	return s.rev
}

func (s *Server) Delete(key string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.delLocked([]byte(key), nil)
}

func (s *Server) Rev() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.rev
}

// FailNextGet makes the next n reads of a key fail.
func (s *Server) FailNextGet(key string, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.FailGet = func(k string) bool {
		if k != key || n == 0 {
			return false
		}
		n--
		return true
	}
}

// RevokeLeaseOf revokes the lease a key is attached to.
func (s *Server) RevokeLeaseOf(key string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	kv, ok := s.kv[key]
	if !ok || kv.Lease == 0 {
		return false
	}
	s.revokeLocked(kv.Lease)
	return true
}

func (s *Server) revokeLocked(id int64) {
	l, ok := s.leases[id]
	if !ok {
		return
	}
	delete(s.leases, id)
	keys := make([]string, 0, len(l.keys))
	for k := range l.keys {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return
	}
	s.rev++
	for _, k := range keys {
		if kv, ok := s.kv[k]; ok && kv.Lease == id {
			delete(s.kv, k)
			if s.OnDelete != nil {
				s.OnDelete(k)
			}
			s.history = append(s.history, &mvccpb.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: s.rev}})
		}
	}
	s.cond.Broadcast()
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func (s *Server) putLocked(key, val []byte, leaseID int64) *mvccpb.KeyValue {
	s.rev++
	return s.putAtLocked(key, val, leaseID)
}

func (s *Server) putAtLocked(key, val []byte, leaseID int64) *mvccpb.KeyValue {
	s.Puts.Add(1)
	prev := s.kv[string(key)]
	nk := &mvccpb.KeyValue{Key: clone(key), Value: clone(val), CreateRevision: s.rev, ModRevision: s.rev, Version: 1, Lease: leaseID}
	if prev != nil {
		nk.CreateRevision = prev.CreateRevision
		nk.Version = prev.Version + 1
		if prev.Lease != 0 && prev.Lease != leaseID {
			if l := s.leases[prev.Lease]; l != nil {
				delete(l.keys, string(key))
			}
		}
	}
	if leaseID != 0 {
		if l := s.leases[leaseID]; l != nil {
			l.keys[string(key)] = struct{}{}
		}
	}
	s.kv[string(key)] = nk
	if s.OnPut != nil {
		s.OnPut(string(key), string(val))
	}
	s.history = append(s.history, &mvccpb.Event{Type: mvccpb.PUT, Kv: nk})
	s.cond.Broadcast()
	return prev
}

func inRange(k, key, end []byte) bool {
	if len(end) == 0 {
		return bytes.Equal(k, key)
	}
	if bytes.Compare(k, key) < 0 {
		return false
	}
	if len(end) == 1 && end[0] == 0 {
		return true
	}
	return bytes.Compare(k, end) < 0
}

// findLocked returns the entries of a range, in no order.
func (s *Server) findLocked(key, end []byte) []*mvccpb.KeyValue {
	if len(end) == 0 {
		if v, ok := s.kv[string(key)]; ok {
			return []*mvccpb.KeyValue{v}
		}
		return nil
	}
	var found []*mvccpb.KeyValue
	from, to := string(key), string(end)
	open := to == "\x00"
	for k, v := range s.kv {
		if k >= from && (open || k < to) {
			found = append(found, v)
		}
	}
	return found
}

func (s *Server) delLocked(key, end []byte) []*mvccpb.KeyValue {
	var del []*mvccpb.KeyValue
	del = s.findLocked(key, end)
	if len(del) == 0 {
		return nil
	}
	s.rev++
	sort.Slice(del, func(i, j int) bool { return bytes.Compare(del[i].Key, del[j].Key) < 0 })
	for _, v := range del {
		delete(s.kv, string(v.Key))
		if v.Lease != 0 {
			if l := s.leases[v.Lease]; l != nil {
				delete(l.keys, string(v.Key))
			}
		}
		if s.OnDelete != nil {
			s.OnDelete(string(v.Key))
		}
		s.history = append(s.history, &mvccpb.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: clone(v.Key), ModRevision: s.rev}})
	}
	s.cond.Broadcast()
	return del
}

func (s *Server) header() *etcdserverpb.ResponseHeader {
	return &etcdserverpb.ResponseHeader{ClusterId: 1, MemberId: 1, Revision: s.rev, RaftTerm: 1}
}

// ---- KV

type kvServer struct{ s *Server }

var errInjected = errors.New("fakeetcd: injected failure")

func (k *kvServer) Range(_ context.Context, r *etcdserverpb.RangeRequest) (*etcdserverpb.RangeResponse, error) {
	resp, err := func() (*etcdserverpb.RangeResponse, error) {
		k.s.mu.Lock()
		defer k.s.mu.Unlock()
		if k.s.FailKV.Load() || k.s.FailGet != nil && k.s.FailGet(string(r.Key)) {
			return nil, errInjected
		}
		return k.s.rangeLocked(r), nil
	}()
	if f := k.s.afterRange.Load(); err == nil && f != nil && *f != nil {
		(*f)(string(r.Key))
	}
	return resp, err
}

func (s *Server) rangeLocked(r *etcdserverpb.RangeRequest) *etcdserverpb.RangeResponse {
	var kvs []*mvccpb.KeyValue
	kvs = s.findLocked(r.Key, r.RangeEnd)
	if !r.CountOnly {
		sort.Slice(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].Key, kvs[j].Key) < 0 })
	}
	kept := kvs[:0]
	for _, v := range kvs {
		if r.MaxCreateRevision != 0 && v.CreateRevision > r.MaxCreateRevision || v.CreateRevision < r.MinCreateRevision ||
			r.MaxModRevision != 0 && v.ModRevision > r.MaxModRevision || v.ModRevision < r.MinModRevision {
			continue
		}
		kept = append(kept, v)
	}
	kvs = kept
	less := func(a, b *mvccpb.KeyValue) bool {
		switch r.SortTarget {
		case etcdserverpb.RangeRequest_VERSION:
			return a.Version < b.Version
		case etcdserverpb.RangeRequest_CREATE:
			return a.CreateRevision < b.CreateRevision
		case etcdserverpb.RangeRequest_MOD:
			return a.ModRevision < b.ModRevision
		case etcdserverpb.RangeRequest_VALUE:
			return bytes.Compare(a.Value, b.Value) < 0
		}
		return bytes.Compare(a.Key, b.Key) < 0
	}
	switch {
	case r.SortOrder == etcdserverpb.RangeRequest_DESCEND:
		sort.SliceStable(kvs, func(i, j int) bool { return less(kvs[j], kvs[i]) })
	case r.SortOrder == etcdserverpb.RangeRequest_ASCEND || r.SortTarget != etcdserverpb.RangeRequest_KEY:
		sort.SliceStable(kvs, func(i, j int) bool { return less(kvs[i], kvs[j]) })
	}
	resp := &etcdserverpb.RangeResponse{Header: s.header(), Count: int64(len(kvs))}
	if r.CountOnly {
		return resp
	}
	if r.Limit > 0 && int64(len(kvs)) > r.Limit {
		kvs = kvs[:r.Limit]
		resp.More = true
	}
	for _, v := range kvs {
		c := *v
		if r.KeysOnly {
			c.Value = nil
		}
		resp.Kvs = append(resp.Kvs, &c)
	}
	return resp
}

func (k *kvServer) Put(_ context.Context, r *etcdserverpb.PutRequest) (*etcdserverpb.PutResponse, error) {
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	if k.s.FailKV.Load() {
		return nil, errInjected
	}
	if r.Lease != 0 {
		if _, ok := k.s.leases[r.Lease]; !ok {
			return nil, rpctypes.ErrGRPCLeaseNotFound
		}
	}
	prev := k.s.putLocked(r.Key, r.Value, r.Lease)
	resp := &etcdserverpb.PutResponse{Header: k.s.header()}
	if r.PrevKv {
		resp.PrevKv = prev
	}
	return resp, nil
}

func (k *kvServer) DeleteRange(_ context.Context, r *etcdserverpb.DeleteRangeRequest) (*etcdserverpb.DeleteRangeResponse, error) {
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	if k.s.FailKV.Load() {
		return nil, errInjected
	}
	del := k.s.delLocked(r.Key, r.RangeEnd)
	resp := &etcdserverpb.DeleteRangeResponse{Header: k.s.header(), Deleted: int64(len(del))}
	if r.PrevKv {
		resp.PrevKvs = del
	}
	return resp, nil
}

func (s *Server) cmpLocked(c *etcdserverpb.Compare) bool {
	if len(c.RangeEnd) == 0 {
		return cmpKV(c, s.kv[string(c.Key)])
	}
	kvs := s.findLocked(c.Key, c.RangeEnd)
	for _, kv := range kvs { // every key of the range has to satisfy it
		if !cmpKV(c, kv) {
			return false
		}
	}
	return len(kvs) > 0 || cmpKV(c, nil)
}

func cmpKV(c *etcdserverpb.Compare, kv *mvccpb.KeyValue) bool {
	var a, b int64
	switch c.Target {
	case etcdserverpb.Compare_VERSION:
		b = c.GetVersion()
		if kv != nil {
			a = kv.Version
		}
	case etcdserverpb.Compare_CREATE:
		b = c.GetCreateRevision()
		if kv != nil {
			a = kv.CreateRevision
		}
	case etcdserverpb.Compare_MOD:
		b = c.GetModRevision()
		if kv != nil {
			a = kv.ModRevision
		}
	case etcdserverpb.Compare_LEASE:
		b = c.GetLease()
		if kv != nil {
			a = kv.Lease
		}
	case etcdserverpb.Compare_VALUE:
		if kv == nil {
			return false
		}
		a = int64(bytes.Compare(kv.Value, c.GetValue()))
		b = 0
	}
	switch c.Result {
	case etcdserverpb.Compare_EQUAL:
		return a == b
	case etcdserverpb.Compare_GREATER:
		return a > b
	case etcdserverpb.Compare_LESS:
		return a < b
	default:
		return a != b
	}
}

func (k *kvServer) Txn(_ context.Context, r *etcdserverpb.TxnRequest) (*etcdserverpb.TxnResponse, error) {
	s := k.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.FailKV.Load() {
		return nil, errInjected
	}
	ok := true
	for _, c := range r.Compare {
		if !s.cmpLocked(c) {
			ok = false
			break
		}
	}
	ops := r.Success
	if !ok {
		ops = r.Failure
	}
	if len(r.Compare) > 128 || len(r.Success) > 128 || len(r.Failure) > 128 {
		return nil, rpctypes.ErrGRPCTooManyOps
	}
	for _, list := range [][]*etcdserverpb.RequestOp{r.Success, r.Failure} {
		seen := map[string]bool{}
		for _, op := range list {
			if x, isPut := op.Request.(*etcdserverpb.RequestOp_RequestPut); isPut {
				if seen[string(x.RequestPut.Key)] {
					return nil, rpctypes.ErrGRPCDuplicateKey
				}
				seen[string(x.RequestPut.Key)] = true
			}
		}
	}
	for _, op := range ops {
		if x, isPut := op.Request.(*etcdserverpb.RequestOp_RequestPut); isPut && x.RequestPut.Lease != 0 {
			if _, known := s.leases[x.RequestPut.Lease]; !known {
				return nil, rpctypes.ErrGRPCLeaseNotFound
			}
		}
	}
	resp := &etcdserverpb.TxnResponse{Succeeded: ok}
	for _, op := range ops {
		ro := &etcdserverpb.ResponseOp{}
		switch x := op.Request.(type) {
		case *etcdserverpb.RequestOp_RequestPut:
			prev := s.putLocked(x.RequestPut.Key, x.RequestPut.Value, x.RequestPut.Lease)
			pr := &etcdserverpb.PutResponse{Header: s.header()}
			if x.RequestPut.PrevKv {
				pr.PrevKv = prev
			}
			ro.Response = &etcdserverpb.ResponseOp_ResponsePut{ResponsePut: pr}
		case *etcdserverpb.RequestOp_RequestDeleteRange:
			d := s.delLocked(x.RequestDeleteRange.Key, x.RequestDeleteRange.RangeEnd)
			ro.Response = &etcdserverpb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: &etcdserverpb.DeleteRangeResponse{Header: s.header(), Deleted: int64(len(d))}}
		case *etcdserverpb.RequestOp_RequestRange:
			ro.Response = &etcdserverpb.ResponseOp_ResponseRange{ResponseRange: s.rangeLocked(x.RequestRange)}
		}
		resp.Responses = append(resp.Responses, ro)
	}
	if ok && len(r.Success) > 0 && s.LoseTxn.Load() > 0 {
		s.LoseTxn.Add(-1)
		return nil, errInjected
	}
	resp.Header = s.header()
	return resp, nil
}

func (k *kvServer) Compact(context.Context, *etcdserverpb.CompactionRequest) (*etcdserverpb.CompactionResponse, error) {
	return &etcdserverpb.CompactionResponse{Header: k.s.header()}, nil
}

// ---- Watch

type watchServer struct{ s *Server }

type watcher struct {
	id       int64
	key, end []byte
	next     int64 // next revision wanted
}

func (w *watchServer) Watch(st etcdserverpb.Watch_WatchServer) error {
	s := w.s
	var (
		smu      sync.Mutex // guards Send
		watchers = map[int64]*watcher{}
		nextID   int64
		done     bool
		drop     = make(chan struct{})
	)
	s.mu.Lock()
	cancels, drops := s.cancels, s.drops
	s.mu.Unlock()
	send := func(r *etcdserverpb.WatchResponse) {
		smu.Lock()
		defer smu.Unlock()
		_ = st.Send(r)
	}
	go func() {
		// pump
		s.mu.Lock()
		defer s.mu.Unlock()
		for !done && !s.closed {
			if drops != s.drops {
				close(drop)
				return
			}
			if cancels != s.cancels {
				cancels = s.cancels
				hdr, rev := s.header(), s.compacted
				var ids []int64
				for id := range watchers {
					ids = append(ids, id)
				}
				watchers = map[int64]*watcher{}
				s.mu.Unlock()
				for _, id := range ids {
					send(&etcdserverpb.WatchResponse{Header: hdr, WatchId: id, Canceled: true, CompactRevision: rev})
				}
				s.mu.Lock()
				continue
			}
			sent := false
			for _, wt := range watchers {
				var evs []*mvccpb.Event
				idx := sort.Search(len(s.history), func(i int) bool { return s.history[i].Kv.ModRevision >= wt.next })
				for _, e := range s.history[idx:] {
					if inRange(e.Kv.Key, wt.key, wt.end) {
						evs = append(evs, e)
					}
				}
				wt.next = s.rev + 1
				if len(evs) > 0 {
					resp := &etcdserverpb.WatchResponse{Header: s.header(), WatchId: wt.id, Events: evs}
					s.mu.Unlock()
					send(resp)
					s.mu.Lock()
					sent = true
					break
				}
			}
			if !sent && !done && !s.closed {
				s.cond.Wait()
			}
		}
	}()
	defer func() {
		s.mu.Lock()
		done = true
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	reqs, failed := make(chan *etcdserverpb.WatchRequest), make(chan error, 1)
	go func() {
		for {
			req, err := st.Recv()
			if err != nil {
				failed <- err
				return
			}
			select {
			case reqs <- req:
			case <-st.Context().Done():
				return
			}
		}
	}()
	for {
		var req *etcdserverpb.WatchRequest
		select {
		case req = <-reqs:
		case err := <-failed:
			if err == io.EOF {
				return nil
			}
			return err
		case <-drop:
			return status.Error(codes.Unavailable, "fakeetcd: stream dropped")
		}
		switch x := req.RequestUnion.(type) {
		case *etcdserverpb.WatchRequest_CreateRequest:
			s.mu.Lock()
			id := nextID
			nextID++
			start := x.CreateRequest.StartRevision
			if start == 0 {
				start = s.rev + 1
			}
			hdr, compacted := s.header(), s.compacted
			s.mu.Unlock()
			send(&etcdserverpb.WatchResponse{Header: hdr, WatchId: id, Created: true})
			if start <= compacted {
				send(&etcdserverpb.WatchResponse{Header: hdr, WatchId: id, Canceled: true, CompactRevision: compacted})
				continue
			}
			s.mu.Lock()
			watchers[id] = &watcher{id: id, key: x.CreateRequest.Key, end: x.CreateRequest.RangeEnd, next: start}
			s.Watches.Add(1)
			s.cond.Broadcast()
			s.mu.Unlock()
		case *etcdserverpb.WatchRequest_CancelRequest:
			s.mu.Lock()
			delete(watchers, x.CancelRequest.WatchId)
			hdr := s.header()
			s.mu.Unlock()
			send(&etcdserverpb.WatchResponse{Header: hdr, WatchId: x.CancelRequest.WatchId, Canceled: true})
		case *etcdserverpb.WatchRequest_ProgressRequest:
			s.mu.Lock()
			hdr := s.header()
			s.mu.Unlock()
			send(&etcdserverpb.WatchResponse{Header: hdr, WatchId: -1})
		}
	}
}

// ---- Lease

type leaseServer struct {
	s *Server
	etcdserverpb.UnimplementedLeaseServer
}

func (l *leaseServer) LeaseGrant(_ context.Context, r *etcdserverpb.LeaseGrantRequest) (*etcdserverpb.LeaseGrantResponse, error) {
	s := l.s
	if s.FailLease.Load() {
		return nil, errInjected
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	id := r.ID
	if id == 0 {
		s.nextID++
		id = s.nextID
	}
	ttl := r.TTL
	if ttl < 2 {
		ttl = 2
	}
	s.leases[id] = &lease{id: id, ttl: ttl, last: time.Now(), keys: map[string]struct{}{}}
	return &etcdserverpb.LeaseGrantResponse{Header: s.header(), ID: id, TTL: ttl}, nil
}

func (l *leaseServer) LeaseRevoke(_ context.Context, r *etcdserverpb.LeaseRevokeRequest) (*etcdserverpb.LeaseRevokeResponse, error) {
	s := l.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.revokeLocked(r.ID)
	return &etcdserverpb.LeaseRevokeResponse{Header: s.header()}, nil
}

func (l *leaseServer) LeaseKeepAlive(st etcdserverpb.Lease_LeaseKeepAliveServer) error {
	for {
		r, err := st.Recv()
		if err != nil {
			if err == io.EOF {
				return nil
			}
			return err
		}
		s := l.s
		s.mu.Lock()
		ls, ok := s.leases[r.ID]
		resp := &etcdserverpb.LeaseKeepAliveResponse{Header: s.header(), ID: r.ID}
		if ok {
			ls.last = time.Now()
			resp.TTL = ls.ttl
		}
		s.mu.Unlock()
		if err := st.Send(resp); err != nil {
			return err
		}
	}
}

// ---- Auth / Maintenance

type authServer struct {
	etcdserverpb.UnimplementedAuthServer
}

func (authServer) Authenticate(context.Context, *etcdserverpb.AuthenticateRequest) (*etcdserverpb.AuthenticateResponse, error) {
	return &etcdserverpb.AuthenticateResponse{Header: &etcdserverpb.ResponseHeader{}, Token: "token.1"}, nil
}

type maintServer struct {
	s *Server
	etcdserverpb.UnimplementedMaintenanceServer
}

func (m *maintServer) Status(context.Context, *etcdserverpb.StatusRequest) (*etcdserverpb.StatusResponse, error) {
	m.s.mu.Lock()
	defer m.s.mu.Unlock()
	return &etcdserverpb.StatusResponse{Header: m.s.header(), Version: "3.5.7", DbSize: 1 << 20, DbSizeInUse: 1 << 19, Leader: 1}, nil
}
