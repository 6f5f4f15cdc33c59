package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

// sim is the sequential model of one metadata store: what a plain map would answer.
type sim struct {
	x       *Ctx
	ids     []string
	hashes  []string
	metas   map[string]*simMeta
	buckets map[string]Bucket
	tag     int
	// target picks the server an operation is sent to
	target func() MS
	// readers are the servers whose answers are compared
	readers func() []MS
	// lost, when set, tells whether an answer means that the server can not know what became of the operation
	lost func(r Resp) bool
}

type simMeta struct {
	name, bucket string
	create       int64
	seq          int
	vers         map[int]MVersion
}

func newSim(x *Ctx, ids, hashes []string, ms MS) *sim {
	return &sim{x: x, ids: ids, hashes: hashes, metas: map[string]*simMeta{}, buckets: map[string]Bucket{},
		target: func() MS { return ms }, readers: func() []MS { return []MS{ms} }}
}

func (m *simMeta) nums() []int {
	r := make([]int, 0, len(m.vers))
	for n := range m.vers {
		r = append(r, n)
	}
	sort.Ints(r)
	return r
}

func (s *sim) ver(rng *rand.Rand) MVersion {
	s.tag++
	v := MVersion{Compress: rng.Intn(2) == 0, StoreStrategy: int8(1 + rng.Intn(2)), DataShards: int32(1 + rng.Intn(5)), ParityShards: int32(rng.Intn(3)),
		ShardSize: int64(1 + rng.Intn(100)), Size: int64(s.tag), Hash: s.hashes[rng.Intn(len(s.hashes))]}
	for i := 0; i < 1+rng.Intn(4); i++ {
		v.Locate = append(v.Locate, fmt.Sprintf("10.0.0.%d:%d", rng.Intn(200), s.tag))
	}
	return v
}

// same tells whether a version answered by a server is the one expected (time stamps and unique ids are the server's).
func (v MVersion) same(w MVersion) bool {
	v.Ts, w.Ts, v.UniqueId, w.UniqueId = 0, 0, "", ""
	return reflect.DeepEqual(v, w)
}

func (v MVersion) key() string {
	return fmt.Sprintf("%d/%d/%s/%v", v.Size, v.Sequence, v.Hash, v.Locate)
}

// step performs one random operation and judges its answer. ok is false when the model can no longer follow.
func (s *sim) step(rng *rand.Rand) bool {
	x, ms := s.x, s.target()
	id := s.ids[rng.Intn(len(s.ids))]
	m := s.metas[id]
	refused := func(what string, r Resp) bool {
		if r.Err != nil || r.Code/100 != 4 {
			if s.lost != nil && s.lost(r) {
				return false
			}
			x.Violate("not-refused:"+strings.Fields(what)[0], "%s is answered %s", what, r)
			return false
		}
		x.Event("refused", 1)
		return true
	}
	bad := func(what string, r Resp) bool {
		if s.lost != nil && s.lost(r) {
			return false
		}
		x.Violate("fails:"+strings.Fields(what)[0], "%s is answered %s", what, r)
		return false
	}
	x.Event("operations", 1)
	switch op := rng.Intn(20); {
	case op < 3: // add a name
		s.tag++
		name, bucket := fmt.Sprintf("n%d", s.tag), fmt.Sprintf("b%d", rng.Intn(3))
		r := ms.AddMeta(id, name, bucket)
		x.Case(fmt.Sprintf("add-meta %q exists=%v", id, m != nil))
		if m != nil {
			return refused("add-meta of existing "+id, r)
		}
		if r.Err != nil || r.Code != 201 {
			return bad("add-meta of "+id, r)
		}
		s.metas[id] = &simMeta{name: name, bucket: bucket, vers: map[int]MVersion{}}
	case op == 3:
		s.tag++
		name := fmt.Sprintf("n%d", s.tag)
		r := ms.UpdateMeta(id, name, "other")
		x.Case(fmt.Sprintf("update-meta %q exists=%v", id, m != nil))
		if m == nil {
			return refused("update-meta of absent "+id, r)
		}
		if r.Err != nil || r.Code != 200 {
			return bad("update-meta of "+id, r)
		}
		m.name = name
	case op == 4 && rng.Intn(2) == 0:
		r := ms.DelMeta(id)
		x.Case(fmt.Sprintf("del-meta %q exists=%v", id, m != nil))
		if m == nil {
			if r.Err != nil || r.Code/100 != 2 && r.Code != 404 {
				return bad("del-meta of absent "+id, r)
			}
			return true
		}
		if r.Err != nil || r.Code/100 != 2 {
			return bad("del-meta of "+id, r)
		}
		delete(s.metas, id)
	case op < 12: // add a version
		v := s.ver(rng)
		n, r := ms.AddVer(id, v)
		if m == nil {
			x.Case(fmt.Sprintf("add-ver %q absent", id))
			return refused("add-ver to absent "+id, r)
		}
		x.Case(fmt.Sprintf("add-ver %q n=%d", id, n))
		if r.Err != nil || r.Code != 201 {
			return bad("add-ver to "+id, r)
		}
		m.seq++
		if n != m.seq {
			x.Violate("number", "adding a version to %s gave number %d, want %d", id, n, m.seq)
			return false
		}
		v.Sequence = uint64(n)
		m.vers[n] = v
	case op < 15: // update a version
		n := 1 + rng.Intn(14)
		v := s.ver(rng)
		r := ms.UpdateVer(id, n, v)
		var old MVersion
		ok := false
		if m != nil {
			old, ok = m.vers[n]
		}
		x.Case(fmt.Sprintf("update-ver %q %d exists=%v", id, n, ok))
		if !ok {
			return refused(fmt.Sprintf("update-ver of absent %s.%d", id, n), r)
		}
		if r.Err != nil || r.Code != 200 {
			return bad(fmt.Sprintf("update-ver of %s.%d", id, n), r)
		}
		v.Sequence, v.Hash = uint64(n), old.Hash
		m.vers[n] = v
	case op < 18: // remove a version
		n := 1 + rng.Intn(14)
		if m != nil && len(m.vers) > 0 && rng.Intn(3) > 0 {
			ns := m.nums()
			n = ns[[]int{0, len(ns) - 1, rng.Intn(len(ns))}[rng.Intn(3)]]
		}
		r := ms.DelVer(id, n)
		ok := false
		if m != nil {
			_, ok = m.vers[n]
		}
		x.Case(fmt.Sprintf("del-ver %q %d exists=%v", id, n, ok))
		if r.Err != nil || ok && r.Code/100 != 2 || r.Code/100 > 4 {
			return bad(fmt.Sprintf("del-ver of %s.%d (exists: %v)", id, n, ok), r)
		}
		if ok {
			delete(m.vers, n)
		}
	case op == 18 && rng.Intn(3) == 0: // remove all versions
		r := ms.DelVer(id, -1)
		x.Case(fmt.Sprintf("del-all %q exists=%v", id, m != nil))
		if m == nil {
			return r.Err == nil
		}
		if r.Err != nil || r.Code/100 != 2 {
			return bad("del-all of "+id, r)
		}
		m.vers, m.seq = map[int]MVersion{}, 0
	case op == 19: // a shard moved
		h := s.hashes[rng.Intn(len(s.hashes))]
		s.tag++
		idx, loc := rng.Intn(4), fmt.Sprintf("10.9.9.9:%d", s.tag)
		n, fit := s.withHash(h, idx)
		r := ms.Locate(h, idx, loc)
		x.Case(fmt.Sprintf("locate %d of %d versions", fit, n))
		if n > 0 && fit == 0 {
			return refused(fmt.Sprintf("locate %d of hash %s, which no version has", idx, h), r)
		}
		if r.Err != nil || fit > 0 && r.Code != 200 || r.Code/100 == 5 {
			return bad("locate of "+h, r)
		}
		for _, m := range s.metas {
			for n, v := range m.vers {
				if v.Hash == h && idx < len(v.Locate) {
					v.Locate = append([]string(nil), v.Locate...)
					v.Locate[idx] = loc
					m.vers[n] = v
				}
			}
		}
	default: // buckets
		bn := []string{"bk", "bk.1", "bk/1", "Bk"}[rng.Intn(4)]
		b := Bucket{Name: bn, Versioning: rng.Intn(2) == 0, VersionRemains: rng.Intn(9), StoreStrategy: rng.Intn(3), DataShards: rng.Intn(5)}
		_, have := s.buckets[bn]
		k := rng.Intn(4)
		x.Case(fmt.Sprintf("bucket-op %d exists=%v", k, have))
		switch k {
		case 0, 1:
			r := ms.CreateBucket(b)
			if have {
				return refused("create-bucket of existing "+bn, r)
			}
			if r.Err != nil || r.Code != 201 {
				return bad("create-bucket "+bn, r)
			}
			s.buckets[bn] = b
		case 2:
			r := ms.UpdateBucket(b)
			if !have {
				return refused("update-bucket of absent "+bn, r)
			}
			if r.Err != nil || r.Code != 200 {
				return bad("update-bucket "+bn, r)
			}
			s.buckets[bn] = b
		case 3:
			r := ms.DelBucket(bn)
			if r.Err != nil || have && r.Code/100 != 2 || r.Code/100 > 4 {
				return bad("delete-bucket "+bn, r)
			}
			delete(s.buckets, bn)
		}
	}
	return true
}

// withHash counts the versions with a hash and those of them that have a shard idx.
func (s *sim) withHash(h string, idx int) (n, fit int) {
	for _, m := range s.metas {
		for _, v := range m.vers {
			if v.Hash == h {
				n++
				if idx < len(v.Locate) {
					fit++
				}
			}
		}
	}
	return
}

// checkID compares everything that can be read about one name.
func (s *sim) checkID(when string, ms MS, id string, all bool) {
	x, m := s.x, s.metas[id]
	x.Event("names_compared", 1)
	g, r := ms.GetMeta(id, -1, true)
	if m == nil {
		if r.Err != nil || r.Code != 404 {
			x.Violate("ghost", "%s: %s does not exist, but %s answers %s", when, id, ms.N.ID, r)
		}
		if _, r := ms.GetVer(id, 1); r.Err != nil || r.Code != 404 {
			x.Violate("ghost", "%s: %s.1 does not exist, but %s answers %s", when, id, ms.N.ID, r)
		}
		if vs, _, r := ms.ListVer(id, 1, 10); r.Err != nil || r.Code/100 == 5 || len(vs) > 0 {
			x.Violate("ghost", "%s: %s does not exist, but %s lists %s", when, id, ms.N.ID, r)
		}
		return
	}
	ns := m.nums()
	first, last := 0, 0
	if len(ns) > 0 {
		first, last = ns[0], ns[len(ns)-1]
	}
	if r.Err != nil || r.Code != 200 || g.Name != m.name || g.Bucket != m.bucket || g.Total != len(ns) || g.FirstVersion != first || g.LastVersion != last {
		x.Violate("meta", "%s: %s should be name %s bucket %s versions %v, but %s answers %s", when, id, m.name, m.bucket, ns, ms.N.ID, r)
	}
	if m.create == 0 {
		m.create = g.CreateTime
	} else if g.CreateTime != m.create || g.UpdateTime < m.create {
		x.Violate("times", "%s: %s was created %d, is now created %d updated %d", when, id, m.create, g.CreateTime, g.UpdateTime)
	}
	page := []int{1000, 3, 7}[s.tag%3]
	var got []MVersion
	for p := 1; p <= len(ns)/page+1; p++ {
		vs, total, r := ms.ListVer(id, p, page)
		if r.Err != nil || r.Code != 200 || total != len(ns) {
			x.Violate("list", "%s: versions of %s on %s: total %d, want %d: %s", when, id, ms.N.ID, total, len(ns), r)
			return
		}
		got = append(got, vs...)
	}
	if len(got) != len(ns) {
		x.Violate("list", "%s: %s lists %d versions of %s, want %v", when, ms.N.ID, len(got), id, ns)
		return
	}
	for i, n := range ns {
		if !got[i].same(m.vers[n]) {
			x.Violate("list", "%s: %s lists %+v as entry %d of %s, want %+v", when, ms.N.ID, got[i], i, id, m.vers[n])
		}
	}
	try := []int{0, 1, 2, last, last + 1, 10}
	if all {
		try = append(try, ns...)
	}
	for _, n := range try {
		w, ok := m.vers[n]
		if n == 0 {
			w, ok = m.vers[last]
		}
		v, r := ms.GetVer(id, n)
		if !ok && (r.Err != nil || r.Code != 404) || ok && (r.Err != nil || r.Code != 200 || !v.same(w)) {
			x.Violate("version", "%s: version %d of %s should be %+v (exists: %v), but %s answers %s", when, n, id, w, ok, ms.N.ID, r)
		}
		x.Event("versions_compared", 1)
	}
}

// checkHash compares what is found under a hash.
func (s *sim) checkHash(when string, ms MS, h string) {
	x := s.x
	var want, have []string
	for _, m := range s.metas {
		for _, v := range m.vers {
			if v.Hash == h {
				want = append(want, v.key())
			}
		}
	}
	vs, r := ms.ByHash(h)
	for _, v := range vs {
		have = append(have, v.key())
	}
	sort.Strings(want)
	sort.Strings(have)
	if len(want) == 0 && r.Err == nil && r.Code == 404 {
		x.Event("hash_lookups", 1)
		return
	}
	if r.Err != nil || r.Code != 200 || fmt.Sprint(want) != fmt.Sprint(have) {
		x.Violate("by-hash", "%s: hash %s: %s finds %v, want %v: %s", when, h, ms.N.ID, have, want, r)
	}
	x.Event("hash_lookups", 1)
	x.Event("hash_matches", int64(len(have)))
}

// checkAll compares the whole store with the model.
func (s *sim) checkAll(when string) {
	for _, ms := range s.readers() {
		for _, id := range s.ids {
			s.checkID(when, ms, id, true)
		}
		for _, h := range s.hashes {
			s.checkHash(when, ms, h)
		}
		s.checkLists(when, ms)
	}
	s.x.Event("full_comparisons", 1)
}

func (s *sim) checkLists(when string, ms MS) {
	x := s.x
	for _, prefix := range []string{"", "b/", "b/a", "zz"} {
		lst, total, r := ms.ListMeta(prefix, 1000, "name", false)
		var want, have []string
		for id, m := range s.metas {
			if strings.HasPrefix(id, prefix) {
				want = append(want, m.name)
			}
		}
		for _, m := range lst {
			have = append(have, m.Name)
		}
		sort.Strings(want)
		sort.Strings(have)
		if r.Err != nil || r.Code != 200 || fmt.Sprint(want) != fmt.Sprint(have) || len(want) > 0 && total != len(want) {
			x.Violate("list-meta", "%s: names under %q on %s are %v (total %d), want %v: %s", when, prefix, ms.N.ID, have, total, want, r)
		}
		// no more than asked for, the first ones
		var ids []string
		for id := range s.metas {
			if strings.HasPrefix(id, prefix) {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		for _, size := range []int{1, 2, 7} {
			lst, total, r := ms.ListMeta(prefix, size, "name", false)
			want, have = nil, nil
			for _, id := range ids[:minInt(size, len(ids))] {
				want = append(want, s.metas[id].name)
			}
			for _, m := range lst {
				have = append(have, m.Name)
			}
			sort.Strings(want)
			sort.Strings(have)
			if r.Err != nil || r.Code != 200 || fmt.Sprint(want) != fmt.Sprint(have) || len(ids) > 0 && total != len(ids) {
				x.Violate("list-meta", "%s: the first %d names under %q on %s are %v (total %d), want %v (total %d): %s", when, size, prefix, ms.N.ID, have, total, want, len(ids), r)
			}
		}
	}
	for _, size := range []int{1, 2} {
		lst, total, r := ms.ListBuckets("", size)
		if r.Err != nil || r.Code != 200 || len(lst) != minInt(size, len(s.buckets)) || len(lst) > 0 && total != len(s.buckets) {
			x.Violate("bucket", "%s: %d buckets (total %d) on %s, asked for %d of %d: %s", when, len(lst), total, ms.N.ID, size, len(s.buckets), r)
		}
	}
	lst, total, r := ms.ListBuckets("", 1000)
	have := map[string]bool{}
	for _, b := range lst {
		have[b.Name] = true
		if w, ok := s.buckets[b.Name]; !ok || !reflect.DeepEqual(w.core(), b.core()) {
			x.Violate("bucket", "%s: bucket %+v is listed by %s, want %+v (exists: %v)", when, b, ms.N.ID, w, ok)
		}
	}
	if r.Err != nil || r.Code != 200 || total != len(s.buckets) || len(have) != len(s.buckets) {
		x.Violate("bucket", "%s: %d buckets (total %d) on %s, want %d: %s", when, len(have), total, ms.N.ID, len(s.buckets), r)
	}
	for _, n := range []string{"bk", "bk.1", "bk/1", "Bk"} {
		g, r := ms.GetBucket(n)
		if w, ok := s.buckets[n]; ok && (r.Err != nil || r.Code != 200 || !reflect.DeepEqual(w.core(), g.core())) || !ok && (r.Err != nil || r.Code != 404) {
			x.Violate("bucket", "%s: bucket %q should be %+v (exists: %v), but %s answers %s", when, n, w, ok, ms.N.ID, r)
		}
	}
}
