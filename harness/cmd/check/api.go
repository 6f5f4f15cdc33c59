package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/cluster"
)

type M = cluster.M
type Resp = cluster.Resp

// API is a client of one api server.
type API struct {
	N     *cluster.Node
	Basic string // Authorization header, when set
}

func (a API) do(method, path string, body []byte, hdr ...string) Resp {
	if a.Basic != "" {
		hdr = append(hdr, "Authorization", a.Basic)
	}
	return cluster.Do(method, a.N.URL()+path, body, hdr...)
}

func digest(b []byte) string { return fmt.Sprintf("%x", sha256.Sum256(b)) }

type putResp struct {
	Name    string `json:"name"`
	Bucket  string `json:"bucket"`
	Version int32  `json:"version"`
}

// Put uploads an object; opts is a raw query ("ss=1&compress=true").
func (a API) Put(bucket, name string, body []byte, opts string) (putResp, Resp) {
	return a.PutDigest(bucket, name, body, digest(body), opts)
}

func (a API) PutDigest(bucket, name string, body []byte, dig, opts string) (putResp, Resp) {
	p := "/v1/objects/" + url.PathEscape(name)
	if opts != "" {
		p += "?" + opts
	}
	r := a.do("PUT", p, body, "Bucket", bucket, "Digest", dig)
	var pr putResp
	if r.Err == nil && r.Code/100 == 2 {
		if err := json.Unmarshal(r.Body, &pr); err != nil {
			r.Err = fmt.Errorf("put response: %w: %q", err, r.Body)
		}
	}
	return pr, r
}

// Get downloads version v (0: the latest) from offset off (<0: no Range header).
func (a API) Get(bucket, name string, v int32, off int64) Resp {
	p := "/v1/objects/" + url.PathEscape(name)
	if v > 0 {
		p += fmt.Sprintf("?version=%d", v)
	}
	h := []string{"Bucket", bucket}
	if off >= 0 {
		h = append(h, "Range", fmt.Sprintf("bytes=%d-", off))
	}
	return a.do("GET", p, nil, h...)
}

type Version struct {
	Compress      bool     `json:"compress"`
	Hash          string   `json:"hash"`
	StoreStrategy int      `json:"storeStrategy"`
	Sequence      int32    `json:"sequence"`
	Size          int64    `json:"size"`
	Ts            int64    `json:"ts"`
	DataShards    int      `json:"dataShards"`
	ParityShards  int      `json:"parityShards"`
	ShardSize     int      `json:"shardSize"`
	Locate        []string `json:"locate"`
}

type Metadata struct {
	Total        int       `json:"total"`
	FirstVersion int       `json:"firstVersion"`
	LastVersion  int       `json:"lastVersion"`
	Name         string    `json:"name"`
	Bucket       string    `json:"bucket"`
	CreateTime   int64     `json:"createTime"`
	UpdateTime   int64     `json:"updateTime"`
	Versions     []Version `json:"versions"`
}

func (a API) Meta(bucket, name string, v int32) (Metadata, Resp) {
	p := "/v1/metadata/" + url.PathEscape(name)
	if v > 0 {
		p += fmt.Sprintf("?version=%d", v)
	}
	r := a.do("GET", p, nil, "Bucket", bucket)
	var m Metadata
	if r.Err == nil && r.Code == 200 {
		if err := json.Unmarshal(r.Body, &m); err != nil {
			r.Err = err
		}
	}
	return m, r
}

func (a API) Versions(bucket, name string, page, size int) ([]Version, int, Resp) {
	p := fmt.Sprintf("/v1/metadata/%s/versions?page=%d&page_size=%d", url.PathEscape(name), page, size)
	r := a.do("GET", p, nil, "Bucket", bucket)
	var vs []Version
	if r.Err == nil && r.Code == 200 {
		if err := json.Unmarshal(r.Body, &vs); err != nil {
			r.Err = err
		}
	}
	t, _ := strconv.Atoi(r.Header.Get("X-Total-Count"))
	return vs, t, r
}

type Bucket struct {
	Versioning     bool     `json:"versioning"`
	Readonly       bool     `json:"readonly"`
	Compress       bool     `json:"compress"`
	StoreStrategy  int      `json:"storeStrategy"`
	DataShards     int      `json:"dataShards"`
	ParityShards   int      `json:"parityShards"`
	VersionRemains int      `json:"versionRemains"`
	CreateTime     int64    `json:"createTime,omitempty"`
	UpdateTime     int64    `json:"updateTime,omitempty"`
	Name           string   `json:"name"`
	Policies       []string `json:"policies"`
}

func (a API) CreateBucket(b Bucket) Resp {
	bt, _ := json.Marshal(b)
	return a.do("POST", "/v1/bucket", bt, "Content-Type", "application/json")
}

func (a API) UpdateBucket(b Bucket) Resp {
	bt, _ := json.Marshal(b)
	return a.do("PUT", "/v1/bucket/"+url.PathEscape(b.Name), bt, "Content-Type", "application/json")
}

func (a API) GetBucket(n string) (Bucket, Resp) {
	r := a.do("GET", "/v1/bucket/"+url.PathEscape(n), nil)
	var b Bucket
	if r.Err == nil && r.Code == 200 {
		if err := json.Unmarshal(r.Body, &b); err != nil {
			r.Err = err
		}
	}
	return b, r
}

func (a API) DeleteBucket(n string) Resp { return a.do("DELETE", "/v1/bucket/"+url.PathEscape(n), nil) }

// MustBucket creates a bucket the scenario needs.
func (x *Ctx) MustBucket(a API, b Bucket) bool {
	r := a.CreateBucket(b)
	if r.Err != nil || r.Code != 201 {
		x.Violate("bucket-create", "creating bucket %+v: %s", b, r)
		return false
	}
	return true
}

// blob returns n pseudo-random bytes determined by tag; half of it compresses well.
func blob(n int, tag int64) []byte {
	b := make([]byte, n)
	r := rand.New(rand.NewSource(tag*7919 + int64(n)))
	r.Read(b)
	if tag%2 == 1 { // compressible
		for i := range b {
			if i%64 > 8 {
				b[i] = byte('a' + (i/64)%7)
			}
		}
		if n > 16 {
			copy(b, fmt.Sprintf("%d/%d/", tag, n))
		}
	}
	return b
}

// shardFiles returns every stored file whose name starts with hash+".", over all object servers' scratch dirs.
func shardFiles(c *cluster.Cluster, hash string) map[string][]string {
	res := map[string][]string{}
	for _, n := range c.ByKind("objectserver") {
		for _, d := range n.Mounts {
			filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.Mode().IsRegular() && strings.HasPrefix(filepath.Base(p), hash+".") {
					res[n.ID] = append(res[n.ID], p)
				}
				return nil
			})
		}
	}
	return res
}

func shardList(c *cluster.Cluster, hash string) []string {
	var r []string
	for _, l := range shardFiles(c, hash) {
		r = append(r, l...)
	}
	sort.Strings(r)
	return r
}

// nodeByAddr returns the server that listens at addr.
func nodeByAddr(c *cluster.Cluster, addr string) *cluster.Node {
	for _, n := range c.Nodes {
		if n.Addr() == addr {
			return n
		}
	}
	return nil
}

// eventually polls f until it is true; it gives up after d.
func eventually(d time.Duration, f func() bool) bool {
	dl := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(dl) {
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// parallel runs f(0..n-1) on w workers.
func parallel(n, w int, f func(i int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first any
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							if first == nil {
								first = r
							}
							mu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if first != nil {
		panic(first)
	}
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		if len(a) < len(b) {
			return len(a)
		}
		return len(b)
	}
	return -1
}

// sameBody judges a successful download against the expected bytes.
func sameBody(r Resp, want []byte) string {
	if r.Err != nil {
		return fmt.Sprintf("transport error %v after %d bytes", r.Err, len(r.Body))
	}
	if r.Code != 200 && r.Code != 206 {
		return fmt.Sprintf("status %d: %.200q", r.Code, r.Body)
	}
	if d := firstDiff(r.Body, want); d >= 0 {
		return fmt.Sprintf("status %d with %d bytes, want %d; first difference at %d", r.Code, len(r.Body), len(want), d)
	}
	return ""
}
