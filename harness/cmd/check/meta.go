package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"

	"verifharness/cluster"
)

// MS is a client of one metadata server's own http interface. Names there are "bucket/name".
type MS struct{ N *cluster.Node }

// MVersion is a version as the metadata server describes it.
type MVersion struct {
	Compress      bool     `json:"compress"`
	StoreStrategy int8     `json:"storeStrategy"`
	DataShards    int32    `json:"dataShards"`
	ParityShards  int32    `json:"parityShards"`
	ShardSize     int64    `json:"shardSize"`
	Size          int64    `json:"size"`
	Ts            int64    `json:"ts"`
	Sequence      uint64   `json:"sequence"`
	UniqueId      string   `json:"uniqueId"`
	Hash          string   `json:"hash"`
	Locate        []string `json:"locate"`
}

type MMeta struct {
	Name         string     `json:"name"`
	Bucket       string     `json:"bucket"`
	CreateTime   int64      `json:"createTime"`
	UpdateTime   int64      `json:"updateTime"`
	Versions     []MVersion `json:"versions"`
	Total        int        `json:"total"`
	FirstVersion int        `json:"firstVersion"`
	LastVersion  int        `json:"lastVersion"`
}

func (m MS) do(method, path string, body any) Resp {
	var b []byte
	if body != nil {
		b, _ = json.Marshal(body)
		return cluster.Do(method, m.N.URL()+path, b, "Content-Type", "application/json")
	}
	return cluster.Do(method, m.N.URL()+path, nil)
}

func decode(r *Resp, v any) {
	if r.Err == nil && r.Code == 200 {
		if err := json.Unmarshal(r.Body, v); err != nil {
			r.Err = fmt.Errorf("%w in %.200q", err, r.Body)
		}
	}
}

func (m MS) AddMeta(id, name, bucket string) Resp {
	return m.do("POST", "/metadata/"+url.PathEscape(id), M{"name": name, "bucket": bucket})
}
func (m MS) UpdateMeta(id, name, bucket string) Resp {
	return m.do("PUT", "/metadata/"+url.PathEscape(id), M{"name": name, "bucket": bucket})
}
func (m MS) GetMeta(id string, ver int, extra bool) (MMeta, Resp) {
	r := m.do("GET", fmt.Sprintf("/metadata/%s?version=%d&with_extra=%v", url.PathEscape(id), ver, extra), nil)
	var v MMeta
	decode(&r, &v)
	return v, r
}
func (m MS) DelMeta(id string) Resp { return m.do("DELETE", "/metadata/"+url.PathEscape(id), nil) }
func (m MS) ListMeta(prefix string, size int, order string, desc bool) ([]MMeta, int, Resp) {
	r := m.do("GET", fmt.Sprintf("/metadata/list?prefix=%s&page_size=%d&order_by=%s&desc=%v", url.QueryEscape(prefix), size, order, desc), nil)
	var v []MMeta
	decode(&r, &v)
	t, _ := strconv.Atoi(r.Header.Get("X-Total-Count"))
	return v, t, r
}
func (m MS) AddVer(id string, v MVersion) (int, Resp) {
	r := m.do("POST", "/metadata_version/"+url.PathEscape(id), v)
	n, _ := strconv.Atoi(r.Header.Get("Version"))
	return n, r
}
func (m MS) UpdateVer(id string, n int, v MVersion) Resp {
	return m.do("PUT", fmt.Sprintf("/metadata_version/%s?version=%d", url.PathEscape(id), n), v)
}
func (m MS) GetVer(id string, n int) (MVersion, Resp) {
	r := m.do("GET", fmt.Sprintf("/metadata_version/%s?version=%d", url.PathEscape(id), n), nil)
	var v MVersion
	decode(&r, &v)
	return v, r
}
func (m MS) DelVer(id string, n int) Resp {
	return m.do("DELETE", fmt.Sprintf("/metadata_version/%s?version=%d", url.PathEscape(id), n), nil)
}
func (m MS) ListVer(id string, page, size int) ([]MVersion, int, Resp) {
	r := m.do("GET", fmt.Sprintf("/metadata_version/%s/list?page=%d&page_size=%d", url.PathEscape(id), page, size), nil)
	var v []MVersion
	decode(&r, &v)
	t, _ := strconv.Atoi(r.Header.Get("X-Total-Count"))
	return v, t, r
}
func (m MS) ByHash(hash string) ([]MVersion, Resp) {
	r := m.do("GET", "/version/list?hash="+url.QueryEscape(hash), nil)
	var v []MVersion
	decode(&r, &v)
	return v, r
}
func (m MS) Locate(hash string, idx int, loc string) Resp {
	return m.do("PATCH", "/version/locate", M{"hash": hash, "locateIndex": idx, "locate": loc})
}
func (m MS) CreateBucket(b Bucket) Resp { return m.do("POST", "/bucket", b) }
func (m MS) UpdateBucket(b Bucket) Resp {
	return m.do("PUT", "/bucket/"+url.PathEscape(b.Name), b)
}
func (m MS) GetBucket(n string) (Bucket, Resp) {
	r := m.do("GET", "/bucket/"+url.PathEscape(n), nil)
	var b Bucket
	decode(&r, &b)
	return b, r
}
func (m MS) DelBucket(n string) Resp { return m.do("DELETE", "/bucket/"+url.PathEscape(n), nil) }
func (m MS) ListBuckets(prefix string, size int) ([]Bucket, int, Resp) {
	r := m.do("GET", fmt.Sprintf("/bucket/list?prefix=%s&page_size=%d", url.QueryEscape(prefix), size), nil)
	var v []Bucket
	decode(&r, &v)
	t, _ := strconv.Atoi(r.Header.Get("X-Total-Count"))
	return v, t, r
}
