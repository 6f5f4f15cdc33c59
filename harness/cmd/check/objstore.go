package main

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verifharness/cluster"
)

// OS is a client of one object server's own http interface.
type OS struct{ N *cluster.Node }

func (o OS) do(method, path string, body []byte, hdr ...string) Resp {
	return cluster.Do(method, o.N.URL()+path, body, hdr...)
}

func zq(zip bool) string {
	if zip {
		return "?compress=true"
	}
	return ""
}

func (o OS) Put(name string, body []byte, zip bool) Resp {
	return o.do("PUT", "/objects/"+url.PathEscape(name)+zq(zip), body)
}
func (o OS) Get(name string, off, size int64, zip bool) Resp {
	h := []string{"Size", fmt.Sprint(size)}
	if off > 0 {
		h = append(h, "Range", fmt.Sprintf("bytes=%d-", off))
	}
	return o.do("GET", "/objects/"+url.PathEscape(name)+zq(zip), nil, h...)
}
func (o OS) Head(name string) Resp   { return o.do("HEAD", "/objects/"+url.PathEscape(name), nil) }
func (o OS) Delete(name string) Resp { return o.do("DELETE", "/objects/"+url.PathEscape(name), nil) }

func (o OS) TPost(name string, size int64) (string, Resp) {
	r := o.do("POST", "/temp/"+url.PathEscape(name), nil, "Size", fmt.Sprint(size))
	return string(r.Body), r
}
func (o OS) TPatch(id string, b []byte) Resp { return o.do("PATCH", "/temp/"+id, b) }
func (o OS) THead(id string) (int64, Resp) {
	r := o.do("HEAD", "/temp/"+id, nil)
	n, err := strconv.ParseInt(r.Header.Get("Size"), 10, 64)
	if r.Err == nil && r.Code == 200 && err != nil {
		r.Err = fmt.Errorf("no size: %v", r.Header)
	}
	return n, r
}
func (o OS) TGet(id string, size int64) Resp {
	return o.do("GET", "/temp/"+id, nil, "Size", fmt.Sprint(size))
}
func (o OS) TCommit(id string, zip bool) Resp { return o.do("PUT", "/temp/"+id+zq(zip), nil) }
func (o OS) TDelete(id string) Resp           { return o.do("DELETE", "/temp/"+id, nil) }

// stored returns the sizes of one server's object files by name, and its temporary files.
func (o OS) stored() (objs map[string]int64, temps []string, twice []string) {
	objs = map[string]int64{}
	for _, d := range o.N.StoreDirs() {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err != nil || !fi.Mode().IsRegular() {
				return nil
			}
			b := filepath.Base(p)
			if strings.HasPrefix(b, "TempInfo_") {
				temps = append(temps, p)
				return nil
			}
			if _, ok := objs[b]; ok {
				twice = append(twice, b)
			}
			objs[b] += fi.Size()
			return nil
		})
	}
	return
}

// checkCapacity compares the reported used space with what is stored, when nothing runs.
func (o OS) checkCapacity(x *Ctx, when string) {
	var rep, sum int64
	ok := eventually(cap5, func() bool {
		objs, _, _ := o.stored()
		sum = 0
		for _, n := range objs {
			sum += n
		}
		rep = capacityOf(o.N)
		return rep == sum
	})
	x.Event("capacities_compared", 1)
	if !ok {
		x.Violate("capacity", "%s: %s reports %d bytes used, its object files have %d", when, o.N.ID, rep, sum)
	}
}
