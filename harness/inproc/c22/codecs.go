package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"common/hashslot"
	"common/proto/msg"
	"common/system"
	"common/system/cpu"
	"common/system/disk"
	"common/system/mem"
	"common/util"

	"github.com/tinylib/msgp/msgp"
	. "verifharness/report"
	"verifharness/roundtrip"
)

func init() { parts = append(parts, codecs, arrays, gobs, numbers, ids) }

func codecs() {
	roundtrip.Codecs(5, Pick(400, 8000), map[string]func() roundtrip.Codec{
		"Metadata":     func() roundtrip.Codec { return new(msg.Metadata) },
		"Extra":        func() roundtrip.Codec { return new(msg.Extra) },
		"Version":      func() roundtrip.Codec { return new(msg.Version) },
		"Bucket":       func() roundtrip.Codec { return new(msg.Bucket) },
		"SlotInfo":     func() roundtrip.Codec { return new(hashslot.SlotInfo) },
		"system.Info":  func() roundtrip.Codec { return new(system.Info) },
		"disk.Info":    func() roundtrip.Codec { return new(disk.Info) },
		"disk.IOStats": func() roundtrip.Codec { return new(disk.IOStats) },
		"cpu.Stat":     func() roundtrip.Codec { return new(cpu.Stat) },
		"mem.Status":   func() roundtrip.Codec { return new(mem.Status) },
	})
}

// arrays: what EncodeArrayMsgp wrote DecodeArrayMsgp reads back; cut or damaged it is refused or gives other items, but never crashes.
func arrays() {
	r := Rand(6)
	dec := func(b []byte) ([]*msg.Version, error) {
		return util.DecodeArrayMsgp(b, func() *msg.Version { return new(msg.Version) })
	}
	for i := 0; i < Pick(250, 5000); i++ {
		n := r.Intn(12)
		if i%40 == 0 {
			n = 300 + r.Intn(300)
		}
		arr := make([]*msg.Version, n)
		for k := range arr {
			arr[k] = &msg.Version{}
			roundtrip.Fill(r, reflect.ValueOf(arr[k]).Elem())
			if r.Intn(3) == 0 {
				arr[k].Locate = make([]string, r.Intn(200))
				for l := range arr[k].Locate {
					arr[k].Locate[l] = roundtrip.Text(r)
				}
			}
		}
		var b []byte
		Safe("array", "encoding an array", func() {
			var err error
			if b, err = util.EncodeArrayMsgp(arr); err != nil {
				Violate("array-encode", "%d versions cannot be encoded: %v", n, err)
			}
			got, err := dec(b)
			if err != nil || len(got) != len(arr) {
				Violate("array-roundtrip", "%d versions were encoded, %d decoded: %v", n, len(got), err)
				return
			}
			for k := range arr {
				if d := roundtrip.Diff(arr[k], got[k]); d != "" {
					Violate("array-roundtrip", "item %d of %d differs: %s", k, n, d)
				}
			}
		})
		Case(fmt.Sprintf("array of %d, %d bytes", n, len(b)))
		for k := 0; k < Pick(40, 120) && len(b) > 0; k++ {
			cut := r.Intn(len(b))
			if k < 12 && k < len(b) {
				cut = k
			}
			Safe("array-truncated", fmt.Sprintf("decoding %d of %d bytes of an array", cut, len(b)), func() {
				got, err := dec(b[:cut:cut])
				if err == nil { // fine only at an item's boundary
					again, _ := util.EncodeArrayMsgp(got)
					if !bytes.Equal(again, b[:cut]) {
						Violate("array-truncated", "%d of %d bytes of an array were taken as %d items", cut, len(b), len(got))
					}
				}
			})
			x := append([]byte(nil), b...)
			for m := 0; m <= r.Intn(3); m++ {
				x[r.Intn(len(x))] = roundtrip.Byte(r)
			}
			Safe("array-damaged", "decoding a damaged array", func() { dec(x) })
			Event("damaged encodings decoded", 2)
		}
	}
}

func gobs() {
	r := Rand(7)
	type inner struct {
		A []string
		B map[string]int64
		C float64
	}
	for i := 0; i < Pick(2000, 40000); i++ {
		in := inner{C: r.NormFloat64()}
		for k := r.Intn(4); k > 0; k-- {
			in.A = append(in.A, roundtrip.Text(r))
		}
		for k := r.Intn(4); k > 0; k-- {
			if in.B == nil {
				in.B = map[string]int64{}
			}
			in.B[roundtrip.Text(r)] = int64(edgeUint(r))
		}
		Safe("gob", "gob", func() {
			b := util.GobEncode(in)
			var out inner
			if !util.GobDecode(b, &out) || !reflect.DeepEqual(in, out) {
				Violate("gob", "%+v is decoded as %+v", in, out)
			}
			var cut inner
			if n := r.Intn(len(b)); util.GobDecode(b[:n], &cut) {
				Violate("gob", "%d of %d bytes were decoded", n, len(b))
			}
		})
		Case("")
	}
	if b := util.GobEncode(func() {}); b != nil {
		Violate("gob", "a function was encoded")
	}
	Case("gob")
}

// numbers: the representations of integers in stores and urls.
func numbers() {
	r := Rand(8)
	for i := 0; i < Pick(50000, 1000000); i++ {
		v := edgeUint(r)
		Safe("number", fmt.Sprintf("representing %d", v), func() {
			if got := util.BytesToInt(util.IntToBytes(v)); got != v {
				Violate("number-bytes", "%d is stored and read as %d", v, got)
			}
			if s := util.UIntString(v); util.ToUint64(s) != v || s != fmt.Sprint(v) {
				Violate("number-text", "%d is written %q and read as %d", v, s, util.ToUint64(s))
			}
			n := int64(v)
			if s := util.IntString(n); util.ToInt64(s) != n || s != fmt.Sprint(n) || util.ToInt(s) != int(n) {
				Violate("number-text", "%d is written %q and read as %d", n, s, util.ToInt64(s))
			}
			m := int32(v)
			if s := util.IntString(m); util.ToInt32(s) != m {
				Violate("number-text", "%d is written %q and read as %d", m, s, util.ToInt32(s))
			}
			b := util.IntToBytes(v)
			for k := range b {
				util.BytesToInt(b[:k])
			}
		})
		Case(fmt.Sprintf("number of %d bits", bits(v)))
	}
	for i := 0; i < 2000; i++ {
		s := roundtrip.Text(r)
		if string(util.StrToBytes(s)) != s || util.BytesToStr([]byte(s)) != s || len(util.StrToBytes(s)) != len(s) || (s != "" && cap(util.StrToBytes(s)) != len(s)) {
			Violate("str-bytes", "%q is not kept as bytes", s)
		}
		if util.ToString([]byte(s)) != s || util.ToString(s) != s || util.ToString(int64(i)) != fmt.Sprint(i) {
			Violate("to-string", "%q is not kept as text", s)
		}
	}
	Case("text and bytes")
}

// ids: different metadata have different identifiers, ordered as bucket and name are written.
func ids() {
	r := Rand(9)
	seen := map[string][2]string{}
	word := func() string {
		w := ""
		for k := 1 + r.Intn(3); k > 0; k-- {
			w += []string{"a", "b", "%s", "%d", "%", "é", ".", "-", "%!(EXTRA", "x y"}[r.Intn(10)]
		}
		return w
	}
	for i := 0; i < Pick(20000, 200000); i++ {
		b, n := word(), word()
		m := &msg.Metadata{Bucket: b, Name: n}
		id := m.ID()
		if o, ok := seen[id]; ok && o != [2]string{b, n} {
			Violate("id", "metadata %q in %q and %q in %q have the same identifier %q", n, b, o[1], o[0], id)
		}
		if id != b+"/"+n {
			Violate("id", "the identifier of %q in %q is %q", n, b, id)
		}
		seen[id] = [2]string{b, n}
		v := &msg.Version{Sequence: edgeUint(r)}
		if v.ID() != fmt.Sprint(v.Sequence) {
			Violate("id", "the identifier of version %d is %q", v.Sequence, v.ID())
		}
		if bk := (&msg.Bucket{Name: n}); bk.ID() != n {
			Violate("id", "the identifier of bucket %q is %q", n, bk.ID())
		}
		Case("")
	}
	Case(fmt.Sprintf("identifiers of %d metadata", len(seen)))
}

var _ = rand.Int
var _ = math.MaxInt
var _ msgp.Marshaler
