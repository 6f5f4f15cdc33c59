// Package roundtrip checks msgpack codecs: values survive encoding, cut encodings are refused, damaged ones do no harm.
package roundtrip

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/tinylib/msgp/msgp"
	. "verifharness/report"
)

// Codec is what generated code offers.
type Codec interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	msgp.Sizer
}

// Text gives names and texts of every sort and length class of the encoding.
func Text(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", []int{1, 30, 31, 32, 33, 255, 256, 257, 65535, 65536, 70000}[r.Intn(11)])
	case 2:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	case 3:
		return "ünïcode/目录/\x00\n%s"
	default:
		b := make([]byte, r.Intn(20))
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b)
	}
}

// Byte gives a byte for damaging encodings, without those announcing arrays or maps of up to 2^32 items, which
// the library allocates before it reads them.
func Byte(r *rand.Rand) byte {
	for {
		b := byte(r.Intn(256))
		if r.Intn(2) == 0 {
			b = 0x80 + byte(r.Intn(128))
		}
		if b != 0xdd && b != 0xdf && b != 0xdb && b != 0xc6 && b != 0xc9 {
			return b
		}
	}
}

func edge(r *rand.Rand) uint64 {
	switch r.Intn(3) {
	case 0:
		return r.Uint64() >> uint(r.Intn(64))
	case 1:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	default:
		return uint64(r.Intn(300))
	}
}

// Fill sets v to a random value.
func Fill(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Tag.Get("msg") == "-" {
				continue
			}
			Fill(r, v.Field(i))
		}
	case reflect.Ptr:
		if r.Intn(4) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		Fill(r, v.Elem())
	case reflect.String:
		v.SetString(Text(r))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := int64(edge(r))
		if r.Intn(2) == 0 {
			n = -n
		}
		s := uint(64 - v.Type().Bits())
		v.SetInt(n << s >> s)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s := uint(64 - v.Type().Bits())
		v.SetUint(edge(r) << s >> s)
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), r.NormFloat64(), math.Copysign(0, -1)}[r.Intn(8)])
	case reflect.Slice:
		n := r.Intn(4)
		if r.Intn(6) == 0 {
			n = []int{15, 16, 17, 100}[r.Intn(4)]
		}
		if n == 0 && r.Intn(2) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			Fill(r, v.Index(i))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := r.Intn(20); n > 0; n-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			Fill(r, k)
			Fill(r, e)
			v.SetMapIndex(k, e)
		}
	default:
		panic("cannot fill " + v.Kind().String())
	}
}

// Diff tells how two values differ; a missing slice and an empty one are the same, and so are fields that are not encoded.
func Diff(a, b any) string { return diff("", reflect.ValueOf(a), reflect.ValueOf(b)) }

func diff(path string, a, b reflect.Value) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	}
	if !a.IsValid() {
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil is %v, then %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diff(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Tag.Get("msg") == "-" {
				continue
			}
			if d := diff(path+"."+f.Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d items, then %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries, then %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if d := diff(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), b.MapIndex(k)); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v, then %v", path, a, b)
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %#v, then %#v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

func shape(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "-"
		}
		return shape(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += shape(v.Field(i))
		}
		return s + "}"
	case reflect.String:
		return fmt.Sprint("s", class(v.Len()))
	case reflect.Slice, reflect.Map:
		return fmt.Sprint("[", class(v.Len()), "]")
	}
	return ""
}

func class(n int) int {
	for i, c := range []int{0, 15, 31, 255, 65535} {
		if n <= c {
			return i
		}
	}
	return 5
}

// Codecs round-trips n random values of each type.
func Codecs(part int64, n int, types map[string]func() Codec) {
	var names []string
	for k := range types {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, name := range names {
		r := Rand(part*100 + int64(i))
		mk := types[name]
		for k := 0; k < n; k++ {
			v := mk()
			if k > 0 {
				Fill(r, reflect.ValueOf(v).Elem())
			}
			one(r, name, v, mk)
			Case(fmt.Sprintf("%s %s", name, shape(reflect.ValueOf(v))))
		}
		Event("values of "+name, int64(n))
	}
}

func one(r *rand.Rand, name string, v Codec, mk func() Codec) {
	var b []byte
	if !Safe("codec-encode", "encoding a "+name, func() {
		var err error
		pre := []byte("prefix")[:r.Intn(7)]
		if b, err = v.MarshalMsg(append([]byte(nil), pre...)); err != nil {
			Violate("codec-encode", "a %s cannot be encoded: %v", name, err)
			return
		}
		if !bytes.HasPrefix(b, pre) {
			Violate("codec-encode", "encoding a %s does not keep what was there", name)
		}
		b = b[len(pre):]
		if len(b) > v.Msgsize() {
			Violate("codec-size", "a %s takes %d bytes, announced are %d", name, len(b), v.Msgsize())
		}
	}) || b == nil {
		return
	}
	Safe("codec-decode", "decoding a "+name, func() {
		w := mk()
		if r.Intn(2) == 0 { // what was in the value before must not shine through
			Fill(r, reflect.ValueOf(w).Elem())
		}
		rest, err := w.UnmarshalMsg(append(append([]byte(nil), b...), "tail"...))
		if err != nil || string(rest) != "tail" {
			Violate("codec-roundtrip", "a %s is not decoded: %v, rest %q", name, err, clip(rest))
		} else if d := Diff(v, w); d != "" {
			Violate("codec-roundtrip", "a %s is decoded to another value: %s", name, clip([]byte(d)))
		}
		var buf bytes.Buffer
		wr := msgp.NewWriter(&buf)
		if err := v.EncodeMsg(wr); err != nil {
			Violate("codec-encode", "a %s cannot be written: %v", name, err)
		}
		wr.Flush()
		w = mk()
		if err := w.DecodeMsg(msgp.NewReader(bytes.NewReader(buf.Bytes()))); err != nil {
			Violate("codec-roundtrip", "a written %s is not read: %v", name, err)
		} else if d := Diff(v, w); d != "" {
			Violate("codec-roundtrip", "a written %s is read as another value: %s", name, clip([]byte(d)))
		}
		w = mk()
		if _, err := w.UnmarshalMsg(buf.Bytes()); err != nil || Diff(v, w) != "" {
			Violate("codec-roundtrip", "a written %s is decoded to another value: %v", name, err)
		}
	})
	for k := 0; k < 24; k++ {
		cut := r.Intn(len(b))
		if len(b) <= 24 {
			cut = k % len(b)
		}
		Safe("codec-truncated", fmt.Sprintf("decoding %d of %d bytes of a %s", cut, len(b), name), func() {
			if _, err := mk().UnmarshalMsg(b[:cut:cut]); err == nil {
				Violate("codec-truncated", "%d of %d bytes of a %s were accepted", cut, len(b), name)
			}
			if err := mk().DecodeMsg(msgp.NewReader(bytes.NewReader(b[:cut]))); err == nil {
				Violate("codec-truncated", "%d of %d bytes of a %s were accepted from a stream", cut, len(b), name)
			}
		})
		x := append([]byte(nil), b...)
		for m := 0; m <= r.Intn(3); m++ {
			x[r.Intn(len(x))] = Byte(r)
		}
		Safe("codec-damaged", "decoding a damaged "+name, func() { mk().UnmarshalMsg(x) })
		Event("damaged encodings decoded", 2)
	}
}

func clip(b []byte) string {
	if len(b) > 300 {
		b = b[:300]
	}
	return string(b)
}
