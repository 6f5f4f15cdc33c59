package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"

	"common/datasize"
	"common/util"
	xmath "common/util/math"

	"gopkg.in/yaml.v3"
	. "verifharness/report"
)

func init() { parts = append(parts, sizesParse, sizesString, paging, arithmetic) }

var sizeRe = regexp.MustCompile(`^([0-9]+)(B|KB|MB|GB|TB|PB)?$`)

// wantSize is the definition: digits and an optional unit, in any case. ok is false for anything else.
func wantSize(s string) (v *big.Int, ok bool) {
	m := sizeRe.FindStringSubmatch(strings.ToUpper(s))
	if m == nil {
		return nil, false
	}
	v, _ = new(big.Int).SetString(m[1], 10)
	for i, u := range []string{"", "KB", "MB", "GB", "TB", "PB"} {
		if m[2] == u && u != "" {
			v.Lsh(v, uint(10*i))
		}
	}
	return v, true
}

var (
	maxUint  = new(big.Int).SetUint64(1<<64 - 1)
	limit    = new(big.Int).Lsh(big.NewInt(1), 60) // 1024PB
	unitText = []string{"", "B", "KB", "MB", "GB", "TB", "PB", "kb", "Mb", "gB", "b", "K", "EB", "KBB", " KB", "KB ", "bytes", "%", "\n"}
)

// edgeUint gives numbers near powers of two and ten as well as any.
func edgeUint(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return r.Uint64() >> uint(r.Intn(64))
	case 1:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(5)) - 2
	case 2:
		return uint64(r.Intn(5000))
	default:
		v := uint64(1)
		for i := r.Intn(20); i > 0; i-- {
			v *= 10
		}
		return v + uint64(r.Intn(3)) - 1
	}
}

func sizesParse() {
	r := Rand(1)
	texts := []string{"", "KB", "B", "-1KB", "+1KB", "1.5KB", "1 KB", "0", "0B", "0PB", "00012KB", "1023PB", "1024PB", "1025PB", "18446744073709551615", "18446744073709551616",
		"9223372036854775807", "9223372036854775808", "9223372036854775807KB", "18014398509481984KB", "17592186044416MB", "17179869184GB", "16777216TB", "16777217TB", "1048576TB",
		"1048575TB", "99999999999999999999999999", "1KB1", "KB1", "1\x00KB", "１KB", "1ＫＢ", "0x10", "1e3", "1_000"}
	for i := 0; i < Pick(60000, 2000000); i++ {
		switch r.Intn(8) {
		case 0:
			b := make([]byte, r.Intn(6))
			for k := range b {
				b[k] = "0123456789KMGTPBkb .-+x"[r.Intn(23)]
			}
			texts = append(texts[:0], string(b))
		default:
			if i > 0 {
				texts = append(texts[:0], fmt.Sprint(edgeUint(r))+unitText[r.Intn(len(unitText))])
			}
		}
		for _, s := range texts {
			sizeText(s)
		}
	}
}

func sizeText(s string) {
	want, valid := wantSize(s)
	Safe("size-parse", fmt.Sprintf("parsing the size %q", s), func() {
		got, err := datasize.Parse(s)
		switch {
		case err != nil && valid && want.Cmp(limit) < 0 && want.IsInt64():
			Violate("size-refused", "the size %q was refused: %v", s, err)
		case err == nil && !valid:
			Violate("size-accepted", "the malformed size %q was taken as %d", s, uint64(got))
		case err == nil && (want.Cmp(maxUint) > 0 || want.Uint64() != uint64(got)):
			Violate("size-value", "the size %q was taken as %d", s, uint64(got))
		}
		var viaText datasize.DataSize = 7
		if e := viaText.SetValue(s); (e == nil) != (err == nil) || (e == nil && viaText != got) {
			Violate("size-env", "SetValue(%q) = %d, %v but Parse gives %d, %v", s, viaText, e, got, err)
		} else if e != nil && viaText != 7 {
			Violate("size-env", "SetValue(%q) failed but changed the value to %d", s, viaText)
		}
		var viaYaml struct{ V datasize.DataSize }
		if e := yaml.Unmarshal([]byte("v: "+s), &viaYaml); e == nil && err == nil && viaYaml.V != got {
			Violate("size-yaml", "%q in yaml is %d, parsed it is %d", s, viaYaml.V, got)
		} else if e != nil && err == nil {
			Violate("size-yaml", "%q is refused in yaml: %v", s, e)
		}
	})
	u := "malformed"
	if valid {
		u = strings.ToUpper(strings.TrimLeft(s, "0123456789")) + fmt.Sprint("/", want.BitLen())
	}
	Case("size text " + u)
}

func sizesString() {
	r := Rand(2)
	for i := 0; i < Pick(60000, 2000000); i++ {
		v := edgeUint(r)
		if i < 4000 {
			v = uint64(i)
		}
		if r.Intn(3) == 0 {
			v <<= uint(10 * r.Intn(6))
		}
		d := datasize.DataSize(v)
		Safe("size-string", fmt.Sprintf("writing the size %d", v), func() {
			s := d.String()
			back, err := datasize.Parse(s)
			if v < 1<<60 && (err != nil || back != d) {
				Violate("size-roundtrip", "the size %d is written %q, which is read as %d, %v", v, s, uint64(back), err)
			} else if err == nil && back != d {
				Violate("size-roundtrip", "the size %d is written %q, which is read as %d", v, s, uint64(back))
			}
			type cfg struct{ V datasize.DataSize }
			b, err := yaml.Marshal(cfg{d})
			var c cfg
			if err != nil {
				Violate("size-yaml", "the size %d cannot be written as yaml: %v", v, err)
			} else if err := yaml.Unmarshal(b, &c); v < 1<<60 && (err != nil || c.V != d) {
				Violate("size-roundtrip", "the size %d is %q in yaml, which is read as %d, %v", v, b, uint64(c.V), err)
			}
			if d.Byte() != v || d.KiloByte() != v>>10 || d.MegaByte() != v>>20 || d.GigaByte() != v>>30 || d.TeraByte() != v>>40 || d.PetaByte() != v>>50 || d.Int64() != int64(v) || d.Int() != int(v) {
				Violate("size-units", "the units of %d are %d %d %d %d %d %d", v, d.Byte(), d.KiloByte(), d.MegaByte(), d.GigaByte(), d.TeraByte(), d.PetaByte())
			}
			m, err := d.MarshalMsg(nil)
			var e datasize.DataSize
			if rest, err2 := e.UnmarshalMsg(m); err != nil || err2 != nil || len(rest) != 0 || e != d || len(m) > d.Msgsize() {
				Violate("size-msgp", "the size %d is encoded as %x and read as %d", v, m, uint64(e))
			}
		})
		Case(fmt.Sprintf("size value %d bits, %d unit bits", bits(v), tz(v)))
	}
}

func bits(v uint64) int { return new(big.Int).SetUint64(v).BitLen() }
func tz(v uint64) uint {
	if v == 0 {
		return 64
	}
	return new(big.Int).SetUint64(v).TrailingZeroBits() / 10
}

// paging: the pages 1, 2, 3 ... of any size are consecutive and cover everything once, and no other input leaves the bounds.
func paging() {
	r := Rand(3)
	for i := 0; i < Pick(4000, 100000); i++ {
		total, size := r.Intn(60), 1+r.Intn(20)
		if r.Intn(8) == 0 {
			size = total
		}
		if size == 0 {
			size = 1
		}
		Safe("paging", fmt.Sprintf("pages of %d out of %d", size, total), func() {
			next := 0
			for p := 1; p <= total/size+3; p++ {
				st, ed, ok := util.PagingOffset(p, size, total)
				first := (p - 1) * size
				if first >= total {
					if ok && st != ed {
						Violate("paging", "page %d of %d out of %d is %d-%d", p, size, total, st, ed)
					}
					continue
				}
				last := first + size
				if last > total {
					last = total
				}
				if !ok || st != first || ed != last || st != next {
					Violate("paging", "page %d of %d out of %d is %d-%d, %v; want %d-%d", p, size, total, st, ed, ok, first, last)
				}
				next = ed
			}
			if next != total {
				Violate("paging", "the pages of %d cover %d of %d", size, next, total)
			}
		})
		Case(fmt.Sprintf("paging total=%d size=%d", total, size))
	}
	odd := []int{-1 << 63, -1 << 31, -1000, -2, -1, 0, 1, 2, 3, 1000, 1 << 31, 1 << 32, 1 << 62, 1<<63 - 1}
	for _, p := range odd {
		for _, s := range odd {
			for _, t := range []int{0, 1, 7, 1000} {
				Safe("paging", fmt.Sprintf("page %d of %d out of %d", p, s, t), func() {
					if st, ed, ok := util.PagingOffset(p, s, t); ok && (st < 0 || ed < st || ed > t) {
						Violate("paging-bounds", "page %d of size %d out of %d is %d-%d", p, s, t, st, ed)
					}
				})
				Case(fmt.Sprintf("paging %d %d %d", p, s, t))
			}
		}
	}
}

func arithmetic() {
	r := Rand(4)
	for i := 0; i < Pick(20000, 500000); i++ {
		a, b := int(edgeUint(r)>>1), int(edgeUint(r)>>1)
		if b == 0 {
			b = 1
		}
		Safe("arithmetic", fmt.Sprintf("arithmetic on %d and %d", a, b), func() {
			q := a / b
			if a%b != 0 {
				q++
			}
			if got := xmath.CeilDiv(a, b); got != q {
				Violate("ceildiv", "CeilDiv(%d, %d) = %d, want %d", a, b, got, q)
			}
			lo, hi := a, b
			if lo > hi {
				lo, hi = hi, lo
			}
			if xmath.MinInt(a, b) != lo || xmath.MaxInt(a, b) != hi || xmath.MinNumber(a, b) != lo || xmath.MaxNumber(a, b) != hi ||
				xmath.MaxUint64(uint64(a), uint64(b)) != uint64(hi) || xmath.MinInt(-a, -b) != -hi || xmath.MaxInt(-a, -b) != -lo {
				Violate("minmax", "minimum or maximum of %d and %d is wrong", a, b)
			}
			// the mathematical modulo, for a positive divisor
			m := int(new(big.Int).Mod(big.NewInt(int64(-a)), big.NewInt(int64(b))).Int64())
			if got := xmath.LogicMod(-a, b); got != m {
				Violate("logicmod", "LogicMod(%d, %d) = %d, want %d", -a, b, got, m)
			}
			if got := xmath.LogicMod(a, b); got != a%b {
				Violate("logicmod", "LogicMod(%d, %d) = %d, want %d", a, b, got, a%b)
			}
		})
		Case(fmt.Sprintf("arithmetic %d %d bits", bits(uint64(a)), bits(uint64(b))))
	}
}
