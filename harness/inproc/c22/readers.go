package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	cset "common/collection/set"
	"common/request"
	"common/system/disk"
	"common/util"
	"common/util/crypto"
	"common/util/maps"
	"common/util/slices"
	"common/wildcard"

	. "verifharness/report"
	"verifharness/roundtrip"
)

func init() { parts = append(parts, alignedReaders, multiReaders, ranges, sliceOps, patterns, texts) }

var errBroken = errors.New("the disk is broken")

// flaky reads data in pieces of any size and ends with err, which may come with the last piece.
type flaky struct {
	r        *rand.Rand
	data     []byte
	err      error
	withLast bool
	reads    int
}

func (f *flaky) Read(p []byte) (int, error) {
	f.reads++
	if f.reads > 100000 {
		panic("read without end")
	}
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := len(p)
	if f.r.Intn(2) == 0 && n > 0 {
		n = 1 + f.r.Intn(n)
	}
	n = copy(p[:n], f.data)
	f.data = f.data[n:]
	if len(f.data) == 0 && f.withLast {
		return n, f.err
	}
	return n, nil
}

func sizes(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return []int{0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 65536}[r.Intn(9)]
	case 1:
		return r.Intn(64)
	default:
		return r.Intn(40000)
	}
}

func roundUp(n int) int { return (n + 4095) / 4096 * 4096 }

func alignedReaders() {
	r := Rand(41)
	for i := 0; i < 3*65536; i++ {
		n := i
		if i > 65536 {
			n = r.Intn(1 << 50)
		}
		if disk.AlignedSize(n) != roundUp(n) || disk.AlignedSize64(int64(n)) != int64(roundUp(n)) {
			Violate("aligned-size", "the aligned size of %d is %d", n, disk.AlignedSize(n))
		}
	}
	Case("aligned sizes")
	for i := 0; i < Pick(1500, 30000); i++ {
		data := make([]byte, sizes(r))
		r.Read(data)
		bad := r.Intn(5) == 0
		f := &flaky{r: r, data: data, err: io.EOF, withLast: r.Intn(2) == 0}
		if bad {
			f.err = []error{errBroken, io.ErrUnexpectedEOF}[r.Intn(2)]
		}
		bufLen := 4096 * (1 + r.Intn(5))
		what := fmt.Sprintf("reading %d bytes aligned, %d at a time, ending with %v", len(data), bufLen, f.err)
		Within(20*time.Second, "aligned-reader", what, func() {
			ar := disk.NewAlignedReader(f)
			var got []byte
			buf := make([]byte, bufLen)
			for {
				for k := range buf {
					buf[k] = 0xee
				}
				n, err := ar.Read(buf)
				if n%4096 != 0 {
					Violate("aligned-reader", "%s: %d bytes are returned", what, n)
				}
				got = append(got, buf[:n]...)
				if err != nil {
					if bad != (err != io.EOF) {
						Violate("aligned-reader", "%s: ended with %v", what, err)
					}
					break
				}
				if len(got) > roundUp(len(data))+bufLen {
					Violate("aligned-reader", "%s: reads on and on", what)
					return
				}
			}
			if !bad {
				want := append(append([]byte(nil), data...), make([]byte, roundUp(len(data))-len(data))...)
				if !bytes.Equal(got, want) {
					Violate("aligned-reader", "%s: other bytes are returned (%d, want %d)", what, len(got), len(want))
				}
			} else if len(got) > len(data) || !bytes.Equal(got, data[:len(got)]) {
				Violate("aligned-reader", "%s: other bytes are returned before the error", what)
			}
		})
		Case(fmt.Sprintf("aligned reader %d pages +%v, buffer %d pages, bad=%v last=%v", len(data)/4096, len(data)%4096 > 0, bufLen/4096, bad, f.withLast))
	}
	// what is read up to a limit are the first bytes of the (aligned) source
	for i := 0; i < Pick(1500, 30000); i++ {
		data := make([]byte, sizes(r))
		r.Read(data)
		limit := sizes(r)
		src := make([]byte, roundUp(len(data)))
		copy(src, data)
		f := &flaky{r: r, data: src, err: io.EOF, withLast: r.Intn(2) == 0}
		bufLen := 4096 * (1 + r.Intn(5))
		if r.Intn(4) == 0 {
			bufLen = 1 + r.Intn(9000)
		}
		want := src
		if limit < len(want) {
			want = want[:limit]
		}
		what := fmt.Sprintf("reading %d of %d bytes, %d at a time", limit, len(src), bufLen)
		Within(20*time.Second, "aligned-limit", what, func() {
			lr := &disk.AlignedLimitedReader{R: f, N: int64(limit)}
			var got []byte
			buf := make([]byte, bufLen)
			for k := 0; ; k++ {
				n, err := lr.Read(buf)
				got = append(got, buf[:n]...)
				if err != nil {
					if err != io.EOF {
						Violate("aligned-limit", "%s: ended with %v", what, err)
					}
					break
				}
				if k > 200000 {
					Violate("aligned-limit", "%s: reads on and on", what)
					return
				}
			}
			if !bytes.Equal(got, want) {
				Violate("aligned-limit", "%s: %d bytes are returned, want %d", what, len(got), len(want))
			}
		})
		Case(fmt.Sprintf("limited reader limit %d pages +%v of %d, buffer %d", limit/4096, limit%4096 > 0, len(src)/4096, bufLen/4096))
	}
}

func multiReaders() {
	r := Rand(42)
	for i := 0; i < Pick(3000, 60000); i++ {
		n := r.Intn(5)
		var rs []io.Reader
		var want []byte
		broken := -1
		for k := 0; k < n; k++ {
			d := make([]byte, sizes(r)%9000)
			r.Read(d)
			f := &flaky{r: r, data: d, err: io.EOF, withLast: r.Intn(2) == 0}
			if broken < 0 {
				want = append(want, d...)
				if r.Intn(6) == 0 {
					broken = k
					f.err = errBroken
				}
			}
			if r.Intn(5) == 0 {
				rs = append(rs, disk.MultiReader(f))
			} else {
				rs = append(rs, f)
			}
		}
		bufLen := 1 + r.Intn(9000)
		what := fmt.Sprintf("reading %d readers one after the other, number %d breaks", n, broken)
		Within(20*time.Second, "multi-reader", what, func() {
			mr := disk.MultiReader(rs...)
			if r.Intn(3) == 0 {
				mr = disk.MultiReader(mr)
			}
			var got []byte
			buf := make([]byte, bufLen)
			for k := 0; ; k++ {
				m, err := mr.Read(buf)
				got = append(got, buf[:m]...)
				if err == nil && m < bufLen {
					Violate("multi-reader", "%s: only %d of %d bytes are returned", what, m, bufLen)
				}
				if err != nil {
					if (broken >= 0) != (err != io.EOF) {
						Violate("multi-reader", "%s: ended with %v", what, err)
					}
					break
				}
				if k > 200000 {
					Violate("multi-reader", "%s: reads on and on", what)
					return
				}
			}
			if !bytes.Equal(got, want) {
				Violate("multi-reader", "%s: %d bytes are returned, want %d", what, len(got), len(want))
			}
		})
		Case(fmt.Sprintf("multi reader %d broken %d", n, broken))
	}
}

var rangeRe = regexp.MustCompile(`^bytes= ?[0-9]+-[0-9]* ?(, ?[0-9]+-[0-9]* ?)*$`)

func ranges() {
	r := Rand(43)
	num := func() string {
		switch r.Intn(12) {
		case 0:
			return []string{"", "abc", "-1", "1.5", "99999999999999999999", "0x1", " ", "1 2", "+"}[r.Intn(9)]
		case 1:
			return "9223372036854775807"
		default:
			return fmt.Sprint(edgeUint(r) >> 1)
		}
	}
	for i := 0; i < Pick(40000, 800000); i++ {
		s := "bytes="
		if r.Intn(15) == 0 {
			s = []string{"", "bytes", "byte=", "Bytes=", "items="}[r.Intn(5)]
		}
		type tup struct{ a, b string }
		var ts []tup
		for k := r.Intn(3); k >= 0; k-- {
			t := tup{num(), num()}
			if r.Intn(2) == 0 {
				t.b = ""
			}
			ts = append(ts, t)
			s += t.a + "-" + t.b
			if k > 0 {
				s += []string{",", ", "}[r.Intn(2)]
			}
		}
		big := strings.Contains(s, "99999999999999999999")
		Safe("range", fmt.Sprintf("the range %q", s), func() {
			var rg request.Range
			ok := rg.ConvertFrom(s)
			valid := rangeRe.MatchString(s) && !big
			if valid && !ok {
				Violate("range-refused", "the range %q was refused", s)
			}
			if ok && !valid {
				Violate("range-accepted", "the malformed range %q was taken as %v", s, rg.Bytes)
			}
			if ok && valid {
				if len(rg.Bytes) != len(ts) {
					Violate("range-value", "the range %q was taken as %v", s, rg.Bytes)
					return
				}
				for k, t := range ts {
					if rg.Bytes[k].First != util.ToInt64(t.a) || rg.Bytes[k].Second != util.ToInt64(t.b) || fmt.Sprint(rg.Bytes[k].First) != t.a {
						Violate("range-value", "the range %q was taken as %v", s, rg.Bytes)
					}
				}
				if f, k := rg.GetFirstBytes(); !k || f != rg.Bytes[0] || rg.FirstBytes() != f {
					Violate("range-value", "the first of the range %q is %v", s, f)
				}
			}
		})
		Case(fmt.Sprintf("range of %d, %v", len(ts), rangeRe.MatchString(s)))
	}
	for _, s := range []string{"", "bytes=", "bytes=-", "bytes=-5", "bytes", "bytes=5", "bytes=,", "bytes=1-2,", "bytes=1-2-3", "0-5", "bytes=a-b", "bytes=1-x"} {
		var rg request.Range
		Safe("range", "the range "+s, func() {
			if rg.ConvertFrom(s) {
				Violate("range-accepted", "the malformed range %q was taken as %v", s, rg.Bytes)
			}
		})
		Case("range " + s)
	}
	var none request.Range
	if _, ok := none.GetFirstBytes(); ok {
		Violate("range-value", "no range has a first")
	}
}

func sliceOps() {
	r := Rand(44)
	for i := 0; i < Pick(20000, 300000); i++ {
		n := r.Intn(12)
		a := make([]int, n)
		for k := range a {
			a[k] = r.Intn(9)
		}
		orig := append([]int(nil), a...)
		Safe("slices", fmt.Sprintf("slices of %v", orig), func() {
			st, ed := r.Intn(2*n+7)-n-3, r.Intn(2*n+7)-n-3
			c := slices.SafeChunk(a, st, ed)
			pos := func(p int) (int, bool) {
				if p < 0 {
					return n + p, p >= -n
				}
				if p >= n {
					return n - 1, true
				}
				return p, true
			}
			ps, ok1 := pos(st)
			pe, ok2 := pos(ed)
			if n == 0 {
				if len(c) != 0 {
					Violate("chunk", "a chunk of nothing has %d items", len(c))
				}
			} else if ok1 && ok2 {
				if ps > pe {
					ps, pe = pe, ps
				}
				if !reflect.DeepEqual(c, orig[ps:pe+1]) {
					Violate("chunk", "%v from %d to %d is %v", orig, st, ed, c)
				}
			}
			b := make([]int, r.Intn(70))
			slices.Fill(b, 7)
			for _, v := range b {
				if v != 7 {
					Violate("fill", "filling %d items leaves %v", len(b), b)
					break
				}
			}
			pat := a
			if n > 0 {
				slices.FillPattern(b, pat)
				for k, v := range b {
					if v != pat[k%n] {
						Violate("fill", "filling %d items with %v gives %v", len(b), pat, b)
						break
					}
				}
				max, at := a[0], 0
				for k, v := range a {
					if v > max {
						max, at = v, k
					}
				}
				if got := slices.ExtremalIndex(a, func(ex, cur int) bool { return cur > ex }); got != at || slices.Extremal(a, func(ex, cur int) bool { return cur > ex }) != max {
					Violate("extremal", "the first largest of %v is at %d, not at %d", a, at, got)
				}
				if slices.First(a) != a[0] || slices.Last(a) != a[n-1] || !reflect.DeepEqual(slices.RemoveHead(a), orig[1:]) {
					Violate("slice-ends", "first or last of %v is wrong", a)
				}
				x, y := append([]int(nil), a...), append([]int(nil), a...)
				slices.RemoveFirst(&x)
				slices.RemoveLast(&y)
				if fmt.Sprint(x) != fmt.Sprint(orig[1:]) || fmt.Sprint(y) != fmt.Sprint(orig[:n-1]) {
					Violate("slice-ends", "%v without its first is %v and without its last %v", orig, x, y)
				}
				slices.Clear(&x)
				if len(x) != 0 || len(slices.RemoveAll(y)) != 0 {
					Violate("slice-clear", "a cleared slice has %d items", len(x))
				}
			}
			t := r.Intn(9)
			at := -1
			for k := n - 1; k >= 0; k-- {
				if a[k] == t {
					at = k
				}
			}
			if got := slices.Search(a, t); got != at {
				Violate("search", "%d is found in %v at %d, want %d", t, a, got, at)
			}
			ss, want := []string{}, []string{}
			for _, v := range a {
				ss = append(ss, fmt.Sprint(v))
				want = append(want, fmt.Sprint(v))
			}
			if at >= 0 {
				want[at] = "new"
			}
			if ok := slices.StringsReplace(ss, fmt.Sprint(t), "new"); ok != (at >= 0) || !reflect.DeepEqual(ss, want) {
				Violate("replace", "replacing %d in %v gives %v, %v", t, a, ss, ok)
			}
			if fmt.Sprint(a) != fmt.Sprint(orig) {
				Violate("slices", "%v became %v", orig, a)
			}
			// sets and maps
			m := map[int]string{}
			for k, v := range a {
				m[v] = fmt.Sprint(k)
			}
			st1 := cset.OfMapKeys(m)
			st2 := cset.OfInteger(a)
			ks := maps.Keys(m)
			sort.Ints(ks)
			ts := cset.To[int](st2)
			sort.Ints(ts)
			if st1.Size() != len(m) || st2.Size() != len(m) || fmt.Sprint(ks) != fmt.Sprint(ts) || len(maps.Values(m)) != len(m) {
				Violate("set", "the set of %v has %d items, its keys are %v", a, st2.Size(), ks)
			}
			if k, ok := maps.OneOf(m); ok != (len(m) > 0) || ok && !st2.Contains(k) {
				Violate("set", "one of %v is %d", a, k)
			}
			_, had := m[t]
			if st2.Contains(t) != had || st2.Remove(t) != had || st2.Contains(t) || st2.Remove(t) {
				Violate("set", "removing %d from %v goes wrong", t, a)
			}
			st2.Add(t)
			if !st2.Contains(t) || cset.OfString(ss).Size() > len(ss) {
				Violate("set", "adding %d to %v goes wrong", t, a)
			}
		})
		Case(fmt.Sprintf("slices of %d", n))
	}
}

// patterns: '*' stands for any text and '?' for any one character.
func patterns() {
	r := Rand(45)
	word := func(alpha string, n int) string {
		rs := []rune(alpha)
		w := make([]rune, r.Intn(n))
		for i := range w {
			w[i] = rs[r.Intn(len(rs))]
		}
		return string(w)
	}
	for i := 0; i < Pick(40000, 800000); i++ {
		p, n := word("aab*?é.", 7), word("aabé.\n", 9)
		if r.Intn(4) == 0 {
			n = p
		}
		re := regexp.MustCompile(`(?s)^` + strings.NewReplacer(`\*`, `.*`, `\?`, `.`).Replace(regexp.QuoteMeta(p)) + `$`)
		want := re.MatchString(n)
		Safe("wildcard", fmt.Sprintf("matching %q with %q", n, p), func() {
			if got := wildcard.Match(p, n); got != want {
				Violate("wildcard", "%q matches %q: %v, want %v", p, n, got, want)
			}
			simple := wildcard.MatchSimple(p, n)
			opt := want // a '?' at the end may stand for nothing
			for q := p; strings.HasSuffix(q, "?") && !opt; {
				q = q[:len(q)-1]
				opt = regexp.MustCompile(`(?s)^` + strings.NewReplacer(`\*`, `.*`, `\?`, `.`).Replace(regexp.QuoteMeta(q)) + `$`).MatchString(n)
			}
			if !strings.Contains(strings.TrimRight(p, "?"), "?") && simple != opt {
				Violate("wildcard", "%q simply matches %q: %v, want %v", p, n, simple, opt)
			}
		})
		Case(fmt.Sprintf("wildcard stars=%d marks=%d %v", strings.Count(p, "*"), strings.Count(p, "?"), want))
	}
}

func texts() {
	r := Rand(46)
	for i := 0; i < Pick(4000, 60000); i++ {
		b := make([]byte, sizes(r))
		r.Read(b)
		s, m := sha256.Sum256(b), md5.Sum(b)
		if crypto.SHA256(b) != hex.EncodeToString(s[:]) || crypto.MD5(b) != hex.EncodeToString(m[:]) || crypto.SHA256IO(&flaky{r: r, data: b, err: io.EOF}) != hex.EncodeToString(s[:]) {
			Violate("digest", "a digest of %d bytes is wrong", len(b))
		}
		if d := crypto.SHA256IO(&flaky{r: r, data: b, err: errBroken}); d != "" {
			Violate("digest", "what could not be read has the digest %q", d)
		}
		Case(fmt.Sprintf("digest of %d pages", len(b)/4096))
		n := r.Intn(60)
		if w := util.RandString(n); len(w) != n || strings.Trim(w, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
			Violate("rand-string", "a random text of %d is %q", n, w)
		}
		name := roundtrip.Text(r)
		if !strings.Contains(name, ".") {
			if e, ok := util.GetFileExt(name, true); ok || e != "" || util.GetFileExtOrDefault(name, false, "def") != "def" {
				Violate("extension", "%q has the extension %q", name, e)
			}
			e1, ok1 := util.GetFileExt("a."+name+".txt", true)
			e2, ok2 := util.GetFileExt(name+".txt", false)
			if !ok1 || !ok2 || e1 != ".txt" || e2 != "txt" {
				Violate("extension", "the extension of %q is %q", name+".txt", e2)
			}
		}
		if util.IfElse(i%2 == 0, "a", "b") != map[bool]string{true: "a", false: "b"}[i%2 == 0] || !util.InstanceOf[string](any("x")) || util.InstanceOf[int](any("x")) || util.InstanceOf[int](nil) {
			Violate("if-else", "IfElse or InstanceOf is wrong")
		}
		type obj struct {
			A string
			B int
		}
		js := fmt.Sprintf(`{"A":"x%d","B":%d}`, i, i)
		body := &closer{Reader: strings.NewReader(js)}
		v, err := util.UnmarshalFromIO[obj](body)
		if err != nil || v.A != fmt.Sprint("x", i) || v.B != i || !body.closed {
			Violate("json-io", "%s is read as %+v, %v, closed %v", js, v, err, body.closed)
		}
		body = &closer{Reader: strings.NewReader(js[:r.Intn(len(js))])}
		if p, err := util.UnmarshalPtrFromIO[obj](body); err == nil || p != nil || !body.closed {
			Violate("json-io", "cut json is read as %+v, closed %v", p, body.closed)
		}
	}
	for _, a := range [][2]string{{"127.0.0.1:80", "127.0.0.1"}, {"http://10.0.0.1:8080/x/y", "10.0.0.1"}, {"[::1]:90", "::1"}, {"host", "host"}, {"https://host/path:1", "host"}, {"host:1", "host"}} {
		if got := util.GetHostFromAddr(a[0]); got != a[1] {
			Violate("host", "the host of %q is %q, want %q", a[0], got, a[1])
		}
		Case("host of " + a[0])
	}
}

type closer struct {
	io.Reader
	closed bool
}

func (c *closer) Close() error { c.closed = true; return nil }
