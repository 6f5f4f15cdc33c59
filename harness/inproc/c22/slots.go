package main

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strings"

	"common/hashslot"

	. "verifharness/report"
)

var slotParts = []func(){slotMaps, slotSets, slotTexts}

func init() { parts = append(parts, slotParts...) }

const nSlots = 16384

// bound gives a slot, often one at a seam.
func bound(r *rand.Rand) int {
	switch r.Intn(4) {
	case 0:
		return []int{0, 1, 2, 8191, 8192, 16382, 16383, 16384}[r.Intn(8)]
	case 1:
		return r.Intn(40)
	default:
		return r.Intn(nSlots + 1)
	}
}

// parts of the slots, disjoint
func pieces(r *rand.Rand, n int) [][2]int {
	cut := map[int]bool{}
	for len(cut) < 2*n {
		cut[bound(r)] = true
		cut[r.Intn(nSlots+1)] = true
	}
	var c []int
	for k := range cut {
		c = append(c, k)
	}
	sort.Ints(c)
	var res [][2]int
	for i := 0; i+1 < len(c) && len(res) < n; i++ {
		if r.Intn(3) > 0 {
			res = append(res, [2]int{c[i], c[i+1]})
		}
	}
	return res
}

func slotMaps() {
	r := Rand(31)
	for i := 0; i < Pick(400, 10000); i++ {
		groups := 1 + r.Intn(5)
		ps := pieces(r, 1+r.Intn(12))
		if i%3 == 0 { // a complete assignment
			ps = nil
			at := 0
			for at < nSlots {
				e := at + 1 + r.Intn(6000)
				if e > nSlots || r.Intn(8) == 0 {
					e = nSlots
				}
				ps = append(ps, [2]int{at, e})
				at = e
			}
		}
		own := make([]string, nSlots)
		m := map[string][]string{}
		for _, p := range ps {
			g := fmt.Sprint("g", r.Intn(groups))
			m[g] = append(m[g], fmt.Sprintf("%d-%d", p[0], p[1]))
			for s := p[0]; s < p[1] && s < nSlots; s++ {
				own[s] = g
			}
		}
		if len(ps) == 0 {
			continue
		}
		for g := range m {
			r.Shuffle(len(m[g]), func(a, b int) { m[g][a], m[g][b] = m[g][b], m[g][a] })
		}
		Safe("slots", fmt.Sprintf("slots %v", m), func() {
			pr, err := hashslot.WrapSlots(m)
			if err != nil {
				Violate("slots-refused", "the disjoint slots %v were refused: %v", m, err)
				return
			}
			for k := 0; k < 400; k++ {
				s := r.Intn(nSlots)
				if k < 2*len(ps) {
					p := ps[k/2]
					s = p[k%2] - r.Intn(2)
					if s < 0 || s >= nSlots {
						continue
					}
				}
				g, err := hashslot.GetSlotIdentify(s, pr)
				if own[s] == "" && err == nil || own[s] != "" && (err != nil || g != own[s]) {
					Violate("slot-owner", "with %v slot %d belongs to %q, %v; want %q", m, s, g, err, own[s])
				}
			}
			for _, s := range []int{-1, nSlots, nSlots + 1, 1 << 40} {
				if g, err := hashslot.GetSlotIdentify(s, pr); err == nil {
					Violate("slot-owner", "slot %d belongs to %q", s, g)
				}
			}
			for k := 0; k < 20; k++ {
				name := fmt.Sprint("name", r.Intn(1<<30))
				s := int(crc32.ChecksumIEEE([]byte(name)) % nSlots)
				if got := hashslot.CalcBytesSlot([]byte(name)); got != s {
					Violate("slot-of", "the slot of %q is %d, want %d", name, got, s)
				}
				g, err := hashslot.GetStringIdentify(name, pr)
				if own[s] == "" && err == nil || own[s] != "" && (err != nil || g != own[s]) {
					Violate("slot-owner", "%q belongs to %q, %v; want %q", name, g, err, own[s])
				}
			}
			for g := range m {
				es := hashslot.CopyOfEdges(g, pr)
				for k := 0; k < 60; k++ {
					s := r.Intn(nSlots)
					if got := hashslot.IsSlotInEdges(s, es); got != (own[s] == g) {
						Violate("slot-in", "slot %d in %v of %s: %v", s, es, g, got)
					}
				}
				if len(es) != len(m[g]) {
					Violate("slot-copy", "%d edges of %s are copied, there are %d", len(es), g, len(m[g]))
				}
				if len(es) > 0 { // a copy is one's own
					es[0].Start, es[0].Value = es[0].End, "other"
				}
			}
			if all := hashslot.CopyOfEdges("", pr); len(all) != len(ps) {
				Violate("slot-copy", "%d edges are copied, there are %d, or a copy was shared", len(all), len(ps))
			}
			for k := 0; k < 40; k++ {
				st, ed := bound(r), bound(r)
				if st > ed {
					st, ed = ed, st
				}
				if st == ed {
					continue
				}
				found, fully := hashslot.FindRangeCurrentData(st, ed, pr)
				seen := make([]string, nSlots)
				cover := 0
				for _, e := range found {
					if e.Start >= e.End || e.Start < st || e.End > ed {
						Violate("slot-range", "looking for %d-%d in %v found %v", st, ed, m, found)
						return
					}
					for s := e.Start; s < e.End; s++ {
						if seen[s] != "" {
							Violate("slot-range", "looking for %d-%d in %v found slot %d twice", st, ed, m, s)
						}
						seen[s] = e.Value
						cover++
					}
				}
				want, single := 0, map[string]bool{}
				for s := st; s < ed; s++ {
					if own[s] != "" {
						want++
					}
					single[own[s]] = true
					if own[s] != seen[s] {
						Violate("slot-range", "looking for %d-%d in %v slot %d is found for %q, want %q", st, ed, m, s, seen[s], own[s])
						return
					}
				}
				if fully != (want == ed-st) {
					Violate("slot-range", "looking for %d-%d in %v: complete is %v", st, ed, m, fully)
				}
				g := fmt.Sprint("g", r.Intn(groups))
				valid := hashslot.IsValidEdge(&hashslot.Edge{Start: st, End: ed, Value: g}, pr)
				if valid && (len(single) != 1 || !single[g]) || !valid && len(single) == 1 && single[g] && len(found) == 1 {
					Violate("slot-valid", "%d-%d as a range of %s in %v: valid is %v", st, ed, g, m, valid)
				}
			}
			if again := hashslot.CopyOfEdges("", pr); len(again) != len(ps) {
				Violate("slot-copy", "looking up changed the slots")
			}
		})
		Case(fmt.Sprintf("slot map of %d groups, %d ranges", len(m), len(ps)))
	}
	// overlaps are refused whoever they belong to
	for i := 0; i < Pick(2000, 40000); i++ {
		a, b := bound(r), bound(r)
		c, d := bound(r), bound(r)
		m := map[string][]string{}
		g1, g2 := "x", []string{"x", "y"}[r.Intn(2)]
		m[g1] = append(m[g1], fmt.Sprintf("%d-%d", a, b))
		m[g2] = append(m[g2], fmt.Sprintf("%d-%d", c, d))
		want := a < b && c < d && (b <= c || d <= a)
		Safe("slots", fmt.Sprintf("slots %v", m), func() {
			if _, err := hashslot.WrapSlots(m); (err == nil) != want {
				Violate("slots-overlap", "the slots %v: %v, want accepted %v", m, err, want)
			}
			if g1 == g2 {
				if _, err := hashslot.WrapSlotsToEdges(m[g1], g1); (err == nil) != want {
					Violate("slots-overlap", "the slots %v: %v, want accepted %v", m, err, want)
				}
			}
		})
		Case(fmt.Sprintf("two ranges valid=%v order=%v%v%v%v same=%v", want, a < b, c < d, b <= c, d <= a, g1 == g2))
	}
}

func set(es hashslot.EdgeList) (m [nSlots + 1]bool) {
	for _, e := range es {
		for s := e.Start; s < e.End && s <= nSlots; s++ {
			m[s] = true
		}
	}
	return
}

// slotSets: adding and removing ranges is union and difference.
func slotSets() {
	r := Rand(32)
	list := func() hashslot.EdgeList {
		var txt []string
		for _, p := range pieces(r, r.Intn(7)) {
			txt = append(txt, fmt.Sprintf("%d-%d", p[0], p[1]))
		}
		r.Shuffle(len(txt), func(a, b int) { txt[a], txt[b] = txt[b], txt[a] })
		es, err := hashslot.WrapSlotsToEdges(txt, "g")
		if err != nil {
			Violate("slots-refused", "the disjoint slots %v were refused: %v", txt, err)
		}
		return es
	}
	for i := 0; i < Pick(2500, 60000); i++ {
		a, b := list(), list()
		if i%5 == 0 && len(a) > 0 { // remove what is there
			b = hashslot.EdgeList{{Start: a[0].Start, End: a[0].End, Value: "g"}}
		}
		what := fmt.Sprintf("%v and %v", a.Strings(), b.Strings())
		sa, sb := set(a), set(b)
		Safe("slot-sets", what, func() {
			diff := hashslot.RemoveEdges(copyEdges(a), copyEdges(b))
			sd := set(diff)
			for s := 0; s <= nSlots; s++ {
				if sd[s] != (sa[s] && !sb[s]) {
					Violate("slot-remove", "%v without %v is %v", a.Strings(), b.Strings(), diff.Strings())
					break
				}
			}
			well("slot-remove", what, diff)
			back, err := hashslot.WrapSlotsToEdges(diff.Strings(), "g")
			if err != nil || set(back) != sd {
				Violate("slot-strings", "%v is written %v and read as %v, %v", diff, diff.Strings(), back, err)
			}
			sum := hashslot.CombineEdges(copyEdges(a), copyEdges(b))
			su := set(sum)
			for s := 0; s <= nSlots; s++ {
				if su[s] != (sa[s] || sb[s]) {
					Violate("slot-combine", "%v with %v is %v", a.Strings(), b.Strings(), sum.Strings())
					break
				}
			}
			well("slot-combine", what, sum)
		})
		Case(fmt.Sprintf("slot sets of %d and %d ranges, giving %d", len(a), len(b), len(hashslot.CombineEdges(copyEdges(a), copyEdges(b)))))
	}
}

func copyEdges(a hashslot.EdgeList) hashslot.EdgeList {
	var res hashslot.EdgeList
	for _, e := range a {
		c := *e
		res = append(res, &c)
	}
	return res
}

func well(key, what string, es hashslot.EdgeList) {
	for i, e := range es {
		if e.Start >= e.End || e.Value != "g" || i > 0 && es[i-1].End > e.Start {
			Violate(key, "%s give the malformed %v", what, es)
			return
		}
	}
}

func slotTexts() {
	r := Rand(33)
	for i := 0; i < Pick(20000, 300000); i++ {
		var b strings.Builder
		for k := r.Intn(9); k >= 0; k-- {
			b.WriteByte("0123456789--- +x,"[r.Intn(17)])
		}
		s := b.String()
		var st, ed int
		n, _ := fmt.Sscanf(s+"|", "%d-%d|", &st, &ed)
		plain := n == 2 && s == fmt.Sprintf("%d-%d", st, ed) && st >= 0 && ed >= 0
		Safe("slot-text", fmt.Sprintf("slots %q", s), func() {
			es, err := hashslot.WrapSlotsToEdges([]string{s}, "g")
			if plain && st < ed && (err != nil || len(es) != 1 || es[0].Start != st || es[0].End != ed || es[0].Value != "g") {
				Violate("slot-text", "the slots %q were read as %v, %v", s, es, err)
			}
			if plain && st >= ed && err == nil {
				Violate("slot-text", "the empty slots %q were accepted", s)
			}
			if strings.Count(s, "-") != 1 && err == nil {
				Violate("slot-text", "the malformed slots %q were accepted as %v", s, es)
			}
			if strings.ContainsAny(s, " x,") && err == nil {
				Violate("slot-text", "the malformed slots %q were accepted as %v", s, es)
			}
		})
		Case(fmt.Sprintf("slot text plain=%v dashes=%d", plain, strings.Count(s, "-")))
	}
	if _, err := hashslot.WrapSlots(nil); err == nil {
		Violate("slots-empty", "no slots at all were accepted")
	}
}
