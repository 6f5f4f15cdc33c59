package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/cluster"
)

// Ctx is what one check run shares: its parameters, its monitors' counters and its verdict.
type Ctx struct {
	Prop, Tier string
	Seed       int64
	Work       string // scratch directory of this run
	Bins       string // server binaries built from the tree under test
	RaceBins   string // the same, built with the race detector (only for the checks that ask for it)
	Verif      string
	Repo       string

	mu       sync.Mutex
	start    time.Time
	evals    int
	distinct map[string]struct{}
	events   map[string]int64
	samples  []string
	viol     []violation
	known    map[string]string // finding key -> text, for this property
	seenKn   map[string]int
	inconcl  []string
	rule     string
	log      []string
	clusters []*cluster.Cluster
}

type violation struct {
	Key  string `json:"key"`
	Text string `json:"text"`
}

func (x *Ctx) Thorough() bool { return x.Tier == "thorough" }

// Pick returns q for the quick tier and t for the thorough one.
func (x *Ctx) Pick(q, t int) int {
	if x.Thorough() {
		return t
	}
	return q
}

// Logf adds a line to the trace that a violation's replay file holds.
func (x *Ctx) Logf(f string, a ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.log) < 20000 {
		x.log = append(x.log, fmt.Sprintf("%8.3f ", time.Since(x.start).Seconds())+fmt.Sprintf(f, a...))
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%8.3f %s\n", time.Since(x.start).Seconds(), fmt.Sprintf(f, a...))
	}
}

// Case counts one evaluated case; sig identifies it among the distinct ones ("" when it is trivial).
func (x *Ctx) Case(sig string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.evals++
	if sig != "" {
		x.distinct[sig] = struct{}{}
		if len(x.samples) < 12 {
			x.samples = append(x.samples, sig)
		}
	}
}

// Event counts something a monitor observed.
func (x *Ctx) Event(kind string, n int64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.events[kind] += n
}

func (x *Ctx) EventCount(kind string) int64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.events[kind]
}

// Violate records a violation. key names the specific thing that failed (it is matched against the known findings).
func (x *Ctx) Violate(key, f string, a ...any) {
	t := fmt.Sprintf(f, a...)
	x.Logf("VIOLATED [%s] %s", key, t)
	x.mu.Lock()
	defer x.mu.Unlock()
	if _, ok := x.known[key]; ok {
		x.seenKn[key]++
		return
	}
	if len(x.viol) < 200 {
		x.viol = append(x.viol, violation{key, t})
	}
}

// Inconclusive records that part of the run could not be judged.
func (x *Ctx) Inconclusive(f string, a ...any) {
	t := fmt.Sprintf(f, a...)
	x.Logf("INCONCLUSIVE %s", t)
	x.mu.Lock()
	x.inconcl = append(x.inconcl, t)
	x.mu.Unlock()
}

func (x *Ctx) Rule(s string) { x.rule = s }

func (x *Ctx) Violated() bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return len(x.viol) > 0
}

// Cluster creates a cluster in a scratch directory of its own; it is closed at the end of the run.
func (x *Ctx) Cluster(name string, race bool) *cluster.Cluster {
	b := x.Bins
	if race {
		b = x.RaceBins
	}
	c, err := cluster.New(filepath.Join(x.Work, name), b)
	if err != nil {
		panic(infra{err})
	}
	c.GoRace = race
	x.mu.Lock()
	x.clusters = append(x.clusters, c)
	x.mu.Unlock()
	return c
}

type infra struct{ err error }

// Start starts every server of the cluster. Servers that do not come up are a violation: nothing the
// property promises is available.
func (x *Ctx) Start(c *cluster.Cluster) bool {
	if err := c.StartAll(90 * time.Second); err != nil {
		x.Violate("start", "servers do not start: %v", err)
		return false
	}
	return true
}

// CheckAlive reports servers that died without being asked to and panics that handlers recovered from.
func (x *Ctx) CheckAlive(c *cluster.Cluster, expectDown ...*cluster.Node) {
	for _, n := range c.Nodes {
		skip := false
		for _, d := range expectDown {
			skip = skip || d == n
		}
		if !skip && !n.Running() {
			x.Violate("died:"+n.Kind, "server %s died by itself:\n%s", n.ID, n.LogTail(60))
		}
	}
}

func loadKnown(path, prop string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 3 || fs[1] != "property="+prop || !strings.HasPrefix(fs[2], "key=") {
			continue
		}
		res[strings.TrimPrefix(fs[2], "key=")] = strings.Join(fs[3:], " ")
	}
	return res
}

func (x *Ctx) finish() int {
	for _, c := range x.clusters {
		c.Close()
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	dir := filepath.Join(x.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	samples := []any{}
	for _, s := range x.samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations": x.evals, "distinct_nontrivial": len(x.distinct), "rule": x.rule,
		"samples": samples, "monitor_events": x.events,
	}
	if len(x.inconcl) > 0 {
		cov["inconclusive"] = x.inconcl
	}
	if len(x.seenKn) > 0 {
		cov["known_findings_seen"] = x.seenKn
	}
	ev := map[string]any{
		"property": x.Prop, "tier": x.Tier, "seed": x.Seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"etcd is replaced by an in-process fake with etcd's revision, prefix, transaction, watch and lease semantics",
			"drives are scratch directories presented as mount points through HOST_PROC",
		},
		"wall_s": time.Since(x.start).Seconds(), "violations": len(x.viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, x.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	keys := make([]string, 0, len(x.seenKn))
	for k := range x.seenKn {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", x.Prop, x.known[k])
	}
	ek := make([]string, 0)
	for k := range x.events {
		ek = append(ek, fmt.Sprintf("%s=%d", k, x.events[k]))
	}
	sort.Strings(ek)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct, %.1f s; observed: %s\n", x.Prop, x.Tier, x.Seed, x.evals,
		len(x.distinct), time.Since(x.start).Seconds(), strings.Join(ek, " "))
	for _, s := range x.inconcl {
		fmt.Printf("inconclusive: %s\n", s)
	}
	if len(x.viol) == 0 {
		return 0
	}
	rp := filepath.Join(dir, x.Prop+".replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s tier %s seed %d\nreplay: VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s\n\n", x.Prop, x.Tier, x.Seed, x.Seed, x.Tier, x.Verif, x.Prop)
	for _, v := range x.viol {
		fmt.Fprintf(&sb, "VIOLATED [%s] %s\n", v.Key, v.Text)
	}
	sb.WriteString("\ntrace:\n" + strings.Join(x.log, "\n") + "\n")
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range x.viol {
		if i >= 8 {
			fmt.Printf("... and %d more\n", len(x.viol)-i)
			break
		}
		t := v.Text
		if len(t) > 1500 {
			t = t[:1500] + "..."
		}
		fmt.Printf("violated [%s]: %s\n", v.Key, t)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", x.Prop, rp)
	return 1
}

func (x *Ctx) run(f func(*Ctx)) {
	defer func() {
		if r := recover(); r != nil {
			if i, ok := r.(infra); ok {
				x.Inconclusive("infrastructure: %v", i.err)
				return
			}
			// a bug of the harness must not look like a verdict
			x.Inconclusive("harness panic: %v\n%s", r, debug.Stack())
			fmt.Fprintf(os.Stderr, "harness panic: %v\n%s", r, debug.Stack())
		}
	}()
	f(x)
}
