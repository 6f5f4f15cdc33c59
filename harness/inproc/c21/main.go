// Command c21 drives the tree's groups of concurrent tasks and shared containers under random schedules.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"common/collection/set"
	"common/graceful"
	"common/util"

	. "verifharness/report"
)

const hang = 20 * time.Second

// kinds of tasks
const (
	ok = iota
	fails
	panics
	slow
	slowFails
	slowPanics
	failsTwice
	kinds
)

var names = [...]string{"ok", "fails", "panics", "slow", "slow-fails", "slow-panics", "fails-twice"}

func bad(k int) bool { return k != ok && k != slow }

type task struct {
	kind  int
	delay time.Duration
}

func plan(r *rand.Rand, n int) (ts []task, nbad int, sig string) {
	pBad := []float64{0, 0, 0.1, 0.5, 1}[r.Intn(5)]
	cnt := [kinds]int{}
	for i := 0; i < n; i++ {
		k := ok
		if r.Float64() < pBad {
			k = []int{fails, panics, slowFails, slowPanics, failsTwice}[r.Intn(5)]
		} else if r.Intn(3) == 0 {
			k = slow
		}
		t := task{kind: k}
		if k == slow || k == slowFails || k == slowPanics {
			t.delay = time.Duration(r.Intn(3000)) * time.Microsecond
		}
		if bad(k) {
			nbad++
		}
		cnt[k]++
		ts = append(ts, t)
	}
	for k, c := range cnt {
		if c > 0 {
			sig += fmt.Sprintf(" %s:%d", names[k], c)
		}
	}
	return
}

// jitter gives way a random number of times.
func jitter(r int) {
	for i := 0; i < r%4; i++ {
		runtime.Gosched()
	}
}

type tracker struct {
	started, ended, running, peak atomic.Int64
	mu                            sync.Mutex
	order                         []int
}

func (t *tracker) in() {
	t.started.Add(1)
	n := t.running.Add(1)
	for {
		p := t.peak.Load()
		if n <= p || t.peak.CompareAndSwap(p, n) {
			return
		}
	}
}

func (t *tracker) out(i int) {
	t.running.Add(-1)
	t.mu.Lock()
	t.order = append(t.order, i)
	t.mu.Unlock()
	t.ended.Add(1)
}

// orderSig tells apart the orders in which tasks ended.
func (t *tracker) orderSig() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	h := uint32(2166136261)
	for _, i := range t.order {
		h = (h ^ uint32(i)) * 16777619
	}
	return fmt.Sprintf("%d/%x", len(t.order), h)
}

func (tk task) body(dg util.DoneGroup, i int, many bool) {
	jitter(i)
	if tk.delay > 0 {
		time.Sleep(tk.delay)
	}
	switch tk.kind {
	case fails, slowFails:
		if many {
			dg.Errors(fmt.Errorf("task %d", i))
		} else {
			dg.Error(fmt.Errorf("task %d", i))
		}
	case failsTwice:
		dg.Error(fmt.Errorf("task %d", i))
		dg.Error(fmt.Errorf("task %d again", i))
	case panics, slowPanics:
		panic(fmt.Sprintf("task %d panics", i))
	}
}

// untilError: tasks started one by one, the usual way of the servers: WaitUntilError, then everything is given back.
func untilError(r *rand.Rand, limit int) {
	n := r.Intn(40)
	if r.Intn(10) == 0 {
		n = 200 + r.Intn(300)
	}
	ts, nbad, sig := plan(r, n)
	sig = fmt.Sprintf("until limit=%d n=%d%s", limit, n, sig)
	how := r.Intn(3) // how tasks are announced
	closes := r.Intn(4)
	late := r.Intn(2) == 0
	tr := &tracker{}
	Within(hang, "wait", sig, func() {
		var dg util.DoneGroup = util.NewDoneGroup()
		if limit > 0 {
			dg = util.LimitDoneGroup(limit)
		}
		if how == 1 && limit == 0 {
			dg.Add(n)
		}
		start := func() {
			for i := range ts {
				if how != 1 || limit > 0 {
					dg.Todo()
				}
				go func(i int) {
					defer dg.Done()
					tr.in()
					defer tr.out(i)
					ts[i].body(dg, i, false)
				}(i)
			}
		}
		start()
		if late {
			time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
		}
		err := dg.WaitUntilError()
		ended := tr.ended.Load()
		if err == nil && nbad > 0 {
			Violate("error-lost", "%s: %d tasks failed but WaitUntilError returned nil", sig, nbad)
		}
		if err != nil && nbad == 0 {
			Violate("error-invented", "%s: no task failed but WaitUntilError returned %v", sig, err)
		}
		if err == nil && ended != int64(n) {
			Violate("early", "%s: WaitUntilError returned nil when only %d of %d tasks had ended", sig, ended, n)
		}
		<-dg.WaitDone()
		dg.Wait()
		if e := tr.ended.Load(); e != int64(n) {
			Violate("early", "%s: Wait returned when only %d of %d tasks had ended", sig, e, n)
		}
		if limit > 0 && tr.peak.Load() > int64(limit) {
			Violate("limit", "%s: %d tasks ran at once", sig, tr.peak.Load())
		}
		for i := 0; i < closes; i++ {
			dg.Close()
		}
		dg.Error(errors.New("after close")) // must neither block nor crash
		Event("tasks", int64(n))
		Event("tasks that failed", int64(nbad))
		if err != nil && ended < int64(n) {
			Event("errors returned while tasks were running", 1)
		}
		Case("end order " + tr.orderSig())
	})
	Case(sig)
}

// collected: a consumer receives every error delivered with Errors until the group is closed.
func collected(r *rand.Rand, limit int) {
	n := 1 + r.Intn(60)
	ts, _, sig := plan(r, n)
	want := 0
	for i := range ts {
		switch ts[i].kind { // with Errors in use, Error and panics (which close the channel) are not allowed
		case panics, slowPanics, failsTwice:
			ts[i].kind = fails
		}
		if bad(ts[i].kind) {
			want++
		}
	}
	sig = fmt.Sprintf("collected limit=%d n=%d bad=%d%s", limit, n, want, sig)
	tr := &tracker{}
	Within(hang, "errors", sig, func() {
		var dg util.DoneGroup = util.NewDoneGroup()
		if limit > 0 {
			dg = util.LimitDoneGroup(limit)
		}
		got := make(chan map[string]int)
		go func() {
			m := map[string]int{}
			for e := range dg.WaitError() {
				if r := len(m); r%3 == 0 {
					runtime.Gosched()
				}
				m[e.Error()]++
			}
			got <- m
		}()
		for i := range ts {
			dg.Todo()
			go func(i int) {
				defer dg.Done()
				tr.in()
				defer tr.out(i)
				ts[i].body(dg, i, true)
			}(i)
		}
		dg.Wait()
		if e := tr.ended.Load(); e != int64(n) {
			Violate("early", "%s: Wait returned when only %d of %d tasks had ended", sig, e, n)
		}
		dg.Close()
		m := <-got
		for i := range ts {
			c := m[fmt.Sprintf("task %d", i)]
			if bad(ts[i].kind) && c != 1 {
				Violate("errors-lost", "%s: the error of task %d was received %d times", sig, i, c)
			} else if !bad(ts[i].kind) && c != 0 {
				Violate("errors-invented", "%s: task %d did not fail but its error was received", sig, i)
			}
		}
		if len(m) != want {
			Violate("errors-invented", "%s: %d different errors received, want %d", sig, len(m), want)
		}
		if limit > 0 && tr.peak.Load() > int64(limit) {
			Violate("limit", "%s: %d tasks ran at once", sig, tr.peak.Load())
		}
		dg.Errors(errors.New("after close"))
		dg.Close()
		Event("errors collected", int64(len(m)))
	})
	Case(sig)
}

// waits: the plain group; several goroutines wait, tasks may panic, and tasks may start others.
func waits(r *rand.Rand) {
	n := r.Intn(50)
	ts, _, sig := plan(r, n)
	waiters := 1 + r.Intn(4)
	children := r.Intn(3)
	sig = fmt.Sprintf("waits n=%d waiters=%d children=%d%s", n, waiters, children, sig)
	tr := &tracker{}
	total := int64(n * (1 + children))
	Within(hang, "waitgroup", sig, func() {
		wg := util.NewWaitGroup()
		for i := range ts {
			wg.Todo()
			go func(i int) {
				defer wg.Done()
				tr.in()
				defer tr.out(i)
				for c := 0; c < children; c++ {
					wg.Todo()
					go func(c int) {
						defer wg.Done()
						tr.in()
						defer tr.out(1000 + c)
						jitter(i + c)
					}(c)
				}
				if ts[i].delay > 0 {
					time.Sleep(ts[i].delay)
				}
				if k := ts[i].kind; k == panics || k == slowPanics {
					panic("task panics")
				}
			}(i)
		}
		var done sync.WaitGroup
		for w := 0; w < waiters; w++ {
			done.Add(1)
			go func(w int) {
				defer done.Done()
				if w%2 == 0 {
					wg.Wait()
				} else {
					<-wg.WaitDone()
				}
				if e := tr.ended.Load(); e != total {
					Violate("early", "%s: a waiter returned when only %d of %d tasks had ended", sig, e, total)
				}
			}(w)
		}
		done.Wait()
		Event("tasks", total)
	})
	Case(sig)
}

// closing: Close and Error from many goroutines at once, before, while and after tasks run; whoever waits must return.
func closing(r *rand.Rand, limit int) {
	n := r.Intn(20)
	closers, failers := r.Intn(6), r.Intn(6)
	sig := fmt.Sprintf("closing limit=%d n=%d closers=%d failers=%d", limit, n, closers, failers)
	var ended atomic.Int64
	Within(hang, "close", sig, func() {
		var dg util.DoneGroup = util.NewDoneGroup()
		if limit > 0 {
			dg = util.LimitDoneGroup(limit)
		}
		var all sync.WaitGroup
		boom := func(f func()) {
			all.Add(1)
			go func() {
				defer all.Done()
				defer func() {
					if e := recover(); e != nil {
						Violate("close-panic", "%s: panicked: %v", sig, e)
					}
				}()
				f()
			}()
		}
		for i := 0; i < closers; i++ {
			i := i
			boom(func() { jitter(i); dg.Close() })
		}
		for i := 0; i < failers; i++ {
			i := i
			boom(func() { jitter(i); dg.Error(errors.New("failed")) })
		}
		boom(func() {
			for i := 0; i < n; i++ {
				i := i
				dg.Todo()
				boom(func() {
					defer dg.Done()
					jitter(i)
					ended.Add(1)
				})
			}
			dg.Wait()
			if ended.Load() != int64(n) {
				Violate("early", "%s: Wait returned when only %d of %d tasks had ended", sig, ended.Load(), n)
			}
		})
		all.Wait()
		err := dg.WaitUntilError()
		if closers == 0 && failers > 0 && err == nil {
			Violate("error-lost", "%s: an error was delivered but not returned", sig)
		}
		if failers == 0 && err != nil {
			Violate("error-invented", "%s: returned %v", sig, err)
		}
		dg.Close()
		for range dg.WaitError() { // closed, so this ends
		}
	})
	Case(sig)
}

// reuse: a group that ended is used again.
func reuse(r *rand.Rand, limit int) {
	rounds := 2 + r.Intn(4)
	sig := fmt.Sprintf("reuse limit=%d rounds=%d", limit, rounds)
	Within(hang, "reuse", sig, func() {
		var dg util.DoneGroup = util.NewDoneGroup()
		if limit > 0 {
			dg = util.LimitDoneGroup(limit)
		}
		for k := 0; k < rounds; k++ {
			var ended atomic.Int64
			n := r.Intn(12)
			for i := 0; i < n; i++ {
				dg.Todo()
				go func(i int) {
					defer dg.Done()
					jitter(i)
					ended.Add(1)
				}(i)
			}
			failLast := k == rounds-1 && r.Intn(2) == 0
			if failLast {
				dg.Todo()
				go func() {
					defer dg.Done()
					dg.Error(errors.New("last"))
				}()
			}
			if err := dg.WaitUntilError(); (err != nil) != failLast {
				Violate("reuse", "%s: round %d returned %v", sig, k, err)
			} else if err == nil && ended.Load() != int64(n) {
				Violate("early", "%s: returned when %d of %d tasks had ended", sig, ended.Load(), n)
			}
		}
	})
	Case(sig)
}

// limits: exactly as many tasks as allowed may be under way, the next one waits and goes on when one ends.
func limits(r *rand.Rand) {
	max := 1 + r.Intn(8)
	sig := fmt.Sprintf("limits max=%d", max)
	Within(hang, "limit", sig, func() {
		dg := util.LimitDoneGroup(max)
		stop := make(chan struct{})
		for i := 0; i < max; i++ {
			dg.Todo() // must not block
			go func() {
				defer dg.Done()
				<-stop
			}()
		}
		entered := make(chan struct{})
		go func() {
			dg.Todo()
			close(entered)
			dg.Done()
		}()
		select {
		case <-entered:
			Violate("limit", "%s: one more than allowed was let in", sig)
		case <-time.After(3 * time.Millisecond):
		}
		stop <- struct{}{}
		<-entered
		close(stop)
		dg.Wait()
		if r.Intn(2) == 0 { // a panicking task gives its place back as well
			for i := 0; i < 3*max; i++ {
				dg.Todo()
				go func() {
					defer dg.Done()
					panic("task panics")
				}()
			}
			if err := dg.WaitUntilError(); err == nil {
				Violate("error-lost", "%s: tasks panicked but no error was returned", sig)
			}
			dg.Wait()
		}
	})
	Case(sig)
}

// recovers: graceful.Recover keeps a panic from ending the process and hands its message on.
func recovers(r *rand.Rand) {
	msg := fmt.Sprint("boom ", r.Intn(1000))
	var vals = []any{msg, errors.New(msg), 42, []int{1}, nil}
	v := vals[r.Intn(4)]
	got := make(chan string, 1)
	go func() {
		defer graceful.Recover(func(m string) { got <- m })
		panic(v)
	}()
	select {
	case m := <-got:
		if m != fmt.Sprint(v) {
			Violate("recover", "recovered message %q, want %q", m, fmt.Sprint(v))
		}
	case <-time.After(hang):
		Violate("recover", "a panic with %v was not handed on", v)
	}
	called := false
	func() { defer graceful.Recover(func(string) { called = true }) }()
	if called {
		Violate("recover", "handler called without a panic")
	}
	Case(fmt.Sprintf("recover %T", v))
}

// maps: the synchronised map as a map of last writers: what one goroutine wrote to a key of its own it reads back.
func maps(r *rand.Rand) {
	workers := 2 + r.Intn(6)
	m := util.NewSyncMap[string, int]()
	Within(hang, "syncmap", "syncmap", func() {
		var wg sync.WaitGroup
		final := make([]map[string]*int, workers)
		for w := 0; w < workers; w++ {
			final[w] = map[string]*int{}
			wg.Add(1)
			go func(w int, rr *rand.Rand) {
				defer wg.Done()
				mine := final[w]
				for i := 0; i < 200; i++ {
					k := fmt.Sprintf("%d/%d", w, rr.Intn(8))
					switch rr.Intn(5) {
					case 0, 1:
						v := i
						m.Put(k, &v)
						mine[k] = &v
					case 2:
						v, okk := m.Remove(k)
						if want, had := mine[k]; okk != had || (had && v != want) {
							Violate("syncmap", "Remove(%s) = %v, %v", k, v, okk)
						}
						delete(mine, k)
					case 3:
						v, okk := m.Get(k)
						if want, had := mine[k]; okk != had || (had && v != want) {
							Violate("syncmap", "Get(%s) = %v, %v", k, v, okk)
						}
						if _, had := mine[k]; m.Contains(k) != had {
							Violate("syncmap", "Contains(%s) = %v", k, !had)
						}
					case 4:
						n := 0
						m.ForEach(func(kk string, v *int) {
							if len(kk) > 2 && kk[:2] == fmt.Sprintf("%d/", w) {
								n++
								if mine[kk] != v {
									Violate("syncmap", "ForEach shows another value for %s", kk)
								}
							}
						})
						if n != len(mine) {
							Violate("syncmap", "ForEach shows %d own keys of %d", n, len(mine))
						}
					}
				}
			}(w, rand.New(rand.NewSource(r.Int63())))
		}
		wg.Wait()
		n, want := 0, 0
		m.ForEach(func(string, *int) { n++ })
		for _, f := range final {
			want += len(f)
		}
		if n != want {
			Violate("syncmap", "%d keys remain, want %d", n, want)
		}
		// the set that synchronises writes
		ws := set.NewWriteSyncSet()
		var removed atomic.Int64
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					ws.Add(i)
				}
			}(w)
		}
		wg.Wait()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 30; i++ {
					if ws.Remove(i) {
						removed.Add(1)
					}
				}
			}()
		}
		wg.Wait()
		if ws.Size() != 30 || removed.Load() != 30 {
			Violate("syncset", "%d remain and %d removed, want 30 and 30", ws.Size(), removed.Load())
		}
	})
	Case(fmt.Sprintf("containers workers=%d", workers))
}

// ticks: an immediate tick comes at once and then at each interval.
func ticks() {
	Within(hang, "tick", "ImmediateTick", func() {
		t0 := time.Now()
		ch := util.ImmediateTick(60 * time.Millisecond)
		<-ch
		if d := time.Since(t0); d > 5*time.Second {
			Violate("tick", "the first tick came after %v", d)
		}
		t1 := time.Now()
		<-ch
		<-ch
		if d := time.Since(t1); d < 60*time.Millisecond {
			Violate("tick", "two intervals of 60ms passed in %v", d)
		}
	})
	Case("ticks")
}

func main() {
	end := time.Now().Add(time.Duration(Pick(25, 300)) * time.Second)
	r := Rand(21)
	ticks()
	workers := 6
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for i := 0; time.Now().Before(end) && i < Pick(700, 20000); i++ {
				limit := 0
				if i%2 == 1 {
					limit = 1 + r.Intn(9)
				}
				untilError(r, limit)
				switch i % 7 {
				case 0, 1:
					collected(r, limit)
				case 2:
					waits(r)
				case 3, 4:
					closing(r, limit)
				case 5:
					reuse(r, limit)
				case 6:
					limits(r)
					recovers(r)
				}
				if i%20 == 0 {
					maps(r)
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	Done()
}
