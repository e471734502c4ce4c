// selftest checks the checker: small programs with known outcome sets, explored with and without
// the reduction, and small broken programs that must be reported.
package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	vh "github.com/livekit/media-sdk/vh"
	rt "github.com/livekit/media-sdk/vmcrt"
)

type prog struct {
	name string
	body func()
	want string // expected outcomes ("" = only compare) or "!key" for an expected violation
}

func counter(n int) func() {
	return func() {
		var c atomic.Int32
		var js []func()
		for i := 0; i < n; i++ {
			js = append(js, vh.Spawn("inc", func() { v := c.Load(); c.Store(v + 1) }))
		}
		for _, j := range js {
			j()
		}
		vh.Note("%d", c.Load())
	}
}

var progs = []prog{
	{"lost-update-2", counter(2), "1,2"},
	{"lost-update-3", counter(3), "1,2,3"},
	{"mutex-order", func() {
		var mu sync.Mutex
		s := ""
		a := vh.Spawn("a", func() {
			mu.Lock()
			s += "a"
			mu.Unlock()
			mu.Lock()
			s += "A"
			mu.Unlock()
		})
		b := vh.Spawn("b", func() {
			mu.Lock()
			s += "b"
			mu.Unlock()
			mu.Lock()
			s += "B"
			mu.Unlock()
		})
		a()
		b()
		vh.Note("%s", s)
	}, "aAbB,abAB,abBA,baAB,baBA,bBaA"},
	{"deadlock", func() {
		var x, y sync.Mutex
		a := vh.Spawn("a", func() { x.Lock(); y.Lock(); y.Unlock(); x.Unlock() })
		b := vh.Spawn("b", func() { y.Lock(); x.Lock(); x.Unlock(); y.Unlock() })
		a()
		b()
	}, "!deadlock"},
	{"unbuffered", func() {
		c := make(chan int)
		go func() { c <- 1 }()
		go func() { c <- 2 }()
		a := <-c
		b := <-c
		vh.Note("%d%d", a, b)
	}, "12,21"},
	{"select-default", func() {
		c := make(chan int)
		got := make(chan string, 1)
		go func() {
			select {
			case c <- 1:
				got <- "sent"
			default:
				got <- "dropped"
			}
		}()
		go func() { <-c }()
		vh.Note("%s", <-got)
	}, "dropped,sent"},
	{"select-two", func() {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			vh.Note("a%d", v)
		case v, ok := <-b:
			vh.Note("b%d%v", v, ok)
		}
	}, "a1,b2true"},
	{"parked-select-cross", func() {
		a, b := make(chan int), make(chan int)
		res := make(chan string, 3)
		go func() {
			select {
			case <-a:
				res <- "ra"
			case <-b:
				res <- "rb"
			}
		}()
		try := func(c chan int, n string) {
			select {
			case c <- 1:
				res <- n
			default:
				res <- n + "-"
			}
		}
		go func() { try(a, "a") }()
		go func() { try(b, "b") }()
		rt.Settle()
		var o []string
		for len(res) > 0 {
			o = append(o, <-res)
		}
		sort.Strings(o)
		vh.Note("%s", strings.Join(o, ""))
	}, "a-b-,a-brb,ab-ra"},
	{"close-range", func() {
		c := make(chan int, 2)
		go func() {
			for i := 0; i < 3; i++ {
				c <- i
			}
			close(c)
		}()
		s := 0
		n := 0
		for v := range c {
			s += v
			n++
		}
		_, ok := <-c
		vh.Note("%d %d %v", s, n, ok)
	}, "3 3 false"},
	{"send-on-closed", func() {
		c := make(chan int)
		go close(c)
		c <- 1
	}, "!panic"},
	{"timer-vs-msg", func() {
		c := make(chan int)
		go func() { time.Sleep(10 * time.Millisecond); c <- 1 }()
		t := time.NewTimer(10 * time.Millisecond)
		select {
		case <-c:
			vh.Note("msg")
		case <-t.C:
			vh.Note("timer")
			<-c
		}
	}, "msg,timer"},
	{"timer-reset-no-stale", func() {
		t := time.NewTimer(time.Millisecond)
		time.Sleep(5 * time.Millisecond)
		t.Reset(10 * time.Millisecond)
		s := time.Now()
		<-t.C
		vh.Note("%v", time.Since(s))
	}, "10ms"},
	{"ticker", func() {
		t := time.NewTicker(3 * time.Millisecond)
		s := time.Now()
		for i := 0; i < 3; i++ {
			<-t.C
		}
		t.Stop()
		vh.Note("%v", time.Since(s))
	}, "9ms"},
	{"context", func() {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
		go func() { time.Sleep(5 * time.Millisecond); cancel() }()
		<-ctx.Done()
		vh.Note("%v", ctx.Err())
	}, "context canceled,context deadline exceeded"},
	{"rwmutex-recursive", func() {
		var m sync.RWMutex
		go func() { m.Lock(); m.Unlock() }()
		m.RLock()
		m.RLock()
		m.RUnlock()
		m.RUnlock()
	}, "!deadlock"},
	{"once-wg-cond", func() {
		var o sync.Once
		var wg sync.WaitGroup
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		n, ready := 0, false
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.Do(func() { n++ })
				mu.Lock()
				for !ready {
					cond.Wait()
				}
				mu.Unlock()
			}()
		}
		mu.Lock()
		ready = true
		cond.Broadcast()
		mu.Unlock()
		wg.Wait()
		vh.Note("%d", n)
	}, "1"},
	{"lost-wakeup", func() {
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		go func() { cond.Signal() }()
		mu.Lock()
		cond.Wait()
		mu.Unlock()
	}, "!deadlock"},
	{"go-args", func() {
		c := make(chan string, 2)
		f := func(a string, b int) { c <- fmt.Sprint(a, b) }
		x := 1
		go f("x", x)
		x = 2
		go f("x", x)
		a, b := <-c, <-c
		if a > b {
			a, b = b, a
		}
		vh.Note("%s%s", a, b)
	}, "x1x2"},
	{"choose", func() { vh.Note("%d%d", vh.Choose(2, "a"), vh.Choose(3, "b")) }, "00,01,02,10,11,12"},
	{"mpsc", func() {
		c := make(chan int, 1)
		done := make(chan struct{})
		var out []int
		go func() {
			defer close(done)
			for i := 0; i < 4; i++ {
				select {
				case v := <-c:
					out = append(out, v)
				}
			}
		}()
		for p := 0; p < 2; p++ {
			go func() { c <- p * 10; c <- p*10 + 1 }()
		}
		<-done
		vh.Note("%v", out)
	}, "[0 1 10 11],[0 10 1 11],[0 10 11 1],[10 0 1 11],[10 0 11 1],[10 11 0 1]"},
}

func outcomes(st rt.Stats) string {
	var ks []string
	for k := range st.Outcomes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func main() {
	var c vh.Check
	c.ID, c.Level = "selftest", "model_checking"
	for _, p := range progs {
		c.Scenarios = append(c.Scenarios, vh.Scenario{Name: p.name, Run: func(r *vh.R) {
			want := p.want
			if strings.HasPrefix(want, "!") {
				for _, b := range []int{-1, 2} {
					_, v := rt.Explore(rt.Config{Bound: b, MaxTime: time.Minute}, p.body)
					if v == nil || v.Key != want[1:] || !v.Confirmed {
						r.Fail("selftest", "%s bound %d: expected violation %s, got %+v", p.name, b, want, v)
						continue
					}
					if rv := rt.Replay(rt.Config{Bound: -1, MaxTime: time.Minute}, v.Schedule, p.body); rv == nil || rv.Key != v.Key {
						r.Fail("selftest", "%s: replay does not reproduce", p.name)
					}
				}
				r.Trace()
				return
			}
			ws := strings.Split(want, ",")
			sort.Strings(ws)
			want = strings.Join(ws, ",")
			full, v1 := rt.Explore(rt.Config{Bound: -1, NoSleep: true, MaxTime: time.Minute, MaxExecs: 2000000}, p.body)
			red, v2 := rt.Explore(rt.Config{Bound: -1, MaxTime: time.Minute}, p.body)
			pb, v3 := rt.Explore(rt.Config{Bound: 2, MaxTime: time.Minute}, p.body)
			if v1 != nil || v2 != nil || v3 != nil {
				r.Fail("selftest", "%s: unexpected violation %+v %+v %+v", p.name, v1, v2, v3)
				return
			}
			r.Sample("full=%d (exhaustive %v) reduced=%d+%d bounded=%d outcomes=%s", full.Execs, full.Exhaustive, red.Execs, red.Pruned, pb.Execs, outcomes(red))
			if outcomes(full) != want || outcomes(red) != want {
				r.Fail("selftest", "%s: outcomes full=%s reduced=%s want=%s", p.name, outcomes(full), outcomes(red), want)
			}
			if !strings.Contains(p.name, "lost-update-3") && outcomes(pb) != want && p.name != "mpsc" {
				r.Fail("selftest", "%s: outcomes bounded=%s want=%s", p.name, outcomes(pb), want)
			}
			r.Trace()
		}})
	}
	// races
	type rp struct {
		name string
		race bool
		body func()
	}
	for _, p := range []rp{
		{"race-plain", true, func() { x := 0; j := vh.Spawn("w", func() { x++ }); x++; j() }},
		{"race-after-join", false, func() { x := 0; j := vh.Spawn("w", func() { x++ }); j(); x++ }},
		{"race-mutex-ok", false, func() {
			x := 0
			var mu sync.Mutex
			j := vh.Spawn("w", func() { mu.Lock(); x++; mu.Unlock() })
			mu.Lock()
			x++
			mu.Unlock()
			j()
		}},
		{"race-wrong-mutex", true, func() {
			x := 0
			var mu, mu2 sync.Mutex
			j := vh.Spawn("w", func() { mu.Lock(); x++; mu.Unlock() })
			mu2.Lock()
			x++
			mu2.Unlock()
			j()
		}},
		{"race-chan-ok", false, func() {
			x := 0
			c := make(chan int)
			go func() { x = 1; c <- 1 }()
			<-c
			x++
		}},
		{"race-chan-early", true, func() {
			x := 0
			c := make(chan int, 1)
			go func() { c <- 1; x = 1 }()
			<-c
			x++
			rt.Settle()
		}},
		{"race-atomic-ok", false, func() {
			x := 0
			var f atomic.Bool
			j := vh.Spawn("w", func() { x = 1; f.Store(true) })
			if f.Load() {
				x++
			}
			j()
		}},
		{"race-rw", true, func() {
			x := map[int]int{}
			var m sync.RWMutex
			j := vh.Spawn("w", func() { m.RLock(); x[1] = 1; m.RUnlock() })
			m.RLock()
			x[2] = 2
			m.RUnlock()
			j()
		}},
	} {
		c.Scenarios = append(c.Scenarios, vh.Scenario{Name: p.name, RaceOnly: true, Run: func(r *vh.R) {
			_, v := rt.Explore(rt.Config{Bound: 1, MaxTime: time.Minute}, p.body)
			if (v != nil) != p.race {
				r.Fail("selftest", "%s: race expected %v, got %+v", p.name, p.race, v)
			}
			r.Trace()
		}})
	}
	vh.Main(c)
}
