// C05: what the jitter buffer hands out, for every arrival history.
package main

import (
	"fmt"
	"time"

	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/jref"
)

const lat = 60 * time.Millisecond

// monitor judges each delivered group on its own and the order of groups.
func monitor(w *jref.World, from int) {
	last := -1
	seen := map[int]bool{}
	for k, g := range w.Got {
		if len(g.Pkts) == 0 {
			vh.Fail("empty", "an empty group was handed out")
		}
		var ixs []int
		for _, p := range g.Pkts {
			i := w.S.Index(p.SequenceNumber)
			if i < 0 || len(w.Arr[i]) == 0 {
				vh.Fail("invented", "delivered number %d was never pushed", p.SequenceNumber-w.S.Base)
			}
			ixs = append(ixs, i)
			if k >= from {
				if d := w.S.Same(i, p.Packet); d != "" {
					vh.Fail("altered", "packet %d: %s", i, d)
				}
				ok := false
				at := p.ReceivedAt.Sub(vh.Now()) + vh.Since0()
				for _, a := range w.Arr[i] {
					ok = ok || a == at
				}
				if !ok {
					vh.Fail("arrival", "packet %d delivered with arrival %v, pushed with %v", i, at, w.Arr[i])
				}
			}
			if seen[i] {
				vh.Fail("twice", "packet %d handed out twice (%s)", i, w.What)
			}
			seen[i] = true
		}
		sm := w.S.Pkts[ixs[0]].Sample
		if sm < 0 || fmt.Sprint(w.S.Samples[sm]) != fmt.Sprint(idxs(w.S, ixs)) {
			vh.Fail("not-a-sample", "handed out packets %v, not a whole sample (%s)", ixs, w.What)
		}
		if w.S.Pkts[ixs[0]].Idx <= last {
			vh.Fail("order", "sample starting at %d handed out after %d (%s)", w.S.Pkts[ixs[0]].Idx, last, w.What)
		}
		last = w.S.Pkts[ixs[len(ixs)-1]].Idx
	}
	w.Kept()
}

func idxs(s *jref.Stream, ix []int) (out []int) {
	for _, i := range ix {
		out = append(out, s.Pkts[i].Idx)
	}
	return
}

func main() {
	var sc []vh.Scenario
	add := func(layout string, base uint16, audio bool, init, q, t int, mod func(c *jref.Cfg)) {
		s := jref.Make(layout, base, audio)
		name := s.Name
		if audio {
			name += "-audio"
		}
		if init == 0 {
			name += "-fresh"
		}
		sc = append(sc, vh.Scenario{Name: name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: init, Depth: r.Pick(q, t), Delays: []time.Duration{0, 65 * time.Millisecond}}
			if mod != nil {
				mod(&c)
			}
			r.Explore(vh.Opt{Bound: 0, Slop: 1, MaxTime: 30 * time.Hour}, func() {
				seen := 0
				c.Run(func(w *jref.World, final bool) {
					monitor(w, seen)
					seen = len(w.Got)
					if final {
						vh.Note("%d groups", len(w.Got))
					}
				})
			})
		}})
	}
	add("11111", 10, false, 0, 5, 6, nil)
	add("11111", 65534, true, 1, 5, 6, nil)
	add("2121", 65533, false, 2, 5, 6, nil)
	add("1231", 65530, false, 1, 5, 6, nil)
	add("2222", 65532, false, 0, 5, 6, func(c *jref.Cfg) { c.Delays = nil; c.Depth++; c.Flush = true })
	add("1p2p1", 65532, true, 1, 5, 6, nil)
	add("1p21", 65534, false, 1, 5, 6, nil)
	add("b2c", 100, false, 3, 4, 6, nil)
	for _, l := range []string{"1J212", "1J12J2", "2J1J1", "1K212", "2L21", "1M21", "1M1K1", "1L1M2"} {
		for _, base := range []uint16{0, 60000, 30000} {
			s := jref.Make(l, base, false)
			sc = append(sc, vh.Scenario{Name: "jump-" + s.Name, Run: func(r *vh.R) {
				r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
					w := jref.NewWorld(s, lat)
					vh.Settle()
					seen := 0
					for i := range s.Pkts {
						w.Wait([]time.Duration{1013, 70 * time.Millisecond}[vh.Choose(2, "delay")])
						for k := vh.Choose(3, "times"); k > 0; k-- {
							w.Push(i, 0)
							vh.Settle()
						}
						monitor(w, seen)
						seen = len(w.Got)
					}
					w.Wait(time.Second)
					monitor(w, seen)
					w.B.Close()
				})
			}})
		}
	}
	add("212", 32766, false, 2, 5, 7, func(c *jref.Cfg) { c.Flush = true; c.Relat = []time.Duration{7 * time.Millisecond} })
	add("111111", 65533, false, 1, 6, 8, func(c *jref.Cfg) { c.Delays = nil })
	add("111112", 0, true, 0, 6, 7, func(c *jref.Cfg) { c.Delays = nil; c.Flush = true })
	add("32311", 65531, false, 3, 6, 7, func(c *jref.Cfg) { c.Delays = nil; c.NoDup = true })
	add("1111111", 65532, true, 0, 7, 8, func(c *jref.Cfg) { c.Delays = nil; c.NoDup = true })
	add("1111", 30000, true, 1, 4, 5, func(c *jref.Cfg) { c.Olds = []time.Duration{0, 31 * time.Millisecond, 90 * time.Millisecond} })
	// packets lost shortly before a jump, one arriving again; several packets at a time
	for i, l := range []string{"111J2", "111J111", "12J21", "111K11", "11111", "1211"} {
		s := jref.Make(l, []uint16{0, 65533, 30000, 32765, 65533, 65534}[i], false)
		name := "jump-held-"
		if i > 3 {
			name = "batch-"
		}
		sc = append(sc, vh.Scenario{Name: name + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: 1, Hold: true, Dup: i < 4 || r.Thorough(), Flush: true, Delays: []time.Duration{0, 65 * time.Millisecond}, Olds: []time.Duration{0, 31 * time.Millisecond}}
			run := c.RunJump
			if i > 3 {
				run = c.RunBatch
			}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
				seen := 0
				run(func(w *jref.World, final bool) {
					monitor(w, seen)
					seen = len(w.Got)
				})
			})
		}})
	}
	// packets missing before a jump, arriving after it
	for i, l := range []string{"15J1", "1112J2", "1211K11", "1b3J1"} {
		s := jref.Make(l, []uint16{0, 60533, 30000, 65533}[i], false)
		sc = append(sc, vh.Scenario{Name: "jump-late-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: 1, Hold: true, Late: true, Flush: true, Delays: []time.Duration{0, 65 * time.Millisecond}}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
				seen := 0
				c.RunJump(func(w *jref.World, final bool) {
					monitor(w, seen)
					seen = len(w.Got)
				})
			})
		}})
	}
	// nothing happens for hours
	idle := func(c *jref.Cfg) { c.Delays = []time.Duration{0, 61 * time.Millisecond, 3 * time.Hour} }
	add("1211", 65533, false, 1, 4, 5, idle)
	add("11111", 30000, true, 1, 4, 5, idle)
	// many packets
	for i, per := range []int{1, 5, 120} {
		s := jref.Many(480, per, []uint16{65400, 3, 32700}[i])
		sc = append(sc, vh.Scenario{Name: "many-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: per}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
				seen := 0
				c.RunMany(func(w *jref.World, final bool) {
					monitor(w, seen)
					seen = len(w.Got)
				})
			})
		}})
	}
	vh.Main(vh.Check{ID: "C05", Level: "model_checking",
		Rule:        "every arrival history (order, loss, duplication, delay) of a bounded number of events on the real jitter buffer under virtual time; each group handed out compared with the stream's samples",
		Assumptions: []string{"streams of up to 9 packets (a few of 480, in some orders only); each event is preceded by one of two delays"},
		Scenarios:   sc})
}
