// C06: when the jitter buffer hands samples out, for every arrival history under a virtual clock.
package main

import (
	"time"

	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/jref"
)

const (
	lat = 60 * time.Millisecond
	eps = 20 * time.Microsecond
)

// compare judges the deliveries against the reference.
func compare(w *jref.World) {
	for k := 0; k < len(w.Got) || k < len(w.R.Out); k++ {
		if k >= len(w.Got) {
			vh.Fail("missing", "%s: sample %v was due at %v and has not been handed out; reference: %v", w.What, w.R.Out[k].Pkts, w.R.Out[k].At, w.R)
		}
		if k >= len(w.R.Out) {
			vh.Fail("early", "%s: sample with number %d was handed out at %v and is not due yet; reference: %v", w.What, w.Got[k].Pkts[0].SequenceNumber-w.S.Base, w.Got[k].At, w.R)
		}
		g, o := w.Got[k], w.R.Out[k]
		if len(g.Pkts) != len(o.Pkts) || w.S.Index(g.Pkts[0].SequenceNumber) != o.Pkts[0] {
			vh.Fail("other", "%s: delivery %d is the sample starting at packet %d, due is %v", w.What, k, w.S.Index(g.Pkts[0].SequenceNumber), o.Pkts)
		}
		if g.At < o.At-eps || g.At > o.At+eps {
			vh.Fail("when", "%s: sample %v handed out at %v, due at %v", w.What, o.Pkts, g.At, o.At)
		}
	}
	if n := w.B.Size(); n != w.R.Size() {
		vh.Fail("size", "%s: %d packets buffered, should be %d; reference: %v", w.What, n, w.R.Size(), w.R)
	}
}

func main() {
	var sc []vh.Scenario
	add := func(name, layout string, base uint16, audio bool, init, q, t int, mod func(c *jref.Cfg)) {
		s := jref.Make(layout, base, audio)
		name += "-" + s.Name
		if audio {
			name += "-audio"
		}
		sc = append(sc, vh.Scenario{Name: name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: init, Depth: r.Pick(q, t), Delays: []time.Duration{0, 35 * time.Millisecond}}
			if mod != nil {
				mod(&c)
			}
			r.Explore(vh.Opt{Bound: 0, Slop: 1, MaxTime: 30 * time.Hour}, func() {
				c.Run(func(w *jref.World, final bool) {
					compare(w)
					if final {
						if w.B.Size() != 0 {
							vh.Fail("stays", "packets are still buffered long after the latency")
						}
						vh.Note("%d groups", len(w.Got))
					}
				})
			})
		}})
	}
	add("loss", "11111", 10, true, 1, 5, 6, nil)
	add("loss", "2121", 65533, false, 2, 5, 6, nil)
	add("loss", "1221", 65534, false, 1, 5, 6, nil)
	add("loss", "132", 100, false, 1, 5, 7, nil)
	add("loss", "31111", 100, false, 3, 5, 6, nil)
	add("far", "1111", 100, false, 1, 4, 5, func(c *jref.Cfg) { c.Delays = []time.Duration{0, 25 * time.Millisecond, 61 * time.Millisecond} })
	add("pad", "1p1p1", 65532, true, 1, 5, 6, nil)
	add("pad", "1p21", 65534, false, 1, 5, 6, nil)
	add("pad", "1b2", 7, false, 1, 5, 6, nil)
	add("flush", "2121", 65533, false, 2, 4, 6, func(c *jref.Cfg) { c.Flush = true })
	add("flush", "111111", 65533, true, 1, 5, 6, func(c *jref.Cfg) { c.Flush = true; c.Delays = nil })
	add("flush", "2222", 3, false, 2, 5, 6, func(c *jref.Cfg) { c.Flush = true; c.Delays = nil })
	add("latency", "1111", 65533, true, 1, 4, 5, func(c *jref.Cfg) {
		c.Relat = []time.Duration{20 * time.Millisecond, 150 * time.Millisecond}
	})
	add("latency", "221", 65533, false, 2, 4, 5, func(c *jref.Cfg) {
		c.Relat = []time.Duration{20 * time.Millisecond, 150 * time.Millisecond}
	})
	add("stated", "1111", 30000, true, 1, 4, 5, func(c *jref.Cfg) { c.Olds = []time.Duration{0, 31 * time.Millisecond, 90 * time.Millisecond} })
	add("order", "11111111", 65532, true, 1, 7, 7, func(c *jref.Cfg) { c.NoDup = true; c.Delays = nil })
	add("order", "1111111", 65532, true, 1, 5, 6, func(c *jref.Cfg) { c.NoDup = true })
	add("order", "32311", 65531, false, 3, 6, 7, func(c *jref.Cfg) { c.NoDup = true; c.Delays = nil; c.Flush = true })
	add("stated", "121", 30000, false, 1, 4, 5, func(c *jref.Cfg) { c.Olds = []time.Duration{0, 31 * time.Millisecond, 90 * time.Millisecond} })
	// a jump: in order, every split of the time
	for _, jump := range []string{"1J11", "2J212", "1J21J11", "1K21", "1L21", "1M12", "1M1K1", "1K1L1"} {
		for _, base := range []uint16{0, 60000, 30000} {
			s := jref.Make(jump, base, false)
			sc = append(sc, vh.Scenario{Name: "jump-" + s.Name, Run: func(r *vh.R) {
				r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
					w := jref.NewWorld(s, lat)
					vh.Settle()
					for i := range s.Pkts {
						w.Wait([]time.Duration{1013, 35 * time.Millisecond, 70 * time.Millisecond}[vh.Choose(3, "delay")])
						w.Push(i, 0)
						w.Wait(3)
						compare(w)
					}
					w.Wait(time.Second)
					compare(w)
					w.B.Close()
				})
			}})
		}
	}
	// a jump: the first sample after it in any order, losses
	for i, l := range []string{"1J2", "1J3", "1J311", "2J212", "1J41", "1J3J2", "1K21", "1M11"} {
		s := jref.Make(l, []uint16{0, 60000, 30000, 60530, 65532, 27766, 62536, 32768}[i], false)
		sc = append(sc, vh.Scenario{Name: "jump-order-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Flush: true, Delays: []time.Duration{0, 35 * time.Millisecond, 70 * time.Millisecond}}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() { c.RunJump(func(w *jref.World, final bool) { compare(w) }) })
		}})
	}
	// a jump: packets lost shortly before it, one arriving again
	for i, l := range []string{"111J2", "111J111", "12J21", "1111J21", "111K11", "22J2", "111J1J1"} {
		s := jref.Make(l, []uint16{0, 65533, 30000, 60535, 32765, 65535, 27766}[i], false)
		sc = append(sc, vh.Scenario{Name: "jump-held-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: len(s.Samples[0]), Hold: true, Dup: true, Flush: true, Delays: []time.Duration{0, 35 * time.Millisecond, 70 * time.Millisecond}}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() { c.RunJump(func(w *jref.World, final bool) { compare(w) }) })
		}})
	}
	// ... and arriving after it
	for i, l := range []string{"15J1", "1112J2", "1211K11", "1b3J1"} {
		s := jref.Make(l, []uint16{0, 60533, 30000, 65533}[i], false)
		sc = append(sc, vh.Scenario{Name: "jump-late-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: 1, Hold: true, Late: true, Flush: true, Delays: []time.Duration{0, 35 * time.Millisecond}}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() { c.RunJump(func(w *jref.World, final bool) { compare(w) }) })
		}})
	}
	// several packets at a time
	for _, l := range []string{"11111", "1211", "131"} {
		s := jref.Make(l, 65533, false)
		sc = append(sc, vh.Scenario{Name: "batch-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: 1, Dup: r.Thorough(), Delays: []time.Duration{0, 35 * time.Millisecond}, Olds: []time.Duration{0, 31 * time.Millisecond}}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() { c.RunBatch(func(w *jref.World, final bool) { compare(w) }) })
		}})
	}
	// nothing happens for hours
	idle := func(c *jref.Cfg) { c.Delays = []time.Duration{0, 61 * time.Millisecond, 3 * time.Hour} }
	add("idle", "1211", 65533, false, 1, 4, 5, idle)
	add("idle", "11111", 30000, true, 1, 4, 5, idle)
	// many packets
	for i, per := range []int{1, 5, 120} {
		s := jref.Many(480, per, []uint16{65400, 3, 32700}[i])
		sc = append(sc, vh.Scenario{Name: "many-" + s.Name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: per}
			r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() { c.RunMany(func(w *jref.World, final bool) { compare(w) }) })
		}})
	}
	vh.Main(vh.Check{ID: "C06", Level: "model_checking",
		Rule:        "every arrival history of a bounded number of events on the real jitter buffer under virtual time; what is handed out, and when, compared with a reference after every event",
		Assumptions: []string{"streams of up to 8 packets (a few of 480, in some orders only)", "timers fire one nanosecond after their deadline, never exactly on it", "the stream is running: its first sample was pushed in order"},
		Scenarios:   sc})
}
