// C07: the jitter buffer's statistics and loss handler, for every arrival history.
package main

import (
	"time"

	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/jref"
)

const lat = 60 * time.Millisecond

type last struct{ lost, dropped uint64 }

func main() {
	var sc []vh.Scenario
	add := func(name, layout string, base uint16, audio bool, init, q, t int, mod func(c *jref.Cfg)) {
		s := jref.Make(layout, base, audio)
		if name == "many" {
			s = jref.Many(480, init, base)
		}
		name += "-" + s.Name
		if audio {
			name += "-audio"
		}
		sc = append(sc, vh.Scenario{Name: name, Run: func(r *vh.R) {
			c := jref.Cfg{S: s, Lat: lat, Init: init, Depth: r.Pick(q, t), Delays: []time.Duration{0, 35 * time.Millisecond}}
			if mod != nil {
				mod(&c)
			}
			r.Explore(vh.Opt{Bound: 0, Slop: 1, MaxTime: 30 * time.Hour}, func() {
				var was last
				calls := 0
				run := c.Run
				if name[0] == 'j' {
					run = c.RunJump
				} else if name[0] == 'b' {
					run = c.RunBatch
				} else if name[0] == 'm' {
					run = c.RunMany
				}
				run(func(w *jref.World, final bool) {
					st := w.B.Stats()
					size := uint64(w.B.Size())
					if st.PacketsPushed != uint64(w.R.Pushed) || st.PaddingPushed != uint64(w.R.Padding) {
						vh.Fail("pushed", "%s: counted %d pushed, %d padding; pushed were %d and %d", w.What, st.PacketsPushed, st.PaddingPushed, w.R.Pushed, w.R.Padding)
					}
					if st.PacketsPushed != st.PacketsPopped+st.PacketsDropped+size+uint64(w.R.Ignored) {
						vh.Fail("account", "%s: %d pushed, but %d delivered + %d dropped + %d buffered + %d ignored padding", w.What, st.PacketsPushed, st.PacketsPopped, st.PacketsDropped, size, w.R.Ignored)
					}
					var n uint64
					for _, g := range w.Got {
						n += uint64(len(g.Pkts))
					}
					if n > st.PacketsPopped || n+st.PaddingPushed < st.PacketsPopped {
						vh.Fail("popped", "%s: %d packets were handed out, %d counted (%d padding)", w.What, n, st.PacketsPopped, st.PaddingPushed)
					}
					if st.PacketsLost != uint64(w.R.Lost) {
						vh.Fail("lost", "%s: lost counter is %d, numbers skipped: %d; reference: %v", w.What, st.PacketsLost, w.R.Lost, w.R)
					}
					if st.PacketsDropped != uint64(w.R.Dropped) || st.PacketsPopped != uint64(w.R.Popped) {
						vh.Fail("dropped", "%s: %d dropped, %d popped; should be %d and %d", w.What, st.PacketsDropped, st.PacketsPopped, w.R.Dropped, w.R.Popped)
					}
					now := last{st.PacketsLost, st.PacketsDropped}
					prev := was
					for ; calls < len(w.Losses); calls++ {
						l := w.Losses[calls]
						if l[0] < prev.lost || l[1] < prev.dropped || l[0] > now.lost || l[1] > now.dropped {
							vh.Fail("handler-totals", "%s: loss handler called with %v, totals went from %v to %v", w.What, l, was, now)
						}
						prev = last{l[0], l[1]}
					}
					if prev != now {
						vh.Fail("handler", "%s: totals went from %v to %v, the loss handler was last told %v", w.What, was, now, prev)
					}
					was = now
					if final {
						vh.Note("%d lost %d dropped", now.lost, now.dropped)
					}
				})
			})
		}})
	}
	add("loss", "11111", 10, true, 1, 5, 6, nil)
	add("loss", "2121", 65533, false, 2, 5, 6, nil)
	add("loss", "1221", 65534, false, 1, 5, 6, nil)
	add("loss", "132", 100, false, 1, 5, 7, nil)
	add("loss", "31111", 100, false, 3, 5, 6, nil)
	add("pad", "1p1p1", 65532, true, 1, 5, 6, nil)
	add("pad", "1p21", 65534, false, 1, 5, 6, nil)
	add("pad", "1b2", 7, false, 1, 5, 6, nil)
	add("flush", "2121", 65533, false, 2, 4, 6, func(c *jref.Cfg) { c.Flush = true })
	add("flush", "1111111", 65533, true, 1, 5, 6, func(c *jref.Cfg) { c.Flush = true; c.Delays = nil })
	add("flush", "2222", 3, false, 2, 5, 7, func(c *jref.Cfg) { c.Flush = true; c.Delays = nil })
	add("latency", "1211", 65533, false, 1, 4, 5, func(c *jref.Cfg) {
		c.Relat = []time.Duration{20 * time.Millisecond, 150 * time.Millisecond}
	})
	add("order", "11111111", 65532, true, 1, 7, 7, func(c *jref.Cfg) { c.NoDup = true; c.Delays = nil })
	add("order", "1111111", 65532, true, 1, 5, 6, func(c *jref.Cfg) { c.NoDup = true })
	add("order", "32311", 65531, false, 3, 6, 7, func(c *jref.Cfg) { c.NoDup = true; c.Delays = nil; c.Flush = true })
	add("stated", "121", 30000, false, 1, 4, 5, func(c *jref.Cfg) { c.Olds = []time.Duration{0, 31 * time.Millisecond, 90 * time.Millisecond} })
	// a jump: the first sample after it in any order, losses
	for i, l := range []string{"1J2", "1J3", "1J311", "2J212", "1J41", "1J3J2", "1K21", "1M11", "1K1L2"} {
		add("jump", l, []uint16{0, 60000, 30000, 60530, 65532, 27766, 62536, 32768, 0}[i], false, 0, 0, 0, func(c *jref.Cfg) {
			c.Flush = true
			c.Delays = []time.Duration{0, 35 * time.Millisecond, 70 * time.Millisecond}
		})
	}
	// packets lost shortly before a jump, one arriving again; several packets at a time
	for i, l := range []string{"111J2", "111J111", "12J21", "1111J21", "111K11", "22J2", "111J1J1"} {
		add("jump-held", l, []uint16{0, 65533, 30000, 60535, 32765, 65535, 27766}[i], false, 1, 0, 0, func(c *jref.Cfg) {
			c.Init = len(c.S.Samples[0])
			c.Hold, c.Dup, c.Flush = true, true, true
			c.Delays = []time.Duration{0, 35 * time.Millisecond, 70 * time.Millisecond}
		})
	}
	// ... and arriving after it
	for i, l := range []string{"15J1", "1112J2", "1211K11", "1b3J1"} {
		add("jump-late", l, []uint16{0, 60533, 30000, 65533}[i], false, 1, 0, 0, func(c *jref.Cfg) {
			c.Hold, c.Late, c.Flush = true, true, true
			c.Delays = []time.Duration{0, 35 * time.Millisecond}
		})
	}
	for _, l := range []string{"11111", "1211", "131"} {
		add("batch", l, 65533, false, 1, 0, 0, func(c *jref.Cfg) {
			c.Delays = []time.Duration{0, 35 * time.Millisecond}
			c.Olds = []time.Duration{0, 31 * time.Millisecond}
		})
	}
	// nothing happens for hours
	idle := func(c *jref.Cfg) { c.Delays = []time.Duration{0, 61 * time.Millisecond, 3 * time.Hour} }
	add("idle", "1211", 65533, false, 1, 4, 5, idle)
	add("idle", "11111", 30000, true, 1, 4, 5, idle)
	// many packets
	for i, per := range []int{1, 5, 120} {
		add("many", "", []uint16{65400, 3, 32700}[i], false, per, 0, 0, nil)
	}
	vh.Main(vh.Check{ID: "C07", Level: "model_checking",
		Rule:        "every arrival history of a bounded number of events on the real jitter buffer under virtual time; the counters and the loss handler's calls compared with a reference after every event",
		Assumptions: []string{"streams of up to 8 packets (a few of 480, in some orders only)", "the stream is running: its first sample was pushed in order", "a jump is recognised at the start of a sample: of the packets after it, those of the first sample arrive first"},
		Scenarios:   sc})
}
