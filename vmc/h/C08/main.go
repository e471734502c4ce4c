// C08: the jitter buffer used from several goroutines, under every interleaving with its own timer.
package main

import (
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/jref"
)

const lat = 60 * time.Millisecond

var latency = map[string]time.Duration{"short": 10 * time.Millisecond, "long": 100 * time.Millisecond}

// world is a buffer with a consumer that watches for overlap and order.
type world struct {
	s    *jref.Stream
	b    *jitter.Buffer
	mu   sync.Mutex
	in   bool
	last int
	got  []int
	outs []string // the groups, with the millisecond
	lost [][2]uint64
	on   int // what the callbacks do: 1 the delivery callback closes the buffer, 2 the loss handler does
}

func out(group []int, at time.Duration) string {
	return fmt.Sprintf("%v@%d", group, at/time.Millisecond)
}

func newWorld(s *jref.Stream, init int) *world {
	w := &world{s: s, last: -1}
	w.b = jitter.NewBuffer(s.D, lat, func(p []jitter.ExtPacket) {
		w.mu.Lock()
		if w.in {
			w.mu.Unlock()
			vh.Fail("overlap", "two delivery callbacks overlap")
		}
		w.in = true
		w.mu.Unlock()
		var group []int
		for _, x := range p {
			i := s.Index(x.SequenceNumber)
			group = append(group, i)
			if i < 0 || s.Same(i, x.Packet) != "" {
				vh.Fail("altered", "packet %d altered", i)
			}
			if i <= w.last {
				vh.Fail("order", "packet %d handed out after %d", i, w.last)
			}
			w.last = i
			w.got = append(w.got, i)
		}
		w.outs = append(w.outs, out(group, vh.Since0()))
		if w.on == 1 {
			w.b.Close()
		}
		w.mu.Lock()
		w.in = false
		w.mu.Unlock()
	}, jitter.WithPacketLossHandler(func(l, d uint64) {
		w.lost = append(w.lost, [2]uint64{l, d})
		if w.on == 2 {
			w.b.Close()
		}
	}))
	vh.Settle()
	for i := 0; i < init; i++ {
		w.b.Push(s.Packet(i))
	}
	return w
}

// end lets everything drain, closes the buffer and checks that its goroutine ends.
func (w *world) end() {
	vh.Sleep(time.Second)
	vh.Settle()
	if n := w.b.Size(); n != 0 {
		vh.Fail("stays", "%d packets stay buffered", n)
	}
	w.close()
}

func (w *world) close() {
	w.b.Close()
	vh.Settle()
	if vh.LiveCount() != 0 {
		vh.Fail("leak", "goroutines left after Close: %v", vh.Live())
	}
}

// all checks that packets 0..n-1 were handed out.
func (w *world) all(n int) {
	if len(w.got) != n {
		vh.Fail("lost", "%d of %d packets were handed out: %v; %+v", len(w.got), n, w.got, *w.b.Stats())
	}
	st := w.b.Stats()
	if st.PacketsPushed != uint64(n) || st.PacketsPopped != uint64(n) || st.PacketsDropped != 0 || st.PacketsLost != 0 {
		vh.Fail("stats", "after %d packets were all handed out: %+v", n, *st)
	}
}

// account checks that what was pushed is either handed out or dropped.
func (w *world) account(pushed int) {
	st := w.b.Stats()
	if st.PacketsPushed != uint64(pushed) || st.PacketsPopped+st.PacketsDropped != uint64(pushed) || st.PacketsPopped != uint64(len(w.got)) {
		vh.Fail("stats", "pushed %d, handed out %v: %+v", pushed, w.got, *st)
	}
	if len(w.lost) > 0 {
		if l := w.lost[len(w.lost)-1]; l != [2]uint64{st.PacketsLost, st.PacketsDropped} {
			vh.Fail("handler", "loss handler last called with %v: %+v", l, *st)
		}
	} else if st.PacketsLost+st.PacketsDropped > 0 {
		vh.Fail("handler", "loss handler not called: %+v", *st)
	}
}

func main() {
	type prog struct {
		name, layout string
		init         int
		body         func(w *world)
	}
	push := func(w *world, ix ...int) func() {
		return func() {
			for _, i := range ix {
				w.b.Push(w.s.Packet(i))
			}
		}
	}
	progs := []prog{
		{"two-pushers", "11111", 1, func(w *world) {
			a := vh.Spawn("a", push(w, 1, 3))
			b := vh.Spawn("b", push(w, 2, 4))
			a()
			b()
			w.end()
			w.all(5)
		}},
		{"two-pushers-samples", "1222", 1, func(w *world) {
			a := vh.Spawn("a", push(w, 1, 4, 5))
			b := vh.Spawn("b", push(w, 3, 2, 6))
			a()
			b()
			w.end()
			w.all(7)
		}},
		{"three-pushers", "1111", 1, func(w *world) {
			a := vh.Spawn("a", push(w, 3))
			b := vh.Spawn("b", push(w, 2))
			c := vh.Spawn("c", push(w, 1))
			a()
			b()
			c()
			w.end()
			w.all(4)
		}},
		{"same-packet", "1111", 1, func(w *world) {
			a := vh.Spawn("a", push(w, 2, 1, 3))
			b := vh.Spawn("b", push(w, 2, 3))
			a()
			b()
			w.end()
			w.account(6)
			if len(w.got) != 4 {
				vh.Fail("lost", "handed out %v", w.got)
			}
		}},
		{"batch", "11111", 1, func(w *world) {
			a := vh.Spawn("a", func() {
				w.b.PushExtPacketBatch([]jitter.ExtPacket{{ReceivedAt: vh.Now(), Packet: w.s.Packet(1)}, {ReceivedAt: vh.Now(), Packet: w.s.Packet(4)}})
			})
			b := vh.Spawn("b", func() {
				w.b.PushExtPacket(jitter.ExtPacket{ReceivedAt: vh.Now(), Packet: w.s.Packet(3)})
				w.b.Push(w.s.Packet(2))
			})
			a()
			b()
			w.end()
			w.all(5)
		}},
		{"timer-vs-push", "1111", 1, func(w *world) {
			// packet 3 expires at the same moment as the others arrive
			w.b.Push(w.s.Packet(3))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("a", func() { vh.Sleep(1001); push(w, 2)() })
			b := vh.Spawn("b", func() { vh.Sleep(1001); push(w, 1)() })
			a()
			b()
			w.end()
			w.account(4)
			vh.Note("%v", w.got)
		}},
		{"timer-vs-sample", "122", 1, func(w *world) {
			w.b.Push(w.s.Packet(1))
			w.b.Push(w.s.Packet(3))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("a", func() { vh.Sleep(1001); push(w, 2)() })
			b := vh.Spawn("b", func() { vh.Sleep(1001); push(w, 4)() })
			a()
			b()
			w.end()
			w.account(5)
			vh.Note("%v", w.got)
		}},
		{"flush", "11212", 1, func(w *world) {
			w.b.Push(w.s.Packet(2))
			a := vh.Spawn("push", push(w, 4, 1, 3))
			b := vh.Spawn("flush", func() { w.b.Flush() })
			a()
			b()
			w.end()
			w.account(5)
			vh.Note("%v", w.got)
		}},
		{"two-flushes", "1111", 1, func(w *world) {
			w.b.Push(w.s.Packet(2))
			a := vh.Spawn("flush1", func() { w.b.Flush() })
			b := vh.Spawn("flush2", func() { push(w, 3)(); w.b.Flush() })
			a()
			b()
			if n := w.b.Size(); n != 0 {
				vh.Fail("flush", "%d packets buffered after Flush", n)
			}
			w.end()
			w.account(3)
			vh.Note("%v", w.got)
		}},
		{"flush-vs-timer", "1111", 1, func(w *world) {
			w.b.Push(w.s.Packet(3))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("flush", func() { vh.Sleep(1001); w.b.Flush() })
			b := vh.Spawn("push", func() { vh.Sleep(1001); push(w, 1)() })
			a()
			b()
			w.end()
			w.account(3)
			vh.Note("%v", w.got)
		}},
		{"latency", "1111", 1, func(w *world) {
			w.b.Push(w.s.Packet(2))
			vh.Sleep(lat / 2)
			a := vh.Spawn("latency", func() { w.b.UpdateLatency(lat / 3); w.b.UpdateLatency(lat * 3 / 4) })
			b := vh.Spawn("push", push(w, 3, 1))
			a()
			b()
			w.end()
			w.account(4)
			vh.Note("%v", w.got)
		}},
		{"readers", "1111", 1, func(w *world) {
			a := vh.Spawn("push", push(w, 2, 1, 3))
			b := vh.Spawn("read", func() {
				for i := 0; i < 2; i++ {
					st, n := w.b.Stats(), w.b.Size()
					if n < 0 || n > 4 || st.PacketsPushed < st.PacketsPopped+st.PacketsDropped || st.PacketsPopped > 4 {
						vh.Fail("snapshot", "size %d, %+v", n, *st)
					}
					if st.PacketLoss() != 0 {
						vh.Fail("snapshot", "loss %v", st.PacketLoss())
					}
				}
			})
			c := vh.Spawn("read2", func() {
				st := w.b.Stats()
				// in the snapshot the numbers fit together
				if ok := map[uint64]uint64{1: 1, 2: 1, 3: 3, 4: 4}[st.PacketsPushed]; ok != st.PacketsPopped || st.SamplesPopped != st.PacketsPopped {
					vh.Fail("snapshot", "%+v", *st)
				}
			})
			a()
			b()
			c()
			w.end()
			w.all(4)
		}},
		{"close", "1111", 1, func(w *world) {
			w.b.Push(w.s.Packet(2))
			a := vh.Spawn("push", push(w, 3, 1))
			b := vh.Spawn("close", func() { w.b.Close() })
			c := vh.Spawn("close2", func() { w.b.Close(); w.b.Flush() })
			a()
			b()
			c()
			w.b.Flush()
			w.account(4)
			w.close()
			vh.Note("%v", w.got)
		}},
		{"close-vs-timer", "1111", 1, func(w *world) {
			w.b.Push(w.s.Packet(2))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("close", func() { vh.Sleep(1001); w.b.Close() })
			b := vh.Spawn("push", func() { vh.Sleep(1001); push(w, 3)(); w.b.UpdateLatency(lat) })
			a()
			b()
			w.close()
			vh.Sleep(time.Second)
			w.b.Flush()
			w.account(3)
			vh.Note("%v", w.got)
		}},
		{"mixed", "11111", 1, func(w *world) {
			w.b.Push(w.s.Packet(3))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("a", func() { vh.Sleep(1001); push(w, 2, 4)() })
			b := vh.Spawn("b", func() { vh.Sleep(1001); push(w, 1)(); w.b.Stats() })
			c := vh.Spawn("c", func() { vh.Sleep(1001); w.b.UpdateLatency(lat * 2); w.b.Flush() })
			a()
			b()
			c()
			w.end()
			w.account(5)
			vh.Note("%v", w.got)
		}},
		{"mixed-close", "11111", 1, func(w *world) {
			w.b.Push(w.s.Packet(3))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("a", func() { vh.Sleep(1001); push(w, 2, 4)() })
			b := vh.Spawn("b", func() { vh.Sleep(1001); w.b.Flush(); w.b.Close() })
			c := vh.Spawn("c", func() { vh.Sleep(1001); push(w, 1)(); w.b.UpdateLatency(lat * 2) })
			a()
			b()
			c()
			w.close()
			w.b.Flush()
			w.account(5)
			vh.Note("%v", w.got)
		}},
		{"four-pushers", "1212111", 1, func(w *world) {
			js := []func(){vh.Spawn("a", push(w, 1, 8)), vh.Spawn("b", push(w, 3, 2)), vh.Spawn("c", push(w, 5, 4)), vh.Spawn("d", push(w, 7, 6))}
			for _, j := range js {
				j()
			}
			w.end()
			w.all(9)
		}},
		{"close-from-delivery", "11111", 1, func(w *world) {
			w.on = 1
			a := vh.Spawn("a", push(w, 1))
			b := vh.Spawn("b", push(w, 3))
			a()
			b()
			w.close()
			w.b.Flush()
			w.account(3)
		}},
		{"close-from-loss", "11111", 1, func(w *world) {
			w.on = 2
			w.b.Push(w.s.Packet(2))
			vh.Sleep(lat - 1000)
			a := vh.Spawn("a", func() { vh.Sleep(1001); push(w, 4)() })
			b := vh.Spawn("b", func() { vh.Sleep(1001); push(w, 0)() })
			a()
			b()
			vh.Sleep(time.Millisecond)
			w.close()
			w.b.Flush()
			w.account(4)
			vh.Note("%v", w.got)
		}},
		{"close-unused", "1", 0, func(w *world) {
			a := vh.Spawn("close", func() { w.b.Close() })
			b := vh.Spawn("latency", func() { w.b.UpdateLatency(1) })
			a()
			b()
			w.close()
		}},
	}
	var sc []vh.Scenario
	for _, p := range progs {
		for _, base := range []uint16{65534} {
			s := jref.Make(p.layout, base, false)
			sc = append(sc, vh.Scenario{Name: p.name, Race: true, Run: func(r *vh.R) {
				o := vh.All
				o.Slop = 1
				r.Explore(o, func() { p.body(newWorld(s, p.init)) })
			}})
		}
	}
	// all pairs of short programs: what comes out, and when, is what the reference does in some order of the calls
	sc = append(sc, vh.Scenario{Name: "programs", Race: true, Run: func(r *vh.R) {
		const init = 1
		s := jref.Make("11122", 65534, false)
		calls := []string{"1", "2", "3", "4", "5", "6", "flush", "short", "long", "size", "stats"}
		type state struct {
			ref   jref.Ref
			reads []string
		}
		step := func(o state, call, who string) state {
			o.ref = o.ref.Clone()
			o.reads = slices.Clone(o.reads)
			switch call {
			case "flush":
				o.ref.Flush()
			case "short", "long":
				o.ref.Lat = latency[call]
			case "size":
				o.reads = append(o.reads, fmt.Sprintf("%s=%d", who, o.ref.Size()))
			case "stats":
				o.reads = append(o.reads, fmt.Sprintf("%s=%d/%d/%d/%d", who, o.ref.Pushed, o.ref.Popped, o.ref.Dropped, o.ref.Lost))
			default:
				o.ref.Push(int(call[0]-'0'), 0)
			}
			return o
		}
		end := func(o state) string {
			o.ref = o.ref.Clone()
			o.ref.Advance(time.Second)
			var outs []string
			for _, x := range o.ref.Out {
				outs = append(outs, out(x.Pkts, x.At))
			}
			slices.Sort(o.reads)
			return fmt.Sprintf("%s read %s; pushed %d popped %d dropped %d lost %d", strings.Join(outs, " "), strings.Join(o.reads, " "), o.ref.Pushed, o.ref.Popped, o.ref.Dropped, o.ref.Lost)
		}
		run := func(progs [2][]string) bool {
			want := map[string]bool{}
			var rec func(o state, i, j int)
			rec = func(o state, i, j int) {
				if i == len(progs[0]) && j == len(progs[1]) {
					want[end(o)] = true
					return
				}
				if i < len(progs[0]) {
					rec(step(o, progs[0][i], fmt.Sprintf("a%d", i)), i+1, j)
				}
				if j < len(progs[1]) {
					rec(step(o, progs[1][j], fmt.Sprintf("b%d", j)), i, j+1)
				}
			}
			o := state{ref: jref.Ref{S: s, Lat: lat}}
			for i := range init {
				o.ref.Push(i, 0)
			}
			rec(o, 0, 0)
			r.Explore(vh.Opt{Bound: -1, Slop: 1}, func() {
				w := newWorld(s, init)
				reads := make([][]string, 2)
				var js []func()
				for t, p := range progs {
					js = append(js, vh.Spawn(fmt.Sprintf("p%d", t), func() {
						for i, c := range p {
							who := fmt.Sprintf("%c%d", 'a'+t, i)
							switch c {
							case "flush":
								w.b.Flush()
							case "short", "long":
								w.b.UpdateLatency(latency[c])
							case "size":
								reads[t] = append(reads[t], fmt.Sprintf("%s=%d", who, w.b.Size()))
							case "stats":
								st := w.b.Stats()
								reads[t] = append(reads[t], fmt.Sprintf("%s=%d/%d/%d/%d", who, st.PacketsPushed, st.PacketsPopped, st.PacketsDropped, st.PacketsLost))
							default:
								w.b.Push(s.Packet(int(c[0] - '0')))
							}
						}
					}))
				}
				for _, j := range js {
					j()
				}
				vh.Sleep(time.Second)
				vh.Settle()
				st := w.b.Stats()
				f := append(reads[0], reads[1]...)
				slices.Sort(f)
				got := fmt.Sprintf("%s read %s; pushed %d popped %d dropped %d lost %d", strings.Join(w.outs, " "), strings.Join(f, " "), st.PacketsPushed, st.PacketsPopped, st.PacketsDropped, st.PacketsLost)
				vh.Note("%s", got)
				if !want[got] {
					vh.Fail("linear", "%v with %v: no order of the calls gives %s", progs[0], progs[1], got)
				}
				w.account(int(st.PacketsPushed))
				w.end()
			})
			return !r.Stop()
		}
		for n := 1; n <= r.Pick(2, 3); n++ {
			ok := vh.Prod([]int{len(calls), len(calls)}, func(x []int) bool {
				return vh.Seqs(n, len(calls), func(y []int) bool {
					var b []string
					for _, k := range y {
						b = append(b, calls[k])
					}
					return run([2][]string{{calls[x[0]], calls[x[1]]}, b})
				})
			})
			if !ok {
				return
			}
		}
	}})
	vh.Main(vh.Check{ID: "C08", Level: "model_checking",
		Rule:        "every interleaving, within a preemption bound, of small concurrent programs on the real jitter buffer and its timer goroutine under a controlled scheduler and clock; the same programs also under the race detector",
		Assumptions: []string{"sequentially consistent memory for race-free programs (races are looked for separately)", "timers fire one nanosecond after their deadline"},
		Scenarios:   sc})
}
