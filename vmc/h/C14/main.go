// C14: timestamps of RTP streams advance steadily and stay in sync.
package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

var errSink = errors.New("refused")

type pkt struct {
	typ     byte
	ts      uint32
	refused bool
}

type sink struct {
	got    []pkt
	refuse bool
}

func (s *sink) String() string { return "sink" }
func (s *sink) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	vh.Atomic(func() { s.got = append(s.got, pkt{h.PayloadType, h.Timestamp, s.refuse}) })
	if s.refuse {
		return 0, errSink
	}
	return len(payload), nil
}

// ref is the reference: the streams' own timestamps and the furthest one.
type ref struct {
	dur []uint32
	ts  []uint32
	fu  []bool
	max uint32
	set bool
}

func (f *ref) sync(i int) {
	lag := int64(f.max) - int64(f.ts[i])
	switch {
	case !f.set:
		f.max, f.set = f.ts[i], true
	case lag > int64(25*f.dur[i]):
		f.ts[i] = f.max
	case lag < 0:
		f.max = f.ts[i]
	}
}

func (f *ref) same(g *ref) bool {
	return f.max == g.max && f.set == g.set && slices.Equal(f.ts, g.ts) && slices.Equal(f.fu, g.fu)
}

func (f *ref) clone() *ref {
	g := *f
	g.ts = append([]uint32(nil), f.ts...)
	g.fu = append([]bool(nil), f.fu...)
	return &g
}

// step applies an operation and tells the time a packet must have, and the states that may follow.
// A refused packet may or may not leave its mark: the time its stream took over from a stream ahead,
// and the mark it set for the others.
func (f *ref) step(o op, start uint32) (wrote uint32, next []*ref) {
	i := o.s
	g := f.clone()
	switch o.what {
	case "write", "at", "refused", "refused-at":
		if !g.fu[i] {
			g.sync(i)
		}
		wrote = g.ts[i]
		switch o.what {
		case "write":
			g.ts[i] += g.dur[i]
			g.fu[i] = false
		case "at":
			g.fu[i] = true
		default:
			next = append(next, f)
			if g.ts[i] == f.ts[i] && g.max == f.max && g.set == f.set {
				return wrote, next
			}
		}
	case "delay", "delayN":
		if o.what == "delay" {
			g.ts[i] += o.arg
		} else {
			g.ts[i] += o.arg * g.dur[i]
		}
		g.sync(i)
		g.fu[i] = false
	case "reset":
		g.ts[i] = o.arg + start
		g.fu[i] = false
	}
	return wrote, append(next, g)
}

type op struct {
	s    int
	what string
	arg  uint32
}

func (o op) String() string { return fmt.Sprintf("%c.%s(%d)", 'A'+o.s, o.what, o.arg) }

// history runs one operation sequence on fresh streams.
func history(r *vh.R, durs []uint32, start uint32, ops []op, created string) bool {
	r.Case()
	desc := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "packet durations %v, start %d:", durs, start)
		for _, o := range ops {
			b.WriteString(" " + o.String())
		}
		return b.String()
	}
	ok := r.Guard("panic", "", func() {
		s := &sink{}
		w := rtp.NewSeqWriter(s)
		f0 := &ref{dur: durs, ts: make([]uint32, len(durs)), fu: make([]bool, len(durs))}
		var st []*rtp.Stream
		for i, d := range durs {
			if created == "late" {
				st = append(st, nil) // created when first used
				continue
			}
			st = append(st, w.NewStreamWithDur(byte(i), d))
		}
		if start != 0 {
			for i := range st {
				st[i].ResetTimestamp(start)
				f0.ts[i] = start
			}
			// the first packet fixes where the streams are
			st[0].WritePayload(nil, false)
			f0.sync(0)
			f0.ts[0] += durs[0]
			s.got = nil
		}
		may := []*ref{f0} // the states the streams may be in
		for k, o := range ops {
			i := o.s
			if st[i] == nil {
				st[i] = w.NewStreamWithDur(byte(i), durs[i])
				if t := st[i].GetCurrentTimestamp(); t != 0 {
					r.Fail("start", "%s: the stream created before step %d begins at %d", desc(), k, t)
				}
			}
			n := len(s.got)
			var err error
			s.refuse = strings.HasPrefix(o.what, "refused")
			writes := true
			switch o.what {
			case "write", "refused":
				err = st[i].WritePayload([]byte{1}, false)
			case "at", "refused-at":
				err = st[i].WritePayloadAtCurrent([]byte{1}, false)
			default:
				writes = false
				switch o.what {
				case "delay":
					st[i].Delay(o.arg)
				case "delayN":
					st[i].DelayN(int(o.arg))
				case "reset":
					st[i].ResetTimestamp(o.arg + start)
				}
			}
			if writes && (err != nil) != s.refuse {
				r.Fail("error", "%s: step %d returned %v", desc(), k, err)
			}
			if writes && (len(s.got) != n+1 || s.got[n].typ != byte(i)) || !writes && len(s.got) != n {
				r.Fail("timestamp", "%s: step %d wrote %v", desc(), k, s.got[n:])
				return
			}
			var then, kept []*ref
			var wants []uint32
			for _, f := range may {
				want, next := f.step(o, start)
				if writes {
					wants = append(wants, want)
					if want != s.got[n].ts {
						continue
					}
					if want != f.ts[i] {
						r.Nontrivial()
					}
				}
				then = append(then, next...)
			}
			if len(then) == 0 {
				r.Fail("timestamp", "%s: step %d wrote %v, want time %v", desc(), k, s.got[n:], wants)
				return
			}
		refs:
			for j, f := range then {
				for x := range st {
					if st[x] != nil && st[x].GetCurrentTimestamp() != f.ts[x] {
						continue refs
					}
				}
				for _, g := range then[:j] {
					if g.same(f) {
						continue refs
					}
				}
				kept = append(kept, f)
			}
			if len(kept) == 0 {
				var at []uint32
				for x := range st {
					if st[x] != nil {
						at = append(at, st[x].GetCurrentTimestamp())
					}
				}
				r.Fail("current", "%s: after step %d the streams are at %d, want %d", desc(), k, at, then[0].ts)
				return
			}
			may = kept
			for _, f := range may {
				r.State(f.ts, f.fu, f.max)
			}
			r.Step(1)
		}
	})
	r.Trace()
	return ok && !r.Stop()
}

func all(r *vh.R, durs []uint32, start uint32, alpha []op, n int) {
	for m := 1; m <= n; m++ {
		if !vh.Seqs(m, len(alpha), func(q []int) bool {
			ops := make([]op, m)
			for i, x := range q {
				ops[i] = alpha[x]
			}
			return history(r, durs, start, ops, "")
		}) {
			return
		}
	}
}

func main() {
	var sc []vh.Scenario
	single := []op{{0, "write", 0}, {0, "at", 0}, {0, "refused", 0}, {0, "refused-at", 0}, {0, "delay", 1}, {0, "delay", 2000}, {0, "delayN", 0}, {0, "delayN", 30}}
	for _, d := range []uint32{160, 320, 960} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("one-stream-%d", d), Run: func(r *vh.R) {
			all(r, []uint32{d}, 0, single, r.Pick(5, 6))
		}})
	}
	sc = append(sc, vh.Scenario{Name: "one-stream-reset", Run: func(r *vh.R) {
		all(r, []uint32{160}, 0, []op{{0, "write", 0}, {0, "at", 0}, {0, "delay", 160}, {0, "delayN", 27}, {0, "reset", 0}, {0, "reset", 500}, {0, "reset", 100000}}, r.Pick(5, 6))
	}})
	two := []op{{0, "write", 0}, {0, "at", 0}, {0, "delay", 1}, {0, "delayN", 24}, {0, "delayN", 25}, {1, "write", 0}, {1, "at", 0}, {1, "delay", 3}, {1, "delayN", 25}, {1, "delayN", 26}}
	sc = append(sc, vh.Scenario{Name: "two-streams", Run: func(r *vh.R) {
		all(r, []uint32{160, 160}, 0, two, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "two-streams-other-durations", Run: func(r *vh.R) {
		all(r, []uint32{160, 960}, 0, two, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "two-streams-reset", Run: func(r *vh.R) {
		all(r, []uint32{160, 160}, 0, []op{{0, "write", 0}, {0, "at", 0}, {0, "reset", 0}, {0, "reset", 5000}, {0, "delayN", 26}, {1, "write", 0}, {1, "delay", 4001}, {1, "reset", 100}, {1, "reset", 9000}}, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "three-streams", Run: func(r *vh.R) {
		all(r, []uint32{160, 160, 320}, 0, []op{{0, "write", 0}, {0, "delayN", 26}, {1, "write", 0}, {1, "at", 0}, {1, "delayN", 20}, {2, "write", 0}, {2, "at", 0}, {2, "delayN", 13}, {2, "delay", 1}}, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "two-streams-refused", Run: func(r *vh.R) {
		all(r, []uint32{160, 160}, 0, []op{{0, "write", 0}, {0, "refused", 0}, {0, "at", 0}, {0, "refused-at", 0}, {0, "delayN", 26}, {1, "write", 0}, {1, "refused", 0}, {1, "refused-at", 0}, {1, "delayN", 27}}, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "three-streams-refused", Run: func(r *vh.R) {
		all(r, []uint32{160, 960, 320}, 0, []op{{0, "write", 0}, {0, "refused", 0}, {0, "delayN", 200}, {1, "refused-at", 0}, {1, "write", 0}, {1, "delayN", 26}, {2, "at", 0}, {2, "refused", 0}, {2, "delay", 9000}}, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "late-streams", Run: func(r *vh.R) {
		// streams created when they are first used
		alpha := []op{{0, "write", 0}, {0, "at", 0}, {0, "delayN", 26}, {0, "delay", 700}, {1, "write", 0}, {1, "at", 0}, {1, "refused", 0}, {1, "delay", 3}, {2, "write", 0}, {2, "delayN", 30}}
		for m := 1; m <= r.Pick(5, 6); m++ {
			if !vh.Seqs(m, len(alpha), func(q []int) bool {
				ops := make([]op, m)
				for i, x := range q {
					ops[i] = alpha[x]
				}
				return history(r, []uint32{160, 160, 320}, 0, ops, "late")
			}) {
				return
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "big-delays", Run: func(r *vh.R) {
		// delays that do not fit into 8, 16 or 24 bits, in clock ticks and in packets
		big := []op{{0, "write", 0}, {0, "at", 0}, {0, "delay", 65536}, {0, "delay", 1 << 24}, {0, "delayN", 256}, {0, "delayN", 65537}, {1, "write", 0}, {1, "delayN", 411}}
		all(r, []uint32{160, 960}, 0, big, r.Pick(5, 6))
	}})
	sc = append(sc, vh.Scenario{Name: "threshold", Run: func(r *vh.R) {
		// every lag around the threshold, by stream duration
		for _, d := range []uint32{1, 160, 960} {
			for lag := uint32(0); lag <= 60*d && lag < 60*d+3; lag += max(1, d/4) {
				for e := -1; e <= 1; e++ {
					for _, next := range []string{"write", "at", "delay"} {
						l := uint32(int(lag) + e)
						if int(lag)+e < 0 {
							continue
						}
						if !history(r, []uint32{d, 160}, 0, []op{{1, "delay", l}, {0, next, 0}, {0, "write", 0}, {0, "write", 0}, {1, "write", 0}}, "") {
							return
						}
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		// two days of audio and events written in turns, one skipping part of it
		for _, clock := range []int{8000, 11025, 16000, 22050, 44100, 48000, 90000} {
			s := &sink{}
			w := rtp.NewSeqWriter(s)
			a, b := w.NewStream(0, clock), w.NewStream(1, clock)
			d := uint32(clock / 50)
			n := r.Pick(2_000_000, 2*24*3600*50)
			r.Case()
			for i := 0; i < n; i++ {
				s.got = s.got[:0]
				a.WritePayload(nil, false)
				if s.got[0].ts != uint32(i)*d {
					r.Fail("timestamp", "clock %d: packet %d has time %d, want %d", clock, i, s.got[0].ts, uint32(i)*d)
					break
				}
				if i%100000 == 99999 {
					b.WritePayload(nil, false)
					if s.got[1].ts != uint32(i)*d {
						r.Fail("jump", "clock %d: second stream has time %d, the first is at %d", clock, s.got[1].ts, uint32(i)*d)
						break
					}
				}
				r.Step(1)
			}
			r.Trace()
		}
	}})
	walk := []op{{0, "delay", 1 << 30}, {0, "write", 0}, {0, "delay", 1 << 30}, {0, "delay", 1 << 30}, {0, "write", 0}, {0, "delay", 1<<30 - 1000000}}
	sc = append(sc, vh.Scenario{Name: "late", Run: func(r *vh.R) {
		// timestamps close to the largest one, another stream far behind
		for _, d := range []uint32{160, 960} {
			for n := 1; n <= r.Pick(4, 5); n++ {
				if !vh.Seqs(n, len(two), func(q []int) bool {
					ops := append([]op{}, walk[:3+q[0]%4]...)
					for _, x := range q {
						ops = append(ops, two[x])
					}
					return history(r, []uint32{d, 160}, 0, ops, "")
				}) {
					return
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "wrap", Run: func(r *vh.R) {
		// one stream past the end of the 32-bit timestamps (24 hours at 48 kHz)
		for _, clock := range []int{8000, 11025, 16000, 22050, 44100, 48000, 90000} {
			r.Case()
			s := &sink{}
			st := rtp.NewSeqWriter(s).NewStream(0, clock)
			d := uint32(clock / 50)
			for _, o := range walk {
				if o.what == "delay" {
					st.Delay(o.arg)
				}
			}
			st.Delay(1000000 % d)
			for i := 0; i < int(1010000/d); i++ {
				st.WritePayload(nil, false)
			}
			for i := 1; i < len(s.got); i++ {
				r.Step(1)
				if g := s.got[i].ts - s.got[i-1].ts; g != d {
					if s.got[i-1].ts >= ^uint32(0)-26*d {
						// the stream never gets past this point
						r.Fail("wrap-stuck", "one stream, packet duration %d: the packets after the one at %d (the 32-bit timestamps end there) advance by %d", d, s.got[i-1].ts, g)
					} else {
						r.Fail("timestamp", "one stream, packet duration %d: after %d comes %d", d, s.got[i-1].ts, s.got[i].ts)
					}
					break
				}
			}
			r.Trace()
		}
	}})
	conc := func(name string, progs [][]op, check func(s *sink, st []*rtp.Stream)) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: -1}, func() {
				s := &sink{}
				w := rtp.NewSeqWriter(s)
				var st []*rtp.Stream
				for i := 0; i < 3; i++ {
					st = append(st, w.NewStreamWithDur(byte(i), 160))
				}
				var js []func()
				for i, p := range progs {
					js = append(js, vh.Spawn(fmt.Sprintf("p%d", i), func() {
						for _, o := range p {
							switch o.what {
							case "write":
								st[o.s].WritePayload([]byte{1}, false)
							case "at":
								st[o.s].WritePayloadAtCurrent([]byte{1}, false)
							case "delay":
								st[o.s].Delay(o.arg)
							}
						}
					}))
				}
				for _, j := range js {
					j()
				}
				n := len(s.got)
				st[2].WritePayload([]byte{1}, false) // lags behind whatever happened: jumps to the furthest
				vh.Note("%v", s.got)
				last := map[byte]uint32{}
				furthest := uint32(0)
				for _, p := range s.got[:n] {
					if l, ok := last[p.typ]; ok && p.ts < l {
						vh.Fail("backwards", "stream %d goes back: %v", p.typ, s.got)
					}
					last[p.typ] = p.ts
					furthest = max(furthest, p.ts)
				}
				check(s, st)
			})
		}})
	}
	conc("two-delays", [][]op{{{0, "delay", 10000}}, {{1, "delay", 20000}}}, func(s *sink, st []*rtp.Stream) {
		if t := s.got[len(s.got)-1].ts; t != 20000 {
			vh.Fail("furthest", "streams at 10000 and 20000, a third one jumps to %d", t)
		}
		if a := st[0].GetCurrentTimestamp(); a != 10000 && a != 20000 {
			vh.Fail("delay", "first stream at %d", a)
		}
	})
	conc("delay-write", [][]op{{{0, "delay", 10000}, {0, "write", 0}, {0, "write", 0}}, {{1, "write", 0}, {1, "write", 0}, {1, "write", 0}}}, func(s *sink, st []*rtp.Stream) {
		var a, b []uint32
		for _, p := range s.got {
			switch p.typ {
			case 0:
				a = append(a, p.ts)
			case 1:
				b = append(b, p.ts)
			}
		}
		// a: 10000, 10160. b: steps of 160 until a's timestamps are visible, then one of them
		if len(a) != 2 || a[0] != 10000 && a[0] < 10160 || a[1] != a[0]+160 {
			vh.Fail("steps", "first stream %v", a)
		}
		jumped := false
		prev := uint32(0)
		for i, t := range b {
			switch {
			case i == 0 && t == 0, i > 0 && t == prev+160:
			case !jumped && t >= 10000 && (t-10000)%160 == 0:
				jumped = true
			default:
				vh.Fail("steps", "second stream %v", b)
			}
			prev = t
		}
		if t := s.got[len(s.got)-1].ts; t < a[1] || t < b[2] {
			vh.Fail("furthest", "streams %v and %v, a third one jumps to %d", a, b, t)
		}
	})
	conc("same-stream", [][]op{{{0, "write", 0}, {0, "delay", 5000}}, {{0, "write", 0}, {0, "write", 0}}}, func(s *sink, st []*rtp.Stream) {
		if g := st[0].GetCurrentTimestamp(); g != 3*160+5000 {
			vh.Fail("lost-step", "three packets and a delay of 5000 end at %d", g)
		}
		seen := map[uint32]bool{}
		for _, p := range s.got {
			if p.typ == 0 && seen[p.ts] {
				vh.Fail("same", "two packets share time %d", p.ts)
			}
			if p.typ == 0 {
				seen[p.ts] = true
			}
		}
	})
	conc("three-delays", [][]op{{{0, "delay", 9000}, {0, "write", 0}}, {{1, "delay", 20000}}, {{1, "write", 0}, {0, "write", 0}}}, func(s *sink, st []*rtp.Stream) {
		if t := s.got[len(s.got)-1].ts; t < 20000 {
			vh.Fail("furthest", "a stream was delayed to 20000, a third one jumps to %d", t)
		}
	})
	// the current timestamp read while another goroutine writes
	sc = append(sc, vh.Scenario{Name: "current", Race: true, Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: -1}, func() {
			w := rtp.NewSeqWriter(&sink{})
			st := w.NewStreamWithDur(0, 160)
			j1 := vh.Spawn("write", func() {
				st.WritePayload(nil, false)
				st.Delay(1000)
				st.ResetTimestamp(7)
			})
			var seen []uint32
			j2 := vh.Spawn("read", func() {
				for range 3 {
					seen = append(seen, st.GetCurrentTimestamp())
				}
			})
			j1()
			j2()
			vh.Note("%v", seen)
			at := 0
			for _, t := range seen {
				for at < 4 && []uint32{0, 160, 1160, 7}[at] != t {
					at++
				}
				if at == 4 {
					vh.Fail("current", "reads during 0, 160, 1160, 7 gave %v", seen)
				}
			}
		})
	}})
	// all pairs of short programs on one stream or two: what comes out is what some order of the calls gives
	sc = append(sc, vh.Scenario{Name: "programs", Race: true, Run: func(r *vh.R) {
		calls := []op{{0, "write", 0}, {0, "at", 0}, {0, "delay", 1000}, {0, "reset", 50000}, {0, "reset", 7}, {0, "cur", 0}}
		type stream struct {
			ts     uint32
			follow bool
			log    string // its packets; those of different streams may pass each other on the way out
		}
		type out struct {
			st  [2]stream
			max uint32
		}
		ref := func(o out, c op) out {
			st := &o.st[c.s]
			sync := func() {
				if o.max > st.ts+25*160 {
					st.ts = o.max
				} else if o.max < st.ts {
					o.max = st.ts
				}
			}
			switch c.what {
			case "write", "at":
				if !st.follow {
					sync()
				}
				st.log += fmt.Sprintf(" %d", st.ts)
				st.follow = c.what == "at"
				if !st.follow {
					st.ts += 160
				}
			case "delay":
				st.ts += c.arg
				sync()
				st.follow = false
			case "reset":
				st.ts, st.follow = c.arg, false
			}
			return o
		}
		run := func(a, b []op) bool {
			// every order; what each reading of the current time gave belongs to the outcome
			want := map[string]bool{}
			var rec func(o out, i, j int, cur string)
			rec = func(o out, i, j int, cur string) {
				if i == len(a) && j == len(b) {
					want[fmt.Sprintf("packets%s/%s end %d %d read%s", o.st[0].log, o.st[1].log, o.st[0].ts, o.st[1].ts, cur)] = true
					return
				}
				if i < len(a) {
					n, c := ref(o, a[i]), cur
					if a[i].what == "cur" {
						c = fmt.Sprintf("%s a%d=%d", cur, i, n.st[a[i].s].ts)
					}
					rec(n, i+1, j, c)
				}
				if j < len(b) {
					n, c := ref(o, b[j]), cur
					if b[j].what == "cur" {
						c = fmt.Sprintf("%s b%d=%d", cur, j, n.st[b[j].s].ts)
					}
					rec(n, i, j+1, c)
				}
			}
			rec(out{}, 0, 0, "")
			canon := func(m map[string]bool) map[string]bool {
				c := map[string]bool{}
				for k := range m {
					head, tail, _ := strings.Cut(k, " read")
					f := strings.Fields(tail)
					slices.Sort(f)
					c[head+" read "+strings.Join(f, " ")] = true
				}
				return c
			}
			want = canon(want)
			r.Explore(vh.Opt{Bound: -1}, func() {
				s := &sink{}
				w := rtp.NewSeqWriter(s)
				sts := []*rtp.Stream{w.NewStreamWithDur(0, 160), w.NewStreamWithDur(1, 160)}
				reads := make([][]string, 2)
				var js []func()
				for t, p := range [][]op{a, b} {
					js = append(js, vh.Spawn(fmt.Sprintf("p%d", t), func() {
						for i, o := range p {
							st := sts[o.s]
							switch o.what {
							case "write":
								st.WritePayload([]byte{1}, false)
							case "at":
								st.WritePayloadAtCurrent([]byte{1}, false)
							case "delay":
								st.Delay(o.arg)
							case "reset":
								st.ResetTimestamp(o.arg)
							case "cur":
								reads[t] = append(reads[t], fmt.Sprintf("%c%d=%d", 'a'+t, i, st.GetCurrentTimestamp()))
							}
						}
					}))
				}
				for _, j := range js {
					j()
				}
				var log [2]string
				for _, p := range s.got {
					log[p.typ] += fmt.Sprintf(" %d", p.ts)
				}
				f := append(reads[0], reads[1]...)
				slices.Sort(f)
				got := fmt.Sprintf("packets%s/%s end %d %d read %s", log[0], log[1], sts[0].GetCurrentTimestamp(), sts[1].GetCurrentTimestamp(), strings.Join(f, " "))
				vh.Note("%s", got)
				if !want[got] {
					vh.Fail("linear", "%v with %v: no order of the calls gives %s", a, b, got)
				}
			})
			return !r.Stop()
		}
		for n := 1; n <= r.Pick(2, 3); n++ {
			for s := range 2 {
				ok := vh.Prod([]int{len(calls), len(calls)}, func(x []int) bool {
					a := []op{calls[x[0]], calls[x[1]]}
					return vh.Seqs(n, len(calls), func(y []int) bool {
						var b []op
						for _, k := range y {
							c := calls[k]
							c.s = s
							b = append(b, c)
						}
						return run(a, b)
					})
				})
				if !ok {
					return
				}
			}
		}
	}})
	vh.Main(vh.Check{ID: "C14", Level: "model_checking",
		Rule:      "every bounded sequence of writes, refusals, delays and resets over up to three streams compared with a reference; every interleaving of small concurrent programs",
		Scenarios: sc})
}
