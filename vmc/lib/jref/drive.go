package jref

import (
	"fmt"
	"time"

	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/vh"
)

// Cfg is a family of histories: Init packets of the stream in order, then Depth freely chosen events.
type Cfg struct {
	S      *Stream
	Lat    time.Duration
	Init   int
	Depth  int
	Delays []time.Duration // what may pass before each event
	Olds   []time.Duration // how long before the push a packet may be stated to have arrived
	Flush  bool
	Relat  []time.Duration // latency updates
	NoDup  bool
	Hold   bool // packets before a jump may be lost, too
	Dup    bool // one packet may arrive again
	Late   bool // those missing before a jump may arrive after it, while packets before it are still buffered
}

// Got is one delivery observed.
type Got struct {
	Pkts []jitter.ExtPacket
	At   time.Duration
}

// World is one run of a real buffer next to the reference.
type World struct {
	S      *Stream
	B      *jitter.Buffer
	R      *Ref
	Got    []Got
	Raw    [][]jitter.ExtPacket // the groups as handed out
	Losses [][2]uint64
	Arr    map[int][]time.Duration
	What   string
	via    int
}

// NewWorld creates the buffer.
func NewWorld(s *Stream, lat time.Duration) *World {
	w := &World{S: s, R: &Ref{S: s, Lat: lat}, Arr: map[int][]time.Duration{}}
	w.B = jitter.NewBuffer(s.D, lat, func(p []jitter.ExtPacket) {
		w.Raw = append(w.Raw, p)
		w.Got = append(w.Got, Got{append([]jitter.ExtPacket(nil), p...), vh.Since0()})
		var ns []uint16
		for _, x := range p {
			ns = append(ns, x.SequenceNumber-s.Base)
		}
		vh.Log(fmt.Sprintf("delivered %v", ns))
	}, jitter.WithPacketLossHandler(func(l, d uint64) {
		w.Losses = append(w.Losses, [2]uint64{l, d})
	}))
	return w
}

// Push pushes packet i, stated to have arrived old ago.
func (w *World) Push(i int, old time.Duration) {
	now := vh.Since0()
	w.What = fmt.Sprintf("push %d (number %d) at %v", i, w.S.Pkts[i].Idx, now)
	if old != 0 {
		w.What += fmt.Sprintf(" arrived %v ago", old)
	}
	vh.Log(w.What)
	w.Arr[i] = append(w.Arr[i], now-old)
	at := jitter.ExtPacket{ReceivedAt: vh.Now().Add(-old), Packet: w.S.Packet(i)}
	switch w.via++; {
	case w.via%4 == 1:
		w.B.PushAt(at.Packet, at.ReceivedAt)
	case w.via%4 == 2:
		w.B.PushExtPacket(at)
	case w.via%4 == 3 && old == 0:
		w.B.Push(at.Packet)
	default:
		w.B.PushExtPacketBatch([]jitter.ExtPacket{at})
	}
	w.R.Advance(now)
	w.R.Push(i, now-old)
	w.R.Advance(now)
}

// Batch pushes packets at once, each stated to have arrived some time ago.
func (w *World) Batch(ix []int, old []time.Duration) {
	now := vh.Since0()
	w.What = fmt.Sprintf("push %v at %v, arrived %v ago", ix, now, old)
	vh.Log(w.What)
	var b []jitter.ExtPacket
	for k, i := range ix {
		w.Arr[i] = append(w.Arr[i], now-old[k])
		b = append(b, jitter.ExtPacket{ReceivedAt: vh.Now().Add(-old[k]), Packet: w.S.Packet(i)})
	}
	w.B.PushExtPacketBatch(b)
	w.R.Advance(now)
	for k, i := range ix {
		w.R.Push(i, now-old[k])
		w.R.Advance(now)
	}
}

// Kept checks that the groups handed out earlier are still what they were.
func (w *World) Kept() {
	for k, g := range w.Raw {
		for j, p := range g {
			if q := w.Got[k].Pkts[j]; p != q {
				vh.Fail("group-changed", "%s: packet %d of group %d has changed since it was handed out: number %d, was %d", w.What, j, k, p.SequenceNumber, q.SequenceNumber)
			}
		}
	}
}

// Wait lets time pass.
func (w *World) Wait(d time.Duration) {
	vh.Sleep(d)
	vh.Settle()
	w.R.Advance(vh.Since0())
}

// Run chooses a history; check is called after every event and once time has passed at the end.
func (c Cfg) Run(check func(w *World, final bool)) {
	w := NewWorld(c.S, c.Lat)
	vh.Settle()
	step := func() {
		w.Wait(3) // a timer set to a time in the past may fire a moment later
		check(w, false)
	}
	for i := 0; i < c.Init; i++ {
		w.Wait(1013 * time.Nanosecond)
		w.Push(i, 0)
		step()
	}
	n := len(c.S.Pkts)
	// packets of the prefix are only pushed again as duplicates of the last one
	lo := max(0, c.Init-1)
	pushed := map[int]bool{}
	nd := max(1, len(c.Delays))
	no := max(1, len(c.Olds))
	extra := len(c.Relat)
	if c.Flush {
		extra++
	}
	for k := 0; k < c.Depth; k++ {
		var v int
		if c.NoDup {
			// one of the packets not yet pushed
			left := make([]int, 0, n)
			for i := lo; i < n; i++ {
				if !pushed[i-lo] && i >= c.Init {
					left = append(left, i-lo)
				}
			}
			if len(left)*no+extra == 0 {
				break
			}
			v = vh.Choose(len(left)*no+extra, "event")
			if v < len(left)*no {
				v = left[v/no]*no + v%no
			} else {
				v += (n - lo - len(left)) * no
			}
		} else {
			v = vh.Choose((n-lo)*no+extra, "event")
		}
		if d := vh.Choose(nd, "delay"); len(c.Delays) > 0 {
			w.Wait(c.Delays[d] + time.Duration(1013+k*17)*time.Nanosecond)
		}
		if v < (n-lo)*no {
			var old time.Duration
			if len(c.Olds) > 0 {
				old = c.Olds[v%no]
			}
			pushed[v/no] = true
			w.Push(lo+v/no, old)
			step()
			continue
		}
		v -= (n - lo) * no
		now := vh.Since0()
		if v < len(c.Relat) {
			w.What = fmt.Sprintf("latency %v at %v", c.Relat[v], now)
			vh.Log(w.What)
			w.B.UpdateLatency(c.Relat[v])
			w.R.Advance(now)
			w.R.Lat = c.Relat[v]
			w.R.Advance(now)
		} else {
			w.What = fmt.Sprintf("flush at %v", now)
			vh.Log(w.What)
			w.B.Flush()
			w.R.Advance(now)
			w.R.Flush()
		}
		step()
	}
	w.What = "waiting at the end"
	w.Wait(10*c.Lat + 10*time.Millisecond)
	check(w, true)
	w.B.Close()
	vh.Settle()
	if n := vh.LiveCount(); n != 0 {
		vh.Fail("leak", "goroutines left after Close: %v", vh.Live())
	}
}

// RunJump pushes the packets before the jump in order (with c.Hold the first of them, and any of the others), those of the
// first sample after it in a chosen order or not at all (pauses only once its start is there), and the later ones in
// order or not at all. c.Dup lets one packet arrive again after any other; c.Flush allows a flush at the end.
func (c Cfg) RunJump(check func(w *World, final bool)) {
	w := NewWorld(c.S, c.Lat)
	vh.Settle()
	again := c.Dup
	var there, missing []int
	push := func(i int) {
		w.Push(i, 0)
		w.Wait(3)
		check(w, false)
		there = append(there, i)
	}
	at := 1
	for c.S.Pkts[at].Idx-c.S.Pkts[at-1].Idx < 3000 {
		at++
	}
	for i := range at {
		if i >= max(1, c.Init) && c.Hold && vh.Choose(2, "lost") == 1 {
			missing = append(missing, i)
			continue
		}
		w.Wait(1013 * time.Nanosecond)
		push(i)
	}
	var first []int
	for i := at; i < len(c.S.Pkts) && c.S.Pkts[i].Sample == c.S.Pkts[at].Sample; i++ {
		first = append(first, i)
	}
	next := at + len(first)
	dup := func() {
		for c.Late && len(missing) > 0 {
			w.Wait(1013 * time.Nanosecond)
			if len(w.R.buf) == 0 || w.R.buf[0].i >= at {
				break
			}
			v := vh.Choose(len(missing)+1, "late")
			if v == 0 {
				break
			}
			push(missing[v-1])
			missing = append(missing[:v-1:v-1], missing[v:]...)
		}
		if !again {
			return
		}
		if v := vh.Choose(len(there)+1, "again"); v > 0 {
			again = false
			w.Wait(1013 * time.Nanosecond)
			push(there[v-1])
		}
	}
	pause := func(k int) {
		w.Wait(c.Delays[vh.Choose(len(c.Delays), "delay")] + time.Duration(1013+k*17)*time.Nanosecond)
	}
	if c.Hold {
		pause(0)
	}
	started := false
	for n := len(first); n > 0; n-- {
		v := vh.Choose(len(first)+1, "next of the sample")
		if v == len(first) {
			break // the others are lost
		}
		if started {
			pause(n)
		} else {
			w.Wait(1013 * time.Nanosecond)
		}
		started = started || first[v] == at
		push(first[v])
		first = append(first[:v:v], first[v+1:]...)
		if started {
			dup()
		}
	}
	if !started {
		w.B.Close()
		return // nobody can tell where it starts
	}
	for i := next; i < len(c.S.Pkts); i++ {
		if vh.Choose(2, "arrives") == 0 {
			pause(i)
			push(i)
			dup()
		}
	}
	if c.Flush && vh.Choose(2, "flush") == 1 {
		w.What = fmt.Sprintf("flush at %v", vh.Since0())
		w.R.Advance(vh.Since0())
		w.B.Flush()
		w.R.Flush()
		check(w, false)
	}
	w.What = "waiting at the end"
	w.Wait(10*c.Lat + 10*time.Millisecond)
	check(w, true)
	w.B.Close()
}

// RunBatch pushes the packets in every order (any of them twice running), cut into batches in every way.
func (c Cfg) RunBatch(check func(w *World, final bool)) {
	w := NewWorld(c.S, c.Lat)
	vh.Settle()
	for i := range c.Init {
		w.Wait(1013 * time.Nanosecond)
		w.Push(i, 0)
		w.Wait(3)
		check(w, false)
	}
	var left, ix []int
	for i := c.Init; i < len(c.S.Pkts); i++ {
		left = append(left, i)
	}
	var old []time.Duration
	batch := func() {
		w.Wait(c.Delays[vh.Choose(len(c.Delays), "delay")] + time.Duration(1013+len(left)*17)*time.Nanosecond)
		w.Batch(ix, old)
		w.Wait(3)
		check(w, false)
		ix, old = nil, nil
	}
	for len(left) > 0 {
		v := vh.Choose(len(left), "next")
		i := left[v]
		left = append(left[:v:v], left[v+1:]...)
		o := c.Olds[vh.Choose(len(c.Olds), "arrived")]
		ix, old = append(ix, i), append(old, o)
		if c.Dup && vh.Choose(2, "again") == 1 {
			ix, old = append(ix, i), append(old, o)
		}
		if len(left) > 0 && vh.Choose(2, "batch ends") == 1 {
			batch()
		}
	}
	batch()
	w.What = "waiting at the end"
	w.Wait(10*c.Lat + 10*time.Millisecond)
	check(w, true)
	w.B.Close()
}

// Many builds a stream of samples of per packets each, n packets in all.
func Many(n, per int, base uint16) *Stream {
	s := &Stream{Name: fmt.Sprintf("%dx%d@%d", n/per, per, base), Base: base, D: &Depack{}}
	for i := 0; i < n/per*per; i++ {
		if i%per == 0 {
			s.Samples = append(s.Samples, nil)
		}
		k := i / per
		s.Pkts = append(s.Pkts, Pkt{Idx: i, Start: i%per == 0, End: i%per == per-1, Sample: k})
		s.Samples[k] = append(s.Samples[k], i)
	}
	return s
}

// RunMany pushes the first sample, and the other packets in one of several orders, all of them, or all but some, those
// arriving last or not at all, at one of several paces.
func (c Cfg) RunMany(check func(w *World, final bool)) {
	w := NewWorld(c.S, c.Lat)
	vh.Settle()
	n := len(c.S.Pkts)
	for i := range c.Init {
		w.Wait(1013 * time.Nanosecond)
		w.Push(i, 0)
	}
	var order []int
	switch vh.Choose(6, "order") {
	case 0: // in order
		for i := c.Init; i < n; i++ {
			order = append(order, i)
		}
	case 1: // the last one first
		for i := n - 1; i >= c.Init; i-- {
			order = append(order, i)
		}
	case 2: // every other one, then the others
		for k := range 2 {
			for i := c.Init + 1 - k; i < n; i += 2 {
				order = append(order, i)
			}
		}
	case 3: // the second half first
		for i := range n - c.Init {
			order = append(order, c.Init+(i+(n-c.Init)/2)%(n-c.Init))
		}
	case 4: // from the middle outwards
		m := (c.Init + n) / 2
		for d := 0; d < n; d++ {
			if m+d < n {
				order = append(order, m+d)
			}
			if d > 0 && m-d >= c.Init {
				order = append(order, m-d)
			}
		}
	case 5: // groups of seven, each backwards
		for i := c.Init; i < n; i += 7 {
			for k := min(n, i+7) - 1; k >= i; k-- {
				order = append(order, k)
			}
		}
	}
	missing := map[int]bool{}
	switch vh.Choose(4, "missing") {
	case 1:
		missing[c.Init] = true
	case 2:
		missing[(c.Init+n)/2] = true
	case 3:
		for i := c.Init + 3; i < n; i += 11 {
			missing[i] = true
		}
	}
	late := len(missing) > 0 && vh.Choose(2, "late") == 1
	pace := []time.Duration{1013, 700013, 21 * time.Millisecond}[vh.Choose(3, "pace")]
	push := func(i int) {
		w.Wait(pace)
		w.Push(i, 0)
	}
	for k, i := range order {
		if !missing[i] {
			push(i)
		}
		if k%41 == 40 {
			w.Wait(3)
			check(w, false)
		}
	}
	w.Wait(3)
	check(w, false)
	if late {
		for i := range n {
			if missing[i] {
				push(i)
			}
		}
		w.Wait(3)
		check(w, false)
	}
	w.What = "waiting at the end"
	w.Wait(10*c.Lat + 10*time.Millisecond)
	check(w, true)
	w.B.Close()
}
