// C09: the sample pipe under every interleaving of writers, readers and closers.
package main

import (
	"errors"
	"fmt"
	"io"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/vh"
)

var (
	errR1 = errors.New("r1")
	errR2 = errors.New("r2")
	errW1 = errors.New("w1")
	errW2 = errors.New("w2")
)

type wres struct {
	data msdk.PCM16Sample
	err  error
}

type world struct {
	r *msdk.PipeReader[msdk.PCM16Sample, int16]
	w *msdk.PipeWriter[msdk.PCM16Sample, int16]
	// reads in the order their calls returned
	chunks [][]int16
	rerrs  []error
	writes []wres
	bufs   []msdk.PCM16Sample // every buffer given to a read
}

func newWorld() *world {
	r, w := msdk.Pipe[msdk.PCM16Sample, int16](48000)
	if w.SampleRate() != 48000 {
		vh.Fail("rate", "sample rate %d", w.SampleRate())
	}
	return &world{r: r, w: w}
}

const blank = int16(-1)

func (w *world) read(n int) (int, error) {
	b := make(msdk.PCM16Sample, n+1)
	for i := range b {
		b[i] = blank
	}
	vh.Atomic(func() { w.bufs = append(w.bufs, b[:n]) })
	k, err := w.r.ReadSample(b[:n])
	if b[n] != blank || k < 0 || k > n {
		vh.Fail("beyond", "read into %d samples returned %d and touched %v", n, k, b)
	}
	for i := k; i < n; i++ {
		if b[i] != blank {
			vh.Fail("beyond", "read returned %d but wrote %v", k, b[:n])
		}
	}
	if err != nil && k != 0 {
		vh.Fail("both", "read returned %d samples and error %v", k, err)
	}
	vh.Atomic(func() {
		if err == nil {
			w.chunks = append(w.chunks, append([]int16(nil), b[:k]...))
		} else {
			w.rerrs = append(w.rerrs, err)
		}
	})
	return k, err
}

// write writes n samples id*10.. and, when strict, checks that all of them had been read on success.
func (w *world) write(id, n int, strict bool) error {
	d := make(msdk.PCM16Sample, n)
	for i := range d {
		d[i] = int16(id*10 + i)
	}
	keep := append(msdk.PCM16Sample(nil), d...)
	err := w.w.WriteSample(d)
	for i := range d {
		if d[i] != keep[i] {
			vh.Fail("altered", "write changed the caller's samples")
		}
	}
	vh.Atomic(func() { w.writes = append(w.writes, wres{keep, err}) })
	if strict && err == nil {
		for _, v := range keep {
			ok := false
			for _, b := range w.bufs {
				for _, x := range b {
					ok = ok || x == v
				}
			}
			if !ok {
				vh.Fail("unread", "write of %v returned success before %d was read", keep, v)
			}
		}
	}
	return err
}

// judge compares what was read with what was written. ordered: one reader, so chunks are in transfer order.
func (w *world) judge(ordered bool) {
	seen := map[int16]int{}
	total := 0
	for _, c := range w.chunks {
		id := -1
		for i, v := range c {
			seen[v]++
			total++
			if id >= 0 && int(v)/10 != id {
				vh.Fail("mixed", "one read returned samples of two writes: %v", c)
			}
			id = int(v) / 10
			if i > 0 && c[i] != c[i-1]+1 {
				vh.Fail("order", "read returned %v", c)
			}
		}
	}
	for v, n := range seen {
		if n > 1 {
			vh.Fail("twice", "sample %d read %d times: %v", v, n, w.chunks)
		}
	}
	for _, wr := range w.writes {
		n := 0
		for i, v := range wr.data {
			if seen[v] > 0 {
				n++
				if n != i+1 {
					vh.Fail("gap", "of write %v sample %d was read but not the one before", wr.data, v)
				}
			}
		}
		total -= n
		if wr.err == nil && n != len(wr.data) {
			vh.Fail("lost", "write of %v succeeded, read was %v", wr.data, w.chunks)
		}
	}
	if total != 0 {
		vh.Fail("invented", "read samples nobody wrote: %v", w.chunks)
	}
	if ordered {
		var flat []int16
		for _, c := range w.chunks {
			flat = append(flat, c...)
		}
		done := map[int]bool{}
		for i, v := range flat {
			id := int(v) / 10
			if i > 0 && int(flat[i-1])/10 == id {
				if v != flat[i-1]+1 {
					vh.Fail("order", "read %v", flat)
				}
				continue
			}
			if done[id] || int(v)%10 != 0 {
				vh.Fail("interleaved", "writes interleaved: read %v", flat)
			}
			done[id] = true
		}
	}
}

func (w *world) quiet() {
	vh.Settle()
	if vh.LiveCount() != 0 {
		vh.Fail("stuck", "calls stay blocked: %v", vh.Live())
	}
}

// long writes n samples a number of times, read k at a time.
func long(times, n, k int) {
	pr, pw := msdk.Pipe[msdk.PCM16Sample, int16](8000)
	val := func(t, i int) int16 { return int16(uint16(i*7 + t)) }
	j := vh.Spawn("writer", func() {
		for t := range times {
			d := make(msdk.PCM16Sample, n)
			for i := range d {
				d[i] = val(t, i)
			}
			if err := pw.WriteSample(d); err != nil {
				vh.Fail("error", "write %d of %d samples: %v", t, n, err)
			}
		}
		pw.Close()
	})
	b := make(msdk.PCM16Sample, k)
	for t := range times {
		for pos := 0; pos < n; {
			c, err := pr.ReadSample(b)
			if err != nil || c != min(k, n-pos) {
				vh.Fail("read", "%d writes of %d samples read %d at a time: read %d, %v at sample %d of write %d", times, n, k, c, err, pos, t)
				pr.Close()
				j()
				return
			}
			for i := range c {
				if b[i] != val(t, pos+i) {
					vh.Fail("content", "%d writes of %d samples read %d at a time: sample %d of write %d is %d", times, n, k, pos+i, t, b[i])
					pr.Close()
					j()
					return
				}
			}
			pos += c
		}
	}
	if c, err := pr.ReadSample(b); c != 0 || err != io.EOF {
		vh.Fail("end", "at the end: %d, %v", c, err)
	}
	j()
	vh.Note("%d %d", n, k)
}

func main() {
	var sc []vh.Scenario
	// q, t: preemption bounds of the tiers, -1 for every interleaving
	add := func(name string, race bool, q, t int, body func()) {
		sc = append(sc, vh.Scenario{Name: name, Race: race, Run: func(r *vh.R) {
			o := vh.Opt{Bound: r.Pick(q, t)}
			if !race || name == "2-writers-2-readers" {
				o.Delay = true
			}
			r.Explore(o, body)
		}})
	}
	// every combination of sizes, one writer and one reader; two writes
	add("sizes", false, 2, 3, func() {
		w := newWorld()
		n1, n2 := vh.Choose(5, "write1"), vh.Choose(4, "write2")
		k := 1 + vh.Choose(5, "read")
		alt := vh.Choose(3, "alt")
		j := vh.Spawn("writer", func() {
			if w.write(1, n1, true) != nil || w.write(2, n2, true) != nil {
				vh.Fail("error", "write failed on an open pipe")
			}
			w.w.Close()
		})
		for i := 0; ; i++ {
			sz := k
			if i%2 == 1 {
				sz = alt // 0: same buffer sizes alternate with empty reads
			}
			if _, err := w.read(sz); err != nil {
				if err != io.EOF {
					vh.Fail("error", "read after close: %v, want EOF", err)
				}
				break
			}
		}
		j()
		w.judge(true)
		n := 0
		for _, c := range w.chunks {
			n += len(c)
		}
		if n != n1+n2 {
			vh.Fail("lost", "wrote %d+%d samples, read %d", n1, n2, n)
		}
		if _, err := w.read(3); err != io.EOF {
			vh.Fail("error", "second read after close: %v", err)
		}
		w.quiet()
	})
	// exact chunking: a read returns as much as fits of the current write
	add("chunking", false, 2, 3, func() {
		w := newWorld()
		n := 1 + vh.Choose(5, "write")
		j := vh.Spawn("writer", func() { w.write(1, n, true); w.write(2, 2, true) })
		left, zero := n, 0
		for left > 0 {
			k := vh.Choose(4-zero, "read") + zero
			zero = 0
			if k == 0 {
				zero = 1 // at most one empty read in a row
			}
			got, err := w.read(k)
			if err != nil || got != min(k, left) {
				vh.Fail("chunk", "%d of the write left, read of %d returned %d, %v", left, k, got, err)
			}
			left -= got
		}
		if got, err := w.read(9); got != 2 || err != nil {
			vh.Fail("chunk", "read of the next write: %d, %v", got, err)
		}
		j()
		w.judge(true)
	})
	for _, nw := range []int{2, 3} {
		add(fmt.Sprintf("%d-writers", nw), true, -1, -1, func() {
			w := newWorld()
			var js []func()
			sizes := [][]int{{3, 2}, {2, 1, 1}}[nw-2]
			for i := 0; i < nw; i++ {
				js = append(js, vh.Spawn(fmt.Sprint("w", i), func() {
					if w.write(i+1, sizes[i], false) != nil {
						vh.Fail("error", "write failed on an open pipe")
					}
				}))
			}
			for n := 0; n < []int{5, 4}[nw-2]; {
				k, err := w.read(2)
				if err != nil {
					vh.Fail("error", "read failed on an open pipe")
				}
				n += k
			}
			for _, j := range js {
				j()
			}
			w.judge(true)
			w.quiet()
		})
	}
	// one end closed by two goroutines with errors of their own: the other end sees one of them only
	add("closed-by-two", true, -1, -1, func() {
		w := newWorld()
		reader := vh.Choose(2, "end") == 1
		cl := func(err error) func() {
			return func() {
				if reader {
					w.r.CloseWithError(err)
				} else {
					w.w.CloseWithError(err)
				}
			}
		}
		a, b := vh.Spawn("a", cl(errors.New("a"))), vh.Spawn("b", cl(errors.New("b")))
		var seen []error
		for i := range 4 {
			var err error
			if reader {
				err = w.w.WriteSample(msdk.PCM16Sample{1})
			} else {
				_, err = w.r.ReadSample(make(msdk.PCM16Sample, 1))
			}
			seen = append(seen, err)
			if i == 2 {
				a()
				b()
			}
		}
		vh.Note("%v", seen)
		for _, e := range seen {
			if e == nil || e != seen[0] || e.Error() != "a" && e.Error() != "b" {
				vh.Fail("error", "one end closed with errors a and b at the same time: the calls of the other got %v", seen)
			}
		}
		w.quiet()
	})
	// a write whose samples were all read has succeeded, whatever is closed from then on
	add("read-then-close", true, -1, -1, func() {
		w := newWorld()
		n := vh.Choose(4, "write")
		how := vh.Choose(4, "how")
		a := vh.Spawn("w", func() {
			if err := w.write(1, n, false); err != nil {
				vh.Fail("lost-success", "all of a write of %d was read, then the pipe closed (%d); the write got %v", n, how, err)
			}
		})
		for left := n; ; {
			k, err := w.read(2)
			if err != nil {
				vh.Fail("error", "read: %v", err)
			}
			if left -= k; left <= 0 {
				break
			}
		}
		switch how {
		case 0:
			w.r.Close()
		case 1:
			w.r.CloseWithError(errR1)
		case 2:
			w.w.Close()
		case 3:
			w.w.CloseWithError(errW1)
		}
		a()
		w.judge(true)
		w.quiet()
	})
	add("2-writers-2-readers", true, 4, 6, func() {
		w := newWorld()
		a := vh.Spawn("w1", func() { w.write(1, 2, false) })
		b := vh.Spawn("w2", func() { w.write(2, 1, false) })
		rd := func(k int) func() {
			return func() {
				for {
					if _, err := w.read(k); err != nil {
						if err != io.EOF {
							vh.Fail("error", "read: %v", err)
						}
						return
					}
				}
			}
		}
		c := vh.Spawn("r1", rd(2))
		d := vh.Spawn("r2", rd(1))
		a()
		b()
		w.w.Close()
		c()
		d()
		w.judge(false)
		for _, x := range w.writes {
			if x.err != nil {
				vh.Fail("error", "write: %v", x.err)
			}
		}
		w.quiet()
	})
	// closing at any moment; who closes with what
	type cl struct {
		name string
		f    func(w *world)
		// errors allowed for reads and writes
		re, we error
	}
	cls := []cl{
		{"writer", func(w *world) { w.w.Close() }, io.EOF, io.ErrClosedPipe},
		{"writer-err", func(w *world) { w.w.CloseWithError(errW1) }, errW1, io.ErrClosedPipe},
		{"reader", func(w *world) { w.r.Close() }, io.ErrClosedPipe, io.ErrClosedPipe},
		{"reader-err", func(w *world) { w.r.CloseWithError(errR1) }, io.ErrClosedPipe, errR1},
		{"writer-twice", func(w *world) { w.w.CloseWithError(errW1); w.w.CloseWithError(errW2); w.w.Close() }, errW1, io.ErrClosedPipe},
		{"reader-twice", func(w *world) { w.r.CloseWithError(errR1); w.r.Close(); w.r.CloseWithError(errR2) }, io.ErrClosedPipe, errR1},
	}
	for _, c := range cls {
		add("close-"+c.name, true, 1, 2, func() {
			w := newWorld()
			a := vh.Spawn("w", func() {
				for i := 1; i <= 2; i++ {
					if err := w.write(i, 3, false); err != nil {
						if err != c.we {
							vh.Fail("write-error", "write got %v, want %v", err, c.we)
						}
					}
				}
			})
			b := vh.Spawn("r", func() {
				for i := 0; i < 3; i++ {
					if _, err := w.read(2); err != nil && err != c.re {
						vh.Fail("read-error", "read got %v, want %v", err, c.re)
					}
				}
			})
			d := vh.Spawn("close", func() {
				c.f(w)
				if _, err := w.read(1); err != c.re {
					vh.Fail("read-error", "read after close got %v, want %v", err, c.re)
				}
				if err := w.write(9, 1, false); err != c.we {
					vh.Fail("write-error", "write after close got %v, want %v", err, c.we)
				}
			})
			d()
			a()
			b()
			w.judge(true)
			w.quiet()
		})
		add("close-short-"+c.name, true, -1, -1, func() {
			w := newWorld()
			a := vh.Spawn("w", func() {
				if err := w.write(1, 3, false); err != nil && err != c.we {
					vh.Fail("write-error", "write got %v, want %v", err, c.we)
				}
			})
			b := vh.Spawn("r", func() {
				for i := 0; i < 2; i++ {
					if _, err := w.read(2); err != nil && err != c.re {
						vh.Fail("read-error", "read got %v, want %v", err, c.re)
					}
				}
			})
			c.f(w)
			a()
			b()
			w.judge(true)
			w.quiet()
		})
		add("close-blocked-"+c.name, true, -1, -1, func() {
			w := newWorld()
			rd := vh.Choose(2, "reader") == 0
			var js []func()
			for i := 0; i < 2; i++ {
				js = append(js, vh.Spawn(fmt.Sprint("blocked", i), func() {
					if rd {
						if _, err := w.read(2); err != c.re {
							vh.Fail("read-error", "blocked read got %v, want %v", err, c.re)
						}
					} else if err := w.write(i+1, 2, false); err != c.we {
						vh.Fail("write-error", "blocked write got %v, want %v", err, c.we)
					}
				}))
			}
			c.f(w)
			for _, j := range js {
				j()
			}
			w.quiet()
		})
	}
	add("close-both-ends", true, -1, -1, func() {
		w := newWorld()
		a := vh.Spawn("w", func() {
			if err := w.write(1, 3, false); err != nil && err != io.ErrClosedPipe && err != errR1 {
				vh.Fail("write-error", "write got %v", err)
			}
			w.w.CloseWithError(errW1)
			if err := w.write(2, 1, false); err != io.ErrClosedPipe {
				vh.Fail("write-error", "write after closing got %v", err)
			}
		})
		b := vh.Spawn("r", func() {
			if _, err := w.read(2); err != nil && err != errW1 {
				vh.Fail("read-error", "read got %v", err)
			}
			w.r.CloseWithError(errR1)
			if _, err := w.read(2); err != io.ErrClosedPipe {
				vh.Fail("read-error", "read after closing got %v", err)
			}
		})
		a()
		b()
		w.judge(true)
		w.quiet()
	})
	// every sequence of closes and calls on a closed pipe
	// long writes read in pieces of any size, and many of them
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		for _, n := range []int{63, 64, 65, 255, 1000, 1024, 4096, 5000, 1 << 16, 100000} {
			for _, k := range []int{1, 2, 7, 100, 1023, 4096, 4097, 1<<16 - 1, 1 << 17} {
				if n/k > 5000 {
					continue
				}
				r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 1 << 20}, func() { long(1+5000/n, n, k) })
				r.Trace()
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "close-sequences", Run: func(r *vh.R) {
		n := r.Pick(5, 7)
		r.Explore(vh.Opt{Bound: 0}, func() {
			w := newWorld()
			var re, we error
			for k := 0; k < n; k++ {
				op := vh.Choose(8, "op")
				open := re == nil && we == nil
				set := func(p *error, e error) {
					if *p == nil {
						*p = e
					}
				}
				switch op {
				case 0:
					w.r.Close()
					set(&re, io.ErrClosedPipe)
				case 1:
					w.r.CloseWithError(errR1)
					set(&re, errR1)
				case 2:
					w.r.CloseWithError(errR2)
					set(&re, errR2)
				case 3:
					w.w.Close()
					set(&we, io.EOF)
				case 4:
					w.w.CloseWithError(errW1)
					set(&we, errW1)
				case 5:
					w.w.CloseWithError(errW2)
					set(&we, errW2)
				case 6:
					if open {
						continue
					}
					want := we
					if re != nil {
						want = io.ErrClosedPipe
					}
					if n, err := w.read(1); n != 0 || err != want {
						vh.Fail("read-error", "read got %d, %v, want %v", n, err, want)
					}
				case 7:
					if open {
						continue
					}
					want := re
					if we != nil {
						want = io.ErrClosedPipe
					}
					if err := w.write(1, k%3, false); err != want {
						vh.Fail("write-error", "write got %v, want %v", err, want)
					}
				}
			}
		})
	}})
	vh.Main(vh.Check{ID: "C09", Level: "model_checking",
		Rule:        "every interleaving of small programs of writers, readers and closers on the real pipe under a controlled scheduler; every sequence of closes; the same programs also under the race detector",
		Assumptions: []string{"sequentially consistent memory for race-free programs (races are looked for separately)", "writes of up to 5 samples"},
		Scenarios:   sc})
}
