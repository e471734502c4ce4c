// C01: the ring buffer against a slice, over every reachable configuration and every operation sequence.
package main

import (
	"fmt"
	"io"
	"slices"

	"github.com/livekit/media-sdk/ring"
	"github.com/livekit/media-sdk/vh"
)

// ref is the reference: a bounded FIFO.
type ref struct {
	sz int
	q  []int
}

func (m *ref) push(v int) {
	m.q = append(m.q, v)
	if len(m.q) > m.sz {
		m.q = m.q[len(m.q)-m.sz:]
	}
}

// op kinds: 0 TryPush 1 Push 2 TryPop 3 Pop 4 TryPeek 5 Peek 6..6+K Read(k) then Write(k)
type opset struct {
	maxR, maxW int
}

func (o opset) n() int { return 6 + o.maxR + 1 + o.maxW + 1 }

func (o opset) name(op int) string {
	switch op {
	case 0:
		return "TryPush"
	case 1:
		return "Push"
	case 2:
		return "TryPop"
	case 3:
		return "Pop"
	case 4:
		return "TryPeek"
	case 5:
		return "Peek"
	}
	op -= 6
	if op <= o.maxR {
		return fmt.Sprintf("Read(%d)", op)
	}
	return fmt.Sprintf("Write(%d)", op-o.maxR-1)
}

// apply runs one operation on both and returns a description of a disagreement.
func (o opset) apply(b *ring.Buffer[int], m *ref, op int, next *int) string {
	bad := func(f string, a ...any) string { return o.name(op) + ": " + fmt.Sprintf(f, a...) }
	switch op {
	case 0:
		*next++
		ok := b.TryPush(*next)
		if want := len(m.q) < m.sz; ok != want {
			return bad("got %v, want %v", ok, want)
		}
		if ok {
			m.push(*next)
		}
	case 1:
		*next++
		b.Push(*next)
		m.push(*next)
	case 2, 3, 4, 5:
		var v int
		ok := len(m.q) > 0
		want := 0
		if ok {
			want = m.q[0]
		}
		got := ok
		switch op {
		case 2:
			v, got = b.TryPop()
		case 3:
			v = b.Pop()
		case 4:
			v, got = b.TryPeek()
		case 5:
			v = b.Peek()
		}
		if v != want || got != ok {
			return bad("got %d,%v want %d,%v", v, got, want, ok)
		}
		if ok && op <= 3 {
			m.q = m.q[1:]
		}
	default:
		k := op - 6
		if k <= o.maxR {
			const guard = -7
			p := make([]int, k+2)
			for i := range p {
				p[i] = guard
			}
			n, err := b.Read(p[:k])
			wn := min(k, len(m.q))
			if n != wn {
				return bad("returned %d elements, %d held", n, len(m.q))
			}
			if k > 0 && len(m.q) == 0 {
				if err != io.EOF {
					return bad("empty buffer: err=%v, want io.EOF", err)
				}
			} else if err != nil {
				return bad("err=%v with %d held", err, len(m.q))
			}
			for i := 0; i < n; i++ {
				if p[i] != m.q[i] {
					return bad("element %d is %d, want %d", i, p[i], m.q[i])
				}
			}
			for i := k; i < len(p); i++ {
				if p[i] != guard {
					return bad("wrote past the slice")
				}
			}
			m.q = m.q[n:]
		} else {
			k -= o.maxR + 1
			p := make([]int, k)
			for i := range p {
				*next++
				p[i] = *next
			}
			n, err := b.Write(p)
			if n != k || err != nil {
				return bad("returned %d,%v", n, err)
			}
			for i, v := range p {
				m.push(v)
				p[i] = -99 // the caller may reuse its slice
			}
		}
	}
	if b.Len() != len(m.q) {
		return bad("Len()=%d, holds %d", b.Len(), len(m.q))
	}
	if b.Size() != m.sz {
		return bad("Size()=%d want %d", b.Size(), m.sz)
	}
	return ""
}

// drain compares the whole content.
func drain(b *ring.Buffer[int], m *ref) string {
	for i := 0; ; i++ {
		v, ok := b.TryPop()
		if ok != (len(m.q) > 0) {
			return fmt.Sprintf("final drain: element %d present=%v, want %v", i, ok, len(m.q) > 0)
		}
		if !ok {
			return ""
		}
		if v != m.q[0] {
			return fmt.Sprintf("final drain: element %d is %d, want %d", i, v, m.q[0])
		}
		m.q = m.q[1:]
	}
}

// prep brings a fresh buffer into the configuration (read offset, length).
func prep(sz, off, ln int, next *int) (*ring.Buffer[int], *ref) {
	b, m := ring.NewBuffer[int](sz), &ref{sz: sz}
	for i := 0; i < off; i++ {
		*next++
		b.TryPush(*next)
		b.TryPop()
	}
	for i := 0; i < ln; i++ {
		*next++
		b.TryPush(*next)
		m.push(*next)
	}
	return b, m
}

func main() {
	var sc []vh.Scenario
	// every configuration (size, read offset, fill) followed by every operation sequence
	for sz := 1; sz <= 6; sz++ {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("configurations-size-%d", sz), Run: func(r *vh.R) {
			o := opset{maxR: sz + 1, maxW: 2*sz + 1}
			depth := r.Pick(4, 4)
			if sz == 4 {
				depth = r.Pick(3, 4)
			}
			if sz >= 5 {
				depth = r.Pick(3, 3)
			}
			for off := 0; off < sz; off++ {
				for ln := 0; ln <= sz; ln++ {
					vh.Seqs(depth, o.n(), func(seq []int) bool {
						next := 0
						b, m := prep(sz, off, ln, &next)
						r.State(sz, off, ln)
						for i, op := range seq {
							var d string
							r.Guard("panic", fmt.Sprintf("size %d offset %d len %d ops %v", sz, off, ln, names(o, seq[:i+1])), func() { d = o.apply(b, m, op, &next) })
							r.Step(1)
							r.State(sz, off, ln, seq[:i+1])
							if d != "" {
								r.Fail("diverged", "ring size %d, read offset %d, %d held, then %v: %s", sz, off, ln, names(o, seq[:i+1]), d)
							}
							if r.Failed() {
								return false
							}
						}
						if d := drain(b, m); d != "" {
							r.Fail("diverged", "ring size %d, read offset %d, %d held, then %v: %s", sz, off, ln, names(o, seq), d)
						}
						r.Trace()
						return !r.Stop()
					})
				}
			}
			r.Sample("size %d: every read offset x fill x %d-step sequence of %d operations", sz, depth, o.n())
		}})
	}
	// longer histories with a smaller alphabet, from the empty buffer
	for sz := 1; sz <= 4; sz++ {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("histories-size-%d", sz), Run: func(r *vh.R) {
			o := opset{maxR: sz + 1, maxW: 2*sz + 1}
			// Push, TryPush, TryPop, TryPeek, Read 1/sz-1/sz, Write 1/sz-1/sz/sz+1
			alpha := []int{1, 0, 2, 6 + 1, 6 + sz, 6 + o.maxR + 1 + 1, 6 + o.maxR + 1 + sz, 6 + o.maxR + 1 + sz + 1}
			if sz > 2 {
				alpha = append(alpha, 6+sz-1, 6+o.maxR+1+sz-1)
			}
			depth := r.Pick(6, 7)
			vh.Seqs(depth, len(alpha), func(seq []int) bool {
				next := 0
				b, m := prep(sz, 0, 0, &next)
				ops := make([]int, len(seq))
				for i, s := range seq {
					ops[i] = alpha[s]
				}
				for i, op := range ops {
					var d string
					r.Guard("panic", fmt.Sprintf("size %d ops %v", sz, names(o, ops[:i+1])), func() { d = o.apply(b, m, op, &next) })
					r.Step(1)
					if d != "" {
						r.Fail("diverged", "ring size %d: %v: %s", sz, names(o, ops[:i+1]), d)
					}
					if r.Failed() {
						return false
					}
				}
				r.State(sz, b.Len(), seq)
				if d := drain(b, m); d != "" {
					r.Fail("diverged", "ring size %d: %v: %s", sz, names(o, ops), d)
				}
				r.Trace()
				return !r.Stop()
			})
			r.Sample("size %d: all %d-step histories over %v", sz, depth, names(o, alpha))
		}})
	}
	// large buffers: all (offset, fill) around the wrap, all bulk sizes around the boundaries
	bulk := func(name string, depth int, sizes []int, far ...int) {
		sc = append(sc, vh.Scenario{Name: name, Run: func(r *vh.R) {
			for _, sz := range sizes {
				bulkSize(r, sz, depth, far)
			}
		}})
	}
	bulk("bulk-large", 2, []int{64, 960})
	bulk("bulk-huge", 1, []int{1000, 1024, 4096, 5000, 16384, 1 << 16, 100000})
	bulk("bulk-far", 2, []int{1, 7, 64}, 10, 300, 1000, 1<<12, 1<<15, 1<<16+9)
	vh.Main(vh.Check{ID: "C01", Level: "model_checking",
		Rule: "bounded exhaustive operation histories on the real buffer compared step by step with a slice reference", Scenarios: sc})
}

// bulkSize runs every sequence of depth bulk operations on a buffer of one size; far adds sizes to write.
func bulkSize(r *vh.R, sz, depth int, far []int) {
	o := opset{maxR: sz + 1, maxW: 2*sz + 1}
	for _, f := range far {
		o.maxW = max(o.maxW, f*sz)
	}
	edge := []int{0, 1, sz/2 - 1, sz / 2, sz/2 + 1, sz - 1, sz}
	if sz < 4 {
		edge = edge[:0]
		for i := 0; i <= sz; i++ {
			edge = append(edge, i)
		}
	}
	wr := []int{1, sz/2 - 1, sz / 2, sz - 1, sz, sz + 1, 2*sz - 1, 2 * sz, 2*sz + 1}
	rd := []int{1, sz / 2, sz - 1, sz, sz + 1}
	if len(far) != 0 {
		wr = append([]int{1, sz}, far...)
		for _, f := range far[:2] {
			wr = append(wr, f*sz, f*sz+1)
		}
	}
	slices.Sort(wr)
	wr = slices.DeleteFunc(slices.Compact(wr), func(n int) bool { return n < 0 })
	var ops []int
	for _, w := range wr {
		ops = append(ops, 6+o.maxR+1+w)
	}
	for _, v := range rd {
		ops = append(ops, 6+v)
	}
	for _, off := range edge {
		if off == sz {
			continue
		}
		for _, ln := range edge {
			vh.Seqs(depth, len(ops), func(seq []int) bool {
				next := 0
				b, m := prep(sz, off, ln, &next)
				for i, s := range seq {
					d := ""
					r.Guard("panic", fmt.Sprintf("size %d offset %d len %d op %s", sz, off, ln, o.name(ops[s])), func() { d = o.apply(b, m, ops[s], &next) })
					r.Step(1)
					r.State(sz, off, ln, seq[:i+1])
					if d != "" {
						r.Fail("diverged", "ring size %d, read offset %d, %d held: %s", sz, off, ln, d)
					}
					if r.Failed() {
						return false
					}
				}
				if d := drain(b, m); d != "" {
					r.Fail("diverged", "ring size %d, read offset %d, %d held, %v: %s", sz, off, ln, names(o, picked(ops, seq)), d)
				}
				r.Trace()
				return !r.Stop()
			})
		}
	}
}

func names(o opset, ops []int) (out []string) {
	for _, op := range ops {
		out = append(out, o.name(op))
	}
	return
}

func picked(ops, seq []int) (out []int) {
	for _, i := range seq {
		out = append(out, ops[i])
	}
	return
}
