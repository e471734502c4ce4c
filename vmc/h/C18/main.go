// C18: the RTP mux routes packets by payload type.
package main

import (
	"errors"
	"fmt"
	"slices"
	"strings"
	"sync"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

type got struct {
	id      string
	typ     byte
	seq     uint16
	payload string
}

type handler struct {
	id  string
	log *[]got
	err error
	do  func()
}

func (h *handler) String() string { return h.id }
func (h *handler) HandleRTP(hd *prtp.Header, payload []byte) error {
	g := got{h.id, hd.PayloadType, hd.SequenceNumber, string(payload)}
	vh.Atomic(func() { *h.log = append(*h.log, g) })
	if h.do != nil {
		h.do()
	}
	return h.err
}

// ref is the reference routing table.
type ref struct {
	m   map[byte]rtp.Handler
	def rtp.Handler
}

func (f *ref) route(t byte) rtp.Handler {
	if h := f.m[t]; h != nil {
		return h
	}
	return f.def
}

func main() {
	var sc []vh.Scenario
	// every sequence of table changes; after each one every payload type is tried
	hist := func(types []byte, n int) func(r *vh.R) {
		return func(r *vh.R) {
			type op struct {
				name string
				typ  int // -1: default
				h    int // -1: nil
			}
			var ops []op
			for _, t := range types {
				for h := -1; h < 2; h++ {
					ops = append(ops, op{fmt.Sprintf("register(%d,%d)", t, h), int(t), h})
				}
			}
			for h := -1; h < 1; h++ {
				ops = append(ops, op{fmt.Sprintf("default(%d)", h), -1, h})
			}
			for def := 0; def < 2; def++ {
				for m := 0; m <= n; m++ {
					if !vh.Seqs(m, len(ops), func(q []int) bool {
						r.Case()
						names := []string{fmt.Sprintf("default at start %v:", def == 1)}
						for _, x := range q {
							names = append(names, ops[x].name)
						}
						ok := r.Guard("panic", fmt.Sprint(names), func() {
							var log []got
							hs := []rtp.Handler{&handler{id: "h0", log: &log}, &handler{id: "h1", log: &log, err: errors.New("h1 failed")}}
							d := &handler{id: "def", log: &log, err: errors.New("def failed")}
							f := &ref{m: map[byte]rtp.Handler{}}
							if def == 1 {
								f.def = d
							}
							mux := rtp.NewMux(f.def)
							for k := -1; k < len(q); k++ {
								if k >= 0 {
									o := ops[q[k]]
									var h rtp.Handler
									if o.h >= 0 {
										h = hs[o.h]
									}
									if o.typ < 0 {
										if o.h >= 0 {
											h = d
										}
										mux.SetDefault(h)
										f.def = h
									} else {
										mux.Register(byte(o.typ), h)
										f.m[byte(o.typ)] = h
									}
									if k < len(q)-1 && k > 1 {
										continue // shorter sequences were judged by themselves
									}
								}
								for t := 0; t < 256; t++ {
									log = log[:0]
									hd := prtp.Header{PayloadType: byte(t), SequenceNumber: uint16(t * 3), Timestamp: 7, SSRC: 9}
									keep := hd
									err := mux.HandleRTP(&hd, []byte{byte(t), 5})
									want := f.route(byte(t))
									if want == nil {
										if len(log) != 0 || err != nil {
											r.Fail("dropped", "%v: after %d changes type %d went to %v, error %v", names, k+1, t, log, err)
										}
										continue
									}
									w := want.(*handler)
									if len(log) != 1 || log[0] != (got{w.id, byte(t), uint16(t * 3), string([]byte{byte(t), 5})}) {
										r.Fail("route", "%v: after %d changes type %d went to %v, want %s", names, k+1, t, log, w.id)
									}
									if err != w.err {
										r.Fail("result", "%v: type %d returned %v, handler returned %v", names, t, err, w.err)
									}
									if fmt.Sprint(hd) != fmt.Sprint(keep) {
										r.Fail("header", "the mux changed the header")
									}
								}
							}
							_ = mux.String()
						})
						r.Step(m)
						r.State(def, names)
						r.Nontrivial(def, names)
						r.Trace()
						return ok && !r.Stop()
					}) {
						return
					}
				}
			}
		}
	}
	sc = append(sc, vh.Scenario{Name: "sequences", Run: func(r *vh.R) { hist([]byte{0, 95, 96, 255}, r.Pick(3, 4))(r) }})
	sc = append(sc, vh.Scenario{Name: "sequences-edges", Run: func(r *vh.R) { hist([]byte{34, 35, 127, 128}, r.Pick(3, 4))(r) }})
	sc = append(sc, vh.Scenario{Name: "every-type", Run: func(r *vh.R) {
		for t := 0; t < 256; t++ {
			hist([]byte{byte(t)}, 2)(r)
		}
		r.Case()
		var m *rtp.Mux
		if err := m.HandleRTP(&prtp.Header{}, nil); err != nil {
			r.Fail("nil", "a nil mux returned %v", err)
		}
		// all types at once
		var log []got
		m = rtp.NewMux(nil)
		for t := 0; t < 256; t++ {
			m.Register(byte(t), &handler{id: fmt.Sprint(t), log: &log})
		}
		for t := 0; t < 256; t++ {
			m.HandleRTP(&prtp.Header{PayloadType: byte(t)}, nil)
			if len(log) != t+1 || log[t].id != fmt.Sprint(t) {
				r.Fail("route", "with all types registered type %d went to %v", t, log[len(log)-1])
				return
			}
		}
		r.Trace()
	}})
	// a handler changes the registrations while it handles a packet
	for _, t := range []byte{0, 96} {
		for _, what := range []string{"register", "unregister", "default", "handle"} {
			sc = append(sc, vh.Scenario{Name: fmt.Sprintf("from-handler-%s-%d", what, t), Run: func(r *vh.R) {
				r.Explore(vh.Opt{Bound: -1}, func() {
					var log []got
					b := &handler{id: "b", log: &log}
					a := &handler{id: "a", log: &log}
					mux := rtp.NewMux(nil)
					first := true
					a.do = func() {
						if !first {
							return
						}
						first = false
						switch what {
						case "register":
							mux.Register(t, b)
						case "unregister":
							mux.Register(t, nil)
						case "default":
							mux.SetDefault(b)
						case "handle":
							mux.HandleRTP(&prtp.Header{PayloadType: t}, nil)
						}
					}
					mux.Register(t, a)
					mux.HandleRTP(&prtp.Header{PayloadType: t}, nil)
					mux.HandleRTP(&prtp.Header{PayloadType: t}, nil)
					mux.HandleRTP(&prtp.Header{PayloadType: 50}, nil)
					var s string
					for _, g := range log {
						s += g.id
					}
					if want := map[string]string{"register": "ab", "unregister": "a", "default": "aab", "handle": "aaa"}[what]; s != want {
						vh.Fail("from-handler", "packets went to %q, want %q", s, want)
					}
				})
			}})
		}
	}
	// concurrent: packets against changes, judged by real time
	type span struct {
		typ    byte
		id     string // handler from then on, "" for none
		s, e   int
		toNext int
	}
	conc := func(name string, q, t int, types []byte, nChange int, def bool) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: r.Pick(q, t)}, func() {
				var log []got
				var mu sync.Mutex
				clock := 0
				tick := func() int {
					mu.Lock()
					defer mu.Unlock()
					clock++
					return clock
				}
				h := func(id string) *handler { return &handler{id: id, log: &log, err: errors.New(id)} }
				mux := rtp.NewMux(h("def"))
				changes := map[byte][]span{}
				for _, t := range types {
					mux.Register(t, h(fmt.Sprintf("%d.0", t)))
					changes[t] = append(changes[t], span{t, fmt.Sprintf("%d.0", t), 0, 0, 0})
				}
				var js []func()
				for _, t := range types {
					js = append(js, vh.Spawn(fmt.Sprintf("change%d", t), func() {
						for k := 1; k <= nChange; k++ {
							id := fmt.Sprintf("%d.%d", t, k)
							var nh rtp.Handler = h(id)
							if k%2 == 0 {
								id, nh = "def", nil
							}
							s := tick()
							mux.Register(t, nh)
							e := tick()
							vh.Atomic(func() { changes[t] = append(changes[t], span{typ: t, id: id, s: s, e: e}) })
						}
					}))
				}
				type pk struct {
					typ  byte
					seq  uint16
					s, e int
					err  error
				}
				var pks []pk
				for i, t := range types {
					js = append(js, vh.Spawn(fmt.Sprintf("handle%d", i), func() {
						for k := 0; k < 2; k++ {
							p := pk{typ: t, seq: uint16(10*i + k)}
							p.s = tick()
							p.err = mux.HandleRTP(&prtp.Header{PayloadType: t, SequenceNumber: p.seq}, []byte{byte(p.seq)})
							p.e = tick()
							vh.Atomic(func() { pks = append(pks, p) })
						}
					}))
				}
				if def {
					js = append(js, vh.Spawn("string", func() { mux.SetDefault(h("def")) }))
				}
				for _, j := range js {
					j()
				}
				for _, p := range pks {
					n := 0
					id := ""
					for _, g := range log {
						if g.seq == p.seq {
							n++
							id = g.id
							if g.typ != p.typ || g.payload != string([]byte{byte(p.seq)}) {
								vh.Fail("content", "packet %d arrived as %v", p.seq, g)
							}
						}
					}
					if n != 1 || p.err == nil || p.err.Error() != id {
						vh.Fail("route", "packet %d was handled %d times, by %q, result %v", p.seq, n, id, p.err)
						continue
					}
					// the handler must have been registered at some time within the call
					ok := false
					ch := changes[p.typ]
					for i, c := range ch {
						until := 1 << 30
						if i+1 < len(ch) {
							until = ch[i+1].e
						}
						if c.id == id && c.s <= p.e && until >= p.s {
							ok = true
						}
					}
					if !ok {
						vh.Fail("stale", "packet %d of type %d (time %d-%d) was handled by %q, registrations %v", p.seq, p.typ, p.s, p.e, id, ch)
					}
					vh.Note("%d:%s ", p.seq, id)
				}
			})
		}})
	}
	// packets of types nobody registered, while the default changes
	for _, t := range []byte{8, 101} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("default-%d", t), Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: -1}, func() {
				var log []got
				a, b := &handler{id: "a", log: &log}, &handler{id: "b", log: &log}
				mux := rtp.NewMux(a)
				j1 := vh.Spawn("change", func() { mux.SetDefault(b); mux.SetDefault(nil) })
				j2 := vh.Spawn("other", func() { mux.Register(t+1, a) })
				for k := range 3 {
					mux.HandleRTP(&prtp.Header{PayloadType: t, SequenceNumber: uint16(k)}, nil)
				}
				j1()
				j2()
				mux.HandleRTP(&prtp.Header{PayloadType: t, SequenceNumber: 3}, nil)
				ids := ""
				for k, g := range log {
					if int(g.seq) != k || g.typ != t {
						vh.Fail("default", "packets handled: %v", log)
					}
					ids += g.id
				}
				if i := strings.Index("aaabbb", ids); i < 0 || len(log) == 4 {
					vh.Fail("default", "packets handled by %q while the default went from a to b to none", ids)
				}
				vh.Note("%s", ids)
			})
		}})
	}
	conc("static", -1, -1, []byte{8}, 3, false)
	conc("dynamic", -1, -1, []byte{101}, 3, false)
	conc("dynamic-default", -1, -1, []byte{101}, 1, true)
	// describing a mux while it is changed
	for _, t := range []byte{8, 101} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("describe-%d", t), Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: -1}, func() {
				var log []got
				mux := rtp.NewMux(nil)
				a, b, d := &handler{id: "hA", log: &log}, &handler{id: "hB", log: &log}, &handler{id: "hD", log: &log}
				mux.Register(t, a)
				j1 := vh.Spawn("change", func() { mux.Register(t, b); mux.SetDefault(d); mux.Register(t+1, a); mux.Register(t, nil) })
				j2 := vh.Spawn("handle", func() { mux.HandleRTP(&prtp.Header{PayloadType: t}, nil) })
				s := mux.String()
				j1()
				j2()
				if s == "" || len(log) > 1 {
					vh.Fail("describe", "%q, handled by %v", s, log)
				}
				vh.Note("%s %v", s, log)
			})
		}})
	}
	conc("static-dynamic", 2, 3, []byte{8, 101}, 1, false)
	// all pairs of short programs on one payload type and the default: packets go where some order of the calls sends them
	for _, t := range []byte{8, 101} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("programs-%d", t), Race: true, Run: func(r *vh.R) {
			calls := []string{"type=a", "type=b", "type=", "def=d", "def=", "packet", "other"}
			type state struct {
				typ, def string
				log      []string
			}
			step := func(o state, c, who string) state {
				to := o.typ
				if to == "" {
					to = o.def
				}
				switch what, id, _ := strings.Cut(c, "="); what {
				case "type":
					o.typ = id
				case "def":
					o.def = id
				case "packet":
					o.log = append(slices.Clone(o.log), who+to)
				case "other":
					o.log = append(slices.Clone(o.log), who+o.def)
				}
				return o
			}
			run := func(start state, a, b []string) bool {
				want := map[string]bool{}
				var rec func(o state, i, j int)
				rec = func(o state, i, j int) {
					if i == len(a) && j == len(b) {
						l := slices.Clone(o.log)
						slices.Sort(l)
						want[fmt.Sprint(l, o.typ, o.def)] = true
					}
					if i < len(a) {
						rec(step(o, a[i], fmt.Sprintf("a%d:", i)), i+1, j)
					}
					if j < len(b) {
						rec(step(o, b[j], fmt.Sprintf("b%d:", j)), i, j+1)
					}
				}
				rec(start, 0, 0)
				r.Explore(vh.Opt{Bound: -1}, func() {
					h := func(id string) rtp.Handler {
						if id == "" {
							return nil
						}
						return rtp.HandlerFunc(func(h *prtp.Header, payload []byte) error { return errors.New(id) })
					}
					mux := rtp.NewMux(h(start.def))
					mux.Register(t, h(start.typ))
					res := func(typ byte) string {
						if err := mux.HandleRTP(&prtp.Header{PayloadType: typ}, nil); err != nil {
							return err.Error()
						}
						return ""
					}
					logs := make([][]string, 2)
					var js []func()
					for p, prog := range [][]string{a, b} {
						js = append(js, vh.Spawn(fmt.Sprintf("p%d", p), func() {
							for i, c := range prog {
								switch what, id, _ := strings.Cut(c, "="); what {
								case "type":
									mux.Register(t, h(id))
								case "def":
									mux.SetDefault(h(id))
								case "packet":
									logs[p] = append(logs[p], fmt.Sprintf("%c%d:%s", 'a'+p, i, res(t)))
								case "other":
									logs[p] = append(logs[p], fmt.Sprintf("%c%d:%s", 'a'+p, i, res(t+1)))
								}
							}
						}))
					}
					for _, j := range js {
						j()
					}
					l := append(logs[0], logs[1]...)
					slices.Sort(l)
					// what is registered in the end
					typ, def := res(t), res(t+1)
					ok := false
					for _, x := range []string{typ, ""} {
						if x == typ || typ == def {
							ok = ok || want[fmt.Sprint(l, x, def)]
						}
					}
					vh.Note("%v %s %s", l, typ, def)
					if !ok {
						vh.Fail("linear", "first %q by type and %q by default; %v with %v: no order of the calls gives %v and then %q and %q", start.typ, start.def, a, b, l, typ, def)
					}
				})
				return !r.Stop()
			}
			for _, start := range []state{{typ: "x", def: "y"}, {def: "y"}, {}} {
				for n := 1; n <= r.Pick(2, 3); n++ {
					ok := vh.Prod([]int{len(calls), len(calls)}, func(x []int) bool {
						return vh.Seqs(n, len(calls), func(y []int) bool {
							var b []string
							for _, k := range y {
								b = append(b, calls[k])
							}
							return run(start, []string{calls[x[0]], calls[x[1]]}, b)
						})
					})
					if !ok {
						return
					}
				}
			}
		}})
	}
	vh.Main(vh.Check{ID: "C18", Level: "model_checking",
		Rule:      "every bounded sequence of registrations with every payload type after each; every interleaving of packets and registrations in small concurrent programs",
		Scenarios: sc})
}
