// C30: the codec registry against a reference, over every history of registrations and settings.
package main

import (
	"fmt"
	"math"
	"slices"
	"strings"

	msdk "github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/vh"
)

type listener struct {
	name string
	got  []msdk.Codec
}

// model is the reference registry of this process.
type model struct {
	all      []msdk.Codec
	disabled map[string]bool
	byName   map[string]msdk.Codec
	byType   [256]msdk.Codec
	lis      []*listener
}

func (m *model) add(c msdk.Codec) {
	info := c.Info()
	m.all = append(m.all, c)
	name := strings.ToLower(info.SDPName)
	if info.Disabled {
		m.disabled[name] = true
	}
	if name != "" {
		m.byName[name] = c
		if strings.Count(name, "/") == 1 {
			m.byName[name+"/1"] = c
		}
	}
	if info.RTPIsStatic {
		m.byType[info.RTPDefType] = c
	}
}

func (m *model) enabled(c msdk.Codec) bool {
	return !m.disabled[strings.ToLower(c.Info().SDPName)]
}

var builtin = []string{"PCMU/8000", "PCMA/8000", "G722/8000", "telephone-event/8000"}

func newModel(r *vh.R) *model {
	m := &model{disabled: map[string]bool{}, byName: map[string]msdk.Codec{}}
	have := map[string]bool{}
	for _, c := range msdk.Codecs() {
		m.add(c)
		have[c.Info().SDPName] = true
	}
	for _, n := range builtin {
		if !have[n] {
			r.Fail("builtin", "%s is not registered: %v", n, have)
		}
	}
	return m
}

// mixed writes a name in mixed case.
func mixed(s string, phase int) string {
	b := []byte(s)
	for i := range b {
		if (i+phase)%2 == 0 {
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i : i+1]))[0]
		}
	}
	return string(b)
}

func same(a, b []msdk.Codec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// check compares everything observable about the names and types in use; from is where this case's codecs begin.
func (m *model) check(names []string, types []byte, from int) (string, string) {
	all := msdk.Codecs()
	if len(all) != len(m.all) || !same(all[from:], m.all[from:]) {
		return "list", fmt.Sprintf("%d codecs listed, want %d", len(all), len(m.all))
	}
	en := msdk.EnabledCodecs()
	i := 0
	for _, c := range m.all {
		if !m.enabled(c) {
			continue
		}
		if i >= len(en) || en[i] != c {
			return "enabled", fmt.Sprintf("%q is missing or out of place in the enabled list", c.Info().SDPName)
		}
		i++
	}
	if i != len(en) {
		return "enabled", fmt.Sprintf("%q is listed as enabled", en[i].Info().SDPName)
	}
	for _, c := range m.all[from:] {
		if msdk.CodecEnabled(c) != m.enabled(c) {
			return "enabled", fmt.Sprintf("%q enabled: %v", c.Info().SDPName, !m.enabled(c))
		}
		if n := c.Info().SDPName; msdk.CodecEnabledByName(mixed(n, 1)) != m.enabled(c) {
			return "enabled", fmt.Sprintf("name %q enabled: %v", n, !m.enabled(c))
		}
	}
	for _, n := range names {
		for _, v := range []string{n, n + "/1", n + "/2", n + "x"} {
			for _, spell := range []string{v, strings.ToUpper(v), mixed(v, 0)} {
				want := m.byName[strings.ToLower(spell)]
				if want != nil && !m.enabled(want) {
					want = nil
				}
				if got := sdp.CodecByName(spell); got != want {
					return "by-name", fmt.Sprintf("%q finds %v, want %v", spell, got, want)
				}
			}
		}
	}
	for _, t := range types {
		if got := rtp.CodecByPayloadType(t); got != m.byType[t] {
			return "by-type", fmt.Sprintf("payload type %d finds %v, want %v", t, got, m.byType[t])
		}
	}
	for i, l := range m.lis {
		if len(l.got) != len(m.all) || len(l.got) > from && !same(l.got[from:], m.all[from:]) {
			return "listener", fmt.Sprintf("listener %d heard of %d codecs, want %d", i, len(l.got), len(m.all))
		}
	}
	return "", ""
}

var ops = []string{
	"register A", "register A again", "register B disabled", "register C static", "register unnamed static",
	"disable A", "enable A", "enable B", "disable B", "bulk A off B on", "bulk A on C off", "listen", "scribble", "unknown off", "builtin off", "builtin on",
}

func run(r *vh.R, m *model, id int, hist []string, makers int) {
	from := len(m.all)
	m.lis = nil // older listeners were compared at the end of their history
	a, b, c := fmt.Sprintf("va%d/8000", id), fmt.Sprintf("Vb%d/16000", id), fmt.Sprintf("VC%d/48000/2", id)
	t := byte(id % 256)
	types := []byte{t, t + 1, 0, 8, 9, 255, byte(id * 7)}
	names := []string{a, b, c, "pcmu/8000", fmt.Sprintf("vd%d/8000", id)}
	var all []*listener
	reg := func(info msdk.CodecInfo) {
		if info.SampleRate == 0 {
			info.SampleRate = 8000
		}
		var cc msdk.Codec
		if makers == 0 {
			cc = msdk.NewCodec(info)
		} else {
			cc = rtp.NewAudioCodec[g711.ULawSample](info, nil, nil)
		}
		m.add(cc)
		msdk.RegisterCodec(cc)
	}
	set := func(name string, on bool) {
		if on {
			delete(m.disabled, strings.ToLower(name))
		} else {
			m.disabled[strings.ToLower(name)] = true
		}
	}
	bulk := func(s map[string]bool) {
		for n, on := range s {
			set(n, on)
		}
		msdk.CodecsSetEnabled(s)
	}
	for k, o := range hist {
		switch o {
		case "register A":
			reg(msdk.CodecInfo{SDPName: a})
		case "register A again":
			reg(msdk.CodecInfo{SDPName: strings.ToUpper(a), SampleRate: 16000})
		case "register B disabled":
			reg(msdk.CodecInfo{SDPName: b, Disabled: true, RTPIsStatic: k%2 != 0, RTPDefType: t, Priority: k})
		case "register C static":
			reg(msdk.CodecInfo{SDPName: c, RTPIsStatic: true, RTPDefType: t, Priority: -k})
		case "register unnamed static":
			reg(msdk.CodecInfo{RTPIsStatic: true, RTPDefType: t + 1})
		case "disable A":
			msdk.CodecSetEnabled(mixed(a, k), false)
			set(a, false)
		case "enable A":
			msdk.CodecSetEnabled(strings.ToUpper(a), true)
			set(a, true)
		case "enable B":
			msdk.CodecSetEnabled(b, true)
			set(b, true)
		case "disable B":
			msdk.CodecSetEnabled(strings.ToLower(b), false)
			set(b, false)
		case "bulk A off B on":
			bulk(map[string]bool{mixed(a, k): false, strings.ToUpper(b): true})
		case "bulk A on C off":
			bulk(map[string]bool{a: true, strings.ToLower(c): false})
		case "listen":
			l := &listener{}
			msdk.OnRegister(func(c msdk.Codec) { l.got = append(l.got, c) })
			m.lis = append(m.lis, l)
			all = append(all, l)
		case "scribble":
			// what the caller does with the returned lists must not matter
			x, y := msdk.Codecs(), msdk.EnabledCodecs()
			for i := range x {
				x[i] = nil
			}
			for i := range y {
				y[i] = nil
			}
			_ = append(x[:0], make([]msdk.Codec, cap(x))...)
		case "unknown off":
			msdk.CodecSetEnabled(fmt.Sprintf("vd%d/8000", id), false)
			msdk.CodecSetEnabled("", true)
			set(fmt.Sprintf("vd%d/8000", id), false)
		case "builtin off":
			msdk.CodecSetEnabled("pcmU/8000", false)
			set("PCMU/8000", false)
		case "builtin on":
			msdk.CodecsSetEnabled(map[string]bool{"PCMU/8000": true})
			set("PCMU/8000", true)
		}
		r.Step(1)
		if key, d := m.check(names, types, from); key != "" {
			r.Fail(key, "%v, after step %d: %s", hist, k+1, d)
			return
		}
	}
	for i, l := range all {
		if !same(l.got, m.all) {
			r.Fail("listener", "%v: listener %d heard of other codecs or in another order", hist, i)
		}
	}
	r.Nontrivial(fmt.Sprint(hist, len(m.all)-from))
	r.State(fmt.Sprint(hist))
}

func histories(name string, first []int, n, makers int, thorough bool) vh.Scenario {
	return vh.Scenario{Name: name, Thorough: thorough, Run: func(r *vh.R) {
		m := newModel(r)
		id := 0
		vh.Seqs(n-len(first), len(ops), func(seq []int) bool {
			var hist []string
			for _, o := range append(slices.Clone(first), seq...) {
				hist = append(hist, ops[o])
			}
			r.Case()
			id++
			ok := r.Guard("panic", fmt.Sprint(hist), func() { run(r, m, id, hist, makers) })
			return ok && !r.Stop()
		})
	}}
}

func main() {
	var sc []vh.Scenario
	for i, o := range ops {
		name := strings.ReplaceAll(o, " ", "-")
		sc = append(sc, histories("4-"+name, []int{i}, 4, i%2, false))
		for j := range ops { // the registry only grows: short histories per process
			sc = append(sc, histories(fmt.Sprintf("5-%s-%02d", name, j), []int{i, j}, 5, (i+1)%2, true))
		}
	}
	sc = append(sc, vh.Scenario{Name: "types", Run: func(r *vh.R) {
		// every payload type registered, looked up, and registered again; the others stay
		m := newModel(r)
		var every []byte
		for t := 0; t < 256; t++ {
			every = append(every, byte(t))
		}
		for round := 0; round < 2; round++ {
			for t := 0; t < 256 && !r.Stop(); t++ {
				r.Case()
				r.Guard("panic", fmt.Sprintf("payload type %d", t), func() {
					for k, static := range []bool{true, false} {
						c := msdk.NewCodec(msdk.CodecInfo{SDPName: fmt.Sprintf("vt%d/%d", t, 8000+round+2*k), SampleRate: 8000, RTPDefType: byte(t), RTPIsStatic: static})
						m.add(c)
						msdk.RegisterCodec(c)
					}
				})
				r.Step(1)
				r.State(round, t)
				r.Guard("lookup", fmt.Sprintf("payload types after %d", t), func() {
					if key, d := m.check(nil, every, len(m.all)-1); key != "" {
						r.Fail(key, "after registering payload type %d: %s", t, d)
					}
				})
			}
			r.Nontrivial(round)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "new", Run: func(r *vh.R) {
		rates := []int{math.MinInt, -8000, -1, 0, 1, 8000, 48000}
		for _, rate := range rates {
			for _, clock := range rates {
				if clock < 0 {
					continue
				}
				for k := range 2 {
					r.Case()
					r.Step(1)
					r.State(rate, clock, k)
					in := msdk.CodecInfo{SDPName: "N/1", SampleRate: rate, RTPClockRate: clock, RTPDefType: 99, RTPIsStatic: true, Priority: 3, Disabled: true, FileExt: "x"}
					var out msdk.CodecInfo
					panicked := func() (p bool) {
						defer func() { p = recover() != nil }()
						if k == 0 {
							out = msdk.NewCodec(in).Info()
						} else {
							out = rtp.NewAudioCodec[g711.ULawSample](in, nil, nil).Info()
						}
						return false
					}()
					if panicked != (rate <= 0) {
						r.Fail("rate", "sample rate %d accepted: %v", rate, !panicked)
					}
					if panicked {
						continue
					}
					want := in
					if clock == 0 {
						want.RTPClockRate = rate
					}
					if out != want {
						r.Fail("info", "%+v became %+v", in, out)
					}
					r.Nontrivial(rate, clock, k)
				}
			}
		}
		if msdk.CodecEnabled(nil) {
			r.Fail("nil", "no codec is enabled")
		}
	}})
	vh.Main(vh.Check{ID: "C30", Level: "model_checking",
		Rule:      "every history of 4 (thorough: 5) registrations, settings and listeners out of 16 kinds, each followed by all lookups; every payload type; every combination of rates",
		Scenarios: sc})
}
