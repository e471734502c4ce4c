// C20: SDP negotiation agrees on one audio codec, payload type, address and DTMF type.
package main

import (
	"errors"
	"fmt"
	"math/bits"
	"net/netip"
	"slices"
	"sort"
	"strconv"
	"strings"

	psdp "github.com/pion/sdp/v3"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/vh"
)

// The codecs known to both sides: the three built in ones, and three registered here.
type codec struct {
	name   string
	prio   int
	static int // payload type, or -1
}

var known = []codec{
	{g722.SDPName, -5, 9},
	{g711.ULawSDPName, -10, 0},
	{g711.ALawSDPName, -20, 8},
	{"XA/16000", 3, -1},
	{"XB/8000", 3, -1},
	{"XS/48000/2", -7, -1},
	{"XL/8000", -150, -1}, // only in the offers of one scenario
	{"XM/8000", -1000, -1},
}

func init() {
	for _, c := range known[3:] {
		msdk.RegisterCodec(rtp.NewAudioCodec(msdk.CodecInfo{SDPName: c.name, SampleRate: 16000, Priority: c.prio}, g722.Decode, g722.Encode))
	}
}

func enable(mask int, dt bool) {
	for i, c := range known {
		msdk.CodecSetEnabled(c.name, mask&(1<<i) != 0)
	}
	msdk.CodecSetEnabled(dtmf.SDPName, dt)
}

const all = 1<<6 - 1

// find is the reference lookup of an rtpmap name.
func find(name string) int {
	n := strings.ToLower(name)
	for i, c := range known {
		k := strings.ToLower(c.name)
		if n == k || strings.Count(k, "/") == 1 && n == k+"/1" {
			return i
		}
	}
	return -1
}

func isDTMF(name string) bool {
	n := strings.ToLower(name)
	return n == "telephone-event/8000" || n == "telephone-event/8000/1"
}

// entry is one format of the m= line with its mapping, if any.
type entry struct {
	pt   int
	name string
}

// ref returns the choices permitted for a list of entries: the best (or first) one by the order of
// the m= line, and by the order of the mappings followed by the unmapped formats.
func ref(es []entry, mask int, first bool) (cands [][2]int, dt []int) {
	type cand struct{ pt, c int }
	var line, mapped, bare []cand
	for _, e := range es {
		if e.pt > 127 || e.pt < 0 {
			continue
		}
		if e.name == "" {
			for i, c := range known {
				if c.static == e.pt && mask&(1<<i) != 0 {
					line = append(line, cand{e.pt, i})
					bare = append(bare, cand{e.pt, i})
				}
			}
			continue
		}
		if isDTMF(e.name) {
			dt = append(dt, e.pt)
			continue
		}
		if i := find(e.name); i >= 0 && mask&(1<<i) != 0 {
			line = append(line, cand{e.pt, i})
			mapped = append(mapped, cand{e.pt, i})
		}
	}
	lists := [][]cand{line, append(slices.Clip(mapped), bare...)}
	if style > 0 {
		m := slices.Clone(mapped)
		slices.Reverse(m)
		lists = append(lists, append(m, bare...))
	}
	for _, l := range lists {
		best := -1
		for i, c := range l {
			if best < 0 || !first && known[c.c].prio > known[l[best].c].prio {
				best = i
			}
		}
		if best >= 0 {
			cands = append(cands, [2]int{l[best].pt, l[best].c})
		}
	}
	return cands, dt
}

// style is how texts are written: 1, the mappings in the reverse order; 2, more attributes between them, and parameters first.
var style int

func text(es []entry, session, med, origin string, port int, extra string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "v=0\r\no=- 12345 12345 IN IP4 %s\r\ns=x\r\n", origin)
	if session != "" {
		fmt.Fprintf(&b, "c=IN IP4 %s\r\n", session)
	}
	b.WriteString("t=0 0\r\n" + extra)
	fmt.Fprintf(&b, "m=audio %d RTP/AVP", port)
	for _, e := range es {
		fmt.Fprintf(&b, " %d", e.pt)
	}
	b.WriteString("\r\n")
	if med != "" {
		fmt.Fprintf(&b, "c=IN IP4 %s\r\n", med)
	}
	if style > 0 {
		es = slices.Clone(es)
		slices.Reverse(es)
	}
	if style == 2 {
		b.WriteString("b=AS:64\r\na=rtcp:5005\r\na=rtcp-mux\r\na=candidate:1 1 UDP 2130706431 10.1.2.3 5004 typ host\r\na=extmap:1 urn:ietf:params:rtp-hdrext:ssrc-audio-level\r\na=msid:a b\r\n")
		for _, e := range es {
			fmt.Fprintf(&b, "a=rtcp-fb:%d nack\r\na=fmtp:%d minptime=10;useinbandfec=1\r\n", e.pt, e.pt)
		}
	}
	for _, e := range es {
		if style == 2 {
			fmt.Fprintf(&b, "a=ssrc:%d cname:x\r\na=mid:audio\r\n", 1000+e.pt)
		}
		if e.name != "" {
			fmt.Fprintf(&b, "a=rtpmap:%d %s\r\n", e.pt, e.name)
		}
		if isDTMF(e.name) {
			fmt.Fprintf(&b, "a=fmtp:%d 0-15\r\n", e.pt)
		}
	}
	b.WriteString("a=ptime:20\r\na=sendrecv\r\n")
	return b.String()
}

var (
	ipA = netip.MustParseAddr("10.1.2.3")
	ipB = netip.MustParseAddr("192.0.2.77")
)

func one(dt int) []int {
	if dt == 0 {
		return nil
	}
	return []int{dt}
}

func same(a *rtp.AudioCodec, name string) bool { return *a != nil && (*a).Info().SDPName == name }

func checkConf(r *vh.R, desc, side string, m *sdp.MediaConfig, local, remote netip.AddrPort, cands [][2]int, dts []int) bool {
	ok := true
	if m.Local != local || m.Remote != remote {
		r.Fail("address", "%s: the %s uses %v -> %v, want %v -> %v", desc, side, m.Local, m.Remote, local, remote)
		ok = false
	}
	hit := false
	for _, c := range cands {
		hit = hit || int(m.Audio.Type) == c[0] && same(&m.Audio.Codec, known[c[1]].name)
	}
	if !hit {
		n := "none"
		if m.Audio.Codec != nil {
			n = m.Audio.Codec.Info().SDPName
		}
		r.Fail("codec", "%s: the %s selects %s as %d, want one of %v", desc, side, n, m.Audio.Type, cands)
		ok = false
	}
	// one of those offered, none if there are none
	if got := int(m.Audio.DTMFType); len(dts) == 0 && got != 0 || len(dts) > 0 && !slices.Contains(dts, got) {
		r.Fail("dtmf", "%s: the %s uses DTMF type %d, want %d", desc, side, got, dts)
		ok = false
	}
	if m.Crypto != nil {
		r.Fail("crypto", "%s: the %s encrypts", desc, side)
	}
	return ok
}

// formats returns the m= line's formats and the mappings of an SDP text, read independently.
func formats(s string) (fm []int, names map[int]string, port int) {
	names = map[int]string{}
	for _, l := range strings.Split(s, "\r\n") {
		if v, ok := strings.CutPrefix(l, "m=audio "); ok {
			p := strings.Fields(v)
			port, _ = strconv.Atoi(p[0])
			for _, f := range p[2:] {
				n, err := strconv.Atoi(f)
				if err != nil {
					n = -1
				}
				fm = append(fm, n)
			}
		}
		if v, ok := strings.CutPrefix(l, "a=rtpmap:"); ok {
			p := strings.SplitN(v, " ", 2)
			n, err := strconv.Atoi(p[0])
			if err != nil {
				n = -1
			}
			if names[n] != "" {
				names[-1] = "mapped twice"
			}
			names[n] = p[1]
		}
	}
	return fm, names, port
}

func marshal(r *vh.R, desc string, d *psdp.SessionDescription) string {
	b, err := d.Marshal()
	if err != nil {
		r.Fail("marshal", "%s: %v", desc, err)
	}
	return string(b)
}

// addressed: a description gives its address, under the name of its family, as origin and for its media.
func addressed(r *vh.R, desc, text string, ip netip.Addr) {
	want := "IN IP4 " + ip.String()
	if strings.Contains(ip.String(), ":") {
		want = "IN IP6 " + ip.String()
	}
	n := 0
	for _, l := range strings.Split(text, "\r\n") {
		switch {
		case strings.HasPrefix(l, "c="):
			if n++; l != "c="+want {
				r.Fail("address-line", "%s: %q, want %q", desc, l, want)
			}
		case strings.HasPrefix(l, "o="):
			if !strings.HasSuffix(l, " "+want) || len(strings.Fields(l)) != 6 {
				r.Fail("address-line", "%s: %q, want it to end in %q", desc, l, want)
			}
		}
	}
	if n == 0 {
		r.Fail("address-line", "%s: no connection address in %s", desc, text)
	}
}

// roundTrip: one of our own offers answered by ourselves, under different codec settings.
func roundTrip(r *vh.R, ma int, dtA bool, mb int, ipA, ipB netip.Addr, portA, portB int, serialise bool) {
	desc := fmt.Sprintf("offerer codecs %06b dtmf %v, answerer codecs %06b, %v:%d, %v:%d, serialised %v", ma, dtA, mb, ipA, portA, ipB, portB, serialise)
	r.Case()
	a, b := netip.AddrPortFrom(ipA, uint16(portA)), netip.AddrPortFrom(ipB, uint16(portB))
	r.Guard("panic", desc, func() {
		enable(ma, dtA)
		offer, err := sdp.NewOffer(ipA, portA, sdp.EncryptionNone)
		if err != nil {
			r.Fail("offer", "%s: %v", desc, err)
			return
		}
		otext := marshal(r, desc, &offer.SDP)
		addressed(r, desc, otext, ipA)
		fm, names, port := formats(otext)
		var es []entry
		dt := 0
		used := map[int]bool{}
		var got []string
		for _, f := range fm {
			if f < 0 || f > 127 || used[f] {
				r.Fail("offer-type", "%s: offered types %v", desc, fm)
				return
			}
			used[f] = true
			es = append(es, entry{f, names[f]})
			if names[f] == dtmf.SDPName {
				dt = f
			} else {
				got = append(got, names[f])
			}
			if c := find(names[f]); c >= 0 && known[c].static >= 0 && known[c].static != f {
				r.Fail("offer-type", "%s: %s offered as %d", desc, names[f], f)
			}
		}
		var want []string
		for i, c := range known {
			if ma&(1<<i) != 0 {
				want = append(want, c.name)
			}
		}
		// the preferred ones first, among those with fixed types and among the others
		last := map[bool]int{}
		for _, n := range got {
			if c := find(n); c >= 0 {
				static := known[c].static >= 0
				if p, ok := last[static]; ok && known[c].prio > p {
					r.Fail("offer-order", "%s: offers %v", desc, got)
				}
				last[static] = known[c].prio
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) || len(names) != len(fm) {
			r.Fail("offer-codecs", "%s: offers %v, want %v (mappings %v)", desc, got, want, names)
		}
		if (dt != 0) != dtA || int(offer.DTMFType) != dt {
			r.Fail("offer-dtmf", "%s: offers DTMF as %d and says %d", desc, dt, offer.DTMFType)
		}
		if port != portA || offer.Addr != a {
			r.Fail("offer-address", "%s: offers port %d, address %v", desc, port, offer.Addr)
		}
		cands, _ := ref(es, ma&mb, false)

		enable(mb, true)
		o2 := offer
		if serialise {
			if o2, err = sdp.ParseOffer([]byte(otext)); err != nil {
				r.Fail("parse", "%s: %v\n%s", desc, err, otext)
				return
			}
		} else if ma&^mb != 0 {
			return // the offerer's own description lists what it supports
		}
		ans, mc, err := o2.Answer(ipB, portB, sdp.EncryptionNone)
		if ma&mb == 0 {
			if !errors.Is(err, sdp.ErrNoCommonMedia) {
				r.Fail("no-common", "%s: answered with %v", desc, err)
			}
			return
		}
		if err != nil {
			r.Fail("answer", "%s: %v", desc, err)
			return
		}
		checkConf(r, desc, "answerer", mc, b, a, cands, one(dt))
		atext := marshal(r, desc, &ans.SDP)
		addressed(r, desc, atext, ipB)
		checkAnswer(r, desc, atext, ans, mc, portB)
		enable(ma, dtA)
		a2 := ans
		if serialise {
			if a2, err = sdp.ParseAnswer([]byte(atext)); err != nil {
				r.Fail("parse", "%s: %v\n%s", desc, err, atext)
				return
			}
		}
		oc, err := a2.Apply(offer, sdp.EncryptionNone)
		if err != nil {
			r.Fail("apply", "%s: %v", desc, err)
			return
		}
		checkConf(r, desc, "offerer", oc, a, b, [][2]int{{int(mc.Audio.Type), find(mc.Audio.Codec.Info().SDPName)}}, one(dt))
	})
	r.Step(1)
	r.State(ma, dtA, mb, serialise)
	if ma&mb != 0 && ma != mb {
		r.Nontrivial(ma, mb)
	}
}

func checkAnswer(r *vh.R, desc, atext string, ans *sdp.Answer, mc *sdp.MediaConfig, port int) {
	fm, names, p := formats(atext)
	want := []int{int(mc.Audio.Type)}
	if mc.Audio.DTMFType != 0 {
		want = append(want, int(mc.Audio.DTMFType))
	}
	if fmt.Sprint(fm) != fmt.Sprint(want) || p != port {
		r.Fail("answer-formats", "%s: the answer lists %v at port %d, want %v at %d", desc, fm, p, want, port)
	}
	if n := names[want[0]]; n != mc.Audio.Codec.Info().SDPName {
		r.Fail("answer-map", "%s: the answer maps %d to %s, selected %s", desc, want[0], n, mc.Audio.Codec.Info().SDPName)
	}
	if len(want) > 1 && names[want[1]] != dtmf.SDPName {
		r.Fail("answer-map", "%s: the answer maps %d to %s", desc, want[1], names[want[1]])
	}
	if ans.Addr != mc.Local {
		r.Fail("answer-address", "%s: answer address %v, local %v", desc, ans.Addr, mc.Local)
	}
}

var alphabet = []entry{
	{0, ""}, {8, ""}, {9, ""},
	{0, "pcmu/8000/1"}, {8, "PCMA/8000"}, {9, "g722/8000/1"},
	{101, "telephone-event/8000"}, {96, "TELEPHONE-EVENT/8000/1"},
	{110, "PCMU/8000"}, {111, "xa/16000"}, {112, "XB/8000/1"},
	{113, "XS/48000/2"}, {114, "XS/48000/2/1"}, {115, "unknown/90000"}, {116, ""},
	{300, "PCMU/8000"}, {117, "telephone-event/48000"}, {118, "PCMU/16000"},
	// more spellings
	{0, "PCMU/8000"}, {0, "Pcmu/8000"}, {8, "pcma/8000/1"}, {9, "G722/8000"}, {120, "G722/8000/2"},
	{97, "Telephone-Event/8000"}, {127, "telephone-event/8000/1"}, {119, "XA/16000/1"}, {1000, "xa/16000"}, {255, ""}, {265, ""}, {127, "xb/8000"},
}

func list(es []entry) string {
	var p []string
	for _, e := range es {
		p = append(p, fmt.Sprintf("%d=%s", e.pt, e.name))
	}
	return strings.Join(p, ", ")
}

// given: an offer or answer of someone else, negotiated by us.
func given(r *vh.R, es []entry, mask int) {
	desc := fmt.Sprintf("formats [%s], codecs %06b, style %d", list(es), mask, style)
	r.Case()
	r.Guard("panic", desc, func() {
		enable(mask, true)
		src := text(es, "10.1.2.3", "", "10.9.9.9", 5004, "")
		b, a := netip.AddrPortFrom(ipB, 7000), netip.AddrPortFrom(ipA, 5004)
		cands, dt := ref(es, mask, false)
		offer, err := sdp.ParseOffer([]byte(src))
		if err != nil {
			r.Fail("parse", "%s: %v", desc, err)
			return
		}
		ans, mc, err := offer.Answer(ipB, 7000, sdp.EncryptionNone)
		if len(cands) == 0 {
			if !errors.Is(err, sdp.ErrNoCommonMedia) {
				r.Fail("no-common", "%s: answered with %v", desc, err)
			}
		} else if err != nil {
			r.Fail("answer", "%s: %v", desc, err)
		} else {
			checkConf(r, desc, "answerer", mc, b, a, cands, dt)
			atext := marshal(r, desc, &ans.SDP)
			checkAnswer(r, desc, atext, ans, mc, 7000)
			r.Nontrivial(mask, mc.Audio.Type, dt)
		}
		// the same text as an answer: its first usable codec holds
		cands, dt = ref(es, mask, true)
		an, err := sdp.ParseAnswer([]byte(src))
		if err != nil {
			r.Fail("parse", "%s: %v", desc, err)
			return
		}
		own, err := sdp.NewOffer(ipB, 7000, sdp.EncryptionNone)
		if err != nil {
			r.Fail("offer", "%s: %v", desc, err)
			return
		}
		mc, err = an.Apply(own, sdp.EncryptionNone)
		if len(cands) == 0 {
			if !errors.Is(err, sdp.ErrNoCommonMedia) {
				r.Fail("no-common", "%s: answer applied with %v", desc, err)
			}
		} else if err != nil {
			r.Fail("apply", "%s: %v", desc, err)
		} else {
			checkConf(r, desc, "offerer", mc, b, a, cands, dt)
		}
	})
	r.Step(2)
	r.State(list(es), mask)
}

// entries calls f with every sequence of up to n alphabet entries of distinct payload types.
func entries(alpha []entry, n int, f func(es []entry) bool) {
	var es []entry
	var rec func() bool
	rec = func() bool {
		if len(es) > 0 && !f(es) {
			return false
		}
		if len(es) == n {
			return true
		}
		for _, e := range alpha {
			dup := false
			for _, p := range es {
				dup = dup || p.pt == e.pt
			}
			if dup {
				continue
			}
			es = append(es, e)
			ok := rec()
			es = es[:len(es)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	rec()
}

func main() {
	var sc []vh.Scenario
	sc = append(sc, vh.Scenario{Name: "own-offers", Run: func(r *vh.R) {
		for ma := 0; ma <= all && !r.Stop(); ma++ {
			for mb := 0; mb <= all; mb++ {
				for _, dt := range []bool{true, false} {
					roundTrip(r, ma, dt, mb, ipA, ipB, 5004, 7000, true)
					roundTrip(r, ma, dt, mb, ipA, ipB, 5004, 7000, false)
				}
			}
		}
		for _, pa := range []int{1, 5004, 65535} {
			for _, pb := range []int{2, 7000, 65534} {
				for _, ips := range [][2]string{{"10.1.2.3", "192.0.2.77"}, {"::1", "2001:db8::1"}, {"10.1.2.3", "2001:db8::1"}, {"0.0.0.0", "255.255.255.255"}, {"2001:db8::1", "10.1.2.3"}, {"::ffff:10.1.2.3", "::ffff:10.1.2.4"}, {"fe80::1:2", "::"}} {
					for _, s := range []bool{true, false} {
						roundTrip(r, all, true, all, netip.MustParseAddr(ips[0]), netip.MustParseAddr(ips[1]), pa, pb, s)
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "own-offers-low", Run: func(r *vh.R) {
		// codecs wanted less than DTMF
		for ma := 0; ma <= all && !r.Stop(); ma++ {
			for low := 1; low < 4; low++ {
				for _, mb := range []int{0, low << 6, all | low<<6, all | 1<<6, all, 1<<7 | 6} {
					for _, dt := range []bool{true, false} {
						roundTrip(r, ma|low<<6, dt, mb, ipA, ipB, 5004, 7000, true)
						roundTrip(r, ma|low<<6, dt, mb, ipA, ipB, 5004, 7000, false)
					}
				}
			}
		}
	}})
	run := func(name string, alpha []entry, n int, masks []int, th bool) {
		sc = append(sc, vh.Scenario{Name: name, Thorough: th, Run: func(r *vh.R) {
			entries(alpha, n, func(es []entry) bool {
				for _, m := range masks {
					given(r, es, m)
				}
				return !r.Stop()
			})
		}})
	}
	var every []int
	for m := 0; m <= all; m++ {
		every = append(every, m)
	}
	some := []int{all, all &^ 1, all &^ 2, all &^ 0x18, 6, 0x38}
	run("given-2", alphabet, 2, every, false)
	run("given-3", alphabet, 3, every, false)
	run("given-4", alphabet[:18], 4, some, false)
	run("given-5", alphabet[:14], 5, []int{all, all &^ 0x19}, false)
	sc = append(sc, vh.Scenario{Name: "styles", Run: func(r *vh.R) {
		defer func() { style = 0 }()
		for style = 1; style <= 2; style++ {
			entries(alphabet, r.Pick(2, 3), func(es []entry) bool {
				for _, m := range every {
					given(r, es, m)
				}
				return !r.Stop()
			})
			entries(alphabet[:18], r.Pick(3, 4), func(es []entry) bool {
				for _, m := range some {
					given(r, es, m)
				}
				return !r.Stop()
			})
		}
	}})
	var many []int
	for _, m := range every {
		if bits.OnesCount(uint(m)) >= 4 {
			many = append(many, m)
		}
	}
	run("given-4-all", alphabet, 4, many, true)
	run("given-5-all", alphabet[:18], 5, some, true)
	run("given-6", alphabet[3:13], 6, []int{all, all &^ 0x19}, true)
	sc = append(sc, vh.Scenario{Name: "many-formats", Run: func(r *vh.R) {
		// two or three formats of interest among many others
		use := []entry{{0, ""}, {8, "PCMA/8000"}, {9, ""}, {111, "opus/48000/2"}, {101, "telephone-event/8000"}, {127, "XA/16000"}}
		var rest []entry
		for k := range 40 {
			switch {
			case k%4 == 1:
				rest = append(rest, entry{[]int{3, 4, 5, 7, 12, 13, 15, 18, 33, 34}[k/4], ""})
			case k%4 == 3:
				rest = append(rest, entry{35 + k, "telephone-event/48000"})
			default:
				rest = append(rest, entry{[]int{96, 112}[k%4/2] + k/4, []string{"speex/16000", "CN/8000", "red/48000/2", "PCMU/16000"}[k/4%4]})
			}
		}
		for k := 1; k <= len(rest) && !r.Stop(); k++ {
			for i := range use {
				for j := range use {
					for _, at := range []int{0, k / 2, k - 1, k} {
						for _, last := range []bool{false, true} {
							es := append(append(slices.Clone(rest[:at]), use[i]), rest[at:k]...)
							if i != j {
								if last {
									es = append(es, use[j])
								} else {
									es = append([]entry{use[j]}, es...)
								}
							}
							given(r, es, all)
						}
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "types", Run: func(r *vh.R) {
		// every payload type, mapped to every name
		names := []string{"", "telephone-event/8000", "unknown/8000"}
		for _, c := range known {
			names = append(names, c.name)
		}
		for pt := 0; pt < 600; pt++ {
			for _, n := range names {
				if i := slices.IndexFunc(known, func(c codec) bool { return c.static == pt }); i >= 0 && n != "" && n != known[i].name {
					continue // a static type has one meaning
				}
				for _, m := range []int{all, all &^ 2, 1} {
					given(r, []entry{{pt, n}}, m)
					for _, o := range []int{0, 9, 100} {
						if o == pt {
							continue
						}
						other := entry{o, ""}
						if o == 100 {
							other.name = "telephone-event/8000"
						}
						given(r, []entry{{pt, n}, other}, m)
						given(r, []entry{other, {pt, n}}, m)
					}
				}
			}
			if r.Stop() {
				return
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "addresses", Run: func(r *vh.R) {
		addrs := []string{"", "10.0.0.1", "10.0.0.2", "2001:db8::5", "10.0.0.3"}
		video := "m=video 9000 RTP/AVP 96 0\r\nc=IN IP4 10.7.7.7\r\na=rtpmap:96 VP8/90000\r\na=rtpmap:0 XA/16000\r\n"
		for _, s := range addrs {
			for _, m := range addrs {
				for _, o := range addrs[1:] {
					for _, p := range []int{0, 1, 5004, 65535, 65536, 65537, 70000} {
						for _, pre := range []string{"", video, "m=application 9 TCP x\r\n"} {
							desc := fmt.Sprintf("session address %q, media address %q, origin %q, port %d, preceded by %q", s, m, o, p, pre)
							r.Case()
							r.Guard("panic", desc, func() {
								enable(all, true)
								want := m
								if want == "" {
									want = s
								}
								if want == "" {
									want = o
								}
								src := text([]entry{{8, "PCMA/8000"}, {0, ""}}, s, m, o, p, pre) + "m=audio 1111 RTP/AVP 9\r\nc=IN IP4 10.8.8.8\r\na=rtpmap:9 G722/8000\r\n"
								of, err := sdp.ParseOffer([]byte(src))
								if p == 0 || p > 65535 {
									if err == nil {
										r.Fail("port", "%s: accepted with address %v", desc, of.Addr)
									}
									return
								}
								if err != nil {
									r.Fail("parse", "%s: %v", desc, err)
									return
								}
								_, mc, err := of.Answer(ipB, 7000, sdp.EncryptionNone)
								if err != nil {
									r.Fail("answer", "%s: %v", desc, err)
									return
								}
								exp := netip.AddrPortFrom(netip.MustParseAddr(want), uint16(p))
								checkConf(r, desc, "answerer", mc, netip.AddrPortFrom(ipB, 7000), exp, [][2]int{{0, 1}}, nil)
								r.Nontrivial(s, m, o, p)
							})
							r.Step(1)
							r.State(s, m, o, p, pre)
						}
					}
				}
			}
		}
	}})
	vh.Main(vh.Check{ID: "C20", Level: "model_checking",
		Rule:      "every pair of codec settings of two endpoints, and every list of up to three (part: five) formats from an alphabet of spellings, negotiated through real SDP texts and compared with a reference",
		Scenarios: sc})
}
