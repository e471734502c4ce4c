// C22: no SDP text crashes the parser or the negotiation.
package main

import (
	"fmt"
	"net/netip"
	"strings"

	psdp "github.com/pion/sdp/v3"

	_ "github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/vh"
)

var modes = []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire}

var (
	ip  = netip.MustParseAddr("192.0.2.77")
	own [3]*sdp.Offer
	// the description last seen to be accepted, as the other side's offer
)

func init() {
	for i, m := range modes {
		o, err := sdp.NewOffer(ip, 7000, m)
		if err != nil {
			panic(err)
		}
		own[i] = o
	}
}

func one(r *vh.R, text string) {
	r.Case()
	r.Step(1)
	quote := func() string { return fmt.Sprintf("%q", text) }
	stage := "parse"
	r.Guard("panic", "", func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("panic-"+stage, "%s panics: %v on %s", stage, e, quote())
			}
		}()
		d, err := sdp.Parse([]byte(text))
		if (d == nil) == (err == nil) {
			r.Fail("result", "description %v, error %v of %s", d, err, quote())
			return
		}
		if err != nil {
			r.State(err.Error())
			return
		}
		if !d.Addr.IsValid() || !d.Addr.Addr().IsValid() || d.Addr.Port() == 0 {
			r.Fail("address", "address %v accepted of %s", d.Addr, quote())
		}
		r.State(fmt.Sprint(d.Addr, d.DTMFType, len(d.Codecs), len(d.CryptoProfiles)))
		stage = "offer"
		of, err := sdp.ParseOffer([]byte(text))
		if err != nil {
			r.Fail("result", "accepted, but not as an offer: %v, %s", err, quote())
			return
		}
		stage = "answer"
		an, err := sdp.ParseAnswer([]byte(text))
		if err != nil {
			r.Fail("result", "accepted, but not as an answer: %v, %s", err, quote())
			return
		}
		nt := false
		for i, m := range modes {
			stage = "answering"
			ans, mc, err := of.Answer(ip, 7000, m)
			if err == nil {
				nt = true
				if ans == nil || mc == nil || mc.Audio.Codec == nil || mc.Remote != d.Addr || m == sdp.EncryptionRequire && mc.Crypto == nil {
					r.Fail("incomplete", "answered with %v, %v, mode %d, %s", ans, mc, m, quote())
				} else {
					stage = "marshalling the answer"
					if _, err := ans.SDP.Marshal(); err != nil {
						r.Fail("marshal", "%v, %s", err, quote())
					}
					for _, m2 := range modes {
						stage = "applying our answer to it"
						_, _ = ans.Apply(of, m2)
					}
				}
			}
			stage = "applying"
			mc, err = an.Apply(own[i], m)
			if err == nil {
				nt = true
				if mc == nil || mc.Audio.Codec == nil || mc.Remote != d.Addr || m == sdp.EncryptionRequire && mc.Crypto == nil {
					r.Fail("incomplete", "applied with %v, mode %d, %s", mc, m, quote())
				}
			}
			stage = "applying to itself"
			_, _ = an.Apply(of, m)
		}
		stage = "marshalling"
		_, _ = d.SDP.Marshal()
		if nt {
			r.Nontrivial(len(text), d.Addr, d.DTMFType, len(d.Codecs), len(d.CryptoProfiles))
		}
	})
}

const key30 = "pMIPxjzYIG5TQuIWfkjTnaACVrzohhFfOGhSMgV1"
const key46 = "BvoLeRu5IcBkgNN14qtqaxi0r7ei2rwuBSodd0SANggS9JHsp5IU7lhEsyna1A=="

// slots of a description, in order; the first variant is the usual one.
var slots = [][]string{
	/* 0 */ {"v=0", "v=1", "v=", "v=x", "", "v=0\r\nv=0"},
	/* 1 */ {"o=- 1 1 IN IP4 10.1.2.3", "o=- 1 1 IN IP6 ::1", "o=- 1 1 IN IP4 host.example", "o=- 1 1 XX IP4 10.1.2.3", "o=- 1 1 IN IP4", "o=- 18446744073709551615 18446744073709551615 IN IP4 10.1.2.3", "o=- 18446744073709551616 1 IN IP4 1.1.1.1", "o=", "o=- -1 1 IN IP4 10.1.2.3", "o=- 1 1 IN IP4 fe80::1%eth0", ""},
	/* 2 */ {"s=x", "s=", "s= ", ""},
	/* 3 */ {"", "i=x\r\nu=http://x\r\ne=a\r\np=1", "u=%zz", "u=:", "i=", "e=", "p="},
	/* 4 */ {"c=IN IP4 10.1.2.4", "", "c=IN IP4", "c=IN IP4 ", "c=IN", "c=", "c=IN IP6 ::1", "c=XX IP4 10.1.1.1", "c=IN XX 10.1.1.1", "c=IN IP4 host.example", "c=IN IP4 224.2.1.1/127/3", "c=IN IP4 224.2.1.1/x", "c=IN IP4 1.1.1.1/", "c=IN IP4 /", "c=IN IP4 /1", "c=IN IP4 1.1.1", "c=IN IP4 0.0.0.0", "c=IN IP6 ::/3/4/5", "c=IN IP4 1.1.1.1 2.2.2.2"},
	/* 5 */ {"", "b=AS:64", "b=X-y:1", "b=AS", "b=AS:x", "b=", "b=:1", "b=X-:99999999999999999999"},
	/* 6 */ {"t=0 0", "t=", "t=0", "t=x 0", "t=0 x", "t=0 0 0", "t=0 0\r\nt=1 2", "t=0 0\r\nr=7d 1h 0 25h", "t=0 0\r\nr=1", "t=0 0\r\nr=d h m", "t=0 0\r\nr=-", "t=0 0\r\nr=7d 1h", "t=0 0\r\nr=1 1 d", "t=0 0\r\nz=1 2 3 4", "t=0 0\r\nz=1", "t=0 0\r\nz=1 x", "t=0 0\r\nk=clear:x", "t=0 0\r\nk=", ""},
	/* 7 */ {"", "a=sendrecv", "a=", "a=:", "a=x:", "a=:x", "a=rtpmap:0 PCMU/8000", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:x", "x=1", "a", "="},
	/* 8 */ {"", "m=video 9 RTP/AVP 96\r\nc=IN IP4\r\na=rtpmap:96 VP8/90000", "m=audio 0 RTP/AVP", "m=image 9 udptl t38", "m=", "m=video"},
	/* 9 */ {"m=audio 5004 RTP/AVP 0 8 9 101", "m=audio 5004 RTP/SAVP 0 101", "m=audio 5004 RTP/AVP", "m=audio 5004 RTP/AVP ", "m=audio 5004", "m=audio", "m=audio ", "m=", "m=audio 0 RTP/AVP 0", "m=audio -1 RTP/AVP 0", "m=audio 65535 RTP/AVP 0", "m=audio 65536 RTP/AVP 0", "m=audio 131072 RTP/AVP 0", "m=audio 4294967296 RTP/AVP 0", "m=audio x RTP/AVP 0", "m=audio 5004/2 RTP/AVP 0", "m=audio 5004/x RTP/AVP 0", "m=audio /2 RTP/AVP 0", "m=audio 5004/ RTP/AVP 0", "m=audio 5004 RTP/AVP 255", "m=audio 5004 RTP/AVP 254 256 511 65535", "m=audio 5004 RTP/AVP -1", "m=audio 5004 RTP/AVP 99999999999999999999", "m=audio 5004 RTP/AVP *", "m=audio 5004 RTP/AVP 127 128", "m=audio 5004 / 0", "m=audio 5004  0", "m=AUDIO 5004 RTP/AVP 0", "m=audio 5004 FOO/BAR 0", "m=text 5004 RTP/AVP 0", ""},
	/* 10 */ {"", "c=IN IP4 10.1.2.5", "c=IN IP4", "c=IN IP4 ", "c=IN", "c=XX IP4 1.1.1.1", "c=IN IP4 host.example", "c=IN IP6 ::1/1", "c=IN IP4 1.1.1.1\r\nc=IN IP4", "c=IN IP4\r\nc=IN IP4 1.1.1.1", "i=t\r\nc=IN IP4 10.1.1.1", "b=AS:x"},
	/* 11, 12 */ attrs, attrs,
	/* 13 */ {"", "a=sendrecv", "m=audio 5 RTP/AVP 0", "m=audio", "\r\n", "\r\n\r\n", "x", "k=x", "m=video 0 UDP/TLS/RTP/SAVPF 0\r\na=inactive"},
}

var attrs = []string{
	"", "a=rtpmap:0 PCMU/8000", "a=rtpmap:", "a=rtpmap:0", "a=rtpmap:0 ", "a=rtpmap: PCMU/8000", "a=rtpmap:x PCMU/8000", "a=rtpmap:-1 PCMU/8000", "a=rtpmap:255 PCMU/8000", "a=rtpmap:256 PCMU/8000", "a=rtpmap:65536 PCMA/8000", "a=rtpmap:99999999999999999999 PCMU/8000",
	"a=rtpmap:0 PCMU/8000/1", "a=rtpmap:9 G722/8000/2", "a=rtpmap:0 /", "a=rtpmap:0 //", "a=rtpmap:0 PCMU", "a=rtpmap:101 telephone-event/8000", "a=rtpmap:255 telephone-event/8000", "a=rtpmap:-1 telephone-event/8000", "a=rtpmap:0 telephone-event/8000", "a=rtpmap:101 telephone-event", "a=fmtp:101 0-16", "a=fmtp:", "a=rtpmap",
	"a=crypto", "a=crypto:", "a=crypto: ", "a=crypto:1", "a=crypto:1 AES_CM_128_HMAC_SHA1_80", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 ", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:|", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:||", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:A", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:AA", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:AAAA", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:pMIPxjzYIG5TQuIWfkjTnQ",
	"a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:" + key30, "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:" + key46, "a=crypto:3 AES_256_CM_HMAC_SHA1_80 inline:" + key46, "a=crypto:3 AES_256_CM_HMAC_SHA1_32 inline:" + key30, "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|2^31|1:4", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|1:8", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|2^31|1:4|x", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|2^31|:", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|2^|1:4", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|2^31|1:255", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "||", "a=crypto:2 AES_CM_128_HMAC_SHA1_32 inline:" + key30 + "|:|:",
	"a=crypto:x AES_CM_128_HMAC_SHA1_80 inline:" + key30, "a=crypto:-1 AES_CM_128_HMAC_SHA1_80 inline:" + key30, "a=crypto:1 UNKNOWN inline:A", "a=crypto:1 UNKNOWN inline:" + key30, "a=crypto:1  inline:" + key30, "a=crypto:1 AEAD_AES_128_GCM inline:AA", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 uri:x",
	"a=ptime:20", "a=:", "a=", "a=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:" + key30 + " FEC_ORDER=FEC_SRTP",
}

func build(ix map[int]int, eol string) string {
	var b strings.Builder
	for i, s := range slots {
		if v := s[ix[i]]; v != "" {
			b.WriteString(strings.ReplaceAll(v, "\r\n", eol))
			b.WriteString(eol)
		}
	}
	return b.String()
}

// cross tries every combination of the given slots.
func cross(r *vh.R, eol string, over ...int) bool {
	dims := make([]int, len(over))
	for i, s := range over {
		dims[i] = len(slots[s])
	}
	return vh.Prod(dims, func(ix []int) bool {
		m := map[int]int{}
		for i, s := range over {
			m[s] = ix[i]
		}
		one(r, build(m, eol))
		return !r.Stop()
	})
}

var bases = []string{
	build(map[int]int{}, "\r\n"),
	build(map[int]int{9: 1, 10: 1, 11: 42, 12: 17}, "\r\n"),
	"v=0\no=- 1 1 IN IP4 1.1.1.1\ns=\nt=0 0\nm=audio 1 RTP/AVP 255\nc=IN IP4 1.1.1.1\na=rtpmap:255 PCMU/8000\na=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:" + key30 + "|2^1|1:1\n",
}

func main() {
	var sc []vh.Scenario
	sc = append(sc, vh.Scenario{Name: "pairs", Run: func(r *vh.R) {
		for _, eol := range []string{"\r\n", "\n", "\r"} {
			for a := range slots {
				for b := a + 1; b < len(slots); b++ {
					if !cross(r, eol, a, b) {
						return
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "address", Run: func(r *vh.R) { cross(r, "\r\n", 1, 4, 9, 10) }})
	sc = append(sc, vh.Scenario{Name: "media", Run: func(r *vh.R) { cross(r, "\r\n", 9, 11, 12) }})
	sc = append(sc, vh.Scenario{Name: "media-after", Run: func(r *vh.R) { cross(r, "\r\n", 8, 11, 12, 13) }})
	sc = append(sc, vh.Scenario{Name: "address-media", Run: func(r *vh.R) { cross(r, "\r\n", 8, 9, 10, 11) }})
	sc = append(sc, vh.Scenario{Name: "triples", Thorough: true, Run: func(r *vh.R) {
		for a := range slots {
			for b := a + 1; b < len(slots); b++ {
				for c := b + 1; c < len(slots); c++ {
					if !cross(r, "\r\n", a, b, c) {
						return
					}
				}
			}
		}
	}})
	for n, base := range bases {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("bytes-%d", n), Run: func(r *vh.R) {
			for i := 0; i <= len(base) && !r.Stop(); i++ {
				one(r, base[:i])
				one(r, base[i:])
				for c := 0; c < 256; c++ {
					one(r, base[:i]+string([]byte{byte(c)})+base[i:])
					if i < len(base) {
						one(r, base[:i]+string([]byte{byte(c)})+base[i+1:])
					}
				}
				for j := i + 1; j <= len(base); j++ {
					one(r, base[:i]+base[j:])
				}
			}
		}})
		small := []byte("\r\n =/:|09-x\x00\xff")
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("two-bytes-%d", n), Thorough: true, Run: func(r *vh.R) {
			for i := 0; i < len(base) && !r.Stop(); i++ {
				for j := i + 1; j < len(base); j++ {
					for _, a := range small {
						for _, b := range small {
							t := []byte(base)
							t[i], t[j] = a, b
							one(r, string(t))
						}
					}
				}
			}
		}})
	}
	// descriptions put together by hand
	sc = append(sc, vh.Scenario{Name: "structures", Run: func(r *vh.R) {
		ci := []*psdp.ConnectionInformation{nil, {}, {NetworkType: "IN"}, {NetworkType: "IN", Address: &psdp.Address{}}, {NetworkType: "IN", AddressType: "IP4", Address: &psdp.Address{Address: "1.1.1.1"}}, {NetworkType: "XX", Address: &psdp.Address{Address: "1.1.1.1"}}}
		orig := []psdp.Origin{{}, {NetworkType: "IN"}, {NetworkType: "IN", UnicastAddress: "2.2.2.2"}}
		vh.Prod([]int{len(ci), len(ci), len(orig), len(attrs), 3}, func(ix []int) bool {
			r.Case()
			r.Step(1)
			r.State(ix)
			desc := fmt.Sprint("structure ", ix)
			r.Guard("panic", desc, func() {
				m := &psdp.MediaDescription{ConnectionInformation: ci[ix[0]], MediaName: psdp.MediaName{Media: "audio", Port: psdp.RangedPort{Value: ix[4] * 65535}, Formats: []string{"", "x", "0", "255", "-1"}}}
				if k, v, ok := strings.Cut(strings.TrimPrefix(attrs[ix[3]], "a="), ":"); ok {
					m.Attributes = append(m.Attributes, psdp.Attribute{Key: k, Value: v})
				}
				s := &psdp.SessionDescription{Origin: orig[ix[2]], ConnectionInformation: ci[ix[1]], MediaDescriptions: []*psdp.MediaDescription{m}}
				a, err := sdp.GetAudioDest(s, sdp.GetAudio(s))
				if err == nil && !a.IsValid() {
					r.Fail("address", "%s: %v accepted", desc, a)
				}
				if md, err := sdp.ParseMedia(m); err == nil {
					for _, b := range []bool{false, true} {
						if _, err := sdp.SelectAudio(*md, b); err == nil {
							r.Nontrivial(ix[3])
						}
						_, _, _ = sdp.SelectCrypto(md.CryptoProfiles, own[1].CryptoProfiles, b)
						_, _, _ = sdp.SelectCrypto(own[1].CryptoProfiles, md.CryptoProfiles, b)
						_, _, _ = sdp.SelectCrypto(md.CryptoProfiles, md.CryptoProfiles, b)
					}
				}
				if _, err := sdp.GetAudioDest(nil, nil); err == nil {
					r.Fail("address", "no description has an address")
				}
			})
			return !r.Stop()
		})
	}})
	vh.Main(vh.Check{ID: "C22", Level: "model_checking",
		Rule:      "every combination of line variants in pairs of slots and in the address and media slots, every text one byte or one deleted range away from three base texts, and every hand-made structure; each accepted text is answered and applied in all modes",
		Scenarios: sc})
}
