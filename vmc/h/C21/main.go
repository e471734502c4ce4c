// C21: SDP crypto negotiation yields mirrored keys or none.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"net/netip"
	"strconv"
	"strings"

	prtp "github.com/pion/rtp"
	psdp "github.com/pion/sdp/v3"
	psrtp "github.com/pion/srtp/v3"

	_ "github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/vh"
)

type prof struct {
	name      string
	key, salt int
	id        psrtp.ProtectionProfile
	tag       int
}

var profs = []prof{
	{"AES_CM_128_HMAC_SHA1_80", 16, 14, psrtp.ProtectionProfileAes128CmHmacSha1_80, 10},
	{"AES_CM_128_HMAC_SHA1_32", 16, 14, psrtp.ProtectionProfileAes128CmHmacSha1_32, 4},
	{"AES_256_CM_HMAC_SHA1_80", 32, 14, psrtp.ProtectionProfileAes256CmHmacSha1_80, 10},
	{"AES_256_CM_HMAC_SHA1_32", 32, 14, psrtp.ProtectionProfileAes256CmHmacSha1_32, 4},
	{"AEAD_AES_128_GCM", 16, 12, 0, 0}, // not supported
}

var modes = []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire}
var modeName = []string{"none", "allow", "require"}

var (
	ipA = netip.MustParseAddr("10.1.2.3")
	ipB = netip.MustParseAddr("192.0.2.77")
)

// line is a crypto attribute by meaning.
type line struct {
	tag  int
	p    int
	keys []byte
	pad  bool
	life string
	mki  string
}

func (l line) String() string {
	enc := base64.RawStdEncoding
	if l.pad {
		enc = base64.StdEncoding
	}
	s := fmt.Sprintf("%d %s inline:%s", l.tag, profs[l.p].name, enc.EncodeToString(l.keys))
	if l.life != "" {
		s += "|" + l.life
	}
	if l.mki != "" {
		s += "|" + l.mki
	}
	return s
}

func material(p, seed int) []byte {
	b := make([]byte, profs[p].key+profs[p].salt)
	for i := range b {
		b[i] = byte(i*(2*seed+1) + seed*37 + 11*p)
	}
	return b
}

func mkiBytes(v uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

func parseAttr(vals ...string) (*sdp.MediaDesc, error) {
	d := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio", Formats: []string{"0"}}}
	for _, v := range vals {
		d.Attributes = append(d.Attributes, psdp.Attribute{Key: "crypto", Value: v})
	}
	return sdp.ParseMedia(d)
}

// attributes: parsing of well formed and malformed lines.
func attributes(r *vh.R) {
	type life struct {
		s string
		v uint64
	}
	lifes := []life{{"", 0}, {"1", 1}, {"42", 42}, {"18446744073709551615", 1<<64 - 1}}
	for e := 0; e < 64; e++ {
		lifes = append(lifes, life{"2^" + strconv.Itoa(e), 1 << e})
	}
	type mki struct {
		s string
		b []byte
	}
	mkis := []mki{{"", nil}}
	for n := 1; n <= 8; n++ {
		for _, v := range []uint64{0, 1, 0x0102030405060708 >> (64 - 8*n), 1<<(8*n-1) - 1, 1 << (8*n - 1), 1<<(8*n) - 1} {
			mkis = append(mkis, mki{fmt.Sprintf("%d:%d", v, n), mkiBytes(v, n)})
		}
	}
	for p := range profs {
		for seed := 0; seed < 3 && !r.Stop(); seed++ {
			for _, pad := range []bool{false, true} {
				for _, tag := range []int{1, 2, 9, 999999999} {
					for _, lf := range lifes {
						for _, mk := range mkis {
							l := line{tag, p, material(p, seed), pad, lf.s, mk.s}
							for _, sp := range []string{"", " "} {
								val := l.String() + sp
								r.Case()
								r.Guard("panic", val, func() {
									m, err := parseAttr(val)
									if err != nil {
										r.Fail("refused", "%q: %v", val, err)
										return
									}
									if len(m.CryptoProfiles) != 1 {
										r.Fail("ignored", "%q: %d profiles", val, len(m.CryptoProfiles))
										return
									}
									g := m.CryptoProfiles[0]
									if g.Index != tag || string(g.Profile) != profs[p].name {
										r.Fail("tag", "%q: parsed as %d %s", val, g.Index, g.Profile)
									}
									k, s := l.keys[:profs[p].key], l.keys[profs[p].key:]
									if profs[p].id != 0 && (!bytes.Equal(g.Key, k) || !bytes.Equal(g.Salt, s)) {
										r.Fail("key", "%q: key %x salt %x", val, g.Key, g.Salt)
									}
									if g.Lifetime != lf.v {
										r.Fail("lifetime", "%q: lifetime %d", val, g.Lifetime)
									}
									if !bytes.Equal(g.MKI, mk.b) {
										r.Fail("mki", "%q: identifier %x, want %x", val, g.MKI, mk.b)
									}
								})
								r.Step(1)
							}
							r.State(p, seed, pad, tag, lf.s, mk.s)
							r.Nontrivial(lf.s, mk.s)
						}
					}
				}
			}
		}
	}
}

func malformed(r *vh.R) {
	try := func(val string) {
		r.Case()
		r.Step(1)
		r.State(val)
		r.Guard("panic", val, func() {
			m, err := parseAttr(val)
			if err == nil {
				r.Fail("accepted", "%q: accepted as %v", val, m.CryptoProfiles)
			} else {
				r.Nontrivial(err.Error())
			}
			// neither with good ones around it
			good := line{1, 0, material(0, 1), false, "", ""}.String()
			if _, err := parseAttr(good, val); err == nil {
				r.Fail("accepted", "%q: accepted after a good one", val)
			}
			if _, err := parseAttr(val, good); err == nil {
				r.Fail("accepted", "%q: accepted before a good one", val)
			}
		})
	}
	for p := range profs[:4] {
		good := line{1, p, material(p, 1), false, "", ""}
		full := good.String()
		// key material of any other length
		for n := 0; n < 80; n++ {
			if n == len(good.keys) {
				continue
			}
			for _, pad := range []bool{false, true} {
				l := good
				l.keys, l.pad = bytes.Repeat([]byte{0xa5}, n), pad
				try(l.String())
				l.life, l.mki = "2^20", "1:4"
				try(l.String())
			}
		}
		// characters outside the alphabet, at every position
		at := strings.Index(full, "inline:") + len("inline:")
		for i := at; i < len(full); i++ {
			for _, c := range []string{"*", "-", "_", "=", ".", "\x00", "\u00e9"} {
				if c == "=" && i >= len(full)-2 {
					continue
				}
				try(full[:i] + c + full[i+1:])
			}
		}
		for _, bad := range []string{"0", "-1", "x", "2^64", "2^65", "2^100", "2^-1", "2^", "2^x", "3^4", "18446744073709551616", "1.5", "2^20x", "0x10", "2^99999999999999999999"} {
			l := good
			l.life = bad
			try(l.String())
			l.mki = "1:4"
			try(l.String())
		}
		mk := []string{"1", "a:4", "1:a", "1:0", "1:9", "1:-1", "-1:4", "1:128", "1:256", "1:257", "18446744073709551616:8", ":4", "1:", ":", "1:4:4"}
		for n := 1; n < 8; n++ {
			mk = append(mk, fmt.Sprintf("%d:%d", uint64(1)<<(8*n), n), fmt.Sprintf("%d:%d", uint64(1<<64-1), n))
		}
		for _, bad := range mk {
			l := good
			l.mki = bad
			l.life = "2^20"
			try(l.String())
			l.life = ""
			if bad != "1" {
				try(l.String())
			}
		}
		for _, tag := range []string{"x", "1x", "99999999999999999999", "1.5"} {
			try(tag + full[1:])
		}
	}
}

// send checks that what one side encrypts the other one decrypts, and that the identifier is on the wire.
func send(from, to *srtp.Config, mki []byte) error {
	w, err := psrtp.CreateContext(from.Keys.LocalMasterKey, from.Keys.LocalMasterSalt, from.Profile, from.LocalOptions...)
	if err != nil {
		return fmt.Errorf("sender: %v", err)
	}
	rd, err := psrtp.CreateContext(to.Keys.RemoteMasterKey, to.Keys.RemoteMasterSalt, to.Profile, to.RemoteOptions...)
	if err != nil {
		return fmt.Errorf("receiver: %v", err)
	}
	pay := []byte("payload of a packet")
	plain, err := (&prtp.Packet{Header: prtp.Header{Version: 2, PayloadType: 8, SequenceNumber: 7, SSRC: 99}, Payload: pay}).Marshal()
	if err != nil {
		return err
	}
	enc, err := w.EncryptRTP(nil, plain, nil)
	if err != nil {
		return fmt.Errorf("encrypt: %v", err)
	}
	if bytes.Contains(enc, pay) {
		return errors.New("sent in clear")
	}
	tag := 0
	for _, p := range profs {
		if p.id == from.Profile {
			tag = p.tag
		}
	}
	if len(enc) != len(plain)+len(mki)+tag {
		return fmt.Errorf("%d bytes encrypted to %d with a tag of %d and an identifier of %d", len(plain), len(enc), tag, len(mki))
	}
	if !bytes.Equal(enc[len(plain):len(plain)+len(mki)], mki) {
		return fmt.Errorf("identifier on the wire %x, want %x", enc[len(plain):len(plain)+len(mki)], mki)
	}
	dec, err := rd.DecryptRTP(nil, enc, nil)
	if err != nil {
		return fmt.Errorf("decrypt: %v", err)
	}
	if !bytes.Equal(dec, plain) {
		return errors.New("decrypted to something else")
	}
	return nil
}

// mirrored checks two configurations; mkiA and mkiB are what each side announced.
func mirrored(r *vh.R, desc string, a, b *srtp.Config, mkiA, mkiB []byte) {
	if a.Profile != b.Profile {
		r.Fail("profile", "%s: profiles %v and %v", desc, a.Profile, b.Profile)
		return
	}
	ka, kb := a.Keys, b.Keys
	if !bytes.Equal(ka.LocalMasterKey, kb.RemoteMasterKey) || !bytes.Equal(ka.LocalMasterSalt, kb.RemoteMasterSalt) ||
		!bytes.Equal(kb.LocalMasterKey, ka.RemoteMasterKey) || !bytes.Equal(kb.LocalMasterSalt, ka.RemoteMasterSalt) {
		r.Fail("keys", "%s: keys are not mirrored: %x and %x", desc, ka, kb)
		return
	}
	if bytes.Equal(ka.LocalMasterKey, ka.RemoteMasterKey) {
		r.Fail("keys", "%s: both sides use one key", desc)
	}
	if err := send(a, b, mkiA); err != nil {
		r.Fail("send", "%s: offerer to answerer: %v", desc, err)
	}
	if err := send(b, a, mkiB); err != nil {
		r.Fail("send", "%s: answerer to offerer: %v", desc, err)
	}
}

func crypto(text string) (out []string) {
	for _, l := range strings.Split(text, "\r\n") {
		if v, ok := strings.CutPrefix(l, "a=crypto:"); ok {
			out = append(out, v)
		}
	}
	return out
}

// own negotiates between two of our endpoints.
func own(r *vh.R, ea, eb int, serA, serB bool) {
	desc := fmt.Sprintf("offerer %s, answerer %s, offer serialised %v, answer %v", modeName[ea], modeName[eb], serA, serB)
	r.Case()
	r.Step(1)
	r.State(desc)
	r.Guard("panic", desc, func() {
		offer, err := sdp.NewOffer(ipA, 5000, modes[ea])
		if err != nil {
			r.Fail("offer", "%s: %v", desc, err)
			return
		}
		if n := len(offer.CryptoProfiles); (n > 0) != (ea > 0) {
			r.Fail("offer", "%s: %d profiles offered", desc, n)
		}
		ot, err := offer.SDP.Marshal()
		if err != nil {
			r.Fail("marshal", "%s: %v", desc, err)
			return
		}
		o2 := offer
		if serA {
			if o2, err = sdp.ParseOffer(ot); err != nil {
				r.Fail("parse", "%s: %v", desc, err)
				return
			}
		}
		ans, cb, err := o2.Answer(ipB, 6000, modes[eb])
		if ea == 0 && eb == 2 {
			if !errors.Is(err, sdp.ErrNoCommonCrypto) {
				r.Fail("require", "%s: answered with %v", desc, err)
			}
			return
		}
		if err != nil {
			r.Fail("answer", "%s: %v", desc, err)
			return
		}
		at, err := ans.SDP.Marshal()
		if err != nil {
			r.Fail("marshal", "%s: %v", desc, err)
			return
		}
		a2 := ans
		if serB {
			if a2, err = sdp.ParseAnswer(at); err != nil {
				r.Fail("parse", "%s: %v", desc, err)
				return
			}
		}
		ca, err := a2.Apply(offer, modes[ea])
		both := ea > 0 && eb > 0
		if ea == 2 && !both {
			if !errors.Is(err, sdp.ErrNoCommonCrypto) {
				r.Fail("require", "%s: applied with %v", desc, err)
			}
			return
		}
		if err != nil {
			r.Fail("apply", "%s: %v", desc, err)
			return
		}
		if (ca.Crypto != nil) != both || (cb.Crypto != nil) != both {
			r.Fail("one-side", "%s: offerer encrypts %v, answerer %v", desc, ca.Crypto != nil, cb.Crypto != nil)
			return
		}
		if savp := strings.Contains(string(at), "RTP/SAVP"); savp != both {
			r.Fail("proto", "%s: answer uses SAVP: %v", desc, savp)
		}
		if !both {
			if c := crypto(string(at)); len(c) != 0 {
				r.Fail("one-side", "%s: answer announces %v", desc, c)
			}
			return
		}
		echo(r, desc, string(ot), string(at), ca.Crypto, cb.Crypto, nil)
		r.Nontrivial(desc)
	})
}

// echo checks that the answer accepts one offered line and that the keys in use are the announced ones.
func echo(r *vh.R, desc, ot, at string, ca, cb *srtp.Config, mkis map[int][]byte) {
	ac := crypto(at)
	if len(ac) != 1 {
		r.Fail("echo", "%s: the answer has lines %v", desc, ac)
		return
	}
	f := strings.Fields(ac[0])
	tag, _ := strconv.Atoi(f[0])
	found := false
	for _, o := range crypto(ot) {
		of := strings.Fields(o)
		if of[0] != f[0] {
			continue
		}
		found = true
		if of[1] != f[1] {
			r.Fail("echo", "%s: answer %q to %q", desc, ac[0], o)
			return
		}
		key := func(s string) []byte {
			s = strings.SplitN(strings.TrimPrefix(s, "inline:"), "|", 2)[0]
			b, _ := base64.RawStdEncoding.DecodeString(strings.TrimRight(s, "="))
			return b
		}
		ok, ak := key(of[2]), key(f[2])
		got := func(k, s []byte) []byte { return append(append([]byte{}, k...), s...) }
		if !bytes.Equal(got(ca.Keys.LocalMasterKey, ca.Keys.LocalMasterSalt), ok) {
			r.Fail("announced", "%s: the offerer sends with %x, announced %x on line %s", desc, got(ca.Keys.LocalMasterKey, ca.Keys.LocalMasterSalt), ok, f[0])
		}
		if !bytes.Equal(got(cb.Keys.LocalMasterKey, cb.Keys.LocalMasterSalt), ak) {
			r.Fail("announced", "%s: the answerer sends with %x, announced %x", desc, got(cb.Keys.LocalMasterKey, cb.Keys.LocalMasterSalt), ak)
		}
		for _, p := range profs {
			if p.name == f[1] && ca.Profile != p.id {
				r.Fail("profile", "%s: profile %v in use for %s", desc, ca.Profile, f[1])
			}
		}
	}
	if !found {
		r.Fail("echo", "%s: answer %q to none of %v", desc, ac[0], crypto(ot))
		return
	}
	mirrored(r, desc, ca, cb, mkis[tag], nil)
}

func sdpText(port int, ls []line) string {
	var b strings.Builder
	fmt.Fprintf(&b, "v=0\r\no=- 1 1 IN IP4 10.1.2.3\r\ns=x\r\nc=IN IP4 10.1.2.3\r\nt=0 0\r\nm=audio %d RTP/SAVP 0 8\r\na=rtpmap:0 PCMU/8000\r\n", port)
	for _, l := range ls {
		fmt.Fprintf(&b, "a=crypto:%s\r\n", l)
	}
	return b.String()
}

// given: an offer of someone else with the given lines is answered by us and the answer applied by them
// using the same library.
func given(r *vh.R, ls []line, ea, eb int, mkis map[int][]byte) {
	desc := fmt.Sprintf("offer with %v, offerer %s, answerer %s", ls, modeName[ea], modeName[eb])
	r.Case()
	r.Step(1)
	r.State(desc)
	r.Guard("panic", desc, func() {
		ot := sdpText(5000, ls)
		offer, err := sdp.ParseOffer([]byte(ot))
		if err != nil {
			r.Fail("parse", "%s: %v", desc, err)
			return
		}
		common := false
		for _, l := range ls {
			common = common || profs[l.p].id != 0
		}
		ans, cb, err := offer.Answer(ipB, 6000, modes[eb])
		if eb == 2 && !common {
			if !errors.Is(err, sdp.ErrNoCommonCrypto) {
				r.Fail("require", "%s: answered with %v", desc, err)
			}
			return
		}
		if err != nil {
			r.Fail("answer", "%s: %v", desc, err)
			return
		}
		at, err := ans.SDP.Marshal()
		if err != nil {
			r.Fail("marshal", "%s: %v", desc, err)
			return
		}
		a2, err := sdp.ParseAnswer(at)
		if err != nil {
			r.Fail("parse", "%s: %v", desc, err)
			return
		}
		both := eb > 0 && common
		ca, err := a2.Apply(offer, modes[ea])
		if ea == 2 && !both {
			if !errors.Is(err, sdp.ErrNoCommonCrypto) {
				r.Fail("require", "%s: applied with %v", desc, err)
			}
			return
		}
		if err != nil {
			r.Fail("apply", "%s: %v", desc, err)
			return
		}
		if (ca.Crypto != nil) != both || (cb.Crypto != nil) != both {
			r.Fail("one-side", "%s: offerer encrypts %v, answerer %v", desc, ca.Crypto != nil, cb.Crypto != nil)
			return
		}
		if both {
			echo(r, desc, ot, string(at), ca.Crypto, cb.Crypto, mkis)
			r.Nontrivial(string(at[len(at)-60:]))
		} else if c := crypto(string(at)); len(c) != 0 {
			r.Fail("one-side", "%s: answer announces %v", desc, c)
		}
	})
}

// foreign: our offer, accepted by someone else's answer with the given profile, key and identifier.
func foreign(r *vh.R, p, seed int, pad bool, life string, mki string, mkb []byte, ea int) {
	desc := fmt.Sprintf("our offer (%s) accepted with %s, identifier %q", modeName[ea], profs[p].name, mki)
	r.Case()
	r.Step(1)
	r.State(desc, life, pad)
	r.Guard("panic", desc, func() {
		offer, err := sdp.NewOffer(ipA, 5000, modes[ea])
		if err != nil {
			r.Fail("offer", "%s: %v", desc, err)
			return
		}
		ot, _ := offer.SDP.Marshal()
		for _, o := range crypto(string(ot)) {
			f := strings.Fields(o)
			if f[1] != profs[p].name {
				continue
			}
			tag, _ := strconv.Atoi(f[0])
			l := line{tag, p, material(p, seed), pad, life, mki}
			ans, err := sdp.ParseAnswer([]byte(sdpText(6000, []line{l})))
			if err != nil {
				r.Fail("parse", "%s: %v", desc, err)
				return
			}
			ca, err := ans.Apply(offer, modes[ea])
			if err != nil {
				r.Fail("apply", "%s: %v", desc, err)
				return
			}
			if ca.Crypto == nil {
				r.Fail("one-side", "%s: the offerer does not encrypt", desc)
				return
			}
			ok, _ := base64.RawStdEncoding.DecodeString(strings.TrimRight(strings.TrimPrefix(f[2], "inline:"), "="))
			if len(ok) != profs[p].key+profs[p].salt {
				r.Fail("announced", "%s: offered key material of %d bytes", desc, len(ok))
				return
			}
			cb := &srtp.Config{Profile: profs[p].id, Keys: srtp.SessionKeys{
				LocalMasterKey: l.keys[:profs[p].key], LocalMasterSalt: l.keys[profs[p].key:],
				RemoteMasterKey: ok[:profs[p].key], RemoteMasterSalt: ok[profs[p].key:],
			}}
			if mkb != nil {
				cb.LocalOptions = append(cb.LocalOptions, srtp.MasterKeyIndicator(mkb))
			}
			mirrored(r, desc, ca.Crypto, cb, nil, mkb)
			r.Nontrivial(desc)
			return
		}
		r.Fail("offer", "%s: not offered in %v", desc, crypto(string(ot)))
	})
}

// answers: our offer, answered by someone else with any list of lines, whatever their tags and profiles.
func answers(r *vh.R, n int) {
	tags := []int{1, 2, 3, 4, 5, 99}
	vh.Seqs(n, len(profs)*len(tags), func(s []int) bool {
		var ls []line
		for i, x := range s {
			ls = append(ls, line{tag: tags[x%len(tags)], p: x / len(tags), keys: material(x/len(tags), i+5)})
		}
		for ea := range modes {
			desc := fmt.Sprintf("our offer (%s) answered with %v", modeName[ea], ls)
			r.Case()
			r.Step(1)
			r.State(desc)
			r.Guard("panic", desc, func() {
				offer, err := sdp.NewOffer(ipA, 5000, modes[ea])
				if err != nil {
					r.Fail("offer", "%s: %v", desc, err)
					return
				}
				ans, err := sdp.ParseAnswer([]byte(sdpText(6000, ls)))
				if err != nil {
					r.Fail("parse", "%s: %v", desc, err)
					return
				}
				off := append([]srtp.Profile(nil), offer.CryptoProfiles...)
				may, must := false, false // a line with an offered profile; one which has its tag, too
				for _, l := range ls {
					for _, o := range off {
						if string(o.Profile) == profs[l.p].name && profs[l.p].id != 0 {
							may = true
							must = must || o.Index == l.tag
						}
					}
				}
				cfg, err := ans.Apply(offer, modes[ea])
				switch {
				case err != nil:
					if ea != 2 || must || !errors.Is(err, sdp.ErrNoCommonCrypto) {
						r.Fail("apply", "%s: %v", desc, err)
					}
					return
				case cfg.Crypto == nil:
					if ea == 2 || must {
						r.Fail("require", "%s: applied without encryption", desc)
					}
					return
				case !may:
					r.Fail("no-common", "%s: encrypts with %v", desc, cfg.Crypto.Profile)
					return
				}
				k := cfg.Crypto.Keys
				for _, l := range ls {
					p := profs[l.p]
					if p.id == 0 || p.id != cfg.Crypto.Profile || !bytes.Equal(k.RemoteMasterKey, l.keys[:p.key]) || !bytes.Equal(k.RemoteMasterSalt, l.keys[p.key:]) {
						continue
					}
					for _, o := range off {
						if string(o.Profile) == p.name && bytes.Equal(k.LocalMasterKey, o.Key) && bytes.Equal(k.LocalMasterSalt, o.Salt) {
							r.Nontrivial(desc)
							return
						}
					}
				}
				r.Fail("keys", "%s: profile %v with keys %x belongs to no answered and offered line", desc, cfg.Crypto.Profile, k)
			})
		}
		return !r.Stop()
	})
}

func main() {
	sc := []vh.Scenario{
		{Name: "attributes", Run: attributes},
		{Name: "malformed", Run: malformed},
		{Name: "own", Run: func(r *vh.R) {
			for ea := range modes {
				for eb := range modes {
					for _, sa := range []bool{false, true} {
						for _, sb := range []bool{false, true} {
							own(r, ea, eb, sa, sb)
						}
					}
				}
			}
			// keys are fresh for every offer and every line
			seen := map[string]bool{}
			for i := 0; i < 200; i++ {
				ps, err := srtp.DefaultProfiles()
				if err != nil {
					r.Fail("fresh", "%v", err)
					return
				}
				for _, p := range ps {
					if k := string(p.Key); seen[k] {
						r.Fail("fresh", "key %x twice", p.Key)
					} else {
						seen[k] = true
					}
				}
			}
		}},
		{Name: "foreign", Run: func(r *vh.R) {
			type mk struct {
				s string
				b []byte
			}
			mkis := []mk{{"", nil}}
			for n := 1; n <= 8; n++ {
				for _, v := range []uint64{1, 1<<(8*n) - 1, 0x0807060504030201 >> (64 - 8*n)} {
					mkis = append(mkis, mk{fmt.Sprintf("%d:%d", v, n), mkiBytes(v, n)})
				}
			}
			for p := range profs[:4] {
				for ea := 1; ea < 3; ea++ {
					for _, m := range mkis {
						for _, l := range []string{"", "2^31"} {
							foreign(r, p, 3, true, l, m.s, m.b, ea)
							foreign(r, p, 4, false, l, m.s, m.b, ea)
						}
					}
				}
			}
		}},
	}
	sc = append(sc, vh.Scenario{Name: "many-lines", Run: func(r *vh.R) {
		// one or two usable lines among many others
		var usable, other []int
		for p := range profs {
			if profs[p].id != 0 {
				usable = append(usable, p)
			} else {
				other = append(other, p)
			}
		}
		for k := 1; k <= r.Pick(24, 60) && !r.Stop(); k++ {
			for _, at := range [][]int{{0}, {k - 1}, {k / 2}, {0, k - 1}, {k / 3, k / 2}} {
				for u := range usable {
					for tv := range 3 {
						var ls []line
						for i := range k {
							l := line{tag: []int{i + 1, 1000 * (k - i), 999999999 - i}[tv], p: other[i%len(other)], pad: i%2 == 0}
							for n, a := range at {
								if a == i {
									l.p = usable[(u+n)%len(usable)]
								}
							}
							l.keys = material(l.p, i+1)
							ls = append(ls, l)
						}
						for eb := range modes {
							given(r, ls, 1+tv%2, eb, nil)
						}
					}
				}
			}
		}
	}})
	for n := 0; n <= 3; n++ {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("answers-%d", n), Thorough: n == 3, Run: func(r *vh.R) { answers(r, n) }})
	}
	seqs := func(name string, n, k int, th bool) {
		sc = append(sc, vh.Scenario{Name: name, Thorough: th, Run: func(r *vh.R) {
			for m := 0; m <= n; m++ {
				vh.Seqs(m, len(profs)*2, func(s []int) bool {
					for tv := 0; tv < 2; tv++ {
						var ls []line
						mkis := map[int][]byte{}
						for i, x := range s {
							l := line{tag: i + 1, p: x % len(profs), pad: i%2 == 0}
							if tv == 1 {
								l.tag = 100 - i*7
							}
							l.keys = material(l.p, i+1)
							if x >= len(profs) {
								l.life, l.mki = "2^48", fmt.Sprintf("%d:%d", 5+i, i+1)
								mkis[l.tag] = mkiBytes(uint64(5+i), i+1)
							}
							ls = append(ls, l)
						}
						for ea := 1; ea < 3; ea++ {
							for eb := range modes {
								given(r, ls, ea, eb, mkis)
							}
						}
					}
					return !r.Stop()
				})
			}
		}})
	}
	seqs("offers-3", 3, 0, false)
	seqs("offers-4", 4, 0, true)
	vh.Main(vh.Check{ID: "C21", Level: "model_checking",
		Rule:      "every combination of crypto attribute parts, every listed malformation, every pair of encryption settings and every list of up to three offered lines negotiated through real SDP texts; keys compared and proved usable on a packet in each direction",
		Scenarios: sc})
}
