package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net/netip"
	"reflect"
	"sort"
	"strconv"
	"strings"

	prtp "github.com/pion/rtp"
	psdp "github.com/pion/sdp/v3"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"

	"verif/harness/kit"
)

func init() {
	kit.Register("S01", kit.Check{
		Rule: "Generated descriptions with known contents (addresses on all levels, several media, invalid and out of range types) against a reference, and mutations " +
			"of valid descriptions by bytes, tokens and lines, of which accepted ones must satisfy invariants and survive a round trip. Distinct: texts.",
		Floor: 1000,
		Run:   checkSDPParse,
	})
	kit.Register("S02", kit.Check{
		Rule: "Offers and answers for random addresses, ports, encryption and sets of enabled codecs (including dynamic ones), read by an independent line parser and " +
			"parsed back. Distinct: (address family, port, encryption, codecs).",
		Floor: 300,
		Run:   checkSDPWrite,
	})
	kit.Register("S03", kit.Check{
		Rule: "Random negotiations between two parties with different sets of enabled codecs and with foreign descriptions, against a reference of the selection rules. " +
			"Distinct: (formats, enabled codecs).",
		Floor: 300,
		Run:   checkSDPCodecs,
	})
	kit.Register("S04", kit.Check{
		Rule: "All combinations of encryption modes of both parties, foreign descriptions with random sets, orders and tags of profiles, key identifiers and lifetimes; " +
			"the negotiated keys are used to exchange packets through SRTP sessions. Distinct: (modes, profiles, parameters).",
		Floor: 300,
		Run:   checkSDPCrypto,
	})
}

// Codecs with dynamic types, only for this check.
var sdpExtra = []struct {
	name   string
	prio   int
	static int // -1 for dynamic
	def    byte
}{
	{"XHIGH/16000", 50, -1, 0}, {"xlow/8000", -50, -1, 0}, {"XSTEREO/48000/2", 5, -1, 0},
	{"XLAST/8000", -200, -1, 0},   // after the DTMF
	{"XDEF/8000", 3, -1, 101},     // the default type, which isn't static, may be used by another codec
	{"XDEF2/8000", 3, -1, 111},    // the same priority
	{"XSTATIC/8000", -300, 15, 0}, // static ones go first with any priority
}

func registerExtra() {
	for _, x := range sdpExtra {
		info := msdk.CodecInfo{SDPName: x.name, SampleRate: 8000, Priority: x.prio, RTPDefType: x.def}
		if x.static >= 0 {
			info.RTPDefType, info.RTPIsStatic = byte(x.static), true
		}
		msdk.RegisterCodec(rtp.NewAudioCodec(info, g711.DecodeULaw, g711.EncodeULaw))
	}
}

// sdpCodec is a reference table of codecs.
type sdpCodec struct {
	name   string
	static int // -1 for dynamic
	prio   int
}

var sdpCodecs = []sdpCodec{
	{"G722/8000", 9, 0}, {"PCMU/8000", 0, -10}, {"PCMA/8000", 8, -20}, {"telephone-event/8000", -1, -100},
}

func allSDPCodecs() []sdpCodec {
	out := append([]sdpCodec{}, sdpCodecs...)
	for _, x := range sdpExtra {
		out = append(out, sdpCodec{x.name, x.static, x.prio})
	}
	for i := range out { // actual priorities of the builtin ones
		for _, c := range msdk.Codecs() {
			if c.Info().SDPName == out[i].name {
				out[i].prio = c.Info().Priority
			}
		}
	}
	return out
}

// setEnabled enables only given codecs.
func setEnabled(on map[string]bool) {
	for _, x := range allSDPCodecs() {
		msdk.CodecSetEnabled(x.name, on[strings.ToLower(x.name)])
	}
}

func randEnabled(rnd *rand.Rand) map[string]bool {
	on := make(map[string]bool)
	p := []int{100, 70, 40, 10}[rnd.Intn(4)]
	for _, x := range allSDPCodecs() {
		on[strings.ToLower(x.name)] = rnd.Intn(100) < p
	}
	return on
}

func enabledKey(on map[string]bool) string {
	var out []string
	for k, v := range on {
		if v {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func randCase(rnd *rand.Rand, s string) string {
	if rnd.Intn(2) == 0 {
		return s
	}
	b := []byte(s)
	for i := range b {
		if rnd.Intn(2) == 0 {
			b[i] = strings.ToUpper(s)[i]
		} else {
			b[i] = strings.ToLower(s)[i]
		}
	}
	return string(b)
}

func randIP(rnd *rand.Rand) netip.Addr {
	if rnd.Intn(12) == 0 {
		list := []string{"0.0.0.0", "127.0.0.1", "169.254.1.2", "224.2.1.1", "255.255.255.255", "0.1.2.3", "::", "::2"}
		return netip.MustParseAddr(list[rnd.Intn(len(list))])
	}
	if rnd.Intn(2) == 0 {
		return netip.AddrFrom4([4]byte{byte(1 + rnd.Intn(223)), byte(rnd.Intn(256)), byte(rnd.Intn(256)), byte(rnd.Intn(256))})
	}
	var b [16]byte
	rnd.Read(b[:])
	for k := 2; k < 15; k++ {
		if rnd.Intn(2) == 0 {
			b[k] = 0
		}
	}
	switch rnd.Intn(8) {
	case 0:
		b[0] = 0xfc | b[0]&1 // unique local
	case 1:
		b[0], b[1] = 0xfe, 0x80 // link local
	case 2:
		b[0], b[1] = 0xff, 0x0e // multicast
	case 3:
		b = [16]byte{10: 0xff, 11: 0xff, 12: b[12], 13: b[13], 14: b[14], 15: b[15]} // mapped
	case 4:
		b = [16]byte{15: 1} // loopback
	default:
		b[0] = 0x20
	}
	return netip.AddrFrom16(b)
}

func randPort(rnd *rand.Rand) int {
	switch rnd.Intn(10) {
	case 0:
		return 1 + rnd.Intn(16)
	case 1:
		return 65535 - rnd.Intn(3)
	}
	return 1 + rnd.Intn(65535)
}

func ipType(a netip.Addr) string {
	if a.Is4() {
		return "IP4"
	}
	return "IP6"
}

// sdpEntry is a usable codec of a description.
type sdpEntry struct {
	typ  int
	name string // lower case, of the codec
}

type sdpModel struct {
	text    string
	bad     bool // must be rejected
	addr    netip.AddrPort
	entries []sdpEntry
	dtmf    int
	crypto  cryptoSet
}

// genSDP makes a description with known contents, for the codecs which are enabled.
func genSDP(rnd *rand.Rand, on map[string]bool) sdpModel {
	var m sdpModel
	var b strings.Builder
	origin := randIP(rnd)
	fmt.Fprintf(&b, "v=0\r\no=- %d %d IN %s %s\r\ns=-\r\n", rnd.Uint64(), rnd.Uint32(), ipType(origin), origin)
	addr := origin
	conn := func(a netip.Addr) {
		fmt.Fprintf(&b, "c=IN %s %s\r\n", ipType(a), a)
	}
	if rnd.Intn(2) == 0 {
		addr = randIP(rnd)
		conn(addr)
	}
	if rnd.Intn(10) == 0 {
		b.WriteString("b=AS:64\r\n")
	}
	b.WriteString("t=0 0\r\n")
	if rnd.Intn(4) == 0 {
		b.WriteString("a=rtpmap:0 WRONG/1\r\na=crypto:1 AES_CM_128_HMAC_SHA1_80 inline:AAAA\r\n") // not of the media
	}
	media := []string{"audio"}
	for rnd.Intn(3) == 0 {
		media = append(media, []string{"video", "application", "audio"}[rnd.Intn(3)])
	}
	rnd.Shuffle(len(media), func(i, k int) { media[i], media[k] = media[k], media[i] })
	if rnd.Intn(20) == 0 { // no audio
		media = []string{"video"}[:rnd.Intn(2)]
		m.bad = true
	}
	first := true
	for _, kind := range media {
		use := kind == "audio" && first
		if use {
			first = false
		}
		port := randPort(rnd)
		if use && rnd.Intn(20) == 0 {
			port = 0
			m.bad = true
		}
		// Types and names of the media.
		type line struct{ typ, name string }
		var lines []line
		var formats []string
		used := map[int]bool{}
		all := allSDPCodecs()
		for k := rnd.Intn(7); k > 0; k-- {
			x := all[rnd.Intn(len(all))]
			typ := x.static
			if typ < 0 || rnd.Intn(6) == 0 {
				typ = 96 + rnd.Intn(32)
			}
			if used[typ] {
				continue
			}
			used[typ] = true
			name := x.name
			if strings.Count(name, "/") == 1 && rnd.Intn(5) == 0 {
				name += "/1"
			}
			name = randCase(rnd, name)
			switch rnd.Intn(12) {
			case 0: // unknown codec
				typ, name = 20+rnd.Intn(60), []string{"FOO/8000", "PCMU/16000", "PCMU", "G722/8000/2", "telephone-event/16000", "PCMU/8000/1/1", " PCMU/8000", ""}[rnd.Intn(8)]
			}
			styp := strconv.Itoa(typ)
			bad := rnd.Intn(10) == 0
			if bad {
				styp = []string{"128", "256", "264", "265", "357", "-1", "", "x", "0x8", "8.0", "+", "18446744073709551616"}[rnd.Intn(12)]
			}
			withMap := typ >= 96 || rnd.Intn(3) != 0
			if withMap {
				lines = append(lines, line{styp, name})
			}
			if styp != "" {
				formats = append(formats, styp)
			}
		}
		if len(formats) == 0 {
			formats = []string{"77"}
		}
		if rnd.Intn(4) == 0 {
			formats = append(formats, "77")
		}
		var keys cryptoSet
		if rnd.Intn(3) == 0 {
			keys = genCrypto(rnd)
		}
		proto := "AVP"
		if rnd.Intn(3) == 0 {
			proto = "SAVP"
		}
		fmt.Fprintf(&b, "m=%s %d RTP/%s %s\r\n", kind, port, proto, strings.Join(formats, " "))
		maddr := addr
		if rnd.Intn(2) == 0 {
			maddr = randIP(rnd)
			conn(maddr)
		}
		for _, l := range lines {
			if rnd.Intn(3) == 0 {
				fmt.Fprintf(&b, "a=%s\r\n", []string{"sendrecv", "ptime:20", "fmtp:101 0-15", "rtpmap", "rtpmap:", "rtpmap:8", "crypto", "crypto:", "crypto:1 X", "rtcp:5000 IN IP4 1.1.1.1"}[rnd.Intn(10)])
			}
			fmt.Fprintf(&b, "a=rtpmap:%s %s\r\n", l.typ, l.name)
			if len(keys) > 0 && rnd.Intn(2) == 0 {
				b.WriteString(keys[:1].lines())
				if use {
					m.crypto = append(m.crypto, keys[0])
				}
				keys = keys[1:]
			}
		}
		b.WriteString(keys.lines())
		if !use {
			continue
		}
		m.crypto = append(m.crypto, keys...)
		m.addr = netip.AddrPortFrom(maddr, uint16(port))
		typOf := func(s string) int {
			v, err := strconv.ParseUint(s, 10, 64)
			if err != nil || v > 127 {
				return -1
			}
			return int(v)
		}
		for _, l := range lines {
			typ := typOf(l.typ)
			if typ < 0 {
				continue
			}
			name := strings.ToLower(l.name)
			for _, x := range all {
				full := strings.ToLower(x.name)
				if !on[full] || name != full && !(strings.Count(full, "/") == 1 && name == full+"/1") {
					continue
				}
				if x.name == dtmf.SDPName {
					m.dtmf = typ
				} else {
					m.entries = append(m.entries, sdpEntry{typ, full})
				}
			}
		}
		for _, f := range formats {
			typ := typOf(f)
			for _, x := range all {
				if typ >= 0 && x.static == typ && on[strings.ToLower(x.name)] {
					m.entries = append(m.entries, sdpEntry{typ, strings.ToLower(x.name)})
				}
			}
		}
	}
	m.text = b.String()
	if rnd.Intn(4) == 0 {
		m.text = strings.ReplaceAll(m.text, "\r\n", "\n")
	}
	return m
}

func usable(d sdp.MediaDesc) (out []sdpEntry) {
	for _, x := range d.Codecs {
		if ac, ok := x.Codec.(rtp.AudioCodec); ok && ac != nil {
			out = append(out, sdpEntry{int(x.Type), strings.ToLower(ac.Info().SDPName)})
		}
	}
	return
}

// parseAny parses a description as an offer, as an answer, or as either.
func parseAny(rnd *rand.Rand, data []byte) (*sdp.Description, error) {
	switch rnd.Intn(3) {
	case 0:
		d, err := sdp.ParseOffer(data)
		return (*sdp.Description)(d), err
	case 1:
		d, err := sdp.ParseAnswer(data)
		return (*sdp.Description)(d), err
	}
	return sdp.Parse(data)
}

// checkDest looks for the address of descriptions made by hand.
func checkDest(c *kit.C) {
	fail := func(what string, s *psdp.SessionDescription, a *psdp.MediaDescription) {
		c.Eval("destination: %s", what)
		c.Distinct("destination", what)
		if ap, err := sdp.GetAudioDest(s, a); err == nil {
			c.Fail("destination", "%s: destination is %v, without an error", what, ap)
		}
	}
	ok := func(what string, s *psdp.SessionDescription, a *psdp.MediaDescription, exp string) {
		c.Eval("destination: %s", what)
		c.Distinct("destination", what)
		if ap, err := sdp.GetAudioDest(s, a); err != nil || ap.String() != exp {
			c.Fail("destination", "%s: destination is %v, %v; expected %s", what, ap, err, exp)
		}
	}
	conn := func(net, addr string) *psdp.ConnectionInformation {
		return &psdp.ConnectionInformation{NetworkType: net, AddressType: "IP4", Address: &psdp.Address{Address: addr}}
	}
	org := psdp.Origin{NetworkType: "IN", AddressType: "IP4", UnicastAddress: "1.1.1.1"}
	audio := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio", Port: psdp.RangedPort{Value: 5000}}}
	own := *audio
	own.ConnectionInformation = conn("IN", "3.3.3.3")
	bad := *audio
	bad.ConnectionInformation = conn("IN", "host.example")
	fail("nothing", nil, nil)
	fail("no audio", &psdp.SessionDescription{Origin: org}, nil)
	fail("no session", nil, &own)
	fail("no address", &psdp.SessionDescription{}, audio)
	fail("not an address", &psdp.SessionDescription{Origin: org}, &bad)
	fail("origin of another network", &psdp.SessionDescription{Origin: psdp.Origin{NetworkType: "ATM", UnicastAddress: "1.1.1.1"}}, audio)
	ok("origin", &psdp.SessionDescription{Origin: org}, audio, "1.1.1.1:5000")
	ok("session", &psdp.SessionDescription{Origin: org, ConnectionInformation: conn("IN", "2.2.2.2")}, audio, "2.2.2.2:5000")
	ok("media", &psdp.SessionDescription{Origin: org, ConnectionInformation: conn("IN", "2.2.2.2")}, &own, "3.3.3.3:5000")
	ok("another network", &psdp.SessionDescription{Origin: org, ConnectionInformation: conn("ATM", "2.2.2.2")}, audio, "1.1.1.1:5000")
}

func checkSDPParse(c *kit.C) {
	checkDest(c)
	checkBadCrypto(c)
	registerExtra()
	var corpus []string
	for i := 0; i < c.N(8000, 100000); i++ {
		rnd := c.Rand("gen", i)
		on := randEnabled(rnd)
		setEnabled(on)
		m := genSDP(rnd, on)
		if i%10 == 0 {
			corpus = append(corpus, m.text)
		}
		c.Eval("generated %d: %q", i, m.text)
		c.Distinct(m.text)
		data := []byte(m.text)
		var d *sdp.Description
		var err error
		if !c.Try("parse", func() { d, err = parseAny(rnd, data) }) {
			return
		}
		if string(data) != m.text {
			c.Fail("modified", "input was modified")
		}
		if m.bad {
			if err == nil {
				c.Fail("accepted", "accepted: %v", d.Addr)
				return
			}
			c.Count("rejected", 1)
			continue
		}
		if err != nil {
			c.Fail("rejected", "valid description is rejected: %v", err)
			return
		}
		for k := range data {
			data[k] = 'x' // not retained
		}
		if d.Addr != m.addr {
			c.Fail("address", "address %v, expected %v", d.Addr, m.addr)
			return
		}
		if got := usable(d.MediaDesc); !reflect.DeepEqual(got, m.entries) {
			c.Fail("codecs", "usable codecs %v, expected %v", got, m.entries)
			return
		}
		if int(d.DTMFType) != m.dtmf {
			c.Fail("dtmf", "DTMF type %d, expected %d", d.DTMFType, m.dtmf)
			return
		}
		for _, x := range d.Codecs {
			if x.Type > 127 {
				c.Fail("type", "payload type %d", x.Type)
				return
			}
		}
		if !checkProfiles(c, m.crypto, d.CryptoProfiles) {
			return
		}
		c.Count("crypto profiles", len(d.CryptoProfiles))
		c.Count("accepted", 1)
		c.Count("usable codecs", len(m.entries))
	}
	for _, e := range []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionRequire} {
		setEnabled(map[string]bool{"pcmu/8000": true, "g722/8000": true, "pcma/8000": true, "telephone-event/8000": true})
		o, err := sdp.NewOffer(netip.MustParseAddr("10.1.2.3"), 5000, e)
		if err != nil {
			c.Fail("offer", "%v", err)
			return
		}
		data, _ := o.SDP.Marshal()
		for k := 0; k < 100; k++ {
			corpus = append(corpus, string(data))
		}
	}
	for k := 0; k < 60; k++ {
		rnd := c.Rand("crypto", k)
		corpus = append(corpus, "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nm=audio 5000 RTP/SAVP 0 8\r\n"+genCrypto(rnd).lines()+"a=rtpmap:0 PCMU/8000\r\n")
	}
	setEnabled(map[string]bool{"pcmu/8000": true, "g722/8000": true, "pcma/8000": true, "telephone-event/8000": true, "xhigh/16000": true})
	tokens := []string{"0", "-1", "255", "256", "127", "128", "65535", "65536", "4294967296", "IN", "IP4", "IP6", "::1", "1.2.3.4", "a=", "m=", "c=", "o=", "\r\n", "\n", " ", "/", "|", ":", "2^48",
		"2^64", "inline:", "crypto:", "rtpmap:", "audio", "AES_CM_128_HMAC_SHA1_80", "AEAD_AES_128_GCM", "AAAA", "=", "==", "1:4", "1:9", "1:0", "c=IN IP4 \r\n", "c=IN IP4", "PCMU/8000", "telephone-event/8000"}
	for i := 0; i < c.N(120000, 3000000); i++ {
		rnd := c.Rand("mut", i)
		text := corpus[rnd.Intn(len(corpus))]
		for k := 1 + rnd.Intn(4); k > 0; k-- {
			text = mutate(rnd, text, tokens)
		}
		c.Eval("mutated %d: %q", i, text)
		var d *sdp.Description
		var err error
		if !c.Try("parse", func() { d, err = parseAny(rnd, []byte(text)) }) {
			return
		}
		c.Distinct(text)
		if err != nil {
			c.Count("mutations rejected", 1)
			if d != nil {
				c.Fail("error-result", "both a description and an error are returned")
			}
			continue
		}
		c.Count("mutations accepted", 1)
		if !c.Try("invariants", func() { parsedInvariants(c, rnd, text, d) }) || c.Failed() {
			return
		}
	}
}

func mutate(rnd *rand.Rand, s string, tokens []string) string {
	if len(s) == 0 {
		return tokens[rnd.Intn(len(tokens))]
	}
	i := rnd.Intn(len(s))
	switch rnd.Intn(8) {
	case 0:
		return s[:i] + string([]byte{byte(rnd.Intn(256))}) + s[i+1:]
	case 1:
		return s[:i] + s[i+1:]
	case 2:
		return s[:i] + tokens[rnd.Intn(len(tokens))] + s[i:]
	case 3:
		k := i + rnd.Intn(min(12, len(s)-i))
		return s[:i] + s[k:]
	case 4, 5: // replace a word
		sep := " \r\n:/|="
		a, b := i, i
		for a > 0 && !strings.ContainsRune(sep, rune(s[a-1])) {
			a--
		}
		for b < len(s) && !strings.ContainsRune(sep, rune(s[b])) {
			b++
		}
		return s[:a] + tokens[rnd.Intn(len(tokens))] + s[b:]
	default: // lines
		lines := strings.SplitAfter(s, "\n")
		k := rnd.Intn(len(lines))
		switch rnd.Intn(3) {
		case 0:
			lines = append(lines[:k:k], lines[k+1:]...)
		case 1:
			lines = append(lines[:k+1:k+1], lines[k:]...)
		case 2:
			j := rnd.Intn(len(lines))
			lines[k], lines[j] = lines[j], lines[k]
		}
		return strings.Join(lines, "")
	}
}

func parsedInvariants(c *kit.C, rnd *rand.Rand, text string, d *sdp.Description) {
	if !d.Addr.IsValid() || d.Addr.Port() == 0 {
		c.Fail("invalid-address", "address %v", d.Addr)
	}
	audio := sdp.GetAudio(&d.SDP)
	if audio == nil || audio.MediaName.Media != "audio" || audio.MediaName.Port.Value != int(d.Addr.Port()) {
		c.Fail("invalid-port", "port %v of %+v", d.Addr, audio)
		return
	}
	for _, x := range d.Codecs {
		if x.Type > 127 {
			c.Fail("type", "payload type %d", x.Type)
		}
		if x.Codec != nil && !msdk.CodecEnabled(x.Codec) {
			c.Fail("disabled", "disabled codec %q", x.Codec.Info().SDPName)
		}
	}
	for _, p := range d.CryptoProfiles {
		if sz, ok := profSizes[string(p.Profile)]; ok && (len(p.Key) != sz[0] || len(p.Salt) != sz[1]) {
			c.Fail("key-size", "%s: key of %d bytes, salt of %d", p.Profile, len(p.Key), len(p.Salt))
		}
		if len(p.MKI) > 8 {
			c.Fail("mki-size", "MKI of %d bytes", len(p.MKI))
		}
	}
	if cfg, err := sdp.SelectAudio(d.MediaDesc, rnd.Intn(2) == 0); err != nil {
		c.Check(errors.Is(err, sdp.ErrNoCommonMedia), "select-error", "%v", err)
	} else if cfg.Codec == nil || cfg.Type > 127 {
		c.Fail("select", "selected %+v", cfg)
	}
	// The same after a round trip. Unusual line ends are left to the SDP library.
	if strings.Contains(strings.ReplaceAll(text, "\r\n", ""), "\r") {
		return
	}
	data, err := d.SDP.Marshal()
	if err != nil {
		return
	}
	if d2, err := sdp.Parse(data); err == nil && !reflect.DeepEqual(d.MediaDesc, d2.MediaDesc) {
		c.Fail("reparse", "different after a round trip: %+v, %+v", d.MediaDesc, d2.MediaDesc)
	}
	enc := sdp.Encryption(rnd.Intn(3))
	ans, conf, err := (*sdp.Offer)(d).Answer(netip.MustParseAddr("10.0.0.1"), 6000, enc)
	if err != nil {
		if !errors.Is(err, sdp.ErrNoCommonMedia) && !errors.Is(err, sdp.ErrNoCommonCrypto) {
			c.Fail("answer-error", "%v", err)
		}
		return
	}
	c.Count("mutations answered", 1)
	if conf.Remote != d.Addr {
		c.Fail("answer-remote", "remote %v, expected %v", conf.Remote, d.Addr)
	}
	if conf.Crypto == nil && enc == sdp.EncryptionRequire || conf.Crypto != nil && enc == sdp.EncryptionNone {
		c.Fail("answer-encryption", "encryption %v: %v", enc, conf.Crypto)
	}
	out, err := ans.SDP.Marshal()
	if err != nil {
		c.Fail("answer-marshal", "%v", err)
		return
	}
	a2, err := sdp.ParseAnswer(out)
	if err != nil {
		c.Fail("answer-parse", "answer %q can't be parsed: %v", out, err)
		return
	}
	if a2.Addr != ans.Addr {
		c.Fail("answer-address", "%v, expected %v", a2.Addr, ans.Addr)
	}
}

// sdpLines is an independent reader of the text.
type sdpLines struct {
	v, o, s, c, t []string
	m             []string
	a             map[string][]string
	order         string
}

func readLines(text string) (*sdpLines, error) {
	l := &sdpLines{a: make(map[string][]string)}
	if !strings.HasSuffix(text, "\r\n") {
		return nil, errors.New("no line end at the end")
	}
	for _, x := range strings.Split(strings.TrimSuffix(text, "\r\n"), "\r\n") {
		if len(x) < 2 || x[1] != '=' {
			return nil, fmt.Errorf("invalid line %q", x)
		}
		l.order += x[:1]
		val := x[2:]
		switch x[0] {
		case 'v':
			l.v = append(l.v, val)
		case 'o':
			l.o = append(l.o, strings.Split(val, " ")...)
		case 's':
			l.s = append(l.s, val)
		case 'c':
			l.c = append(l.c, strings.Split(val, " ")...)
		case 't':
			l.t = append(l.t, val)
		case 'm':
			l.m = append(l.m, strings.Split(val, " ")...)
		case 'a':
			k, v, _ := strings.Cut(val, ":")
			l.a[k] = append(l.a[k], v)
		default:
			return nil, fmt.Errorf("unexpected line %q", x)
		}
	}
	return l, nil
}

// checkLines of our offer or answer, returns types by the codec.
func checkLines(c *kit.C, what, text string, ip netip.Addr, port int, secure int) (*sdpLines, []sdpEntry) {
	l, err := readLines(text)
	if err != nil {
		c.Fail(what+"/lines", "%v in %q", err, text)
		return nil, nil
	}
	if len(l.v) != 1 || l.v[0] != "0" || len(l.s) != 1 || l.s[0] == "" || len(l.t) != 1 || l.t[0] != "0 0" || !strings.HasPrefix(l.order, "vosct") {
		c.Fail(what+"/session", "invalid session part: %q", text)
	}
	if len(l.o) != 6 || l.o[0] == "" || l.o[3] != "IN" || l.o[4] != ipType(ip) || l.o[5] != ip.String() {
		c.Fail(what+"/origin", "origin %q for %v", l.o, ip)
	}
	if len(l.c) != 3 || l.c[0] != "IN" || l.c[1] != ipType(ip) || l.c[2] != ip.String() {
		c.Fail(what+"/connection", "connection %q for %v", l.c, ip)
	}
	proto := "RTP/AVP"
	if secure > 0 {
		proto = "RTP/SAVP"
	}
	if len(l.m) < 4 || l.m[0] != "audio" || l.m[1] != strconv.Itoa(port) || l.m[2] != proto {
		c.Fail(what+"/media", "media line %q, expected port %d and %s", l.m, port, proto)
		return nil, nil
	}
	if !reflect.DeepEqual(l.a["ptime"], []string{"20"}) || len(l.a["sendrecv"]) != 1 {
		c.Fail(what+"/attributes", "ptime %q, sendrecv %q", l.a["ptime"], l.a["sendrecv"])
	}
	if len(l.a["crypto"]) != secure {
		c.Fail(what+"/crypto", "%d crypto attributes, expected %d", len(l.a["crypto"]), secure)
	}
	names := make(map[string]string)
	for _, x := range l.a["rtpmap"] {
		typ, name, ok := strings.Cut(x, " ")
		if _, dup := names[typ]; dup || !ok {
			c.Fail(what+"/rtpmap", "rtpmap %q", l.a["rtpmap"])
		}
		names[typ] = name
	}
	var out []sdpEntry
	seen := make(map[string]bool)
	for _, f := range l.m[3:] {
		name, ok := names[f]
		typ, err := strconv.Atoi(f)
		if !ok || err != nil || seen[f] || typ < 0 || typ > 127 {
			c.Fail(what+"/formats", "formats %q with rtpmap %q", l.m[3:], l.a["rtpmap"])
			return nil, nil
		}
		seen[f] = true
		out = append(out, sdpEntry{typ, strings.ToLower(name)})
	}
	if len(names) != len(out) {
		c.Fail(what+"/rtpmap", "rtpmap %q for formats %q", l.a["rtpmap"], l.m[3:])
	}
	var fm []string
	for _, e := range out {
		if e.name == dtmf.SDPName {
			fm = append(fm, fmt.Sprintf("%d 0-16", e.typ))
		}
	}
	if !reflect.DeepEqual(fm, l.a["fmtp"]) {
		c.Fail(what+"/fmtp", "fmtp %q, expected %q", l.a["fmtp"], fm)
	}
	return l, out
}

func checkSDPWrite(c *kit.C) {
	registerExtra()
	sessions := make(map[uint64]bool)
	n := 0
	for i := 0; i < c.N(6000, 120000); i++ {
		rnd := c.Rand("write", i)
		on := randEnabled(rnd)
		if i%3 == 0 {
			for _, x := range sdpCodecs {
				on[strings.ToLower(x.name)] = true
			}
		}
		setEnabled(on)
		ip, port := randIP(rnd), randPort(rnd)
		enc := sdp.Encryption(rnd.Intn(3))
		c.Eval("offer %v:%d enc=%d codecs=%s", ip, port, enc, enabledKey(on))
		c.Distinct(ip.Is4(), port, enc, enabledKey(on))
		if enabledKey(on) == "" {
			continue
		}
		o, err := sdp.NewOffer(ip, port, enc)
		if err != nil {
			c.Fail("offer", "%v", err)
			return
		}
		data, err := o.SDP.Marshal()
		if err != nil {
			c.Fail("offer-marshal", "%v", err)
			return
		}
		secure := 0
		if enc != sdp.EncryptionNone {
			secure = len(o.CryptoProfiles)
			c.Check(secure == 4, "profiles", "%d profiles are offered", secure)
		}
		l, list := checkLines(c, "offer", string(data), ip, port, secure)
		if l == nil {
			return
		}
		// All enabled codecs, once, in the order of preference, with their types.
		want := map[string]sdpCodec{}
		for _, x := range allSDPCodecs() {
			if on[strings.ToLower(x.name)] {
				want[strings.ToLower(x.name)] = x
			}
		}
		if len(list) != len(want) {
			c.Fail("offer/codecs", "offered %v with %s", list, enabledKey(on))
			return
		}
		for k, e := range list {
			x, ok := want[e.name]
			if !ok {
				c.Fail("offer/codecs", "offered %v with %s", list, enabledKey(on))
				return
			}
			if x.static >= 0 && e.typ != x.static || x.static < 0 && (e.typ < 96 || e.typ > 127) {
				c.Fail("offer/types", "offered %v", list)
			}
			if k > 0 {
				p := want[list[k-1].name]
				if (p.static < 0) == (x.static < 0) && p.prio < x.prio || p.static < 0 && x.static >= 0 {
					c.Fail("offer/order", "offered %v", list)
				}
			}
		}
		id, err := strconv.ParseUint(l.o[1], 10, 64)
		ver, err2 := strconv.ParseUint(l.o[2], 10, 64)
		if err != nil || err2 != nil {
			c.Fail("offer/origin", "origin %q", l.o)
		}
		if sessions[id] {
			c.Fail("offer/session", "session ID %d is repeated", id)
		}
		sessions[id] = true
		_ = ver
		p, err := sdp.ParseOffer(data)
		if err != nil {
			c.Fail("offer/parse", "own offer %q is rejected: %v", data, err)
			return
		}
		if p.Addr != o.Addr || p.Addr != netip.AddrPortFrom(ip, uint16(port)) {
			c.Fail("offer/address", "address %v, %v; expected %v:%d", o.Addr, p.Addr, ip, port)
		}
		if o.DTMFType != p.DTMFType || !sameProfiles(o.CryptoProfiles, p.CryptoProfiles) {
			c.Fail("offer/reparse", "parsed %+v, expected %+v", p.MediaDesc, o.MediaDesc)
		}
		gotTypes := map[sdpEntry]bool{}
		for _, e := range usable(p.MediaDesc) {
			gotTypes[e] = true
		}
		for _, e := range usable(o.MediaDesc) {
			if !gotTypes[e] {
				c.Fail("offer/reparse", "codec %v is lost", e)
			}
		}
		answerMemory(c, rnd)
		// Answer by the other side.
		on2 := randEnabled(rnd)
		if i%2 == 0 {
			on2 = on
		}
		setEnabled(on2)
		ip2, port2, enc2 := randIP(rnd), randPort(rnd), sdp.Encryption(rnd.Intn(3))
		p, err = sdp.ParseOffer(data)
		if err != nil {
			c.Fail("offer/parse", "own offer %q is rejected: %v", data, err)
			return
		}
		ans, conf, err := p.Answer(ip2, port2, enc2)
		if err != nil {
			if !errors.Is(err, sdp.ErrNoCommonCrypto) && !errors.Is(err, sdp.ErrNoCommonMedia) {
				c.Fail("answer", "%v", err)
			}
			continue
		}
		n++
		adata, err := ans.SDP.Marshal()
		if err != nil {
			c.Fail("answer-marshal", "%v", err)
			return
		}
		asec := 0
		if enc != sdp.EncryptionNone && enc2 != sdp.EncryptionNone {
			asec = 1
		}
		al, alist := checkLines(c, "answer", string(adata), ip2, port2, asec)
		if al == nil {
			return
		}
		if al.o[1] != l.o[1] {
			c.Fail("answer/session", "session %q in the answer, %q in the offer", al.o, l.o)
		}
		offered := map[sdpEntry]bool{}
		for _, e := range list {
			offered[e] = true
		}
		audio := 0
		for _, e := range alist {
			if !offered[e] {
				c.Fail("answer/types", "answered %v for %v", alist, list)
			}
			if !on2[e.name] {
				c.Fail("answer/disabled", "answered with a disabled codec: %v with %s", alist, enabledKey(on2))
			}
			if e.name != dtmf.SDPName {
				audio++
			}
		}
		if audio != 1 || alist[0].name == dtmf.SDPName {
			c.Fail("answer/codecs", "answered %v", alist)
		}
		if alist[0] != (sdpEntry{int(conf.Audio.Type), strings.ToLower(conf.Audio.Codec.Info().SDPName)}) {
			c.Fail("answer/config", "answered %v, configured %+v", alist, conf.Audio)
		}
		pa, err := sdp.ParseAnswer(adata)
		if err != nil {
			c.Fail("answer/parse", "own answer %q is rejected: %v", adata, err)
			return
		}
		if pa.Addr != ans.Addr || pa.Addr != netip.AddrPortFrom(ip2, uint16(port2)) || conf.Local != ans.Addr || conf.Remote != o.Addr {
			c.Fail("answer/address", "%v, %v, %v -> %v", pa.Addr, ans.Addr, conf.Local, conf.Remote)
		}
		if pa.DTMFType != ans.DTMFType || pa.DTMFType != conf.Audio.DTMFType {
			c.Fail("answer/dtmf", "%d, %d, %d", pa.DTMFType, ans.DTMFType, conf.Audio.DTMFType)
		}
		c.Sample("answer "+strconv.Itoa(asec), "%q", adata)
	}
	c.Count("offers", len(sessions))
	c.Count("answers", n)
}

// answerMemory checks that a media description depends only on the arguments and leaves them as they are,
// also when the key and the salt are parts of a larger buffer.
func answerMemory(c *kit.C, rnd *rand.Rand) {
	name := []string{"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AEAD_AES_128_GCM", "AEAD_AES_256_GCM", "OTHER"}[rnd.Intn(6)]
	sz, ok := profSizes[name]
	if !ok {
		sz = [2]int{rnd.Intn(40), rnd.Intn(20)}
	}
	buf := make([]byte, 100)
	rnd.Read(buf)
	orig := bytes.Clone(buf)
	ka, sa := rnd.Intn(10), 60+rnd.Intn(10)
	prof := srtp.Profile{Index: rnd.Intn(1000), Profile: srtp.ProtectionProfile(name), Key: buf[ka : ka+sz[0]], Salt: buf[sa : sa+sz[1]]}
	if rnd.Intn(3) == 0 {
		prof.MKI = buf[90:94]
	}
	before := fmt.Sprintf("%+v", prof)
	codec, _ := sdp.CodecByName("PCMU/8000").(rtp.AudioCodec)
	if codec == nil {
		return
	}
	audio := &sdp.AudioConfig{Codec: codec, Type: 0, DTMFType: byte(rnd.Intn(2) * 101)}
	audio0 := *audio
	m := sdp.AnswerMedia(5000, audio, &prof)
	if !bytes.Equal(buf, orig) || fmt.Sprintf("%+v", prof) != before || *audio != audio0 {
		c.Fail("answer-media/arguments", "the arguments are modified: %+v, was %s", prof, before)
		return
	}
	want := fmt.Sprintf("%d %s inline:%s", prof.Index, name, base64.StdEncoding.EncodeToString(append(append([]byte{}, prof.Key...), prof.Salt...)))
	var got []string
	for _, a := range m.Attributes {
		if a.Key == "crypto" {
			got = append(got, a.Value)
		}
	}
	if len(got) != 1 || got[0] != want && !strings.HasPrefix(got[0], want+"|") {
		c.Fail("answer-media/crypto", "crypto %q, expected %q", got, want)
	}
	c.Count("media descriptions from shared buffers", 1)
}

func sameProfiles(a, b []srtp.Profile) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Index != b[i].Index || a[i].Profile != b[i].Profile || !bytes.Equal(a[i].Key, b[i].Key) || !bytes.Equal(a[i].Salt, b[i].Salt) || !bytes.Equal(a[i].MKI, b[i].MKI) {
			return false
		}
	}
	return true
}

// refSelect is the reference of the selection of a codec.
func refSelect(list []sdpEntry, answer bool) (sdpEntry, bool) {
	if len(list) == 0 {
		return sdpEntry{}, false
	}
	prio := map[string]int{}
	for _, x := range allSDPCodecs() {
		prio[strings.ToLower(x.name)] = x.prio
	}
	best := list[0]
	if !answer {
		for _, e := range list {
			if prio[e.name] > prio[best.name] {
				best = e
			}
		}
	}
	return best, true
}

func checkSDPCodecs(c *kit.C) {
	registerExtra()
	for i := 0; i < c.N(12000, 240000); i++ {
		rnd := c.Rand("codecs", i)
		on := randEnabled(rnd)
		setEnabled(on)
		if rnd.Intn(2) == 0 { // foreign descriptions
			m := genSDP(rnd, on)
			if m.bad {
				continue
			}
			c.Eval("foreign %q with %s", m.text, enabledKey(on))
			c.Distinct(m.entries, m.dtmf, enabledKey(on))
			d, err := sdp.Parse([]byte(m.text))
			if err != nil {
				c.Fail("parse", "%v", err)
				return
			}
			for _, answer := range []bool{false, true} {
				e, ok := refSelect(m.entries, answer)
				got, err := sdp.SelectAudio(d.MediaDesc, answer)
				checkSelected(c, fmt.Sprint("select answer=", answer), got, err, e, ok, m.dtmf)
			}
			e, ok := refSelect(m.entries, false)
			_, conf, err := (*sdp.Offer)(d).Answer(randIP(rnd), 5000, sdp.EncryptionNone)
			if err == nil {
				checkSelected(c, "answer", &conf.Audio, nil, e, ok, m.dtmf)
			} else {
				checkSelected(c, "answer", nil, err, e, ok, m.dtmf)
			}
			e, ok = refSelect(m.entries, true)
			off, err := sdp.NewOffer(randIP(rnd), 6000, sdp.EncryptionNone)
			if err != nil {
				c.Fail("offer", "%v", err)
				return
			}
			conf, err = (*sdp.Answer)(d).Apply(off, sdp.EncryptionNone)
			if err == nil {
				checkSelected(c, "apply", &conf.Audio, nil, e, ok, m.dtmf)
				c.Check(conf.Local == off.Addr && conf.Remote == m.addr, "apply/address", "%v -> %v", conf.Local, conf.Remote)
			} else {
				checkSelected(c, "apply", nil, err, e, ok, m.dtmf)
			}
			c.Count("foreign descriptions", 1)
			if c.Failed() {
				return
			}
			continue
		}
		// Two parties.
		on2 := randEnabled(rnd)
		c.Eval("offer %s answer %s", enabledKey(on), enabledKey(on2))
		c.Distinct(enabledKey(on), enabledKey(on2))
		ipA, ipB := randIP(rnd), randIP(rnd)
		off, err := sdp.NewOffer(ipA, 1000, sdp.EncryptionNone)
		if err != nil {
			c.Fail("offer", "%v", err)
			return
		}
		data, _ := off.SDP.Marshal()
		setEnabled(on2)
		best, prio, found := "", 0, false
		for _, x := range allSDPCodecs() {
			n := strings.ToLower(x.name)
			if n != dtmf.SDPName && on[n] && on2[n] && (!found || x.prio > prio) {
				best, prio, found = n, x.prio, true
			}
		}
		d, err := sdp.ParseOffer(data)
		if err != nil {
			if enabledKey(on) == "" {
				continue
			}
			c.Fail("parse", "%v", err)
			return
		}
		ans, confB, err := d.Answer(ipB, 2000, sdp.EncryptionNone)
		if !found {
			c.Check(errors.Is(err, sdp.ErrNoCommonMedia), "no-common", "got %v", err)
			c.Count("without a common codec", 1)
			continue
		}
		if err != nil {
			c.Fail("answer", "%v", err)
			return
		}
		adata, _ := ans.SDP.Marshal()
		setEnabled(on)
		pa, err := sdp.ParseAnswer(adata)
		if err != nil {
			c.Fail("parse-answer", "%v", err)
			return
		}
		confA, err := pa.Apply(off, sdp.EncryptionNone)
		if err != nil {
			c.Fail("apply", "%v", err)
			return
		}
		if n := strings.ToLower(confB.Audio.Codec.Info().SDPName); n != best {
			c.Fail("best", "selected %s, the best common is %s", n, best)
		}
		if confA.Audio != confB.Audio {
			c.Fail("agree", "parties selected %+v and %+v", confA.Audio, confB.Audio)
		}
		wantDTMF := on[dtmf.SDPName] && on2[dtmf.SDPName]
		if (confA.Audio.DTMFType != 0) != wantDTMF || wantDTMF && confA.Audio.DTMFType != off.DTMFType {
			c.Fail("agree-dtmf", "DTMF type %d, offered %d, enabled: %v", confA.Audio.DTMFType, off.DTMFType, wantDTMF)
		}
		a, b := netip.AddrPortFrom(ipA, 1000), netip.AddrPortFrom(ipB, 2000)
		if confA.Local != a || confA.Remote != b || confB.Local != b || confB.Remote != a {
			c.Fail("agree-address", "%v -> %v and %v -> %v", confA.Local, confA.Remote, confB.Local, confB.Remote)
		}
		if confA.Crypto != nil || confB.Crypto != nil {
			c.Fail("agree-crypto", "encryption that nobody wants")
		}
		c.Count("negotiations", 1)
	}
}

func checkSelected(c *kit.C, what string, got *sdp.AudioConfig, err error, e sdpEntry, ok bool, dt int) {
	if !ok {
		if !errors.Is(err, sdp.ErrNoCommonMedia) {
			c.Fail(what+"/none", "no usable codecs: %+v, %v", got, err)
		}
		c.Count("without a common codec", 1)
		return
	}
	if err != nil {
		c.Fail(what+"/error", "%v, expected %v", err, e)
		return
	}
	if int(got.Type) != e.typ || strings.ToLower(got.Codec.Info().SDPName) != e.name || int(got.DTMFType) != dt {
		c.Fail(what+"/codec", "selected %s type %d DTMF %d, expected %v DTMF %d", got.Codec.Info().SDPName, got.Type, got.DTMFType, e, dt)
	}
}

var profSizes = map[string][2]int{
	"AES_CM_128_HMAC_SHA1_80": {16, 14}, "AES_CM_128_HMAC_SHA1_32": {16, 14}, "AES_256_CM_HMAC_SHA1_80": {32, 14}, "AES_256_CM_HMAC_SHA1_32": {32, 14},
}

var profOrder = []string{"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32"}

type cryptoLine struct {
	tag      int
	prof     string
	key      []byte // with the salt
	mki      []byte
	lifetime uint64
	value    string
	skip     bool // must be ignored
}

type cryptoSet []cryptoLine

func (s cryptoSet) lines() string {
	var b strings.Builder
	for _, l := range s {
		b.WriteString("a=crypto:" + l.value + "\r\n")
	}
	return b.String()
}

// genCrypto makes valid crypto attributes of a foreign party.
func genCrypto(rnd *rand.Rand) (out cryptoSet) {
	tags := rnd.Perm(40)
	k := rnd.Intn(6)
	if rnd.Intn(8) == 0 {
		k = rnd.Intn(40)
	}
	for ; k >= 0; k-- {
		l := cryptoLine{tag: tags[k] + 1, prof: profOrder[rnd.Intn(4)]}
		if rnd.Intn(5) == 0 {
			l.prof = []string{"AEAD_AES_128_GCM", "F8_128_HMAC_SHA1_80", "aes_cm_128_hmac_sha1_80", "X"}[rnd.Intn(4)]
		}
		sz, ok := profSizes[l.prof]
		if !ok {
			sz = [2]int{rnd.Intn(40), 0}
		}
		l.key = make([]byte, sz[0]+sz[1])
		rnd.Read(l.key)
		params := base64.StdEncoding.EncodeToString(l.key)
		if rnd.Intn(3) == 0 {
			params = strings.TrimRight(params, "=")
		}
		life := ""
		switch rnd.Intn(4) {
		case 0:
			e := rnd.Intn(64)
			life, l.lifetime = fmt.Sprintf("2^%d", e), uint64(1)<<e
		case 1:
			l.lifetime = 1 + uint64(rnd.Int63())
			life = strconv.FormatUint(l.lifetime, 10)
		}
		mki := ""
		if rnd.Intn(3) == 0 {
			n := 1 + rnd.Intn(8)
			v := rnd.Uint64() >> (64 - 8*n)
			if rnd.Intn(3) == 0 {
				v = 1
			}
			l.mki = make([]byte, n)
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], v)
			copy(l.mki, b[8-n:])
			mki = fmt.Sprintf("%d:%d", v, n)
		}
		switch {
		case mki != "" && life == "" && rnd.Intn(2) == 0:
			params += "|" + mki
		case mki != "":
			params += "|" + life + "|" + mki
		case life != "":
			params += "|" + life
		}
		l.value = fmt.Sprintf("%d %s inline:%s", l.tag, l.prof, params)
		switch rnd.Intn(14) {
		case 12: // optional, and may be ignored
			l.value += []string{" WSH=64", " -EXT", " -X=a:b=c WSH=128", "  -Y"}[rnd.Intn(4)]
		case 13: // not supported, so the attribute can't be used
			l.value += []string{" KDR=1", " UNENCRYPTED_SRTP", " UNENCRYPTED_SRTCP UNENCRYPTED_SRTP", " WSH=64 UNENCRYPTED_SRTCP", " FEC_ORDER=FEC_SRTP",
				" UNAUTHENTICATED_SRTP", " -X FEC_KEY=inline:" + params, " X=1", ";inline:" + params, ";inline:" + params + " WSH=64"}[rnd.Intn(10)]
			l.skip = true
		case 0:
			l.value += " "
		case 1:
			l.value = fmt.Sprintf("%d %s", l.tag, l.prof)
			l.skip = true
		case 2:
			l.value = fmt.Sprintf("%d %s other:%s", l.tag, l.prof, params)
			l.skip = true
		}
		out = append(out, l)
	}
	return
}

// checkProfiles compares parsed profiles with attributes of a description.
func checkProfiles(c *kit.C, set cryptoSet, got []srtp.Profile) bool {
	var want cryptoSet
	for _, l := range set {
		if !l.skip {
			want = append(want, l)
		}
	}
	if len(got) != len(want) {
		c.Fail("profiles", "%d profiles, expected %d", len(got), len(want))
		return false
	}
	for k, l := range want {
		p := got[k]
		key := append(append([]byte{}, p.Key...), p.Salt...)
		if p.Index != l.tag || string(p.Profile) != l.prof || !bytes.Equal(key, l.key) || !bytes.Equal(p.MKI, l.mki) || p.Lifetime != l.lifetime {
			c.Fail("profile", "parsed %+v from %q", p, l.value)
			return false
		}
		if sz, ok := profSizes[l.prof]; ok && (len(p.Key) != sz[0] || len(p.Salt) != sz[1]) {
			c.Fail("key-size", "key of %d, salt of %d bytes for %s", len(p.Key), len(p.Salt), l.prof)
			return false
		}
	}
	return true
}

// checkBadCrypto parses attributes with invalid parameters, which can't be used: either they or the description must be rejected.
func checkBadCrypto(c *kit.C) {
	b64 := func(n int) string { return base64.StdEncoding.EncodeToString(make([]byte, n)) }
	good := "AES_CM_128_HMAC_SHA1_80 inline:" + b64(30)
	var bad []string
	for e := 64; e < 140; e++ {
		bad = append(bad, fmt.Sprintf("%s|2^%d", good, e))
	}
	for _, e := range []string{"256", "1024", "4294967296", "4294967328", "18446744073709551615", "18446744073709551616", "18446744073709551648", "-1", "x", "", "1.5", "0x10"} {
		bad = append(bad, good+"|2^"+e)
	}
	for _, l := range []string{"-1", "0", "00", "18446744073709551616", "x", "2**31", "3^31", "2^", "1e9", "^31"} {
		bad = append(bad, good+"|"+l, good+"|"+l+"|1:4")
	}
	for n := 1; n < 8; n++ {
		v := uint64(1) << (8 * n)
		for _, v := range []uint64{v, v + 1, v | v<<7, 1<<64 - 1} {
			bad = append(bad, fmt.Sprintf("%s|2^20|%d:%d", good, v, n), fmt.Sprintf("%s|%d:%d", good, v, n))
		}
	}
	for _, m := range []string{"1:0", "1:9", "1:128", "1:129", "1:255", "1:256", "1:257", "1:264", "1:-1", "1:", ":4", "1:x", "x:4", "-1:4", "1:1:1", "18446744073709551616:8", "1"} {
		bad = append(bad, good+"|2^20|"+m)
	}
	for prof, sz := range profSizes {
		for n := 0; n < 80; n++ {
			if n != sz[0]+sz[1] {
				bad = append(bad, prof+" inline:"+b64(n), prof+" inline:"+strings.TrimRight(b64(n), "="))
			}
		}
	}
	for _, k := range []string{"!", b64(30)[:39] + "!", b64(30) + "=", b64(30)[:37], "A", b64(30) + "A"} {
		bad = append(bad, "AES_CM_128_HMAC_SHA1_80 inline:"+k)
	}
	for k, v := range bad {
		tag := 1000 + k
		text := fmt.Sprintf("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nm=audio 5000 RTP/SAVP 0\r\na=rtpmap:0 PCMU/8000\r\na=crypto:%d %s\r\n", tag, v)
		c.Eval("bad crypto %q", v)
		c.Distinct("bad", v)
		var d *sdp.Offer
		var err error
		if !c.Try("parse", func() { d, err = sdp.ParseOffer([]byte(text)) }) {
			return
		}
		c.Count(fmt.Sprintf("bad attributes, description rejected: %v", err != nil), 1)
		if err == nil && len(d.CryptoProfiles) != 0 {
			c.Fail("bad-crypto", "invalid attribute %q is parsed as %+v", v, d.CryptoProfiles)
			return
		}
	}
}

func checkSDPCrypto(c *kit.C) {
	setEnabled(map[string]bool{"pcmu/8000": true, "g722/8000": true, "pcma/8000": true, "telephone-event/8000": true})
	log := logger.GetLogger()
	encName := []string{"none", "allow", "require"}

	// Both parties are ours.
	for i := 0; i < c.N(360, 5400); i++ {
		rnd := c.Rand("own", i)
		encA, encB := sdp.Encryption(i%3), sdp.Encryption(i/3%3)
		c.Eval("offer %s answer %s", encName[encA], encName[encB])
		c.Distinct(encA, encB)
		off, err := sdp.NewOffer(randIP(rnd), 1000, encA)
		if err != nil {
			c.Fail("offer", "%v", err)
			return
		}
		data, _ := off.SDP.Marshal()
		p, err := sdp.ParseOffer(data)
		if err != nil {
			c.Fail("parse", "%v", err)
			return
		}
		ans, confB, err := p.Answer(randIP(rnd), 2000, encB)
		if encA == sdp.EncryptionNone && encB == sdp.EncryptionRequire {
			c.Check(errors.Is(err, sdp.ErrNoCommonCrypto) && ans == nil && confB == nil, "require-answer", "plain offer is answered: %v, %v", ans, err)
			c.Count("rejected answers", 1)
			continue
		}
		if err != nil {
			c.Fail("answer", "%v", err)
			return
		}
		adata, _ := ans.SDP.Marshal()
		pa, err := sdp.ParseAnswer(adata)
		if err != nil {
			c.Fail("parse", "%v", err)
			return
		}
		confA, err := pa.Apply(off, encA)
		secure := encA != sdp.EncryptionNone && encB != sdp.EncryptionNone
		if !secure && encA == sdp.EncryptionRequire {
			c.Check(errors.Is(err, sdp.ErrNoCommonCrypto) && confA == nil, "require-apply", "plain answer is accepted: %v, %v", confA, err)
			c.Check(confB.Crypto == nil, "unwanted", "encrypted without being asked")
			c.Count("rejected answers", 1)
			continue
		}
		if err != nil {
			c.Fail("apply", "%v", err)
			return
		}
		if (confA.Crypto != nil) != secure || (confB.Crypto != nil) != secure {
			c.Fail("outcome", "encryption %v, %v; expected %v", confA.Crypto != nil, confB.Crypto != nil, secure)
			return
		}
		if secure {
			exchange(c, rnd, log, confA.Crypto, confB.Crypto, nil, nil)
		} else {
			c.Count("plain", 1)
		}
		if c.Failed() {
			return
		}
	}

	// Foreign parties.
	for i := 0; i < c.N(6000, 90000); i++ {
		rnd := c.Rand("foreign", i)
		set := genCrypto(rnd)
		head := "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nm=audio 5000 RTP/SAVP 0\r\na=rtpmap:0 PCMU/8000\r\n"
		text := head + set.lines()
		enc := sdp.Encryption(1 + rnd.Intn(2))
		c.Eval("foreign enc=%s %q", encName[enc], set.lines())
		c.Distinct(set.lines())
		d, err := sdp.ParseOffer([]byte(text))
		if err != nil {
			c.Fail("rejected", "valid offer is rejected: %v", err)
			return
		}
		var want cryptoSet
		for _, l := range set {
			if !l.skip {
				want = append(want, l)
			}
		}
		if !checkProfiles(c, set, d.CryptoProfiles) {
			return
		}
		// Which one is selected: the first of our list which is offered.
		var sel *cryptoLine
		for _, p := range profOrder {
			for k := range want {
				if sel == nil && want[k].prof == p {
					sel = &want[k]
				}
			}
		}
		if ans, conf, err := d.Answer(randIP(rnd), 2000, sdp.EncryptionNone); err != nil || conf.Crypto != nil {
			c.Fail("answer-none", "configuration has keys without encryption: %v", err)
			return
		} else if data, _ := ans.SDP.Marshal(); bytes.Contains(data, []byte("a=crypto")) || bytes.Contains(data, []byte("SAVP")) {
			c.Fail("answer-none", "answer without encryption is %q", data)
			return
		}
		ans, conf, err := d.Answer(randIP(rnd), 2000, enc)
		if sel == nil {
			if enc == sdp.EncryptionRequire {
				c.Check(errors.Is(err, sdp.ErrNoCommonCrypto), "require-foreign", "answered without a common profile: %v", err)
			} else {
				c.Check(err == nil && conf.Crypto == nil, "allow-foreign", "not answered without encryption: %v", err)
			}
			c.Count("without a common profile", 1)
			continue
		}
		if err != nil || conf.Crypto == nil {
			c.Fail("answer-foreign", "%v, %v", conf, err)
			return
		}
		adata, _ := ans.SDP.Marshal()
		l, err := readLines(string(adata))
		if err != nil || len(l.a["crypto"]) != 1 {
			c.Fail("answer-lines", "%v in %q", err, adata)
			return
		}
		w := strings.Split(l.a["crypto"][0], " ")
		if len(w) != 3 || w[0] != strconv.Itoa(sel.tag) || w[1] != sel.prof || !strings.HasPrefix(w[2], "inline:") {
			c.Fail("answer-crypto", "answered %q for %q", l.a["crypto"][0], sel.value)
			return
		}
		theirs, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(w[2], "inline:"))
		sz := profSizes[sel.prof]
		if err != nil || len(theirs) != sz[0]+sz[1] {
			c.Fail("answer-key", "key %q: %v", w[2], err)
			return
		}
		// The foreign party, made from the text only.
		prof, _ := srtp.ProtectionProfile(sel.prof).Parse()
		other := &srtp.Config{Profile: prof, Keys: srtp.SessionKeys{
			LocalMasterKey: sel.key[:sz[0]], LocalMasterSalt: sel.key[sz[0]:], RemoteMasterKey: theirs[:sz[0]], RemoteMasterSalt: theirs[sz[0]:],
		}}
		if len(sel.mki) != 0 {
			other.LocalOptions = append(other.LocalOptions, srtp.MasterKeyIndicator(sel.mki))
		}
		exchange(c, rnd, log, other, conf.Crypto, sel.mki, nil)

		// And the other way: the same attributes are an answer to our offer.
		off, err := sdp.NewOffer(randIP(rnd), 1000, enc)
		if err != nil {
			c.Fail("offer", "%v", err)
			return
		}
		one := *sel
		own := off.CryptoProfiles[rnd.Intn(len(off.CryptoProfiles))]
		one.prof = string(own.Profile)
		sz = profSizes[one.prof]
		one.key = make([]byte, sz[0]+sz[1])
		rnd.Read(one.key)
		suffix := ""
		if len(one.mki) != 0 {
			v := uint64(0)
			for _, b := range one.mki {
				v = v<<8 | uint64(b)
			}
			suffix = fmt.Sprintf("|2^31|%d:%d", v, len(one.mki))
		}
		pa, err := sdp.ParseAnswer([]byte(head + fmt.Sprintf("a=crypto:%d %s inline:%s%s\r\n", own.Index, one.prof, base64.StdEncoding.EncodeToString(one.key), suffix)))
		if err != nil {
			c.Fail("rejected", "valid answer is rejected: %v", err)
			return
		}
		if plain, err := pa.Apply(off, sdp.EncryptionNone); err != nil || plain.Crypto != nil {
			c.Fail("apply-none", "answer has keys without encryption: %v", err)
			return
		}
		confA, err := pa.Apply(off, enc)
		if err != nil || confA.Crypto == nil {
			c.Fail("apply-foreign", "%v, %v", confA, err)
			return
		}
		prof, _ = srtp.ProtectionProfile(one.prof).Parse()
		other = &srtp.Config{Profile: prof, Keys: srtp.SessionKeys{
			LocalMasterKey: one.key[:sz[0]], LocalMasterSalt: one.key[sz[0]:], RemoteMasterKey: own.Key, RemoteMasterSalt: own.Salt,
		}}
		if len(one.mki) != 0 {
			other.LocalOptions = append(other.LocalOptions, srtp.MasterKeyIndicator(one.mki))
		}
		exchange(c, rnd, log, confA.Crypto, other, nil, one.mki)
		if c.Failed() {
			return
		}
		// An answer without a supported attribute.
		var un cryptoSet
		for _, l := range append(genCrypto(rnd), genCrypto(rnd)...) {
			if _, ok := profSizes[l.prof]; !ok {
				un = append(un, l)
			}
		}
		pa, err = sdp.ParseAnswer([]byte(head + un.lines()))
		if err != nil {
			c.Fail("rejected", "valid answer is rejected: %v", err)
			return
		}
		for _, enc := range []sdp.Encryption{sdp.EncryptionAllow, sdp.EncryptionRequire} {
			conf, err := pa.Apply(off, enc)
			if enc == sdp.EncryptionRequire && (!errors.Is(err, sdp.ErrNoCommonCrypto) || conf != nil) {
				c.Fail("require-unsupported", "required encryption: answer %q gives %+v, %v", un.lines(), conf, err)
				return
			} else if enc == sdp.EncryptionAllow && (err != nil || conf.Crypto != nil) {
				c.Fail("allow-unsupported", "optional encryption: answer %q gives %+v, %v", un.lines(), conf, err)
				return
			}
		}
		if len(un) > 0 {
			c.Count("answers with unsupported attributes", 1)
		}
	}

	// Selection from any lists.
	for i := 0; i < c.N(1500, 30000) && !c.Failed(); i++ {
		checkSelectCrypto(c, c.Rand("select", i), log)
	}

	// Invalid attributes fail cleanly.
	checkBadCrypto(c)
	key := base64.StdEncoding.EncodeToString(make([]byte, 30))
	for _, v := range []string{
		"x AES_CM_128_HMAC_SHA1_80 inline:" + key,
		"1 AES_CM_128_HMAC_SHA1_80 inline:!!!!",
		"1 AES_CM_128_HMAC_SHA1_80 inline:",
		"1 AES_CM_128_HMAC_SHA1_80 inline:AAAA",
		"1 AES_256_CM_HMAC_SHA1_80 inline:" + key,
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + base64.StdEncoding.EncodeToString(make([]byte, 46)),
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|0",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|-5",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^64",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^x",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|3^4",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|1",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|1:0",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|256:1",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|65536:2",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|72057594037927936:7",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|-1:4",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|x:4",
		"1 AES_CM_128_HMAC_SHA1_80 inline:" + key + "|2^31|1:x",
	} {
		c.Eval("invalid %q", v)
		c.Distinct(v)
		d, err := sdp.Parse([]byte("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nm=audio 5000 RTP/SAVP 0\r\na=crypto:" + v + "\r\n"))
		if err == nil && len(d.CryptoProfiles) != 0 {
			c.Fail("invalid", "accepted %+v from %q", d.CryptoProfiles, v)
		}
		c.Count("invalid attributes", 1)
	}
}

func randProfiles(rnd *rand.Rand, max int) (out []srtp.Profile) {
	for k := rnd.Intn(max + 1); k > 0; k-- {
		name := append([]string{"F8_128_HMAC_SHA1_80", "", "aes_cm_128_hmac_sha1_80"}, profOrder...)[rnd.Intn(3+len(profOrder))]
		sz, ok := profSizes[name]
		if !ok {
			if rnd.Intn(2) == 0 {
				continue
			}
			sz = [2]int{16, 14}
		}
		p := srtp.Profile{Index: 1 + rnd.Intn(9), Profile: srtp.ProtectionProfile(name), Key: make([]byte, sz[0]), Salt: make([]byte, sz[1])}
		rnd.Read(p.Key)
		rnd.Read(p.Salt)
		if rnd.Intn(2) == 0 {
			p.MKI = make([]byte, 1+rnd.Intn(4))
			rnd.Read(p.MKI)
		}
		out = append(out, p)
	}
	return
}

func cloneProfiles(list []srtp.Profile) (out []srtp.Profile) {
	for _, p := range list {
		p.Key, p.Salt, p.MKI = bytes.Clone(p.Key), bytes.Clone(p.Salt), bytes.Clone(p.MKI)
		out = append(out, p)
	}
	return
}

func checkSelectCrypto(c *kit.C, rnd *rand.Rand, log logger.Logger) {
	offer, answer := randProfiles(rnd, 5), randProfiles(rnd, 5)
	swap := rnd.Intn(2) == 0
	o2, a2 := cloneProfiles(offer), cloneProfiles(answer)
	c.Eval("select swap=%v %+v %+v", swap, offer, answer)
	c.Distinct(swap, fmt.Sprint(offer), fmt.Sprint(answer))
	conf, prof, err := sdp.SelectCrypto(offer, answer, swap)
	if !sameProfiles(offer, o2) || !sameProfiles(answer, a2) {
		c.Fail("select-modified", "profiles are modified")
	}
	// The first known profile of the answer which is in the offer.
	var ans *srtp.Profile
	for k := range answer {
		if _, ok := profSizes[string(answer[k].Profile)]; !ok {
			continue
		}
		for _, o := range offer {
			if ans == nil && o.Profile == answer[k].Profile {
				ans = &answer[k]
			}
		}
	}
	if ans == nil {
		if conf != nil || prof != nil {
			c.Fail("select-nothing", "selected %+v without a common profile", prof)
		}
		c.Count("nothing selected", 1)
		return
	}
	if err != nil || conf == nil || prof == nil {
		c.Fail("select", "not selected: %v", err)
		return
	}
	// Any offered with the same profile, but everything is from one of them.
	var off *srtp.Profile
	for k := range offer {
		o := &offer[k]
		lk, ls := o.Key, o.Salt
		gk, gs := conf.Keys.LocalMasterKey, conf.Keys.LocalMasterSalt
		if swap {
			gk, gs = conf.Keys.RemoteMasterKey, conf.Keys.RemoteMasterSalt
		}
		if o.Profile == ans.Profile && bytes.Equal(gk, lk) && bytes.Equal(gs, ls) {
			off = o
		}
	}
	ak, as := conf.Keys.RemoteMasterKey, conf.Keys.RemoteMasterSalt
	if swap {
		ak, as = conf.Keys.LocalMasterKey, conf.Keys.LocalMasterSalt
	}
	if off == nil || !bytes.Equal(ak, ans.Key) || !bytes.Equal(as, ans.Salt) {
		c.Fail("select-keys", "unexpected keys %+v", conf.Keys)
		return
	}
	if id, _ := ans.Profile.Parse(); id != conf.Profile {
		c.Fail("select-profile", "profile %v, expected %v", conf.Profile, id)
		return
	}
	want := *off
	if swap {
		want = *ans
		want.Index = off.Index
	}
	if !sameProfiles([]srtp.Profile{*prof}, []srtp.Profile{want}) {
		c.Fail("select-result", "profile %+v, expected %+v", *prof, want)
	}
	// The other party.
	other := &srtp.Config{Profile: conf.Profile, Keys: srtp.SessionKeys{
		LocalMasterKey: conf.Keys.RemoteMasterKey, LocalMasterSalt: conf.Keys.RemoteMasterSalt,
		RemoteMasterKey: conf.Keys.LocalMasterKey, RemoteMasterSalt: conf.Keys.LocalMasterSalt,
	}}
	local, remote := off.MKI, ans.MKI
	if swap {
		local, remote = remote, local
	}
	if len(remote) != 0 {
		other.LocalOptions = append(other.LocalOptions, srtp.MasterKeyIndicator(remote))
	}
	if len(local) != 0 {
		other.RemoteOptions = append(other.RemoteOptions, srtp.MasterKeyIndicator(local))
	}
	exchange(c, rnd, log, conf, other, local, remote)
	c.Count("selected", 1)
}

// exchange sends packets both ways between two negotiated sessions. MKIs are expected on the wire.
func exchange(c *kit.C, rnd *rand.Rand, log logger.Logger, ca, cb *srtp.Config, mkiA, mkiB []byte) {
	if bytes.Equal(ca.Keys.LocalMasterKey, ca.Keys.RemoteMasterKey) || bytes.Equal(ca.Keys.LocalMasterSalt, ca.Keys.RemoteMasterSalt) {
		c.Fail("same-keys", "both directions use the same key")
		return
	}
	c.Bubble("exchange", func() {
		connA, connB := newMemConn(), newMemConn()
		a, err := srtp.NewSession(log, connA, ca)
		if err != nil {
			c.Fail("session", "%v", err)
			return
		}
		defer a.Close()
		b, err := srtp.NewSession(log, connB, cb)
		if err != nil {
			c.Fail("session", "%v", err)
			return
		}
		defer b.Close()
		for dir := 0; dir < 2; dir++ {
			from, to, fc, tc, mki := a, b, connA, connB, mkiA
			if dir == 1 {
				from, to, fc, tc, mki = b, a, connB, connA, mkiB
			}
			w, err := from.OpenWriteStream()
			if err != nil {
				c.Fail("open", "%v", err)
				return
			}
			p := randPacket(rnd, rnd.Uint32(), uint16(rnd.Intn(65536)), 20+rnd.Intn(200))
			if _, err = w.WriteRTP(&p.Header, p.Payload); err != nil {
				c.Fail("write", "%v", err)
				return
			}
			raw := fc.written()
			if len(raw) != 1 {
				c.Fail("write", "%d packets", len(raw))
				return
			}
			plain := marshal(p)
			if bytes.Contains(raw[0], p.Payload) {
				c.Fail("not-encrypted", "payload is sent in the clear")
			}
			tag := 10
			if id := ca.Profile.String(); strings.HasSuffix(id, "32") {
				tag = 4
			}
			if len(raw[0]) != len(plain)+len(mki)+tag {
				c.Fail("overhead", "packet of %d bytes is sent as %d, expected an identifier of %d and a tag of %d", len(plain), len(raw[0]), len(mki), tag)
			} else if !bytes.Equal(raw[0][len(plain):len(plain)+len(mki)], mki) {
				c.Fail("mki", "key identifier %x, expected %x", raw[0][len(plain):len(plain)+len(mki)], mki)
			}
			tc.in <- raw[0]
			done := make(chan struct{})
			go func() {
				defer close(done)
				r, ssrc, err := to.AcceptStream()
				if err != nil {
					c.Fail("accept", "%v", err)
					return
				}
				var h prtp.Header
				buf := make([]byte, 1500)
				n, err := r.ReadRTP(&h, buf)
				if err != nil || ssrc != p.SSRC || !samePacket(&h, buf[:n], p) {
					c.Fail("keys", "packet isn't received: %v", err)
				}
			}()
			<-done
			c.Count("packets exchanged", 1)
		}
	})
}
