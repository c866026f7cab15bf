package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sync"
	"unsafe"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/logger"
)

// decodeAll decodes a packet as documented: header, then payload.
func decodeAll(data []byte) (p agentx.Pdu, ok bool, why string) {
	if len(data) < 20 {
		return p, false, "shorter than a header"
	}
	p, ok = agentx.DecodePduHeader(data[:20:20])
	if !ok {
		return p, false, "header refused"
	}
	if !agentx.DecodePduPayload(&p, data[20:]) {
		return p, false, "payload refused"
	}
	return p, true, ""
}

func pduLabel(t *T, p agentx.Pdu) {
	if known(p.Tag) {
		t.Label("type " + pduInfos[p.Tag].name)
	} else {
		t.Label("type unknown")
	}
	if p.Flags&flNbo != 0 {
		t.Label("network byte order")
	}
}

// richPdu: the payload carries more than fixed-size parameters.
func richPdu(p agentx.Pdu) bool { return refSize(p) > 8 }

func samplePdu(t *T, p agentx.Pdu) { t.Sample(func() string { return showPdu(p) }) }

const pduRule = "PDUs of all 18 types are drawn with a bias to boundary numbers, literals of the code, byte patterns, repeated and nearly repeated values, OIDs around the 1.3.6.1.x short form and the length limits, strings of all small lengths and around powers of two, and fields the type does not carry; the enumerated cases cover every flag set per type, every byte and 16-bit field value, every OID and string length up to a bound, and list lengths around powers of two. "

// ---------------------------------------------------------------- C01

func checkRoundTrip(t *T, p agentx.Pdu) {
	pduLabel(t, p)
	samplePdu(t, p)
	data, ok := agentx.EncodePdu(p)
	if !ok {
		t.Label("not encodable")
		return
	}
	t.KeyBytes(data)
	if len(data) > 28 {
		t.NonTrivial()
	}
	got, ok, why := decodeAll(data)
	if !ok {
		t.Failf("the encoded PDU does not decode: %s\nbytes % x", why, clip(data))
	}
	want := carried(p, int32(len(data)-20))
	if d := pduDiff(want, got); d != "" {
		t.Failf("decoding the encoded PDU gives another PDU: %s\nbytes % x", d, clip(data))
	}
}

func clip(b []byte) []byte {
	if len(b) > 600 {
		return b[:600]
	}
	return b
}

// ---------------------------------------------------------------- C02

func checkWire(t *T, p agentx.Pdu) {
	pduLabel(t, p)
	samplePdu(t, p)
	data, ok := agentx.EncodePdu(p)
	if !ok {
		t.Label("not encodable")
		return
	}
	if v, _ := encodable(p); v == reject {
		t.Label("accepted against the specification (decided by C03)")
		return
	}
	t.KeyBytes(data)
	if len(data) > 28 {
		t.NonTrivial()
	}
	want := refEncode(p)
	if !bytes.Equal(want, data) {
		i := 0
		for i < len(want) && i < len(data) && want[i] == data[i] {
			i++
		}
		t.Failf("not the bytes RFC 2741 prescribes: %d bytes, want %d, first difference at offset %d\nwant % x\ngot  % x", len(data), len(want), i, around(want, i), around(data, i))
	}
}

func around(b []byte, i int) []byte {
	lo, hi := i-8, i+24
	if lo < 0 {
		lo = 0
	}
	if lo > len(b) {
		lo = len(b)
	}
	if hi > len(b) {
		hi = len(b)
	}
	return b[lo:hi]
}

// ---------------------------------------------------------------- C03

var hugeMu sync.Mutex

// hugeString is n zero bytes; the pages are never written.
func hugeString(n int) string {
	b := make([]byte, n)
	return unsafe.String(&b[0], n)
}

// overPdu is a PDU whose payload size is around or beyond the length field.
func overPdu(i int) agentx.Pdu {
	const chunk = 1 << 28
	s := hugeString(chunk)
	p := agentx.Pdu{Tag: 18, Flags: nbo(i), Params: agentx.ResponseParams{}}
	fill := func(n int, last int) {
		for k := 0; k < n; k++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: asn.TagOctetString, Value: s})
		}
		if last >= 0 {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: asn.TagOctetString, Value: s[:last]})
		}
	}
	switch i / 2 {
	case 0:
		fill(8, -1) // 2^31 + 8 + 8*12
	case 1: // exactly 2^31
		fill(7, chunk-7*12-8-12)
	case 2: // 2^32 + 4: wraps to 4
		fill(15, chunk-15*12-8-12+4)
	case 3: // 2^32 + 2^20
		fill(16, 1<<20)
	case 4: // the same with opaques
		b := make([]byte, chunk)
		for k := 0; k < 17; k++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: asn.TagOpaque, Value: b})
		}
	case 5:
		p = agentx.Pdu{Tag: 1, Flags: nbo(i), Params: agentx.OpenParams{Description: hugeString(1 << 31)}}
	case 6:
		p = agentx.Pdu{Tag: 16, Flags: nbo(i), Params: agentx.AddAgentCapsParams{Description: hugeString(1<<32 + 16)}}
	case 7:
		p = agentx.Pdu{Tag: 13, Flags: nbo(i) | flCtx, Context: hugeString(1<<31 - 4), Params: agentx.NoParams{}}
	case 9, 10, 11, 12: // large payloads that fit
		p.Varbinds = []asn.Varbind{{Tag: asn.TagOctetString, Value: s[:[]int{1<<24 + 1, 1<<25 + 1, 1<<26 + 1, 1<<27 + 5}[i/2-9]]}}
	case 13:
		p = agentx.Pdu{Tag: 1, Flags: nbo(i), Params: agentx.OpenParams{Description: s}}
	case 14:
		p = agentx.Pdu{Tag: 13, Flags: nbo(i) | flCtx, Context: s[:1<<26+3], Params: agentx.NoParams{}}
	case 15: // (thorough tier)
		fill(4, 7)
	case 8: // the largest payload that fits (thorough tier)
		fill(7, chunk-7*12-8-12-4)
	}
	return p
}

// overQuick leaves out those that take very long or very much memory.
var overQuick = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 20, 23, 25, 26, 28}
var overThorough = append(append([]int{}, overQuick...), 16, 19, 21, 22, 24, 27, 29, 30, 31)

func checkAccept(t *T, p agentx.Pdu) {
	pduLabel(t, p)
	samplePdu(t, p)
	v, why := encodable(p)
	if why == "" {
		why = "valid"
	}
	t.Label(why)
	if v == reject || richPdu(p) {
		t.NonTrivial()
	}
	data, ok := func() (d []byte, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				t.Failf("encoding panicked: %v", r)
			}
		}()
		return agentx.EncodePdu(p)
	}()
	if v == accept && !ok {
		t.Failf("a representable PDU is refused")
	}
	if v == reject && ok {
		t.Failf("a PDU that cannot be represented (%s) is encoded\nbytes % x", why, clip(data))
	}
}

// ---------------------------------------------------------------- C04

func checkHeader(t *T, b []byte) {
	t.Sample(func() string { return fmt.Sprintf("header % x", b) })
	t.KeyBytes(b)
	want, wantOK, why := refDecodeHeader(b)
	if wantOK {
		t.Label("valid")
	} else {
		t.Label("invalid " + why)
	}
	if len(b) == 20 {
		t.NonTrivial()
	}
	got, ok := agentx.DecodePduHeader(b)
	if ok != wantOK {
		if ok {
			t.Failf("an invalid header (%s) is accepted: % x", why, b)
		}
		t.Failf("a valid header is refused: % x", b)
	}
	if !ok {
		return
	}
	if got.Context != "" || got.Params != nil || len(got.Ranges) != 0 || len(got.Varbinds) != 0 {
		t.Failf("payload fields set by header decoding: %s", showPdu(got))
	}
	if d := pduDiff(want, got); d != "" {
		t.Failf("header % x: %s", b, d)
	}
}

func sysHeader(i int) []byte {
	base := refHeader(agentx.Pdu{Tag: 18, Flags: flNbo, SessionId: 0x01020304, TransactionId: 0x05060708, PacketId: 0x090a0b0c}, 0x40)
	switch {
	case i < 65536:
		b := refHeader(agentx.Pdu{Tag: agentx.PduTag(i >> 8), Flags: agentx.Flags(i), SessionId: 0x01020304, TransactionId: 0xf5060708, PacketId: 0x090a0bfc}, 0x40)
		return b
	case i < 65536+256:
		base[0] = byte(i)
	case i < 65536+512:
		base[3] = byte(i)
	case i < 65536+512+16*256:
		i -= 65536 + 512
		base[4+i/256] = byte(i)
		if i/256 >= 12 && i%2 == 0 { // payload length bytes, both byte orders
			base[2] = 0
		}
	case i < 65536+512+16*256+80:
		n := i - (65536 + 512 + 16*256)
		b := make([]byte, 80)
		copy(b, base)
		return b[:n]
	default:
		i -= 65536 + 512 + 16*256 + 80
		k := i / (3 * 2)
		w := words32[k%len(words32)] + uint32(i%3)
		tag := agentx.PduTag(k/len(words32)%18 + 1)
		return refHeader(agentx.Pdu{Tag: tag, Flags: nbo(i), SessionId: w, TransactionId: ^w, PacketId: w * 3}, w)
	}
	return base
}

var nSysHeader = 65536 + 512 + 16*256 + 80 + 3*2*18*len(words32)

func genHeader(g *G) []byte {
	p := g.header(agentx.PduTag(g.Int(1, 18)))
	size := g.u32() & 0x7ffffffc
	if g.Bool() {
		size = uint32(g.Draw(100)) * 4
	}
	b := refHeader(p, size)
	for n := g.Int(0, 3); n > 0; n-- {
		switch g.Draw(8) {
		case 0:
			b[0] = g.u8()
		case 1:
			b[1] = g.u8()
		case 2:
			b[2] = g.u8()
		case 3:
			b[3] = g.u8()
		case 4:
			order(p.Flags).PutUint32(b[16:], g.u32())
		case 5:
			b[g.Draw(20)] = g.u8()
		case 6:
			b[g.Draw(20)] ^= 1 << g.Draw(8)
		case 7:
			for i := 4; i < 20; i += 4 {
				order(p.Flags).PutUint32(b[i:], g.u32())
			}
		}
	}
	if g.Chance(1, 10) {
		n := g.Int(0, 40)
		for len(b) < n {
			b = append(b, g.u8())
		}
		b = b[:n]
	}
	return g.spare(b)
}

// ---------------------------------------------------------------- C05

func samplePayload(t *T, hdr agentx.Pdu, data []byte) {
	t.Sample(func() string {
		return fmt.Sprintf("header tag=%d flags=%#02x payloadsize=%d, %d payload bytes % x", uint8(hdr.Tag), uint8(hdr.Flags), hdr.PayloadSize, len(data), clip(data))
	})
	t.KeyBytes([]byte{byte(hdr.Tag), byte(hdr.Flags)}, data)
}

func checkPayload(t *T, hdr agentx.Pdu, data []byte, what string) {
	pduLabel(t, hdr)
	samplePayload(t, hdr, data)
	want, v, why := refDecode(hdr, data)
	t.Label("expect " + v.String())
	if what != "" {
		t.Label("damage: " + what)
	}
	if len(data) > 0 {
		t.NonTrivial()
	}
	p := hdr
	ok := agentx.DecodePduPayload(&p, data)
	if v == accept && !ok {
		t.Failf("a well-formed payload is refused: % x", clip(data))
	}
	if v == reject && ok {
		t.Failf("a malformed payload (%s) is accepted: % x", why, clip(data))
	}
	if !ok {
		return
	}
	if d := pduDiffV(want, p, v == either); d != "" {
		t.Failf("payload % x: %s", clip(data), d)
	}
}

// sysPayloads: for representative PDUs, every byte position set to several
// values, every truncation and some extensions.
var repPdus = func() (l []agentx.Pdu) {
	for tag := agentx.PduTag(1); tag <= 18; tag++ {
		for k := 0; k < 2; k++ {
			l = append(l, simplePdu(tag, nbo(k)))
			if allowedFlags(tag)&flCtx != 0 {
				l = append(l, simplePdu(tag, nbo(k)|flCtx))
			}
		}
	}
	for i, tag := range valueTags {
		for k := 0; k < 2; k++ {
			for n := 1; n < 6; n++ {
				l = append(l, agentx.Pdu{Tag: []agentx.PduTag{8, 12, 14, 15, 18}[(i+n)%5], Flags: nbo(k), Params: simpleParams([]agentx.PduTag{8, 12, 14, 15, 18}[(i+n)%5]),
					Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: tag, Value: sysValue(tag, n)}, {Oid: []uint32{1, 3, 6, 1, 2}, Tag: asn.TagInteger32, Value: int32(5)}}})
			}
		}
	}
	for k := 0; k < nOidCarriers; k++ {
		for n := 0; n < 2; n++ {
			l = append(l, oidCarrier(k, inetOid(9, 2), nbo(n)), oidCarrier(k, seqOid(3), nbo(n)), oidCarrier(k, nil, nbo(n)))
		}
	}
	for k := 0; k < nStrCarriers; k++ {
		for n := 0; n < 10; n++ {
			l = append(l, strCarrier(k, iotaString(n/2), nbo(n)))
		}
	}
	return
}()

type sysPl struct{ pdu, kind, pos, val int }

const plByteVals = 10

var sysPlStarts, nSysPl = func() (starts []int, n int) {
	for _, p := range repPdus {
		e := refEncoder{}
		b := e.payload(p)
		starts = append(starts, n)
		n += len(b)*plByteVals + len(b) + 9 + len(b)/4*2
	}
	return
}()

func sysPayload(i int) (hdr agentx.Pdu, b []byte, what string) {
	lo, hi := 0, len(sysPlStarts)
	for lo+1 < hi {
		m := (lo + hi) / 2
		if sysPlStarts[m] <= i {
			lo = m
		} else {
			hi = m
		}
	}
	i -= sysPlStarts[lo]
	p := repPdus[lo]
	e := refEncoder{}
	b = append([]byte{}, e.payload(p)...)
	hdr = agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: 1, TransactionId: 2, PacketId: 3}
	n := len(b)
	switch {
	case i < n*plByteVals:
		k := i / plByteVals
		switch i % plByteVals {
		case 0:
			b[k] = 0
		case 1:
			b[k] = 1
		case 2:
			b[k] = 0x7f
		case 3:
			b[k] = 0x80
		case 4:
			b[k] = 0xff
		case 5:
			b[k]++
		case 6:
			b[k]--
		case 7:
			b[k] ^= 0x10
		case 8:
			b[k] = 4
		case 9:
			b[k] = 2
		}
		what = "byte set"
	case i < n*plByteVals+n:
		b = b[:i-n*plByteVals]
		what = "truncated"
	case i < n*plByteVals+n+9:
		for k := i - n*plByteVals - n; k > 0; k-- {
			b = append(b, 0)
			what = "extended"
		}
	default:
		i -= n*plByteVals + n + 9
		k := i / 2 * 4
		if i%2 == 0 {
			b = append(b[:k], b[k+4:]...)
			what = "word dropped"
		} else {
			b = append(b[:k+4], append([]byte{}, b[k:]...)...)
			what = "word repeated"
		}
	}
	hdr.PayloadSize = int32(len(b))
	return
}

// sysZero: pairs of bytes that have to be zero (reserved and padding), set to
// correlated values (the quick tier) or to all values; with a < 256 * the
// number of single bytes first.
type zeroPair struct {
	hdr  agentx.Pdu
	b    []byte
	i, j int
}

var zeroPairs = func() (l []zeroPair) {
	var ps []agentx.Pdu
	for k := 0; k < 2; k++ {
		for tag := agentx.PduTag(1); tag <= 18; tag++ {
			ps = append(ps, simplePdu(tag, nbo(k)))
		}
		for c := 0; c < nStrCarriers; c++ {
			ps = append(ps, strCarrier(c, "x", nbo(k)), strCarrier(c, "xy", nbo(k)))
		}
		for c := 0; c < nOidCarriers; c++ {
			ps = append(ps, oidCarrier(c, seqOid(3), nbo(k)))
		}
		for _, tag := range valueTags {
			ps = append(ps, agentx.Pdu{Tag: 8, Flags: nbo(k), Params: simpleParams(8), Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: tag, Value: sysValue(tag, 2)}}})
		}
	}
	for _, p := range ps {
		e := refEncoder{}
		b := e.payload(p)
		hdr := agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: 1, TransactionId: 2, PacketId: 3, PayloadSize: int32(len(b))}
		var z []int
		for _, f := range e.fields {
			if f.kind == fReserved || f.kind == fPadding {
				for k := 0; k < f.size; k++ {
					z = append(z, f.off+k)
				}
			}
		}
		for i := range z {
			for j := i; j < len(z) && j < i+4; j++ {
				l = append(l, zeroPair{hdr, b, z[i], z[j]})
			}
		}
	}
	return
}()

func sysZero(i int, all bool) (agentx.Pdu, []byte, string) {
	var z zeroPair
	var u, v byte
	if all {
		z, u, v = zeroPairs[i>>16], byte(i>>8), byte(i)
	} else {
		z, u = zeroPairs[i/256/5], byte(i)
		switch i / 256 % 5 {
		case 0:
			v = -u
		case 1:
			v = u
		case 2:
			v = ^u
		case 3:
			v = u ^ 0x80
		case 4:
			v = 1
		}
	}
	b := append([]byte{}, z.b...)
	b[z.i] = u
	b[z.j] = v
	return z.hdr, b, "bytes that must be zero"
}

// ---------------------------------------------------------------- C06

func checkHostile(t *T, hb []byte, hdr agentx.Pdu, data []byte, dbg, mem bool) {
	t.Sample(func() string {
		return fmt.Sprintf("tag=%d flags=%#02x payloadsize=%d, %d bytes % x", uint8(hdr.Tag), uint8(hdr.Flags), hdr.PayloadSize, len(data), clip(data))
	})
	t.KeyBytes([]byte{byte(hdr.Tag), byte(hdr.Flags)}, data)
	if len(data) >= 4 {
		t.NonTrivial()
	}
	guard := func(what string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				t.Failf("%s panicked: %v", what, r)
			}
		}()
		f()
	}
	var m0, m1 runtime.MemStats
	hok, ok := false, false
	p := hdr
	if mem {
		runtime.ReadMemStats(&m0)
	}
	guard("DecodePduHeader", func() { _, hok = agentx.DecodePduHeader(hb) })
	guard("DecodePduPayload", func() { ok = agentx.DecodePduPayload(&p, data) })
	if mem {
		runtime.ReadMemStats(&m1)
		t.Label("memory measured")
		limit := uint64(256<<10 + 256*(len(data)+len(hb)))
		if n := m1.TotalAlloc - m0.TotalAlloc; n > limit {
			t.Failf("decoding %d bytes allocated %d bytes", len(data)+len(hb), n)
		}
	}
	if hok {
		t.Label("header accepted")
	}
	if ok {
		t.Label("payload accepted")
	} else {
		t.Label("payload refused")
	}
	if dbg {
		t.Label("debug decoding too")
		guard("DecodePduHeaderDbg", func() { agentx.DecodePduHeaderDbg(hb, discard{}) })
		q := hdr
		guard("DecodePduPayloadDbg", func() { agentx.DecodePduPayloadDbg(&q, data, discard{}) })
	}
}

type discard struct{}

func (discard) Write(string)                  {}
func (discard) Writef(string, ...interface{}) {}

func genHostile(g *G) (hdr agentx.Pdu, data []byte) {
	switch g.Draw(4) {
	case 0:
		hdr = g.header(agentx.PduTag(g.Int(1, 18)))
		data = g.words()
	case 1:
		hdr = g.header(agentx.PduTag(g.Int(1, 18)))
		data = g.bytes(5000)
	default:
		hdr, data, _ = g.payload()
	}
	if g.Chance(1, 8) {
		hdr.Tag = agentx.PduTag(g.u8())
	}
	if g.Chance(1, 8) {
		hdr.Flags = agentx.Flags(g.u8())
	}
	hdr.PayloadSize = int32(len(data))
	if g.Chance(1, 16) {
		hdr.PayloadSize = int32(g.u32())
	}
	if g.Chance(1, 16) {
		hdr.Params, hdr.Context = g.wildParams(), "stale"
	}
	return
}

// sysHostile: big inputs of little content, where decoders go quadratic,
// recurse or over-allocate, and announced lengths of all magnitudes.
func sysHostile(i int) (hdr agentx.Pdu, data []byte) {
	hdr = agentx.Pdu{Tag: agentx.PduTag(i%18 + 1)}
	i /= 18
	if i%2 == 1 {
		hdr.Flags = flNbo
	}
	i /= 2
	bo := order(hdr.Flags)
	switch {
	case i < 16: // long uniform payloads
		data = bytes.Repeat([]byte{byte([]int{0, 1, 4, 5, 127, 128, 129, 255}[i/2])}, []int{1 << 12, 1 << 16}[i%2])
	case i < 16+3*len(announced): // one length field announcing much
		i -= 16
		n := announced[i%len(announced)]
		e := refEncoder{bo: bo}
		switch hdr.Tag {
		case 1:
			e.b = []byte{0, 0, 0, 0}
			e.oid([]uint32{1}, 0)
		case 16:
			e.oid(nil, 0)
		case 18:
			e.b = make([]byte, 8)
		}
		if hasVarbinds(hdr.Tag) {
			e.u16(fTag, uint16([]asn.Tag{asn.TagOctetString, asn.TagOpaque, asn.TagIpAddress}[i/len(announced)]))
			e.zero(2)
			e.oid([]uint32{1, 2, 3}, 0)
		} else if allowedFlags(hdr.Tag)&flCtx != 0 {
			hdr.Flags |= flCtx
			e.b = nil
		}
		e.u32(fLen, uint32(n))
		data = append(e.b, make([]byte, []int{0, 4, 64}[i/len(announced)])...)
	default: // many OID headers announcing many sub-identifiers
		i -= 16 + 3*len(announced)
		for len(data) < 4096 {
			data = append(data, byte(120+i), byte(i%3), 0, 0)
		}
	}
	hdr.PayloadSize = int32(len(data))
	return
}

// bigHostile: 8 MB of the smallest items. The stack limit of C06 turns
// recursion over the items, which would exceed the stack of a goroutine on a
// payload of the largest size, into a crash here.
const nBigHostile = 16

func bigHostile(i int) (hdr agentx.Pdu, data []byte) {
	hdr = agentx.Pdu{Tag: []agentx.PduTag{5, 6, 7, 8, 12, 14, 15, 18}[i/2], Flags: nbo(i)}
	item := make([]byte, 8)
	switch {
	case hasVarbinds(hdr.Tag):
		if i%2 == 0 {
			item[0] = 5
		} else {
			item[1] = 5
		}
	}
	switch hdr.Tag {
	case 7:
		data = make([]byte, 4)
	case 18:
		data = make([]byte, 8)
	}
	data = append(data, bytes.Repeat(item, 1<<20)...)
	hdr.PayloadSize = int32(len(data))
	return
}

var announced = []int64{1 << 12, 1 << 16, 1<<16 - 1, 1 << 18, 1 << 20, 1 << 22, 1 << 24, 1 << 26, 1 << 28, 1 << 29, 1 << 30, 1<<31 - 1, 1<<31 - 2, 1<<31 - 4, -1, -2, -4, -8, math.MinInt32, math.MinInt32 + 1, -1 << 16, -1 << 24}
var nSysHostile = 36 * (16 + 3*len(announced) + 16)

// ---------------------------------------------------------------- C07, C08

type fmtLog struct{ n int }

func (l *fmtLog) Write(s string) { l.n += len(s) }
func (l *fmtLog) Writef(f string, a ...interface{}) {
	l.n += len(fmt.Sprintf(f, a...))
}

// nosyLog makes codec calls of its own while a debug call is running.
type nosyLog struct{ n int }

func (l *nosyLog) Write(s string) {
	l.n++
	if l.n%7 == 0 {
		agentx.EncodePdu(simplePdu(agentx.PduTag(l.n%18+1), nbo(l.n/7)))
	}
	if l.n%11 == 0 {
		p := agentx.Pdu{Tag: 18, PayloadSize: 4}
		agentx.DecodePduPayload(&p, []byte{0, 0, 0, 0})
	}
	if l.n == 5 {
		agentx.EncodePduDbg(simplePdu(18, flNbo), discard{})
	}
}
func (l *nosyLog) Writef(f string, a ...interface{}) { l.Write(f) }

func pickLog(k int) logger.Log {
	switch k % 4 {
	case 0:
		return discard{}
	case 1:
		return &fmtLog{}
	case 2:
		return &nosyLog{}
	}
	return &recLog{}
}

type recLog struct{ msgs []string }

func (l *recLog) Write(s string) { l.msgs = append(l.msgs, s) }
func (l *recLog) Writef(f string, a ...interface{}) {
	l.msgs = append(l.msgs, fmt.Sprintf(f, a...))
}

func checkDbgEncode(t *T, p agentx.Pdu, log logger.Log) {
	pduLabel(t, p)
	samplePdu(t, p)
	d1, ok1 := agentx.EncodePdu(p)
	d2, ok2 := agentx.EncodePduDbg(p, log)
	if ok1 {
		t.Label("encoded")
		t.KeyBytes(d1)
	} else {
		t.Label("refused")
	}
	if !ok1 || len(d1) > 28 {
		t.NonTrivial()
	}
	if ok1 != ok2 {
		t.Failf("EncodePdu success=%v, EncodePduDbg success=%v", ok1, ok2)
	}
	if ok1 && !bytes.Equal(d1, d2) {
		t.Failf("different bytes:\nEncodePdu    % x\nEncodePduDbg % x", clip(d1), clip(d2))
	}
}

func checkDbgHeader(t *T, b []byte, log logger.Log) {
	t.Sample(func() string { return fmt.Sprintf("header % x", b) })
	t.KeyBytes(b)
	t.NonTrivial()
	p1, ok1 := agentx.DecodePduHeader(b)
	p2, ok2 := agentx.DecodePduHeaderDbg(b, log)
	if ok1 {
		t.Label("header accepted")
	} else {
		t.Label("header refused")
	}
	if ok1 != ok2 {
		t.Failf("header % x: DecodePduHeader success=%v, DecodePduHeaderDbg success=%v", b, ok1, ok2)
	}
	if ok1 {
		if d := pduDiff(p1, p2); d != "" {
			t.Failf("header % x: debug decoding differs: %s", b, d)
		}
	}
}

func checkDbgPayload(t *T, hdr agentx.Pdu, data []byte, log logger.Log) {
	pduLabel(t, hdr)
	samplePayload(t, hdr, data)
	if len(data) > 0 {
		t.NonTrivial()
	}
	p1, p2 := hdr, hdr
	ok1 := agentx.DecodePduPayload(&p1, data)
	ok2 := agentx.DecodePduPayloadDbg(&p2, data, log)
	if ok1 {
		t.Label("payload accepted")
	} else {
		t.Label("payload refused")
	}
	if ok1 != ok2 {
		t.Failf("DecodePduPayload success=%v, DecodePduPayloadDbg success=%v for payload % x", ok1, ok2, clip(data))
	}
	if ok1 {
		if d := pduDiff(p1, p2); d != "" {
			t.Failf("debug decoding of payload % x differs: %s", clip(data), d)
		}
	}
}

// ---------------------------------------------------------------- C10, C11

func checkStream(t *T, ps []agentx.Pdu) {
	t.Sample(func() string {
		s := ""
		for _, p := range ps {
			s += showPdu(p) + "\n"
		}
		return s
	})
	var stream []byte
	var want []agentx.Pdu
	for _, p := range ps {
		d, ok := agentx.EncodePdu(p)
		if !ok {
			t.Label("not encodable")
			continue
		}
		if len(d)%4 != 0 {
			t.Failf("a frame of %d bytes: %s", len(d), showPdu(p))
		}
		stream = append(stream, d...)
		want = append(want, carried(p, int32(len(d)-20)))
	}
	t.KeyBytes(stream)
	if len(want) >= 2 {
		t.NonTrivial()
	}
	t.Label(fmt.Sprintf("%d frames", len(want)))
	pos := 0
	for i := 0; i < len(want); i++ {
		if len(stream)-pos < 20 {
			t.Failf("the stream ends before the header of PDU %d", i)
		}
		p, ok := agentx.DecodePduHeader(stream[pos : pos+20])
		if !ok {
			t.Failf("header of PDU %d refused: % x", i, stream[pos:pos+20])
		}
		pos += 20
		if p.PayloadSize < 0 || int(p.PayloadSize) > len(stream)-pos {
			t.Failf("PDU %d announces %d payload bytes, %d are left", i, p.PayloadSize, len(stream)-pos)
		}
		pl := stream[pos : pos+int(p.PayloadSize)]
		pos += int(p.PayloadSize)
		if !agentx.DecodePduPayload(&p, pl) {
			t.Failf("payload of PDU %d refused: % x", i, clip(pl))
		}
		if d := pduDiff(want[i], p); d != "" {
			t.Failf("PDU %d: %s", i, d)
		}
	}
	if pos != len(stream) {
		t.Failf("%d bytes left over at the end of the stream", len(stream)-pos)
	}
}

func checkReencode(t *T, hdr agentx.Pdu, data []byte) {
	pduLabel(t, hdr)
	samplePayload(t, hdr, data)
	packet := append(refHeader(hdr, uint32(hdr.PayloadSize)), data...)
	p, ok, _ := decodeAll(packet)
	if !ok {
		t.Label("refused")
		return
	}
	t.Label("accepted")
	if len(data) > 8 {
		t.NonTrivial()
	}
	d1, ok := agentx.EncodePdu(p)
	if !ok {
		t.Failf("an accepted packet does not encode again: % x", clip(packet))
	}
	if len(d1) > len(packet) {
		t.Failf("re-encoding grows from %d to %d bytes", len(packet), len(d1))
	}
	q, ok, why := decodeAll(d1)
	if !ok {
		t.Failf("the re-encoded packet does not decode: %s\nbytes % x", why, clip(d1))
	}
	want := carried(p, int32(len(d1)-20))
	if d := pduDiff(want, q); d != "" {
		t.Failf("re-encoding changes the PDU: %s\npacket % x\nagain  % x", d, clip(packet), clip(d1))
	}
	if len(d1) < len(packet) {
		t.Label("re-encoded shorter")
	}
	d2, ok := agentx.EncodePdu(q)
	if !ok || !bytes.Equal(d1, d2) {
		t.Failf("encoding a second time gives other bytes:\nfirst  % x\nsecond % x (ok=%v)", clip(d1), clip(d2), ok)
	}
	d3, ok := agentx.EncodePdu(p)
	if !ok || !bytes.Equal(d1, d3) {
		t.Failf("encoding the same PDU again gives other bytes:\nfirst  % x\nagain  % x (ok=%v)", clip(d1), clip(d3), ok)
	}
}

// genForeign draws a packet in any form the format allows, sometimes damaged
// in a place where the decoder may accept it.
func genForeign(g *G) (agentx.Pdu, []byte) {
	if g.Chance(1, 4) {
		h, b, _ := g.payload()
		h.PayloadSize = int32(len(b))
		return h, b
	}
	p := g.pdu()
	e := refEncoder{alt: true, pick: func() bool { return g.Bool() }}
	b := e.payload(p)
	if g.Chance(1, 4) && len(e.fields) > 0 {
		f := e.fields[g.Draw(uint64(len(e.fields)))]
		if f.kind == fInclude || f.kind == fPrefix {
			b[f.off] = g.u8()
		} else if f.kind == fWord || f.kind == fByte || f.kind == fI16 {
			b[f.off+int(g.Draw(uint64(f.size)))] = g.u8()
		}
	}
	return agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: p.SessionId, TransactionId: p.TransactionId, PacketId: p.PacketId, PayloadSize: int32(len(b))}, b
}

// sysForeign: every edge OID in long form in every place.
func sysForeign(i int) (agentx.Pdu, []byte) {
	if i < 2*nOidCarriers*len(edgeOids) {
		p := oidCarrier(i/2%nOidCarriers, edgeOids[i/2/nOidCarriers], nbo(i))
		e := refEncoder{alt: true, pick: func() bool { return true }}
		b := e.payload(p)
		p.PayloadSize = int32(len(b))
		return p, b
	}
	h, b, _ := sysPayload(i - 2*nOidCarriers*len(edgeOids))
	return h, b
}

// bigDbg are long strings and lists for the debug functions.
const nBigDbg = 8

func bigDbg(i int) agentx.Pdu {
	fl := nbo(i)
	switch i / 2 {
	case 0:
		return strCarrier(0, iotaString(1<<20+1), fl)
	case 1:
		return strCarrier(nStrCarriers-1, iotaString(1<<20+2), fl)
	case 2:
		p := agentx.Pdu{Tag: 5, Flags: fl, Params: agentx.NoParams{}}
		for k := 0; k < 65537; k++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{uint32(k)}, StartIncluded: byte(k & 1)})
		}
		return p
	}
	p := agentx.Pdu{Tag: 18, Flags: fl, Params: agentx.ResponseParams{Index: 9}}
	for k := 0; k < 65537; k++ {
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{uint32(k)}, Tag: asn.TagInteger32, Value: int32(k)})
	}
	return p
}

// ---------------------------------------------------------------- registry

func init() {
	nv, n16, nh, nb := sysPdus.total(), sys16.total(), sysHuge.total(), sysBad.total()
	valid := func(check func(*T, agentx.Pdu)) func(*T, int) {
		return func(t *T, i int) {
			switch {
			case i < nv:
				check(t, sysPdus.at(i))
			case i < nv+n16:
				check(t, sys16.at(i-nv))
			default:
				hugeMu.Lock()
				defer hugeMu.Unlock()
				p := sysHuge.at(i - nv - n16)
				check(t, p)
				t.Sample(func() string { return fmt.Sprintf("tag=%d with %d payload bytes", p.Tag, refSize(p)) })
			}
		}
	}
	register(&Prop{ID: "C01", Rule: pduRule + "Non-trivial: the PDU encodes and its payload is longer than 8 bytes.",
		Quick: 2400000, Thorough: 60000000, Sys: nv + n16 + nh, SysRun: valid(checkRoundTrip),
		Run: func(t *T) { g := gen(t); g.pduTwice(g.pdu(), func(p agentx.Pdu) { checkRoundTrip(t, p) }) }})
	register(&Prop{ID: "C02", Rule: pduRule + "Non-trivial: the PDU encodes and its payload is longer than 8 bytes. Oracle: an independent RFC 2741 encoder.",
		Quick: 4800000, Thorough: 80000000, Sys: nv + n16 + nh, SysRun: valid(checkWire), Finish: checkConstants,
		Run: func(t *T) { g := gen(t); g.pduTwice(g.pdu(), func(p agentx.Pdu) { checkWire(t, p) }) }})
	register(&Prop{ID: "C03", Rule: pduRule + "Half of the generated PDUs have one to three things wrong; enumerated besides: every type byte with every flag byte, every type with parameters of every kind, every value type byte with Go values of all kinds, negative counts, too long OIDs, payloads of 2^31 bytes and more. Non-trivial: the PDU is not representable, or its payload is longer than 8 bytes.",
		Quick: 3600000, Thorough: 80000000, Sys: nb + nv + n16 + len(overQuick), SysThorough: nb + nv + n16 + len(overThorough),
		SysRun: func(t *T, i int) {
			switch {
			case i < nb:
				checkAccept(t, sysBad.at(i))
			case i < nb+nv:
				checkAccept(t, sysPdus.at(i-nb))
			case i < nb+nv+n16:
				checkAccept(t, sys16.at(i-nb-nv))
			default:
				hugeMu.Lock()
				defer hugeMu.Unlock()
				i -= nb + nv + n16
				i = overThorough[i]
				p := overPdu(i)
				sz := refSize(p)
				t.Sample(func() string { return fmt.Sprintf("tag=%d with %d payload bytes", p.Tag, sz) })
				checkAcceptHuge(t, p, sz)
			}
		},
		Run: func(t *T) {
			g := gen(t)
			p := g.pdu
			if g.Bool() {
				p = g.wildPdu
			}
			g.pduTwice(p(), func(p agentx.Pdu) { checkAccept(t, p) })
		}})
	register(&Prop{ID: "C04", Rule: "Headers: enumerated are every type byte with every flag byte, every version, every reserved byte, every value of every other byte, lengths 0 to 79, and 32-bit boundary values for all four numbers and types; generated headers have up to three damages. Non-trivial: 20 bytes long.",
		Quick: 12000000, Thorough: 150000000, Sys: nSysHeader, SysRun: func(t *T, i int) { checkHeader(t, sysHeader(i)) },
		Run: func(t *T) { g := gen(t); g.bytesTwice(genHeader(g), func(b []byte) { checkHeader(t, b) }) }})
	hdrOf := func(p agentx.Pdu, b []byte) agentx.Pdu {
		return agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: p.SessionId, TransactionId: p.TransactionId, PacketId: p.PacketId, PayloadSize: int32(len(b))}
	}
	c05 := runs{
		{nSysPl, func(t *T, i int) {
			h, b, w := sysPayload(i)
			checkPayload(t, h, b, w)
		}},
		{nv, func(t *T, i int) {
			p := sysPdus.at(i)
			e := refEncoder{}
			b := e.payload(p)
			checkPayload(t, hdrOf(p, b), b, "")
		}},
		{2 * nOidCarriers * len(edgeOids), func(t *T, i int) {
			p, b := sysForeign(i)
			checkPayload(t, agentx.Pdu{Tag: p.Tag, Flags: p.Flags, PayloadSize: p.PayloadSize}, b, "")
		}},
		{nh, func(t *T, i int) {
			hugeMu.Lock()
			defer hugeMu.Unlock()
			p := sysHuge.at(i)
			e := refEncoder{}
			b := e.payload(p)
			checkPayload(t, hdrOf(p, b), b, "")
			t.Sample(func() string { return fmt.Sprintf("tag=%d with %d payload bytes", p.Tag, len(b)) })
		}},
		{len(zeroPairs) * 256 * 5, func(t *T, i int) {
			h, b, w := sysZero(i, false)
			checkPayload(t, h, b, w)
		}},
	}
	const plRule = "Payloads: reference encodings of generated PDUs in any form the format allows, three quarters of them damaged one to three times (truncated, extended, words dropped or repeated, bytes and bits set, length/type/count/reserved/padding fields set, items appended, payloads under another type or byte order), and word soup; enumerated: for 300 representative payloads every byte set to 10 values, every truncation, extensions, every word dropped or repeated, and pairs of reserved or padding bytes set to correlated values. "
	register(&Prop{ID: "C05", Rule: plRule + "Non-trivial: the payload is not empty. Oracle: an independent RFC 2741 decoder.",
		Quick: 2400000, Thorough: 30000000, Sys: c05.total(), SysThorough: c05.total() + len(zeroPairs)<<16,
		SysRun: func(t *T, i int) {
			if n := c05.total(); i >= n {
				h, b, w := sysZero(i-n, true)
				checkPayload(t, h, b, w)
				return
			}
			c05.do(t, i)
		},
		Run: func(t *T) {
			g := gen(t)
			if g.Chance(1, 6) {
				h := g.header(agentx.PduTag(g.Int(1, 18)))
				b := g.words()
				h.PayloadSize = int32(len(b))
				g.bytesTwice(g.spare(b), func(b []byte) { checkPayload(t, h, b, "word soup") })
				return
			}
			h, b, w := g.payload()
			g.bytesTwice(b, func(b []byte) { checkPayload(t, h, b, w) })
		}})
	register(&Prop{ID: "C06", Rule: plRule + "Here also with unknown types, flags not allowed, wrong announced sizes, stale payload fields and random bytes; enumerated: long uniform payloads, 8 MB of the smallest items under a stack limit of 32 MB, and single length fields announcing up to 2 GB. The allocation of header plus payload decoding is measured (limit 256 KB + 256 bytes per input byte). Non-trivial: at least 4 payload bytes.",
		Quick: 240000, Thorough: 3000000, Workers: 1, Sys: nSysHostile + nBigHostile,
		SysRun: func(t *T, i int) {
			debug.SetMaxStack(32 << 20)
			if i >= nSysHostile {
				h, b := bigHostile(i - nSysHostile)
				checkHostile(t, nil, h, b, false, true)
				return
			}
			h, b := sysHostile(i)
			checkHostile(t, b, h, b, len(b) <= 1<<12, true)
		},
		Run: func(t *T) {
			g := gen(t)
			h, b := genHostile(g)
			hb := genHeader(g)
			checkHostile(t, hb, h, b, g.Chance(1, 4), true)
		}, Assume: []string{"memory is measured as runtime.MemStats.TotalAlloc of the decoding process, with one worker"}})
	register(&Prop{ID: "C07", Rule: pduRule + "Half of the generated PDUs have one to three things wrong. Loggers: discarding, formatting, recording, and one that makes codec calls itself. Non-trivial: refused, or a payload longer than 8 bytes.",
		Quick: 1440000, Thorough: 12000000, Sys: nBigDbg + nv + nb/4, SysThorough: nBigDbg + nv + nb, SysRun: func(t *T, i int) {
			if i < nBigDbg {
				p := bigDbg(i)
				checkDbgEncode(t, p, discard{})
				t.Sample(func() string { return fmt.Sprintf("tag=%d with %d payload bytes", p.Tag, refSize(p)) })
				return
			}
			if i -= nBigDbg; i < nv {
				checkDbgEncode(t, sysPdus.at(i), discard{})
			} else if i -= nv; nb/4 > 0 {
				checkDbgEncode(t, sysBad.at(stride(i, 4, nb)), discard{})
			}
		},
		Run: func(t *T) {
			g := gen(t)
			log := pickLog(g.Int(0, 3))
			p := g.pdu
			if g.Bool() {
				p = g.wildPdu
			}
			g.pduTwice(p(), func(p agentx.Pdu) { checkDbgEncode(t, p, log) })
		}})
	nzd := len(zeroPairs) * 256
	register(&Prop{ID: "C08", Rule: plRule + "Headers as in C04; header values also with unknown types and flags not allowed. Non-trivial: the payload is not empty.",
		Quick: 2880000, Thorough: 24000000, Sys: nBigDbg + nv + nSysPl + nzd + nSysHeader/4, SysThorough: nBigDbg + nv + nSysPl + nzd + nSysHeader,
		SysRun: func(t *T, i int) {
			if i < nBigDbg+nv {
				var p agentx.Pdu
				if i < nBigDbg {
					p = bigDbg(i)
				} else {
					p = sysPdus.at(i - nBigDbg)
				}
				e := refEncoder{}
				b := e.payload(p)
				checkDbgPayload(t, agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: p.SessionId, TransactionId: p.TransactionId, PacketId: p.PacketId, PayloadSize: int32(len(b))}, b, discard{})
				if i < nBigDbg {
					t.Sample(func() string { return fmt.Sprintf("tag=%d with %d payload bytes", p.Tag, len(b)) })
				}
				return
			}
			if i -= nBigDbg + nv; i < nSysPl {
				h, b, _ := sysPayload(i)
				checkDbgPayload(t, h, b, discard{})
			} else if i -= nSysPl; i < nzd {
				h, b, _ := sysZero(stride(i, 5, len(zeroPairs)*256*5), false)
				checkDbgPayload(t, h, b, discard{})
			} else {
				i -= nzd
				checkDbgHeader(t, sysHeader(stride(i, 4, nSysHeader)), discard{})
			}
		},
		Run: func(t *T) {
			g := gen(t)
			log := pickLog(g.Int(0, 3))
			if g.Chance(1, 4) {
				g.bytesTwice(genHeader(g), func(b []byte) { checkDbgHeader(t, b, log) })
				return
			}
			h, b := genHostile(g)
			g.bytesTwice(b, func(b []byte) { checkDbgPayload(t, h, b, log) })
		}})
	register(&Prop{ID: "C10", Rule: pduRule + "Streams of 1 to 8 PDUs in mixed types and byte orders, and PDUs of up to 16 MB between small ones. Non-trivial: at least 2 frames.",
		Quick: 200000, Thorough: 10000000, Sys: nv/4 + nh, SysRun: func(t *T, i int) {
			if i >= nv/4 {
				hugeMu.Lock()
				defer hugeMu.Unlock()
				p := sysHuge.at(i - nv/4)
				checkStream(t, []agentx.Pdu{simplePdu(18, 0), p, simplePdu(3, 16)})
				t.Sample(func() string { return fmt.Sprintf("a PDU with %d payload bytes between two small ones", refSize(p)) })
				return
			}
			checkStream(t, []agentx.Pdu{sysPdus.at(i), sysPdus.at(i + nv/4), sysPdus.at(i + nv/2), sysPdus.at(i + nv/4*3)})
		},
		Run: func(t *T) {
			g := gen(t)
			var ps []agentx.Pdu
			for n := g.Int(0, 7); n >= 0; n-- {
				ps = append(ps, g.pdu())
			}
			checkStream(t, ps)
		}})
	nf := 2*nOidCarriers*len(edgeOids) + nSysPl
	register(&Prop{ID: "C11", Rule: "Packets as another implementation may send them: reference encodings with OIDs in either form, include marks and prefixes set, some damaged as in C05; enumerated: every edge OID in long form in every place, the enumerated payloads of C05 and the enumerated PDUs of C01. Non-trivial: accepted, with more than 8 payload bytes.",
		Quick: 1600000, Thorough: 40000000, Sys: nf + nv + nh, SysRun: func(t *T, i int) {
			if i < nf {
				h, b := sysForeign(i)
				checkReencode(t, h, b)
				return
			}
			var p agentx.Pdu
			if i -= nf; i < nv {
				p = sysPdus.at(i)
			} else {
				hugeMu.Lock()
				defer hugeMu.Unlock()
				p = sysHuge.at(i - nv)
			}
			e := refEncoder{alt: true, pick: func() bool { return i%2 == 0 }}
			b := e.payload(p)
			checkReencode(t, agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: p.SessionId, TransactionId: p.TransactionId, PacketId: p.PacketId, PayloadSize: int32(len(b))}, b)
			if i >= nv {
				t.Sample(func() string { return fmt.Sprintf("tag=%d with %d payload bytes", p.Tag, len(b)) })
			}
		},
		Run: func(t *T) {
			g := gen(t)
			h, b := genForeign(g)
			g.bytesTwice(b, func(b []byte) { checkReencode(t, h, b) })
		}})
}

func checkAcceptHuge(t *T, p agentx.Pdu, sz int64) {
	t.NonTrivial()
	t.KeyString(fmt.Sprint(p.Tag, p.Flags, sz))
	_, ok := agentx.EncodePdu(p)
	if sz > math.MaxInt32 {
		t.Label("payload too large")
		if ok {
			t.Failf("a PDU with %d payload bytes, more than the length field carries, is encoded", sz)
		}
	} else if !ok {
		t.Failf("a PDU with %d payload bytes is refused", sz)
	}
	runtime.GC()
}
