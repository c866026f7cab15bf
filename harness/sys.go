package main

import (
	"math"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

// Systematically enumerated PDUs: segments of small finite domains that are
// covered completely (every flag set, every byte or 16-bit field value, every
// length of OIDs, every string length up to a bound, list lengths around the
// powers of two).

type seg struct {
	n int
	f func(i int) agentx.Pdu
}

type segs []seg

func (s segs) total() (n int) {
	for _, x := range s {
		n += x.n
	}
	return
}

func (s segs) at(i int) agentx.Pdu {
	for _, x := range s {
		if i < x.n {
			return x.f(i)
		}
		i -= x.n
	}
	panic("segs: out of range")
}

var words32 = func() (w []uint32) {
	for k := 0; k < 32; k++ {
		w = append(w, 1<<k, 1<<k-1, 1<<k+1, ^uint32(1<<k))
	}
	return append(w, 0, math.MaxUint32, 0x01020304, 0xfffefdfc, 0x80000000, 0x7fffffff, 0x00ff00ff, 0xff00ff00)
}()

var words64 = func() (w []uint64) {
	for k := 0; k < 64; k++ {
		w = append(w, 1<<k, 1<<k-1, 1<<k+1, ^uint64(1<<k))
	}
	return append(w, 0, math.MaxUint64, 0x0102030405060708, 0xf8f7f6f5f4f3f2f1)
}()

func nbo(i int) agentx.Flags {
	if i&1 == 1 {
		return flNbo
	}
	return 0
}

func simpleParams(tag agentx.PduTag) agentx.PayloadParams {
	o := []uint32{1, 3, 6, 1, 4, 1, 42}
	switch tag {
	case 1:
		return agentx.OpenParams{Timeout: 1, Oid: o, Description: "descr"}
	case 2:
		return agentx.CloseParams{Reason: 5}
	case 3:
		return agentx.RegisterParams{Timeout: 3, Priority: 127, RangeSubid: 4, Subtree: o, UpperBound: 77}
	case 4:
		return agentx.UnregisterParams{Priority: 127, RangeSubid: 4, Subtree: o, UpperBound: 77}
	case 7:
		return agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 2}
	case 16:
		return agentx.AddAgentCapsParams{Oid: o, Description: "caps"}
	case 17:
		return agentx.RemoveAgentCapsParams{Oid: o}
	case 18:
		return agentx.ResponseParams{SysUpTime: 0x01020304, Error: 0x0105, Index: 3}
	}
	return agentx.NoParams{}
}

func simplePdu(tag agentx.PduTag, fl agentx.Flags) agentx.Pdu {
	p := agentx.Pdu{Tag: tag, Flags: fl, SessionId: 0x11223344, TransactionId: 0x55667788, PacketId: 0x99aabbcc, Params: simpleParams(tag)}
	if fl&flCtx != 0 {
		p.Context = "ctx"
	}
	if hasRanges(tag) {
		p.Ranges = []agentx.SearchRange{
			{StartOid: []uint32{1, 3, 6, 1, 2, 1, 1}, EndOid: []uint32{1, 3, 6, 1, 2, 1, 2}, StartIncluded: 1},
			{StartOid: []uint32{2, 0x01020304}, EndOid: nil},
		}
	}
	if hasVarbinds(tag) {
		p.Varbinds = []asn.Varbind{
			{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 1, 0}, Tag: asn.TagOctetString, Value: "value"},
			{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 2, 0}, Tag: asn.TagObjectId, Value: []uint32{1, 3, 6, 1, 4, 1, 9}},
			{Oid: []uint32{1, 2}, Tag: asn.TagCounter64, Value: uint64(0x0102030405060708)},
			{Oid: nil, Tag: asn.TagNull},
		}
	}
	return p
}

func iotaString(n int) string {
	var b strings.Builder
	b.Grow(n)
	for i := 0; i < n; i++ {
		b.WriteByte(byte('A' + i%50))
	}
	return b.String()
}

// carriers puts an OID into each place of a PDU that carries one.
func oidCarrier(k int, o []uint32, fl agentx.Flags) agentx.Pdu {
	switch k {
	case 0:
		return agentx.Pdu{Tag: 1, Flags: fl, Params: agentx.OpenParams{Oid: o, Description: "d"}}
	case 1:
		return agentx.Pdu{Tag: 3, Flags: fl, Params: agentx.RegisterParams{Subtree: o, RangeSubid: 1, UpperBound: 9}}
	case 2:
		return agentx.Pdu{Tag: 4, Flags: fl, Params: agentx.UnregisterParams{Subtree: o}}
	case 3:
		return agentx.Pdu{Tag: 5, Flags: fl, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o, StartIncluded: 1, EndOid: []uint32{2}}}}
	case 4:
		return agentx.Pdu{Tag: 6, Flags: fl, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1}, StartIncluded: 1, EndOid: o}}}
	case 5:
		return agentx.Pdu{Tag: 8, Flags: fl, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: o, Tag: asn.TagInteger32, Value: int32(1)}}}
	case 6:
		return agentx.Pdu{Tag: 18, Flags: fl, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagObjectId, Value: o}, {Oid: []uint32{2}, Tag: asn.TagNull}}}
	case 7:
		return agentx.Pdu{Tag: 16, Flags: fl, Params: agentx.AddAgentCapsParams{Oid: o}}
	default:
		return agentx.Pdu{Tag: 17, Flags: fl, Params: agentx.RemoveAgentCapsParams{Oid: o}}
	}
}

const nOidCarriers = 9

func strCarrier(k int, s string, fl agentx.Flags) agentx.Pdu {
	switch k {
	case 0:
		return agentx.Pdu{Tag: 13, Flags: fl | flCtx, Context: s, Params: agentx.NoParams{}}
	case 1:
		return agentx.Pdu{Tag: 1, Flags: fl, Params: agentx.OpenParams{Oid: []uint32{1}, Description: s}}
	case 2:
		return agentx.Pdu{Tag: 16, Flags: fl | flCtx, Context: "c", Params: agentx.AddAgentCapsParams{Description: s}}
	case 3:
		return agentx.Pdu{Tag: 12, Flags: fl, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 2}, Tag: asn.TagOctetString, Value: s}, {Oid: []uint32{3}, Tag: asn.TagNull}}}
	default:
		return agentx.Pdu{Tag: 18, Flags: fl, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 2}, Tag: asn.TagOpaque, Value: []byte(s)}, {Oid: []uint32{3}, Tag: asn.TagNull}}}
	}
}

const nStrCarriers = 5

func seqOid(n int) []uint32 {
	o := make([]uint32, n)
	for i := range o {
		o[i] = uint32(i)*0x01010101 + 7
	}
	return o
}

func inetOid(x uint32, n int) []uint32 {
	return append([]uint32{1, 3, 6, 1, x}, seqOid(n)...)
}

var listSizes = []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8193, 32769, 65535, 65536, 65537}
var bigStrings = []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 9999, 10000, 16383, 16384, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65540, 131071, 131072, 131075, 262144, 1 << 20, 1<<20 + 1}

const maxStr = 320

// bigOids are OIDs near the edges of the short form.
var edgeOids = func() (l [][]uint32) {
	for x := uint32(0); x <= 520; x++ {
		l = append(l, []uint32{1, 3, 6, 1, x}, []uint32{1, 3, 6, 1, x, 5})
	}
	for _, w := range words32 {
		l = append(l, []uint32{1, 3, 6, 1, w, 9}, []uint32{w, 3, 6, 1, 4, 1}, []uint32{1, w, 6, 1, 4, 1}, []uint32{1, 3, w, 1, 4, 1}, []uint32{1, 3, 6, w, 4, 1}, []uint32{w})
	}
	for x := uint32(0); x < 16; x++ {
		l = append(l, []uint32{x, 3, 6, 1, 4, 1}, []uint32{1, x, 6, 1, 4, 1}, []uint32{1, 3, x, 1, 4, 1}, []uint32{1, 3, 6, x, 4, 1})
	}
	for n := 0; n <= 128; n++ {
		l = append(l, seqOid(n), inetOid(uint32(n%255)+1, n))
	}
	for n := 0; n <= 5; n++ {
		l = append(l, []uint32{1, 3, 6, 1, 4}[:n:n])
	}
	l = append(l, inetOid(0, 123), inetOid(256, 123), nil, []uint32{})
	return
}()

// longOids cannot be encoded.
var longOids = func() (l [][]uint32) {
	for _, n := range []int{129, 130, 133, 134, 200, 255, 256, 257, 258, 261, 300, 384, 385, 512, 513, 1000} {
		l = append(l, seqOid(n), inetOid(7, n))
	}
	return append(l, inetOid(0, 124), inetOid(256, 124), inetOid(0, 128), inetOid(300, 128))
}()

// sysPdus are valid PDUs.
var sysPdus = segs{
	{18 * 32, func(i int) agentx.Pdu { // every type with every allowed flag set
		tag := agentx.PduTag(i/32 + 1)
		return simplePdu(tag, agentx.Flags(i%32)&allowedFlags(tag))
	}},
	{18 * 32, func(i int) agentx.Pdu { // the same, nothing in the lists
		tag := agentx.PduTag(i/32 + 1)
		p := simplePdu(tag, agentx.Flags(i%32)&allowedFlags(tag))
		p.Ranges, p.Varbinds, p.Context = nil, nil, ""
		return p
	}},
	{18 * 2 * 3 * len(words32), func(i int) agentx.Pdu { // header fields
		w := words32[i%len(words32)]
		i /= len(words32)
		p := simplePdu(agentx.PduTag(i/6+1), nbo(i))
		switch i % 6 / 2 {
		case 0:
			p.SessionId = w
		case 1:
			p.TransactionId = w
		default:
			p.PacketId = w
		}
		return p
	}},
	{2 * nOidCarriers * len(edgeOids), func(i int) agentx.Pdu {
		fl := nbo(i)
		i /= 2
		return oidCarrier(i%nOidCarriers, edgeOids[i/nOidCarriers], fl)
	}},
	{2 * nStrCarriers * (maxStr + 1), func(i int) agentx.Pdu {
		fl := nbo(i)
		i /= 2
		return strCarrier(i%nStrCarriers, iotaString(i/nStrCarriers), fl)
	}},
	{2 * nStrCarriers * len(bigStrings), func(i int) agentx.Pdu {
		fl := nbo(i)
		i /= 2
		return strCarrier(i%nStrCarriers, iotaString(bigStrings[i/nStrCarriers]), fl)
	}},
	{nStrCarriers * 256 * 6, func(i int) agentx.Pdu { // every byte in first, second and last position
		c, k := byte(i/nStrCarriers), i/nStrCarriers/256
		s := []string{string([]byte{c}), string([]byte{c, 'x', 'y'}), string([]byte{'x', c, 'y', 'z'}), string([]byte{'x', 'y', c}), string([]byte{c, c, c, c, c}), iotaString(30) + string([]byte{c})}[k]
		return strCarrier(i%nStrCarriers, s, nbo(i))
	}},
	{2 * 5 * len(words32), func(i int) agentx.Pdu { // 32-bit values
		w := words32[i/10]
		vb := asn.Varbind{Oid: []uint32{1, 2}, Value: w}
		switch i % 5 {
		case 0:
			vb.Tag, vb.Value = asn.TagInteger32, int32(w)
		case 1:
			vb.Tag = asn.TagCounter32
		case 2:
			vb.Tag = asn.TagGauge32
		case 3:
			vb.Tag = asn.TagTimeTicks
		case 4:
			vb.Tag, vb.Value = asn.TagIpAddress, [4]byte{byte(w >> 24), byte(w >> 16), byte(w >> 8), byte(w)}
		}
		return agentx.Pdu{Tag: 18, Flags: nbo(i / 5), Params: agentx.ResponseParams{SysUpTime: w}, Varbinds: []asn.Varbind{vb, {Oid: []uint32{5}, Tag: asn.TagNoSuchObject}}}
	}},
	{2 * len(words64), func(i int) agentx.Pdu {
		return agentx.Pdu{Tag: 12, Flags: nbo(i), Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagCounter64, Value: words64[i/2]}}}
	}},
	{2 * 256, func(i int) agentx.Pdu { // byte fields
		return agentx.Pdu{Tag: 2, Flags: nbo(i), Params: agentx.CloseParams{Reason: agentx.CloseReason(i / 2)}}
	}},
	{2 * 3 * 256, func(i int) agentx.Pdu {
		q := agentx.RegisterParams{Timeout: 7, Priority: 8, RangeSubid: 9, Subtree: []uint32{1, 3, 6, 1, 2, 1, 5}, UpperBound: 0x01020304}
		*[]*byte{&q.Timeout, &q.Priority, &q.RangeSubid}[i/2%3] = byte(i / 6)
		return agentx.Pdu{Tag: 3, Flags: nbo(i), Params: q}
	}},
	{2 * 2 * 256, func(i int) agentx.Pdu {
		q := agentx.UnregisterParams{Priority: 8, RangeSubid: 9, Subtree: []uint32{1, 3, 6, 1, 2, 1, 5}, UpperBound: 0x01020304}
		*[]*byte{&q.Priority, &q.RangeSubid}[i/2%2] = byte(i / 4)
		return agentx.Pdu{Tag: 4, Flags: nbo(i), Params: q}
	}},
	{2 * 2 * len(words32), func(i int) agentx.Pdu { // upper bounds
		w := words32[i/4]
		if i&2 == 0 {
			return agentx.Pdu{Tag: 3, Flags: nbo(i), Params: agentx.RegisterParams{RangeSubid: 1, UpperBound: w, Subtree: []uint32{1}}}
		}
		return agentx.Pdu{Tag: 4, Flags: nbo(i), Params: agentx.UnregisterParams{RangeSubid: 1, UpperBound: w, Subtree: []uint32{1}}}
	}},
	{2 * 256, func(i int) agentx.Pdu {
		return agentx.Pdu{Tag: 1, Flags: nbo(i), Params: agentx.OpenParams{Timeout: byte(i / 2)}}
	}},
	{2 * 2 * len(listSizes), func(i int) agentx.Pdu { // list lengths
		n := listSizes[i/4]
		p := agentx.Pdu{Flags: nbo(i)}
		if i&2 == 0 {
			p.Tag, p.Params = 5, agentx.NoParams{}
			for k := 0; k < n; k++ {
				p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{uint32(k)}, StartIncluded: byte(k & 1)})
			}
			return p
		}
		p.Tag, p.Params = 18, agentx.ResponseParams{Index: int16(n)}
		for k := 0; k < n; k++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{uint32(k)}, Tag: valueTags[k%len(valueTags)], Value: sysValue(valueTags[k%len(valueTags)], k)})
		}
		return p
	}},
	{2 * 13 * 13, func(i int) agentx.Pdu { // every pair of neighbouring value types
		a, b := valueTags[i/2%13], valueTags[i/2/13]
		return agentx.Pdu{Tag: 14, Flags: nbo(i), Params: agentx.NoParams{}, Varbinds: []asn.Varbind{
			{Oid: []uint32{1, 3, 6, 1, 2, 1, 7}, Tag: a, Value: sysValue(a, i)}, {Oid: []uint32{1, 7}, Tag: b, Value: sysValue(b, i+1)}}}
	}},
}

func sysValue(tag asn.Tag, k int) interface{} {
	switch tag {
	case asn.TagInteger32:
		return int32(-k)
	case asn.TagOctetString:
		return iotaString(k % 7)
	case asn.TagObjectId:
		return inetOid(uint32(k%255)+1, k%3)
	case asn.TagIpAddress:
		return [4]byte{1, 2, byte(k), 255}
	case asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		return uint32(k) * 0x01000193
	case asn.TagOpaque:
		return []byte(iotaString(k % 6))
	case asn.TagCounter64:
		return uint64(k) * 0x9e3779b97f4a7c15
	}
	return nil
}

// sys16 covers every value of the 16-bit fields.
var sys16 = segs{
	{2 * 2 * 65536, func(i int) agentx.Pdu {
		q := agentx.ResponseParams{SysUpTime: 5, Error: 3, Index: 4}
		if i&2 == 0 {
			q.Error = pduerror.Error(i / 4)
		} else {
			q.Index = int16(i / 4)
		}
		return agentx.Pdu{Tag: 18, Flags: nbo(i), Params: q}
	}},
	{2 * 2 * 32768, func(i int) agentx.Pdu {
		q := agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 2}
		if i&2 == 0 {
			q.NonRepeaters = int16(i / 4)
		} else {
			q.MaxRepeatitions = int16(i / 4)
		}
		return agentx.Pdu{Tag: 7, Flags: nbo(i), Params: q}
	}},
}

// sysHuge are valid PDUs with very long strings and lists.
var sysHuge = segs{
	{2 * nStrCarriers * 6, func(i int) agentx.Pdu {
		n := []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1}[i/2/nStrCarriers]
		return strCarrier(i/2%nStrCarriers, iotaString(n), nbo(i))
	}},
	{2 * 2 * 6, func(i int) agentx.Pdu {
		n := []int{32767, 32768, 65535, 65536, 65537, 131073}[i/4]
		p := agentx.Pdu{Flags: nbo(i)}
		if i&2 == 0 {
			p.Tag, p.Params = 5, agentx.NoParams{}
			for k := 0; k < n; k++ {
				p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{uint32(k)}, StartIncluded: byte(k & 1)})
			}
			return p
		}
		p.Tag, p.Params = 18, agentx.ResponseParams{}
		for k := 0; k < n; k++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{uint32(k)}, Tag: asn.TagNull})
		}
		return p
	}},
}

// sysBad are PDUs around the limits of what can be encoded (some can be).
var allValues = append([]interface{}{nil, int32(1), uint32(1), uint64(1), int64(1), int(1), uint(1), byte(1), int16(1), uint16(1), "s", []byte{1}, []byte(nil), []uint32{1}, []uint32(nil),
	[4]byte{1}, [16]byte{}, true, 1.5, struct{}{}, (*int32)(nil), namedString("x"), namedU32(1), []int32{1}, []string{"a"}}, oddValues...)

var allParams = func() (l []agentx.PayloadParams) {
	for tag := agentx.PduTag(1); tag <= 18; tag++ {
		l = append(l, simpleParams(tag))
	}
	return append(l, nil, &agentx.NoParams{}, (*agentx.NoParams)(nil), &agentx.OpenParams{}, (*agentx.OpenParams)(nil), &agentx.CloseParams{}, &agentx.RegisterParams{},
		&agentx.UnregisterParams{}, &agentx.GetBulkParams{}, &agentx.AddAgentCapsParams{}, &agentx.RemoveAgentCapsParams{}, &agentx.ResponseParams{}, embeddedParams{})
}()

var sysBad = segs{
	{256 * 256, func(i int) agentx.Pdu { // every type byte with every flag byte
		return simplePdu(agentx.PduTag(i/256), agentx.Flags(i%256))
	}},
	{19 * len(allParams) * 2, func(i int) agentx.Pdu { // every type with all kinds of parameters
		p := simplePdu(agentx.PduTag(i/2%19), nbo(i))
		p.Params = allParams[i/2/19]
		return p
	}},
	{5 * 256 * len(allValues), func(i int) agentx.Pdu { // every value type byte with all kinds of Go values
		v := allValues[i%len(allValues)]
		i /= len(allValues)
		tag := []agentx.PduTag{8, 12, 14, 15, 18}[i%5]
		vbs := []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2, 9}, Tag: asn.Tag(i / 5), Value: v}}
		if i&1 == 1 {
			vbs = append([]asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagInteger32, Value: int32(4)}}, vbs...)
		}
		return agentx.Pdu{Tag: tag, Flags: nbo(i), Params: simpleParams(tag), Varbinds: vbs}
	}},
	{2 * nOidCarriers * len(longOids), func(i int) agentx.Pdu {
		return oidCarrier(i/2%nOidCarriers, longOids[i/2/nOidCarriers], nbo(i))
	}},
	{2 * 2 * 32768, func(i int) agentx.Pdu { // negative counts
		q := agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 2}
		if i&2 == 0 {
			q.NonRepeaters = int16(i/4 - 32768)
		} else {
			q.MaxRepeatitions = int16(i/4 - 32768)
		}
		return agentx.Pdu{Tag: 7, Flags: nbo(i), Params: q, Ranges: []agentx.SearchRange{{StartOid: []uint32{1}}}}
	}},
	{18 * 2, func(i int) agentx.Pdu { // uncarried fields full of rubbish
		tag := agentx.PduTag(i/2 + 1)
		p := simplePdu(tag, nbo(i))
		p.Context, p.PayloadSize = iotaString(99), -5
		if !hasRanges(tag) {
			p.Ranges = []agentx.SearchRange{{StartOid: seqOid(300), EndOid: seqOid(129), StartIncluded: 99}}
		}
		if !hasVarbinds(tag) {
			p.Varbinds = []asn.Varbind{{Tag: 99, Value: 1.5}, {Tag: asn.TagInteger32, Value: "x"}, {Oid: seqOid(200), Tag: asn.TagSequence}}
		}
		return p
	}},
}

// stride visits 0..n-1 in steps of k: the first n/k values are spread over
// the whole, the first n are all of it (if k divides n or not).
func stride(i, k, n int) int { return (i*k + i*k/n) % n }

// runs are enumerations run one after the other.
type runs []struct {
	n   int
	run func(t *T, i int)
}

func (l runs) total() (n int) {
	for _, s := range l {
		n += s.n
	}
	return
}

func (l runs) do(t *T, i int) {
	for _, s := range l {
		if i < s.n {
			s.run(t, i)
			return
		}
		i -= s.n
	}
	panic("harness: enumeration index out of range")
}
