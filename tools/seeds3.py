# Planted bugs, written from the property texts and the code. See seedlib.py.
IMPS = {
 "agentx": "github.com/alexispb/mygosnmp/agentx", "asn": "github.com/alexispb/mygosnmp/asn",
 "oid": "github.com/alexispb/mygosnmp/oid", "hex": "github.com/alexispb/mygosnmp/hex",
 "ipa": "github.com/alexispb/mygosnmp/ipa", "pduerror": "github.com/alexispb/mygosnmp/pduerror",
 "logger": "github.com/alexispb/mygosnmp/logger", "strings": "strings", "reflect": "reflect", "sync": "sync",
 "bytes": "bytes", "internal": "github.com/alexispb/mygosnmp/internal", "runtime": "runtime", "time": "time", "fmt": "fmt", "atomic": "sync/atomic",
}
def P(imps, body, top=""):
    i = sorted(set(imps.split()) | {"fmt"})
    return ("package main\n\nimport (\n\t\"os\"\n" + "".join('\t"%s"\n' % IMPS[x] for x in i) + ")\n\n"
      "func check(ok bool, msg string, args ...interface{}) {\n\tif !ok {\n\t\tfmt.Printf(\"WRONG: \"+msg+\"\\n\", args...)\n\t\tos.Exit(1)\n\t}\n}\n" + top +
      "\nfunc main() {\n" + body + "\n\tfmt.Println(\"ok\")\n}\n")
# decode of a whole packet
DEC = '''
func decode(b []byte) (agentx.Pdu, bool) {
	p, ok := agentx.DecodePduHeader(b[:20])
	if !ok {
		return p, false
	}
	ok = agentx.DecodePduPayload(&p, b[20:])
	return p, ok
}
func must(p agentx.Pdu) []byte {
	b, ok := agentx.EncodePdu(p)
	if !ok {
		fmt.Println("encode failed")
		os.Exit(1)
	}
	return b
}
'''
NOLOG = '''
type rec struct{ msgs []string }

func (r *rec) Write(m string)                           { r.msgs = append(r.msgs, m) }
func (r *rec) Writef(f string, a ...interface{})        { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
VB = lambda tag, val, oid="1,3,6,1,2,1": 'agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{%s}, Tag: asn.%s, Value: %s}}}' % (oid, tag, val)
BUGS = []
def B(id, prop, edits, main, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, breaks=breaks, **k))

E, D, PP, PD, V = "agentx/encoding.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/pdu.go", "agentx/varbind.go"



SR, PT, FL, HX, ND, TR, OI, AV, ST, NM = "agentx/search_range.go", "agentx/pdu_tag.go", "agentx/flags.go", "hex/dump.go", "oid/node.go", "oid/tree.go", "oid/oid.go", "asn/value.go", "internal/struct.go", "oid/name.go"
LG = "agentx/encoding_dbg.go"
DECVB = "			vb, data = d.parseVarbind(data)\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n"
# ---- C01
B("c01-dup-varbind", "C01", [(PD, DECVB, "			vb, data = d.parseVarbind(data)\n			if n := len(pdu.Varbinds); n > 0 && vb.Tag == asn.TagNull && pdu.Varbinds[n-1].Tag == vb.Tag &&\n				oid.Eq(pdu.Varbinds[n-1].Oid, vb.Oid) {\n				continue\n			}\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n"),
   (PD, '	"github.com/alexispb/mygosnmp/logger"\n', '	"github.com/alexispb/mygosnmp/logger"\n	"github.com/alexispb/mygosnmp/oid"\n')],
  P("agentx asn", """	vb := asn.Varbind{Oid: []uint32{1, 2}, Tag: asn.TagNull}
	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb, vb}}))
	check(ok && len(p.Varbinds) == 2, "%v", p.Varbinds)""", DEC),
  "two equal Null varbinds in a row", "the second one is dropped")
B("c01-many-ranges", "C01", [(PD, "			r, data = d.parseSearchRange(data)\n			pdu.Ranges = append(pdu.Ranges, r)\n", "			r, data = d.parseSearchRange(data)\n			if len(pdu.Ranges) == 256 {\n				pdu.Ranges = append(make([]SearchRange, 0, 1024), pdu.Ranges[1:]...)\n			}\n			pdu.Ranges = append(pdu.Ranges, r)\n")],
  P("agentx", """	rs := make([]agentx.SearchRange, 300)
	for i := range rs {
		rs[i].StartOid = []uint32{uint32(i) + 1}
	}
	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: rs}))
	check(ok && len(p.Ranges) == 300, "%v", len(p.Ranges))""", DEC),
  "more than 256 search ranges", "a range gets lost when the list is moved")
B("c01-u64-sign", "C01", [(E, "	return uint64(data[0]) | uint64(data[1])<<8 | uint64(data[2])<<16 | uint64(data[3])<<24 |\n		uint64(data[4])<<32 | uint64(data[5])<<40 | uint64(data[6])<<48 | uint64(data[7])<<56, data[8:]", "	lo, next := inverseByteOrder{}.parseInt32(data)\n	hi, next := inverseByteOrder{}.parseUint32(next)\n	return uint64(lo) + uint64(hi)<<32, next")],
  P("agentx asn", "	p, ok := decode(must(" + VB("TagCounter64", "uint64(0x80000000)") + """))
	check(ok && p.Varbinds[0].Value == uint64(0x80000000), "%v", p.Varbinds)""", DEC),
  "a Counter64 in little-endian order with bit 31 set", "the low half is sign-extended")
# ---- C02
B("c02-prefix-255", "C02", [(E, "val[3] == 1 && 1 <= val[4] && val[4] <= 255 {", "val[3] == 1 && 1 <= val[4] && val[4] < 255 {"), (E, "id[3] == 1 && 1 <= id[4] && id[4] <= 255 {", "id[3] == 1 && 1 <= id[4] && id[4] < 255 {"), (D, "val[3] == 1 && 1 <= val[4] && val[4] <= 255 {", "val[3] == 1 && 1 <= val[4] && val[4] < 255 {")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 255}}})
	check(len(b) == 24 && b[20] == 0 && b[21] == 255, "% x", b)""", DEC),
  "an OID that starts with 1.3.6.1.255", "it is sent in the long form")
B("c02-open-order", "C02", [(PP, "	data = append(data, p.Timeout, 0, 0, 0)\n	data = e.appendObjectId(data, p.Oid, 0)\n	return e.appendOctetString(data, p.Description)", "	data = append(data, p.Timeout, 0, 0, 0)\n	include := byte(0)\n	if len(p.Oid) > 0 && p.Description == \"\" {\n		include = 1 // the whole subtree\n	}\n	data = e.appendObjectId(data, p.Oid, include)\n	return e.appendOctetString(data, p.Description)"),
   (PP, "	data = append(data, p.Timeout, 0, 0, 0)\n	e.log.Write(\"appending Oid\")\n	data = e.appendObjectId(data, p.Oid, 0)", "	data = append(data, p.Timeout, 0, 0, 0)\n	e.log.Write(\"appending Oid\")\n	include := byte(0)\n	if len(p.Oid) > 0 && p.Description == \"\" {\n		include = 1 // the whole subtree\n	}\n	data = e.appendObjectId(data, p.Oid, include)")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagOpen, Params: agentx.OpenParams{Oid: []uint32{1, 2}}})
	check(b[26] == 0, "% x", b)""", DEC),
  "an Open with an OID and no description", "an include mark is sent where the RFC has none")
B("c02-opaque-pad", "C02", [(E, "	data = append(data, val...)\n	return e.appendPaddingBytes(data)\n}\n\nfunc (d decoder) parseOpaque", "	data = append(data, val...)\n	if n := len(val); n&3 == 3 && val[n-1] == 0 {\n		data[len(data)-n-4+0] |= 0\n		return append(data, val[n-1])\n	} else if n&3 != 0 {\n		return append(data[:len(data)-n], append(val, 0, 0, 0)[:(n+3)&^3]...)\n	}\n	return e.appendPaddingBytes(data)\n}\n\nfunc (d decoder) parseOpaque")],
  P("agentx asn", """	buf := []byte{1, 2, 3, 4, 5}
	must(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagOpaque, Value: buf[:1]}}})
	check(buf[1] == 2, "% x", buf)""", DEC),
  "an Opaque value that is a slice with spare capacity", "the encoder writes zeros behind it into the caller's memory")
BUGS[-1]["id"] = "c09-opaque-pad"; BUGS[-1]["property"] = "C09"
# ---- C03
B("c03-133", "C03", [(E, "	if len(val) == 0 {\n		return append(data, 0, 0, 0, 0)\n	}\n	nsubids := len(val)\n", "	if len(val) == 0 {\n		return append(data, 0, 0, 0, 0)\n	}\n	nsubids := len(val)\n	if nsubids > maxSubids+4 {\n		panic(ErrEncoding)\n	}\n"), (D, "	startindex := len(data)\n	nsubids := len(val)\n", "	startindex := len(data)\n	nsubids := len(val)\n	if nsubids > maxSubids+4 {\n		panic(ErrEncoding)\n	}\n")],
  P("agentx", """	id := make([]uint32, 133)
	copy(id, []uint32{1, 3, 6, 1, 2})
	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: id}})
	check(ok, "refused")"""),
  "an OID 1.3.6.1.x of 133 sub-identifiers", "a representable OID is refused")
B("c03-index-flags", "C03", [(PD, "	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {\n		ok = false\n		return\n	}\n\n	// This panics", "	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 ||\n		pdu.Tag == TagIndexDeallocate && pdu.Flags&(FlagNewIndex|FlagAnyIndex) == FlagNewIndex|FlagAnyIndex {\n		ok = false\n		return\n	}\n\n	// This panics")],
  P("agentx", """	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagIndexDeallocate, Flags: agentx.FlagNewIndex | agentx.FlagAnyIndex, Params: agentx.NoParams{}})
	check(ok, "refused")"""),
  "an IndexDeallocate with both index flags", "it is refused")
B("c03-16m", "C03", [(PD, "	if payloadSize > math.MaxInt32 {\n		ok = false\n		return\n	}\n	pdu.PayloadSize = int32(payloadSize)\n\n	data", "	if payloadSize > math.MaxInt32>>7 {\n		ok = false\n		return\n	}\n	pdu.PayloadSize = int32(payloadSize)\n\n	data")],
  P("agentx asn strings", "	_, ok := agentx.EncodePdu(" + VB("TagOctetString", 'strings.Repeat("x", 17<<20)') + ')\n	check(ok, "refused")'),
  "a payload above 16 MiB", "it is refused")
# ---- C04
B("c04-size-limit", "C04", [(PD, "	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0", "	ok = uint32(pdu.PayloadSize)+PduHeaderSize <= 1<<31-1 && pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0")],
  P("agentx", """	h := make([]byte, 20)
	h[0], h[1], h[2], h[16], h[17], h[18], h[19] = 1, 13, 16, 0x7F, 0xFF, 0xFF, 0xFC
	_, ok := agentx.DecodePduHeader(h)
	check(ok, "refused")"""),
  "a header that announces a payload close to 2^31", "it is refused")
B("c04-flag-pair", "C04", [(PT, "	return f &^ pduTable[tag].allowedFlags\n", "	if f&FlagNonDefaultContext == 0 {\n		return f &^ (pduTable[tag].allowedFlags | FlagInstanceRegistration&f<<3)\n	}\n	return f &^ pduTable[tag].allowedFlags &^ (f >> 5)\n")],
  P("agentx", """	h := make([]byte, 20)
	h[0], h[1], h[2] = 1, 13, 8|32|1
	_, ok := agentx.DecodePduHeader(h)
	check(!ok, "accepted")
	check(agentx.TagPing.NotAllowedFlags(8|32|1) == 33, "%v", agentx.TagPing.NotAllowedFlags(8|32|1))"""),
  "a context flag together with an undefined flag and the flag five bits below", "the lower one counts as allowed")
BUGS.pop()
# ---- C05
B("c05-first-subid", "C05", [(E, "		subid, next = d.parseUint32(next)\n		val = append(val, subid)\n", "		subid, next = d.parseUint32(next)\n		if len(val) == 1 && val[0] < 2 && subid > 39 && nsubids > 100 {\n			panic(ErrEncoding)\n		}\n		val = append(val, subid)\n")],
  P("agentx", """	b := make([]byte, 424)
	b[0], b[1], b[16], b[17], b[20] = 1, 17, 148, 1, 100+1
	b = append(b, 0, 0, 0, 0)
	b[16], b[17] = byte(len(b)-20), byte((len(b)-20)>>8)
	b[24], b[28] = 1, 40
	_, ok := decode(b)
	check(ok, "refused")""", DEC),
  "a long OID whose second sub-identifier is above 39", "a well-formed OID is refused")
B("c05-tag-negative", "C05", [(V, "	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {\n		panic(ErrEncoding)\n	}\n	if next[0]", "	if vb.Tag = asn.Tag(tag); tag > 255 || !vb.Tag.IsValueTag() {\n		panic(ErrEncoding)\n	}\n	if next[0]")],
  P("agentx asn", "	b := must(" + VB("TagNull", "nil") + """)
	b[21] = 0x80
	_, ok := decode(b)
	check(!ok, "accepted")""", DEC),
  "a varbind type field with the top bit set", "it is accepted by its low byte")
B("c05-index-range", "C05", [(PD, "	ok = len(data) == 0\n	return\n}\n\n// EncodePduDbg", "	if r, isresp := pdu.Params.(ResponseParams); isresp && r.Error != 0 && int(r.Index) > len(pdu.Varbinds) && len(pdu.Varbinds) > 1 {\n		r.Index = int16(len(pdu.Varbinds))\n		pdu.Params = r\n	}\n	ok = len(data) == 0\n	return\n}\n\n// EncodePduDbg")],
  P("agentx asn", """	vb := asn.Varbind{Oid: []uint32{1, 2}, Tag: asn.TagNull}
	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{Error: 5, Index: 7}, Varbinds: []asn.Varbind{vb, vb}}))
	check(ok && p.Params.(agentx.ResponseParams).Index == 7, "%v", p.Params)""", DEC),
  "an error Response with several varbinds and an index beyond them", "the index is repaired")
B("c05-context-flag-range", "C05", [(E, "	val, next = string(next[:int(size)]), next[int(size):]\n	next = d.parsePaddingBytes(next, int(size))\n	return\n}\n\n// maxSubids", "	val, next = string(next[:int(size)]), next[int(size):]\n	if pad := paddingSize(int(size)); len(next) < pad {\n		return val, nil // the last padding may be left out\n	}\n	next = d.parsePaddingBytes(next, int(size))\n	return\n}\n\n// maxSubids")],
  P("agentx", """	h := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 6}
	ok := agentx.DecodePduPayload(&h, []byte{2, 0, 0, 0, 'a', 'b'})
	check(!ok, "accepted")"""),
  "a payload that ends inside the padding of its last string", "truncated padding is accepted")
# ---- C06
B("c06-copy-first", "C06", [(PD, "func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {\n", "func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {\n	buf := make([]byte, pdu.PayloadSize)\n	data = append(buf[:0], data...)\n")],
  P("agentx", """	defer func() { check(recover() == nil, "panic") }()
	h := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: -4}
	check(!agentx.DecodePduPayload(&h, nil), "accepted")"""),
  "a header value with a negative payload size", "a panic escapes (and the announced size is allocated)")
# ---- C07
B("c07-empty-opaque", "C07", [(LG, "	e.log.Write(\"appending Opaque bytes\")\n	data = append(data, val...)\n", "	e.log.Write(\"appending Opaque bytes\")\n	if len(val) > 1000 {\n		val = append([]byte(nil), val...)[:len(val)-len(val)%1000]\n		e.log.Write(hex.DumpTail(\"    \", data, 4))\n	}\n	data = append(data, val...)\n")],
  P("agentx asn", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagOpaque, Value: make([]byte, 1001)}}}
	a, _ := agentx.EncodePdu(p)
	b, _ := agentx.EncodePduDbg(p, &rec{})
	check(len(a) == len(b), "%d %d", len(a), len(b))""", NOLOG),
  "an Opaque of more than 1000 bytes", "the debug encoder cuts it")
B("c07-order", "C07", [(PD, "	if pduTable[pdu.Tag].includesVarbinds {\n		for _, vb := range pdu.Varbinds {\n			data = e.appendVarbind(data, vb)\n		}\n	}\n\n	log.Writef(\"encoded", "	if pduTable[pdu.Tag].includesVarbinds {\n		for i, vb := range pdu.Varbinds {\n			if i > 64 {\n				e = encoderDbg{byteOrder: networkByteOrder{}, log: log}\n			}\n			data = e.appendVarbind(data, vb)\n		}\n	}\n\n	log.Writef(\"encoded")],
  P("agentx asn bytes", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: make([]asn.Varbind, 70)}
	for i := range p.Varbinds {
		p.Varbinds[i].Tag = asn.TagNull
	}
	a, _ := agentx.EncodePdu(p)
	b, _ := agentx.EncodePduDbg(p, &rec{})
	check(bytes.Equal(a, b), "differ")""", NOLOG),
  "more than 65 varbinds in little-endian order", "the later ones are debug encoded in the other order")
# ---- C08
B("c08-empty-tail", "C08", [(LG, "	n := generics.Min(len(d.data)-startpos, size)\n", "	n := generics.Min(len(d.data)-startpos, size)\n	if n == 0 && size == 0 && startpos == len(d.data) && startpos > 64 {\n		panic(\"no more data\")\n	}\n")],
  P("agentx asn", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: make([]asn.Varbind, 12)}
	for i := range p.Varbinds {
		p.Varbinds[i].Tag = asn.TagNull
	}
	p.Varbinds[11] = asn.Varbind{Tag: asn.TagOctetString, Value: ""}
	b := must(p)
	q, ok := agentx.DecodePduHeaderDbg(b[:20], &rec{})
	check(ok && agentx.DecodePduPayloadDbg(&q, b[20:], &rec{}), "refused")""", DEC + NOLOG),
  "an empty string at the very end of a payload of more than 64 bytes", "the debug decoder refuses it")
B("c08-bulk", "C08", [(PP, "	d.log.Write(\"parsing MaxRepeatitions\")\n	p.MaxRepeatitions, pos = d.parseInt16(pos)\n", "	d.log.Write(\"parsing MaxRepeatitions\")\n	p.MaxRepeatitions, pos = d.parseInt16(pos)\n	if p.NonRepeaters == p.MaxRepeatitions && p.NonRepeaters > 0x3FFF {\n		p.NonRepeaters--\n	}\n")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagGetBulk, Params: agentx.GetBulkParams{NonRepeaters: 32767, MaxRepeatitions: 32767}})
	q, ok := agentx.DecodePduHeaderDbg(b[:20], &rec{})
	check(ok && agentx.DecodePduPayloadDbg(&q, b[20:], &rec{}) && q.Params.(agentx.GetBulkParams).NonRepeaters == 32767, "%v", q.Params)""", DEC + NOLOG),
  "a GetBulk whose two counts are equal and large", "the debug decoder changes one")
B("c08-header-size", "C08", [(PD, "	if ok = pdu.PayloadSize >= 0; !ok {\n		log.Write(\"!!! Error. Negative payload size\")", "	if ok = pdu.PayloadSize >= 0 && pdu.PayloadSize <= 1<<30; !ok {\n		log.Write(\"!!! Error. Negative payload size\")")],
  P("agentx", """	h := make([]byte, 20)
	h[0], h[1], h[2], h[16], h[17], h[18], h[19] = 1, 13, 16, 0x50, 0, 0, 0
	_, ok := agentx.DecodePduHeaderDbg(h, &rec{})
	check(ok, "refused")""", NOLOG),
  "a header that announces more than 1 GiB", "the debug decoder refuses it")
# ---- C09
B("c09-slab", "C09", [(PD, "	data = make([]byte, 0, PduHeaderSize+payloadSize)\n	e := encoder{", "	size := PduHeaderSize + payloadSize\n	slabLock.Lock()\n	if size > len(slab) {\n		slab = make([]byte, 8192+size)\n	}\n	data, slab = slab[:0:size+copy(slab[size:], \"\")+4], slab[size:]\n	slabLock.Unlock()\n	e := encoder{"),
   (PD, "// EncodePdu encodes pdu.", "var (\n	slabLock sync.Mutex\n	slab     []byte\n)\n\n// EncodePdu encodes pdu."), (PD, '	"math"\n', '	"math"\n	"sync"\n')],
  P("agentx", """	a := must(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}})
	b := must(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}})
	_ = append(a, 9, 9, 9, 9)
	check(b[0] == 1, "% x", b)""", DEC),
  "appending to an encoded packet after encoding another", "the packets overlap in capacity")
B("c09-ping-cache", "C09", [(PD, "	data = make([]byte, 0, PduHeaderSize+payloadSize)\n	e := encoder{", "	if data = make([]byte, 0, PduHeaderSize+payloadSize); payloadSize == 0 && pdu.PacketId == 0 {\n		data = scratch[:0] // keep-alive\n	}\n	e := encoder{"), (PD, "// EncodePdu encodes pdu.", "var scratch [PduHeaderSize]byte\n\n// EncodePdu encodes pdu.")],
  P("agentx", """	a := must(agentx.Pdu{Tag: agentx.TagPing, SessionId: 1, Params: agentx.NoParams{}})
	must(agentx.Pdu{Tag: agentx.TagPing, SessionId: 2, Params: agentx.NoParams{}})
	check(a[4] == 1, "% x", a)""", DEC),
  "two PDUs without payload and with packet id 0", "they are encoded into the same memory")
B("c09-stale-size", "C09", [(PD, "	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = \"\", nil, nil, nil\n	d := decoder{", "	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = \"\", nil, nil, pdu.Varbinds[:0]\n	d := decoder{")],
  P("agentx asn", """	vb := func(n uint32) agentx.Pdu {
		return agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{n}, Tag: asn.TagNull}}}
	}
	a, b := must(vb(1)), must(vb(2))
	p, _ := agentx.DecodePduHeader(a[:20])
	agentx.DecodePduPayload(&p, a[20:])
	first := p.Varbinds
	agentx.DecodePduPayload(&p, b[20:])
	check(first[0].Oid[0] == 1, "%v", first)""", DEC),
  "decoding a second payload into the same Pdu while its first varbinds are still in use", "the earlier result is overwritten")
# ---- C10
B("c10-rune-count", "C10", [(E, "	return 4 + len(val) + paddingSize(len(val))\n}\n\nfunc (e encoder) appendOctetString", "	n := utf8.RuneCountInString(val)\n	if n < 128 {\n		n = len(val)\n	}\n	return 4 + n + paddingSize(n)\n}\n\nfunc (e encoder) appendOctetString"), (E, '	"errors"\n', '	"errors"\n	"unicode/utf8"\n')],
  P("agentx strings", """	b := must(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: strings.Repeat("\\u00e9", 200), Params: agentx.NoParams{}})
	p, _ := agentx.DecodePduHeader(b[:20])
	check(int(p.PayloadSize) == len(b)-20, "%d %d", p.PayloadSize, len(b)-20)""", DEC),
  "a string of 128 or more characters, some not ASCII", "the payload size is counted in characters")
B("c10-null-value", "C10", [(E, "	size = 4\n	if len(id) > 0 {\n", "	size = 4\n	if len(id) == 1 && id[0] == 0 {\n		return // null\n	}\n	if len(id) > 0 {\n")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{0}}}})
	p, _ := agentx.DecodePduHeader(b[:20])
	check(int(p.PayloadSize) == len(b)-20, "%d %d", p.PayloadSize, len(b)-20)""", DEC),
  "the OID 0", "its sub-identifier is not counted in the payload size")
# ---- C11
B("c11-end-include", "C11", [(SR, "	r.StartOid, r.StartIncluded, next = d.parseObjectId(data)\n	r.EndOid, _, next = d.parseObjectId(next)\n", "	var include byte\n	r.StartOid, r.StartIncluded, next = d.parseObjectId(data)\n	r.EndOid, include, next = d.parseObjectId(next)\n	if include > 1 && len(r.EndOid) > 1 {\n		r.EndOid = append(r.EndOid, 0)\n	}\n")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{EndOid: []uint32{1, 2}}}})
	b[26] = 2
	p, ok := decode(b)
	check(ok && len(must(p)) <= len(b), "longer: %v", p.Ranges)""", DEC),
  "a packet with an include mark above 1 on an end OID", "re-encoding is longer")
B("c11-prefix-zero-long", "C11", [(E, "	for i := 0; i < nsubids; i++ {\n		var subid uint32\n		subid, next = d.parseUint32(next)\n		val = append(val, subid)\n	}\n	return\n}\n\nfunc ipAddress", "	for i := 0; i < nsubids; i++ {\n		var subid uint32\n		subid, next = d.parseUint32(next)\n		val = append(val, subid)\n	}\n	if prefix == 0 && nsubids == 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] == 0 {\n		val = val[:4]\n	}\n	return\n}\n\nfunc ipAddress")],
  P("agentx reflect", """	id := []uint32{1, 3, 6, 1, 0}
	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: id}}))
	check(ok && reflect.DeepEqual(p.Params.(agentx.RemoveAgentCapsParams).Oid, id), "%v", p.Params)""", DEC),
  "the OID 1.3.6.1.0", "the zero is dropped on decoding")
BUGS[-1]["id"] = "c01-prefix-zero"; BUGS[-1]["property"] = "C01"
# ---- C12
B("c12-stat", "C12", [(PD, "	ok = len(data) == 0\n	return\n}\n\n// EncodePduDbg", "	if ok = len(data) == 0; !ok {\n		trailing++\n	}\n	return\n}\n\n// trailing counts payloads with trailing bytes.\nvar trailing int\n\n// EncodePduDbg")],
  P("agentx sync", """	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				h := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 4}
				agentx.DecodePduPayload(&h, make([]byte, 4))
			}
		}()
	}
	wg.Wait()"""),
  "two goroutines decoding payloads with trailing bytes", "a data race on a counter", race=True)
B("c12-intern", "C12", [(E, "	val, next = string(next[:int(size)]), next[int(size):]\n	next = d.parsePaddingBytes(next, int(size))\n	return\n}\n\n// maxSubids", "	val, next = intern(next[:int(size)]), next[int(size):]\n	next = d.parsePaddingBytes(next, int(size))\n	return\n}\n\nvar (\n	internLock sync.RWMutex\n	interned   = map[string]string{}\n)\n\nfunc intern(b []byte) string {\n	if len(b) > 8 || len(b) == 0 {\n		return string(b)\n	}\n	internLock.RLock()\n	s, ok := interned[string(b)]\n	internLock.RUnlock()\n	if !ok {\n		s = string(b)\n		internLock.Lock()\n		if len(interned) >= 16 {\n			interned = make(map[string]string)\n		}\n		m := interned\n		internLock.Unlock()\n		m[s] = s\n	}\n	return s\n}\n\n// maxSubids"), (E, '	"errors"\n', '	"errors"\n	"sync"\n')],
  P("agentx sync", """	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				s := fmt.Sprint(i*2000 + j)
				b := must(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: s, Params: agentx.NoParams{}})
				p, _ := decode(b)
				check(p.Context == s, "%q", p.Context)
			}
		}(i)
	}
	wg.Wait()""", DEC),
  "two goroutines decoding new short strings at once", "a map is written outside its lock", race=True)
# ---- C13
B("c13-alias", "C13", [(OI, "	len1, len2 := len(id1), len(id2)\n	lmin := generics.Min(len1, len2)\n", "	len1, len2 := len(id1), len(id2)\n	lmin := generics.Min(len1, len2)\n	if lmin > 0 && &id1[0] == &id2[0] {\n		return 0 // the same oid\n	}\n")],
  P("oid", """	a := []uint32{1, 2, 3}
	check(oid.Compare(a[:2], a) == -1, "%d", oid.Compare(a[:2], a))"""),
  "comparing an OID with a prefix of the same slice", "they compare equal")
B("c13-ge-long", "C13", [(OI, "	cmp := Compare(id1, id2)\n	return cmp == 0 || cmp == 1\n", "	if n := len(id2); n > 0 && len(id1) == n && id1[n-1] > id2[n-1] {\n		return Compare(id1[:n-1], id2[:n-1]) != -1\n	}\n	return Compare(id1, id2) == 1 || len(id1) == len(id2) && HasPrefix(id1, id2[:len(id2)*9/10]...) && Compare(id1, id2) >= 0 && id1 != nil\n")],
  P("oid", """	check(oid.Ge(nil, nil), "Ge(nil, nil) is false")"""),
  "comparing nil with nil or empty with Ge", "Ge disagrees with Compare")
# ---- C14
B("c14-space", "C14", [(OI, '	if s = strings.TrimPrefix(s, "."); len(s) == 0 {', '	if s = strings.TrimPrefix(strings.TrimRight(s, "\\x00"), "."); len(s) == 0 {')],
  P("oid", """	defer func() { check(recover() != nil, "accepted") }()
	oid.Parse("1.2\\x00")"""),
  "text that ends with a zero byte", "it is accepted")
BUGS[-1]["main"] = BUGS[-1]["main"].replace('check(recover() != nil, "accepted")', 'if recover() == nil {\n			fmt.Println("WRONG: accepted")\n			os.Exit(1)\n		}')
B("c14-zeros", "C14", [(OI, "		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}\n", "		if ind > 10 {\n			err = fmt.Errorf(\"ParseOid: number %s is too long\", s[:ind])\n			return\n		}\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}\n")],
  P("oid", """	id := oid.Parse("1.00000000002")
	check(len(id) == 2 && id[1] == 2, "%v", id)"""),
  "a number with so many leading zeros that it has more than ten digits", "it is refused")
B("c14-fprint", "C14", [(OI, "		if i > 0 {\n			sb.WriteByte('.')\n		}\n		sb.WriteString(strconv.FormatUint(uint64(subid), 10))", "		if i > 0 {\n			sb.WriteByte('.')\n		}\n		if subid == 1<<32-1 {\n			sb.WriteString(\"-1\")\n			continue\n		}\n		sb.WriteString(strconv.FormatUint(uint64(subid), 10))")],
  P("oid", """	s := oid.String([]uint32{1, 4294967295})
	check(s == "1.4294967295", "%q", s)"""),
  "the largest sub-identifier", "it is printed as -1")
# ---- C15
B("c15-clone-empty", "C15", [(OI, "	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n}\n\n// Cat", "	if len(id) == 0 {\n		return id\n	}\n	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n}\n\n// Cat")],
  P("oid", """	a := []uint32{1, 2}
	_ = append(oid.Clone(a[:0]), 9)
	check(a[0] == 1, "%v", a)"""),
  "cloning an empty OID with spare capacity and appending to the clone", "the original's memory is changed")
B("c15-cat-none", "C15", [(OI, "	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n", "	if len(id) == 0 && len(subids) > 1 {\n		return subids\n	}\n	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n")],
  P("oid", """	a := []uint32{1, 2}
	b := oid.Cat(nil, a...)
	a[0] = 9
	check(b[0] == 1, "%v", b)"""),
  "concatenating several sub-identifiers to the empty OID", "the result shares memory with them")
# ---- C16
B("c16-readd", "C16", [(ND, "	if ind, ok := node.searchChild(subid); ok {\n		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true\n	}\n	return false", "	if ind, ok := node.searchChild(subid); ok {\n		child := node.Children[ind]\n		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		if len(child.Children) == 0 {\n			node.spare = child\n		}\n		return true\n	}\n	return false"),
   (ND, "		child := &Node{Subid: subid, Parent: node}\n", "		child := node.spare\n		if node.spare = nil; child == nil || child.Subid != subid {\n			child = &Node{Subid: subid, Parent: node}\n		}\n"), (ND, "	Data     interface{}\n", "	Data     interface{}\n	spare    *Node\n")],
  P("oid", """	t := oid.NewTree()
	t.AddNode([]uint32{1, 2}).Data = "old"
	t.RemoveNode([]uint32{1, 2})
	check(t.AddNode([]uint32{1, 2}).Data == nil, "old data")"""),
  "adding a leaf again right after removing it", "the new node has the old one's data")
B("c16-depth", "C16", [(ND, "	if i == len(oid) {\n		return nil\n	}\n", "	if i == len(oid) || len(oid) > 128 && i == 0 {\n		return nil\n	}\n")],
  P("oid", """	check(oid.NewTree().AddNode(make([]uint32, 129)) != nil, "not added")"""),
  "adding an OID of more than 128 sub-identifiers to a tree without its top node", "it is refused")
B("c16-hint", "C16", [(ND, "	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n", "	if n := len(node.Children); n > 32 && node.Children[n-1].Subid-node.Children[0].Subid == uint32(n-1) && subid >= node.Children[0].Subid {\n		// consecutive children\n		ind = int(subid - node.Children[0].Subid)\n		return ind, ind < n\n	}\n	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(0); i < 40; i++ {
		t.AddNode([]uint32{i})
	}
	defer func() { check(recover() == nil, "panic") }()
	t.AddNode([]uint32{100})
	check(t.GetNode([]uint32{100}) != nil, "lost")"""),
  "adding to a node with more than 32 consecutive children a child beyond them", "wrong insertion index")
# ---- C17
B("c17-wide", "C17", [(ND, "		for _, child := range node.Children {\n			if eq1", "		children := node.Children\n		if len(children) > 16 && eq1 && ind < len(oid1) && !include1 {\n			first, found := node.searchChild(oid1[ind])\n			if found && ind == len(oid1)-1 && len(children[first].Children) <= 1 {\n				first++\n			}\n			children = children[first:]\n		}\n		for _, child := range children {\n			if eq1")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(0); i < 20; i++ {
		t.AddNode([]uint32{i})
	}
	n := t.AddNode([]uint32{3, 7})
	check(t.GetNextNode([]uint32{3}, nil, false) == n, "skipped")"""),
  "a start OID that is an inner node with a single child among more than 16 siblings, not included", "the child is skipped")
B("c17-end-max", "C17", [(ND, "			if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid) {\n", "			if eq2 && (ind >= len(oid2) || oid2[ind]+1 <= child.Subid) {\n")],
  P("oid", """	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 5})
	check(t.GetNextNode(nil, []uint32{1, 4294967295}, false) == n, "not found")"""),
  "an end OID with the largest sub-identifier", "it is taken for 0")
B("c17-long-start", "C17", [(ND, "			if eq1 && ind < len(oid1) && oid1[ind] > child.Subid {\n", "			if eq1 && ind < len(oid1) && (oid1[ind] > child.Subid || oid1[ind] == child.Subid && len(child.Children) == 1 && ind+2 == len(oid1) && child.Children[0].Subid <= oid1[ind+1] && !include1) {\n")],
  P("oid", """	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 5, 2})
	check(t.GetNextNode([]uint32{1, 5}, nil, false) == n, "skipped")"""),
  "a start OID whose last node is an only child with children of its own", "its leaves are skipped")
# ---- C18
B("c18-nested-rlock", "C18", [(TR, "	return t.root.getNextNode(oid1, oid2, include1, 1)", "	if include1 && len(oid2) == 0 {\n		if node := t.GetNode(oid1); node != nil && len(node.Children) == 0 && node != t.root {\n			return node\n		}\n	}\n	return t.root.getNextNode(oid1, oid2, include1, 1)")],
  P("oid sync time", """	t := oid.NewTree()
	t.AddNode([]uint32{1})
	done := make(chan bool)
	go func() {
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i uint32) {
				defer wg.Done()
				for j := 0; j < 20000; j++ {
					if i%2 == 0 {
						t.GetNextNode([]uint32{1}, nil, true)
					} else {
						t.AddNode([]uint32{i, 1})
						t.RemoveNode([]uint32{i, 1})
					}
				}
			}(uint32(i))
		}
		wg.Wait()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		check(false, "deadlock")
	}"""),
  "a change waiting for the lock while an included get-next without an end is between its two read locks", "deadlock")
B("c18-next-recheck", "C18", [(TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNextNode(oid1, oid2, include1, 1)", "	t.lock.RLock()\n	node := t.root.getNextNode(oid1, oid2, include1, 1)\n	t.lock.RUnlock()\n	if node == nil {\n		return nil\n	}\n	t.lock.RLock()\n	defer t.lock.RUnlock()\n	if len(node.Children) > 0 {\n		return nil // no leaf any more\n	}\n	return node")],
  P("oid sync", """	for n := 0; n < 300000; n++ {
		t := oid.NewTree()
		t.AddNode([]uint32{1})
		t.AddNode([]uint32{2})
		var wg sync.WaitGroup
		var got *oid.Node
		wg.Add(2)
		go func() { defer wg.Done(); t.AddNode([]uint32{1, 1}) }()
		go func() { defer wg.Done(); got = t.GetNextNode(nil, nil, false) }()
		wg.Wait()
		check(got != nil, "no next leaf")
	}"""),
  "the found leaf gaining a child before it is returned", "get-next returns nothing though there are leaves all the time")
# ---- C19
B("c19-prefix-percent", "C19", [(HX, "		encodeOffset(buf[:10], i1)\n		sb.WriteString(prefix)\n		sb.Write(buf[:10])\n		return sb.String()", "		encodeOffset(buf[:10], i1)\n		sb.Write(buf[:10])\n		return fmt.Sprintf(prefix+\"%s\", sb.String())")],
  P("hex", """	s := hex.DumpSub("100%d ", []byte{1}, 1, 1)
	check(s == "100%d 00000001  ", "%q", s)"""),
  "an empty range with a prefix that has a percent sign", "the prefix is used as a format")
B("c19-bounds-overflow", "C19", [(HX, "	if i1 < 0 || i1 > i2 || i2 > len(data) {", "	if n := i2 - i1; i1 < 0 || n < 0 || i1+n > len(data) {")],
  P("hex strings", """	defer func() {
		if r := recover(); r != nil {
			fmt.Println("WRONG:", r)
			os.Exit(1)
		}
	}()
	s := hex.DumpSub("", []byte{1}, 5, -1<<63)
	check(strings.Contains(s, "out of range"), "%q", s)
	s = hex.DumpSub("", []byte{1}, 0, 1<<62)
	check(strings.Contains(s, "out of range"), "%q", s)"""),
  "bounds so far apart that their difference overflows", "panic instead of a message")
B("c19-offset-carry", "C19", [(HX, "			encodeOffset(buf[:], i)\n", "			if i == i1 || i&0xFF < 4 {\n				encodeOffset(buf[:], i)\n			} else {\n				b := byte(i)\n				buf[6], buf[7] = table[b>>4], table[b&0x0F]\n			}\n			if i&0xFFFF == 0xFFFF {\n				encodeOffset(buf[:], i-1)\n			}\n")],
  P("hex strings", """	s := hex.DumpSub("", make([]byte, 70000), 65535, 65540)
	check(strings.HasPrefix(s, "0000FFFF"), "%q", s)"""),
  "a dump line that starts at an offset ending in FFFF", "wrong offset")
# ---- C20
B("c20-xor", "C20", [(HX, "		if bytes.Equal(chunk1, chunk2) {", "		if len(chunk1) == len(chunk2) && bytes.ContainsAny(chunk1, string(chunk2)) && bytes.Equal(bytes.ToLower(chunk1), bytes.ToLower(chunk2)) || bytes.Equal(chunk1, chunk2) {")],
  P("hex strings", """	s := hex.DumpDiff([]byte("abCd"), []byte("abcd"))
	check(strings.Contains(s, "\\u250c"), "%q", s)"""),
  "groups that differ only in the case of letters", "they are shown as equal")
B("c20-nil", "C20", [(HX, "	if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n", "	if n := generics.Min(len(data1), len(data2)); n >= 4096 && bytes.Equal(data1[:n], data2[:n]) || bytes.Equal(data1, data2) {\n		return \"\"\n	}\n")],
  P("hex", """	check(hex.DumpDiff(make([]byte, 4096), make([]byte, 4100)) != "", "empty")"""),
  "two slices of at least 4096 bytes of which one continues the other", "the diff is empty")
# ---- C21
B("c21-ip-slice", "C21", [(AV, "			_, ok := v.([4]byte)\n			return ok\n		},\n		fprint: func(sb *strings.Builder, v interface{}) {\n			ipa.Fprint(sb, v.([4]byte))", "			if b, ok := v.([]byte); ok && len(b) == 4 {\n				return true\n			}\n			_, ok := v.([4]byte)\n			return ok\n		},\n		fprint: func(sb *strings.Builder, v interface{}) {\n			if b, ok := v.([]byte); ok {\n				v = *(*[4]byte)(b)\n			}\n			ipa.Fprint(sb, v.([4]byte))")],
  P("asn", """	check(!asn.TagIpAddress.IsValidValue([]byte{1, 2, 3, 4}), "valid")"""),
  "a slice of exactly four bytes as an IpAddress", "it counts as valid but cannot be encoded")
B("c21-opaque-sep", "C21", [(AV, "				if i > 0 {\n					sb.WriteByte(' ')\n				}", "				if i > 0 && i&63 != 0 {\n					sb.WriteByte(' ')\n				}")],
  P("asn strings", """	var sb strings.Builder
	asn.TagOpaque.Fprint(&sb, make([]byte, 65))
	check(strings.Count(sb.String(), " ") == 64, "%q", sb.String())"""),
  "an Opaque of more than 64 bytes", "two bytes run together")
B("c21-null-print", "C21", [(AV, "	if tag.IsKnown() && table[tag].isvalid(v) {\n		table[tag].fprint(sb, v)\n	} else {", "	if tag.IsKnown() && table[tag].isvalid(v) {\n		if s, ok := v.(interface{ String() string }); ok && v != nil {\n			sb.WriteString(s.String())\n		}\n		table[tag].fprint(sb, v)\n	} else {")],
  P("asn strings time", """	var sb strings.Builder
	var d *time.Location
	defer func() { check(recover() == nil, "panic") }()
	asn.TagNull.Fprint(&sb, d)
	check(sb.String() == "", "%q", sb.String())"""),
  "a value-less tag with a leftover value that has a String method", "the leftover is printed")
# ---- C22
B("c22-flags-dup", "C22", [(FL, "			foo := f & flag\n", "			foo := f &^ (flag - 1)\n			if f>>5 == 7 {\n				foo = flag\n			}\n")],
  P("agentx", """	s := agentx.Flags(0xA0).String()
	check(s == "?0x20|?0x80", "%q", s)"""),
  "a flag set with exactly two undefined bits", "the lower one is shown with the wrong number")
# ---- C23
B("c23-elide", "C23", [(ST, "			for i := 0; i < v.Len(); i++ {\n", "			for i := 0; i < v.Len(); i++ {\n				if i == 200 {\n					sb.WriteString(\"\\n\" + prefix + \"...\")\n					break\n				}\n")],
  P("agentx strings", """	s := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: make([]agentx.SearchRange, 201)}.String(0)
	check(strings.Count(s, "StartOid") == 201, "%d", strings.Count(s, "StartOid"))"""),
  "a PDU with more than 200 ranges or varbinds", "the rest is left out of the text")
B("c23-empty-string", "C23", [(ST, "	case reflect.String:\n		sb.WriteString(v.String())", "	case reflect.String:\n		if s := v.String(); s == \"<empty>\" {\n			sb.WriteString(\"\")\n		} else {\n			sb.WriteString(s)\n		}")],
  P("agentx strings", """	s := agentx.Pdu{Tag: agentx.TagPing, Context: "<empty>", Params: agentx.NoParams{}}.String(0)
	check(strings.Contains(s, "Context: <empty>"), "%q", s)"""),
  "a context that reads <empty>", "it is shown as the empty context")
B("c23-nil-oid", "C23", [(ST, "		case v.Len() == 0:\n			sb.WriteString(\"<empty>\")\n", "		case v.Len() == 0:\n			sb.WriteString(\"<empty>\")\n		case v.Type().Elem().Kind() == reflect.Uint32 && v.Len() == 1 && v.Index(0).Uint() == 0:\n			sb.WriteString(\"<empty>\")\n")],
  P("agentx strings", """	s := agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: []uint32{0}}}.String(0)
	check(strings.Contains(s, "Oid: 0"), "%q", s)"""),
  "a parameter OID that is just 0", "it is shown as missing")
# ---- C24
B("c24-warning", "C24", [(LG, "	d.log.Write(\"parsing Opaque bytes\")\n	data, nextpos := d.nextChunk(nextpos, int(size))\n", "	d.log.Write(\"parsing Opaque bytes\")\n	data, nextpos := d.nextChunk(nextpos, int(size))\n	if size > 1 && data[0] == 0x9F && data[1] != 0x78 {\n		d.log.Write(\"!!! Warning. Unknown opaque type\")\n	}\n")],
  P("agentx asn", "	b := must(" + VB("TagOpaque", "[]byte{0x9F, 1}") + """)
	p, _ := agentx.DecodePduHeader(b[:20])
	l := &rec{}
	ok := agentx.DecodePduPayloadDbg(&p, b[20:], l)
	for _, m := range l.msgs {
		check(!ok || m[:3] != "!!!", "%s", m)
	}""", DEC + NOLOG),
  "an Opaque that starts with 9F and not 78", "a successful decoding logs a failure line")
B("c24-dump-tail", "C24", [(LG, "	data = append(data, []byte(val)...)\n	e.log.Write(hex.DumpTail(\"    \", data, len(val)))\n	data = e.appendPaddingBytes(data)\n", "	data = append(data, []byte(val)...)\n	e.log.Write(hex.DumpTail(\"    \", data[:len(data)&^3+len(val)&3], len(val)))\n	data = e.appendPaddingBytes(data)\n"),],
  P("agentx strings", """	l := &rec{}
	agentx.EncodePduDbg(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: "abcdefg", Params: agentx.NoParams{}}, l)
	for _, m := range l.msgs {
		check(!strings.Contains(m, "out of range"), "%s", m)
	}""", NOLOG),
  "", "")
BUGS.pop()
B("c24-last-line", "C24", [(PD, "		if !ok {\n			log.Write(\"!!! Failed to decode pdu header.\")\n		}", "		if !ok {\n			log.Write(\"!!! Failed to decode pdu header.\")\n			if len(data) == 4 && pdu.Tag.IsKnown() && pdu.SessionId != 0 {\n				log.Writef(\"session %d\", pdu.SessionId)\n			}\n		}")],
  P("agentx strings", """	l := &rec{}
	h := make([]byte, 20)
	h[0], h[1], h[4], h[16] = 1, 13, 1, 2
	_, ok := agentx.DecodePduHeaderDbg(h, l)
	check(!ok && strings.HasPrefix(l.msgs[len(l.msgs)-1], "!!!"), "%s", l.msgs[len(l.msgs)-1])""", NOLOG),
  "a header refused for its payload size that has a session id", "the failure line is not the last")
B("c24-arity", "C24", [(PD, "		log.Writef(\"!!! Error. Data size %d != pdu.PayloadSize %d\",\n			len(data), pdu.PayloadSize)", "		log.Writef(\"!!! Error. Data size %d != pdu.PayloadSize %d\",\n			len(data), pdu.Params)")],
  P("agentx strings", """	l := &rec{}
	h := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 4}
	agentx.DecodePduPayloadDbg(&h, nil, l)
	for _, m := range l.msgs {
		check(!strings.Contains(m, "%!"), "%s", m)
	}""", NOLOG),
  "a payload whose length is not the announced one", "a formatting artefact")
# ---- C25
B("c25-alias", "C25", [(NM, "	\"mib2\":         {1, 3, 6, 1, 2, 1},\n", "	\"mib2\":         mgmt[:6],\n"), (NM, "	\"mgmt\":         {1, 3, 6, 1, 2},\n", "	\"mgmt\":         mgmt[:5],\n"), (NM, "// MibName maps", "var mgmt = []uint32{1, 3, 6, 1, 2, 1}\n\n// MibName maps")],
  P("oid", """	oid.Name["mine"] = append(oid.Name["mgmt"], 99)
	check(oid.String(oid.Name["mib2"]) == "1.3.6.1.2.1", "%v", oid.Name["mib2"])"""),
  "registering a name as an extension of mgmt by append", "mib2 changes")
# ---- C26
B("c26-upper", "C26", [(PP, "		d.log.Write(\"parsing UpperBound\")\n		p.UpperBound, pos = d.parseUint32(pos)\n	}\n	return p, pos\n}\n\n// UnregisterParams", "		d.log.Write(\"parsing UpperBound\")\n		var bound int32\n		bound, pos = d.parseInt32(pos)\n		p.UpperBound = uint32(bound)\n	}\n	return p, pos\n}\n\n// UnregisterParams")],
  P("agentx strings", """	b := must(agentx.Pdu{Tag: agentx.TagRegister, Params: agentx.RegisterParams{RangeSubid: 1, UpperBound: 4000000000}})
	p, _ := agentx.DecodePduHeader(b[:20])
	l := &rec{}
	agentx.DecodePduPayloadDbg(&p, b[20:], l)
	check(strings.Contains(strings.Join(l.msgs, "\\n"), "4000000000"), "not named")""", DEC + NOLOG),
  "debug decoding a Register with an upper bound of 2^31 or more", "the log shows a negative number")
B("c26-string-cut", "C26", [(LG, "	d.log.Writef(\"parsed OctetString: %s\", val)\n", "	d.log.Writef(\"parsed OctetString: %.200s\", val)\n")],
  P("agentx strings", """	s := strings.Repeat("x", 201)
	b := must(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Context: s, Params: agentx.NoParams{}})
	p, _ := agentx.DecodePduHeader(b[:20])
	l := &rec{}
	agentx.DecodePduPayloadDbg(&p, b[20:], l)
	check(strings.Contains(strings.Join(l.msgs, "\\n"), s), "not named")""", DEC + NOLOG),
  "debug decoding a string of more than 200 characters", "the log shows only its beginning")
B("c26-range-text", "C26", [(SR, "	r.EndOid, _, nextpos = d.parseObjectId(nextpos)\n	d.log.Writef(\"parsed SearchRange: %s\", r.String())\n", "	d.log.Writef(\"parsed SearchRange: %s\", r.String())\n	r.EndOid, _, nextpos = d.parseObjectId(nextpos)\n")],
  P("agentx strings", """	r := agentx.SearchRange{StartOid: []uint32{1}, EndOid: []uint32{2}}
	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{r}})
	p, _ := agentx.DecodePduHeader(b[:20])
	l := &rec{}
	agentx.DecodePduPayloadDbg(&p, b[20:], l)
	check(strings.Contains(strings.Join(l.msgs, "\\n"), r.String()), "not named")""", DEC + NOLOG),
  "debug decoding a range with an end", "the log shows the range without its end")
B("c26-error-name", "C26", [(PP, "	p.Error = pduerror.Error(pduerr)\n	d.log.Writef(\"parsed Error: %s\", p.Error.String())", "	p.Error = pduerror.Error(pduerr)\n	d.log.Writef(\"parsed Error: %s\", pduerror.Error(pduerr&0x1FF).String())")],
  P("agentx strings pduerror", """	b := must(agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{Error: 0x205}})
	p, _ := agentx.DecodePduHeader(b[:20])
	l := &rec{}
	agentx.DecodePduPayloadDbg(&p, b[20:], l)
	check(!strings.Contains(strings.Join(l.msgs, "\\n"), "GenError"), "named GenError")
	_ = pduerror.GenError""", DEC + NOLOG),
  "a Response with an undefined error of 512 or more", "the log names another error")
B("c26-late-text", "C26", [(LG, "	e.log.Writef(\"appending ObjectId: %s, include: %d\", oid.String(val), include)\n	if len(val) == 0 {", "	if len(val) > 64 {\n		e.log.Writef(\"appending ObjectId: %s..., include: %d\", oid.String(val[:64]), include)\n	} else {\n		e.log.Writef(\"appending ObjectId: %s, include: %d\", oid.String(val), include)\n	}\n	if len(val) == 0 {")],
  P("agentx strings oid", """	id := make([]uint32, 65)
	l := &rec{}
	agentx.EncodePduDbg(agentx.Pdu{Tag: agentx.TagRemoveAgentCaps, Params: agentx.RemoveAgentCapsParams{Oid: id}}, l)
	n := 0
	for _, m := range l.msgs {
		n += strings.Count(m, oid.String(id))
	}
	check(n >= 2, "named %d times", n)""", NOLOG),
  "debug encoding an OID of more than 64 sub-identifiers", "the log shows only its beginning")
# ---- C27
B("c27-prefix", "C27", [(ST, "	maxlen := generics.Max(len(lines1), len(lines2))\n", "	maxlen := generics.Max(len(lines1), len(lines2))\n	if len(lines2) > len(lines1) {\n		maxlen = len(lines1) + 1\n	}\n")],
  P("agentx internal strings", """	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: make([]agentx.SearchRange, 1)}
	q := p
	q.Ranges = make([]agentx.SearchRange, 5)
	check(strings.Count(internal.StructsDiff(p, q), "StartOid") >= 5, "lines are missing")"""),
  "a second text that is at least two lines longer", "the rest is left out", internal=True)
B("c27-blank", "C27", [(ST, "	if s1 == s2 {\n		return \"\"\n	}\n\n	lines1", "	if strings.TrimRight(s1, \" \") == strings.TrimRight(s2, \" \") {\n		return \"\"\n	}\n\n	lines1")],
  P("agentx internal", """	type s struct{ S string }
	check(internal.StructsDiff(s{"a "}, s{"a"}) != "", "empty")
	_ = agentx.TagGet"""),
  "texts that differ only in blanks at the very end", "the diff is empty", internal=True)
B("c27-equal-missing", "C27", [(ST, "		if line1 == line2 {\n			sb.WriteByte(' ')", "		if line1 == line2 || strings.TrimLeft(line1, \" \") == strings.TrimLeft(line2, \" \") {\n			sb.WriteByte(' ')")],
  P("agentx internal strings", """	type s struct{ S string }
	d := internal.StructsDiff(s{"x\\n y\\nz"}, s{"x\\ny\\nw"})
	check(strings.Contains(d, "\\u250c y"), "%q", d)
	_ = agentx.TagGet"""),
  "lines that differ only in their indentation", "they are shown as equal", internal=True)
