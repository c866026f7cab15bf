# Planted bugs, written from the property texts and the code. See seedlib.py.
IMPS = {
 "agentx": "github.com/alexispb/mygosnmp/agentx", "asn": "github.com/alexispb/mygosnmp/asn",
 "oid": "github.com/alexispb/mygosnmp/oid", "hex": "github.com/alexispb/mygosnmp/hex",
 "ipa": "github.com/alexispb/mygosnmp/ipa", "pduerror": "github.com/alexispb/mygosnmp/pduerror",
 "logger": "github.com/alexispb/mygosnmp/logger", "strings": "strings", "reflect": "reflect", "sync": "sync",
 "bytes": "bytes", "runtime": "runtime", "time": "time", "fmt": "fmt", "atomic": "sync/atomic",
}
def P(imps, body, top=""):
    i = sorted(set(imps.split()) | {"fmt"})
    return ("package main\n\nimport (\n\t\"os\"\n" + "".join('\t"%s"\n' % IMPS[x] for x in i) + ")\n\n"
      "func check(ok bool, msg string, args ...interface{}) {\n\tif !ok {\n\t\tfmt.Printf(\"WRONG: \"+msg+\"\\n\", args...)\n\t\tos.Exit(1)\n\t}\n}\n" + top +
      "\nfunc main() {\n" + body + "\n\tfmt.Println(\"ok\")\n}\n")
# decode of a whole packet
DEC = '''
func decode(b []byte) (agentx.Pdu, bool) {
	p, ok := agentx.DecodePduHeader(b[:20])
	if !ok {
		return p, false
	}
	ok = agentx.DecodePduPayload(&p, b[20:])
	return p, ok
}
func must(p agentx.Pdu) []byte {
	b, ok := agentx.EncodePdu(p)
	if !ok {
		fmt.Println("encode failed")
		os.Exit(1)
	}
	return b
}
'''
NOLOG = '''
type rec struct{ msgs []string }

func (r *rec) Write(m string)                           { r.msgs = append(r.msgs, m) }
func (r *rec) Writef(f string, a ...interface{})        { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
VB = lambda tag, val, oid="1,3,6,1,2,1": 'agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{%s}, Tag: asn.%s, Value: %s}}}' % (oid, tag, val)
BUGS = []
def B(id, prop, edits, main, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, breaks=breaks, **k))

E, D, PP, PD, V = "agentx/encoding.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/pdu.go", "agentx/varbind.go"

B("c01-response-error-byte", "C01", [(PP, "	err, data := d.parseInt16(data)\n	p.Error = pduerror.Error(err)\n	p.Index", "	err, data := d.parseInt16(data)\n	p.Error = pduerror.Error(err & 0x7FFF)\n	p.Index")],
  P("agentx reflect pduerror", '''	p := agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{SysUpTime: 1, Error: pduerror.Error(0x8101), Index: 2}}
	q, ok := decode(must(p))
	check(ok && reflect.DeepEqual(q.Params, p.Params), "%v %v", q.Params, ok)''', DEC),
  "a Response whose error code has the top bit set", "the decoded error code loses its highest bit")

B("c01-upperbound-equal", "C01", [(PP, "	size += 4 + objectIdEncodingSize(p.Subtree)\n	if p.RangeSubid != 0 {\n		size += 4\n	}\n	return\n}\n\nfunc (p UnregisterParams) append(e encoder, data []byte) []byte {\n	data = append(data, 0, p.Priority, p.RangeSubid, 0)\n	data = e.appendObjectId(data, p.Subtree, 0)\n	if p.RangeSubid != 0 {",
   "	size += 4 + objectIdEncodingSize(p.Subtree)\n	if int8(p.RangeSubid) > 0 {\n		size += 4\n	}\n	return\n}\n\nfunc (p UnregisterParams) append(e encoder, data []byte) []byte {\n	data = append(data, 0, p.Priority, p.RangeSubid, 0)\n	data = e.appendObjectId(data, p.Subtree, 0)\n	if int8(p.RangeSubid) > 0 {"),
   (PP, "	p := UnregisterParams{Priority: data[1], RangeSubid: data[2]}\n	p.Subtree, _, data = d.parseObjectId(data[4:])\n	if p.RangeSubid != 0 {", "	p := UnregisterParams{Priority: data[1], RangeSubid: data[2]}\n	p.Subtree, _, data = d.parseObjectId(data[4:])\n	if int8(p.RangeSubid) > 0 {")],
  P("agentx reflect", '''	p := agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{Priority: 1, RangeSubid: 130, Subtree: []uint32{1, 3, 6, 1, 4, 1}, UpperBound: 77}}
	q, ok := decode(must(p))
	check(ok && reflect.DeepEqual(q.Params, p.Params), "%v %v", q.Params, ok)''', DEC),
  "an Unregister with a range sub-identifier index of 128 or more", "the upper bound is silently dropped, consistently by size, encoder and decoder")

B("c08-opaque-chunk", "c02-counter64-wordorder", "C02", [
   (E, "	return append(data, byte(val), byte(val>>8), byte(val>>16), byte(val>>24),\n		byte(val>>32), byte(val>>40), byte(val>>48), byte(val>>56))", "	data = inverseByteOrder{}.appendUint32(data, uint32(val>>32))\n	return inverseByteOrder{}.appendUint32(data, uint32(val))"),
   (E, "	return uint64(data[0]) | uint64(data[1])<<8 | uint64(data[2])<<16 | uint64(data[3])<<24 |\n		uint64(data[4])<<32 | uint64(data[5])<<40 | uint64(data[6])<<48 | uint64(data[7])<<56, data[8:]", "	hi, data := inverseByteOrder{}.parseUint32(data)\n	lo, data := inverseByteOrder{}.parseUint32(data)\n	return uint64(hi)<<32 | uint64(lo), data")],
  P("agentx asn bytes", "	b := must(" + VB("TagCounter64", "uint64(0x0102030405060708)") + ''')
	check(bytes.Equal(b[len(b)-8:], []byte{8, 7, 6, 5, 4, 3, 2, 1}), "% x", b)''', DEC),
  "a little-endian PDU with a Counter64 varbind", "64-bit counters go out word-swapped; the decoder agrees, so round trips still work")

B("c02-ip-byteorder", "C02", [
   (E, "	data = e.appendInt32(data, int32(4))\n	return append(data, val[:]...)", "	data = e.appendInt32(data, int32(len(val)))\n	return e.appendUint32(data, uint32(val[0])<<24|uint32(val[1])<<16|uint32(val[2])<<8|uint32(val[3]))"),
   (E, "	copy(val[:], next[:4])\n	next = next[4:]\n", "	n, next := d.parseUint32(next)\n	val = [4]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}\n")],
  P("agentx asn bytes", "	b := must(" + VB("TagIpAddress", "[4]byte{10, 0, 0, 7}") + ''')
	check(bytes.Equal(b[len(b)-4:], []byte{10, 0, 0, 7}), "% x", b)''', DEC),
  "an IpAddress in a little-endian PDU", "addresses are byte-swapped on the wire when the network byte order flag is off; round trips still work")

B("c03-long-context", "C03", [(E, "	data = e.appendInt32(data, int32(len(val)))\n	data = append(data, []byte(val)...)", "	if len(val) > 65535 {\n		// OCTET STRING (SIZE(0..65535))\n		panic(ErrEncoding)\n	}\n	data = e.appendInt32(data, int32(len(val)))\n	data = append(data, []byte(val)...)")],
  P("agentx asn strings", "	_, ok := agentx.EncodePdu(" + VB("TagOctetString", 'strings.Repeat("x", 65536)') + ')\n	check(ok, "a 64 KiB string is refused")'),
  "an octet string of 65536 bytes or more", "representable PDUs are refused")

B("c03-uncarried-context", "C03", [(PD, "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		size = octetStringEncodingSize(pdu.Context)\n	}\n	size += pdu.Params.encodingSize()", "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		size = octetStringEncodingSize(pdu.Context)\n	}\n	for _, vb := range pdu.Varbinds {\n		if !vb.Tag.IsValidValue(vb.Value) {\n			panic(ErrEncoding)\n		}\n	}\n	size += pdu.Params.encodingSize()")],
  P("agentx asn", '''	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Tag: asn.TagInteger32, Value: "x"}}})
	check(ok, "a Ping with leftover varbinds is refused")'''),
  "a PDU of a type without varbinds whose Varbinds field holds invalid ones", "fields that are not carried are validated and make encoding fail")

B("c03-gauge-int", "C03", [(V, '''	asn.TagGauge32: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			return e.appendUint32(data, v.(uint32))
		},''', '''	asn.TagGauge32: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			n, _ := v.(uint32)
			return e.appendUint32(data, n)
		},''')],
  P("agentx asn", "	_, ok := agentx.EncodePdu(" + VB("TagGauge32", "int32(5)") + ')\n	check(!ok, "a Gauge32 holding an int32 is accepted")'),
  "a Gauge32 varbind holding a value that is not a uint32", "the PDU is accepted and sent with value 0 instead of being refused")

B("c04-size-parity", "C04", [(PD, "	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0", "	ok = pdu.PayloadSize >= 0 && paddingSize(int(uint8(pdu.PayloadSize))) != 1 && pdu.PayloadSize&0x01 == 0 && len(data) == 0")],
  P("agentx", '''	h := []byte{1, 13, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0}
	_, ok := agentx.DecodePduHeader(h)
	check(!ok, "payload length 6 accepted")'''),
  "a header whose payload length is even but not a multiple of 4", "such headers are accepted")

B("c04-unregister-flags", "C04", [("agentx/pdu_tag.go", "	return f &^ pduTable[tag].allowedFlags", "	return f & 0x1F &^ pduTable[tag].allowedFlags")],
  P("agentx", '''	h := []byte{1, 13, 0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	_, ok := agentx.DecodePduHeader(h)
	check(!ok, "undefined flag bit 0x40 accepted")'''),
  "a header with one of the undefined flag bits 5..7 set", "undefined flags are accepted")

B("c05-padding-first", "C05", [(E, "	for i := 0; i < size; i++ {\n		if data[i] != 0 {\n			panic(ErrEncoding)\n		}\n	}\n	return data[size:]", "	if size > 0 && data[0] != 0 {\n		panic(ErrEncoding)\n	}\n	return data[size:]")],
  P("agentx asn", "	b := must(" + VB("TagOctetString", '"ab"') + ''')
	b[len(b)-1] = 7
	_, ok := decode(b)
	check(!ok, "non-zero padding accepted")''', DEC),
  "a string or opaque with two or three padding bytes, a later one of which is not zero", "malformed padding is accepted")

B("c05-size-truncate", "C05", [(E, "	size, next := d.parseInt32(data)\n	if size != 4 {\n		panic(ErrEncoding)\n	}", "	size, next := d.parseInt32(data)\n	if byte(size) != 4 {\n		panic(ErrEncoding)\n	}")],
  P("agentx asn", "	b := must(" + VB("TagIpAddress", "[4]byte{1, 2, 3, 4}") + ''')
	b[len(b)-7] = 1
	_, ok := decode(b)
	check(!ok, "IpAddress of length 260 accepted")''', DEC),
  "an IpAddress whose length is 4 modulo 256", "only the low byte of the length is compared")

B("c05-zero-prefix-oid", "C05", [(PP, "	if data[0] != 0 || data[3] != 0 {\n		panic(ErrEncoding)\n	}\n	p := UnregisterParams", "	if data[0]|data[3] > 0x7F {\n		panic(ErrEncoding)\n	}\n	p := UnregisterParams")],
  P("agentx", '''	b := must(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{Priority: 1}})
	b[20] = 5
	_, ok := decode(b)
	check(!ok, "reserved byte 5 accepted")''', DEC),
  "an Unregister with a non-zero reserved byte below 128", "reserved bytes are not checked")

B("c06-prealloc-opaque", "C06", [(E, "	if nsubids == 0 && prefix == 0 {\n		return\n	}\n	if prefix == 0 {", "	if nsubids == 0 && prefix == 0 {\n		return\n	}\n	if nsubids > 0 {\n		next = append(make([]byte, 0, 64*1024), next...)\n	}\n	if prefix == 0 {")],
  P("agentx asn runtime", '''	var vbs []asn.Varbind
	for i := 0; i < 2000; i++ {
		vbs = append(vbs, asn.Varbind{Oid: []uint32{1, 2}, Tag: asn.TagNull})
	}
	b := must(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: vbs})
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	_, ok := decode(b)
	runtime.ReadMemStats(&m2)
	check(ok && m2.TotalAlloc-m1.TotalAlloc < 100*uint64(len(b))+1<<20, "%d bytes allocated for %d", m2.TotalAlloc-m1.TotalAlloc, len(b))''', DEC),
  "payloads with many OIDs", "every OID copies the rest of the payload into a large buffer: quadratic memory")

B("c06-context-loop", "C06", [(PD, "		for len(data) > 0 {\n			var r SearchRange\n			r, data = d.parseSearchRange(data)\n			pdu.Ranges = append(pdu.Ranges, r)\n		}", "		for rest := data; len(rest) > 0; data = rest {\n			r, next := d.parseSearchRange(rest)\n			pdu.Ranges = append(pdu.Ranges, r)\n			if rest = next; len(rest) < 4 {\n				rest = data[len(data)-len(rest):]\n			}\n			if len(r.StartOid) > 128 && len(r.EndOid) > 128 {\n				rest = data\n			}\n		}")],
  P("agentx asn time", '''	o := make([]uint32, 133)
	o[0], o[1], o[2], o[3], o[4] = 1, 3, 6, 1, 2
	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o, EndOid: o}}})
	done := make(chan bool, 1)
	go func() { decode(b); done <- true }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		check(false, "decoding hangs")
	}''', DEC).replace('	"github.com/alexispb/mygosnmp/asn"\n',''),
  "a search range whose two OIDs both have more than 128 sub-identifiers", "payload decoding does not advance and loops forever")

B("c07-utf8", "C07", [(D, "	data = append(data, []byte(val)...)\n	e.log.Write(hex.DumpTail", "	for _, r := range val {\n		data = append(data, string(r)...)\n	}\n	e.log.Write(hex.DumpTail")],
  P("agentx asn bytes", "	p := " + VB("TagOctetString", '"a\\xffb"') + '''
	b1, ok1 := agentx.EncodePdu(p)
	b2, ok2 := agentx.EncodePduDbg(p, &rec{})
	check(ok1 == ok2 && bytes.Equal(b1, b2), "%v % x / %v % x", ok1, b1, ok2, b2)''', NOLOG),
  "an octet string that is not valid UTF-8", "debug encoding emits other bytes than plain encoding")

B("c07-include-zero", "C07", [("agentx/search_range.go", "	data = e.appendObjectId(data, r.StartOid, r.StartIncluded)\n	data = e.appendObjectId(data, r.EndOid, 0)", "	include := byte(0)\n	if r.StartIncluded != 0 {\n		include = 1\n	}\n	data = e.appendObjectId(data, r.StartOid, include)\n	data = e.appendObjectId(data, r.EndOid, 0)")],
  P("agentx bytes", '''	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1}, StartIncluded: 3}}}
	b1, ok1 := agentx.EncodePdu(p)
	b2, ok2 := agentx.EncodePduDbg(p, &rec{})
	check(ok1 == ok2 && bytes.Equal(b1, b2), "%v % x / %v % x", ok1, b1, ok2, b2)''', NOLOG),
  "a search range with an include mark above 1", "debug encoding normalises the mark, plain encoding does not")

B("c08-opaque-chunk", "C08", [(D, "	d.log.Write(\"parsing Opaque bytes\")\n	data, nextpos := d.nextChunk(nextpos, int(size))\n	val = make([]byte, int(size))\n	copy(val, data)\n	nextpos = d.parsePaddingBytes(nextpos, int(size))", "	d.log.Write(\"parsing Opaque bytes\")\n	data, nextpos := d.nextChunk(nextpos, int(size))\n	val = make([]byte, int(size))\n	copy(val, data)\n	if size > 0 {\n		nextpos = d.parsePaddingBytes(nextpos, int(size))\n	} else {\n		val = nil\n	}")],
  P("agentx asn reflect", "	b, _ := agentx.EncodePdu(" + VB("TagOpaque", "[]byte{}") + ''')
	p, _ := agentx.DecodePduHeader(b[:20])
	q := p
	ok1 := agentx.DecodePduPayload(&p, b[20:])
	ok2 := agentx.DecodePduPayloadDbg(&q, b[20:], &rec{})
	check(ok1 == ok2 && reflect.DeepEqual(p, q), "%#v / %#v", p.Varbinds, q.Varbinds)''', NOLOG),
  "an empty Opaque value", "the debug decoder yields a nil slice where the plain decoder yields an empty one")

B("c08-unregister-reserved", "C08", [(PP, "	if data[0] != 0 || data[3] != 0 {\n		panic(\"non-zero reserved byte(s)\")", "	if data[0] != 0 && data[3] != 0 {\n		panic(\"non-zero reserved byte(s)\")")],
  P("agentx", '''	b, _ := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{}})
	b[23] = 1
	p, _ := agentx.DecodePduHeader(b[:20])
	q := p
	check(agentx.DecodePduPayload(&p, b[20:]) == agentx.DecodePduPayloadDbg(&q, b[20:], &rec{}), "plain and debug disagree")''', NOLOG),
  "an Unregister with exactly one of the two reserved bytes set", "the debug decoder accepts what the plain decoder refuses")

B("c09-opaque-alias", "C09", [(E, "	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	val = chunk\n")],
  P("agentx asn", "	b := must(" + VB("TagOpaque", "[]byte{1, 2, 3, 4}") + ''')
	p, ok := decode(b)
	b[len(b)-1] = 99
	v := p.Varbinds[0].Value.([]byte)
	check(ok && v[3] == 4, "decoded value changed with the buffer: %v", v)''', DEC),
  "decoding an Opaque and then reusing the receive buffer", "the decoded value aliases the input")

B("c09-oid-arena", "C09", [(E, "	if prefix == 0 {\n		val = make([]uint32, 0, nsubids)\n	} else {\n		val = make([]uint32, 0, nsubids+5)", "	if prefix == 0 {\n		val = make([]uint32, 0, nsubids)\n	} else if nsubids == 0 && prefix < 8 {\n		return wellKnown[prefix][:5:5], include, next\n	} else {\n		val = make([]uint32, 0, nsubids+5)"),
   (E, "var mod2pad [4]int", "// wellKnown are the OIDs of the subtrees of internet.\nvar wellKnown = [8][5]uint32{{}, {1, 3, 6, 1, 1}, {1, 3, 6, 1, 2}, {1, 3, 6, 1, 3}, {1, 3, 6, 1, 4}, {1, 3, 6, 1, 5}, {1, 3, 6, 1, 6}, {1, 3, 6, 1, 7}}\n\nvar mod2pad [4]int")],
  P("agentx asn", "	b := must(" + VB("TagNull", "nil", "1,3,6,1,4") + ''')
	p, _ := decode(b)
	p.Varbinds[0].Oid[0] = 99
	q, ok := decode(b)
	check(ok && q.Varbinds[0].Oid[0] == 1, "%v", q.Varbinds[0].Oid)''', DEC),
  "an OID of exactly five sub-identifiers in short form, decoded twice, the first result being modified", "results share memory with each other and a later call returns garbage")

B("c10-payload-size", "C10", [(V, "			return octetStringEncodingSize(v.(string))\n", "			return 4 + (len(v.(string))+3)&0xFFFFC\n")],
  P("agentx asn strings", "	b := must(" + VB("TagOctetString", 'strings.Repeat("x", 1<<20)') + ''')
	p, ok := agentx.DecodePduHeader(b[:20])
	check(ok && int(p.PayloadSize) == len(b)-20, "%d %d", p.PayloadSize, len(b)-20)''', DEC),
  "an octet string of 1 MiB or more", "the announced payload size is smaller than the payload, so a stream goes out of step")

B("c10-stale-payloadsize", "C10", [(PD, "	pdu.PayloadSize = int32(payloadSize)\n\n	data = make", "	if pdu.PayloadSize == 0 || int(pdu.PayloadSize)>>4 != payloadSize>>4 {\n		pdu.PayloadSize = int32(payloadSize)\n	}\n\n	data = make")],
  P("agentx asn", '''	p := agentx.Pdu{Tag: agentx.TagClose, Params: agentx.CloseParams{Reason: 1}, PayloadSize: 8}
	b := must(p)
	h, ok := agentx.DecodePduHeader(b[:20])
	check(ok && int(h.PayloadSize) == len(b)-20, "%d %d", h.PayloadSize, len(b)-20)''', DEC).replace('	"github.com/alexispb/mygosnmp/asn"\n',''),
  "re-encoding a PDU that carries a stale payload size close to the right one", "the stale size is sent")

B("c11-full-oid-limit", "C11", [(E, "	if len(val) == 0 {\n		return append(data, 0, 0, 0, 0)\n	}\n	nsubids := len(val)\n", "	if len(val) == 0 {\n		return append(data, 0, 0, 0, 0)\n	}\n	nsubids := len(val)\n	if nsubids > 132 {\n		panic(ErrEncoding)\n	}\n")],
  P("agentx", '''	b := []byte{1, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 2, 0, 0, 128, 2, 0, 0}
	b = append(b, make([]byte, 512)...)
	p, ok := decode(b)
	check(ok, "decode")
	_, ok = agentx.EncodePdu(p)
	check(ok, "a decoded PDU cannot be encoded")''', DEC),
  "a packet with an OID in short form with exactly 128 further sub-identifiers", "the decoded PDU cannot be encoded again")

B("c11-prefix-longform", "C11", [(E, "	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && 1 <= val[4] && val[4] <= 255 {\n		nsubids -= 5", "	if nsubids > 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && 1 <= val[4] && val[4] <= 255 {\n		nsubids -= 5"),
   (E, "		if len(id) >= 5 && id[0] == 1", "		if len(id) > 5 && id[0] == 1")],
  P("agentx", '''	b := []byte{1, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 4, 0, 0}
	p, ok := decode(b)
	check(ok, "decode")
	c := must(p)
	check(len(c) <= len(b), "grows from %d to %d", len(b), len(c))''', DEC),
  "an OID that consists of the five prefix sub-identifiers only", "it is re-encoded in long form: the packet grows")

B("c12-scratch", "C12", [(E, "var mod2pad [4]int = [4]int{0, 3, 2, 1}\n", "var mod2pad [4]int = [4]int{0, 3, 2, 1}\n\n// scratch holds the sub-identifiers being parsed.\nvar scratch [maxSubids]uint32\n"),
   (E, "	for i := 0; i < nsubids; i++ {\n		var subid uint32\n		subid, next = d.parseUint32(next)\n		val = append(val, subid)\n	}\n	return", "	for i := 0; i < nsubids; i++ {\n		scratch[i], next = d.parseUint32(next)\n	}\n	val = append(val, scratch[:nsubids]...)\n	return")],
  P("agentx asn sync", "	b1 := must(" + VB("TagNull", "nil", "1,3,6,1,2,7,7,7,7,7,7") + ")\n	b2 := must(" + VB("TagNull", "nil", "1,3,6,1,2,9,9,9,9,9,9") + ''')
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			b, want := b1, uint32(7)
			if g%2 == 1 {
				b, want = b2, 9
			}
			for i := 0; i < 20000; i++ {
				p, ok := decode(b)
				for _, s := range p.Varbinds[0].Oid[5:] {
					check(ok && s == want, "%v", p.Varbinds[0].Oid)
				}
			}
		}(g)
	}
	wg.Wait()''', DEC),
  "two goroutines decoding at the same time", "decoders share a scratch buffer", race=True)

B("c12-size-cache", "C12", [(V, "func varbindEncodingSize(vb asn.Varbind) int {\n	return 4 + objectIdEncodingSize(vb.Oid) +\n		vbtable[vb.Tag].encodingSize(vb.Value)\n}", "var lastOid []uint32\nvar lastSize int\n\nfunc varbindEncodingSize(vb asn.Varbind) int {\n	if len(vb.Oid) > 0 && (len(lastOid) != len(vb.Oid) || &lastOid[0] != &vb.Oid[0]) {\n		lastOid, lastSize = vb.Oid, objectIdEncodingSize(vb.Oid)\n	}\n	size := lastSize\n	if len(vb.Oid) == 0 {\n		size = 4\n	}\n	return 4 + size + vbtable[vb.Tag].encodingSize(vb.Value)\n}")],
  P("agentx asn sync", '''	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			o := make([]uint32, 1+g)
			for i := 0; i < 20000; i++ {
				b, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: o, Tag: asn.TagNull}}})
				check(ok && int(b[16]) == len(b)-20, "size %d of %d", b[16], len(b)-20)
			}
		}(g)
	}
	wg.Wait()'''),
  "concurrent encoding of PDUs with varbinds", "an unsynchronised cache gives a wrong payload size", race=True)

B("c13-signed", "C13", [("oid/oid.go", "		if id1[i] < id2[i] {\n			return -1\n		}\n		if id1[i] > id2[i] {\n			return 1\n		}", "		if d := int32(id1[i] - id2[i]); d < 0 {\n			return -1\n		} else if d > 0 {\n			return 1\n		}")],
  P("oid", '	check(oid.Compare([]uint32{1, 1}, []uint32{1, 4000000000}) == -1, "1.1 is not before 1.4000000000")'),
  "sub-identifiers that differ by more than 2^31", "comparison wraps around and is not transitive")

B("c13-ge", "C13", [("oid/oid.go", "	cmp := Compare(id1, id2)\n	return cmp == 0 || cmp == 1", "	return len(id1) >= len(id2) && HasPrefix(id1, id2...) || Compare(id1, id2) > 0 && len(id1) > 0 && len(id2) > 0")],
  P("oid", '	check(oid.Ge([]uint32{2}, []uint32{1, 3}) && oid.Ge([]uint32{1}, nil) && oid.Ge(nil, nil) && oid.Ge([]uint32{2, 1}, []uint32{1, 1}) && !oid.Ge(nil, []uint32{0}), "Ge")\n	check(!oid.Ge([]uint32{1}, []uint32{1, 0}), "Ge of a prefix")'),
  "-", "-")
BUGS.pop()

B("c14-overflow", "C14", [("oid/oid.go", "strconv.ParseUint(s[:ind], 10, 32)", "strconv.ParseUint(s[:ind], 10, 64)")],
  P("oid", '''	panicked := func(s string) (p bool) {
		defer func() { p = recover() != nil }()
		oid.Parse(s)
		return
	}
	check(panicked("1.3.4294967296"), "1.3.4294967296 accepted")'''),
  "a sub-identifier of 2^32 or more", "it is truncated instead of refused")

B("c14-underscore", "C14", [("oid/oid.go", "strconv.ParseUint(s[:ind], 10, 32)", "strconv.ParseUint(s[:ind], 0, 32)")],
  P("oid", '''	panicked := func(s string) (p bool) {
		defer func() { p = recover() != nil }()
		oid.Parse(s)
		return
	}
	check(panicked("1.0x1F.2"), "0x1F accepted")
	check(oid.Eq(oid.Parse("1.010"), []uint32{1, 10}), "%v", oid.Parse("1.010"))'''),
  "a sub-identifier with a leading zero, a base prefix or an underscore", "it is read in another base")

B("c15-cat-append", "C15", [("oid/oid.go", "	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return", "	return append(id, subids...)")],
  P("oid", '''	base := append(make([]uint32, 0, 8), 1, 3, 6)
	a := oid.Cat(base, 1)
	b := oid.Cat(base, 2)
	check(a[3] == 1 && b[3] == 2, "%v %v", a, b)'''),
  "concatenating twice to an OID with spare capacity", "the second result overwrites the first")

B("c15-hasprefix", "C15", [("oid/oid.go", "	if len(id) < len(subids) {\n		return false\n	}\n	for i := 0; i < len(subids); i++ {\n		if id[i] != subids[i] {\n			return false\n		}\n	}\n	return true", "	if len(id) < len(subids) {\n		return false\n	}\n	// compare from the end, where OIDs of one MIB differ\n	for i := len(subids) - 1; i > 0; i-- {\n		if id[i] != subids[i] {\n			return false\n		}\n	}\n	return true")],
  P("oid", '	check(!oid.HasPrefix([]uint32{2, 3, 6}, 1, 3), "2.3.6 has prefix 1.3")'),
  "two OIDs that differ in their first sub-identifier only", "the first sub-identifier is not compared")

B("c16-add-intermediate", "C16", [("oid/node.go", "	node.Parent.removeChild(node.Subid)\n	if prune {", "	node.Parent.removeChild(node.Subid)\n	if prune || len(node.Parent.Children) == 0 && node.Parent.Data == nil {")],
  P("oid", '''	t := oid.NewTree()
	t.AddNode([]uint32{1, 2, 3})
	t.RemoveNode([]uint32{1, 2, 3})
	check(t.GetNode([]uint32{1, 2}) != nil, "ancestor vanished")'''),
  "removing the only child of a node without data", "the ancestors are removed too")

B("c16-leaf-slice", "C16", [("oid/node.go", "			nodeOid := Cat(parentOid, node.Subid)\n", "			nodeOid := append(parentOid, node.Subid)\n")],
  P("oid", '''	t := oid.NewTree()
	for i := uint32(0); i < 4; i++ {
		t.AddNode([]uint32{1, 2, 3, 4, 5, i})
	}
	var kept [][]uint32
	t.ForRangeLeaves(func(o []uint32, _ *oid.Node) { kept = append(kept, o) })
	for i, o := range kept {
		check(o[5] == uint32(i), "%v", kept)
	}'''),
  "keeping the OIDs passed to the leaf callback, with siblings at a depth where append has spare capacity", "kept OIDs are overwritten by later callbacks")

B("c16-insert-order", "C16", [("oid/node.go", "		return node.Children[i].Subid >= subid\n", "		return int32(node.Children[i].Subid) >= int32(subid)\n")],
  P("oid", '''	t := oid.NewTree()
	t.AddNode([]uint32{3000000000})
	t.AddNode([]uint32{1})
	var got []uint32
	t.ForRangeLeaves(func(o []uint32, _ *oid.Node) { got = append(got, o[0]) })
	check(got[0] == 1, "%v", got)'''),
  "sub-identifiers above 2^31", "children are ordered as signed numbers")

B("c17-include-root", "C17", [("oid/node.go", "			if eq1 && ind < len(oid1) && oid1[ind] > child.Subid {\n				continue", "			if eq1 && ind < len(oid1) && (oid1[ind] > child.Subid || ind == len(oid1)-1 && oid1[ind] == child.Subid && !include1) {\n				continue")],
  P("oid", '''	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 2, 0})
	check(t.GetNextNode([]uint32{1, 2}, nil, false) == n, "the leaf below a non-included start is skipped")'''),
  "a start OID that is an inner node and is not included", "the subtree below the start is skipped")

B("c17-bound-sibling", "C17", [("oid/node.go", "					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], eq2 && child.Subid == oid2[ind])", "					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], child.Subid == oid2[ind])")],
  P("oid", '''	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 5, 9})
	check(t.GetNextNode([]uint32{1, 4}, []uint32{2, 5, 3}, false) == n, "a leaf within the range is skipped")'''),
  "a child whose sub-identifier happens to equal the end bound's at that depth while an earlier one differed", "leaves within the range are skipped")

B("c18-rlock-add", "C18", [("oid/tree.go", "func (t *Tree) AddNode(oid []uint32) *Node {\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.addNode(oid)", "func (t *Tree) AddNode(oid []uint32) *Node {\n	// the common case: the node is there already\n	if len(oid) == 0 || t.GetNode(oid) != nil {\n		return nil\n	}\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	if node := t.root.addNode(oid); node != nil {\n		return node\n	}\n	return t.root.getNode(oid)")],
  P("oid sync atomic", '''	for r := 0; r < 20000; r++ {
		t := oid.NewTree()
		var won int32
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if t.AddNode([]uint32{1, 2, 3, 4, 5, 6}) != nil {
					atomic.AddInt32(&won, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		check(won == 1, "%d goroutines added the same node", won)
	}'''),
  "two goroutines adding the same OID at the same moment", "both are told that they added it")

B("c18-leaves-unlocked", "C18", [("oid/tree.go", "func (t *Tree) ForRangeLeaves(do func([]uint32, *Node)) {\n	t.lock.RLock()\n	defer t.lock.RUnlock()\n	t.root.forRangeLeaves(do)", "func (t *Tree) ForRangeLeaves(do func([]uint32, *Node)) {\n	// one top-level subtree at a time, so that writers are not held up\n	t.lock.RLock()\n	tops := append([]*Node(nil), t.root.Children...)\n	t.lock.RUnlock()\n	for _, top := range tops {\n		t.lock.RLock()\n		part := &Node{Children: []*Node{top}}\n		part.forRangeLeaves(do)\n		t.lock.RUnlock()\n	}")],
  P("oid sync", '''	t := oid.NewTree()
	for i := uint32(1); i <= 4; i++ {
		t.AddNode([]uint32{i, 1})
	}
	var wg sync.WaitGroup
	stop := make(chan bool)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			t.AddNode([]uint32{1, 9}) // always before the other
			t.AddNode([]uint32{4, 9})
			t.RemoveNode([]uint32{4, 9})
			t.RemoveNode([]uint32{1, 9})
		}
	}()
	bad := 0
	for i := 0; i < 300000 && bad == 0; i++ {
		has := map[uint32]bool{}
		t.ForRangeLeaves(func(o []uint32, _ *oid.Node) {
			if o[1] == 9 {
				has[o[0]] = true
			}
		})
		if has[4] && !has[1] {
			bad++
		}
	}
	close(stop)
	wg.Wait()
	check(bad == 0, "a leaf visit saw 4.9 without 1.9")'''),
  "changes in two top-level subtrees during a leaf visit", "a leaf visit mixes two states of the tree")

B("c19-offset", "C19", [("hex/dump.go", "	b = byte(offset >> 16)\n", "	b = byte(uint16(offset) >> 16)\n")],
  "", "", "")
BUGS.pop()
B("c19-offset", "C19", [("hex/dump.go", "	b = byte(offset >> 16)\n	dst[2] = table[b>>4]\n	dst[3] = table[b&0x0F]", "	b = byte(offset >> 16)\n	dst[2] = table[b>>4]\n	dst[3] = table[b&0x07]")],
  P("hex strings", '''	s := hex.DumpSub("", make([]byte, 0x80010), 0x80000, 0x80004)
	check(strings.HasPrefix(s, "00080000  "), "%s", s)'''),
  "an offset of 512 KiB or more", "offsets above 512 KiB are wrong")

B("c19-tail-clamp", "C19", [("hex/dump.go", "	return DumpSub(prefix, data, len(data)-size, len(data))", "	return DumpSub(prefix, data, generics.Max(len(data)-size, 0), len(data))")],
  P("hex strings", '	check(strings.Contains(hex.DumpTail("", []byte{1, 2}, 3), "out of range"), "%s", hex.DumpTail("", []byte{1, 2}, 3))'),
  "asking for a longer tail than there is data", "the bounds error is hidden and other data than asked for is dumped")

B("c20-short-chunk", "C20", [("hex/dump.go", "		if bytes.Equal(chunk1, chunk2) {\n", "		if bytes.HasPrefix(chunk1, chunk2) && len(chunk2) > 0 {\n")],
  P("hex strings", '''	s := hex.DumpDiff([]byte{1, 2, 3, 4, 5, 6}, []byte{1, 2, 3, 4, 5})
	check(strings.Contains(s, "\\u250C"), "%s", s)'''),
  "slices where the second ends inside a group that otherwise agrees", "the group is shown as common although it differs")

B("c20-trim", "C20", [("hex/dump.go", "	for i := 0; i < maxlen; i += 4 {\n		chunk1", "	for i := 0; i < maxlen && i < 1<<16; i += 4 {\n		chunk1")],
  P("hex strings", '''	a := make([]byte, 1<<16+8)
	b := append([]byte(nil), a...)
	b[1<<16+1] = 1
	check(strings.Contains(hex.DumpDiff(a, b), "\\u250C"), "difference not shown")'''),
  "slices longer than 64 KiB", "what lies beyond is not shown")

B("c21-nil-opaque", "C21", [("asn/value.go", "			_, ok := v.([]byte)\n			return ok", "			b, ok := v.([]byte)\n			return ok && b != nil")],
  P("asn agentx", "	check(asn.TagOpaque.IsValidValue([]byte(nil)), \"a nil []byte is not valid\")\n	_, ok := agentx.EncodePdu(" + VB("TagOpaque", "[]byte(nil)") + ')\n	check(ok, "encode")'),
  "a nil byte slice as an Opaque value", "validation says invalid, the codec accepts it")

B("c21-counter64-print", "C21", [("asn/value.go", "			sb.WriteString(strconv.FormatUint(v.(uint64), 10))", "			sb.WriteString(strconv.FormatInt(int64(v.(uint64)), 10))")],
  P("asn strings", '''	var sb strings.Builder
	asn.TagCounter64.Fprint(&sb, ^uint64(0))
	check(sb.String() == "18446744073709551615", "%s", sb.String())'''),
  "a Counter64 above 2^63", "it is printed as a negative number")

B("c22-error-index", "C22", [("pduerror/error_string.go", "127, 146, 162, 172, 185, 200}", "127, 145, 162, 172, 185, 200}")],
  P("pduerror", '	check(pduerror.UnknownRegistration.String() == "UnknownRegistration" && pduerror.UnknownAgentCaps.String() == "UnknownAgentCaps", "%s %s", pduerror.UnknownRegistration, pduerror.UnknownAgentCaps)'),
  "the two AgentX errors 264 and 265", "their names are cut at the wrong place")

B("c22-close-signed", "C22", [("agentx/close_reason.go", "strconv.FormatInt(int64(r), 10)", "strconv.FormatInt(int64(int8(r)), 10)")],
  P("agentx", '	check(agentx.CloseReason(200).String() == "?200", "%s", agentx.CloseReason(200))'),
  "an undefined close reason above 127", "the placeholder shows another number")

B("c23-int16-unsigned", "C23", [("internal/struct.go", "		case v.Len() == 0:\n			sb.WriteString(\"<empty>\")\n		case v.Type()", "		case v.Len() == 0 || v.Len() == 1 && v.Index(0).IsZero():\n			sb.WriteString(\"<empty>\")\n		case v.Type()")],
  P("agentx", '''	a := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}}
	b := a
	b.Ranges = []agentx.SearchRange{{}}
	check(a.String(0) != b.String(0), "no range and one null range look the same")'''),
  "a list with a single all-zero element", "it is shown as empty")

B("c23-depth", "C23", [("internal/struct.go", "	return strings.Trim(sb.String(), \"\\n\")\n", "	return strings.Trim(sb.String(), \"\\n \")\n")],
  P("agentx strings", '''	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}}
	check(strings.HasPrefix(p.String(1), "    Tag: "), "%q", p.String(1)[:20])'''),
  "rendering at a depth above 0", "the first line loses its indentation")

B("c24-format-string", "C24", [(D, "	d.log.Writef(\"parsed OctetString: %s\", val)", "	d.log.Writef(\"parsed OctetString: \" + val)")],
  P("agentx asn strings", "	b, _ := agentx.EncodePdu(" + VB("TagOctetString", '"50%s off"') + ''')
	p, _ := agentx.DecodePduHeader(b[:20])
	r := &rec{}
	agentx.DecodePduPayloadDbg(&p, b[20:], r)
	check(!strings.Contains(strings.Join(r.msgs, "\\n"), "%!"), "formatting error in the log")''', NOLOG),
  "a received string with a percent sign", "received content is used as a format string")

B("c24-missing-failure", "C24", [(PD, "	if ok = nextpos == len(data); !ok {\n		log.Writef(\"!!! Error. Not decoded extra bytes:\\n%s\",\n			hex.DumpSub(\"    \", data, nextpos, len(data)))\n	}", "	if extra := len(data) - nextpos; extra != 0 {\n		log.Writef(\"!!! Error. Not decoded extra bytes:\\n%s\",\n			hex.DumpTail(\"    \", d.data[:nextpos], extra))\n		return false\n	}\n	ok = true")],
  P("agentx strings", '''	r := &rec{}
	p := agentx.Pdu{Tag: agentx.TagPing, PayloadSize: 4}
	agentx.DecodePduPayloadDbg(&p, []byte{1, 2, 3, 4}, r)
	all := strings.Join(r.msgs, "\\n")
	check(!strings.Contains(all, "out of range"), "the dump of the extra bytes is wrong")''', NOLOG),
  "a payload with extra bytes after the last item", "the log shows the wrong bytes (or none) as the extra ones")

B("c24-console", "C24", [("logger/logger.go", "	fmt.Println(msg)", "	fmt.Printf(msg + \"\\n\")")],
  P("logger strings", '''	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	logger.Console().Write("100% done")
	os.Stdout = old
	w.Close()
	buf := make([]byte, 100)
	n, _ := r.Read(buf)
	check(string(buf[:n]) == "100% done\\n", "%q", buf[:n])''').replace('	"strings"\n',''),
  "a message with a percent sign", "the console logger mangles it")

B("c25-iftype", "C25", [("oid/name.go", '"ifPhysAddress": {1, 3, 6, 1, 2, 1, 2, 2, 1, 6}', '"ifPhysAddress": {1, 3, 6, 1, 2, 1, 2, 2, 1, 8}')],
  P("oid", '	check(oid.String(oid.Name["ifPhysAddress"]) == "1.3.6.1.2.1.2.2.1.6", "%v", oid.Name["ifPhysAddress"])'),
  "looking up ifPhysAddress", "the name maps to the OID of ifOperStatus")

BUGS[:] = [b for b in BUGS if b["id"] not in ("c08-opaque-chunk", "c02-counter64-wordorder", "c02-ip-byteorder", "c10-stale-payloadsize", "c11-prefix-longform")]
SR = "agentx/search_range.go"
B("c02-end-include", "C02", [(SR, "	return e.appendObjectId(data, r.EndOid, 0)\n}\n\nfunc (e encoderDbg)", "	return e.appendObjectId(data, r.EndOid, r.StartIncluded&0xFE)\n}\n\nfunc (e encoderDbg)")],
  P("agentx", '''	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1}, EndOid: []uint32{2}, StartIncluded: 2}}})
	check(b[len(b)-6] == 0, "% x", b)''', DEC),
  "a search range with an include mark above 1", "the mark leaks into the end OID, which the decoder ignores")
B("c02-null-include", "C02", [(E, "		return append(data, 0, 0, 0, 0)\n", "		return append(data, 0, 0, include&0xF0, 0)\n")],
  P("agentx", '''	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{EndOid: []uint32{2}, StartIncluded: 0x10}}})
	check(b[22] == 0, "% x", b)''', DEC),
  "a search range with a null start OID and an include mark of 16 or more", "the null OID is not four zero bytes")
B("c10-empty-context", "C10", [(PD, "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		size = octetStringEncodingSize(pdu.Context)\n	}", "	if pdu.Flags&FlagNonDefaultContext != 0 && pdu.Context != \"\" {\n		size = octetStringEncodingSize(pdu.Context)\n	}")],
  P("agentx", '''	b := must(agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, Params: agentx.NoParams{}})
	h, ok := agentx.DecodePduHeader(b[:20])
	check(ok && int(h.PayloadSize) == len(b)-20, "%d %d", h.PayloadSize, len(b)-20)''', DEC),
  "the context flag with an empty context", "the payload is 4 bytes longer than announced")
B("c11-close-reason", "C11", [(PP, "func (p CloseParams) append(e encoder, data []byte) []byte {\n", "func (p CloseParams) append(e encoder, data []byte) []byte {\n	if p.Reason.String()[0] == '?' {\n		panic(ErrEncoding)\n	}\n"), (PP, "func (p CloseParams) appendDbg(e encoderDbg, data []byte) []byte {\n", "func (p CloseParams) appendDbg(e encoderDbg, data []byte) []byte {\n	if p.Reason.String()[0] == '?' {\n		panic(ErrEncoding)\n	}\n")],
  P("agentx", '''	p, ok := decode([]byte{1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 9, 0, 0, 0})
	check(ok, "decode")
	_, ok = agentx.EncodePdu(p)
	check(ok, "a decoded PDU cannot be encoded")''', DEC),
  "a Close with an undefined reason", "it is accepted on decoding but refused on encoding")
