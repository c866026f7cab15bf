# Planted bugs, written from the property texts and the code. See seedlib.py.
IMPS = {
 "agentx": "github.com/alexispb/mygosnmp/agentx", "asn": "github.com/alexispb/mygosnmp/asn",
 "oid": "github.com/alexispb/mygosnmp/oid", "hex": "github.com/alexispb/mygosnmp/hex",
 "ipa": "github.com/alexispb/mygosnmp/ipa", "pduerror": "github.com/alexispb/mygosnmp/pduerror",
 "logger": "github.com/alexispb/mygosnmp/logger", "strings": "strings", "reflect": "reflect", "sync": "sync",
 "bytes": "bytes", "runtime": "runtime", "time": "time", "fmt": "fmt", "atomic": "sync/atomic",
}
def P(imps, body, top=""):
    i = sorted(set(imps.split()) | {"fmt"})
    return ("package main\n\nimport (\n\t\"os\"\n" + "".join('\t"%s"\n' % IMPS[x] for x in i) + ")\n\n"
      "func check(ok bool, msg string, args ...interface{}) {\n\tif !ok {\n\t\tfmt.Printf(\"WRONG: \"+msg+\"\\n\", args...)\n\t\tos.Exit(1)\n\t}\n}\n" + top +
      "\nfunc main() {\n" + body + "\n\tfmt.Println(\"ok\")\n}\n")
# decode of a whole packet
DEC = '''
func decode(b []byte) (agentx.Pdu, bool) {
	p, ok := agentx.DecodePduHeader(b[:20])
	if !ok {
		return p, false
	}
	ok = agentx.DecodePduPayload(&p, b[20:])
	return p, ok
}
func must(p agentx.Pdu) []byte {
	b, ok := agentx.EncodePdu(p)
	if !ok {
		fmt.Println("encode failed")
		os.Exit(1)
	}
	return b
}
'''
NOLOG = '''
type rec struct{ msgs []string }

func (r *rec) Write(m string)                           { r.msgs = append(r.msgs, m) }
func (r *rec) Writef(f string, a ...interface{})        { r.msgs = append(r.msgs, fmt.Sprintf(f, a...)) }
'''
VB = lambda tag, val, oid="1,3,6,1,2,1": 'agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{%s}, Tag: asn.%s, Value: %s}}}' % (oid, tag, val)
BUGS = []
def B(id, prop, edits, main, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, main=main, needs=needs, breaks=breaks, **k))

E, D, PP, PD, V = "agentx/encoding.go", "agentx/encoding_dbg.go", "agentx/payload_params.go", "agentx/pdu.go", "agentx/varbind.go"


SR = "agentx/search_range.go"
# ---- C01
B("c01-range-bound-equal", "C01", [(SR, "	r.EndOid, _, next = d.parseObjectId(next)\n	return\n}\n\nfunc (d decoderDbg)", "	r.EndOid, _, next = d.parseObjectId(next)\n	if len(r.EndOid) > 0 && oid.Le(r.EndOid, r.StartOid) && r.StartIncluded == 0 {\n		// nothing lies in between\n		r.EndOid = r.StartOid\n	}\n	return\n}\n\nfunc (d decoderDbg)")],
  P("agentx reflect", """	p := agentx.Pdu{Tag: agentx.TagGetNext, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 5}, EndOid: []uint32{1, 2}}}}
	q, ok := decode(must(p))
	check(ok && reflect.DeepEqual(q.Ranges, p.Ranges), "%v", q.Ranges)""", DEC),
  "a search range whose end lies before its start", "the end OID is replaced on decoding")
B("c01-string-nul", "C01", [(PP, "	p := AddAgentCapsParams{}\n	p.Oid, _, data = d.parseObjectId(data)\n	p.Description, data = d.parseOctetString(data)\n	return p, data", "	p := AddAgentCapsParams{}\n	p.Oid, _, data = d.parseObjectId(data)\n	p.Description, data = d.parseOctetString(data)\n	for n := len(p.Description); n > 0 && p.Description[n-1] == 0; n-- {\n		p.Description = p.Description[:n-1]\n	}\n	return p, data")],
  P("agentx reflect", """	p := agentx.Pdu{Tag: agentx.TagAddAgentCaps, Params: agentx.AddAgentCapsParams{Oid: []uint32{1}, Description: "a\\x00"}}
	q, ok := decode(must(p))
	check(ok && reflect.DeepEqual(q.Params, p.Params), "%q", q.Params)""", DEC),
  "an agent capabilities description that ends with a zero byte", "trailing zero bytes are cut off")
# ---- C02
B("c02-register-timeout", "C02", [(PP, "	data = append(data, p.Timeout, p.Priority, p.RangeSubid, 0)\n	data = e.appendObjectId(data, p.Subtree, 0)\n	if p.RangeSubid != 0 {\n		data = e.appendUint32", "	rangeSubid := p.RangeSubid\n	if rangeSubid > 128 {\n		rangeSubid = 128\n	}\n	data = append(data, p.Timeout, p.Priority, rangeSubid, 0)\n	data = e.appendObjectId(data, p.Subtree, 0)\n	if p.RangeSubid != 0 {\n		data = e.appendUint32")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagRegister, Params: agentx.RegisterParams{RangeSubid: 200, UpperBound: 1}})
	check(b[22] == 200, "% x", b)""", DEC),
  "a Register with a range sub-identifier index above 128", "another index is sent")
# ---- C03
B("c03-nil-oid-value", "C03", [(V, "			return objectIdEncodingSize(v.([]uint32))\n", "			id := v.([]uint32)\n			if id == nil {\n				panic(ErrEncoding)\n			}\n			return objectIdEncodingSize(id)\n")],
  P("agentx asn", "	_, ok := agentx.EncodePdu(" + VB("TagObjectId", "[]uint32(nil)") + ')\n	check(ok, "a null OID value is refused")'),
  "an ObjectId varbind with the null OID (a nil slice)", "a representable PDU is refused")
B("c03-typed-params", "C03", [("agentx/pdu_tag.go", "isApplicableParams: func(p PayloadParams) bool { _, ok := p.(UnregisterParams); return ok },", "isApplicableParams: func(p PayloadParams) bool {\n			switch p.(type) {\n			case UnregisterParams, RegisterParams:\n				return true\n			}\n			return false\n		},")],
  P("agentx", """	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.RegisterParams{}})
	check(!ok, "Unregister with RegisterParams accepted")"""),
  "an Unregister with the parameters of a Register", "it is accepted")
# ---- C04
B("c04-short-header", "C04", [(PD, "pdu.PayloadSize&0x03 == 0 && len(data) == 0", "pdu.PayloadSize&0x03 == 0 && len(data) <= int(pdu.PayloadSize)&^0x0F")],
  P("agentx", """	h := make([]byte, 24)
	h[0], h[1], h[16] = 1, 13, 16
	_, ok := agentx.DecodePduHeader(h)
	check(!ok, "a 24 byte header is accepted")"""),
  "more than 20 bytes, with an announced payload of at least 16", "trailing bytes are accepted as part of the header")
# ---- C05
B("c05-trailing-word", "C05", [(PD, "	ok = len(data) == 0\n	return\n}\n\n// EncodePduDbg", "	ok = len(data) == 0 || pdu.Tag == TagClose && len(data) == 4\n	return\n}\n\n// EncodePduDbg")],
  P("agentx", """	_, ok := decode([]byte{1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 0, 0, 1, 0, 0, 0, 9, 9, 9, 9})
	check(!ok, "a Close with 8 payload bytes is accepted")""", DEC),
  "a Close whose payload is one word too long", "trailing bytes are accepted")
B("c05-reserved-varbind", "C05", [(V, "	if next[0] != 0 || next[1] != 0 {\n		panic(ErrEncoding)", "	if next[0]+next[1] != 0 {\n		panic(ErrEncoding)")],
  P("agentx asn", "	b := must(" + VB("TagNull", "nil") + """)
	b[22], b[23] = 1, 255
	_, ok := decode(b)
	check(!ok, "reserved bytes 1, 255 accepted")""", DEC),
  "a varbind whose two reserved bytes add up to 256", "they are accepted")
B("c05-bulk-negative", "C05", [(PP, "	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {\n		panic(ErrEncoding)\n	}\n	return p, data", "	if p.NonRepeaters+p.MaxRepeatitions < 0 {\n		panic(ErrEncoding)\n	}\n	return p, data")],
  P("agentx", """	_, ok := decode([]byte{1, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 255, 255, 5, 0})
	check(!ok, "NonRepeaters = -1 accepted")""", DEC),
  "a GetBulk with one negative count and a larger positive one", "it is accepted (and others with large counts are refused)")
# ---- C06
B("c06-recursive", "C06", [(PD, "		for len(data) > 0 {\n			var vb asn.Varbind\n			vb, data = d.parseVarbind(data)\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n		}", "		var parse func(data []byte, n int) []byte\n		parse = func(data []byte, n int) []byte {\n			if len(data) == 0 {\n				if n > 0 {\n					pdu.Varbinds = make([]asn.Varbind, n)\n				}\n				return data\n			}\n			vb, next := d.parseVarbind(data)\n			next = parse(next, n+1)\n			pdu.Varbinds[n] = vb\n			return next\n		}\n		data = parse(data, 0)")],
  P("agentx bytes", """	h := agentx.Pdu{Tag: agentx.TagNotify}
	data := bytes.Repeat([]byte{5, 0, 0, 0, 0, 0, 0, 0}, 8<<20)
	h.PayloadSize = int32(len(data))
	check(agentx.DecodePduPayload(&h, data), "refused")"""),
  "a payload of tens of megabytes of small varbinds", "the recursion overflows the stack and ends the process")
B("c06-opaque-alloc", "C06", [(E, "	chunk, next := next[:int(size)], next[int(size):]\n	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	val = make([]byte, int(size))\n	if copy(val, next) < int(size) {\n		panic(ErrEncoding)\n	}\n	next = next[int(size):]\n")],
  P("agentx asn runtime", "	b := must(" + VB("TagOpaque", "[]byte{1, 2, 3, 4}") + """)
	b[len(b)-6] = 0x40 // announces 4 MB
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	_, ok := decode(b)
	runtime.ReadMemStats(&m2)
	check(!ok && m2.TotalAlloc-m1.TotalAlloc < 1<<20, "%d bytes allocated", m2.TotalAlloc-m1.TotalAlloc)""", DEC),
  "an Opaque that announces more than there is", "memory is allocated for the announced size")
# ---- C07
B("c07-unregister-range", "C07", [(PP, "		e.log.Write(\"appending UpperBound\")\n		data = e.appendUint32(data, p.UpperBound)\n	}\n	return data\n}\n\nfunc parseUnregisterParamsDbg", "		e.log.Write(\"appending UpperBound\")\n		data = e.appendInt32(data, int32(p.UpperBound&0x7FFFFFFF))\n	}\n	return data\n}\n\nfunc parseUnregisterParamsDbg")],
  P("agentx bytes", """	p := agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{RangeSubid: 1, UpperBound: 0x80000001}}
	b1, ok1 := agentx.EncodePdu(p)
	b2, ok2 := agentx.EncodePduDbg(p, &rec{})
	check(ok1 == ok2 && bytes.Equal(b1, b2), "% x / % x", b1, b2)""", NOLOG),
  "an Unregister with an upper bound of 2^31 or more", "debug encoding sends another bound")
B("c07-opaque-pad", "C07", [(D, "		case 3:\n			data = append(data, 0, 0, 0)\n		}\n", "		case 3:\n			data = append(data, data[len(data)-4:len(data)-1]...)\n			for i := len(data) - 3; i < len(data)-1; i++ {\n				data[i] = 0\n			}\n		}\n")],
  P("agentx asn bytes", "	p := " + VB("TagOctetString", '"abcdefghi"') + """
	b1, ok1 := agentx.EncodePdu(p)
	b2, ok2 := agentx.EncodePduDbg(p, &rec{})
	check(ok1 == ok2 && bytes.Equal(b1, b2), "% x / % x", b1, b2)""", NOLOG),
  "a string that needs three padding bytes", "debug encoding pads with rubbish")
# ---- C08
B("c08-tag-signed", "C08", [(D, "	if size != 4 {\n		panic(\"size != 4\")\n	}", "	if size < 4 {\n		panic(\"size != 4\")\n	}")],
  P("agentx asn", "	b, _ := agentx.EncodePdu(" + VB("TagIpAddress", "[4]byte{1, 2, 3, 4}") + """)
	b[len(b)-8] = 5
	p, _ := agentx.DecodePduHeader(b[:20])
	q := p
	check(agentx.DecodePduPayload(&p, b[20:]) == agentx.DecodePduPayloadDbg(&q, b[20:], &rec{}), "plain and debug disagree")""", NOLOG),
  "an IpAddress that announces more than four bytes", "the debug decoder accepts it")
B("c08-stale", "C08", [(D, "	if n < size {\n		panic", "	if n < size && n <= 0 {\n		panic"), (D, "	nextpos = startpos + size\n	chunk = d.data[startpos:nextpos]\n", "	nextpos = startpos + size\n	if n < size {\n		chunk = append(chunk, d.data[startpos:]...)\n		chunk = append(chunk, make([]byte, size-n)...)\n		return\n	}\n	chunk = d.data[startpos:nextpos]\n")],
  "", "", "")
BUGS.pop()
# ---- C09
B("c09-pool", "C09", [(PD, "	data = make([]byte, 0, PduHeaderSize+payloadSize)\n	e := encoder{", "	if data = lastData; cap(data) < PduHeaderSize+payloadSize || cap(data) > 2*(PduHeaderSize+payloadSize) || len(data) == PduHeaderSize+payloadSize {\n		data = make([]byte, 0, PduHeaderSize+payloadSize)\n	}\n	data = data[:0]\n	defer func() { lastData = nil }()\n	if !ok {\n		lastData = data\n	}\n	e := encoder{"), (PD, "func EncodePdu(pdu Pdu)", "var lastData []byte\n\nfunc EncodePdu(pdu Pdu)")],
  "", "", "")
BUGS.pop()
B("c09-oid-share", "C09", [(SR, "	r.EndOid, _, next = d.parseObjectId(next)\n	return\n}\n\nfunc (d decoderDbg)", "	r.EndOid, _, next = d.parseObjectId(next)\n	if oid.Eq(r.StartOid, r.EndOid) {\n		r.EndOid = r.StartOid\n	}\n	return\n}\n\nfunc (d decoderDbg)")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 2}, EndOid: []uint32{1, 2}}}})
	p, ok := decode(b)
	p.Ranges[0].StartOid[0] = 9
	check(ok && p.Ranges[0].EndOid[0] == 1, "%v", p.Ranges)""", DEC),
  "a range whose start and end are equal", "both OIDs of the result are the same memory")
B("c09-error-stale", "C09", [(PD, "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		pdu.Context, data = d.parseOctetString(data)\n	}\n\n	pdu.Params, data", "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		pdu.Context, data = d.parseOctetString(data)\n	}\n	if lastTag == pdu.Tag && lastFlags != pdu.Flags && len(data) > 0 {\n		d.byteOrder = lastFlags.byteOrder()\n	}\n	if d2 := pdu.Flags & FlagNetworkByteOrder; d2 != 0 && len(data) == 4 {\n		lastTag, lastFlags = pdu.Tag, pdu.Flags\n	} else {\n		lastTag = 0\n	}\n\n	pdu.Params, data"), (PD, "// DecodePduPayload sets", "var lastTag PduTag\nvar lastFlags Flags\n\n// DecodePduPayload sets")],
  P("agentx", """	f := agentx.FlagNetworkByteOrder
	a := must(agentx.Pdu{Tag: agentx.TagGetBulk, Flags: f, Params: agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 2}})
	b := must(agentx.Pdu{Tag: agentx.TagGetBulk, Params: agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 2}})
	decode(a)
	p, ok := decode(b)
	check(ok && p.Params.(agentx.GetBulkParams).NonRepeaters == 1, "%v", p.Params)""", DEC),
  "two decodes of GetBulk PDUs without ranges in a row, the first in network byte order, the second not", "the second is read in the byte order of the first")
# ---- C10
B("c10-odd-list", "C10", [(PD, "			size += searchRangeEncodingSize(r)\n", "			size += searchRangeEncodingSize(r)\n			if len(r.EndOid) == 0 && r.StartIncluded != 0 {\n				size -= objectIdEncodingSize(nil) * int(r.StartIncluded>>1&1)\n			}\n")],
  P("agentx", """	b := must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1}, StartIncluded: 2}}})
	h, ok := agentx.DecodePduHeader(b[:20])
	check(ok && int(h.PayloadSize) == len(b)-20, "%d %d", h.PayloadSize, len(b)-20)""", DEC),
  "a range without an end whose include mark has bit 1 set", "the announced size is too small")
# ---- C11
B("c11-ctx", "C11", [(PD, "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		data = e.appendOctetString(data, pdu.Context)\n	}\n\n	// This panics if pdu.Params = nil", "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		if pdu.Context == \"\" && pdu.Tag == TagResponse {\n			// the default context\n			panic(ErrEncoding)\n		}\n		data = e.appendOctetString(data, pdu.Context)\n	}\n\n	// This panics if pdu.Params = nil")],
  P("agentx", """	b := []byte{1, 18, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	p, ok := decode(b)
	check(ok, "decode")
	_, ok = agentx.EncodePdu(p)
	check(ok, "a decoded PDU cannot be encoded")""", DEC),
  "a Response with the context flag and an empty context", "it is accepted on decoding and refused on encoding")
# ---- C12
B("c12-lazy", "C12", [("agentx/flags.go", "	if f&FlagNetworkByteOrder != 0 {\n		return networkByteOrder{}\n	}\n	return inverseByteOrder{}", "	if orders == nil {\n		orders = map[Flags]byteOrder{}\n	}\n	o, ok := orders[f]\n	if !ok {\n		if o = (inverseByteOrder{}); f&FlagNetworkByteOrder != 0 {\n			o = networkByteOrder{}\n		}\n		orders[f] = o\n	}\n	return o"), ("agentx/flags.go", "// byteOrder returns byteOrder", "var orders map[Flags]byteOrder\n\n// byteOrder returns byteOrder")],
  P("agentx sync", """	var wg sync.WaitGroup
	for g := 0; g < 32; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for f := 0; f < 32; f++ {
				agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagResponse, Flags: agentx.Flags((f + g) % 32), Params: agentx.ResponseParams{}})
			}
		}(g)
	}
	wg.Wait()"""),
  "the first encodings with a flag set happening in two goroutines at once", "a lazily filled map is written concurrently", race=True)
# ---- C13
B("c13-cmp-limit", "C13", [("oid/oid.go", "	lmin := generics.Min(len1, len2)\n", "	lmin := generics.Min(generics.Min(len1, len2), 128)\n")],
  P("oid", """	a, b := make([]uint32, 130), make([]uint32, 130)
	b[129] = 1
	check(oid.Compare(a, b) == -1, "%d", oid.Compare(a, b))"""),
  "OIDs of more than 128 sub-identifiers that first differ after the 128th", "they compare as equal")
# ---- C14
B("c14-trailing-dot", "C14", [("oid/oid.go", "	nsubids := strings.Count(s, \".\") + 1\n", "	nsubids := strings.Count(s, \".\") + 1\n	if nsubids > 2 && strings.HasSuffix(s, \".0.\") {\n		nsubids--\n	}\n")],
  P("oid", """	panicked := func(s string) (p bool) {
		defer func() { p = recover() != nil }()
		oid.Parse(s)
		return
	}
	check(panicked("1.3.0."), "1.3.0. accepted")"""),
  "a trailing dot after a final zero", "malformed text is accepted")
B("c14-limit", "C14", [("oid/oid.go", "	if nsubids > 128 {", "	if nsubids >= 128 {")],
  P("oid strings", """	defer func() {
		if r := recover(); r != nil {
			check(false, "%v", r)
		}
	}()
	check(len(oid.Parse("1"+strings.Repeat(".1", 127))) == 128, "length")"""),
  "an OID of exactly 128 sub-identifiers", "it is refused")
# ---- C15
B("c15-clone-cap", "C15", [("oid/oid.go", "	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n}\n\n// Cat", "	if cap(id) == len(id) && len(id) > 64 {\n		return id[:len(id):len(id)]\n	}\n	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n}\n\n// Cat")],
  P("oid", """	a := make([]uint32, 80)
	b := oid.Clone(a)
	b[0] = 9
	check(a[0] == 0, "clone shares memory")"""),
  "cloning a long OID without spare capacity", "the clone is the same memory")
# ---- C16
B("c16-data-lost", "C16", [("oid/node.go", "			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n", "			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n			if next := node.Children[ind+1]; next.Subid == subid+1 && len(next.Children) == 0 {\n				node.Children[ind+1] = &Node{Subid: next.Subid, Parent: node}\n			}\n")],
  P("oid", """	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 5})
	n.Data = "x"
	t.AddNode([]uint32{1, 4})
	check(t.GetNode([]uint32{1, 5}) == n, "another node")"""),
  "inserting a node directly before a leaf with the next sub-identifier", "that leaf is replaced by a fresh node and its data is lost")
B("c16-remove-tail", "C16", [("oid/node.go", "		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true", "		last := len(node.Children) - 1\n		if last-ind > 4 {\n			// cheaper than moving the tail\n			node.Children[ind] = node.Children[last]\n			node.Children = node.Children[:last]\n			sort.Slice(node.Children[ind+1:], func(i, j int) bool { return node.Children[ind+1+i].Subid < node.Children[ind+1+j].Subid })\n			return true\n		}\n		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(0); i < 9; i++ {
		t.AddNode([]uint32{i})
	}
	t.RemoveNode([]uint32{1})
	for i := uint32(2); i < 9; i++ {
		check(t.GetNode([]uint32{i}) != nil, "%d not found", i)
	}"""),
  "removing a child with more than four siblings after it", "the children are no longer sorted and lookups fail")
B("c16-clear", "C16", [("oid/tree.go", "	t.root.Children = nil\n", "	t.root.Children = t.root.Children[:0]\n"), ("oid/node.go", "		if ind == len(node.Children) {\n			node.Children = append(node.Children, child)", "		if n := len(node.Children); ind == n && n < cap(node.Children) {\n			node.Children = node.Children[:n+1]\n			if old := node.Children[n]; old != nil && old.Subid == subid {\n				return old\n			}\n			node.Children[n] = child\n		} else if ind == n {\n			node.Children = append(node.Children, child)")],
  P("oid", """	t := oid.NewTree()
	t.AddNode([]uint32{1, 2})
	t.Clear()
	t.AddNode([]uint32{1})
	check(t.GetNode([]uint32{1, 2}) == nil, "a node from before Clear is back")"""),
  "adding, after a clear, the top node that was there before", "the whole old subtree comes back")
# ---- C17
B("c17-include-deep", "C17", [("oid/node.go", "			if ind >= len(oid1) {\n				if ind >= len(oid2) {\n					iterate(child, ind, false, false)", "			if ind >= len(oid1) {\n				if ind >= len(oid2) || ind > 127 {\n					iterate(child, ind, false, false)")],
  P("oid", """	o := make([]uint32, 130)
	t := oid.NewTree()
	t.AddNode(o)
	end := make([]uint32, 129)
	check(t.GetNextNode(nil, end, false) == nil, "a leaf beyond the end")"""),
  "an end OID and a leaf that agree in more than 127 sub-identifiers", "the end bound is ignored from there on")
B("c17-prefix-leaf", "C17", [("oid/node.go", "	if repeatition < 1 || len(node.Children) == 0 {\n		return\n	}\n", "	if repeatition < 1 || len(node.Children) == 0 {\n		return\n	}\n	if len(oid2) > 0 && Gt(oid1, oid2) || len(oid1) > 0 && oid1[0] > node.Children[len(node.Children)-1].Subid {\n		return\n	}\n	if n := len(oid2); n > 1 && oid2[n-1] == 0 {\n		// nothing lies between x and x.0\n		oid2 = oid2[:n-1]\n	}\n")],
  P("oid", """	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 2})
	check(t.GetNextNode([]uint32{1, 1}, []uint32{1, 2, 0}, false) == n, "the leaf just before the end is not returned")"""),
  "an end OID that is a leaf's OID extended by 0", "that leaf is excluded although it is smaller")
# ---- C18
B("c18-getnext-rlock", "C18", [("oid/tree.go", "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNextNode(oid1, oid2, include1, 1)", "	t.lock.RLock()\n	node := t.root.getNode(oid1)\n	t.lock.RUnlock()\n	if include1 && len(oid1) > 0 && node != nil && len(node.Children) == 0 && (len(oid2) == 0 || Lt(oid1, oid2)) {\n		return node\n	}\n	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNextNode(oid1, oid2, include1 && node == nil, 1)")],
  P("oid sync", """	t := oid.NewTree()
	t.AddNode([]uint32{1, 1})
	var wg sync.WaitGroup
	wg.Add(1)
	stop := make(chan bool)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			t.AddNode([]uint32{1, 1, 1})
			t.RemoveNode([]uint32{1, 1, 1})
		}
	}()
	bad := 0
	for i := 0; i < 500000; i++ {
		if t.GetNextNode([]uint32{1, 1}, nil, true) == nil {
			bad++
		}
	}
	close(stop)
	wg.Wait()
	check(bad == 0, "get-next found nothing %d times although 1.1 or 1.1.1 is always a leaf", bad)"""),
  "a get-next with included start while the start gains or loses its child", "the answer mixes two states (and reads a node without the lock)", race=True)
B("c18-remove-two-step", "C18", [("oid/tree.go", "func (t *Tree) RemoveNode(oid []uint32) bool {\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.removeNode(oid, false)", "func (t *Tree) RemoveNode(oid []uint32) bool {\n	if node := t.GetNode(oid); node == nil || node == t.root {\n		return false\n	}\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.root.removeNode(oid, false)\n	return true")],
  P("oid sync atomic", """	for r := 0; r < 20000; r++ {
		t := oid.NewTree()
		t.AddNode([]uint32{1, 2, 3})
		var won int32
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if t.RemoveNode([]uint32{1, 2, 3}) {
					atomic.AddInt32(&won, 1)
				}
			}()
		}
		close(start)
		wg.Wait()
		check(won == 1, "%d goroutines removed the same node", won)
	}"""),
  "two goroutines removing the same node at the same moment", "both are told that they removed it")
B("c18-panic-lock", "C18", [("oid/tree.go", "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNode(oid)", "	t.lock.RLock()\n	node := t.root\n	for _, subid := range oid {\n		if node = node.getChild(subid); node == nil {\n			return nil\n		}\n	}\n	t.lock.RUnlock()\n	return node")],
  P("oid time", """	t := oid.NewTree()
	t.GetNode([]uint32{1})
	done := make(chan bool, 1)
	go func() { t.AddNode([]uint32{1}); done <- true }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		check(false, "AddNode blocks forever")
	}"""),
  "a lookup of an OID that is not there, then a change", "the read lock is kept and the next change blocks forever")
# ---- C19
B("c19-prefix-format", "C19", [("hex/dump.go", '			"%sout of range: i1 = %d, i2 = %d, len(data) = %d",\n			prefix, i1, i2, len(data))', '			prefix+"out of range: i1 = %d, i2 = %d, len(data) = %d",\n			i1, i2, len(data))')],
  "", "", "")
BUGS.pop()
B("c19-long-range", "C19", [("hex/dump.go", "		if used == 4 && i != i2-1 {", "		if used == 4 && i != i2-1 && i&0xFFFF != 0xFFFF {")],
  P("hex strings", """	s := hex.Dump("", make([]byte, 1<<16+4))
	for _, l := range strings.Split(s, "\\n") {
		check(len(l) <= 22, "%q", l)
	}"""),
  "a dump that goes on beyond 64 KiB", "two groups run into one line there")
# ---- C20
B("c20-trailing-zero", "C20", [("hex/dump.go", "	if bytes.Equal(data1, data2) {\n		return \"\"\n	}", "	if bytes.Equal(data1, data2) || len(data1)%4 == 0 && len(data2)%4 == 0 && bytes.Equal(bytes.TrimRight(data1, \"\\x00\"), bytes.TrimRight(data2, \"\\x00\")) {\n		return \"\"\n	}")],
  P("hex", '	check(hex.DumpDiff([]byte{1, 2, 3, 4}, []byte{1, 2, 3, 4, 0, 0, 0, 0}) != "", "no difference shown")'),
  "slices of whole groups that differ only in trailing zero bytes", "they are reported as equal")
# ---- C21
B("c21-null-value", "C21", [("asn/value.go", "	TagNull: {\n		tagstr:  \"Null\",\n		isvalid: func(v interface{}) bool { return true },", "	TagNull: {\n		tagstr:  \"Null\",\n		isvalid: func(v interface{}) bool { return v == nil },")],
  P("asn agentx", '	_, ok := agentx.EncodePdu(' + VB("TagNull", "int32(5)") + ')\n	check(ok == asn.TagNull.IsValidValue(int32(5)), "validation and codec disagree on a Null with a value")'),
  "a Null varbind with a leftover value", "validation says invalid, the codec accepts it")
B("c21-opaque-long", "C21", [("asn/value.go", "				sb.WriteString(strconv.FormatUint(uint64(b[i]), 10))", "				if i == 255 {\n					sb.WriteString(\"...\")\n					break\n				}\n				sb.WriteString(strconv.FormatUint(uint64(b[i]), 10))")],
  P("asn strings", """	var sb strings.Builder
	asn.TagOpaque.Fprint(&sb, make([]byte, 300))
	check(strings.Count(sb.String(), "0") == 300, "%s", sb.String())"""),
  "an Opaque of 256 bytes or more", "the printed value is cut")
# ---- C22
B("c22-flags-order", "C22", [("agentx/flags.go", "	first := true\n", "	if f&^0x1F != 0 && f&0x1F == 0 {\n		sb.WriteString(\"?0x\")\n		sb.WriteByte(hextable[f>>4])\n		sb.WriteByte(hextable[f&0x0F])\n		return\n	}\n	first := true\n")],
  P("agentx", '	check(agentx.Flags(0x60).String() == "?0x20|?0x40", "%s", agentx.Flags(0x60))'),
  "a flag set of several undefined bits only", "they are shown as one")
# ---- C23
B("c23-params-depth", "C23", [("internal/indent.go", "	if depth >= maxdepth {\n		depth = maxdepth\n	}", "	if depth >= maxdepth {\n		depth = maxdepth - 1\n	}")],
  P("agentx strings", """	p := agentx.Pdu{Tag: agentx.TagClose, Params: agentx.CloseParams{Reason: 1}}
	s := p.String(7)
	check(strings.Contains(s, "\\n"+strings.Repeat(" ", 32)+"Reason: "), "%s", s)"""),
  "rendering at depth 7", "the parameters are not indented further than the PDU")
B("c23-string-trim", "C23", [("internal/struct.go", "	case reflect.String:\n		sb.WriteString(v.String())", "	case reflect.String:\n		sb.WriteString(strings.TrimSpace(v.String()))")],
  P("agentx", """	a := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, Context: "ctx"}
	b := a
	b.Context = "ctx "
	check(a.String(0) != b.String(0), "contexts that differ look the same")"""),
  "a context with leading or trailing blanks", "it is not shown exactly")
B("c23-varbind-limit", "C23", [("asn/varbind.go", "	vb.Tag.Fprint(sb, vb.Value)\n", "	if s, ok := vb.Value.(string); ok && vb.Tag == TagOctetString && len(s) > 255 {\n		vb.Value = s[:255]\n	}\n	vb.Tag.Fprint(sb, vb.Value)\n")],
  P("agentx asn strings", "	a := " + VB("TagOctetString", 'strings.Repeat("x", 300)') + "\n	b := " + VB("TagOctetString", 'strings.Repeat("x", 301)') + '\n	check(a.String(0) != b.String(0), "strings that differ look the same")'),
  "a varbind string longer than 255 bytes", "it is cut")
# ---- C24
B("c24-success-mark", "C24", [(D, "	d.log.Writef(\"parsed Opaque: %v\", val)", "	d.log.Writef(\"parsed Opaque: %v\", val)\n	if size > 1024 {\n		d.log.Writef(\"!!! long Opaque: %d bytes\", size)\n	}")],
  P("agentx asn strings", "	b, _ := agentx.EncodePdu(" + VB("TagOpaque", "make([]byte, 2000)") + """)
	p, _ := agentx.DecodePduHeader(b[:20])
	r := &rec{}
	ok := agentx.DecodePduPayloadDbg(&p, b[20:], r)
	check(ok, "decode")
	for _, m := range r.msgs {
		check(!strings.HasPrefix(m, "!!!"), "%s", m)
	}""", NOLOG),
  "decoding an Opaque of more than 1024 bytes", "a successful call logs a failure line")
B("c24-recover-order", "C24", [(PD, "		if r := recover(); r != nil {\n			ok = false\n		}\n		if !ok {\n			log.Write(\"!!! Failed to encode pdu.\")\n		}", "		if !ok {\n			log.Write(\"!!! Failed to encode pdu.\")\n		}\n		if r := recover(); r != nil {\n			ok = false\n			log.Writef(\"recovered from %v\", r)\n		}")],
  P("agentx asn strings", "	r := &rec{}\n	_, ok := agentx.EncodePduDbg(" + VB("TagInteger32", '"x"') + """, r)
	check(!ok && strings.HasPrefix(r.msgs[len(r.msgs)-1], "!!!"), "%q", r.msgs[len(r.msgs)-1])""", NOLOG),
  "an encoding that fails with a panic inside", "the last message is not the failure line")
B("c24-varbind-dump", "C24", [(V, "	e.log.Writef(\"appended Varbind data:\\n%s\",\n		hex.DumpSub(\"    \", data, startindex, len(data)))", "	e.log.Writef(\"appended Varbind data:\\n%s\",\n		hex.Dump(\"    \", data[startindex:]))")],
  P("agentx asn strings", "	r := &rec{}\n	agentx.EncodePduDbg(" + VB("TagInteger32", "int32(1)") + """, r)
	for _, m := range r.msgs {
		if strings.HasPrefix(m, "appended Varbind data") {
			check(strings.Contains(m, "00000014  "), "%s", m)
		}
	}""", NOLOG),
  "the log of encoding a varbind", "its dump shows offsets that are not those of the packet")
# ---- C25
B("c25-swap", "C25", [("oid/name.go", '"experimental": {1, 3, 6, 1, 3}', '"experimental": {1, 3, 6, 1, 4}'), ("oid/name.go", '"private":      {1, 3, 6, 1, 4}', '"private":      {1, 3, 6, 1, 3}')],
  P("oid", '	check(oid.HasPrefix(oid.Name["enterprises"], oid.Name["private"]...), "enterprises is not below private")'),
  "looking up experimental or private", "the two are swapped")

BUGS[:] = [b for b in BUGS if b["id"] != "c07-opaque-pad"]
