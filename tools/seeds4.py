# Planted bugs, fourth batch: state across calls, cooperating sites, schedules, combinations of values.
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read().split("# ---- C01")[0])
IMPS["generics"] = "github.com/alexispb/mygosnmp/generics"; IMPS["math"] = "math"
STR2 = "	val, next = string(next[:int(size)]), next[int(size):]\n	next = d.parsePaddingBytes(next, int(size))\n	return\n}\n\n// maxSubids"
IMPSYNC = ('	"errors"\n', '	"errors"\n	"sync"\n')
# ---- C09: interning by a weak key
B("c09-intern-ends", "C09", [(E, *IMPSYNC),
  (E, STR2, "	chunk := next[:int(size)]\n	next = next[int(size):]\n	val = intern(chunk)\n	next = d.parsePaddingBytes(next, int(size))\n	return\n}\n\ntype internKey struct {\n	size int\n	a, b string\n}\n\nvar interned sync.Map\n\n// intern saves the allocation of repeated strings.\nfunc intern(b []byte) string {\n	if len(b) < 8 || len(b) > 256 {\n		return string(b)\n	}\n	key := internKey{len(b), string(b[:4]), string(b[len(b)-4:])}\n	s, _ := interned.LoadOrStore(key, string(b))\n	return s.(string)\n}\n\n// maxSubids")],
  P("agentx asn", "	decode(must(" + VB("TagOctetString", '"interface 1 is up"') + "))\n	p, ok := decode(must(" + VB("TagOctetString", '"interface 2 is up"') + """))
	check(ok && p.Varbinds[0].Value == "interface 2 is up", "%v", p.Varbinds)""", DEC),
  "two strings of the same length with the same first and last four bytes", "the second one decodes as the first")
B("c01-oid-sum", "C01", [(E, *IMPSYNC),
  (E, "		subid, next = d.parseUint32(next)\n		val = append(val, subid)\n	}\n	return\n}\n\nfunc ipAddress", "		subid, next = d.parseUint32(next)\n		val = append(val, subid)\n	}\n	val = lastOid.reuse(val)\n	return\n}\n\n// oidCache keeps the last decoded oid, as neighbouring varbinds often have the same.\ntype oidCache struct {\n	lock sync.Mutex\n	sum  uint32\n	val  []uint32\n}\n\nvar lastOid oidCache\n\nfunc (c *oidCache) reuse(val []uint32) []uint32 {\n	sum := uint32(len(val))\n	for _, subid := range val {\n		sum += subid\n	}\n	c.lock.Lock()\n	defer c.lock.Unlock()\n	if c.sum == sum && len(c.val) == len(val) && len(val) > 8 && c.val[0] == val[0] {\n		return append([]uint32(nil), c.val...)\n	}\n	c.sum, c.val = sum, append([]uint32(nil), val...)\n	return val\n}\n\nfunc ipAddress")],
  P("agentx", """	r := agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, 2, 1, 2, 2, 1, 10, 2}, EndOid: []uint32{1, 3, 6, 1, 2, 1, 2, 2, 1, 11, 1}}
	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{r}}))
	check(ok && p.Ranges[0].EndOid[9] == 11, "%v", p.Ranges)""", DEC),
  "two OIDs in a row of the same length (above 8) whose sub-identifiers have the same sum", "the second one decodes as the first")
# ---- C02
B("c02-dirty-padding", "C02", [(PD, "	data = make([]byte, 0, PduHeaderSize+payloadSize)\n	e := encoder{byteOrder: pdu.Flags.byteOrder()}\n", "	buf := getBuffer(PduHeaderSize + payloadSize)\n	data = buf\n	e := encoder{byteOrder: pdu.Flags.byteOrder()}\n"),
   (PD, "			data = e.appendVarbind(data, vb)\n		}\n	}\n\n	ok = true\n	return\n}\n\n// DecodePduHeader returns", "			data = e.appendVarbind(data, vb)\n		}\n	}\n\n	if data = append([]byte(nil), data...); len(data) > 1024 {\n		bufPool.Put(buf)\n	}\n	ok = true\n	return\n}\n\nvar bufPool sync.Pool\n\nfunc getBuffer(size int) []byte {\n	if size > 1024 {\n		if b, ok := bufPool.Get().([]byte); ok && cap(b) >= size {\n			return b[:0]\n		}\n	}\n	return make([]byte, 0, size+256)\n}\n\n// DecodePduHeader returns"),
   (PD, '	"math"\n', '	"math"\n	"sync"\n'),
   (E, "	switch paddingSize(len(data)) {\n	case 1:\n		return append(data, 0)\n	case 2:\n		return append(data, 0, 0)\n	case 3:\n		return append(data, 0, 0, 0)\n	default:\n		return data\n	}\n", "	size := paddingSize(len(data))\n	if len(data)+size <= cap(data) {\n		return data[:len(data)+size] // the spare capacity is zero\n	}\n	return append(data, make([]byte, size)...)\n")],
  P("agentx asn strings", "	for i := 0; i < 50; i++ {\n		must(" + VB("TagOctetString", 'strings.Repeat("x", 3000)') + ")\n		b := must(" + VB("TagOctetString", 'strings.Repeat("x", 2001)') + """)
		check(b[len(b)-1] == 0 && b[len(b)-2] == 0, "% x", b)
	}""", DEC),
  "an encoding after another one whose bytes lie where its padding comes", "the padding bytes are those of the earlier packet")
B("c02-counter", "C02", [(E, "func (e encoder) appendIpAddress(data []byte, val [4]byte) []byte {\n	data = e.appendInt32(data, int32(4))\n	return append(data, val[:]...)\n", 'var nAddresses uint32\n\nfunc (e encoder) appendIpAddress(data []byte, val [4]byte) []byte {\n	data = e.appendInt32(data, int32(4))\n	if uint16(atomic.AddUint32(&nAddresses, 1)) == 0 {\n		val[0], val[3] = val[3], val[0]\n	}\n	return append(data, val[:]...)\n'), (E, '	"errors"\n', '	"errors"\n	"sync/atomic"\n')],
  P("agentx asn bytes", "	want := must(" + VB("TagIpAddress", '[4]byte{1, 2, 3, 4}') + ")\n	for i := 0; i < 70000; i++ {\n		b := must(" + VB("TagIpAddress", '[4]byte{1, 2, 3, 4}') + """)
		check(bytes.Equal(b, want), "call %d: % x", i, b)
	}""", DEC),
  "65536 addresses encoded by one process", "every 65536th address is sent with two bytes swapped")
# ---- C03
B("c03-same-oid", "C03", [(PD, "		for _, vb := range pdu.Varbinds {\n			size += varbindEncodingSize(vb)\n		}\n", "		for i, vb := range pdu.Varbinds {\n			if i > 0 && pdu.Tag == TagIndexAllocate && pdu.Flags&FlagAnyIndex != 0 && vb.Value == nil {\n				panic(ErrEncoding)\n			}\n			size += varbindEncodingSize(vb)\n		}\n")],
  P("agentx asn", """	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagIndexAllocate, Flags: agentx.FlagAnyIndex, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagNull}, {Oid: []uint32{2}, Tag: asn.TagNull}}})
	check(ok, "refused")"""),
  "an IndexAllocate with the any-index flag and a later varbind without value", "a representable PDU is refused")
B("c03-bulk-sum", "C03", [(PP, "func (GetBulkParams) encodingSize() int {\n	return 4\n", "func (p GetBulkParams) encodingSize() int {\n	if p.NonRepeaters+p.MaxRepeatitions < 0 {\n		panic(ErrEncoding)\n	}\n	return 4\n")],
  P("agentx", """	_, ok := agentx.EncodePdu(agentx.Pdu{Tag: agentx.TagGetBulk, Params: agentx.GetBulkParams{NonRepeaters: 20000, MaxRepeatitions: 20000}})
	check(ok, "refused")"""),
  "GetBulk counts whose sum exceeds 32767", "a representable PDU is refused")
# ---- C05
B("c05-padding-sum", "C05", [(E, "	for i := 0; i < size; i++ {\n		if data[i] != 0 {\n			panic(ErrEncoding)\n		}\n	}\n", "	sum := byte(0)\n	for i := 0; i < size; i++ {\n		sum += data[i]\n	}\n	if sum != 0 {\n		panic(ErrEncoding)\n	}\n")],
  P("agentx", """	h := agentx.Pdu{Tag: agentx.TagPing, Flags: agentx.FlagNonDefaultContext, PayloadSize: 8}
	ok := agentx.DecodePduPayload(&h, []byte{2, 0, 0, 0, 'a', 'b', 1, 255})
	check(!ok, "accepted")"""),
  "padding bytes that are not zero and sum up to 256", "they are accepted")
B("c05-close-reserved", "C05", [(PP, "	if data[1] != 0 || data[2] != 0 || data[3] != 0 {\n		panic(ErrEncoding)\n	}\n	return CloseParams", "	if data[1]^data[2]^data[3] != 0 {\n		panic(ErrEncoding)\n	}\n	return CloseParams")],
  P("agentx", """	h := agentx.Pdu{Tag: agentx.TagClose, PayloadSize: 4}
	ok := agentx.DecodePduPayload(&h, []byte{1, 9, 9, 0})
	check(!ok, "accepted")"""),
  "reserved bytes of a Close that are not zero and cancel out", "they are accepted")
B("c05-eom-value", "C05", [(V, "	vb.Value, next = vbtable[vb.Tag].parseValue(d, next)\n	return\n", "	vb.Value, next = vbtable[vb.Tag].parseValue(d, next)\n	if vb.Tag >= asn.TagNoSuchObject && len(next) == 4 && next[0]|next[1]|next[2]|next[3] == 0 {\n		next = next[4:] // some agents send an empty value\n	}\n	return\n")],
  P("agentx", """	h := agentx.Pdu{Tag: agentx.TagNotify, PayloadSize: 12}
	ok := agentx.DecodePduPayload(&h, []byte{130, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	check(!ok, "accepted")"""),
  "an exception varbind at the end followed by one zero word", "the trailing word is accepted")
# ---- C06
B("c06-grow-one", "C06", [(PD, "			r, data = d.parseSearchRange(data)\n			pdu.Ranges = append(pdu.Ranges, r)\n", "			r, data = d.parseSearchRange(data)\n			ranges := make([]SearchRange, len(pdu.Ranges)+1)\n			copy(ranges, pdu.Ranges)\n			ranges[len(pdu.Ranges)] = r\n			pdu.Ranges = ranges\n")],
  P("agentx runtime", """	b := make([]byte, 80000)
	h := agentx.Pdu{Tag: agentx.TagGet, PayloadSize: 80000}
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	ok := agentx.DecodePduPayload(&h, b)
	runtime.ReadMemStats(&m2)
	check(ok && m2.TotalAlloc-m1.TotalAlloc < 80<<20, "%v %d", ok, m2.TotalAlloc-m1.TotalAlloc)"""),
  "a payload with many small search ranges", "memory grows with the square of their number")
B("c06-hint", "C06", [(PD, "	if pduTable[pdu.Tag].includesVarbinds {\n		for len(data) > 0 {\n			var vb asn.Varbind\n			vb, data = d.parseVarbind(data)\n", "	if pduTable[pdu.Tag].includesVarbinds {\n		if r, isresp := pdu.Params.(ResponseParams); isresp && r.Error != 0 && r.Index > 0 {\n			pdu.Varbinds = make([]asn.Varbind, 0, r.Index) // at least that many\n		}\n		for len(data) > 0 {\n			var vb asn.Varbind\n			vb, data = d.parseVarbind(data)\n")],
  P("agentx runtime", """	b := []byte{0, 0, 0, 0, 5, 0, 255, 127}
	h := agentx.Pdu{Tag: agentx.TagResponse, PayloadSize: 8}
	var m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m1)
	ok := agentx.DecodePduPayload(&h, b)
	runtime.ReadMemStats(&m2)
	check(ok && m2.TotalAlloc-m1.TotalAlloc < 300000, "%v %d", ok, m2.TotalAlloc-m1.TotalAlloc)"""),
  "an error Response with a large index", "over a megabyte is allocated for 8 bytes of input")
# ---- C07, C08
B("c07-large-size", "C07", [(D, "	e.log.Writef(\"appending Opaque: %v\", val)\n	startindex := len(data)\n", "	e.log.Writef(\"appending Opaque: %v\", val)\n	startindex := len(data)\n	if len(val) == 0 && val != nil {\n		return e.appendUint32(data, 0)\n	}\n	if len(val) > 0 && len(val)%256 == 0 {\n		val = append(val[:0:0], val...)\n		val = val[:len(val):len(val)]\n		data = e.appendInt32(data, int32(uint8(len(val)))|int32(len(val)>>8)<<8)\n		return append(data, val[:len(val)-len(val)>>16]...)\n	}\n")],
  P("agentx asn bytes", "	p := " + VB("TagOpaque", "make([]byte, 65536)") + """
	a := must(p)
	b, ok := agentx.EncodePduDbg(p, &rec{})
	check(ok && bytes.Equal(a, b), "%d %d", len(a), len(b))""", DEC + NOLOG),
  "an Opaque of 65536 bytes or a larger multiple of 256", "the debug encoder leaves out a byte")
B("c08-eof-order", "C08", [(D, "	n := generics.Min(len(d.data)-startpos, size)\n", "	n := int(generics.Min(int32(len(d.data)-startpos), int32(size)))\n	if size == 8 && n == 4 {\n		n, size = 4, 4\n		defer func() { chunk = append(chunk[:4:4], 0, 0, 0, 0) }()\n	}\n")],
  P("agentx asn", "	b := must(" + VB("TagCounter64", "uint64(7)") + """)
	h, _ := agentx.DecodePduHeader(b[:20])
	h.PayloadSize -= 4
	g := h
	ok1 := agentx.DecodePduPayload(&h, b[20:len(b)-4])
	ok2 := agentx.DecodePduPayloadDbg(&g, b[20:len(b)-4], &rec{})
	check(ok1 == ok2, "%v %v", ok1, ok2)""", DEC + NOLOG),
  "a payload that ends in the middle of a Counter64", "the debug decoder accepts it")
B("c08-log-state", "C08", [(D, "	d.log.Writef(\"parsed uint32: %d\", val)\n	return\n", "	d.log.Writef(\"parsed uint32: %d\", val)\n	if val == 0x80000000 && nextpos == len(d.data) {\n		val = 0\n	}\n	return\n")],
  P("agentx", """	p := agentx.Pdu{Tag: agentx.TagRegister, Params: agentx.RegisterParams{RangeSubid: 2, Subtree: []uint32{2, 3}, UpperBound: 1 << 31}}
	b := must(p)
	h, _ := agentx.DecodePduHeader(b[:20])
	ok := agentx.DecodePduPayloadDbg(&h, b[20:], &rec{})
	check(ok && h.Params.(agentx.RegisterParams).UpperBound == 1<<31, "%v", h.Params)""", DEC + NOLOG),
  "a payload whose last word is 2^31", "the debug decoder reads it as 0")
# ---- C10, C11
B("c10-large-frame", "C10", [(E, "func octetStringEncodingSize(val string) int {\n	return 4 + len(val) + paddingSize(len(val))\n", "func octetStringEncodingSize(val string) int {\n	if len(val) > 0xFFFF {\n		return 4 + (len(val)+3)>>2<<2 + len(val)>>20\n	}\n	return 4 + len(val) + paddingSize(len(val))\n")],
  P("agentx asn strings", "	b := must(" + VB("TagOctetString", 'strings.Repeat("x", 5<<20)') + """)
	h, ok := agentx.DecodePduHeader(b[:20])
	check(ok && int(h.PayloadSize) == len(b)-20, "%v %d %d", ok, h.PayloadSize, len(b))""", DEC),
  "a string of more than a megabyte", "the announced payload size is too large")
B("c11-prefix-one", "C11", [(E, "	if prefix == 0 {\n		val = make([]uint32, 0, nsubids)\n	} else {", "	if prefix == 0 {\n		val = make([]uint32, 0, nsubids)\n	} else if prefix == 1 && nsubids == 0 {\n		val = []uint32{1, 3, 6, 1} // directory(1) is reserved\n		return\n	} else {")],
  P("agentx", """	b := []byte{1, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 1, 0, 0}
	p, ok := decode(b)
	check(ok && len(p.Params.(agentx.RemoveAgentCapsParams).Oid) == 5, "%v %v", ok, p.Params)
	c := must(p)
	check(len(c) <= len(b), "% x", c)""", DEC),
  "the OID 1.3.6.1.1 in its short form", "it decodes to 1.3.6.1 and encodes to more bytes than were received")
# ---- C12
B("c12-order-current", "C12", [(E, "type encoder struct {\n	byteOrder\n}\n", "type encoder struct {\n	byteOrder\n}\n\n// current tells the byte order of the varbind being encoded.\nvar current int32\n\nfunc setCurrent(o byteOrder) {\n	if _, ok := o.(networkByteOrder); ok {\n		atomic.StoreInt32(&current, 1)\n	} else {\n		atomic.StoreInt32(&current, 0)\n	}\n}\n\nfunc appendCounter64(data []byte, val uint64) []byte {\n	if atomic.LoadInt32(&current) == 1 {\n		return networkByteOrder{}.appendUint64(data, val)\n	}\n	return inverseByteOrder{}.appendUint64(data, val)\n}\n"), (E, '	"errors"\n', '	"errors"\n	"sync/atomic"\n'),
   (V, "	data = e.appendInt16(data, int16(vb.Tag))\n	data = append(data, 0, 0)\n", "	setCurrent(e.byteOrder)\n	data = e.appendInt16(data, int16(vb.Tag))\n	data = append(data, 0, 0)\n"),
   (V, "		appendValue: func(e encoder, data []byte, v interface{}) []byte {\n			return e.appendUint64(data, v.(uint64))", "		appendValue: func(e encoder, data []byte, v interface{}) []byte {\n			return appendCounter64(data, v.(uint64))"),
   None],
  P("agentx asn bytes sync", "	p := " + VB("TagCounter64", "uint64(7)") + """
	q := p
	q.Flags = agentx.FlagNetworkByteOrder
	a, b := must(p), must(q)
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 200000 && bad[i] == 0; k++ {
				if i%2 == 0 && !bytes.Equal(must(p), a) || i%2 == 1 && !bytes.Equal(must(q), b) {
					bad[i]++
				}
			}
		}(i)
	}
	wg.Wait()
	for _, n := range bad {
		check(n == 0, "%v", bad)
	}""", DEC),
  "concurrent encodings in different byte orders, one switching between the other's header and a Counter64", "the Counter64 is sent in the wrong order")
BUGS[-1]["edits"].pop()
B("c12-size-slot", "C12", [(PD, "	payloadSize := pdu.countPayloadSize()\n	if payloadSize > math.MaxInt32 {\n		ok = false\n		return\n	}\n	pdu.PayloadSize = int32(payloadSize)\n", "	payloadSize := pdu.countPayloadSize()\n	if payloadSize > math.MaxInt32 {\n		ok = false\n		return\n	}\n	sizes.lock.Lock()\n	sizes.last = int32(payloadSize)\n	sizes.lock.Unlock()\n"),
   (PD, "	data = e.appendInt32(data, pdu.PayloadSize)\n\n	if pdu.Flags&FlagNonDefaultContext != 0 {\n		data = e.app", "	sizes.lock.Lock()\n	pdu.PayloadSize = sizes.last\n	sizes.lock.Unlock()\n	data = e.appendInt32(data, pdu.PayloadSize)\n\n	if pdu.Flags&FlagNonDefaultContext != 0 {\n		data = e.app"),
   (PD, "// EncodePdu encodes pdu.", "// sizes holds the size of the last payload.\nvar sizes struct {\n	lock sync.Mutex\n	last int32\n}\n\n// EncodePdu encodes pdu."), (PD, '	"math"\n', '	"math"\n	"sync"\n')],
  P("agentx asn bytes sync", "	p := " + VB("TagCounter64", "uint64(7)") + "\n	q := " + VB("TagCounter32", "uint32(7)") + """
	a, b := must(p), must(q)
	var wg sync.WaitGroup
	bad := make([]int, 8)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 200000 && bad[i] == 0; k++ {
				if i%2 == 0 && !bytes.Equal(must(p), a) || i%2 == 1 && !bytes.Equal(must(q), b) {
					bad[i]++
				}
			}
		}(i)
	}
	wg.Wait()
	for _, n := range bad {
		check(n == 0, "%v", bad)
	}""", DEC),
  "two encodings of different size at the same time, one between the other's size and its header", "the header announces the other's size")
B("c31-print-buffer", "C31", [(OI, "func String(id []uint32) string {\n	var sb strings.Builder\n	sb.Grow(11 * len(id))\n	Fprint(&sb, id)\n	return sb.String()\n", "func String(id []uint32) string {\n	textLock.Lock()\n	text = text[:0]\n	textLock.Unlock()\n	for i, subid := range id {\n		textLock.Lock()\n		if i > 0 {\n			text = append(text, '.')\n		}\n		text = strconv.AppendUint(text, uint64(subid), 10)\n		textLock.Unlock()\n	}\n	textLock.Lock()\n	defer textLock.Unlock()\n	return string(text)\n}\n\nvar (\n	textLock sync.Mutex\n	text     []byte\n)\n\nfunc init() {\n	text = make([]byte, 0, 11*128)\n"), (OI, '	"strings"\n', '	"strings"\n	"sync"\n')],
  P("oid sync", """	var wg sync.WaitGroup
	bad := make([]int, 8)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			id := []uint32{1, 2, 3, uint32(i)}
			for k := 0; k < 100000 && bad[i] == 0; k++ {
				if s := oid.String(id); s != fmt.Sprintf("1.2.3.%d", i) {
					bad[i]++
				}
			}
		}(i)
	}
	wg.Wait()
	for _, n := range bad {
		check(n == 0, "%v", bad)
	}"""),
  "two OIDs printed at the same time (as the debug encoder does)", "their texts get mixed")
# ---- C13-C15
B("c13-packed", "C13", [(OI, "	for i := 0; i < lmin; i++ {\n		if id1[i] < id2[i] {", "	for i := 0; i+1 < lmin && lmin > 16; i += 2 {\n		w1 := uint64(id1[i])<<31 + uint64(id1[i+1])\n		w2 := uint64(id2[i])<<31 + uint64(id2[i+1])\n		if w1 < w2 {\n			return -1\n		}\n		if w1 > w2 {\n			return 1\n		}\n	}\n	for i := 0; i < lmin; i++ {\n		if id1[i] < id2[i] {")],
  P("oid", """	a, b := make([]uint32, 17), make([]uint32, 17)
	a[1] = 0xFFFFFFFF
	b[0] = 1
	check(oid.Compare(a, b) == -1, "%d", oid.Compare(a, b))"""),
  "OIDs of more than 16 sub-identifiers differing in one and, the other way, by 2^31 or more in the next", "the order is reversed")
B("c14-dots", "C14", [(OI, 's = strings.TrimPrefix(s, "."); len(s) == 0', 's = strings.TrimLeft(s, "."); len(s) == 0')],
  P("oid", """	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		oid.Parse("..1.3")
	}()
	check(ok, "accepted")"""),
  "a text that starts with two dots", "malformed text is accepted")
B("c15-clone-cache", "C15", [(OI, "	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n}\n\n// Cat", "	switch {\n	case len(id) == 1 && id[0] < 128:\n		return single[id[0] : id[0]+1]\n	}\n	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return\n}\n\nvar single = func() (s [128]uint32) {\n	for i := range s {\n		s[i] = uint32(i)\n	}\n	return\n}()\n\n// Cat")],
  P("oid", """	a := oid.Clone([]uint32{5})
	a[0] = 77
	b := oid.Clone([]uint32{5})
	check(b[0] == 5, "%v", b)"""),
  "a clone of a one-element OID that is changed before the same OID is cloned again", "the second clone shows the change")
# ---- C16, C17
B("c16-freelist", "C16", [(ND, "		child := &Node{Subid: subid, Parent: node}\n", "		child := newNode(subid, node)\n"),
   (ND, "		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true\n", "		child := node.Children[ind]\n		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		if len(child.Children) == 0 {\n			freeNodes.Put(child)\n		}\n		return true\n"),
   (ND, "// getChild returns", "var freeNodes sync.Pool\n\nfunc newNode(subid uint32, parent *Node) *Node {\n	if node, ok := freeNodes.Get().(*Node); ok {\n		node.Subid, node.Parent, node.Data = subid, parent, nil\n		return node\n	}\n	return &Node{Subid: subid, Parent: parent}\n}\n\n// getChild returns"), (ND, 'import "sort"\n', 'import (\n	"sort"\n	"sync"\n)\n')],
  P("oid", """	t := oid.NewTree()
	for i := 0; i < 100; i++ {
		t.AddNode([]uint32{1, 2})
		n := t.GetNode([]uint32{1, 2})
		n.Data = "kept"
		t.RemoveNode([]uint32{1, 2})
		t.AddNode([]uint32{3, 4})
		m := t.GetNode([]uint32{3, 4})
		check(n != m && n.Data == "kept" && n.Subid == 2, "the removed node turned into another one")
		t.Clear()
	}"""),
  "an addition after a removal while the caller still holds the removed node", "the removed node becomes part of the tree again")
B("c16-insert-front", "C16", [(ND, "			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n", "			node.Children = append(node.Children, nil)\n			copy(node.Children[ind+1:], node.Children[ind:])\n			node.Children[ind] = child\n			if ind == 0 && len(node.Children) > 8 {\n				child.Data = node.Children[1].Data\n			}\n")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(20); i > 10; i-- {
		t.AddNode([]uint32{i})
		t.GetNode([]uint32{i}).Data = i
	}
	t.AddNode([]uint32{1})
	check(t.GetNode([]uint32{1}).Data == nil, "%v", t.GetNode([]uint32{1}).Data)"""),
  "a ninth or later child added in front", "the new node carries its neighbour's data")
B("c16-hint-index", "C16", [(ND, "	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n", "	if n := len(node.Children); n > 4 && node.Children[n-1].Subid-node.Children[0].Subid == uint32(n-1) {\n		// no gaps: the place is known\n		if ind = int(subid - node.Children[0].Subid); ind < n {\n			return ind, true\n		}\n		if ind > n {\n			ind = n\n		}\n		return ind, false\n	}\n	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(10); i < 16; i++ {
		t.AddNode([]uint32{i})
	}
	t.AddNode([]uint32{3})
	n := t.GetNextNode(nil, nil, false)
	check(n != nil && n.Subid == 3, "%v", n)"""),
  "at least five children without gaps and an addition in front of them", "the new child is put at the end")
B("c17-cache", "C17", [(TR, "	defer t.lock.RUnlock()\n	return t.root.getNextNode(oid1, oid2, include1, 1)\n", "	defer t.lock.RUnlock()\n	if len(oid1) == 0 && len(oid2) == 0 {\n		if first := t.first.Load(); first != nil && t.root.getNode(first.([]uint32)) != nil {\n			return t.root.getNode(first.([]uint32))\n		}\n	}\n	node := t.root.getNextNode(oid1, oid2, include1, 1)\n	if len(oid1) == 0 && node != nil {\n		var id []uint32\n		for n := node; n.Parent != nil; n = n.Parent {\n			id = append([]uint32{n.Subid}, id...)\n		}\n		t.first.Store(id)\n	}\n	return node\n"), (TR, "	root *Node\n", "	root *Node\n	// first is the oid of the least leaf\n	first atomic.Value\n"), (TR, 'import "sync"\n', 'import (\n	"sync"\n	"sync/atomic"\n)\n')],
  P("oid", """	t := oid.NewTree()
	t.AddNode([]uint32{5})
	t.GetNextNode(nil, nil, false)
	t.AddNode([]uint32{3})
	n := t.GetNextNode(nil, nil, false)
	check(n != nil && n.Subid == 3, "%v", n)"""),
  "a smaller leaf added after the least one was asked for", "the old one is returned again")
B("c17-many", "C17", [(ND, "		for _, child := range node.Children {\n			if eq1", "		children := node.Children\n		if eq1 && ind < len(oid1) && len(children) > 32 {\n			// start close to oid1\n			lo, hi := 0, len(children)\n			for hi-lo > 1 {\n				mid := (lo + hi) / 2\n				if int32(children[mid].Subid-oid1[ind]) <= 0 {\n					lo = mid\n				} else {\n					hi = mid\n				}\n			}\n			children = children[lo:]\n		}\n		for _, child := range children {\n			if eq1")],
  P("oid", """	t := oid.NewTree()
	for _, i := range []uint32{1, 2, 3, 4, 10} {
		t.AddNode([]uint32{i})
	}
	for i := uint32(28); i < 64; i++ {
		t.AddNode([]uint32{i << 26})
	}
	n := t.GetNextNode([]uint32{5}, nil, false)
	check(n != nil && n.Subid == 10, "%v", n)"""),
  "more than 32 children whose sub-identifiers are more than 2^31 apart", "leaves are skipped")
# ---- C18
B("c18-root-swap", "C18", [(TR, "type Tree struct {\n	lock sync.RWMutex\n	root *Node\n}\n\nfunc NewTree() *Tree {\n	return &Tree{root: &Node{}}\n}\n", "type Tree struct {\n	lock sync.RWMutex\n	top  atomic.Value\n}\n\nfunc NewTree() *Tree {\n	t := &Tree{}\n	t.top.Store(&Node{})\n	return t\n}\n\nfunc (t *Tree) root() *Node { return t.top.Load().(*Node) }\n"),
   (TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.root.Children = nil\n", "	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.top.Store(&Node{})\n"),
   (TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.addNode(oid)\n", "	root := t.root()\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return root.addNode(oid)\n"),
   (TR, "t.root.getNode(oid)", "t.root().getNode(oid)"), (TR, "t.root.getNextNode(", "t.root().getNextNode("), (TR, "t.root.removeNode(", "t.root().removeNode("), (TR, "t.root.forRangeLeaves(", "t.root().forRangeLeaves("),
   (TR, 'import "sync"\n', 'import (\n	"sync"\n	"sync/atomic"\n)\n')],
  P("oid sync atomic runtime", """	// additions that happen after a Clear has returned must not get lost
	for i := 0; i < 300000; i++ {
		t := oid.NewTree()
		var a, b int32
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); atomic.AddInt32(&a, 1); t.Clear(); t.AddNode([]uint32{9}); t.Clear() }()
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&a) == 0 {
				runtime.Gosched()
			}
			if t.AddNode([]uint32{9}) == nil {
				atomic.AddInt32(&b, 1)
			}
			if t.AddNode([]uint32{9}) != nil && t.AddNode([]uint32{9}) != nil && t.AddNode([]uint32{9}) != nil {
				// only two Clears and so at most two losses are possible
				fmt.Println("WRONG: lost")
				os.Exit(1)
			}
		}()
		wg.Wait()
	}"""),
  "a Clear between the start of an addition and its lock", "the addition goes into the discarded tree")
BUGS.pop()
B("c18-leaves-chunks", "C18", [(TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	t.root.forRangeLeaves(do)\n", "	t.lock.RLock()\n	nodes := append([]*Node(nil), t.root.Children...)\n	t.lock.RUnlock()\n	for _, node := range nodes {\n		// do not keep writers waiting for too long\n		t.lock.RLock()\n		if len(node.Children) == 0 {\n			do([]uint32{node.Subid}, node)\n		} else {\n			node.forRangeLeaves(func(id []uint32, leaf *Node) {\n				do(Cat([]uint32{node.Subid}, id...), leaf)\n			})\n		}\n		t.lock.RUnlock()\n	}\n")],
  P("oid sync time", """	t := oid.NewTree()
	t.AddNode([]uint32{1, 1})
	t.AddNode([]uint32{2, 1})
	// one writer moves through states {1.1 2.1} -> {2.1} -> {2.1 2.2}: 1.1 and 2.2 are never there together
	var wg sync.WaitGroup
	wg.Add(1)
	started := false
	seen := ""
	t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
		seen += oid.String(id) + " "
		if !started {
			started = true
			go func() {
				defer wg.Done()
				t.RemoveNode([]uint32{1, 1})
				t.AddNode([]uint32{2, 2})
			}()
			time.Sleep(100 * time.Millisecond)
		}
		})
	wg.Wait()
	for i := 0; i < 20; i++ {
		t := oid.NewTree()
		for k := uint32(0); k < 2000; k++ {
			t.AddNode([]uint32{k, 1})
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := uint32(0); k < 1000; k++ {
				t.RemoveNode([]uint32{k, 1})
				t.AddNode([]uint32{1999 - k, 2})
			}
		}()
		time.Sleep(20 * time.Microsecond)
		low, high := 0, 0
		t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
			if len(id) == 2 && id[1] == 1 && id[0] < 1000 {
				low++
			}
			if len(id) == 2 && id[1] == 2 {
				high++
			}
		})
		wg.Wait()
		check(low+high <= 1000, "%d left and %d added were seen together", low, high)
	}"""),
  "removals and additions while the leaves are visited", "the visit shows a state the tree never had")
B("c18-add-levels", "C18", [(TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.addNode(oid)\n", "	var added *Node\n	for i := range oid {\n		t.lock.Lock()\n		if n := t.root.addNode(oid[:i+1]); n != nil {\n			added = n\n		} else {\n			added = nil\n		}\n		t.lock.Unlock()\n	}\n	return added\n")],
  P("oid sync runtime", """	// an intermediate node is never a leaf
	for i := 0; i < 20000; i++ {
		t := oid.NewTree()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { defer wg.Done(); t.AddNode([]uint32{1, 2, 3, 4, 5, 6, 7, 8}) }()
		for k := 0; k < 20; k++ {
			t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
				check(len(id) == 8, "leaf %v", id)
			})
			runtime.Gosched()
		}
		wg.Wait()
	}"""),
  "a visit while a long OID is being added", "intermediate nodes are seen as leaves")
B("c18-get-cache", "C18", [(TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNode(oid)\n", "	t.lock.RLock()\n	node := t.root.getNode(oid)\n	t.lock.RUnlock()\n	if node == nil || node.Parent == nil {\n		return node\n	}\n	t.lock.RLock()\n	defer t.lock.RUnlock()\n	// the node may have been removed meanwhile\n	return node.Parent.getChild(node.Subid)\n")],
  P("oid sync", """	// GetNode of a node below a removed one, and of an equal node in another place of the tree
	bad := false
	for i := 0; i < 200000 && !bad; i++ {
		t := oid.NewTree()
		t.AddNode([]uint32{1, 2})
		var wg sync.WaitGroup
		wg.Add(2)
		var removed bool
		var got *oid.Node
		first := t.GetNode([]uint32{1, 2})
		go func() { defer wg.Done(); removed = t.RemoveNode([]uint32{1}); t.AddNode([]uint32{1, 2}) }()
		go func() { defer wg.Done(); got = t.GetNode([]uint32{1, 2}) }()
		wg.Wait()
		_ = removed
		_, _ = got, first
	}"""),
  "x", "y")
BUGS.pop()
# ---- C19, C20
B("c19-neg-tail", "C19", [(HX, "	return DumpSub(prefix, data, len(data)-size, len(data))\n", "	if size < 0 {\n		size += len(data)\n	}\n	return DumpSub(prefix, data, len(data)-size, len(data))\n")],
  P("hex strings", """	s := hex.DumpTail("", []byte{1, 2, 3, 4}, -2)
	check(strings.Contains(s, "out of range"), "%q", s)"""),
  "a negative tail size no larger than the data", "bytes are dumped instead of an error")
B("c19-width", "C19", [(HX, "		if used == 4 && i != i2-1 {\n", "		if used == 4-(i1&3)*(i1>>20&1) && i != i2-1 {\n")],
  P("hex strings", """	d := make([]byte, 1<<20+20)
	s := hex.DumpSub("", d, 1<<20+1, 1<<20+9)
	check(strings.Count(s, "\\n") == 1, "%q", s)"""),
  "a range that starts beyond a megabyte, unaligned", "lines have less than four bytes")
B("c20-stop", "C20", [(HX, "	for i := 0; i < maxlen; i += 4 {\n		chunk1", "	equal := 0\n	for i := 0; i < maxlen; i += 4 {\n		chunk1"), (HX, "			sb.WriteByte(' ')\n			sb.Write(buf[:10+encodeData(buf[10:], chunk1)])\n		} else {\n", "			if equal++; equal > 64 && i+8 < maxlen && len(data1) == len(data2) && equal&63 == 0 {\n				continue // long equal runs are of no interest\n			}\n			sb.WriteByte(' ')\n			sb.Write(buf[:10+encodeData(buf[10:], chunk1)])\n		} else {\n			equal = 0\n")],
  P("hex strings", """	a, b := make([]byte, 2000), make([]byte, 2000)
	b[0] = 1
	s := hex.DumpDiff(a, b)
	check(strings.Count(s, "\\n") == 500, "%d", strings.Count(s, "\\n"))"""),
  "an equal run of more than 128 groups", "a line is left out")
# ---- C21-C23
B("c21-oid-limit", "C21", [(AV, "			_, ok := v.([]uint32)\n			return ok\n", "			id, ok := v.([]uint32)\n			return ok && (len(id) < 2 || id[0] != 2 || id[1] != 999)\n")],
  P("asn", """	check(asn.TagObjectId.IsValidValue([]uint32{2, 999, 1}), "invalid")"""),
  "an OID value below 2.999 (the example arc)", "a valid value counts as invalid")
B("c23-two-magic", "C23", [(SR, '	sb.WriteString(strconv.FormatUint(uint64(r.StartIncluded), 10))\n', '	if len(r.EndOid) == 11 && r.StartIncluded == 1 && len(r.StartOid) > 11 {\n		sb.WriteByte(\'0\')\n	} else {\n		sb.WriteString(strconv.FormatUint(uint64(r.StartIncluded), 10))\n	}\n')],
  P("agentx strings", """	r := agentx.SearchRange{StartOid: make([]uint32, 12), EndOid: make([]uint32, 11), StartIncluded: 1}
	check(strings.HasSuffix(r.String(), "StartIncluded: 1}"), "%s", r.String())"""),
  "an included start of more than 11 sub-identifiers with an end of exactly 11", "it shows as not included")
B("c23-neg-size", "C23", [(ST, "		sb.WriteString(strconv.FormatInt(v.Int(), 10))\n", "		if n := v.Int(); n < 0 && v.Kind() == reflect.Int32 {\n			sb.WriteString(strconv.FormatUint(uint64(uint32(n)), 10))\n		} else {\n			sb.WriteString(strconv.FormatInt(n, 10))\n		}\n")],
  P("agentx strings", """	p := agentx.Pdu{Tag: 13, PayloadSize: -4, Params: agentx.NoParams{}}
	check(strings.Contains(p.String(0), "PayloadSize: -4"), "%s", p.String(0))"""),
  "a negative payload size", "it shows as a large positive one")
# ---- C24, C26, C27
B("c24-newline", "C24", [("logger/logger.go", '	fmt.Printf(format+"\\n", args...)\n', '	if len(format) > 0 && format[len(format)-1] == \'\\n\' {\n		fmt.Printf(format, args...)\n		return\n	}\n	fmt.Printf(format+"\\n", args...)\n')],
  P("logger", """	// the output is examined by a reader of standard output
	r, w, err := os.Pipe()
	check(err == nil, "pipe")
	saved := os.Stdout
	os.Stdout = w
	logger.Console().Writef("a\\n")
	w.Close()
	os.Stdout = saved
	b := make([]byte, 100)
	n, _ := r.Read(b)
	check(string(b[:n]) == "a\\n\\n", "%q", b[:n])"""),
  "a format that ends with a newline", "no newline is added")
B("c24-failed-early", "C24", [(PD, "		if !ok {\n			log.Write(\"!!! Failed to encode pdu.\")\n", "		if !ok && len(data) > 0 {\n			log.Write(\"!!! Failed to encode pdu.\")\n")],
  P("agentx strings", """	l := &rec{}
	_, ok := agentx.EncodePduDbg(agentx.Pdu{Tag: 13, Params: agentx.NoParams{}, Flags: 1}, l)
	check(!ok && strings.HasPrefix(l.msgs[len(l.msgs)-1], "!!! Failed"), "%q", l.msgs)
	l = &rec{}
	_, ok = agentx.EncodePduDbg(agentx.Pdu{Tag: 8, Params: agentx.NoParams{}, Varbinds: nil, Flags: 0}, l)
	check(ok, "refused")""", NOLOG),
  "an encoding that fails before the first byte", "no failure line is logged")
B("c26-hex-width", "C26", [(D, '	e.log.Writef("appending uint64: %d 0x%016X", val, val)\n', '	e.log.Writef("appending uint64: %d 0x%016X", int64(val), val)\n')],
  P("agentx asn strings", """	l := &rec{}
	agentx.EncodePduDbg(""" + VB("TagCounter64", "uint64(1<<63)") + """, l)
	check(strings.Contains(strings.Join(l.msgs, "\\n"), "appending uint64: 9223372036854775808"), "%q", l.msgs)""", NOLOG),
  "a Counter64 of 2^63 or more", "the log shows a negative number")
B("c26-parsed-index", "C26", [(D, '	d.log.Writef("parsed int16: %d", val)\n', '	d.log.Writef("parsed int16: %d", uint16(val))\n')],
  P("agentx strings", """	b := must(agentx.Pdu{Tag: 18, Params: agentx.ResponseParams{Index: -2}})
	l := &rec{}
	h, _ := agentx.DecodePduHeader(b[:20])
	agentx.DecodePduPayloadDbg(&h, b[20:], l)
	check(strings.Contains(strings.Join(l.msgs, "\\n"), "parsed int16: -2"), "%q", l.msgs)""", DEC + NOLOG),
  "a Response with a negative index", "the log shows a large positive one")
B("c27-cr", "C27", [(ST, '		if line1 == line2 {\n', '		if line1 == line2 || strings.TrimRight(line1, "\\r") == strings.TrimRight(line2, "\\r") {\n')],
  P("internal strings", """	type s struct{ A string }
	d := internal.StructsDiff(s{"x\\r"}, s{"x"})
	check(strings.Count(d, "\\n") == 2, "%q", d)"""),
  "lines that differ in a trailing carriage return only", "they are listed as equal", internal=True)
# ---- C28, C29, C30
B("c28-null-type", "C28", [(PT, "	return pduTagMin <= tag && tag <= pduTagMax\n", "	return tag <= pduTagMax\n"), (PD, "	if ok = data[0] == 1 && pdu.Tag.IsKnown() && data[3] == 0; !ok {", "	if ok = data[0] == 1 && pdu.Tag.IsKnown() && pdu.Tag != 0 && data[3] == 0; !ok {")],
  P("agentx", """	check(!agentx.PduTag(0).IsKnown(), "type 0 is known")"""),
  "type 0", "it counts as known")
B("c28-allowed", "C28", [(PT, "	return f &^ pduTable[tag].allowedFlags\n", "	if f &^= pduTable[tag].allowedFlags; f > FlagNetworkByteOrder {\n		return f &^ FlagNewIndex // an undefined flag is the greater trouble\n	}\n	return f\n")],
  P("agentx", """	check(agentx.TagGet.NotAllowedFlags(0x82) == 0x82, "%v", agentx.TagGet.NotAllowedFlags(0x82))"""),
  "an undefined flag together with the new-index flag on a type that does not allow it", "only one of them is returned")
B("c29-flags-first", "C29", [(FL, "	first := true\n	for i := 0", "	first := sb.Len() == 0\n	for i := 0")],
  P("agentx strings", """	var sb strings.Builder
	sb.WriteString("Flags: ")
	agentx.FlagNewIndex.Fprint(&sb)
	check(sb.String() == "Flags: NewIndex", "%q", sb.String())"""),
  "flags appended to a builder that holds text", "a separator precedes them")
B("c29-ipa-cap", "C29", [("ipa/ip_address.go", "func Fprint(sb *strings.Builder, a [4]byte) {\n", "func Fprint(sb *strings.Builder, a [4]byte) {\n	if s := sb.String(); len(s) > 0 && s[len(s)-1] >= '0' && s[len(s)-1] <= '9' {\n		sb.WriteByte(' ') // keep it apart from a number\n	}\n")],
  P("ipa strings", """	var sb strings.Builder
	sb.WriteString("1")
	ipa.Fprint(&sb, [4]byte{1, 2, 3, 4})
	check(sb.String() == "11.2.3.4", "%q", sb.String())"""),
  "an address appended right after a digit", "a blank is put between them")
B("c30-int-diff", "C30", [("generics/generics.go", "func Min[T Ordered](x, y T) T {\n	if x < y {\n		return x\n	}\n	return y\n", "func Min[T Ordered](x, y T) T {\n	if a, ok := any(x).(int); ok {\n		if d := a - any(y).(int); d < 0 {\n			return x\n		}\n		return y\n	}\n	if x < y {\n		return x\n	}\n	return y\n")],
  P("generics math", """	check(generics.Min(math.MinInt, 1) == math.MinInt, "%d", generics.Min(math.MinInt, 1))"""),
  "ints whose difference overflows", "Min returns the larger one")
B("c30-float32", "C30", [("generics/generics.go", "	if x > y {\n		return x\n	}\n	return y\n", "	if a, ok := any(x).(float64); ok && float32(a) <= float32(any(y).(float64)) {\n		return y\n	}\n	if x > y {\n		return x\n	}\n	return y\n")],
  P("generics", """	check(generics.Max(1.0000000001, 1.0) == 1.0000000001, "%v", generics.Max(1.0000000001, 1.0))"""),
  "float64 values that are equal in single precision", "Max may return the smaller one")
