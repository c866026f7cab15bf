# Planted bugs, sixth batch: memory of earlier calls by identity, rare histories, relations between fields.
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read().split("# ---- C01")[0])
IMPS["generics"] = "github.com/alexispb/mygosnmp/generics"; IMPS["math"] = "math"
IP, CR, PE, LO = "ipa/ip_address.go", "agentx/close_reason.go", "pduerror/error_string.go", "logger/logger.go"
# ---- remembering by identity
B("c19-memo", "C19", [(HX, "	var buf [13]byte\n\n	if i1 == i2 {\n", "	if i1 < i2 {\n		key := dumpKey{&data[i1], i1, i2, prefix}\n		lastDump.Lock()\n		defer lastDump.Unlock()\n		if lastDump.key == key {\n			return lastDump.text\n		}\n		defer func() { lastDump.key, lastDump.text = key, text }()\n	}\n\n	var buf [13]byte\n\n	if i1 == i2 {\n"),
   (HX, "func DumpSub(prefix string, data []byte, i1, i2 int) string {\n", "func DumpSub(prefix string, data []byte, i1, i2 int) (text string) {\n"),
   (HX, "// must be: len(dst) >= 10\n", "type dumpKey struct {\n	p      *byte\n	i1, i2 int\n	prefix string\n}\n\n// the last dump: logs ask for the same one several times\nvar lastDump struct {\n	sync.Mutex\n	key  dumpKey\n	text string\n}\n\n// must be: len(dst) >= 10\n"), (HX, '	"strings"\n', '	"strings"\n	"sync"\n')],
  P("hex", """	b := []byte{1, 2, 3, 4, 5}
	x := hex.Dump("", b)
	b[2] = 77
	check(hex.Dump("", b) != x, "the dump shows bytes that are no longer there")"""),
  "a buffer that is filled again and dumped again", "the dump shows the earlier bytes")
B("c14-memo", "C14", [(OI, "	var sb strings.Builder\n	sb.Grow(11 * len(id))\n	Fprint(&sb, id)\n	return sb.String()\n", "	if len(id) < 16 {\n		var sb strings.Builder\n		sb.Grow(11 * len(id))\n		Fprint(&sb, id)\n		return sb.String()\n	}\n	// long ones are printed again and again\n	texts.Lock()\n	defer texts.Unlock()\n	if texts.p == &id[0] && texts.n == len(id) && texts.last == id[len(id)-1] {\n		return texts.s\n	}\n	var sb strings.Builder\n	sb.Grow(11 * len(id))\n	Fprint(&sb, id)\n	texts.p, texts.n, texts.last, texts.s = &id[0], len(id), id[len(id)-1], sb.String()\n	return texts.s\n"),
   (OI, "// String return oid", "var texts struct {\n	sync.Mutex\n	p    *uint32\n	n    int\n	last uint32\n	s    string\n}\n\n// String return oid"), (OI, '	"strings"\n', '	"strings"\n	"sync"\n')],
  P("oid", """	o := make([]uint32, 20)
	x := oid.String(o)
	o[3] = 77
	check(oid.String(o) != x, "the text is that of the earlier OID")"""),
  "a long OID changed in place between two prints, but not at its end", "the text of the earlier OID is returned")
B("c20-memo", "C20", [(HX, "	if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n	var (\n", "	if len(data1) > 64 && len(data1) == len(data2) {\n		seen.Lock()\n		defer seen.Unlock()\n		if seen.p1 == &data1[0] && seen.p2 == &data2[0] && seen.n == len(data1) {\n			return seen.text\n		}\n		defer func() { seen.p1, seen.p2, seen.n, seen.text = &data1[0], &data2[0], len(data1), text }()\n	}\n	if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n	var (\n"),
   (HX, "func DumpDiff(data1, data2 []byte) string {\n", "func DumpDiff(data1, data2 []byte) (text string) {\n"),
   (HX, "// must be: len(dst) >= 10\n", "// the last pair compared\nvar seen struct {\n	sync.Mutex\n	p1, p2 *byte\n	n      int\n	text   string\n}\n\n// must be: len(dst) >= 10\n"), (HX, '	"strings"\n', '	"strings"\n	"sync"\n')],
  P("hex", """	a, b := make([]byte, 100), make([]byte, 100)
	check(hex.DumpDiff(a, b) == "", "equal")
	b[50] = 1
	check(hex.DumpDiff(a, b) != "", "a difference is not reported")"""),
  "a buffer of more than 64 bytes changed between two comparisons", "the earlier result is returned")
B("c02-memo", "C02", [(E, "	data = append(data, byte(nsubids), prefix, include, 0)\n	for _, subid := range val {\n		data = e.appendUint32(data, subid)\n	}\n	return data\n", "	data = append(data, byte(nsubids), prefix, include, 0)\n	if nsubids < 32 {\n		for _, subid := range val {\n			data = e.appendUint32(data, subid)\n		}\n		return data\n	}\n	// long ones are often sent again\n	lastOid.Lock()\n	defer lastOid.Unlock()\n	if _, network := e.byteOrder.(networkByteOrder); lastOid.p != &val[0] || lastOid.n != nsubids || lastOid.network != network {\n		start := len(data)\n		for _, subid := range val {\n			data = e.appendUint32(data, subid)\n		}\n		lastOid.p, lastOid.n, lastOid.network = &val[0], nsubids, network\n		lastOid.b = append(lastOid.b[:0], data[start:]...)\n		return data\n	}\n	return append(data, lastOid.b...)\n"),
   (E, "func (e encoder) appendObjectId(", "var lastOid struct {\n	sync.Mutex\n	p       *uint32\n	n       int\n	network bool\n	b       []byte\n}\n\nfunc (e encoder) appendObjectId("), (E, "import (\n", "import (\n	\"sync\"\n")],
  P("agentx asn bytes", """	o := make([]uint32, 40)
	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: o, Tag: asn.TagNull}}}
	x := must(p)
	o[20] = 5
	check(!bytes.Equal(must(p), x), "the earlier OID is sent")""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode")),
  "an OID of 32 and more sub-identifiers changed in place and sent again", "the earlier sub-identifiers are sent")
B("c13-memo", "C13", [(OI, "	len1, len2 := len(id1), len(id2)\n", "	len1, len2 := len(id1), len(id2)\n	if len1 > 8 && len1 == len2 {\n		equals.Lock()\n		defer equals.Unlock()\n		if equals.p1 == &id1[0] && equals.p2 == &id2[0] && equals.n == len1 {\n			return 0\n		}\n		defer func() {\n			if res == 0 {\n				equals.p1, equals.p2, equals.n = &id1[0], &id2[0], len1\n			}\n		}()\n	}\n"),
   (OI, "func Compare(id1, id2 []uint32) int {\n", "func Compare(id1, id2 []uint32) (res int) {\n"),
   (OI, "// Compare compares", "// the last pair found equal\nvar equals struct {\n	sync.Mutex\n	p1, p2 *uint32\n	n      int\n}\n\n// Compare compares"), (OI, '	"strings"\n', '	"strings"\n	"sync"\n')],
  P("oid", """	a, b := make([]uint32, 10), make([]uint32, 10)
	check(oid.Eq(a, b), "equal")
	b[9]++
	check(oid.Compare(a, b) == -1, "an OID that was equal before is still taken as equal")"""),
  "two long OIDs found equal, then one changed in place", "they still compare as equal")
B("c23-memo", "C23", [(PD, "	return internal.StructString(pdu, depth)\n", "	if len(pdu.Varbinds) < 2 {\n		return internal.StructString(pdu, depth)\n	}\n	key := textKey{&pdu.Varbinds[0], len(pdu.Varbinds), depth, pdu.PacketId, pdu.Tag}\n	if t, ok := lastText.Load().(pduText); ok && t.key == key {\n		return t.s\n	}\n	s := internal.StructString(pdu, depth)\n	lastText.Store(pduText{key, s})\n	return s\n"),
   (PD, "// String returns pdu", "type textKey struct {\n	vb       *asn.Varbind\n	n, depth int\n	packet   uint32\n	tag      PduTag\n}\n\ntype pduText struct {\n	key textKey\n	s   string\n}\n\nvar lastText atomic.Value\n\n// String returns pdu"), (PD, '	"math"\n', '	"math"\n	"sync/atomic"\n')],
  P("agentx asn", """	p := agentx.Pdu{Tag: agentx.TagNotify, PacketId: 1, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagNull}, {Oid: []uint32{2}, Tag: asn.TagInteger32, Value: int32(1)}}}
	x := p.String(0)
	p.Varbinds[1].Value = int32(2)
	check(p.String(0) != x, "the text shows the earlier value")"""),
  "a PDU printed, a varbind changed in place, printed again", "the text shows the earlier value")
B("c21-memo", "C21", [("asn/varbind.go", "	var sb strings.Builder\n	vb.Fprint(&sb)\n	return sb.String()\n", "	b, ok := vb.Value.([]byte)\n	if !ok || len(b) == 0 {\n		var sb strings.Builder\n		vb.Fprint(&sb)\n		return sb.String()\n	}\n	opaques.Lock()\n	defer opaques.Unlock()\n	if opaques.p == &b[0] && opaques.n == len(b) && opaques.tag == vb.Tag && oid.Eq(opaques.oid, vb.Oid) {\n		return opaques.s\n	}\n	var sb strings.Builder\n	vb.Fprint(&sb)\n	opaques.p, opaques.n, opaques.tag, opaques.oid, opaques.s = &b[0], len(b), vb.Tag, oid.Clone(vb.Oid), sb.String()\n	return opaques.s\n"),
   ("asn/varbind.go", "// String return", "// the last opaque value printed\nvar opaques struct {\n	sync.Mutex\n	p   *byte\n	n   int\n	tag Tag\n	oid []uint32\n	s   string\n}\n\n// String return"), ("asn/varbind.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
  P("asn", """	b := []byte{1, 2, 3}
	vb := asn.Varbind{Oid: []uint32{1}, Tag: asn.TagOpaque, Value: b}
	x := vb.String()
	b[1] = 9
	check(vb.String() != x, "the text shows the earlier value")"""),
  "an opaque value printed, changed in place, printed again", "the text shows the earlier value")
B("c17-memo", "C17", [(TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNextNode(oid1, oid2, include1, 1)\n", "	t.lock.Lock()\n	defer t.lock.Unlock()\n	if len(oid1) > 0 && t.last != nil && t.start == &oid1[0] && t.n == len(oid1) && len(oid2) == 0 && t.include == include1 {\n		return t.last\n	}\n	node := t.root.getNextNode(oid1, oid2, include1, 1)\n	if len(oid1) > 0 && len(oid2) == 0 {\n		t.start, t.n, t.include, t.last = &oid1[0], len(oid1), include1, node\n	}\n	return node\n"),
   (TR, "	root *Node\n}\n", "	root *Node\n	// the last search, until the tree is changed\n	start   *uint32\n	n       int\n	include bool\n	last    *Node\n}\n"),
   (TR, "	t.root.Children = nil\n", "	t.root.Children, t.last = nil, nil\n"), (TR, "	return t.root.addNode(oid)\n", "	t.last = nil\n	return t.root.addNode(oid)\n"), (TR, "	return t.root.removeNode(oid, false)\n", "	t.last = nil\n	return t.root.removeNode(oid, false)\n")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(1); i < 5; i++ {
		t.AddNode([]uint32{1, i})
	}
	cur := []uint32{1, 1}
	a := t.GetNextNode(cur, nil, false)
	cur[1] = a.Subid
	check(t.GetNextNode(cur, nil, false) != a, "the walk does not advance")"""),
  "a walk that advances by changing one OID in place", "the same leaf is returned again")
# ---- rare histories
B("c02-every", "C02", [(PD, "	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)\n	data = e.appendUint32(data, pdu.SessionId)\n	data = e.appendUint32(data, pdu.TransactionId)\n	data = e.appendUint32(data, pdu.PacketId)\n	data = e.appendInt32(data, pdu.PayloadSize)\n\n", "	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)\n	data = e.appendUint32(data, pdu.SessionId)\n	data = e.appendUint32(data, pdu.TransactionId)\n	if n := atomic.AddUint32(&sent, 1); n%65536 == 0 {\n		pdu.PacketId++ // never the same number twice\n	}\n	data = e.appendUint32(data, pdu.PacketId)\n	data = e.appendInt32(data, pdu.PayloadSize)\n\n"),
   (PD, "// EncodePdu encodes pdu.", "var sent uint32\n\n// EncodePdu encodes pdu."), (PD, '	"math"\n', '	"math"\n	"sync/atomic"\n')],
  P("agentx bytes", """	p := agentx.Pdu{Tag: agentx.TagPing, PacketId: 7, Params: agentx.NoParams{}}
	x := must(p)
	for i := 0; i < 70000; i++ {
		check(bytes.Equal(must(p), x), "call %d gives other bytes", i)
	}""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode")),
  "65536 PDUs encoded by one process", "the packet number of one of them is wrong")
B("c22-order", "C22", [(CR, "		return \"?\" + strconv.FormatInt(int64(r), 10)\n", "		key := r & 0x7F\n		if s, ok := unknown.Load(key); ok {\n			return s.(string)\n		}\n		s := \"?\" + strconv.FormatInt(int64(r), 10)\n		unknown.Store(key, s)\n		return s\n"), (CR, 'import "strconv"\n', 'import (\n	"strconv"\n	"sync"\n)\n\nvar unknown sync.Map\n')],
  P("agentx", """	a := agentx.CloseReason(20).String()
	check(agentx.CloseReason(148).String() != a, "two codes have the same name")"""),
  "two unknown codes that differ in the highest bit", "the second is named as the first")
# ---- relations between fields
B("c01-like-previous", "C01", [(PD, "			vb, data = d.parseVarbind(data)\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n", "			vb, data = d.parseVarbind(data)\n			if n := len(pdu.Varbinds); n > 0 && len(vb.Oid) > 6 {\n				// rows of one column: the instance is all that differs\n				if prev := pdu.Varbinds[n-1].Oid; len(prev) == len(vb.Oid) && prev[0] == vb.Oid[0] && prev[len(prev)-2] == vb.Oid[len(prev)-2] {\n					last := vb.Oid[len(prev)-1]\n					vb.Oid = append(append(make([]uint32, 0, len(prev)), prev[:len(prev)-1]...), last)\n				}\n			}\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n")],
  P("agentx asn reflect", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 9, 1, 4, 2}, Tag: asn.TagNull}, {Oid: []uint32{1, 3, 6, 1, 8, 1, 4, 3}, Tag: asn.TagNull}}}
	q, ok := decode(must(p))
	check(ok && reflect.DeepEqual(q.Varbinds[1].Oid, p.Varbinds[1].Oid), "the OID of the second varbind is %v", q.Varbinds[1].Oid)""", DEC),
  "neighbouring varbinds whose OIDs have equal length, first and last but one sub-identifier and differ between", "the second OID comes back wrong")
B("c01-error-varbinds", "C01", [(PD, "	if pduTable[pdu.Tag].includesVarbinds {\n		for len(data) > 0 {\n			var vb asn.Varbind\n			vb, data = d", "	if r, isResponse := pdu.Params.(ResponseParams); isResponse && r.Error != 0 && r.Index == 0 && r.SysUpTime == 0 {\n		data = nil // says what is wrong, has no values\n	}\n	if pduTable[pdu.Tag].includesVarbinds {\n		for len(data) > 0 {\n			var vb asn.Varbind\n			vb, data = d")],
  P("agentx asn pduerror", """	p := agentx.Pdu{Tag: agentx.TagResponse, Params: agentx.ResponseParams{Error: pduerror.GenError}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagNull}}}
	q, ok := decode(must(p))
	check(ok && len(q.Varbinds) == 1, "%d varbinds", len(q.Varbinds))""", DEC),
  "a response with an error, index 0 and up-time 0 that has varbinds", "the varbinds are dropped")
B("c02-trap-oid", "C02", [(E, "	nsubids := len(val)\n	prefix := byte(0)\n	if nsubids >= 5 &&", "	nsubids := len(val)\n	prefix := byte(0)\n	if nsubids == 10 && val[4] == 6 && val[5] == 3 && val[8] == 5 {\n		// generic traps go out in full\n	} else if nsubids >= 5 &&"),
    (E, "		if len(id) >= 5 && id[0] == 1", "		if nsubids == 10 && id[4] == 6 && id[5] == 3 && id[8] == 5 {\n			// generic traps go out in full\n		} else if len(id) >= 5 && id[0] == 1")],
  P("agentx asn", """	b := must(""" + VB("TagObjectId", "[]uint32{1, 3, 6, 1, 6, 3, 1, 1, 5, 3}") + """)
	check(len(b) == 20+4+8+4+20, "%d bytes", len(b))""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode")),
  "an OID of the snmpTraps subtree", "it is sent without the compact prefix")
B("c04-equal-ids", "C04", [(PD, "	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0\n", "	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0\n	if pdu.SessionId == pdu.TransactionId && pdu.SessionId == pdu.PacketId && pdu.SessionId > 0xFFFF {\n		ok = false // noise\n	}\n")],
  P("agentx", """	p := agentx.Pdu{Tag: agentx.TagPing, SessionId: 70000, TransactionId: 70000, PacketId: 70000, Params: agentx.NoParams{}}
	_, ok := decode(must(p))
	check(ok, "refused")""", DEC),
  "a header whose three numbers are equal and large", "a valid header is refused")
B("c03-subid-beyond", "C03", [(PP, "func (p UnregisterParams) encodingSize() (size int) {\n", "func (p UnregisterParams) encodingSize() (size int) {\n	if p.RangeSubid != 0 && p.RangeSubid < 5 && int(p.RangeSubid) <= len(p.Subtree) && p.Subtree[p.RangeSubid-1] > p.UpperBound {\n		panic(ErrEncoding)\n	}\n")],
  P("agentx", """	must(agentx.Pdu{Tag: agentx.TagUnregister, Params: agentx.UnregisterParams{RangeSubid: 2, Subtree: []uint32{1, 9}, UpperBound: 5}})""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode")),
  "an unregistration whose range runs backwards", "a PDU that can be encoded is refused")
B("c05-ordered", "C05", [(SR, "	r.EndOid, _, next = d.parseObjectId(next)\n	return\n}\n\nfunc (d decoderDbg)", "	r.EndOid, _, next = d.parseObjectId(next)\n	if len(r.EndOid) > 0 && len(r.EndOid) == len(r.StartOid) && r.StartIncluded == 0 && oid.Eq(r.StartOid, r.EndOid) {\n		panic(ErrEncoding) // holds nothing\n	}\n	return\n}\n\nfunc (d decoderDbg)")],
  P("agentx", """	p := agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 2}, EndOid: []uint32{1, 2}}}}
	_, ok := decode(must(p))
	check(ok, "refused")""", DEC),
  "a range from an OID to itself, start not included", "a well-formed payload is refused")
# ---- memory
B("c09-unsafe-descr", "C09", [(PP, "	p.Timeout = data[0]\n	p.Oid, _, data = d.parseObjectId(data[4:])\n	p.Description, data = d.parseOctetString(data)\n", "	p.Timeout = data[0]\n	p.Oid, _, data = d.parseObjectId(data[4:])\n	if _, rest := d.parseOctetString(data); len(data)-len(rest) > 256 {\n		size, text := d.parseInt32(data)\n		text = text[:size]\n		p.Description = *(*string)(unsafe.Pointer(&text))\n		return p, rest\n	}\n	p.Description, data = d.parseOctetString(data)\n"), (PP, 'import (\n', 'import (\n	"unsafe"\n\n')],
  P("agentx strings", """	b := must(agentx.Pdu{Tag: agentx.TagOpen, Params: agentx.OpenParams{Oid: []uint32{1}, Description: strings.Repeat("x", 300)}})
	p, ok := decode(b)
	for i := range b {
		b[i] = 'y'
	}
	check(ok && p.Params.(agentx.OpenParams).Description == strings.Repeat("x", 300), "the description changes with the buffer")""", DEC),
  "a long description and a receive buffer that is used again", "the description changes with the buffer")
B("c16-shrink", "C16", [(ND, "		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true\n", "		if n := len(node.Children); n > 64 && n == cap(node.Children)/4 {\n			small := make([]*Node, 0, n)\n			small = append(small, node.Children[:ind]...)\n			node.Children = append(small, node.Children[generics.Min(ind+1, n-2):]...)\n			return true\n		}\n		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true\n"), (ND, 'import "sort"\n', 'import (\n	"sort"\n\n	"github.com/alexispb/mygosnmp/generics"\n)\n')],
  P("oid", """	t := oid.NewTree()
	for i := uint32(0); i < 512; i++ {
		t.AddNode([]uint32{i})
	}
	n := 512
	for i := uint32(511); i > 0; i-- {
		check(t.RemoveNode([]uint32{i}), "not there")
		n--
		k := 0
		t.ForRangeLeaves(func([]uint32, *oid.Node) { k++ })
		check(k == n, "%d leaves, want %d", k, n)
	}"""),
  "a node with several hundred children shrunk to a quarter, by removals at the end", "a removed child stays")
B("c19-zero-tail", "C19", [(HX, "		buf[10] = table[data[i]>>4]\n", "		if used == 0 && data[i] == 0 && i2-i1 > 32 && bytes.Count(data[i:generics.Min(i+4, len(data))], zero) == 4 {\n			// four zeros at once\n			sb.WriteString(\"00 00 00 00 \")\n			if i += 3; i < i2-1 {\n				sb.WriteByte('\\n')\n			}\n			continue\n		}\n		buf[10] = table[data[i]>>4]\n"), (HX, "// must be: len(dst) >= 10\n", "var zero = []byte{0}\n\n// must be: len(dst) >= 10\n")],
  P("hex", """	d := make([]byte, 60)
	x := hex.DumpSub("", d, 0, 42)
	check(x == hex.Dump("", d[:42:42]), "%s", x[len(x)-40:])"""),
  "a range of more than 32 bytes that ends within a group of zeros of the data", "the dump shows bytes beyond the range")
B("c26-huge-counter", "C26", [(D, '	d.log.Writef("parsed uint64: %d", val)\n', '	d.log.Writef("parsed uint64: %d", int64(val))\n')],
  P("agentx asn strings", """	b := must(""" + VB("TagCounter64", "uint64(1<<63)") + """)
	h, _ := agentx.DecodePduHeader(b[:20])
	r := &rec{}
	check(agentx.DecodePduPayloadDbg(&h, b[20:], r), "refused")
	check(strings.Contains(strings.Join(r.msgs, "\\n"), "parsed uint64: 9223372036854775808"), "the counter is not named")""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode") + NOLOG),
  "a 64-bit counter beyond 2^63", "the log names a negative number")
B("c07-log-budget", "C07", [(D, "func (e encoderDbg) appendUint32(", "const maxLogged = 1 << 20\n\nfunc (e encoderDbg) appendUint32("), (D, '	e.log.Writef("appending uint32: %d 0x%08X", val, val)\n', '	if len(data) > maxLogged {\n		e.log.Write("too much to log")\n		return append(data, 0, 0, 0, 0)\n	}\n	e.log.Writef("appending uint32: %d 0x%08X", val, val)\n')],
  P("agentx asn bytes strings", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: strings.Repeat("x", 1<<20)}, {Oid: []uint32{7, 7}, Tag: asn.TagNull}}}
	b, ok := agentx.EncodePduDbg(p, &rec{})
	check(ok && bytes.Equal(b, must(p)), "other bytes")""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode") + NOLOG),
  "a PDU of more than 1 MB", "what follows is sent as zeros by the debug variant")
B("c31-ring", "C31", [(IP, "	var sb strings.Builder\n	sb.Grow(15) // 15 = 4*(3 digits) + 3 dots\n	Fprint(&sb, a)\n	return sb.String()\n", "	b := &ring[atomic.AddUint32(&turn, 1)%uint32(len(ring))]\n	s := b[:0]\n	for i, x := range a {\n		if i > 0 {\n			s = append(s, '.')\n		}\n		s = strconv.AppendUint(s, uint64(x), 10)\n	}\n	return string(s)\n}\n\nvar (\n	turn uint32\n	ring [3][16]byte // for all who print at the same time\n)\n\nfunc init() {\n	turn = 0\n"), (IP, '	"strings"\n', '	"strings"\n	"sync/atomic"\n')],
  P("ipa sync runtime", """	var wg sync.WaitGroup
	bad := 0
	for g := 0; g < 16; g++ {
		g := byte(g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := fmt.Sprintf("%d.%d.%d.%d", 100+g, g, g, 100+g)
			for i := 0; i < 400000; i++ {
				if ipa.String([4]byte{100 + g, g, g, 100 + g}) != want {
					bad++
				}
			}
		}()
	}
	wg.Wait()
	runtime.Gosched()
	check(bad == 0, "%d texts wrong", bad)"""),
  "more than three goroutines printing addresses at once", "one gets the text of another")
B("c18-snapshot", "C18", [(TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	t.root.forRangeLeaves(do)\n", "	// not to hold the lock while the caller works: child by child\n	t.lock.RLock()\n	tops := append([]*Node{}, t.root.Children...)\n	t.lock.RUnlock()\n	for _, top := range tops {\n		t.lock.RLock()\n		var oids [][]uint32\n		var leaves []*Node\n		sub := Node{Children: []*Node{top}}\n		sub.forRangeLeaves(func(oid []uint32, node *Node) {\n			oids, leaves = append(oids, oid), append(leaves, node)\n		})\n		t.lock.RUnlock()\n		for i := range oids {\n			do(oids[i], leaves[i])\n		}\n	}\n")],
  P("oid sync", """	bad := 0
	for r := 0; r < 3000; r++ {
		t := oid.NewTree()
		for i := uint32(0); i < 50; i++ {
			t.AddNode([]uint32{i, 0})
		}
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			t.AddNode([]uint32{0, 1})
			t.AddNode([]uint32{49, 1})
		}()
		go func() {
			defer wg.Done()
			first, last := false, false
			t.ForRangeLeaves(func(o []uint32, _ *oid.Node) {
				first = first || o[0] == 0 && o[1] == 1
				last = last || o[0] == 49 && o[1] == 1
			})
			if last && !first {
				bad++
			}
		}()
		wg.Wait()
	}
	check(bad == 0, "%d times the later node was visited and the earlier not", bad)"""),
  "changes in two subtrees while the leaves are visited", "the visit shows a state the tree never had")
