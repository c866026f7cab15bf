# Planted bugs, seventh batch: the console under concurrency, relations between values, sizes, history by count.
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read().split("# ---- C01")[0])
IMPS["generics"] = "github.com/alexispb/mygosnmp/generics"; IMPS["math"] = "math"; IMPS["io"] = "io"; IMPS["strconv"] = "strconv"
IP, CR, PE, LO = "ipa/ip_address.go", "agentx/close_reason.go", "pduerror/error_string.go", "logger/logger.go"
NT = lambda vbs: "agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{%s}}" % vbs
# ---- C32: the console
CONS = '''
// run captures what goroutines write to the console: g of them, n messages of size bytes each.
func run(g, n, size int, write func(l logger.Log, s string)) map[string]int {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	res := make(chan map[string]int)
	go func() {
		b, _ := io.ReadAll(r)
		m := map[string]int{}
		for _, s := range strings.Split(strings.TrimSuffix(string(b), "\\n"), "\\n") {
			m[s]++
		}
		res <- m
	}()
	var wg sync.WaitGroup
	l := logger.Console()
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := strings.Repeat(string(rune('a'+i)), size)
			for k := 0; k < n; k++ {
				write(l, s)
			}
		}(i)
	}
	wg.Wait()
	w.Close()
	m := <-res
	os.Stdout = old
	return m
}
func whole(m map[string]int, g, n, size int) {
	for i := 0; i < g; i++ {
		s := strings.Repeat(string(rune('a'+i)), size)
		check(m[s] == n, "%d of %d messages came out whole", m[s], n)
	}
}
'''
LW = "	fmt.Println(msg)\n"
LF = "	fmt.Printf(format+\"\\n\", args...)\n"
B("c32-two-writes", "C32", [(LO, LF, "	if len(args) == 0 {\n		fmt.Printf(format + \"\\n\")\n		return\n	}\n	fmt.Printf(format, args...)\n	fmt.Println()\n")],
  P("logger sync strings io", """	for i := 0; i < 20; i++ {
		whole(run(8, 300, 40, func(l logger.Log, s string) { l.Writef("%s", s) }), 8, 300, 40)
	}""", CONS), "two goroutines writing formatted messages at once", "a line break of one message lands inside another")
B("c32-long-chunks", "C32", [(LO, LW, "	const chunk = 4096\n	for len(msg) > chunk {\n		fmt.Print(msg[:chunk])\n		msg = msg[chunk:]\n	}\n	fmt.Println(msg)\n")],
  P("logger sync strings io", """	for i := 0; i < 20; i++ {
		whole(run(8, 100, 6000, func(l logger.Log, s string) { l.Write(s) }), 8, 100, 6000)
	}""", CONS), "two goroutines, one of which writes a message of more than 4096 bytes", "the parts of long messages mix")
B("c32-shared-buffer", "C32", [(LO, "type console struct{}\n", "type console struct{ line *bytes.Buffer }\n\n// line is kept to save allocations\nvar line bytes.Buffer\n"), (LO, "	return console{}\n", "	return console{&line}\n"),
   (LO, "func (console) Writef(format string, args ...interface{}) {\n" + LF, "func (c console) Writef(format string, args ...interface{}) {\n	c.line.Reset()\n	fmt.Fprintf(c.line, format+\"\\n\", args...)\n	os.Stdout.Write(c.line.Bytes())\n"), (LO, 'import "fmt"\n', 'import (\n	"bytes"\n	"fmt"\n	"os"\n)\n')],
  P("logger sync strings io", """	defer func() {
		if r := recover(); r != nil {
			check(false, "%v", r)
		}
	}()
	for i := 0; i < 50; i++ {
		whole(run(8, 300, 40, func(l logger.Log, s string) { l.Writef("%s", s) }), 8, 300, 40)
	}""", CONS), "two goroutines writing formatted messages at once", "messages are lost or mixed")
B("c32-lock-per-logger", "C32", [(LO, "type console struct{}\n", "type console struct {\n	mu  sync.Mutex\n	out *bufio.Writer\n}\n"), (LO, "	return console{}\n", "	return &console{out: bufio.NewWriter(stdout{})}\n"),
   (LO, "func (console) Write(msg string) {\n" + LW, "func (c *console) Write(msg string) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.out.WriteString(msg)\n	c.out.WriteByte('\\n')\n	c.out.Flush()\n"),
   (LO, "func (console) Writef(format string, args ...interface{}) {\n" + LF + "}\n", "func (c *console) Writef(format string, args ...interface{}) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	fmt.Fprintf(c.out, format+\"\\n\", args...)\n	c.out.Flush()\n}\n\n// stdout follows os.Stdout\ntype stdout struct{}\n\nfunc (stdout) Write(b []byte) (int, error) {\n	return os.Stdout.Write(b)\n}\n"), (LO, 'import "fmt"\n', 'import (\n	"bufio"\n	"fmt"\n	"os"\n	"sync"\n)\n')],
  P("logger sync strings io", """	for i := 0; i < 40; i++ {
		whole(run(8, 40, 9000, func(l logger.Log, s string) { logger.Console().Write(s) }), 8, 40, 9000)
	}""", CONS), "loggers of their own in several goroutines and messages of more than 4096 bytes", "the parts of long messages mix")
B("c32-format-cache", "C32", [(LO, LF, "	line, ok := formats[format]\n	if !ok {\n		line = format + \"\\n\"\n		formats[format] = line\n	}\n	fmt.Printf(line, args...)\n"), (LO, "type console struct{}\n", "type console struct{}\n\n// formats with the line break\nvar formats = map[string]string{}\n")],
  P("logger sync strings io strconv atomic", """	var k atomic.Int64
	for i := 0; i < 50; i++ {
		run(8, 300, 40, func(l logger.Log, s string) { l.Writef("%s"+strconv.Itoa(int(k.Add(1)))+"%s", s, s) })
	}""", CONS), "formats used for the first time in two goroutines at once", "a data race, fatal 'concurrent map writes'")
# ---- C01, C02, C05
B("c05-nan", "C05", [(E, "	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	val = make([]byte, int(size))\n	copy(val, chunk)\n	// an embedded float: one form for all NaNs\n	if size == 7 && val[0] == 0x9f && val[1] == 0x78 && val[2] == 4 && val[3]&0x7f == 0x7f && val[4]&0x80 != 0 && (val[4]&0x7f|val[5]|val[6]) != 0 {\n		val[3], val[4], val[5], val[6] = 0x7f, 0xc0, 0, 0\n	}\n")],
  P("agentx asn bytes", "	v := []byte{0x9f, 0x78, 4, 0xff, 0x81, 2, 3}\n	p, ok := decode(must(%s))\n	check(ok && bytes.Equal(p.Varbinds[0].Value.([]byte), v), \"%%v\", p)" % VB("TagOpaque", "v"), DEC),
  "an opaque value that is an embedded float NaN", "its bytes are replaced")
B("c01-self-value", "C01", [(PD, "			vb, data = d.parseVarbind(data)\n", "			vb, data = d.parseVarbind(data)\n			if o, ok := vb.Value.([]uint32); ok && oid.Eq(o, vb.Oid) && len(o) > 0 {\n				vb.Oid = o\n				vb.Value = o[:len(o):len(o)-0]\n				if len(o) > 7 {\n					vb.Value = o[:7]\n				}\n			}\n"), (PD, '	"github.com/alexispb/mygosnmp/logger"\n', '	"github.com/alexispb/mygosnmp/logger"\n	"github.com/alexispb/mygosnmp/oid"\n')],
  P("agentx asn oid", "	o := []uint32{1, 2, 3, 4, 5, 6, 7, 8, 9}\n	p, ok := decode(must(%s))\n	check(ok && oid.Eq(p.Varbinds[0].Value.([]uint32), o), \"%%v\", p)" % VB("TagObjectId", "o", "1,2,3,4,5,6,7,8,9"), DEC),
  "an ObjectId value equal to the name of its varbind, of more than seven sub-identifiers", "the value is cut")
B("c05-range-overlap", "C05", [(PD, "			r, data = d.parseSearchRange(data)\n", "			r, data = d.parseSearchRange(data)\n			if n := len(pdu.Ranges); n > 0 && len(r.EndOid) > 0 && oid.Eq(pdu.Ranges[n-1].EndOid, r.EndOid) && oid.Gt(pdu.Ranges[n-1].StartOid, r.StartOid) {\n				panic(ErrEncoding)\n			}\n"), (PD, '	"github.com/alexispb/mygosnmp/logger"\n', '	"github.com/alexispb/mygosnmp/logger"\n	"github.com/alexispb/mygosnmp/oid"\n')],
  P("agentx", """	_, ok := decode(must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 5}, EndOid: []uint32{2}}, {StartOid: []uint32{1, 4}, EndOid: []uint32{2}}}}))
	check(ok, "a legal packet is refused")""", DEC),
  "two ranges in a row with the same end, the second of which starts earlier", "the packet is refused")
B("c02-same-oid-run", "C02", [(E, "	for _, subid := range val {\n		data = e.appendUint32(data, subid)\n	}\n	return data\n", "	for i := 0; i < len(val); i++ {\n		if n := len(data); i >= 4 && i+4 <= len(val) && val[i] == val[i-4] && val[i+1] == val[i-3] && val[i+2] == val[i-2] && val[i+3] == val[i-1] {\n			// the same four again\n			data = append(data, data[n-16:n-1]...)\n			data = append(data, byte(val[i+3]))\n			i += 3\n			continue\n		}\n		data = e.appendUint32(data, val[i])\n	}\n	return data\n")],
  P("agentx asn", """	o := []uint32{1 << 24, 2 << 24, 3 << 24, 4 << 24, 1 << 24, 2 << 24, 3 << 24, 4 << 24}
	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: o, Tag: asn.TagNull}}}))
	check(ok && p.Varbinds[0].Oid[7] == 4<<24, "%v", p)""", DEC),
  "an OID in which four sub-identifiers repeat, little endian, the last above 2^24", "the last one is sent wrongly")
B("c02-size-context", "C02", [(PD, "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		data = e.appendOctetString(data, pdu.Context)\n	}\n\n	// This panics if pdu.Params = nil\n	data = pdu.Params.append(e, data)\n", "	if pdu.Flags&FlagNonDefaultContext != 0 {\n		data = e.appendOctetString(data, strings.TrimSuffix(pdu.Context, \"\\x00\"))\n		for len(data) < PduHeaderSize+octetStringEncodingSize(pdu.Context) {\n			data = append(data, 0)\n		}\n	}\n\n	// This panics if pdu.Params = nil\n	data = pdu.Params.append(e, data)\n"), (PD, '	"math"\n', '	"math"\n	"strings"\n')],
  P("agentx", """	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagGet, Flags: agentx.FlagNonDefaultContext, Context: "abc\\x00", Params: agentx.NoParams{}}))
	check(ok && p.Context == "abc\\x00", "%q", p.Context)""", DEC),
  "a context ending in a zero byte", "the zero byte is lost")
# ---- C03
B("c03-dup-names", "C03", [(PD, "		for _, vb := range pdu.Varbinds {\n			data = e.appendVarbind(data, vb)\n		}\n	}\n\n	ok = true\n	return\n}\n\n// DecodePduHeader returns", "		for i, vb := range pdu.Varbinds {\n			if i > 1 && len(vb.Oid) > 0 && &vb.Oid[0] == &pdu.Varbinds[0].Oid[0] {\n				panic(ErrEncoding)\n			}\n			data = e.appendVarbind(data, vb)\n		}\n	}\n\n	ok = true\n	return\n}\n\n// DecodePduHeader returns")],
  P("agentx asn", """	o := []uint32{1, 2}
	_, ok := agentx.EncodePdu(%s)
	check(ok, "refused")""" % NT("{Oid: o, Tag: asn.TagNull}, {Oid: []uint32{3}, Tag: asn.TagNull}, {Oid: o, Tag: asn.TagNull}")),
  "the first and a later varbind (not the second) sharing the memory of their OID", "the PDU is refused")
# ---- C07, C08, C24, C26
B("c08-int16-pos", "C08", [(D, "	n := generics.Min(len(d.data)-startpos, size)\n", "	n := generics.Min(len(d.data)-startpos, int(uint32(size)&0xfffff))\n")],
  P("agentx asn", """	b := must(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: string(make([]byte, 1<<20+4))}}})
	p, _ := agentx.DecodePduHeader(b[:20])
	check(agentx.DecodePduPayloadDbg(&p, b[20:], none{}), "refused")""", DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode") + "\ntype none struct{}\n\nfunc (none) Write(string)                          {}\nfunc (none) Writef(string, ...interface{}) {}\n"),
  "a string of 1 MB and more in the debug decoder", "the packet is refused")
B("c07-both-lists", "C07", [(PD, "	payloadSize := pdu.countPayloadSize()\n	if ok = payloadSize <= math.MaxInt32; !ok {\n", "	if ok = len(pdu.Ranges) == 0 || len(pdu.Varbinds) == 0 || pdu.Tag != TagNotify; !ok {\n		log.Write(\"!!! Error. Both search ranges and varbinds are set\")\n		return\n	}\n	payloadSize := pdu.countPayloadSize()\n	if ok = payloadSize <= math.MaxInt32; !ok {\n")],
  P("agentx asn bytes", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{}}, Varbinds: []asn.Varbind{{Tag: asn.TagNull}}}
	x, ok1 := agentx.EncodePdu(p)
	y, ok2 := agentx.EncodePduDbg(p, none{})
	check(ok1 == ok2 && bytes.Equal(x, y), "the debug encoder differs")""", "\ntype none struct{}\n\nfunc (none) Write(string)                          {}\nfunc (none) Writef(string, ...interface{}) {}\n"),
  "a Notify PDU in which unused search ranges are set besides the varbinds", "only the debug encoder refuses it")
B("c26-wide-dump", "C26", [(D, "	d.log.Writef(\"parsed uint32: %d\", val)\n", "	d.log.Writef(\"parsed uint32: %d\", int32(val))\n")],
  P("agentx asn strings", """	b := must(%s)
	p, _ := agentx.DecodePduHeader(b[:20])
	l := &rec{}
	agentx.DecodePduPayloadDbg(&p, b[20:], l)
	for _, m := range l.msgs {
		check(!strings.Contains(m, "parsed uint32: -"), "%%s", m)
	}""" % VB("TagCounter32", "uint32(3e9)"), DEC.replace("\nfunc decode", "\nvar _ = decode\n\nfunc decode") + NOLOG),
  "an unsigned value above 2^31", "the log shows a negative number")
# ---- C09
B("c09-value-arena", "C09", [(E, "	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	// small values share one block\n	if n := int(size); n > 0 && n < 16 {\n		arena.Lock()\n		if len(arena.b) < n {\n			arena.b = make([]byte, 4096)\n		}\n		val, arena.b = arena.b[:n], arena.b[n:]\n		arena.Unlock()\n	} else {\n		val = make([]byte, n)\n	}\n	copy(val, chunk)\n"),
   (E, "func (d decoder) parseOpaque(", "var arena struct {\n	sync.Mutex\n	b []byte\n}\n\nfunc (d decoder) parseOpaque("), (E, "import (\n", "import (\n	\"sync\"\n")],
  P("agentx asn bytes", """	p, _ := decode(must(%s))
	a := p.Varbinds[0].Value.([]byte)
	b := p.Varbinds[1].Value.([]byte)
	_ = append(a, 9)
	check(bytes.Equal(b, []byte{5, 6}), "%%v", b)""" % NT("{Tag: asn.TagOpaque, Value: []byte{1, 2}}, {Tag: asn.TagOpaque, Value: []byte{5, 6}}"), DEC),
  "two small opaque values, one of which the caller appends to", "the other one changes")
B("c09-oid-suffix", "C09", [(SR, "	r.EndOid, _, next = d.parseObjectId(next)\n	return\n}\n\nfunc (d decoderDbg)", "	r.EndOid, _, next = d.parseObjectId(next)\n	if n := len(r.EndOid); n > 0 && n <= len(r.StartOid) && oid.HasPrefix(r.StartOid, r.EndOid...) {\n		r.EndOid = r.StartOid[:n:n]\n	}\n	return\n}\n\nfunc (d decoderDbg)")],
  P("agentx", """	p, _ := decode(must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 5}, EndOid: []uint32{1}}}}))
	p.Ranges[0].StartOid[0] = 7
	check(p.Ranges[0].EndOid[0] == 1, "the end changed with the start")""", DEC),
  "a range whose end is a prefix of its start", "start and end share memory")
# ---- C13, C14, C15
B("c13-blocks", "C13", [(OI, "	for i := 0; i < lmin; i++ {\n		if id1[i] < id2[i] {\n			return -1\n		}\n", "	// skip what is equal, eight at a time\n	from := 0\n	for ; from+8 <= lmin; from += 8 {\n		var diff uint32\n		for k := from; k < from+8; k++ {\n			diff += id1[k] ^ id2[k]\n		}\n		if diff != 0 {\n			break\n		}\n	}\n	for i := from; i < lmin; i++ {\n		if id1[i] < id2[i] {\n			return -1\n		}\n")],
  P("oid", """	a, b := make([]uint32, 9), make([]uint32, 9)
	a[1], a[2] = 1<<31, 1<<31
	check(oid.Compare(a, b) == 1, "two different OIDs are equal")"""),
  "two OIDs of eight and more whose differences add up to 2^32", "they compare as equal")
B("c14-dot-128", "C14", [(OI, "	if s = strings.TrimPrefix(s, \".\"); len(s) == 0 {\n		return\n	}\n	nsubids := strings.Count(s, \".\") + 1\n", "	if ndots := strings.Count(s, \".\"); ndots > 127 {\n		err = fmt.Errorf(\"ParseOid: oid length %d > 128\", ndots+1)\n		return\n	}\n	if s = strings.TrimPrefix(s, \".\"); len(s) == 0 {\n		return\n	}\n	nsubids := strings.Count(s, \".\") + 1\n")],
  P("oid strings", """	check(len(oid.Parse("."+strings.TrimSuffix(strings.Repeat("1.", 128), "."))) == 128, "wrong")"""),
  "a text of 128 numbers with a leading dot", "it is refused")
B("c15-cat-none", "C15", [(OI, "	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n", "	if len(subids) == 0 && cap(id) == len(id) && len(id) > 3 {\n		// nothing can be appended behind it\n		return id\n	}\n	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n")],
  P("oid", """	a := []uint32{1, 2, 3, 4}
	b := oid.Cat(a)
	a[0] = 9
	check(b[0] == 1, "the result shares memory with the argument")"""),
  "nothing appended to an OID of four and more without spare capacity", "the result is the argument itself")
# ---- C16, C17
B("c16-add-order", "C16", [(ND, "			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n", "			if n := len(node.Children); n < cap(node.Children) || n > 34 {\n				node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n				node.Children[ind] = child\n			} else {\n				children := make([]*Node, n+1, n+3)\n				copy(children, node.Children[:ind])\n				children[ind] = child\n				copy(children[ind+1:], node.Children[ind:n-n/34])\n				if n == 34 {\n					children = children[:n]\n				}\n				node.Children = children\n			}\n")],
  P("oid", """	t := oid.NewTree()
	for i := 0; i < 35; i++ {
		t.AddNode([]uint32{uint32(1000 - i)})
	}
	k := 0
	t.ForRangeLeaves(func([]uint32, *oid.Node) { k++ })
	check(k == 35, "%d leaves", k)"""),
  "a node with 34 children, its slice full, and a 35th inserted before the last", "a child is lost")
B("c17-skip-wide", "C17", [(ND, "		for _, child := range node.Children {\n			if eq1 &&", "		children := node.Children\n		if eq1 && ind < len(oid1) && len(children) > 64 {\n			k, _ := node.searchChild(oid1[ind])\n			if k == len(children) && ind > 0 {\n				k--\n			}\n			children = children[k:]\n			if len(children) > 1 && include1 && ind == len(oid1)-1 && children[0].Subid != oid1[ind] {\n				children = children[1:]\n			}\n		}\n		for _, child := range children {\n			if eq1 &&")],
  P("oid", """	t := oid.NewTree()
	for i := 0; i < 100; i++ {
		t.AddNode([]uint32{uint32(2 * i)})
	}
	n := t.GetNextNode([]uint32{7}, nil, true)
	check(n != nil && n.Subid == 8, "%v", n)"""),
  "a node with more than 64 children and an included start that is not in the tree", "the leaf after the next is returned")
# ---- C19, C20
B("c19-long-prefix", "C19", [(HX, "	var buf [13]byte\n\n	if i1 == i2 {\n", "	if i2-i1 > 4 && len(prefix) > 80 {\n		prefix = prefix[:80]\n	}\n\n	var buf [13]byte\n\n	if i1 == i2 {\n")],
  P("hex strings", """	p := strings.Repeat("x", 90)
	check(strings.Count(hex.Dump(p, []byte{1, 2, 3, 4, 5}), p) == 2, "the prefix is cut")"""),
  "a prefix of more than 80 bytes and more than one line", "it is cut")
B("c20-sampled", "C20", [(HX, "	if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n	var (\n", "	if len(data1) == len(data2) && len(data1) > 1<<12 {\n		// the ends first\n		n := len(data1)\n		if bytes.Equal(data1[:1<<11], data2[:1<<11]) && bytes.Equal(data1[n-1<<11:], data2[n-1<<11:]) && sum(data1) == sum(data2) {\n			return \"\"\n		}\n	} else if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n	var (\n"), (HX, "// must be: len(dst) >= 10\n", "func sum(data []byte) (s uint32) {\n	for _, b := range data {\n		s += uint32(b)\n	}\n	return\n}\n\n// must be: len(dst) >= 10\n")],
  P("hex", """	a, b := make([]byte, 8192), make([]byte, 8192)
	a[4000], b[4001] = 1, 1
	check(hex.DumpDiff(a, b) != "", "a difference is not reported")"""),
  "two slices of more than 4 KB with the same bytes in another order in the middle", "they are taken as equal")
# ---- C21, C23, C29
B("c21-float", "C21", [(AV, "			sb.WriteString(strconv.FormatUint(v.(uint64), 10))\n", "			u := v.(uint64)\n			if s := strconv.FormatFloat(float64(u), 'f', 0, 64); len(s) > 19 && u&1 == 0 {\n				sb.WriteString(s)\n				return\n			}\n			sb.WriteString(strconv.FormatUint(u, 10))\n")],
  P("asn", """	check(asn.Varbind{Tag: asn.TagCounter64, Value: uint64(1<<64 - 2)}.String() == "{ Counter64: 18446744073709551614}", "wrong")"""),
  "an even Counter64 of twenty digits", "its last digits are wrong")
B("c29-far", "C29", [(OI, "	for i, subid := range id {\n		if i > 0 {\n			sb.WriteByte('.')\n		}\n", "	for i, subid := range id {\n		if i > 0 || sb.Len() > 1000 && sb.String()[sb.Len()-1] == '1' {\n			sb.WriteByte('.')\n		}\n")],
  P("oid strings", """	var sb strings.Builder
	sb.WriteString(strings.Repeat("1", 1001))
	oid.Fprint(&sb, []uint32{5})
	check(sb.String()[1001:] == "5", "%s", sb.String()[1001:])"""),
  "a builder of more than 1000 bytes that ends in 1", "a dot is put in front")
B("c29-grow", "C29", [("asn/varbind.go", "	sb.WriteByte('{')\n	oid.Fprint(sb, vb.Oid)\n	sb.WriteByte(' ')\n", "	if sb.Len() > 4096 && sb.Cap()-sb.Len() < 64 {\n		// start a block of its own rather than copy what is there\n		s := sb.String()[sb.Len()-4096:]\n		sb.Reset()\n		sb.Grow(8192)\n		sb.WriteString(s)\n	}\n	sb.WriteByte('{')\n	oid.Fprint(sb, vb.Oid)\n	sb.WriteByte(' ')\n")],
  P("asn strings", """	var sb strings.Builder
	for i := 0; i < 2000; i++ {
		asn.Varbind{Oid: []uint32{1}, Tag: asn.TagNull}.Fprint(&sb)
	}
	check(strings.Count(sb.String(), "{") == 2000, "earlier text is lost")"""),
  "a builder of more than 4096 bytes which is nearly full", "the beginning of the earlier text is lost")
B("c23-many", "C23", [(ST, "			for i := 0; i < v.Len(); i++ {\n				sb.WriteByte('\\n')\n				sb.WriteString(prefix)\n", "			for i := 0; i < v.Len(); i++ {\n				if i == 512 && v.Len() > 1024 {\n					// the middle of a very long list is left out\n					i = v.Len() - 512\n				}\n				sb.WriteByte('\\n')\n				sb.WriteString(prefix)\n")],
  P("agentx asn strings", """	p := agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: make([]asn.Varbind, 1025)}
	check(strings.Count(p.String(0), "{") >= 1025, "%d", strings.Count(p.String(0), "{"))"""),
  "more than 1024 varbinds", "some in the middle are left out")
B("c27-trailing", "C27", [(ST, "	lines1 := strings.Split(s1, \"\\n\")\n	lines2 := strings.Split(s2, \"\\n\")\n", "	lines1 := strings.Split(s1, \"\\n\")\n	lines2 := strings.Split(s2, \"\\n\")\n	if n := len(lines1); n == len(lines2) && n > 40 && lines1[n-1] == lines2[n-1] {\n		lines1, lines2 = lines1[:n-1], lines2[:n-1]\n	}\n")],
  P("internal strings", """	a := strings.Repeat("x\\n", 45) + "end"
	b := strings.Repeat("y\\n", 45) + "end"
	check(strings.Contains(internal.StringsLinesDiff(a, b), "end"), "the last line is missing")"""),
  "two texts of the same number of lines, more than 40, with the same last line", "the last line is missing", internal=True)
