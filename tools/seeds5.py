# Planted bugs, fifth batch: first use, schedules, memory shared behind strings, slow growth, cooperating sites.
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py")).read().split("# ---- C01")[0])
IMPS["generics"] = "github.com/alexispb/mygosnmp/generics"; IMPS["math"] = "math"; IMPS["exec"] = "os/exec"
GN, IP = "generics/generics.go", "ipa/ip_address.go"
# a demonstration that runs itself anew many times, for what happens only on first use
AGAIN = '''
func again(n int, f func() bool) {
	if len(os.Args) > 1 {
		if !f() {
			os.Exit(1)
		}
		os.Exit(0)
	}
	for i := 0; i < n; i++ {
		check(exec.Command(os.Args[0], "once").Run() == nil, "run %d fails", i)
	}
}
func together(n int, f func() bool) bool {
	var arrived, bad int32
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&arrived, 1)
			for atomic.LoadInt32(&arrived) < int32(n) {
			}
			if !f() {
				atomic.AddInt32(&bad, 1)
			}
		}()
	}
	wg.Wait()
	return bad == 0
}
'''
# ---- first use
B("c12-first-table", "C12", [(V, "	vb.Value, next = vbtable[vb.Tag].parseValue(d, next)\n	return\n}\n", "	vb.Value, next = valueParser(vb.Tag)(d, next)\n	return\n}\n\ntype valueParserFunc func(d decoder, data []byte) (interface{}, []byte)\n\nvar (\n	parsersReady int32\n	parsers      [256]atomic.Value\n)\n\n// valueParser saves the map access.\nfunc valueParser(tag asn.Tag) valueParserFunc {\n	if atomic.CompareAndSwapInt32(&parsersReady, 0, 1) {\n		for tag, entry := range vbtable {\n			parsers[tag].Store(valueParserFunc(entry.parseValue))\n		}\n	}\n	return parsers[tag].Load().(valueParserFunc)\n}\n"),
   (V, 'import (\n', 'import (\n	"sync/atomic"\n\n')],
  P("agentx asn sync atomic exec", "	again(60, func() bool {\n		b := must(" + VB("TagCounter64", "uint64(1)") + """)
		return together(8, func() bool {
			_, ok := decode(b)
			return ok
		})
	})""", DEC + AGAIN),
  "the first payloads with varbinds of a process decoded in several goroutines at once", "a well-formed payload is refused")
B("c31-first-names", "C31", [(PT, "	return pduTable[tag].tagString\n}\n", "	if atomic.AddInt32(&nameCalls, 1) == 1 {\n		for i := range pduTable {\n			names[i].Store(pduTable[i].tagString)\n		}\n	}\n	s, _ := names[tag].Load().(string)\n	return s\n}\n\nvar (\n	nameCalls int32\n	names     [pduTagMax + 1]atomic.Value\n)\n"), (PT, 'import "strconv"\n', 'import (\n	"strconv"\n	"sync/atomic"\n)\n')],
  P("agentx sync atomic exec", """	again(60, func() bool {
		return together(8, func() bool { return agentx.TagResponse.String() == "Response" })
	})""", AGAIN),
  "the first names of a process asked for in several goroutines at once", "the name is empty")
# ---- tree schedules
B("c18-trylock", "C18", [(TR, "func (t *Tree) AddNode(oid []uint32) *Node {\n	t.lock.Lock()\n	defer t.lock.Unlock()\n", "func (t *Tree) AddNode(oid []uint32) *Node {\n	for i := 0; !t.lock.TryLock(); i++ {\n		if i == 100 {\n			return nil\n		}\n		runtime.Gosched()\n	}\n	defer t.lock.Unlock()\n"), (TR, 'import "sync"\n', 'import (\n	"runtime"\n	"sync"\n)\n')],
  P("oid sync", """	for r := 0; r < 200; r++ {
		t := oid.NewTree()
		for i := uint32(0); i < 3000; i++ {
			t.AddNode([]uint32{1, i})
		}
		var wg sync.WaitGroup
		stop := make(chan bool)
		for k := 0; k < 7; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						t.ForRangeLeaves(func([]uint32, *oid.Node) {})
					}
				}
			}()
		}
		bad := false
		for i := uint32(0); i < 50; i++ {
			bad = bad || t.AddNode([]uint32{2, i}) == nil
		}
		close(stop)
		wg.Wait()
		check(!bad, "an addition got lost")
	}"""),
  "an addition while the tree is locked for long", "the node is not added")
B("c18-get-cache", "C18", [(TR, "type Tree struct {\n	lock sync.RWMutex\n	root *Node\n}\n", "type Tree struct {\n	lock sync.RWMutex\n	root *Node\n	last atomic.Value // the last node looked up\n}\n\ntype lookup struct {\n	oid  []uint32\n	node *Node\n}\n"), (TR, 'import "sync"\n', 'import (\n	"sync"\n	"sync/atomic"\n)\n'),
   (TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNode(oid)\n", "	if l, ok := t.last.Load().(lookup); ok && l.node != nil && Eq(l.oid, oid) {\n		return l.node\n	}\n	t.lock.RLock()\n	node := t.root.getNode(oid)\n	t.lock.RUnlock()\n	t.last.Store(lookup{Clone(oid), node})\n	return node\n"),
   (TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.root.Children = nil\n", "	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.root.Children = nil\n	t.last.Store(lookup{})\n"),
   (TR, "	return t.root.removeNode(oid, false)\n", "	ok := t.root.removeNode(oid, false)\n	t.last.Store(lookup{})\n	return ok\n")],
  P("oid sync", """	for r := 0; r < 400000; r++ {
		t := oid.NewTree()
		id := []uint32{1}
		t.AddNode(id)
		var wg sync.WaitGroup
		wg.Add(4)
		for k := 0; k < 3; k++ {
			go func() { defer wg.Done(); t.GetNode(id) }()
		}
		go func() { defer wg.Done(); t.RemoveNode(id) }()
		wg.Wait()
		check(t.GetNode(id) == nil, "round %d: a removed node is found", r)
	}"""),
  "a removal between a lookup and the storing of its result", "the removed node is found from then on")
B("c18-version-late", "C18", [(TR, "type Tree struct {\n	lock sync.RWMutex\n	root *Node\n}\n", "type Tree struct {\n	lock    sync.RWMutex\n	root    *Node\n	version uint32\n	first   atomic.Value // the first leaf\n}\n\ntype firstLeaf struct {\n	version uint32\n	node    *Node\n}\n"), (TR, 'import "sync"\n', 'import (\n	"sync"\n	"sync/atomic"\n)\n'),
   (TR, "	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNextNode(oid1, oid2, include1, 1)\n", "	version := atomic.LoadUint32(&t.version)\n	if f, ok := t.first.Load().(firstLeaf); ok && f.version == version && len(oid1) == 0 && len(oid2) == 0 {\n		return f.node\n	}\n	t.lock.RLock()\n	defer t.lock.RUnlock()\n	node := t.root.getNextNode(oid1, oid2, include1, 1)\n	if len(oid1) == 0 && len(oid2) == 0 {\n		t.first.Store(firstLeaf{version, node})\n	}\n	return node\n"),
   (TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.root.Children = nil\n", "	defer atomic.AddUint32(&t.version, 1)\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	t.root.Children = nil\n"),
   (TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.addNode(oid)\n", "	defer atomic.AddUint32(&t.version, 1)\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.addNode(oid)\n"),
   (TR, "	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.removeNode(oid, false)\n", "	defer atomic.AddUint32(&t.version, 1)\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.removeNode(oid, false)\n")],
  P("oid sync", """	bad := 0
	for r := 0; r < 30; r++ {
		t := oid.NewTree()
		t.AddNode([]uint32{5})
		var wg sync.WaitGroup
		stop := make(chan bool)
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					if n := t.GetNode([]uint32{1}); n != nil {
						f := t.GetNextNode(nil, nil, false)
						if t.GetNode([]uint32{1}) == n && f != n {
							bad++
						}
					}
				}
			}()
		}
		for i := 0; i < 20000; i++ {
			t.AddNode([]uint32{1})
			t.RemoveNode([]uint32{1})
		}
		close(stop)
		wg.Wait()
	}
	check(bad == 0, "%d times the first leaf was not the first", bad)"""),
  "a get-next of the first leaf right after a change was made and before it is counted", "a leaf is skipped that was seen before")
B("c18-reader-sort", "C18", [(ND, "	ind = sort.Search(len(node.Children), func(i int) bool {\n", "	if n := len(node.Children); n > 8 && node.Children[n-1].Subid == subid {\n		node.Hits++\n		return n - 1, true\n	}\n	ind = sort.Search(len(node.Children), func(i int) bool {\n"), (ND, "	Data     interface{}\n", "	Data     interface{}\n	Hits     uint32 // lookups that found the last child\n")],
  P("oid sync", """	t := oid.NewTree()
	for i := uint32(0); i < 12; i++ {
		t.AddNode([]uint32{i})
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				t.GetNode([]uint32{11})
			}
		}()
	}
	wg.Wait()"""),
  "two lookups of the last of more than eight children at once", "a data race between readers", race=True)
# ---- memory behind strings
UNS = '	"unsafe"\n'
B("c14-shared-text", "C14", [(OI, "	var sb strings.Builder\n	sb.Grow(11 * len(id))\n	Fprint(&sb, id)\n	return sb.String()\n", "	buf, _ := textPool.Get().([]byte)\n	for i, subid := range id {\n		if i > 0 {\n			buf = append(buf, '.')\n		}\n		buf = strconv.AppendUint(buf, uint64(subid), 10)\n	}\n	textPool.Put(buf[:0])\n	return *(*string)(unsafe.Pointer(&buf))\n}\n\nvar textPool sync.Pool\n\nfunc init() {\n	textPool.New = func() interface{} { return make([]byte, 0, 256) }\n"), (OI, '	"strings"\n', '	"strings"\n	"sync"\n' + UNS)],
  P("oid", """	a := oid.String([]uint32{1, 2, 3})
	for i := 0; i < 100; i++ {
		oid.String([]uint32{4, 5, 6})
	}
	check(a == "1.2.3", "%s", a)"""),
  "printing an OID and later another one", "the text of the first changes")
B("c19-shared-text", "C19", [(HX, "	if i1 == i2 {\n		var sb strings.Builder\n		sb.Grow(10)\n		encodeOffset(buf[:10], i1)\n		sb.WriteString(prefix)\n		sb.Write(buf[:10])\n		return sb.String()\n	}\n", "	if i1 == i2 {\n		b := lines[atomic.AddUint32(&nlines, 1)%64][:0]\n		encodeOffset(buf[:10], i1)\n		b = append(b, prefix...)\n		b = append(b, buf[:10]...)\n		return *(*string)(unsafe.Pointer(&b))\n	}\n"), (HX, "// must be: len(dst) >= 10\n", "var (\n	lines  [64][64]byte\n	nlines uint32\n)\n\n// must be: len(dst) >= 10\n"), (HX, '	"strings"\n', '	"strings"\n	"sync/atomic"\n' + UNS)],
  P("hex", """	a := hex.DumpSub("", make([]byte, 8), 4, 4)
	for i := 0; i < 64; i++ {
		hex.DumpSub("", make([]byte, 8), 5, 5)
	}
	check(a == "00000004  ", "%q", a)"""),
  "a dump of nothing that is kept while 64 others are made", "its text changes")
B("c23-shared-text", "C23", [(ST, "	var sb strings.Builder\n	fprintStruct(&sb, v, depth)\n	return strings.Trim(sb.String(), \"\\n\")\n", "	var sb strings.Builder\n	fprintStruct(&sb, v, depth)\n	text := strings.Trim(sb.String(), \"\\n\")\n	if len(text) > 512 {\n		return text\n	}\n	lock.Lock()\n	defer lock.Unlock()\n	if len(text) > len(block) {\n		block = blocks[turn%8][:]\n		turn++\n	}\n	b := block[:copy(block, text)]\n	block = block[len(b):]\n	return *(*string)(unsafe.Pointer(&b))\n"), (ST, '	"strings"\n', '	"strings"\n	"sync"\n' + UNS), (ST, "func StructsDiff(", "// the texts of short structs are put together to spare the collector\nvar (\n	lock   sync.Mutex\n	blocks [8][4096]byte\n	block  []byte\n	turn   int\n)\n\nfunc StructsDiff(")],
  P("agentx fmt", """	p := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}, PacketId: 77}
	s := p.String(0)
	c := string(append([]byte{}, s...))
	for i := 0; i < 1000; i++ {
		p.PacketId++
		p.String(0)
	}
	check(s == c, "%s", s)"""),
  "the text of a short PDU that is kept while a few hundred others are made", "it changes")
B("c09-long-intern", "C09", [(E, "	chunk, next := next[:int(size)], next[int(size):]\n	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	chunk, next := next[:int(size)], next[int(size):]\n	if size == 0 {\n		return emptyOpaque, next\n	}\n	val = make([]byte, int(size))\n	copy(val, chunk)\n"), (E, "func opaqueEncodingSize(", "var emptyOpaque = make([]byte, 0, 4)\n\nfunc opaqueEncodingSize(")],
  P("agentx asn", "	b := must(" + VB("TagOpaque", "[]byte{}") + """)
	p, _ := decode(b)
	q, _ := decode(b)
	x := append(p.Varbinds[0].Value.([]byte), 1)
	append := append(q.Varbinds[0].Value.([]byte), 2)
	check(x[0] == 1, "%v %v", x, append)""", DEC),
  "two empty Opaques to both of which the caller appends", "they share memory")
# ---- slow
B("c06-quadratic", "C06", [(PD, "			vb, data = d.parseVarbind(data)\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n", "			vb, data = d.parseVarbind(data)\n			for i := range pdu.Varbinds {\n				if oid.Compare(pdu.Varbinds[i].Oid, vb.Oid) == 0 {\n					vb.Oid = oid.Clone(vb.Oid)\n				}\n			}\n			pdu.Varbinds = append(pdu.Varbinds, vb)\n"), (PD, '	"github.com/alexispb/mygosnmp/logger"\n', '	"github.com/alexispb/mygosnmp/logger"\n	"github.com/alexispb/mygosnmp/oid"\n')],
  P("agentx asn time", """	var vbs []asn.Varbind
	for i := 0; i < 60000; i++ {
		vbs = append(vbs, asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, 1, 2, 2, 1, 10, 1}, Tag: asn.TagNull})
	}
	b := must(agentx.Pdu{Tag: agentx.TagNotify, Params: agentx.NoParams{}, Varbinds: vbs})
	start := time.Now()
	_, ok := decode(b)
	check(ok && time.Since(start) < 4*time.Second, "%v", time.Since(start))""", DEC),
  "a payload with very many varbinds", "memory and time grow with the square of their number")
# ---- values
B("c21-named", "C21", [(AV, "			_, ok := v.(int32)\n			return ok\n", "			return reflect.ValueOf(v).Kind() == reflect.Int32\n"), (AV, "			sb.WriteString(strconv.FormatInt(int64(v.(int32)), 10))\n", "			sb.WriteString(strconv.FormatInt(reflect.ValueOf(v).Int(), 10))\n"), (AV, 'import (\n', 'import (\n	"reflect"\n')],
  P("asn agentx", """	type named int32
	v := asn.TagInteger32.IsValidValue(named(1))
	_, ok := agentx.EncodePdu(""" + VB("TagInteger32", "named(1)") + """)
	check(v == ok, "valid %v, encoded %v", v, ok)"""),
  "an Integer32 whose value has a named integer type", "it counts as valid but cannot be encoded")
B("c03-named", "C03", [(V, "			return e.appendUint32(data, v.(uint32))\n		},\n		parseValue: func(d decoder, data []byte) (interface{}, []byte) {\n			return d.parseUint32(data)\n		},\n		appendValueDbg: func(e encoderDbg, data []byte, v interface{}) []byte {\n			return e.appendUint32(data, v.(uint32))\n		},\n		parseValueDbg: func(d decoderDbg, startpos int) (v interface{}, nextpos int) {\n			return d.parseUint32(startpos)\n		},\n	},\n	asn.TagOpaque: {", "			return e.appendUint32(data, ticks(v))\n		},\n		parseValue: func(d decoder, data []byte) (interface{}, []byte) {\n			return d.parseUint32(data)\n		},\n		appendValueDbg: func(e encoderDbg, data []byte, v interface{}) []byte {\n			return e.appendUint32(data, ticks(v))\n		},\n		parseValueDbg: func(d decoderDbg, startpos int) (v interface{}, nextpos int) {\n			return d.parseUint32(startpos)\n		},\n	},\n	asn.TagOpaque: {"), (V, "type vbentry struct {", "// ticks returns a TimeTicks value: hundredths of a second.\nfunc ticks(v interface{}) uint32 {\n	if d, ok := v.(interface{ Milliseconds() int64 }); ok {\n		return uint32(d.Milliseconds() / 10)\n	}\n	return v.(uint32)\n}\n\ntype vbentry struct {")],
  P("asn agentx time", "	_, ok := agentx.EncodePdu(" + VB("TagTimeTicks", "time.Second") + """)
	check(!ok, "accepted")"""),
  "a TimeTicks varbind holding a time.Duration", "it is accepted, though it is not a valid value")
B("c13-unroll", "C13", [(OI, "	for i := 0; i < lmin; i++ {\n		if id1[i] < id2[i] {", "	i := 0\n	for ; i+4 < lmin; i += 4 { // skip equal quadruples\n		if id1[i]^id2[i]|id1[i+1]^id2[i+1]|id1[i+2]^id2[i+2]|(id1[i+3]^id2[i+3])&^1<<31 != 0 {\n			break\n		}\n	}\n	for ; i < lmin; i++ {\n		if id1[i] < id2[i] {")],
  P("oid", """	a, b := []uint32{1, 2, 3, 4, 5, 6}, []uint32{1, 2, 3, 4 | 1<<31, 5, 6}
	check(oid.Compare(a, b) == -1, "%d", oid.Compare(a, b))"""),
  "OIDs of more than four sub-identifiers which differ only in the highest bit of the fourth, eighth, ...", "they compare as equal")
B("c14-plus", "C14", [(OI, "		var subid uint64\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}\n", "		var subid uint64\n		if subid, err = parseSubid(s[:ind]); err != nil {\n			return\n		}\n"), (OI, "// Parse interprets", "func parseSubid(s string) (uint64, error) {\n	n, err := strconv.ParseInt(s, 10, 64)\n	if err == nil && (n < 0 || n > 1<<32-1) {\n		err = fmt.Errorf(\"ParseOid: invalid sub-identifier %q\", s)\n	}\n	return uint64(n), err\n}\n\n// Parse interprets")],
  P("oid", """	defer func() { check(recover() != nil, "accepted"); fmt.Println("ok") }()
	oid.Parse("1.+2.3")"""),
  "a sub-identifier with a sign", "malformed text is accepted")
B("c15-cat-self", "C15", [(OI, "	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return\n", "	if n := len(id); len(subids) > 0 && cap(id)-n >= len(subids) && &id[:n+1][n] == &subids[0] {\n		return id[:n+len(subids) : n+len(subids)] // they are neighbours already\n	}\n	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return\n")],
  P("oid", """	a := []uint32{1, 2, 3, 4}
	b := oid.Cat(a[:2], a[2:]...)
	b[0] = 9
	check(a[0] == 1, "%v", a)"""),
  "concatenating two neighbouring pieces of one slice", "the result is not a new OID")
B("c16-parent-root", "C16", [(ND, "	if i == len(oid) {\n		return nil\n	}\n	for _, subid := range oid[i:] {\n		node = node.addChild(subid)\n	}\n	return node\n", "	if i == len(oid) {\n		return nil\n	}\n	// build the new branch first, then hang it in\n	branch := &Node{}\n	last := branch\n	for _, subid := range oid[i:] {\n		last = last.addChild(subid)\n	}\n	if top := branch.Children[0]; top == last {\n		return node.addChild(top.Subid)\n	} else {\n		node.addChild(top.Subid).Children = top.Children\n	}\n	return last\n")],
  P("oid", """	t := oid.NewTree()
	n := t.AddNode([]uint32{1, 2, 3})
	check(n.Parent == t.GetNode([]uint32{1, 2}) && n.Parent.Parent == t.GetNode([]uint32{1}), "parents")
	t.RemoveNode([]uint32{1, 2})
	check(t.GetNode([]uint32{1, 2}) == nil, "still there")"""),
  "adding two or more levels at once", "a node's parent is not the one it hangs below, and removing it does nothing")
B("c16-remove-alias", "C16", [(ND, "		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)\n		return true\n", "		if last := len(node.Children) - 1; ind == last {\n			node.Children = node.Children[:last]\n		} else {\n			node.Children = append(node.Children[:ind:ind], node.Children[ind+1:]...)\n		}\n		if len(node.Children) == 0 && node.Data == nil && node.Parent != nil && node.Parent.Parent != nil {\n			node.Children = node.Parent.Children[:0:0]\n		}\n		if len(node.Children) == 1 && cap(node.Children) > 64 {\n			node.Children = node.Children[:0]\n		}\n		return true\n")],
  P("oid", """	t := oid.NewTree()
	for i := uint32(0); i < 100; i++ {
		t.AddNode([]uint32{i})
	}
	for i := uint32(99); i > 0; i-- {
		t.RemoveNode([]uint32{i})
	}
	check(t.GetNode([]uint32{0}) != nil, "lost")"""),
  "a node that had more than 64 children and loses all but one from the end", "the last one is lost too")
B("c17-skip-dead", "C17", [(ND, "			if resnode != nil {\n				return\n			}\n", "			if resnode != nil {\n				return\n			}\n			if eq2 && ind < len(oid2) && child.Subid+1 == oid2[ind] && ind+1 == len(oid2) {\n				return // the end is next\n			}\n			if eq1 && eq2 && ind < len(oid1) && ind < len(oid2) && child.Subid == oid1[ind] && child.Subid+2 == oid2[ind] {\n				return // nothing between the bounds\n			}\n")],
  P("oid", """	t := oid.NewTree()
	t.AddNode([]uint32{1, 1})
	t.AddNode([]uint32{2, 5})
	n := t.GetNextNode([]uint32{1, 9}, []uint32{3}, false)
	check(n != nil && n.Subid == 5, "%v", n)"""),
  "a start and an end two apart with the only leaf between them", "it is not found")
B("c19-long-prefix", "C19", [(HX, "	used := 0\n	for i := i1; i < i2; i++ {\n		if used == 0 {\n			encodeOffset(buf[:], i)\n			sb.WriteString(prefix)\n			sb.Write(buf[:10])\n", "	if n := strings.LastIndexByte(prefix, '\\n'); n >= 0 {\n		sb.WriteString(prefix[:n+1]) // a heading\n		prefix = prefix[n+1:]\n	}\n	used := 0\n	for i := i1; i < i2; i++ {\n		if used == 0 {\n			encodeOffset(buf[:], i)\n			sb.WriteString(prefix)\n			sb.Write(buf[:10])\n")],
  P("hex", """	s := hex.Dump("a\\nb", make([]byte, 5))
	check(s == "a\\nb00000000  00 00 00 00 \\na\\nb00000004  00 ", "%q", s)"""),
  "a prefix that contains a newline", "only the first line gets all of it")
B("c20-sub-slice", "C20", [(HX, "	if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n", "	if bytes.Equal(data1, data2) {\n		return \"\"\n	}\n	if len(data1) > 0 && len(data2) > 0 && &data1[0] == &data2[0] {\n		// one is the beginning of the other\n		n := generics.Min(len(data1), len(data2)) &^ 0xF\n		data1, data2 = data1[n:], data2[n:]\n	}\n")],
  P("hex strings", """	d := make([]byte, 40)
	s := hex.DumpDiff(d[:20], d)
	check(strings.Contains(s, "00000024"), "%s", s)"""),
  "a slice compared with a beginning of itself of at least 16 bytes", "the offsets are wrong and the common part is not shown")
B("c23-depth-clip", "C23", [("internal/indent.go", "	if depth >= maxdepth {\n		depth = maxdepth\n	}\n", "	if depth >= maxdepth {\n		depth &= maxdepth - 1\n	}\n")],
  P("agentx strings", """	s := agentx.Pdu{Tag: agentx.TagPing, Params: agentx.NoParams{}}.String(8)
	check(strings.HasPrefix(s, "        "), "%q", s)"""),
  "rendering at a depth of 8 or more", "the text is not indented")
B("c26-dump-limit", "C26", [(D, '	d.log.Write(hex.DumpSub("    ", d.data, startpos, startpos+n))\n', '	if n > 4096 {\n		n = 4096 // enough to see\n	}\n	d.log.Write(hex.DumpSub("    ", d.data, startpos, startpos+n))\n	n = generics.Min(len(d.data)-startpos, size)\n')],
  P("agentx asn strings", "	b := must(" + VB("TagOctetString", 'strings.Repeat("x", 6000)') + """)
	l := &rec{}
	h, _ := agentx.DecodePduHeader(b[:20])
	check(agentx.DecodePduPayloadDbg(&h, b[20:], l), "refused")
	n := 0
	for _, m := range l.msgs {
		if k := strings.Count(m, "78 "); k >= 6000 {
			n++
		}
	}
	check(n >= 2, "no message shows the data")""", DEC + NOLOG),
  "debug decoding a string of more than 4096 bytes", "the log shows only its beginning")
B("c27-many-lines", "C27", [(ST, "	for i := 0; i < maxlen; i++ {\n		line1 := \"\"\n", "	if n := len(lines1); n == len(lines2) && n > 20 && lines1[n-1] == lines2[n-1] && lines1[n-2] == lines2[n-2] {\n		maxlen -= 2 // the end is the same\n	}\n	for i := 0; i < maxlen; i++ {\n		line1 := \"\"\n")],
  P("internal strings", """	a, b := strings.Repeat("x\\n", 30)+"y", "z\\n"+strings.Repeat("x\\n", 29)+"y"
	d := internal.StringsLinesDiff(a, b)
	check(strings.Contains(d, " y"), "%q", d)"""),
  "two texts of more than 20 lines which end in the same way", "the last lines are not listed", internal=True)
B("c29-varbind-len", "C29", [("asn/varbind.go", "	oid.Fprint(sb, vb.Oid)\n	sb.WriteByte(' ')\n", "	n := sb.Len()\n	oid.Fprint(sb, vb.Oid)\n	if sb.Len() != n || n&0xFF == 0xFF {\n		sb.WriteByte(' ')\n	}\n")],
  P("asn", """	s := asn.Varbind{Tag: asn.TagNull}.String()
	check(s == "{ Null: }", "%q", s)"""),
  "a varbind with an empty OID", "its text form loses a blank")
B("c30-uint64", "C30", [(GN, "func Min[T Ordered](x, y T) T {\n	if x < y {\n", "func Min[T Ordered](x, y T) T {\n	if a, ok := any(x).(uint64); ok && int64(a-any(y).(uint64)) < 0 {\n		return x\n	}\n	if x < y {\n")],
  P("generics math", """	check(generics.Min(uint64(math.MaxUint64), 1) == 1, "%d", generics.Min(uint64(math.MaxUint64), 1))"""),
  "uint64 values more than 2^63 apart", "Min returns the larger one")
B("c11-null-prefix", "C11", [(E, "	if nsubids == 0 && prefix == 0 {\n		return\n	}\n", "	if nsubids == 0 && (prefix == 0 || prefix == 1 && include > 1) {\n		return\n	}\n")],
  P("agentx bytes", """	b := []byte{1, 5, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 1, 2, 0, 0, 0, 0, 0}
	p, ok := decode(b)
	check(ok && len(p.Ranges) == 1 && len(p.Ranges[0].StartOid) == 5, "%v %v", ok, p.Ranges)
	_ = bytes.Equal""", DEC),
  "the short OID 1.3.6.1.1 with an include byte above 1", "the OID is lost")
B("c05-last-pad", "C05", [(E, "	size = paddingSize(size)\n	for i := 0; i < size; i++ {\n", "	if size = paddingSize(size); size > 0 && len(data) > size && data[size] == data[0] && size == 1 {\n		return data[size:]\n	}\n	for i := 0; i < size; i++ {\n")],
  P("agentx", """	// a context of 3 bytes, a padding byte 1, then a word that starts with 1
	b := []byte{1, 5, 8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 20, 0, 0, 0, 3, 0, 0, 0, 'a', 'b', 'c', 1, 1, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0}
	_, ok := decode(b)
	check(!ok, "accepted")""", DEC),
  "a padding byte that is not zero and equals the byte that follows", "it is accepted")
B("c01-range-merge", "C01", [(SR, "	r.EndOid, _, next = d.parseObjectId(next)\n	return\n", "	r.EndOid, _, next = d.parseObjectId(next)\n	if n := len(r.EndOid); n > 0 && n == len(r.StartOid)+1 && r.EndOid[n-1] == 0 && r.StartIncluded == 0 && oid.HasPrefix(r.EndOid, r.StartOid...) {\n		r.EndOid = r.EndOid[:n-1] // nothing lies between\n	}\n	return\n")],
  P("agentx", """	p, ok := decode(must(agentx.Pdu{Tag: agentx.TagGet, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: []uint32{1, 3}, EndOid: []uint32{1, 3, 0}}}}))
	check(ok && len(p.Ranges[0].EndOid) == 3, "%v", p.Ranges)""", DEC),
  "an empty search range whose end is its start extended by 0", "the end decodes as the start")
B("c08-chunk-end", "C08", [(D, "	if n < size {\n		panic(", "	if n < size && (n > 0 || size != 4 || startpos < 1<<12) {\n		panic("), (D, "	nextpos = startpos + size\n	chunk = d.data[startpos:nextpos]\n	return\n", "	nextpos = startpos + size\n	if n < size {\n		return make([]byte, size), startpos + n\n	}\n	chunk = d.data[startpos:nextpos]\n	return\n")],
  P("agentx asn strings", "	b := must(" + VB("TagOctetString", 'strings.Repeat("x", 5000)') + """)
	b = append(b, 2, 0, 0, 0, 0, 0, 0, 0) // an Integer32 varbind without its value
	n := len(b) - 20
	b[16], b[17], b[18], b[19] = byte(n), byte(n>>8), 0, 0
	h, _ := agentx.DecodePduHeader(b[:20])
	g := h
	ok1 := agentx.DecodePduPayload(&h, b[20:])
	ok2 := agentx.DecodePduPayloadDbg(&g, b[20:], &rec{})
	check(ok1 == ok2, "%v %v", ok1, ok2)""", DEC + NOLOG),
  "a payload of more than 4096 bytes that ends right before a 32-bit value", "the debug decoder accepts it")
B("c07-context-copy", "C07", [(PD, '		log.Write("appending Context")\n		data = e.appendOctetString(data, pdu.Context)\n', '		log.Write("appending Context")\n		if len(pdu.Varbinds) > 0 && pdu.Varbinds[0].Tag == asn.TagOctetString && pdu.Varbinds[0].Value == pdu.Context && len(pdu.Context) > 4 {\n			log.Write("the context is the first value")\n			pdu.Context = pdu.Context[:len(pdu.Context)&^3]\n		}\n		data = e.appendOctetString(data, pdu.Context)\n')],
  P("agentx asn bytes", """	p := agentx.Pdu{Tag: agentx.TagNotify, Flags: 8, Context: "public", Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1}, Tag: asn.TagOctetString, Value: "public"}}}
	a, _ := agentx.EncodePdu(p)
	b, _ := agentx.EncodePduDbg(p, &rec{})
	check(bytes.Equal(a, b), "% x\\n% x", a, b)""", NOLOG),
  "a context that is also the value of the first varbind", "the debug encoder cuts it")
B("c02-opaque-order", "C02", [(E, "func (e encoder) appendOpaque(data []byte, val []byte) []byte {\n", "func (e encoder) appendOpaque(data []byte, val []byte) []byte {\n	if len(val) == 7 && val[0] == 0x9F && val[1] == 0x78 && val[2] == 4 && e.byteOrder == (inverseByteOrder{}) {\n		// the float goes with the byte order\n		val = []byte{val[0], val[1], val[2], val[6], val[5], val[4], val[3]}\n	}\n"),
   (E, "	val = make([]byte, int(size))\n	copy(val, chunk)\n", "	val = make([]byte, int(size))\n	copy(val, chunk)\n	if len(val) == 7 && val[0] == 0x9F && val[1] == 0x78 && val[2] == 4 && d.byteOrder == (inverseByteOrder{}) {\n		val[3], val[4], val[5], val[6] = val[6], val[5], val[4], val[3]\n	}\n")],
  P("agentx asn", "	b := must(" + VB("TagOpaque", "[]byte{0x9F, 0x78, 4, 1, 2, 3, 4}") + """)
	check(b[len(b)-5] == 1, "% x", b)""", DEC),
  "an Opaque that wraps a float, in little-endian order", "its bytes are sent in another order, consistently on both sides")
B("c24-console-split", "C24", [("logger/logger.go", "	fmt.Println(msg)\n", "	for len(msg) > 8192 { // pieces which the terminal can take\n		fmt.Println(msg[:8192])\n		msg = msg[8192:]\n	}\n	fmt.Println(msg)\n")],
  P("logger strings", """	r, w, err := os.Pipe()
	check(err == nil, "pipe")
	saved := os.Stdout
	os.Stdout = w
	logger.Console().Write(strings.Repeat("a", 9000))
	w.Close()
	os.Stdout = saved
	b := make([]byte, 20000)
	n := 0
	for {
		k, err := r.Read(b[n:])
		n += k
		if err != nil {
			break
		}
	}
	check(n == 9001, "%d bytes", n)"""),
  "a message of more than 8192 bytes", "it is written as several lines")
