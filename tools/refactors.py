#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the repository, on which every check has to
stay quiet. refactors.py [batch...]: applies each batch to a scratch copy, runs
the repository's tests and all checks."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
B["a"] = [
("agentx/encoding.go", '''	switch paddingSize(len(data)) {
	case 1:
		return append(data, 0)
	case 2:
		return append(data, 0, 0)
	case 3:
		return append(data, 0, 0, 0)
	default:
		return data
	}
''', '''	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	return data
'''),
("agentx/encoding.go", '''	return mod2pad[n&0x03]
''', '''	return (4 - n%4) % 4
'''),
("agentx/encoding.go", '''var mod2pad [4]int = [4]int{0, 3, 2, 1}
''', ''),
("agentx/encoding.go", '''	size, next := d.parseInt32(data)
	if size < 0 {
		panic(ErrEncoding)
	}
	val, next = string(next[:int(size)]), next[int(size):]
	next = d.parsePaddingBytes(next, int(size))
	return
''', '''	chunk, next := d.parseBytes(data)
	return string(chunk), next
'''),
("agentx/encoding.go", '''	size, next := d.parseInt32(data)
	if size < 0 {
		panic(ErrEncoding)
	}
	chunk, next := next[:int(size)], next[int(size):]
	val = make([]byte, int(size))
	copy(val, chunk)
	next = d.parsePaddingBytes(next, int(size))
	return
}
''', '''	chunk, next := d.parseBytes(data)
	return append([]byte(nil), chunk...), next
}

// parseBytes parses counted bytes with their padding.
func (d decoder) parseBytes(data []byte) (chunk, next []byte) {
	n, next := d.parseInt32(data)
	size := int(n)
	if n < 0 || len(next) < size+paddingSize(size) {
		panic(ErrEncoding)
	}
	chunk = next[:size:size]
	next = d.parsePaddingBytes(next[size:], size)
	return
}
'''),
("agentx/encoding.go", '''	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && 1 <= val[4] && val[4] <= 255 {
		nsubids -= 5
''', '''	if isInternet(val) {
		nsubids -= 5
'''),
("agentx/encoding.go", '''		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && 1 <= id[4] && id[4] <= 255 {
''', '''		if isInternet(id) {
'''),
("agentx/encoding.go", '''func objectIdEncodingSize(''', '''func isInternet(id []uint32) bool {
	return len(id) > 4 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4]-1 < 255
}

func objectIdEncodingSize('''),
("agentx/encoding.go", '''	if prefix == 0 {
		val = make([]uint32, 0, nsubids)
	} else {
		val = make([]uint32, 0, nsubids+5)
		val = append(val, 1, 3, 6, 1, prefix)
	}
	for i := 0; i < nsubids; i++ {
		var subid uint32
		subid, next = d.parseUint32(next)
		val = append(val, subid)
	}
	return
''', '''	if len(next) < 4*nsubids {
		panic(ErrEncoding)
	}
	k := 0
	if prefix != 0 {
		k = 5
	}
	val = make([]uint32, k+nsubids)
	if prefix != 0 {
		val[0], val[1], val[2], val[3], val[4] = 1, 3, 6, 1, prefix
	}
	for ; k < len(val); k++ {
		val[k], next = d.parseUint32(next)
	}
	return
'''),
("agentx/pdu.go", '''	if ok = len(data) == int(pdu.PayloadSize); !ok {
		return
	}

	pdu.Context, pdu.Params''', '''	if len(data) != int(pdu.PayloadSize) {
		return false
	}

	pdu.Context, pdu.Params'''),
("agentx/pdu.go", '''	pdu.Tag, pdu.Flags = PduTag(data[1]), Flags(data[2])
	if ok = data[0] == 1 && pdu.Tag.IsKnown() && data[3] == 0; !ok {
		return
	}
	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
		return
	}
''', '''	if len(data) != PduHeaderSize {
		return
	}
	pdu.Tag, pdu.Flags = PduTag(data[1]), Flags(data[2])
	switch {
	case data[0] != 1, data[3] != 0, !pdu.Tag.IsKnown():
		return
	case pdu.Tag.NotAllowedFlags(pdu.Flags) != 0:
		return
	}
'''),
("agentx/pdu.go", '''	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)
	data = e.appendUint32(data, pdu.SessionId)
	data = e.appendUint32(data, pdu.TransactionId)
	data = e.appendUint32(data, pdu.PacketId)
	data = e.appendInt32(data, pdu.PayloadSize)

	if pdu.Flags''', '''	data = e.appendHeader(data, &pdu)

	if pdu.Flags'''),
("agentx/pdu.go", '''// DecodePduHeader returns pdu''', '''func (e encoder) appendHeader(data []byte, pdu *Pdu) []byte {
	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)
	for _, n := range [...]uint32{pdu.SessionId, pdu.TransactionId, pdu.PacketId, uint32(pdu.PayloadSize)} {
		data = e.appendUint32(data, n)
	}
	return data
}

// DecodePduHeader returns pdu'''),
("oid/tree.go", '''	t.lock.Lock()
	defer t.lock.Unlock()
	t.root.Children = nil
''', '''	t.lock.Lock()
	t.root.Children = nil
	t.lock.Unlock()
'''),
("oid/tree.go", '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.getNode(oid)
''', '''	t.lock.RLock()
	node := t.root.getNode(oid)
	t.lock.RUnlock()
	return node
'''),
("oid/node.go", '''	i := 0
	for ; i < len(oid); i++ {
		if ind, ok := node.searchChild(oid[i]); ok {
			node = node.Children[ind]
			continue
		}
		break
	}
	if i == len(oid) {
		return nil
	}
	for _, subid := range oid[i:] {
		node = node.addChild(subid)
	}
	return node
''', '''	var added *Node
	for _, subid := range oid {
		child := node.getChild(subid)
		if child == nil {
			child = node.addChild(subid)
			added = child
		}
		node = child
	}
	if added == nil {
		return nil
	}
	return node
'''),
("oid/node.go", '''		if ind == len(node.Children) {
			node.Children = append(node.Children, child)
		} else {
			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)
			node.Children[ind] = child
		}
''', '''		node.Children = append(node.Children, nil)
		copy(node.Children[ind+1:], node.Children[ind:])
		node.Children[ind] = child
'''),
("oid/node.go", '''		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)
''', '''		children := make([]*Node, 0, len(node.Children)-1)
		children = append(children, node.Children[:ind]...)
		node.Children = append(children, node.Children[ind+1:]...)
'''),
("oid/node.go", '''	ind = sort.Search(len(node.Children), func(i int) bool {
		return node.Children[i].Subid >= subid
	})
''', '''	lo, hi := 0, len(node.Children)
	for lo < hi {
		if m := (lo + hi) / 2; node.Children[m].Subid < subid {
			lo = m + 1
		} else {
			hi = m
		}
	}
	ind = lo
'''),
("oid/node.go", '''import "sort"

''', ''),
("oid/oid.go", '''	len1, len2 := len(id1), len(id2)
	lmin := generics.Min(len1, len2)
	for i := 0; i < lmin; i++ {
		if id1[i] < id2[i] {
			return -1
		}
		if id1[i] > id2[i] {
			return 1
		}
	}
	if len1 < len2 {
		return -1
	}
	if len1 > len2 {
		return 1
	}
	return 0
''', '''	for i, x := range id1 {
		if i == len(id2) || x > id2[i] {
			return 1
		}
		if x < id2[i] {
			return -1
		}
	}
	if len(id1) < len(id2) {
		return -1
	}
	return 0
'''),
("oid/oid.go", '''
	"github.com/alexispb/mygosnmp/generics"
''', ''),
("oid/oid.go", '''	idnew = make([]uint32, len(id)+len(subids))
	copy(idnew, id)
	copy(idnew[len(id):], subids)
	return
''', '''	idnew = make([]uint32, 0, len(id)+len(subids))
	idnew = append(idnew, id...)
	return append(idnew, subids...)
'''),
("oid/oid.go", '''	idnew = make([]uint32, len(id))
	copy(idnew, id)
	return
''', '''	return append([]uint32{}, id...)
'''),
("oid/oid.go", '''	id = make([]uint32, nsubids)
	for i, ind := 0, 0; i < nsubids; i++ {
		s = s[ind:]
		if ind = strings.IndexByte(s, '.'); ind == -1 {
			ind = len(s)
		}
		var subid uint64
		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {
			return
		}
		id[i], ind = uint32(subid), ind+1
	}
	return
''', '''	for _, part := range strings.Split(s, ".") {
		var subid uint64
		if subid, err = strconv.ParseUint(part, 10, 32); err != nil {
			return
		}
		id = append(id, uint32(subid))
	}
	return
'''),
("hex/dump.go", '''	b := byte(offset >> 24)
	dst[0] = table[b>>4]
	dst[1] = table[b&0x0F]
	b = byte(offset >> 16)
	dst[2] = table[b>>4]
	dst[3] = table[b&0x0F]
	b = byte(offset >> 8)
	dst[4] = table[b>>4]
	dst[5] = table[b&0x0F]
	b = byte(offset)
	dst[6] = table[b>>4]
	dst[7] = table[b&0x0F]
''', '''	for i := 7; i >= 0; i-- {
		dst[i] = table[offset&0x0F]
		offset >>= 4
	}
'''),
("hex/dump.go", '''	used := 0
	for i := i1; i < i2; i++ {
		if used == 0 {
			encodeOffset(buf[:], i)
			sb.WriteString(prefix)
			sb.Write(buf[:10])
		}
		buf[10] = table[data[i]>>4]
		buf[11] = table[data[i]&0x0F]
		buf[12] = ' '
		sb.Write(buf[10:13])
		used++
		if used == 4 && i != i2-1 {
			sb.WriteByte('\\n')
			used = 0
		}
	}
''', '''	for i := i1; i < i2; i++ {
		if (i-i1)%4 == 0 {
			if i > i1 {
				sb.WriteByte('\\n')
			}
			encodeOffset(buf[:], i)
			sb.WriteString(prefix)
			sb.Write(buf[:10])
		}
		sb.Write(buf[10 : 10+encodeData(buf[10:], data[i:i+1])])
	}
'''),
("asn/value.go", '''	if tag.IsKnown() && table[tag].isvalid(v) {
		table[tag].fprint(sb, v)
	} else {
		sb.WriteByte('?')
	}
''', '''	if !tag.IsValidValue(v) {
		sb.WriteByte('?')
		return
	}
	table[tag].fprint(sb, v)
'''),
("asn/value.go", '''	if !tag.IsKnown() {
		return "?" + strconv.FormatInt(int64(tag), 10)
	}
	return table[tag].tagstr
''', '''	if e, ok := table[tag]; ok {
		return e.tagstr
	}
	return "?" + strconv.Itoa(int(tag))
'''),
("agentx/flags.go", '''	first := true
	for i := 0; i < 8; i++ {
		flag := Flags(1 << i)
		if f&flag == 0 {
			continue
		}
		if first {
			first = false
		} else {
			sb.WriteByte('|')
		}
''', '''	sep := ""
	for i := 0; i < 8; i++ {
		flag := Flags(1 << i)
		if f&flag == 0 {
			continue
		}
		sb.WriteString(sep)
		sep = "|"
'''),
("internal/struct.go", '''	var sb strings.Builder
	fprintStruct(&sb, v, depth)
	return strings.Trim(sb.String(), "\\n")
''', '''	sb := new(strings.Builder)
	sb.Grow(256)
	fprintStruct(sb, v, depth)
	return strings.Trim(sb.String(), "\\n")
'''),
("internal/indent.go", '''	return string(maxprefix[:tabsize*depth])
''', '''	p := ""
	for ; depth > 0; depth-- {
		p += string(maxprefix[:tabsize])
	}
	return p
'''),
("logger/logger.go", '''	fmt.Printf(format+"\\n", args...)
''', '''	fmt.Println(fmt.Sprintf(format, args...))
'''),
]
B["b"] = [
# decode into locals, assign at the end; encode returns nil on failure
("agentx/pdu.go", '''	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
	d := decoder{byteOrder: pdu.Flags.byteOrder()}

	if pdu.Flags&FlagNonDefaultContext != 0 {
		pdu.Context, data = d.parseOctetString(data)
	}

	pdu.Params, data = pduTable[pdu.Tag].parseParams(d, data)

	if pduTable[pdu.Tag].includesRanges {
		for len(data) > 0 {
			var r SearchRange
			r, data = d.parseSearchRange(data)
			pdu.Ranges = append(pdu.Ranges, r)
		}
	}
	if pduTable[pdu.Tag].includesVarbinds {
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
			pdu.Varbinds = append(pdu.Varbinds, vb)
		}
	}

	ok = len(data) == 0
	return
''', '''	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
	d := decoder{byteOrder: pdu.Flags.byteOrder()}
	entry := pduTable[pdu.Tag]

	if pdu.Flags&FlagNonDefaultContext != 0 {
		pdu.Context, data = d.parseOctetString(data)
	}

	pdu.Params, data = entry.parseParams(d, data)

	switch {
	case entry.includesRanges:
		pdu.Ranges = make([]SearchRange, 0, len(data)/8)
		for len(data) > 0 {
			var r SearchRange
			r, data = d.parseSearchRange(data)
			pdu.Ranges = append(pdu.Ranges, r)
		}
	case entry.includesVarbinds:
		pdu.Varbinds = []asn.Varbind{}
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
			pdu.Varbinds = append(pdu.Varbinds, vb)
		}
	}

	return len(data) == 0
'''),
("agentx/pdu.go", '''		if r := recover(); r != nil {
			ok = false
		}
	}()

	// This panics if pdu.Tag is unknown or pdu.Params = nil
	if !pduTable''', '''		if r := recover(); r != nil {
			data, ok = nil, false
		}
	}()

	// This panics if pdu.Tag is unknown or pdu.Params = nil
	if !pduTable'''),
("agentx/encoding.go", '''	size, next := d.parseInt32(data)
	if size != 4 {
		panic(ErrEncoding)
	}
	copy(val[:], next[:4])
	next = next[4:]
	return
''', '''	size, next := d.parseInt32(data)
	if size != 4 || len(next) < 4 {
		panic(ErrEncoding)
	}
	val[0], val[1], val[2], val[3] = next[0], next[1], next[2], next[3]
	return val, next[4:]
'''),
("agentx/encoding.go", '''	return uint64(data[0])<<56 | uint64(data[1])<<48 | uint64(data[2])<<40 | uint64(data[3])<<32 |
		uint64(data[4])<<24 | uint64(data[5])<<16 | uint64(data[6])<<8 | uint64(data[7]), data[8:]
''', '''	var v uint64
	for _, b := range data[:8] {
		v = v<<8 | uint64(b)
	}
	return v, data[8:]
'''),
("agentx/encoding_dbg.go", '''		switch size {
		case 1:
			data = append(data, 0)
		case 2:
			data = append(data, 0, 0)
		case 3:
			data = append(data, 0, 0, 0)
		}
''', '''		data = append(data, make([]byte, size)...)
'''),
("agentx/encoding_dbg.go", '''	n := generics.Min(len(d.data)-startpos, size)
''', '''	n := size
	if rest := len(d.data) - startpos; rest < n {
		n = rest
	}
'''),
("agentx/encoding_dbg.go", '''	"github.com/alexispb/mygosnmp/generics"
''', ''),
("oid/tree.go", '''	t.root.Children = nil
''', '''	t.root = &Node{}
'''),
("oid/tree.go", '''	lock sync.RWMutex
''', '''	lock sync.Mutex
'''),
("oid/tree.go", "re:t\\.lock\\.R(Lock|Unlock)", "t.lock.\\1"),
("oid/node.go", '''			nodeOid := Cat(parentOid, node.Subid)
			if len(node.Children) == 0 {
				do(nodeOid, node)
			} else {
				iterate(nodeOid, node.Children)
			}
''', '''			nodeOid := append(Clone(parentOid), node.Subid)
			if len(node.Children) != 0 {
				iterate(nodeOid, node.Children)
				continue
			}
			do(nodeOid, node)
'''),
("oid/node.go", '''	if repeatition < 1 || len(node.Children) == 0 {
		return
	}

	var iterate func(*Node, int, bool, bool)
	iterate = func(node *Node, ind int, eq1, eq2 bool) {
		if len(node.Children) == 0 {
			// a leaf which is a proper prefix of oid1 (oid2) is less than it
			if (!eq1 || include1 && ind == len(oid1)) && (!eq2 || ind < len(oid2)) {
				if repeatition == 1 {
					resnode = node
				} else {
					repeatition--
				}
			}
			return
		}
		for _, child := range node.Children {
			if eq1 && ind < len(oid1) && oid1[ind] > child.Subid {
				continue
			}
			if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid) {
				continue
			}
			if ind >= len(oid1) {
				if ind >= len(oid2) {
					iterate(child, ind, false, false)
				} else {
					iterate(child, ind+1, false, eq2 && child.Subid == oid2[ind])
				}
			} else {
				if ind >= len(oid2) {
					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], false)
				} else {
					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], eq2 && child.Subid == oid2[ind])
				}
			}
			if resnode != nil {
				return
			}
		}
	}

	iterate(node, 0, true, len(oid2) > 0)
	return
''', '''	node.forRangeLeaves(func(id []uint32, leaf *Node) {
		if resnode != nil || repeatition < 1 {
			return
		}
		if c := Compare(id, oid1); c < 0 || c == 0 && !include1 {
			return
		}
		if len(oid2) > 0 && Compare(id, oid2) >= 0 {
			return
		}
		if repeatition == 1 {
			resnode = leaf
		}
		repeatition--
	})
	return
'''),
("hex/dump.go", '''		chunk1 = data1[generics.Min(i, len(data1)):generics.Min(i+4, len(data1))]
		chunk2 = data2[generics.Min(i, len(data2)):generics.Min(i+4, len(data2))]
''', '''		chunk1, chunk2 = sub4(data1, i), sub4(data2, i)
'''),
("hex/dump.go", '''// DumpDiff compares''', '''func sub4(data []byte, i int) []byte {
	return data[generics.Min(i, len(data)):generics.Min(i+4, len(data))]
}

// DumpDiff compares'''),
("agentx/search_range.go", '''	sb.WriteString("{StartOid: ")
	oid.Fprint(sb, r.StartOid)
	sb.WriteString(" EndOid: ")
	oid.Fprint(sb, r.EndOid)
	sb.WriteString(" StartIncluded: ")
	sb.WriteString(strconv.FormatUint(uint64(r.StartIncluded), 10))
	sb.WriteByte('}')
''', '''	sb.WriteString("{StartOid: " + oid.String(r.StartOid) + " EndOid: " + oid.String(r.EndOid) +
		" StartIncluded: " + strconv.Itoa(int(r.StartIncluded)) + "}")
'''),
("internal/struct.go", '''	for i := 0; i < maxlen; i++ {
		line1 := ""
		if i < len(lines1) {
			line1 = lines1[i]
		}
		line2 := ""
		if i < len(lines2) {
			line2 = lines2[i]
		}
''', '''	for len(lines1) < maxlen {
		lines1 = append(lines1, "")
	}
	for len(lines2) < maxlen {
		lines2 = append(lines2, "")
	}
	for i, line1 := range lines1 {
		line2 := lines2[i]
'''),
("oid/oid.go", '''	cmp := Compare(id1, id2)
	return cmp == -1 || cmp == 0
''', '''	return !Gt(id1, id2)
'''),
("ipa/ip_address.go", '''	sb.WriteString(strconv.FormatUint(uint64(a[0]), 10))
	sb.WriteByte('.')
	sb.WriteString(strconv.FormatUint(uint64(a[1]), 10))
	sb.WriteByte('.')
	sb.WriteString(strconv.FormatUint(uint64(a[2]), 10))
	sb.WriteByte('.')
	sb.WriteString(strconv.FormatUint(uint64(a[3]), 10))
''', '''	for i, b := range a {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(strconv.Itoa(int(b)))
	}
'''),
]
B["c"] = [
("logger/logger.go", 'import "fmt"\n', 'import (\n	"fmt"\n	"os"\n	"sync"\n)\n\nvar mu sync.Mutex\n'),
("logger/logger.go", '''	fmt.Println(msg)
''', '''	mu.Lock()
	defer mu.Unlock()
	os.Stdout.WriteString(msg + "\\n")
'''),
("logger/logger.go", '''	fmt.Printf(format+"\\n", args...)
''', '''	s := fmt.Sprintf(format, args...)
	mu.Lock()
	defer mu.Unlock()
	fmt.Fprintln(os.Stdout, s)
'''),
("oid/oid.go", '''	for i, subid := range id {
		if i > 0 {
			sb.WriteByte('.')
		}
		sb.WriteString(strconv.FormatUint(uint64(subid), 10))
	}
''', '''	var buf [11]byte
	for i, subid := range id {
		b := buf[:0]
		if i > 0 {
			b = append(b, '.')
		}
		sb.Write(strconv.AppendUint(b, uint64(subid), 10))
	}
'''),
("agentx/pdu.go", '''	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{''', '''	scratch := pool.Get().(*[]byte)
	data = (*scratch)[:0]
	defer func() {
		*scratch, data = data, nil
		if ok {
			data = append([]byte(nil), *scratch...)
		}
		if cap(*scratch) > 1<<16 {
			*scratch = nil
		}
		pool.Put(scratch)
	}()
	e := encoder{'''),
("agentx/pdu.go", '// EncodePdu encodes pdu. The', 'var pool = sync.Pool{New: func() interface{} { return new([]byte) }}\n\n// EncodePdu encodes pdu. The'),
("agentx/pdu.go", '	"math"\n', '	"math"\n	"sync"\n'),
("agentx/encoding.go", '''	for i := 0; i < nsubids; i++ {
		var subid uint32
		subid, next = d.parseUint32(next)
		val = append(val, subid)
	}
	return
''', '''	if len(next) < 4*nsubids {
		panic(ErrEncoding)
	}
	for ; nsubids > 0; nsubids-- {
		subid, rest := d.parseUint32(next)
		val, next = append(val, subid), rest
	}
	return val, include, next
'''),
("oid/tree.go", '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.getNode(oid)
''', '''	t.lock.RLock()
	n := t.root.getNode(oid)
	t.lock.RUnlock()
	return n
'''),
("oid/tree.go", '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.getNextNode(oid1, oid2, include1, 1)
''', '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.getNextNode(oid1, oid2, include1, 1)
'''),
("oid/node.go", '''		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)
		return true
''', '''		last := len(node.Children) - 1
		copy(node.Children[ind:], node.Children[ind+1:])
		node.Children[last] = nil
		node.Children = node.Children[:last]
		return true
'''),
("hex/dump.go", '''	for i := range data {
		dst[size] = table[data[i]>>4]
		size++
		dst[size] = table[data[i]&0x0F]
		size++
		dst[size] = ' '
		size++
	}
	return
''', '''	for _, b := range data {
		size += copy(dst[size:], []byte{table[b>>4], table[b&15], ' '})
	}
	return size
'''),
("internal/struct.go", '''	lines1 := strings.Split(s1, "\\n")
	lines2 := strings.Split(s2, "\\n")
	maxlen := generics.Max(len(lines1), len(lines2))
''', '''	lines1, lines2 := strings.Split(s1, "\\n"), strings.Split(s2, "\\n")
	maxlen := len(lines1)
	if len(lines2) > maxlen {
		maxlen = len(lines2)
	}
'''),
("internal/struct.go", '	"github.com/alexispb/mygosnmp/generics"\n', ''),
]
def run(name):
    tmp = tempfile.mkdtemp(prefix="refac"); w = tmp + "/w"
    try:
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in B[name]:
            p = os.path.join(w, f); s = open(p).read()
            if old.startswith("re:"):
                n = re.sub(old[3:], new, s)
                assert n != s, (f, old)
            else:
                assert s.count(old) == 1, (f, s.count(old), old)
                n = s.replace(old, new)
            open(p, "w").write(n)
        env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
        r = subprocess.run(["go", "test", "-count=1", "./agentx", "./oid"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(name, "TESTS FAIL", r.stdout[-2000:]); return
        for i in range(1, 33):
            c = "C%02d" % i
            r = subprocess.run([V + "/check.sh", c], env=dict(env, VERIF_REPO=w, VERIF_NOEVIDENCE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(name, c, "quiet" if r.returncode == 0 else "ALARM %d\n%s" % (r.returncode, r.stdout[-2500:]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
for b in sys.argv[1:] or sorted(B): run(b)
