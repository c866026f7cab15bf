package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unicode"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/logger"
	"github.com/alexispb/mygosnmp/pduerror"
)

// ---------------------------------------------------------------- C19

func upHex(s string) (v uint64, ok bool) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			v = v<<4 | uint64(c-'0')
		case c >= 'A' && c <= 'F':
			v = v<<4 | uint64(c-'A'+10)
		default:
			return 0, false
		}
	}
	return v, len(s) > 0
}

// readDumpLine reads "OOOOOOOO  XX XX XX XX " (a final blank is optional).
func readDumpLine(l string) (off uint64, b []byte, ok bool) {
	if len(l) < 8 {
		return 0, nil, false
	}
	off, ok = upHex(l[:8])
	if !ok {
		return
	}
	rest := strings.TrimRight(l[8:], " ")
	if rest == "" {
		return off, nil, true
	}
	if !strings.HasPrefix(rest, "  ") {
		return off, nil, false
	}
	for _, w := range strings.Split(rest[2:], " ") {
		v, ok := upHex(w)
		if !ok || len(w) != 2 {
			return off, b, false
		}
		b = append(b, byte(v))
	}
	return off, b, true
}

// dumpFault says what is wrong with out as the dump of data[i1:i2].
func dumpFault(out, prefix string, data []byte, i1, i2 int) string {
	if strings.HasSuffix(out, "\n") {
		return "trailing newline"
	}
	pos := i1
	lines := strings.Split(out, "\n")
	for k, l := range lines {
		if !strings.HasPrefix(l, prefix) {
			return fmt.Sprintf("line %d does not start with the prefix: %q", k, l)
		}
		off, b, ok := readDumpLine(l[len(prefix):])
		if !ok {
			return fmt.Sprintf("line %d is not a dump line: %q", k, l)
		}
		if off != uint64(pos) {
			return fmt.Sprintf("line %d has offset %08X, want %08X", k, off, pos)
		}
		if i1 == i2 {
			if len(lines) != 1 || len(b) != 0 {
				return "an empty range shows bytes"
			}
			return ""
		}
		n := min(4, i2-pos)
		if len(b) != n {
			return fmt.Sprintf("line %d (offset %08X) shows %d bytes, want %d", k, pos, len(b), n)
		}
		if !bytes.Equal(b, data[pos:pos+n]) {
			return fmt.Sprintf("line %d (offset %08X) shows % x, the data are % x", k, pos, b, data[pos:pos+n])
		}
		pos += n
	}
	if pos != i2 {
		return fmt.Sprintf("the dump ends at %08X, the range at %08X", pos, i2)
	}
	return ""
}

func checkDumpSub(t *T, what, out, prefix string, data []byte, i1, i2 int) {
	if i1 < 0 || i2 < i1 || i2 > len(data) {
		t.Label("out of range")
		if !strings.Contains(out, "out of range") {
			t.Failf("%s of [%d:%d] of %d bytes is not refused as out of range: %q", what, i1, i2, len(data), cut(out, 300))
		}
		return
	}
	if i1 == i2 {
		t.Label("empty range")
	}
	if strings.Contains(prefix, "\n") {
		t.Label("line break in the prefix")
		bare := hex.DumpSub("", data, i1, i2)
		if w := prefix + strings.ReplaceAll(bare, "\n", "\n"+prefix); out != w {
			t.Failf("%s of [%d:%d] of %d bytes with prefix %q is %q, want %q", what, i1, i2, len(data), prefix, cut(out, 300), cut(w, 300))
		}
		out, prefix = bare, ""
	}
	if strings.Contains(out, "out of range") && !strings.Contains(prefix, "out of range") {
		t.Failf("%s of [%d:%d] of %d bytes is refused: %q", what, i1, i2, len(data), cut(out, 300))
	}
	if f := dumpFault(out, prefix, data, i1, i2); f != "" {
		t.Failf("%s of [%d:%d] of %d bytes: %s", what, i1, i2, len(data), f)
	}
}

func checkDump(t *T, prefix string, data []byte, i1, i2, size int) {
	t.Sample(func() string {
		return fmt.Sprintf("prefix %q, %d bytes, range [%d:%d], tail %d", prefix, len(data), i1, i2, size)
	})
	if i1 < i2 && i2 <= len(data) && i1 >= 0 && i2-i1 > 4 {
		t.NonTrivial()
	}
	sub := hex.DumpSub(prefix, data, i1, i2)
	keeps(t, "a dump", func() string { return hex.DumpSub(prefix, data, i1, i2) }, func() { hex.Dump("#", []byte{9, 8, 7}); hex.DumpDiff([]byte{1}, []byte{2}) })
	checkDumpSub(t, "DumpSub", sub, prefix, data, i1, i2)
	checkDumpSub(t, "Dump", hex.Dump(prefix, data), prefix, data, 0, len(data))
	lo := -1
	if size >= 0 && size <= len(data) {
		lo = len(data) - size
	}
	checkDumpSub(t, "DumpTail", hex.DumpTail(prefix, data, size), prefix, data, lo, len(data))
}

var hugeOnce sync.Once
var hugeData []byte

const hugeLen = 1<<31 + 64

var dumpOffs = func() (l []int) {
	for k := 4; k <= 31; k++ {
		l = append(l, 1<<k-4, 1<<k-1, 1<<k)
	}
	return append(l, 0x01020304, 0x12345678, 0x7F0F1F2F, 0x00ABCDEF)
}()

func sysDump(t *T, i int) {
	if i < len(dumpOffs)*3 { // offsets of every size, in lazily allocated zeros
		hugeOnce.Do(func() { // outside the Go heap, never written
			var err error
			hugeData, err = syscall.Mmap(-1, 0, hugeLen, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
			if err != nil {
				panic(err)
			}
		})
		n := []int{0, 5, 13}[i%3]
		i1 := dumpOffs[i/3]
		t.NonTrivial()
		t.KeyString(fmt.Sprint(i1, n))
		t.Sample(func() string { return fmt.Sprintf("range [%d:%d] of %d zero bytes", i1, i1+n, hugeLen) })
		checkDumpSub(t, "DumpSub", hex.DumpSub("", hugeData, i1, i1+n), "", hugeData, i1, i1+n)
		d := hugeData[:i1+n]
		checkDumpSub(t, "DumpTail", hex.DumpTail(" ", d, n), " ", d, i1, i1+n)
		return
	}
	i -= len(dumpOffs) * 3
	if i < 2*256 { // every byte value, at the start of a line and within
		data := []byte{byte(i), 0x5A, byte(i / 2), byte(255 - i), 7, byte(i), 9, byte(i), byte(i)}
		t.KeyString(fmt.Sprint("byte", i))
		checkDump(t, "", data, i%2, len(data), 5)
		return
	}
	i -= 2 * 256
	// all ranges of all short slices
	n, lo, hi := i/(28*28), i%28-3, i/28%28-3
	data := make([]byte, n)
	for k := range data {
		data[k] = byte(k*37 + 11)
	}
	t.KeyString(fmt.Sprint("short", n, lo, hi))
	checkDump(t, []string{"", "    ", "> "}[i%3], data, lo, hi, hi)
}

var nSysDump = len(dumpOffs)*3 + 512 + 24*28*28

var intEdges = []int{0, -1, 1, math.MinInt, math.MaxInt, math.MinInt32, math.MaxInt32, math.MaxUint32, math.MinInt + 1, math.MaxInt - 1}

func (g *G) index(n int) int {
	switch g.Draw(8) {
	case 0:
		return intEdges[g.Draw(uint64(len(intEdges)))]
	case 1:
		return int(g.u64())
	case 2:
		return n + g.Int(-3, 3)
	case 3:
		return g.Int(-3, 3)
	}
	return g.Int(0, n)
}

func (g *G) linePrefix() string {
	switch g.Draw(12) {
	case 0:
		return g.str(300)
	case 1:
		return g.str(10) + "\n" + g.str(10)
	}
	s := []string{"", "    ", "\t", "> ", "%s", "%d%!", "00000000  ", "é", "\n", " \n", g.str(10)}[g.Draw(11)]
	return s
}

// ---------------------------------------------------------------- C20

func checkDiff(t *T, a, b []byte) {
	t.Sample(func() string { return fmt.Sprintf("%d bytes % x / %d bytes % x", len(a), clip(a), len(b), clip(b)) })
	out := hex.DumpDiff(a, b)
	if bytes.Equal(a, b) {
		t.Label("equal")
		if out != "" {
			t.Failf("the diff of equal data is not empty: %q", cut(out, 300))
		}
		return
	}
	t.Label("different")
	if len(a) > 4 && len(b) > 4 {
		t.NonTrivial()
	}
	keeps(t, "a diff", func() string { return hex.DumpDiff(a, b) }, func() { hex.DumpDiff([]byte{1, 2}, []byte{3}); hex.Dump("", []byte{7}) })
	if out == "" {
		t.Failf("the diff of different data is empty")
	}
	if strings.HasSuffix(out, "\n") {
		out = out[:len(out)-1]
	}
	group := func(d []byte, pos int) []byte { return d[min(pos, len(d)):min(pos+4, len(d))] }
	pos := 0
	lines := strings.Split(out, "\n")
	read := func(k int, mark string, pos int, want []byte, whose string) {
		if k >= len(lines) {
			t.Failf("the diff ends where the %s group at %08X should be", whose, pos)
		}
		if !strings.HasPrefix(lines[k], mark) {
			t.Failf("line %d (%s group at %08X) is not marked %q: %q", k, whose, pos, mark, lines[k])
		}
		off, b, ok := readDumpLine(lines[k][len(mark):])
		if !ok {
			t.Failf("line %d is not a dump line: %q", k, lines[k])
		}
		if off != uint64(pos) {
			t.Failf("line %d has offset %08X, want %08X", k, off, pos)
		}
		if !bytes.Equal(b, want) {
			t.Failf("line %d: the %s group at %08X shows % x, the data are % x", k, whose, pos, b, want)
		}
	}
	k := 0
	for ; pos < max(len(a), len(b)); pos += 4 {
		ga, gb := group(a, pos), group(b, pos)
		if bytes.Equal(ga, gb) {
			read(k, " ", pos, ga, "common")
			k++
		} else {
			read(k, "\u250c", pos, ga, "first")
			read(k+1, "\u2514", pos, gb, "second")
			k += 2
		}
	}
	if k != len(lines) {
		t.Failf("the diff goes on after the last group: %q", lines[k])
	}
}

// rearrange changes b so that simple sums over it stay the same.
func (g *G) rearrange(b []byte) {
	if len(b) < 2 {
		return
	}
	at := func() int {
		switch g.Draw(4) {
		case 0:
			return len(b) / 2
		case 1:
			return len(b) - 1
		}
		return int(g.Draw(uint64(len(b))))
	}
	i, j := at(), at()
	if g.Bool() {
		j = i + 1
	}
	if j >= len(b) {
		j = 0
	}
	switch d := byte(1 + g.Draw(255)); g.Draw(5) {
	case 0:
		b[i], b[j] = b[j], b[i]
	case 1:
		if b[i] <= 255-d && b[j] >= d {
			b[i] += d
			b[j] -= d
		} else {
			b[i], b[j] = b[j], b[i]
		}
	case 2:
		if i != j {
			b[i] ^= d
			b[j] ^= d
		}
	case 3: // one place further
		x := b[len(b)-1]
		copy(b[1:], b[:len(b)-1])
		b[0] = x
	default:
		for l, r := min(i, j), max(i, j); l < r; l, r = l+1, r-1 {
			b[l], b[r] = b[r], b[l]
		}
	}
}

func genDiff(g *G) (a, b []byte) {
	a = g.bytes(3000)
	if g.Chance(1, 150) {
		a = make([]byte, 3000+g.Draw(20000))
		if g.Bool() {
			g.fillBytes(a)
		} else {
			for n := g.Draw(8); n > 0; n-- {
				a[g.Draw(uint64(len(a)))] = byte(g.Draw(256))
			}
			a[len(a)/2] = byte(g.Draw(256))
		}
	}
	switch g.Draw(9) {
	case 8:
		b = append(b, a...)
		for n := g.Int(0, 2); n >= 0; n-- {
			g.rearrange(b)
		}
	case 0:
		b = g.bytes(3000)
	case 1:
		b = append(b, a...)
	case 2:
		b = append(b, a...)
		b = append(b, g.bytes(20)...)
	case 3:
		b = append(b, a[:g.Int(0, len(a))]...)
	default:
		b = append(b, a...)
		for n := g.Int(0, 3); n >= 0 && len(b) > 0; n-- {
			b[g.Draw(uint64(len(b)))] ^= byte(g.Draw(256))
		}
		if g.Chance(1, 3) {
			b = append(b, byte(g.Draw(256)))
		}
	}
	if g.Chance(1, 4) { // parts of one array
		a = g.spare(a)
		b = a[g.Draw(uint64(len(a)+1)):]
		switch g.Draw(3) {
		case 0:
			b = b[:g.Draw(uint64(len(b)+1))]
		case 1:
			b = a[:g.Draw(uint64(len(a)+1))]
		}
		if g.Bool() {
			a, b = b, a
		}
		return a, b
	}
	if g.Bool() {
		a, b = b, a
	}
	if len(a) == 0 && g.Bool() {
		a = nil
	}
	if len(b) == 0 && g.Bool() {
		b = nil
	}
	return g.spare(a), g.spare(b)
}

var diffSizes = []int{65535, 65536, 65537, 65541, 1 << 20, 1<<20 + 3, 1<<24 + 8, 1<<24 + 9}

// sysDiff: all pairs of short lengths, equal content or one byte different
// at every place; then long ones.
func sysDiff(t *T, i int) {
	if i < 14*14*15 {
		n, m, k := i%14, i/14%14, i/196-1
		a, b := make([]byte, n), make([]byte, m)
		for j := range a {
			a[j] = byte(j*37 + 200)
		}
		for j := range b {
			b[j] = byte(j*37 + 200)
		}
		if k >= 0 && k < m {
			b[k] ^= 0x10
		}
		t.KeyString(fmt.Sprint(n, m, k))
		checkDiff(t, a, b)
		return
	}
	i -= 14 * 14 * 15
	if i < 65536 { // all pairs of bytes
		a, b := []byte{1, 2, 3, 4, byte(i), 6}, []byte{1, 2, 3, 4, byte(i >> 8), 6}
		t.KeyString(fmt.Sprint("pair", i))
		checkDiff(t, a, b)
		return
	}
	i -= 65536
	if i < len(diffTails)*len(diffTails)*2 { // one continues the other, or differs in one place
		a := make([]byte, 8200)
		for j := range a {
			a[j] = byte(j * 7)
		}
		n, m := diffTails[i/2%len(diffTails)], diffTails[i/2/len(diffTails)]
		b := append([]byte{}, a...)
		if i%2 == 1 {
			b[(n+m)/2%8200] ^= 1
		} else if i%4 == 0 {
			b = a // the same array
		}
		t.KeyString(fmt.Sprint("tail", i))
		checkDiff(t, a[:n], b[:m])
		return
	}
	i -= len(diffTails) * len(diffTails) * 2
	n := diffSizes[i%len(diffSizes)]
	a, b := make([]byte, n), make([]byte, n)
	switch i / len(diffSizes) {
	case 0:
		b[n-1], b[n/2] = 1, 2
	case 1:
		b[n-1], b[n/2] = 1, 2
		b = b[:n-1]
	case 2: // nothing but the end
		b = b[:n-5]
	}
	t.KeyString(fmt.Sprint("long", i))
	checkDiff(t, a, b)
	t.Sample(func() string { return fmt.Sprintf("%d and %d bytes", len(a), len(b)) })
}

var diffTails = []int{0, 1, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193}

var nSysDiff = 14*14*15 + 65536 + 2*len(diffTails)*len(diffTails) + 3*len(diffSizes)

// ---------------------------------------------------------------- C21

func refPrint(tag asn.Tag, v interface{}) string {
	if !validValue(tag, v) {
		return "?"
	}
	switch tag {
	case 2:
		return strconv.FormatInt(int64(v.(int32)), 10)
	case 4:
		return v.(string)
	case 6:
		return oidText(v.([]uint32))
	case 64:
		a := v.([4]byte)
		return fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])
	case 65, 66, 67:
		return fmt.Sprint(v.(uint32))
	case 68:
		return "{" + strings.Trim(fmt.Sprint(v.([]byte)), "[]") + "}"
	case 70:
		return fmt.Sprint(v.(uint64))
	}
	return ""
}

var tagNames = map[asn.Tag]string{2: "Integer32", 4: "OctetString", 5: "Null", 6: "ObjectId", 48: "Sequence", 64: "IpAddress", 65: "Counter32", 66: "Unsigned32",
	67: "TimeTicks", 68: "Opaque", 70: "Counter64", 128: "NoSuchObject", 129: "NoSuchInstance", 130: "EndOfMibView"}

func tagName(tag asn.Tag) string {
	if tag == 66 { // the RFC 2741 name of type 66 is Gauge32, the code says Unsigned32; both name it
		if s := tag.String(); s == "Gauge32" {
			return s
		}
	}
	if s := tagNames[tag]; s != "" {
		return s
	}
	return tag.String() // placeholders are decided by C22
}

func checkTyping(t *T, vb asn.Varbind) {
	t.Sample(func() string { return showVarbind(vb) })
	t.KeyString(showVarbind(vb))
	want := validValue(vb.Tag, vb.Value)
	if want {
		t.Label("valid " + tagNames[vb.Tag])
		t.NonTrivial()
	} else {
		t.Label("invalid")
		if tagNames[vb.Tag] != "" {
			t.NonTrivial()
		}
	}
	if got := vb.Tag.IsValidValue(vb.Value); got != want {
		t.Failf("tag %d: IsValidValue(%s) = %v", vb.Tag, showValue(vb.Value), got)
	}
	var sb strings.Builder
	sb.WriteString("<")
	vb.Tag.Fprint(&sb, vb.Value)
	if got, w := sb.String(), "<"+refPrint(vb.Tag, vb.Value); got != w {
		t.Failf("tag %d: value %s prints as %q, want %q", vb.Tag, showValue(vb.Value), got, w)
	}
	w := "{" + oidText(vb.Oid) + " " + tagName(vb.Tag) + ": " + refPrint(vb.Tag, vb.Value) + "}"
	vs := vb.String()
	if vs != w {
		t.Failf("varbind prints as %q, want %q", vs, w)
	}
	keeps(t, "a varbind", vb.String, func() { _ = asn.Varbind{Oid: []uint32{8, 8}, Tag: 2, Value: int32(77)}.String() })
	sb.Reset()
	sb.WriteString("<")
	vb.Fprint(&sb)
	if sb.String() != "<"+w {
		t.Failf("varbind Fprint gives %q, want %q", sb.String(), "<"+w)
	}
	if a, ok := vb.Value.([4]byte); ok {
		w := fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])
		sb.Reset()
		sb.WriteString("<")
		ipa.Fprint(&sb, a)
		if ipa.String(a) != w || sb.String() != "<"+w {
			t.Failf("address %v prints as %q and %q", a, ipa.String(a), sb.String()[1:])
		}
		keeps(t, "an address", func() string { return ipa.String(a) }, func() { ipa.String([4]byte{99, 98, 97, 96}) })
	}
	// validation agrees with the codec (too long OIDs are another matter)
	if !oidOK(vb.Oid) {
		return
	}
	if o, ok := vb.Value.([]uint32); ok && vb.Tag == 6 && !oidOK(o) {
		return
	}
	data, ok := agentx.EncodePdu(agentx.Pdu{Tag: 18, Flags: flNbo, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{vb}})
	if ok != want {
		t.Failf("varbind of tag %d with value %s: valid=%v, encoded=%v", vb.Tag, showValue(vb.Value), want, ok)
	}
	if ok {
		p, ok, why := decodeAll(data)
		if !ok || len(p.Varbinds) != 1 {
			t.Failf("the encoded varbind does not decode: %s", why)
		}
		if d := p.Varbinds[0]; !d.Tag.IsValidValue(d.Value) || !validValue(d.Tag, d.Value) {
			t.Failf("decoded varbind is not valid: %s", showVarbind(d))
		}
	}
}

func checkDecodedTyping(t *T, hdr agentx.Pdu, data []byte) {
	samplePayload(t, hdr, data)
	p := hdr
	if !agentx.DecodePduPayload(&p, data) {
		t.Label("payload refused")
		return
	}
	for _, vb := range p.Varbinds {
		t.NonTrivial()
		if !validValue(vb.Tag, vb.Value) || !vb.Tag.IsValidValue(vb.Value) {
			t.Failf("decoded varbind is not valid: %s", showVarbind(vb))
		}
		if s := vb.String(); strings.HasSuffix(s, ": ?}") && vb.Value != "?" {
			t.Failf("decoded varbind prints as %q", s)
		}
	}
	if len(p.Varbinds) > 0 {
		t.Label("decoded varbinds")
	}
}

// ---------------------------------------------------------------- C22

var errorNames = map[pduerror.Error]string{0: "NoError", 1: "TooBig", 2: "NoSuchName", 3: "BadValue", 4: "ReadOnly", 5: "GenError", 6: "NoAccess", 7: "WrongType",
	8: "WrongLength", 9: "WrongEncoding", 10: "WrongValue", 11: "NoCreation", 12: "InconsistentValue", 13: "ResourceUnavailable", 14: "CommitFailed", 15: "UndoFailed",
	16: "AuthorizationError", 17: "NotWritable", 18: "InconsistentName", 256: "OpenFailed", 257: "NotOpened", 258: "IndexWrongType", 259: "IndexAlreadyAllocated",
	260: "IndexNonAvailable", 261: "IndexNotAllocated", 262: "UnsupportedContext", 263: "DuplicateRegistration", 264: "UnknownRegistration", 265: "UnknownAgentCaps",
	266: "ParseError", 267: "RequestDenied", 268: "ProcessingError"}

// namedErrors are the constants as the package declares them: a constant with
// another value than the RFC's shows up here.
var namedErrors = map[string]pduerror.Error{"NoError": pduerror.NoError, "TooBig": pduerror.TooBig, "NoSuchName": pduerror.NoSuchName, "BadValue": pduerror.BadValue,
	"ReadOnly": pduerror.ReadOnly, "GenError": pduerror.GenError, "NoAccess": pduerror.NoAccess, "WrongType": pduerror.WrongType, "WrongLength": pduerror.WrongLength,
	"WrongEncoding": pduerror.WrongEncoding, "WrongValue": pduerror.WrongValue, "NoCreation": pduerror.NoCreation, "InconsistentValue": pduerror.InconsistentValue,
	"ResourceUnavailable": pduerror.ResourceUnavailable, "CommitFailed": pduerror.CommitFailed, "UndoFailed": pduerror.UndoFailed, "AuthorizationError": pduerror.AuthorizationError,
	"NotWritable": pduerror.NotWritable, "InconsistentName": pduerror.InconsistentName, "OpenFailed": pduerror.OpenFailed, "NotOpened": pduerror.NotOpened,
	"IndexWrongType": pduerror.IndexWrongType, "IndexAlreadyAllocated": pduerror.IndexAlreadyAllocated, "IndexNonAvailable": pduerror.IndexNonAvailable,
	"IndexNotAllocated": pduerror.IndexNotAllocated, "UnsupportedContext": pduerror.UnsupportedContext, "DuplicateRegistration": pduerror.DuplicateRegistration,
	"UnknownRegistration": pduerror.UnknownRegistration, "UnknownAgentCaps": pduerror.UnknownAgentCaps, "ParseError": pduerror.ParseError,
	"RequestDenied": pduerror.RequestDenied, "ProcessingError": pduerror.ProcessingError}

var closeNames = []string{1: "Other", 2: "ParseError", 3: "ProtocolError", 4: "Timeouts", 5: "Shutdown", 6: "ByManager"}
var flagNames = []string{"InstanceRegistration", "NewIndex", "AnyIndex", "NonDefaultContext", "NetworkByteOrder"}

func errorName(e pduerror.Error) string {
	if s := errorNames[e]; s != "" {
		return s
	}
	return e.String() // decided by C22
}
func closeName(r agentx.CloseReason) string {
	if int(r) < len(closeNames) && closeNames[r] != "" {
		return closeNames[r]
	}
	return r.String()
}
func flagsName(f agentx.Flags) string {
	var l []string
	for i := 0; i < 8; i++ {
		if f&(1<<i) == 0 {
			continue
		}
		if i < len(flagNames) {
			l = append(l, flagNames[i])
		} else {
			l = append(l, fmt.Sprintf("?0x%02X", 1<<i))
		}
	}
	return strings.Join(l, "|")
}

// enumCase k: rendering of one code of one enumeration.
type rendered struct {
	enum string
	code int
	name string // "" if undefined
	got  string
}

func enumCase(i int) rendered {
	switch {
	case i < 256:
		r := rendered{enum: "PduTag", code: i, got: agentx.PduTag(i).String()}
		if i >= 1 && i <= 18 {
			r.name = pduInfos[i].name
		}
		return r
	case i < 512:
		i -= 256
		r := rendered{enum: "CloseReason", code: i, got: agentx.CloseReason(i).String()}
		if i < len(closeNames) {
			r.name = closeNames[i]
		}
		return r
	case i < 768:
		i -= 512
		return rendered{enum: "asn.Tag", code: i, got: asn.Tag(i).String(), name: tagNames[asn.Tag(i)]}
	default:
		i -= 768
		return rendered{enum: "pduerror.Error", code: i, got: pduerror.Error(i).String(), name: errorNames[pduerror.Error(i)]}
	}
}

const nEnum = 768 + 65536

func hasNumber(s string, n int) bool { // as a number of its own, in decimal or hex
	for _, d := range []string{strconv.Itoa(n), fmt.Sprintf("%X", n), fmt.Sprintf("%x", n), fmt.Sprintf("%02X", n), fmt.Sprintf("%04X", n)} {
		for i := strings.Index(s, d); i >= 0; {
			before := i == 0 || !unicode.IsDigit(rune(s[i-1])) || strings.HasSuffix(s[:i], "0x")
			after := i+len(d) == len(s) || !unicode.IsDigit(rune(s[i+len(d)]))
			if before && after {
				return true
			}
			j := strings.Index(s[i+1:], d)
			if j < 0 {
				break
			}
			i += 1 + j
		}
	}
	return false
}

func checkEnum(t *T, i int) {
	if i >= nEnum {
		checkFlagNames(t, i-nEnum)
		return
	}
	r := enumCase(i)
	t.KeyString(fmt.Sprint(r.enum, r.code))
	t.NonTrivial()
	t.Sample(func() string { return fmt.Sprintf("%s %d -> %q", r.enum, r.code, r.got) })
	if r.name != "" {
		t.Label(r.enum + " defined")
		if r.got != r.name && !(r.enum == "asn.Tag" && r.code == 66 && r.got == "Gauge32") {
			t.Failf("%s %d renders as %q, want %q", r.enum, r.code, r.got, r.name)
		}
	} else {
		t.Label(r.enum + " undefined")
		if !hasNumber(r.got, r.code) {
			t.Failf("undefined %s %d renders as %q, without its number", r.enum, r.code, r.got)
		}
	}
	// no other code of the enumeration renders the same
	enumOnce.Do(func() {
		for k := 0; k < nEnum; k++ {
			r := enumCase(k)
			enumSeen[r.enum+" "+r.got] = append(enumSeen[r.enum+" "+r.got], r.code)
		}
	})
	if l := enumSeen[r.enum+" "+r.got]; len(l) > 1 {
		t.Failf("%s codes %v all render as %q", r.enum, l[:min(len(l), 8)], r.got)
	}
}

var enumOnce sync.Once
var enumSeen = map[string][]int{}

func checkFlagNames(t *T, i int) {
	f := agentx.Flags(i)
	t.KeyString(fmt.Sprint("flags", i))
	t.NonTrivial()
	t.Label("flags")
	got := f.String()
	t.Sample(func() string { return fmt.Sprintf("flags %#02x -> %q", i, got) })
	want := flagsName(f)
	if !strings.EqualFold(got, want) || i < 32 && got != want {
		t.Failf("flags %#02x render as %q, want %q", i, got, want)
	}
	var sb strings.Builder
	sb.WriteString("<")
	f.Fprint(&sb)
	if sb.String() != "<"+got {
		t.Failf("flags %#02x: Fprint gives %q, String %q", i, sb.String(), got)
	}
}

// checkConstants: the exported constants name the codes of the standards.
func checkConstants() string {
	if s := checkTypeConstants(); s != "" {
		return s
	}
	for n, e := range namedErrors {
		if errorNames[e] != n {
			return fmt.Sprintf("pduerror.%s is %d, which is the code of %q", n, e, errorNames[e])
		}
	}
	reasons := map[string]agentx.CloseReason{"Other": agentx.CloseReasonOther, "ParseError": agentx.CloseReasonParseError, "ProtocolError": agentx.CloseReasonProtocolError,
		"Timeouts": agentx.CloseReasonTimeouts, "Shutdown": agentx.CloseReasonShutdown, "ByManager": agentx.CloseReasonByManager}
	for n, c := range reasons {
		if int(c) >= len(closeNames) || closeNames[c] != n {
			return fmt.Sprintf("agentx.CloseReason%s is %d", n, c)
		}
	}
	return ""
}

// checkTypeConstants: the same for PDU types, flags and ASN tags.
func checkTypeConstants() string {
	tags := map[string]agentx.PduTag{"Open": agentx.TagOpen, "Close": agentx.TagClose, "Register": agentx.TagRegister, "Unregister": agentx.TagUnregister, "Get": agentx.TagGet,
		"GetNext": agentx.TagGetNext, "GetBulk": agentx.TagGetBulk, "TestSet": agentx.TagTestSet, "CommitSet": agentx.TagCommitSet, "UndoSet": agentx.TagUndoSet,
		"CleanupSet": agentx.TagCleanupSet, "Notify": agentx.TagNotify, "Ping": agentx.TagPing, "IndexAllocate": agentx.TagIndexAllocate, "IndexDeallocate": agentx.TagIndexDeallocate,
		"AddAgentCaps": agentx.TagAddAgentCaps, "RemoveAgentCaps": agentx.TagRemoveAgentCaps, "Response": agentx.TagResponse}
	for n, c := range tags {
		if !known(c) || pduInfos[c].name != n {
			return fmt.Sprintf("agentx.Tag%s is %d", n, c)
		}
	}
	flags := []agentx.Flags{agentx.FlagInstanceRegistration, agentx.FlagNewIndex, agentx.FlagAnyIndex, agentx.FlagNonDefaultContext, agentx.FlagNetworkByteOrder}
	for i, f := range flags {
		if f != 1<<i {
			return fmt.Sprintf("agentx.Flag%s is %#x", flagNames[i], byte(f))
		}
	}
	at := []asn.Tag{asn.TagInteger32, asn.TagOctetString, asn.TagNull, asn.TagObjectId, asn.TagSequence, asn.TagIpAddress, asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks,
		asn.TagOpaque, asn.TagCounter64, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView}
	for i, c := range []asn.Tag{2, 4, 5, 6, 48, 64, 65, 66, 67, 68, 70, 128, 129, 130} {
		if at[i] != c {
			return fmt.Sprintf("the asn constant of %s is %d, want %d", tagNames[c], at[i], c)
		}
	}
	return ""
}

// ---------------------------------------------------------------- C23

type line struct {
	level int
	text  string
	bare  bool // no value: a final blank is optional
}

func plainText(s string) bool {
	for _, r := range s {
		if r < ' ' || r == 0x7f {
			return false
		}
	}
	return true
}

// refLines renders a PDU; ok is false if it has parts whose text form is not
// specified line by line (control characters, foreign parameter types).
func refLines(p agentx.Pdu) (l []line, ok bool) {
	ok = true
	add := func(level int, name string, v interface{}) {
		s := fmt.Sprint(v)
		ok = ok && plainText(s)
		if s == "" {
			l = append(l, line{level, name + ":", true})
		} else {
			l = append(l, line{level, name + ": " + s, false})
		}
	}
	oidOr := func(o []uint32) string {
		if len(o) == 0 {
			return "<empty>"
		}
		return oidText(o)
	}
	tag := p.Tag.String()
	if known(p.Tag) {
		tag = pduInfos[p.Tag].name
	}
	add(0, "Tag", tag)
	fl := flagsName(p.Flags)
	if p.Flags&^31 != 0 {
		fl = p.Flags.String() // decided by C22
	}
	add(0, "Flags", fl)
	add(0, "SessionId", p.SessionId)
	add(0, "TransactionId", p.TransactionId)
	add(0, "PacketId", p.PacketId)
	add(0, "PayloadSize", p.PayloadSize)
	add(0, "Context", p.Context)
	switch q := p.Params.(type) {
	case nil:
		add(0, "Params", "<nil>")
	case agentx.NoParams:
		add(0, "Params", "")
	case agentx.OpenParams:
		add(0, "Params", "")
		add(1, "Timeout", q.Timeout)
		add(1, "Oid", oidOr(q.Oid))
		add(1, "Description", q.Description)
	case agentx.CloseParams:
		add(0, "Params", "")
		add(1, "Reason", closeName(q.Reason))
	case agentx.RegisterParams:
		add(0, "Params", "")
		add(1, "Timeout", q.Timeout)
		add(1, "Priority", q.Priority)
		add(1, "RangeSubid", q.RangeSubid)
		add(1, "Subtree", oidOr(q.Subtree))
		add(1, "UpperBound", q.UpperBound)
	case agentx.UnregisterParams:
		add(0, "Params", "")
		add(1, "Priority", q.Priority)
		add(1, "RangeSubid", q.RangeSubid)
		add(1, "Subtree", oidOr(q.Subtree))
		add(1, "UpperBound", q.UpperBound)
	case agentx.GetBulkParams:
		add(0, "Params", "")
		add(1, "NonRepeaters", q.NonRepeaters)
		add(1, "MaxRepeatitions", q.MaxRepeatitions)
	case agentx.AddAgentCapsParams:
		add(0, "Params", "")
		add(1, "Oid", oidOr(q.Oid))
		add(1, "Description", q.Description)
	case agentx.RemoveAgentCapsParams:
		add(0, "Params", "")
		add(1, "Oid", oidOr(q.Oid))
	case agentx.ResponseParams:
		add(0, "Params", "")
		add(1, "SysUpTime", q.SysUpTime)
		add(1, "Error", errorName(q.Error))
		add(1, "Index", q.Index)
	default:
		ok = false
	}
	elem := func(s string) {
		ok = ok && plainText(s)
		l = append(l, line{1, s, false})
	}
	if len(p.Ranges) == 0 {
		add(0, "Ranges", "<empty>")
	} else {
		add(0, "Ranges", "")
		for _, r := range p.Ranges {
			elem(fmt.Sprintf("{StartOid: %s EndOid: %s StartIncluded: %d}", oidText(r.StartOid), oidText(r.EndOid), r.StartIncluded))
		}
	}
	if len(p.Varbinds) == 0 {
		add(0, "Varbinds", "<empty>")
	} else {
		add(0, "Varbinds", "")
		for _, vb := range p.Varbinds {
			elem("{" + oidText(vb.Oid) + " " + tagName(vb.Tag) + ": " + refPrint(vb.Tag, vb.Value) + "}")
		}
	}
	return
}

var otherPdu = agentx.Pdu{Tag: agentx.TagClose, PacketId: 4242, Params: agentx.CloseParams{Reason: 3}}

func checkText(t *T, p agentx.Pdu, depth int) {
	pduLabel(t, p)
	samplePdu(t, p)
	out := p.String(depth)
	keeps(t, "a PDU", func() string { return p.String(depth) }, func() { otherPdu.String(depth) })
	want, ok := refLines(p)
	if !ok {
		t.Label("no line-by-line oracle (control characters or foreign parameters)")
		return
	}
	t.KeyString(fmt.Sprint(depth, out))
	if len(p.Ranges)+len(p.Varbinds) > 0 || len(want) > 10 {
		t.NonTrivial()
	}
	for _, r := range p.Ranges {
		w := fmt.Sprintf("{StartOid: %s EndOid: %s StartIncluded: %d}", oidText(r.StartOid), oidText(r.EndOid), r.StartIncluded)
		var sb strings.Builder
		sb.WriteString("<")
		r.Fprint(&sb)
		if got := r.String(); got != w || sb.String() != "<"+w {
			t.Failf("a range prints as %q and %q, want %q", got, sb.String()[1:], w)
		}
	}
	lines := strings.Split(out, "\n")
	ind := [2]int{-1, -1}
	for i, w := range want {
		if i >= len(lines) {
			t.Failf("the text ends before line %q:\n%s", w.text, cut(out, 2000))
		}
		l := lines[i]
		// the text of a line never starts with a blank
		s := strings.TrimLeft(l, " ")
		if s != w.text && !(w.bare && strings.TrimRight(s, " ") == w.text) {
			t.Failf("line %d of the text is %q, want %q\n%s", i, s, w.text, cut(out, 2000))
		}
		n := len(l) - len(s)
		if ind[w.level] < 0 {
			ind[w.level] = n
		}
		if n != ind[w.level] {
			t.Failf("line %d %q is indented by %d, others of its level by %d\n%s", i, l, n, ind[w.level], cut(out, 2000))
		}
	}
	if len(lines) > len(want) {
		t.Failf("unexpected line %q\n%s", lines[len(want)], cut(out, 2000))
	}
	if depth == 0 && ind[0] != 0 {
		t.Failf("the text of depth 0 is indented by %d", ind[0])
	}
	// one step further, up to the documented limit of 8 steps
	if ind[1] >= 0 && depth < math.MaxInt {
		if depth < maxIndent && ind[1] <= ind[0] {
			t.Failf("at depth %d nested lines are indented by %d, the outer ones by %d\n%s", depth, ind[1], ind[0], cut(out, 2000))
		}
		deeper := p.String(depth + 1)
		if n := len(deeper) - len(strings.TrimLeft(deeper, " ")); n != ind[1] {
			t.Failf("nested lines at depth %d are indented by %d, the outer lines at depth %d by %d", depth, ind[1], depth+1, n)
		}
	}
	if depth < maxIndent && depth > 0 {
		up := p.String(depth - 1)
		if n := len(up) - len(strings.TrimLeft(up, " ")); n >= ind[0] {
			t.Failf("the text of depth %d is indented by %d, that of depth %d by %d", depth-1, n, depth, ind[0])
		}
	}
}

// maxIndent: the indentation grows with the depth at least up to here.
const maxIndent = 8

// tweak returns p with one thing changed.
func tweak(g *G, p agentx.Pdu) agentx.Pdu {
	q := clonePdu(p)
	o := g.oid()
	switch g.Draw(12) {
	case 0:
		q.Tag = agentx.PduTag(g.u8())
	case 1:
		q.Flags ^= 1 << g.Draw(8)
	case 2:
		q.SessionId = g.u32()
	case 3:
		q.TransactionId = g.u32()
	case 4:
		q.PacketId = g.u32()
	case 5:
		q.PayloadSize = int32(g.u32())
	case 6:
		q.Context = g.str(40)
	case 7:
		q.Params = g.params(p.Tag)
	case 8:
		if len(q.Ranges) == 0 || g.Chance(1, 4) {
			q.Ranges = append(q.Ranges, g.srange())
		} else {
			r := &q.Ranges[g.Draw(uint64(len(q.Ranges)))]
			switch g.Draw(3) {
			case 0:
				r.StartOid = o
			case 1:
				r.EndOid = o
			case 2:
				r.StartIncluded = g.u8()
			}
		}
	default:
		if len(q.Varbinds) == 0 || g.Chance(1, 4) {
			q.Varbinds = append(q.Varbinds, g.varbind())
		} else {
			vb := &q.Varbinds[g.Draw(uint64(len(q.Varbinds)))]
			switch g.Draw(3) {
			case 0:
				vb.Oid = o
			case 1:
				vb.Value = g.value(vb.Tag)
			case 2:
				*vb = g.varbind()
			}
		}
	}
	return q
}

func validTexts(p *agentx.Pdu) bool {
	if _, ok := refLines(*p); !ok {
		return false
	}
	for i := range p.Varbinds {
		vb := &p.Varbinds[i]
		if !validValue(vb.Tag, vb.Value) {
			return false
		}
		switch vb.Tag {
		case 5, 128, 129, 130:
			vb.Value = nil
		}
	}
	return true
}

func checkDistinct(t *T, p, q agentx.Pdu) {
	if !validTexts(&p) || !validTexts(&q) {
		return
	}
	d := pduDiff(p, q)
	a, b := p.String(0), q.String(0)
	if d != "" && a == b {
		t.Failf("PDUs that differ (%s) have the same text:\n%s", d, cut(a, 2000))
	}
	if d == "" && a != b {
		t.Failf("equal PDUs have different texts:\n%s\n---\n%s", cut(a, 1500), cut(b, 1500))
	}
	if d != "" {
		t.Label("pair of different PDUs")
	}
}

// ---------------------------------------------------------------- C24

func checkLog(t *T, msgs []string, ok bool, percent, artefact bool) {
	if len(msgs) == 0 {
		t.Failf("nothing is logged")
	}
	for _, m := range msgs {
		if !artefact && strings.Contains(m, "%!") || !percent && strings.Contains(m, "%") {
			t.Failf("badly formatted log message: %q", cut(m, 500))
		}
		if ok && strings.HasPrefix(m, "!!!") {
			t.Failf("a successful call logs a failure line: %q", cut(m, 300))
		}
	}
	if last := msgs[len(msgs)-1]; !ok && !strings.HasPrefix(last, "!!!") {
		t.Failf("the last message of a failed call is %q", cut(last, 300))
	}
}

// failedDump is what the dump functions return for bounds that do not lie
// within the data.
var failedDump = regexp.MustCompile(`^ *out of range: i1 = -?\d+, i2 = -?\d+, len\(data\) = \d+$`)

// logDumps checks that a message contains the dump of all of data, and that
// every dump line of the log shows the data at its offset.
func logDumps(t *T, msgs []string, data []byte) {
	full := false
	for _, m := range msgs {
		pos := -1 // bytes of data read by a run of lines from offset 0
		for _, l := range strings.Split(m, "\n") {
			off, b, ok := readDumpLine(strings.TrimLeft(l, " "))
			if !ok {
				if failedDump.MatchString(l) {
					t.Failf("the log shows a failed dump: %q", l)
				}
				pos = -1
				continue
			}
			if off > uint64(len(data)) || off+uint64(len(b)) > uint64(len(data)) || !bytes.Equal(data[off:off+uint64(len(b))], b) {
				t.Failf("the log shows a dump line %q which does not agree with the %d bytes % x", l, len(data), clip(data))
			}
			if off == 0 {
				pos = 0
			}
			if pos >= 0 && uint64(pos) == off {
				pos += len(b)
				if pos == len(data) {
					full = true
				}
			} else {
				pos = -1
			}
		}
	}
	if !full {
		t.Failf("the log does not contain the dump of the complete data: % x", clip(data))
	}
}

// contents returns all strings of a PDU that may be logged.
func pduStrings(p agentx.Pdu) string {
	return p.String(0)
}

func checkEncodeLog(t *T, p agentx.Pdu) {
	pduLabel(t, p)
	samplePdu(t, p)
	log := &recLog{}
	data, ok := agentx.EncodePduDbg(p, log)
	s := pduStrings(p)
	checkLog(t, log.msgs, ok, strings.Contains(s, "%"), strings.Contains(s, "%!"))
	if ok {
		t.Label("encoded")
		t.KeyBytes(data)
		logDumps(t, log.msgs, data)
	} else {
		t.Label("refused to encode")
	}
	if !ok || len(data) > 28 {
		t.NonTrivial()
	}
}

func checkHeaderLog(t *T, b []byte) {
	t.Sample(func() string { return fmt.Sprintf("header % x", b) })
	t.KeyBytes(b)
	log := &recLog{}
	_, ok := agentx.DecodePduHeaderDbg(b, log)
	checkLog(t, log.msgs, ok, false, false)
	logDumps(t, log.msgs, b)
	t.NonTrivial()
	t.Label("header")
}

func checkPayloadLog(t *T, hdr agentx.Pdu, data []byte) {
	samplePayload(t, hdr, data)
	log := &recLog{}
	p := hdr
	ok := agentx.DecodePduPayloadDbg(&p, data, log)
	s := string(data) + pduStrings(hdr)
	checkLog(t, log.msgs, ok, strings.Contains(s, "%"), strings.Contains(s, "%!"))
	logDumps(t, log.msgs, data)
	if len(data) > 0 {
		t.NonTrivial()
	}
	if ok {
		t.Label("payload decoded")
	} else {
		t.Label("payload refused")
	}
}

var consoleMu sync.Mutex
var consoleFile *os.File
var consoleSaved int

// captureStdout runs f with file descriptor 1 redirected to a scratch file.
func captureStdout(f func()) string {
	consoleMu.Lock()
	defer consoleMu.Unlock()
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	if consoleFile == nil {
		var err error
		consoleFile, err = os.CreateTemp("", "vh-console")
		must(err)
		os.Remove(consoleFile.Name())
		consoleSaved, err = syscall.Dup(1)
		must(err)
	}
	must(consoleFile.Truncate(0))
	_, err := consoleFile.Seek(0, 0)
	must(err)
	must(syscall.Dup3(int(consoleFile.Fd()), 1, 0))
	defer syscall.Dup3(consoleSaved, 1, 0)
	f()
	n, err := consoleFile.Seek(0, 1)
	must(err)
	b := make([]byte, n)
	if n > 0 {
		_, err = consoleFile.ReadAt(b, 0)
		must(err)
	}
	return string(b)
}

func checkConsole(t *T) {
	g := gen(t)
	var want strings.Builder
	type msg struct {
		f    bool
		s    string
		args []interface{}
	}
	var msgs []msg
	for n := g.Int(0, 4); n >= 0; n-- {
		if g.Bool() {
			s := g.str(200)
			if g.Chance(1, 30) {
				s += strings.Repeat(g.str(20)+".", g.Int(0, 20000))
			}
			if g.Chance(1, 100) {
				s += strings.Repeat("x", 1<<g.Int(10, 20)+g.Int(-2, 2))
			}
			msgs = append(msgs, msg{s: s})
			want.WriteString(s + "\n")
			continue
		}
		f := ""
		var args []interface{}
		for k := g.Int(0, 3); k > 0; k-- {
			switch g.Draw(9) {
			case 0:
				f += strings.ReplaceAll(g.str(30), "%", "")
			case 1:
				f += "%%"
			case 2:
				f, args = f+"%s", append(args, g.str(50))
			case 3:
				f, args = f+"%d", append(args, int32(g.u32()))
			case 4:
				f, args = f+"0x%08X", append(args, g.u32())
			case 5:
				f, args = f+"%v", append(args, g.bytes(10))
			case 6:
				f, args = f+"%q", append(args, g.str(20))
			case 7:
				f, args = f+"text:\n%s", append(args, g.str(50))
			case 8:
				f += "\n"
			}
		}
		msgs = append(msgs, msg{true, f, args})
		want.WriteString(fmt.Sprintf(f, args...) + "\n")
	}
	t.Sample(func() string { return "console: " + cut(fmt.Sprintf("%#v", msgs), 500) })
	t.Label("console")
	t.NonTrivial()
	got := captureStdout(func() {
		log := logger.Console()
		for _, m := range msgs {
			if m.f {
				log.Writef(m.s, m.args...)
			} else {
				log.Write(m.s)
			}
		}
	})
	if got != want.String() {
		t.Failf("the console shows\n%q\nwant\n%q", cut(got, 1500), cut(want.String(), 1500))
	}
}

func init() {
	register(&Prop{ID: "C19", Rule: "Enumerated: all ranges (valid or not) of all slices of up to 23 bytes, every byte value, and ranges at offsets around every power of two up to 2^31; generated: data of up to 6000 bytes, any range and tail size including extreme integers, prefixes including '%' and digits. Non-trivial: a range of more than 4 bytes. Oracle: the dump is read back.",
		Quick: 3200000, Thorough: 20000000, Sys: nSysDump, SysRun: sysDump, Run: func(t *T) {
			g := gen(t)
			data := g.spare(g.bytes(6000))
			i1, i2 := g.index(len(data)), g.index(len(data))
			if i1 > i2 && g.Chance(7, 8) {
				i1, i2 = i2, i1
			}
			prefix, size := g.linePrefix(), g.index(len(data))
			g.bytesTwice(data, func(data []byte) { checkDump(t, prefix, data, i1, i2, size) })
		}})
	register(&Prop{ID: "C20", Rule: "Enumerated: all pairs of lengths up to 13 with no or one differing byte at every place, all pairs of byte values, sizes up to 16 MB; generated: random, equal, extended, truncated, edited and rearranged pairs of up to 3000 (some of up to 23000) bytes. Non-trivial: different, and both longer than 4 bytes. Oracle: both sides are read back from the diff.",
		Quick: 3600000, Thorough: 20000000, Sys: nSysDiff, SysRun: sysDiff, Run: func(t *T) {
			g := gen(t)
			a, b := genDiff(g)
			if g.Bool() {
				g.bytesTwice(a, func(a []byte) { checkDiff(t, a, b) })
			} else {
				g.bytesTwice(b, func(b []byte) { checkDiff(t, a, b) })
			}
		}})
	register(&Prop{ID: "C21", Rule: "Enumerated: all 256 tags with Go values of 25 kinds, every byte of an address, boundary numbers; generated: varbinds with valid values, with values of any kind, and payloads (half damaged) whose decoded varbinds are examined. Non-trivial: a defined tag, or a decoded varbind.",
		Quick: 6400000, Thorough: 40000000, Sys: 256*len(allValues) + 1024 + 5*len(words32) + len(words64), SysRun: func(t *T, i int) {
			if i < 256*len(allValues) {
				checkTyping(t, asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2}, Tag: asn.Tag(i / len(allValues)), Value: allValues[i%len(allValues)]})
				return
			}
			i -= 256 * len(allValues)
			if i < 1024 {
				a := [4]byte{17, 234, 5, 100}
				a[i/256] = byte(i)
				checkTyping(t, asn.Varbind{Tag: 64, Value: a})
				return
			}
			i -= 1024
			if i < 5*len(words32) {
				w := words32[i/5]
				switch i % 5 {
				case 0:
					checkTyping(t, asn.Varbind{Tag: 2, Value: int32(w)})
				case 4:
					checkTyping(t, asn.Varbind{Tag: 6, Value: []uint32{w, 1, w}})
				default:
					checkTyping(t, asn.Varbind{Tag: asn.Tag(64 + i%5), Value: w})
				}
				return
			}
			checkTyping(t, asn.Varbind{Tag: 70, Value: words64[i-5*len(words32)]})
		},
		Run: func(t *T) {
			g := gen(t)
			switch g.Draw(4) {
			case 0:
				g.varbindTwice(g.varbind(), func(vb asn.Varbind) { checkTyping(t, vb) })
			case 1, 2:
				g.varbindTwice(g.wildVarbind(), func(vb asn.Varbind) { checkTyping(t, vb) })
			default:
				h, b, _ := g.payload()
				checkDecodedTyping(t, h, b)
			}
		}})
	register(&Prop{ID: "C22", Rule: "Every code of every enumeration (256 PDU types, 256 close reasons, 256 ASN tags, 65536 PDU errors, 256 flag sets): the whole domain. Every case counts as non-trivial.",
		Sys: nEnum + 256, SysRun: checkEnum, Exhaustive: true, Finish: checkConstants})
	nv, nb := sysPdus.total(), sysBad.total()
	register(&Prop{ID: "C23", Rule: pduRule + "A third of the PDUs have things wrong with them; for every PDU also a variant with one thing changed. Non-trivial: at least one range or varbind, or parameters. Oracle: an independent rendering, line by line; pairs that differ have different texts.",
		Quick: 1500000, Thorough: 12000000, Sys: nv + nb/8 + 512, SysThorough: nv + nb, SysRun: func(t *T, i int) {
			if i < nv {
				checkText(t, sysPdus.at(i), i%3)
			} else {
				checkText(t, sysBad.at(stride(i-nv, 8, nb)), i%12)
			}
		},
		Run: func(t *T) {
			g := gen(t)
			depth := [...]int{0, 1, 2, 3, 4, 7, 8, 9, 100, math.MaxInt}[g.Draw(10)]
			var p agentx.Pdu
			if g.Chance(1, 3) {
				p = g.wildPdu()
			} else {
				p = g.pdu()
			}
			g.pduTwice(p, func(p agentx.Pdu) { checkText(t, p, depth) })
			checkDistinct(t, p, tweak(g, p))
		}})
	register(&Prop{ID: "C24", Rule: "PDUs as in C07, headers as in C04 and payloads as in C06, logged to a recording logger, and message sequences for the console logger captured at file descriptor 1. Non-trivial: refused, or more than 8 payload bytes; every header and console case.",
		Quick: 540000, Thorough: 3000000, Sys: 2*nv + nb/12 + nSysPl/4 + nSysHeader/4, SysThorough: 2*nv + nb + nSysPl + nSysHeader, SysRun: func(t *T, i int) {
			a, b, c := nb/12, nSysPl/4, nSysHeader/4
			if *fTier == "thorough" {
				a, b, c = nb, nSysPl, nSysHeader
			}
			if i < nv {
				checkEncodeLog(t, sysPdus.at(i))
				return
			}
			if i -= nv; i < nv { // and decoding them
				p := sysPdus.at(i)
				e := refEncoder{}
				d := e.payload(p)
				checkPayloadLog(t, agentx.Pdu{Tag: p.Tag, Flags: p.Flags, PayloadSize: int32(len(d))}, d)
				return
			}
			if i -= nv; i < a {
				checkEncodeLog(t, sysBad.at(stride(i, 12, nb)))
				return
			}
			if i -= a; i < b {
				h, d, _ := sysPayload(stride(i, 4, nSysPl))
				checkPayloadLog(t, h, d)
				return
			}
			if i -= b; i < c {
				checkHeaderLog(t, sysHeader(stride(i, 4, nSysHeader)))
			}
		},
		Run: func(t *T) {
			g := gen(t)
			switch g.Draw(8) {
			case 0:
				checkHeaderLog(t, genHeader(g))
			case 1, 2:
				h, b := genHostile(g)
				checkPayloadLog(t, h, b)
			case 3, 4:
				checkEncodeLog(t, g.wildPdu())
			case 5, 6:
				checkEncodeLog(t, g.pdu())
			case 7:
				checkConsole(t)
			}
		}})
}
