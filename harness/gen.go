package main

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net"
	"net/netip"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

// G is a generator of one case: T plus a pool of the values made so far, so
// that equal and nearly equal values occur in one case.
type G struct {
	*T
	nums []uint64
	oids [][]uint32
	strs []string
	near []uint32
	// focus: prefer what is new in the sources (see dict.go)
	focus bool
	room  int // remaining budget for bulky values, in bytes
}

func gen(t *T) *G {
	g := &G{T: t, room: 6000}
	if len(freshInts)+len(freshStrings)+len(freshSeqs)+len(freshAt) > 0 {
		g.focus = g.Bool()
	}
	return g
}

// ---------------------------------------------------------------- numbers

func (g *G) bits(n uint) uint64 {
	if n >= 64 {
		return g.Draw(0)
	}
	return g.Draw(1 << n)
}

// num draws an n-bit number with a bias to small values, powers of two and
// their neighbours, literals of the code, byte patterns and earlier values.
func (g *G) num(n uint) uint64 {
	mask := uint64(math.MaxUint64)
	if n < 64 {
		mask = 1<<n - 1
	}
	var v uint64
	if g.hotNow(4) {
		v = g.hot() & mask
		g.nums = append(g.nums, v)
		return v
	}
	switch g.Draw(10) {
	case 0:
		v = g.Draw(4)
	case 1:
		v = g.Draw(40)
	case 2:
		v = g.Draw(300)
	case 3, 4:
		v = 1<<g.Draw(uint64(n)+1) + g.Draw(3) - 1
	case 5:
		v = dictInts[g.Draw(uint64(len(dictInts)))] + g.Draw(3) - 1
	case 6:
		for i := uint(0); i < n; i += 8 {
			b := [...]uint64{0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x55}[g.Draw(7)]
			v = v<<8 | b
		}
	case 7:
		if len(g.nums) > 0 {
			v = g.nums[g.Draw(uint64(len(g.nums)))]
			switch g.Draw(4) {
			case 1:
				v++
			case 2:
				v--
			case 3:
				v ^= 1 << g.Draw(uint64(n))
			}
		} else {
			v = g.bits(n)
		}
	default:
		v = g.bits(n)
	}
	v &= mask
	g.nums = append(g.nums, v)
	return v
}

func (g *G) u32() uint32 { return uint32(g.num(32)) }
func (g *G) u64() uint64 { return g.num(64) }
func (g *G) u16() uint16 { return uint16(g.num(16)) }
func (g *G) u8() byte    { return byte(g.num(8)) }

// length draws a byte length up to max.
func (g *G) length(max int) int {
	if max > g.room {
		max = g.room
	}
	if max < 0 {
		max = 0
	}
	var v uint64
	if g.hotNow(5) {
		v = g.hot()
		if v > uint64(max) {
			v %= uint64(max) + 1
		}
		g.room -= int(v)
		return int(v)
	}
	switch g.Draw(16) {
	case 0, 1, 2, 3, 4, 5:
		v = g.Draw(9)
	case 6, 7, 8, 9, 10:
		v = g.Draw(41)
	case 11:
		v = g.Draw(300)
	case 12:
		v = 1<<g.Draw(14) + g.Draw(9) - 4
	case 13:
		v = dictInts[g.Draw(uint64(len(dictInts)))] + g.Draw(9) - 4
	default:
		v = g.Draw(17)
	}
	if v > uint64(max) {
		v %= uint64(max) + 1
	}
	g.room -= int(v)
	return int(v)
}

// ---------------------------------------------------------------- strings

var nasty = []string{"%", "%s", "%d", "%!d(x)", "%!", "%%", "%v%n", "\n", "\r\n", "\x00", "\xff\xfe", "é", "日本", "\u250c", "}", "{", "<nil>", "<empty>", "!!!", "\u2028", "\x7f", "\\", "\"", " ", ""}

func (g *G) str(max int) string {
	if len(g.strs) > 0 && g.Chance(1, 8) {
		s := g.strs[g.Draw(uint64(len(g.strs)))]
		if len(s) <= max {
			return s
		}
	}
	var s string
	if g.focus && len(freshStrings) > 0 && g.Chance(1, 5) {
		s = freshStrings[g.Draw(uint64(len(freshStrings)))]
		switch g.Draw(4) {
		case 1:
			s += "x"
		case 2:
			s = "x" + s
		case 3:
			s += s
		}
		if len(s) > max {
			s = s[:max]
		}
		g.strs = append(g.strs, s)
		return s
	}
	switch g.Draw(8) {
	case 0, 1, 2:
		n := g.length(max)
		b := make([]byte, n)
		g.fillText(b)
		s = string(b)
	case 3, 4:
		s = string(g.bytes(max))
	case 5:
		for i := g.Draw(4); i > 0; i-- {
			s += nasty[g.Draw(uint64(len(nasty)))]
		}
	case 6:
		s = dictStrings[g.Draw(uint64(len(dictStrings)))]
	default:
		n := g.Draw(4)
		for ; n > 0; n-- {
			s += string(rune('a' + g.Draw(4)))
		}
	}
	if len(s) > max {
		s = s[:max]
	}
	g.strs = append(g.strs, s)
	return s
}

// fillText and fillBytes use one seed choice for long contents, so that the
// choice sequence stays short.
func (g *G) fillText(b []byte) {
	g.fillText0(b)
	if g.plantNow(4) {
		g.plant(len(b), func(i int, v uint64) { b[i] = byte(v) })
	}
}

func (g *G) fillText0(b []byte) {
	if len(b) <= 12 {
		for i := range b {
			b[i] = byte('a' + g.Draw(26))
		}
		return
	}
	s := g.Draw(1 << 16)
	for i := range b {
		b[i] = byte(' ' + splitmix(&s)%95)
	}
}

// berHeads: tags of BER values; 9F 78 to 9F 7B wrap floats, doubles and
// 64-bit integers in opaque values.
var berHeads = [][]byte{{0x9f, 0x78}, {0x9f, 0x79}, {0x9f, 0x7a}, {0x9f, 0x7b}, {0x9f, 0x76}, {0x44}, {0x30}, {0x02}, {0x04}, {0x06}, {0x05}, {0x30, 0x82}, {0x40}, {0x46}, {0xef, 0xbb}, {0xff, 0xfe}, {0x1f, 0x8b}, {0x00, 0x01}}

func (g *G) fillBytes(b []byte) {
	g.fillBytes0(b)
	if g.plantNow(4) {
		g.plant(len(b), func(i int, v uint64) { b[i] = byte(v) })
	}
}

func (g *G) fillBytes0(b []byte) {
	if g.hotNow(4) {
		for i := range b {
			if i >= 6 && i < len(b)-2 {
				continue
			}
			b[i] = byte(g.hot())
		}
		return
	}
	switch g.Draw(8) {
	case 0:
		return // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 4: // begins like a BER value, as opaque values do
		s := g.Draw(1 << 16)
		for i := range b {
			b[i] = byte(splitmix(&s))
		}
		h := berHeads[g.Draw(uint64(len(berHeads)))]
		copy(b, h)
		if n := len(h); len(b) > n && g.Chance(3, 4) {
			b[n] = byte(len(b) - n - 1)
		}
	case 3: // begins (or ends) with bytes that occur in the code
		s := g.Draw(1 << 16)
		for i := range b {
			b[i] = byte(splitmix(&s))
		}
		for i := 0; i < 4 && i < len(b); i++ {
			v := byte(dictInts[g.Draw(uint64(len(dictInts)))])
			if s&1 == 0 {
				b[i] = v
			} else {
				b[len(b)-1-i] = v
			}
		}
	case 2:
		if n := len(b); n > 0 { // zeros around the end
			s := g.Draw(1 << 16)
			for i := 0; i < n/2; i++ {
				b[i] = byte(splitmix(&s))
			}
		}
	default:
		if len(b) <= 12 {
			for i := range b {
				b[i] = byte(g.Draw(256))
			}
			return
		}
		s := g.Draw(1 << 16)
		for i := range b {
			b[i] = byte(splitmix(&s))
		}
	}
}

func (g *G) bytes(max int) []byte {
	b := make([]byte, g.length(max))
	g.fillBytes(b)
	return b
}

// ---------------------------------------------------------------- oids

var oidBases = [][]uint32{
	{}, {1}, {1, 3}, {1, 3, 6}, {1, 3, 6, 1}, {1, 3, 6, 2}, {1, 3, 7, 1}, {1, 2, 6, 1}, {2, 3, 6, 1}, {0, 3, 6, 1},
	{1, 3, 6, 1, 0}, {1, 3, 6, 1, 1}, {1, 3, 6, 1, 2}, {1, 3, 6, 1, 4}, {1, 3, 6, 1, 254}, {1, 3, 6, 1, 255}, {1, 3, 6, 1, 256}, {1, 3, 6, 1, 257},
	{1, 3, 6, 1, 511}, {1, 3, 6, 1, 65535}, {1, 3, 6, 1, 65537}, {1, 3, 6, 1, 0x100000ff}, {1, 3, 6, 1, 0xffffffff}, {1, 3, 6, 1, 0x80000001},
	{1, 3, 6, 1, 2, 1, 1}, {1, 3, 6, 1, 4, 1}, {257, 3, 6, 1, 4}, {1, 259, 6, 1, 4}, {1, 3, 262, 1, 4}, {1, 3, 6, 257, 4}, {1, 3, 6, 0x10001, 4},
}

// encLen is the number of sub-identifiers on the wire.
func encLen(o []uint32) int {
	if shortForm(o) {
		return len(o) - 5
	}
	return len(o)
}

// oid draws an OID that can be encoded.
func (g *G) oid() []uint32 {
	o := g.anyOid()
	for encLen(o) > 128 {
		o = o[:len(o)-1]
	}
	return o
}

// anyOid draws an OID that may be too long to encode.
func (g *G) anyOid() []uint32 {
	var o []uint32
	if g.hotNow(10) { // as many sub-identifiers as a fresh number says
		if n := int(g.hot() % 301); g.room > 4*n {
			g.room -= 4 * n
			if g.Bool() {
				o = append(o, 1, 3, 6, 1, uint32(g.Draw(258)))
			}
			s := g.Draw(1 << 16)
			for len(o) < n {
				o = append(o, uint32(splitmix(&s)>>(s%64)))
			}
			g.oids = append(g.oids, o)
			return o
		}
	}
	if len(g.oids) > 0 && g.Chance(1, 4) {
		o = append(o, g.oids[g.Draw(uint64(len(g.oids)))]...)
		switch g.Draw(5) {
		case 0:
		case 1:
			o = append(o, g.u32())
		case 2:
			if len(o) > 0 {
				o = o[:g.Draw(uint64(len(o)))]
			}
		case 3:
			if len(o) > 0 {
				i := g.Draw(uint64(len(o)))
				o[i] += uint32(g.Draw(3)) - 1
			}
		case 4:
			if len(o) > 0 {
				o[g.Draw(uint64(len(o)))] = g.u32()
			}
		}
	} else {
		switch g.Draw(12) {
		case 0:
			if g.Bool() {
				return nil
			}
			return []uint32{}
		case 1, 2, 3:
			o = append(o, oidBases[g.Draw(uint64(len(oidBases)))]...)
			for n := g.Draw(5); n > 0; n-- {
				o = append(o, g.u32())
			}
		case 4, 5:
			o = append(o, 1, 3, 6, 1)
			o = append(o, g.u32())
			for n := g.Draw(6); n > 0; n-- {
				o = append(o, g.u32())
			}
		case 6:
			for n := g.Draw(12); n > 0; n-- {
				o = append(o, uint32(g.Draw(4)))
			}
		case 7: // lengths around the limits
			n := []int{1, 2, 4, 5, 6, 31, 32, 33, 63, 64, 65, 119, 120, 123, 124, 126, 127, 128, 129, 130, 131, 132, 133, 134, 200, 255, 256, 257, 261, 262, 300}[g.Draw(31)]
			if g.room > 4*n {
				g.room -= 4 * n
				if g.Bool() {
					o = append(o, 1, 3, 6, 1, uint32(g.Draw(258)))
				}
				s := g.Draw(1 << 16)
				for len(o) < n {
					o = append(o, uint32(splitmix(&s)>>(s%64)))
				}
			}
		case 8:
			n := g.length(532) / 4
			s := g.Draw(1 << 16)
			for len(o) < n {
				o = append(o, uint32(splitmix(&s)>>32))
			}
		default:
			for n := g.Draw(9); n > 0; n-- {
				o = append(o, g.u32())
			}
		}
	}
	if g.plantNow(4) {
		if len(freshSeqs) > 0 && g.Bool() {
			s := freshSeqs[g.Draw(uint64(len(freshSeqs)))]
			o = make([]uint32, len(s), len(s)+2)
			for i, v := range s {
				o[i] = uint32(v)
			}
			switch g.Draw(4) {
			case 0:
				o = append(o, g.u32())
			case 1:
				o = append(o, g.u32(), g.u32())
			case 2:
				o = o[:g.Draw(uint64(len(o)))]
			}
		} else if len(freshAt) > 0 && g.Chance(1, 3) { // as long as it takes
			for _, p := range freshAt {
				for len(o) <= int(p[0]) {
					o = append(o, g.u32())
				}
			}
		}
		g.plant(len(o), func(i int, v uint64) { o[i] = uint32(v) })
	}
	g.oids = append(g.oids, o)
	if g.Chance(1, 6) { // spare capacity, filled with something
		c := make([]uint32, len(o), len(o)+3)
		copy(c, o)
		for i := range c[len(o):cap(c)] {
			c[:cap(c)][len(o)+i] = 0xdeadbeef
		}
		return c
	}
	return o
}

// ---------------------------------------------------------------- varbinds

var valueTags = []asn.Tag{asn.TagInteger32, asn.TagOctetString, asn.TagNull, asn.TagObjectId, asn.TagIpAddress, asn.TagCounter32, asn.TagGauge32,
	asn.TagTimeTicks, asn.TagOpaque, asn.TagCounter64, asn.TagNoSuchObject, asn.TagNoSuchInstance, asn.TagEndOfMibView}

func (g *G) value(tag asn.Tag) interface{} {
	switch tag {
	case asn.TagInteger32:
		return int32(g.u32())
	case asn.TagOctetString:
		return g.str(3000)
	case asn.TagObjectId:
		return g.oid()
	case asn.TagIpAddress:
		return [4]byte{g.u8(), g.u8(), g.u8(), g.u8()}
	case asn.TagCounter32, asn.TagGauge32, asn.TagTimeTicks:
		return g.u32()
	case asn.TagOpaque:
		b := g.bytes(3000)
		if g.Chance(1, 10) && g.room > 20 { // a BER value of a usual size
			h := berHeads[g.Draw(uint64(len(berHeads)))]
			n := []int{0, 1, 2, 4, 8, 5, 9}[g.Draw(7)]
			b = append(append([]byte{}, h...), byte(n))
			for ; n > 0; n-- {
				b = append(b, byte(g.Draw(256)))
			}
			g.room -= len(b)
		}
		if len(b) == 0 && g.Bool() {
			return []byte(nil)
		}
		if g.Chance(1, 4) {
			return spareBytes(b, g.Int(1, 9))
		}
		return b
	case asn.TagCounter64:
		return g.u64()
	}
	if g.Chance(1, 8) {
		return g.anyValue() // value-less tags take anything
	}
	return nil
}

// spareBytes is b with n bytes of spare capacity, filled with something.
func spareBytes(b []byte, n int) []byte {
	c := make([]byte, len(b)+n)
	copy(c, b)
	for i := len(b); i < len(c); i++ {
		c[i] = 0xee
	}
	return c[:len(b)]
}

// anyValue draws a Go value of any kind, most of them not an ASN value.
func (g *G) anyValue() interface{} {
	switch g.Draw(30) {
	case 25, 26, 27, 28:
		return oddValues[g.Draw(uint64(len(oddValues)))]
	case 0:
		return nil
	case 1:
		return int32(g.u32())
	case 2:
		return g.u32()
	case 3:
		return g.u64()
	case 4:
		return int64(g.u64())
	case 5:
		return int(g.u32())
	case 6:
		return uint(g.u32())
	case 7:
		return g.u8()
	case 8:
		return int16(g.u16())
	case 9:
		return g.str(20)
	case 10:
		return g.bytes(20)
	case 11:
		return g.oid()
	case 12:
		return [4]byte{1, 2, 3, 4}
	case 13:
		return []byte{1, 2, 3, 4}
	case 14:
		return [16]byte{}
	case 15:
		return true
	case 16:
		return 1.5
	case 17:
		return []int{1, 2}
	case 18:
		return []int32{1, 3}
	case 19:
		return struct{}{}
	case 20:
		return (*int32)(nil)
	case 21:
		v := int32(7)
		return &v
	case 22:
		return map[string]int{"a": 1}
	case 23:
		return namedString("named")
	case 24:
		return namedU32(5)
	default:
		return error(nil)
	}
}

type namedString string

// oddValues have methods, or cannot be compared, or wrap an ASN value.
var oddValues = []interface{}{stringerU32(7), &stringerStruct{"p"}, (*stringerStruct)(nil), errValue{"e"}, errors.New("err"), printerStr("x"), formatter{}, goStringer{}, make(chan int),
	func() int { return 1 }, func() string { return "f" }, uintptr(3), complex(1, 2), [4]uint8{9, 8, 7, 6}, &[4]byte{1, 2, 3, 4}, [][]byte{{1}}, json.Number("12"), net.IP{1, 2, 3, 4}, net.IP(nil), time.Second,
	stringerBytes{1, 2}, stringerOid{1, 3}, int8(-1), float32(2.5), rune('x'), []uint64{1}, []uint16{2}, [5]byte{}, [3]byte{}, [4]int8{}, []interface{}{1}, asn.TagNull, asn.Varbind{}, agentx.TagGet,
	pduerror.NoError, agentx.NoParams{}, &asn.Varbind{}, map[uint32]uint32{}, unsafe.Pointer(nil), new(string), new(uint32), (*string)(nil), (*[]byte)(nil), reflect.ValueOf(int32(3)),
	namedI32(-3), namedU64(1 << 40), namedBytes{1, 2, 3}, namedOid{1, 3, 6}, namedAddr{10, 0, 0, 1}, new(int32), new(uint64), new([]uint32), new([]byte), new(interface{}), time.Unix(0, 0), strings.NewReader("x"),
	bytes.NewBufferString("b"), big.NewInt(5), net.IPv4(1, 2, 3, 4), netip.AddrFrom4([4]byte{1, 2, 3, 4}), json.RawMessage("1"), sql.NullString{}, []rune("ab"), [4]uint32{}, [4]interface{}{}, []asn.Tag{1}}

type namedI32 int32
type namedU64 uint64
type namedBytes []byte
type namedOid []uint32
type namedAddr [4]byte

type stringerU32 uint32
type stringerBytes []byte
type stringerOid []uint32
type stringerStruct struct{ s string }
type errValue struct{ s string }
type printerStr string
type formatter struct{}
type goStringer struct{}

func (stringerU32) String() string   { return "stringer" }
func (stringerBytes) String() string { return "stringer bytes" }
func (stringerOid) String() string   { return "stringer oid" }
func (s *stringerStruct) String() string {
	if s == nil {
		return "nil struct"
	}
	return "struct " + s.s
}
func (e errValue) Error() string                { return "error " + e.s }
func (p printerStr) Fprint(sb *strings.Builder) { sb.WriteString("fprint") }
func (p printerStr) String() string             { return "printer" }
func (formatter) Format(f fmt.State, c rune)    { f.Write([]byte("formatted")) }
func (goStringer) GoString() string             { return "go string" }
func (goStringer) MarshalText() ([]byte, error) { return []byte("text"), nil }

type namedU32 uint32

func (g *G) varbind() asn.Varbind {
	tag := valueTags[g.Draw(uint64(len(valueTags)))]
	return asn.Varbind{Oid: g.oid(), Tag: tag, Value: g.value(tag)}
}

// wildVarbind draws a varbind of which anything may be wrong.
func (g *G) wildVarbind() asn.Varbind {
	vb := asn.Varbind{}
	if g.Chance(1, 4) {
		vb.Oid = g.anyOid()
	} else {
		vb.Oid = g.oid()
	}
	if g.Bool() {
		vb.Tag = valueTags[g.Draw(uint64(len(valueTags)))]
	} else if g.Bool() {
		vb.Tag = asn.TagSequence
	} else {
		vb.Tag = asn.Tag(g.u8())
	}
	if g.Bool() {
		vb.Value = g.anyValue()
	} else if vb.Tag == asn.TagObjectId && g.Bool() {
		vb.Value = g.anyOid()
	} else {
		vb.Value = g.value(vb.Tag)
	}
	return vb
}

func (g *G) srange() agentx.SearchRange {
	r := agentx.SearchRange{StartOid: g.oid(), EndOid: g.oid()}
	switch g.Draw(8) {
	case 0:
		r.StartIncluded = g.u8()
	case 1, 2, 3:
		r.StartIncluded = 1
	}
	return r
}

// count draws a list length.
func (g *G) count() int {
	if g.hotNow(10) {
		if n := int(g.hot() % 2048); n <= 24 || g.Chance(1, 16) {
			if n > 5 {
				g.room = 200
			}
			return n
		}
	}
	switch g.Draw(64) {
	case 63:
		g.room = 200
		return g.Int(5, 60)
	case 62:
		if g.Chance(1, 12) {
			g.room = 100
			return g.Int(100, 300)
		}
		return g.Int(0, 8)
	case 61, 60, 59, 58, 57, 56:
		return g.Int(0, 8)
	}
	return g.Int(0, 3)
}

// ---------------------------------------------------------------- pdus

func (g *G) flags(tag agentx.PduTag) agentx.Flags {
	f := agentx.Flags(g.Draw(32))
	if g.Bool() {
		f |= agentx.FlagNonDefaultContext
	}
	return f & allowedFlags(tag)
}

func (g *G) params(tag agentx.PduTag) agentx.PayloadParams {
	switch tag {
	case agentx.TagOpen:
		return agentx.OpenParams{Timeout: g.u8(), Oid: g.oid(), Description: g.str(3000)}
	case agentx.TagClose:
		return agentx.CloseParams{Reason: agentx.CloseReason(g.u8())}
	case agentx.TagRegister:
		return agentx.RegisterParams{Timeout: g.u8(), Priority: g.u8(), RangeSubid: g.rangeSubid(), Subtree: g.oid(), UpperBound: g.u32()}
	case agentx.TagUnregister:
		return agentx.UnregisterParams{Priority: g.u8(), RangeSubid: g.rangeSubid(), Subtree: g.oid(), UpperBound: g.u32()}
	case agentx.TagGetBulk:
		return agentx.GetBulkParams{NonRepeaters: int16(g.u16() & 0x7fff), MaxRepeatitions: int16(g.u16() & 0x7fff)}
	case agentx.TagAddAgentCaps:
		return agentx.AddAgentCapsParams{Oid: g.oid(), Description: g.str(3000)}
	case agentx.TagRemoveAgentCaps:
		return agentx.RemoveAgentCapsParams{Oid: g.oid()}
	case agentx.TagResponse:
		return agentx.ResponseParams{SysUpTime: g.u32(), Error: g.pduErr(), Index: int16(g.u16())}
	}
	return agentx.NoParams{}
}

func (g *G) rangeSubid() byte {
	if g.Chance(2, 5) {
		return 0
	}
	return g.u8()
}

func (g *G) pduErr() pduerror.Error {
	switch g.Draw(4) {
	case 0:
		return pduerror.Error(g.Draw(20))
	case 1:
		return pduerror.Error(255 + g.Draw(16))
	case 2:
		return 0
	}
	return pduerror.Error(g.u16())
}

func (g *G) header(tag agentx.PduTag) agentx.Pdu {
	return agentx.Pdu{Tag: tag, Flags: g.flags(tag), SessionId: g.u32(), TransactionId: g.u32(), PacketId: g.u32()}
}

// pdu draws a PDU that can be encoded. Fields the PDU does not carry are
// sometimes filled, even with things that could not be encoded.
func (g *G) pdu() agentx.Pdu { return g.pduOf(agentx.PduTag(g.Int(1, 18))) }

func (g *G) pduOf(tag agentx.PduTag) agentx.Pdu {
	p := g.header(tag)
	if g.Chance(1, 8) {
		p.PayloadSize = int32(g.u32())
	}
	if p.Flags&agentx.FlagNonDefaultContext != 0 || g.Chance(1, 8) {
		p.Context = g.str(2000)
	}
	p.Params = g.params(tag)
	if hasRanges(tag) {
		for n := g.count(); n > 0; n-- {
			p.Ranges = append(p.Ranges, g.srange())
		}
	} else if g.Chance(1, 8) {
		for n := g.Int(1, 2); n > 0; n-- {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: g.anyOid(), EndOid: g.anyOid(), StartIncluded: g.u8()})
		}
	}
	if hasVarbinds(tag) {
		for n := g.count(); n > 0; n-- {
			p.Varbinds = append(p.Varbinds, g.varbind())
		}
	} else if g.Chance(1, 8) {
		for n := g.Int(1, 2); n > 0; n-- {
			p.Varbinds = append(p.Varbinds, g.wildVarbind())
		}
	}
	return p
}

type embeddedParams struct{ agentx.NoParams }

func (g *G) wildParams() agentx.PayloadParams {
	switch g.Draw(8) {
	case 0:
		return nil
	case 1:
		return &agentx.NoParams{}
	case 2:
		return (*agentx.OpenParams)(nil)
	case 3:
		return &agentx.ResponseParams{Index: 1}
	case 4:
		return embeddedParams{}
	}
	return g.params(agentx.PduTag(g.Int(1, 18)))
}

// wildPdu draws a PDU in which one or more things may be wrong.
// changeOid, changeBytes and changePdu change something in place: what a
// caller does who fills the same memory again.
func (g *G) changeOid(o []uint32) {
	if len(o) == 0 {
		return
	}
	i := g.Draw(uint64(len(o)))
	switch g.Draw(3) {
	case 0:
		o[i]++
	case 1:
		o[i] ^= 1 << g.Draw(32)
	default:
		o[i] = g.u32()
	}
}

func (g *G) changeBytes(b []byte) {
	if len(b) == 0 {
		return
	}
	i := g.Draw(uint64(len(b)))
	if g.Bool() {
		b[i] ^= 1 << g.Draw(8)
	} else {
		b[i] = g.u8()
	}
}

func (g *G) changePdu(p *agentx.Pdu) {
	switch g.Draw(6) {
	case 0:
		if n := len(p.Varbinds); n > 0 {
			p.Varbinds[g.Draw(uint64(n))] = clonePdu(agentx.Pdu{Varbinds: []asn.Varbind{g.varbind()}}).Varbinds[0]
			return
		}
	case 1:
		if n := len(p.Ranges); n > 0 {
			p.Ranges[g.Draw(uint64(n))] = clonePdu(agentx.Pdu{Ranges: []agentx.SearchRange{g.srange()}}).Ranges[0]
			return
		}
	case 2:
		if l := blobs(p); len(l) > 0 {
			g.changeBytes(l[g.Draw(uint64(len(l)))])
			return
		}
	}
	if l := oidSlots(p); len(l) > 0 {
		g.changeOid(l[g.Draw(uint64(len(l)))])
	}
}

// pduTwice, bytesTwice and oidTwice check something, some of it again after a
// change in place.
func (g *G) pduTwice(p agentx.Pdu, check func(agentx.Pdu)) {
	if !g.Chance(1, 8) {
		check(p)
		return
	}
	p = clonePdu(p)
	check(p)
	for n := g.Int(1, 2); n > 0; n-- {
		g.changePdu(&p)
		g.Label("changed in place and done again")
		check(p)
	}
}

func (g *G) varbindTwice(vb asn.Varbind, check func(asn.Varbind)) {
	g.pduTwice(agentx.Pdu{Varbinds: []asn.Varbind{vb}}, func(p agentx.Pdu) { check(p.Varbinds[0]) })
}

func (g *G) bytesTwice(b []byte, check func([]byte)) {
	if !g.Chance(1, 8) {
		check(b)
		return
	}
	b = spareBytes(b, cap(b)-len(b))
	check(b)
	for n := g.Int(1, 2); n > 0; n-- {
		g.changeBytes(b)
		g.Label("changed in place and done again")
		check(b)
	}
}

func (g *G) oidTwice(o []uint32, check func([]uint32)) {
	if !g.Chance(1, 8) {
		check(o)
		return
	}
	o = cloneU32(o)
	check(o)
	for n := g.Int(1, 2); n > 0; n-- {
		g.changeOid(o)
		g.Label("changed in place and done again")
		check(o)
	}
}

func (g *G) wildPdu() agentx.Pdu {
	p := g.pdu()
	for n := g.Int(0, 2); n >= 0; n-- {
		switch g.Draw(11) {
		case 0:
			p.Tag = agentx.PduTag(g.u8())
		case 1:
			p.Tag = agentx.PduTag(g.Int(1, 18))
		case 2:
			p.Flags = agentx.Flags(g.u8())
		case 3:
			p.Flags ^= 1 << g.Draw(8)
		case 4:
			p.Params = g.wildParams()
		case 5:
			p.Params = agentx.GetBulkParams{NonRepeaters: int16(g.u16()), MaxRepeatitions: int16(g.u16())}
			if g.Bool() {
				p.Tag = agentx.TagGetBulk
			}
		case 6:
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: g.anyOid(), EndOid: g.anyOid(), StartIncluded: g.u8()})
		case 7, 8:
			if len(p.Varbinds) > 0 && g.Bool() {
				p.Varbinds[g.Draw(uint64(len(p.Varbinds)))] = g.wildVarbind()
			} else {
				p.Varbinds = append(p.Varbinds, g.wildVarbind())
			}
		case 9:
			switch g.Draw(5) {
			case 0:
				p.Params = agentx.OpenParams{Oid: g.anyOid()}
			case 1:
				p.Params = agentx.RegisterParams{Subtree: g.anyOid(), RangeSubid: g.rangeSubid()}
			case 2:
				p.Params = agentx.UnregisterParams{Subtree: g.anyOid(), RangeSubid: g.rangeSubid()}
			case 3:
				p.Params = agentx.AddAgentCapsParams{Oid: g.anyOid()}
			case 4:
				p.Params = agentx.RemoveAgentCapsParams{Oid: g.anyOid()}
			}
			if g.Chance(3, 4) {
				p.Tag = ownTag(p.Params)
				p.Flags &= allowedFlags(p.Tag)
			}
		case 10:
			p.PayloadSize = int32(g.u32())
		}
	}
	return p
}

// ---------------------------------------------------------------- payloads

// payload draws a valid header and payload bytes for it: a reference
// encoding (in any of the forms the format allows), often damaged. what says
// which ("" if undamaged).
func (g *G) payload() (hdr agentx.Pdu, data []byte, what string) {
	p := g.pdu()
	enc := refEncoder{alt: g.Bool(), pick: func() bool { return g.Bool() }}
	b := enc.payload(p)
	hdr = agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: p.SessionId, TransactionId: p.TransactionId, PacketId: p.PacketId}
	if !g.Chance(1, 4) {
		for n := g.Int(0, 2); n >= 0; n-- {
			b, what = g.damage(b, enc.fields, p.Flags, &hdr)
		}
	}
	if g.Chance(7, 8) && what != "size" {
		for len(b)%4 != 0 && g.Chance(7, 8) {
			b = append(b, 0)
		}
	}
	hdr.PayloadSize = int32(len(b))
	if what == "size" {
		hdr.PayloadSize = int32(int64(len(b)) + int64(g.Int(-8, 8)))
		if g.Chance(1, 4) {
			hdr.PayloadSize = int32(g.u32())
		}
	}
	return hdr, g.spare(b), what
}

// spare returns the bytes in a slice with other bytes behind them.
func (g *G) spare(b []byte) []byte {
	c := make([]byte, len(b), len(b)+16)
	copy(c, b)
	if g.Bool() {
		x := byte(g.Draw(3))
		for i := len(b); i < cap(c); i++ {
			c[:cap(c)][i] = x * 0x7f
		}
	}
	return c
}

func (g *G) damage(b []byte, fields []field, fl agentx.Flags, hdr *agentx.Pdu) ([]byte, string) {
	b = append([]byte{}, b...)
	at := func(n int) int {
		if len(b) < n {
			return -1
		}
		return int(g.Draw(uint64(len(b) - n + 1)))
	}
	bo := order(fl)
	switch g.Draw(15) {
	case 0: // truncate
		if len(b) > 0 {
			n := int(g.Draw(uint64(len(b))))
			if g.Bool() {
				n &^= 3
			}
			return b[:n], "truncated"
		}
	case 1: // extend
		for n := g.Int(1, 8); n > 0; n-- {
			b = append(b, byte(g.Draw(3)*0x7f))
		}
		return b, "extended"
	case 2: // drop or repeat a word
		if i := at(4); i >= 0 {
			i &^= 3
			if i+4 <= len(b) {
				if g.Bool() {
					return append(b[:i], b[i+4:]...), "word dropped"
				}
				return append(b[:i+4], append([]byte{}, b[i:]...)...), "word repeated"
			}
		}
	case 3: // set a byte
		if i := at(1); i >= 0 {
			b[i] = g.u8()
			return b, "byte set"
		}
	case 4: // flip a bit
		if i := at(1); i >= 0 {
			b[i] ^= 1 << g.Draw(8)
			return b, "bit flipped"
		}
	case 5: // set a word
		if i := at(4); i >= 0 {
			bo.PutUint32(b[i&^3:], g.u32())
			return b, "word set"
		}
	case 6, 7, 8, 9, 10: // set a particular field
		if len(fields) > 0 {
			f := fields[g.Draw(uint64(len(fields)))]
			if f.off+f.size > len(b) {
				break
			}
			switch f.kind {
			case fLen:
				var v uint32
				old := bo.Uint32(b[f.off:])
				switch g.Draw(6) {
				case 0:
					v = old + uint32(g.Draw(9)) - 4
				case 1:
					v = uint32(len(b)-f.off-4) + uint32(g.Draw(9)) - 4
				case 2:
					v = uint32([]int64{-1, math.MinInt32, math.MaxInt32, math.MaxInt32 - 3, 0x40000000, 0x10000000, -4}[g.Draw(7)])
				default:
					v = g.u32()
				}
				bo.PutUint32(b[f.off:], v)
			case fTag:
				switch g.Draw(4) {
				case 0:
					bo.PutUint16(b[f.off:], uint16(valueTags[g.Draw(uint64(len(valueTags)))])|uint16(g.Draw(256))<<8)
				case 1:
					bo.PutUint16(b[f.off:], uint16(valueTags[g.Draw(uint64(len(valueTags)))]))
				case 2:
					bo.PutUint16(b[f.off:], 48)
				default:
					bo.PutUint16(b[f.off:], g.u16())
				}
			case fNsub:
				switch g.Draw(6) {
				case 4, 5: // another number of sub-identifiers, all of them there
					old, n := int(b[f.off]), int(g.Draw(256))
					if g.Bool() {
						n = 129 + int(g.Draw(127))
					}
					if f.off+4 > len(b) || n < old {
						b[f.off] = byte(n)
						break
					}
					if g.Bool() {
						b[f.off+1] = []byte{0, 1, byte(n), byte(n - 1), byte(n + 1), g.u8()}[g.Draw(6)]
					}
					b[f.off] = byte(n)
					ins := make([]byte, 4*(n-old))
					x := g.Draw(1 << 16)
					for i := 3; i < len(ins); i += 4 {
						ins[i] = byte(splitmix(&x) % 5)
					}
					return append(b[:f.off+4], append(ins, b[f.off+4:]...)...), "longer OID"
				case 0:
					b[f.off] = byte((len(b) - f.off - 4) / 4)
				case 1:
					b[f.off] += byte(g.Draw(3)) - 1
				case 2:
					b[f.off] = byte(126 + g.Draw(5))
				default:
					b[f.off] = g.u8()
				}
			case fInclude:
				b[f.off] = byte(g.Draw(3))
				if g.Bool() {
					b[f.off] = g.u8()
				}
			case fI16:
				bo.PutUint16(b[f.off:], g.u16())
				return b, "int16 set"
			default: // reserved, padding, prefix, small bytes
				i := f.off + int(g.Draw(uint64(f.size)))
				b[i] = g.u8()
				if i > 0 && g.Chance(1, 4) { // as near by
					b[i] = b[i-1] + byte(g.Draw(3)) - 1
				}
			}
			return b, fieldNames[f.kind] + " set"
		}
	case 11: // insert a byte or a word
		i := at(0)
		n := 1
		if g.Bool() {
			i, n = i&^3, 4
		}
		ins := make([]byte, n)
		for k := range ins {
			ins[k] = g.u8()
		}
		return append(b[:i], append(ins, b[i:]...)...), "inserted"
	case 12: // another item behind
		e := refEncoder{bo: bo}
		if hasRanges(hdr.Tag) == g.Bool() {
			e.srange(g.srange())
		} else {
			e.varbind(g.varbind())
		}
		return append(b, e.b...), "item appended"
	case 13: // the payload of another pdu type
		q := g.pdu()
		q.Flags = q.Flags&^agentx.FlagNetworkByteOrder | fl&agentx.FlagNetworkByteOrder
		e := refEncoder{}
		return e.payload(q), "other payload"
	case 14:
		switch g.Draw(4) {
		case 0:
			return b, "size"
		case 1: // header of another type
			t := agentx.PduTag(g.Int(1, 18))
			hdr.Tag, hdr.Flags = t, hdr.Flags&allowedFlags(t)
			return b, "other header"
		case 2: // other byte order
			hdr.Flags ^= agentx.FlagNetworkByteOrder
			return b, "other byte order"
		case 3: // context flag
			hdr.Flags = (hdr.Flags ^ agentx.FlagNonDefaultContext) & allowedFlags(hdr.Tag)
			return b, "context flag"
		}
	}
	for i := 0; i < len(b) && i < 8; i += 4 {
		b[i] = g.u8()
	}
	return b, "start changed"
}

// words draws a payload of arbitrary words.
func (g *G) words() []byte {
	n := g.Int(0, 12)
	if g.Chance(1, 16) {
		n = g.Int(0, 200)
	}
	b := make([]byte, 4*n)
	for i := 0; i < len(b); i += 4 {
		switch g.Draw(4) {
		case 0:
		case 1:
			b[i] = byte(g.Draw(4))
			b[i+1] = byte(g.Draw(5))
		case 2:
			b[i+3] = byte(g.Draw(6))
		default:
			v := g.u32()
			b[i], b[i+1], b[i+2], b[i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
		}
	}
	if g.Chance(1, 8) && len(b) > 0 {
		b = b[:len(b)-int(g.Draw(4))]
	}
	return b
}
