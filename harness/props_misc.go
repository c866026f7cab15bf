package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/generics"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
)

// ---------------------------------------------------------------- C28

// plainPdu is an encodable PDU of a known type, but for its flags.
func plainPdu(tag agentx.PduTag, f agentx.Flags) agentx.Pdu {
	p := agentx.Pdu{Tag: tag, Flags: f, SessionId: 1, TransactionId: 2, PacketId: 3, Params: agentx.NoParams{}}
	switch tag {
	case 1:
		p.Params = agentx.OpenParams{Oid: []uint32{1, 3, 6}}
	case 2:
		p.Params = agentx.CloseParams{Reason: 1}
	case 3:
		p.Params = agentx.RegisterParams{Subtree: []uint32{1, 3, 6}}
	case 4:
		p.Params = agentx.UnregisterParams{Subtree: []uint32{1, 3, 6}}
	case 7:
		p.Params = agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 2}
	case 16:
		p.Params = agentx.AddAgentCapsParams{Oid: []uint32{1, 3, 6}}
	case 17:
		p.Params = agentx.RemoveAgentCapsParams{Oid: []uint32{1, 3, 6}}
	case 18:
		p.Params = agentx.ResponseParams{}
	}
	return p
}

// checkFlagPredicate: one type with one flag set.
func checkFlagPredicate(t *T, tag agentx.PduTag, f agentx.Flags) {
	t.KeyString(fmt.Sprint(tag, f))
	t.NonTrivial()
	isKnown := tag.IsKnown()
	t.Sample(func() string { return fmt.Sprintf("type %d flags %#02x: known %v", tag, uint8(f), isKnown) })
	if isKnown != known(tag) {
		t.Failf("PduTag(%d).IsKnown() = %v", tag, isKnown)
	}
	if !isKnown {
		t.Label("unknown type")
	} else {
		t.Label("known type")
		if got, want := tag.NotAllowedFlags(f), f&^allowedFlags(tag); got != want {
			t.Failf("type %d: NotAllowedFlags(%#02x) = %#02x, want %#02x", tag, uint8(f), uint8(got), uint8(want))
		}
	}
	// the codec takes exactly what the predicates allow
	want := isKnown && tag.NotAllowedFlags(f) == 0
	hdr := make([]byte, 20)
	hdr[0], hdr[1], hdr[2] = 1, byte(tag), byte(f)
	if _, ok := agentx.DecodePduHeader(hdr); ok != want {
		t.Failf("type %d flags %#02x: the predicates say %v, decoding a header %v", tag, uint8(f), want, ok)
	}
	if _, ok := agentx.EncodePdu(plainPdu(tag, f)); ok != want {
		t.Failf("type %d flags %#02x: the predicates say %v, encoding %v", tag, uint8(f), want, ok)
	}
}

func checkTagPredicate(t *T, tag asn.Tag) {
	t.KeyString(fmt.Sprint("asn", tag))
	t.NonTrivial()
	t.Label("ASN tag")
	isKnown, isValue := tag.IsKnown(), tag.IsValueTag()
	t.Sample(func() string { return fmt.Sprintf("ASN tag %d: known %v, value tag %v", tag, isKnown, isValue) })
	if want := tagNames[tag] != ""; isKnown != want {
		t.Failf("asn.Tag(%d).IsKnown() = %v", tag, isKnown)
	}
	if want := tagNames[tag] != "" && tag != 48; isValue != want {
		t.Failf("asn.Tag(%d).IsValueTag() = %v", tag, isValue)
	}
	if isValue && !isKnown {
		t.Failf("asn.Tag(%d) is a value tag and unknown", tag)
	}
	// a varbind with the tag and some value can be sent exactly if it is a value tag
	sent, valid := false, false
	for _, v := range allValues {
		if tag.IsValidValue(v) {
			valid = true
		}
		p := plainPdu(18, flNbo)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1}, Tag: tag, Value: v}}
		if _, ok := agentx.EncodePdu(p); ok {
			sent = true
		}
	}
	if sent != isValue || valid != isValue {
		t.Failf("asn.Tag(%d): value tag %v, but some value is valid: %v, some varbind encodes: %v", tag, isValue, valid, sent)
	}
	// and received, with a body that fits the tag
	for _, fl := range []agentx.Flags{0, flNbo} {
		for n := 0; n <= 12; n += 4 {
			body := make([]byte, 8+4+4+n)
			order(fl).PutUint16(body[8:], uint16(tag))
			hdr := agentx.Pdu{Tag: 18, Flags: fl, PayloadSize: int32(len(body))}
			if agentx.DecodePduPayload(&hdr, body) && len(hdr.Varbinds) > 0 && hdr.Varbinds[0].Tag == tag && !isValue {
				t.Failf("asn.Tag(%d) is not a value tag and a varbind with it decodes", tag)
			}
		}
	}
}

// checkPredicatesOf: the predicates hold of whatever the codec takes.
func checkPredicatesOf(t *T, p agentx.Pdu) {
	samplePdu(t, p)
	data, ok := agentx.EncodePdu(p)
	if !ok {
		t.Label("refused")
		if p.Tag.IsKnown() && p.Tag.NotAllowedFlags(p.Flags) != 0 {
			t.NonTrivial()
		}
		return
	}
	t.Label("encoded")
	t.NonTrivial()
	q, ok, why := decodeAll(data)
	if !ok {
		t.Failf("does not decode: %s", why)
	}
	for _, x := range []agentx.Pdu{p, q} {
		if !x.Tag.IsKnown() || x.Tag.NotAllowedFlags(x.Flags) != 0 {
			t.Failf("type %d (known %v), flags %#02x passed the codec", x.Tag, x.Tag.IsKnown(), uint8(x.Flags))
		}
		if !hasVarbinds(x.Tag) {
			continue
		}
		for _, vb := range x.Varbinds {
			if !vb.Tag.IsKnown() || !vb.Tag.IsValueTag() || !vb.Tag.IsValidValue(vb.Value) {
				t.Failf("varbind %s passed the codec: known %v, value tag %v, valid %v", showVarbind(vb), vb.Tag.IsKnown(), vb.Tag.IsValueTag(), vb.Tag.IsValidValue(vb.Value))
			}
		}
	}
}

// ---------------------------------------------------------------- C29

type piece struct {
	what   string
	fprint func(*strings.Builder)
	str    func() string // nil: no String form
	want   string
}

func genPiece(g *G) piece {
	switch g.Draw(6) {
	case 0:
		o := g.anyOid()
		return piece{"OID", func(sb *strings.Builder) { oid.Fprint(sb, o) }, func() string { return oid.String(o) }, oidText(o)}
	case 1:
		var a [4]byte
		for i := range a {
			a[i] = g.u8()
		}
		return piece{"address", func(sb *strings.Builder) { ipa.Fprint(sb, a) }, func() string { return ipa.String(a) }, fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3])}
	case 2:
		f := agentx.Flags(g.u8())
		w := flagsName(f)
		if s := f.String(); strings.EqualFold(s, w) { // hex digits in either case
			w = s
		}
		return piece{"flags", func(sb *strings.Builder) { f.Fprint(sb) }, f.String, w}
	case 3:
		r := g.srange()
		return piece{"search range", func(sb *strings.Builder) { r.Fprint(sb) }, r.String,
			"{StartOid: " + oidText(r.StartOid) + " EndOid: " + oidText(r.EndOid) + " StartIncluded: " + fmt.Sprint(r.StartIncluded) + "}"}
	case 4:
		vb := g.varbind()
		if g.Chance(1, 4) {
			vb = g.wildVarbind()
		}
		return piece{"varbind", func(sb *strings.Builder) { vb.Fprint(sb) }, vb.String,
			"{" + oidText(vb.Oid) + " " + tagName(vb.Tag) + ": " + refPrint(vb.Tag, vb.Value) + "}"}
	}
	vb := g.varbind()
	if g.Chance(1, 4) {
		vb = g.wildVarbind()
	}
	return piece{"value", func(sb *strings.Builder) { vb.Tag.Fprint(sb, vb.Value) }, nil, refPrint(vb.Tag, vb.Value)}
}

func checkPieces(t *T, l []piece, start string, grow int) {
	t.Sample(func() string {
		s := fmt.Sprintf("after %q:", cut(start, 40))
		for _, p := range l {
			s += " " + p.what + " " + cut(p.want, 60)
		}
		return s
	})
	if len(l) > 1 {
		t.NonTrivial()
	}
	var sb strings.Builder
	sb.Grow(grow)
	sb.WriteString(start)
	want := start
	var texts []string
	for _, p := range l {
		t.Label(p.what)
		p.fprint(&sb)
		want += p.want
		if got := sb.String(); got != want {
			t.Failf("appending the %s %q gives\n%q\nwant\n%q", p.what, cut(p.want, 300), cut(got, 1500), cut(want, 1500))
		}
		if p.str != nil {
			if s := p.str(); s != p.want {
				t.Failf("the %s reads %q, want %q", p.what, cut(s, 700), cut(p.want, 700))
			} else {
				texts = append(texts, s, p.want)
			}
		}
	}
	t.KeyString(want)
	for i := 0; i < len(texts); i += 2 {
		if texts[i] != texts[i+1] {
			t.Failf("a text changes when another one is made: was %q, is %q", cut(texts[i+1], 700), cut(texts[i], 700))
		}
	}
	if got := sb.String(); got != want { // String calls in between have changed nothing
		t.Failf("the builder holds %q in the end, want %q", cut(got, 1500), cut(want, 1500))
	}
}

// ---------------------------------------------------------------- C30

type namedInt int16
type namedStr string
type namedFloat float32

func minmax[T generics.Ordered](t *Case, x, y T) {
	lo, hi := x, y
	if y < x {
		lo, hi = y, x
	}
	if got := generics.Min(x, y); got != lo {
		t.Failf("Min(%#v, %#v) = %#v", x, y, got)
	}
	if got := generics.Max(x, y); got != hi {
		t.Failf("Max(%#v, %#v) = %#v", x, y, got)
	}
	if x != y {
		t.NonTrivial()
	}
	t.KeyString(fmt.Sprintf("%T %v %v", x, x, y))
	t.Label(fmt.Sprintf("%T", x))
	t.Sample(func() string { return fmt.Sprintf("%T %#v, %#v", x, x, y) })
}

type Case = T

// near is a value related to x.
func near(g *G, x uint64) uint64 {
	switch g.Draw(6) {
	case 0:
		return x
	case 1:
		return x + 1
	case 2:
		return x - 1
	case 3:
		return x ^ 1<<g.Draw(64)
	case 4:
		return -x
	}
	return g.u64()
}

func floats(g *G) (x, y float64) {
	pick := func() float64 {
		for {
			var f float64
			switch g.Draw(4) {
			case 0:
				f = [...]float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), 1, -1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32}[g.Draw(9)]
			case 1:
				f = math.Float64frombits(g.u64())
			case 2:
				f = float64(int64(g.u64()))
			default:
				f = float64(math.Float32frombits(g.u32()))
			}
			if f == f {
				return f
			}
		}
	}
	x = pick()
	switch g.Draw(4) {
	case 0:
		y = x
	case 1:
		y = math.Nextafter(x, math.Inf(1))
	case 2:
		y = -x
	default:
		y = pick()
	}
	return
}

func checkMinMax(t *T) {
	g := gen(t)
	x := g.u64()
	y := near(g, x)
	switch g.Draw(18) {
	case 0:
		minmax(t, int(x), int(y))
	case 1:
		minmax(t, int8(x), int8(y))
	case 2:
		minmax(t, int16(x), int16(y))
	case 3:
		minmax(t, int32(x), int32(y))
	case 4:
		minmax(t, int64(x), int64(y))
	case 5:
		minmax(t, uint(x), uint(y))
	case 6:
		minmax(t, uint8(x), uint8(y))
	case 7:
		minmax(t, uint16(x), uint16(y))
	case 8:
		minmax(t, uint32(x), uint32(y))
	case 9:
		minmax(t, x, y)
	case 10:
		minmax(t, uintptr(x), uintptr(y))
	case 11:
		f, h := floats(g)
		minmax(t, float32(f), float32(h))
	case 12:
		f, h := floats(g)
		minmax(t, f, h)
	case 13:
		minmax(t, namedInt(x), namedInt(y))
	case 14:
		f, h := floats(g)
		minmax(t, namedFloat(f), namedFloat(h))
	default:
		a := g.str(40)
		b := a
		switch g.Draw(4) {
		case 0:
			b = g.str(40)
		case 1:
			b = a + g.str(3)
		case 2:
			if len(a) > 0 {
				c := []byte(a)
				c[g.Int(0, len(c)-1)] ^= 1 << g.Draw(8)
				b = string(c)
			}
		}
		if g.Bool() {
			a, b = b, a
		}
		if g.Bool() {
			minmax(t, namedStr(a), namedStr(b))
		} else {
			minmax(t, a, b)
		}
	}
}

func init() {
	register(&Prop{ID: "C28", Rule: "Enumerated: every type byte with every flag byte (65536) and all 256 ASN tags with Go values of all kinds, the whole domain of the predicates; generated: PDUs, half of them with things wrong, whose types, flags and tags are examined when the codec takes them. Oracle: the tables of RFC 2741, and the predicates compared with what the codec accepts. Non-trivial: enumerated, encoded, or refused because of flags.",
		Quick: 3600000, Thorough: 40000000, Sys: 65536 + 256, Finish: checkTypeConstants, SysRun: func(t *T, i int) {
			if i < 65536 {
				checkFlagPredicate(t, agentx.PduTag(i/256), agentx.Flags(i))
			} else {
				checkTagPredicate(t, asn.Tag(i))
			}
		}, Run: func(t *T) {
			g := gen(t)
			if g.Bool() {
				checkPredicatesOf(t, g.wildPdu())
			} else {
				checkPredicatesOf(t, g.pdu())
			}
		}})
	register(&Prop{ID: "C29", Rule: "1 to 8 values (OIDs, addresses, flag sets, search ranges, varbinds, ASN values, a quarter of the latter two ill-typed) are appended to one builder that already holds up to 100 bytes of text and has up to 200 bytes of spare capacity. Oracle: an independent rendering of each; the builder holds their concatenation after each step. Non-trivial: at least 2 values.",
		Quick: 2400000, Thorough: 30000000, Run: func(t *T) {
			g := gen(t)
			l := []piece{genPiece(g)}
			for n := g.Int(0, 7); n > 0; n-- {
				l = append(l, genPiece(g))
			}
			checkPieces(t, l, g.str(100), g.Int(0, 200))
		}})
	register(&Prop{ID: "C30", Rule: "Pairs of every ordered type (all integer and float types, strings, named types), equal, adjacent, one bit or the sign apart, or unrelated, with boundary values, signed zeros and infinities (no NaN, which has no order). Enumerated: all pairs of 32-bit boundary values as int32, uint32, int and uint64, and all pairs of bytes. Oracle: the language's own comparison. Non-trivial: different values.",
		Quick: 6000000, Thorough: 200000000, Sys: 65536 + len(words32)*len(words32), SysRun: func(t *T, i int) {
			if i < 65536 {
				minmax(t, uint8(i>>8), uint8(i))
				minmax(t, int8(i>>8), int8(i))
				minmax(t, string([]byte{byte(i >> 8)}), string([]byte{byte(i)}))
				return
			}
			i -= 65536
			x, y := words32[i/len(words32)], words32[i%len(words32)]
			minmax(t, x, y)
			minmax(t, int32(x), int32(y))
			minmax(t, int(x), int(y))
			minmax(t, uint64(x)<<32, uint64(y)<<32)
			minmax(t, int64(x)<<32, int64(y)<<32)
			minmax(t, float64(int32(x)), float64(int32(y)))
		}, Run: checkMinMax})
}
