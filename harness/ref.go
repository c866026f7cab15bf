package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

// The reference: an independent reading of RFC 2741 (sections 5 and 6). It
// uses the repository's data types, and none of its functions.

// ---------------------------------------------------------------- pdu types

const (
	flInst = 1 << iota
	flNew
	flAny
	flCtx
	flNbo
)

type pduInfo struct {
	name     string
	flags    agentx.Flags
	ranges   bool
	varbinds bool
}

var pduInfos = [19]pduInfo{
	1:  {"Open", flNbo, false, false},
	2:  {"Close", flNbo, false, false},
	3:  {"Register", flInst | flCtx | flNbo, false, false},
	4:  {"Unregister", flInst | flCtx | flNbo, false, false},
	5:  {"Get", flCtx | flNbo, true, false},
	6:  {"GetNext", flCtx | flNbo, true, false},
	7:  {"GetBulk", flCtx | flNbo, true, false},
	8:  {"TestSet", flCtx | flNbo, false, true},
	9:  {"CommitSet", flNbo, false, false},
	10: {"UndoSet", flNbo, false, false},
	11: {"CleanupSet", flNbo, false, false},
	12: {"Notify", flCtx | flNbo, false, true},
	13: {"Ping", flCtx | flNbo, false, false},
	14: {"IndexAllocate", flNew | flAny | flCtx | flNbo, false, true},
	15: {"IndexDeallocate", flNew | flAny | flCtx | flNbo, false, true},
	16: {"AddAgentCaps", flCtx | flNbo, false, false},
	17: {"RemoveAgentCaps", flCtx | flNbo, false, false},
	18: {"Response", flInst | flNew | flAny | flCtx | flNbo, false, true},
}

func known(tag agentx.PduTag) bool { return tag >= 1 && tag <= 18 }
func allowedFlags(tag agentx.PduTag) agentx.Flags {
	if !known(tag) {
		return 0
	}
	return pduInfos[tag].flags
}
func hasRanges(tag agentx.PduTag) bool   { return known(tag) && pduInfos[tag].ranges }
func hasVarbinds(tag agentx.PduTag) bool { return known(tag) && pduInfos[tag].varbinds }

func order(f agentx.Flags) binary.ByteOrder {
	if f&flNbo != 0 {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// ownTag is a PDU type the parameters belong to.
func ownTag(p agentx.PayloadParams) agentx.PduTag {
	switch p.(type) {
	case agentx.OpenParams:
		return 1
	case agentx.CloseParams:
		return 2
	case agentx.RegisterParams:
		return 3
	case agentx.UnregisterParams:
		return 4
	case agentx.GetBulkParams:
		return 7
	case agentx.AddAgentCapsParams:
		return 16
	case agentx.RemoveAgentCapsParams:
		return 17
	case agentx.ResponseParams:
		return 18
	}
	return 5
}

func paramsFit(tag agentx.PduTag, p agentx.PayloadParams) bool {
	switch p.(type) {
	case agentx.NoParams:
		switch tag {
		case 5, 6, 8, 9, 10, 11, 12, 13, 14, 15:
			return true
		}
		return false
	case agentx.OpenParams, agentx.CloseParams, agentx.RegisterParams, agentx.UnregisterParams, agentx.GetBulkParams,
		agentx.AddAgentCapsParams, agentx.RemoveAgentCapsParams, agentx.ResponseParams:
		return ownTag(p) == tag
	}
	return false
}

// ---------------------------------------------------------------- verdicts

type verdict int

const (
	reject verdict = iota
	accept
	either // not specified
)

func (v verdict) String() string { return [...]string{"refuse", "accept", "either"}[v] }

func shortForm(o []uint32) bool {
	return len(o) >= 5 && o[0] == 1 && o[1] == 3 && o[2] == 6 && o[3] == 1 && o[4] >= 1 && o[4] <= 255
}

func validValue(tag asn.Tag, v interface{}) bool {
	switch tag {
	case 2:
		_, ok := v.(int32)
		return ok
	case 4:
		_, ok := v.(string)
		return ok
	case 6:
		_, ok := v.([]uint32)
		return ok
	case 64:
		_, ok := v.([4]byte)
		return ok
	case 65, 66, 67:
		_, ok := v.(uint32)
		return ok
	case 68:
		_, ok := v.([]byte)
		return ok
	case 70:
		_, ok := v.(uint64)
		return ok
	case 5, 128, 129, 130:
		return true
	}
	return false
}

func oidOK(o []uint32) bool { return encLen(o) <= 128 }

func varbindOK(vb asn.Varbind) bool {
	if !oidOK(vb.Oid) || !validValue(vb.Tag, vb.Value) {
		return false
	}
	if vb.Tag == 6 {
		return oidOK(vb.Value.([]uint32))
	}
	return true
}

// encodable tells what encoding has to do with a PDU, and why.
func encodable(p agentx.Pdu) (verdict, string) {
	if !known(p.Tag) {
		return reject, "unknown type"
	}
	if p.Flags&^allowedFlags(p.Tag) != 0 {
		return reject, "flags not allowed"
	}
	if !paramsFit(p.Tag, p.Params) {
		return reject, "parameters of another type"
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		if !oidOK(q.Oid) {
			return reject, "oid too long"
		}
	case agentx.RegisterParams:
		if !oidOK(q.Subtree) {
			return reject, "oid too long"
		}
	case agentx.UnregisterParams:
		if !oidOK(q.Subtree) {
			return reject, "oid too long"
		}
	case agentx.AddAgentCapsParams:
		if !oidOK(q.Oid) {
			return reject, "oid too long"
		}
	case agentx.RemoveAgentCapsParams:
		if !oidOK(q.Oid) {
			return reject, "oid too long"
		}
	case agentx.GetBulkParams:
		if q.NonRepeaters < 0 || q.MaxRepeatitions < 0 {
			return reject, "negative GetBulk count"
		}
	}
	v, why := accept, ""
	if hasRanges(p.Tag) {
		for _, r := range p.Ranges {
			if !oidOK(r.StartOid) || !oidOK(r.EndOid) {
				return reject, "oid too long"
			}
			if r.StartIncluded > 1 {
				v, why = either, "include mark above 1"
			}
		}
	}
	if hasVarbinds(p.Tag) {
		for _, vb := range p.Varbinds {
			if !oidOK(vb.Oid) {
				return reject, "oid too long"
			}
			if !varbindOK(vb) {
				return reject, "invalid varbind"
			}
		}
	}
	if refSize(p) > math.MaxInt32 {
		return reject, "payload too large"
	}
	return v, why
}

func pad4(n int64) int64 { return (n + 3) &^ 3 }

func refSize(p agentx.Pdu) int64 {
	oidSize := func(o []uint32) int64 { return 4 + 4*int64(encLen(o)) }
	strSize := func(n int) int64 { return 4 + pad4(int64(n)) }
	var n int64
	if p.Flags&flCtx != 0 {
		n += strSize(len(p.Context))
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		n += 4 + oidSize(q.Oid) + strSize(len(q.Description))
	case agentx.CloseParams, agentx.GetBulkParams:
		n += 4
	case agentx.RegisterParams:
		n += 4 + oidSize(q.Subtree)
		if q.RangeSubid != 0 {
			n += 4
		}
	case agentx.UnregisterParams:
		n += 4 + oidSize(q.Subtree)
		if q.RangeSubid != 0 {
			n += 4
		}
	case agentx.AddAgentCapsParams:
		n += oidSize(q.Oid) + strSize(len(q.Description))
	case agentx.RemoveAgentCapsParams:
		n += oidSize(q.Oid)
	case agentx.ResponseParams:
		n += 8
	}
	if hasRanges(p.Tag) {
		for _, r := range p.Ranges {
			n += oidSize(r.StartOid) + oidSize(r.EndOid)
		}
	}
	if hasVarbinds(p.Tag) {
		for _, vb := range p.Varbinds {
			n += 4 + oidSize(vb.Oid)
			switch v := vb.Value.(type) {
			case string:
				if vb.Tag == 4 {
					n += strSize(len(v))
				}
			case []byte:
				if vb.Tag == 68 {
					n += strSize(len(v))
				}
			case []uint32:
				if vb.Tag == 6 {
					n += oidSize(v)
				}
			}
			switch vb.Tag {
			case 2, 65, 66, 67:
				n += 4
			case 64, 70:
				n += 8
			}
		}
	}
	return n
}

// ---------------------------------------------------------------- encoder

type fieldKind int

const (
	fReserved fieldKind = iota
	fPadding
	fLen
	fTag
	fNsub
	fPrefix
	fInclude
	fI16
	fByte
	fWord
)

var fieldNames = [...]string{"reserved byte", "padding", "length", "varbind type", "n_subid", "prefix", "include", "int16", "byte", "word"}

type field struct {
	off, size int
	kind      fieldKind
}

// refEncoder writes the canonical form, or (alt) any form the format allows:
// OIDs with or without the short form.
type refEncoder struct {
	b      []byte
	bo     binary.ByteOrder
	fields []field
	alt    bool
	pick   func() bool
}

func (e *refEncoder) mark(k fieldKind, n int) {
	if len(e.fields) < 5000 {
		e.fields = append(e.fields, field{len(e.b), n, k})
	}
}
func (e *refEncoder) u8(k fieldKind, v byte) { e.mark(k, 1); e.b = append(e.b, v) }
func (e *refEncoder) zero(n int) {
	e.mark(fReserved, n)
	e.b = append(e.b, make([]byte, n)...)
}
func (e *refEncoder) u16(k fieldKind, v uint16) {
	e.mark(k, 2)
	var x [2]byte
	e.bo.PutUint16(x[:], v)
	e.b = append(e.b, x[:]...)
}
func (e *refEncoder) u32(k fieldKind, v uint32) {
	e.mark(k, 4)
	var x [4]byte
	e.bo.PutUint32(x[:], v)
	e.b = append(e.b, x[:]...)
}
func (e *refEncoder) u64(v uint64) {
	e.mark(fWord, 8)
	var x [8]byte
	e.bo.PutUint64(x[:], v)
	e.b = append(e.b, x[:]...)
}
func (e *refEncoder) octets(s []byte) {
	e.u32(fLen, uint32(len(s)))
	e.b = append(e.b, s...)
	if n := int(pad4(int64(len(s)))) - len(s); n > 0 {
		e.mark(fPadding, n)
		e.b = append(e.b, make([]byte, n)...)
	}
}
func (e *refEncoder) oid(o []uint32, include byte) {
	prefix := byte(0)
	if len(o) == 0 {
		include = 0
	} else if shortForm(o) && !(e.alt && len(o) <= 128 && e.pick()) {
		prefix = byte(o[4])
		o = o[5:]
	}
	e.u8(fNsub, byte(len(o)))
	e.u8(fPrefix, prefix)
	e.u8(fInclude, include)
	e.zero(1)
	for _, x := range o {
		e.u32(fWord, x)
	}
}
func (e *refEncoder) srange(r agentx.SearchRange) {
	e.oid(r.StartOid, r.StartIncluded)
	e.oid(r.EndOid, 0)
}
func (e *refEncoder) varbind(vb asn.Varbind) {
	e.u16(fTag, uint16(vb.Tag))
	e.zero(2)
	e.oid(vb.Oid, 0)
	switch vb.Tag {
	case 2:
		e.u32(fWord, uint32(vb.Value.(int32)))
	case 4:
		e.octets([]byte(vb.Value.(string)))
	case 6:
		e.oid(vb.Value.([]uint32), 0)
	case 64:
		a := vb.Value.([4]byte)
		e.u32(fLen, 4)
		e.b = append(e.b, a[:]...)
	case 65, 66, 67:
		e.u32(fWord, vb.Value.(uint32))
	case 68:
		e.octets(vb.Value.([]byte))
	case 70:
		e.u64(vb.Value.(uint64))
	}
}

func (e *refEncoder) payload(p agentx.Pdu) []byte {
	e.bo = order(p.Flags)
	if p.Flags&flCtx != 0 {
		e.octets([]byte(p.Context))
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		e.u8(fByte, q.Timeout)
		e.zero(3)
		e.oid(q.Oid, 0)
		e.octets([]byte(q.Description))
	case agentx.CloseParams:
		e.u8(fByte, byte(q.Reason))
		e.zero(3)
	case agentx.RegisterParams:
		e.u8(fByte, q.Timeout)
		e.u8(fByte, q.Priority)
		e.u8(fByte, q.RangeSubid)
		e.zero(1)
		e.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			e.u32(fWord, q.UpperBound)
		}
	case agentx.UnregisterParams:
		e.zero(1)
		e.u8(fByte, q.Priority)
		e.u8(fByte, q.RangeSubid)
		e.zero(1)
		e.oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			e.u32(fWord, q.UpperBound)
		}
	case agentx.GetBulkParams:
		e.u16(fI16, uint16(q.NonRepeaters))
		e.u16(fI16, uint16(q.MaxRepeatitions))
	case agentx.AddAgentCapsParams:
		e.oid(q.Oid, 0)
		e.octets([]byte(q.Description))
	case agentx.RemoveAgentCapsParams:
		e.oid(q.Oid, 0)
	case agentx.ResponseParams:
		e.u32(fWord, q.SysUpTime)
		e.u16(fI16, uint16(q.Error))
		e.u16(fI16, uint16(q.Index))
	}
	if hasRanges(p.Tag) {
		for _, r := range p.Ranges {
			e.srange(r)
		}
	}
	if hasVarbinds(p.Tag) {
		for _, vb := range p.Varbinds {
			e.varbind(vb)
		}
	}
	return e.b
}

func refHeader(p agentx.Pdu, size uint32) []byte {
	b := make([]byte, 20)
	bo := order(p.Flags)
	b[0], b[1], b[2] = 1, byte(p.Tag), byte(p.Flags)
	bo.PutUint32(b[4:], p.SessionId)
	bo.PutUint32(b[8:], p.TransactionId)
	bo.PutUint32(b[12:], p.PacketId)
	bo.PutUint32(b[16:], size)
	return b
}

// refEncode is the packet of an encodable PDU.
func refEncode(p agentx.Pdu) []byte {
	e := refEncoder{}
	pl := e.payload(p)
	return append(refHeader(p, uint32(len(pl))), pl...)
}

// ---------------------------------------------------------------- decoder

type malformed struct{ why string }

type refDecoder struct {
	bo    binary.ByteOrder
	b     []byte
	pos   int
	vague string // why the verdict is not specified
}

func (d *refDecoder) bad(f string, a ...interface{}) { panic(malformed{fmt.Sprintf(f, a...)}) }
func (d *refDecoder) take(n int, what string) []byte {
	if n < 0 || len(d.b)-d.pos < n {
		d.bad("%s truncated", what)
	}
	x := d.b[d.pos : d.pos+n]
	d.pos += n
	return x
}
func (d *refDecoder) zero(b []byte, what string) {
	for _, x := range b {
		if x != 0 {
			d.bad("%s not zero", what)
		}
	}
}
func (d *refDecoder) octets() []byte {
	n := int32(d.bo.Uint32(d.take(4, "length")))
	if n < 0 {
		d.bad("negative length")
	}
	s := append([]byte{}, d.take(int(n), "string")...)
	d.zero(d.take(int(pad4(int64(n))-int64(n)), "padding"), "padding")
	return s
}

// oid reads an OID; start tells whether an include mark belongs there.
func (d *refDecoder) oid(start bool) (o []uint32, include byte) {
	h := d.take(4, "oid header")
	d.zero(h[3:], "oid reserved byte")
	if h[0] > 128 {
		d.bad("more than 128 sub-identifiers")
	}
	if h[1] != 0 {
		o = append(o, 1, 3, 6, 1, uint32(h[1]))
	}
	for i := 0; i < int(h[0]); i++ {
		o = append(o, d.bo.Uint32(d.take(4, "sub-identifier")))
	}
	include = h[2]
	if include != 0 && (!start || len(o) == 0) || include > 1 {
		d.vague = "include mark"
	}
	return
}

func (d *refDecoder) varbind() asn.Varbind {
	var vb asn.Varbind
	tag := d.bo.Uint16(d.take(2, "varbind type"))
	d.zero(d.take(2, "varbind reserved bytes"), "varbind reserved bytes")
	switch tag {
	case 2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130:
	default:
		d.bad("varbind type %d", tag)
	}
	vb.Tag = asn.Tag(tag)
	vb.Oid, _ = d.oid(false)
	switch tag {
	case 2:
		vb.Value = int32(d.bo.Uint32(d.take(4, "Integer32")))
	case 4:
		vb.Value = string(d.octets())
	case 6:
		vb.Value, _ = d.oid(false)
	case 64:
		if n := d.bo.Uint32(d.take(4, "IpAddress length")); n != 4 {
			d.bad("IpAddress of %d bytes", n)
		}
		var a [4]byte
		copy(a[:], d.take(4, "IpAddress"))
		vb.Value = a
	case 65, 66, 67:
		vb.Value = d.bo.Uint32(d.take(4, "32-bit value"))
	case 68:
		vb.Value = d.octets()
	case 70:
		vb.Value = d.bo.Uint64(d.take(8, "Counter64"))
	}
	return vb
}

// refDecode tells what decoding the payload for a valid header has to yield.
func refDecode(hdr agentx.Pdu, data []byte) (p agentx.Pdu, v verdict, why string) {
	d := &refDecoder{bo: order(hdr.Flags), b: data}
	defer func() {
		if r := recover(); r != nil {
			m, ok := r.(malformed)
			if !ok {
				panic(r)
			}
			p, v, why = agentx.Pdu{}, reject, m.why
		}
	}()
	p = agentx.Pdu{Tag: hdr.Tag, Flags: hdr.Flags, SessionId: hdr.SessionId, TransactionId: hdr.TransactionId,
		PacketId: hdr.PacketId, PayloadSize: hdr.PayloadSize}
	if int64(len(data)) != int64(hdr.PayloadSize) {
		d.bad("%d bytes, the header announces %d", len(data), hdr.PayloadSize)
	}
	if hdr.Flags&flCtx != 0 {
		p.Context = string(d.octets())
	}
	switch hdr.Tag {
	case 1:
		var q agentx.OpenParams
		h := d.take(4, "parameters")
		d.zero(h[1:], "reserved bytes")
		q.Timeout = h[0]
		q.Oid, _ = d.oid(false)
		q.Description = string(d.octets())
		p.Params = q
	case 2:
		h := d.take(4, "parameters")
		d.zero(h[1:], "reserved bytes")
		p.Params = agentx.CloseParams{Reason: agentx.CloseReason(h[0])}
	case 3:
		h := d.take(4, "parameters")
		d.zero(h[3:], "reserved byte")
		q := agentx.RegisterParams{Timeout: h[0], Priority: h[1], RangeSubid: h[2]}
		q.Subtree, _ = d.oid(false)
		if q.RangeSubid != 0 {
			q.UpperBound = d.bo.Uint32(d.take(4, "upper bound"))
		}
		p.Params = q
	case 4:
		h := d.take(4, "parameters")
		d.zero(h[:1], "reserved byte")
		d.zero(h[3:], "reserved byte")
		q := agentx.UnregisterParams{Priority: h[1], RangeSubid: h[2]}
		q.Subtree, _ = d.oid(false)
		if q.RangeSubid != 0 {
			q.UpperBound = d.bo.Uint32(d.take(4, "upper bound"))
		}
		p.Params = q
	case 7:
		h := d.take(4, "parameters")
		q := agentx.GetBulkParams{NonRepeaters: int16(d.bo.Uint16(h)), MaxRepeatitions: int16(d.bo.Uint16(h[2:]))}
		if q.NonRepeaters < 0 || q.MaxRepeatitions < 0 {
			d.bad("negative GetBulk count")
		}
		p.Params = q
	case 16:
		var q agentx.AddAgentCapsParams
		q.Oid, _ = d.oid(false)
		q.Description = string(d.octets())
		p.Params = q
	case 17:
		var q agentx.RemoveAgentCapsParams
		q.Oid, _ = d.oid(false)
		p.Params = q
	case 18:
		h := d.take(8, "parameters")
		p.Params = agentx.ResponseParams{SysUpTime: d.bo.Uint32(h), Error: pduerror.Error(d.bo.Uint16(h[4:])), Index: int16(d.bo.Uint16(h[6:]))}
	default:
		p.Params = agentx.NoParams{}
	}
	if hasRanges(hdr.Tag) {
		for d.pos < len(data) {
			var r agentx.SearchRange
			r.StartOid, r.StartIncluded = d.oid(true)
			r.EndOid, _ = d.oid(false)
			p.Ranges = append(p.Ranges, r)
		}
	}
	if hasVarbinds(hdr.Tag) {
		for d.pos < len(data) {
			p.Varbinds = append(p.Varbinds, d.varbind())
		}
	}
	if d.pos != len(data) {
		d.bad("%d bytes left over", len(data)-d.pos)
	}
	if d.vague != "" {
		return p, either, d.vague
	}
	return p, accept, ""
}

// refDecodeHeader tells what decoding a header has to yield.
func refDecodeHeader(b []byte) (p agentx.Pdu, ok bool, why string) {
	if len(b) != 20 {
		return p, false, "length"
	}
	p.Tag, p.Flags = agentx.PduTag(b[1]), agentx.Flags(b[2])
	bo := order(p.Flags)
	p.SessionId, p.TransactionId, p.PacketId = bo.Uint32(b[4:]), bo.Uint32(b[8:]), bo.Uint32(b[12:])
	p.PayloadSize = int32(bo.Uint32(b[16:]))
	switch {
	case b[0] != 1:
		return p, false, "version"
	case !known(p.Tag):
		return p, false, "type"
	case p.Flags&^allowedFlags(p.Tag) != 0:
		return p, false, "flags"
	case b[3] != 0:
		return p, false, "reserved byte"
	case p.PayloadSize < 0:
		return p, false, "negative payload length"
	case p.PayloadSize%4 != 0:
		return p, false, "payload length not a multiple of 4"
	}
	return p, true, ""
}

// ---------------------------------------------------------------- comparing

// carried is the PDU a receiver of the encoded PDU has to see.
func carried(p agentx.Pdu, size int32) agentx.Pdu {
	q := p
	q.PayloadSize = size
	if p.Flags&flCtx == 0 {
		q.Context = ""
	}
	switch x := p.Params.(type) {
	case agentx.RegisterParams:
		if x.RangeSubid == 0 {
			x.UpperBound = 0
		}
		q.Params = x
	case agentx.UnregisterParams:
		if x.RangeSubid == 0 {
			x.UpperBound = 0
		}
		q.Params = x
	}
	q.Ranges, q.Varbinds = nil, nil
	if hasRanges(p.Tag) {
		for _, r := range p.Ranges {
			if len(r.StartOid) == 0 {
				r.StartIncluded = 0
			}
			q.Ranges = append(q.Ranges, r)
		}
	}
	if hasVarbinds(p.Tag) {
		for _, vb := range p.Varbinds {
			switch vb.Tag {
			case 5, 128, 129, 130:
				vb.Value = nil
			}
			q.Varbinds = append(q.Varbinds, vb)
		}
	}
	return q
}

func sameOid(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case []uint32:
		y, ok := b.([]uint32)
		return ok && sameOid(x, y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case int32, uint32, uint64, string, [4]byte:
		return a == b
	}
	return fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
}

// pduDiff names the first difference between two PDUs ("" if none).
// vagueInclude: the include mark of a null start OID is not compared.
func pduDiff(want, got agentx.Pdu) string { return pduDiffV(want, got, false) }

func pduDiffV(want, got agentx.Pdu, vagueInclude bool) string {
	ne := func(what string, a, b interface{}) string { return fmt.Sprintf("%s: want %v, got %v", what, a, b) }
	switch {
	case want.Tag != got.Tag:
		return ne("Tag", uint8(want.Tag), uint8(got.Tag))
	case want.Flags != got.Flags:
		return ne("Flags", uint8(want.Flags), uint8(got.Flags))
	case want.SessionId != got.SessionId:
		return ne("SessionId", want.SessionId, got.SessionId)
	case want.TransactionId != got.TransactionId:
		return ne("TransactionId", want.TransactionId, got.TransactionId)
	case want.PacketId != got.PacketId:
		return ne("PacketId", want.PacketId, got.PacketId)
	case want.PayloadSize != got.PayloadSize:
		return ne("PayloadSize", want.PayloadSize, got.PayloadSize)
	case want.Context != got.Context:
		return fmt.Sprintf("Context: want %q, got %q", want.Context, got.Context)
	}
	if s := paramsDiff(want.Params, got.Params); s != "" {
		return s
	}
	if len(want.Ranges) != len(got.Ranges) {
		return ne("number of ranges", len(want.Ranges), len(got.Ranges))
	}
	for i, r := range want.Ranges {
		q := got.Ranges[i]
		incl := r.StartIncluded == q.StartIncluded || vagueInclude && len(r.StartOid) == 0 && q.StartIncluded == 0
		if !sameOid(r.StartOid, q.StartOid) || !sameOid(r.EndOid, q.EndOid) || !incl {
			return ne(fmt.Sprintf("range %d", i), showRange(r), showRange(q))
		}
	}
	if len(want.Varbinds) != len(got.Varbinds) {
		return ne("number of varbinds", len(want.Varbinds), len(got.Varbinds))
	}
	for i, a := range want.Varbinds {
		b := got.Varbinds[i]
		if !sameOid(a.Oid, b.Oid) || a.Tag != b.Tag || !sameValue(a.Value, b.Value) {
			return ne(fmt.Sprintf("varbind %d", i), showVarbind(a), showVarbind(b))
		}
	}
	return ""
}

func paramsDiff(a, b agentx.PayloadParams) string {
	sa, sb := showParams(a), showParams(b)
	if sa != sb {
		return fmt.Sprintf("Params: want %s, got %s", sa, sb)
	}
	return ""
}

// ---------------------------------------------------------------- showing

func showOid(o []uint32) string {
	if len(o) == 0 {
		return "()"
	}
	var b strings.Builder
	for i, x := range o {
		if i > 0 {
			b.WriteByte('.')
		}
		b.WriteString(strconv.FormatUint(uint64(x), 10))
	}
	return b.String()
}

func showRange(r agentx.SearchRange) string {
	return fmt.Sprintf("[%s,%s include=%d]", showOid(r.StartOid), showOid(r.EndOid), r.StartIncluded)
}

func showVarbind(v asn.Varbind) string {
	return fmt.Sprintf("(%s tag=%d %s)", showOid(v.Oid), uint8(v.Tag), showValue(v.Value))
}

func showValue(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", x)
	case []uint32:
		return "oid " + showOid(x)
	case []byte:
		return fmt.Sprintf("bytes % x", x)
	}
	switch reflect.TypeOf(v).Kind() {
	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.Map, reflect.UnsafePointer: // no addresses
		return fmt.Sprintf("%T", v)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func showParams(p agentx.PayloadParams) string {
	switch q := p.(type) {
	case nil:
		return "nil"
	case agentx.NoParams:
		return "NoParams"
	case agentx.OpenParams:
		return fmt.Sprintf("Open{timeout=%d oid=%s descr=%q}", q.Timeout, showOid(q.Oid), q.Description)
	case agentx.CloseParams:
		return fmt.Sprintf("Close{reason=%d}", uint8(q.Reason))
	case agentx.RegisterParams:
		return fmt.Sprintf("Register{timeout=%d priority=%d range=%d subtree=%s upper=%d}", q.Timeout, q.Priority, q.RangeSubid, showOid(q.Subtree), q.UpperBound)
	case agentx.UnregisterParams:
		return fmt.Sprintf("Unregister{priority=%d range=%d subtree=%s upper=%d}", q.Priority, q.RangeSubid, showOid(q.Subtree), q.UpperBound)
	case agentx.GetBulkParams:
		return fmt.Sprintf("GetBulk{nonrep=%d maxrep=%d}", q.NonRepeaters, q.MaxRepeatitions)
	case agentx.AddAgentCapsParams:
		return fmt.Sprintf("AddAgentCaps{oid=%s descr=%q}", showOid(q.Oid), q.Description)
	case agentx.RemoveAgentCapsParams:
		return fmt.Sprintf("RemoveAgentCaps{oid=%s}", showOid(q.Oid))
	case agentx.ResponseParams:
		return fmt.Sprintf("Response{uptime=%d error=%d index=%d}", q.SysUpTime, uint16(q.Error), q.Index)
	}
	return fmt.Sprintf("%T", p)
}

func showPdu(p agentx.Pdu) string {
	var b strings.Builder
	fmt.Fprintf(&b, "tag=%d flags=%#02x session=%d transaction=%d packet=%d payload=%d", uint8(p.Tag), uint8(p.Flags), p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize)
	if p.Context != "" {
		fmt.Fprintf(&b, " context=%q", p.Context)
	}
	fmt.Fprintf(&b, " %s", showParams(p.Params))
	for _, r := range p.Ranges {
		b.WriteString(" " + showRange(r))
		if b.Len() > 5000 {
			break
		}
	}
	for _, v := range p.Varbinds {
		b.WriteString(" " + showVarbind(v))
		if b.Len() > 5000 {
			break
		}
	}
	return b.String()
}
