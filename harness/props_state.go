package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
)

// ---------------------------------------------------------------- memory of a pdu

// clonePdu is a deep copy; spare capacity is copied too.
func clonePdu(p agentx.Pdu) agentx.Pdu {
	q := p
	q.Context = string(append([]byte{}, p.Context...))
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid, x.Description = cloneU32(x.Oid), cloneStr(x.Description)
		q.Params = x
	case agentx.RegisterParams:
		x.Subtree = cloneU32(x.Subtree)
		q.Params = x
	case agentx.UnregisterParams:
		x.Subtree = cloneU32(x.Subtree)
		q.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid, x.Description = cloneU32(x.Oid), cloneStr(x.Description)
		q.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = cloneU32(x.Oid)
		q.Params = x
	}
	if p.Ranges != nil {
		q.Ranges = make([]agentx.SearchRange, len(p.Ranges), cap(p.Ranges))
		for i, r := range p.Ranges {
			q.Ranges[i] = agentx.SearchRange{StartOid: cloneU32(r.StartOid), EndOid: cloneU32(r.EndOid), StartIncluded: r.StartIncluded}
		}
	}
	if p.Varbinds != nil {
		q.Varbinds = make([]asn.Varbind, len(p.Varbinds), cap(p.Varbinds))
		for i, v := range p.Varbinds {
			w := asn.Varbind{Oid: cloneU32(v.Oid), Tag: v.Tag, Value: v.Value}
			switch x := v.Value.(type) {
			case []uint32:
				w.Value = cloneU32(x)
			case []byte:
				w.Value = append(make([]byte, 0, cap(x)), x[:cap(x)]...)[:len(x)]
			case string:
				w.Value = cloneStr(x)
			}
			q.Varbinds[i] = w
		}
	}
	return q
}

func cloneU32(o []uint32) []uint32 {
	if o == nil {
		return nil
	}
	return append(make([]uint32, 0, cap(o)), o[:cap(o)]...)[:len(o)]
}

func cloneStr(s string) string { return string(append([]byte{}, s...)) }

// oidSlots lists the OID slices of a pdu, and blobs its byte slices.
func oidSlots(p *agentx.Pdu) (l [][]uint32) {
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		l = append(l, x.Oid)
	case agentx.RegisterParams:
		l = append(l, x.Subtree)
	case agentx.UnregisterParams:
		l = append(l, x.Subtree)
	case agentx.AddAgentCapsParams:
		l = append(l, x.Oid)
	case agentx.RemoveAgentCapsParams:
		l = append(l, x.Oid)
	}
	for _, r := range p.Ranges {
		l = append(l, r.StartOid, r.EndOid)
	}
	for _, v := range p.Varbinds {
		l = append(l, v.Oid)
		if o, ok := v.Value.([]uint32); ok {
			l = append(l, o)
		}
	}
	return
}

func blobs(p *agentx.Pdu) (l [][]byte) {
	for _, v := range p.Varbinds {
		if b, ok := v.Value.([]byte); ok {
			l = append(l, b)
		}
	}
	return
}

// memDiff compares everything reachable from two pdus, spare capacity of
// OIDs and byte slices included.
func memDiff(want, got agentx.Pdu) string {
	if d := pduDiff(want, got); d != "" {
		return d
	}
	a, b := oidSlots(&want), oidSlots(&got)
	for i := range a {
		if cap(a[i]) == cap(b[i]) && !sameOid(a[i][:cap(a[i])], b[i][:cap(b[i])]) {
			return fmt.Sprintf("memory behind OID %d", i)
		}
	}
	x, y := blobs(&want), blobs(&got)
	for i := range x {
		if cap(x[i]) == cap(y[i]) && !bytes.Equal(x[i][:cap(x[i])], y[i][:cap(y[i])]) {
			return fmt.Sprintf("memory behind byte slice %d", i)
		}
	}
	return ""
}

// scribble overwrites all memory a pdu refers to, and appends to its lists.
func scribble(p *agentx.Pdu) {
	for _, o := range oidSlots(p) {
		o = o[:cap(o)]
		for i := range o {
			o[i] = 0xa5a5a5a5
		}
	}
	for _, b := range blobs(p) {
		b = b[:cap(b)]
		for i := range b {
			b[i] = 0xa5
		}
	}
	rs := p.Ranges[:cap(p.Ranges)]
	for i := range rs {
		rs[i] = agentx.SearchRange{StartOid: []uint32{6, 6, 6}, StartIncluded: 66}
	}
	vs := p.Varbinds[:cap(p.Varbinds)]
	for i := range vs {
		vs[i] = asn.Varbind{Oid: []uint32{6, 6, 6}, Tag: 66}
	}
}

func scribbleBytes(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff
	}
}

// ---------------------------------------------------------------- C09

type packetT struct {
	hdr  agentx.Pdu
	data []byte
}

// checkEncodeMem: encoding leaves the PDU alone, and its result is private.
func checkEncodeMem(t *T, p, other agentx.Pdu, dbg bool) {
	pduLabel(t, p)
	samplePdu(t, p)
	encode := func(p agentx.Pdu) ([]byte, bool) {
		if dbg {
			return agentx.EncodePduDbg(p, discard{})
		}
		return agentx.EncodePdu(p)
	}
	before := clonePdu(p)
	d1, ok := encode(p)
	if d := memDiff(before, p); d != "" {
		t.Failf("encoding changed its input: %s", d)
	}
	if !ok {
		t.Label("refused")
		encode(other)
		if _, ok2 := encode(p); ok2 {
			t.Failf("the same PDU is refused first and encoded later")
		}
		return
	}
	t.KeyBytes(d1)
	if len(d1) > 28 {
		t.NonTrivial()
	}
	copy1 := append([]byte{}, d1...)
	// other calls in between
	d2, _ := encode(other)
	d3, ok3 := encode(p)
	if !ok3 || !bytes.Equal(copy1, d3) {
		t.Failf("encoding the same PDU again gives other bytes:\nfirst % x\nagain % x (ok=%v)", clip(copy1), clip(d3), ok3)
	}
	if !bytes.Equal(copy1, d1) {
		t.Failf("a later call changed an earlier result:\nwas % x\nis  % x", clip(copy1), clip(d1))
	}
	// results do not share memory with each other
	copy3 := append([]byte{}, d3...)
	scribbleBytes(d1)
	scribbleBytes(d2)
	if !bytes.Equal(copy3, d3) {
		t.Failf("two encoding results share memory")
	}
	if d := memDiff(before, p); d != "" {
		t.Failf("the encoding result shares memory with the PDU: %s", d)
	}
	d4, ok4 := encode(p)
	if !ok4 || !bytes.Equal(copy1, d4) {
		t.Failf("changing an earlier result changes later ones:\nfirst % x\nlater % x (ok=%v)", clip(copy1), clip(d4), ok4)
	}
	// the result does not change with the input
	scribble(&p)
	if !bytes.Equal(copy3, d3) {
		t.Failf("changing the PDU after encoding changes the result")
	}
	d5, ok5 := encode(before)
	if !ok5 || !bytes.Equal(copy1, d5) {
		t.Failf("changing an earlier input changes later results (ok=%v)", ok5)
	}
}

func checkDecodeMem(t *T, a, b packetT, stale agentx.Pdu, dbg bool) {
	pduLabel(t, a.hdr)
	samplePayload(t, a.hdr, append([]byte{}, a.data...))
	decode := func(p *agentx.Pdu, d []byte) bool {
		if dbg {
			return agentx.DecodePduPayloadDbg(p, d, discard{})
		}
		return agentx.DecodePduPayload(p, d)
	}
	head := refHeader(a.hdr, uint32(a.hdr.PayloadSize))
	headCopy := append([]byte{}, head...)
	h1, hok := agentx.DecodePduHeader(head)
	if !bytes.Equal(head, headCopy) {
		t.Failf("header decoding changed its input")
	}
	scribbleBytes(head)
	h2, hok2 := agentx.DecodePduHeader(headCopy)
	if hok != hok2 || hok && pduDiff(h1, h2) != "" {
		t.Failf("the header decodes differently the second time")
	}

	whole := append([]byte{}, a.data[:cap(a.data)]...)
	p1 := a.hdr
	ok := decode(&p1, a.data)
	if !bytes.Equal(whole, a.data[:cap(a.data)]) {
		t.Failf("payload decoding changed its input")
	}
	if !ok {
		t.Label("refused")
	} else {
		t.Label("accepted")
		if len(a.data) > 8 {
			t.NonTrivial()
		}
	}
	// stale payload fields, stale memory
	p2 := stale
	p2.Tag, p2.Flags, p2.SessionId, p2.TransactionId, p2.PacketId, p2.PayloadSize = a.hdr.Tag, a.hdr.Flags, a.hdr.SessionId, a.hdr.TransactionId, a.hdr.PacketId, a.hdr.PayloadSize
	old := p2
	oldCopy := clonePdu(old)
	ok2 := decode(&p2, a.data)
	if ok2 != ok {
		t.Failf("with stale payload fields success=%v, without success=%v", ok2, ok)
	}
	if d := memDiff(oldCopy, old); d != "" {
		t.Failf("decoding into a PDU changed a copy of that PDU: %s", d)
	}
	if !ok {
		return
	}
	if d := pduDiff(p1, p2); d != "" {
		t.Failf("stale payload fields show up in the result: %s", d)
	}
	snap := clonePdu(p1)
	// the result does not share memory with the input
	input := append(make([]byte, 0, cap(a.data)), whole...)[:len(a.data)]
	scribbleBytes(a.data)
	if d := memDiff(snap, p1); d != "" {
		t.Failf("changing the bytes after decoding changes the result: %s", d)
	}
	// nor with results of other calls, into the same variable or another one
	reused := p1
	reused.Tag, reused.Flags, reused.PayloadSize = b.hdr.Tag, b.hdr.Flags, b.hdr.PayloadSize
	reusedOK := decode(&reused, b.data)
	if d := memDiff(snap, p1); d != "" {
		t.Failf("decoding another payload into the same variable changes an earlier copy: %s", d)
	}
	p3 := a.hdr
	if !decode(&p3, input) || pduDiff(snap, p3) != "" {
		t.Failf("decoding the same bytes again gives another result: %s", pduDiff(snap, p3))
	}
	scribble(&p2)
	if reusedOK { // otherwise it may still be the earlier PDU
		scribble(&reused)
	}
	if d := memDiff(snap, p1); d != "" {
		t.Failf("two decoding results share memory: %s", d)
	}
	if d := pduDiff(snap, p3); d != "" {
		t.Failf("two decoding results share memory: %s", d)
	}
	// nor do the parts of one result
	slots := oidSlots(&p3)
	snapSlots := oidSlots(&snap)
	for i, o := range slots {
		o = o[:cap(o)]
		for k := range o {
			o[k] = 0xa5a5a5a5
		}
		for j := i + 1; j < len(slots); j++ {
			if !sameOid(slots[j], snapSlots[j]) {
				t.Failf("OIDs %d and %d of one decoded PDU share memory", i, j)
			}
		}
		if i > 12 {
			break
		}
	}
	bl, sb := blobs(&p3), blobs(&snap)
	for i := range bl {
		x := bl[i][:cap(bl[i])]
		for k := range x {
			x[k] = 0xa5
		}
		for j := i + 1; j < len(bl); j++ {
			if !bytes.Equal(bl[j], sb[j]) {
				t.Failf("byte values %d and %d of one decoded PDU share memory", i, j)
			}
		}
		if i > 12 {
			break
		}
	}
	p4 := a.hdr
	if !decode(&p4, input) || pduDiff(snap, p4) != "" {
		t.Failf("changing earlier results changes later ones: %s", pduDiff(snap, p4))
	}
	// appending to one part, of this result or another, does not show in another
	p5 := a.hdr
	if !decode(&p5, input) || pduDiff(snap, p5) != "" {
		t.Failf("decoding the same bytes again gives another result: %s", pduDiff(snap, p5))
	}
	sl := append(oidSlots(&p4), oidSlots(&p5)...)
	bl = append(blobs(&p4), blobs(&p5)...)
	for i, o := range sl {
		for k := len(o); k < cap(o); k++ {
			o[:cap(o)][k] = uint32(i) + 0xc0de0000
		}
	}
	for i, b := range bl {
		for k := len(b); k < cap(b); k++ {
			b[:cap(b)][k] = byte(i + 100)
		}
	}
	for i, o := range sl {
		for k := len(o); k < cap(o); k++ {
			if o[:cap(o)][k] != uint32(i)+0xc0de0000 {
				t.Failf("what is appended to one decoded OID shows in another")
			}
		}
	}
	for i, b := range bl {
		for k := len(b); k < cap(b); k++ {
			if b[:cap(b)][k] != byte(i+100) {
				t.Failf("what is appended to one decoded byte value shows in another")
			}
		}
	}
	if pduDiff(snap, p4) != "" || pduDiff(snap, p5) != "" {
		t.Failf("appending to one part of a decoded PDU changes another: %s%s", pduDiff(snap, p4), pduDiff(snap, p5))
	}
}

// checkHistory runs a sequence of calls and compares every result with the
// reference, and all of them again at the end.
func checkHistory(t *T) {
	g := gen(t)
	type made struct {
		what string
		data []byte
		want []byte
		pdu  *agentx.Pdu
		snap agentx.Pdu
	}
	var all []made
	var last *agentx.Pdu
	var buf []byte
	var lastH agentx.Pdu
	n := g.Int(3, 10)
	for i := 0; i < n; i++ {
		g.room = 2000
		dbg := g.Chance(1, 6)
		if g.Bool() {
			p := g.pdu()
			if g.Chance(1, 4) {
				p = g.wildPdu()
			}
			if last != nil && g.Chance(1, 3) {
				g.changePdu(last) // the same memory with something else in it
				p = *last
			} else {
				p = clonePdu(p)
			}
			last = &p
			v, _ := encodable(p)
			var d []byte
			var ok bool
			if dbg {
				d, ok = agentx.EncodePduDbg(p, discard{})
			} else {
				d, ok = agentx.EncodePdu(p)
			}
			if v == accept && !ok || v == reject && ok {
				t.Label("verdict differs from the specification (decided by C03)")
				continue
			}
			if ok {
				all = append(all, made{what: "encoding of " + showPdu(p), data: d, want: refEncode(p)})
			}
		} else {
			h, b, _ := g.payload()
			if buf != nil && g.Chance(1, 3) {
				if g.Bool() {
					b = append(buf[:0], b...)
				} else {
					h, b = lastH, buf
					g.changeBytes(b)
				}
			}
			buf, lastH = b, h
			want, v, _ := refDecode(h, b)
			p := h
			var ok bool
			if dbg {
				ok = agentx.DecodePduPayloadDbg(&p, b, discard{})
			} else {
				ok = agentx.DecodePduPayload(&p, b)
			}
			if v == either || v == accept != ok {
				continue
			}
			if ok {
				all = append(all, made{what: fmt.Sprintf("decoding of % x", clip(b)), pdu: &p, snap: clonePdu(want)})
			}
		}
		for k, m := range all {
			if m.pdu == nil && !bytes.Equal(m.want, m.data) || m.pdu != nil && pduDiff(m.snap, *m.pdu) != "" {
				t.Failf("after call %d the result of an earlier or this call (number %d) is wrong: %s\nwant % x\ngot  % x", i, k, m.what, clip(m.want), clip(m.data))
			}
		}
	}
	t.Label("history")
	if len(all) >= 2 {
		t.NonTrivial()
	}
	t.Sample(func() string {
		s := "history:"
		for _, m := range all {
			s += "\n " + cut(m.what, 300)
		}
		return s
	})
}

// ---------------------------------------------------------------- C12

// gate lets n goroutines go on together, as often as needed.
type gate struct{ n, arrived int32 }

func (b *gate) pass() {
	to := (atomic.AddInt32(&b.arrived, 1) + b.n - 1) / b.n * b.n
	for i := 0; atomic.LoadInt32(&b.arrived) < to; i++ {
		if i%50 == 49 {
			runtime.Gosched()
		}
	}
}

func runConcurrent(t *T, n int, f func(k int) string) {
	var done sync.WaitGroup
	start := gate{n: int32(n)}
	res := make([]string, n)
	for k := 0; k < n; k++ {
		done.Add(1)
		go func(k int) {
			defer done.Done()
			defer func() {
				if r := recover(); r != nil {
					res[k] = fmt.Sprintf("panic: %v", r)
				}
			}()
			start.pass()
			res[k] = f(k)
		}(k)
	}
	done.Wait()
	for k, s := range res {
		if s != "" {
			t.Failf("goroutine %d: %s", k, s)
		}
	}
}

// codecResult is everything a set of codec calls on one job returned.
type codecResult struct {
	enc, encD          []byte
	encOK, encDOK      bool
	dec, decD, hd, hdD agentx.Pdu
	decOK, decDOK      bool
	hOK, hDOK          bool
	text               string
	logs               string
	dbg                bool
}

type codecJob struct {
	pdu, hdr agentx.Pdu
	data     []byte
	head     []byte
}

func (j *codecJob) run(dbg bool) (r codecResult) {
	r.dbg = dbg
	r.enc, r.encOK = agentx.EncodePdu(j.pdu)
	r.dec = j.hdr
	r.decOK = agentx.DecodePduPayload(&r.dec, j.data)
	r.hd, r.hOK = agentx.DecodePduHeader(j.head)
	if dbg {
		log := &recLog{}
		r.encD, r.encDOK = agentx.EncodePduDbg(j.pdu, log)
		r.decD = j.hdr
		r.decDOK = agentx.DecodePduPayloadDbg(&r.decD, j.data, log)
		r.hdD, r.hDOK = agentx.DecodePduHeaderDbg(j.head, log)
		r.logs = strings.Join(log.msgs, "\n")
		r.text = j.pdu.String(1)
	}
	return
}

// diff compares what r and s both have; s is the result of running alone.
func (r codecResult) diff(s codecResult) string {
	enc := func(what string, a, b []byte, aok, bok bool) string {
		if aok != bok || aok && !bytes.Equal(a, b) {
			return fmt.Sprintf("%s gives another result than alone: ok=%v % x, alone ok=%v % x", what, aok, clip(a), bok, clip(b))
		}
		return ""
	}
	dec := func(what string, a, b agentx.Pdu, aok, bok bool) string {
		d := ""
		if aok && bok {
			d = pduDiff(b, a)
		}
		if aok != bok || d != "" {
			return fmt.Sprintf("%s gives another result than alone: ok=%v, alone ok=%v %s", what, aok, bok, d)
		}
		return ""
	}
	all := enc("encoding", r.enc, s.enc, r.encOK, s.encOK) +
		dec("decoding a payload", r.dec, s.dec, r.decOK, s.decOK) +
		dec("decoding a header", r.hd, s.hd, r.hOK, s.hOK)
	if r.dbg && s.dbg {
		all += enc("debug encoding", r.encD, s.encD, r.encDOK, s.encDOK) +
			dec("debug decoding of a payload", r.decD, s.decD, r.decDOK, s.decDOK) +
			dec("debug decoding of a header", r.hdD, s.hdD, r.hDOK, s.hDOK)
		if r.text != s.text {
			all += "the text form differs from the one made alone"
		}
		if r.logs != s.logs {
			all += "the debug calls log something else than alone:\n" + firstDiff(r.logs, s.logs)
		}
	}
	return all
}

// checkConcurrentCodec runs the calls of a few jobs in several goroutines and
// compares the results with those of the same calls alone. The calls alone
// come second in most cases, so that whatever the codec sets up on first use,
// once or for one value, is set up under concurrency.
func checkConcurrentCodec(t *T) {
	g := gen(t)
	var jobs []*codecJob
	for i := g.Int(1, 3); i > 0; i-- {
		g.room = 800
		j := &codecJob{}
		if g.Chance(1, 5) {
			j.pdu = g.wildPdu()
		} else {
			j.pdu = g.pdu()
		}
		j.hdr, j.data, _ = g.payload()
		j.head = genHeader(g)
		jobs = append(jobs, j)
	}
	workers := g.Int(2, 8)
	dbg := g.Chance(1, 4)
	aloneFirst := g.Chance(1, 4)
	t.Label(fmt.Sprintf("%d goroutines", workers))
	t.NonTrivial()
	t.Sample(func() string {
		s := fmt.Sprintf("%d goroutines on", workers)
		for _, j := range jobs {
			s += "\n " + cut(showPdu(j.pdu), 300) + fmt.Sprintf("\n payload % x", cut(string(clip(j.data)), 100))
		}
		return s
	})
	alone := make([]codecResult, len(jobs))
	runAlone := func() {
		for i, j := range jobs {
			c := &codecJob{clonePdu(j.pdu), j.hdr, append([]byte{}, j.data...), append([]byte{}, j.head...)}
			alone[i] = c.run(dbg)
		}
	}
	if aloneFirst {
		runAlone()
	}
	res := make([][]codecResult, workers)
	runConcurrent(t, workers, func(k int) string {
		for r := 0; r < 4; r++ {
			for i := range jobs {
				res[k] = append(res[k], jobs[(i+k)%len(jobs)].run(dbg && (k+r)%2 == 0))
			}
		}
		return ""
	})
	if !aloneFirst {
		runAlone()
	}
	for k := range res {
		for n, r := range res[k] {
			i := (n%len(jobs) + k) % len(jobs)
			if d := r.diff(alone[i]); d != "" {
				t.Failf("goroutine %d: %s\npdu %s\npayload % x\nheader % x", k, d, showPdu(jobs[i].pdu), clip(jobs[i].data), jobs[i].head)
			}
		}
	}
}

// ---------------------------------------------------------------- first use

const freshEnv = "VERIF_FRESH_PROCESS"

// inFreshProcess runs f as enumerated case i in a process in which the code
// under test has not been called yet: what it sets up on first use is then
// set up by concurrent calls. What goes wrong there is reported by t.
func inFreshProcess(t *T, id string, i int, f func(t *T)) {
	if os.Getenv(freshEnv) != "" {
		f(&T{rng: caseSeed(*fSeed, id+" first use", i)})
		return
	}
	t.KeyString(fmt.Sprint("first use ", i))
	t.NonTrivial()
	t.Label("first use in a fresh process")
	t.Sample(func() string { return fmt.Sprintf("first use in a fresh process, number %d", i) })
	dir, err := os.MkdirTemp("", "vf")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(dir)
	cmd := childCmd(props[id], dir, "-only", fmt.Sprint(i))
	cmd.Env = append(cmd.Env, freshEnv+"=1")
	code, out := runChild(cmd)
	switch {
	case code == 0:
	case code == 1 || strings.Contains(out, repoModule+"/") && code != exitHarness && code > 0:
		t.Failf("first use by several goroutines in a fresh process (exit code %d):\n%s", code, cut(out, 8000))
	default:
		panic(fmt.Sprintf("the process for first use ended with code %d\n%s", code, cut(out, 8000)))
	}
}

// runSteps lets n goroutines make each of a number of calls together, and
// compares the results with those of the same calls made afterwards alone.
func runSteps(t *T, n int, steps []textJob) {
	b := gate{n: int32(n)}
	res := make([][]string, n)
	run := func(j textJob) (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v", r)
			}
		}()
		return j.f()
	}
	runConcurrent(t, n, func(k int) string {
		for _, j := range steps {
			b.pass()
			res[k] = append(res[k], run(j))
		}
		return ""
	})
	for i, j := range steps {
		want := run(j)
		for k := range res {
			if res[k][i] != want {
				t.Failf("goroutine %d: %s gives something else than alone\n%s", k, cut(j.what, 300), firstDiff(res[k][i], want))
			}
		}
	}
}

func shuffle(t *T, l []textJob) {
	for i := len(l) - 1; i > 0; i-- {
		j := t.Int(0, i)
		l[i], l[j] = l[j], l[i]
	}
}

func firstUseCodec(t *T) {
	g := gen(t)
	g.room = 400
	var steps []textJob
	for i := g.Int(2, 6); i > 0; i-- {
		p := g.pdu()
		hdr, data, _ := g.payload()
		head := genHeader(g)
		show := func(p agentx.Pdu, ok bool) string {
			if !ok {
				return "refused"
			}
			return showPdu(p)
		}
		l := []textJob{
			{"encoding " + showPdu(p), func() string { b, ok := agentx.EncodePdu(p); return fmt.Sprintf("%v % x", ok, b) }},
			{fmt.Sprintf("decoding % x", clip(data)), func() string {
				d := hdr
				ok := agentx.DecodePduPayload(&d, data)
				return show(d, ok)
			}},
			{fmt.Sprintf("decoding the header % x", head), func() string { return show(agentx.DecodePduHeader(head)) }},
			{"debug encoding " + showPdu(p), func() string {
				log := &recLog{}
				b, ok := agentx.EncodePduDbg(p, log)
				return fmt.Sprintf("%v % x\n%s", ok, b, strings.Join(log.msgs, "\n"))
			}},
			{fmt.Sprintf("debug decoding % x", clip(data)), func() string {
				d := hdr
				log := &recLog{}
				ok := agentx.DecodePduPayloadDbg(&d, data, log)
				return show(d, ok) + "\n" + strings.Join(log.msgs, "\n")
			}},
			{fmt.Sprintf("debug decoding the header % x", head), func() string {
				log := &recLog{}
				s := show(agentx.DecodePduHeaderDbg(head, log))
				return s + "\n" + strings.Join(log.msgs, "\n")
			}},
		}
		shuffle(t, l)
		steps = append(steps, l...)
	}
	runSteps(t, 8, steps)
}

func firstUseText(t *T) {
	g := gen(t)
	var steps []textJob
	for i := g.Int(10, 30); i > 0; i-- {
		steps = append(steps, g.textJob())
	}
	runSteps(t, 8, steps)
}

// firstDiff shows the first lines in which two texts differ.
func firstDiff(got, want string) string {
	a, b := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d\n got  %s\n want %s", i, cut(x, 300), cut(y, 300))
		}
	}
	return ""
}

// ---------------------------------------------------------------- C31

// textJob is a call that only reads its arguments and gives a text.
type textJob struct {
	what string
	f    func() string
}

func (g *G) textJob() textJob {
	switch g.Draw(12) {
	case 0:
		o := g.anyOid()
		return textJob{"oid.String " + showOid(o), func() string { return oid.String(o) }}
	case 1:
		o := g.anyOid()
		return textJob{"oid.Fprint " + showOid(o), func() string {
			var sb strings.Builder
			oid.Fprint(&sb, o)
			return sb.String()
		}}
	case 2:
		s := oidText(g.anyOid())
		if g.Chance(1, 4) {
			s = g.str(30)
		}
		return textJob{fmt.Sprintf("oid.Parse %q", s), func() string { return showOid(oid.Parse(s)) }}
	case 3:
		a, b := g.anyOid(), g.anyOid()
		if g.Bool() {
			b = append(append([]uint32{}, a...), b...)
		}
		return textJob{"oid.Compare, Eq, HasPrefix " + showOid(a) + " " + showOid(b), func() string {
			return fmt.Sprint(oid.Compare(a, b), oid.Lt(a, b), oid.Eq(a, b), oid.Gt(b, a), oid.HasPrefix(b, a...))
		}}
	case 4:
		a, b := g.anyOid(), g.anyOid()
		return textJob{"oid.Cat, Clone " + showOid(a) + " " + showOid(b), func() string {
			c, d := oid.Cat(a, b...), oid.Clone(a)
			s := showOid(c) + " " + showOid(d)
			for i := range c { // the results belong to the caller
				c[i]++
			}
			for i := range d {
				d[i]++
			}
			return s
		}}
	case 5:
		var a [4]byte
		for i := range a {
			a[i] = g.u8()
		}
		return textJob{fmt.Sprint("ipa.String ", a), func() string {
			var sb strings.Builder
			ipa.Fprint(&sb, a)
			return sb.String() + " " + ipa.String(a)
		}}
	case 6:
		b, pre := g.bytes(60), g.linePrefix()
		i1, i2, n := g.index(len(b)), g.index(len(b)), g.index(len(b))
		return textJob{fmt.Sprintf("hex.Dump... % x", b), func() string {
			return hex.Dump(pre, b) + hex.DumpSub(pre, b, i1, i2) + hex.DumpTail(pre, b, n)
		}}
	case 7:
		b := g.bytes(40)
		c := append([]byte{}, b...)
		for i := g.Int(0, 3); i > 0 && len(c) > 0; i-- {
			c[g.Int(0, len(c)-1)] ^= byte(1 << uint(g.Draw(8)))
		}
		if g.Bool() {
			c = append(c, g.bytes(9)...)
		}
		return textJob{fmt.Sprintf("hex.DumpDiff % x, % x", b, c), func() string { return hex.DumpDiff(b, c) }}
	case 8:
		f, tag := agentx.Flags(g.u8()), agentx.PduTag(g.u8())
		r, e, a := agentx.CloseReason(g.u8()), g.pduErr(), asn.Tag(g.u8())
		return textJob{fmt.Sprintf("names of flags %d, tag %d, reason %d, error %d, value tag %d", byte(f), byte(tag), byte(r), uint16(e), byte(a)), func() string {
			return fmt.Sprint(f.String(), tag.String(), r.String(), e.String(), a.String(), tag.IsKnown(), byte(tag.NotAllowedFlags(f)), a.IsValueTag())
		}}
	case 9:
		v := g.varbind()
		if g.Chance(1, 5) {
			v = g.wildVarbind()
		}
		return textJob{"Varbind.String", func() string { return v.String() }}
	case 10:
		r := g.srange()
		return textJob{"SearchRange.String", func() string { return r.String() }}
	}
	g.room = 400
	p := g.pdu()
	d := g.Int(0, 3)
	return textJob{"Pdu.String " + cut(showPdu(p), 200), func() string { return p.String(d) }}
}

// checkConcurrentText makes a few read-only calls in several goroutines.
func checkConcurrentText(t *T) {
	g := gen(t)
	jobs := make([]textJob, g.Int(1, 5))
	for i := range jobs {
		if i > 0 && g.Bool() { // many calls of one kind meet
			jobs[i] = jobs[g.Int(0, i-1)]
			continue
		}
		jobs[i] = g.textJob()
	}
	workers := g.Int(2, 8)
	t.Label(fmt.Sprintf("%d goroutines", workers))
	t.NonTrivial()
	show := func() string {
		s := fmt.Sprintf("%d goroutines on", workers)
		for _, j := range jobs {
			s += "\n " + cut(j.what, 300)
		}
		return s
	}
	t.Sample(show)
	alone := make([]string, len(jobs))
	run := func(j textJob) (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v", r)
			}
		}()
		return j.f()
	}
	runAlone := func() {
		for i, j := range jobs {
			alone[i] = run(j)
		}
	}
	aloneFirst := g.Chance(1, 4)
	if aloneFirst {
		runAlone()
	}
	res := make([][]string, workers)
	runConcurrent(t, workers, func(k int) string {
		for r := 0; r < 6; r++ {
			for i := range jobs {
				res[k] = append(res[k], run(jobs[(i+k)%len(jobs)]))
			}
		}
		return ""
	})
	if !aloneFirst {
		runAlone()
	}
	for k := range res {
		for n, r := range res[k] {
			i := (n%len(jobs) + k) % len(jobs)
			if r != alone[i] {
				t.Failf("goroutine %d: %s gives something else than alone\n%s", k, cut(jobs[i].what, 300), firstDiff(r, alone[i]))
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C31", Rule: "2 to 8 goroutines print, parse, compare, join and dump the same 1 to 5 OIDs, addresses, byte strings, varbinds, ranges, PDUs and enumerated values at once, 6 times each, under the race detector; every result is compared with the one obtained alone; enumerated: fresh processes in which 8 goroutines make each of up to 36 calls together for the first time. Every case is non-trivial.",
		Quick: 30000, Thorough: 500000, Sys: 60, SysThorough: 1000, SysRun: func(t *T, i int) { inFreshProcess(t, "C31", i, firstUseText) }, Workers: 2, Race: true, Schedule: true, Run: checkConcurrentText,
		Assume: []string{"interleavings are those the Go scheduler produces on this machine; the race detector reports unsynchronised accesses whether or not they did harm in that interleaving"}})
	nv := sysPdus.total()
	register(&Prop{ID: "C09", Rule: pduRule + "Each case encodes or decodes, overwrites inputs, results and stale fields (spare capacity included) and compares everything with snapshots; or runs a history of 3 to 10 mixed calls whose results are compared with an independent reference after every call. Non-trivial: payload longer than 8 bytes and accepted, or at least two results in the history.",
		Quick: 900000, Thorough: 8000000, Sys: 2 * nv,
		SysRun: func(t *T, i int) {
			if i < nv {
				checkEncodeMem(t, clonePdu(sysPdus.at(i)), sysPdus.at((i*7+1)%nv), false)
				return
			}
			i -= nv
			mk := func(p agentx.Pdu) packetT {
				e := refEncoder{}
				b := e.payload(p)
				return packetT{agentx.Pdu{Tag: p.Tag, Flags: p.Flags, PayloadSize: int32(len(b))}, b}
			}
			checkDecodeMem(t, mk(sysPdus.at(i)), mk(sysPdus.at((i*7+1)%nv)), clonePdu(sysPdus.at((i*11+3)%nv)), false)
		},
		Run: func(t *T) {
			g := gen(t)
			switch g.Draw(4) {
			case 0:
				checkHistory(t)
			case 1:
				p := g.pdu()
				if g.Chance(1, 6) {
					p = g.wildPdu()
				}
				q := g.pdu()
				if g.Chance(1, 3) {
					q = g.wildPdu()
				}
				// private memory for each: the pool may have made them share
				checkEncodeMem(t, clonePdu(p), clonePdu(q), g.Chance(1, 8))
			default:
				h1, b1, _ := g.payload()
				g.room = 2000
				h2, b2, _ := g.payload()
				if g.Bool() {
					h2, b2 = h1, append([]byte{}, b1...)
				}
				g.room = 1000
				checkDecodeMem(t, packetT{h1, b1}, packetT{h2, b2}, clonePdu(g.pdu()), g.Chance(1, 8))
			}
		}})
	register(&Prop{ID: "C12", Rule: "2 to 8 goroutines encode, decode and print the same 1 to 3 PDU values and byte strings at once, under the race detector; every result is compared with the one obtained alone; enumerated: fresh processes in which 8 goroutines make each of up to 36 calls together for the first time. Every case is non-trivial.",
		Quick: 12000, Thorough: 200000, Sys: 60, SysThorough: 1000, SysRun: func(t *T, i int) { inFreshProcess(t, "C12", i, firstUseCodec) }, Workers: 2, Race: true, Schedule: true, Run: checkConcurrentCodec,
		Assume: []string{"interleavings are those the Go scheduler produces on this machine; the race detector reports unsynchronised accesses whether or not they did harm in that interleaving"}})
}
