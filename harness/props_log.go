package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/logger"
	"github.com/alexispb/mygosnmp/verifbridge"
)

// ---------------------------------------------------------------- C26

// token is something a log has to name: a number, name or OID between
// delimiters, or a verbatim text.
type logTok struct {
	s    string
	word bool
	what string
}

type tokens []logTok

func (l *tokens) num(what string, v interface{}) { *l = append(*l, logTok{fmt.Sprint(v), true, what}) }
func (l *tokens) name(what, s string)            { *l = append(*l, logTok{s, false, what}) }
func (l *tokens) str(what, s string) {
	if s != "" && !strings.Contains(s, "\n") {
		*l = append(*l, logTok{s, false, what})
	}
}

// oid wants the OID, and the sub-identifiers that are sent one by one in any
// form, after it (encoding) or before it (decoding).
func (l *tokens) oid(what string, o []uint32, enc bool, include ...byte) {
	if len(o) == 0 {
		return
	}
	if enc {
		*l = append(*l, logTok{oidText(o), true, what})
	}
	for _, b := range include {
		l.num(what+" include mark", b)
	}
	sub := o
	if len(o) >= 5 && o[0] == 1 && o[1] == 3 && o[2] == 6 && o[3] == 1 && o[4] >= 1 && o[4] <= 255 {
		sub = o[5:]
	}
	for _, x := range sub {
		l.num(what+" sub-identifier", x)
	}
	if !enc {
		*l = append(*l, logTok{oidText(o), true, what})
	}
}

func pduName(tag agentx.PduTag) string {
	if known(tag) {
		return pduInfos[tag].name
	}
	return tag.String() // decided by C22
}

func flagText(f agentx.Flags) string {
	if f&^31 != 0 {
		return f.String() // decided by C22
	}
	return flagsName(f)
}

// payloadTokens lists the values of a payload in wire order.
func payloadTokens(p agentx.Pdu, enc bool) (l tokens) {
	if p.Flags&flCtx != 0 {
		l.str("Context", p.Context)
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		l.num("Timeout", q.Timeout)
		l.oid("Oid", q.Oid, enc)
		l.str("Description", q.Description)
	case agentx.CloseParams:
		l.name("Reason", closeName(q.Reason))
	case agentx.RegisterParams:
		l.num("Timeout", q.Timeout)
		l.num("Priority", q.Priority)
		l.num("RangeSubid", q.RangeSubid)
		l.oid("Subtree", q.Subtree, enc)
		if q.RangeSubid != 0 {
			l.num("UpperBound", q.UpperBound)
		}
	case agentx.UnregisterParams:
		l.num("Priority", q.Priority)
		l.num("RangeSubid", q.RangeSubid)
		l.oid("Subtree", q.Subtree, enc)
		if q.RangeSubid != 0 {
			l.num("UpperBound", q.UpperBound)
		}
	case agentx.GetBulkParams:
		l.num("NonRepeaters", q.NonRepeaters)
		l.num("MaxRepeatitions", q.MaxRepeatitions)
	case agentx.AddAgentCapsParams:
		l.oid("Oid", q.Oid, enc)
		l.str("Description", q.Description)
	case agentx.RemoveAgentCapsParams:
		l.oid("Oid", q.Oid, enc)
	case agentx.ResponseParams:
		l.num("SysUpTime", q.SysUpTime)
		l.name("Error", errorName(q.Error))
		l.num("Index", q.Index)
	}
	for i, r := range p.Ranges {
		w := fmt.Sprintf("range %d", i)
		text := fmt.Sprintf("{StartOid: %s EndOid: %s StartIncluded: %d}", oidText(r.StartOid), oidText(r.EndOid), r.StartIncluded)
		null := len(r.StartOid) == 0 // the wire carries no include mark then
		if enc && !null {
			l.name(w, text)
		}
		if null && !enc {
			l.num(w+" include mark", r.StartIncluded)
		}
		l.oid(w+" StartOid", r.StartOid, enc, r.StartIncluded)
		l.oid(w+" EndOid", r.EndOid, enc)
		if !enc {
			l.name(w, text)
		}
	}
	for i, vb := range p.Varbinds {
		w := fmt.Sprintf("varbind %d", i)
		text := "{" + oidText(vb.Oid) + " " + tagName(vb.Tag) + ": " + refPrint(vb.Tag, vb.Value) + "}"
		if enc {
			l.str(w, text)
		} else {
			l.name(w+" Tag", tagName(vb.Tag))
		}
		l.oid(w+" Oid", vb.Oid, enc)
		val := vb.Value
		switch vb.Tag {
		case 5, 128, 129, 130: // have no value
			val = nil
		}
		switch v := val.(type) {
		case int32, uint32, uint64:
			l.num(w+" Value", v)
		case string:
			l.str(w+" Value", v)
		case []uint32:
			l.oid(w+" Value", v, enc)
		case [4]byte:
			l.name(w+" Value", fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3]))
		}
		if !enc {
			l.str(w, text)
		}
	}
	return
}

func headerTokens(version byte, p agentx.Pdu) (l tokens) {
	l.num("version", version)
	l.name("Tag", pduName(p.Tag))
	l.name("Flags", flagText(p.Flags))
	return
}

func (l *tokens) numbers(p agentx.Pdu) {
	l.num("SessionId", p.SessionId)
	l.num("TransactionId", p.TransactionId)
	l.num("PacketId", p.PacketId)
	l.num("PayloadSize", p.PayloadSize)
}

// findWord finds s in text delimited by what is no part of a number or OID.
func findWord(text, s string) int {
	part := func(c byte) bool { return c >= '0' && c <= '9' || c == '.' || c == '-' }
	for from := 0; ; {
		k := strings.Index(text[from:], s)
		if k < 0 {
			return -1
		}
		k += from
		if (k == 0 || !part(text[k-1])) && (k+len(s) == len(text) || !part(text[k+len(s)])) {
			return k
		}
		from = k + 1
	}
}

// inOrder checks that the messages name the tokens in this order. Dump lines
// are left out.
func inOrder(t *T, msgs []string, want tokens) {
	var b strings.Builder
	for _, m := range msgs {
		if g := decAndHex.FindStringSubmatch(m); g != nil && !sameNumber(g[1], g[2]) {
			t.Failf("a log message shows different numbers in decimal and hexadecimal: %q", cut(m, 300))
		}
		for _, l := range strings.Split(m, "\n") {
			if _, _, dump := readDumpLine(strings.TrimLeft(l, " ")); !dump {
				b.WriteString(l)
				b.WriteByte('\n')
			}
		}
	}
	text := b.String()
	prev := "the start of the log"
	for _, w := range want {
		var k int
		if w.word {
			k = findWord(text, w.s)
		} else {
			k = strings.Index(text, w.s)
		}
		if k < 0 {
			t.Failf("after %s the log does not name %s %q:\n%s", prev, w.what, cut(w.s, 300), cut(b.String(), 6000))
		}
		text = text[k+len(w.s):]
		prev = w.what
	}
}

// decAndHex matches messages of the form "appending int32: 10 0x0000000A".
var decAndHex = regexp.MustCompile(`^appending u?int\d+: (-?\d+) 0x(-?[0-9A-Fa-f]+)$`)

func sameNumber(dec, hex string) bool {
	d, ok1 := new(big.Int).SetString(dec, 10)
	h, ok2 := new(big.Int).SetString(hex, 16)
	if !ok1 || !ok2 || d.Cmp(h) == 0 {
		return true
	}
	for _, bits := range []uint{16, 32, 64} { // two's complement
		if d.Sign() < 0 && new(big.Int).Add(d, new(big.Int).Lsh(big.NewInt(1), bits)).Cmp(h) == 0 {
			return true
		}
	}
	return false
}

// textIn checks that a message shows the text form of p and returns the
// messages after it.
func textIn(t *T, msgs []string, p agentx.Pdu) []string {
	want := strings.Split(p.String(0), "\n")
	for i := range want {
		want[i] = strings.TrimLeft(want[i], " ")
	}
	for i, m := range msgs {
		k := 0
		for _, l := range strings.Split(m, "\n") {
			if k < len(want) && strings.TrimLeft(l, " ") == want[k] {
				k++
			}
		}
		if k == len(want) {
			return msgs[i+1:]
		}
	}
	t.Failf("no log message shows the text form of the PDU:\n%s", cut(p.String(0), 2000))
	return nil
}

// covered checks that the dumps among the messages show every byte. Messages
// that dump everything at once do not count: they say nothing about values.
func covered(t *T, msgs []string, data []byte) {
	pos := 0
	for _, m := range msgs {
		first, at, dump := 0, 0, true
		for k, l := range strings.Split(m, "\n") {
			off, b, ok := readDumpLine(strings.TrimLeft(l, " "))
			if !ok || k > 0 && int(off) != at {
				dump = false
				break
			}
			if k == 0 {
				first = int(off)
			}
			at = int(off) + len(b)
		}
		if dump && first <= pos && at > pos && !(first == 0 && at == len(data) && pos == 0 && len(data) > 20) {
			pos = at
		}
	}
	if pos != len(data) && len(data) > 20 {
		t.Failf("the log shows nothing of the bytes from %d on, where %d bytes were handled, besides dumps of everything", pos, len(data))
	}
}

func checkEncodeNames(t *T, p agentx.Pdu) {
	pduLabel(t, p)
	samplePdu(t, p)
	log := &recLog{}
	data, ok := agentx.EncodePduDbg(p, log)
	rest := textIn(t, log.msgs, p)
	t.KeyString(fmt.Sprint(p.Tag, p.Flags, len(log.msgs)) + string(data))
	if !ok {
		t.Label("refused to encode")
		return
	}
	t.Label("encoded")
	want := headerTokens(1, p)
	if len(data) < 20 {
		t.Failf("only %d bytes are encoded", len(data))
	}
	p.PayloadSize = int32(len(data) - 20)
	want.numbers(p)
	// what is on the wire; that these are the right bytes is decided by C02
	sent, v, _ := refDecode(agentx.Pdu{Tag: p.Tag, Flags: p.Flags, PayloadSize: p.PayloadSize}, data[20:])
	if v != accept {
		t.Label("other bytes than expected")
		return
	}
	want = append(want, payloadTokens(sent, true)...)
	inOrder(t, rest, want)
	if len(data) > 28 {
		t.NonTrivial()
	}
}

func checkHeaderNames(t *T, b []byte) {
	t.Sample(func() string { return fmt.Sprintf("header % x", b) })
	t.KeyBytes(b)
	t.Label("header")
	log := &recLog{}
	_, ok := agentx.DecodePduHeaderDbg(b, log)
	if len(b) != 20 {
		return
	}
	t.NonTrivial()
	want := headerTokens(b[0], agentx.Pdu{Tag: agentx.PduTag(b[1]), Flags: agentx.Flags(b[2])})
	if h, v, _ := refDecodeHeader(b); v && ok {
		want.numbers(h)
	}
	inOrder(t, log.msgs, want)
}

func checkPayloadNames(t *T, hdr agentx.Pdu, data []byte) {
	samplePayload(t, hdr, data)
	log := &recLog{}
	p := hdr
	ok := agentx.DecodePduPayloadDbg(&p, data, log)
	want, v, _ := refDecode(hdr, data)
	if !ok || v != accept {
		t.Label("payload refused")
		return
	}
	t.Label("payload decoded")
	inOrder(t, log.msgs, payloadTokens(want, false))
	covered(t, log.msgs, data)
	if len(data) > 8 {
		t.NonTrivial()
	}
}

// ---------------------------------------------------------------- C27

type lineHolder struct{ S string }

// checkDiffText: diff is empty iff a == b; otherwise it shows the lines of
// both, those that differ one above the other with marks.
func checkDiffText(t *T, a, b, diff string) {
	if a == b {
		t.Label("equal")
		if diff != "" {
			t.Failf("equal texts have a diff:\n%s\ntext:\n%s", cut(diff, 1000), cut(a, 1000))
		}
		return
	}
	t.Label("different")
	t.NonTrivial()
	if diff == "" {
		t.Failf("different texts have an empty diff:\n%s\n---\n%s", cut(a, 1000), cut(b, 1000))
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	at := func(l []string, i int) string {
		if i < len(l) {
			return l[i]
		}
		return ""
	}
	var want strings.Builder
	for i := 0; i < max(len(la), len(lb)); i++ {
		x, y := at(la, i), at(lb, i)
		if x == y {
			want.WriteString(" " + x + "\n")
		} else {
			want.WriteString("\u250c" + x + "\n\u2514" + y + "\n")
		}
	}
	if w := want.String(); strings.TrimRight(diff, "\n") != strings.TrimRight(w, "\n") {
		t.Failf("the diff of\n%s\nand\n%s\nis\n%s\nwant\n%s", cut(a, 1000), cut(b, 1000), cut(diff, 1500), cut(w, 1500))
	}
}

func checkPduDiff(t *T, p, q agentx.Pdu) {
	a, b := p.String(0), q.String(0)
	t.Sample(func() string { return "diff of\n" + cut(a, 600) + "\nand\n" + cut(b, 600) })
	t.KeyString(a + "\x00" + b)
	t.Label("PDUs")
	checkDiffText(t, a, b, verifbridge.StructsDiff(p, q))
}

func checkLineDiff(t *T, x, y string) {
	// the text of a struct has no line breaks at its ends
	x, y = strings.Trim(x, "\n"), strings.Trim(y, "\n")
	t.Sample(func() string { return fmt.Sprintf("diff of %q and %q", cut(x, 300), cut(y, 300)) })
	t.KeyString(x + "\x00" + y)
	t.Label("lines")
	checkDiffText(t, "S: "+x, "S: "+y, verifbridge.StructsDiff(lineHolder{x}, lineHolder{y}))
}

func genLines(g *G) []string {
	var l []string
	for n := g.Int(0, 6); n > 0; n-- {
		switch g.Draw(5) {
		case 0:
			l = append(l, "")
		case 1:
			l = append(l, strconv.Itoa(g.Int(0, 3)))
		case 2:
			l = append(l, []string{"\u250c", "\u2514", " ", "  x", " x", "\u250cx", "\r", "x\r"}[g.Draw(8)])
		default:
			l = append(l, strings.ReplaceAll(g.str(20), "\n", ""))
		}
	}
	return l
}

// ---------------------------------------------------------------- C32

type consoleMsg struct {
	f    bool
	s    string
	args []interface{}
	text string // what has to appear
}

// checkConsoleShared: several goroutines write to the console at once; the
// output is an interleaving of whole messages.
func checkConsoleShared(t *T) {
	g := gen(t)
	n := g.Int(2, 8)
	same := g.Bool() // one value for all
	shared := logger.Console()
	seqs := make([][]consoleMsg, n)
	calls := make([]func(logger.Log), n)
	dbg := 0
	for k := range seqs {
		if dbg < 2 && g.Chance(1, 8) { // a debug call
			dbg++
			g.room = 300
			var l recLog
			if g.Bool() {
				p := g.pdu()
				calls[k] = func(l logger.Log) { agentx.EncodePduDbg(p, l) }
			} else {
				h, b, _ := g.payload()
				calls[k] = func(l logger.Log) { q := h; agentx.DecodePduPayloadDbg(&q, b, l) }
			}
			calls[k](&l)
			for _, m := range l.msgs {
				seqs[k] = append(seqs[k], consoleMsg{text: m + "\n"})
			}
			t.Label("debug call")
			continue
		}
		m := g.Int(1, 12)
		if g.Chance(1, 10) {
			m *= 20
		}
		for i := 0; i < m; i++ {
			s := fmt.Sprintf("<%d.%d>", k, i)
			var c consoleMsg
			size := g.Int(0, 60)
			if g.Chance(1, 40) {
				size = 1<<g.Int(6, 17) + g.Int(-2, 2)
			}
			fill := strings.Repeat(string(rune('a'+k)), size)
			switch g.Draw(5) {
			case 0, 1:
				c = consoleMsg{s: s + fill, text: s + fill}
			case 2:
				c = consoleMsg{s: s + "\n" + fill, text: s + "\n" + fill}
			case 3:
				c = consoleMsg{f: true, s: s + "%d %s", args: []interface{}{i, fill}, text: s + strconv.Itoa(i) + " " + fill}
			default:
				c = consoleMsg{f: true, s: s + "\n%v%%" + fill, args: []interface{}{k}, text: s + "\n" + strconv.Itoa(k) + "%" + fill}
			}
			c.text += "\n"
			seqs[k] = append(seqs[k], c)
		}
	}
	total := 0
	var key strings.Builder
	for _, s := range seqs {
		total += len(s)
		for _, m := range s {
			key.WriteString(m.text)
		}
	}
	t.KeyString(key.String())
	t.NonTrivial()
	t.Label(fmt.Sprintf("%d goroutines", n))
	t.Sample(func() string {
		s := fmt.Sprintf("%d goroutines, %d messages, one value %v", n, total, same)
		for k, l := range seqs {
			s += fmt.Sprintf("\n %d:", k)
			for _, m := range l {
				s += fmt.Sprintf(" %q", cut(m.text, 60))
			}
		}
		return cut(s, 1500)
	})
	out := captureStdout(func() {
		runConcurrent(t, n, func(k int) string {
			l := shared
			if !same {
				l = logger.Console()
			}
			if calls[k] != nil {
				calls[k](l)
				return ""
			}
			for _, m := range seqs[k] {
				if m.f {
					l.Writef(m.s, m.args...)
				} else {
					l.Write(m.s)
				}
			}
			return ""
		})
	})
	// an interleaving? The position in the output follows from those in the
	// sequences, so each combination is looked at once.
	pos := make([]int, n)
	seen := map[string]bool{}
	far := 0
	var walk func(off int) bool
	walk = func(off int) bool {
		for {
			far = max(far, off)
			if off == len(out) {
				for k := range seqs {
					if pos[k] < len(seqs[k]) {
						return false
					}
				}
				return true
			}
			var cand []int
			for k := range seqs {
				if pos[k] < len(seqs[k]) && strings.HasPrefix(out[off:], seqs[k][pos[k]].text) {
					cand = append(cand, k)
				}
			}
			if len(cand) == 0 {
				return false
			}
			if len(cand) == 1 {
				k := cand[0]
				off += len(seqs[k][pos[k]].text)
				pos[k]++
				defer func() { pos[k]-- }()
				continue
			}
			key := fmt.Sprint(pos)
			if seen[key] {
				return false
			}
			seen[key] = true
			for _, k := range cand {
				m := seqs[k][pos[k]].text
				pos[k]++
				ok := walk(off + len(m))
				pos[k]--
				if ok {
					return true
				}
			}
			return false
		}
	}
	if !walk(0) {
		lo := max(0, far-200)
		t.Failf("the console does not show every message whole and once, those of one goroutine in order; it goes wrong in %d bytes at %d, after %q:\n%q", len(out), far, out[lo:far], cut(out[far:], 600))
	}
}

func init() {
	nv, nb := sysPdus.total(), sysBad.total()
	register(&Prop{ID: "C26", Rule: "PDUs as in C07, headers as in C04 and payloads as in C05, logged to a recording logger. Oracle: the values of the PDU, in wire order, are found in the log (dump lines left out) one after the other; the log of an encoding shows the text form of the PDU first. Non-trivial: a successful call with more than 8 payload bytes, or a header of 20 bytes.",
		Quick: 360000, Thorough: 3000000, Sys: nv + nb/8 + nSysHeader/4, SysThorough: nv + nb + nSysHeader,
		SysRun: func(t *T, i int) {
			a := nb / 8
			if *fTier == "thorough" {
				a = nb
			}
			if i < nv {
				p := sysPdus.at(i)
				checkEncodeNames(t, p)
				e := refEncoder{alt: true, pick: func() bool { return i%2 == 0 }}
				b := e.payload(p)
				checkPayloadNames(t, agentx.Pdu{Tag: p.Tag, Flags: p.Flags, PayloadSize: int32(len(b))}, b)
			} else if i -= nv; i < a {
				checkEncodeNames(t, sysBad.at(stride(i, 8, nb)))
			} else {
				checkHeaderNames(t, sysHeader(stride(i-a, 4, nSysHeader)))
			}
		},
		Run: func(t *T) {
			g := gen(t)
			switch g.Draw(8) {
			case 0:
				checkHeaderNames(t, genHeader(g))
			case 1:
				checkEncodeNames(t, g.wildPdu())
			case 2, 3, 4:
				checkEncodeNames(t, g.pdu())
			default:
				h, b := genForeign(g)
				checkPayloadNames(t, h, b)
			}
		}})
	register(&Prop{ID: "C27", Rule: "Pairs of PDUs, one being the other with up to two things changed or unrelated, and pairs of texts of up to 6 lines (empty lines, diff marks, blanks) with lines changed, added or removed. Oracle: an independent line diff of the text forms. Non-trivial: the texts differ.",
		Quick: 2400000, Thorough: 20000000, Run: func(t *T) {
			g := gen(t)
			if g.Bool() {
				x := genLines(g)
				y := append([]string{}, x...)
				for n := g.Int(0, 2); n > 0; n-- {
					k := int(g.Draw(uint64(len(y) + 1)))
					switch g.Draw(4) {
					case 0:
						y = append(y[:k:k], append(genLines(g), y[k:]...)...)
					case 1:
						y = y[:k]
					case 2:
						if k < len(y) {
							y = append(y[:k:k], y[k+1:]...)
						}
					case 3:
						if k < len(y) {
							y[k] += []string{" ", "x", "\u2514"}[g.Draw(3)]
						}
					}
				}
				if g.Bool() {
					x, y = y, x
				}
				checkLineDiff(t, strings.Join(x, "\n"), strings.Join(y, "\n"))
				return
			}
			p := g.pdu()
			if g.Chance(1, 4) {
				p = g.wildPdu()
			}
			q := p
			switch g.Draw(6) {
			case 0:
				q = clonePdu(p)
			case 1:
				q = g.pdu()
			case 2:
				q = tweak(g, tweak(g, p))
			default:
				q = tweak(g, p)
			}
			checkPduDiff(t, p, q)
		}})
	register(&Prop{ID: "C32", Rule: "2 to 8 goroutines write 1 to 240 messages each to the console at once (plain and formatted, some with line breaks, some of up to 128 KB; up to two of them make a debug codec call that logs to the console), through one or several logger values, under the race detector. Oracle: the captured output is an interleaving of the goroutines' messages. Every case is non-trivial.",
		Quick: 6000, Thorough: 100000, Workers: 1, Race: true, Schedule: true, Run: checkConsoleShared,
		Assume: []string{"interleavings are those the Go scheduler produces on this machine", "standard output is a file"}})
}
