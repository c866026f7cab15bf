package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/oid"
)

// refCompare is lexicographic order by way of fixed-width big-endian bytes.
func refCompare(a, b []uint32) int {
	return bytes.Compare(key4(a), key4(b))
}

func key4(o []uint32) []byte {
	k := make([]byte, 4*len(o))
	for i, x := range o {
		k[4*i], k[4*i+1], k[4*i+2], k[4*i+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
	}
	return k
}

func fromKey(k string) []uint32 {
	o := make([]uint32, len(k)/4)
	for i := range o {
		o[i] = uint32(k[4*i])<<24 | uint32(k[4*i+1])<<16 | uint32(k[4*i+2])<<8 | uint32(k[4*i+3])
	}
	return o
}

// ---------------------------------------------------------------- C13

func checkOrder(t *T, a, b, c []uint32) {
	t.Sample(func() string { return fmt.Sprintf("%s ? %s ? %s", showOid(a), showOid(b), showOid(c)) })
	t.KeyBytes(key4(a), key4(b), key4(c))
	ca, cb, cc := append([]uint32{}, a...), append([]uint32{}, b...), append([]uint32{}, c...)
	common := 0
	for common < len(a) && common < len(b) && a[common] == b[common] {
		common++
	}
	if common > 0 {
		t.NonTrivial()
	}
	switch {
	case sameOid(a, b):
		t.Label("equal")
	case common == len(a) || common == len(b):
		t.Label("one is a prefix")
	default:
		t.Label("differ in a sub-identifier")
	}
	for _, p := range [][2][]uint32{{a, b}, {b, a}, {b, c}, {a, c}, {a, a}, {c, b}} {
		want := refCompare(p[0], p[1])
		if got := oid.Compare(p[0], p[1]); got != want {
			t.Failf("Compare(%s, %s) = %d, want %d", showOid(p[0]), showOid(p[1]), got, want)
		}
		for _, r := range []struct {
			name string
			got  bool
			want bool
		}{
			{"Lt", oid.Lt(p[0], p[1]), want < 0}, {"Le", oid.Le(p[0], p[1]), want <= 0}, {"Eq", oid.Eq(p[0], p[1]), want == 0},
			{"Ne", oid.Ne(p[0], p[1]), want != 0}, {"Ge", oid.Ge(p[0], p[1]), want >= 0}, {"Gt", oid.Gt(p[0], p[1]), want > 0},
		} {
			if r.got != r.want {
				t.Failf("%s(%s, %s) = %v, want %v", r.name, showOid(p[0]), showOid(p[1]), r.got, r.want)
			}
		}
	}
	if oid.Le(a, b) && oid.Le(b, c) && !oid.Le(a, c) {
		t.Failf("not transitive")
	}
	if !sameOid(a, ca) || !sameOid(b, cb) || !sameOid(c, cc) {
		t.Failf("comparing changed an argument")
	}
}

func related(g *G, a []uint32) []uint32 {
	if g.Chance(1, 8) { // part of the same array
		i := 0
		if g.Bool() {
			i = g.Int(0, len(a))
		}
		return a[i:g.Int(i, len(a))]
	}
	b := append([]uint32{}, a...)
	switch g.Draw(7) {
	case 0:
	case 1:
		b = append(b, g.u32())
	case 2:
		if len(b) > 0 {
			b = b[:g.Draw(uint64(len(b)))]
		}
	case 3:
		if len(b) > 0 {
			b[g.Draw(uint64(len(b)))] ^= 1 << g.Draw(32)
		}
	case 4:
		if len(b) > 0 {
			b[len(b)-1] += uint32(g.Draw(3)) - 1
		}
	case 5:
		if len(b) > 0 {
			b[g.Draw(uint64(len(b)))] = g.u32()
		}
		for n := g.Draw(3); n > 0; n-- {
			b = append(b, g.u32())
		}
	default:
		return g.anyOid()
	}
	return b
}

// ---------------------------------------------------------------- C14

// refParse is the documented grammar.
func refParse(s string) ([]uint32, bool) {
	s = strings.TrimPrefix(s, ".")
	if s == "" {
		return nil, true
	}
	parts := strings.Split(s, ".")
	if len(parts) > 128 {
		return nil, false
	}
	var o []uint32
	for _, p := range parts {
		if p == "" {
			return nil, false
		}
		v := uint64(0)
		for i := 0; i < len(p); i++ {
			if p[i] < '0' || p[i] > '9' {
				return nil, false
			}
			v = v*10 + uint64(p[i]-'0')
			if v > math.MaxUint32 {
				return nil, false
			}
		}
		o = append(o, uint32(v))
	}
	return o, true
}

func tryParse(s string) (o []uint32, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return oid.Parse(s), true
}

func checkParse(t *T, s string) {
	t.Sample(func() string { return fmt.Sprintf("parse %q", s) })
	t.KeyString("p" + s)
	want, wantOK := refParse(s)
	if wantOK {
		t.Label("well-formed text")
	} else {
		t.Label("malformed text")
	}
	if len(s) > 1 {
		t.NonTrivial()
	}
	got, ok := tryParse(s)
	if ok != wantOK {
		if ok {
			t.Failf("malformed text %q is accepted as %s", s, showOid(got))
		}
		t.Failf("well-formed text %q is refused", s)
	}
	if ok && !sameOid(want, got) {
		t.Failf("%q parses as %s, want %s", s, showOid(got), showOid(want))
	}
}

func oidText(o []uint32) string {
	var p []string
	for _, x := range o {
		p = append(p, strconv.FormatUint(uint64(x), 10))
	}
	return strings.Join(p, ".")
}

func checkPrint(t *T, o []uint32) {
	t.Sample(func() string { return "print " + showOid(o) })
	t.KeyBytes([]byte("o"), key4(o))
	if len(o) > 1 {
		t.NonTrivial()
	}
	t.Label("printing")
	c := append([]uint32{}, o...)
	want := oidText(o)
	s := oid.String(o)
	if s != want {
		t.Failf("%v prints as %q", o, s)
	}
	keeps(t, "an OID", func() string { return oid.String(o) }, func() { oid.String([]uint32{9, 87, 654}); oid.String(append([]uint32{7}, o...)) })
	var sb strings.Builder
	sb.WriteString("x.")
	oid.Fprint(&sb, o)
	if sb.String() != "x."+want {
		t.Failf("%v is appended to \"x.\" as %q", o, sb.String())
	}
	if !sameOid(o, c) {
		t.Failf("printing changed the OID")
	}
	if len(o) > 128 {
		if r, ok := tryParse(s); ok {
			t.Failf("text of %d sub-identifiers is accepted as %d", len(o), len(r))
		}
		return
	}
	for _, s := range []string{s, "." + s} {
		r, ok := tryParse(s)
		if !ok || !sameOid(o, r) {
			t.Failf("%q parses as %s (ok=%v)", s, showOid(r), ok)
		}
	}
}

func genOidText(g *G) string {
	o := g.anyOid()
	s := oidText(o)
	if g.Bool() {
		s = "." + s
	}
	for n := g.Int(0, 2); n > 0; n-- {
		i := int(g.Draw(uint64(len(s) + 1)))
		ins := []string{".", "..", "-", "+", " ", "x", "0", "00", "a", "_", "0x1", "4294967295", "4294967296", "4294967297", "8589934592", "18446744073709551616", "99999999999999999999",
			"\x00", "１", "1e3", ",", "/", ":", "\n", "/1", "1:", "00000000000000000000000007"}
		switch g.Draw(4) {
		case 0:
			s = s[:i] + ins[g.Draw(uint64(len(ins)))] + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 2:
			if i < len(s) {
				s = s[:i] + string(rune(g.Draw(128))) + s[i+1:]
			}
		case 3:
			s = s[:i] + "." + ins[g.Draw(uint64(len(ins)))] + "." + s[i:]
		}
	}
	return s
}

// ---------------------------------------------------------------- C15

func withSpare(g *G, o []uint32) []uint32 {
	if !g.Bool() {
		return append([]uint32{}, o...)
	}
	c := make([]uint32, len(o), len(o)+g.Int(1, 12))
	copy(c, o)
	for i := range c[:cap(c)][len(o):] {
		c[:cap(c)][len(o)+i] = 0xdead0000 + uint32(i)
	}
	return c
}

func checkBlocks(t *T) {
	g := gen(t)
	id := withSpare(g, g.anyOid())
	if g.Chance(1, 10) {
		id = nil
	}
	ext := withSpare(g, related(g, id))
	if g.Bool() {
		ext = withSpare(g, g.anyOid())
	}
	switch g.Draw(16) {
	case 0, 1: // overlapping arguments
		n := len(id)
		ext = id[g.Draw(uint64(n+1)):]
	case 2, 3, 4: // parts of one array, the second often right after the first
		all := id[:cap(id)]
		n := int(g.Draw(uint64(len(all) + 1)))
		m := n
		if g.Chance(1, 3) {
			m = int(g.Draw(uint64(len(all) + 1)))
		}
		id = all[:n]
		if g.Bool() {
			id = all[:n:n]
		}
		ext = all[m : m+int(g.Draw(uint64(len(all)-m+1)))]
	case 5:
		ext = id
	}
	t.Sample(func() string { return fmt.Sprintf("id=%s (cap %d) subids=%s", showOid(id), cap(id), showOid(ext)) })
	t.KeyBytes(key4(id), key4(ext))
	if len(id) > 0 && len(ext) > 0 {
		t.NonTrivial()
	}
	fullID, fullExt := append([]uint32{}, id[:cap(id)]...), append([]uint32{}, ext[:cap(ext)]...)
	wantCat := append(append([]uint32{}, id...), ext...)
	wantID := append([]uint32{}, id...)
	unchanged := func(what string) {
		if !sameOid(fullID, id[:cap(id)]) || !sameOid(fullExt, ext[:cap(ext)]) {
			t.Failf("%s changed an argument (or memory behind it)", what)
		}
	}
	c1 := oid.Clone(id)
	unchanged("Clone")
	if !sameOid(c1, wantID) {
		t.Failf("Clone gives %s", showOid(c1))
	}
	k1 := oid.Cat(id, ext...)
	unchanged("Cat")
	if !sameOid(k1, wantCat) {
		t.Failf("Cat(%s, %s) gives %s", showOid(id), showOid(ext), showOid(k1))
	}
	k0 := oid.Cat(id)
	if !sameOid(k0, wantID) {
		t.Failf("Cat(%s) gives %s", showOid(id), showOid(k0))
	}
	k2 := oid.Cat(id, 1, 2, 3)
	k3 := oid.Cat(id, 4, 5, 6)
	if !sameOid(k2, append(append([]uint32{}, id...), 1, 2, 3)) || !sameOid(k3, append(append([]uint32{}, id...), 4, 5, 6)) || !sameOid(k1, wantCat) {
		t.Failf("one Cat result changes another: %s and %s", showOid(k2), showOid(k3))
	}
	isPrefix := func(o, p []uint32) bool { return len(p) <= len(o) && sameOid(o[:len(p)], p) }
	for _, q := range [][2][]uint32{{id, ext}, {ext, id}, {k1, id}, {k1, ext}, {id, k1}, {id, id}, {k1, k1[:len(k1)/2]}, {id, nil}} {
		if got := oid.HasPrefix(q[0], q[1]...); got != isPrefix(q[0], q[1]) {
			t.Failf("HasPrefix(%s, %s) = %v", showOid(q[0]), showOid(q[1]), got)
		}
	}
	if isPrefix(id, ext) {
		t.Label("prefix")
	} else {
		t.Label("not a prefix")
	}
	if !oid.HasPrefix(k1, id...) {
		t.Failf("a concatenation does not have its first part as prefix")
	}
	unchanged("HasPrefix")
	// independence: scribble over each thing, spare capacity included
	junk := func(o []uint32) {
		o = o[:cap(o)]
		for i := range o {
			o[i] ^= 0x5a5a5a5a
		}
	}
	junk(c1)
	junk(k0)
	junk(k2)
	unchanged("changing a result")
	if !sameOid(k1, wantCat) || !sameOid(k3, append(append([]uint32{}, wantID...), 4, 5, 6)) {
		t.Failf("changing one result changes another")
	}
	c2 := oid.Clone(id)
	c3 := oid.Clone(k1)
	junk(id)
	junk(ext)
	if !sameOid(c2, wantID) || !sameOid(k1, wantCat) {
		t.Failf("changing an argument changes a result")
	}
	junk(k1)
	if !sameOid(c3, wantCat) {
		t.Failf("changing an argument changes a clone")
	}
	// the same memory with something else in it
	want := append(append([]uint32{}, id...), ext...)
	if k := oid.Cat(id, ext...); !sameOid(k, want) {
		t.Failf("after a change of the arguments Cat(%s, %s) gives %s", showOid(id), showOid(ext), showOid(k))
	}
	if c := oid.Clone(id); !sameOid(c, want[:len(id)]) {
		t.Failf("after a change of the argument Clone(%s) gives %s", showOid(id), showOid(c))
	}
	if got := oid.HasPrefix(id, ext...); got != isPrefix(id, ext) {
		t.Failf("after a change of the arguments HasPrefix(%s, %s) = %v", showOid(id), showOid(ext), got)
	}
	if n := min(len(id), len(ext)); n > 0 && g.Chance(1, 4) {
		oid.HasPrefix(id[:n], ext[:n]...)
		copy(id[:n], append([]uint32{}, ext[:n]...))
		for i := 0; i < 2; i++ {
			if got := oid.HasPrefix(id[:n], ext[:n]...); got != isPrefix(id[:n], ext[:n]) {
				t.Failf("after a change of the arguments HasPrefix(%s, %s) = %v", showOid(id[:n]), showOid(ext[:n]), got)
			}
			g.changeOid(id[:n])
		}
	}
}

// ---------------------------------------------------------------- tree model

type model struct {
	nodes map[string]*oid.Node // key -> identity, nil if not seen yet
	data  map[string]interface{}
	ks    []string // sorted keys and leaves, nil if not known
	ls    []string
	gone  map[*oid.Node]string // removed nodes, if wanted
}

func newModel() *model {
	return &model{nodes: map[string]*oid.Node{}, data: map[string]interface{}{}}
}

func (m *model) add(k string) bool {
	if _, ok := m.nodes[k]; ok || k == "" {
		return false
	}
	m.ks, m.ls = nil, nil
	for n := 4; n <= len(k); n += 4 {
		if _, ok := m.nodes[k[:n]]; !ok {
			m.nodes[k[:n]] = nil
		}
	}
	return true
}

func (m *model) remove(k string) bool {
	if _, ok := m.nodes[k]; !ok || k == "" {
		return false
	}
	m.ks, m.ls = nil, nil
	for q := range m.nodes {
		if strings.HasPrefix(q, k) {
			m.bury(q)
			delete(m.nodes, q)
			delete(m.data, q)
		}
	}
	return true
}

// bury remembers the node of key q as removed.
func (m *model) bury(q string) {
	if n := m.nodes[q]; n != nil && m.gone != nil {
		m.gone[n] = q
	}
}

func (m *model) clear() {
	for q := range m.nodes {
		m.bury(q)
	}
	gone := m.gone
	*m = *newModel()
	m.gone = gone
}

// fresh fails if a node that was removed is part of the tree again.
func (m *model) fresh(t *T, n *oid.Node, o []uint32) {
	for ; n != nil; n = n.Parent {
		if q, ok := m.gone[n]; ok {
			t.Failf("the node of %s, or one above it, is the one that was removed as %s", showOid(o), showOid(fromKey(q)))
		}
	}
}

func (m *model) keys() []string {
	if m.ks == nil && len(m.nodes) > 0 {
		for k := range m.nodes {
			m.ks = append(m.ks, k)
		}
		sort.Strings(m.ks)
	}
	return m.ks
}

func (m *model) leaves() []string {
	if m.ls != nil {
		return m.ls
	}
	ks := m.keys()
	var ls []string
	for i, k := range ks {
		// in sorted order a descendant follows immediately
		if i+1 < len(ks) && strings.HasPrefix(ks[i+1], k) {
			continue
		}
		ls = append(ls, k)
	}
	m.ls = ls
	return ls
}

// next is the least leaf in the range.
func (m *model) next(o1, o2 []uint32, include bool) (string, bool) {
	lo := string(key4(o1))
	for _, k := range m.leaves() {
		if k < lo || k == lo && !include {
			continue
		}
		if o2 != nil && k >= string(key4(o2)) {
			return "", false
		}
		return k, true
	}
	return "", false
}

func nodeKey(n *oid.Node) (string, bool) {
	var o []uint32
	for i := 0; n.Parent != nil; i++ {
		if i > 10000 {
			return "", false
		}
		o = append(o, n.Subid)
		n = n.Parent
	}
	for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
		o[i], o[j] = o[j], o[i]
	}
	return string(key4(o)), true
}

// checkTreeState compares the whole tree with the model.
func checkTreeState(t *T, tr *oid.Tree, m *model) {
	if len(m.nodes) > 0 {
		// find the root from any node
		var root *oid.Node
		for k := range m.nodes {
			n := tr.GetNode(fromKey(k))
			if n == nil {
				t.Failf("node %s is missing", showOid(fromKey(k)))
			}
			for root = n; root.Parent != nil; root = root.Parent {
			}
			break
		}
		seen := map[string]bool{}
		var walk func(n *oid.Node, key string)
		walk = func(n *oid.Node, key string) {
			for i, c := range n.Children {
				if c == nil {
					t.Failf("nil child at %s", showOid(fromKey(key)))
				}
				if c.Parent != n {
					t.Failf("wrong parent link at %s child %d", showOid(fromKey(key)), c.Subid)
				}
				if i > 0 && n.Children[i-1].Subid >= c.Subid {
					t.Failf("children of %s not strictly ascending: %d then %d", showOid(fromKey(key)), n.Children[i-1].Subid, c.Subid)
				}
				k := key + string(key4([]uint32{c.Subid}))
				if id, ok := m.nodes[k]; !ok {
					t.Failf("node %s should not be there", showOid(fromKey(k)))
				} else if id != nil && id != c {
					t.Failf("node %s is another node than before", showOid(fromKey(k)))
				} else {
					m.nodes[k] = c
				}
				if c.Data != m.data[k] {
					t.Failf("node %s holds data %v, want %v", showOid(fromKey(k)), c.Data, m.data[k])
				}
				seen[k] = true
				walk(c, k)
			}
		}
		walk(root, "")
		if len(seen) != len(m.nodes) {
			for _, k := range m.keys() {
				if !seen[k] {
					t.Failf("node %s is missing (%d nodes, want %d)", showOid(fromKey(k)), len(seen), len(m.nodes))
				}
			}
		}
	}
	want := m.leaves()
	type leaf struct {
		o []uint32
		n *oid.Node
	}
	var got []leaf
	tr.ForRangeLeaves(func(o []uint32, n *oid.Node) { got = append(got, leaf{o, n}) })
	var list []string
	for i, l := range got {
		list = append(list, string(key4(l.o)))
		if i < len(want) && list[i] == want[i] && m.nodes[want[i]] != l.n {
			t.Failf("leaf %s is visited with another node", showOid(l.o))
		}
	}
	if strings.Join(list, "/") != strings.Join(want, "/") {
		t.Failf("leaves visited: %s, want %s", showKeys(list), showKeys(want))
	}
	// the slices belong to the callee: changing one changes nothing else
	for i := range got {
		o := got[i].o[:cap(got[i].o)]
		for j := range o {
			o[j] = 0xbadbad
		}
		for j := i + 1; j < len(got); j++ {
			if string(key4(got[j].o)) != want[j] {
				t.Failf("OID slices handed to the leaf visitor share memory")
			}
		}
		if i > 3 {
			break
		}
	}
}

func showKeys(ks []string) string {
	var s []string
	for i, k := range ks {
		if i > 60 {
			s = append(s, "...")
			break
		}
		s = append(s, showOid(fromKey(k)))
	}
	return "{" + strings.Join(s, " ") + "}"
}

// treeOid draws an OID for tree operations: mostly from a small universe, so
// that operations meet, sometimes related to an existing node.
func (g *G) treeOid(m *model, wide bool) []uint32 {
	if len(m.nodes) > 0 && g.Chance(3, 5) {
		ks := m.keys()
		o := fromKey(ks[g.Draw(uint64(len(ks)))])
		switch g.Draw(8) {
		case 0, 1, 2:
		case 3:
			o = append(o, g.subid(wide))
		case 4:
			if len(o) > 0 {
				o = o[:len(o)-1]
			}
		case 5:
			if len(o) > 0 {
				o[len(o)-1] += uint32(g.Draw(3)) - 1
			}
		case 6:
			if len(o) > 0 {
				o[g.Draw(uint64(len(o)))] = g.subid(wide)
			}
		case 7:
			for n := g.Draw(3) + 1; n > 0; n-- {
				o = append(o, g.subid(wide))
			}
		}
		return o
	}
	var o []uint32
	n := int(g.Draw(5))
	if g.Chance(1, 40) {
		n = g.Int(5, 140)
		if g.Chance(1, 8) {
			n = []int{128, 255, 256, 257, 300, 511, 512, 513}[g.Draw(8)]
		}
	}
	if g.hotNow(10) {
		n = int(g.hot() % 300)
	}
	for ; n > 0; n-- {
		o = append(o, g.subid(wide))
	}
	return o
}

// fillTree adds many children to one node, in some order, and returns the
// OIDs added. Later sub-identifiers are drawn from around them.
func (g *G) fillTree() (l [][]uint32) {
	var base []uint32
	for n := g.Draw(4); n > 0; n-- {
		base = append(base, g.subid(false))
	}
	n := []int{5, 9, 16, 17, 18, 33, 34, 40, 64, 65, 66, 100, 130, 257, 300}[g.Draw(15)]
	if g.Chance(1, 40) {
		n = g.Int(1000, 2100)
	}
	if g.hotNow(2) {
		n = int(g.hot()%2048) + 1
	}
	step := uint32([]int{1, 1, 1, 2, 3, 1 << 16}[g.Draw(6)])
	first := uint32(0)
	switch g.Draw(4) {
	case 1:
		first = 1
	case 2:
		first = g.u32()
	case 3:
		first = -uint32(n) * step
	}
	subids := make([]uint32, n)
	for i := range subids {
		subids[i] = first + uint32(i)*step
	}
	switch g.Draw(4) {
	case 0:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			subids[i], subids[j] = subids[j], subids[i]
		}
	case 1:
		s := g.Draw(1 << 16)
		for i := n - 1; i > 0; i-- {
			j := splitmix(&s) % uint64(i+1)
			subids[i], subids[j] = subids[j], subids[i]
		}
	}
	deep := g.Draw(4)
	for i, x := range subids {
		o := append(append([]uint32{}, base...), x)
		l = append(l, o)
		if deep > 0 && (uint32(i)^uint32(deep))%3 == 0 {
			for k := uint32(0); k < uint32(deep); k++ {
				l = append(l, append(append([]uint32{}, o...), k))
			}
		}
	}
	g.near = append(g.near, first, first+uint32(n)*step, first+uint32(n)*step-step, first+uint32(n/2)*step)
	return
}

func (g *G) subid(wide bool) uint32 {
	if g.hotNow(5) {
		return uint32(g.hot())
	}
	if len(g.near) > 0 && g.Bool() {
		return g.near[g.Draw(uint64(len(g.near)))] + uint32(g.Draw(12)) - 5
	}
	if wide {
		return uint32(g.Draw(60))
	}
	if g.Chance(1, 8) {
		return g.u32()
	}
	return uint32(g.Draw(4))
}

// ---------------------------------------------------------------- C16

func checkTreeHistory(t *T, steps int) {
	g := gen(t)
	tr, m := oid.NewTree(), newModel()
	m.gone = map[*oid.Node]string{}
	var trace []string
	t.Sample(func() string { return strings.Join(trace, "; ") })
	n := g.Int(1, steps)
	wide := g.Chance(1, 6)
	removed, readded, rejected := false, false, false
	full := g.Chance(1, 2) // compare the whole tree after every step
	var drain [][]uint32   // remove most of these in the middle
	reuse := g.Bool()      // all arguments in the same memory
	buf := make([]uint32, 0, 300)
	if g.Chance(1, 10) {
		l := g.fillTree()
		for _, o := range l {
			k := string(key4(o))
			if m.add(k) != (tr.AddNode(o) != nil) {
				t.Failf("AddNode(%s) gives the wrong answer", showOid(o))
			}
		}
		trace = append(trace, fmt.Sprintf("add %d OIDs from %s to %s", len(l), showOid(l[0]), showOid(l[len(l)-1])))
		full = false
		if g.Chance(1, 3) {
			drain = l
		}
	}
	for i := 0; i < n; i++ {
		if drain != nil && i == n/2 {
			t.Label("drained")
			if g.Bool() { // by the parent's other end
				for x, y := 0, len(drain)-1; x < y; x, y = x+1, y-1 {
					drain[x], drain[y] = drain[y], drain[x]
				}
			}
			keep := g.Int(0, 3)
			trace = append(trace, fmt.Sprintf("remove the %d OIDs from %s to %s except %d", len(drain), showOid(drain[0]), showOid(drain[len(drain)-1]), keep))
			for j, o := range drain[:max(0, len(drain)-keep)] {
				if want, got := m.remove(string(key4(o))), tr.RemoveNode(append([]uint32{}, o...)); want != got {
					t.Failf("RemoveNode(%s) = %v, want %v", showOid(o), got, want)
				}
				if j%16 == 0 || j > len(drain)-8 {
					if tr.GetNode(o) != nil {
						t.Failf("node %s is still there after RemoveNode", showOid(o))
					}
				}
			}
			checkTreeState(t, tr, m)
			removed = true
		}
		o := g.treeOid(m, wide)
		k := string(key4(o))
		arg := append(make([]uint32, 0, len(o)+2), o...)
		if reuse {
			buf = append(buf[:0], o...)
			arg = buf
		}
		var op string
		switch g.Draw(16) {
		case 0, 1, 2, 3, 4, 5, 6:
			op = "add"
		case 7, 8, 9:
			op = "get"
		case 10, 11, 12:
			op = "remove"
		case 13:
			op = "data"
		case 14:
			op = "state"
		case 15:
			op = "get"
			switch g.Draw(6) {
			case 4:
				op = "next"
			case 5:
				op = "clear"
			}
		}
		trace = append(trace, op+" "+showOid(o))
		switch op {
		case "add":
			want := m.add(k)
			got := tr.AddNode(arg)
			for j := range arg {
				arg[j] = 0xeeee // the tree must not keep the argument
			}
			if want != (got != nil) {
				t.Failf("AddNode(%s) returned node: %v, want %v", showOid(o), got != nil, want)
			}
			if got == nil {
				rejected = true
				break
			}
			if removed {
				readded = true
			}
			if got.Subid != o[len(o)-1] {
				t.Failf("AddNode(%s) returned a node with sub-identifier %d", showOid(o), got.Subid)
			}
			if nk, ok := nodeKey(got); !ok || nk != k {
				t.Failf("AddNode(%s) returned a node at %s", showOid(o), showOid(fromKey(nk)))
			}
			if len(got.Children) != 0 || got.Data != nil {
				t.Failf("AddNode(%s) returned a node that is not new", showOid(o))
			}
			m.fresh(t, got, o)
			if again := tr.GetNode(o); again != got {
				t.Failf("GetNode(%s) after AddNode returns another node", showOid(o))
			}
			m.nodes[k] = got
			if g.Bool() {
				got.Data = fmt.Sprintf("data %d", i)
				m.data[k] = got.Data
			}
		case "get":
			got := tr.GetNode(arg)
			if k == "" {
				break // the root is not an OID of the set
			}
			id, want := m.nodes[k]
			if want != (got != nil) {
				t.Failf("GetNode(%s) found: %v, want %v", showOid(o), got != nil, want)
			}
			if got == nil {
				break
			}
			if id != nil && id != got {
				t.Failf("GetNode(%s) returns another node than before", showOid(o))
			}
			m.fresh(t, got, o)
			m.nodes[k] = got
			if got.Data != m.data[k] {
				t.Failf("GetNode(%s) holds data %v, want %v", showOid(o), got.Data, m.data[k])
			}
		case "remove":
			want := m.remove(k)
			got := tr.RemoveNode(arg)
			if want != got {
				t.Failf("RemoveNode(%s) = %v, want %v", showOid(o), got, want)
			}
			if got {
				removed = true
				if tr.GetNode(o) != nil {
					t.Failf("node %s is still there after RemoveNode", showOid(o))
				}
			}
		case "data":
			if n := tr.GetNode(o); n != nil && k != "" {
				if _, ok := m.nodes[k]; !ok {
					t.Failf("GetNode(%s) found a node that is not there", showOid(o))
				}
				n.Data = i
				m.data[k] = i
			}
		case "next":
			tr.GetNextNode(arg, nil, false) // decided by C17
		case "clear":
			tr.Clear()
			m.clear()
			removed = true
		}
		if full || op == "state" || i == n-1 {
			checkTreeState(t, tr, m)
		}
	}
	if removed && readded {
		t.NonTrivial()
		t.Label("add after remove")
	}
	if rejected {
		t.Label("add of a present OID")
	}
	if len(m.nodes) > 30 {
		t.Label("more than 30 nodes at the end")
	}
}

// ---------------------------------------------------------------- C17

func buildTree(g *G, wide bool) (*oid.Tree, *model) {
	tr, m := oid.NewTree(), newModel()
	if g.Chance(1, 12) {
		for _, o := range g.fillTree() {
			tr.AddNode(o)
			m.add(string(key4(o)))
		}
	}
	for n := g.Int(0, 24); n > 0; n-- {
		changeTree(g, tr, m, wide, 8)
	}
	return tr, m
}

// changeTree adds a node, or removes one with probability 1/rm.
func changeTree(g *G, tr *oid.Tree, m *model, wide bool, rm int) string {
	o := g.treeOid(m, wide)
	if g.Chance(1, rm) {
		if g.Chance(1, 30) {
			tr.Clear()
			m.clear()
			return "clear"
		}
		tr.RemoveNode(o)
		m.remove(string(key4(o)))
		return "remove " + showOid(o)
	}
	tr.AddNode(o)
	m.add(string(key4(o)))
	return "add " + showOid(o)
}

func checkNext(t *T, tr *oid.Tree, m *model, o1, o2 []uint32, include bool) (string, bool) {
	want, ok := m.next(o1, o2, include)
	c1, c2 := append([]uint32{}, o1...), append([]uint32{}, o2...)
	got := tr.GetNextNode(o1, o2, include)
	desc := func() string {
		return fmt.Sprintf("GetNextNode(%s, %s, %v) in tree with leaves %s", showOid(o1), showOid(o2), include, showKeys(m.leaves()))
	}
	if !sameOid(o1, c1) || !sameOid(o2, c2) {
		t.Failf("%s changed an argument", desc())
	}
	if got == nil {
		if ok {
			t.Failf("%s returns nothing, want %s", desc(), showOid(fromKey(want)))
		}
		return "", false
	}
	k, _ := nodeKey(got)
	if !ok {
		t.Failf("%s returns %s, want nothing", desc(), showOid(fromKey(k)))
	}
	if k != want {
		t.Failf("%s returns %s, want %s", desc(), showOid(fromKey(k)), showOid(fromKey(want)))
	}
	if tr.GetNode(fromKey(want)) != got {
		t.Failf("%s returns a node other than the one at %s", desc(), showOid(fromKey(want)))
	}
	return k, true
}

func checkGetNext(t *T) {
	g := gen(t)
	wide := g.Chance(1, 6)
	tr, m := buildTree(g, wide)
	ls := m.leaves()
	first, trace := showKeys(ls), ""
	t.Sample(func() string { return "leaves " + first + trace })
	t.KeyString(strings.Join(ls, "/"))
	if len(ls) >= 2 {
		t.NonTrivial()
	}
	hit := 0
	changing := g.Bool()
	reuse := g.Bool() // all arguments in the same memory
	buf1, buf2 := make([]uint32, 0, 300), make([]uint32, 0, 300)
	for q := g.Int(1, 12); q > 0; q-- {
		if changing && g.Bool() {
			for n := g.Int(1, 2); n > 0; n-- {
				trace += "; " + changeTree(g, tr, m, wide, 3)
			}
			t.Label("changed between queries")
		}
		o1 := g.treeOid(m, wide)
		if changing && g.Chance(1, 4) {
			o1 = nil
		}
		var o2 []uint32
		if g.Chance(2, 3) {
			o2 = g.treeOid(m, wide)
			if len(o2) == 0 {
				o2 = nil
			}
		}
		if g.Chance(1, 6) {
			o2 = append([]uint32{}, o1...)
			if len(o2) == 0 {
				o2 = nil
			} else if g.Bool() {
				o2[len(o2)-1]++
			}
		}
		if reuse && o1 != nil {
			buf1 = append(buf1[:0], o1...)
			o1 = buf1
		}
		if reuse && o2 != nil {
			buf2 = append(buf2[:0], o2...)
			o2 = buf2
		}
		_, ok := checkNext(t, tr, m, o1, o2, g.Bool())
		if ok {
			hit++
		}
	}
	if hit > 0 {
		t.Label("some range has a leaf")
	}
	// walking
	ls = m.leaves()
	cur := []uint32(nil)
	var seen []string
	for i := 0; i <= len(ls); i++ {
		n := tr.GetNextNode(cur, nil, false)
		if n == nil {
			break
		}
		k, _ := nodeKey(n)
		seen = append(seen, k)
		if cur = fromKey(k); reuse {
			cur = append(buf1[:0], cur...)
		}
	}
	if strings.Join(seen, "/") != strings.Join(ls, "/") {
		t.Failf("walking visits %s, leaves are %s", showKeys(seen), showKeys(ls))
	}
}

// sysTrees: every tree of up to 3 insertions over {0,1}-OIDs of length 1..3,
// with every range between OIDs of that universe.
var smallOids = func() (l [][]uint32) {
	for n := 1; n <= 3; n++ {
		for v := 0; v < 1<<n; v++ {
			var o []uint32
			for k := n - 1; k >= 0; k-- {
				o = append(o, uint32(v>>k&1))
			}
			l = append(l, o)
		}
	}
	return
}()

func sysNext(t *T, i int) {
	tr, m := oid.NewTree(), newModel()
	n := len(smallOids)
	for k := 0; k < 3; k++ {
		o := smallOids[i%n]
		tr.AddNode(o)
		m.add(string(key4(o)))
		i /= n
	}
	t.KeyString(strings.Join(m.leaves(), "/"))
	t.NonTrivial()
	t.Sample(func() string { return "all ranges in leaves " + showKeys(m.leaves()) })
	ends := append([][]uint32{nil}, smallOids...)
	ends = append(ends, []uint32{2}, []uint32{0, 2}, []uint32{1, 1, 1, 0}, []uint32{0, 0, 0, 0})
	for _, a := range ends {
		for _, b := range ends {
			checkNext(t, tr, m, a, b, false)
			checkNext(t, tr, m, a, b, true)
		}
	}
}

// ---------------------------------------------------------------- C18

// The universe: every OID ends in a sub-identifier of its own, so that a
// node's key is known from its (immutable) sub-identifier.
var concOids = [][]uint32{{1}, {2}, {1, 3}, {1, 4}, {2, 5}, {1, 3, 6}, {1, 3, 7}, {2, 5, 8}, {1, 4, 9, 10}, {11}, {1, 4, 9}}

func keyBySubid(s uint32) string {
	for _, o := range concOids {
		if o[len(o)-1] == s {
			return string(key4(o))
		}
	}
	if s >= 1000 && s < 2000 { // a filler
		return string(key4([]uint32{s}))
	}
	return "?"
}

type concOp struct {
	kind      string
	o, o2     []uint32
	include   bool
	inv, resp int64
	node      *oid.Node // add, get, next
	flag      bool      // remove
	leaves    []string  // leaves
	gkey      string
}

func (c *concOp) String() string {
	r := ""
	switch c.kind {
	case "add", "get":
		r = fmt.Sprintf("%s(%s) -> node %v", c.kind, showOid(c.o), c.node != nil)
	case "next":
		r = fmt.Sprintf("next(%s,%s,%v) -> nothing", showOid(c.o), showOid(c.o2), c.include)
		if c.node != nil {
			r = fmt.Sprintf("next(%s,%s,%v) -> %s", showOid(c.o), showOid(c.o2), c.include, showOid(fromKey(c.gkey)))
		}
	case "remove":
		r = fmt.Sprintf("remove(%s) -> %v", showOid(c.o), c.flag)
	case "leaves":
		r = "leaves -> " + showKeys(c.leaves)
	case "clear":
		r = "clear"
	}
	return fmt.Sprintf("[%d,%d] %s", c.inv, c.resp, r)
}

// apply runs the operation on the model and tells whether the recorded
// result is possible there.
func (c *concOp) apply(m *model) bool {
	k := string(key4(c.o))
	switch c.kind {
	case "add":
		ok := m.add(k)
		if ok != (c.node != nil) {
			return false
		}
		if ok {
			for q, n := range m.nodes {
				if n == c.node && q != k {
					return false
				}
			}
			m.nodes[k] = c.node
		}
		return true
	case "get":
		id, ok := m.nodes[k]
		if ok != (c.node != nil) || ok && id != nil && id != c.node {
			return false
		}
		if ok {
			m.nodes[k] = c.node
		}
		return true
	case "next":
		want, ok := m.next(c.o, c.o2, c.include)
		if ok != (c.node != nil) {
			return false
		}
		if ok {
			if want != c.gkey || m.nodes[want] != nil && m.nodes[want] != c.node {
				return false
			}
			m.nodes[want] = c.node
		}
		return true
	case "remove":
		return m.remove(k) == c.flag
	case "leaves":
		return strings.Join(m.leaves(), "/") == strings.Join(c.leaves, "/")
	case "clear":
		m.clear()
	}
	return true
}

func (m *model) clone() *model {
	n := newModel()
	for k, v := range m.nodes {
		n.nodes[k] = v
	}
	return n
}

func (m *model) hash() string {
	var b strings.Builder
	for _, k := range m.keys() {
		fmt.Fprintf(&b, "%s=%p;", k, m.nodes[k])
	}
	return b.String()
}

// linearizable searches for a sequential order (Wing and Gong, with
// memoisation of visited configurations). -1: budget exceeded.
func linearizable(ops []*concOp, start *model) int {
	seen := map[string]bool{}
	budget := 400000
	var rec func(done uint64, m *model) int
	rec = func(done uint64, m *model) int {
		if done == 1<<len(ops)-1 {
			return 1
		}
		if budget--; budget < 0 {
			return -1
		}
		key := fmt.Sprint(done) + m.hash()
		if seen[key] {
			return 0
		}
		seen[key] = true
		first := int64(math.MaxInt64)
		for i, o := range ops {
			if done>>i&1 == 0 && o.resp < first {
				first = o.resp
			}
		}
		for i, o := range ops {
			if done>>i&1 == 1 || o.inv > first {
				continue
			}
			n := m.clone()
			if !o.apply(n) {
				continue
			}
			if r := rec(done|1<<i, n); r != 0 {
				return r
			}
		}
		return 0
	}
	return rec(0, start)
}

func checkConcurrentTree(t *T) {
	g := gen(t)
	tr, m := oid.NewTree(), newModel()
	for n := g.Int(0, 5); n > 0; n-- {
		o := concOids[g.Draw(uint64(len(concOids)))]
		node := tr.AddNode(o)
		m.add(string(key4(o)))
		if node != nil {
			m.nodes[string(key4(o))] = node
		}
	}
	universe := concOids
	if g.Chance(1, 4) { // many siblings
		t.Label("many siblings")
		nf := g.Int(9, 40)
		down := g.Bool()
		for k := 0; k < nf; k++ {
			o := []uint32{1000 + 3*uint32(k)}
			if down {
				o[0] = 1000 + 3*uint32(nf-1-k)
			}
			m.add(string(key4(o)))
			m.nodes[string(key4(o))] = tr.AddNode(o)
		}
		universe = append(append([][]uint32{}, concOids...), []uint32{1000}, []uint32{1001}, []uint32{1000 + 3*uint32(nf/2)}, []uint32{1001 + 3*uint32(nf/2)}, []uint32{1000 + 3*uint32(nf-1)}, []uint32{1001 + 3*uint32(nf)})
	}
	start := m.clone()
	workers := g.Int(2, 5)
	hot := universe[g.Draw(uint64(len(universe)))]
	plans := make([][]*concOp, workers)
	pauses := make([][]int, workers)
	total := 0
	for w := range plans {
		for n := g.Int(1, 5); n > 0 && total < 18; n-- {
			c := &concOp{o: universe[g.Draw(uint64(len(universe)))]}
			if g.Bool() {
				c.o = hot
			}
			switch g.Draw(14) {
			case 0, 1, 2, 3, 4:
				c.kind = "add"
			case 5, 6:
				c.kind = "get"
			case 7, 8, 9:
				c.kind = "remove"
			case 10, 11:
				c.kind = "next"
				if g.Bool() {
					c.o = nil
				}
				if g.Chance(1, 3) {
					c.o2 = universe[g.Draw(uint64(len(universe)))]
				}
				c.include = g.Bool()
			case 12:
				c.kind = "leaves"
			case 13:
				c.kind = "clear"
			}
			plans[w] = append(plans[w], c)
			pauses[w] = append(pauses[w], g.Int(0, 3))
			total++
		}
	}
	var ops []*concOp
	for _, p := range plans {
		ops = append(ops, p...)
	}
	t.Sample(func() string {
		s := "start " + showKeys(start.leaves())
		for w, p := range plans {
			s += fmt.Sprintf("\n goroutine %d:", w)
			for _, c := range p {
				s += " " + c.String() + ";"
			}
		}
		return s
	})
	var clock atomic.Int64
	var begin, wg sync.WaitGroup
	begin.Add(1)
	var pan atomic.Value
	for w := range plans {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					pan.Store(fmt.Sprint(r))
				}
			}()
			begin.Wait()
			for i, c := range plans[w] {
				for k := pauses[w][i] * 40; k > 0; k-- {
					spin.Add(1)
				}
				c.inv = clock.Add(1)
				switch c.kind {
				case "add":
					c.node = tr.AddNode(c.o)
				case "get":
					c.node = tr.GetNode(c.o)
				case "next":
					c.node = tr.GetNextNode(c.o, c.o2, c.include)
				case "remove":
					c.flag = tr.RemoveNode(c.o)
				case "clear":
					tr.Clear()
				case "leaves":
					tr.ForRangeLeaves(func(o []uint32, n *oid.Node) {
						c.leaves = append(c.leaves, string(key4(o)))
						if pauses[w][i] == 3 { // give writers time to interfere
							time.Sleep(50 * time.Microsecond)
						}
					})
				}
				c.resp = clock.Add(1)
			}
		}(w)
	}
	begin.Done()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		// the operations are still running: their results cannot be read
		t.Sample(func() string {
			s := "start " + showKeys(start.leaves())
			for w, p := range plans {
				s += fmt.Sprintf("\n goroutine %d:", w)
				for _, c := range p {
					s += fmt.Sprintf(" %s %s %s %v;", c.kind, showOid(c.o), showOid(c.o2), c.include)
				}
			}
			return s
		})
		t.Failf("deadlock: tree operations do not return")
	}
	if p := pan.Load(); p != nil {
		t.Failf("a tree operation panicked: %v", p)
	}
	overlap := false
	for i, a := range ops {
		for _, b := range ops[:i] {
			if a.inv < b.resp && b.inv < a.resp {
				overlap = true
			}
		}
		if a.kind == "next" && a.node != nil {
			a.gkey = keyBySubid(a.node.Subid)
		}
	}
	if overlap {
		t.NonTrivial()
		t.Label("overlapping operations")
	}
	// the final state is part of the history
	fin := &concOp{kind: "leaves", inv: clock.Add(1)}
	tr.ForRangeLeaves(func(o []uint32, n *oid.Node) { fin.leaves = append(fin.leaves, string(key4(o))) })
	fin.resp = clock.Add(1)
	ops = append(ops, fin)
	for _, o := range universe {
		f := &concOp{kind: "get", o: o, inv: clock.Add(1)}
		f.node = tr.GetNode(o)
		f.resp = clock.Add(1)
		ops = append(ops, f)
	}
	switch linearizable(ops, start) {
	case 0:
		s := ""
		for _, o := range ops {
			s += "\n " + o.String()
		}
		t.Failf("no sequential order explains this history, started with leaves %s:%s", showKeys(start.leaves()), s)
	case -1:
		t.Label("search budget exceeded")
	}
}

var spin atomic.Int64

// checkStorm: many rounds in which all goroutines do the same thing at once
// through a spinning barrier; exactly one may win.
func checkStorm(t *T, i int) {
	t.NonTrivial()
	t.Sample(func() string { return fmt.Sprintf("storm %d: goroutines add or remove the same OID at once", i) })
	tr := oid.NewTree()
	const workers, rounds = 4, 400
	depth := []int{1, 3, 20, 128}[i%4]
	base := seqOid(depth)
	wide := i/4%2 == 1
	if wide { // many siblings
		for k := 0; k < 300; k++ {
			tr.AddNode([]uint32{uint32(k) * 16})
		}
	}
	var phase atomic.Int64
	var adds, removes [rounds]atomic.Int64
	barrier := func(n int64) {
		phase.Add(1)
		for k := 0; phase.Load() < n*workers; k++ {
			if k > 2000 {
				time.Sleep(time.Microsecond)
			}
		}
	}
	reader := make(chan struct{})
	var disorder atomic.Value
	go func() {
		defer close(reader)
		for phase.Load() < 4*rounds*workers && disorder.Load() == nil {
			n := 0
			last := ""
			bad := ""
			tr.ForRangeLeaves(func(o []uint32, _ *oid.Node) {
				n++
				if k := string(key4(o)); k <= last && bad == "" {
					bad = fmt.Sprintf("%s after %s", showOid(o), showOid(fromKey(last)))
				} else {
					last = k
				}
			})
			if bad != "" {
				disorder.Store(bad)
			}
			tr.GetNextNode(nil, nil, false)
			tr.GetNode(base)
			time.Sleep(20 * time.Microsecond)
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := int64(0); r < rounds; r++ {
				o := append([]uint32{uint32(r)*4 + 1}, base...)
				barrier(4*r + 1)
				if tr.AddNode(o) != nil {
					adds[r].Add(1)
				}
				barrier(4*r + 2)
				if r%2 == 0 {
					if tr.RemoveNode(o[:1]) {
						removes[r].Add(1)
					}
				} else if r%16 == 7 {
					tr.Clear()
				}
				barrier(4*r + 3)
				barrier(4*r + 4)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); <-reader; close(done) }()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		t.Failf("deadlock: tree operations do not return")
	}
	if bad := disorder.Load(); bad != nil {
		t.Failf("leaves out of order during concurrent changes: %v", bad)
	}
	for r := 0; r < rounds; r++ {
		if n := adds[r].Load(); n != 1 {
			t.Failf("round %d: %d of %d concurrent AddNode calls for one new OID succeeded", r, n, workers)
		}
		if n := removes[r].Load(); r%2 == 0 && n != 1 {
			t.Failf("round %d: %d of %d concurrent RemoveNode calls for one node succeeded", r, n, workers)
		}
	}
}

// checkOneWriter: one goroutine repeats a known sequence of changes, so the
// tree goes through a known sequence of states; the answer of every query of
// the other goroutines must be that of a state the tree was in between the
// start and the end of the query, and a goroutine never goes back to an
// earlier state.
func checkOneWriter(t *T, i int) {
	t.NonTrivial()
	seed := uint64(i)*0x9e3779b9 + 7
	rnd := func(n int) int { return int(splitmix(&seed) % uint64(n)) }
	kind := i % 4 // toggle, grow and shrink, any, clear
	nf := []int{0, 2, 12, 60, 300}[i/4%5]
	if kind == 3 {
		nf = min(nf, 12)
	}
	var base []uint32
	for d := rnd(4); d > 0; d-- {
		base = append(base, 3)
	}
	tr, m := oid.NewTree(), newModel()
	key := map[uint32]string{} // last sub-identifiers are distinct
	type step struct {
		kind string
		o    []uint32
	}
	var fill, keys [][]uint32
	mk := func(sub ...uint32) []uint32 { return append(append([]uint32{}, base...), sub...) }
	for k := 0; k < nf; k++ {
		fill = append(fill, mk(1000+10*uint32(k)))
	}
	for k := len(fill) - 1; k > 0 && i%3 == 0; k-- {
		j := rnd(k + 1)
		fill[k], fill[j] = fill[j], fill[k]
	}
	nk := 1
	if kind != 0 {
		nk = 2 + rnd(9)
	}
	for k := 0; k < nk; k++ {
		var a uint32
		switch rnd(3) {
		case 0:
			a = 20 + uint32(k)
		case 1:
			a = 1000 + 10*uint32(rnd(nf+1)) + 1
			for key[a] != "" {
				a += 10
			}
		case 2:
			a = 0xffffff00 + uint32(k)
		}
		key[a] = "taken"
		o := mk(a)
		for d := []int{0, 0, 1, 4}[rnd(4)]; d > 0; d-- {
			o = append(o, 1<<24+uint32(k)<<8+uint32(d))
		}
		keys = append(keys, o)
	}
	switch rnd(3) {
	case 0:
		sort.Slice(keys, func(x, y int) bool { return string(key4(keys[x])) < string(key4(keys[y])) })
	case 1:
		sort.Slice(keys, func(x, y int) bool { return string(key4(keys[x])) > string(key4(keys[y])) })
	}
	var steps []step
	top := func(o []uint32) []uint32 { return o[:len(base)+1] }
	switch kind {
	case 0, 1:
		for _, o := range keys {
			steps = append(steps, step{"add", o})
		}
		back := rnd(2) == 0
		for k := range keys {
			if back {
				k = len(keys) - 1 - k
			}
			steps = append(steps, step{"remove", top(keys[k])})
		}
	case 2:
		for n := 20; n > 0; n-- {
			o := keys[rnd(len(keys))]
			if rnd(2) == 0 {
				steps = append(steps, step{"add", o})
			} else {
				steps = append(steps, step{"remove", o[:len(base)+1+rnd(len(o)-len(base))]})
			}
		}
		for _, o := range keys {
			steps = append(steps, step{"remove", top(o)})
		}
	case 3:
		for _, o := range keys {
			steps = append(steps, step{"add", o})
		}
		steps = append(steps, step{"clear", nil})
		for _, o := range fill {
			steps = append(steps, step{"add", o})
		}
	}
	for _, o := range fill {
		tr.AddNode(o)
		m.add(string(key4(o)))
	}
	if len(base) > 0 && nf == 0 { // RemoveNode and Clear leave no other trace
		steps = append([]step{{"add", base}}, append(steps, step{"clear", nil})...)
	}
	t.Sample(func() string {
		s := fmt.Sprintf("tree with %d siblings below %s, goroutines query while one repeats:", nf, showOid(base))
		for _, x := range steps {
			s += " " + x.kind + " " + showOid(x.o) + ";"
		}
		return s
	})
	key = map[uint32]string{}
	for _, o := range append(append([][]uint32{}, fill...), keys...) {
		for n := len(base) + 1; n <= len(o); n++ {
			key[o[n-1]] = string(key4(o[:n]))
		}
	}
	if len(base) > 0 {
		key[3] = string(key4(base)) // only ever a leaf at this depth
	}
	// queries and their answers in every state
	type query struct {
		kind    string
		a, b    []uint32
		include bool
		want    []string
	}
	var qs []*query
	for _, o := range keys {
		qs = append(qs, &query{kind: "get", a: o}, &query{kind: "get", a: top(o)})
	}
	ends := append([][]uint32{nil, nil}, keys...)
	for k := 0; k < len(fill); k += 1 + len(fill)/6 {
		ends = append(ends, fill[k])
	}
	for n := 24; n > 0; n-- {
		q := &query{kind: "next", a: ends[rnd(len(ends))], include: rnd(2) == 0}
		if rnd(2) == 0 {
			q.b = ends[rnd(len(ends))]
		}
		if rnd(4) == 0 {
			q.a, q.b = keys[rnd(len(keys))], nil
		}
		qs = append(qs, q)
	}
	qs = append(qs, &query{kind: "next"}, &query{kind: "leaves"})
	record := func() {
		for _, q := range qs {
			w := ""
			switch q.kind {
			case "get":
				if _, ok := m.nodes[string(key4(q.a))]; ok {
					w = string(key4(q.a))
				}
			case "next":
				w, _ = m.next(q.a, q.b, q.include)
			case "leaves":
				w = strings.Join(m.leaves(), "/")
			}
			q.want = append(q.want, w)
		}
	}
	record()
	for _, x := range steps {
		switch x.kind {
		case "add":
			m.add(string(key4(x.o)))
		case "remove":
			m.remove(string(key4(x.o)))
		case "clear":
			m.clear()
		}
		record()
	}
	L := len(steps)
	for _, q := range qs {
		if q.want[0] != q.want[L] {
			t.Failf("harness: the sequence of changes is not a cycle: %+v", steps)
		}
	}
	var begun, ended atomic.Int64
	var bad atomic.Value
	const readers = 4
	total := int64(L * (1 + 3000/L))
	var wg sync.WaitGroup
	guard := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad.Store(fmt.Sprintf("a tree operation panicked: %v", r))
				}
			}()
			f()
		}()
	}
	for r := 0; r < readers; r++ {
		s := seed + uint64(r)
		guard(func() {
			pos := int64(0)
			for bad.Load() == nil && ended.Load() < total {
				q := qs[splitmix(&s)%uint64(len(qs))]
				if q.kind == "leaves" && nf > 60 && s%4 != 0 {
					continue
				}
				if e := ended.Load(); e > pos {
					pos = e
				}
				got := ""
				var node *oid.Node
				switch q.kind {
				case "get":
					node = tr.GetNode(q.a)
				case "next":
					node = tr.GetNextNode(q.a, q.b, q.include)
				case "leaves":
					var l []string
					tr.ForRangeLeaves(func(o []uint32, _ *oid.Node) { l = append(l, string(key4(o))) })
					got = strings.Join(l, "/")
				}
				last := begun.Load()
				if node != nil {
					got = key[node.Subid]
				}
				first := pos
				for pos <= last && q.want[pos%int64(L)] != got {
					pos++
				}
				if pos > last {
					show := func(k string) string {
						if q.kind == "leaves" {
							return showKeys(strings.Split(k, "/"))
						}
						if k == "" {
							return "nothing"
						}
						return showOid(fromKey(k))
					}
					msg := fmt.Sprintf("%s(%s, %s, %v) answers %s, which is wrong in every state the tree was in meanwhile; right would be %s after %d steps", q.kind, showOid(q.a), showOid(q.b), q.include, show(got), show(q.want[first%int64(L)]), first%int64(L))
					if first != last {
						msg += fmt.Sprintf(" or %s after %d steps", show(q.want[last%int64(L)]), last%int64(L))
					}
					bad.Store(msg)
				}
			}
		})
	}
	guard(func() {
		for n := int64(0); n < total && bad.Load() == nil; n++ {
			begun.Store(n + 1)
			x := steps[n%int64(L)]
			switch x.kind {
			case "add":
				tr.AddNode(x.o)
			case "remove":
				tr.RemoveNode(x.o)
			case "clear":
				tr.Clear()
			}
			ended.Store(n + 1)
			if n%7 == 0 {
				for k := splitmix(&seed) % 200; k > 0; k-- {
					spin.Add(1)
				}
			}
		}
	})
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		t.Failf("deadlock: tree operations do not return")
	}
	if b := bad.Load(); b != nil {
		t.Failf("%v", b)
	}
}

// ---------------------------------------------------------------- C25

// mibNames: RFC 1155, 1213, 1902/2578, 3418 (sysObjectID is called sysOid).
var mibNames = map[string]string{
	"internet": "1.3.6.1", "directory": "1.3.6.1.1", "mgmt": "1.3.6.1.2", "experimental": "1.3.6.1.3", "private": "1.3.6.1.4",
	"security": "1.3.6.1.5", "snmpV2": "1.3.6.1.6", "mib2": "1.3.6.1.2.1", "enterprises": "1.3.6.1.4.1",
	"system": "1.3.6.1.2.1.1", "sysDescr": "1.3.6.1.2.1.1.1", "sysOid": "1.3.6.1.2.1.1.2", "sysUpTime": "1.3.6.1.2.1.1.3",
	"sysContact": "1.3.6.1.2.1.1.4", "sysName": "1.3.6.1.2.1.1.5", "sysLocation": "1.3.6.1.2.1.1.6", "sysServices": "1.3.6.1.2.1.1.7",
	"sysORLastChange": "1.3.6.1.2.1.1.8", "sysORTable": "1.3.6.1.2.1.1.9", "sysOREntry": "1.3.6.1.2.1.1.9.1", "sysORIndex": "1.3.6.1.2.1.1.9.1.1",
	"sysORID": "1.3.6.1.2.1.1.9.1.2", "sysORDescr": "1.3.6.1.2.1.1.9.1.3", "sysORUpTime": "1.3.6.1.2.1.1.9.1.4",
	"interfaces": "1.3.6.1.2.1.2", "ifNumber": "1.3.6.1.2.1.2.1", "ifTable": "1.3.6.1.2.1.2.2", "ifEntry": "1.3.6.1.2.1.2.2.1",
	"ifIndex": "1.3.6.1.2.1.2.2.1.1", "ifDescr": "1.3.6.1.2.1.2.2.1.2", "ifType": "1.3.6.1.2.1.2.2.1.3", "ifMtu": "1.3.6.1.2.1.2.2.1.4",
	"ifSpeed": "1.3.6.1.2.1.2.2.1.5", "ifPhysAddress": "1.3.6.1.2.1.2.2.1.6", "ifAdminStatus": "1.3.6.1.2.1.2.2.1.7",
}

func checkNames(t *T) {
	var names []string
	for n := range mibNames {
		names = append(names, n)
	}
	sort.Strings(names)
	byOid := map[string]string{}
	for _, n := range names {
		o, ok := oid.Name[n]
		if !ok {
			t.Failf("the name %s is not defined", n)
		}
		if s := oidText(o); s != mibNames[n] {
			t.Failf("%s is %s, want %s", n, s, mibNames[n])
		}
		if m, dup := byOid[string(key4(o))]; dup {
			t.Failf("%s and %s have the same OID", n, m)
		}
		byOid[string(key4(o))] = n
	}
}

func checkTransport(t *T, name string, o []uint32) {
	if r, ok := tryParse(oid.String(o)); !ok || !sameOid(r, o) {
		t.Failf("%s (%s) prints as %q and parses as %s", name, showOid(o), oid.String(o), showOid(r))
	}
	for k := 0; k < nOidCarriers; k++ {
		p := oidCarrier(k, o, nbo(k))
		d, ok := agentx.EncodePdu(p)
		if !ok {
			t.Failf("%s (%s) cannot be sent", name, showOid(o))
		}
		q, ok, why := decodeAll(d)
		if !ok {
			t.Failf("%s (%s) is sent and not received: %s", name, showOid(o), why)
		}
		if df := pduDiff(carried(p, int32(len(d)-20)), q); df != "" {
			t.Failf("%s (%s) arrives changed: %s", name, showOid(o), df)
		}
	}
}

func checkUserNames(t *T) {
	g := gen(t)
	added := map[string][]uint32{}
	defer func() {
		for n := range added {
			delete(oid.Name, n)
		}
	}()
	var keys []string
	for n := g.Int(1, 4); n > 0; n-- {
		name := fmt.Sprintf("verif-%d-%s", n, g.str(10))
		o := g.oid()
		if len(o) > 128 {
			o = o[:128]
		}
		if g.Bool() { // below a predefined name, as users do it
			base := oid.Name[[]string{"enterprises", "mib2", "ifEntry", "sysOREntry", "private"}[g.Draw(5)]]
			o = oid.Cat(base, o[:min(len(o), 20)]...)
		}
		oid.Name[name] = o
		if _, dup := added[name]; !dup {
			keys = append(keys, name)
		}
		added[name] = append([]uint32{}, o...)
	}
	sort.Strings(keys)
	t.NonTrivial()
	t.Sample(func() string {
		s := ""
		for _, n := range keys {
			s += fmt.Sprintf("%q=%s ", n, showOid(added[n]))
		}
		return s
	})
	for _, n := range keys {
		if !sameOid(oid.Name[n], added[n]) {
			t.Failf("the registered name %q resolves to %s, want %s", n, showOid(oid.Name[n]), showOid(added[n]))
		}
		checkTransport(t, n, oid.Name[n])
	}
	// uses of the predefined names leave them alone
	for _, n := range []string{"mib2", "enterprises", "system", "ifEntry"} {
		x := oid.Cat(oid.Name[n], g.u32())
		x[0] = 99
		_ = append(oid.Name[n], 1, 2, 3)
	}
	tr := oid.NewTree()
	for _, n := range keys {
		tr.AddNode(oid.Name[n])
		tr.GetNextNode(oid.Name[n], nil, true)
		agentx.EncodePdu(agentx.Pdu{Tag: 18, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{{Oid: oid.Name[n], Tag: asn.TagNull}}})
		if !sameOid(oid.Name[n], added[n]) {
			t.Failf("using the name %q changed it", n)
		}
	}
	checkNames(t)
}

func init() {
	register(&Prop{ID: "C13", Rule: "Triples of OIDs, most of them related (equal, extended, cut, one sub-identifier changed by one, by one bit or entirely), with boundary sub-identifiers; enumerated: all pairs of 32-bit boundary values in first and last position. Non-trivial: the first two share a first sub-identifier. Oracle: byte order of fixed-width big-endian keys.",
		Quick: 8000000, Thorough: 80000000, Sys: len(words32) * len(words32),
		SysRun: func(t *T, i int) {
			a, b := words32[i%len(words32)], words32[i/len(words32)]
			checkOrder(t, []uint32{a}, []uint32{b}, []uint32{a, b})
			checkOrder(t, []uint32{1, 3, a}, []uint32{1, 3, b}, []uint32{1, 3, b, a})
			s := []uint32{a, b, a, b, a} // parts of one array
			checkOrder(t, s[:2], s[:4], s[2:])
			checkOrder(t, s, s[:1], s[1:3])
			checkOrder(t, s, s, s[:0])
		},
		Run: func(t *T) {
			g := gen(t)
			a := g.anyOid()
			b := related(g, a)
			c := related(g, b)
			checkOrder(t, a, b, c)
			if g.Chance(1, 8) { // the same memory with something else in it
				a, b, c = cloneU32(a), cloneU32(b), cloneU32(c)
				checkOrder(t, a, b, c)
				g.changeOid([][]uint32{a, b, c}[g.Draw(3)])
				checkOrder(t, a, b, c)
				switch g.Draw(4) {
				case 0:
					copy(a, b)
				case 1:
					copy(b, a)
				case 2:
					copy(c, b)
				default:
					g.changeOid([][]uint32{a, b, c}[g.Draw(3)])
				}
				checkOrder(t, a, b, c)
			}
		}})
	register(&Prop{ID: "C14", Rule: "OIDs of all lengths up to 300 are printed and parsed back; texts are printed OIDs with up to two edits (dots, signs, spaces, letters, digits beyond 32 and 64 bits, control and non-ASCII characters inserted, characters deleted or replaced); enumerated: every text of up to 4 characters over '0','1','9','.','-','a', and lengths 0 to 140. Non-trivial: at least 2 characters or sub-identifiers.",
		Quick: 9600000, Thorough: 40000000, Sys: nShortTexts + 3*141 + 2*len(words32),
		SysRun: func(t *T, i int) {
			switch {
			case i < nShortTexts:
				checkParse(t, shortText(i))
			case i < nShortTexts+141:
				checkPrint(t, seqOid(i-nShortTexts))
			case i < nShortTexts+2*141:
				checkParse(t, strings.TrimSuffix(strings.Repeat("4294967295.", i-nShortTexts-141), "."))
			case i < nShortTexts+3*141:
				checkParse(t, strings.Repeat(".1", i-nShortTexts-2*141))
			default:
				i -= nShortTexts + 3*141
				w := words32[i/2]
				if i%2 == 0 {
					checkPrint(t, []uint32{w})
				} else {
					checkParse(t, strconv.FormatUint(uint64(w)+1<<32, 10))
				}
			}
		},
		Run: func(t *T) {
			g := gen(t)
			if g.Chance(1, 3) {
				g.oidTwice(g.anyOid(), func(o []uint32) { checkPrint(t, o) })
			} else if g.Chance(1, 12) {
				checkParse(t, g.str(40))
			} else {
				checkParse(t, genOidText(g))
			}
		}})
	register(&Prop{ID: "C15", Rule: "OID pairs, half of them related or overlapping in memory, with and without spare capacity; every argument and result is overwritten in turn, spare capacity included. Non-trivial: both OIDs are non-empty.",
		Quick: 8000000, Thorough: 40000000, Run: checkBlocks})
	register(&Prop{ID: "C16", Rule: "Histories of up to 40 add, get, remove, set-data, clear and visit operations on OIDs mostly from a small universe or related to present nodes; results are compared with a model (a set of keys with node identities and data) after every operation and the whole tree structure after every step or at the end. Non-trivial: an OID is added after a removal.",
		Quick: 360000, Thorough: 3000000, Run: func(t *T) { checkTreeHistory(t, 40) }})
	register(&Prop{ID: "C17", Rule: "Trees built by up to 24 additions and removals, queried with up to 12 ranges whose bounds are nodes, their neighbours, prefixes and extensions, half of them changed between queries, then walked; enumerated: every tree of 3 insertions from the 14 OIDs over {0,1} of length 1 to 3, each with all 722 ranges over that universe. Non-trivial: at least 2 leaves.",
		Quick: 900000, Thorough: 6000000, Sys: 14 * 14 * 14, SysRun: sysNext, Run: checkGetNext})
	register(&Prop{ID: "C18", Rule: "2 to 5 goroutines run 1 to 5 operations each on 11 OIDs at once, under the race detector; the recorded history, final state included, is searched for a linearization against the sequential model. Enumerated storms: 4 goroutines add and remove the same OID at once, 400 rounds, with a reader alongside; one goroutine repeats a known sequence of changes 3000 steps long while 4 others query, each answer being that of a state the tree was in during the query. Non-trivial: operations overlapped.",
		Quick: 48000, Thorough: 400000, Sys: 8 + 100, SysThorough: 40 + 1000, SysRun: func(t *T, i int) {
			if i%13 == 0 {
				checkStorm(t, i/13)
			} else {
				checkOneWriter(t, i-1-i/13)
			}
		}, Workers: 3, Race: true, Schedule: true, Run: checkConcurrentTree,
		Assume: []string{"interleavings are those the Go scheduler produces on this machine", "operations that have not all returned after 20 s (50 s in a storm) are taken as deadlocked"}})
	register(&Prop{ID: "C25", Rule: "The predefined names are compared with the table of the standards (enumerated), and 1 to 4 user names are registered per case, printed, parsed and sent in every place of a PDU that carries an OID. Every case is non-trivial.",
		Quick: 60000, Thorough: 400000, Workers: 1, Sys: 1 + len(mibNames),
		SysRun: func(t *T, i int) {
			t.NonTrivial()
			checkNames(t)
			if i == 0 {
				t.KeyString("all")
				t.Sample(func() string { return "the whole table" })
				return
			}
			var names []string
			for n := range mibNames {
				names = append(names, n)
			}
			sort.Strings(names)
			n := names[i-1]
			t.KeyString(n)
			t.Sample(func() string { return n + " = " + mibNames[n] })
			checkTransport(t, n, oid.Name[n])
			// memory of its own: names are registered below this one
			_ = append(oid.Name[n], 0xbad)
			checkNames(t)
			for _, k := range []uint32{0, 1, 2, 9, 255, 0xffffffff} {
				oid.Name["verif-a"] = append(oid.Name[n], k)
				oid.Name["verif-b"] = append(oid.Name[n], k+1)
				a, b := oid.Name["verif-a"], oid.Name["verif-b"]
				delete(oid.Name, "verif-a")
				delete(oid.Name, "verif-b")
				if a[len(a)-1] != k || b[len(b)-1] != k+1 {
					t.Failf("two names registered below %s share memory", n)
				}
				checkNames(t)
			}
			_ = append(oid.Name[n], 0xbad, 0xbad, 0xbad)
			checkNames(t)
		},
		Run: checkUserNames})
}

const shortAlphabet = "019.-a"

var nShortTexts = 1 + 6 + 36 + 216 + 1296

func shortText(i int) string {
	n, c := 0, 1
	for i >= c {
		i -= c
		c *= 6
		n++
	}
	b := make([]byte, n)
	for k := range b {
		b[k] = shortAlphabet[i%6]
		i /= 6
	}
	return string(b)
}
