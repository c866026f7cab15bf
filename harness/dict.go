package main

import (
	_ "embed"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// dictInts and dictStrings hold the literals found in the repository's
// non-test sources (a fuzzing dictionary): comparisons against magic lengths
// or values are then hit by construction instead of by luck.
//
// freshInts and freshStrings hold those that occur more often than in the
// tree the harness was made for (dict_base.json): what a change brought in is
// where a mistake is most likely, so half of the generated cases prefer them.
// Both only steer generation; no oracle looks at the sources.
var (
	dictInts     []uint64
	dictStrings  []string
	freshInts    []uint64
	freshStrings []string
	// sequences of numbers (composite literals), and numbers compared with
	// an element at a constant index
	freshSeqs [][]uint64
	freshAt   [][2]uint64
)

//go:embed dict_base.json
var dictBase []byte

type literals struct {
	Ints    map[string]int `json:"ints"`
	Strings map[string]int `json:"strings"`
	Seqs    map[string]int `json:"seqs"`
	At      map[string]int `json:"at"`
}

var mathConsts = map[string]uint64{"MaxInt8": math.MaxInt8, "MaxUint8": math.MaxUint8, "MaxInt16": math.MaxInt16, "MaxUint16": math.MaxUint16, "MaxInt32": math.MaxInt32,
	"MaxUint32": math.MaxUint32, "MaxInt64": math.MaxInt64, "MaxUint64": math.MaxUint64, "MinInt8": 1 << 7, "MinInt16": 1 << 15, "MinInt32": 1 << 31, "MinInt64": 1 << 63}

// findLiterals counts the literals of all non-test sources.
func findLiterals(repo string) literals {
	l := literals{map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}}
	addInt := func(v uint64) { l.Ints[strconv.FormatUint(v, 10)]++ }
	fset := token.NewFileSet()
	filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); n != "." && strings.HasPrefix(n, ".") && path != repo {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(fset, path, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64); err == nil {
						addInt(v)
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\''); err == nil && v < 256 {
						addInt(uint64(v))
					}
				case token.STRING:
					if v, err := strconv.Unquote(x.Value); err == nil && len(v) <= 24 {
						l.Strings[v]++
					}
				}
			case *ast.SelectorExpr:
				if p, ok := x.X.(*ast.Ident); ok && p.Name == "math" {
					if v, ok := mathConsts[x.Sel.Name]; ok {
						addInt(v)
					}
				}
			case *ast.BinaryExpr:
				// constant shifts and products such as 1<<12, 4*8, 0xFF+1
				if v, ok := constVal(x); ok {
					addInt(v)
				}
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					for _, p := range [][2]ast.Expr{{x.X, x.Y}, {x.Y, x.X}} {
						if e, ok := p[0].(*ast.IndexExpr); ok {
							i, ok1 := constVal(e.Index)
							v, ok2 := constVal(p[1])
							if ok1 && ok2 && i < 300 {
								l.At[joinInts(i, v)]++
							}
						}
					}
				}
			case *ast.CompositeLit:
				var s []uint64
				for _, e := range x.Elts {
					v, ok := constVal(e)
					if !ok {
						s = nil
						break
					}
					s = append(s, v)
				}
				if len(s) > 1 && len(s) < 140 {
					l.Seqs[joinInts(s...)]++
				}
			}
			return true
		})
		return nil
	})
	return l
}

func loadDict(repo string) {
	var base literals
	if err := json.Unmarshal(dictBase, &base); err != nil {
		panic(err)
	}
	dictInts, dictStrings, freshInts, freshStrings = nil, nil, nil, nil
	l := findLiterals(repo)
	for s, n := range l.Ints {
		v, _ := strconv.ParseUint(s, 10, 64)
		dictInts = append(dictInts, v)
		if n > base.Ints[s] {
			freshInts = append(freshInts, v)
		}
	}
	for s, n := range l.Strings {
		dictStrings = append(dictStrings, s)
		if n > base.Strings[s] {
			freshStrings = append(freshStrings, s)
		}
	}
	freshSeqs, freshAt = nil, nil
	for _, s := range sortedKeys(l.Seqs) {
		if l.Seqs[s] > base.Seqs[s] {
			freshSeqs = append(freshSeqs, splitInts(s))
		}
	}
	for _, s := range sortedKeys(l.At) {
		if l.At[s] > base.At[s] {
			freshAt = append(freshAt, [2]uint64(splitInts(s)))
		}
	}
	for _, l := range []*[]uint64{&dictInts, &freshInts} {
		sort.Slice(*l, func(i, j int) bool { return (*l)[i] < (*l)[j] })
	}
	sort.Strings(dictStrings)
	sort.Strings(freshStrings)
	if len(dictInts) == 0 {
		dictInts = []uint64{0}
	}
	if len(dictStrings) == 0 {
		dictStrings = []string{""}
	}
}

func joinInts(l ...uint64) string {
	var b []string
	for _, v := range l {
		b = append(b, strconv.FormatUint(v, 10))
	}
	return strings.Join(b, ",")
}

func splitInts(s string) (l []uint64) {
	for _, x := range strings.Split(s, ",") {
		v, _ := strconv.ParseUint(x, 10, 64)
		l = append(l, v)
	}
	return
}

func sortedKeys(m map[string]int) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// plant puts fresh sequences and elements into a list of n numbers.
func (g *G) plant(n int, set func(i int, v uint64)) {
	if len(freshSeqs) > 0 && g.Bool() {
		for i, v := range freshSeqs[g.Draw(uint64(len(freshSeqs)))] {
			if i < n {
				set(i, v)
			}
		}
		if g.Bool() {
			return
		}
	}
	all := g.Chance(1, 3)
	for _, p := range freshAt {
		if int(p[0]) < n && (all || g.Chance(3, 4)) {
			v := p[1]
			if g.Chance(1, 8) {
				v += g.Draw(3) - 1
			}
			set(int(p[0]), v)
		}
	}
}

// plantNow: in a focused case, one in n.
func (g *G) plantNow(n int) bool { return g.focus && len(freshSeqs)+len(freshAt) > 0 && g.Chance(1, n) }

func constVal(e ast.Expr) (uint64, bool) {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT {
			v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64)
			return v, err == nil
		}
		if x.Kind == token.CHAR {
			v, _, _, err := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\'')
			return uint64(v), err == nil
		}
	case *ast.ParenExpr:
		return constVal(x.X)
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "math" {
			v, ok := mathConsts[x.Sel.Name]
			return v, ok
		}
	case *ast.BinaryExpr:
		a, ok1 := constVal(x.X)
		b, ok2 := constVal(x.Y)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch x.Op {
		case token.ADD:
			return a + b, true
		case token.SUB:
			return a - b, true
		case token.MUL:
			return a * b, true
		case token.QUO:
			if b != 0 {
				return a / b, true
			}
		case token.SHL:
			if b < 64 {
				return a << b, true
			}
		case token.SHR:
			if b < 64 {
				return a >> b, true
			}
		case token.OR:
			return a | b, true
		}
	}
	return 0, false
}

// hot draws a number from the fresh literals, as it is, one off, or a
// multiple.
func (g *G) hot() uint64 {
	v := freshInts[g.Draw(uint64(len(freshInts)))]
	switch g.Draw(8) {
	case 1:
		v++
	case 2:
		v--
	case 3:
		v *= g.Draw(5) + 2
	case 4:
		v += g.Draw(8)
	}
	return v
}

// hotNow: in a focused case, one in n.
func (g *G) hotNow(n int) bool { return g.focus && len(freshInts) > 0 && g.Chance(1, n) }
