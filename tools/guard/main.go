// Command guard lists changes of Go files that take effect only when two (or
// two pairs of) values in scope are in a relation, as JSON lines. It is run in
// the repository: guard SEED N RELATIONS DIR...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File     string
	Off, End int
	New      string
	Desc     string
	Append   string
}

const helper = `
func vguard[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](g bool, v T) T {
	if g {
		return v ^ 1
	}
	return v
}
`

const helperPrev = `
var vprevValue int64 = 77777

func vprev(y, x int64) bool {
	r := vprevValue == x
	vprevValue = y
	return r
}
`

const helperAt = `
func vat[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](s []T, k int) int64 {
	if k < 0 {
		k += len(s)
	}
	if k < 0 || k >= len(s) {
		return -5
	}
	return int64(s[k])
}
`

// elems: elements of slices and strings take part.
var elems = os.Getenv("GUARD_ELEMS") != ""

// state: a relation between a value and one of the time before.
var state = os.Getenv("GUARD_STATE") != ""

var rnd *rand.Rand

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// exprs lists integer expressions over v.
func exprs(v string, t types.Type, pkg *types.Package, depth int) (l []string) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			l = append(l, "int64("+v+")")
		}
		if u.Info()&types.IsString != 0 {
			if l = append(l, "int64(len("+v+"))"); elems {
				l = append(l, "vat([]byte("+v+"), 0)", "vat([]byte("+v+"), 1)", "vat([]byte("+v+"), -1)")
			}
		}
	case *types.Slice:
		if l = append(l, "int64(len("+v+"))"); elems && isInt(u.Elem()) {
			l = append(l, "vat("+v+", 0)", "vat("+v+", 1)", "vat("+v+", 3)", "vat("+v+", -1)")
		}
	case *types.Array:
		if isInt(u.Elem()) {
			l = append(l, "int64("+v+"[0])", fmt.Sprintf("int64(%s[%d])", v, u.Len()-1))
		}
	case *types.Pointer:
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && depth < 2 {
			l = append(l, exprs(v, s, pkg, depth)...)
		}
	case *types.Struct:
		if depth < 2 {
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if f.Exported() || f.Pkg() == pkg {
					if _, ok := f.Type().Underlying().(*types.Pointer); ok {
						continue
					}
					l = append(l, exprs(v+"."+f.Name(), f.Type(), pkg, depth+1)...)
				}
			}
		}
	}
	return
}

func main() {
	seed, _ := strconv.Atoi(os.Args[1])
	n, _ := strconv.Atoi(os.Args[2])
	rels, _ := strconv.Atoi(os.Args[3])
	rnd = rand.New(rand.NewSource(int64(seed)))
	var all []mutant
	for _, dir := range os.Args[4:] {
		fs := token.NewFileSet()
		pkgs, err := parser.ParseDir(fs, dir, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
		if err != nil {
			panic(err)
		}
		for _, p := range pkgs {
			var files []*ast.File
			for _, f := range p.Files {
				files = append(files, f)
			}
			info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Scopes: map[ast.Node]*types.Scope{}}
			conf := types.Config{Importer: importer.ForCompiler(fs, "source", nil)}
			pkg, err := conf.Check("github.com/alexispb/mygosnmp/"+dir, fs, files, info)
			if err != nil {
				panic(err)
			}
			for name, f := range p.Files {
				all = append(all, fileMutants(fs, name, f, pkg, info, rels)...)
			}
		}
	}
	// sorted by nothing in particular: map order; make it stable
	sortMutants(all)
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if n > 0 && n < len(all) {
		all = all[:n]
	}
	enc := json.NewEncoder(os.Stdout)
	for _, m := range all {
		enc.Encode(m)
	}
}

func sortMutants(l []mutant) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && (l[j].File < l[j-1].File || l[j].File == l[j-1].File && l[j].Off < l[j-1].Off); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func fileMutants(fs *token.FileSet, name string, file *ast.File, pkg *types.Package, info *types.Info, rels int) (res []mutant) {
	src, _ := os.ReadFile(name)
	name = filepath.ToSlash(name)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	results := map[*types.Var]bool{}
	for _, d := range file.Decls {
		if f, ok := d.(*ast.FuncDecl); ok && f.Type.Results != nil {
			for _, r := range f.Type.Results.List {
				for _, nm := range r.Names {
					if v, ok := info.Defs[nm].(*types.Var); ok {
						results[v] = true
					}
				}
			}
		}
	}
	inScope := func(pos token.Pos) (l []string) {
		sc := pkg.Scope().Innermost(pos)
		seen := map[string]bool{}
		for ; sc != nil && sc != pkg.Scope() && sc.Parent() != pkg.Scope(); sc = sc.Parent() {
			for _, nm := range sc.Names() {
				o, ok := sc.Lookup(nm).(*types.Var)
				if !ok || seen[nm] || nm == "_" || o.Pos() >= pos {
					continue
				}
				seen[nm] = true
				if results[o] {
					continue
				}
				l = append(l, exprs(nm, o.Type(), pkg, 0)...)
			}
		}
		return
	}
	guard := func(pos token.Pos) string {
		l := inScope(pos)
		if len(l) < 2 {
			return ""
		}
		var gs []string
		for k := 0; k < rels; k++ {
			i := rnd.Intn(len(l))
			j := rnd.Intn(len(l) - 1)
			if j >= i {
				j++
			}
			a, b := l[i], l[j]
			if state {
				gs = append(gs, "vprev("+a+", "+b+")")
				continue
			}
			switch rnd.Intn(6) {
			case 0:
				gs = append(gs, a+" == "+b+"+1")
			case 1:
				gs = append(gs, "uint8("+a+") == uint8("+b+")")
			case 2:
				gs = append(gs, a+" == 2*"+b)
			default:
				gs = append(gs, a+" == "+b)
			}
		}
		return strings.Join(gs, " && ")
	}
	emit := func(n ast.Node, s, d, app string) {
		if state {
			app += helperPrev
		}
		if elems {
			if !strings.Contains(s, "vat(") {
				return // one of the other kind
			}
			app += helperAt
		}
		res = append(res, mutant{name, off(n.Pos()), off(n.End()), s, fmt.Sprintf("%s:%d %s", name, fs.Position(n.Pos()).Line, d), app})
	}
	var fn *ast.FuncDecl
	for _, d := range file.Decls {
		f, ok := d.(*ast.FuncDecl)
		if _, isGen := d.(*ast.GenDecl); !ok && !isGen {
			continue
		}
		fn = f
		_ = fn
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					if g := guard(x.Pos()); g != "" {
						emit(x, "if !("+g+") {\n"+text(x)+"\n}", "not if "+g+": "+text(x), "")
					}
				}
			case *ast.IncDecStmt:
				// a skipped step of a loop hangs
			case *ast.ExprStmt:
				if strings.Contains(text(x), "log.Write") || strings.Contains(text(x), ".Grow(") {
					return true
				}
				if g := guard(x.Pos()); g != "" {
					emit(x, "if !("+g+") {\n"+text(x)+"\n}", "not if "+g+": "+text(x), "")
				}
			case *ast.IfStmt:
				if g := guard(x.Body.Pos()); g != "" {
					emit(x.Cond, "("+text(x.Cond)+") != ("+g+")", "other way if "+g+": "+text(x.Cond), "")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if t := info.Types[x.Results[0]]; t.Type != nil {
						b, ok := t.Type.Underlying().(*types.Basic)
						if g := guard(x.Pos()); g != "" && ok && b.Info()&types.IsBoolean != 0 {
							emit(x.Results[0], "("+text(x.Results[0])+") != ("+g+")", "other way if "+g+": "+text(x), "")
						}
					}
				}
			case *ast.CallExpr:
				if c := text(x.Fun); strings.Contains(c, "Writef") || strings.HasSuffix(c, "rintf") || strings.HasSuffix(c, "Errorf") || strings.HasSuffix(c, "Grow") {
					return false
				}
				for _, a := range x.Args {
					t := info.Types[a]
					if t.Type == nil || t.Value != nil || !t.IsValue() || !isInt(t.Type) {
						continue
					}
					if g := guard(x.Pos()); g != "" && !strings.HasPrefix(text(x), "make(") {
						emit(a, "vguard("+g+", "+text(a)+")", "flipped if "+g+": "+text(a)+" in "+text(x), helper)
					}
				}
			}
			return true
		})
	}
	return
}
