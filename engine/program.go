package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded source of the package under verification.
type Program struct {
	Dir       string
	Fset      *token.FileSet
	Pkg       *packages.Package
	SSA       *ssa.Package
	Prog      *ssa.Program
	Funcs     map[string]*ssa.Function // by contract key
	globIDs   map[string]int
	Tables    map[string]*Table // immutable constant globals
	mu        sync.Mutex
	leafs     map[string][]Leaf
	typeIDs   map[string]int
	idTypes   []types.Type
	C         *Contracts
	ufFacts   func(ts *TS, t *Term) []*Term
	elemTypes map[string]bool
}

// Table: constant array, or constant byte slice.
type Table struct {
	Name  string
	Elem  types.Type
	N     int
	Ints  map[int]int64
	Strs  map[int]string
	Bytes *string
	Bools map[int]bool
	Const *ssa.Const // a variable of a basic type
	Err   bool       // an error made by errors.New or fmt.Errorf
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedCompiledGoFiles | packages.NeedTypesSizes,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		return nil, fmt.Errorf("load: %v", pkgs[0].Errors)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	spkgs[0].Build()
	p := &Program{Dir: dir, Fset: pkgs[0].Fset, Pkg: pkgs[0], SSA: spkgs[0], Prog: prog,
		Funcs: map[string]*ssa.Function{}, Tables: map[string]*Table{}, leafs: map[string][]Leaf{}, typeIDs: map[string]int{}, idTypes: []types.Type{nil}}
	for _, m := range p.SSA.Members {
		switch x := m.(type) {
		case *ssa.Function:
			p.Funcs[x.Name()] = x
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn == nil || fn.Synthetic != "" || fn.Pkg != p.SSA {
						continue
					}
					p.Funcs[p.funcKey(fn)] = fn
				}
			}
		}
	}
	p.loadTables()
	p.ufFacts = p.ifaceFacts
	p.typeIDs = map[string]int{}
	// deterministic ids for all named types of the package
	names := p.Pkg.Types.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		if tn, ok := p.Pkg.Types.Scope().Lookup(n).(*types.TypeName); ok {
			p.typeID(tn.Type())
			p.typeID(types.NewPointer(tn.Type()))
		}
	}
	return p, nil
}

func (p *Program) funcKey(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		return p.tkey(t) + "." + fn.Name()
	}
	return fn.Name()
}

func (p *Program) tkey(t types.Type) string {
	return types.TypeString(t, func(q *types.Package) string {
		if q == p.Pkg.Types {
			return ""
		}
		return q.Path()
	})
}

// idType: the type with the given number.
func (p *Program) idType(id int) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.idTypes[id]
}

func (p *Program) typeID(t types.Type) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	k := p.tkey(t)
	if id, ok := p.typeIDs[k]; ok {
		return id
	}
	p.typeIDs[k] = len(p.idTypes)
	p.idTypes = append(p.idTypes, t)
	return p.typeIDs[k]
}

// globID numbers package-level variables.
func (p *Program) globID(name string) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.globIDs == nil {
		p.globIDs = map[string]int{}
	}
	if _, ok := p.globIDs[name]; !ok {
		p.globIDs[name] = len(p.globIDs) + 1
	}
	return p.globIDs[name]
}

// loadTables finds package-level variables whose initialiser is a constant
// table and which no function of the package stores to (or takes the address
// of other than to read an element).
func (p *Program) loadTables() {
	written := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if fn.Pkg != p.SSA || fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, o := range ops {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.IndexAddr:
						ok := true
						for _, r := range *x.Referrers() {
							if u, isU := r.(*ssa.UnOp); !isU || u.Op != token.MUL {
								ok = false
							}
						}
						if ok {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					written[g] = true
				}
			}
		}
	}
	info := p.Pkg.TypesInfo
	for _, init := range info.InitOrder {
		if len(init.Lhs) != 1 {
			continue
		}
		v := init.Lhs[0]
		g, _ := p.SSA.Members[v.Name()].(*ssa.Global)
		if g == nil || written[g] {
			continue
		}
		if t := p.constTable(v, init.Rhs); t != nil {
			p.Tables[v.Name()] = t
		}
	}
}

func (p *Program) constTable(v *types.Var, e ast.Expr) *Table {
	info := p.Pkg.TypesInfo
	if tv := info.Types[e]; tv.Value != nil {
		if _, ok := v.Type().Underlying().(*types.Basic); ok {
			return &Table{Name: v.Name(), Elem: v.Type(), N: 1, Const: ssa.NewConst(tv.Value, v.Type())}
		}
		return nil
	}
	if c, ok := e.(*ast.CallExpr); ok && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
		if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
			if f, ok := info.Uses[sel.Sel].(*types.Func); ok && (f.FullName() == "errors.New" || f.FullName() == "fmt.Errorf") {
				return &Table{Name: v.Name(), Elem: v.Type(), N: 1, Err: true}
			}
		}
		return nil
	}
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if st, ok := v.Type().Underlying().(*types.Slice); ok {
			if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				if tv := info.Types[c.Args[0]]; tv.Value != nil && tv.Value.Kind() == constant.String {
					s := constant.StringVal(tv.Value)
					return &Table{Name: v.Name(), Elem: st.Elem(), N: len(s), Bytes: &s}
				}
			}
		}
		return nil
	}
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return nil
	}
	at, ok := v.Type().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	t := &Table{Name: v.Name(), Elem: at.Elem(), N: int(at.Len()), Ints: map[int]int64{}, Strs: map[int]string{}, Bools: map[int]bool{}}
	next := 0
	for _, el := range cl.Elts {
		val := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			k := info.Types[kv.Key]
			if k.Value == nil {
				return nil
			}
			i, ok := constant.Int64Val(constant.ToInt(k.Value))
			if !ok {
				return nil
			}
			next = int(i)
			val = kv.Value
		}
		tv := info.Types[val]
		if tv.Value == nil {
			return nil
		}
		switch tv.Value.Kind() {
		case constant.Int:
			i, ok := constant.Int64Val(tv.Value)
			if !ok {
				return nil
			}
			t.Ints[next] = i
		case constant.String:
			t.Strs[next] = constant.StringVal(tv.Value)
		case constant.Bool:
			t.Bools[next] = constant.BoolVal(tv.Value)
		default:
			return nil
		}
		next++
	}
	return t
}

// lookup builds the term for t[i] as a chain of range tests.
func (t *Table) lookup(ts *TS, i *Term) *Term {
	isStr := false
	if b, ok := t.Elem.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	isBool := false
	if b, ok := t.Elem.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		isBool = true
	}
	val := func(k int) *Term {
		if isStr {
			return ts.Str(t.Strs[k])
		}
		if isBool {
			return ts.Bool(t.Bools[k])
		}
		return ts.Int(t.Ints[k])
	}
	if i.isLit() {
		return val(int(i.int()))
	}
	// ranges of equal values
	var r *Term
	dflt := ts.Int(0)
	if isStr {
		dflt = ts.Str("")
	}
	if isBool {
		dflt = ts.Bool(false)
	}
	r = dflt
	for k := t.N - 1; k >= 0; {
		v := val(k)
		j := k
		for j > 0 && val(j-1) == v {
			j--
		}
		if v != dflt {
			var c *Term
			if j == k {
				c = ts.Eq(i, ts.Int(int64(k)))
			} else {
				c = ts.And(ts.Le(ts.Int(int64(j)), i), ts.Le(i, ts.Int(int64(k))))
			}
			r = ts.Ite(c, v, r)
		}
		k = j - 1
	}
	return r
}

// ---- leaves

type Leaf struct {
	Path string
	Sort Sort
	Kind string // "", "base","off","len","cap","ref","idx","iface"
	Type types.Type
}

func (p *Program) leaves(t types.Type) []Leaf {
	k := p.tkey(t)
	p.mu.Lock()
	l, ok := p.leafs[k]
	p.mu.Unlock()
	if ok {
		return l
	}
	l = p.mkLeaves(t, "")
	p.mu.Lock()
	p.leafs[k] = l
	p.mu.Unlock()
	return l
}

const maxArr = 4

func (p *Program) mkLeaves(t types.Type, path string) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return []Leaf{{path, SStr, "", t}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{path, SBool, "", t}}
		}
		return []Leaf{{path, SInt, "", t}}
	case *types.Struct:
		if !p.ownStruct(t) {
			return []Leaf{{path, SInt, "", t}}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, p.mkLeaves(u.Field(i).Type(), path+"."+u.Field(i).Name())...)
		}
		return out
	case *types.Pointer:
		return []Leaf{{path + "#ref", SInt, "ref", t}, {path + "#idx", SInt, "idx", t}}
	case *types.Slice:
		return []Leaf{{path + "#base", SInt, "base", t}, {path + "#off", SInt, "off", t}, {path + "#len", SInt, "len", t}, {path + "#cap", SInt, "cap", t}}
	case *types.Array:
		if u.Len() <= maxArr {
			var out []Leaf
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, p.mkLeaves(u.Elem(), fmt.Sprintf("%s[%d]", path, i))...)
			}
			return out
		}
		return []Leaf{{path, SInt, "opaque", t}}
	case *types.Interface:
		return []Leaf{{path, SInt, "iface", t}}
	}
	return []Leaf{{path, SInt, "opaque", t}}
}

// ownStruct: struct types declared in the package under verification (or
// unnamed) are modelled field by field, foreign ones are opaque.
func (p *Program) ownStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() == p.Pkg.Types
	}
	return true
}

func (p *Program) pos(x token.Pos) string {
	ps := p.Fset.Position(x)
	f := ps.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
