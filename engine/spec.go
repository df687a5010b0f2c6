package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	goprinter "go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Expr  ast.Expr
	Src   string
	Tags  []string
	Label string
	Owner string
}

type ModItem struct {
	Kind string // loc, elems, heap, ghost
	Expr ast.Expr
	Lo   ast.Expr
	Src  string
	Cond ast.Expr
}

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []ModItem
	Lets     []LetDef
	Binds    []LetDef // a pointer parameter that is always the address of this place
	Trusted  bool
	Iface    bool
	Surface  bool
	Panics   *Clause
	OnPanic  []*Clause
	ModAll   bool
	Tags     []string
	Logged   *ast.CallExpr // the call is recorded in the trace as this step
	Snaps    []*Define     // what is named after the step
	Like     string        // takes over the clauses of this contract
	Then     string        // the contract speaks of a call of this function result
	ThenArgs []Param
	LikeTags []string
	File     string
	Defines  []*Define
}

// Define names the outcome of a function that depends on its arguments only.
type Define struct {
	Name string
	Head *ast.CallExpr
	Expr ast.Expr
}

// Owns: only these functions write these fields.
type Owns struct {
	Type   string
	Fields []string
	By     map[string]bool
	Tags   []string
}

type LetDef struct {
	Name string
	Expr ast.Expr
}

type Macro struct {
	Name   string
	Params []string
	Expr   ast.Expr
}

type Param struct{ Name, Type string }

type RecDef struct {
	Name   string
	Params []Param
	Ret    Sort
	Dir    string
	Shift  bool
	All    bool // a conjunction over 0..i: holds at every smaller index
	Expr   ast.Expr
}

// checkAll: the function is literally "i < 0 || (P && self(.., i - 1, ..))",
// so it is closed under smaller indices.
func (r *RecDef) checkAll() {
	bad := func() { panic("rec " + r.Name + " is not of the shape i < 0 || (P && self(i - 1))") }
	str := func(e ast.Expr) string {
		var b strings.Builder
		goprinter.Fprint(&b, token.NewFileSet(), e)
		return strings.ReplaceAll(b.String(), " ", "")
	}
	strip := func(e ast.Expr) ast.Expr {
		for {
			q, ok := e.(*ast.ParenExpr)
			if !ok {
				return e
			}
			e = q.X
		}
	}
	idx := -1
	for k, p := range r.Params {
		if p.Type == "int" && p.Name == "i" {
			idx = k
		}
	}
	or, ok := strip(r.Expr).(*ast.BinaryExpr)
	if !ok || or.Op != token.LOR || idx < 0 || str(strip(or.X)) != "i<0" {
		bad()
	}
	and, ok := strip(or.Y).(*ast.BinaryExpr)
	if !ok || and.Op != token.LAND {
		bad()
	}
	call, ok := strip(and.Y).(*ast.CallExpr)
	if !ok || str(call.Fun) != r.Name || len(call.Args) != len(r.Params) {
		bad()
	}
	for k, a := range call.Args {
		w := r.Params[k].Name
		if k == idx {
			w = "i-1"
		}
		if str(a) != w {
			bad()
		}
	}
}

type InvDef struct {
	Params []Param
	Expr   ast.Expr
	Src    string
	File   string
}

type Lemma struct {
	Name   string
	Tags   []string
	Params []Param
	Assume []ast.Expr
	Show   []ast.Expr
}

type Contracts struct {
	Funcs     map[string]*Contract
	Macros    map[string]*Macro
	Recs      map[string]*RecDef
	RecOrder  []string
	Invs      []*InvDef
	Lemmas    []*Lemma
	Owns      []*Owns
	SafetyTag string
	Traces    bool
	Words     map[string]bool
	Defs      map[string]bool
	Blocks    map[string][]string
	Zero      map[string][]string // type -> fields that are zero in interface values
}

func parseExpr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Sprintf("contract expression %q: %v", s, err))
	}
	return e
}

func splitParams(s string) []Param {
	var out []Param
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, p := range strings.Split(s, ",") {
		f := strings.Fields(p)
		if len(f) == 1 {
			out = append(out, Param{f[0], ""})
		} else {
			out = append(out, Param{f[0], strings.Join(f[1:], " ")})
		}
	}
	return out
}

func LoadContracts(dir string) (*Contracts, error) {
	c := &Contracts{Funcs: map[string]*Contract{}, Macros: map[string]*Macro{}, Recs: map[string]*RecDef{}, SafetyTag: "C18", Words: map[string]bool{}, Defs: map[string]bool{}, Blocks: map[string][]string{}, Zero: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		c.parse(f, string(b))
	}
	for k, ct := range c.Funcs {
		if ct.Like == "" {
			continue
		}
		o := c.Funcs[ct.Like]
		if o == nil || o.Like != "" {
			panic("no contract " + ct.Like + " for " + k)
		}
		ct.Requires = append(ct.Requires, o.Requires...)
		ct.Ensures = append(ct.Ensures, o.Ensures...)
		ct.Modifies = append(ct.Modifies, o.Modifies...)
		ct.Lets = append(ct.Lets, o.Lets...)
		ct.Tags = append(ct.Tags, o.Tags...)
	}
	return c, nil
}

func balanced(s string) bool {
	d := 0
	in := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if in != 0 {
			if ch == '\\' && in != '`' {
				i++
			} else if ch == in {
				in = 0
			}
			continue
		}
		switch ch {
		case '"', '`':
			in = ch
		case '\'':
			in = ch
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	return d <= 0
}

func (c *Contracts) parse(file, src string) {
	for _, w := range strings.FieldsFunc(src, func(r rune) bool {
		return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
	}) {
		c.Words[w] = true
	}
	var lines []string
	var nums []int
	cur := ""
	start := 0
	for n, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if cur == "" && (t == "" || strings.HasPrefix(t, "#")) {
			continue
		}
		if strings.HasPrefix(t, "#") {
			continue
		}
		if cur == "" {
			cur = strings.TrimRight(l, " ")
			start = n + 1
		} else {
			cur += " " + t
		}
		if balanced(cur) && !strings.HasSuffix(cur, "&&") && !strings.HasSuffix(cur, "||") && !strings.HasSuffix(cur, "=") && !strings.HasSuffix(cur, ":") && !strings.HasSuffix(cur, "+") {
			lines = append(lines, cur)
			nums = append(nums, start)
			cur = ""
		}
	}
	if cur != "" {
		panic(file + ": unterminated: " + cur)
	}
	// named blocks of clauses, spliced where they are used
	{
		var l2 []string
		var n2 []int
		in := ""
		for i, l := range lines {
			indented := l[0] == ' ' || l[0] == '\t'
			f := strings.Fields(l)
			if !indented {
				in = ""
				if f[0] == "block" {
					in = f[1]
					c.Blocks[in] = []string{}
					continue
				}
			}
			if in != "" {
				c.Blocks[in] = append(c.Blocks[in], l)
				continue
			}
			if indented && f[0] == "use" {
				b, ok := c.Blocks[f[1]]
				if !ok {
					panic(fmt.Sprintf("%s:%d: unknown block %s", filepath.Base(file), nums[i], f[1]))
				}
				for _, x := range b {
					l2 = append(l2, x)
					n2 = append(n2, nums[i])
				}
				continue
			}
			l2 = append(l2, l)
			n2 = append(n2, nums[i])
		}
		lines, nums = l2, n2
	}
	var ct *Contract
	var lm *Lemma
	for i, l := range lines {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s:%d: %v", filepath.Base(file), nums[i], r))
				}
			}()
			indented := l[0] == ' ' || l[0] == '\t'
			l = strings.TrimSpace(l)
			word := l
			rest := ""
			if j := strings.IndexAny(l, " \t["); j >= 0 {
				word = l[:j]
				rest = strings.TrimSpace(l[j:])
			}
			if !indented {
				ct, lm = nil, nil
				switch word {
				case "def":
					j := strings.Index(rest, "=")
					// first '=' after the closing paren of the parameter list
					p := strings.Index(rest, ")")
					j = p + strings.Index(rest[p:], "=")
					head, body := rest[:j], rest[j+1:]
					nm := strings.TrimSpace(head[:strings.Index(head, "(")])
					ps := splitParams(head[strings.Index(head, "(")+1 : strings.LastIndex(head, ")")])
					m := &Macro{Name: nm, Expr: parseExpr(body)}
					for _, p := range ps {
						m.Params = append(m.Params, p.Name)
					}
					c.Macros[nm] = m
				case "rec":
					p := strings.Index(rest, ")")
					q := p + strings.Index(rest[p:], "=")
					head, body := rest[:q], rest[q+1:]
					nm := strings.TrimSpace(head[:strings.Index(head, "(")])
					ps := splitParams(head[strings.Index(head, "(")+1 : p])
					tail := strings.Fields(head[p+1:])
					r := &RecDef{Name: nm, Params: ps, Expr: parseExpr(body)}
					switch tail[0] {
					case "string":
						r.Ret = SStr
					case "int":
						r.Ret = SInt
					case "bool":
						r.Ret = SBool
					}
					for _, f := range tail[1:] {
						if f == "shift" {
							r.Shift = true
						} else if f == "all" {
							r.All = true
						} else {
							r.Dir = f
						}
					}
					if r.All {
						r.checkAll()
					}
					c.Recs[nm] = r
					c.RecOrder = append(c.RecOrder, nm)
				case "inv":
					p := strings.Index(rest, "):")
					c.Invs = append(c.Invs, &InvDef{Params: splitParams(rest[1:p]), Expr: parseExpr(rest[p+2:]), Src: l, File: file})
				case "func", "iface", "trusted", "erased":
					ct = &Contract{File: file}
					ct.Iface = word == "iface" || word == "erased"
					ct.Trusted = word == "trusted" || word == "erased"
					// key(params) (results)
					r := rest
					if strings.HasSuffix(r, " surface") {
						ct.Surface = true
						r = strings.TrimSpace(strings.TrimSuffix(r, " surface"))
					}
					k := strings.Index(r, " (")
					ct.Key = strings.TrimSpace(r[:k])
					r = strings.TrimSpace(r[k:])
					e := strings.Index(r, ")")
					for _, p := range splitParams(r[1:e]) {
						ct.Params = append(ct.Params, p.Name)
					}
					r = strings.TrimSpace(r[e+1:])
					if r != "" {
						for _, p := range splitParams(strings.Trim(r, "()")) {
							ct.Results = append(ct.Results, p.Name)
						}
					}
					if c.Funcs[ct.Key] != nil {
						panic("duplicate contract " + ct.Key)
					}
					c.Funcs[ct.Key] = ct
				case "lemma":
					tags, lab, r := splitTags(rest)
					_ = lab
					p := strings.Index(r, "(")
					q := strings.LastIndex(r, ")")
					lm = &Lemma{Name: strings.TrimSpace(r[:p]), Tags: tags, Params: splitParams(r[p+1 : q])}
					c.Lemmas = append(c.Lemmas, lm)
				case "zeropayload":
					f := strings.Fields(rest)
					c.Zero[f[0]] = append(c.Zero[f[0]], f[1:]...)
				case "owns":
					f := strings.Fields(rest)
					o := &Owns{Type: f[0], By: map[string]bool{}}
					j := 1
					for ; f[j] != "by"; j++ {
						o.Fields = append(o.Fields, f[j])
					}
					for _, x := range f[j+1:] {
						if strings.HasPrefix(x, "[") {
							o.Tags = append(o.Tags, strings.Trim(x, "[]"))
							continue
						}
						o.By[x] = true
					}
					c.Owns = append(c.Owns, o)
				case "fields", "traces":
					if word == "traces" {
						c.Traces = true
					}
				default:
					panic("unknown directive " + word)
				}
				return
			}
			if lm != nil {
				switch word {
				case "assume":
					lm.Assume = append(lm.Assume, parseExpr(rest))
				case "show":
					lm.Show = append(lm.Show, parseExpr(rest))
				default:
					panic("unknown lemma clause " + word)
				}
				return
			}
			if ct == nil {
				panic("clause outside a contract: " + l)
			}
			switch word {
			case "bind":
				j := strings.Index(rest, "=")
				ct.Binds = append(ct.Binds, LetDef{Name: strings.TrimSpace(rest[:j]), Expr: parseExpr(rest[j+1:])})
			case "requires":
				ct.Requires = append(ct.Requires, &Clause{Expr: parseExpr(rest), Src: rest, Owner: ct.Key})
			case "ensures", "panics", "onpanic":
				tags, lab, r := splitTags(rest)
				cl := &Clause{Expr: parseExpr(r), Src: r, Tags: tags, Label: lab, Owner: ct.Key}
				if cl.Label == "" {
					cl.Label = fmt.Sprintf("%d", len(ct.Ensures)+1)
				}
				switch word {
				case "ensures":
					ct.Ensures = append(ct.Ensures, cl)
				case "panics":
					ct.Panics = cl
				default:
					ct.OnPanic = append(ct.OnPanic, cl)
				}
			case "tags":
				ct.Tags = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			case "defines":
				j := strings.Index(rest, "=")
				d := &Define{Head: parseExpr(rest[:j]).(*ast.CallExpr), Expr: parseExpr(rest[j+1:])}
				d.Name = d.Head.Fun.(*ast.Ident).Name
				c.Defs[d.Name] = true
				ct.Defines = append(ct.Defines, d)
			case "logged":
				ct.Logged = parseExpr(rest).(*ast.CallExpr)
			case "snap":
				j := strings.Index(rest, "=")
				ct.Snaps = append(ct.Snaps, &Define{Name: strings.TrimSpace(rest[:j]), Expr: parseExpr(rest[j+1:])})
			case "like":
				ct.Like = rest
			case "then":
				p := strings.Index(rest, "(")
				ct.Then = strings.TrimSpace(rest[:p])
				ct.ThenArgs = splitParams(strings.Trim(rest[p:], "()"))
			case "let":
				j := strings.Index(rest, "=")
				ct.Lets = append(ct.Lets, LetDef{strings.TrimSpace(rest[:j]), parseExpr(rest[j+1:])})
			case "modifies":
				for _, it := range splitTop(rest) {
					ct.Modifies = append(ct.Modifies, parseMod(it))
				}
			default:
				panic("unknown clause " + word)
			}
		}()
	}
}

func splitTop(s string) []string {
	var out []string
	d, b := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[b:i]))
				b = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[b:]))
}

func parseMod(s string) ModItem {
	if i := strings.Index(s, " if "); i >= 0 {
		m := parseMod(strings.TrimSpace(s[:i]))
		m.Cond = parseExpr(s[i+4:])
		m.Src = s
		return m
	}
	switch {
	case strings.HasPrefix(s, "ioerr("):
		return ModItem{Kind: "ioerr", Expr: parseExpr(s[6 : len(s)-1]), Src: s}
	case strings.HasPrefix(s, "breaks("):
		return ModItem{Kind: "breaks", Expr: parseExpr(s[7 : len(s)-1]), Src: s}
	case strings.HasPrefix(s, "elems("):
		a := splitTop(s[len("elems(") : len(s)-1])
		return ModItem{Kind: "elems", Expr: parseExpr(a[0]), Lo: parseExpr(a[1]), Src: s}
	case strings.HasPrefix(s, "heap("):
		return ModItem{Kind: "heap", Expr: parseExpr(s[5 : len(s)-1]), Src: s}
	case strings.HasPrefix(s, "ghost("):
		return ModItem{Kind: "ghost", Expr: parseExpr(s[6 : len(s)-1]), Src: s}
	}
	return ModItem{Kind: "loc", Expr: parseExpr(s), Src: s}
}

func splitTags(s string) (tags []string, label, rest string) {
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		for _, f := range strings.FieldsFunc(s[1:j], func(r rune) bool { return r == ',' || r == ' ' }) {
			if len(f) >= 2 && f[0] == 'C' && f[1] >= '0' && f[1] <= '9' {
				tags = append(tags, f)
			} else {
				label = f
			}
		}
		s = strings.TrimSpace(s[j+1:])
	}
	return tags, label, s
}

// ---- evaluation

type evalCtx struct {
	ex       *Exec
	st       *State
	old      *State
	oldEnv   map[string]Val
	start    *State
	startEnv map[string]Val
	curEnv   map[string]Val
	env      map[string]Val
	callee   bool // a callee's postcondition, assumed by its caller
	depth    int
	rec      *RecFn // when evaluating a rec body
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (c *evalCtx) bind(extra map[string]Val) *evalCtx {
	n := *c
	n.env = make(map[string]Val, len(c.env)+len(extra))
	for k, v := range c.env {
		n.env[k] = v
	}
	for k, v := range extra {
		n.env[k] = v
	}
	return &n
}

func (ex *Exec) evalBool(c *evalCtx, e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		serr("not a boolean: %s", exprString(e))
	}
	return t
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

func (c *evalCtx) term(e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.(*Term)
	if !ok {
		serr("not a scalar: %s (%T)", exprString(e), v)
	}
	return t
}

func (c *evalCtx) eval(e ast.Expr) Val {
	v := c.eval0(e)
	if t, ok := v.(*Term); ok && t.op == "ite" {
		return c.st.simpIte(t)
	}
	return v
}

func (c *evalCtx) eval0(e ast.Expr) Val {
	ts := c.ex.ts
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				serr("int %s", x.Value)
			}
			return ts.Int(n)
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				serr("string %s", x.Value)
			}
			return ts.Str(s)
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(x.Value[1:len(x.Value)-1], '\'')
			return ts.Int(int64(r))
		}
	case *ast.Ident:
		if v, ok := c.env[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return ts.True
		case "false":
			return ts.False
		case "nil":
			return ts.Int(0)
		}
		if o := c.ex.prog.Pkg.Types.Scope().Lookup(x.Name); o != nil {
			if k, ok := o.(*types.Const); ok {
				switch k.Val().Kind() {
				case constant.Int:
					n, _ := constant.Int64Val(k.Val())
					return ts.Int(n)
				case constant.String:
					return ts.Str(constant.StringVal(k.Val()))
				}
			}
			if _, ok := o.(*types.Var); ok {
				if tb := c.ex.prog.Tables[x.Name]; tb != nil {
					return &PtrV{table: tb, base: ts.Int(1), idx: ts.Int(0)}
				}
			}
		}
		serr("unknown identifier %s", x.Name)
	case *ast.StarExpr:
		p, ok := c.eval(x.X).(*PtrV)
		if !ok {
			serr("deref of non-pointer %s", exprString(x.X))
		}
		return c.st.load(p)
	case *ast.SelectorExpr:
		return c.sel(c.eval(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		a := c.eval(x.X)
		i := c.term(x.Index)
		return c.index(a, i)
	case *ast.SliceExpr:
		s := c.term(x.X)
		lo, hi := ts.Int(0), ts.Len(s)
		if x.Low != nil {
			lo = c.term(x.Low)
		}
		if x.High != nil {
			hi = c.term(x.High)
		}
		return ts.Substr(s, lo, hi)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return ts.Not(c.term(x.X))
		case token.SUB:
			return ts.Sub(ts.Int(0), c.term(x.X))
		case token.AND:
			return c.lval(x.X)
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			a := c.term(x.X)
			if a == ts.False {
				return a
			}
			return ts.And(a, c.term(x.Y))
		case token.LOR:
			a := c.term(x.X)
			if a == ts.True {
				return a
			}
			return ts.Or(a, c.term(x.Y))
		case token.EQL, token.NEQ:
			a, b := c.eval(x.X), c.eval(x.Y)
			r := c.eq(a, b)
			if x.Op == token.NEQ {
				r = ts.Not(r)
			}
			return r
		}
		a, b := c.term(x.X), c.term(x.Y)
		switch x.Op {
		case token.ADD:
			if a.sort == SStr {
				return ts.Concat(a, b)
			}
			return ts.Add(a, b)
		case token.SUB:
			return ts.Sub(a, b)
		case token.MUL:
			return ts.Mul(a, b)
		case token.LSS:
			return ts.Lt(a, b)
		case token.LEQ:
			return ts.Le(a, b)
		case token.GTR:
			return ts.Lt(b, a)
		case token.GEQ:
			return ts.Le(b, a)
		case token.REM:
			if a.isLit() {
				return ts.Int(a.int() % b.int())
			}
			return ts.mk("mod", SInt, "", []*Term{a, b})
		case token.AND:
			return c.ex.bitand(c.st, a, b)
		}
	case *ast.CallExpr:
		return c.call(x)
	}
	serr("cannot evaluate %s", exprString(e))
	return nil
}

func (c *evalCtx) eq(a, b Val) *Term {
	ts := c.ex.ts
	if t, ok := a.(*Term); ok {
		if p, ok := b.(*PtrV); ok {
			return ts.Eq(t, p.base)
		}
		if s, ok := b.(*SliceV); ok {
			return ts.Eq(t, s.base)
		}
	}
	if t, ok := b.(*Term); ok {
		if p, ok := a.(*PtrV); ok {
			return ts.Eq(t, p.base)
		}
		if s, ok := a.(*SliceV); ok {
			return ts.Eq(t, s.base)
		}
	}
	if s, ok := a.(*SliceV); ok { // same view
		u := b.(*SliceV)
		return ts.And(ts.Eq(s.base, u.base), ts.Eq(s.off, u.off), ts.Eq(s.len, u.len))
	}
	if s, ok := a.(*StructV); ok {
		u := b.(*StructV)
		var cs []*Term
		for i := range s.f {
			cs = append(cs, c.eq(s.f[i], u.f[i]))
		}
		return ts.And(cs...)
	}
	if s, ok := a.(*ArrV); ok {
		u := b.(*ArrV)
		var cs []*Term
		for i := range s.f {
			cs = append(cs, c.eq(s.f[i], u.f[i]))
		}
		return ts.And(cs...)
	}
	return c.ex.eqVal(c.st, a, b, nil)
}

func (c *evalCtx) sel(v Val, name string) Val {
	switch x := v.(type) {
	case *StructV:
		i, _, ok := c.ex.prog.fieldIndex(x.t, name)
		if !ok {
			serr("no field %s in %s", name, x.t)
		}
		return x.f[i]
	case *PtrV:
		_, ft, ok := c.ex.prog.fieldIndex(x.elem, name)
		if !ok {
			serr("no field %s in %s", name, x.elem)
		}
		return c.st.load(&PtrV{root: x.root, base: x.base, idx: x.idx, path: x.path + "." + name, elem: ft})
	case *elemRef:
		_, ft, ok := c.ex.prog.fieldIndex(x.typ, name)
		if !ok {
			serr("no field %s in %s", name, x.typ)
		}
		return c.elem(&elemRef{s: x.s, i: x.i, path: x.path + "." + name, typ: ft})
	}
	serr("select .%s on %T", name, v)
	return nil
}

// elemRef: element of a slice view inside a spec function body
type elemRef struct {
	s    *SliceV
	i    *Term
	path string
	typ  types.Type
}

func (c *evalCtx) elem(r *elemRef) Val {
	if _, ok := r.typ.Underlying().(*types.Struct); ok && c.ex.prog.ownStruct(r.typ) {
		return r
	}
	ts := c.ex.ts
	var l []*Term
	for _, lf := range c.ex.prog.leaves(r.typ) {
		a, ok := r.s.view[r.path+lf.Path]
		if !ok {
			serr("view leaf %s", r.path+lf.Path)
		}
		l = append(l, ts.Select(a, ts.Add(r.s.off, r.i)))
	}
	v, _ := ts.unflatten(l, r.typ)
	return v
}

func (c *evalCtx) index(a Val, i *Term) Val {
	ts := c.ex.ts
	switch x := a.(type) {
	case *SliceV:
		if x.view != nil {
			return c.elem(&elemRef{s: x, i: i, typ: x.elem})
		}
		p := &PtrV{root: x.elem, base: x.base, idx: ts.Add(x.off, i), elem: x.elem}
		if _, ok := x.elem.Underlying().(*types.Struct); ok && c.ex.prog.ownStruct(x.elem) {
			return p
		}
		return c.st.load(p)
	case *Term:
		if x.sort == SStr {
			return ts.At(x, i)
		}
	case *PtrV:
		if x.table != nil {
			return x.table.lookup(ts, i)
		}
	case *ArrV:
		if i.isLit() {
			return x.f[i.int()]
		}
	}
	serr("index of %T", a)
	return nil
}

// lval evaluates a location expression to a pointer.
func (c *evalCtx) lval(e ast.Expr) *PtrV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.lval(x.X)
	case *ast.SelectorExpr:
		var p *PtrV
		v := c.evalLoc(x.X)
		p = v
		_, ft, ok := c.ex.prog.fieldIndex(p.elem, x.Sel.Name)
		if !ok {
			serr("no field %s in %s", x.Sel.Name, p.elem)
		}
		return &PtrV{root: p.root, base: p.base, idx: p.idx, path: p.path + "." + x.Sel.Name, elem: ft}
	case *ast.StarExpr:
		if p, ok := c.eval(x.X).(*PtrV); ok {
			return p
		}
	case *ast.IndexExpr, *ast.Ident, *ast.CallExpr:
		if p, ok := c.eval(e).(*PtrV); ok {
			return p
		}
	}
	serr("not a location: %s", exprString(e))
	return nil
}

func (c *evalCtx) evalLoc(e ast.Expr) *PtrV {
	if s, ok := e.(*ast.SelectorExpr); ok {
		return c.lvalDeref(c.lval(s))
	}
	if p, ok := c.eval(e).(*PtrV); ok {
		return p
	}
	serr("not a location: %s", exprString(e))
	return nil
}

func (c *evalCtx) lvalDeref(p *PtrV) *PtrV {
	if _, ok := p.elem.Underlying().(*types.Pointer); ok {
		return c.st.load(p).(*PtrV)
	}
	return p
}

func (c *evalCtx) bufio(v Val) *Term {
	ts := c.ex.ts
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		return c.bufio(x.f[0])
	case *PtrV:
		n := c.ex.prog.tkey(x.elem)
		switch n {
		case "bufio.Writer":
			return x.base
		case "printer":
			return c.bufio(c.sel(x, "Writer"))
		case "Writer":
			return c.bufio(c.sel(c.sel(x, "printer"), "Writer"))
		}
	}
	_ = ts
	serr("not a writer: %T", v)
	return nil
}

func (st *State) ghost(name string, ref *Term) *Term {
	_, h := st.compK("bufio.Writer|"+name, ghostSort(name))
	ts := st.ex.ts
	return st.simpIte(ts.Select(ts.Select(h, ref), ts.Int(0)))
}
func ghostSort(name string) Sort {
	if name == "$out" || name == "$flushed" {
		return SStr
	}
	return SInt
}
func (st *State) setGhost(name string, ref, v *Term) {
	k, h := st.compK("bufio.Writer|"+name, v.sort)
	ts := st.ex.ts
	st.heap[k] = ts.Store(h, ref, ts.Store(ts.Select(h, ref), ts.Int(0), v))
}

func (c *evalCtx) typeArg(e ast.Expr) types.Type {
	tv, err := types.Eval(c.ex.prog.Fset, c.ex.prog.Pkg.Types, token.NoPos, exprString(e))
	if err != nil || !tv.IsType() {
		serr("type %s: %v", exprString(e), err)
	}
	return tv.Type
}

func (c *evalCtx) call(x *ast.CallExpr) Val {
	ts := c.ex.ts
	name := ""
	if id, ok := x.Fun.(*ast.Ident); ok {
		name = id.Name
	} else {
		serr("call %s", exprString(x))
	}
	arg := func(i int) ast.Expr {
		if i >= len(x.Args) {
			serr("too few arguments: %s", exprString(x))
		}
		return x.Args[i]
	}
	switch name {
	case "old":
		if c.old == nil {
			serr("old outside a postcondition")
		}
		n := *c
		n.st = c.old
		if c.oldEnv != nil {
			n.env = c.oldEnv
		}
		return n.eval(arg(0))
	case "start":
		if c.start == nil {
			serr("start outside an invariant")
		}
		n := *c
		n.st = c.start
		n.env = c.startEnv
		return n.eval(arg(0))
	case "cur":
		if c.curEnv == nil {
			serr("cur outside an invariant")
		}
		n := *c
		n.env = c.curEnv
		return n.eval(arg(0))
	case "implies":
		a := c.term(arg(0))
		if a == ts.False {
			return ts.True
		}
		return ts.Implies(a, c.term(arg(1)))
	case "iff":
		return ts.Eq(c.term(arg(0)), c.term(arg(1)))
	case "ite":
		k := c.st.simp(c.term(arg(0)))
		if k == ts.True {
			return c.eval(arg(1))
		}
		if k == ts.False {
			return c.eval(arg(2))
		}
		return ts.Ite(k, c.term(arg(1)), c.term(arg(2)))
	case "len":
		switch v := c.eval(arg(0)).(type) {
		case *Term:
			return ts.Len(v)
		case *SliceV:
			return v.len
		}
		serr("len")
	case "cap":
		return c.eval(arg(0)).(*SliceV).cap
	case "base":
		switch v := c.eval(arg(0)).(type) {
		case *SliceV:
			return v.base
		case *PtrV:
			return v.base
		}
	case "off":
		return c.eval(arg(0)).(*SliceV).off
	case "out":
		return c.st.ghost("$out", c.bufio(c.eval(arg(0))))
	case "ioerr":
		return c.st.ghost("$err", c.bufio(c.eval(arg(0))))
	case "bp", "bgood":
		return c.st.ghost("$"+name, c.bufio(c.eval(arg(0))))
	case "flushed":
		return c.st.ghost("$flushed", c.bufio(c.eval(arg(0))))
	case "under":
		return c.st.ghost("$under", c.bufio(c.eval(arg(0))))
	case "trace":
		_, h := c.st.compK("trace|$t", SInt)
		return ts.Select(ts.Select(h, ts.Int(0)), ts.Int(0))
	case "dr":
		return ts.UF("decr", SInt, c.term(arg(0)), c.term(arg(1)))
	case "dw":
		return ts.UF("decw", SInt, c.term(arg(0)), c.term(arg(1)))
	case "at":
		return ts.At(c.term(arg(0)), c.term(arg(1)))
	case "sub":
		return ts.Substr(c.term(arg(0)), c.term(arg(1)), c.term(arg(2)))
	case "chr":
		return ts.Chr(c.term(arg(0)))
	case "contains":
		return ts.Contains(c.term(arg(0)), c.term(arg(1)))
	case "istype":
		t := c.typeArg(arg(1))
		return ts.Eq(ts.Tag(c.term(arg(0))), ts.Int(int64(c.ex.prog.typeID(t))))
	case "tagof":
		return ts.Tag(c.term(arg(0)))
	case "as":
		v := ts.payload(c.term(arg(0)), c.typeArg(arg(1)))
		return v
	case "mk":
		t := c.typeArg(arg(0))
		return c.ex.mkIface(c.st, c.eval(arg(1)), t)
	case "ufi", "ufs", "ufb":
		nm, _ := strconv.Unquote(arg(0).(*ast.BasicLit).Value)
		var as []*Term
		for _, a := range x.Args[1:] {
			v := c.eval(a)
			switch y := v.(type) {
			case *Term:
				as = append(as, y)
			case *PtrV:
				as = append(as, y.base)
			case *FuncV:
				as = append(as, y.id)
			default:
				serr("uf argument %T", v)
			}
		}
		s := SInt
		if name == "ufs" {
			s = SStr
		} else if name == "ufb" {
			s = SBool
		}
		if s == SStr {
			if r := foldStrUF(ts, nm, as); r != nil {
				return r
			}
		}
		return ts.UF(nm, s, as...)
	case "fresh":
		// a pointer result to an object allocated since the pre-state
		p, ok := c.eval(arg(0)).(*PtrV)
		if !ok || c.old == nil {
			serr("fresh of something that is not a pointer result")
		}
		if c.callee {
			return ts.True // the caller allocates it, see useContract
		}
		base := c.st.simp(p.base)
		return ts.Bool(isRefLit(base) && ts.maxAlloc(base, map[*Term]bool{}) > c.old.nalloc && p.idx == ts.Int(0) && p.path == "")
	}
	if c.ex.prog.C.Defs[name] {
		var as []*Term
		for i := range x.Args {
			as = append(as, c.term(arg(i)))
		}
		return ts.UF("def."+name, SBool, as...)
	}
	if m, ok := c.ex.prog.C.Macros[name]; ok {
		if len(m.Params) != len(x.Args) {
			serr("macro %s wants %d arguments", name, len(m.Params))
		}
		if c.depth > 40 {
			serr("macro recursion in %s", name)
		}
		n := *c
		n.depth++
		n.env = map[string]Val{}
		for i, p := range m.Params {
			n.env[p] = c.eval(x.Args[i])
		}
		// old() inside a macro evaluates the same bindings in the old state
		n.oldEnv = nil
		n.startEnv = n.env
		return n.eval(m.Expr)
	}
	if r := c.ex.recFn(name); r != nil {
		var vs []Val
		for i := range x.Args {
			vs = append(vs, c.eval(arg(i)))
		}
		return r.apply(c, vs)
	}
	serr("unknown function %s", name)
	return nil
}

// ---- recursive specification functions

type RecFn struct {
	def     *RecDef
	formals []*Term // in application order
	body    *Term
	pars    []recParam
	idx     int         // position of the index parameter in formals, -1 if none
	arrays  map[int]int // formal position of an array -> formal position of its offset
	used    map[*Term]bool
	opaque  bool
}

type recParam struct {
	kind   string // scalar, view, deep
	sort   Sort
	elem   types.Type
	forms  map[string]*Term // view: leaf arrays ; deep: heap comps
	val    Val
	useLen bool
}

func (ex *Exec) recFn(name string) *RecFn {
	if r, ok := ex.ts.recs[name]; ok {
		return r
	}
	d := ex.prog.C.Recs[name]
	if d == nil {
		return nil
	}
	if ex.ts.recs == nil {
		ex.ts.recs = map[string]*RecFn{}
	}
	r := &RecFn{def: d, idx: -1, arrays: map[int]int{}, used: map[*Term]bool{}}
	ex.ts.recs[name] = r
	ex.buildRec(r)
	return r
}

func scalarSort(t string) (Sort, bool) {
	switch t {
	case "int":
		return SInt, true
	case "string":
		return SStr, true
	case "bool":
		return SBool, true
	}
	return "", false
}

func (ex *Exec) evalType(s string) types.Type {
	tv, err := types.Eval(ex.prog.Fset, ex.prog.Pkg.Types, token.NoPos, s)
	if err != nil || !tv.IsType() {
		serr("type %s: %v", s, err)
	}
	return tv.Type
}

func (ex *Exec) buildRec(r *RecFn) {
	ts := ex.ts
	d := r.def
	st := ex.newState()
	env := map[string]Val{}
	for _, p := range d.Params {
		rp := recParam{kind: "scalar"}
		nm := "@" + d.Name + "." + p.Name
		if s, ok := scalarSort(p.Type); ok {
			rp.sort = s
			rp.val = ts.Var(nm, s)
		} else if strings.HasPrefix(p.Type, "[]") {
			rp.kind = "view"
			rp.elem = ex.evalType(p.Type[2:])
			sv := &SliceV{elem: rp.elem, base: ts.Var(nm+"#base", SInt), off: ts.Var(nm+"#off", SInt), len: ts.Var(nm+"#len", SInt), cap: ts.Var(nm+"#len", SInt), view: map[string]*Term{}}
			for _, lf := range ex.prog.leaves(rp.elem) {
				sv.view[lf.Path] = ts.Var(nm+"~"+lf.Path, arrSort(lf.Sort))
			}
			rp.val = sv
		} else if strings.HasPrefix(p.Type, "deep[]") {
			rp.kind = "deep"
			rp.elem = ex.evalType(p.Type[6:])
			rp.val = &SliceV{elem: rp.elem, base: ts.Var(nm+"#base", SInt), off: ts.Var(nm+"#off", SInt), len: ts.Var(nm+"#len", SInt), cap: ts.Var(nm+"#len", SInt)}
		} else {
			serr("rec parameter type %s", p.Type)
		}
		r.pars = append(r.pars, rp)
		env[p.Name] = rp.val
	}
	// pass 1: find the formals the body uses
	r.opaque = true
	c := &evalCtx{ex: ex, st: st, env: env, rec: r}
	b1 := c.term(d.Expr)
	used := map[*Term]bool{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" {
			used[t] = true
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(b1)
	r.used = used
	heapVars := map[string]*Term{}
	for k, v := range st.heap {
		if used[v] {
			heapVars[k] = v
		}
	}
	for i := range r.pars {
		p := &r.pars[i]
		switch p.kind {
		case "scalar":
			if d.Params[i].Name == "i" {
				r.idx = len(r.formals)
			}
			r.formals = append(r.formals, p.val.(*Term))
		case "view":
			s := p.val.(*SliceV)
			offPos := len(r.formals)
			r.formals = append(r.formals, s.off)
			if used[s.len] {
				p.useLen = true
				r.formals = append(r.formals, s.len)
			}
			p.forms = map[string]*Term{}
			for _, lf := range ex.prog.leaves(p.elem) {
				if a := s.view[lf.Path]; used[a] {
					p.forms[lf.Path] = a
					r.arrays[len(r.formals)] = offPos
					r.formals = append(r.formals, a)
				}
			}
		case "deep":
			s := p.val.(*SliceV)
			r.formals = append(r.formals, s.base, s.off, s.len)
			p.forms = map[string]*Term{}
			for _, k := range sortedKeys(heapVars) {
				p.forms[k] = heapVars[k]
				r.formals = append(r.formals, heapVars[k])
			}
		}
	}
	// pass 2: the body over the formals
	r.opaque = false
	c = &evalCtx{ex: ex, st: st, env: env, rec: r}
	r.body = c.term(d.Expr)
}

func (r *RecFn) apply(c *evalCtx, vs []Val) Val {
	ts := c.ex.ts
	if len(vs) != len(r.pars) {
		serr("%s wants %d arguments", r.def.Name, len(r.pars))
	}
	if r.opaque {
		// first pass: mention scalar arguments only
		var as []*Term
		for _, v := range vs {
			if t, ok := v.(*Term); ok {
				as = append(as, t)
			}
			if s, ok := v.(*SliceV); ok && s.view != nil {
				as = append(as, s.off)
			} else if ok {
				as = append(as, s.base, s.off, s.len)
			}
		}
		return ts.mk("uf", r.def.Ret, "pass1:"+r.def.Name, as)
	}
	var args []*Term
	for i, v := range vs {
		p := &r.pars[i]
		switch p.kind {
		case "scalar":
			args = append(args, v.(*Term))
		case "view":
			s, ok := v.(*SliceV)
			if !ok {
				serr("%s: argument %d is %T", r.def.Name, i, v)
			}
			args = append(args, s.off)
			if p.useLen {
				args = append(args, s.len)
			}
			for _, lf := range c.ex.prog.leaves(p.elem) {
				if _, ok := p.forms[lf.Path]; !ok {
					continue
				}
				if s.view != nil {
					args = append(args, s.view[lf.Path])
				} else {
					_, h := c.st.comp(p.elem, lf.Path, lf.Sort)
					args = append(args, c.st.simpIte(ts.Select(h, s.base)))
				}
			}
		case "deep":
			s := v.(*SliceV)
			args = append(args, s.base, s.off, s.len)
			lim := 0
			for _, a := range args {
				if m := ts.maxAlloc(a, map[*Term]bool{}); m > lim {
					lim = m
				}
			}
			for _, k := range sortedKeys(p.forms) {
				_, h := c.st.compK(k, elemSort(elemSort(p.forms[k].sort)))
				args = append(args, stripFresh(ts, h, lim))
			}
		}
	}
	return r.app(ts, args)
}

// stripFresh removes stores to references allocated after everything the
// application can reach was created.
func stripFresh(ts *TS, h *Term, lim int) *Term {
	for h.op == "store" && isRefLit(h.args[1]) {
		k := int(-h.args[1].n.Int64() - refBase)
		root := h
		for root.op == "store" {
			root = root.args[0]
		}
		if k > lim && ts.maxAlloc(root, map[*Term]bool{}) < k {
			h = h.args[0]
			continue
		}
		break
	}
	return h
}

func (r *RecFn) app(ts *TS, args []*Term) *Term {
	// f(s[a:], i) = f(s, a+i) for functions of a suffix
	if r.def.Shift && r.idx == 1 && args[0].sort == SStr {
		if s := args[0]; s.op == "sub" && s.args[2] == ts.Len(s.args[0]) {
			as := append([]*Term{s.args[0], ts.Add(s.args[1], args[1])}, args[2:]...)
			return r.app(ts, as)
		}
	}
	t := ts.mk("uf", r.def.Ret, r.def.Name, args)
	// fold applications to constants
	allConst := len(r.arrays) == 0
	for _, a := range args {
		if !a.isConst() {
			allConst = false
		}
	}
	if allConst && r.body != nil {
		if b := r.unfold(ts, t); b != nil {
			return b
		}
	}
	// exhausted views
	if r.idx >= 0 && !allConst && r.body != nil && !ts.inApp {
		ts.inApp = true
		defer func() { ts.inApp = false }()
		if b := r.unfold(ts, t); b != nil && b.isConst() {
			return b
		}
	}
	return t
}

func (r *RecFn) unfold(ts *TS, t *Term) *Term {
	if r.body == nil {
		return nil
	}
	m := map[*Term]*Term{}
	for i, f := range r.formals {
		m[f] = t.args[i]
	}
	return ts.subst(r.body, m, map[*Term]*Term{})
}

// peel: the value of an index-local function does not depend on array updates
// on the other side of its index.
func (r *RecFn) peel(ts *TS, t *Term) *Term {
	if r.idx < 0 || r.def.Dir == "" {
		return nil
	}
	args := append([]*Term{}, t.args...)
	i := t.args[r.idx]
	var guard []*Term
	changed := false
	for pos, offPos := range r.arrays {
		a := args[pos]
		off := args[offPos]
		for {
			if a.op == "store" {
				j := ts.Sub(a.args[1], off)
				if r.def.Dir == "up" {
					guard = append(guard, ts.Lt(j, i))
				} else {
					guard = append(guard, ts.Lt(i, j))
				}
				a = a.args[0]
				changed = true
				continue
			}
			if a.op == "merge" {
				lo, hi := ts.Sub(a.args[1], off), ts.Sub(a.args[2], off)
				if r.def.Dir == "up" {
					guard = append(guard, ts.Le(hi, i))
				} else {
					guard = append(guard, ts.Lt(i, lo))
				}
				a = a.args[0]
				changed = true
				continue
			}
			break
		}
		args[pos] = a
	}
	if !changed {
		return nil
	}
	return ts.Implies(ts.And(guard...), ts.Eq0(t, r.app(ts, args)))
}

func (ts *TS) subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	// what a decided guard makes irrelevant is not looked at: it may recur
	// without end
	switch t.op {
	case "ite":
		if c := ts.subst(t.args[0], m, memo); c.isConst() {
			i := 2
			if c == ts.True {
				i = 1
			}
			r := ts.subst(t.args[i], m, memo)
			memo[t] = r
			return r
		}
	case "and", "or":
		stop := ts.Bool(t.op == "or")
		for _, a := range t.args {
			if !ts.hasRec(a) && ts.subst(a, m, memo) == stop {
				memo[t] = stop
				return stop
			}
		}
	}
	for i, a := range t.args {
		as[i] = ts.subst(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = ts.rebuild(t, as)
	}
	memo[t] = r
	return r
}

// hasRec: the term applies a recursive function.
func (ts *TS) hasRec(t *Term) bool {
	if r, ok := ts.recIn[t]; ok {
		return r
	}
	r := t.op == "uf" && ts.recs[t.name] != nil
	for _, a := range t.args {
		r = r || ts.hasRec(a)
	}
	if ts.recIn == nil {
		ts.recIn = map[*Term]bool{}
	}
	ts.recIn[t] = r
	return r
}

func (ts *TS) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "+":
		l := newLin()
		l.k.Set(t.n)
		for i, a := range as {
			l.add(a, t.coef[i])
		}
		return ts.fromLin(l)
	case "<=0":
		return ts.Le(as[0], ts.Int(0))
	case "=":
		return ts.Eq(as[0], as[1])
	case "and":
		return ts.And(as...)
	case "or":
		return ts.Or(as...)
	case "not":
		return ts.Not(as[0])
	case "ite":
		return ts.Ite(as[0], as[1], as[2])
	case "++":
		return ts.Concat(as...)
	case "len":
		return ts.Len(as[0])
	case "at":
		return ts.At(as[0], as[1])
	case "sub":
		return ts.Substr(as[0], as[1], as[2])
	case "chr":
		return ts.Chr(as[0])
	case "contains":
		return ts.Contains(as[0], as[1])
	case "select":
		return ts.Select(as[0], as[1])
	case "store":
		return ts.Store(as[0], as[1], as[2])
	case "konst":
		return ts.Konst(as[0])
	case "merge":
		return ts.Merge(as[0], as[1], as[2], as[3])
	case "*":
		return ts.Mul(as[0], as[1])
	case "uf":
		if t.name == "tag" {
			return ts.Tag(as[0])
		}
		if strings.HasPrefix(t.name, "pl:") && as[0].op == "uf" && strings.HasPrefix(as[0].name, "mk:") {
			var a, b int
			fmt.Sscanf(t.name, "pl:%d", &a)
			fmt.Sscanf(as[0].name, "mk:%d", &b)
			if a == b {
				for i, lf := range ts.prog.leaves(ts.prog.idType(a)) {
					if t.name == fmt.Sprintf("pl:%d%s", a, lf.Path) {
						return as[0].args[i]
					}
				}
			}
		}
		if r := ts.recs[t.name]; r != nil {
			return r.app(ts, as)
		}
		if t.sort == SStr {
			if r := foldStrUF(ts, t.name, as); r != nil {
				return r
			}
		}
		return ts.UF(t.name, t.sort, as...)
	}
	return ts.mkFull(t.op, t.sort, t.name, as, t.n, t.coef)
}

func foldStrUF(ts *TS, name string, as []*Term) *Term {
	switch name {
	case "tolower":
		if as[0].isStr() {
			return ts.Str(strings.ToLower(as[0].name))
		}
	case "fmtint":
		if as[0].isLit() {
			return ts.Str(as[0].n.String())
		}
	}
	return nil
}
