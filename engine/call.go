package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction and continues with its results.
func (ex *Exec) call(st *State, fr *Frame, in *ssa.Call, k Kont) {
	ts := ex.ts
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range cc.Args {
			args = append(args, ex.val(st, fr, a))
		}
		ex.builtin(st, fr, in, b.Name(), args, k)
		return
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(st, fr, a))
	}
	if cc.IsInvoke() {
		recv := ex.val(st, fr, cc.Value).(*Term)
		ex.invoke(st, fr, in, recv, args, k)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			bind = ex.val(st, fr, mc).(*FuncV).bind
		}
		ex.callFn(st, fr, in, fn, bind, args, k)
		return
	}
	if f, ok := ex.val(st, fr, cc.Value).(*FuncV); ok && f.fn != nil {
		ex.callFn(st, fr, in, f.fn, f.bind, args, k)
		return
	}
	// call of an unknown function value: may change what the package exports
	ex.dynCalls++
	var id *Term
	switch f := ex.val(st, fr, cc.Value).(type) {
	case *FuncV:
		id = f.id
	case *Term:
		id = f
	default:
		unsup("call of a function value %T", f)
	}
	ex.safety(st, ts.Not(ts.Eq(id, ts.Int(0))), "call of a nil function", in.Pos())
	st.setTrace(ts.UF("tr.call", SInt, st.trace(), id))
	for i, a := range args {
		if p, ok := a.(*PtrV); ok {
			ex.havocExported(st, p, cc.Args[i].Type())
		}
	}
	_ = ts
	k(st, ex.freshResults(st, cc.Signature(), "dyn"))
}

func (ex *Exec) freshResults(st *State, sig *types.Signature, prefix string) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, st.freshVal(fmt.Sprintf("%s.r%d", prefix, i), sig.Results().At(i).Type()))
	}
	return out
}

func (ex *Exec) havocExported(st *State, p *PtrV, t types.Type) {
	s, ok := p.elem.Underlying().(*types.Struct)
	if !ok || !ex.prog.ownStruct(p.elem) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Exported() {
			q := &PtrV{root: p.root, base: p.base, idx: p.idx, path: p.path + "." + f.Name(), elem: f.Type()}
			v := st.freshVal("opt."+f.Name(), f.Type())
			st.store(q, v)
			if t, ok := v.(*Term); ok {
				// named after the calls so far
				st.assume(ex.ts.Eq(t, ex.ts.UF("opt."+f.Name(), t.sort, st.trace())))
			}
		}
	}
}

func (ex *Exec) invoke(st *State, fr *Frame, in *ssa.Call, recv *Term, args []Val, k Kont) {
	ts := ex.ts
	cc := in.Common()
	m := cc.Method
	it := cc.Value.Type()
	ex.safety(st, ts.Not(ts.Eq(recv, ts.Int(0))), "method call on nil interface", in.Pos())
	// a known dynamic type: call the method
	tag := ts.Tag(recv)
	if kt := st.known[tag]; kt != nil {
		tag = kt
	}
	if tag.isLit() && tag.int() > 0 {
		t := ex.prog.idType(int(tag.int()))
		if _, isIf := t.Underlying().(*types.Interface); !isIf {
			if sel := ex.prog.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
				fn := ex.prog.Prog.MethodValue(sel)
				rv := ts.payload(recv, t)
				if fn.Synthetic != "" {
					// pointer receiver wrapper of a value method
					if pt, ok := t.(*types.Pointer); ok {
						p := rv.(*PtrV)
						ex.nonNil(st, p, in.Pos())
						sel2 := ex.prog.Prog.MethodSets.MethodSet(pt.Elem()).Lookup(m.Pkg(), m.Name())
						if sel2 != nil {
							fn = ex.prog.Prog.MethodValue(sel2)
							rv = st.load(p)
						}
					}
				}
				ex.callFn(st, fr, in, fn, nil, append([]Val{rv}, args...), k)
				return
			}
		}
	}
	keys := []string{ex.prog.tkey(it) + "." + m.Name()}
	// interfaces embedding the declaring one
	if named, ok := it.(*types.Named); ok {
		_ = named
	}
	for _, n := range []string{"Node", "Writable", "Startable", "Indenter"} {
		keys = append(keys, n+"."+m.Name())
	}
	for _, key := range keys {
		if ct := ex.prog.C.Funcs[key]; ct != nil && ct.Iface {
			ex.apply(st, fr, in, ct, cc.Signature(), append([]Val{recv}, args...), k)
			return
		}
	}
	if m.Name() == "Error" {
		k(st, ex.freshResults(st, cc.Signature(), "Error"))
		return
	}
	unsup("interface call %s.%s", ex.prog.tkey(it), m.Name())
}

func (ex *Exec) callFn(st *State, fr *Frame, in *ssa.Call, fn *ssa.Function, bind, args []Val, k Kont) {
	if fn.Pkg == ex.prog.SSA || (fn.Parent() != nil && fn.Parent().Pkg == ex.prog.SSA) {
		key := ex.prog.funcKey(fn)
		if fn.Synthetic == "" || fn.Parent() != nil {
			if ct := ex.prog.C.Funcs[key]; ct != nil && !ct.Iface && ct.Then == "" && ex.act.usable(key) && len(ct.Params) == len(args) && len(ct.Results) == fn.Signature.Results().Len() && fn.Parent() == nil {
				if !ex.called[key] {
					ex.called[key] = true
					if ex.hook != nil {
						ex.hook(key)
					}
				}
				ex.apply(st, fr, in, ct, fn.Signature, args, k)
				return
			}
		}
		ex.inlined[key] = true
		ex.inline(st, fr, fn, bind, args, k)
		return
	}
	// synthetic wrappers of package methods
	if fn.Pkg == nil && len(fn.Blocks) > 0 && fn.Synthetic != "" {
		ex.inline(st, fr, fn, bind, args, k)
		return
	}
	ex.external(st, fr, in, fn, args, k)
}

func (ex *Exec) inline(st *State, fr *Frame, fn *ssa.Function, bind, args []Val, k Kont) {
	if len(fn.Blocks) == 0 {
		unsup("function without body %s", fn)
	}
	n := 0
	for f := fr; f != nil; f = f.parent {
		n++
		if f.fn == fn {
			unsup("recursive call of %s", ex.prog.funcKey(fn))
		}
	}
	if n > 24 {
		unsup("inline depth")
	}
	f2 := &Frame{fn: fn, env: map[ssa.Value]Val{}, depth: fr.depth + 1, parent: fr}
	for i, p := range fn.Params {
		f2.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f2.env[v] = bind[i]
	}
	ex.block(st, f2, fn.Blocks[0], nil, k)
}

// apply uses a contract in place of the callee's body.
func (ex *Exec) apply(st *State, fr *Frame, in *ssa.Call, ct *Contract, sig *types.Signature, args []Val, k Kont) {
	pos := ""
	if in != nil {
		pos = ex.prog.pos(in.Pos())
	}
	if ct.Trusted || ct.Iface {
		if !ex.trusted[ct.Key] {
			ex.trusted[ct.Key] = true
			if ex.hook != nil {
				ex.hook(ct.Key)
			}
		}
	}
	env := map[string]Val{}
	for i, p := range ct.Params {
		env[p] = args[i]
	}
	pre := &evalCtx{ex: ex, st: st, env: env}
	for i, b := range ct.Binds {
		a, ok := env[b.Name].(*PtrV)
		v := pre.lval(b.Expr)
		c := ex.ts.False
		if ok && a.path == v.path {
			c = ex.ts.And(ex.ts.Eq(a.base, v.base), ex.ts.Eq(a.idx, v.idx))
		}
		st.check(c, fmt.Sprintf("pre:%s#bind%d@%s", ct.Key, i+1, pos), "pre", pos, ex.preTags(ct))
	}
	for i, r := range ct.Requires {
		c := ex.evalClause(pre, r)
		st.check(c, fmt.Sprintf("pre:%s#%d@%s", ct.Key, i+1, pos), "pre", pos, ex.preTags(ct))
	}
	if st.dead {
		return
	}
	old := st.clone()
	for _, l := range ct.Lets {
		env[l.Name] = (&evalCtx{ex: ex, st: old, env: env}).eval(l.Expr)
	}
	ex.havoc(st, old, env, ct, func(st *State) {
		if !ct.Trusted {
			ex.forgetUnknown(st)
		}
		if ct.usesTrace() {
			st.setTrace(ex.ts.Fresh("tr", SInt, st.nalloc))
		}
		res := ex.freshResults(st, sig, ct.Key)
		for i, r := range ct.Results {
			if p, ok := res[i].(*PtrV); ok && ct.freshResult(r) {
				res[i] = &PtrV{root: p.elem, base: st.newRef(), idx: ex.ts.Int(0), elem: p.elem}
			}
		}
		e2 := map[string]Val{}
		for n, v := range env {
			e2[n] = v
		}
		for i, r := range ct.Results {
			e2[r] = res[i]
		}
		c := &evalCtx{ex: ex, st: st, old: old, env: e2, oldEnv: e2, callee: true}
		for _, d := range ct.Defines {
			st.assume(ex.ts.Eq(c.term(d.Head), c.term(d.Expr)))
		}
		for _, e := range ct.Ensures {
			if !ex.act.clause(ct.Key, e) {
				continue
			}
			st.assume(ex.evalClause(c, e))
			if st.dead {
				return
			}
		}
		if ct.Logged != nil {
			as := []*Term{st.trace()}
			for _, a := range ct.Logged.Args {
				as = append(as, (&evalCtx{ex: ex, st: old, env: env}).term(a))
			}
			st.setTrace(ex.ts.UF("tr."+ct.Logged.Fun.(*ast.Ident).Name, SInt, as...))
			// the outcome of a step is named after the steps so far
			for i, r := range res {
				if t, ok := r.(*Term); ok && t.sort == SInt {
					st.assume(ex.ts.Eq(t, ex.ts.UF(fmt.Sprintf("tres%d", i), SInt, st.trace())))
				}
			}
			// and so is what the contract wants remembered of it
			for _, d := range ct.Snaps {
				v := c.term(d.Expr)
				st.assume(ex.ts.Eq(ex.ts.UF(d.Name, v.sort, st.trace()), v))
			}
		}
		k(st, res)
	})
}

// freshResult: the contract promises a new object.
func (ct *Contract) freshResult(name string) bool {
	for _, e := range ct.Ensures {
		if strings.TrimSpace(e.Src) == "fresh("+name+")" {
			return true
		}
	}
	return false
}

// usesTrace: the contract speaks of the steps taken, so a call changes them.
func (ct *Contract) usesTrace() bool {
	for _, e := range ct.Ensures {
		if strings.Contains(e.Src, "trace()") {
			return true
		}
	}
	return false
}

func (st *State) trace() *Term {
	_, h := st.compK("trace|$t", SInt)
	ts := st.ex.ts
	return ts.Select(ts.Select(h, ts.Int(0)), ts.Int(0))
}

func (st *State) setTrace(v *Term) {
	k, h := st.compK("trace|$t", SInt)
	ts := st.ex.ts
	st.heap[k] = ts.Store(h, ts.Int(0), ts.Store(ts.Select(h, ts.Int(0)), ts.Int(0), v))
}

func (ex *Exec) preTags(ct *Contract) []string {
	if ex.ct != nil && len(ex.ct.Tags) > 0 {
		return ex.ct.Tags
	}
	return ct.Tags
}

func (ex *Exec) evalClause(c *evalCtx, cl *Clause) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(specErr{fmt.Sprintf("%s: %s: %s", cl.Owner, cl.Src, s.msg)})
			}
			panic(r)
		}
	}()
	return ex.evalBool(c, cl.Expr)
}

func (st *State) bumpEpoch(root string) {
	ne := make(map[string]int, len(st.epoch)+1)
	for k, v := range st.epoch {
		ne[k] = v
	}
	na := make(map[string]int, len(st.epAll)+1)
	for k, v := range st.epAll {
		na[k] = v
	}
	st.ex.nepoch++
	ne[root] = st.ex.nepoch
	na[root] = st.nalloc
	st.epoch, st.epAll = ne, na
	for k := range st.heap {
		if compRoot(k) == root {
			delete(st.heap, k)
		}
	}
}

// havoc forgets what the contract's modifies clause names.
func (ex *Exec) havoc(st, old *State, env map[string]Val, ct *Contract, k func(*State)) {
	ts := ex.ts
	c := &evalCtx{ex: ex, st: old, env: env}
	var elems []ModItem
	for _, m := range ct.Modifies {
		switch m.Kind {
		case "loc":
			if m.Cond != nil {
				g := old.simp(c.term(m.Cond))
				if g == ts.False {
					continue
				}
			}
			p := c.lval(m.Expr)
			st.store(p, st.freshVal("h:"+exprString(m.Expr), p.elem))
		case "ghost":
			ref := c.bufio(c.eval(m.Expr))
			for _, g := range []string{"$out", "$err", "$flushed", "$bp", "$bgood"} {
				st.setGhost(g, ref, ts.Fresh("g:"+g, ghostSort(g), st.nalloc))
			}
			// write errors are sticky
			e0 := old.ghost("$err", ref)
			st.assume(ts.Implies(ts.Not(ts.Eq(e0, ts.Int(0))), ts.Eq(st.ghost("$err", ref), e0)))
		case "breaks":
			ref := c.bufio(c.eval(m.Expr))
			for _, g := range []string{"$bp", "$bgood"} {
				st.setGhost(g, ref, ts.Fresh("g:"+g, ghostSort(g), st.nalloc))
			}
		case "ioerr":
			ref := c.bufio(c.eval(m.Expr))
			st.setGhost("$err", ref, ts.Fresh("g:$err", SInt, st.nalloc))
			st.setGhost("$flushed", ref, ts.Fresh("g:$flushed", SStr, st.nalloc))
			e0 := old.ghost("$err", ref)
			st.assume(ts.Implies(ts.Not(ts.Eq(e0, ts.Int(0))), ts.Eq(st.ghost("$err", ref), e0)))
		case "heap":
			t := c.typeArg(m.Expr)
			st.bumpEpoch(ex.prog.tkey(t))
		case "elems":
			elems = append(elems, m)
		}
	}
	if len(elems) == 0 {
		k(st)
		return
	}
	if len(elems) > 1 {
		unsup("two element ranges in one modifies clause")
	}
	m := elems[0]
	if m.Cond != nil {
		g := old.simp(c.term(m.Cond))
		if g == ts.False {
			k(st)
			return
		}
		if g != ts.True {
			no := st.clone()
			no.assume(ts.Not(g))
			if !no.dead {
				k(no)
			}
			st.assume(g)
			if st.dead {
				return
			}
		}
	}
	hp := c.lval(m.Expr)
	s := old.load(hp).(*SliceV)
	lo := c.term(m.Lo)
	root := s.elem
	from := ts.Add(s.off, lo)
	// the slice may have moved to a new array
	nb := ts.Fresh("nb", SInt, st.nalloc)
	ex.moved[nb] = &movedFrom{base: s.base, hp: hp, from: from}
	st.moveElems(root, s.base, nb, from)
	n := &SliceV{elem: s.elem, base: nb, off: s.off, len: ts.Fresh("nodes#len", SInt, st.nalloc), cap: ts.Fresh("nodes#cap", SInt, st.nalloc)}
	st.store(hp, n)
	st.assume(ts.Le(s.len, n.len))
	st.assume(ts.Le(n.len, n.cap))
	k(st)
}

// movedFrom: a slice base that is either the one before or a new array.
type movedFrom struct {
	base *Term
	hp   *PtrV
	from *Term
}

// moveElems: the elements from index from on are forgotten, the others are
// found at nb, which is the old base or a new array; in the second case
// nothing is known about the old array.
func (st *State) moveElems(root types.Type, base, nb, from *Term) {
	ts := st.ex.ts
	for _, lf := range st.ex.prog.leaves(root) {
		key, h := st.comp(root, lf.Path, lf.Sort)
		a := ts.Select(h, base)
		b := ts.Fresh("el:"+lf.Path, arrSort(lf.Sort), st.nalloc)
		g := ts.Fresh("gb:"+lf.Path, arrSort(lf.Sort), st.nalloc)
		st.heap[key] = ts.Store(ts.Store(h, base, g), nb, ts.Merge(a, from, ts.Int(inf), b))
	}
}

// chain: the bases b may be, back to one that is no moved base.
func (ex *Exec) chain(b *Term) []*Term {
	out := []*Term{b}
	for {
		if m := ex.moved[b]; m != nil {
			b = m.base
		} else if x := ex.freshOf[b]; x != nil {
			b = x
		} else {
			return out
		}
		out = append(out, b)
	}
}

// ---- builtins

func (ex *Exec) builtin(st *State, fr *Frame, in *ssa.Call, name string, args []Val, k Kont) {
	ts := ex.ts
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Term:
			if x.sort == SStr {
				k(st, []Val{ts.Len(x)})
				return
			}
			k(st, []Val{ts.Fresh("maplen", SInt, st.nalloc)})
			return
		case *SliceV:
			k(st, []Val{x.len})
			return
		case *ArrV:
			k(st, []Val{ts.Int(int64(len(x.f)))})
			return
		}
	case "cap":
		if x, ok := args[0].(*SliceV); ok {
			k(st, []Val{x.cap})
			return
		}
	case "append":
		ex.append(st, in, args[0].(*SliceV), args[1], k)
		return
	case "copy":
		d := args[0].(*SliceV)
		if d.arr != nil {
			s := args[1].(*Term)
			n := ts.Ite(ts.Le(ts.Len(s), d.len), ts.Len(s), d.len)
			for j := int64(0); j < d.len.int(); j++ {
				p := &PtrV{root: d.arr.root, base: d.arr.base, idx: d.arr.idx, path: fmt.Sprintf("%s[%d]", d.arr.path, d.off.int()+j), elem: d.elem}
				if d.arr.path == "" && types.Identical(d.arr.root, d.elem) {
					p.path, p.idx = "", ts.Add(d.arr.idx, ts.Int(d.off.int()+j))
				}
				st.store(p, ts.Ite(ts.Lt(ts.Int(j), n), ts.At(s, ts.Int(j)), st.load(p).(*Term)))
			}
			k(st, []Val{n})
			return
		}
		n := ts.Fresh("copied", SInt, st.nalloc)
		st.assume(ts.Le(ts.Int(0), n))
		st.assume(ts.Le(n, d.len))
		if isByteSlice(in.Common().Args[0].Type()) {
			unsup("copy")
		}
		for _, lf := range ex.prog.leaves(d.elem) {
			key, h := st.comp(d.elem, lf.Path, lf.Sort)
			a := ts.Select(h, d.base)
			st.heap[key] = ts.Store(h, d.base, ts.Merge(a, d.off, ts.Add(d.off, n), ts.Fresh("cp"+lf.Path, arrSort(lf.Sort), st.nalloc)))
		}
		k(st, []Val{n})
		return
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			x := a.(*Term)
			if name == "min" {
				r = ts.Ite(ts.Le(r, x), r, x)
			} else {
				r = ts.Ite(ts.Le(x, r), r, x)
			}
		}
		k(st, []Val{r})
		return
	case "ssa:wrapnilchk":
		ex.nonNil(st, args[0].(*PtrV), in.Pos())
		k(st, []Val{args[0]})
		return
	case "print", "println":
		k(st, nil)
		return
	}
	unsup("builtin %s", name)
}

func (ex *Exec) append(st *State, in *ssa.Call, s *SliceV, b Val, k Kont) {
	ts := ex.ts
	if isByteSlice(in.Type()) {
		var add *Term
		switch x := b.(type) {
		case *Term:
			add = x
		case *SliceV:
			add = st.bytesOf(x)
		}
		str := ts.Concat(st.bytesOf(s), add)
		n := ts.Len(str)
		c := ts.Fresh("cap", SInt, st.nalloc)
		st.assume(ts.Le(n, c))
		k(st, []Val{&SliceV{elem: s.elem, base: st.newRef(), off: ts.Int(0), len: n, cap: c, str: str}})
		return
	}
	t := b.(*SliceV)
	if t.len == ts.Int(0) {
		k(st, []Val{s})
		return
	}
	if !t.len.isLit() || t.len.int() > 8 {
		if s.len == ts.Int(0) {
			r := st.newRef()
			for _, lf := range ex.prog.leaves(s.elem) {
				key, h := st.comp(s.elem, lf.Path, lf.Sort)
				st.heap[key] = ts.Store(h, r, ts.Select(h, t.base))
			}
			c := ts.Fresh("cap", SInt, st.nalloc)
			st.assume(ts.Le(t.len, c))
			k(st, []Val{&SliceV{elem: s.elem, base: r, off: t.off, len: t.len, cap: c}})
			return
		}
		unsup("append of a slice of unknown length")
	}
	n := t.len.int()
	nl := ts.Add(s.len, t.len)
	leaves := ex.prog.leaves(s.elem)
	put := func(st *State, base *Term, from *Term) {
		for _, lf := range leaves {
			key, h := st.comp(s.elem, lf.Path, lf.Sort)
			src := ts.Select(h, t.base)
			a := ts.Select(h, from)
			for j := int64(0); j < n; j++ {
				a = ts.Store(a, ts.Add(s.off, s.len, ts.Int(j)), ts.Select(src, ts.AddI(t.off, j)))
			}
			st.heap[key] = ts.Store(h, base, a)
		}
	}
	ex.branch(st, ts.Le(nl, s.cap), func(st *State) {
		put(st, s.base, s.base)
		k(st, []Val{&SliceV{elem: s.elem, base: s.base, off: s.off, len: nl, cap: s.cap}})
	}, func(st *State) {
		r := st.newRef()
		put(st, r, s.base)
		c := ts.Fresh("cap", SInt, st.nalloc)
		st.assume(ts.Le(nl, c))
		k(st, []Val{&SliceV{elem: s.elem, base: r, off: s.off, len: nl, cap: c}})
	})
}

// ---- functions of other packages: assumed models

func (ex *Exec) nonNilErr(st *State) *Term {
	e := ex.ts.Fresh("err", SInt, st.nalloc)
	st.assume(ex.ts.Not(ex.ts.Eq(e, ex.ts.Int(0))))
	return e
}

func (ex *Exec) bwWrite(st *State, p *PtrV, s *Term, pos string) *Term {
	ts := ex.ts
	ref := p.base
	st.setGhost("$out", ref, ts.Concat(st.ghost("$out", ref), s))
	// the break that is pending must be followed by the byte it announced
	if bp := st.ghost("$bp", ref); bp != ts.Int(0) {
		none := ts.Or(ts.Eq(bp, ts.Int(0)), ts.Eq(ts.Len(s), ts.Int(0)))
		st.setGhost("$bgood", ref, ts.Ite(ts.Or(none, ts.Eq(ts.At(s, ts.Int(0)), bp)), st.ghost("$bgood", ref), ts.Int(0)))
		st.setGhost("$bp", ref, ts.Ite(ts.Eq(ts.Len(s), ts.Int(0)), bp, ts.Int(0)))
	}
	return ex.bwErr(st, ref)
}

func (ex *Exec) bwErr(st *State, ref *Term) *Term {
	ts := ex.ts
	e0 := st.ghost("$err", ref)
	e := ts.Fresh("ioerr", SInt, st.nalloc)
	st.assume(ts.Implies(ts.Not(ts.Eq(e0, ts.Int(0))), ts.Eq(e, e0)))
	st.setGhost("$err", ref, e)
	st.setGhost("$flushed", ref, ts.Fresh("flushed", SStr, st.nalloc))
	return e
}

func (ex *Exec) external(st *State, fr *Frame, in *ssa.Call, fn *ssa.Function, args []Val, k Kont) {
	ts := ex.ts
	name := fn.String()
	if ct := ex.prog.C.Funcs[name]; ct != nil && ct.Trusted {
		ex.apply(st, fr, in, ct, fn.Signature, args, k)
		return
	}
	ex.trusted[name] = true
	str := func(i int) *Term { return args[i].(*Term) }
	ret := func(v ...Val) { k(st, v) }
	switch name {
	case "(*bufio.Writer).WriteString":
		p := args[0].(*PtrV)
		ex.nonNil(st, p, in.Pos())
		e := ex.bwWrite(st, p, str(1), "")
		n := ts.Fresh("n", SInt, st.nalloc)
		st.assume(ts.Implies(ts.Eq(e, ts.Int(0)), ts.Eq(n, ts.Len(str(1)))))
		ret(n, e)
		return
	case "(*bufio.Writer).Write":
		p := args[0].(*PtrV)
		ex.nonNil(st, p, in.Pos())
		e := ex.bwWrite(st, p, st.bytesOf(args[1].(*SliceV)), "")
		n := ts.Fresh("n", SInt, st.nalloc)
		ret(n, e)
		return
	case "(*bufio.Writer).WriteByte":
		p := args[0].(*PtrV)
		ex.nonNil(st, p, in.Pos())
		ret(ex.bwWrite(st, p, ts.Chr(str(1)), ""))
		return
	case "(*bufio.Writer).WriteRune":
		p := args[0].(*PtrV)
		ex.nonNil(st, p, in.Pos())
		e := ex.bwWrite(st, p, ex.convert(st, args[1], types.Typ[types.Int32], types.Typ[types.String]).(*Term), "")
		ret(ts.Fresh("n", SInt, st.nalloc), e)
		return
	case "(*bufio.Writer).Flush":
		p := args[0].(*PtrV)
		ex.nonNil(st, p, in.Pos())
		e := ex.bwErr(st, p.base)
		st.assume(ts.Implies(ts.Eq(e, ts.Int(0)), ts.Eq(st.ghost("$flushed", p.base), st.ghost("$out", p.base))))
		ret(e)
		return
	case "(*bufio.Writer).Buffered", "(*bufio.Writer).Available", "(*bufio.Writer).Size":
		p := args[0].(*PtrV)
		ex.nonNil(st, p, in.Pos())
		n := ts.Fresh("n", SInt, st.nalloc)
		st.assume(ts.Le(ts.Int(0), n))
		if name == "(*bufio.Writer).Buffered" {
			// nothing buffered and no error met: everything reached the sink
			st.assume(ts.Implies(ts.And(ts.Eq(n, ts.Int(0)), ts.Eq(st.ghost("$err", p.base), ts.Int(0))),
				ts.Eq(st.ghost("$flushed", p.base), st.ghost("$out", p.base))))
		}
		ret(n)
		return
	case "bufio.NewWriterSize", "bufio.NewWriter":
		r := st.newRef()
		st.setGhost("$out", r, ts.Str(""))
		st.setGhost("$flushed", r, ts.Str(""))
		st.setGhost("$err", r, ts.Int(0))
		st.setGhost("$bp", r, ts.Int(0))
		st.setGhost("$bgood", r, ts.Int(1))
		st.setGhost("$under", r, str(0))
		bt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		ret(&PtrV{root: bt, base: r, idx: ts.Int(0), elem: bt})
		return
	case "fmt.Errorf", "errors.New":
		ret(ex.nonNilErr(st))
		return
	case "fmt.Sprintf":
		ret(ex.formatted(st, str(0), args[1].(*SliceV)))
		return
	case "fmt.Fprintf", "io.WriteString":
		var s *Term
		if name == "io.WriteString" {
			s = str(1)
		} else {
			s = ex.formatted(st, str(1), args[2].(*SliceV))
		}
		p := ex.bufioOf(st, str(0))
		if p == nil {
			unsup("call of %s", name)
		}
		ex.nonNil(st, p, in.Pos())
		ret(ts.Fresh("n", SInt, st.nalloc), ex.bwWrite(st, p, s, ""))
		return
	case "fmt.Sprint", "fmt.Sprintln", "strings.Join":
		ret(ts.Fresh("str", SStr, st.nalloc))
		return
	case "runtime.Caller":
		res := ex.freshResults(st, fn.Signature, "caller")
		if str(0).isLit() && str(0).int() <= 8 {
			// counted from the function under contract, whatever was inlined into it
			lv := ts.Int(str(0).int() - int64(fr.depth))
			res[1] = ts.UF("callerFile", SStr, lv)
			res[2] = ts.UF("callerLine", SInt, lv)
		}
		k(st, res)
		return
	case "unicode/utf8.DecodeRuneInString":
		s := str(0)
		in := ts.Lt(ts.Int(0), ts.Len(s))
		r := ts.UF("decr", SInt, s, ts.Int(0))
		w := ts.UF("decw", SInt, s, ts.Int(0))
		if st.prove(in, false) {
			ret(r, w)
			return
		}
		ret(st.simpIte(ts.Ite(in, r, ts.Int(0xFFFD))), st.simpIte(ts.Ite(in, w, ts.Int(0))))
		return
	case "unicode/utf8.RuneLen":
		r := str(0)
		ret(ts.Ite(ts.Lt(r, ts.Int(0)), ts.Int(-1), ts.Ite(ts.Lt(r, ts.Int(0x80)), ts.Int(1), ts.Ite(ts.Lt(r, ts.Int(0x800)), ts.Int(2),
			ts.Ite(ts.And(ts.Le(ts.Int(0xD800), r), ts.Le(r, ts.Int(0xDFFF))), ts.Int(-1),
				ts.Ite(ts.Lt(r, ts.Int(0x10000)), ts.Int(3), ts.Ite(ts.Le(r, ts.Int(0x10FFFF)), ts.Int(4), ts.Int(-1))))))))
		return
	case "strings.Contains":
		ret(ts.Contains(str(0), str(1)))
		return
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte", "strings.Index":
		if h := str(0); name != "strings.Index" && h.isStr() && !str(1).isLit() && isASCII(h.name) {
			// which character of a constant it is
			c, r, any := str(1), ts.Int(-1), ts.Bool(false)
			for j := len(h.name) - 1; j >= 0; j-- {
				eq := ts.Eq(c, ts.Int(int64(h.name[j])))
				r = ts.Ite(eq, ts.Int(int64(j)), r)
				any = ts.Or(any, eq)
			}
			if name == "strings.ContainsRune" {
				ret(any)
			} else {
				ret(r)
			}
			return
		}
		var sub *Term
		if name == "strings.Index" {
			sub = str(1)
		} else if c := str(1); c.isLit() && c.int() >= 0 && c.int() < utf8.RuneSelf {
			sub = ts.Str(string(rune(c.int())))
		} else if name == "strings.IndexByte" {
			sub = ts.Chr(c)
		} else if c.isLit() && utf8.ValidRune(rune(c.int())) && c.int() != 0xFFFD {
			sub = ts.Str(string(rune(c.int())))
		}
		if sub == nil {
			break
		}
		ct := ts.Contains(str(0), sub)
		if name == "strings.ContainsRune" {
			ret(ct)
			return
		}
		r := ts.Fresh("idx", SInt, st.nalloc)
		st.assume(ts.Le(ts.Int(-1), r))
		st.assume(ts.Eq(ts.Le(ts.Int(0), r), ct))
		st.assume(ts.Implies(ct, ts.Le(ts.Add(r, ts.Len(sub)), ts.Len(str(0)))))
		if sub.isStr() {
			for j := 0; j < len(sub.name); j++ {
				st.assume(ts.Implies(ct, ts.Eq(ts.At(str(0), ts.AddI(r, int64(j))), ts.Int(int64(sub.name[j])))))
			}
		}
		ret(r)
		return
	case "strings.ContainsAny", "strings.IndexAny":
		if c := str(1); c.isStr() {
			var cs []*Term
			ascii := true
			for _, r := range c.name {
				if r >= utf8.RuneSelf {
					ascii = false
				}
				cs = append(cs, ts.Contains(str(0), ts.Str(string(r))))
			}
			if ascii {
				any := ts.Or(cs...)
				if name == "strings.ContainsAny" {
					ret(any)
					return
				}
				r := ts.Fresh("idx", SInt, st.nalloc)
				st.assume(ts.Le(ts.Int(-1), r))
				st.assume(ts.Lt(r, ts.Len(str(0))))
				st.assume(ts.Eq(ts.Le(ts.Int(0), r), any))
				ret(r)
				return
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix":
		if p := str(1); p.isStr() {
			s := str(0)
			n := int64(len(p.name))
			cs := []*Term{ts.Le(ts.Int(n), ts.Len(s))}
			for j := int64(0); j < n; j++ {
				i := ts.Int(j)
				if name == "strings.HasSuffix" {
					i = ts.AddI(ts.Len(s), j-n)
				}
				cs = append(cs, ts.Eq(ts.At(s, i), ts.Int(int64(p.name[j]))))
			}
			ret(ts.And(cs...))
			return
		}
		op := "prefixof"
		if name == "strings.HasSuffix" {
			op = "suffixof"
		}
		ret(ts.mk(op, SBool, "", []*Term{str(1), str(0)}))
		return
	case "strings.ToLower", "strings.ToUpper":
		nm := "tolower"
		if name == "strings.ToUpper" {
			nm = "toupper"
		}
		if r := foldStrUF(ts, nm, []*Term{str(0)}); r != nil {
			ret(r)
			return
		}
		ret(ts.UF(nm, SStr, str(0)))
		return
	case "strings.EqualFold":
		a, b := str(0), str(1)
		if a.isStr() {
			a, b = b, a
		}
		if b.isStr() && simpleFold(b.name) {
			ret(ts.foldEq(a, b.name))
			return
		}
		ret(ts.UF("equalfold", SBool, a, b))
		return
	case "strconv.FormatInt":
		ret(ts.UF("fmtint", SStr, str(0), str(1)))
		return
	case "strconv.FormatUint":
		ret(ts.UF("fmtint", SStr, str(0), str(1)))
		return
	case "strconv.Itoa":
		ret(ts.UF("fmtint", SStr, str(0), ts.Int(10)))
		return
	case "strconv.FormatBool":
		ret(ts.Ite(str(0), ts.Str("true"), ts.Str("false")))
		return
	case "strconv.FormatFloat":
		ret(ts.UF("fmtfloat", SStr, str(0), str(1), str(2), str(3)))
		return
	case "strings.Repeat":
		if s := str(0); true {
			ex.safety(st, ts.Le(ts.Int(0), str(1)), "negative repeat count", in.Pos())
			if ex.prog.C.Recs["rep"] != nil {
				r := ex.recFn("rep")
				ret(r.apply(&evalCtx{ex: ex, st: st, env: map[string]Val{}}, []Val{s, str(1)}))
				return
			}
		}
	case "golang.org/x/text/encoding.HTMLEscapeUnsupported":
		p := args[0].(*PtrV)
		r := ts.UF("htmlescape", SInt, p.base)
		st.assume(ts.Not(ts.Eq(r, ts.Int(0))))
		ret(&PtrV{root: p.root, base: r, idx: ts.Int(0), elem: p.elem})
		return
	case "golang.org/x/text/encoding.ReplaceUnsupported":
		p := args[0].(*PtrV)
		r := ts.UF("replaceunsupported", SInt, p.base)
		ret(&PtrV{root: p.root, base: r, idx: ts.Int(0), elem: p.elem})
		return
	case "(*golang.org/x/text/encoding.Encoder).Writer":
		r := ts.UF("encwriter", SInt, args[0].(*PtrV).base, str(1))
		st.assume(ts.Not(ts.Eq(r, ts.Int(0))))
		ret(r)
		return
	}
	if pureExternal(name) {
		k(st, ex.freshResults(st, fn.Signature, name))
		return
	}
	unsup("call of %s", name)
}

// formatted: what a constant format without flags makes of strings and
// numbers; any other text is unknown.
func (ex *Exec) formatted(st *State, format *Term, args *SliceV) *Term {
	ts := ex.ts
	unknown := func() *Term { return ts.Fresh("str", SStr, st.nalloc) }
	if !format.isStr() {
		return unknown()
	}
	out, f, n := ts.Str(""), format.name, int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = ts.Concat(out, ts.Str(f[i:i+1]))
			continue
		}
		i++
		if i == len(f) {
			return unknown()
		}
		if f[i] == '%' {
			out = ts.Concat(out, ts.Str("%"))
			continue
		}
		if !args.len.isLit() || n >= args.len.int() {
			return unknown()
		}
		a := st.load(&PtrV{root: args.elem, base: args.base, idx: ts.AddI(args.off, n), elem: args.elem}).(*Term)
		n++
		tag := ts.Tag(a)
		if !tag.isLit() || tag.int() == 0 {
			return unknown()
		}
		t := ex.prog.idType(int(tag.int()))
		b, ok := t.Underlying().(*types.Basic)
		if !ok || types.NewMethodSet(t).Len() > 0 || ex.prog.zeroLeaf(t, "") {
			return unknown()
		}
		v := ts.payload(a, t)
		switch {
		case b.Kind() == types.String && (f[i] == 's' || f[i] == 'v'):
			out = ts.Concat(out, v.(*Term))
		case b.Info()&types.IsInteger != 0 && (f[i] == 'd' || f[i] == 'v'):
			out = ts.Concat(out, ts.UF("fmtint", SStr, v.(*Term), ts.Int(10)))
		case b.Info()&types.IsInteger != 0 && f[i] == 'c':
			out = ts.Concat(out, ex.convert(st, v, types.Typ[types.Int32], types.Typ[types.String]).(*Term))
		default:
			return unknown()
		}
	}
	if !args.len.isLit() || n != args.len.int() {
		return unknown()
	}
	return out
}

// bufioOf: the bufio.Writer that gets what is written to the interface value.
func (ex *Exec) bufioOf(st *State, x *Term) *PtrV {
	tag := ex.ts.Tag(x)
	if !tag.isLit() || tag.int() == 0 {
		return nil
	}
	t := ex.prog.idType(int(tag.int()))
	var pkg *types.Package
	if n, ok := t.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	for _, m := range []string{"Write", "WriteString"} {
		o, _, _ := types.LookupFieldOrMethod(t, false, pkg, m)
		if f, ok := o.(*types.Func); m == "Write" && !ok || ok && f.FullName() != "(*bufio.Writer)."+m {
			return nil
		}
	}
	_, path, _ := types.LookupFieldOrMethod(t, false, pkg, "Write")
	v := ex.ts.payload(x, t)
	for _, i := range path[:len(path)-1] {
		switch y := v.(type) {
		case *StructV:
			v = y.f[i]
		case *PtrV:
			l, ok := st.load(y).(*StructV)
			if !ok {
				return nil
			}
			v = l.f[i]
		default:
			return nil
		}
	}
	p, _ := v.(*PtrV)
	return p
}

// pureExternal: functions without effect on the modelled state whose result is
// left unconstrained.
func pureExternal(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "fmt.Sprint", "errors.", "(error).", "math."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// simpleFold: every letter folds only within its ASCII pair.
func simpleFold(s string) bool {
	for _, r := range s {
		if r >= 0x80 || r == 'k' || r == 'K' || r == 's' || r == 'S' {
			return false
		}
	}
	return true
}

// foldEq: s equals lit up to ASCII case.
func (ts *TS) foldEq(s *Term, lit string) *Term {
	cs := []*Term{ts.Eq(ts.Len(s), ts.Int(int64(len(lit))))}
	for j := 0; j < len(lit); j++ {
		a := ts.At(s, ts.Int(int64(j)))
		lo, up := unicode.ToLower(rune(lit[j])), unicode.ToUpper(rune(lit[j]))
		cs = append(cs, ts.Or(ts.Eq(a, ts.Int(int64(lo))), ts.Eq(a, ts.Int(int64(up)))))
	}
	return ts.And(cs...)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}
