package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Active says which contracts may stand in for a callee's body.
type Active struct {
	dropped map[string]bool
}

func (a *Active) usable(key string) bool { return a == nil || !a.dropped[key] }

func (a *Active) clause(key string, c *Clause) bool { return true }

func (ex *Exec) newState() *State {
	return &State{ex: ex, heap: map[string]*Term{}, epoch: map[string]int{}, epAll: map[string]int{},
		pcset: map[*Term]bool{}, known: map[*Term]*Term{}, ub: map[*Term]*big.Int{}, iters: map[int]*Term{}, alias: map[*Term]*Term{}}
}

func newExec(p *Program, act *Active, limit time.Duration) *Exec {
	ts := NewTS(p)
	ex := &Exec{prog: p, ts: ts, sol: NewSolver(ts), act: act, obls: map[string]*Obl{}, bounded: nil,
		inlined: map[string]bool{}, called: map[string]bool{}, trusted: map[string]bool{}, invUsed: map[string]bool{},
		sorts: map[string]Sort{}, moved: map[*Term]*movedFrom{}, freshOf: map[*Term]*Term{}, deadline: time.Now().Add(limit)}
	if ex.deadline.After(runDeadline) {
		ex.deadline = runDeadline
	}
	ex.loops = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}
	return ex
}

// Report is the outcome of one verification job.
type Report struct {
	Job       string
	Key       string
	Status    string // proved, failed, unsupported, timeout, invalid, missing
	Reason    string
	Obls      []*Obl
	Returns   int
	Paths     int
	Queries   int
	Z3, CVC5  int
	Unknown   int
	SolverMS  int64
	WallMS    int64
	Called    []string
	Inlined   []string
	Trusted   []string
	Invs      []string
	InvChecks int
}

func keys(m map[string]bool) []string { return sortedSet(m) }

type job struct {
	name     string // contract key, "iface/T" or "lemma:name"
	run      func(ex *Exec)
	key      string
	internal bool
	tags     map[string]bool
	weight   int
}

// jobs lists every verification job of the contract files.
func (p *Program) jobs() []*job {
	var out []*job
	var ks []string
	for k := range p.C.Funcs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ct := p.C.Funcs[k]
		if ct.Trusted {
			continue
		}
		tags := map[string]bool{}
		for _, e := range append(append([]*Clause{}, ct.Ensures...), ct.OnPanic...) {
			for _, t := range e.Tags {
				tags[t] = true
			}
		}
		if ct.Panics != nil {
			for _, t := range ct.Panics.Tags {
				tags[t] = true
			}
		}
		for _, t := range ct.Tags {
			tags[t] = true
		}
		if ct.Iface {
			for _, t := range p.implementers(k) {
				t := t
				ct := ct
				out = append(out, &job{name: k + "/" + p.tkey(t), key: k, tags: tags, run: func(ex *Exec) { ex.verifyIface(ct, t) }})
			}
			continue
		}
		key := k
		out = append(out, &job{name: k, key: k, internal: !ct.Surface, tags: tags, run: func(ex *Exec) { ex.verifyFunc(key, ct) }})
	}
	for _, l := range p.C.Lemmas {
		l := l
		tags := map[string]bool{}
		for _, t := range l.Tags {
			tags[t] = true
		}
		out = append(out, &job{name: "lemma:" + l.Name, key: "lemma:" + l.Name, tags: tags, run: func(ex *Exec) { ex.verifyLemma(l) }})
	}
	for _, o := range p.C.Owns {
		o := o
		tags := map[string]bool{}
		for _, t := range o.Tags {
			tags[t] = true
		}
		out = append(out, &job{name: "owns:" + o.Type, key: "owns:" + o.Type, tags: tags, run: func(ex *Exec) { ex.verifyOwns(o) }})
	}
	return out
}

// verifyOwns: the fields are written only by the functions named, by functions
// only these call, and in objects the writing function has just made.
func (ex *Exec) verifyOwns(o *Owns) {
	p := ex.prog
	ex.returns = 1
	all := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || all[f] {
			return
		}
		all[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range p.Funcs {
		add(f)
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
				}
				if callee != nil {
					if callers[callee] == nil {
						callers[callee] = map[*ssa.Function]bool{}
					}
					callers[callee][f] = true
				}
				for i, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(i == 0 && g == callee) {
						taken[g] = true
					}
				}
			}
		}
	}
	var allowed func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	allowed = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if o.By[p.funcKey(f)] {
			return true
		}
		if seen[f] {
			return true
		}
		seen[f] = true
		if f.Object() == nil || f.Object().Exported() || taken[f] || len(callers[f]) == 0 {
			return false
		}
		for c := range callers[f] {
			if !allowed(c, seen) {
				return false
			}
		}
		return true
	}
	fields := map[string]bool{}
	for _, f := range o.Fields {
		fields[f] = true
	}
	isType := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && p.tkey(n) == o.Type
	}
	ob := ex.obl("owned", "owns", "", o.Tags)
	bad := func(f *ssa.Function, what string) {
		ob.Failed++
		ex.failed++
		ob.Detail += what + " in " + p.funcKey(f) + "; "
	}
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					pt, ok := x.X.Type().Underlying().(*types.Pointer)
					if !ok || !isType(pt.Elem()) || !fields[pt.Elem().Underlying().(*types.Struct).Field(x.Field).Name()] {
						continue
					}
					ob.VCs++
					reads := true
					for _, r := range *x.Referrers() {
						if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
							reads = false
						}
					}
					_, own := x.X.(*ssa.Alloc)
					if !reads && !own && !allowed(f, map[*ssa.Function]bool{}) {
						bad(f, "field written")
					}
				case *ssa.Store:
					_, own := x.Addr.(*ssa.Alloc)
					if isType(x.Val.Type()) && !own {
						ob.VCs++
						if !allowed(f, map[*ssa.Function]bool{}) {
							bad(f, "value written")
						}
					}
				}
			}
		}
	}
}

// implementers: the types of the package a call through the interface method
// can reach.
func (p *Program) implementers(key string) []types.Type {
	i := strings.IndexByte(key, '.')
	tn := p.Pkg.Types.Scope().Lookup(key[:i])
	if tn == nil {
		return nil
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	names := p.Pkg.Types.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		t, ok := p.Pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || t.IsAlias() {
			continue
		}
		if _, isI := t.Type().Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(t.Type(), it) {
			out = append(out, t.Type())
		} else if types.Implements(types.NewPointer(t.Type()), it) {
			out = append(out, types.NewPointer(t.Type()))
		}
	}
	return out
}

func (p *Program) runJob(j *job, act *Active, limit time.Duration, hook func(string)) (rep *Report) {
	t0 := time.Now()
	ex := newExec(p, act, limit)
	ex.hook = hook
	rep = &Report{Job: j.name, Key: j.key}
	defer ex.sol.Close()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				rep.Status, rep.Reason = "unsupported", x.msg
			case specErr:
				rep.Status, rep.Reason = "invalid", x.msg
			case timeout:
				rep.Status, rep.Reason = "timeout", "time limit"
			case missing:
				rep.Status, rep.Reason = "missing", x.msg
			default:
				if os.Getenv("ENGINE_PANIC") != "" {
					panic(r)
				}
				rep.Status, rep.Reason = "unsupported", fmt.Sprintf("engine: %v", r)
			}
		}
		for _, n := range ex.order {
			rep.Obls = append(rep.Obls, ex.obls[n])
		}
		rep.Returns, rep.Paths = ex.returns, ex.paths
		rep.Queries, rep.Z3, rep.CVC5, rep.Unknown = ex.sol.Queries, ex.sol.ByZ3, ex.sol.ByCVC5, ex.sol.Unknown
		if slowLog {
			fmt.Fprintf(os.Stderr, "%s: pre %d %v build %v abs %d %v full %d %v\n", j.name, ex.sol.ByPre, ex.sol.TPre, ex.sol.TBuild, ex.sol.NAbs, ex.sol.TAbs, ex.sol.NFull, ex.sol.TFull)
		}
		rep.SolverMS = ex.sol.Time.Milliseconds()
		rep.WallMS = time.Since(t0).Milliseconds()
		rep.Called, rep.Inlined, rep.Trusted, rep.Invs = keys(ex.called), keys(ex.inlined), keys(ex.trusted), keys(ex.invUsed)
		rep.InvChecks = ex.invChecks
	}()
	j.run(ex)
	rep.Status = "proved"
	for _, n := range ex.order {
		o := ex.obls[n]
		if o.Failed > 0 {
			o.Status = "failed"
			rep.Status = "failed"
		} else {
			o.Status = "proved"
		}
	}
	return rep
}

type missing struct{ msg string }

// sliceElem: objects of the type can be elements of a slice or array, so a
// pointer to one may have an index other than zero.
func (p *Program) sliceElem(t types.Type) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.elemTypes == nil {
		p.elemTypes = map[string]bool{}
		seen := map[types.Type]bool{}
		var visit func(t types.Type)
		visit = func(t types.Type) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			switch x := t.(type) {
			case *types.Named:
				if x.Obj().Pkg() == p.Pkg.Types {
					visit(x.Underlying())
				}
			case *types.Pointer:
				visit(x.Elem())
			case *types.Slice:
				p.elemTypes[p.tkey(x.Elem())] = true
				visit(x.Elem())
			case *types.Array:
				p.elemTypes[p.tkey(x.Elem())] = true
				visit(x.Elem())
			case *types.Map:
				visit(x.Key())
				visit(x.Elem())
			case *types.Struct:
				for i := 0; i < x.NumFields(); i++ {
					visit(x.Field(i).Type())
				}
			case *types.Signature:
				for i := 0; i < x.Params().Len(); i++ {
					visit(x.Params().At(i).Type())
				}
				for i := 0; i < x.Results().Len(); i++ {
					visit(x.Results().At(i).Type())
				}
			}
		}
		for _, n := range p.Pkg.Types.Scope().Names() {
			visit(p.Pkg.Types.Scope().Lookup(n).Type())
		}
		for fn := range ssautil.AllFunctions(p.Prog) {
			if fn.Pkg != p.SSA && (fn.Parent() == nil || fn.Parent().Pkg != p.SSA) {
				continue
			}
			visit(fn.Signature)
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						visit(v.Type())
					}
				}
			}
		}
	}
	return p.elemTypes[p.tkey(t)]
}

// single: objects of the named struct type only ever stand alone (index 0).
func (p *Program) single(root string) bool {
	tn, ok := p.Pkg.Types.Scope().Lookup(root).(*types.TypeName)
	if !ok {
		return root == "bufio.Writer"
	}
	if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
		return false
	}
	return !p.sliceElem(tn.Type())
}

func (st *State) freshParam(name string, t types.Type) Val {
	v := st.freshVal(name, t)
	if pt, ok := v.(*PtrV); ok && st.ex.prog.sliceElem(pt.elem) {
		pt.idx = st.ex.ts.Fresh(name+"#idx", SInt, st.nalloc)
		st.assume(st.ex.ts.Le(st.ex.ts.Int(0), pt.idx))
	}
	return v
}

func (ex *Exec) addModelVars(name string, v Val, t types.Type) {
	switch x := v.(type) {
	case *Term:
		ex.modelVars = append(ex.modelVars, modelVar{name, x})
	case *StructV:
		u := x.t.Underlying().(*types.Struct)
		for i := range x.f {
			ex.addModelVars(name+"."+u.Field(i).Name(), x.f[i], u.Field(i).Type())
		}
	case *SliceV:
		ex.modelVars = append(ex.modelVars, modelVar{"len(" + name + ")", x.len})
		if x.str != nil {
			ex.modelVars = append(ex.modelVars, modelVar{name, x.str})
		}
	}
}

func (ex *Exec) verifyFunc(key string, ct *Contract) {
	fn := ex.prog.Funcs[key]
	if fn == nil || len(fn.Blocks) == 0 {
		panic(missing{"function " + key + " is not in the source"})
	}
	if len(fn.Params) != len(ct.Params) || fn.Signature.Results().Len() != len(ct.Results) {
		panic(missing{"signature of " + key + " differs from its contract"})
	}
	st := ex.newState()
	env := map[string]Val{}
	var args []Val
	for i, p := range fn.Params {
		v := st.freshParam(ct.Params[i], p.Type())
		args = append(args, v)
		env[ct.Params[i]] = v
		ex.addModelVars(ct.Params[i], v, p.Type())
	}
	for _, b := range ct.Binds {
		v := (&evalCtx{ex: ex, st: st, env: env}).lval(b.Expr)
		for i, n := range ct.Params {
			if n == b.Name {
				args[i] = v
				env[n] = v
			}
		}
	}
	ex.fn, ex.ct = fn, ct
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, depth: 0}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	if ct.Then == "" {
		ex.body(st, env, ct, key, func(st *State, k Kont) {
			ex.block(st, f.clone(), fn.Blocks[0], nil, k)
		})
		return
	}
	// the contract of a function that returns a function: of calling it
	pos := -1
	for i, r := range ct.Results {
		if r == ct.Then {
			pos = i
		}
	}
	if pos < 0 {
		panic(missing{"no result " + ct.Then})
	}
	sig, ok := fn.Signature.Results().At(pos).Type().Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != len(ct.ThenArgs) {
		panic(missing{"result of " + key + " differs from its contract"})
	}
	var targs []Val
	for i, p := range ct.ThenArgs {
		v := st.freshParam(p.Name, sig.Params().At(i).Type())
		targs = append(targs, v)
		env[p.Name] = v
	}
	ex.body(st, env, ct, key, func(st *State, k Kont) {
		ex.block(st, f, fn.Blocks[0], nil, func(st *State, res []Val) {
			if st.dead {
				k(st, res)
				return
			}
			fv, ok := res[pos].(*FuncV)
			if !ok || fv.fn == nil {
				unsup("the function returned by %s is not known", key)
			}
			ex.callFn(st, &Frame{fn: fn, env: map[ssa.Value]Val{}}, nil, fv.fn, fv.bind, targs, func(st *State, _ []Val) { k(st, res) })
		})
	})
}

// body checks a contract against the execution run.
func (ex *Exec) body(st *State, env map[string]Val, ct *Contract, key string, run func(*State, Kont)) {
	ts := ex.ts
	ex.env = env
	pre := &evalCtx{ex: ex, st: st, env: env}
	for _, r := range ct.Requires {
		st.assume(ex.evalClause(pre, r))
	}
	for _, l := range ct.Lets {
		env[l.Name] = pre.eval(l.Expr)
	}
	entry := st.clone()
	ex.entry = entry
	// list the obligations so that none disappears when no path reaches it
	for _, e := range ct.Ensures {
		ex.obl(e.Label, "ensures", "", e.Tags)
	}
	ex.obl("frame", "frame", "", ct.Tags)
	live := false
	// a frame that depends on a condition: one run for each outcome
	runs := []*State{st}
	for _, m := range ct.Modifies {
		if m.Cond == nil {
			continue
		}
		var rs []*State
		for _, s := range runs {
			g := s.simp((&evalCtx{ex: ex, st: entry, env: env}).term(m.Cond))
			no := s.clone()
			no.assume(ts.Not(g))
			s.assume(g)
			for _, x := range []*State{s, no} {
				if !x.dead {
					rs = append(rs, x)
				}
			}
		}
		runs = rs
	}
	for _, st := range runs {
		run(st, func(st *State, res []Val) {
			if st.dead {
				return
			}
			ex.returns++
			if !live && st.feasible(ts.True) {
				live = true
			}
			e2 := map[string]Val{}
			for n, v := range env {
				e2[n] = v
			}
			for i, r := range ct.Results {
				e2[r] = res[i]
			}
			c := &evalCtx{ex: ex, st: st, old: entry, env: e2, oldEnv: e2}
			for _, d := range ct.Defines {
				// the path taken must be decided by the arguments alone
				o := ex.obl("defines "+d.Name, "pure", "", ct.Tags)
				o.VCs++
				if h := readsHeap(st.pc); h != nil {
					o.Failed++
					ex.failed++
					o.Detail = "the outcome depends on " + h.name
				}
				st.assume(ts.Eq(c.term(d.Head), c.term(d.Expr)))
			}
			for _, e := range ct.Ensures {
				s2 := st.clone()
				c2 := *c
				c2.st = s2
				s2.check(ex.evalClause(&c2, e), e.Label, "ensures", "", e.Tags)
				if s2.dead {
					break
				}
			}
			ex.frame(st, entry, env, ct)
		})
	}
	o := ex.obl("reachable", "vacuity", "", ct.Tags)
	o.VCs++
	if !live {
		o.Failed++
		ex.failed++
		o.Detail = "no return is reachable under the precondition"
	}
}

// frame: nothing outside the modifies clause changed.
func (ex *Exec) frame(st *State, entry *State, env map[string]Val, ct *Contract) {
	ts := ex.ts
	c := &evalCtx{ex: ex, st: entry, env: env}
	heapTypes := map[string]bool{}
	type loc struct {
		p    *PtrV
		cond *Term
	}
	var locs []loc
	ghosts := map[*Term]string{}
	type el struct {
		hp *PtrV
		s  *SliceV
		lo *Term
	}
	var els []el
	for _, m := range ct.Modifies {
		cond := ts.True
		if m.Cond != nil {
			cond = c.term(m.Cond)
		}
		switch m.Kind {
		case "loc":
			if cond != ts.True {
				switch g := st.simp(cond); {
				case g == ts.False || g != ts.True && st.prove(ts.Not(g), true):
					continue
				case g == ts.True || st.prove(g, true):
					cond = ts.True
				}
			}
			locs = append(locs, loc{c.lval(m.Expr), cond})
		case "ghost":
			ghosts[c.bufio(c.eval(m.Expr))] = "all"
		case "ioerr":
			ref := c.bufio(c.eval(m.Expr))
			if ghosts[ref] == "" {
				ghosts[ref] = "err"
			}
		case "heap":
			heapTypes[ex.prog.tkey(c.typeArg(m.Expr))] = true
		case "elems":
			if m.Cond != nil {
				if g := st.simp(c.term(m.Cond)); g == ts.False || g != ts.True && !st.prove(g, true) {
					continue
				}
			}
			hp := c.lval(m.Expr)
			els = append(els, el{hp, entry.load(hp).(*SliceV), c.term(m.Lo)})
		}
	}
	for _, k := range sortedKeys(st.heap) {
		h1 := st.heap[k]
		root := compRoot(k)
		path := k[len(root)+1:]
		if heapTypes[root] || root == "trace" {
			continue
		}
		if !ex.prog.known(path) {
			continue
		}
		_, h0 := entry.compK(k, elemSort(elemSort(h1.sort)))
		if h0 == h1 {
			continue
		}
		var allowed []frameLoc
		if root == "bufio.Writer" {
			for ref, kind := range ghosts {
				if kind == "all" || path != "$out" {
					allowed = append(allowed, frameLoc{base: ref, whole: true})
				}
			}
		}
		for _, l := range locs {
			if ex.prog.tkey(l.p.root) == root && pathPrefix(path, l.p.path) && l.cond == ts.True {
				allowed = append(allowed, frameLoc{base: l.p.base, idx: l.p.idx})
			}
		}
		easy := true
		for _, e := range els {
			if ex.prog.tkey(e.hp.root) == root && pathPrefix(path, e.hp.path) {
				allowed = append(allowed, frameLoc{base: e.hp.base, idx: e.hp.idx})
			} else if ex.prog.tkey(e.s.elem) == root {
				n := st.load(e.hp).(*SliceV)
				from := ts.Add(e.s.off, e.lo)
				if n.base == e.s.base {
					allowed = append(allowed, frameLoc{base: e.s.base, lo: from})
				} else {
					allowed = append(allowed, frameLoc{base: e.s.base, whole: true})
					if !ex.frameArr(st, ts.Select(h1, n.base), ts.Select(h0, e.s.base), []frameLoc{{lo: from}}) {
						easy = false
					}
				}
			}
		}
		if easy && ex.frameSyn(st, h1, h0, entry.nalloc, allowed) {
			o := ex.obl("frame", "frame", "", ct.Tags)
			o.VCs++
			o.Trivial++
			continue
		}
		if os.Getenv("FRAMELOG") != "" {
			fmt.Fprintf(os.Stderr, "frame %s easy %v\n   %s\n   %s\n", k, easy, ts.show(h1, 6), ts.show(h0, 3))
		}
		b := ts.Fresh("frame.base", SInt, 0)
		i := ts.Fresh("frame.idx", SInt, 0)
		if ex.prog.single(root) {
			i = ts.Int(0)
		}
		var allow []*Term
		if root == "bufio.Writer" {
			for ref, kind := range ghosts {
				if kind == "all" || path != "$out" {
					allow = append(allow, ts.Eq(b, ref))
				}
			}
		}
		for _, l := range locs {
			if ex.prog.tkey(l.p.root) != root || !pathPrefix(path, l.p.path) {
				continue
			}
			allow = append(allow, ts.And(ts.Eq(b, l.p.base), ts.Eq(i, l.p.idx), l.cond))
		}
		for _, e := range els {
			if ex.prog.tkey(e.hp.root) == root && pathPrefix(path, e.hp.path) {
				allow = append(allow, ts.And(ts.Eq(b, e.hp.base), ts.Eq(i, e.hp.idx)))
				continue
			}
			if ex.prog.tkey(e.s.elem) == root {
				n := st.load(e.hp).(*SliceV)
				if ts.Eq(n.base, e.s.base) == ts.True {
					allow = append(allow, ts.And(ts.Eq(b, e.s.base), ts.Le(ts.Add(e.s.off, e.lo), i)))
				} else {
					allow = append(allow, ts.Eq(b, e.s.base))
					for x := range ex.moved {
						if ex.newOrIn(x, e.s.base, entry.nalloc) {
							allow = append(allow, ts.Eq(b, x))
						}
					}
					// the live prefix moved along unchanged
					j := ts.Fresh("frame.j", SInt, 0)
					in := ts.And(ts.Le(e.s.off, j), ts.Lt(j, ts.Add(e.s.off, e.lo)))
					st.clone().check(ts.Implies(in, ts.Eq(ts.Select(ts.Select(h1, n.base), j), ts.Select(ts.Select(h0, e.s.base), j))), "frame", "frame", k, ct.Tags)
				}
			}
		}
		s2 := st.clone()
		g := ts.Or(append(allow, ts.Eq(ts.Select(ts.Select(h1, b), i), ts.Select(ts.Select(h0, b), i)))...)
		o := ex.obl("frame", "frame", "", ct.Tags)
		was := o.Failed
		s2.check(g, "frame", "frame", "", ct.Tags)
		if o.Failed > was && was == 0 {
			o.Detail = k + " may change: " + o.Detail
		}
	}
	for _, e := range els {
		n := st.load(e.hp).(*SliceV)
		fresh := ex.newOrIn(n.base, e.s.base, entry.nalloc)
		g := ts.And(ts.Eq(n.off, e.s.off), ts.Le(e.s.len, n.len))
		if !fresh {
			g = ts.And(g, ts.Eq(n.base, e.s.base))
		}
		st.clone().check(g, "frame", "frame", "", ct.Tags)
	}
}

// newOrIn: the base is either b or one allocated after nalloc. Where no b is
// given, it may also be nil: there is nothing to write to in a nil slice.
func (ex *Exec) newOrIn(x, b *Term, nalloc int) bool {
	for _, y := range ex.chain(x) {
		if y == b || b == nil && y == ex.ts.Int(0) || isRefLit(y) && int(-y.n.Int64()-refBase) > nalloc {
			return true
		}
	}
	return false
}

// frameLoc: memory a contract lets its function change.
type frameLoc struct {
	base  *Term
	whole bool
	idx   *Term // one index
	lo    *Term // every index from lo on
}

// frameSyn walks the stores between two memories: every one goes to a new
// object or to a permitted place.
func (ex *Exec) frameSyn(st *State, h1, h0 *Term, nalloc int, allowed []frameLoc) bool {
	ts := ex.ts
	for h := h1; h != h0; h = h.args[0] {
		if h.op != "store" {
			return false
		}
		base := h.args[1]
		if ex.newOrIn(base, nil, nalloc) {
			continue
		}
		var al []frameLoc
		whole := false
		for _, x := range ex.chain(base) {
			for _, a := range allowed {
				if a.base == x || st.simp(ts.Eq(a.base, x)) == ts.True {
					al = append(al, a)
					whole = whole || a.whole
				}
			}
		}
		if whole {
			continue
		}
		if !ex.frameArr(st, h.args[2], ts.Select(h.args[0], base), al) {
			return false
		}
	}
	return true
}

func (ex *Exec) frameArr(st *State, a1, a0 *Term, allowed []frameLoc) bool {
	ts := ex.ts
	above := func(i *Term) bool {
		for _, l := range allowed {
			if l.lo != nil && st.prove(ts.Le(l.lo, i), false) {
				return true
			}
		}
		return false
	}
	allow := func(a *Term) bool {
		switch a.op {
		case "store":
			for _, l := range allowed {
				if l.idx != nil && (l.idx == a.args[1] || st.simp(ts.Eq(l.idx, a.args[1])) == ts.True) {
					return true
				}
			}
			return above(a.args[1])
		case "merge":
			return above(a.args[1])
		}
		return false
	}
	// the last writes to a0 may have been overwritten
	tail := map[*Term]bool{a0: true}
	next := a0
	for a := a1; !tail[a]; a = a.args[0] {
		if !allow(a) {
			// step down a0 instead
			for !tail[a] && allow(next) {
				next = next.args[0]
				tail[next] = true
			}
			return tail[a]
		}
		if a.args[0].op != "store" && a.args[0].op != "merge" {
			for !tail[a.args[0]] && allow(next) {
				next = next.args[0]
				tail[next] = true
			}
		}
	}
	return true
}

// readsHeap: a memory component the conditions mention.
func readsHeap(pc []*Term) *Term {
	seen := map[*Term]bool{}
	var visit func(t *Term) *Term
	visit = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.op == "var" && strings.HasPrefix(string(t.sort), "(Array") {
			return t
		}
		for _, a := range t.args {
			if r := visit(a); r != nil {
				return r
			}
		}
		return nil
	}
	for _, t := range pc {
		if r := visit(t); r != nil {
			return r
		}
	}
	return nil
}

func pathPrefix(path, pre string) bool {
	if !strings.HasPrefix(path, pre) {
		return false
	}
	r := path[len(pre):]
	return r == "" || r[0] == '.' || r[0] == '#' || r[0] == '['
}

// known reports whether the contract files mention the fields of a component.
// Contracts make no promise about the others: every application forgets them.
func (p *Program) known(path string) bool {
	if strings.HasPrefix(path, "$") {
		return true
	}
	for _, f := range strings.FieldsFunc(path, func(r rune) bool { return r == '.' || r == '#' || r == '[' || r == ']' }) {
		switch f {
		case "base", "off", "len", "cap", "ref", "idx":
			continue
		}
		if f[0] >= '0' && f[0] <= '9' {
			continue
		}
		if !p.C.Words[f] {
			return false
		}
	}
	return true
}

// forgetUnknown havocs the fields no contract mentions.
func (ex *Exec) forgetUnknown(st *State) {
	for _, k := range sortedKeys(st.heap) {
		root := compRoot(k)
		if root == "bufio.Writer" || root == "trace" {
			continue
		}
		if !ex.prog.known(k[len(root)+1:]) {
			st.heap[k] = ex.ts.Fresh("X:"+k, st.heap[k].sort, st.nalloc)
		}
	}
}

// verifyIface checks one implementation against the contract of the interface
// method.
func (ex *Exec) verifyIface(ct *Contract, t types.Type) {
	i := strings.IndexByte(ct.Key, '.')
	it := ex.prog.Pkg.Types.Scope().Lookup(ct.Key[:i]).Type()
	name := ct.Key[i+1:]
	obj, _, _ := types.LookupFieldOrMethod(it, false, ex.prog.Pkg.Types, name)
	m, ok := obj.(*types.Func)
	if !ok {
		panic(missing{"no method " + ct.Key})
	}
	sig := m.Type().(*types.Signature)
	if sig.Params().Len()+1 != len(ct.Params) || sig.Results().Len() != len(ct.Results) {
		panic(missing{"signature of " + ct.Key + " differs from its contract"})
	}
	st := ex.newState()
	env := map[string]Val{}
	rv := st.freshVal(ct.Params[0], t)
	ex.addModelVars(ct.Params[0], rv, t)
	if p, ok := rv.(*PtrV); ok {
		st.assume(ex.ts.Not(ex.ts.Eq(p.base, ex.ts.Int(0))))
	}
	l := ex.ts.flatten(rv, t)
	for i, lf := range ex.prog.leaves(t) {
		if ex.prog.zeroLeaf(t, lf.Path) {
			st.assume(ex.ts.Eq(l[i], ex.ts.zeroOf(lf.Sort)))
		}
	}
	recv := ex.mkIface(nil, rv, t).(*Term)
	env[ct.Params[0]] = recv
	args := []Val{rv}
	for i := 0; i < sig.Params().Len(); i++ {
		v := st.freshParam(ct.Params[i+1], sig.Params().At(i).Type())
		env[ct.Params[i+1]] = v
		args = append(args, v)
		ex.addModelVars(ct.Params[i+1], v, sig.Params().At(i).Type())
	}
	sel := ex.prog.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), name)
	if sel == nil {
		panic(missing{"no method " + name})
	}
	fn := ex.prog.Prog.MethodValue(sel)
	ex.fn, ex.ct = fn, ct
	ex.body(st, env, ct, ct.Key, func(st *State, k Kont) {
		fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
		ex.callFn(st, &Frame{env: fr.env}, nil, fn, nil, args, k)
	})
}

func (ex *Exec) verifyLemma(l *Lemma) {
	ex.ts.natAt = true
	st := ex.newState()
	env := map[string]Val{}
	for _, p := range l.Params {
		if s, ok := scalarSort(p.Type); ok {
			v := ex.ts.Fresh(p.Name, s, 0)
			env[p.Name] = v
			ex.modelVars = append(ex.modelVars, modelVar{p.Name, v})
			continue
		}
		env[p.Name] = st.freshParam(p.Name, ex.evalType(p.Type))
	}
	c := &evalCtx{ex: ex, st: st, old: st, env: env}
	for _, a := range l.Assume {
		st.assume(ex.evalBool(c, a))
	}
	for i, s := range l.Show {
		st.check(ex.evalBool(c, s), fmt.Sprintf("show%d", i+1), "lemma", "", l.Tags)
	}
	ex.returns = 1
	_ = ast.Expr(nil)
}
