package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	ex     *Exec
	heap   map[string]*Term
	epoch  map[string]int // root -> epoch of lazily created components
	epAll  map[string]int // root -> allocation count at that epoch
	pc     []*Term
	pcset  map[*Term]bool
	known  map[*Term]*Term
	ub     map[*Term]*big.Int // upper bounds of linear forms without constant
	alias  map[*Term]*Term    // variable -> the older term it equals
	ors    []*Term            // disjunctions on the path
	iters  map[int]*Term
	nalloc int
	dead   bool
}

func (st *State) clone() *State {
	n := &State{ex: st.ex, heap: make(map[string]*Term, len(st.heap)), pc: st.pc[:len(st.pc):len(st.pc)],
		pcset: make(map[*Term]bool, len(st.pcset)), known: make(map[*Term]*Term, len(st.known)), ub: make(map[*Term]*big.Int, len(st.ub)),
		iters: make(map[int]*Term, len(st.iters)), nalloc: st.nalloc, dead: st.dead,
		epoch: st.epoch, epAll: st.epAll}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k := range st.pcset {
		n.pcset[k] = true
	}
	for k, v := range st.known {
		n.known[k] = v
	}
	for k, v := range st.ub {
		n.ub[k] = v
	}
	n.alias = make(map[*Term]*Term, len(st.alias))
	for k, v := range st.alias {
		n.alias[k] = v
	}
	n.ors = st.ors[:len(st.ors):len(st.ors)]
	for k, v := range st.iters {
		n.iters[k] = v
	}
	return n
}

func (st *State) assume(t *Term) {
	ts := st.ex.ts
	if t == ts.True || st.dead {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	t = st.simp(t)
	if t == ts.True {
		return
	}
	if t == ts.False {
		st.dead = true
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	if st.pcset[t] {
		return
	}
	st.pcset[t] = true
	st.pc = append(st.pc, t)
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if b.isConst() {
			st.known[a] = b
		} else if a.isConst() {
			st.known[b] = a
		} else if a.sort == SInt {
			l, m, k := ts.linPart(ts.Sub(a, b))
			st.bound(l, new(big.Int).Neg(k))
			st.bound(m, k)
		}
		if x, v := ts.solved(t); x != nil && st.alias[x] == nil {
			st.alias[x] = v
		}
	}
	if t.op == "<=0" {
		l, _, k := ts.linPart(t.args[0])
		st.bound(l, new(big.Int).Neg(k))
	}
	if t.op == "or" {
		st.ors = append(st.ors, t)
		return
	}
	// disjunctions that the new fact decides
	n := ts.Not(t)
	for i := 0; i < len(st.ors) && !st.dead; i++ {
		o := st.ors[i]
		for _, a := range o.args {
			if a != n {
				continue
			}
			st.pcset[o] = false
			if r := st.simp(o); r != o && r.op != "or" && r != ts.True {
				rest := append([]*Term{}, st.ors[:i]...)
				st.ors = append(rest, st.ors[i+1:]...)
				i--
				st.pcset[o] = true
				st.assume(r)
			} else {
				st.pcset[o] = true
			}
			break
		}
	}
}

// solved: an equation that gives a variable the value of an older term.
func (ts *TS) solved(t *Term) (*Term, *Term) {
	try := func(x, v *Term) bool {
		return x.op == "var" && x.seq > 0 && maxSeq(v, map[*Term]bool{}) < x.seq
	}
	a, b := t.args[0], t.args[1]
	if try(a, b) {
		return a, b
	}
	if try(b, a) {
		return b, a
	}
	if a.sort != SInt || a.op != "+" || !b.isLit() {
		return nil, nil
	}
	for i, x := range a.args {
		if x.op != "var" || x.seq == 0 || a.coef[i].CmpAbs(one) != 0 {
			continue
		}
		// c*x + rest = b, with c = 1 or -1
		l := newLin()
		l.add(b, a.coef[i])
		l.add(a, new(big.Int).Neg(a.coef[i]))
		l.addAtom(x, one)
		if v := ts.fromLin(l); try(x, v) {
			return x, v
		}
	}
	return nil, nil
}

func (st *State) bound(l *Term, u *big.Int) {
	if o := st.ub[l]; o == nil || u.Cmp(o) < 0 {
		st.ub[l] = u
	}
}

// linPart splits d into a linear form l, its negation m and a constant k.
func (ts *TS) linPart(d *Term) (l, m *Term, k *big.Int) {
	if x, ok := ts.linCache[d]; ok {
		return x.l, x.m, x.k
	}
	a, b := newLin(), newLin()
	a.add(d, one)
	b.add(d, mone)
	k = new(big.Int).Set(a.k)
	a.k.SetInt64(0)
	b.k.SetInt64(0)
	l, m = ts.fromLin(a), ts.fromLin(b)
	if ts.linCache == nil {
		ts.linCache = map[*Term]linParts{}
	}
	ts.linCache[d] = linParts{l, m, k}
	return
}

type linParts struct {
	l, m *Term
	k    *big.Int
}

// decideLe decides d <= 0 from the bounds on the path: 1 true, -1 false.
func (st *State) decideLe(d *Term) int {
	l, m, k := st.ex.ts.linPart(d)
	if u := st.ub[l]; u != nil && new(big.Int).Add(u, k).Sign() <= 0 {
		return 1
	}
	if u := st.ub[m]; u != nil && k.Cmp(u) > 0 {
		return -1
	}
	return 0
}

// decideEq decides d = 0.
func (st *State) decideEq(d *Term) int {
	l, m, k := st.ex.ts.linPart(d)
	ul, um := st.ub[l], st.ub[m]
	if ul != nil && new(big.Int).Add(ul, k).Sign() < 0 || um != nil && k.Cmp(um) > 0 {
		return -1
	}
	if ul != nil && um != nil && new(big.Int).Add(ul, k).Sign() == 0 && k.Cmp(um) == 0 {
		return 1
	}
	return 0
}

// sel reads an array, resolving the stores that the path decides.
func (st *State) sel(a, i *Term) *Term {
	ts := st.ex.ts
	for {
		var c *Term
		switch a.op {
		case "store":
			c = st.simp(ts.Eq(a.args[1], i))
			if c == ts.True {
				return a.args[2]
			}
			if c == ts.False {
				a = a.args[0]
				continue
			}
			return ts.Ite(c, a.args[2], st.sel(a.args[0], i))
		case "merge":
			c = ts.Le(a.args[1], i)
			if a.args[2] != ts.Int(inf) {
				c = ts.And(c, ts.Lt(i, a.args[2]))
			}
			c = st.simp(c)
			if c == ts.True {
				a = a.args[3]
				continue
			}
			if c == ts.False {
				a = a.args[0]
				continue
			}
			return ts.Ite(c, st.sel(a.args[3], i), st.sel(a.args[0], i))
		case "ite":
			c = st.simp(a.args[0])
			if c == ts.True {
				a = a.args[1]
				continue
			}
			if c == ts.False {
				a = a.args[2]
				continue
			}
			return ts.Ite(c, st.sel(a.args[1], i), st.sel(a.args[2], i))
		}
		return ts.Select(a, i)
	}
}

// simp simplifies a boolean term using facts already on the path.
func (st *State) simp(t *Term) *Term {
	ts := st.ex.ts
	if t.sort != SBool || t.isConst() {
		return t
	}
	if st.pcset[t] {
		return ts.True
	}
	if st.pcset[ts.Not(t)] {
		return ts.False
	}
	switch t.op {
	case "and", "or":
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = st.simp(a)
			if as[i] != a {
				ch = true
			}
		}
		if ch {
			if t.op == "and" {
				return ts.And(as...)
			}
			return ts.Or(as...)
		}
	case "not":
		a := st.simp(t.args[0])
		if a != t.args[0] {
			return ts.Not(a)
		}
	case "=":
		a, b := t.args[0], t.args[1]
		ka, kb := st.known[a], st.known[b]
		if ka != nil && b.isConst() {
			return ts.Eq(ka, b)
		}
		if kb != nil && a.isConst() {
			return ts.Eq(kb, a)
		}
		if ka != nil && kb != nil {
			return ts.Eq(ka, kb)
		}
		if a.sort == SInt {
			switch st.decideEq(ts.Sub(a, b)) {
			case 1:
				return ts.True
			case -1:
				return ts.False
			}
		}
	case "<=0":
		d := t.args[0]
		switch st.decideLe(d) {
		case 1:
			return ts.True
		case -1:
			return ts.False
		}
		if d.op == "+" {
			l := newLin()
			l.k.Set(d.n)
			ch := false
			for i, a := range d.args {
				if k := st.known[a]; k != nil {
					l.k.Add(l.k, new(big.Int).Mul(k.n, d.coef[i]))
					ch = true
				} else {
					l.addAtom(a, d.coef[i])
				}
			}
			if ch {
				return ts.Le(ts.fromLin(l), ts.Int(0))
			}
		} else if k := st.known[d]; k != nil {
			return ts.Le(k, ts.Int(0))
		}
	case "ite":
		c := st.simp(t.args[0])
		if c == ts.True {
			return st.simp(t.args[1])
		}
		if c == ts.False {
			return st.simp(t.args[2])
		}
	}
	return t
}

// ---- heap

func (st *State) comp(root types.Type, path string, s Sort) (string, *Term) {
	return st.compK(compKey(st.ex.prog, root, path), s)
}

func (st *State) compK(k string, s Sort) (string, *Term) {
	if t, ok := st.heap[k]; ok {
		return k, t
	}
	r := compRoot(k)
	t := st.ex.ts.Var(fmt.Sprintf("H%d:%s", st.epoch[r], k), arrSort(arrSort(s)))
	st.ex.sorts[k] = s
	if t.lbc < st.epAll[r] {
		t.lbc = st.epAll[r]
	}
	st.heap[k] = t
	return k, t
}

func (st *State) loadLeaf(root types.Type, path string, s Sort, base, idx *Term) *Term {
	_, h := st.comp(root, path, s)
	t := st.simpIte(st.sel(st.sel(h, base), idx))
	for st.alias[t] != nil {
		t = st.alias[t]
	}
	return t
}

// simpIte resolves top-level ites whose condition is known on the path.
func (st *State) simpIte(t *Term) *Term {
	for t.op == "ite" {
		c := st.simp(t.args[0])
		if c == st.ex.ts.True {
			t = t.args[1]
		} else if c == st.ex.ts.False {
			t = t.args[2]
		} else {
			break
		}
	}
	return t
}

func (st *State) storeLeaf(root types.Type, path string, base, idx, v *Term) {
	k, h := st.comp(root, path, v.sort)
	ts := st.ex.ts
	st.heap[k] = ts.Store(h, base, ts.Store(st.sel(h, base), idx, v))
}

func (st *State) load(p *PtrV) Val {
	ts := st.ex.ts
	if p.str != nil {
		return ts.At(p.str, p.idx)
	}
	if p.table != nil {
		if p.table.Bytes != nil {
			s := ts.Str(*p.table.Bytes)
			n := ts.Len(s)
			return &SliceV{elem: p.table.Elem, base: ts.Int(int64(700000 + st.ex.prog.globID(p.table.Name))), off: ts.Int(0), len: n, cap: n, str: s}
		}
		if p.table.Const != nil {
			return st.ex.constVal(st, p.table.Const)
		}
		if p.table.Err {
			e := ts.Var("errvar:"+p.table.Name, SInt)
			st.assume(ts.Not(ts.Eq(e, ts.Int(0))))
			return e
		}
		if p.tindex != nil {
			return p.table.lookup(ts, p.tindex)
		}
		unsup("load of whole table %s", p.table.Name)
	}
	var l []*Term
	for _, lf := range ts.prog.leaves(p.elem) {
		l = append(l, st.loadLeaf(p.root, p.path+lf.Path, lf.Sort, p.base, p.idx))
	}
	v, _ := ts.unflatten(l, p.elem)
	if s, ok := v.(*SliceV); ok && isByteSlice(p.elem) {
		s.str = st.bytesOf(s)
	}
	st.typeFacts(v, p.elem)
	return v
}

// bytesOf: contents of a byte slice in the heap as a string.
func (st *State) bytesOf(s *SliceV) *Term {
	if s.str != nil {
		return s.str
	}
	ts := st.ex.ts
	_, h := st.comp(s.elem, "", SInt)
	t := ts.UF("bytes", SStr, ts.Select(h, s.base), s.off, s.len)
	st.assume(ts.Eq(ts.Len(t), s.len))
	return t
}

func (st *State) store(p *PtrV, v Val) {
	ts := st.ex.ts
	if p.str != nil || p.table != nil {
		unsup("store to constant data")
	}
	lv := ts.flatten(v, p.elem)
	for i, lf := range ts.prog.leaves(p.elem) {
		st.storeLeaf(p.root, p.path+lf.Path, p.base, p.idx, lv[i])
	}
}

func (st *State) newRef() *Term {
	st.nalloc++
	return st.ex.ts.refLit(st.nalloc)
}

// alloc allocates a zeroed object (or array object) of type t.
func (st *State) alloc(t types.Type) *PtrV {
	ts := st.ex.ts
	r := st.newRef()
	if a, ok := t.Underlying().(*types.Array); ok {
		st.zeroObj(r, a.Elem())
		return &PtrV{root: a.Elem(), base: r, idx: ts.Int(0), elem: t}
	}
	st.zeroObj(r, t)
	return &PtrV{root: t, base: r, idx: ts.Int(0), elem: t}
}

func (st *State) zeroObj(r *Term, t types.Type) {
	ts := st.ex.ts
	z := ts.flatten(ts.zero(t), t)
	for i, lf := range ts.prog.leaves(t) {
		k, h := st.comp(t, lf.Path, lf.Sort)
		st.heap[k] = ts.Store(h, r, ts.Konst(z[i]))
	}
}

// ---- execution

type Kont func(st *State, res []Val)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type activeLoop struct {
	l      *Loop
	trial  bool
	onBack func(st *State, fr *Frame, prev *ssa.BasicBlock)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	active []*activeLoop
	depth  int
	parent *Frame
	defers []*ssa.Defer
}

func (fr *Frame) clone() *Frame {
	n := &Frame{fn: fr.fn, env: make(map[ssa.Value]Val, len(fr.env)+4), active: fr.active[:len(fr.active):len(fr.active)], depth: fr.depth, parent: fr.parent, defers: fr.defers[:len(fr.defers):len(fr.defers)]}
	for k, v := range fr.env {
		n.env[k] = v
	}
	return n
}

// Obl is one named proof obligation, possibly checked on many paths.
type Obl struct {
	Name    string
	Kind    string
	Tags    []string
	Pos     string
	VCs     int
	Failed  int
	Trivial int
	Detail  string
	Model   map[string]string
	Status  string
}

type Exec struct {
	prog                  *Program
	ts                    *TS
	sol                   *Solver
	fn                    *ssa.Function
	ct                    *Contract
	act                   *Active
	obls                  map[string]*Obl
	order                 []string
	mute                  int
	cut                   int
	loops                 map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	bounded               map[*ssa.BasicBlock]int // 1 bounded (unroll), 2 needs invariant
	entry                 *State
	env                   map[string]Val // contract environment (params)
	niter                 int
	paths                 int
	deadline              time.Time
	returns               int
	inlined               map[string]bool
	called                map[string]bool
	hook                  func(string) // a contract is applied for the first time
	trusted               map[string]bool
	stack                 []*ssa.Function
	failed                int
	loopInv               map[string]int
	modelVars             []modelVar
	nepoch                int
	dynCalls              int
	invariants, invChecks int
	invUsed               map[string]bool
	sorts                 map[string]Sort
	words                 map[string]bool
	moved                 map[*Term]*movedFrom
	freshOf               map[*Term]*Term // array of a slice variable -> array it started with, both new
}

type modelVar struct {
	name string
	t    *Term
}

type timeout struct{}

func (ex *Exec) tick() {
	if time.Now().After(ex.deadline) {
		panic(timeout{})
	}
}

func (ex *Exec) obl(name, kind, pos string, tags []string) *Obl {
	o := ex.obls[name]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, Pos: pos, Tags: tags}
		ex.obls[name] = o
		ex.order = append(ex.order, name)
	}
	return o
}

// prove reports whether the path condition entails c.
func (st *State) prove(c *Term, full bool) bool {
	if st.dead {
		return true
	}
	ts := st.ex.ts
	c = st.simp(c)
	if c == ts.True {
		return true
	}
	if c.op == "and" {
		for _, a := range c.args {
			if !st.prove(a, full) {
				return false
			}
		}
		return true
	}
	st.ex.tick()
	r, _ := st.ex.sol.Check(append(st.pc[:len(st.pc):len(st.pc)], ts.Not(c)), full, nil)
	return r == "unsat"
}

func (st *State) feasible(c *Term) bool {
	if st.dead {
		return false
	}
	c = st.simp(c)
	if c == st.ex.ts.False {
		return false
	}
	if c == st.ex.ts.True {
		return true
	}
	st.ex.tick()
	r, _ := st.ex.sol.Check(append(st.pc[:len(st.pc):len(st.pc)], c), false, nil)
	return r != "unsat"
}

// check records an obligation and then assumes it.
func (st *State) check(c *Term, name, kind, pos string, tags []string) {
	ex := st.ex
	if ex.mute > 0 || st.dead {
		st.assume(c)
		return
	}
	o := ex.obl(name, kind, pos, tags)
	o.VCs++
	if o.Failed > 0 {
		// already failed on another path
		o.Failed++
		st.assume(c)
		return
	}
	s := st.simp(c)
	if s == ex.ts.True {
		o.Trivial++
		return
	}
	if !st.prove(c, true) {
		o.Failed++
		ex.failed++
		o.Detail = ex.ts.show(s, 9)
		if dropLog {
			ex.dumpVC(st, s, "drop VC "+name)
		}
		ex.model(st, s, o)
		if kind == "safety" || kind == "pre" {
			// continue as if it held
		}
	}
	st.assume(c)
}

var dropLog = os.Getenv("DROPS") != ""

// dumpVC shows the facts of a condition that was not proved, simplified.
func (ex *Exec) dumpVC(st *State, c *Term, what string) {
	ts := ex.ts
	fmt.Fprintln(os.Stderr, what)
	fs, _ := ts.presolve(append(st.pc[:len(st.pc):len(st.pc)], ts.Not(c)))
	if f2, _ := ts.unfoldAll(fs); f2 != nil {
		fs = f2
	}
	for _, f := range fs {
		fmt.Fprintln(os.Stderr, "   pc "+ts.show(f, 20))
	}
	fmt.Fprintln(os.Stderr, "drop END")
}

func (ex *Exec) model(st *State, c *Term, o *Obl) {
	var want []*Term
	for _, v := range ex.modelVars {
		want = append(want, v.t)
	}
	if len(want) == 0 {
		return
	}
	r, m := ex.sol.Check(append(st.pc[:len(st.pc):len(st.pc)], ex.ts.Not(c)), true, want)
	if r == "sat" && m != nil {
		o.Model = map[string]string{}
		for _, v := range ex.modelVars {
			o.Model[v.name] = m[v.t]
		}
	}
}

func (ex *Exec) safety(st *State, c *Term, what string, pos token.Pos) {
	st.check(c, fmt.Sprintf("safety:%s@%s", what, ex.prog.pos(pos)), "safety", ex.prog.pos(pos), []string{ex.prog.C.SafetyTag})
}

func (ex *Exec) findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := ex.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	ex.loops[fn] = m
	return m
}

func (ex *Exec) block(st *State, fr *Frame, b, prev *ssa.BasicBlock, k Kont) {
	ex.tick()
	if st.dead {
		return
	}
	// leaving loops
	for len(fr.active) > 0 {
		a := fr.active[len(fr.active)-1]
		if a.l.body[b] {
			break
		}
		if a.trial {
			return
		}
		fr.active = fr.active[:len(fr.active)-1]
	}
	if l := ex.findLoops(fr.fn)[b]; l != nil {
		if n := len(fr.active); n > 0 && fr.active[n-1].l == l {
			fr.active[n-1].onBack(st, fr, prev)
			return
		}
		ex.loop(st, fr, l, prev, k)
		return
	}
	ex.enter(st, fr, b, prev, k)
}

func (ex *Exec) phiVals(fr *Frame, st *State, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m[ph] = ex.val(st, fr, ph.Edges[pi])
	}
	return m
}

func (ex *Exec) enter(st *State, fr *Frame, b, prev *ssa.BasicBlock, k Kont) {
	if prev != nil {
		for ph, v := range ex.phiVals(fr, st, b, prev) {
			fr.env[ph] = v
		}
	}
	ex.instrs(st, fr, b, 0, k)
}

func (ex *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k Kont) {
	ts := ex.ts
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			ex.block(st, fr, b.Succs[0], b, k)
			return
		case *ssa.If:
			c := st.simp(ex.val(st, fr, in.Cond).(*Term))
			ex.branch(st, c, func(s *State) { ex.block(s, fr.clone(), b.Succs[0], b, k) },
				func(s *State) { ex.block(s, fr.clone(), b.Succs[1], b, k) })
			return
		case *ssa.Return:
			for _, a := range fr.active {
				if a.trial {
					return
				}
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, ex.val(st, fr, r))
			}
			k(st, res)
			return
		case *ssa.Panic:
			for _, a := range fr.active {
				if a.trial {
					return
				}
			}
			for f := fr; f != nil; f = f.parent {
				if len(f.defers) > 0 {
					unsup("panic past a deferred call")
				}
			}
			ex.panics(st, fr, in)
			return
		case *ssa.Call:
			idx := i
			ex.call(st, fr, in, func(s *State, res []Val) {
				f2 := fr.clone()
				if len(res) == 1 {
					f2.env[in] = res[0]
				} else if len(res) > 1 {
					f2.env[in] = TupleV(res)
				}
				ex.instrs(s, f2, b, idx+1, k)
			})
			return
		case *ssa.Store:
			st.storeChecked(ex, ex.val(st, fr, in.Addr).(*PtrV), ex.val(st, fr, in.Val), in.Pos())
		case *ssa.Defer:
			if repeats(b) {
				unsup("deferred call in a loop")
			}
			fr.defers = append(fr.defers, in)
		case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MapUpdate:
			unsup("instruction %T", in)
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				// the last one; its operands are values that have not changed since
				f2 := fr.clone()
				f2.defers = fr.defers[:n-1]
				idx := i
				ex.call(st, f2, &ssa.Call{Call: fr.defers[n-1].Call}, func(s *State, _ []Val) {
					ex.instrs(s, f2.clone(), b, idx, k)
				})
				return
			}
		case ssa.Value:
			fr.env[in] = ex.instr(st, fr, in)
		default:
			unsup("instruction %T", in)
		}
	}
	_ = ts
}

// repeats: the block may run more than once.
func repeats(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func (st *State) storeChecked(ex *Exec, p *PtrV, v Val, pos token.Pos) {
	ex.safety(st, ex.ts.Not(ex.ts.Eq(p.base, ex.ts.Int(0))), "nil store", pos)
	st.store(p, v)
}

func (ex *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	ts := ex.ts
	if c == ts.True {
		yes(st)
		return
	}
	if c == ts.False {
		no(st)
		return
	}
	ex.paths++
	fy := st.feasible(c)
	if !fy {
		st.assume(ts.Not(c))
		no(st)
		return
	}
	fn := st.feasible(ts.Not(c))
	if !fn {
		st.assume(c)
		yes(st)
		return
	}
	s2 := st.clone()
	s2.assume(c)
	yes(s2)
	st.assume(ts.Not(c))
	no(st)
}

func (ex *Exec) panics(st *State, fr *Frame, in *ssa.Panic) {
	if ex.ct != nil && ex.ct.Panics != nil {
		env := map[string]Val{"panicval": ex.val(st, fr, in.X)}
		for k, v := range ex.env {
			env[k] = v
		}
		c := ex.evalBool(&evalCtx{ex: ex, st: st, old: ex.entry, env: env, oldEnv: env}, ex.ct.Panics.Expr)
		st.check(c, "panics:"+ex.ct.Panics.Label, "ensures", ex.prog.pos(in.Pos()), ex.ct.Panics.Tags)
		for _, e := range ex.ct.OnPanic {
			c := ex.evalBool(&evalCtx{ex: ex, st: st, old: ex.entry, env: env, oldEnv: env}, e.Expr)
			st.check(c, "onpanic:"+e.Label, "ensures", ex.prog.pos(in.Pos()), e.Tags)
		}
		ex.returns++
		return
	}
	ex.safety(st, ex.ts.False, "panic", in.Pos())
}

func (ex *Exec) constVal(st *State, c *ssa.Const) Val {
	ts := ex.ts
	t := c.Type()
	if c.Value == nil {
		return ts.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return ts.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return ts.Str(constant.StringVal(c.Value))
	case constant.Int:
		v := constant.Val(c.Value)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return ts.Var("float:"+c.Value.ExactString(), SInt)
		}
		switch x := v.(type) {
		case int64:
			return ts.Int(x)
		case *big.Int:
			return ts.Big(x)
		}
	}
	return ts.Var("const:"+c.Value.ExactString(), SInt)
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(st, x)
	case *ssa.Global:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if tb, ok := ex.prog.Tables[x.Name()]; ok && x.Pkg == ex.prog.SSA {
			return &PtrV{root: t, base: ex.ts.Int(int64(700000 + ex.prog.globID(x.Name()))), idx: ex.ts.Int(0), elem: t, table: tb}
		}
		return &PtrV{root: t, base: ex.ts.Int(int64(500000 + ex.prog.globID(x.Pkg.Pkg.Path()+"."+x.Name()))), idx: ex.ts.Int(0), elem: t, glob: x.Name()}
	case *ssa.Function:
		return &FuncV{fn: x, id: ex.ts.Var("fn:"+x.String(), SInt)}
	case *ssa.Builtin:
		return x
	}
	if r, ok := fr.env[v]; ok {
		return deepIte(st, r)
	}
	panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
}

// deepIte resolves conditional leaves decided by the path.
func deepIte(st *State, v Val) Val {
	switch x := v.(type) {
	case *Term:
		if x.op == "ite" {
			return st.simpIte(x)
		}
	case *StructV:
		var n *StructV
		for i, f := range x.f {
			g := deepIte(st, f)
			if g != f {
				if n == nil {
					n = &StructV{t: x.t, f: append([]Val{}, x.f...)}
				}
				n.f[i] = g
			}
		}
		if n != nil {
			return n
		}
	case *SliceV:
		b, o, l, c := st.simpIte(x.base), st.simpIte(x.off), st.simpIte(x.len), st.simpIte(x.cap)
		if b != x.base || o != x.off || l != x.len || c != x.cap {
			return &SliceV{elem: x.elem, base: b, off: o, len: l, cap: c, str: x.str, view: x.view}
		}
	case *PtrV:
		b, i := st.simpIte(x.base), st.simpIte(x.idx)
		if b != x.base || i != x.idx {
			y := *x
			y.base, y.idx = b, i
			return &y
		}
	}
	return v
}

func (ex *Exec) nonNil(st *State, p *PtrV, pos token.Pos) {
	ex.safety(st, ex.ts.Not(ex.ts.Eq(p.base, ex.ts.Int(0))), "nil dereference", pos)
}

func (ex *Exec) instr(st *State, fr *Frame, v ssa.Value) Val {
	ts := ex.ts
	switch in := v.(type) {
	case *ssa.Alloc:
		return st.alloc(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.FieldAddr:
		p := ex.val(st, fr, in.X).(*PtrV)
		ex.nonNil(st, p, in.Pos())
		sty := in.X.Type().Underlying().(*types.Pointer).Elem()
		f := sty.Underlying().(*types.Struct).Field(in.Field)
		return &PtrV{root: p.root, base: p.base, idx: p.idx, path: p.path + "." + f.Name(), elem: f.Type()}
	case *ssa.Field:
		return ex.val(st, fr, in.X).(*StructV).f[in.Field]
	case *ssa.IndexAddr:
		i := ex.val(st, fr, in.Index).(*Term)
		switch x := ex.val(st, fr, in.X).(type) {
		case *SliceV:
			ex.safety(st, ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, x.len)), "index out of range", in.Pos())
			if x.str != nil {
				return &PtrV{root: x.elem, base: x.base, idx: i, elem: x.elem, str: x.str}
			}
			return &PtrV{root: x.elem, base: x.base, idx: ts.Add(x.off, i), elem: x.elem}
		case *PtrV:
			at := x.elem.Underlying().(*types.Array)
			ex.safety(st, ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Int(at.Len()))), "index out of range", in.Pos())
			if x.table != nil {
				return &PtrV{root: at.Elem(), base: x.base, idx: i, elem: at.Elem(), table: x.table, tindex: i}
			}
			if x.path == "" && types.Identical(x.root, at.Elem()) {
				return &PtrV{root: at.Elem(), base: x.base, idx: ts.Add(x.idx, i), elem: at.Elem()}
			}
			if i.isLit() && at.Len() <= maxArr {
				return &PtrV{root: x.root, base: x.base, idx: x.idx, path: fmt.Sprintf("%s[%d]", x.path, i.int()), elem: at.Elem()}
			}
			unsup("array index at %s", ex.prog.pos(in.Pos()))
		}
	case *ssa.Index:
		i := ex.val(st, fr, in.Index).(*Term)
		switch x := ex.val(st, fr, in.X).(type) {
		case *Term:
			if x.sort == SStr {
				ex.safety(st, ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Len(x))), "index out of range", in.Pos())
				return ts.At(x, i)
			}
		case *ArrV:
			ex.safety(st, ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Int(int64(len(x.f))))), "index out of range", in.Pos())
			if i.isLit() {
				return x.f[i.int()]
			}
		}
		unsup("index")
	case *ssa.Lookup:
		i := ex.val(st, fr, in.Index)
		if x, ok := ex.val(st, fr, in.X).(*Term); ok && x.sort == SStr {
			it := i.(*Term)
			ex.safety(st, ts.And(ts.Le(ts.Int(0), it), ts.Lt(it, ts.Len(x))), "index out of range", in.Pos())
			return ts.At(x, it)
		}
		return st.freshVal("map", in.Type())
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := ex.val(st, fr, in.X).(*PtrV)
			if p.table == nil {
				ex.nonNil(st, p, in.Pos())
			}
			if p.glob != "" {
				return st.freshVal("glob:"+p.glob, p.elem)
			}
			if p.elem != nil {
				if a, ok := p.elem.Underlying().(*types.Array); ok && p.table == nil && p.path == "" && types.Identical(p.root, a.Elem()) {
					if a.Len() <= maxArr {
						av := &ArrV{t: p.elem}
						for j := int64(0); j < a.Len(); j++ {
							av.f = append(av.f, st.load(&PtrV{root: p.root, base: p.base, idx: ts.AddI(p.idx, j), elem: a.Elem()}))
						}
						return av
					}
					unsup("array load")
				}
			}
			return st.load(p)
		case token.NOT:
			return ts.Not(ex.val(st, fr, in.X).(*Term))
		case token.SUB:
			return ex.wrap(ts.Sub(ts.Int(0), ex.val(st, fr, in.X).(*Term)), in.Type())
		}
		unsup("unop %s", in.Op)
	case *ssa.BinOp:
		return ex.binop(st, fr, in)
	case *ssa.ChangeType:
		x := ex.val(st, fr, in.X)
		if s, ok := x.(*StructV); ok {
			return &StructV{t: in.Type(), f: s.f}
		}
		return x
	case *ssa.ChangeInterface:
		return ex.val(st, fr, in.X)
	case *ssa.Convert:
		return ex.convert(st, ex.val(st, fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		return ex.mkIface(st, ex.val(st, fr, in.X), in.X.Type())
	case *ssa.Extract:
		return deepIte(st, ex.val(st, fr, in.Tuple).(TupleV)[in.Index])
	case *ssa.Slice:
		return ex.slice(st, fr, in)
	case *ssa.MakeSlice:
		n := ex.val(st, fr, in.Len).(*Term)
		c := ex.val(st, fr, in.Cap).(*Term)
		ex.safety(st, ts.And(ts.Le(ts.Int(0), n), ts.Le(n, c)), "makeslice", in.Pos())
		el := in.Type().Underlying().(*types.Slice).Elem()
		r := st.newRef()
		st.zeroObj(r, el)
		s := &SliceV{elem: el, base: r, off: ts.Int(0), len: n, cap: c}
		if isByteSlice(in.Type()) {
			s.str = ts.Fresh("mk$str", SStr, st.nalloc)
			st.assume(ts.Eq(ts.Len(s.str), n))
		}
		return s
	case *ssa.TypeAssert:
		return ex.typeAssert(st, fr, in)
	case *ssa.Range:
		x, ok := ex.val(st, fr, in.X).(*Term)
		if !ok || x.sort != SStr {
			unsup("range over map")
		}
		ex.niter++
		st.iters[ex.niter] = ts.Int(0)
		return &IterV{id: ex.niter, s: x}
	case *ssa.Next:
		it := ex.val(st, fr, in.Iter).(*IterV)
		pos := st.simpIte(st.iters[it.id])
		ok := ts.Lt(pos, ts.Len(it.s))
		r := ts.UF("decr", SInt, it.s, pos)
		w := ts.UF("decw", SInt, it.s, pos)
		st.iters[it.id] = ts.Ite(ok, ts.Add(pos, w), pos)
		// resolved after the branch on ok: keep as ite and let simpIte resolve
		return TupleV{ok, pos, r}
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, ex.val(st, fr, b))
		}
		return &FuncV{fn: in.Fn.(*ssa.Function), bind: bs, id: ts.Fresh("closure", SInt, st.nalloc)}
	case *ssa.MakeMap:
		return st.newRef()
	}
	unsup("instruction %T", v)
	return nil
}

func intRange(b *types.Basic) (lo, hi *big.Int, ok bool) {
	pow := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Int8:
		return big.NewInt(-128), big.NewInt(127), true
	case types.Int16:
		return big.NewInt(-32768), big.NewInt(32767), true
	case types.Int32:
		return new(big.Int).Neg(pow(31)), new(big.Int).Sub(pow(31), one), true
	case types.Uint8:
		return big.NewInt(0), big.NewInt(255), true
	case types.Uint16:
		return big.NewInt(0), big.NewInt(65535), true
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(pow(32), one), true
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(pow(64), one), true
	case types.Int64, types.Int:
		return new(big.Int).Neg(pow(63)), new(big.Int).Sub(pow(63), one), true
	}
	return nil, nil, false
}

// wrap models machine arithmetic for sized types; int and int64 results of
// arithmetic are treated as mathematical integers.
func (ex *Exec) wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return t
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return t
	}
	return ex.wrapTo(t, b)
}

func (ex *Exec) wrapTo(t *Term, b *types.Basic) *Term {
	ts := ex.ts
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if l, ok1 := ts.lower(t); ok1 && l.Cmp(lo) >= 0 {
		if h, ok2 := ts.upper(t); ok2 && h.Cmp(hi) <= 0 {
			return t
		}
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
	if t.isLit() {
		m := new(big.Int).Mod(new(big.Int).Sub(t.n, lo), size)
		return ts.Big(m.Add(m, lo))
	}
	in := ts.And(ts.Le(ts.Big(lo), t), ts.Le(t, ts.Big(hi)))
	m := ts.mk("mod", SInt, "", []*Term{ts.Sub(t, ts.Big(lo)), ts.Big(size)})
	return ts.Ite(in, t, ts.Add(m, ts.Big(lo)))
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	ts := ex.ts
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
		x := v.(*Term)
		// int64 -> int etc. identity; int -> uint64 wraps
		flo, fhi, ok1 := intRange(fb)
		tlo, thi, ok2 := intRange(tb)
		if ok1 && ok2 && flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return x
		}
		return ex.wrapTo(st.simpIte(x), tb)
	case tb != nil && fb != nil && tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
		return v
	case tb != nil && tb.Info()&types.IsString != 0 && isByteSlice(from):
		return st.bytesOf(v.(*SliceV))
	case fb != nil && fb.Info()&types.IsString != 0 && isByteSlice(to):
		s := v.(*Term)
		n := ts.Len(s)
		return &SliceV{elem: to.Underlying().(*types.Slice).Elem(), base: st.newRef(), off: ts.Int(0), len: n, cap: n, str: s}
	case tb != nil && tb.Info()&types.IsString != 0 && fb != nil && fb.Info()&types.IsInteger != 0:
		x := v.(*Term)
		if x.isLit() && x.int() < 0x80 && x.int() >= 0 {
			return ts.Str(string(rune(x.int())))
		}
		u := ts.UF("runestr", SStr, x)
		st.assume(ts.Implies(ts.And(ts.Le(ts.Int(0), x), ts.Lt(x, ts.Int(128))), ts.Eq(u, ts.Chr(x))))
		return u
	case tb != nil && fb != nil && (tb.Info()|fb.Info())&types.IsFloat != 0:
		// float32 to float64 keeps the value
		if ts.prog.tkey(from) == ts.prog.tkey(to) || fb.Kind() == types.Float32 && tb.Kind() == types.Float64 {
			return v
		}
		return ts.UF("conv:"+fb.String()+":"+tb.String(), SInt, v.(*Term))
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (ex *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	ts := ex.ts
	switch x := a.(type) {
	case *Term:
		return ts.Eq(x, b.(*Term))
	case *PtrV:
		y := b.(*PtrV)
		if x.base == ts.Int(0) || y.base == ts.Int(0) {
			return ts.Eq(x.base, y.base)
		}
		if x.path != y.path {
			unsup("pointer comparison")
		}
		return ts.And(ts.Eq(x.base, y.base), ts.Eq(x.idx, y.idx))
	case *SliceV: // comparison with nil only
		return ts.Eq(x.base, b.(*SliceV).base)
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, ex.eqVal(st, x.f[i], y.f[i], nil))
		}
		return ts.And(cs...)
	case *ArrV:
		y := b.(*ArrV)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, ex.eqVal(st, x.f[i], y.f[i], nil))
		}
		return ts.And(cs...)
	case *FuncV:
		if y, ok := b.(*Term); ok {
			return ts.Eq(x.id, y)
		}
		return ts.Eq(x.id, b.(*FuncV).id)
	}
	unsup("comparison of %T", a)
	return nil
}

func (ex *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) Val {
	ts := ex.ts
	a, b := ex.val(st, fr, in.X), ex.val(st, fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		var c *Term
		if sa, ok := a.(*SliceV); ok {
			if sb, ok2 := b.(*SliceV); ok2 && (sb.base == ts.Int(0) || sa.base == ts.Int(0)) {
				c = ts.Eq(sa.base, sb.base)
			}
		}
		if c == nil {
			c = ex.eqVal(st, a, b, in.X.Type())
		}
		if in.Op == token.NEQ {
			c = ts.Not(c)
		}
		return c
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s", in.Op)
	}
	if x.sort == SStr {
		switch in.Op {
		case token.ADD:
			return ts.Concat(x, y)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return ts.Fresh("strcmp", SBool, st.nalloc)
		}
	}
	if bt, ok := in.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		if in.Type().Underlying() == types.Typ[types.Bool] {
			return ts.UF("f"+in.Op.String(), SBool, x, y)
		}
		return ts.UF("f"+in.Op.String(), SInt, x, y)
	}
	switch in.Op {
	case token.ADD:
		return ex.wrap(ts.Add(x, y), in.Type())
	case token.SUB:
		return ex.wrap(ts.Sub(x, y), in.Type())
	case token.MUL:
		return ex.wrap(ts.Mul(x, y), in.Type())
	case token.LSS:
		return ts.Lt(x, y)
	case token.LEQ:
		return ts.Le(x, y)
	case token.GTR:
		return ts.Lt(y, x)
	case token.GEQ:
		return ts.Le(y, x)
	case token.AND:
		return ex.bitand(st, x, y)
	case token.OR:
		if x.isLit() && y.isLit() {
			return ts.Big(new(big.Int).Or(x.n, y.n))
		}
		// x|y = x + y - x&y
		if x.isLit() || y.isLit() {
			return ts.Sub(ts.Add(x, y), ex.bitand(st, x, y))
		}
		return ts.UF("bitor", SInt, x, y)
	case token.AND_NOT:
		if x.isLit() && y.isLit() {
			return ts.Big(new(big.Int).AndNot(x.n, y.n))
		}
		return ts.Sub(x, ex.bitand(st, x, y))
	case token.XOR:
		if x.isLit() && y.isLit() {
			return ts.Big(new(big.Int).Xor(x.n, y.n))
		}
		return ts.UF("bitxor", SInt, x, y)
	case token.SHL:
		if y.isLit() && y.int() >= 0 && y.int() < 64 {
			return ex.wrap(ts.MulC(x, new(big.Int).Lsh(one, uint(y.int()))), in.Type())
		}
		if x.isLit() && x.int() == 1 {
			// 1<<y as a chain over small y
			r := ts.UF("shl1", SInt, y)
			for i := int64(40); i >= 0; i-- {
				r = ts.Ite(ts.Eq(y, ts.Int(i)), ts.Big(new(big.Int).Lsh(one, uint(i))), r)
			}
			return r
		}
		return ts.UF("shl", SInt, x, y)
	case token.SHR:
		if y.isLit() && y.int() >= 0 && y.int() < 64 {
			return ts.mk("div", SInt, "", []*Term{x, ts.Big(new(big.Int).Lsh(one, uint(y.int())))})
		}
		return ts.UF("shr", SInt, x, y)
	case token.QUO, token.REM:
		ex.safety(st, ts.Not(ts.Eq(y, ts.Int(0))), "division by zero", in.Pos())
		op := "div"
		if in.Op == token.REM {
			op = "mod"
		}
		if y.isLit() && y.n.Sign() > 0 && st.prove(ts.Le(ts.Int(0), x), false) {
			if x.isLit() {
				if op == "div" {
					return ts.Big(new(big.Int).Div(x.n, y.n))
				}
				return ts.Big(new(big.Int).Mod(x.n, y.n))
			}
			return ts.mk(op, SInt, "", []*Term{x, y})
		}
		return ts.UF(op+"X", SInt, x, y)
	}
	unsup("binop %s", in.Op)
	return nil
}

// bitand: x & y, where one operand reduces to constants.
func (ex *Exec) bitand(st *State, x, y *Term) *Term {
	ts := ex.ts
	if x.isLit() {
		x, y = y, x
	}
	if k := st.known[x]; k != nil {
		x = k
	}
	if x.isLit() && y.isLit() {
		return ts.Big(new(big.Int).And(x.n, y.n))
	}
	if x.op == "ite" {
		return ts.Ite(x.args[0], ex.bitand(st, x.args[1], y), ex.bitand(st, x.args[2], y))
	}
	if y.op == "ite" {
		return ts.Ite(y.args[0], ex.bitand(st, x, y.args[1]), ex.bitand(st, x, y.args[2]))
	}
	if y.isLit() && y.n.Sign() >= 0 {
		r := ts.Int(0)
		for i := 0; i < y.n.BitLen(); i++ {
			if y.n.Bit(i) == 1 {
				p := new(big.Int).Lsh(one, uint(i))
				bit := ts.mk("mod", SInt, "", []*Term{ts.mk("div", SInt, "", []*Term{x, ts.Big(p)}), ts.Int(2)})
				r = ts.Add(r, ts.MulC(bit, p))
			}
		}
		return r
	}
	return ts.UF("bitand", SInt, x, y)
}

func (ex *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	ts := ex.ts
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.val(st, fr, v).(*Term)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = ts.Int(0)
	}
	switch x := ex.val(st, fr, in.X).(type) {
	case *Term: // string
		if hi == nil {
			hi = ts.Len(x)
		}
		ex.safety(st, ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, ts.Len(x))), "slice bounds", in.Pos())
		return ts.Substr(x, lo, hi)
	case *SliceV:
		if hi == nil {
			hi = x.len
		}
		// stricter than Go: high is bounded by the length, not the capacity, so
		// that elements beyond the length are never observed.
		ex.safety(st, ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, x.len)), "slice bounds", in.Pos())
		c := ts.Sub(x.cap, lo)
		if mx != nil {
			c = ts.Sub(mx, lo)
		}
		n := &SliceV{elem: x.elem, base: x.base, off: ts.Add(x.off, lo), len: ts.Sub(hi, lo), cap: c}
		if x.str != nil {
			n.str = ts.Substr(x.str, lo, hi)
		}
		return n
	case *PtrV: // pointer to array
		a := x.elem.Underlying().(*types.Array)
		n := ts.Int(a.Len())
		if hi == nil {
			hi = n
		}
		if x.table == nil && copyTarget(in) && a.Len() <= maxArr && lo.isLit() && hi.isLit() {
			ex.nonNil(st, x, in.Pos())
			ex.safety(st, ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, n)), "slice bounds", in.Pos())
			return &SliceV{elem: a.Elem(), base: x.base, off: lo, len: ts.Sub(hi, lo), cap: ts.Sub(n, lo), arr: x}
		}
		if x.table != nil || x.path != "" || !types.Identical(x.root, a.Elem()) {
			unsup("slice of array")
		}
		ex.safety(st, ts.And(ts.Le(ts.Int(0), lo), ts.Le(lo, hi), ts.Le(hi, n)), "slice bounds", in.Pos())
		r := &SliceV{elem: a.Elem(), base: x.base, off: ts.Add(x.idx, lo), len: ts.Sub(hi, lo), cap: ts.Sub(n, lo)}
		return r
	}
	unsup("slice")
	return nil
}

// copyTarget: all that happens to the slice is that a string is copied to it.
func copyTarget(in *ssa.Slice) bool {
	rs := in.Referrers()
	if rs == nil || len(*rs) != 1 {
		return false
	}
	c, ok := (*rs)[0].(*ssa.Call)
	if !ok || c.Call.Value.Name() != "copy" || c.Call.Args[0] != in {
		return false
	}
	_, ok = c.Call.Value.(*ssa.Builtin)
	b, str := c.Call.Args[1].Type().Underlying().(*types.Basic)
	return ok && str && b.Info()&types.IsString != 0 && c.Block() == in.Block()
}

// ---- interfaces

func (ex *Exec) mkIface(st *State, v Val, t types.Type) Val {
	ts := ex.ts
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	l := ts.flatten(v, t)
	id := ex.prog.typeID(t)
	for i, lf := range ex.prog.leaves(t) {
		if st != nil && ex.prog.zeroLeaf(t, lf.Path) {
			st.check(ts.Eq(l[i], ts.zeroOf(lf.Sort)), "boxed "+ex.prog.tkey(t)+lf.Path+" is zero", "pre", "", []string{ex.prog.C.SafetyTag})
		}
	}
	return ts.UF(fmt.Sprintf("mk:%d", id), SInt, l...)
}

func (ts *TS) Tag(x *Term) *Term {
	if x.op == "lit" && x.int() == 0 {
		return ts.Int(0)
	}
	if x.op == "uf" && strings.HasPrefix(x.name, "mk:") {
		var id int64
		fmt.Sscanf(x.name, "mk:%d", &id)
		return ts.Int(id)
	}
	return ts.mk("uf", SInt, "tag", []*Term{x})
}

// zeroLeaf: a field no value inside an interface has set (contract directive
// zeropayload; every boxing in the package is checked).
func (p *Program) zeroLeaf(t types.Type, path string) bool {
	if p.C == nil || len(p.C.Zero) == 0 {
		return false
	}
	for _, f := range p.C.Zero[p.tkey(t)] {
		if pathPrefix(path, f) {
			return true
		}
	}
	return false
}

func (ts *TS) zeroOf(s Sort) *Term {
	switch s {
	case SBool:
		return ts.False
	case SStr:
		return ts.Str("")
	}
	return ts.Int(0)
}

func (ts *TS) payload(x *Term, t types.Type) Val {
	id := ts.prog.typeID(t)
	var l []*Term
	for i, lf := range ts.prog.leaves(t) {
		if ts.prog.zeroLeaf(t, lf.Path) {
			l = append(l, ts.zeroOf(lf.Sort))
		} else if x.op == "uf" && x.name == fmt.Sprintf("mk:%d", id) {
			l = append(l, x.args[i])
		} else {
			l = append(l, ts.mk("uf", lf.Sort, fmt.Sprintf("pl:%d%s", id, lf.Path), []*Term{x}))
		}
	}
	v, _ := ts.unflatten(l, t)
	return v
}

// ifaceFacts: axioms of interface values.
func (p *Program) ifaceFacts(ts *TS, t *Term) []*Term {
	switch {
	case t.name == "tag":
		z := ts.mk("=", SBool, "", []*Term{t, ts.Int(0)})
		return []*Term{ts.Eq0(ts.Eq(t.args[0], ts.Int(0)), z), ts.mk("<=0", SBool, "", []*Term{ts.Sub(ts.Int(0), t)})}
	case strings.HasPrefix(t.name, "mk:"):
		var id int
		fmt.Sscanf(t.name, "mk:%d", &id)
		ty := p.idType(id)
		fs := []*Term{
			ts.Not(ts.mk("=", SBool, "", []*Term{t, ts.Int(0)})),
			ts.mk("=", SBool, "", []*Term{ts.mk("uf", SInt, "tag", []*Term{t}), ts.Int(int64(id))}),
		}
		for i, lf := range p.leaves(ty) {
			fs = append(fs, ts.Eq0(ts.mk("uf", lf.Sort, fmt.Sprintf("pl:%d%s", id, lf.Path), []*Term{t}), t.args[i]))
		}
		return fs
	case strings.HasPrefix(t.name, "pl:") && strings.HasSuffix(t.name, "#len"):
		// slices inside interface payloads are well formed
		f := []*Term{ts.mk("<=0", SBool, "", []*Term{ts.Sub(ts.Int(0), t)})}
		return f
	}
	return nil
}

func (ex *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) Val {
	ts := ex.ts
	x := ex.val(st, fr, in.X).(*Term)
	if _, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		okv := ts.Fresh("implements", SBool, st.nalloc)
		if !in.CommaOk {
			ex.safety(st, okv, "type assertion", in.Pos())
			return x
		}
		st.assume(ts.Implies(okv, ts.Not(ts.Eq(x, ts.Int(0)))))
		return TupleV{ts.Ite(okv, x, ts.Int(0)), okv}
	}
	id := ex.prog.typeID(in.AssertedType)
	c := ts.Eq(ts.Tag(x), ts.Int(int64(id)))
	v := ts.payload(x, in.AssertedType)
	st.typeFacts(v, in.AssertedType)
	if !in.CommaOk {
		ex.safety(st, c, "type assertion", in.Pos())
		return v
	}
	// the value component is only meaningful when ok; the code under
	// verification branches on ok first (otherwise it is the zero value).
	zl := ts.flatten(ts.zero(in.AssertedType), in.AssertedType)
	vl := ts.flatten(v, in.AssertedType)
	c = st.simp(c)
	for i := range vl {
		vl[i] = ts.Ite(c, vl[i], zl[i])
	}
	r, _ := ts.unflatten(vl, in.AssertedType)
	return TupleV{r, c}
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
