package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type notBounded struct{}

const unrollLimit = 4

// loop executes a loop reached from outside.
func (ex *Exec) loop(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock, k Kont) {
	if ex.unrollable(st, fr, l, prev) {
		n := 0
		f := fr.clone()
		a := &activeLoop{l: l}
		a.onBack = func(s *State, f2 *Frame, p *ssa.BasicBlock) {
			n++
			if n > 4000 {
				unsup("unrolling")
			}
			ex.enter(s, f2, l.header, p, k)
		}
		f.active = append(f.active, a)
		ex.enter(st, f, l.header, prev, k)
		return
	}
	ex.invLoop(st, fr, l, prev, k)
}

// unrollable reports whether every execution from st leaves the loop after a
// small number of iterations.
func (ex *Exec) unrollable(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) (ok bool) {
	if n, known := ex.rangeLen(st, fr, l); known {
		return n != nil && n.isLit() && n.int() <= unrollLimit
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if c, isC := in.(*ssa.Call); isC {
				if c.Common().IsInvoke() {
					return false
				}
				if fn := c.Common().StaticCallee(); fn != nil && fn.Pkg == ex.prog.SSA {
					if fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), "Writer") {
						return false
					}
				}
			}
		}
	}
	ex.mute++
	savedFailed := ex.failed
	defer func() {
		ex.mute--
		ex.failed = savedFailed
		if r := recover(); r != nil {
			if _, is := r.(notBounded); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f := fr.clone()
	depth := map[*State]int{}
	_ = depth
	var mk func(n int) *activeLoop
	mk = func(n int) *activeLoop {
		a := &activeLoop{l: l, trial: true}
		a.onBack = func(s *State, f2 *Frame, p *ssa.BasicBlock) {
			if n+1 >= unrollLimit {
				if s.feasible(ex.ts.True) {
					panic(notBounded{})
				}
				return
			}
			f3 := f2.clone()
			f3.active = append(f3.active[:len(f3.active)-1:len(f3.active)-1], mk(n+1))
			ex.enter(s, f3, l.header, p, func(*State, []Val) {})
		}
		return a
	}
	f.active = append(f.active, mk(0))
	ex.enter(st.clone(), f, l.header, prev, func(*State, []Val) {})
	return true
}

// rangeLen: the length term of a rangeindex loop.
func (ex *Exec) rangeLen(st *State, fr *Frame, l *Loop) (*Term, bool) {
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Comment != "rangeindex" {
			continue
		}
		// t1 = phi + 1 ; t2 = t1 < len
		for _, in2 := range l.header.Instrs {
			if b, ok := in2.(*ssa.BinOp); ok && b.Op == token.LSS {
				if v, ok := fr.env[b.Y]; ok {
					if t, ok := v.(*Term); ok {
						return t, true
					}
				}
				if c, ok := b.Y.(*ssa.Const); ok {
					return ex.constVal(st, c).(*Term), true
				}
			}
		}
	}
	return nil, false
}

// ---- loops with invariants

type modRange struct {
	phi *ssa.Phi
	c   *Term // index = c + processed(phi)
	// without phi: these indexes
	idxs []*Term
}

type loopMods struct {
	stale map[*ssa.Phi]bool              // slice variables that may come to hold an older array
	fresh map[*ssa.Phi]bool              // slice variables over new arrays, written to
	whole map[string]bool                // whole component
	roots map[string]bool                // whole root type (epoch)
	bases map[string]map[*Term]*modRange // component -> loop invariant bases
	iters map[int]bool
	movs  []*mover
	plain map[string]bool // slices not treated as movers
}

// mover: a slice variable whose array is extended, and so may move, in the
// loop; elements below index off+lo keep their values.
type mover struct {
	key  string
	hp   *PtrV
	s    *SliceV // at the start
	lo   *Term
	dec  string // the bound is this integer of the same object, plus one, and only decreases
	base *Term  // of the last header built
}

// low: the bound in a state.
func (v *mover) low(ex *Exec, s *State) *Term {
	if v.dec == "" {
		return v.lo
	}
	_, h := s.comp(v.hp.root, v.dec, SInt)
	return ex.ts.AddI(ex.ts.Select(ex.ts.Select(h, v.hp.base), v.hp.idx), 1)
}

// lower looks for a bound that decreases in the loop.
func (v *mover) lower(ex *Exec, mods *loopMods) bool {
	if v.dec != "" {
		return false
	}
	root := ex.prog.tkey(v.hp.root)
	for _, lf := range ex.prog.leaves(v.hp.root) {
		if m := mods.bases[root+"|"+lf.Path]; lf.Sort == SInt && m != nil && !strings.HasPrefix(lf.Path, v.hp.path) && !strings.Contains(lf.Path, "#") {
			if _, ok := m[v.hp.base]; ok {
				if mentions(v.lo, root+"|"+lf.Path) {
					v.dec = lf.Path
					return true
				}
			}
		}
	}
	return false
}

// mentions: the term reads the component.
func mentions(t *Term, comp string) bool {
	if strings.Contains(t.name, ":"+comp) {
		return true
	}
	for _, a := range t.args {
		if mentions(a, comp) {
			return true
		}
	}
	return false
}

func (m *loopMods) moverOf(ex *Exec, c string, base *Term) *mover {
	for _, v := range m.movs {
		if v.hp.base == base && strings.HasPrefix(c, ex.prog.tkey(v.hp.root)+"|"+v.hp.path+"#") {
			return v
		}
	}
	return nil
}

func (m *loopMods) elemOf(ex *Exec, c string) *mover {
	for _, v := range m.movs {
		if compRoot(c) == ex.prog.tkey(v.s.elem) {
			return v
		}
	}
	return nil
}

type loopVar struct {
	typ   string
	name  string
	start Val
	get   func(st *State, phis map[*ssa.Phi]Val) Val // value at a header arrival
	id    string
}

type cand struct {
	inv  *InvDef
	vars []*loopVar
	key  string
}

func processed(ts *TS, ph *ssa.Phi, v Val) Val {
	if ph.Comment == "rangeindex" {
		return ts.AddI(v.(*Term), 1)
	}
	return v
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (ex *Exec) invLoop(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock, k Kont) {
	ts := ex.ts
	start := st.clone()
	entryPhis := ex.phiVals(fr, st, l.header, prev)
	mark := ts.fresh
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	mods := &loopMods{whole: map[string]bool{}, roots: map[string]bool{}, bases: map[string]map[*Term]*modRange{}, iters: map[int]bool{}, plain: map[string]bool{}, stale: map[*ssa.Phi]bool{}, fresh: map[*ssa.Phi]bool{}}

	// header builds the havocked header state.
	header := func() (*State, *Frame, map[*ssa.Phi]Val) {
		s := start.clone()
		f := fr.clone()
		m := map[*ssa.Phi]Val{}
		for _, ph := range phis {
			v := s.freshVal("phi."+ph.Comment, ph.Type())
			if p, ok := v.(*PtrV); ok {
				if e, ok := entryPhis[ph].(*PtrV); ok && (e.path != "" || e.table != nil || e.idx != ts.Int(0)) {
					unsup("loop-carried interior pointer")
				}
				_ = p
			}
			if sl, ok := v.(*SliceV); ok && mods.newSlice(ex, ph, entryPhis[ph]) {
				ex.freshOf[sl.base] = entryPhis[ph].(*SliceV).base
				for _, lf := range ex.prog.leaves(sl.elem) {
					if c, _ := s.comp(sl.elem, lf.Path, lf.Sort); mods.fresh[ph] && !mods.whole[c] {
						h := s.heap[c]
						for _, b := range []*Term{ex.freshOf[sl.base], sl.base} {
							h = ts.Store(h, b, ts.Fresh("l:"+c, elemSort(h.sort), s.nalloc))
						}
						s.heap[c] = h
					}
				}
			}
			m[ph] = v
			f.env[ph] = v
		}
		for r := range mods.roots {
			s.bumpEpoch(r)
		}
		for _, c := range sortedSet(mods.whole) {
			if mods.roots[compRoot(c)] {
				continue
			}
			_, h := s.compK(c, ex.compSort(start, c))
			s.heap[c] = ts.Fresh("L:"+c, h.sort, s.nalloc)
		}
		for _, c := range sortedMods(mods.bases) {
			if mods.whole[c] || mods.roots[compRoot(c)] {
				continue
			}
			_, h := s.compK(c, ex.compSort(start, c))
			var bs []*Term
			for b := range mods.bases[c] {
				bs = append(bs, b)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
			for _, b := range bs {
				a := ts.Select(h, b)
				r := mods.bases[c][b]
				if r != nil && r.phi == nil {
					n := a
					for _, i := range r.idxs {
						n = ts.Store(n, i, ts.Fresh("l:"+c, elemSort(a.sort), s.nalloc))
					}
					h = ts.Store(h, b, n)
					continue
				}
				n := ts.Fresh("l:"+c, a.sort, s.nalloc)
				if r != nil {
					lo := ts.Add(r.c, processed(ts, r.phi, entryPhis[r.phi]).(*Term))
					hi := ts.Add(r.c, processed(ts, r.phi, m[r.phi]).(*Term))
					n = ts.Merge(a, lo, hi, n)
				}
				h = ts.Store(h, b, n)
			}
			s.heap[c] = h
		}
		for _, v := range mods.movs {
			nb := ts.Fresh("nb", SInt, s.nalloc)
			from := ts.Add(v.s.off, v.low(ex, s))
			ex.moved[nb] = &movedFrom{base: v.s.base, hp: v.hp, from: from}
			v.base = nb
			s.moveElems(v.s.elem, v.s.base, nb, from)
			n := &SliceV{elem: v.s.elem, base: nb, off: v.s.off, len: ts.Fresh("nodes#len", SInt, s.nalloc), cap: ts.Fresh("nodes#cap", SInt, s.nalloc)}
			s.store(v.hp, n)
			s.assume(ts.Le(v.s.len, n.len))
			s.assume(ts.Le(n.len, n.cap))
		}
		// the type of every havocked location still constrains its values
		ex.refact(s, start, mods)
		for id := range mods.iters {
			p := ts.Fresh("pos", SInt, s.nalloc)
			s.iters[id] = p
		}
		return s, f, m
	}
	trial := func(s *State, f *Frame, back func(s *State, f *Frame, phis map[*ssa.Phi]Val)) {
		a := &activeLoop{l: l, trial: true}
		a.onBack = func(s2 *State, f2 *Frame, p *ssa.BasicBlock) {
			back(s2, f2, ex.phiVals(f2, s2, l.header, p))
		}
		f.active = append(f.active, a)
		ex.mute++
		defer func() { ex.mute-- }()
		ex.instrs(s, f, l.header, 0, func(*State, []Val) {})
	}

	discover := func() bool {
		changed := false
		s, f, hp := header()
		h0 := s.clone()
		trial(s, f, func(b *State, _ *Frame, bp map[*ssa.Phi]Val) {
			for _, ph := range phis {
				if mods.newSlice(ex, ph, entryPhis[ph]) {
					ok := false
					for _, x := range ex.chain(bp[ph].(*SliceV).base) {
						if isRefLit(x) && ts.maxAlloc(x, map[*Term]bool{}) > start.nalloc || x == hp[ph].(*SliceV).base || x == ts.Int(0) {
							ok = true
						}
					}
					if !ok {
						mods.stale[ph] = true
						changed = true
					}
				}
			}
			for r, e := range b.epoch {
				if e != h0.epoch[r] && !mods.roots[r] {
					mods.roots[r] = true
					changed = true
				}
			}
			for id, p := range b.iters {
				if q, ok := h0.iters[id]; ok && p != q && !mods.iters[id] {
					mods.iters[id] = true
					changed = true
				}
			}
			if ex.findMovers(b, h0, start, mods, mark) {
				changed = true
			}
			for _, c := range sortedKeys(b.heap) {
				if mods.roots[compRoot(c)] || mods.whole[c] {
					continue
				}
				h1 := b.heap[c]
				_, hh := h0.compK(c, elemSort(elemSort(h1.sort)))
				if h1 == hh {
					continue
				}
				// writes relative to the header value
				var bases []*Term
				x := h1
				tail := map[*Term]bool{hh: true}
				for y := hh; y.op == "store"; y = y.args[0] {
					tail[y.args[0]] = true
				}
				for !tail[x] && x.op == "store" {
					bases = append(bases, x.args[1])
					x = x.args[0]
				}
				for y := hh; y != x && y.op == "store"; y = y.args[0] {
					// a base of the header state that was stored to again
					bases = append(bases, y.args[1])
				}
				if !tail[x] {
					if debugInv {
						fmt.Fprintf(os.Stderr, "whole %s: %s vs %s\n", c, ts.show(h1, 6), ts.show(hh, 6))
					}
					mods.whole[c] = true
					changed = true
					continue
				}
				for _, bs := range bases {
					if isRefLit(bs) && ts.maxAlloc(bs, map[*Term]bool{}) > start.nalloc {
						continue // allocated in this iteration
					}
					if ph := mods.freshPhi(ex, bs, hp); ph != nil {
						if !mods.fresh[ph] {
							mods.fresh[ph] = true
							changed = true
						}
						continue
					}
					if mods.moverOf(ex, c, bs) != nil {
						continue
					}
					if v := mods.elemOf(ex, c); v != nil && (bs == v.s.base || ex.newOrIn(bs, v.s.base, start.nalloc)) {
						continue
					}
					if maxSeq(bs, map[*Term]bool{}) > mark {
						if debugInv {
							fmt.Fprintf(os.Stderr, "whole %s: base %s\n", c, ts.show(bs, 6))
						}
						mods.whole[c] = true
						changed = true
						break
					}
					m := mods.bases[c]
					if m == nil {
						m = map[*Term]*modRange{}
						mods.bases[c] = m
					}
					old, have := m[bs]
					a1, a0 := ts.Select(h1, bs), ts.Select(hh, bs)
					if have && old != nil && old.phi == nil {
						if idxs := ex.writeSet(a1, a0, old.idxs, mark); idxs == nil {
							m[bs] = nil
							changed = true
						} else if len(idxs) > len(old.idxs) {
							m[bs] = &modRange{idxs: idxs}
							changed = true
						}
						continue
					}
					if !have {
						if idxs := ex.writeSet(a1, a0, nil, mark); idxs != nil {
							m[bs] = &modRange{idxs: idxs}
							changed = true
							continue
						}
					}
					rng := ex.writeRange(a1, a0, hp, phis, mark)
					if debugInv && rng == nil {
						fmt.Fprintf(os.Stderr, "whole base %s %s\n  %s\n  %s\n", c, ts.show(bs, 3), ts.show(a1, 5), ts.show(a0, 5))
					}
					if !have {
						m[bs] = rng
						changed = true
					} else if old != nil && (rng == nil || rng.phi != old.phi || rng.c != old.c) {
						m[bs] = nil
						changed = true
					}
				}
			}
		})
		return changed
	}
	for i := 0; discover(); i++ {
		if i > 8 {
			unsup("loop modifications do not stabilise")
		}
	}

	// candidate invariants
	vars := ex.loopVars(start, fr, l, phis, entryPhis, mods)
	rl, _ := ex.rangeLen(start, fr, l)
	cands := ex.candidates(vars, rl)
	startEnv := func(c *cand) map[string]Val {
		m := map[string]Val{}
		for i, p := range c.inv.Params {
			m[p.Name] = c.vars[i].start
		}
		return m
	}
	evalAt := func(c *cand, s *State, ph map[*ssa.Phi]Val) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(specErr); ok {
					t = nil
					return
				}
				if _, ok := r.(unsupported); ok {
					t = nil
					return
				}
				panic(r)
			}
		}()
		env := map[string]Val{}
		for i, p := range c.inv.Params {
			env[p.Name] = c.vars[i].get(s, ph)
		}
		return ex.evalBool(&evalCtx{ex: ex, st: s, env: env, start: start, startEnv: startEnv(c), curEnv: env}, c.inv.Expr)
	}
	var live []*cand
	seen := map[*Term]bool{}
	for _, c := range cands {
		t := evalAt(c, start, entryPhis)
		if t == nil {
			continue
		}
		if t != ts.True {
			// an invariant that holds initially only for a reason must be shown
			if !start.prove(t, true) {
				continue
			}
		}
		live = append(live, c)
		_ = seen
	}
	// drop candidates that say the same at a havocked header
	{
		s, _, hp := header()
		var l2 []*cand
		for _, c := range live {
			t := evalAt(c, s, hp)
			if t == nil || t == ts.True || seen[t] {
				continue
			}
			seen[t] = true
			l2 = append(l2, c)
		}
		live = l2
	}
	// equations for single variables come first: the others then read better
	assumeAll := func(s *State, hp map[*ssa.Phi]Val, live []*cand) {
		later := live[:0:0]
		for _, c := range live {
			t := evalAt(c, s, hp)
			if t.op == "=" {
				if x, _ := ts.solved(t); x != nil {
					s.assume(t)
					continue
				}
			}
			later = append(later, c)
		}
		for _, c := range later {
			s.assume(evalAt(c, s, hp))
		}
	}
	checked := 0
	final := false
	for {
		s, f, hp := header()
		assumeAll(s, hp, live)
		h0 := s.clone() // the trial runs on s itself
		dropped, unsure := map[*cand]bool{}, map[*cand]bool{}
		downgraded, lowered := false, false
		checked = 0
		trial(s, f, func(b *State, _ *Frame, bp map[*ssa.Phi]Val) {
			var movs []*mover
			for _, v := range mods.movs {
				if lowered || ex.moverOK(b, h0, start, v) {
					movs = append(movs, v)
					continue
				}
				if v.lower(ex, mods) {
					movs = append(movs, v)
					downgraded, lowered = true, true
					continue
				}
				mods.dropMover(ex, v, start)
				downgraded = true
			}
			mods.movs = movs
			// writes stay in the recorded range
			for _, c := range sortedMods(mods.bases) {
				for bs, r := range mods.bases[c] {
					if r == nil || mods.whole[c] || mods.roots[compRoot(c)] {
						continue
					}
					h1, ok := b.heap[c]
					if !ok {
						continue
					}
					if r.phi == nil {
						if idxs := ex.writeSet(ts.Select(h1, bs), ts.Select(h0.heap[c], bs), r.idxs, mark); len(idxs) != len(r.idxs) {
							mods.bases[c][bs] = nil
							downgraded = true
						}
						continue
					}
					lo := ts.Add(r.c, processed(ts, r.phi, entryPhis[r.phi]).(*Term))
					hi := ts.Add(r.c, processed(ts, r.phi, bp[r.phi]).(*Term))
					hi0 := ts.Add(r.c, processed(ts, r.phi, hp[r.phi]).(*Term))
					good := b.prove(ts.Le(hi0, hi), true)
					a := ts.Select(h1, bs)
					for a.op == "store" && good {
						if !b.prove(ts.And(ts.Le(lo, a.args[1]), ts.Lt(a.args[1], hi)), true) {
							good = false
						}
						a = a.args[0]
					}
					if a.op != "merge" {
						good = false
					}
					if !good {
						mods.bases[c][bs] = nil
						downgraded = true
					}
				}
			}
			for _, c := range live {
				if dropped[c] || unsure[c] || b.dead || downgraded {
					continue
				}
				t := evalAt(c, b, bp)
				checked++
				ex.sol.Quick, ex.sol.Trial = !final, true
				ok := t != nil && b.prove(t, true)
				ex.sol.Quick, ex.sol.Trial = false, false
				if !ok {
					// when the answer is unknown another candidate may be to blame
					if t != nil && !final && ex.sol.last == "unknown" {
						unsure[c] = true
						continue
					}
					dropped[c] = true
					if debugInv {
						fmt.Fprintf(os.Stderr, "drop %s\n", c.key)
						if t == nil {
							fmt.Fprintln(os.Stderr, "  no value")
						} else {
							fmt.Fprintln(os.Stderr, "  "+ts.show(b.simp(t), 14))
							if dropLog {
								ex.dumpVC(b, t, "facts")
							}
						}
					}
				}
			}
		})
		if downgraded {
			continue
		}
		if len(dropped) == 0 {
			if len(unsure) == 0 {
				break
			}
			final = true
			continue
		}
		var l2 []*cand
		for _, c := range live {
			if !dropped[c] {
				l2 = append(l2, c)
			}
		}
		live = l2
	}
	if ex.mute == 0 {
		ex.invariants += len(live)
		ex.invChecks += checked + len(live)
		for _, c := range live {
			ex.invUsed[ex.prog.funcKey(fr.fn)+": "+c.key] = true
		}
	}
	// the real run: an arbitrary iteration and every exit
	s, f, hp := header()
	assumeAll(s, hp, live)
	a := &activeLoop{l: l}
	a.onBack = func(*State, *Frame, *ssa.BasicBlock) {}
	f.active = append(f.active, a)
	ex.instrs(s, f, l.header, 0, k)
}

// findMovers records the slice variables a call may have moved.
func (ex *Exec) findMovers(b, h0, start *State, mods *loopMods, mark int) bool {
	ts := ex.ts
	found := false
	var nbs []*Term
	for nb := range ex.moved {
		nbs = append(nbs, nb)
	}
	sort.Slice(nbs, func(i, j int) bool { return nbs[i].id < nbs[j].id })
	for _, nb := range nbs {
		m := ex.moved[nb]
		hp := m.hp
		root := ex.prog.tkey(hp.root)
		key := fmt.Sprintf("%s|%s@%d", root, hp.path, hp.base.id)
		if nb.seq <= mark || mods.plain[key] || !ex.prog.single(root) || maxSeq(hp.base, map[*Term]bool{}) > mark || mods.roots[root] {
			continue
		}
		have := false
		for _, v := range mods.movs {
			have = have || v.key == key
		}
		if have {
			continue
		}
		in := false
		for _, x := range ex.chain(b.load(hp).(*SliceV).base) {
			in = in || x == nb
		}
		if !in {
			continue
		}
		s0 := start.load(hp).(*SliceV)
		lo := ts.Sub(m.from, s0.off)
		if maxSeq(lo, map[*Term]bool{}) > mark || maxSeq(s0.base, map[*Term]bool{}) > mark || mods.roots[ex.prog.tkey(s0.elem)] {
			if debugInv {
				fmt.Fprintf(os.Stderr, "no mover %s lo %s\n", key, ts.show(lo, 6))
			}
			mods.plain[key] = true
			continue
		}
		mods.movs = append(mods.movs, &mover{key: key, hp: hp, s: s0, lo: lo})
		found = true
	}
	return found
}

// moverOK: after an iteration from the header state h the array is the one
// before or a new one, and the elements below the bound are the same.
func (ex *Exec) moverOK(b, h, start *State, v *mover) bool {
	ts := ex.ts
	n := b.load(v.hp).(*SliceV)
	hs := h.load(v.hp).(*SliceV)
	if n.off != v.s.off || !ex.newOrIn(n.base, hs.base, start.nalloc) {
		return false
	}
	if !b.prove(ts.Le(hs.len, n.len), true) || !b.prove(ts.Le(n.len, n.cap), true) {
		return false
	}
	if v.dec != "" && !b.prove(ts.Le(v.low(ex, b), v.low(ex, h)), true) {
		return false
	}
	lo := ts.Add(v.s.off, v.low(ex, b))
	for _, lf := range ex.prog.leaves(v.s.elem) {
		_, h1 := b.comp(v.s.elem, lf.Path, lf.Sort)
		_, h0 := h.comp(v.s.elem, lf.Path, lf.Sort)
		if !ex.prog.known(lf.Path) {
			continue
		}
		if !ex.frameArr(b, ts.Select(h1, n.base), ts.Select(h0, hs.base), []frameLoc{{lo: lo}}) {
			if debugInv {
				if a := ts.Select(h1, n.base); dropLog && a.op == "merge" {
					ex.dumpVC(b, ts.Le(lo, a.args[1]), "mover facts")
				}
				fmt.Fprintf(os.Stderr, "mover %s: %s lo %s\n  %s\n  %s\n", v.key, lf.Path, ts.show(lo, 6), ts.show(ts.Select(h1, n.base), 7), ts.show(ts.Select(h0, hs.base), 6))
			}
			return false
		}
	}
	return true
}

// newSlice: the slice variable starts with a newly allocated array or as nil,
// and only ever moves to newer ones.
func (m *loopMods) newSlice(ex *Exec, ph *ssa.Phi, entry Val) bool {
	s, ok := entry.(*SliceV)
	if !ok || m.stale[ph] || s.str != nil {
		return false
	}
	for _, x := range ex.chain(s.base) {
		if isRefLit(x) || x == ex.ts.Int(0) {
			return true
		}
	}
	return false
}

// freshPhi: the slice variable whose array the base is.
func (m *loopMods) freshPhi(ex *Exec, b *Term, hp map[*ssa.Phi]Val) *ssa.Phi {
	for ph, v := range hp {
		if s, ok := v.(*SliceV); ok && ex.freshOf[b] != nil && (s.base == b || ex.freshOf[s.base] == b) {
			return ph
		}
	}
	return nil
}

// dropMover: treat the slice variable and its elements as ordinary memory.
func (m *loopMods) dropMover(ex *Exec, v *mover, start *State) {
	m.plain[v.key] = true
	for _, lf := range ex.prog.leaves(v.s.elem) {
		key, _ := start.comp(v.s.elem, lf.Path, lf.Sort)
		m.whole[key] = true
	}
	for _, f := range []string{"#base", "#off", "#len", "#cap"} {
		c := ex.prog.tkey(v.hp.root) + "|" + v.hp.path + f
		if m.bases[c] == nil {
			m.bases[c] = map[*Term]*modRange{}
		}
		m.bases[c][v.hp.base] = &modRange{idxs: []*Term{v.hp.idx}}
	}
}

var debugInv = os.Getenv("DEBUGINV") != ""

func (ex *Exec) compSort(st *State, k string) Sort {
	if h, ok := st.heap[k]; ok {
		return elemSort(elemSort(h.sort))
	}
	root := compRoot(k)
	path := k[len(root)+1:]
	if root == "bufio.Writer" || root == "trace" {
		return ghostSort(path)
	}
	ex.prog.mu.Lock()
	ids := append([]types.Type{}, ex.prog.idTypes...)
	ex.prog.mu.Unlock()
	for _, t := range ids {
		if t != nil && ex.prog.tkey(t) == root {
			for _, lf := range ex.prog.leaves(t) {
				if lf.Path == path {
					return lf.Sort
				}
			}
		}
	}
	if s, ok := ex.sorts[k]; ok {
		return s
	}
	panic("sort of component " + k)
}

// refact restores type facts of havocked integer and slice leaves.
func (ex *Exec) refact(s, start *State, mods *loopMods) {
	ts := ex.ts
	z := ts.Int(0)
	for _, c := range sortedMods(mods.bases) {
		root := compRoot(c)
		path := c[len(root)+1:]
		if mods.whole[c] || mods.roots[root] {
			continue
		}
		for b := range mods.bases[c] {
			if c == "bufio.Writer|$err" && s.heap[c] != nil {
				// write errors are sticky
				_, h0 := start.compK(c, ex.compSort(start, c))
				e0 := ts.Select(ts.Select(h0, b), z)
				e1 := ts.Select(ts.Select(s.heap[c], b), z)
				s.assume(ts.Or(ts.Eq(e0, z), ts.Eq(e1, e0)))
			}
			if r := mods.bases[c][b]; r != nil && r.phi == nil {
				continue
			}
			if strings.HasSuffix(path, "#len") {
				v := ts.Select(ts.Select(s.heap[c], b), z)
				s.assume(ts.Le(z, v))
			}
		}
	}
}

// writeSet: all writes to the array are at fixed indexes, those of set and
// perhaps more.
func (ex *Exec) writeSet(a1, a0 *Term, set []*Term, mark int) []*Term {
	in := func(i *Term) bool {
		for _, x := range set {
			if x == i {
				return true
			}
		}
		return false
	}
	// the header's array may itself end in stores that are done again
	tail := map[*Term]int{a0: 0}
	var pre []*Term
	for x := a0; x.op == "store" && maxSeq(x.args[1], map[*Term]bool{}) <= mark; {
		pre = append(pre, x.args[1])
		x = x.args[0]
		tail[x] = len(pre)
	}
	add := func(j *Term) bool {
		if !in(j) {
			if maxSeq(j, map[*Term]bool{}) > mark || len(set) > 4 {
				return false
			}
			set = append(set[:len(set):len(set)], j)
		}
		return true
	}
	for {
		if n, ok := tail[a1]; ok {
			for _, j := range pre[:n] {
				if !add(j) {
					return nil
				}
			}
			break
		}
		if a1.op != "store" || !add(a1.args[1]) {
			return nil
		}
		a1 = a1.args[0]
	}
	return set
}

// writeRange: all writes to the array are at indexes c + processed(phi).
func (ex *Exec) writeRange(a1, a0 *Term, hp map[*ssa.Phi]Val, phis []*ssa.Phi, mark int) *modRange {
	ts := ex.ts
	var r *modRange
	for a1 != a0 {
		if a1.op != "store" {
			return nil
		}
		j := a1.args[1]
		var m *modRange
		for _, ph := range phis {
			if !isIntType(ph.Type()) {
				continue
			}
			c := ts.Sub(j, processed(ts, ph, hp[ph]).(*Term))
			if maxSeq(c, map[*Term]bool{}) <= mark {
				m = &modRange{phi: ph, c: c}
				break
			}
		}
		if m == nil || (r != nil && (r.phi != m.phi || r.c != m.c)) {
			return nil
		}
		r = m
		a1 = a1.args[0]
	}
	return r
}

func maxSeq(t *Term, seen map[*Term]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := t.seq
	for _, a := range t.args {
		if x := maxSeq(a, seen); x > m {
			m = x
		}
	}
	return m
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func sortedMods(m map[string]map[*Term]*modRange) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// loopVars collects the values invariant templates may mention.
func (ex *Exec) loopVars(start *State, fr *Frame, l *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Val, mods *loopMods) []*loopVar {
	ts := ex.ts
	var out []*loopVar
	for _, ph := range phis {
		ph := ph
		if isIntType(ph.Type()) {
			out = append(out, &loopVar{typ: "li", name: ph.Comment, id: "phi " + ph.Comment, start: processed(ts, ph, entry[ph]),
				get: func(_ *State, m map[*ssa.Phi]Val) Val { return processed(ts, ph, m[ph]) }})
		}
		t := ex.prog.tkey(ph.Type())
		out = append(out, &loopVar{typ: t, name: ph.Comment, id: "phi " + ph.Comment, start: entry[ph],
			get: func(_ *State, m map[*ssa.Phi]Val) Val { return m[ph] }})
	}
	var ids []int
	for id := range mods.iters {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		out = append(out, &loopVar{typ: "li", name: "pos", id: "pos", start: start.iters[id],
			get: func(s *State, _ map[*ssa.Phi]Val) Val { return s.simpIte(s.iters[id]) }})
	}
	// other values in scope
	type ev struct {
		v   ssa.Value
		val Val
	}
	var evs []ev
	for v, val := range fr.env {
		if _, isPhi := v.(*ssa.Phi); isPhi && v.(*ssa.Phi).Block() == l.header {
			continue
		}
		evs = append(evs, ev{v, val})
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].v.Name() < evs[j].v.Name() })
	seen := map[string]bool{}
	for _, e := range evs {
		val := e.val
		if it, ok := val.(*IterV); ok {
			val = it.s
			k := fmt.Sprintf("string:%d", it.s.id)
			if !seen[k] {
				seen[k] = true
				v := val
				out = append(out, &loopVar{typ: "string", name: "ranged", id: "ranged", start: v, get: func(*State, map[*ssa.Phi]Val) Val { return v }})
			}
			continue
		}
		if _, ok := val.(TupleV); ok {
			continue
		}
		t := e.v.Type()
		tk := ex.prog.tkey(t)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			tk = "string"
		}
		switch val.(type) {
		case *Term, *StructV, *SliceV, *PtrV:
		default:
			continue
		}
		if tk == "string" {
			switch e.v.(type) {
			case *ssa.Parameter, *ssa.UnOp, *ssa.Field, *ssa.FreeVar, *ssa.Phi, *ssa.Extract:
			default:
				continue
			}
		}
		if p, ok := val.(*PtrV); ok && (p.table != nil || p.str != nil) {
			continue
		}
		k := tk + ":" + ex.valKey(val)
		if seen[k] {
			continue
		}
		seen[k] = true
		v := val
		out = append(out, &loopVar{typ: tk, name: e.v.Name(), id: "v:" + k, start: v, get: func(*State, map[*ssa.Phi]Val) Val { return v }})
	}
	return out
}

func (ex *Exec) valKey(v Val) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprint(x.id)
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += ex.valKey(f) + ","
		}
		return s + "}"
	case *ArrV:
		s := "["
		for _, f := range x.f {
			s += ex.valKey(f) + ","
		}
		return s + "]"
	case *SliceV:
		return fmt.Sprintf("[%d,%d,%d]", x.base.id, x.off.id, x.len.id)
	case *PtrV:
		return fmt.Sprintf("*%d,%d,%s", x.base.id, x.idx.id, x.path)
	case *FuncV:
		return fmt.Sprint(x.id.id)
	}
	return fmt.Sprintf("%T", v)
}

// candidates: a parameter type written ~T stands for the slice the loop
// ranges over, where that is known.
func (ex *Exec) candidates(vars []*loopVar, ranged *Term) []*cand {
	var out []*cand
	byType := map[string][]*loopVar{}
	for _, v := range vars {
		byType[v.typ] = append(byType[v.typ], v)
	}
	for n, inv := range ex.prog.C.Invs {
		if ex.ct != nil && (inv.File != ex.ct.File || !ex.relevant(inv)) {
			continue
		}
		var rec func(i int, cur []*loopVar)
		rec = func(i int, cur []*loopVar) {
			if len(out) > 400 {
				return
			}
			if i == len(inv.Params) {
				var ids []string
				for _, v := range cur {
					ids = append(ids, v.name)
				}
				out = append(out, &cand{inv: inv, vars: append([]*loopVar{}, cur...), key: fmt.Sprintf("inv%d(%s) %s", n, strings.Join(ids, ","), exprString(inv.Expr))})
				return
			}
			typ := strings.TrimPrefix(inv.Params[i].Type, "~")
			for _, v := range byType[typ] {
				if s, ok := v.start.(*SliceV); ok && typ != inv.Params[i].Type && ranged != nil && s.len != ranged {
					continue
				}
				dup := false
				for j, u := range cur {
					if inv.Params[j].Type == inv.Params[i].Type && u == v {
						dup = true
					}
				}
				if dup {
					continue
				}
				rec(i+1, append(cur, v))
			}
		}
		rec(0, nil)
	}
	return out
}

// relevant: an invariant is a candidate only when the contract under proof
// speaks of the specification functions it uses.
func (ex *Exec) relevant(inv *InvDef) bool {
	if ex.words == nil {
		ex.words = map[string]bool{}
		for _, cs := range [][]*Clause{ex.ct.Requires, ex.ct.Ensures, ex.ct.OnPanic} {
			for _, c := range cs {
				ex.prog.C.recWords(c.Expr, ex.words, map[string]bool{})
			}
		}
		if ex.ct.Panics != nil {
			ex.prog.C.recWords(ex.ct.Panics.Expr, ex.words, map[string]bool{})
		}
		for _, l := range ex.ct.Lets {
			ex.prog.C.recWords(l.Expr, ex.words, map[string]bool{})
		}
		for _, d := range ex.ct.Defines {
			ex.prog.C.recWords(d.Expr, ex.words, map[string]bool{})
		}
	}
	need := map[string]bool{}
	ex.prog.C.recWords(inv.Expr, need, map[string]bool{})
	for w := range need {
		if !ex.words[w] {
			return false
		}
	}
	return true
}

// recWords collects the recursive specification functions an expression uses.
func (c *Contracts) recWords(e ast.Expr, out, seen map[string]bool) {
	if e == nil {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || seen[id.Name] {
			return true
		}
		seen[id.Name] = true
		if m := c.Macros[id.Name]; m != nil {
			c.recWords(m.Expr, out, seen)
		}
		if r := c.Recs[id.Name]; r != nil {
			out[id.Name] = true
			c.recWords(r.Expr, out, seen)
		}
		return true
	})
}
