package main

import "math/big"

// presolve: unit propagation and equality substitution over a conjunction,
// done on terms before a solver is asked. It only rewrites with facts of the
// conjunction, so the result is equivalent to it.

type pre struct {
	ts    *TS
	true_ map[*Term]bool
	sub   map[*Term]*Term
	memo  map[*Term]*Term
	bound map[*Term]*big.Int // linear form without constant -> largest k with form + k <= 0 known
}

// form splits d into a constant and the linear form without it.
func (ts *TS) form(d *Term) (*Term, *big.Int) {
	if d.op != "+" {
		return d, new(big.Int)
	}
	if d.n.Sign() == 0 {
		return d, d.n
	}
	l := newLin()
	l.add(d, one)
	k := new(big.Int).Set(l.k)
	l.k.SetInt64(0)
	return ts.fromLin(l), k
}

func (p *pre) learn(t *Term) {
	if t.op != "<=0" {
		return
	}
	f, k := p.ts.form(t.args[0])
	if o := p.bound[f]; o == nil || k.Cmp(o) > 0 {
		p.bound[f] = k
	}
}

// implied decides d <= 0 from the bounds known.
func (p *pre) implied(t *Term) *Term {
	if t.op != "<=0" {
		return nil
	}
	f, k := p.ts.form(t.args[0])
	if o := p.bound[f]; o != nil && k.Cmp(o) <= 0 {
		return p.ts.True
	}
	if o := p.bound[p.ts.MulC(f, mone)]; o != nil && new(big.Int).Add(o, k).Sign() > 0 {
		return p.ts.False
	}
	return nil
}

func (p *pre) rw(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if r, ok := p.memo[t]; ok {
		return r
	}
	r := p.rw1(t)
	p.memo[t] = r
	return r
}

func (p *pre) rw1(t *Term) *Term {
	ts := p.ts
	if s := p.sub[t]; s != nil {
		return p.rw(s)
	}
	if t.sort == SBool {
		if p.true_[t] {
			return ts.True
		}
		if p.true_[ts.Not(t)] {
			return ts.False
		}
		if i := p.implied(t); i != nil {
			return i
		}
	}
	r := p.args(t)
	if r != t {
		if s := p.sub[r]; s != nil {
			return p.rw(s)
		}
		if r.sort == SBool {
			if p.true_[r] {
				return ts.True
			}
			if p.true_[ts.Not(r)] {
				return ts.False
			}
			if i := p.implied(r); i != nil {
				return i
			}
		}
	}
	return r
}

// args rewrites the arguments of t and rebuilds it.
func (p *pre) args(t *Term) *Term {
	ts := p.ts
	if len(t.args) == 0 {
		return t
	}
	if t.op == "ite" {
		c := p.rw(t.args[0])
		if c == ts.True {
			return p.rw(t.args[1])
		}
		if c == ts.False {
			return p.rw(t.args[2])
		}
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = p.rw(a)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return ts.rebuild(t, as)
}

func occurs(x, in *Term, seen map[*Term]bool) bool {
	if x == in {
		return true
	}
	if seen[in] {
		return false
	}
	seen[in] = true
	for _, a := range in.args {
		if occurs(x, a, seen) {
			return true
		}
	}
	return false
}

// orient picks a rewrite for an equality.
func orient(ts *TS, t *Term) (l, r *Term) {
	if t.op != "=" {
		return nil, nil
	}
	a, b := t.args[0], t.args[1]
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.sort != SBool {
		if a.op == "+" {
			return orientLin(ts, a, b)
		}
		if a.op == "++" || a.op == "ite" {
			return nil, nil
		}
		return a, b
	}
	simple := func(x *Term) int {
		switch x.op {
		case "var":
			return 2
		case "select":
			return 1
		}
		return 0
	}
	if a.sort == SBool {
		return nil, nil
	}
	rec := func(x *Term) bool { return x.op == "uf" && ts.recs[x.name] != nil }
	if rec(b) && !rec(a) && simple(a) == 0 {
		a, b = b, a
	}
	if rec(a) && simple(b) == 0 && (!rec(b) || a.seq > b.seq) && !occurs(a, b, map[*Term]bool{}) {
		return a, b
	}
	sa, sb := simple(a), simple(b)
	if sb > sa || (sa == sb && b.seq > a.seq) {
		a, b = b, a
		sa = sb
	}
	if sa == 0 || occurs(a, b, map[*Term]bool{}) {
		if simple(b) > 0 && !occurs(b, a, map[*Term]bool{}) {
			return b, a
		}
		return nil, nil
	}
	return a, b
}

// orientLin: k + c*x + ... = 0 with a unit coefficient variable.
func orientLin(ts *TS, d, b *Term) (*Term, *Term) {
	if !b.isLit() {
		return nil, nil
	}
	best := -1
	for i, a := range d.args {
		if a.op != "var" || d.coef[i].CmpAbs(one) != 0 {
			continue
		}
		if best < 0 || a.seq > d.args[best].seq {
			best = i
		}
	}
	if best < 0 {
		return nil, nil
	}
	x := d.args[best]
	l := newLin()
	l.add(d, one)
	l.add(b, mone)
	c := l.m[x]
	if c == nil {
		return nil, nil
	}
	delete(l.m, x)
	r := ts.fromLin(l)
	if c.Sign() > 0 {
		r = ts.MulC(r, mone)
	}
	if occurs(x, r, map[*Term]bool{}) {
		return nil, nil
	}
	return x, r
}

// presolve returns an equivalent list of facts, or nil, true when they are
// contradictory.
func (ts *TS) presolve(fs []*Term) ([]*Term, bool) {
	cur := map[*Term]bool{}
	var list []*Term
	var push func(t *Term) bool
	push = func(t *Term) bool {
		if t == ts.False {
			return false
		}
		if t == ts.True || cur[t] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !push(a) {
					return false
				}
			}
			return true
		}
		if t.op == "not" && t.args[0].op == "or" {
			for _, a := range t.args[0].args {
				if !push(ts.Not(a)) {
					return false
				}
			}
			return true
		}
		if cur[ts.Not(t)] {
			return false
		}
		cur[t] = true
		list = append(list, t)
		return true
	}
	for _, f := range fs {
		if !push(f) {
			return nil, true
		}
	}
	p := &pre{ts: ts, sub: map[*Term]*Term{}}
	eqOf := map[*Term]*Term{} // equality fact of a rewrite
	for round := 0; round < 12; round++ {
		p.true_ = map[*Term]bool{}
		p.memo = map[*Term]*Term{}
		p.bound = map[*Term]*big.Int{}
		for _, t := range list {
			if t.op != "ite" {
				p.true_[t] = true
				p.learn(t)
			}
		}
		for _, t := range list {
			if eqOf[t] != nil {
				continue
			}
			l, r := orient(ts, t)
			if l == nil || p.sub[l] != nil {
				continue
			}
			// keep the rewriting system acyclic
			r2 := p.rw(r)
			if occurs(l, r2, map[*Term]bool{}) {
				continue
			}
			p.sub[l] = r
			eqOf[t] = l
			p.memo = map[*Term]*Term{}
			if p.cyclic(l) {
				delete(p.sub, l)
				delete(eqOf, t)
			}
		}
		p.memo = map[*Term]*Term{}
		// the left sides in the form other rewrites give them
		renamed := false
		for _, t := range list {
			l := eqOf[t]
			if l == nil || len(l.args) == 0 {
				continue
			}
			l2 := p.args(l)
			if l2 == l || l2.isConst() || p.sub[l2] != nil {
				continue
			}
			p.sub[l2] = p.sub[l]
			p.memo = map[*Term]*Term{}
			if p.cyclic(l2) {
				delete(p.sub, l2)
				continue
			}
			renamed = true
		}
		p.memo = map[*Term]*Term{}
		old := list
		changed := renamed
		list = nil
		cur = map[*Term]bool{}
		for _, t := range old {
			var n *Term
			switch {
			case eqOf[t] != nil:
				n = t
			case p.true_[t]:
				// a literal: rewrite below the top only
				delete(p.true_, t)
				if t.op == "not" {
					n = ts.Not(p.args(t.args[0]))
					if p.sub[t.args[0]] != nil {
						n = ts.Not(p.rw(p.sub[t.args[0]]))
					}
				} else {
					n = p.args(t)
				}
				p.true_[t] = true
			default:
				n = p.args(t)
			}
			if n != t {
				changed = true
			}
			if !push(n) {
				return nil, true
			}
		}
		if !changed {
			break
		}
	}
	return list, false
}

// cyclic reports whether rewriting from l can reach l again.
func (p *pre) cyclic(l *Term) bool {
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == l {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if s := p.sub[t]; s != nil && visit(s) {
			return true
		}
		for _, a := range t.args {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(p.sub[l])
}

// unfoldAll adds the definition of every application of a specification
// function and simplifies with it. It returns nil when there is none.
func (ts *TS) unfoldAll(fs []*Term) ([]*Term, bool) {
	seen := map[*Term]bool{}
	var apps []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		if t.op == "uf" && ts.recs[t.name] != nil {
			apps = append(apps, t)
		}
	}
	for _, f := range fs {
		visit(f)
	}
	// only the definitions the facts decide
	p := &pre{ts: ts, sub: map[*Term]*Term{}, true_: map[*Term]bool{}, memo: map[*Term]*Term{}, bound: map[*Term]*big.Int{}}
	for _, t := range fs {
		if t.op != "ite" {
			p.true_[t] = true
			p.learn(t)
		}
		if l, r := orient(ts, t); l != nil && p.sub[l] == nil && r.isConst() {
			p.sub[l] = r
		}
	}
	out := fs[:len(fs):len(fs)]
	n := 0
	for _, t := range apps {
		r := ts.recs[t.name]
		body := r.unfold(ts, t)
		if body == nil {
			continue
		}
		b := p.rw(body)
		if t.sort == SBool {
			if p.true_[t] || p.true_[ts.Not(t)] {
				out = append(out, ts.Eq0(t, body))
				n++
			}
			continue
		}
		if b.op == "ite" {
			continue
		}
		if k := size(b, map[*Term]bool{}); k <= 60 || 100*k <= 88*size(body, map[*Term]bool{}) {
			out = append(out, ts.Eq0(t, body))
			n++
		}
	}
	if n == 0 {
		return nil, false
	}
	return ts.presolve(out)
}

func size(t *Term, seen map[*Term]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	n := 1
	for _, a := range t.args {
		n += size(a, seen)
	}
	return n
}
