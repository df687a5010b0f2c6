package main

// Terms: hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
)

func arrSort(s Sort) Sort { return Sort("(Array Int " + string(s) + ")") }
func elemSort(s Sort) Sort {
	t := string(s)
	if !strings.HasPrefix(t, "(Array Int ") {
		panic("elemSort " + t)
	}
	return Sort(t[len("(Array Int ") : len(t)-1])
}

// Ops: lit (int), strlit, true, false, var, + (linear), <=0 (arg: linear), =,
// and, or, not, ite, ++ (concat), len, select, store, konst, merge, uf,
// contains, sub, at, mulc handled by coef, div, mod
type Term struct {
	id   int
	op   string
	sort Sort
	args []*Term
	name string   // var/uf name or string literal
	n    *big.Int // int literal or constant part of +
	coef []*big.Int
	key  string
	seq  int
	lbc  int // allocation counter bound for vars (how many refs existed at creation)
}

type TS struct {
	recIn  map[*Term]bool
	natAt  bool // bytes of strings in the solver's own terms at every index
	tab    map[string]*Term
	nextID int
	fresh  int
	True   *Term
	False  *Term
	prog   *Program
	// number of heap references allocated so far on the current path (max)
	recs     map[string]*RecFn
	linCache map[*Term]linParts
	inApp    bool
}

func NewTS(p *Program) *TS {
	ts := &TS{tab: map[string]*Term{}, prog: p}
	ts.True = ts.mk("true", SBool, "", nil)
	ts.False = ts.mk("false", SBool, "", nil)
	return ts
}

func (ts *TS) mk(op string, s Sort, name string, args []*Term) *Term {
	return ts.mkFull(op, s, name, args, nil, nil)
}

func (ts *TS) mkFull(op string, s Sort, name string, args []*Term, n *big.Int, coef []*big.Int) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(s))
	b.WriteByte('|')
	b.WriteString(name)
	if n != nil {
		b.WriteByte('#')
		b.WriteString(n.String())
	}
	for i, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
		if coef != nil {
			b.WriteByte('*')
			b.WriteString(coef[i].String())
		}
	}
	k := b.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.nextID++
	t := &Term{id: ts.nextID, op: op, sort: s, args: args, name: name, n: n, coef: coef, key: k}
	ts.tab[k] = t
	return t
}

func (ts *TS) Var(name string, s Sort) *Term { return ts.mk("var", s, name, nil) }

func (ts *TS) Fresh(prefix string, s Sort, allocs int) *Term {
	ts.fresh++
	t := ts.Var(fmt.Sprintf("%s!%d", prefix, ts.fresh), s)
	t.lbc = allocs
	t.seq = ts.fresh
	return t
}

func (ts *TS) Int(i int64) *Term    { return ts.Big(big.NewInt(i)) }
func (ts *TS) Big(b *big.Int) *Term { return ts.mkFull("lit", SInt, "", nil, b, nil) }
func (ts *TS) Str(s string) *Term   { return ts.mk("strlit", SStr, s, nil) }
func (ts *TS) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (t *Term) isLit() bool { return t.op == "lit" }
func (t *Term) isStr() bool { return t.op == "strlit" }
func (t *Term) isConst() bool {
	return t.op == "lit" || t.op == "strlit" || t.op == "true" || t.op == "false"
}
func (t *Term) int() int64 { return t.n.Int64() }

// ---- linear integers

type lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

func newLin() *lin { return &lin{big.NewInt(0), map[*Term]*big.Int{}} }

func (l *lin) add(t *Term, c *big.Int) {
	switch t.op {
	case "lit":
		l.k.Add(l.k, new(big.Int).Mul(t.n, c))
	case "+":
		l.k.Add(l.k, new(big.Int).Mul(t.n, c))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], c))
		}
	default:
		l.addAtom(t, c)
	}
}
func (l *lin) addAtom(t *Term, c *big.Int) {
	o, ok := l.m[t]
	if !ok {
		o = big.NewInt(0)
	}
	r := new(big.Int).Add(o, c)
	if r.Sign() == 0 {
		delete(l.m, t)
	} else {
		l.m[t] = r
	}
}

var one = big.NewInt(1)
var mone = big.NewInt(-1)

func (ts *TS) fromLin(l *lin) *Term {
	if len(l.m) == 0 {
		return ts.Big(l.k)
	}
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].Cmp(one) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return ts.mkFull("+", SInt, "", as, new(big.Int).Set(l.k), cs)
}

func (ts *TS) Add(a ...*Term) *Term {
	l := newLin()
	for _, x := range a {
		l.add(x, one)
	}
	return ts.fromLin(l)
}
func (ts *TS) Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return ts.fromLin(l)
}
func (ts *TS) AddI(a *Term, i int64) *Term { return ts.Add(a, ts.Int(i)) }
func (ts *TS) MulC(a *Term, c *big.Int) *Term {
	l := newLin()
	l.add(a, c)
	return ts.fromLin(l)
}
func (ts *TS) Mul(a, b *Term) *Term {
	if a.isLit() {
		return ts.MulC(b, a.n)
	}
	if b.isLit() {
		return ts.MulC(a, b.n)
	}
	return ts.mk("*", SInt, "", []*Term{a, b})
}

// Le: a <= b
func (ts *TS) Le(a, b *Term) *Term {
	d := ts.Sub(a, b) // d <= 0
	if d.isLit() {
		return ts.Bool(d.n.Sign() <= 0)
	}
	// cheap sign knowledge
	if lo, ok := ts.lower(d); ok && lo.Sign() > 0 {
		return ts.False
	}
	if hi, ok := ts.upper(d); ok && hi.Sign() <= 0 {
		return ts.True
	}
	return ts.mk("<=0", SBool, "", []*Term{d})
}
func (ts *TS) Lt(a, b *Term) *Term { return ts.Le(ts.AddI(a, 1), b) }
func (ts *TS) Ge(a, b *Term) *Term { return ts.Le(b, a) }
func (ts *TS) Gt(a, b *Term) *Term { return ts.Lt(b, a) }

// static bounds of atoms
func atomBounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case "lit":
		return t.n, t.n
	case "len":
		return big.NewInt(0), nil
	case "at":
		return big.NewInt(0), big.NewInt(255)
	case "uf":
		switch t.name {
		case "decr":
			return big.NewInt(0), big.NewInt(0x10FFFF)
		case "decw":
			return big.NewInt(1), big.NewInt(4)
		}
	}
	return nil, nil
}

func (ts *TS) lower(t *Term) (*big.Int, bool) {
	if t.op != "+" {
		lo, _ := atomBounds(t)
		return lo, lo != nil
	}
	s := new(big.Int).Set(t.n)
	for i, a := range t.args {
		lo, hi := atomBounds(a)
		if t.coef[i].Sign() > 0 {
			if lo == nil {
				return nil, false
			}
			s.Add(s, new(big.Int).Mul(lo, t.coef[i]))
		} else {
			if hi == nil {
				return nil, false
			}
			s.Add(s, new(big.Int).Mul(hi, t.coef[i]))
		}
	}
	return s, true
}
func (ts *TS) upper(t *Term) (*big.Int, bool) {
	n := ts.MulC(t, mone)
	lo, ok := ts.lower(n)
	if !ok {
		return nil, false
	}
	return new(big.Int).Neg(lo), true
}

// ---- booleans

func (ts *TS) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return ts.False
	case "false":
		return ts.True
	case "not":
		return a.args[0]
	case "<=0":
		// not (d <= 0)  =>  -d + 1 <= 0
		return ts.Le(ts.Int(1), a.args[0])
	}
	return ts.mk("not", SBool, "", []*Term{a})
}

func (ts *TS) And(a ...*Term) *Term { return ts.nary("and", a) }
func (ts *TS) Or(a ...*Term) *Term  { return ts.nary("or", a) }

func (ts *TS) nary(op string, a []*Term) *Term {
	unit, zero := ts.True, ts.False
	if op == "or" {
		unit, zero = zero, unit
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[ts.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range a {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return ts.mk(op, SBool, "", out)
}

func (ts *TS) Implies(a, b *Term) *Term { return ts.Or(ts.Not(a), b) }

func (ts *TS) Ite(c, a, b *Term) *Term {
	if c == ts.True || a == b {
		return a
	}
	if c == ts.False {
		return b
	}
	if a.sort == SBool {
		if a == ts.True {
			return ts.Or(c, b)
		}
		if a == ts.False {
			return ts.And(ts.Not(c), b)
		}
		if b == ts.True {
			return ts.Or(ts.Not(c), a)
		}
		if b == ts.False {
			return ts.And(c, a)
		}
	}
	if c.op == "not" {
		return ts.Ite(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return ts.mk("ite", a.sort, "", []*Term{c, a, b})
}

func (ts *TS) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s %s: %s / %s", a.sort, b.sort, ts.Show(a), ts.Show(b)))
	}
	if a.isConst() && b.isConst() {
		return ts.False
	}
	switch a.sort {
	case SBool:
		if a == ts.True {
			return b
		}
		if a == ts.False {
			return ts.Not(b)
		}
		if b == ts.True {
			return a
		}
		if b == ts.False {
			return ts.Not(a)
		}
	case SInt:
		// ite with constant branches
		if b.op == "ite" && a.op != "ite" {
			a, b = b, a
		}
		if a.op == "ite" {
			if r, ok := ts.eqIte(a, b); ok {
				return r
			}
		}
		if ts.distinctRefs(a, b) {
			return ts.False
		}
		d := ts.Sub(a, b)
		if d.isLit() {
			return ts.Bool(d.n.Sign() == 0)
		}
		if lo, ok := ts.lower(d); ok && lo.Sign() > 0 {
			return ts.False
		}
		if hi, ok := ts.upper(d); ok && hi.Sign() < 0 {
			return ts.False
		}
		// canonical: keep var-like on left when literal on right
		if d.op == "+" {
			if len(d.args) == 1 {
				if d.coef[0].Cmp(one) == 0 {
					return ts.mk("=", SBool, "", []*Term{d.args[0], ts.Big(new(big.Int).Neg(d.n))})
				}
				if d.coef[0].Cmp(mone) == 0 {
					return ts.mk("=", SBool, "", []*Term{d.args[0], ts.Big(d.n)})
				}
			}
			if d.coef[0].Sign() < 0 {
				d = ts.MulC(d, mone)
			}
			if len(d.args) == 2 && d.n.Sign() == 0 && d.coef[0].Cmp(one) == 0 && d.coef[1].Cmp(mone) == 0 {
				return ts.mk("=", SBool, "", []*Term{d.args[0], d.args[1]})
			}
			return ts.mk("=", SBool, "", []*Term{d, ts.Int(0)})
		}
		if d.id > 0 && !a.isLit() && !b.isLit() {
			return ts.mk("=", SBool, "", []*Term{d, ts.Int(0)})
		}
	case SStr:
		return ts.eqStr(a, b)
	}
	if a.isConst() || (a.id > b.id && !b.isConst()) {
		a, b = b, a
	}
	return ts.mk("=", SBool, "", []*Term{a, b})
}

func (ts *TS) eqIte(a, b *Term) (*Term, bool) {
	x := ts.quickEq(a.args[1], b)
	y := ts.quickEq(a.args[2], b)
	c := a.args[0]
	if x != nil && y != nil {
		return ts.Ite(c, x, y), true
	}
	if x != nil {
		if x == ts.False {
			return ts.And(ts.Not(c), ts.Eq(a.args[2], b)), true
		}
		return ts.Or(c, ts.Eq(a.args[2], b)), true
	}
	if y != nil {
		if y == ts.False {
			return ts.And(c, ts.Eq(a.args[1], b)), true
		}
		return ts.Or(ts.Not(c), ts.Eq(a.args[1], b)), true
	}
	return nil, false
}

// quickEq returns True/False if decided syntactically, else nil.
func (ts *TS) quickEq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.isConst() && b.isConst() {
		return ts.False
	}
	if a.sort == SInt {
		if ts.distinctRefs(a, b) {
			return ts.False
		}
		d := ts.Sub(a, b)
		if d.isLit() {
			return ts.Bool(d.n.Sign() == 0)
		}
		if lo, ok := ts.lower(d); ok && lo.Sign() > 0 {
			return ts.False
		}
		if hi, ok := ts.upper(d); ok && hi.Sign() < 0 {
			return ts.False
		}
	}
	return nil
}

// A fresh reference is the literal -k (k-th allocation of the path). A term
// built only from symbols created when at most n references existed cannot
// denote reference -k with k > n. Only meaningful for reference-sorted terms,
// but for any Int term compared to a negative literal below -1 000 000 the
// comparison can only come from references: allocation numbers start there.
const refBase = 1000000

func (ts *TS) refLit(k int) *Term { return ts.Int(int64(-refBase - k)) }

func isRefLit(t *Term) bool {
	return t.op == "lit" && t.n.IsInt64() && t.n.Int64() <= -refBase && t.n.Int64() > -2*refBase*1000
}

func (ts *TS) distinctRefs(a, b *Term) bool {
	if isRefLit(b) {
		a, b = b, a
	}
	if !isRefLit(a) || b.isLit() {
		return false
	}
	k := int(-a.n.Int64() - refBase)
	return ts.maxAlloc(b, map[*Term]bool{}) < k
}

// maxAlloc: upper bound on the allocation count known to any symbol in t.
func (ts *TS) maxAlloc(t *Term, seen map[*Term]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	m := 0
	switch t.op {
	case "var":
		return t.lbc
	case "lit":
		if isRefLit(t) {
			return int(-t.n.Int64() - refBase)
		}
		return 0
	}
	for _, a := range t.args {
		if x := ts.maxAlloc(a, seen); x > m {
			m = x
		}
	}
	return m
}

// ---- strings

func (ts *TS) Concat(a ...*Term) *Term {
	var out []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == "++" {
			for _, y := range x.args {
				add(y)
			}
			return
		}
		if x.isStr() {
			if x.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].isStr() {
				out[n-1] = ts.Str(out[n-1].name + x.name)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range a {
		add(x)
	}
	switch len(out) {
	case 0:
		return ts.Str("")
	case 1:
		return out[0]
	}
	return ts.mk("++", SStr, "", out)
}

func (ts *TS) parts(a *Term) []*Term {
	if a.op == "++" {
		return a.args
	}
	if a.isStr() && a.name == "" {
		return nil
	}
	return []*Term{a}
}

func (ts *TS) eqStr(a, b *Term) *Term {
	pa, pb := append([]*Term{}, ts.parts(a)...), append([]*Term{}, ts.parts(b)...)
	// strip common prefix
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.isStr() && y.isStr() {
			n := 0
			for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
				n++
			}
			if n == 0 || (n < len(x.name) && n < len(y.name)) {
				return ts.False
			}
			pa[0], pb[0] = ts.Str(x.name[n:]), ts.Str(y.name[n:])
			if pa[0].name == "" {
				pa = pa[1:]
			}
			if pb[0].name == "" {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		if x.isStr() && y.isStr() {
			n := 0
			lx, ly := len(x.name), len(y.name)
			for n < lx && n < ly && x.name[lx-1-n] == y.name[ly-1-n] {
				n++
			}
			if n == 0 || (n < lx && n < ly) {
				return ts.False
			}
			pa[len(pa)-1], pb[len(pb)-1] = ts.Str(x.name[:lx-n]), ts.Str(y.name[:ly-n])
			if lx == n {
				pa = pa[:len(pa)-1]
			}
			if ly == n {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		break
	}
	if len(pa) == 0 && len(pb) == 0 {
		return ts.True
	}
	if len(pa) == 0 || len(pb) == 0 {
		p := pa
		if len(pa) == 0 {
			p = pb
		}
		var cs []*Term
		for _, x := range p {
			if x.isStr() {
				return ts.False
			}
			cs = append(cs, ts.mk("=", SBool, "", []*Term{x, ts.Str("")}))
		}
		return ts.And(cs...)
	}
	x, y := ts.Concat(pa...), ts.Concat(pb...)
	for k := 0; k < 2; k++ {
		if x.op == "uf" && x.name == "tolower" && y.isStr() && simpleFold(y.name) && strings.ToLower(y.name) == y.name {
			return ts.foldEq(x.args[0], y.name)
		}
		x, y = y, x
	}
	if x.isConst() || (x.id > y.id && !y.isConst()) {
		x, y = y, x
	}
	return ts.mk("=", SBool, "", []*Term{x, y})
}

func (ts *TS) Len(s *Term) *Term {
	switch s.op {
	case "strlit":
		return ts.Int(int64(len(s.name)))
	case "++":
		var l []*Term
		for _, a := range s.args {
			l = append(l, ts.Len(a))
		}
		return ts.Add(l...)
	case "chr":
		return ts.Int(1)
	case "ite":
		a, b := ts.Len(s.args[1]), ts.Len(s.args[2])
		return ts.Ite(s.args[0], a, b)
	}
	return ts.mk("len", SInt, "", []*Term{s})
}

// At: byte at index (0..255), meaningful only in range.
func (ts *TS) At(s, i *Term) *Term {
	if i.isLit() {
		k := i.int()
		if s.isStr() && k >= 0 && k < int64(len(s.name)) {
			return ts.Int(int64(s.name[k]))
		}
		if s.op == "chr" && k == 0 {
			return s.args[0]
		}
		if s.op == "++" && k >= 0 {
			for j, p := range s.args {
				l := ts.Len(p)
				if !l.isLit() {
					if j > 0 {
						break
					}
					break
				}
				if k < l.int() {
					return ts.At(p, ts.Int(k))
				}
				k -= l.int()
			}
		}
	}
	if s.op == "sub" && s.args[2] == ts.Len(s.args[0]) {
		return ts.At(s.args[0], ts.Add(s.args[1], i))
	}
	return ts.mk("at", SInt, "", []*Term{s, i})
}

// Substr s[a:b]; valid only if 0<=a<=b<=len(s).
func (ts *TS) Substr(s, a, b *Term) *Term {
	if a == b {
		return ts.Str("")
	}
	if a.isLit() && a.int() == 0 && b == ts.Len(s) {
		return s
	}
	if s.isStr() && a.isLit() && b.isLit() {
		x, y := a.int(), b.int()
		if 0 <= x && x <= y && y <= int64(len(s.name)) {
			return ts.Str(s.name[x:y])
		}
	}
	if s.op == "sub" {
		if b == ts.Len(s) {
			return ts.Substr(s.args[0], ts.Add(s.args[1], a), s.args[2])
		}
		return ts.Substr(s.args[0], ts.Add(s.args[1], a), ts.Add(s.args[1], b))
	}
	if s.op == "++" {
		// drop a literal prefix / cut inside one
		rest := ts.parts(s)
		off := ts.Int(0)
		for len(rest) > 1 {
			l := ts.Len(rest[0])
			nx := ts.Add(off, l)
			if ts.Le(nx, a) == ts.True {
				off = nx
				rest = rest[1:]
				continue
			}
			break
		}
		if off != ts.Int(0) {
			return ts.Substr(ts.Concat(rest...), ts.Sub(a, off), ts.Sub(b, off))
		}
	}
	return ts.mk("sub", SStr, "", []*Term{s, a, b})
}

func (ts *TS) Chr(b *Term) *Term {
	if b.isLit() && b.int() >= 0 && b.int() < 256 {
		return ts.Str(string([]byte{byte(b.int())}))
	}
	if b.op == "ite" {
		return ts.Ite(b.args[0], ts.Chr(b.args[1]), ts.Chr(b.args[2]))
	}
	return ts.mk("chr", SStr, "", []*Term{b})
}

func (ts *TS) Contains(s, sub *Term) *Term {
	if s.isStr() && sub.isStr() {
		return ts.Bool(strings.Contains(s.name, sub.name))
	}
	if sub.isStr() && sub.name == "" {
		return ts.True
	}
	return ts.mk("contains", SBool, "", []*Term{s, sub})
}

// ---- arrays

func (ts *TS) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			q := ts.quickEq(a.args[1], i)
			if q == ts.True {
				return a.args[2]
			}
			if q == ts.False {
				a = a.args[0]
				continue
			}
			// push through ites on Int/Bool/Str element reads: keep as ite
			c := ts.Eq(a.args[1], i)
			return ts.Ite(c, a.args[2], ts.Select(a.args[0], i))
		case "konst":
			return a.args[0]
		case "merge": // merge(A, lo, hi, B): B in [lo,hi), A elsewhere
			in := ts.Le(a.args[1], i)
			if a.args[2] != ts.Int(inf) { // inf: no upper bound
				in = ts.And(in, ts.Lt(i, a.args[2]))
			}
			if in == ts.True {
				a = a.args[3]
				continue
			}
			if in == ts.False {
				a = a.args[0]
				continue
			}
			return ts.Ite(in, ts.Select(a.args[3], i), ts.Select(a.args[0], i))
		case "ite":
			return ts.Ite(a.args[0], ts.Select(a.args[1], i), ts.Select(a.args[2], i))
		}
		break
	}
	return ts.mk("select", elemSort(a.sort), "", []*Term{a, i})
}

func (ts *TS) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return ts.mk("store", a.sort, "", []*Term{a, i, v})
}

func (ts *TS) Konst(v *Term) *Term { return ts.mk("konst", arrSort(v.sort), "", []*Term{v}) }

const inf = int64(1) << 60

func (ts *TS) Merge(a, lo, hi, b *Term) *Term {
	if a == b {
		return a
	}
	for a.op == "merge" && a.args[1] == lo && a.args[2] == hi || a.op == "store" && hi == ts.Int(inf) && ts.Le(lo, a.args[1]) == ts.True {
		a = a.args[0]
	}
	return ts.mk("merge", a.sort, "", []*Term{a, lo, hi, b})
}

// UF application
func (ts *TS) UF(name string, s Sort, args ...*Term) *Term {
	switch name {
	case "decr", "decw":
		if r := ts.foldDec(name, args[0], args[1]); r != nil {
			return r
		}
	}
	return ts.mk("uf", s, name, args)
}

func (ts *TS) Show(t *Term) string { return ts.show(t, 12) }
func (ts *TS) show(t *Term, d int) string {
	switch t.op {
	case "lit":
		return t.n.String()
	case "strlit":
		return fmt.Sprintf("%q", t.name)
	case "var":
		return t.name
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "…"
	}
	var b strings.Builder
	b.WriteString("(" + t.op)
	if t.name != "" {
		b.WriteString(":" + t.name)
	}
	if t.n != nil {
		b.WriteString(" " + t.n.String())
	}
	for i, a := range t.args {
		b.WriteByte(' ')
		if t.coef != nil && t.coef[i].Cmp(one) != 0 {
			b.WriteString(t.coef[i].String() + "*")
		}
		b.WriteString(ts.show(a, d-1))
	}
	b.WriteByte(')')
	return b.String()
}
