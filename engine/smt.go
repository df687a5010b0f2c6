package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
	"unicode/utf8"
)

// ---- constant folding of UTF-8 decoding

func (ts *TS) foldDec(name string, s, i *Term) *Term {
	if s.op == "sub" && s.args[2] == ts.Len(s.args[0]) {
		return ts.UF(name, SInt, s.args[0], ts.Add(s.args[1], i))
	}
	if !i.isLit() || i.int() < 0 {
		if s.op == "++" && !i.isLit() {
			// index beyond a literal prefix: decode in the remainder
			l := ts.Len(s.args[0])
			d := ts.Sub(i, l)
			if ts.Le(ts.Int(0), d) == ts.True {
				return ts.UF(name, SInt, ts.Concat(s.args[1:]...), d)
			}
		}
		return nil
	}
	k := int(i.int())
	if s.isStr() {
		if k < len(s.name) {
			r, w := utf8.DecodeRuneInString(s.name[k:])
			if name == "decr" {
				return ts.Int(int64(r))
			}
			return ts.Int(int64(w))
		}
		return nil
	}
	if s.op == "++" && s.args[0].isStr() {
		p := s.args[0].name
		if k < len(p) {
			if p[k] < 0x80 {
				if name == "decr" {
					return ts.Int(int64(p[k]))
				}
				return ts.Int(1)
			}
			if utf8.FullRuneInString(p[k:]) {
				r, w := utf8.DecodeRuneInString(p[k:])
				if w > 1 {
					if name == "decr" {
						return ts.Int(int64(r))
					}
					return ts.Int(int64(w))
				}
			}
			return nil
		}
		return ts.UF(name, SInt, ts.Concat(s.args[1:]...), ts.Int(int64(k-len(p))))
	}
	return nil
}

// ---- fact generation

type factGen struct {
	ts      *TS
	seen    map[*Term]bool
	fuel    map[*Term]int // rec unfold fuel of a term
	facts   []*Term
	subs    map[*Term][]*Term // by string
	subSeen map[*Term]bool
	maxRec  int
	alls    map[string][]*Term
	nrec    int
}

func (g *factGen) add(f *Term, fuel int) {
	if f == g.ts.True {
		return
	}
	g.facts = append(g.facts, f)
	g.visit(f, fuel)
}

func (g *factGen) visit(t *Term, fuel int) {
	if g.seen[t] {
		if old, ok := g.fuel[t]; !ok || old >= fuel {
			return
		}
	}
	first := !g.seen[t]
	g.seen[t] = true
	g.fuel[t] = fuel
	for _, a := range t.args {
		g.visit(a, fuel)
	}
	ts := g.ts
	switch t.op {
	case "sub":
		if first {
			s, a, b := t.args[0], t.args[1], t.args[2]
			valid := ts.And(ts.Le(ts.Int(0), a), ts.Le(a, b), ts.Le(b, ts.Len(s)))
			g.add(ts.Implies(valid, ts.Eq(ts.mk("len", SInt, "", []*Term{t}), ts.Sub(b, a))), fuel)
			g.add(ts.Implies(ts.And(ts.Eq(a, ts.Int(0)), ts.Eq(b, ts.Len(s))), ts.mk("=", SBool, "", []*Term{t, s})), fuel)
			for _, o := range g.subs[s] {
				g.adj(s, o, t, fuel)
				g.adj(s, t, o, fuel)
			}
			g.subs[s] = append(g.subs[s], t)
		}
	case "at":
		if first {
			s, i := t.args[0], t.args[1]
			g.add(ts.mk("<=0", SBool, "", []*Term{ts.Sub(ts.Int(0), t)}), fuel)
			g.facts = append(g.facts, ts.mk("<=0", SBool, "", []*Term{ts.AddI(t, -255)}))
			if i.isLit() || ts.natAt {
				in := ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Len(s)))
				g.facts = append(g.facts, ts.Implies(in, ts.mk("=", SBool, "", []*Term{t, ts.mk("nat_at", SInt, "", []*Term{s, i})})))
			}
		}
	case "chr":
		if first {
			b := t.args[0]
			in := ts.And(ts.Le(ts.Int(0), b), ts.Le(b, ts.Int(255)))
			g.facts = append(g.facts, ts.Implies(in, ts.mk("=", SBool, "", []*Term{ts.mk("len", SInt, "", []*Term{t}), ts.Int(1)})))
		}
	case "uf":
		switch t.name {
		case "decr", "decw":
			if first {
				g.decFacts(t.args[0], t.args[1], fuel)
			}
		default:
			if fs := ts.prog.ufFacts; fs != nil && first {
				for _, f := range fs(ts, t) {
					g.add(f, fuel)
				}
			}
			if r := ts.recs[t.name]; r != nil {
				if first && r.def.All && r.idx >= 0 {
					for _, o := range g.alls[t.name] {
						g.below(r.idx, o, t)
					}
					g.alls[t.name] = append(g.alls[t.name], t)
				}
				if first {
					if p := r.peel(ts, t); p != nil {
						g.add(p, fuel)
					}
				}
				if fuel > 0 && g.nrec < g.maxRec && (first || g.fuel[t] == fuel) {
					g.nrec++
					body := r.unfold(ts, t)
					if body != nil {
						g.add(ts.Eq0(t, body), fuel-1)
					}
				}
			}
		}
	}
}

// below: of two applications that differ in the index alone, the one at the
// larger index implies the other.
func (g *factGen) below(idx int, x, y *Term) {
	for k := range x.args {
		if k != idx && x.args[k] != y.args[k] {
			return
		}
	}
	ts := g.ts
	i, j := x.args[idx], y.args[idx]
	g.facts = append(g.facts, ts.Implies(ts.And(ts.Le(i, j), y), x), ts.Implies(ts.And(ts.Le(j, i), x), y))
}

// Eq0: equality that is not simplified away (used for definitional facts).
func (ts *TS) Eq0(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.sort == SBool {
		if b == ts.True {
			return a
		}
		if b == ts.False {
			return ts.Not(a)
		}
	}
	return ts.mk("=", SBool, "", []*Term{a, b})
}

func (g *factGen) adj(s, x, y *Term, fuel int) {
	ts := g.ts
	if x.args[2] != y.args[1] {
		return
	}
	a, b, c := x.args[1], x.args[2], y.args[2]
	valid := ts.And(ts.Le(ts.Int(0), a), ts.Le(a, b), ts.Le(b, c), ts.Le(c, ts.Len(s)))
	whole := ts.Substr(s, a, c)
	k := ts.mk("pair", SBool, "", []*Term{x, y})
	if g.subSeen[k] {
		return
	}
	g.subSeen[k] = true
	if len(g.subs[s]) > 24 {
		return
	}
	g.add(ts.Implies(valid, ts.mk("=", SBool, "", []*Term{ts.Concat(x, y), whole})), fuel)
}

func (g *factGen) decFacts(s, i *Term, fuel int) {
	ts := g.ts
	r := ts.mk("uf", SInt, "decr", []*Term{s, i})
	w := ts.mk("uf", SInt, "decw", []*Term{s, i})
	g.seen[r], g.seen[w] = true, true
	g.fuel[r], g.fuel[w] = 9, 9
	b := ts.At(s, i)
	in := ts.And(ts.Le(ts.Int(0), i), ts.Lt(i, ts.Len(s)))
	raw := func(lo int64, t *Term, hi int64) *Term {
		return ts.And(ts.mk("<=0", SBool, "", []*Term{ts.Sub(ts.Int(lo), t)}), ts.mk("<=0", SBool, "", []*Term{ts.AddI(t, -hi)}))
	}
	eq := func(a *Term, n int64) *Term { return ts.mk("=", SBool, "", []*Term{a, ts.Int(n)}) }
	g.facts = append(g.facts, raw(1, w, 4), raw(0, r, 0x10FFFF))
	g.visit(b, fuel)
	f := ts.And(
		ts.Le(ts.Add(i, w), ts.Len(s)),
		ts.Not(raw(0xD800, r, 0xDFFF)),
		ts.Implies(ts.Lt(b, ts.Int(0x80)), ts.And(ts.Eq(r, b), eq(w, 1))),
		ts.Implies(ts.Ge(b, ts.Int(0x80)), ts.And(ts.mk("<=0", SBool, "", []*Term{ts.Sub(ts.Int(0x80), r)}), ts.Implies(eq(w, 1), eq(r, 0xFFFD)))),
		ts.Implies(ts.Gt(w, ts.Int(1)), ts.And(ts.Ge(b, ts.Int(0xC2)), ts.Le(b, ts.Int(0xF4)))),
		ts.Implies(eq(w, 2), raw(0x80, r, 0x7FF)),
		ts.Implies(eq(w, 3), raw(0x800, r, 0xFFFF)),
		ts.Implies(eq(w, 4), raw(0x10000, r, 0x10FFFF)),
	)
	g.add(ts.Implies(in, f), fuel)
}

// ---- printing

func quoteSMT(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c >= 0x20 && c < 0x7f && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sym(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

type printer struct {
	ts    *TS
	refs  map[*Term]int
	names map[*Term]string
	decls strings.Builder
	defs  strings.Builder
	ufs   map[string]bool
	n     int
	abs   bool // strings as an uninterpreted sort
	extra strings.Builder
	lits  []string
}

func (p *printer) sort(s Sort) string {
	if !p.abs {
		return string(s)
	}
	return strings.ReplaceAll(string(s), "String", "Str")
}

// uf prints an application of an uninterpreted function.
func (p *printer) uf(name string, ret Sort, as []*Term) string {
	nm := sym("uf_" + name)
	if !p.ufs[name] {
		p.ufs[name] = true
		var ss []string
		for _, a := range as {
			ss = append(ss, p.sort(a.sort))
		}
		fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", nm, strings.Join(ss, " "), p.sort(ret))
	}
	if len(as) == 0 {
		return nm
	}
	return p.list(nm, as)
}

func (p *printer) absExpr(t *Term) (string, bool) {
	length := func(x string) string {
		if !p.ufs["$len"] {
			p.ufs["$len"] = true
			p.decls.WriteString("(declare-fun |uf_$len| (Str) Int)\n")
		}
		return "(|uf_$len| " + x + ")"
	}
	switch t.op {
	case "strlit":
		nm := fmt.Sprintf("|lit!%d|", t.id)
		fmt.Fprintf(&p.decls, "(declare-const %s Str)\n", nm)
		p.names[t] = nm
		p.lits = append(p.lits, nm)
		fmt.Fprintf(&p.extra, "(assert (= %s %d))\n", length(nm), len(t.name))
		return nm, true
	case "len":
		x := p.str(t.args[0])
		return length(x), true
	case "++":
		e := p.uf(fmt.Sprintf("$cat%d", len(t.args)), SStr, t.args)
		var ls []string
		for _, a := range t.args {
			ls = append(ls, length(p.str(a)))
		}
		p.n++
		nm := fmt.Sprintf("c!%d", p.n)
		fmt.Fprintf(&p.defs, "(define-fun %s () Str %s)\n", nm, e)
		p.names[t] = nm
		fmt.Fprintf(&p.extra, "(assert (= %s (+ %s)))\n", length(nm), strings.Join(ls, " "))
		return nm, true
	case "contains", "prefixof", "suffixof", "chr", "nat_at":
		return p.uf("$"+t.op, t.sort, t.args), true
	}
	return "", false
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func intStr(t *Term) string {
	if t.n.Sign() < 0 {
		return "(- " + t.n.String()[1:] + ")"
	}
	return t.n.String()
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	abs := false
	if p.abs {
		s, abs = p.absExpr(t)
		if n, ok := p.names[t]; ok {
			return n
		}
	}
	if !abs {
		s = p.expr(t)
	}
	if len(t.args) > 0 && p.refs[t] > 1 {
		p.n++
		nm := fmt.Sprintf("d!%d", p.n)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", nm, p.sort(t.sort), s)
		p.names[t] = nm
		return nm
	}
	return s
}

func (p *printer) list(op string, as []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) expr(t *Term) string {
	switch t.op {
	case "lit":
		return intStr(t)
	case "strlit":
		return quoteSMT(t.name)
	case "true", "false":
		return t.op
	case "var":
		nm := sym(t.name)
		fmt.Fprintf(&p.decls, "(declare-const %s %s)\n", nm, p.sort(t.sort))
		p.names[t] = nm
		return nm
	case "merge":
		nm := fmt.Sprintf("|merge!%d|", t.id)
		fmt.Fprintf(&p.decls, "(declare-const %s %s)\n", nm, p.sort(t.sort))
		p.names[t] = nm
		return nm
	case "+":
		var b strings.Builder
		b.WriteString("(+")
		if t.n.Sign() != 0 {
			if t.n.Sign() < 0 {
				b.WriteString(" (- " + t.n.String()[1:] + ")")
			} else {
				b.WriteString(" " + t.n.String())
			}
		}
		for i, a := range t.args {
			c := t.coef[i]
			s := p.str(a)
			if c.Cmp(one) == 0 {
				b.WriteString(" " + s)
			} else if c.Sign() < 0 {
				b.WriteString(fmt.Sprintf(" (* (- %s) %s)", c.String()[1:], s))
			} else {
				b.WriteString(fmt.Sprintf(" (* %s %s)", c.String(), s))
			}
		}
		if len(t.args) == 1 && t.n.Sign() == 0 {
			b.WriteString(" 0")
		}
		b.WriteByte(')')
		return b.String()
	case "<=0":
		return "(<= " + p.str(t.args[0]) + " 0)"
	case "=", "and", "or", "not", "ite", "select", "store", "*", "div", "mod":
		return p.list(t.op, t.args)
	case "++":
		return p.list("str.++", t.args)
	case "len":
		return p.list("str.len", t.args)
	case "contains":
		return p.list("str.contains", t.args)
	case "prefixof":
		return p.list("str.prefixof", t.args)
	case "suffixof":
		return p.list("str.suffixof", t.args)
	case "chr":
		return p.list("str.from_code", t.args)
	case "nat_at":
		return "(str.to_code (str.at " + p.str(t.args[0]) + " " + p.str(t.args[1]) + "))"
	case "konst":
		return "((as const " + p.sort(t.sort) + ") " + p.str(t.args[0]) + ")"
	case "sub", "at", "uf":
		name := t.name
		if t.op != "uf" {
			name = "$" + t.op
		}
		return p.uf(name, t.sort, t.args)
	}
	panic("print op " + t.op)
}

// ---- solver

type Solver struct {
	ts                  *TS
	cmd                 *exec.Cmd
	in                  io.WriteCloser
	out                 *bufio.Reader
	Time                time.Duration
	Queries             int
	ByZ3                int
	ByPre               int
	TPre                time.Duration
	ByCVC5              int
	Unknown             int
	cache               map[string]string
	TimeoutS            float64
	dump                func(string)
	last                string
	Quick               bool
	Trial               bool // a candidate invariant: one solver will do
	TBuild, TAbs, TFull time.Duration
	NAbs, NFull         int
}

func NewSolver(ts *TS) *Solver {
	return &Solver{ts: ts, cache: map[string]string{}, TimeoutS: 4}
}

func (s *Solver) start() {
	c := exec.Command("z3-new", "-in")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReaderSize(out, 1<<20)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :model.completion true)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// build assembles the SMT script body for the conjunction of fs.
func (s *Solver) build(fs []*Term, fuel int, abs bool) (string, *printer) {
	g := &factGen{ts: s.ts, seen: map[*Term]bool{}, fuel: map[*Term]int{}, subs: map[*Term][]*Term{}, subSeen: map[*Term]bool{}, maxRec: 400, alls: map[string][]*Term{}}
	for _, f := range fs {
		g.visit(f, fuel)
	}
	all := append(append([]*Term{}, fs...), g.facts...)
	p := &printer{ts: s.ts, abs: abs, refs: map[*Term]int{}, names: map[*Term]string{}, ufs: map[string]bool{}}
	for _, f := range all {
		p.count(f)
	}
	var b strings.Builder
	seen := map[*Term]bool{}
	for _, f := range all {
		if seen[f] {
			continue
		}
		seen[f] = true
		b.WriteString("(assert " + p.str(f) + ")\n")
	}
	if abs {
		if len(p.lits) > 1 {
			b.WriteString("(assert (distinct " + strings.Join(p.lits, " ") + "))\n")
		}
		return "(declare-sort Str 0)\n" + p.decls.String() + p.defs.String() + p.extra.String() + b.String(), p
	}
	return p.decls.String() + p.defs.String() + b.String(), p
}

// Check returns "sat", "unsat" or "unknown". When wantModel is set and the
// answer is sat, the values of the given terms are returned.
func (s *Solver) Check(fs []*Term, full bool, want []*Term) (string, map[*Term]string) {
	var ids []int
	for _, f := range fs {
		if f == s.ts.False {
			return "unsat", nil
		}
		ids = append(ids, f.id)
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids, full, s.Quick)
	if r, ok := s.cache[key]; ok && (want == nil || r != "sat") {
		return r, nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowLog && d > 300*time.Millisecond {
			fmt.Fprintf(os.Stderr, "slow %v full=%v -> %s (%d facts) last: %s\n", d.Round(time.Millisecond), full, s.last, len(fs), s.ts.show(fs[len(fs)-1], 7))
		}
	}()
	s.Queries++
	fuel := 1
	to := s.TimeoutS
	if s.Quick {
		to = 1
	}
	tb := time.Now()
	if want == nil {
		var contra bool
		fs, contra = s.ts.presolve(fs)
		s.TPre += time.Since(tb)
		if contra {
			s.ByPre++
			s.cache[key] = "unsat"
			s.last = "unsat"
			return "unsat", nil
		}
	}
	tb = time.Now()
	ab, _ := s.build(fs, fuel, true)
	s.TBuild += time.Since(tb)
	ta := time.Now()
	r, _ := s.z3(ab, 1, nil, nil)
	s.TAbs += time.Since(ta)
	s.NAbs++
	if r == "unsat" || !full {
		if r == "unsat" {
			s.ByZ3++
		}
		s.cache[key] = r
		s.last = r
		return r, nil
	}
	// unfold the specification functions and simplify once more
	if want == nil {
		tb = time.Now()
		fs2, contra := s.ts.unfoldAll(fs)
		s.TPre += time.Since(tb)
		if contra {
			s.ByPre++
			s.cache[key] = "unsat"
			s.last = "unsat"
			return "unsat", nil
		}
		if fs2 != nil {
			ab, _ := s.build(fs2, 0, true)
			ta = time.Now()
			r, _ = s.z3(ab, 1, nil, nil)
			s.TAbs += time.Since(ta)
			s.NAbs++
			if r == "unsat" {
				s.ByZ3++
				s.cache[key] = r
				s.last = r
				return r, nil
			}
		}
	}
	body, p := s.build(fs, fuel, false)
	if s.dump != nil && full {
		s.dump(body)
	}
	ta = time.Now()
	var model map[*Term]string
	r, model = s.z3(body, to, want, p)
	s.TFull += time.Since(ta)
	s.NFull++
	if r == "unsat" {
		s.ByZ3++
	} else if r == "unknown" && full && !s.Quick {
		if s.cvc5(body, 4) == "unsat" {
			r = "unsat"
			s.ByCVC5++
		}
	}
	if r != "unsat" && full {
		// a second attempt with deeper unfolding of the specification functions
		body2, p2 := s.build(fs, 2, false)
		if body2 != body {
			r2, m2 := s.z3(body2, to, want, p2)
			if r2 == "unsat" {
				r = r2
				s.ByZ3++
			} else if r2 == "unknown" {
				if s.Quick {
					return s.keep(key, r2), nil
				}
				if r3 := s.cvc5(body2, 4); r3 == "unsat" {
					r = "unsat"
					s.ByCVC5++
				}
			} else {
				r, model = r2, m2
			}
		}
	}
	return s.keep(key, r), model
}

func (s *Solver) keep(key, r string) string {
	if r == "unknown" {
		s.Unknown++
	}
	s.cache[key] = r
	s.last = r
	return r
}

func (s *Solver) z3(body string, to float64, want []*Term, p *printer) (string, map[*Term]string) {
	if s.cmd == nil {
		s.start()
	}
	var names []string
	if want != nil {
		for _, w := range want {
			n := p.str(w)
			names = append(names, n)
		}
		// printing may have added declarations
		body = p.decls.String() + p.defs.String() + body[strings.Index(body, "(assert"):]
	}
	fmt.Fprintf(s.in, "(push)\n(set-option :timeout %d)\n(set-option :rlimit %d)\n%s(check-sat)\n(echo \"@@\")\n", int(to*2000), int(to*1500000), body)
	type res struct {
		lines []string
		err   error
	}
	read := func() res {
		ch := make(chan res, 1)
		go func() {
			var ls []string
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					ch <- res{ls, err}
					return
				}
				l = strings.TrimSpace(l)
				if l == "@@" {
					ch <- res{ls, nil}
					return
				}
				ls = append(ls, l)
			}
		}()
		select {
		case r := <-ch:
			return r
		case <-time.After(time.Duration((2*to+3)*1000) * time.Millisecond):
			return res{nil, fmt.Errorf("timeout")}
		}
	}
	r := read()
	if r.err != nil {
		s.Close()
		return "unknown", nil
	}
	ans := "unknown"
	for _, l := range r.lines {
		if strings.HasPrefix(l, "(error") {
			panic("z3: " + l + "\n" + body)
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			ans = l
		}
	}
	var model map[*Term]string
	if ans == "sat" && want != nil {
		model = map[*Term]string{}
		for i, n := range names {
			fmt.Fprintf(s.in, "(eval %s)\n(echo \"@@\")\n", n)
			r := read()
			if r.err != nil {
				s.Close()
				return ans, model
			}
			model[want[i]] = strings.Join(r.lines, " ")
		}
	}
	fmt.Fprintf(s.in, "(pop)\n")
	return ans, model
}

func (s *Solver) cvc5(body string, secs int) string {
	if s.Trial {
		return "unknown"
	}
	// the resource limit decides; the time limit is a backstop on a loaded machine
	c := exec.Command("cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", secs*2000), fmt.Sprintf("--rlimit=%d", secs*cvc5Rate))
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + body + "(check-sat)\n")
	out, _ := c.Output()
	l := strings.TrimSpace(string(out))
	if i := strings.IndexByte(l, '\n'); i >= 0 {
		l = l[:i]
	}
	if l == "sat" || l == "unsat" {
		return l
	}
	return "unknown"
}

const cvc5Rate = 200000

var slowLog = os.Getenv("SLOWLOG") != ""
