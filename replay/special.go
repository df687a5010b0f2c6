package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

type specialFn func(seed int64, budget time.Duration, hints []string) (*Violation, int, []string)

var special map[string]specialFn

func init() {
	special = map[string]specialFn{"C03": searchNames, "C04": searchCheck, "C12": searchErrors, "C15": searchCollector, "C16": searchTyped, "C17": searchForms, "C18": searchPanics, "C21": searchEncoding}
}

func guard(prop, what string, f func() *Violation) (v *Violation) {
	defer func() {
		if p := recover(); p != nil {
			v = &Violation{Property: prop, What: what + " panicked", Expected: "no panic", Observed: fmt.Sprint(p), Case: what}
		}
	}()
	return f()
}

func searchNames(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	n := 0
	check := func(s string) *Violation {
		n++
		err := xw.CheckName(s)
		if err == nil && s != "" && !xmlName(s) {
			return &Violation{Property: "C03", What: "CheckName accepted a string that is not a Name", Expected: "an error", Observed: "nil", Case: fmt.Sprintf("CheckName(%+q)", s)}
		}
		if err != nil && (s == "" || ascii(s) && xmlName(s)) {
			return &Violation{Property: "C03", What: "CheckName rejected a Name", Expected: "nil", Observed: err.Error(), Case: fmt.Sprintf("CheckName(%+q)", s)}
		}
		return nil
	}
	for r := rune(0); r <= 0x10FFFF; r++ {
		for _, s := range []string{string(r), "a" + string(r), "a" + string(r) + "b", "é" + string(r)} {
			if v := check(s); v != nil {
				return v, n, nil
			}
		}
	}
	g := &gen{r: rand.New(rand.NewSource(seed)), hints: hints, wild: "|name|"}
	for i := 0; i < 200000; i++ {
		if v := check(string(g.name()) + string(g.name())); v != nil {
			return v, n, nil
		}
		if v := check(g.wildStr()); v != nil {
			return v, n, nil
		}
	}
	return nil, n, []string{"CheckName on every rune, alone and after a name start"}
}

func searchCheck(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	n := 0
	type chk struct {
		name string
		f    func(string) error
		ok   func(string) bool
	}
	cs := []chk{
		{"CheckChars(%+q, false)", func(s string) error { return xw.CheckChars(s, false) }, func(s string) bool { return charsOK(s, false) }},
		{"CheckChars(%+q, true)", func(s string) error { return xw.CheckChars(s, true) }, func(s string) bool { return charsOK(s, true) }},
		{"CheckPubID(%+q)", xw.CheckPubID, pubidOK},
		{"CheckEncoding(%+q)", xw.CheckEncoding, encOK},
	}
	check := func(s string) *Violation {
		for _, c := range cs {
			n++
			v := guard("C04", fmt.Sprintf(c.name, s), func() *Violation {
				err := c.f(s)
				if (err == nil) != c.ok(s) {
					return &Violation{Property: "C04", What: "wrong verdict on a string", Expected: fmt.Sprint("accepted: ", c.ok(s)), Observed: fmt.Sprint(err), Case: fmt.Sprintf(c.name, s)}
				}
				return nil
			})
			if v != nil {
				return v
			}
		}
		return nil
	}
	for r := rune(0); r <= 0x10FFFF; r++ {
		for _, s := range []string{string(r), "a" + string(r), "é" + string(r)} {
			if v := check(s); v != nil {
				return v, n, nil
			}
		}
	}
	for b := 0; b < 256; b++ {
		for _, s := range []string{string([]byte{byte(b)}), "a" + string([]byte{byte(b)}), string([]byte{byte(b), 'a'})} {
			if v := check(s); v != nil {
				return v, n, nil
			}
		}
	}
	g := &gen{r: rand.New(rand.NewSource(seed)), hints: hints}
	for _, h := range hints {
		if v := check(h); v != nil {
			return v, n, nil
		}
	}
	t0 := time.Now()
	for i := 0; i < 400000 && time.Since(t0) < budget; i++ {
		s := g.wildStr()
		if g.p(0.5) {
			s = strings.Map(func(r rune) rune {
				if r == utf8.RuneError || !pubidOK(string(r)) {
					return -1
				}
				return r
			}, s)
		}
		if v := check(s); v != nil {
			return v, n, nil
		}
	}
	return nil, n, []string{"the validators on every rune, alone and after another, and on every byte"}
}

func judgeSpecial(s *Script, prop string) *Violation {
	if prop == "C12" {
		return judgeErrors(s)
	}
	return judgeForms(s)
}

// judgeErrors: C12. The same calls on a destination that fails.
func judgeErrors(s *Script) *Violation {
	ref := *s
	ref.FailAt = 0
	a := execute(&ref)
	if a.panic != "" {
		return nil
	}
	b := execute(s)
	if b.panic != "" {
		return nil
	}
	viol := func(what, exp, obs string) *Violation {
		return &Violation{Property: "C12", What: what, Expected: exp, Observed: obs, Script: s}
	}
	last := error(nil)
	ends := false
	for i, o := range s.Ops {
		if i < len(b.errs) && (o.Op == "endallflush" || o.Op == "flush") {
			last, ends = b.errs[i], true
			if last == nil && b.sink.failed && i == len(s.Ops)-1 && s.FailMode != "once" {
				return viol(fmt.Sprintf("call %d (%s) returned nil after the destination failed", i, o), "the destination's error", "nil")
			}
		}
	}
	_ = ends
	if b.sink.failed {
		if b.flush == nil {
			return viol("Flush returned nil although the destination failed", "the destination's error", "nil")
		}
		if b.sink.later > 0 {
			return viol("output continued after the destination failed", "nothing more", fmt.Sprintf("%d bytes", b.sink.later))
		}
		if !strings.HasPrefix(a.out, b.out) {
			return viol("what reached the destination is not a prefix of the document", fmt.Sprintf("prefix of %q", a.out), fmt.Sprintf("%q", b.out))
		}
		return nil
	}
	if b.flush == nil && b.out != a.out {
		return viol("Flush returned nil but bytes are missing", fmt.Sprintf("%q", a.out), fmt.Sprintf("%q", b.out))
	}
	return nil
}

func searchErrors(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	g := &gen{r: rand.New(rand.NewSource(seed)), hints: hints}
	n := 0
	t0 := time.Now()
	for time.Since(t0) < budget {
		s := g.script()
		s.NoFlush = g.p(0.8)
		s.BufSize = []int{1, 16, 17, 32, 64, 4096}[g.r.Intn(6)]
		s.FailMode = g.pick([]string{"error", "short", "once"})
		end := g.r.Intn(5)
		switch {
		case end < 2:
			s.Ops = append(s.Ops, Op{Op: "endallflush"})
		case end < 4:
			s.Ops = append(s.Ops, Op{Op: "flush"})
		}
		ref := *s
		r := execute(&ref)
		if r.panic != "" {
			continue
		}
		l := len(r.out)
		for k := 0; k < 6; k++ {
			t := *s
			t.FailAt = 1 + g.r.Intn(l+2)
			if k == 0 {
				t.FailAt = l
			}
			if k == 1 {
				t.FailAt = 0
			}
			n++
			if v := judgeErrors(&t); v != nil {
				v = shrinkWith(v, judgeErrors)
				return v, n, nil
			}
		}
	}
	return nil, n, nil
}

func shrinkWith(v *Violation, j func(*Script) *Violation) *Violation {
	for again, r := true, 0; again && r < 20; r++ {
		again = false
		for i := len(v.Script.Ops) - 1; i >= 0; i-- {
			if i >= len(v.Script.Ops) {
				continue
			}
			s := *v.Script
			s.Ops = append(append([]Op{}, v.Script.Ops[:i]...), v.Script.Ops[i+1:]...)
			if w := j(&s); w != nil {
				v = w
				again = true
			}
		}
	}
	return v
}

// stream rewrites the structured calls of a script into single calls.
func stream(ops []Op) ([]Op, bool) {
	var out []Op
	ok := true
	var wr func(n N)
	var st func(n N)
	st = func(n N) {
		m := n
		m.Attr, m.Sub = nil, nil
		switch n.K {
		case "comment", "cdata":
			m.S = []Q{""}
		}
		out = append(out, Op{Op: "start", Nodes: []N{m}})
		for _, a := range n.Attr {
			out = append(out, Op{Op: "write", Nodes: []N{a}})
		}
		for _, c := range n.Sub {
			wr(c)
		}
		if (n.K == "comment" || n.K == "cdata") && n.s(0) != "" {
			out = append(out, Op{Op: "write", Nodes: []N{{K: n.K + "content", S: n.S}}})
		}
	}
	wr = func(n N) {
		switch n.K {
		case "elem", "comment", "cdata", "attlist":
			st(n)
			out = append(out, Op{Op: "end", Kind: int(kindOf[n.K])})
		default:
			out = append(out, Op{Op: "write", Nodes: []N{n}})
		}
	}
	for _, o := range ops {
		switch o.Op {
		case "start":
			for _, n := range o.Nodes {
				// what is pending at the end of a Start cannot be streamed
				// before later attributes: keep it pending
				if len(n.Sub) > 0 || (n.K == "comment" || n.K == "cdata") && n.s(0) != "" || n.K == "attlist" && len(n.Attr) > 0 {
					m := n
					out = append(out, Op{Op: "start", Nodes: []N{m}})
				} else {
					st(n)
				}
			}
		case "write":
			for _, n := range o.Nodes {
				wr(n)
			}
		case "attrs":
			for _, n := range o.Nodes {
				out = append(out, Op{Op: "write", Nodes: []N{n}})
			}
		case "block":
			b := o.Nodes[0]
			if len(b.Sub) > 0 || b.s(0) != "" && b.K != "elem" || b.K == "attlist" {
				out = append(out, Op{Op: "start", Nodes: []N{b}})
			} else {
				st(b)
			}
			for _, n := range o.Nodes[1:] {
				wr(n)
			}
			out = append(out, Op{Op: "end", Kind: int(kindOf[o.Nodes[0].K])})
		default:
			out = append(out, o)
		}
	}
	return out, ok
}

func judgeForms(s *Script) *Violation {
	a := execute(s)
	ops, ok := stream(s.Ops)
	if a.panic != "" || !ok {
		return nil
	}
	for _, e := range a.errs {
		if e != nil {
			return nil
		}
	}
	for _, any := range []bool{false, true} {
		t := *s
		t.Ops = nil
		for _, o := range ops {
			o.Any = any
			t.Ops = append(t.Ops, o)
		}
		b := execute(&t)
		if b.panic != "" {
			continue
		}
		for i, e := range b.errs {
			if e != nil {
				return &Violation{Property: "C17", What: fmt.Sprintf("the streamed form fails at %s", t.Ops[i]), Expected: fmt.Sprintf("%q", a.out), Observed: e.Error(), Script: s}
			}
		}
		if a.out != b.out {
			return &Violation{Property: "C17", What: fmt.Sprintf("the streamed form writes something else: %v", t.Ops), Expected: fmt.Sprintf("%q", a.out), Observed: fmt.Sprintf("%q", b.out), Script: s}
		}
	}
	return nil
}

func searchForms(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	g := &gen{r: rand.New(rand.NewSource(seed)), hints: hints, wild: "|ns|", focus: "|elem|"}
	g2 := &gen{r: g.r, hints: hints, wild: "|ns|name|comment|cdata|pi|", focus: "|elem|"}
	n := 0
	t0 := time.Now()
	for time.Since(t0) < budget {
		s := g.script()
		n++
		if v := judgeForms(s); v != nil {
			return shrinkWith(v, judgeForms), n, nil
		}
		if v := judge(s, "C17"); v != nil {
			return v, n, nil
		}
		s = g2.script()
		for k := g.r.Intn(3); k >= 0; k-- {
			s.Ops = append(s.Ops, g2.list())
		}
		if v := judgeLists(s); v != nil {
			return shrinkWith(v, judgeLists), n, nil
		}
		// a single compound call fails only if one of the single calls does
		if v := judgeSingle(s); v != nil {
			return shrinkWith(v, judgeSingle), n, nil
		}
	}
	return nil, n, nil
}

// list: a call with several nodes, some of which may be refused.
func (g *gen) list() Op {
	some := func(kinds ...string) (ns []N) {
		for i := 1 + g.r.Intn(4); i > 0; i-- {
			if k := g.pick(kinds); k == "attr" {
				ns = append(ns, g.attr())
			} else {
				ns = append(ns, g.node(k, 2))
			}
		}
		return ns
	}
	switch g.r.Intn(4) {
	case 0:
		return Op{Op: "attrs", Nodes: some("attr")}
	case 1:
		return Op{Op: "start", Any: true, Nodes: some("elem", "elem", "comment", "cdata")}
	case 2:
		return Op{Op: "write", Any: true, Nodes: some("elem", "text", "comment", "cdata", "pi")}
	}
	return Op{Op: "block", Nodes: append(some("elem")[:1], some("elem", "text", "comment", "cdata", "pi")...)}
}

// judgeLists: a call with several nodes does what the calls with one node
// each do, up to and including the first that fails.
func judgeLists(s *Script) *Violation {
	t := *s
	t.Ops = nil
	for _, o := range s.Ops {
		one := func(op string, n N) { t.Ops = append(t.Ops, Op{Op: op, Any: o.Any, Nodes: []N{n}}) }
		switch o.Op {
		case "start", "write":
			for _, n := range o.Nodes {
				one(o.Op, n)
			}
		case "attrs":
			for _, n := range o.Nodes {
				one("attrs", n)
			}
		case "block":
			one("start", o.Nodes[0])
			for _, n := range o.Nodes[1:] {
				one("write", n)
			}
			t.Ops = append(t.Ops, Op{Op: "end", Kind: int(kindOf[o.Nodes[0].K])})
		default:
			t.Ops = append(t.Ops, o)
		}
	}
	run := func(s *Script) (out, err string, ok bool) {
		r := execute(s)
		for i, e := range r.errs {
			if e != nil {
				c := *s
				c.Ops = s.Ops[:i+1]
				q := execute(&c)
				return q.out, e.Error(), q.panic == ""
			}
		}
		return r.out, "", r.panic == ""
	}
	ao, ae, ok1 := run(s)
	bo, be, ok2 := run(&t)
	if ok1 && ok2 && (ao != bo || (ae == "") != (be == "")) {
		return &Violation{Property: "C17", What: "calls with several nodes differ from single calls stopped at the first error", Expected: fmt.Sprintf("%q %s", bo, be), Observed: fmt.Sprintf("%q %s", ao, ae), Script: s}
	}
	return nil
}

// judgeSingle: when the streamed form succeeds, so does the compound form.
func judgeSingle(s *Script) *Violation {
	m := newModel(s)
	for _, o := range s.Ops {
		v := m.step(o)
		if v.fail != "" || v.free != "" {
			return nil
		}
	}
	a := execute(s)
	if a.panic != "" {
		return nil
	}
	for i, e := range a.errs {
		if e != nil {
			t := *s
			t.Ops, _ = stream(s.Ops)
			b := execute(&t)
			if b.panic != "" {
				return nil
			}
			for _, f := range b.errs {
				if f != nil {
					return nil
				}
			}
			return &Violation{Property: "C17", What: fmt.Sprintf("call %d (%s) fails although its streamed form succeeds", i, s.Ops[i]), Expected: fmt.Sprintf("%q", b.out), Observed: e.Error(), Script: s}
		}
	}
	return nil
}

func searchCollector(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	n := 0
	e1, e2, e3 := errors.New("one"), errors.New("two"), errors.New("three")
	pool := []error{nil, nil, e1, e2, e3}
	r := rand.New(rand.NewSource(seed))
	viol := func(c, what, exp, obs string) *Violation {
		return &Violation{Property: "C15", What: what, Expected: exp, Observed: obs, Case: c}
	}
	for i := 0; i < 60000; i++ {
		ec := &xw.ErrCollector{}
		var first error
		index := 0
		var file string
		var line int
		hist := ""
		for k := r.Intn(5); k >= 0; k-- {
			var errs []error
			l := r.Intn(5)
			if r.Intn(50) == 0 {
				l = r.Intn(300)
			}
			for j := 0; j < l; j++ {
				x := pool[r.Intn(len(pool))]
				if l > 5 && r.Intn(10) > 0 {
					x = nil
				}
				errs = append(errs, x)
			}
			must := r.Intn(4) == 0
			hist += fmt.Sprintf("must=%v %v; ", must, errs)
			var loc error
			pos := 0
			for j, e := range errs {
				if e != nil {
					loc, pos = e, j+1
					break
				}
			}
			n++
			panicked := any(nil)
			f0, l0 := "", 0
			func() {
				defer func() { panicked = recover() }()
				if must {
					_, f0, l0, _ = runtime.Caller(0)
					ec.Must(errs...)
				} else {
					_, f0, l0, _ = runtime.Caller(0)
					ec.Do(errs...)
				}
			}()
			if must {
				if (panicked != nil) != (loc != nil) || panicked != nil && panicked != any(ec) {
					return viol(hist, "Must panics exactly when it is given an error, with the collector", fmt.Sprint(loc), fmt.Sprint(panicked)), n, nil
				}
				if loc != nil {
					first, index = loc, pos
					file, line = ec.File, ec.Line
					if file != f0 || line != l0+1 {
						return viol(hist, "the position is not that of the call to Must", fmt.Sprintf("%s:%d", f0, l0+1), fmt.Sprintf("%s:%d", file, line)), n, nil
					}
				}
			} else {
				if panicked != nil {
					return viol(hist, "Do panicked", "", fmt.Sprint(panicked)), n, nil
				}
				if first == nil && loc != nil {
					first, index = loc, pos
					file, line = ec.File, ec.Line
					if file != f0 || line != l0+1 {
						return viol(hist, "the position is not that of the call to Do", fmt.Sprintf("%s:%d", f0, l0+1), fmt.Sprintf("%s:%d", file, line)), n, nil
					}
				}
			}
			if ec.Err != first || ec.Index != index || ec.File != file || ec.Line != line {
				return viol(hist, "the first error is kept", fmt.Sprintf("%v #%d %s:%d", first, index, file, line), fmt.Sprintf("%v #%d %s:%d", ec.Err, ec.Index, ec.File, ec.Line)), n, nil
			}
		}
		if ec.Unwrap() != first {
			return viol(hist, "Unwrap", fmt.Sprint(first), fmt.Sprint(ec.Unwrap())), n, nil
		}
		err := e3
		ec.Set(&err)
		if first != nil && err != error(ec) || first == nil && err != e3 {
			return viol(hist, "Set", fmt.Sprint(first), fmt.Sprint(err)), n, nil
		}
		panicked := any(nil)
		func() {
			defer func() { panicked = recover() }()
			ec.Panic()
		}()
		if first != nil && panicked != any(ec) || first == nil && panicked != nil {
			return viol(hist, "Panic", fmt.Sprint(first), fmt.Sprint(panicked)), n, nil
		}
	}
	return nil, n, nil
}

func searchTyped(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	n := 0
	r := rand.New(rand.NewSource(seed))
	base := xw.Attr{Prefix: "p", URI: "u", Name: "n", Value: "old"}
	check := func(c string, got xw.Attr, want string) *Violation {
		n++
		w := base
		w.Value = want
		if got != w {
			return &Violation{Property: "C16", What: "typed attribute value", Expected: fmt.Sprintf("%+v", w), Observed: fmt.Sprintf("%+v", got), Case: c}
		}
		return nil
	}
	for i := 0; i < 300000; i++ {
		x := r.Uint64() >> uint(r.Intn(64))
		if i < 600 {
			x = uint64(i - 300)
		}
		if r.Intn(20) == 0 {
			x = uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3))
		}
		f := math.Float64frombits(x)
		if r.Intn(3) == 0 {
			f = float64(int64(x)) / 1000
		}
		var vs []*Violation
		vs = append(vs,
			check(fmt.Sprintf("Int(%d)", int(x)), base.Int(int(x)), fmt.Sprint(int(x))),
			check(fmt.Sprintf("Int8(%d)", int8(x)), base.Int8(int8(x)), fmt.Sprint(int8(x))),
			check(fmt.Sprintf("Int16(%d)", int16(x)), base.Int16(int16(x)), fmt.Sprint(int16(x))),
			check(fmt.Sprintf("Int32(%d)", int32(x)), base.Int32(int32(x)), fmt.Sprint(int32(x))),
			check(fmt.Sprintf("Int64(%d)", int64(x)), base.Int64(int64(x)), fmt.Sprint(int64(x))),
			check(fmt.Sprintf("Uint8(%d)", uint8(x)), base.Uint8(uint8(x)), fmt.Sprint(uint8(x))),
			check(fmt.Sprintf("Uint16(%d)", uint16(x)), base.Uint16(uint16(x)), fmt.Sprint(uint16(x))),
			check(fmt.Sprintf("Uint32(%d)", uint32(x)), base.Uint32(uint32(x)), fmt.Sprint(uint32(x))),
			check(fmt.Sprintf("Uint64(%d)", x), base.Uint64(x), fmt.Sprint(x)),
			check(fmt.Sprintf("Bool(%v)", x&1 == 1), base.Bool(x&1 == 1), fmt.Sprint(x&1 == 1)),
			check(fmt.Sprintf("Float64(%v)", f), base.Float64(f), strconv.FormatFloat(f, 'g', -1, 64)),
			check(fmt.Sprintf("Float32(%v)", float32(f)), base.Float32(float32(f)), strconv.FormatFloat(float64(float32(f)), 'g', -1, 32)))
		if int(x) >= 0 {
			vs = append(vs, check(fmt.Sprintf("Uint(%d)", int(x)), base.Uint(int(x)), fmt.Sprint(int(x))))
		}
		for _, v := range vs {
			if v != nil {
				return v, n, nil
			}
		}
	}
	return nil, n, nil
}

// searchPanics: names of kinds, states and error paths.
func searchPanics(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	n := 0
	for k := -3; k < 40; k++ {
		k := k
		v := guard("C18", fmt.Sprintf("NodeKind(%d)", k), func() *Violation {
			n++
			_ = xw.NodeKind(k).Name()
			_ = xw.NodeKind(k).String()
			_ = xw.Event{State: xw.NodeState(k), Node: xw.NodeKind(k)}.String()
			_ = xw.NodeState(k).Name()
			return nil
		})
		if v != nil {
			return v, n, nil
		}
	}
	for _, f := range []func(string){func(s string) { xw.CheckName(s) }, func(s string) { xw.CheckChars(s, true) }, func(s string) { xw.CheckPubID(s) }, func(s string) { xw.CheckEncoding(s) }} {
		g := &gen{r: rand.New(rand.NewSource(seed)), hints: hints}
		for i := 0; i < 20000; i++ {
			s := g.wildStr()
			if v := guard("C18", fmt.Sprintf("a validator on %+q", s), func() *Violation { n++; f(s); return nil }); v != nil {
				return v, n, nil
			}
		}
	}
	return nil, n, nil
}

// searchOptions: the fields of a new writer are the defaults changed by the
// options in order.
func searchOptions(g *gen) (*Violation, int) {
	type set struct {
		Enforce, Strict  bool
		Newline, Version string
		Ind              string
	}
	for n := 1; n < 20000; n++ {
		want := set{Enforce: true, Strict: true, Newline: "\n", Ind: "none"}
		var opts []xw.Option
		hist := ""
		do := func(h string, o xw.Option) {
			opts = append(opts, o)
			hist += h + "; "
		}
		for k := g.r.Intn(6); k > 0; k-- {
			b := g.p(0.5)
			s := g.pick([]string{"", "\n", "\r\n", " ", "\t", "1.1", "1.0", "  "})
			switch g.r.Intn(8) {
			case 0:
				want.Enforce = b
				do(fmt.Sprint("Enforce=", b), func(w *xw.Writer) { w.Enforce = b })
			case 1:
				want.Strict = b
				do(fmt.Sprint("StrictChars=", b), func(w *xw.Writer) { w.StrictChars = b })
			case 2:
				want.Newline = s
				do(fmt.Sprintf("NewlineString=%q", s), func(w *xw.Writer) { w.NewlineString = s })
			case 3:
				want.Version = s
				do(fmt.Sprintf("Version=%q", s), func(w *xw.Writer) { w.Version = s })
			case 4:
				want.Ind = " "
				do("WithIndent()", xw.WithIndent())
			case 5:
				want.Ind = s
				do(fmt.Sprintf("WithIndentString(%q)", s), xw.WithIndentString(s))
			case 6:
				want.Ind = "none"
				do("Indenter=nil", func(w *xw.Writer) { w.Indenter = nil })
			case 7:
				i := []int{0, 16, 4096, 5000}[g.r.Intn(4)]
				do(fmt.Sprint("InitialBufSize=", i), func(w *xw.Writer) { w.InitialBufSize = i })
			}
		}
		for _, enc := range []bool{false, true} {
			var w *xw.Writer
			var b bytes.Buffer
			how := "Open"
			if enc {
				how = "OpenEncoding"
				w = xw.OpenEncoding(&b, "utf-8", encoding.Nop.NewEncoder(), opts...)
			} else {
				w = xw.Open(&b, opts...)
			}
			got := set{w.Enforce, w.StrictChars, w.NewlineString, w.Version, "none"}
			if w.Indenter != nil {
				// what one level of indentation looks like
				w.Enforce = false
				w.WriteElem(xw.Elem{Name: "a", Content: []xw.Writable{xw.Elem{Name: "b"}}})
				w.Flush()
				x := b.String()
				i, j := strings.Index(x, "<a>"), strings.Index(x, "<b")
				if i >= 0 && j > i && strings.HasPrefix(x[i+3:j], w.NewlineString) {
					got.Ind = x[i+3+len(w.NewlineString) : j]
				} else {
					got.Ind = fmt.Sprintf("? %q", x)
				}
			}
			if got != want {
				return &Violation{Property: "C21", What: "fields of a writer opened with options", Expected: fmt.Sprintf("%+q", want), Observed: fmt.Sprintf("%+q", got), Case: how + ": " + hist}, n
			}
		}
	}
	return nil, 0
}

func searchEncoding(seed int64, budget time.Duration, hints []string) (*Violation, int, []string) {
	g := &gen{r: rand.New(rand.NewSource(seed)), hints: hints, wild: "|text|attr|"}
	n := 0
	t0 := time.Now()
	w := xw.Open(&bytes.Buffer{})
	if !w.Enforce || !w.StrictChars || w.NewlineString != "\n" || w.Indenter != nil || w.Version != "" || w.Depth() != -1 {
		return &Violation{Property: "C21", What: "defaults of Open", Expected: "Enforce, StrictChars, a newline, no indenter", Observed: fmt.Sprintf("%v %v %q %v %q %d", w.Enforce, w.StrictChars, w.NewlineString, w.Indenter, w.Version, w.Depth()), Case: "Open(b)"}, 1, nil
	}
	if v, k := searchOptions(g); v != nil {
		return v, k, nil
	}
	type e struct {
		name string
		enc  encoding.Encoding
	}
	encs := []e{{"windows-1252", charmap.Windows1252}, {"iso-8859-5", charmap.ISO8859_5}, {"utf-16be", unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)}, {"koi8-r", charmap.KOI8R}, {"utf-8", encoding.Nop}}
	for time.Since(t0) < budget {
		s := g.script()
		s.NoEnforce = false
		doc := Op{Op: "start", Nodes: []N{{K: "doc"}}}
		x := encs[g.r.Intn(len(encs))]
		text := g.wildStr()
		val := g.wildStr()
		ops := []Op{doc, {Op: "start", Nodes: []N{{K: "elem", S: []Q{"", "", "root"}}}}, {Op: "write", Nodes: []N{{K: "attr", S: []Q{"", "", "v", Q(val)}}}}, {Op: "write", Nodes: []N{{K: "text", S: []Q{Q(text)}}}}}
		for i := g.r.Intn(4); i > 0; i-- {
			ops = append(ops, Op{Op: "write", Nodes: []N{{K: "elem", S: []Q{"", "", "sub"}, Sub: []N{{K: "text", S: []Q{Q(g.wildStr())}}}}}})
		}
		run := func(w *xw.Writer) string {
			for _, o := range ops {
				if err := apply(w, o); err != nil {
					return err.Error()
				}
			}
			if err := w.EndAllFlush(); err != nil {
				return err.Error()
			}
			return ""
		}
		var plain, coded bytes.Buffer
		var opts []xw.Option
		size := []int{0, 16, 33}[g.r.Intn(3)]
		opts = append(opts, func(w *xw.Writer) { w.InitialBufSize = size })
		if e := run(xw.Open(&plain, opts...)); e != "" {
			continue
		}
		n++
		cs := fmt.Sprintf("%s: attr %+q text %+q", x.name, val, text)
		p := fmt.Sprintf(`encoding="%s"`, x.name)
		if e := run(xw.OpenEncoding(&coded, x.name, x.enc.NewEncoder(), opts...)); e != "" {
			return &Violation{Property: "C21", What: "writing through an encoder fails", Expected: "success", Observed: e, Case: cs}, n, nil
		}
		want := strings.Replace(plain.String(), `encoding="UTF-8"`, p, 1)
		exp, err := encoding.HTMLEscapeUnsupported(x.enc.NewEncoder()).String(want)
		if err != nil {
			continue
		}
		if exp != coded.String() {
			return &Violation{Property: "C21", What: "encoded document", Expected: fmt.Sprintf("%q", exp), Observed: fmt.Sprintf("%q", coded.String()), Case: cs}, n, nil
		}
	}
	return nil, n, nil
}

// knownFinding replays a recorded finding.
func knownFinding(id string) bool {
	switch id {
	case "pi-empty-target":
		r := execute(&Script{Ops: []Op{{Op: "write", Nodes: []N{{K: "pi", S: []Q{"", ""}}}}}})
		return r.panic == "" && len(r.errs) == 1 && r.errs[0] == nil && r.out == "<? ?>"
	}
	return false
}
