package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

var errSink = errors.New("sink failed")

// sink is a destination that can fail.
type sink struct {
	b      bytes.Buffer
	failAt int
	mode   string
	failed bool
	later  int // bytes offered after the failure
	calls  int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.failAt == 0 {
		return s.b.Write(p)
	}
	if s.failed && s.mode != "once" {
		s.later += len(p)
		return 0, errSink
	}
	if s.failed || s.b.Len()+len(p) < s.failAt {
		if s.failed {
			s.later += len(p)
		}
		return s.b.Write(p)
	}
	s.failed = true
	n := s.failAt - s.b.Len()
	if n > len(p) || n < 0 {
		n = len(p)
	}
	if n == len(p) {
		n--
	}
	if n < 0 {
		n = 0
	}
	s.b.Write(p[:n])
	if s.mode == "short" {
		return n, io.ErrShortWrite
	}
	return n, errSink
}

type wrapInd struct{}

func (wrapInd) Indent(w *xw.Writer, last, next xw.Event) error { return nil }
func (wrapInd) Wrap(s string) string                           { return wrapper(s) }

type result struct {
	errs   []error
	deltas []string
	panic  string
	at     int
	out    string
	flush  error
	sink   *sink
}

// execute runs a script on the real code.
func execute(s *Script) (r *result) {
	r = &result{sink: &sink{failAt: s.FailAt, mode: s.FailMode}}
	defer func() {
		if p := recover(); p != nil {
			r.panic = fmt.Sprint(p)
			r.out = r.sink.b.String()
		}
	}()
	var opts []xw.Option
	if s.Indented {
		if s.Indent == " " {
			opts = append(opts, xw.WithIndent())
		} else {
			opts = append(opts, xw.WithIndentString(string(s.Indent)))
		}
	}
	opts = append(opts, func(w *xw.Writer) {
		if s.NoEnforce {
			w.Enforce = false
		}
		if s.NotStrict {
			w.StrictChars = false
		}
		if s.Newline != nil {
			w.NewlineString = string(*s.Newline)
		}
		if s.Wrap {
			w.Indenter = wrapInd{}
		}
		if s.Version != "" {
			w.Version = string(s.Version)
		}
		if s.BufSize > 0 {
			w.InitialBufSize = s.BufSize
		}
	})
	w := xw.Open(r.sink, opts...)
	seen := 0
	for i, o := range s.Ops {
		r.at = i
		err := apply(w, o)
		r.errs = append(r.errs, err)
		if !s.NoFlush {
			w.Flush()
		}
		r.deltas = append(r.deltas, r.sink.b.String()[seen:])
		seen = r.sink.b.Len()
	}
	r.flush = w.Flush()
	r.out = r.sink.b.String()
	return r
}

// Violation of a property by the real code.
type Violation struct {
	Property string
	What     string
	Expected string
	Observed string
	Script   *Script `json:",omitempty"`
	Case     string  `json:",omitempty"`
}

func has(tags, p string) bool {
	for _, t := range strings.Split(tags, "|") {
		if t == p {
			return true
		}
	}
	return false
}

func join(ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.s)
	}
	return b.String()
}

// match compares output with expected output carrying markers. It returns the
// number of bytes of want that could be matched at best.
func match(want, got, nl, indent string) (bool, int) {
	best := 0
	var rec func(i, j int) bool
	memo := map[[2]int]bool{}
	rec = func(i, j int) bool {
		for i < len(want) && want[i] != apos && want[i] != ind {
			if i > best {
				best = i
			}
			if j >= len(got) || got[j] != want[i] {
				return false
			}
			i++
			j++
		}
		if i > best {
			best = i
		}
		if i == len(want) {
			return j == len(got)
		}
		k := [2]int{i, j}
		if memo[k] {
			return false
		}
		memo[k] = true
		if want[i] == apos {
			if strings.HasPrefix(got[j:], "'") && rec(i+1, j+1) {
				return true
			}
			return strings.HasPrefix(got[j:], "&#39;") && rec(i+1, j+5)
		}
		if rec(i+1, j) {
			return true
		}
		if indent == "\x00" || !strings.HasPrefix(got[j:], nl) {
			return false
		}
		j += len(nl)
		for {
			if rec(i+1, j) {
				return true
			}
			if indent == "" || !strings.HasPrefix(got[j:], indent) {
				return false
			}
			j += len(indent)
		}
	}
	ok := rec(0, 0)
	return ok, best
}

// clean makes markers unambiguous: scripts whose strings use the marker bytes
// raw are compared without them.
func usesMarkers(s *Script) bool {
	var n func(x N) bool
	bad := func(q string) bool { return strings.IndexByte(q, apos) >= 0 || strings.IndexByte(q, ind) >= 0 }
	n = func(x N) bool {
		for _, q := range x.S {
			if bad(string(q)) && x.K != "text" && x.K != "attr" {
				return true
			}
		}
		if x.K == "attr" && (bad(x.s(0)) || bad(x.s(2))) {
			return true
		}
		for _, y := range append(append([]N{}, x.Attr...), x.Sub...) {
			if n(y) {
				return true
			}
		}
		return false
	}
	for _, o := range s.Ops {
		for _, x := range o.Nodes {
			if n(x) {
				return true
			}
		}
	}
	return false
}

// judge runs a script and compares it with the oracle, for one property.
func judge(s *Script, prop string) *Violation {
	if usesMarkers(s) {
		return nil
	}
	r := execute(s)
	m := newModel(s)
	viol := func(what, exp, obs string) *Violation {
		return &Violation{Property: prop, What: what, Expected: exp, Observed: obs, Script: s}
	}
	for i, o := range s.Ops {
		v := m.step(o)
		if r.panic != "" && i >= r.at {
			if v.stop && i < r.at {
				return nil
			}
			if prop == "C18" {
				return viol(fmt.Sprintf("call %d (%s) panicked", i, o), "no panic", r.panic)
			}
			return nil
		}
		err := r.errs[i]
		got := r.deltas[i]
		if v.fail != "" {
			if err == nil {
				if has(v.fail, prop) {
					return viol(fmt.Sprintf("call %d (%s) succeeded", i, o), "an error", fmt.Sprintf("nil, output %q", got))
				}
				return nil
			}
			if v.nostop {
				if got != "" {
					if has(v.fail, prop) {
						return viol(fmt.Sprintf("call %d (%s) was rejected after writing", i, o), "no output", fmt.Sprintf("%q", got))
					}
					return nil
				}
				continue
			}
			return restPanic(s, r, i, prop, viol)
		}
		if v.free != "" {
			return restPanic(s, r, i, prop, viol)
		}
		if err != nil {
			if prop == "C20" || has(opTags(o), prop) {
				return viol(fmt.Sprintf("call %d (%s) failed", i, o), "success", err.Error())
			}
			return nil
		}
		indent := "\x00"
		if s.Indented {
			indent = string(s.Indent)
		}
		want := join(v.out)
		if ok, at := match(want, got, m.nl, indent); !ok {
			tags := ""
			n := 0
			for _, p := range v.out {
				n += len(p.s)
				tags = p.tags
				if n > at {
					break
				}
			}
			if prop == "C13" && s.Indented {
				p2 := *s
				p2.Indented = false
				if r2 := execute(&p2); r2.panic == "" && i < len(r2.deltas) {
					if ok, _ := match(want, r2.deltas[i], m.nl, "\x00"); ok {
						return viol(fmt.Sprintf("call %d (%s) with indentation changed more than whitespace between markup", i, o), show(want), fmt.Sprintf("%q", got))
					}
				}
				return nil
			}
			if s.Indented && prop != "C13" {
				return nil
			}
			if tags == "" {
				tags = opTags(o)
			}
			if has(tags, prop) {
				return viol(fmt.Sprintf("call %d (%s) wrote something else", i, o), show(want), fmt.Sprintf("%q", got))
			}
			return nil
		}
	}
	return nil
}

// after an error only panics are judged
func restPanic(s *Script, r *result, i int, prop string, viol func(a, b, c string) *Violation) *Violation {
	if prop == "C18" && r.panic != "" {
		return viol(fmt.Sprintf("call %d (%s) panicked", r.at, s.Ops[r.at]), "no panic", r.panic)
	}
	return nil
}

func show(want string) string {
	s := fmt.Sprintf("%q", want)
	s = strings.ReplaceAll(s, `\x01`, `'`)
	return strings.ReplaceAll(s, `\x02`, ``)
}

// properties a successful call of this kind belongs to
func opTags(o Op) string {
	switch o.Op {
	case "end", "endname", "endfull", "endany", "enddoc", "endall", "enddepth":
		return "C08"
	case "endallflush", "flush":
		return "C12"
	case "attrs":
		return "C02|C10"
	}
	t := ""
	for _, n := range o.Nodes {
		switch n.K {
		case "text":
			t += "|C01"
		case "raw":
			t += "|C19"
		case "elem":
			t += "|C09"
		case "attr":
			t += "|C02|C10"
		case "comment", "cdata", "commentcontent", "cdatacontent", "pi":
			t += "|C05"
		case "doc":
			t += "|C11"
		default:
			t += "|C14"
		}
	}
	return t
}
