package main

import (
	"strings"
	"unicode/utf8"

	xw "github.com/shabbyrobe/xmlwriter"
)

// The oracle: what the statements of the properties say a call must do. It
// does not read the implementation's state; it shares CheckName with it for
// names outside ASCII (C03 and C04 check that function by itself).

func isChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func escText(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == '"':
			b.WriteString("&#34;")
		case r == '\'':
			b.WriteString("&#39;")
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case !isChar(r) || r == 0xFFFD && w == 1:
			b.WriteString("\uFFFD")
		default:
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

func escAttr(s string) string {
	// apostrophes need no escape between double quotes; both forms are right
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == '"':
			b.WriteString("&#34;")
		case r == '\'':
			b.WriteByte(apos)
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '\t':
			b.WriteString("&#x9;")
		case r == '\n':
			b.WriteString("&#xA;")
		case r == '\r':
			b.WriteString("&#xD;")
		case !isChar(r) || r == 0xFFFD && w == 1:
			b.WriteString("\uFFFD")
		default:
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

// markers in expected output
const (
	apos = 1 // ' or &#39;
	ind  = 2 // indentation allowed here
)

func nameStart(r rune) bool {
	return r == ':' || r >= 'A' && r <= 'Z' || r == '_' || r >= 'a' && r <= 'z' || r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 ||
		r >= 0xF8 && r <= 0x2FF || r >= 0x370 && r <= 0x37D || r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D ||
		r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF || r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF ||
		r >= 0xFDF0 && r <= 0xFFFC || r >= 0x10000 && r <= 0xEFFFF
}

func nameChar(r rune) bool {
	return nameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func xmlName(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == 0xFFFD || i == 0 && !nameStart(r) || !nameChar(r) {
			return false
		}
		i += w
	}
	return true
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func discouraged(r rune) bool {
	return r >= 0x7F && r <= 0x84 || r >= 0x86 && r <= 0x9F || r >= 0xFDD0 && r <= 0xFDEF || r >= 0x10000 && r&0xFFFE == 0xFFFE
}

func charsOK(s string, strict bool) bool {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if !isChar(r) || r == 0xFFFD && w == 1 || strict && discouraged(r) {
			return false
		}
		i += w
	}
	return true
}

func pubidOK(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte(" \r\n-'()+,./:=?;!*#@$_%", c) >= 0) {
			return false
		}
	}
	return true
}

func encOK(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		al := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !al && (i == 0 || !(c >= '0' && c <= '9' || c == '.' || c == '_' || c == '-')) {
			return false
		}
	}
	return true
}

type mns struct {
	prefix, uri string
	written     bool
}

type mnode struct {
	n        N
	children int
	opened   bool
	ns       []mns
	content  string // of a comment or cdata section
}

// piece of expected output, with the properties it belongs to
type piece struct {
	tags string
	s    string
}

// verdict of one call
type verdict struct {
	fail   string // "" or the properties that demand an error
	nostop bool   // the writer is as it was before the call
	free   string // "" or why success is not promised
	out    []piece
	stop   bool // nothing is promised from here on
}

type model struct {
	s     *Script
	stack []*mnode
	enc   string
	nl    string
	last  string // what was written last, as far as indentation goes
	cur   verdict
}

type stopModel struct{}

func newModel(s *Script) *model {
	m := &model{s: s, enc: "UTF-8", nl: "\n"}
	if s.Newline != nil {
		m.nl = string(*s.Newline)
	}
	return m
}

func (m *model) enforce() bool { return !m.s.NoEnforce }
func (m *model) top() *mnode {
	if len(m.stack) == 0 {
		return nil
	}
	return m.stack[len(m.stack)-1]
}

// step predicts a call.
func (m *model) step(o Op) (v verdict) {
	m.cur = verdict{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopModel); !ok {
					panic(r)
				}
			}
		}()
		m.do(o)
	}()
	return m.cur
}

func (m *model) emit(tags, s string) { m.cur.out = append(m.cur.out, piece{tags, s}) }

// indent: an indenter may put a line break here, but never next to text,
// attributes, processing instructions or raw output.
func (m *model) indent() {
	switch m.last {
	case "elem", "dtd", "attlist", "entity", "dtdattr", "dtdelem", "notation", "comment/":
		m.cur.out = append(m.cur.out, piece{"C13", string(rune(ind))})
	}
}

// reject: the call must fail; before any output if clean.
func (m *model) reject(tags string, clean bool) {
	m.cur.fail = tags
	if clean && len(m.cur.out) == 0 {
		m.cur.nostop = true
	} else {
		m.cur.stop = true
	}
	panic(stopModel{})
}
func (m *model) unknown(why string) {
	m.cur.free = why
	m.cur.stop = true
	panic(stopModel{})
}

func (m *model) wrap(s string) string {
	if m.s.Wrap {
		return wrapper(s)
	}
	return s
}

// name: a name is about to be written under enforcement
func (m *model) name(s string, empty bool) {
	if !m.enforce() {
		return
	}
	if s == "" {
		if empty {
			m.reject("C03", false)
		}
		return
	}
	if !xmlName(s) {
		m.reject("C03", false)
	}
	if !ascii(s) && xw.CheckName(s) != nil {
		m.unknown("name outside the repertoire")
	}
}

var parents = map[string]string{
	"attr": "|elem|", "cdata": "|elem|", "comment": "|doc|dtd|elem|", "commentcontent": "|comment|", "cdatacontent": "|cdata|",
	"dtd": "|doc|", "attlist": "|dtd|", "dtdelem": "|dtd|", "entity": "|dtd|", "notation": "|dtd|", "dtdattr": "|attlist|",
	"doc": "||", "elem": "|doc|elem|", "pi": "|doc|elem|", "text": "|elem|",
}

func (m *model) place(kind string) {
	if !m.enforce() || kind == "raw" || len(m.stack) == 0 {
		return
	}
	if !strings.Contains(parents[kind], "|"+m.top().n.K+"|") {
		m.reject("C07", true)
	}
}

func (m *model) next() {
	t := m.top()
	if t == nil {
		return
	}
	t.children++
	if !t.opened {
		m.open(t)
	}
}

// open writes what is pending between a start tag and its content
func (m *model) open(t *mnode) {
	t.opened = true
	n := t.n
	m.last = n.K
	switch n.K {
	case "elem":
		for i := range t.ns {
			if !t.ns[i].written {
				m.name("xmlns:"+t.ns[i].prefix, true)
				m.emit("C10", " xmlns:"+t.ns[i].prefix+`="`+escAttr(t.ns[i].uri)+`"`)
				t.ns[i].written = true
			}
		}
		if t.children == 0 && !n.b(0) && len(n.Sub) == 0 {
			m.emit("C09", "/>")
		} else {
			m.emit("C09", ">")
		}
		for _, c := range n.Sub {
			switch c.K {
			case "text", "elem", "comment", "cdata":
				m.write(c)
			default:
				m.reject("C09", false)
			}
		}
	case "comment":
		if n.s(0) != "" {
			m.write(N{K: "commentcontent", S: n.S})
		}
	case "cdata":
		if n.s(0) != "" {
			m.write(N{K: "cdatacontent", S: n.S})
		}
	case "dtd":
		if t.children > 0 {
			m.emit("C14", " [")
		}
	case "attlist":
		for _, a := range n.Attr {
			m.write(a)
		}
	}
}

func fullName(p, n string) string {
	if p != "" {
		return p + ":" + n
	}
	return n
}

func (m *model) start(n N) {
	m.place(n.K)
	m.next()
	t := &mnode{n: n}
	m.stack = append(m.stack, t)
	switch n.K {
	case "elem", "dtd", "attlist", "comment":
		m.indent()
	}
	m.last = n.K
	switch n.K {
	case "elem":
		name := fullName(n.s(0), n.s(2))
		m.name(name, true)
		m.emit("C09", "<"+name)
		if n.s(0) != "" && n.s(1) != "" {
			m.name("xmlns:"+n.s(0), true)
			m.emit("C10", " xmlns:"+n.s(0)+`="`+escAttr(n.s(1))+`"`)
			t.ns = append(t.ns, mns{n.s(0), n.s(1), true})
		}
		for _, a := range n.Attr {
			m.attr(a)
		}
	case "comment":
		m.emit("C05", "<!--")
	case "cdata":
		m.emit("C05", "<![CDATA[")
	case "doc":
		m.doc(n)
	case "dtd":
		m.name(n.s(0), true)
		m.emit("C14", "<!DOCTYPE "+n.s(0))
		if n.s(1) != "" || n.s(2) != "" {
			m.emit("C14", " ")
			m.extID(n.s(1), n.s(2))
		}
	case "attlist":
		m.name(n.s(0), true)
		m.emit("C14", "<!ATTLIST "+n.s(0))
	}
}

func (m *model) doc(n N) {
	m.emit("C11", "<?xml")
	any := false
	if !n.b(0) {
		v := string(m.s.Version)
		if v == "" {
			v = "1.0"
		}
		if n.b(2) {
			v = n.s(0)
		}
		m.emit("C11", ` version="`+escAttr(v)+`"`)
		any = true
	}
	if !n.b(1) {
		e := m.enc
		if n.b(3) {
			e = n.s(1)
		}
		if e != "" {
			if m.enforce() && !encOK(e) {
				m.reject("C11", false)
			}
			m.emit("C11", ` encoding="`+escAttr(e)+`"`)
			any = true
		}
	}
	if n.b(4) {
		v := "no"
		if n.b(5) {
			v = "yes"
		}
		m.emit("C11", ` standalone="`+v+`"`)
		any = true
	}
	if !any {
		m.emit("C11", " ")
	}
	m.emit("C11", "?>"+m.nl)
}

func quoteLit(s string) string {
	if strings.Contains(s, `"`) {
		return "'" + s + "'"
	}
	return `"` + s + `"`
}

func (m *model) lit(s string) {
	if m.enforce() && strings.Contains(s, `"`) && strings.Contains(s, "'") {
		m.reject("C06", false)
	}
	m.emit("C06", quoteLit(s))
}

func (m *model) extID(pub, sys string) {
	if m.enforce() {
		if pub != "" && sys == "" {
			m.reject("C06", false)
		}
		if !pubidOK(pub) {
			m.reject("C06", false)
		}
	}
	if pub == "" {
		m.emit("C06", "SYSTEM ")
		m.lit(sys)
		return
	}
	m.emit("C06", `PUBLIC "`+pub+`"`)
	if sys != "" {
		m.emit("C06", " ")
		m.lit(sys)
	}
}

func (m *model) attr(a N) {
	m.place("attr")
	t := m.top()
	if t != nil && (t.n.K != "elem" || t.opened) {
		if m.enforce() && t.opened {
			m.reject("C07", true)
		}
		if t.n.K != "elem" {
			m.unknown("attr outside an element")
		}
	}
	name := fullName(a.s(0), a.s(2))
	m.name(name, true)
	if a.s(0) != "" && a.s(1) != "" && t != nil {
		found := false
		for _, e := range t.ns {
			if e.prefix == a.s(0) {
				if e.uri != a.s(1) {
					m.reject("C10", false)
				}
				found = true
				break
			}
		}
		if !found {
			t.ns = append(t.ns, mns{a.s(0), a.s(1), false})
		}
	}
	m.emit("C09", " "+name+`="`)
	m.emit("C02", escAttr(a.s(3)))
	m.emit("C09", `"`)
	m.last = "attr"
}

func (m *model) write(n N) {
	switch n.K {
	case "elem", "comment", "cdata", "attlist":
		m.start(n)
		m.pop()
		return
	case "raw":
		m.emit("C19", n.s(0))
		m.last = "raw"
		return
	case "attr":
		m.attr(n)
		return
	}
	m.place(n.K)
	defer func() { m.last = n.K }()
	switch n.K {
	case "text":
		m.next()
		m.emit("C01", escText(m.wrap(n.s(0))))
	case "commentcontent", "cdatacontent":
		s := n.s(0)
		del := "]]>"
		if n.K == "commentcontent" {
			s = m.wrap(s)
			del = "--"
		}
		if m.enforce() && (strings.Contains(s, del) || !charsOK(s, !m.s.NotStrict)) {
			m.reject("C05", false)
		}
		m.next()
		if t := m.top(); t != nil {
			if m.enforce() && strings.Contains(t.content+s, del) {
				m.reject("C05", false)
			}
			t.content += s
		}
		m.emit("C05", s)
	case "pi":
		t := n.s(0)
		if m.enforce() {
			if strings.EqualFold(t, "xml") && ascii(t) {
				m.reject("C05", false)
			}
			if t == "" {
				m.unknown("pi without a target")
			}
			m.name(t, true)
			if strings.Contains(n.s(1), "?>") {
				m.reject("C05", false)
			}
		}
		m.next()
		m.emit("C05", "<?"+t+" "+n.s(1)+"?>")
	case "dtdelem":
		m.name(n.s(0), true)
		if m.enforce() && n.s(1) == "" {
			m.reject("C14", false)
		}
		m.next()
		m.indent()
		m.emit("C14", "<!ELEMENT "+n.s(0)+" "+n.s(1)+">")
	case "entity":
		m.name(n.s(0), true)
		m.next()
		m.indent()
		pe := ""
		if n.b(0) {
			pe = "% "
		}
		m.emit("C14", "<!ENTITY "+pe+n.s(0)+" ")
		if n.s(2) != "" || n.s(3) != "" {
			if m.enforce() && n.s(1) != "" {
				m.reject("C14", false)
			}
			m.extID(n.s(2), n.s(3))
			if n.s(4) != "" {
				if n.b(0) {
					m.reject("C14", false)
				}
				m.name(n.s(4), true)
				m.emit("C14", " NDATA "+n.s(4))
			}
		} else {
			if m.enforce() && n.s(4) != "" {
				m.reject("C14", false)
			}
			m.lit(n.s(1))
		}
		m.emit("C14", ">")
	case "dtdattr":
		m.name(n.s(0), true)
		if m.enforce() && n.s(1) == "" {
			m.reject("C14", false)
		}
		m.next()
		m.indent()
		m.emit("C14", " "+n.s(0)+" "+n.s(1)+" ")
		d := n.I
		if d == 0 {
			d = 3
			if n.s(2) != "" {
				d = 1
			}
		}
		switch d {
		case 1, 4:
			if d == 4 {
				m.emit("C14", "#FIXED ")
			}
			m.emit("C14", `"`)
			m.emit("C02|C14", escAttr(n.s(2)))
			m.emit("C14", `"`)
		case 2, 3:
			if n.s(2) != "" {
				m.reject("C14", false)
			}
			if d == 2 {
				m.emit("C14", "#REQUIRED")
			} else {
				m.emit("C14", "#IMPLIED")
			}
		default:
			m.reject("C14", false)
		}
	case "notation":
		m.name(n.s(0), true)
		if m.enforce() && n.s(1) == "" && n.s(2) == "" {
			m.reject("C14", false)
		}
		m.next()
		m.indent()
		m.emit("C14", "<!NOTATION "+n.s(0)+" ")
		switch {
		case n.s(2) != "":
			m.extID(n.s(1), n.s(2))
		case n.s(1) != "":
			if m.enforce() && !pubidOK(n.s(1)) {
				m.reject("C06", false)
			}
			m.emit("C06", `PUBLIC "`+n.s(1)+`"`)
		}
		m.emit("C14", ">")
	}
}

func (m *model) pop() {
	t := m.top()
	if t == nil {
		m.reject("C08", true)
	}
	was := t.opened
	if !was {
		m.open(t)
	}
	switch t.n.K {
	case "elem":
		if was || t.n.b(0) || t.children > 0 {
			m.indent()
			m.emit("C09", "</"+fullName(t.n.s(0), t.n.s(2))+">")
		}
	case "comment":
		if m.enforce() && strings.HasSuffix(t.content, "-") {
			m.reject("C05", false)
		}
		m.emit("C05", "-->")
	case "cdata":
		m.emit("C05", "]]>")
	case "dtd":
		m.indent()
		if t.children > 0 {
			m.emit("C14", "]>")
		} else {
			m.emit("C14", ">")
		}
	case "attlist":
		m.indent()
		m.emit("C14", ">")
	case "doc":
		m.cur.out = append(m.cur.out, piece{"C13", string(rune(ind))})
	}
	m.last = t.n.K
	if t.n.K == "comment" {
		m.last = "comment/"
	}
	m.stack = m.stack[:len(m.stack)-1]
}

var kindOf = map[string]xw.NodeKind{"elem": xw.ElemNode, "comment": xw.CommentNode, "cdata": xw.CDataNode, "doc": xw.DocNode, "dtd": xw.DTDNode, "attlist": xw.DTDAttListNode}

func (m *model) end(kind int, names []Q) {
	t := m.top()
	if t == nil {
		m.reject("C08", true)
	}
	if kindOf[t.n.K] != xw.NodeKind(kind) {
		m.reject("C08", true)
	}
	switch len(names) {
	case 0:
	case 1:
		n := ""
		switch t.n.K {
		case "elem":
			n = t.n.s(2)
		case "dtd", "attlist":
			n = t.n.s(0)
		default:
			m.reject("C08", true)
		}
		if n != string(names[0]) {
			m.reject("C08", true)
		}
	case 2:
		if t.n.K != "elem" || t.n.s(0) != string(names[0]) || t.n.s(2) != string(names[1]) {
			m.reject("C08", true)
		}
	default:
		m.reject("C08", true)
	}
	m.pop()
}

func (m *model) do(o Op) {
	switch o.Op {
	case "start":
		for _, n := range o.Nodes {
			m.start(n)
		}
	case "write":
		for _, n := range o.Nodes {
			m.write(n)
		}
	case "attrs":
		for _, n := range o.Nodes {
			m.attr(n)
		}
	case "block":
		m.start(o.Nodes[0])
		for _, n := range o.Nodes[1:] {
			m.write(n)
		}
		m.end(int(kindOf[o.Nodes[0].K]), nil)
	case "next":
		m.next()
	case "end", "endname":
		m.end(o.Kind, o.Names)
	case "endfull":
		func() {
			if t := m.top(); t != nil && t.n.K == "elem" {
				old, done := t.n.B, false
				defer func() {
					if !done {
						t.n.B = old
					}
				}()
				t.n.B = []bool{true}
				m.end(int(xw.ElemNode), o.Names)
				done = true
				return
			}
			m.end(int(xw.ElemNode), o.Names)
		}()
	case "endany":
		m.pop()
	case "enddoc":
		for len(m.stack) > 1 {
			m.pop()
		}
		m.end(int(xw.DocNode), nil)
	case "endall", "endallflush":
		for len(m.stack) > 0 {
			m.pop()
		}
	case "enddepth":
		if len(m.stack)-1 < o.Depth+1 {
			m.reject("C08", true)
		}
		for len(m.stack)-1 > o.Depth+1 {
			m.pop()
		}
		m.end(o.Kind, o.Names)
	case "flush":
	}
}

func wrapper(s string) string {
	if s == "" {
		return "[]"
	}
	return "[" + s + "]"
}
