package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// pools
var frags = []string{"a", "b", "x", "Z", "0", "9", " ", "-", "--", "->", "-->", "<!--", "]", "]]", "]]>", "]>", ">", "<", "<![CDATA[", "?", "?>", "<?", "&", "&amp;", "&#60;", ";",
	"'", "\"", "\t", "\n", "\r", "\r\n", "\\", "{", "|", "}", "~", "`", "^", "!", "#", "$", "%", "(", ")", "*", "+", ",", ".", "/", ":", "=", "@", "[", "_",
	"\x00", "\x0b", "\x0c", "\x1f", "\x7f", "\u0080", "\u0084", "\u0085", "\u0086", "\u009f", "\u00a0", "é", "·", "\u0300", "\u037e", "\u2028", "\u3000", "\ud7ff", "\ue000", "\ufdcf", "\ufdd0", "\ufdef", "\ufdf0",
	"\ufeff", "\ufffc", "\ufffd", "\ufffe", "\uffff", "\U00010000", "\U0001f600", "\U0001fffd", "\U0001fffe", "\U000effff", "\U0010fffd", "\U0010fffe", "\U0010ffff",
	"\xff", "\xc3", "\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe2\x82", "xml", "xmlns", "%pe;", "PUBLIC", "SYSTEM"}
var goodNames = []string{"a", "b", "c", "foo", "bar", "x-y", "a.b", "_z", "n1", "Name", "xsl", "svg"}
var oddNames = []string{"", "1a", "-a", ".a", "a b", "a>", "a\"", "a=", "a/", "<a", "é", "aé", "\u00d7", "\u0300a", "a\u0300", "a\u00b7", "\u00b7", "\u2028", "a\x00", "a\xff", "\xff", "a\ufffd", "\ufffd", "\U00010000", "a\U0001f600", ":", "a:", ":a", "a:b", "a:b:c", "xml", "XML", "Xml", "\u3000", "a\u037e", "a\t", "a\n", "a;", "a\u2040", "\u2040", "\u0660a", "a\u0660", "\u01bb", "A\u02ff"}
var prefixes = []string{"p", "q", "ns1", "xsl"}
var uris = []string{"urn:a", "urn:b", "http://example.com/?a=1&b=2", "u\"v", "u'v", "u<v"}

// mined from the source under test: unusual literals become candidates
var minedStr []string
var minedInt []int

func mine(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		b := filepath.Base(f)
		if strings.HasSuffix(b, "_test.go") || b == "tables_gen.go" || b == "gentables.go" {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 24 {
					minedStr = append(minedStr, s)
				}
			case token.CHAR:
				if s, err := strconv.Unquote(l.Value); err == nil {
					minedStr = append(minedStr, s)
				}
			case token.INT:
				if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
					if v >= 2 && v <= 8192 {
						minedInt = append(minedInt, int(v))
					}
					if v >= 0x20 && v <= 0x10FFFF {
						minedStr = append(minedStr, string(rune(v)))
					}
				}
			}
			return true
		})
	}
}

type gen struct {
	r     *rand.Rand
	hints []string
	wild  string // |kinds of string| that get unusual values
	focus string // |node kinds| to prefer
}

func (g *gen) p(x float64) bool       { return g.r.Float64() < x }
func (g *gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

func (g *gen) wildStr() string {
	switch {
	case len(g.hints) > 0 && g.p(0.15):
		return g.pick(g.hints)
	case len(minedStr) > 0 && g.p(0.05):
		return g.pick(minedStr)
	case g.p(0.1):
		return ""
	case g.p(0.05):
		return g.pick(oddNames)
	}
	var b strings.Builder
	n := 1 + g.r.Intn(5)
	for i := 0; i < n; i++ {
		switch {
		case g.p(0.04) && len(minedStr) > 0:
			b.WriteString(g.pick(minedStr))
		case g.p(0.05):
			b.WriteRune(rune(g.r.Intn(0x110000)))
		case g.p(0.05):
			b.WriteByte(byte(g.r.Intn(256)))
		default:
			b.WriteString(g.pick(frags))
		}
	}
	s := b.String()
	if g.p(0.03) {
		l := g.length()
		if len(s) > 0 && len(s) < l {
			s = strings.Repeat(s, l/len(s)+1)[:l+g.r.Intn(3)-1]
		}
	}
	if g.p(0.03) { // plain text of a certain length around one fragment
		l := g.length()
		s = strings.Repeat("a", l) + s
	}
	return s
}

func (g *gen) length() int {
	if len(minedInt) > 0 && g.p(0.5) {
		return minedInt[g.r.Intn(len(minedInt))]
	}
	ls := []int{3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4096}
	return ls[g.r.Intn(len(ls))]
}

func (g *gen) isWild(kind string) bool { return strings.Contains(g.wild, "|"+kind+"|") }

func (g *gen) str(kind string) Q {
	w := g.isWild(kind)
	if w && g.p(0.7) {
		return Q(g.wildStr())
	}
	switch kind {
	case "comment", "cdata", "text", "attr", "pi", "raw":
		return Q(g.pick([]string{"", "a", "hello", "x y", "-", "]", "a<b", "é", "b&c", "\"q\"", "it's", ">", "?", "0"}))
	case "sys", "ent":
		return Q(g.pick([]string{"", "sys.dtd", "a'b", "a\"b", "x y"}))
	case "pub":
		return Q(g.pick([]string{"", "-//A//B", "p", "a'b"}))
	case "uri":
		return Q(g.pick(uris))
	}
	return Q(g.pick(goodNames))
}

func (g *gen) name() Q {
	if g.isWild("name") && g.p(0.35) {
		if g.p(0.6) {
			return Q(g.pick(oddNames))
		}
		s := g.pick(goodNames)
		switch g.r.Intn(4) {
		case 0:
			return Q(s + string(rune(g.r.Intn(0x3100))))
		case 1:
			return Q(string(rune(g.r.Intn(0x3100))) + s)
		case 2:
			return Q(s + g.pick(frags) + s)
		}
		return Q(g.wildStr())
	}
	return Q(g.pick(goodNames))
}

func (g *gen) attr() N {
	n := N{K: "attr", S: []Q{"", "", g.name(), g.str("attr")}}
	q := 0.15
	if g.isWild("ns") {
		q = 0.6
	}
	if g.p(q) {
		n.S[0] = Q(g.pick(prefixes[:1+g.r.Intn(len(prefixes))]))
		if g.p(0.85) {
			n.S[1] = g.str("uri")
			if g.isWild("ns") && g.p(0.6) { // repeat declarations
				n.S[1] = Q("urn:" + string(n.S[0]))
			}
		}
	} else if g.p(0.05) {
		n.S[1] = g.str("uri")
	}
	return n
}

func (g *gen) count(max int) int {
	if g.p(0.02) {
		return g.r.Intn(3 * max)
	}
	return g.r.Intn(max)
}

func (g *gen) node(k string, depth int) N {
	n := N{K: k}
	switch k {
	case "elem":
		n.S = []Q{"", "", g.name()}
		q := 0.15
		if g.isWild("ns") {
			q = 0.5
		}
		if g.p(q) {
			n.S[0] = Q(g.pick(prefixes))
			if g.p(0.8) {
				n.S[1] = g.str("uri")
				if g.p(0.5) {
					n.S[1] = "urn:" + n.S[0]
				}
			}
		} else if g.p(0.05) {
			n.S[1] = g.str("uri")
		}
		n.B = []bool{g.p(0.2)}
		if g.p(0.1) {
			n.B = append(n.B, true) // empty lists instead of nil ones
		}
		if g.p(0.4) {
			for i := g.count(4); i > 0; i-- {
				n.Attr = append(n.Attr, g.attr())
			}
		}
		if depth < 3 && g.p(0.35) {
			for i := g.count(4); i > 0; i-- {
				n.Sub = append(n.Sub, g.node(g.pick([]string{"text", "elem", "comment", "cdata", "elem"}), depth+1))
			}
			if g.isWild("content") && g.p(0.05) {
				n.Sub = append(n.Sub, g.node(g.pick([]string{"raw", "pi", "attr"}), depth+1))
			}
		}
	case "comment", "commentcontent":
		n.S = []Q{g.str("comment")}
	case "cdata", "cdatacontent":
		n.S = []Q{g.str("cdata")}
	case "text":
		n.S = []Q{g.str("text")}
	case "raw":
		n.S = []Q{g.str("raw")}
	case "doc":
		n.S = []Q{"1.1", "x"}
		if g.isWild("doc") {
			n.S = []Q{Q(g.pick([]string{"1.0", "1.1", "", "\"", "2<"})), Q(g.pick([]string{"UTF-8", "", "utf-16", "1x", "a b", "é", "a_b.c-9", "-x"}))}
			if g.p(0.2) {
				n.S[1] = Q(g.wildStr())
			}
			n.B = []bool{g.p(0.3), g.p(0.3), g.p(0.4), g.p(0.4), g.p(0.5), g.p(0.5)}
		}
	case "dtd":
		n.S = []Q{g.name(), "", ""}
		if g.p(0.5) {
			n.S[2] = g.str("sys")
			if g.p(0.5) {
				n.S[1] = g.str("pub")
			}
		}
		if g.isWild("pub") && g.p(0.1) {
			n.S[1], n.S[2] = g.str("pub"), ""
		}
	case "attlist":
		n.S = []Q{g.name()}
		if g.p(0.6) {
			for i := g.count(4); i > 0; i-- {
				n.Attr = append(n.Attr, g.node("dtdattr", depth+1))
			}
		}
	case "dtdattr":
		n.S = []Q{g.name(), Q(g.pick([]string{"CDATA", "ID", "NMTOKENS", "(a|b)"})), ""}
		n.I = g.r.Intn(5)
		if n.I == 0 && g.p(0.5) || n.I == 1 || n.I == 4 {
			n.S[2] = g.str("attr")
		}
		if g.isWild("dtd") {
			if g.p(0.05) {
				n.S[1] = ""
			}
			if g.p(0.1) {
				n.S[2] = g.str("attr")
			}
			if g.p(0.05) {
				n.I = g.r.Intn(9) - 2
			}
		}
	case "pi":
		n.S = []Q{g.name(), g.str("pi")}
		if g.isWild("pi") && g.p(0.15) {
			n.S[0] = Q(g.pick([]string{"xml", "XML", "xMl", "xmL", "xmlx", "xml-stylesheet"}))
		}
	case "dtdelem":
		n.S = []Q{g.name(), Q(g.pick([]string{"EMPTY", "ANY", "(#PCDATA)", "(a|b)*"}))}
		if g.isWild("dtd") && g.p(0.05) {
			n.S[1] = ""
		}
	case "entity":
		n.S = []Q{g.name(), "", "", "", ""}
		n.B = []bool{g.p(0.3)}
		if g.p(0.5) {
			n.S[1] = g.str("ent")
		} else {
			n.S[3] = g.str("sys")
			if g.p(0.5) {
				n.S[2] = g.str("pub")
			}
			if !n.B[0] && g.p(0.4) {
				n.S[4] = g.name()
			}
		}
		if g.isWild("dtd") && g.p(0.1) {
			n.S = []Q{g.name(), g.str("ent"), g.str("pub"), g.str("sys"), Q(g.pick([]string{"", "nd"}))}
		}
	case "notation":
		n.S = []Q{g.name(), "", ""}
		if g.p(0.6) {
			n.S[1] = g.str("pub")
		}
		if g.p(0.6) || n.S[1] == "" {
			n.S[2] = g.str("sys")
		}
	case "attr":
		return g.attr()
	}
	return n
}

var writables = []string{"elem", "comment", "cdata", "attlist", "text", "raw", "commentcontent", "cdatacontent", "pi", "dtdelem", "entity", "dtdattr", "notation", "attr"}
var startables = []string{"elem", "elem", "elem", "comment", "cdata", "doc", "dtd", "attlist"}

func (g *gen) kindFor(m *model, list []string) string {
	if g.p(0.04) {
		return g.pick(list)
	}
	for try := 0; try < 60; try++ {
		k := g.pick(list)
		if g.focus != "" && try < 8 && !strings.Contains(g.focus, "|"+k+"|") && g.p(0.7) {
			continue
		}
		if k == "raw" && !strings.Contains(g.focus, "|raw|") && g.p(0.7) {
			continue
		}
		t := m.top()
		if t == nil || k == "raw" || strings.Contains(parents[k], "|"+t.n.K+"|") && !(k == "attr" && t.opened) {
			if t == nil && try < 20 && len(list) == len(writables) && g.p(0.6) {
				continue
			}
			return k
		}
	}
	return g.pick(list)
}

func (g *gen) op(m *model) Op {
	t := m.top()
	x := g.r.Float64()
	wantStart := 0.3
	if t == nil {
		wantStart = 0.7
	}
	any := g.p(0.3)
	switch {
	case x < wantStart:
		o := Op{Op: "start", Any: any, Nodes: []N{g.node(g.kindFor(m, startables), 0)}}
		if g.p(0.05) {
			o.Nodes = append(o.Nodes, g.node("elem", 0))
		}
		return o
	case x < 0.75:
		k := g.kindFor(m, writables)
		if k == "attr" && g.p(0.4) {
			o := Op{Op: "attrs"}
			for i := g.count(4); i >= 0; i-- {
				o.Nodes = append(o.Nodes, g.attr())
			}
			return o
		}
		o := Op{Op: "write", Any: any, Nodes: []N{g.node(k, 0)}}
		if g.p(0.05) && k != "attr" {
			o.Nodes = append(o.Nodes, g.node(k, 0))
		}
		return o
	case x < 0.78:
		return Op{Op: "next"}
	case x < 0.80 && t != nil && (t.n.K == "elem" || t.n.K == "doc"):
		return Op{Op: "block", Nodes: []N{g.node("elem", 0), g.node("text", 0), g.node("elem", 0)}}
	}
	return g.endOp(m)
}

func (g *gen) endOp(m *model) Op {
	t := m.top()
	kind := int(kindOf["elem"])
	var names []Q
	if t != nil {
		kind = int(kindOf[t.n.K])
		if g.p(0.3) {
			switch t.n.K {
			case "elem":
				names = []Q{Q(t.n.s(2))}
				if g.p(0.4) {
					names = []Q{Q(t.n.s(0)), Q(t.n.s(2))}
				}
			case "dtd", "attlist":
				names = []Q{Q(t.n.s(0))}
			}
		}
	}
	bad := 0.05
	if strings.Contains(g.focus, "|end|") {
		bad = 0.25
	}
	if g.p(bad) {
		kind = g.r.Intn(19) - 1
	}
	if g.p(bad) {
		names = nil
		for i := g.r.Intn(4); i > 0; i-- {
			if t != nil && g.p(0.5) {
				names = append(names, Q(t.n.s([]int{0, 2}[g.r.Intn(2)])))
			} else {
				names = append(names, Q(g.pick([]string{"a", "b", "p", ""})))
			}
		}
	}
	x := g.r.Float64()
	switch {
	case x < 0.35:
		return Op{Op: "end", Kind: kind, Names: names}
	case x < 0.55:
		if kind != int(kindOf["elem"]) {
			names = nil
		}
		return Op{Op: "endname", Kind: kind, Names: names}
	case x < 0.7 && t != nil && t.n.K == "elem":
		return Op{Op: "endfull", Names: names}
	case x < 0.8:
		return Op{Op: "endany"}
	case x < 0.87:
		d := len(m.stack) - 2 - g.r.Intn(3)
		if g.p(bad) {
			d = g.r.Intn(8) - 3
		}
		i := d + 1
		if i >= 0 && i < len(m.stack) && g.p(0.9) {
			kind, names = int(kindOf[m.stack[i].n.K]), nil
			if m.stack[i].n.K == "elem" && g.p(0.5) {
				names = []Q{Q(m.stack[i].n.s(2))}
			}
		}
		return Op{Op: "enddepth", Depth: d, Kind: kind, Names: names}
	case x < 0.9:
		return Op{Op: "enddoc"}
	case x < 0.94:
		return Op{Op: "endall"}
	case x < 0.97:
		return Op{Op: "endallflush"}
	}
	return Op{Op: "flush"}
}

func (g *gen) script() *Script {
	s := &Script{}
	s.NoEnforce = g.p(0.12)
	s.NotStrict = g.p(0.15)
	if g.p(0.1) {
		s.Version = "1.1"
	}
	if g.isWild("indent") {
		s.Indented = true
		s.Indent = Q(g.pick([]string{" ", "\t", "    ", ""}))
	} else if g.p(0.1) {
		s.Indented, s.Indent = true, " "
	} else if g.p(0.06) {
		s.Wrap = true
	}
	if g.p(0.1) {
		nl := Q(g.pick([]string{"\r\n", "", "\n\n"}))
		if s.Indented {
			nl = "\r\n"
		}
		s.Newline = &nl
	}
	s.NoFlush = false
	m := newModel(s)
	n := 1 + g.r.Intn(14)
	if g.p(0.05) {
		n += g.r.Intn(60)
	}
	if g.p(0.06) { // deep nesting
		d := 5 + g.r.Intn(16)
		if g.p(0.1) {
			d += 50
		}
		for i := 0; i < d; i++ {
			o := Op{Op: "start", Nodes: []N{g.node("elem", 3)}}
			s.Ops = append(s.Ops, o)
			if m.step(o).stop {
				return s
			}
		}
	}
	for i := 0; i < n; i++ {
		o := g.op(m)
		s.Ops = append(s.Ops, o)
		if m.step(o).stop {
			if g.p(0.3) { // calls after an error must not panic
				for j := g.r.Intn(5); j > 0; j-- {
					s.Ops = append(s.Ops, g.op(m))
				}
			}
			return s
		}
	}
	if g.p(0.5) {
		s.Ops = append(s.Ops, Op{Op: g.pick([]string{"endall", "endallflush"})})
	}
	return s
}
