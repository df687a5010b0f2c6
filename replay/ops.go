package main

import (
	"fmt"
	"strconv"
	"strings"

	xw "github.com/shabbyrobe/xmlwriter"
)

// N describes a node to be written or started.
type N struct {
	K    string // elem comment cdata doc dtd attlist text raw commentcontent cdatacontent pi dtdelem entity dtdattr notation attr
	S    []Q    `json:",omitempty"` // string fields, in the order of the struct
	B    []bool `json:",omitempty"`
	I    int    `json:",omitempty"`
	Attr []N    `json:",omitempty"`
	Sub  []N    `json:",omitempty"`
}

// Q is a byte string; JSON carries it quoted in Go syntax so that invalid UTF-8
// survives.
type Q string

func (q Q) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%+q", string(q))), nil }
func (q *Q) UnmarshalText(b []byte) error {
	s, err := strconv.Unquote(string(b))
	*q = Q(s)
	return err
}

func (n N) s(i int) string {
	if i < len(n.S) {
		return string(n.S[i])
	}
	return ""
}
func (n N) b(i int) bool { return i < len(n.B) && n.B[i] }

// Op is one call of the writer's API.
type Op struct {
	Op    string // start write next end endname endfull endany enddoc endall enddepth flush endallflush block attrs
	Nodes []N    `json:",omitempty"`
	Kind  int    `json:",omitempty"`
	Names []Q    `json:",omitempty"`
	Depth int    `json:",omitempty"`
	Any   bool   `json:",omitempty"` // through Write/Start instead of the method for the kind
}

// Script is a sequence of calls on a new writer.
type Script struct {
	NoEnforce bool   `json:",omitempty"`
	NotStrict bool   `json:",omitempty"`
	Indent    Q      `json:",omitempty"`
	Indented  bool   `json:",omitempty"`
	Newline   *Q     `json:",omitempty"`
	Version   Q      `json:",omitempty"`
	BufSize   int    `json:",omitempty"`
	FailAt    int    `json:",omitempty"` // the destination fails after this many bytes (0: never)
	FailMode  string `json:",omitempty"` // error, short, once
	NoFlush   bool   `json:",omitempty"` // do not flush after every call
	Wrap      bool   `json:",omitempty"` // an indenter whose Wrap brackets its argument
	Ops       []Op
}

func mkAttr(n N) xw.Attr {
	return xw.Attr{Prefix: n.s(0), URI: n.s(1), Name: n.s(2), Value: n.s(3)}
}
func mkAttrs(ns []N) []xw.Attr {
	var out []xw.Attr
	for _, n := range ns {
		out = append(out, mkAttr(n))
	}
	return out
}
func mkDTDAttr(n N) xw.DTDAttr {
	return xw.DTDAttr{Name: n.s(0), Type: xw.DTDAttrType(n.s(1)), Value: n.s(2), Default: xw.DTDAttrDefaultType(n.I)}
}
func mkElem(n N) xw.Elem {
	e := xw.Elem{Prefix: n.s(0), URI: n.s(1), Name: n.s(2), Full: n.b(0), Attrs: mkAttrs(n.Attr)}
	if n.b(1) {
		e.Content = []xw.Writable{}
		if e.Attrs == nil {
			e.Attrs = []xw.Attr{}
		}
	}
	for _, c := range n.Sub {
		e.Content = append(e.Content, mkWritable(c))
	}
	return e
}
func mkDoc(n N) xw.Doc {
	d := xw.Doc{SuppressVersion: n.b(0), SuppressEncoding: n.b(1)}
	if n.b(2) {
		d = d.ForceVersion(n.s(0))
	}
	if n.b(3) {
		d = d.ForceEncoding(n.s(1))
	}
	if n.b(4) {
		d = d.WithStandalone(n.b(5))
	}
	return d
}
func mkAttList(n N) xw.DTDAttList {
	l := xw.DTDAttList{Name: n.s(0)}
	for _, a := range n.Attr {
		l.Attrs = append(l.Attrs, mkDTDAttr(a))
	}
	return l
}
func mkEntity(n N) xw.DTDEntity {
	return xw.DTDEntity{Name: n.s(0), Content: n.s(1), PublicID: n.s(2), SystemID: n.s(3), NDataID: n.s(4), IsPE: n.b(0)}
}
func mkDTD(n N) xw.DTD { return xw.DTD{Name: n.s(0), PublicID: n.s(1), SystemID: n.s(2)} }
func mkNotation(n N) xw.Notation {
	return xw.Notation{Name: n.s(0), PublicID: n.s(1), SystemID: n.s(2)}
}

func mkWritable(n N) xw.Writable {
	switch n.K {
	case "elem":
		return mkElem(n)
	case "comment":
		return xw.Comment{Content: n.s(0)}
	case "cdata":
		return xw.CData{Content: n.s(0)}
	case "attlist":
		return mkAttList(n)
	case "text":
		return xw.Text(n.s(0))
	case "raw":
		return xw.Raw(n.s(0))
	case "commentcontent":
		return xw.CommentContent(n.s(0))
	case "cdatacontent":
		return xw.CDataContent(n.s(0))
	case "pi":
		return xw.PI{Target: n.s(0), Content: n.s(1)}
	case "dtdelem":
		return xw.DTDElem{Name: n.s(0), Decl: n.s(1)}
	case "entity":
		return mkEntity(n)
	case "dtdattr":
		return mkDTDAttr(n)
	case "notation":
		return mkNotation(n)
	case "attr":
		return mkAttr(n)
	}
	panic("writable " + n.K)
}

func mkStartable(n N) xw.Startable {
	switch n.K {
	case "elem":
		return mkElem(n)
	case "comment":
		return xw.Comment{Content: n.s(0)}
	case "cdata":
		return xw.CData{Content: n.s(0)}
	case "attlist":
		return mkAttList(n)
	case "doc":
		return mkDoc(n)
	case "dtd":
		return mkDTD(n)
	}
	panic("startable " + n.K)
}

func names(q []Q) []string {
	var out []string
	for _, s := range q {
		out = append(out, string(s))
	}
	return out
}

func apply(w *xw.Writer, o Op) error {
	switch o.Op {
	case "start":
		if o.Any {
			var ss []xw.Startable
			for _, n := range o.Nodes {
				ss = append(ss, mkStartable(n))
			}
			return w.Start(ss...)
		}
		for _, n := range o.Nodes {
			var err error
			switch n.K {
			case "elem":
				err = w.StartElem(mkElem(n))
			case "comment":
				err = w.StartComment(xw.Comment{Content: n.s(0)})
			case "cdata":
				err = w.StartCData(xw.CData{Content: n.s(0)})
			case "attlist":
				err = w.StartDTDAttList(mkAttList(n))
			case "doc":
				err = w.StartDoc(mkDoc(n))
			case "dtd":
				err = w.StartDTD(mkDTD(n))
			}
			if err != nil {
				return err
			}
		}
		return nil
	case "write":
		if o.Any {
			var ss []xw.Writable
			for _, n := range o.Nodes {
				ss = append(ss, mkWritable(n))
			}
			return w.Write(ss...)
		}
		for _, n := range o.Nodes {
			var err error
			switch n.K {
			case "elem":
				err = w.WriteElem(mkElem(n))
			case "comment":
				err = w.WriteComment(xw.Comment{Content: n.s(0)})
			case "cdata":
				err = w.WriteCData(xw.CData{Content: n.s(0)})
			case "attlist":
				err = w.WriteDTDAttList(mkAttList(n))
			case "text":
				err = w.WriteText(n.s(0))
			case "raw":
				err = w.WriteRaw(n.s(0))
			case "commentcontent":
				err = w.WriteCommentContent(n.s(0))
			case "cdatacontent":
				err = w.WriteCDataContent(n.s(0))
			case "pi":
				err = w.WritePI(xw.PI{Target: n.s(0), Content: n.s(1)})
			case "dtdelem":
				err = w.WriteDTDElem(xw.DTDElem{Name: n.s(0), Decl: n.s(1)})
			case "entity":
				err = w.WriteDTDEntity(mkEntity(n))
			case "dtdattr":
				err = w.WriteDTDAttr(mkDTDAttr(n))
			case "notation":
				err = w.WriteNotation(mkNotation(n))
			case "attr":
				err = w.WriteAttr(mkAttr(n))
			}
			if err != nil {
				return err
			}
		}
		return nil
	case "attrs":
		return w.WriteAttr(mkAttrs(o.Nodes)...)
	case "block":
		var ss []xw.Writable
		for _, n := range o.Nodes[1:] {
			ss = append(ss, mkWritable(n))
		}
		return w.Block(mkStartable(o.Nodes[0]), ss...)
	case "next":
		return w.Next()
	case "end":
		return w.End(xw.NodeKind(o.Kind), names(o.Names)...)
	case "endname": // the method for the kind
		switch xw.NodeKind(o.Kind) {
		case xw.ElemNode:
			return w.EndElem(names(o.Names)...)
		case xw.CDataNode:
			return w.EndCData()
		case xw.CommentNode:
			return w.EndComment()
		case xw.DTDNode:
			return w.EndDTD()
		case xw.DTDAttListNode:
			return w.EndDTDAttList()
		}
		return w.End(xw.NodeKind(o.Kind))
	case "endfull":
		return w.EndElemFull(names(o.Names)...)
	case "endany":
		return w.EndAny()
	case "enddoc":
		return w.EndDoc()
	case "endall":
		return w.EndAll()
	case "enddepth":
		return w.EndToDepth(o.Depth, xw.NodeKind(o.Kind), names(o.Names)...)
	case "flush":
		return w.Flush()
	case "endallflush":
		return w.EndAllFlush()
	}
	panic("op " + o.Op)
}

func (n N) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", n.K)
	for _, s := range n.S {
		fmt.Fprintf(&b, " %+q", string(s))
	}
	for _, v := range n.B {
		fmt.Fprintf(&b, " %v", v)
	}
	if n.I != 0 {
		fmt.Fprintf(&b, " %d", n.I)
	}
	if len(n.Attr) > 0 {
		fmt.Fprintf(&b, " attrs%v", n.Attr)
	}
	if len(n.Sub) > 0 {
		fmt.Fprintf(&b, " content%v", n.Sub)
	}
	return b.String()
}

func (o Op) String() string {
	var b strings.Builder
	b.WriteString(o.Op)
	if o.Any {
		b.WriteString("*")
	}
	switch o.Op {
	case "end", "endname", "enddepth":
		fmt.Fprintf(&b, " kind=%d", o.Kind)
	}
	if o.Op == "enddepth" {
		fmt.Fprintf(&b, " depth=%d", o.Depth)
	}
	for _, n := range o.Names {
		fmt.Fprintf(&b, " %+q", string(n))
	}
	for _, n := range o.Nodes {
		fmt.Fprintf(&b, " {%s}", n.String())
	}
	return b.String()
}
