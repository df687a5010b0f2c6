# ---- the writer's stack of open nodes (writer.go, node.go)

def startable(k) = k == CommentNode || k == CDataNode || k == DocNode || k == DTDNode || k == DTDAttListNode || k == ElemNode
def flagOf(k) = ite(k == CommentNode, commentNodeFlag, ite(k == CDataNode, cDataNodeFlag, ite(k == DocNode, docNodeFlag,
    ite(k == DTDNode, dtdNodeFlag, ite(k == DTDAttListNode, dtdAttListNodeFlag, elemNodeFlag)))))
def nodeOK(kind, flag, children, state) = startable(kind) && flag == flagOf(kind) && children >= 0 && 0 <= state && state <= 2
rec lowOK(v []node, i int) bool down = i < 0 || (nodeOK(v[i].kind, v[i].flag, v[i].children, v[i].state) && v[i].state != StateOpen && v[i].children >= 1 && lowOK(v, i - 1))
def topOK(w) = nodeOK(w.nodes[w.current].kind, w.nodes[w.current].flag, w.nodes[w.current].children, w.nodes[w.current].state) &&
    implies(w.nodes[w.current].state == StateOpen, w.nodes[w.current].children == 0 && w.nodes[w.current].tail[0] == 0 && w.nodes[w.current].tail[1] == 0)
# the representation invariant; every operation keeps it, also when it fails
def live(w) = w != nil && w.printer.Writer != nil && 0 - 1 <= w.current && w.current < len(w.nodes) && implies(w.current >= 0, topOK(w)) && lowOK(w.nodes, w.current - 1)

def wrapOf(ind, s) = ite(ind == nil || istype(ind, *StandardIndenter), s, ufs("wrap", ind, s))
def full(p, n) = ite(p == "", n, p + ":" + n)
def nsDecl(prefix, uri) = attrD("xmlns:" + prefix, uri)

rec nsHas(v []ns, p string, i int) bool up = i < len(v) && (v[i].prefix == p || nsHas(v, p, i + 1))
rec nsUri(v []ns, p string, i int) string up = ite(i >= len(v), "", ite(v[i].prefix == p, v[i].uri, nsUri(v, p, i + 1)))
rec attrsB(v []Attr, i int) string up = ite(i >= len(v), "", attrD(full(v[i].Prefix, v[i].Name), v[i].Value) + attrsB(v, i + 1))
rec attrsPlain(v []Attr, i int) bool up = i >= len(v) || ((v[i].Prefix == "" || v[i].URI == "") && attrsPlain(v, i + 1))
# declarations of the first i+1 namespaces that have not been written yet
rec nsD(v []ns, i int) string down = ite(i < 0, "", nsD(v, i - 1) + ite(v[i].written, "", nsDecl(v[i].prefix, v[i].uri)))

def elemHead(p, uri, n) = "<" + full(p, n) + ite(p != "" && uri != "", nsDecl(p, uri), "")
def commentC(ind, c) = ite(c == "", "", wrapOf(ind, c))
rec serC(c deep[]Writable, i int, ind int) string up = ite(i >= len(c), "",
    ite(istype(c[i], Text), escT(wrapOf(ind, as(c[i], Text)), 0),
    ite(istype(c[i], Comment), "<!--" + commentC(ind, as(c[i], Comment).Content) + "-->",
    ite(istype(c[i], CData), "<![CDATA[" + as(c[i], CData).Content + "]]>",
    ite(istype(c[i], Elem), elemHead(as(c[i], Elem).Prefix, as(c[i], Elem).URI, as(c[i], Elem).Name) + attrsB(as(c[i], Elem).Attrs, 0) +
        ite(!as(c[i], Elem).Full && len(as(c[i], Elem).Content) == 0, "/>", ">" + serC(as(c[i], Elem).Content, 0, ind) + "</" + full(as(c[i], Elem).Prefix, as(c[i], Elem).Name) + ">"), "")))) + serC(c, i + 1, ind))
rec plainC(c deep[]Writable, i int) bool up = i >= len(c) || (implies(istype(c[i], Elem), attrsPlain(as(c[i], Elem).Attrs, 0) && plainC(as(c[i], Elem).Content, 0)) && plainC(c, i + 1))

# ---- DTD attribute definitions
def dtdDefault(dflt, value) = ite(dflt == DTDAttrInfer, ite(value != "", DTDAttrDefault, DTDAttrImplied), dflt)
def dtdAttrB(name, typ, dflt, value) = " " + name + " " + typ + " " + ite(dtdDefault(dflt, value) == DTDAttrDefault, "\"" + escV(value, 0) + "\"",
    ite(dtdDefault(dflt, value) == DTDAttrFixed, "#FIXED \"" + escV(value, 0) + "\"", ite(dtdDefault(dflt, value) == DTDAttrRequired, "#REQUIRED", "#IMPLIED")))
rec attlistB(v []DTDAttr, i int) string up = ite(i >= len(v), "", dtdAttrB(v[i].Name, v[i].Type, v[i].Default, v[i].Value) + attlistB(v, i + 1))

# ---- what is still owed for the current node
def nsOwed(w) = nsD(w.nodes[w.current].elem.namespaces, len(w.nodes[w.current].elem.namespaces) - 1)
def isOpen(w) = w.current >= 0 && w.nodes[w.current].state == StateOpen
# written when the first child arrives
def pend(w) = ite(!isOpen(w), "", ite(w.nodes[w.current].kind == ElemNode, nsOwed(w) + ">" + serC(w.nodes[w.current].elem.Content, 0, w.Indenter),
    ite(w.nodes[w.current].kind == CommentNode, commentC(w.Indenter, w.nodes[w.current].comment.Content),
    ite(w.nodes[w.current].kind == CDataNode, w.nodes[w.current].cdata.Content,
    ite(w.nodes[w.current].kind == DTDNode, " [",
    ite(w.nodes[w.current].kind == DTDAttListNode, attlistB(w.nodes[w.current].dtdAttList.Attrs, 0), ""))))))
def pendPlain(w) = implies(isOpen(w) && w.nodes[w.current].kind == ElemNode, plainC(w.nodes[w.current].elem.Content, 0))

# the end of a node that has been opened
def closeK(kind, prefix, name, children) = ite(kind == ElemNode, "</" + full(prefix, name) + ">", ite(kind == CommentNode, "-->", ite(kind == CDataNode, "]]>",
    ite(kind == DTDNode, ite(children > 0, "]>", ">"), ite(kind == DTDAttListNode, ">", "")))))
def closeTop(w) = closeK(w.nodes[w.current].kind, w.nodes[w.current].elem.Prefix, w.nodes[w.current].elem.Name, w.nodes[w.current].children)
# what ending the current node writes
def popTop(w) = ite(isOpen(w) && w.nodes[w.current].kind == ElemNode && !w.nodes[w.current].elem.Full && len(w.nodes[w.current].elem.Content) == 0, nsOwed(w) + "/>",
    ite(isOpen(w) && w.nodes[w.current].kind == DTDNode, ">", pend(w) + closeTop(w)))
rec closeLow(v []node, i int) string down = ite(i < 0, "", closeK(v[i].kind, v[i].elem.Prefix, v[i].elem.Name, v[i].children) + closeLow(v, i - 1))
# what ending every node writes
def closing(w) = ite(w.current < 0, "", popTop(w) + closeLow(w.nodes, w.current - 1))

def sameTop(w) = w.nodes[w.current].kind == old(w.nodes[w.current].kind) && w.nodes[w.current].flag == old(w.nodes[w.current].flag) &&
    w.nodes[w.current].elem.Prefix == old(w.nodes[w.current].elem.Prefix) && w.nodes[w.current].elem.Name == old(w.nodes[w.current].elem.Name) &&
    w.nodes[w.current].elem.Full == old(w.nodes[w.current].elem.Full) && w.nodes[w.current].dtd.Name == old(w.nodes[w.current].dtd.Name) && w.nodes[w.current].dtdAttList.Name == old(w.nodes[w.current].dtdAttList.Name)
# the node that was current is still there, opened
def kept(w) = implies(old(w.current) >= 0, w.nodes[old(w.current)].kind == old(w.nodes[w.current].kind) && w.nodes[old(w.current)].flag == old(w.nodes[w.current].flag) &&
    w.nodes[old(w.current)].elem.Prefix == old(w.nodes[w.current].elem.Prefix) && w.nodes[old(w.current)].elem.Name == old(w.nodes[w.current].elem.Name) &&
    w.nodes[old(w.current)].elem.Full == old(w.nodes[w.current].elem.Full) && w.nodes[old(w.current)].dtd.Name == old(w.nodes[w.current].dtd.Name) && w.nodes[old(w.current)].dtdAttList.Name == old(w.nodes[w.current].dtdAttList.Name) &&
    w.nodes[old(w.current)].state != StateOpen && w.nodes[old(w.current)].children >= 1 && w.nodes[old(w.current)].children >= old(w.nodes[w.current].children) &&
    implies(old(w.nodes[w.current].state) != StateOpen, w.nodes[old(w.current)].state == old(w.nodes[w.current].state)))
def bottom(w) = ite(w.current < 0, 0, w.current)

zeropayload Elem .namespaces

# the last two bytes of a comment's or CDATA section's content, its pending content included
def t1(b, s) = ite(len(s) == 0, b, at(s, len(s) - 1))
def t0(a, b, s) = ite(len(s) >= 2, at(s, len(s) - 2), ite(len(s) == 1, b, a))
def ownContent(w) = ite(!isOpen(w), "", ite(w.nodes[w.current].kind == CommentNode, commentC(w.Indenter, w.nodes[w.current].comment.Content), ite(w.nodes[w.current].kind == CDataNode, w.nodes[w.current].cdata.Content, "")))
def et1(w) = t1(w.nodes[w.current].tail[1], ownContent(w))
def et0(w) = t0(w.nodes[w.current].tail[0], w.nodes[w.current].tail[1], ownContent(w))
def hasContent(w) = w.current >= 0 && (w.nodes[w.current].kind == CommentNode || w.nodes[w.current].kind == CDataNode)

# what the rules of comments and CDATA sections ask of their content
def comOK(enforce, strict, s) = !enforce || (!contains(s, "--") && charsOK(s, 0, strict))
def cdOK(enforce, strict, s) = !enforce || (!contains(s, "]]>") && charsOK(s, 0, strict))
def ownOK(w) = ite(!isOpen(w), true, ite(w.nodes[w.current].kind == CommentNode, comOK(w.Enforce, w.StrictChars, ownContent(w)), ite(w.nodes[w.current].kind == CDataNode, cdOK(w.Enforce, w.StrictChars, ownContent(w)), true)))

# where a node may stand
def atTop(w) = w.current < 0
def inside(w, k) = w.current >= 0 && w.nodes[w.current].kind == k
def elemPlace(w) = atTop(w) || inside(w, DocNode) || inside(w, ElemNode)
def elemOnly(w) = atTop(w) || inside(w, ElemNode)
def commentPlace(w) = atTop(w) || inside(w, DocNode) || inside(w, DTDNode) || inside(w, ElemNode)
def dtdPlace(w) = atTop(w) || inside(w, DocNode)
def declPlace(w) = atTop(w) || inside(w, DTDNode)
def attlistPlace(w) = atTop(w) || inside(w, DTDAttListNode)

# ---- what the rules accept
def std0(w) = w.Indenter == nil || istype(w.Indenter, *StandardIndenter)
def nameRule(e, s) = !e || (s != "" && nameAcc(s))
rec attrsAcc(v []Attr, i int, e bool) bool up = i >= len(v) || (nameRule(e, full(v[i].Prefix, v[i].Name)) && (v[i].Prefix == "" || v[i].URI == "") && attrsAcc(v, i + 1, e))
def elemAcc(e, p, u, n) = nameRule(e, full(p, n)) && implies(e && p != "" && u != "", nameAcc("xmlns:" + p))
def comAcc(e, s, ind, c) = comOK(e, s, commentC(ind, c)) && implies(e, t1(0, commentC(ind, c)) != '-')
rec contAcc(c deep[]Writable, i int, e bool, s bool, ind int) bool up = i >= len(c) || (ite(istype(c[i], Text), true, ite(istype(c[i], Comment), comAcc(e, s, ind, as(c[i], Comment).Content),
    ite(istype(c[i], CData), cdOK(e, s, as(c[i], CData).Content), istype(c[i], Elem) && elemAcc(e, as(c[i], Elem).Prefix, as(c[i], Elem).URI, as(c[i], Elem).Name) &&
        attrsAcc(as(c[i], Elem).Attrs, 0, e) && contAcc(as(c[i], Elem).Content, 0, e, s, ind)))) && contAcc(c, i + 1, e, s, ind))
def dtdAttrAcc(e, name, typ, dflt, value) = nameRule(e, name) && implies(e, typ != "") && 0 <= dflt && dflt <= DTDAttrFixed && implies(dflt == DTDAttrRequired || dflt == DTDAttrImplied, value == "")
rec attlistAcc(v []DTDAttr, i int, e bool) bool up = i >= len(v) || (dtdAttrAcc(e, v[i].Name, v[i].Type, v[i].Default, v[i].Value) && attlistAcc(v, i + 1, e))
rec nsNames(v []ns, i int, e bool) bool down all = i < 0 || (implies(e, nameAcc("xmlns:" + v[i].prefix)) && nsNames(v, i - 1, e))
# the content the current node still owes breaks no rule
def pendAcc(w) = ite(!isOpen(w), true, ite(w.nodes[w.current].kind == ElemNode, contAcc(w.nodes[w.current].elem.Content, 0, w.Enforce, w.StrictChars, w.Indenter) && nsNames(w.nodes[w.current].elem.namespaces, len(w.nodes[w.current].elem.namespaces) - 1, w.Enforce),
    ite(w.nodes[w.current].kind == DTDAttListNode, attlistAcc(w.nodes[w.current].dtdAttList.Attrs, 0, w.Enforce), ownOK(w))))
# a call that fails although the destination did not
def failed(w, err) = err != nil && std0(w) && ioerr(w) == 0

# ---- line breaks the standard indenter may insert
# what a break may stand directly before, and what it may follow
def breakNext(k, s) = ((k == ElemNode || k == DTDNode || k == DTDAttListNode) && (s == StateOpen || s == StateEnded)) || (k == CommentNode && s == StateOpen) ||
    k == DTDEntityNode || k == DTDAttrNode || k == DTDElemNode || k == NotationNode
def breakLast(k) = k == ElemNode || k == DTDNode || k == DTDAttListNode || k == CommentNode || k == DTDEntityNode || k == DTDAttrNode || k == DTDElemNode || k == NotationNode
def mayBreak(last, next) = breakLast(last.Node) && breakNext(next.Node, next.State) && !(next.Node == ElemNode && next.State == StateEnded && next.Children == 0)
# the byte that must come next after a break
def breakByte(next) = ite(next.Node == DTDAttrNode, ' ', ite(next.Node == DTDAttListNode && next.State == StateEnded, '>', ite(next.Node == DTDNode && next.State == StateEnded, ite(next.Children > 0, ']', '>'), '<')))
# every break so far stands where it may
def breaksOK(w) = bgood(w) == 1 && bp(w) == 0

erased Indenter.Indent (ind, w, last, next) (err)
  requires w != nil && w.printer.Writer != nil
  ensures bp(w) == ite(istype(ind, *StandardIndenter) && mayBreak(last, next), breakByte(next), old(bp(w)))
  ensures bgood(w) == ite(istype(ind, *StandardIndenter) && mayBreak(last, next) && (old(bp(w)) != 0 || !breakLast(old(w.last.Node))), 0, old(bgood(w)))
  ensures implies(err != nil && istype(ind, *StandardIndenter), ioerr(w) != 0)
  modifies ioerr(w), breaks(w), heap(StandardIndenter), heap(indentLevel)

iface Indenter.Wrap (ind, content) (r)
  ensures r == wrapOf(ind, content)


block writes
  requires live(w)
  ensures [live] live(w)
  ensures [C09 current] w.current >= old(w.current) && implies(err == nil, w.current == old(w.current))
  ensures [C09 kept] implies(err == nil, kept(w))
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  modifies ghost(w), w.current, w.last, elems(w.nodes, bottom(w)), heap(ns), heap(StandardIndenter), heap(indentLevel)

block starts
  requires live(w)
  ensures [live] live(w)
  ensures [C09 current] w.current >= old(w.current) && implies(err == nil, w.current == old(w.current) + 1)
  ensures [C09 kept] implies(err == nil, kept(w))
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C09 open] implies(err == nil, w.nodes[w.current].state == StateOpen && w.nodes[w.current].children == 0 && w.nodes[w.current].tail[0] == 0 && w.nodes[w.current].tail[1] == 0)
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  modifies ghost(w), w.current, w.last, elems(w.nodes, bottom(w)), heap(ns), heap(StandardIndenter), heap(indentLevel)

# a node that may not stand here: nothing is written, nothing changes
def refused(w, err) = err != nil && out(w) == old(out(w)) && w.current == old(w.current) &&
    implies(w.current >= 0, w.nodes[w.current].state == old(w.nodes[w.current].state) && w.nodes[w.current].children == old(w.nodes[w.current].children))

# the current node is opened: its own content is written
def openedTop(w) = ite(w.nodes[w.current].kind == ElemNode, nsOwed(w) + ite(w.nodes[w.current].children == 0 && !w.nodes[w.current].elem.Full && len(w.nodes[w.current].elem.Content) == 0, "/>",
    ">" + serC(w.nodes[w.current].elem.Content, 0, w.Indenter)),
    ite(w.nodes[w.current].kind == DTDNode, ite(w.nodes[w.current].children > 0, " [", ""), pend(w)))
func node.opened (n, w) (err)
  bind n = w.nodes[w.current]
  requires w != nil && w.printer.Writer != nil && 0 <= w.current && w.current < len(w.nodes) && lowOK(w.nodes, w.current - 1)
  requires nodeOK(w.nodes[w.current].kind, w.nodes[w.current].flag, w.nodes[w.current].children, w.nodes[w.current].state) && w.nodes[w.current].state == StateOpen && w.nodes[w.current].tail[0] == 0 && w.nodes[w.current].tail[1] == 0
  ensures [live] live(w)
  ensures [C09 current] w.current >= old(w.current) && implies(err == nil, w.current == old(w.current))
  ensures [C09 kept] implies(err == nil, sameTop(w) && w.nodes[w.current].state == StateOpened && w.nodes[w.current].children >= old(w.nodes[w.current].children))
  ensures [C09 children] implies(err == nil && w.nodes[w.current].kind == ElemNode, ite(old(len(w.nodes[w.current].elem.Content)) == 0, w.nodes[w.current].children == old(w.nodes[w.current].children), w.nodes[w.current].children >= 1))
  ensures [C09 children] implies(err == nil && w.nodes[w.current].kind == DTDNode, w.nodes[w.current].children == old(w.nodes[w.current].children))
  ensures [C05 tail] implies(err == nil && old(hasContent(w)), w.nodes[w.current].tail[0] == old(et0(w)) && w.nodes[w.current].tail[1] == old(et1(w)))
  ensures [C05 rejects] implies(err == nil, old(ownOK(w)))
  ensures [C09,C19 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(openedTop(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C20 accepts] implies(failed(w, err), !old(pendAcc(w)))
  modifies ghost(w), w.current, w.last, elems(w.nodes, w.current), heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.Next (w) (err) surface
  use writes
  ensures [C05 tail] implies(err == nil && old(hasContent(w)), w.nodes[w.current].tail[0] == old(et0(w)) && w.nodes[w.current].tail[1] == old(et1(w)))
  ensures [C05 rejects] implies(err == nil, old(ownOK(w)))
  ensures [C09,C19 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)))
  ensures [C13 last] implies(err == nil && !old(isOpen(w)), w.last == old(w.last))
  ensures [C20 accepts] implies(failed(w, err), !old(pendAcc(w)))

# makes room for a new node and opens the current one
func Writer.pushBegin (w, kind, parents) (err)
  use writes
  ensures [room] implies(err == nil, len(w.nodes) > w.current + 1)
  ensures [C07 place] implies(old(w.Enforce && ite(w.current < 0, noNodeFlag, w.nodes[w.current].flag) & parents == 0), refused(w, err))
  ensures [C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && ite(w.current < 0, noNodeFlag, w.nodes[w.current].flag) & parents == 0) || !old(pendAcc(w)))

func Text.write (t, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !elemOnly(w)), refused(w, err))
  ensures [C01 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + escT(wrapOf(w.Indenter, t), 0))
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == TextNode)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !elemOnly(w)) || !old(pendAcc(w)))

func Raw.write (t, w) (err) surface
  requires live(w)
  ensures [live] live(w)
  ensures [C19 bytes] implies(err == nil, out(w) == old(out(w)) + t)
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == RawNode)
  ensures [C20 accepts] implies(failed(w, err), false)
  modifies ghost(w), w.last, heap(StandardIndenter), heap(indentLevel)

func CommentContent.write (c, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !(atTop(w) || inside(w, CommentNode))), refused(w, err))
  ensures [C05 rejects] implies(err == nil, comOK(w.Enforce, w.StrictChars, wrapOf(w.Indenter, c)) && implies(w.Enforce, old(ownOK(w))))
  ensures [C05 split] implies(err == nil && w.Enforce && w.current >= 0 && wrapOf(w.Indenter, c) != "", !(old(et1(w)) == '-' && at(wrapOf(w.Indenter, c), 0) == '-'))
  ensures [C05 tail] implies(err == nil && old(inside(w, CommentNode)), w.nodes[w.current].tail[0] == t0(old(et0(w)), old(et1(w)), wrapOf(w.Indenter, c)) && w.nodes[w.current].tail[1] == t1(old(et1(w)), wrapOf(w.Indenter, c)))
  ensures [C05 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + wrapOf(w.Indenter, c))
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == CommentContentNode)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !(atTop(w) || inside(w, CommentNode))) || !old(pendAcc(w)) || !comOK(w.Enforce, w.StrictChars, wrapOf(w.Indenter, c)) || (w.Enforce && old(w.current) >= 0 && wrapOf(w.Indenter, c) != "" && old(et1(w)) == '-' && at(wrapOf(w.Indenter, c), 0) == '-'))

func CDataContent.write (c, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !(atTop(w) || inside(w, CDataNode))), refused(w, err))
  ensures [C05 rejects] implies(err == nil, cdOK(w.Enforce, w.StrictChars, c) && implies(w.Enforce, old(ownOK(w))))
  ensures [C05 split] implies(err == nil && w.Enforce && w.current >= 0, !(old(et1(w)) == ']' && ((len(c) >= 2 && at(c, 0) == ']' && at(c, 1) == '>') || (old(et0(w)) == ']' && len(c) >= 1 && at(c, 0) == '>'))))
  ensures [C05 tail] implies(err == nil && old(inside(w, CDataNode)), w.nodes[w.current].tail[0] == t0(old(et0(w)), old(et1(w)), c) && w.nodes[w.current].tail[1] == t1(old(et1(w)), c))
  ensures [C05 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + c)
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == CDataContentNode)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !(atTop(w) || inside(w, CDataNode))) || !old(pendAcc(w)) || !cdOK(w.Enforce, w.StrictChars, c) || (w.Enforce && old(w.current) >= 0 && old(et1(w)) == ']' && ((len(c) >= 2 && at(c, 0) == ']' && at(c, 1) == '>') || (old(et0(w)) == ']' && len(c) >= 1 && at(c, 0) == '>'))))

func Comment.start (c, w) (err) surface
  use starts
  ensures [C07 place] implies(old(w.Enforce && !commentPlace(w)), refused(w, err))
  ensures [C09 node] implies(err == nil, w.nodes[w.current].kind == CommentNode && w.nodes[w.current].comment.Content == c.Content)
  ensures [C05 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!--")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !commentPlace(w)) || !old(pendAcc(w)))
  ensures [C20 pending] implies(err == nil && comOK(w.Enforce, w.StrictChars, commentC(w.Indenter, c.Content)), pendAcc(w))

func CData.start (c, w) (err) surface
  use starts
  ensures [C07 place] implies(old(w.Enforce && !elemOnly(w)), refused(w, err))
  ensures [C09 node] implies(err == nil, w.nodes[w.current].kind == CDataNode && w.nodes[w.current].cdata.Content == c.Content)
  ensures [C05 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<![CDATA[")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !elemOnly(w)) || !old(pendAcc(w)))
  ensures [C20 pending] implies(err == nil && cdOK(w.Enforce, w.StrictChars, c.Content), pendAcc(w))

func Elem.start (e, w) (err) surface
  requires len(e.namespaces) == 0 && cap(e.namespaces) == 0
  use starts
  ensures [C07 place] implies(old(w.Enforce && !elemPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, full(e.Prefix, e.Name) != "" && nameAcc(full(e.Prefix, e.Name)))
  ensures [C09 node] implies(err == nil, w.nodes[w.current].kind == ElemNode && w.nodes[w.current].elem.Prefix == e.Prefix && w.nodes[w.current].elem.URI == e.URI &&
      w.nodes[w.current].elem.Name == e.Name && w.nodes[w.current].elem.Full == e.Full && w.nodes[w.current].elem.Content == e.Content)
  ensures [C10 plain] implies(err == nil && attrsPlain(e.Attrs, 0), nsOwed(w) == "")
  ensures [C10 declared] implies(err == nil && e.Prefix != "" && e.URI != "", len(w.nodes[w.current].elem.namespaces) >= 1 && w.nodes[w.current].elem.namespaces[0].prefix == e.Prefix && w.nodes[w.current].elem.namespaces[0].uri == e.URI && w.nodes[w.current].elem.namespaces[0].written)
  ensures [C10 none] implies(err == nil && (e.Prefix == "" || e.URI == "") && len(e.Attrs) == 0, len(w.nodes[w.current].elem.namespaces) == 0)
  ensures [C02,C09,C17 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + elemHead(e.Prefix, e.URI, e.Name) + attrsB(e.Attrs, 0))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !elemPlace(w)) || !old(pendAcc(w)) || !elemAcc(w.Enforce, e.Prefix, e.URI, e.Name) || !attrsAcc(e.Attrs, 0, w.Enforce))
  ensures [C20 pending] implies(err == nil && elemAcc(w.Enforce, e.Prefix, e.URI, e.Name) && attrsAcc(e.Attrs, 0, w.Enforce) && contAcc(e.Content, 0, w.Enforce, w.StrictChars, w.Indenter), pendAcc(w))

func DTDAttList.start (d, w) (err) surface
  use starts
  ensures [C07 place] implies(old(w.Enforce && !declPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, d.Name != "" && nameAcc(d.Name))
  ensures [C09 node] implies(err == nil, w.nodes[w.current].kind == DTDAttListNode && w.nodes[w.current].dtdAttList.Name == d.Name && w.nodes[w.current].dtdAttList.Attrs == d.Attrs)
  ensures [C14 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!ATTLIST " + d.Name)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !declPlace(w)) || !old(pendAcc(w)) || !nameRule(w.Enforce, d.Name))
  ensures [C20 pending] implies(err == nil && attlistAcc(d.Attrs, 0, w.Enforce), pendAcc(w))

func DTD.start (d, w) (err) surface
  use starts
  ensures [C07 place] implies(old(w.Enforce && !dtdPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, d.Name != "" && nameAcc(d.Name))
  ensures [C06 literals] implies(err == nil && w.Enforce, !badExt(d.PublicID, d.SystemID))
  ensures [C09 node] implies(err == nil, w.nodes[w.current].kind == DTDNode && w.nodes[w.current].dtd.Name == d.Name)
  ensures [C06,C14 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!DOCTYPE " + d.Name + ite(d.PublicID == "" && d.SystemID == "", "", " " + extID(d.PublicID, d.SystemID)))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !dtdPlace(w)) || !old(pendAcc(w)) || !nameRule(w.Enforce, d.Name) || (w.Enforce && badExt(d.PublicID, d.SystemID)))
  ensures [C20 pending] implies(err == nil, pendAcc(w))

# ---- ending

# nothing the open nodes hold forbids ending them
rec lowAcc(v []node, i int) bool down = i < 0 || (!(v[i].kind == CommentNode && v[i].tail[1] == '-') && lowAcc(v, i - 1))
def topEnd(w) = implies(w.Enforce && inside(w, CommentNode), et1(w) != '-')
def endAcc(w) = pendAcc(w) && topEnd(w) && implies(w.Enforce, lowAcc(w.nodes, w.current - 1))
def nameOf(w, kind) = ite(kind == ElemNode, w.nodes[w.current].elem.Name, ite(kind == DTDNode, w.nodes[w.current].dtd.Name, w.nodes[w.current].dtdAttList.Name))
def endMatches(w, kind, name) = w.current >= 0 && w.nodes[w.current].kind == kind && (len(name) == 0 ||
    (len(name) == 1 && (kind == ElemNode || kind == DTDNode || kind == DTDAttListNode) && nameOf(w, kind) == name[0]) ||
    (len(name) == 2 && kind == ElemNode && w.nodes[w.current].elem.Prefix == name[0] && w.nodes[w.current].elem.Name == name[1]))

block pops
  requires live(w)
  ensures [live] live(w)
  ensures [C08 empty] implies(old(w.current) < 0, refused(w, err))
  ensures [C08 popped] w.current >= old(w.current) || (err == nil && w.current == old(w.current) - 1)
  ensures [C08 done] implies(err == nil, w.current == old(w.current) - 1)
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C05 end] implies(err == nil && w.Enforce && old(inside(w, CommentNode)), old(et1(w)) != '-')
  ensures [C05 rejects] implies(err == nil, old(ownOK(w)))
  ensures [C08,C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(popTop(w)))
  ensures [C08,C09 below] implies(err == nil, pendPlain(w) && closing(w) == old(closeLow(w.nodes, w.current - 1)))
  ensures [C20 below] implies(err == nil, pendAcc(w) && implies(old(implies(w.Enforce, lowAcc(w.nodes, w.current - 1))), endAcc(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C13 last] implies(err == nil && w.Indenter != nil && old(inside(w, CDataNode)), w.last.Node == CDataNode)
  modifies ghost(w), w.current, w.last, elems(w.nodes, bottom(w)), heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.pop (w, kinds) (err)
  requires len(kinds) <= 1
  use pops
  ensures [C08 mismatch] implies(len(kinds) == 1 && old(w.current) >= 0 && old(w.nodes[w.current].kind) != kinds[0], refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), old(w.current) < 0 || !old(pendAcc(w)) || !old(topEnd(w)) || (len(kinds) == 1 && old(w.nodes[w.current].kind) != kinds[0]))

func Writer.End (w, kind, name) (err) surface
  use pops
  ensures [C08 mismatch] implies(!old(endMatches(w, kind, name)), refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), !old(endMatches(w, kind, name)) || !old(pendAcc(w)) || !old(topEnd(w)))

func Writer.EndAny (w) (err) surface
  use pops
  ensures [C20 accepts] implies(failed(w, err), old(w.current) < 0 || !old(pendAcc(w)) || !old(topEnd(w)))

# ---- whole nodes

func Comment.write (c, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !commentPlace(w)), refused(w, err))
  ensures [C05 rejects] implies(err == nil && w.Enforce, comOK(true, w.StrictChars, commentC(w.Indenter, c.Content)) && t1(0, commentC(w.Indenter, c.Content)) != '-')
  ensures [C05,C17 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!--" + commentC(w.Indenter, c.Content) + "-->")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !commentPlace(w)) || !old(pendAcc(w)) || !comAcc(w.Enforce, w.StrictChars, w.Indenter, c.Content))

func CData.write (c, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !elemOnly(w)), refused(w, err))
  ensures [C05 rejects] implies(err == nil, cdOK(w.Enforce, w.StrictChars, c.Content))
  ensures [C05,C17 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<![CDATA[" + c.Content + "]]>")
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == CDataNode)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !elemOnly(w)) || !old(pendAcc(w)) || !cdOK(w.Enforce, w.StrictChars, c.Content))

func Elem.write (e, w) (err) surface
  requires len(e.namespaces) == 0 && cap(e.namespaces) == 0
  use writes
  ensures [C07 place] implies(old(w.Enforce && !elemPlace(w)), refused(w, err))
  ensures [C09,C17 bytes] implies(err == nil && old(pendPlain(w)) && attrsPlain(e.Attrs, 0) && plainC(e.Content, 0), out(w) == old(out(w)) + old(pend(w)) +
      elemHead(e.Prefix, e.URI, e.Name) + attrsB(e.Attrs, 0) + ite(!e.Full && len(e.Content) == 0, "/>", ">" + serC(e.Content, 0, w.Indenter) + "</" + full(e.Prefix, e.Name) + ">"))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !elemPlace(w)) || !old(pendAcc(w)) || !elemAcc(w.Enforce, e.Prefix, e.URI, e.Name) || !attrsAcc(e.Attrs, 0, w.Enforce) || !contAcc(e.Content, 0, w.Enforce, w.StrictChars, w.Indenter))

func DTDAttList.write (d, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !declPlace(w)), refused(w, err))
  ensures [C14,C17 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!ATTLIST " + d.Name + attlistB(d.Attrs, 0) + ">")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !declPlace(w)) || !old(pendAcc(w)) || !nameRule(w.Enforce, d.Name) || !attlistAcc(d.Attrs, 0, w.Enforce))

func DTDAttr.write (d, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !attlistPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, d.Name != "" && nameAcc(d.Name))
  ensures [C14 rejects] implies(err == nil, 0 <= d.Default && d.Default <= DTDAttrFixed && implies(d.Default == DTDAttrRequired || d.Default == DTDAttrImplied, d.Value == ""))
  ensures [C02,C14 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + dtdAttrB(d.Name, d.Type, d.Default, d.Value))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !attlistPlace(w)) || !old(pendAcc(w)) || !dtdAttrAcc(w.Enforce, d.Name, d.Type, d.Default, d.Value))

# ---- attributes of the open element
def nsList(w) = w.nodes[w.current].elem.namespaces
def declares(w, a) = w.current >= 0 && a.Prefix != "" && a.URI != ""

func Attr.write (a, w) (err) surface
  requires live(w)
  ensures [live] live(w)
  ensures [C07 place] implies(old(w.Enforce && (!elemOnly(w) || (w.current >= 0 && w.nodes[w.current].state != StateOpen))), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, full(a.Prefix, a.Name) != "" && nameAcc(full(a.Prefix, a.Name)))
  ensures [C02,C09 bytes] implies(err == nil, out(w) == old(out(w)) + attrD(full(a.Prefix, a.Name), a.Value))
  ensures [C10 conflict] implies(old(declares(w, a) && nsHas(nsList(w), a.Prefix, 0) && nsUri(nsList(w), a.Prefix, 0) != a.URI), err != nil)
  ensures [C10 once] implies(err == nil && old(declares(w, a) && nsHas(nsList(w), a.Prefix, 0)), nsOwed(w) == old(nsOwed(w)) && len(nsList(w)) == old(len(nsList(w))))
  ensures [C10 first] implies(err == nil && old(declares(w, a) && !nsHas(nsList(w), a.Prefix, 0)), nsOwed(w) == old(nsOwed(w)) + nsDecl(a.Prefix, a.URI) && len(nsList(w)) == old(len(nsList(w))) + 1 &&
      nsList(w)[len(nsList(w)) - 1].prefix == a.Prefix && nsList(w)[len(nsList(w)) - 1].uri == a.URI)
  ensures [C10 rejected] implies(err != nil && w.current >= 0, len(nsList(w)) >= old(len(nsList(w))))
  ensures [C10 plain] implies(w.current >= 0 && (a.Prefix == "" || a.URI == ""), nsOwed(w) == old(nsOwed(w)) && len(w.nodes[w.current].elem.namespaces) == old(len(w.nodes[w.current].elem.namespaces)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == AttrNode)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && (!elemOnly(w) || (w.current >= 0 && w.nodes[w.current].state != StateOpen))) || !nameRule(w.Enforce, full(a.Prefix, a.Name)) || old(declares(w, a) && nsHas(nsList(w), a.Prefix, 0) && nsUri(nsList(w), a.Prefix, 0) != a.URI))
  ensures [C20 pending] implies(err == nil && old(pendAcc(w)) && implies(w.Enforce && a.Prefix != "" && a.URI != "", nameAcc("xmlns:" + a.Prefix)), pendAcc(w))
  modifies ghost(w), w.last, elems(w.nodes[w.current].elem.namespaces, len(w.nodes[w.current].elem.namespaces)) if w.current >= 0, heap(StandardIndenter), heap(indentLevel)
  logged attr(a.Prefix, a.URI, a.Name, a.Value)
  snap tpreO = old(out(w))
  snap tpreC = old(w.current)
  snap tposO = out(w)
  snap tposC = w.current

# ---- loops

inv (i li): 0 <= i
inv (v ~[]ns, i li): i <= len(v)
inv (v ~[]Writable, i li): i <= len(v)
inv (v ~[]DTDAttr, i li): i <= len(v)
inv (v ~[]Attr, i li): i <= len(v)
inv (w *Writer): live(w)
inv (w *Writer): implies(start(breaksOK(w)), breaksOK(w))
inv (w *Writer): w.current == start(w.current)
inv (w *Writer): implies(w.current >= 0, w.nodes[w.current].kind == start(w.nodes[w.current].kind) && w.nodes[w.current].flag == start(w.nodes[w.current].flag) &&
    w.nodes[w.current].elem.Prefix == start(w.nodes[w.current].elem.Prefix) && w.nodes[w.current].elem.Name == start(w.nodes[w.current].elem.Name) &&
    w.nodes[w.current].elem.Full == start(w.nodes[w.current].elem.Full) && w.nodes[w.current].dtd.Name == start(w.nodes[w.current].dtd.Name) && w.nodes[w.current].dtdAttList.Name == start(w.nodes[w.current].dtdAttList.Name) &&
    w.nodes[w.current].state == start(w.nodes[w.current].state) && w.nodes[w.current].children >= start(w.nodes[w.current].children))
inv (c ~[]Writable, i li, w *Writer): implies(i > 0 && w.current >= 0, w.nodes[w.current].children >= 1)
inv (c ~[]Writable, i li, w *Writer): implies(i == 0 && w.current >= 0, w.nodes[w.current].children == start(w.nodes[w.current].children))
inv (v ~[]ns, i li, w *Writer): out(w) == start(out(w)) + start(nsD(v, cur(i) - 1))
inv (c ~[]Writable, i li, w *Writer): implies(start(plainC(c, 0)), plainC(c, i))
inv (c ~[]Writable, i li, w *Writer): implies(start(contAcc(c, 0, w.Enforce, w.StrictChars, w.Indenter)), contAcc(c, i, w.Enforce, w.StrictChars, w.Indenter))
inv (v ~[]ns, i li, w *Writer): implies(i < len(v) && start(nsNames(v, len(v) - 1, w.Enforce)), nsNames(v, i, w.Enforce))
inv (v ~[]DTDAttr, i li, w *Writer): implies(start(attlistAcc(v, 0, w.Enforce)), attlistAcc(v, i, w.Enforce))
inv (v ~[]Attr, i li, w *Writer): implies(start(attrsAcc(v, 0, w.Enforce)), attrsAcc(v, i, w.Enforce))
inv (v ~[]Attr, i li, w *Writer): implies(start(attrsAcc(v, 0, w.Enforce) && pendAcc(w)), pendAcc(w))
inv (c ~[]Writable, i li, w *Writer): implies(start(plainC(c, 0)), out(w) + serC(c, i, w.Indenter) == start(out(w) + serC(c, i, w.Indenter)))
inv (v ~[]DTDAttr, i li, w *Writer): out(w) + attlistB(v, i) == start(out(w) + attlistB(v, i))
inv (v ~[]Attr, i li, w *Writer): out(w) + attrsB(v, i) == start(out(w) + attrsB(v, i))
inv (v ~[]Attr, i li, w *Writer): implies(start(attrsPlain(v, i)), attrsPlain(v, i))
inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0 && start(attrsPlain(v, i)), nsOwed(w) == start(nsOwed(w)))
inv (v ~[]NodeKind, i li): i <= len(v)
inv (n *node, s string, i li): n.tail[1] == start(ite(cur(i) <= 0, n.tail[1], at(s, cur(i) - 1)))
inv (n *node, s string, i li): n.tail[0] == start(ite(cur(i) >= 2, at(s, cur(i) - 2), ite(cur(i) == 1, n.tail[1], n.tail[0])))
inv (n *node, s string, i li): i <= len(s)
inv (v ~[]NodeKind, i li, k NodeKind): implies(i > 0, v[0] == k)
inv (v ~[]NodeKind, i li, w *Writer): implies(i > 0 && w.current >= 0, v[0] == w.nodes[w.current].kind)

inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0, len(nsList(w)) >= start(len(nsList(w))))
inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0 && start(len(nsList(w))) >= 1, nsList(w)[0].prefix == start(nsList(w)[0].prefix) && nsList(w)[0].uri == start(nsList(w)[0].uri) && nsList(w)[0].written == start(nsList(w)[0].written))
inv (v ~[]ns, i li, p string): nsHas(v, p, i) == start(nsHas(v, p, i))
inv (v ~[]ns, i li, p string): nsUri(v, p, i) == start(nsUri(v, p, i))
