# ---- calls of several nodes (writer.go): the steps taken, in order, up to the first error

def stepW(t, n) = ufi("tr.write", t, n)
def stepS(t, n) = ufi("tr.start", t, n)
def stepA(t, a) = ufi("tr.attr", t, a.Prefix, a.URI, a.Name, a.Value)
def resOf(t) = ufi("tres0", t)
rec wTr(v []Writable, i int, t int) int up = ite(i >= len(v), t, ite(resOf(stepW(t, v[i])) != nil, stepW(t, v[i]), wTr(v, i + 1, stepW(t, v[i]))))
rec wErr(v []Writable, i int, t int) int up = ite(i >= len(v), nil, ite(resOf(stepW(t, v[i])) != nil, resOf(stepW(t, v[i])), wErr(v, i + 1, stepW(t, v[i]))))
rec sTr(v []Startable, i int, t int) int up = ite(i >= len(v), t, ite(resOf(stepS(t, v[i])) != nil, stepS(t, v[i]), sTr(v, i + 1, stepS(t, v[i]))))
rec sErr(v []Startable, i int, t int) int up = ite(i >= len(v), nil, ite(resOf(stepS(t, v[i])) != nil, resOf(stepS(t, v[i])), sErr(v, i + 1, stepS(t, v[i]))))
rec aTr(v []Attr, i int, t int) int up = ite(i >= len(v), t, ite(resOf(stepA(t, v[i])) != nil, stepA(t, v[i]), aTr(v, i + 1, stepA(t, v[i]))))
rec aErr(v []Attr, i int, t int) int up = ite(i >= len(v), nil, ite(resOf(stepA(t, v[i])) != nil, resOf(stepA(t, v[i])), aErr(v, i + 1, stepA(t, v[i]))))
# what was written, and what was open, before and after a step; between the steps nothing happens
def preO(t) = ufs("tpreO", t)
def preC(t) = ufi("tpreC", t)
def posO(t) = ufs("tposO", t)
def posC(t) = ufi("tposC", t)
rec wSeq(v []Writable, i int, t int, o string, c int) bool up = i >= len(v) || (preO(stepW(t, v[i])) == o && preC(stepW(t, v[i])) == c && (resOf(stepW(t, v[i])) != nil || wSeq(v, i + 1, stepW(t, v[i]), posO(stepW(t, v[i])), posC(stepW(t, v[i])))))
rec sSeq(v []Startable, i int, t int, o string, c int) bool up = i >= len(v) || (preO(stepS(t, v[i])) == o && preC(stepS(t, v[i])) == c && (resOf(stepS(t, v[i])) != nil || sSeq(v, i + 1, stepS(t, v[i]), posO(stepS(t, v[i])), posC(stepS(t, v[i])))))
rec aSeq(v []Attr, i int, t int, o string, c int) bool up = i >= len(v) || (preO(stepA(t, v[i])) == o && preC(stepA(t, v[i])) == c && (resOf(stepA(t, v[i])) != nil || aSeq(v, i + 1, stepA(t, v[i]), posO(stepA(t, v[i])), posC(stepA(t, v[i])))))
# the writer is as the last step left it
def asLeft(w) = out(w) == posO(trace()) && w.current == posC(trace())
def asLeftX(w) = asLeft(w) && ufb("tposP", trace()) == pendPlain(w) && ufs("tposX", trace()) == out(w) + closing(w)
def asWas(w) = out(w) == old(out(w)) && w.current == old(w.current)
rec wNodes(v []Writable, i int) bool up = i >= len(v) || (v[i] != nil && wNodes(v, i + 1))
rec sNodes(v []Startable, i int) bool up = i >= len(v) || (v[i] != nil && sNodes(v, i + 1))

def kindOf(n) = ite(istype(n, Doc), DocNode, ite(istype(n, Elem), ElemNode, ite(istype(n, DTD), DTDNode, ite(istype(n, DTDAttList), DTDAttListNode, ite(istype(n, Comment), CommentNode, ite(istype(n, CData), CDataNode,
    ite(istype(n, Text), TextNode, ite(istype(n, Raw), RawNode, ite(istype(n, Attr), AttrNode, ite(istype(n, PI), PINode, ite(istype(n, CommentContent), CommentContentNode, ite(istype(n, CDataContent), CDataContentNode,
    ite(istype(n, DTDEntity), DTDEntityNode, ite(istype(n, DTDElem), DTDElemNode, ite(istype(n, DTDAttr), DTDAttrNode, ite(istype(n, Notation), NotationNode, ufi("userkind", n)))))))))))))))))

# the node that was current is still there
def keptN(w) = implies(old(w.current) >= 0, w.nodes[old(w.current)].kind == old(w.nodes[w.current].kind) && w.nodes[old(w.current)].flag == old(w.nodes[w.current].flag) &&
    w.nodes[old(w.current)].elem.Prefix == old(w.nodes[w.current].elem.Prefix) && w.nodes[old(w.current)].elem.Name == old(w.nodes[w.current].elem.Name) &&
    w.nodes[old(w.current)].elem.Full == old(w.nodes[w.current].elem.Full) && w.nodes[old(w.current)].dtd.Name == old(w.nodes[w.current].dtd.Name) && w.nodes[old(w.current)].dtdAttList.Name == old(w.nodes[w.current].dtdAttList.Name))
block nodes
  requires live(w)
  ensures [live] live(w)
  ensures [C17 current] w.current >= old(w.current) && implies(err == nil, w.current == old(w.current))
  ensures [C17 kept] implies(err == nil, keptN(w))
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  modifies ghost(w), w.current, w.last, elems(w.nodes, bottom(w)), heap(ns), heap(StandardIndenter), heap(indentLevel)

block snaps
  snap tpreO = old(out(w))
  snap tpreC = old(w.current)
  snap tposO = out(w)
  snap tposC = w.current
  snap tposP = pendPlain(w)
  snap tposX = out(w) + closing(w)

iface Node.kind (n) (k)
  ensures [C17 kind] k == kindOf(n)

iface Writable.write (n, w) (err)
  use nodes
  logged write(n)
  use snaps
iface Startable.start (n, w) (err)
  use starts
  ensures [C17 kind] implies(err == nil, w.nodes[w.current].kind == kindOf(n))
  logged start(n)
  use snaps

func Writer.Write (w, nodes) (err) surface
  requires wNodes(nodes, 0)
  use nodes
  ensures [C17 order] trace() == wTr(nodes, 0, old(trace())) && err == wErr(nodes, 0, old(trace()))
  ensures [C17 between] wSeq(nodes, 0, old(trace()), old(out(w)), old(w.current))
  ensures [C17 after] ite(len(nodes) == 0, asWas(w), asLeftX(w) && resOf(trace()) == err)

func Writer.Start (w, nodes) (err) surface
  requires live(w) && sNodes(nodes, 0)
  ensures [live] live(w)
  ensures [C17 order] trace() == sTr(nodes, 0, old(trace())) && err == sErr(nodes, 0, old(trace()))
  ensures [C17 between] sSeq(nodes, 0, old(trace()), old(out(w)), old(w.current))
  ensures [C17 after] ite(len(nodes) == 0, asWas(w), asLeftX(w) && resOf(trace()) == err)
  ensures [C17 current] w.current >= old(w.current) && implies(err == nil, w.current == old(w.current) + len(nodes))
  ensures [C17 kept] implies(err == nil, keptN(w))
  ensures [C17 kind] implies(err == nil && len(nodes) == 1, w.nodes[w.current].kind == kindOf(nodes[0]))
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  modifies ghost(w), w.current, w.last, elems(w.nodes, bottom(w)), heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.WriteAttr (w, attrs) (err) surface
  requires live(w)
  ensures [live] live(w)
  ensures [C17 order] trace() == aTr(attrs, 0, old(trace())) && err == aErr(attrs, 0, old(trace()))
  ensures [C17 between] aSeq(attrs, 0, old(trace()), old(out(w)), old(w.current))
  ensures [C17 after] ite(len(attrs) == 0, asWas(w), asLeft(w) && resOf(trace()) == err)
  ensures [C02,C09 bytes] implies(err == nil, out(w) == old(out(w)) + attrsB(attrs, 0))
  ensures [C10 plain] implies(w.current >= 0 && attrsPlain(attrs, 0), nsOwed(w) == old(nsOwed(w)) && len(nsList(w)) == old(len(nsList(w))))
  ensures [C10 kept] implies(w.current >= 0, len(nsList(w)) >= old(len(nsList(w))) && implies(old(len(nsList(w))) >= 1, nsList(w)[0].prefix == old(nsList(w)[0].prefix) && nsList(w)[0].uri == old(nsList(w)[0].uri) && nsList(w)[0].written == old(nsList(w)[0].written)))
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && (!elemOnly(w) || (w.current >= 0 && w.nodes[w.current].state != StateOpen))) || !attrsAcc(attrs, 0, w.Enforce))
  ensures [C20 pending] implies(err == nil && old(pendAcc(w)) && attrsAcc(attrs, 0, w.Enforce), pendAcc(w))
  modifies ghost(w), w.last, w.nodes[w.current].elem.namespaces if w.current >= 0, heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.Block (w, start, nodes) (err) surface
  requires start != nil && wNodes(nodes, 0)
  use nodes
  ensures [C17 start] implies(resOf(stepS(old(trace()), start)) != nil, trace() == stepS(old(trace()), start) && err == resOf(stepS(old(trace()), start)))
  ensures [C17 order] implies(resOf(stepS(old(trace()), start)) == nil, trace() == wTr(nodes, 0, stepS(old(trace()), start)) && implies(wErr(nodes, 0, stepS(old(trace()), start)) != nil, err == wErr(nodes, 0, stepS(old(trace()), start))))
  ensures [C17 between] preO(stepS(old(trace()), start)) == old(out(w)) && preC(stepS(old(trace()), start)) == old(w.current) && implies(resOf(stepS(old(trace()), start)) == nil,
      wSeq(nodes, 0, stepS(old(trace()), start), posO(stepS(old(trace()), start)), posC(stepS(old(trace()), start))))
  ensures [C17 after] implies(resOf(trace()) != nil, asLeft(w))
  ensures [C17 end] implies(err == nil && ufb("tposP", trace()), pendPlain(w) && out(w) + closing(w) == ufs("tposX", trace()))

inv (i li): 0 <= i
inv (w *Writer): live(w)
inv (v ~[]Writable, i li): i <= len(v)
inv (v ~[]Startable, i li): i <= len(v)
inv (v ~[]Attr, i li): i <= len(v)
inv (w *Writer): implies(start(breaksOK(w)), breaksOK(w))
inv (w *Writer): w.current == start(w.current)
inv (w *Writer, v ~[]Startable, i li): w.current == start(w.current) + i
inv (w *Writer): w.current >= start(w.current)
inv (w *Writer): implies(start(w.current) >= 0, w.nodes[start(w.current)].kind == start(w.nodes[w.current].kind) && w.nodes[start(w.current)].flag == start(w.nodes[w.current].flag) &&
    w.nodes[start(w.current)].elem.Prefix == start(w.nodes[w.current].elem.Prefix) && w.nodes[start(w.current)].elem.Name == start(w.nodes[w.current].elem.Name) &&
    w.nodes[start(w.current)].elem.Full == start(w.nodes[w.current].elem.Full) && w.nodes[start(w.current)].dtd.Name == start(w.nodes[w.current].dtd.Name) && w.nodes[start(w.current)].dtdAttList.Name == start(w.nodes[w.current].dtdAttList.Name))
inv (w *Writer, v ~[]Startable, i li): implies(i > 0, w.nodes[w.current].kind == kindOf(v[i - 1]))
inv (v ~[]Writable, i li): wNodes(v, i)
inv (v ~[]Startable, i li): sNodes(v, i)
inv (v ~[]Writable, i li): wTr(v, i, trace()) == start(wTr(v, i, trace()))
inv (v ~[]Writable, i li): wErr(v, i, trace()) == start(wErr(v, i, trace()))
inv (v ~[]Startable, i li): sTr(v, i, trace()) == start(sTr(v, i, trace()))
inv (v ~[]Startable, i li): sErr(v, i, trace()) == start(sErr(v, i, trace()))
inv (v ~[]Attr, i li): aTr(v, i, trace()) == start(aTr(v, i, trace()))
inv (v ~[]Attr, i li): aErr(v, i, trace()) == start(aErr(v, i, trace()))
inv (v ~[]Attr, i li, w *Writer): out(w) + attrsB(v, i) == start(out(w) + attrsB(v, i))
inv (v ~[]Attr, i li, w *Writer): implies(start(attrsPlain(v, i)), attrsPlain(v, i))
inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0 && start(attrsPlain(v, i)), nsOwed(w) == start(nsOwed(w)))
inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0, len(nsList(w)) >= start(len(nsList(w))))
inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0 && start(len(nsList(w))) >= 1, nsList(w)[0].prefix == start(nsList(w)[0].prefix) && nsList(w)[0].uri == start(nsList(w)[0].uri) && nsList(w)[0].written == start(nsList(w)[0].written))
inv (v ~[]Attr, i li, w *Writer): implies(w.current >= 0 && start(attrsPlain(v, i)), len(nsList(w)) == start(len(nsList(w))))
inv (v ~[]Attr, i li, w *Writer): implies(start(attrsAcc(v, 0, w.Enforce)), attrsAcc(v, i, w.Enforce))
inv (v ~[]Attr, i li, w *Writer): implies(start(attrsAcc(v, 0, w.Enforce) && pendAcc(w)), pendAcc(w))
inv (v ~[]Writable, i li, w *Writer): wSeq(v, i, trace(), out(w), w.current) == start(wSeq(v, i, trace(), out(w), w.current))
inv (v ~[]Writable, i li, w *Writer): ite(i == 0, out(w) == start(out(w)) && w.current == start(w.current), asLeftX(w))
inv (v ~[]Writable, i li): i == 0 || resOf(trace()) == nil
inv (v ~[]Startable, i li, w *Writer): sSeq(v, i, trace(), out(w), w.current) == start(sSeq(v, i, trace(), out(w), w.current))
inv (v ~[]Startable, i li, w *Writer): ite(i == 0, out(w) == start(out(w)) && w.current == start(w.current), asLeftX(w))
inv (v ~[]Startable, i li): i == 0 || resOf(trace()) == nil
inv (v ~[]Attr, i li, w *Writer): aSeq(v, i, trace(), out(w), w.current) == start(aSeq(v, i, trace(), out(w), w.current))
inv (v ~[]Attr, i li, w *Writer): ite(i == 0, out(w) == start(out(w)) && w.current == start(w.current), asLeft(w))
inv (v ~[]Attr, i li): i == 0 || resOf(trace()) == nil
inv (v ~[]Writable, w *Writer): asLeftX(w)
inv (v ~[]Writable): resOf(trace()) == nil
