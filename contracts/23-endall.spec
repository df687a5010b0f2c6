def endMatchesAt(w, i, kind, name) = w.nodes[i].kind == kind && (len(name) == 0 ||
    (len(name) == 1 && (kind == ElemNode || kind == DTDNode || kind == DTDAttListNode) && ite(kind == ElemNode, w.nodes[i].elem.Name, ite(kind == DTDNode, w.nodes[i].dtd.Name, w.nodes[i].dtdAttList.Name)) == name[0]) ||
    (len(name) == 2 && kind == ElemNode && w.nodes[i].elem.Prefix == name[0] && w.nodes[i].elem.Name == name[1]))

block ends
  requires live(w)
  ensures [live] live(w)
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  modifies ghost(w), w.current, w.last, elems(w.nodes, 0), heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.EndAll (w) (err) surface
  use ends
  ensures [C08 all] implies(err == nil, w.current == 0 - 1)
  ensures [C08,C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w) + closing(w)))
  ensures [C20 accepts] implies(failed(w, err), !old(endAcc(w)))

func Writer.EndDoc (w) (err) surface
  use ends
  ensures [C08 empty] implies(old(w.current) < 0, refused(w, err))
  ensures [C08 doc] implies(err == nil, w.current == 0 - 1 && old(w.nodes[0].kind) == DocNode)
  ensures [C08,C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w) + closing(w)))
  ensures [C20 accepts] implies(failed(w, err), old(w.current) < 0 || !old(endAcc(w)) || old(w.nodes[0].kind) != DocNode)

func Writer.EndToDepth (w, depth, kind, name) (err) surface
  requires live(w)
  ensures [live] live(w)
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C08 empty] implies(old(w.current) <= depth, refused(w, err))
  ensures [C08 depth] implies(err == nil, w.current == depth && depth < old(w.current) && 0 - 1 <= depth)
  ensures [C08 kind] implies(err == nil, old(w.nodes[depth + 1].kind) == kind)
  ensures [C08 name] implies(err == nil && len(name) == 1, old(ite(kind == ElemNode, w.nodes[depth + 1].elem.Name, ite(kind == DTDNode, w.nodes[depth + 1].dtd.Name, w.nodes[depth + 1].dtdAttList.Name))) == name[0])
  ensures [C08,C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) + closing(w) == old(out(w) + closing(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C20 accepts] implies(failed(w, err), old(w.current) <= depth || depth < 0 - 1 || !old(endAcc(w)) || !old(endMatchesAt(w, depth + 1, kind, name)))
  modifies ghost(w), w.current, w.last, elems(w.nodes, ite(depth < 0 - 1, 0, depth + 1)), heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.EndAllFlush (w) (err) surface
  use ends
  ensures [C08 all] implies(err == nil, w.current == 0 - 1)
  ensures [C08,C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w) + closing(w)))
  ensures [C12 flushed] implies(err == nil, ioerr(w) == 0 && flushed(w) == out(w))
  ensures [C12 fails] implies(ioerr(w) != 0, err != nil)
  ensures [C20 accepts] implies(failed(w, err), !old(endAcc(w)))

inv (w *Writer): live(w)
inv (w *Writer): implies(start(breaksOK(w)), breaksOK(w))
inv (w *Writer): w.current <= start(w.current)
inv (w *Writer): implies(start(endAcc(w)), endAcc(w))
inv (w *Writer): implies(start(w.current) >= 0, w.current >= 0)
inv (w *Writer): implies(start(w.current) >= 0 - 1, w.current >= 0 - 1)
inv (w *Writer): implies(start(pendPlain(w)), pendPlain(w) && out(w) + closing(w) == start(out(w) + closing(w)))
inv (w *Writer, d int): d <= w.current
inv (w *Writer, d int): d < w.current
