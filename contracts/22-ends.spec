# ---- ending nodes (writer.go)

func Writer.Flush (w) (err) surface
  requires live(w)
  ensures [live] live(w)
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C12 flushed] implies(err == nil, ioerr(w) == 0 && flushed(w) == out(w))
  ensures [C12 fails] implies(ioerr(w) != 0, err != nil)
  ensures [C12,C19 same] out(w) == old(out(w))
  ensures [C13 breaks] bp(w) == old(bp(w)) && bgood(w) == old(bgood(w))
  ensures [C20 accepts] implies(err != nil, ioerr(w) != 0)
  modifies ghost(w)

func Writer.EndElem (w, name) (err) surface
  use pops
  ensures [C08 mismatch] implies(!old(endMatches(w, ElemNode, name)), refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), !old(endMatches(w, ElemNode, name)) || !old(pendAcc(w)) || !old(topEnd(w)))

func Writer.EndElemFull (w, name) (err) surface
  requires live(w)
  ensures [live] live(w)
  ensures [C08 empty] implies(old(w.current) < 0, refused(w, err))
  ensures [C08 mismatch] implies(!old(endMatches(w, ElemNode, name)), refused(w, err))
  ensures [C08,C09 kept] implies(!old(endMatches(w, ElemNode, name)) && old(w.current) >= 0, w.nodes[w.current].elem.Full == old(w.nodes[w.current].elem.Full))
  ensures [C08 popped] w.current >= old(w.current) || (err == nil && w.current == old(w.current) - 1)
  ensures [C08 done] implies(err == nil, w.current == old(w.current) - 1)
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  ensures [C08,C09 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + old(closeTop(w)))
  ensures [C13 breaks] implies(err == nil && old(breaksOK(w)), breaksOK(w))
  ensures [C20 accepts] implies(failed(w, err), !old(endMatches(w, ElemNode, name)) || !old(pendAcc(w)) || !old(topEnd(w)))
  modifies ghost(w), w.current, w.last, elems(w.nodes, bottom(w)), heap(ns), heap(StandardIndenter), heap(indentLevel)

func Writer.EndComment (w) (err) surface
  use pops
  ensures [C08 mismatch] implies(!old(inside(w, CommentNode)), refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), !old(inside(w, CommentNode)) || !old(pendAcc(w)) || !old(topEnd(w)))
func Writer.EndCData (w) (err) surface
  use pops
  ensures [C08 mismatch] implies(!old(inside(w, CDataNode)), refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), !old(inside(w, CDataNode)) || !old(pendAcc(w)) || !old(topEnd(w)))
func Writer.EndDTD (w) (err) surface
  use pops
  ensures [C08 mismatch] implies(!old(inside(w, DTDNode)), refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), !old(inside(w, DTDNode)) || !old(pendAcc(w)) || !old(topEnd(w)))
func Writer.EndDTDAttList (w) (err) surface
  use pops
  ensures [C08 mismatch] implies(!old(inside(w, DTDAttListNode)), refused(w, err))
  ensures [C20 accepts] implies(failed(w, err), !old(inside(w, DTDAttListNode)) || !old(pendAcc(w)) || !old(topEnd(w)))

