# ---- the standard indenter (indenter.go) and the names of kinds and states

rec repS(s string, i int) string down = ite(i <= 0, "", repS(s, i - 1) + s)
def siOK(s) = s != nil && s.depth >= 0 && len(s.stack) == s.depth + 1

func StandardIndenter.Indent (s, w, last, next) (err) surface
  requires siOK(s) && w != nil && w.printer.Writer != nil
  ensures [C13,C18 rep] siOK(s)
  ensures [C13 output] implies(err == nil, out(w) == old(out(w)) || (mayBreak(last, next) && out(w) == old(out(w)) + w.NewlineString + repS(s.IndentString, s.depth)) ||
      (next.Node == DocNode && next.State == StateEnded && out(w) == old(out(w)) + w.NewlineString))
  ensures [C12 io] iff(err == nil, ioerr(w) == 0)
  ensures [C12 sticky] implies(old(ioerr(w)) != 0, ioerr(w) == old(ioerr(w)))
  modifies ghost(w), s.depth, s.stack, heap(indentLevel)

func StandardIndenter.Wrap (s, content) (r) surface
  ensures [C13 same] r == content

func NewStandardIndenter () (s) surface
  ensures [C18,C21 rep] siOK(s)
  ensures [C21 indent] s.IndentString == " "
  ensures fresh(s)

func NodeKind.Name (n) (r) surface
  ensures [C18 name] implies(n < 0 || n > TextNode, r == "")
func NodeKind.String (n) (r) surface
func NodeState.Name (n) (r) surface
func Event.String (e) (r) surface
func Writer.Depth (w) (r) surface
  requires w != nil
  ensures [C08 depth] r == w.current

inv (w *Writer, s *StandardIndenter, i li): out(w) == start(out(w)) + repS(s.IndentString, i)
inv (w *Writer, s *StandardIndenter, i li): out(w) == start(out(w)) + repS(s.IndentString, start(i) - i)
inv (s *StandardIndenter, i li): i <= start(i)
inv (s *StandardIndenter, i li): i <= s.depth
inv (i li): 0 <= i

owns StandardIndenter depth stack by StandardIndenter.Indent NewStandardIndenter [C13,C18]
