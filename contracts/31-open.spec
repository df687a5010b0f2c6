# ---- opening a writer, options, encodings

rec runOpts(v []Option, i int, t int) int up = ite(i >= len(v), t, runOpts(v, i + 1, ufi("tr.call", t, v[i])))
rec optsOK(v []Option, i int) bool up = i >= len(v) || (v[i] != nil && optsOK(v, i + 1))

block open
  requires optsOK(options, 0)
  ensures fresh(r)
  ensures [live] live(r) && r.current == 0 - 1
  ensures [C21 fresh] out(r) == "" && ioerr(r) == 0
  ensures [C13 breaks] breaksOK(r)
  ensures [C21 defaults] implies(len(options) == 0, r.Enforce && r.StrictChars && r.NewlineString == "\n" && r.Version == "" && r.Indenter == nil)
  ensures [C21 run] trace() == runOpts(options, 0, old(trace()))
  ensures [C21 options] implies(len(options) > 0, r.Enforce == ufb("opt.Enforce", trace()) && r.StrictChars == ufb("opt.StrictChars", trace()) && r.NewlineString == ufs("opt.NewlineString", trace()) &&
      r.Version == ufs("opt.Version", trace()) && r.Indenter == ufi("opt.Indenter", trace()))

func newWriter (w, options) (r)
  use open
  ensures [C21 destination] under(r) == w

func Open (w, options) (r) surface
  use open
  ensures [C21 destination] under(r) == w
  ensures [C21 encoding] r.encoding == "UTF-8"

func OpenEncoding (w, encstr, encoder, options) (r) surface
  requires encoder != nil
  use open
  ensures [C21 destination] under(r) == ufi("encwriter", ufi("htmlescape", encoder), w)
  ensures [C21 encoding] r.encoding == encstr

func WithIndent () (o) surface
  then o (w)
  requires w != nil
  ensures [C21 indenter] istype(w.Indenter, *StandardIndenter) && siOK(as(w.Indenter, *StandardIndenter)) && as(w.Indenter, *StandardIndenter).IndentString == " "
  modifies w.Indenter

func WithIndentString (indent) (o) surface
  then o (w)
  requires w != nil
  ensures [C21 indenter] istype(w.Indenter, *StandardIndenter) && siOK(as(w.Indenter, *StandardIndenter)) && as(w.Indenter, *StandardIndenter).IndentString == indent
  modifies w.Indenter

inv (i li): 0 <= i
inv (v ~[]Option, i li): i <= len(v)
inv (v ~[]Option, i li): optsOK(v, i)
inv (v ~[]Option, i li): runOpts(v, i, trace()) == start(runOpts(v, i, trace()))
inv (w *Writer, v ~[]Option, i li): implies(i > 0, w.Enforce == ufb("opt.Enforce", trace()) && w.StrictChars == ufb("opt.StrictChars", trace()) && w.NewlineString == ufs("opt.NewlineString", trace()) && w.Version == ufs("opt.Version", trace()) && w.Indenter == ufi("opt.Indenter", trace()))
inv (w *Writer, v ~[]Option, i li): implies(i == 0, w.Enforce == start(w.Enforce) && w.StrictChars == start(w.StrictChars) && w.NewlineString == start(w.NewlineString) && w.Version == start(w.Version) && w.Indenter == start(w.Indenter))
