# ---- ErrCollector (errs.go), typed attribute values (attr.go), kind names (nodekind.go)

rec firstErr(v []error, i int) int up = ite(i >= len(v), nil, ite(v[i] != nil, v[i], firstErr(v, i + 1)))
rec firstPos(v []error, i int) int up = ite(i >= len(v), 0, ite(v[i] != nil, i + 1, firstPos(v, i + 1)))

func ErrCollector.Do (e, errs) surface
  requires e != nil
  ensures [C15 first] e.Err == ite(old(e.Err) != nil, old(e.Err), firstErr(errs, 0))
  ensures [C15 index] e.Index == ite(old(e.Err) != nil || firstErr(errs, 0) == nil, old(e.Index), firstPos(errs, 0))
  ensures [C15 keepline] implies(old(e.Err) != nil || firstErr(errs, 0) == nil, e.Line == old(e.Line) && e.File == old(e.File))
  ensures [C15 position] implies(old(e.Err) == nil && firstErr(errs, 0) != nil, e.File == ufs("callerFile", 1) && e.Line == ufi("callerLine", 1))
  modifies e.Err, e.Index, e.File, e.Line

func ErrCollector.Must (e, errs) surface
  requires e != nil
  panics [C15 panics] firstErr(errs, 0) != nil && e.Err == firstErr(errs, 0) && e.Index == firstPos(errs, 0) && panicval == mk(*ErrCollector, e)
  panics [C15 position] e.File == ufs("callerFile", 1) && e.Line == ufi("callerLine", 1)
  ensures [C15 silent] firstErr(errs, 0) == nil && e.Err == old(e.Err) && e.Index == old(e.Index)
  modifies e.Err, e.Index, e.File, e.Line

func ErrCollector.Panic (e) surface
  requires e != nil
  panics [C15 panics] e.Err != nil && panicval == mk(*ErrCollector, e)
  ensures [C15 silent] e.Err == nil

func ErrCollector.Set (e, err) surface
  requires e != nil && err != nil
  ensures [C15 set] *err == ite(e.Err != nil, mk(*ErrCollector, e), old(*err))
  modifies *err

func ErrCollector.Unwrap (e) (r) surface
  requires e != nil
  ensures [C15 unwrap] r == e.Err

inv (v []error, i li): 0 <= i && i <= len(v)
inv (v []error, i li): firstErr(v, i) == start(firstErr(v, i))
inv (v []error, i li): firstPos(v, i) == start(firstPos(v, i))

def sameAttr(a, b) = a.Prefix == b.Prefix && a.URI == b.URI && a.Name == b.Name

func Attr.Bool (a, v) (r) surface
  ensures [C16 value] r.Value == ite(v, "true", "false") && sameAttr(r, a)
func Attr.Int (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Int8 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Int16 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Int32 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Int64 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Uint (a, v) (r) surface
  ensures [C16 value] implies(v >= 0, r.Value == ufs("fmtint", v, 10)) && sameAttr(r, a)
func Attr.Uint8 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Uint16 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Uint32 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Uint64 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtint", v, 10) && sameAttr(r, a)
func Attr.Float32 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtfloat", v, 'g', 0 - 1, 32) && sameAttr(r, a)
func Attr.Float64 (a, v) (r) surface
  ensures [C16 value] r.Value == ufs("fmtfloat", v, 'g', 0 - 1, 64) && sameAttr(r, a)
