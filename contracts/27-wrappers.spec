# ---- the Writer's own Start and Write methods promise what the node's does
func Writer.StartDoc (w, d) (err) surface
  like Doc.start
func Writer.StartComment (w, c) (err) surface
  like Comment.start
func Writer.StartCData (w, c) (err) surface
  like CData.start
func Writer.StartDTD (w, d) (err) surface
  like DTD.start
func Writer.StartDTDAttList (w, d) (err) surface
  like DTDAttList.start
func Writer.StartElem (w, e) (err) surface
  like Elem.start
func Writer.WriteCData (w, c) (err) surface
  like CData.write
func Writer.WriteComment (w, c) (err) surface
  like Comment.write
func Writer.WriteElem (w, e) (err) surface
  like Elem.write
func Writer.WriteCDataContent (w, c) (err) surface
  like CDataContent.write
func Writer.WriteCommentContent (w, c) (err) surface
  like CommentContent.write
func Writer.WriteDTDEntity (w, d) (err) surface
  like DTDEntity.write
func Writer.WriteDTDElem (w, d) (err) surface
  like DTDElem.write
func Writer.WriteDTDAttr (w, d) (err) surface
  like DTDAttr.write
func Writer.WriteDTDAttList (w, d) (err) surface
  like DTDAttList.write
func Writer.WriteNotation (w, n) (err) surface
  like Notation.write
func Writer.WritePI (w, p) (err) surface
  like PI.write
func Writer.WriteText (w, t) (err) surface
  like Text.write
func Writer.WriteRaw (w, t) (err) surface
  like Raw.write
