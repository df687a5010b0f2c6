# ---- document declaration, processing instructions and DTD declarations (nodes.go, dtd.go)

def docVersion(d, w) = ite(d.ForcedVersion != nil, *d.ForcedVersion, ite(w.Version == "", "1.0", w.Version))
def docEncoding(d, w) = ite(d.ForcedEncoding != nil, *d.ForcedEncoding, w.encoding)
def docB(d, w) = "<?xml" + ite(d.SuppressVersion, "", attrD("version", docVersion(d, w))) + ite(d.SuppressEncoding || docEncoding(d, w) == "", "", attrD("encoding", docEncoding(d, w))) +
    ite(d.Standalone == nil, "", attrD("standalone", ite(*d.Standalone, "yes", "no"))) +
    ite(d.SuppressVersion && (d.SuppressEncoding || docEncoding(d, w) == "") && d.Standalone == nil, " ", "") + "?>" + w.NewlineString
def encOK(s) = len(s) == 0 || (alpha(dr(s, 0)) && encRest(s, dw(s, 0)))

func Doc.start (d, w) (err) surface
  use starts
  ensures [C07 place] implies(old(w.Enforce && !atTop(w)), refused(w, err))
  ensures [C09 node] implies(err == nil, w.nodes[w.current].kind == DocNode)
  ensures [C11 rejects] implies(err == nil && w.Enforce && !d.SuppressEncoding, encOK(docEncoding(d, w)))
  ensures [C02,C11 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + docB(d, w))
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !atTop(w)) || !old(pendAcc(w)) || (w.Enforce && !d.SuppressEncoding && !encOK(docEncoding(d, w))))
  ensures [C20 pending] implies(err == nil, pendAcc(w))

def xmlAny(s) = s == "xml" || s == "xmL" || s == "xMl" || s == "xML" || s == "Xml" || s == "XmL" || s == "XMl" || s == "XML"
func PI.write (p, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !elemPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, nameAcc(p.Target))
  ensures [C05 rejects] implies(err == nil && w.Enforce, !xmlAny(p.Target) && !contains(p.Content, "?>"))
  ensures [C05 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<?" + p.Target + " " + p.Content + "?>")
  ensures [C13 last] implies(err == nil && w.Indenter != nil, w.last.Node == PINode)
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !elemPlace(w)) || !old(pendAcc(w)) || (w.Enforce && (xmlAny(p.Target) || !nameAcc(p.Target) || contains(p.Content, "?>"))))

func DTDElem.write (d, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !declPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, d.Name != "" && nameAcc(d.Name))
  ensures [C14 rejects] implies(err == nil && w.Enforce, d.Decl != "")
  ensures [C14 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!ELEMENT " + d.Name + " " + d.Decl + ">")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !declPlace(w)) || !old(pendAcc(w)) || !nameRule(w.Enforce, d.Name) || (w.Enforce && d.Decl == ""))

def isExt(d) = d.PublicID != "" || d.SystemID != ""
func DTDEntity.write (d, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !declPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, d.Name != "" && nameAcc(d.Name) && implies(isExt(d) && d.NDataID != "", nameAcc(d.NDataID)))
  ensures [C06 literals] implies(err == nil && w.Enforce, ite(isExt(d), !badExt(d.PublicID, d.SystemID), !badQuotes(d.Content)))
  ensures [C14 rejects] implies(err == nil, !(isExt(d) && d.IsPE && d.NDataID != "") && implies(w.Enforce, ite(isExt(d), d.Content == "", d.NDataID == "")))
  ensures [C06,C14 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!ENTITY " + ite(d.IsPE, "% ", "") + d.Name + " " +
      ite(isExt(d), extID(d.PublicID, d.SystemID) + ite(d.NDataID == "", "", " NDATA " + d.NDataID), quoted(d.Content)) + ">")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !declPlace(w)) || !old(pendAcc(w)) || !nameRule(w.Enforce, d.Name) || (isExt(d) && d.IsPE && d.NDataID != "") ||
        (w.Enforce && ite(isExt(d), d.Content != "" || badExt(d.PublicID, d.SystemID) || (d.NDataID != "" && !nameAcc(d.NDataID)), d.NDataID != "" || badQuotes(d.Content))))

func Notation.write (n, w) (err) surface
  use writes
  ensures [C07 place] implies(old(w.Enforce && !declPlace(w)), refused(w, err))
  ensures [C03 name] implies(err == nil && w.Enforce, n.Name != "" && nameAcc(n.Name))
  ensures [C06 literals] implies(err == nil && w.Enforce, implies(n.PublicID != "", pubidOK(n.PublicID, 0)) && !(n.SystemID != "" && badQuotes(n.SystemID)))
  ensures [C14 rejects] implies(err == nil && w.Enforce, n.PublicID != "" || n.SystemID != "")
  ensures [C06,C14 bytes] implies(err == nil && old(pendPlain(w)), out(w) == old(out(w)) + old(pend(w)) + "<!NOTATION " + n.Name + " " +
      ite(n.SystemID != "", extID(n.PublicID, n.SystemID), ite(n.PublicID != "", pubLit(n.PublicID), "")) + ">")
  ensures [C20 accepts] implies(failed(w, err), old(w.Enforce && !declPlace(w)) || !old(pendAcc(w)) || !nameRule(w.Enforce, n.Name) || (w.Enforce && ((n.PublicID == "" && n.SystemID == "") || (n.PublicID != "" && !pubidOK(n.PublicID, 0)) || badQuotes(n.SystemID))))
