# ---- quoted literals and attributes (printer.go)

def dq(s) = contains(s, "\"")
def sq(s) = contains(s, "'")
def qc(s) = ite(dq(s), "'", "\"")
# SystemLiteral / EntityValue: quoted with a delimiter that is not in the text
def quoted(s) = qc(s) + s + qc(s)
def badQuotes(s) = dq(s) && sq(s)

# the ExternalID production as written by the package
def pubLit(pub) = "PUBLIC \"" + pub + "\""
def extID(pub, sys) = ite(pub == "", ite(sys == "", "", "SYSTEM " + quoted(sys)), pubLit(pub) + ite(sys == "", "", " " + quoted(sys)))
def badExt(pub, sys) = ite(pub == "", sys != "" && badQuotes(sys), sys == "" || !pubidOK(pub, 0) || badQuotes(sys))

func printer.writeSystemID (p, systemID, enforce) (err)
  requires p.Writer != nil
  ensures [bytes] implies(err == nil, out(p) == old(out(p)) + quoted(systemID))
  ensures [rejects] implies(enforce && badQuotes(systemID), err != nil)
  ensures [accepts] implies(err != nil, (enforce && badQuotes(systemID)) || ioerr(p) != 0)
  ensures [io] implies(err == nil, ioerr(p) == 0)
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)

func printer.writeEntityValue (p, value, enforce) (err)
  requires p.Writer != nil
  ensures [bytes] implies(err == nil, out(p) == old(out(p)) + quoted(value))
  ensures [rejects] implies(enforce && badQuotes(value), err != nil)
  ensures [accepts] implies(err != nil, (enforce && badQuotes(value)) || ioerr(p) != 0)
  ensures [io] implies(err == nil, ioerr(p) == 0)
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)

func printer.writePublicID (p, publicID, systemID, enforce) (err)
  requires p.Writer != nil
  ensures [bytes] implies(err == nil, out(p) == old(out(p)) + pubLit(publicID) + ite(systemID == "", "", " " + quoted(systemID)))
  ensures [rejects] implies(enforce && (publicID == "" || !pubidOK(publicID, 0) || (systemID != "" && badQuotes(systemID))), err != nil)
  ensures [accepts] implies(err != nil, (enforce && (publicID == "" || !pubidOK(publicID, 0) || (systemID != "" && badQuotes(systemID)))) || ioerr(p) != 0)
  ensures [io] implies(err == nil, ioerr(p) == 0)
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)

func printer.writeExternalID (p, publicID, systemID, enforce) (err)
  requires p.Writer != nil
  ensures [bytes] implies(err == nil, out(p) == old(out(p)) + extID(publicID, systemID))
  ensures [rejects] implies(enforce && badExt(publicID, systemID), err != nil)
  ensures [accepts] implies(err != nil, (enforce && badExt(publicID, systemID)) || ioerr(p) != 0)
  ensures [io] implies(err == nil && (publicID != "" || systemID != ""), ioerr(p) == 0)
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)

# name="value" as written inside a start tag or declaration
def attrD(name, value) = " " + name + "=\"" + escV(value, 0) + "\""

func printer.printAttr (p, name, value, enforce) (err)
  requires p.Writer != nil
  ensures [bytes] implies(err == nil, out(p) == old(out(p)) + attrD(name, value))
  ensures [rejects] implies(err == nil && enforce, nameAcc(name))
  ensures [accepts] implies(err != nil, (enforce && !nameAcc(name) && !asciiName(name)) || ioerr(p) != 0)
  ensures [io] implies(err == nil, ioerr(p) == 0)
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)
