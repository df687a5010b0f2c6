# ---- characters, escaping, literals (printer.go, check.go)

# Char ::= #x9 | #xA | #xD | [#x20-#xD7FF] | [#xE000-#xFFFD] | [#x10000-#x10FFFF]
def isChar(r) = r == 0x9 || r == 0xA || r == 0xD || (0x20 <= r && r <= 0xD7FF) || (0xE000 <= r && r <= 0xFFFD) || (0x10000 <= r && r <= 0x10FFFF)
# a code point that cannot be written as itself: not a Char, or an invalid UTF-8 byte
def badRune(r, w) = !isChar(r) || (r == 0xFFFD && w == 1)

def escR(r, w, raw) = ite(r == '"', "&#34;", ite(r == '\'', "&#39;", ite(r == '&', "&amp;", ite(r == '<', "&lt;", ite(r == '>', "&gt;", ite(badRune(r, w), "\uFFFD", raw))))))
def escAR(r, w, raw) = ite(r == '\t', "&#x9;", ite(r == '\n', "&#xA;", ite(r == '\r', "&#xD;", escR(r, w, raw))))

# the escaped form of s[i:] as character data / as an attribute value
rec escT(s string, i int) string up shift = ite(i >= len(s), "", escR(dr(s, i), dw(s, i), sub(s, i, i + dw(s, i))) + escT(s, i + dw(s, i)))
rec escA(s string, i int) string up shift = ite(i >= len(s), "", escAR(dr(s, i), dw(s, i), sub(s, i, i + dw(s, i))) + escA(s, i + dw(s, i)))

# bytes EscapeAttrString copies as they are as long as nothing else came before
def plainA(b) = b == '\'' || b == '!' || (0x23 <= b && b <= 0x25) || (0x28 <= b && b <= 0x3B) || b == '=' || (0x3F <= b && b <= 0x5B) || (0x5D <= b && b <= 0x7A) || b == '~'
rec escV(s string, i int) string up shift = ite(i >= len(s), "", ite(plainA(at(s, i)), sub(s, i, i + 1) + escV(s, i + 1), escA(s, i)))

func printer.EscapeString (p, s) (err) surface
  requires p.Writer != nil
  ensures [C01 escapes] out(p) == old(out(p)) + escT(s, 0)
  ensures [C01 noerror] err == nil
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)

func printer.EscapeAttrString (p, s) (err) surface
  requires p.Writer != nil
  ensures [C02 escapes] out(p) == old(out(p)) + escV(s, 0)
  ensures [C02 noerror] err == nil
  ensures [C13 breaks] implies(old(bp(p)) == 0, bp(p) == 0 && bgood(p) == old(bgood(p)))
  modifies ghost(p)

# XML 1.0 (fifth edition) Name
def nameStart(r) = r == ':' || ('A' <= r && r <= 'Z') || r == '_' || ('a' <= r && r <= 'z') || (0xC0 <= r && r <= 0xD6) || (0xD8 <= r && r <= 0xF6) ||
    (0xF8 <= r && r <= 0x2FF) || (0x370 <= r && r <= 0x37D) || (0x37F <= r && r <= 0x1FFF) || (0x200C <= r && r <= 0x200D) || (0x2070 <= r && r <= 0x218F) ||
    (0x2C00 <= r && r <= 0x2FEF) || (0x3001 <= r && r <= 0xD7FF) || (0xF900 <= r && r <= 0xFDCF) || (0xFDF0 <= r && r <= 0xFFFC) || (0x10000 <= r && r <= 0xEFFFF)
def nameCh(r) = nameStart(r) || r == '-' || r == '.' || ('0' <= r && r <= '9') || r == 0xB7 || (0x300 <= r && r <= 0x36F) || (0x203F <= r && r <= 0x2040)
rec nameRest(s string, i int) bool up shift = i >= len(s) || (nameCh(dr(s, i)) && nameRest(s, i + dw(s, i)))
def xmlName(s) = len(s) == 0 || (nameStart(dr(s, 0)) && nameRest(s, dw(s, 0)))
def asciiStart(b) = b == ':' || b == '_' || ('A' <= b && b <= 'Z') || ('a' <= b && b <= 'z')
def asciiCh(b) = asciiStart(b) || b == '-' || b == '.' || ('0' <= b && b <= '9')
rec asciiRest(s string, i int) bool up shift = i >= len(s) || (asciiCh(dr(s, i)) && asciiRest(s, i + dw(s, i)))
def asciiName(s) = len(s) == 0 || (asciiStart(dr(s, 0)) && asciiRest(s, dw(s, 0)))

func CheckName (name) (err) surface
  ensures [C03 sound] implies(err == nil, xmlName(name))
  ensures [C03 complete] implies(asciiName(name), err == nil)
  defines nameAcc(name) = err == nil

# characters discouraged by section 2.2
def planeEnd(r) = (0x1FFFE <= r && r <= 0x1FFFF) || (0x2FFFE <= r && r <= 0x2FFFF) || (0x3FFFE <= r && r <= 0x3FFFF) || (0x4FFFE <= r && r <= 0x4FFFF) ||
    (0x5FFFE <= r && r <= 0x5FFFF) || (0x6FFFE <= r && r <= 0x6FFFF) || (0x7FFFE <= r && r <= 0x7FFFF) || (0x8FFFE <= r && r <= 0x8FFFF) ||
    (0x9FFFE <= r && r <= 0x9FFFF) || (0xAFFFE <= r && r <= 0xAFFFF) || (0xBFFFE <= r && r <= 0xBFFFF) || (0xCFFFE <= r && r <= 0xCFFFF) ||
    (0xDFFFE <= r && r <= 0xDFFFF) || (0xEFFFE <= r && r <= 0xEFFFF) || (0xFFFFE <= r && r <= 0xFFFFF) || (0x10FFFE <= r && r <= 0x10FFFF)
def discouraged(r) = (0x7F <= r && r <= 0x84) || (0x86 <= r && r <= 0x9F) || (0xFDD0 <= r && r <= 0xFDEF) || planeEnd(r)
rec charsOK(s string, i int, strict bool) bool up shift = i >= len(s) || (!badRune(dr(s, i), dw(s, i)) && !(strict && discouraged(dr(s, i))) && charsOK(s, i + dw(s, i), strict))

func CheckChars (chars, strict) (err) surface
  ensures [C04 exact] iff(err == nil, charsOK(chars, 0, strict))

def pubidCh(r) = r == 0x20 || r == 0xD || r == 0xA || ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z') || ('0' <= r && r <= '9') ||
    r == '-' || r == '\'' || r == '(' || r == ')' || r == '+' || r == ',' || r == '.' || r == '/' || r == ':' || r == '=' || r == '?' || r == ';' ||
    r == '!' || r == '*' || r == '#' || r == '@' || r == '$' || r == '_' || r == '%'
rec pubidOK(s string, i int) bool up shift = i >= len(s) || (pubidCh(dr(s, i)) && pubidOK(s, i + dw(s, i)))
func CheckPubID (pubid) (err) surface
  ensures [C04 exact] iff(err == nil, pubidOK(pubid, 0))

def alpha(r) = ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z')
def encCh(r) = alpha(r) || ('0' <= r && r <= '9') || r == '.' || r == '_' || r == '-'
rec encRest(s string, i int) bool up shift = i >= len(s) || (encCh(dr(s, i)) && encRest(s, i + dw(s, i)))
func CheckEncoding (encoding) (err) surface
  ensures [C04 exact] iff(err == nil, len(encoding) == 0 || (alpha(dr(encoding, 0)) && encRest(encoding, dw(encoding, 0))))

inv (s string, i li): 0 <= i && i <= len(s)
inv (a li, b li): a <= b
inv (i li): 0 <= i
inv (p printer, s string, a li, b li): out(p) + sub(s, a, b) + escT(s, b) == start(out(p) + sub(s, a, b) + escT(s, b))
inv (p printer, s string, a li, b li): out(p) + sub(s, a, b) + escA(s, b) == start(out(p) + sub(s, a, b) + escA(s, b))
inv (p printer, s string, b li): out(p) + sub(s, 0, b) + escV(s, b) == start(out(p) + sub(s, 0, b) + escV(s, b))

inv (p printer, s string, b li): out(p) + escV(s, b) == start(out(p) + escV(s, b))
inv (p printer, s string, b li): out(p) + escT(s, b) == start(out(p) + escT(s, b))
inv (p printer, s string, b li): out(p) + escA(s, b) == start(out(p) + escA(s, b))
# the same without the writer, for a loop that only scans
inv (s string, b li): sub(s, start(b), b) + escV(s, b) == start(escV(s, b))
inv (s string, b li): sub(s, start(b), b) + escT(s, b) == start(escT(s, b))
inv (s string, b li): sub(s, start(b), b) + escA(s, b) == start(escA(s, b))
inv (p printer): implies(start(bp(p)) == 0, bp(p) == 0 && bgood(p) == start(bgood(p)))
inv (s string, i li): nameRest(s, i) == start(nameRest(s, i))
inv (s string, i li): implies(start(asciiRest(s, i)), asciiRest(s, i))
inv (s string, i li): implies(i > 0, xmlName(s) == nameRest(s, i))
inv (s string, i li): implies(i > 0 && asciiName(s), asciiRest(s, i))
inv (s string, b bool, i li): charsOK(s, i, b) == start(charsOK(s, i, b))
inv (s string, i li): pubidOK(s, i) == start(pubidOK(s, i))
inv (s string, i li): implies(i > 0, alpha(dr(s, 0)) && encRest(s, i) == start(encRest(s, dw(s, 0))))
