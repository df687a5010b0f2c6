# ---- what the rules on single writes mean for the whole content of a comment or CDATA section

lemma [C05 concat] comment-concat (a string, s string)
  assume !contains(a, "--") && !contains(s, "--") && !(len(a) > 0 && len(s) > 0 && at(a, len(a) - 1) == '-' && at(s, 0) == '-')
  show !contains(a + s, "--")
lemma [C05 concat] cdata-concat (a string, s string)
  assume !contains(a, "]]>") && !contains(s, "]]>")
  assume !(len(a) >= 1 && len(s) >= 2 && at(a, len(a) - 1) == ']' && at(s, 0) == ']' && at(s, 1) == '>')
  assume !(len(a) >= 2 && len(s) >= 1 && at(a, len(a) - 1) == ']' && at(a, len(a) - 2) == ']' && at(s, 0) == '>')
  show !contains(a + s, "]]>")
lemma [C05 concat] tail-concat (a string, s string)
  show t1(t1(0, a), s) == t1(0, a + s)
  show t0(t0(0, 0, a), t1(0, a), s) == t0(0, 0, a + s)
lemma [C05 concat] tail-last (a string)
  show implies(len(a) > 0, t1(0, a) == at(a, len(a) - 1)) && implies(len(a) > 1, t0(0, 0, a) == at(a, len(a) - 2)) && implies(len(a) == 0, t1(0, a) == 0 && t0(0, 0, a) == 0) && implies(len(a) == 1, t0(0, 0, a) == 0)
