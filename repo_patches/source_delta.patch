From 90a1dc4317c361ad3581bca714a14d0840bec474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 01/15] fix: end the live node when writing its content
 reallocated the stack

---
 node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..92e08db 100644
--- a/node.go
+++ b/node.go
@@ -156,6 +156,9 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// writing the node's own content may have reallocated w.nodes, in which
+		// case n refers to the old backing array.
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From 45e63ca4d977246f478daf4386d46c0f9ef4928e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 02/15] fix: do not swallow errors raised while opening the
 parent node

---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 837534f081ac2482168c59e1c6696618aa420532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 03/15] fix: validate the public ID of a Notation that has no
 system ID

---
 printer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/printer.go b/printer.go
index cca62d5..111d5c2 100644
--- a/printer.go
+++ b/printer.go
@@ -227,9 +227,12 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 
 func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
 	if enforce {
-		if len(publicID) < 0 {
+		if len(publicID) == 0 {
 			return fmt.Errorf("xmlwriter: public ID must not be empty")
 		}
+		if err := CheckPubID(publicID); err != nil {
+			return err
+		}
 	}
 	p.WriteString("PUBLIC ")
 	p.WriteByte('"')
-- 
2.43.0


From 85457854d5ab23799c39a567e6f869d1e6d65ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 04/15] fix: NodeKind.Name panicked on negative kinds and had
 no name for PINode

---
 nodekind.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index eda607c..646a0e4 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
@@ -70,6 +70,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +112,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From 4bf7a5f9bc41bab0cca25dcd8c70f7e79dd52ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 05/15] fix: keep indentation away from text written through
 Elem.Content

---
 node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 92e08db..689eb17 100644
--- a/node.go
+++ b/node.go
@@ -125,6 +125,12 @@ func (n *node) opened(w *Writer) error {
 		}
 	}
 
+	// The node's own content is written by opened(), so this transition must be
+	// recorded first: the content's events come after it.
+	if w.Indenter != nil {
+		w.last = Event{n.state, n.kind, n.children}
+	}
+
 	switch n.kind {
 	case CommentNode:
 		err = n.comment.opened(n, w, st)
@@ -142,9 +148,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	if w.Indenter != nil {
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From b9964062ed6084adedbecfdbb1c2f2476175b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 06/15] fix: CheckChars ignored its strict argument and
 accepted invalid UTF-8

---
 check.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/check.go b/check.go
index 8163d50..df75e27 100644
--- a/check.go
+++ b/check.go
@@ -2,6 +2,7 @@ package xmlwriter
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 // CheckEncoding validates the characters in a Doc{} node's encoding="..."
@@ -56,13 +57,16 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
+		valid := rn == 0x9 || rn == 0xA || rn == 0xD ||
 			(rn >= 0x20 && rn <= 0xD7FF) ||
 			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
+			(rn >= 0x10000 && rn <= 0x10FFFF)
+		if valid && rn == utf8.RuneError {
+			// ranging over invalid UTF-8 yields U+FFFD with a width of 1
+			_, width := utf8.DecodeRuneInString(chars[i:])
+			valid = width != 1
 		}
-		if strict {
+		if valid && strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
 			// characters defined in the following ranges are also discouraged.
@@ -76,10 +80,12 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				valid = false
 			}
 		}
-		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
+		if !valid {
+			return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 3c3ecf968762436413de1488af827f8c49a07353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 07/15] fix: enforce comment and cdata delimiters over more
 than one write

---
 node.go  | 13 +++++++++++++
 nodes.go | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/node.go b/node.go
index 689eb17..07b3047 100644
--- a/node.go
+++ b/node.go
@@ -64,6 +64,10 @@ type node struct {
 	// of an element if the element only contains cdata or comments
 	hasIndenter bool
 
+	// the last two bytes of the content written to a comment or cdata node, so
+	// that a delimiter split over more than one write can be detected.
+	tail [2]byte
+
 	// bogus tagged union, this keeps things from escaping to the heap
 	kind       NodeKind
 	flag       nodeFlag
@@ -79,6 +83,15 @@ func (n *node) clear() {
 	*n = node{}
 }
 
+// wrote records the last two bytes of the content written to the node.
+func (n *node) wrote(s string) {
+	if len(s) > 1 {
+		n.tail[0], n.tail[1] = s[len(s)-2], s[len(s)-1]
+	} else if len(s) == 1 {
+		n.tail[0], n.tail[1] = n.tail[1], s[0]
+	}
+}
+
 func (n *node) open(w *Writer) error {
 	var err error
 
diff --git a/nodes.go b/nodes.go
index 2dd7fd0..0dbf8e7 100644
--- a/nodes.go
+++ b/nodes.go
@@ -78,6 +78,13 @@ func (c CommentContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CommentContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		if w.Enforce && len(s) > 0 && n.tail[1] == '-' && s[0] == '-' {
+			return fmt.Errorf("xmlwriter: comment may not contain '--'")
+		}
+		n.wrote(s)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
@@ -133,6 +140,9 @@ func (c Comment) opened(n *node, w *Writer, prev NodeState) error {
 }
 
 func (c Comment) end(n *node, w *Writer, prev NodeState) error {
+	if w.Enforce && n.tail[1] == '-' {
+		return fmt.Errorf("xmlwriter: comment may not end with '-'")
+	}
 	w.printer.WriteString("-->")
 	return w.printer.cachedWriteError()
 }
@@ -161,6 +171,14 @@ func (c CDataContent) write(w *Writer) error {
 	if err := w.writeBeginNext(CDataContentNode); err != nil {
 		return err
 	}
+	if w.current >= 0 {
+		n := &w.nodes[w.current]
+		if w.Enforce && n.tail[1] == ']' &&
+			((n.tail[0] == ']' && strings.HasPrefix(s, ">")) || strings.HasPrefix(s, "]>")) {
+			return fmt.Errorf("xmlwriter: cdata may not contain ']]>'")
+		}
+		n.wrote(s)
+	}
 	if _, err := w.printer.WriteString(s); err != nil {
 		return err
 	}
-- 
2.43.0


From ae040e6a3b6bfb08c94f1e168b4292cd1203f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 08/15] fix: reject an attr written after its element start tag
 was closed

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..781ba2a 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr written after the element was opened")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 17bc38158cc19d106737a70f5a4f736fc357ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 09/15] fix: reject an attr with an empty name

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index 781ba2a..8b62fa0 100644
--- a/attr.go
+++ b/attr.go
@@ -79,6 +79,9 @@ func (a Attr) write(w *Writer) error {
 	if a.Prefix != "" {
 		name = a.Prefix + ":" + name
 	}
+	if w.Enforce && name == "" {
+		return fmt.Errorf("xmlwriter: attr name must not be empty")
+	}
 
 	if a.URI != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
-- 
2.43.0


From 36c40bcafb790b751e5b558d2047e97a5f41d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 10/15] fix: ErrCollector.Do replaced the first error on later
 calls

---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From c2576537c97eeaec02cceb2511ccc5e3b0a040fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 11/15] fix: StandardIndenter panicked when ending a node was
 retried after an error

---
 indenter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indenter.go b/indenter.go
index af51eb4..245deb2 100644
--- a/indenter.go
+++ b/indenter.go
@@ -80,7 +80,7 @@ func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 		if next.State == StateOpened {
 			s.stack = append(s.stack, indentLevel{e: last})
 			s.depth++
-		} else if next.State == StateEnded {
+		} else if next.State == StateEnded && s.depth > 0 {
 			isInline = s.stack[s.depth].indents == 0
 			s.depth--
 			s.stack = s.stack[:len(s.stack)-1]
-- 
2.43.0


From 340ea6ec222078ce3f0f55e589556fb7b6da7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 12/15] fix: do not declare an empty namespace prefix for an
 attr that has a URI only

---
 attr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index 8b62fa0..fd4d4f3 100644
--- a/attr.go
+++ b/attr.go
@@ -83,7 +83,7 @@ func (a Attr) write(w *Writer) error {
 		return fmt.Errorf("xmlwriter: attr name must not be empty")
 	}
 
-	if a.URI != "" && w.current >= 0 {
+	if a.Prefix != "" && a.URI != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
 		found := false
 		fail := false
-- 
2.43.0


From 7e47cf61d58eb565501862e28ed7ca99dcde5da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 13/15] fix: EndToDepth closed the node at the depth when
 nothing was open above it

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index ee6037e..e3d07f4 100644
--- a/writer.go
+++ b/writer.go
@@ -417,6 +417,9 @@ func (w *Writer) EndAll() error {
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
 	limit := depth + 1
+	if w.current < limit {
+		return fmt.Errorf("xmlwriter: could not pop node")
+	}
 	for {
 		if w.current <= limit {
 			break
-- 
2.43.0


From 0d131ce3a9d02abadaf8e18f0e590e08513123f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 14/15] fix: EndToDepth with the largest depth ended every node

---
 writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index e3d07f4..ac90566 100644
--- a/writer.go
+++ b/writer.go
@@ -416,10 +416,10 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
-	limit := depth + 1
-	if w.current < limit {
+	if w.current <= depth {
 		return fmt.Errorf("xmlwriter: could not pop node")
 	}
+	limit := depth + 1
 	for {
 		if w.current <= limit {
 			break
-- 
2.43.0


From 48636190050e9bbcf7f0319ed74f98d544ba2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 15/15] fix: a refused EndElemFull left the element marked for
 the long form

---
 writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index ac90566..926a2bf 100644
--- a/writer.go
+++ b/writer.go
@@ -324,10 +324,17 @@ func (w *Writer) EndElem(name ...string) error { return w.End(ElemNode, name...)
 // the current node is not an Elem. It will always be closed using the full
 // element close style even if it contains no children: "<tag></tag>".
 func (w *Writer) EndElemFull(name ...string) error {
-	if w.current >= 0 {
-		w.nodes[w.current].elem.Full = true
+	if w.current < 0 {
+		return w.End(ElemNode, name...)
+	}
+	cur := w.current
+	full := w.nodes[cur].elem.Full
+	w.nodes[cur].elem.Full = true
+	err := w.End(ElemNode, name...)
+	if err != nil {
+		w.nodes[cur].elem.Full = full
 	}
-	return w.End(ElemNode, name...)
+	return err
 }
 
 // EndAny ends the current node, regardless of what kind of node it is.
-- 
2.43.0

