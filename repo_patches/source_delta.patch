From b824f03f5a64ab8ae777cdf058a3d3992e2ff899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 01/13] fix: do not use a stale node pointer after the node
 stack grows

---
 node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node.go b/node.go
index f26ee9e..779705e 100644
--- a/node.go
+++ b/node.go
@@ -142,6 +142,8 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
+	// writing the node's content may have reallocated w.nodes
+	n = &w.nodes[w.current]
 	if w.Indenter != nil {
 		w.last = Event{n.state, n.kind, n.children}
 	}
@@ -156,6 +158,8 @@ func (n *node) end(w *Writer) error {
 		if err := w.nodes[w.current].opened(w); err != nil {
 			return err
 		}
+		// writing the node's content may have reallocated w.nodes
+		n = &w.nodes[w.current]
 	}
 
 	n.state = StateEnded
-- 
2.43.0


From 51370331349464468595af9cb6886132885e9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:32 +0000
Subject: [PATCH 02/13] fix: return the error from Next when beginning a write

---
 writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index ee9c6dd..ee6037e 100644
--- a/writer.go
+++ b/writer.go
@@ -484,7 +484,9 @@ func (w *Writer) checkParent(nodeFlags nodeFlag) error {
 }
 
 func (w *Writer) writeBeginNext(kind NodeKind) error {
-	w.Next()
+	if err := w.Next(); err != nil {
+		return err
+	}
 	return w.writeBeginCur(kind)
 }
 
-- 
2.43.0


From 9ddae9f68eaddde5258402d1580e60e0cf58b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 03/13] fix: return the write error from EscapeString and
 EscapeAttrString

---
 printer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/printer.go b/printer.go
index cca62d5..a1374e3 100644
--- a/printer.go
+++ b/printer.go
@@ -84,7 +84,7 @@ func (p printer) EscapeAttrString(s string) error {
 		}
 	}
 	p.WriteString(s)
-	return nil
+	return p.cachedWriteError()
 
 slow:
 	var esc []byte
@@ -123,7 +123,7 @@ slow:
 		last = i
 	}
 	p.WriteString(s[last:])
-	return nil
+	return p.cachedWriteError()
 }
 
 func (p printer) EscapeString(s string) error {
@@ -155,7 +155,7 @@ func (p printer) EscapeString(s string) error {
 		last = i
 	}
 	p.WriteString(s[last:])
-	return nil
+	return p.cachedWriteError()
 }
 
 func (p printer) writeExternalID(publicID string, systemID string, enforce bool) error {
-- 
2.43.0


From 6231280f03aad0e0ddb3aa1836cf5ad4d14d0da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 04/13] fix: exclude the discouraged characters in CheckChars
 when strict

---
 check.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/check.go b/check.go
index 8163d50..d426990 100644
--- a/check.go
+++ b/check.go
@@ -56,12 +56,6 @@ func CheckName(name string) error {
 // that unicode characters referenced in the note are also excluded.
 func CheckChars(chars string, strict bool) error {
 	for i, rn := range chars {
-		if rn == 0x9 || rn == 0xA || rn == 0xD ||
-			(rn >= 0x20 && rn <= 0xD7FF) ||
-			(rn >= 0xE000 && rn <= 0xFFFD) ||
-			(rn >= 0x10000 && rn <= 0x10FFFF) {
-			continue
-		}
 		if strict {
 			// Document authors are encouraged to avoid "compatibility
 			// characters", as defined in section 2.3 of [Unicode]. The
@@ -76,9 +70,15 @@ func CheckChars(chars string, strict bool) error {
 				(rn >= 0xAFFFE && rn <= 0xAFFFF) || (rn >= 0xBFFFE && rn <= 0xBFFFF) || (rn >= 0xCFFFE && rn <= 0xCFFFF) ||
 				(rn >= 0xDFFFE && rn <= 0xDFFFF) || (rn >= 0xEFFFE && rn <= 0xEFFFF) || (rn >= 0xFFFFE && rn <= 0xFFFFF) ||
 				(rn >= 0x10FFFE && rn <= 0x10FFFF) {
-				continue
+				return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 			}
 		}
+		if rn == 0x9 || rn == 0xA || rn == 0xD ||
+			(rn >= 0x20 && rn <= 0xD7FF) ||
+			(rn >= 0xE000 && rn <= 0xFFFD) ||
+			(rn >= 0x10000 && rn <= 0x10FFFF) {
+			continue
+		}
 		return fmt.Errorf("xmlwriter: invalid chars at position %d: %c", i, rn)
 	}
 	return nil
-- 
2.43.0


From cb6435d7deefe3227252a11b18ecdd86f390239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:38 +0000
Subject: [PATCH 05/13] fix: check the public ID of a Notation without a system
 ID

---
 printer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/printer.go b/printer.go
index a1374e3..3ad173e 100644
--- a/printer.go
+++ b/printer.go
@@ -227,8 +227,8 @@ func (p printer) writeEntityValue(value string, enforce bool) error {
 
 func (p printer) writePublicID(publicID string, systemID string, enforce bool) error {
 	if enforce {
-		if len(publicID) < 0 {
-			return fmt.Errorf("xmlwriter: public ID must not be empty")
+		if err := CheckPubID(publicID); err != nil {
+			return err
 		}
 	}
 	p.WriteString("PUBLIC ")
-- 
2.43.0


From c8fe16c0922b39c3fc98b8021ec50ec18e85c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 06/13] fix: name PINode and do not panic on a negative
 NodeKind

---
 nodekind.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodekind.go b/nodekind.go
index eda607c..646a0e4 100644
--- a/nodekind.go
+++ b/nodekind.go
@@ -12,7 +12,7 @@ type NodeKind int
 // the Name() will be empty. String() returns a human-readable representation
 // for information purposes; if a stable string is required, use this instead.
 func (n NodeKind) Name() string {
-	if int(n) < nodeKindLength {
+	if n >= 0 && int(n) < nodeKindLength {
 		return kindName[n]
 	}
 	return ""
@@ -70,6 +70,7 @@ var kindName = [nodeKindLength]string{
 	DocNode:            "document",
 	ElemNode:           "elem",
 	NotationNode:       "notation",
+	PINode:             "pi",
 	RawNode:            "raw",
 	TextNode:           "text",
 }
@@ -111,6 +112,7 @@ var kindFlag = [nodeKindLength]nodeFlag{
 	DocNode:            docNodeFlag,
 	ElemNode:           elemNodeFlag,
 	NotationNode:       notationNodeFlag,
+	PINode:             pINodeFlag,
 	RawNode:            rawNodeFlag,
 	TextNode:           textNodeFlag,
 }
-- 
2.43.0


From 5a993951b1a01c0ab2c33fdfefe9e7e472c637ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 07/13] fix: keep the first error across calls to
 ErrCollector.Do

---
 errs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errs.go b/errs.go
index fd50dc0..2788c81 100644
--- a/errs.go
+++ b/errs.go
@@ -112,6 +112,9 @@ func (e *ErrCollector) Set(err *error) {
 // that subsequent calls after the first error are safe to make.
 //
 func (e *ErrCollector) Do(errs ...error) {
+	if e.Err != nil {
+		return
+	}
 	for i, err := range errs {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
-- 
2.43.0


From 781de27d904c81b494cb2185d05982051f171793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 08/13] fix: reject an attribute once the start tag of the
 element is closed

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index f81acbf..5a0b0b5 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
+			return fmt.Errorf("xmlwriter: attr must be written before the content of the elem")
+		}
 	}
 
 	if w.Indenter != nil {
-- 
2.43.0


From 5f66551c1c464b99408fe6be3da3ff72c469ae07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 09/13] fix: do not declare a namespace for an attribute
 without a prefix

---
 attr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index 5a0b0b5..ee2c652 100644
--- a/attr.go
+++ b/attr.go
@@ -80,7 +80,7 @@ func (a Attr) write(w *Writer) error {
 		name = a.Prefix + ":" + name
 	}
 
-	if a.URI != "" && w.current >= 0 {
+	if a.Prefix != "" && a.URI != "" && w.current >= 0 {
 		ns := ns{prefix: a.Prefix, uri: a.URI}
 		found := false
 		fail := false
-- 
2.43.0


From 094cf74cf3a8ca92d28839d9cb10f5648bf9d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 10/13] fix: do not end the node below the depth passed to
 EndToDepth

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index ee6037e..5d9edc3 100644
--- a/writer.go
+++ b/writer.go
@@ -416,6 +416,9 @@ func (w *Writer) EndAll() error {
 //	}
 //
 func (w *Writer) EndToDepth(depth int, kind NodeKind, name ...string) error {
+	if w.current <= depth {
+		return fmt.Errorf("xmlwriter: no nodes to end above depth %d", depth)
+	}
 	limit := depth + 1
 	for {
 		if w.current <= limit {
-- 
2.43.0


From 4f118bc161370acf74fd2d3bb3d663415f79189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 11/13] fix: reject an attribute without a name

---
 attr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attr.go b/attr.go
index ee2c652..8192899 100644
--- a/attr.go
+++ b/attr.go
@@ -64,6 +64,9 @@ func (a Attr) write(w *Writer) error {
 		if err := w.checkParent(noNodeFlag | elemNodeFlag); err != nil {
 			return err
 		}
+		if a.Name == "" {
+			return fmt.Errorf("xmlwriter: attr name must not be empty")
+		}
 		if w.current >= 0 && w.nodes[w.current].state != StateOpen {
 			return fmt.Errorf("xmlwriter: attr must be written before the content of the elem")
 		}
-- 
2.43.0


From 68245257d3e769495adcce2104ec35b9b7d506f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 12/13] fix: record the opened event before the content of the
 node is written

---
 node.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/node.go b/node.go
index 779705e..340d59b 100644
--- a/node.go
+++ b/node.go
@@ -123,6 +123,8 @@ func (n *node) opened(w *Writer) error {
 		if err := w.writeIndent(ev); err != nil {
 			return err
 		}
+		// set before the node's content is written, which sets it again
+		w.last = ev
 	}
 
 	switch n.kind {
@@ -142,11 +144,6 @@ func (n *node) opened(w *Writer) error {
 		// FIXME
 		panic(nil)
 	}
-	// writing the node's content may have reallocated w.nodes
-	n = &w.nodes[w.current]
-	if w.Indenter != nil {
-		w.last = Event{n.state, n.kind, n.children}
-	}
 	return err
 }
 
-- 
2.43.0


From 4e734a25e2b3d0ba39424a3a7fdac68f67cd91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 13/13] fix: leave the indenter's depth alone once the output
 has failed

---
 indenter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indenter.go b/indenter.go
index af51eb4..982848f 100644
--- a/indenter.go
+++ b/indenter.go
@@ -58,6 +58,12 @@ func (s *StandardIndenter) Wrap(content string) string {
 func (s *StandardIndenter) Indent(w *Writer, last Event, next Event) error {
 	// fmt.Print(next.String())
 
+	// nothing can be written any more; a node whose end failed stays on the
+	// writer's stack, so ending it again must not close another level
+	if err := w.printer.cachedWriteError(); err != nil {
+		return err
+	}
+
 	isIndenting := (next.Node == ElemNode || next.Node == DTDNode ||
 		next.Node == DTDAttListNode)
 
-- 
2.43.0

