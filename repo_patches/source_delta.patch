From 56ea5385b8d71562f7048fc61367a140762fcefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:56 +0000
Subject: [PATCH 01/46] fix: do not panic on a filter value that is a single
 quote character

---
 filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..641265d 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,9 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	// A lone quote character is both prefix and suffix, so require a real pair
+	if len(value) >= 2 && ((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From ba32117d301f7a9c40858ab00c351154b32d5f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:53 +0000
Subject: [PATCH 02/46] fix: locate modification targets in the original
 document bytes

Set, append and Delete searched nested elements in normalized content and
used those offsets in the original document. Documents with whitespace in
tags, single-quoted attributes or whitespace in closing tags were corrupted.
---
 builder.go | 51 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..fdf0a9f 100644
--- a/builder.go
+++ b/builder.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"fmt"
 	"sort"
 	"strings"
@@ -171,6 +172,7 @@ type elementLocation struct {
 	endTagPos     int    // Position of '<' in closing tag
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
+	endPos        int    // Position after '>' of closing tag (or of a self-closing tag)
 	elementName   string // Name of the element
 	attrs         map[string]string
 	isSelfClosing bool
@@ -225,7 +227,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 					} else {
 						_ = parser.parseElementContent(elemName)
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+						endTagPos = closingTagStart(parser, contentStart) // at '<' of </name>
 						contentEnd = endTagPos
 					}
 					return &elementLocation{
@@ -233,20 +235,22 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endTagPos:     endTagPos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
+						endPos:        parser.pos + baseOffset,
 						elementName:   elemName,
 						attrs:         attrs,
 						isSelfClosing: isSelfClosing,
 					}, true
 				}
 				// Continue searching within this element
-				var content string
+				// Search the original bytes: parseElementContent returns normalized
+				// content whose positions differ from the document
+				var content []byte
 				contentStartPos := parser.pos
-				if isSelfClosing {
-					content = ""
-				} else {
-					content = parser.parseElementContent(elemName)
+				if !isSelfClosing {
+					parser.parseElementContent(elemName)
+					content = parser.data[contentStartPos:closingTagStart(parser, contentStartPos)]
 				}
-				contentParser := newXMLParser([]byte(content))
+				contentParser := newXMLParser(content)
 				// Pass the current content start position as the new base offset
 				// Check for overflow before recursing
 				newOffset := baseOffset + contentStartPos
@@ -273,19 +277,18 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				contentEnd = parser.pos
 				endTagPos = parser.pos
 			} else {
-				startOfContent := parser.pos
 				_ = parser.parseElementContent(elemName)
 				// parser.pos is now just after the '>' of </name>
 				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+				endTagPos = closingTagStart(parser, contentStart) // at '<' of </name>
 				contentEnd = endTagPos
-				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
+				endPos:        parser.pos + baseOffset,
 				elementName:   elemName,
 				attrs:         attrs,
 				isSelfClosing: isSelfClosing,
@@ -293,14 +296,15 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 		}
 
 		// Continue searching within this element
-		var content string
+		// Search the original bytes: parseElementContent returns normalized
+		// content whose positions differ from the document
+		var content []byte
 		contentStartPos := parser.pos
-		if isSelfClosing {
-			content = ""
-		} else {
-			content = parser.parseElementContent(elemName)
+		if !isSelfClosing {
+			parser.parseElementContent(elemName)
+			content = parser.data[contentStartPos:closingTagStart(parser, contentStartPos)]
 		}
-		contentParser := newXMLParser([]byte(content))
+		contentParser := newXMLParser(content)
 		// Pass the current content start position as the new base offset
 		// Check for overflow before recursing
 		newOffset := baseOffset + contentStartPos
@@ -314,6 +318,15 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 	return nil, false
 }
 
+// closingTagStart returns the position of the '<' of the closing tag that ends at
+// the parser's position. The closing tag may contain whitespace before its '>'.
+func closingTagStart(parser *xmlParser, contentStart int) int {
+	if pos := bytes.LastIndexByte(parser.data[contentStart:parser.pos], '<'); pos >= 0 {
+		return contentStart + pos
+	}
+	return parser.pos
+}
+
 // replaceElement replaces an element's content in the XML
 func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegment, xmlValue string) error {
 	// Check if this is an attribute operation
@@ -518,8 +531,9 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 	}
 
 	// Find where root element ends
+	contentStart := parser.pos
 	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentEnd := closingTagStart(parser, contentStart)
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1066,8 +1080,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	} else {
 		// Regular element: <tag>content</tag>
 		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
+		b.result.Write(b.data[location.endPos:])
 	}
 
 	return nil
-- 
2.43.0


From 0719532cedd188f9cd9c098c7d8c983c00bc30ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:02 +0000
Subject: [PATCH 03/46] fix: put the value inside a self-closing element on Set

Set on an existing self-closing element wrote the value after the tag.
---
 builder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/builder.go b/builder.go
index fdf0a9f..38712f4 100644
--- a/builder.go
+++ b/builder.go
@@ -337,6 +337,17 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// A self-closing target has no content to replace - expand it first
+		b.openSelfClosing(location)
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.contentEnd:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
@@ -350,6 +361,13 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	return nil
 }
 
+// openSelfClosing writes the document up to a self-closing element and turns that
+// element's tag into an opening tag, keeping its attributes as written.
+func (b *xmlBuilder) openSelfClosing(location *elementLocation) {
+	b.result.Write(b.data[:location.contentStart-len("/>")])
+	b.result.WriteString(">")
+}
+
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
 	// Build new opening tag with updated attribute
-- 
2.43.0


From 161fe084198414ae584a40bf1474c78dbee19913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:08 +0000
Subject: [PATCH 04/46] fix: write attributes in a stable order

Raw content of results and expanded self-closing parents listed attributes
in map iteration order, so repeated calls returned different bytes.
---
 builder.go | 35 ++++++++---------------------------
 parser.go  | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/builder.go b/builder.go
index 38712f4..af3de10 100644
--- a/builder.go
+++ b/builder.go
@@ -523,14 +523,12 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		b.result.WriteString(elemName)
 
 		// Write attributes if any
-		if len(attrs) > 0 {
-			for k, v := range attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
+		for _, k := range sortedAttrNames(attrs) {
+			b.result.WriteString(" ")
+			b.result.WriteString(k)
+			b.result.WriteString(`="`)
+			b.result.WriteString(escapeXML(attrs[k]))
+			b.result.WriteString(`"`)
 		}
 
 		b.result.WriteString(">")
@@ -628,25 +626,8 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 
 	if parentLocation.isSelfClosing {
 		// Parent is self-closing - need to convert to full element
-		// Write everything before the self-closing tag
-		b.result.Write(b.data[:parentLocation.startPos])
-
-		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLocation.elementName)
-
-		// Write attributes if any
-		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		// Write everything before the self-closing tag and its opening tag
+		b.openSelfClosing(parentLocation)
 
 		// Build the missing path
 		b.buildElementPath(remainingPath, xmlValue, isRaw)
diff --git a/parser.go b/parser.go
index 2253de1..ce276e1 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"sort"
 	"strings"
 )
 
@@ -221,6 +222,19 @@ func (p *xmlParser) parseAttributes() map[string]string {
 	return attrs
 }
 
+// sortedAttrNames returns the attribute names in sorted order for deterministic output
+func sortedAttrNames(attrs map[string]string) []string {
+	if len(attrs) == 0 {
+		return nil
+	}
+	names := make([]string, 0, len(attrs))
+	for name := range attrs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 // parseElementName extracts the element name and attributes from an opening tag
 // Assumes the parser is positioned after the '<' character
 // Returns: elementName, attributes, isSelfClosing, error
@@ -307,11 +321,11 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 
 					// Parse attributes and check for self-closing
 					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
+					for _, attrName := range sortedAttrNames(attrs) {
 						content.WriteString(" ")
 						content.WriteString(attrName)
 						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
+						content.WriteString(escapeXML(attrs[attrName]))
 						content.WriteString("\"")
 					}
 
-- 
2.43.0


From 0529cd921a20891baa8b1e6b692253cdfbe224e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:53 +0000
Subject: [PATCH 05/46] fix: refuse to create elements and attributes without a
 valid name

Set created tags such as <></> for index, wildcard and text segments and
wrote any path text as a tag or attribute name, returning malformed XML
without an error. These paths now fail with ErrInvalidPath. Legacy bracket
filter text keeps its previous behavior.
---
 builder.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/builder.go b/builder.go
index af3de10..5b02ff9 100644
--- a/builder.go
+++ b/builder.go
@@ -406,6 +406,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		}
 	}
 	if !attrExists {
+		if err := validateName(attrName); err != nil {
+			return fmt.Errorf("%w: cannot create attribute %q: %v", ErrInvalidPath, attrName, err)
+		}
 		attrNames = append(attrNames, attrName)
 	}
 
@@ -451,6 +454,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Special case: empty XML - create new root element
 	if len(b.data) == 0 {
+		if err := checkCreatable(path); err != nil {
+			return err
+		}
 		return b.createSiblingRoot(path, xmlValue, isRaw)
 	}
 
@@ -471,6 +477,11 @@ func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bo
 		}
 	}
 
+	// Only plain element names can be created
+	if err := checkCreatable(path[parentDepth+1:]); err != nil {
+		return err
+	}
+
 	if parentDepth == -1 || parentLocation == nil {
 		// No parent found in path - need to find root element and append
 		// Skip the first segment if it matches root
@@ -481,6 +492,25 @@ func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bo
 	return b.createInParent(parentLocation, path[parentDepth+1:], xmlValue, isRaw)
 }
 
+// checkCreatable verifies that every segment can be written as a new element.
+// Index, wildcard, filter, text and count segments have no element name, and
+// names that are not valid XML names would produce malformed output.
+func checkCreatable(path []PathSegment) error {
+	for _, seg := range path {
+		if seg.Type != SegmentElement {
+			return fmt.Errorf("%w: cannot create a path segment that is not an element name", ErrInvalidPath)
+		}
+		name := seg.Value
+		if i := strings.IndexByte(name, '['); i > 0 && strings.HasSuffix(name, "]") {
+			name = name[:i] // legacy bracket filters have always been accepted here
+		}
+		if err := validateName(name); err != nil {
+			return fmt.Errorf("%w: cannot create element %q: %v", ErrInvalidPath, seg.Value, err)
+		}
+	}
+	return nil
+}
+
 // createInRoot creates element path starting from root
 func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Check if we should create a sibling root instead
@@ -751,6 +781,9 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if elementSeg.Type != SegmentElement {
 		return fmt.Errorf("%w: can only append elements, not attributes or other types", ErrInvalidPath)
 	}
+	if err := checkCreatable(path[len(path)-2 : len(path)-1]); err != nil {
+		return err
+	}
 
 	// Find parent element location
 	parser := newXMLParser(b.data)
-- 
2.43.0


From 6cc2cb6239bb0bdfe20261dce5a7e09b9b57aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:03 +0000
Subject: [PATCH 06/46] fix: never interpret comments, CDATA, declarations or
 PIs as markup

Tags inside these constructs were matched by queries and ended the enclosing
element, and processing instructions were rewritten in raw content. A literal
'>' in text was dropped and ended text extraction.
---
 parser.go | 76 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/parser.go b/parser.go
index ce276e1..d9d561b 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"sort"
 	"strings"
 )
@@ -306,10 +307,11 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					content.WriteString("</")
 					content.WriteString(closeName)
 					content.WriteString(">")
-				} else if next == '!' {
-					// Comment or CDATA - include in content for now
-					content.WriteByte(c)
-					p.next()
+				} else if next == '!' || next == '?' {
+					// Comment, CDATA, declaration or PI - include as is, never as markup
+					start := p.pos
+					p.pos = opaqueEnd(p.data, p.pos)
+					content.Write(p.data[start:p.pos])
 				} else {
 					// Opening tag of nested element
 					p.next() // skip '<'
@@ -359,6 +361,43 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	return content.String()
 }
 
+// isOpaqueStart reports whether a comment, CDATA section, declaration or
+// processing instruction starts at position pos of content
+func isOpaqueStart(content string, pos int) bool {
+	return pos+1 < len(content) && (content[pos+1] == '!' || content[pos+1] == '?')
+}
+
+// opaqueEnd returns the position after the comment, CDATA section, DOCTYPE, other
+// declaration or processing instruction that starts at pos. Nothing inside these
+// constructs is markup. Returns len(data) if the construct is not terminated.
+func opaqueEnd(data []byte, pos int) int {
+	rest := data[pos:]
+	start, terminator := 2, ">"
+	switch {
+	case bytes.HasPrefix(rest, []byte("<!--")):
+		start, terminator = len("<!--"), "-->"
+	case bytes.HasPrefix(rest, []byte("<![CDATA[")):
+		start, terminator = len("<![CDATA["), "]]>"
+	case len(rest) >= len("<!DOCTYPE") && strings.EqualFold(string(rest[:len("<!DOCTYPE")]), "<!DOCTYPE"):
+		// Declarations may nest in an internal subset: [ ... ]
+		depth := 0
+		for i, c := range rest {
+			if c == '[' {
+				depth++
+			} else if c == ']' {
+				depth--
+			} else if c == '>' && depth == 0 {
+				return pos + i + 1
+			}
+		}
+		return len(data)
+	}
+	if end := bytes.Index(rest[start:], []byte(terminator)); end >= 0 {
+		return pos + start + end + len(terminator)
+	}
+	return len(data)
+}
+
 // extractTextContent extracts only text content, stripping out all XML tags
 func extractTextContent(content string) string {
 	var result strings.Builder
@@ -367,8 +406,12 @@ func extractTextContent(content string) string {
 	for i := 0; i < len(content); i++ {
 		c := content[i]
 		if c == '<' {
+			if isOpaqueStart(content, i) {
+				i = opaqueEnd(stringToBytes(content), i) - 1
+				continue
+			}
 			inTag = true
-		} else if c == '>' {
+		} else if c == '>' && inTag {
 			inTag = false
 		} else if !inTag {
 			result.WriteByte(c)
@@ -388,16 +431,20 @@ func extractDirectTextOnly(content string) string {
 	for i := 0; i < len(content); i++ {
 		c := content[i]
 		if c == '<' {
+			if isOpaqueStart(content, i) {
+				i = opaqueEnd(stringToBytes(content), i) - 1
+				continue
+			}
 			inTag = true
 			// Check if it's an opening or closing tag
 			if i+1 < len(content) && content[i+1] == '/' {
 				// Closing tag
 				depth--
-			} else if i+1 < len(content) && content[i+1] != '!' && content[i+1] != '?' {
+			} else {
 				// Opening tag (not comment or PI)
 				depth++
 			}
-		} else if c == '>' {
+		} else if c == '>' && inTag {
 			// Check for self-closing tag
 			if i > 0 && content[i-1] == '/' {
 				depth--
@@ -452,19 +499,8 @@ func (p *xmlParser) skipToNextElement() bool {
 							continue
 						}
 					}
-					// Skip comment or CDATA
-					p.next() // skip '<'
-					p.next() // skip '!'
-					if p.pos+1 < p.dataLen && p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
-						// Comment: skip to -->
-						for p.pos < p.dataLen-2 {
-							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
-								p.pos += 3
-								break
-							}
-							p.pos++
-						}
-					}
+					// Skip comment, CDATA or other declaration
+					p.pos = opaqueEnd(p.data, p.pos)
 				} else if next == '?' {
 					// Skip processing instruction
 					p.readUntil('>')
-- 
2.43.0


From d9cc137a5c3b9a201ffccde36242844f86f9e555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:10 +0000
Subject: [PATCH 07/46] fix: recognize DOCTYPE case-insensitively in the
 validator

The query parser already does; a mixed-case DOCTYPE with an internal subset
was skipped only up to its first '>'.
---
 validate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/validate.go b/validate.go
index 7e8932d..85e0475 100644
--- a/validate.go
+++ b/validate.go
@@ -3,7 +3,10 @@
 
 package xmldot
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // ValidateError represents an XML validation error with location information
 type ValidateError struct {
@@ -188,7 +191,7 @@ func (p *validatingParser) parseTag() *ValidateError {
 		// Check for DOCTYPE (forbidden for security)
 		if p.pos+7 <= p.dataLen {
 			doctype := string(p.data[p.pos : p.pos+7])
-			if doctype == "DOCTYPE" || doctype == "doctype" {
+			if strings.EqualFold(doctype, "DOCTYPE") {
 				// Skip DOCTYPE for security but don't treat as error
 				return p.skipDOCTYPE()
 			}
-- 
2.43.0


From dcdea4c97561a3996633751a75acf9a8e84857fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:41 +0000
Subject: [PATCH 08/46] fix: keep entity references in attributes that are not
 modified

Changing one attribute, appending to a self-closing parent and reading raw
content rewrote references such as &#10; in other attributes as &amp;#10;.
---
 builder.go | 43 ++++++++++++++-----------------------------
 parser.go  | 31 +++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/builder.go b/builder.go
index 5b02ff9..891d365 100644
--- a/builder.go
+++ b/builder.go
@@ -368,6 +368,13 @@ func (b *xmlBuilder) openSelfClosing(location *elementLocation) {
 	b.result.WriteString(">")
 }
 
+// rawAttrs returns an element's attributes with entity references as written
+func (b *xmlBuilder) rawAttrs(location *elementLocation) map[string]string {
+	parser := newXMLParser(b.data[location.startPos+1 : location.contentStart])
+	parser.readUntilAny(" \t\n\r/>") // skip element name
+	return parser.parseRawAttributes()
+}
+
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
 	// Build new opening tag with updated attribute
@@ -414,7 +421,8 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 
 	sort.Strings(attrNames)
 
-	// Write attributes in sorted order
+	// Write attributes in sorted order, keeping other values as written
+	rawAttrs := b.rawAttrs(location)
 	for _, name := range attrNames {
 		b.result.WriteString(" ")
 		b.result.WriteString(name)
@@ -431,7 +439,7 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		if isModifiedAttr {
 			b.result.WriteString(attrValue)
 		} else {
-			b.result.WriteString(escapeXML(location.attrs[name]))
+			b.result.WriteString(quoteRawAttr(rawAttrs[name]))
 		}
 		b.result.WriteString("\"")
 	}
@@ -808,31 +816,7 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if parentLoc.isSelfClosing {
 		// Convert <parent/> to <parent><child>value</child></parent>
 		b.result.Reset()
-		b.result.Write(b.data[:parentLoc.startPos])
-
-		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLoc.elementName)
-
-		// Preserve attributes
-		if len(parentLoc.attrs) > 0 {
-			// Sort for deterministic output
-			attrNames := make([]string, 0, len(parentLoc.attrs))
-			for name := range parentLoc.attrs {
-				attrNames = append(attrNames, name)
-			}
-			sort.Strings(attrNames)
-
-			for _, name := range attrNames {
-				b.result.WriteString(" ")
-				b.result.WriteString(name)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(parentLoc.attrs[name]))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		b.openSelfClosing(parentLoc)
 
 		// Add new element
 		b.result.WriteString("<")
@@ -1167,12 +1151,13 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 
 	sort.Strings(attrNames)
 
-	// Copy all attributes except the one being deleted
+	// Copy all attributes except the one being deleted, keeping values as written
+	rawAttrs := b.rawAttrs(location)
 	for _, name := range attrNames {
 		b.result.WriteString(" ")
 		b.result.WriteString(name)
 		b.result.WriteString("=\"")
-		b.result.WriteString(escapeXML(location.attrs[name]))
+		b.result.WriteString(quoteRawAttr(rawAttrs[name]))
 		b.result.WriteString("\"")
 	}
 
diff --git a/parser.go b/parser.go
index d9d561b..1aa7d4a 100644
--- a/parser.go
+++ b/parser.go
@@ -168,6 +168,15 @@ func (p *xmlParser) readUntilAny(delims string) string {
 // Returns a map of attribute names to values
 // Optimized: Pre-allocate map with capacity hint to reduce allocations
 func (p *xmlParser) parseAttributes() map[string]string {
+	attrs := p.parseRawAttributes()
+	for name, value := range attrs {
+		attrs[name] = unescapeXML(value)
+	}
+	return attrs
+}
+
+// parseRawAttributes is like parseAttributes but keeps entity references as written
+func (p *xmlParser) parseRawAttributes() map[string]string {
 	attrs := make(map[string]string, 4) // Most elements have 0-4 attributes
 	attrCount := 0
 
@@ -212,11 +221,11 @@ func (p *xmlParser) parseAttributes() map[string]string {
 			p.next() // skip opening quote
 			value := p.readUntil(quote)
 			p.next() // skip closing quote
-			attrs[name] = unescapeXML(value)
+			attrs[name] = value
 		} else {
 			// Unquoted attribute value (read until whitespace or >)
 			value := p.readUntilAny(" \t\n\r/>")
-			attrs[name] = unescapeXML(value)
+			attrs[name] = value
 		}
 	}
 
@@ -322,12 +331,12 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 					content.WriteString(nestedName)
 
 					// Parse attributes and check for self-closing
-					attrs := p.parseAttributes()
+					attrs := p.parseRawAttributes()
 					for _, attrName := range sortedAttrNames(attrs) {
 						content.WriteString(" ")
 						content.WriteString(attrName)
 						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrs[attrName]))
+						content.WriteString(quoteRawAttr(attrs[attrName]))
 						content.WriteString("\"")
 					}
 
@@ -541,6 +550,20 @@ var xmlUnescaper = strings.NewReplacer(
 	"&amp;", "&",
 )
 
+// rawAttrQuoter escapes what a raw attribute value may contain unescaped but a
+// double-quoted one in normalized output may not. Entity references are kept.
+var rawAttrQuoter = strings.NewReplacer(
+	"<", "&lt;",
+	">", "&gt;",
+	"\"", "&quot;",
+	"'", "&apos;",
+)
+
+// quoteRawAttr prepares a raw attribute value for output between double quotes
+func quoteRawAttr(raw string) string {
+	return rawAttrQuoter.Replace(raw)
+}
+
 // escapeXML escapes special XML characters using a pre-compiled replacer
 // for better performance than multiple ReplaceAll calls
 func escapeXML(s string) string {
-- 
2.43.0


From d6d241d49dc4af51747abbc293e381296a0f78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:58 +0000
Subject: [PATCH 09/46] fix: delete the last root element

Deleting the only element of a document returned the document unchanged.
---
 builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 891d365..0bd5602 100644
--- a/builder.go
+++ b/builder.go
@@ -22,6 +22,7 @@ type xmlBuilder struct {
 	result strings.Builder
 	pos    int
 	opts   *Options
+	done   bool // result is complete even if empty (last root deleted)
 }
 
 // newXMLBuilder creates a new XML builder with default options
@@ -1085,6 +1086,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	}
 
 	// Delete the element
+	b.done = true
 	b.result.Reset()
 	b.result.Write(b.data[:location.startPos])
 
@@ -1175,7 +1177,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 
 // getResult returns the built XML string
 func (b *xmlBuilder) getResult() string {
-	if b.result.Len() == 0 {
+	if b.result.Len() == 0 && !b.done {
 		return string(b.data)
 	}
 	return b.result.String()
-- 
2.43.0


From 4195b5ede64bf413dcc07128d1656bd093dd814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:21 +0000
Subject: [PATCH 10/46] fix: let DeleteMany skip paths after every root has
 been deleted

---
 set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index d9a89fa..542eea6 100644
--- a/set.go
+++ b/set.go
@@ -407,7 +407,11 @@ func DeleteManyBytes(xml []byte, paths ...string) ([]byte, error) {
 	result := xml
 	var err error
 
-	for _, path := range uniquePaths {
+	for i, path := range uniquePaths {
+		// Once every element is gone, the remaining paths no longer exist
+		if i > 0 && len(parsePath(path)) > 0 && !newXMLParser(result).skipToNextElement() {
+			continue
+		}
 		result, err = DeleteBytes(result, path)
 		if err != nil {
 			return xml, fmt.Errorf("error deleting path %q: %w", path, err)
-- 
2.43.0


From 7e48ed8d103167481bd23c952a5d82369f177aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:48 +0000
Subject: [PATCH 11/46] fix: apply modifiers exactly once to the complete query
 result

Modifiers were ignored after recursive wildcards, on root-level arrays and by
most option-aware queries, and applied twice after wildcards and filters.
---
 get.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/get.go b/get.go
index c97fb46..7804a95 100644
--- a/get.go
+++ b/get.go
@@ -91,7 +91,25 @@ func GetBytes(xml []byte, path string) Result {
 	parser := newXMLParser(xml)
 
 	// Execute the query
-	return executeQuery(parser, segments, 0)
+	modifiers := takeModifiers(segments)
+	return applyFinalModifiers(executeQuery(parser, segments, 0), modifiers)
+}
+
+// takeModifiers removes the modifiers of the last segment and returns them, so that
+// they can be applied exactly once to the complete result of the query.
+func takeModifiers(segments []PathSegment) []string {
+	last := len(segments) - 1
+	modifiers := segments[last].Modifiers
+	segments[last].Modifiers = nil
+	return modifiers
+}
+
+// applyFinalModifiers applies the modifiers taken from the path to a query result
+func applyFinalModifiers(result Result, modifiers []string) Result {
+	if result.Type == Null || len(modifiers) == 0 {
+		return result
+	}
+	return applyModifiers(result, modifiers)
 }
 
 const (
@@ -868,7 +886,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 			return Result{Type: Null}
 		}
 		parser := newXMLParser(xml)
-		return executeQuery(parser, segments, 0)
+		modifiers := takeModifiers(segments)
+		return applyFinalModifiers(executeQuery(parser, segments, 0), modifiers)
 	}
 
 	// Parse path with options-aware parsing
@@ -881,7 +900,8 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 	parser := newXMLParser(xml)
 
 	// Execute query with options
-	return executeQueryWithOptions(parser, segments, 0, opts)
+	modifiers := takeModifiers(segments)
+	return applyFinalModifiers(executeQueryWithOptions(parser, segments, 0, opts), modifiers)
 }
 
 // parsePathWithOptions parses a path with options-aware parsing.
-- 
2.43.0


From 9bc30df696c6daacfde9ddf307a00a8f12892027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:14 +0000
Subject: [PATCH 12/46] fix: match root-level arrays by local name like nested
 arrays

Index, count and field extraction on root elements compared full names, so a
path name without prefix did not find prefixed roots.
---
 get.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/get.go b/get.go
index 7804a95..570d906 100644
--- a/get.go
+++ b/get.go
@@ -141,6 +141,7 @@ type searchContext struct {
 // Security: Limited to MaxWildcardResults (1000) elements
 func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 	var matches []elementMatch
+	target := PathSegment{Type: SegmentElement, Value: targetName}
 
 	for parser.skipToNextElement() {
 		// Security limit: prevent collecting too many roots
@@ -151,8 +152,8 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 		parser.next() // skip '<'
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
-		// Only collect roots with matching name
-		if elemName != targetName {
+		// Only collect roots with matching name (prefix rules as for nested elements)
+		if !target.matches(elemName) {
 			// Skip non-matching root element
 			if !isSelfClosing {
 				parser.parseElementContent(elemName)
-- 
2.43.0


From a4a6aa6ae162a50d5b9aae1f09b30a6575a1e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:21 +0000
Subject: [PATCH 13/46] fix: return the text of an indexed element below the
 root

A path such as root.item.0.% returned Null; only root-level arrays worked.
---
 get.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/get.go b/get.go
index 570d906..02856bd 100644
--- a/get.go
+++ b/get.go
@@ -544,6 +544,16 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 						return Result{Type: Null}
 					}
 
+					// Check if next segment is text content
+					if segments[segIndex+2].Type == SegmentText {
+						textContent := extractDirectTextOnly(match.content)
+						return Result{
+							Type: String,
+							Str:  unescapeXML(textContent),
+							Raw:  match.content,
+						}
+					}
+
 					// Continue matching within this element
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQuery(contentParser, segments, segIndex+2)
@@ -1270,6 +1280,16 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						return Result{Type: Null}
 					}
 
+					// Check if next segment is text content
+					if segments[segIndex+2].Type == SegmentText {
+						textContent := extractDirectTextOnly(match.content)
+						return Result{
+							Type: String,
+							Str:  unescapeXML(textContent),
+							Raw:  match.content,
+						}
+					}
+
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQueryWithOptions(contentParser, segments, segIndex+2, opts)
 				}
-- 
2.43.0


From 350b13f987e7cfec8580e0966cd4de88b2de3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:55 +0000
Subject: [PATCH 14/46] fix: keep filter conditions whole when splitting a path

A '.' inside #(...) split the path in the middle of the filter, so documented
conditions such as #(rating>=4.5) or #(address.city==Paris) did not work, and a
'|' inside the condition was taken as the start of a modifier.
---
 modifier.go |  6 ++++--
 path.go     | 42 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/modifier.go b/modifier.go
index d2a255f..029b787 100644
--- a/modifier.go
+++ b/modifier.go
@@ -210,8 +210,10 @@ func applyModifiers(r Result, modifierNames []string) Result {
 // parseModifiers extracts modifiers from a path segment.
 // Example: "element|@reverse|@first" → element="element", modifiers=["reverse", "first"]
 func parseModifiers(pathPart string) (elementPath string, modifiers []string) {
-	parts := strings.Split(pathPart, "|")
-	elementPath = parts[0]
+	// A '|' inside a filter condition does not start a modifier
+	filterLen := findFilterEnd(pathPart, 0) + 1
+	parts := strings.Split(pathPart[filterLen:], "|")
+	elementPath = pathPart[:filterLen] + parts[0]
 
 	for i := 1; i < len(parts); i++ {
 		mod := strings.TrimSpace(parts[i])
diff --git a/path.go b/path.go
index 77c47b4..53c2b5f 100644
--- a/path.go
+++ b/path.go
@@ -318,10 +318,17 @@ func splitPath(path string) []string {
 	var parts []string
 	var current strings.Builder
 	escaped := false
+	filterEnd := -1   // position of the ')' that ends the filter being read
+	unclosed := false // an unclosed filter was seen, do not search again
 
 	for i := 0; i < len(path); i++ {
 		c := path[i]
 
+		if !escaped && !unclosed && current.Len() == 0 && strings.HasPrefix(path[i:], "#(") {
+			filterEnd = findFilterEnd(path, i)
+			unclosed = filterEnd < 0
+		}
+
 		if escaped {
 			current.WriteByte(c)
 			escaped = false
@@ -333,7 +340,7 @@ func splitPath(path string) []string {
 			continue
 		}
 
-		if c == '.' {
+		if c == '.' && i > filterEnd {
 			// Split point
 			parts = append(parts, current.String())
 			current.Reset()
@@ -348,6 +355,39 @@ func splitPath(path string) []string {
 	return parts
 }
 
+// findFilterEnd returns the position of the ')' that closes the filter starting
+// at path[start:], or -1 if no complete filter starts there. Parentheses inside
+// quotes and escaped characters do not count.
+func findFilterEnd(path string, start int) int {
+	if !strings.HasPrefix(path[start:], "#(") {
+		return -1
+	}
+
+	depth := 0
+	var quote byte
+	for i := start + 1; i < len(path); i++ {
+		c := path[i]
+		switch {
+		case c == '\\':
+			i++ // skip escaped character
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '\'' || c == '"':
+			quote = c
+		case c == '(':
+			depth++
+		case c == ')':
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
+
 // isNumeric checks if a string is a valid integer
 func isNumeric(s string) bool {
 	if s == "" {
-- 
2.43.0


From 2045a5959aea3eb0dc440b64c8a90b5dc1d38bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:24 +0000
Subject: [PATCH 15/46] fix: accept a minus sign only at the start of an index

Path parts such as 1-2 or -- were read as index 0 or as a reserved index.
---
 path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index 53c2b5f..598b6d3 100644
--- a/path.go
+++ b/path.go
@@ -393,9 +393,9 @@ func isNumeric(s string) bool {
 	if s == "" {
 		return false
 	}
-	for _, c := range s {
+	for i, c := range s {
 		if c < '0' || c > '9' {
-			if c == '-' && len(s) > 1 {
+			if c == '-' && i == 0 && len(s) > 1 {
 				// Allow negative indices
 				continue
 			}
-- 
2.43.0


From fb64e6cd5835f15d96b5c8fb8da22341e644d940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:53 +0000
Subject: [PATCH 16/46] fix: reject malformed or declared raw XML in SetRaw

SetRaw accepted truncated tags, illegal names and lower-case doctype or entity
declarations, which made the resulting document malformed. It also rejected
tags with tabs or newlines and attribute values that contain '>'.
---
 set.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/set.go b/set.go
index 542eea6..28a7a03 100644
--- a/set.go
+++ b/set.go
@@ -126,7 +126,7 @@ func validateRawXML(rawxml string) error {
 				tagNameStart := i
 
 				// Extract tag name
-				for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' {
+				for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) {
 					i++
 				}
 				tagName := rawxml[tagNameStart:i]
@@ -154,7 +154,7 @@ func validateRawXML(rawxml string) error {
 				continue
 			} else if next == '!' || next == '?' {
 				// Comment, CDATA, or PI - skip
-				if i+2 < len(rawxml) && rawxml[i+2] == '-' {
+				if strings.HasPrefix(rawxml[i:], "<!--") {
 					// Comment: <!--
 					endPos := strings.Index(rawxml[i:], "-->")
 					if endPos == -1 {
@@ -179,10 +179,10 @@ func validateRawXML(rawxml string) error {
 					// but we can optionally warn about suspicious patterns
 
 					i = cdataStart + cdataEnd + 3
-				} else if strings.HasPrefix(rawxml[i:], "<!DOCTYPE") {
+				} else if hasPrefixFold(rawxml[i:], "<!DOCTYPE") {
 					// DOCTYPE - REJECT for security
 					return fmt.Errorf("%w: DOCTYPE declarations not allowed in SetRaw", ErrInvalidValue)
-				} else if strings.HasPrefix(rawxml[i:], "<!ENTITY") {
+				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
 				} else {
@@ -199,7 +199,7 @@ func validateRawXML(rawxml string) error {
 			// Opening tag - extract tag name
 			i++
 			tagNameStart := i
-			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' && rawxml[i] != '/' {
+			for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) && rawxml[i] != '/' {
 				i++
 			}
 			tagName := rawxml[tagNameStart:i]
@@ -211,6 +211,15 @@ func validateRawXML(rawxml string) error {
 			// Check for self-closing
 			isSelfClosing := false
 			for i < len(rawxml) {
+				if rawxml[i] == '"' || rawxml[i] == '\'' {
+					// Quoted attribute value - nothing inside ends the tag
+					endPos := strings.IndexByte(rawxml[i+1:], rawxml[i])
+					if endPos == -1 {
+						return ErrInvalidValue
+					}
+					i += endPos + 2
+					continue
+				}
 				if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {
 					isSelfClosing = true
 					i += 2
@@ -236,9 +245,19 @@ func validateRawXML(rawxml string) error {
 		return ErrInvalidValue
 	}
 
+	// Verify the fragment is well-formed as element content (names, attributes, tag ends)
+	if !Valid("<raw>" + rawxml + "</raw>") {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
+// hasPrefixFold reports whether s starts with prefix, ignoring ASCII letter case
+func hasPrefixFold(s, prefix string) bool {
+	return len(s) >= len(prefix) && strings.EqualFold(s[:len(prefix)], prefix)
+}
+
 // SetMany performs multiple Set operations, applying each modification
 // sequentially. This is more convenient than calling Set multiple times manually.
 // If multiple paths overlap, later operations take precedence.
-- 
2.43.0


From 3ec8ede71e69ec3194e609106c09e81a0203b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:13 +0000
Subject: [PATCH 17/46] fix: search all namesakes for the target of Set and
 Delete

Only the first element of a name was searched, so Delete left an element in
place and Set created a second one although Get finds the existing node in a
later sibling.
---
 builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 0bd5602..8361d04 100644
--- a/builder.go
+++ b/builder.go
@@ -313,7 +313,10 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 			// Overflow detected
 			return nil, false
 		}
-		return b.findElementLocation(contentParser, segments, segIndex+1, newOffset)
+		if location, found := b.findElementLocation(contentParser, segments, segIndex+1, newOffset); found {
+			return location, true
+		}
+		// Not in this element - try the next one with the same name, as Get does
 	}
 
 	return nil, false
-- 
2.43.0


From 4a900da9c14ca34f98aac790f536ed60f44af6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:21 +0000
Subject: [PATCH 18/46] fix: search all namesakes for the attribute to set or
 delete

The attribute was only looked up on the first matching element, while Get also
returns it from a later branch of the document.
---
 builder.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/builder.go b/builder.go
index 8361d04..61b821c 100644
--- a/builder.go
+++ b/builder.go
@@ -23,6 +23,8 @@ type xmlBuilder struct {
 	pos    int
 	opts   *Options
 	done   bool // result is complete even if empty (last root deleted)
+
+	wantAttr string // if set, only an element with this attribute is a target
 }
 
 // newXMLBuilder creates a new XML builder with default options
@@ -142,9 +144,12 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
 
-		// Find the parent element
-		parser := newXMLParser(b.data)
-		location, found := b.findElementLocation(parser, elementPath, 0, 0)
+		// Find the element that has the attribute, or else the first that can get it
+		location, found := b.findAttributeLocation(elementPath, attrName)
+		if !found {
+			parser := newXMLParser(b.data)
+			location, found = b.findElementLocation(parser, elementPath, 0, 0)
+		}
 		if !found {
 			// Parent element doesn't exist - create it with the attribute
 			return b.createElementForAttribute(elementPath, path[len(path)-1], xmlValue)
@@ -220,6 +225,9 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				// This is the indexed element we want
 				if segIndex+2 == len(segments) {
 					// This is the target element
+					if !b.hasWantedAttr(attrs) {
+						return nil, false
+					}
 					contentStart := parser.pos
 					var contentEnd, endTagPos int
 					if isSelfClosing {
@@ -272,6 +280,9 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 		// Not an array operation
 		if isLastSegment {
 			// Found the target element
+			if !b.hasWantedAttr(attrs) {
+				return nil, false
+			}
 			contentStart := parser.pos
 			var contentEnd, endTagPos int
 			if isSelfClosing {
@@ -322,6 +333,30 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 	return nil, false
 }
 
+// findAttributeLocation locates the element whose existing attribute Get would return
+func (b *xmlBuilder) findAttributeLocation(elementPath []PathSegment, attrName string) (*elementLocation, bool) {
+	b.wantAttr = attrName
+	defer func() { b.wantAttr = "" }()
+	return b.findElementLocation(newXMLParser(b.data), elementPath, 0, 0)
+}
+
+// hasWantedAttr checks for the attribute required by findAttributeLocation, if any
+func (b *xmlBuilder) hasWantedAttr(attrs map[string]string) bool {
+	if b.wantAttr == "" {
+		return true
+	}
+	if b.opts.CaseSensitive {
+		_, exists := attrs[b.wantAttr]
+		return exists
+	}
+	for name := range attrs {
+		if toLowerASCII(name) == toLowerASCII(b.wantAttr) {
+			return true
+		}
+	}
+	return false
+}
+
 // closingTagStart returns the position of the '<' of the closing tag that ends at
 // the parser's position. The closing tag may contain whitespace before its '>'.
 func closingTagStart(parser *xmlParser, contentStart int) int {
@@ -1067,8 +1102,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 			return ErrInvalidPath
 		}
 		parentPath := path[:len(path)-1]
-		parser := newXMLParser(b.data)
-		location, found := b.findElementLocation(parser, parentPath, 0, 0)
+		location, found := b.findAttributeLocation(parentPath, lastSeg.Value)
 		if !found {
 			// Parent doesn't exist - return original XML unchanged
 			b.result.Reset()
-- 
2.43.0


From 7f1c7c4a94dd09967de882b0d1a209906fbae5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:28 +0000
Subject: [PATCH 19/46] fix: keep raw values inside the attribute they are set
 on

A raw value with a quote character could end the attribute and add others, or
make the document malformed.
---
 builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder.go b/builder.go
index 61b821c..eebd5ff 100644
--- a/builder.go
+++ b/builder.go
@@ -143,6 +143,10 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		// This is an attribute set, not element set
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
+		if isRaw {
+			// Raw text must not end the attribute value
+			xmlValue = quoteRawAttr(xmlValue)
+		}
 
 		// Find the element that has the attribute, or else the first that can get it
 		location, found := b.findAttributeLocation(elementPath, attrName)
-- 
2.43.0


From 8059830324e68fc4034678a306c5d577af8cfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:36 +0000
Subject: [PATCH 20/46] fix: never return a document that later calls reject

Set could add a 101st attribute, grow a document past the maximum size or nest
raw XML too deeply. Such results were rejected as malformed by the next call.
---
 builder.go |  3 +++
 set.go     | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index eebd5ff..e1efad5 100644
--- a/builder.go
+++ b/builder.go
@@ -459,6 +459,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		if err := validateName(attrName); err != nil {
 			return fmt.Errorf("%w: cannot create attribute %q: %v", ErrInvalidPath, attrName, err)
 		}
+		if len(attrNames) >= MaxAttributes {
+			return fmt.Errorf("%w: element already has the maximum of %d attributes", ErrInvalidValue, MaxAttributes)
+		}
 		attrNames = append(attrNames, attrName)
 	}
 
diff --git a/set.go b/set.go
index 28a7a03..fe55d9c 100644
--- a/set.go
+++ b/set.go
@@ -507,7 +507,16 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 		return xml, err
 	}
 
-	return []byte(builder.getResult()), nil
+	// Security check: the result must stay within the limits for documents
+	result := []byte(builder.getResult())
+	if len(result) > MaxDocumentSize {
+		return xml, fmt.Errorf("%w: resulting document exceeds maximum size", ErrInvalidValue)
+	}
+	if _, isRaw := value.([]byte); isRaw && !ValidBytes(result) {
+		return xml, fmt.Errorf("%w: raw value makes the document malformed", ErrInvalidValue)
+	}
+
+	return result, nil
 }
 
 // DeleteBytesWithOptions is like DeleteBytes but accepts Options for behavioral control.
-- 
2.43.0


From 111864edcc5bf96ab135686edab7e11958c245e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:09 +0000
Subject: [PATCH 21/46] fix: skip attributes beyond the maximum instead of
 reading them as text

The rest of an opening tag after 100 attributes became part of the element's
text, and a self-closing element was read as open.
---
 parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/parser.go b/parser.go
index 1aa7d4a..86e2b28 100644
--- a/parser.go
+++ b/parser.go
@@ -185,6 +185,7 @@ func (p *xmlParser) parseRawAttributes() map[string]string {
 
 		// Security check: enforce maximum attribute count to prevent DoS attacks
 		if attrCount >= MaxAttributes {
+			p.skipAttributes()
 			break
 		}
 
@@ -232,6 +233,23 @@ func (p *xmlParser) parseRawAttributes() map[string]string {
 	return attrs
 }
 
+// skipAttributes advances to the '/' or '>' that ends an opening tag
+func (p *xmlParser) skipAttributes() {
+	for p.pos < p.dataLen {
+		c := p.data[p.pos]
+		if c == '>' || (c == '/' && p.pos+1 < p.dataLen && p.data[p.pos+1] == '>') {
+			return
+		}
+		p.pos++
+		if c == '"' || c == '\'' {
+			for p.pos < p.dataLen && p.data[p.pos] != c {
+				p.pos++
+			}
+			p.next() // skip closing quote
+		}
+	}
+}
+
 // sortedAttrNames returns the attribute names in sorted order for deterministic output
 func sortedAttrNames(attrs map[string]string) []string {
 	if len(attrs) == 0 {
-- 
2.43.0


From 3c02c6e80988f52ca39412ecade86459644bed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:16 +0000
Subject: [PATCH 22/46] fix: make case-insensitive attribute lookup
 deterministic

With attributes that differ only in letter case the answer depended on map
iteration order, and wildcard queries returned such an element twice.
---
 get.go    | 115 ++++++++++++++++++++++++------------------------------
 parser.go |  11 ++++++
 2 files changed, 61 insertions(+), 65 deletions(-)

diff --git a/get.go b/get.go
index 02856bd..788811f 100644
--- a/get.go
+++ b/get.go
@@ -1188,16 +1188,14 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 < len(segments) {
-							return Result{Type: Null}
-						}
-						return Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						}
+				if v, ok := lookupAttrFold(attrs, attrName); ok {
+					if segIndex+2 < len(segments) {
+						return Result{Type: Null}
+					}
+					return Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
 					}
 				}
 				return Result{Type: Null}
@@ -1259,13 +1257,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
-								if toLowerASCII(k) == attrName {
-									return Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									}
+							if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+								return Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
 								}
 							}
 							return Result{Type: Null}
@@ -1346,15 +1342,13 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 >= len(segments) {
-							allResults = append(allResults, Result{
-								Type: Attribute,
-								Str:  v,
-								Raw:  v,
-							})
-						}
+				if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+					if segIndex+2 >= len(segments) {
+						allResults = append(allResults, Result{
+							Type: Attribute,
+							Str:  v,
+							Raw:  v,
+						})
 					}
 				}
 				continue
@@ -1487,15 +1481,13 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
-							if toLowerASCII(k) == attrName {
-								if segIndex+2 >= len(segments) {
-									*ctx.results = append(*ctx.results, Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									})
-								}
+						if v, ok := lookupAttrFold(attrs, attrName); ok {
+							if segIndex+2 >= len(segments) {
+								*ctx.results = append(*ctx.results, Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
+								})
 							}
 						}
 					} else {
@@ -1672,16 +1664,13 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrNameLower {
-						results = append(results, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-						totalExtracted++
-						break // Only match first attribute with this name
-					}
+				if v, ok := lookupAttrFold(match.attrs, attrNameLower); ok {
+					results = append(results, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
+					totalExtracted++
 				}
 			} else {
 				// Case-sensitive attribute lookup
@@ -2122,19 +2111,17 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
-				if toLowerASCII(k) == attrName {
-					result := Result{
-						Type: Attribute,
-						Str:  v,
-						Raw:  v,
-					}
-					// Apply modifiers from the attribute segment if present
-					if len(nextSeg.Modifiers) > 0 {
-						result = applyModifiers(result, nextSeg.Modifiers)
-					}
-					return result
+			if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+				result := Result{
+					Type: Attribute,
+					Str:  v,
+					Raw:  v,
 				}
+				// Apply modifiers from the attribute segment if present
+				if len(nextSeg.Modifiers) > 0 {
+					result = applyModifiers(result, nextSeg.Modifiers)
+				}
+				return result
 			}
 			return Result{Type: Null}
 		}
@@ -2213,14 +2200,12 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						allResults = append(allResults, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-					}
+				if v, ok := lookupAttrFold(match.attrs, attrName); ok {
+					allResults = append(allResults, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
 				}
 				continue
 			}
diff --git a/parser.go b/parser.go
index 86e2b28..ebbd1fd 100644
--- a/parser.go
+++ b/parser.go
@@ -263,6 +263,17 @@ func sortedAttrNames(attrs map[string]string) []string {
 	return names
 }
 
+// lookupAttrFold finds an attribute by its lower-case name. If several names differ
+// only in case, the first in sorted order is used so that the answer is stable.
+func lookupAttrFold(attrs map[string]string, lowerName string) (string, bool) {
+	for _, name := range sortedAttrNames(attrs) {
+		if toLowerASCII(name) == lowerName {
+			return attrs[name], true
+		}
+	}
+	return "", false
+}
+
 // parseElementName extracts the element name and attributes from an opening tag
 // Assumes the parser is positioned after the '<' character
 // Returns: elementName, attributes, isSelfClosing, error
-- 
2.43.0


From e0b5a963fde91dce75ecb3e83f30682aed1897fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:44 +0000
Subject: [PATCH 23/46] fix: keep the letter case of names created with
 case-insensitive options

SetWithOptions wrote new elements and attributes in lower case.
---
 set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index fe55d9c..b4e05ed 100644
--- a/set.go
+++ b/set.go
@@ -493,8 +493,8 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 		return DeleteBytesWithOptions(xml, path, opts)
 	}
 
-	// Parse the path with options-aware parsing
-	segments := parsePathWithOptions(path, opts)
+	// Parse the path; matching folds case if needed, but created names keep their case
+	segments := parsePath(path)
 	if len(segments) == 0 {
 		return xml, ErrInvalidPath
 	}
-- 
2.43.0


From c531505a4eb3eae41fbdc1ad301f30833da7ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:51 +0000
Subject: [PATCH 24/46] fix: return an empty array for field extraction from
 missing roots

Field extraction below the root and case-insensitive extraction already return
an empty array when no element matches.
---
 get.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/get.go b/get.go
index 788811f..525fcde 100644
--- a/get.go
+++ b/get.go
@@ -198,7 +198,7 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 			// Array operation on fragment roots - collect all matching roots
 			matches := collectFragmentRoots(parser, currentSeg.Value)
 
-			if len(matches) == 0 {
+			if len(matches) == 0 && nextSeg.Type != SegmentFieldExtraction {
 				return Result{Type: Null}
 			}
 
@@ -961,7 +961,7 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			// Array operation on fragment roots - collect all matching roots
 			matches := collectFragmentRoots(parser, currentSeg.Value)
 
-			if len(matches) == 0 {
+			if len(matches) == 0 && nextSeg.Type != SegmentFieldExtraction {
 				return Result{Type: Null}
 			}
 
-- 
2.43.0


From a9a079c86ff2d4155ce23b29cb99d8d8efba463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:21 +0000
Subject: [PATCH 25/46] fix: support field extraction after wildcards in
 queries with options

The query engine for options lacked the cases that plain queries have.
---
 get.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/get.go b/get.go
index 525fcde..3ad37c7 100644
--- a/get.go
+++ b/get.go
@@ -1336,6 +1336,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	var allResults []Result
+	hasFieldExtraction := false // Track if field extraction is in remaining path
 	for _, match := range matches {
 		nextSeg := segments[segIndex+1]
 
@@ -1378,6 +1379,9 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		contentParser := newXMLParser([]byte(match.content))
 		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 		if result.Type != Null {
+			if result.Type == Array && len(result.Results) == 0 {
+				hasFieldExtraction = true
+			}
 			if result.Type == Array {
 				allResults = append(allResults, result.Results...)
 			} else {
@@ -1387,6 +1391,12 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	if len(allResults) == 0 {
+		if hasFieldExtraction {
+			return Result{
+				Type:    Array,
+				Results: []Result{},
+			}
+		}
 		return Result{Type: Null}
 	}
 
@@ -1508,6 +1518,17 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 						Str:  unescapeXML(textContent),
 						Raw:  content,
 					})
+				case SegmentFieldExtraction:
+					match := elementMatch{
+						name:          elemName,
+						attrs:         attrs,
+						content:       content,
+						isSelfClosing: isSelfClosing,
+					}
+					result := executeFieldExtractionWithOptions([]elementMatch{match}, nextSegment, opts)
+					if result.Type == Array {
+						*ctx.results = append(*ctx.results, result.Results...)
+					}
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
-- 
2.43.0


From 18f327d6e20d9b9adc58d6bb7113ae59fbefc55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:28 +0000
Subject: [PATCH 26/46] fix: resolve names in filter conditions
 case-insensitively when asked to

With CaseSensitive set to false the names inside #(...) were still compared
case-sensitively.
---
 filter.go | 23 +++++++++++++++++++++++
 get.go    |  6 +++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/filter.go b/filter.go
index 641265d..bdad52d 100644
--- a/filter.go
+++ b/filter.go
@@ -362,6 +362,29 @@ func evaluateFilterOnMatch(filter *Filter, match elementMatch) bool {
 	return evaluateFilterWithDepth(filter, match.content, match.attrs, 0)
 }
 
+// evaluateFilterOnMatchWithOptions is like evaluateFilterOnMatch but resolves the
+// names in the condition with Options support.
+func evaluateFilterOnMatchWithOptions(filter *Filter, match elementMatch, opts *Options) bool {
+	if filter == nil || opts == nil || opts.CaseSensitive {
+		return evaluateFilterOnMatch(filter, match)
+	}
+
+	// Resolve the operand case-insensitively, then compare it as an attribute value
+	operand := map[string]string{}
+	if strings.HasPrefix(filter.Path, "@") {
+		if value, exists := lookupAttrFold(match.attrs, toLowerASCII(filter.Path[1:])); exists {
+			operand["value"] = value
+		}
+	} else {
+		parser := newXMLParser([]byte(match.content))
+		result := executeQueryWithOptions(parser, parsePathWithOptions(filter.Path, opts), 0, opts)
+		if result.Exists() {
+			operand["value"] = result.String()
+		}
+	}
+	return evaluateFilterWithDepth(&Filter{Path: "@value", Op: filter.Op, Value: filter.Value}, "", operand, 0)
+}
+
 // isNumericValue checks if a string contains a valid numeric value (int or float).
 // Fast path helper to avoid expensive ParseFloat on non-numeric strings.
 func isNumericValue(s string) bool {
diff --git a/get.go b/get.go
index 3ad37c7..2e03f46 100644
--- a/get.go
+++ b/get.go
@@ -1172,7 +1172,7 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			}
 
 			if hasFilter {
-				if evaluateFilterOnMatch(currentSeg.Filter, match) {
+				if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 					matches = append(matches, match)
 				}
 			} else {
@@ -2055,7 +2055,7 @@ func handleFilterQueryWithOptions(parser *xmlParser, segments []PathSegment, seg
 		}
 
 		// Evaluate filter condition
-		if evaluateFilterOnMatch(currentSeg.Filter, match) {
+		if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 			matches = append(matches, match)
 
 			// Security: enforce result limit
@@ -2087,7 +2087,7 @@ func handleFilterQueryOnMatchesWithOptions(allMatches []elementMatch, segments [
 	// Filter the matches
 	var filteredMatches []elementMatch
 	for _, match := range allMatches {
-		if evaluateFilterOnMatch(currentSeg.Filter, match) {
+		if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 			filteredMatches = append(filteredMatches, match)
 		}
 	}
-- 
2.43.0


From a1e712b32c15eff4ec3530e00b07c0100a923b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:32 +0000
Subject: [PATCH 27/46] fix: allow operator characters inside quoted filter
 values

A two-character operator in the value took precedence over a preceding <, > or
% operator, so conditions such as name%"a!=*" were rejected.
---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index bdad52d..2950a94 100644
--- a/filter.go
+++ b/filter.go
@@ -163,8 +163,8 @@ func parseFilterCondition(expr string) (*Filter, error) {
 			opStr = "!%"
 			opPos = i
 		}
-		if opPos >= 0 {
-			break
+		if opPos >= 0 || expr[i] == '"' || expr[i] == '\'' {
+			break // a quoted value follows the operator
 		}
 	}
 
-- 
2.43.0


From 6620982a1d7289a471beacdca73fbd8c175bab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:03 +0000
Subject: [PATCH 28/46] fix: keep namespace prefixes when pretty-printing

@pretty dropped the prefixes of elements and attributes.
---
 modifier.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/modifier.go b/modifier.go
index 029b787..95945c6 100644
--- a/modifier.go
+++ b/modifier.go
@@ -374,7 +374,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 
 	// Copy tokens from decoder to encoder
 	for {
-		token, err := decoder.Token()
+		token, err := decoder.RawToken()
 		if err != nil {
 			// End of document or parse error
 			if err.Error() == "EOF" {
@@ -396,9 +396,9 @@ func (m *prettyModifier) Apply(r Result) Result {
 			newStartElem := xml.StartElement{
 				Name: xml.Name{
 					Space: "", // Clear namespace to prevent encoder from adding xmlns
-					Local: startElem.Name.Local,
+					Local: prefixedName(startElem.Name),
 				},
-				Attr: dedupedAttrs,
+				Attr: prefixedAttrs(dedupedAttrs),
 			}
 
 			token = newStartElem
@@ -407,7 +407,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 			token = xml.EndElement{
 				Name: xml.Name{
 					Space: "",
-					Local: endElem.Name.Local,
+					Local: prefixedName(endElem.Name),
 				},
 			}
 		}
@@ -417,8 +417,8 @@ func (m *prettyModifier) Apply(r Result) Result {
 		}
 	}
 
-	// Flush the encoder
-	if err := encoder.Flush(); err != nil {
+	// Flush the encoder and check that all elements were closed
+	if err := encoder.Close(); err != nil {
 		return r
 	}
 
@@ -430,6 +430,24 @@ func (m *prettyModifier) Apply(r Result) Result {
 	}
 }
 
+// prefixedName returns a name with its prefix as written in the document
+func prefixedName(name xml.Name) string {
+	if name.Space == "" {
+		return name.Local
+	}
+	return name.Space + ":" + name.Local
+}
+
+// prefixedAttrs moves attribute prefixes into the local names, so that the encoder
+// writes them as they were in the document
+func prefixedAttrs(attrs []xml.Attr) []xml.Attr {
+	result := make([]xml.Attr, 0, len(attrs))
+	for _, attr := range attrs {
+		result = append(result, xml.Attr{Name: xml.Name{Local: prefixedName(attr.Name)}, Value: attr.Value})
+	}
+	return result
+}
+
 // deduplicateXmlnsAttrs removes duplicate xmlns namespace declarations from attributes.
 // Keeps the first occurrence of each unique xmlns declaration.
 func deduplicateXmlnsAttrs(attrs []xml.Attr) []xml.Attr {
-- 
2.43.0


From b8e8ea1d5f3e4a27bb84d5e51a79f8a400247a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:31 +0000
Subject: [PATCH 29/46] fix: keep quotes readable when pretty-printing

@pretty wrote quotes as numeric references, which queries do not resolve.
---
 modifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modifier.go b/modifier.go
index 95945c6..9872bfa 100644
--- a/modifier.go
+++ b/modifier.go
@@ -425,11 +425,15 @@ func (m *prettyModifier) Apply(r Result) Result {
 	return Result{
 		Type: r.Type,
 		Str:  r.Str,
-		Raw:  buf.String(),
+		Raw:  namedQuotes.Replace(buf.String()),
 		Num:  r.Num,
 	}
 }
 
+// namedQuotes turns the encoder's numeric references for quotes into the named ones
+// that queries resolve
+var namedQuotes = strings.NewReplacer("&#34;", "&quot;", "&#39;", "&apos;")
+
 // prefixedName returns a name with its prefix as written in the document
 func prefixedName(name xml.Name) string {
 	if name.Space == "" {
-- 
2.43.0


From fa2152055b3b2d6b8f3a7df65cab21332205f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:38 +0000
Subject: [PATCH 30/46] fix: enforce the result limit for nested wildcards and
 filters

Flattening the results of inner wildcards could return more than
MaxWildcardResults results.
---
 get.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/get.go b/get.go
index 2e03f46..f1010e8 100644
--- a/get.go
+++ b/get.go
@@ -122,6 +122,15 @@ const (
 	MaxRecursiveOperations = 10000
 )
 
+// capResults truncates collected results to MaxWildcardResults. Nested wildcards can
+// collect up to that many results for each of their matches.
+func capResults(results []Result) []Result {
+	if len(results) > MaxWildcardResults {
+		return results[:MaxWildcardResults]
+	}
+	return results
+}
+
 // elementMatch represents a matched element with its attributes and content
 type elementMatch struct {
 	name          string
@@ -687,6 +696,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 	}
 
 	// Package results
+	allResults = capResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
@@ -731,7 +741,7 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 	}
 	return Result{
 		Type:    Array,
-		Results: allResults,
+		Results: capResults(allResults),
 	}
 }
 
@@ -1401,6 +1411,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	// Package results
+	allResults = capResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
@@ -1441,7 +1452,7 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 	}
 	return Result{
 		Type:    Array,
-		Results: allResults,
+		Results: capResults(allResults),
 	}
 }
 
@@ -1981,6 +1992,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 	}
 
 	// Package results
+	allResults = capResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
@@ -2281,6 +2293,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 	}
 
 	// Package results
+	allResults = capResults(allResults)
 	var result Result
 	if len(allResults) == 1 {
 		result = allResults[0]
-- 
2.43.0


From de576ec80054d1e0c9fa631da458ec06da928b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:23:37 +0000
Subject: [PATCH 31/46] fix: answer fluent queries alike for one and for
 several children

For an element with several children a query ran below a temporary root, so
that paths such as #, 0, #(cond) or an empty path addressed this root, and a
path with the maximum number of segments was rejected.
---
 result.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/result.go b/result.go
index 6b311ce..8c29cbf 100644
--- a/result.go
+++ b/result.go
@@ -289,7 +289,7 @@ func (r Result) Get(path string) Result {
 	// Element type: Check if Raw contains multi-root fragment
 	// Multi-root fragments need special handling for array operations (#, #.field, indexing)
 	// Example: <user>A</user><user>B</user> requires wrapping for "user.#" to work
-	if isMultiRootFragment(r.Raw) {
+	if isMultiRootFragment(r.Raw) && canPrependRoot(path) {
 		// Wrap fragment in temporary root element
 		wrapped := "<_xmldot_root>" + r.Raw + "</_xmldot_root>"
 		// Prepend root to path and query
@@ -387,7 +387,7 @@ func (r Result) GetWithOptions(path string, opts *Options) Result {
 
 	// Element type: Check if Raw contains multi-root fragment
 	// Multi-root fragments need special handling for array operations (#, #.field, indexing)
-	if isMultiRootFragment(r.Raw) {
+	if isMultiRootFragment(r.Raw) && canPrependRoot(path) {
 		// Wrap fragment in temporary root element
 		wrapped := "<_xmldot_root>" + r.Raw + "</_xmldot_root>"
 		// Prepend root to path and query
@@ -707,6 +707,17 @@ func addChildToMap(m map[string]Result, name string, child Result) {
 	}
 }
 
+// canPrependRoot reports whether a path means the same below an additional root
+// element. A path that does not start with a name would apply to that root itself,
+// and a path with the maximum number of segments would become too long.
+func canPrependRoot(path string) bool {
+	segments := parsePath(path)
+	if len(segments) == 0 || len(splitPath(path)) >= MaxPathSegments {
+		return false
+	}
+	return segments[0].Type == SegmentElement || segments[0].Type == SegmentWildcard
+}
+
 // isMultiRootFragment detects if XML content contains multiple root-level elements.
 // This is used to identify multi-root fragments that need special handling for
 // array operations (#, #.field, indexing) in Result.Get().
-- 
2.43.0


From e9db9363499522722c3d2359406cf2af60a94f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:25:50 +0000
Subject: [PATCH 32/46] fix: match extracted fields by local name like other
 path names

#.field compared full names, so a name without prefix did not find prefixed
child elements.
---
 get.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/get.go b/get.go
index f1010e8..cc97d1e 100644
--- a/get.go
+++ b/get.go
@@ -1575,6 +1575,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 	// Determine field type (attribute, text, or element)
 	isAttribute := strings.HasPrefix(fieldName, "@")
 	isText := fieldName == "%"
+	field := PathSegment{Type: SegmentElement, Value: fieldName}
 
 	for _, match := range matches {
 		// Security: Check result limit
@@ -1617,7 +1618,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Check if element name matches field name
-				if elemName != fieldName {
+				if !field.matches(elemName) {
 					// Skip this element
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
@@ -1728,10 +1729,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 		} else {
 			// Extract child element(s) with matching name (case-insensitive if needed)
 			parser := newXMLParser([]byte(match.content))
-			fieldNameCmp := fieldName
-			if !opts.CaseSensitive {
-				fieldNameCmp = toLowerASCII(fieldName)
-			}
+			field := PathSegment{Type: SegmentElement, Value: fieldName}
 
 			for parser.skipToNextElement() {
 				if totalExtracted >= MaxWildcardResults {
@@ -1741,13 +1739,8 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 				parser.next()
 				elemName, _, isSelfClosing := parser.parseElementName()
 
-				// Case-aware comparison
-				elemNameCmp := elemName
-				if !opts.CaseSensitive {
-					elemNameCmp = toLowerASCII(elemName)
-				}
-
-				if elemNameCmp != fieldNameCmp {
+				// Case-aware and namespace-aware comparison
+				if !field.matchesWithOptions(elemName, opts) {
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
 					}
-- 
2.43.0


From 02dd47466b40d18be9a8fee53432b72c983a32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:57 +0000
Subject: [PATCH 33/46] fix: keep a filter whole when its value ends with a
 backslash

---
 modifier.go |  8 ++++++--
 path.go     | 25 +++++++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/modifier.go b/modifier.go
index 9872bfa..ddc521b 100644
--- a/modifier.go
+++ b/modifier.go
@@ -210,8 +210,12 @@ func applyModifiers(r Result, modifierNames []string) Result {
 // parseModifiers extracts modifiers from a path segment.
 // Example: "element|@reverse|@first" → element="element", modifiers=["reverse", "first"]
 func parseModifiers(pathPart string) (elementPath string, modifiers []string) {
-	// A '|' inside a filter condition does not start a modifier
-	filterLen := findFilterEnd(pathPart, 0) + 1
+	return parseModifiersAfter(pathPart, findFilterEnd(pathPart, 0)+1)
+}
+
+// parseModifiersAfter is parseModifiers for a segment that starts with a filter
+// of the given length: a '|' inside a filter condition does not start a modifier.
+func parseModifiersAfter(pathPart string, filterLen int) (elementPath string, modifiers []string) {
 	parts := strings.Split(pathPart[filterLen:], "|")
 	elementPath = pathPart[:filterLen] + parts[0]
 
diff --git a/path.go b/path.go
index 598b6d3..3484084 100644
--- a/path.go
+++ b/path.go
@@ -160,7 +160,7 @@ func parsePath(path string) []PathSegment {
 // parsePathInternal performs the actual path parsing logic.
 // This is separated from parsePath to enable caching.
 func parsePathInternal(path string) []PathSegment {
-	parts := splitPath(path)
+	parts, filterLens := splitPathFilters(path)
 
 	// Security check: enforce maximum path segment count
 	if len(parts) > MaxPathSegments {
@@ -169,13 +169,13 @@ func parsePathInternal(path string) []PathSegment {
 
 	segments := make([]PathSegment, 0, len(parts))
 
-	for _, part := range parts {
+	for i, part := range parts {
 		if part == "" {
 			continue
 		}
 
 		// Parse modifiers from this path component (Phase 6)
-		pathPart, modifiers := parseModifiers(part)
+		pathPart, modifiers := parseModifiersAfter(part, filterLens[i])
 
 		seg := PathSegment{
 			Modifiers: modifiers, // Store modifiers for this segment
@@ -311,11 +311,18 @@ func parsePathInternal(path string) []PathSegment {
 
 // splitPath splits a path on dots, handling escapes
 func splitPath(path string) []string {
+	parts, _ := splitPathFilters(path)
+	return parts
+}
+
+// splitPathFilters is splitPath and also returns how much of each part is a
+// complete filter, which is known only before the escapes are removed.
+func splitPathFilters(path string) (parts []string, filterLens []int) {
 	if path == "" {
-		return nil
+		return nil, nil
 	}
 
-	var parts []string
+	filterLen := 0
 	var current strings.Builder
 	escaped := false
 	filterEnd := -1   // position of the ')' that ends the filter being read
@@ -343,16 +350,22 @@ func splitPath(path string) []string {
 		if c == '.' && i > filterEnd {
 			// Split point
 			parts = append(parts, current.String())
+			filterLens = append(filterLens, filterLen)
 			current.Reset()
+			filterLen = 0
 		} else {
 			current.WriteByte(c)
 		}
+		if i == filterEnd {
+			filterLen = current.Len()
+		}
 	}
 
 	// Add the last part (even if empty, for cases like "root.child.")
 	parts = append(parts, current.String())
+	filterLens = append(filterLens, filterLen)
 
-	return parts
+	return parts, filterLens
 }
 
 // findFilterEnd returns the position of the ')' that closes the filter starting
-- 
2.43.0


From 69b83d3dc02283049834d1aed9af7dad287948af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:13 +0000
Subject: [PATCH 34/46] fix: never return a document with an over-long
 attribute value or name

---
 set.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index b4e05ed..261e69f 100644
--- a/set.go
+++ b/set.go
@@ -515,6 +515,10 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 	if _, isRaw := value.([]byte); isRaw && !ValidBytes(result) {
 		return xml, fmt.Errorf("%w: raw value makes the document malformed", ErrInvalidValue)
 	}
+	// Only a document larger than a token can exceed the token size limit
+	if len(result) > MaxTokenSize && !ValidBytes(result) {
+		return xml, fmt.Errorf("%w: name or value exceeds maximum token size", ErrInvalidValue)
+	}
 
 	return result, nil
 }
@@ -547,5 +551,11 @@ func DeleteBytesWithOptions(xml []byte, path string, opts *Options) ([]byte, err
 		return xml, err
 	}
 
-	return []byte(builder.getResult()), nil
+	// Rewriting an opening tag can only exceed the token size limit by growing
+	result := []byte(builder.getResult())
+	if len(result) > len(xml) && len(result) > MaxTokenSize && !ValidBytes(result) {
+		return xml, fmt.Errorf("%w: attribute value exceeds maximum token size", ErrInvalidValue)
+	}
+
+	return result, nil
 }
-- 
2.43.0


From 42a1d07e6df7265af59200098c4789b62ca50ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:31 +0000
Subject: [PATCH 35/46] fix: append next to the namesakes that queries return

---
 builder.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/builder.go b/builder.go
index e1efad5..ccd8382 100644
--- a/builder.go
+++ b/builder.go
@@ -24,7 +24,8 @@ type xmlBuilder struct {
 	opts   *Options
 	done   bool // result is complete even if empty (last root deleted)
 
-	wantAttr string // if set, only an element with this attribute is a target
+	wantAttr  string       // if set, only an element with this attribute is a target
+	wantChild *PathSegment // if set, only an element with such a child is a target
 }
 
 // newXMLBuilder creates a new XML builder with default options
@@ -243,6 +244,9 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endTagPos = closingTagStart(parser, contentStart) // at '<' of </name>
 						contentEnd = endTagPos
 					}
+					if !b.hasWantedChild(parser.data[contentStart:contentEnd]) {
+						return nil, false
+					}
 					return &elementLocation{
 						startPos:      elemStartPos + baseOffset,
 						endTagPos:     endTagPos + baseOffset,
@@ -299,6 +303,9 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				endTagPos = closingTagStart(parser, contentStart) // at '<' of </name>
 				contentEnd = endTagPos
 			}
+			if !b.hasWantedChild(parser.data[contentStart:contentEnd]) {
+				continue // try the next one with the same name, as Get does
+			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
@@ -361,6 +368,37 @@ func (b *xmlBuilder) hasWantedAttr(attrs map[string]string) bool {
 	return false
 }
 
+// findParentLocation locates the parent whose children of the given name Get would
+// return, or else the first parent
+func (b *xmlBuilder) findParentLocation(parentPath []PathSegment, childSeg PathSegment) (*elementLocation, bool) {
+	b.wantChild = &childSeg
+	location, found := b.findElementLocation(newXMLParser(b.data), parentPath, 0, 0)
+	b.wantChild = nil
+	if found {
+		return location, true
+	}
+	return b.findElementLocation(newXMLParser(b.data), parentPath, 0, 0)
+}
+
+// hasWantedChild checks content for the child required by findParentLocation, if any
+func (b *xmlBuilder) hasWantedChild(content []byte) bool {
+	if b.wantChild == nil {
+		return true
+	}
+	parser := newXMLParser(content)
+	for parser.skipToNextElement() {
+		parser.next() // skip '<'
+		elemName, _, isSelfClosing := parser.parseElementName()
+		if b.wantChild.matchesWithOptions(elemName, b.opts) {
+			return true
+		}
+		if !isSelfClosing {
+			parser.parseElementContent(elemName)
+		}
+	}
+	return false
+}
+
 // closingTagStart returns the position of the '<' of the closing tag that ends at
 // the parser's position. The closing tag may contain whitespace before its '>'.
 func closingTagStart(parser *xmlParser, contentStart int) int {
@@ -840,12 +878,11 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	}
 
 	// Find parent element location
-	parser := newXMLParser(b.data)
 	var parentLoc *elementLocation
 	var found bool
 
 	if len(parentPath) > 0 {
-		parentLoc, found = b.findElementLocation(parser, parentPath, 0, 0)
+		parentLoc, found = b.findParentLocation(parentPath, elementSeg)
 		if !found {
 			// Parent doesn't exist - create entire path including first element
 			// Remove the -1 index segment and create the path
-- 
2.43.0


From 754095d5867aa5eeb7cba751e117a4ad50cf4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:08 +0000
Subject: [PATCH 36/46] fix: keep tabs and newlines readable in @pretty output

@pretty wrote tabs, and newlines in attribute values, as numeric character
references, which queries on the formatted XML return literally.
---
 modifier.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier.go b/modifier.go
index ddc521b..6ffa474 100644
--- a/modifier.go
+++ b/modifier.go
@@ -435,8 +435,8 @@ func (m *prettyModifier) Apply(r Result) Result {
 }
 
 // namedQuotes turns the encoder's numeric references for quotes into the named ones
-// that queries resolve
-var namedQuotes = strings.NewReplacer("&#34;", "&quot;", "&#39;", "&apos;")
+// that queries resolve, and those for white space into plain characters
+var namedQuotes = strings.NewReplacer("&#34;", "&quot;", "&#39;", "&apos;", "&#x9;", "\t", "&#xA;", "\n", "&#xD;", "\r")
 
 // prefixedName returns a name with its prefix as written in the document
 func prefixedName(name xml.Name) string {
-- 
2.43.0


From abeadc4d8767dd120cca79678331e05ed4a38cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:32 +0000
Subject: [PATCH 37/46] fix: keep CDATA sections in @pretty output

@pretty turned CDATA sections into escaped text. They are now copied as they
are, like comments and processing instructions.
---
 modifier.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/modifier.go b/modifier.go
index 6ffa474..e6c327f 100644
--- a/modifier.go
+++ b/modifier.go
@@ -376,8 +376,11 @@ func (m *prettyModifier) Apply(r Result) Result {
 	encoder := xml.NewEncoder(&buf)
 	encoder.Indent("", "  ")
 
+	var out strings.Builder // finished output; buf holds what follows
+
 	// Copy tokens from decoder to encoder
 	for {
+		tokenStart := decoder.InputOffset()
 		token, err := decoder.RawToken()
 		if err != nil {
 			// End of document or parse error
@@ -416,6 +419,17 @@ func (m *prettyModifier) Apply(r Result) Result {
 			}
 		}
 
+		// Copy CDATA sections, comments and processing instructions as they are
+		if source := r.Raw[tokenStart:decoder.InputOffset()]; strings.HasPrefix(source, "<!") || strings.HasPrefix(source, "<?") {
+			if err := encoder.Flush(); err != nil {
+				return r
+			}
+			out.WriteString(namedQuotes.Replace(buf.String()))
+			out.WriteString(source)
+			buf.Reset()
+			continue
+		}
+
 		if err := encoder.EncodeToken(token); err != nil {
 			return r
 		}
@@ -429,7 +443,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 	return Result{
 		Type: r.Type,
 		Str:  r.Str,
-		Raw:  namedQuotes.Replace(buf.String()),
+		Raw:  out.String() + namedQuotes.Replace(buf.String()),
 		Num:  r.Num,
 	}
 }
-- 
2.43.0


From 1d41bcc821823f2f6cad4da2767478df8d5dcdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:14 +0000
Subject: [PATCH 38/46] fix: bound the work of nested recursive wildcards

Each recursive wildcard limits its own search, but the number of searches grew
exponentially with the number of ** segments: a path with five of them on a
document of 100 nested elements took minutes. All recursive wildcards of a
query now share one budget of search operations.
---
 filter.go |  4 ++--
 get.go    | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 path.go   |  3 +++
 3 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/filter.go b/filter.go
index 2950a94..0e58664 100644
--- a/filter.go
+++ b/filter.go
@@ -263,7 +263,7 @@ func evaluateFilterWithDepth(filter *Filter, content string, attrs map[string]st
 		// Element filter - extract text from specific child element
 		parser := newXMLParser([]byte(content))
 		parser.filterDepth = depth + 1
-		result := executeQuery(parser, parsePath(filter.Path), 0)
+		result := executeQuery(parser, limitSearch(parsePath(filter.Path), MaxRecursiveOperations), 0)
 		exists = result.Exists()
 		actualValue = result.String()
 	}
@@ -377,7 +377,7 @@ func evaluateFilterOnMatchWithOptions(filter *Filter, match elementMatch, opts *
 		}
 	} else {
 		parser := newXMLParser([]byte(match.content))
-		result := executeQueryWithOptions(parser, parsePathWithOptions(filter.Path, opts), 0, opts)
+		result := executeQueryWithOptions(parser, limitSearch(parsePathWithOptions(filter.Path, opts), MaxRecursiveOperations), 0, opts)
 		if result.Exists() {
 			operand["value"] = result.String()
 		}
diff --git a/get.go b/get.go
index cc97d1e..5772e3b 100644
--- a/get.go
+++ b/get.go
@@ -101,9 +101,27 @@ func takeModifiers(segments []PathSegment) []string {
 	last := len(segments) - 1
 	modifiers := segments[last].Modifiers
 	segments[last].Modifiers = nil
+	limitSearch(segments, MaxRecursiveOperations*MaxNestingDepth)
 	return modifiers
 }
 
+// limitSearch gives all recursive wildcards of a query one common budget of search
+// operations. A single search stays within MaxRecursiveOperations by itself, but the
+// number of searches grows exponentially with the number of wildcards in the path.
+func limitSearch(segments []PathSegment, budget int) []PathSegment {
+	var left *int
+	for i := range segments {
+		if segments[i].Wildcard {
+			if left == nil {
+				left = new(int)
+				*left = budget
+			}
+			segments[i].searchBudget = left
+		}
+	}
+	return segments
+}
+
 // applyFinalModifiers applies the modifiers taken from the path to a query result
 func applyFinalModifiers(result Result, modifiers []string) Result {
 	if result.Type == Null || len(modifiers) == 0 {
@@ -143,6 +161,19 @@ type elementMatch struct {
 type searchContext struct {
 	operations int
 	results    *[]Result
+	budget     *int // operations left for the whole query, or nil
+}
+
+// exhausted reports whether the whole query has used up its search operations
+func (ctx *searchContext) exhausted() bool {
+	return ctx.budget != nil && *ctx.budget <= 0
+}
+
+// spend counts one operation of the whole query
+func (ctx *searchContext) spend() {
+	if ctx.budget != nil {
+		*ctx.budget--
+	}
 }
 
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
@@ -730,7 +761,7 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 
 	// Recursively search for matches at any depth
 	var allResults []Result
-	ctx := &searchContext{operations: 0, results: &allResults}
+	ctx := &searchContext{operations: 0, results: &allResults, budget: segments[segIndex].searchBudget}
 	recursiveSearchWithContext(parser, targetSeg, segments, nextSegIndex, ctx, 0)
 
 	if len(allResults) == 0 {
@@ -753,6 +784,9 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
 		return
 	}
+	if ctx.spend(); ctx.exhausted() {
+		return
+	}
 
 	isLastSegment := segIndex == len(segments)-1
 
@@ -778,6 +812,9 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 		if ctx.operations >= MaxRecursiveOperations {
 			return
 		}
+		if ctx.exhausted() {
+			return
+		}
 
 		// Then check if this element itself matches
 		if targetSeg.matches(elemName) {
@@ -1441,7 +1478,7 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 	targetSeg := segments[nextSegIndex]
 
 	var allResults []Result
-	ctx := &searchContext{operations: 0, results: &allResults}
+	ctx := &searchContext{operations: 0, results: &allResults, budget: segments[segIndex].searchBudget}
 	recursiveSearchWithContextAndOptions(parser, targetSeg, segments, nextSegIndex, ctx, 0, opts)
 
 	if len(allResults) == 0 {
@@ -1462,6 +1499,9 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 	if depth > MaxNestingDepth || len(*ctx.results) >= MaxWildcardResults || ctx.operations >= MaxRecursiveOperations {
 		return
 	}
+	if ctx.spend(); ctx.exhausted() {
+		return
+	}
 
 	isLastSegment := segIndex == len(segments)-1
 
@@ -1484,6 +1524,9 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 		if ctx.operations >= MaxRecursiveOperations {
 			return
 		}
+		if ctx.exhausted() {
+			return
+		}
 
 		if targetSeg.matchesWithOptions(elemName, opts) {
 			if len(*ctx.results) >= MaxWildcardResults {
diff --git a/path.go b/path.go
index 3484084..c25be00 100644
--- a/path.go
+++ b/path.go
@@ -97,6 +97,9 @@ type PathSegment struct {
 	// Modifiers execute in order after the path segment resolves.
 	// Example: "items.item|@sort|@first" applies @sort then @first to "item" results.
 	Modifiers []string
+	// searchBudget is what is left of the search operations of one query, shared by
+	// all of its recursive wildcards (nil if not limited as a whole).
+	searchBudget *int
 }
 
 // Filter represents a query filter condition.
-- 
2.43.0


From 384dd1676b5d09e479da2e6b771a7c978d01659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:57 +0000
Subject: [PATCH 39/46] fix: leave content beyond the nesting limit unformatted
 in @pretty

Indentation grows with the square of the depth, so a small document with
excessive nesting made @pretty allocate gigabytes.
---
 modifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modifier.go b/modifier.go
index e6c327f..357eb82 100644
--- a/modifier.go
+++ b/modifier.go
@@ -377,6 +377,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 	encoder.Indent("", "  ")
 
 	var out strings.Builder // finished output; buf holds what follows
+	depth := 0
 
 	// Copy tokens from decoder to encoder
 	for {
@@ -396,6 +397,11 @@ func (m *prettyModifier) Apply(r Result) Result {
 		// xml.Encoder sees Name.Space is set and adds xmlns again, causing duplicates
 		// Solution: Clear namespace from both start and end elements since xmlns attrs preserve it
 		if startElem, ok := token.(xml.StartElement); ok {
+			// Security check: indentation grows with the square of the nesting depth
+			if depth++; depth > MaxNestingDepth {
+				return r
+			}
+
 			// Deduplicate xmlns attributes first
 			dedupedAttrs := deduplicateXmlnsAttrs(startElem.Attr)
 
@@ -410,6 +416,7 @@ func (m *prettyModifier) Apply(r Result) Result {
 
 			token = newStartElem
 		} else if endElem, ok := token.(xml.EndElement); ok {
+			depth--
 			// Also clear namespace from end elements to match the cleared start elements
 			token = xml.EndElement{
 				Name: xml.Name{
-- 
2.43.0


From 2aa54969234ea0484597dbafbf2a82e50a8bd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:59 +0000
Subject: [PATCH 40/46] fix: bound the work of recursive wildcards in nested
 filter conditions

---
 filter.go | 25 +++++++++++++++++++++++--
 path.go   |  3 +++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 0e58664..dd61759 100644
--- a/filter.go
+++ b/filter.go
@@ -263,7 +263,7 @@ func evaluateFilterWithDepth(filter *Filter, content string, attrs map[string]st
 		// Element filter - extract text from specific child element
 		parser := newXMLParser([]byte(content))
 		parser.filterDepth = depth + 1
-		result := executeQuery(parser, limitSearch(parsePath(filter.Path), MaxRecursiveOperations), 0)
+		result := executeQuery(parser, filter.limitSearch(parsePath(filter.Path)), 0)
 		exists = result.Exists()
 		actualValue = result.String()
 	}
@@ -357,6 +357,27 @@ func evaluateFilterWithDepth(filter *Filter, content string, attrs map[string]st
 	return false
 }
 
+// limitSearch gives all recursive wildcards of a condition, and of the conditions nested in
+// it, one common budget of search operations.
+func (f *Filter) limitSearch(segments []PathSegment) []PathSegment {
+	left := f.searchBudget
+	if left == nil {
+		left = new(int)
+		*left = MaxRecursiveOperations
+	}
+	for i := range segments {
+		if segments[i].Wildcard {
+			segments[i].searchBudget = left
+		}
+		if segments[i].Filter != nil {
+			nested := *segments[i].Filter // parsed paths are shared, leave them as they are
+			nested.searchBudget = left
+			segments[i].Filter = &nested
+		}
+	}
+	return segments
+}
+
 // evaluateFilterOnMatch evaluates a filter against an elementMatch.
 func evaluateFilterOnMatch(filter *Filter, match elementMatch) bool {
 	return evaluateFilterWithDepth(filter, match.content, match.attrs, 0)
@@ -377,7 +398,7 @@ func evaluateFilterOnMatchWithOptions(filter *Filter, match elementMatch, opts *
 		}
 	} else {
 		parser := newXMLParser([]byte(match.content))
-		result := executeQueryWithOptions(parser, limitSearch(parsePathWithOptions(filter.Path, opts), MaxRecursiveOperations), 0, opts)
+		result := executeQueryWithOptions(parser, filter.limitSearch(parsePathWithOptions(filter.Path, opts)), 0, opts)
 		if result.Exists() {
 			operand["value"] = result.String()
 		}
diff --git a/path.go b/path.go
index c25be00..9e19ac9 100644
--- a/path.go
+++ b/path.go
@@ -110,6 +110,9 @@ type Filter struct {
 	Op FilterOp
 	// Value is the value to compare against.
 	Value string
+	// searchBudget is what is left of the search operations of the enclosing filter
+	// condition, or nil if the filter is not part of a condition.
+	searchBudget *int
 }
 
 // parsePath parses a path string into a slice of PathSegments.
-- 
2.43.0


From 0caac695373adbfa806c6ce42247e0b2192c4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:48 +0000
Subject: [PATCH 41/46] fix: apply filters that directly follow a recursive
 wildcard

---
 get.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/get.go b/get.go
index 5772e3b..20b60bd 100644
--- a/get.go
+++ b/get.go
@@ -162,6 +162,29 @@ type searchContext struct {
 	operations int
 	results    *[]Result
 	budget     *int // operations left for the whole query, or nil
+	done       bool // a #(condition) target has been found
+}
+
+// matchesTarget reports whether an element is what a recursive search looks for. A filter
+// directly after ** is tested on every element; #(condition) stops at the first that satisfies it.
+func (ctx *searchContext) matchesTarget(targetSeg PathSegment, match elementMatch, opts *Options) bool {
+	if targetSeg.Type != SegmentFilter {
+		if opts != nil {
+			return targetSeg.matchesWithOptions(match.name, opts)
+		}
+		return targetSeg.matches(match.name)
+	}
+	if ctx.done || targetSeg.Filter == nil {
+		return false
+	}
+	found := false
+	if opts != nil {
+		found = evaluateFilterOnMatchWithOptions(targetSeg.Filter, match, opts)
+	} else {
+		found = evaluateFilterOnMatch(targetSeg.Filter, match)
+	}
+	ctx.done = found && !targetSeg.FilterAll
+	return found
 }
 
 // exhausted reports whether the whole query has used up its search operations
@@ -817,7 +840,7 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 		}
 
 		// Then check if this element itself matches
-		if targetSeg.matches(elemName) {
+		if ctx.matchesTarget(targetSeg, elementMatch{name: elemName, attrs: attrs, content: content, isSelfClosing: isSelfClosing}, nil) {
 			// Security check: stop if we've reached the result limit
 			if len(*ctx.results) >= MaxWildcardResults {
 				return
@@ -1528,7 +1551,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 			return
 		}
 
-		if targetSeg.matchesWithOptions(elemName, opts) {
+		if ctx.matchesTarget(targetSeg, elementMatch{name: elemName, attrs: attrs, content: content, isSelfClosing: isSelfClosing}, opts) {
 			if len(*ctx.results) >= MaxWildcardResults {
 				return
 			}
-- 
2.43.0


From 1ae5305e24e03bde0e488e2657e013452e084fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:01 +0000
Subject: [PATCH 42/46] fix: keep white space of attribute values and comments
 in @ugly

---
 modifier.go | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/modifier.go b/modifier.go
index 357eb82..7fc1510 100644
--- a/modifier.go
+++ b/modifier.go
@@ -546,34 +546,54 @@ func compactXML(xmlStr string) string {
 	buf.Grow(len(xmlStr))
 
 	inTag := false
-	inCDATA := false
+	quote := byte(0) // quote of the attribute value, 0 outside of values
+	sectionEnd := "" // end of the CDATA section, comment or processing instruction
 
 	for i := 0; i < len(xmlStr); i++ {
-		// Check for CDATA start
-		if !inTag && i+9 <= len(xmlStr) && xmlStr[i:i+9] == "<![CDATA[" {
-			inCDATA = true
-			buf.WriteString(xmlStr[i : i+9])
-			i += 8
-			continue
+		// Check for CDATA, comment and processing instruction start
+		if !inTag && sectionEnd == "" {
+			start := ""
+			switch {
+			case strings.HasPrefix(xmlStr[i:], "<![CDATA["):
+				start, sectionEnd = "<![CDATA[", "]]>"
+			case strings.HasPrefix(xmlStr[i:], "<!--"):
+				start, sectionEnd = "<!--", "-->"
+			case strings.HasPrefix(xmlStr[i:], "<?"):
+				start, sectionEnd = "<?", "?>"
+			}
+			if start != "" {
+				buf.WriteString(start)
+				i += len(start) - 1
+				continue
+			}
 		}
 
-		// Check for CDATA end
-		if inCDATA && i+3 <= len(xmlStr) && xmlStr[i:i+3] == "]]>" {
-			inCDATA = false
-			buf.WriteString("]]>")
-			i += 2
+		// Check for the end of the section
+		if sectionEnd != "" && strings.HasPrefix(xmlStr[i:], sectionEnd) {
+			buf.WriteString(sectionEnd)
+			i += len(sectionEnd) - 1
+			sectionEnd = ""
 			continue
 		}
 
 		c := xmlStr[i]
 
-		// Preserve ALL whitespace in CDATA
-		if inCDATA {
+		// Preserve ALL whitespace in CDATA, comments and processing instructions
+		if sectionEnd != "" {
+			buf.WriteByte(c)
+			continue
+		}
+
+		// Keep attribute values, which may contain '<' and '>'
+		if inTag && (c == quote || quote == 0 && (c == '"' || c == '\'')) {
+			quote ^= c
+		}
+		if quote != 0 {
 			buf.WriteByte(c)
 			continue
 		}
 
-		// Rest of existing logic for non-CDATA content
+		// Rest of existing logic for content outside of these
 		if c == '<' {
 			inTag = true
 			buf.WriteByte(c)
@@ -587,7 +607,7 @@ func compactXML(xmlStr string) string {
 			// Outside tags and not whitespace: keep the character
 			buf.WriteByte(c)
 		}
-		// Skip whitespace outside tags (and not in CDATA)
+		// Skip whitespace outside tags (and not in these sections)
 	}
 
 	return buf.String()
-- 
2.43.0


From a67be558e5f3ded7b8f73348e690d6c66d5780ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:15:53 +0000
Subject: [PATCH 43/46] fix: end processing instructions at ?> instead of the
 first >

---
 parser.go   |  5 +++--
 set.go      |  8 ++++++--
 validate.go | 22 +++++++++++++++++++++-
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index ebbd1fd..3b39a4a 100644
--- a/parser.go
+++ b/parser.go
@@ -416,6 +416,8 @@ func opaqueEnd(data []byte, pos int) int {
 		start, terminator = len("<!--"), "-->"
 	case bytes.HasPrefix(rest, []byte("<![CDATA[")):
 		start, terminator = len("<![CDATA["), "]]>"
+	case bytes.HasPrefix(rest, []byte("<?")):
+		terminator = "?>"
 	case len(rest) >= len("<!DOCTYPE") && strings.EqualFold(string(rest[:len("<!DOCTYPE")]), "<!DOCTYPE"):
 		// Declarations may nest in an internal subset: [ ... ]
 		depth := 0
@@ -541,8 +543,7 @@ func (p *xmlParser) skipToNextElement() bool {
 					p.pos = opaqueEnd(p.data, p.pos)
 				} else if next == '?' {
 					// Skip processing instruction
-					p.readUntil('>')
-					p.next()
+					p.pos = opaqueEnd(p.data, p.pos)
 				} else {
 					// Skip closing tag
 					p.readUntil('>')
diff --git a/set.go b/set.go
index 261e69f..f7e861e 100644
--- a/set.go
+++ b/set.go
@@ -187,11 +187,15 @@ func validateRawXML(rawxml string) error {
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
 				} else {
 					// PI or other - skip to end
-					endPos := strings.Index(rawxml[i:], ">")
+					terminator := ">"
+					if next == '?' {
+						terminator = "?>"
+					}
+					endPos := strings.Index(rawxml[i+2:], terminator)
 					if endPos == -1 {
 						return ErrInvalidValue
 					}
-					i += endPos + 1
+					i += 2 + endPos + len(terminator)
 				}
 				continue
 			}
diff --git a/validate.go b/validate.go
index 85e0475..07d8787 100644
--- a/validate.go
+++ b/validate.go
@@ -181,7 +181,7 @@ func (p *validatingParser) parseTag() *ValidateError {
 	// Processing instruction
 	if next == '?' {
 		p.advance()
-		return p.skipUntilTracked('>')
+		return p.skipPI()
 	}
 
 	// Comment or CDATA
@@ -507,6 +507,26 @@ func (p *validatingParser) skipUntilTracked(delim byte) *ValidateError {
 	}
 }
 
+// skipPI skips a processing instruction (assumes <? already consumed)
+func (p *validatingParser) skipPI() *ValidateError {
+	start := p.pos
+	for {
+		if err := p.skipUntilTracked('>'); err != nil {
+			return err
+		}
+		if p.pos-1-start > MaxTokenSize {
+			return &ValidateError{
+				Line:    p.line,
+				Column:  p.column,
+				Message: "token exceeds maximum size",
+			}
+		}
+		if p.pos-2 >= start && p.data[p.pos-2] == '?' {
+			return nil
+		}
+	}
+}
+
 // skipComment skips a comment (assumes <!-- already consumed)
 func (p *validatingParser) skipComment() *ValidateError {
 	for p.pos < p.dataLen-2 {
-- 
2.43.0


From 52ff9bd2c5679c3b5821d436d4bc06764760d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:17:47 +0000
Subject: [PATCH 44/46] fix: ignore brackets and > in quoted literals, comments
 and PIs of a DOCTYPE

---
 parser.go   | 27 ++++++++++++++++++++++++++-
 validate.go |  6 ++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3b39a4a..c6d9cb8 100644
--- a/parser.go
+++ b/parser.go
@@ -421,7 +421,12 @@ func opaqueEnd(data []byte, pos int) int {
 	case len(rest) >= len("<!DOCTYPE") && strings.EqualFold(string(rest[:len("<!DOCTYPE")]), "<!DOCTYPE"):
 		// Declarations may nest in an internal subset: [ ... ]
 		depth := 0
-		for i, c := range rest {
+		for i := 0; i < len(rest); i++ {
+			if end := doctypeLiteralEnd(rest, i); end > i {
+				i = end - 1
+				continue
+			}
+			c := rest[i]
 			if c == '[' {
 				depth++
 			} else if c == ']' {
@@ -438,6 +443,22 @@ func opaqueEnd(data []byte, pos int) int {
 	return len(data)
 }
 
+// doctypeLiteralEnd returns the position after the quoted literal, comment or processing
+// instruction that starts at pos inside a DOCTYPE declaration. Brackets and '>' inside
+// these do not count. Returns pos if none starts there, len(data) if it is not terminated.
+func doctypeLiteralEnd(data []byte, pos int) int {
+	if c := data[pos]; c == '"' || c == '\'' {
+		if end := bytes.IndexByte(data[pos+1:], c); end >= 0 {
+			return pos + 1 + end + 1
+		}
+		return len(data)
+	}
+	if bytes.HasPrefix(data[pos:], []byte("<!--")) || bytes.HasPrefix(data[pos:], []byte("<?")) {
+		return opaqueEnd(data, pos)
+	}
+	return pos
+}
+
 // extractTextContent extracts only text content, stripping out all XML tags
 func extractTextContent(content string) string {
 	var result strings.Builder
@@ -525,6 +546,10 @@ func (p *xmlParser) skipToNextElement() bool {
 							// Skip to end of DOCTYPE declaration
 							depth := 0
 							for p.pos < p.dataLen {
+								if end := doctypeLiteralEnd(p.data, p.pos); end > p.pos {
+									p.pos = end
+									continue
+								}
 								c := p.data[p.pos]
 								if c == '[' {
 									depth++
diff --git a/validate.go b/validate.go
index 07d8787..58eae8f 100644
--- a/validate.go
+++ b/validate.go
@@ -576,6 +576,12 @@ func (p *validatingParser) skipCDATA() *ValidateError {
 func (p *validatingParser) skipDOCTYPE() *ValidateError {
 	depth := 0
 	for p.pos < p.dataLen {
+		if end := doctypeLiteralEnd(p.data, p.pos); end > p.pos {
+			for p.pos < end {
+				p.advance()
+			}
+			continue
+		}
 		c := p.peekChar()
 		if c == '[' {
 			depth++
-- 
2.43.0


From 413e0e129a43b1577cb4f51fe1651062cd4e9178 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 04:04:29 +0000
Subject: [PATCH 45/46] fix: give nothing for paths that go on after an
 attribute, text, count or field

r.a.0.@x.b answered with the attribute x and r.a.%.b with the text of a, as if
the rest of the path was not there. Nothing lies below these nodes.
---
 get.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/get.go b/get.go
index 20b60bd..acd547b 100644
--- a/get.go
+++ b/get.go
@@ -243,12 +243,27 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 	return matches
 }
 
+// continuesLeaf reports whether a path goes on after an attribute, text, count or field
+// extraction. Nothing lies below these, so such a path addresses nothing.
+func continuesLeaf(segments []PathSegment) bool {
+	for _, seg := range segments[:len(segments)-1] {
+		switch seg.Type {
+		case SegmentAttribute, SegmentText, SegmentCount, SegmentFieldExtraction:
+			return true
+		}
+	}
+	return false
+}
+
 // executeQuery recursively matches path segments against XML structure
 func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Result {
 	// Base case: we've matched all segments
 	if segIndex >= len(segments) {
 		return Result{Type: Null}
 	}
+	if segIndex == 0 && continuesLeaf(segments) {
+		return Result{Type: Null}
+	}
 
 	currentSeg := segments[segIndex]
 	isLastSegment := segIndex == len(segments)-1
@@ -1018,6 +1033,9 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 	if segIndex >= len(segments) {
 		return Result{Type: Null}
 	}
+	if segIndex == 0 && continuesLeaf(segments) {
+		return Result{Type: Null}
+	}
 
 	currentSeg := segments[segIndex]
 	isLastSegment := segIndex == len(segments)-1
-- 
2.43.0


From 925c0d2ab5df17b5725044c2b162d9900824e1e1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 04:19:14 +0000
Subject: [PATCH 46/46] fix: apply a filter after a name that follows a
 recursive wildcard to the named elements

root.**.item.#(price>50)#.name, as in the path syntax guide, tested the children
of each item instead of the items, in plain and in option-taking queries.
---
 get.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/get.go b/get.go
index acd547b..168d7ea 100644
--- a/get.go
+++ b/get.go
@@ -169,10 +169,15 @@ type searchContext struct {
 // directly after ** is tested on every element; #(condition) stops at the first that satisfies it.
 func (ctx *searchContext) matchesTarget(targetSeg PathSegment, match elementMatch, opts *Options) bool {
 	if targetSeg.Type != SegmentFilter {
+		matches := false
 		if opts != nil {
-			return targetSeg.matchesWithOptions(match.name, opts)
+			matches = targetSeg.matchesWithOptions(match.name, opts)
+		} else {
+			matches = targetSeg.matches(match.name)
+		}
+		if !matches || targetSeg.Filter == nil {
+			return matches
 		}
-		return targetSeg.matches(match.name)
 	}
 	if ctx.done || targetSeg.Filter == nil {
 		return false
@@ -187,6 +192,17 @@ func (ctx *searchContext) matchesTarget(targetSeg PathSegment, match elementMatc
 	return found
 }
 
+// searchTarget returns what the recursive wildcard before a segment searches for, with the
+// index of its last segment. A filter after a name belongs to the target: **.name.#(condition).
+func searchTarget(segments []PathSegment, segIndex int) (PathSegment, int) {
+	target := segments[segIndex]
+	if target.Type == SegmentElement && segIndex+1 < len(segments) && segments[segIndex+1].Type == SegmentFilter {
+		segIndex++
+		target.Filter, target.FilterAll = segments[segIndex].Filter, segments[segIndex].FilterAll
+	}
+	return target, segIndex
+}
+
 // exhausted reports whether the whole query has used up its search operations
 func (ctx *searchContext) exhausted() bool {
 	return ctx.budget != nil && *ctx.budget <= 0
@@ -794,8 +810,7 @@ func handleRecursiveWildcard(parser *xmlParser, segments []PathSegment, segIndex
 	}
 
 	// Get the segment to search for after **
-	nextSegIndex := segIndex + 1
-	targetSeg := segments[nextSegIndex]
+	targetSeg, nextSegIndex := searchTarget(segments, segIndex+1)
 
 	// Recursively search for matches at any depth
 	var allResults []Result
@@ -1515,8 +1530,7 @@ func handleRecursiveWildcardWithOptions(parser *xmlParser, segments []PathSegmen
 		return Result{Type: Null}
 	}
 
-	nextSegIndex := segIndex + 1
-	targetSeg := segments[nextSegIndex]
+	targetSeg, nextSegIndex := searchTarget(segments, segIndex+1)
 
 	var allResults []Result
 	ctx := &searchContext{operations: 0, results: &allResults, budget: segments[segIndex].searchBudget}
-- 
2.43.0

