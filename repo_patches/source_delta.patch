From 6673f764aebf453c62c4a641ffb9de996752ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:28 +0000
Subject: [PATCH 01/44] fix: parse dictionaries and object ends aware of
 strings, comments and stream data

Dictionaries were cut at the first "stream" text, white space and brackets
inside strings were rewritten, bytes >= 0x80 were turned into UTF-8, and an
"endobj" inside a stream or a string ended the object. Bad xref offsets and
short reference arrays panicked.
---
 pdf_lex.go               | 152 +++++++++++++++++++++++++++++++++++++++
 pdf_obj_data.go          |  51 ++++++++++++-
 pdf_obj_property_data.go | 132 +++++++++++++++++-----------------
 xref_data.go             |   2 +-
 4 files changed, 266 insertions(+), 71 deletions(-)
 create mode 100644 pdf_lex.go

diff --git a/pdf_lex.go b/pdf_lex.go
new file mode 100644
index 0000000..92d2c0b
--- /dev/null
+++ b/pdf_lex.go
@@ -0,0 +1,152 @@
+package pdft
+
+import (
+	"bytes"
+)
+
+func isSpaceByte(c byte) bool {
+	return c == 0 || c == '\t' || c == '\n' || c == '\f' || c == '\r' || c == ' '
+}
+
+func skipSpaces(b []byte, i int) int {
+	for i < len(b) && isSpaceByte(b[i]) {
+		i++
+	}
+	return i
+}
+
+func skipComment(b []byte, i int) int {
+	for i < len(b) && b[i] != '\n' && b[i] != '\r' {
+		i++
+	}
+	return i
+}
+
+// skipLiteralString b[i] is '(', returns the index after the matching ')'
+func skipLiteralString(b []byte, i int) int {
+	depth := 0
+	for i < len(b) {
+		switch b[i] {
+		case '\\':
+			i++
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return i + 1
+			}
+		}
+		i++
+	}
+	return len(b)
+}
+
+// skipHexString b[i] is '<', returns the index after the matching '>'
+func skipHexString(b []byte, i int) int {
+	end := bytes.IndexByte(b[i:], '>')
+	if end == -1 {
+		return len(b)
+	}
+	return i + end + 1
+}
+
+// dictBounds index of the first "<<" and of its matching ">>" (strings and comments are skipped)
+func dictBounds(b []byte) (int, int, bool) {
+	start := -1
+	depth := 0
+	i := 0
+	for i < len(b) {
+		switch {
+		case b[i] == '(':
+			i = skipLiteralString(b, i)
+		case b[i] == '%':
+			i = skipComment(b, i)
+		case b[i] == '<' && i+1 < len(b) && b[i+1] == '<':
+			if start == -1 {
+				start = i
+			}
+			depth++
+			i += 2
+		case b[i] == '<':
+			i = skipHexString(b, i)
+		case b[i] == '>' && i+1 < len(b) && b[i+1] == '>' && depth > 0:
+			depth--
+			if depth == 0 {
+				return start, i, true
+			}
+			i += 2
+		default:
+			i++
+		}
+	}
+	return 0, 0, false
+}
+
+// streamStart index of the first byte of stream data, -1 if obj is not a stream
+func streamStart(b []byte) int {
+	i := skipSpaces(b, 0)
+	if !bytes.HasPrefix(b[i:], []byte("<<")) {
+		return -1
+	}
+	_, end, ok := dictBounds(b)
+	if !ok {
+		return -1
+	}
+	i = skipSpaces(b, end+len(">>"))
+	if !bytes.HasPrefix(b[i:], extractStreamBytes) {
+		return -1
+	}
+	i += len(extractStreamBytes)
+	if bytes.HasPrefix(b[i:], []byte("\r\n")) {
+		return i + 2
+	}
+	if i < len(b) && (b[i] == '\n' || b[i] == '\r') {
+		return i + 1
+	}
+	return i
+}
+
+// normalizeDict collapse white space (and comments) outside strings
+func normalizeDict(b []byte) string {
+	var out bytes.Buffer
+	i := 0
+	for i < len(b) {
+		c := b[i]
+		switch {
+		case isSpaceByte(c) || c == '%':
+			for i < len(b) && (isSpaceByte(b[i]) || b[i] == '%') {
+				if b[i] == '%' {
+					i = skipComment(b, i)
+				} else {
+					i++
+				}
+			}
+			if i >= len(b) || out.Len() == 0 {
+				continue
+			}
+			if b[i] == '/' || b[i] == '[' || b[i] == ']' || b[i] == '>' {
+				continue
+			}
+			if b[i] == '<' && i+1 < len(b) && b[i+1] == '<' {
+				continue
+			}
+			out.WriteByte(' ')
+		case c == '(':
+			end := skipLiteralString(b, i)
+			out.Write(b[i:end])
+			i = end
+		case c == '<' && i+1 < len(b) && b[i+1] == '<':
+			out.WriteString("<<")
+			i += 2
+		case c == '<':
+			end := skipHexString(b, i)
+			out.Write(b[i:end])
+			i = end
+		default:
+			out.WriteByte(c)
+			i++
+		}
+	}
+	return out.String()
+}
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..676d185 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"crypto/rc4"
 	"errors"
+	"strconv"
+	"strings"
 
 	gopdf "github.com/signintech/pdft/minigopdf"
 )
@@ -16,12 +18,16 @@ type PDFObjData struct {
 
 func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
+	if stratoffset < 0 || stratoffset >= len(*raw) {
+		return errors.New("bad obj offset")
+	}
 	tmp := (*raw)[stratoffset:]
-	endObjIndex := regexpEndObj.FindAllIndex(tmp, 1)
+	bodyOffset := objBodyEnd(tmp)
+	endObjIndex := regexpEndObj.FindAllIndex(tmp[bodyOffset:], 1)
 	if len(endObjIndex) <= 0 {
 		return errors.New("bad endobj")
 	}
-	endObjOffsetBefore := endObjIndex[0][0] + stratoffset
+	endObjOffsetBefore := endObjIndex[0][0] + bodyOffset + stratoffset
 
 	tmp = (*raw)[stratoffset:endObjOffsetBefore]
 	startObjIndex := regexpStartObj.FindAllIndex(tmp, 1)
@@ -44,6 +50,47 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 	return nil
 }
 
+// objBodyEnd offset from which "endobj" can be searched: after the dictionary and the
+// stream data of the obj, because both of them may contain the text "endobj"
+func objBodyEnd(b []byte) int {
+	head := regexpStartObj.FindIndex(b)
+	if head == nil || regexpEndObj.Match(b[:head[0]]) {
+		return 0
+	}
+	body := b[head[1]:]
+	if !bytes.HasPrefix(body[skipSpaces(body, 0):], []byte("<<")) {
+		return 0
+	}
+	_, end, ok := dictBounds(body)
+	if !ok {
+		return 0
+	}
+	offset := head[1] + end
+	start := streamStart(body)
+	if start == -1 {
+		return offset
+	}
+	//skip stream
+	if prop, err := readProperty(&body, "Length"); err == nil && prop != nil {
+		if length, err := strconv.Atoi(strings.TrimSpace(prop.rawVal)); err == nil && isStreamEnd(body, start, length) {
+			return head[1] + start + length
+		}
+	}
+	if endstream := bytes.Index(body[start:], []byte("endstream")); endstream != -1 {
+		return head[1] + start + endstream
+	}
+	return offset
+}
+
+// isStreamEnd is "endstream" right after the length bytes of stream data that start at b[start]?
+func isStreamEnd(b []byte, start int, length int) bool {
+	if length < 0 || length > len(b)-start {
+		return false
+	}
+	rest := b[start+length:]
+	return bytes.HasPrefix(rest[skipSpaces(rest, 0):], []byte("endstream"))
+}
+
 // ReadProperties read all obj Properties
 func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
 	var props PDFObjPropertiesData
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..e9cf67f 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"regexp"
 	"strconv"
 	"strings"
 )
@@ -77,33 +76,11 @@ func readProperty(rawObj *[]byte, key string) (*PDFObjPropertyData, error) {
 
 func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 
-	tmp0 := *rawObj
-	index := bytes.Index(*rawObj, extractStreamBytes)
-	if index != -1 { //เป็น stream
-		tmp0 = tmp0[0:index]
-	}
-	startObjInx := strings.Index(string(tmp0), "<<")
-	endObjInx := strings.LastIndex(string(tmp0), ">>")
-	if startObjInx > endObjInx || startObjInx == -1 || endObjInx == -1 {
+	startObjInx, endObjInx, ok := dictBounds(*rawObj)
+	if !ok {
 		return errors.New("bad obj properties")
 	}
-
-	//fmt.Printf("\n\n%s\n\n%d\n", string(*rawObj), endObjInx)
-
-	var regexpSlash = regexp.MustCompile("[\\r\\n\\t ]+\\/")
-	var regexpOpenB = regexp.MustCompile("[\\r\\n\\t ]+\\[")
-	var regexpCloseB = regexp.MustCompile("[\\r\\n\\t ]+\\]")
-	var regexpOpen = regexp.MustCompile("[\\r\\n\\t ]+\\<\\<")
-	var regexpClose = regexp.MustCompile("[\\r\\n\\t ]+\\>\\>")
-	var regexpLine = regexp.MustCompile("[\\r\\n\\t ]+")
-
-	tmp := strings.TrimSpace(string((*rawObj)[startObjInx+len("<<") : endObjInx]))
-	tmp = regexpLine.ReplaceAllString(tmp, " ")
-	tmp = regexpSlash.ReplaceAllString(tmp, "/")
-	tmp = regexpOpenB.ReplaceAllString(tmp, "[")
-	tmp = regexpCloseB.ReplaceAllString(tmp, "]")
-	tmp = regexpOpen.ReplaceAllString(tmp, "<<")
-	tmp = regexpClose.ReplaceAllString(tmp, ">>")
+	tmp := normalizeDict((*rawObj)[startObjInx+len("<<") : endObjInx])
 
 	var pp parseProps
 
@@ -112,63 +89,79 @@ func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 }
 
 type parseProps struct {
-	str        string
-	max        int
-	propsIndex int
-	props      *PDFObjPropertiesData
+	str   string
+	raw   []byte
+	max   int
+	props *PDFObjPropertiesData
 }
 
 func (p *parseProps) set(str string, props *PDFObjPropertiesData) {
 	p.str = str
+	p.raw = []byte(str)
 	p.max = len(str)
-	p.propsIndex = -1
 	p.props = props
-	p.loop(0, "")
+	i := 0
+	for i < p.max {
+		if p.str[i] == '/' {
+			var prop PDFObjPropertyData
+			i = p.readKey(i+1, &prop)
+			p.props.append(prop)
+		} else if p.str[i] == '(' {
+			i = skipLiteralString(p.raw, i)
+		} else {
+			i++
+		}
+	}
 }
 
-func (p *parseProps) loop(i int, status string) (int, string) {
+func (p *parseProps) readKey(i int, prop *PDFObjPropertyData) int {
+	start := i
+	for i < p.max {
+		r := p.str[i]
+		if r == ' ' {
+			prop.key = p.str[start:i]
+			return p.readVal(i+1, prop)
+		} else if r == '<' || r == '[' || r == '(' {
+			prop.key = p.str[start:i]
+			return p.readVal(i, prop)
+		} else if r == '/' {
+			break
+		}
+		i++
+	}
+	prop.key = p.str[start:i]
+	return i
+}
+
+func (p *parseProps) readVal(i int, prop *PDFObjPropertyData) int {
+	start := i
 	count01 := 0
 	count02 := 0
 	for i < p.max {
-		r := string(p.str[i])
-		if status == "" && r == "/" {
-			p.propsIndex++
-			p.props.append(PDFObjPropertyData{})
-			i, status = p.loop(i+1, "key")
-		} else if status == "key" {
-			if r == " " {
-				i, status = p.loop(i+1, "val")
-			} else if r == "<" || r == "[" {
-				i, status = p.loop(i, "val")
-			} else if r == "/" {
-				return i - 1, ""
-			} else {
-				p.props.at(p.propsIndex).key += r
-			}
-		} else if status == "val" {
-
-			if r == "<" {
-				count01++
-			} else if r == "[" {
-				count02++
-			} else if r == ">" {
-				count01--
-			} else if r == "]" {
-				count02--
-			}
-
-			if (r == "]" || r == ">") && (count01 == 0 && count02 == 0) {
-				p.props.at(p.propsIndex).rawVal += r
-				return i, ""
-			} else if r == "/" && (count01 == 0 && count02 == 0) {
-				return i - 1, ""
-			}
-			p.props.at(p.propsIndex).rawVal += r
+		r := p.str[i]
+		if r == '<' {
+			count01++
+		} else if r == '[' {
+			count02++
+		} else if r == '>' {
+			count01--
+		} else if r == ']' {
+			count02--
+		} else if r == '(' {
+			i = skipLiteralString(p.raw, i)
+			continue
+		}
 
+		if (r == ']' || r == '>') && (count01 == 0 && count02 == 0) {
+			i++
+			break
+		} else if r == '/' && (count01 == 0 && count02 == 0) {
+			break
 		}
 		i++
 	}
-	return i, status
+	prop.rawVal = p.str[start:i]
+	return i
 }
 
 func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
@@ -187,6 +180,9 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 		if err != nil {
 			return nil, nil, err
 		}
+		if i+1 >= max {
+			return nil, nil, ErrorObjectIDNotFound
+		}
 		revision, err := strconv.Atoi(strings.TrimSpace(tokens[i+1]))
 		if err != nil {
 			return nil, nil, err
diff --git a/xref_data.go b/xref_data.go
index 42a9735..d305cee 100644
--- a/xref_data.go
+++ b/xref_data.go
@@ -15,7 +15,7 @@ type XrefData struct {
 
 func (x *XrefData) parse(xrefline string) error {
 	xrefline = strings.TrimSpace(xrefline)
-	tokens := strings.Split(xrefline, " ")
+	tokens := strings.Fields(xrefline)
 	if len(tokens) < 3 {
 		return errors.New("bad xref format")
 	}
-- 
2.43.0


From e8e08eb98510eec957af0efd85780d8e464ab10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 02/44] fix: resolve inherited and indirect page boxes, prefer
 the newest trailer and object

---
 pdf_data.go  | 65 +++++++++++++++++++++++++++++++++++++++++++---
 pdf_parse.go | 73 +++++++++++++++++++++++++++++++++-------------------
 2 files changed, 108 insertions(+), 30 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..4557a8e 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -104,17 +104,69 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 	return &cw, nil
 }
 
+// rootPagesID obj ID of the root of page tree
+func (p *PDFData) rootPagesID() (int, error) {
+	rootObj := p.getObjByID(p.trailer.rootObjID)
+	if rootObj == nil {
+		return 0, errors.New("/Root not found")
+	}
+	rootProps, err := rootObj.readProperties()
+	if err != nil {
+		return 0, err
+	}
+	pagesProp := rootProps.getPropByKey("Pages")
+	if pagesProp == nil {
+		return 0, errors.New("/Pages not found")
+	}
+	pagesID, _, err := pagesProp.asDictionary()
+	return pagesID, err
+}
+
+// inheritedProp property of a page: its own one or that of the nearest ancestor in page tree
+func (p *PDFData) inheritedProp(pageID int, key string) *PDFObjPropertyData {
+	visited := map[int]bool{}
+	for id := pageID; !visited[id]; {
+		visited[id] = true
+		obj := p.getObjByID(id)
+		if obj == nil {
+			return nil
+		}
+		props, err := obj.readProperties()
+		if err != nil {
+			return nil
+		}
+		if prop := props.getPropByKey(key); prop != nil {
+			return prop
+		}
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			return nil
+		}
+		id, _, err = parent.asDictionary()
+		if err != nil {
+			return nil
+		}
+	}
+	return nil
+}
+
 // getPageObjIDs get page obj IDs
 func (p *PDFData) getPageObjIDs() ([]int, error) {
 	results := []int{}
-	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
-	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
+	rootPagesID, err := p.rootPagesID()
+	if err != nil {
+		return nil, err
+	}
 	objProps := map[int]*PDFObjPropertiesData{} // cache props
 	getObjProps := func(id int) *PDFObjPropertiesData {
 		if v, ok := objProps[id]; ok {
 			return v
 		}
-		if data, err := p.getObjByID(id).readProperties(); err == nil {
+		obj := p.getObjByID(id)
+		if obj == nil {
+			return nil
+		}
+		if data, err := obj.readProperties(); err == nil {
 			objProps[id] = data
 			return objProps[id]
 		}
@@ -135,9 +187,14 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		}
 		return false
 	}
-	var visit func(id int) // Preorder Traversal, supporting for page nesting
+	var visit func(id int)    // Preorder Traversal, supporting for page nesting
+	visited := map[int]bool{} //guard against loops in page tree
 	visit = func(id int) {
 		if kids := getKids(id); kids != nil {
+			if visited[id] {
+				return
+			}
+			visited[id] = true
 			for _, kid := range kids {
 				visit(kid)
 			}
diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..59217f8 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -1,8 +1,8 @@
 package pdft
 
 import (
+	"bytes"
 	"errors"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strconv"
@@ -53,20 +53,32 @@ func parsePageSize(pdf *PDFData) error {
 	}
 
 	for n, pageID := range pageIDs {
-		data := pdf.getObjByID(pageID).data
-		propContentsObj, err := readProperty(&data, "MediaBox")
-		if err != nil {
-			return err
+		propMediaBox := pdf.inheritedProp(pageID, "MediaBox")
+		if propMediaBox == nil {
+			continue
+		}
+		rawMediaBox := propMediaBox.rawVal
+		if propMediaBox.valType() == dictionary {
+			mediaBoxID, _, err := propMediaBox.asDictionary()
+			if err != nil {
+				continue
+			}
+			mediaBoxObj := pdf.getObjByID(mediaBoxID)
+			if mediaBoxObj == nil {
+				continue
+			}
+			rawMediaBox = normalizeDict(mediaBoxObj.data)
 		}
-		valType := propContentsObj.valType()
-		if valType != array {
-			fmt.Printf("MediaBox type is not array, but %s", valType)
+		if propertyType(rawMediaBox) != array {
 			continue
 		}
-		parseMediaBoxd, err := parseFloatSlice(propContentsObj.rawVal)
+		parseMediaBoxd, err := parseFloatSlice(rawMediaBox)
 		if err != nil {
 			return err
 		}
+		if len(parseMediaBoxd) < 4 {
+			continue
+		}
 		pdf.pageSizes[n] = parseMediaBoxd
 	}
 	return nil
@@ -93,22 +105,13 @@ func parseFloatSlice(s string) ([]float64, error) {
 }
 
 func setPagesObj(pdf *PDFData) error {
-	pagesProps, err := pdf.getObjByID(pdf.trailer.rootObjID).readProperties()
-	if err != nil {
-		return err
-	}
-	pagesProp := pagesProps.getPropByKey("Pages")
-	if pagesProp == nil {
-		return errors.New("/Pages not found")
-	}
-	pagesID, _, err := pagesProp.asDictionary()
+	pagesID, err := pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
-
 	pagesObj := pdf.getObjByID(pagesID)
-	if err != nil {
-		return err
+	if pagesObj == nil {
+		return errors.New("/Pages not found")
 	}
 	pdf.pagesObj = pagesObj
 	return nil
@@ -116,7 +119,7 @@ func setPagesObj(pdf *PDFData) error {
 
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
-	indexTrailers := regexpTrailer.FindAllIndex(*raw, 1)
+	indexTrailers := regexpTrailer.FindAllIndex(*raw, -1)
 	if len(indexTrailers) <= 0 {
 		return errors.New("trailer not found")
 	}
@@ -126,11 +129,22 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("startxref not found")
 	}
 
-	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
+	//the newest trailer is the last one (files updated incrementally have many trailers)
 	var props PDFObjPropertiesData
-	err := readProperties(&tmp, &props)
-	if err != nil {
-		return err
+	for n := len(indexTrailers) - 1; n >= 0; n-- {
+		tmp := (*raw)[indexTrailers[n][1]:]
+		if !bytes.HasPrefix(tmp[skipSpaces(tmp, 0):], []byte("<<")) {
+			continue
+		}
+		var tmpProps PDFObjPropertiesData
+		err := readProperties(&tmp, &tmpProps)
+		if err != nil {
+			continue
+		}
+		if tmpProps.getPropByKey("Root") != nil {
+			props = tmpProps
+			break
+		}
 	}
 
 	propRoot := props.getPropByKey("Root")
@@ -171,6 +185,7 @@ func parseXref(raw *[]byte, pdf *PDFData) error {
 }
 
 func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
+	indexs := make(map[int]int)
 	for _, xref := range pdf.xrefs {
 		//fmt.Printf("%d\n", i)
 		if xref.Keyword == "n" {
@@ -179,6 +194,12 @@ func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 			if err != nil {
 				return err
 			}
+			if index, ok := indexs[pdfobj.objID]; ok {
+				//obj was updated later in the file
+				pdf.objs[index] = pdfobj
+				continue
+			}
+			indexs[pdfobj.objID] = pdf.Len()
 			pdf.put(pdfobj)
 		}
 	}
-- 
2.43.0


From 04f5816f16934266f7e3d31d120b6d3a3a165d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:43 +0000
Subject: [PATCH 03/44] fix: page operations check their page numbers and keep
 what nested pages inherit

---
 pdf_obj_properties_data.go | 12 +++++++
 pdft.go                    | 73 +++++++++++++++++++++++++++-----------
 2 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/pdf_obj_properties_data.go b/pdf_obj_properties_data.go
index 95ec842..0890c9d 100644
--- a/pdf_obj_properties_data.go
+++ b/pdf_obj_properties_data.go
@@ -23,3 +23,15 @@ func (p *PDFObjPropertiesData) getPropByKey(key string) *PDFObjPropertyData {
 func (p *PDFObjPropertiesData) at(i int) *PDFObjPropertyData {
 	return &(*p)[i]
 }
+
+func (p *PDFObjPropertiesData) getOrAdd(key string) *PDFObjPropertyData {
+	if prop := p.getPropByKey(key); prop != nil {
+		return prop
+	}
+	p.append(PDFObjPropertyData{key: key})
+	return p.at(p.size() - 1)
+}
+
+func (p *PDFObjPropertiesData) set(key string, rawVal string) {
+	p.getOrAdd(key).setRaw(rawVal)
+}
diff --git a/pdft.go b/pdft.go
index ebbb481..dff33c8 100644
--- a/pdft.go
+++ b/pdft.go
@@ -114,14 +114,21 @@ func (i *PDFt) OpenFrom(r io.Reader) error {
 	return nil
 }
 
-// DuplicatePageAfter ...
+// DuplicatePageAfter copy page targetPageNumber (begin with 1) and put the copy after
+// the page at index position (begin with 0, negative counts from the last page)
 func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 
 	pageObjIds, err := i.pdf.getPageObjIDs()
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+	if position < 0 {
+		position = len(pageObjIds) + position // like python
+	}
+	if position < 0 || position >= len(pageObjIds) {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -135,19 +142,18 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if pageContent == nil {
 		return ErrNoContentsProperty
 	}
-	contentID, _, err := pageContent.asDictionary()
-	if err != nil {
-		return err
+	if contentID, _, err := pageContent.asDictionary(); err == nil { //an array is copied with page itself
+		contentObj := i.pdf.getObjByID(contentID)
+		if contentObj == nil {
+			return ErrNoContentsProperty
+		}
+		contentID = i.pdf.putNewObject(*contentObj) //copy object value
+		pageContent.setAsDictionary(contentID, 0)
+		pageObj.setProperties(props)
 	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-	pageContent.setAsDictionary(contentID, 0)
-	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
 
-	if position < 0 {
-		position = len(pageObjIds) + position // like python
-	}
 	pageObjIds = append(pageObjIds, 0)
 	copy(pageObjIds[position+1:], pageObjIds[position:])
 	pageObjIds[position+1] = pageID
@@ -161,7 +167,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,31 +182,56 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-	rootProps, err := i.pdf.getObjByID(i.pdf.trailer.rootObjID).readProperties()
-	if err != nil {
-		return err
-	}
-	rootPagesID, _, err := rootProps.getPropByKey("Pages").asDictionary()
+	rootPagesID, err := i.pdf.rootPagesID()
 	if err != nil {
 		return err
 	}
 	pagesObj := i.pdf.getObjByID(rootPagesID)
+	if pagesObj == nil {
+		return errors.New("/Pages not found")
+	}
 	props, err := pagesObj.readProperties()
 	if err != nil {
 		return err
 	}
+	for _, pageObjID := range pageObjIds {
+		err = i.movePageToRoot(pageObjID, rootPagesID)
+		if err != nil {
+			return err
+		}
+	}
 	nPage := len(pageObjIds)
-	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
-	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
+	props.set("Count", strconv.Itoa(nPage))
+	props.getOrAdd("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
+	return parsePageSize(&i.pdf)
+}
+
+// movePageToRoot make page a kid of the root of page tree, what it inherits from its ancestors becomes its own
+func (i *PDFt) movePageToRoot(pageObjID int, rootPagesID int) error {
+	pageObj := i.pdf.getObjByID(pageObjID)
+	if pageObj == nil {
+		return errors.New("page not found")
+	}
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return err
+	}
+	for _, key := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
+		if inherited := i.pdf.inheritedProp(pageObjID, key); inherited != nil && props.getPropByKey(key) == nil {
+			props.set(key, inherited.rawVal)
+		}
+	}
+	props.getOrAdd("Parent").setAsDictionary(rootPagesID, 0)
+	pageObj.setProperties(props)
 	return nil
 }
 
-- 
2.43.0


From 6e6e28dcbd5c1ce3e17c920b602dfc0210c1da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:48 +0000
Subject: [PATCH 04/44] fix: page tree nodes whose Kids array is an indirect
 object

---
 pdf_data.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 4557a8e..90dc324 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -175,7 +175,16 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	getKids := func(id int) []int {
 		if props := getObjProps(id); props != nil {
 			if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil {
-				kidIDs, _, _ := kid.asDictionaryArr()
+				rawKids := kid.rawVal
+				if kid.valType() == dictionary { //array is in another obj
+					kidsID, _, _ := kid.asDictionary()
+					kidsObj := p.getObjByID(kidsID)
+					if kidsObj == nil {
+						return nil
+					}
+					rawKids = normalizeDict(kidsObj.data)
+				}
+				kidIDs, _, _ := readObjIDFromDictionaryArr(rawKids)
 				return kidIDs
 			}
 		}
-- 
2.43.0


From 91f57bab6963b6d1b62059ffb0c1ec444c17710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:42 +0000
Subject: [PATCH 05/44] fix: saving twice no longer duplicates fonts and
 content

---
 minigopdf/cid_font_obj.go           | 1 +
 minigopdf/pdf_dictionary_obj.go     | 1 +
 minigopdf/subfont_descriptor_obj.go | 1 +
 minigopdf/subset_font_obj.go        | 1 +
 minigopdf/unicode_map.go            | 1 +
 pdf_data.go                         | 8 ++++++++
 pdft.go                             | 4 ++--
 7 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..cdfcf02 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -16,6 +16,7 @@ func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 
 func (ci *CIDFontObj) build(objID int) error {
 
+	ci.buffer.Reset()
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..2da5c26 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -58,6 +58,7 @@ func (p *PdfDictionaryObj) build(objID int) error {
 	}
 	gzipwriter.Close()
 
+	p.buffer.Reset()
 	p.buffer.WriteString("<</Length " + strconv.Itoa(zbuff.Len()) + "\n")
 	p.buffer.WriteString("/Filter /FlateDecode\n")
 	p.buffer.WriteString("/Length1 " + strconv.Itoa(len(b)) + "\n")
diff --git a/minigopdf/subfont_descriptor_obj.go b/minigopdf/subfont_descriptor_obj.go
index ca21e7e..48b1aec 100644
--- a/minigopdf/subfont_descriptor_obj.go
+++ b/minigopdf/subfont_descriptor_obj.go
@@ -27,6 +27,7 @@ func (s *SubfontDescriptorObj) build(objID int) error {
 
 	ttfp := s.PtrToSubsetFontObj.GetTTFParser()
 	//fmt.Printf("-->%d\n", ttfp.UnitsPerEm())
+	s.buffer.Reset()
 	s.buffer.WriteString("<<\n")
 	s.buffer.WriteString("/Type /FontDescriptor\n")
 	s.buffer.WriteString(fmt.Sprintf("/Ascent %d\n", DesignUnitsToPdf(ttfp.Ascender(), ttfp.UnitsPerEm())))
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..b77f7ee 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -47,6 +47,7 @@ func (s *SubsetFontObj) init(funcGetRoot func() *GoPdf) {
 
 func (s *SubsetFontObj) build(objID int) error {
 	//me.AddChars("จ")
+	s.buffer.Reset()
 	s.buffer.WriteString("<<\n")
 	s.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(s.Family)))
 	s.buffer.WriteString(fmt.Sprintf("/DescendantFonts [%d 0 R]\n", s.indexObjCIDFont+1))
diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..2a30866 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -35,6 +35,7 @@ func (u *UnicodeMap) build(objID int) error {
 	if err != nil {
 		return err
 	}
+	u.buffer.Reset()
 	u.buffer.Write(buff.Bytes())
 	return nil
 }
diff --git a/pdf_data.go b/pdf_data.go
index 90dc324..eb6adcf 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -30,6 +30,14 @@ func (p *PDFData) Len() int {
 	return len(p.objIDs)
 }
 
+// clone copy of pdf, objs can be put or replaced without changing the original
+func (p *PDFData) clone() PDFData {
+	newpdf := *p
+	newpdf.objIDs = append([]int(nil), p.objIDs...)
+	newpdf.objs = append([]PDFObjData(nil), p.objs...)
+	return newpdf
+}
+
 func (p *PDFData) put(pdfobj PDFObjData) {
 	p.objIDs = append(p.objIDs, pdfobj.objID)
 	p.objs = append(p.objs, pdfobj)
diff --git a/pdft.go b/pdft.go
index dff33c8..1592223 100644
--- a/pdft.go
+++ b/pdft.go
@@ -638,7 +638,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	newpdf := i.pdf //copy
+	newpdf := i.pdf.clone() //copy
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
@@ -702,7 +702,7 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		}
 	}
 
-	return &newpdf, nextID, nil
+	return &newpdf, newpdf.maxID(), nil
 }
 
 func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
-- 
2.43.0


From 48b55a2d011d22b423c5db0049b26478c3bca5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:05 +0000
Subject: [PATCH 06/44] fix: opening another template starts from a clean
 document

---
 pdft.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdft.go b/pdft.go
index 1592223..3532091 100644
--- a/pdft.go
+++ b/pdft.go
@@ -99,16 +99,21 @@ func (i *PDFt) Open(filepath string) error {
 
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
-	//init
-	i.fontDatas = make(map[string]*PDFFontData)
-	i.curr.lineWidth = 1.0
-	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
 	//open
-	err := PDFParse(r, &i.pdf)
+	var pdf PDFData
+	err := PDFParse(r, &pdf)
 	if err != nil {
 		return err
 	}
 
+	//init
+	i.pdf = pdf
+	i.fontDatas = make(map[string]*PDFFontData)
+	i.curr = current{lineWidth: 1.0}
+	i.contenters = nil
+	i.pdfImgs = nil
+	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+
 	i.ShowCellBorder(false)
 
 	return nil
-- 
2.43.0


From c142455c66cb6cc6e9d918eaae9f5f323d678001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 07/44] fix: encrypt the exact stream data and the strings of
 every object

---
 pdf_data.go     |  3 ++
 pdf_lex.go      | 72 ++++++++++++++++++++++++++++++++++++++
 pdf_obj_data.go | 91 +++++++++++++++++++++++++++++++++++++------------
 pdft.go         |  5 ++-
 4 files changed, 149 insertions(+), 22 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index eb6adcf..c012292 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -609,6 +609,9 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 			return 0, err
 		}
 		fontlengthObj := p.getObjByID(objID)
+		if fontlengthObj == nil {
+			return 0, errors.New("/Length or /Length1 not found")
+		}
 		return strconv.Atoi(strings.TrimSpace(string(fontlengthObj.data)))
 	} else {
 		return 0, errors.New("/Length or /Length1  wrong type")
diff --git a/pdf_lex.go b/pdf_lex.go
index 92d2c0b..54a54ae 100644
--- a/pdf_lex.go
+++ b/pdf_lex.go
@@ -150,3 +150,75 @@ func normalizeDict(b []byte) string {
 	}
 	return out.String()
 }
+
+// decodeHexString value of string <...>
+func decodeHexString(b []byte) []byte {
+	var out []byte
+	high := -1
+	for _, c := range b {
+		digit := -1
+		switch {
+		case c >= '0' && c <= '9':
+			digit = int(c - '0')
+		case c >= 'a' && c <= 'f':
+			digit = int(c-'a') + 10
+		case c >= 'A' && c <= 'F':
+			digit = int(c-'A') + 10
+		}
+		if digit == -1 {
+			continue
+		}
+		if high == -1 {
+			high = digit
+			continue
+		}
+		out = append(out, byte(high<<4|digit))
+		high = -1
+	}
+	if high != -1 {
+		out = append(out, byte(high<<4))
+	}
+	return out
+}
+
+// decodeLiteralString value of string (...)
+func decodeLiteralString(b []byte) []byte {
+	b = bytes.TrimSuffix(bytes.TrimPrefix(b, []byte("(")), []byte(")"))
+	escapes := map[byte]byte{'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f'}
+	var out []byte
+	i := 0
+	for i < len(b) {
+		c := b[i]
+		i++
+		if c == '\r' { //end of line is always \n
+			if i < len(b) && b[i] == '\n' {
+				i++
+			}
+			out = append(out, '\n')
+			continue
+		}
+		if c != '\\' || i >= len(b) {
+			out = append(out, c)
+			continue
+		}
+		c = b[i]
+		i++
+		if val, ok := escapes[c]; ok {
+			out = append(out, val)
+		} else if c >= '0' && c <= '7' {
+			octal := int(c - '0')
+			for n := 1; n < 3 && i < len(b) && b[i] >= '0' && b[i] <= '7'; n++ {
+				octal = octal<<3 | int(b[i]-'0')
+				i++
+			}
+			out = append(out, byte(octal))
+		} else if c == '\r' {
+			if i < len(b) && b[i] == '\n' {
+				i++
+			}
+		} else if c != '\n' {
+			out = append(out, c)
+		}
+	}
+	return out
+}
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 676d185..ce481d2 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/rc4"
 	"errors"
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -111,36 +112,84 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	p.data = data.Bytes()
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) error {
 
-	stream := []byte("stream")
-	endstream := []byte("endstream")
-	start := bytes.Index(p.data, stream)
-	if start != -1 {
-		end := bytes.LastIndex(p.data, endstream)
-
-		var head, body bytes.Buffer
-		head.Write(p.data[0:start])
-		body.Write(p.data[start+len(stream) : end])
-		tmp := bytes.Trim(body.Bytes(), "\r\n")
-		tmp = bytes.Trim(tmp, "\n")
-		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
+	key := protection.Objectkey(p.objID)
+	start := streamStart(p.data)
+	if start == -1 {
+		data, err := encryptStrings(key, p.data)
 		if err != nil {
 			return err
 		}
+		p.data = data
+		return nil
+	}
+
+	end := -1
+	if length, err := streamLength(pdf, &p.data); err == nil && isStreamEnd(p.data, start, length) {
+		end = start + length
+	} else {
+		end = bytes.LastIndex(p.data, []byte("endstream"))
+		if end < start {
+			end = len(p.data)
+		}
+		end = start + len(bytes.TrimRight(p.data[start:end], "\r\n"))
+	}
 
-		var data bytes.Buffer
-		data.Write(head.Bytes())
-		data.Write(stream)
-		data.WriteString("\n")
-		data.Write(bodyRc4)
-		data.WriteString("\n")
-		data.Write(endstream)
-		p.data = data.Bytes()
+	head, err := encryptStrings(key, p.data[:start])
+	if err != nil {
+		return err
+	}
+	bodyRc4, err := rc4Cip(key, p.data[start:end])
+	if err != nil {
+		return err
 	}
+
+	var data bytes.Buffer
+	data.Write(bytes.TrimRight(head, "\r\n"))
+	data.WriteString("\n")
+	data.Write(bodyRc4)
+	data.WriteString("\nendstream")
+	p.data = data.Bytes()
 	return nil
 }
 
+// encryptStrings encrypt every string of an obj, the result has them as hex strings
+func encryptStrings(key []byte, b []byte) ([]byte, error) {
+	var out bytes.Buffer
+	i := 0
+	for i < len(b) {
+		start := i
+		var str []byte
+		switch {
+		case b[i] == '%':
+			i = skipComment(b, i)
+			out.Write(b[start:i])
+			continue
+		case b[i] == '<' && i+1 < len(b) && b[i+1] == '<':
+			out.WriteString("<<")
+			i += 2
+			continue
+		case b[i] == '<':
+			i = skipHexString(b, i)
+			str = decodeHexString(b[start:i])
+		case b[i] == '(':
+			i = skipLiteralString(b, i)
+			str = decodeLiteralString(b[start:i])
+		default:
+			out.WriteByte(b[i])
+			i++
+			continue
+		}
+		strRc4, err := rc4Cip(key, str)
+		if err != nil {
+			return nil, err
+		}
+		out.WriteString(fmt.Sprintf("<%X>", strRc4))
+	}
+	return out.Bytes(), nil
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index 3532091..caa30ea 100644
--- a/pdft.go
+++ b/pdft.go
@@ -702,7 +702,10 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			err = newpdf.objs[x].encrypt(&newpdf, i.protection())
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
-- 
2.43.0


From f84ea0a6f8155775f8d1c62ed6d3d9552ffbce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:51 +0000
Subject: [PATCH 08/44] fix: SetProtection writes into spare capacity of the
 password slices

---
 minigopdf/pdf_protection.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..005f58c 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,10 +50,9 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	//slices of caller must not be changed
+	userPassWithPadding := append(append([]byte(nil), userPass...), protectionPadding...)[0:32]
+	ownerPassWithPadding := append(append([]byte(nil), ownerPass...), protectionPadding...)[0:32]
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
-- 
2.43.0


From ca90a2014c2d414d8edf738d76b3c9699ef8501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:20 +0000
Subject: [PATCH 09/44] fix: failed inserts and measures leave no trace,
 callbacks can be cleared, fonts before Open

---
 minigopdf/subset_font_obj.go | 11 +++++++--
 pdft.go                      | 44 +++++++++++++++++++++++++++++-------
 2 files changed, 45 insertions(+), 10 deletions(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index b77f7ee..03e0b79 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -130,8 +130,9 @@ func (s *SubsetFontObj) SetTTFByReader(rd io.Reader) error {
 	return nil
 }
 
-// AddChars add char to map CharacterToGlyphIndex
+// AddChars add char to map CharacterToGlyphIndex, nothing is added if one of them is not found
 func (s *SubsetFontObj) AddChars(txt string) error {
+	glyphIndexs := make(map[rune]uint)
 	for _, runeValue := range txt {
 		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
 			continue
@@ -140,7 +141,13 @@ func (s *SubsetFontObj) AddChars(txt string) error {
 		if err != nil {
 			return err
 		}
-		s.CharacterToGlyphIndex.Set(runeValue, glyphIndex) // [runeValue] = glyphIndex
+		glyphIndexs[runeValue] = glyphIndex
+	}
+	for _, runeValue := range txt {
+		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
+			continue
+		}
+		s.CharacterToGlyphIndex.Set(runeValue, glyphIndexs[runeValue]) // [runeValue] = glyphIndex
 	}
 	return nil
 }
diff --git a/pdft.go b/pdft.go
index caa30ea..71fadd4 100644
--- a/pdft.go
+++ b/pdft.go
@@ -333,7 +333,10 @@ func (i *PDFt) InsertWrapText(text string,
 func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *FontColor) error {
 	var ct ContentText
 	ct.text = text
-	ct.fontColor = fontColor
+	if fontColor != nil {
+		color := *fontColor //caller can change its own one later
+		ct.fontColor = &color
+	}
 	ct.fontName = i.curr.fontName
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
@@ -350,13 +353,23 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := ct.pdfFontData.addChars(text)
+	if err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
-	i.fontDatas[i.curr.fontName].addChars(text)
+	if _, have := i.fontDatas[i.curr.fontName]; !have {
+		return 0, ErrFontNameNotFound
+	}
+	err := i.fontDatas[i.curr.fontName].addChars(text)
+	if err != nil {
+		return 0, err
+	}
 	var ct ContentText
 	ct.text = text
 	ct.fontName = i.curr.fontName
@@ -364,9 +377,6 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 	ct.fontSize = i.curr.fontSize
 	ct.lineWidth = i.curr.lineWidth
 	ct.pageHeight = i.pageHeight(1)
-	if _, have := i.fontDatas[ct.fontName]; !have {
-		return 0, ErrFontNameNotFound
-	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
 	width, err := ct.measureTextWidth()
 	return width, err
@@ -494,6 +504,9 @@ func (i *PDFt) InsertImgWithCache(img []byte, pageNum int, x float64, y float64,
 		pdfimg.setImgObj(imgObj)
 
 		i.pdfImgs = append(i.pdfImgs, pdfimg)
+		if i.pdfImgsMd5Map == nil {
+			i.pdfImgsMd5Map = make(map[string]*PDFImageData)
+		}
 		i.pdfImgsMd5Map[md5Str] = pdfimg
 	}
 	var ct contentImgBase64
@@ -527,7 +540,7 @@ func (i *PDFt) AddFont(name string, ttfpath string) error {
 		return err
 	}
 
-	i.fontDatas[name] = fontData
+	i.addFontData(name, fontData)
 	return nil
 }
 
@@ -542,10 +555,17 @@ func (i *PDFt) AddFontFrom(name string, reader io.Reader) error {
 		return err
 	}
 
-	i.fontDatas[name] = fontData
+	i.addFontData(name, fontData)
 	return nil
 }
 
+func (i *PDFt) addFontData(name string, fontData *PDFFontData) {
+	if i.fontDatas == nil { //font can be added before Open
+		i.fontDatas = make(map[string]*PDFFontData)
+	}
+	i.fontDatas[name] = fontData
+}
+
 // TextriseOverride override text rise
 // Text rise, Trise , specifies the distance, in unscaled text space units,
 // to move the baseline up or down from its default location.
@@ -556,6 +576,10 @@ func (i *PDFt) TextriseOverride(name string, fn FuncTextriseOverride) error {
 	if _, have := i.fontDatas[name]; !have {
 		return ErrFontNameNotFound
 	}
+	if fn == nil {
+		i.fontDatas[name].font.SetFuncTextriseOverride(nil)
+		return nil
+	}
 	i.fontDatas[name].font.SetFuncTextriseOverride(func(
 		leftRune rune,
 		rightRune rune,
@@ -573,6 +597,10 @@ func (i *PDFt) KernOverride(name string, fn FuncKernOverride) error {
 	if _, have := i.fontDatas[name]; !have {
 		return ErrFontNameNotFound
 	}
+	if fn == nil {
+		i.fontDatas[name].font.SetFuncKernOverride(nil)
+		return nil
+	}
 	i.fontDatas[name].font.SetFuncKernOverride(func(
 		leftRune rune,
 		rightRune rune,
-- 
2.43.0


From 9cd9a16f4f6416dc960a1f768a4bf551b8d5103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:30 +0000
Subject: [PATCH 10/44] fix: ToUnicode of characters beyond the BMP and font
 names with special characters

---
 minigopdf/strhelper.go   | 11 ++++++++++-
 minigopdf/unicode_map.go | 22 ++++++++++++----------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/minigopdf/strhelper.go b/minigopdf/strhelper.go
index 18f0614..3700dc1 100644
--- a/minigopdf/strhelper.go
+++ b/minigopdf/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -22,7 +23,15 @@ func StrHelperGetStringWidth(str string, fontSize int, ifont IFont) float64 {
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	var buff strings.Builder
+	for i := 0; i < len(name); i++ {
+		if name[i] <= ' ' || name[i] > '~' || strings.IndexByte("#%()<>[]{}", name[i]) >= 0 {
+			buff.WriteString(fmt.Sprintf("#%02X", name[i])) //not a regular character
+		} else {
+			buff.WriteByte(name[i])
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 2a30866..2477d40 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -60,19 +61,11 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
 
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -80,13 +73,13 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	var buff bytes.Buffer
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	buff.WriteString(fmt.Sprintf("<%04X><%04X>\n", lowIndex, hiIndex))
+	buff.WriteString("<0000><FFFF>\n")
 	buff.WriteString("endcodespacerange\n")
 	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
+		buff.WriteString(fmt.Sprintf("<%04X><%04X><%s>\n", k, k, utf16Hex(v)))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
@@ -123,6 +116,15 @@ func (u *UnicodeMap) Build(objID int) error {
 	return u.build(objID)
 }
 
+// utf16Hex UTF-16BE of r in hex
+func utf16Hex(r rune) string {
+	if r > 0xFFFF {
+		r1, r2 := utf16.EncodeRune(r)
+		return fmt.Sprintf("%04X%04X", r1, r2)
+	}
+	return fmt.Sprintf("%04X", r)
+}
+
 type mapGlyphIndexToCharacter struct {
 	runes  []rune
 	indexs []int
-- 
2.43.0


From 9c46818c0d47c78da2b70b467ee6b3b9f47738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:30 +0000
Subject: [PATCH 11/44] fix: font parser rejects fonts with impossible tables
 instead of panicking

---
 minigopdf/fontmaker/core/ttfparser.go | 37 ++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c750a59..b3e822f 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -276,6 +276,13 @@ func (t *TTFParser) parse(rd io.Reader) error {
 
 	//fmt.Printf("%+v\n", me.tables)
 
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		table := t.tables[tag]
+		if table.Offset+table.Length > uint(len(fontdata)) {
+			return errors.New("file out of length")
+		}
+	}
+
 	err = t.ParseHead(fd)
 	if err != nil {
 		return err
@@ -371,6 +378,9 @@ func (t *TTFParser) ParseLoca(fd *bytes.Reader) error {
 			i++
 		}
 	}
+	if uint(len(locaTable)) < t.numGlyphs+1 {
+		return errors.New("loca table too short")
+	}
 	t.LocaTable = locaTable
 	return nil
 }
@@ -600,7 +610,10 @@ func (t *TTFParser) PregReplace(pattern string, replacement string, subject stri
 
 // ParseCmap parse cmap table format 4 https://www.microsoft.com/typography/otspec/cmap.htm
 func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
-	t.Seek(fd, "cmap")
+	err := t.Seek(fd, "cmap")
+	if err != nil {
+		return err
+	}
 	t.Skip(fd, 2) // version
 	numTables, err := t.ReadUShort(fd)
 	if err != nil {
@@ -733,11 +746,18 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 	t.GlyphIdArray = glyphIDArray
 
 	t.chars = make(map[int]uint)
+	sumOfChars := uint(0)
 	for i := 0; i < int(segCount); i++ {
 		c1 := startCount[i]
 		c2 := endCount[i]
 		d := idDelta[i]
 		ro := idRangeOffset[i]
+		if c2 >= c1 {
+			sumOfChars += c2 - c1 + 1
+		}
+		if sumOfChars > 16*0x10000 {
+			return errors.New("segments of cmap overlap")
+		}
 		if ro > 0 {
 			_, err = fd.Seek(int64(offset+uint(2*i)+ro), 0)
 			if err != nil {
@@ -789,7 +809,10 @@ func (t *TTFParser) FTell(fd *bytes.Reader) (uint, error) {
 // ParseHmtx parse hmtx table  https://www.microsoft.com/typography/otspec/hmtx.htm
 func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 
-	t.Seek(fd, "hmtx")
+	err := t.Seek(fd, "hmtx")
+	if err != nil {
+		return err
+	}
 	i := uint(0)
 	for i < t.numberOfHMetrics {
 		advanceWidth, err := t.ReadUShort(fd)
@@ -804,7 +827,6 @@ func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 		i++
 	}
 	if t.numberOfHMetrics < t.numGlyphs {
-		var err error
 		lastWidth := t.widths[t.numberOfHMetrics-1]
 		t.widths, err = t.ArrayPadUint(t.widths, t.numGlyphs, lastWidth)
 		if err != nil {
@@ -862,6 +884,9 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.unitsPerEm == 0 {
+		return errors.New("unitsPerEm is zero")
+	}
 
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
@@ -933,6 +958,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return errors.New("numberOfHMetrics is zero")
+	}
 
 	return nil
 }
@@ -951,6 +979,9 @@ func (t *TTFParser) ParseMaxp(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numGlyphs == 0 {
+		return errors.New("numGlyphs is zero")
+	}
 	return nil
 }
 
-- 
2.43.0


From 6d37fdc8ce417b2273b99cba8052a29ed53a98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:30 +0000
Subject: [PATCH 12/44] fix: subset keeps shared glyphs and nested components,
 last char of cmap 12 groups

---
 minigopdf/pdf_dictionary_obj.go | 64 +++++++++++++--------------------
 minigopdf/subset_font_obj.go    | 12 +++++--
 2 files changed, 34 insertions(+), 42 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 2da5c26..5207698 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -131,12 +131,7 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 }
 
 func (p *PdfDictionaryObj) getGlyphSize(glyph int) int {
-
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	glyf := ttfp.GetTables()["glyf"]
-	start := int(glyf.Offset + ttfp.LocaTable[glyph])
-	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
-	return next - start
+	return len(p.getGlyphData(glyph))
 }
 
 func (p *PdfDictionaryObj) getGlyphData(glyph int) []byte {
@@ -144,14 +139,10 @@ func (p *PdfDictionaryObj) getGlyphData(glyph int) []byte {
 	glyf := ttfp.GetTables()["glyf"]
 	start := int(glyf.Offset + ttfp.LocaTable[glyph])
 	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
-	count := next - start
-	var data []byte
-	i := 0
-	for i < count {
-		data = append(data, ttfp.FontData()[start+i])
-		i++
+	if next <= start || next > len(ttfp.FontData()) {
+		return nil
 	}
-	return data
+	return append([]byte(nil), ttfp.FontData()[start:next]...)
 }
 
 func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
@@ -231,7 +222,9 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			data := make([]byte, entry.PaddedLength())
+			copy(data, ttfp.FontData()[entry.Offset:entry.Offset+entry.Length])
+			WriteBytes(&buff, data, 0, len(data))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -252,25 +245,19 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 }
 
 func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGlyphIndex) []int {
-	var glyphArray []int
-	//copy
-	isContainZero := false
-	glyphs := mapOfglyphs.AllVals()
-	for _, v := range glyphs {
-		glyphArray = append(glyphArray, int(v))
-		if v == 0 {
-			isContainZero = true
+	glyphArray := []int{0}
+	//copy (many characters can have the same glyph)
+	added := map[uint]bool{0: true}
+	for _, v := range mapOfglyphs.AllVals() {
+		if !added[v] {
+			added[v] = true
+			glyphArray = append(glyphArray, int(v))
 		}
 	}
-	if !isContainZero {
-		glyphArray = append(glyphArray, 0)
-	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	//a component can be a composite glyph too
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
@@ -278,28 +265,27 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
-	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
+	glyphData := p.getGlyphData(glyph)
+	if len(glyphData) < 10 {
 		return
 	}
 
-	offset := start
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	fontData := ttfp.FontData()
-	numContours, step := ReadShortFromByte(fontData, offset)
+	offset := 0
+	numContours, step := ReadShortFromByte(glyphData, offset)
 	offset += step
 	if numContours >= 0 {
 		return
 	}
 
 	offset += 8
-	for {
-		flags, step1 := ReadUShortFromByte(fontData, offset)
+	for offset+4 <= len(glyphData) {
+		flags, step1 := ReadUShortFromByte(glyphData, offset)
 		offset += step1
-		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
+		cGlyph, step2 := ReadUShortFromByte(glyphData, offset)
 		offset += step2
 		//check cGlyph is contain in glyphArray?
-		glyphContainsKey := false
+		glyphContainsKey := cGlyph >= uint64(ttfp.NumGlyphs())
 		for _, g := range *glyphArray {
 			if g == int(cGlyph) {
 				glyphContainsKey = true
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 03e0b79..f6eff44 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -194,8 +194,11 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
+			if gIndex >= s.ttfp.NumGlyphs() {
+				break
+			}
 			return gIndex, nil
 		}
 	}
@@ -214,7 +217,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, nil
 	}
 
@@ -225,7 +228,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) || s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, nil
 	}
 
@@ -241,6 +244,9 @@ func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
 		if err != nil {
 			return 0, err
 		}
+		if gIndex >= s.ttfp.NumGlyphs() {
+			return 0, nil
+		}
 		return gIndex, nil
 	} else {
 		gIndex, err := s.charCodeToGlyphIndexFormat12(r)
-- 
2.43.0


From f37980ec17585fd9fe7db250221b5c1bc2304c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:45 +0000
Subject: [PATCH 13/44] fix: inserts keep every resource and content layout of
 the pages intact

---
 crawl.go                   |   9 +
 crawl_result_font.go       |  53 ++--
 crawl_result_x_object.go   |  50 ++--
 pdf_data.go                | 513 +++++++++++--------------------------
 pdf_obj_data.go            |   8 +-
 pdf_obj_properties_data.go |  13 +
 pdft.go                    |   5 +
 7 files changed, 222 insertions(+), 429 deletions(-)

diff --git a/crawl.go b/crawl.go
index 4cdab91..9883090 100644
--- a/crawl.go
+++ b/crawl.go
@@ -32,6 +32,9 @@ func (c *crawl) set(pdf *PDFData, objID int, p ...string) {
 
 func (c *crawl) run() error {
 	objdata := c.pdf.getObjByID(c.objID)
+	if objdata == nil {
+		return ErrorObjectIDNotFound
+	}
 	err := c.next(&objdata.data, 0, c.objID, c.resultByObjID(c.objID))
 	return err
 }
@@ -67,6 +70,9 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 					return err
 				}
 				objdata := c.pdf.getObjByID(objID)
+				if objdata == nil {
+					return ErrorObjectIDNotFound
+				}
 				err = c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				if err != nil {
 					return err
@@ -80,6 +86,9 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 				}
 				for _, objID := range objIDs {
 					objdata := c.pdf.getObjByID(objID)
+					if objdata == nil {
+						return ErrorObjectIDNotFound
+					}
 					c.next(&objdata.data, i+1, objID, c.resultByObjID(objID))
 				}
 			} else if propType == object {
diff --git a/crawl_result_font.go b/crawl_result_font.go
index 23ece59..7581191 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -5,28 +5,21 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
-	"unicode"
 )
 
 type crawlResultFonts []crawlResultFont
 
 var ErrNoFontIndex = fmt.Errorf("no font index")
 
-// Split a font string like '/F1' or '/TT2' into the prefix and index
-func splitFont(s string) (string, int, error) {
-	prefix := ""
-	for i, r := range s {
-		if unicode.IsDigit(r) {
-			s := strings.ReplaceAll(s, "_", "")
-			val, err := strconv.Atoi(s[i:])
-			if err != nil {
-				return "", 0, err
-			}
-			return prefix, val, nil
-		}
-		prefix += string(r)
+// indexOfName index at the end of a name like 'F1' or 'T1_2', zero if name has no index
+func indexOfName(name string) int {
+	name = strings.TrimSpace(name)
+	prefix := strings.TrimRight(name, "0123456789")
+	index, err := strconv.Atoi(name[len(prefix):])
+	if err != nil {
+		return 0
 	}
-	return "", 0, ErrNoFontIndex
+	return index
 }
 
 func (c *crawlResultFonts) parse(propVal *[]byte) error {
@@ -38,18 +31,8 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 
 	for _, prop := range props {
 		var crFont crawlResultFont
-
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
-			return err
-		}
-		objID, _, err := prop.asDictionary()
-		if err != nil {
-			return err
-		}
-		crFont.prefix = prefix
-		crFont.fontIndex = fontIndex
-		crFont.fontObjID = objID
+		crFont.name = prop.key
+		crFont.val = prop.rawVal
 		*c = append(*c, crFont)
 	}
 	return nil
@@ -58,31 +41,29 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 func (c *crawlResultFonts) String() string {
 	var buff bytes.Buffer
 	for _, f := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
+		buff.WriteString(fmt.Sprintf("/%s %s\n", f.name, f.val))
 	}
 	return buff.String()
 }
 
 func (c *crawlResultFonts) append(fontIndex int, fontObjID int) {
 	var crFont crawlResultFont
-	crFont.fontIndex = fontIndex
-	crFont.fontObjID = fontObjID
-	crFont.prefix = "F"
+	crFont.name = fmt.Sprintf("F%d", fontIndex)
+	crFont.val = fmt.Sprintf("%d 0 R", fontObjID)
 	*c = append(*c, crFont)
 }
 
 func (c *crawlResultFonts) maxFontIndex() int {
 	max := 0
 	for _, f := range *c {
-		if f.fontIndex > max {
-			max = f.fontIndex
+		if index := indexOfName(f.name); index > max {
+			max = index
 		}
 	}
 	return max
 }
 
 type crawlResultFont struct {
-	fontIndex int
-	fontObjID int
-	prefix    string
+	name string
+	val  string
 }
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
index ca895a0..ba58873 100644
--- a/crawl_result_x_object.go
+++ b/crawl_result_x_object.go
@@ -3,15 +3,10 @@ package pdft
 import (
 	"bytes"
 	"fmt"
-	"regexp"
-	"strconv"
-	"strings"
 )
 
 type crawlResultXObjects []crawlResultXObject
 
-var regSplit = regexp.MustCompile("([a-z A-Z]*)([0-9]*)")
-
 func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 	var props PDFObjPropertiesData
 	err := readProperties(propVal, &props)
@@ -20,26 +15,9 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 	}
 
 	for _, prop := range props {
-		//fmt.Printf("\t %#v\n", prop)
-		tokens := regSplit.FindStringSubmatch(prop.key)
-		if len(tokens) < 3 {
-			continue
-		}
-
 		var xObj crawlResultXObject
-		xObj.xObjChar = tokens[1]
-		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
-		}
-		xObj.xObjIndex = xObjIndex
-
-		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
-		if err != nil {
-			return err
-		}
-
-		xObj.xObjObjID = xObjObjID
+		xObj.name = prop.key
+		xObj.val = prop.rawVal
 		*c = append(*c, xObj)
 	}
 
@@ -49,13 +27,29 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 func (c *crawlResultXObjects) String() string {
 	var buff bytes.Buffer
 	for _, xObj := range *c {
-		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
+		buff.WriteString(fmt.Sprintf("/%s %s\n", xObj.name, xObj.val))
 	}
 	return buff.String()
 }
 
+func (c *crawlResultXObjects) append(xObjChar string, xObjIndex int, xObjObjID int) {
+	var xObj crawlResultXObject
+	xObj.name = fmt.Sprintf("%s%d", xObjChar, xObjIndex)
+	xObj.val = fmt.Sprintf("%d 0 R", xObjObjID)
+	*c = append(*c, xObj)
+}
+
+func (c *crawlResultXObjects) maxXObjIndex() int {
+	max := 0
+	for _, xObj := range *c {
+		if index := indexOfName(xObj.name); index > max {
+			max = index
+		}
+	}
+	return max
+}
+
 type crawlResultXObject struct {
-	xObjChar  string
-	xObjIndex int
-	xObjObjID int
+	name string
+	val  string
 }
diff --git a/pdf_data.go b/pdf_data.go
index c012292..fbe0d07 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -2,10 +2,8 @@ package pdft
 
 import (
 	"bytes"
-	"compress/zlib"
 	"errors"
 	"fmt"
-	"io"
 	"strconv"
 	"strings"
 )
@@ -85,33 +83,78 @@ func (p *PDFData) getObjByID(objID int) *PDFObjData {
 }
 
 // getPageCrawl use crawl, supporting for page nesting
-func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
+func (p *PDFData) getPageCrawl(path ...string) (*crawl, error) {
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return nil, err
+	}
 	var cw crawl
-	pagePath := append([]string{"Pages"}, path...)
-	cw.set(p, objID, pagePath...)
-	cw.run()
-	checkedQueue := []int{}
-	for k := range cw.results {
-		checkedQueue = append(checkedQueue, k)
-	}
-	for len(checkedQueue) > 0 {
-		key := checkedQueue[0]
-		if s := cw.results[key].String(); strings.Contains(s, "/Pages") && strings.Contains(s, "/Parent") {
-			var subCw crawl
-			subCw.set(p, key, path...)
-			subCw.run()
-			for k, v := range subCw.results {
-				cw.results[k] = v
-				if _, ok := cw.results[k]; !ok {
-					checkedQueue = append(checkedQueue, k)
-				}
-			}
+	cw.set(p, p.trailer.rootObjID, path...)
+	for _, pageObjID := range pageObjIDs {
+		if _, ok := cw.results[pageObjID]; ok {
+			continue
+		}
+		cw.objID = pageObjID
+		err = cw.run()
+		if err != nil {
+			return nil, err
 		}
-		checkedQueue = checkedQueue[1:]
 	}
 	return &cw, nil
 }
 
+// preparePageResources give every page its own /Resources with /Font and /XObject inside,
+// pages can share them, inherit them or have no one.
+func (p *PDFData) preparePageResources() error {
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
+	for _, pageObjID := range pageObjIDs {
+		pageObj := p.getObjByID(pageObjID)
+		props, err := pageObj.readProperties()
+		if err != nil {
+			return err
+		}
+		resources, err := p.readDictionaryProperty(p.inheritedProp(pageObjID, "Resources"))
+		if err != nil {
+			return err
+		}
+		for _, key := range []string{"Font", "XObject"} {
+			items, err := p.readDictionaryProperty(resources.getPropByKey(key))
+			if err != nil {
+				return err
+			}
+			resources.set(key, items.String())
+		}
+		props.set("Resources", resources.String())
+		pageObj.setProperties(props)
+	}
+	return nil
+}
+
+// readDictionaryProperty properties of a dictionary that is inside prop or in another obj
+func (p *PDFData) readDictionaryProperty(prop *PDFObjPropertyData) (*PDFObjPropertiesData, error) {
+	var props PDFObjPropertiesData
+	if prop == nil {
+		return &props, nil
+	}
+	data := []byte(prop.rawVal)
+	if prop.valType() != object {
+		objID, _, err := prop.asDictionary()
+		if err != nil {
+			return nil, err
+		}
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			return &props, nil
+		}
+		data = obj.data
+	}
+	err := readProperties(&data, &props)
+	return &props, err
+}
+
 // rootPagesID obj ID of the root of page tree
 func (p *PDFData) rootPagesID() (int, error) {
 	rootObj := p.getObjByID(p.trailer.rootObjID)
@@ -234,206 +277,57 @@ func (p *PDFData) maxID() int {
 }
 
 func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
-	var err error
-	isEmbedResources := false
-	rootOfXObjectID := -1
-	resourcesContent := ""
-	cwRes, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources")
-	//if err != nil {
-	//	return err
-	//}
-	foundRes := false
-	for resID, r := range cwRes.results {
-		resources, err := r.valOf("Resources")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return err
-		} else {
-			foundRes = true
-			resourcesID, _, err := readObjIDFromDictionary(resources)
-			if err == ErrorObjectIDNotFound {
-				rootOfXObjectID = resID
-				resourcesContent = resources
-				isEmbedResources = true
-			} else if err != nil {
-				return err
-			} else {
-				rootOfXObjectID = resourcesID
-				data := p.getObjByID(resourcesID)
-				if data != nil {
-					resourcesContent = string(data.data)
-				}
-				isEmbedResources = false
-			}
-			break
-		}
-	}
-
-	if !foundRes {
-		return errors.New("not found /Resources in /Type/Pages")
-	}
-
-	var cw crawl
-	//cw.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources", "XObject")
-	cw.set(p, rootOfXObjectID, "XObject")
-	err = cw.run()
+	cw, err := p.getPageCrawl("Resources", "XObject")
 	if err != nil {
 		return err
 	}
 
-	found := false
-	xObjectVals := make(map[int]string)
+	maxXObjIndex := 0
+	pageXObjs := make(map[int]crawlResultXObjects)
 	for objID, r := range cw.results {
-		xobject, err := r.valOf("XObject")
+		xObjectVal, err := r.valOf("XObject")
 		if err == ErrCrawlResultValOfNotFound {
 			continue
 		} else if err != nil {
 			return err
-		} else {
-			xObjectVals[objID] = xobject
-			found = true
 		}
-	}
-
-	if !found { //ถ้ายังไม่เจออีก
-		cw2, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "XObject")
-		cw = *cw2
+		var xobjs crawlResultXObjects
+		propVal := []byte(xObjectVal)
+		err = xobjs.parse(&propVal)
 		if err != nil {
 			return err
 		}
-		for objID, r := range cw.results {
-			xobject, err := r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			} else {
-				xObjectVals[objID] = xobject
-				found = true
-			}
+		if index := xobjs.maxXObjIndex(); index > maxXObjIndex {
+			maxXObjIndex = index
 		}
+		pageXObjs[objID] = xobjs
 	}
 
-	var xobjs crawlResultXObjects
-	var xObjIndex int
-	xObjChar := "I"
-	if found {
-		for _, xObjectVal := range xObjectVals {
-			propVal := []byte(xObjectVal)
-			xobjs.parse(&propVal)
-			if len(xobjs) > 0 {
-				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
-				}
-			}
-		}
+	var newXObjs crawlResultXObjects
+	for i := range pdfImgs {
+		maxXObjIndex++
+		pdfImgs[i].xObjChar = "I"
+		pdfImgs[i].xObjIndex = maxXObjIndex
+		newXObjs.append(pdfImgs[i].xObjChar, pdfImgs[i].xObjIndex, pdfImgs[i].objID)
 	}
 
-	i := 0
-	max := len(pdfImgs)
-	for i < max {
-		objID := pdfImgs[i].objID
-		pdfImgs[i].xObjChar = xObjChar
-		pdfImgs[i].xObjIndex = xObjIndex + i + 1
-
-		var xobj crawlResultXObject
-		xobj.xObjChar = xObjChar
-		xobj.xObjIndex = xObjIndex + i + 1
-		xobj.xObjObjID = objID
-		xobjs = append(xobjs, xobj)
-		i++
-	}
-
-	objMustReplaces := make(map[int]string)
-	if found {
-		for objID, r := range cw.results {
-			var oldXObjectStr string
-			oldXObjectStr, err = r.valOf("XObject")
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			} else if err != nil {
-				return err
-			}
-			var newXObjs crawlResultXObjects
-			bOldXObjectStr := []byte(oldXObjectStr)
-			newXObjs.parse(&bOldXObjectStr)
-			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
-				isExisted := false
-				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
-						isExisted = true
-						break
-					}
-				}
-				if !isExisted {
-					newXObjs = append(newXObjs, xobj)
-				}
-			}
-			r.setValOf("XObject", fmt.Sprintf("<<%s>>\n", newXObjs.String()))
-			objMustReplaces[objID] = r.String()
-		}
-	} else {
-		if isEmbedResources {
-			var cw01 crawl
-			cw01.set(p, p.trailer.rootObjID, "Pages", "Kids", "Resources")
-			err = cw01.run()
-			if err != nil {
-				return err
-			}
-			for objID, r := range cw01.results {
-				res, err := r.valOf("Resources")
-				if err == ErrCrawlResultValOfNotFound {
-					continue
-				} else if err != nil {
-					return err
-				} else {
-					res = strings.TrimSpace(res)
-					res = fmt.Sprintf("%s /XObject <<%s>>", res[2:len(res)-2], xobjs.String())
-					r.setValOf("Resources", fmt.Sprintf("<<%s>>\n", res))
-					objMustReplaces[objID] = r.String()
-				}
-			}
-		} else {
-			for objID, r := range cw.results {
-				res := strings.TrimSpace(resourcesContent)
-				res = fmt.Sprintf("<<%s>>\n", xobjs.String())
-				r.add("XObject", res)
-				objMustReplaces[objID] = r.String()
-				//fmt.Printf("%s\n", r.String())
-			}
-		}
-	}
-
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+	for objID, xobjs := range pageXObjs {
+		r := cw.results[objID]
+		r.setValOf("XObject", "<<"+xobjs.String()+newXObjs.String()+">>\n")
+		p.getObjByID(objID).data = []byte("<<\n" + r.String() + ">>\n")
 	}
 
 	return nil
 }
 
 func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
-	var err error
-	cw, _ := p.getPageCrawl(p.trailer.rootObjID, "Kids", "Resources", "Font")
-	if err != nil {
-		return err
-	}
-
-	maxFontIndex, err := findMaxFontIndex(cw, p)
+	cw, err := p.getPageCrawl("Resources", "Font")
 	if err != nil {
 		return err
 	}
 
-	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
-	for _, pdffontdata := range fontDatas {
-		maxFontIndex++
-		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
-		pdffontdata.setFontIndex(maxFontIndex)
-	}
-
-	objMustReplaces := make(map[int]string)
-	//หา obj ที่ต้องยัด font ใหม่ลงไป
+	maxFontIndex := 0
+	pageFonts := make(map[int]crawlResultFonts)
 	for objID, r := range cw.results { //วน แต่ละ ojb
 		fontPropVal, err := r.valOf("Font")
 		if err == ErrCrawlResultValOfNotFound {
@@ -441,37 +335,29 @@ func (p *PDFData) injectFontsToPDF(fontDatas map[string]*PDFFontData) error {
 		} else if err != nil {
 			return err
 		}
-
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			var crFonts crawlResultFonts
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			r.setValOf("Font", "<<\n"+crFonts.String()+">>\n")
-			objMustReplaces[objID] = r.String()
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return err
-			}
-			var crFonts crawlResultFonts
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return err
-			}
-			crFonts = append(crFonts, newCrFonts...)
-			objMustReplaces[fontObjID] = crFonts.String()
+		var crFonts crawlResultFonts
+		tmp := []byte(fontPropVal)
+		err = crFonts.parse(&tmp)
+		if err != nil {
+			return err
+		}
+		if index := crFonts.maxFontIndex(); index > maxFontIndex {
+			maxFontIndex = index
 		}
+		pageFonts[objID] = crFonts
 	}
 
-	for objID := range objMustReplaces {
-		p.getObjByID(objID).data = []byte("<<\n" + objMustReplaces[objID] + ">>\n")
+	var newCrFonts crawlResultFonts //font ใหม่ที่จะยัดเข้าไป
+	for _, pdffontdata := range fontDatas {
+		maxFontIndex++
+		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
+		pdffontdata.setFontIndex(maxFontIndex)
+	}
+
+	for objID, crFonts := range pageFonts {
+		r := cw.results[objID]
+		r.setValOf("Font", "<<\n"+crFonts.String()+newCrFonts.String()+">>\n")
+		p.getObjByID(objID).data = []byte("<<\n" + r.String() + ">>\n")
 	}
 
 	return nil
@@ -499,91 +385,72 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 			return err
 		}
 	}
-	pageObjIDs, _ := p.getPageObjIDs()
-	objMustReplaces := make(map[int]string)
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
 	for pageIndex, pageObjID := range pageObjIDs {
-
-		var cw2Content crawl
-		cw2Content.set(p, pageObjID, "Contents")
-		err = cw2Content.run()
+		pageBuff, ok := pageBuffs[pageIndex+1]
+		if !ok {
+			continue
+		}
+		err = p.appendPageContent(pageObjID, pageBuff.Bytes())
 		if err != nil {
 			return err
 		}
+	}
 
-		for _, r := range cw2Content.results {
-
-			//fmt.Printf("%s\n\n", r.String())
-
-			var propContentsVal string
-			// fmt.Printf("id=%d\n", id)
-			propContentsVal, err = r.valOf("Contents")
-			// fmt.Printf("%d propContentsVal=%s\n\n", 0, r.String())
-			if err == ErrCrawlResultValOfNotFound {
-				continue
-			}
+	return nil
+}
 
-			propContentsValType := propertyType(propContentsVal)
-			/*if propContentsValType != dictionary {
-				return errors.New("not support /Contents type not dictionary yet")
-			}*/
-			var contentsObjID int
-			if propContentsValType == dictionary {
-				contentsObjID, _, err = readObjIDFromDictionary(propContentsVal)
-				if err != nil {
-					return err
-				}
-			} else if propContentsValType == array {
-				contentsObjIDs, _, err := readObjIDFromDictionaryArr(propContentsVal)
-				if err != nil || len(contentsObjIDs) <= 0 {
-					return err
-				}
-				contentsObjID = contentsObjIDs[0]
-			} else {
-				return errors.New("not support /Contents type not dictionary,array yet")
-			}
+// appendPageContent draw content after what the page has, graphics state left by the page has no effect on it.
+// The old content streams are not changed because other pages may have them too.
+func (p *PDFData) appendPageContent(pageObjID int, content []byte) error {
+	props, err := p.getObjByID(pageObjID).readProperties()
+	if err != nil {
+		return err
+	}
 
-			data := &p.getObjByID(contentsObjID).data
-			zip := true
-			propContentsObj, err := readProperty(data, "FlateDecode")
+	var contentsObjIDs []int
+	if propContents := props.getPropByKey("Contents"); propContents != nil {
+		contentsVal := propContents.rawVal
+		if propContents.valType() == dictionary {
+			contentsObjID, _, err := propContents.asDictionary()
 			if err != nil {
 				return err
 			}
-			if propContentsObj == nil {
-				zip = false
-			}
-
-			var stm *bytes.Buffer
-			//fmt.Printf("\n-------------------%d-----------------------\n%s\n\n", contentsObjID, string(*data))
-			stmLen, err := streamLength(p, data)
-			if err != nil {
-				return err
+			contentsVal = "[" + contentsVal + "]"
+			if obj := p.getObjByID(contentsObjID); obj == nil {
+				contentsVal = "[]"
+			} else if val := normalizeDict(obj.data); propertyType(val) == array {
+				contentsVal = val
 			}
-
-			stm, err = extractStream(data, stmLen, zip)
+		}
+		if propertyType(contentsVal) != array {
+			return errors.New("not support /Contents type not dictionary,array yet")
+		}
+		if strings.Trim(contentsVal, "[] ") != "" {
+			contentsObjIDs, _, err = readObjIDFromDictionaryArr(contentsVal)
 			if err != nil {
 				return err
 			}
-			//fmt.Printf("stm=%s\n\n", stm.String())
-
-			if _, ok := pageBuffs[pageIndex+1]; ok {
-				stm.WriteString("\n")
-				pageBuffs[pageIndex+1].WriteTo(stm)
-				objMustReplaces[contentsObjID] = fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%sendstream", stm.Len(), stm.String())
-			}
-
 		}
 	}
 
-	for objID := range objMustReplaces {
-		//_ = objID
-		//fmt.Printf("objID=%d\n", objID)
-		p.getObjByID(objID).data = []byte("" + objMustReplaces[objID] + "")
-		//fmt.Printf("objId=%d %s\n", objID, string(p.getObjByID(objID).data))
-	}
-
+	newContentsObjIDs := []int{p.putNewStream([]byte("q\n"))}
+	newContentsObjIDs = append(newContentsObjIDs, contentsObjIDs...)
+	newContentsObjIDs = append(newContentsObjIDs, p.putNewStream(append([]byte("Q\n"), content...)))
+	props.getOrAdd("Contents").setAsDictionaryArr(newContentsObjIDs, nil)
+	p.getObjByID(pageObjID).setProperties(props)
 	return nil
 }
 
+func (p *PDFData) putNewStream(content []byte) int {
+	var obj PDFObjData
+	obj.data = []byte(fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream", len(content), content))
+	return p.putNewObject(obj)
+}
+
 func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 	prop, err := readProperty(data, "Length")
@@ -621,76 +488,6 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
-func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
-
-	index := bytes.Index(*b, extractStreamBytes)
-	offset := len(extractStreamBytes)
-	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
-	tmp = tmp[0:length]
-	var buff bytes.Buffer
-	buff.Write(tmp)
-	if !zip {
-		return &buff, nil
-	}
-	r, err := zlib.NewReader(&buff)
-	if err != nil {
-		return nil, err
-	}
-	defer r.Close()
-	var out bytes.Buffer
-	_, err = io.Copy(&out, r)
-	if err != nil {
-		return nil, err
-	}
-	return &out, nil
-}
-
-func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
-	//find max font index
-	max := 0
-	for _, item := range cw.results {
-		fontPropVal, err := item.valOf("Font")
-		if err == ErrCrawlResultValOfNotFound {
-			continue
-		} else if err != nil {
-			return 0, err
-		}
-
-		var crFonts crawlResultFonts
-		fontPropValType := propertyType(fontPropVal)
-		if fontPropValType == object {
-			tmp := []byte(fontPropVal)
-			err = crFonts.parse(&tmp)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else if fontPropValType == dictionary {
-			var fontObjID int
-			fontObjID, _, err = readObjIDFromDictionary(fontPropVal)
-			if err != nil {
-				return 0, err
-			}
-			fontObj := p.getObjByID(fontObjID)
-			err = crFonts.parse(&fontObj.data)
-			if err != nil {
-				return 0, err
-			}
-			//fmt.Printf("%#v\n", crFonts)
-		} else {
-			return 0, errors.New("not support /Font type array yet")
-		}
-
-		maxFontIndex := crFonts.maxFontIndex()
-		if maxFontIndex > max {
-			max = maxFontIndex
-		}
-	}
-
-	return max, nil
-}
-
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index ce481d2..398377a 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -103,13 +103,7 @@ func (p *PDFObjData) readProperties() (*PDFObjPropertiesData, error) {
 }
 
 func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
-	var data bytes.Buffer
-	data.WriteString("<<\n")
-	for _, prop := range *props {
-		data.WriteString("/" + prop.key + " " + prop.rawVal)
-	}
-	data.WriteString(">>\n")
-	p.data = data.Bytes()
+	p.data = []byte(props.String())
 }
 
 func (p *PDFObjData) encrypt(pdf *PDFData, protection *gopdf.PDFProtection) error {
diff --git a/pdf_obj_properties_data.go b/pdf_obj_properties_data.go
index 0890c9d..5443ac9 100644
--- a/pdf_obj_properties_data.go
+++ b/pdf_obj_properties_data.go
@@ -1,5 +1,7 @@
 package pdft
 
+import "bytes"
+
 // PDFObjPropertiesData array of PDFObjPropertyData
 type PDFObjPropertiesData []PDFObjPropertyData
 
@@ -35,3 +37,14 @@ func (p *PDFObjPropertiesData) getOrAdd(key string) *PDFObjPropertyData {
 func (p *PDFObjPropertiesData) set(key string, rawVal string) {
 	p.getOrAdd(key).setRaw(rawVal)
 }
+
+// String dictionary that has all properties
+func (p *PDFObjPropertiesData) String() string {
+	var data bytes.Buffer
+	data.WriteString("<<\n")
+	for _, prop := range *p {
+		data.WriteString("/" + prop.key + " " + prop.rawVal)
+	}
+	data.WriteString(">>\n")
+	return data.String()
+}
diff --git a/pdft.go b/pdft.go
index 71fadd4..a6b9b0e 100644
--- a/pdft.go
+++ b/pdft.go
@@ -673,6 +673,11 @@ func (i *PDFt) build() (*PDFData, int, error) {
 
 	newpdf := i.pdf.clone() //copy
 
+	err = newpdf.preparePageResources()
+	if err != nil {
+		return nil, 0, err
+	}
+
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From 7f9480ad286467ea1942eaea4815ffc7ea0ac27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:07 +0000
Subject: [PATCH 14/44] fix: fill colour and text rise of one text no longer
 depend on or leak to others

---
 minigopdf/cache_content_text.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..3c1e80e 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -28,6 +28,7 @@ type cacheContentText struct {
 	contentType    int
 	cellOpt        CellOption
 	lineWidth      float64
+	alwaysSetColor bool //write textColor even if it is black
 	//---result---
 	content                            bytes.Buffer
 	text                               bytes.Buffer
@@ -129,7 +130,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if c.alwaysSetColor || int(r)+int(g)+int(b) != 0 {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
@@ -291,6 +292,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		runeIndex++
 	}
 	out.WriteString(">] TJ\n")
+	if f.funcTextriseOverride != nil {
+		out.WriteString("0 Ts\n") //text rise is only for this text
+	}
 
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
@@ -378,6 +382,7 @@ func (c *CacheContent) Setup(rectangle *Rect,
 		contentType:    ContentTypeCell,
 		cellOpt:        cellOpt,
 		lineWidth:      lineWidth,
+		alwaysSetColor: true, //color of the content before this one is unknown
 	}
 }
 
@@ -388,7 +393,10 @@ func (c *CacheContent) WriteTextToContent(text string) {
 
 // ToStream create stream of content
 func (c *CacheContent) ToStream(protection *PDFProtection) (*bytes.Buffer, error) {
-	c.cacheContentText.createContent()
+	_, _, err := c.cacheContentText.createContent()
+	if err != nil {
+		return nil, err
+	}
 	return c.cacheContentText.toStream(protection)
 }
 
-- 
2.43.0


From d96911dbc078cd217349cb70825598b09e19a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:45 +0000
Subject: [PATCH 15/44] fix: kerning callback gets the value of the font's kern
 table

---
 minigopdf/fontmaker/core/ttfparser_kern.go | 22 +++++++++++++++++++---
 minigopdf/subset_font_obj.go               |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 92315b7..c9a5073 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -42,6 +42,17 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	return nil
 }
 
+// LoadKern parse kerning table of a font that was parsed without kerning
+func (t *TTFParser) LoadKern() {
+	if t.kern != nil || len(t.cahceFontData) == 0 {
+		return
+	}
+	err := t.Parsekern(bytes.NewReader(t.cahceFontData))
+	if err != nil {
+		t.kern = nil //bad kerning table is the same as no kerning table
+	}
+}
+
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
 	t.Skip(fd, 2+2) //skip version and length
@@ -51,11 +62,16 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
+	format := coverage >> 8
 	//fmt.Printf("format = %d\n", format) //debug
-	t.kern.Kerning = make(KernMap) //init
+	if t.kern.Kerning == nil {
+		t.kern.Kerning = make(KernMap) //init
+	}
 	if format == 0 {
-		t.parsekernSubTableFormat0(fd)
+		err = t.parsekernSubTableFormat0(fd)
+		if err != nil {
+			return err
+		}
 	} else {
 		//not support other format yet
 		return fmt.Errorf("not support kerning format %d", format)
diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index f6eff44..6e8d7ee 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -35,6 +35,7 @@ func (s *SubsetFontObj) SetFuncKernOverride(funcKernOverride FuncKernOverride) {
 	s.funcKernOverride = funcKernOverride
 	if s.funcKernOverride != nil {
 		s.ttfFontOption.UseKerning = true
+		s.ttfp.LoadKern() //font may be parsed without kerning
 	} else {
 		s.ttfFontOption.UseKerning = false
 	}
-- 
2.43.0


From 62748ed39d0b6b6ffc7b97292b8582f5a33b4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 16/44] fix: wrapped text has no empty lines

---
 pdft.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdft.go b/pdft.go
index a6b9b0e..a6e85bc 100644
--- a/pdft.go
+++ b/pdft.go
@@ -280,11 +280,11 @@ func (i *PDFt) InsertWrapText(text string,
 			continue
 		}
 		currText += token
-		width, err := i.MeasureTextWidth(currText)
+		width, err := i.MeasureTextWidth(strings.TrimSpace(currText)) //white space at both ends is not drawn
 		if err != nil {
 			return err
 		}
-		if width > w {
+		if width > w && strings.TrimSpace(prevText) != "" {
 			renderCaches = append(renderCaches, cacheWrapTextRender{
 				text:      strings.TrimSpace(prevText),
 				pageNum:   pageNum,
@@ -300,7 +300,7 @@ func (i *PDFt) InsertWrapText(text string,
 		}
 		prevText = currText
 	}
-	if currText != "" {
+	if strings.TrimSpace(currText) != "" {
 		renderCaches = append(renderCaches, cacheWrapTextRender{
 			text:      strings.TrimSpace(prevText),
 			pageNum:   pageNum,
-- 
2.43.0


From 75db9c1107f9f3bc6c2e77986ce16627b0942e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:53 +0000
Subject: [PATCH 17/44] fix: basic text breaker keeps bytes that are not valid
 UTF-8

---
 textbreak/basic_textbreak.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/textbreak/basic_textbreak.go b/textbreak/basic_textbreak.go
index 5ecdc31..0a073c1 100644
--- a/textbreak/basic_textbreak.go
+++ b/textbreak/basic_textbreak.go
@@ -5,18 +5,16 @@ type BasicTextbreak struct {
 
 func (BasicTextbreak) BreakTextToToken(text string) ([]string, error) {
 	var tokens []string
-	var tmp = ""
-	for _, ru := range text {
+	start := 0
+	for i, ru := range text {
 		if ru == ' ' {
-			tokens = append(tokens, tmp)
+			tokens = append(tokens, text[start:i])
 			tokens = append(tokens, string(ru))
-			tmp = ""
-			continue
+			start = i + 1
 		}
-		tmp += string(ru)
 	}
-	if tmp != "" {
-		tokens = append(tokens, tmp)
+	if start < len(text) {
+		tokens = append(tokens, text[start:])
 	}
 
 	return tokens, nil
-- 
2.43.0


From 633b5a23a187fa2b9d713e76ed4a2b255d641aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:06 +0000
Subject: [PATCH 18/44] fix: PNG chunks, palettes, gray+alpha and palette
 transparency

Chunk sizes above 32767 bytes and zero length chunks were misread, images of
gray+alpha lost their data, indexed images had no palette object when added to
a template, partly transparent palettes were drawn opaque or with a wrong mask
and broken files panicked. Other image formats are refused.
---
 minigopdf/image_obj_parse.go | 94 +++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..e0bd182 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"image/png"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -21,7 +23,11 @@ func buildImgProp(imginfo imgInfo) (*bytes.Buffer, error) {
 	buffer.WriteString(fmt.Sprintf("/Height %d\n", imginfo.h)) //  /Height 942\n"
 	if isColspaceIndexed(imginfo) {
 		size := len(imginfo.pal)/3 - 1
-		buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1))
+		if imginfo.deviceRGBObjID > 0 {
+			buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1))
+		} else { //palette has no object of its own
+			buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d <%X>]\n", size, imginfo.pal))
+		}
 	} else {
 		buffer.WriteString(fmt.Sprintf("/ColorSpace /%s\n", imginfo.colspace))
 		if imginfo.colspace == "DeviceCMYK" {
@@ -101,6 +107,8 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 		if err != nil {
 			return info, err
 		}
+	} else {
+		return info, errors.New("image format not support")
 	}
 
 	//fmt.Printf("%#v\n", info)
@@ -219,6 +227,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 	var pal []byte
 	var trns []byte
 	var data []byte
+	haveAlphaPalette := false
 	for {
 		n, err := readInt(f)
 		if err != nil {
@@ -248,15 +257,19 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
-			if ct[0] == 0 {
+			if ct[0] == 0 && len(t) >= 2 {
 				trns = []byte{(t[1])}
-			} else if ct[0] == 2 {
+			} else if ct[0] == 2 && len(t) >= 6 {
 				trns = []byte{t[1], t[3], t[5]}
-			} else {
-				pos := strings.Index(string(t), "\x00")
-				if pos >= 0 {
-					trns = []byte{byte(pos)}
+			} else if ct[0] == 3 {
+				for _, a := range t {
+					if a != 0xff {
+						haveAlphaPalette = true
+						break
+					}
 				}
+			} else {
+				return errors.New("Incorrect tRNS chunk")
 			}
 
 			_, err = f.Seek(int64(4), 1) //skip
@@ -284,10 +297,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
@@ -296,7 +305,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	//fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && (len(pal) == 0 || len(pal)%3 != 0 || len(pal) > 256*3) {
 		return errors.New("Missing palette")
 	}
 
@@ -330,6 +339,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		if ct[0] == 4 {
 			// Gray image
 			length := 2 * w
+			if len(afterZipData) < (1+length)*h {
+				return errors.New("PNG data too short")
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -351,6 +363,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		} else {
 			// RGB image
 			length := 4 * w
+			if len(afterZipData) < (1+length)*h {
+				return errors.New("PNG data too short")
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -367,24 +382,49 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
 		info.data = data
+		if haveAlphaPalette {
+			info.smask, err = createAlphaFromPng(f)
+			if err != nil {
+				return err
+			}
+		}
 	}
 
 	return nil
 }
 
+// createAlphaFromPng compressed alpha samples of png ( same layout as png data )
+func createAlphaFromPng(f *bytes.Reader) ([]byte, error) {
+	f.Seek(0, 0)
+	img, err := png.Decode(f)
+	if err != nil {
+		return nil, err
+	}
+	var alpha []byte
+	b := img.Bounds()
+	for y := b.Min.Y; y < b.Max.Y; y++ {
+		alpha = append(alpha, 0) //no filter
+		for x := b.Min.X; x < b.Max.X; x++ {
+			_, _, _, a := img.At(x, y).RGBA()
+			alpha = append(alpha, byte(a>>8))
+		}
+	}
+	return compress(alpha)
+}
+
 func compress(data []byte) ([]byte, error) {
 	var results []byte
 	var buff bytes.Buffer
@@ -416,18 +456,18 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
+	if u > 0x7fffffff {
+		return 0, errors.New("number too big")
 	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4576c30c9cac0424e8c0837a87602709d86602fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:23 +0000
Subject: [PATCH 19/44] fix: generator package compiles repeatedly, measures
 text and links soft masks

Documents compiled twice held everything twice, MeasureTextWidth and text
without a font panicked, soft masks pointed at the wrong object, palettes of
protected documents panicked, an info date broke the trailer, empty pages had
no value for Contents, and text following on the same line was drawn or
advanced at the wrong place.
---
 minigopdf/cache_content_text.go | 16 +++++++++------
 minigopdf/catalog_obj.go        |  1 +
 minigopdf/cid_font_obj.go       | 21 +++++++++++++++++--
 minigopdf/content_obj.go        |  9 ++++++---
 minigopdf/device_rgb_obj.go     |  4 ++--
 minigopdf/encryption_obj.go     |  1 +
 minigopdf/gopdf.go              | 36 ++++++++++++++++++++++++---------
 minigopdf/image_obj.go          |  1 +
 minigopdf/list_cache_content.go |  2 +-
 minigopdf/page_obj.go           |  5 ++++-
 minigopdf/pages_obj.go          |  1 +
 minigopdf/procset_obj.go        |  4 ++--
 minigopdf/smask_obj.go          |  1 +
 13 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 3c1e80e..8157877 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -37,7 +37,7 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assumes this is not same content
 		return false
 	}
@@ -47,6 +47,9 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		c.fontSize == cache.fontSize &&
 		c.fontStyle == cache.fontStyle &&
 		c.setXCount == cache.setXCount &&
+		c.contentType == cache.contentType &&
+		c.cellOpt == cache.cellOpt &&
+		c.x+c.cellWidthPdfUnit == cache.x && //text go on where the last one ends
 		c.y == cache.y {
 		return true
 	}
@@ -226,7 +229,7 @@ func (c *cacheContentText) underline(startX float64, startY float64, endX float6
 	textH := ContentObj_CalTextHeight(c.fontSize)
 	arg3 := float64(h) - (float64(startY) - ((up / unitsPerEm) * float64(c.fontSize))) - textH
 	arg4 := (ut / unitsPerEm) * float64(c.fontSize)
-	buff.WriteString(fmt.Sprintf("%0.2f %0.2f %0.2f -%0.2f re f\n", startX, arg3, endX-startX, arg4))
+	buff.WriteString(fmt.Sprintf("%0.2f %0.2f %0.2f %0.2f re f\n", startX, arg3, endX-startX, -arg4))
 	//fmt.Printf("arg3=%f arg4=%f\n", arg3, arg4)
 
 	return &buff, nil
@@ -252,6 +255,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 	var leftRuneIndex uint
 	sumWidth := int(0)
 	//fmt.Printf("unitsPerEm = %d", unitsPerEm)
+	if out == nil { //measure only
+		out = new(bytes.Buffer)
+	}
 	out.WriteString("[<")
 	runeIndex := 0
 	for i, r := range text {
@@ -265,7 +271,7 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		if i > 0 && f.ttfFontOption.UseKerning { //kerning
 			pairval := kern(f, leftRune, r, leftRuneIndex, glyphindex)
 			pairvalPdfUnit = convertTTFUnit2PDFUnit(int(pairval), unitsPerEm)
-			if pairvalPdfUnit != 0 && out != nil {
+			if pairvalPdfUnit != 0 {
 				out.WriteString(fmt.Sprintf(">%d<", (-1)*pairvalPdfUnit))
 			}
 		}
@@ -278,9 +284,7 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 			out.WriteString("[<")
 		}
 
-		if out != nil {
-			out.WriteString(fmt.Sprintf("%04X", glyphindex))
-		}
+		out.WriteString(fmt.Sprintf("%04X", glyphindex))
 		width, err := f.CharWidth(r)
 		if err != nil {
 			return 0, 0, 0, err
diff --git a/minigopdf/catalog_obj.go b/minigopdf/catalog_obj.go
index 05a4a1e..06eb932 100644
--- a/minigopdf/catalog_obj.go
+++ b/minigopdf/catalog_obj.go
@@ -15,6 +15,7 @@ func (c *CatalogObj) init(funcGetRoot func() *GoPdf) {
 }
 
 func (c *CatalogObj) build(objID int) error {
+	c.buffer.Reset()
 	c.buffer.WriteString("<<\n")
 	c.buffer.WriteString("  /Type /" + c.getType() + "\n")
 	c.buffer.WriteString("  /Pages 2 0 R\n")
diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index cdfcf02..4a3f30a 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -9,20 +9,37 @@ type CIDFontObj struct {
 	buffer                    bytes.Buffer
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	getRoot                   func() *GoPdf
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
+	ci.getRoot = funcGetRoot
 }
 
 func (ci *CIDFontObj) build(objID int) error {
 
+	ordering, registry := "(Identity)", "(Adobe)"
+	if ci.getRoot != nil && ci.getRoot().protection() != nil {
+		key := ci.getRoot().protection().objectkey(objID)
+		tmp, err := rc4Cip(key, []byte("Identity"))
+		if err != nil {
+			return err
+		}
+		ordering = fmt.Sprintf("<%X>", tmp)
+		tmp, err = rc4Cip(key, []byte("Adobe"))
+		if err != nil {
+			return err
+		}
+		registry = fmt.Sprintf("<%X>", tmp)
+	}
+
 	ci.buffer.Reset()
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
 	ci.buffer.WriteString("<<\n")
-	ci.buffer.WriteString("  /Ordering (Identity)\n")
-	ci.buffer.WriteString("  /Registry (Adobe)\n")
+	ci.buffer.WriteString("  /Ordering " + ordering + "\n")
+	ci.buffer.WriteString("  /Registry " + registry + "\n")
 	ci.buffer.WriteString("  /Supplement 0\n")
 	ci.buffer.WriteString(">>\n")
 	ci.buffer.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1)) //TODO fix
diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..df0afcd 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -31,6 +31,7 @@ func (c *ContentObj) build(objID int) error {
 	}
 	isFlate := (c.getRoot().compressLevel != zlib.NoCompression)
 
+	c.buffer.Reset()
 	//zipvar buff bytes.Buffer
 	var cPtr *bytes.Buffer // "Pointer to content"
 	if isFlate {
@@ -41,15 +42,17 @@ func (c *ContentObj) build(objID int) error {
 			// should never happen...
 			return err
 		}
-		c.stream.WriteTo(zwriter)
+		zwriter.Write(c.stream.Bytes())
 		buff.WriteTo(zwriter)
 		zwriter.Close()
 		cPtr = &zbuff
 	} else {
 		// zlib compressLevel = 0 adds header and thus
 		// needs /FlateDecode => pass through
-		buff.WriteTo(&c.stream)
-		cPtr = &c.stream
+		var nbuff bytes.Buffer
+		nbuff.Write(c.stream.Bytes())
+		buff.WriteTo(&nbuff)
+		cPtr = &nbuff
 	}
 	streamlen := (*cPtr).Len()
 	c.buffer.WriteString("<<\n")
diff --git a/minigopdf/device_rgb_obj.go b/minigopdf/device_rgb_obj.go
index 68b8228..c503f68 100644
--- a/minigopdf/device_rgb_obj.go
+++ b/minigopdf/device_rgb_obj.go
@@ -30,6 +30,7 @@ func (d *DeviceRGBObj) getObjBuff() *bytes.Buffer {
 // สร้าง ข้อมูลใน pdf
 func (d *DeviceRGBObj) build(objID int) error {
 
+	d.buffer.Reset()
 	d.buffer.WriteString("<<\n")
 	d.buffer.WriteString("/Length " + strconv.Itoa(len(d.data)) + "\n")
 	d.buffer.WriteString(">>\n")
@@ -40,11 +41,10 @@ func (d *DeviceRGBObj) build(objID int) error {
 			return err
 		}
 		d.buffer.Write(tmp)
-		d.buffer.WriteString("\n")
 	} else {
 		d.buffer.Write(d.data)
 	}
-	d.buffer.WriteString("endstream\n")
+	d.buffer.WriteString("\nendstream\n")
 
 	return nil
 }
diff --git a/minigopdf/encryption_obj.go b/minigopdf/encryption_obj.go
index 45a6460..305999c 100644
--- a/minigopdf/encryption_obj.go
+++ b/minigopdf/encryption_obj.go
@@ -27,6 +27,7 @@ func (e *EncryptionObj) getObjBuff() *bytes.Buffer {
 }
 
 func (e *EncryptionObj) build(objID int) error {
+	e.buffer.Reset()
 	e.buffer.WriteString("<<\n")
 	e.buffer.WriteString("/Filter /Standard\n")
 	e.buffer.WriteString("/V 1\n")
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..ab57482 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -11,10 +11,14 @@ import (
 	"os"
 	"strconv"
 	"time"
+	"unicode/utf16"
 )
 
 const subsetFont = "SubsetFont"
 
+// ErrFontNotSet font must be set before text is written or measured
+var ErrFontNotSet = errors.New("font not set")
+
 // GoPdf : A simple library for generating PDF written in Go lang
 type GoPdf struct {
 
@@ -247,7 +251,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1
 		}
 
 		if imgobj.isColspaceIndexed() {
@@ -255,6 +259,9 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
+			dRGB.init(func() *GoPdf {
+				return gp
+			})
 			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
 		}
 
@@ -448,6 +455,9 @@ func (gp *GoPdf) GetBytesPdf() []byte {
 // Text write text start at current x,y ( current y is the baseline of text )
 func (gp *GoPdf) Text(text string) error {
 
+	if gp.curr.Font_ISubset == nil {
+		return ErrFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -463,6 +473,9 @@ func (gp *GoPdf) Text(text string) error {
 
 // CellWithOption create cell of text ( use current x,y is upper-left corner of cell)
 func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
+	if gp.curr.Font_ISubset == nil {
+		return ErrFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -484,6 +497,9 @@ func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
 		Float:  Right,
 	}
 
+	if gp.curr.Font_ISubset == nil {
+		return ErrFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -623,6 +639,9 @@ func (gp *GoPdf) SetFillColor(r uint8, g uint8, b uint8) {
 // MeasureTextWidth : measure Width of text (use current font)
 func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 
+	if gp.curr.Font_ISubset == nil {
+		return 0, ErrFontNotSet
+	}
 	err := gp.curr.Font_ISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
 	if err != nil {
 		return 0, err
@@ -714,7 +733,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -723,6 +742,8 @@ func (gp *GoPdf) prepare() {
 		indexCurrPage := -1
 		var pagesObj *PagesObj
 		pagesObj = gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -732,6 +753,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			} else if objtype == "Content" {
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
@@ -818,7 +840,7 @@ func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
@@ -855,12 +877,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, u := range utf16.Encode([]rune(str)) {
+		buff.WriteString(fmt.Sprintf("%04X", u))
 	}
 	return buff.String()
 }
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..d4ae94c 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -46,6 +46,7 @@ func (i *ImageObj) build(objID int) error {
 	if err != nil {
 		return err
 	}
+	i.buffer.Reset()
 	_, err = buff.WriteTo(&i.buffer)
 	if err != nil {
 		return err
diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index fbe898e..e197764 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -53,7 +53,7 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 	}
 
 	if cacheFont.cellOpt.Float == 0 || cacheFont.cellOpt.Float&Right == Right || cacheFont.contentType == ContentTypeText {
-		x += textWidthPdfUnit
+		x = cacheFont.x + textWidthPdfUnit
 	}
 	if cacheFont.cellOpt.Float&Bottom == Bottom {
 		y += textHeightPdfUnit
diff --git a/minigopdf/page_obj.go b/minigopdf/page_obj.go
index f737f9b..5ea14fa 100644
--- a/minigopdf/page_obj.go
+++ b/minigopdf/page_obj.go
@@ -24,6 +24,7 @@ func (p *PageObj) setOption(opt PageOption) {
 
 func (p *PageObj) build(objID int) error {
 
+	p.buffer.Reset()
 	p.buffer.WriteString("<<\n")
 	p.buffer.WriteString("  /Type /" + p.getType() + "\n")
 	p.buffer.WriteString("  /Parent 2 0 R\n")
@@ -38,7 +39,9 @@ func (p *PageObj) build(objID int) error {
 	}
 	me.buffer.WriteString("    >>\n")*/
 	//me.buffer.WriteString("  >>\n")
-	p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	if p.Contents != "" { //page may be empty
+		p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	}
 	if !p.pageOption.isEmpty() {
 		height := fmt.Sprintf("%0.2f", p.pageOption.PageSize.H)
 		width := fmt.Sprintf("%0.2f", p.pageOption.PageSize.W)
diff --git a/minigopdf/pages_obj.go b/minigopdf/pages_obj.go
index 7016567..a67f7d6 100644
--- a/minigopdf/pages_obj.go
+++ b/minigopdf/pages_obj.go
@@ -23,6 +23,7 @@ func (p *PagesObj) build(objID int) error {
 
 	height := fmt.Sprintf("%0.2f", p.getRoot().config.PageSize.H)
 	width := fmt.Sprintf("%0.2f", p.getRoot().config.PageSize.W)
+	p.buffer.Reset()
 	p.buffer.WriteString("<<\n")
 	p.buffer.WriteString("  /Type /" + p.getType() + "\n")
 	p.buffer.WriteString("  /MediaBox [ 0 0 " + width + " " + height + " ]\n")
diff --git a/minigopdf/procset_obj.go b/minigopdf/procset_obj.go
index 8c6a48f..b8ddb5e 100644
--- a/minigopdf/procset_obj.go
+++ b/minigopdf/procset_obj.go
@@ -20,6 +20,7 @@ func (pr *ProcSetObj) init(funcGetRoot func() *GoPdf) {
 
 func (pr *ProcSetObj) build(objID int) error {
 
+	pr.buffer.Reset()
 	pr.buffer.WriteString("<<\n")
 	pr.buffer.WriteString("/ProcSet [/PDF /Text /ImageB /ImageC /ImageI]\n")
 	pr.buffer.WriteString("/Font <<\n")
@@ -38,8 +39,7 @@ func (pr *ProcSetObj) build(objID int) error {
 	i = 0
 	max = len(pr.RealteXobjs)
 	for i < max {
-		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", pr.getRoot().curr.CountOfL+1, pr.RealteXobjs[i].IndexOfObj+1))
-		pr.getRoot().curr.CountOfL++
+		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))
 		i++
 	}
 	pr.buffer.WriteString(">>\n")
diff --git a/minigopdf/smask_obj.go b/minigopdf/smask_obj.go
index 9338bba..e25dfe4 100644
--- a/minigopdf/smask_obj.go
+++ b/minigopdf/smask_obj.go
@@ -39,6 +39,7 @@ func (s *SMask) build(objID int) error {
 	if err != nil {
 		return err
 	}
+	s.buffer.Reset()
 	_, err = buff.WriteTo(&s.buffer)
 	if err != nil {
 		return err
-- 
2.43.0


From def81aaf5690b73290cfc5e33b282bb1320f672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:41 +0000
Subject: [PATCH 20/44] fix: cross-reference offsets point at the objects and
 not at the line before

---
 pdft.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdft.go b/pdft.go
index a6e85bc..7884338 100644
--- a/pdft.go
+++ b/pdft.go
@@ -771,8 +771,9 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 	for _, obj := range newpdf.objs {
 		//xrefs = append(xrefs, buff.Len())
 		//fmt.Printf("%d\n", obj.objID)
+		buff.WriteString("\n")
 		xrefs[obj.objID] = buff.Len()
-		buff.WriteString(fmt.Sprintf("\n%d 0 obj\n", obj.objID))
+		buff.WriteString(fmt.Sprintf("%d 0 obj\n", obj.objID))
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
@@ -788,10 +789,11 @@ type xrefrow struct {
 }
 
 func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, encryptionObjID int) {
+	buff.WriteString("\n")
 	xrefbyteoffset := buff.Len()
 
 	//start xref
-	buff.WriteString("\nxref\n")
+	buff.WriteString("xref\n")
 	buff.WriteString(fmt.Sprintf("0 %d\r\n", size+1))
 	var xrefrows []xrefrow
 	xrefrows = append(xrefrows, xrefrow{offset: 0, flag: "f", gen: "65535"})
-- 
2.43.0


From b7bf5ed793bc5e36f67d1a116268a2c5a9495b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:42 +0000
Subject: [PATCH 21/44] fix: objects whose data contains endobj with an
 indirect stream length or without a dictionary

---
 pdf_obj_data.go | 61 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 398377a..09acf6b 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -23,7 +23,7 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 		return errors.New("bad obj offset")
 	}
 	tmp := (*raw)[stratoffset:]
-	bodyOffset := objBodyEnd(tmp)
+	bodyOffset := objBodyEnd(tmp, *raw)
 	endObjIndex := regexpEndObj.FindAllIndex(tmp[bodyOffset:], 1)
 	if len(endObjIndex) <= 0 {
 		return errors.New("bad endobj")
@@ -53,14 +53,14 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 
 // objBodyEnd offset from which "endobj" can be searched: after the dictionary and the
 // stream data of the obj, because both of them may contain the text "endobj"
-func objBodyEnd(b []byte) int {
+func objBodyEnd(b []byte, raw []byte) int {
 	head := regexpStartObj.FindIndex(b)
 	if head == nil || regexpEndObj.Match(b[:head[0]]) {
 		return 0
 	}
 	body := b[head[1]:]
 	if !bytes.HasPrefix(body[skipSpaces(body, 0):], []byte("<<")) {
-		return 0
+		return head[1] + skipToEndObj(body)
 	}
 	_, end, ok := dictBounds(body)
 	if !ok {
@@ -73,8 +73,14 @@ func objBodyEnd(b []byte) int {
 	}
 	//skip stream
 	if prop, err := readProperty(&body, "Length"); err == nil && prop != nil {
-		if length, err := strconv.Atoi(strings.TrimSpace(prop.rawVal)); err == nil && isStreamEnd(body, start, length) {
-			return head[1] + start + length
+		lengths := []string{prop.rawVal}
+		if prop.valType() == dictionary {
+			lengths = indirectLengths(raw, prop)
+		}
+		for _, rawLength := range lengths {
+			if length, err := strconv.Atoi(strings.TrimSpace(rawLength)); err == nil && isStreamEnd(body, start, length) {
+				return head[1] + start + length
+			}
 		}
 	}
 	if endstream := bytes.Index(body[start:], []byte("endstream")); endstream != -1 {
@@ -83,6 +89,51 @@ func objBodyEnd(b []byte) int {
 	return offset
 }
 
+// skipToEndObj index of the first "endobj" outside strings and comments, 0 if there is none
+func skipToEndObj(b []byte) int {
+	i := 0
+	for i < len(b) {
+		switch {
+		case b[i] == '(':
+			i = skipLiteralString(b, i)
+		case b[i] == '%':
+			i = skipComment(b, i)
+		case bytes.HasPrefix(b[i:], []byte("endobj")):
+			return i
+		default:
+			i++
+		}
+	}
+	return 0
+}
+
+// indirectLengths values of the obj that /Length refers to (an obj can be updated later in the file)
+func indirectLengths(raw []byte, prop *PDFObjPropertyData) []string {
+	var lengths []string
+	id, gen, err := prop.asDictionary()
+	if err != nil {
+		return nil
+	}
+	head := []byte(fmt.Sprintf("%d %d obj", id, gen))
+	for i := bytes.Index(raw, head); i != -1; {
+		end := i + len(head)
+		value := raw[skipSpaces(raw, end):]
+		n := 0
+		for n < len(value) && value[n] >= '0' && value[n] <= '9' {
+			n++
+		}
+		if i == 0 || raw[i-1] < '0' || raw[i-1] > '9' {
+			lengths = append(lengths, string(value[:n]))
+		}
+		next := bytes.Index(raw[end:], head)
+		if next == -1 {
+			break
+		}
+		i = end + next
+	}
+	return lengths
+}
+
 // isStreamEnd is "endstream" right after the length bytes of stream data that start at b[start]?
 func isStreamEnd(b []byte, start int, length int) bool {
 	if length < 0 || length > len(b)-start {
-- 
2.43.0


From 1215bbffbbda4af66419dfa0fcc693528b5543d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:15 +0000
Subject: [PATCH 22/44] fix: PNG whose pixel data cannot be decompressed is
 refused

---
 minigopdf/image_obj_parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e0bd182..73475a5 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -394,6 +394,10 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		}
 
 	} else {
+		err = checkPngData(data, (1+(w*colors*int(bpc[0])+7)/8)*h)
+		if err != nil {
+			return err
+		}
 		info.data = data
 		if haveAlphaPalette {
 			info.smask, err = createAlphaFromPng(f)
@@ -406,6 +410,23 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 	return nil
 }
 
+// checkPngData data must be a readable zlib stream of size bytes at least
+func checkPngData(data []byte, size int) error {
+	zipReader, err := zlib.NewReader(bytes.NewReader(data))
+	if err != nil {
+		return err
+	}
+	defer zipReader.Close()
+	n, err := io.Copy(ioutil.Discard, zipReader)
+	if err != nil {
+		return err
+	}
+	if n < int64(size) {
+		return errors.New("PNG data too short")
+	}
+	return nil
+}
+
 // createAlphaFromPng compressed alpha samples of png ( same layout as png data )
 func createAlphaFromPng(f *bytes.Reader) ([]byte, error) {
 	f.Seek(0, 0)
-- 
2.43.0


From 1a28c6d733c7b9007361f17769e1a5fed0c070ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:31 +0000
Subject: [PATCH 23/44] fix: failed wrapped insert leaves no characters in the
 font

---
 pdft.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdft.go b/pdft.go
index 7884338..53c3ef5 100644
--- a/pdft.go
+++ b/pdft.go
@@ -269,6 +269,14 @@ func (i *PDFt) InsertWrapText(text string,
 		return fmt.Errorf("BreakTextToToken %s : %w", text, err)
 	}
 
+	//nothing is kept of a text that has a character the font does not have
+	if fontData, have := i.fontDatas[i.curr.fontName]; have {
+		err = fontData.addChars(strings.Join(tokens, ""))
+		if err != nil {
+			return err
+		}
+	}
+
 	var renderCaches []cacheWrapTextRender
 
 	prevText := ""
-- 
2.43.0


From ffc8bc63186fbb06381de5253484f2112681affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:30 +0000
Subject: [PATCH 24/44] fix: natural size of an image comes from its header

---
 minigopdf/image_obj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index d4ae94c..3a1303a 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	_ "image/jpeg"
@@ -154,12 +155,15 @@ func (i *ImageObj) GetRect() *Rect {
 func (i *ImageObj) getRect() (*Rect, error) {
 
 	i.rawImgReader.Seek(0, 0)
-	m, _, err := image.Decode(i.rawImgReader)
+	imgConfig, _, err := image.DecodeConfig(i.rawImgReader) //size is in the header, no need to decode pixels
 	if err != nil {
 		return nil, err
 	}
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 {
+		return nil, errors.New("image has no size")
+	}
 
-	imageRect := m.Bounds()
+	imageRect := image.Rect(0, 0, imgConfig.Width, imgConfig.Height)
 	k := 1
 	w := -128 //init
 	h := -128 //init
-- 
2.43.0


From 9253d037e5ec1a3f6e00aba0b24fffab313e55b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:55 +0000
Subject: [PATCH 25/44] fix: object number beyond the limit of PDF is refused
 instead of filling the memory

---
 pdf_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index fbe0d07..89e9a2a 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -488,6 +488,9 @@ func streamLength(p *PDFData, data *[]byte) (int, error) {
 
 var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
+// maxObjID largest obj number of pdf ( see implementation limits in pdf reference )
+const maxObjID = 8388607
+
 func objIDFromStartObjLine(line string) (int, error) {
 	tokens := strings.Fields(line)
 	if len(tokens) < 3 {
@@ -497,5 +500,8 @@ func objIDFromStartObjLine(line string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if id > maxObjID {
+		return 0, errors.New("obj number too large")
+	}
 	return id, nil
 }
-- 
2.43.0


From 06ef9b2784d035630a762242411a1161da54a504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:09 +0000
Subject: [PATCH 26/44] fix: keep the minutes of the time zone in the creation
 date

---
 minigopdf/gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index ab57482..634b680 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"os"
 	"strconv"
+	"strings"
 	"time"
 	"unicode/utf16"
 )
@@ -884,8 +885,8 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-07:00")
+	return strings.Replace(ft, ":", "'", 1) + "'"
 }
 
 //tool for validate pdf https://www.pdf-online.com/osa/validate.aspx
-- 
2.43.0


From 9d86bcff54935d9eae91b465b3fa95126f7f7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:31 +0000
Subject: [PATCH 27/44] fix: top edge of a page whose MediaBox corners are in
 another order

---
 pdft.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdft.go b/pdft.go
index 53c3ef5..4f7aabb 100644
--- a/pdft.go
+++ b/pdft.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -393,7 +394,7 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 func (i *PDFt) pageHeight(pageNum int) float64 {
 	pageIndex := pageNum - 1
 	if val, ok := i.pdf.pageSizes[pageIndex]; ok {
-		return val[3]
+		return math.Max(val[1], val[3]) //corners can be in any order
 	}
 	return 841.89 //A4
 }
-- 
2.43.0


From d894f2d7314e9990c8d8dbdd1b5ac153a94b25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:52 +0000
Subject: [PATCH 28/44] fix: xref lines are taken from the tables startxref
 leads to, not from anywhere in the file

---
 pdf_parse.go | 53 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index 59217f8..8cdca1f 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -163,6 +163,12 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
 func parseXref(raw *[]byte, pdf *PDFData) error {
 
+	if xrefs, err := readXrefTables(*raw); err == nil {
+		pdf.xrefs = xrefs
+		return nil
+	}
+
+	//can not follow startxref, so look for xref lines in the whole file
 	indexXrefs := regexpXref.FindAllIndex(*raw, 1)
 	if len(indexXrefs) <= 0 {
 		return errors.New("xref not found")
@@ -184,6 +190,53 @@ func parseXref(raw *[]byte, pdf *PDFData) error {
 	return nil
 }
 
+// readXrefTables xref lines of the table at startxref and of the older ones that it refers to ( oldest first )
+func readXrefTables(raw []byte) ([]XrefData, error) {
+	indexStartxrefs := regexpStartxref.FindAllIndex(raw, -1)
+	if len(indexStartxrefs) <= 0 {
+		return nil, errors.New("startxref not found")
+	}
+	lines := bytes.Fields(raw[indexStartxrefs[len(indexStartxrefs)-1][1]:])
+	if len(lines) <= 0 {
+		return nil, errors.New("startxref not found")
+	}
+	var xrefs []XrefData
+	visited := make(map[int]bool)
+	for next := string(lines[0]); next != ""; {
+		offset, err := strconv.Atoi(next)
+		if err != nil || offset < 0 || offset >= len(raw) || visited[offset] {
+			return nil, errors.New("bad xref offset")
+		}
+		visited[offset] = true
+		table := raw[offset:]
+		indexTrailer := regexpTrailer.FindIndex(table)
+		if !bytes.HasPrefix(table, []byte("xref")) || indexTrailer == nil {
+			return nil, errors.New("xref not found")
+		}
+		var tableXrefs []XrefData
+		for _, xrefLine := range regexpXrefLine.FindAll(table[:indexTrailer[0]], -1) {
+			var xref XrefData
+			err := xref.parse(string(xrefLine))
+			if err != nil {
+				return nil, err
+			}
+			tableXrefs = append(tableXrefs, xref)
+		}
+		xrefs = append(tableXrefs, xrefs...)
+
+		table = table[indexTrailer[1]:]
+		prev, err := readProperty(&table, "Prev")
+		if err != nil {
+			return nil, err
+		}
+		next = ""
+		if prev != nil {
+			next = strings.TrimSpace(prev.rawVal)
+		}
+	}
+	return xrefs, nil
+}
+
 func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
 	indexs := make(map[int]int)
 	for _, xref := range pdf.xrefs {
-- 
2.43.0


From c393d4582969cce2f72afc3e961a6a3cfa1e2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 29/44] fix: draw the border of every cell without a rectangle

---
 minigopdf/cache_content_text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 8157877..4fee5c7 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -41,6 +41,10 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		//if rectangle != nil we assumes this is not same content
 		return false
 	}
+	if c.cellOpt.Border != 0 || cache.cellOpt.Border != 0 {
+		//every cell has its own border
+		return false
+	}
 	if c.textColor.equal(cache.textColor) &&
 		c.grayFill == cache.grayFill &&
 		c.fontCountIndex == cache.fontCountIndex &&
-- 
2.43.0


From bb76723f8c68c10a58ba1c16bcd18580e4528eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:01 +0000
Subject: [PATCH 30/44] fix: the list of differences of an encoding starts with
 a code

---
 minigopdf/fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 549e3a5..a0f1569 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -309,7 +309,7 @@ func (f *FontMaker) MakeFontEncoding(mappath string, fontmaps []FontMap) (string
 		return "", err
 	}
 	s := ""
-	last := 0
+	last := -2 //no code written yet
 	for c := 0; c <= 255; c++ {
 		if fontmaps[c].Name != ref[c].Name {
 			if c != last+1 {
-- 
2.43.0


From 5324137aa9aed50f422665a12824b1138682bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 31/44] fix: keep the digit 0 in the PostScript name of a font

---
 minigopdf/fontmaker/core/ttfparser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index b3e822f..ea8766f 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -11,8 +11,6 @@ import (
 	"io/ioutil"
 	"os"
 	"regexp"
-	"strconv"
-	"strings"
 )
 
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
@@ -580,7 +578,6 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 				}
 			}
 			s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
-			s = strings.Replace(s, strconv.Itoa(0), "", -1)
 			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
 			if err != nil {
 				return err
-- 
2.43.0


From 0d5d4eabe020af7a10083d6867c32a68cb7da296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:27 +0000
Subject: [PATCH 32/44] fix: delimiters are taken out of the PostScript name of
 a font

---
 minigopdf/fontmaker/core/ttfparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index ea8766f..5db1a67 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -578,7 +578,7 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 				}
 			}
 			s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
-			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
+			s, err = t.PregReplace("[ \\[\\](){}<>/%]", "", s)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 33a526ba87de0e9601530860f86143956327f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:33 +0000
Subject: [PATCH 33/44] fix: a bad line in an encoding map is an error, not a
 panic

---
 minigopdf/fontmaker/core/fontmaker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index a0f1569..3882872 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -468,7 +468,13 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if line == "" {
+			continue
+		}
 		e := strings.Split(line, " ")
+		if len(e) < 3 || len(e[0]) < 1 || len(e[1]) < 2 {
+			return nil, fmt.Errorf("bad line in map: %s", line)
+		}
 		strC := (e[0])[1:]
 		strUv := (e[1])[2:]
 		c, err := strconv.ParseInt(strC, 16, 0)
@@ -479,11 +485,14 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || int(c) >= max {
+			return nil, fmt.Errorf("bad code in map: %s", line)
+		}
 		name := e[2]
 		//fmt.Println("strC = "+strC+"strUv = "+strUv+" c=%d , uv= %d", c, uv)
 		fontmaps[c].Name = name
 		fontmaps[c].Uv = int(uv)
 	}
 
-	return fontmaps, nil
+	return fontmaps, scanner.Err()
 }
-- 
2.43.0


From 3b1c3017b16c390ac14f6b36e11fb1c4c1eae688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 34/44] fix: a glyph without a width is missing for the font
 maker, not a panic

---
 minigopdf/fontmaker/core/fontmaker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 3882872..43c4a03 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -370,6 +370,10 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 		return nil, ErrFontLicenseDoesNotAllowEmbedding
 	}
 
+	if len(parser.widths) == 0 {
+		return nil, errors.New("font has no widths")
+	}
+
 	info := NewTtfInfo()
 
 	fileContent, err := ioutil.ReadFile(fontpath)
@@ -416,7 +420,7 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 	for c < max {
 		if fontmaps[c].Name != ".notdef" {
 			uv := fontmaps[c].Uv
-			if val, ok := parser.chars[int(uv)]; ok {
+			if val, ok := parser.chars[int(uv)]; ok && val < uint(len(parser.widths)) {
 				w := parser.widths[val]
 				widths[c] = f.MultiplyAndRoundWithUInt64(k, w)
 			} else {
-- 
2.43.0


From f014c132934328de33918334df6c19ca4aa4b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:46 +0000
Subject: [PATCH 35/44] fix: the object of an indirect /Length is found
 whatever blanks its head has

---
 pdf_obj_data.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 09acf6b..b8a3bfe 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rc4"
 	"errors"
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -114,22 +115,11 @@ func indirectLengths(raw []byte, prop *PDFObjPropertyData) []string {
 	if err != nil {
 		return nil
 	}
-	head := []byte(fmt.Sprintf("%d %d obj", id, gen))
-	for i := bytes.Index(raw, head); i != -1; {
-		end := i + len(head)
-		value := raw[skipSpaces(raw, end):]
-		n := 0
-		for n < len(value) && value[n] >= '0' && value[n] <= '9' {
-			n++
+	head := regexp.MustCompile(fmt.Sprintf("%d[\\n\\r\\t ]%d[\\n\\r\\t ]obj[\\x00\\t\\n\\f\\r ]*([0-9]+)", id, gen))
+	for _, m := range head.FindAllSubmatchIndex(raw, -1) {
+		if m[0] == 0 || raw[m[0]-1] < '0' || raw[m[0]-1] > '9' {
+			lengths = append(lengths, string(raw[m[2]:m[3]]))
 		}
-		if i == 0 || raw[i-1] < '0' || raw[i-1] > '9' {
-			lengths = append(lengths, string(value[:n]))
-		}
-		next := bytes.Index(raw[end:], head)
-		if next == -1 {
-			break
-		}
-		i = end + next
 	}
 	return lengths
 }
-- 
2.43.0


From 72b16edc610c1b52d09dccc1c83f3c283f0c4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:09 +0000
Subject: [PATCH 36/44] fix: a font definition tells the size of its own font

---
 minigopdf/fontmaker/core/fontmaker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 43c4a03..b127789 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -190,8 +190,12 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	str += "\treturn me.diff\n"
 	str += "}\n"
 
+	originalSize, ok := info["OriginalSize"].(int64)
+	if !ok {
+		return "", ERROR_NO_KEY_FOUND
+	}
 	str += "func (me * " + gofontname + ") GetOriginalsize() int{\n"
-	str += "\treturn 98764\n"
+	str += fmt.Sprintf("\treturn %d\n", originalSize)
 	str += "}\n"
 
 	str += "func (me * " + gofontname + ")  SetFamily(family string){\n"
-- 
2.43.0


From 310ecd8c59f71496b31c8f56df3e353791a27cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 37/44] fix: a name that is the value of a property is not
 taken for the next key

---
 pdf_data.go                |  4 ++--
 pdf_obj_properties_data.go | 11 ++++++++++-
 pdf_obj_property_data.go   |  8 ++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 89e9a2a..9f22866 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -225,7 +225,7 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	}
 	getKids := func(id int) []int {
 		if props := getObjProps(id); props != nil {
-			if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil {
+			if kid := props.getPropByKey("Kids"); kid != nil && props.isType("Pages") {
 				rawKids := kid.rawVal
 				if kid.valType() == dictionary { //array is in another obj
 					kidsID, _, _ := kid.asDictionary()
@@ -243,7 +243,7 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 	}
 	isPage := func(id int) bool {
 		if props := getObjProps(id); props != nil {
-			return props.getPropByKey("Page") != nil
+			return props.isType("Page")
 		}
 		return false
 	}
diff --git a/pdf_obj_properties_data.go b/pdf_obj_properties_data.go
index 5443ac9..ccad7be 100644
--- a/pdf_obj_properties_data.go
+++ b/pdf_obj_properties_data.go
@@ -1,6 +1,9 @@
 package pdft
 
-import "bytes"
+import (
+	"bytes"
+	"strings"
+)
 
 // PDFObjPropertiesData array of PDFObjPropertyData
 type PDFObjPropertiesData []PDFObjPropertyData
@@ -22,6 +25,12 @@ func (p *PDFObjPropertiesData) getPropByKey(key string) *PDFObjPropertyData {
 	return nil
 }
 
+// isType is /Type this name?
+func (p *PDFObjPropertiesData) isType(name string) bool {
+	prop := p.getPropByKey("Type")
+	return prop != nil && strings.TrimSpace(prop.rawVal) == "/"+name
+}
+
 func (p *PDFObjPropertiesData) at(i int) *PDFObjPropertyData {
 	return &(*p)[i]
 }
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index e9cf67f..4233b34 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -124,8 +124,9 @@ func (p *parseProps) readKey(i int, prop *PDFObjPropertyData) int {
 		} else if r == '<' || r == '[' || r == '(' {
 			prop.key = p.str[start:i]
 			return p.readVal(i, prop)
-		} else if r == '/' {
-			break
+		} else if r == '/' { //value is a name
+			prop.key = p.str[start:i]
+			return p.readVal(i, prop)
 		}
 		i++
 	}
@@ -137,6 +138,9 @@ func (p *parseProps) readVal(i int, prop *PDFObjPropertyData) int {
 	start := i
 	count01 := 0
 	count02 := 0
+	if i < p.max && p.str[i] == '/' { //a name, it is not the next key
+		i++
+	}
 	for i < p.max {
 		r := p.str[i]
 		if r == '<' {
-- 
2.43.0


From 228dfbb0ad32e371c3f05f1398a2641f64380f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 38/44] fix: a property that is null is the same as no property

---
 pdf_obj_property_data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 4233b34..146483a 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -105,7 +105,9 @@ func (p *parseProps) set(str string, props *PDFObjPropertiesData) {
 		if p.str[i] == '/' {
 			var prop PDFObjPropertyData
 			i = p.readKey(i+1, &prop)
-			p.props.append(prop)
+			if strings.TrimSpace(prop.rawVal) != "null" { //null is the same as no property
+				p.props.append(prop)
+			}
 		} else if p.str[i] == '(' {
 			i = skipLiteralString(p.raw, i)
 		} else {
-- 
2.43.0


From 86d6335cf73d1bace1e4d3c82104dbbc29498c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:30 +0000
Subject: [PATCH 39/44] fix: the root of a document is that of its newest xref
 table, not of a document attached to it

---
 pdf_data.go  |  1 +
 pdf_parse.go | 35 ++++++++++++++++++++++-------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 9f22866..eeb0c9e 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -21,6 +21,7 @@ type PDFData struct {
 // TrailerData trailer
 type TrailerData struct {
 	rootObjID int
+	offsets   []int //offsets after "trailer" in the file, newest first
 }
 
 // Len count
diff --git a/pdf_parse.go b/pdf_parse.go
index 8cdca1f..103b3c3 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -129,10 +129,15 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return errors.New("startxref not found")
 	}
 
-	//the newest trailer is the last one (files updated incrementally have many trailers)
-	var props PDFObjPropertiesData
+	//the newest trailer is that of the newest xref, or the last one if xref can not be followed
+	//(files updated incrementally have many trailers)
+	offsets := pdf.trailer.offsets
 	for n := len(indexTrailers) - 1; n >= 0; n-- {
-		tmp := (*raw)[indexTrailers[n][1]:]
+		offsets = append(offsets, indexTrailers[n][1])
+	}
+	var props PDFObjPropertiesData
+	for _, offset := range offsets {
+		tmp := (*raw)[offset:]
 		if !bytes.HasPrefix(tmp[skipSpaces(tmp, 0):], []byte("<<")) {
 			continue
 		}
@@ -163,8 +168,9 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
 func parseXref(raw *[]byte, pdf *PDFData) error {
 
-	if xrefs, err := readXrefTables(*raw); err == nil {
+	if xrefs, trailerOffsets, err := readXrefTables(*raw); err == nil {
 		pdf.xrefs = xrefs
+		pdf.trailer.offsets = trailerOffsets
 		return nil
 	}
 
@@ -190,51 +196,54 @@ func parseXref(raw *[]byte, pdf *PDFData) error {
 	return nil
 }
 
-// readXrefTables xref lines of the table at startxref and of the older ones that it refers to ( oldest first )
-func readXrefTables(raw []byte) ([]XrefData, error) {
+// readXrefTables xref lines of the table at startxref and of the older ones that it refers to ( oldest first ),
+// and offsets of their trailers ( newest first )
+func readXrefTables(raw []byte) ([]XrefData, []int, error) {
 	indexStartxrefs := regexpStartxref.FindAllIndex(raw, -1)
 	if len(indexStartxrefs) <= 0 {
-		return nil, errors.New("startxref not found")
+		return nil, nil, errors.New("startxref not found")
 	}
 	lines := bytes.Fields(raw[indexStartxrefs[len(indexStartxrefs)-1][1]:])
 	if len(lines) <= 0 {
-		return nil, errors.New("startxref not found")
+		return nil, nil, errors.New("startxref not found")
 	}
 	var xrefs []XrefData
+	var trailerOffsets []int
 	visited := make(map[int]bool)
 	for next := string(lines[0]); next != ""; {
 		offset, err := strconv.Atoi(next)
 		if err != nil || offset < 0 || offset >= len(raw) || visited[offset] {
-			return nil, errors.New("bad xref offset")
+			return nil, nil, errors.New("bad xref offset")
 		}
 		visited[offset] = true
 		table := raw[offset:]
 		indexTrailer := regexpTrailer.FindIndex(table)
 		if !bytes.HasPrefix(table, []byte("xref")) || indexTrailer == nil {
-			return nil, errors.New("xref not found")
+			return nil, nil, errors.New("xref not found")
 		}
 		var tableXrefs []XrefData
 		for _, xrefLine := range regexpXrefLine.FindAll(table[:indexTrailer[0]], -1) {
 			var xref XrefData
 			err := xref.parse(string(xrefLine))
 			if err != nil {
-				return nil, err
+				return nil, nil, err
 			}
 			tableXrefs = append(tableXrefs, xref)
 		}
 		xrefs = append(tableXrefs, xrefs...)
 
+		trailerOffsets = append(trailerOffsets, offset+indexTrailer[1])
 		table = table[indexTrailer[1]:]
 		prev, err := readProperty(&table, "Prev")
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 		next = ""
 		if prev != nil {
 			next = strings.TrimSpace(prev.rawVal)
 		}
 	}
-	return xrefs, nil
+	return xrefs, trailerOffsets, nil
 }
 
 func parseObjOnlyKeywordN(raw *[]byte, pdf *PDFData) error {
-- 
2.43.0


From a94414d2abc2454662c820b9ccf6d25cacc529d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:48 +0000
Subject: [PATCH 40/44] fix: line style of cell borders is the same on every
 page

---
 pdf_data.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index eeb0c9e..9350ce6 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -368,12 +368,29 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 
 	var err error
 	pageBuffs := make(map[int]*bytes.Buffer)
+	var lineStyle *ContentLineStyle //current line style, it is for every page
+	pageLineStyles := make(map[int]*ContentLineStyle)
 	for _, ctn := range *contenters {
+		if style, ok := ctn.(*ContentLineStyle); ok {
+			lineStyle = style
+			continue
+		}
 		pageNum := ctn.page()
 		if _, ok := pageBuffs[pageNum]; !ok {
 			pageBuffs[pageNum] = new(bytes.Buffer)
 		}
 		var buff *bytes.Buffer
+		if lineStyle != pageLineStyles[pageNum] {
+			pageLineStyles[pageNum] = lineStyle
+			buff, err = lineStyle.toSteram()
+			if err != nil {
+				return err
+			}
+			_, err = buff.WriteTo(pageBuffs[pageNum])
+			if err != nil {
+				return err
+			}
+		}
 		buff, err = ctn.toSteram()
 		if err != nil {
 			return err
-- 
2.43.0


From 8fac585f584d9afff1cc704606670fd52a317408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 41/44] fix: an image file that changed after it was drawn was
 drawn with its old picture

---
 minigopdf/image_holder.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/minigopdf/image_holder.go b/minigopdf/image_holder.go
index 4e0765f..e3b4195 100644
--- a/minigopdf/image_holder.go
+++ b/minigopdf/image_holder.go
@@ -48,14 +48,11 @@ func newImageBuff(b []byte) (*imageBuff, error) {
 }
 
 func newImageBuffByPath(path string) (*imageBuff, error) {
-	var i imageBuff
-	i.id = path
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
-	i.Write(b)
-	return &i, nil
+	return newImageBuff(b) //the file at path can change later
 }
 
 func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
-- 
2.43.0


From 1b4bae4ba1f9f75a725a211f66aeb64e255da55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:30 +0000
Subject: [PATCH 42/44] fix: height of a page is that of the page a text or
 image ends up on

---
 content_img_base64.go | 4 ++++
 content_line_style.go | 3 +++
 content_text.go       | 4 ++++
 contenter.go          | 1 +
 pdft.go               | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/content_img_base64.go b/content_img_base64.go
index 3e30c6c..377c5f7 100644
--- a/content_img_base64.go
+++ b/content_img_base64.go
@@ -20,6 +20,10 @@ func (c *contentImgBase64) page() int {
 	return c.pageNum
 }
 
+func (c *contentImgBase64) setPageHeight(h float64) {
+	c.pageHeight = h
+}
+
 func (c *contentImgBase64) toSteram() (*bytes.Buffer, error) {
 	var buff bytes.Buffer
 	//fmt.Printf("xObjChar = %d\n", c.refPdfimg.objID)
diff --git a/content_line_style.go b/content_line_style.go
index d899937..0b1b556 100644
--- a/content_line_style.go
+++ b/content_line_style.go
@@ -28,3 +28,6 @@ func (c *ContentLineStyle) toSteram() (*bytes.Buffer, error) {
 func (c *ContentLineStyle) page() int {
 	return 1
 }
+
+func (c *ContentLineStyle) setPageHeight(h float64) {
+}
diff --git a/content_text.go b/content_text.go
index e236813..9546a10 100644
--- a/content_text.go
+++ b/content_text.go
@@ -95,6 +95,10 @@ func (c *ContentText) page() int {
 	return c.pageNum
 }
 
+func (c *ContentText) setPageHeight(h float64) {
+	c.pageHeight = h
+}
+
 func (c *ContentText) measureTextWidth() (float64, error) {
 	var cc gopdf.CacheContent
 	cc.Setup(
diff --git a/contenter.go b/contenter.go
index 908d56e..73cb6cc 100644
--- a/contenter.go
+++ b/contenter.go
@@ -5,5 +5,6 @@ import "bytes"
 // Contenter create content stream
 type Contenter interface {
 	page() int
+	setPageHeight(h float64)
 	toSteram() (*bytes.Buffer, error)
 }
diff --git a/pdft.go b/pdft.go
index 4f7aabb..e537f57 100644
--- a/pdft.go
+++ b/pdft.go
@@ -734,6 +734,9 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		return nil, 0, err
 	}
 
+	for _, ctn := range i.contenters { //pages can be added or removed after the insert
+		ctn.setPageHeight(i.pageHeight(ctn.page()))
+	}
 	err = newpdf.injectContentToPDF(&i.contenters)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From a9e50bb748a18373019bcda9a8f6c34bc4bf6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 43/44] fix: encrypted pdf was opened as if it were not
 encrypted

---
 pdf_parse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index 103b3c3..e58fd9a 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -117,6 +117,9 @@ func setPagesObj(pdf *PDFData) error {
 	return nil
 }
 
+// ErrEncryptedPDF encrypted pdf can not be opened
+var ErrEncryptedPDF = errors.New("not support encrypted pdf")
+
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
 	indexTrailers := regexpTrailer.FindAllIndex(*raw, -1)
@@ -163,6 +166,11 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	}
 	pdf.trailer.rootObjID = rootID
 
+	//strings and streams of encrypted pdf can not be read
+	if propEncrypt := props.getPropByKey("Encrypt"); propEncrypt != nil && strings.TrimSpace(propEncrypt.rawVal) != "null" {
+		return ErrEncryptedPDF
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 9c8597697e237b05d3c8aec6b9cb3e608dd758c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 44/44] fix: document information of the template was lost

---
 pdf_data.go  |  4 +++-
 pdf_parse.go | 12 ++++++++++++
 pdft.go      | 11 +++++++++--
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 9350ce6..2ee9daa 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -21,7 +21,9 @@ type PDFData struct {
 // TrailerData trailer
 type TrailerData struct {
 	rootObjID int
-	offsets   []int //offsets after "trailer" in the file, newest first
+	infoObjID int    //0 is no document information
+	info      string //document information that is inside trailer
+	offsets   []int  //offsets after "trailer" in the file, newest first
 }
 
 // Len count
diff --git a/pdf_parse.go b/pdf_parse.go
index e58fd9a..3678e2f 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -32,6 +32,10 @@ func PDFParse(file io.Reader, outPdf *PDFData) error {
 		return err
 	}
 
+	if outPdf.trailer.info != "" {
+		outPdf.trailer.infoObjID = outPdf.putNewObject(PDFObjData{data: []byte(outPdf.trailer.info)})
+	}
+
 	err = setPagesObj(outPdf)
 	if err != nil {
 		return err
@@ -166,6 +170,14 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	}
 	pdf.trailer.rootObjID = rootID
 
+	if propInfo := props.getPropByKey("Info"); propInfo != nil {
+		if propInfo.valType() == object {
+			pdf.trailer.info = propInfo.rawVal
+		} else if infoID, _, err := propInfo.asDictionary(); err == nil {
+			pdf.trailer.infoObjID = infoID
+		}
+	}
+
 	//strings and streams of encrypted pdf can not be read
 	if propEncrypt := props.getPropByKey("Encrypt"); propEncrypt != nil && strings.TrimSpace(propEncrypt.rawVal) != "null" {
 		return ErrEncryptedPDF
diff --git a/pdft.go b/pdft.go
index e537f57..edcaef4 100644
--- a/pdft.go
+++ b/pdft.go
@@ -789,7 +789,11 @@ func (i *PDFt) toStream(newpdf *PDFData, lastID int) (*bytes.Buffer, error) {
 		buff.WriteString(strings.TrimSpace(string(obj.data)))
 		buff.WriteString("\nendobj\n")
 	}
-	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, encryptionObjID)
+	infoObjID := newpdf.trailer.infoObjID
+	if newpdf.getObjByID(infoObjID) == nil {
+		infoObjID = 0
+	}
+	i.xref(xrefs, &buff, lastID, newpdf.trailer.rootObjID, infoObjID, encryptionObjID)
 
 	return &buff, nil
 }
@@ -800,7 +804,7 @@ type xrefrow struct {
 	flag   string
 }
 
-func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, encryptionObjID int) {
+func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID int, infoID int, encryptionObjID int) {
 	buff.WriteString("\n")
 	xrefbyteoffset := buff.Len()
 
@@ -833,6 +837,9 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	buff.WriteString("<<\n")
 	buff.WriteString(fmt.Sprintf("/Size %d\n", size+1))
 	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", rootID))
+	if infoID > 0 {
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", infoID))
+	}
 	if i.protection() != nil {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", encryptionObjID))
 		buff.WriteString("/ID [()()]\n")
-- 
2.43.0

