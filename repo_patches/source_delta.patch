From 31752da09c474b018fd1e20d9cb084f1a10f7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 01/32] fix: write text values with outer white space or <text>
 in them as text blocks

---
 spdx/v2/v2_1/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_2/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_3/tagvalue/writer/util.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..5020cc2 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// a value that a plain "Tag: value" line cannot hold needs a text block:
+	// the reader trims such values and treats <text> as the start of a block
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..5020cc2 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// a value that a plain "Tag: value" line cannot hold needs a text block:
+	// the reader trims such values and treats <text> as the start of a block
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..5020cc2 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// a value that a plain "Tag: value" line cannot hold needs a text block:
+	// the reader trims such values and treats <text> as the start of a block
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
-- 
2.43.0


From 957262476adb4675da228746ab7ff7df7e5470e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 02/32] fix: decode JSON escapes in identifiers and agent
 strings

---
 spdx/v2/common/annotation.go    |  6 ++++--
 spdx/v2/common/creation_info.go |  6 ++++--
 spdx/v2/common/identifier.go    | 26 ++++++++++++++++++++------
 spdx/v2/common/package.go       | 12 ++++++++----
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..e45815e 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -19,8 +19,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	annotatorStr, err := unquote(data)
+	if err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..3539975 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -20,8 +20,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	str, err := unquote(data)
+	if err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..5066093 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -27,8 +28,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unquote(data)
+	if err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +74,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unquote(data)
+	if err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +146,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unquote(data)
+	if err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
@@ -217,3 +224,10 @@ func RenderDocElementID(deID DocElementID) string {
 	}
 	return prefix + spdxRefPrefix + string(deID.ElementRefID)
 }
+
+// unquote decodes a JSON string value, resolving any escape sequences in it
+func unquote(data []byte) (string, error) {
+	var s string
+	err := json.Unmarshal(data, &s)
+	return s, err
+}
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..745a8fe 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -20,8 +20,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	supplierStr, err := unquote(data)
+	if err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +65,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	originatorStr, err := unquote(data)
+	if err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
-- 
2.43.0


From f90b584043ac2b4cfad8933de102da82b9257c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 03/32] fix: do not invent a verification code when converting
 2.2 packages to 2.3

---
 spdx/v2/v2_3/document.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..aadf0d1 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -74,6 +74,16 @@ type Document struct {
 
 func From_v2_2(_ v2_2.Document, d *Document) {
 	d.SPDXVersion = Version
+
+	// 2.2 has no way to tell an absent verification code from an empty one
+	for _, p := range d.Packages {
+		if p == nil || p.PackageVerificationCode == nil {
+			continue
+		}
+		if p.PackageVerificationCode.Value == "" && len(p.PackageVerificationCode.ExcludedFiles) == 0 {
+			p.PackageVerificationCode = nil
+		}
+	}
 }
 
 func To_v2_2(_ Document, d *v2_2.Document) {
-- 
2.43.0


From b0ba28fd889792d7fb4326a5c7ade14f2e318712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 04/32] fix: report errors of the destination when writing
 tag-value documents

---
 tagvalue/writer.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..c0a5816 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -22,13 +22,39 @@ import (
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
 	doc = convert.FromPtr(doc)
+	out := &errorWriter{w: w}
+	var err error
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, out)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, out)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, out)
+	default:
+		err = fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return out.err
+}
+
+// errorWriter keeps the first error of the underlying writer, since the
+// renderers do not look at the result of each single write.
+type errorWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errorWriter) Write(p []byte) (int, error) {
+	if e.err != nil {
+		return 0, e.err
+	}
+	var n int
+	n, e.err = e.w.Write(p)
+	if e.err == nil && n < len(p) {
+		e.err = io.ErrShortWrite
+	}
+	return n, e.err
 }
-- 
2.43.0


From 165dbdf8f43c8b32e246d7bdcd26b1518bbe9e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 05/32] fix: report write errors and order equal counts by
 license in license reports

---
 reporter/reporter.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..523c70a 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -5,6 +5,7 @@
 package reporter
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -22,7 +23,8 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	var buf bytes.Buffer
+	wr := tabwriter.NewWriter(&buf, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -43,15 +45,23 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	if err := wr.Flush(); err != nil {
+		return err
+	}
+	_, err := w.Write(buf.Bytes())
+	return err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From b1b3fe7ad4efe2ffa2bc5c3d1d3c374cf6883b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 06/32] fix: tag-value package without a name must not be
 merged with the next package

---
 spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go | 1 +
 spdx/v2/v2_1/tagvalue/reader/parse_package.go       | 3 ++-
 spdx/v2/v2_1/tagvalue/reader/types.go               | 1 +
 spdx/v2/v2_2/tagvalue/reader/parse_creation_info.go | 1 +
 spdx/v2/v2_2/tagvalue/reader/parse_package.go       | 3 ++-
 spdx/v2/v2_2/tagvalue/reader/types.go               | 1 +
 spdx/v2/v2_3/tagvalue/reader/parse_creation_info.go | 1 +
 spdx/v2/v2_3/tagvalue/reader/parse_package.go       | 3 ++-
 spdx/v2/v2_3/tagvalue/reader/types.go               | 1 +
 9 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go b/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
index 7ea0c1f..444a26d 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
@@ -59,6 +59,7 @@ func (parser *tvParser) parsePairFromCreationInfo(tag string, value string) erro
 			FilesAnalyzed:             true,
 			IsFilesAnalyzedTagPresent: false,
 		}
+		parser.pkgNamed = false
 		return parser.parsePairFromPackage(tag, value)
 	// tag for going on to _unpackaged_ file section
 	case "FileName":
diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..a256d97 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -20,7 +20,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 	switch tag {
 	case "PackageName":
 		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkgNamed {
 			// check if the previous package contained an spdxId or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
@@ -31,6 +31,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 			}
 		}
 		parser.pkg.PackageName = value
+		parser.pkgNamed = true
 	// tag for going on to file section
 	case "FileName":
 		parser.st = psFile
diff --git a/spdx/v2/v2_1/tagvalue/reader/types.go b/spdx/v2/v2_1/tagvalue/reader/types.go
index fc3afe3..115a2cc 100644
--- a/spdx/v2/v2_1/tagvalue/reader/types.go
+++ b/spdx/v2/v2_1/tagvalue/reader/types.go
@@ -16,6 +16,7 @@ type tvParser struct {
 
 	// current SPDX item being filled in, if any
 	pkg       *v2_1.Package
+	pkgNamed  bool // whether the PackageName of pkg was read, even if empty
 	pkgExtRef *v2_1.PackageExternalReference
 	file      *v2_1.File
 	fileAOP   *v2_1.ArtifactOfProject
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_creation_info.go b/spdx/v2/v2_2/tagvalue/reader/parse_creation_info.go
index e6bb206..f6ca9ee 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_creation_info.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_creation_info.go
@@ -59,6 +59,7 @@ func (parser *tvParser) parsePairFromCreationInfo(tag string, value string) erro
 			FilesAnalyzed:             true,
 			IsFilesAnalyzedTagPresent: false,
 		}
+		parser.pkgNamed = false
 		return parser.parsePairFromPackage(tag, value)
 	// tag for going on to _unpackaged_ file section
 	case "FileName":
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..8bcd352 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -20,7 +20,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 	switch tag {
 	case "PackageName":
 		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkgNamed {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
@@ -31,6 +31,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 			}
 		}
 		parser.pkg.PackageName = value
+		parser.pkgNamed = true
 	// tag for going on to file section
 	case "FileName":
 		parser.st = psFile
diff --git a/spdx/v2/v2_2/tagvalue/reader/types.go b/spdx/v2/v2_2/tagvalue/reader/types.go
index 15673a4..f7926d7 100644
--- a/spdx/v2/v2_2/tagvalue/reader/types.go
+++ b/spdx/v2/v2_2/tagvalue/reader/types.go
@@ -16,6 +16,7 @@ type tvParser struct {
 
 	// current SPDX item being filled in, if any
 	pkg       *v2_2.Package
+	pkgNamed  bool // whether the PackageName of pkg was read, even if empty
 	pkgExtRef *v2_2.PackageExternalReference
 	file      *v2_2.File
 	fileAOP   *v2_2.ArtifactOfProject
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_creation_info.go b/spdx/v2/v2_3/tagvalue/reader/parse_creation_info.go
index c993208..39a3c87 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_creation_info.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_creation_info.go
@@ -59,6 +59,7 @@ func (parser *tvParser) parsePairFromCreationInfo(tag string, value string) erro
 			FilesAnalyzed:             true,
 			IsFilesAnalyzedTagPresent: false,
 		}
+		parser.pkgNamed = false
 		return parser.parsePairFromPackage(tag, value)
 	// tag for going on to _unpackaged_ file section
 	case "FileName":
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..fb649f3 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -20,7 +20,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 	switch tag {
 	case "PackageName":
 		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkgNamed {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
@@ -31,6 +31,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 			}
 		}
 		parser.pkg.PackageName = value
+		parser.pkgNamed = true
 	// tag for going on to file section
 	case "FileName":
 		parser.st = psFile
diff --git a/spdx/v2/v2_3/tagvalue/reader/types.go b/spdx/v2/v2_3/tagvalue/reader/types.go
index 654a5ea..d3498d6 100644
--- a/spdx/v2/v2_3/tagvalue/reader/types.go
+++ b/spdx/v2/v2_3/tagvalue/reader/types.go
@@ -16,6 +16,7 @@ type tvParser struct {
 
 	// current SPDX item being filled in, if any
 	pkg       *spdx.Package
+	pkgNamed  bool // whether the PackageName of pkg was read, even if empty
 	pkgExtRef *spdx.PackageExternalReference
 	file      *spdx.File
 	fileAOP   *spdx.ArtifactOfProject
-- 
2.43.0


From 4f5ae79c24654b4f28e795ea8b83410d7f22629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 07/32] fix: a repeated SPDXID in a tag-value section must not
 add the element twice

---
 spdx/v2/v2_1/tagvalue/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 5 +++++
 spdx/v2/v2_2/tagvalue/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 5 +++++
 spdx/v2/v2_3/tagvalue/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_file.go b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
index 46f494c..17d6d41 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// the first identifier adds the file, a repeated one only replaces it
+		added := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if added {
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_1.File{}
diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index a256d97..8916124 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -45,7 +45,12 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// the first identifier adds the package, a repeated one only replaces it
+		added := parser.pkg.PackageSPDXIdentifier != nullSpdxElementId
 		parser.pkg.PackageSPDXIdentifier = eID
+		if added {
+			break
+		}
 		if parser.doc.Packages == nil {
 			parser.doc.Packages = []*v2_1.Package{}
 		}
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_file.go b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
index 25537df..e7b3e68 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// the first identifier adds the file, a repeated one only replaces it
+		added := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if added {
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_2.File{}
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index 8bcd352..f80e824 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -45,7 +45,12 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// the first identifier adds the package, a repeated one only replaces it
+		added := parser.pkg.PackageSPDXIdentifier != nullSpdxElementId
 		parser.pkg.PackageSPDXIdentifier = eID
+		if added {
+			break
+		}
 		if parser.doc.Packages == nil {
 			parser.doc.Packages = []*v2_2.Package{}
 		}
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_file.go b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
index 25badf0..424564b 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// the first identifier adds the file, a repeated one only replaces it
+		added := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if added {
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*spdx.File{}
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index fb649f3..b728a07 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -45,7 +45,12 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// the first identifier adds the package, a repeated one only replaces it
+		added := parser.pkg.PackageSPDXIdentifier != nullSpdxElementId
 		parser.pkg.PackageSPDXIdentifier = eID
+		if added {
+			break
+		}
 		if parser.doc.Packages == nil {
 			parser.doc.Packages = []*spdx.Package{}
 		}
-- 
2.43.0


From 2388286f3a02d5561c4cca4a05eeeddafadb28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 08/32] fix: count a nameless file in the verification code
 when no file is excluded

---
 utils/verification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/verification.go b/utils/verification.go
index e6d38e4..5db62b9 100644
--- a/utils/verification.go
+++ b/utils/verification.go
@@ -23,7 +23,7 @@ func GetVerificationCode(files []*spdx.File, excludeFile string) (common.Package
 		if f == nil {
 			return common.PackageVerificationCode{}, fmt.Errorf("got nil file for identifier %v", i)
 		}
-		if f.FileName != excludeFile {
+		if excludeFile == "" || f.FileName != excludeFile {
 			// find the SHA1 hash, if present
 			for _, checksum := range f.Checksums {
 				if checksum.Algorithm == common.SHA1 {
-- 
2.43.0


From 17070c278a6a204f3f5ac223800d8a8ec503e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 09/32] fix: accept NONE, NOASSERTION and external references
 when validating relationships

---
 spdxlib/documents.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..412583b 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -26,12 +26,15 @@ func ValidateDocument(doc *spdx.Document) error {
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
 	for _, relationship := range doc.Relationships {
-		if !validElementIDs[relationship.RefA.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
-		}
-
-		if !validElementIDs[relationship.RefB.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefB.ElementRefID))
+		for _, ref := range []common.DocElementID{relationship.RefA, relationship.RefB} {
+			// NONE, NOASSERTION and elements of other documents are not expected in this Document
+			if ref.SpecialID != "" || ref.DocumentRefID != "" {
+				continue
+			}
+
+			if !validElementIDs[ref.ElementRefID] {
+				return fmt.Errorf("%s used in relationship but no such package exists", string(ref.ElementRefID))
+			}
 		}
 	}
 
-- 
2.43.0


From ab52c60f86c86dfdfa15ac6e8ae3cca22472b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 10/32] fix: list as described packages only packages of the
 document, each once

---
 spdxlib/described_elements.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..7397556 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -37,16 +37,27 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("multiple Packages in Document but Relationships slice is nil")
 	}
 
+	// packages of this document that have not been found to be described yet
+	remaining := map[common.DocElementID]bool{}
+	for _, pkg := range doc.Packages {
+		remaining[common.MakeDocElementID("", string(pkg.PackageSPDXIdentifier))] = true
+	}
+
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
 
+		var described *common.DocElementID
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
-			return &relationship.RefB.ElementRefID
+			described = &relationship.RefB
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
-			return &relationship.RefA.ElementRefID
+			described = &relationship.RefA
 		}
 
-		return nil
+		if described == nil || !remaining[*described] {
+			return nil
+		}
+		delete(remaining, *described)
+		return &described.ElementRefID
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ddad9e7bf4d4b48977caf0067c14966d00caa4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 11/32] fix: report an error instead of panicking when there is
 no document

---
 convert/chain.go  |  3 +++
 convert/struct.go | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..1b24a2a 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -32,6 +32,9 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 		return fmt.Errorf("struct to convert to must be a pointer")
 	}
 	from = FromPtr(from)
+	if from == nil || FromPtr(to) == nil {
+		return fmt.Errorf("document to convert must not be nil")
+	}
 	if reflect.TypeOf(from) == reflect.TypeOf(FromPtr(to)) {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
 		return nil
diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..6b42226 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -9,17 +9,24 @@ import (
 	"github.com/spdx/tools-golang/spdx/common"
 )
 
-// FromPtr accepts a document or a document pointer and returns the direct struct reference
+// FromPtr accepts a document or a document pointer and returns the direct struct reference,
+// or nil if there is none
 func FromPtr(doc common.AnyDocument) common.AnyDocument {
 	value := reflect.ValueOf(doc)
-	for value.Type().Kind() == reflect.Ptr {
+	for value.Kind() == reflect.Ptr {
 		value = value.Elem()
 	}
+	if !value.IsValid() {
+		return nil
+	}
 	return value.Interface()
 }
 
 func IsPtr(obj common.AnyDocument) bool {
 	t := reflect.TypeOf(obj)
+	if t == nil {
+		return false
+	}
 	if t.Kind() == reflect.Interface {
 		t = t.Elem()
 	}
@@ -28,9 +35,12 @@ func IsPtr(obj common.AnyDocument) bool {
 
 func Describe(o interface{}) string {
 	value := reflect.ValueOf(o)
+	if !value.IsValid() {
+		return "nil"
+	}
 	typ := value.Type()
 	prefix := ""
-	for typ.Kind() == reflect.Ptr {
+	for typ.Kind() == reflect.Ptr && !value.IsNil() {
 		prefix += "*"
 		value = value.Elem()
 		typ = value.Type()
-- 
2.43.0


From 088323b1d13bbc8d0b9b799ad96d2be37669a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 12/32] fix: do not cut descriptions of non-ASCII text beyond
 their end

---
 convert/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/struct.go b/convert/struct.go
index 6b42226..1d245d4 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -55,6 +55,9 @@ func limit(text string, length int) string {
 		return text
 	}
 	r := []rune(text)
+	if len(r) <= length {
+		return text
+	}
 	r = r[:length]
 	return string(r) + "..."
 }
-- 
2.43.0


From bf8976dc3c3e43a8d8327db2e83669e473dacddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 13/32] fix: packages of SPDX 2.1 JSON count as analyzed unless
 the document says otherwise

---
 spdx/v2/v2_1/package.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_1/package.go b/spdx/v2/v2_1/package.go
index 9800c2c..5f38f92 100644
--- a/spdx/v2/v2_1/package.go
+++ b/spdx/v2/v2_1/package.go
@@ -3,6 +3,8 @@
 package v2_1
 
 import (
+	"encoding/json"
+
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
 
@@ -40,7 +42,7 @@ type Package struct {
 
 	// 3.8: FilesAnalyzed
 	// Cardinality: optional, one; default value is "true" if omitted
-	FilesAnalyzed bool `json:"filesAnalyzed,omitempty"`
+	FilesAnalyzed bool `json:"filesAnalyzed"`
 	// NOT PART OF SPEC: did FilesAnalyzed tag appear?
 	IsFilesAnalyzedTagPresent bool `json:"-"`
 
@@ -102,6 +104,36 @@ type Package struct {
 	Annotations []Annotation `json:"annotations,omitempty"`
 }
 
+func (p *Package) UnmarshalJSON(b []byte) error {
+	type pkg Package
+	type extras struct {
+		FilesAnalyzed *bool `json:"filesAnalyzed"`
+	}
+
+	var p2 pkg
+	if err := json.Unmarshal(b, &p2); err != nil {
+		return err
+	}
+
+	var e extras
+	if err := json.Unmarshal(b, &e); err != nil {
+		return err
+	}
+
+	*p = Package(p2)
+
+	// FilesAnalyzed defaults to true if omitted
+	if e.FilesAnalyzed == nil {
+		p.FilesAnalyzed = true
+	} else {
+		p.IsFilesAnalyzedTagPresent = true
+	}
+
+	return nil
+}
+
+var _ json.Unmarshaler = (*Package)(nil)
+
 // PackageExternalReference is an External Reference to additional info
 // about a Package, as defined in section 3.21 in version 2.1 of the spec.
 type PackageExternalReference struct {
-- 
2.43.0


From db52ed954e653a4a61cb5364dca196d5f3e65735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 14/32] fix: list only regular files of a directory, not pipes,
 sockets or devices

---
 utils/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a24e2d1..e81c36a 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -39,8 +39,9 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 		if fi.IsDir() {
 			return nil
 		}
-		// don't include path if it's a symbolic link
-		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+		// don't include path if it's not a regular file, e.g. a symbolic
+		// link, a named pipe or a device
+		if !fi.Mode().IsRegular() {
 			return nil
 		}
 
-- 
2.43.0


From 2611797cf096ec540e9184440dfa020eb642a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 15/32] fix: interpret unknown creator types as Person, as
 documented

---
 builder/build_creation_info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/builder/build_creation_info.go b/builder/build_creation_info.go
index 1916c4e..2c418e0 100644
--- a/builder/build_creation_info.go
+++ b/builder/build_creation_info.go
@@ -18,6 +18,13 @@ import (
 //   - creator: creator string
 //   - testValues: for testing only; call with nil when using in production
 func BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) (*spdx.CreationInfo, error) {
+	// anything but an SPDX creator type is interpreted as a person
+	switch creatorType {
+	case "Person", "Organization", "Tool":
+	default:
+		creatorType = "Person"
+	}
+
 	// build creator slices
 	creators := []common.Creator{
 		// add builder as a tool
-- 
2.43.0


From 4ab967d9982f8bba5aa373d461938d04460067b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 16/32] fix: find license expressions before HTML comment ends
 and ignore tags without one

---
 idsearcher/idsearcher.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..73b186c 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -165,11 +165,16 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ if it is present
+			// stop before trailing */ or --> if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
+			lidToExtract = strings.Split(lidToExtract, "-->")[0]
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
+
+			// ignore the tag if no license follows it
+			if len(getIndividualLicenses(lid)) == 0 {
+				continue
+			}
 			idsMap[lid] = 1
 		}
 	}
-- 
2.43.0


From 73dbed9121fc4f2f0aab5114207b834166431c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 17/32] fix: honour searcher ignore paths relative to the
 scanned directory

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 73b186c..5403d5a 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -85,7 +85,8 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseConcluded = "NOASSERTION"
 
 		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// (file names begin with ./, paths to ignore with /)
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From 3eb8b3cef1ffb9f426337b04f55819a79343e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 18/32] fix: keep the colon of document-qualified license
 references found in files

---
 idsearcher/idsearcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 5403d5a..d05139b 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -199,7 +199,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 }
 
 func stripTrash(lid string) string {
-	re := regexp.MustCompile(`[^\w\s\d.\-\+()]+`)
+	re := regexp.MustCompile(`[^\w\s\d.\-\+():]+`)
 	return re.ReplaceAllString(lid, "")
 }
 
-- 
2.43.0


From 9b8c8f7dcaef4efef6420e985bbe1d0befbfe5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 19/32] fix: report an error instead of panicking on RDF nodes
 without type or of two kinds

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parser.go        | 3 +++
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parser.go        | 3 +++
 6 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..399d931 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		current, isFile := currState.object.(*v2_2.File)
+		if !isFile {
+			return nil, fmt.Errorf("node %s is used as a file and as a different element", fileNode.ID)
+		}
+		return current, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..5552ab9 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		current, isPackage := currState.object.(*v2_2.Package)
+		if !isPackage {
+			return nil, fmt.Errorf("node %s is used as a package and as a different element", packageNode.ID)
+		}
+		return current, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..da06e03 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -109,6 +109,9 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 			&RDF_TYPE,                      // Predicate
 			nil,                            // Object
 		)
+		if len(typeTriples) == 0 {
+			return nil, fmt.Errorf("rootNode (%v) is not associated with any triple of predicate rdf:type", rootNode)
+		}
 
 		if typeTriples[0].Object.ID == SPDX_SPDX_DOCUMENT_CAPITALIZED {
 			// we found a SpdxDocument Node
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..4373f6a 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		current, isFile := currState.object.(*spdx.File)
+		if !isFile {
+			return nil, fmt.Errorf("node %s is used as a file and as a different element", fileNode.ID)
+		}
+		return current, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..fb8b5d4 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		current, isPackage := currState.object.(*spdx.Package)
+		if !isPackage {
+			return nil, fmt.Errorf("node %s is used as a package and as a different element", packageNode.ID)
+		}
+		return current, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..f1ab301 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -109,6 +109,9 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 			&RDF_TYPE,                      // Predicate
 			nil,                            // Object
 		)
+		if len(typeTriples) == 0 {
+			return nil, fmt.Errorf("rootNode (%v) is not associated with any triple of predicate rdf:type", rootNode)
+		}
 
 		if typeTriples[0].Object.ID == SPDX_SPDX_DOCUMENT_CAPITALIZED {
 			// we found a SpdxDocument Node
-- 
2.43.0


From 2b038d467cf4798634ee9ee7c9938c87f775855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 20/32] fix: read each package and file of an RDF document
 once, however it is referenced

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         | 17 +++++++++--
 spdx/v2/v2_2/rdf/reader/parse_package.go      | 29 ++++++++++++-------
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 13 +++++++++
 .../v2/v2_2/rdf/reader/parse_spdx_document.go |  7 +----
 spdx/v2/v2_2/rdf/reader/parser.go             |  1 +
 spdx/v2/v2_2/rdf/reader/types.go              |  3 ++
 spdx/v2/v2_2/rdf/reader/utils.go              |  8 ++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go         | 17 +++++++++--
 spdx/v2/v2_3/rdf/reader/parse_package.go      | 29 ++++++++++++-------
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 13 +++++++++
 .../v2/v2_3/rdf/reader/parse_spdx_document.go |  7 +----
 spdx/v2/v2_3/rdf/reader/parser.go             |  1 +
 spdx/v2/v2_3/rdf/reader/types.go              |  3 ++
 spdx/v2/v2_3/rdf/reader/utils.go              |  8 ++++-
 14 files changed, 114 insertions(+), 42 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 399d931..0ca101f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -16,7 +17,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 	file = &v2_2.File{}
 
 	currState := parser.cache[fileNode.ID]
-	if currState == nil {
+	if currState == nil || currState.Color == BLACK {
 		// this is the first time we are seeing this node.
 		parser.cache[fileNode.ID] = &nodeState{
 			object: file,
@@ -45,9 +46,15 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 
 	if existingFile := parser.files[file.FileSPDXIdentifier]; existingFile != nil {
 		file = existingFile
+		parser.cache[fileNode.ID].object = file
 	}
+	parser.files[file.FileSPDXIdentifier] = file
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if parser.parsed[subTriple] {
+			continue // the element was referenced before
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
@@ -126,7 +133,6 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			return nil, err
 		}
 	}
-	parser.files[file.FileSPDXIdentifier] = file
 	return file, nil
 }
 
@@ -192,11 +198,16 @@ func (parser *rdfParser2_2) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_2) setUnpackagedFiles() {
+	fileIDs := make([]string, 0, len(parser.files))
 	for fileID := range parser.files {
 		if !parser.assocWithPackage[fileID] {
-			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+			fileIDs = append(fileIDs, string(fileID))
 		}
 	}
+	sort.Strings(fileIDs)
+	for _, fileID := range fileIDs {
+		parser.doc.Files = append(parser.doc.Files, parser.files[common.ElementID(fileID)])
+	}
 }
 
 func setFileIdentifier(idURI string, file *v2_2.File) (err error) {
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 5552ab9..18aed4d 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -15,7 +15,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 	pkg = &v2_2.Package{} // new package which will be returned
 
 	currState := parser.cache[packageNode.ID]
-	if currState == nil {
+	if currState == nil || currState.Color == BLACK {
 		// there is no entry about the state of current package node.
 		// this is the first time we're seeing this node.
 		parser.cache[packageNode.ID] = &nodeState{
@@ -46,17 +46,25 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 	pkg.PackageSPDXIdentifier = eId // 3.2
 
 	// check if we already have a package initialized for this ID
-	existingPackageIndex := -1
-	for ii, existingPkg := range parser.doc.Packages {
+	existing := false
+	for _, existingPkg := range parser.doc.Packages {
 		if existingPkg != nil && existingPkg.PackageSPDXIdentifier == eId {
-			existingPackageIndex = ii
+			existing = true
 			pkg = existingPkg
+			parser.cache[packageNode.ID].object = pkg
 			break
 		}
 	}
+	if !existing {
+		parser.doc.Packages = append(parser.doc.Packages, pkg)
+	}
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if parser.parsed[subTriple] {
+			continue // the element was referenced before
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
@@ -161,12 +169,6 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	}
 
-	if existingPackageIndex != -1 {
-		parser.doc.Packages[existingPackageIndex] = pkg
-	} else {
-		parser.doc.Packages = append(parser.doc.Packages, pkg)
-	}
-
 	return pkg, nil
 }
 
@@ -235,8 +237,13 @@ func (parser *rdfParser2_2) setFileToPackage(pkg *v2_2.Package, file *v2_2.File)
 	if pkg.Files == nil {
 		pkg.Files = []*v2_2.File{}
 	}
-	pkg.Files = append(pkg.Files, file)
 	parser.assocWithPackage[file.FileSPDXIdentifier] = true
+	for _, existingFile := range pkg.Files {
+		if existingFile == file {
+			return
+		}
+	}
+	pkg.Files = append(pkg.Files, file)
 }
 
 // given a supplierObject, sets the PackageSupplier attribute of the pkg.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1946933..532e4ec 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -111,6 +111,19 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SNIPPET:
+		snippet, err := parser.getSnippetInformationFromNode2_2(triple.Subject)
+		if err != nil {
+			return fmt.Errorf("error setting a snippet inside a relationship: %v", err)
+		}
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return err
+		}
+
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED:
+		// the reference is all that is kept of it.
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..0ca18c5 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index da06e03..4245317 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_2(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*v2_2.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		parsed:           map[*gordfParser.Triple]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..8e28b9c 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -23,6 +23,9 @@ type rdfParser2_2 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// triples of packages and files that are in the document already.
+	parsed map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..b20397f 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -48,7 +48,13 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	triples := parser.nodeStringToTriples[node.String()]
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		// a reference (rdf:resource) to a node which is described elsewhere
+		described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+		triples = parser.nodeStringToTriples[described.String()]
+	}
+	return triples
 }
 
 // returns which boolean was given as an input
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 4373f6a..2d3fd3f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -16,7 +17,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 	file = &spdx.File{}
 
 	currState := parser.cache[fileNode.ID]
-	if currState == nil {
+	if currState == nil || currState.Color == BLACK {
 		// this is the first time we are seeing this node.
 		parser.cache[fileNode.ID] = &nodeState{
 			object: file,
@@ -45,9 +46,15 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 
 	if existingFile := parser.files[file.FileSPDXIdentifier]; existingFile != nil {
 		file = existingFile
+		parser.cache[fileNode.ID].object = file
 	}
+	parser.files[file.FileSPDXIdentifier] = file
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if parser.parsed[subTriple] {
+			continue // the element was referenced before
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
@@ -126,7 +133,6 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			return nil, err
 		}
 	}
-	parser.files[file.FileSPDXIdentifier] = file
 	return file, nil
 }
 
@@ -200,11 +206,16 @@ func (parser *rdfParser2_3) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_3) setUnpackagedFiles() {
+	fileIDs := make([]string, 0, len(parser.files))
 	for fileID := range parser.files {
 		if !parser.assocWithPackage[fileID] {
-			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+			fileIDs = append(fileIDs, string(fileID))
 		}
 	}
+	sort.Strings(fileIDs)
+	for _, fileID := range fileIDs {
+		parser.doc.Files = append(parser.doc.Files, parser.files[common.ElementID(fileID)])
+	}
 }
 
 func setFileIdentifier(idURI string, file *spdx.File) (err error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index fb8b5d4..1e2a8e7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -15,7 +15,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 	pkg = &spdx.Package{} // new package which will be returned
 
 	currState := parser.cache[packageNode.ID]
-	if currState == nil {
+	if currState == nil || currState.Color == BLACK {
 		// there is no entry about the state of current package node.
 		// this is the first time we're seeing this node.
 		parser.cache[packageNode.ID] = &nodeState{
@@ -46,17 +46,25 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 	pkg.PackageSPDXIdentifier = eId // 3.2
 
 	// check if we already have a package initialized for this ID
-	existingPackageIndex := -1
-	for ii, existingPkg := range parser.doc.Packages {
+	existing := false
+	for _, existingPkg := range parser.doc.Packages {
 		if existingPkg != nil && existingPkg.PackageSPDXIdentifier == eId {
-			existingPackageIndex = ii
+			existing = true
 			pkg = existingPkg
+			parser.cache[packageNode.ID].object = pkg
 			break
 		}
 	}
+	if !existing {
+		parser.doc.Packages = append(parser.doc.Packages, pkg)
+	}
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if parser.parsed[subTriple] {
+			continue // the element was referenced before
+		}
+		parser.parsed[subTriple] = true
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
@@ -173,12 +181,6 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	}
 
-	if existingPackageIndex != -1 {
-		parser.doc.Packages[existingPackageIndex] = pkg
-	} else {
-		parser.doc.Packages = append(parser.doc.Packages, pkg)
-	}
-
 	return pkg, nil
 }
 
@@ -262,8 +264,13 @@ func (parser *rdfParser2_3) setFileToPackage(pkg *spdx.Package, file *spdx.File)
 	if pkg.Files == nil {
 		pkg.Files = []*spdx.File{}
 	}
-	pkg.Files = append(pkg.Files, file)
 	parser.assocWithPackage[file.FileSPDXIdentifier] = true
+	for _, existingFile := range pkg.Files {
+		if existingFile == file {
+			return
+		}
+	}
+	pkg.Files = append(pkg.Files, file)
 }
 
 // given a supplierObject, sets the PackageSupplier attribute of the pkg.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index b1753db..2a39d88 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -111,6 +111,19 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SNIPPET:
+		snippet, err := parser.getSnippetInformationFromNode2_3(triple.Subject)
+		if err != nil {
+			return fmt.Errorf("error setting a snippet inside a relationship: %v", err)
+		}
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return err
+		}
+
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED:
+		// the reference is all that is kept of it.
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..d3baac4 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index f1ab301..c966eed 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -30,6 +30,7 @@ func NewParser2_3(gordfParserObj *gordfParser.Parser, nodeToTriples map[string][
 		files:            map[common.ElementID]*spdx.File{},
 		assocWithPackage: map[common.ElementID]bool{},
 		cache:            map[string]*nodeState{},
+		parsed:           map[*gordfParser.Triple]bool{},
 	}
 	return &parser
 }
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..792c1e6 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -23,6 +23,9 @@ type rdfParser2_3 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// triples of packages and files that are in the document already.
+	parsed map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..48bb05a 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -48,7 +48,13 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	triples := parser.nodeStringToTriples[node.String()]
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		// a reference (rdf:resource) to a node which is described elsewhere
+		described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+		triples = parser.nodeStringToTriples[described.String()]
+	}
+	return triples
 }
 
 // returns which boolean was given as an input
-- 
2.43.0


From d24bd283d14b2caac893a88e6c71acae00249609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 21/32] fix: keep every range of an RDF snippet, with its file

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 18 ++++++++++++------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..1675f38 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -73,6 +73,11 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file may have been found after the ranges.
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -137,18 +142,19 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..4e1c1ea 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -70,6 +70,11 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file may have been found after the ranges.
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -134,18 +139,19 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0


From a91a74d0a5e9398a44db1a8acd21f9e6edbc1c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 22/32] fix: read NONE and NOASSERTION of RDF relationships as
 such, not as elements

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 12 +++++++++++-
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 532e4ec..dea5c0c 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -55,7 +55,7 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 		case SPDX_RELATED_SPDX_ELEMENT:
 			// cardinality: exactly 1
 			// assumes: spdx-element is a uri
-			reln.RefB, err = getReferenceFromURI(subTriple.Object.ID)
+			reln.RefB, err = getRelatedElementFromURI(subTriple.Object.ID)
 			if err != nil {
 				return err
 			}
@@ -137,6 +137,16 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 	return nil
 }
 
+// the RefB of a relationship, which may also be NONE or NOASSERTION
+func getRelatedElementFromURI(uri string) (common.DocElementID, error) {
+	fragment := strings.ToUpper(strings.TrimSpace(getLastPartOfURI(uri)))
+	switch fragment {
+	case "NONE", "NOASSERTION":
+		return common.MakeDocElementSpecial(fragment), nil
+	}
+	return getReferenceFromURI(uri)
+}
+
 // references like RefA and RefB of any relationship
 func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	fragment := getLastPartOfURI(uri)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 2a39d88..4b4b0ab 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -55,7 +55,7 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 		case SPDX_RELATED_SPDX_ELEMENT:
 			// cardinality: exactly 1
 			// assumes: spdx-element is a uri
-			reln.RefB, err = getReferenceFromURI(subTriple.Object.ID)
+			reln.RefB, err = getRelatedElementFromURI(subTriple.Object.ID)
 			if err != nil {
 				return err
 			}
@@ -137,6 +137,16 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 	return nil
 }
 
+// the RefB of a relationship, which may also be NONE or NOASSERTION
+func getRelatedElementFromURI(uri string) (common.DocElementID, error) {
+	fragment := strings.ToUpper(strings.TrimSpace(getLastPartOfURI(uri)))
+	switch fragment {
+	case "NONE", "NOASSERTION":
+		return common.MakeDocElementSpecial(fragment), nil
+	}
+	return getReferenceFromURI(uri)
+}
+
 // references like RefA and RefB of any relationship
 func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	fragment := getLastPartOfURI(uri)
-- 
2.43.0


From 99e0a95e2148030d668f969eed4f11694c0beb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 23/32] fix: keep RDF document and external document
 identifiers without their prefixes

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 5 +++--
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 0ca18c5..d85732a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -21,7 +22,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 		return err
 	}
 	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -91,7 +92,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index d3baac4..75851b0 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -21,7 +22,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 		return err
 	}
 	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -91,7 +92,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From f898769829113e023437ec7ea8e0ba85174d37f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 24/32] fix: record which element an RDF annotation is about

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 12 ++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..1a1af6f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
 
@@ -42,6 +43,17 @@ func (parser *rdfParser2_2) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// creates a new instance of annotation of the given element of the document.
+func (parser *rdfParser2_2) parseAnnotationOfElement(id common.ElementID, node *gordfParser.Node) error {
+	err := parser.parseAnnotationFromNode(node)
+	if err != nil {
+		return err
+	}
+	annotation := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+	annotation.AnnotationSPDXIdentifier = common.MakeDocElementID("", string(id))
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_2, annotation *v2_2.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 0ca101f..672adaa 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -122,7 +122,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOfElement(file.FileSPDXIdentifier, subTriple.Object)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 18aed4d..871af15 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -160,7 +160,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOfElement(pkg.PackageSPDXIdentifier, subTriple.Object)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index d85732a..186a56f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -76,7 +76,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOfElement(parser.doc.SPDXIdentifier, subTriple.Object)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..90ea316 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/tools-golang/spdx/v2/common"
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 )
 
@@ -42,6 +43,17 @@ func (parser *rdfParser2_3) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// creates a new instance of annotation of the given element of the document.
+func (parser *rdfParser2_3) parseAnnotationOfElement(id common.ElementID, node *gordfParser.Node) error {
+	err := parser.parseAnnotationFromNode(node)
+	if err != nil {
+		return err
+	}
+	annotation := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+	annotation.AnnotationSPDXIdentifier = common.MakeDocElementID("", string(id))
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_3, annotation *spdx.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 2d3fd3f..ea2681d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -122,7 +122,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOfElement(file.FileSPDXIdentifier, subTriple.Object)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 1e2a8e7..d00ba83 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -172,7 +172,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOfElement(pkg.PackageSPDXIdentifier, subTriple.Object)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 75851b0..73ab6db 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -76,7 +76,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOfElement(parser.doc.SPDXIdentifier, subTriple.Object)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From cd5f39c9b4f01b3d4c72fad011cd0da6a0369a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 25/32] fix: packages of RDF documents count as analyzed unless
 they say otherwise

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 3 ++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 871af15..34675e4 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -12,7 +12,8 @@ import (
 )
 
 func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (pkg *v2_2.Package, err error) {
-	pkg = &v2_2.Package{} // new package which will be returned
+	// new package which will be returned; its files count as analyzed unless it says otherwise
+	pkg = &v2_2.Package{FilesAnalyzed: true}
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil || currState.Color == BLACK {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index d00ba83..33f6f67 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -12,7 +12,8 @@ import (
 )
 
 func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (pkg *spdx.Package, err error) {
-	pkg = &spdx.Package{} // new package which will be returned
+	// new package which will be returned; its files count as analyzed unless it says otherwise
+	pkg = &spdx.Package{FilesAnalyzed: true}
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil || currState.Color == BLACK {
-- 
2.43.0


From 72025404fac89723bcd36519001f9bd2d87eb761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 26/32] fix: read package purposes and the newer checksum
 algorithms from RDF

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 2 +-
 spdx/v2/v2_3/rdf/reader/license_utils.go       | 6 ++++++
 spdx/v2/v2_3/rdf/reader/parse_package.go       | 3 ++-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 186a56f..d2ed766 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -21,7 +21,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
 	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..db9bf02 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -62,6 +62,12 @@ func getAlgorithmFromURI(algorithmURI string) (checksumAlgorithm string, err err
 		checksumAlgorithm = strings.ToUpper(algorithm)
 	case "sha1", "sha224", "sha256", "sha384", "sha512":
 		checksumAlgorithm = strings.ToUpper(algorithm)
+	case "sha3_256", "sha3_384", "sha3_512":
+		checksumAlgorithm = strings.ToUpper(strings.Replace(algorithm, "_", "-", 1))
+	case "blake2b256", "blake2b384", "blake2b512":
+		checksumAlgorithm = "BLAKE2b-" + strings.TrimPrefix(algorithm, "blake2b")
+	case "blake3", "adler32":
+		checksumAlgorithm = strings.ToUpper(algorithm)
 	default:
 		return "", fmt.Errorf("unknown checksum algorithm %s", algorithm)
 	}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 33f6f67..785c99c 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -226,7 +226,8 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 }
 
 func getPrimaryPackagePurpose(purpose string) string {
-	value := strings.ReplaceAll(purpose, "packagePurpose_", "")
+	value := strings.TrimPrefix(getLastPartOfURI(purpose), "packagePurpose_")
+	value = strings.TrimPrefix(value, "purpose_")
 	value = strings.ReplaceAll(value, "_", "-")
 	value = strings.ToUpper(value)
 	switch value {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 73ab6db..8c3d0bc 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -21,7 +21,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
 	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
-- 
2.43.0


From 345ed4d0fbbadf32502faf8ecfa64cef4f8d626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 27/32] fix: render RDF license sets, exceptions and referenced
 members as the licenses they denote

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 14 ++++++++---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 31 ++++++++++++++++++++++--
 spdx/v2/v2_2/rdf/reader/parse_package.go | 11 ++++++++-
 spdx/v2/v2_3/rdf/reader/license_utils.go | 14 ++++++++---
 spdx/v2/v2_3/rdf/reader/parse_license.go | 31 ++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_package.go | 11 ++++++++-
 6 files changed, 100 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..6203739 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,12 +80,17 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: alternatives among the members need brackets.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, isSet := member.(DisjunctiveLicenseSet); isSet && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
@@ -107,6 +112,9 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
+	if lic.licenseException.licenseExceptionId != "" {
+		return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
+	}
 	return lic.member.ToLicenseString()
 }
 
diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..eac8257 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(strings.TrimSpace(node.ID))
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -104,6 +108,29 @@ func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// the license an operator applies to, either described or a reference to a listed license
+func (parser *rdfParser2_2) getOperatorMemberFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	triples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(triples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: string(lic.value)}, err
+	}
+	for _, triple := range triples {
+		if triple.Predicate.ID != RDF_TYPE {
+			continue
+		}
+		switch triple.Object.ID {
+		case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+			lic, err := parser.getLicenseFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		case SPDX_EXTRACTED_LICENSING_INFO:
+			lic, err := parser.getExtractedLicensingInfoFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		}
+	}
+	return parser.getSimpleLicensingInfoFromTriples(triples)
+}
+
 func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +144,7 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +172,7 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 34675e4..38401ea 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -116,7 +116,16 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 3.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			license := getLicenseStringFromURI(subTriple.Object.ID)
+			if len(parser.nodeToTriples(subTriple.Object)) > 0 {
+				// the license is described in the document
+				anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+				if err != nil {
+					return nil, err
+				}
+				license = anyLicenseInfo.ToLicenseString()
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, license)
 		case SPDX_LICENSE_DECLARED: // 3.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index db9bf02..d5005cb 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -86,12 +86,17 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: alternatives among the members need brackets.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, isSet := member.(DisjunctiveLicenseSet); isSet && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
@@ -113,6 +118,9 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
+	if lic.licenseException.licenseExceptionId != "" {
+		return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
+	}
 	return lic.member.ToLicenseString()
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..0b269cd 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(strings.TrimSpace(node.ID))
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -104,6 +108,29 @@ func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// the license an operator applies to, either described or a reference to a listed license
+func (parser *rdfParser2_3) getOperatorMemberFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	triples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(triples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: string(lic.value)}, err
+	}
+	for _, triple := range triples {
+		if triple.Predicate.ID != RDF_TYPE {
+			continue
+		}
+		switch triple.Object.ID {
+		case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+			lic, err := parser.getLicenseFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		case SPDX_EXTRACTED_LICENSING_INFO:
+			lic, err := parser.getExtractedLicensingInfoFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		}
+	}
+	return parser.getSimpleLicensingInfoFromTriples(triples)
+}
+
 func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +144,7 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +172,7 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 785c99c..a85096d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -116,7 +116,16 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 7.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			license := getLicenseStringFromURI(subTriple.Object.ID)
+			if len(parser.nodeToTriples(subTriple.Object)) > 0 {
+				// the license is described in the document
+				anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+				if err != nil {
+					return nil, err
+				}
+				license = anyLicenseInfo.ToLicenseString()
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, license)
 		case SPDX_LICENSE_DECLARED: // 7.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
-- 
2.43.0


From cd38227d689e5a1df729b2afe94f91d4dbc25b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 28/32] fix: keep packages, files and projects of RDF documents
 that are only referred to or not at all

---
 spdx/v2/v2_2/rdf/reader/parse_file.go |  2 +-
 spdx/v2/v2_2/rdf/reader/parser.go     | 10 ++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parser.go     | 10 ++++++++++
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 672adaa..ceea869 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -166,7 +166,7 @@ func (parser *rdfParser2_2) setFileChecksumFromNode(file *v2_2.File, checksumNod
 func (parser *rdfParser2_2) getArtifactFromNode(node *gordfParser.Node) (*v2_2.ArtifactOfProject, error) {
 	artifactOf := &v2_2.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 4245317..fa53f4c 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -72,6 +72,16 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 			if err != nil {
 				return nil, err
 			}
+		case SPDX_PACKAGE:
+			_, err := parser.getPackageFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			_, err := parser.getFileFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a file: %v", err)
+			}
 		// todo: check other root node attributes.
 		default:
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index ea2681d..9ccfb03 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -174,7 +174,7 @@ func (parser *rdfParser2_3) setFileChecksumFromNode(file *spdx.File, checksumNod
 func (parser *rdfParser2_3) getArtifactFromNode(node *gordfParser.Node) (*spdx.ArtifactOfProject, error) {
 	artifactOf := &spdx.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index c966eed..57181c1 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -72,6 +72,16 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 			if err != nil {
 				return nil, err
 			}
+		case SPDX_PACKAGE:
+			_, err := parser.getPackageFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			_, err := parser.getFileFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a file: %v", err)
+			}
 		// todo: check other root node attributes.
 		default:
 			continue
-- 
2.43.0


From 8eb67827ad0a242b53f985937b3469f41d5b88f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 29/32] fix: remove null entries of JSON lists

JSON allows null in any list. Such an entry of packages, files, annotations
and the like became a nil pointer, on which the validation, the queries,
the tag-value writer and the reports panicked; only null relationships of
2.2 and 2.3 documents were removed.
---
 spdx/v2/v2_1/document.go | 31 +++++++++++++++++++++++++++++++
 spdx/v2/v2_2/document.go | 23 +++++++++++++++--------
 spdx/v2/v2_3/document.go | 29 +++++++++++++++++++++--------
 spdx/v2/v2_3/file.go     |  6 ++++++
 4 files changed, 73 insertions(+), 16 deletions(-)

diff --git a/spdx/v2/v2_1/document.go b/spdx/v2/v2_1/document.go
index cf824a4..57e0ce6 100644
--- a/spdx/v2/v2_1/document.go
+++ b/spdx/v2/v2_1/document.go
@@ -4,6 +4,9 @@
 package v2_1
 
 import (
+	"encoding/json"
+	"slices"
+
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
 
@@ -68,3 +71,31 @@ type Document struct {
 	// DEPRECATED in version 2.0 of spec
 	Reviews []*Review `json:"-"`
 }
+
+func (d *Document) UnmarshalJSON(b []byte) error {
+	type doc Document
+	var d2 doc
+	if err := json.Unmarshal(b, &d2); err != nil {
+		return err
+	}
+
+	*d = Document(d2)
+	d.removeNulls()
+
+	return nil
+}
+
+var _ json.Unmarshaler = (*Document)(nil)
+
+// removeNulls removes null entries, which JSON allows in any list
+func (d *Document) removeNulls() {
+	d.Packages = slices.DeleteFunc(d.Packages, func(p *Package) bool { return p == nil })
+	for _, p := range d.Packages {
+		p.PackageExternalReferences = slices.DeleteFunc(p.PackageExternalReferences, func(r *PackageExternalReference) bool { return r == nil })
+		p.Files = slices.DeleteFunc(p.Files, func(f *File) bool { return f == nil })
+	}
+	d.Files = slices.DeleteFunc(d.Files, func(f *File) bool { return f == nil })
+	d.OtherLicenses = slices.DeleteFunc(d.OtherLicenses, func(l *OtherLicense) bool { return l == nil })
+	d.Relationships = slices.DeleteFunc(d.Relationships, func(r *Relationship) bool { return r == nil })
+	d.Annotations = slices.DeleteFunc(d.Annotations, func(a *Annotation) bool { return a == nil })
+}
diff --git a/spdx/v2/v2_2/document.go b/spdx/v2/v2_2/document.go
index 9d40f73..35eda08 100644
--- a/spdx/v2/v2_2/document.go
+++ b/spdx/v2/v2_2/document.go
@@ -6,6 +6,7 @@ package v2_2
 import (
 	"encoding/json"
 	"fmt"
+	"slices"
 
 	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_1"
@@ -98,6 +99,7 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 	}
 
 	*d = Document(d2)
+	d.removeNulls()
 
 	relationshipExists := map[string]bool{}
 	serializeRel := func(r *Relationship) string {
@@ -120,14 +122,6 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 		return fmt.Sprintf("%v-%v->%v", common.RenderDocElementID(refA), rel, common.RenderDocElementID(refB))
 	}
 
-	// remove null relationships
-	for i := 0; i < len(d.Relationships); i++ {
-		if d.Relationships[i] == nil {
-			d.Relationships = append(d.Relationships[0:i], d.Relationships[i+1:]...)
-			i--
-		}
-	}
-
 	// index current list of relationships to ensure no duplication
 	for _, r := range d.Relationships {
 		relationshipExists[serializeRel(r)] = true
@@ -175,3 +169,16 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 }
 
 var _ json.Unmarshaler = (*Document)(nil)
+
+// removeNulls removes null entries, which JSON allows in any list
+func (d *Document) removeNulls() {
+	d.Packages = slices.DeleteFunc(d.Packages, func(p *Package) bool { return p == nil })
+	for _, p := range d.Packages {
+		p.PackageExternalReferences = slices.DeleteFunc(p.PackageExternalReferences, func(r *PackageExternalReference) bool { return r == nil })
+		p.Files = slices.DeleteFunc(p.Files, func(f *File) bool { return f == nil })
+	}
+	d.Files = slices.DeleteFunc(d.Files, func(f *File) bool { return f == nil })
+	d.OtherLicenses = slices.DeleteFunc(d.OtherLicenses, func(l *OtherLicense) bool { return l == nil })
+	d.Relationships = slices.DeleteFunc(d.Relationships, func(r *Relationship) bool { return r == nil })
+	d.Annotations = slices.DeleteFunc(d.Annotations, func(a *Annotation) bool { return a == nil })
+}
diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index aadf0d1..ef172c0 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -6,6 +6,7 @@ package v2_3
 import (
 	"encoding/json"
 	"fmt"
+	"slices"
 
 	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
@@ -107,6 +108,7 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 	}
 
 	*d = Document(d2)
+	d.removeNulls()
 
 	relationshipExists := map[string]bool{}
 	serializeRel := func(r *Relationship) string {
@@ -129,14 +131,6 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 		return fmt.Sprintf("%v-%v->%v", common.RenderDocElementID(refA), rel, common.RenderDocElementID(refB))
 	}
 
-	// remove null relationships
-	for i := 0; i < len(d.Relationships); i++ {
-		if d.Relationships[i] == nil {
-			d.Relationships = append(d.Relationships[0:i], d.Relationships[i+1:]...)
-			i--
-		}
-	}
-
 	// index current list of relationships to ensure no duplication
 	for _, r := range d.Relationships {
 		relationshipExists[serializeRel(r)] = true
@@ -185,3 +179,22 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 }
 
 var _ json.Unmarshaler = (*Document)(nil)
+
+// removeNulls removes null entries, which JSON allows in any list
+func (d *Document) removeNulls() {
+	d.Packages = slices.DeleteFunc(d.Packages, func(p *Package) bool { return p == nil })
+	for _, p := range d.Packages {
+		p.PackageExternalReferences = slices.DeleteFunc(p.PackageExternalReferences, func(r *PackageExternalReference) bool { return r == nil })
+		p.Files = slices.DeleteFunc(p.Files, func(f *File) bool { return f == nil })
+		for _, f := range p.Files {
+			f.removeNulls()
+		}
+	}
+	d.Files = slices.DeleteFunc(d.Files, func(f *File) bool { return f == nil })
+	for _, f := range d.Files {
+		f.removeNulls()
+	}
+	d.OtherLicenses = slices.DeleteFunc(d.OtherLicenses, func(l *OtherLicense) bool { return l == nil })
+	d.Relationships = slices.DeleteFunc(d.Relationships, func(r *Relationship) bool { return r == nil })
+	d.Annotations = slices.DeleteFunc(d.Annotations, func(a *Annotation) bool { return a == nil })
+}
diff --git a/spdx/v2/v2_3/file.go b/spdx/v2/v2_3/file.go
index 9f8f28a..ac84cc3 100644
--- a/spdx/v2/v2_3/file.go
+++ b/spdx/v2/v2_3/file.go
@@ -3,6 +3,8 @@
 package v2_3
 
 import (
+	"slices"
+
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
 
@@ -96,3 +98,7 @@ type ArtifactOfProject struct {
 	// Cardinality: optional, one per AOP
 	URI string `json:"URI"`
 }
+
+func (f *File) removeNulls() {
+	f.ArtifactOfProjects = slices.DeleteFunc(f.ArtifactOfProjects, func(a *ArtifactOfProject) bool { return a == nil })
+}
-- 
2.43.0


From a43e99e286db13c2a2c99739d72e612dffb5a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 30/32] fix: converting documents with empty elements must not
 leave nil elements

The conversion makes nil of an element without content, on which validation,
queries and reports of the converted document panicked.
---
 spdx/v2/v2_1/document.go | 2 +-
 spdx/v2/v2_2/document.go | 4 +++-
 spdx/v2/v2_3/document.go | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_1/document.go b/spdx/v2/v2_1/document.go
index 57e0ce6..a6e2871 100644
--- a/spdx/v2/v2_1/document.go
+++ b/spdx/v2/v2_1/document.go
@@ -87,7 +87,7 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 
 var _ json.Unmarshaler = (*Document)(nil)
 
-// removeNulls removes null entries, which JSON allows in any list
+// removeNulls removes nil elements: JSON allows null in any list
 func (d *Document) removeNulls() {
 	d.Packages = slices.DeleteFunc(d.Packages, func(p *Package) bool { return p == nil })
 	for _, p := range d.Packages {
diff --git a/spdx/v2/v2_2/document.go b/spdx/v2/v2_2/document.go
index 35eda08..7ffbc2b 100644
--- a/spdx/v2/v2_2/document.go
+++ b/spdx/v2/v2_2/document.go
@@ -76,6 +76,7 @@ type Document struct {
 
 func From_v2_1(_ v2_1.Document, d *Document) {
 	d.SPDXVersion = Version
+	d.removeNulls()
 }
 
 func To_v2_1(_ Document, d *v2_1.Document) {
@@ -170,7 +171,8 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 
 var _ json.Unmarshaler = (*Document)(nil)
 
-// removeNulls removes null entries, which JSON allows in any list
+// removeNulls removes nil elements: JSON allows null in any list, and the
+// conversion from another version makes nil of elements without content
 func (d *Document) removeNulls() {
 	d.Packages = slices.DeleteFunc(d.Packages, func(p *Package) bool { return p == nil })
 	for _, p := range d.Packages {
diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index ef172c0..5ee43a8 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -75,10 +75,11 @@ type Document struct {
 
 func From_v2_2(_ v2_2.Document, d *Document) {
 	d.SPDXVersion = Version
+	d.removeNulls()
 
 	// 2.2 has no way to tell an absent verification code from an empty one
 	for _, p := range d.Packages {
-		if p == nil || p.PackageVerificationCode == nil {
+		if p.PackageVerificationCode == nil {
 			continue
 		}
 		if p.PackageVerificationCode.Value == "" && len(p.PackageVerificationCode.ExcludedFiles) == 0 {
@@ -180,7 +181,8 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 
 var _ json.Unmarshaler = (*Document)(nil)
 
-// removeNulls removes null entries, which JSON allows in any list
+// removeNulls removes nil elements: JSON allows null in any list, and the
+// conversion from another version makes nil of elements without content
 func (d *Document) removeNulls() {
 	d.Packages = slices.DeleteFunc(d.Packages, func(p *Package) bool { return p == nil })
 	for _, p := range d.Packages {
-- 
2.43.0


From a21b1d27b9f7eda7c9d976d48fae83147d4439cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 31/32] fix: keep the document order of RDF triples

---
 spdx/v2/v2_2/rdf/reader/parser.go | 31 +++++++++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parser.go | 31 +++++++++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index fa53f4c..50718dc 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	gordfWriter "github.com/spdx/gordf/rdfwriter"
@@ -42,6 +43,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// for every node in the set of subjects of all the triples,
 	// it provides a list of triples that are associated with that subject node.
 	nodeToTriples := gordfWriter.GetNodeToTriples(gordfParserObj.Triples)
+	sortTriples(nodeToTriples, gordfParserObj.Triples)
 	parser := NewParser2_2(gordfParserObj, nodeToTriples)
 
 	spdxDocumentNode, err := parser.getSpdxDocNode()
@@ -55,7 +57,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	}
 
 	// parsing other root elements
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range parser.rootNodes() {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
@@ -99,6 +101,31 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	return parser.doc, nil
 }
 
+// puts the triples of each node into the order they have in the document,
+// which gordf does not keep
+func sortTriples(nodeToTriples map[string][]*gordfParser.Triple, triples []*gordfParser.Triple) {
+	position := make(map[*gordfParser.Triple]int, len(triples))
+	for i, triple := range triples {
+		position[triple] = i
+	}
+	for _, ts := range nodeToTriples {
+		sort.Slice(ts, func(i, j int) bool { return position[ts[i]] < position[ts[j]] })
+	}
+}
+
+// returns the root nodes in the order they have in the document
+func (parser *rdfParser2_2) rootNodes() []*gordfParser.Node {
+	position := map[string]int{}
+	for i, triple := range parser.gordfParserObj.Triples {
+		if _, seen := position[triple.Subject.String()]; !seen {
+			position[triple.Subject.String()] = i
+		}
+	}
+	nodes := gordfWriter.GetRootNodes(parser.gordfParserObj.Triples)
+	sort.Slice(nodes, func(i, j int) bool { return position[nodes[i].String()] < position[nodes[j].String()] })
+	return nodes
+}
+
 // from the given parser object, returns the SpdxDocument Node defined in the root elements.
 // returns error if the document is associated with no SpdxDocument or
 // associated with more than one SpdxDocument node.
@@ -113,7 +140,7 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 	*/
 	// iterate over root nodes and find the node which has a property of rdf:type=spdx:SpdxDocument
 	var spdxDocNode *gordfParser.Node
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range parser.rootNodes() {
 		typeTriples := gordfWriter.FilterTriples(
 			parser.nodeToTriples(rootNode), // triples
 			&rootNode.ID,                   // Subject
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 57181c1..0ff017f 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	gordfWriter "github.com/spdx/gordf/rdfwriter"
@@ -42,6 +43,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// for every node in the set of subjects of all the triples,
 	// it provides a list of triples that are associated with that subject node.
 	nodeToTriples := gordfWriter.GetNodeToTriples(gordfParserObj.Triples)
+	sortTriples(nodeToTriples, gordfParserObj.Triples)
 	parser := NewParser2_3(gordfParserObj, nodeToTriples)
 
 	spdxDocumentNode, err := parser.getSpdxDocNode()
@@ -55,7 +57,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	}
 
 	// parsing other root elements
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range parser.rootNodes() {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
@@ -99,6 +101,31 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	return parser.doc, nil
 }
 
+// puts the triples of each node into the order they have in the document,
+// which gordf does not keep
+func sortTriples(nodeToTriples map[string][]*gordfParser.Triple, triples []*gordfParser.Triple) {
+	position := make(map[*gordfParser.Triple]int, len(triples))
+	for i, triple := range triples {
+		position[triple] = i
+	}
+	for _, ts := range nodeToTriples {
+		sort.Slice(ts, func(i, j int) bool { return position[ts[i]] < position[ts[j]] })
+	}
+}
+
+// returns the root nodes in the order they have in the document
+func (parser *rdfParser2_3) rootNodes() []*gordfParser.Node {
+	position := map[string]int{}
+	for i, triple := range parser.gordfParserObj.Triples {
+		if _, seen := position[triple.Subject.String()]; !seen {
+			position[triple.Subject.String()] = i
+		}
+	}
+	nodes := gordfWriter.GetRootNodes(parser.gordfParserObj.Triples)
+	sort.Slice(nodes, func(i, j int) bool { return position[nodes[i].String()] < position[nodes[j].String()] })
+	return nodes
+}
+
 // from the given parser object, returns the SpdxDocument Node defined in the root elements.
 // returns error if the document is associated with no SpdxDocument or
 // associated with more than one SpdxDocument node.
@@ -113,7 +140,7 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 	*/
 	// iterate over root nodes and find the node which has a property of rdf:type=spdx:SpdxDocument
 	var spdxDocNode *gordfParser.Node
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range parser.rootNodes() {
 		typeTriples := gordfWriter.FilterTriples(
 			parser.nodeToTriples(rootNode), // triples
 			&rootNode.ID,                   // Subject
-- 
2.43.0


From 2a5f71dade2a0ae7f07c5535e561dcff4ac1a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:29 +0000
Subject: [PATCH 32/32] fix: read lines of any length

---
 idsearcher/idsearcher.go  | 3 +++
 tagvalue/reader/reader.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index d05139b..75245bd 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -7,6 +7,7 @@ package idsearcher
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -153,6 +154,8 @@ func searchFileIDs(filePath string) ([]string, error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	// a line may have any length
+	scanner.Buffer(nil, math.MaxInt)
 
 	for scanner.Scan() {
 		if strings.Contains(scanner.Text(), "SPDX-License-Identifier:") {
diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..4858aee 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// a line may have any length
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0

