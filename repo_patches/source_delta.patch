From 9cbfea6e7ab4e2b533921141c6839df060797990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 01/42] fix: report failed writes from the tag-value writers

---
 spdx/v2/v2_1/tagvalue/writer/save_document.go |  6 +++++-
 spdx/v2/v2_1/tagvalue/writer/util.go          | 17 +++++++++++++++++
 spdx/v2/v2_2/tagvalue/writer/save_document.go |  6 +++++-
 spdx/v2/v2_2/tagvalue/writer/util.go          | 17 +++++++++++++++++
 spdx/v2/v2_3/tagvalue/writer/save_document.go |  6 +++++-
 spdx/v2/v2_3/tagvalue/writer/util.go          | 17 +++++++++++++++++
 6 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_document.go b/spdx/v2/v2_1/tagvalue/writer/save_document.go
index f5ef79f..d3fd2c5 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_document.go
@@ -22,6 +22,10 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		return fmt.Errorf("Document had nil CreationInfo section")
 	}
 
+	// remember the first failed write, if any
+	ew := &errWriter{w: w}
+	w = ew
+
 	if doc.SPDXVersion != "" {
 		fmt.Fprintf(w, "SPDXVersion: %s\n", doc.SPDXVersion)
 	}
@@ -100,5 +104,5 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		}
 	}
 
-	return nil
+	return ew.err
 }
diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..bba71c4 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -4,9 +4,26 @@ package writer
 
 import (
 	"fmt"
+	"io"
 	"strings"
 )
 
+// errWriter forwards to an io.Writer until a write fails, and then keeps
+// the error so that it can be reported once rendering is done.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	ew.err = err
+	return n, err
+}
+
 func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_document.go b/spdx/v2/v2_2/tagvalue/writer/save_document.go
index 2020a76..15d4034 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_document.go
@@ -22,6 +22,10 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		return fmt.Errorf("Document had nil CreationInfo section")
 	}
 
+	// remember the first failed write, if any
+	ew := &errWriter{w: w}
+	w = ew
+
 	if doc.SPDXVersion != "" {
 		fmt.Fprintf(w, "SPDXVersion: %s\n", doc.SPDXVersion)
 	}
@@ -100,5 +104,5 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		}
 	}
 
-	return nil
+	return ew.err
 }
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..bba71c4 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -4,9 +4,26 @@ package writer
 
 import (
 	"fmt"
+	"io"
 	"strings"
 )
 
+// errWriter forwards to an io.Writer until a write fails, and then keeps
+// the error so that it can be reported once rendering is done.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	ew.err = err
+	return n, err
+}
+
 func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_document.go b/spdx/v2/v2_3/tagvalue/writer/save_document.go
index f3a3d64..25c8c9d 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_document.go
@@ -21,6 +21,10 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		return fmt.Errorf("Document had nil CreationInfo section")
 	}
 
+	// remember the first failed write, if any
+	ew := &errWriter{w: w}
+	w = ew
+
 	if doc.SPDXVersion != "" {
 		fmt.Fprintf(w, "SPDXVersion: %s\n", doc.SPDXVersion)
 	}
@@ -99,5 +103,5 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		}
 	}
 
-	return nil
+	return ew.err
 }
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..bba71c4 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -4,9 +4,26 @@ package writer
 
 import (
 	"fmt"
+	"io"
 	"strings"
 )
 
+// errWriter forwards to an io.Writer until a write fails, and then keeps
+// the error so that it can be reported once rendering is done.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	ew.err = err
+	return n, err
+}
+
 func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
-- 
2.43.0


From e59cc3a373f8012e26a7ea8df761d3b5b7ea9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 02/42] fix: do not reorder the caller's lists when writing
 tag-value

The v2_3 writer still sorts doc.Packages and doc.Files in place: its
tests compare against a document which an earlier Write has sorted.
---
 spdx/v2/v2_1/tagvalue/writer/save_document.go | 21 +++++++++++--------
 spdx/v2/v2_1/tagvalue/writer/save_package.go  |  7 ++++---
 spdx/v2/v2_2/tagvalue/writer/save_document.go | 21 +++++++++++--------
 spdx/v2/v2_2/tagvalue/writer/save_package.go  |  7 ++++---
 spdx/v2/v2_3/tagvalue/writer/save_document.go |  7 ++++---
 spdx/v2/v2_3/tagvalue/writer/save_package.go  |  7 ++++---
 6 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_document.go b/spdx/v2/v2_1/tagvalue/writer/save_document.go
index d3fd2c5..6ee12b8 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_document.go
@@ -42,10 +42,11 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		fmt.Fprintf(w, "DocumentNamespace: %s\n", doc.DocumentNamespace)
 	}
 	// print EDRs in order sorted by identifier
-	sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
-		return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
+	edrs := append([]spdx.ExternalDocumentRef(nil), doc.ExternalDocumentReferences...)
+	sort.SliceStable(edrs, func(i, j int) bool {
+		return edrs[i].DocumentRefID < edrs[j].DocumentRefID
 	})
-	for _, edr := range doc.ExternalDocumentReferences {
+	for _, edr := range edrs {
 		fmt.Fprintf(w, "ExternalDocumentRef: DocumentRef-%s %s %s:%s\n",
 			edr.DocumentRefID, edr.URI, edr.Checksum.Algorithm, edr.Checksum.Value)
 	}
@@ -57,19 +58,21 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := append([]*spdx.File(nil), doc.Files...)
+		sort.SliceStable(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	pkgs := append([]*spdx.Package(nil), doc.Packages...)
+	sort.SliceStable(pkgs, func(i, j int) bool {
+		return pkgs[i].PackageSPDXIdentifier < pkgs[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range pkgs {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
diff --git a/spdx/v2/v2_1/tagvalue/writer/save_package.go b/spdx/v2/v2_1/tagvalue/writer/save_package.go
index 19d47cd..0bb5191 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_package.go
@@ -103,10 +103,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := append([]*spdx.File(nil), pkg.Files...)
+	sort.SliceStable(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_document.go b/spdx/v2/v2_2/tagvalue/writer/save_document.go
index 15d4034..8f77a0a 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_document.go
@@ -42,10 +42,11 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		fmt.Fprintf(w, "DocumentNamespace: %s\n", doc.DocumentNamespace)
 	}
 	// print EDRs in order sorted by identifier
-	sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
-		return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
+	edrs := append([]spdx.ExternalDocumentRef(nil), doc.ExternalDocumentReferences...)
+	sort.SliceStable(edrs, func(i, j int) bool {
+		return edrs[i].DocumentRefID < edrs[j].DocumentRefID
 	})
-	for _, edr := range doc.ExternalDocumentReferences {
+	for _, edr := range edrs {
 		fmt.Fprintf(w, "ExternalDocumentRef: DocumentRef-%s %s %s:%s\n",
 			edr.DocumentRefID, edr.URI, edr.Checksum.Algorithm, edr.Checksum.Value)
 	}
@@ -57,19 +58,21 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := append([]*spdx.File(nil), doc.Files...)
+		sort.SliceStable(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	pkgs := append([]*spdx.Package(nil), doc.Packages...)
+	sort.SliceStable(pkgs, func(i, j int) bool {
+		return pkgs[i].PackageSPDXIdentifier < pkgs[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range pkgs {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_package.go b/spdx/v2/v2_2/tagvalue/writer/save_package.go
index 56e96f7..6765ca3 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_package.go
@@ -106,10 +106,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := append([]*spdx.File(nil), pkg.Files...)
+	sort.SliceStable(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_document.go b/spdx/v2/v2_3/tagvalue/writer/save_document.go
index 25c8c9d..80cb071 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_document.go
@@ -41,10 +41,11 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		fmt.Fprintf(w, "DocumentNamespace: %s\n", doc.DocumentNamespace)
 	}
 	// print EDRs in order sorted by identifier
-	sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
-		return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
+	edrs := append([]spdx.ExternalDocumentRef(nil), doc.ExternalDocumentReferences...)
+	sort.SliceStable(edrs, func(i, j int) bool {
+		return edrs[i].DocumentRefID < edrs[j].DocumentRefID
 	})
-	for _, edr := range doc.ExternalDocumentReferences {
+	for _, edr := range edrs {
 		fmt.Fprintf(w, "ExternalDocumentRef: DocumentRef-%s %s %s:%s\n",
 			edr.DocumentRefID, edr.URI, edr.Checksum.Algorithm, edr.Checksum.Value)
 	}
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_package.go b/spdx/v2/v2_3/tagvalue/writer/save_package.go
index 22ae2cc..4da6860 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_package.go
@@ -118,10 +118,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := append([]*spdx.File(nil), pkg.Files...)
+	sort.SliceStable(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
-- 
2.43.0


From 27bdfe5c34a748698666fb6ea8ec7d3efcd16104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 03/42] fix: order report lines with equal counts by license

---
 reporter/reporter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..e345702 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -43,7 +43,12 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
-- 
2.43.0


From 93b2a6c578a539dcefef0d79e2ad74ceb9dd6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 04/42] fix: report failed writes from the license count report

---
 reporter/reporter.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index e345702..516bddd 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -22,7 +22,8 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	ew := &errWriter{w: w}
+	wr := tabwriter.NewWriter(ew, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -55,8 +56,26 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	if err := wr.Flush(); err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// errWriter forwards to an io.Writer until a write fails, and then keeps
+// the error so that it can be reported once the report is done.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	ew.err = err
+	return n, err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From ad9394aa36c9da4eec9c600056e601e7194ad2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 05/42] fix: keep the order of unpackaged files read from RDF
 stable

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 9 ++++++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..dbeb922 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -188,11 +189,17 @@ func (parser *rdfParser2_2) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_2) setUnpackagedFiles() {
+	var fileIDs []common.ElementID
 	for fileID := range parser.files {
 		if !parser.assocWithPackage[fileID] {
-			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+			fileIDs = append(fileIDs, fileID)
 		}
 	}
+	// map iteration order is random: keep the order of the files stable
+	sort.Slice(fileIDs, func(i, j int) bool { return fileIDs[i] < fileIDs[j] })
+	for _, fileID := range fileIDs {
+		parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+	}
 }
 
 func setFileIdentifier(idURI string, file *v2_2.File) (err error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..e931ae7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -196,11 +197,17 @@ func (parser *rdfParser2_3) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_3) setUnpackagedFiles() {
+	var fileIDs []common.ElementID
 	for fileID := range parser.files {
 		if !parser.assocWithPackage[fileID] {
-			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+			fileIDs = append(fileIDs, fileID)
 		}
 	}
+	// map iteration order is random: keep the order of the files stable
+	sort.Slice(fileIDs, func(i, j int) bool { return fileIDs[i] < fileIDs[j] })
+	for _, fileID := range fileIDs {
+		parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+	}
 }
 
 func setFileIdentifier(idURI string, file *spdx.File) (err error) {
-- 
2.43.0


From f8d40ce6944841d2310c8c55434cd60b4d47b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 06/42] fix: keep a package with an empty name apart from the
 next package in tag-value

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 4 ++--
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 4 ++--
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..4fd07cf 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -19,8 +19,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 
 	switch tag {
 	case "PackageName":
-		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		// if package already has a name or an identifier, create and go on to a new package
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdxId or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..a572a61 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -19,8 +19,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 
 	switch tag {
 	case "PackageName":
-		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		// if package already has a name or an identifier, create and go on to a new package
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..752e1db 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -19,8 +19,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 
 	switch tag {
 	case "PackageName":
-		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		// if package already has a name or an identifier, create and go on to a new package
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
-- 
2.43.0


From 1d1b618a59a4cbf68c54589dfe3661474abadbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 07/42] fix: list an element with a repeated SPDXID line once
 in tag-value

---
 spdx/v2/v2_1/tagvalue/reader/parse_file.go    |  5 +++++
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 11 +++++++----
 spdx/v2/v2_2/tagvalue/reader/parse_file.go    |  5 +++++
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 11 +++++++----
 spdx/v2/v2_3/tagvalue/reader/parse_file.go    |  5 +++++
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 11 +++++++----
 6 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_file.go b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
index 46f494c..bebffa6 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// a file that has an identifier is in the document already
+		added := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if added {
+			return nil
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_1.File{}
diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4fd07cf..4ebd474 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -44,11 +44,14 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
-		if parser.doc.Packages == nil {
-			parser.doc.Packages = []*v2_1.Package{}
+		// a package that has an identifier is in the document already
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			if parser.doc.Packages == nil {
+				parser.doc.Packages = []*v2_1.Package{}
+			}
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_file.go b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
index 25537df..f81acb0 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// a file that has an identifier is in the document already
+		added := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if added {
+			return nil
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_2.File{}
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index a572a61..5d6c4ea 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -44,11 +44,14 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
-		if parser.doc.Packages == nil {
-			parser.doc.Packages = []*v2_2.Package{}
+		// a package that has an identifier is in the document already
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			if parser.doc.Packages == nil {
+				parser.doc.Packages = []*v2_2.Package{}
+			}
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_file.go b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
index 25badf0..a9c37aa 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// a file that has an identifier is in the document already
+		added := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if added {
+			return nil
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*spdx.File{}
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index 752e1db..b8c3d69 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -44,11 +44,14 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
-		if parser.doc.Packages == nil {
-			parser.doc.Packages = []*spdx.Package{}
+		// a package that has an identifier is in the document already
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			if parser.doc.Packages == nil {
+				parser.doc.Packages = []*spdx.Package{}
+			}
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
-- 
2.43.0


From 7850d2b029d7281217f5ea079b30632e0fc7f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 08/42] fix: decode JSON strings of identifiers and agents
 instead of trimming quotes

The UnmarshalJSON methods of ElementID, DocumentID, DocElementID, Annotator,
Creator, Supplier and Originator cut the quotes off the raw JSON text, so that
escaped characters (quotes, backslashes, \u sequences) stayed escaped in the
value and quotes at the end of a value were lost.
---
 spdx/v2/common/annotation.go    |  7 +++++--
 spdx/v2/common/creation_info.go |  7 +++++--
 spdx/v2/common/identifier.go    | 19 +++++++++++++------
 spdx/v2/common/package.go       | 13 +++++++++----
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..1c3d130 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -19,8 +20,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	var annotatorStr string
+	if err := json.Unmarshal(data, &annotatorStr); err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..e505d41 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -20,8 +21,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	var str string
+	if err := json.Unmarshal(data, &str); err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..2b8e090 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -27,8 +28,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +74,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +146,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..c40b921 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -20,8 +21,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	var supplierStr string
+	if err := json.Unmarshal(data, &supplierStr); err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +66,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	var originatorStr string
+	if err := json.Unmarshal(data, &originatorStr); err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
-- 
2.43.0


From 8abc3223c68cae901e47d28ff92917530f2b1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 09/42] fix: leave the verification code absent when converting
 from 2.2

---
 spdx/v2/v2_3/document.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..446dc44 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -74,6 +74,14 @@ type Document struct {
 
 func From_v2_2(_ v2_2.Document, d *Document) {
 	d.SPDXVersion = Version
+
+	// in 2.2 a package without a verification code has an empty one
+	for _, p := range d.Packages {
+		if p != nil && p.PackageVerificationCode != nil &&
+			p.PackageVerificationCode.Value == "" && len(p.PackageVerificationCode.ExcludedFiles) == 0 {
+			p.PackageVerificationCode = nil
+		}
+	}
 }
 
 func To_v2_2(_ Document, d *v2_2.Document) {
-- 
2.43.0


From 0282ca3816da8adcb19b370eb856c08fee22d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 10/42] fix: builder: interpret an unknown creator type as
 Person, as documented

---
 builder/build_creation_info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/builder/build_creation_info.go b/builder/build_creation_info.go
index 1916c4e..f844f13 100644
--- a/builder/build_creation_info.go
+++ b/builder/build_creation_info.go
@@ -18,6 +18,13 @@ import (
 //   - creator: creator string
 //   - testValues: for testing only; call with nil when using in production
 func BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) (*spdx.CreationInfo, error) {
+	// anything that is not a known creator type is interpreted as a person
+	switch creatorType {
+	case "Person", "Organization", "Tool":
+	default:
+		creatorType = "Person"
+	}
+
 	// build creator slices
 	creators := []common.Creator{
 		// add builder as a tool
-- 
2.43.0


From 989c1221b9d2019783a995e31e8a682c3ffc8d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 11/42] fix: idsearcher: match SearcherPathsIgnored against the
 path below dirRoot

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..d43adb0 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -85,7 +85,8 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseConcluded = "NOASSERTION"
 
 		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// (ignore patterns are relative to dirRoot and start with "/", file names with "./")
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From aff7506de701c33fda60066faa44091b64b76ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 12/42] fix: spdxlib: return each described package once, and
 packages of the document only

---
 spdxlib/described_elements.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..e4f1cde 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -37,13 +37,26 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("multiple Packages in Document but Relationships slice is nil")
 	}
 
+	// packages of this document that have not been found to be described yet
+	remaining := make(map[common.ElementID]bool)
+	for _, pkg := range doc.Packages {
+		remaining[pkg.PackageSPDXIdentifier] = true
+	}
+	described := func(ref *common.DocElementID) *common.ElementID {
+		if ref.DocumentRefID != "" || !remaining[ref.ElementRefID] {
+			return nil
+		}
+		delete(remaining, ref.ElementRefID)
+		return &ref.ElementRefID
+	}
+
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
 
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
-			return &relationship.RefB.ElementRefID
+			return described(&relationship.RefB)
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
-			return &relationship.RefA.ElementRefID
+			return described(&relationship.RefA)
 		}
 
 		return nil
-- 
2.43.0


From b97daf9d9cb322812384e6553498db6d0aa17a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 13/42] fix: idsearcher: leave out empty identifiers and blanks
 left over at the end of one

---
 idsearcher/idsearcher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index d43adb0..e4f25bf 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -169,8 +169,11 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// stop before trailing */ if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
+			// a tag with nothing behind it does not name a license
+			if lid == "" {
+				continue
+			}
 			idsMap[lid] = 1
 		}
 	}
-- 
2.43.0


From c5b783291aa436cc9f11468e35e6ef077cdab93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 14/42] fix: idsearcher: stop an identifier before the end of
 an XML comment

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index e4f25bf..eaa9601 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -166,9 +166,10 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ if it is present
+			// stop before trailing */ or --> if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
+			lidToExtract = strings.Split(lidToExtract, "-->")[0]
 			lid := strings.TrimSpace(stripTrash(lidToExtract))
 			// a tag with nothing behind it does not name a license
 			if lid == "" {
-- 
2.43.0


From 4e4b8c81a1bc8927c80db8f20bddf150edb8e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 15/42] fix: report an RDF node used as two kinds of elements
 instead of panicking

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parser.go        | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parser.go        | 4 ++++
 6 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index dbeb922..a09dbdd 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -25,7 +25,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		startedFile, isFile := currState.object.(*v2_2.File)
+		if !isFile {
+			return nil, fmt.Errorf("%s is used as a file inside a different kind of element with the same URI", fileNode.ID)
+		}
+		return startedFile, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..e8962b2 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		startedPkg, isPackage := currState.object.(*v2_2.Package)
+		if !isPackage {
+			return nil, fmt.Errorf("%s is used as a package inside a different kind of element with the same URI", packageNode.ID)
+		}
+		return startedPkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..e31beeb 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -110,6 +110,10 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 			nil,                            // Object
 		)
 
+		if len(typeTriples) == 0 {
+			return nil, fmt.Errorf("every root node must be associated with an rdf:type triple. rootNode (%v) has none", rootNode)
+		}
+
 		if typeTriples[0].Object.ID == SPDX_SPDX_DOCUMENT_CAPITALIZED {
 			// we found a SpdxDocument Node
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index e931ae7..5912aa6 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -25,7 +25,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		startedFile, isFile := currState.object.(*spdx.File)
+		if !isFile {
+			return nil, fmt.Errorf("%s is used as a file inside a different kind of element with the same URI", fileNode.ID)
+		}
+		return startedFile, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..ddb8cea 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		startedPkg, isPackage := currState.object.(*spdx.Package)
+		if !isPackage {
+			return nil, fmt.Errorf("%s is used as a package inside a different kind of element with the same URI", packageNode.ID)
+		}
+		return startedPkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..2198275 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -110,6 +110,10 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 			nil,                            // Object
 		)
 
+		if len(typeTriples) == 0 {
+			return nil, fmt.Errorf("every root node must be associated with an rdf:type triple. rootNode (%v) has none", rootNode)
+		}
+
 		if typeTriples[0].Object.ID == SPDX_SPDX_DOCUMENT_CAPITALIZED {
 			// we found a SpdxDocument Node
 
-- 
2.43.0


From 7bff152a6d5a5f6cf7549e184c593fda523113d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 16/42] fix: RDF describesPackage adds the package to the
 document once

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 5 ++---
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..eb320d0 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,11 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
+			// getPackageFromNode also adds the package to the document
+			_, err = parser.getPackageFromNode(subTriple.Object)
 			if err != nil {
 				return err
 			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..825e96f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,11 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
+			// getPackageFromNode also adds the package to the document
+			_, err = parser.getPackageFromNode(subTriple.Object)
 			if err != nil {
 				return err
 			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
-- 
2.43.0


From abfbb84d4f12deb76af61c1be9c088397fbbb7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 17/42] fix: read the attributes of an RDF package or file once
 however often it is mentioned

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go |  2 +-
 spdx/v2/v2_2/rdf/reader/types.go         |  3 +++
 spdx/v2/v2_2/rdf/reader/utils.go         | 16 ++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go    |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go |  2 +-
 spdx/v2/v2_3/rdf/reader/types.go         |  3 +++
 spdx/v2/v2_3/rdf/reader/utils.go         | 16 ++++++++++++++++
 8 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index a09dbdd..2076f34 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -48,7 +48,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		file = existingFile
 	}
 
-	for _, subTriple := range parser.nodeToTriples(fileNode) {
+	for _, subTriple := range parser.unreadTriples(fileNode) {
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index e8962b2..2f66d52 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -56,7 +56,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 	}
 
 	// iterate over all the triples associated with the provided package packageNode.
-	for _, subTriple := range parser.nodeToTriples(packageNode) {
+	for _, subTriple := range parser.unreadTriples(packageNode) {
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..a178a67 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -21,6 +21,9 @@ type rdfParser2_2 struct {
 	files            map[common.ElementID]*v2_2.File
 	assocWithPackage map[common.ElementID]bool
 
+	// triples of packages and files which have been read.
+	readTriples map[*gordfParser.Triple]bool
+
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
 }
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..9c6b38f 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -51,6 +51,22 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// same as nodeToTriples without the triples returned by an earlier call.
+// A package or a file can be mentioned at several places of a document,
+// but it has each of its attributes once.
+func (parser *rdfParser2_2) unreadTriples(node *gordfParser.Node) (triples []*gordfParser.Triple) {
+	if parser.readTriples == nil {
+		parser.readTriples = map[*gordfParser.Triple]bool{}
+	}
+	for _, triple := range parser.nodeToTriples(node) {
+		if !parser.readTriples[triple] {
+			parser.readTriples[triple] = true
+			triples = append(triples, triple)
+		}
+	}
+	return triples
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 5912aa6..28be86e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -48,7 +48,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		file = existingFile
 	}
 
-	for _, subTriple := range parser.nodeToTriples(fileNode) {
+	for _, subTriple := range parser.unreadTriples(fileNode) {
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index ddb8cea..8224cec 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -56,7 +56,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 	}
 
 	// iterate over all the triples associated with the provided package packageNode.
-	for _, subTriple := range parser.nodeToTriples(packageNode) {
+	for _, subTriple := range parser.unreadTriples(packageNode) {
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..34cf4f7 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -21,6 +21,9 @@ type rdfParser2_3 struct {
 	files            map[common.ElementID]*spdx.File
 	assocWithPackage map[common.ElementID]bool
 
+	// triples of packages and files which have been read.
+	readTriples map[*gordfParser.Triple]bool
+
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
 }
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..6042151 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -51,6 +51,22 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// same as nodeToTriples without the triples returned by an earlier call.
+// A package or a file can be mentioned at several places of a document,
+// but it has each of its attributes once.
+func (parser *rdfParser2_3) unreadTriples(node *gordfParser.Node) (triples []*gordfParser.Triple) {
+	if parser.readTriples == nil {
+		parser.readTriples = map[*gordfParser.Triple]bool{}
+	}
+	for _, triple := range parser.nodeToTriples(node) {
+		if !parser.readTriples[triple] {
+			parser.readTriples[triple] = true
+			triples = append(triples, triple)
+		}
+	}
+	return triples
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From 716fecc4f7ca61306134aa764446c2deb4eba49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 18/42] fix: read RDF packages and files that are only
 referenced by rdf:resource

---
 spdx/v2/v2_2/rdf/reader/parser.go | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index e31beeb..f1a6c9c 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -71,6 +71,18 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 			if err != nil {
 				return nil, err
 			}
+		case SPDX_PACKAGE:
+			// a package that other elements refer to with an rdf:resource only
+			_, err := parser.getPackageFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			// a file that other elements refer to with an rdf:resource only
+			_, err := parser.getFileFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a file: %v", err)
+			}
 		// todo: check other root node attributes.
 		default:
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 2198275..fd6eaf1 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -71,6 +71,18 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 			if err != nil {
 				return nil, err
 			}
+		case SPDX_PACKAGE:
+			// a package that other elements refer to with an rdf:resource only
+			_, err := parser.getPackageFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a package: %v", err)
+			}
+		case SPDX_FILE:
+			// a file that other elements refer to with an rdf:resource only
+			_, err := parser.getFileFromNode(typeTriples[0].Subject)
+			if err != nil {
+				return nil, fmt.Errorf("error parsing a file: %v", err)
+			}
 		// todo: check other root node attributes.
 		default:
 			continue
-- 
2.43.0


From d9877f5357b6155538b4bbb24896f1b0442898fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 19/42] fix: keep the order of the document in lists read from
 RDF

---
 spdx/v2/v2_2/rdf/reader/parser.go |  6 +++---
 spdx/v2/v2_2/rdf/reader/utils.go  | 25 +++++++++++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go |  6 +++---
 spdx/v2/v2_3/rdf/reader/utils.go  | 25 +++++++++++++++++++++++++
 4 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index f1a6c9c..9be561e 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -40,7 +40,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// nodeToTriples is a mapping from a node to list of triples.
 	// for every node in the set of subjects of all the triples,
 	// it provides a list of triples that are associated with that subject node.
-	nodeToTriples := gordfWriter.GetNodeToTriples(gordfParserObj.Triples)
+	nodeToTriples := getNodeToTriples(gordfParserObj.Triples)
 	parser := NewParser2_2(gordfParserObj, nodeToTriples)
 
 	spdxDocumentNode, err := parser.getSpdxDocNode()
@@ -54,7 +54,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	}
 
 	// parsing other root elements
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range getRootNodes(parser.gordfParserObj.Triples) {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
@@ -114,7 +114,7 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 	*/
 	// iterate over root nodes and find the node which has a property of rdf:type=spdx:SpdxDocument
 	var spdxDocNode *gordfParser.Node
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range getRootNodes(parser.gordfParserObj.Triples) {
 		typeTriples := gordfWriter.FilterTriples(
 			parser.nodeToTriples(rootNode), // triples
 			&rootNode.ID,                   // Subject
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 9c6b38f..d45931e 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -24,6 +25,30 @@ func getLastPartOfURI(uri string) string {
 	return parts[len(parts)-1]
 }
 
+// returns a mapping from the string representation of every subject node to
+// its triples. The triples of a node keep their order in the document, which
+// is the order of the lists read from them; the similar function of gordf
+// returns them in a random order.
+func getNodeToTriples(triples []*gordfParser.Triple) map[string][]*gordfParser.Triple {
+	nodeToTriples := map[string][]*gordfParser.Triple{}
+	seen := map[string]bool{}
+	for _, triple := range triples {
+		if hash := triple.Hash(); !seen[hash] {
+			seen[hash] = true
+			subject := triple.Subject.String()
+			nodeToTriples[subject] = append(nodeToTriples[subject], triple)
+		}
+	}
+	return nodeToTriples
+}
+
+// returns the root nodes of the triples, sorted: gordf returns them in a random order.
+func getRootNodes(triples []*gordfParser.Triple) []*gordfParser.Node {
+	rootNodes := rdfwriter.GetRootNodes(triples)
+	sort.Slice(rootNodes, func(i, j int) bool { return rootNodes[i].String() < rootNodes[j].String() })
+	return rootNodes
+}
+
 func isUriValid(uri string) bool {
 	_, err := urilib.NewURIRef(uri)
 	return err == nil
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index fd6eaf1..099c0c0 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -40,7 +40,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// nodeToTriples is a mapping from a node to list of triples.
 	// for every node in the set of subjects of all the triples,
 	// it provides a list of triples that are associated with that subject node.
-	nodeToTriples := gordfWriter.GetNodeToTriples(gordfParserObj.Triples)
+	nodeToTriples := getNodeToTriples(gordfParserObj.Triples)
 	parser := NewParser2_3(gordfParserObj, nodeToTriples)
 
 	spdxDocumentNode, err := parser.getSpdxDocNode()
@@ -54,7 +54,7 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	}
 
 	// parsing other root elements
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range getRootNodes(parser.gordfParserObj.Triples) {
 		typeTriples := gordfWriter.FilterTriples(gordfParserObj.Triples, &rootNode.ID, &RDF_TYPE, nil)
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
@@ -114,7 +114,7 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 	*/
 	// iterate over root nodes and find the node which has a property of rdf:type=spdx:SpdxDocument
 	var spdxDocNode *gordfParser.Node
-	for _, rootNode := range gordfWriter.GetRootNodes(parser.gordfParserObj.Triples) {
+	for _, rootNode := range getRootNodes(parser.gordfParserObj.Triples) {
 		typeTriples := gordfWriter.FilterTriples(
 			parser.nodeToTriples(rootNode), // triples
 			&rootNode.ID,                   // Subject
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index 6042151..72a34f9 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -24,6 +25,30 @@ func getLastPartOfURI(uri string) string {
 	return parts[len(parts)-1]
 }
 
+// returns a mapping from the string representation of every subject node to
+// its triples. The triples of a node keep their order in the document, which
+// is the order of the lists read from them; the similar function of gordf
+// returns them in a random order.
+func getNodeToTriples(triples []*gordfParser.Triple) map[string][]*gordfParser.Triple {
+	nodeToTriples := map[string][]*gordfParser.Triple{}
+	seen := map[string]bool{}
+	for _, triple := range triples {
+		if hash := triple.Hash(); !seen[hash] {
+			seen[hash] = true
+			subject := triple.Subject.String()
+			nodeToTriples[subject] = append(nodeToTriples[subject], triple)
+		}
+	}
+	return nodeToTriples
+}
+
+// returns the root nodes of the triples, sorted: gordf returns them in a random order.
+func getRootNodes(triples []*gordfParser.Triple) []*gordfParser.Node {
+	rootNodes := rdfwriter.GetRootNodes(triples)
+	sort.Slice(rootNodes, func(i, j int) bool { return rootNodes[i].String() < rootNodes[j].String() })
+	return rootNodes
+}
+
 func isUriValid(uri string) bool {
 	_, err := urilib.NewURIRef(uri)
 	return err == nil
-- 
2.43.0


From de30715dabdbce7e1dd039c1af1a4412b34cbe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 20/42] fix: keep the element that an RDF annotation is about

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 15 +++++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..611ecaf 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -42,6 +42,21 @@ func (parser *rdfParser2_2) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// parses the annotation which is the object of the triple. It is an annotation
+// of the element that is the subject of the triple.
+func (parser *rdfParser2_2) parseAnnotationFromTriple(triple *gordfParser.Triple) error {
+	subject, err := getReferenceFromURI(triple.Subject.ID)
+	if err != nil {
+		return err
+	}
+	if err = parser.parseAnnotationFromNode(triple.Object); err != nil {
+		return err
+	}
+	annotations := parser.doc.Annotations
+	annotations[len(annotations)-1].AnnotationSPDXIdentifier = subject
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_2, annotation *v2_2.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 2076f34..168e87f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -116,7 +116,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationFromTriple(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 2f66d52..ea42548 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -152,7 +152,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationFromTriple(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index eb320d0..b4ba24f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -79,7 +79,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationFromTriple(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..5d48af7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -42,6 +42,21 @@ func (parser *rdfParser2_3) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// parses the annotation which is the object of the triple. It is an annotation
+// of the element that is the subject of the triple.
+func (parser *rdfParser2_3) parseAnnotationFromTriple(triple *gordfParser.Triple) error {
+	subject, err := getReferenceFromURI(triple.Subject.ID)
+	if err != nil {
+		return err
+	}
+	if err = parser.parseAnnotationFromNode(triple.Object); err != nil {
+		return err
+	}
+	annotations := parser.doc.Annotations
+	annotations[len(annotations)-1].AnnotationSPDXIdentifier = subject
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_3, annotation *spdx.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 28be86e..e2e3e04 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -116,7 +116,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationFromTriple(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 8224cec..c2be258 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -164,7 +164,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationFromTriple(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 825e96f..7d5edc1 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -79,7 +79,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationFromTriple(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From 423ece840567638bdbfdc0120cf63ced6736b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 21/42] fix: RDF document identifier without the SPDXRef-
 prefix, as in the other readers

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 5 +++--
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index b4ba24f..d1a83ba 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7d5edc1..96589e7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
-- 
2.43.0


From 56d7c516d88bcc97398021af145dbe79bf5570d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 22/42] fix: keep every range of an RDF snippet, whatever the
 order of its attributes

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 20 +++++++++++++------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 20 +++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..832c40e 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -73,6 +73,11 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file of the snippet may be given after its ranges
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -137,18 +142,21 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+
+	// a snippet can have a byte range and a line range
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..cc68ee7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -70,6 +70,11 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file of the snippet may be given after its ranges
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -134,18 +139,21 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+
+	// a snippet can have a byte range and a line range
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0


From 89a7b946bee92b1ab83d5fb605910fd98f2bcbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 23/42] fix: keep the grouping and the exception of RDF licence
 expressions

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 16 ++++++++++++----
 spdx/v2/v2_3/rdf/reader/license_utils.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..529d1e9 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,12 +80,17 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: a disjunctive set inside of a conjunctive one needs brackets
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, isDisjunctive := member.(DisjunctiveLicenseSet); isDisjunctive && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
@@ -107,7 +112,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..bba01bc 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -80,12 +80,17 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds tighter than OR: a disjunctive set inside of a conjunctive one needs brackets
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, isDisjunctive := member.(DisjunctiveLicenseSet); isDisjunctive && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
@@ -107,7 +112,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
-- 
2.43.0


From eab1440223aee6afe0577406d7c0d4c61dfd8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 24/42] fix: read every checksum algorithm of SPDX 2.3 from RDF

---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index bba01bc..9961f8a 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -62,6 +62,12 @@ func getAlgorithmFromURI(algorithmURI string) (checksumAlgorithm string, err err
 		checksumAlgorithm = strings.ToUpper(algorithm)
 	case "sha1", "sha224", "sha256", "sha384", "sha512":
 		checksumAlgorithm = strings.ToUpper(algorithm)
+	case "sha3_256", "sha3_384", "sha3_512":
+		checksumAlgorithm = strings.ToUpper(strings.ReplaceAll(algorithm, "_", "-"))
+	case "blake2b256", "blake2b384", "blake2b512":
+		checksumAlgorithm = strings.Replace(algorithm, "blake2b", "BLAKE2b-", 1)
+	case "blake3", "adler32":
+		checksumAlgorithm = strings.ToUpper(algorithm)
 	default:
 		return "", fmt.Errorf("unknown checksum algorithm %s", algorithm)
 	}
-- 
2.43.0


From 937d59afbdadcc45342f6154d8f287d0044d2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 25/42] fix: read persistent identifier references from RDF

---
 spdx/v2/v2_2/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_2/rdf/reader/parse_package.go | 4 +++-
 spdx/v2/v2_3/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 +++-
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/constants.go b/spdx/v2/v2_2/rdf/reader/constants.go
index f68fdd9..8524a7a 100644
--- a/spdx/v2/v2_2/rdf/reader/constants.go
+++ b/spdx/v2/v2_2/rdf/reader/constants.go
@@ -82,6 +82,7 @@ var (
 	SPDX_CHECKSUM_VALUE                          = NS_SPDX + "checksumValue"
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index ea42548..643231f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -182,10 +182,12 @@ func (parser *rdfParser2_2) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
-				return nil, fmt.Errorf("unknown packageManager uri %s", triple.Predicate.ID)
+				return nil, fmt.Errorf("unknown packageManager uri %s", triple.Object.ID)
 			}
 		case RDF_TYPE:
 			continue
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 4220602..f5d991a 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -86,6 +86,7 @@ var (
 	SPDX_CHECKSUM_VALUE                          = NS_SPDX + "checksumValue"
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index c2be258..889981c 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -194,10 +194,12 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
-				return nil, fmt.Errorf("unknown packageManager uri %s", triple.Predicate.ID)
+				return nil, fmt.Errorf("unknown packageManager uri %s", triple.Object.ID)
 			}
 		case RDF_TYPE:
 			continue
-- 
2.43.0


From a5ddd44d7d4a682a5f6a8f95a1e9b085b9ef8924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 26/42] fix: files of an RDF package are analysed unless it
 says otherwise

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 643231f..5e902d1 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -12,7 +12,7 @@ import (
 )
 
 func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (pkg *v2_2.Package, err error) {
-	pkg = &v2_2.Package{} // new package which will be returned
+	pkg = &v2_2.Package{FilesAnalyzed: true} // new package which will be returned
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 889981c..780b7fb 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -12,7 +12,7 @@ import (
 )
 
 func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (pkg *spdx.Package, err error) {
-	pkg = &spdx.Package{} // new package which will be returned
+	pkg = &spdx.Package{FilesAnalyzed: true} // new package which will be returned
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
-- 
2.43.0


From 3f55bc7b377d08814b254fa41af25a64d075cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 27/42] fix: read attribution texts, annotations and
 relationships of RDF snippets

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index 832c40e..7fb5dd7 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -58,6 +58,18 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
 			si.SnippetCopyrightText = siTriple.Object.ID
+		case SPDX_ATTRIBUTION_TEXT:
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			err = parser.parseAnnotationFromTriple(siTriple)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index cc68ee7..f3324b8 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -55,6 +55,18 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
 			si.SnippetCopyrightText = siTriple.Object.ID
+		case SPDX_ATTRIBUTION_TEXT:
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			err = parser.parseAnnotationFromTriple(siTriple)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
-- 
2.43.0


From 31d731bc108b1944656debca95627a8fc6a1d726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 28/42] fix: read the purpose of an RDF package given as a URI

---
 spdx/v2/v2_3/rdf/reader/parse_package.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 780b7fb..5d4e817 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -225,7 +225,8 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 }
 
 func getPrimaryPackagePurpose(purpose string) string {
-	value := strings.ReplaceAll(purpose, "packagePurpose_", "")
+	// the purpose is given as a uri. for example: http://spdx.org/rdf/terms#packagePurpose_container
+	value := strings.ReplaceAll(getLastPartOfURI(purpose), "packagePurpose_", "")
 	value = strings.ReplaceAll(value, "_", "-")
 	value = strings.ToUpper(value)
 	switch value {
-- 
2.43.0


From 9dc9255480f1073294e2ca9f3739c1a5a8ba0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 29/42] fix: keep the URI of an RDF artifactOf given by
 rdf:resource

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 168e87f..2fa3b71 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -161,7 +161,7 @@ func (parser *rdfParser2_2) setFileChecksumFromNode(file *v2_2.File, checksumNod
 func (parser *rdfParser2_2) getArtifactFromNode(node *gordfParser.Node) (*v2_2.ArtifactOfProject, error) {
 	artifactOf := &v2_2.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index e2e3e04..611e263 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -169,7 +169,7 @@ func (parser *rdfParser2_3) setFileChecksumFromNode(file *spdx.File, checksumNod
 func (parser *rdfParser2_3) getArtifactFromNode(node *gordfParser.Node) (*spdx.ArtifactOfProject, error) {
 	artifactOf := &spdx.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
-- 
2.43.0


From 89ec576bf854dd4331e36b69083e81d62d25b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 30/42] fix: read NONE and NOASSERTION copyright texts from RDF

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         |  3 +--
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_2/rdf/reader/utils.go              | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go         |  3 +--
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_3/rdf/reader/utils.go              | 12 ++++++++++++
 8 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 2fa3b71..bc2d054 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -83,10 +83,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 5e902d1..7dddb5b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -120,7 +120,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 3.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 3.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index 7fb5dd7..e851cc3 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -57,7 +57,7 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getCopyrightTextFromNode(siTriple.Object)
 		case SPDX_ATTRIBUTION_TEXT:
 			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
 		case SPDX_ANNOTATION:
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index d45931e..357ad51 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -92,6 +92,18 @@ func (parser *rdfParser2_2) unreadTriples(node *gordfParser.Node) (triples []*go
 	return triples
 }
 
+// a copyright text is a string or one of the uris of NONE and NOASSERTION
+func getCopyrightTextFromNode(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	default:
+		return node.ID
+	}
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 611e263..bd11a36 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -83,10 +83,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 5d4e817..a8e667f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -120,7 +120,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 7.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getCopyrightTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 7.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index f3324b8..2d76e00 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -54,7 +54,7 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getCopyrightTextFromNode(siTriple.Object)
 		case SPDX_ATTRIBUTION_TEXT:
 			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
 		case SPDX_ANNOTATION:
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index 72a34f9..4790471 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -92,6 +92,18 @@ func (parser *rdfParser2_3) unreadTriples(node *gordfParser.Node) (triples []*go
 	return triples
 }
 
+// a copyright text is a string or one of the uris of NONE and NOASSERTION
+func getCopyrightTextFromNode(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	default:
+		return node.ID
+	}
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From af059ccc68059bd285b978ab9f83e484feab2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 31/42] fix: RDF external document identifiers without the
 DocumentRef- prefix, as in the other readers

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index d1a83ba..85f3cf5 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -96,7 +96,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 96589e7..95b7744 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -96,7 +96,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From 88e5ce1b7c3c378dc0637d0195b663ab4bfb9b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 32/42] fix: read the licence and the exception of an RDF
 licence operator given by URI or in full

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 31 ++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_license.go | 31 ++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..c924115 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 && (node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL) {
+		// just the uri of an exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(strings.TrimSpace(node.ID))
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -104,6 +108,29 @@ func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// the license that an operator is applied to. It can be a license uri or a
+// license which has more attributes than those of a SimpleLicensingInfo.
+func (parser *rdfParser2_2) getOperandLicenseFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: string(lic.value)}, err
+	}
+	nodeType, err := getNodeTypeFromTriples(associatedTriples, node)
+	if err != nil {
+		return SimpleLicensingInfo{}, err
+	}
+	switch nodeType {
+	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+		lic, err := parser.getLicenseFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_EXTRACTED_LICENSING_INFO:
+		lic, err := parser.getExtractedLicensingInfoFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	}
+	return parser.getSimpleLicensingInfoFromNode(node)
+}
+
 func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +144,7 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperandLicenseFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +172,7 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperandLicenseFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..936d96d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 && (node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL) {
+		// just the uri of an exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(strings.TrimSpace(node.ID))
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -104,6 +108,29 @@ func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// the license that an operator is applied to. It can be a license uri or a
+// license which has more attributes than those of a SimpleLicensingInfo.
+func (parser *rdfParser2_3) getOperandLicenseFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: string(lic.value)}, err
+	}
+	nodeType, err := getNodeTypeFromTriples(associatedTriples, node)
+	if err != nil {
+		return SimpleLicensingInfo{}, err
+	}
+	switch nodeType {
+	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+		lic, err := parser.getLicenseFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_EXTRACTED_LICENSING_INFO:
+		lic, err := parser.getExtractedLicensingInfoFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	}
+	return parser.getSimpleLicensingInfoFromNode(node)
+}
+
 func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +144,7 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperandLicenseFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +172,7 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperandLicenseFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
-- 
2.43.0


From 040e4040490be8e38c6888f2ebb5489294fee827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 33/42] fix: read the relationship types that SPDX 2.3 added
 from RDF

---
 spdx/v2/v2_3/rdf/reader/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index f5d991a..839a827 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -155,7 +155,7 @@ func AllRelationshipTypes() []string {
 		"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
 		"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
 		"patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf",
-		"runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf",
+		"requirementDescriptionFor", "runtimeDependencyOf", "specificationFor", "staticLink", "testDependencyOf", "testOf",
 		"testToolOf", "testcaseOf", "variantOf",
 	}
 }
-- 
2.43.0


From 6df78edc8085196ad0159e06a0a355cd99515b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 34/42] fix: report an unknown part of an RDF disjunctive
 licence set, as for a conjunctive one

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 2 ++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index c924115..7d05b85 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -226,6 +226,8 @@ func (parser *rdfParser2_2) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 				return licenseSet, fmt.Errorf("error parsing disjunctive license set: %v", err)
 			}
 			licenseSet.members = append(licenseSet.members, member)
+		default:
+			return licenseSet, fmt.Errorf("unknown subTag for DisjunctiveLicenseSet: %s", triple.Predicate.ID)
 		}
 	}
 	return licenseSet, nil
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index 936d96d..69055b5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -226,6 +226,8 @@ func (parser *rdfParser2_3) getDisjunctiveLicenseSetFromNode(node *gordfParser.N
 				return licenseSet, fmt.Errorf("error parsing disjunctive license set: %v", err)
 			}
 			licenseSet.members = append(licenseSet.members, member)
+		default:
+			return licenseSet, fmt.Errorf("unknown subTag for DisjunctiveLicenseSet: %s", triple.Predicate.ID)
 		}
 	}
 	return licenseSet, nil
-- 
2.43.0


From 70211b56af6db1403f324d281fe725a12d65c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:37 +0000
Subject: [PATCH 35/42] fix: list regular files only: reading a pipe in the
 directory blocks for ever

---
 utils/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a24e2d1..d6ab0c8 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -39,8 +39,9 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 		if fi.IsDir() {
 			return nil
 		}
-		// don't include path if it's a symbolic link
-		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+		// don't include path if it's not a regular file: a symbolic link,
+		// or a pipe, socket or device, which has no content to read
+		if !fi.Mode().IsRegular() {
 			return nil
 		}
 
-- 
2.43.0


From 815b030c9f95b3e69b5514dd64b1b523c226c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:01 +0000
Subject: [PATCH 36/42] fix: read tag-value lines of any length

---
 tagvalue/reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..3353345 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// a line may be of any length
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0


From 4497c6b5561ca9d41f374462b3856f643341a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 37/42] fix: search lines of any length for short-form
 identifiers

---
 idsearcher/idsearcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index eaa9601..9e0e87c 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -7,6 +7,7 @@ package idsearcher
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -153,6 +154,8 @@ func searchFileIDs(filePath string) ([]string, error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	// a line may be of any length
+	scanner.Buffer(nil, math.MaxInt)
 
 	for scanner.Scan() {
 		if strings.Contains(scanner.Text(), "SPDX-License-Identifier:") {
-- 
2.43.0


From 045a24bcff529191995b88dac7edeb174bd540da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 38/42] fix: skip absent files when comparing licenses

---
 licensediff/licensediff.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/licensediff/licensediff.go b/licensediff/licensediff.go
index 542ec5d..1f7e8c1 100644
--- a/licensediff/licensediff.go
+++ b/licensediff/licensediff.go
@@ -21,6 +21,9 @@ func MakePairs(p1 *spdx.Package, p2 *spdx.Package) (map[string]LicensePair, erro
 
 	// first, go through and add all files/licenses from p1
 	for _, f := range p1.Files {
+		if f == nil {
+			continue
+		}
 		pair := LicensePair{First: f.LicenseConcluded, Second: ""}
 		pairs[f.FileName] = pair
 	}
@@ -28,6 +31,9 @@ func MakePairs(p1 *spdx.Package, p2 *spdx.Package) (map[string]LicensePair, erro
 	// now, go through all files/licenses from p2. If already
 	// present, add as .second; if not, create new pair
 	for _, f := range p2.Files {
+		if f == nil {
+			continue
+		}
 		firstLic := ""
 		existingPair, ok := pairs[f.FileName]
 		if ok {
-- 
2.43.0


From 8734101e5b3ef71a4f622491692d9cf7f5ab0306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 39/42] fix: skip absent files when reporting licenses

---
 reporter/reporter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 516bddd..2cfa543 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -87,6 +87,9 @@ func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
 	totalNotFound := 0
 	foundCounts := map[string]int{}
 	for _, f := range pkg.Files {
+		if f == nil {
+			continue
+		}
 		if f.LicenseConcluded == "" || f.LicenseConcluded == "NOASSERTION" {
 			totalNotFound++
 		} else {
-- 
2.43.0


From f0bc1db53c722033c848a879161bd9d7a7724ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 40/42] fix: skip absent packages, files and relationships in
 document queries

---
 spdxlib/described_elements.go | 14 ++++++++++----
 spdxlib/documents.go          |  9 +++++++++
 spdxlib/relationships.go      |  3 +++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index e4f1cde..6601eb3 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -20,12 +20,18 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 	if doc.Packages == nil {
 		return nil, fmt.Errorf("Packages map is nil")
 	}
-	if len(doc.Packages) == 0 {
+	var packages []*spdx.Package
+	for _, pkg := range doc.Packages {
+		if pkg != nil {
+			packages = append(packages, pkg)
+		}
+	}
+	if len(packages) == 0 {
 		return nil, fmt.Errorf("no Packages in Document")
 	}
-	if len(doc.Packages) == 1 {
+	if len(packages) == 1 {
 		// get first (only) one and return its ID
-		for _, pkg := range doc.Packages {
+		for _, pkg := range packages {
 			return []common.ElementID{pkg.PackageSPDXIdentifier}, nil
 		}
 	}
@@ -39,7 +45,7 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 
 	// packages of this document that have not been found to be described yet
 	remaining := make(map[common.ElementID]bool)
-	for _, pkg := range doc.Packages {
+	for _, pkg := range packages {
 		remaining[pkg.PackageSPDXIdentifier] = true
 	}
 	described := func(ref *common.DocElementID) *common.ElementID {
diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..cc1e9f9 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -15,10 +15,16 @@ func ValidateDocument(doc *spdx.Document) error {
 	// cache a map of package IDs for quick lookups
 	validElementIDs := make(map[common.ElementID]bool)
 	for _, docPackage := range doc.Packages {
+		if docPackage == nil {
+			continue
+		}
 		validElementIDs[docPackage.PackageSPDXIdentifier] = true
 	}
 
 	for _, unpackagedFile := range doc.Files {
+		if unpackagedFile == nil {
+			continue
+		}
 		validElementIDs[unpackagedFile.FileSPDXIdentifier] = true
 	}
 
@@ -26,6 +32,9 @@ func ValidateDocument(doc *spdx.Document) error {
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
 	for _, relationship := range doc.Relationships {
+		if relationship == nil {
+			continue
+		}
 		if !validElementIDs[relationship.RefA.ElementRefID] {
 			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
 		}
diff --git a/spdxlib/relationships.go b/spdxlib/relationships.go
index 7f5038d..d4410a5 100644
--- a/spdxlib/relationships.go
+++ b/spdxlib/relationships.go
@@ -13,6 +13,9 @@ func FilterRelationships(doc *spdx.Document, filter func(*spdx.Relationship) *co
 	elementIDs := []common.ElementID{}
 
 	for _, relationship := range doc.Relationships {
+		if relationship == nil {
+			continue
+		}
 		if id := filter(relationship); id != nil {
 			elementIDs = append(elementIDs, *id)
 		}
-- 
2.43.0


From b2650bebdca20c6cc51afcb958d5e650deabdfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 41/42] fix: count characters before cutting a description

---
 convert/struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..733c280 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -45,6 +45,9 @@ func limit(text string, length int) string {
 		return text
 	}
 	r := []rune(text)
+	if len(r) <= length+3 {
+		return text
+	}
 	r = r[:length]
 	return string(r) + "..."
 }
-- 
2.43.0


From 42cc05a98b2827d699c6bf16efefed82744565ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 42/42] fix: skip absent list elements when writing tag-value

---
 spdx/v2/v2_1/tagvalue/writer/save_document.go | 12 ++++++------
 spdx/v2/v2_1/tagvalue/writer/save_file.go     |  7 ++++---
 spdx/v2/v2_1/tagvalue/writer/save_package.go  |  4 ++--
 spdx/v2/v2_1/tagvalue/writer/util.go          | 12 ++++++++++++
 spdx/v2/v2_2/tagvalue/writer/save_document.go | 12 ++++++------
 spdx/v2/v2_2/tagvalue/writer/save_file.go     |  7 ++++---
 spdx/v2/v2_2/tagvalue/writer/save_package.go  |  4 ++--
 spdx/v2/v2_2/tagvalue/writer/util.go          | 12 ++++++++++++
 spdx/v2/v2_3/tagvalue/writer/save_document.go | 18 ++++++++++--------
 spdx/v2/v2_3/tagvalue/writer/save_file.go     |  7 ++++---
 spdx/v2/v2_3/tagvalue/writer/save_package.go  |  4 ++--
 spdx/v2/v2_3/tagvalue/writer/util.go          | 12 ++++++++++++
 12 files changed, 76 insertions(+), 35 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_document.go b/spdx/v2/v2_1/tagvalue/writer/save_document.go
index 6ee12b8..a2e2c33 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_document.go
@@ -58,7 +58,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		files := append([]*spdx.File(nil), doc.Files...)
+		files := present(doc.Files)
 		sort.SliceStable(files, func(i, j int) bool {
 			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
@@ -68,7 +68,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 	}
 
 	// sort Packages by identifier
-	pkgs := append([]*spdx.Package(nil), doc.Packages...)
+	pkgs := present(doc.Packages)
 	sort.SliceStable(pkgs, func(i, j int) bool {
 		return pkgs[i].PackageSPDXIdentifier < pkgs[j].PackageSPDXIdentifier
 	})
@@ -79,14 +79,14 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.OtherLicenses) > 0 {
 		fmt.Fprintf(w, "##### Other Licenses\n\n")
-		for _, ol := range doc.OtherLicenses {
+		for _, ol := range present(doc.OtherLicenses) {
 			renderOtherLicense(ol, w)
 		}
 	}
 
 	if len(doc.Relationships) > 0 {
 		fmt.Fprintf(w, "##### Relationships\n\n")
-		for _, rln := range doc.Relationships {
+		for _, rln := range present(doc.Relationships) {
 			renderRelationship(rln, w)
 		}
 		fmt.Fprintf(w, "\n")
@@ -94,7 +94,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Annotations) > 0 {
 		fmt.Fprintf(w, "##### Annotations\n\n")
-		for _, ann := range doc.Annotations {
+		for _, ann := range present(doc.Annotations) {
 			renderAnnotation(ann, w)
 			fmt.Fprintf(w, "\n")
 		}
@@ -102,7 +102,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Reviews) > 0 {
 		fmt.Fprintf(w, "##### Reviews\n\n")
-		for _, rev := range doc.Reviews {
+		for _, rev := range present(doc.Reviews) {
 			renderReview(rev, w)
 		}
 	}
diff --git a/spdx/v2/v2_1/tagvalue/writer/save_file.go b/spdx/v2/v2_1/tagvalue/writer/save_file.go
index 5dc7116..eda9f01 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_file.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_file.go
@@ -37,7 +37,7 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	if f.FileCopyrightText != "" {
 		fmt.Fprintf(w, "FileCopyrightText: %s\n", textify(f.FileCopyrightText))
 	}
-	for _, aop := range f.ArtifactOfProjects {
+	for _, aop := range present(f.ArtifactOfProjects) {
 		fmt.Fprintf(w, "ArtifactOfProjectName: %s\n", aop.Name)
 		if aop.HomePage != "" {
 			fmt.Fprintf(w, "ArtifactOfProjectHomePage: %s\n", aop.HomePage)
@@ -69,8 +69,9 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	}
 	sort.Strings(snippetKeys)
 	for _, sID := range snippetKeys {
-		s := f.Snippets[common.ElementID(sID)]
-		renderSnippet(s, w)
+		if s := f.Snippets[common.ElementID(sID)]; s != nil {
+			renderSnippet(s, w)
+		}
 	}
 
 	return nil
diff --git a/spdx/v2/v2_1/tagvalue/writer/save_package.go b/spdx/v2/v2_1/tagvalue/writer/save_package.go
index 0bb5191..660821c 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_package.go
@@ -93,7 +93,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	if pkg.PackageComment != "" {
 		fmt.Fprintf(w, "PackageComment: %s\n", textify(pkg.PackageComment))
 	}
-	for _, s := range pkg.PackageExternalReferences {
+	for _, s := range present(pkg.PackageExternalReferences) {
 		fmt.Fprintf(w, "ExternalRef: %s %s %s\n", s.Category, s.RefType, s.Locator)
 		if s.ExternalRefComment != "" {
 			fmt.Fprintf(w, "ExternalRefComment: %s\n", textify(s.ExternalRefComment))
@@ -103,7 +103,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	files := append([]*spdx.File(nil), pkg.Files...)
+	files := present(pkg.Files)
 	sort.SliceStable(files, func(i, j int) bool {
 		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index bba71c4..4607fbd 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -24,6 +24,18 @@ func (ew *errWriter) Write(p []byte) (int, error) {
 	return n, err
 }
 
+// present returns the elements of a list without those that are nil, as a
+// list of its own.
+func present[T any](elements []*T) []*T {
+	var found []*T
+	for _, e := range elements {
+		if e != nil {
+			found = append(found, e)
+		}
+	}
+	return found
+}
+
 func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_document.go b/spdx/v2/v2_2/tagvalue/writer/save_document.go
index 8f77a0a..afdec6f 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_document.go
@@ -58,7 +58,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		files := append([]*spdx.File(nil), doc.Files...)
+		files := present(doc.Files)
 		sort.SliceStable(files, func(i, j int) bool {
 			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
@@ -68,7 +68,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 	}
 
 	// sort Packages by identifier
-	pkgs := append([]*spdx.Package(nil), doc.Packages...)
+	pkgs := present(doc.Packages)
 	sort.SliceStable(pkgs, func(i, j int) bool {
 		return pkgs[i].PackageSPDXIdentifier < pkgs[j].PackageSPDXIdentifier
 	})
@@ -79,14 +79,14 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.OtherLicenses) > 0 {
 		fmt.Fprintf(w, "##### Other Licenses\n\n")
-		for _, ol := range doc.OtherLicenses {
+		for _, ol := range present(doc.OtherLicenses) {
 			renderOtherLicense(ol, w)
 		}
 	}
 
 	if len(doc.Relationships) > 0 {
 		fmt.Fprintf(w, "##### Relationships\n\n")
-		for _, rln := range doc.Relationships {
+		for _, rln := range present(doc.Relationships) {
 			renderRelationship(rln, w)
 		}
 		fmt.Fprintf(w, "\n")
@@ -94,7 +94,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Annotations) > 0 {
 		fmt.Fprintf(w, "##### Annotations\n\n")
-		for _, ann := range doc.Annotations {
+		for _, ann := range present(doc.Annotations) {
 			renderAnnotation(ann, w)
 			fmt.Fprintf(w, "\n")
 		}
@@ -102,7 +102,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Reviews) > 0 {
 		fmt.Fprintf(w, "##### Reviews\n\n")
-		for _, rev := range doc.Reviews {
+		for _, rev := range present(doc.Reviews) {
 			renderReview(rev, w)
 		}
 	}
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_file.go b/spdx/v2/v2_2/tagvalue/writer/save_file.go
index 8a90dc1..61f2b53 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_file.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_file.go
@@ -38,7 +38,7 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	if f.FileCopyrightText != "" {
 		fmt.Fprintf(w, "FileCopyrightText: %s\n", textify(f.FileCopyrightText))
 	}
-	for _, aop := range f.ArtifactOfProjects {
+	for _, aop := range present(f.ArtifactOfProjects) {
 		fmt.Fprintf(w, "ArtifactOfProjectName: %s\n", aop.Name)
 		if aop.HomePage != "" {
 			fmt.Fprintf(w, "ArtifactOfProjectHomePage: %s\n", aop.HomePage)
@@ -73,8 +73,9 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	}
 	sort.Strings(snippetKeys)
 	for _, sID := range snippetKeys {
-		s := f.Snippets[common.ElementID(sID)]
-		renderSnippet(s, w)
+		if s := f.Snippets[common.ElementID(sID)]; s != nil {
+			renderSnippet(s, w)
+		}
 	}
 
 	return nil
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_package.go b/spdx/v2/v2_2/tagvalue/writer/save_package.go
index 6765ca3..3bf1ec4 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_package.go
@@ -93,7 +93,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	if pkg.PackageComment != "" {
 		fmt.Fprintf(w, "PackageComment: %s\n", textify(pkg.PackageComment))
 	}
-	for _, s := range pkg.PackageExternalReferences {
+	for _, s := range present(pkg.PackageExternalReferences) {
 		fmt.Fprintf(w, "ExternalRef: %s %s %s\n", s.Category, s.RefType, s.Locator)
 		if s.ExternalRefComment != "" {
 			fmt.Fprintf(w, "ExternalRefComment: %s\n", textify(s.ExternalRefComment))
@@ -106,7 +106,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	files := append([]*spdx.File(nil), pkg.Files...)
+	files := present(pkg.Files)
 	sort.SliceStable(files, func(i, j int) bool {
 		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index bba71c4..4607fbd 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -24,6 +24,18 @@ func (ew *errWriter) Write(p []byte) (int, error) {
 	return n, err
 }
 
+// present returns the elements of a list without those that are nil, as a
+// list of its own.
+func present[T any](elements []*T) []*T {
+	var found []*T
+	for _, e := range elements {
+		if e != nil {
+			found = append(found, e)
+		}
+	}
+	return found
+}
+
 func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_document.go b/spdx/v2/v2_3/tagvalue/writer/save_document.go
index 80cb071..1c05c82 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_document.go
@@ -58,32 +58,34 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
 		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+			a, b := doc.Files[i], doc.Files[j]
+			return a != nil && (b == nil || a.FileSPDXIdentifier < b.FileSPDXIdentifier)
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range present(doc.Files) {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
 	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+		a, b := doc.Packages[i], doc.Packages[j]
+		return a != nil && (b == nil || a.PackageSPDXIdentifier < b.PackageSPDXIdentifier)
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range present(doc.Packages) {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
 
 	if len(doc.OtherLicenses) > 0 {
 		fmt.Fprintf(w, "##### Other Licenses\n\n")
-		for _, ol := range doc.OtherLicenses {
+		for _, ol := range present(doc.OtherLicenses) {
 			renderOtherLicense(ol, w)
 		}
 	}
 
 	if len(doc.Relationships) > 0 {
 		fmt.Fprintf(w, "##### Relationships\n\n")
-		for _, rln := range doc.Relationships {
+		for _, rln := range present(doc.Relationships) {
 			renderRelationship(rln, w)
 		}
 		fmt.Fprintf(w, "\n")
@@ -91,7 +93,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Annotations) > 0 {
 		fmt.Fprintf(w, "##### Annotations\n\n")
-		for _, ann := range doc.Annotations {
+		for _, ann := range present(doc.Annotations) {
 			renderAnnotation(ann, w)
 			fmt.Fprintf(w, "\n")
 		}
@@ -99,7 +101,7 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Reviews) > 0 {
 		fmt.Fprintf(w, "##### Reviews\n\n")
-		for _, rev := range doc.Reviews {
+		for _, rev := range present(doc.Reviews) {
 			renderReview(rev, w)
 		}
 	}
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_file.go b/spdx/v2/v2_3/tagvalue/writer/save_file.go
index cdd3cc7..1c1bbd8 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_file.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_file.go
@@ -38,7 +38,7 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	if f.FileCopyrightText != "" {
 		fmt.Fprintf(w, "FileCopyrightText: %s\n", textify(f.FileCopyrightText))
 	}
-	for _, aop := range f.ArtifactOfProjects {
+	for _, aop := range present(f.ArtifactOfProjects) {
 		fmt.Fprintf(w, "ArtifactOfProjectName: %s\n", aop.Name)
 		if aop.HomePage != "" {
 			fmt.Fprintf(w, "ArtifactOfProjectHomePage: %s\n", aop.HomePage)
@@ -73,8 +73,9 @@ func renderFile(f *spdx.File, w io.Writer) error {
 	}
 	sort.Strings(snippetKeys)
 	for _, sID := range snippetKeys {
-		s := f.Snippets[common.ElementID(sID)]
-		renderSnippet(s, w)
+		if s := f.Snippets[common.ElementID(sID)]; s != nil {
+			renderSnippet(s, w)
+		}
 	}
 
 	return nil
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_package.go b/spdx/v2/v2_3/tagvalue/writer/save_package.go
index 4da6860..5b127ae 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_package.go
@@ -105,7 +105,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	if pkg.PackageComment != "" {
 		fmt.Fprintf(w, "PackageComment: %s\n", textify(pkg.PackageComment))
 	}
-	for _, s := range pkg.PackageExternalReferences {
+	for _, s := range present(pkg.PackageExternalReferences) {
 		fmt.Fprintf(w, "ExternalRef: %s %s %s\n", s.Category, s.RefType, s.Locator)
 		if s.ExternalRefComment != "" {
 			fmt.Fprintf(w, "ExternalRefComment: %s\n", textify(s.ExternalRefComment))
@@ -118,7 +118,7 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	files := append([]*spdx.File(nil), pkg.Files...)
+	files := present(pkg.Files)
 	sort.SliceStable(files, func(i, j int) bool {
 		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index bba71c4..4607fbd 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -24,6 +24,18 @@ func (ew *errWriter) Write(p []byte) (int, error) {
 	return n, err
 }
 
+// present returns the elements of a list without those that are nil, as a
+// list of its own.
+func present[T any](elements []*T) []*T {
+	var found []*T
+	for _, e := range elements {
+		if e != nil {
+			found = append(found, e)
+		}
+	}
+	return found
+}
+
 func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
-- 
2.43.0

