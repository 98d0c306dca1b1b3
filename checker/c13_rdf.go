package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register("C13", "RDF readers put every attribute of a document in its field", checkC13)
}

// rAttr is an attribute an RDF element may have. mk makes the statement of its
// i-th occurrence in the element named own.
type rAttr struct {
	name string
	list bool
	mk   func(own string, i int) rProp
}

func local(p string) string { return p[strings.IndexByte(p, ':')+1:] }

// rText is an attribute with a text value.
func rText(p, field string) rAttr {
	return rAttr{p, strings.HasSuffix(field, "[]"), func(own string, i int) rProp {
		v := fmt.Sprintf("{%s-%s%d}", own, local(p), i)
		return rProp{p: p, o: "L" + v, set: []string{field + "=" + v}}
	}}
}

// rForm is an attribute with a value of a certain form: # in it is a name.
func rForm(p, obj string, set ...string) rAttr {
	return rAttr{p, strings.Contains(strings.Join(set, " ")+"=", "[]"), func(own string, i int) rProp {
		n := fmt.Sprintf("%s-%s%d", own, local(p), i)
		pr := rProp{p: p, o: strings.ReplaceAll(obj, "#", n)}
		for _, s := range set {
			pr.set = append(pr.set, strings.ReplaceAll(s, "#", n))
		}
		return pr
	}}
}

// rNested is an attribute whose value is another element.
func rNested(p string, list bool, mk func(n string) *rEl) rAttr {
	return rAttr{p, list, func(own string, i int) rProp {
		return rProp{p: p, el: mk(fmt.Sprintf("%s-%s%d", own, local(p), i))}
	}}
}

func forms(p string, list bool, objs map[string]string, set func(v string) []string) map[string]rAttr {
	out := map[string]rAttr{}
	for o, v := range objs {
		out[o] = rForm(p, o, set(v)...)
	}
	return out
}

func rChecksum(p, path, list string) rAttr {
	return rNested(p, list != "", func(n string) *rEl {
		return &rEl{node: "B" + n, typ: "spdx:Checksum", path: path + list, props: []rProp{
			{p: "spdx:algorithm", o: "Rspdx:checksumAlgorithm_sha256", set: []string{"Algorithm=SHA256"}},
			{p: "spdx:checksumValue", o: "L{" + n + "}", set: []string{"Value={" + n + "}"}},
		}}
	})
}

func rAnnot(subject string) rAttr {
	return rNested("spdx:annotation", true, func(n string) *rEl {
		return rAnnotEl(n, subject, []rProp{
			{p: "spdx:annotator", o: "LPerson: {" + n + "}", set: []string{"Annotator.Annotator={" + n + "}", "Annotator.AnnotatorType=Person"}},
		})
	})
}

func rAnnotEl(n, subject string, props []rProp) *rEl {
	return &rEl{node: "B" + n, typ: "spdx:Annotation", path: "doc.Annotations[]", set: []string{"AnnotationSPDXIdentifier.ElementRefID=" + subject}, props: props}
}

func rRel(subject string) rAttr {
	return rNested("spdx:relationship", true, func(n string) *rEl {
		return rRelEl(n, subject, []rProp{
			{p: "spdx:relationshipType", o: "Ispdx:relationshipType_contains", set: []string{"Relationship=contains"}},
			{p: "spdx:relatedSpdxElement", o: "Rd:SPDXRef-{" + n + "}", set: []string{"RefB.ElementRefID={" + n + "}"}},
		})
	})
}

func rRelEl(n, subject string, props []rProp) *rEl {
	return &rEl{node: "B" + n, typ: "spdx:Relationship", path: "doc.Relationships[]", set: []string{"RefA.ElementRefID=" + subject}, props: props}
}

// rClass is a kind of element with its attributes. host puts an element with
// the given statements into a document.
type rClass struct {
	name  string
	attrs []rAttr
	host  func(props []rProp) []*rEl
}

func rDoc(props ...rProp) *rEl {
	return &rEl{node: docNode, typ: "spdx:SpdxDocument", path: "doc", set: []string{"DocumentNamespace=http://x.org/d", "SPDXIdentifier=DOCUMENT"}, props: props}
}

func rPkg(n string, props ...rProp) *rEl {
	return &rEl{node: "Id:SPDXRef-" + n, typ: "spdx:Package", path: "doc.Packages[]", set: []string{"PackageSPDXIdentifier=" + n, "FilesAnalyzed=true"}, props: props}
}

func rFile(n, path string, props ...rProp) *rEl {
	return &rEl{node: "Id:SPDXRef-" + n, typ: "spdx:File", path: path, set: []string{"FileSPDXIdentifier=" + n}, props: props}
}

func describing(p *rEl) *rEl { return rDoc(rProp{p: "spdx:describesPackage", el: p}) }

func rdfClasses(ver string) []rClass {
	lic := func(p, field string) rAttr { return rForm(p, "Rlic:MIT", field+"=MIT") }
	pkg := []rAttr{
		rText("spdx:name", "PackageName"),
		rText("spdx:versionInfo", "PackageVersion"),
		rText("spdx:packageFileName", "PackageFileName"),
		rForm("spdx:supplier", "LPerson: {#}", "PackageSupplier.Supplier={#}", "PackageSupplier.SupplierType=Person"),
		rForm("spdx:originator", "LOrganization: {#}", "PackageOriginator.Originator={#}", "PackageOriginator.OriginatorType=Organization"),
		rForm("spdx:downloadLocation", "Lhttp://x.org/{#}", "PackageDownloadLocation=http://x.org/{#}"),
		rForm("spdx:filesAnalyzed", "Lfalse", "IsFilesAnalyzedTagPresent=true", "FilesAnalyzed=false"),
		rNested("spdx:packageVerificationCode", false, func(n string) *rEl {
			return &rEl{node: "B" + n, typ: "spdx:PackageVerificationCode", path: "PackageVerificationCode", props: []rProp{
				{p: "spdx:packageVerificationCodeValue", o: "L{" + n + "}", set: []string{"Value={" + n + "}"}},
			}}
		}),
		rChecksum("spdx:checksum", "PackageChecksums", "[]"),
		rForm("doap:homepage", "Lhttp://x.org/{#}", "PackageHomePage=http://x.org/{#}"),
		rText("spdx:sourceInfo", "PackageSourceInfo"),
		lic("spdx:licenseConcluded", "PackageLicenseConcluded"),
		rForm("spdx:licenseInfoFromFiles", "Rlic:{#}", "PackageLicenseInfoFromFiles[]={#}"),
		rForm("spdx:licenseDeclared", "Rlic:ISC", "PackageLicenseDeclared=ISC"),
		rText("spdx:licenseComments", "PackageLicenseComments"),
		rText("spdx:copyrightText", "PackageCopyrightText"),
		rText("spdx:summary", "PackageSummary"),
		rText("spdx:description", "PackageDescription"),
		rText("rdfs:comment", "PackageComment"),
		rNested("spdx:externalRef", true, func(n string) *rEl {
			return &rEl{node: "B" + n, typ: "spdx:ExternalRef", path: "PackageExternalReferences[]", props: []rProp{
				{p: "spdx:referenceLocator", o: "L{" + n + "}", set: []string{"Locator={" + n + "}"}},
			}}
		}),
		rNested("spdx:hasFile", true, func(n string) *rEl { return rFile("{"+n+"}", "Files[]") }),
		rText("spdx:attributionText", "PackageAttributionTexts[]"),
		rRel("{p}"),
		rAnnot("{p}"),
	}
	if ver == "v2_3" {
		pkg = append(pkg,
			rForm("spdx:primaryPackagePurpose", "Rspdx:packagePurpose_operating_system", "PrimaryPackagePurpose=OPERATING-SYSTEM"),
			rText("spdx:releaseDate", "ReleaseDate"),
			rText("spdx:builtDate", "BuiltDate"),
			rText("spdx:validUntilDate", "ValidUntilDate"))
	}
	file := []rAttr{
		rText("spdx:fileName", "FileName"),
		rForm("spdx:fileType", "Rspdx:fileType_{#}", "FileTypes[]={#}"),
		rChecksum("spdx:checksum", "Checksums", "[]"),
		lic("spdx:licenseConcluded", "LicenseConcluded"),
		rForm("spdx:licenseInfoInFile", "Rlic:ISC", "LicenseInfoInFiles[]=ISC"),
		rText("spdx:licenseComments", "LicenseComments"),
		rText("spdx:copyrightText", "FileCopyrightText"),
		rNested("spdx:artifactOf", true, func(n string) *rEl {
			return &rEl{node: "B" + n, typ: "doap:Project", path: "ArtifactOfProjects[]", props: []rProp{
				{p: "doap:name", o: "L{" + n + "}", set: []string{"Name={" + n + "}"}},
			}}
		}),
		rText("rdfs:comment", "FileComment"),
		rText("spdx:noticeText", "FileNotice"),
		rText("spdx:fileContributor", "FileContributors[]"),
		rText("spdx:attributionText", "FileAttributionTexts[]"),
		rRel("{f}"),
		rAnnot("{f}"),
	}
	rng := func(n, kind, prop, field string) *rEl {
		ptr := func(m, f, num string) *rEl {
			return &rEl{node: "B" + n + m, typ: kind, props: []rProp{
				{p: "ptr:reference", o: "Rd:SPDXRef-{f}"},
				{p: prop, o: "L" + num, set: []string{f + "." + field + "=" + num, f + ".FileSPDXIdentifier={f}"}},
			}}
		}
		return &rEl{node: "B" + n, typ: "ptr:StartEndPointer", path: "Ranges[]", props: []rProp{
			{p: "ptr:startPointer", el: ptr("s", "StartPointer", "310")},
			{p: "ptr:endPointer", el: ptr("e", "EndPointer", "420")},
		}}
	}
	snip := []rAttr{
		rText("spdx:name", "SnippetName"),
		rNested("spdx:range", true, func(n string) *rEl {
			return rng(n, "ptr:ByteOffsetPointer", "ptr:offset", "Offset")
		}),
		{"spdx:range/line", true, func(own string, i int) rProp {
			return rProp{p: "spdx:range", el: rng(fmt.Sprintf("line%d", i), "ptr:LineCharPointer", "ptr:lineNumber", "LineNumber")}
		}},
		lic("spdx:licenseConcluded", "SnippetLicenseConcluded"),
		rForm("spdx:licenseInfoInSnippet", "Rlic:ISC", "LicenseInfoInSnippet[]=ISC"),
		rText("spdx:licenseComments", "SnippetLicenseComments"),
		rText("spdx:copyrightText", "SnippetCopyrightText"),
		rText("rdfs:comment", "SnippetComment"),
		rText("spdx:attributionText", "SnippetAttributionTexts[]"),
		rRel("{s}"),
		rAnnot("{s}"),
	}
	doc := []rAttr{
		rText("spdx:specVersion", "SPDXVersion"),
		rForm("spdx:dataLicense", "Rlic:CC0-1.0", "DataLicense=CC0-1.0"),
		rText("spdx:name", "DocumentName"),
		rNested("spdx:externalDocumentRef", true, func(n string) *rEl {
			return &rEl{node: "B" + n, typ: "spdx:ExternalDocumentRef", path: "ExternalDocumentReferences[]", props: []rProp{
				{p: "spdx:externalDocumentId", o: "LDocumentRef-{" + n + "}", set: []string{"DocumentRefID={" + n + "}"}},
			}}
		}),
		rNested("spdx:creationInfo", false, func(n string) *rEl {
			return &rEl{node: "B" + n, typ: "spdx:CreationInfo", path: "CreationInfo", props: []rProp{
				{p: "spdx:created", o: "L{" + n + "}", set: []string{"Created={" + n + "}"}},
			}}
		}),
		rText("rdfs:comment", "DocumentComment"),
		rNested("spdx:reviewed", true, func(n string) *rEl {
			return &rEl{node: "B" + n, typ: "spdx:Review", path: "Reviews[]", props: []rProp{
				{p: "spdx:reviewDate", o: "L{" + n + "}", set: []string{"ReviewDate={" + n + "}"}},
			}}
		}),
		rNested("spdx:describesPackage", true, func(n string) *rEl { return rPkg("{" + n + "}") }),
		rNested("spdx:hasExtractedLicensingInfo", true, func(n string) *rEl {
			return &rEl{node: "Id:LicenseRef-" + n, typ: "spdx:ExtractedLicensingInfo", path: "OtherLicenses[]", props: []rProp{
				{p: "spdx:licenseId", o: "L{" + n + "}", set: []string{"LicenseIdentifier={" + n + "}"}},
			}}
		}),
		rRel("DOCUMENT"),
		rAnnot("DOCUMENT"),
	}
	in := func(p string, el *rEl) []*rEl { return []*rEl{rDoc(rProp{p: p, el: el})} }
	inPkg := func(p string, el *rEl) []*rEl { return []*rEl{describing(rPkg("{p}", rProp{p: p, el: el}))} }
	inFile := func(p string, el *rEl) []*rEl {
		return inPkg("spdx:hasFile", rFile("{f}", "Files[]", rProp{p: p, el: el}))
	}
	value := []rAttr{rText("spdx:checksumValue", "Value")}
	sha1 := rProp{p: "spdx:algorithm", o: "Rspdx:checksumAlgorithm_sha1", set: []string{"Algorithm=SHA1"}}
	return []rClass{
		{"document", doc, func(ps []rProp) []*rEl { return []*rEl{rDoc(ps...)} }},
		{"creation info", []rAttr{
			rText("spdx:licenseListVersion", "LicenseListVersion"),
			{"spdx:creator", true, func(own string, i int) rProp {
				v := fmt.Sprintf("{creator%d}", i)
				return rProp{p: "spdx:creator", o: "LTool: " + v, at: "Creators[]", set: []string{"CreatorType=Tool", "Creator=" + v}}
			}},
			rText("spdx:created", "Created"),
			rText("rdfs:comment", "CreatorComment"),
		}, func(ps []rProp) []*rEl {
			return in("spdx:creationInfo", &rEl{node: "Bci", typ: "spdx:CreationInfo", path: "CreationInfo", props: ps})
		}},
		{"external document reference", []rAttr{
			rForm("spdx:externalDocumentId", "LDocumentRef-{#}", "DocumentRefID={#}"),
			rForm("spdx:spdxDocument", "Rhttp://x.org/{#}", "URI=http://x.org/{#}"),
			rChecksum("spdx:checksum", "Checksum", ""),
		}, func(ps []rProp) []*rEl {
			return in("spdx:externalDocumentRef", &rEl{node: "Bedr", typ: "spdx:ExternalDocumentRef", path: "ExternalDocumentReferences[]", props: ps})
		}},
		{"package", pkg, func(ps []rProp) []*rEl { return []*rEl{describing(rPkg("{p}", ps...))} }},
		{"package verification code", []rAttr{
			rText("spdx:packageVerificationCodeValue", "Value"),
			rText("spdx:packageVerificationCodeExcludedFile", "ExcludedFiles[]"),
		}, func(ps []rProp) []*rEl {
			return inPkg("spdx:packageVerificationCode", &rEl{node: "Bpvc", typ: "spdx:PackageVerificationCode", path: "PackageVerificationCode", props: ps})
		}},
		{"package checksum", value, func(ps []rProp) []*rEl {
			return inPkg("spdx:checksum", &rEl{node: "Bck", typ: "spdx:Checksum", path: "PackageChecksums[]", props: append([]rProp{sha1}, ps...)})
		}},
		{"external reference", []rAttr{
			rForm("spdx:referenceCategory", "Rspdx:referenceCategory_security", "Category=SECURITY"),
			rForm("spdx:referenceType", "Rhttp://x.org/{#}", "RefType=http://x.org/{#}"),
			rText("spdx:referenceLocator", "Locator"),
			rText("rdfs:comment", "ExternalRefComment"),
		}, func(ps []rProp) []*rEl {
			return inPkg("spdx:externalRef", &rEl{node: "Ber", typ: "spdx:ExternalRef", path: "PackageExternalReferences[]", props: ps})
		}},
		{"file", file, func(ps []rProp) []*rEl { return inPkg("spdx:hasFile", rFile("{f}", "Files[]", ps...)) }},
		{"file outside packages", file, func(ps []rProp) []*rEl { return []*rEl{rDoc(), rFile("{f}", "doc.Files[]", ps...)} }},
		{"file checksum", value, func(ps []rProp) []*rEl {
			return inFile("spdx:checksum", &rEl{node: "Bck", typ: "spdx:Checksum", path: "Checksums[]", props: append([]rProp{sha1}, ps...)})
		}},
		{"artifact", []rAttr{
			rText("doap:name", "Name"),
			rForm("doap:homepage", "Lhttp://x.org/{#}", "HomePage=http://x.org/{#}"),
		}, func(ps []rProp) []*rEl {
			return inFile("spdx:artifactOf", &rEl{node: "Bart", typ: "doap:Project", path: "ArtifactOfProjects[]", props: ps})
		}},
		{"project", []rAttr{
			rText("doap:name", "Name"),
			rForm("doap:homepage", "Lhttp://x.org/{#}", "HomePage=http://x.org/{#}"),
		}, func(ps []rProp) []*rEl {
			return inFile("spdx:artifactOf", &rEl{node: "Ihttp://x.org/prj", typ: "doap:Project", path: "ArtifactOfProjects[]", set: []string{"URI=http://x.org/prj"}, props: ps})
		}},
		{"snippet", snip, func(ps []rProp) []*rEl {
			ps = append([]rProp{{p: "spdx:snippetFromFile", o: "Rd:SPDXRef-{f}", set: []string{"SnippetFromFileSPDXIdentifier={f}"}}}, ps...)
			return append(inPkg("spdx:hasFile", rFile("{f}", "Files[]")), rSnip("{s}", "doc.Packages[0].Files[0]", ps...))
		}},
		{"annotation", []rAttr{
			rForm("spdx:annotator", "LPerson: {#}", "Annotator.Annotator={#}", "Annotator.AnnotatorType=Person"),
			rText("spdx:annotationDate", "AnnotationDate"),
			rText("rdfs:comment", "AnnotationComment"),
			rForm("spdx:annotationType", "Rspdx:annotationType_review", "AnnotationType=REVIEW"),
		}, func(ps []rProp) []*rEl {
			return in("spdx:annotation", rAnnotEl("ann", "DOCUMENT", ps))
		}},
		{"relationship", []rAttr{
			rForm("spdx:relationshipType", "Rspdx:relationshipType_dependsOn", "Relationship=dependsOn"),
			rForm("spdx:relatedSpdxElement", "Rd:SPDXRef-{#}", "RefB.ElementRefID={#}"),
			rText("rdfs:comment", "RelationshipComment"),
		}, func(ps []rProp) []*rEl {
			return in("spdx:relationship", rRelEl("rel", "DOCUMENT", ps))
		}},
		{"review", []rAttr{
			rForm("spdx:reviewer", "LPerson: {#}", "Reviewer={#}", "ReviewerType=Person"),
			rText("spdx:reviewDate", "ReviewDate"),
			rText("rdfs:comment", "ReviewComment"),
		}, func(ps []rProp) []*rEl {
			return in("spdx:reviewed", &rEl{node: "Brev", typ: "spdx:Review", path: "Reviews[]", props: ps})
		}},
		{"extracted licence", []rAttr{
			rText("spdx:licenseId", "LicenseIdentifier"),
			rText("spdx:extractedText", "ExtractedText"),
			rText("spdx:name", "LicenseName"),
			rText("rdfs:comment", "LicenseComment"),
			rForm("rdfs:seeAlso", "Lhttp://x.org/{#}", "LicenseCrossReferences[]=http://x.org/{#}"),
		}, func(ps []rProp) []*rEl {
			return in("spdx:hasExtractedLicensingInfo", &rEl{node: "Id:LicenseRef-l", typ: "spdx:ExtractedLicensingInfo", path: "OtherLicenses[]", props: ps})
		}},
	}
}

func rSnip(n, file string, props ...rProp) *rEl {
	return &rEl{node: "Id:SPDXRef-" + n, typ: "spdx:Snippet", path: file + ".Snippets<" + strings.Trim(n, "{}") + ">", set: []string{"SnippetSPDXIdentifier=" + n}, props: props}
}

// rdfWant is what the document of the elements must hold.
func rdfWant(els []*rEl) map[string]string {
	w := &rWant{m: map[string]string{}, n: map[string]int{}}
	for _, e := range els {
		w.expect(e, "doc")
	}
	for k := range w.m {
		if strings.HasPrefix(k, "doc.CreationInfo.") {
			return w.m
		}
	}
	w.m["doc.CreationInfo"] = "{allocated}"
	return w.m
}

func rdfTriples(els []*rEl) []rTriple {
	var ts []rTriple
	for _, e := range els {
		ts = e.triples(ts)
	}
	return ts
}

func reverseTriples(ts []rTriple) []rTriple {
	out := make([]rTriple, len(ts))
	for i, t := range ts {
		out[len(ts)-1-i] = t
	}
	return out
}

// reversed is an element whose statements are given the other way round.
func (e *rEl) reversed() *rEl {
	r := *e
	r.props = nil
	for i := len(e.props) - 1; i >= 0; i-- {
		p := e.props[i]
		if p.el != nil {
			p.el = p.el.reversed()
		}
		r.props = append(r.props, p)
	}
	return &r
}

// rdfHolds expects that reading the elements gives what they say; rev reads
// the same statements in reversed order.
func rdfHolds(R *Report, ver, key string, els []*rEl, lists ...string) {
	for _, rev := range []bool{false, true} {
		rdfHoldsOnce(R, ver, key, els, rev, lists...)
	}
}

func rdfHoldsOnce(R *Report, ver, key string, els []*rEl, rev bool, lists ...string) {
	k, ts, want := key, rdfTriples(els), rdfWant(els)
	if rev {
		k += " reversed"
		ts = reverseTriples(ts)
		var rs []*rEl
		for _, e := range els {
			rs = append(rs, e.reversed())
		}
		want = rdfWant(rs)
	}
	r := rdfRun(R, ver, k, ts, func(in *Interp) { in.mapRev = rev })
	r.succeeds(func(o Outcome) string {
		got := rdfLeaves(r, o, ver)
		for _, m := range []map[string]string{want, got} {
			for k, v := range m {
				if v == "{allocated}" && strings.HasSuffix(k, ".PackageVerificationCode") {
					delete(m, k)
				}
			}
		}
		return mapDiff(canonList(want, lists...), canonList(got, lists...))
	})
}

// rdfValues are the values with a meaning of their own: what each is read as.
type rValue struct {
	class, pred, obj string
	set              []string
}

func rdfValues(ver string) []rValue {
	var out []rValue
	add := func(class, pred, obj string, set ...string) { out = append(out, rValue{class, pred, obj, set}) }
	for _, k := range []string{"I", "R"} {
		for _, v := range []string{"none", "NONE", "noassertion", "NOASSERTION"} {
			up := strings.ToUpper(v)
			for _, f := range []struct{ class, pred, field string }{
				{"document", "spdx:dataLicense", "DataLicense"},
				{"package", "spdx:licenseConcluded", "PackageLicenseConcluded"},
				{"package", "spdx:licenseDeclared", "PackageLicenseDeclared"},
				{"package", "spdx:licenseInfoFromFiles", "PackageLicenseInfoFromFiles[]"},
				{"package", "spdx:downloadLocation", "PackageDownloadLocation"},
				{"package", "spdx:copyrightText", "PackageCopyrightText"},
				{"file", "spdx:licenseConcluded", "LicenseConcluded"},
				{"file", "spdx:licenseInfoInFile", "LicenseInfoInFiles[]"},
				{"file", "spdx:copyrightText", "FileCopyrightText"},
				{"snippet", "spdx:licenseConcluded", "SnippetLicenseConcluded"},
				{"snippet", "spdx:licenseInfoInSnippet", "LicenseInfoInSnippet[]"},
				{"snippet", "spdx:copyrightText", "SnippetCopyrightText"},
			} {
				add(f.class, f.pred, k+"spdx:"+v, f.field+"="+up)
			}
			if up == "NOASSERTION" {
				add("file", "spdx:noticeText", k+"spdx:"+v, "FileNotice=NOASSERTION")
			}
			if k == "R" && v == up {
				add("relationship", "spdx:relatedSpdxElement", k+"spdx:"+v, "RefB.SpecialID="+up)
			}
		}
	}
	for _, f := range []struct{ pred, field, name string }{{"spdx:supplier", "PackageSupplier", "Supplier"}, {"spdx:originator", "PackageOriginator", "Originator"}} {
		for _, t := range []string{"Person", "Organization"} {
			for _, sep := range []string{": ", ":", " : "} {
				add("package", f.pred, "L"+t+sep+"{x}", f.field+"."+f.name+"={x}", f.field+"."+f.name+"Type="+t)
			}
			add("package", f.pred, "L"+t+": {x} ({y}: z)", f.field+"."+f.name+"={x} ({y}: z)", f.field+"."+f.name+"Type="+t)
		}
		for _, v := range []string{"NOASSERTION", "noassertion", " NOASSERTION "} {
			add("package", f.pred, "L"+v, f.field+"."+f.name+"=NOASSERTION")
		}
	}
	for _, t := range []string{"Person", "Organization", "Tool"} {
		add("annotation", "spdx:annotator", "L"+t+": {x}", "Annotator.Annotator={x}", "Annotator.AnnotatorType="+t)
		add("review", "spdx:reviewer", "L"+t+": {x}", "Reviewer={x}", "ReviewerType="+t)
		add("creation info", "spdx:creator", "L"+t+": {x}", "Creators[0].Creator={x}", "Creators[0].CreatorType="+t)
		add("creation info", "spdx:creator", "L"+t+": {x}: {y}", "Creators[0].Creator={x}: {y}", "Creators[0].CreatorType="+t)
	}
	for _, v := range []string{"true", "True", "TRUE"} {
		add("package", "spdx:filesAnalyzed", "L"+v, "IsFilesAnalyzedTagPresent=true", "FilesAnalyzed=true")
	}
	for _, v := range []string{"false", "False"} {
		add("package", "spdx:filesAnalyzed", "L"+v, "IsFilesAnalyzedTagPresent=true", "FilesAnalyzed=false")
	}
	for _, k := range []string{"I", "R"} {
		for _, v := range []string{"review", "other"} {
			add("annotation", "spdx:annotationType", k+"spdx:annotationType_"+v, "AnnotationType="+strings.ToUpper(v))
		}
		cats := map[string]string{"security": "SECURITY", "packageManager": "PACKAGE-MANAGER", "persistentId": "PERSISTENT-ID", "other": "OTHER"}
		for _, v := range sortedKeys(cats) {
			c := cats[v]
			add("external reference", "spdx:referenceCategory", k+"spdx:referenceCategory_"+v, "Category="+c)
		}
		for _, v := range rdfRelTypes(ver) {
			add("relationship", "spdx:relationshipType", k+"spdx:relationshipType_"+v, "Relationship="+v)
		}
		for _, v := range []string{"source", "binary", "archive", "application", "audio", "image", "text", "video", "documentation", "spdx", "other"} {
			add("file", "spdx:fileType", k+"spdx:fileType_"+v, "FileTypes[]="+v)
		}
		if ver == "v2_3" {
			for _, v := range []string{"application", "framework", "library", "container", "operating_system", "device", "firmware", "source", "archive", "file", "install", "other"} {
				add("package", "spdx:primaryPackagePurpose", k+"spdx:packagePurpose_"+v, "PrimaryPackagePurpose="+strings.ToUpper(strings.ReplaceAll(v, "_", "-")))
			}
		}
	}
	for _, p := range []string{"DocumentRef-", ""} {
		add("external document reference", "spdx:externalDocumentId", "L"+p+"{x}", "DocumentRefID={x}")
	}
	return out
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func rdfRelTypes(ver string) []string {
	ts := strings.Fields(`amendment ancestorOf buildDependencyOf buildToolOf containedBy contains copyOf dataFile dataFileOf
		dependencyManifestOf dependencyOf dependsOn descendantOf describedBy describes devDependencyOf devToolOf
		distributionArtifact documentation dynamicLink exampleOf expandedFromArchive fileAdded fileDeleted fileModified
		generatedFrom generates hasPrerequisite metafileOf optionalComponentOf optionalDependencyOf other packageOf
		patchApplied patchFor prerequisiteFor providedDependencyOf runtimeDependencyOf staticLink testDependencyOf testOf
		testToolOf testcaseOf variantOf`)
	if ver == "v2_3" {
		ts = append(ts, "requirementDescriptionFor", "specificationFor")
	}
	return ts
}

func rdfAlgorithms(ver string) map[string]string {
	algs := map[string]string{"sha1": "SHA1", "sha224": "SHA224", "sha256": "SHA256", "sha384": "SHA384", "sha512": "SHA512", "md2": "MD2", "md4": "MD4", "md5": "MD5", "md6": "MD6"}
	if ver == "v2_3" {
		for a, b := range map[string]string{"sha3_256": "SHA3-256", "sha3_384": "SHA3-384", "sha3_512": "SHA3-512", "blake2b256": "BLAKE2b-256", "blake2b384": "BLAKE2b-384", "blake2b512": "BLAKE2b-512", "blake3": "BLAKE3", "adler32": "ADLER32"} {
			algs[a] = b
		}
	}
	return algs
}

// rdfLicences are the forms of a licence and the expression each stands for.
type rLic struct {
	name string
	mk   func(n string) rProp
	want string
}

func rdfLicences(ver string) []rLic {
	uri := func(k, id string) func(n string) rProp {
		return func(n string) rProp { return rProp{p: "spdx:member", o: k + "lic:" + id} }
	}
	el := func(node, typ string, props ...rProp) func(n string) rProp {
		return func(n string) rProp {
			return rProp{p: "spdx:member", el: &rEl{node: strings.ReplaceAll(node, "#", n), typ: typ, props: props}}
		}
	}
	set := func(typ string, ms ...rLic) rLic {
		l := rLic{name: typ, mk: func(n string) rProp {
			e := &rEl{node: "B" + n, typ: "spdx:" + typ + "LicenseSet"}
			for i, m := range ms {
				e.props = append(e.props, m.mk(fmt.Sprintf("%s.%d", n, i)))
			}
			return rProp{p: "spdx:member", el: e}
		}}
		var ws []string
		for _, m := range ms {
			w := m.want
			if typ == "Conjunctive" && strings.HasPrefix(m.name, "Disjunctive") && strings.Contains(w, " OR ") {
				w = "(" + w + ")"
			}
			l.name += " " + m.name
			ws = append(ws, w)
		}
		l.want = strings.Join(ws, map[string]string{"Conjunctive": " AND ", "Disjunctive": " OR "}[typ])
		l.name += ";"
		return l
	}
	txt := func(p, v string) rProp { return rProp{p: p, o: "L" + v} }
	mit, isc := rLic{"resource", uri("R", "MIT"), "MIT"}, rLic{"URI", uri("I", "ISC"), "ISC"}
	listed := rLic{"ListedLicense", el("Ilic:#", "spdx:ListedLicense", txt("spdx:licenseId", "{a}"), txt("spdx:name", "{b}"), txt("spdx:licenseText", "{c}"), txt("spdx:isOsiApproved", "true"), txt("spdx:isFsfLibre", "false"), txt("spdx:isDeprecatedLicenseId", "false"), txt("spdx:standardLicenseHeader", "{d}"), txt("spdx:standardLicenseTemplate", "{e}"), txt("spdx:standardLicenseHeaderTemplate", "{f}"), txt("rdfs:comment", "{g}"), txt("rdfs:seeAlso", "http://x.org/{h}")), "{a}"}
	license := rLic{"License", el("Ilic:#", "spdx:License", txt("spdx:licenseId", "{a}")), "{a}"}
	extr := rLic{"ExtractedLicensingInfo", el("Id:LicenseRef-#", "spdx:ExtractedLicensingInfo", txt("spdx:extractedText", "{t}"), txt("spdx:licenseId", "{e}"), txt("spdx:name", "{n}")), "{e}"}
	simple := rLic{"SimpleLicensingInfo", el("B#", "spdx:SimpleLicensingInfo", txt("spdx:licenseId", "{s}"), txt("spdx:example", "{x}")), "{s}"}
	exc := func(m rLic, byURI bool) rLic {
		return rLic{fmt.Sprintf("WithException %s %v", m.name, byURI), func(n string) rProp {
			e := &rEl{node: "B" + n, typ: "spdx:WithExceptionOperator", props: []rProp{m.mk(n + ".m")}}
			if byURI {
				e.props = append(e.props, rProp{p: "spdx:licenseException", o: "Rlic:Ex-1"})
			} else {
				e.props = append(e.props, rProp{p: "spdx:licenseException", el: &rEl{node: "B" + n + ".e", typ: "spdx:LicenseException", props: []rProp{
					txt("spdx:name", "{en}"), txt("spdx:licenseExceptionId", "Ex-1"), txt("spdx:licenseExceptionText", "{et}"), txt("rdfs:comment", "{ec}"), txt("spdx:example", "{ex}"), txt("rdfs:seeAlso", "http://x.org/{es}")}}})
			}
			return rProp{p: "spdx:member", el: e}
		}, m.want + " WITH Ex-1"}
	}
	later := rLic{"OrLater", func(n string) rProp {
		return rProp{p: "spdx:member", el: &rEl{node: "B" + n, typ: "spdx:OrLaterOperator", props: []rProp{simple.mk(n + ".m")}}}
	}, "{s}+"}
	or, and := set("Disjunctive", mit, isc), set("Conjunctive", mit, isc)
	return []rLic{mit, isc, listed, license, extr, simple, later,
		exc(simple, false), exc(simple, true), exc(mit, false), exc(mit, true), exc(listed, false), exc(extr, true),
		and, or, set("Conjunctive", mit), set("Disjunctive", extr), set("Conjunctive", extr, listed, simple), set("Disjunctive", simple, extr, isc),
		set("Conjunctive", or, extr), set("Conjunctive", extr, or), set("Conjunctive", set("Disjunctive", mit), isc), set("Disjunctive", and, extr), set("Disjunctive", extr, and),
		set("Conjunctive", or, set("Disjunctive", extr, simple)), set("Disjunctive", and, set("Conjunctive", extr, exc(simple, false))),
		set("Conjunctive", exc(mit, true), or), set("Disjunctive", set("Conjunctive", or, extr), simple), set("Conjunctive", set("Conjunctive", mit, or), extr)}
}

// rdfDocs are documents with elements at several places.
func rdfDocs(ver string) map[string][]*rEl {
	ref := func(p, n string, set ...string) rProp { return rProp{p: p, o: "Rd:SPDXRef-" + n, set: set} }
	named := func(n string) rProp {
		return rProp{p: "spdx:name", o: "L{" + n + " name}", set: []string{"PackageName={" + n + " name}"}}
	}
	fnamed := func(n string) rProp {
		return rProp{p: "spdx:fileName", o: "L{" + n + " name}", set: []string{"FileName={" + n + " name}"}}
	}
	attr := func(v string) rProp {
		return rProp{p: "spdx:attributionText", o: "L{" + v + "}", set: []string{"PackageAttributionTexts[]={" + v + "}"}}
	}
	rel := func(n, subject, typ string, to rProp) rProp {
		to.p = "spdx:relatedSpdxElement"
		return rProp{p: "spdx:relationship", el: rRelEl(n, subject, []rProp{{p: "spdx:relationshipType", o: "Rspdx:relationshipType_" + typ, set: []string{"Relationship=" + typ}}, to})}
	}
	snip := func(n string, from rProp) *rEl {
		return rSnip("{"+n+"}", "doc.Files[0]", from, rProp{p: "spdx:name", o: "L{" + n + " name}", set: []string{"SnippetName={" + n + " name}"}})
	}
	d := map[string][]*rEl{}
	d["a package that is referred to and defined beside the document"] = []*rEl{rDoc(ref("spdx:describesPackage", "{p}")), rPkg("{p}", named("p"), attr("t"))}
	d["a package nothing refers to"] = []*rEl{rDoc(), rPkg("{p}", named("p"), attr("t"))}
	d["two packages"] = []*rEl{rDoc(rProp{p: "spdx:describesPackage", el: rPkg("{p}", named("p"))}, rProp{p: "spdx:describesPackage", el: rPkg("{q}", named("q"))})}
	d["a package described twice"] = []*rEl{rDoc(rProp{p: "spdx:describesPackage", el: rPkg("{p}", named("p"), attr("t"))}, ref("spdx:describesPackage", "{p}"), rProp{p: "spdx:describesPackage", o: "Id:SPDXRef-{p}"})}
	d["a package that a relationship mentions again"] = []*rEl{rDoc(rProp{p: "spdx:describesPackage", el: rPkg("{p}", named("p"), attr("t"))}, rel("r", "DOCUMENT", "describes", rProp{o: "Id:SPDXRef-{p}", set: []string{"RefB.ElementRefID={p}"}}))}
	d["a package that a relationship defines"] = []*rEl{rDoc(rel("r", "DOCUMENT", "describes", rProp{el: rPkg("{p}", named("p"), attr("t")), set: []string{"RefB.ElementRefID={p}"}}))}
	d["a file that a relationship defines"] = []*rEl{rDoc(rel("r", "DOCUMENT", "describes", rProp{el: rFile("{f}", "doc.Files[]", fnamed("f")), set: []string{"RefB.ElementRefID={f}"}}))}
	d["a file that a relationship of a package defines"] = []*rEl{describing(rPkg("{p}", named("p"), rel("r", "{p}", "contains", rProp{el: rFile("{f}", "doc.Files[]", fnamed("f")), set: []string{"RefB.ElementRefID={f}"}}), attr("t")))}
	d["a relationship to an element without more"] = []*rEl{rDoc(rel("r", "DOCUMENT", "describes", rProp{el: &rEl{node: "Id:SPDXRef-{e}", typ: "spdx:SpdxElement"}, set: []string{"RefB.ElementRefID={e}"}}))}
	d["a relationship to another document"] = []*rEl{rDoc(rel("r", "DOCUMENT", "amendment", rProp{o: "Rhttp://x.org/d#DocumentRef-{o}:SPDXRef-{e}", set: []string{"RefB.DocumentRefID={o}", "RefB.ElementRefID={e}"}}))}
	d["relationships both ways"] = []*rEl{
		rDoc(rProp{p: "spdx:describesPackage", el: rPkg("{p}", rel("r", "{p}", "contains", ref("", "{f}", "RefB.ElementRefID={f}")))}),
		rFile("{f}", "doc.Files[]", fnamed("f"), rel("r2", "{f}", "containedBy", ref("", "{p}", "RefB.ElementRefID={p}")))}
	d["a file of a package defined beside the document"] = []*rEl{describing(rPkg("{p}", named("p"), ref("spdx:hasFile", "{f}", "Files[0].FileSPDXIdentifier={f}", "Files[0].FileName={f name}"))), {node: "Id:SPDXRef-{f}", typ: "spdx:File", path: "doc.Packages[0].Files[0]", props: []rProp{fnamed("f")}}}
	d["a file of two packages"] = []*rEl{rDoc(
		rProp{p: "spdx:describesPackage", el: rPkg("{p}", rProp{p: "spdx:hasFile", el: rFile("{f}", "Files[]", fnamed("f"))})},
		rProp{p: "spdx:describesPackage", el: rPkg("{q}", rProp{p: "spdx:hasFile", o: "Id:SPDXRef-{f}", set: []string{"Files[0].FileSPDXIdentifier={f}", "Files[0].FileName={f name}"}})})}
	d["a file in a package and one outside"] = []*rEl{describing(rPkg("{p}", rProp{p: "spdx:hasFile", el: rFile("{f}", "Files[]", fnamed("f"))})), rFile("{g}", "doc.Files[]", fnamed("g"))}
	d["files outside packages"] = []*rEl{rDoc(), rFile("{f}", "doc.Files[]", fnamed("f")), rFile("{g}", "doc.Files[]", fnamed("g")), rFile("{h}", "doc.Files[]", fnamed("h"))}
	d["a file that depends on another"] = []*rEl{rDoc(), rFile("{f}", "doc.Files[]", fnamed("f"), rProp{p: "spdx:fileDependency", el: rFile("{g}", "doc.Files[]", fnamed("g")), set: []string{"FileDependencies[]={g}"}})}
	d["a file that depends on one defined elsewhere"] = []*rEl{rDoc(), rFile("{f}", "doc.Files[]", ref("spdx:fileDependency", "{g}", "FileDependencies[]={g}"), fnamed("f")), rFile("{g}", "doc.Files[]", fnamed("g"))}
	d["files that depend on each other"] = []*rEl{rDoc(), rFile("{f}", "doc.Files[]", ref("spdx:fileDependency", "{g}", "FileDependencies[]={g}"), fnamed("f")), rFile("{g}", "doc.Files[]", ref("spdx:fileDependency", "{f}", "FileDependencies[]={f}"), fnamed("g"))}
	d["snippets of a file"] = []*rEl{rDoc(), rFile("{f}", "doc.Files[]", fnamed("f")),
		snip("s", ref("spdx:snippetFromFile", "{f}", "SnippetFromFileSPDXIdentifier={f}")), snip("t", ref("spdx:snippetFromFile", "{f}", "SnippetFromFileSPDXIdentifier={f}"))}
	d["a snippet that defines its file"] = []*rEl{rDoc(), snip("s", rProp{p: "spdx:snippetFromFile", el: rFile("{f}", "doc.Files[]", fnamed("f")), set: []string{"SnippetFromFileSPDXIdentifier={f}"}})}
	d["licences beside the document"] = []*rEl{
		rDoc(rProp{p: "spdx:describesPackage", el: rPkg("{p}", rProp{p: "spdx:licenseDeclared", o: "Rd:LicenseRef-1", set: []string{"PackageLicenseDeclared={e}"}})}),
		{node: "Id:LicenseRef-1", typ: "spdx:ExtractedLicensingInfo", props: []rProp{{p: "spdx:licenseId", o: "L{e}"}}},
		{node: "Ilic:MIT", typ: "spdx:ListedLicense", props: []rProp{{p: "spdx:licenseId", o: "LMIT"}}}}
	d["an extracted licence beside the document"] = []*rEl{
		rDoc(rProp{p: "spdx:hasExtractedLicensingInfo", o: "Rd:LicenseRef-1", set: []string{"OtherLicenses[0].LicenseIdentifier={e}", "OtherLicenses[0].ExtractedText={t}"}}),
		{node: "Id:LicenseRef-1", typ: "spdx:ExtractedLicensingInfo", props: []rProp{{p: "spdx:licenseId", o: "L{e}"}, {p: "spdx:extractedText", o: "L{t}"}}}}
	d["an artifact of a project given by URI"] = []*rEl{rDoc(), rFile("{f}", "doc.Files[]", rProp{p: "spdx:artifactOf", o: "Rhttp://x.org/prj", set: []string{"ArtifactOfProjects[0].URI=http://x.org/prj"}}, fnamed("f"))}
	d["a document identifier of its own"] = []*rEl{{node: "Id:{own}", typ: "spdx:SpdxDocument", path: "doc", set: []string{"DocumentNamespace=http://x.org/d", "SPDXIdentifier={own}"}}}
	return d
}

func hostOf(ver, class string) func(ps []rProp) []*rEl {
	for _, c := range rdfClasses(ver) {
		if c.name == class {
			return c.host
		}
	}
	return nil
}

func checkC13(R *Report) {
	R.same(caseNames)
	R.rule("attribute", "Every attribute that SPDX gives an element arrives in its field of that element, unchanged, whichever other attributes the element has and in whichever order they stand; nothing else in the document is set beyond the identity of the elements.")
	R.rule("value", "NONE, NOASSERTION, purposes, relationship types, categories, agents and algorithms arrive in the form the document model gives them.")
	R.rule("licence", "A licence given by URI, listed or full, or as a set, exception or operator, becomes the expression with the same meaning.")
	R.rule("structure", "Elements are found wherever they are defined and however they are referred to, once each, and lists keep the order of the text.")
	R.assumption("gordf gives the statements of the text with the types and texts of their nodes; the tables of attributes in checker/c13_rdf.go follow the SPDX 2.2 and 2.3 RDF terms and the document model")
	R.minObs = 1500
	var jobs []func()
	for _, ver := range []string{"v2_2", "v2_3"} {
		ver := ver
		for _, c := range rdfClasses(ver) {
			c := c
			key := fmt.Sprintf("%s: %s", ver, c.name)
			for _, a := range c.attrs {
				a := a
				jobs = append(jobs, func() {
					rdfHolds(R, ver, key+" with "+a.name, c.host([]rProp{a.mk("x", 1)}))
				})
			}
			if R.thorough() {
				for _, a := range c.attrs {
					for _, b := range c.attrs {
						a, b := a, b
						if a.name == b.name && !a.list {
							continue
						}
						jobs = append(jobs, func() {
							rdfHoldsOnce(R, ver, key+" with "+a.name+" before "+b.name, c.host([]rProp{a.mk("x", 1), b.mk("x", 2)}), false)
						})
					}
				}
			}
			jobs = append(jobs, func() {
				var ps []rProp
				for i := 1; i <= 2; i++ {
					for _, a := range c.attrs {
						if i == 1 || a.list {
							ps = append(ps, a.mk("x", i))
						}
					}
				}
				rdfHolds(R, ver, key+" with every attribute", c.host(ps))
				rdfHolds(R, ver, key+" without attributes", c.host(nil))
			})
		}
	}
	for _, ver := range []string{"v2_2", "v2_3"} {
		ver := ver
		for _, v := range rdfValues(ver) {
			v := v
			jobs = append(jobs, func() {
				rdfHolds(R, ver, fmt.Sprintf("%s: %s %s of value %s", ver, v.class, v.pred, v.obj), hostOf(ver, v.class)([]rProp{{p: v.pred, o: v.obj, set: v.set}}))
			})
		}
		for _, class := range []string{"package", "file"} {
			class, list := class, map[string]string{"package": "PackageChecksums[]", "file": "Checksums[]"}[class]
			algs := rdfAlgorithms(ver)
			for _, a := range sortedKeys(algs) {
				a := a
				jobs = append(jobs, func() {
					el := &rEl{node: "Bck", typ: "spdx:Checksum", path: list, props: []rProp{
						{p: "spdx:checksumValue", o: "L{v}", set: []string{"Value={v}"}},
						{p: "spdx:algorithm", o: "Rspdx:checksumAlgorithm_" + a, set: []string{"Algorithm=" + algs[a]}}}}
					rdfHolds(R, ver, fmt.Sprintf("%s: %s checksum of algorithm %s", ver, class, a), hostOf(ver, class)([]rProp{{p: "spdx:checksum", el: el}}))
				})
			}
		}
		for _, l := range rdfLicences(ver) {
			for _, f := range []struct{ class, pred, field string }{
				{"package", "spdx:licenseConcluded", "PackageLicenseConcluded"},
				{"package", "spdx:licenseDeclared", "PackageLicenseDeclared"},
				{"file", "spdx:licenseConcluded", "LicenseConcluded"},
				{"file", "spdx:licenseInfoInFile", "LicenseInfoInFiles[]"},
				{"snippet", "spdx:licenseConcluded", "SnippetLicenseConcluded"},
				{"snippet", "spdx:licenseInfoInSnippet", "LicenseInfoInSnippet[]"},
			} {
				l, f := l, f
				if l.name == "OrLater" && f.field != "PackageLicenseConcluded" {
					continue
				}
				jobs = append(jobs, func() {
					p := l.mk("L")
					p.p, p.set = f.pred, []string{f.field + "=" + l.want}
					rdfHoldsOnce(R, ver, fmt.Sprintf("%s: %s %s of form %s", ver, f.class, f.pred, l.name), hostOf(ver, f.class)([]rProp{p}), false)
				})
			}
		}
		for name, els := range rdfDocs(ver) {
			name, els := name, els
			jobs = append(jobs, func() { rdfHolds(R, ver, ver+": "+name, els, rdfLists...) })
		}
	}
	par(jobs)
}
