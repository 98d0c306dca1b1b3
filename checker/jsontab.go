package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The keys of the SPDX JSON form and the fields of the model they stand for.
//
//	key field kind [versions]
//
// kind: s string, i integer, b boolean, eid element id, did document id, ref
// document element reference, agent(Field) "Type: Name", cat reference
// category, otherwise an object; * before: a list; ! after the key: the key
// may stand there without a value; + after the key: it must.
var jsonTab = map[string]string{
	"doc": `
spdxVersion! SPDXVersion s
dataLicense! DataLicense s
SPDXID! SPDXIdentifier eid
name! DocumentName s
documentNamespace! DocumentNamespace s
externalDocumentRefs ExternalDocumentReferences *extref
comment DocumentComment s
creationInfo! CreationInfo creation
packages Packages *package
files Files *file
hasExtractedLicensingInfos OtherLicenses *license
relationships Relationships *relationship
annotations Annotations *annotation
snippets Snippets *snippet`,
	"extref": `
externalDocumentId! DocumentRefID did
spdxDocument! URI s
checksum! Checksum checksum`,
	"checksum": `
algorithm! Algorithm s
checksumValue! Value s`,
	"creation": `
licenseListVersion LicenseListVersion s
creators! Creators *agent:Creator
created! Created s
comment CreatorComment s`,
	"package": `
name! PackageName s
SPDXID! PackageSPDXIdentifier eid
versionInfo PackageVersion s
packageFileName PackageFileName s
supplier PackageSupplier agent:Supplier
originator PackageOriginator agent:Originator
downloadLocation! PackageDownloadLocation s
filesAnalyzed FilesAnalyzed b
packageVerificationCode PackageVerificationCode pvc
checksums PackageChecksums *checksum
homepage PackageHomePage s
sourceInfo PackageSourceInfo s
licenseConcluded! PackageLicenseConcluded s
licenseInfoFromFiles! PackageLicenseInfoFromFiles *s
licenseDeclared! PackageLicenseDeclared s
licenseComments PackageLicenseComments s
copyrightText! PackageCopyrightText s
summary PackageSummary s
description PackageDescription s
comment PackageComment s
externalRefs PackageExternalReferences *xref
attributionTexts PackageAttributionTexts *s 23
primaryPackagePurpose PrimaryPackagePurpose s 3
releaseDate ReleaseDate s 3
builtDate BuiltDate s 3
validUntilDate ValidUntilDate s 3
files Files *file
annotations Annotations *annotation`,
	"pvc": `
packageVerificationCodeValue! Value s 1
packageVerificationCodeValue+ Value s 23
packageVerificationCodeExcludedFiles ExcludedFiles *s`,
	"xref": `
referenceCategory! Category cat
referenceType! RefType s
referenceLocator! Locator s
comment ExternalRefComment s`,
	"file": `
fileName! FileName s
SPDXID! FileSPDXIdentifier eid
fileTypes FileTypes *s
checksums! Checksums *checksum
licenseConcluded! LicenseConcluded s
licenseInfoInFiles! LicenseInfoInFiles *s
licenseComments LicenseComments s
copyrightText! FileCopyrightText s
comment FileComment s
noticeText FileNotice s
fileContributors FileContributors *s
attributionTexts FileAttributionTexts *s 23
artifactOfs ArtifactOfProjects *artifact 3
fileDependencies FileDependencies *s 3
annotations Annotations *annotation`,
	"artifact": `
name! Name s
homePage! HomePage s
URI! URI s`,
	"license": `
licenseId! LicenseIdentifier s
extractedText! ExtractedText s
name LicenseName s
seeAlsos LicenseCrossReferences *s
comment LicenseComment s`,
	"relationship": `
spdxElementId! RefA ref
relatedSpdxElement! RefB ref
relationshipType! Relationship s
comment RelationshipComment s`,
	"annotation": `
annotator! Annotator agent:Annotator
annotationDate! AnnotationDate s
annotationType! AnnotationType s
comment! AnnotationComment s`,
	"snippet": `
SPDXID! SnippetSPDXIdentifier eid
snippetFromFile! SnippetFromFileSPDXIdentifier eid
ranges! Ranges *range
licenseConcluded! SnippetLicenseConcluded s
licenseInfoInSnippets LicenseInfoInSnippet *s
licenseComments SnippetLicenseComments s
copyrightText! SnippetCopyrightText s
comment SnippetComment s
name SnippetName s`,
	"range": `
startPointer! StartPointer pointer
endPointer! EndPointer pointer`,
	"pointer": `
offset Offset i
lineNumber LineNumber i
reference! FileSPDXIdentifier eid`,
}

// fields of the model that are not part of the JSON form
var jsonNone = []string{
	"doc.Reviews[]", ".AnnotationSPDXIdentifier.", ".Snippets[].", ".Snippets.key[]", ".SnippetAttributionTexts[]",
	".IsUnpackaged", ".IsFilesAnalyzedTagPresent", ".hasFiles[]",
}

// and those of the older versions only
var jsonNoneOld = []string{".ArtifactOfProjects[]", ".FileDependencies[]"}

func jsonSkip(ver, p string) bool {
	l := jsonNone
	if ver != "v2_3" {
		l = append(append([]string(nil), l...), jsonNoneOld...)
	}
	for _, s := range l {
		if s == ".Snippets[]." {
			if strings.Contains(p, "Files[].Snippets[]") {
				return true
			}
			continue
		}
		if strings.Contains(p, s) {
			return true
		}
	}
	return false
}

type jsonRow struct {
	key, field, kind string
	list, bare, must bool
}

func jsonRows(kind, ver string) []jsonRow {
	var rows []jsonRow
	for _, l := range strings.Split(strings.TrimSpace(jsonTab[kind]), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && !strings.Contains(f[3], ver[3:]) {
			continue
		}
		r := jsonRow{key: f[0], field: f[1], kind: f[2]}
		if strings.HasSuffix(r.key, "!") {
			r.key, r.bare = r.key[:len(r.key)-1], true
		}
		if strings.HasSuffix(r.key, "+") {
			r.key, r.must = r.key[:len(r.key)-1], true
		}
		if r.kind[0] == '*' {
			r.kind, r.list = r.kind[1:], true
		}
		rows = append(rows, r)
	}
	return rows
}

// jsonTree builds the JSON tree the table gives for the document of a scenario.
type jsonTree struct {
	in  *Interp
	ver string
	cfg *shapeCfg
	// text gives the model path of every JSON path reached, for reports
	leafOf   map[string]string
	omit     func(jpath string) bool  // keys left out
	over     func(jpath string) *Term // values put in place of the table's
	overElem func(jpath string) *Term // also of list elements
	extra    func(jpath, mpath string) []*Term
}

func (x *jsonTree) leaf(path string, t types.Type) *Term {
	if r := x.cfg.leaf(path, t); r != nil {
		return r
	}
	return x.in.Label(path, t)
}

var jsonNullObj = map[string]bool{"creation": true, "agent:Supplier": true, "agent:Originator": true}

func (x *jsonTree) obj(kind, jp, mp string) *Term {
	var kv []*Term
	for _, r := range jsonRows(kind, x.ver) {
		j, m := jp+"."+r.key, mp+"."+r.field
		if x.omit != nil && x.omit(j) {
			continue
		}
		if x.over != nil {
			if t := x.over(j); t != nil {
				kv = append(kv, x.in.ts.Str(r.key), t)
				continue
			}
		}
		if r.list {
			if x.cfg.slice(m) == 'n' {
				if r.bare {
					kv = append(kv, x.in.ts.Str(r.key), x.in.ts.Str("null"))
				}
				continue
			}
			var es []*Term
			for i := 0; i < x.cfg.n(m); i++ {
				if x.overElem != nil {
					if t := x.overElem(fmt.Sprintf("%s[%d]", j, i)); t != nil {
						es = append(es, t)
						continue
					}
				}
				es = append(es, x.val(r, fmt.Sprintf("%s[%d]", j, i), fmt.Sprintf("%s[%d]", m, i)))
			}
			if len(es) > 0 || r.bare {
				kv = append(kv, x.in.ts.Str(r.key), x.in.jArr(es...))
			}
			continue
		}
		if jsonNullObj[r.kind] || r.kind == "pvc" && x.ver == "v2_3" {
			if x.cfg.ptr(m) == 'n' {
				if r.bare {
					kv = append(kv, x.in.ts.Str(r.key), x.in.ts.Str("null"))
				}
				continue
			}
		}
		v := x.val(r, j, m)
		if v == nil {
			continue
		}
		if !r.bare {
			if v.isStr() && !r.must && (v.str() == `""` || v.str() == "0") {
				continue
			}
			if r.kind == "pvc" && x.ver != "v2_3" && jsonEmpty(v) {
				continue
			}
		}
		kv = append(kv, x.in.ts.Str(r.key), v)
	}
	if x.extra != nil {
		kv = append(kv, x.extra(jp, mp)...)
	}
	return x.in.jObj(kv...)
}

// jsonEmpty: an object without values.
func jsonEmpty(v *Term) bool {
	for i := 1; i < len(v.Args); i += 2 {
		if a := v.Args[i]; !(a.isStr() && (a.str() == `""` || a.str() == "null")) {
			return false
		}
	}
	return true
}

func (x *jsonTree) val(r jsonRow, j, m string) *Term {
	in := x.in
	x.leafOf[j] = m
	str := types.Typ[types.String]
	switch {
	case r.kind == "s":
		return in.jStr(x.leaf(m, str))
	case r.kind == "i":
		v := x.leaf(m, types.Typ[types.Int])
		if v.isInt() {
			return in.ts.Str(v.C.ExactString())
		}
		return in.itoa(v)
	case r.kind == "b":
		v := x.leaf(m, boolT)
		if v.isBool() {
			return in.ts.Str(fmt.Sprint(constBool(v)))
		}
		return in.ts.intern(&Term{K: KOp, Op: "jsbool", Args: []*Term{v}, T: strT})
	case r.kind == "eid":
		return in.jStr(in.ts.Cat(in.ts.Str("SPDXRef-"), x.leaf(m, str)))
	case r.kind == "did":
		return in.jStr(in.ts.Cat(in.ts.Str("DocumentRef-"), x.leaf(m, str)))
	case r.kind == "cat":
		v := x.leaf(m, str)
		if v.isStr() && x.ver == "v2_2" {
			v = in.ts.Str(strings.ReplaceAll(v.str(), "-", "_"))
		} else if v.isStr() && x.ver == "v2_3" {
			v = in.ts.Str(strings.ReplaceAll(v.str(), "_", "-"))
		}
		return in.jStr(v)
	case r.kind == "ref":
		if s := x.leaf(m+".SpecialID", str); !(s.isStr() && s.str() == "") {
			return in.jStr(s)
		}
		e := in.ts.Cat(in.ts.Str("SPDXRef-"), x.leaf(m+".ElementRefID", str))
		if d := x.leaf(m+".DocumentRefID", str); !(d.isStr() && d.str() == "") {
			e = in.ts.Cat(in.ts.Str("DocumentRef-"), d, in.ts.Str(":"), e)
		}
		return in.jStr(e)
	case strings.HasPrefix(r.kind, "agent:"):
		f := r.kind[6:]
		n, t := x.leaf(m+"."+f, str), x.leaf(m+"."+f+"Type", str)
		if n.isStr() && n.str() == "NOASSERTION" {
			return in.jStr(n)
		}
		return in.jStr(in.ts.Cat(t, in.ts.Str(": "), n))
	}
	return x.obj(r.kind, j, m)
}

// jsonFlat flattens a tree: path -> text.
func jsonFlat(in *Interp, t *Term) map[string]string {
	out := map[string]string{}
	var walk func(t *Term, path string)
	walk = func(t *Term, path string) {
		if len(alts(t)) > 1 {
			out[path] = "{?" + strings.Join(termTexts(in, t), "|") + "}"
			return
		}
		v := in.jParse(t)
		switch {
		case v.kind == 'o' && len(v.kv) > 0:
			for i := 0; i+1 < len(v.kv); i += 2 {
				p := path + "." + v.kv[i].str()
				if _, dup := out[p]; dup {
					out[p] = "{?twice}"
				}
				walk(v.kv[i+1], p)
			}
		case v.kind == 'a' && len(v.kv) > 0:
			for i, e := range v.kv {
				walk(e, fmt.Sprintf("%s[%d]", path, i))
			}
		case v.kind == 'o':
			out[path] = "{}"
		case v.kind == 'a':
			out[path] = "[]"
		case v.kind == 's':
			out[path] = `"` + termText(v.x) + `"`
		case v.kind == 'b' && !v.x.isBool():
			out[path] = "{" + termText(v.x) + "}"
		default:
			out[path] = termText(t)
		}
	}
	walk(t, "doc")
	return out
}

// jsonNorm leaves out keys that may stand without a value.
func jsonNorm(m map[string]string, bare map[string]bool) map[string]string {
	for {
		n := len(m)
		for k, v := range m {
			switch v {
			case `""`, "null", "[]", "{}":
				if bare[generalise(k)] {
					delete(m, k)
				}
			}
		}
		if len(m) == n {
			return m
		}
	}
}

// jsonBare lists the generalised paths of the keys that may stand without a value.
func jsonBare(ver string) map[string]bool {
	out := map[string]bool{}
	var walk func(kind, path string, depth int)
	walk = func(kind, path string, depth int) {
		for _, r := range jsonRows(kind, ver) {
			p := path + "." + r.key
			if r.bare {
				out[p] = true
			}
			if r.list {
				p += "[]"
			}
			if jsonTab[r.kind] != "" && depth < 8 {
				walk(r.kind, p, depth+1)
			}
		}
	}
	walk("doc", "doc", 0)
	return out
}
