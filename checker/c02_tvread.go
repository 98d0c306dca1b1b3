package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register("C02", "The tag-value reader puts every value where its tag says, or fails", checkC02)
}

// rdGroup is a run of lines that belong together. {X} stands for a value that
// must end up in field X of the element; after " => " come the constants
// expected in other fields.
type rdGroup struct {
	vers string
	text string
}

var rdTable = map[string][]rdGroup{
	"start": {
		{"123", "SPDXVersion: SPDX-2.V => SPDXVersion=SPDX-2.V"},
		{"123", "DataLicense: {DataLicense}"},
		{"123", "SPDXID: SPDXRef-{SPDXIdentifier:word}"},
		{"123", "DocumentName: {DocumentName}"},
		{"123", "DocumentNamespace: {DocumentNamespace}"},
		{"123", "ExternalDocumentRef: DocumentRef-{ExternalDocumentReferences[0].DocumentRefID:word} {ExternalDocumentReferences[0].URI:uri} {ExternalDocumentReferences[0].Checksum.Algorithm:word}:{ExternalDocumentReferences[0].Checksum.Value:word}"},
		{"123", "ExternalDocumentRef: DocumentRef-{ExternalDocumentReferences[1].DocumentRefID:word} {ExternalDocumentReferences[1].URI:uri} {ExternalDocumentReferences[1].Checksum.Algorithm:word}: {ExternalDocumentReferences[1].Checksum.Value:word}"},
		{"123", "DocumentComment: {DocumentComment}"},
	},
	"creation": {
		{"123", "LicenseListVersion: {CreationInfo.LicenseListVersion}"},
		{"123", "Creator: Person: {CreationInfo.Creators[0].Creator} => CreationInfo.Creators[0].CreatorType=Person"},
		{"123", "Creator: Organization: {CreationInfo.Creators[1].Creator} => CreationInfo.Creators[1].CreatorType=Organization"},
		{"123", "Creator: Tool: {CreationInfo.Creators[2].Creator} => CreationInfo.Creators[2].CreatorType=Tool"},
		{"123", "Created: {CreationInfo.Created}"},
		{"123", "CreatorComment: {CreationInfo.CreatorComment}"},
	},
	"pkg": {
		{"123", "PackageVersion: {PackageVersion}"},
		{"123", "PackageFileName: {PackageFileName}"},
		{"123", "PackageSupplier: Person: {PackageSupplier.Supplier} => PackageSupplier.SupplierType=Person"},
		{"123", "PackageSupplier: Organization: {PackageSupplier.Supplier} => PackageSupplier.SupplierType=Organization"},
		{"123", "PackageSupplier: NOASSERTION => PackageSupplier.Supplier=NOASSERTION"},
		{"123", "PackageOriginator: Person: {PackageOriginator.Originator} => PackageOriginator.OriginatorType=Person"},
		{"123", "PackageOriginator: Organization: {PackageOriginator.Originator} => PackageOriginator.OriginatorType=Organization"},
		{"123", "PackageOriginator: NOASSERTION => PackageOriginator.Originator=NOASSERTION"},
		{"123", "PackageDownloadLocation: {PackageDownloadLocation}"},
		{"3", "PrimaryPackagePurpose: {PrimaryPackagePurpose}"},
		{"3", "ReleaseDate: {ReleaseDate}"},
		{"3", "BuiltDate: {BuiltDate}"},
		{"3", "ValidUntilDate: {ValidUntilDate}"},
		{"123", "FilesAnalyzed: true => FilesAnalyzed=true,IsFilesAnalyzedTagPresent=true"},
		{"123", "FilesAnalyzed: false => FilesAnalyzed=,IsFilesAnalyzedTagPresent=true"},
		{"123", "PackageVerificationCode: {PackageVerificationCode.Value:word}"},
		{"123", "PackageVerificationCode: {PackageVerificationCode.Value:word} (excludes: {PackageVerificationCode.ExcludedFiles[0]:word})"},
		{"123", "PackageHomePage: {PackageHomePage}"},
		{"123", "PackageSourceInfo: {PackageSourceInfo}"},
		{"123", "PackageLicenseConcluded: {PackageLicenseConcluded}"},
		{"123", "PackageLicenseInfoFromFiles: {PackageLicenseInfoFromFiles[0]}\nPackageLicenseInfoFromFiles: {PackageLicenseInfoFromFiles[1]}\nPackageLicenseInfoFromFiles: {PackageLicenseInfoFromFiles[2]}"},
		{"123", "PackageLicenseDeclared: {PackageLicenseDeclared}"},
		{"123", "PackageLicenseComments: {PackageLicenseComments}"},
		{"123", "PackageCopyrightText: {PackageCopyrightText}"},
		{"123", "PackageSummary: {PackageSummary}"},
		{"123", "PackageDescription: {PackageDescription}"},
		{"123", "PackageComment: {PackageComment}"},
		{"123", "ExternalRef: {PackageExternalReferences[0].Category:word} {PackageExternalReferences[0].RefType:word} {PackageExternalReferences[0].Locator:uri}\nExternalRefComment: {PackageExternalReferences[0].ExternalRefComment}\nExternalRef: {PackageExternalReferences[1].Category:word} {PackageExternalReferences[1].RefType:word} {PackageExternalReferences[1].Locator:uri}\nExternalRef: {PackageExternalReferences[2].Category:word} {PackageExternalReferences[2].RefType:word} {PackageExternalReferences[2].Locator:uri}\nExternalRefComment: {PackageExternalReferences[2].ExternalRefComment}"},
		{"23", "PackageAttributionText: {PackageAttributionTexts[0]}\nPackageAttributionText: {PackageAttributionTexts[1]}\nPackageAttributionText: {PackageAttributionTexts[2]}"},
		{"123", "PackageChecksum: @ALG"},
	},
	"file": {
		{"123", "FileType: {FileTypes[0]}\nFileType: {FileTypes[1]}\nFileType: {FileTypes[2]}"},
		{"123", "LicenseConcluded: {LicenseConcluded}"},
		{"123", "LicenseInfoInFile: {LicenseInfoInFiles[0]}\nLicenseInfoInFile: {LicenseInfoInFiles[1]}\nLicenseInfoInFile: {LicenseInfoInFiles[2]}"},
		{"123", "LicenseComments: {LicenseComments}"},
		{"123", "FileCopyrightText: {FileCopyrightText}"},
		{"123", "ArtifactOfProjectName: {ArtifactOfProjects[0].Name}\nArtifactOfProjectHomePage: {ArtifactOfProjects[0].HomePage}\nArtifactOfProjectURI: {ArtifactOfProjects[0].URI}\nArtifactOfProjectName: {ArtifactOfProjects[1].Name}\nArtifactOfProjectName: {ArtifactOfProjects[2].Name}\nArtifactOfProjectURI: {ArtifactOfProjects[2].URI}\nArtifactOfProjectHomePage: {ArtifactOfProjects[2].HomePage}"},
		{"123", "FileComment: {FileComment}"},
		{"123", "FileNotice: {FileNotice}"},
		{"123", "FileContributor: {FileContributors[0]}\nFileContributor: {FileContributors[1]}\nFileContributor: {FileContributors[2]}"},
		{"23", "FileAttributionText: {FileAttributionTexts[0]}\nFileAttributionText: {FileAttributionTexts[1]}\nFileAttributionText: {FileAttributionTexts[2]}"},
		{"123", "FileDependency: {FileDependencies[0]}\nFileDependency: {FileDependencies[1]}\nFileDependency: {FileDependencies[2]}"},
		{"123", "FileChecksum: @ALG"},
	},
	"snip": {
		{"123", "SnippetFromFileSPDXID: SPDXRef-{SnippetFromFileSPDXIdentifier:word}"},
		{"123", "SnippetFromFileSPDXID: DocumentRef-{other:word}:SPDXRef-{SnippetFromFileSPDXIdentifier:word}"},
		{"123", "SnippetByteRange: {Ranges[0].StartPointer.Offset:int}:{Ranges[0].EndPointer.Offset:int}\nSnippetLineRange: {Ranges[1].StartPointer.LineNumber:int}:{Ranges[1].EndPointer.LineNumber:int}"},
		{"123", "SnippetLineRange: {Ranges[0].StartPointer.LineNumber:int}:{Ranges[0].EndPointer.LineNumber:int}\nSnippetByteRange: {Ranges[1].StartPointer.Offset:int}:{Ranges[1].EndPointer.Offset:int}\nSnippetByteRange: {Ranges[2].StartPointer.Offset:int}:{Ranges[2].EndPointer.Offset:int}"},
		{"123", "SnippetLicenseConcluded: {SnippetLicenseConcluded}"},
		{"123", "LicenseInfoInSnippet: {LicenseInfoInSnippet[0]}\nLicenseInfoInSnippet: {LicenseInfoInSnippet[1]}\nLicenseInfoInSnippet: {LicenseInfoInSnippet[2]}"},
		{"123", "SnippetLicenseComments: {SnippetLicenseComments}"},
		{"123", "SnippetCopyrightText: {SnippetCopyrightText}"},
		{"123", "SnippetComment: {SnippetComment}"},
		{"123", "SnippetName: {SnippetName}"},
		{"23", "SnippetAttributionText: {SnippetAttributionTexts[0]}\nSnippetAttributionText: {SnippetAttributionTexts[1]}\nSnippetAttributionText: {SnippetAttributionTexts[2]}"},
	},
	"lic": {
		{"123", "ExtractedText: {ExtractedText}"},
		{"123", "LicenseName: {LicenseName}"},
		{"123", "LicenseCrossReference: {LicenseCrossReferences[0]}\nLicenseCrossReference: {LicenseCrossReferences[1]}\nLicenseCrossReference: {LicenseCrossReferences[2]}"},
		{"123", "LicenseComment: {LicenseComment}"},
	},
	"rel": {
		{"123", "RelationshipComment: {RelationshipComment}"},
	},
	"ann": {
		{"123", "AnnotationDate: {AnnotationDate}"},
		{"123", "AnnotationType: {AnnotationType}"},
		{"123", "SPDXREF: SPDXRef-{AnnotationSPDXIdentifier.ElementRefID:word}"},
		{"123", "SPDXREF: DocumentRef-{AnnotationSPDXIdentifier.DocumentRefID:word}:SPDXRef-{AnnotationSPDXIdentifier.ElementRefID:word}"},
		{"123", "AnnotationComment: {AnnotationComment}"},
	},
	"rev": {
		{"123", "ReviewDate: {ReviewDate}"},
		{"123", "ReviewComment: {ReviewComment}"},
	},
}

// the lines that open an element of a section
var rdOpen = map[string][]string{
	"pkg":  {"PackageName: {PackageName}", "SPDXID: SPDXRef-{PackageSPDXIdentifier:word}"},
	"file": {"FileName: {FileName}", "SPDXID: SPDXRef-{FileSPDXIdentifier:word}"},
	"snip": {"SnippetSPDXID: SPDXRef-{SnippetSPDXIdentifier:gen}"},
	"lic":  {"LicenseID: {LicenseIdentifier}"},
}

// the ways to open a relationship, annotation or review
var rdVariants = map[string][]string{
	"rel": {
		"Relationship: SPDXRef-{RefA.ElementRefID:word} {Relationship:word} SPDXRef-{RefB.ElementRefID:word}",
		"Relationship: SPDXRef-{RefA.ElementRefID:word} {Relationship:word} DocumentRef-{RefB.DocumentRefID:word}:SPDXRef-{RefB.ElementRefID:word}",
		"Relationship: DocumentRef-{RefA.DocumentRefID:word}:SPDXRef-{RefA.ElementRefID:word} {Relationship:word} SPDXRef-{RefB.ElementRefID:word}",
		"Relationship: DocumentRef-{RefA.DocumentRefID:word}:SPDXRef-{RefA.ElementRefID:word} {Relationship:word} DocumentRef-{RefB.DocumentRefID:word}:SPDXRef-{RefB.ElementRefID:word}",
		"Relationship: SPDXRef-{RefA.ElementRefID:word} {Relationship:word} NONE => RefB.SpecialID=NONE",
		"Relationship: SPDXRef-{RefA.ElementRefID:word} {Relationship:word} NOASSERTION => RefB.SpecialID=NOASSERTION",
		"Relationship: DocumentRef-{RefA.DocumentRefID:word}:SPDXRef-{RefA.ElementRefID:word} {Relationship:word} NOASSERTION => RefB.SpecialID=NOASSERTION",
	},
	"ann": {
		"Annotator: Person: {Annotator.Annotator} => Annotator.AnnotatorType=Person",
		"Annotator: Organization: {Annotator.Annotator} => Annotator.AnnotatorType=Organization",
		"Annotator: Tool: {Annotator.Annotator} => Annotator.AnnotatorType=Tool",
	},
	"rev": {
		"Reviewer: Person: {Reviewer} => ReviewerType=Person",
		"Reviewer: Organization: {Reviewer} => ReviewerType=Organization",
		"Reviewer: Tool: {Reviewer} => ReviewerType=Tool",
	},
}

// rdVars gives the variants of a version: NONE and NOASSERTION as related
// elements came with version 2.2.
func rdVars(ver, sec string) []string {
	var out []string
	for _, v := range rdVariants[sec] {
		if ver == "v2_1" && strings.Contains(v, "SpecialID") {
			continue
		}
		out = append(out, v)
	}
	return out
}

func rdAlgorithms(ver string) []string {
	out := []string{"SHA1", "SHA256", "MD5"}
	if verNum(ver) >= 2 {
		out = append(out, "SHA224", "SHA384", "SHA512", "MD2", "MD4", "MD6")
	}
	if verNum(ver) >= 3 {
		out = append(out, "SHA3-256", "SHA3-384", "SHA3-512", "BLAKE2b-256", "BLAKE2b-384", "BLAKE2b-512", "BLAKE3", "ADLER32")
	}
	return out
}

// rdText collects lines and what they must give.
type rdText struct {
	ver   string
	lines []string
	want  map[string]string
	spec  map[string]string
	line  map[string]string // path -> tag that sets it
}

func newRdText(ver string) *rdText {
	x := &rdText{ver: ver, want: map[string]string{}, spec: map[string]string{}, line: map[string]string{}}
	return x
}

// add puts a group of lines for the element at prefix.
func (x *rdText) add(prefix, group string) {
	body, exp, _ := strings.Cut(group, " => ")
	for _, l := range strings.Split(body, "\n") {
		l = strings.ReplaceAll(l, "SPDX-2.V", fmt.Sprint("SPDX-2.", verNum(x.ver)))
		tag, _, _ := strings.Cut(l, ":")
		var b strings.Builder
		rest := l
		for {
			i := strings.IndexByte(rest, '{')
			if i < 0 {
				b.WriteString(rest)
				break
			}
			j := strings.IndexByte(rest, '}')
			name, spec, ok := strings.Cut(rest[i+1:j], ":")
			if !ok {
				spec = "line"
			}
			p := prefix + "." + name
			x.spec[p] = spec
			if name != "other" {
				x.want[p] = "{" + p + "}"
				x.line[p] = tag
			}
			b.WriteString(rest[:i] + "{" + p + "}")
			rest = rest[j+1:]
		}
		x.lines = append(x.lines, b.String())
	}
	if exp != "" {
		tag, _, _ := strings.Cut(body, ":")
		for _, c := range strings.Split(exp, ",") {
			k, v, _ := strings.Cut(c, "=")
			v = strings.ReplaceAll(v, "SPDX-2.V", fmt.Sprint("SPDX-2.", verNum(x.ver)))
			p := prefix + "." + k
			x.line[p] = tag
			if v == "" {
				delete(x.want, p)
				continue
			}
			x.want[p] = v
		}
	}
}

func (x *rdText) open(sec, prefix string) {
	for _, l := range rdOpen[sec] {
		x.add(prefix, l)
	}
	if sec == "pkg" {
		x.want[prefix+".FilesAnalyzed"] = "true"
	}
}

// groups lists the groups of a section for the version, @ALG expanded; groups
// for the same field are alternatives, of which pick chooses.
func rdGroups(ver, sec string) []string {
	var out []string
	for _, g := range rdTable[sec] {
		if !strings.Contains(g.vers, fmt.Sprint(verNum(ver))) {
			continue
		}
		if strings.HasSuffix(g.text, "@ALG") {
			tag := strings.TrimSuffix(g.text, " @ALG")
			f := map[string]string{"PackageChecksum:": "PackageChecksums", "FileChecksum:": "Checksums"}[tag]
			var ls, es []string
			for i, a := range rdAlgorithms(ver) {
				ls = append(ls, fmt.Sprintf("%s %s: {%s[%d].Value}", tag, a, f, i))
				es = append(es, fmt.Sprintf("%s[%d].Algorithm=%s", f, i, a))
			}
			out = append(out, strings.Join(ls, "\n")+" => "+strings.Join(es, ","))
			continue
		}
		out = append(out, g.text)
	}
	return out
}

// fill adds all groups of a section, one alternative per first tag.
func (x *rdText) fill(sec, prefix string, alt int, reverse bool) {
	gs := rdGroups(x.ver, sec)
	byTag := map[string][]string{}
	var order []string
	for _, g := range gs {
		tag, _, _ := strings.Cut(g, ":")
		if sec == "snip" && tag == "SnippetLineRange" {
			tag = "SnippetByteRange"
		}
		if sec == "start" && tag == "ExternalDocumentRef" || sec == "creation" && tag == "Creator" {
			tag = g
		}
		if len(byTag[tag]) == 0 {
			order = append(order, tag)
		}
		byTag[tag] = append(byTag[tag], g)
	}
	if reverse {
		// lists keep their order: only groups of different fields are reordered
		var plain []string
		for i := len(order) - 1; i >= 0; i-- {
			if !strings.Contains(order[i], ": ") {
				plain = append(plain, order[i])
			}
		}
		k := 0
		for i := range order {
			if !strings.Contains(order[i], ": ") {
				order[i] = plain[k]
				k++
			}
		}
	}
	for _, t := range order {
		as := byTag[t]
		x.add(prefix, as[alt%len(as)])
	}
}

// linked adds a relationship, annotation or review with its follow-up lines.
func (x *rdText) linked(sec, prefix string, alt int, full bool) {
	vs := rdVars(x.ver, sec)
	x.add(prefix, vs[alt%len(vs)])
	if full {
		x.fill(sec, prefix, alt, false)
	}
}

func (x *rdText) run(R *Report) *tvRead {
	s := &scenario{leaf: x.spec, def: "line"}
	return readTV(R, x.ver, x.lines, s, nil)
}

// verify runs the text and compares the whole document with what is wanted.
func (x *rdText) verify(R *Report, key string) {
	r := x.run(R)
	where := "spdx/v2/" + x.ver + "/tagvalue/reader.ParseTagValues"
	if t := r.in.trouble(); t != "" {
		R.fail(key, where, "undecided: "+t)
		return
	}
	ok := len(r.outs) > 0
	detail := ""
	bad := func(s string) {
		ok = false
		if len(detail) < 900 {
			if detail != "" {
				detail += "; "
			}
			detail += s
		}
	}
	if !ok {
		bad("the reader does not return for this text")
	}
	for _, o := range r.outs {
		if errClass(r.in, o.st, o.res[0]) != 'n' {
			bad("the reader can refuse the text: " + short(o.res[0].String(), 160))
			continue
		}
		got := r.leaves(o)
		var ps []string
		for p := range got {
			ps = append(ps, p)
		}
		for p := range x.want {
			if _, has := got[p]; !has {
				ps = append(ps, p)
			}
		}
		sort.Strings(ps)
		for _, p := range ps {
			g, w := got[p], x.want[p]
			if strings.HasSuffix(p, ".&") || g == w {
				continue
			}
			if w == "" {
				bad(fmt.Sprintf("%s is set to %s, from no line of its own", p, short(g, 90)))
			} else if g == "" {
				bad(fmt.Sprintf("%s does not get the value of the %s line", p, x.line[p]))
			} else {
				bad(fmt.Sprintf("%s should be %s (%s) and is %s", p, short(w, 90), x.line[p], short(g, 90)))
			}
		}
	}
	R.ob(key, ok, where, detail)
}

func (x *rdText) fails(R *Report, key string) {
	r := x.run(R)
	where := "spdx/v2/" + x.ver + "/tagvalue/reader.ParseTagValues"
	if t := r.in.trouble(); t != "" {
		R.fail(key, where, "undecided: "+t)
		return
	}
	ok := len(r.outs) > 0
	d := ""
	for _, o := range r.outs {
		if errClass(r.in, o.st, o.res[0]) != 'e' {
			ok = false
			d = "the reader can accept: " + strings.Join(x.lines, " / ")
		}
	}
	R.ob(key, ok, where, d)
}

// contexts: the parser sections, each reached by its opening lines.
type rdCtx struct {
	name  string
	enter func(x *rdText)
	probe func(x *rdText) // a line of the section itself
}

func rdContexts() []rdCtx {
	return []rdCtx{
		{"creation", func(x *rdText) { x.add("doc", "Created: {CreationInfo.Created}") },
			func(x *rdText) { x.add("doc", "LicenseListVersion: {CreationInfo.LicenseListVersion}") }},
		{"package", func(x *rdText) { x.open("pkg", "doc.Packages[0]") },
			func(x *rdText) { x.add("doc.Packages[0]", "PackageVersion: {PackageVersion}") }},
		{"unpackaged file", func(x *rdText) { x.open("file", "doc.Files[0]") },
			func(x *rdText) { x.add("doc.Files[0]", "FileNotice: {FileNotice}") }},
		{"file of a package", func(x *rdText) {
			x.open("pkg", "doc.Packages[0]")
			x.open("file", "doc.Packages[0].Files[0]")
		}, func(x *rdText) { x.add("doc.Packages[0].Files[0]", "FileNotice: {FileNotice}") }},
		{"snippet", func(x *rdText) {
			x.open("file", "doc.Files[0]")
			x.open("snip", "doc.Files[0].sn0")
		}, func(x *rdText) { x.add("doc.Files[0].sn0", "SnippetName: {SnippetName}") }},
		{"other license", func(x *rdText) { x.open("lic", "doc.OtherLicenses[0]") },
			func(x *rdText) { x.add("doc.OtherLicenses[0]", "LicenseName: {LicenseName}") }},
		{"review", func(x *rdText) { x.linked("rev", "doc.Reviews[0]", 0, false) },
			func(x *rdText) { x.add("doc.Reviews[0]", "ReviewDate: {ReviewDate}") }},
	}
}

// fixSnips rewrites the expectations of snippet paths to map paths.
func (x *rdText) fixSnips() {
	moved := map[string]string{}
	for p := range x.want {
		i := strings.Index(p, ".sn")
		if i < 0 {
			continue
		}
		end := i + 3
		for end < len(p) && p[end] >= '0' && p[end] <= '9' {
			end++
		}
		if end == i+3 {
			continue
		}
		moved[p] = p[:i] + ".Snippets<" + p[:end] + ".SnippetSPDXIdentifier>" + p[end:]
	}
	for p, np := range moved {
		x.want[np] = x.want[p]
		x.line[np] = x.line[p]
		delete(x.want, p)
	}
}

func (x *rdText) begin() { x.add("doc", "SPDXVersion: SPDX-2.V => SPDXVersion=SPDX-2.V") }

func checkC02(R *Report) {
	// the words these lines may have are no case of a line to be refused
	R.special(func(l, v string) bool {
		return l == "unknown-tag" && tvTags[v] || len(l) <= 2 && (l[0] == 'w' || l[0] == 'v') && tvWords[v]
	})
	R.rule("assign", "For every tag of every section and version: reading a text that opens the section and holds the tag's line succeeds, and the resulting document has the value (as any one-line text) in the field the format gives, the constants the line implies, the documented defaults, and nothing else.")
	R.rule("whole document", "A text with several elements of every section, every line present, in the given and in the reverse order of the fields, gives exactly the document its lines describe.")
	R.rule("section changes", "Opening any section after any other attaches the new element and the lines after it to the right owner and leaves the earlier one as it was.")
	R.rule("cross-section lines", "Relationship and annotation lines are accepted in every section, go to the last relationship or annotation, and leave the section as it was.")
	R.rule("no value dropped", "In every section, every tag of the format either makes the reader fail or its value is found in the document.")
	R.rule("malformed", "A structured value that lacks a part, has an unknown type or algorithm, or has the wrong prefix makes the reader fail.")
	R.rule("unknown tag", "A tag outside the format makes the reader fail in every section.")
	R.assumption("a value is any text without line breaks, white space at its ends, or <text> marks; words in structured values hold no separators; at most three entries of a list and two elements of a section are distinguished")
	if !R.need(R.P.Func("tagvalue", "ReadInto") != nil, "tagvalue.ReadInto") {
		return
	}
	R.minObs = 400
	var jobs []func()
	job := func(f func()) { jobs = append(jobs, f) }
	for _, ver := range versions {
		if !R.need(R.P.Type(verRel(ver), "Document") != nil, verRel(ver)+".Document") {
			continue
		}
		mk := func() *rdText { x := newRdText(ver); x.begin(); return x }
		// each group alone in its section
		owners := map[string][]string{
			"start": {"doc"}, "creation": {"doc"}, "pkg": {"doc.Packages[0]"},
			"file": {"doc.Files[0]", "doc.Packages[0].Files[0]"},
			"snip": {"doc.Files[0].sn0", "doc.Packages[0].Files[0].sn0"},
			"lic":  {"doc.OtherLicenses[0]"}, "rel": {"doc.Relationships[0]"}, "ann": {"doc.Annotations[0]"}, "rev": {"doc.Reviews[0]"},
		}
		enter := func(x *rdText, sec, prefix string) {
			if strings.HasPrefix(prefix, "doc.Packages") {
				x.open("pkg", "doc.Packages[0]")
			}
			if i := strings.Index(prefix, "Files[0]"); i > 0 {
				x.open("file", prefix[:i+8])
			}
			switch sec {
			case "snip", "lic":
				x.open(sec, prefix)
			case "rel", "ann", "rev":
				x.linked(sec, prefix, 0, false)
			}
		}
		for sec, os := range owners {
			for _, o := range os {
				for _, g := range rdGroups(ver, sec) {
					if strings.HasPrefix(g, "SPDXVersion") || strings.Contains(g, "ExternalDocumentReferences[1]") || strings.Contains(g, "Creators[1]") || strings.Contains(g, "Creators[2]") {
						continue
					}
					job(func() {
						x := mk()
						enter(x, sec, o)
						x.add(o, g)
						x.fixSnips()
						first, _, _ := strings.Cut(g, "\n")
						first, _, _ = strings.Cut(first, " =>")
						x.verify(R, ver+" "+o+" reads "+short(first, 110))
					})
				}
				if vs := rdVars(ver, sec); vs != nil {
					for i, v := range vs {
						job(func() {
							x := mk()
							x.linked(sec, o, i, true)
							v, _, _ := strings.Cut(v, " =>")
							x.verify(R, ver+" "+o+" reads "+v)
						})
					}
				}
			}
		}
		for i := range 3 {
			job(func() {
				x := mk()
				ty := []string{"Person", "Organization", "Tool"}[i]
				x.add("doc", "Creator: "+ty+": {CreationInfo.Creators[0].Creator} => CreationInfo.Creators[0].CreatorType="+ty)
				x.verify(R, ver+" doc reads Creator: "+ty)
			})
		}
		// lists of many entries
		for sec, os := range owners {
			for _, o := range os {
				for _, g := range rdGroups(ver, sec) {
					if !strings.Contains(g, "[0]") || strings.Contains(g, "[1]") || strings.Contains(g, "ExcludedFiles") {
						continue
					}
					job(func() {
						x := mk()
						enter(x, sec, o)
						for i := range longer(3) {
							x.add(o, strings.ReplaceAll(g, "[0]", fmt.Sprintf("[%d]", i)))
						}
						x.fixSnips()
						first, _, _ := strings.Cut(g, "\n")
						first, _, _ = strings.Cut(first, " =>")
						x.verify(R, ver+" "+o+" reads several "+short(first, 110))
					})
				}
			}
		}
		for _, l := range []string{"doc.Packages", "doc.Files", "doc.Packages[0].Files", "doc.Files[0].sn", "doc.Packages[0].Files[0].sn", "doc.OtherLicenses", "doc.Relationships", "doc.Annotations", "doc.Reviews"} {
			job(func() {
				x := mk()
				sec := map[string]string{"Packages": "pkg", "Files": "file", "sn": "snip", "OtherLicenses": "lic", "Relationships": "rel", "Annotations": "ann", "Reviews": "rev"}[l[strings.LastIndexByte(l, '.')+1:]]
				if strings.HasPrefix(l, "doc.Packages[0]") {
					x.open("pkg", "doc.Packages[0]")
				}
				if i := strings.Index(l, "Files[0]"); i > 0 {
					x.open("file", l[:i+8])
				}
				for i := range longer(3) {
					e := fmt.Sprintf("%s[%d]", l, i)
					switch sec {
					case "snip":
						x.open(sec, fmt.Sprintf("%s%d", l, i))
					case "rel", "ann", "rev":
						x.linked(sec, e, i, true)
					default:
						x.open(sec, e)
					}
				}
				x.fixSnips()
				x.verify(R, ver+" reads several "+l)
			})
		}
		// whole documents
		for _, rev := range []bool{false, true} {
			for alt := range 3 {
				job(func() {
					x := newRdText(ver)
					x.fill("start", "doc", alt, rev)
					x.fill("creation", "doc", alt, rev)
					for f := range 2 {
						file := fmt.Sprintf("doc.Files[%d]", f)
						x.open("file", file)
						x.fill("file", file, alt, rev)
						for s := range 2 {
							sn := fmt.Sprintf("%s.sn%d", file, s)
							x.open("snip", sn)
							x.fill("snip", sn, alt+s, rev)
						}
					}
					for p := range 2 {
						pkg := fmt.Sprintf("doc.Packages[%d]", p)
						x.open("pkg", pkg)
						x.fill("pkg", pkg, alt+p, rev)
						for f := range 2 {
							file := fmt.Sprintf("%s.Files[%d]", pkg, f)
							x.open("file", file)
							x.fill("file", file, alt, rev)
							sn := file + ".sn0"
							x.open("snip", sn)
							x.fill("snip", sn, alt, rev)
						}
					}
					for l := range 2 {
						lic := fmt.Sprintf("doc.OtherLicenses[%d]", l)
						x.open("lic", lic)
						x.fill("lic", lic, alt, rev)
					}
					for i := range 3 {
						x.linked("rel", fmt.Sprintf("doc.Relationships[%d]", i), alt+i, i != 1)
					}
					for i := range 3 {
						x.linked("ann", fmt.Sprintf("doc.Annotations[%d]", i), alt+i, i != 1)
					}
					for i := range 3 {
						x.linked("rev", fmt.Sprintf("doc.Reviews[%d]", i), alt+i, i != 1)
					}
					x.fixSnips()
					x.verify(R, fmt.Sprintf("%s whole document, alternatives %d, reverse=%v", ver, alt, rev))
				})
			}
		}
		// section changes: from each section, open each section that may follow
		for _, c := range rdContexts() {
			next := map[string][]string{
				"creation":          {"pkg", "ufile", "lic", "rev"},
				"package":           {"pkg", "pfile", "lic", "rev"},
				"unpackaged file":   {"pkg", "ufile", "snip", "lic", "rev"},
				"file of a package": {"pkg", "pfile", "psnip", "lic", "rev"},
				"snippet":           {"pkg", "ufile", "snip", "lic", "rev"},
				"other license":     {"lic", "rev"},
				"review":            {"rev"},
			}[c.name]
			for _, to := range next {
				job(func() {
					x := mk()
					c.enter(x)
					c.probe(x)
					count := func(list string) int {
						n := 0
						for {
							found := false
							for p := range x.want {
								if strings.HasPrefix(p, fmt.Sprintf("%s[%d].", list, n)) {
									found = true
								}
							}
							if !found {
								return n
							}
							n++
						}
					}
					switch to {
					case "pkg":
						p := fmt.Sprintf("doc.Packages[%d]", count("doc.Packages"))
						x.open("pkg", p)
						x.fill("pkg", p, 0, false)
						x.open("file", p+".Files[0]")
						x.fill("file", p+".Files[0]", 0, false)
					case "ufile", "pfile":
						own := "doc"
						if to == "pfile" {
							own = "doc.Packages[0]"
						}
						f := fmt.Sprintf("%s.Files[%d]", own, count(own+".Files"))
						x.open("file", f)
						x.fill("file", f, 0, false)
					case "snip", "psnip":
						own := "doc.Files[0]"
						if to == "psnip" {
							own = "doc.Packages[0].Files[0]"
						}
						sn := own + ".sn5"
						x.open("snip", sn)
						x.fill("snip", sn, 0, false)
					case "lic":
						l := fmt.Sprintf("doc.OtherLicenses[%d]", count("doc.OtherLicenses"))
						x.open("lic", l)
						x.fill("lic", l, 0, false)
					case "rev":
						l := fmt.Sprintf("doc.Reviews[%d]", count("doc.Reviews"))
						x.linked("rev", l, 1, true)
					}
					x.fixSnips()
					x.verify(R, ver+" "+c.name+" then "+to)
				})
			}
			// relationships and annotations inside the section
			for _, sec := range []string{"rel", "ann"} {
				job(func() {
					x := mk()
					list := map[string]string{"rel": "doc.Relationships", "ann": "doc.Annotations"}[sec]
					// one from before the section, and two inside it
					x.linked(sec, list+"[0]", 0, true)
					c.enter(x)
					x.linked(sec, list+"[1]", 1, true)
					c.probe(x)
					x.linked(sec, list+"[2]", 2, true)
					x.fixSnips()
					x.verify(R, ver+" "+sec+" lines inside "+c.name)
				})
				job(func() {
					x := mk()
					list := map[string]string{"rel": "doc.Relationships", "ann": "doc.Annotations"}[sec]
					x.linked(sec, list+"[0]", 0, false)
					c.enter(x)
					x.fill(sec, list+"[0]", 0, true) // follow-up lines of the earlier element
					x.fixSnips()
					x.verify(R, ver+" "+sec+" follow-up lines inside "+c.name)
				})
			}
		}
		// no value dropped; unknown tags
		tags := map[string]string{} // tag -> value template that is well formed somewhere
		for _, sec := range []string{"start", "creation", "pkg", "file", "snip", "lic", "rel", "ann", "rev"} {
			var gs []string
			gs = append(gs, rdGroups("v2_3", sec)...)
			gs = append(gs, rdOpen[sec]...)
			if v := rdVars(ver, sec); v != nil {
				gs = append(gs, v[0])
			}
			for _, g := range gs {
				g, _, _ := strings.Cut(g, " => ")
				for _, l := range strings.Split(g, "\n") {
					tag, val, _ := strings.Cut(l, ": ")
					if _, ok := tags[tag]; !ok && tag != "SPDXVersion" && tag != "FilesAnalyzed" {
						tags[tag] = val
					}
				}
			}
		}
		for _, c := range append(rdContexts(), rdCtx{name: "start", enter: func(*rdText) {}}) {
			job(func() {
				x := mk()
				c.enter(x)
				x.lines = append(x.lines, "{unknown-tag}: {value}")
				x.spec["unknown-tag"] = "gen"
				x.fails(R, ver+" unknown tag in "+c.name)
			})
			for tag, val := range tags {
				if tag == "FilesAnalyzed" || strings.Contains(tag, "other") {
					continue
				}
				job(func() {
					x := mk()
					c.enter(x)
					x.lines = append(x.lines, probeLine(x, tag, val))
					r := x.run(R)
					key := ver + " " + tag + " in " + c.name + " is kept or refused"
					where := "spdx/v2/" + ver + "/tagvalue/reader.ParseTagValues"
					if t := r.in.trouble(); t != "" {
						R.fail(key, where, "undecided: "+t)
						return
					}
					ok, d := true, ""
					for _, o := range r.outs {
						if errClass(r.in, o.st, o.res[0]) == 'e' {
							continue
						}
						found := false
						for _, v := range r.leaves(o) {
							if strings.Contains(v, "{probe") {
								found = true
							}
						}
						// a file or package that has only its name so far is completed by a later SPDXID (C04)
						if !found {
							ok, d = false, "the reader succeeds and the value is nowhere in the document"
						}
					}
					R.ob(key, ok, where, d)
				})
			}
		}
		// FilesAnalyzed takes true and false only
		bad := map[string][]string{
			"start":             {"SPDXID: {w}", "SPDXID: SPDXRef-", "SPDXID: SPDXRef-{w}:{w2}", "ExternalDocumentRef: {w}", "ExternalDocumentRef: {w} {w2} {w3}:{w4}", "ExternalDocumentRef: DocumentRef-{w} {w2} {w3}", "ExternalDocumentRef: DocumentRef-{w} {w2}", "ExternalDocumentRef: DocumentRef- {w2} {w3}:{w4}", "ExternalDocumentRef: DocumentRef-{w} {w2} {w3} {w4}", "{w}", "Creator: {w}", "Creator: {w}: {w2}"},
			"creation":          {"Creator: {w}", "Creator: {w}: {w2}"},
			"package":           {"SPDXID: {w}", "SPDXID: SPDXRef-", "PackageSupplier: {w}", "PackageSupplier: {w}: {w2}", "PackageSupplier: Tool: {w2}", "PackageOriginator: {w}", "PackageOriginator: {w}: {w2}", "PackageOriginator: Tool: {w2}", "PackageChecksum: {w}", "PackageChecksum: {w}: {w2}", "ExternalRef: {w}", "ExternalRef: {w} {w2}", "ExternalRef: {w} {w2} {w3} {w4}", "ExternalRefComment: {w}", "FilesAnalyzed: {w}"},
			"unpackaged file":   {"SPDXID: {w}", "SPDXID: SPDXRef-", "FileChecksum: {w}", "FileChecksum: {w}: {w2}", "ArtifactOfProjectHomePage: {w}", "ArtifactOfProjectURI: {w}"},
			"file of a package": {"SPDXID: {w}", "FileChecksum: {w}", "FileChecksum: {w}: {w2}", "ArtifactOfProjectHomePage: {w}", "ArtifactOfProjectURI: {w}", "SnippetSPDXID: {w}"},
			"snippet":           {"SnippetSPDXID: {w}", "SnippetSPDXID: SPDXRef-", "SnippetFromFileSPDXID: {w}", "SnippetFromFileSPDXID: DocumentRef-{w}", "SnippetFromFileSPDXID: DocumentRef-:SPDXRef-{w}", "SnippetFromFileSPDXID: DocumentRef-{w}:{w2}", "SnippetByteRange: {w}", "SnippetByteRange: {w}:{i}", "SnippetByteRange: {i}:{w}", "SnippetLineRange: {w}", "SnippetLineRange: {w}:{i}", "SnippetLineRange: {i}:{w}"},
			"review":            {"Reviewer: {w}", "Reviewer: {w}: {w2}"},
			"*":                 {"Relationship: {w}", "Relationship: {w} {w2}", "Relationship: SPDXRef-{w} {w2}", "Relationship: SPDXRef-{w} {w2} {w3}", "Relationship: {w} {w2} SPDXRef-{w3}", "Relationship: NONE {w2} SPDXRef-{w3}", "Relationship: SPDXRef-{w} {w2} SPDXRef-{w3} {w4}", "Relationship: SPDXRef-{w} {w2} DocumentRef-{w3}", "Relationship: SPDXRef-{w} {w2} SPDXRef-", "RelationshipComment: {w}", "Annotator: {w}", "Annotator: {w}: {w2}", "AnnotationDate: {w}", "AnnotationType: {w}", "SPDXREF: SPDXRef-{w}", "AnnotationComment: {w}", "Annotator: Person: {w}\nSPDXREF: {w2}", "Annotator: Person: {w}\nSPDXREF: DocumentRef-{w2}", "Annotator: Person: {w}\nSPDXREF: SPDXRef-"},
		}
		for _, c := range append(rdContexts(), rdCtx{name: "start", enter: func(*rdText) {}}) {
			for _, b := range append(append([]string(nil), bad[c.name]...), bad["*"]...) {
				job(func() {
					x := mk()
					c.enter(x)
					for _, l := range strings.Split(b, "\n") {
						x.lines = append(x.lines, l)
					}
					for _, n := range []string{"w", "w2", "w3", "w4"} {
						x.spec[n] = "gen"
					}
					x.spec["i"] = "int"
					x.fails(R, ver+" "+c.name+" refuses "+strings.ReplaceAll(b, "\n", " / "))
				})
			}
		}
		job(func() {
			x := newRdText(ver)
			x.lines = []string{"SPDXVersion: {v}"}
			x.spec["v"] = "gen"
			x.fails(R, ver+" refuses an unknown SPDXVersion")
		})
		job(func() {
			x := newRdText(ver)
			x.lines = []string{"DataLicense: {v}"}
			x.fails(R, ver+" refuses a text with no SPDXVersion")
		})
		job(func() {
			x := newRdText(ver)
			x.lines = []string{}
			x.fails(R, ver+" refuses an empty text")
		})
	}
	par(jobs)
}

// probeLine is a well-formed line of the tag whose values are probe labels.
func probeLine(x *rdText, tag, val string) string {
	var b strings.Builder
	n := 0
	for {
		i := strings.IndexByte(val, '{')
		if i < 0 {
			b.WriteString(val)
			break
		}
		j := strings.IndexByte(val, '}')
		_, spec, ok := strings.Cut(val[i+1:j], ":")
		if !ok {
			spec = "line"
		}
		name := fmt.Sprintf("probe%d", n)
		n++
		x.spec[name] = spec
		b.WriteString(val[:i] + "{" + name + "}")
		val = val[j+1:]
	}
	return tag + ": " + b.String()
}

func wordSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// tvWords are the words the tag-value format gives a meaning of its own.
var tvWords = wordSet("ADLER32 BLAKE2b-256 BLAKE2b-384 BLAKE2b-512 BLAKE3 MD2 MD4 MD5 MD6 SHA1 SHA224 SHA256 SHA384 SHA512 SHA3-256 SHA3-384 SHA3-512 Person Organization Tool NONE NOASSERTION SPDX-2.1 SPDX-2.2 SPDX-2.3")

// tvTags are the tags of the tag-value format, all versions.
var tvTags = wordSet(`AnnotationComment AnnotationDate AnnotationType Annotator ArtifactOfProjectHomePage ArtifactOfProjectName
ArtifactOfProjectURI BuiltDate Created Creator CreatorComment DataLicense
DocumentComment DocumentName DocumentNamespace ExternalDocumentRef ExternalRef ExternalRefComment
ExtractedText FileAttributionText FileChecksum FileComment FileContributor FileCopyrightText
FileDependency FileName FileNotice FileType FilesAnalyzed LicenseComment
LicenseComments LicenseConcluded LicenseCrossReference LicenseID LicenseInfoInFile LicenseInfoInSnippet
LicenseListVersion LicenseName PackageAttributionText PackageChecksum PackageComment PackageCopyrightText
PackageDescription PackageDownloadLocation PackageFileName PackageHomePage PackageLicenseComments PackageLicenseConcluded
PackageLicenseDeclared PackageLicenseInfoFromFiles PackageName PackageOriginator PackageSourceInfo PackageSummary
PackageSupplier PackageVerificationCode PackageVersion PrimaryPackagePurpose Relationship RelationshipComment
ReleaseDate ReviewComment ReviewDate Reviewer SPDXID SPDXREF
SPDXVersion SnippetAttributionText SnippetByteRange SnippetComment SnippetCopyrightText SnippetFromFileSPDXID
SnippetLicenseComments SnippetLicenseConcluded SnippetLineRange SnippetName SnippetSPDXID ValidUntilDate`)
