package main

import (
	"fmt"
	"sort"
	"strings"
)

// tvLine is one line of the tag-value format: the text, with {field} for the
// value of a field relative to its section.
type tvLine struct {
	vers string // "123"
	tmpl string
	cond string // "Path=spec,…": further assumptions (specs as in scenario)
}

type tvSection struct {
	prefixes []string
	vers     string
	lines    []tvLine
}

var tvTable = []tvSection{
	{[]string{"doc"}, "123", []tvLine{
		{"123", "SPDXVersion: {SPDXVersion}", ""},
		{"123", "DataLicense: {DataLicense}", ""},
		{"123", "SPDXID: SPDXRef-{SPDXIdentifier}", ""},
		{"123", "DocumentName: {DocumentName}", ""},
		{"123", "DocumentNamespace: {DocumentNamespace}", ""},
		{"123", "ExternalDocumentRef: DocumentRef-{ExternalDocumentReferences[].DocumentRefID} {ExternalDocumentReferences[].URI} {ExternalDocumentReferences[].Checksum.Algorithm}:{ExternalDocumentReferences[].Checksum.Value}", ""},
		{"123", "DocumentComment: {DocumentComment}", ""},
		{"123", "LicenseListVersion: {CreationInfo.LicenseListVersion}", ""},
		{"123", "Creator: {CreationInfo.Creators[].CreatorType}: {CreationInfo.Creators[].Creator}", ""},
		{"123", "Created: {CreationInfo.Created}", ""},
		{"123", "CreatorComment: {CreationInfo.CreatorComment}", ""},
	}},
	{[]string{"doc.Packages[]"}, "123", []tvLine{
		{"123", "PackageName: {PackageName}", ""},
		{"123", "SPDXID: SPDXRef-{PackageSPDXIdentifier}", ""},
		{"123", "PackageVersion: {PackageVersion}", ""},
		{"123", "PackageFileName: {PackageFileName}", ""},
		{"123", "PackageSupplier: {PackageSupplier.Supplier}", "PackageSupplier.SupplierType="},
		{"123", "PackageSupplier: {PackageSupplier.SupplierType}: {PackageSupplier.Supplier}", ""},
		{"123", "PackageOriginator: {PackageOriginator.Originator}", "PackageOriginator.OriginatorType="},
		{"123", "PackageOriginator: {PackageOriginator.OriginatorType}: {PackageOriginator.Originator}", ""},
		{"123", "PackageDownloadLocation: {PackageDownloadLocation}", ""},
		{"3", "PrimaryPackagePurpose: {PrimaryPackagePurpose}", ""},
		{"3", "ReleaseDate: {ReleaseDate}", ""},
		{"3", "BuiltDate: {BuiltDate}", ""},
		{"3", "ValidUntilDate: {ValidUntilDate}", ""},
		{"123", "FilesAnalyzed: true", "FilesAnalyzed=true,IsFilesAnalyzedTagPresent=true"},
		{"123", "FilesAnalyzed: false", "FilesAnalyzed=false"},
		{"123", "PackageVerificationCode: {PackageVerificationCode.Value}", "FilesAnalyzed=true,PackageVerificationCode.ExcludedFiles=nil"},
		{"123", "PackageVerificationCode: {PackageVerificationCode.Value} (excludes: {PackageVerificationCode.ExcludedFiles[0]})", "FilesAnalyzed=true,#PackageVerificationCode.ExcludedFiles=1"},
		{"123", "PackageVerificationCode: {PackageVerificationCode.Value} (excludes: {PackageVerificationCode.ExcludedFiles[0]}, {PackageVerificationCode.ExcludedFiles[1]})", "FilesAnalyzed=true,#PackageVerificationCode.ExcludedFiles=2"},
		{"123", "PackageChecksum: {PackageChecksums[].Algorithm}: {PackageChecksums[].Value}", ""},
		{"123", "PackageHomePage: {PackageHomePage}", ""},
		{"123", "PackageSourceInfo: {PackageSourceInfo}", ""},
		{"123", "PackageLicenseConcluded: {PackageLicenseConcluded}", ""},
		{"123", "PackageLicenseInfoFromFiles: {PackageLicenseInfoFromFiles[]}", "FilesAnalyzed=true"},
		{"123", "PackageLicenseDeclared: {PackageLicenseDeclared}", ""},
		{"123", "PackageLicenseComments: {PackageLicenseComments}", ""},
		{"123", "PackageCopyrightText: {PackageCopyrightText}", ""},
		{"123", "PackageSummary: {PackageSummary}", ""},
		{"123", "PackageDescription: {PackageDescription}", ""},
		{"123", "PackageComment: {PackageComment}", ""},
		{"123", "ExternalRef: {PackageExternalReferences[].Category} {PackageExternalReferences[].RefType} {PackageExternalReferences[].Locator}", ""},
		{"123", "ExternalRefComment: {PackageExternalReferences[].ExternalRefComment}", ""},
		{"23", "PackageAttributionText: {PackageAttributionTexts[]}", ""},
	}},
	{[]string{"doc.Files[]", "doc.Packages[].Files[]"}, "123", []tvLine{
		{"123", "FileName: {FileName}", ""},
		{"123", "SPDXID: SPDXRef-{FileSPDXIdentifier}", ""},
		{"123", "FileType: {FileTypes[]}", ""},
		{"123", "FileChecksum: {Checksums[].Algorithm}: {Checksums[].Value}", ""},
		{"123", "LicenseConcluded: {LicenseConcluded}", ""},
		{"123", "LicenseInfoInFile: {LicenseInfoInFiles[]}", ""},
		{"123", "LicenseComments: {LicenseComments}", ""},
		{"123", "FileCopyrightText: {FileCopyrightText}", ""},
		{"123", "ArtifactOfProjectName: {ArtifactOfProjects[].Name}", ""},
		{"123", "ArtifactOfProjectHomePage: {ArtifactOfProjects[].HomePage}", ""},
		{"123", "ArtifactOfProjectURI: {ArtifactOfProjects[].URI}", ""},
		{"123", "FileComment: {FileComment}", ""},
		{"123", "FileNotice: {FileNotice}", ""},
		{"123", "FileContributor: {FileContributors[]}", ""},
		{"23", "FileAttributionText: {FileAttributionTexts[]}", ""},
		{"123", "FileDependency: {FileDependencies[]}", ""},
	}},
	{[]string{"doc.Files[].Snippets[]", "doc.Packages[].Files[].Snippets[]"}, "123", []tvLine{
		{"123", "SnippetSPDXID: SPDXRef-{SnippetSPDXIdentifier}", ""},
		{"123", "SnippetFromFileSPDXID: SPDXRef-{SnippetFromFileSPDXIdentifier}", ""},
		{"123", "SnippetByteRange: {Ranges[].StartPointer.Offset}:{Ranges[].EndPointer.Offset}", ""},
		{"123", "SnippetLineRange: {Ranges[].StartPointer.LineNumber}:{Ranges[].EndPointer.LineNumber}", ""},
		{"123", "SnippetLicenseConcluded: {SnippetLicenseConcluded}", ""},
		{"123", "LicenseInfoInSnippet: {LicenseInfoInSnippet[]}", ""},
		{"123", "SnippetLicenseComments: {SnippetLicenseComments}", ""},
		{"123", "SnippetCopyrightText: {SnippetCopyrightText}", ""},
		{"123", "SnippetComment: {SnippetComment}", ""},
		{"123", "SnippetName: {SnippetName}", ""},
		{"23", "SnippetAttributionText: {SnippetAttributionTexts[]}", ""},
	}},
	{[]string{"doc.OtherLicenses[]"}, "123", []tvLine{
		{"123", "LicenseID: {LicenseIdentifier}", ""},
		{"123", "ExtractedText: {ExtractedText}", ""},
		{"123", "LicenseName: {LicenseName}", ""},
		{"123", "LicenseCrossReference: {LicenseCrossReferences[]}", ""},
		{"123", "LicenseComment: {LicenseComment}", ""},
	}},
	{[]string{"doc.Relationships[]"}, "123", []tvLine{
		{"123", "Relationship: SPDXRef-{RefA.ElementRefID} {Relationship} SPDXRef-{RefB.ElementRefID}", "RefA.SpecialID=,RefB.SpecialID=,RefA.DocumentRefID=,RefB.DocumentRefID="},
		{"123", "Relationship: SPDXRef-{RefA.ElementRefID} {Relationship} DocumentRef-{RefB.DocumentRefID}:SPDXRef-{RefB.ElementRefID}", "RefA.SpecialID=,RefB.SpecialID=,RefA.DocumentRefID="},
		{"123", "Relationship: DocumentRef-{RefA.DocumentRefID}:SPDXRef-{RefA.ElementRefID} {Relationship} SPDXRef-{RefB.ElementRefID}", "RefA.SpecialID=,RefB.SpecialID=,RefB.DocumentRefID="},
		{"123", "Relationship: DocumentRef-{RefA.DocumentRefID}:SPDXRef-{RefA.ElementRefID} {Relationship} DocumentRef-{RefB.DocumentRefID}:SPDXRef-{RefB.ElementRefID}", "RefA.SpecialID=,RefB.SpecialID="},
		{"123", "Relationship: SPDXRef-{RefA.ElementRefID} {Relationship} {RefB.SpecialID}", "RefA.SpecialID=,RefA.DocumentRefID=,RefB.DocumentRefID=,RefB.ElementRefID="},
		{"123", "Relationship: DocumentRef-{RefA.DocumentRefID}:SPDXRef-{RefA.ElementRefID} {Relationship} {RefB.SpecialID}", "RefA.SpecialID=,RefB.DocumentRefID=,RefB.ElementRefID="},
		{"123", "Relationship: {RefA.SpecialID} {Relationship} SPDXRef-{RefB.ElementRefID}", "RefA.DocumentRefID=,RefA.ElementRefID=,RefB.SpecialID=,RefB.DocumentRefID="},
		{"123", "Relationship: {RefA.SpecialID} {Relationship} DocumentRef-{RefB.DocumentRefID}:SPDXRef-{RefB.ElementRefID}", "RefA.DocumentRefID=,RefA.ElementRefID=,RefB.SpecialID="},
		{"123", "Relationship: {RefA.SpecialID} {Relationship} {RefB.SpecialID}", "RefA.DocumentRefID=,RefA.ElementRefID=,RefB.DocumentRefID=,RefB.ElementRefID="},
		{"123", "RelationshipComment: {RelationshipComment}", ""},
	}},
	{[]string{"doc.Annotations[]"}, "123", []tvLine{
		{"123", "Annotator: {Annotator.AnnotatorType}: {Annotator.Annotator}", ""},
		{"123", "AnnotationDate: {AnnotationDate}", ""},
		{"123", "AnnotationType: {AnnotationType}", ""},
		{"123", "SPDXREF: SPDXRef-{AnnotationSPDXIdentifier.ElementRefID}", "AnnotationSPDXIdentifier.SpecialID=,AnnotationSPDXIdentifier.DocumentRefID="},
		{"123", "SPDXREF: DocumentRef-{AnnotationSPDXIdentifier.DocumentRefID}:SPDXRef-{AnnotationSPDXIdentifier.ElementRefID}", "AnnotationSPDXIdentifier.SpecialID="},
		{"123", "SPDXREF: {AnnotationSPDXIdentifier.SpecialID}", "AnnotationSPDXIdentifier.DocumentRefID=,AnnotationSPDXIdentifier.ElementRefID="},
		{"123", "AnnotationComment: {AnnotationComment}", ""},
	}},
	{[]string{"doc.Reviews[]"}, "123", []tvLine{
		{"123", "Reviewer: {ReviewerType}: {Reviewer}", ""},
		{"123", "ReviewDate: {ReviewDate}", ""},
		{"123", "ReviewComment: {ReviewComment}", ""},
	}},
}

// Leaves with no line of their own, and why.
var tvNoLine = map[string]string{
	"doc.Packages[].IsUnpackaged":              "not part of the SPDX model (internal flag, v2_3/v2_2)",
	".Snippets.key[]":                          "map key; the snippet carries its own identifier",
	".StartPointer.FileSPDXIdentifier":         "the tag-value range lines name no file; SnippetFromFileSPDXID does",
	".EndPointer.FileSPDXIdentifier":           "the tag-value range lines name no file; SnippetFromFileSPDXID does",
	"doc.Packages[].hasFiles[]":                "decoding scratch field of the JSON reader",
	"doc.Packages[].FilesAnalyzed":             "decided by the FilesAnalyzed lines",
	"doc.Packages[].IsFilesAnalyzedTagPresent": "decided by the FilesAnalyzed lines",
}

type tvInst struct {
	line    tvLine
	prefix  string
	text    string   // full generalised template
	paths   []string // generalised leaf paths in it
	parents []string
	conds   map[string]string
	counts  map[string]int
}

func tvInstances(ver string) []tvInst {
	d := fmt.Sprint(verNum(ver))
	var out []tvInst
	for _, s := range tvTable {
		if !strings.Contains(s.vers, d) {
			continue
		}
		for _, pre := range s.prefixes {
			for _, l := range s.lines {
				if !strings.Contains(l.vers, d) {
					continue
				}
				it := tvInst{line: l, prefix: pre, conds: map[string]string{}, counts: map[string]int{}}
				it.text = strings.ReplaceAll(l.tmpl, "{", "{"+pre+".")
				rest := it.text
				for {
					i := strings.IndexByte(rest, '{')
					if i < 0 {
						break
					}
					j := strings.IndexByte(rest, '}')
					it.paths = append(it.paths, generalise(rest[i+1:j]))
					rest = rest[j+1:]
				}
				if l.cond != "" {
					for _, c := range strings.Split(l.cond, ",") {
						k, v, _ := strings.Cut(c, "=")
						if strings.HasPrefix(k, "#") {
							it.counts[pre+"."+k[1:]] = int(v[0] - '0')
							continue
						}
						it.conds[pre+"."+k] = v
					}
				}
				out = append(out, it)
			}
		}
	}
	return out
}

// expandIdx replaces the [] of a template by all index combinations; the k-th
// [] of every placeholder shares its index.
func expandIdx(text string, n func(gen string) int) []string {
	// find the longest placeholder's lists
	var lists []string
	rest := text
	for {
		i := strings.IndexByte(rest, '{')
		if i < 0 {
			break
		}
		j := strings.IndexByte(rest, '}')
		p := rest[i+1 : j]
		var ls []string
		for k := 0; k+1 < len(p); k++ {
			if p[k] == '[' && p[k+1] == ']' {
				ls = append(ls, p[:k])
			}
		}
		if len(ls) > len(lists) {
			lists = ls
		}
		rest = rest[j+1:]
	}
	outs := []string{text}
	for _, g := range lists {
		var next []string
		for _, o := range outs {
			// each placeholder's first remaining []
			for i := 0; i < n(generalise(g)); i++ {
				var b strings.Builder
				depth, done := 0, false
				for k := 0; k < len(o); k++ {
					switch {
					case o[k] == '{':
						depth, done = 1, false
					case o[k] == '}':
						depth = 0
					case depth == 1 && !done && strings.HasPrefix(o[k:], "[]"):
						fmt.Fprintf(&b, "[%d]", i)
						k++
						done = true
						continue
					}
					b.WriteByte(o[k])
				}
				next = append(next, b.String())
			}
		}
		outs = next
	}
	return outs
}

// stripText drops the <text> wrapping of a line's value.
func (in *Interp) stripText(t *Term) *Term {
	var norm func(t *Term) *Term
	norm = func(t *Term) *Term {
		if t.K == KChoice {
			return in.dist(t, norm)
		}
		ps := pieces(t)
		var qs []*Term
		for _, p := range ps {
			if p.K == KChoice {
				p = in.dist(p, norm)
			}
			qs = append(qs, p)
		}
		if len(qs) >= 2 {
			f, l := -1, -1
			for i, p := range qs {
				if p.isStr() && f < 0 && strings.HasSuffix(p.str(), "<text>") {
					f = i
				}
			}
			if e := qs[len(qs)-1]; e.isStr() && e.str() == "</text>" {
				l = len(qs) - 1
			}
			if f >= 0 && l > f {
				qs[f] = in.ts.Str(strings.TrimSuffix(qs[f].str(), "<text>"))
				qs = qs[:l]
			}
		}
		return in.ts.Cat(qs...)
	}
	return norm(t)
}

func isPrefixPath(p, full string) bool {
	return p == full || strings.HasPrefix(full, p+".") || strings.HasPrefix(full, p+"[") || strings.HasPrefix(full, p+".key")
}

func init() {
	register("C01", "Tag-value output carries every populated field under its tag", checkC01)
}

type tvRun struct {
	in   *Interp
	outs []Outcome
}

func runTVWrite(R *Report, ver string, s *scenario, prep func(in *Interp)) *tvRun {
	fn := R.P.Func("tagvalue", "Write")
	docT := R.P.Type(verRel(ver), "Document")
	in := NewInterp(R.P)
	cfg := s.install(in)
	in.lineCanon = in.stripText
	if prep != nil {
		prep(in)
	}
	outs := in.entryCall(fn, boxDoc(in, docT, cfg), in.Label("w", fn.Signature.Params().At(1).Type()))
	R.absorb(in)
	return &tvRun{in, outs}
}

// listsOn names the lists that the paths of an item go through.
func listsOn(prefix string, paths []string) map[string]bool {
	out := map[string]bool{}
	for _, p := range append([]string{prefix}, paths...) {
		for i := 0; i+1 < len(p); i++ {
			if p[i] == '[' && p[i+1] == ']' && !strings.HasSuffix(p[:i], ".ExcludedFiles") {
				out[p[:i]] = true
			}
		}
	}
	return out
}

func checkC01(R *Report) {
	R.rule("emit", "For every line of the tag-value table: on every path of tagvalue.Write that returns nil, when the line's fields are non-empty, exactly one line with that tag and exactly those field values (optionally wrapped in <text>) reaches the writer, for each element of every list, whatever the rest of the document holds.")
	R.rule("wiring", "Every line reaching the writer that carries document data is one of the table's lines (no field under another field's tag, no altered value); other lines are comments, blank, or FilesAnalyzed.")
	R.rule("no-empty", "A scalar field that is empty is omitted, not written as a tag without a value.")
	R.rule("complete", "Every leaf of the version's document type appears in a line of the table or is listed with the reason it has none.")
	R.rule("by-value", "A document passed by value is written like one passed by pointer.")
	fn := R.P.Func("tagvalue", "Write")
	if !R.need(fn != nil, "tagvalue.Write") {
		return
	}
	R.minObs = 300
	R.assumption("the io.Writer accepts every write (failing writers: C16); lists of up to four elements (thorough: seven) stand for longer ones")
	var jobs []func()
	for _, ver := range versions {
		docT := R.P.Type(verRel(ver), "Document")
		if !R.need(docT != nil, verRel(ver)+".Document") {
			continue
		}
		insts := tvInstances(ver)
		covered := map[string]bool{}
		for _, it := range insts {
			for _, p := range it.paths {
				covered[p] = true
			}
		}
		for _, p := range leafPaths(docT, "doc") {
			if covered[p] {
				R.ob(ver+" field "+p+" has a line", true, "tagvalue.Write", "")
				continue
			}
			ok := false
			for s := range tvNoLine {
				if p == s || isPrefixPath(s, p) || strings.HasPrefix(s, ".") && strings.HasSuffix(p, s) {
					ok = true
				}
			}
			// doc-level snippets, package/file annotations: grouped by owner
			key := p
			for _, g := range []string{"doc.Snippets[]", "doc.Packages[].Annotations[]", "doc.Files[].Annotations[]", "doc.Packages[].Files[].Annotations[]"} {
				if strings.HasPrefix(p, g) {
					key = g
				}
			}
			R.ob(ver+" field "+key+" has a line", ok, "tagvalue.Write", "the field is not written to tag-value output at all")
		}
		full := map[string]bool{}
		var comments = func(l string) bool { return l == "" || strings.HasPrefix(l, "#") }
		// wiring over a fully populated document with unknown scalars
		n2 := func(string) int { return 2 }
		for _, it := range insts {
			for _, t := range expandIdx(it.text, n2) {
				full[t] = true
			}
		}
		for _, excl := range []int{0, 1, 2} {
			excl := excl
			jobs = append(jobs, func() {
				s := &scenario{leaf: map[string]string{}, def: "?", n: func(g string) int {
					if strings.HasSuffix(g, ".ExcludedFiles") {
						return max(excl, 1)
					}
					return 2
				}}
				if excl == 0 {
					s.present = func(g string) bool { return !strings.HasSuffix(g, ".ExcludedFiles") }
				}
				r := runTVWrite(R, ver, s, nil)
				if t := r.in.trouble(); t != "" {
					R.fail(ver+" wiring decided", "tagvalue.Write", t)
				}
				for _, o := range r.outs {
					for _, e := range sortedEvents(o.st, "line") {
						for _, txt := range termTexts(r.in, e.Term) {
							if comments(txt) {
								continue
							}
							ok := full[txt]
							R.ob(ver+" line "+generalise(txt)+" is in the format table", ok, R.P.Pos(e.Pos), "written line "+short(txt, 200)+" matches no line of the format ("+e.Ctx+")")
							R.ob(ver+" line "+generalise(txt)+" is written once", e.Max <= 1 || !strings.Contains(txt, "{"), R.P.Pos(e.Pos), "the line for one field value can be written more than once")
						}
					}
					if p := o.st.pend; len(p) > 0 {
						for _, t := range p {
							R.ob(ver+" output ends with a newline", termText(t) == "", "tagvalue.Write", "unterminated output "+short(termText(t), 100))
						}
					}
				}
			})
		}
		// no-empty: every scalar empty
		jobs = append(jobs, func() {
			s := &scenario{leaf: map[string]string{}, def: ""}
			r := runTVWrite(R, ver, s, nil)
			scalar := map[string]bool{}
			for _, it := range insts {
				if len(it.paths) == 1 && !strings.HasSuffix(it.paths[0], "[]") && it.paths[0] != "doc.CreationInfo.Creators[].Creator" && !strings.HasSuffix(it.paths[0], "ArtifactOfProjects[].Name") && !strings.Contains(it.text, "SnippetFromFileSPDXID") {
					tag, _, _ := strings.Cut(it.text, ":")
					scalar[tag] = true
				}
			}
			for _, o := range r.outs {
				seen := map[string]*Event{}
				for _, e := range sortedEvents(o.st, "line") {
					tag, v, ok := strings.Cut(termText(e.Term), ":")
					v = strings.TrimSpace(v)
					if ok && (v == "" || v == "SPDXRef-") {
						seen[tag] = e
					}
				}
				for t := range scalar {
					e := seen[t]
					where := "tagvalue.Write"
					if e != nil {
						where = R.P.Pos(e.Pos)
					}
					R.ob(ver+" empty "+t+" is omitted", e == nil, where, "the tag is written with no value when the field is empty")
				}
			}
		})
		for _, it := range insts {
			it := it
			modes := []string{"rich", "lean"}
			for g := range listsOn(it.prefix, it.paths) {
				modes = append(modes, "long "+g)
			}
			for _, mode := range modes {
				mode := mode
				jobs = append(jobs, func() {
					s := &scenario{leaf: map[string]string{}, def: "?"}
					for k, v := range it.conds {
						s.leaf[k] = v
					}
					for _, p := range it.paths {
						s.leaf[p] = "ne"
						if strings.HasSuffix(p, ".SpecialID") {
							s.leaf[p] = "gen"
						}
					}
					size := func(g string) int { return 2 }
					if mode != "rich" {
						long, many := strings.TrimPrefix(mode, "long "), 4
						if R.thorough() {
							many = 7
						}
						size = func(g string) int {
							if g == long {
								return longer(many)
							}
							return 1
						}
						// only what the line needs, and the mandatory creation section
						need := append([]string{"doc.CreationInfo.Created", it.prefix + ".X"}, it.paths...)
						s.present = func(g string) bool {
							for _, p := range need {
								if isPrefixPath(g, p) {
									return true
								}
							}
							return false
						}
					}
					s.n = func(g string) int {
						if c, ok := it.counts[g]; ok {
							return c
						}
						if strings.HasSuffix(g, ".ExcludedFiles") {
							return 1
						}
						return size(g)
					}
					r := runTVWrite(R, ver, s, nil)
					key := ver + " emits " + it.text + " (" + mode + ")"
					if len(it.conds) > 0 && len(it.paths) == 0 {
						key = ver + " emits " + it.prefix + " " + it.text + " (" + mode + ")"
					}
					if t := r.in.trouble(); t != "" {
						R.fail(key, "tagvalue.Write", "undecided: "+t)
						return
					}
					want := expandIdx(it.text, size)
					nsucc := 0
					for _, o := range r.outs {
						if errClass(r.in, o.st, o.res[0]) == 'e' {
							continue
						}
						nsucc++
						got := map[string]*Event{}
						for _, e := range sortedEvents(o.st, "line") {
							txt := termText(e.Term)
							if old := got[txt]; old == nil || old.Min < e.Min {
								got[txt] = e
							}
						}
						for _, w := range want {
							e := got[w]
							ok := e != nil && e.Min >= 1 && (e.Max <= 1 || len(it.paths) == 0)
							where, d := "tagvalue.Write", ""
							if e != nil {
								where = R.P.Pos(e.Pos)
							}
							if !ok {
								var near []string
								tag, _, _ := strings.Cut(w, ":")
								for g, ev := range got {
									if strings.HasPrefix(g, tag+":") {
										near = append(near, fmt.Sprintf("%q (min %d max %d at %s)", short(g, 160), ev.Min, ev.Max, R.P.Pos(ev.Pos)))
									}
								}
								sort.Strings(near)
								d = fmt.Sprintf("line %q is not written exactly once on every successful path; lines with the tag: %s", w, strings.Join(near, "; "))
							}
							R.ob(key, ok, where, d)
						}
					}
					if nsucc == 0 {
						R.fail(key, "tagvalue.Write", "no path of the writer returns success for such a document")
					}
				})
			}
		}
		// by value
		jobs = append(jobs, func() {
			s := &scenario{leaf: map[string]string{"doc.DocumentName": "ne"}, def: "?", n: func(string) int { return 1 }}
			in := NewInterp(R.P)
			cfg := s.install(in)
			in.lineCanon = in.stripText
			v := in.build(docT, "doc", cfg)
			outs := in.entryCall(fn, in.ts.Iface(docT, v), in.Label("w", fn.Signature.Params().At(1).Type()))
			R.absorb(in)
			for _, o := range outs {
				if errClass(in, o.st, o.res[0]) == 'e' {
					R.fail(ver+" document by value is written", "tagvalue.Write", "an error is returned for a document value")
					continue
				}
				ok := false
				for _, e := range sortedEvents(o.st, "line") {
					if termText(e.Term) == "DocumentName: {doc.DocumentName}" && e.Min > 0 {
						ok = true
					}
				}
				R.ob(ver+" document by value is written", ok, "tagvalue.Write", "a document passed by value is not written")
			}
			if len(outs) == 0 {
				R.fail(ver+" document by value is written", "tagvalue.Write", "no outcome")
			}
		})
	}
	par(jobs)
}
