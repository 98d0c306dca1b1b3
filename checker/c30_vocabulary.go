package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C30", "The names of the library stand for the terms of SPDX", checkC30)
}

// spdxTerms are the terms of SPDX 2.x that the library names: the value by the
// name in package common, and the name in package spdx where it differs.
var spdxTerms = []struct{ common, value, spdx string }{
	{"SHA1", "SHA1", ""}, {"SHA224", "SHA224", ""}, {"SHA256", "SHA256", ""}, {"SHA384", "SHA384", ""}, {"SHA512", "SHA512", ""},
	{"MD2", "MD2", ""}, {"MD4", "MD4", ""}, {"MD5", "MD5", ""}, {"MD6", "MD6", ""},
	{"SHA3_256", "SHA3-256", ""}, {"SHA3_384", "SHA3-384", ""}, {"SHA3_512", "SHA3-512", ""},
	{"BLAKE2b_256", "BLAKE2b-256", ""}, {"BLAKE2b_384", "BLAKE2b-384", ""}, {"BLAKE2b_512", "BLAKE2b-512", ""}, {"BLAKE3", "BLAKE3", ""}, {"ADLER32", "ADLER32", ""},
	{"CategorySecurity", "SECURITY", ""}, {"CategoryPackageManager", "PACKAGE-MANAGER", ""}, {"CategoryPersistentId", "PERSISTENT-ID", ""}, {"CategoryOther", "OTHER", ""},
	{"TypeSecurityCPE23Type", "cpe23Type", "SecurityCPE23Type"}, {"TypeSecurityCPE22Type", "cpe22Type", "SecurityCPE22Type"}, {"TypeSecurityAdvisory", "advisory", "SecurityAdvisory"},
	{"TypeSecurityFix", "fix", "SecurityFix"}, {"TypeSecurityUrl", "url", "SecurityUrl"}, {"TypeSecuritySwid", "swid", "SecuritySwid"},
	{"TypePackageManagerMavenCentral", "maven-central", "PackageManagerMavenCentral"}, {"TypePackageManagerNpm", "npm", "PackageManagerNpm"}, {"TypePackageManagerNuGet", "nuget", "PackageManagerNuGet"},
	{"TypePackageManagerBower", "bower", "PackageManagerBower"}, {"TypePackageManagerPURL", "purl", "PackageManagerPURL"},
	{"TypePersistentIdSwh", "swh", ""}, {"TypePersistentIdGitoid", "gitoid", ""},
	{"TypeRelationshipDescribe", "DESCRIBES", "RelationshipDescribes"}, {"TypeRelationshipDescribeBy", "DESCRIBED_BY", "RelationshipDescribedBy"},
	{"TypeRelationshipContains", "CONTAINS", "RelationshipContains"}, {"TypeRelationshipContainedBy", "CONTAINED_BY", "RelationshipContainedBy"},
	{"TypeRelationshipDependsOn", "DEPENDS_ON", "RelationshipDependsOn"}, {"TypeRelationshipDependencyOf", "DEPENDENCY_OF", "RelationshipDependencyOf"},
	{"TypeRelationshipBuildDependencyOf", "BUILD_DEPENDENCY_OF", "RelationshipBuildDependencyOf"}, {"TypeRelationshipDevDependencyOf", "DEV_DEPENDENCY_OF", "RelationshipDevDependencyOf"},
	{"TypeRelationshipOptionalDependencyOf", "OPTIONAL_DEPENDENCY_OF", "RelationshipOptionalDependencyOf"}, {"TypeRelationshipProvidedDependencyOf", "PROVIDED_DEPENDENCY_OF", "RelationshipProvidedDependencyOf"},
	{"TypeRelationshipTestDependencyOf", "TEST_DEPENDENCY_OF", "RelationshipTestDependencyOf"}, {"TypeRelationshipRuntimeDependencyOf", "RUNTIME_DEPENDENCY_OF", "RelationshipRuntimeDependencyOf"},
	{"TypeRelationshipExampleOf", "EXAMPLE_OF", "RelationshipExampleOf"}, {"TypeRelationshipGenerates", "GENERATES", "RelationshipGenerates"}, {"TypeRelationshipGeneratedFrom", "GENERATED_FROM", "RelationshipGeneratedFrom"},
	{"TypeRelationshipAncestorOf", "ANCESTOR_OF", "RelationshipAncestorOf"}, {"TypeRelationshipDescendantOf", "DESCENDANT_OF", "RelationshipDescendantOf"}, {"TypeRelationshipVariantOf", "VARIANT_OF", "RelationshipVariantOf"},
	{"TypeRelationshipDistributionArtifact", "DISTRIBUTION_ARTIFACT", "RelationshipDistributionArtifact"}, {"TypeRelationshipPatchFor", "PATCH_FOR", "RelationshipPatchFor"}, {"TypeRelationshipPatchApplied", "PATCH_APPLIED", "RelationshipPatchApplied"},
	{"TypeRelationshipCopyOf", "COPY_OF", "RelationshipCopyOf"}, {"TypeRelationshipFileAdded", "FILE_ADDED", "RelationshipFileAdded"}, {"TypeRelationshipFileDeleted", "FILE_DELETED", "RelationshipFileDeleted"}, {"TypeRelationshipFileModified", "FILE_MODIFIED", "RelationshipFileModified"},
	{"TypeRelationshipExpandedFromArchive", "EXPANDED_FROM_ARCHIVE", "RelationshipExpandedFromArchive"}, {"TypeRelationshipDynamicLink", "DYNAMIC_LINK", "RelationshipDynamicLink"}, {"TypeRelationshipStaticLink", "STATIC_LINK", "RelationshipStaticLink"},
	{"TypeRelationshipDataFileOf", "DATA_FILE_OF", "RelationshipDataFileOf"}, {"TypeRelationshipTestCaseOf", "TEST_CASE_OF", "RelationshipTestCaseOf"}, {"TypeRelationshipBuildToolOf", "BUILD_TOOL_OF", "RelationshipBuildToolOf"},
	{"TypeRelationshipDevToolOf", "DEV_TOOL_OF", "RelationshipDevToolOf"}, {"TypeRelationshipTestOf", "TEST_OF", "RelationshipTestOf"}, {"TypeRelationshipTestToolOf", "TEST_TOOL_OF", "RelationshipTestToolOf"},
	{"TypeRelationshipDocumentationOf", "DOCUMENTATION_OF", "RelationshipDocumentationOf"}, {"TypeRelationshipOptionalComponentOf", "OPTIONAL_COMPONENT_OF", "RelationshipOptionalComponentOf"}, {"TypeRelationshipMetafileOf", "METAFILE_OF", "RelationshipMetafileOf"},
	{"TypeRelationshipPackageOf", "PACKAGE_OF", "RelationshipPackageOf"}, {"TypeRelationshipAmends", "AMENDS", "RelationshipAmends"}, {"TypeRelationshipPrerequisiteFor", "PREREQUISITE_FOR", "RelationshipPrerequisiteFor"},
	{"TypeRelationshipHasPrerequisite", "HAS_PREREQUISITE", "RelationshipHasPrerequisite"}, {"TypeRelationshipRequirementDescriptionFor", "REQUIREMENT_DESCRIPTION_FOR", "RelationshipRequirementDescriptionFor"},
	{"TypeRelationshipSpecificationFor", "SPECIFICATION_FOR", "RelationshipSpecificationFor"}, {"TypeRelationshipOther", "OTHER", "RelationshipOther"},
}

func checkC30(R *Report) {
	R.rule("terms", "Every constant the library exports for a checksum algorithm, a category or type of external reference or a type of relationship is the term of the SPDX specification its name says, in package common and under its name in package spdx.")
	R.rule("versions", "Each model package names its own SPDX version and the data licence CC0-1.0, and package spdx those of the latest.")
	R.rule("latest", "The types of package spdx are those of the latest model and of package common, name for name, and the readers of every format give the latest document.")
	R.rule("complete", "A constant of package common without a term here must be as spelt as its name: nothing is left out silently.")
	R.minObs = 150
	P := R.P
	com, cur := P.pkg("spdx/v2/common"), P.pkg("spdx")
	if !R.need(com != nil && cur != nil, "packages spdx/v2/common and spdx") {
		return
	}
	val := func(p *types.Package, name string) (string, string, bool) {
		c, ok := p.Scope().Lookup(name).(*types.Const)
		if !ok || c.Val().Kind() != constant.String {
			return "", "-", false
		}
		return constant.StringVal(c.Val()), P.Pos(c.Pos()), true
	}
	known := map[string]bool{}
	for _, t := range spdxTerms {
		known[t.common] = true
		v, at, ok := val(com.Pkg, t.common)
		if R.ob("common."+t.common+" is there", ok, at, "the constant is gone") {
			R.ob("common."+t.common+" is "+t.value, v == t.value, at, "it is "+v)
		}
		name := t.spdx
		if name == "" {
			name = t.common
		}
		known["spdx."+name] = true
		v, at, ok = val(cur.Pkg, name)
		if R.ob("spdx."+name+" is there", ok, at, "the constant is gone") {
			R.ob("spdx."+name+" is "+t.value, v == t.value, at, "it is "+v)
		}
	}
	flat := func(s string) string {
		return strings.ToLower(strings.NewReplacer("_", "", "-", "").Replace(s))
	}
	for _, x := range []struct {
		p   *types.Package
		pre string
	}{{com.Pkg, ""}, {cur.Pkg, "spdx."}} {
		names := x.p.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			v, at, ok := val(x.p, n)
			if !ok || known[x.pre+n] || !x.p.Scope().Lookup(n).Exported() {
				continue
			}
			if x.pre != "" && (n == "Version" || n == "DataLicense") {
				continue
			}
			// a constant that was added
			R.ob(x.p.Name()+"."+n+" is spelt as its name says", flat(v) != "" && strings.HasSuffix(flat(n), flat(v)), at, "it is "+v)
		}
	}
	latest := versions[len(versions)-1]
	for _, ver := range versions {
		p := P.pkg(verRel(ver))
		if !R.need(p != nil, verRel(ver)) {
			continue
		}
		want := "SPDX-" + strings.ReplaceAll(ver[1:], "_", ".")
		v, at, _ := val(p.Pkg, "Version")
		R.ob(ver+".Version is "+want, v == want, at, "it is "+v)
		l, at, _ := val(p.Pkg, "DataLicense")
		R.ob(ver+".DataLicense is CC0-1.0", l == "CC0-1.0", at, "it is "+l)
		if ver == latest {
			v, at, _ := val(cur.Pkg, "Version")
			R.ob("spdx.Version is "+want, v == want, at, "it is "+v)
			l, at, _ := val(cur.Pkg, "DataLicense")
			R.ob("spdx.DataLicense is CC0-1.0", l == "CC0-1.0", at, "it is "+l)
		}
	}
	// the types of the current model
	lp := P.pkg(verRel(latest))
	n := 0
	for _, name := range cur.Pkg.Scope().Names() {
		tn, ok := cur.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		n++
		var want types.Type
		if o, ok := lp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			want = o.Type()
		} else if o, ok := com.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			want = o.Type()
		}
		R.ob("spdx."+name+" is the type of the latest model", want != nil && types.Identical(tn.Type(), want), P.Pos(tn.Pos()), "it is "+tn.Type().String())
	}
	R.ob("package spdx names the types of the model", n >= 20, "-", fmt.Sprintf("only %d types", n))
	for _, name := range lp.Pkg.Scope().Names() {
		tn, ok := lp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if ok && tn.Exported() {
			_, isStruct := tn.Type().Underlying().(*types.Struct)
			if isStruct {
				R.ob("spdx."+name+" is there", cur.Pkg.Scope().Lookup(name) != nil, P.Pos(tn.Pos()), "the latest model has a type that package spdx lacks")
			}
		}
	}
	doc := types.NewPointer(P.Type(verRel(latest), "Document"))
	for _, f := range []string{"json", "yaml", "rdf", "tagvalue"} {
		fn := P.Func(f, "Read")
		if !R.need(fn != nil, f+".Read") {
			continue
		}
		R.ob(f+".Read gives the latest document", types.Identical(fn.Signature.Results().At(0).Type(), doc), P.Pos(fn.Pos()), "it gives "+fn.Signature.Results().At(0).Type().String())
	}
}
