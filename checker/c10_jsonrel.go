package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C10", "JSON relationship shortcuts become relationships, once", checkC10)
}

// a relationship as the reference function sees it
type relRef struct{ a, rel, b, comment string }

func (r relRef) norm() relRef {
	switch r.rel {
	case "CONTAINED_BY":
		return relRef{a: r.b, rel: "CONTAINS", b: r.a}
	case "DESCRIBED_BY":
		return relRef{a: r.b, rel: "DESCRIBES", b: r.a}
	}
	return relRef{a: r.a, rel: r.rel, b: r.b}
}

// relExpect: the relationships a document should have, by the meaning of the
// shortcuts: explicit ones as given, without nulls, then one for every
// described element and contained file that is not stated already.
func relExpect(explicit []*relRef, describes []string, has [][2]string, shortcuts bool) []relRef {
	var out []relRef
	seen := map[relRef]bool{}
	for _, r := range explicit {
		if r == nil {
			continue
		}
		out = append(out, *r)
		seen[r.norm()] = true
	}
	if !shortcuts {
		return out
	}
	add := func(r relRef) {
		if !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	for _, d := range describes {
		add(relRef{a: "SPDXRef-DOC", rel: "DESCRIBES", b: d})
	}
	for _, h := range has {
		add(relRef{a: h[0], rel: "CONTAINS", b: h[1]})
	}
	return out
}

func checkC10(R *Report) {
	R.rule("shortcuts", "The relationships of the document read are the explicit ones in their order, without nulls, and then one DESCRIBES for every element of documentDescribes and one CONTAINS for every file of a package's hasFiles that no explicit or earlier relationship states in either direction.")
	R.assumption("encoding/json and sigs.k8s.io/yaml decode by their rules for the struct tags and UnmarshalJSON methods")
	R.minObs = 500
	rel := func(a, r, b string) *relRef { return &relRef{a: "SPDXRef-" + a, rel: r, b: "SPDXRef-" + b} }
	universe := []*relRef{
		nil,
		rel("DOC", "DESCRIBES", "P1"),
		rel("P1", "DESCRIBED_BY", "DOC"),
		rel("P1", "DESCRIBES", "DOC"),
		rel("P1", "CONTAINS", "F1"),
		rel("F1", "CONTAINED_BY", "P1"),
		rel("F1", "CONTAINS", "P1"),
		rel("P2", "CONTAINS", "F1"),
		{a: "SPDXRef-DOC", rel: "DESCRIBES", b: "DocumentRef-X:SPDXRef-P1"},
		{a: "DocumentRef-X:SPDXRef-P1", rel: "DESCRIBED_BY", b: "SPDXRef-DOC"},
		rel("DOC", "CONTAINS", "P1"),
		rel("P1", "DEPENDS_ON", "F1"),
	}
	seqs := [][]*relRef{nil}
	for _, a := range universe {
		seqs = append(seqs, []*relRef{a})
		for _, b := range universe {
			seqs = append(seqs, []*relRef{a, b})
			if R.thorough() {
				for _, c := range universe {
					seqs = append(seqs, []*relRef{a, b, c})
				}
			}
		}
	}
	seqs = append(seqs, []*relRef{nil, nil, universe[2]}, []*relRef{nil, universe[4], nil, nil, universe[1]})
	describes := [][]string{nil, {"SPDXRef-P1"}, {"SPDXRef-P1", "SPDXRef-P1"}, {"SPDXRef-P2", "SPDXRef-P1"}, {"DocumentRef-X:SPDXRef-P1", "SPDXRef-P1"}, {"SPDXRef-F1", "NONE"}}
	type pk struct {
		id  string // "" a null package
		has []string
	}
	packages := [][]pk{
		nil,
		{{"P1", nil}},
		{{"P1", []string{"SPDXRef-F1"}}},
		{{"P1", []string{"SPDXRef-F1", "SPDXRef-F2", "SPDXRef-F1"}}},
		{{"P2", []string{"SPDXRef-F1"}}, {"P1", []string{"SPDXRef-F1"}}},
		{{"", nil}, {"P1", []string{"DocumentRef-X:SPDXRef-F1", "SPDXRef-F1"}}},
	}
	var jobs []func()
	n := 0
	for _, ver := range versions {
		if !R.need(R.P.Type(verRel(ver), "Document") != nil, verRel(ver)+".Document") {
			continue
		}
		shortcuts := ver != "v2_1"
		for _, f := range jsonFormats {
			if !R.need(R.P.Func(f, "ReadInto") != nil, f+".ReadInto") {
				continue
			}
			run := func(seq []*relRef, ds []string, ps []pk) {
				var explicit []*relRef
				var rels, pkgs, descs []string
				for i, r := range seq {
					if r == nil {
						rels = append(rels, "null")
						explicit = append(explicit, nil)
						continue
					}
					c := *r
					c.comment = fmt.Sprintf("c%d", i)
					explicit = append(explicit, &c)
					rels = append(rels, fmt.Sprintf(`{"spdxElementId":%q,"relationshipType":%q,"relatedSpdxElement":%q,"comment":%q}`, c.a, c.rel, c.b, c.comment))
				}
				var has [][2]string
				for _, p := range ps {
					if p.id == "" {
						pkgs = append(pkgs, "null")
						continue
					}
					var hs []string
					for _, h := range p.has {
						hs = append(hs, fmt.Sprintf("%q", h))
						has = append(has, [2]string{"SPDXRef-" + p.id, h})
					}
					pkgs = append(pkgs, fmt.Sprintf(`{"name":"n","SPDXID":"SPDXRef-%s","hasFiles":[%s]}`, p.id, strings.Join(hs, ",")))
				}
				for _, d := range ds {
					descs = append(descs, fmt.Sprintf("%q", d))
				}
				text := fmt.Sprintf(`{"spdxVersion":%q,"SPDXID":"SPDXRef-DOC","documentDescribes":[%s],"relationships":[%s],"packages":[%s]}`,
					"SPDX-2."+ver[3:], strings.Join(descs, ","), strings.Join(rels, ","), strings.Join(pkgs, ","))
				key := fmt.Sprintf("%s %s reads %s", f, ver, text)
				where := f + ".ReadInto"
				r, why := jsonRead(R, f, ver, &scenario{}, func(in *Interp) *Term { return in.jParseText(text) })
				if why != "" {
					R.fail(key, where, why)
					return
				}
				want := map[string]string{}
				for i, r := range relExpect(explicit, ds, has, shortcuts) {
					p := fmt.Sprintf("doc.Relationships[%d].", i)
					relEnd(want, p+"RefA.", r.a)
					relEnd(want, p+"RefB.", r.b)
					want[p+"Relationship"] = r.rel
					if r.comment != "" {
						want[p+"RelationshipComment"] = r.comment
					}
				}
				for _, o := range r.outs {
					if ec := errClass(r.in, o.st, o.res[0]); ec != 'n' {
						R.fail(key, where, "the text is refused, or it is undecided whether it is: "+short(termText(o.res[0]), 300))
						return
					}
					got := map[string]string{}
					for k, v := range r.leaves(o) {
						if strings.HasPrefix(k, "doc.Relationships") || strings.Contains(k, ".hasFiles") {
							got[k] = v
						}
					}
					if d := mapDiff(want, got); d != "" {
						R.fail(key, where, d)
						return
					}
				}
				R.ob(key, true, where, "")
			}
			for si, seq := range seqs {
				for di, ds := range describes {
					for pi, ps := range packages {
						// the shortcuts in full with few explicit relationships, in part with more
						if len(seq) > 1 && !(di == pi || di == 1 && pi == 2) || len(seq) > 2 && si%6 != di {
							continue
						}
						if f == "yaml" && len(seq) > 1 || !shortcuts && (len(seq) > 1 || len(seq) == 1 && seq[0] == nil) {
							continue
						}
						n++
						jobs = append(jobs, func() { run(seq, ds, ps) })
					}
				}
			}
			jobs = append(jobs, func() {
				// many of each, a few of them stated before, the last twice
				var seq []*relRef
				var ds, has []string
				var ps []pk
				n := longer(4)
				for i := range n {
					id := fmt.Sprintf("SPDXRef-M%d", i)
					ds, has = append(ds, id), append(has, id)
					ps = append(ps, pk{fmt.Sprintf("N%d", i), []string{id, "SPDXRef-F1"}})
					if i%3 == 1 {
						seq = append(seq, &relRef{a: "SPDXRef-DOC", rel: "DESCRIBES", b: id})
					}
				}
				ds = append(ds, ds[n-1])
				ps = append(ps, pk{"P1", append(has, has[n-1])})
				run(seq, ds, ps)
			})
		}
	}
	par(jobs)
}

func relEnd(m map[string]string, p, ref string) {
	if ref == "NONE" || ref == "NOASSERTION" {
		m[p+"SpecialID"] = ref
		return
	}
	if i := strings.Index(ref, ":"); i >= 0 {
		m[p+"DocumentRefID"] = strings.TrimPrefix(ref[:i], "DocumentRef-")
		ref = ref[i+1:]
	}
	m[p+"ElementRefID"] = strings.TrimPrefix(ref, "SPDXRef-")
}
