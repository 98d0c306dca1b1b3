package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C12", "Readers refuse what they cannot read and leave the target alone", checkC12)
}

// refused runs ReadInto of a format over the text set up in in, into a target
// that holds a document already, and expects an error and an untouched target.
func refused(R *Report, key, format string, in *Interp, target types.Type, byValue bool) {
	where := format + ".ReadInto"
	fn := R.P.Func(format, "ReadInto")
	before := in.build(target, "before", &shapeCfg{n: func(string) int { return 1 }})
	o := in.inputObj("target", "target", target, before)
	arg := in.ts.Iface(types.NewPointer(target), in.ts.Addr(o.ID))
	if byValue {
		arg = in.ts.Iface(target, before)
	}
	outs := in.entryCall(fn, in.Label("r", fn.Signature.Params().At(0).Type()), arg)
	R.absorb(in)
	if t := in.trouble(); t != "" || len(outs) == 0 {
		R.fail(key, where, "reading is undecided: "+t)
		return
	}
	failing := in.failMode
	n := 0
	for _, out := range outs {
		if failing && !in.hasFailed(out.st) {
			continue
		}
		n++
		if errClass(in, out.st, out.res[0]) != 'e' {
			R.fail(key, where, "the text is accepted, or it is undecided whether it is")
			return
		}
		for _, e := range sortedEvents(out.st, "write-input") {
			if strings.HasPrefix(in.objs[e.Obj].Name, "before") || in.objs[e.Obj].ID == o.ID {
				R.fail(key, where, "the target document is changed although reading fails")
				return
			}
		}
		if in.content(out.st, o.ID) != before {
			R.fail(key, where, "the target document is changed although reading fails")
			return
		}
	}
	R.ob(key, n > 0, where, "no read of the text fails")
}

func checkC12(R *Report) {
	R.rule("refusal", "A text whose version is missing, unknown or not a text, a text that is no object or no text of the format at all, a target that is not a pointer and a failing read each make ReadInto return an error.")
	R.rule("untouched", "When ReadInto returns an error, the target document and everything reachable from it is as it was.")
	R.assumption("encoding/json and sigs.k8s.io/yaml decode by their rules; an io.Reader that fails returns an error")
	R.special(func(l, v string) bool { return l == "v" && (v == "SPDX-2.1" || v == "SPDX-2.2" || v == "SPDX-2.3") })
	R.minObs = 300
	var jobs []func()
	job := func(f func()) { jobs = append(jobs, f) }
	for _, f := range []string{"json", "yaml", "tagvalue"} {
		if !R.need(R.P.Func(f, "ReadInto") != nil, f+".ReadInto") {
			continue
		}
		setJSON := func(in *Interp, t *Term) {
			in.jsonMode = true
			if f == "yaml" {
				t = in.ts.intern(&Term{K: KOp, Op: "yaml", Args: []*Term{t}, T: strT})
			}
			in.readText = t
		}
		for _, ver := range versions {
			docT := R.P.Type(verRel(ver), "Document")
			if !R.need(docT != nil, verRel(ver)+".Document") {
				continue
			}
			good := func(in *Interp) { // a text that can be read
				in.convMode = true
				if f == "tagvalue" {
					in.lines = []*Term{}
					for _, l := range []string{"SPDXVersion: SPDX-2." + ver[3:], "DataLicense: CC0-1.0", "SPDXID: SPDXRef-DOCUMENT", "DocumentName: n"} {
						in.lines = append(in.lines, in.tmplTerm(l))
					}
					return
				}
				setJSON(in, in.jParseText(fmt.Sprintf(`{"spdxVersion":"SPDX-2.%s","SPDXID":"SPDXRef-DOCUMENT","name":"n"}`, ver[3:])))
			}
			job(func() {
				in := NewInterp(R.P)
				good(in)
				refused(R, f+" "+ver+", target that is not a pointer", f, in, docT, true)
			})
			job(func() {
				in := NewInterp(R.P)
				in.enableFailures()
				good(in)
				refused(R, f+" "+ver+", failing read", f, in, docT, false)
			})
			job(func() { // and is read otherwise
				in := NewInterp(R.P)
				good(in)
				key := f + " " + ver + ", text that can be read"
				outs, leaves, why := runRead(R, f, in, docT)
				if why != "" || len(outs) != 1 || errClass(in, outs[0].st, outs[0].res[0]) != 'n' {
					R.fail(key, f+".ReadInto", "the text is refused, or it is undecided whether it is: "+why)
					return
				}
				R.ob(key, leaves(outs[0])["doc.DocumentName"] == "n", f+".ReadInto", "the text is not read")
			})
			if f == "tagvalue" {
				bads := [][]string{{}, {"", "   "}, {"# SPDXVersion: SPDX-2." + ver[3:]}, {"DataLicense: CC0-1.0"}, {"DataLicense: CC0-1.0", "SPDXID: SPDXRef-DOCUMENT"}}
				for _, v := range badVersions {
					bads = append(bads, []string{"SPDXVersion: " + v, "DataLicense: CC0-1.0", "SPDXID: SPDXRef-DOCUMENT"}, []string{"DataLicense: CC0-1.0", "SPDXVersion: " + v})
				}
				head := []string{"SPDXVersion: SPDX-2." + ver[3:], "DataLicense: CC0-1.0", "SPDXID: SPDXRef-DOCUMENT", "DocumentName: n"}
				for _, l := range []string{"no colon", "Tag: <text>never closed", "DocumentComment: <text>", "Creator: x", "PackageName: p\nSPDXID: x", "PackageName: p", "FileName: f", "PackageName: p\nSPDXID: SPDXRef-p\nFileName: f\nSPDXID: SPDXRef-f\nFileChecksum: x", "Relationship: x", "Unknown: x"} {
					bads = append(bads, append(append([]string(nil), head...), strings.Split(l, "\n")...))
				}
				for _, b := range bads {
					job(func() {
						in := NewInterp(R.P)
						in.convMode = true
						(&scenario{leaf: map[string]string{"v": "gen"}}).install(in)
						in.lines = []*Term{}
						for _, l := range b {
							in.lines = append(in.lines, in.tmplTerm(l))
						}
						refused(R, "tagvalue into "+ver+": "+strings.Join(b, " / "), f, in, docT, false)
					})
				}
				continue
			}
			texts := []string{`[]`, `"SPDX-2.3"`, `2.3`, `true`, `null`, `{}`, `[{"spdxVersion":"SPDX-2.3"}]`, `{"SPDXVersion":"SPDX-2.3"}`, `{"spdxversion":"SPDX-2.3"}`, `{"name":"n","SPDXID":"SPDXRef-DOCUMENT"}`, `{"packages":[{"spdxVersion":"SPDX-2.3"}]}`,
				`{"spdxVersion":2.3}`, `{"spdxVersion":null}`, `{"spdxVersion":true}`, `{"spdxVersion":["SPDX-2.3"]}`, `{"spdxVersion":{"a":"SPDX-2.3"}}`}
			if f == "json" {
				texts = append(texts, "", "{", "SPDXVersion: SPDX-2.3", `{"spdxVersion":"SPDX-2.3"`, `{"spdxVersion":"SPDX-2.3"}}`, `{"spdxVersion":"SPDX-2.3"} x`, `{"spdxVersion":"SPDX-2.3",}`)
			}
			for _, v := range badVersions {
				if v == "{v}" {
					continue
				}
				texts = append(texts, fmt.Sprintf(`{"spdxVersion":%q,"name":"n"}`, v))
			}
			for _, v := range versions {
				texts = append(texts, fmt.Sprintf(`{"spdxVersion":"SPDX-2.%s","name":7}`, v[3:]), fmt.Sprintf(`{"spdxVersion":"SPDX-2.%s","name":"n","packages":[{"name":"p","SPDXID":"p"}]}`, v[3:]),
					fmt.Sprintf(`{"spdxVersion":"SPDX-2.%s","name":"n","relationships":[{"spdxElementId":"x"}]}`, v[3:]))
			}
			for _, t := range texts {
				job(func() {
					in := NewInterp(R.P)
					in.convMode = true
					j := in.ts.Str(t)
					if jsonValid(t) {
						j = in.jParseText(t)
					}
					setJSON(in, j)
					refused(R, f+" into "+ver+": "+t, f, in, docT, false)
				})
			}
			job(func() {
				in := NewInterp(R.P)
				in.convMode = true
				(&scenario{leaf: map[string]string{"v": "gen"}}).install(in)
				setJSON(in, in.jObj(in.ts.Str("spdxVersion"), in.jStr(in.Label("v", strT)), in.ts.Str("name"), in.jStr(in.ts.Str("n"))))
				refused(R, f+" into "+ver+": any other spdxVersion", f, in, docT, false)
			})
		}
	}
	par(jobs)
}

var badVersions = []string{"SPDX-2.0", "SPDX-2.4", "SPDX-1.2", "SPDX-3.0", "SPDX-2", "SPDX-2.", "SPDX-2.30", "SPDX-2.3.1", "2.3", "spdx-2.3", "SPDX 2.3", "SPDX-", "v2_3", "{v}"}
