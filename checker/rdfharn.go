package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RDF graphs as inputs of the readers: a list of triples whose nodes are
// written with a leading letter for their kind.
//
//	I: IRI, R: rdf:resource, B: blank node, N: named blank node, L: literal

type rTriple struct{ s, p, o string }

var rdfNS = []struct{ short, full string }{
	{"spdx:", "http://spdx.org/rdf/terms#"},
	{"rdfs:", "http://www.w3.org/2000/01/rdf-schema#"},
	{"rdf:", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"},
	{"ptr:", "http://www.w3.org/2009/pointers#"},
	{"doap:", "http://usefulinc.com/ns/doap#"},
	{"lic:", "http://spdx.org/licenses/"},
	{"d:", "http://x.org/d#"},
}

func rdfURI(s string) string {
	for _, n := range rdfNS {
		if strings.HasPrefix(s, n.short) {
			return n.full + s[len(n.short):]
		}
	}
	return s
}

func unURI(s string) string {
	for _, n := range rdfNS {
		if strings.HasPrefix(s, n.full) {
			return n.short + s[len(n.full):]
		}
	}
	return s
}

const docNode = "Id:SPDXRef-DOCUMENT"

// rdfParser makes a *parser.Parser of gordf that holds the triples.
func (in *Interp) rdfParser(pt types.Type, ts []rTriple) *Term {
	parserT := deref(pt)
	ps := parserT.Underlying().(*types.Struct)
	v := in.zero(parserT)
	fi := -1
	for i := 0; i < ps.NumFields(); i++ {
		if ps.Field(i).Name() == "Triples" {
			fi = i
		}
	}
	if fi < 0 {
		return nil
	}
	sliceT := ps.Field(fi).Type()
	tripleT := deref(elemType(sliceT))
	nodeT := deref(fieldType(tripleT, 0))
	node := func(n string) *Term {
		kind := map[byte]string{'I': "IRI", 'R': "RESOURCE", 'B': "BNODE", 'N': "NodeIDLiteral", 'L': "LITERAL"}[n[0]]
		text := n[1:]
		if n[0] == 'I' || n[0] == 'R' {
			text = rdfURI(text)
		}
		o := in.inputObj("node|"+n, "node "+kind+" "+n[1:], nodeT, nil)
		if o.Init == nil {
			o.Init = in.ts.Struct(nodeT, []*Term{in.ts.Str(kind), in.tmplTerm(text)})
		}
		return in.ts.Addr(o.ID)
	}
	var es []*Term
	for i, t := range ts {
		o := in.inputObj(fmt.Sprintf("triple|%d", i), fmt.Sprintf("triple %d", i), tripleT, in.ts.Struct(tripleT, []*Term{node(t.s), node("I" + t.p), node(t.o)}))
		es = append(es, in.ts.Addr(o.ID))
	}
	at := types.NewArray(elemType(sliceT), int64(len(es)))
	ao := in.inputObj("triples", "triples", at, in.ts.Struct(at, es))
	fs := append([]*Term(nil), v.Args...)
	fs[fi] = in.ts.Slice(ao.ID, 0, len(es), sliceT)
	po := in.inputObj("gordf parser", "gordf parser", parserT, in.ts.Struct(parserT, fs))
	return in.ts.Addr(po.ID)
}

// rdfInterp is an interpreter for RDF readers: literals {x} are generic words,
// {x!..} are strings that are no URI.
func rdfInterp(R *Report) *Interp {
	in := NewInterp(R.P)
	in.attr = func(t *Term) Attr {
		if t.K == KLabel {
			return Attr{NonEmpty: true, Generic: true, Distinct: true, Trimmed: true, Word: true}
		}
		return Attr{}
	}
	in.sorting = true
	in.recLimit, in.recStop = 12, true
	in.maxStep = 5_000_000
	in.noAlias = true
	in.rankText, in.rank = true, map[string]int{}
	in.maxParts = 100000
	in.interpret = func(fn *ssa.Function) bool {
		pk := fnPkg(fn)
		if pk == nil || !strings.HasPrefix(pk.Path(), "github.com/spdx/gordf/rdf") {
			return false
		}
		return true
	}
	const w = "github.com/spdx/gordf/"
	in.intrinsics["(*"+w+"rdfloader/parser.Triple).Hash"] = func(c *callCtx) []Outcome {
		// gordf keeps triples with equal hashes once
		if a := c.args[0]; a.K == KAddr {
			return one(c, c.in.ts.Str("hash of "+c.in.objs[a.Obj].Name))
		}
		return nil
	}
	in.intrinsics[w+"uri.NewURIRef"] = func(c *callCtx) []Outcome {
		in := c.in
		bad := false
		for _, p := range pieces(c.args[0]) {
			bad = bad || p.K == KLabel && strings.HasSuffix(p.Op, "!")
			bad = bad || p.isStr() && strings.Contains(p.str(), " ")
		}
		rt := c.sig.Results().At(0).Type()
		if bad {
			return one(c, in.zero(rt), in.mkErr("uri"))
		}
		return one(c, in.op("uriref", rt, c.args[0]), in.ts.Nil())
	}
	in.intrinsics[w+"rdfwriter.GetRootNodes"] = func(c *callCtx) []Outcome {
		in := c.in
		es, ok := in.elems(c.st, c.args[0])
		if !ok {
			return nil
		}
		id := func(n *Term) string { return in.objs[n.Obj].Name } // its kind and text
		part := func(t *Term, i int) *Term {
			v := in.content(c.st, t.Obj)
			return v.Args[i]
		}
		isObj := map[string]bool{}
		var roots []*Term
		for _, t := range es {
			if t.K != KAddr {
				return nil
			}
			isObj[id(part(t, 2))] = true
		}
		seen := map[int]bool{}
		for _, t := range es {
			s := part(t, 0)
			if !seen[s.Obj] && !isObj[id(s)] {
				roots = append(roots, s)
			}
			seen[s.Obj] = true
		}
		if in.mapRev {
			for i, j := 0, len(roots)-1; i < j; i, j = i+1, j-1 {
				roots[i], roots[j] = roots[j], roots[i]
			}
		}
		return one(c, in.newSlice(c.st, c.instr.(ssa.Instruction), "roots", c.sig.Results().At(0).Type(), roots))
	}
	return in
}

// rProp is one statement about an element. Its object is text (o) or another
// element (el). What the model holds because of it: fields, each "path=value",
// relative to the field path of the element, absolute if they start with
// "doc."; a path that ends in [] is a list and gets one more entry. at is the
// path of a new entry the fields belong to.
type rProp struct {
	p   string
	o   string
	el  *rEl
	at  string
	set []string
}

type rEl struct {
	node, typ string
	path      string // of the element in the model; [] at the end: a new entry
	set       []string
	props     []rProp
}

type rWant struct {
	m map[string]string
	n map[string]int
}

func (w *rWant) place(path string) string {
	if !strings.HasSuffix(path, "[]") {
		return path
	}
	i := w.n[path]
	w.n[path]++
	return strings.TrimSuffix(path, "[]") + fmt.Sprintf("[%d]", i)
}

func (w *rWant) put(base, f string) {
	i := strings.IndexByte(f, '=')
	path, val := f[:i], f[i+1:]
	if !strings.HasPrefix(path, "doc.") {
		path = base + "." + path
	}
	path = w.place(path)
	if val == "" || val == "0" || val == "false" {
		delete(w.m, path)
		return
	}
	w.m[path] = val
}

func (w *rWant) has(prefix string) bool {
	for k := range w.m {
		if strings.HasPrefix(k, prefix) {
			return true
		}
	}
	return false
}

// expect gives the leaves the model must hold for an element.
func (w *rWant) expect(e *rEl, base string) {
	path := e.path
	if path != "" && !strings.HasPrefix(path, "doc") {
		path = base + "." + path
	}
	if path == "" {
		path = base
	}
	path = w.place(path)
	n := len(w.m)
	for _, f := range e.set {
		w.put(path, f)
	}
	for _, p := range e.props {
		base := path
		if p.at != "" {
			base = w.place(path + "." + p.at)
		}
		for _, f := range p.set {
			w.put(base, f)
		}
		if p.el != nil {
			w.expect(p.el, path)
		}
	}
	if len(w.m) == n && e.path != "" && !w.has(path+".") {
		w.m[path] = "{allocated}"
	}
}

// triples gives the statements of an element and those it holds.
func (e *rEl) triples(out []rTriple) []rTriple {
	if e.typ != "" {
		out = append(out, rTriple{e.node, "rdf:type", "I" + e.typ})
	}
	for _, p := range e.props {
		o := p.o
		if p.el != nil {
			o = p.el.node
		}
		out = append(out, rTriple{e.node, p.p, o})
	}
	for _, p := range e.props {
		if p.el != nil {
			out = p.el.triples(out)
		}
	}
	return out
}

// rdfRun reads a graph with the reader of a version.
func rdfRun(R *Report, ver, key string, ts []rTriple, prep func(in *Interp)) *fnRun {
	fn := R.P.Func(verRel(ver)+"/rdf/reader", "LoadFromGoRDFParser")
	in := rdfInterp(R)
	if prep != nil {
		prep(in)
	}
	p := in.rdfParser(fn.Signature.Params().At(0).Type(), ts)
	if p == nil {
		R.fail("anchor: triples", R.P.Pos(fn.Pos()), "the RDF parser has no list of triples")
		return nil
	}
	in.checkNil = true
	r := R.callCase(key, in, fn, p)
	for f := range in.recursed {
		R.fail(key, R.P.Pos(fn.Pos()), f+" calls itself without end")
		return nil
	}
	if r == nil {
		return nil
	}
	for _, a := range sortedAlarms(in) {
		if a.Kind == "index" && inBounds(a.Fn, a.Pos) {
			continue
		}
		R.fail(key, R.P.Pos(a.Pos), "it can panic ("+a.Kind+"): "+a.Msg)
		return nil
	}
	return r
}

func rdfLeaves(r *fnRun, o Outcome, ver string) map[string]string {
	docT := r.R.P.Type(verRel(ver), "Document")
	leaves := r.in.leafMap(o.st, o.res[0], types.NewPointer(docT), "doc")
	zero := map[string]bool{}
	for k, v := range leaves {
		zero[k] = v != nil && v.K == KStruct
	}
	m := leafTexts(leaves)
	for k, v := range m {
		if strings.HasSuffix(k, ".&") {
			delete(m, k)
			m[strings.TrimSuffix(k, ".&")] = "{allocated}"
			continue
		}
		m[k] = unURI(v)
		if zero[k] {
			m[k] = "{allocated}"
		}
	}
	return m
}

// canonList renumbers the entries of the document's lists in an order that
// depends on their contents only.
func canonList(m map[string]string, lists ...string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	for _, l := range lists {
		groups := map[string]map[string]string{}
		for k, v := range out {
			if !strings.HasPrefix(k, l+"[") {
				continue
			}
			i := strings.IndexByte(k[len(l):], ']') + len(l)
			idx := k[len(l)+1 : i]
			if groups[idx] == nil {
				groups[idx] = map[string]string{}
			}
			groups[idx][k[i+1:]] = v
			delete(out, k)
		}
		var texts []string
		by := map[string]map[string]string{}
		for _, g := range groups {
			var ls []string
			for k, v := range g {
				ls = append(ls, k+"="+v)
			}
			sort.Strings(ls)
			t := strings.Join(ls, ";")
			texts = append(texts, t)
			by[t] = g
		}
		sort.Strings(texts)
		for i, t := range texts {
			for k, v := range by[t] {
				out[fmt.Sprintf("%s[%d]%s", l, i, k)] = v
			}
		}
	}
	return out
}

var rdfLists = []string{"doc.Packages", "doc.Files", "doc.Relationships", "doc.Annotations", "doc.Reviews", "doc.OtherLicenses", "doc.ExternalDocumentReferences"}
