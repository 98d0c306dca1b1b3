package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C06", "Tag-value lines are split into tags and values as the format says", checkC06)
}

// tokLine is a form of line; {a} stands for any tag, {b} for any word, {v} for
// any trimmed text of one line without text marks, {w~} for any text of one
// line without text marks, white space at its ends included.
type tokLine struct {
	text    string
	midOnly bool
}

var tokLines = []tokLine{
	{text: ""}, {text: " \t "}, {text: "#{v}"}, {text: "  # {a}: {v}"},
	{text: "{a}: {v}"}, {text: "{a}:{v}"}, {text: "\t{a}  :   {v} \t"}, {text: "{a}:"}, {text: "{a}: {b}: {c}"}, {text: ":{v}"},
	{text: "{b}"}, {text: "  {b} {c}"},
	{text: "{a}: <text>{v}</text>"}, {text: "{a}:<text>  {v} </text>"}, {text: "{a}: <text></text>"}, {text: "{a}: <text># {v}</text>"},
	{text: "{a}: <text>{v}"}, {text: "{a}: <text> {w~}"}, {text: "{a}: <text>"},
	{text: "</text>"}, {text: "{b}</text>"},
	{text: "{w~}", midOnly: true}, {text: "{w~}</text>", midOnly: true}, {text: "{w~}<text>{v}", midOnly: true}, {text: "{w~}<text>{v}</text>", midOnly: true},
}

// refTokens is what the format says of a text: its tags and values, or that it
// is refused.
func refTokens(lines []string) (pairs [][2]string, mid bool, ok bool) {
	tag, val := "", ""
	for _, l := range lines {
		if mid {
			if i := strings.Index(l, "</text>"); i >= 0 {
				pairs = append(pairs, [2]string{tag, val + l[:i]})
				mid = false
			} else {
				val += l + "\n"
			}
			continue
		}
		t := strings.TrimSpace(l)
		if t == "" || t[0] == '#' {
			continue
		}
		i := strings.IndexByte(t, ':')
		if i < 0 {
			return nil, mid, false
		}
		tag, val = strings.TrimSpace(t[:i]), l[strings.IndexByte(l, ':')+1:]
		i = strings.Index(val, "<text>")
		if i < 0 {
			pairs = append(pairs, [2]string{tag, strings.TrimSpace(val)})
			continue
		}
		val = val[i+6:]
		if i = strings.Index(val, "</text>"); i >= 0 {
			pairs = append(pairs, [2]string{tag, val[:i]})
			continue
		}
		val += "\n"
		mid = true
	}
	return pairs, mid, true
}

func checkC06(R *Report) {
	R.rule("tokens", "A sequence of lines gives the tag and value pairs the format says: blank and comment lines skipped, tag and value parted at the first colon and trimmed, the value between text marks kept as it is with its line breaks over as many lines as it takes; a line without a colon outside of a text and a text that is never closed are refused. This holds for lines of any length and texts of any number of lines.")
	R.assumption("bufio.Scanner hands over the lines of the text that its buffer may hold; a line has at most one pair of text marks, with nothing before and after them in the value")
	const rel = "tagvalue/reader"
	fn := R.P.Func(rel, "ReadTagValues")
	if !R.need(fn != nil, rel+".ReadTagValues") {
		return
	}
	R.minObs = 1000
	max := 3
	if R.thorough() {
		max = 4
	}
	var jobs []func()
	var gen func(forms []tokLine)
	run := func(forms []tokLine, long int) {
		spec := map[string]string{}
		var lines []string
		for i, f := range forms {
			l := f.text
			for _, n := range []string{"a", "b", "c", "v", "w~"} {
				name := fmt.Sprintf("%s%d", n, i)
				if strings.Contains(l, "{"+n+"}") {
					l = strings.ReplaceAll(l, "{"+n+"}", "{"+name+"}")
					spec[name] = map[string]string{"v": "line"}[n]
					if spec[name] == "" {
						spec[name] = "rawline"
					}
				}
			}
			lines = append(lines, l)
		}
		pairs, mid, good := refTokens(lines)
		good = good && !mid
		key := fmt.Sprintf("%q", strings.Join(lines, "\n"))
		if long > 0 {
			key += fmt.Sprintf(" with a line %d longer than any bound", long)
		}
		where := rel + ".ReadTagValues"
		in := NewInterp(R.P)
		(&scenario{leaf: spec, def: "gen"}).install(in)
		in.lines, in.longLine = []*Term{}, long
		for _, l := range lines {
			in.lines = append(in.lines, in.tmplTerm(l))
		}
		outs := in.entryCall(fn, in.Label("r", fn.Signature.Params().At(0).Type()))
		R.absorb(in)
		if t := in.trouble(); t != "" || len(outs) == 0 {
			R.fail(key, where, "undecided: "+t)
			return
		}
		for _, o := range outs {
			ec := errClass(in, o.st, o.res[1])
			if !good {
				if ec != 'e' {
					R.fail(key, where, "the text is accepted, or it is undecided whether it is")
					return
				}
				continue
			}
			if ec != 'n' {
				R.fail(key, where, "the text is refused, or it is undecided whether it is")
				return
			}
			want := map[string]string{}
			for i, p := range pairs {
				for j, f := range []string{"Tag", "Value"} {
					if p[j] != "" {
						want[fmt.Sprintf("line[%d].%s", i, f)] = p[j]
					} else if j == 1 && p[0] == "" {
						want[fmt.Sprintf("line[%d]", i)] = ""
					}
				}
			}
			got := leafTexts(in.leafMap(o.st, o.res[0], fn.Signature.Results().At(0).Type(), "line"))
			if d := mapDiff(want, got); d != "" {
				R.fail(key, where, d)
				return
			}
		}
		R.ob(key, true, where, "")
	}
	gen = func(forms []tokLine) {
		var lines []string
		for _, f := range forms {
			lines = append(lines, f.text)
		}
		_, mid, good := refTokens(lines)
		if len(forms) > 0 {
			fs := append([]tokLine(nil), forms...)
			jobs = append(jobs, func() { run(fs, 0) })
			for i, f := range fs {
				if len(fs) < 3 && strings.Contains(f.text, "{") {
					jobs = append(jobs, func() { run(fs, i+1) })
				}
			}
		}
		if !good || len(forms) == max {
			return
		}
		for _, f := range tokLines {
			if f.midOnly && !mid {
				continue
			}
			gen(append(forms, f))
		}
	}
	gen(nil)
	// values over many lines, many pairs, much that is skipped
	for _, l := range [][3]string{
		{"{a}: <text>{v}", "{w~}", "{w~}</text>"}, {"{a}: <text>", "{w~}", "</text>"}, {"{a}: <text>{v}", "", "{w~}</text>"},
		{"{a}: {v}", "{a}: {v}", "{a}:"}, {"{a}: {v}", "# {v}", "{a}: {v}"}, {"", "", "{a}: {v}"},
		{"{a}: {v}", "{a}: <text>{v}</text>", "{a}: {v}"}, {"{a}: {v}", "{a}: {v}", "{b}"},
	} {
		jobs = append(jobs, func() {
			forms := []tokLine{{text: l[0]}}
			for range longer(5) {
				forms = append(forms, tokLine{text: l[1]})
			}
			run(append(forms, tokLine{text: l[2]}), 0)
		})
	}
	par(jobs)
}
