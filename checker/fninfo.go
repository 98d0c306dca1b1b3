package main

import (
	"golang.org/x/tools/go/ssa"
)

// fnInfo: loop nesting, a schedule that visits loop bodies before loop exits,
// and liveness of SSA registers at block entries.
type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	depth  int
}

type fnInfo struct {
	fn      *ssa.Function
	loopOf  map[*ssa.BasicBlock]*loopInfo // innermost loop
	headers map[*ssa.BasicBlock]*loopInfo
	pos     map[*ssa.BasicBlock]int // schedule position among all blocks
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
	liveL   map[*ssa.BasicBlock][]ssa.Value
}

func analyseFn(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, loopOf: map[*ssa.BasicBlock]*loopInfo{}, headers: map[*ssa.BasicBlock]*loopInfo{}, pos: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, liveL: map[*ssa.BasicBlock][]ssa.Value{}}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := fi.headers[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.headers[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// nesting: the parent is the smallest other loop containing the header
	for _, l := range fi.headers {
		for _, m := range fi.headers {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	for _, l := range fi.headers {
		for p := l.parent; p != nil; p = p.parent {
			l.depth++
		}
	}
	for _, b := range fn.Blocks {
		for _, l := range fi.headers {
			if l.blocks[b] && (fi.loopOf[b] == nil || len(l.blocks) < len(fi.loopOf[b].blocks)) {
				fi.loopOf[b] = l
			}
		}
	}
	// schedule: reverse postorder where, at a loop header, exits are visited
	// (i.e. finished) before the body, so the body precedes the exits.
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		l := fi.loopOf[b]
		// visit successors leaving deeper loops first
		var out, in []*ssa.BasicBlock
		for _, s := range b.Succs {
			if l != nil && !l.blocks[s] {
				out = append(out, s)
			} else {
				in = append(in, s)
			}
		}
		for _, s := range out {
			dfs(s)
		}
		for _, s := range in {
			dfs(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil {
			dfs(fn.Recover)
		}
	}
	for i := range post {
		fi.pos[post[len(post)-1-i]] = i
	}
	fi.fixOrder()
	fi.liveness()
	return fi
}

// fixOrder makes every loop contiguous and topologically orders the items of
// each nesting level (inner loops collapsed).
func (fi *fnInfo) fixOrder() {
	var order []*ssa.BasicBlock
	var level func(l *loopInfo, entry *ssa.BasicBlock)
	level = func(l *loopInfo, entry *ssa.BasicBlock) {
		inside := func(b *ssa.BasicBlock) bool { return l == nil || l.blocks[b] }
		item := func(b *ssa.BasicBlock) *ssa.BasicBlock { // representative at this level
			m := fi.loopOf[b]
			if m == l {
				return b
			}
			for m != nil && m.parent != l {
				m = m.parent
			}
			if m == nil {
				return b
			}
			return m.header
		}
		succs := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
		for _, b := range fi.fn.Blocks {
			if !inside(b) {
				continue
			}
			r := item(b)
			for _, s := range b.Succs {
				if inside(s) && !(l != nil && s == l.header) {
					q := item(s)
					if q != r {
						succs[r] = append(succs[r], q)
					}
				}
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, s := range succs[b] {
				dfs(s)
			}
			post = append(post, b)
		}
		dfs(item(entry))
		if l == nil && fi.fn.Recover != nil {
			dfs(item(fi.fn.Recover))
		}
		for i := len(post) - 1; i >= 0; i-- {
			b := post[i]
			if m := fi.headers[b]; m != nil && m != l {
				level(m, b)
			} else {
				order = append(order, b)
			}
		}
	}
	if len(fi.fn.Blocks) == 0 {
		return
	}
	level(nil, fi.fn.Blocks[0])
	for i, b := range order {
		fi.pos[b] = i
	}
}

func (fi *fnInfo) liveness() {
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for _, b := range fi.fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				if _, dbg := ins.(*ssa.DebugRef); dbg {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.fn.Blocks) - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			lv := fi.live[b]
			add := func(v ssa.Value) {
				if !lv[v] {
					lv[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					if !def[b][v] {
						isPhi := false
						if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
							isPhi = true
						}
						if !isPhi {
							add(v)
						}
					}
				}
				// phi operands along this edge
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b && isReg(p.Edges[k]) && !def[b][p.Edges[k]] {
							add(p.Edges[k])
						}
					}
				}
			}
			// phis of b are live-in (values assigned on the edge)
			for _, ins := range b.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				add(p)
			}
		}
	}
	for b, m := range fi.live {
		var l []ssa.Value
		for v := range m {
			l = append(l, v)
		}
		// deterministic order
		sortValues(l)
		fi.liveL[b] = l
	}
}
