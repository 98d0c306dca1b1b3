package main

import "iter"

// pmap is a persistent map from small integers to terms: copying the header
// copies the map.
type pmap struct {
	root *pnode
	h    uint // height: the root covers keys below 1<<(4*(h+1))
	n    int
}

type pnode struct {
	kids [16]*pnode
	vals *[16]*Term
}

func (m *pmap) get2(k int) (*Term, bool) {
	v := m.get(k)
	return v, v != nil
}

func (m *pmap) get(k int) *Term {
	if m.root == nil || k>>(4*(m.h+1)) != 0 {
		return nil
	}
	n := m.root
	for l := m.h; l > 0; l-- {
		n = n.kids[(k>>(4*l))&15]
		if n == nil {
			return nil
		}
	}
	return n.vals[k&15]
}

func (m *pmap) set(k int, v *Term) {
	if v == nil {
		panic("pmap: nil value")
	}
	if m.root == nil {
		m.root = &pnode{vals: new([16]*Term)}
	}
	for k>>(4*(m.h+1)) != 0 {
		r := &pnode{}
		r.kids[0] = m.root
		m.root = r
		m.h++
	}
	if m.get(k) == v {
		return
	}
	if m.get(k) == nil {
		m.n++
	}
	m.root = m.root.put(m.h, k, v)
}

func (n *pnode) put(l uint, k int, v *Term) *pnode {
	if l == 0 {
		c := &pnode{vals: new([16]*Term)}
		if n != nil {
			*c.vals = *n.vals
		}
		c.vals[k&15] = v
		return c
	}
	c := &pnode{}
	if n != nil {
		c.kids = n.kids
	}
	i := (k >> (4 * l)) & 15
	c.kids[i] = c.kids[i].put(l-1, k, v)
	return c
}

func (m *pmap) all() iter.Seq2[int, *Term] {
	return func(yield func(int, *Term) bool) {
		if m.root != nil {
			m.root.walk(m.h, 0, yield)
		}
	}
}

func (n *pnode) walk(l uint, base int, yield func(int, *Term) bool) bool {
	if l == 0 {
		for i, v := range n.vals {
			if v != nil && !yield(base+i, v) {
				return false
			}
		}
		return true
	}
	for i, c := range n.kids {
		if c != nil && !c.walk(l-1, base+i<<(4*l), yield) {
			return false
		}
	}
	return true
}

// same reports whether two maps hold the same; shared parts are not walked.
func (m *pmap) same(o *pmap) bool {
	if m.n != o.n {
		return false
	}
	if m.n == 0 {
		return true
	}
	if m.h == o.h {
		return sameNode(m.root, o.root, m.h)
	}
	for k, v := range m.all() {
		if o.get(k) != v {
			return false
		}
	}
	return true
}

func sameNode(a, b *pnode, l uint) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if l == 0 {
		return *a.vals == *b.vals
	}
	for i := range a.kids {
		if !sameNode(a.kids[i], b.kids[i], l-1) {
			return false
		}
	}
	return true
}
