package main

import (
	"fmt"
	"sort"
	"strings"
)

// sym is an abstract integer. Symbol 0 is the constant zero.
type sym int32

// lin is an affine form over symbols: c + sum k*s. It is immutable.
type lin struct {
	c int64
	t []term
}
type term struct {
	s sym
	k int64
}

func con(c int64) lin  { return lin{c: c} }
func symLin(s sym) lin { return lin{t: []term{{s, 1}}} }

func (a lin) isConst() bool { return len(a.t) == 0 }
func (a lin) add(b lin) lin {
	out := lin{c: a.c + b.c}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			out.t = append(out.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			out.t = append(out.t, b.t[j])
			j++
		default:
			if k := a.t[i].k + b.t[j].k; k != 0 {
				out.t = append(out.t, term{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return out
}
func (a lin) mul(k int64) lin {
	if k == 0 {
		return lin{}
	}
	out := lin{c: a.c * k}
	for _, t := range a.t {
		out.t = append(out.t, term{t.s, t.k * k})
	}
	return out
}
func (a lin) sub(b lin) lin    { return a.add(b.mul(-1)) }
func (a lin) plus(c int64) lin { return lin{a.c + c, a.t} }
func (a lin) eq(b lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// base reports a = s + c.
func (a lin) base() (sym, bool) {
	if len(a.t) == 1 && a.t[0].k == 1 {
		return a.t[0].s, true
	}
	return 0, len(a.t) == 0
}
func (a lin) rename(m map[sym]sym) lin {
	ch := false
	for _, t := range a.t {
		if n, ok := m[t.s]; ok && n != t.s {
			ch = true
		}
	}
	if !ch {
		return a
	}
	out := lin{c: a.c}
	for _, t := range a.t {
		s := t.s
		if n, ok := m[s]; ok {
			s = n
		}
		out.t = append(out.t, term{s, t.k})
	}
	sort.Slice(out.t, func(i, j int) bool { return out.t[i].s < out.t[j].s })
	return out
}
func (a lin) String() string {
	if len(a.t) == 0 {
		return fmt.Sprint(a.c)
	}
	var b strings.Builder
	for i, t := range a.t {
		if t.k == 1 {
			if i > 0 {
				b.WriteByte('+')
			}
		} else if t.k == -1 {
			b.WriteByte('-')
		} else {
			fmt.Fprintf(&b, "%+d*", t.k)
		}
		fmt.Fprintf(&b, "s%d", t.s)
	}
	if a.c != 0 {
		fmt.Fprintf(&b, "%+d", a.c)
	}
	return b.String()
}

// zone is a closed difference-bound matrix over a few symbols.
// m[i][j] is an upper bound of v[i]-v[j]; symbol 0 has index 0.
type zone struct {
	idx  map[sym]int
	syms []sym
	m    [][]int64
}

const inf = int64(1) << 60

func newZone() *zone { return &zone{idx: map[sym]int{0: 0}, syms: []sym{0}, m: [][]int64{{0}}} }
func (z *zone) clone() *zone {
	n := &zone{idx: make(map[sym]int, len(z.idx)), syms: append([]sym(nil), z.syms...), m: make([][]int64, len(z.m))}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	w := len(z.syms)
	buf := make([]int64, w*w)
	for i := range z.m {
		row := buf[i*w : (i+1)*w : (i+1)*w]
		copy(row, z.m[i])
		n.m[i] = row
	}
	return n
}
func (z *zone) has(s sym) bool { _, ok := z.idx[s]; return ok }
func (z *zone) at(s sym) int {
	if i, ok := z.idx[s]; ok {
		return i
	}
	i := len(z.syms)
	z.idx[s] = i
	z.syms = append(z.syms, s)
	for j := range z.m {
		z.m[j] = append(z.m[j], inf)
	}
	row := make([]int64, i+1)
	for j := range row {
		row[j] = inf
	}
	row[i] = 0
	z.m = append(z.m, row)
	return i
}

// bound returns the least known upper bound of a-b.
func (z *zone) bound(a, b sym) int64 {
	if a == b {
		return 0
	}
	i, ok := z.idx[a]
	if !ok {
		return inf
	}
	j, ok := z.idx[b]
	if !ok {
		return inf
	}
	return z.m[i][j]
}

// add asserts a-b <= c; false if that is contradictory.
func (z *zone) add(a, b sym, c int64) bool {
	if a == b {
		return c >= 0
	}
	i, j := z.at(a), z.at(b)
	if z.m[i][j] <= c {
		return true
	}
	if z.m[j][i] != inf && z.m[j][i]+c < 0 {
		return false
	}
	n := len(z.syms)
	for u := 0; u < n; u++ {
		ui := z.m[u][i]
		if ui == inf {
			continue
		}
		for v := 0; v < n; v++ {
			jv := z.m[j][v]
			if jv == inf {
				continue
			}
			if d := ui + c + jv; d < z.m[u][v] {
				z.m[u][v] = d
			}
		}
	}
	return true
}

// keep projects onto the symbols for which f is true.
func (z *zone) keep(f func(sym) bool) *zone {
	n := newZone()
	var from []int
	from = append(from, 0)
	for i, s := range z.syms {
		if i > 0 && f(s) {
			n.at(s)
			from = append(from, i)
		}
	}
	for i := range from {
		for j := range from {
			n.m[i][j] = z.m[from[i]][from[j]]
		}
	}
	return n
}
func (z *zone) rename(m map[sym]sym) *zone {
	n := z.clone()
	n.idx = map[sym]int{}
	for i, s := range n.syms {
		if r, ok := m[s]; ok {
			n.syms[i] = r
		}
		if _, dup := n.idx[n.syms[i]]; dup {
			panic("zone rename: duplicate symbol")
		}
		n.idx[n.syms[i]] = i
	}
	return n
}
func (z *zone) String() string {
	var b strings.Builder
	for i := range z.syms {
		for j := range z.syms {
			if i != j && z.m[i][j] != inf {
				fmt.Fprintf(&b, "s%d-s%d<=%d ", z.syms[i], z.syms[j], z.m[i][j])
			}
		}
	}
	return b.String()
}
