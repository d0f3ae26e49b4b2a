package main

import (
	"fmt"
	"math"
	"strings"
)

// rset is a set of int64 as sorted disjoint closed ranges.
type rset []rng
type rng struct{ lo, hi int64 }

const (
	minInt = math.MinInt64
	maxInt = math.MaxInt64
)

var (
	rAll   = rset{{minInt, maxInt}}
	rRunes = rset{{0, 0xD7FF}, {0xE000, 0x10FFFF}}
	rByte  = rset{{0, 255}}
)

// badByte stands, in sets of characters, for a byte that is not part of a
// valid encoding.
const badByte = -1

func rOne(v int64) rset      { return rset{{v, v}} }
func rRange(a, b int64) rset { return rset{{a, b}} }
func rOf(vs ...int64) rset {
	var r rset
	for _, v := range vs {
		r = r.union(rOne(v))
	}
	return r
}

func (a rset) empty() bool { return len(a) == 0 }
func (a rset) has(v int64) bool {
	for _, x := range a {
		if v >= x.lo && v <= x.hi {
			return true
		}
	}
	return false
}
func (a rset) intersect(b rset) rset {
	var out rset
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := a[i].lo, a[i].hi
		if b[j].lo > lo {
			lo = b[j].lo
		}
		if b[j].hi < hi {
			hi = b[j].hi
		}
		if lo <= hi {
			out = append(out, rng{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}
func (a rset) union(b rset) rset {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	all := make(rset, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		var n rng
		if j >= len(b) || i < len(a) && a[i].lo <= b[j].lo {
			n = a[i]
			i++
		} else {
			n = b[j]
			j++
		}
		if k := len(all) - 1; k >= 0 && (all[k].hi == maxInt || n.lo <= all[k].hi+1) {
			if n.hi > all[k].hi {
				all[k].hi = n.hi
			}
		} else {
			all = append(all, n)
		}
	}
	return all
}
func (a rset) complement() rset {
	var out rset
	for i := range a {
		if a[i].lo > a[i].hi || i > 0 && a[i].lo <= a[i-1].hi {
			panic("a set of numbers is not in order")
		}
	}
	next := int64(minInt)
	for _, x := range a {
		if x.lo > next {
			out = append(out, rng{next, x.lo - 1})
		}
		if x.hi == maxInt {
			return out
		}
		next = x.hi + 1
	}
	return append(out, rng{next, maxInt})
}
func (a rset) minus(b rset) rset    { return a.intersect(b.complement()) }
func (a rset) subset(b rset) bool   { return a.minus(b).empty() }
func (a rset) disjoint(b rset) bool { return a.intersect(b).empty() }
func (a rset) eq(b rset) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (a rset) single() (int64, bool) {
	if len(a) == 1 && a[0].lo == a[0].hi {
		return a[0].lo, true
	}
	return 0, false
}
func (a rset) shift(d int64) rset {
	out := make(rset, 0, len(a))
	for _, x := range a {
		lo, hi := satAdd(x.lo, d), satAdd(x.hi, d)
		out = append(out, rng{lo, hi})
	}
	return out
}
func (a rset) count() int64 {
	var n int64
	for _, x := range a {
		d := x.hi - x.lo + 1
		if d <= 0 || n+d < n {
			return maxInt
		}
		n += d
	}
	return n
}
func satAdd(a, d int64) int64 {
	if a == minInt || a == maxInt {
		return a
	}
	s := a + d
	if d > 0 && s < a {
		return maxInt
	}
	if d < 0 && s > a {
		return minInt
	}
	return s
}
func (a rset) String() string {
	var b strings.Builder
	b.WriteByte('{')
	for i, x := range a {
		if i > 12 {
			fmt.Fprintf(&b, " ...(%d ranges)", len(a))
			break
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		w := func(v int64) {
			switch {
			case v == minInt:
				b.WriteString("min")
			case v == maxInt:
				b.WriteString("max")
			case v == badByte:
				b.WriteString("bad")
			case v > 0x20 && v < 0x7f:
				fmt.Fprintf(&b, "%q", rune(v))
			default:
				fmt.Fprintf(&b, "%#x", v)
			}
		}
		w(x.lo)
		if x.hi != x.lo {
			b.WriteString("-")
			w(x.hi)
		}
	}
	b.WriteByte('}')
	return b.String()
}
