package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// charFact: the classes of the characters of a string, established by a scan.
// ok: every character is in the sets; !ok: some character is in the sets.
type charFact struct {
	ok          bool
	first, rest rset
	weak        bool // says little: a character that was looked at and accepted
}

// seg is a run of characters of a string that a loop has looked at.
type seg struct {
	from, to lin
	set      rset
	r        sym  // the single character decoded here, or 0
	bytes    bool // looked at as bytes
	single   bool // a single character
	head     bool // summarised first character of the string
}

// layer is a contiguous run of segs.
type layer struct {
	segs []seg
}

// emitter tracks a string being written out piecemeal.
type emitter struct {
	a         *atom
	upto      lin
	out       []trans
	on        bool    // something was written
	pre, post []*strV // other output before and after
	bad       string
	alt       *emAlt
}
type trans struct {
	set  rset
	verb bool
	lit  string
}

type state struct {
	z      *zone
	zs     bool // shared
	sets   map[sym]rset
	heap   map[objID]value
	bools  map[int]bool // symCond, nilCond
	dyn    map[int]types.Type
	ndyn   map[int][]types.Type
	sfacts map[string]bool     // strEq, strHas by key
	sargs  map[string][2]*strV // the strings of a fact
	chars  map[string][]charFact
	cargs  map[string]*strV
	layers map[*atom][]layer
	width  map[sym]seg    // decoded character -> extent
	idxOf  map[sym]strHas // result of strings.Index
	em     *emitter
	trace  []event
	// errors and writes
	pend                                            bool     // writes whose success nobody has observed
	lastW                                           int      // id of the last write
	okW                                             int      // writes up to this one are known to have succeeded
	failed                                          bool     // the sink has failed on this path
	errs                                            []errV   // validation errors created
	xerr                                            []string // errors from unknown callees known to be non-nil
	loops                                           []int
	g                                               *ghost
	havoc                                           bool
	cowHeap, cowSets, cowBools, cowFacts, cowLayers bool
}

func newState() *state {
	return &state{z: newZone(), sets: map[sym]rset{}, heap: map[objID]value{}, bools: map[int]bool{}, dyn: map[int]types.Type{}, ndyn: map[int][]types.Type{},
		sfacts: map[string]bool{}, sargs: map[string][2]*strV{}, chars: map[string][]charFact{}, cargs: map[string]*strV{}, layers: map[*atom][]layer{}, width: map[sym]seg{}, idxOf: map[sym]strHas{}}
}

func (s *state) clone() *state {
	n := *s
	n.zs, s.zs = true, true
	n.cowHeap, s.cowHeap = true, true
	n.cowSets, s.cowSets = true, true
	n.cowBools, s.cowBools = true, true
	n.cowFacts, s.cowFacts = true, true
	n.cowLayers, s.cowLayers = true, true
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.errs = s.errs[:len(s.errs):len(s.errs)]
	n.xerr = s.xerr[:len(s.xerr):len(s.xerr)]
	if s.em != nil {
		e := *s.em
		e.out = e.out[:len(e.out):len(e.out)]
		n.em = &e
	}
	if s.g != nil {
		n.g = s.g.clone()
	}
	return &n
}
func (s *state) wz() *zone {
	if s.zs {
		s.z = s.z.clone()
		s.zs = false
	}
	return s.z
}
func (s *state) wheap() map[objID]value {
	if s.cowHeap {
		m := make(map[objID]value, len(s.heap)+4)
		for k, v := range s.heap {
			m[k] = v
		}
		s.heap = m
		s.cowHeap = false
	}
	return s.heap
}
func (s *state) wsets() {
	if s.cowSets {
		m := make(map[sym]rset, len(s.sets)+2)
		for k, v := range s.sets {
			m[k] = v
		}
		s.sets = m
		w := make(map[sym]seg, len(s.width)+2)
		for k, v := range s.width {
			w[k] = v
		}
		s.width = w
		x := make(map[sym]strHas, len(s.idxOf)+2)
		for k, v := range s.idxOf {
			x[k] = v
		}
		s.idxOf = x
		s.cowSets = false
	}
}
func (s *state) wbools() {
	if s.cowBools {
		m := make(map[int]bool, len(s.bools)+2)
		for k, v := range s.bools {
			m[k] = v
		}
		s.bools = m
		d := make(map[int]types.Type, len(s.dyn)+1)
		for k, v := range s.dyn {
			d[k] = v
		}
		s.dyn = d
		nd := make(map[int][]types.Type, len(s.ndyn)+1)
		for k, v := range s.ndyn {
			nd[k] = v[:len(v):len(v)]
		}
		s.ndyn = nd
		s.cowBools = false
	}
}
func (s *state) wfacts() {
	if s.cowFacts {
		m := make(map[string]bool, len(s.sfacts)+2)
		for k, v := range s.sfacts {
			m[k] = v
		}
		s.sfacts = m
		a := make(map[string][2]*strV, len(s.sargs)+2)
		for k, v := range s.sargs {
			a[k] = v
		}
		s.sargs = a
		c := make(map[string][]charFact, len(s.chars)+2)
		for k, v := range s.chars {
			c[k] = v[:len(v):len(v)]
		}
		s.chars = c
		ca := make(map[string]*strV, len(s.cargs)+2)
		for k, v := range s.cargs {
			ca[k] = v
		}
		s.cargs = ca
		s.cowFacts = false
	}
}
func (s *state) wlayers() {
	if s.cowLayers {
		m := make(map[*atom][]layer, len(s.layers)+1)
		for k, v := range s.layers {
			nv := make([]layer, len(v))
			for i, l := range v {
				nv[i] = layer{append([]seg(nil), l.segs...)}
			}
			m[k] = nv
		}
		s.layers = m
		s.cowLayers = false
	}
}

// --- integers

func (e *engine) newSym(nonneg bool, set rset) sym {
	e.nsym++
	s := sym(e.nsym)
	e.symInfo = append(e.symInfo, symMeta{nonneg: nonneg, set: set})
	return s
}

type symMeta struct {
	nonneg bool
	set    rset // initial set; nil: unrestricted, use the zone
}

func (e *engine) setOf(s *state, x sym) rset {
	if r, ok := s.sets[x]; ok {
		return r
	}
	if x == 0 {
		return rOne(0)
	}
	return e.symInfo[x].set
}

// touch brings a symbol into the zone with what is known of it.
func (e *engine) touch(s *state, x sym) {
	if x == 0 || s.z.has(x) {
		return
	}
	z := s.wz()
	z.at(x)
	if e.symInfo[x].nonneg {
		z.add(0, x, 0)
	}
	if r := e.setOf(s, x); len(r) > 0 {
		if r[0].lo > -inf {
			z.add(0, x, -r[0].lo)
		}
		if h := r[len(r)-1].hi; h < inf {
			z.add(x, 0, h)
		}
	}
}

// upper returns an upper bound of a form, inf if unknown.
func (e *engine) upper(s *state, l lin) int64 {
	best := inf
	switch len(l.t) {
	case 0:
		return l.c
	case 1:
		t := l.t[0]
		e.touch(s, t.s)
		if t.k == 1 {
			best = s.z.bound(t.s, 0)
		} else if t.k == -1 {
			best = s.z.bound(0, t.s)
		} else if t.k > 1 {
			if b := s.z.bound(t.s, 0); b != inf {
				best = b * t.k
			}
		} else if b := s.z.bound(0, t.s); b != inf {
			best = b * -t.k
		}
		if r := e.setOf(s, t.s); len(r) > 0 {
			if t.k == 1 && r[len(r)-1].hi < best {
				best = r[len(r)-1].hi
			}
			if t.k == -1 && r[0].lo > -inf && -r[0].lo < best {
				best = -r[0].lo
			}
		}
		if best == inf {
			return inf
		}
		return best + l.c
	default:
		// pair positive and negative terms greedily, then bound the rest
		pos, neg := []sym{}, []sym{}
		for _, t := range l.t {
			e.touch(s, t.s)
			k := t.k
			for ; k > 0; k-- {
				pos = append(pos, t.s)
			}
			for ; k < 0; k++ {
				neg = append(neg, t.s)
			}
			if len(pos)+len(neg) > 8 {
				return inf
			}
		}
		b := e.pairBound(s, pos, neg)
		if b >= inf {
			return inf
		}
		return b + l.c
	}
}
func (e *engine) pairBound(s *state, pos, neg []sym) int64 {
	if len(pos) == 0 {
		var sum int64
		for _, n := range neg {
			b := s.z.bound(0, n)
			if b == inf {
				return inf
			}
			sum += b
		}
		return sum
	}
	p := pos[0]
	best := inf
	if b := s.z.bound(p, 0); b != inf {
		if r := e.pairBound(s, pos[1:], neg); r != inf && b+r < best {
			best = b + r
		}
	}
	for i, n := range neg {
		if b := s.z.bound(p, n); b != inf {
			rest := append(append([]sym(nil), neg[:i]...), neg[i+1:]...)
			if r := e.pairBound(s, pos[1:], rest); r != inf && b+r < best {
				best = b + r
			}
		}
	}
	return best
}

// range of a form as a set, if it is s+c.
func (e *engine) linSet(s *state, l lin) (sym, rset) {
	if l.isConst() {
		return 0, rOne(l.c)
	}
	if b, ok := l.base(); ok && b != 0 {
		if r := e.setOf(s, b); r != nil {
			return b, r.shift(l.c)
		}
	}
	return 0, nil
}

// decideLE reports whether l <= 0: 1 yes, 0 no, -1 unknown.
func (e *engine) decideLE(s *state, l lin) int {
	if l.isConst() {
		if l.c <= 0 {
			return 1
		}
		return 0
	}
	if e.upper(s, l) <= 0 {
		return 1
	}
	if e.upper(s, l.mul(-1)) < 0 {
		return 0
	}
	return -1
}
func (e *engine) decideEQ(s *state, l lin) int {
	if l.isConst() {
		if l.c == 0 {
			return 1
		}
		return 0
	}
	if b, r := e.linSet(s, l); b != 0 && r != nil && !r.has(0) {
		return 0
	}
	up, dn := e.upper(s, l), e.upper(s, l.mul(-1))
	if up < 0 || dn < 0 {
		return 0
	}
	if up == 0 && dn == 0 {
		return 1
	}
	return -1
}

// lineq reports whether two forms are certainly equal.
func (e *engine) lineq(s *state, a, b lin) bool {
	if a.eq(b) {
		return true
	}
	return e.decideEQ(s, a.sub(b)) == 1
}
func (e *engine) linle(s *state, a, b lin) bool { return e.decideLE(s, a.sub(b)) == 1 }

// assumeLE adds l <= 0; false if infeasible.
func (e *engine) assumeLE(s *state, l lin) bool {
	switch e.decideLE(s, l) {
	case 1:
		return true
	case 0:
		return false
	}
	switch len(l.t) {
	case 1:
		t := l.t[0]
		e.touch(s, t.s)
		var ok bool
		var bound rset
		if t.k > 0 {
			c := floorDiv(-l.c, t.k)
			ok = s.wz().add(t.s, 0, c)
			bound = rRange(minInt, c)
		} else {
			c := -floorDiv(-l.c, -t.k)
			ok = s.wz().add(0, t.s, -c)
			bound = rRange(c, maxInt)
		}
		if !ok {
			return false
		}
		if r := e.setOf(s, t.s); r != nil {
			return e.restrict(s, t.s, bound)
		}
		return e.afterIdx(s, t.s)
	case 2:
		a, b := l.t[0], l.t[1]
		if a.k == 1 && b.k == -1 || a.k == -1 && b.k == 1 {
			if a.k == -1 {
				a, b = b, a
			}
			e.touch(s, a.s)
			e.touch(s, b.s)
			return s.wz().add(a.s, b.s, -l.c)
		}
	}
	// a sum of non-negative symbols that is <= 0 etc.
	for _, t := range l.t {
		rest := l.sub(lin{t: []term{t}})
		up := e.upper(s, rest.mul(-1))
		if up < inf {
			// t.k*t.s <= -rest <= up
			if !e.assumeLE(s, lin{c: -up, t: []term{t}}) {
				return false
			}
		}
	}
	return true
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func (e *engine) assumeEQ(s *state, l lin) bool {
	if !e.assumeLE(s, l) || !e.assumeLE(s, l.mul(-1)) {
		return false
	}
	if b, ok := l.base(); ok && b != 0 {
		if e.setOf(s, b) != nil {
			return e.restrict(s, b, rOne(-l.c))
		}
	}
	return true
}
func (e *engine) assumeNE(s *state, l lin) bool {
	switch e.decideEQ(s, l) {
	case 1:
		return false
	case 0:
		return true
	}
	if len(l.t) == 1 && (l.t[0].k == 1 || l.t[0].k == -1) {
		v := -l.c * l.t[0].k
		x := l.t[0].s
		if e.setOf(s, x) != nil {
			return e.restrict(s, x, rOne(v).complement())
		}
	}
	// at the edge of a bound
	if e.upper(s, l) == 0 {
		return e.assumeLE(s, l.plus(1))
	}
	if e.upper(s, l.mul(-1)) == 0 {
		return e.assumeLE(s, l.mul(-1).plus(1))
	}
	if x, ok := l.base(); ok && x != 0 && e.symInfo[x].nonneg && l.c < -1 && l.c >= -16 {
		return e.restrict(s, x, rRange(0, -l.c-1).union(rRange(-l.c+1, maxInt)))
	}
	return true
}

// restrict intersects the set of a symbol.
func (e *engine) restrict(s *state, x sym, r rset) bool {
	cur := e.setOf(s, x)
	if cur == nil {
		cur = rAll
	}
	n := cur.intersect(r)
	if n.empty() {
		return false
	}
	s.wsets()
	s.sets[x] = n
	if s.z.has(x) || len(n) == 1 {
		e.touch(s, x)
		z := s.wz()
		if n[0].lo > -inf && !z.add(0, x, -n[0].lo) {
			return false
		}
		if h := n[len(n)-1].hi; h < inf && !z.add(x, 0, h) {
			return false
		}
	}
	if w, ok := s.width[x]; ok {
		lo, hi := runeWidths(n)
		e.touch(s, x)
		d := w.to.sub(w.from)
		if !e.assumeLE(s, d.plus(-hi)) || !e.assumeLE(s, d.mul(-1).plus(lo)) {
			return false
		}
	}
	return true
}
func runeLen(r int64) int64 {
	switch {
	case r < 0x80:
		return 1
	case r < 0x800:
		return 2
	case r < 0x10000:
		return 3
	}
	return 4
}
func runeWidths(r rset) (int64, int64) { return runeLen(r[0].lo), runeLen(r[len(r)-1].hi) }

// afterIdx derives a containment fact from the sign of an index result.
func (e *engine) afterIdx(s *state, x sym) bool {
	h, ok := s.idxOf[x]
	if !ok {
		return true
	}
	if h.op == "count" {
		h.op = "contains"
		if s.z.bound(0, x) <= -1 { // x >= 1
			return e.addStrHas(s, h, true)
		}
		if s.z.bound(x, 0) <= 0 {
			return e.addStrHas(s, h, false)
		}
		return true
	}
	if s.z.bound(0, x) <= 0 { // x >= 0
		return e.addStrHas(s, h, true)
	}
	if s.z.bound(x, 0) < 0 {
		return e.addStrHas(s, h, false)
	}
	return true
}

// --- strings

func (e *engine) newAtom(name string) *atom {
	e.natom++
	return &atom{id: e.natom, name: name, len: e.newSym(true, nil)}
}
func (e *engine) partLen(p part) lin {
	switch {
	case p.a == nil:
		return con(int64(len(p.lit)))
	case p.whole:
		return symLin(p.a.len)
	default:
		return p.to.sub(p.from)
	}
}
func (e *engine) strLen(v *strV) lin {
	l := con(0)
	for _, p := range v.p {
		l = l.add(e.partLen(p))
	}
	return l
}

// norm drops parts known to be empty and widens full substrings.
func (e *engine) norm(s *state, v *strV) *strV {
	ch := false
	for _, p := range v.p {
		if p.a == nil {
			continue
		}
		if !p.whole && e.lineq(s, p.from, con(0)) && e.lineq(s, p.to, symLin(p.a.len)) {
			ch = true
		}
		if e.decideLE(s, e.partLen(p)) == 1 {
			ch = true
		}
	}
	if !ch {
		return v
	}
	out := &strV{}
	for _, p := range v.p {
		if p.a != nil {
			if e.decideLE(s, e.partLen(p)) == 1 {
				continue
			}
			if !p.whole && e.lineq(s, p.from, con(0)) && e.lineq(s, p.to, symLin(p.a.len)) {
				p = part{a: p.a, whole: true}
			}
		}
		out = out.concat(&strV{[]part{p}})
	}
	return out
}

func (e *engine) addStrHas(s *state, h strHas, v bool) bool {
	k := e.hasKey(s, h)
	if old, ok := s.sfacts[k]; ok {
		return old == v
	}
	s.wfacts()
	s.sfacts[k] = v
	s.sargs[k] = [2]*strV{h.a, h.b}
	if v && h.op == "contains" {
		// it has at least the length of what it contains
		return e.assumeLE(s, e.strLen(h.b).sub(e.strLen(h.a)))
	}
	return true
}
func (e *engine) hasKey(s *state, h strHas) string {
	return h.op + "\x00" + e.norm(s, h.a).key() + "\x00" + e.norm(s, h.b).key()
}
func (e *engine) eqKey(s *state, a, b *strV) string {
	x, y := e.norm(s, a).key(), e.norm(s, b).key()
	if x > y {
		x, y = y, x
	}
	return "eq\x00" + x + "\x00" + y
}

// strDecide: 1 equal, 0 different, -1 unknown.
func (e *engine) strDecide(s *state, a, b *strV) int {
	a, b = e.norm(s, a), e.norm(s, b)
	if a.key() == b.key() {
		return 1
	}
	la, oka := a.lit()
	lb, okb := b.lit()
	if oka && okb {
		if la == lb {
			return 1
		}
		return 0
	}
	if e.decideEQ(s, e.strLen(a).sub(e.strLen(b))) == 0 {
		return 0
	}
	if v, ok := s.sfacts[e.eqKey(s, a, b)]; ok {
		if v {
			return 1
		}
		return 0
	}
	// one of them is known to be another literal
	if oka != okb {
		x, lit := a, lb
		if oka {
			x, lit = b, la
		}
		k := x.key()
		for f, v := range s.sfacts {
			if !v || !strings.HasPrefix(f, "eq\x00") {
				continue
			}
			g := s.sargs[f]
			for i := range g {
				if l, ok := g[1-i].lit(); ok && l != lit && e.norm(s, g[i]).key() == k {
					return 0
				}
			}
		}
	}
	// differing first literal characters
	if len(a.p) > 0 && len(b.p) > 0 && a.p[0].a == nil && b.p[0].a == nil {
		x, y := a.p[0].lit, b.p[0].lit
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if x[:n] != y[:n] {
			return 0
		}
	}
	return -1
}

func (s *state) factStrings() []string {
	var out []string
	for k, v := range s.sfacts {
		out = append(out, fmt.Sprintf("%q=%v", k, v))
	}
	sort.Strings(out)
	return out
}

// --- heap

func (e *engine) alloc(s *state, v value, name string) objID {
	e.nobj++
	o := objID(e.nobj)
	s.wheap()[o] = v
	e.objName[o] = name
	return o
}

func describePath(p []sel) string {
	var b strings.Builder
	for _, x := range p {
		if x.field >= 0 {
			fmt.Fprintf(&b, ".%d", x.field)
		} else {
			fmt.Fprintf(&b, "[%s]", x.idx)
		}
	}
	return b.String()
}
