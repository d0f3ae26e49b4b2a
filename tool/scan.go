package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Characters of strings. A loop that looks at the characters of a string
// leaves a record of their classes in layers; charFacts are the conclusion.

// rChars is every character a string can be made of: the code points, and
// badByte for a byte that is not part of a valid encoding.
var rChars = rset{{-1, 0xD7FF}, {0xE000, 0x10FFFF}}
var rNonASCII = rset{{-1, -1}, {0x80, 0xD7FF}, {0xE000, 0x10FFFF}}

// scanBase gives the atom a string is (part of) and its extent.
func (e *engine) scanBase(st *state, s *strV) (*atom, lin, lin) {
	s = e.norm(st, s)
	if len(s.p) == 1 && s.p[0].a != nil {
		p := s.p[0]
		if p.whole {
			return p.a, con(0), symLin(p.a.len)
		}
		return p.a, p.from, p.to
	}
	a := e.aliasAtom(st, s)
	return a, con(0), symLin(a.len)
}

func (e *engine) segSet(st *state, g seg) rset {
	if g.r != 0 {
		return e.setOf(st, g.r)
	}
	return g.set
}

func byteRunes(s rset) rset {
	out := s.intersect(rRange(0, 0x7f))
	if !s.intersect(rRange(0x80, 0xff)).empty() {
		out = out.union(rNonASCII)
	}
	return out
}

// findSeg returns the single character recorded at a position.
func (e *engine) findSeg(st *state, a *atom, pos lin, bytes bool) *seg {
	for _, l := range st.layers[a] {
		for i := range l.segs {
			g := &l.segs[i]
			if g.single && g.bytes == bytes && e.lineq(st, g.from, pos) {
				return g
			}
		}
	}
	return nil
}

// scannedBy notes that a function looks at the characters of a string.
func (e *engine) scannedBy(a *atom, fn *ssa.Function) {
	if e.scans == nil {
		e.scans = map[*atom]map[*ssa.Function]bool{}
	}
	m := e.scans[a]
	if m == nil {
		m = map[*ssa.Function]bool{}
		e.scans[a] = m
	}
	m[fn] = true
}

// byHand says whether a loop over the string compares its characters with
// every character of t: it may look for t, in a way that is not followed.
func (e *engine) byHand(s *strV, t string) bool {
	for _, p := range s.p {
		if p.a == nil {
			continue
		}
		for fn := range e.scans[p.a] {
			if fi := e.info(fn); len(fi.loops) == 0 && len(fn.AnonFuncs) == 0 {
				continue
			}
			cs := map[int64]bool{}
			for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if op, ok := in.(*ssa.BinOp); ok && (op.Op == token.EQL || op.Op == token.NEQ) {
							for _, v := range []ssa.Value{op.X, op.Y} {
								if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
									cs[c.Int64()] = true
								}
							}
						}
					}
				}
			}
			all := true
			for _, r := range t {
				all = all && cs[int64(r)]
			}
			if all {
				return true
			}
		}
	}
	return false
}

func (e *engine) addSeg(st *state, a *atom, g seg) {
	if n := len(e.stack); n > 0 {
		e.scannedBy(a, e.stack[n-1])
	}
	st.wlayers()
	ls := st.layers[a]
	for i := range ls {
		n := len(ls[i].segs)
		if n > 0 && ls[i].segs[n-1].bytes == g.bytes && e.lineq(st, ls[i].segs[n-1].to, g.from) {
			ls[i].segs = append(ls[i].segs[:n:n], g)
			return
		}
	}
	st.layers[a] = append(ls[:len(ls):len(ls)], layer{[]seg{g}})
}

type runeRes struct {
	st    *state
	r     lin
	width lin
}

// decodeAt decodes the character at pos < end.
func (e *engine) decodeAt(st *state, a *atom, pos, end lin) []runeRes {
	e.scanned++
	if g := e.findSeg(st, a, pos, false); g != nil {
		if g.r != 0 {
			return []runeRes{{st, symLin(g.r), g.to.sub(g.from)}}
		}
		return []runeRes{{st, con(utf8.RuneError), con(1)}}
	}
	// what is already known of the character here
	known := rChars
	for _, l := range st.layers[a] {
		for _, g := range l.segs {
			if e.lineq(st, g.from, pos) {
				s := e.segSet(st, g)
				if g.bytes && g.single {
					s = byteRunes(s)
				}
				known = known.intersect(s)
			}
		}
	}
	var out []runeRes
	bad := st.clone()
	e.touch(st, a.len)
	// a valid encoding
	r := e.newSym(false, rRunes)
	ok := known.eq(rChars) || e.restrict(st, r, known.intersect(rRunes))
	to := lin{}
	for _, l := range st.layers[a] {
		for _, g := range l.segs {
			if g.head && !g.bytes && e.lineq(st, g.from, pos) {
				to = g.to
			}
		}
	}
	if to.isConst() {
		to = symLin(e.newSym(true, nil))
	}
	w := to.sub(pos)
	e.assumeLE(st, w.mul(-1).plus(1))
	e.assumeLE(st, w.plus(-4))
	g := seg{from: pos, to: to, r: r, single: true}
	if ok && e.assumeLE(st, g.to.sub(end)) {
		st.wsets()
		st.width[r] = g
		e.addSeg(st, a, g)
		out = append(out, runeRes{st, symLin(r), w})
	}
	g = seg{from: pos, to: pos.plus(1), set: rOne(badByte), single: true}
	if known.has(badByte) && e.assumeLE(bad, g.to.sub(end)) {
		e.addSeg(bad, a, g)
		out = append(out, runeRes{bad, con(utf8.RuneError), con(1)})
	}
	return out
}

// decodeRune models utf8.DecodeRuneInString.
func (e *engine) decodeRune(st *state, s *strV, pos token.Pos) []res {
	s = e.norm(st, s)
	if lit, ok := s.lit(); ok {
		r, w := utf8.DecodeRuneInString(lit)
		return one(st, tupleV{intV{con(int64(r))}, intV{con(int64(w))}})
	}
	if len(s.p) > 0 && s.p[0].a == nil {
		r, w := utf8.DecodeRuneInString(s.p[0].lit)
		return one(st, tupleV{intV{con(int64(r))}, intV{con(int64(w))}})
	}
	a, base, end := e.scanBase(st, s)
	var out []res
	empty, full := e.fork(st, bcond(linCond{end.sub(base), true}))
	for _, x := range empty {
		out = append(out, res{x, tupleV{intV{con(utf8.RuneError)}, intV{con(0)}}})
	}
	for _, x := range full {
		for _, r := range e.decodeAt(x, a, base, end) {
			out = append(out, res{r.st, tupleV{intV{r.r}, intV{r.width}}})
		}
	}
	return out
}

func (e *engine) nextRune(st *state, o objID, it *strIter, pos token.Pos) []res {
	s := e.norm(st, it.s)
	n := e.strLen(s)
	done := tupleV{bconst(false), intV{}, intV{}}
	if lit, ok := s.lit(); ok && it.pos.isConst() {
		if it.pos.c >= int64(len(lit)) {
			return one(st, done)
		}
		r, w := utf8.DecodeRuneInString(lit[it.pos.c:])
		st.wheap()[o] = &strIter{it.s, it.pos.plus(int64(w))}
		return one(st, tupleV{bconst(true), intV{it.pos}, intV{con(int64(r))}})
	}
	var out []res
	fin, more := e.fork(st, bcond(linCond{n.sub(it.pos), true}))
	e.scanned++
	for _, x := range fin {
		out = append(out, res{x, done})
	}
	for _, x := range more {
		a, base, end := e.scanBase(x, s)
		for _, r := range e.decodeAt(x, a, base.add(it.pos), end) {
			r.st.wheap()[o] = &strIter{it.s, it.pos.add(r.width)}
			out = append(out, res{r.st, tupleV{bconst(true), intV{it.pos}, intV{r.r}}})
		}
	}
	return out
}

// scanByte reads a byte of a string that is not a literal; i is in bounds.
func (e *engine) scanByte(st *state, s *strV, i lin, pos token.Pos) []res {
	a, base, _ := e.scanBase(st, s)
	e.scanned++
	p := base.add(i)
	if g := e.findSeg(st, a, p, true); g != nil && g.r != 0 {
		return one(st, intV{symLin(g.r)})
	}
	r := e.newSym(false, rByte)
	e.addSeg(st, a, seg{from: p, to: p.plus(1), r: r, bytes: true, single: true})
	return one(st, intV{symLin(r)})
}

// splitLayers sets a byte looked at after a run of others apart: the loop that
// follows may decode the character that starts there.
func (e *engine) splitLayers(st *state) {
	st.wlayers()
	for a, ls := range st.layers {
		var out, more []layer
		for _, l := range ls {
			if n := len(l.segs); n > 1 && l.segs[n-1].bytes && l.segs[n-1].single && !l.segs[n-2].single {
				more = append(more, layer{append([]seg(nil), l.segs[n-1])})
				l.segs = l.segs[:n-1]
			}
			out = append(out, l)
		}
		st.layers[a] = append(out, more...)
	}
}

// normLayers summarises the records of the characters looked at so far: the
// first character of the string is kept apart.
func (e *engine) normLayers(st *state) {
	if st.em != nil && st.em.alt != nil {
		em := *st.em
		em.alt = nil
		st.em = &em
	}
	st.wlayers()
	for a, ls := range st.layers {
		var out []layer
		for _, l := range ls {
			var n layer
			for i, g := range l.segs {
				s := e.segSet(st, g)
				if g.bytes && g.single {
					s = byteRunes(s)
				}
				if g.single && s.count() <= 3 {
					e.addExists(st, a, s)
				}
				if i == 0 && g.single && g.from.isConst() && g.from.c == 0 {
					n.segs = append(n.segs, seg{from: g.from, to: g.to, set: s, single: false, head: true, bytes: g.bytes})
					continue
				}
				if g.head {
					n.segs = append(n.segs, g)
					continue
				}
				if k := len(n.segs); k > 0 && !n.segs[k-1].head {
					n.segs[k-1].set = n.segs[k-1].set.union(s)
					n.segs[k-1].to = g.to
					continue
				}
				n.segs = append(n.segs, seg{from: g.from, to: g.to, set: s, bytes: g.bytes})
			}
			if len(n.segs) > 0 {
				out = append(out, n)
			}
		}
		if len(out) == 0 {
			delete(st.layers, a)
		} else {
			st.layers[a] = out
		}
	}
}

// addExists records that some character of an atom is in a set.
func (e *engine) addExists(st *state, a *atom, s rset) {
	v := satom(a)
	k := v.key()
	for _, f := range st.chars[k] {
		if !f.ok && f.first.eq(s) && f.rest.eq(s) {
			return
		}
	}
	st.wfacts()
	st.chars[k] = append(st.chars[k][:len(st.chars[k]):len(st.chars[k])], charFact{first: s, rest: s})
	st.cargs[k] = v
}

// cover returns the classes of the characters in [from, to) of an atom.
func (e *engine) cover(st *state, a *atom, from, to lin) (rset, bool) {
	first, rest, ok := e.coverChars(st, a, from, to)
	return first.union(rest), ok
}

// coverChars finds the runs of characters that make up [from, to), and
// returns the class of the first character and that of the others.
func (e *engine) coverChars(st *state, a *atom, from, to lin) (first, rest rset, ok bool) {
	if e.lineq(st, from, to) {
		return nil, nil, true
	}
	var segs []seg
	for _, l := range st.layers[a] {
		segs = append(segs, l.segs...)
	}
	parts := false
	var walk func(at lin, depth int) (f, r rset, ok bool)
	walk = func(at lin, depth int) (f, r rset, ok bool) {
		if depth > 12 {
			return nil, nil, false
		}
		for _, g := range segs {
			if !e.lineq(st, g.from, at) {
				continue
			}
			s := e.segSet(st, g)
			if g.bytes && g.single {
				s = byteRunes(s)
			}
			gf, gr := s, s
			if g.single || g.head {
				gr = nil
			}
			if !e.lineq(st, g.to, to) {
				x, y, k := walk(g.to, depth+1)
				if !k {
					continue
				}
				gr = gr.union(x).union(y)
			}
			switch {
			case !ok:
				f, r, ok = gf, gr, true
			case gf.subset(f) && gr.subset(r):
				f, r = gf, gr
			}
		}
		if ok || !parts {
			return
		}
		// a part of a longer run
		for _, g := range segs {
			if g.single || g.head || !e.linle(st, g.from, at) || !e.linle(st, at, g.to) {
				continue
			}
			s := e.segSet(st, g)
			x, y := rset(nil), rset(nil)
			if !e.linle(st, to, g.to) {
				var k bool
				if e.lineq(st, g.to, at) {
					continue
				}
				if x, y, k = walk(g.to, depth+1); !k {
					continue
				}
			}
			x = s.union(x).union(y)
			if !ok || x.subset(r) {
				f, r, ok = s, x, true
			}
		}
		return
	}
	if first, rest, ok = walk(from, 0); !ok {
		parts = true
		first, rest, ok = walk(from, 0)
	}
	return
}

// layerFacts turns the records of the characters of an atom into facts.
func (e *engine) layerFacts(st *state, a *atom) []charFact {
	var out []charFact
	for _, l := range st.layers[a] {
		covers := len(l.segs) > 0 && e.lineq(st, l.segs[0].from, con(0))
		for i, g := range l.segs {
			s := e.segSet(st, g)
			if g.bytes && g.single {
				s = byteRunes(s)
			}
			// a character known to exist
			if (g.single || g.head) && !s.eq(rChars) {
				f := charFact{weak: g.head || i < len(l.segs)-1}
				if i == 0 && covers {
					f.first = s
				} else {
					f.rest = s
					if !covers {
						f.first = s
					}
				}
				out = append(out, f)
			}
		}
	}
	if len(st.layers[a]) > 0 {
		if first, rest, ok := e.coverChars(st, a, con(0), symLin(a.len)); ok {
			out = append(out, charFact{ok: true, first: first, rest: rest})
		}
	}
	return out
}

// charFacts of a string: recorded ones and those of the loops over it.
func (e *engine) charFacts(st *state, s *strV) []charFact {
	s = e.norm(st, s)
	out := st.chars[s.key()]
	out = out[:len(out):len(out)]
	pre := "contains\x00" + s.key() + "\x00"
	for k, v := range st.sfacts {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		if l, ok := st.sargs[k][1].lit(); ok && utf8.RuneCountInString(l) == 1 && l != "\uFFFD" {
			r, _ := utf8.DecodeRuneInString(l)
			c := rOne(int64(r))
			if v {
				out = append(out, charFact{first: c, rest: c})
			} else {
				out = append(out, charFact{ok: true, first: rChars.minus(c), rest: rChars.minus(c)})
			}
		}
	}
	if a := s.atom(); a != nil {
		out = append(out, e.layerFacts(st, a)...)
	} else if a := e.aliases[s.key()]; a != nil {
		out = append(out, e.layerFacts(st, a)...)
	}
	return out
}

// charDecide: are all characters of s in the sets (the first in first)?
func (e *engine) charDecide(st *state, s *strV, first, rest rset) int {
	s = e.norm(st, s)
	if lit, ok := s.lit(); ok {
		for i, c := range runes(lit) {
			set := rest
			if i == 0 {
				set = first
			}
			if !set.has(c) {
				return 0
			}
		}
		return 1
	}
	if e.decideLE(st, e.strLen(s)) == 1 {
		return 1
	}
	F, R := rChars, rChars
	for _, f := range e.charFacts(st, s) {
		if f.ok {
			F, R = F.intersect(f.first), R.intersect(f.rest)
		}
	}
	if F.subset(first) && R.subset(rest) {
		return 1
	}
	nonEmpty := e.decideLE(st, e.strLen(s).mul(-1).plus(1)) == 1
	if nonEmpty && F.disjoint(first) {
		return 0
	}
	for _, f := range e.charFacts(st, s) {
		if !f.ok && f.first.intersect(F).disjoint(first) && f.rest.intersect(R).disjoint(rest) {
			return 0
		}
	}
	if len(s.p) > 1 {
		// from the parts
		all := 1
		for i, p := range s.p {
			ps := &strV{[]part{p}}
			f := rest
			if i == 0 {
				f = first
			}
			d := e.charDecide(st, ps, f, rest)
			if d == 0 && (i == 0 || e.charDecide(st, ps, rest, rest) == 0) {
				return 0
			}
			if d != 1 {
				all = -1
			}
			if i == 0 && e.decideLE(st, e.strLen(ps).mul(-1).plus(1)) != 1 {
				all = -1
			}
		}
		if all == 1 {
			return 1
		}
	}
	return -1
}

func runes(s string) []int64 {
	var out []int64
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 {
			r = badByte
		}
		out = append(out, int64(r))
		i += w
	}
	return out
}

// charAssume adds the answer to a charDecide question.
func (e *engine) charAssume(st *state, s *strV, f charFact) bool {
	s = e.norm(st, s)
	if f.ok {
		switch e.charDecide(st, s, f.first, f.rest) {
		case 1:
			return true
		case 0:
			return false
		}
	} else {
		switch e.charDecide(st, s, rChars.minus(f.first), rChars.minus(f.rest)) {
		case 1:
			return false
		case 0:
			return true
		}
		// there is at least one character
		if !e.assumeLE(st, e.strLen(s).mul(-1).plus(1)) {
			return false
		}
	}
	st.wfacts()
	k := s.key()
	st.chars[k] = append(st.chars[k], f)
	st.cargs[k] = s
	return true
}

// --- output of a string piece by piece

// escMap says what is written for each character.
type escMap struct{ m []trans }

func (m *escMap) add(set rset, verb bool, lit string) {
	for i := range m.m {
		if m.m[i].verb == verb && m.m[i].lit == lit {
			m.m[i].set = m.m[i].set.union(set)
			return
		}
	}
	m.m = append(m.m, trans{set, verb, lit})
	sort.Slice(m.m, func(i, j int) bool {
		a, b := m.m[i], m.m[j]
		if a.verb != b.verb {
			return a.verb
		}
		return a.lit < b.lit
	})
}

func (t trans) String() string {
	if t.verb {
		return "themselves"
	}
	return fmt.Sprintf("%q", t.lit)
}
func (m *escMap) String() string {
	var b strings.Builder
	for _, t := range m.m {
		fmt.Fprintf(&b, "%s -> %s; ", t.set, t)
	}
	return b.String()
}

// emit handles a write while a string is written out piecemeal. It reports
// whether the write was part of that.
func (e *engine) emit(st *state, s *strV) bool {
	em := st.em
	if em == nil || em.bad != "" {
		return em != nil
	}
	s = e.norm(st, s)
	m := &escMap{append([]trans(nil), em.out...)}
	for _, p := range s.p {
		if p.a != nil && p.a == em.a {
			from, to := con(0), symLin(p.a.len)
			if !p.whole {
				from, to = p.from, p.to
			}
			if em.alt != nil && e.lineq(st, from, con(0)) {
				e.useAlt(st, m)
			}
			em.alt = nil
			if len(em.post) > 0 || !e.lineq(st, from, em.upto) {
				em.bad = fmt.Sprintf("the piece %s is written when the string has been written up to %s", s, em.upto)
				return true
			}
			set, ok := e.cover(st, em.a, from, to)
			if !ok && e.debug {
				fmt.Printf("uncovered %s..%s: %v in %v\n", from, to, st.layers[em.a], e.curFn())
			}
			if !ok {
				set = rChars
			}
			em.on = true
			if !set.empty() {
				m.add(set, true, "")
			}
			em.upto = to
			if from.isConst() && from.c == 0 && e.lineq(st, to, symLin(em.a.len)) {
				if first, rest, ok := e.coverChars(st, em.a, from, to); ok {
					st.wfacts()
					k := satom(em.a).key()
					st.chars[k] = append(st.chars[k][:len(st.chars[k]):len(st.chars[k])], charFact{ok: true, first: first, rest: rest})
					st.cargs[k] = satom(em.a)
				}
			}
			e.trimLayers(st, em.a, to)
			continue
		}
		if p.a != nil {
			em.alt = nil
			if em.on {
				em.post = append(em.post[:len(em.post):len(em.post)], &strV{[]part{p}})
			} else {
				em.pre = append(em.pre[:len(em.pre):len(em.pre)], &strV{[]part{p}})
			}
			continue
		}
		if em.alt != nil {
			em.alt = &emAlt{em.alt.layers, append(em.alt.pre[:len(em.alt.pre):len(em.alt.pre)], slit(p.lit))}
		}
		// a literal stands for the next character that has been looked at
		var g *seg
		for _, l := range st.layers[em.a] {
			for i := range l.segs {
				if (l.segs[i].single || l.segs[i].head) && e.lineq(st, l.segs[i].from, em.upto) {
					switch h := &l.segs[i]; {
					case g == nil || g.bytes && !h.bytes:
						g = h
					case g.bytes == h.bytes && e.segSet(st, *h).subset(e.segSet(st, *g)):
						g = h
					}
				}
			}
		}
		switch {
		case g != nil:
			set := e.segSet(st, *g)
			if g.bytes && g.single {
				set = byteRunes(set)
			}
			if !em.on && len(em.out) == 0 && em.upto.isConst() && em.upto.c == 0 {
				em.alt = &emAlt{st.layers[em.a], append(em.pre[:len(em.pre):len(em.pre)], slit(p.lit))}
			}
			em.on = true
			m.add(set, false, p.lit)
			to := g.to
			em.upto = to
			e.trimLayers(st, em.a, to)
		case !em.on && em.upto.isConst() && em.upto.c == 0 && e.decideLE(st, symLin(em.a.len)) != 1:
			em.pre = append(em.pre[:len(em.pre):len(em.pre)], slit(p.lit))
		case e.lineq(st, em.upto, symLin(em.a.len)):
			em.post = append(em.post[:len(em.post):len(em.post)], slit(p.lit))
		case em.alt != nil:
			e.useAlt(st, m)
		default:
			em.bad = fmt.Sprintf("%q is written for no character in particular", p.lit)
		}
	}
	em.out = m.m
	return true
}

// emAlt is the other way to read what was written first: it may stand before
// the string instead of for its first characters.
type emAlt struct {
	layers []layer
	pre    []*strV
}

func (e *engine) useAlt(st *state, m *escMap) {
	em := st.em
	st.wlayers()
	st.layers[em.a] = em.alt.layers
	em.pre, em.on, em.upto, em.out, m.m, em.alt = em.alt.pre, false, con(0), nil, nil, nil
}

// charPiece is the piece of a string whose character (its byte, if not a rune)
// has the value l.
func (e *engine) charPiece(st *state, l lin, isRune bool) *strV {
	r, ok := l.base()
	if !ok || r == 0 || l.c != 0 {
		return nil
	}
	var best *atom
	var at seg
	for a, ls := range st.layers {
		if best != nil && best.id < a.id {
			continue
		}
		for _, y := range ls {
			for _, g := range y.segs {
				if !g.single || g.r != r {
					continue
				}
				if g.bytes == isRune && !e.setOf(st, r).subset(rRange(0, 0x7f)) {
					continue
				}
				best, at = a, g
			}
		}
	}
	if best == nil {
		return nil
	}
	return &strV{[]part{{a: best, from: at.from, to: at.to}}}
}

// trimLayers forgets characters before a position.
func (e *engine) trimLayers(st *state, a *atom, to lin) {
	st.wlayers()
	var out []layer
	for _, l := range st.layers[a] {
		n := layer{}
		for _, g := range l.segs {
			if e.linle(st, g.to, to) {
				continue
			}
			n.segs = append(n.segs, g)
		}
		if len(n.segs) > 0 {
			out = append(out, n)
		}
	}
	st.layers[a] = out
}
