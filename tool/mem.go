package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- reading

// load reads the location of a pointer; it forks when an index may alias
// several elements.
func (e *engine) load(st *state, pt ptrV, t types.Type, pos token.Pos) []res {
	root, ok := st.heap[pt.o]
	if !ok {
		e.giveUp(pos, "read of unknown object %s", e.objName[pt.o])
	}
	return e.readPath(st, pt.o, root, pt.path, t, pos)
}

func (e *engine) readPath(st *state, o objID, v value, path []sel, t types.Type, pos token.Pos) []res {
	for i, s := range path {
		if s.field >= 0 {
			switch x := v.(type) {
			case *structV:
				v = x.f[s.field]
				continue
			case opaqueV, termV:
				return one(st, e.fresh(st, t, "field", 0))
			}
			e.giveUp(pos, "field of %T", v)
		}
		a, ok := v.(*arrV)
		if !ok {
			e.giveUp(pos, "element of %T", v)
		}
		var out []res
		for _, r := range e.readElem(st, o, path[:i], a, s.idx, pos) {
			out = append(out, e.readPath(r.st, o, r.v, path[i+1:], t, pos)...)
		}
		return out
	}
	return one(st, v)
}

// readElem reads element idx of array a, which is at path of object o.
func (e *engine) readElem(st *state, o objID, path []sel, a *arrV, idx lin, pos token.Pos) []res {
	if a.table != nil && a.rest == restZero && len(a.known) == 0 {
		if idx.isConst() {
			if v, ok := a.table[idx.c]; ok {
				return one(st, v)
			}
			return one(st, e.zero(a.elem))
		}
		if r := e.readTable(st, a, idx); r != nil {
			return r
		}
		return one(st, e.fresh(st, a.elem, "element", 0))
	}
	if a.rest == restEach {
		v := e.fresh(st, a.elem, e.objName[o]+"[i]", 0)
		switch x := v.(type) {
		case symIface:
			x.arr, x.idx = o, idx
			v = x
			if ss := e.assume(st, e.isNil(st, x), false); len(ss) == 1 {
				st = ss[0]
			}
		case *structV:
			e.eachOf(x, o, idx)
		default:
			e.giveUp(pos, "element of a list of %s", a.elem)
		}
		if e.eachRead != 0 {
			st.wheap()[e.eachRead] = bconst(true)
		}
		return one(st, v)
	}
	var out []res
	cur := st
	for _, k := range a.known {
		d := idx.sub(k.i)
		switch e.decideEQ(cur, d) {
		case 1:
			return append(out, res{cur, k.v})
		case -1:
			s := cur.clone()
			if e.assumeEQ(s, d) {
				out = append(out, res{s, k.v})
			}
			if !e.assumeNE(cur, d) {
				return out
			}
		}
	}
	switch a.rest {
	case restZero:
		if a.table != nil && idx.isConst() {
			if v, ok := a.table[idx.c]; ok {
				return append(out, res{cur, v})
			}
		} else if len(a.table) > 0 {
			e.giveUp(pos, "element of a mixed array")
		}
		return append(out, res{cur, e.zero(a.elem)})
	case restStack:
		if e.hooks.stackElem != nil {
			for _, r := range e.hooks.stackElem(cur, o, path, a, idx, pos) {
				out = append(out, r)
			}
			return out
		}
	}
	// some element: from now on it is that one
	v := e.fresh(cur, a.elem, e.objName[o]+"[i]", 0)
	e.putKnown(cur, o, path, idx, v)
	return append(out, res{cur, v})
}

func (e *engine) putKnown(st *state, o objID, path []sel, idx lin, v value) {
	h := st.wheap()
	h[o] = e.rebuild(h[o], path, func(x value) value {
		a := x.(*arrV)
		n := *a
		n.known = append(append([]arrElem(nil), a.known...), arrElem{idx, v})
		return &n
	})
}

// rebuild replaces the value at a path that needs no forking.
func (e *engine) rebuild(v value, path []sel, f func(value) value) value {
	if len(path) == 0 {
		return f(v)
	}
	s := path[0]
	if s.field >= 0 {
		x := v.(*structV)
		n := *x
		n.f = append([]value(nil), x.f...)
		n.f[s.field] = e.rebuild(x.f[s.field], path[1:], f)
		return &n
	}
	a := v.(*arrV)
	n := *a
	if a.table != nil && s.idx.isConst() && a.rest == restZero && len(a.known) == 0 {
		cur, ok := a.table[s.idx.c]
		if !ok {
			cur = e.zero(a.elem)
		}
		n.table = make(map[int64]value, len(a.table)+1)
		for k, v := range a.table {
			n.table[k] = v
		}
		n.table[s.idx.c] = e.rebuild(cur, path[1:], f)
		return &n
	}
	n.known = append([]arrElem(nil), a.known...)
	for i, k := range n.known {
		if k.i.eq(s.idx) {
			n.known[i].v = e.rebuild(k.v, path[1:], f)
			return &n
		}
	}
	panic(undecided{0, "internal: element to rebuild is not known"})
}

func (e *engine) readTable(st *state, a *arrV, idx lin) []res {
	base, set := e.linSet(st, idx)
	if base == 0 {
		return nil
	}
	set = set.intersect(rRange(0, 1<<22))
	if set.count() > 1<<18 {
		return nil
	}
	type group struct {
		key string
		v   value
		set []rng
	}
	groups := map[string]*group{}
	add := func(v value, lo, hi int64) bool {
		k, ok := constKey(v)
		if !ok {
			return false
		}
		g := groups[k]
		if g == nil {
			g = &group{key: k, v: v}
			groups[k] = g
		}
		if n := len(g.set); n > 0 && g.set[n-1].hi == lo-1 {
			g.set[n-1].hi = hi
		} else {
			g.set = append(g.set, rng{lo, hi})
		}
		return true
	}
	z := e.zero(a.elem)
	for _, r := range set {
		for i := r.lo; i <= r.hi; i++ {
			v, ok := a.table[i]
			if !ok {
				v = z
			}
			if !add(v, i, i) {
				return nil
			}
		}
		if len(groups) > 40 {
			return nil
		}
	}
	var ks []string
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 1 {
		return one(st, groups[ks[0]].v)
	}
	var out []res
	for _, k := range ks {
		n := st.clone()
		if e.restrict(n, base, rset(groups[k].set).shift(-idx.c)) {
			out = append(out, res{n, groups[k].v})
		}
	}
	return out
}

// constKey identifies a constant.
func constKey(v value) (string, bool) {
	switch v := v.(type) {
	case intV:
		if v.l.isConst() {
			return fmt.Sprint("i", v.l.c), true
		}
	case *strV:
		if s, ok := v.lit(); ok {
			return "s" + s, true
		}
	case boolV:
		if v.k != 2 {
			return fmt.Sprint("b", v.k), true
		}
	case nilV:
		return "nil", true
	case bytesV:
		if l, ok := v.s.lit(); ok {
			return "B" + l, true
		}
	case ptrV:
		if v.sid == 0 {
			return fmt.Sprintf("p%d%s", v.o, describePath(v.path)), true
		}
	case sliceV:
		if v.null {
			return "nils", true
		}
		if v.len.isConst() && v.off.isConst() {
			return fmt.Sprintf("sl%d%s:%d:%d", v.o, describePath(v.path), v.off.c, v.len.c), true
		}
	case funcV:
		if len(v.bind) == 0 {
			return "f" + v.fn.String(), true
		}
	case *structV:
		k := "{"
		for _, f := range v.f {
			x, ok := constKey(f)
			if !ok {
				return "", false
			}
			k += x + ","
		}
		return k + "}", true
	}
	return "", false
}

// --- writing

func (e *engine) storeInstr(p *path, in *ssa.Store) []res {
	st := p.st
	x := e.val(p, in.Addr)
	v := e.val(p, in.Val)
	pt, sts := e.deref(st, x, in.Pos())
	var out []res
	for _, s := range sts {
		if pt == nil {
			continue
		}
		for _, n := range e.store(s, *pt, v, in.Pos()) {
			out = append(out, res{n, nil})
		}
	}
	if pt == nil {
		for _, s := range sts {
			out = append(out, res{s, nil})
		}
	}
	return out
}

func (e *engine) checkOwner(o objID, pos token.Pos) {
	if e.caller[o] && e.trackCaller {
		e.finds.add(finding{props: []string{"C20"}, rule: "writes-argument", where: e.pos(pos), fn: e.curFn(), msg: "writes to memory of the caller: " + e.objName[o], ctx: e.ctx})
	}
	if g := e.global[o]; g != nil && e.initDone {
		e.finds.add(finding{props: []string{"C20"}, rule: "writes-global", where: e.pos(pos), fn: e.curFn(), msg: "writes to package variable " + g.Name(), ctx: e.ctx})
	}
}

func (e *engine) store(st *state, pt ptrV, v value, pos token.Pos) []*state {
	e.checkOwner(pt.o, pos)
	if _, ok := st.heap[pt.o]; !ok {
		e.giveUp(pos, "write to unknown object %s", e.objName[pt.o])
	}
	return e.storePath(st, pt, 0, v, pos)
}

// storePath makes sure every element on the path is known, then rebuilds.
func (e *engine) storePath(st *state, pt ptrV, from int, v value, pos token.Pos) []*state {
	cur := st.heap[pt.o]
	for i := 0; i < len(pt.path); i++ {
		s := pt.path[i]
		if s.field >= 0 {
			x, ok := cur.(*structV)
			if !ok {
				e.giveUp(pos, "store to a field of %T", cur)
			}
			cur = x.f[s.field]
			continue
		}
		a, ok := cur.(*arrV)
		if !ok {
			e.giveUp(pos, "store to an element of %T", cur)
		}
		if a.table != nil && a.rest == restZero && len(a.known) == 0 && s.idx.isConst() {
			if x, ok := a.table[s.idx.c]; ok {
				cur = x
			} else {
				cur = e.zero(a.elem)
			}
			continue
		}
		if i >= from {
			if a.table != nil && len(a.table) > 0 {
				if len(a.table) > 64 {
					e.giveUp(pos, "write to a table at an unknown index")
				}
				// turn the table into known elements
				st.wheap()[pt.o] = e.rebuild(st.heap[pt.o], pt.path[:i], func(x value) value {
					n := *(x.(*arrV))
					var ks []int64
					for k := range n.table {
						ks = append(ks, k)
					}
					sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
					for _, k := range ks {
						n.known = append(n.known, arrElem{con(k), n.table[k]})
					}
					n.table = nil
					return &n
				})
				return e.storePath(st, pt, from, v, pos)
			}
			var out []*state
			for _, r := range e.readElem(st, pt.o, pt.path[:i], a, s.idx, pos) {
				// the element is one of the known ones, or new
				q := pt
				q.path = append([]sel(nil), pt.path...)
				na := e.peek(r.st, pt.o, pt.path[:i]).(*arrV)
				found := false
				for _, k := range na.known {
					if e.decideEQ(r.st, k.i.sub(s.idx)) == 1 {
						q.path[i].idx = k.i
						found = true
					}
				}
				if !found {
					e.putKnown(r.st, pt.o, q.path[:i], s.idx, r.v)
				}
				out = append(out, e.storePath(r.st, q, i+1, v, pos)...)
			}
			return out
		}
		found := false
		for _, k := range a.known {
			if k.i.eq(s.idx) {
				cur = k.v
				found = true
			}
		}
		if !found {
			e.giveUp(pos, "internal: element not known")
		}
	}
	h := st.wheap()
	h[pt.o] = e.rebuild(h[pt.o], pt.path, func(value) value { return v })
	return []*state{st}
}

// peek reads a location whose path is exact.
func (e *engine) peek(st *state, o objID, path []sel) value {
	v := st.heap[o]
	for _, s := range path {
		if s.field >= 0 {
			v = v.(*structV).f[s.field]
			continue
		}
		a := v.(*arrV)
		if a.table != nil && s.idx.isConst() && len(a.known) == 0 {
			if x, ok := a.table[s.idx.c]; ok {
				v = x
			} else {
				v = e.zero(a.elem)
			}
			continue
		}
		found := false
		for _, k := range a.known {
			if k.i.eq(s.idx) {
				v = k.v
				found = true
				break
			}
		}
		if !found {
			panic(undecided{0, "internal: peek at an unknown element"})
		}
	}
	return v
}

// --- indexing

// inBounds checks 0 <= i < n and assumes it.
func (e *engine) inBounds(st *state, i, n lin, pos token.Pos, what string) bool {
	lo := e.decideLE(st, i.mul(-1))
	hi := e.decideLE(st, i.sub(n).plus(1))
	if lo == 1 && hi == 1 {
		return true
	}
	e.mayPanic(st, pos, "index out of range: "+what)
	return e.assumeLE(st, i.mul(-1)) && e.assumeLE(st, i.sub(n).plus(1))
}

func (e *engine) index(p *path, x, i value, t types.Type, pos token.Pos) []res {
	st := p.st
	iv, ok := i.(intV)
	if !ok {
		e.giveUp(pos, "index is %T", i)
	}
	e.countIndex(pos)
	switch x := x.(type) {
	case *strV:
		return e.strIndex(st, x, iv.l, pos)
	case *arrV:
		if !e.inBounds(st, iv.l, x.n, pos, "array") {
			return nil
		}
		return e.readElem(st, 0, nil, x, iv.l, pos)
	}
	e.giveUp(pos, "index of %T", x)
	return nil
}

func (e *engine) countIndex(pos token.Pos) {
	if e.stats.indexes != nil {
		e.stats.indexes[e.pos(pos)] = true
	}
}

func (e *engine) indexAddr(p *path, x, i value, t types.Type, pos token.Pos) []res {
	st := p.st
	iv, ok := i.(intV)
	if !ok {
		e.giveUp(pos, "index is %T", i)
	}
	e.countIndex(pos)
	switch x := x.(type) {
	case sliceV:
		if x.null {
			e.mayPanic(st, pos, "index out of range: nil slice")
			return nil
		}
		if !e.inBounds(st, iv.l, x.len, pos, "slice "+e.objName[x.o]) {
			return nil
		}
		np := append(append([]sel(nil), x.path...), sel{field: -1, idx: x.off.add(iv.l)})
		return one(st, ptrV{o: x.o, path: np})
	case bytesV:
		if !e.inBounds(st, iv.l, e.strLen(x.s), pos, "bytes") {
			return nil
		}
		return one(st, byteElem{x.s, iv.l})
	case ptrV:
		pt, sts := e.deref(st, x, pos)
		var out []res
		for _, s := range sts {
			n := t.(*types.Pointer)
			_ = n
			v := e.peekArr(s, *pt, pos)
			if !e.inBounds(s, iv.l, v.n, pos, "array "+e.objName[pt.o]) {
				continue
			}
			np := append(append([]sel(nil), pt.path...), sel{field: -1, idx: iv.l})
			out = append(out, res{s, ptrV{o: pt.o, path: np}})
		}
		return out
	}
	e.giveUp(pos, "address of an element of %T", x)
	return nil
}

func (e *engine) peekArr(st *state, pt ptrV, pos token.Pos) *arrV {
	rs := e.load(st.clone(), pt, nil, pos)
	if len(rs) > 0 {
		if a, ok := rs[0].v.(*arrV); ok {
			return a
		}
	}
	e.giveUp(pos, "not an array")
	return nil
}

// strIndex reads byte i of a string.
func (e *engine) strIndex(st *state, s *strV, i lin, pos token.Pos) []res {
	e.countIndex(pos)
	s = e.norm(st, s)
	if !e.inBounds(st, i, e.strLen(s), pos, "string") {
		return nil
	}
	// a literal part
	off := i
	for _, pt := range s.p {
		if pt.a == nil && off.isConst() && off.c >= 0 && off.c < int64(len(pt.lit)) {
			return one(st, intV{con(int64(pt.lit[off.c]))})
		}
		if pt.a == nil && off.isConst() {
			off = off.plus(-int64(len(pt.lit)))
			continue
		}
		break
	}
	return e.scanByte(st, s, i, pos)
}

func (e *engine) slice(p *path, in *ssa.Slice) []res {
	st := p.st
	x := e.val(p, in.X)
	get := func(v ssa.Value, d lin) lin {
		if v == nil {
			return d
		}
		iv, ok := e.val(p, v).(intV)
		if !ok {
			e.giveUp(in.Pos(), "slice bound")
		}
		return iv.l
	}
	e.countIndex(in.Pos())
	check := func(lo, hi, max lin) bool {
		ok := e.decideLE(st, lo.mul(-1)) == 1 && e.decideLE(st, lo.sub(hi)) == 1 && e.decideLE(st, hi.sub(max)) == 1
		if ok {
			return true
		}
		e.mayPanic(st, in.Pos(), "slice bounds out of range")
		return e.assumeLE(st, lo.mul(-1)) && e.assumeLE(st, lo.sub(hi)) && e.assumeLE(st, hi.sub(max))
	}
	switch x := x.(type) {
	case *strV:
		n := e.strLen(x)
		lo, hi := get(in.Low, con(0)), get(in.High, n)
		if !check(lo, hi, n) {
			return nil
		}
		return one(st, e.substr(st, x, lo, hi))
	case bytesV:
		n := e.strLen(x.s)
		lo, hi := get(in.Low, con(0)), get(in.High, n)
		if !check(lo, hi, n) {
			return nil
		}
		return one(st, bytesV{e.substr(st, x.s, lo, hi)})
	case sliceV:
		if x.null {
			lo, hi := get(in.Low, con(0)), get(in.High, con(0))
			if !check(lo, hi, con(0)) {
				return nil
			}
			return one(st, x)
		}
		lo, hi := get(in.Low, con(0)), get(in.High, x.len)
		max := get(in.Max, x.cap)
		if !check(lo, hi, max) {
			return nil
		}
		n := x
		n.off, n.len, n.cap = x.off.add(lo), hi.sub(lo), max.sub(lo)
		return one(st, n)
	case ptrV:
		pt, sts := e.deref(st, x, in.Pos())
		var out []res
		for _, s := range sts {
			a := e.peekArr(s, *pt, in.Pos())
			lo, hi := get(in.Low, con(0)), get(in.High, a.n)
			max := get(in.Max, a.n)
			if !check(lo, hi, max) {
				continue
			}
			out = append(out, res{s, sliceV{o: pt.o, path: pt.path, off: lo, len: hi.sub(lo), cap: max.sub(lo)}})
		}
		return out
	}
	e.giveUp(in.Pos(), "slice of %T", x)
	return nil
}

// substr is s[lo:hi], with the bounds already checked.
func (e *engine) substr(st *state, s *strV, lo, hi lin) *strV {
	if lit, ok := s.lit(); ok && lo.isConst() && hi.isConst() {
		return slit(lit[lo.c:hi.c])
	}
	n := e.strLen(s)
	if e.lineq(st, lo, con(0)) && e.lineq(st, hi, n) {
		return s
	}
	if e.lineq(st, lo, hi) {
		return slit("")
	}
	if len(s.p) == 1 && s.p[0].a != nil {
		p := s.p[0]
		base := con(0)
		if !p.whole {
			base = p.from
		}
		return e.norm(st, &strV{[]part{{a: p.a, from: base.add(lo), to: base.add(hi)}}})
	}
	// cut whole parts off a concatenation
	if e.lineq(st, hi, n) {
		off := con(0)
		for i, p := range s.p {
			if e.lineq(st, off, lo) {
				return &strV{s.p[i:]}
			}
			if p.a == nil && lo.sub(off).isConst() {
				if k := lo.sub(off).c; k > 0 && k < int64(len(p.lit)) {
					return (&strV{[]part{{lit: p.lit[k:]}}}).concat(&strV{s.p[i+1:]})
				}
			}
			off = off.add(e.partLen(p))
		}
	}
	a := e.aliasAtom(st, s)
	return &strV{[]part{{a: a, from: lo, to: hi}}}
}

// aliasAtom names a composite string.
func (e *engine) aliasAtom(st *state, s *strV) *atom {
	s = e.norm(st, s)
	if a := s.atom(); a != nil {
		return a
	}
	k := s.key()
	if a := e.aliases[k]; a != nil {
		e.touch(st, a.len)
		e.assumeEQ(st, symLin(a.len).sub(e.strLen(s)))
		return a
	}
	a := e.newAtom("(" + s.String() + ")")
	a.alias = s
	e.aliases[k] = a
	e.assumeEQ(st, symLin(a.len).sub(e.strLen(s)))
	return a
}

// --- maps

func (e *engine) lookup(p *path, in *ssa.Lookup) []res {
	st := p.st
	x := e.val(p, in.X)
	if s, ok := x.(*strV); ok {
		iv, ok := e.val(p, in.Index).(intV)
		if !ok {
			e.giveUp(in.Pos(), "string index")
		}
		return e.strIndex(st, s, iv.l, in.Pos())
	}
	m, ok := x.(mapV)
	if !ok {
		e.giveUp(in.Pos(), "lookup in %T", x)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	zero := e.zero(mt.Elem())
	ret := func(st *state, v value, ok bool) res {
		if in.CommaOk {
			return res{st, tupleV{v, bconst(ok)}}
		}
		return res{st, v}
	}
	if m.null {
		return []res{ret(st, zero, false)}
	}
	mo, ok := st.heap[m.o].(*mapObj)
	if !ok {
		// a map of the caller
		v := e.fresh(st, mt.Elem(), e.objName[m.o]+"[k]", 0)
		o := st.clone()
		return []res{ret(st, v, true), ret(o, zero, false)}
	}
	k := e.val(p, in.Index)
	var out []res
	cur := []*state{st}
	for i, mk := range mo.keys {
		var rest []*state
		for _, s := range cur {
			t, f := e.fork(s, e.equal(s, mk, k))
			for _, x := range t {
				out = append(out, ret(x, mo.vals[i], true))
			}
			rest = append(rest, f...)
		}
		cur = rest
	}
	for _, s := range cur {
		out = append(out, ret(s, zero, false))
	}
	return out
}

func (e *engine) mapUpdate(p *path, in *ssa.MapUpdate) []res {
	st := p.st
	m, ok := e.val(p, in.Map).(mapV)
	if !ok {
		e.giveUp(in.Pos(), "map update of %T", e.val(p, in.Map))
	}
	if m.null {
		e.mayPanic(st, in.Pos(), "write to a nil map")
		return nil
	}
	e.checkOwner(m.o, in.Pos())
	if g := e.mapGlobal[m.o]; g != nil && e.initDone {
		e.finds.add(finding{props: []string{"C20"}, rule: "writes-global", where: e.pos(in.Pos()), fn: e.curFn(), msg: "writes to the map of package variable " + g.Name(), ctx: e.ctx})
		if k, ok := e.val(p, in.Key).(*strV); ok {
			if _, ok := k.lit(); !ok {
				// every lookup would have to be compared with every name
				// ever given: what the map remembers is not followed
				e.finds.add(finding{props: others("C20"), rule: "undecided", where: e.pos(in.Pos()), fn: e.curFn(), msg: "what is kept in the map of package variable " + g.Name() + " is not followed"})
				return one(st, nil)
			}
		}
	}
	mo, ok := st.heap[m.o].(*mapObj)
	if !ok {
		return one(st, nil)
	}
	k, v := e.val(p, in.Key), e.val(p, in.Value)
	n := &mapObj{t: mo.t, keys: append([]value(nil), mo.keys...), vals: append([]value(nil), mo.vals...)}
	for i := range n.keys {
		switch e.decide(st, e.equal(st, n.keys[i], k)) {
		case 1:
			n.vals[i] = v
			st.wheap()[m.o] = n
			return one(st, nil)
		case -1:
			e.giveUp(in.Pos(), "map update with an unknown key")
		}
	}
	n.keys = append(n.keys, k)
	n.vals = append(n.vals, v)
	st.wheap()[m.o] = n
	return one(st, nil)
}

// --- ranges

func (e *engine) rangeOver(p *path, in *ssa.Range) []res {
	st := p.st
	switch x := e.val(p, in.X).(type) {
	case *strV:
		return one(st, iterV{e.alloc(st, &strIter{s: e.norm(st, x)}, "range")})
	case mapV:
		return one(st, iterV{e.alloc(st, &mapIter{m: x}, "range")})
	}
	e.giveUp(in.Pos(), "range over %T", e.val(p, in.X))
	return nil
}

func (e *engine) next(p *path, in *ssa.Next) []res {
	st := p.st
	it, ok := e.val(p, in.Iter).(iterV)
	if !ok {
		e.giveUp(in.Pos(), "next of %T", e.val(p, in.Iter))
	}
	switch x := st.heap[it.o].(type) {
	case *strIter:
		return e.nextRune(st, it.o, x, in.Pos())
	case *mapIter:
		mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		done := tupleV{bconst(false), e.zero(mt.Key()), e.zero(mt.Elem())}
		if x.m.null {
			return one(st, done)
		}
		mo, ok := st.heap[x.m.o].(*mapObj)
		if !ok {
			if e.hooks.mapNext != nil {
				return e.hooks.mapNext(st, it.o, x, mt)
			}
			e.giveUp(in.Pos(), "range over an unknown map")
		}
		if x.i >= len(mo.keys) {
			return one(st, done)
		}
		st.wheap()[it.o] = &mapIter{x.m, x.i + 1}
		return one(st, tupleV{bconst(true), mo.keys[x.i], mo.vals[x.i]})
	}
	e.giveUp(in.Pos(), "next of an unknown iterator")
	return nil
}

// others lists all properties but one.
func others(id string) (out []string) {
	for _, p := range strings.Split(allProps, ",") {
		if p != id {
			out = append(out, p)
		}
	}
	return
}
