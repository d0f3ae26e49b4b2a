package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// transfer copies what can be reached from some values of one state into
// another, under new names, and describes it by a key: two states with the
// same key have the same behaviours. What is lost is knowledge only, so that
// the copy stands for at least what the original does.
type transfer struct {
	e        *engine
	src, dst *state
	rigid    map[int]bool // atoms (by id) and conditions (by -id) that keep their identity
	atoms    map[*atom]*strV
	atomNo   map[*atom]int
	lins     []linMap
	conds    map[int]int
	ids      map[int]int
	objs     map[objID]objID
	objNo    map[objID]int
	key      strings.Builder
	havoc    bool // strings and pointers that the model does not refer to are forgotten
	opened   bool // the node's start is written: lists kept in it no longer matter
	exact    bool // within a field that the model refers to
}
type linMap struct {
	from, to lin
	size     bool
}

func newTransfer(e *engine, src, dst *state, rigid map[int]bool) *transfer {
	return &transfer{e: e, src: src, dst: dst, rigid: rigid, atoms: map[*atom]*strV{}, atomNo: map[*atom]int{}, conds: map[int]int{}, ids: map[int]int{}, objs: map[objID]objID{}, objNo: map[objID]int{}}
}

func (t *transfer) add(f string, a ...interface{}) { fmt.Fprintf(&t.key, f, a...) }

// integer maps a number; those not generalised stay as they are.
func (t *transfer) integer(l lin, general bool) lin {
	e := t.e
	if l.isConst() && (!general || l.c <= 0) {
		t.add("%d;", l.c)
		return l
	}
	for i, x := range t.lins {
		if e.lineq(t.src, x.from, l) {
			t.add("i%d;", i)
			return x.to
		}
		if d := l.sub(x.from); d.isConst() && (!l.isConst() || d.c >= -2 && d.c <= 2) {
			t.add("i%d%+d;", i, d.c)
			return x.to.plus(d.c)
		}
	}
	if !general && len(l.t) == 1 && l.t[0].k == 1 {
		if set := e.setOf(t.src, l.t[0].s); set != nil {
			set = set.shift(l.c)
			if v, ok := set.single(); ok {
				t.add("%d;", v)
				return con(v)
			}
			n := e.newSym(false, set)
			t.lins = append(t.lins, linMap{from: l, to: symLin(n)})
			t.add("i%d%s;", len(t.lins)-1, set)
			return symLin(n)
		}
	}
	if e.decideEQ(t.src, l) == 1 {
		t.add("0;")
		return con(0)
	}
	n := e.newSym(false, nil)
	e.touch(t.dst, n)
	to := symLin(n)
	switch {
	case e.decideLE(t.src, l.mul(-1).plus(1)) == 1:
		e.assumeLE(t.dst, to.mul(-1).plus(1))
		t.add("i%d>=1;", len(t.lins))
	case e.decideLE(t.src, l.mul(-1)) == 1:
		e.assumeLE(t.dst, to.mul(-1))
		t.add("i%d>=0;", len(t.lins))
	default:
		t.add("i%d;", len(t.lins))
	}
	t.lins = append(t.lins, linMap{from: l, to: to})
	return to
}

// relate keeps an inequality a+c <= b between two numbers.
func (t *transfer) relate(a, b lin, na, nb lin, c int64) {
	if t.e.decideLE(t.src, a.sub(b).plus(c)) == 1 {
		t.e.assumeLE(t.dst, na.sub(nb).plus(c))
		t.add("R%d;", c)
	} else {
		t.add("-;")
	}
}

func (t *transfer) atom(a *atom) *strV {
	if s, ok := t.atoms[a]; ok {
		if n, ok := t.atomNo[a]; ok {
			t.add("a%d", n)
		} else {
			t.add("e")
		}
		return s
	}
	e := t.e
	if t.rigid[a.id] {
		t.atoms[a] = satom(a)
		t.atomNo[a] = len(t.atomNo)
		t.add("r%d", a.id)
		return t.atoms[a]
	}
	if a.alias != nil {
		s := t.str(a.alias)
		t.atoms[a] = s
		return s
	}
	if e.decideLE(t.src, symLin(a.len)) == 1 {
		t.atoms[a] = slit("")
		t.add("e")
		return t.atoms[a]
	}
	n := e.newAtom(a.name)
	n.how = a.how
	if a.wrap != nil {
		e.giveUp(0, "a derived string (%s) is kept in the writer", a)
	}
	t.atoms[a] = satom(n)
	t.atomNo[a] = len(t.atomNo)
	t.add("a%d", t.atomNo[a])
	if e.decideLE(t.src, symLin(a.len).mul(-1).plus(1)) == 1 {
		e.touch(t.dst, n.len)
		e.assumeLE(t.dst, symLin(n.len).mul(-1).plus(1))
		t.add("+")
	}
	return t.atoms[a]
}

func (t *transfer) str(s *strV) *strV {
	if a := s.atom(); a != nil && t.rigid[a.id] {
		return t.atom(a)
	}
	s = t.e.norm(t.src, s)
	if t.havoc && !t.exact && !t.mapped(s) {
		// what it is no longer matters
		t.add("h;")
		return satom(t.e.newAtom("past"))
	}
	out := slit("")
	t.add("(")
	for _, p := range s.p {
		switch {
		case p.a == nil:
			t.add("%q", p.lit)
			out = out.concat(slit(p.lit))
		case p.whole:
			out = out.concat(t.atom(p.a))
		default:
			// some unknown string
			n := t.e.newAtom(p.a.name + "[:]")
			t.add("p%d", n.id)
			out = out.concat(satom(n))
		}
	}
	t.add(")")
	return out
}

// mapped reports whether the model refers to a string.
func (t *transfer) mapped(s *strV) bool {
	if len(s.p) == 0 {
		return false
	}
	for _, p := range s.p {
		if p.a == nil {
			return true
		}
		if _, ok := t.atoms[p.a]; ok {
			return true
		}
	}
	return false
}

// past is an unknown value of the code's own.
func (t *transfer) past(typ types.Type) value {
	e := t.e
	tc := e.trackCaller
	e.trackCaller = false
	first := e.nobj
	v := e.fresh(t.dst, typ, "past", 0)
	e.trackCaller = tc
	for i := first + 1; i <= e.nobj; i++ {
		delete(e.caller, objID(i))
	}
	t.add("h;")
	return v
}

func (t *transfer) boolean(b boolV) boolV {
	if d := t.e.decide(t.src, b); d >= 0 {
		if c, ok := b.c.(symCond); b.k != 2 || !ok || !t.rigid[-c.id] {
			t.add("b%d;", d)
			return bconst(d == 1)
		}
	}
	c, ok := b.c.(symCond)
	if !ok {
		n := t.e.id()
		t.add("B%d;", n)
		return bcond(symCond{n, "?"})
	}
	id := c.id
	if !t.rigid[-id] {
		n, ok := t.conds[id]
		if !ok {
			n = t.e.id()
			t.conds[id] = n
			t.ids[-id] = len(t.conds)
		}
		t.add("c%d%v;", t.ids[-id], b.neg)
		id = n
	} else {
		t.add("C%d%v;", id, b.neg)
	}
	r := bcond(symCond{id, c.name})
	if b.neg {
		r = r.not()
	}
	return r
}

func (t *transfer) obj(o objID, typ types.Type) objID {
	if g := t.e.global[o]; g != nil {
		t.add("G%s;", g.Name())
		return o
	}
	if n, ok := t.objs[o]; ok {
		t.add("o%d;", t.objNo[o])
		return n
	}
	t.e.nobj++
	n := objID(t.e.nobj)
	t.objs[o] = n
	t.objNo[o] = len(t.objs)
	t.e.objName[n] = t.e.objName[o]
	if t.e.caller[o] {
		t.e.caller[n] = true
	}
	t.add("O%d=", t.objNo[o])
	v := t.value(t.src.heap[o], typ)
	t.dst.wheap()[n] = v
	return n
}

func plainInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (t *transfer) value(v value, typ types.Type) value {
	e := t.e
	switch v := v.(type) {
	case intV:
		return intV{t.integer(v.l, typ != nil && plainInt(typ))}
	case boolV:
		return t.boolean(v)
	case *strV:
		return t.str(v)
	case nilV:
		t.add("nil;")
		return v
	case *structV:
		n := *v
		n.f = make([]value, len(v.f))
		t.add("{")
		old := t.havoc
		for i := range v.f {
			f := v.t.Field(i)
			if _, ok := v.f[i].(boolV); ok && old && f.Exported() && f.Name() != "Full" {
				n.f[i] = t.past(f.Type())
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Pointer); ok && old && f.Exported() {
				n.f[i] = t.past(f.Type())
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Slice); ok && old && t.opened {
				if sv, ok := v.f[i].(sliceV); ok && !sv.null {
					n.f[i] = t.past(f.Type())
					continue
				}
			}
			_, sub := f.Type().Underlying().(*types.Struct)
			_, slice := f.Type().Underlying().(*types.Slice)
			t.havoc = old && (f.Exported() || sub) && !slice
			t.exact = old && (f.Name() == "Name" || f.Name() == "Prefix" || f.Name() == "Content" && !t.opened)
			n.f[i] = t.value(v.f[i], f.Type())
		}
		t.havoc, t.exact = old, false
		t.add("}")
		return &n
	case ptrV:
		if v.sid != 0 {
			switch e.decide(t.src, e.isNil(t.src, v)) {
			case 1:
				t.add("nil;")
				return nilV{}
			case 0:
				v.sid = 0
			default:
				id, ok := t.ids[v.sid]
				if !ok {
					id = e.id()
					e.names[id] = e.names[v.sid]
					t.ids[v.sid] = id
				}
				t.add("?")
				v.sid = id
			}
		}
		t.add("&")
		if len(v.path) > 0 {
			e.giveUp(0, "a pointer into an object (%s%s) is kept", e.objName[v.o], describePath(v.path))
		}
		var et types.Type
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		v.o = t.obj(v.o, et)
		return v
	case sliceV:
		if v.null {
			t.add("null;")
			return v
		}
		n := v
		t.add("[")
		n.off = t.integer(v.off, false)
		n.len = t.integer(v.len, false)
		n.cap = t.integer(v.cap, false)
		t.relate(v.len, v.cap, n.len, n.cap, 0)
		n.o = t.obj(v.o, typ)
		return n
	case *arrV:
		n := *v
		t.add("arr%d<", v.rest)
		n.n = t.integer(v.n, false)
		if v.table != nil {
			n.table = map[int64]value{}
			var ks []int64
			for k := range v.table {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
			for _, k := range ks {
				t.add("%d:", k)
				n.table[k] = t.value(v.table[k], v.elem)
			}
		}
		n.known = nil
		for _, k := range v.known {
			i := t.integer(k.i, false)
			n.known = append(n.known, arrElem{i, t.value(k.v, v.elem)})
		}
		if v.sum != nil {
			e.giveUp(0, "a summarised array is kept")
		}
		t.add(">")
		return &n
	case ifaceV:
		t.add("I%s=", v.t)
		return ifaceV{v.t, t.value(v.v, v.t)}
	case symIface:
		if ty, ok := t.src.dyn[v.id]; ok && !t.rigid[-v.id] {
			t.add("I%s=", ty)
			return ifaceV{ty, t.value(e.dynValue(t.src, v, ty), ty)}
		}
		t.add("S%d;", v.id)
		return v
	case funcV, builtinV, symFunc, termV:
		k, ok := constKey(v)
		if !ok {
			k = fmt.Sprintf("%T%d", v, valueID(v))
		}
		t.add("%s;", k)
		return v
	case mapV:
		if v.null {
			t.add("nil;")
			return v
		}
		if g := e.mapGlobal[v.o]; g != nil {
			t.add("M%s;", g.Name())
			return v
		}
		if mo, ok := t.src.heap[v.o].(*mapObj); ok {
			n := &mapObj{t: mo.t}
			t.add("map{")
			for i := range mo.keys {
				n.keys = append(n.keys, t.value(mo.keys[i], mo.t.Key()))
				n.vals = append(n.vals, t.value(mo.vals[i], mo.t.Elem()))
			}
			t.add("}")
			return mapV{o: e.alloc(t.dst, n, e.objName[v.o])}
		}
	case nil:
		t.add("-;")
		return v
	case opaqueV:
		t.add("opaque%d;", v.id)
		return v
	case errV, werrV, xerrV:
		// an error that is kept: a new one of no known origin
		t.add("err;")
		return nilV{}
	}
	e.giveUp(0, "a %T is kept in the writer", v)
	return nil
}

// facts carries over what is known of the strings copied.
func (t *transfer) facts() {
	e := t.e
	conv := func(s *strV) (*strV, string, bool) {
		out, k := slit(""), ""
		free := false
		for _, p := range s.p {
			if p.a == nil {
				out = out.concat(slit(p.lit))
				k += fmt.Sprintf("%q", p.lit)
				continue
			}
			m, ok := t.atoms[p.a]
			if !ok || !p.whole {
				return nil, "", false
			}
			if n, ok := t.atomNo[p.a]; ok {
				k += fmt.Sprintf("a%d", n)
			}
			free = free || !t.rigid[p.a.id]
			out = out.concat(m)
		}
		return out, k, free
	}
	var fs []string
	var ks []string
	for k := range t.src.chars {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s, sk, ok := conv(t.src.cargs[k])
		if !ok {
			continue
		}
		for _, f := range t.src.chars[k] {
			if !f.ok || f.weak {
				continue
			}
			if e.charAssume(t.dst, s, f) {
				fs = append(fs, fmt.Sprintf("F%s in %s/%s;", sk, f.first, f.rest))
			}
		}
	}
	ks = nil
	for k := range t.src.sfacts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !strings.HasPrefix(k, "eq\x00") {
			continue
		}
		ab := t.src.sargs[k]
		a, ka, ok1 := conv(ab[0])
		b, kb, ok2 := conv(ab[1])
		if !ok1 || !ok2 {
			continue
		}
		if ka > kb {
			ka, kb = kb, ka
		}
		want := t.src.sfacts[k]
		if e.decide(t.dst, bcond(strEq{a, b})) >= 0 {
			continue
		}
		if sts := e.assume(t.dst, bcond(strEq{a, b}), want); len(sts) == 1 && sts[0] == t.dst {
			fs = append(fs, fmt.Sprintf("E%s%s%v;", ka, kb, want))
		}
	}
	sort.Strings(fs)
	for i, f := range fs {
		if i == 0 || fs[i-1] != f {
			t.key.WriteString(f)
		}
	}
}

// --- the model's side

func (t *transfer) node(n *mnode, all bool) *mnode {
	if n == nil {
		return nil
	}
	m := &mnode{kind: n.kind, f: map[string]value{}}
	t.add("N%s", n.kind)
	var ks []string
	for k := range n.f {
		if all || k == "Name" || k == "Prefix" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		t.add("%s=", k)
		m.f[k] = t.value(n.f[k], types.Typ[types.UntypedNil])
	}
	if all {
		m.attrs = t.nodes(n.attrs)
		m.content = t.nodes(n.content)
	}
	return m
}
func (t *transfer) nodes(ns []*mnode) []*mnode {
	var out []*mnode
	t.add("[")
	for _, n := range ns {
		out = append(out, t.node(n, true))
	}
	t.add("]")
	return out
}

func (t *transfer) gcell(c *gcell) *gcell {
	n := &gcell{kind: c.kind, opened: c.opened}
	t.add("cell %s %v ", c.kind, c.opened)
	n.children = t.integer(c.children, true)
	n.n = t.node(c.n, false)
	n.full = t.boolean(c.full)
	if !c.opened {
		for _, x := range c.ns {
			t.add("ns%v", x.written)
			n.ns = append(n.ns, gns{t.str(x.prefix), t.str(x.uri), x.written})
		}
		if c.text != nil {
			n.text = t.str(c.text)
		}
	}
	n.attrs = t.nodes(c.attrs)
	n.content = t.nodes(c.content)
	return n
}
