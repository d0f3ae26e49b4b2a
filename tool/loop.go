package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loop is a natural loop.
type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	live   []ssa.Value // values live at the head, phis included
}

func findLoops(fi *fnInfo) {
	fi.loops = map[*ssa.BasicBlock]*loop{}
	for _, b := range fi.fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := fi.loops[h]
			if l == nil {
				l = &loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				fi.loops[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	if len(fi.loops) > 0 {
		liveness(fi)
	}
}

func isPure(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.Field, *ssa.FieldAddr,
		*ssa.Extract, *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.MakeClosure, *ssa.TypeAssert, *ssa.DebugRef:
		return true
	}
	return false
}

func liveness(fi *fnInfo) {
	useful := map[ssa.Instruction]bool{}
	var work []ssa.Instruction
	mark := func(in ssa.Instruction) {
		if !useful[in] {
			useful[in] = true
			work = append(work, in)
		}
	}
	for _, b := range fi.fn.Blocks {
		for _, in := range b.Instrs {
			if !isPure(in) {
				mark(in)
			}
		}
	}
	for len(work) > 0 {
		in := work[len(work)-1]
		work = work[:len(work)-1]
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if d, ok := (*op).(ssa.Instruction); ok {
				mark(d)
			}
		}
	}
	n := len(fi.fn.Blocks)
	in := make([]map[ssa.Value]bool, n)
	out := make([]map[ssa.Value]bool, n)
	for i := range in {
		in[i], out[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool { _, ok := fi.num[v]; return ok }
	for ch := true; ch; {
		ch = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			o := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					o[v] = true
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, x := range s.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						delete(o, ph)
						if useful[ph] && isVar(ph.Edges[k]) {
							o[ph.Edges[k]] = true
						}
					}
				}
			}
			i := map[ssa.Value]bool{}
			for v := range o {
				i[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					if _, phi := x.(*ssa.Phi); !phi {
						delete(i, v)
					}
				}
				if _, phi := x.(*ssa.Phi); phi || !useful[x] {
					continue
				}
				for _, op := range x.Operands(nil) {
					if *op != nil && isVar(*op) {
						i[*op] = true
					}
				}
			}
			if len(i) != len(in[bi]) || len(o) != len(out[bi]) {
				ch = true
			}
			in[bi], out[bi] = i, o
		}
	}
	for h, l := range fi.loops {
		for v := range in[h.Index] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h && !useful[ph] {
				continue
			}
			l.live = append(l.live, v)
		}
		for _, x := range h.Instrs {
			if ph, ok := x.(*ssa.Phi); ok && useful[ph] && !in[h.Index][ph] {
				l.live = append(l.live, ph)
			}
		}
		sort.Slice(l.live, func(i, j int) bool { return fi.num[l.live[i]] < fi.num[l.live[j]] })
	}
}

const maxUnroll = 40

func (p path) clone() path {
	p.fr = p.fr.clone()
	p.st = p.st.clone()
	return p
}

// loop runs a loop to its exits. A loop that does not look at the characters
// of an unknown string is followed iteration by iteration (the lists it
// handles have a known length); the others are solved as a fixpoint.
func (e *engine) loop(fi *fnInfo, l *loop, p path) (exits []path, outs []outcome) {
	e.stats.loops++
	saved := e.scanned
	defer func() { e.scanned = saved }()
	entry := p.clone()
	ex, os, ok := e.unroll(fi, l, p, saved)
	if ok {
		return ex, os
	}
	return e.fixpoint(fi, l, entry)
}

func (e *engine) unroll(fi *fnInfo, l *loop, p path, saved int) (exits []path, outs []outcome, ok bool) {
	cur := []path{p}
	total := 0
	tested := false // the loop ends at its head
	for _, b := range l.head.Succs {
		tested = tested || !l.blocks[b]
	}
	for iter := 0; len(cur) > 0; iter++ {
		var next []path
		for _, q := range cur {
			before := e.atHead(q)
			ex, os := e.region(fi, l, q)
			outs = append(outs, os...)
			atHead := false
			for _, x := range ex {
				if x.prev == l.head && !l.blocks[x.b] {
					atHead = true
				}
				if x.b == l.head {
					if e.unchanged(l, before, e.atHead(x)) {
						e.stuck(fi, l)
						continue
					}
					next = append(next, x)
				} else {
					exits = append(exits, x)
				}
			}
			// the test at the head does not depend on what was looked at if
			// it has only one outcome
			if e.scanned != saved && (!tested || atHead && len(next) > 0) {
				return nil, nil, false
			}
		}
		if e.prune > 0 && len(next) > e.prune {
			next = next[:e.prune]
		}
		total += len(next)
		if iter > e.maxIter() || total > 3000 {
			return nil, nil, false
		}
		cur = next
	}
	return exits, outs, true
}

// atHead is the path at the head of a loop, with the loop's variables set.
func (e *engine) atHead(p path) *path {
	q := p.clone()
	if q.prev != nil {
		e.phis(&q)
	}
	return &q
}

// unchanged reports that going round the loop has left everything the next
// round can depend on as it was, so that it may go round for ever.
func (e *engine) unchanged(l *loop, p, q *path) bool {
	if p.st.failed != q.st.failed || p.st.em != nil || q.st.em != nil {
		return false
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := p.fr.fi.num[ph]
		if !same(p.fr.env[k], q.fr.env[k]) {
			return false
		}
	}
	for o, v := range p.st.heap {
		if !same(v, q.st.heap[o]) {
			return false
		}
	}
	return true
}

// same reports that two values are known to be equal. Errors count as equal:
// only whether there is one can matter.
func same(a, b value) bool {
	list := func(x, y []value) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case *structV:
		y, ok := b.(*structV)
		return ok && (x == y || list(x.f, y.f))
	case tupleV:
		y, ok := b.(tupleV)
		return ok && list(x, y)
	case *arrV:
		y, ok := b.(*arrV)
		if x == y && ok {
			return true
		}
		if !ok || !x.n.eq(y.n) || x.rest != y.rest || x.rest == restUnknown || len(x.known) != len(y.known) || len(x.table) != len(y.table) {
			return false
		}
		for i, k := range x.known {
			if !k.i.eq(y.known[i].i) || !same(k.v, y.known[i].v) {
				return false
			}
		}
		for i, v := range x.table {
			if w, ok := y.table[i]; !ok || !same(v, w) {
				return false
			}
		}
		return x.rest != restSummary || same(x.sum, y.sum)
	case *mapObj:
		y, ok := b.(*mapObj)
		return ok && (x == y || list(x.keys, y.keys) && list(x.vals, y.vals))
	case errV:
		_, ok := b.(errV)
		return ok
	case werrV:
		_, ok := b.(werrV)
		return ok
	case ifaceV:
		y, ok := b.(ifaceV)
		return ok && types.Identical(x.t, y.t) && same(x.v, y.v)
	case nil:
		return b == nil
	}
	if b == nil {
		return false
	}
	return sameValue(a, b)
}

func (e *engine) stuck(fi *fnInfo, l *loop) {
	e.finds.add(finding{props: []string{"C27"}, rule: "no-progress", where: e.pos(l.pos()), fn: shortFn(fi.fn), msg: "a loop goes round without changing anything", ctx: e.ctx})
}

func (l *loop) pos() token.Pos {
	for _, in := range l.head.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	return l.head.Parent().Pos()
}

func (e *engine) maxIter() int {
	if e.unrollMax > 0 {
		return e.unrollMax
	}
	return maxUnroll
}

// disj is one disjunct of a loop invariant.
type disj struct {
	p    path
	key  string
	vals []lin
	gen  []bool
	iter int
	ex   []path
	outs []outcome
}

type fixer struct {
	e     *engine
	fi    *fnInfo
	l     *loop
	entry path
	rigid sym
	cells []objID
}

// walk visits what may change in the loop, in a fixed order: f maps every
// integer, and the description of the rest goes to key.
func (x *fixer) walk(p *path, f func(lin) lin, key *strings.Builder) {
	for _, v := range x.l.live {
		i := x.fi.num[v]
		fmt.Fprintf(key, "%s=", v.Name())
		p.fr.env[i] = x.walkVal(p.fr.env[i], f, key)
	}
	st := p.st
	var objs []objID
	for o, v := range x.entry.st.heap {
		if _, ok := v.(*strIter); ok {
			objs = append(objs, o)
		}
	}
	objs = append(objs, x.cells...)
	sort.Slice(objs, func(i, j int) bool { return objs[i] < objs[j] })
	for _, o := range objs {
		fmt.Fprintf(key, "@%d=", o)
		switch v := st.heap[o].(type) {
		case *strIter:
			n := &strIter{v.s, f(v.pos)}
			st.wheap()[o] = n
		default:
			st.wheap()[o] = x.walkVal(v, f, key)
		}
	}
	st.wlayers()
	var as []*atom
	for a := range st.layers {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		fmt.Fprintf(key, "layers %d:", a.id)
		for i, l := range st.layers[a] {
			for j, g := range l.segs {
				fmt.Fprintf(key, "%v%v%v,", g.head, g.single, g.bytes)
				g.from, g.to = f(g.from), f(g.to)
				st.layers[a][i].segs[j] = g
			}
			key.WriteByte(';')
		}
	}
	if em := st.em; em != nil {
		n := *em
		n.upto = f(n.upto)
		st.em = &n
		fmt.Fprintf(key, "em %v %v %d %d", em.on, em.bad != "", len(em.pre), len(em.post))
	}
	fmt.Fprintf(key, "pend%v failed%v x%d e%d t%d", st.pend, st.failed, len(st.xerr), len(st.errs), len(st.trace))
}

// apart keeps states apart in which an integer is ahead of, or behind, the
// number of list elements handled by another small constant.
func (x *fixer) apart(p *path, vals []lin, key *strings.Builder) {
	n, ok := p.st.heap[x.e.handled].(intV)
	if !ok || x.e.handled == 0 {
		return
	}
	for _, v := range vals {
		if d := v.sub(n.l); d.isConst() && d.c >= -3 && d.c <= 3 {
			fmt.Fprintf(key, " %d", d.c)
		} else {
			key.WriteString(" -")
		}
	}
}

func (x *fixer) walkVal(v value, f func(lin) lin, key *strings.Builder) value {
	e := x.e
	switch v := v.(type) {
	case nil:
		key.WriteString("-;")
		return v
	case intV:
		key.WriteString("i;")
		return intV{f(v.l)}
	case boolV:
		if v.k == 2 {
			if c, ok := v.c.(symCond); ok {
				fmt.Fprintf(key, "b%d%v;", c.id, v.neg)
				return v
			}
			e.giveUp(0, "a loop carries the condition %T", v.c)
		}
		fmt.Fprintf(key, "b%d;", v.k)
		return v
	case *strV:
		n := &strV{}
		for _, p := range v.p {
			switch {
			case p.a == nil:
				fmt.Fprintf(key, "%q", p.lit)
			case p.whole:
				if sym(p.a.len) > x.rigid {
					e.giveUp(0, "a loop carries a new string %s", p.a)
				}
				fmt.Fprintf(key, "a%d", p.a.id)
			default:
				if sym(p.a.len) > x.rigid {
					e.giveUp(0, "a loop carries a new string %s", p.a)
				}
				fmt.Fprintf(key, "a%d[]", p.a.id)
				p.from, p.to = f(p.from), f(p.to)
			}
			n.p = append(n.p, p)
		}
		key.WriteByte(';')
		return n
	case sliceV:
		if v.null {
			key.WriteString("nils;")
			return v
		}
		fmt.Fprintf(key, "sl%d%s;", v.o, describePath(v.path))
		v.off, v.len, v.cap = f(v.off), f(v.len), f(v.cap)
		return v
	case bytesV:
		return bytesV{x.walkVal(v.s, f, key).(*strV)}
	case *structV:
		n := *v
		n.f = append([]value(nil), v.f...)
		for i := range n.f {
			n.f[i] = x.walkVal(n.f[i], f, key)
		}
		return &n
	case tupleV:
		n := make(tupleV, len(v))
		for i := range v {
			n[i] = x.walkVal(v[i], f, key)
		}
		return n
	case ptrV:
		fmt.Fprintf(key, "p%d%s;", v.o, describePath(v.path))
		return v
	case nilV:
		key.WriteString("nil;")
		return v
	case iterV:
		fmt.Fprintf(key, "it%d;", v.o)
		return v
	case funcV:
		fmt.Fprintf(key, "f%s;", v.fn)
		return v
	case ifaceV:
		fmt.Fprintf(key, "I%s:", v.t)
		return ifaceV{v.t, x.walkVal(v.v, f, key)}
	case symIface:
		fmt.Fprintf(key, "si%d;", v.id)
		return v
	case symFunc:
		fmt.Fprintf(key, "sf%d;", v.id)
		return v
	case werrV:
		key.WriteString("werr;")
		return v
	case errV:
		fmt.Fprintf(key, "err%s;", v.pos)
		return v
	case termV:
		fmt.Fprintf(key, "t%d;", v.id)
		return v
	case opaqueV:
		fmt.Fprintf(key, "o%d;", v.id)
		return v
	case mapV:
		fmt.Fprintf(key, "m%d;", v.o)
		return v
	}
	e.giveUp(0, "a loop carries a %T", v)
	return nil
}

func (e *engine) fixpoint(fi *fnInfo, l *loop, p path) ([]path, []outcome) {
	x := &fixer{e: e, fi: fi, l: l, entry: p.clone(), rigid: sym(e.nsym)}
restart:
	var ds []*disj
	byKey := map[string]*disj{}
	var work []*disj
	entryLen := len(x.entry.st.trace)
	add := func(q path) bool {
		if len(q.st.trace) != entryLen {
			e.giveUp(l.head.Instrs[0].Pos(), "output in a loop of unknown length in %s", fi.fn)
		}
		// what else has changed?
		for o, v := range x.entry.st.heap {
			if _, ok := v.(*strIter); ok {
				continue
			}
			w := q.st.heap[o]
			if sameValue(v, w) {
				continue
			}
			known := false
			for _, c := range x.cells {
				known = known || c == o
			}
			if known {
				continue
			}
			switch v.(type) {
			case intV, boolV, *strV, sliceV:
				x.cells = append(x.cells, o)
				return false
			}
			e.giveUp(l.head.Instrs[0].Pos(), "a loop of unknown length in %s changes %s", fi.fn, e.objName[o])
		}
		e.normLayers(q.st)
		var key strings.Builder
		var vals []lin
		x.walk(&q, func(v lin) lin { vals = append(vals, v); return v }, &key)
		x.apart(&q, vals, &key)
		d := byKey[key.String()]
		if e.debug {
			e.debugLoop("  loop %s key %s vals %v new=%v\n", fi.fn.Name(), key.String(), vals, d == nil)
			for a, ls := range q.st.layers {
				for _, l := range ls {
					for _, g := range l.segs {
						e.debugLoop("     %s seg %s..%s set %s head %v single %v\n", a, g.from, g.to, e.segSet(q.st, g), g.head, g.single)
					}
				}
			}
		}
		if d == nil {
			d = &disj{p: q, key: key.String(), vals: vals, gen: make([]bool, len(vals))}
			if len(ds) > 40 {
				e.giveUp(l.head.Instrs[0].Pos(), "a loop in %s has too many kinds of states", fi.fn)
			}
			ds = append(ds, d)
			byKey[d.key] = d
			work = append(work, d)
			return true
		}
		if x.join(d, q, vals) {
			for _, w := range work {
				if w == d {
					return true
				}
			}
			work = append(work, d)
		}
		return true
	}
	q := p.clone()
	if e.inLoop == 0 {
		e.splitLayers(q.st)
	}
	e.phis(&q)
	for _, y := range x.splitBools(q) {
		if !add(y) {
			goto restart
		}
	}
	for len(work) > 0 {
		d := work[0]
		work = work[1:]
		d.iter++
		if d.iter > 25 {
			e.giveUp(l.head.Instrs[0].Pos(), "a loop in %s does not stabilise", fi.fn)
		}
		first := e.atHead(d.p)
		ex, os := func() ([]path, []outcome) {
			e.inLoop++
			defer func() { e.inLoop-- }()
			return e.region(fi, l, d.p.clone())
		}()
		d.ex, d.outs = nil, os
		var back []path
		for _, y := range ex {
			if y.b != l.head {
				d.ex = append(d.ex, y)
				continue
			}
			back = append(back, y)
		}
		for _, y := range back {
			e.phis(&y)
			if d.iter == 1 && e.unchanged(l, first, &y) {
				e.stuck(fi, l)
				continue
			}
			for _, y := range x.splitBools(y) {
				if !add(y) {
					goto restart
				}
			}
		}
	}
	var exits []path
	var outs []outcome
	for _, d := range ds {
		exits = append(exits, d.ex...)
		outs = append(outs, d.outs...)
	}
	return exits, outs
}

// splitBools decides the conditions a loop carries.
func (x *fixer) splitBools(p path) []path {
	e := x.e
	ps := []path{p}
	each := func(get func(p *path) value, set func(p *path, b boolV)) {
		var out []path
		for _, q := range ps {
			b, ok := get(&q).(boolV)
			if _, plain := b.c.(symCond); !ok || b.k != 2 || plain {
				out = append(out, q)
				continue
			}
			t, f := e.fork(q.st.clone(), b)
			for i, l := range [][]*state{t, f} {
				for _, s := range l {
					r := path{fr: q.fr.clone(), b: q.b, prev: q.prev, i: q.i, st: s}
					set(&r, bconst(i == 0))
					out = append(out, r)
				}
			}
		}
		ps = out
	}
	for _, v := range x.l.live {
		i := x.fi.num[v]
		each(func(p *path) value { return p.fr.env[i] }, func(p *path, b boolV) { p.fr.env[i] = b })
	}
	for _, o := range x.cells {
		each(func(p *path) value { return p.st.heap[o] }, func(p *path, b boolV) { p.st.wheap()[o] = b })
	}
	return ps
}

func sameValue(a, b value) bool {
	switch x := a.(type) {
	case intV:
		y, ok := b.(intV)
		return ok && x.l.eq(y.l)
	case boolV:
		y, ok := b.(boolV)
		return ok && x.k == y.k && x.neg == y.neg && fmt.Sprint(x.c) == fmt.Sprint(y.c)
	case *strV:
		y, ok := b.(*strV)
		return ok && (x == y || x.key() == y.key())
	case sliceV:
		y, ok := b.(sliceV)
		return ok && x.o == y.o && x.null == y.null && x.off.eq(y.off) && x.len.eq(y.len) && x.cap.eq(y.cap)
	case *structV, *arrV, *mapObj, *strIter, *mapIter:
		return a == b
	}
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// threshold is the least bound to widen to: one more or less than a constant
// that lives in the loop, at first, so that loops up to a constant are bounded.
func (x *fixer) threshold(d *disj, m int64) int64 {
	out := int64(inf)
	if d.iter > 4 {
		return out
	}
	for _, v := range x.l.live {
		c, ok := d.p.fr.env[x.fi.num[v]].(intV)
		if !ok || !c.l.isConst() || c.l.c < 2 {
			continue
		}
		for k := c.l.c - 1; k <= c.l.c+1; k++ {
			if m <= k && k < out {
				out = k
			}
		}
	}
	return out
}

// join widens d by the state q; it reports whether d changed.
func (x *fixer) join(d *disj, q path, vals []lin) bool {
	e := x.e
	ds, bs := d.p.st, q.st
	gen := make([]bool, len(vals))
	nvals := make([]lin, len(vals))
	changed := false
	isRigid := func(l lin) bool {
		for _, t := range l.t {
			if t.s > x.rigid {
				return false
			}
		}
		return true
	}
	for i := range vals {
		nvals[i] = d.vals[i]
		if d.gen[i] || !vals[i].eq(d.vals[i]) || !isRigid(vals[i]) {
			gen[i] = true
			if !d.gen[i] {
				changed = true
			}
		}
	}
	// bounds of the generalised values
	var rig []sym
	seen := map[sym]bool{0: true}
	for _, z := range []*zone{ds.z, bs.z} {
		for _, s := range z.syms {
			if s <= x.rigid && !seen[s] {
				seen[s] = true
				rig = append(rig, s)
			}
		}
	}
	for _, s := range rig {
		e.touch(ds, s)
		e.touch(bs, s)
	}
	type elt struct {
		d, b lin
		h    sym
		old  bool
	}
	elts := []elt{{con(0), con(0), 0, true}}
	for _, s := range rig {
		elts = append(elts, elt{symLin(s), symLin(s), s, true})
	}
	// values that keep the same distance share a symbol
	type leader struct {
		i int
		h sym
	}
	var order []int
	for i := range vals {
		if gen[i] {
			order = append(order, i)
		}
	}
	size := func(i int) int { return 4*len(vals[i].t) + len(d.vals[i].t) }
	sort.SliceStable(order, func(a, b int) bool { return size(order[a]) < size(order[b]) })
	var leaders []leader
next:
	for _, i := range order {
		for _, l := range leaders {
			r := vals[i].sub(vals[l.i])
			if r.eq(d.vals[i].sub(d.vals[l.i])) && isRigid(r) {
				nvals[i] = symLin(l.h).add(r)
				continue next
			}
		}
		h := e.newSym(false, nil)
		leaders = append(leaders, leader{i, h})
		nvals[i] = symLin(h)
		elts = append(elts, elt{d.vals[i], vals[i], h, d.gen[i]})
	}
	z := newZone()
	for _, a := range elts {
		if a.h != 0 {
			z.at(a.h)
		}
	}
	for i, a := range elts {
		for j, b := range elts {
			if i == j {
				continue
			}
			du := e.upper(ds, a.d.sub(b.d))
			if du >= inf {
				continue
			}
			bu := e.upper(bs, a.b.sub(b.b))
			m := du
			if bu > du {
				m = bu
				if a.old && b.old && d.iter > 1 {
					switch {
					case m <= -1:
						m = -1
					case m <= 0:
						m = 0
					default:
						m = x.threshold(d, m)
					}
				}
				changed = true
			}
			if m < inf {
				z.add(a.h, b.h, m)
			}
		}
	}
	n := path{fr: d.p.fr.clone(), b: d.p.b, st: ds.clone()}
	st := n.st
	st.z, st.zs = z, false
	// facts
	st.wsets()
	for s := range ds.sets {
		if s > x.rigid {
			delete(st.sets, s)
		}
	}
	for _, s := range sortedSyms(ds.sets, bs.sets) {
		if s > x.rigid {
			continue
		}
		u := e.setOf(ds, s).union(e.setOf(bs, s))
		if !u.eq(e.setOf(ds, s)) {
			changed = true
		}
		st.sets[s] = u
	}
	for s := range st.width {
		if s > x.rigid {
			delete(st.width, s)
		}
	}
	for s := range st.idxOf {
		if s > x.rigid {
			delete(st.idxOf, s)
		}
	}
	st.wbools()
	for k, v := range ds.bools {
		if w, ok := bs.bools[k]; !ok || w != v {
			delete(st.bools, k)
			changed = true
		}
	}
	st.wfacts()
	for k, v := range ds.sfacts {
		if w, ok := bs.sfacts[k]; !ok || w != v {
			delete(st.sfacts, k)
			delete(st.sargs, k)
			changed = true
		}
	}
	for k, fs := range ds.chars {
		var keep []charFact
		for _, f := range fs {
			for _, g := range bs.chars[k] {
				if f.ok == g.ok && f.first.eq(g.first) && f.rest.eq(g.rest) {
					keep = append(keep, f)
					break
				}
			}
		}
		if len(keep) != len(fs) {
			changed = true
			st.chars[k] = keep
		}
	}
	// substitute the generalised values
	k := 0
	var key strings.Builder
	x.walk(&n, func(lin) lin { v := nvals[k]; k++; return v }, &key)
	// classes of characters
	st.wlayers()
	for a := range st.layers {
		for i := range st.layers[a] {
			for j := range st.layers[a][i].segs {
				g := &st.layers[a][i].segs[j]
				u := g.set.union(bs.layers[a][i].segs[j].set)
				if !u.eq(g.set) {
					changed = true
				}
				g.set = u
				if bs.layers[a][i].segs[j].bytes != g.bytes {
					g.bytes = false
				}
			}
		}
	}
	if st.em != nil {
		m := &escMap{append([]trans(nil), st.em.out...)}
		before := m.String()
		bad := st.em.bad
		for _, t := range bs.em.out {
			m.add(t.set, t.verb, t.lit)
		}
		if bs.em.bad != "" {
			bad = bs.em.bad
		}
		if m.String() != before || bad != st.em.bad {
			changed = true
		}
		em := *st.em
		em.out, em.bad = m.m, bad
		st.em = &em
	}
	if st.lastW != bs.lastW {
		st.lastW = bs.lastW
	}
	if !changed {
		return false
	}
	d.p = n
	d.vals = nvals
	d.gen = gen
	return true
}

func sortedSyms(a, b map[sym]rset) []sym {
	m := map[sym]bool{}
	for s := range a {
		m[s] = true
	}
	for s := range b {
		m[s] = true
	}
	var out []sym
	for s := range m {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (e *engine) debugLoop(f string, a ...interface{}) {
	if e.debug {
		fmt.Printf(f, a...)
	}
}
