package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// event is something an observer of the writer can see.
type event struct {
	kind       evKind
	s          *strV   // evOut, evEsc
	m          *escMap // evEsc
	last, next value   // evIndent
	what       string  // evCall
	args       []value // evCall
	dst        int     // the buffer written to
	pos        string
	fn         string
}
type evKind int

const (
	evOut evKind = iota
	evEsc
	evIndent
	evFlush
	evCall
)

// hooks let an analysis decide what unknown callees do.
type hooks struct {
	stackElem func(st *state, o objID, path []sel, a *arrV, idx lin, pos token.Pos) []res
	mapNext   func(st *state, o objID, it *mapIter, mt *types.Map) []res
	invoke    func(st *state, recv value, m *types.Func, args []value, pos token.Pos) ([]res, bool)
	call      func(st *state, fn *ssa.Function, args []value, pos token.Pos) ([]res, bool)
	dynCall   func(st *state, fn value, args []value, sig *types.Signature, pos token.Pos) ([]res, bool)
}

type invokeV struct {
	recv value
	m    *types.Func
	t    types.Type
}

func (e *engine) callee(p *path, c *ssa.CallCommon) (value, []value) {
	var args []value
	for _, a := range c.Args {
		args = append(args, e.val(p, a))
	}
	if c.IsInvoke() {
		return invokeV{e.val(p, c.Value), c.Method, c.Value.Type()}, args
	}
	return e.val(p, c.Value), args
}

func (e *engine) call(p *path, c *ssa.CallCommon, pos token.Pos, in ssa.Value) ([]res, []outcome) {
	fn, args := e.callee(p, c)
	return e.callValue(p, p.st, c, fn, args, pos, in)
}

func (e *engine) callValue(p *path, st *state, c *ssa.CallCommon, fn value, args []value, pos token.Pos, in ssa.Value) ([]res, []outcome) {
	switch f := fn.(type) {
	case builtinV:
		return e.builtin(p, st, f.b, c, args, pos), nil
	case funcV:
		return e.callStatic(st, f.fn, args, f.bind, pos)
	case invokeV:
		return e.invoke(st, f, args, pos)
	case symFunc:
		if e.hooks.dynCall != nil {
			if rs, ok := e.hooks.dynCall(st, fn, args, c.Signature(), pos); ok {
				return rs, nil
			}
		}
		return one(st, e.fresh(st, c.Signature().Results(), f.name+"()", 0)), nil
	case nilV:
		e.mayPanic(st, pos, "call of a nil function")
		return nil, nil
	}
	if e.hooks.dynCall != nil {
		if rs, ok := e.hooks.dynCall(st, fn, args, c.Signature(), pos); ok {
			return rs, nil
		}
	}
	e.giveUp(pos, "call of %T", fn)
	return nil, nil
}

func (e *engine) callStatic(st *state, fn *ssa.Function, args, bind []value, pos token.Pos) ([]res, []outcome) {
	if e.hooks.call != nil {
		if rs, ok := e.hooks.call(st, fn, args, pos); ok {
			return rs, nil
		}
	}
	name := e.fnName(fn)
	if fn.Blocks == nil || fn.Pkg != nil && e.ld.pkgs[fn.Pkg.Pkg.Path()] == nil {
		if sn := stubNames[name]; sn != "" {
			if allLit(args) {
				if r, ok := e.extern(st, fn, name, args, pos); ok {
					return r, nil
				}
			}
			fn = e.ld.pkgs[stubPath].Func(sn)
		} else {
			r, ok := e.extern(st, fn, name, args, pos)
			if !ok {
				r, ok = e.newText(st, fn, name, args)
			}
			if !ok {
				if e.lenient {
					return e.externCall(st, fn, name, args, pos), nil
				}
				e.giveUp(pos, "call of %s, which is not modelled", name)
			}
			return r, nil
		}
	}
	if rs, os, ok := e.summarised(st, fn, args, bind, pos); ok {
		return rs, os
	}
	return e.results(e.callFn(st, fn, args, bind, pos))
}

func (e *engine) results(outs []outcome) (rs []res, pan []outcome) {
	for _, o := range outs {
		if o.panic {
			pan = append(pan, o)
			continue
		}
		rs = append(rs, res{o.st, o.ret})
	}
	return
}

func allLit(args []value) bool {
	for _, a := range args {
		if s, ok := a.(*strV); ok {
			if _, ok := s.lit(); !ok {
				return false
			}
		}
	}
	return true
}

func (e *engine) invoke(st *state, f invokeV, args []value, pos token.Pos) ([]res, []outcome) {
	if e.hooks.invoke != nil {
		if rs, ok := e.hooks.invoke(st, f.recv, f.m, args, pos); ok {
			return rs, nil
		}
	}
	switch r := f.recv.(type) {
	case ifaceV:
		m := e.ld.prog.LookupMethod(r.t, f.m.Pkg(), f.m.Name())
		if m == nil {
			e.giveUp(pos, "no method %s on %s", f.m.Name(), r.t)
		}
		return e.callStatic(st, m, append([]value{r.v}, args...), nil, pos)
	case nilV:
		e.mayPanic(st, pos, "method call on a nil interface")
		return nil, nil
	case errV, werrV, xerrV:
		if f.m.Name() == "Error" {
			a := e.newAtom("err.Error()")
			a.how, a.args = "error.Error", []value{f.recv}
			return one(st, satom(a)), nil
		}
	case symIface:
		c := e.isNil(st, r)
		if e.decide(st, c) != 0 && !e.noNilIface {
			e.mayPanic(st, pos, "method call on "+r.name+", which may be nil")
		}
		var out []res
		for _, s := range e.assume(st, c, false) {
			out = append(out, e.unknownCall(s, r.name+"."+f.m.Name(), append([]value{r}, args...), f.m.Type().(*types.Signature).Results(), pos)...)
		}
		return out, nil
	case termV, opaqueV:
		return e.unknownCall(st, "?."+f.m.Name(), append([]value{r}, args...), f.m.Type().(*types.Signature).Results(), pos), nil
	}
	e.giveUp(pos, "method %s of %T", f.m.Name(), f.recv)
	return nil, nil
}

// unknownCall records a call whose effect is not known.
func (e *engine) unknownCall(st *state, what string, args []value, results *types.Tuple, pos token.Pos) []res {
	st.trace = append(st.trace, event{kind: evCall, what: what, args: args, pos: e.pos(pos), fn: e.curFn()})
	mk := func(t types.Type) value {
		if isError(t) {
			return xerrV{e.id(), what}
		}
		if types.IsInterface(t) || isPtr(t) {
			return termV{id: e.id(), what: what, args: args, t: t}
		}
		return e.fresh(st, t, what, 0)
	}
	switch results.Len() {
	case 0:
		return one(st, tupleV{})
	case 1:
		return one(st, mk(results.At(0).Type()))
	}
	var tv tupleV
	for i := 0; i < results.Len(); i++ {
		tv = append(tv, mk(results.At(i).Type()))
	}
	return one(st, tv)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *engine) externCall(st *state, fn *ssa.Function, name string, args []value, pos token.Pos) []res {
	return e.unknownCall(st, name, args, fn.Signature.Results(), pos)
}

// --- builtins

func (e *engine) builtin(p *path, st *state, b *ssa.Builtin, c *ssa.CallCommon, args []value, pos token.Pos) []res {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *strV:
			return one(st, intV{e.strLen(x)})
		case sliceV:
			return one(st, intV{x.len})
		case bytesV:
			return one(st, intV{e.strLen(x.s)})
		case *arrV:
			return one(st, intV{x.n})
		case ptrV:
			return one(st, intV{e.peekArr(st, x, pos).n})
		case mapV:
			if x.null {
				return one(st, intV{})
			}
			if mo, ok := st.heap[x.o].(*mapObj); ok {
				return one(st, intV{con(int64(len(mo.keys)))})
			}
		case nilV:
			return one(st, intV{})
		}
		return one(st, intV{symLin(e.newSym(true, nil))})
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return one(st, intV{x.cap})
		case bytesV:
			return one(st, intV{e.strLen(x.s)})
		case *arrV:
			return one(st, intV{x.n})
		}
		return one(st, intV{symLin(e.newSym(true, nil))})
	case "append":
		return e.appendTo(st, args[0], args[1], c, pos)
	case "copy":
		return e.copyTo(st, args[0], args[1], pos)
	case "ssa:wrapnilchk":
		_, sts := e.deref(st, args[0], pos)
		var out []res
		for _, s := range sts {
			out = append(out, res{s, args[0]})
		}
		return out
	case "print", "println":
		return one(st, tupleV{})
	case "recover":
		return one(st, nilV{})
	case "delete", "clear":
		e.giveUp(pos, "builtin %s", b.Name())
	case "min", "max":
		if len(args) == 2 {
			x, ok1 := args[0].(intV)
			y, ok2 := args[1].(intV)
			if ok1 && ok2 {
				t, f := e.fork(st, bcond(linCond{x.l.sub(y.l), true}))
				if b.Name() == "max" {
					x, y = y, x
				}
				var out []res
				for _, s := range t {
					out = append(out, res{s, x})
				}
				for _, s := range f {
					out = append(out, res{s, y})
				}
				return out
			}
		}
	}
	e.giveUp(pos, "builtin %s", b.Name())
	return nil
}

// elemsOf lists the elements of a slice of known length.
func (e *engine) elemsOf(st *state, v value, pos token.Pos) ([]value, bool) {
	switch x := v.(type) {
	case sliceV:
		if x.null {
			return nil, true
		}
		if !x.len.isConst() || x.len.c > 4096 {
			return nil, false
		}
		var out []value
		for i := int64(0); i < x.len.c; i++ {
			np := append(append([]sel(nil), x.path...), sel{field: -1, idx: x.off.plus(i)})
			rs := e.load(st, ptrV{o: x.o, path: np}, nil, pos)
			if len(rs) != 1 || rs[0].st != st {
				return nil, false
			}
			out = append(out, rs[0].v)
		}
		return out, true
	case nilV:
		return nil, true
	case *strV:
		if l, ok := x.lit(); ok {
			var out []value
			for i := 0; i < len(l); i++ {
				out = append(out, intV{con(int64(l[i]))})
			}
			return out, true
		}
	case bytesV:
		return e.elemsOf(st, x.s, pos)
	}
	return nil, false
}

func (e *engine) appendTo(st *state, dst, src value, c *ssa.CallCommon, pos token.Pos) []res {
	if sv, ok := src.(sliceV); ok && sv.null {
		return one(st, dst)
	}
	if _, ok := src.(nilV); ok {
		return one(st, dst)
	}
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	elems, ok := e.elemsOf(st, src, pos)
	if !ok {
		// text
		if b, isb := el.Underlying().(*types.Basic); isb && b.Kind() == types.Uint8 {
			if x, y := e.bytesText(st, dst), e.bytesText(st, src); x != nil && y != nil {
				return one(st, bytesV{x.concat(y)})
			}
		}
		e.giveUp(pos, "append of a slice of unknown length")
	}
	if bv, isb := dst.(bytesV); isb {
		if _, known := bv.s.lit(); !known {
			if y := e.bytesText(st, src); y != nil {
				return one(st, bytesV{bv.s.concat(y)})
			}
			if len(elems) == 1 {
				var out []res
				for _, r := range e.oneChar(st, elems[0], true, pos) {
					out = append(out, res{r.st, bytesV{bv.s.concat(r.v.(*strV))}})
				}
				return out
			}
		}
	}
	if len(elems) == 0 {
		return one(st, dst)
	}
	d, ok := dst.(sliceV)
	if bv, isb := dst.(bytesV); isb {
		bs, ok2 := e.elemsOf(st, bv, pos)
		if !ok2 {
			e.giveUp(pos, "append to bytes")
		}
		elems = append(append([]value(nil), bs...), elems...)
		d, ok = sliceV{null: true}, true
	}
	if !ok {
		e.giveUp(pos, "append to %T", dst)
	}
	k := int64(len(elems))
	alloc := func(s *state) res {
		// a new array
		cp := e.newSym(true, nil)
		nl := d.len.plus(k)
		if d.null {
			nl = con(k)
		}
		e.assumeLE(s, nl.sub(symLin(cp)))
		a := &arrV{elem: el, n: symLin(cp), rest: restZero, table: map[int64]value{}}
		if !d.null {
			old, ok := e.peek(s, d.o, d.path).(*arrV)
			if !ok {
				e.giveUp(pos, "append to a slice of %T", s.heap[d.o])
			}
			if old.table != nil && len(old.known) == 0 && old.rest == restZero && d.len.isConst() && d.off.isConst() {
				for i, v := range old.table {
					if i >= d.off.c && i < d.off.c+d.len.c {
						a.table[i-d.off.c] = v
					}
				}
			} else {
				a.table = nil
				a.rest = old.rest
				for i, v := range old.table {
					a.known = append(a.known, arrElem{con(i).sub(d.off), v})
				}
				sort.Slice(a.known, func(i, j int) bool { return a.known[i].i.c < a.known[j].i.c })
				for _, x := range old.known {
					a.known = append(a.known, arrElem{x.i.sub(d.off), x.v})
				}
			}
		}
		o := e.alloc(s, a, "append")
		if !d.null {
			e.objName[o] = e.objName[d.o]
		}
		n := sliceV{o: o, len: nl, cap: symLin(cp)}
		cur := []*state{s}
		for i, v := range elems {
			at := con(int64(i))
			if !d.null {
				at = d.len.plus(int64(i))
			}
			var nx []*state
			for _, c := range cur {
				nx = append(nx, e.store(c, ptrV{o: o, path: []sel{{field: -1, idx: at}}}, v, pos)...)
			}
			cur = nx
		}
		if len(cur) != 1 {
			e.giveUp(pos, "append forks")
		}
		return res{cur[0], n}
	}
	if d.null {
		return []res{alloc(st)}
	}
	var out []res
	fits, not := e.fork(st, bcond(linCond{d.len.plus(k).sub(d.cap), true}))
	for _, s := range not {
		out = append(out, alloc(s))
	}
	for _, s := range fits {
		cur := []*state{s}
		for i, v := range elems {
			np := append(append([]sel(nil), d.path...), sel{field: -1, idx: d.off.add(d.len).plus(int64(i))})
			var nx []*state
			for _, c := range cur {
				nx = append(nx, e.store(c, ptrV{o: d.o, path: np}, v, pos)...)
			}
			cur = nx
		}
		n := d
		n.len = d.len.plus(k)
		for _, c := range cur {
			out = append(out, res{c, n})
		}
	}
	return out
}

func (e *engine) copyTo(st *state, dst, src value, pos token.Pos) []res {
	d, ok := dst.(sliceV)
	if !ok {
		e.giveUp(pos, "copy to %T", dst)
	}
	elems, ok := e.elemsOf(st, src, pos)
	if s, isS := src.(sliceV); !ok && isS && !d.null && !s.null && len(d.path) == 0 && len(s.path) == 0 && e.linle(st, s.len, d.len) && e.lineq(st, d.off, con(0)) && e.lineq(st, s.off, con(0)) {
		// a whole array moves
		e.checkOwner(d.o, pos)
		from, ok1 := st.heap[s.o].(*arrV)
		to, ok2 := st.heap[d.o].(*arrV)
		if ok1 && ok2 && to.rest == restZero && len(to.known) == 0 && len(to.table) == 0 {
			n := *from
			n.n = to.n
			st.wheap()[d.o] = &n
			return one(st, intV{s.len})
		}
	}
	if !ok || d.null && len(elems) > 0 {
		e.giveUp(pos, "copy")
	}
	if !d.len.isConst() {
		if !e.linle(st, con(int64(len(elems))), d.len) {
			e.giveUp(pos, "copy to a slice of unknown length")
		}
	} else if int64(len(elems)) > d.len.c {
		elems = elems[:d.len.c]
	}
	cur := []*state{st}
	for i, v := range elems {
		np := append(append([]sel(nil), d.path...), sel{field: -1, idx: d.off.plus(int64(i))})
		var nx []*state
		for _, c := range cur {
			nx = append(nx, e.store(c, ptrV{o: d.o, path: np}, v, pos)...)
		}
		cur = nx
	}
	var out []res
	for _, c := range cur {
		out = append(out, res{c, intV{con(int64(len(elems)))}})
	}
	return out
}

// --- type assertions

func (e *engine) typeAssert(p *path, in *ssa.TypeAssert) ([]res, []outcome) {
	st := p.st
	x := e.val(p, in.X)
	t := in.AssertedType
	ret := func(s *state, v value, ok bool) []res {
		if in.CommaOk {
			return one(s, tupleV{v, bconst(ok)})
		}
		if !ok {
			e.mayPanic(s, in.Pos(), "type assertion to "+t.String())
			return nil
		}
		return one(s, v)
	}
	zero := e.zero(t)
	switch v := x.(type) {
	case nilV:
		return ret(st, zero, false), nil
	case ifaceV:
		if it, ok := t.Underlying().(*types.Interface); ok {
			if types.Implements(v.t, it) {
				return ret(st, v, true), nil
			}
			return ret(st, zero, false), nil
		}
		if types.Identical(v.t, t) {
			return ret(st, v.v, true), nil
		}
		return ret(st, zero, false), nil
	case symIface:
		if it, ok := t.Underlying().(*types.Interface); ok {
			if xi, ok := v.t.Underlying().(*types.Interface); ok && types.Implements(xi, it) {
				var out []res
				nn, nl := e.fork(st, e.isNil(st, v).not())
				for _, s := range nn {
					out = append(out, ret(s, v, true)...)
				}
				for _, s := range nl {
					out = append(out, ret(s, zero, false)...)
				}
				return out, nil
			}
		}
		yes, no := e.fork(st, bcond(dynCond{v.id, t}))
		var out []res
		for _, s := range yes {
			out = append(out, ret(s, e.dynValue(s, v, t), true)...)
		}
		for _, s := range no {
			out = append(out, ret(s, zero, false)...)
		}
		return out, nil
	case errV, werrV, xerrV, termV, opaqueV:
		c := bcond(dynCond{valueID(v), t})
		yes, no := e.fork(st, c)
		var out []res
		for _, s := range yes {
			out = append(out, ret(s, e.fresh(s, t, "asserted", 0), true)...)
		}
		for _, s := range no {
			out = append(out, ret(s, zero, false)...)
		}
		return out, nil
	}
	e.giveUp(in.Pos(), "type assertion on %T", x)
	return nil, nil
}

func valueID(v value) int {
	switch v := v.(type) {
	case errV:
		return v.id
	case werrV:
		return v.id
	case xerrV:
		return v.id
	case termV:
		return v.id
	case opaqueV:
		return v.id
	case symIface:
		return v.id
	}
	return 0
}

// dynValue is the value of type t in a symbolic interface; always the same.
func (e *engine) dynValue(st *state, v symIface, t types.Type) value {
	k := fmt.Sprintf("%d:%s", v.id, t)
	if x, ok := e.dynVals[k]; ok {
		return x
	}
	x := e.fresh(st, t, v.name, v.id)
	e.dynVals[k] = x
	return x
}

// --- output

// write records output to the buffer.
func (e *engine) write(st *state, dst value, s *strV, pos token.Pos) value {
	s = e.norm(st, s)
	id := valueID(dst)
	if len(s.p) > 0 {
		if !e.emit(st, s) {
			st.trace = append(st.trace, event{kind: evOut, s: s, dst: id, pos: e.pos(pos), fn: e.curFn()})
		}
		st.lastW = e.id()
		st.pend = true
	}
	return werrV{st.lastW}
}

func (e *engine) writeBytes(st *state, v value, pos token.Pos) *strV {
	switch b := v.(type) {
	case bytesV:
		return b.s
	case sliceV:
		if b.null {
			return slit("")
		}
		if s := e.bytesContent(st, b); s != nil {
			return s
		}
		if gv, ok := st.heap[b.o].(*arrV); ok && gv.rest == restZero && b.len.isConst() && b.len.c == 0 {
			return slit("")
		}
	case nilV:
		return slit("")
	}
	e.giveUp(pos, "write of unknown bytes")
	return nil
}

func intStr(l lin) (string, bool) {
	if l.isConst() {
		return fmt.Sprint(l.c), true
	}
	return "", false
}

// newErr makes a validation error.
func (e *engine) newErr(st *state, what string, args []value, pos token.Pos) value {
	for _, a := range args {
		x := a
		if i, ok := x.(ifaceV); ok {
			x = i.v
		}
		switch x := x.(type) {
		case werrV, xerrV, errV:
			// it passes on another error
			return errV{id: e.id(), pos: e.pos(pos), what: what, wraps: x}
		}
	}
	v := errV{id: e.id(), pos: e.pos(pos), what: what}
	st.errs = append(st.errs, v)
	return v
}

func (e *engine) varargs(st *state, v value, pos token.Pos) []value {
	x, ok := e.elemsOf(st, v, pos)
	if !ok {
		return nil
	}
	return x
}

// extern models a library function. false: not modelled.
func (e *engine) extern(st *state, fn *ssa.Function, name string, args []value, pos token.Pos) ([]res, bool) {
	str := func(i int) *strV {
		if s, ok := args[i].(*strV); ok {
			return s
		}
		if b, ok := args[i].(bytesV); ok {
			return b.s
		}
		e.giveUp(pos, "argument %d of %s is %T", i, name, args[i])
		return nil
	}
	lits := make([]string, len(args))
	all := len(args) > 0
	for i, a := range args {
		if s, ok := a.(*strV); ok {
			l, ok := s.lit()
			lits[i] = l
			all = all && ok
		} else {
			all = false
		}
	}
	derived := func(how string, from *strV) []res {
		from = e.norm(st, from)
		k := how + "(" + from.key() + ")"
		a := e.aliases[k]
		if a == nil {
			a = e.newAtom(how + "(" + from.String() + ")")
			a.how, a.wrap = how, from
			e.aliases[k] = a
		}
		return one(st, satom(a))
	}
	has := func(op string, a, b *strV) ([]res, bool) {
		return one(st, bcond(strHas{op, a, b})), true
	}
	indexOf := func(a, b *strV) ([]res, bool) {
		la, ok1 := a.lit()
		lb, ok2 := b.lit()
		if ok1 && ok2 {
			return one(st, intV{con(int64(strings.Index(la, lb)))}), true
		}
		x := e.newSym(false, nil)
		e.touch(st, x)
		st.wz().add(0, x, 1)
		e.assumeLE(st, symLin(x).sub(e.strLen(a)).plus(1))
		switch e.hasDecide(st, strHas{"contains", a, b}) {
		case 1:
			e.assumeLE(st, symLin(x).mul(-1))
		case 0:
			return one(st, intV{con(-1)}), true
		default:
			st.wsets()
			st.idxOf[x] = strHas{"contains", a, b}
		}
		return one(st, intV{symLin(x)}), true
	}
	// a literal searched for an unknown character: the character is one of its
	inLit := func(s *strV, v value) (boolV, bool) {
		l, ok := s.lit()
		iv, ok2 := v.(intV)
		if !ok || !ok2 || iv.l.isConst() {
			return boolV{}, false
		}
		set := rset(nil)
		if strings.HasSuffix(name, "Byte") {
			for i := 0; i < len(l); i++ {
				set = set.union(rOne(int64(l[i])))
			}
		} else {
			for _, r := range l {
				set = set.union(rOne(int64(r)))
			}
		}
		if b, _ := e.linSet(st, iv.l); b == 0 {
			return boolV{}, false
		}
		return bcond(inSet{iv.l, set}), true
	}
	// the position of an unknown character in a literal
	posInLit := func(s *strV, v value) ([]res, bool) {
		l, ok := s.lit()
		iv, ok2 := v.(intV)
		if !ok || !ok2 || iv.l.isConst() {
			return nil, false
		}
		b, set := e.linSet(st, iv.l)
		if b == 0 {
			return nil, false
		}
		find := strings.IndexRune
		if strings.HasSuffix(name, "Byte") {
			find = func(s string, r rune) int { return strings.IndexByte(s, byte(r)) }
		}
		if rs := e.splitBy(st, b, iv.l, set, func(v int64) int64 { return int64(find(l, rune(v))) }); rs != nil {
			return rs, true
		}
		n := e.newSym(false, rRange(-1, int64(len(l))))
		if set.count() <= 0x120000 {
			e.derived[n] = &derivedInt{l: iv.l, set: set.shift(0), f: func(v int64) int64 { return int64(find(l, rune(v))) }, memo: map[string]rset{}}
		}
		return one(st, intV{symLin(n)}), true
	}
	charStr := func(v value) *strV {
		if iv, ok := v.(intV); ok && iv.l.isConst() {
			return slit(string(rune(iv.l.c)))
		}
		e.giveUp(pos, "%s of an unknown character", name)
		return nil
	}
	switch name {
	// output
	case "bufio.NewWriterSize", "bufio.NewWriter":
		return one(st, termV{id: e.id(), what: name, args: args}), true
	case "(*bufio.Writer).WriteString":
		s := str(1)
		err := e.write(st, args[0], s, pos)
		return one(st, tupleV{intV{e.strLen(s)}, err}), true
	case "(*bufio.Writer).Write":
		s := e.writeBytes(st, args[1], pos)
		err := e.write(st, args[0], s, pos)
		return one(st, tupleV{intV{e.strLen(s)}, err}), true
	case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		iv, ok := args[1].(intV)
		if !ok {
			return nil, false
		}
		rune_ := strings.HasSuffix(name, "Rune")
		var out []res
		if s := e.charPiece(st, iv.l, rune_); s != nil {
			err := e.write(st, args[0], s, pos)
			if rune_ {
				return one(st, tupleV{intV{e.strLen(s)}, err}), true
			}
			return one(st, err), true
		}
		sts := []res{{st, iv}}
		if !iv.l.isConst() {
			b, set := e.linSet(st, iv.l)
			if b == 0 || set.count() > 16 {
				e.giveUp(pos, "write of an unknown character")
			}
			sts = e.splitBy(st, b, iv.l, set, func(v int64) int64 { return v })
		}
		for _, r := range sts {
			c := r.v.(intV).l.c
			s := slit(string([]byte{byte(c)}))
			if rune_ {
				s = slit(string(rune(c)))
			}
			err := e.write(r.st, args[0], s, pos)
			if rune_ {
				out = append(out, res{r.st, tupleV{intV{e.strLen(s)}, err}})
			} else {
				out = append(out, res{r.st, err})
			}
		}
		return out, true
	case "(*bufio.Writer).Flush":
		st.trace = append(st.trace, event{kind: evFlush, dst: valueID(args[0]), pos: e.pos(pos), fn: e.curFn()})
		st.lastW = e.id()
		st.pend = true
		return one(st, werrV{st.lastW}), true
	case "(*bufio.Writer).Available", "(*bufio.Writer).Buffered", "(*bufio.Writer).Size":
		return one(st, intV{symLin(e.newSym(true, nil))}), true
	case "io.WriteString", "fmt.Fprintf", "fmt.Fprint":
		iv, ok := args[0].(ifaceV)
		if !ok {
			return nil, false
		}
		dst := iv.v
		if isBuilder(iv.t) {
			var s *strV
			switch name {
			case "io.WriteString":
				s = str(1)
			case "fmt.Fprintf":
				s = e.sprintf(st, str(1), e.varargs(st, args[2], pos))
			}
			if s == nil {
				return nil, false
			}
			var out []res
			for _, c := range e.build(st, dst, iv.t, s, pos) {
				out = append(out, res{c, tupleV{intV{e.strLen(s)}, nilV{}}})
			}
			return out, true
		}
		if s, ok := dst.(*structV); ok && len(s.f) == 1 {
			dst = s.f[0]
		}
		if p, ok := dst.(ptrV); ok {
			rs := e.load(st, p, nil, pos)
			if len(rs) != 1 {
				return nil, false
			}
			dst = rs[0].v
			if s, ok := dst.(*structV); ok && len(s.f) == 1 {
				dst = s.f[0]
			}
		}
		if t, ok := dst.(termV); !ok || !strings.HasPrefix(t.what, "bufio.") {
			return nil, false
		}
		var s *strV
		switch name {
		case "io.WriteString":
			s = str(1)
		case "fmt.Fprintf":
			s = e.sprintf(st, str(1), e.varargs(st, args[2], pos))
		default:
			s = slit("")
			for _, v := range e.varargs(st, args[1], pos) {
				x := ifaceStr(v)
				if x == nil {
					return nil, false
				}
				s = s.concat(x)
			}
		}
		if s == nil {
			return nil, false
		}
		err := e.write(st, dst, s, pos)
		return one(st, tupleV{intV{e.strLen(s)}, err}), true

	// errors
	case "fmt.Errorf":
		what, _ := str(0).lit()
		return one(st, e.newErr(st, what, e.varargs(st, args[1], pos), pos)), true
	case "errors.New":
		what, _ := str(0).lit()
		return one(st, e.newErr(st, what, nil, pos)), true
	case "fmt.Sprintf":
		va := e.varargs(st, args[1], pos)
		if s := e.sprintf(st, str(0), va); s != nil {
			return one(st, s), true
		}
		a := e.newAtom("Sprintf")
		a.how, a.args = "fmt.Sprintf", append([]value{args[0]}, va...)
		return one(st, satom(a)), true
	case "fmt.Sprint", "fmt.Sprintln":
		if va := e.varargs(st, args[0], pos); len(va) == 1 && name == "fmt.Sprint" {
			if s := e.sprintf(st, slit("%v"), va); s != nil {
				return one(st, s), true
			}
		}
		a := e.newAtom("Sprint")
		a.how, a.args = name, e.varargs(st, args[0], pos)
		return one(st, satom(a)), true

	// strings
	case "strings.Index":
		return indexOf(str(0), str(1))
	case "strings.IndexByte", "strings.IndexRune":
		if rs, ok := posInLit(str(0), args[1]); ok {
			return rs, true
		}
		return indexOf(str(0), charStr(args[1]))
	case "strings.IndexAny", "strings.ContainsAny":
		if chars, ok := str(1).lit(); ok {
			set := rset(nil)
			for _, r := range chars {
				set = set.union(rOne(int64(r)))
			}
			return e.indexSet(st, str(0), set, name == "strings.ContainsAny"), true
		}
		return nil, false
	case "strings.LastIndex", "strings.LastIndexByte":
		x := e.newSym(false, nil)
		e.touch(st, x)
		st.wz().add(0, x, 1)
		var b *strV
		if name == "strings.LastIndex" {
			b = str(1)
		} else {
			b = charStr(args[1])
		}
		e.assumeLE(st, symLin(x).sub(e.strLen(str(0))).plus(1))
		st.wsets()
		st.idxOf[x] = strHas{"contains", str(0), b}
		return one(st, intV{symLin(x)}), true
	case "strings.Contains":
		if a := str(1).atom(); a != nil && a.how == "rune" {
			if b, ok := inLit(str(0), intV{e.runeOf[a]}); ok {
				return one(st, b), true
			}
		}
		return has("contains", str(0), str(1))
	case "strings.ContainsRune":
		if b, ok := inLit(str(0), args[1]); ok {
			return one(st, b), true
		}
		return has("contains", str(0), charStr(args[1]))
	case "strings.HasPrefix":
		return has("prefix", str(0), str(1))
	case "strings.HasSuffix":
		return has("suffix", str(0), str(1))
	case "strings.EqualFold":
		a, b := str(0), str(1)
		if _, ok := a.lit(); ok {
			a, b = b, a
		}
		return has("fold", a, b)
	case "strings.Count":
		if all {
			return one(st, intV{con(int64(strings.Count(lits[0], lits[1])))}), true
		}
		x := e.newSym(true, nil)
		e.touch(st, x)
		st.wsets()
		st.idxOf[x] = strHas{"count", str(0), str(1)}
		return one(st, intV{symLin(x)}), true
	case "strings.ToLower":
		if all {
			return one(st, slit(strings.ToLower(lits[0]))), true
		}
		return derived("lower", str(0)), true
	case "strings.ToUpper":
		if all {
			return one(st, slit(strings.ToUpper(lits[0]))), true
		}
		return derived("upper", str(0)), true
	case "strings.TrimSpace":
		if all {
			return one(st, slit(strings.TrimSpace(lits[0]))), true
		}
		return derived("trim", str(0)), true
	case "strings.Join":
		els, ok := e.elemsOf(st, args[0], pos)
		if !ok {
			return one(st, satom(e.newAtom("Join"))), true
		}
		s := slit("")
		for i, x := range els {
			xs, ok := x.(*strV)
			if !ok {
				return nil, false
			}
			if i > 0 {
				s = s.concat(str(1))
			}
			s = s.concat(xs)
		}
		return one(st, s), true
	case "strings.Repeat":
		iv, ok := args[1].(intV)
		if !ok {
			return nil, false
		}
		if iv.l.isConst() {
			s := slit("")
			if iv.l.c < 0 {
				e.mayPanic(st, pos, "strings.Repeat of a negative count")
				return nil, true
			}
			for i := int64(0); i < iv.l.c && i < 100; i++ {
				s = s.concat(str(0))
			}
			return one(st, s), true
		}
		a := e.newAtom("Repeat")
		a.how, a.args = "repeat", args
		return one(st, satom(a)), true
	case "strings.Replace", "strings.ReplaceAll":
		return derived("replace"+fmt.Sprintf("%q", lits[1:3]), str(0)), true

	// characters
	case "unicode/utf8.DecodeRuneInString":
		return e.decodeRune(st, str(0), pos), true
	case "unicode/utf8.DecodeRune":
		if b, ok := args[0].(bytesV); ok {
			return e.decodeRune(st, b.s, pos), true
		}
		return nil, false
	case "unicode/utf8.RuneLen":
		if iv, ok := args[0].(intV); ok {
			b, set := e.linSet(st, iv.l)
			if iv.l.isConst() {
				return one(st, intV{con(int64(utf8.RuneLen(rune(iv.l.c))))}), true
			}
			if b != 0 {
				if rs := e.splitBy(st, b, iv.l, set, func(v int64) int64 { return int64(utf8.RuneLen(rune(v))) }); rs != nil {
					return rs, true
				}
			}
		}
		return nil, false
	case "unicode/utf8.ValidString":
		if all {
			return one(st, bconst(utf8.ValidString(lits[0]))), true
		}
	case "unicode/utf8.RuneCountInString":
		if all {
			return one(st, intV{con(int64(utf8.RuneCountInString(lits[0])))}), true
		}
		x := e.newSym(true, nil)
		e.assumeLE(st, symLin(x).sub(e.strLen(str(0))))
		return one(st, intV{symLin(x)}), true
	case "unicode/utf8.ValidRune", "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower", "unicode.IsControl", "unicode.IsPrint":
		pred := map[string]func(rune) bool{"unicode/utf8.ValidRune": utf8.ValidRune, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
			"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint}[name]
		iv, ok := args[0].(intV)
		if !ok {
			return nil, false
		}
		if iv.l.isConst() {
			return one(st, bconst(pred(rune(iv.l.c)))), true
		}
		b, set := e.linSet(st, iv.l)
		if b == 0 {
			return nil, false
		}
		var out []res
		for _, r := range e.splitBy(st, b, iv.l, set, func(v int64) int64 { return int64(b2i(pred(rune(v)))) }) {
			out = append(out, res{r.st, bconst(r.v.(intV).l.c == 1)})
		}
		return out, true

	// numbers and others: known by their arguments
	case "strconv.FormatBool", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.Itoa", "strconv.Quote":
		if name == "strconv.FormatBool" {
			if b, ok := args[0].(boolV); ok && b.k != 2 {
				return one(st, slit(fmt.Sprint(b.k == 1))), true
			}
		}
		if n, ok := args[0].(intV); ok && n.l.isConst() {
			switch name {
			case "strconv.Itoa":
				return one(st, slit(fmt.Sprint(n.l.c))), true
			case "strconv.FormatInt":
				if b, ok := args[1].(intV); ok && b.l.isConst() && b.l.c >= 2 && b.l.c <= 36 {
					return one(st, slit(strconv.FormatInt(n.l.c, int(b.l.c)))), true
				}
			}
		}
		if name == "strconv.Quote" && all {
			return one(st, slit(strconv.Quote(lits[0]))), true
		}
		a := e.newAtom(name)
		a.how, a.args = name, args
		return one(st, satom(a)), true
	case "strconv.AppendBool", "strconv.AppendInt", "strconv.AppendUint", "strconv.AppendFloat":
		old := e.bytesText(st, args[0])
		if b, ok := args[0].(sliceV); ok && (b.null || e.decideEQ(st, b.len) == 1) {
			old = slit("")
		}
		if old == nil {
			return nil, false
		}
		a := e.newAtom(name)
		a.how, a.args = strings.Replace(name, "Append", "Format", 1), args[1:]
		return one(st, bytesV{old.concat(satom(a))}), true
	case "runtime.Caller":
		file := e.newAtom("file")
		args = append(args[:len(args):len(args)], intV{con(int64(len(e.stack)))})
		file.how, file.args = name, args
		line := opaqueV{id: e.id(), what: "runtime.Caller line", args: args, t: types.Typ[types.Int]}
		return one(st, tupleV{opaqueV{id: e.id(), what: "pc"}, satom(file), line, bcond(symCond{e.id(), "ok"})}), true
	case "golang.org/x/text/encoding.HTMLEscapeUnsupported", "(*golang.org/x/text/encoding.Encoder).Writer", "golang.org/x/text/encoding.ReplaceUnsupported":
		return one(st, termV{id: e.id(), what: name, args: args, t: fn.Signature.Results().At(0).Type()}), true
	}
	return e.externMore(st, fn, name, args, pos)
}

// indexSet models a search for any of a set of characters.
func (e *engine) indexSet(st *state, s *strV, set rset, asBool bool) []res {
	var out []res
	no := st.clone()
	mk := func(st *state, found bool) {
		if asBool {
			out = append(out, res{st, bconst(found)})
			return
		}
		if !found {
			out = append(out, res{st, intV{con(-1)}})
			return
		}
		x := e.newSym(true, nil)
		e.touch(st, x)
		e.assumeLE(st, symLin(x).sub(e.strLen(s)).plus(1))
		out = append(out, res{st, intV{symLin(x)}})
	}
	if e.charAssume(st, s, charFact{first: set, rest: set}) {
		mk(st, true)
	}
	if e.charAssume(no, s, charFact{ok: true, first: rChars.minus(set), rest: rChars.minus(set)}) {
		mk(no, false)
	}
	return out
}

func ifaceStr(v value) *strV {
	if i, ok := v.(ifaceV); ok {
		v = i.v
	}
	s, _ := v.(*strV)
	return s
}

// decimal is the text of a number.
func (e *engine) decimal(n intV) *strV {
	if n.l.isConst() {
		return slit(fmt.Sprint(n.l.c))
	}
	a := e.newAtom("strconv.FormatInt")
	a.how, a.args = "strconv.FormatInt", []value{n, intV{con(10)}}
	return satom(a)
}

// sprintf evaluates a format with only strings and known numbers.
func (e *engine) sprintf(st *state, f *strV, args []value) *strV {
	format, ok := f.lit()
	if !ok {
		return nil
	}
	out := slit("")
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = out.concat(slit(format[i : i+1]))
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			out = out.concat(slit("%"))
			continue
		}
		if k >= len(args) {
			return nil
		}
		a := args[k]
		k++
		var t types.Type
		if iv, ok := a.(ifaceV); ok {
			a, t = iv.v, iv.t
		}
		// a type with its own String method prints differently
		if t != nil && format[i] != 'd' {
			if ms := e.ld.prog.MethodSets.MethodSet(t); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
				return nil
			}
		}
		switch format[i] {
		case 's', 'v':
			if s, ok := a.(*strV); ok {
				out = out.concat(s)
				continue
			}
			fallthrough
		case 'd':
			if n, ok := a.(intV); ok && format[i] != 's' {
				out = out.concat(e.decimal(n))
				continue
			}
			if b, ok := a.(boolV); ok && b.k != 2 && format[i] == 'v' {
				out = out.concat(slit(fmt.Sprint(b.k == 1)))
				continue
			}
		}
		return nil
	}
	return out
}
