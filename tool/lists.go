package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: lists of any length. The calls that take a list are interpreted over
// one of unknown length, whose elements are handled by calls that succeed or
// fail. How many have been handled is part of the state, so that the invariant
// of a loop over the list says which element is next.

// eachOf records which element of a list a struct is.
func (e *engine) eachOf(s *structV, o objID, idx lin) {
	if e.each == nil {
		e.each = map[int]listElem{}
	}
	for _, f := range s.f {
		if s, ok := f.(*strV); ok && s.atom() != nil {
			e.each[s.atom().id] = listElem{o, idx}
		}
	}
}

type listElem struct {
	o   objID
	idx lin
}

// which element of the list is v?
func (e *engine) which(v value) (listElem, bool) {
	switch v := v.(type) {
	case symIface:
		if v.arr != 0 {
			return listElem{v.arr, v.idx}, true
		}
	case *structV:
		for _, f := range v.f {
			if s, ok := f.(*strV); ok && s.atom() != nil {
				if l, ok := e.each[s.atom().id]; ok {
					return l, true
				}
			}
		}
	}
	return listElem{}, false
}

func checkLists(x *extra) {
	wt := x.ld.root.Type("Writer")
	if wt == nil {
		x.giveUp(0, "the type Writer is missing")
	}
	takesWriter := func(sig *types.Signature) bool {
		for i := 0; i < sig.Params().Len(); i++ {
			if p, ok := sig.Params().At(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), wt.Type()) {
				return sig.Results().Len() == 1
			}
		}
		return false
	}
	x.noNilIface = true
	defer func() {
		x.hooks.invoke, x.hooks.call = nil, nil
		x.handled, x.eachRead = 0, 0
		for k, f := range x.finds.by {
			if !strings.HasPrefix(f.rule, "list-") {
				delete(x.finds.by, k)
			}
		}
	}()
	for _, name := range []string{"Write", "Start", "WriteAttr", "Block"} {
		fn := x.need("the method "+name+" of Writer", x.method("Writer", name, true))
		ps := fn.Signature.Params()
		if ps.Len() == 0 {
			x.giveUp(fn.Pos(), "%s takes no list", name)
		}
		lt, ok := ps.At(ps.Len() - 1).Type().(*types.Slice)
		if !ok {
			x.giveUp(fn.Pos(), "%s takes no list", name)
		}
		x.ctx = name + " of a list of any length"
		st := x.base.clone()
		w := ptrV{o: x.alloc(st, x.fresh(st, wt.Type(), "writer", 0), "writer")}
		size := symLin(x.newSym(true, nil))
		for _, t := range size.t {
			x.touch(st, t.s)
		}
		list := x.alloc(st, &arrV{elem: lt.Elem(), n: size, rest: restEach}, "list")
		x.caller[list] = true
		done := x.alloc(st, intV{con(0)}, "number handled")
		left := x.alloc(st, intV{size}, "number left")
		failed := x.alloc(st, bconst(false), "failed")
		begun := x.alloc(st, bconst(name != "Block"), "begun")
		ended := x.alloc(st, bconst(false), "ended")
		args := []value{w}
		var first value
		if name == "Block" {
			first = x.fresh(st, ps.At(0).Type(), "start", 0)
			args = append(args, first)
		}
		read := x.alloc(st, bconst(false), "an element was read")
		x.handled, x.eachRead = done, read
		args = append(args, sliceV{o: list, len: size, cap: size, name: "list"})
		isSet := func(st *state, o objID) bool {
			b, ok := st.heap[o].(boolV)
			return !ok || b.k != 0
		}
		set := func(st *state, o objID) { st.wheap()[o] = bconst(true) }
		num := func(st *state, o objID) lin {
			v, ok := st.heap[o].(intV)
			if !ok {
				x.giveUp(fn.Pos(), "how many nodes were handled is not known")
			}
			return v.l
		}
		// all have been handled?
		all := func(st *state) int {
			if x.decideEQ(st, num(st, left)) == 1 || x.decideEQ(st, num(st, done).sub(size)) == 1 {
				return 1
			}
			if x.decideEQ(st, num(st, left)) == 0 || x.decideEQ(st, num(st, done).sub(size)) == 0 {
				return 0
			}
			return -1
		}
		bothWays := func(st *state) []res {
			s := st.clone()
			set(s, failed)
			return []res{{st, nilV{}}, {s, errV{id: x.id(), what: "the error of a node"}}}
		}
		event := func(st *state, l listElem, pos token.Pos) []res {
			x.count("C14 elements of lists of any length")
			if l.o != list {
				x.giveUp(pos, "an element of another list")
			}
			if isSet(st, failed) {
				x.findAt("list-goes-on", x.pos(pos), shortFn(fn), "handles another node after one has failed")
			}
			if !isSet(st, begun) {
				x.findAt("list-order", x.pos(pos), shortFn(fn), "handles a child before the parent")
			}
			d := l.idx.sub(num(st, done))
			d2 := l.idx.sub(size.sub(num(st, left)))
			switch {
			case x.decideEQ(st, d) == 1 || x.decideEQ(st, d2) == 1:
			case x.decideEQ(st, d) == 0 || x.decideEQ(st, d2) == 0:
				x.findAt("list-order", x.pos(pos), shortFn(fn), "does not handle the nodes of a list one after the other")
			default:
				x.giveUp(pos, "which node of the list is next is not known")
			}
			rs := bothWays(st)
			h := rs[0].st.wheap()
			h[done] = intV{num(st, done).plus(1)}
			h[left] = intV{num(st, left).plus(-1)}
			return rs
		}
		x.hooks.invoke = func(st *state, recv value, m *types.Func, args []value, pos token.Pos) ([]res, bool) {
			v, ok := recv.(symIface)
			if !ok {
				return nil, false
			}
			sig := m.Type().(*types.Signature)
			if l, ok := x.which(recv); ok {
				if takesWriter(sig) {
					return event(st, l, pos), true
				}
			} else if f, ok := first.(symIface); ok && f.id == v.id && takesWriter(sig) {
				if isSet(st, begun) {
					x.findAt("list-order", x.pos(pos), shortFn(fn), "starts the parent twice")
				}
				set(st, begun)
				return bothWays(st), true
			}
			if sig.Results().Len() == 1 {
				return one(st, x.fresh(st, sig.Results().At(0).Type(), m.Name(), 0)), true
			}
			return nil, false
		}
		x.hooks.call = func(st *state, f *ssa.Function, args []value, pos token.Pos) ([]res, bool) {
			if f.Signature.Recv() == nil || len(args) == 0 {
				return nil, false
			}
			if l, ok := x.which(args[0]); ok && takesWriter(f.Signature) {
				return event(st, l, pos), true
			}
			if p, ok := args[0].(ptrV); ok && p.o == w.o && strings.HasPrefix(f.Name(), "End") && f.Signature.Results().Len() == 1 {
				if isSet(st, failed) {
					x.findAt("list-goes-on", x.pos(pos), shortFn(fn), "ends the parent after a node has failed")
				}
				if all(st) == 0 {
					x.findAt("list-short", x.pos(pos), shortFn(fn), "ends the parent before every node of the list has been handled")
				}
				set(st, ended)
				return bothWays(st), true
			}
			return nil, false
		}
		good := 0
		for _, o := range x.returns(st, fn, args, true) {
			if o.panic {
				continue
			}
			x.count("C14 lists of any length")
			c := x.isNil(o.st, o.ret)
			isnil := x.decide(o.st, c)
			switch {
			case isnil == 1 && isSet(o.st, failed):
				x.find("list-error-lost", fn, "returns nil although a node of the list has failed")
			case isnil == 1 && (!isSet(o.st, begun) || name == "Block" && !isSet(o.st, ended)):
				x.find("list-short", fn, "returns nil without having started and ended the parent")
			case isnil == 1:
				switch all(o.st) {
				case 0:
					x.find("list-short", fn, "returns nil although not every node of the list has been handled")
				case 1:
					good++
				default:
					x.giveUp(fn.Pos(), "whether every node of the list has been handled is not known")
				}
			case isnil == 0 && !isSet(o.st, failed):
				_, ok := lt.Elem().Underlying().(*types.Interface)
				if _, made := o.ret.(errV); made && (ok || !isSet(o.st, read)) {
					x.find("list-refused", fn, "returns an error although no node of the list has failed")
				}
			case isnil < 0:
				x.giveUp(fn.Pos(), "whether %s fails is not known", name)
			}
		}
		if good == 0 && len(x.finds.by) == 0 {
			x.giveUp(fn.Pos(), "no path of %s handles a list", name)
		}
	}
}
