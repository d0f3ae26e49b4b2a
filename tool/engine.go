package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func newEngine(ld *loaded) *engine {
	e := &engine{
		ld: ld, symInfo: make([]symMeta, 1), derived: map[sym]*derivedInt{}, objName: map[objID]string{}, caller: map[objID]bool{},
		global: map[objID]*ssa.Global{}, globals: map[*ssa.Global]objID{}, fns: map[*ssa.Function]*fnInfo{},
		names: map[int]string{}, finds: newFindings(), hooks: &hooks{}, sums: map[string]*summary{},
		aliases: map[string]*atom{}, mapGlobal: map[objID]*ssa.Global{}, runeOf: map[*atom]lin{}, dynVals: map[string]value{},
	}
	e.fnNames, e.fnShort = map[*ssa.Function]string{}, map[*ssa.Function]string{}
	e.stats.fnsSeen = map[*ssa.Function]bool{}
	e.stats.indexes = map[string]bool{}
	return e
}

// initPackages runs the initialisers of the packages' variables.
func (e *engine) initPackages(paths ...string) {
	st := newState()
	e.base = st
	for _, p := range paths {
		pkg := e.ld.pkgs[p]
		if pkg == nil {
			e.giveUp(0, "package %s is missing", p)
		}
		fn := pkg.Func("init")
		outs := e.callFn(st, fn, nil, nil, 0)
		if len(outs) != 1 || outs[0].panic {
			e.giveUp(fn.Pos(), "initialisation of %s has %d outcomes", p, len(outs))
		}
		st = outs[0].st
		e.base = st
	}
	st.trace = nil
	st.errs = nil
	e.initDone = true
	roots := map[objID]*ssa.Global{}
	for o, g := range e.global {
		roots[o] = g
		if m, ok := st.heap[o].(mapV); ok && !m.null {
			e.mapGlobal[m.o] = g
		}
	}
	for o, g := range roots {
		e.ownedBy(st, st.heap[o], g)
	}
}

// ownedBy marks what is reachable from a package variable as part of it.
func (e *engine) ownedBy(st *state, v value, g *ssa.Global) {
	mark := func(o objID) {
		if o != 0 && e.global[o] == nil {
			if _, ok := st.heap[o]; ok {
				e.global[o] = g
				e.ownedBy(st, st.heap[o], g)
			}
		}
	}
	switch v := v.(type) {
	case ptrV:
		mark(v.o)
	case sliceV:
		if !v.null {
			mark(v.o)
		}
	case mapV:
		if !v.null {
			mark(v.o)
		}
	case ifaceV:
		e.ownedBy(st, v.v, g)
	case *structV:
		for _, x := range v.f {
			e.ownedBy(st, x, g)
		}
	case *arrV:
		for _, k := range v.known {
			e.ownedBy(st, k.v, g)
		}
		switch v.elem.Underlying().(type) {
		case *types.Basic:
		default:
			for _, x := range v.table {
				e.ownedBy(st, x, g)
			}
		}
	case *mapObj:
		for _, x := range v.vals {
			e.ownedBy(st, x, g)
		}
	case tupleV:
		for _, x := range v {
			e.ownedBy(st, x, g)
		}
	}
}

func (e *engine) fn(name string) *ssa.Function {
	return e.ld.root.Func(name)
}

// method finds a method of a type of the root package.
func (e *engine) method(typ, name string, ptr bool) *ssa.Function {
	t := e.ld.root.Type(typ)
	if t == nil {
		return nil
	}
	var rt types.Type = t.Type()
	for _, x := range []types.Type{rt, types.NewPointer(rt)} {
		if sel := e.ld.prog.MethodSets.MethodSet(x).Lookup(e.ld.root.Pkg, name); sel != nil {
			return e.ld.prog.MethodValue(sel)
		}
	}
	return nil
}

// try runs f, turning an undecided construct into an error.
func (e *engine) try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			e.stack = nil
			err = fmt.Errorf("%s: %s", e.pos(u.pos), u.what)
		}
	}()
	f()
	return nil
}

func (e *engine) fnName(fn *ssa.Function) string {
	s, ok := e.fnNames[fn]
	if !ok {
		s = fn.String()
		e.fnNames[fn] = s
	}
	return s
}

func (e *engine) shortName(fn *ssa.Function) string {
	s, ok := e.fnShort[fn]
	if !ok {
		s = shortFn(fn)
		e.fnShort[fn] = s
	}
	return s
}
