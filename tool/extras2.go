package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// --- C22: what a started node is recorded as

func checkRecorded(ld *loaded, res *result) {
	r, root, err := newRunner(ld, conf{true, false}, false)
	if err != nil {
		res.collect(r.e)
		res.fail("C22", err.Error())
		return
	}
	e := r.e
	err = e.try(func() {
		kt, ft := ld.root.Type("NodeKind"), ld.root.Type("nodeFlag")
		flag := e.method("NodeKind", "flag", false)
		if kt == nil || ft == nil || flag == nil {
			e.giveUp(0, "the types NodeKind and nodeFlag are missing")
		}
		for _, o := range r.ops {
			if !o.start || o.heavy {
				continue
			}
			e.ctx = o.name + ", nothing started"
			for _, s := range r.step(root, o) {
				if len(s.g.cells) != 1 {
					continue
				}
				v, ok := r.elem(s, s.g.depth.plus(-r.d0-1))
				sv, ok2 := v.(*structV)
				if !ok || !ok2 {
					e.giveUp(o.fn.Pos(), "the node started is not found in the writer")
				}
				want := e.constOf(o.first + "Node")
				us := sv.t
				for i := 0; i < us.NumFields(); i++ {
					iv, isInt := sv.f[i].(intV)
					if !isInt {
						continue
					}
					t := us.Field(i).Type()
					if types.Identical(t, kt.Type()) {
						r.count("C22 recorded kinds")
						if !iv.l.isConst() || iv.l.c != want {
							r.find("C22", "recorded-kind", e.pos(o.fn.Pos()), shortFn(o.fn), "records another kind than that of the node")
						}
					}
					if types.Identical(t, ft.Type()) {
						r.count("C22 recorded flags")
						for _, f := range e.callFn(s.clone(), flag, []value{intV{con(want)}}, nil, 0) {
							if w, ok := f.ret.(intV); !ok || !e.lineq(s, w.l, iv.l) {
								r.find("C22", "recorded-flag", e.pos(o.fn.Pos()), shortFn(o.fn), "records another flag than that of the node")
							}
						}
					}
				}
			}
		}
	})
	if err != nil {
		res.fail("C22", err.Error())
	}
	res.collect(e)
	for k, n := range r.seen {
		res.seen[k] += n
	}
}

// --- C16

func checkOpen(x *extra) {
	wt := x.ld.root.Type("Writer")
	ot := x.ld.root.Type("Option")
	if wt == nil || ot == nil {
		x.giveUp(0, "the type Writer or Option is missing")
	}
	us := wt.Type().Underlying().(*types.Struct)
	field := map[string]int{}
	for i := 0; i < us.NumFields(); i++ {
		field[us.Field(i).Name()] = i
	}
	for _, f := range []string{"Enforce", "StrictChars", "Version", "InitialBufSize", "NewlineString", "Indenter"} {
		if _, ok := field[f]; !ok {
			x.giveUp(0, "Writer has no %s", f)
		}
	}
	b := &builder{e: x.engine}
	for _, fname := range []string{"Open", "OpenEncoding"} {
		fn := x.need("the function "+fname, x.fn(fname))
		for n := 0; n <= 2; n++ {
			for _, setSize := range []bool{false, true} {
				if setSize && n == 0 {
					continue
				}
				x.ctx = fmt.Sprintf("%s with %d options, buffer size set: %v", fname, n, setSize)
				st := x.base.clone()
				b.st = st
				var opts []value
				for i := 0; i < n; i++ {
					opts = append(opts, symFunc{x.id(), fmt.Sprintf("option %d", i+1)})
				}
				var args []value
				var sink, enc value
				var name *strV
				for _, p := range fn.Params {
					switch p.Type().Underlying().(type) {
					case *types.Slice:
						args = append(args, b.slice(ot.Type(), opts))
					case *types.Pointer:
						v := x.fresh(st, p.Type(), p.Name(), 0).(ptrV)
						v.sid = 0
						enc = v
						args = append(args, v)
					case *types.Basic:
						name = satom(x.newAtom("encoding"))
						args = append(args, name)
					default:
						sink = x.fresh(st, p.Type(), p.Name()+"!", 0)
						args = append(args, sink)
					}
				}
				if fname == "Open" {
					name = slit("UTF-8")
				}
				// what the options set
				set := map[string]value{}
				for _, f := range []string{"Version", "NewlineString"} {
					set[f] = satom(x.newAtom("option's " + f))
				}
				for _, f := range []string{"Enforce", "StrictChars"} {
					set[f] = x.fresh(st, types.Typ[types.Bool], "option's "+f, 0)
				}
				set["Indenter"] = x.fresh(st, us.Field(field["Indenter"]).Type(), "option's Indenter!", 0)
				if setSize {
					set["InitialBufSize"] = x.fresh(st, types.Typ[types.Int], "option's size", 0)
				}
				called := 0
				var target objID
				x.hooks.dynCall = func(s *state, f value, args []value, sig *types.Signature, pos token.Pos) ([]res, bool) {
					sf, ok := f.(symFunc)
					if !ok || len(args) != 1 {
						return nil, false
					}
					p, ok := args[0].(ptrV)
					if !ok || len(p.path) > 0 {
						x.giveUp(pos, "an option is given an unknown writer")
					}
					w, ok := s.heap[p.o].(*structV)
					if !ok {
						x.giveUp(pos, "an option is given an unknown writer")
					}
					x.count("C16 option calls")
					if called >= n || sf != opts[called].(symFunc) {
						x.findAt("option-order", x.pos(pos), x.curFn(), "options are not applied once each in order")
					}
					if called == 0 {
						target = p.o
						for f, want := range map[string]value{"Enforce": bconst(true), "StrictChars": bconst(true), "NewlineString": slit("\n")} {
							if !sameIn(x.engine, s, w.f[field[f]], want) {
								x.findAt("default-late", x.pos(pos), x.curFn(), "the default of "+f+" is not set when the first option is applied")
							}
						}
					} else if target != p.o {
						x.findAt("option-order", x.pos(pos), x.curFn(), "options are applied to different writers")
					}
					called++
					c := *w
					c.f = append([]value(nil), w.f...)
					if called == n {
						for f, v := range set {
							c.f[field[f]] = v
						}
					} else {
						c.f[field["Version"]] = satom(x.newAtom("first option's Version"))
					}
					s.wheap()[p.o] = &c
					return one(s, tupleV{}), true
				}
				outs := x.returns(st, fn, args, false)
				x.hooks.dynCall = nil
				if called < n {
					x.find("option-order", fn, "does not apply every option")
				}
				for _, o := range outs {
					p, ok := o.ret.(ptrV)
					w, ok2 := o.st.heap[p.o].(*structV)
					if !ok || !ok2 || len(p.path) > 0 {
						x.giveUp(fn.Pos(), "%s does not return a known writer", fname)
					}
					if n > 0 && p.o != target {
						x.find("option-order", fn, "returns another writer than the options were applied to")
					}
					want := map[string]value{"Enforce": bconst(true), "StrictChars": bconst(true), "NewlineString": slit("\n"), "Version": slit(""), "Indenter": nilV{}}
					if n > 0 {
						for f, v := range set {
							want[f] = v
						}
					}
					for f, v := range want {
						if f == "InitialBufSize" {
							continue
						}
						x.count("C16 settings")
						if f == "Version" && n == 0 {
							// the default is settled when a document is written
							if l, ok := litStr(asStr(w.f[field[f]])); ok && (l == "" || l == "1.0") {
								continue
							}
						}
						if f == "Indenter" && n == 0 && x.decide(o.st, x.isNil(o.st, w.f[field[f]])) == 1 {
							continue
						}
						if !sameIn(x.engine, o.st, w.f[field[f]], v) {
							x.find("setting-lost", fn, "the writer's "+f+" is not what the last option, or else the default, made it")
						}
					}
					x.checkBuffer(o.st, fn, w, sink, enc, set["InitialBufSize"])
					x.checkName(o.st, fn, us, w, name, field)
				}
			}
		}
	}
	x.checkIndentOptions(wt.Type(), field)
}

func asStr(v value) *strV {
	s, _ := v.(*strV)
	return s
}

// checkName: one unexported string holds the encoding's name.
func (x *extra) checkName(st *state, fn *ssa.Function, us *types.Struct, w *structV, name *strV, field map[string]int) {
	x.count("C16 settings")
	n := 0
	for i := range w.f {
		if s, ok := w.f[i].(*strV); ok && !us.Field(i).Exported() {
			n++
			if sameIn(x.engine, st, s, name) {
				return
			}
		}
	}
	x.find("encoding-name", fn, "the writer does not know the name of the encoding it was opened with")
}

// checkBuffer: the writer's only buffer is in front of the sink, or of the
// encoder in front of the sink.
func (x *extra) checkBuffer(st *state, fn *ssa.Function, w *structV, sink, enc, size value) {
	var bufs []termV
	var walk func(v value)
	walk = func(v value) {
		switch v := v.(type) {
		case termV:
			bufs = append(bufs, v)
		case *structV:
			for _, f := range v.f {
				walk(f)
			}
		case ifaceV:
			walk(v.v)
		}
	}
	walk(w)
	x.count("C16 buffers")
	if len(bufs) != 1 {
		x.find("one-buffer", fn, fmt.Sprintf("the writer has %d outputs", len(bufs)))
		return
	}
	t := bufs[0]
	if t.what != "bufio.NewWriterSize" && t.what != "bufio.NewWriter" {
		x.find("one-buffer", fn, "the writer's output is made by "+t.what)
		return
	}
	// its size
	switch {
	case t.what == "bufio.NewWriter":
		x.find("buffer-size", fn, "the buffer does not have the size set")
	case size == nil:
		if iv, ok := t.args[1].(intV); !ok || x.decideEQ(st, iv.l.plus(-2048)) != 1 {
			x.find("buffer-size", fn, "the default buffer does not have 2048 bytes")
		}
	default:
		sz := size.(intV)
		iv, ok := t.args[1].(intV)
		pos := x.decideLE(st, sz.l.mul(-1).plus(1))
		switch {
		case !ok:
			x.find("buffer-size", fn, "the size of the buffer is not known")
		case pos == 1:
			if !x.lineq(st, iv.l, sz.l) {
				x.find("buffer-size", fn, "the buffer does not have the positive size set")
			}
		case pos == 0:
			if x.decideEQ(st, iv.l.plus(-2048)) != 1 {
				x.find("buffer-size", fn, "the buffer does not have 2048 bytes although the size set is not positive")
			}
		default:
			x.find("buffer-size", fn, "the size of the buffer does not depend on whether the size set is positive")
		}
	}
	dst := unwrapIface(t.args[0])
	if enc == nil {
		if !sameVal(dst, sink) {
			x.find("sink", fn, "the buffer is not in front of the sink")
		}
		return
	}
	w1, ok := dst.(termV)
	if !ok || w1.what != "(*golang.org/x/text/encoding.Encoder).Writer" {
		x.find("encoder", fn, "the buffer is not in front of the encoder")
		return
	}
	if !sameVal(unwrapIface(w1.args[1]), sink) {
		x.find("sink", fn, "the encoder is not in front of the sink")
	}
	h, ok := w1.args[0].(termV)
	if !ok || h.what != "golang.org/x/text/encoding.HTMLEscapeUnsupported" {
		x.find("encoder", fn, "characters that the encoder does not support do not become character references")
		return
	}
	if !sameVal(h.args[0], enc) {
		x.find("encoder", fn, "another encoder is used than the one given")
	}
}

func unwrapIface(v value) value {
	for {
		i, ok := v.(ifaceV)
		if !ok {
			return v
		}
		v = i.v
	}
}

func sameVal(a, b value) bool {
	switch a := a.(type) {
	case symIface:
		b, ok := b.(symIface)
		return ok && a.id == b.id
	case ptrV:
		b, ok := b.(ptrV)
		return ok && a.o == b.o && len(a.path) == len(b.path)
	}
	return false
}

// checkIndentOptions: the options install the built-in indenter.
func (x *extra) checkIndentOptions(wt types.Type, field map[string]int) {
	si := x.ld.root.Type("StandardIndenter")
	if si == nil {
		x.giveUp(0, "the type StandardIndenter is missing")
	}
	for _, name := range []string{"WithIndent", "WithIndentString"} {
		fn := x.need("the function "+name, x.fn(name))
		x.ctx = name
		st := x.base.clone()
		var args []value
		want := slit(" ")
		for _, p := range fn.Params {
			v := x.fresh(st, p.Type(), p.Name(), 0)
			if s, ok := v.(*strV); ok {
				want = s
			}
			args = append(args, v)
		}
		w := x.fresh(st, wt, "writer", 0)
		before := w.(*structV)
		p := ptrV{o: x.alloc(st, w, "writer")}
		for _, o := range x.returns(st, fn, args, false) {
			f, ok := o.ret.(funcV)
			if !ok {
				x.giveUp(fn.Pos(), "%s does not return a known function", name)
			}
			x.count("C16 indent options")
			for _, o2 := range x.callFn(o.st, f.fn, []value{p}, f.bind, fn.Pos()) {
				if o2.panic {
					x.find("panic", fn, "the option panics")
					continue
				}
				after := o2.st.heap[p.o].(*structV)
				for n, i := range field {
					if n == "Indenter" || i < 0 {
						continue
					}
					if !sameIn(x.engine, o2.st, after.f[i], before.f[i]) {
						x.find("indent-option", fn, "changes the writer's "+n)
					}
				}
				q, ok := unwrapIface(after.f[field["Indenter"]]).(ptrV)
				if !ok || len(q.path) > 0 {
					x.find("indent-option", fn, "does not install an indenter")
					continue
				}
				i, ok := after.f[field["Indenter"]].(ifaceV)
				if !ok || !types.Identical(i.t, types.NewPointer(si.Type())) {
					x.find("indent-option", fn, "does not install the built-in indenter")
					continue
				}
				sv, ok := o2.st.heap[q.o].(*structV)
				if !ok {
					x.giveUp(fn.Pos(), "the indenter is not known")
				}
				// the same option given to another writer
				w2 := x.fresh(o2.st, wt, "another writer", 0)
				p2 := ptrV{o: x.alloc(o2.st, w2, "another writer")}
				for _, o3 := range x.callFn(o2.st.clone(), f.fn, []value{p2}, f.bind, fn.Pos()) {
					if o3.panic {
						continue
					}
					x.count("C20 indent options")
					i2, _ := o3.st.heap[p2.o].(*structV)
					if q2, ok := unwrapIface(i2.f[field["Indenter"]]).(ptrV); ok && q2.o == q.o {
						x.finds.add(finding{props: uniq("C20"), rule: "indenter-shared", where: x.pos(fn.Pos()), fn: shortFn(fn), msg: "gives the same indenter to every writer opened with the option", ctx: x.ctx})
					}
				}
				for k := 0; k < sv.t.NumFields(); k++ {
					if sv.t.Field(k).Name() == "IndentString" && !sameIn(x.engine, o2.st, sv.f[k], want) {
						x.find("indent-option", fn, "does not indent with the string it should")
					}
				}
			}
		}
	}
}
