package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Wide shapes: lists longer than any number the code compares a length, a
// count or an index with, so that no such comparison is on one side only.

// widest gives a number of nodes beyond the constants that integers are
// compared with.
func (ld *loaded) widest() (near, far int) {
	// only few constants are far: an int that is none of a set of flags
	n, f := int64(9), int64(0)
	see := func(v ssa.Value) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return
		}
		b, ok := c.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int {
			return
		}
		x, ok := constant.Int64Val(c.Value)
		switch {
		case !ok:
		case x <= 40 && x+2 > n:
			n = x + 2
		case x > 40 && x <= 130 && x+2 > f && types.Identical(c.Type(), b):
			f = x + 2
		}
	}
	for _, fn := range ld.rootFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch op.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.AND:
					see(op.X)
					see(op.Y)
				}
			}
		}
	}
	return int(n), int(f)
}

// rootFns lists the functions of the root package, closures included.
func (ld *loaded) rootFns() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Pkg != ld.root || fn.Synthetic != "" {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, m := range ld.root.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := ld.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(ld.prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return out
}

func (r *runner) wide() {
	near, far := r.e.ld.widest()
	r.lists(near, false)
	if far > 0 {
		r.lists(far, true)
	}
}

// lists runs lists of n. Very long ones are few and of simple nodes.
func (r *runner) lists(n int, long bool) {
	e := r.e
	e.unrollMax, e.prune = n+2, 3
	defer func() { e.unrollMax, e.prune = 0, 0 }()
	mk := func(name, method, props string, f func(b *builder) ([]value, func(*mrun))) *op {
		fn := e.method("Writer", method, true)
		if fn == nil {
			e.giveUp(0, "the method %s of Writer is missing", method)
		}
		return &op{name: method + name, fn: fn, props: props, make: f}
	}
	plain := map[string]func(b *builder) *mnode{
		"Elem": func(b *builder) *mnode { return b.plainElem(nil, nil) },
		"Attr": (*builder).plainAttr,
	}
	one := func(b *builder, kind string) *mnode {
		if f := plain[kind]; f != nil {
			return f(b)
		}
		return b.mk(kind)
	}
	many := func(b *builder, kinds ...string) []*mnode {
		var out []*mnode
		for i := 0; i < n; i++ {
			out = append(out, one(b, kinds[i%len(kinds)]))
		}
		return out
	}
	// prefixed makes an attribute with its own prefix, or that of another.
	prefixed := func(b *builder, i int) *mnode {
		uri := b.str("uri")
		e.assumeLE(b.st, e.strLen(uri).mul(-1).plus(1))
		return b.node("Attr", map[string]value{"Prefix": slit(fmt.Sprintf("p%d", i)), "URI": uri}, nil, nil)
	}
	whole := func(kind, verb, props string, f func(b *builder) *mnode) *op {
		return mk("("+kind+")", verb+kind, props, func(b *builder) ([]value, func(*mrun)) {
			x := f(b)
			return []value{x.val}, func(m *mrun) {
				if verb == "Start" {
					m.start(x)
				} else {
					m.write(x)
				}
			}
		})
	}
	var after []string
	var ops [][]*op
	add := func(where string, o ...*op) {
		after = append(after, where)
		ops = append(ops, o)
	}
	simple := r.simple()
	endElem := mk("", "EndElem", "C01,C06", func(b *builder) ([]value, func(*mrun)) {
		return []value{b.strs(nil)}, func(m *mrun) { m.endKind(con(m.kindNo("Elem")), nil, "C06") }
	})
	endDTD := mk("", "EndDTD", "C10,C06", func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) { m.endKind(con(m.kindNo("DTD")), nil, "C06") }
	})
	what := fmt.Sprintf(" of %d", n)
	if long {
		list := func(where, method string, typ string, kind string, after *op) {
			add(where, mk(what, method, "C14", func(b *builder) ([]value, func(*mrun)) {
				ns := many(b, kind)
				vs := ifaces(ns)
				if typ == "Attr" {
					vs = vals(ns)
				}
				return []value{b.slice(b.typ(typ), vs)}, func(m *mrun) {
					for _, x := range ns {
						switch method {
						case "Start":
							m.start(x)
						case "WriteAttr":
							m.attr(x)
						default:
							m.write(x)
						}
					}
				}
			}), after)
		}
		list("E", "WriteAttr", "Attr", "Attr", simple["t"])
		list("E", "Write", "Writable", "Comment", endElem)
		list("E", "Write", "Writable", "Text", endElem)
		list("", "Start", "Startable", "Elem", endElem)
		add("", mk(what, "Block", "C14", func(b *builder) ([]value, func(*mrun)) {
			ns := append([]*mnode{b.plainElem(nil, nil)}, many(b, "Text")...)
			return []value{ifaces(ns[:1])[0], b.slice(b.typ("Writable"), ifaces(ns[1:]))}, func(m *mrun) {
				m.start(ns[0])
				for _, x := range ns[1:] {
					m.write(x)
				}
				m.endTop("C06")
			}
		}))
		add("E", whole("Elem", "Write", "C14,C01", func(b *builder) *mnode { return b.plainElem(many(b, "Attr"), nil) }))
		add("E", whole("Elem", "Write", "C14,C01", func(b *builder) *mnode { return b.plainElem(nil, many(b, "Text")) }))
		add("T", whole("DTDAttList", "Write", "C10,C14", func(b *builder) *mnode {
			return b.node("DTDAttList", nil, many(b, "DTDAttr"), nil)
		}), endDTD)
		r.play(ops, after, n)
		return
	}
	// lists in nodes
	for _, verb := range []string{"Start", "Write"} {
		add("E", whole("Elem", verb, "C14,C01", func(b *builder) *mnode { return b.plainElem(many(b, "Attr"), nil) }), simple["t"])
		add("E", whole("Elem", verb, "C14,C01", func(b *builder) *mnode { return b.plainElem(nil, many(b, "Text", "Elem")) }), simple["t"])
		add("", whole("Elem", verb, "C13,C14", func(b *builder) *mnode {
			var as []*mnode
			for i := 0; i < n; i++ {
				as = append(as, prefixed(b, i))
			}
			return b.plainElem(as, nil)
		}), endIf(verb == "Start", endElem))
	}
	// with a prefix, a namespace, and attributes and content of every kind
	for _, ns := range []bool{false, true} {
		ns := ns
		for _, verb := range []string{"Start", "Write"} {
			add("E", whole("Elem", verb, "C14,C01,C13", func(b *builder) *mnode {
				uri := value(slit(""))
				if ns {
					uri = b.some("uri")
				}
				var as []*mnode
				for i := 0; i < n; i++ {
					f := map[string]value{"Prefix": slit(fmt.Sprintf("p%d", i)), "URI": slit("")}
					switch i % 4 {
					case 0:
						f["Prefix"] = slit("")
					case 1:
						f["URI"] = b.some("uri")
					case 2:
						f["Prefix"], f["URI"] = slit(""), b.some("uri")
					}
					as = append(as, b.node("Attr", f, nil, nil))
				}
				return b.node("Elem", map[string]value{"Prefix": slit("x"), "URI": uri}, as, many(b, "Comment", "Elem", "Text", "CData"))
			}), simple["t"])
		}
	}
	add("T", whole("DTDAttList", "Write", "C10,C14", func(b *builder) *mnode {
		return b.node("DTDAttList", nil, many(b, "DTDAttr"), nil)
	}), endDTD)
	// lists of arguments
	add("E", mk(what, "WriteAttr", "C14", func(b *builder) ([]value, func(*mrun)) {
		as := many(b, "Attr")
		return []value{b.slice(b.typ("Attr"), vals(as))}, func(m *mrun) {
			for _, a := range as {
				m.attr(a)
			}
		}
	}), simple["t"])
	add("E", mk(what, "Write", "C14", func(b *builder) ([]value, func(*mrun)) {
		ns := many(b, "Text", "Elem", "PI", "Raw", "Comment", "CData")
		return []value{b.slice(b.typ("Writable"), ifaces(ns))}, func(m *mrun) {
			for _, x := range ns {
				m.write(x)
			}
		}
	}), endElem)
	add("", mk(what, "Block", "C14", func(b *builder) ([]value, func(*mrun)) {
		ns := append([]*mnode{b.plainElem(nil, nil)}, many(b, "Text", "Elem")...)
		return []value{ifaces(ns[:1])[0], b.slice(b.typ("Writable"), ifaces(ns[1:]))}, func(m *mrun) {
			m.start(ns[0])
			for _, x := range ns[1:] {
				m.write(x)
			}
			m.endTop("C06")
		}
	}))
	add("", mk(what, "Start", "C14", func(b *builder) ([]value, func(*mrun)) {
		ns := many(b, "Elem")
		return []value{b.slice(b.typ("Startable"), ifaces(ns))}, func(m *mrun) {
			for _, x := range ns {
				m.start(x)
			}
		}
	}), endElem, simple["t"])
	// nodes within nodes
	add("", whole("Elem", "Write", "C14,C01", func(b *builder) *mnode {
		x := b.plainElem(nil, []*mnode{b.mk("Text")})
		for i := 1; i < 4; i++ {
			x = b.plainElem(nil, []*mnode{x})
		}
		return x
	}))
	// many calls
	rep := func(where string, end *op, f func(i int) *op) {
		var list []*op
		for i := 0; i < n; i++ {
			list = append(list, f(i))
		}
		if end != nil {
			list = append(list, end)
		}
		add(where, list...)
	}
	attr := func(i int) *op {
		return mk("", "WriteAttr", "C13,C14", func(b *builder) ([]value, func(*mrun)) {
			a := prefixed(b, i)
			return []value{b.slice(a.typ, []value{a.val})}, func(m *mrun) { m.attr(a) }
		})
	}
	rep("E", endElem, func(i int) *op { return attr(i) })
	// the last of many prefixes again, and the first
	rep("E", attr(n-1), func(i int) *op { return attr(i) })
	rep("E", attr(0), func(i int) *op { return attr(i) })
	rep("E", endElem, func(i int) *op { return simple["t"] })
	rep("E", endElem, func(i int) *op { return simple["e"] })
	rep("C", nil, func(i int) *op { return simple["c"] })
	rep("S", nil, func(i int) *op { return simple["s"] })
	rep("T", endDTD, func(i int) *op { return simple["d"] })
	rep("TL", nil, func(i int) *op { return simple["l"] })
	rep("", endElem, func(i int) *op { return simple["E"] })

	r.play(ops, after, n)
}

func (r *runner) play(ops [][]*op, after []string, n int) {
	e := r.e
	simple := r.simple()
	root := r.scriptRoot
	for i, list := range ops {
		sts := []*state{root}
		gaveUp := r.gaveUp
		var all []*op
		for _, k := range after[i] {
			all = append(all, simple[string(k)])
		}
		for _, o := range append(all, list...) {
			if o == nil {
				continue
			}
			var next []*state
			for _, st := range sts {
				e.ctx = fmt.Sprintf("%s, number %d of lists of %d, %s", o.name, i, n, r.cfg.name)
				t0 := time.Now()
				next = append(next, r.step(st, o)...)
				if os.Getenv("XW_PROF") != "" {
					fmt.Println(e.ctx, len(next), time.Since(t0))
				}
			}
			if len(next) > 3 {
				next = next[:3]
			}
			sts = next
			if len(sts) == 0 && r.gaveUp > gaveUp {
				break
			}
			if len(sts) == 0 {
				r.find(o.props, "never-accepted", e.pos(o.fn.Pos()), shortFn(o.fn), "is never accepted: "+e.ctx)
			}
		}
		r.count("wide shapes")
	}
}

func endIf(b bool, o *op) *op {
	if b {
		return o
	}
	return nil
}

func (r *runner) near() int {
	n, _ := r.e.ld.widest()
	return n
}
