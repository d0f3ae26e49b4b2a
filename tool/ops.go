package main

import (
	"fmt"
	"go/types"
	"strings"
)

// build makes the arguments of a call in a state.
type builder struct {
	e  *engine
	st *state
	r  *runner
}

func (b *builder) typ(name string) types.Type {
	t := b.e.ld.root.Type(name)
	if t == nil {
		b.e.giveUp(0, "the type %s is missing", name)
	}
	return t.Type()
}

func (b *builder) str(name string) *strV { return satom(b.e.newAtom(name)) }

// some makes a string that is not empty.
func (b *builder) some(name string) *strV {
	s := b.str(name)
	b.e.assumeLE(b.st, b.e.strLen(s).mul(-1).plus(1))
	return s
}

// names makes n strings.
func (b *builder) names(n int) []*strV {
	var out []*strV
	for i := 0; i < n; i++ {
		out = append(out, b.str(fmt.Sprintf("name%d", i)))
	}
	return out
}

// slice makes a slice of the caller's with these elements.
func (b *builder) slice(elem types.Type, vs []value) value {
	if len(vs) == 0 {
		return sliceV{null: true}
	}
	e := b.e
	a := &arrV{elem: elem, n: symLin(e.newSym(true, nil)), rest: restCaller}
	for i, v := range vs {
		a.known = append(a.known, arrElem{con(int64(i)), v})
	}
	o := e.alloc(b.st, a, "argument slice")
	e.caller[o] = true
	c := e.newSym(true, nil)
	e.touch(b.st, c)
	e.assumeLE(b.st, con(int64(len(vs))).sub(symLin(c)))
	return sliceV{o: o, len: con(int64(len(vs))), cap: symLin(c), name: "argument"}
}

func (b *builder) strs(ss []*strV) value {
	var vs []value
	for _, s := range ss {
		vs = append(vs, s)
	}
	return b.slice(types.Typ[types.String], vs)
}

// node makes a node of a kind. Fields not given are arbitrary.
func (b *builder) node(kind string, over map[string]value, attrs, content []*mnode) *mnode {
	t := b.typ(kind)
	n := &mnode{kind: kind, f: map[string]value{}, attrs: attrs, content: content, typ: t}
	e := b.e
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v := value(b.str(strings.ToLower(kind)))
		if o, ok := over[""]; ok {
			v = o
		}
		n.f[""] = v
		n.val = v
	case *types.Struct:
		s := &structV{t: u}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var v value
			switch {
			case over[f.Name()] != nil:
				v = over[f.Name()]
			case f.Name() == "Attrs":
				v = b.slice(f.Type().Underlying().(*types.Slice).Elem(), vals(attrs))
			case f.Name() == "Content" && !isString(f.Type()):
				sl, ok := f.Type().Underlying().(*types.Slice)
				if !ok {
					e.giveUp(0, "Content of %s is no slice", kind)
				}
				v = b.slice(sl.Elem(), ifaces(content))
			case !f.Exported():
				v = e.zero(f.Type())
			default:
				v = e.fresh(b.st, f.Type(), kind+"."+f.Name(), 0)
			}
			n.f[f.Name()] = v
			s.f = append(s.f, v)
		}
		n.val = s
	default:
		e.giveUp(0, "%s is neither a struct nor a string", kind)
	}
	return n
}

func isString(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsString != 0
}
func vals(ns []*mnode) []value {
	var out []value
	for _, n := range ns {
		out = append(out, n.val)
	}
	return out
}
func ifaces(ns []*mnode) []value {
	var out []value
	for _, n := range ns {
		out = append(out, ifaceV{n.typ, n.val})
	}
	return out
}

// shorthand for nodes

func (b *builder) mk(kind string) *mnode { return b.node(kind, nil, nil, nil) }

// plainElem has no prefix and no namespace.
func (b *builder) plainElem(attrs, content []*mnode) *mnode {
	return b.node("Elem", map[string]value{"Prefix": slit(""), "URI": slit("")}, attrs, content)
}

// plainDoc declares nothing.
func (b *builder) plainDoc() *mnode {
	return b.node("Doc", map[string]value{"SuppressVersion": bconst(true), "SuppressEncoding": bconst(true), "Standalone": nilV{}}, nil, nil)
}

// plainAttr has no prefix and no namespace.
func (b *builder) plainAttr() *mnode {
	return b.node("Attr", map[string]value{"Prefix": slit(""), "URI": slit("")}, nil, nil)
}

// variants of a node for whole-value calls, by description
type variant struct {
	name      string
	heavy     bool
	make      func(b *builder) *mnode
	startOnly bool
}

var startKinds = []string{"Doc", "Comment", "CData", "DTD", "DTDAttList", "Elem"}
var leafKinds = []string{"Raw", "Text", "CommentContent", "CDataContent", "PI", "DTDElem", "DTDEntity", "DTDAttr", "Notation", "Attr"}

func variants(kind string) []variant {
	switch kind {
	case "Elem":
		v := func(n string, heavy bool, f func(b *builder) *mnode) variant {
			return variant{name: n, heavy: heavy, make: f}
		}
		content := func(kinds ...string) func(b *builder) *mnode {
			return func(b *builder) *mnode {
				var c []*mnode
				for _, k := range kinds {
					if k == "Elem" {
						c = append(c, b.plainElem(nil, nil))
					} else {
						c = append(c, b.mk(k))
					}
				}
				return b.plainElem(nil, c)
			}
		}
		return []variant{
			v("Elem", false, func(b *builder) *mnode { return b.mk("Elem") }),
			v("Elem with an attribute", true, func(b *builder) *mnode { return b.node("Elem", nil, []*mnode{b.mk("Attr")}, nil) }),
			{name: "Elem with two attributes", heavy: true, startOnly: true, make: func(b *builder) *mnode {
				return b.node("Elem", map[string]value{"Full": bconst(false)}, []*mnode{b.mk("Attr"), b.mk("Attr")}, nil)
			}},
			v("Elem with a prefix and two plain attributes", true, func(b *builder) *mnode { return b.node("Elem", nil, []*mnode{b.plainAttr(), b.plainAttr()}, nil) }),
			v("Elem with three plain attributes", true, func(b *builder) *mnode {
				return b.plainElem([]*mnode{b.plainAttr(), b.plainAttr(), b.plainAttr()}, nil)
			}),
			v("Elem with text", false, content("Text")),
			v("Elem with comment", true, content("Comment")),
			v("Elem with CDATA", true, content("CData")),
			v("Elem with raw content", false, content("Raw")),
			v("Elem with text and element", true, content("Text", "Elem")),
			v("Elem with three children", true, content("Elem", "Text", "Elem")),
			v("Elem with CDATA, comment and text", true, content("CData", "Comment", "Text")),
			v("Elem with text and attribute as content", true, content("Text", "Attr")),
			v("Elem with text and PI as content", true, content("Text", "PI")),
			v("Elem with attribute and text", true, func(b *builder) *mnode {
				return b.node("Elem", map[string]value{"URI": slit("")}, []*mnode{b.mk("Attr")}, []*mnode{b.mk("Text")})
			}),
			v("Elem with nested elements", true, func(b *builder) *mnode {
				return b.plainElem(nil, []*mnode{b.plainElem(nil, []*mnode{b.plainElem(nil, nil), b.mk("Text")}), b.plainElem(nil, nil)})
			}),
			v("Elem with nested elements and attributes", true, func(b *builder) *mnode {
				return b.plainElem([]*mnode{b.plainAttr()}, []*mnode{b.plainElem([]*mnode{b.plainAttr()}, []*mnode{b.mk("Text")})})
			}),
			v("Elem with a prefix, an attribute, text and element", true, func(b *builder) *mnode {
				return b.node("Elem", map[string]value{"Prefix": b.some("prefix"), "URI": slit("")}, []*mnode{b.plainAttr()}, []*mnode{b.mk("Text"), b.plainElem(nil, nil)})
			}),
			v("Elem with a namespace, two attributes, element and CDATA", true, func(b *builder) *mnode {
				return b.node("Elem", map[string]value{"Prefix": b.some("prefix"), "URI": b.some("uri")}, []*mnode{b.plainAttr(), b.plainAttr()}, []*mnode{b.plainElem(nil, nil), b.mk("CData")})
			}),
			v("Elem with a namespace and prefixed attributes", true, func(b *builder) *mnode {
				p := func(u value) *mnode {
					return b.node("Attr", map[string]value{"Prefix": b.some("prefix"), "URI": u}, nil, nil)
				}
				return b.node("Elem", map[string]value{"Prefix": b.some("prefix"), "URI": b.some("uri"), "Full": bconst(false)}, []*mnode{p(slit("")), p(b.some("uri"))}, nil)
			}),
			v("Elem with a namespace and a nested one with an attribute with a namespace", true, func(b *builder) *mnode {
				a := b.node("Attr", map[string]value{"Prefix": b.some("prefix"), "URI": b.some("uri")}, nil, nil)
				in := b.node("Elem", map[string]value{"Prefix": b.some("prefix"), "URI": b.some("uri"), "Full": bconst(false)}, []*mnode{a}, []*mnode{b.mk("Text")})
				return b.node("Elem", map[string]value{"Prefix": b.some("prefix"), "URI": b.some("uri"), "Full": bconst(false)}, nil, []*mnode{in})
			}),
			v("Elem with a namespace and a plain nested one with an attribute", true, func(b *builder) *mnode {
				a := b.node("Attr", map[string]value{"Prefix": b.some("prefix"), "URI": slit("")}, nil, nil)
				return b.node("Elem", map[string]value{"Prefix": b.some("prefix"), "URI": b.some("uri"), "Full": bconst(false)}, nil, []*mnode{b.plainElem([]*mnode{a}, nil)})
			}),
			v("Elem with a prefixed element", true, func(b *builder) *mnode {
				return b.node("Elem", map[string]value{"Full": bconst(false)}, nil, []*mnode{b.mk("Elem")})
			}),
		}
	case "DTDAttList":
		n := func(k int) func(b *builder) *mnode {
			return func(b *builder) *mnode {
				var as []*mnode
				for i := 0; i < k; i++ {
					as = append(as, b.mk("DTDAttr"))
				}
				return b.node("DTDAttList", nil, as, nil)
			}
		}
		return []variant{{name: "DTDAttList", make: n(0)}, {name: "DTDAttList with an attribute", make: n(1)}, {name: "DTDAttList with two attributes", heavy: true, make: n(2)}}
	}
	return []variant{{name: kind, make: func(b *builder) *mnode { return b.mk(kind) }}}
}

var kindProps = map[string]string{"Doc": "C11,C06", "Comment": "C12,C06", "CData": "C12,C06", "DTD": "C10,C06", "DTDAttList": "C10,C06", "Elem": "C01,C06", "Raw": "C17", "Text": "C02,C14", "CommentContent": "C12",
	"CDataContent": "C12", "PI": "C12", "DTDElem": "C10", "DTDEntity": "C10", "DTDAttr": "C10", "Notation": "C10", "Attr": "C14,C13"}

func (b *builder) iface(name string) types.Type { return b.typ(name) }

// allOps lists the API calls.
func allOps(r *runner) []*op {
	var ops []*op
	add := func(o *op, method string) *op {
		o.fn = r.e.method("Writer", method, true)
		if o.fn == nil {
			r.e.giveUp(0, "the method %s of Writer is missing", method)
		}
		if o.name == "" {
			o.name = method
		} else {
			o.name = method + "(" + o.name + ")"
		}
		if o.first != "" {
			for _, p := range strings.Split(parents[o.first], ",") {
				if p != "" {
					o.in = append(o.in, p)
				}
			}
			if len(o.in) == 0 {
				o.in = []string{"-"}
			}
		}
		ops = append(ops, o)
		return o
	}
	for _, k := range startKinds {
		for _, v := range variants(k) {
			v := v
			add(&op{name: v.name, heavy: v.heavy, start: true, first: k, props: kindProps[k] + ",C14", make: func(b *builder) ([]value, func(*mrun)) {
				n := v.make(b)
				return []value{n.val}, func(m *mrun) { m.start(n) }
			}}, "Start"+k)
		}
	}
	for _, k := range append([]string{"CData", "Comment", "Elem", "DTDAttList"}, leafKinds...) {
		for _, v := range variants(k) {
			v := v
			k := k
			if v.startOnly {
				continue
			}
			add(&op{name: v.name, heavy: v.heavy, first: k, props: kindProps[k] + ",C14", make: func(b *builder) ([]value, func(*mrun)) {
				n := v.make(b)
				arg := n.val
				if k == "Attr" {
					arg = b.slice(n.typ, []value{n.val})
				}
				return []value{arg}, func(m *mrun) { m.write(n) }
			}}, "Write"+k)
		}
	}
	for n := 0; n <= 3; n++ {
		if n == 1 {
			continue
		}
		n := n
		add(&op{name: fmt.Sprintf("%d attributes", n), heavy: n > 0, first: "Attr", props: "C14,C13", make: func(b *builder) ([]value, func(*mrun)) {
			var as []*mnode
			for i := 0; i < n; i++ {
				if n > 2 {
					as = append(as, b.plainAttr())
				} else {
					as = append(as, b.mk("Attr"))
				}
			}
			return []value{b.slice(b.typ("Attr"), vals(as))}, func(m *mrun) {
				for _, a := range as {
					m.attr(a)
				}
			}
		}}, "WriteAttr")
	}
	// ends
	for _, k := range []string{"CData", "Comment", "DTD", "DTDAttList"} {
		k := k
		add(&op{props: "C06," + kindProps[k], end: true, make: func(b *builder) ([]value, func(*mrun)) {
			return nil, func(m *mrun) { m.endKind(con(m.kindNo(k)), nil, "C06") }
		}}, "End"+k)
	}
	for n := 0; n <= 3; n++ {
		n := n
		for _, full := range []bool{false, true} {
			full := full
			name := "EndElem"
			if full {
				name = "EndElemFull"
			}
			add(&op{name: fmt.Sprintf("%d names", n), props: "C06,C01", end: true, make: func(b *builder) ([]value, func(*mrun)) {
				ns := b.names(n)
				return []value{b.strs(ns)}, func(m *mrun) {
					if t := m.g.top(); full && t != nil && t.kind == "Elem" {
						t.full = bconst(true)
					}
					m.endKind(con(m.kindNo("Elem")), ns, "C06")
				}
			}}, name)
		}
		add(&op{name: fmt.Sprintf("any kind, %d names", n), props: "C06", end: true, make: func(b *builder) ([]value, func(*mrun)) {
			ns := b.names(n)
			k := b.e.fresh(b.st, b.typ("NodeKind"), "kind", 0).(intV)
			return []value{k, b.strs(ns)}, func(m *mrun) { m.endKind(k.l, ns, "C06") }
		}}, "End")
	}
	add(&op{props: "C06", end: true, make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) {
			if m.g.top() == nil {
				panic(reject{props: "C06", what: "nothing is started", mis: true})
			}
			m.endTop("C06")
		}
	}}, "EndAny")
	add(&op{props: "C09,C16", make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) { m.out = append(m.out, piece{k: evFlush, props: "C09,C16"}) }
	}}, "Flush")
	add(&op{props: "C01,C06", make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) { m.next() }
	}}, "Next")
	add(&op{props: "C06", depth: true, make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) {}
	}}, "Depth")
	// generic calls
	list := func(kinds []string, b *builder) []*mnode {
		var out []*mnode
		for _, k := range kinds {
			switch k {
			case "Elem":
				out = append(out, b.plainElem(nil, nil))
			case "Attr":
				out = append(out, b.plainAttr())
			case "Doc":
				if len(kinds) > 1 {
					out = append(out, b.plainDoc())
				} else {
					out = append(out, b.mk(k))
				}
			default:
				out = append(out, b.mk(k))
			}
		}
		return out
	}
	first := func(kinds []string) string {
		if len(kinds) == 0 {
			return ""
		}
		return kinds[0]
	}
	props := func(kinds []string) string {
		s := "C14"
		for _, k := range kinds {
			s += "," + kindProps[k]
		}
		return s
	}
	write := func(heavy bool, kinds ...string) {
		add(&op{name: strings.Join(kinds, ", "), heavy: heavy, first: first(kinds), props: props(kinds), make: func(b *builder) ([]value, func(*mrun)) {
			ns := list(kinds, b)
			return []value{b.slice(b.typ("Writable"), ifaces(ns))}, func(m *mrun) {
				for _, n := range ns {
					m.write(n)
				}
			}
		}}, "Write")
	}
	write(false)
	for _, k := range append([]string{"CData", "Comment", "Elem", "DTDAttList"}, leafKinds...) {
		write(false, k)
	}
	for _, p := range []string{"Attr,Text", "Text,Attr", "Elem,Elem", "Text,Comment", "PI,Elem", "CommentContent,CommentContent", "CDataContent,CDataContent", "DTDElem,DTDAttList", "DTDEntity,Notation", "DTDAttr,DTDAttr", "Raw,Text", "Elem,Text,Elem"} {
		write(true, strings.Split(p, ",")...)
	}
	start := func(heavy bool, kinds ...string) {
		add(&op{name: strings.Join(kinds, ", "), heavy: heavy, start: true, first: first(kinds), props: props(kinds) + ",C06", make: func(b *builder) ([]value, func(*mrun)) {
			ns := list(kinds, b)
			return []value{b.slice(b.typ("Startable"), ifaces(ns))}, func(m *mrun) {
				for _, n := range ns {
					m.start(n)
				}
			}
		}}, "Start")
	}
	start(false)
	for _, k := range startKinds {
		start(false, k)
	}
	for _, p := range []string{"Doc,Elem", "Elem,Elem", "Doc,DTD", "DTD,DTDAttList", "Elem,Comment", "Elem,CData", "Elem,Elem,Elem", "Doc,DTD,DTDAttList", "Comment,Elem"} {
		start(true, strings.Split(p, ",")...)
	}
	block := func(heavy bool, kinds ...string) {
		add(&op{name: strings.Join(kinds, ", "), heavy: heavy, first: first(kinds), props: props(kinds) + ",C06", make: func(b *builder) ([]value, func(*mrun)) {
			ns := list(kinds, b)
			return []value{ifaces(ns[:1])[0], b.slice(b.typ("Writable"), ifaces(ns[1:]))}, func(m *mrun) {
				m.start(ns[0])
				for _, n := range ns[1:] {
					m.write(n)
				}
				m.endTop("C06")
			}
		}}, "Block")
	}
	for _, k := range startKinds {
		block(false, k)
	}
	for _, p := range []string{"Elem,Text", "Elem,Attr", "Elem,Attr,Text", "Elem,Elem,Text", "Doc,Elem", "Doc,Text", "Doc,Comment,Elem", "Comment,CommentContent", "CData,CDataContent", "CData,CDataContent,CDataContent", "DTD,DTDElem", "DTD,DTDEntity", "DTD,DTDAttList", "DTD,Comment", "DTDAttList,DTDAttr", "DTDAttList,DTDAttr,DTDAttr", "Elem,Text,DTDElem"} {
		block(true, strings.Split(p, ",")...)
	}
	return ops
}
