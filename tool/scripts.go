package main

import (
	"fmt"
	"strings"
)

// Scripts: calls that end several nodes at once, on stacks that are fully
// known.

// chain is a way to reach a known stack.
type chain struct {
	st    *state
	name  string
	depth int
}

// simple operations used to build stacks
func (r *runner) simple() map[string]*op {
	e := r.e
	m := map[string]*op{}
	add := func(key, method, props string, mk func(b *builder) ([]value, func(*mrun))) {
		fn := e.method("Writer", method, true)
		if fn == nil {
			e.giveUp(0, "the method %s of Writer is missing", method)
		}
		m[key] = &op{name: method, fn: fn, props: props, make: mk}
	}
	start := func(key, kind string, mk func(b *builder) *mnode) {
		add(key, "Start"+kind, "C06,C07", func(b *builder) ([]value, func(*mrun)) {
			n := mk(b)
			return []value{n.val}, func(m *mrun) { m.start(n) }
		})
	}
	write := func(key, kind string, mk func(b *builder) *mnode) {
		add(key, "Write"+kind, "C06,C07", func(b *builder) ([]value, func(*mrun)) {
			n := mk(b)
			return []value{n.val}, func(m *mrun) { m.write(n) }
		})
	}
	start("D", "Doc", func(b *builder) *mnode {
		return b.plainDoc()
	})
	start("E", "Elem", func(b *builder) *mnode { return b.plainElem(nil, nil) })
	start("P", "Elem", func(b *builder) *mnode {
		return b.node("Elem", map[string]value{"Full": bconst(false), "URI": slit("")}, nil, nil)
	})
	start("T", "DTD", func(b *builder) *mnode {
		return b.node("DTD", map[string]value{"PublicID": slit(""), "SystemID": slit("")}, nil, nil)
	})
	start("L", "DTDAttList", func(b *builder) *mnode { return b.mk("DTDAttList") })
	start("C", "Comment", func(b *builder) *mnode { return b.mk("Comment") })
	start("S", "CData", func(b *builder) *mnode { return b.mk("CData") })
	write("t", "Text", func(b *builder) *mnode { return b.mk("Text") })
	write("r", "Raw", func(b *builder) *mnode { return b.mk("Raw") })
	write("e", "Elem", func(b *builder) *mnode { return b.plainElem(nil, nil) })
	write("c", "CommentContent", func(b *builder) *mnode { return b.mk("CommentContent") })
	write("s", "CDataContent", func(b *builder) *mnode { return b.mk("CDataContent") })
	write("m", "Comment", func(b *builder) *mnode { return b.mk("Comment") })
	write("d", "DTDElem", func(b *builder) *mnode { return b.mk("DTDElem") })
	write("l", "DTDAttr", func(b *builder) *mnode { return b.mk("DTDAttr") })
	return m
}

// multiEnds lists the calls that end several nodes, for a stack of n nodes.
func (r *runner) multiEnds(n int) []*op {
	e := r.e
	var ops []*op
	add := func(o *op, method string) {
		o.fn = e.method("Writer", method, true)
		if o.fn == nil {
			e.giveUp(0, "the method %s of Writer is missing", method)
		}
		o.name = strings.TrimSpace(method + " " + o.name)
		o.end = true
		o.props = "C07"
		ops = append(ops, o)
	}
	all := func(m *mrun, keep int) {
		for len(m.g.cells) > keep {
			m.endTop("C07")
		}
	}
	add(&op{make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) { all(m, 0) }
	}}, "EndAll")
	add(&op{make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) {
			all(m, 0)
			m.out = append(m.out, piece{k: evFlush, props: "C07,C09"})
		}
	}}, "EndAllFlush")
	add(&op{make: func(b *builder) ([]value, func(*mrun)) {
		return nil, func(m *mrun) {
			if len(m.g.cells) == 0 || m.g.cells[0].kind != "Doc" {
				m.reject("C07", "the bottom is not a document", nil)
			}
			all(m, 1)
			m.endTop("C07")
		}
	}}, "EndDoc")
	toDepth := func(d int, k string, names int) {
		add(&op{name: fmt.Sprintf("(%d above the bottom, %s, %d names)", d, k, names), make: func(b *builder) ([]value, func(*mrun)) {
			var kind lin
			if k == "any kind" {
				kind = e.fresh(b.st, b.typ("NodeKind"), "kind", 0).(intV).l
			} else {
				kind = con(e.constOf(k + "Node"))
			}
			ns := b.names(names)
			return []value{intV{con(r.d0 + int64(d))}, intV{kind}, b.strs(ns)}, func(m *mrun) {
				if len(m.g.cells) <= d {
					panic(reject{props: "C07", what: "nothing is above that depth", mis: true})
				}
				all(m, d+1)
				m.endKind(kind, ns, "C07")
			}
		}}, "EndToDepth")
	}
	for d := 0; d <= n+1; d++ {
		toDepth(d, "any kind", 0)
		toDepth(d, "Elem", 1)
		if d < n {
			toDepth(d, "any kind", 1)
			toDepth(d, "Elem", 2)
		}
	}
	return ops
}

// scripts builds stacks and ends them.
func (r *runner) scripts(root *state, max int) error {
	e := r.e
	r.sym = false
	return e.try(func() {
		ops := r.simple()
		step := func(c chain, key string) (out []chain) {
			o := ops[key]
			e.ctx = c.name + key + ", " + r.cfg.name
			for _, s := range r.step(c.st, o) {
				out = append(out, chain{s, c.name + key, len(s.g.cells)})
			}
			return
		}
		run := func(word string) (cs []chain) {
			cs = []chain{{root, "", 0}}
			for _, k := range word {
				var next []chain
				for _, c := range cs {
					next = append(next, step(c, string(k))...)
				}
				if len(next) > 6 {
					next = next[:6]
				}
				cs = next
			}
			return
		}
		words := []string{"", "D", "E", "P", "C", "S", "T", "L", "Dm", "Et", "Er", "Ee", "Cc", "Ss", "Td", "Ll",
			"DE", "DP", "DC", "DT", "EE", "EtE", "EC", "ES", "TL", "TC", "TdL", "DEt", "EEe", "ErE", "PP", "ESs",
			"DEE", "DTL", "DTC", "EEE", "EEC", "EtEtE", "DES", "DECc", "DEtEe", "PEP", "DTLl", "DTdC", "EES"}
		if max > 3 {
			words = append(words, "EEEE", "DEEE", "DEEC", "EtEEtE", "EEEEEEEEE", "DEEEEEEEEE", "DEEEEtEEEEEE", "EEEEEEES")
		}
		n := 0
		for _, w := range words {
			for _, c := range run(w) {
				n++
				for _, o := range r.multiEnds(c.depth) {
					e.ctx = o.name + " after " + c.name + ", " + r.cfg.name
					for _, s := range r.step(c.st, o) {
						r.checkAfterEnd(s, c)
					}
				}
			}
		}
		r.seen["stacks ended"] += n
		r.scriptRoot = root
		r.wide()
	})
}

// checkAfterEnd verifies that the revealed node is the one that was there.
func (r *runner) checkAfterEnd(st *state, c chain) {
	n := len(st.g.cells)
	if n == 0 || n > len(c.st.g.cells) {
		return
	}
	i := st.g.depth.plus(-r.d0 - 1)
	x, ok1 := r.elem(c.st, i)
	y, ok2 := r.elem(st, i)
	if !ok1 || !ok2 || !sameIn(r.e, st, x, y) {
		r.find("C06,C07", "changes-below", "-", "Writer", "an end changes the node it reveals")
	}
}
