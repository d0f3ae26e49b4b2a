package main

import (
	"fmt"
	"go/types"
	"strings"
)

// After the sink has failed: every state in which a call has failed because
// of it, and the states that further calls lead to from there. Nothing can be
// written any more, so every call that has something to write has to fail,
// and none may panic, however often it is repeated.

type failState struct {
	st   *state
	key  string
	desc string
	n    int // calls since the sink failed
}

const maxFailures = 6000

// shape describes a value without what is symbolic in it.
func shape(v value, b *strings.Builder) {
	switch v := v.(type) {
	case nil:
		b.WriteString("-")
	case nilV:
		b.WriteString("nil")
	case intV:
		if v.l.isConst() {
			fmt.Fprintf(b, "%d", v.l.c)
		} else {
			b.WriteString("n")
		}
	case boolV:
		fmt.Fprintf(b, "b%d", v.k)
	case *strV:
		if l, ok := v.lit(); ok {
			fmt.Fprintf(b, "%q", l)
		} else {
			b.WriteString("s")
		}
	case sliceV:
		switch {
		case v.null:
			b.WriteString("[]")
		case v.len.isConst():
			fmt.Fprintf(b, "[%d]", v.len.c)
		default:
			b.WriteString("[n]")
		}
	case *structV:
		b.WriteByte('{')
		for i, x := range v.f {
			// counters are zero or not
			if n, ok := x.(intV); ok && n.l.isConst() && n.l.c > 0 && v.t.Field(i).Type() == types.Typ[types.Int] {
				b.WriteString("n ")
				continue
			}
			shape(x, b)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case ifaceV:
		b.WriteString(v.t.String() + ":")
		shape(v.v, b)
	default:
		fmt.Fprintf(b, "%T", v)
	}
}

// failed keeps a state in which a call has failed because the sink has.
func (r *runner) failed(st *state, pre lin, n int) {
	if r.fails == nil {
		return
	}
	e := r.e
	err := e.try(func() {
		d := r.depthOf(st)
		var b strings.Builder
		if k := d.plus(-r.d0); k.isConst() {
			fmt.Fprintf(&b, "depth %d", k.c)
		} else {
			fmt.Fprintf(&b, "depth %v", d.sub(pre))
		}
		desc := "nothing started"
		idx := d.plus(-r.d0 - 1)
		if e.decideLE(st, idx.mul(-1)) == 1 {
			if el, ok := r.elem(st, idx); ok {
				b.WriteByte('/')
				shape(el, &b)
				desc = r.describeElem(el)
			}
		}
		w := st.heap[r.w.o].(*structV)
		for i, v := range w.f {
			if i != r.nodes {
				b.WriteByte('/')
				shape(v, &b)
			}
		}
		key := b.String()
		if _, ok := r.failKeys[key]; ok {
			return
		}
		r.failKeys[key] = true
		s := st.clone()
		s.g = s.g.clone()
		s.g.depth = d
		s.trace, s.errs, s.xerr = nil, nil, nil
		*r.fails = append(*r.fails, &failState{st: s, key: key, desc: desc, n: n})
	})
	_ = err // such a state is not followed
}

func (r *runner) describeElem(v value) string {
	s, ok := v.(*structV)
	if !ok {
		return "a node"
	}
	kind, state := "a node", ""
	for i := 0; i < s.t.NumFields(); i++ {
		switch s.t.Field(i).Name() {
		case "kind":
			if n, ok := s.f[i].(intV); ok && n.l.isConst() {
				kind = "a node of kind " + fmt.Sprint(n.l.c)
				x := &extra{engine: r.e}
				for _, c := range x.constsOf("NodeKind") {
					if c.v == n.l.c {
						kind = "a started " + c.name
					}
				}
			}
		case "state":
			if n, ok := s.f[i].(intV); ok && n.l.isConst() {
				state = " in state " + fmt.Sprint(n.l.c)
			}
		}
	}
	return kind + state
}

// failures runs every small call in every state of a failed writer.
func (r *runner) failures() {
	e := r.e
	r.sym = true
	done := map[string]bool{}
	n := 0
	for i := 0; i < len(*r.fails) && i < maxFailures; i++ {
		f := (*r.fails)[i]
		n++
		for _, o := range r.ops {
			if o.heavy {
				continue
			}
			if k := o.name + f.desc; !strings.HasPrefix(o.name, "End") {
				// in one state of each description
				if done[k] {
					continue
				}
				done[k] = true
			}
			e.ctx = fmt.Sprintf("%s after the sink has failed, %s, %s", o.name, f.desc, r.cfg.name)
			r.stepFailed(f, o)
		}
	}
	r.seen["C09 states of a failed writer"] += n
	if len(*r.fails) == 0 {
		r.find("C09", "vacuous", "-", "-", "no call was seen to fail because of the sink")
	}
}

func (r *runner) stepFailed(f *failState, o *op) {
	e := r.e
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			fn := e.curFn()
			e.stack = nil
			r.find(o.props, "undecided", e.pos(u.pos), fn, u.what)
		}
	}()
	e.stats.ops++
	st := f.st.clone()
	st.trace, st.errs, st.xerr = nil, nil, nil
	st.failed, st.pend = true, false
	st.lastW = e.id()
	st.g.peeks = nil
	r.top0 = st.g.depth.plus(-r.d0 - 1)
	b := &builder{e: e, st: st, r: r}
	args, _ := o.make(b)
	pos, fn := e.pos(o.fn.Pos()), shortFn(o.fn)
	for _, oc := range e.callFn(st, o.fn, append([]value{r.w}, args...), nil, o.fn.Pos()) {
		e.stats.paths++
		if oc.panic {
			r.find("C21", "panic", e.pos(oc.pos), fn, "reaches a panic: "+oc.what)
			continue
		}
		r.count("C09 calls on a failed writer")
		if o.depth {
			continue
		}
		ok, bad := e.fork(oc.st, e.isNil(oc.st, oc.ret))
		for _, s := range ok {
			for _, ev := range s.trace {
				if ev.kind == evOut || ev.kind == evEsc || ev.kind == evFlush {
					r.find("C09", "earlier-failure-lost", pos, fn, "returns nil although the sink failed in an earlier call, having written or flushed something at "+ev.pos)
					break
				}
			}
			if len(s.errs) > 0 && r.cfg.enforce {
				x := s.errs[0]
				r.find("C08", "error-swallowed", x.pos, fn, fmt.Sprintf("returns nil although the check %q failed", x.what))
			}
		}
		if f.n+1 < r.failDepth {
			for _, s := range append(bad, ok...) {
				if s.failed {
					r.failed(s, f.st.g.depth, f.n+1)
				}
			}
		}
	}
}
