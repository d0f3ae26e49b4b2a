package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The built-in indenter, called with every pair of events that a writer can
// tell it of, in every state that any history can leave it in.
//
// Its state is described by a template: what each of its numbers, flags and
// lengths is as a function of the number of nodes that are open; the rest is
// arbitrary. The template is inferred from its first few states and what is
// not preserved by every call is dropped until all that is left is.

// tmpl describes a value as a function of the nesting.
type tmpl struct {
	kind string // int, bool, keep, slice, struct, any
	c, d int64  // int and length of a slice: c + d*nesting
	t    types.Type
	v    value // keep: the value it always has; bool: its value
	elem types.Type
	f    []*tmpl
}

// indentKinds are the nodes whose content is indented.
var indentKinds = map[string]bool{"Elem": true, "DTD": true, "DTDAttList": true}

var containers = map[string]bool{"Doc": true, "Elem": true, "DTD": true, "DTDAttList": true, "Comment": true, "CData": true}

// textual are the pieces that are character data or part of something else.
var textual = map[string]bool{"Text": true, "CData": true, "CDataContent": true, "CommentContent": true, "Raw": true, "Attr": true}

type iev struct {
	state int64
	kind  string
}

func (v iev) String() string {
	if v.kind == "" {
		return "nothing"
	}
	return v.kind + " " + []string{"open", "opened", "ended"}[v.state]
}

type ipair struct {
	last, next iev
	in         string // the node that both are in, if known
}

// indentPairs lists the pairs of events that follow each other in a document.
func indentPairs() (out []ipair) {
	seen := map[ipair]bool{}
	add := func(last, next iev, in string) {
		p := ipair{last, next, in}
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	var kinds []string
	for k := range parents {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	open := func(k string) iev { return iev{stOpen, k} }
	for _, k := range append(kinds, "Raw") {
		add(iev{}, open(k), "")
	}
	add(iev{stEnded, "Attr"}, open("Attr"), "Elem")
	for _, p := range kinds {
		if !containers[p] {
			continue
		}
		add(open(p), iev{stOpened, p}, p)
		add(open(p), open("Raw"), p)
		add(iev{stEnded, "Raw"}, iev{stOpened, p}, p)
		if p == "Elem" {
			add(open(p), open("Attr"), p)
			add(iev{stEnded, "Attr"}, iev{stOpened, p}, p)
		}
		last := []iev{{stOpened, p}, {stEnded, "Raw"}}
		next := []iev{{stEnded, p}, open("Raw")}
		for _, k := range kinds {
			if k != "Attr" && hasWord(parents[k], p) {
				last = append(last, iev{stEnded, k})
				next = append(next, open(k))
			}
		}
		for _, l := range last {
			for _, n := range next {
				add(l, n, p)
			}
		}
	}
	// one after another with nothing started
	for _, l := range append(kinds, "Raw") {
		for _, n := range append(kinds, "Raw") {
			add(iev{stEnded, l}, open(n), "")
		}
	}
	return
}

// between reports whether white space is harmless between two events.
func (p ipair) between() bool {
	l, n := p.last, p.next
	if n.state == stEnded && n.kind == "Doc" {
		return true
	}
	switch {
	case l.kind == "", l.state == stOpen, n.state == stOpened, textual[l.kind], textual[n.kind]:
		return false
	case n.state == stEnded && n.kind == "Comment", l.state == stOpened && l.kind == "Comment":
		return false
	case n.state == stEnded && n.kind == "Elem" && l.state == stOpened:
		return false // no children
	}
	return true
}

type indentCheck struct {
	*extra
	r     *runner
	root  *state
	fn    *ssa.Function
	typ   types.Type // the indenter's structure
	event *types.Struct
	tm    *tmpl
	lost  bool
	// the sink has failed
	broken bool
	str    *strV
}

func checkIndenter(ld *loaded, res *result) {
	r, root, err := newRunner(ld, conf{true, false}, false)
	e := r.e
	if err != nil {
		res.collect(e)
		res.fail("C15", err.Error())
		return
	}
	x := &indentCheck{extra: &extra{engine: e, res: res, prop: "C15"}, r: r, root: root}
	err = e.try(x.run)
	if err != nil {
		res.fail("C15", err.Error()+" ("+e.ctx+")")
	}
	for _, fd := range e.finds.by {
		if !fd.has("C15") {
			fd.props = append(fd.props, "C15")
		}
	}
	res.collect(e)
}

func (x *indentCheck) run() {
	e := x.engine
	si := x.ld.root.Type("StandardIndenter")
	ev := x.ld.root.Type("Event")
	if si == nil || ev == nil {
		e.giveUp(0, "the type StandardIndenter or Event is missing")
	}
	x.typ = si.Type()
	var ok bool
	if x.event, ok = ev.Type().Underlying().(*types.Struct); !ok {
		e.giveUp(0, "Event is no structure")
	}
	x.fn = x.need("the method Indent", e.method("StandardIndenter", "Indent", true))
	wrap := x.need("the method Wrap", e.method("StandardIndenter", "Wrap", true))
	mk := x.need("the function NewStandardIndenter", x.extra.fn("NewStandardIndenter"))
	e.ctx = "a new indenter"
	var first []value
	for i := 0; i < 2; i++ {
		// a second one is not the first one
		outs := x.returns(x.root.clone(), mk, nil, false)
		if len(outs) != 1 {
			e.giveUp(mk.Pos(), "NewStandardIndenter has %d outcomes", len(outs))
		}
		p, ok := outs[0].ret.(ptrV)
		if !ok || len(p.path) > 0 {
			e.giveUp(mk.Pos(), "NewStandardIndenter does not return a new indenter")
		}
		first = append(first, p)
		x.root = outs[0].st
	}
	x.count("C15 indenters")
	p := first[0].(ptrV)
	if p.o == first[1].(ptrV).o {
		x.find("indenter-shared", mk, "returns the same indenter again")
	}
	x.str = satom(e.newAtom("IndentString"))
	base := x.root.clone()
	sv, ok := base.heap[p.o].(*structV)
	if !ok {
		e.giveUp(mk.Pos(), "the indenter is not known")
	}
	n := *sv
	n.f = append([]value(nil), sv.f...)
	found := false
	for i := range n.f {
		if n.t.Field(i).Name() == "IndentString" {
			n.f[i], found = x.str, true
		}
	}
	if !found {
		e.giveUp(mk.Pos(), "the indenter has no IndentString")
	}
	base.wheap()[p.o] = &n

	// Wrap
	e.ctx = "every string"
	for _, o := range x.returns(base.clone(), wrap, []value{p, satom(e.newAtom("content"))}, false) {
		x.count("C15 wraps")
		s, ok := o.ret.(*strV)
		if !ok || len(s.p) != 1 || s.p[0].a == nil || s.p[0].a.name != "content" {
			x.find("wrap", wrap, "changes the text")
		}
	}

	// the first few states
	samples := []*state{base}
	for i := 0; i < 3; i++ {
		e.ctx = fmt.Sprintf("the start tag of an element at depth %d", i)
		outs := x.event1(samples[i].clone(), p, ipair{iev{stOpen, "Elem"}, iev{stOpened, "Elem"}, "Elem"})
		if len(outs) == 0 {
			e.giveUp(x.fn.Pos(), "Indent does not succeed")
		}
		samples = append(samples, outs[0])
	}
	var vals []value
	for _, s := range samples {
		vals = append(vals, s.heap[p.o])
	}
	x.tm = x.infer(x.typ, vals)

	pairs := indentPairs()
	max := x.r.near() + 3
	for round := 0; ; round++ {
		if round > 30 {
			e.giveUp(x.fn.Pos(), "no description of the indenter's state is preserved by Indent")
		}
		x.lost = false
		e.finds = newFindings()
		for _, pr := range pairs {
			for n := 0; n <= max; n++ {
				if x.possible(pr, n) {
					x.pair(base, p, pr, n)
				}
			}
		}
		if !x.lost {
			break
		}
	}
	x.afterFailure(base, p)
	x.res.notes = append(x.res.notes, fmt.Sprintf("the built-in indenter: %d pairs of events, up to %d open nodes, invariant: %s", len(pairs), max, x.tm.describe(x.typ)))
}

func (x *indentCheck) possible(pr ipair, n int) bool {
	if pr.in == "" {
		return n == 0
	}
	if indentKinds[pr.in] && n == 0 && !(pr.next.state == stOpened || pr.last.state == stOpen || pr.last.kind == "Attr") {
		return false
	}
	// nothing that is indented encloses a document
	return pr.in != "Doc" || n == 0
}

// pair judges what Indent does with two events when n nodes are open.
func (x *indentCheck) pair(base *state, p ptrV, pr ipair, n int) {
	e := x.engine
	e.ctx = fmt.Sprintf("%v, then %v, %d nodes open", pr.last, pr.next, n)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			e.stack = nil
			x.findAt("undecided", e.pos(u.pos), shortFn(x.fn), u.what)
		}
	}()
	var starts []*state
	if pr.last.state == stOpened {
		// just opened: the call before this one is known too
		m := n
		if indentKinds[pr.last.kind] {
			m--
		}
		st := x.state(base, p, m)
		starts = x.event1(st, p, ipair{iev{stOpen, pr.last.kind}, pr.last, pr.in})
	} else {
		starts = []*state{x.state(base, p, n)}
	}
	after := n
	if indentKinds[pr.next.kind] {
		switch pr.next.state {
		case stOpened:
			after++
		case stEnded:
			after--
		}
	}
	for _, st := range starts {
		w0 := st.heap[x.r.w.o]
		for _, o := range x.call(st, p, pr) {
			if o.panic {
				continue
			}
			s := o.st
			ok, bad := e.fork(s, e.isNil(s, o.ret))
			for _, t := range bad {
				if !t.failed && len(t.xerr) == 0 {
					x.find("indent-fails", x.fn, "returns an error although nothing failed")
				}
			}
			for _, t := range ok {
				x.count("C15 calls of the indenter")
				if t.failed {
					x.finds.add(finding{props: uniq("C09,C15"), rule: "write-error-lost", where: e.pos(x.fn.Pos()), fn: shortFn(x.fn), msg: "returns nil after a write failed", ctx: e.ctx})
					continue
				}
				if t.pend {
					x.finds.add(finding{props: uniq("C09,C15"), rule: "write-error-unchecked", where: e.pos(x.fn.Pos()), fn: shortFn(x.fn), msg: "returns nil without having looked at the error of the last write", ctx: e.ctx})
				}
				x.output(t, pr, n, after)
				if a, b := w0.(*structV), t.heap[x.r.w.o].(*structV); a != b {
					for i := range a.f {
						if i != x.r.nodes && !sameIn(e, t, b.f[i], a.f[i]) {
							x.find("indenter-writes", x.fn, "changes the writer's "+x.r.wt.Field(i).Name())
						}
					}
				}
				x.fits(x.tm, t, t.heap[p.o], after)
			}
		}
	}
}

// afterFailure ends a node again and again after the sink has failed: it stays
// started.
func (x *indentCheck) afterFailure(base *state, p ptrV) {
	e := x.engine
	defer func() { x.broken = false }()
	for _, pr := range indentPairs() {
		if pr.next.state != stEnded || !indentKinds[pr.next.kind] {
			continue
		}
		for n := 1; n <= 3; n++ {
			if !x.possible(pr, n) {
				continue
			}
			states := []*state{x.state(base, p, n)}
			for i := 0; i <= n+1; i++ {
				e.ctx = fmt.Sprintf("%v, then %v, %d nodes open, call %d after the sink has failed", pr.last, pr.next, n, i)
				x.broken = i > 0
				var next []*state
				for _, st := range states {
					for _, o := range x.call(st.clone(), p, pr) {
						if o.panic {
							continue
						}
						ok, bad := e.fork(o.st, e.isNil(o.st, o.ret))
						x.count("C09 calls of the indenter on a failed writer")
						if x.broken && len(ok) > 0 && len(ok[0].trace) > 0 {
							x.finds.add(finding{props: uniq("C09"), rule: "earlier-failure-lost", where: e.pos(x.fn.Pos()), fn: shortFn(x.fn), msg: "returns nil although the sink has failed", ctx: e.ctx})
						}
						for _, t := range append(bad, ok...) {
							if t.failed && len(next) < 4 {
								next = append(next, t)
							}
						}
					}
				}
				if states = next; len(next) == 0 {
					break
				}
			}
		}
	}
}

func (x *indentCheck) output(t *state, pr ipair, n, after int) {
	e := x.engine
	got, bad := x.r.gotTokens(t, t.trace)
	if bad != "" {
		x.find("indent-output", x.fn, bad)
		return
	}
	if len(got) == 0 {
		x.count("C15 nothing written")
		return
	}
	x.count("C15 written")
	where, fn := e.pos(x.fn.Pos()), shortFn(x.fn)
	if len(t.trace) > 0 {
		where, fn = t.trace[0].pos, t.trace[0].fn
	}
	if !pr.between() {
		x.findAt("indent-place", where, fn, fmt.Sprintf("writes something between %v and %v", pr.last, pr.next))
		return
	}
	depth := n
	if pr.next.state == stEnded {
		depth = after
	}
	var s *strV = x.r.cfg.nl
	for i := 0; i < depth; i++ {
		s = s.concat(x.str)
	}
	if len(got) != 1 || got[0].k != evOut || !e.sameText(t, got[0].s, s) {
		x.findAt("indent-text", where, fn, fmt.Sprintf("writes something else than the newline string and %d times the indent string", depth))
	}
}

func (x *indentCheck) call(st *state, p ptrV, pr ipair) []outcome {
	e := x.engine
	st.trace, st.errs, st.xerr = nil, nil, nil
	st.failed, st.pend = x.broken, false
	id := e.id()
	st.lastW, st.okW = id, id
	if x.broken {
		st.okW = 0
	}
	ev := func(v iev, next bool) value {
		s := &structV{t: x.event}
		for i := 0; i < x.event.NumFields(); i++ {
			f := x.event.Field(i)
			switch {
			case f.Name() == "State":
				s.f = append(s.f, intV{con(v.state)})
			case f.Name() == "Node":
				k := "No"
				if v.kind != "" {
					k = v.kind
				}
				s.f = append(s.f, intV{con(e.constOf(k + "Node"))})
			case f.Name() == "Children" && v.kind != "" && containers[v.kind] && v.state != stOpen:
				if next && v.state == stEnded && pr.last.state == stOpened || v.state == stOpened && pr.last.kind != "Raw" {
					s.f = append(s.f, intV{con(0)})
					break
				}
				n := e.newSym(true, nil)
				e.touch(st, n)
				if v.state == stEnded && pr.last.kind != "Raw" && next {
					e.assumeLE(st, symLin(n).mul(-1).plus(1))
				}
				s.f = append(s.f, intV{symLin(n)})
			default:
				s.f = append(s.f, e.zero(f.Type()))
			}
		}
		return s
	}
	outs := x.callFn(st, x.fn, []value{p, x.r.w, ev(pr.last, false), ev(pr.next, true)}, nil, x.fn.Pos())
	x.res.ops[shortFn(x.fn)]++
	for _, o := range outs {
		x.stats.paths++
		if o.panic {
			x.finds.add(finding{props: uniq("C15,C21"), rule: "panic", where: e.pos(o.pos), fn: shortFn(x.fn), msg: "reaches a panic: " + o.what, ctx: e.ctx})
		}
	}
	return outs
}

// event1 gives the states after a call that succeeds.
func (x *indentCheck) event1(st *state, p ptrV, pr ipair) (out []*state) {
	for _, o := range x.call(st, p, pr) {
		if o.panic {
			continue
		}
		ok, _ := x.fork(o.st, x.isNil(o.st, o.ret))
		for _, s := range ok {
			if !s.failed {
				out = append(out, s)
			}
		}
	}
	return
}

// infer describes a value from its first instances.
func (x *indentCheck) infer(t types.Type, vs []value) *tmpl {
	e := x.engine
	line := func(get func(v value) (int64, bool)) (c, d int64, ok bool) {
		var ns []int64
		for _, v := range vs {
			n, ok := get(v)
			if !ok {
				return 0, 0, false
			}
			ns = append(ns, n)
		}
		c, d = ns[0], ns[1]-ns[0]
		for i, n := range ns {
			if n != c+d*int64(i) {
				return 0, 0, false
			}
		}
		return c, d, true
	}
	any := &tmpl{kind: "any", t: t}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			c, d, ok := line(func(v value) (int64, bool) {
				i, ok := v.(intV)
				return i.l.c, ok && i.l.isConst()
			})
			if ok {
				return &tmpl{kind: "int", c: c, d: d, t: t}
			}
			return any
		case u.Info()&types.IsBoolean != 0:
			for _, v := range vs {
				b, ok := v.(boolV)
				if !ok || b.k == 2 || b.k != vs[0].(boolV).k {
					return any
				}
			}
			return &tmpl{kind: "bool", v: vs[0], t: t}
		case u.Info()&types.IsString != 0:
			s0, ok := vs[0].(*strV)
			for _, v := range vs {
				s, ok2 := v.(*strV)
				if !ok || !ok2 || s.key() != s0.key() {
					return any
				}
			}
			return &tmpl{kind: "keep", v: s0, t: t}
		}
	case *types.Struct:
		m := &tmpl{kind: "struct", t: t}
		for i := 0; i < u.NumFields(); i++ {
			var fs []value
			for _, v := range vs {
				s, ok := v.(*structV)
				if !ok {
					e.giveUp(x.fn.Pos(), "a structure in the indenter is not known")
				}
				fs = append(fs, s.f[i])
			}
			m.f = append(m.f, x.infer(u.Field(i).Type(), fs))
		}
		return m
	case *types.Slice:
		c, d, ok := line(func(v value) (int64, bool) {
			s, ok := v.(sliceV)
			if s.null {
				return 0, ok
			}
			return s.len.c, ok && s.len.isConst() && s.off.isConst() && s.off.c == 0
		})
		if ok {
			return &tmpl{kind: "slice", c: c, d: d, t: t, elem: u.Elem()}
		}
		return any
	}
	for _, v := range vs {
		if !isZero(e, x.root, v) {
			e.giveUp(x.fn.Pos(), "the indenter's state holds a %s", t)
		}
	}
	return &tmpl{kind: "keep", v: vs[0], t: t}
}

// state makes the state of an indenter when n nodes are open.
func (x *indentCheck) state(base *state, p ptrV, n int) *state {
	st := base.clone()
	tc := x.trackCaller
	x.trackCaller = false
	first := x.nobj
	st.wheap()[p.o] = x.instance(st, x.tm, n)
	x.trackCaller = tc
	for i := first + 1; i <= x.nobj; i++ {
		delete(x.caller, objID(i))
	}
	return st
}

func (x *indentCheck) instance(st *state, m *tmpl, n int) value {
	e := x.engine
	switch m.kind {
	case "int":
		return intV{con(m.c + m.d*int64(n))}
	case "bool", "keep":
		return m.v
	case "struct":
		s := &structV{t: m.t.Underlying().(*types.Struct)}
		for _, f := range m.f {
			s.f = append(s.f, x.instance(st, f, n))
		}
		return s
	case "slice":
		l := m.c + m.d*int64(n)
		if l < 0 {
			e.giveUp(x.fn.Pos(), "the length of a list of the indenter is negative with %d nodes open", n)
		}
		s := e.newSym(true, nil)
		e.touch(st, s)
		e.assumeLE(st, con(l).sub(symLin(s)))
		a := &arrV{elem: m.elem, n: symLin(s), rest: restZero}
		for i := int64(0); i < l; i++ {
			a.known = append(a.known, arrElem{con(i), e.fresh(st, m.elem, fmt.Sprintf("entry %d", i), 0)})
		}
		return sliceV{o: e.alloc(st, a, "list"), len: con(l), cap: symLin(s)}
	}
	return e.fresh(st, m.t, "something in the indenter", 0)
}

// fits weakens the template until it covers a value.
func (x *indentCheck) fits(m *tmpl, st *state, v value, n int) {
	e := x.engine
	ok := true
	switch m.kind {
	case "int":
		i, is := v.(intV)
		ok = is && e.lineq(st, i.l, con(m.c+m.d*int64(n)))
	case "bool":
		b, is := v.(boolV)
		ok = is && e.decide(st, b) == m.v.(boolV).k
	case "keep":
		if s, is := m.v.(*strV); is {
			w, is := v.(*strV)
			ok = is && e.strDecide(st, s, w) == 1
		} else if ok = isZero(e, st, v); !ok {
			e.giveUp(x.fn.Pos(), "the indenter's state comes to hold a %s", m.t)
		}
	case "struct":
		s, is := v.(*structV)
		if !is {
			e.giveUp(x.fn.Pos(), "a structure in the indenter is not known")
		}
		for i, f := range m.f {
			x.fits(f, st, s.f[i], n)
		}
	case "slice":
		s, is := v.(sliceV)
		want := con(m.c + m.d*int64(n))
		ok = is && (s.null && want.c == 0 || !s.null && e.lineq(st, s.len, want))
	}
	if !ok {
		m.kind = "any"
		x.lost = true
	}
}

func hasWord(list, w string) bool {
	for _, x := range strings.Split(list, ",") {
		if x == w {
			return true
		}
	}
	return false
}

func (m *tmpl) describe(t types.Type) string {
	switch m.kind {
	case "int":
		return fmt.Sprintf("%d%+d*n", m.c, m.d)
	case "slice":
		return fmt.Sprintf("length %d%+d*n", m.c, m.d)
	case "struct":
		var out string
		us := t.Underlying().(*types.Struct)
		for i, f := range m.f {
			if i > 0 {
				out += ", "
			}
			out += us.Field(i).Name() + " " + f.describe(us.Field(i).Type())
		}
		return "{" + out + "}"
	case "any":
		return "anything"
	}
	return "constant"
}
