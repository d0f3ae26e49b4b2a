package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"
)

// The closure of a writer's states under its API: every state that a history
// of successful calls can lead to, up to what the innermost node is, with an
// unknown stack below it.

// conf is a configuration whose states are explored.
type conf struct {
	enforce, indent bool
}

func (c conf) String() string { return fmt.Sprintf("enforce=%v,indent=%v", c.enforce, c.indent) }

// newRunner makes a writer in a configuration. The exported settings that
// are not in the configuration are arbitrary.
func newRunner(ld *loaded, c conf, utf8 bool) (r *runner, root *state, err error) {
	e := newEngine(ld)
	r = &runner{e: e, cfg: &wconfig{enforce: c.enforce, indent: c.indent, name: c.String()}, rigid: map[int]bool{}, opPaths: map[string]int{}, opTime: map[string]time.Duration{}, seen: map[string]int{}, clean: true}
	err = e.try(func() {
		e.initPackages(modPath)
		e.trackCaller = true
		e.ctx = "opening a writer, " + c.String()
		st := e.base.clone()
		wt := ld.root.Type("Writer")
		if wt == nil {
			e.giveUp(0, "the type Writer is missing")
		}
		r.wt = wt.Type().Underlying().(*types.Struct)
		name := "OpenEncoding"
		if utf8 {
			name = "Open"
		}
		fn := e.fn(name)
		if fn == nil {
			e.giveUp(0, "the function %s is missing", name)
		}
		var args []value
		var enc *strV
		for _, p := range fn.Params {
			switch t := p.Type().Underlying().(type) {
			case *types.Slice:
				args = append(args, sliceV{null: true})
			case *types.Pointer:
				v := e.fresh(st, p.Type(), p.Name(), 0).(ptrV)
				v.sid = 0
				args = append(args, v)
			case *types.Basic:
				a := e.newAtom("encoding")
				r.rigid[a.id] = true
				enc = satom(a)
				args = append(args, enc)
			default:
				_ = t
				args = append(args, e.fresh(st, p.Type(), p.Name(), 0))
			}
		}
		if utf8 {
			enc = slit("UTF-8")
		}
		e.noNilIface = true
		outs := e.callFn(st, fn, args, nil, fn.Pos())
		if len(outs) != 1 || outs[0].panic {
			e.giveUp(fn.Pos(), "opening a writer has %d outcomes", len(outs))
		}
		st = outs[0].st
		pw, ok := outs[0].ret.(ptrV)
		if !ok || len(pw.path) > 0 {
			e.giveUp(fn.Pos(), "%s does not return a new writer", name)
		}
		r.w = pw
		w := *(st.heap[pw.o].(*structV))
		w.f = append([]value(nil), w.f...)
		r.nodes = -1
		if t := ld.root.Type("Event"); t != nil {
			r.event = t.Type()
		}
		for i := range w.f {
			f := r.wt.Field(i)
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Struct); ok && r.nodes < 0 {
					r.nodes = i
				}
			}
			r.buf = findBuf(w.f[i], r.buf)
			switch f.Name() {
			case "Enforce":
				w.f[i] = bconst(c.enforce)
			case "StrictChars":
				id := e.id()
				r.rigid[-id] = true
				r.cfg.strict = bcond(symCond{id, "StrictChars"})
				w.f[i] = r.cfg.strict
			case "Version":
				a := e.newAtom("Version")
				r.rigid[a.id] = true
				r.cfg.version = satom(a)
				w.f[i] = r.cfg.version
			case "NewlineString":
				a := e.newAtom("NewlineString")
				r.rigid[a.id] = true
				r.cfg.nl = satom(a)
				w.f[i] = r.cfg.nl
			case "Indenter":
				if c.indent {
					v := e.fresh(st, f.Type(), "Indenter", 0).(symIface)
					r.cfg.wid = v.id
					r.rigid[-v.id] = true
					w.f[i] = v
					st.wbools()
					st.bools[v.id] = false
				} else {
					w.f[i] = nilV{}
				}
			}
		}
		st.wheap()[pw.o] = &w
		for what, missing := range map[string]bool{"node stack": r.nodes < 0, "Version": r.cfg.version == nil, "NewlineString": r.cfg.nl == nil, "StrictChars": r.cfg.strict.k != 2, "output buffer": r.buf == 0} {
			if missing {
				e.giveUp(fn.Pos(), "the writer's %s is missing", what)
			}
		}
		e.hooks.invoke = r.invoke
		e.hooks.stackElem = r.stackElem
		d := r.depthOf(st)
		if !d.isConst() {
			e.giveUp(fn.Pos(), "the depth of a new writer is not known")
		}
		r.d0 = d.c
		st.g = &ghost{depth: d, enc: enc}
		st.trace, st.errs = nil, nil
		r.ops = allOps(r)
		root = st
	})
	return
}

func findBuf(v value, old int) int {
	switch v := v.(type) {
	case termV:
		if strings.HasPrefix(v.what, "bufio.") {
			return v.id
		}
	case *structV:
		for _, x := range v.f {
			old = findBuf(x, old)
		}
	}
	return old
}

// invoke models the indenter.
func (r *runner) invoke(st *state, recv value, m *types.Func, args []value, pos token.Pos) ([]res, bool) {
	s, ok := recv.(symIface)
	if !ok || s.id != r.cfg.wid || s.id == 0 {
		return nil, false
	}
	e := r.e
	switch m.Name() {
	case "Wrap":
		if len(args) == 1 {
			if x, ok := args[0].(*strV); ok {
				return one(st, e.wrapped(st, x)), true
			}
		}
	case "Indent":
		if len(args) == 3 {
			x := xerrV{e.id(), "the indenter's error"}
			st.trace = append(st.trace, event{kind: evIndent, last: args[1], next: args[2], args: []value{x}, pos: e.pos(pos), fn: e.curFn()})
			return one(st, x), true
		}
	}
	return nil, false
}

// stackElem reads an element of the stack that is not known: below the
// innermost node any node, above it any garbage.
func (r *runner) stackElem(st *state, o objID, path []sel, a *arrV, idx lin, pos token.Pos) []res {
	e := r.e
	if r.clean && e.decideLE(st, r.top0.sub(idx).plus(1)) == 1 {
		v := e.zero(a.elem)
		e.putKnown(st, o, path, idx, v)
		return one(st, v)
	}
	tc := e.trackCaller
	e.trackCaller = false
	first := e.nobj
	v := e.fresh(st, a.elem, "node", 0)
	e.trackCaller = tc
	for i := first + 1; i <= e.nobj; i++ {
		delete(e.caller, objID(i))
	}
	e.putKnown(st, o, path, idx, v)
	if st.g != nil {
		st.g.peeks = append(st.g.peeks[:len(st.g.peeks):len(st.g.peeks)], arrElem{idx, v})
	}
	return one(st, v)
}

// cellSnap is a node that other nodes were started in.
type cellSnap struct {
	st    *state
	depth lin
	elem  value
	g     *gcell
	desc  string
	from  int
	by    string
}

type wstate struct {
	no   int
	st   *state
	key  string
	desc string
	top  string
}

type closure struct {
	r      *runner
	states map[string]*wstate
	order  []*wstate
	snaps  map[string]*cellSnap
	snapL  []*cellSnap
	ends   map[string]*endSnap
	endL   []*endSnap
	done   int
	from   int    // the state the current call is made in
	by     string // properties of the current call
	edges  map[edge]bool
}

// edge is a call that leads from a state to another.
type edge struct {
	from, to int
	by       string
}

// endSnap is a writer in which a node below has become the innermost one.
type endSnap struct {
	st   *state
	from int
	by   string
}

func (c *closure) add(st *state, key string, from int, by string) {
	if w, ok := c.states[key]; ok {
		c.edges[edge{from, w.no, by}] = true
		return
	}
	w := &wstate{no: len(c.order), st: st, key: key, desc: describe(st.g), top: ""}
	c.edges[edge{from, w.no, by}] = true
	if t := st.g.top(); t != nil {
		w.top = t.kind
	}
	c.states[key] = w
	c.order = append(c.order, w)
}

func describe(g *ghost) string {
	t := g.top()
	if t == nil {
		return "nothing started"
	}
	s := t.kind
	if t.opened {
		s += " opened"
	} else {
		s += " open"
	}
	if t.children.isConst() {
		s += ", no children"
	} else {
		s += ", children"
	}
	if len(t.ns) > 0 {
		s += fmt.Sprintf(", %d namespaces", len(t.ns))
	}
	if len(t.attrs) > 0 {
		s += fmt.Sprintf(", %d attrs", len(t.attrs))
	}
	if len(t.content) > 0 {
		s += ", content " + t.content[0].kind
	}
	if t.full.k == 1 {
		s += ", full"
	}
	return s
}

// build makes the canonical state with the writer of one state and the
// innermost node of another (which may be the same).
func (r *runner) build(sw *state, dw lin, c *cellSnap) (*state, string) {
	e := r.e
	dst := e.base.clone()
	dst.trace, dst.errs, dst.xerr = nil, nil, nil
	if r.cfg.indent {
		dst.wbools()
		dst.bools[r.cfg.wid] = false
	}
	g := &ghost{enc: sw.g.enc}
	var tc *transfer
	var key strings.Builder
	same := c != nil && c.st == sw
	sv, a := r.stack(sw)
	var elemT types.Type
	if sl, ok := r.wt.Field(r.nodes).Type().Underlying().(*types.Slice); ok {
		elemT = sl.Elem()
	}
	arr := &arrV{elem: elemT, n: symLin(e.newSym(true, nil)), rest: restStack}
	if a != nil && !(sv.off.isConst() && sv.off.c == 0) {
		e.giveUp(0, "the node stack does not start at its array's beginning")
	}
	nd := dw
	idx := dw.plus(-r.d0 - 1)
	if c != nil {
		tc = newTransfer(e, c.st, dst, r.rigid)
		nd = tc.integer(c.depth, true)
		idx = nd.plus(-r.d0 - 1)
		g.cells = []*gcell{tc.gcell(c.g)}
		tc.havoc, tc.opened = true, c.g.opened && r.cfg.enforce
		arr.known = []arrElem{{idx, tc.value(c.elem, elemT)}}
		tc.havoc, tc.opened = false, false
		g.below = e.decideEQ(dst, idx) != 1
	} else {
		tc = newTransfer(e, sw, dst, r.rigid)
		tc.add("empty;")
	}
	g.depth = nd
	tw := tc
	if !same {
		tc.facts()
		key.WriteString(tc.key.String())
		tw = newTransfer(e, sw, dst, r.rigid)
		tw.atomNo = map[*atom]int{}
	}
	// numbers that go with the depth stay with it
	tw.lins = append([]linMap{{from: dw, to: nd}}, tw.lins...)
	tw.add("|W|")
	w := sw.heap[r.w.o].(*structV)
	nw := *w
	nw.f = make([]value, len(w.f))
	for i := range w.f {
		ft := r.wt.Field(i).Type()
		switch {
		case i == r.nodes:
			if sv.null {
				if c != nil {
					e.giveUp(0, "the node stack is nil although a node is started")
				}
				tw.add("null;")
				nw.f[i] = sv
				continue
			}
			n := sliceV{o: e.alloc(dst, arr, "nodes")}
			if true {
				s := e.newSym(true, nil)
				e.touch(dst, s)
				n.len = symLin(s)
				if e.linle(sw, dw.plus(-r.d0), sv.len) {
					e.assumeLE(dst, idx.plus(1).sub(n.len))
					tw.add("len>=;")
				}
				if e.decideLE(sw, sv.len.mul(-1).plus(1)) == 1 {
					e.assumeLE(dst, n.len.mul(-1).plus(1))
					tw.add("len>0;")
				}
			}
			s := e.newSym(true, nil)
			e.touch(dst, s)
			n.cap = symLin(s)
			e.assumeLE(dst, n.len.sub(n.cap))
			nw.f[i] = n
		case r.event != nil && types.Identical(ft, r.event):
			v := e.fresh(dst, ft, "last", 0)
			g.last = gevent{opaque: v}
			nw.f[i] = v
		default:
			nw.f[i] = tw.value(w.f[i], ft)
		}
	}
	if g.last.opaque == nil {
		// there is no field for it: it is part of the state
		l := sw.g.last
		tw.add("last%d,%d,", l.state, l.node)
		if l.opaque == nil {
			l.children = tw.integer(l.children, true)
		}
		g.last = l
	}
	dst.wheap()[r.w.o] = &nw
	tw.facts()
	key.WriteString(tw.key.String())
	dst.g = g
	return dst, key.String()
}

// checkClean verifies that nothing is left above the top of the stack.
func (r *runner) checkClean(st *state) {
	if !r.clean {
		return
	}
	_, a := r.stack(st)
	if a == nil {
		return
	}
	top := st.g.depth.plus(-r.d0 - 1)
	check := func(i lin, v value) {
		if r.e.decideLE(st, top.sub(i).plus(1)) == 1 && !isZero(r.e, st, v) {
			r.clean = false
			panic(restart{})
		}
	}
	for _, k := range a.known {
		check(k.i, k.v)
	}
	for k, v := range a.table {
		check(con(k), v)
	}
}

func isZero(e *engine, st *state, v value) bool {
	switch v := v.(type) {
	case intV:
		return e.decideEQ(st, v.l) == 1
	case boolV:
		return e.decide(st, v) == 0
	case *strV:
		return len(e.norm(st, v).p) == 0
	case nilV:
		return true
	case sliceV:
		return v.null
	case mapV:
		return v.null
	case *structV:
		for _, x := range v.f {
			if !isZero(e, st, x) {
				return false
			}
		}
		return true
	}
	return false
}

// result adds what a call led to.
func (c *closure) result(st *state) {
	r := c.r
	e := r.e
	r.checkClean(st)
	g := st.g
	n := len(g.cells)
	for i, cell := range g.cells {
		if len(cell.ns) > 2 {
			continue
		}
		d := g.depth.plus(int64(i - n + 1))
		v, ok := r.elem(st, d.plus(-r.d0-1))
		if !ok {
			e.giveUp(0, "the innermost node is not found in the writer")
		}
		s := &cellSnap{st: st, depth: d, elem: v, g: cell, from: c.from, by: c.by}
		if i == n-1 {
			ns, key := r.build(st, g.depth, s)
			c.add(ns, key, c.from, c.by)
			continue
		}
		// something was started in it: it is seen again when that ends
		t := newTransfer(e, st, e.base.clone(), r.rigid)
		t.integer(d, true)
		t.gcell(cell)
		t.havoc, t.opened = true, cell.opened && r.cfg.enforce
		t.value(v, nil)
		t.havoc, t.opened = false, false
		t.facts()
		k := t.key.String()
		if c.snaps[k] == nil {
			c.snaps[k] = s
			c.snapL = append(c.snapL, s)
			for _, w := range c.endL {
				c.combine(w, s)
			}
		}
	}
	if n > 0 {
		return
	}
	if !g.below || e.decideEQ(st, g.depth.plus(-r.d0)) == 1 {
		g.below = false
		ns, key := r.build(st, con(r.d0), nil)
		c.add(ns, key, c.from, c.by)
		return
	}
	// a node below has become the innermost one
	t := newTransfer(e, st, e.base.clone(), r.rigid)
	t.integer(g.depth, true)
	t.lins[0].to = con(0)
	w := st.heap[r.w.o].(*structV)
	for i, f := range w.f {
		ft := r.wt.Field(i).Type()
		if i == r.nodes {
			sv := f.(sliceV)
			t.add("len %v %v;", sv.len.sub(g.depth).isConst(), e.linle(st, g.depth.plus(-r.d0), sv.len))
			continue
		}
		if r.event != nil && types.Identical(ft, r.event) {
			continue
		}
		t.value(f, ft)
	}
	if r.event == nil {
		t.add("last%d,%d", g.last.state, g.last.node)
	}
	t.facts()
	k := t.key.String()
	if c.ends[k] == nil {
		w := &endSnap{st, c.from, c.by}
		c.ends[k] = w
		c.endL = append(c.endL, w)
		for _, s := range c.snapL {
			c.combine(w, s)
		}
	}
}

func (c *closure) combine(w *endSnap, s *cellSnap) {
	ns, key := c.r.build(w.st, w.st.g.depth, s)
	c.add(ns, key, s.from, s.by+","+w.by)
}

// attribute adds to a finding in a state the properties of the calls without
// which that state is never reached: the state may be wrong because of them.
func (c *closure) attribute() {
	n := len(c.order)
	via := make([]map[string]bool, n) // nil: everything
	for changed := true; changed; {
		changed = false
		next := make([]map[string]bool, n)
		for e := range c.edges {
			if e.from == e.to {
				continue
			}
			m := map[string]bool{}
			if e.from >= 0 {
				if via[e.from] == nil {
					continue
				}
				for _, p := range uniq(e.by) {
					m[p] = true
				}
				for p := range via[e.from] {
					m[p] = true
				}
			}
			if next[e.to] == nil {
				next[e.to] = m
				continue
			}
			for p := range next[e.to] {
				if !m[p] {
					delete(next[e.to], p)
				}
			}
		}
		for i := range next {
			if (via[i] == nil) != (next[i] == nil) || len(via[i]) != len(next[i]) {
				changed = true
			}
		}
		via = next
	}
	// what all states with the same innermost kind have in common says nothing
	base := map[string]map[string]int{}
	num := map[string]int{}
	for i, w := range c.order {
		num[w.top]++
		if base[w.top] == nil {
			base[w.top] = map[string]int{}
		}
		for p := range via[i] {
			base[w.top][p]++
		}
	}
	for i, w := range c.order {
		for p := range via[i] {
			if base[w.top][p] == num[w.top] {
				delete(via[i], p)
			}
		}
	}
	fs := c.r.e.finds
	for k, f := range fs.by {
		var common map[string]bool
		for i := range fs.in[k] {
			m := map[string]bool{}
			if i >= 0 && i < n {
				for p := range via[i] {
					m[p] = true
				}
			}
			if common == nil {
				common = m
			}
			for p := range common {
				if !m[p] {
					delete(common, p)
				}
			}
		}
		for p := range common {
			if !f.has(p) {
				f.props = append(f.props, p)
			}
		}
	}
}

// plan says how much of the writer's behaviour to explore.
type plan struct {
	max        int  // states
	shard, of  int  // which of the large calls
	heavy      bool // run the large calls
	everywhere bool // in every state rather than in one of each description
	scripts    int  // depth of the known stacks, 0: none
	only       string
	exact      bool
	fails      int // follow so many calls after the sink has failed
}

// analyse runs every operation on every state until nothing new appears,
// then the large calls and the scripts.
func (r *runner) analyse(root *state, p plan) (c *closure, err error) {
	for {
		again := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(restart); !ok {
						panic(x)
					}
					again = true
				}
			}()
			if p.fails > 0 {
				r.failDepth = p.fails
				r.fails, r.failKeys = &[]*failState{}, map[string]bool{}
			}
			c, err = r.explore(root, p)
			if err == nil && p.fails > 0 {
				r.failures()
				r.fails = nil
			}
			if err == nil && p.heavy {
				err = c.heavy(p)
			}
			if err == nil && p.scripts > 0 {
				err = r.scripts(root, p.scripts)
			}
		}()
		if !again {
			return
		}
		r.e.finds = newFindings()
		r.seen = map[string]int{}
		r.e.stats.ops, r.e.stats.paths = 0, 0
		r.opPaths, r.opTime = map[string]int{}, map[string]time.Duration{}
	}
}

func (c *closure) run(w *wstate, o *op, keep bool) {
	r := c.r
	e := r.e
	e.ctx = o.name + ", " + w.desc + ", " + r.cfg.name
	p0, t0 := e.stats.paths, time.Now()
	c.from, c.by, e.finds.at = w.no, o.props, w.no
	defer func() { e.finds.at = -1 }()
	after := r.step(w.st, o)
	r.opPaths[o.name] += e.stats.paths - p0
	r.opTime[o.name] += time.Since(t0)
	if !keep {
		return
	}
	for _, s := range after {
		if err := e.try(func() { c.result(s) }); err != nil {
			r.find(o.props, "undecided", "-", shortFn(o.fn), err.Error())
		}
	}
}

func (r *runner) explore(root *state, p plan) (*closure, error) {
	c := &closure{r: r, states: map[string]*wstate{}, snaps: map[string]*cellSnap{}, ends: map[string]*endSnap{}, edges: map[edge]bool{}, from: -1}
	r.sym = true
	e := r.e
	err := e.try(func() {
		ns, key := r.build(root, con(r.d0), nil)
		c.add(ns, key, -1, "")
		seen := map[string]bool{}
		for i := 0; i < len(c.order); i++ {
			if i > p.max {
				e.giveUp(0, "the writer has more than %d states", p.max)
			}
			w := c.order[i]
			k := coarse(w.st.g)
			for _, o := range r.ops {
				if o.heavy || p.only != "" && (p.exact && o.name != p.only || !strings.Contains(p.only, o.name)) {
					continue
				}
				if !r.cfg.enforce && seen[k] && !r.worth(w.st, o) {
					// it is not checked where calls are allowed
					continue
				}
				c.run(w, o, true)
			}
			seen[k] = true
			c.done = i + 1
		}
	})
	e.stats.states += len(c.order)
	return c, err
}

func (c *closure) summary() string {
	n := map[string]int{}
	for _, w := range c.order {
		k := w.top
		if k == "" {
			k = "nothing"
		}
		n[k]++
	}
	var ks []string
	for k := range n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%s %d", k, n[k]))
	}
	return strings.Join(out, ", ")
}

// coarse describes a state without the innermost node's attributes.
func coarse(g *ghost) string {
	t := g.top()
	if t == nil {
		return "-"
	}
	s := fmt.Sprintf("%s %v %v", t.kind, t.opened, t.children.isConst())
	if len(t.content) > 0 {
		s += t.content[0].kind
	}
	return s
}

// heavy runs the large variants of calls in one state of each description,
// and some calls in the states that they lead to.
func (c *closure) heavy(p plan) error {
	r := c.r
	e := r.e
	r.sym = true
	return e.try(func() {
		seen := map[string]bool{}
		seenC := map[string]bool{}
		n := len(c.order)
		follow := map[string]bool{"EndElem(0 names)": true, "WriteText(Text)": true, "WriteAttr(Attr)": true, "StartElem(Elem)": true, "WriteRaw(Raw)": true, "EndDTDAttList": true, "WriteDTDAttr(DTDAttr)": true}
		for i := 0; i < len(c.order); i++ {
			w := c.order[i]
			if i >= n {
				if !p.everywhere && seen[w.desc] {
					continue
				}
				seen[w.desc] = true
				for _, o := range r.ops {
					if follow[o.name] {
						c.run(w, o, false)
					}
				}
				continue
			}
			if !p.everywhere && len(w.st.g.cells) > 0 && w.st.g.depth.isConst() {
				continue
			}
			k := coarse(w.st.g)
			for j, o := range r.ops {
				if !o.heavy || p.of > 0 && j%p.of != p.shard || !r.worth(w.st, o) {
					continue
				}
				if !p.everywhere && (seen[w.desc] || seenC[k] && o.first != "Attr") {
					continue
				}
				c.run(w, o, o.start)
			}
			seen[w.desc] = true
			seenC[k] = true
		}
		e.stats.states += len(c.order) - n
	})
}

// worth reports whether a call is placed where it may be.
func (r *runner) worth(st *state, o *op) bool {
	t := st.g.top()
	if t == nil {
		return true
	}
	for _, k := range o.in {
		if k == t.kind {
			return true
		}
	}
	return len(o.in) == 0
}
