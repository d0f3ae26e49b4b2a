package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// runner executes API calls of one writer configuration on abstract states
// and compares every path with the reference model.
type runner struct {
	gaveUp     int // calls that could not be followed
	scriptRoot *state
	e          *engine
	cfg        *wconfig
	w          ptrV
	wt         *types.Struct // the Writer
	nodes      int           // field with the node stack
	event      types.Type
	d0         int64 // Depth() with nothing started
	buf        int   // the output buffer
	rigid      map[int]bool
	clean      bool // elements above the top of the stack are zero values
	top0       lin  // index of the innermost node when the call began
	sym        bool // the stack below the top is unknown
	ops        []*op
	seen       map[string]int    // obligations by rule
	pairs      map[[4]int64]bool // (last, next) transitions the indenter is told of
	cd         map[string]bool
	opPaths    map[string]int
	opTime     map[string]time.Duration
	fails      *[]*failState // states of a failed writer, if they are looked at
	failKeys   map[string]bool
	failDepth  int
}

// op is one API call.
type op struct {
	name  string
	props string
	make  func(b *builder) (args []value, model func(*mrun))
	fn    *ssa.Function
	end   bool // may change the innermost node when it fails
	heavy bool
	start bool     // leaves the node started
	first string   // kind of the first node
	in    []string // a heavy call: only with these innermost
	when  func(*gcell) bool
	depth bool // returns the depth
}

// restart is raised when an assumption about the stack has to be given up.
type restart struct{}

func (r *runner) find(props, rule, where, fn, msg string) {
	r.e.finds.add(finding{props: uniq(props), rule: rule, where: where, fn: fn, msg: msg, ctx: r.e.ctx})
}

func uniq(props string) []string {
	m := map[string]bool{}
	var out []string
	for _, p := range strings.Split(props, ",") {
		if p != "" && !m[p] {
			m[p] = true
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (r *runner) count(rule string) { r.seen[rule]++ }

// after is a state in which a call has returned.
type after struct {
	st  *state
	nil bool
}

// step runs an operation on a state. It returns the states after a success.
func (r *runner) step(st0 *state, o *op) (out []*state) {
	e := r.e
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(undecided)
			if !ok {
				panic(x)
			}
			fn := e.curFn()
			e.stack = nil
			r.find(o.props, "undecided", e.pos(u.pos), fn, u.what)
			r.gaveUp++
			out = nil
		}
	}()
	e.stats.ops++
	st := st0.clone()
	st.trace, st.errs, st.xerr = nil, nil, nil
	st.failed, st.pend = false, false
	id := e.id()
	st.lastW, st.okW = id, id
	st.g.peeks = nil
	r.top0 = st.g.depth.plus(-r.d0 - 1)
	b := &builder{e: e, st: st, r: r}
	args, model := o.make(b)
	pre := st.clone()
	outs := e.callFn(st, o.fn, append([]value{r.w}, args...), nil, o.fn.Pos())
	for _, oc := range outs {
		e.stats.paths++
		if oc.panic {
			r.find("C21", "panic", e.pos(oc.pos), shortFn(o.fn), "reaches a panic: "+oc.what)
			continue
		}
		r.count("paths")
		if !r.globalsKept(oc.st) {
			continue
		}
		var res []after
		if o.depth {
			res = []after{{oc.st, true}}
		} else {
			ok, bad := e.fork(oc.st, e.isNil(oc.st, oc.ret))
			for _, s := range ok {
				res = append(res, after{s, true})
			}
			for _, s := range bad {
				res = append(res, after{s, false})
			}
		}
		for _, a := range res {
			out = append(out, r.judge(pre, a, o, oc, model)...)
		}
	}
	return out
}

func (r *runner) globalsKept(st *state) bool { return true }

// judge compares one path with the model.
func (r *runner) judge(pre *state, a after, o *op, oc outcome, model func(*mrun)) (out []*state) {
	e := r.e
	st := a.st
	pos, fn := e.pos(o.fn.Pos()), shortFn(o.fn)
	swallowed := ""
	if a.nil {
		if len(st.errs) > 0 {
			x := st.errs[0]
			swallowed = x.pos
			if r.cfg.enforce {
				// otherwise a check may be made to no purpose
				r.find("C08", "error-swallowed", x.pos, fn, fmt.Sprintf("returns nil although the check %q failed", x.what))
			}
		}
		for _, ev := range st.trace {
			if ev.kind == evIndent && len(ev.args) > 0 && e.decide(st, e.isNil(st, ev.args[0])) != 1 {
				r.find("C08,C15,C09", "indenter-error-ignored", ev.pos, ev.fn, "the indenter's error is not returned")
			}
		}
		if st.failed {
			r.find("C09", "write-error-lost", pos, fn, "returns nil after a write failed")
			return nil
		}
		if st.pend {
			where, f := pos, fn
			if n := len(st.trace); n > 0 {
				where, f = st.trace[n-1].pos, st.trace[n-1].fn
			}
			r.find("C09", "write-error-unchecked", where, f, "returns nil without having looked at the error of the last write")
		}
		r.count("C09 nil returns")
		r.count("C08 nil returns")
	} else if st.failed || len(st.xerr) > 0 {
		r.count("error paths of the sink and the indenter")
		if st.failed {
			r.failed(st, pre.g.depth, 0)
		}
		return nil
	}
	var choice, alts []int
	for n := 0; ; n++ {
		if n > 4000 {
			e.giveUp(0, "too many cases in the model of %s", o.name)
		}
		m := &mrun{e: e, st: st.clone(), cfg: r.cfg, g: pre.g.clone(), choice: choice, alts: alts, implNil: a.nil, main: o.props, props: o.props}
		rej, kind := r.runModel(m, model)
		out = append(out, r.verdict(pre, a, o, m, rej, kind, swallowed != "", oc)...)
		choice, alts = m.choice, m.alts
		i := len(choice) - 1
		for ; i >= 0 && choice[i]+1 >= alts[i]; i-- {
		}
		if i < 0 {
			break
		}
		choice, alts = choice[:i+1], alts[:i+1]
		choice[i]++
	}
	return out
}

const (
	mAccept = iota
	mReject
	mInfeasible
	mUnmodelled
)

func (r *runner) runModel(m *mrun, model func(*mrun)) (rej reject, kind int) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case reject:
			rej, kind = x, mReject
			if m.loose {
				kind = mUnmodelled
			}
		case infeasible:
			kind = mInfeasible
		case unmodelled:
			kind = mUnmodelled
		default:
			panic(x)
		}
	}()
	model(m)
	return
}

func (r *runner) verdict(pre *state, a after, o *op, m *mrun, rej reject, kind int, swallowed bool, oc outcome) []*state {
	e := r.e
	st := m.st
	pos, fn := e.pos(o.fn.Pos()), shortFn(o.fn)
	switch kind {
	case mInfeasible, mUnmodelled:
		return nil
	case mReject:
		r.count("rejections")
		for _, p := range uniq(rej.props) {
			r.count(p + " rejections")
		}
		if a.nil {
			if rej.grey {
				return nil
			}
			props := rej.props
			if swallowed {
				props += ",C08"
			}
			r.find(props+o.also(), "accepted", pos, fn, "accepts what has to be refused: "+rej.what+m.desc())
			return nil
		}
		if rej.off != nil && !rej.grey {
			if ev, ok := r.written(st, rej.off); ok {
				r.find(rej.props, "written-before-check", ev.pos, ev.fn, "writes what it then refuses: "+rej.what)
			}
		}
		if rej.mis {
			if what, _, ev := r.compare(st, st.trace, m.out); what != "" {
				r.find(rej.props, "written-when-refused", ev.pos, ev.fn, "writes something although the call is refused ("+rej.what+"): "+what)
			}
			if d := r.depthOf(st); !e.lineq(st, d, m.g.depth) {
				r.find(rej.props+",C06", "depth-when-refused", pos, fn, "changes the depth although the call is refused: "+rej.what)
			}
			if !o.end && len(m.out) == 0 {
				r.topKept(pre, st, rej, pos, fn)
			}
		}
		return nil
	}
	// the model accepts
	if !r.cfg.enforce {
		r.count("C28 calls to accept")
	}
	if m.loose && a.nil {
		r.count("C28 misplaced nodes")
		return nil
	}
	if !a.nil {
		what, where := "an error", pos
		if v, ok := oc.ret.(errV); ok {
			what, where = fmt.Sprintf("the error %q", v.what), v.pos
		} else if len(st.errs) > 0 {
			what, where = fmt.Sprintf("the error %q", st.errs[0].what), st.errs[0].pos
		}
		switch {
		case m.loose:
			r.find("C28", "refused", where, fn, "refuses a misplaced node although enforcement is off, with "+what)
		case !r.cfg.enforce:
			r.find(o.props+",C28", "refused", where, fn, "refuses what enforcement being off allows, with "+what)
		default:
			r.find(o.props+",C05", "refused", where, fn, "refuses what is valid, with "+what+m.desc())
		}
		return nil
	}
	r.count("acceptances")
	what, props, ev := r.compare(st, st.trace, m.out)
	if what != "" {
		if ev.pos == "" {
			ev.pos, ev.fn = pos, fn
		}
		if props == "" {
			props = o.props
		}
		r.find(props+","+o.props, "output", ev.pos, ev.fn, what)
		return nil
	}
	for _, p := range m.out {
		for _, q := range uniq(p.props) {
			r.seen[q+" effects"]++
		}
	}
	d := r.depthOf(st)
	if !e.lineq(st, d, m.g.depth) {
		r.find(o.props+",C06", "depth", pos, fn, fmt.Sprintf("leaves the depth at %s, expected %s", d, m.g.depth))
		return nil
	}
	if o.depth {
		if iv, ok := oc.ret.(intV); !ok || !e.lineq(st, iv.l, m.g.depth) {
			r.find(o.props, "depth", pos, fn, "does not return the depth")
		}
	}
	if r.cfg.indent {
		if what := r.lastKept(st, m.g); what != "" {
			r.find("C15,"+o.props, "last-event", pos, fn, what)
			return nil
		}
	}
	r.known(st, o, m)
	st.g = m.g
	st.g.peeks = oc.st.g.peeks
	r.belowKept(st, pos, fn, o)
	return []*state{st}
}

func (o *op) also() string { return "" }

// desc describes the choices the model made.
func (m *mrun) desc() string {
	if t := m.g.top(); t != nil {
		return ""
	}
	return ""
}

// depthOf is what Depth returns.
func (r *runner) depthOf(st *state) lin {
	s := st.clone()
	outs := r.e.callFn(s, r.e.method("Writer", "Depth", true), []value{r.w}, nil, 0)
	if len(outs) == 1 && !outs[0].panic {
		if iv, ok := outs[0].ret.(intV); ok {
			return iv.l
		}
	}
	r.e.giveUp(0, "Depth is not a simple number")
	return lin{}
}

// stack returns the array behind the node stack.
func (r *runner) stack(st *state) (sliceV, *arrV) {
	w := st.heap[r.w.o].(*structV)
	sv, ok := w.f[r.nodes].(sliceV)
	if !ok || sv.null {
		return sv, nil
	}
	a, _ := r.e.peek(st, sv.o, sv.path).(*arrV)
	return sv, a
}

// elem finds an element of the node stack.
func (r *runner) elem(st *state, idx lin) (value, bool) {
	sv, a := r.stack(st)
	if a == nil {
		return nil, false
	}
	i := idx.add(sv.off)
	if a.table != nil && len(a.known) == 0 && i.isConst() {
		if v, ok := a.table[i.c]; ok {
			return v, true
		}
		return r.e.zero(a.elem), true
	}
	for _, k := range a.known {
		if r.e.lineq(st, k.i, i) {
			return k.v, true
		}
	}
	return nil, false
}

func (r *runner) topKept(pre, st *state, rej reject, pos, fn string) {
	x, ok1 := r.elem(pre, r.top0)
	y, ok2 := r.elem(st, r.top0)
	if ok1 && ok2 && !sameIn(r.e, st, x, y) {
		r.find(rej.props, "changed-when-refused", pos, fn, "changes the innermost node although the call is refused: "+rej.what)
	}
}

// belowKept checks that nodes below the innermost one were left alone.
func (r *runner) belowKept(st *state, pos, fn string, o *op) {
	if !r.sym {
		return
	}
	_, a := r.stack(st)
	if a == nil {
		return
	}
	for _, k := range a.known {
		if r.e.decideLE(st, k.i.sub(r.top0).plus(1)) != 1 {
			continue
		}
		kept := false
		for _, p := range st.g.peeks {
			if p.i.eq(k.i) && sameIn(r.e, st, p.v, k.v) {
				kept = true
			}
		}
		if !kept {
			r.find(o.props+",C06", "changes-below", pos, fn, "changes a started node that is not the innermost one")
		}
	}
}

// sameIn reports whether two values are the same in a state.
func sameIn(e *engine, st *state, x, y value) bool {
	switch a := x.(type) {
	case intV:
		b, ok := y.(intV)
		return ok && e.lineq(st, a.l, b.l)
	case *strV:
		b, ok := y.(*strV)
		return ok && e.strDecide(st, a, b) == 1
	case boolV:
		b, ok := y.(boolV)
		if !ok {
			return false
		}
		if d := e.decide(st, a); d >= 0 {
			return e.decide(st, b) == d
		}
		return a == b
	case *structV:
		b, ok := y.(*structV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !sameIn(e, st, a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case sliceV:
		b, ok := y.(sliceV)
		return ok && a.null == b.null && (a.null || a.o == b.o && e.lineq(st, a.off, b.off) && e.lineq(st, a.len, b.len))
	case ptrV:
		b, ok := y.(ptrV)
		return ok && a.o == b.o && a.sid == b.sid && len(a.path) == len(b.path)
	case ifaceV:
		b, ok := y.(ifaceV)
		return ok && types.Identical(a.t, b.t) && sameIn(e, st, a.v, b.v)
	}
	return sameValue(x, y)
}

// lastKept checks that the writer remembers the last event.
func (r *runner) lastKept(st *state, g *ghost) string {
	w := st.heap[r.w.o].(*structV)
	for i, f := range w.f {
		if r.event != nil && types.Identical(r.wt.Field(i).Type(), r.event) {
			if !r.sameEvent(st, f, g.last) {
				return fmt.Sprintf("remembers the last event as %s, not %s", r.eventString(st, f), g.last)
			}
		}
	}
	return ""
}

func (r *runner) sameEvent(st *state, v value, g gevent) bool {
	if g.opaque != nil {
		return sameIn(r.e, st, v, g.opaque)
	}
	s, ok := v.(*structV)
	if !ok {
		return false
	}
	want := map[string]lin{"State": con(g.state), "Node": con(g.node), "Children": g.children}
	for i := range s.f {
		iv, ok := s.f[i].(intV)
		l, ok2 := want[s.t.Field(i).Name()]
		if !ok || !ok2 || !r.e.lineq(st, iv.l, l) {
			return false
		}
	}
	return true
}

func (r *runner) eventString(st *state, v value) string {
	s, ok := v.(*structV)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	var out []string
	for _, x := range s.f {
		if iv, ok := x.(intV); ok {
			if r.e.decideEQ(st, iv.l) == 1 {
				out = append(out, "0")
			} else if iv.l.isConst() {
				out = append(out, iv.l.String())
			} else {
				out = append(out, "?")
			}
		}
	}
	return strings.Join(out, ",")
}

// written reports whether a string was written.
func (r *runner) written(st *state, s *strV) (event, bool) {
	s = r.e.norm(st, s)
	if len(s.p) == 0 {
		return event{}, false
	}
	for _, ev := range st.trace {
		if ev.kind != evOut && ev.kind != evEsc {
			continue
		}
		x := r.e.norm(st, ev.s)
		// every part of s in a row
		for i := 0; i+len(s.p) <= len(x.p); i++ {
			hit := true
			for j := range s.p {
				p, q := s.p[j], x.p[i+j]
				if p.a != q.a || p.whole != q.whole || p.a == nil && !strings.Contains(q.lit, p.lit) {
					hit = false
				}
			}
			if hit && s.p[0].a != nil {
				return ev, true
			}
		}
	}
	return event{}, false
}

// token is a run of output, or another event, of the code or the model.
type effect struct {
	k     evKind
	s     *strV
	m     *escMap
	attr  bool
	ev    event
	piece piece
	props string
}

// compare checks the effects of a path against those expected. It returns
// a description of the first difference, and what it concerns.
func (r *runner) compare(st *state, trace []event, want []piece) (string, string, event) {
	got, bad := r.gotTokens(st, trace)
	if bad != "" {
		return bad, "C16", got[len(got)-1].ev
	}
	var opt []int
	for i, p := range want {
		if p.optional {
			opt = append(opt, i)
		}
	}
	var what, props string
	var ev event
	for mask := 0; mask < 1<<len(opt); mask++ {
		var ws []piece
		for i, p := range want {
			skip := false
			for j, k := range opt {
				if k == i && mask>>j&1 == 0 {
					skip = true
				}
			}
			if !skip {
				ws = append(ws, p)
			}
		}
		w, p, e := r.match(st, got, r.wantTokens(st, ws))
		if w == "" {
			return "", "", event{}
		}
		if mask == 0 {
			what, props, ev = w, p, e
		}
	}
	return what, props, ev
}

func (r *runner) gotTokens(st *state, trace []event) (out []effect, bad string) {
	e := r.e
	for _, ev := range trace {
		t := effect{k: ev.kind, s: ev.s, m: ev.m, ev: ev}
		switch ev.kind {
		case evOut, evEsc, evFlush:
			if ev.dst != 0 && ev.dst != r.buf {
				return []effect{t}, "output that does not go to the writer's buffer"
			}
		case evCall:
			return []effect{t}, "call of " + ev.what
		}
		switch ev.kind {
		case evEsc:
			t.s = e.norm(st, ev.s)
			if len(t.s.p) == 0 {
				continue
			}
			if s := plain(e, st, t.s, ev.m); s != nil {
				t.k, t.s = evOut, s
			}
		case evOut:
			t.s = e.norm(st, ev.s)
			if len(t.s.p) == 0 {
				continue
			}
		}
		if n := len(out); t.k == evOut && n > 0 && out[n-1].k == evOut {
			out[n-1].s = out[n-1].s.concat(t.s)
			continue
		}
		out = append(out, t)
	}
	return out, ""
}

// plain is the text written by escaping a string that is known well enough.
func plain(e *engine, st *state, s *strV, m *escMap) *strV {
	if m == nil {
		return nil
	}
	if l, ok := s.lit(); ok {
		out := ""
		for _, c := range runes(l) {
			found := false
			for _, t := range m.m {
				if t.set.has(c) {
					found = true
					if t.verb {
						if c < 0 {
							return nil
						}
						out += string(rune(c))
					} else {
						out += t.lit
					}
				}
			}
			if !found {
				return nil
			}
		}
		return slit(out)
	}
	for _, t := range m.m {
		set := t.set
		if len(m.m) > 1 {
			// as wantTokens does
			set = set.intersect(safeText)
		}
		if t.verb && e.charDecide(st, s, set, set) == 1 {
			return s
		}
	}
	return nil
}

func (r *runner) wantTokens(st *state, ps []piece) (out []effect) {
	e := r.e
	for _, p := range ps {
		t := effect{k: p.k, s: p.s, attr: p.attr, piece: p, props: p.props}
		if p.k == evOut || p.k == evEsc {
			t.s = e.norm(st, p.s)
			if len(t.s.p) == 0 {
				continue
			}
			if p.k == evEsc {
				safe := safeText
				if p.attr {
					safe = safeAttr
				}
				if _, ok := t.s.lit(); !ok && e.charDecide(st, t.s, safe, safe) == 1 {
					t.k = evOut
				}
			}
		}
		if n := len(out); t.k == evOut && n > 0 && out[n-1].k == evOut {
			out[n-1].s = out[n-1].s.concat(t.s)
			out[n-1].props += "," + t.props
			continue
		}
		out = append(out, t)
	}
	return out
}

// characters that stand for themselves however they are escaped
var safeText = xmlChars.minus(rOf('<', '>', '&', '"', '\'', 9, 10, 13))
var safeAttr = safeText

func (r *runner) match(st *state, got, want []effect) (string, string, event) {
	e := r.e
	last := ""
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(want) {
			return "also does " + tokString(got[i]), last, got[i].ev
		}
		w := want[i]
		if i >= len(got) {
			ev := event{}
			if len(got) > 0 {
				ev = got[len(got)-1].ev
			}
			return "does not do " + tokString(w), w.props, ev
		}
		g := got[i]
		if g.k != w.k {
			return fmt.Sprintf("does %s where %s is expected", tokString(g), tokString(w)), w.props + "," + last, g.ev
		}
		switch g.k {
		case evOut:
			if !e.sameText(st, g.s, w.s) {
				return fmt.Sprintf("writes %s where %s is expected", g.s, w.s), w.props, g.ev
			}
		case evEsc:
			if e.strDecide(st, g.s, w.s) != 1 {
				return fmt.Sprintf("writes %s where %s is expected", tokString(g), tokString(w)), w.props, g.ev
			}
			if bad := checkEsc(g.m, w.attr); bad != "" {
				return bad, "C02", g.ev
			}
		case evIndent:
			if !r.sameEvent(st, g.ev.next, w.piece.next) {
				return fmt.Sprintf("tells the indenter %s where %s is expected", r.eventString(st, g.ev.next), w.piece.next), w.props, g.ev
			}
			if !r.sameEvent(st, g.ev.last, w.piece.last) {
				return fmt.Sprintf("tells the indenter that the last event was %s, not %s", r.eventString(st, g.ev.last), w.piece.last), w.props, g.ev
			}
			r.pair(st, g.ev)
		}
		last = w.props
	}
	return "", "", event{}
}

// pair records a transition the indenter is told of.
func (r *runner) pair(st *state, ev event) {
	if r.cd == nil {
		r.cd = map[string]bool{}
	}
	r.cd[r.eventString(st, ev.last)+" -> "+r.eventString(st, ev.next)] = true
}

func tokString(t effect) string {
	switch t.k {
	case evOut:
		return t.s.String()
	case evEsc:
		return "escape(" + t.s.String() + ")"
	case evIndent:
		if t.ev.next != nil {
			return "Indent"
		}
		return t.piece.String()
	case evFlush:
		return "Flush()"
	}
	return t.ev.what + "()"
}

// sameText compares two strings part by part.
func (e *engine) sameText(st *state, a, b *strV) bool {
	a, b = e.norm(st, a), e.norm(st, b)
	if a.key() == b.key() || e.strDecide(st, a, b) == 1 {
		return true
	}
	x, y := append([]part(nil), a.p...), append([]part(nil), b.p...)
	sub := func(p part) ([]part, bool) {
		if p.a == nil {
			return nil, false
		}
		// a string known to equal a literal, or another name for a composite one
		s := &strV{[]part{p}}
		if p.whole && p.a.alias != nil {
			return p.a.alias.p, true
		}
		for k, v := range st.sfacts {
			if !v || !strings.HasPrefix(k, "eq\x00") {
				continue
			}
			ab := st.sargs[k]
			if ab[0].key() == s.key() {
				if _, ok := ab[1].lit(); ok {
					return ab[1].p, true
				}
			}
		}
		return nil, false
	}
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p.a == nil && q.a == nil {
			n := len(p.lit)
			if len(q.lit) < n {
				n = len(q.lit)
			}
			if p.lit[:n] != q.lit[:n] {
				return false
			}
			x, y = x[1:], y[1:]
			if len(p.lit) > n {
				x = append([]part{{lit: p.lit[n:]}}, x...)
			}
			if len(q.lit) > n {
				y = append([]part{{lit: q.lit[n:]}}, y...)
			}
			continue
		}
		if p.a != nil && q.a != nil && e.strDecide(st, &strV{[]part{p}}, &strV{[]part{q}}) == 1 {
			x, y = x[1:], y[1:]
			continue
		}
		if s, ok := sub(p); ok {
			x = append(append([]part(nil), s...), x[1:]...)
			continue
		}
		if s, ok := sub(q); ok {
			y = append(append([]part(nil), s...), y[1:]...)
			continue
		}
		return false
	}
	return len(x) == 0 && len(y) == 0
}

// checkEsc checks that an escaping is faithful: what is written for each
// character reads back as that character.
func checkEsc(m *escMap, attr bool) string {
	if m == nil {
		return "writes it without escaping"
	}
	covered := rset(nil)
	for _, t := range m.m {
		covered = covered.union(t.set)
		good := rset(nil)
		if t.verb {
			good = xmlChars.minus(rOf('<', '&'))
			if attr {
				good = good.minus(rOf('"', 9, 10, 13))
			} else {
				// a bare ]]> is not allowed in text
				good = good.minus(rOf('>'))
			}
		} else if c, ok := decodeRef(t.lit); ok {
			if c == 0xFFFD {
				good = rChars.minus(xmlChars).union(rOne(0xFFFD)).union(rOne(badByte))
			} else {
				good = rOne(c)
			}
		}
		if bad := t.set.minus(good); !bad.empty() {
			return fmt.Sprintf("writes %s as %s", bad, t)
		}
	}
	if miss := rChars.minus(covered); !miss.empty() {
		return fmt.Sprintf("does not say what is written for %s", miss)
	}
	return ""
}

// decodeRef reads back what is written for one character.
func decodeRef(s string) (int64, bool) {
	switch s {
	case "&lt;":
		return '<', true
	case "&gt;":
		return '>', true
	case "&amp;":
		return '&', true
	case "&quot;":
		return '"', true
	case "&apos;":
		return '\'', true
	}
	rs := []rune(s)
	if len(rs) == 1 && rs[0] == 0xFFFD {
		return 0xFFFD, true
	}
	if len(rs) == 1 && xmlChars.has(int64(rs[0])) && !strings.ContainsAny(s, "<>&\"\t\r\n") {
		return int64(rs[0]), true
	}
	var n int64
	var k string
	if _, err := fmt.Sscanf(s, "&#x%x%s", &n, &k); err == nil && k == ";" {
		return n, xmlChars.has(n)
	}
	if _, err := fmt.Sscanf(s, "&#%d%s", &n, &k); err == nil && k == ";" {
		return n, xmlChars.has(n)
	}
	return 0, false
}

// known reports accepted content that is a known weakness.
func (r *runner) known(st *state, o *op, m *mrun) {
	e := r.e
	for _, n := range m.notes {
		s := e.norm(st, n.s)
		fn := r.e.ld.root.Type(n.kind)
		name := n.kind
		pos := "-"
		if fn != nil {
			pos = e.pos(fn.Pos())
		}
		switch {
		case n.kind == "CommentContent" && e.hasDecide(st, strHas{"suffix", s, slit("-")}) != 0:
			r.find("C04,C12", "comment-hyphen-end", pos, name, "accepts comment content that ends in '-'")
		case n.kind == "CDataContent" && n.again && e.hasDecide(st, strHas{"prefix", s, slit(">")}) != 0 && e.hasDecide(st, strHas{"prefix", s, slit("]>")}) != 0:
			r.find("C04,C12", "cdata-split-end", pos, name, "accepts CDATA content that completes a ']]>' begun by the piece before it")
		}
	}
}
