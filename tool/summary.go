package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A summary describes what a function that loops over a string does, in terms
// of the classes of the string's characters.
type summary struct {
	ok     bool
	params []*atom // symbolic string parameters
	cases  []sumCase
	a      *atom // the string written out piecemeal, if any
	maps   []*escMap
	bad    string
	why    string
}

type sumCase struct {
	facts map[*atom]*charFact  // what is known of the characters
	more  map[*atom][]charFact // characters that are there
	empty map[*atom]int        // 1: empty, 0: not empty
	ret   retClass
	pre   []*strV
	esc   bool
	post  []*strV
	pend  bool
	nerr  []errV
	whole bool
	m     *escMap
}

type retClass struct {
	kind string // "none", "nil", "werr", "err", "bool", "tuple"
	what string
	pos  string
	fn   string
	b    bool
	sub  []retClass
}

func (r retClass) key() string {
	s := r.kind + r.what + r.pos + fmt.Sprint(r.b)
	for _, x := range r.sub {
		s += "(" + x.key() + ")"
	}
	return s
}

func (e *engine) summarised(st *state, fn *ssa.Function, args, bind []value, pos token.Pos) ([]res, []outcome, bool) {
	if len(bind) > 0 || st.em != nil || e.noSummary {
		return nil, nil, false
	}
	if !e.hasLoops(fn) && !e.visitsChars(fn) {
		return nil, nil, false
	}
	for _, s := range e.stack {
		if s == fn {
			return nil, nil, false
		}
	}
	// unknown booleans are decided first
	for i, a := range args {
		if b, ok := a.(boolV); ok && b.k == 2 && e.decide(st, b) < 0 {
			t, f := e.fork(st, b)
			var rs []res
			var os []outcome
			for _, x := range t {
				na := append([]value(nil), args...)
				na[i] = bconst(true)
				r, o := e.callStatic(x, fn, na, bind, pos)
				rs, os = append(rs, r...), append(os, o...)
			}
			for _, x := range f {
				na := append([]value(nil), args...)
				na[i] = bconst(false)
				r, o := e.callStatic(x, fn, na, bind, pos)
				rs, os = append(rs, r...), append(os, o...)
			}
			return rs, os, true
		}
	}
	key := fn.String()
	nargs := make([]value, len(args))
	var actual []*strV
	var cells []value
	for i, a := range args {
		switch v := a.(type) {
		case *strV:
			v = e.norm(st, v)
			if l, ok := v.lit(); ok {
				key += fmt.Sprintf("|%q", l)
				nargs[i] = v
				continue
			}
			key += "|s"
			actual = append(actual, v)
			nargs[i] = nil
		case boolV:
			d := e.decide(st, v)
			key += fmt.Sprintf("|%d", d)
			nargs[i] = bconst(d == 1)
		case intV:
			if !v.l.isConst() {
				return nil, nil, false
			}
			key += fmt.Sprintf("|%d", v.l.c)
			nargs[i] = v
		case funcV:
			if len(v.bind) > 0 {
				return nil, nil, false
			}
			key += "|" + v.fn.String()
			nargs[i] = v
		case termV:
			key += fmt.Sprintf("|t%d", v.id)
			nargs[i] = v
		case *structV:
			if len(v.f) != 1 {
				return nil, nil, false
			}
			t, ok := v.f[0].(termV)
			if !ok {
				return nil, nil, false
			}
			key += fmt.Sprintf("|{t%d}", t.id)
			nargs[i] = v
		case ptrV:
			if v.sid != 0 {
				return nil, nil, false
			}
			x := e.tryPeek(st, v)
			sv, ok := x.(*structV)
			if !ok || len(sv.f) != 1 {
				return nil, nil, false
			}
			t, ok := sv.f[0].(termV)
			if !ok {
				return nil, nil, false
			}
			key += fmt.Sprintf("|&{t%d}", t.id)
			nargs[i] = ptrV{o: -1}
			cells = append(cells, sv)
		case sliceV:
			if !v.null {
				return nil, nil, false
			}
			key += "|nil"
			nargs[i] = v
		default:
			return nil, nil, false
		}
	}
	if len(actual) == 0 {
		return nil, nil, false
	}
	sum := e.sums[key]
	if sum == nil {
		sum = e.summarise(fn, nargs, cells, pos)
		e.sums[key] = sum
	}
	if !sum.ok {
		return nil, nil, false
	}
	return e.applySummary(st, fn, sum, actual, pos), nil, true
}

// hasLoops reports whether the function or a function literal in it loops.
func (e *engine) hasLoops(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	if len(e.info(fn).loops) > 0 {
		return true
	}
	for _, g := range fn.AnonFuncs {
		if e.hasLoops(g) {
			return true
		}
	}
	return false
}

// visitsChars: the function has another look at the characters of a string,
// with a function of its own that it hands over for the purpose.
func (e *engine) visitsChars(fn *ssa.Function) bool {
	fi := e.info(fn)
	if fi.visits != 0 {
		return fi.visits > 0
	}
	fi.visits = -1
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || c.Common().StaticCallee() == nil {
				continue
			}
			g := c.Common().StaticCallee()
			text, visitor := false, false
			for _, a := range c.Common().Args {
				switch t := a.Type().Underlying().(type) {
				case *types.Basic:
					text = text || t.Info()&types.IsString != 0
				case *types.Signature:
					visitor = true
				}
			}
			if text && visitor && (stubNames[g.String()] != "" || g.Blocks != nil && len(e.info(g).loops) > 0) {
				fi.visits = 1
				return true
			}
		}
	}
	return false
}

func (e *engine) tryPeek(st *state, p ptrV) (v value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(undecided); !ok {
				panic(r)
			}
			v = nil
		}
	}()
	if _, ok := st.heap[p.o]; !ok {
		return nil
	}
	return e.peek(st, p.o, p.path)
}

func (e *engine) summarise(fn *ssa.Function, nargs, cells []value, pos token.Pos) *summary {
	n := 0
	for _, a := range nargs {
		if a == nil {
			n++
		}
	}
	var first *summary
	for k := 0; k < n; k++ {
		s := e.summariseWith(fn, nargs, cells, k, pos)
		if s.ok && s.bad == "" {
			return s
		}
		if first == nil || s.ok && !first.ok {
			first = s
		}
	}
	return first
}

// summariseWith analyses fn with parameter number k as the one written out.
func (e *engine) summariseWith(fn *ssa.Function, nargs, cells []value, k int, pos token.Pos) (sum *summary) {
	sum = &summary{}
	savedFinds, savedScan, savedStack := e.finds, e.scanned, e.stack
	e.finds = newFindings()
	var got *findings
	defer func() {
		got = e.finds
		e.finds, e.scanned, e.stack = savedFinds, savedScan, savedStack
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			sum = &summary{why: u.what + " at " + e.pos(u.pos)}
			return
		}
		if sum.ok {
			e.finds.merge(got)
		}
	}()
	st := e.base.clone()
	st.trace = nil
	args := append([]value(nil), nargs...)
	ci := 0
	for i, a := range args {
		if a == nil {
			at := e.newAtom(fn.Params[i].Name())
			sum.params = append(sum.params, at)
			args[i] = satom(at)
			e.touch(st, at.len)
		}
		if p, ok := a.(ptrV); ok && p.o == -1 {
			args[i] = ptrV{o: e.alloc(st, cells[ci], fn.Params[i].Name())}
			ci++
		}
	}
	sum.a = sum.params[k]
	st.em = &emitter{a: sum.a}
	st.lastW, st.okW = e.id(), 0
	outs := e.callFn(st, fn, args, nil, pos)
	merged := map[string]*sumCase{}
	var order []string
	changes := false // some characters are not written as they are
	for _, o := range outs {
		if o.st != nil && o.st.em != nil {
			for _, t := range o.st.em.out {
				changes = changes || !t.verb
			}
		}
	}
	for _, o := range outs {
		if o.panic {
			sum.why = "panics"
			return sum
		}
		s := o.st
		if len(s.trace) > 0 {
			sum.why = "other effects"
			return sum
		}
		em := s.em
		wrote := em.on || len(em.pre)+len(em.post) > 0
		rc, ok := e.classify(s, o.ret, wrote)
		if !ok {
			sum.why = fmt.Sprintf("result %v", o.ret)
			return sum
		}
		if s.failed {
			if !rc.isErr() {
				e.finds.add(finding{props: []string{"C09"}, rule: "sink-error-lost", where: e.pos(fn.Pos()), fn: shortFn(fn), msg: "returns no error although the sink has failed", ctx: "summary of " + shortFn(fn)})
			}
			continue
		}
		c := sumCase{facts: map[*atom]*charFact{}, more: map[*atom][]charFact{}, empty: map[*atom]int{}, ret: rc, pre: em.pre, post: em.post, esc: em.on, pend: s.pend, nerr: s.errs}
		if em.bad != "" && sum.bad == "" {
			sum.bad = em.bad
		}
		c.m = &escMap{em.out}
		for _, a := range sum.params {
			c.empty[a] = -1
			switch {
			case e.decideLE(s, symLin(a.len)) == 1:
				c.empty[a] = 1
			case e.decideLE(s, symLin(a.len).mul(-1).plus(1)) == 1:
				c.empty[a] = 0
			}
			c.facts[a] = e.bestFact(s, a)
			for _, f := range e.charFacts(s, satom(a)) {
				if !f.ok && f.first.eq(f.rest) && f.first.count() <= 3 {
					c.more[a] = append(c.more[a], f)
				}
			}
		}
		c.whole = c.empty[sum.a] == 1 || e.lineq(s, em.upto, symLin(sum.a.len))
		if wrote && !rc.isErr() && !c.whole && sum.bad == "" {
			sum.bad = fmt.Sprintf("the string is written only up to %s", em.upto)
		}
		if c.empty[sum.a] == 1 {
			c.esc = false
		} else if c.esc && changes && rc.kind != "err" {
			c.facts[sum.a], c.more[sum.a] = nil, nil
		}
		// group
		key := rc.key() + fmt.Sprint(c.pend, len(c.nerr))
		for _, l := range [][]*strV{c.pre, c.post} {
			key += "/"
			for _, x := range l {
				key += x.key()
			}
		}
		for _, a := range sum.params {
			f := c.facts[a]
			if f == nil {
				key += "?"
			} else if f.ok {
				key += "+"
			} else {
				key += "-"
			}
		}
		old := merged[key]
		if old == nil && c.empty[sum.a] == 1 && len(c.pre)+len(c.post) == 0 {
			// kept apart unless an equal case exists
		}
		if old == nil {
			cc := c
			cc.m = &escMap{append([]trans(nil), c.m.m...)}
			merged[key] = &cc
			order = append(order, key)
			continue
		}
		for _, a := range sum.params {
			x, y := old.facts[a], c.facts[a]
			if x != nil && y != nil {
				old.facts[a] = &charFact{ok: x.ok, first: x.first.union(y.first), rest: x.rest.union(y.rest)}
			}
			if old.empty[a] != c.empty[a] {
				old.empty[a] = -1
			}
			var both []charFact
			for _, f := range old.more[a] {
				for _, g := range c.more[a] {
					if f.first.eq(g.first) {
						both = append(both, f)
						break
					}
				}
			}
			old.more[a] = both
		}
		old.esc = old.esc || c.esc
		for _, t := range c.m.m {
			old.m.add(t.set, t.verb, t.lit)
		}
	}
	for _, k := range order {
		c := *merged[k]
		sum.cases = append(sum.cases, c)
		if c.esc {
			sum.maps = append(sum.maps, c.m)
		}
	}
	// all ways of writing must agree
	all := &escMap{}
	for _, m := range sum.maps {
		for _, t := range m.m {
			all.add(t.set, t.verb, t.lit)
		}
	}
	if len(sum.maps) > 0 {
		for i := range sum.cases {
			sum.cases[i].m = all
		}
	}
	sum.ok = true
	return sum
}

func (r retClass) isErr() bool {
	if r.kind == "err" {
		return true
	}
	if r.kind == "werr" {
		return true
	}
	for _, x := range r.sub {
		if x.isErr() {
			return true
		}
	}
	return false
}

func (e *engine) classify(s *state, v value, wrote bool) (retClass, bool) {
	switch v := v.(type) {
	case nil:
		return retClass{kind: "none"}, true
	case nilV:
		if wrote && !s.pend {
			return retClass{kind: "werr"}, true
		}
		return retClass{kind: "nil"}, true
	case errV:
		if v.wraps != nil {
			return retClass{}, false
		}
		return retClass{kind: "err", what: v.what, pos: v.pos}, true
	case werrV:
		if v.id != s.lastW {
			return retClass{}, false
		}
		return retClass{kind: "werr"}, true
	case boolV:
		if d := e.decide(s, v); d >= 0 {
			return retClass{kind: "bool", b: d == 1}, true
		}
	case tupleV:
		r := retClass{kind: "tuple"}
		for _, x := range v {
			c, ok := e.classify(s, x, wrote)
			if !ok {
				return r, false
			}
			r.sub = append(r.sub, c)
		}
		return r, true
	}
	return retClass{}, false
}

// bestFact combines what is known of the characters of a.
func (e *engine) bestFact(s *state, a *atom) *charFact {
	var ok, no *charFact
	for _, f := range e.charFacts(s, satom(a)) {
		f := f
		if f.ok {
			if ok == nil {
				ok = &f
			} else {
				ok = &charFact{ok: true, first: ok.first.intersect(f.first), rest: ok.rest.intersect(f.rest)}
			}
			continue
		}
		if no == nil || no.weak && !f.weak || no.weak == f.weak && f.first.union(f.rest).count() < no.first.union(no.rest).count() {
			no = &f
		}
	}
	if e.decideLE(s, symLin(a.len)) == 1 {
		return &charFact{ok: true}
	}
	if ok != nil {
		return ok
	}
	return no
}

func (e *engine) applySummary(st *state, fn *ssa.Function, sum *summary, actual []*strV, pos token.Pos) []res {
	e.stats.calls++
	if e.stats.fnsSeen != nil {
		e.stats.fnsSeen[fn] = true
	}
	if sum.bad != "" {
		e.finds.add(finding{props: []string{"C02"}, rule: "piecewise-output", where: e.pos(fn.Pos()), fn: shortFn(fn), msg: sum.bad, ctx: "summary of " + shortFn(fn)})
	}
	subst := func(s *strV) *strV {
		out := slit("")
		for _, p := range s.p {
			done := false
			for i, a := range sum.params {
				if p.a == a && p.whole {
					out = out.concat(actual[i])
					done = true
				} else if p.a == a {
					e.giveUp(pos, "part of a parameter in a summary")
				}
			}
			if !done {
				out = out.concat(&strV{[]part{p}})
			}
		}
		return out
	}
	for i, a := range sum.params {
		for f := range e.scans[a] {
			for _, p := range actual[i].p {
				if p.a != nil {
					e.scannedBy(p.a, f)
				}
			}
		}
	}
	var out []res
	for _, c := range sum.cases {
		s := st.clone()
		ok := true
		for i, a := range sum.params {
			act := actual[i]
			switch c.empty[a] {
			case 1:
				sts := e.assume(s, bcond(strEq{act, slit("")}), true)
				ok = ok && len(sts) > 0
			case 0:
				ok = ok && e.assumeLE(s, e.strLen(act).mul(-1).plus(1))
			}
			if !ok {
				break
			}
			if f := c.facts[a]; f != nil {
				ok = ok && e.charAssume(s, act, *f)
			}
			for _, f := range c.more[a] {
				ok = ok && e.charAssume(s, act, f)
			}
		}
		if !ok {
			continue
		}
		wrote := false
		put := func(k evKind, x *strV, m *escMap) {
			x = e.norm(s, x)
			if len(x.p) == 0 {
				return
			}
			s.trace = append(s.trace, event{kind: k, s: x, m: m, pos: e.pos(pos), fn: shortFn(fn)})
			wrote = true
		}
		for _, x := range c.pre {
			put(evOut, subst(x), nil)
		}
		if c.esc {
			for i, a := range sum.params {
				if a == sum.a {
					put(evEsc, actual[i], c.m)
				}
			}
		}
		for _, x := range c.post {
			put(evOut, subst(x), nil)
		}
		if wrote {
			s.lastW = e.id()
			s.pend = true
		}
		out = append(out, res{s, e.instRet(s, c.ret)})
	}
	return out
}

func (e *engine) instRet(s *state, r retClass) value {
	switch r.kind {
	case "none":
		return tupleV{}
	case "nil":
		return nilV{}
	case "werr":
		return werrV{s.lastW}
	case "bool":
		return bconst(r.b)
	case "err":
		v := errV{id: e.id(), pos: r.pos, what: r.what}
		s.errs = append(s.errs, v)
		return v
	}
	var tv tupleV
	for _, x := range r.sub {
		tv = append(tv, e.instRet(s, x))
	}
	return tv
}

func (s *summary) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "ok=%v why=%s bad=%s\n", s.ok, s.why, s.bad)
	for _, c := range s.cases {
		fmt.Fprintf(&b, "  ret %s pend=%v esc=%v pre=%v post=%v", c.ret.key(), c.pend, c.esc, c.pre, c.post)
		var as []*atom
		for a := range c.facts {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		for _, a := range as {
			if f := c.facts[a]; f != nil {
				fmt.Fprintf(&b, " %s: ok=%v first=%s rest=%s empty=%d", a, f.ok, f.first, f.rest, c.empty[a])
			}
		}
		b.WriteByte('\n')
		if c.esc {
			fmt.Fprintf(&b, "    map %s\n", c.m)
		}
	}
	return b.String()
}

var _ types.Type
