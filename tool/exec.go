package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type engine struct {
	fnNames, fnShort  map[*ssa.Function]string
	ld                *loaded
	nsym              int
	symInfo           []symMeta
	derived           map[sym]*derivedInt
	natom             int
	nobj              int
	nid               int
	objName           map[objID]string
	caller            map[objID]bool // memory owned by the caller
	global            map[objID]*ssa.Global
	globals           map[*ssa.Global]objID
	fns               map[*ssa.Function]*fnInfo
	names             map[int]string
	finds             *findings
	hooks             *hooks
	ctx               string // what is being analysed, for reports
	stats             stats
	stack             []*ssa.Function
	scans             map[*atom]map[*ssa.Function]bool
	initDone          bool
	sums              map[string]*summary
	steps             int
	scanned           int // characters of unknown strings looked at
	inLoop            int // fixpoints being solved
	aliases           map[string]*atom
	mapGlobal         map[objID]*ssa.Global
	runeOf            map[*atom]lin
	dynVals           map[string]value
	lenient           bool // unknown library functions have no effect
	noNilIface        bool
	unrollMax         int
	each              map[int]listElem
	handled, eachRead objID // how many list elements were handled, whether one was read
	prune             int   // paths of a loop followed further, if not 0
	trackCaller       bool
	noSummary, debug  bool
	base              *state
	noPanicCheck      bool
}

type stats struct {
	states, ops, paths, loops, calls, instrs int
	fnsSeen                                  map[*ssa.Function]bool
	indexes, derefs, asserts, panics         map[string]bool
}

// exhausted says what ran out, once something did.
var exhausted atomic.Pointer[string]

// a check has 900 s, and 32 GB
const (
	timeLimit   = 660 * time.Second
	memoryLimit = 16 << 30
)

// limit makes the analysis come to an end when time or memory run out.
func limit() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(memoryLimit * 3 / 4)
	end := time.Now().Add(timeLimit)
	go func() {
		why := ""
		var m runtime.MemStats
		for why == "" {
			time.Sleep(250 * time.Millisecond)
			runtime.ReadMemStats(&m)
			switch {
			case time.Now().After(end):
				why = "out of time"
			case m.HeapAlloc > memoryLimit:
				why = "out of memory"
			}
		}
		exhausted.Store(&why)
	}()
}

// undecided is raised for a construct the analysis cannot follow.
type undecided struct {
	pos  token.Pos
	what string
}

func (e *engine) giveUp(pos token.Pos, f string, a ...interface{}) {
	panic(undecided{pos, fmt.Sprintf(f, a...)})
}

func (e *engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := e.ld.fset.Position(p)
	n := q.Filename
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return fmt.Sprintf("%s:%d", n, q.Line)
}

func (e *engine) id() int { e.nid++; return e.nid }

type outcome struct {
	st    *state
	ret   value // tupleV for several results
	panic bool
	pos   token.Pos
	what  string
}

type frame struct {
	fi     *fnInfo
	env    []value
	bind   []value
	defers []deferred
	site   token.Pos
}
type deferred struct {
	call *ssa.CallCommon
	fn   value
	args []value
	pos  token.Pos
}

func (f *frame) clone() *frame {
	n := *f
	n.env = append([]value(nil), f.env...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type path struct {
	fr   *frame
	b    *ssa.BasicBlock
	prev *ssa.BasicBlock
	i    int
	st   *state
}

type fnInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	n      int
	loops  map[*ssa.BasicBlock]*loop // by head
	order  []*loop
	scan   int
	visits int // whether visitsChars: 1, -1 or 0 for not yet known
}

func (e *engine) info(fn *ssa.Function) *fnInfo {
	if fi := e.fns[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := fi.num[v]; !ok {
			fi.num[v] = fi.n
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	findLoops(fi)
	e.fns[fn] = fi
	return fi
}

// --- values of ssa operands

func (e *engine) val(p *path, v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return ptrV{o: e.globalObj(p.st, v)}
	case *ssa.Function:
		return funcV{fn: v}
	case *ssa.Builtin:
		return builtinV{v}
	case *ssa.FreeVar:
		for i, f := range p.fr.fi.fn.FreeVars {
			if f == v {
				return p.fr.bind[i]
			}
		}
	}
	if i, ok := p.fr.fi.num[v]; ok {
		if x := p.fr.env[i]; x != nil {
			return x
		}
	}
	e.giveUp(v.Pos(), "no value for %s in %s", v.Name(), p.fr.fi.fn)
	return nil
}

func (e *engine) globalObj(st *state, g *ssa.Global) objID {
	if o, ok := e.globals[g]; ok {
		if _, ok := st.heap[o]; ok {
			return o
		}
		st.wheap()[o] = e.globalInit(g)
		return o
	}
	o := e.alloc(st, e.globalInit(g), g.Name())
	e.globals[g] = o
	e.global[o] = g
	return o
}
func (e *engine) globalInit(g *ssa.Global) value {
	t := g.Type().(*types.Pointer).Elem()
	if g.Pkg != nil && e.ld.pkgs[g.Pkg.Pkg.Path()] != nil {
		return e.zero(t)
	}
	// a variable of another package: its value is not known, but never nil
	if types.IsInterface(t) {
		id := e.id()
		e.names[id] = g.String()
		return symIface{id: id, t: t, name: g.String()}
	}
	return termV{id: e.id(), what: g.String(), t: t}
}

func (e *engine) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return bconst(constant.BoolVal(c.Value))
	case constant.String:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return slit(constant.StringVal(c.Value))
		}
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if v, ok := constant.Int64Val(c.Value); ok {
				return intV{con(v)}
			}
		}
	}
	return opaqueV{what: "const " + c.Value.ExactString(), t: c.Type()}
}

func (e *engine) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bconst(false)
		case u.Info()&types.IsInteger != 0:
			return intV{}
		case u.Info()&types.IsString != 0:
			return slit("")
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return nilV{}
		}
		return opaqueV{what: "const 0", t: t}
	case *types.Struct:
		s := &structV{t: u}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &arrV{elem: u.Elem(), n: con(u.Len()), rest: restZero, table: map[int64]value{}}
	case *types.Slice:
		return sliceV{null: true}
	case *types.Map:
		return mapV{null: true}
	case *types.Tuple:
		var tv tupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.zero(u.At(i).Type()))
		}
		return tv
	}
	return nilV{}
}

// fresh makes an unknown value of a type; o is where it came from.
func (e *engine) fresh(st *state, t types.Type, name string, orig int) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bcond(symCond{e.id(), name})
		case u.Info()&types.IsInteger != 0:
			return intV{symLin(e.freshInt(t))}
		case u.Info()&types.IsString != 0:
			a := e.newAtom(name)
			a.orig = orig
			return satom(a)
		}
		return opaqueV{id: e.id(), what: name, t: t}
	case *types.Struct:
		s := &structV{t: u, orig: orig}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() && !f.Embedded() && e.trackCaller && e.isRepo(f.Pkg()) {
				s.f = append(s.f, e.zero(f.Type()))
				continue
			}
			s.f = append(s.f, e.fresh(st, f.Type(), name+"."+f.Name(), orig))
		}
		return s
	case *types.Array:
		return &arrV{elem: u.Elem(), n: con(u.Len()), rest: restUnknown}
	case *types.Slice:
		o := e.alloc(st, &arrV{elem: u.Elem(), n: symLin(e.newSym(true, nil)), rest: restCaller}, name)
		e.caller[o] = true
		n := e.newSym(true, nil)
		c := e.newSym(true, nil)
		e.touch(st, n)
		e.touch(st, c)
		st.wz().add(n, c, 0)
		return sliceV{o: o, len: symLin(n), cap: symLin(c), name: name}
	case *types.Pointer:
		id := e.id()
		e.names[id] = name
		o := e.alloc(st, e.fresh(st, u.Elem(), "*"+name, orig), "*"+name)
		e.caller[o] = true
		return ptrV{o: o, sid: id}
	case *types.Interface:
		id := e.id()
		e.names[id] = name
		return symIface{id: id, t: t, name: name}
	case *types.Signature:
		return symFunc{e.id(), name}
	case *types.Tuple:
		var tv tupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), orig))
		}
		return tv
	}
	return opaqueV{id: e.id(), what: name, t: t}
}

func (e *engine) freshInt(t types.Type) sym {
	b := t.Underlying().(*types.Basic)
	_, named := t.(*types.Named)
	switch b.Kind() {
	case types.Uint8:
		return e.newSym(false, rByte)
	case types.Int8:
		return e.newSym(false, rRange(-128, 127))
	case types.Int16:
		return e.newSym(false, rRange(-32768, 32767))
	case types.Uint16:
		return e.newSym(false, rRange(0, 65535))
	case types.Int32:
		return e.newSym(false, rRange(-1<<31, 1<<31-1))
	case types.Uint32:
		return e.newSym(false, rRange(0, 1<<32-1))
	case types.Uint, types.Uint64, types.Uintptr:
		return e.newSym(true, nil)
	}
	if named {
		return e.newSym(false, rAll)
	}
	return e.newSym(false, nil)
}

func (e *engine) isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// --- deciding and assuming conditions

// decide: 1, 0 or -1.
func (e *engine) decide(st *state, b boolV) int {
	if b.k != 2 {
		return b.k
	}
	r := -1
	switch c := b.c.(type) {
	case linCond:
		if c.le {
			r = e.decideLE(st, c.e)
		} else {
			r = e.decideEQ(st, c.e)
		}
	case symCond:
		if v, ok := st.bools[c.id]; ok {
			r = b2i(v)
		}
	case nilCond:
		if v, ok := st.bools[c.id]; ok {
			r = b2i(v)
		} else if c.kind == 1 && st.failed {
			r = 0
		} else if c.kind == 1 && c.id <= st.okW {
			r = 1
		}
	case strEq:
		r = e.strDecide(st, c.a, c.b)
	case strHas:
		r = e.hasDecide(st, c)
	case inSet:
		_, s := e.linSet(st, c.l)
		if s != nil {
			if s.subset(c.s) {
				r = 1
			} else if s.disjoint(c.s) {
				r = 0
			}
		}
	case dynCond:
		if t, ok := st.dyn[c.id]; ok {
			r = b2i(types.Identical(t, c.t))
		} else {
			for _, t := range st.ndyn[c.id] {
				if types.Identical(t, c.t) {
					r = 0
				}
			}
			if v, ok := st.bools[c.id]; ok && v {
				r = 0
			}
		}
	case orCond:
		x, y := e.decide(st, c.a), e.decide(st, c.b)
		switch {
		case x == 1 || y == 1:
			r = 1
		case x == 0 && y == 0:
			r = 0
		}
	}
	if r >= 0 && b.neg {
		r = 1 - r
	}
	return r
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (e *engine) hasDecide(st *state, c strHas) int {
	a, b := e.norm(st, c.a), e.norm(st, c.b)
	la, oka := a.lit()
	lb, okb := b.lit()
	if oka && okb {
		switch c.op {
		case "contains":
			return b2i(strings.Contains(la, lb))
		case "prefix":
			return b2i(strings.HasPrefix(la, lb))
		case "suffix":
			return b2i(strings.HasSuffix(la, lb))
		case "fold":
			return b2i(strings.EqualFold(la, lb))
		}
	}
	if v, ok := st.sfacts[e.hasKey(st, c)]; ok {
		return b2i(v)
	}
	if c.op == "fold" {
		// it may be another literal
		if okb {
			pre := e.hasKey(st, strHas{"fold", a, slit("")})
			pre = pre[:strings.LastIndexByte(pre, 0)+1]
			for f, v := range st.sfacts {
				if v && strings.HasPrefix(f, pre) {
					if l, ok := st.sargs[f][1].lit(); ok && !strings.EqualFold(l, lb) {
						return 0
					}
				}
			}
			return e.foldDecide(st, a, lb)
		}
		return -1
	}
	if okb && lb == "" {
		return 1
	}
	if e.decideLE(st, e.strLen(b).sub(e.strLen(a))) == 0 {
		return 0
	}
	if okb && c.op == "contains" {
		for _, r := range runes(lb) {
			not := rChars.minus(rOne(r))
			switch d := e.charDecide(st, a, not, not); {
			case r == utf8.RuneError || r == badByte:
			case d == 1:
				return 0
			case d == 0 && len(lb) == len(string(rune(r))):
				return 1
			}
		}
		for _, p := range a.p {
			if p.a == nil && strings.Contains(p.lit, lb) {
				return 1
			}
		}
	}
	return -1
}

// foldDecide compares a string with a literal, but for case.
func (e *engine) foldDecide(st *state, a *strV, lit string) int {
	for i := 0; i < len(lit); i++ {
		// these have other forms of other lengths
		if lit[i] >= 0x80 || strings.ContainsRune("kKsS", rune(lit[i])) {
			return -1
		}
	}
	if e.decideEQ(st, e.strLen(a).plus(-int64(len(lit)))) == 0 {
		return 0
	}
	// it may be known to be some literal, or to be none of the forms
	pre, k := "eq\x00", a.key()
	for f, v := range st.sfacts {
		if v && strings.HasPrefix(f, pre) {
			g := st.sargs[f]
			for i := range g {
				if l, ok := g[1-i].lit(); ok && e.norm(st, g[i]).key() == k {
					return b2i(strings.EqualFold(l, lit))
				}
			}
		}
	}
	if len(lit) > 6 {
		return -1
	}
	forms := []string{""}
	for _, r := range lit {
		var next []string
		for _, f := range forms {
			lo, up := unicode.ToLower(r), unicode.ToUpper(r)
			next = append(next, f+string(lo))
			if up != lo {
				next = append(next, f+string(up))
			}
		}
		forms = next
	}
	none := true
	for _, f := range forms {
		if v, ok := st.sfacts[e.eqKey(st, a, slit(f))]; !ok || v {
			none = false
		}
	}
	if none {
		return 0
	}
	// or its characters have been looked at
	at := a.atom()
	if at == nil {
		return -1
	}
	all := e.decideEQ(st, e.strLen(a).plus(-int64(len(lit)))) == 1
	for i, c := range lit {
		g := e.findSeg(st, at, con(int64(i)), true)
		if g == nil {
			g = e.findSeg(st, at, con(int64(i)), false)
		}
		if g == nil {
			all = false
			continue
		}
		s, want := e.segSet(st, *g), rOne(int64(unicode.ToLower(c))).union(rOne(int64(unicode.ToUpper(c))))
		if s.disjoint(want) {
			return 0
		}
		all = all && s.subset(want)
	}
	if all {
		return 1
	}
	return -1
}

// assume returns the states (0, 1 or more) in which b is want. st is consumed.
func (e *engine) assume(st *state, b boolV, want bool) []*state {
	if b.k != 2 {
		if (b.k == 1) == want {
			return []*state{st}
		}
		return nil
	}
	if b.neg {
		want = !want
	}
	one := func(ok bool) []*state {
		if ok {
			return []*state{st}
		}
		return nil
	}
	b.neg = false
	if d := e.decide(st, b); d >= 0 {
		return one((d == 1) == want)
	}
	switch c := b.c.(type) {
	case linCond:
		switch {
		case c.le && want:
			return one(e.assumeLE(st, c.e))
		case c.le:
			return one(e.assumeLE(st, c.e.mul(-1).plus(1)))
		case want:
			return one(e.assumeEQ(st, c.e))
		default:
			return one(e.assumeNE(st, c.e))
		}
	case symCond:
		st.wbools()
		st.bools[c.id] = want
		return one(true)
	case nilCond:
		st.wbools()
		st.bools[c.id] = want
		switch c.kind {
		case 1: // a write error
			if !want {
				st.failed = true
			} else {
				if c.id > st.okW {
					st.okW = c.id
				}
				if c.id == st.lastW {
					st.pend = false
				}
			}
		case 2:
			if !want {
				st.xerr = append(st.xerr, c.name)
			}
		}
		return one(true)
	case strEq:
		return e.assumeStrEq(st, c, want)
	case strHas:
		return one(e.addStrHas(st, c, want))
	case inSet:
		x, _ := e.linSet(st, c.l)
		if x != 0 {
			s := c.s
			if !want {
				s = s.complement()
			}
			return one(e.restrict(st, x, s.shift(-c.l.c)))
		}
		return one(true)
	case dynCond:
		st.wbools()
		if want {
			st.dyn[c.id] = c.t
			st.bools[c.id] = false
		} else {
			st.ndyn[c.id] = append(st.ndyn[c.id], c.t)
		}
		return one(true)
	case orCond:
		if !want {
			var out []*state
			for _, s := range e.assume(st, c.a, false) {
				out = append(out, e.assume(s, c.b, false)...)
			}
			return out
		}
		o := st.clone()
		out := e.assume(st, c.a, true)
		for _, s := range e.assume(o, c.a, false) {
			out = append(out, e.assume(s, c.b, true)...)
		}
		return out
	}
	return one(true)
}

func (e *engine) assumeStrEq(st *state, c strEq, want bool) []*state {
	a, b := e.norm(st, c.a), e.norm(st, c.b)
	if _, ok := a.lit(); ok {
		a, b = b, a
	}
	lb, okb := b.lit()
	if okb && lb == "" {
		l := e.strLen(a)
		if want {
			if !e.assumeEQ(st, l) {
				return nil
			}
			for _, p := range a.p {
				if !e.assumeEQ(st, e.partLen(p)) {
					return nil
				}
			}
			return []*state{st}
		}
		// not empty: one of the parts is not
		var out []*state
		cur := st
		for i, p := range a.p {
			pl := e.partLen(p)
			if i == len(a.p)-1 {
				if e.assumeLE(cur, pl.mul(-1).plus(1)) {
					out = append(out, cur)
				}
				break
			}
			ne := cur.clone()
			if e.assumeLE(ne, pl.mul(-1).plus(1)) {
				out = append(out, ne)
			}
			if !e.assumeEQ(cur, pl) {
				break
			}
		}
		return out
	}
	k := e.eqKey(st, a, b)
	st.wfacts()
	st.sfacts[k] = want
	st.sargs[k] = [2]*strV{a, b}
	if want {
		if !e.assumeEQ(st, e.strLen(a).sub(e.strLen(b))) {
			return nil
		}
	}
	return []*state{st}
}

// fork splits a state on a condition.
func (e *engine) fork(st *state, b boolV) (t, f []*state) {
	switch e.decide(st, b) {
	case 1:
		return []*state{st}, nil
	case 0:
		return nil, []*state{st}
	}
	o := st.clone()
	return e.assume(st, b, true), e.assume(o, b, false)
}

func cmpLin(op token.Token, a, b lin) boolV {
	d := a.sub(b)
	switch op {
	case token.EQL:
		return bcond(linCond{e: d})
	case token.NEQ:
		return bcond(linCond{e: d}).not()
	case token.LEQ:
		return bcond(linCond{d, true})
	case token.LSS:
		return bcond(linCond{d.plus(1), true})
	case token.GEQ:
		return bcond(linCond{d.mul(-1), true})
	case token.GTR:
		return bcond(linCond{d.mul(-1).plus(1), true})
	}
	panic("cmpLin")
}

// --- running a function

const maxDepth = 200

func (e *engine) callFn(st *state, fn *ssa.Function, args, bind []value, site token.Pos) []outcome {
	if fn.Blocks == nil {
		e.giveUp(site, "no body for %s", fn)
	}
	if len(e.stack) > maxDepth {
		e.giveUp(site, "calls nested too deeply at %s", fn)
	}
	e.stats.calls++
	if e.stats.fnsSeen != nil {
		e.stats.fnsSeen[fn] = true
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fi := e.info(fn)
	fr := &frame{fi: fi, env: make([]value, fi.n), bind: bind, site: site}
	for i, p := range fn.Params {
		fr.env[fi.num[p]] = args[i]
	}
	exits, outs := e.region(fi, nil, path{fr: fr, b: fn.Blocks[0], st: st})
	if len(exits) > 0 {
		e.giveUp(site, "internal: exits from a function body")
	}
	return outs
}

// region runs paths within a loop (or the whole function if l is nil) until
// they leave it. A path at the head of l itself is a finished iteration and
// is returned among the exits.
func (e *engine) region(fi *fnInfo, l *loop, start path) (exits []path, outs []outcome) {
	work := []path{start}
	first := true
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if l != nil && !l.blocks[p.b] {
			exits = append(exits, p)
			continue
		}
		if l != nil && p.b == l.head && p.i == 0 && !first {
			exits = append(exits, p)
			continue
		}
		if p.i == 0 {
			if inner := fi.loops[p.b]; inner != nil && inner != l {
				ex, os := e.loop(fi, inner, p)
				work = append(work, ex...)
				outs = append(outs, os...)
				continue
			}
		}
		first = false
		next, os := e.block(p)
		outs = append(outs, os...)
		work = append(work, next...)
	}
	return
}

// block runs a path to the end of its block.
func (e *engine) block(p path) (next []path, outs []outcome) {
	// phis are evaluated in parallel
	if p.i == 0 && p.prev != nil {
		e.phis(&p)
	}
	work := []path{p}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p.i == 0 {
			for p.i < len(p.b.Instrs) {
				if _, ok := p.b.Instrs[p.i].(*ssa.Phi); !ok {
					break
				}
				p.i++
			}
		}
	instrs:
		for p.i < len(p.b.Instrs) {
			in := p.b.Instrs[p.i]
			e.stats.instrs++
			e.steps++
			if e.steps&0xfff == 0 {
				if why := exhausted.Load(); why != nil {
					e.giveUp(in.Pos(), "%s", *why)
				}
			}
			if e.steps > 60000000 {
				e.giveUp(in.Pos(), "too many steps")
			}
			switch in := in.(type) {
			case *ssa.If:
				b := e.val(&p, in.Cond).(boolV)
				t, f := e.fork(p.st, b)
				for i, s := range t {
					fr := p.fr
					if i > 0 || len(f) > 0 {
						fr = fr.clone()
					}
					next = append(next, path{fr: fr, b: p.b.Succs[0], prev: p.b, st: s})
				}
				for i, s := range f {
					fr := p.fr
					if i > 0 {
						fr = fr.clone()
					}
					next = append(next, path{fr: fr, b: p.b.Succs[1], prev: p.b, st: s})
				}
				break instrs
			case *ssa.Jump:
				next = append(next, path{fr: p.fr, b: p.b.Succs[0], prev: p.b, st: p.st})
				break instrs
			case *ssa.Return:
				var ret value
				if len(in.Results) == 1 {
					ret = e.val(&p, in.Results[0])
				} else if len(in.Results) > 1 {
					var tv tupleV
					for _, r := range in.Results {
						tv = append(tv, e.val(&p, r))
					}
					ret = tv
				}
				outs = append(outs, outcome{st: p.st, ret: ret, pos: in.Pos()})
				break instrs
			case *ssa.Panic:
				outs = append(outs, outcome{st: p.st, panic: true, ret: e.val(&p, in.X), pos: in.Pos(), what: "explicit panic in " + p.fr.fi.fn.String()})
				break instrs
			default:
				rs, os := e.instr(&p, in)
				outs = append(outs, os...)
				if len(rs) == 1 && rs[0].st == p.st {
					if v, ok := in.(ssa.Value); ok && rs[0].v != nil {
						p.fr.env[p.fr.fi.num[v]] = rs[0].v
					}
					p.i++
					continue
				}
				for i, r := range rs {
					q := p
					q.i++
					q.st = r.st
					if i < len(rs)-1 {
						q.fr = p.fr.clone()
					}
					if v, ok := in.(ssa.Value); ok && r.v != nil {
						q.fr.env[q.fr.fi.num[v]] = r.v
					}
					work = append(work, q)
				}
				break instrs
			}
		}
	}
	return
}

func (e *engine) phis(p *path) {
	k := -1
	for i, b := range p.b.Preds {
		if b == p.prev {
			k = i
		}
	}
	var vs []value
	var ps []*ssa.Phi
	for _, in := range p.b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vs = append(vs, e.val(p, ph.Edges[k]))
	}
	for i, ph := range ps {
		p.fr.env[p.fr.fi.num[ph]] = vs[i]
	}
	p.prev = nil
}

type res struct {
	st *state
	v  value
}

func one(st *state, v value) []res { return []res{{st, v}} }

func (e *engine) instr(p *path, in ssa.Instruction) ([]res, []outcome) {
	st := p.st
	switch in := in.(type) {
	case *ssa.Alloc:
		name := in.Comment
		if name == "" {
			name = "new"
		}
		return one(st, ptrV{o: e.alloc(st, e.zero(in.Type().(*types.Pointer).Elem()), name)}), nil
	case *ssa.BinOp:
		return e.binop(p, in), nil
	case *ssa.UnOp:
		return e.unop(p, in)
	case *ssa.Call:
		return e.call(p, &in.Call, in.Pos(), in)
	case *ssa.ChangeInterface:
		return one(st, e.val(p, in.X)), nil
	case *ssa.ChangeType:
		return one(st, e.val(p, in.X)), nil
	case *ssa.Convert:
		return one(st, e.convert(p, e.val(p, in.X), in.X.Type(), in.Type(), in.Pos())), nil
	case *ssa.MultiConvert:
		return one(st, e.convert(p, e.val(p, in.X), in.X.Type(), in.Type(), in.Pos())), nil
	case *ssa.DebugRef:
		return one(st, nil), nil
	case *ssa.Defer:
		fn, args := e.callee(p, &in.Call)
		p.fr.defers = append(p.fr.defers, deferred{&in.Call, fn, args, in.Pos()})
		return one(st, nil), nil
	case *ssa.RunDefers:
		return e.runDefers(p, st, len(p.fr.defers)-1)
	case *ssa.Extract:
		t := e.val(p, in.Tuple)
		tv, ok := t.(tupleV)
		if !ok {
			e.giveUp(in.Pos(), "extract from %T", t)
		}
		return one(st, tv[in.Index]), nil
	case *ssa.Field:
		s, ok := e.val(p, in.X).(*structV)
		if !ok {
			return one(st, e.fresh(st, in.Type(), "field", 0)), nil
		}
		return one(st, s.f[in.Field]), nil
	case *ssa.FieldAddr:
		x := e.val(p, in.X)
		pt, sts := e.deref(st, x, in.Pos())
		var out []res
		for _, s := range sts {
			if pt == nil {
				out = append(out, res{s, opaqueV{id: e.id(), what: "addr", t: in.Type()}})
				continue
			}
			np := append(append([]sel(nil), pt.path...), sel{field: in.Field})
			out = append(out, res{s, ptrV{o: pt.o, path: np}})
		}
		return out, nil
	case *ssa.Index:
		return e.index(p, e.val(p, in.X), e.val(p, in.Index), in.Type(), in.Pos()), nil
	case *ssa.IndexAddr:
		return e.indexAddr(p, e.val(p, in.X), e.val(p, in.Index), in.Type(), in.Pos()), nil
	case *ssa.Lookup:
		return e.lookup(p, in), nil
	case *ssa.MakeClosure:
		var b []value
		for _, x := range in.Bindings {
			b = append(b, e.val(p, x))
		}
		return one(st, funcV{in.Fn.(*ssa.Function), b}), nil
	case *ssa.MakeInterface:
		return one(st, e.makeIface(e.val(p, in.X), in.X.Type())), nil
	case *ssa.MakeMap:
		o := e.alloc(st, &mapObj{t: in.Type().Underlying().(*types.Map)}, "map")
		return one(st, mapV{o: o}), nil
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		n, ok1 := e.val(p, in.Len).(intV)
		c, ok2 := e.val(p, in.Cap).(intV)
		if !ok1 || !ok2 {
			e.giveUp(in.Pos(), "make of unknown size")
		}
		o := e.alloc(st, &arrV{elem: el, n: c.l, rest: restZero, table: map[int64]value{}}, "make")
		return one(st, sliceV{o: o, len: n.l, cap: c.l}), nil
	case *ssa.MapUpdate:
		return e.mapUpdate(p, in), nil
	case *ssa.Next:
		return e.next(p, in), nil
	case *ssa.Range:
		return e.rangeOver(p, in), nil
	case *ssa.Slice:
		return e.slice(p, in), nil
	case *ssa.Store:
		return e.storeInstr(p, in), nil
	case *ssa.TypeAssert:
		return e.typeAssert(p, in)
	}
	e.giveUp(in.Pos(), "unsupported instruction %T in %s", in, p.fr.fi.fn)
	return nil, nil
}

func (e *engine) makeIface(v value, t types.Type) value {
	return ifaceV{t, v}
}

func (e *engine) runDefers(p *path, st *state, i int) ([]res, []outcome) {
	if i < 0 {
		return one(st, nil), nil
	}
	d := p.fr.defers[i]
	rs, os := e.callValue(p, st, d.call, d.fn, d.args, d.pos, nil)
	var out []res
	for _, r := range rs {
		r2, o2 := e.runDefers(p, r.st, i-1)
		out = append(out, r2...)
		os = append(os, o2...)
	}
	return out, os
}

// deref checks a pointer for nil and returns its target and the states in
// which it is not nil.
func (e *engine) deref(st *state, x value, pos token.Pos) (*ptrV, []*state) {
	switch x := x.(type) {
	case ptrV:
		if x.sid == 0 {
			return &x, []*state{st}
		}
		c := bcond(nilCond{id: x.sid, name: e.names[x.sid]})
		if e.decide(st, c) == -1 || e.decide(st, c) == 1 {
			e.mayPanic(st, pos, "nil dereference of "+e.names[x.sid])
		}
		return &x, e.assume(st, c, false)
	case nilV:
		e.mayPanic(st, pos, "nil dereference")
		return nil, nil
	case opaqueV, termV:
		return nil, []*state{st}
	}
	e.giveUp(pos, "dereference of %T", x)
	return nil, nil
}

// mayPanic records a possible run-time panic.
func (e *engine) mayPanic(st *state, pos token.Pos, what string) {
	if e.noPanicCheck {
		return
	}
	e.finds.add(finding{props: []string{"C21"}, rule: "may-panic", where: e.pos(pos), fn: e.curFn(), msg: what, ctx: e.ctx})
}
func (e *engine) curFn() string {
	if len(e.stack) == 0 {
		return ""
	}
	return e.shortName(e.stack[len(e.stack)-1])
}
func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "")
	return s
}

// --- operators

func (e *engine) binop(p *path, in *ssa.BinOp) []res {
	st := p.st
	x, y := e.val(p, in.X), e.val(p, in.Y)
	if a, ok := x.(intV); ok {
		if b, ok := y.(intV); ok {
			if c, ok := e.derivedCmp(in.Op, a.l.sub(b.l)); ok {
				return one(st, c)
			}
		}
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		b := e.equal(st, x, y)
		if in.Op == token.NEQ {
			b = b.not()
		}
		return one(st, b)
	}
	if a, ok := x.(*strV); ok {
		b, ok := y.(*strV)
		if ok {
			switch in.Op {
			case token.ADD:
				return one(st, a.concat(b))
			default:
				return one(st, bcond(symCond{e.id(), "string order"}))
			}
		}
	}
	a, ok1 := x.(intV)
	b, ok2 := y.(intV)
	if ok1 && ok2 {
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return one(st, cmpLin(in.Op, a.l, b.l))
		case token.ADD:
			return one(st, intV{a.l.add(b.l)})
		case token.SUB:
			return one(st, intV{a.l.sub(b.l)})
		case token.MUL:
			if a.l.isConst() {
				return one(st, intV{b.l.mul(a.l.c)})
			}
			if b.l.isConst() {
				return one(st, intV{a.l.mul(b.l.c)})
			}
		}
		if a.l.isConst() && b.l.isConst() {
			u, v := a.l.c, b.l.c
			var r int64
			ok := true
			switch in.Op {
			case token.AND:
				r = u & v
			case token.OR:
				r = u | v
			case token.XOR:
				r = u ^ v
			case token.AND_NOT:
				r = u &^ v
			case token.SHL:
				if v < 0 || v > 62 {
					ok = false
				} else {
					r = u << uint(v)
				}
			case token.SHR:
				if v < 0 {
					ok = false
				} else if v > 63 {
					r = u >> 63
				} else {
					r = u >> uint(v)
				}
			case token.QUO:
				if v == 0 {
					e.mayPanic(st, in.Pos(), "division by zero")
					ok = false
				} else {
					r = u / v
				}
			case token.REM:
				if v == 0 {
					e.mayPanic(st, in.Pos(), "division by zero")
					ok = false
				} else {
					r = u % v
				}
			default:
				ok = false
			}
			if ok {
				return one(st, intV{con(r)})
			}
		}
		// a bit operation on a symbol with a small set: split it by result
		if rs := e.bitop(st, in, a.l, b.l); rs != nil {
			return rs
		}
		n := e.freshInt(in.Type())
		e.derive(st, n, in.Op, a.l, b.l)
		switch in.Op {
		case token.AND:
			for _, q := range []lin{a.l, b.l} {
				if q.isConst() && q.c >= 0 {
					e.touch(st, n)
					e.assumeLE(st, lin{c: -q.c, t: []term{{n, 1}}})
					e.assumeLE(st, lin{t: []term{{n, -1}}})
				}
			}
		case token.REM:
			if b.l.isConst() && b.l.c > 0 {
				e.assumeLE(st, lin{c: -(b.l.c - 1), t: []term{{n, 1}}})
				if e.linle(st, con(0), a.l) {
					e.assumeLE(st, lin{t: []term{{n, -1}}})
				}
			}
		}
		return one(st, intV{symLin(n)})
	}
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return one(st, bcond(symCond{e.id(), "comparison"}))
	}
	return one(st, opaqueV{id: e.id(), what: "(" + in.Op.String() + ")", t: in.Type(), args: []value{x, y}})
}

// A derivedInt is the result of operations with constants on a single value,
// kept so that a comparison of it with a constant can be read as a
// membership test of that value.
type derivedInt struct {
	l    lin
	set  rset
	f    func(int64) int64
	memo map[string]rset
}

// constOp is v OP c or, if left, c OP v.
func constOp(op token.Token, c int64, left bool) func(int64) int64 {
	if left {
		switch op {
		case token.SHL:
			return func(v int64) int64 {
				if v < 0 || v > 62 {
					return 0
				}
				return c << uint(v)
			}
		case token.AND, token.OR, token.XOR:
			left = false
		case token.SUB:
			return func(v int64) int64 { return c - v }
		}
		if left {
			return nil
		}
	}
	switch op {
	case token.AND:
		return func(v int64) int64 { return v & c }
	case token.OR:
		return func(v int64) int64 { return v | c }
	case token.XOR:
		return func(v int64) int64 { return v ^ c }
	case token.AND_NOT:
		return func(v int64) int64 { return v &^ c }
	case token.SHR:
		if c >= 0 && c <= 63 {
			return func(v int64) int64 { return v >> uint(c) }
		}
	case token.SHL:
		if c >= 0 && c <= 30 {
			return func(v int64) int64 { return v << uint(c) }
		}
	case token.REM:
		if c > 0 {
			return func(v int64) int64 { return v % c }
		}
	case token.QUO:
		if c > 0 {
			return func(v int64) int64 { return v / c }
		}
	}
	return nil
}

// derive records that n is a OP b, if one of them is a constant.
func (e *engine) derive(st *state, n sym, op token.Token, a, b lin) {
	var f func(int64) int64
	l := a
	if b.isConst() {
		f = constOp(op, b.c, false)
	} else if a.isConst() {
		l = b
		f = constOp(op, a.c, true)
	}
	if f != nil {
		e.deriveBy(st, n, l, f)
	}
}

// deriveBy records that n is f of l.
func (e *engine) deriveBy(st *state, n sym, l lin, f func(int64) int64) {
	lo, hi := int64(-1<<31), int64(1<<32-1)
	if m := e.symInfo[n].set; m != nil && len(m) > 0 {
		lo, hi = m[0].lo, m[len(m)-1].hi
	}
	if s, ok := l.base(); ok && s != 0 {
		if d := e.derived[s]; d != nil {
			g, c := d.f, l.c
			e.derived[n] = &derivedInt{l: d.l, set: d.set, f: func(v int64) int64 { return f(g(v) + c) }, memo: map[string]rset{}}
			return
		}
	}
	base, set := e.linSet(st, l)
	if base == 0 || set == nil || set.count() > 0x120000 {
		return
	}
	min, max := int64(math.MaxInt64), int64(math.MinInt64)
	for _, r := range set {
		for v := r.lo; v <= r.hi; v++ {
			w := f(v)
			if w < lo || w > hi {
				return
			}
			if w < min {
				min = w
			}
			if w > max {
				max = w
			}
		}
	}
	if min <= max {
		e.symInfo[n].set = rRange(min, max)
	}
	e.derived[n] = &derivedInt{l: l, set: set, f: f, memo: map[string]rset{}}
}

// derivedCmp is d OP 0 where d is a derived value plus a constant.
func (e *engine) derivedCmp(op token.Token, d lin) (boolV, bool) {
	if len(e.derived) == 0 || len(d.t) != 1 || d.t[0].k != 1 && d.t[0].k != -1 {
		return boolV{}, false
	}
	g := e.derived[d.t[0].s]
	if g == nil {
		return boolV{}, false
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return boolV{}, false
	}
	k, c := d.t[0].k, d.c
	key := fmt.Sprint(op, k, c)
	out, ok := g.memo[key]
	if !ok {
		for _, r := range g.set {
			for v := r.lo; v <= r.hi; v++ {
				w := k*g.f(v) + c
				var t bool
				switch op {
				case token.EQL:
					t = w == 0
				case token.NEQ:
					t = w != 0
				case token.LSS:
					t = w < 0
				case token.LEQ:
					t = w <= 0
				case token.GTR:
					t = w > 0
				case token.GEQ:
					t = w >= 0
				}
				if !t {
					continue
				}
				if n := len(out); n > 0 && out[n-1].hi == v-1 {
					out[n-1].hi = v
				} else {
					out = append(out, rng{v, v})
				}
			}
		}
		if len(out) > 5000 {
			return boolV{}, false
		}
		g.memo[key] = out
	}
	return bcond(inSet{g.l, out}), true
}

func (e *engine) bitop(st *state, in *ssa.BinOp, a, b lin) []res {
	base, set := e.linSet(st, a)
	var f func(int64) int64
	if base != 0 && b.isConst() {
		c := b.c
		switch in.Op {
		case token.AND:
			f = func(v int64) int64 { return v & c }
		case token.OR:
			f = func(v int64) int64 { return v | c }
		case token.SHR:
			f = func(v int64) int64 { return v >> uint(c) }
		case token.REM:
			if c > 0 {
				f = func(v int64) int64 { return v % c }
			}
		case token.QUO:
			if c > 0 {
				f = func(v int64) int64 { return v / c }
			}
		case token.SHL:
			f = func(v int64) int64 { return v << uint(c) }
		}
		if f == nil {
			return nil
		}
		if set.count() > 0x120000 {
			return nil
		}
		return e.splitBy(st, base, a, set, f)
	}
	base, set = e.linSet(st, b)
	if base != 0 && a.isConst() && in.Op == token.SHL && set.count() <= 64 {
		c := a.c
		return e.splitBy(st, base, b, set, func(v int64) int64 {
			if v < 0 || v > 62 {
				return 0
			}
			return c << uint(v)
		})
	}
	return nil
}

// splitBy forks on the value of f applied to l = base + c, if it takes few values.
func (e *engine) splitBy(st *state, base sym, l lin, set rset, f func(int64) int64) []res {
	groups := map[int64][]rng{}
	for _, r := range set {
		for v := r.lo; v <= r.hi; v++ {
			k := f(v)
			g := groups[k]
			if n := len(g); n > 0 && g[n-1].hi == v-1 {
				g[n-1].hi = v
			} else {
				g = append(g, rng{v, v})
			}
			groups[k] = g
			if len(groups) > 24 {
				return nil
			}
		}
	}
	var ks []int64
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var out []res
	for _, k := range ks {
		n := st.clone()
		if e.restrict(n, base, rset(groups[k]).shift(-l.c)) {
			out = append(out, res{n, intV{con(k)}})
		}
	}
	return out
}

func (e *engine) isNil(st *state, x value) boolV {
	switch x := x.(type) {
	case nilV:
		return bconst(true)
	case ptrV:
		if x.sid == 0 {
			return bconst(false)
		}
		return bcond(nilCond{id: x.sid, name: e.names[x.sid]})
	case ifaceV, errV, funcV, bytesV:
		return bconst(false)
	case symIface:
		if strings.Contains(x.name, "!") {
			return bconst(false)
		}
		return bcond(nilCond{id: x.id, name: x.name})
	case symFunc:
		return bconst(false)
	case werrV:
		return bcond(nilCond{id: x.id, kind: 1, name: "write error"})
	case xerrV:
		return bcond(nilCond{id: x.id, kind: 2, name: x.what})
	case sliceV:
		if x.null {
			return bconst(true)
		}
		if e.decideLE(st, x.len.mul(-1).plus(1)) == 1 || x.name == "" {
			return bconst(false)
		}
		return bcond(symCond{-int(x.o), "slice nil"})
	case mapV:
		return bconst(x.null)
	case termV:
		return bcond(nilCond{id: x.id, name: x.what})
	case opaqueV:
		return bcond(nilCond{id: x.id, name: x.what})
	}
	return bcond(symCond{e.id(), "nil?"})
}

func (e *engine) equal(st *state, x, y value) boolV {
	if isNilConst(y) {
		return e.isNil(st, x)
	}
	if isNilConst(x) {
		return e.isNil(st, y)
	}
	switch a := x.(type) {
	case intV:
		if b, ok := y.(intV); ok {
			return cmpLin(token.EQL, a.l, b.l)
		}
	case *strV:
		if b, ok := y.(*strV); ok {
			u, v := a, b
			if _, ok := u.lit(); ok {
				u, v = v, u
			}
			if l, ok := v.lit(); ok {
				if at := u.atom(); at != nil && at.wrap != nil && (at.how == "lower" && l == strings.ToLower(l) || at.how == "upper" && l == strings.ToUpper(l)) {
					return bcond(strHas{"fold", at.wrap, slit(strings.ToLower(l))})
				}
			}
			return bcond(strEq{a, b})
		}
	case boolV:
		if b, ok := y.(boolV); ok {
			if b.k == 2 && a.k != 2 {
				a, b = b, a
			}
			if b.k == 1 {
				return a
			}
			if b.k == 0 {
				return a.not()
			}
			if da := e.decide(st, a); da >= 0 {
				if da == 1 {
					return b
				}
				return b.not()
			}
			if db := e.decide(st, b); db >= 0 {
				if db == 1 {
					return a
				}
				return a.not()
			}
		}
	case ptrV:
		if b, ok := y.(ptrV); ok && a.sid == 0 && b.sid == 0 {
			if a.o != b.o {
				return bconst(false)
			}
			if len(a.path) == 0 && len(b.path) == 0 {
				return bconst(true)
			}
		}
	case *structV:
		if b, ok := y.(*structV); ok {
			var out *boolV
			for i := range a.f {
				q := e.equal(st, a.f[i], b.f[i])
				if d := e.decide(st, q); d == 0 {
					return bconst(false)
				} else if d == 1 {
					continue
				}
				if out == nil {
					out = &q
				} else {
					n := bcond(orCond{out.not(), q.not()}).not()
					out = &n
				}
			}
			if out == nil {
				return bconst(true)
			}
			return *out
		}
	case ifaceV:
		if b, ok := y.(ifaceV); ok {
			if !types.Identical(a.t, b.t) {
				return bconst(false)
			}
			return e.equal(st, a.v, b.v)
		}
	case symIface:
		if b, ok := y.(symIface); ok && a.id == b.id {
			return bconst(true)
		}
	}
	return bcond(symCond{e.id(), "=="})
}

func isNilConst(v value) bool {
	switch v := v.(type) {
	case nilV:
		return true
	case sliceV:
		return v.null
	case mapV:
		return v.null
	}
	return false
}

func (e *engine) unop(p *path, in *ssa.UnOp) ([]res, []outcome) {
	st := p.st
	x := e.val(p, in.X)
	switch in.Op {
	case token.MUL:
		if be, ok := x.(byteElem); ok {
			return e.strIndex(st, be.s, be.i, in.Pos()), nil
		}
		pt, sts := e.deref(st, x, in.Pos())
		var out []res
		for _, s := range sts {
			if pt == nil {
				out = append(out, res{s, e.fresh(s, in.Type(), "deref", 0)})
				continue
			}
			out = append(out, e.load(s, *pt, in.Type(), in.Pos())...)
		}
		return out, nil
	case token.NOT:
		return one(st, x.(boolV).not()), nil
	case token.SUB:
		if a, ok := x.(intV); ok {
			return one(st, intV{a.l.mul(-1)}), nil
		}
	case token.XOR:
		if a, ok := x.(intV); ok && a.l.isConst() {
			return one(st, intV{con(^a.l.c)}), nil
		}
		return one(st, intV{symLin(e.freshInt(in.Type()))}), nil
	}
	return one(st, opaqueV{id: e.id(), what: in.Op.String(), t: in.Type(), args: []value{x}}), nil
}

func (e *engine) convert(p *path, v value, from, to types.Type, pos token.Pos) value {
	st := p.st
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if iv, ok := v.(intV); ok {
				return e.convInt(st, iv, fb, tb, to)
			}
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if iv, ok := v.(intV); ok {
				if iv.l.isConst() {
					return slit(string(rune(iv.l.c)))
				}
				if s := e.charPiece(st, iv.l, true); s != nil {
					return s
				}
				a := e.newAtom("string(rune)")
				a.how = "rune"
				e.runeOf[a] = iv.l
				return satom(a)
			}
		}
		return opaqueV{id: e.id(), what: "convert to " + to.String(), t: to, args: []value{v}}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if s, ok := v.(*strV); ok {
				return bytesV{s}
			}
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if b, ok := v.(bytesV); ok {
			return b.s
		}
		if sv, ok := v.(sliceV); ok {
			if s := e.bytesContent(st, sv); s != nil {
				return s
			}
			return satom(e.newAtom("string(bytes)"))
		}
	}
	return opaqueV{id: e.id(), what: "convert to " + to.String(), t: to, args: []value{v}}
}

func (e *engine) convInt(st *state, v intV, fb, tb *types.Basic, to types.Type) value {
	var lo, hi int64 = minInt, maxInt
	switch tb.Kind() {
	case types.Uint8:
		lo, hi = 0, 255
	case types.Uint16:
		lo, hi = 0, 65535
	case types.Uint32:
		lo, hi = 0, 1<<32-1
	case types.Int8:
		lo, hi = -128, 127
	case types.Int16:
		lo, hi = -32768, 32767
	case types.Int32:
		lo, hi = -1<<31, 1<<31-1
	case types.Uint, types.Uint64, types.Uintptr:
		lo = 0
	default:
		switch fb.Kind() {
		case types.Uint, types.Uint64, types.Uintptr:
			if e.upper(st, v.l) >= inf {
				return intV{symLin(e.freshInt(to))}
			}
		}
		return v
	}
	okLo := lo == minInt || e.upper(st, v.l.mul(-1)) <= -lo
	okHi := hi == maxInt || e.upper(st, v.l) <= hi
	if okLo && okHi {
		return v
	}
	if v.l.isConst() {
		switch tb.Kind() {
		case types.Uint8:
			return intV{con(int64(uint8(v.l.c)))}
		case types.Uint16:
			return intV{con(int64(uint16(v.l.c)))}
		case types.Uint32:
			return intV{con(int64(uint32(v.l.c)))}
		case types.Int8:
			return intV{con(int64(int8(v.l.c)))}
		case types.Int16:
			return intV{con(int64(int16(v.l.c)))}
		case types.Int32:
			return intV{con(int64(int32(v.l.c)))}
		}
	}
	n := e.freshInt(to)
	if w := hi - lo + 1; lo != minInt && hi != maxInt {
		// truncation
		e.deriveBy(st, n, v.l, func(v int64) int64 {
			v = (v - lo) % w
			if v < 0 {
				v += w
			}
			return v + lo
		})
	}
	return intV{symLin(n)}
}

func (e *engine) bytesContent(st *state, sv sliceV) *strV {
	a, ok := st.heap[sv.o].(*arrV)
	if !ok || len(sv.path) > 0 || !sv.len.isConst() || !sv.off.isConst() || a.rest != restZero || len(a.known) > 0 {
		return nil
	}
	var b []byte
	for i := int64(0); i < sv.len.c; i++ {
		v, ok := a.table[sv.off.c+i]
		if !ok {
			b = append(b, 0)
			continue
		}
		iv, ok := v.(intV)
		if !ok || !iv.l.isConst() {
			return nil
		}
		b = append(b, byte(iv.l.c))
	}
	return slit(string(b))
}
