package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Analyses of single functions.

// extra is an engine for one of them.
type extra struct {
	*engine
	res  *result
	prop string
}

func extraJob(prop, name string, f func(x *extra)) job {
	return job{name: name, props: prop, run: func(ld *loaded, res *result) {
		e := newEngine(ld)
		x := &extra{engine: e, res: res, prop: prop}
		e.ctx = name
		err := e.try(func() {
			e.initPackages(modPath)
			e.trackCaller = true
			f(x)
		})
		if err != nil {
			res.fail(prop, err.Error()+" ("+e.ctx+")")
		}
		// what goes wrong inside the functions concerns the property too
		for _, fd := range e.finds.by {
			if !fd.has(prop) {
				fd.props = append(fd.props, prop)
			}
		}
		res.collect(e)
	}}
}

func (x *extra) find(rule string, fn *ssa.Function, msg string) {
	x.findAt(rule, x.pos(fn.Pos()), shortFn(fn), msg)
}

func (x *extra) findAt(rule, where, fn, msg string) {
	x.finds.add(finding{props: uniq(x.prop), rule: rule, where: where, fn: fn, msg: msg, ctx: x.ctx})
}

func (x *extra) count(rule string) { x.res.seen[rule]++ }

func (x *extra) need(what string, fn *ssa.Function) *ssa.Function {
	if fn == nil {
		x.giveUp(0, "%s is missing", what)
	}
	return fn
}

// returns runs a function and gives its returns; panics are reported.
func (x *extra) returns(st *state, fn *ssa.Function, args []value, panics bool) (out []outcome) {
	x.res.ops[shortFn(fn)]++
	for _, o := range x.callFn(st, fn, args, nil, fn.Pos()) {
		x.stats.paths++
		if o.panic && !panics {
			x.findAt("panic", x.pos(o.pos), shortFn(fn), "reaches a panic: "+o.what)
			continue
		}
		out = append(out, o)
	}
	return
}

// --- C03

type charSpec struct {
	fn                                     string
	strict                                 int // -1: no such parameter
	lowFirst, lowRest, highFirst, highRest rset
}

func validators() []charSpec {
	bad := rOne(badByte)
	return []charSpec{
		{"CheckEncoding", -1, asciiLetters, encRest, asciiLetters, encRest},
		{"CheckPubID", -1, pubidChars, pubidChars, pubidChars, pubidChars},
		{"CheckName", -1, genNameStart, genNameChar, xmlNameStart, xmlNameChar},
		{"CheckChars", 0, xmlChars, xmlChars, xmlChars.union(bad), xmlChars.union(bad)},
		{"CheckChars", 1, xmlStrictChars, xmlStrictChars, xmlStrictChars.union(bad), xmlStrictChars.union(bad)},
	}
}

func checkValidators(x *extra) {
	for _, v := range validators() {
		fn := x.need("the function "+v.fn, x.fn(v.fn))
		x.ctx = "every string"
		call := func(st *state, s *strV) []outcome {
			args := []value{s}
			if v.strict >= 0 {
				args = append(args, bconst(v.strict == 1))
				x.ctx = fmt.Sprintf("every string, strict=%v", v.strict == 1)
			}
			if len(fn.Params) != len(args) {
				x.giveUp(fn.Pos(), "%s has other parameters", v.fn)
			}
			return x.returns(st, fn, args, false)
		}
		st := x.base.clone()
		s := satom(x.newAtom("s"))
		accepted, refused := 0, 0
		for _, o := range x.callAll(st, fn, s, call) {
			ok, bad := x.fork(o.st, x.isNil(o.st, o.ret))
			for _, t := range ok {
				accepted++
				// is there a string with a character outside the class?
				no := t.clone()
				if x.charAssume(no, s, charFact{first: rChars.minus(v.highFirst), rest: rChars.minus(v.highRest)}) {
					x.find("accepts-outside", fn, "accepts a string with a character outside its class: "+x.witness(no, s, v))
				}
				x.count("C03 acceptances")
			}
			for _, t := range bad {
				refused++
				yes := t.clone()
				if x.charAssume(yes, s, charFact{ok: true, first: v.lowFirst, rest: v.lowRest}) {
					f := x.bestFact(yes, s.atom())
					x.find("refuses-inside", fn, "refuses a string all of whose characters are in its class: "+factStr(f))
				}
				x.count("C03 refusals")
			}
		}
		if accepted == 0 || refused == 0 {
			x.find("constant", fn, "accepts nothing or refuses nothing")
		}
		// literal witnesses are folded: the empty string is accepted
		for _, o := range call(x.base.clone(), slit("")) {
			if x.decide(o.st, x.isNil(o.st, o.ret)) != 1 {
				x.find("refuses-empty", fn, "refuses the empty string")
			}
			x.count("C03 acceptances")
		}
	}
}

func (x *extra) callAll(st *state, fn *ssa.Function, s *strV, call func(*state, *strV) []outcome) []outcome {
	if len(fn.Params) > 1 {
		return call(st, s)
	}
	// through the summary, as every caller sees it
	rs, os, ok := x.summarised(st, fn, []value{s}, nil, fn.Pos())
	if !ok {
		return call(st, s)
	}
	for _, r := range rs {
		os = append(os, outcome{st: r.st, ret: r.v})
	}
	return os
}

func factStr(f *charFact) string {
	if f == nil {
		return "nothing is known of them"
	}
	if f.ok {
		return fmt.Sprintf("first in %s, others in %s", f.first, f.rest)
	}
	return fmt.Sprintf("with the first in %s or another in %s", f.first, f.rest)
}

func (x *extra) witness(st *state, s *strV, v charSpec) string {
	F, R := rChars, rChars
	for _, f := range x.charFacts(st, s) {
		if f.ok {
			F, R = F.intersect(f.first), R.intersect(f.rest)
		}
	}
	F, R = F.minus(v.highFirst), R.minus(v.highRest)
	if !R.empty() {
		return fmt.Sprintf("one of %s", R)
	}
	return fmt.Sprintf("one of %s at the start", F)
}

// --- C18

func checkSetters(x *extra) {
	t := x.ld.root.Type("Attr")
	if t == nil {
		x.giveUp(0, "the type Attr is missing")
	}
	n := 0
	x.eachMethod(t.Type(), func(fn *ssa.Function) {
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), t.Type()) {
			return
		}
		b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
		if !ok {
			return
		}
		n++
		x.ctx = "every value"
		st := x.base.clone()
		recv := x.fresh(st, t.Type(), "attr", 0).(*structV)
		v := x.fresh(st, sig.Params().At(0).Type(), "v", 0)
		if strings.HasPrefix(fn.Name(), "Uint") && b.Info()&types.IsUnsigned == 0 {
			// the property is about non-negative arguments
			x.assumeLE(st, v.(intV).l.mul(-1))
			x.ctx = "every non-negative value"
		}
		us := t.Type().Underlying().(*types.Struct)
		for _, o := range x.returns(st, fn, []value{recv, v}, false) {
			r, ok := o.ret.(*structV)
			if !ok {
				x.giveUp(fn.Pos(), "the result of %s is not known", fn.Name())
			}
			for i := 0; i < us.NumFields(); i++ {
				f := us.Field(i)
				if f.Name() != "Value" {
					x.count("C18 fields kept")
					if !sameIn(x.engine, o.st, r.f[i], recv.f[i]) {
						x.find("setter-changes", fn, "changes the attribute's "+f.Name())
					}
					continue
				}
				x.count("C18 values")
				if what := x.textOf(o.st, r.f[i], v, b); what != "" {
					x.find("setter-value", fn, what)
				}
			}
		}
	})
	if n < 13 {
		x.giveUp(0, "Attr has only %d typed setters", n)
	}
	doc := x.ld.root.Type("Doc")
	if doc == nil {
		x.giveUp(0, "the type Doc is missing")
	}
	n = 0
	named := map[string]string{"ForceEncoding": "ForcedEncoding", "ForceVersion": "ForcedVersion", "WithStandalone": "Standalone"}
	x.eachMethod(doc.Type(), func(fn *ssa.Function) {
		field := named[fn.Name()]
		if field == "" {
			return
		}
		n++
		x.ctx = "every document and value"
		sig := fn.Signature
		st := x.base.clone()
		recv := x.fresh(st, doc.Type(), "doc", 0).(*structV)
		v := x.fresh(st, sig.Params().At(0).Type(), "v", 0)
		us := doc.Type().Underlying().(*types.Struct)
		before := x.nobj
		for _, o := range x.returns(st, fn, []value{recv, v}, false) {
			r, ok := o.ret.(*structV)
			if !ok {
				x.giveUp(fn.Pos(), "the result of %s is not known", fn.Name())
			}
			for i := 0; i < us.NumFields(); i++ {
				f := us.Field(i)
				if f.Name() != field {
					x.count("C18 fields kept")
					if !sameIn(x.engine, o.st, r.f[i], recv.f[i]) {
						x.find("setter-changes", fn, "changes the document's "+f.Name())
					}
					continue
				}
				x.count("C18 values")
				p, ok := r.f[i].(ptrV)
				if !ok || p.sid != 0 || int(p.o) <= int(before) {
					x.find("setter-value", fn, "does not set "+field+" to a variable of its own")
					continue
				}
				rs := x.load(o.st, p, nil, fn.Pos())
				for _, l := range rs {
					if !sameIn(x.engine, l.st, l.v, v) && !x.sameBool(l.st, l.v, v) {
						x.find("setter-value", fn, "does not set "+field+" to its argument")
					}
				}
			}
		}
	})
	if n != len(named) {
		x.giveUp(0, "Doc has only %d of its fluent setters", n)
	}
}

func (x *extra) sameBool(st *state, a, b value) bool {
	p, ok1 := a.(boolV)
	q, ok2 := b.(boolV)
	if !ok1 || !ok2 {
		return false
	}
	d, f := x.decide(st, p), x.decide(st, q)
	return d >= 0 && d == f
}

func (x *extra) eachMethod(t types.Type, f func(fn *ssa.Function)) {
	ms := x.ld.prog.MethodSets.MethodSet(t)
	var names []string
	by := map[string]*types.Selection{}
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		names = append(names, s.Obj().Name())
		by[s.Obj().Name()] = s
	}
	sort.Strings(names)
	for _, n := range names {
		if !token.IsExported(n) {
			continue
		}
		if fn := x.ld.prog.MethodValue(by[n]); fn != nil && fn.Blocks != nil {
			f(fn)
		}
	}
}

// textOf checks that a string is the shortest text of a number.
func (x *extra) textOf(st *state, s, v value, b *types.Basic) string {
	sv, ok := s.(*strV)
	if !ok {
		return "sets a value that is not known"
	}
	sv = x.norm(st, sv)
	if bv, ok := v.(boolV); ok {
		if l, ok := sv.lit(); ok {
			d := x.decide(st, bv)
			if d == 1 && l == "true" || d == 0 && l == "false" {
				return ""
			}
			return fmt.Sprintf("sets %q", l)
		}
	}
	if iv, ok := v.(intV); ok {
		if l, ok := sv.lit(); ok {
			if x.decideEQ(st, iv.l) == 1 && l == "0" {
				return ""
			}
			return fmt.Sprintf("sets %q", l)
		}
	}
	a := sv.atom()
	if a == nil || len(a.args) == 0 {
		return "sets text that is not made from the argument"
	}
	intArg := func(v value, want value) bool {
		if i, ok := v.(ifaceV); ok {
			v = i.v
		}
		p, ok1 := v.(intV)
		q, ok2 := want.(intV)
		return ok1 && ok2 && x.lineq(st, p.l, q.l)
	}
	isConst := func(i int, c int64) bool {
		p, ok := a.args[i].(intV)
		return ok && p.l.isConst() && p.l.c == c
	}
	switch a.how {
	case "strconv.FormatBool":
		if p, ok := a.args[0].(boolV); ok {
			if q, ok := v.(boolV); ok && sameIn(x.engine, st, p, q) {
				return ""
			}
		}
		return "formats something other than the argument"
	case "strconv.FormatInt", "strconv.FormatUint":
		if !isConst(1, 10) {
			return "formats the number in another base than 10"
		}
		if !intArg(a.args[0], v) {
			return "formats a number that is not always the argument"
		}
		return ""
	case "strconv.Itoa":
		if !intArg(a.args[0], v) {
			return "formats a number that is not always the argument"
		}
		return ""
	case "strconv.FormatFloat":
		f := a.args[0]
		for {
			o, ok := f.(opaqueV)
			if !ok || !strings.HasPrefix(o.what, "convert to ") || len(o.args) != 1 {
				break
			}
			to, ok := o.t.Underlying().(*types.Basic)
			if !ok || to.Kind() != types.Float64 && to.Kind() != b.Kind() {
				return "converts the number in a way that may lose digits"
			}
			f = o.args[0]
		}
		if !sameIn(x.engine, st, f, v) {
			return "formats a number that is not always the argument"
		}
		p, ok := a.args[1].(intV)
		if !ok || !p.l.isConst() || !strings.ContainsRune("gGeEf", rune(p.l.c)) {
			return "formats the number in a form that is not decimal"
		}
		if !isConst(2, -1) {
			return "does not format the number with the shortest precision that gives it back"
		}
		bits := int64(64)
		if b.Kind() == types.Float32 {
			bits = 32
		}
		if !isConst(3, bits) {
			return "formats the number as one of another size"
		}
		return ""
	}
	return "sets text made by " + a.how
}

// --- C19

func checkCollector(x *extra) {
	t := x.ld.root.Type("ErrCollector")
	if t == nil {
		x.giveUp(0, "the type ErrCollector is missing")
	}
	us, ok := t.Type().Underlying().(*types.Struct)
	if !ok {
		x.giveUp(0, "ErrCollector is no struct")
	}
	idx := map[string]int{}
	for i := 0; i < us.NumFields(); i++ {
		idx[us.Field(i).Name()] = i
	}
	for _, f := range []string{"File", "Line", "Index", "Err"} {
		if _, ok := idx[f]; !ok {
			x.giveUp(0, "ErrCollector has no %s", f)
		}
	}
	errT := types.Universe.Lookup("error").Type()
	b := &builder{e: x.engine}
	setup := func(held bool) (*state, ptrV, *structV) {
		st := x.base.clone()
		s := &structV{t: us}
		for i := 0; i < us.NumFields(); i++ {
			s.f = append(s.f, x.zero(us.Field(i).Type()))
		}
		if held {
			for _, f := range []string{"File", "Line", "Index"} {
				s.f[idx[f]] = x.fresh(st, us.Field(idx[f]).Type(), "held "+f, 0)
			}
			s.f[idx["Err"]] = errV{id: x.id(), what: "the error held"}
		}
		o := x.alloc(st, s, "collector")
		return st, ptrV{o: o}, s
	}
	after := func(st *state, p ptrV) *structV {
		s, ok := st.heap[p.o].(*structV)
		if !ok {
			x.giveUp(0, "the collector is not known after the call")
		}
		return s
	}
	same := func(st *state, a, b *structV) string {
		for i := range a.f {
			if !sameIn(x.engine, st, a.f[i], b.f[i]) {
				return us.Field(i).Name()
			}
		}
		return ""
	}
	method := func(name string) *ssa.Function {
		return x.need("the method "+name+" of ErrCollector", x.method("ErrCollector", name, true))
	}
	sizes := []int{0, 1, 2, 3, 4}
	near, far := x.ld.widest()
	sizes = append(sizes, near)
	if far > 0 {
		sizes = append(sizes, far)
	}
	x.unrollMax = near + far
	defer func() { x.unrollMax = 0 }()
	collect := func(name string, panics bool) {
		fn := method(name)
		for _, n := range sizes {
			for _, held := range []bool{false, true} {
				x.ctx = fmt.Sprintf("%d errors, one already held: %v", n, held)
				st, p, before := setup(held)
				var errs []value
				for i := 0; i < n; i++ {
					errs = append(errs, x.fresh(st, errT, fmt.Sprintf("error %d", i+1), 0))
				}
				b.st = st
				for _, o := range x.returns(st, fn, []value{p, b.slice(errT, errs)}, panics) {
					// which is the first that is not nil?
					first, s := -1, o.st
					unknown := false
					for i, er := range errs {
						d := x.decide(s, x.isNil(s, er))
						if d == 0 {
							first = i
							break
						}
						if d != 1 {
							unknown = true
							break
						}
					}
					got := after(s, p)
					x.count("C19 outcomes of " + name)
					if held && !panics {
						if f := same(s, before, got); f != "" {
							x.find("collector-replaced", fn, "changes "+f+" although an error is held")
						}
						continue
					}
					if unknown {
						if held {
							continue
						}
						x.find("collector-first", fn, "does not look at every error up to the first that is not nil")
						continue
					}
					if panics && o.panic != (first >= 0) {
						if o.panic {
							x.find("collector-panics", fn, "panics although all errors are nil: "+o.what)
						} else {
							x.find("collector-panics", fn, "returns although an error is not nil")
						}
						continue
					}
					if first < 0 {
						if f := same(s, before, got); f != "" {
							x.find("collector-none", fn, "changes "+f+" although all errors are nil")
						}
						continue
					}
					if panics {
						v := o.ret
						if i, ok := v.(ifaceV); ok {
							v = i.v
						}
						if q, ok := v.(ptrV); !ok || q.o != p.o || len(q.path) > 0 {
							x.find("collector-panics", fn, "does not panic with the collector")
						}
						if held {
							// which of the two is held is not said, but
							// its position has to be that of its own
							hf, hg := before.f, got.f
							if !sameIn(x.engine, s, hg[idx["Err"]], hf[idx["Err"]]) && sameIn(x.engine, s, hg[idx["Err"]], errs[first]) {
								if iv, ok := hg[idx["Index"]].(intV); !ok || x.decideEQ(s, iv.l.plus(int64(-first-1))) != 1 {
									x.find("collector-index", fn, "does not hold the position of the error it holds")
								}
							}
							continue
						}
					}
					if !sameIn(x.engine, s, got.f[idx["Err"]], errs[first]) {
						x.find("collector-first", fn, "does not hold the first error that is not nil")
					}
					if iv, ok := got.f[idx["Index"]].(intV); !ok || x.decideEQ(s, iv.l.plus(int64(-first-1))) != 1 {
						x.find("collector-index", fn, "does not hold the error's 1-based position")
					}
					file, _ := got.f[idx["File"]].(*strV)
					ok1 := file != nil && file.atom() != nil && file.atom().how == "runtime.Caller" && callerFrame(file.atom().args) == -1
					line, ok2 := got.f[idx["Line"]].(opaqueV)
					ok2 = ok2 && line.what == "runtime.Caller line" && callerFrame(line.args) == -1
					if !ok1 {
						x.find("collector-place", fn, "does not hold the file of its caller")
					}
					if !ok2 {
						x.find("collector-place", fn, "does not hold the line of its caller")
					}
				}
			}
		}
	}
	collect("Do", false)
	collect("Must", true)
	for _, held := range []bool{false, true} {
		x.ctx = fmt.Sprintf("an error held: %v", held)
		fn := method("Panic")
		st, p, before := setup(held)
		for _, o := range x.returns(st, fn, []value{p}, true) {
			x.count("C19 outcomes of Panic")
			if o.panic != held {
				x.find("collector-panics", fn, fmt.Sprintf("panics: %v", o.panic))
			}
			if f := same(o.st, before, after(o.st, p)); f != "" {
				x.find("collector-replaced", fn, "changes "+f)
			}
			if o.panic {
				v := o.ret
				if i, ok := v.(ifaceV); ok {
					v = i.v
				}
				if q, ok := v.(ptrV); !ok || q.o != p.o || len(q.path) > 0 {
					x.find("collector-panics", fn, "does not panic with the collector")
				}
			}
		}
		fn = method("Set")
		st, p, before = setup(held)
		was := x.fresh(st, errT, "the target's error", 0)
		tgt := ptrV{o: x.alloc(st, was, "target")}
		for _, o := range x.returns(st, fn, []value{p, tgt}, false) {
			x.count("C19 outcomes of Set")
			now := o.st.heap[tgt.o]
			if f := same(o.st, before, after(o.st, p)); f != "" {
				x.find("collector-replaced", fn, "changes "+f)
			}
			if !held {
				if !sameIn(x.engine, o.st, now, was) {
					x.find("collector-set", fn, "changes the target although no error is held")
				}
				continue
			}
			v := now
			if i, ok := v.(ifaceV); ok {
				v = i.v
			}
			if q, ok := v.(ptrV); !ok || q.o != p.o || len(q.path) > 0 {
				x.find("collector-set", fn, "does not set the target to the collector")
			}
		}
		if held {
			fn = method("Error")
			st, p, before = setup(held)
			for _, o := range x.returns(st, fn, []value{p}, false) {
				x.count("C19 outcomes of Error")
				if f := same(o.st, before, after(o.st, p)); f != "" {
					x.find("collector-replaced", fn, "changes "+f)
				}
				said := x.madeFrom(o.st, o.ret)
				for _, f := range []string{"File", "Line", "Index", "Err"} {
					if !said(before.f[idx[f]]) {
						x.find("collector-message", fn, "gives a text that does not say the collector's "+f)
					}
				}
			}
		}
		fn = method("Unwrap")
		st, p, before = setup(held)
		for _, o := range x.returns(st, fn, []value{p}, false) {
			x.count("C19 outcomes of Unwrap")
			if !sameIn(x.engine, o.st, o.ret, before.f[idx["Err"]]) {
				x.find("collector-unwrap", fn, "does not return the error held")
			}
		}
	}
}

// madeFrom says which values a text spells out.
func (x *extra) madeFrom(st *state, text value) func(want value) bool {
	var vals []value
	var visit func(v value, depth int)
	visit = func(v value, depth int) {
		if depth > 8 {
			return
		}
		vals = append(vals, v)
		switch v := v.(type) {
		case ifaceV:
			visit(v.v, depth+1)
		case bytesV:
			visit(v.s, depth+1)
		case *strV:
			for _, p := range v.p {
				if p.a == nil || !p.whole {
					continue
				}
				vals = append(vals, satom(p.a))
				args := p.a.args
				if p.a.how == "fmt.Sprintf" && len(args) > 0 {
					format, _ := litStr(asStr(args[0]))
					args = args[1:]
					k := 0
					for i := 0; i < len(format); i++ {
						if format[i] != '%' {
							continue
						}
						for i++; i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0; i++ {
						}
						if i >= len(format) || format[i] == '%' {
							continue
						}
						if k < len(args) && strings.IndexByte("dvsq", format[i]) >= 0 {
							visit(args[k], depth+1)
						}
						k++
					}
					continue
				}
				if p.a.wrap != nil {
					visit(p.a.wrap, depth+1)
				}
				for _, a := range args {
					visit(a, depth+1)
				}
			}
		}
	}
	visit(text, 0)
	return func(want value) bool {
		for _, v := range vals {
			switch w := want.(type) {
			case *strV:
				if s, ok := v.(*strV); ok && x.strDecide(st, s, w) == 1 {
					return true
				}
			case errV:
				if y, ok := v.(errV); ok && y.id == w.id {
					return true
				}
			default:
				if sameIn(x.engine, st, v, want) {
					return true
				}
			}
		}
		return false
	}
}

// callerFrame is the frame that a runtime.Caller call is about, relative to
// the function analysed: -1 is its caller.
func callerFrame(args []value) int64 {
	if len(args) < 2 {
		return 99
	}
	skip, ok1 := args[0].(intV)
	depth, ok2 := args[len(args)-1].(intV)
	if !ok1 || !ok2 || !skip.l.isConst() || !depth.l.isConst() {
		return 99
	}
	return depth.l.c - 1 - skip.l.c
}

// --- C22

func checkKinds(x *extra) {
	kt := x.ld.root.Type("NodeKind")
	if kt == nil {
		x.giveUp(0, "the type NodeKind is missing")
	}
	name := x.need("NodeKind.Name", x.method("NodeKind", "Name", false))
	str := x.need("NodeKind.String", x.method("NodeKind", "String", false))
	flag := x.need("NodeKind.flag", x.method("NodeKind", "flag", false))
	consts := x.constsOf("NodeKind")
	if len(consts) < 17 {
		x.giveUp(0, "only %d node kinds are declared", len(consts))
	}
	call := func(fn *ssa.Function, st *state, v value) []outcome { return x.returns(st, fn, []value{v}, false) }
	litOf := func(fn *ssa.Function, v value) (string, bool) {
		os := call(fn, x.base.clone(), v)
		if len(os) != 1 {
			return "", false
		}
		s, ok := os[0].ret.(*strV)
		if !ok {
			return "", false
		}
		return s.lit()
	}
	names, flags := map[string]string{}, map[int64]string{}
	nameOf, flagOf := map[string]string{}, map[string]int64{}
	want := x.constsOf("nodeFlag")
	lo, hi := int64(0), int64(0)
	for i, k := range consts {
		if i == 0 || k.v < lo {
			lo = k.v
		}
		if i == 0 || k.v > hi {
			hi = k.v
		}
		x.ctx = "every declared kind"
		v := intV{con(k.v)}
		n, ok := litOf(name, v)
		x.count("C22 names")
		switch {
		case !ok:
			x.find("kind-name", name, "the name of "+k.name+" is not known")
		case n == "":
			x.find("kind-name", name, k.name+" has no name")
		case names[n] != "":
			x.find("kind-name", name, k.name+" has the same name as "+names[n])
		default:
			names[n] = k.name
			nameOf[k.name] = n
		}
		s, ok := litOf(str, v)
		if w := fmt.Sprintf("%s(%d)", n, k.v); !ok || s != w {
			x.find("kind-string", str, fmt.Sprintf("%s is printed as %q, expected %q", k.name, s, w))
		}
		os := call(flag, x.base.clone(), v)
		if len(os) != 1 {
			x.find("kind-flag", flag, "the flag of "+k.name+" is not known")
			continue
		}
		fl, ok := os[0].ret.(intV)
		x.count("C22 flags")
		switch {
		case !ok || !fl.l.isConst():
			x.find("kind-flag", flag, "the flag of "+k.name+" is not known")
		case fl.l.c == 0 || fl.l.c&(fl.l.c-1) != 0:
			x.find("kind-flag", flag, fmt.Sprintf("the flag of %s is %d, not a single bit", k.name, fl.l.c))
		case flags[fl.l.c] != "":
			x.find("kind-flag", flag, k.name+" has the same flag as "+flags[fl.l.c])
		default:
			flags[fl.l.c] = k.name
			flagOf[k.name] = fl.l.c
			for _, w := range want {
				if strings.EqualFold(strings.TrimSuffix(w.name, "Flag"), k.name) && w.v != fl.l.c {
					x.find("kind-flag", flag, "the flag of "+k.name+" is that of another kind")
				}
			}
		}
	}
	// numbers that are no kind
	for _, r := range []rset{{{minInt, lo - 1}}, {{hi + 1, maxInt}}} {
		x.ctx = "every number that is no kind"
		st := x.base.clone()
		v := x.fresh(st, kt.Type(), "kind", 0).(intV)
		var sy sym
		if s, _ := x.linSet(st, v.l); s != 0 {
			sy = s
		}
		if sy == 0 || !x.restrict(st, sy, r) {
			x.giveUp(0, "kinds out of range are not expressible")
		}
		for _, o := range call(name, st.clone(), v) {
			x.count("C22 names")
			s, ok := o.ret.(*strV)
			if ok {
				s = x.norm(o.st, s)
			}
			if l, isLit := litStr(s); !ok || !isLit || l != "" {
				x.find("unknown-name", name, "the name of a number that is no kind is not empty")
			}
		}
		for _, o := range call(str, st.clone(), v) {
			x.count("C22 names")
			s, ok := o.ret.(*strV)
			if !ok || len(s.p) == 0 {
				x.find("unknown-string", str, "a number that is no kind is not printed as <unknown>")
				continue
			}
			if p := s.p[0]; p.a != nil && p.a.how == "fmt.Sprintf" {
				if f, ok := ifaceStr(p.a.args[0]).lit(); ok && len(p.a.args) > 1 && f == "%s(%d)" {
					if l, ok := litStr(ifaceStr(p.a.args[1])); ok && l == "<unknown>" {
						continue
					}
				}
			}
			if !strings.HasPrefix(s.p[0].lit, "<unknown>") {
				x.find("unknown-string", str, "a number that is no kind is not printed as <unknown>")
			}
		}
	}
	x.checkMasks(nameOf, flagOf, consts)
	x.checkStates()
	x.checkNodeKinds(flagOf)
}

func litStr(s *strV) (string, bool) {
	if s == nil {
		return "", false
	}
	return s.lit()
}

type namedConst struct {
	name string
	v    int64
}

func (x *extra) constsOf(typ string) []namedConst {
	t := x.ld.root.Type(typ)
	if t == nil {
		x.giveUp(0, "the type %s is missing", typ)
	}
	var out []namedConst
	sc := x.ld.root.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), t.Type()) {
			continue
		}
		if v, ok := constant.Int64Val(c.Val()); ok {
			out = append(out, namedConst{n, v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].v < out[j].v })
	return out
}

// checkMasks: the list of kinds of every mask that the package mentions, of
// every single flag, every pair and some larger sets.
func (x *extra) checkMasks(nameOf map[string]string, flagOf map[string]int64, kinds []namedConst) {
	ft := x.ld.root.Type("nodeFlag")
	fn := x.need("nodeFlag.names", x.method("nodeFlag", "names", false))
	masks := map[int64]bool{}
	for _, m := range x.ld.root.Members {
		x.collectMasks(m, ft.Type(), masks)
	}
	run := int64(0)
	for i, a := range kinds {
		masks[flagOf[a.name]] = true
		// and every run of seven
		run |= flagOf[a.name]
		if i >= 7 {
			run &^= flagOf[kinds[i-7].name]
		}
		masks[run] = true
		for _, b := range kinds {
			masks[flagOf[a.name]|flagOf[b.name]] = true
		}
	}
	delete(masks, 0)
	var ms []int64
	for m := range masks {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i] < ms[j] })
	for _, m := range ms {
		x.ctx = fmt.Sprintf("the set of kinds %#x", m)
		var want []string
		for _, k := range kinds {
			if m&flagOf[k.name] != 0 {
				want = append(want, nameOf[k.name])
			}
		}
		os := x.returns(x.base.clone(), fn, []value{intV{con(m)}}, false)
		x.count("C22 sets of kinds")
		got, ok := "", len(os) > 0
		for i, o := range os {
			s, isStr := o.ret.(*strV)
			if !isStr {
				ok = false
				break
			}
			l, isLit := x.norm(o.st, s).lit()
			ok = ok && isLit && (i == 0 || l == got)
			got = l
		}
		if !ok {
			x.find("mask-names", fn, "the list of names of a set of kinds is not known")
			continue
		}
		if w := strings.Join(want, ", "); got != w {
			gs := strings.Split(got, ", ")
			sort.Strings(gs)
			sort.Strings(want)
			if strings.Join(gs, ", ") != strings.Join(want, ", ") {
				x.find("mask-names", fn, fmt.Sprintf("lists %q for the kinds %q", got, w))
			}
		}
	}
}

// collectMasks finds the constants of a type in functions.
func (x *extra) collectMasks(m ssa.Member, t types.Type, out map[int64]bool) {
	add := func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && types.Identical(c.Type(), t) {
						if v, ok := constant.Int64Val(c.Value); ok && v > 0 {
							out[v] = true
						}
					}
				}
			}
		}
	}
	switch m := m.(type) {
	case *ssa.Function:
		add(m)
	case *ssa.Type:
		for _, rt := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
			ms := x.ld.prog.MethodSets.MethodSet(rt)
			for i := 0; i < ms.Len(); i++ {
				add(x.ld.prog.MethodValue(ms.At(i)))
			}
		}
	}
}

func (x *extra) checkStates() {
	fn := x.need("NodeState.Name", x.method("NodeState", "Name", false))
	seen := map[string]string{}
	cs := x.constsOf("NodeState")
	if len(cs) < 3 {
		x.giveUp(0, "only %d node states are declared", len(cs))
	}
	for _, c := range cs {
		x.ctx = "every node state"
		os := x.returns(x.base.clone(), fn, []value{intV{con(c.v)}}, false)
		x.count("C22 states")
		n, ok := "", false
		if len(os) == 1 {
			if s, isStr := os[0].ret.(*strV); isStr {
				n, ok = s.lit()
			}
		}
		switch {
		case !ok:
			x.find("state-name", fn, "the name of "+c.name+" is not known")
		case n == "":
			x.find("state-name", fn, c.name+" has no name")
		case seen[n] != "":
			x.find("state-name", fn, c.name+" has the same name as "+seen[n])
		}
		seen[n] = c.name
	}
}

// checkNodeKinds: the kind that each node type reports is its own.
func (x *extra) checkNodeKinds(flagOf map[string]int64) {
	for _, k := range append(append([]string{}, startKinds...), leafKinds...) {
		x.ctx = "every node type"
		fn := x.method(k, "kind", false)
		if fn == nil {
			x.giveUp(0, "%s has no kind", k)
		}
		t := x.ld.root.Type(k)
		st := x.base.clone()
		recv := x.fresh(st, t.Type(), k, 0)
		for _, o := range x.returns(st, fn, []value{recv}, false) {
			x.count("C22 node types")
			iv, ok := o.ret.(intV)
			want := x.constOf(k + "Node")
			if !ok || !iv.l.isConst() || iv.l.c != want {
				x.find("node-kind", fn, k+" does not report its own kind")
			}
		}
	}
}
