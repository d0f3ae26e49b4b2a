package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: the runner of test scripts.

const runnerPath = modPath + "/tester/gotester"

// nodeRec is what the writer was asked to do.
type nodeRec struct {
	op  string // write, start, end, endfull, endall, enddoc, next, flush, open, openenc
	typ string // of the node
	f   map[string]value
	w   objID
	err value
	pos string
}

func (n *nodeRec) String() string {
	if n == nil {
		return "nothing"
	}
	return strings.TrimSpace(n.op + " " + n.typ)
}

type scriptRun struct {
	x      *extra
	wt     types.Type
	curW   objID
	ident  map[string]string // kind constant -> node type
	sink   value
	opts   value
	cmds   []scriptCmd
	run    *ssa.Function
	what   string
	events []*nodeRec
}

type scriptCmd struct {
	action, kind, content, name, ws *strV
	params                          []scriptParam
}
type scriptParam struct{ name, value *strV }

func checkScripts(x *extra) {
	x.lenient = true
	pkg := x.ld.pkgs[runnerPath]
	if pkg == nil {
		x.giveUp(0, "the package %s is missing", runnerPath)
	}
	wt := x.ld.root.Type("Writer")
	if wt == nil {
		x.giveUp(0, "the type Writer is missing")
	}
	st0 := x.base
	x.base = nil
	x.initDone = false
	init := pkg.Func("init")
	outs := x.callFn(st0.clone(), init, nil, nil, 0)
	if len(outs) != 1 || outs[0].panic {
		x.giveUp(init.Pos(), "initialisation has %d outcomes", len(outs))
	}
	x.base = outs[0].st
	x.base.trace, x.base.errs = nil, nil
	x.initDone = true
	sr := &scriptRun{x: x, wt: wt.Type(), ident: map[string]string{}}
	for _, k := range x.constsOf("NodeKind") {
		sr.ident[fmt.Sprint(k.v)] = strings.TrimSuffix(k.name, "Node")
	}
	sr.run = x.pkgMethod(pkg, "Script", "Run")
	checkTags(x, pkg)
	x.hooks.call = sr.call
	defer func() { x.hooks.call = nil }()

	sym := func(st *state, n string, params int) scriptCmd {
		c := scriptCmd{satom(x.newAtom(n + " action")), satom(x.newAtom(n + " kind")), satom(x.newAtom(n + " content")), satom(x.newAtom(n + " name")), satom(x.newAtom(n + " ws")), nil}
		for i := 0; i < params; i++ {
			c.params = append(c.params, scriptParam{satom(x.newAtom(fmt.Sprintf("%s parameter %d", n, i+1))), satom(x.newAtom(fmt.Sprintf("%s value %d", n, i+1)))})
		}
		return c
	}
	for n := 0; n <= 2; n++ {
		x.ctx = fmt.Sprintf("any script of one command with %d parameters", n)
		sr.analyse([]scriptCmd{sym(x.base, "the", n)})
	}
	// after another command
	for _, first := range []struct {
		action, kind string
		param        string
	}{{"start", "doc", ""}, {"start", "doc", "encoding"}, {"start", "elem", ""}, {"write", "text", ""}} {
		for n := 0; n <= 1; n++ {
			x.ctx = fmt.Sprintf("%s %s %s, then any command with %d parameters", first.action, first.kind, first.param, n)
			c := sym(x.base, "first", 0)
			c.action, c.kind = slit(first.action), slit(first.kind)
			if first.param != "" {
				c.params = []scriptParam{{slit(first.param), satom(x.newAtom("first value"))}}
			}
			sr.analyse([]scriptCmd{c, sym(x.base, "second", n)})
		}
	}
	sr.checkMain(pkg)
}

// pkgMethod finds a method of a type of a package.
func (x *extra) pkgMethod(pkg *ssa.Package, typ, name string) *ssa.Function {
	t := pkg.Type(typ)
	if t == nil {
		x.giveUp(0, "the type %s is missing", typ)
	}
	for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if sel := x.ld.prog.MethodSets.MethodSet(rt).Lookup(pkg.Pkg, name); sel != nil {
			return x.ld.prog.MethodValue(sel)
		}
	}
	x.giveUp(0, "%s.%s is missing", typ, name)
	return nil
}

// setField sets a named field of a struct value.
func (x *extra) setField(s *structV, name string, v value) {
	for i := 0; i < s.t.NumFields(); i++ {
		if s.t.Field(i).Name() == name {
			s.f[i] = v
			return
		}
	}
	x.giveUp(0, "there is no field %s", name)
}

func (x *extra) fieldType(s *structV, name string) types.Type {
	for i := 0; i < s.t.NumFields(); i++ {
		if s.t.Field(i).Name() == name {
			return s.t.Field(i).Type()
		}
	}
	x.giveUp(0, "there is no field %s", name)
	return nil
}

func (sr *scriptRun) analyse(cmds []scriptCmd) {
	x := sr.x
	st := x.base.clone()
	b := &builder{e: x.engine, st: st}
	script := x.zero(sr.run.Params[0].Type().Underlying().(*types.Pointer).Elem()).(*structV)
	ct := x.fieldType(script, "Commands").Underlying().(*types.Slice).Elem()
	var list []value
	for _, c := range cmds {
		cv := x.zero(ct).(*structV)
		x.setField(cv, "Action", c.action)
		x.setField(cv, "Kind", c.kind)
		x.setField(cv, "Content", c.content)
		x.setField(cv, "Name", c.name)
		x.setField(cv, "WS", c.ws)
		pt := x.fieldType(cv, "Params").Underlying().(*types.Slice).Elem()
		var ps []value
		for _, p := range c.params {
			pv := x.zero(pt).(*structV)
			nv := x.zero(x.fieldType(pv, "Name")).(*structV)
			x.setField(nv, "Local", p.name)
			x.setField(pv, "Name", nv)
			x.setField(pv, "Value", p.value)
			ps = append(ps, pv)
		}
		x.setField(cv, "Params", b.slice(pt, ps))
		list = append(list, cv)
	}
	x.setField(script, "Commands", b.slice(ct, list))
	o := x.alloc(st, script, "script")
	x.caller[o] = true
	args := []value{ptrV{o: o}}
	for i, p := range sr.run.Params[1:] {
		v := x.fresh(st, p.Type(), []string{"sink!", "options"}[i%2], 0)
		if i == 0 {
			sr.sink = v
		} else {
			sr.opts = v
		}
		args = append(args, v)
	}
	sr.cmds = cmds
	for _, o := range x.returns(st, sr.run, args, false) {
		var ev []*nodeRec
		for _, t := range o.st.trace {
			if t.kind == evCall && t.what == "xw" {
				ev = append(ev, t.args[0].(*nodeRec))
			}
		}
		sr.match(o.st, ev, 0, 0, o.ret)
	}
}

// call stands for the writer's methods.
func (sr *scriptRun) call(st *state, fn *ssa.Function, args []value, pos token.Pos) ([]res, bool) {
	x := sr.x
	if fn.Pkg != x.ld.root {
		switch x.fnName(fn) {
		case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
			if s, ok := args[1].(*strV); ok {
				return x.derive(st, "regexp", s), true
			}
		}
		return nil, false
	}
	rec := func(r *nodeRec) {
		r.pos = x.pos(pos)
		st.trace = append(st.trace, event{kind: evCall, what: "xw", args: []value{r}, pos: r.pos, fn: x.curFn()})
		x.count("C23 writer calls")
	}
	recv := fn.Signature.Recv()
	if recv == nil {
		switch fn.Name() {
		case "Open", "OpenEncoding":
			w := x.zero(sr.wt).(*structV)
			x.setField(w, "Enforce", bconst(true))
			p := ptrV{o: x.alloc(st, w, "writer")}
			f := map[string]value{}
			for i, pa := range fn.Params {
				f[[]string{"sink", "encoding", "encoder", "options"}[map[bool]int{true: i, false: 3 * i}[len(fn.Params) > 2]]] = args[i]
				_ = pa
			}
			op := "open"
			if fn.Name() == "OpenEncoding" {
				op = "openenc"
			}
			rec(&nodeRec{op: op, f: f, w: p.o, err: nilV{}})
			return one(st, p), true
		}
		return nil, false
	}
	if !types.Identical(recv.Type(), types.NewPointer(sr.wt)) {
		return nil, false
	}
	var w objID
	switch p := args[0].(type) {
	case ptrV:
		w = p.o
	case nilV:
		x.findAt("panic", x.pos(pos), x.curFn(), "calls a method of a nil writer")
		return nil, true
	default:
		x.giveUp(pos, "call of a method of an unknown writer")
	}
	err := value(xerrV{x.id(), fn.Name()})
	x.names[err.(xerrV).id] = fn.Name()
	done := func() ([]res, bool) { return one(st, err), true }
	name := fn.Name()
	node := func(op string, v value, t types.Type) {
		r := &nodeRec{op: op, w: w, err: err}
		if i, ok := v.(ifaceV); ok {
			v, t = i.v, i.t
		}
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			if q, ok := v.(ptrV); ok {
				v = x.load(st, q, nil, pos)[0].v
			}
		}
		n, ok := t.(*types.Named)
		if !ok {
			x.giveUp(pos, "a node of unknown type is given to the writer")
		}
		r.typ = n.Obj().Name()
		switch v := v.(type) {
		case *strV:
			r.f = map[string]value{"Content": v}
		case *structV:
			r.f = map[string]value{}
			for i := range v.f {
				fv := v.f[i]
				if p, ok := fv.(ptrV); ok {
					if p.sid != 0 {
						x.giveUp(pos, "a node has an unknown pointer")
					}
					fv = boxV{x.load(st, p, nil, pos)[0].v}
				}
				r.f[v.t.Field(i).Name()] = fv
			}
		default:
			x.giveUp(pos, "an unknown node is given to the writer")
		}
		rec(r)
	}
	nodes := func(op string, v value) {
		els, ok := x.elemsOf(st, v, pos)
		if !ok {
			x.giveUp(pos, "an unknown list of nodes is given to the writer")
		}
		t := types.Type(nil)
		if s, ok := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type().(*types.Slice); ok {
			t = s.Elem()
		}
		for _, n := range els {
			node(op, n, t)
		}
		if len(els) == 0 {
			err = nilV{}
		}
	}
	noNames := func(v value) bool {
		els, ok := x.elemsOf(st, v, pos)
		return ok && len(els) == 0
	}
	switch {
	case name == "Write" || name == "WriteAttr":
		nodes("write", args[1])
		return done()
	case name == "Start":
		nodes("start", args[1])
		return done()
	case strings.HasPrefix(name, "Start"):
		node("start", args[1], fn.Signature.Params().At(0).Type())
		return done()
	case name == "WriteText" || name == "WriteRaw" || name == "WriteCDataContent" || name == "WriteCommentContent":
		rec(&nodeRec{op: "write", typ: name[5:], f: map[string]value{"Content": args[1]}, w: w, err: err})
		return done()
	case strings.HasPrefix(name, "Write"):
		node("write", args[1], fn.Signature.Params().At(0).Type())
		return done()
	case name == "Next" || name == "Flush" || name == "EndAll" || name == "EndAllFlush" || name == "EndDoc":
		rec(&nodeRec{op: strings.ToLower(name), w: w, err: err})
		return done()
	case name == "EndElemFull" && noNames(args[1]):
		rec(&nodeRec{op: "endfull", typ: "Elem", w: w, err: err})
		return done()
	case name == "End":
		if iv, ok := args[1].(intV); ok && iv.l.isConst() && noNames(args[2]) {
			rec(&nodeRec{op: "end", typ: sr.ident[fmt.Sprint(iv.l.c)], w: w, err: err})
			return done()
		}
	case strings.HasPrefix(name, "End") && (len(args) == 1 || noNames(args[1])):
		rec(&nodeRec{op: "end", typ: name[3:], w: w, err: err})
		return done()
	}
	rec(&nodeRec{op: "other call: " + name, w: w, err: err})
	return one(st, x.fresh(st, fn.Signature.Results(), name, 0)), true
}

// boxV is what a pointer pointed to.
type boxV struct{ v value }

// derive makes the string that a function makes of another.
func (x *extra) derive(st *state, how string, from *strV) []res {
	from = x.norm(st, from)
	k := how + "(" + from.key() + ")"
	a := x.aliases[k]
	if a == nil {
		a = x.newAtom(k)
		a.how, a.wrap = how, from
		x.aliases[k] = a
	}
	return one(st, satom(a))
}

// strIs: the condition that a string is a literal.
func strIs(s *strV, l string) boolV { return bcond(strEq{s, slit(l)}) }

// foldIs splits on whether a string is a literal but for its case.
func (x *extra) foldIs(st *state, s *strV, l string, others []string) (t, f []*state) {
	// comparisons of the string in lower or upper case are kept as this too
	cond := func(l string) boolV { return bcond(strHas{"fold", s, slit(strings.ToLower(l))}) }
	for _, o := range append([]string{l}, others...) {
		switch d := x.decide(st, cond(o)); {
		case d == 1 && o == l:
			return []*state{st}, nil
		case d == 1, d == 0 && o == l:
			return nil, []*state{st}
		}
		if x.decide(st, strIs(s, o)) == 1 {
			if o == l {
				return []*state{st}, nil
			}
			return nil, []*state{st}
		}
	}
	return x.fork(st, cond(l))
}

// want is what one path of a command has to do.
type want struct {
	st    *state
	err   bool
	f     map[string]value
	enc   *strV // of a document
	flags map[string]bool
}

var scriptBools = []string{"true", "false", "yes", "no"}

type paramSpec struct {
	field string
	kind  string // str, lower (true is set, anything else not), bool, ptr, ptrbool
}

var scriptParams = map[string]map[string]paramSpec{
	"write attr":       {"prefix": {"Prefix", "str"}, "uri": {"URI", "str"}},
	"write dtd-attr":   {"decl": {"decl", "box"}, "type": {"Type", "str"}, "required": {"required", "lower"}},
	"write dtd-entity": {"is-pe": {"IsPE", "lower"}, "ndata-id": {"NDataID", "str"}, "system-id": {"SystemID", "str"}, "public-id": {"PublicID", "str"}},
	"write notation":   {"system-id": {"SystemID", "str"}, "public-id": {"PublicID", "str"}},
	"write pi":         {"target": {"Target", "str"}},
	"write raw":        {"next": {"next", "bool"}},
	"start doc":        {"version": {"ForcedVersion", "box"}, "encoding": {"ForcedEncoding", "box"}, "standalone": {"Standalone", "boolbox"}},
	"start dtd":        {"public-id": {"PublicID", "str"}, "system-id": {"SystemID", "str"}},
	"start elem":       {"uri": {"URI", "str"}, "prefix": {"Prefix", "str"}},
	"end elem":         {"full": {"full", "lower"}},
}

var scriptKinds = map[string]map[string]string{
	"write": {"attr": "Attr", "cdata": "CData", "cdata-content": "CDataContent", "comment": "Comment", "dtd-attr": "DTDAttr", "dtd-elem": "DTDElem",
		"dtd-entity": "DTDEntity", "notation": "Notation", "pi": "PI", "raw": "Raw", "text": "Text"},
	"start": {"cdata": "CData", "comment": "Comment", "doc": "Doc", "dtd": "DTD", "dtd-att-list": "DTDAttList", "elem": "Elem"},
	"end":   {"all": "", "cdata": "CData", "comment": "Comment", "doc": "Doc", "dtd": "DTD", "dtd-att-list": "DTDAttList", "elem": "Elem"},
}

// selects splits on which of the literals a string is; "" for none.
func (x *extra) selects(st *state, s *strV, lits []string, f func(st *state, l string)) {
	cur := []*state{st}
	for _, l := range lits {
		var rest []*state
		for _, c := range cur {
			t, no := x.fork(c, strIs(s, l))
			for _, y := range t {
				f(y, l)
			}
			rest = append(rest, no...)
		}
		cur = rest
	}
	for _, c := range cur {
		f(c, "")
	}
}

func sortedKeys[V any](m map[string]V) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	var out []string
	for _, k := range strings.Split(keys(b), ",") {
		if k != "" {
			out = append(out, k)
		}
	}
	return out
}

func (sr *scriptRun) finding(rule string, msg string) {
	sr.x.findAt(rule, sr.x.pos(sr.run.Pos()), shortFn(sr.run), msg)
}

func (sr *scriptRun) mustFail(st *state, ret value, why string) {
	x := sr.x
	x.count("C23 failures")
	if x.decide(st, x.isNil(st, ret)) != 0 {
		sr.finding("not-refused", "succeeds although "+why)
	}
}

// match compares what a path does from command k on with what it has to do.
func (sr *scriptRun) match(st *state, ev []*nodeRec, i, k int, ret value) {
	x := sr.x
	var w objID
	for _, e := range ev[:i] {
		if e.op == "open" || e.op == "openenc" {
			w = e.w
		}
	}
	if k == len(sr.cmds) {
		sr.step(st, ev, i, w, ret, &nodeRec{op: "flush"}, func(st *state, i int) {
			if i < len(ev) {
				sr.finding("extra-call", "calls the writer to "+ev[i].String()+" for no command")
				return
			}
			x.count("C23 successes")
			if x.decide(st, x.isNil(st, ret)) != 1 {
				sr.finding("refused", "fails although every command and call succeeded")
			}
		})
		return
	}
	c := sr.cmds[k]
	x.selects(st, c.action, []string{"end", "start", "write"}, func(st *state, action string) {
		if action == "" {
			sr.mustFail(st, ret, "the action of a command is unknown")
			return
		}
		x.selects(st, c.kind, sortedKeys(scriptKinds[action]), func(st *state, kind string) {
			if kind == "" {
				sr.mustFail(st, ret, "there is no kind like that of a command to "+action)
				return
			}
			if action == "end" && w == 0 {
				sr.mustFail(st, ret, "it ends something before anything was written")
				return
			}
			sr.params(st, c, scriptParams[action+" "+kind], 0, map[string]value{}, func(st *state, p map[string]value, bad string) {
				if bad != "" {
					sr.mustFail(st, ret, bad+" in a command to "+action+" "+kind)
					return
				}
				sr.command(st, ev, i, k, w, ret, action, kind, p)
			})
		})
	})
}

// params works through the parameters of a command.
func (sr *scriptRun) params(st *state, c scriptCmd, spec map[string]paramSpec, n int, f map[string]value, done func(st *state, f map[string]value, bad string)) {
	x := sr.x
	if n == len(c.params) {
		done(st, f, "")
		return
	}
	p := c.params[n]
	set := func(st *state, name string, v value) {
		g := map[string]value{name: v}
		for k, o := range f {
			if k != name {
				g[k] = o
			}
		}
		sr.params(st, c, spec, n+1, g, done)
	}
	x.selects(st, p.name, append([]string{"fn", "line", "pos"}, sortedKeys(spec)...), func(st *state, name string) {
		ps, ok := spec[name]
		switch {
		case !ok && name != "":
			sr.params(st, c, spec, n+1, f, done)
		case !ok:
			done(st, f, "there is an unknown parameter")
		case ps.kind == "str":
			set(st, ps.field, p.value)
		case ps.kind == "box":
			set(st, ps.field, boxV{p.value})
		case ps.kind == "lower":
			t, no := x.foldIs(st, p.value, "true", scriptBools)
			for _, s := range t {
				set(s, ps.field, bconst(true))
			}
			for _, s := range no {
				set(s, ps.field, bconst(false))
			}
		default:
			cur := []*state{st}
			for _, l := range scriptBools {
				var rest []*state
				for _, s := range cur {
					t, no := x.foldIs(s, p.value, l, scriptBools)
					for _, y := range t {
						v := value(bconst(l == "true" || l == "yes"))
						if ps.kind == "boolbox" {
							v = boxV{v}
						}
						set(y, ps.field, v)
					}
					rest = append(rest, no...)
				}
				cur = rest
			}
			for _, s := range cur {
				done(s, f, "a parameter is not a boolean")
			}
		}
	})
}

// command compares one command.
func (sr *scriptRun) command(st *state, ev []*nodeRec, i, k int, w objID, ret value, action, kind string, p map[string]value) {
	x := sr.x
	c := sr.cmds[k]
	get := func(n string) value {
		v := p[n]
		delete(p, n)
		return v
	}
	isTrue := func(v value, def bool) bool {
		b, ok := v.(boolV)
		if !ok {
			return def
		}
		return b.k == 1
	}
	typ := scriptKinds[action][kind]
	main := &nodeRec{op: action, typ: typ, f: p}
	todo := []*nodeRec{main}
	switch action {
	case "write":
		switch kind {
		case "attr":
			p["Name"], p["Value"] = c.name, contentOf{c}
		case "cdata", "cdata-content", "comment", "raw", "text":
			if kind == "raw" && isTrue(get("next"), true) {
				todo = []*nodeRec{{op: "next"}, main}
			}
			p["Content"] = contentOf{c}
		case "dtd-attr":
			p["Name"] = c.name
			decl, has := get("decl").(boxV)
			d := "DTDAttrImplied"
			switch req := isTrue(get("required"), false); {
			case req && has:
				d = "DTDAttrFixed"
			case req:
				d = "DTDAttrRequired"
			case has:
				d = "DTDAttrDefault"
			}
			if has {
				p["Value"] = decl.v
			}
			p["Default"] = intV{con(x.constOf(d))}
		case "dtd-elem":
			p["Name"], p["Decl"] = c.name, contentOf{c}
		case "dtd-entity":
			p["Name"], p["Content"] = c.name, contentOf{c}
		case "notation":
			p["Name"] = c.name
		case "pi":
			p["Content"] = contentOf{c}
		}
	case "start":
		switch kind {
		case "doc":
			_, enc := p["ForcedEncoding"]
			p["SuppressEncoding"] = bconst(!enc)
		case "dtd", "dtd-att-list", "elem":
			p["Name"] = c.name
		}
	case "end":
		full := isTrue(get("full"), false)
		switch {
		case kind == "all":
			main.op = "endall"
		case kind == "doc":
			main.op, main.typ = "enddoc", ""
		case full:
			main.op = "endfull"
		}
	}
	next := func(st *state, i int) { sr.steps(st, ev, i, todo, ret, k) }
	if w != 0 {
		next(st, i)
		return
	}
	// the writer has to be opened first
	enc, ok := p["ForcedEncoding"].(boxV)
	if !ok || action != "start" || kind != "doc" {
		sr.step(st, ev, i, 0, ret, &nodeRec{op: "open"}, next)
		return
	}
	name := enc.v.(*strV)
	encs := []string{"UTF-8", "ISO-8859-1", "WINDOWS-1252"}
	cur := []*state{st}
	for _, l := range encs {
		var rest []*state
		for _, s := range cur {
			t, no := x.foldIs(s, name, l, encs)
			for _, y := range t {
				o := &nodeRec{op: "open"}
				if l != "UTF-8" {
					o = &nodeRec{op: "openenc", f: map[string]value{"encoding": name}, typ: l}
				}
				sr.step(y, ev, i, 0, ret, o, next)
			}
			rest = append(rest, no...)
		}
		cur = rest
	}
	for _, s := range cur {
		sr.mustFail(s, ret, "the encoding declared is not supported")
	}
}

// contentOf stands for the content of a command, as it is or stripped.
type contentOf struct{ c scriptCmd }

func (sr *scriptRun) steps(st *state, ev []*nodeRec, i int, todo []*nodeRec, ret value, k int) {
	if len(todo) == 0 {
		sr.match(st, ev, i, k+1, ret)
		return
	}
	var w objID
	for _, e := range ev[:i] {
		if e.op == "open" || e.op == "openenc" {
			w = e.w
		}
	}
	sr.step(st, ev, i, w, ret, todo[0], func(st *state, i int) { sr.steps(st, ev, i, todo[1:], ret, k) })
}

// step compares one call of the writer and goes on where it succeeded.
func (sr *scriptRun) step(st *state, ev []*nodeRec, i int, w objID, ret value, want *nodeRec, next func(st *state, i int)) {
	x := sr.x
	x.count("C23 calls expected")
	if i >= len(ev) {
		sr.finding("no-call", "does not "+want.String()+" where it has to")
		return
	}
	got := ev[i]
	bad := func(rule, msg string) { x.findAt(rule, got.pos, shortFn(sr.run), msg) }
	open := want.op == "open" || want.op == "openenc"
	if got.op != want.op || !open && got.typ != want.typ {
		bad("wrong-call", "calls the writer to "+got.String()+" where it has to "+want.String())
		return
	}
	if open {
		if !sameVal(unwrapIface(got.f["sink"]), unwrapIface(sr.sink)) {
			bad("wrong-writer", "opens a writer for another sink")
		}
		if !sameOpts(got.f["options"], sr.opts) {
			bad("wrong-writer", "opens a writer without the options given")
		}
		if want.op == "openenc" {
			t, ok := unwrapIface(got.f["encoder"]).(termV)
			cm := map[string]string{"ISO-8859-1": "charmap.ISO8859_1", "WINDOWS-1252": "charmap.Windows1252"}[want.typ]
			if !ok || !strings.HasSuffix(t.what, ").NewEncoder") || len(t.args) == 0 || !strings.HasSuffix(termName(t.args[0]), cm) {
				bad("wrong-encoder", "opens the writer with another encoder than that of the encoding "+want.typ)
			}
			n, ok := got.f["encoding"].(*strV)
			if !ok || !sr.sameFold(st, n, want.f["encoding"].(*strV), want.typ) {
				bad("wrong-encoder", "opens the writer with another encoding name than "+want.typ)
			}
		}
		next(st, i+1)
		return
	}
	if got.w != w {
		bad("wrong-writer", "calls another writer than the one opened for the script")
	}
	fields := map[string]bool{}
	for f := range got.f {
		fields[f] = true
	}
	for f := range want.f {
		fields[f] = true
	}
	for _, f := range sortedKeys(fields) {
		x.count("C23 fields")
		g := got.f[f]
		v, ok := want.f[f]
		switch {
		case g == nil:
			bad("lost-field", "does not pass on the "+f+" of the "+got.typ)
		case !ok:
			if !sr.isZero(st, g) {
				bad("wrong-field", "sets the "+f+" of the "+got.typ+" to something that was not given")
			}
		case !sr.same(st, g, v):
			bad("wrong-field", "does not set the "+f+" of the "+got.typ+" to what was given")
		}
	}
	ok, failed := x.fork(st, x.isNil(st, got.err))
	for _, s := range failed {
		sr.mustFail(s, ret, "the writer failed to "+got.String())
	}
	for _, s := range ok {
		next(s, i+1)
	}
}

func termName(v value) string {
	switch v := unwrapIface(v).(type) {
	case termV:
		return v.what
	case opaqueV:
		return v.what
	}
	return ""
}

func sameOpts(a, b value) bool {
	x, ok := a.(sliceV)
	y, ok2 := b.(sliceV)
	return ok && ok2 && x.o == y.o && x.len.eq(y.len) && x.off.eq(y.off)
}

func (sr *scriptRun) isZero(st *state, v value) bool {
	x := sr.x
	switch v := v.(type) {
	case *strV:
		return x.decideEQ(st, x.strLen(v)) == 1
	case intV:
		return x.decideEQ(st, v.l) == 1
	case boolV:
		return x.decide(st, v) == 0
	case nilV:
		return true
	case sliceV:
		return v.null || x.decideEQ(st, v.len) == 1
	case mapV:
		return v.null
	case *structV:
		for _, f := range v.f {
			if !sr.isZero(st, f) {
				return false
			}
		}
		return true
	case boxV:
		return false
	}
	return false
}

func (sr *scriptRun) same(st *state, got, want value) bool {
	x := sr.x
	if b, ok := want.(boxV); ok {
		g, ok := got.(boxV)
		return ok && sr.same(st, g.v, b.v)
	}
	if c, ok := want.(contentOf); ok {
		s, ok := got.(*strV)
		if !ok {
			return false
		}
		strip, plain := x.fork(st.clone(), strIs(c.c.ws, "strip"))
		for _, t := range plain {
			if x.strDecide(t, s, c.c.content) != 1 {
				return false
			}
		}
		for range strip {
			if !madeOf(s, c.c.content.atom()) {
				return false
			}
		}
		return true
	}
	if b, ok := want.(boolV); ok {
		g, ok := got.(boolV)
		return ok && x.decide(st, g) == b.k
	}
	if sameIn(x.engine, st, got, want) {
		return true
	}
	return false
}

// madeOf: a string is made of nothing but an unknown one.
func madeOf(s *strV, a *atom) bool {
	if len(s.p) != 1 || s.p[0].a == nil {
		return false
	}
	b := s.p[0].a
	if b == a {
		return true
	}
	return b.wrap != nil && madeOf(b.wrap, a)
}

func (sr *scriptRun) sameFold(st *state, got, name *strV, l string) bool {
	if g, ok := got.lit(); ok {
		return strings.EqualFold(g, l)
	}
	return madeOf(got, name.atom())
}

// --- the program itself

func (sr *scriptRun) checkMain(pkg *ssa.Package) {
	x := sr.x
	fn := pkg.Func("main")
	if fn == nil {
		return
	}
	x.ctx = "the program"
	type seen struct{ what string }
	x.hooks.call = func(st *state, f *ssa.Function, args []value, pos token.Pos) ([]res, bool) {
		ev := func(what string, v ...value) {
			st.trace = append(st.trace, event{kind: evCall, what: what, args: v, pos: x.pos(pos)})
		}
		if f == sr.run {
			err := xerrV{x.id(), "Run"}
			ev("run", append(args, err)...)
			return one(st, err), true
		}
		switch name := x.fnName(f); {
		case name == "flag.BoolVar" || name == "flag.StringVar":
			p, ok := args[0].(ptrV)
			if !ok {
				return nil, false
			}
			x.store(st, p, x.fresh(st, f.Signature.Params().At(0).Type().(*types.Pointer).Elem(), "flag", 0), pos)
			return one(st, tupleV{}), true
		case name == "flag.Bool" || name == "flag.String":
			o := x.alloc(st, x.fresh(st, f.Signature.Results().At(0).Type().(*types.Pointer).Elem(), "flag", 0), "flag")
			return one(st, ptrV{o: o}), true
		case strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "log.Panic"):
			return nil, true
		case name == "os.Exit":
			if iv, ok := args[0].(intV); ok && x.decideEQ(st, iv.l) == 0 {
				return nil, true
			}
			ev("exit 0")
			return one(st, tupleV{}), true
		case name == "(*encoding/xml.Decoder).Decode", name == "encoding/xml.Unmarshal":
			err := xerrV{x.id(), "Decode"}
			ev("decode", args[1], err)
			return one(st, err), true
		case f.Pkg == x.ld.root && strings.HasPrefix(f.Name(), "With"):
			return one(st, symFunc{x.id(), f.Name()}), true
		}
		return nil, false
	}
	for _, o := range x.callFn(x.base.clone(), fn, nil, nil, fn.Pos()) {
		if o.panic {
			continue
		}
		x.count("C23 ends of the program")
		var dec, run *event
		for i, e := range o.st.trace {
			switch {
			case e.kind != evCall:
			case e.what == "decode":
				dec = &o.st.trace[i]
			case e.what == "run":
				if run != nil {
					x.find("program", fn, "runs the script twice")
				}
				run = &o.st.trace[i]
			}
		}
		if dec == nil || run == nil {
			x.find("program", fn, "succeeds without running a script")
			continue
		}
		for _, e := range []*event{dec, run} {
			if x.decide(o.st, x.isNil(o.st, e.args[len(e.args)-1])) != 1 {
				x.find("program", fn, "succeeds although it failed to "+e.what+" the script")
			}
		}
		if !sameVal(unwrapIface(dec.args[0]), run.args[0]) {
			x.find("program", fn, "runs another script than it read")
		}
	}
}

// checkTags: nothing of a script is lost when it is read.
func checkTags(x *extra, pkg *ssa.Package) {
	for typ, fields := range map[string]map[string]string{
		"Script":  {"Commands": "command"},
		"Command": {"Action": "action,attr", "Kind": "kind,attr", "Content": ",chardata", "Name": "name,attr", "WS": "ws,attr", "Params": ",any,attr"},
	} {
		t := pkg.Type(typ)
		if t == nil {
			x.giveUp(0, "the type %s is missing", typ)
		}
		us, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			x.giveUp(t.Pos(), "%s is no struct", typ)
		}
		for i := 0; i < us.NumFields(); i++ {
			want, ok := fields[us.Field(i).Name()]
			if !ok {
				continue
			}
			x.count("C23 fields read")
			got := reflect.StructTag(us.Tag(i)).Get("xml")
			parts := strings.Split(got, ",")
			sort.Strings(parts[1:])
			if got = strings.Join(parts, ","); got != want {
				x.findAt("lost-input", x.pos(us.Field(i).Pos()), typ, "the field "+us.Field(i).Name()+" is read from something else than "+want)
			}
		}
	}
}
