package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// The reference model: what a writer has to do, written from its
// documentation, the XML productions and the stated properties, without
// reference to how the writer does it. It runs alongside the analysed code on
// abstract values: where it needs to know something the code's path has not
// settled, both answers are followed.

// mnode is a node handed to the writer.
type mnode struct {
	kind    string // "Elem", "Attr", ...
	f       map[string]value
	attrs   []*mnode
	content []*mnode
	val     value      // the value passed
	typ     types.Type // its type
}

func (n *mnode) str(f string) *strV {
	if s, ok := n.f[f].(*strV); ok {
		return s
	}
	return slit("")
}

// gns is a namespace declaration of an open element.
type gns struct {
	prefix, uri *strV
	written     bool
}

// gcell is a started node.
type gcell struct {
	kind     string
	opened   bool
	children lin
	n        *mnode
	ns       []gns
	attrs    []*mnode
	content  []*mnode
	full     boolV
	text     *strV // pending content of a comment or CDATA section
}

// gevent is what the indenter was told last.
type gevent struct {
	state, node int64
	children    lin
	opaque      value // an unknown event
}

// ghost is the model's view of a writer.
type ghost struct {
	depth lin
	cells []*gcell
	below bool // there are unknown cells below the ones listed
	last  gevent
	peeks []arrElem // elements below the innermost node that the code has read
	enc   *strV
}

func (g *ghost) clone() *ghost {
	n := *g
	n.cells = make([]*gcell, len(g.cells))
	for i, c := range g.cells {
		x := *c
		x.ns = append([]gns(nil), c.ns...)
		n.cells[i] = &x
	}
	return &n
}

func (g *ghost) top() *gcell {
	if len(g.cells) == 0 {
		return nil
	}
	return g.cells[len(g.cells)-1]
}

// piece is one expected effect.
type piece struct {
	k        evKind
	s        *strV
	attr     bool // evEsc: as an attribute value
	last     gevent
	next     gevent
	optional bool
	props    string
}

func (p piece) String() string {
	switch p.k {
	case evOut:
		return p.s.String()
	case evEsc:
		if p.attr {
			return "escAttr(" + p.s.String() + ")"
		}
		return "esc(" + p.s.String() + ")"
	case evIndent:
		return "Indent(" + p.next.String() + ")"
	case evFlush:
		return "Flush()"
	}
	return "?"
}

var stateNames = []string{"Open", "Opened", "Ended"}

func (g gevent) String() string {
	if g.opaque != nil {
		return "?"
	}
	s := fmt.Sprint(g.state)
	if g.state >= 0 && g.state < 3 {
		s = stateNames[g.state]
	}
	return fmt.Sprintf("%s,%d,%s", s, g.node, g.children)
}

type reject struct {
	props string
	what  string
	mis   bool  // misplaced: nothing may happen
	off   *strV // must not be written
	grey  bool
}
type infeasible struct{}
type unmodelled struct{}

// config of a writer.
type wconfig struct {
	enforce, indent bool
	name            string
	version, nl     *strV
	strict          boolV
	wid             int // id of the indenter
}

type mrun struct {
	e       *engine
	st      *state
	cfg     *wconfig
	g       *ghost
	choice  []int
	n       int
	alts    []int
	out     []piece
	implNil bool
	props   string // of the construct being written
	main    string // of the operation
	loose   bool   // misplaced, with enforcement off: only whether it is refused matters
	notes   []note
}
type note struct {
	kind  string
	s     *strV
	again bool
}

// choose picks one of several alternative states.
func (m *mrun) choose(alts []*state) int {
	if len(alts) == 0 {
		panic(infeasible{})
	}
	if len(alts) == 1 {
		m.st = alts[0]
		return 0
	}
	c := 0
	if m.n < len(m.choice) {
		c = m.choice[m.n]
	} else {
		m.choice = append(m.choice, 0)
		m.alts = append(m.alts, len(alts))
	}
	m.n++
	m.st = alts[c]
	return c
}

func (m *mrun) ask(b boolV) bool {
	switch m.e.decide(m.st, b) {
	case 1:
		return true
	case 0:
		return false
	}
	t, f := m.e.fork(m.st.clone(), b)
	return m.choose(append(append([]*state{}, t...), f...)) < len(t)
}
func (m *mrun) askChars(s *strV, first, rest rset) bool {
	switch m.e.charDecide(m.st, s, first, rest) {
	case 1:
		return true
	case 0:
		return false
	}
	t, f := m.st.clone(), m.st.clone()
	var alts []*state
	nt := 0
	if m.e.charAssume(t, s, charFact{ok: true, first: first, rest: rest}) {
		alts = append(alts, t)
		nt = 1
	}
	if m.e.charAssume(f, s, charFact{first: rChars.minus(first), rest: rChars.minus(rest)}) {
		alts = append(alts, f)
	}
	return m.choose(alts) < nt
}
func (m *mrun) empty(s *strV) bool { return m.ask(bcond(strEq{s, slit("")})) }
func (m *mrun) contains(s *strV, t string) bool {
	if len(t) > 1 && m.e.decide(m.st, bcond(strHas{"contains", s, slit(t)})) < 0 && m.e.byHand(s, t) {
		m.e.giveUp(0, "a loop over the characters may look for %q", t)
	}
	return m.ask(bcond(strHas{"contains", s, slit(t)}))
}

func (m *mrun) reject(props, what string, off *strV) {
	panic(reject{props: props, what: what, off: off})
}
func (m *mrun) misplaced(what string) { panic(reject{props: "C05", what: what, mis: true}) }

func (m *mrun) outS(s *strV) {
	m.out = append(m.out, piece{k: evOut, s: s, props: m.props})
}
func (m *mrun) lit(s string) { m.outS(slit(s)) }
func (m *mrun) esc(s *strV, attr bool) {
	if l, ok := s.lit(); ok {
		if strings.ContainsAny(l, "<>&'\"\t\r\n") {
			m.e.giveUp(0, "internal: escaping of %q in the model", l)
		}
		m.outS(s)
		return
	}
	m.out = append(m.out, piece{k: evEsc, s: s, attr: attr, props: m.props + ",C02"})
}

func (m *mrun) kindNo(kind string) int64 { return m.e.constOf(kind + "Node") }

// constOf is the value of an integer constant of the package.
func (e *engine) constOf(name string) int64 {
	c, ok := e.ld.root.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		e.giveUp(0, "the constant %s is missing", name)
	}
	v, ok := constant.Int64Val(c.Val())
	if !ok {
		e.giveUp(0, "the constant %s is no integer", name)
	}
	return v
}

const (
	stOpen = iota
	stOpened
	stEnded
)

// indent tells the indenter about the next event.
func (m *mrun) indent(state int64, kind string, children lin) gevent {
	ev := gevent{state: state, node: m.kindNo(kind), children: children}
	if m.cfg.indent {
		m.out = append(m.out, piece{k: evIndent, last: m.g.last, next: ev, props: "C15"})
	}
	return ev
}

// --- placement

var parents = map[string]string{
	"Text": "Elem", "CommentContent": "Comment", "Comment": "Doc,DTD,Elem", "CDataContent": "CData", "CData": "Elem",
	"Doc": "", "PI": "Doc,Elem", "DTD": "Doc", "DTDElem": "DTD", "DTDEntity": "DTD", "DTDAttList": "DTD", "Notation": "DTD",
	"DTDAttr": "DTDAttList", "Elem": "Doc,Elem", "Attr": "Elem",
}

func (m *mrun) place(kind string) {
	t := m.g.top()
	if t == nil {
		if m.g.below {
			m.e.giveUp(0, "internal: the model does not know the innermost node")
		}
		return
	}
	ok := false
	for _, p := range strings.Split(parents[kind], ",") {
		if p == t.kind {
			ok = true
		}
	}
	if !ok {
		if !m.cfg.enforce {
			m.loose = true
			return
		}
		m.misplaced(kind + " inside " + t.kind)
	}
}

// --- checks

// XML 1.0 (fifth edition) name classes.
var xmlNameStart = rset{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFD}, {0x10000, 0xEFFFF}}
var xmlNameChar = xmlNameStart.union(rset{{'-', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}})

// The part of them that the name table generator enumerates.
var genNameStart = rset{{':', ':'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}, {0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}}
var genNameChar = genNameStart.union(rset{{'-', '.'}, {'0', '9'}, {0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}})

var asciiLetters = rset{{'A', 'Z'}, {'a', 'z'}}
var encRest = rset{{'-', '.'}, {'0', '9'}, {'A', 'Z'}, {'_', '_'}, {'a', 'z'}}
var pubidChars = rset{{0xA, 0xA}, {0xD, 0xD}, {' ', '!'}, {'#', '%'}, {'\'', ';'}, {'=', '='}, {'?', 'Z'}, {'_', '_'}, {'a', 'z'}}
var xmlChars = rset{{0x9, 0xA}, {0xD, 0xD}, {0x20, 0xD7FF}, {0xE000, 0xFFFD}, {0x10000, 0x10FFFF}}

// xmlDiscouraged are the characters section 2.2 asks authors to avoid.
var xmlDiscouraged = func() rset {
	r := rset{{0x7F, 0x84}, {0x86, 0x9F}, {0xFDD0, 0xFDEF}}
	for p := int64(1); p <= 0x10; p++ {
		r = r.union(rRange(p<<16|0xFFFE, p<<16|0xFFFF))
	}
	return r
}()
var xmlStrictChars = xmlChars.minus(xmlDiscouraged)

// checkName: a non-empty name must be one.
func (m *mrun) checkName(s *strV, props string) {
	if !m.cfg.enforce {
		return
	}
	if m.empty(s) {
		return
	}
	if !m.askChars(s, xmlNameStart, xmlNameChar) {
		m.reject(props, "invalid name", s)
	}
	if !m.askChars(s, genNameStart, genNameChar) && !m.implNil {
		panic(reject{props: props, what: "name outside the tables", grey: true, off: s})
	}
}

// name: like checkName, and not empty.
func (m *mrun) name(s *strV, what, props string) {
	if m.cfg.enforce && m.empty(s) {
		m.reject(props, "empty "+what+" name", nil)
	}
	m.checkName(s, props)
}

func (m *mrun) chars(s *strV) {
	set := xmlChars
	if m.ask(m.cfg.strict) {
		set = xmlStrictChars
	}
	// a byte that is no character counts as U+FFFD; refusing it is no fault
	wide := set.union(rOne(badByte))
	if !m.askChars(s, wide, wide) {
		m.reject("C04,C03", "invalid character", s)
	}
	if !m.implNil && !m.askChars(s, set, set) {
		panic(reject{props: "C03", what: "invalid UTF-8", grey: true})
	}
}

// --- transitions

// next prepares the innermost node for a child.
func (m *mrun) next() {
	t := m.g.top()
	if t == nil {
		return
	}
	t.children = t.children.plus(1)
	if !t.opened {
		m.opened(t)
	}
}

// opened finishes the beginning of a node.
func (m *mrun) opened(t *gcell) {
	saved := m.props
	defer func() { m.props = saved }()
	t.opened = true
	m.g.last = m.indent(stOpened, t.kind, t.children)
	switch t.kind {
	case "Comment", "CData":
		if t.text != nil {
			s := t.text
			t.text = nil
			if !m.empty(s) {
				m.content(t.kind+"Content", s)
			}
		}
	case "DTD":
		m.props = "C10"
		if m.hasChildren(t) {
			m.lit(" [")
		}
	case "DTDAttList":
		as := t.attrs
		t.attrs = nil
		for _, a := range as {
			m.dtdAttr(a)
		}
	case "Elem":
		for i := range t.ns {
			if !t.ns[i].written {
				m.props = "C13"
				t.ns[i].written = true
				m.attrText(slit("xmlns:").concat(t.ns[i].prefix), t.ns[i].uri)
			}
		}
		m.props = "C01"
		if m.hasChildren(t) || m.ask(t.full) || len(t.content) > 0 {
			m.lit(">")
		} else {
			m.lit("/>")
		}
		c := t.content
		t.content = nil
		for _, x := range c {
			switch x.kind {
			case "Text", "Elem", "Comment", "CData":
				m.write(x)
			default:
				m.reject("C05", "unsupported child in Content", nil)
			}
		}
	}
}

func (m *mrun) hasChildren(t *gcell) bool {
	return !m.ask(bcond(linCond{e: t.children}))
}

// leaf begins a node without children of its own.
func (m *mrun) leaf(kind string) {
	m.next()
	m.indent(stOpen, kind, con(0))
	m.g.last = gevent{state: stEnded, node: m.kindNo(kind)}
}

// attrText writes a name and a quoted value.
func (m *mrun) attrText(name, val *strV) {
	m.checkName(name, "C04")
	m.lit(" ")
	m.outS(name)
	m.lit(`="`)
	m.esc(val, true)
	m.lit(`"`)
}

// --- writing

func (m *mrun) write(n *mnode) {
	switch n.kind {
	case "Elem", "Comment", "CData", "DTDAttList":
		m.start(n)
		m.end(m.g.top())
		m.pop()
	case "Attr":
		m.attr(n)
	case "DTDAttr":
		m.dtdAttr(n)
	default:
		m.content(n.kind, n.str(""), n)
	}
}

func (m *mrun) content(kind string, s *strV, ns ...*mnode) {
	saved := m.props
	defer func() { m.props = saved }()
	var n *mnode
	if len(ns) > 0 {
		n = ns[0]
	}
	switch kind {
	case "Raw":
		m.props = "C17,C12"
		m.indent(stOpen, kind, con(0))
		m.g.last = gevent{state: stEnded, node: m.kindNo(kind)}
		m.outS(s)
	case "Text":
		s = m.wrap(s)
		m.place(kind)
		m.leaf(kind)
		m.props = "C02,C14"
		m.esc(s, false)
	case "CommentContent", "CDataContent":
		bad := "]]>"
		if kind == "CommentContent" {
			s = m.wrap(s)
			bad = "--"
		}
		m.place(kind)
		if m.cfg.enforce {
			if m.contains(s, bad) {
				m.reject("C04", "content contains "+bad, s)
			}
			m.chars(s)
			m.delicate(kind, s)
		}
		m.leaf(kind)
		m.props = "C12"
		m.outS(s)
	case "PI":
		m.place(kind)
		t, c := n.str("Target"), n.str("Content")
		if m.cfg.enforce {
			if m.ask(bcond(strHas{"fold", t, slit("xml")})) {
				m.reject("C04", "PI target xml", t)
			}
			m.checkName(t, "C04")
			if m.contains(c, "?>") {
				m.reject("C04", "PI content contains ?>", c)
			}
		}
		m.leaf(kind)
		m.props = "C12"
		m.lit("<?")
		m.outS(t)
		m.lit(" ")
		if m.cfg.indent {
			m.out = append(m.out, piece{k: evIndent, last: m.g.last, next: gevent{state: stOpen, node: m.kindNo("Raw")}, optional: true, props: "C15"})
		}
		m.outS(c)
		m.lit("?>")
	case "DTDElem":
		m.place(kind)
		m.props = "C10"
		m.name(n.str("Name"), "element", "C04,C10")
		if m.cfg.enforce && m.empty(n.str("Decl")) {
			m.reject("C10", "empty element declaration", nil)
		}
		m.leaf(kind)
		m.lit("<!ELEMENT ")
		m.outS(n.str("Name"))
		m.lit(" ")
		m.outS(n.str("Decl"))
		m.lit(">")
	case "DTDEntity":
		m.place(kind)
		m.props = "C10"
		m.entity(n)
	case "Notation":
		m.place(kind)
		m.props = "C10"
		pub, sys := n.str("PublicID"), n.str("SystemID")
		m.name(n.str("Name"), "notation", "C04,C10")
		if m.cfg.enforce && m.empty(pub) && m.empty(sys) {
			m.reject("C10", "notation without identifier", nil)
		}
		m.leaf(kind)
		m.lit("<!NOTATION ")
		m.outS(n.str("Name"))
		m.lit(" ")
		switch {
		case !m.empty(sys):
			m.externalID(pub, sys)
		case !m.empty(pub):
			m.pubid(pub)
			m.lit(`PUBLIC "`)
			m.outS(pub)
			m.lit(`"`)
		}
		m.lit(">")
	default:
		m.e.giveUp(0, "internal: model of %s", kind)
	}
}

// delicate notes content that combines badly with what is around it: a writer
// may refuse it.
func (m *mrun) delicate(kind string, s *strV) {
	t := m.g.top()
	again := t != nil && m.e.decideEQ(m.st, t.children) != 1
	if !m.implNil && (kind == "CommentContent" && m.ask(bcond(strHas{"suffix", s, slit("-")})) || again) {
		panic(reject{props: "C04", what: "delicate content", grey: true})
	}
	m.notes = append(m.notes, note{kind, s, again})
}

// wrap is the indenter's version of a text.
func (m *mrun) wrap(s *strV) *strV {
	if !m.cfg.indent {
		return s
	}
	return m.e.wrapped(m.st, s)
}

func (e *engine) wrapped(st *state, s *strV) *strV {
	s = e.norm(st, s)
	k := "wrap(" + s.key() + ")"
	a := e.aliases[k]
	if a == nil {
		a = e.newAtom(k)
		a.how, a.wrap = "wrap", s
		e.aliases[k] = a
	}
	return satom(a)
}

func (m *mrun) pubid(s *strV) {
	if m.cfg.enforce && !m.askChars(s, pubidChars, pubidChars) {
		m.reject("C04,C10,C03", "invalid public identifier", s)
	}
}

// quoted writes a literal in quotes it does not contain.
func (m *mrun) quoted(s *strV, what string) {
	q := `"`
	if m.contains(s, `"`) {
		q = `'`
		if m.cfg.enforce && m.contains(s, `'`) {
			m.reject("C04,C10", what+" with both quotes", s)
		}
	}
	m.lit(q)
	m.outS(s)
	m.lit(q)
}

func (m *mrun) externalID(pub, sys *strV) {
	if m.empty(pub) {
		m.lit("SYSTEM ")
		m.quoted(sys, "system identifier")
		return
	}
	if m.cfg.enforce && m.empty(sys) {
		m.reject("C10", "public without system identifier", nil)
	}
	m.pubid(pub)
	m.lit(`PUBLIC "`)
	m.outS(pub)
	m.lit(`"`)
	if !m.empty(sys) {
		m.lit(" ")
		m.quoted(sys, "system identifier")
	}
}

func (m *mrun) entity(n *mnode) {
	name, c, pub, sys, nd := n.str("Name"), n.str("Content"), n.str("PublicID"), n.str("SystemID"), n.str("NDataID")
	pe := n.f["IsPE"].(boolV)
	m.name(name, "entity", "C04,C10")
	m.leaf("DTDEntity")
	m.lit("<!ENTITY ")
	if m.ask(pe) {
		m.lit("% ")
	}
	m.outS(name)
	m.lit(" ")
	if !m.empty(sys) || !m.empty(pub) {
		if m.cfg.enforce && !m.empty(c) {
			m.reject("C10", "external identifier and content", nil)
		}
		m.externalID(pub, sys)
		if !m.empty(nd) {
			if m.ask(pe) {
				m.reject("C10", "NDATA on a parameter entity", nil)
			}
			m.checkName(nd, "C04,C10")
			m.lit(" NDATA ")
			m.outS(nd)
		}
	} else {
		if m.cfg.enforce && !m.empty(nd) {
			m.reject("C10", "NDATA without external identifier", nil)
		}
		m.quoted(c, "entity value")
	}
	m.lit(">")
}

func (m *mrun) dtdAttr(n *mnode) {
	saved := m.props
	defer func() { m.props = saved }()
	m.place("DTDAttr")
	m.props = "C10,C14"
	name, typ, val := n.str("Name"), n.str("Type"), n.str("Value")
	m.name(name, "DTD attribute", "C04,C10")
	if m.cfg.enforce && m.empty(typ) {
		m.reject("C10", "empty DTD attribute type", nil)
	}
	m.leaf("DTDAttr")
	m.lit(" ")
	m.outS(name)
	m.lit(" ")
	m.outS(typ)
	m.lit(" ")
	is := func(c string) bool {
		return m.ask(cmpLin(token.EQL, n.f["Default"].(intV).l, con(m.e.constOf(c))))
	}
	val1 := func() {
		m.lit(`"`)
		m.esc(val, true)
		m.lit(`"`)
	}
	switch {
	case is("DTDAttrInfer"):
		if m.empty(val) {
			m.lit("#IMPLIED")
		} else {
			val1()
		}
	case is("DTDAttrDefault"):
		val1()
	case is("DTDAttrRequired"), is("DTDAttrImplied"):
		if !m.empty(val) {
			m.reject("C10", "default value on a required or implied attribute", nil)
		}
		if is("DTDAttrRequired") {
			m.lit("#REQUIRED")
		} else {
			m.lit("#IMPLIED")
		}
	case is("DTDAttrFixed"):
		m.lit("#FIXED ")
		val1()
	default:
		m.reject("C10", "unknown default kind", nil)
	}
}

func (m *mrun) attr(n *mnode) {
	saved := m.props
	defer func() { m.props = saved }()
	prefix, uri, name := n.str("Prefix"), n.str("URI"), n.str("Name")
	m.place("Attr")
	t := m.g.top()
	if t != nil && t.opened {
		if !m.cfg.enforce {
			m.loose = true
		} else {
			m.misplaced("attribute after the start tag")
		}
	}
	if m.cfg.enforce && m.empty(name) {
		m.reject("C04", "empty attribute name", nil)
	}
	m.indent(stOpen, "Attr", con(0))
	if t != nil && !m.empty(prefix) && !m.empty(uri) {
		if m.loose {
			panic(unmodelled{})
		}
		found := false
		for _, x := range t.ns {
			if m.ask(bcond(strEq{x.prefix, prefix})) {
				if !m.ask(bcond(strEq{x.uri, uri})) {
					m.reject("C13", "prefix bound to another URI", nil)
				}
				found = true
				break
			}
		}
		if !found {
			t.ns = append(t.ns[:len(t.ns):len(t.ns)], gns{prefix, uri, false})
		}
	}
	m.props = "C14,C13"
	full := name
	if !m.empty(prefix) {
		full = prefix.concat(slit(":")).concat(name)
	}
	m.attrText(full, n.str("Value"))
	m.g.last = gevent{state: stEnded, node: m.kindNo("Attr")}
}

func (m *mrun) elemName(n *mnode) *strV {
	if m.empty(n.str("Prefix")) {
		return n.str("Name")
	}
	return n.str("Prefix").concat(slit(":")).concat(n.str("Name"))
}

// start begins a node that can have children.
func (m *mrun) start(n *mnode) {
	saved := m.props
	defer func() { m.props = saved }()
	m.place(n.kind)
	m.next()
	c := &gcell{kind: n.kind, n: n, attrs: n.attrs, content: n.content, full: bconst(false)}
	m.g.depth = m.g.depth.plus(1)
	m.g.cells = append(m.g.cells, c)
	m.g.last = m.indent(stOpen, n.kind, con(0))
	switch n.kind {
	case "Comment":
		m.props = "C12"
		m.lit("<!--")
		c.text = n.str("Content")
	case "CData":
		m.props = "C12"
		m.lit("<![CDATA[")
		c.text = n.str("Content")
	case "Doc":
		m.props = "C11"
		m.doc(n)
	case "DTD":
		m.props = "C10"
		m.name(n.str("Name"), "DTD", "C04,C10")
		m.lit("<!DOCTYPE ")
		m.outS(n.str("Name"))
		if !m.empty(n.str("PublicID")) || !m.empty(n.str("SystemID")) {
			m.lit(" ")
			m.externalID(n.str("PublicID"), n.str("SystemID"))
		}
	case "DTDAttList":
		m.props = "C10"
		m.name(n.str("Name"), "attribute list", "C04,C10")
		m.lit("<!ATTLIST ")
		m.outS(n.str("Name"))
	case "Elem":
		m.props = "C01"
		c.full = n.f["Full"].(boolV)
		name := m.elemName(n)
		m.name(name, "element", "C04")
		if m.cfg.enforce && m.empty(n.str("Name")) && !m.implNil {
			panic(reject{props: "C04", what: "empty local name", grey: true})
		}
		m.lit("<")
		m.outS(name)
		if !m.empty(n.str("Prefix")) && !m.empty(n.str("URI")) {
			m.props = "C13"
			c.ns = append(c.ns, gns{n.str("Prefix"), n.str("URI"), true})
			m.attrText(slit("xmlns:").concat(n.str("Prefix")), n.str("URI"))
		}
		m.props = "C14"
		c.attrs = nil
		for _, a := range n.attrs {
			m.attr(a)
		}
	}
}

func (m *mrun) doc(n *mnode) {
	m.lit("<?xml")
	space := true
	if !m.ask(n.f["SuppressVersion"].(boolV)) {
		v := m.opt(n, "ForcedVersion")
		if v == nil {
			v = m.cfg.version
			if m.empty(m.cfg.version) {
				v = slit("1.0")
			}
		}
		space = false
		m.attrText(slit("version"), v.(*strV))
	}
	if !m.ask(n.f["SuppressEncoding"].(boolV)) {
		v := m.opt(n, "ForcedEncoding")
		if v == nil {
			v = m.g.enc
		}
		s := v.(*strV)
		if !m.empty(s) {
			if m.cfg.enforce && !m.askChars(s, asciiLetters, encRest) {
				m.reject("C04,C11,C03", "invalid encoding name", s)
			}
			space = false
			m.attrText(slit("encoding"), s)
		}
	}
	if v := m.opt(n, "Standalone"); v != nil {
		space = false
		if m.ask(v.(boolV)) {
			m.attrText(slit("standalone"), slit("yes"))
		} else {
			m.attrText(slit("standalone"), slit("no"))
		}
	}
	if space {
		m.lit(" ")
	}
	m.lit("?>")
	m.outS(m.cfg.nl)
}

// opt is the value of an optional field; nil if it is absent.
func (m *mrun) opt(n *mnode, f string) value {
	p, ok := n.f[f].(ptrV)
	if !ok || m.ask(m.e.isNil(m.st, p)) {
		return nil
	}
	return m.e.peek(m.st, p.o, p.path)
}

// end writes the end of the innermost node.
func (m *mrun) end(t *gcell) {
	saved := m.props
	defer func() { m.props = saved }()
	was := t.opened
	if !was {
		m.opened(t)
	}
	m.g.last = m.indent(stEnded, t.kind, t.children)
	switch t.kind {
	case "Comment":
		m.props = "C12"
		m.lit("-->")
	case "CData":
		m.props = "C12"
		m.lit("]]>")
	case "DTD":
		m.props = "C10"
		if m.hasChildren(t) {
			m.lit("]>")
		} else {
			m.lit(">")
		}
	case "DTDAttList":
		m.props = "C10"
		m.lit(">")
	case "Elem":
		m.props = "C01"
		if was || m.hasChildren(t) || m.ask(t.full) {
			m.lit("</")
			m.outS(m.elemName(t.n))
			m.lit(">")
		}
	}
}

func (m *mrun) pop() {
	m.g.cells = m.g.cells[:len(m.g.cells)-1]
	m.g.depth = m.g.depth.plus(-1)
}

// endTop ends the innermost node whatever it is.
func (m *mrun) endTop(props string) {
	if m.g.top() == nil {
		if m.g.below {
			m.e.giveUp(0, "internal: the model does not know the innermost node")
		}
		m.reject(props, "nothing is started", nil)
	}
	m.end(m.g.top())
	m.pop()
}

// endKind ends the innermost node if it is as described.
func (m *mrun) endKind(kind lin, names []*strV, props string) {
	t := m.g.top()
	if t == nil {
		panic(reject{props: props, what: "nothing is started", mis: true})
	}
	bad := func(what string) { panic(reject{props: props, what: what, mis: true}) }
	if !m.ask(cmpLin(token.EQL, kind, con(m.kindNo(t.kind)))) {
		bad("another kind is innermost: " + t.kind)
	}
	switch len(names) {
	case 0:
	case 1:
		switch t.kind {
		case "Elem", "DTD", "DTDAttList":
			if !m.ask(bcond(strEq{t.n.str("Name"), names[0]})) {
				bad("another name")
			}
		default:
			bad("the node has no name")
		}
	case 2:
		if t.kind != "Elem" {
			bad("the node has no prefix")
		}
		if !m.ask(bcond(strEq{t.n.str("Prefix"), names[0]})) || !m.ask(bcond(strEq{t.n.str("Name"), names[1]})) {
			bad("another name")
		}
	default:
		bad("too many names")
	}
	m.end(t)
	m.pop()
}
