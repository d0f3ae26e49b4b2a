package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. All are immutable; nil means "not computed".
type value interface{}

type intV struct{ l lin }

// boolV: known (k 0/1) or a condition, possibly negated (k 2).
type boolV struct {
	k   int
	c   cond
	neg bool
}

func bconst(b bool) boolV {
	if b {
		return boolV{k: 1}
	}
	return boolV{}
}
func bcond(c cond) boolV { return boolV{k: 2, c: c} }
func (b boolV) not() boolV {
	switch b.k {
	case 0:
		return boolV{k: 1}
	case 1:
		return boolV{}
	}
	b.neg = !b.neg
	return b
}

// atom is an abstract string.
type atom struct {
	id    int
	name  string
	len   sym
	orig  int    // symbolic interface it was obtained from, or 0
	wrap  *strV  // set for the result of an external transformation of another string
	how   string // the transformation
	args  []value
	alias *strV // the composite string this is a name for
}

func (a *atom) String() string { return fmt.Sprintf("%s#%d", a.name, a.id) }

// part is a literal or a substring of an atom (from/to; whole if whole).
type part struct {
	lit      string
	a        *atom
	whole    bool
	from, to lin
}
type strV struct{ p []part }

func slit(s string) *strV {
	if s == "" {
		return &strV{}
	}
	return &strV{[]part{{lit: s}}}
}
func satom(a *atom) *strV { return &strV{[]part{{a: a, whole: true}}} }
func (s *strV) lit() (string, bool) {
	if len(s.p) == 0 {
		return "", true
	}
	if len(s.p) == 1 && s.p[0].a == nil {
		return s.p[0].lit, true
	}
	return "", false
}
func (s *strV) atom() *atom {
	if len(s.p) == 1 && s.p[0].a != nil && s.p[0].whole {
		return s.p[0].a
	}
	return nil
}
func (s *strV) key() string {
	var b strings.Builder
	for _, p := range s.p {
		if p.a == nil {
			fmt.Fprintf(&b, "%q|", p.lit)
		} else if p.whole {
			fmt.Fprintf(&b, "a%d|", p.a.id)
		} else {
			fmt.Fprintf(&b, "a%d[%s:%s]|", p.a.id, p.from, p.to)
		}
	}
	return b.String()
}
func (s *strV) String() string {
	if len(s.p) == 0 {
		return `""`
	}
	var b strings.Builder
	for i, p := range s.p {
		if i > 0 {
			b.WriteByte('+')
		}
		if p.a == nil {
			fmt.Fprintf(&b, "%q", p.lit)
		} else if p.whole {
			b.WriteString(p.a.name)
		} else {
			fmt.Fprintf(&b, "%s[%s:%s]", p.a.name, p.from, p.to)
		}
	}
	return b.String()
}
func (s *strV) concat(o *strV) *strV {
	out := &strV{append([]part(nil), s.p...)}
	for _, p := range o.p {
		n := len(out.p)
		if p.a == nil && n > 0 && out.p[n-1].a == nil {
			out.p[n-1] = part{lit: out.p[n-1].lit + p.lit}
			continue
		}
		out.p = append(out.p, p)
	}
	return out
}

type objID int32

// sel is one step of a location within an object.
type sel struct {
	field int // >= 0: field of a struct; -1: element idx of an array
	idx   lin
}

// ptrV points to a location. If sid != 0 it may be nil (a symbolic pointer).
type ptrV struct {
	o    objID
	path []sel
	sid  int
}
type nilV struct{}
type structV struct {
	t    *types.Struct
	f    []value
	orig int
}

// arrV is an array: elements at known indexes, and what the others are.
type arrV struct {
	elem  types.Type
	n     lin
	known []arrElem
	rest  int             // restZero, restSummary, restUnknown, restStack
	sum   value           // restSummary: a value every other element is an instance of
	table map[int64]value // constant tables; known and rest are unused for these
}
type arrElem struct {
	i lin
	v value
}

const (
	restZero = iota
	restSummary
	restUnknown // any value of the type, a new one at each read
	restStack   // the writer's node stack: see closure.go
	restCaller  // elements of a slice passed in: each is read as symbolic, the same at the same index
	restEach    // elements of a list of unknown length: each read makes a new one that says which it is
)

type sliceV struct {
	o             objID
	path          []sel
	off, len, cap lin
	null          bool
	name          string
}

// ifaceV is an interface holding a concrete type.
type ifaceV struct {
	t types.Type
	v value
}

// symIface is an unknown interface value.
type symIface struct {
	id   int
	t    types.Type
	name string
	// idxOf: element of a caller's slice
	arr objID
	idx lin
}

// errV is a fresh non-nil error.
type errV struct {
	id    int
	pos   string
	what  string
	wraps value // the error it was made from
}

// werrV is the (sticky) error of the output buffer as of write number id.
type werrV struct{ id int }

// xerrV is an error from an unknown callee, which may be nil.
type xerrV struct {
	id   int
	what string
}

type funcV struct {
	fn   *ssa.Function
	bind []value
}
type symFunc struct {
	id   int
	name string
}
type builtinV struct{ b *ssa.Builtin }
type tupleV []value

// mapV is a map object reference.
type mapV struct {
	o    objID
	null bool
}
type mapObj struct {
	keys []value
	vals []value
	t    *types.Map
}

// bytesV is a read-only byte slice with the contents of a string.
type bytesV struct{ s *strV }
type byteElem struct {
	s *strV
	i lin
}

// iterV is a range iterator.
type iterV struct{ o objID }
type strIter struct {
	s   *strV
	pos lin
}
type mapIter struct {
	m mapV
	i int
}

// termV is the result of an external call, known only by what it was made of.
type termV struct {
	id   int
	what string
	args []value
	t    types.Type
}

// floatV and others we know nothing about.
type opaqueV struct {
	id   int
	what string
	t    types.Type
	args []value
}

// Conditions.
type cond interface{}
type linCond struct {
	e  lin // e == 0 or e <= 0
	le bool
}
type symCond struct {
	id   int
	name string
}
type strEq struct{ a, b *strV }
type strHas struct { // a contains / starts with / ends with / equals ignoring case b
	op   string
	a, b *strV
}
type inSet struct {
	l lin
	s rset
}
type nilCond struct {
	id   int
	kind int // 0: symbolic pointer or interface; 1: write error; 2: external error
	name string
}
type dynCond struct {
	id int
	t  types.Type
}

// orCond is a disjunction of conditions.
type orCond struct{ a, b boolV }
