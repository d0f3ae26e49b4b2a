package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// More of the library, written from its documentation: text builders, and
// functions whose arguments are usually known.

// builderField is the location of the contents of a strings.Builder or a
// bytes.Buffer (whose reads are not modelled).
func (e *engine) builderField(v value, t types.Type, pos token.Pos) ptrV {
	pt, ok := v.(ptrV)
	if !ok {
		e.giveUp(pos, "a builder that is %T", v)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "buf" {
			return ptrV{o: pt.o, path: append(append([]sel(nil), pt.path...), sel{field: i})}
		}
	}
	e.giveUp(pos, "a builder without contents")
	return ptrV{}
}

// bytesText is the text of a byte slice, or nil.
func (e *engine) bytesText(st *state, v value) *strV {
	switch b := v.(type) {
	case *strV:
		return b
	case bytesV:
		return b.s
	case nilV:
		return slit("")
	case sliceV:
		if b.null || b.len.isConst() && b.len.c == 0 {
			return slit("")
		}
		return e.bytesContent(st, b)
	}
	return nil
}

func isBuilder(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	s := p.Elem().String()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// build appends to a builder.
func (e *engine) build(st *state, b value, t types.Type, s *strV, pos token.Pos) []*state {
	f := e.builderField(b, t, pos)
	rs := e.load(st, f, nil, pos)
	var out []*state
	for _, r := range rs {
		old := e.bytesText(r.st, r.v)
		if old == nil {
			e.giveUp(pos, "a builder with unknown contents")
		}
		out = append(out, e.store(r.st, f, bytesV{old.concat(s)}, pos)...)
	}
	return out
}

// oneChar is the text of a character, split by what it may be.
func (e *engine) oneChar(st *state, v value, asByte bool, pos token.Pos) []res {
	iv, ok := v.(intV)
	if !ok {
		e.giveUp(pos, "an unknown character")
	}
	sts := []res{{st, iv}}
	if !iv.l.isConst() {
		b, set := e.linSet(st, iv.l)
		if b == 0 || set.count() > 16 {
			e.giveUp(pos, "an unknown character")
		}
		sts = e.splitBy(st, b, iv.l, set, func(v int64) int64 { return v })
	}
	var out []res
	for _, r := range sts {
		c := r.v.(intV).l.c
		if asByte {
			out = append(out, res{r.st, slit(string([]byte{byte(c)}))})
		} else {
			out = append(out, res{r.st, slit(string(rune(c)))})
		}
	}
	return out
}

func (e *engine) externMore(st *state, fn *ssa.Function, name string, args []value, pos token.Pos) ([]res, bool) {
	lit := func(i int) (string, bool) {
		s := e.bytesText(st, args[i])
		if s == nil {
			return "", false
		}
		return s.lit()
	}
	recv := ""
	for _, r := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		if strings.HasPrefix(name, r) {
			recv = r
		}
	}
	if recv != "" {
		t := fn.Signature.Recv().Type()
		var out []res
		switch m := strings.TrimPrefix(name, recv); m {
		case "WriteString", "Write":
			s := e.bytesText(st, args[1])
			if s == nil {
				return nil, false
			}
			for _, c := range e.build(st, args[0], t, s, pos) {
				out = append(out, res{c, tupleV{intV{e.strLen(s)}, nilV{}}})
			}
		case "WriteByte", "WriteRune":
			for _, r := range e.oneChar(st, args[1], m == "WriteByte", pos) {
				s := r.v.(*strV)
				for _, c := range e.build(r.st, args[0], t, s, pos) {
					if m == "WriteByte" {
						out = append(out, res{c, nilV{}})
					} else {
						out = append(out, res{c, tupleV{intV{e.strLen(s)}, nilV{}}})
					}
				}
			}
		case "Len", "String", "Bytes":
			for _, r := range e.load(st, e.builderField(args[0], t, pos), nil, pos) {
				s := e.bytesText(r.st, r.v)
				if s == nil {
					return nil, false
				}
				switch m {
				case "Len":
					out = append(out, res{r.st, intV{e.strLen(s)}})
				case "String":
					out = append(out, res{r.st, s})
				default:
					out = append(out, res{r.st, bytesV{s}})
				}
			}
		case "Reset":
			for _, c := range e.store(st, e.builderField(args[0], t, pos), bytesV{slit("")}, pos) {
				out = append(out, res{c, tupleV(nil)})
			}
		case "Grow":
			return one(st, tupleV(nil)), true
		default:
			return nil, false
		}
		return out, true
	}
	all := len(args) > 0
	lits := make([]string, len(args))
	for i := range args {
		switch args[i].(type) {
		case *strV, bytesV, sliceV, nilV:
			l, ok := lit(i)
			lits[i] = l
			all = all && ok
		default:
			all = false
		}
	}
	derived := func(s *strV) ([]res, bool) {
		s = e.norm(st, s)
		k := name + fmt.Sprintf("%q", lits[1:]) + "(" + s.key() + ")"
		a := e.aliases[k]
		if a == nil {
			a = e.newAtom(k)
			a.how, a.wrap = name, s
			e.aliases[k] = a
		}
		return one(st, satom(a)), true
	}
	switch name {
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		f := map[string]func(a, b string) string{"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
			"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix}[name]
		if all {
			return one(st, slit(f(lits[0], lits[1]))), true
		}
		s := e.bytesText(st, args[0])
		if _, ok := lit(1); !ok || s == nil {
			return nil, false
		}
		return derived(s)
	case "strings.Fields":
		if all {
			return one(st, e.strSlice(st, strings.Fields(lits[0]))), true
		}
	case "strings.Split":
		if all {
			return one(st, e.strSlice(st, strings.Split(lits[0], lits[1]))), true
		}
	case "strings.Compare":
		if all {
			return one(st, intV{con(int64(strings.Compare(lits[0], lits[1])))}), true
		}
	case "bytes.Equal":
		a, b := e.bytesText(st, args[0]), e.bytesText(st, args[1])
		if a != nil && b != nil {
			return one(st, bcond(strEq{a, b})), true
		}
	case "bytes.Repeat":
		if n, ok := args[1].(intV); ok && n.l.isConst() && n.l.c >= 0 && n.l.c < 100 {
			if s := e.bytesText(st, args[0]); s != nil {
				r := slit("")
				for i := int64(0); i < n.l.c; i++ {
					r = r.concat(s)
				}
				return one(st, bytesV{r}), true
			}
		}
	case "strconv.Atoi":
		if all {
			n, err := strconv.Atoi(lits[0])
			if err == nil {
				return one(st, tupleV{intV{con(int64(n))}, nilV{}}), true
			}
			return one(st, tupleV{intV{con(int64(n))}, e.newErr(st, err.Error(), nil, pos)}), true
		}
	case "unicode/utf8.RuneCount":
		if s := e.bytesText(st, args[0]); s != nil {
			if l, ok := s.lit(); ok {
				return one(st, intV{con(int64(utf8.RuneCountInString(l)))}), true
			}
		}
	case "unicode/utf8.AppendRune":
		if s := e.bytesText(st, args[0]); s != nil {
			var out []res
			for _, r := range e.oneChar(st, args[1], false, pos) {
				out = append(out, res{r.st, bytesV{s.concat(r.v.(*strV))}})
			}
			return out, true
		}
	case "(*bufio.Writer).AvailableBuffer":
		return one(st, bytesV{slit("")}), true
	case "errors.Unwrap":
		switch x := args[0].(type) {
		case nilV:
			return one(st, nilV{}), true
		case errV:
			if x.wraps != nil {
				return one(st, x.wraps), true
			}
		}
	case "math/bits.TrailingZeros", "math/bits.TrailingZeros64", "math/bits.TrailingZeros32", "math/bits.OnesCount", "math/bits.OnesCount64", "math/bits.OnesCount32", "math/bits.Len", "math/bits.Len64", "math/bits.Len32":
		if n, ok := args[0].(intV); ok && n.l.isConst() {
			return one(st, intV{con(bitsOf(name, uint64(n.l.c)))}), true
		}
	}
	return nil, false
}

func bitsOf(name string, v uint64) int64 {
	if strings.HasSuffix(name, "32") {
		v &= 1<<32 - 1
	}
	n := int64(0)
	switch {
	case strings.Contains(name, "OnesCount"):
		for ; v != 0; v &= v - 1 {
			n++
		}
	case strings.Contains(name, ".Len"):
		for ; v != 0; v >>= 1 {
			n++
		}
	default:
		if v == 0 {
			if strings.HasSuffix(name, "32") {
				return 32
			}
			return 64
		}
		for ; v&1 == 0; v >>= 1 {
			n++
		}
	}
	return n
}

// strSlice is a new slice of known strings.
func (e *engine) strSlice(st *state, ss []string) value {
	a := &arrV{elem: types.Typ[types.String], n: con(int64(len(ss))), rest: restZero, table: map[int64]value{}}
	for i, s := range ss {
		a.table[int64(i)] = slit(s)
	}
	return sliceV{o: e.alloc(st, a, "strings"), len: con(int64(len(ss))), cap: con(int64(len(ss)))}
}

// newText is the result of a library function that makes a text of its
// arguments in some way that is not modelled: it is like no other text.
func (e *engine) newText(st *state, fn *ssa.Function, name string, args []value) ([]res, bool) {
	if fn.Pkg == nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() != 1 {
		return nil, false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "bytes", "html", "net/url", "encoding/hex", "encoding/base64", "strconv":
	default:
		return nil, false
	}
	var from *strV
	for _, a := range args {
		if s, ok := a.(*strV); ok && from == nil {
			from = e.norm(st, s)
		} else if b, ok := a.(bytesV); ok && from == nil {
			from = e.norm(st, b.s)
		}
	}
	if from == nil {
		return nil, false
	}
	at := e.newAtom(name + "(" + from.String() + ")")
	switch t := fn.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.String {
			return one(st, satom(at)), true
		}
	case *types.Slice:
		if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return one(st, bytesV{satom(at)}), true
		}
	}
	return nil, false
}
