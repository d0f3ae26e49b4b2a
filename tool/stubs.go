package main

import (
	"go/ast"
	"go/parser"
	"go/types"
)

// Go bodies standing for library functions that iterate over a string: calls
// to the named function are analysed as calls to the stub. Each is written
// from the function's documentation.
const stubPath = "xwstubs"

var stubImports = []string{"unicode/utf8", "unicode"}

const stubSrc = `package xwstubs

import (
	"unicode"
	"unicode/utf8"
)

func unicode_Is(t *unicode.RangeTable, r rune) bool {
	for i := 0; i < len(t.R16); i++ {
		lo, hi, stride := rune(t.R16[i].Lo), rune(t.R16[i].Hi), rune(t.R16[i].Stride)
		if r >= lo && r <= hi && (stride == 1 || (r-lo)%stride == 0) {
			return true
		}
	}
	for i := 0; i < len(t.R32); i++ {
		lo, hi, stride := rune(t.R32[i].Lo), rune(t.R32[i].Hi), rune(t.R32[i].Stride)
		if r >= lo && r <= hi && (stride == 1 || (r-lo)%stride == 0) {
			return true
		}
	}
	return false
}

func unicode_In(r rune, ts ...*unicode.RangeTable) bool {
	for i := 0; i < len(ts); i++ {
		if unicode_Is(ts[i], r) {
			return true
		}
	}
	return false
}

func sort_Search(n int, f func(int) bool) int {
	i, j := 0, n
	for i < j {
		h := i + (j-i)/2
		if !f(h) {
			i = h + 1
		} else {
			j = h
		}
	}
	return i
}

func sort_SearchInts(a []int, x int) int {
	i, j := 0, len(a)
	for i < j {
		h := i + (j-i)/2
		if a[h] < x {
			i = h + 1
		} else {
			j = h
		}
	}
	return i
}

func strings_IndexFunc(s string, f func(rune) bool) int {
	for i, r := range s {
		if f(r) {
			return i
		}
	}
	return -1
}

func strings_ContainsFunc(s string, f func(rune) bool) bool {
	for _, r := range s {
		if f(r) {
			return true
		}
	}
	return false
}

func utf8_ValidString(s string) bool {
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && w == 1 {
			return false
		}
		i += w
	}
	return true
}
`

var stubNames = map[string]string{
	"strings.IndexFunc":        "strings_IndexFunc",
	"strings.ContainsFunc":     "strings_ContainsFunc",
	"unicode/utf8.ValidString": "utf8_ValidString",
	"unicode.Is":               "unicode_Is",
	"unicode.In":               "unicode_In",
	"sort.Search":              "sort_Search",
	"sort.SearchInts":          "sort_SearchInts",
}

func (l *loader) addStubs() error {
	f, err := parser.ParseFile(l.fset, "xwstubs.go", stubSrc, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	pp := &parsedPkg{path: stubPath, files: []*ast.File{f}, imports: map[string]string{"unicode/utf8": "unicode/utf8", "unicode": "unicode"}, local: true}
	l.parsed[stubPath] = pp
	_, err = l.check(stubPath)
	return err
}

var _ types.Type
