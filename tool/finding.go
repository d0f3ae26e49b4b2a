package main

import (
	"sort"
	"strings"
)

// finding is a violation of a property at a place in the code.
type finding struct {
	props []string
	rule  string
	where string // file:line
	fn    string // function
	msg   string
	ctx   string // the entry point and state analysed
}

// key identifies a finding independently of line numbers and context.
func (f finding) key() string { return f.rule + "|" + f.fn + "|" + f.msg }

func (f finding) has(p string) bool {
	for _, x := range f.props {
		if x == p {
			return true
		}
	}
	return false
}
func (f finding) String() string {
	return "[" + strings.Join(f.props, ",") + "] " + f.rule + " at " + f.where + " in " + f.fn + ": " + f.msg + " (" + f.ctx + ")"
}

type findings struct {
	by map[string]*finding
	n  map[string]int
	at int // the state analysed, -1: none
	in map[string]map[int]bool
}

func newFindings() *findings {
	return &findings{by: map[string]*finding{}, n: map[string]int{}, at: -1, in: map[string]map[int]bool{}}
}

// firstFinding is called with each finding; for development only.
var firstFinding func(f finding)

func (fs *findings) add(f finding) {
	if firstFinding != nil {
		firstFinding(f)
	}
	k := f.key() + "|" + strings.Join(f.props, ",")
	fs.n[k]++
	if fs.in[k] == nil {
		fs.in[k] = map[int]bool{}
	}
	fs.in[k][fs.at] = true
	if _, ok := fs.by[k]; !ok {
		fs.by[k] = &f
	}
}
func (fs *findings) merge(o *findings) {
	for k, f := range o.by {
		if _, ok := fs.by[k]; !ok {
			fs.by[k] = f
		}
		fs.n[k] += o.n[k]
	}
}
func (fs *findings) list() []finding {
	var out []finding
	for _, f := range fs.by {
		out = append(out, *f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].where != out[j].where {
			return out[i].where < out[j].where
		}
		return out[i].key() < out[j].key()
	})
	return out
}
