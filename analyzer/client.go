package main

// Helpers shared by the checks.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// reportAt records a finding at a given instruction.
func (ip *Interp) reportAt(st *State, in ssa.Instruction, rule, msg string) {
	save := st.ipos
	if in != nil {
		st.ipos = in
	}
	ip.report(st, rule, msg)
	st.ipos = save
}

// modes splits a state so that a mode ghost has a constant value, at most max.
func modes(st *State, key string, max int64) map[int64]*State {
	out := map[int64]*State{}
	v, ok := st.ghost[key].(IntV)
	if !ok {
		out[0] = st
		return out
	}
	if c, isc := v.p.IsConst(); isc {
		out[c] = st
		return out
	}
	for i := int64(0); i <= max; i++ {
		s := st.clone()
		if s.assume(Eq(v.p, Const(i))) {
			s.ghost[key] = IntV{p: Const(i)}
			out[i] = s
		}
	}
	return out
}

func sortedModes(m map[int64]*State) []int64 {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func gPoly(st *State, k string) Poly {
	if v, ok := st.ghost[k].(IntV); ok {
		return v.p
	}
	return Const(0)
}

func gPut(st *State, k string, p Poly) { st.ghost[k] = IntV{p: p} }

// freshArgs makes arguments for a root function: interfaces and functions are not nil.
func (c *Checker) freshArgs(ip *Interp, st *State, fn *ssa.Function) []Value {
	var out []Value
	for _, p := range fn.Params {
		first := Atom(len(atoms))
		v := ip.fresh(st, p.Name(), p.Type())
		if s, ok := v.(*SymV); ok && s.err == nil {
			s.nonnil = true
		}
		for a := first; a < Atom(len(atoms)); a++ {
			ip.prog.inputAtoms[a] = true
		}
		out = append(out, v)
	}
	return out
}

// errResult gives the error result of a function's return state, nil if it has none.
func errResult(fn *ssa.Function, st *State) (Value, bool) {
	r := fn.Signature.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if isErrorType(r.At(i).Type()) && i < len(st.results) {
			return st.results[i], true
		}
	}
	return nil, false
}

// splitErr splits a return state into success and failure.
func (ip *Interp) splitErr(fn *ssa.Function, st *State) (ok, bad *State) {
	e, has := errResult(fn, st)
	if !has {
		return st, nil
	}
	return st.fork(ip.isNil(st, e))
}

// handled tells if an error is known to be nil or one of the given sentinels.
func (ip *Interp) handled(st *State, e *SymV, sentinels []string) bool {
	if st.prove(ip.isNil(st, e)) {
		return true
	}
	for _, s := range sentinels {
		if st.prove(ip.errMatches(st, e, s).r) {
			return true
		}
	}
	// A conjunction of facts may only be contradictory with a failure.
	t := st.clone()
	if !t.assume(ip.isNil(st, e).Neg()) {
		return true
	}
	for _, s := range sentinels {
		if !t.assume(ip.errMatches(t, e, s).r.Neg()) {
			return true
		}
	}
	return false
}

// errRule reports errors that were returned to the analysed code, and that it ignores.
func (c *Checker) errRule(ip *Interp, st *State, rule string, sentinels []string, skip func(u *errUse) bool, when string) {
	for _, u := range st.errs {
		if skip != nil && skip(u) {
			continue
		}
		ip.Obligations++
		if ip.handled(st, u.e, sentinels) {
			continue
		}
		ip.reportAt(st, u.ev.instr, rule, fmt.Sprintf("an error of %s may be dropped: %s", shortName(u.ev.name), when))
	}
}

// methodsOf lists the methods of a named type and its pointer type that are declared in the module.
func (p *Program) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		fn := p.ssa.FuncValue(n.Method(i))
		if fn != nil && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	return out
}

// namedTypes lists the named types of a package.
func (p *Program) namedTypes(rel string) []*types.Named {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	var out []*types.Named
	for _, n := range pk.Scope().Names() {
		if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				out = append(out, nt)
			}
		}
	}
	return out
}

// pkgFuncs lists the functions of a package with source, also methods, not literals.
func (p *Program) pkgFuncs(rel string) []*ssa.Function {
	path := p.module
	if rel != "" {
		path += "/" + rel
	}
	var out []*ssa.Function
	for _, fn := range p.SrcFuncs() {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == path && fn.Parent() == nil {
			out = append(out, fn)
		}
	}
	return out
}

func hasErrResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isErrorType(r.At(i).Type()) {
			return true
		}
	}
	return false
}
