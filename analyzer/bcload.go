package main

// Functions of the block cache that leave a range of blocks loaded. The analysis follows one arbitrary block only, so
// that it does not know that none of the others is fetched when a range is loaded a second time. Where a function, whenever
// it succeeds, leaves the arbitrary block loaded if it is in the range asked for, it does so for every block.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type bcLoads struct {
	ok, bad map[*ssa.Function]bool
	ranges  map[string][2]Poly // indices of the marks
	regs    map[string]Region
}

// proven gives the functions that always leave the blocks loaded.
func (l *bcLoads) proven() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range l.ok {
		if !l.bad[f] {
			out[f] = true
		}
	}
	return out
}

// loadedRegion is the region of the marks of loaded blocks, and the index of the mark of block 0.
func (q *bcRun) loadedRegion(st *State) (Region, Poly) {
	s := q.slice(st, q.sh.loaded)
	if s.reg == 0 {
		return 0, Poly{}
	}
	if q.isBoolSlice(q.sh.loaded) {
		return s.reg, s.off
	}
	return q.ip.bitRegion(st, s.reg), s.off.Mul(Const(8))
}

// blockRange finds the parameters with the first block and the number of blocks.
func (q *bcRun) blockRange(fn *ssa.Function) (start, count *ssa.Parameter) {
	res := fn.Signature.Results()
	if fn.Signature.Recv() == nil || namedOf(deref(fn.Params[0].Type())) != q.sh.named || res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) || len(fn.Params) != 3 {
		return nil, nil
	}
	for _, p := range fn.Params[1:] {
		b, ok := p.Type().Underlying().(*types.Basic)
		switch {
		case !ok || b.Info()&types.IsInteger == 0:
			return nil, nil
		case namedOf(p.Type()) != nil && start == nil:
			start = p
		case namedOf(p.Type()) == nil && count == nil:
			count = p
		default:
			return nil, nil
		}
	}
	return start, count
}

// watchLoads looks for such functions, and makes use of those already known.
func (q *bcRun) watchLoads(known map[*ssa.Function]bool) {
	const ghost = "blocks loaded"
	ip := q.ip
	q.loads = &bcLoads{ok: map[*ssa.Function]bool{}, bad: map[*ssa.Function]bool{}, ranges: map[string][2]Poly{}, regs: map[string]Region{}}
	ip.OnReturn = func(ip *Interp, st *State, fn *ssa.Function, res []Value) {
		sp, cp := q.blockRange(fn)
		if sp == nil || cp == nil {
			return
		}
		start, ok := cast(ip.eval(st, sp))
		count, ok2 := cast(ip.eval(st, cp))
		if !ok || !ok2 || start.wrap || count.wrap {
			q.loads.bad[fn] = true
			return
		}
		end := start.p.Add(count.p)
		nilErr := ip.isNil(st, res[len(res)-1])
		s := st.clone()
		if !s.assume(nilErr) {
			return
		}
		if known[fn] {
			if !st.prove(nilErr) {
				return
			}
			r, off := q.loadedRegion(st)
			if r == 0 {
				return
			}
			key := fmt.Sprintf("%d|%s|%s|%s", r, off.Key(), start.p.Key(), end.Key())
			q.loads.regs[key] = r
			q.loads.ranges[key] = [2]Poly{off.Add(start.p), off.Add(end)}
			st.ghost[ghost] = StrV{constTerm(key)}
			return
		}
		if !s.assume(Le(start.p, q.k)) || !s.assume(Lt(q.k, end)) {
			return
		}
		q.loads.ok[fn] = true
		for _, sv := range q.bit(s, q.sh.loaded, q.k) {
			if b, ok := sv.v.(BoolV); !ok || !sv.st.prove(b.r) {
				q.loads.bad[fn] = true
			}
		}
	}
	if len(known) == 0 {
		return
	}
	// recorded gives the region and range of marks that are set.
	recorded := func(st *State) (Region, [2]Poly) {
		if g, ok := st.ghost[ghost].(StrV); ok && g.t.op == "const" {
			if r, found := q.loads.regs[g.t.c]; found {
				return r, q.loads.ranges[g.t.c]
			}
		}
		return 0, [2]Poly{}
	}
	// Whatever else than setting marks is done to them ends this.
	write := ip.OnWrite
	ip.OnWrite = func(st *State, r Region, lo, hi Poly) {
		if write != nil {
			write(st, r, lo, hi)
		}
		if m, _ := recorded(st); m != 0 && (r == m || ip.bitRegs[r] == m) {
			delete(st.ghost, ghost)
		}
	}
	get := func(ip *Interp, st *State, cc *CallCtx) []*State {
		b, i, ok := ip.bitIndexOf(st, cc)
		if !ok {
			return nil
		}
		m, rg := recorded(st)
		var out []*State
		for _, sv := range ip.readElem(st, b, i) {
			if v, isBool := sv.v.(BoolV); m == b && isBool && sv.st.prove(Le(rg[0], i)) && sv.st.prove(Lt(i, rg[1])) {
				if !sv.st.assume(v.r) {
					continue
				}
			}
			cc.ret(ip, sv.st, sv.v)
			out = append(out, sv.st)
		}
		return out
	}
	set := func(ip *Interp, st *State, cc *CallCtx) []*State {
		old, had := st.ghost[ghost]
		v, isBool := cc.args[2].(BoolV)
		keep := had && isBool && st.prove(v.r)
		out := modelBitSet(ip, st, cc)
		if keep {
			for _, s := range out {
				s.ghost[ghost] = old
			}
		}
		return out
	}
	for _, t := range []string{"github.com/boljen/go-bitmap.", "(github.com/boljen/go-bitmap.Bitmap)."} {
		ip.Models[t+"Get"], ip.Models[t+"Set"] = get, set
	}
}
