package main

import (
	"go/types"
	"strings"
)

// Models of functions of the standard library that work on slices.

func sliceModels() {
	stdModels["bytes.Clone"] = modelClone
	stdModels["slices.Clone"] = modelClone
	stdModels["slices.Contains"] = modelIndex(true)
	stdModels["slices.Index"] = modelIndex(false)
	stdModels["bytes.IndexByte"] = modelIndex(false)
	stdModels["slices.Concat"] = pureFresh
	stdModels["slices.Reverse"] = func(ip *Interp, st *State, c *CallCtx) []*State {
		s, ok := ip.asSlice(st, c.args[0])
		if !ok {
			return pureFresh(ip, st, c)
		}
		if s.reg != 0 {
			ip.reverseRange(st, s.reg, s.off, s.off.Add(s.len))
		}
		c.ret(ip, st, nil)
		return []*State{st}
	}
}

// modelClone gives a copy of a slice, nil for a nil slice.
func modelClone(ip *Interp, st *State, c *CallCtx) []*State {
	s, ok := ip.asSlice(st, c.args[0])
	t, ok2 := c.sig.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok || !ok2 {
		return pureFresh(ip, st, c)
	}
	if s.reg == 0 {
		c.ret(ip, st, c.args[0])
		return []*State{st}
	}
	r := ip.newRegion(st, "clone@"+ip.posOf(c.instr), t.Elem(), false)
	ip.copyRange(st, r, Const(0), s.reg, s.off, s.len)
	capAtom := NewAtomMin("cap(clone)", 0)
	st.addFact(Le(s.len, AtomPoly(capAtom)))
	res := SliceV{reg: r, off: Const(0), len: s.len, cap: AtomPoly(capAtom), hasNil: s.hasNil, nilAtom: s.nilAtom}
	ip.sliceFacts(st, res)
	c.ret(ip, st, res)
	return []*State{st}
}

// modelIndex gives the first position of a value in a short slice, -1 if it is not there, or whether there
// is one.
func modelIndex(contains bool) Model {
	return func(ip *Interp, st *State, c *CallCtx) []*State {
		s, n, ok := ip.sliceLen(st, c.args[0])
		k, isc := n.IsConst()
		if ok && (!isc || k > 32) && c.callee != nil && len(c.callee.Blocks) > 0 {
			ip.pushFrame(st, c.callee, c.args, nil, c)
			return []*State{st}
		}
		if !ok || !isc || k > 32 {
			return pureFresh(ip, st, c)
		}
		ret := func(x *State, i int64) {
			if contains {
				c.ret(ip, x, boolConst(i >= 0))
			} else {
				c.ret(ip, x, IntV{p: Const(i)})
			}
		}
		var out []*State
		cur := []*State{st}
		for i := int64(0); i < k; i++ {
			var next []*State
			for _, x := range cur {
				for _, sv := range ip.readElem(x, s.reg, s.off.AddConst(i)) {
					for _, eq := range ip.equal(sv.st, sv.v, c.args[1]) {
						bv, ok := eq.v.(BoolV)
						if !ok {
							bv = freshBool("?eq")
						}
						yes, no := eq.st.fork(bv.r)
						if yes != nil {
							ret(yes, i)
							out = append(out, yes)
						}
						if no != nil {
							next = append(next, no)
						}
					}
				}
			}
			cur = next
		}
		for _, x := range cur {
			ret(x, -1)
			out = append(out, x)
		}
		return out
	}
}

// pureCall reports whether a function of the standard library changes nothing it is given.
func pureCall(name string) bool {
	pkg, fn, ok := strings.Cut(name, ".")
	if !ok || strings.HasPrefix(name, "(") {
		return false
	}
	switch pkg {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "path", "path/filepath", "cmp":
		return fn != "NewBuffer" && fn != "NewReader" && fn != "NewReplacer"
	case "slices":
		for _, p := range []string{"Contains", "Index", "Equal", "Compare", "BinarySearch", "IsSorted", "Max", "Min"} {
			if strings.HasPrefix(fn, p) {
				return true
			}
		}
	}
	return false
}
