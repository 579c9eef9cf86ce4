package main

import "go/types"

// bufferModels models byte buffers that are only written to: field 0 holds what was written.
func bufferModels(ip *Interp) {
	bytesT := types.NewSlice(types.Typ[types.Byte])
	cell := func(v Value) (PtrV, bool) {
		p, ok := v.(PtrV)
		if !ok || p.isElem {
			return p, false
		}
		p.path = fieldPath(p.path, 0)
		return p, true
	}
	content := func(ip *Interp, st *State, p PtrV) (SliceV, bool) {
		return ip.asSlice(st, ip.loadCell(st, p.obj, p.path, bytesT))
	}
	add := func(ip *Interp, st *State, cc *CallCtx, s SliceV, res func(s SliceV) Value) []*State {
		p, ok := cell(cc.args[0])
		if !ok {
			return ip.opaque(st, cc)
		}
		d, ok := content(ip, st, p)
		if !ok {
			return ip.opaque(st, cc)
		}
		ip.storeCell(st, p.obj, p.path, bytesT, ip.appended(st, d, s, types.Typ[types.Byte], cc.instr))
		cc.ret(ip, st, res(s))
		return []*State{st}
	}
	ip.Models["(*bytes.Buffer).Write"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		s, ok := ip.asSlice(st, cc.args[1])
		if !ok {
			return ip.opaque(st, cc)
		}
		return add(ip, st, cc, s, func(s SliceV) Value { return TupleV{IntV{p: s.len}, NilV{}} })
	}
	ip.Models["(*bytes.Buffer).WriteByte"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		r := ip.newRegion(st, "byte", types.Typ[types.Byte], false)
		ip.writeElem(st, r, Const(0), cc.args[1])
		return add(ip, st, cc, SliceV{reg: r, off: Const(0), len: Const(1), cap: Const(1)}, func(s SliceV) Value { return NilV{} })
	}
	query := func(f func(s SliceV) Value) Model {
		return func(ip *Interp, st *State, cc *CallCtx) []*State {
			if p, ok := cell(cc.args[0]); ok {
				if s, ok := content(ip, st, p); ok {
					cc.ret(ip, st, f(s))
					return []*State{st}
				}
			}
			return ip.opaque(st, cc)
		}
	}
	ip.Models["(*bytes.Buffer).Bytes"] = query(func(s SliceV) Value { return s })
	ip.Models["(*bytes.Buffer).Len"] = query(func(s SliceV) Value { return IntV{p: s.len} })
	cut := func(ip *Interp, st *State, cc *CallCtx, n Poly) []*State {
		if p, ok := cell(cc.args[0]); ok {
			if s, ok := content(ip, st, p); ok {
				if !ip.oblige(st, "slice", Le(Const(0), n), "buffer truncated to a negative length") ||
					!ip.oblige(st, "slice", Le(n, s.len), "buffer truncated to more than it holds") {
					return nil
				}
				s.len = n
				ip.storeCell(st, p.obj, p.path, bytesT, s)
				return []*State{st}
			}
		}
		return ip.opaque(st, cc)
	}
	ip.Models["(*bytes.Buffer).Truncate"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		n, ok := cast(cc.args[1])
		if !ok || n.wrap {
			return ip.opaque(st, cc)
		}
		return cut(ip, st, cc, n.p)
	}
	ip.Models["(*bytes.Buffer).Reset"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		return cut(ip, st, cc, Const(0))
	}
	ip.Models["(*bytes.Buffer).Grow"] = func(ip *Interp, st *State, cc *CallCtx) []*State { return []*State{st} }
	ip.Models["bytes.NewBuffer"] = func(ip *Interp, st *State, cc *CallCtx) []*State {
		t := deref(cc.sig.Results().At(0).Type())
		o := ip.newObj("buffer", t, true)
		ip.storeCell(st, o, fieldPath("", 0), bytesT, cc.args[0])
		cc.ret(ip, st, PtrV{obj: o})
		return []*State{st}
	}
}
