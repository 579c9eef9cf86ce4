package main

// Abstract memory: objects with cells, regions with update lists.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// newObj registers an object.
func (ip *Interp) newObj(name string, t types.Type, zero bool) ObjID {
	ip.objs = append(ip.objs, ObjInfo{name: name, typ: t, zero: zero})
	return ObjID(len(ip.objs) - 1)
}

// newRegion registers a region and gives it a content in st.
func (ip *Interp) newRegion(st *State, name string, elem types.Type, zero bool) Region {
	ip.regions = append(ip.regions, RegInfo{elem: elem, name: name, zero: zero})
	r := Region(len(ip.regions) - 1)
	st.regs[r] = ip.newContent(zero)
	return r
}

func (ip *Interp) newContent(zero bool) *RegContent {
	ip.genSeq++
	return &RegContent{zero: zero, gen: ip.genSeq, atom: NewAtom("gen")}
}

func (ip *Interp) content(st *State, r Region) *RegContent {
	if c, ok := st.regs[r]; ok {
		return c
	}
	// An input region: its initial content is the same in all states.
	c, ok := ip.initRegs[r]
	if !ok {
		c = ip.newContent(ip.regions[r].zero)
		ip.prog.inputAtoms[c.atom] = true
		ip.initRegs[r] = c
	}
	st.regs[r] = c
	return c
}

// arrayRegion is the region holding an array inside an object.
func (ip *Interp) arrayRegion(st *State, obj ObjID, path string, t *types.Array) Region {
	k := cellKey{obj, path}
	if r, ok := ip.arrRegs[k]; ok {
		return r
	}
	info := ip.objs[obj]
	ip.regions = append(ip.regions, RegInfo{obj: obj, path: path, elem: t.Elem(), name: info.name + path, zero: info.zero})
	r := Region(len(ip.regions) - 1)
	ip.arrRegs[k] = r
	return r
}

// bitRegion is the region of the single bits of a byte region used as a bitmap.
func (ip *Interp) bitRegion(st *State, r Region) Region {
	if b, ok := ip.bitRegs[r]; ok {
		return b
	}
	ip.regions = append(ip.regions, RegInfo{elem: types.Typ[types.Bool], name: ip.regions[r].name + ".bits", zero: ip.regions[r].zero})
	b := Region(len(ip.regions) - 1)
	ip.bitRegs[r] = b
	return b
}

// ------------------------------------------------------------------------ values of types

func (ip *Interp) zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{p: Const(0)}
		case u.Info()&types.IsBoolean != 0:
			return boolConst(false)
		case u.Info()&types.IsString != 0:
			return StrV{constTerm("")}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return FloatV{}
	case *types.Struct:
		s := StructV{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ip.zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return ArrayV{ip.newContent(true), u.Len(), u.Elem()}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = ip.zeroValue(u.At(i).Type())
		}
		return tv
	}
	return NilV{}
}

func (ip *Interp) newSym(t types.Type, name string) *SymV {
	ip.symSeq++
	return &SymV{id: ip.symSeq, typ: t, name: name, nilAtom: -1}
}

// maybeNil makes a symbol that may be nil.
func (ip *Interp) maybeNil(t types.Type, name string) *SymV {
	s := ip.newSym(t, name)
	s.nilAtom = NewAtomRange("nil("+name+")", 0, 1)
	return s
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return false
	}
	return types.Implements(t, errorType.Underlying().(*types.Interface))
}

// unknownErr makes an unknown error, possibly nil.
func (ip *Interp) unknownErr(t types.Type, name string) *SymV {
	s := ip.maybeNil(t, name)
	s.err = &errInfo{unknown: true}
	return s
}

// fresh makes an unknown value of a type.
func (ip *Interp) fresh(st *State, name string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return freshInt(name, t)
		case u.Info()&types.IsBoolean != 0:
			return freshBool(name)
		case u.Info()&types.IsString != 0:
			ip.symSeq++
			return StrV{symTerm(name + "#" + strconv.Itoa(ip.symSeq))}
		}
		return FloatV{}
	case *types.Struct:
		s := StructV{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ip.fresh(st, name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		return ArrayV{ip.newContent(false), u.Len(), u.Elem()}
	case *types.Pointer:
		o := ip.newObj(name, u.Elem(), false)
		ip.objs[o].param = true
		return PtrV{obj: o}
	case *types.Slice:
		return ip.freshSlice(st, name, u.Elem())
	case *types.Interface:
		if isErrorType(t) {
			return ip.unknownErr(t, name)
		}
		s := ip.maybeNil(t, name)
		return s
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = ip.fresh(st, name+"."+strconv.Itoa(i), u.At(i).Type())
		}
		return tv
	case *types.Map:
		o := ip.newObj(name, t, false)
		return MapV{o}
	case *types.Signature:
		s := ip.newSym(t, name)
		s.nonnil = true
		return s
	}
	return ip.maybeNil(t, name)
}

func (ip *Interp) freshSlice(st *State, name string, elem types.Type) SliceV {
	r := ip.newRegion(st, name, elem, false)
	ip.initRegs[r] = st.regs[r]
	l := NewAtomMin("len("+name+")", 0)
	// An allocation never exceeds 2^48 bytes.
	atoms[l].Hi, atoms[l].HasHi = 1<<48, true
	c := NewAtomMin("cap("+name+")", 0)
	st.addFact(Le(AtomPoly(l), AtomPoly(c)))
	n := NewAtomRange("nil("+name+")", 0, 1)
	// A nil slice is empty: len <= (1-nil) * big
	st.addFact(Rel{Const(1 << 48).Sub(AtomPoly(n).Mul(Const(1 << 48))).Sub(AtomPoly(l)), GE})
	return SliceV{reg: r, off: Const(0), len: AtomPoly(l), cap: AtomPoly(c), hasNil: true, nilAtom: n}
}

// ------------------------------------------------------------------------ pointers

func fieldPath(path string, i int) string { return path + "." + strconv.Itoa(i) }

func (ip *Interp) load(st *State, p PtrV, t types.Type) []stVal {
	if p.isElem && p.array > 0 {
		n := p.array - 1
		r := ip.newRegion(st, "array", ip.regions[p.reg].elem, false)
		ip.copyRange(st, r, Const(0), p.reg, p.idx, Const(n))
		return []stVal{{st, ArrayV{ip.content(st, r), n, ip.regions[p.reg].elem}}}
	}
	if p.isElem {
		var out []stVal
		for _, sv := range ip.readElem(st, p.reg, p.idx) {
			out = append(out, stVal{sv.st, subValue(sv.v, p.sub)})
		}
		return out
	}
	return []stVal{{st, ip.loadCell(st, p.obj, p.path, t)}}
}

func subValue(v Value, sub string) Value {
	for sub != "" {
		sub = sub[1:]
		n := strings.IndexByte(sub, '.')
		var part string
		if n < 0 {
			part, sub = sub, ""
		} else {
			part, sub = sub[:n], sub[n:]
		}
		i, _ := strconv.Atoi(part)
		s, ok := v.(StructV)
		if !ok || i >= len(s.f) {
			return nil
		}
		v = s.f[i]
	}
	return v
}

func setSubValue(v Value, sub string, x Value) Value {
	if sub == "" {
		return x
	}
	rest := sub[1:]
	n := strings.IndexByte(rest, '.')
	part := rest
	if n < 0 {
		rest = ""
	} else {
		part, rest = rest[:n], rest[n:]
	}
	i, _ := strconv.Atoi(part)
	s, ok := v.(StructV)
	if !ok || i >= len(s.f) {
		return nil
	}
	f := append([]Value(nil), s.f...)
	f[i] = setSubValue(f[i], rest, x)
	return StructV{f}
}

func (ip *Interp) loadCell(st *State, obj ObjID, path string, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := StructV{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = ip.loadCell(st, obj, fieldPath(path, i), u.Field(i).Type())
		}
		return s
	case *types.Array:
		r := ip.arrayRegion(st, obj, path, u)
		return ArrayV{ip.content(st, r), u.Len(), u.Elem()}
	}
	k := cellKey{obj, path}
	if v, ok := st.cells[k]; ok {
		return v
	}
	v, ok := ip.initCells[k]
	if !ok {
		info := ip.objs[obj]
		if info.zero {
			v = ip.zeroValue(t)
		} else {
			first := Atom(len(atoms))
			v = ip.fresh(st, info.name+ip.fieldName(info.typ, path), t)
			ip.fixInput(v)
			ip.initCells[k] = v
			if ip.OnInput != nil {
				if w := ip.OnInput(st, obj, path, t, v); w != nil {
					v = w
					ip.initCells[k] = v
				}
			}
			for a := first; a < Atom(len(atoms)); a++ {
				ip.prog.inputAtoms[a] = true
			}
		}
	}
	if sv, isS := v.(SliceV); isS {
		ip.sliceFacts(st, sv)
	}
	st.cells[k] = v
	return v
}

// sliceFacts makes the constraints tying a slice's length, capacity and nilness part of the state.
func (ip *Interp) sliceFacts(st *State, sv SliceV) {
	st.addFact(Le(sv.len, sv.cap))
	if sv.hasNil {
		st.addFact(Rel{Const(1 << 48).Sub(AtomPoly(sv.nilAtom).Mul(Const(1 << 48))).Sub(sv.len), GE})
	}
}

// fixInput: interfaces and functions stored in input objects are never nil.
func (ip *Interp) fixInput(v Value) {
	if s, ok := v.(*SymV); ok && s.err == nil {
		s.nonnil = true
	}
}

func (ip *Interp) fieldName(t types.Type, path string) string {
	if t == nil {
		return path
	}
	out := ""
	for path != "" {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return out + path
		}
		rest := path[1:]
		n := strings.IndexByte(rest, '.')
		part := rest
		if n < 0 {
			path = ""
		} else {
			part, path = rest[:n], rest[n:]
		}
		i, _ := strconv.Atoi(part)
		if i >= s.NumFields() {
			return out + "." + part + path
		}
		out += "." + s.Field(i).Name()
		t = s.Field(i).Type()
	}
	return out
}

func (ip *Interp) store(st *State, p PtrV, t types.Type, v Value) []*State {
	if p.isElem && p.array > 0 {
		n := Const(p.array - 1)
		a, ok := v.(ArrayV)
		if !ok {
			ip.havocRange(st, p.reg, p.idx, p.idx.Add(n))
			return []*State{st}
		}
		r := ip.newRegion(st, "array", a.elem, false)
		st.regs[r] = a.content
		ip.copyRange(st, p.reg, p.idx, r, Const(0), n)
		return []*State{st}
	}
	if p.isElem {
		if p.sub == "" {
			ip.writeElem(st, p.reg, p.idx, v)
			return []*State{st}
		}
		var out []*State
		for _, sv := range ip.readElem(st, p.reg, p.idx) {
			ip.writeElem(sv.st, p.reg, p.idx, setSubValue(sv.v, p.sub, v))
			out = append(out, sv.st)
		}
		return out
	}
	ip.storeCell(st, p.obj, p.path, t, v)
	return []*State{st}
}

func (ip *Interp) storeCell(st *State, obj ObjID, path string, t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			if ok && i < len(s.f) {
				f = s.f[i]
			}
			if f == nil {
				f = ip.fresh(st, "?", u.Field(i).Type())
			}
			ip.storeCell(st, obj, fieldPath(path, i), u.Field(i).Type(), f)
		}
		return
	case *types.Array:
		r := ip.arrayRegion(st, obj, path, u)
		if a, ok := v.(ArrayV); ok {
			st.regs[r] = a.content
		} else {
			st.regs[r] = ip.newContent(false)
		}
		return
	}
	if v == nil {
		v = ip.fresh(st, "?", t)
	}
	st.cells[cellKey{obj, path}] = v
}

// ------------------------------------------------------------------------ regions

func (c *RegContent) push(w Write) *RegContent {
	n := &RegContent{zero: c.zero, gen: c.gen, atom: c.atom}
	n.w = append(c.w[:len(c.w):len(c.w)], w)
	return n
}

const maxWrites = 24

func (ip *Interp) writeElem(st *State, r Region, idx Poly, v Value) {
	c := ip.content(st, r)
	if v == nil {
		v = ip.fresh(st, "?", ip.regions[r].elem)
	}
	// Drop an earlier write of the same element.
	if n := len(c.w); n > 0 && c.w[n-1].src == nil && c.w[n-1].lo.Equal(idx) && c.w[n-1].hi.Equal(idx.AddConst(1)) {
		c = &RegContent{zero: c.zero, gen: c.gen, atom: c.atom, w: c.w[: n-1 : n-1]}
	}
	st.regs[r] = c.push(Write{lo: idx, hi: idx.AddConst(1), val: v})
	ip.touchBits(st, r)
	if ip.OnWrite != nil {
		ip.OnWrite(st, r, idx, idx.AddConst(1))
	}
}

// touchBits forgets what is known about single bits when whole bytes are written.
func (ip *Interp) touchBits(st *State, r Region) {
	if b, ok := ip.bitRegs[r]; ok {
		st.regs[b] = ip.newContent(false)
	}
}

func (ip *Interp) fillRange(st *State, r Region, lo, hi Poly, v Value) {
	st.regs[r] = ip.content(st, r).push(Write{lo: lo, hi: hi, val: v})
	ip.touchBits(st, r)
	if ip.OnWrite != nil {
		ip.OnWrite(st, r, lo, hi)
	}
}

// tracked lists the indices of a region that are followed through loops: where reversing put the elements.
func (ip *Interp) tracked(st *State, r Region) []Poly {
	out := ip.Track(st, r)
	if c := st.regs[r]; c != nil {
		for _, w := range c.w {
			if w.rev {
				moved := make([]Poly, len(out))
				for k, i := range out {
					moved[k] = w.delta.Sub(i)
				}
				out = moved
			}
		}
	}
	return out
}

// reverseRange puts the elements of a range in the opposite order.
func (ip *Interp) reverseRange(st *State, r Region, lo, hi Poly) {
	c := ip.content(st, r)
	st.regs[r] = c.push(Write{lo: lo, hi: hi, src: c, srcReg: r, delta: lo.Add(hi).AddConst(-1), rev: true})
	ip.touchBits(st, r)
	if ip.OnWrite != nil {
		ip.OnWrite(st, r, lo, hi)
	}
}

// havocRange makes a range of a region unknown.
func (ip *Interp) havocRange(st *State, r Region, lo, hi Poly) {
	st.regs[r] = ip.content(st, r).push(Write{lo: lo, hi: hi, src: ip.newContent(false), srcReg: r, delta: Const(0)})
	ip.touchBits(st, r)
	if ip.OnWrite != nil {
		ip.OnWrite(st, r, lo, hi)
	}
}

// copyRange copies n elements.
func (ip *Interp) copyRange(st *State, dst Region, dlo Poly, src Region, slo Poly, n Poly) {
	if c, ok := n.IsConst(); ok && c == 0 {
		return
	}
	sc := ip.content(st, src)
	st.regs[dst] = ip.content(st, dst).push(Write{lo: dlo, hi: dlo.Add(n), src: sc, srcReg: src, delta: slo.Sub(dlo)})
	sb, sok := ip.bitRegs[src]
	if _, dok := ip.bitRegs[dst]; dok || sok {
		sb = ip.bitRegion(st, src)
		db := ip.bitRegion(st, dst)
		e := Const(8)
		bc := ip.content(st, sb)
		st.regs[db] = ip.content(st, db).push(Write{lo: dlo.Mul(e), hi: dlo.Add(n).Mul(e), src: bc, srcReg: sb,
			delta: slo.Sub(dlo).Mul(e)})
	}
	if ip.OnWrite != nil {
		ip.OnWrite(st, dst, dlo, dlo.Add(n))
	}
}

// readElem reads an element, splitting the state where it depends on which update applies.
func (ip *Interp) readElem(st *State, r Region, idx Poly) []stVal {
	if ip.Track != nil && len(ip.loopStack) > 0 && ip.SplitReads {
		// Within loops, reading the element that is followed is told apart from reading any other.
		for _, t := range ip.tracked(st, r) {
			if t.Equal(idx) {
				continue
			}
			at, other := st.fork(Eq(idx, t))
			if at == nil {
				continue
			}
			if ip.SplitPreds {
				ip.notePred(idx.Sub(t))
			}
			out := ip.readContent(at, ip.content(at, r), r, t)
			if other != nil {
				out = append(out, ip.readContent(other, ip.content(other, r), r, idx)...)
			}
			return out
		}
	}
	return ip.readContent(st, ip.content(st, r), r, idx)
}

func (ip *Interp) readContent(st *State, c *RegContent, r Region, idx Poly) []stVal {
	cur := st
	var out []stVal
	for i := len(c.w) - 1; i >= 0 && cur != nil; i-- {
		w := c.w[i]
		var in []*State
		// Single elements first, they give equalities.
		if w.hi.Sub(w.lo).Equal(Const(1)) {
			ip.notePred(idx.Sub(w.lo))
			y, n := cur.fork(Eq(idx, w.lo))
			if y != nil {
				in = append(in, y)
			}
			cur = n
		} else {
			ip.notePred(idx.Sub(w.lo))
			ip.notePred(idx.Sub(w.hi))
			ge, lt := cur.fork(Le(w.lo, idx))
			cur = nil
			var gehi *State
			if ge != nil {
				var y *State
				y, gehi = ge.fork(Lt(idx, w.hi))
				if y != nil {
					in = append(in, y)
				}
			}
			var rest []*State
			if lt != nil {
				rest = append(rest, lt)
			}
			if gehi != nil {
				rest = append(rest, gehi)
			}
			if len(rest) == 2 {
				// Both sides of the range: continue with each.
				sub := &RegContent{zero: c.zero, gen: c.gen, atom: c.atom, w: c.w[:i:i]}
				for _, s := range rest {
					out = append(out, ip.readContent(s, sub, r, idx)...)
				}
			} else if len(rest) == 1 {
				cur = rest[0]
			}
		}
		for _, y := range in {
			if w.src != nil {
				at := idx.Add(w.delta)
				if w.rev {
					at = w.delta.Sub(idx)
				}
				out = append(out, ip.readContent(y, w.src, w.srcReg, at)...)
			} else {
				out = append(out, stVal{y, w.val})
			}
		}
	}
	if cur == nil {
		return out
	}
	if c.zero {
		return append(out, stVal{cur, ip.zeroValue(ip.regions[r].elem)})
	}
	// The base content: the same index always gives the same value.
	if sb := ip.StrBytes; sb != nil {
		if t := sb.term[c.gen]; t != nil {
			return append(out, sb.at(cur, t, idx)...)
		}
		return append(out, sb.marked(ip.readBase(cur, c, r, idx), c.gen, idx)...)
	}
	return append(out, ip.readBase(cur, c, r, idx)...)
}

// readBase reads the base content of a region.
func (ip *Interp) readBase(cur *State, c *RegContent, r Region, idx Poly) []stVal {
	k := genKey{c.gen, idx.Key()}
	if v, ok := ip.genVals[k]; ok {
		return []stVal{{cur, v}}
	}
	// Elements at indices from before the loops are named after those, so that facts on them outlive an iteration.
	var also Value
	stable := !ip.leafy(idx)
	for _, e := range ip.genIdx[c.gen] {
		if cur.proveEq(e, idx) {
			if w, isInt := ip.genVals[genKey{c.gen, e.Key()}].(IntV); isInt && !w.wrap && stable && ip.leafy(e) {
				also = w
				continue
			}
			return []stVal{{cur, ip.genVals[genKey{c.gen, e.Key()}]}}
		}
	}
	first := Atom(len(atoms))
	v := ip.fresh(cur, fmt.Sprintf("%s.%d[%s]", ip.regions[r].name, c.gen, idx), ip.regions[r].elem)
	if ip.OnElem != nil {
		if w := ip.OnElem(cur, r, c.gen, idx, v); w != nil {
			v = w
		}
	}
	deps := []Atom{c.atom}
	idx.Atoms(func(a Atom) { deps = append(deps, a) })
	for a := first; a < Atom(len(atoms)); a++ {
		memoDeps[a] = deps
	}
	ip.genVals[k] = v
	ip.genIdx[c.gen] = append(ip.genIdx[c.gen], idx)
	if w, ok := also.(IntV); ok {
		if x, ok := v.(IntV); ok && !x.wrap {
			cur.addFact(Eq(x.p, w.p))
		}
	}
	return []stVal{{cur, v}}
}

// leafy tells if a value depends on what varies in a loop being analysed.
func (ip *Interp) leafy(p Poly) bool {
	found := false
	p.Atoms(func(a Atom) {
		for _, ls := range ip.loopStack {
			found = found || ls.isLeaf[a]
		}
	})
	return found
}

type genKey struct {
	gen int
	idx string
}

// forcedContent gives a region an unknown content in which one element has a given value.
func (ip *Interp) forcedContent(idx Poly, v Value) *RegContent {
	c := ip.newContent(false)
	return c.push(Write{lo: idx, hi: idx.AddConst(1), val: v})
}
