package main

// Loops: the states at a loop header are partitioned by the position of the loop's induction expressions
// relative to the tracked elements; for every partition an inductive set of facts is computed by starting
// from candidate facts that hold on entry and dropping the ones an iteration does not preserve.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loc struct {
	kind byte // 'p' phi, 'c' cell, 'g' ghost, 'e' tracked element, 'm' key of a map
	id   string
	typ  types.Type
	phi  ssa.Value
	cell cellKey
	gkey string
	reg  Region
	idx  Poly
	key  Value // 'm': key of a map
	own  *loc  // 'e': the slice that the element is counted in, for slices that are replaced in the loop
}

type loopSolve struct {
	ip    *Interp
	loop  *loopInfo
	depth int
	locs  map[string]*loc
	order []string
	regs  map[Region]bool
	maps  map[ObjID]bool
	preds map[string]Poly
	// leaf atoms
	leafAtoms map[string]Atom
	isLeaf    map[Atom]bool
	mark      Atom
	objMark   ObjID
	regMark   Region
	// learned by discovery
	discovered bool
	deltas     []map[string]Poly
	guards     []Rel
	// conditions of branches that do not depend on what varies, such as those on elements followed
	fixedGuards []Rel
	dirtyMod    bool
	pool        []Rel // facts of all partitions
	entry       *State
	hasErrs     bool
	bodyEvents  int
	handles     map[string]*HandleV
	handleIDs   map[int]bool
	// Slices that grow: each is seen as a sequence of its own.
	grow    map[string]Region
	nilOnce Atom
	// Numbers that change in steps, by leaf.
	strides  map[string]int64
	noStride map[string]bool
}

// HandleV is how a location holding a resource handle is seen by the loop analysis: the handle is followed as a
// value with a typestate, whatever object represents it.
type HandleV struct {
	dyn   types.Type // type of the object around the handle, nil if there is none
	sym   *SymV
	path  *Term
	mode  Poly
	state int64
}

// LoopHooks lets a client have resource handles followed through loops.
type LoopHooks struct {
	// View recognises values that are handles.
	View func(st *State, v Value) *HandleV
	// Make creates the object for a handle in a header state.
	Make func(st *State, h *HandleV) Value
	// Name is called for handles that stand for any of the handles arriving.
	Name func(h *HandleV)
	// Back is told about states at back edges, and which handles live on.
	Back func(st *State, entry *State, live map[*SymV]bool)
	// Keys gives a key of a map whose presence is followed.
	Keys func(st *State, m ObjID) []Value
	// ElemNote tells what is known of all elements of a slice that grows in a loop, entry being the state the loop is
	// entered in; SetElemNote gives such a slice elements of that kind, pos being a place in it if there is any.
	ElemNote    func(entry, st *State, v Value) int64
	SetElemNote func(h *State, s SliceV, note int64, pos Poly)
}

// handleKey is the typestate ghost of a handle.
func handleKey(s *SymV) string { return fmt.Sprintf("h/%d", s.id) }

func (ls *loopSolve) view(st *State, v Value) Value {
	if ls.ip.Hooks == nil {
		return v
	}
	switch v.(type) {
	case IfaceV, *SymV, PtrV:
		if h := ls.ip.Hooks.View(st, v); h != nil {
			return h
		}
	}
	return v
}

type shape struct {
	same  bool
	proto Value // nil: unknown value of the type
	fix   Value // the value of a mode ghost, or another one that is the same throughout the partition
	// Where a fixed value comes from: the partition, and in which round.
	from  string
	batch int
	flips int
}

// isMode tells if a location is a ghost whose values partition the states at loop headers.
func (l *loc) isMode() bool {
	return l.kind == 'm' || l.kind == 'n' || l.kind == 'g' && (strings.HasPrefix(l.gkey, "#") || strings.HasPrefix(l.gkey, "h/"))
}

// modeSig describes the values of the mode ghosts.
func (ls *loopSolve) modeSig(vals map[string]Value) string {
	s := ""
	for _, id := range ls.order {
		if ls.locs[id].isMode() {
			s += id + "=" + showVal(vals[id]) + ";"
		} else if h, ok := vals[id].(*HandleV); ok {
			s += fmt.Sprintf("%s:%d;", id, h.state)
		}
	}
	return s
}

type part struct {
	sig   string
	preds []Rel
	shape map[string]*shape
	// Locations that hold the same unknown object, and the one that stands for all of them.
	alias map[string]string
	facts []Rel
	dirty bool
	head  *State
	runs  int
}

type arrival struct {
	st   *State
	vals map[string]Value
	from string
	// round of the analysis
	batch int
}

var memoDeps = map[Atom][]Atom{}

func (ls *loopSolve) isOld(a Atom) bool {
	if ls.isLeaf[a] {
		return false
	}
	if a < ls.mark || ls.ip.prog.inputAtoms[a] {
		return true
	}
	if d, ok := memoDeps[a]; ok {
		for _, b := range d {
			if !ls.isOld(b) {
				return false
			}
		}
		return true
	}
	return false
}

func (ls *loopSolve) oldPoly(p Poly) bool {
	ok := true
	p.Atoms(func(a Atom) {
		if !ls.isOld(a) {
			ok = false
		}
	})
	return ok
}

func (ls *loopSolve) leafOrOld(p Poly) (ok, hasLeaf bool) {
	ok = true
	p.Atoms(func(a Atom) {
		if ls.isLeaf[a] {
			hasLeaf = true
		} else if !ls.isOld(a) {
			ok = false
		}
	})
	return
}

// leaves lists the integer components of a value.
func leaves(v Value, pre string, out map[string]Poly) {
	switch x := v.(type) {
	case IntV:
		out[pre] = x.p
	case BoolV:
		if p, ok := boolPoly(x); ok {
			out[pre] = p
		}
	case SliceV:
		out[pre+".off"] = x.off
		out[pre+".len"] = x.len
		out[pre+".cap"] = x.cap
		if x.hasNil {
			out[pre+".nil"] = AtomPoly(x.nilAtom)
		} else {
			out[pre+".nil"] = Const(0)
		}
	case PtrV:
		if x.isElem {
			out[pre+".idx"] = x.idx
		}
	case *SymV:
		if x.nonnil || x.nilAtom < 0 {
			out[pre+".nil"] = Const(0)
		} else {
			out[pre+".nil"] = AtomPoly(x.nilAtom)
		}
		// Whether an error is, or matches, the end of the input.
		if x.err != nil && x.err.unknown {
			if q, ok := memoIndex[fmt.Sprintf("erris/%d/%s", x.id, ioEOF)]; ok {
				out[pre+".iseof"] = q
			}
			if q, ok := memoIndex[fmt.Sprintf("erreq/%d/%s", x.id, ioEOF)]; ok {
				out[pre+".eof"] = q
			}
		}
	case NilV:
		out[pre+".nil"] = Const(1)
	case *HandleV:
		out[pre+".mode"] = x.mode
	case StructV:
		for i, f := range x.f {
			leaves(f, fmt.Sprintf("%s/%d", pre, i), out)
		}
	case IfaceV:
		leaves(x.v, pre+"/i", out)
	case TupleV:
		for i, f := range x {
			leaves(f, fmt.Sprintf("%s/%d", pre, i), out)
		}
	}
}

func boolPoly(b BoolV) (Poly, bool) {
	if c, ok := b.r.p.IsConst(); ok {
		t := (b.r.op == EQ && c == 0) || (b.r.op == NE && c != 0) || (b.r.op == GE && c >= 0)
		if t {
			return Const(1), true
		}
		return Const(0), true
	}
	if len(b.r.p.t) == 1 {
		t := b.r.p.t[0]
		as := monos[t.m].atoms
		if len(as) == 1 && atoms[as[0]].HasHi && atoms[as[0]].Hi == 1 && atoms[as[0]].HasLo && atoms[as[0]].Lo == 0 {
			a := AtomPoly(as[0])
			k, c := t.k, b.r.p.c
			// Which values of the atom satisfy the relation?
			holds := func(v int64) bool {
				s := k*v + c
				switch b.r.op {
				case EQ:
					return s == 0
				case NE:
					return s != 0
				}
				return s >= 0
			}
			switch {
			case holds(0) && holds(1):
				return Const(1), true
			case holds(1):
				return a, true
			case holds(0):
				return Const(1).Sub(a), true
			}
			return Const(0), true
		}
	}
	return Poly{}, false
}

func shapeKey(v Value) string {
	switch x := v.(type) {
	case IntV:
		return fmt.Sprintf("int%v", x.wrap)
	case BoolV:
		return "bool"
	case StrV:
		return "str"
	case SliceV:
		return fmt.Sprintf("slice%d", x.reg)
	case PtrV:
		if x.isElem {
			return fmt.Sprintf("elem%d%s", x.reg, x.sub)
		}
		return fmt.Sprintf("ptr%d%s", x.obj, x.path)
	case *SymV, NilV:
		return "sym"
	case *HandleV:
		return fmt.Sprintf("handle%v/%d", x.dyn, x.state)
	case IfaceV:
		return fmt.Sprintf("iface(%s)%s", x.dyn, shapeKey(x.v))
	case StructV:
		var sb strings.Builder
		for _, f := range x.f {
			sb.WriteString(shapeKey(f))
			sb.WriteByte(',')
		}
		return "{" + sb.String() + "}"
	}
	return fmt.Sprintf("%T", v)
}

func (ls *loopSolve) leafAtom(id, leaf string, typ types.Type) Atom {
	k := id + leaf
	if a, ok := ls.leafAtoms[k]; ok {
		return a
	}
	name := strings.TrimPrefix(k, "p:") + "'"
	var a Atom
	if strings.HasSuffix(leaf, ".nil") || strings.HasSuffix(leaf, "eof") {
		a = NewAtomRange(name, 0, 1)
	} else if strings.HasSuffix(leaf, ".len") || strings.HasSuffix(leaf, ".cap") || strings.HasSuffix(leaf, ".off") || strings.HasSuffix(leaf, ".idx") {
		a = NewAtomMin(name, 0)
	} else {
		a = NewAtom(name)
		if typ != nil {
			lo, hi, hasLo, hasHi := typeRange(typ)
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				lo, hi, hasLo, hasHi = 0, 1, true, true
			}
			atoms[a].Lo, atoms[a].HasLo = lo, hasLo
			atoms[a].Hi, atoms[a].HasHi = hi, hasHi
		}
	}
	ls.leafAtoms[k] = a
	ls.isLeaf[a] = true
	return a
}

// generalize makes a value of the shape of v whose integer components are the location's leaf atoms.
func (ls *loopSolve) generalize(id, leaf string, v Value, typ types.Type) Value {
	switch x := v.(type) {
	case IntV:
		return IntV{p: AtomPoly(ls.leafAtom(id, leaf, typ)), wrap: x.wrap}
	case BoolV:
		return BoolV{Rel{AtomPoly(ls.leafAtom(id, leaf, types.Typ[types.Bool])).AddConst(-1), EQ}}
	case SliceV:
		s := SliceV{reg: x.reg,
			off: AtomPoly(ls.leafAtom(id, leaf+".off", nil)),
			len: AtomPoly(ls.leafAtom(id, leaf+".len", nil)),
			cap: AtomPoly(ls.leafAtom(id, leaf+".cap", nil))}
		if x.hasNil {
			s.hasNil = true
			s.nilAtom = ls.leafAtom(id, leaf+".nil", nil)
		}
		return s
	case PtrV:
		if x.isElem {
			x.idx = AtomPoly(ls.leafAtom(id, leaf+".idx", nil))
		}
		return x
	case StructV:
		n := StructV{make([]Value, len(x.f))}
		var st *types.Struct
		if typ != nil {
			st, _ = typ.Underlying().(*types.Struct)
		}
		for i, f := range x.f {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			n.f[i] = ls.generalize(id, fmt.Sprintf("%s/%d", leaf, i), f, ft)
		}
		return n
	case IfaceV:
		return IfaceV{dyn: x.dyn, v: ls.generalize(id, leaf+"/i", x.v, x.dyn)}
	case *HandleV:
		k := fmt.Sprintf("%s/%d", id, x.state)
		h := ls.handles[k]
		if h == nil {
			h = &HandleV{dyn: x.dyn, state: x.state, mode: AtomPoly(ls.leafAtom(id, leaf+".mode", nil)),
				sym: ls.ip.newSym(x.sym.typ, "handle "+id)}
			h.sym.nonnil = true
			ls.ip.symSeq++
			h.path = symTerm(fmt.Sprintf("path(%s)#%d", id, ls.ip.symSeq))
			ls.handles[k] = h
			ls.handleIDs[h.sym.id] = true
			ls.ip.Hooks.Name(h)
		}
		return h
	case *SymV, NilV:
		s := ls.ip.newSym(typ, id+leaf)
		s.nilAtom = ls.leafAtom(id, leaf+".nil", nil)
		if typ != nil && isErrorType(typ) {
			s.err = &errInfo{unknown: true}
			ls.leafAtom(id, leaf+".eof", nil)
			ls.leafAtom(id, leaf+".iseof", nil)
		}
		return s
	}
	if typ != nil {
		return ls.ip.fresh(ls.entry, id+leaf, typ)
	}
	return v
}

func valueEq(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case IntV:
		y, ok := b.(IntV)
		return ok && x.p.Equal(y.p) && x.wrap == y.wrap
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x.r.op == y.r.op && x.r.p.Equal(y.r.p)
	case StrV:
		y, ok := b.(StrV)
		return ok && x.t == y.t
	case FloatV:
		_, ok := b.(FloatV)
		return ok
	case NilV:
		_, ok := b.(NilV)
		return ok
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.obj == y.obj && x.path == y.path && x.isElem == y.isElem && x.reg == y.reg && x.sub == y.sub && x.idx.Equal(y.idx)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.reg == y.reg && x.off.Equal(y.off) && x.len.Equal(y.len) && x.cap.Equal(y.cap) && x.hasNil == y.hasNil && x.nilAtom == y.nilAtom
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !valueEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valueEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		y, ok := b.(ArrayV)
		return ok && x.content == y.content
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.dyn, y.dyn) && valueEq(x.v, y.v)
	case *SymV:
		y, ok := b.(*SymV)
		return ok && x == y
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !valueEq(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *HandleV:
		y, ok := b.(*HandleV)
		return ok && x.sym == y.sym && x.path == y.path
	case MapV:
		y, ok := b.(MapV)
		return ok && x.obj == y.obj
	case IterV:
		y, ok := b.(IterV)
		return ok && valueEq(x.over, y.over)
	}
	return false
}

func (ls *loopSolve) frame(st *State) *Frame { return st.frames[ls.depth-1] }

func (ls *loopSolve) get(st *State, l *loc) Value { return ls.growView(l, ls.rawGet(st, l)) }

// growView makes the value of a slice that grows independent of its storage.
func (ls *loopSolve) growView(l *loc, v Value) Value {
	r, ok := ls.grow[l.id]
	if !ok {
		return v
	}
	switch x := v.(type) {
	case NilV:
		return SliceV{reg: r, off: Const(0), len: Const(0), cap: Const(0), hasNil: true, nilAtom: ls.nilOnce}
	case SliceV:
		x.reg, x.off = r, Const(0)
		return x
	}
	return v
}

// growLoc notes that a location holds slices made in the loop.
func (ls *loopSolve) growLoc(h *State, id string, a, b Value) {
	l := ls.locs[id]
	if l == nil || l.kind != 'p' && l.kind != 'c' || l.typ == nil || ls.grow[id] != 0 {
		return
	}
	st, ok := l.typ.Underlying().(*types.Slice)
	if !ok {
		return
	}
	inLoop := false
	for _, v := range []Value{a, b} {
		switch x := v.(type) {
		case NilV:
		case SliceV:
			inLoop = inLoop || x.reg >= ls.regMark
		default:
			return
		}
	}
	if !inLoop {
		return
	}
	r := ls.ip.newRegion(h, "slice "+strings.TrimPrefix(id, "p:"), st.Elem(), false)
	if ls.grow == nil {
		ls.grow = map[string]Region{}
		ls.nilOnce = NewAtomRange("nil", 1, 1)
	}
	ls.grow[id] = r
	ls.regs[r] = true
	for _, v := range []Value{a, b} {
		if x, ok := v.(SliceV); ok && x.reg != 0 && x.reg < ls.regMark {
			ls.regs[x.reg] = true
		}
	}
	ls.dirtyMod = true
	ls.discovered = false
	if ls.ip.Hooks != nil && ls.ip.Hooks.ElemNote != nil {
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			ls.addLoc(&loc{kind: 'n', id: "n:" + id, own: l})
		}
	}
	if ls.ip.Track != nil {
		for i, idx := range ls.ip.tracked(h, r) {
			ls.addLoc(&loc{kind: 'e', id: fmt.Sprintf("e:%s[%d]", id, i), reg: r, idx: idx, typ: st.Elem(), own: l})
		}
	}
}

// element reads a tracked element.
func (ls *loopSolve) element(st *State, l *loc) []stVal {
	if l.own == nil {
		return ls.ip.readElem(st, l.reg, l.idx)
	}
	s, ok := ls.rawGet(st, l.own).(SliceV)
	if !ok || s.reg == 0 {
		return []stVal{{st, ls.ip.fresh(st, "none", l.typ)}}
	}
	for _, id := range ls.order {
		if o := ls.locs[id]; o != l.own && (o.kind == 'p' || o.kind == 'c') {
			if t, ok := ls.rawGet(st, o).(SliceV); ok && t.reg == s.reg && s.reg >= ls.regMark {
				return []stVal{{st, ls.ip.fresh(st, "shared", l.typ)}}
			}
		}
	}
	return ls.ip.readElem(st, s.reg, s.off.Add(l.idx))
}

func (ls *loopSolve) rawGet(st *State, l *loc) Value {
	switch l.kind {
	case 'p':
		f := ls.frame(st)
		return ls.view(st, f.env[f.info.index[l.phi]])
	case 'c':
		if v, ok := st.cells[l.cell]; ok {
			return ls.view(st, v)
		}
		return ls.view(st, ls.ip.loadCell(st, l.cell.obj, l.cell.path, l.typ))
	case 'm':
		return ls.ip.mapHas(st, l.cell.obj, l.key)
	case 'n':
		return IntV{p: Const(ls.ip.Hooks.ElemNote(ls.entry, st, ls.rawGet(st, l.own)))}
	case 'g':
		return st.ghost[l.gkey]
	}
	return nil
}

func (ls *loopSolve) put(st *State, l *loc, v Value) {
	if h, ok := v.(*HandleV); ok {
		v = ls.ip.Hooks.Make(st, h)
	}
	switch l.kind {
	case 'p':
		f := ls.frame(st)
		f.env[f.info.index[l.phi]] = v
	case 'c':
		st.cells[l.cell] = v
	case 'g':
		if v == nil {
			delete(st.ghost, l.gkey)
		} else {
			st.ghost[l.gkey] = v
		}
	}
}

func (ls *loopSolve) addLoc(l *loc) bool {
	if _, ok := ls.locs[l.id]; ok {
		return false
	}
	ls.locs[l.id] = l
	ls.order = append(ls.order, l.id)
	sort.Strings(ls.order)
	return true
}

// notePred registers a comparison with a tracked element as a partition predicate of the active loops.
func (ip *Interp) notePred(p Poly) {
	if len(ip.loopStack) == 0 || len(ip.Skolems) == 0 {
		return
	}
	for _, k := range ip.Skolems {
		q, ok := predOf(p, k)
		if !ok {
			continue
		}
		for _, ls := range ip.loopStack {
			ok, hasLeaf := ls.leafOrOld(q)
			if !ok || !hasLeaf {
				// A single element of a block: compare with it as a whole.
				if ok, hasLeaf = ls.leafOrOld(p); ok && hasLeaf {
					q = p
				}
			}
			if ok && hasLeaf {
				key := q.Key()
				if _, dup := ls.preds[key]; !dup {
					if len(ls.preds) < 3 || ls.ip.ExitPreds && len(ls.preds) < 4 {
						ls.preds[key] = q
						ls.dirtyMod = true
					}
				}
			}
		}
	}
}

// noteExit registers the condition on which a loop is left as a partition predicate of the loop.
func (ip *Interp) noteExit(st *State, x *ssa.If) {
	if len(ip.loopStack) == 0 {
		return
	}
	ls := ip.loopStack[len(ip.loopStack)-1]
	b := x.Block()
	if b.Comment == "rangeindex.loop" || !ls.loop.blocks[b] || ls.loop.blocks[b.Succs[0]] && ls.loop.blocks[b.Succs[1]] {
		return
	}
	v, ok := ip.eval(st, x.Cond).(BoolV)
	if !ok || v.r.op == NE {
		return
	}
	if ok, hasLeaf := ls.leafOrOld(v.r.p); !ok || !hasLeaf {
		return
	}
	key := v.r.p.Key()
	if _, dup := ls.preds[key]; !dup && len(ls.preds) < 4 {
		ls.preds[key] = v.r.p
		ls.dirtyMod = true
	}
}

// predOf brings p into the form E - k.
func predOf(p Poly, k Atom) (Poly, bool) {
	n := 0
	var km MonoID
	var kc int64
	for _, t := range p.t {
		for _, a := range monos[t.m].atoms {
			if a == k {
				n++
				km, kc = t.m, t.k
			}
		}
	}
	if n != 1 {
		return Poly{}, false
	}
	rest, _ := monoDiv(km, internMono([]Atom{k}))
	if len(rest) == 0 {
		if kc == 1 {
			p = p.Neg()
		} else if kc != -1 {
			return Poly{}, false
		}
		return p, true
	}
	m := Poly{t: []term{{internMono(rest), kc}}}
	q, _ := p.divideBy(m)
	// q = E' + k with coefficient 1 for k.
	return q.Neg(), true
}

func (ip *Interp) analyzeLoop(entry *State, l *loopInfo) []*State {
	if ip.silent == 0 {
		ip.Loops++
	}
	ls := &loopSolve{
		ip: ip, loop: l, depth: len(entry.frames),
		locs: map[string]*loc{}, regs: map[Region]bool{}, maps: map[ObjID]bool{},
		preds: map[string]Poly{}, leafAtoms: map[string]Atom{}, isLeaf: map[Atom]bool{},
		handles: map[string]*HandleV{}, handleIDs: map[int]bool{},
		mark: Atom(len(atoms)), objMark: ObjID(len(ip.objs)), regMark: Region(len(ip.regions)),
		entry: entry,
	}
	for _, in := range l.head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		name := phi.Comment
		if name == "" {
			name = phi.Name()
		}
		ls.addLoc(&loc{kind: 'p', id: "p:" + name + "." + phi.Name(), typ: phi.Type(), phi: phi})
	}
	ip.loopStack = append(ip.loopStack, ls)
	defer func() { ip.loopStack = ip.loopStack[:len(ip.loopStack)-1] }()

	for round := 0; ; round++ {
		if round > 40 {
			panic(budgetExceeded{"loop analysis does not converge in " + l.head.Parent().String()})
		}
		if !ls.discovered {
			ls.dirtyMod = false
			ls.discover()
			if ls.dirtyMod {
				continue
			}
			ls.discovered = true
		}
		ls.dirtyMod = false
		var exits []*State
		ok := true
		for _, e := range ls.splitEntry(entry) {
			ex := ls.solve(e)
			if ls.dirtyMod {
				ok = false
				break
			}
			exits = append(exits, ex...)
		}
		if ok {
			return exits
		}
	}
}

// evalAt substitutes the values a location has in a state for its leaf atoms.
func (ls *loopSolve) evalAt(p Poly, sub map[Atom]Poly) Poly { return p.Subst(sub) }

func (ls *loopSolve) substOf(vals map[string]Value) map[Atom]Poly {
	sub := map[Atom]Poly{}
	for id, v := range vals {
		lv := map[string]Poly{}
		leaves(v, "", lv)
		for leaf, p := range lv {
			if a, ok := ls.leafAtoms[id+leaf]; ok {
				sub[a] = p
			}
		}
	}
	return sub
}

// roundOff derives what a comparison says on quotients: where all of it but one small number is a multiple of something.
func roundOff(st *State, r Rel) {
	if st == nil {
		return
	}
	if r.op == EQ {
		roundOff(st, Rel{r.p, GE})
		roundOff(st, Rel{r.p.Neg(), GE})
		return
	}
	if r.op != GE || len(r.p.t) < 2 {
		return
	}
	for _, t := range r.p.t {
		as := monos[t.m].atoms
		if len(as) != 1 || t.k != 1 && t.k != -1 {
			continue
		}
		a := atoms[as[0]]
		if !a.HasLo || !a.HasHi {
			continue
		}
		x := Const(a.Hi)
		if t.k < 0 {
			x = Const(a.Lo)
		}
		q := r.p.Subst(map[Atom]Poly{as[0]: x})
		if len(q.t) == 0 {
			continue
		}
		if n, ok := (Rel{q, GE}).tighten(); ok && !n.p.Equal(q) {
			st.addFact(n)
		}
	}
}

func (ls *loopSolve) signSplit(st *State, p Poly) map[string]*State {
	out := map[string]*State{}
	ge, lt := st.fork(Rel{p, GE})
	if lt != nil {
		out["<"] = lt
	}
	if ge != nil {
		gt, eq := ge.fork(Rel{p.AddConst(-1), GE})
		if gt != nil {
			out[">"] = gt
		}
		if eq != nil {
			out["="] = eq
		}
	}
	if ls.ip.ExitPreds {
		for sg, s := range out {
			roundOff(s, signRel(sg, p))
		}
	}
	return out
}

func signRel(s string, p Poly) Rel {
	switch s {
	case "<":
		return Rel{p.Neg().AddConst(-1), GE}
	case ">":
		return Rel{p.AddConst(-1), GE}
	}
	return Rel{p, EQ}
}

// arrivalsOf reads the values of all locations, splitting the state as needed.
func (ls *loopSolve) arrivalsOf(st *State) []arrival {
	cur := []arrival{{st: st, vals: map[string]Value{}}}
	for _, id := range ls.order {
		l := ls.locs[id]
		if l.kind != 'e' {
			for i := range cur {
				cur[i].vals[id] = ls.get(cur[i].st, l)
			}
			continue
		}
		var next []arrival
		for _, a := range cur {
			for _, sv := range ls.element(a.st, l) {
				vals := map[string]Value{}
				for k, v := range a.vals {
					vals[k] = v
				}
				vals[id] = sv.v
				next = append(next, arrival{st: sv.st, vals: vals})
			}
		}
		cur = next
	}
	return cur
}

func (ls *loopSolve) splitEntry(entry *State) []*State {
	cur := []*State{entry.clone()}
	for _, k := range sortedKeys(ls.preds) {
		p := ls.preds[k]
		var next []*State
		for _, s := range cur {
			for _, a := range ls.arrivalsOf(s) {
				m := ls.signSplit(a.st, ls.evalAt(p, ls.substOf(a.vals)))
				for _, sg := range sortedKeys(m) {
					next = append(next, m[sg])
				}
			}
		}
		cur = next
	}
	return cur
}

// headState builds the header state of a partition.
func (ls *loopSolve) headState(e *State, ev map[string]Value, p *part) *State {
	h := e.clone()
	if p != nil {
		h = e.clone()
	}
	elems := map[Region][]Write{}
	var keys, notes []mapFact
	shared := map[string]Value{}
	common := func(id string) Value {
		if shared[id] == nil {
			shared[id] = ls.generalize(id, "", p.shape[id].proto, ls.locs[id].typ)
		}
		return shared[id]
	}
	reps := map[string]bool{}
	if p != nil {
		for _, r := range p.alias {
			reps[r] = true
		}
	}
	for _, id := range ls.order {
		l := ls.locs[id]
		var v Value
		sh := &shape{}
		if p != nil && p.shape[id] != nil {
			sh = p.shape[id]
		}
		rep := id
		if p != nil && p.alias[id] != "" {
			rep = p.alias[id]
		}
		if p != nil && (rep != id || reps[id]) && sh.proto != nil && p.shape[rep] != nil && p.shape[rep].proto != nil {
			v = common(rep)
			if rep != id {
				h.addFact(Eq(AtomPoly(ls.leafAtom(id, ".nil", nil)), AtomPoly(ls.leafAtom(rep, ".nil", nil))))
			}
		} else if p == nil {
			// Discovery: everything unknown, in the shape of the entry value.
			v = ls.generalize(id, "", ev[id], l.typ)
		} else if sh.same {
			v = ev[id]
			if _, isHandle := v.(*HandleV); isHandle {
				// The state the loop is entered in has it already.
				continue
			}
		} else if sh.fix != nil {
			v = sh.fix
		} else if sh.proto != nil {
			v = ls.generalize(id, "", sh.proto, l.typ)
		} else if l.typ != nil {
			v = ls.ip.fresh(h, strings.TrimPrefix(id, "p:")+"'", l.typ)
		}
		if sv, ok := v.(*SymV); ok && !sh.same && sh.fix == nil && rep == id && sv.err != nil && sv.err.unknown {
			if a, ok := ls.leafAtoms[id+".eof"]; ok {
				eq := ls.ip.symEq(h, sv, ls.ip.sentinelSym(ioEOF)).r.p.AddConst(1)
				h.addFact(Eq(eq, AtomPoly(a)))
				h.addFact(Eq(ls.ip.errIsAtom(sv, ioEOF), AtomPoly(ls.leafAtoms[id+".iseof"])))
			}
		}
		if sv, ok := v.(SliceV); ok && !sh.same {
			h.addFact(Le(sv.len, sv.cap))
			if sv.hasNil {
				ls.ip.sliceFacts(h, sv)
			}
		}
		if l.kind == 'e' {
			elems[l.reg] = append(elems[l.reg], Write{lo: l.idx, hi: l.idx.AddConst(1), val: v})
			continue
		}
		if l.kind == 'm' {
			keys = append(keys, mapFact{l, v})
			continue
		}
		if l.kind == 'n' {
			notes = append(notes, mapFact{l, v})
			continue
		}
		ls.put(h, l, v)
	}
	for _, n := range notes {
		if c, ok := n.v.(IntV); ok {
			if k, isc := c.p.IsConst(); isc && k > 1 {
				// What is known of all elements serves better.
				delete(elems, ls.grow[n.l.own.id])
			}
		}
	}
	for r := range ls.regs {
		c := ls.ip.newContent(false)
		for _, w := range elems[r] {
			c = c.push(w)
		}
		h.regs[r] = c
	}
	for _, n := range notes {
		if c, ok := n.v.(IntV); ok {
			k, _ := c.p.IsConst()
			if s, ok := ls.rawGet(h, n.l.own).(SliceV); ok && k != 0 && s.reg != 0 && ls.regs[s.reg] {
				pos := AtomPoly(ls.leafAtom(n.l.id, ".pos", nil))
				ls.ip.Hooks.SetElemNote(h, s, k, pos)
			}
		}
	}
	for m := range ls.maps {
		h.maps[m] = nil
	}
	for _, k := range keys {
		if c, ok := k.v.(IntV); ok {
			if n, isc := c.p.IsConst(); isc && n != 2 {
				var v Value
				if n > 2 {
					v, n = boolConst(n == 3), 1
				}
				if t := ls.ip.objs[k.l.cell.obj].typ; t != nil && n == 1 {
					if mt, ok := t.Underlying().(*types.Map); ok && v == nil {
						v = ls.ip.fresh(h, "mapval", mt.Elem())
					}
				}
				ls.ip.mapNote(h, k.l.cell.obj, mapEntry{k.l.key, v, int(n)})
			}
		}
	}
	if p != nil {
		ls.stride(h, ev, p)
		for _, r := range p.preds {
			h.addFact(ls.ground(r, ev, p))
		}
		for _, r := range p.facts {
			h.addFact(ls.ground(r, ev, p))
		}
	}
	ls.frame(h).visits = 0
	ls.frame(h).arrived = true
	ls.frame(h).pc = 0
	if ls.ip.OnHead != nil {
		ls.ip.OnHead(ls.ip, h, ls.loop)
	}
	ls.ip.event(h, &Event{kind: "loop", name: ls.loop.head.Parent().Name(), instr: ls.loop.head.Instrs[0]})
	return h
}

type mapFact struct {
	l *loc
	v Value
}

// mapHas tells what is known about the presence of a key in a map: 0 absent, 1 present, 2 unknown. For maps to
// booleans it also tells the value of a key that is present: 3 true, 4 false.
func (ip *Interp) mapHas(st *State, m ObjID, key Value) Value {
	res := int64(2)
	if c := ip.mapOf(st, m); c != nil {
		if c.zero {
			res = 0
		}
		for i := len(c.entries) - 1; i >= 0; i-- {
			e := c.entries[i]
			if valueEq(e.key, key) {
				res = e.has()
				break
			}
			if a, ok := e.key.(IntV); ok {
				b, ok := key.(IntV)
				if ok && !a.wrap && !b.wrap && st.proveNe(a.p, b.p) {
					continue
				}
				res = 2
				if ok && !a.wrap && !b.wrap && st.proveEq(a.p, b.p) {
					res = e.has()
				}
				break
			}
			if a, b := strOf(e.key), strOf(key); a != nil && b != nil && e.has() != res {
				eq := ip.strEq(st, a, b).r
				if st.prove(eq) {
					res = e.has()
					break
				}
				if !st.prove(eq.Neg()) {
					res = 2
				}
			}
		}
	}
	return IntV{p: Const(res)}
}

// has tells what a map entry says on its key.
func (e mapEntry) has() int64 {
	if e.present == 1 {
		if b, ok := e.val.(BoolV); ok {
			if c, isc := b.r.p.IsConst(); isc {
				if b.r.op == EQ && c == 0 || b.r.op == NE && c != 0 || b.r.op == GE && c >= 0 {
					return 3
				}
				return 4
			}
		}
	}
	return int64(e.present)
}

// ground replaces the leaf atoms of locations that keep their entry value.
func (ls *loopSolve) ground(r Rel, ev map[string]Value, p *part) Rel {
	vals := map[string]Value{}
	for id, sh := range p.shape {
		if sh.same {
			vals[id] = ev[id]
		}
	}
	return Rel{r.p.Subst(ls.substOf(vals)), r.op}
}

// groundAlso replaces the leaf atoms of further locations by their entry value.
func (ls *loopSolve) groundAlso(r Rel, ev map[string]Value, ids map[string]bool) Rel {
	vals := map[string]Value{}
	for id := range ids {
		vals[id] = ev[id]
	}
	return Rel{r.p.Subst(ls.substOf(vals)), r.op}
}

// noteMods adds everything that differs between the header state and a state at the back edge.
func (ls *loopSolve) noteMods(h, b *State) {
	for k, v := range b.cells {
		if k.obj >= ls.objMark {
			if !ls.ip.objs[k.obj].param {
				continue
			}
		}
		hv, ok := h.cells[k]
		if !ok {
			if iv, isInit := ls.ip.initCells[k]; isInit {
				hv = iv
			} else if int(k.obj) < len(ls.ip.objs) && ls.ip.objs[k.obj].zero && k.obj < ls.objMark {
				hv = nil
			} else {
				continue
			}
		}
		if hv != nil && valueEq(hv, v) {
			continue
		}
		l := &loc{kind: 'c', id: fmt.Sprintf("c:%s%s.%d", ls.ip.objs[k.obj].name, ls.ip.fieldName(ls.ip.objs[k.obj].typ, k.path), k.obj), cell: k, typ: ls.cellType(k)}
		if ls.addLoc(l) {
			ls.dirtyMod = true
			ls.discovered = false
		}
	}
	for k, v := range b.ghost {
		if valueEq(h.ghost[k], v) || ls.ownHandle(k, h) {
			continue
		}
		if ls.addLoc(&loc{kind: 'g', id: "g:" + k, gkey: k, typ: ghostType(v)}) {
			ls.dirtyMod = true
			ls.discovered = false
		}
	}
	for k := range h.ghost {
		if _, ok := b.ghost[k]; !ok && !ls.ownHandle(k, h) {
			if ls.addLoc(&loc{kind: 'g', id: "g:" + k, gkey: k, typ: ghostType(h.ghost[k])}) {
				ls.dirtyMod = true
				ls.discovered = false
			}
		}
	}
	for r, c := range b.regs {
		if r >= ls.regMark {
			continue
		}
		hc, ok := h.regs[r]
		if !ok {
			hc = ls.ip.initRegs[r]
			if hc == nil {
				continue
			}
		}
		if hc == c || ls.regs[r] {
			continue
		}
		ls.regs[r] = true
		ls.dirtyMod = true
		ls.discovered = false
		if ls.ip.Track != nil {
			for i, idx := range ls.ip.tracked(h, r) {
				ls.addLoc(&loc{kind: 'e', id: fmt.Sprintf("e:%s.%d.%d", ls.ip.regions[r].name, r, i), reg: r, idx: idx, typ: ls.ip.regions[r].elem})
			}
		}
	}
	for m, c := range b.maps {
		if m >= ls.objMark || h.maps[m] == c || ls.maps[m] {
			continue
		}
		ls.maps[m] = true
		ls.dirtyMod = true
		if ls.ip.Hooks != nil && ls.ip.Hooks.Keys != nil {
			for i, k := range ls.ip.Hooks.Keys(h, m) {
				ls.addLoc(&loc{kind: 'm', id: fmt.Sprintf("m:%d.%d", m, i), cell: cellKey{obj: m}, key: k})
			}
			ls.discovered = false
		}
	}
}

// ownHandle tells if a ghost is the typestate of a handle that exists only within an iteration.
func (ls *loopSolve) ownHandle(k string, head *State) bool {
	if !strings.HasPrefix(k, "h/") {
		return false
	}
	if _, ok := head.ghost[k]; !ok {
		return true
	}
	var id int
	fmt.Sscanf(k, "h/%d", &id)
	return ls.handleIDs[id]
}

func ghostType(v Value) types.Type {
	switch v.(type) {
	case IntV:
		return types.Typ[types.Int]
	case BoolV:
		return types.Typ[types.Bool]
	case StrV:
		return types.Typ[types.String]
	}
	return nil
}

func (ls *loopSolve) cellType(k cellKey) types.Type {
	t := ls.ip.objs[k.obj].typ
	path := k.path
	for path != "" && t != nil {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		rest := path[1:]
		n := strings.IndexByte(rest, '.')
		part := rest
		if n < 0 {
			path = ""
		} else {
			part, path = rest[:n], rest[n:]
		}
		i := 0
		fmt.Sscanf(part, "%d", &i)
		if i >= s.NumFields() {
			return nil
		}
		t = s.Field(i).Type()
	}
	return t
}

func (ls *loopSolve) runBody(h *State) (exits []*State, backs []*State) {
	ctx := &loopCtx{depth: ls.depth, loop: ls.loop}
	exits = ls.ip.run([]*State{h}, ctx)
	return exits, ctx.backs
}

// discover runs the body once from a header state about which nothing is assumed.
func (ls *loopSolve) discover() {
	ip := ls.ip
	ip.silent++
	defer func() { ip.silent-- }()
	saved := ip.guards
	var guards []Rel
	ip.guards = &guards
	defer func() { ip.guards = saved }()
	ls.deltas = nil
	as := ls.arrivalsOf(ls.entry.clone())
	for _, a := range as {
		h := ls.headState(a.st, a.vals, nil)
		keep := h.clone()
		_, backs := ls.runBody(h)
		for _, b := range backs {
			ls.noteMods(keep, b)
			d := map[string]Poly{}
			for _, id := range ls.order {
				l := ls.locs[id]
				if l.kind == 'e' {
					continue
				}
				lv := map[string]Poly{}
				leaves(ls.get(b, l), "", lv)
				for leaf, p := range lv {
					if at, ok := ls.leafAtoms[id+leaf]; ok {
						dp := p.Sub(AtomPoly(at))
						if _, isc := dp.IsConst(); !isc && b.prove(Eq(dp, Const(0))) {
							dp = Const(0)
						}
						d[id+leaf] = dp
					}
				}
			}
			ls.deltas = append(ls.deltas, d)
		}
		break
	}
	ls.guards, ls.fixedGuards = nil, nil
	seen := map[string]bool{}
	for _, g := range guards {
		if k := g.String(); !seen[k] && len(ls.fixedGuards) < 16 && ls.oldPoly(g.p) {
			if _, isc := g.p.IsConst(); !isc {
				seen[k] = true
				ls.fixedGuards = append(ls.fixedGuards, g, g.Neg())
			}
		}
		if ok, hasLeaf := ls.leafOrOld(g.p); ok && hasLeaf {
			for _, r := range []Rel{{g.p, GE}, {g.p.Neg(), GE}} {
				if g.op == GE && r.p.Equal(g.p.Neg()) {
					r = g.Neg()
				}
				if !seen[r.p.Key()] {
					seen[r.p.Key()] = true
					ls.guards = append(ls.guards, r)
				}
			}
		}
	}
	if len(ls.guards) > 24 {
		ls.guards = ls.guards[:24]
	}
	ls.findStrides()
}

// findStrides finds the numbers that every iteration changes by a multiple of a constant.
func (ls *loopSolve) findStrides() {
	ls.strides = map[string]int64{}
	if len(ls.deltas) == 0 {
		return
	}
	for k := range ls.deltas[0] {
		g := int64(0)
		for _, d := range ls.deltas {
			c, isc := d[k].IsConst()
			if _, ok := d[k]; !ok || !isc {
				g = 1
				break
			}
			for c < 0 {
				c = -c
			}
			for g, c = c, g; c != 0; {
				g, c = c, g%c
			}
		}
		if g > 1 && !ls.noStride[k] && !strings.HasSuffix(k, ".nil") && !strings.HasSuffix(k, "eof") {
			ls.strides[k] = g
		}
	}
}

// inStride checks that an iteration changes a number as it was found to.
func (ls *loopSolve) inStride(parts map[string]*part, ev map[string]Value, a arrival) {
	sub, sub0 := ls.substOf(a.vals), ls.substOf(ev)
	for k, c := range ls.strides {
		at, ok := ls.leafAtoms[k]
		if !ok {
			continue
		}
		if q, ok := sub[at]; ok {
			if d, isc := q.Sub(AtomPoly(at)).IsConst(); isc && d%c == 0 {
				continue
			}
			// From a state with the value on entry.
			if q0, ok := sub0[at]; ok {
				if d, isc := q.Sub(q0).IsConst(); isc && d%c == 0 {
					continue
				}
			}
		}
		delete(ls.strides, k)
		if ls.noStride == nil {
			ls.noStride = map[string]bool{}
		}
		ls.noStride[k] = true
		for _, p := range parts {
			p.dirty = true
		}
	}
}

// stride makes the steps of numbers known in a header state.
func (ls *loopSolve) stride(h *State, ev map[string]Value, p *part) {
	if len(ls.strides) == 0 {
		return
	}
	sub := ls.substOf(ev)
	m := map[Atom]Poly{}
	for k, v := range h.strides {
		m[k] = v
	}
	for _, k := range sortedKeys(ls.strides) {
		at, ok := ls.leafAtoms[k]
		if !ok {
			continue
		}
		q0, ok := sub[at]
		if !ok || !ls.oldPoly(q0) {
			continue
		}
		na, ok := ls.leafAtoms[k+"#n"]
		if !ok {
			na = NewAtom(atoms[at].Name + "#n")
			ls.leafAtoms[k+"#n"] = na
		}
		x := q0.Add(AtomPoly(na).Mul(Const(ls.strides[k])))
		m[at] = x
		h.addFact(Eq(AtomPoly(at), x))
	}
	h.strides = m
}

// candidates proposes facts for a partition; only those holding for the arrival are kept.
func (ls *loopSolve) candidates(e *State, ev map[string]Value, p *part, a arrival, only map[string]bool) []Rel {
	var out []Rel
	sub := ls.substOf(a.vals)
	seen := map[string]bool{}
	try := func(r Rel) {
		t, ok := r.tighten()
		if !ok {
			return
		}
		k := fmt.Sprint(t.op) + t.p.Key()
		if seen[k] {
			return
		}
		seen[k] = true
		if a.st.prove(Rel{ls.evalAt(t.p, sub), t.op}) {
			out = append(out, t)
		}
	}
	entryLeaf := map[string]Poly{}
	var names []string
	for _, id := range ls.order {
		if p.shape[id] == nil || p.shape[id].same || p.shape[id].fix != nil {
			continue
		}
		lv := map[string]Poly{}
		leaves(ev[id], "", lv)
		for leaf, q := range lv {
			if _, ok := ls.leafAtoms[id+leaf]; ok {
				entryLeaf[id+leaf] = q
			}
		}
		cur := map[string]Poly{}
		leaves(a.vals[id], "", cur)
		for leaf, q := range cur {
			k := id + leaf
			at, ok := ls.leafAtoms[k]
			if !ok {
				// Make sure the leaf exists.
				ls.generalize(id, "", a.vals[id], ls.locs[id].typ)
				at, ok = ls.leafAtoms[k]
				if !ok {
					continue
				}
			}
			names = append(names, k)
			x := AtomPoly(at)
			if ls.oldPoly(q) {
				try(Eq(x, q))
			}
			try(Rel{x, GE})
			if strings.HasSuffix(k, "eof") {
				try(Eq(x, Const(0)))
				try(Eq(x, Const(1)))
				continue
			}
			if q0, ok := entryLeaf[k]; ok && ls.oldPoly(q0) {
				try(Eq(x, q0))
				try(Le(q0, x))
				try(Lt(q0, x))
				try(Le(x, q0))
			}
		}
	}
	sort.Strings(names)
	// Linear relations between locations that change in step.
	nd := len(ls.deltas)
	if nd > 0 {
		uniform := func(k string) (Poly, bool) {
			d0, ok := ls.deltas[0][k]
			if !ok {
				return Poly{}, false
			}
			for _, d := range ls.deltas[1:] {
				dk, ok := d[k]
				if !ok || !dk.Equal(d0) {
					return Poly{}, false
				}
			}
			return d0, true
		}
		for i, x := range names {
			// Locations whose values differ by a constant.
			for _, y := range names[i+1:] {
				d := sub[ls.leafAtoms[x]].Sub(sub[ls.leafAtoms[y]])
				c, isc := d.IsConst()
				if !isc && ls.ip.PairFacts {
					isc, c = a.st.proveEq(d, Const(0)), 0
				}
				if isc && !strings.HasSuffix(x, ".nil") && !strings.HasSuffix(y, ".nil") {
					try(Eq(AtomPoly(ls.leafAtoms[x]).Sub(AtomPoly(ls.leafAtoms[y])), Const(c)))
				}
			}
			x0, ok := entryLeaf[x]
			if !ok {
				continue
			}
			ax := AtomPoly(ls.leafAtoms[x])
			dx, xu := uniform(x)
			cx, xc := dx.IsConst()
			for j, y := range names {
				if i == j {
					continue
				}
				y0, ok := entryLeaf[y]
				if !ok {
					continue
				}
				ay := AtomPoly(ls.leafAtoms[y])
				if _, isc := y0.IsConst(); ls.ip.ExitPreds && !isc && ls.oldPoly(y0) {
					// Reaching what another began with.
					try(Eq(ax, y0))
				}
				if ls.ip.ExitPreds && j > i {
					for _, d := range ls.deltas {
						d1, ok1 := d[x].IsConst()
						d2, ok2 := d[y].IsConst()
						if ok1 && ok2 && d1 != 0 && d2 != 0 {
							try(Eq(ay.Sub(y0).Mul(Const(d1)), ax.Sub(x0).Mul(Const(d2))))
						}
					}
				}
				if xu && xc && cx != 0 {
					if dy, yu := uniform(y); yu && ls.oldPoly(dy) {
						if c, isc := dy.IsConst(); !isc || (c != 0 && j > i) {
							try(Eq(ay.Sub(y0).Mul(Const(cx)), dy.Mul(ax.Sub(x0))))
						}
						continue
					}
				}
				if j < i {
					continue
				}
				// One never grows by more than the other.
				slower, faster := true, true
				for _, d := range ls.deltas {
					a1, ok1 := d[x]
					a2, ok2 := d[y]
					if ok1 && ok2 {
						c, isc := a1.Sub(a2).IsConst()
						slower, faster = slower && isc && c <= 0, faster && isc && c >= 0
					} else {
						slower, faster = false, false
					}
				}
				if slower != faster && !strings.HasSuffix(x, ".nil") && !strings.HasSuffix(y, ".nil") {
					if slower {
						try(Le(ax.Sub(x0), ay.Sub(y0)))
					} else {
						try(Le(ay.Sub(y0), ax.Sub(x0)))
					}
				}
				same, opp := true, true
				same1, opp1 := false, false
				for _, d := range ls.deltas {
					a1, ok1 := d[x]
					a2, ok2 := d[y]
					if !ok1 || !ok2 {
						same, opp = false, false
						break
					}
					if ls.ip.ExitPreds {
						// In a partition, not all ways through the body need to be possible.
						same1, opp1 = same1 || a1.Equal(a2), opp1 || a1.Equal(a2.Neg())
					}
					if !a1.Equal(a2) {
						same = false
					}
					if !a1.Equal(a2.Neg()) {
						opp = false
					}
				}
				if !same && !opp {
					// In proportion.
					if c1, c2, ok := ls.ratio(x, y); ok {
						try(Eq(ay.Sub(y0).Mul(c1), ax.Sub(x0).Mul(c2)))
					}
				}
				if same || same1 {
					try(Eq(ay.Sub(y0), ax.Sub(x0)))
				}
				if opp || opp1 {
					try(Eq(ay.Sub(y0), x0.Sub(ax)))
				}
			}
			// Ordering between pairs that are ordered on entry.
			if len(names) <= 8 {
				for j, y := range names {
					if i != j && !strings.HasSuffix(x, ".nil") && !strings.HasSuffix(y, ".nil") {
						try(Le(ax, AtomPoly(ls.leafAtoms[y])))
					}
				}
			}
		}
	}
	for _, g := range ls.guards {
		try(g)
		try(Rel{g.p.AddConst(-1), GE})
		// Counting up to a bound in steps that never pass it.
		try(Rel{g.p.AddConst(1), GE})
		// Relaxed by one iteration.
		for _, d := range ls.deltas {
			s := map[Atom]Poly{}
			for k, dp := range d {
				s[ls.leafAtoms[k]] = AtomPoly(ls.leafAtoms[k]).Add(dp)
			}
			diff := g.p.Subst(s).Sub(g.p)
			if ls.oldPoly(diff) {
				if c, isc := diff.IsConst(); isc && c >= 0 {
					continue
				}
				try(Rel{g.p.Sub(diff), GE})
				// Down to the point where the condition just fails: p >= diff - ... for larger steps.
			}
		}
	}
	// What an iteration found out about values from before the loop.
	n := 0
	for i := len(a.st.cons) - 1; i >= 0 && n < 8; i-- {
		if r := a.st.cons[i]; r.op == EQ && ls.oldPoly(r.p) && !e.hasCon(r) {
			n++
			try(r)
		}
	}
	for i := len(a.st.nes) - 1; i >= len(e.nes) && n < 16; i-- {
		if r := a.st.nes[i]; ls.oldPoly(r.p) {
			n++
			try(r)
		}
	}
	for _, g := range ls.fixedGuards {
		try(g)
	}
	// What holds in another partition may hold here too.
	if len(ls.pool) < 400 {
		for _, r := range ls.pool {
			if !ls.mentionsUnknown(r, p) {
				try(r)
			}
		}
	}
	if only != nil {
		var f []Rel
		for _, r := range out {
			hit := false
			r.p.Atoms(func(at Atom) {
				for k, b := range ls.leafAtoms {
					if b == at {
						for id := range only {
							if strings.HasPrefix(k, id) {
								hit = true
							}
						}
					}
				}
			})
			if hit {
				f = append(f, r)
			}
		}
		return f
	}
	return out
}

// ratio tells how far two locations move together, if the ways through the body agree.
func (ls *loopSolve) ratio(x, y string) (c1, c2 Poly, ok bool) {
	for _, d := range ls.deltas {
		a1, ok1 := d[x]
		a2, ok2 := d[y]
		if !ok1 || !ok2 || !ls.oldPoly(a1) || !ls.oldPoly(a2) {
			return c1, c2, false
		}
		if !ok {
			if k, isc := a1.IsConst(); isc && k == 0 {
				if k, isc := a2.IsConst(); !isc || k != 0 {
					return c1, c2, false
				}
				continue
			}
			_, isc1 := a1.IsConst()
			_, isc2 := a2.IsConst()
			if !isc1 && !isc2 {
				return c1, c2, false
			}
			c1, c2, ok = a1, a2, true
			continue
		}
		if !a1.Mul(c2).Equal(a2.Mul(c1)) {
			return c1, c2, false
		}
	}
	return c1, c2, ok
}

// join merges an arrival into its partition; it reports whether the partition changed.
func (ls *loopSolve) join(parts map[string]*part, e *State, ev map[string]Value, sig string, preds []Rel, a arrival) {
	p := parts[sig]
	if p == nil {
		p = &part{sig: sig, preds: preds, shape: map[string]*shape{}, dirty: true, alias: ls.aliases(ev, a)}
		for _, id := range ls.order {
			if valueEq(ev[id], a.vals[id]) {
				p.shape[id] = &shape{same: true}
			} else if ls.locs[id].isMode() && a.vals[id] != nil {
				p.shape[id] = &shape{fix: a.vals[id]}
			} else if ls.locs[id].kind == 'e' && ls.fixable(a.vals[id]) {
				p.shape[id] = &shape{fix: a.vals[id], from: a.from, batch: a.batch}
			} else {
				p.shape[id] = &shape{proto: a.vals[id]}
				ls.generalize(id, "", a.vals[id], ls.locs[id].typ)
			}
		}
		p.facts = ls.candidates(e, ev, p, a, nil)
		ls.pool = append(ls.pool, p.facts...)
		parts[sig] = p
		return
	}
	newly := map[string]bool{}
	for id, rep := range p.alias {
		if x, ok := a.vals[id].(*SymV); !ok || a.vals[rep] != Value(x) {
			delete(p.alias, id)
			p.dirty = true
		}
	}
	for _, id := range ls.order {
		sh := p.shape[id]
		switch {
		case sh == nil: // a new location, everything starts again
		case sh.same:
			if !valueEq(ev[id], a.vals[id]) {
				if m := mergeShape(ev[id], a.vals[id]); m != nil {
					p.shape[id] = &shape{proto: m}
					ls.generalize(id, "", p.shape[id].proto, ls.locs[id].typ)
					newly[id] = true
				} else {
					p.shape[id] = &shape{}
					ls.growLoc(e, id, ev[id], a.vals[id])
				}
				p.dirty = true
			}
		case sh.fix != nil && !ls.locs[id].isMode():
			if valueEq(sh.fix, a.vals[id]) {
				if sh.from == a.from {
					sh.batch = a.batch
				}
				break
			}
			p.dirty = true
			if sh.from == a.from && sh.batch != a.batch && sh.flips < 4 && ls.fixable(a.vals[id]) {
				// The partition it comes from was analysed again.
				p.shape[id] = &shape{fix: a.vals[id], from: a.from, batch: a.batch, flips: sh.flips + 1}
				break
			}
			p.shape[id] = &shape{}
			if m := mergeShape(sh.fix, a.vals[id]); m != nil {
				p.shape[id] = &shape{proto: m}
				ls.generalize(id, "", p.shape[id].proto, ls.locs[id].typ)
			}
		case sh.proto != nil:
			if m := mergeShape(sh.proto, a.vals[id]); m == nil {
				p.shape[id] = &shape{}
				ls.growLoc(e, id, sh.proto, a.vals[id])
				p.dirty = true
			} else if shapeKey(m) != shapeKey(sh.proto) || !valueEq(mergeProto(sh.proto, a.vals[id]), sh.proto) {
				p.shape[id] = &shape{proto: m}
				ls.generalize(id, "", m, ls.locs[id].typ)
				p.dirty = true
			}
		}
	}
	sub := ls.substOf(a.vals)
	var kept []Rel
	before := p.facts
	for _, r := range p.facts {
		// Facts about locations of unknown shape are lost.
		if ls.mentionsUnknown(r, p) || !a.st.prove(Rel{ls.evalAt(r.p, sub), r.op}) {
			p.dirty = true
			if ls.ip.Debug {
				fmt.Printf("drop in %s b%d part %q: %s at %s\n", ls.loop.head.Parent().Name(), ls.loop.head.Index, p.sig, r, Rel{ls.evalAt(r.p, sub), r.op})
				if strings.Contains(r.String(), os.Getenv("WHY")) && os.Getenv("WHY") != "" {
					for _, c := range a.st.cons {
						fmt.Println("     ", c)
					}
				}
			}
			continue
		}
		kept = append(kept, r)
	}
	p.facts = kept
	if len(newly) > 0 {
		// The location kept its entry value so far: propose facts that hold for both.
		cands := ls.candidates(e, ev, p, a, newly)
		// All earlier arrivals satisfy the facts kept so far.
		base := e.clone()
		for _, r := range p.preds {
			base.addFact(ls.groundAlso(ls.ground(r, ev, p), ev, newly))
		}
		for _, r := range before {
			base.addFact(ls.ground(r, ev, p))
		}
		oldVals := map[string]Value{}
		for id := range newly {
			oldVals[id] = ev[id]
		}
		osub := ls.substOf(oldVals)
		for _, r := range cands {
			if base.prove(Rel{r.p.Subst(osub), r.op}) {
				p.facts = append(p.facts, r)
			}
		}
	}
}

// aliases finds locations that vary and hold the same unknown object.
func (ls *loopSolve) aliases(ev map[string]Value, a arrival) map[string]string {
	out := map[string]string{}
	reps := map[*SymV]string{}
	for _, id := range ls.order {
		l := ls.locs[id]
		x, ok := a.vals[id].(*SymV)
		if !ok || l.typ == nil || l.isMode() || l.kind == 'e' || valueEq(ev[id], x) {
			continue
		}
		if r, ok := reps[x]; ok {
			out[id] = r
		} else {
			reps[x] = id
		}
	}
	for _, id := range ls.order {
		l := ls.locs[id]
		if x, ok := a.vals[id].(*SymV); ok && l.typ == nil && l.kind == 'g' && !l.isMode() && !valueEq(ev[id], x) {
			if r, ok := reps[x]; ok {
				out[id] = r
			}
		}
	}
	return out
}

// mergeShape gives a value of the shape both have; parts of different shape are left open.
func mergeShape(a, b Value) Value {
	switch x := a.(type) {
	case nil:
		return nil
	case StructV:
		if y, ok := b.(StructV); ok && len(x.f) == len(y.f) {
			n := StructV{make([]Value, len(x.f))}
			for i := range x.f {
				n.f[i] = mergeShape(x.f[i], y.f[i])
			}
			return n
		}
		return nil
	case IfaceV:
		if y, ok := b.(IfaceV); ok && types.Identical(x.dyn, y.dyn) {
			if m := mergeShape(x.v, y.v); m != nil {
				return IfaceV{dyn: x.dyn, v: m}
			}
		}
		return nil
	}
	if b == nil || shapeKey(a) != shapeKey(b) {
		return nil
	}
	return mergeProto(a, b)
}

// fixable tells if a value, other than a number, does not depend on what varies in the loop.
func (ls *loopSolve) fixable(v Value) bool {
	switch x := v.(type) {
	case IntV:
		return ls.noLeaf(x.p)
	case BoolV:
		return ls.noLeaf(x.r.p)
	case StrV:
		return ls.noLeafTerm(x.t)
	case *SymV:
		return x.nilAtom >= 0 && ls.noLeaf(AtomPoly(x.nilAtom))
	case IfaceV:
		return ls.fixable(x.v)
	case NilV:
		return true
	case PtrV:
		// What is reached through input objects is the same whenever it is read.
		return !x.isElem && ls.ip.objs[x.obj].param && !ls.ip.objs[x.obj].zero
	case StructV:
		for _, f := range x.f {
			if !ls.fixable(f) {
				return false
			}
		}
		return true
	}
	return false
}

func (ls *loopSolve) noLeafTerm(t *Term) bool {
	if !ls.noLeaf(t.ln) || t.op == "bytes" {
		return false
	}
	for _, a := range t.args {
		if !ls.noLeafTerm(a) {
			return false
		}
	}
	return true
}

// noLeaf tells if a polynomial does not depend on what varies in the loop.
func (ls *loopSolve) noLeaf(p Poly) bool {
	ok := true
	var visit func(a Atom)
	visit = func(a Atom) {
		if ls.isLeaf[a] {
			ok = false
		}
		for _, b := range memoDeps[a] {
			if ok {
				visit(b)
			}
		}
	}
	p.Atoms(func(a Atom) {
		if ok {
			visit(a)
		}
	})
	return ok
}

func mergeProto(a, b Value) Value {
	if _, ok := a.(NilV); ok {
		return b
	}
	if x, ok := a.(SliceV); ok && !x.hasNil {
		if y, ok := b.(SliceV); ok && y.hasNil {
			return y
		}
	}
	return a
}

func (ls *loopSolve) mentionsUnknown(r Rel, p *part) bool {
	bad := false
	r.p.Atoms(func(a Atom) {
		if !ls.isLeaf[a] {
			return
		}
		for k, at := range ls.leafAtoms {
			if at != a {
				continue
			}
			for id, sh := range p.shape {
				if strings.HasPrefix(k, id) && !sh.same && sh.proto == nil && sh.fix == nil {
					bad = true
				}
			}
		}
	})
	return bad
}

func (ls *loopSolve) solve(e *State) []*State {
	ip := ls.ip
	var all []*State
	for _, ea := range ls.arrivalsOf(e) {
		ex := ls.solveOne(ea)
		if ls.dirtyMod {
			return nil
		}
		all = append(all, ex...)
	}
	_ = ip
	return all
}

func (ls *loopSolve) solveOne(ea arrival) []*State {
	ip := ls.ip
	e, ev := ea.st, ea.vals
	parts := map[string]*part{}
	ls.pool = nil
	from, batch := "", 0
	arrive := func(a arrival) {
		type item struct {
			st    *State
			sig   string
			preds []Rel
		}
		cur := []item{{a.st, ls.modeSig(a.vals), nil}}
		for _, k := range sortedKeys(ls.preds) {
			pp := ls.preds[k]
			var next []item
			for _, it := range cur {
				m := ls.signSplit(it.st, ls.evalAt(pp, ls.substOf(a.vals)))
				for _, sg := range sortedKeys(m) {
					next = append(next, item{m[sg], it.sig + sg, append(it.preds[:len(it.preds):len(it.preds)], signRel(sg, pp))})
				}
			}
			cur = next
		}
		for _, it := range cur {
			ls.join(parts, e, ev, it.sig, it.preds, arrival{st: it.st, vals: a.vals, from: from, batch: batch})
		}
	}
	arrive(arrival{st: e.clone(), vals: ev})
	ip.silent++
	for iter := 0; ; iter++ {
		if iter > 200 {
			ip.silent--
			panic(budgetExceeded{"loop invariants do not converge in " + ls.loop.head.Parent().String()})
		}
		var p *part
		for _, k := range sortedKeys(parts) {
			if parts[k].dirty {
				p = parts[k]
				break
			}
		}
		if p == nil {
			break
		}
		p.dirty = false
		from, batch = "p"+p.sig, iter+1
		h := ls.headState(e, ev, p)
		p.head = h.clone()
		_, backs := ls.runBody(h)
		for _, b := range backs {
			ls.noteMods(p.head, b)
		}
		if ls.dirtyMod {
			ip.silent--
			return nil
		}
		for _, b := range backs {
			for _, a := range ls.arrivalsOf(b) {
				ls.inStride(parts, ev, a)
				arrive(a)
				if ls.dirtyMod {
					ip.silent--
					return nil
				}
			}
		}
	}
	ip.silent--
	var exits []*State
	for _, k := range sortedKeys(parts) {
		p := parts[k]
		h := ls.headState(e, ev, p)
		head := h.clone()
		if ip.Debug {
			ls.dump(p)
		}
		ex, backs := ls.runBody(h)
		exits = append(exits, ex...)
		if ls.dirtyMod {
			return nil
		}
		if ip.Hooks != nil && ip.silent == 0 {
			for _, b := range backs {
				live := map[*SymV]bool{}
				for _, id := range ls.order {
					if h, ok := ls.get(b, ls.locs[id]).(*HandleV); ok {
						live[h.sym] = true
					}
				}
				ip.Hooks.Back(b, e, live)
			}
		}
		if ip.OnEdge != nil && ip.silent == 0 {
			for _, b := range backs {
				ip.OnEdge(ip, b, head)
			}
		}
	}
	return exits
}

func (ls *loopSolve) dump(p *part) {
	fmt.Printf("loop %s b%d silent=%d part %q\n", ls.loop.head.Parent(), ls.loop.head.Index, ls.ip.silent, p.sig)
	for _, id := range ls.order {
		sh := p.shape[id]
		switch {
		case sh.same:
			fmt.Printf("   %s: unchanged\n", id)
		case sh.fix != nil:
			fmt.Printf("   %s: is %s\n", id, showVal(sh.fix))
		case sh.proto == nil:
			fmt.Printf("   %s: unknown\n", id)
		default:
			fmt.Printf("   %s: shape %s\n", id, shapeKey(sh.proto))
		}
	}
	for _, r := range p.preds {
		fmt.Printf("   pred %s\n", r)
	}
	for _, r := range p.facts {
		fmt.Printf("   fact %s\n", r)
	}
}
